#pragma once
#include "json_common.hpp"

#include <cerrno>
#include <cstdlib>

// A reference parser for RFC 8259 with the library's documented extensions, and a generator of
// documents.
namespace ref {

struct JsonRules
{
    bool comments {false};
    bool trailing_comma {false};
    bool any_type {false};
};

class JsonText
{
public:
    JsonText(std::string_view text, JsonRules rules) : t(text), r(rules) {}

    // Nothing when the text is not valid.
    std::optional<MV> parse()
    {
        MV m;
        if (!ws() || !value(m) || !ws() || p != t.size())
            return std::nullopt;
        if (m.k != MV::Arr && m.k != MV::Obj && !r.any_type)
            return std::nullopt;
        return m;
    }
    // Some number lies outside of what the library's number types can hold: whether such a text is
    // accepted is up to the implementation (RFC 8259, section 6).
    bool limit {false};
    // Something beyond plain JSON was used.
    bool extended {false};
    std::size_t deepest {0};

private:
    bool ws()
    {
        for (;;)
        {
            while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r'))
                ++p;
            if (p >= t.size() || t[p] != '/')
                return true;
            if (!r.comments || p + 1 >= t.size())
                return false;
            extended = true;
            if (t[p + 1] == '/')
            {
                p = std::min(t.find('\n', p), t.size());
            }
            else if (t[p + 1] == '*')
            {
                std::size_t const e = t.find("*/", p + 2);
                if (e == std::string_view::npos)
                    return false;
                p = e + 2;
            }
            else
                return false;
        }
    }
    bool literal(char const *w)
    {
        std::size_t const n = std::strlen(w);
        if (t.substr(p, n) != w)
            return false;
        p += n;
        return true;
    }
    bool string(std::string &out)
    {
        if (p >= t.size() || t[p] != '"')
            return false;
        std::size_t const b = ++p;
        while (p < t.size() && t[p] != '"')
            p += t[p] == '\\' ? 2 : 1;
        if (p >= t.size())
            return false;
        auto const v = json_body(t.substr(b, p - b));
        ++p;
        if (!v)
            return false;
        out = *v;
        return true;
    }
    bool digits()
    {
        std::size_t const b = p;
        while (p < t.size() && t[p] >= '0' && t[p] <= '9')
            ++p;
        return p > b;
    }
    bool number(MV &m)
    {
        std::size_t const b = p;
        bool const minus = t[p] == '-';
        p += minus;
        if (p < t.size() && t[p] == '0')
            ++p;
        else if (!digits())
            return false;
        bool real = false;
        if (p < t.size() && t[p] == '.')
        {
            real = true;
            ++p;
            if (!digits())
                return false;
        }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
        {
            real = true;
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-'))
                ++p;
            if (!digits())
                return false;
        }
        std::string const text(t.substr(b, p - b));
        if (real)
        {
            errno = 0;
            m = MV::real(std::strtold(text.c_str(), nullptr));
            limit |= errno == ERANGE || !std::isfinite(m.f);
            return true;
        }
        unsigned __int128 v = 0;
        for (char c : text)
            if (c != '-' && v < (static_cast<unsigned __int128>(1) << 100))
                v = v * 10 + static_cast<unsigned>(c - '0');
        if (minus)
        {
            limit |= v > (static_cast<unsigned __int128>(1) << 63);
            m = MV::integer(static_cast<std::int64_t>(-static_cast<std::uint64_t>(v)));
        }
        else
        {
            limit |= v > ~static_cast<std::uint64_t>(0);
            m = MV::natural(static_cast<std::uint64_t>(v));
        }
        return true;
    }
    bool value(MV &m)
    {
        if (p >= t.size())
            return false;
        switch (t[p])
        {
            case '{':
            case '[':
            {
                deepest = std::max(deepest, ++depth);
                bool const ok = t[p] == '{' ? object(m) : array(m);
                --depth;
                return ok;
            }
            case '"': m.k = MV::Str; return string(m.s);
            case 't': m = MV::boolean(true); return literal("true");
            case 'f': m = MV::boolean(false); return literal("false");
            case 'n': m = MV(); return literal("null");
            case '-':
            case '0': case '1': case '2': case '3': case '4':
            case '5': case '6': case '7': case '8': case '9':
                return number(m);
            default: return false;
        }
    }
    template <typename Item>
    bool items(char close, Item item)
    {
        ++p;
        if (!ws())
            return false;
        if (p < t.size() && t[p] == close)
            return ++p, true;
        for (;;)
        {
            if (!item() || !ws() || p >= t.size())
                return false;
            if (t[p] == close)
                return ++p, true;
            if (t[p] != ',')
                return false;
            ++p;
            if (!ws())
                return false;
            if (p < t.size() && t[p] == close && r.trailing_comma)
            {
                extended = true;
                return ++p, true;
            }
        }
    }
    bool object(MV &m)
    {
        m = MV::obj();
        return items('}', [&] {
            std::string key;
            MV v;
            if (!string(key) || !ws() || p >= t.size() || t[p] != ':')
                return false;
            ++p;
            if (!ws() || !value(v))
                return false;
            m.o[key] = std::move(v);
            return true;
        });
    }
    bool array(MV &m)
    {
        m = MV::arr();
        return items(']', [&] {
            MV v;
            if (!value(v))
                return false;
            m.a.push_back(std::move(v));
            return true;
        });
    }
    std::string_view t;
    JsonRules r;
    std::size_t p {0};
    std::size_t depth {0};
};

} // namespace ref

namespace gen {

// How much a generated document leaves plain JSON.
struct JsonStyle
{
    bool comments {false};
    bool trailing_comma {false};
};

inline std::string json_space(pbt::Src &s, JsonStyle st)
{
    std::string r;
    for (std::size_t n = s.chance(1, 3) ? 1 + s.below(3) : 0; n > 0; --n)
    {
        if (st.comments && s.chance(1, 3))
            r += s.pick<char const *>({"//\n", "// x ] } \" \n", "/**/", "/* a\n * / , */", "/***/", "/*/*/", "//*\n"});
        else
            r += s.pick<char>({' ', '\n', '\t', '\r'});
    }
    return r;
}

inline std::string json_string(pbt::Src &s, std::string const &v)
{
    std::string r = "\"";
    auto const cps = *ref::decode_all<char>(v);
    for (auto c : cps)
    {
        bool const must = c < 0x20 || c == '"' || c == '\\';
        if (!must && !s.chance(1, 6))
        {
            r += ref::encode<char>(c);
            continue;
        }
        char const *const shorts = "\"\\/bfnrt";
        static ref::CP const meant[] = {'"', '\\', '/', 8, 12, 10, 13, 9};
        std::size_t k = 0;
        while (k < 8 && meant[k] != c)
            ++k;
        bool const upper = s.flip();
        if (k < 8 && s.chance(2, 3))
            (r += '\\') += shorts[k];
        else if (c < 0x10000)
            r += pbt::strf(upper ? "\\u%04X" : "\\u%04x", c);
        else
            r += pbt::strf(upper ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff));
    }
    return r + "\"";
}

inline std::string json_number(pbt::Src &s)
{
    auto digits = [&](std::size_t max) {
        std::string d(1 + s.below(max), '0');
        for (auto &c : d)
            c = static_cast<char>('0' + s.below(10));
        return d;
    };
    std::string r = s.chance(1, 3) ? "-" : "";
    switch (s.below(4))
    {
        case 0: r += std::to_string(s.below(100)); break;
        case 1: r += "0"; break;
        case 2: r += std::to_string(s.interesting()); break;
        default: r += static_cast<char>('1' + s.below(9)) + digits(s.chance(1, 8) ? 25 : 4);
    }
    if (s.chance(1, 4))
        r += "." + digits(s.chance(1, 8) ? 30 : 4);
    if (s.chance(1, 4))
        r += s.pick<char const *>({"e", "E", "e+", "E-", "e-", "E+"}) + (s.chance(1, 8) ? digits(4) : std::to_string(s.below(40)));
    return r;
}

inline std::string json_document(pbt::Src &s, unsigned depth, JsonStyle st, bool root = true)
{
    std::string r = root ? json_space(s, st) : "";
    std::size_t const kind = (depth > 0 && (root ? s.chance(7, 8) : s.chance(1, 2))) ? 5 + s.below(2) : s.below(5);
    switch (kind)
    {
        case 0: r += "null"; break;
        case 1: r += "true"; break;
        case 2: r += "false"; break;
        case 3: r += json_number(s); break;
        case 4: r += json_string(s, json_text(s, 6)); break;
        default:
        {
            bool const arr = kind == 5;
            std::size_t const n = s.length(5);
            (r += arr ? '[' : '{') += json_space(s, st);
            for (std::size_t k = 0; k < n; ++k)
            {
                if (!arr)
                {
                    r += json_string(s, key(s));
                    r += json_space(s, st);
                    r += ':';
                    r += json_space(s, st);
                }
                r += json_document(s, depth - 1, st, false) + json_space(s, st);
                if (k + 1 < n || (st.trailing_comma && s.chance(1, 3)))
                    r += ',', r += json_space(s, st);
            }
            r += arr ? ']' : '}';
        }
    }
    return r + (root ? json_space(s, st) : "");
}

} // namespace gen
