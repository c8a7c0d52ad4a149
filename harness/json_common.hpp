#pragma once
#include "str_common.hpp"

#include "fly/logger/logger.hpp"
#include "fly/types/json/json.hpp"
#include "fly/types/json/json_exception.hpp"

#include <cmath>
#include <cstring>
#include <limits>
#include <map>

// A reference model of JSON values: plain data, compared with fly::Json only through its public
// interface.
struct MV
{
    enum Kind
    {
        Null,
        Str,
        Obj,
        Arr,
        Bool,
        Int,
        Uint,
        Flt
    };
    Kind k {Null};
    std::string s;
    std::map<std::string, MV> o;
    std::vector<MV> a;
    bool b {false};
    std::int64_t i {0};
    std::uint64_t u {0};
    long double f {0};

    static MV str(std::string v) { MV m; m.k = Str; m.s = std::move(v); return m; }
    static MV obj() { MV m; m.k = Obj; return m; }
    static MV arr() { MV m; m.k = Arr; return m; }
    static MV boolean(bool v) { MV m; m.k = Bool; m.b = v; return m; }
    static MV integer(std::int64_t v) { MV m; m.k = Int; m.i = v; return m; }
    static MV natural(std::uint64_t v) { MV m; m.k = Uint; m.u = v; return m; }
    static MV real(long double v) { MV m; m.k = Flt; m.f = v; return m; }

    std::size_t size() const
    {
        switch (k)
        {
            case Null: return 0;
            case Str: return s.size();
            case Obj: return o.size();
            case Arr: return a.size();
            default: return 1;
        }
    }
};

namespace ref {

// The body of a JSON string (between the quotes) to the string it denotes; nothing when invalid.
inline std::optional<std::string> json_body(std::string_view t)
{
    if (!decode_all<char>(t))
        return std::nullopt;
    std::string r;
    auto hex4 = [&](std::size_t at, CP &out) {
        if (at + 4 > t.size())
            return false;
        out = 0;
        for (std::size_t k = at; k < at + 4; ++k)
        {
            char const c = t[k];
            CP d;
            if (c >= '0' && c <= '9') d = static_cast<CP>(c - '0');
            else if (c >= 'a' && c <= 'f') d = static_cast<CP>(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') d = static_cast<CP>(c - 'A' + 10);
            else return false;
            out = out * 16 + d;
        }
        return true;
    };
    for (std::size_t i = 0; i < t.size();)
    {
        auto const c = static_cast<unsigned char>(t[i]);
        if (c < 0x20 || c == '"')
            return std::nullopt;
        if (c != '\\')
        {
            r += t[i++];
            continue;
        }
        if (i + 1 >= t.size())
            return std::nullopt;
        char const e = t[i + 1];
        i += 2;
        switch (e)
        {
            case '"': case '\\': case '/': r += e; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u':
            {
                CP cp = 0;
                if (!hex4(i, cp))
                    return std::nullopt;
                i += 4;
                if (cp >= 0xdc00 && cp <= 0xdfff)
                    return std::nullopt;
                if (cp >= 0xd800 && cp <= 0xdbff)
                {
                    CP lo = 0;
                    if (i + 2 > t.size() || t[i] != '\\' || t[i + 1] != 'u' || !hex4(i + 2, lo) || lo < 0xdc00 || lo > 0xdfff)
                        return std::nullopt;
                    i += 6;
                    cp = 0x10000 + (cp - 0xd800) * 0x400 + (lo - 0xdc00);
                }
                r += encode<char>(cp);
                break;
            }
            default: return std::nullopt;
        }
    }
    return r;
}

// A JSON string body that denotes s (which must be valid UTF-8).
inline std::string json_escape(std::string const &s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += c;
        else if (static_cast<unsigned char>(c) < 0x20)
            r += pbt::strf("\\u%04x", static_cast<unsigned>(c));
        else
            r += c;
    }
    return r;
}

// Text of a model value, for reports.
inline std::string show(MV const &m)
{
    switch (m.k)
    {
        case MV::Null: return "null";
        case MV::Str: return pbt::show(m.s);
        case MV::Bool: return m.b ? "true" : "false";
        case MV::Int: return std::to_string(m.i);
        case MV::Uint: return std::to_string(m.u) + "u";
        case MV::Flt: return pbt::strf("%.21Lgf", m.f);
        case MV::Arr:
        {
            std::string r = "[";
            for (auto const &e : m.a)
                r += show(e) + ",";
            return r + "]";
        }
        default:
        {
            std::string r = "{";
            for (auto const &[k, v] : m.o)
                r += pbt::show(k) + ":" + show(v) + ",";
            return r + "}";
        }
    }
}

// The value itself, built through fly::Json's constructors only.
inline fly::Json make(MV const &m)
{
    switch (m.k)
    {
        case MV::Null: return nullptr;
        case MV::Str: return fly::Json(json_escape(m.s));
        case MV::Bool: return fly::Json(m.b);
        case MV::Int: return fly::Json(m.i);
        case MV::Uint: return fly::Json(m.u);
        case MV::Flt: return fly::Json(m.f);
        case MV::Arr:
        {
            fly::json_array_type a;
            for (auto const &e : m.a)
                a.push_back(make(e));
            return fly::Json(std::move(a));
        }
        default:
        {
            std::map<std::string, fly::Json> o;
            for (auto const &[k, v] : m.o)
                o.emplace(json_escape(k), make(v));
            return fly::Json(std::move(o));
        }
    }
}

inline std::string text_of(fly::Json const &j)
{
    return static_cast<std::string>(j);
}

// How j differs from m, or an empty string. Integers match whatever their signedness when
// 'loose', where floating point numbers need only agree to the given relative precision.
inline std::string diff(fly::Json const &j, MV const &m, bool loose = false, long double precision = 0)
{
    auto kind = [&]() -> std::string {
        return pbt::strf("null=%d str=%d obj=%d arr=%d bool=%d int=%d uint=%d flt=%d", j.is_null(), j.is_string(), j.is_object(), j.is_array(), j.is_boolean(), j.is_signed_integer(), j.is_unsigned_integer(), j.is_float());
    };
    int const kinds = j.is_null() + j.is_string() + j.is_object() + j.is_array() + j.is_boolean() + j.is_signed_integer() + j.is_unsigned_integer() + j.is_float();
    if (kinds != 1)
        return "not of exactly one type: " + kind();
    bool const number = j.is_signed_integer() || j.is_unsigned_integer() || j.is_float();
    if (loose && number && m.k >= MV::Int)
    {
        long double want = m.k == MV::Int ? static_cast<long double>(m.i) : m.k == MV::Uint ? static_cast<long double>(m.u) : m.f;
        auto const got = static_cast<long double>(j);
        if (got == want || std::fabs(got - want) <= precision * std::fabs(want))
            return {};
        return pbt::strf("number %.21Lg, expected %s", got, show(m).c_str());
    }
    bool ok = false;
    switch (m.k)
    {
        case MV::Null: ok = j.is_null(); break;
        case MV::Str: ok = j.is_string(); break;
        case MV::Obj: ok = j.is_object(); break;
        case MV::Arr: ok = j.is_array(); break;
        case MV::Bool: ok = j.is_boolean(); break;
        case MV::Int: ok = j.is_signed_integer(); break;
        case MV::Uint: ok = j.is_unsigned_integer(); break;
        default: ok = j.is_float(); break;
    }
    if (!ok)
        return "type: " + kind() + ", expected " + show(m);
    if (j.size() != m.size() || j.empty() != (m.size() == 0))
        return pbt::strf("size %zu empty %d, expected %s", j.size(), j.empty(), show(m).c_str());
    switch (m.k)
    {
        case MV::Null: return {};
        case MV::Str: return text_of(j) == m.s ? "" : pbt::show(text_of(j)) + ", expected " + show(m);
        case MV::Bool: return static_cast<bool>(j) == m.b ? "" : "wrong boolean";
        case MV::Int: return static_cast<std::int64_t>(j) == m.i ? "" : pbt::strf("%jd, expected %s", static_cast<std::intmax_t>(static_cast<std::int64_t>(j)), show(m).c_str());
        case MV::Uint: return static_cast<std::uint64_t>(j) == m.u ? "" : pbt::strf("%ju, expected %s", static_cast<std::uintmax_t>(static_cast<std::uint64_t>(j)), show(m).c_str());
        case MV::Flt:
        {
            auto const got = static_cast<long double>(j);
            bool const same = (got == m.f && std::signbit(got) == std::signbit(m.f)) || (std::isnan(got) && std::isnan(m.f)) || (loose && std::fabs(got - m.f) <= precision * std::fabs(m.f));
            return same ? "" : pbt::strf("%.21Lg, expected %s", got, show(m).c_str());
        }
        case MV::Arr:
        {
            std::size_t n = 0;
            for (auto it = j.begin(); it != j.end(); ++it, ++n)
            {
                if (n >= m.a.size())
                    return "iteration does not end";
                if (auto d = diff(*it, m.a[n], loose, precision); !d.empty())
                    return pbt::strf("[%zu]: ", n) + d;
                if (&j[n] != &*it)
                    return pbt::strf("element %zu is not the iterated one", n);
            }
            return n == m.a.size() ? "" : "iteration too short";
        }
        default:
        {
            auto w = m.o.begin();
            for (auto it = j.begin(); it != j.end(); ++it, ++w)
            {
                if (w == m.o.end())
                    return "iteration does not end";
                if (it.key() != w->first)
                    return "key " + pbt::show(it.key()) + ", expected " + pbt::show(w->first);
                if (auto d = diff(*it, w->second, loose, precision); !d.empty())
                    return "[" + pbt::show(w->first) + "]: " + d;
            }
            return w == m.o.end() ? "" : "iteration too short";
        }
    }
}

} // namespace ref

namespace gen {

// A string that is valid UTF-8 and free of what JSON escapes (for use as literal text).
inline std::string plain_text(pbt::Src &s, std::size_t max)
{
    std::string r;
    for (auto c : codepoints(s, max))
        r += ref::encode<char>(c < 0x20 || c == '"' || c == '\\' ? 'a' + c % 26 : c);
    return r;
}

inline std::string json_text(pbt::Src &s, std::size_t max)
{
    std::string r;
    for (auto c : codepoints(s, max))
        r += ref::encode<char>(c);
    return r;
}

inline std::string key(pbt::Src &s)
{
    static char const *const names[] = {"a", "b", "c", "aa", "", "z"};
    return s.chance(4, 5) ? names[s.below(6)] : json_text(s, 4);
}

inline long double real(pbt::Src &s)
{
    switch (s.below(6))
    {
        case 0: return static_cast<long double>(s.range(-20, 20));
        case 1: return static_cast<long double>(s.range(-1000, 1000)) / 16;
        case 2: return static_cast<long double>(static_cast<std::int64_t>(s.interesting()));
        case 3: return std::ldexp(static_cast<long double>(s.interesting()), static_cast<int>(s.range(-80, 80)));
        case 4: return -std::ldexp(static_cast<long double>(s.below(1000)), static_cast<int>(s.range(-40, 40)));
        default: return s.pick<long double>({0.0L, -0.0L, 0.1L, 1e10L, 1e300L, 1e-300L, 1.5e18L, -2.5L});
    }
}

inline MV scalar(pbt::Src &s)
{
    switch (s.below(6))
    {
        case 0: return MV();
        case 1: return MV::str(s.chance(1, 2) ? key(s) : json_text(s, 8));
        case 2: return MV::boolean(s.flip());
        case 3: return MV::integer(static_cast<std::int64_t>(s.interesting()));
        case 4: return MV::natural(s.interesting());
        default: return MV::real(real(s));
    }
}

inline MV value(pbt::Src &s, unsigned depth, std::size_t width = 4)
{
    if (depth == 0 || s.chance(1, 2))
        return scalar(s);
    std::size_t const n = s.length(width);
    if (s.flip())
    {
        MV m = MV::arr();
        for (std::size_t k = 0; k < n; ++k)
            m.a.push_back(value(s, depth - 1, width));
        return m;
    }
    MV m = MV::obj();
    for (std::size_t k = 0; k < n; ++k)
        m.o[key(s)] = value(s, depth - 1, width);
    return m;
}

} // namespace gen

