// N01: the INI parser against a reference line grammar.
#include "json_common.hpp"
#include "quiet.hpp"

#include "fly/parser/ini_parser.hpp"

namespace {

std::string trim(std::string const &t)
{
    std::size_t b = 0, e = t.size();
    auto space = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while (b < e && space(t[b]))
        ++b;
    while (e > b && space(t[e - 1]))
        --e;
    return t.substr(b, e - b);
}

enum class Trim { None, Done, Bad };

Trim strip(std::string &t, char open, char close)
{
    bool const o = !t.empty() && t.front() == open, c = !t.empty() && t.back() == close;
    if (!o && !c)
        return Trim::None;
    if (!(o && c && t.size() >= 2))
        return Trim::Bad;
    t = t.substr(1, t.size() - 2);
    return Trim::Done;
}

// The documented grammar: blank lines and ';' comments are ignored, '[name]' opens a section
// (replacing an earlier one of that name), 'name=value' assigns, where one matching pair of single
// and then of double quotes around the value is removed. Names are not quoted and not empty, values
// are not empty before quotes are removed. Names and values are stored as JSON strings.
std::optional<MV> reference(std::string const &text, bool &quoted)
{
    MV doc = MV::obj();
    MV *current = nullptr;
    for (std::size_t i = 0; i < text.size();)
    {
        std::size_t const nl = std::min(text.find('\n', i), text.size());
        std::string line = trim(text.substr(i, nl - i));
        i = nl + 1;
        if (line.empty() || line[0] == ';')
            continue;
        Trim const sec = strip(line, '[', ']');
        if (sec == Trim::Bad)
            return std::nullopt;
        if (sec == Trim::Done)
        {
            std::string name = trim(line);
            for (char q : {'\'', '"'})
                if (strip(name, q, q) != Trim::None)
                    return std::nullopt;
            auto const key = ref::json_body(name);
            if (!key)
                return std::nullopt;
            current = &(doc.o[*key] = MV::obj());
            continue;
        }
        if (!current)
            return std::nullopt;
        std::size_t const eq = line.find('=');
        if (eq == std::string::npos)
            return std::nullopt;
        std::string name = trim(line.substr(0, eq)), value = trim(line.substr(eq + 1));
        if (name.empty() || value.empty())
            return std::nullopt;
        for (char q : {'\'', '"'})
            if (strip(name, q, q) != Trim::None)
                return std::nullopt;
        for (char q : {'\'', '"'})
        {
            Trim const t = strip(value, q, q);
            if (t == Trim::Bad)
                return std::nullopt;
            quoted |= t == Trim::Done;
        }
        auto const key = ref::json_body(name), val = ref::json_body(value);
        if (!key || !val)
            return std::nullopt;
        current->o[*key] = MV::str(*val);
    }
    if (doc.o.empty())
        return std::nullopt;
    return doc;
}

void compare(pbt::Src &s, std::string const &text)
{
    if (s.want_note())
        s.note(pbt::show(text));
    bool quoted = false;
    auto const want = reference(text, quoted);
    fly::parser::IniParser parser;
    auto const got = parser.parse_string(text);
    PBT_CHECK(got.has_value() == want.has_value(), "%s: %s, expected %s", pbt::show(text).c_str(), got ? "accepted" : "rejected", want ? ref::show(*want).c_str() : "rejected");
    if (want)
    {
        auto const d = ref::diff(*got, *want);
        PBT_CHECK(d.empty(), "%s: %s", pbt::show(text).c_str(), d.c_str());
        s.nontrivial();
        if (want->o.size() > 1)
            s.label("several sections");
        if (quoted)
            s.label("quoted value");
        // the same parser object can be used again
        auto const again = parser.parse_string(text);
        PBT_CHECK(again && *again == *got, "second parse of %s differs", pbt::show(text).c_str());
    }
    else
        s.label("rejected");
}

std::string space(pbt::Src &s)
{
    std::string r;
    for (std::size_t n = s.below(3); n > 0; --n)
        r += s.pick<char>({' ', '\t', '\r', '\v', '\f'});
    return r;
}

std::string word(pbt::Src &s)
{
    static char const *const words[] = {"a", "b", "name", "x y", "a=b", "=", "a;b", ";", "[", "]", "[a]", "'", "\"", "''", "\"\"", "'a'", "\"a b\"", "'\"a\"'", "\"'a'\"", "\\n", "\\u0041", "\\", "\\\"q", "a'b", "\xc3\xa9", "a=", "==b"};
    switch (s.weighted({4, 6, 1, 1}))
    {
        case 0: return std::string(1, static_cast<char>('a' + s.below(4)));
        case 1: return words[s.below(sizeof(words) / sizeof(*words))];
        case 2: return gen::plain_text(s, 8);
        default: return gen::maybe_broken<char>(s, 6, 1, 2);
    }
}

std::string quote(pbt::Src &s, std::string w)
{
    switch (s.weighted({5, 2, 2, 1, 1}))
    {
        case 1: return "'" + w + "'";
        case 2: return "\"" + w + "\"";
        case 3: return "'\"" + w + "\"'";
        case 4: return "\"'" + w + "'\"";
        default: return w;
    }
}

std::string simple(pbt::Src &s)
{
    std::string r;
    for (std::size_t n = 1 + s.below(3); n > 0; --n)
        r += static_cast<char>("abcx."[s.below(5)]);
    return r;
}

std::string line(pbt::Src &s, bool wild)
{
    auto name = [&] { return wild && s.chance(1, 3) ? word(s) : simple(s); };
    switch (s.weighted({6, 3, 1, 1, wild ? 1u : 0u}))
    {
        case 0:
        {
            std::string n = name();
            std::string const eq = space(s) + "=" + space(s);
            return n + eq + quote(s, wild ? word(s) : s.chance(1, 3) ? gen::plain_text(s, 6) + "v" : simple(s));
        }
        case 1: return "[" + space(s) + name() + space(s) + "]";
        case 2: return ";" + (s.flip() ? word(s) : std::string("[x]"));
        case 3: return "";
        default: return word(s);
    }
}

std::string document(pbt::Src &s, bool wild)
{
    std::string t;
    if (!wild || s.chance(4, 5))
        t = "[a]\n";
    std::size_t const n = s.length(12);
    for (std::size_t k = 0; k < n; ++k)
    {
        t += space(s) + line(s, wild && s.chance(1, 3)) + space(s);
        if (k + 1 < n || s.flip())
            t += s.chance(1, 8) ? "\r\n" : "\n";
    }
    return t;
}

void valid(pbt::Src &s) { compare(s, document(s, false)); }
void mixed(pbt::Src &s) { compare(s, document(s, true)); }

void mutated(pbt::Src &s)
{
    std::string t = document(s, false);
    static char const marks[] = "[]='\";\n \\\t=a";
    for (std::size_t n = 1 + s.below(3); n > 0; --n)
    {
        std::size_t const at = s.below(t.size() + 1);
        char const c = s.chance(4, 5) ? marks[s.below(sizeof(marks) - 1)] : gen::unit<char>(s);
        switch (s.below(3))
        {
            case 0: t.insert(at, 1, c); break;
            case 1: if (at < t.size()) t.erase(at, 1); break;
            default: if (at < t.size()) t[at] = c;
        }
    }
    compare(s, t);
}

void soup(pbt::Src &s)
{
    static char const marks[] = "[]='\";\n \\\tab[]==\n";
    std::string t(s.length(30), ' ');
    for (auto &c : t)
        c = s.chance(15, 16) ? marks[s.below(sizeof(marks) - 1)] : gen::unit<char>(s);
    compare(s, t);
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"N01",
        "Documents of 0-12 lines (sections, assignments, comments, blanks, duplicate names, single, double and nested quotes, escapes, extra assignment operators, LF and CRLF, inner and outer whitespace), valid by construction, with grammar-breaking words, with 1-3 mutated bytes, and soups of syntax characters and arbitrary bytes. Non-trivial: the document is accepted. Oracle: an independent line parser producing a model value; accepted values are compared field by field through the public JSON interface.",
        {{"valid", valid, 60000, 3000000}, {"mixed", mixed, 120000, 6000000}, {"mutated", mutated, 80000, 4000000}, {"soup", soup, 120000, 6000000}},
        {}, {"section names, names and values are stored as JSON strings: escapes in them are interpreted, and raw quotes inside, control characters or ill-formed UTF-8 make the document invalid", "a document without any section is rejected", "a value wrapped in both kinds of quotes loses the single quotes first, then the double quotes"}});
}
