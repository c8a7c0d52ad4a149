// J05: the JSON parser against a reference parser for RFC 8259 and the documented extensions.
#include "json_parse.hpp"
#include "quiet.hpp"

#include "fly/parser/json_parser.hpp"

namespace {

using Features = fly::parser::JsonParser::Features;

struct Config
{
    ref::JsonRules rules;
    Features features {Features::Strict};
};

Config config(pbt::Src &s)
{
    Config c;
    std::uint64_t const bits = s.below(9);
    if (bits == 8)
    {
        c.rules = {true, true, true};
        c.features = Features::AllFeatures;
        return c;
    }
    c.rules = {(bits & 1) != 0, (bits & 2) != 0, (bits & 4) != 0};
    if (bits & 1)
        c.features = c.features | Features::AllowComments;
    if (bits & 2)
        c.features = c.features | Features::AllowTrailingComma;
    if (bits & 4)
        c.features = c.features | Features::AllowAnyType;
    return c;
}

// Documents nested deeper than this may be rejected (RFC 8259, section 9).
constexpr std::size_t assured_depth = 64;

void compare(pbt::Src &s, std::string const &text, Config const &c)
{
    if (s.want_note())
        s.note(pbt::strf("comments=%d trailing=%d any=%d ", c.rules.comments, c.rules.trailing_comma, c.rules.any_type) + pbt::show(text));
    ref::JsonText reference(text, c.rules);
    auto const want = reference.parse();
    fly::parser::JsonParser parser = c.features == Features::Strict && s.flip() ? fly::parser::JsonParser() : fly::parser::JsonParser(c.features);
    auto const got = parser.parse_string(text);
    if (want && (reference.limit || reference.deepest > assured_depth))
    {
        s.label("beyond assured limits");
        return;
    }
    PBT_CHECK(got.has_value() == want.has_value(), "features %u, %s: %s, expected %s", static_cast<unsigned>(c.features), pbt::show(text).c_str(), got ? ("accepted as " + got->serialize()).c_str() : "rejected", want ? ref::show(*want).c_str() : "rejected");
    if (!want)
    {
        s.label("rejected");
        return;
    }
    auto const d = ref::diff(*got, *want);
    PBT_CHECK(d.empty(), "features %u, %s: %s", static_cast<unsigned>(c.features), pbt::show(text).c_str(), d.c_str());
    s.nontrivial();
    if (reference.extended)
        s.label("uses an extension");
    if (s.chance(1, 8))
    {
        auto const again = parser.parse_string(text);
        PBT_CHECK(again && ref::diff(*again, *want).empty(), "second parse of %s differs", pbt::show(text).c_str());
    }
}

void valid(pbt::Src &s)
{
    Config const c = config(s);
    gen::JsonStyle st {c.rules.comments || s.chance(1, 20), c.rules.trailing_comma || s.chance(1, 20)};
    compare(s, gen::json_document(s, static_cast<unsigned>(s.below(5)), st), c);
}

void mutated(pbt::Src &s)
{
    Config const c = config(s);
    gen::JsonStyle st {c.rules.comments && s.chance(1, 2), c.rules.trailing_comma && s.chance(1, 2)};
    auto t = gen::json_document(s, static_cast<unsigned>(s.below(4)), st);
    static char const *const bits[] = {",", ":", "{", "}", "[", "]", "\"", "\\", "/", "*", "//", "/*", "*/", "0", "1", "-", "+", ".", "e", "E", "x", "0x1", "\n", "\v", "\f", " ", "\t", "\r", "t", "true", "null", "NaN", "inf", "\\u", "\\ud800", "\\udc00", "\\u00", "\x7f", "\x80", "\xc3", "\xff", "\x01", "'", "a", "\xef\xbb\xbf", "p", "_", "1.", ".5", "1e", "00"};
    for (std::size_t n = 1 + s.below(3); n > 0; --n)
    {
        std::size_t const at = s.below(t.size() + 1);
        std::string const b = s.chance(1, 12) ? std::string(1, static_cast<char>(s.byte())) : bits[s.below(sizeof(bits) / sizeof(*bits))];
        switch (s.below(4))
        {
            case 0: t.insert(at, b); break;
            case 1: if (at < t.size()) t.erase(at, 1); break;
            case 2: if (at < t.size()) t.replace(at, 1, b); break;
            default: if (at < t.size()) t.erase(at, 1 + s.below(6));
        }
    }
    compare(s, t, c);
}

void soup(pbt::Src &s)
{
    Config const c = config(s);
    static char const *const bits[] = {",", ":", "{", "}", "[", "]", "[", "{", "\"\"", "\"a\"", "\"", "/", "*", "//", "/**/", "/*", "*/", "0", "1", "-1", "1.5", "1e2", "-", "+", ".", "e", "\n", "\v", " ", "true", "false", "null", "\\", "nul", "x", "0x1.8"};
    std::string t;
    for (std::size_t n = s.length(16); n > 0; --n)
        t += bits[s.below(sizeof(bits) / sizeof(*bits))];
    if (s.chance(1, 3))
        t = "[" + t + "]";
    compare(s, t, c);
}

void scalars(pbt::Src &s)
{
    // one number-like or literal-like token
    Config c;
    c.rules.any_type = true;
    c.features = Features::AllowAnyType;
    static char const *const bits[] = {"0", "1", "9", "-", "+", ".", "e", "E", "x", "X", "p", "00", "12", "inf", "nan", "f", "F", "L", "u", "_", " ", "'", ",", "\v", "18446744073709551615", "9223372036854775808"};
    std::string t;
    if (s.chance(1, 4))
        t = gen::json_number(s);
    for (std::size_t n = s.below(6); n > 0; --n)
        t += bits[s.below(sizeof(bits) / sizeof(*bits))];
    compare(s, t, c);
}

void deep(pbt::Src &s)
{
    // never a crash; accepted means the value has exactly that depth
    Config const c = config(s);
    std::size_t const depth = s.chance(1, 4) ? 1 + s.below(64) : s.chance(1, 2) ? 1 + s.below(3000) : 1 + s.below(400000);
    bool const objects = s.flip(), closed = s.chance(2, 3);
    s.note(pbt::strf("depth %zu objects %d closed %d", depth, objects, closed));
    std::string t;
    for (std::size_t k = 0; k < depth; ++k)
        t += objects ? "{\"a\":" : "[";
    if (objects)
        t += "1";
    if (closed)
        t += std::string(depth, objects ? '}' : ']');
    fly::parser::JsonParser parser(c.features);
    auto got = parser.parse_string(t);
    if (!closed)
        PBT_CHECK(!got, "unterminated nesting of depth %zu accepted", depth);
    if (closed && depth <= assured_depth)
        PBT_CHECK(got, "depth %zu rejected", depth);
    if (got)
    {
        fly::Json const *j = &*got;
        std::size_t n = 0;
        while ((j->is_array() || j->is_object()) && j->size() == 1)
            j = &*j->begin(), ++n;
        PBT_CHECK(n == (objects ? depth : depth - 1), "depth %zu came back as %zu", depth, n);
    }
    else
        PBT_CHECK(parser.parse_string(std::string("[[1]]")), "parser unusable after deep input");
    s.nontrivial();
    s.label(got ? "accepted" : "refused");
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"J05",
        "Under each of the eight feature combinations and AllFeatures: documents generated from the grammar (nested values, all number spellings up to and beyond 64 bits, all escape forms, any whitespace, comments and trailing commas where enabled and sometimes where not), the same with 1-3 edits, token soups, number-like tokens, and nesting up to 400000 levels. Non-trivial: the document is accepted and its value compared. Oracle: an independent recursive parser producing a model value.",
        {{"valid", valid, 60000, 2000000}, {"mutated", mutated, 120000, 4000000}, {"soup", soup, 150000, 5000000}, {"scalars", scalars, 120000, 4000000}, {"deep", deep, 200, 4000}},
        {}, {"whether numbers outside the range of int64 (negative), uint64 (non-negative) or long double are accepted is left open, as RFC 8259 section 6 does", "nesting deeper than 64 may be refused, never crash (RFC 8259 section 9)", "the last of several equal keys wins"}});
}
