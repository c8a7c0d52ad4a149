// S02: escaping and unescaping of Unicode codepoints.
#include "str_common.hpp"

#include "fly/types/string/string.hpp"

namespace {

template <typename C>
using Str = fly::BasicString<C>;

template <typename C>
std::basic_string<C> widen(std::string const &a)
{
    return std::basic_string<C>(a.begin(), a.end());
}

std::string ref_escape_one(ref::CP c, char prefix)
{
    if (c >= 0x20 && c <= 0x7e)
        return std::string(1, static_cast<char>(c));
    if (c <= 0xffff)
        return pbt::strf("\\u%04x", c);
    if (prefix == 'U')
        return pbt::strf("\\U%08x", c);
    return pbt::strf("\\u%04x\\u%04x", 0xd800 + (c - 0x10000) / 0x400, 0xdc00 + (c - 0x10000) % 0x400);
}

// Documented unescaping over code units. length: units consumed by the escape at i, or 0 when malformed.
template <typename C>
std::optional<ref::CP> hex(std::basic_string<C> const &t, std::size_t i, std::size_t n)
{
    if (i + n > t.size())
        return {};
    ref::CP v = 0;
    for (std::size_t k = i; k < i + n; ++k)
    {
        auto const c = ref::unit(t[k]);
        if (c >= '0' && c <= '9')
            v = v * 16 + (c - '0');
        else if (c >= 'a' && c <= 'f')
            v = v * 16 + (c - 'a' + 10);
        else if (c >= 'A' && c <= 'F')
            v = v * 16 + (c - 'A' + 10);
        else
            return {};
    }
    return v;
}

template <typename C>
bool at(std::basic_string<C> const &t, std::size_t i, char prefix)
{
    return i + 1 < t.size() && ref::unit(t[i]) == '\\' && ref::unit(t[i + 1]) == static_cast<ref::CP>(prefix);
}

template <typename C>
std::optional<ref::CP> ref_unescape_one(std::basic_string<C> const &t, std::size_t &i)
{
    if (at(t, i, 'U'))
    {
        auto const v = hex(t, i + 2, 8);
        if (!v || !ref::scalar(*v))
            return {};
        i += 10;
        return v;
    }
    if (!at(t, i, 'u'))
        return {};
    auto const v = hex(t, i + 2, 4);
    if (!v)
        return {};
    if (ref::scalar(*v))
    {
        i += 6;
        return v;
    }
    if (*v >= 0xdc00 || !at(t, i + 6, 'u'))
        return {};
    auto const w = hex(t, i + 8, 4);
    if (!w || *w < 0xdc00 || *w > 0xdfff)
        return {};
    i += 12;
    return 0x10000 + (*v - 0xd800) * 0x400 + (*w - 0xdc00);
}

template <typename C>
std::optional<std::basic_string<C>> ref_unescape(std::basic_string<C> const &t)
{
    std::basic_string<C> r;
    for (std::size_t i = 0; i < t.size();)
    {
        if (at(t, i, 'u') || at(t, i, 'U'))
        {
            auto const c = ref_unescape_one(t, i);
            if (!c)
                return {};
            r += ref::encode<C>(*c);
        }
        else
            r += t[i++];
    }
    return r;
}

template <char P, typename C>
void check_escape(std::basic_string<C> const &text, std::optional<std::vector<ref::CP>> const &cps, bool has_escape)
{
    gen::Exact<C> const exact(text);
    auto const got = Str<C>::template escape_all_codepoints<P>(exact.view());
    PBT_CHECK(got.has_value() == cps.has_value(), "escape(%s): %d expected %d", pbt::show(text).c_str(), got.has_value(), cps.has_value());
    C const *it = exact.data.get();
    C const *const end = it + exact.size;
    if (cps)
    {
        std::string want;
        for (auto c : *cps)
        {
            auto const one = ref_escape_one(c, P);
            auto const g = Str<C>::template escape_codepoint<P>(it, end);
            PBT_CHECK(g && *g == widen<C>(one), "escape_codepoint of U+%x", c);
            want += one;
        }
        PBT_CHECK(it == end, "escape_codepoint consumed too little of %s", pbt::show(text).c_str());
        PBT_CHECK(*got == widen<C>(want), "escape(%s) = %s, expected %s", pbt::show(text).c_str(), pbt::show(*got).c_str(), pbt::show(want).c_str());
        auto const back = Str<C>::unescape_all_codepoints(*got);
        if (!has_escape)
            PBT_CHECK(back && *back == text, "unescape(escape(%s))", pbt::show(text).c_str());
    }
}

template <typename C>
void escape(pbt::Src &s)
{
    auto const text = gen::maybe_broken<C>(s, 40, 1, 4);
    s.note(pbt::show(text));
    auto const cps = ref::decode_all<C>(text);
    bool esc = false;
    for (std::size_t i = 0; i < text.size(); ++i)
        esc |= at(text, i, 'u') || at(text, i, 'U');
    s.label(!cps ? "ill-formed" : esc ? "contains escape sequence" : "plain");
    for (auto c : text)
        if (ref::unit(c) < 0x20 || ref::unit(c) > 0x7e)
            s.nontrivial();
    check_escape<'u', C>(text, cps, esc);
    check_escape<'U', C>(text, cps, esc);
}

template <typename C>
void unescape(pbt::Src &s)
{
    // pieces: valid escapes of both forms (both hex cases), surrogates in any arrangement, malformed ones, other text
    std::basic_string<C> text;
    std::size_t const n = s.length(10);
    auto hexcase = [&](std::string t) {
        for (std::size_t i = 2; i < t.size(); ++i)
            if (t[i] != 'u' && s.flip())
                t[i] = static_cast<char>(toupper(t[i]));
        return t;
    };
    for (std::size_t k = 0; k < n; ++k)
    {
        switch (s.weighted({4, 3, 3, 2, 3, 2, 1}))
        {
            case 0: text += widen<C>(hexcase(pbt::strf("\\u%04x", gen::codepoint(s) & 0xffff))); break;
            case 1: text += widen<C>(hexcase(pbt::strf("\\U%08x", s.chance(1, 5) ? static_cast<ref::CP>(s.interesting()) : gen::codepoint(s)))); break;
            case 2: text += widen<C>(hexcase(pbt::strf("\\u%04x", static_cast<unsigned>(0xd7fe + s.below(0x405)))) + hexcase(pbt::strf("\\u%04x", static_cast<unsigned>(0xdbfe + s.below(0x404))))); break;
            case 3: text += widen<C>(pbt::strf("\\u%x", static_cast<unsigned>(s.below(0x120000)))); break;
            case 4: text += gen::maybe_broken<C>(s, 4, 1, 6); break;
            case 5: text += widen<C>(s.pick<std::string>({"\\", "\\\\", "\\n", "\\x", "u", "\\u", "\\U", "\\u00", "\\U0001", "\\u12G4", "\\u 041", "\\U0000004`", "\\u@041", "\\u/041", "\\u:041"})); break;
            default: text += widen<C>(pbt::strf("\\U%x", static_cast<unsigned>(s.interesting()))); break;
        }
    }
    if (s.chance(1, 4) && !text.empty())
        text.resize(s.below(text.size() + 1));
    if (s.chance(1, 6) && !text.empty())
        text[s.below(text.size())] = gen::unit<C>(s);
    s.note(pbt::show(text));
    auto const want = ref_unescape(text);
    s.label(want ? "accepted" : "rejected");
    for (std::size_t i = 0; i < text.size(); ++i)
        if (at(text, i, 'u') || at(text, i, 'U'))
            s.nontrivial();
    gen::Exact<C> const exact(text);
    auto const got = Str<C>::unescape_all_codepoints(exact.view());
    PBT_CHECK(got.has_value() == want.has_value(), "unescape(%s): %d expected %d", pbt::show(text).c_str(), got.has_value(), want.has_value());
    if (want)
        PBT_CHECK(*got == *want, "unescape(%s) = %s, expected %s", pbt::show(text).c_str(), pbt::show(*got).c_str(), pbt::show(*want).c_str());

    // single codepoint, at every position
    for (std::size_t i = 0; i < text.size(); ++i)
    {
        std::size_t j = i;
        auto const one = ref_unescape_one(text, j);
        C const *it = exact.data.get() + i;
        C const *const end = exact.data.get() + exact.size;
        auto const g = Str<C>::unescape_codepoint(it, end);
        PBT_CHECK(g.has_value() == one.has_value(), "unescape_codepoint at %zu of %s: %d", i, pbt::show(text).c_str(), g.has_value());
        PBT_CHECK(it <= end, "unescape_codepoint ran past the end");
        if (one)
            PBT_CHECK(*g == ref::encode<C>(*one) && it == exact.data.get() + j, "unescape_codepoint at %zu of %s", i, pbt::show(text).c_str());
    }
}

void boundaries(pbt::Src &s)
{
    std::uint64_t const block = s.enumerate(0x1100);
    s.note(pbt::strf("U+%llx..", static_cast<unsigned long long>(block * 256)));
    s.nontrivial();
    for (std::uint64_t i = 0; i < 256; ++i)
    {
        auto const c = static_cast<ref::CP>(block * 256 + i);
        if (!ref::scalar(c) || c == '\\')
            continue;
        std::vector<ref::CP> const v {c};
        check_escape<'u', char>(ref::encode<char>(c), v, false);
        check_escape<'U', char>(ref::encode<char>(c), v, false);
        check_escape<'u', char16_t>(ref::encode<char16_t>(c), v, false);
        check_escape<'U', char16_t>(ref::encode<char16_t>(c), v, false);
        check_escape<'u', char32_t>(ref::encode<char32_t>(c), v, false);
    }
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"S02",
        "Escaping: texts of 0-40 boundary codepoints, a quarter damaged, for all five character types and both prefixes, and every codepoint once. Unescaping: concatenations of valid escapes in both forms and hex cases, surrogates in all arrangements, malformed and truncated escapes and plain text. Non-trivial: something to escape, or at least one escape sequence. Oracle: documented forms rendered with printf; independent unescaper; inverse law for texts without escape sequences of their own.",
        {{"escape-char", escape<char>, 40000, 2000000}, {"escape-wchar", escape<wchar_t>, 20000, 1000000}, {"escape-char8", escape<char8_t>, 20000, 1000000}, {"escape-char16", escape<char16_t>, 40000, 2000000}, {"escape-char32", escape<char32_t>, 20000, 1000000},
         {"unescape-char", unescape<char>, 100000, 5000000}, {"unescape-wchar", unescape<wchar_t>, 40000, 2000000}, {"unescape-char8", unescape<char8_t>, 40000, 2000000}, {"unescape-char16", unescape<char16_t>, 60000, 3000000}, {"unescape-char32", unescape<char32_t>, 40000, 2000000},
         {"every-codepoint", boundaries, 0x1100, 0x1100}},
        {}, {}});
}
