// P01: parsing does not depend on the encoding or source of the text.
#include "json_parse.hpp"
#include "quiet.hpp"
#include "scratch.hpp"
#include "str_common.hpp"

#include "fly/parser/ini_parser.hpp"
#include "fly/parser/json_parser.hpp"

#include <memory>

namespace {

using fly::parser::IniParser;
using fly::parser::JsonParser;
using fly::parser::Parser;
using Features = JsonParser::Features;

std::unique_ptr<Parser> make_parser(std::size_t kind)
{
    if (kind == 0)
        return std::make_unique<IniParser>();
    if (kind == 1)
        return std::make_unique<JsonParser>();
    return std::make_unique<JsonParser>(Features::AllFeatures);
}

std::string ini(pbt::Src &s)
{
    std::string t;
    for (std::size_t n = s.below(4); n > 0; --n)
    {
        t += pbt::strf("[s%u]\n", static_cast<unsigned>(s.below(3)));
        for (std::size_t k = s.below(4); k > 0; --k)
            t += pbt::strf("k%u=", static_cast<unsigned>(s.below(3))) + ref::encode_all<char>(gen::codepoints(s, 5)) + "v" + s.pick<char const *>({"\n", "\r\n", "\n\n;c\n"});
    }
    return t;
}

// well-formed UTF-8 that does not begin like a byte order mark
std::string document(pbt::Src &s, std::size_t kind)
{
    std::string t;
    if (kind == 0)
        t = ini(s);
    else
    {
        t = gen::json_document(s, 3, {kind == 2, kind == 2});
        if (s.chance(1, 4)) // certainly not ASCII
            t = "[\"" + ref::encode_all<char>(gen::codepoints(s, 3)) + "\"," + t + "]";
    }
    if (s.chance(1, 12)) // beyond one buffer of the file stream
        t.insert(s.chance(1, 2) ? 0 : t.size(), 8000 + s.below(400), kind == 0 ? '\n' : ' ');
    if (s.chance(1, 6) && !t.empty())
        t.resize(s.below(t.size()));
    auto cps = ref::decode_all<char>(t);
    if (!cps)
    {
        // documents with raw bytes are for the other target
        for (auto &c : t)
            if (c & 0x80)
                c = '~';
    }
    if (t.compare(0, 3, "\xef\xbb\xbf") == 0)
        t.erase(0, 3);
    return t;
}

enum Form { Utf8, Utf8Mark, Utf16Be, Utf16Le, Utf32Be, Utf32Le, Forms };
char const *const s_names[] = {"UTF-8", "UTF-8 with mark", "UTF-16 BE", "UTF-16 LE", "UTF-32 BE", "UTF-32 LE"};

template <typename C>
std::string units(std::basic_string<C> const &t, bool little)
{
    std::string r;
    for (C c : t)
        for (std::size_t i = 0; i < sizeof(C); ++i)
            r += static_cast<char>(static_cast<std::uint32_t>(c) >> (8 * (little ? i : sizeof(C) - 1 - i)));
    return r;
}

std::string store(std::vector<ref::CP> const &cps, std::size_t form)
{
    std::vector<ref::CP> marked {0xfeff};
    marked.insert(marked.end(), cps.begin(), cps.end());
    switch (form)
    {
        case Utf8: return ref::encode_all<char>(cps);
        case Utf8Mark: return ref::encode_all<char>(marked);
        case Utf16Be:
        case Utf16Le: return units(ref::encode_all<char16_t>(marked), form == Utf16Le);
        default: return units(ref::encode_all<char32_t>(marked), form == Utf32Le);
    }
}

std::string text_of(std::optional<fly::Json> const &j)
{
    return j ? pbt::show(j->serialize()) : std::string("nothing");
}

void same(std::optional<fly::Json> const &got, std::optional<fly::Json> const &want, char const *how, std::string const &t)
{
    PBT_CHECK(got.has_value() == want.has_value() && (!got || (*got == *want && got->serialize() == want->serialize())), "%s gives %s for %s, its UTF-8 string gives %s", how, text_of(got).c_str(), pbt::show(t).c_str(), text_of(want).c_str());
}

void sources(pbt::Src &s)
{
    std::size_t const kind = s.below(3);
    std::string const t = document(s, kind);
    if (s.want_note())
        s.note(pbt::show(t));
    auto const cps = *ref::decode_all<char>(t);
    auto parser = make_parser(kind);
    auto const want = make_parser(kind)->parse_string(t);
    s.label(want ? "accepted" : "rejected");
    if (want)
        s.nontrivial();
    CaseDir d;
    std::size_t const n = 1 + s.below(4);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t const form = s.below(Forms + 4);
        switch (form)
        {
            case Forms: same(parser->parse_string(ref::encode_all<char8_t>(cps)), want, "a char8_t string", t); break;
            case Forms + 1: same(parser->parse_string(ref::encode_all<char16_t>(cps)), want, "a char16_t string", t); break;
            case Forms + 2: same(parser->parse_string(ref::encode_all<char32_t>(cps)), want, "a char32_t string", t); break;
            case Forms + 3: same(parser->parse_string(ref::encode_all<wchar_t>(cps)), want, "a wchar_t string", t); break;
            default:
                // U+0000 after the mark of UTF-16 LE is the mark of UTF-32 LE
                if (form == Utf16Le && !cps.empty() && cps[0] == 0)
                    break;
                write_file(d.path / "doc", store(cps, form));
                same(parser->parse_file(d.path / "doc"), want, (std::string("a file in ") + s_names[form]).c_str(), t);
                s.label(s_names[form]);
                break;
        }
    }
}

// what the bytes of a file denote: nothing when they are ill formed
std::optional<std::string> meaning(std::string const &b)
{
    auto starts = [&](std::string const &m) { return b.compare(0, m.size(), m) == 0; };
    auto read = [&](std::size_t skip, std::size_t size, bool little) -> std::optional<std::string> {
        if ((b.size() - skip) % size)
            return std::nullopt;
        std::u16string u16;
        std::u32string u32;
        for (std::size_t i = skip; i < b.size(); i += size)
        {
            std::uint32_t v = 0;
            for (std::size_t k = 0; k < size; ++k)
                v |= static_cast<std::uint32_t>(static_cast<unsigned char>(b[i + k])) << (8 * (little ? k : size - 1 - k));
            if (size == 2)
                u16 += static_cast<char16_t>(v);
            else
                u32 += static_cast<char32_t>(v);
        }
        auto cps = size == 2 ? ref::decode_all<char16_t>(u16) : ref::decode_all<char32_t>(u32);
        if (!cps)
            return std::nullopt;
        return ref::encode_all<char>(*cps);
    };
    if (starts("\xef\xbb\xbf"))
        return b.substr(3);
    if (starts(std::string("\0\0\xfe\xff", 4)))
        return read(4, 4, false);
    if (starts(std::string("\xff\xfe\0\0", 4)))
        return read(4, 4, true);
    if (starts("\xfe\xff"))
        return read(2, 2, false);
    if (starts("\xff\xfe"))
        return read(2, 2, true);
    return b;
}

void damaged(pbt::Src &s)
{
    std::size_t const kind = s.below(3);
    std::string b;
    if (s.chance(1, 5))
    {
        std::string const marks[] = {"", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", std::string("\0\0\xfe\xff", 4), std::string("\xff\xfe\0\0", 4)};
        b = marks[s.below(6)];
        for (std::size_t n = s.length(12); n > 0; --n)
            b += gen::unit<char>(s);
    }
    else
    {
        b = store(*ref::decode_all<char>(document(s, kind)), s.below(Forms));
        for (std::size_t n = s.below(3); n > 0; --n)
        {
            std::size_t const at = s.flip() ? s.below(b.size() + 1) : s.below(std::min<std::size_t>(b.size(), 6) + 1);
            switch (s.below(4))
            {
                case 0: b.insert(at, 1, s.pick({'\0', '\xd8', '\xdc', '\xdf', '\xff', '\xfe', '"'})); break;
                case 1: b.erase(at, 1); break;
                case 2: b.resize(b.size() - s.below(std::min<std::size_t>(b.size(), 5) + 1)); break;
                default: if (at < b.size()) b[at] = static_cast<char>(s.byte()); break;
            }
        }
    }
    if (s.want_note())
        s.note(pbt::show(b));
    CaseDir d;
    write_file(d.path / "doc", b);
    auto const t = meaning(b);
    auto parser = make_parser(kind);
    auto const got = parser->parse_file(d.path / "doc");
    s.label(t ? (got ? "accepted" : "rejected") : "ill formed");
    s.nontrivial();
    if (!t)
        PBT_CHECK(!got, "a file of the ill-formed bytes %s is parsed as %s", pbt::show(b).c_str(), text_of(got).c_str());
    else
        same(got, make_parser(kind)->parse_string(*t), ("a file of the bytes " + pbt::show(b)).c_str(), *t);
}

// ill-formed strings of other character types
template <typename C>
void ill(pbt::Src &s, char const *name)
{
    std::size_t const kind = 1 + s.below(2);
    auto const body = gen::maybe_broken<C>(s, 6, 2, 3);
    std::basic_string<C> t {static_cast<C>('['), static_cast<C>('"')};
    t += body;
    t += {static_cast<C>('"'), static_cast<C>(']')};
    auto const got = make_parser(kind)->parse_string(t);
    auto const cps = ref::decode_all<C>(t);
    s.nontrivial();
    s.label(cps ? name : "ill formed");
    if (!cps)
        PBT_CHECK(!got, "an ill-formed %s string is parsed as %s", name, text_of(got).c_str());
    else
        same(got, make_parser(kind)->parse_string(ref::encode_all<char>(*cps)), name, ref::encode_all<char>(*cps));
}

void ill_formed(pbt::Src &s)
{
    switch (s.below(4))
    {
        case 0: return ill<char8_t>(s, "char8_t");
        case 1: return ill<char16_t>(s, "char16_t");
        case 2: return ill<char32_t>(s, "char32_t");
        default: return ill<wchar_t>(s, "wchar_t");
    }
}

void unreadable(pbt::Src &s)
{
    std::size_t const kind = s.below(3);
    CaseDir d;
    auto parser = make_parser(kind);
    std::filesystem::path p;
    switch (s.below(4))
    {
        case 0: p = d.path; break;
        case 1: p = d.path / "missing"; break;
        case 2: p = d.path / "missing" / "doc"; break;
        default: p = ""; break;
    }
    s.nontrivial();
    PBT_CHECK(!parser->parse_file(p), "%s is parsed", p.c_str());
    // the parser is usable afterwards
    write_file(d.path / "doc", kind == 0 ? "[a]\nb=c\n" : "{\"a\":{\"b\":\"c\"}}");
    auto const got = parser->parse_file(d.path / "doc");
    PBT_CHECK(got && got->serialize() == "{\"a\":{\"b\":\"c\"}}", "after %s, a document is parsed as %s", p.c_str(), text_of(got).c_str());
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"P01",
        "Generated INI and JSON documents (valid and cut short, some longer than a stream buffer) are stored as UTF-8, UTF-8 with byte order mark, and UTF-16 and UTF-32 in both byte orders, and passed as strings of the four other character types, to a reused parser; the result must be that of the UTF-8 string. Files of damaged or arbitrary bytes must be rejected when an independent decoder finds them ill formed or truncated, and otherwise parse like the text they denote; ill-formed strings and unreadable files must be rejected. Non-trivial: the document is accepted (sources), or any (others).",
        {{"sources", sources, 20000, 800000}, {"damaged", damaged, 30000, 1000000}, {"ill_formed", ill_formed, 40000, 2000000}, {"unreadable", unreadable, 1000, 30000}},
        {}, {"the parse of a UTF-8 string is judged by J05 and N01", "a UTF-16 LE file whose text begins with U+0000 is indistinguishable from UTF-32 LE"}});
}
