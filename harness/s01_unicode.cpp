// S01: Unicode validation and transcoding.
#include "str_common.hpp"

#include "fly/types/string/string.hpp"

namespace {

template <typename C>
using Str = fly::BasicString<C>;

template <typename C>
void decode_target(pbt::Src &s)
{
    auto const text = s.chance(1, 4) ? [&] {
        std::basic_string<C> r(s.length(12), C {});
        for (auto &c : r)
            c = gen::unit<C>(s);
        return r;
    }()
                                     : gen::maybe_broken<C>(s, 60, 2, 3);
    s.note(pbt::show(text));
    gen::Exact<C> const exact(text);
    auto const want = ref::decode_all<C>(text);
    s.label(want ? "well-formed" : "ill-formed");
    if (!text.empty() && (!want || want->size() != text.size() || want->back() > 0x7f))
        s.nontrivial();

    PBT_CHECK(Str<C>::validate(exact.view()) == want.has_value(), "validate(%s) should be %d", pbt::show(text).c_str(), want.has_value());

    // Decode codepoint by codepoint, over pointers and over string iterators.
    C const *it = exact.data.get();
    C const *const end = it + exact.size;
    auto sit = text.begin();
    std::size_t pos = 0;
    while (it != end)
    {
        ref::CP cp = 0;
        std::size_t const n = ref::decode(text.data() + pos, text.size() - pos, cp);
        auto const got = Str<C>::decode_codepoint(it, end);
        auto const got2 = Str<C>::decode_codepoint(sit, text.end());
        PBT_CHECK(got.has_value() == (n != 0) && got == got2, "decode at %zu of %s", pos, pbt::show(text).c_str());
        PBT_CHECK(it <= end && sit <= text.end(), "decode ran past the end of %s", pbt::show(text).c_str());
        if (n == 0)
        {
            std::size_t const now = static_cast<std::size_t>(it - exact.data.get());
            PBT_CHECK(now >= pos, "decode moved backwards in %s", pbt::show(text).c_str());
            break;
        }
        pos += n;
        PBT_CHECK(static_cast<ref::CP>(*got) == cp, "decoded U+%x, expected U+%x, before %zu of %s", static_cast<unsigned>(*got), cp, pos, pbt::show(text).c_str());
        PBT_CHECK(it == exact.data.get() + pos && sit == text.begin() + static_cast<std::ptrdiff_t>(pos), "iterator after %zu of %s", pos, pbt::show(text).c_str());
    }
    if (it == end && pos == text.size())
    {
        PBT_CHECK(!Str<C>::decode_codepoint(it, end), "decode at the end succeeded");
        PBT_CHECK(it == end, "decode at the end moved");
    }
}

template <typename C, typename D>
void one_conversion(std::basic_string<C> const &text, std::optional<std::vector<ref::CP>> const &want)
{
    auto const got = Str<C>::template convert<std::basic_string<D>>(text);
    PBT_CHECK(got.has_value() == want.has_value(), "convert %zu->%zu of %s: %d, expected %d", sizeof(C), sizeof(D), pbt::show(text).c_str(), got.has_value(), want.has_value());
    if (!want)
        return;
    auto const expect = ref::encode_all<D>(*want);
    PBT_CHECK(*got == expect, "convert %zu->%zu of %s = %s, expected %s", sizeof(C), sizeof(D), pbt::show(text).c_str(), pbt::show(*got).c_str(), pbt::show(expect).c_str());
    auto const back = Str<D>::template convert<std::basic_string<C>>(*got);
    PBT_CHECK(back && *back == text, "round trip %zu->%zu->%zu of %s", sizeof(C), sizeof(D), sizeof(C), pbt::show(text).c_str());
}

template <typename C>
void convert_target(pbt::Src &s)
{
    auto const text = gen::maybe_broken<C>(s, 30, 1, 3);
    s.note(pbt::show(text));
    auto const want = ref::decode_all<C>(text);
    s.label(want ? "well-formed" : "ill-formed");
    if (!text.empty())
        s.nontrivial();
    one_conversion<C, char>(text, want);
    one_conversion<C, wchar_t>(text, want);
    one_conversion<C, char8_t>(text, want);
    one_conversion<C, char16_t>(text, want);
    one_conversion<C, char32_t>(text, want);
}

template <typename C>
void encode_one(ref::CP cp)
{
    auto const got = Str<C>::encode_codepoint(static_cast<typename Str<C>::codepoint_type>(cp));
    PBT_CHECK(got.has_value() == ref::scalar(cp), "encode U+%x: %d", cp, got.has_value());
    if (got)
    {
        PBT_CHECK(*got == ref::encode<C>(cp), "encode U+%x = %s", cp, pbt::show(*got).c_str());
        auto it = got->cbegin();
        auto const back = Str<C>::decode_codepoint(it, got->cend());
        PBT_CHECK(back && *back == cp && it == got->cend(), "decode(encode(U+%x))", cp);
    }
}

void encode_target(pbt::Src &s)
{
    // every codepoint up to U+113FFF, in blocks of 256, is reached by enumeration
    std::uint64_t const block = s.enumerate(0x1140);
    s.note(pbt::strf("U+%llx..", static_cast<unsigned long long>(block * 256)));
    s.nontrivial();
    for (std::uint64_t i = 0; i < 256; ++i)
    {
        auto const cp = static_cast<ref::CP>(block * 256 + i);
        encode_one<char>(cp);
        encode_one<wchar_t>(cp);
        encode_one<char8_t>(cp);
        encode_one<char16_t>(cp);
        encode_one<char32_t>(cp);
    }
    for (int i = 0; i < 8; ++i)
    {
        auto const cp = static_cast<ref::CP>(s.interesting());
        encode_one<char>(cp);
        encode_one<char16_t>(cp);
        encode_one<char32_t>(cp);
    }
}

// All one, two and three byte UTF-8 sequences over a byte alphabet, all UTF-16 pairs over boundary units.
void short_utf8(pbt::Src &s)
{
    std::uint64_t const lead = s.enumerate(256);
    s.note(pbt::strf("lead byte %02llx", static_cast<unsigned long long>(lead)));
    s.nontrivial();
    for (unsigned b = 0; b < 256; ++b)
    {
        char const two[] = {static_cast<char>(lead), static_cast<char>(b)};
        PBT_CHECK(fly::String::validate({two, 2}) == ref::decode_all<char>({two, 2}).has_value(), "validate %s", pbt::show(std::string(two, 2)).c_str());
        for (unsigned c : {0x00u, 0x41u, 0x7fu, 0x80u, 0x8fu, 0x90u, 0xa0u, 0xbfu, 0xc0u, 0xc2u, 0xe0u, 0xffu})
        {
            char const three[] = {two[0], two[1], static_cast<char>(c)};
            PBT_CHECK(fly::String::validate({three, 3}) == ref::decode_all<char>({three, 3}).has_value(), "validate %s", pbt::show(std::string(three, 3)).c_str());
            for (unsigned d : {0x00u, 0x7fu, 0x80u, 0xbfu, 0xc0u})
            {
                char const four[] = {three[0], three[1], three[2], static_cast<char>(d)};
                PBT_CHECK(fly::String::validate({four, 4}) == ref::decode_all<char>({four, 4}).has_value(), "validate %s", pbt::show(std::string(four, 4)).c_str());
            }
        }
    }
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"S01",
        "Texts of 0-60 codepoints drawn from boundary values of every encoding length, then (2/3) damaged by inserting, deleting, replacing, bit-flipping or truncating code units, and pure sequences of boundary code units, for all five character types; every codepoint block up to U+113FFF; all UTF-8 sequences of up to four bytes over boundary bytes. Non-trivial: non-ASCII or ill-formed. Oracle: codec written from Unicode table 3-7 and D91; conversion to all five types and back.",
        {{"decode-char", decode_target<char>, 250000, 10000000},
         {"decode-wchar", decode_target<wchar_t>, 60000, 3000000},
         {"decode-char8", decode_target<char8_t>, 120000, 6000000},
         {"decode-char16", decode_target<char16_t>, 250000, 10000000},
         {"decode-char32", decode_target<char32_t>, 60000, 3000000},
         {"convert-char", convert_target<char>, 60000, 3000000},
         {"convert-wchar", convert_target<wchar_t>, 30000, 1500000},
         {"convert-char8", convert_target<char8_t>, 30000, 1500000},
         {"convert-char16", convert_target<char16_t>, 60000, 3000000},
         {"convert-char32", convert_target<char32_t>, 30000, 1500000},
         {"encode-all", encode_target, 0x1140, 0x1140},
         {"short-utf8", short_utf8, 256, 256}},
        {},
        {"wchar_t is 32 bits wide on this platform", "after a failed decode the iterator may be anywhere between its old position and the end"}});
}
