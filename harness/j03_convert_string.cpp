#include "j03_convert.hpp"

namespace j03 {

namespace {

template <typename T>
void literal(pbt::Src &s, T const &v, std::optional<std::string> const &want, char const *what)
{
    std::optional<fly::Json> j;
    try
    {
        j.emplace(v);
    }
    catch (fly::JsonException const &)
    {
    }
    PBT_CHECK(j.has_value() == want.has_value(), "%s: %s", what, j ? "accepted" : "refused");
    if (want)
    {
        auto const d = ref::diff(*j, MV::str(*want));
        PBT_CHECK(d.empty(), "%s: %s", what, d.c_str());
        s.nontrivial();
    }
}

template <typename C>
void one(pbt::Src &s, char const *type)
{
    switch (s.below(4))
    {
        case 0:
        case 1: both<std::basic_string<C>>(s, type); break;
        case 2: swap<std::basic_string<C>>(s, type); break;
        default:
        {
            auto v = text<C>(s, !s.chance(1, 4));
            v = v.substr(0, v.find(C(0)));
            if (s.want_note())
                s.note(std::string("C string ") + type + " " + pbt::show(v));
            literal(s, static_cast<C const *>(v.c_str()), json_text_of(v), "C string");
            C buffer[64] {};
            std::copy_n(v.begin(), std::min<std::size_t>(v.size(), 63), buffer);
            literal(s, buffer, json_text_of(std::basic_string<C>(buffer)), "character array");
        }
    }
}

} // namespace

void strings(pbt::Src &s)
{
    switch (s.below(5))
    {
        case 0: one<char>(s, "string"); break;
        case 1: one<wchar_t>(s, "wstring"); break;
        case 2: one<char8_t>(s, "u8string"); break;
        case 3: one<char16_t>(s, "u16string"); break;
        default: one<char32_t>(s, "u32string"); break;
    }
}

} // namespace j03
