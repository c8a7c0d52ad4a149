// S05: formatting against a model of the documented rules.

#include "pbt.hpp"

namespace fmtm {

template <typename C>
void formatting(pbt::Src &s);
extern template void formatting<char>(pbt::Src &);
extern template void formatting<wchar_t>(pbt::Src &);
extern template void formatting<char8_t>(pbt::Src &);
extern template void formatting<char16_t>(pbt::Src &);
extern template void formatting<char32_t>(pbt::Src &);

} // namespace fmtm

namespace {

void formatting_any(pbt::Src &s)
{
    switch (s.below(5))
    {
        case 0: return fmtm::formatting<char>(s);
        case 1: return fmtm::formatting<wchar_t>(s);
        case 2: return fmtm::formatting<char8_t>(s);
        case 3: return fmtm::formatting<char16_t>(s);
        default: return fmtm::formatting<char32_t>(s);
    }
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv,
        {"S05", "at least one replacement field with a width, precision, sign, alternate form or presentation type",
            {{"formatting char", fmtm::formatting<char>, 60000, 3000000}, {"formatting any", formatting_any, 60000, 3000000}},
            {},
            {"literal and nested widths and precisions are at most 400", "the C library's printf family and std::to_chars (hexadecimal floats) are the reference for floating point digits", "non-ASCII string arguments with a width or precision count code units of the argument"}});
}
