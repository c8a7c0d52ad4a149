// S06: the set of accepted format strings against the documented grammar.

#include "pbt.hpp"

namespace fmtm {

template <typename C>
void errors(pbt::Src &s);
extern template void errors<char>(pbt::Src &);
extern template void errors<wchar_t>(pbt::Src &);
extern template void errors<char8_t>(pbt::Src &);
extern template void errors<char16_t>(pbt::Src &);
extern template void errors<char32_t>(pbt::Src &);

} // namespace fmtm

namespace {

void errors_any(pbt::Src &s)
{
    switch (s.below(5))
    {
        case 0: return fmtm::errors<char>(s);
        case 1: return fmtm::errors<wchar_t>(s);
        case 2: return fmtm::errors<char8_t>(s);
        case 3: return fmtm::errors<char16_t>(s);
        default: return fmtm::errors<char32_t>(s);
    }
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv,
        {"S06", "the format string has a replacement field or is malformed",
            {{"errors char", fmtm::errors<char>, 80000, 4000000}, {"errors any", errors_any, 60000, 3000000}},
            {},
            {"a closing brace followed by an alignment character, as in \"{:}<\", is left open: the library reads it as a (rejected) fill character", "well formed includes the limit of 64 replacement fields", "format strings are checked as parsed at run time (the compile time path runs the same constexpr code)"}});
}
