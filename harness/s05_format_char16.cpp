#include "s05_format.hpp"
template void fmtm::formatting<char16_t>(pbt::Src &);
