#include "s05_format.hpp"
template void fmtm::formatting<char32_t>(pbt::Src &);
