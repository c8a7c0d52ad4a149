#include "s05_format.hpp"
template void fmtm::formatting<char8_t>(pbt::Src &);
