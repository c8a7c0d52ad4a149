#include "s05_format.hpp"
template void fmtm::formatting<char>(pbt::Src &);
