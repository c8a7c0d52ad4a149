#include "s05_format.hpp"
template void fmtm::formatting<wchar_t>(pbt::Src &);
