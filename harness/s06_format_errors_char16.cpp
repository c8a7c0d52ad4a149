#include "s06_format_errors.hpp"
template void fmtm::errors<char16_t>(pbt::Src &);
