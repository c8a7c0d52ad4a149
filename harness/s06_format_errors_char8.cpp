#include "s06_format_errors.hpp"
template void fmtm::errors<char8_t>(pbt::Src &);
