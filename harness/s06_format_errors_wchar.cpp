#include "s06_format_errors.hpp"
template void fmtm::errors<wchar_t>(pbt::Src &);
