#include "s07_numbers.hpp"

namespace s07 {
void integers_any(pbt::Src &);
void reals_any(pbt::Src &);
void foreign_any(pbt::Src &);
void rounds_any(pbt::Src &);
} // namespace s07

#define ANY(name)                                                                                  \
    void s07::name##_any(pbt::Src &s)                                                                   \
    {                                                                                              \
        switch (s.below(4))                                                                        \
        {                                                                                          \
            case 0: return name<wchar_t>(s);                                                       \
            case 1: return name<char8_t>(s);                                                       \
            case 2: return name<char16_t>(s);                                                      \
            default: return name<char32_t>(s);                                                     \
        }                                                                                          \
    }
ANY(integers)
ANY(reals)
ANY(foreign)
