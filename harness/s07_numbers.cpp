#include "s07_numbers.hpp"

namespace s07 {
void integers_any(pbt::Src &);
void reals_any(pbt::Src &);
void foreign_any(pbt::Src &);
void rounds_any(pbt::Src &);
} // namespace s07

namespace {

// Every 8 and 16 bit value, and all three character strings over digits and signs.
void small(pbt::Src &s)
{
    std::uint64_t const i = s.enumerate(65536 + 14 * 14 * 14);
    std::string t;
    if (i < 65536)
    {
        t = std::to_string(static_cast<std::int16_t>(i));
        integer_as<unsigned short, char>(std::to_string(i), "unsigned short");
    }
    else
    {
        static char const a[] = "0123456789-+ \0";
        for (std::uint64_t k = i - 65536, n = 0; n < 3; ++n, k /= 14)
            t += a[k % 14];
        if (i % 3 == 0)
            t.pop_back();
    }
    s.note(pbt::show(t));
    s.nontrivial();
    integer_as<signed char, char>(t, "signed char");
    integer_as<unsigned char, char>(t, "unsigned char");
    integer_as<short, char>(t, "short");
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv,
        {"S07", "text of at least two characters, or a number of more than one digit",
            {{"integers", integers<char>, 200000, 20000000},
                {"reals", reals<char>, 200000, 20000000},
                {"integers other encodings", s07::integers_any, 60000, 5000000},
                {"reals other encodings", s07::reals_any, 60000, 5000000},
                {"not ASCII", foreign<char>, 20000, 2000000},
                {"not ASCII other encodings", s07::foreign_any, 40000, 4000000},
                {"round trip", rounds<char>, 100000, 10000000},
                {"round trip other encodings", s07::rounds_any, 60000, 5000000},
                {"small integers", small, 68280, 68280}},
            {},
            {"non-zero text whose value rounds to zero may be rejected or give zero", "the C library's strtof, strtod and strtold are the reference for the value of real numbers", "a leading '+' and hexadecimal digits are not part of the syntax (as for std::from_chars)"}});
}
