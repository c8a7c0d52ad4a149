#pragma once
// S07: text to number conversion, and back from formatted numbers.
#define FLY_COMPILER_DISABLE_CONSTEVAL
#include "str_common.hpp"

#include "fly/types/string/string.hpp"

#include <cmath>
#include <cstring>
#include <limits>

namespace {

template <typename C>
std::basic_string<C> widen(std::string const &s)
{
    return std::basic_string<C>(s.begin(), s.end());
}

// --- generators -------------------------------------------------------------------------------
std::string decimal(unsigned __int128 v)
{
    std::string r;
    do
        r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    while ((v /= 10) != 0);
    return r;
}

void mutate(pbt::Src &s, std::string &t)
{
    static char const alphabet[] = "0123456789+-.eExXinfatyINFNbpP _,()\t\n\0/:";
    std::size_t const n = 1 + s.below(2);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t const at = s.below(t.size() + 1);
        char const c = s.chance(1, 10) ? static_cast<char>(s.below(256)) : alphabet[s.below(sizeof(alphabet) - 1)];
        switch (s.below(4))
        {
            case 0: t.insert(at, 1, c); break;
            case 1:
                if (at < t.size())
                    t.erase(at, 1);
                break;
            case 2:
                if (at < t.size())
                    t[at] = c;
                break;
            default: t.insert(s.flip() ? 0 : t.size(), 1, c);
        }
    }
}

std::string integer_text(pbt::Src &s)
{
    std::string t;
    switch (s.weighted({4, 5, 2}))
    {
        case 0:
        {
            // next to the limits of a type
            unsigned const bits = static_cast<unsigned>(s.pick({7, 8, 15, 16, 31, 32, 63, 64}));
            unsigned __int128 const v = (static_cast<unsigned __int128>(1) << bits) + static_cast<unsigned __int128>(static_cast<__int128>(s.range(-2, 2)));
            t = (s.flip() ? "-" : "") + decimal(v);
            break;
        }
        case 1: t = (s.flip() ? "-" : "") + decimal(s.interesting()); break;
        default:
        {
            std::size_t const n = s.length(45);
            for (std::size_t i = 0; i < n; ++i)
                t += static_cast<char>('0' + s.below(10));
        }
    }
    if (s.chance(1, 6))
        t.insert(!t.empty() && t[0] == '-', std::string(1 + s.below(30), '0'));
    if (s.chance(1, 3))
        mutate(s, t);
    return t;
}

std::string real_text(pbt::Src &s)
{
    std::string t;
    auto digits = [&](std::size_t n) {
        for (std::size_t i = 0; i < n; ++i)
            t += static_cast<char>('0' + s.below(10));
    };
    switch (s.weighted({5, 3, 1, 1}))
    {
        case 0:
            if (s.flip())
                t += '-';
            digits(s.below(22));
            if (s.chance(2, 3))
            {
                t += '.';
                digits(s.below(22));
            }
            if (s.chance(1, 2))
            {
                t += s.flip() ? 'e' : 'E';
                if (s.flip())
                    t += s.flip() ? '-' : '+';
                t += std::to_string(s.chance(1, 5) ? s.below(6000) : s.below(330));
            }
            break;
        case 1:
        {
            std::uint64_t const bits = s.u64();
            double d = 0;
            std::memcpy(&d, &bits, 8);
            t = pbt::strf("%.*g", static_cast<int>(1 + s.below(25)), d);
            break;
        }
        case 2: t = s.pick({"inf", "-inf", "INFINITY", "nan", "-NaN", "nan(1)", "infinit", "na", "1e", "1e+", ".", "-.", "e5", "0x1p3", "1.5.2", "--1", "1e5.5", ".5", "5.", "1e400", "1e-400", "3.4028236e38", "1e39", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "1e4933", "1,5", "+1", " 1", "1 "}); break;
        default: t = integer_text(s);
    }
    if (s.chance(1, 4))
        mutate(s, t);
    return t;
}

// --- references -------------------------------------------------------------------------------
template <typename T>
std::optional<T> reference_integer(std::string const &t)
{
    bool const minus = !t.empty() && t[0] == '-';
    if (minus && !std::numeric_limits<T>::is_signed)
        return {};
    std::string const d = t.substr(minus);
    if (d.empty() || d.find_first_not_of("0123456789") != std::string::npos)
        return {};
    __int128 v = 0;
    for (char c : d)
    {
        v = v * 10 + (c - '0');
        if (v > (static_cast<__int128>(1) << 66))
            return {};
    }
    if (minus)
        v = -v;
    if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max()))
        return {};
    return static_cast<T>(v);
}

// 0: not a number, 1: finite number syntax, 2: infinity or NaN syntax
int real_syntax(std::string const &t)
{
    std::size_t i = !t.empty() && t[0] == '-';
    auto lower = [](std::string x) {
        for (auto &c : x)
            c = static_cast<char>(c >= 'A' && c <= 'Z' ? c + 32 : c);
        return x;
    };
    auto const rest = lower(t.substr(i));
    if (rest == "inf" || rest == "infinity" || rest == "nan")
        return 2;
    if (rest.rfind("nan(", 0) == 0 && rest.back() == ')' && rest.substr(4, rest.size() - 5).find_first_not_of("0123456789abcdefghijklmnopqrstuvwxyz_") == std::string::npos)
        return 2;
    std::size_t n = 0;
    auto digits = [&] {
        std::size_t k = 0;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9')
            ++i, ++k;
        return k;
    };
    n += digits();
    if (i < t.size() && t[i] == '.')
    {
        ++i;
        n += digits();
    }
    if (n == 0)
        return 0;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-'))
            ++i;
        if (digits() == 0)
            return 0;
    }
    return i == t.size() ? 1 : 0;
}

template <typename T>
T parse_real(char const *t)
{
    if constexpr (sizeof(T) == 4)
        return std::strtof(t, nullptr);
    else if constexpr (sizeof(T) == 8)
        return std::strtod(t, nullptr);
    else
        return std::strtold(t, nullptr);
}

template <typename T>
bool same(T a, T b)
{
    return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
}

template <typename T, typename C>
void integer_as(std::string const &t, char const *name)
{
    auto const got = fly::BasicString<C>::template convert<T>(widen<C>(t));
    auto const want = reference_integer<T>(t);
    PBT_CHECK(got.has_value() == want.has_value() && (!got || *got == *want), "%s as %s: %s, expected %s", pbt::show(t).c_str(), name, got ? std::to_string(*got).c_str() : "nothing", want ? std::to_string(*want).c_str() : "nothing");
}

template <typename C>
void integers(pbt::Src &s)
{
    std::string t = integer_text(s);
    if constexpr (sizeof(C) > 1 || std::is_same_v<C, char8_t>)
        for (auto &c : t)
            c = static_cast<char>(c & 0x7f);
    s.note(pbt::show(t));
    integer_as<signed char, C>(t, "signed char");
    integer_as<unsigned char, C>(t, "unsigned char");
    integer_as<short, C>(t, "short");
    integer_as<unsigned short, C>(t, "unsigned short");
    integer_as<int, C>(t, "int");
    integer_as<unsigned, C>(t, "unsigned");
    integer_as<long, C>(t, "long");
    integer_as<unsigned long, C>(t, "unsigned long");
    integer_as<long long, C>(t, "long long");
    integer_as<unsigned long long, C>(t, "unsigned long long");
    if (t.size() > 1)
        s.nontrivial();
    s.label(reference_integer<long long>(t) || reference_integer<unsigned long long>(t) ? "integer" : "not an integer");
}

template <typename T, typename C>
void real_as(std::string const &t, int syntax, char const *name)
{
    auto const got = fly::BasicString<C>::template convert<T>(widen<C>(t));
    if (syntax == 0)
    {
        PBT_CHECK(!got, "%s as %s: %Lg, but it is not a number", pbt::show(t).c_str(), name, static_cast<long double>(*got));
        return;
    }
    T const want = parse_real<T>(t.c_str());
    if (syntax == 1 && std::isinf(want))
    {
        PBT_CHECK(!got, "%s as %s: %Lg, but it is out of range", pbt::show(t).c_str(), name, static_cast<long double>(*got));
        return;
    }
    bool const tiny = syntax == 1 && std::fabs(want) < std::numeric_limits<T>::min() && t.find_first_of("123456789") < t.find_first_of("eE");
    if (tiny && want == 0)
    {
        PBT_CHECK(!got || *got == 0, "%s as %s: %Lg, but it is below the range", pbt::show(t).c_str(), name, static_cast<long double>(*got));
        return;
    }
    PBT_CHECK(got.has_value(), "%s as %s: rejected, expected %.21Lg", pbt::show(t).c_str(), name, static_cast<long double>(want));
    PBT_CHECK(same(*got, want), "%s as %s: %.21Lg, expected %.21Lg", pbt::show(t).c_str(), name, static_cast<long double>(*got), static_cast<long double>(want));
}

template <typename C>
void reals(pbt::Src &s)
{
    std::string t = real_text(s);
    if constexpr (sizeof(C) > 1 || std::is_same_v<C, char8_t>)
        for (auto &c : t)
            c = static_cast<char>(c & 0x7f);
    s.note(pbt::show(t));
    int const syntax = real_syntax(t);
    s.label(syntax == 0 ? "not a number" : syntax == 1 ? "number" : "infinity or NaN");
    if (t.size() > 1)
        s.nontrivial();
    real_as<float, C>(t, syntax, "float");
    real_as<double, C>(t, syntax, "double");
    real_as<long double, C>(t, syntax, "long double");
}

// Text that is not valid in its encoding, or not ASCII, is rejected.
template <typename C>
void foreign(pbt::Src &s)
{
    auto text = widen<C>(s.flip() ? integer_text(s) : real_text(s));
    for (auto &c : text)
        if (ref::unit(c) >= 0x80)
            c = static_cast<C>('1');
    std::basic_string<C> extra;
    if (s.flip())
        extra = ref::encode<C>(s.pick({0x80u, 0xb2u, 0x660u, 0x661u, 0xff11u, 0x1d7cfu, 0x10fffdu, 0xa0u, 0x2212u}));
    else
        extra = std::basic_string<C>(1, sizeof(C) == 1 ? static_cast<C>(0x80 + s.below(128)) : static_cast<C>(0xd800 + s.below(0x800)));
    text.insert(s.below(text.size() + 1), extra);
    s.note(pbt::show(text));
    s.nontrivial();
    PBT_CHECK(!(fly::BasicString<C>::template convert<long long>(text)), "%s converted to long long", pbt::show(text).c_str());
    PBT_CHECK(!(fly::BasicString<C>::template convert<unsigned char>(text)), "%s converted to unsigned char", pbt::show(text).c_str());
    PBT_CHECK(!(fly::BasicString<C>::template convert<double>(text)), "%s converted to double", pbt::show(text).c_str());
    PBT_CHECK(!(fly::BasicString<C>::template convert<float>(text)), "%s converted to float", pbt::show(text).c_str());
}

template <typename T, typename C, typename F>
void back(T v, F &&format, char const *spec, char const *name)
{
    std::basic_string<C> const text = format();
    auto const got = fly::BasicString<C>::template convert<T>(text);
    bool ok = got.has_value();
    if constexpr (std::is_floating_point_v<T>)
        ok = ok && same(*got, v);
    else
        ok = ok && *got == v;
    PBT_CHECK(ok, "%s %.21Lg formatted with %s as %s converts to %s", name, static_cast<long double>(v), spec, pbt::show(text, 1000).c_str(), got ? pbt::strf("%.21Lg", static_cast<long double>(*got)).c_str() : "nothing");
}

template <typename T>
T real_value(pbt::Src &s)
{
    switch (s.below(4))
    {
        case 0: return static_cast<T>(static_cast<long double>(s.range(-100000, 100000)) / static_cast<long double>(s.pick({1, 3, 7, 8, 10, 100, 1000})));
        case 1:
        {
            std::uint64_t const bits = s.u64();
            if constexpr (sizeof(T) == 4)
            {
                float f = 0;
                std::memcpy(&f, &bits, 4);
                return f;
            }
            double d = 0;
            std::memcpy(&d, &bits, 8);
            return static_cast<T>(d);
        }
        case 2: return std::ldexp(static_cast<T>(s.u64() | 1), static_cast<int>(s.range(std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits - 40, std::numeric_limits<T>::max_exponent - 64)));
        default: return s.pick({std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), T {0}, -T {0}, std::numeric_limits<T>::lowest(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::epsilon()});
    }
}

template <typename T, typename C>
void round_real(pbt::Src &s, char const *name)
{
    T const v = real_value<T>(s);
    if (std::isnan(v))
        throw pbt::Skip {};
    s.note(pbt::strf("%s %.21Lg", name, static_cast<long double>(v)));
    s.nontrivial();
    int const digits = std::numeric_limits<T>::max_digits10;
    int const more = digits + static_cast<int>(s.below(30));
    back<T, C>(v, [&] { return fly::string::format(FLY_ARR(C, "{:.{}g}"), v, digits); }, "{:.Ng}", name);
    back<T, C>(v, [&] { return fly::string::format(FLY_ARR(C, "{:.{}e}"), v, more); }, "{:.Ne}", name);
    back<T, C>(v, [&] { return fly::string::format(FLY_ARR(C, "{:#.{}G}"), v, more); }, "{:#.NG}", name);
    if (std::fabs(v) >= 1 && std::fabs(v) < static_cast<T>(1e30))
        back<T, C>(v, [&] { return fly::string::format(FLY_ARR(C, "{:.{}f}"), v, more); }, "{:.Nf}", name);
}

template <typename T, typename C>
void round_integer(pbt::Src &s, char const *name)
{
    T const v = static_cast<T>(s.flip() ? s.interesting() : ~s.interesting());
    s.note(pbt::strf("%s %s", name, std::to_string(v).c_str()));
    if (v > 9)
        s.nontrivial();
    back<T, C>(v, [&] { return fly::string::format(FLY_ARR(C, "{}"), v); }, "{}", name);
    back<T, C>(v, [&] { return fly::string::format(FLY_ARR(C, "{:030d}"), v); }, "{:030d}", name);
}

template <typename C>
void rounds(pbt::Src &s)
{
    switch (s.below(11))
    {
        case 0: return round_real<float, C>(s, "float");
        case 1: return round_real<double, C>(s, "double");
        case 2: return round_real<long double, C>(s, "long double");
        case 3: return round_integer<signed char, C>(s, "signed char");
        case 4: return round_integer<unsigned char, C>(s, "unsigned char");
        case 5: return round_integer<short, C>(s, "short");
        case 6: return round_integer<unsigned short, C>(s, "unsigned short");
        case 7: return round_integer<int, C>(s, "int");
        case 8: return round_integer<unsigned, C>(s, "unsigned");
        case 9: return round_integer<long, C>(s, "long");
        default: return round_integer<unsigned long, C>(s, "unsigned long");
    }
}

} // namespace
