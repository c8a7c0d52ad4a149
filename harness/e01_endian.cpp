// E01: byte order conversion.
#include "pbt.hpp"

#include "fly/types/numeric/endian.hpp"

#include <bit>
#include <cstring>

namespace {

template <typename T>
T reversed(T v)
{
    unsigned char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    for (std::size_t i = 0; i < sizeof(T) / 2; ++i)
        std::swap(b[i], b[sizeof(T) - 1 - i]);
    std::memcpy(&v, b, sizeof(T));
    return v;
}

constexpr std::endian s_other = std::endian::native == std::endian::little ? std::endian::big : std::endian::little;

template <typename T>
void one(char const *name, std::uint64_t raw)
{
    T const v = static_cast<T>(raw);
    auto show = [](T x) { return static_cast<unsigned long long>(static_cast<std::make_unsigned_t<T>>(x)); };
    T const want = reversed(v);
    T const got = fly::endian_swap(v);
    static_assert(std::is_same_v<decltype(fly::endian_swap(v)), T>);
    PBT_CHECK(got == want, "endian_swap of %s %llx is %llx, should be %llx", name, show(v), show(got), show(want));
    PBT_CHECK(fly::endian_swap(got) == v, "swapping %s %llx twice is %llx", name, show(v), show(fly::endian_swap(got)));
    T const same = fly::endian_swap_if_non_native<std::endian::native>(v);
    PBT_CHECK(same == v, "%s %llx to the native order is %llx", name, show(v), show(same));
    T const other = fly::endian_swap_if_non_native<s_other>(v);
    PBT_CHECK(other == want, "%s %llx to the other order is %llx", name, show(v), show(other));
    // the bytes of a big endian value are most significant first
    T const big = fly::endian_swap_if_non_native<std::endian::big>(v);
    unsigned char b[sizeof(T)];
    std::memcpy(b, &big, sizeof(T));
    for (std::size_t i = 0; i < sizeof(T); ++i)
    {
        auto const byte = static_cast<unsigned char>(show(v) >> (8 * (sizeof(T) - 1 - i)));
        PBT_CHECK(b[i] == byte, "byte %zu of big endian %s %llx is %02x", i, name, show(v), b[i]);
    }
}

// compile time agrees
constexpr std::uint64_t reversed_constant(std::uint64_t v, std::size_t n)
{
    std::uint64_t r = 0;
    for (std::size_t i = 0; i < n; ++i)
        r |= ((v >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
    return r;
}

template <typename T>
void constants()
{
    constexpr std::uint64_t values[] = {0, 1, 0x80, 0xff, 0x0102030405060708, 0x8877665544332211, 0xffffffffffffffff, 0xfeff, 0x80000000, 0x7fffffffffffffff, 0x00ff00ff00ff00ff};
    constexpr auto wrong = [](auto const &v) constexpr {
        std::size_t n = 0;
        for (auto raw : v)
        {
            T const value = static_cast<T>(raw);
            auto const u = static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(value));
            if (fly::endian_swap(value) != static_cast<T>(reversed_constant(u, sizeof(T))))
                ++n;
        }
        return n;
    }(values);
    PBT_CHECK(wrong == 0, "endian_swap in constant expressions is wrong for %zu values of %zu bytes", wrong, sizeof(T));
}

template <typename T>
void all(char const *name, std::uint64_t raw)
{
    one<T>(name, raw);
}

void values(pbt::Src &s)
{
    std::uint64_t const raw = s.flip() ? s.u64() : s.interesting();
    s.nontrivial();
    if (s.want_note())
        s.note(pbt::strf("%llx", static_cast<unsigned long long>(raw)));
    one<signed char>("signed char", raw);
    one<unsigned char>("unsigned char", raw);
    one<char>("char", raw);
    one<char8_t>("char8_t", raw);
    one<short>("short", raw);
    one<unsigned short>("unsigned short", raw);
    one<char16_t>("char16_t", raw);
    one<int>("int", raw);
    one<unsigned>("unsigned", raw);
    one<char32_t>("char32_t", raw);
    one<wchar_t>("wchar_t", raw);
    one<long>("long", raw);
    one<unsigned long>("unsigned long", raw);
    one<long long>("long long", raw);
    one<unsigned long long>("unsigned long long", raw);
}

void exhaustive(pbt::Src &s)
{
    std::uint64_t const raw = s.enumerate(65536);
    s.nontrivial();
    one<std::int8_t>("int8", raw);
    one<std::uint8_t>("uint8", raw);
    one<std::int16_t>("int16", raw);
    one<std::uint16_t>("uint16", raw);
    one<char16_t>("char16_t", raw);
    // the same 16 bits at each position of wider values
    for (unsigned shift = 0; shift < 64; shift += 8)
    {
        one<std::int64_t>("int64", raw << shift);
        one<std::uint64_t>("uint64", ~(raw << shift));
        if (shift < 32)
            one<std::int32_t>("int32", raw << shift), one<std::uint32_t>("uint32", ~(raw << shift));
    }
}

void compile_time(pbt::Src &s)
{
    s.nontrivial();
    constants<std::int8_t>();
    constants<std::uint8_t>();
    constants<std::int16_t>();
    constants<std::uint16_t>();
    constants<char16_t>();
    constants<std::int32_t>();
    constants<std::uint32_t>();
    constants<wchar_t>();
    constants<std::int64_t>();
    constants<std::uint64_t>();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"E01",
        "Random and boundary 64-bit patterns are truncated to fifteen integer types; all 65536 patterns of two bytes are tried for the narrow types and at every byte position of the wide ones; eleven values of ten types are converted in constant expressions. Results must equal byte reversal through memory, be involutive, and lay out big endian bytes most significant first. Every case is non-trivial.",
        {{"values", values, 400000, 40000000}, {"exhaustive", exhaustive, 65536, 65536}, {"compile_time", compile_time, 8, 8}},
        {}, {}});
}
