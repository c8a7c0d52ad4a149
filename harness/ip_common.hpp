#pragma once
#include "pbt.hpp"

#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/types/string/format.hpp"

#include <algorithm>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <optional>
#include <string>
#include <string_view>

using namespace std::string_view_literals;

namespace refip {

// Unsigned decimal number at s[i...]; saturates far above 64 bits.
inline std::optional<unsigned __int128> decimal(std::string_view s, std::size_t &i)
{
    unsigned __int128 v = 0;
    std::size_t const start = i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9')
    {
        if (v < (static_cast<unsigned __int128>(1) << 100))
            v = v * 10 + static_cast<unsigned>(s[i] - '0');
        ++i;
    }
    if (i == start)
        return {};
    return v;
}

inline std::optional<std::uint16_t> port(std::string_view s)
{
    std::size_t i = 0;
    auto const n = decimal(s, i);
    if (!n || i != s.size() || *n > 65535)
        return {};
    return static_cast<std::uint16_t>(*n);
}

inline std::string big_number(pbt::Src &s)
{
    switch (s.below(3))
    {
        case 0: return std::to_string(s.interesting());
        case 1:
        {
            // 2^64 + small
            unsigned __int128 v = (static_cast<unsigned __int128>(1 + s.below(20)) << 64) + s.below(300);
            std::string t;
            while (v)
            {
                t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
                v /= 10;
            }
            return t;
        }
        default:
        {
            std::string t;
            std::size_t const n = 1 + s.below(30);
            for (std::size_t i = 0; i < n; ++i)
                t += static_cast<char>('0' + s.below(10));
            return t;
        }
    }
}

inline std::string port_text(pbt::Src &s)
{
    switch (s.weighted({5, 3, 1, 1}))
    {
        case 0: return std::to_string(s.below(65536));
        case 1: return std::to_string(65533 + s.below(6));
        case 2: return std::string(s.below(8), '0') + big_number(s);
        default: return "";
    }
}

inline void mutate(pbt::Src &s, std::string &t, std::string_view alphabet)
{
    std::size_t const n = 1 + s.below(3);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t const at = s.below(t.size() + 1);
        char const c = alphabet[s.below(alphabet.size())];
        switch (s.below(4))
        {
            case 0: t.insert(at, 1, c); break;
            case 1:
                if (at < t.size())
                    t[at] = c;
                break;
            case 2:
                if (at < t.size())
                    t.erase(at, 1);
                break;
            default:
                if (at < t.size())
                    t.insert(at, 1, t[at]);
        }
    }
}

template <typename T>
void laws(T const &a, T const &b, bool equal, bool less)
{
    PBT_CHECK((a == b) == equal && (b == a) == equal && (a != b) == !equal, "equality");
    PBT_CHECK((a < b) == less && (b > a) == less && (a >= b) == !less && (b <= a) == !less, "order");
    PBT_CHECK((a <= b) == (less || equal) && (a > b) == (!less && !equal), "order");
    PBT_CHECK(a == a && !(a < a) && a <= a, "reflexive");
    T copy = a;
    T moved = std::move(copy);
    T assigned = b;
    assigned = a;
    PBT_CHECK(moved == a && assigned == a, "copies");
}

} // namespace refip
