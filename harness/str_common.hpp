#pragma once
#include "pbt.hpp"

#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

// Reference Unicode codec, written from the Unicode standard (table 3-7, D91), and generators.
namespace ref {

using CP = std::uint32_t;

inline bool scalar(CP c)
{
    return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff);
}

template <typename C>
inline CP unit(C c)
{
    if constexpr (sizeof(C) == 1)
        return static_cast<std::uint8_t>(c);
    else if constexpr (sizeof(C) == 2)
        return static_cast<std::uint16_t>(c);
    else
        return static_cast<std::uint32_t>(c);
}

// Number of units of the well-formed sequence at s, or 0.
template <typename C>
inline std::size_t decode(C const *s, std::size_t n, CP &out)
{
    if (n == 0)
        return 0;
    CP const a = unit(s[0]);
    if constexpr (sizeof(C) == 4)
    {
        out = a;
        return scalar(a) ? 1 : 0;
    }
    else if constexpr (sizeof(C) == 2)
    {
        if (a < 0xd800 || a > 0xdfff)
        {
            out = a;
            return 1;
        }
        if (a > 0xdbff || n < 2)
            return 0;
        CP const b = unit(s[1]);
        if (b < 0xdc00 || b > 0xdfff)
            return 0;
        out = 0x10000 + ((a - 0xd800) * 0x400) + (b - 0xdc00);
        return 2;
    }
    else
    {
        auto in = [&](std::size_t i, CP lo, CP hi) { return i < n && unit(s[i]) >= lo && unit(s[i]) <= hi; };
        auto tail = [&](std::size_t i) { return in(i, 0x80, 0xbf); };
        auto six = [&](std::size_t i) { return unit(s[i]) - 0x80; };
        if (a <= 0x7f)
        {
            out = a;
            return 1;
        }
        if (a >= 0xc2 && a <= 0xdf)
        {
            if (!tail(1))
                return 0;
            out = (a - 0xc0) * 64 + six(1);
            return 2;
        }
        if (a >= 0xe0 && a <= 0xef)
        {
            CP const lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
            if (!in(1, lo, hi) || !tail(2))
                return 0;
            out = (a - 0xe0) * 4096 + six(1) * 64 + six(2);
            return 3;
        }
        if (a >= 0xf0 && a <= 0xf4)
        {
            CP const lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
            if (!in(1, lo, hi) || !tail(2) || !tail(3))
                return 0;
            out = (a - 0xf0) * 262144 + six(1) * 4096 + six(2) * 64 + six(3);
            return 4;
        }
        return 0;
    }
}

template <typename C>
inline std::basic_string<C> encode(CP c)
{
    std::basic_string<C> r;
    auto put = [&](CP u) { r += static_cast<C>(u); };
    if constexpr (sizeof(C) == 4)
        put(c);
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000)
            put(c);
        else
        {
            put(0xd800 + (c - 0x10000) / 0x400);
            put(0xdc00 + (c - 0x10000) % 0x400);
        }
    }
    else
    {
        if (c < 0x80)
            put(c);
        else if (c < 0x800)
        {
            put(0xc0 + c / 64);
            put(0x80 + c % 64);
        }
        else if (c < 0x10000)
        {
            put(0xe0 + c / 4096);
            put(0x80 + c / 64 % 64);
            put(0x80 + c % 64);
        }
        else
        {
            put(0xf0 + c / 262144);
            put(0x80 + c / 4096 % 64);
            put(0x80 + c / 64 % 64);
            put(0x80 + c % 64);
        }
    }
    return r;
}

template <typename C>
inline std::optional<std::vector<CP>> decode_all(std::basic_string_view<C> s)
{
    std::vector<CP> r;
    for (std::size_t i = 0; i < s.size();)
    {
        CP c = 0;
        std::size_t const n = decode(s.data() + i, s.size() - i, c);
        if (n == 0)
            return {};
        r.push_back(c);
        i += n;
    }
    return r;
}

template <typename C>
inline std::basic_string<C> encode_all(std::vector<CP> const &cps)
{
    std::basic_string<C> r;
    for (CP c : cps)
        r += encode<C>(c);
    return r;
}

} // namespace ref

namespace gen {

inline ref::CP codepoint(pbt::Src &s)
{
    static ref::CP const edges[] = {0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff};
    ref::CP c = 0;
    switch (s.weighted({4, 3, 2, 2, 2, 2}))
    {
        case 0: c = static_cast<ref::CP>(0x20 + s.below(0x5f)); break;
        case 1: c = edges[s.below(sizeof(edges) / sizeof(*edges))]; break;
        case 2: c = static_cast<ref::CP>(s.below(0x20)); break;
        case 3: c = static_cast<ref::CP>(s.below(0x800)); break;
        case 4: c = static_cast<ref::CP>(s.below(0x10000)); break;
        default: c = static_cast<ref::CP>(0x10000 + s.below(0x100000)); break;
    }
    return ref::scalar(c) ? c : 0xe000;
}

inline std::vector<ref::CP> codepoints(pbt::Src &s, std::size_t max)
{
    std::vector<ref::CP> r(s.length(max));
    for (auto &c : r)
        c = codepoint(s);
    return r;
}

// A code unit that is likely to matter for the codec.
template <typename C>
inline C unit(pbt::Src &s)
{
    if constexpr (sizeof(C) == 1)
    {
        static unsigned char const e[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff};
        return static_cast<C>(s.chance(2, 3) ? e[s.below(sizeof(e))] : s.below(256));
    }
    else if constexpr (sizeof(C) == 2)
    {
        static std::uint16_t const e[] = {0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffe, 0xffff};
        return static_cast<C>(s.chance(2, 3) ? e[s.below(sizeof(e) / 2)] : s.below(65536));
    }
    else
    {
        static std::uint32_t const e[] = {0, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000u, 0xffffffffu};
        return static_cast<C>(s.chance(2, 3) ? e[s.below(sizeof(e) / 4)] : s.below(0x120000));
    }
}

// Well-formed text with occasional raw units, truncations, deletions and duplications.
template <typename C>
inline std::basic_string<C> maybe_broken(pbt::Src &s, std::size_t max, unsigned break_num, unsigned break_den)
{
    auto r = ref::encode_all<C>(codepoints(s, max));
    if (s.chance(break_num, break_den))
    {
        std::size_t const n = 1 + s.below(3);
        for (std::size_t k = 0; k < n; ++k)
        {
            std::size_t const at = s.below(r.size() + 1);
            switch (s.below(5))
            {
                case 0: r.insert(at, 1, unit<C>(s)); break;
                case 1:
                    if (at < r.size())
                        r.erase(at, 1);
                    break;
                case 2:
                    if (at < r.size())
                        r[at] = unit<C>(s);
                    break;
                case 3: r.resize(at); break;
                default:
                    if (at < r.size())
                        r[at] = static_cast<C>(r[at] ^ static_cast<C>(1u << s.below(8 * std::min<std::size_t>(sizeof(C), 3))));
            }
        }
    }
    return r;
}

// A copy in an exactly sized heap block, so that AddressSanitizer sees any access beyond it.
template <typename C>
struct Exact
{
    explicit Exact(std::basic_string_view<C> v) : size(v.size()), data(new C[v.size()]) { std::copy(v.begin(), v.end(), data.get()); }
    std::basic_string_view<C> view() const { return {data.get(), size}; }
    std::size_t size;
    std::unique_ptr<C[]> data;
};

} // namespace gen
