#pragma once
#include "pbt.hpp"
#include "scratch.hpp"

#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"

#include <array>
#include <cmath>
#include <memory>
#include <optional>
#include <set>
#include <vector>

struct HuffmanConfig : fly::coders::CoderConfig
{
    HuffmanConfig(unsigned kb, unsigned length)
    {
        m_default_huffman_encoder_chunk_size_kb = static_cast<std::uint16_t>(kb);
        m_default_huffman_encoder_max_code_length = static_cast<fly::coders::length_type>(length);
    }
};

struct Encoder : fly::coders::HuffmanEncoder
{
    using fly::coders::HuffmanEncoder::encode_internal;
    using fly::coders::HuffmanEncoder::HuffmanEncoder;
};

struct Decoder : fly::coders::HuffmanDecoder
{
    using fly::coders::HuffmanDecoder::decode_internal;
};

namespace ref {

// Decoder of the documented format, one bit at a time.
struct Huffman
{
    std::string out;
    bool ok {false};
    bool open {false}; // contains codes without bits, which nothing defines
    char const *why {""};
    unsigned chunk_kb {0}, max_length {0}, longest {0};
    std::size_t chunks {0}, bits_total {0};

    explicit Huffman(std::string const &t, std::size_t limit = ~std::size_t(0)) : m_text(t)
    {
        if (t.empty() || (static_cast<unsigned char>(t[0]) >> 3) != 0x1a)
        {
            why = "no bit stream";
            return;
        }
        m_bits = t.size() > 1 ? 8 * (t.size() - 1) - (t[0] & 7) : 0;
        bits_total = m_bits;
        unsigned version = 0;
        if (!take(8, version) || version != 1 || !take(16, chunk_kb) || chunk_kb == 0 || !take(8, max_length) || max_length == 0 || max_length > 15)
        {
            why = "bad header";
            return;
        }
        std::size_t const chunk = std::size_t(chunk_kb) << 10;
        while (m_at < m_bits)
        {
            if (!codes())
                return;
            ++chunks;
            std::size_t n = 0;
            while (n < chunk && m_at < m_bits && m_longest > 0)
            {
                int const s = symbol();
                if (s < 0)
                {
                    why = "bits that are no code";
                    return;
                }
                out += static_cast<char>(s);
                if (out.size() > limit)
                    return;
                ++n;
            }
            if (n < chunk && m_at < m_bits)
            {
                why = "no codes";
                return;
            }
        }
        ok = true;
    }

private:
    bool take(unsigned n, unsigned &v)
    {
        v = 0;
        if (m_bits - m_at < n)
            return false;
        for (unsigned i = 0; i < n; ++i)
            v = (v << 1) | bit(m_at++);
        return true;
    }
    unsigned bit(std::size_t i) const { return (static_cast<unsigned char>(m_text[1 + i / 8]) >> (7 - i % 8)) & 1; }
    bool codes()
    {
        unsigned n = 0;
        if (!take(8, n) || n == 0 || n > max_length + 1)
        {
            why = "bad number of counts";
            return false;
        }
        m_longest = n - 1;
        longest = std::max(longest, m_longest);
        m_count.assign(n, 0);
        m_first.assign(n, 0);
        m_index.assign(n, 0);
        m_symbols.clear();
        unsigned total = 0;
        for (auto &c : m_count)
        {
            if (!take(16, c))
            {
                why = "missing counts";
                return false;
            }
        }
        if (m_count[0])
            open = true;
        std::uint64_t code = 0;
        for (unsigned l = 0; l < n; ++l)
        {
            code <<= 1;
            if (l == 0)
                code = 0;
            m_first[l] = code;
            m_index[l] = total;
            total += m_count[l];
            code += m_count[l];
            if (code > (std::uint64_t(1) << l))
            {
                why = "too many codes";
                return false;
            }
        }
        if (total > 256)
        {
            why = "too many symbols";
            return false;
        }
        for (unsigned i = 0; i < total; ++i)
        {
            unsigned v = 0;
            if (!take(8, v))
            {
                why = "missing symbols";
                return false;
            }
            m_symbols.push_back(v);
        }
        return true;
    }
    int symbol()
    {
        std::uint64_t code = 0;
        std::size_t at = m_at;
        for (unsigned l = 1; l <= m_longest && at < m_bits; ++l)
        {
            code = (code << 1) | bit(at++);
            if (code >= m_first[l] && code - m_first[l] < m_count[l])
            {
                m_at = at;
                return static_cast<int>(m_symbols[m_index[l] + (code - m_first[l])]);
            }
        }
        return -1;
    }

    std::string const &m_text;
    std::size_t m_bits {0}, m_at {0};
    unsigned m_longest {0};
    std::vector<unsigned> m_count;
    std::vector<std::uint64_t> m_first;
    std::vector<unsigned> m_index;
    std::vector<unsigned> m_symbols;
};

inline std::string summary(std::string const &s)
{
    return s.size() <= 120 ? pbt::show(s) : pbt::strf("%zu bytes", s.size());
}

inline std::string difference(std::string const &a, std::string const &b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    return pbt::strf("%zu and %zu bytes, first different at %zu", a.size(), b.size(), i);
}

} // namespace ref

namespace gen {

// Bytes over an alphabet of the given size with frequencies from equal to Fibonacci-like.
inline std::string skewed(pbt::Src &s, std::size_t length, std::size_t symbols)
{
    std::string r;
    if (symbols == 0)
        symbols = 1;
    std::uint64_t x = s.u64() | 1;
    auto next = [&] {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return x >> 16;
    };
    std::size_t const style = s.below(5);
    unsigned const base = static_cast<unsigned>(s.below(256));
    unsigned const stride = static_cast<unsigned>(2 * s.below(64) + 1);
    auto symbol = [&](std::size_t i) { return static_cast<char>(base + stride * i); };
    r.reserve(length);
    switch (style)
    {
        case 0: // equally likely
            while (r.size() < length)
                r += symbol(next() % symbols);
            break;
        case 1: // each half as likely as the one before
            while (r.size() < length)
            {
                std::size_t i = 0;
                for (auto v = next(); (v & 1) && i + 1 < symbols; v >>= 1)
                    ++i;
                r += symbol(i);
            }
            break;
        case 2: // exact Fibonacci counts, as far as they fit: the longest codes
        {
            std::uint64_t a = 1, b = 1;
            for (std::size_t i = 0; i < symbols && r.size() < length; ++i)
            {
                r.append(static_cast<std::size_t>(std::min<std::uint64_t>(a, length - r.size())), symbol(i));
                std::swap(a, b);
                b += a;
            }
            break;
        }
        case 3: // every symbol once, the rest one symbol
            for (std::size_t i = 0; i < symbols && r.size() < length; ++i)
                r += symbol(i);
            r.append(length - r.size(), symbol(next() % symbols));
            break;
        default: // quadratic
            while (r.size() < length)
                r += symbol(std::min(next() % symbols, next() % symbols));
            break;
    }
    if (s.chance(1, 3))
        for (std::size_t i = r.size(); i > 1; --i)
            std::swap(r[i - 1], r[next() % i]);
    return r;
}

} // namespace gen
