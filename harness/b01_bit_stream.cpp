// B01: bit streams.
#include "pbt.hpp"
#include "scratch.hpp"

#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"

#include <optional>
#include <vector>

namespace {

using Bits = std::vector<bool>;

void append(Bits &b, std::uint64_t value, unsigned size)
{
    for (unsigned i = size; i-- > 0;)
        b.push_back((value >> i) & 1);
}

// the documented stream: a header of 0x1a << 3 | zero-filled bits, then the bits
std::string pack(Bits const &b)
{
    std::string r(1 + (b.size() + 7) / 8, '\0');
    r[0] = static_cast<char>((0x1a << 3) | ((8 - b.size() % 8) % 8));
    for (std::size_t i = 0; i < b.size(); ++i)
        if (b[i])
            r[1 + i / 8] = static_cast<char>(r[1 + i / 8] | (0x80 >> (i % 8)));
    return r;
}

std::optional<Bits> unpack(std::string const &t)
{
    if (t.empty() || (static_cast<unsigned char>(t[0]) >> 3) != 0x1a)
        return std::nullopt;
    Bits b;
    for (std::size_t i = 1; i < t.size(); ++i)
        append(b, static_cast<unsigned char>(t[i]), 8);
    if (!b.empty())
        b.resize(b.size() - (t[0] & 7));
    return b;
}

// a width: mostly such that positions drift across the 64-bit buffer
template <typename T>
unsigned width(pbt::Src &s)
{
    unsigned const digits = std::numeric_limits<T>::digits;
    return static_cast<unsigned>(s.chance(1, 4) ? digits - s.below(3) : s.below(digits + 1));
}

template <typename T>
void put(pbt::Src &s, fly::BitStreamWriter &w, Bits &model)
{
    unsigned const size = width<T>(s);
    T const value = static_cast<T>(s.chance(1, 4) ? ~std::uint64_t(0) : s.interesting());
    if (s.want_note())
        s.note(pbt::strf(" w%d(%llx,%u)", std::numeric_limits<T>::digits, static_cast<unsigned long long>(value), size));
    w.write_bits(value, static_cast<fly::byte_type>(size));
    append(model, value, size);
}

void write_some(pbt::Src &s, fly::BitStreamWriter &w, Bits &model, std::size_t n)
{
    for (std::size_t k = 0; k < n; ++k)
    {
        switch (s.below(6))
        {
            case 0: put<std::uint8_t>(s, w, model); break;
            case 1: put<std::uint16_t>(s, w, model); break;
            case 2: put<std::uint32_t>(s, w, model); break;
            case 3: put<std::uint64_t>(s, w, model); break;
            case 4:
            {
                auto const v = static_cast<fly::byte_type>(s.interesting());
                w.write_byte(v);
                append(model, v, 8);
                break;
            }
            default:
            {
                auto const v = static_cast<fly::word_type>(s.interesting());
                w.write_word(v);
                append(model, v, 16);
                break;
            }
        }
    }
}

struct Cursor
{
    Bits const &bits;
    std::size_t at {0};
    bool dead {false};

    // the value a read of the size delivers: the bits there are, at the top of the size
    std::uint64_t value(unsigned size, unsigned &n) const
    {
        n = static_cast<unsigned>(std::min<std::size_t>(size, bits.size() - at));
        std::uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i)
            v = (v << 1) | (bits[at + i] ? 1 : 0);
        for (unsigned i = n; i < size; ++i)
            v <<= 1;
        return v;
    }
};

template <typename T>
void read(pbt::Src &s, fly::BitStreamReader &r, Cursor &c)
{
    unsigned const size = width<T>(s);
    unsigned n = 0;
    std::uint64_t const want = c.value(size, n);
    T got = static_cast<T>(s.flip() ? 0 : ~std::uint64_t(0));
    unsigned const count = r.read_bits(got, static_cast<fly::byte_type>(size));
    PBT_CHECK(count == n, "reading %u bits at bit %zu of %zu returns %u bits", size, c.at, c.bits.size(), count);
    PBT_CHECK(got == want, "reading %u bits at bit %zu of %zu yields %llx, should be %llx", size, c.at, c.bits.size(), static_cast<unsigned long long>(got), static_cast<unsigned long long>(want));
    c.at += n;
    if (n < size)
        s.label("read past the end");
}

template <typename T>
void peek(pbt::Src &s, fly::BitStreamReader &r, Cursor &c)
{
    unsigned const size = width<T>(s);
    unsigned n = 0;
    std::uint64_t const want = c.value(size, n);
    T got = static_cast<T>(s.flip() ? 0 : ~std::uint64_t(0));
    unsigned const count = r.peek_bits(got, static_cast<fly::byte_type>(size));
    PBT_CHECK(count == n, "peeking %u bits at bit %zu of %zu returns %u bits", size, c.at, c.bits.size(), count);
    PBT_CHECK(got == want, "peeking %u bits at bit %zu of %zu yields %llx, should be %llx", size, c.at, c.bits.size(), static_cast<unsigned long long>(got), static_cast<unsigned long long>(want));
    if (n < size)
        s.label("peek past the end");
    if (s.flip())
    {
        // as decoders do: discard some of what was peeked
        unsigned const d = static_cast<unsigned>(s.flip() ? n : s.below(n + 1));
        r.discard_bits(static_cast<fly::byte_type>(d));
        c.at += d;
        s.label("peek and discard");
    }
}

void read_some(pbt::Src &s, fly::BitStreamReader &r, Bits const &model, std::size_t ops)
{
    Cursor c {model};
    for (std::size_t k = 0; k < ops; ++k)
    {
        PBT_CHECK(r.fully_consumed() == (c.at == model.size()), "fully consumed is %d at bit %zu of %zu", r.fully_consumed(), c.at, model.size());
        switch (s.below(9))
        {
            case 0: read<std::uint8_t>(s, r, c); break;
            case 1: read<std::uint16_t>(s, r, c); break;
            case 2: read<std::uint32_t>(s, r, c); break;
            case 3: read<std::uint64_t>(s, r, c); break;
            case 4: peek<std::uint8_t>(s, r, c); break;
            case 5: peek<std::uint16_t>(s, r, c); break;
            case 6: peek<std::uint32_t>(s, r, c); break;
            case 7:
            {
                unsigned n = 0;
                auto const want = c.value(8, n);
                fly::byte_type b = 0;
                bool const ok = r.read_byte(b);
                PBT_CHECK(ok == (n == 8), "reading a byte at bit %zu of %zu %s", c.at, model.size(), ok ? "succeeds" : "fails");
                PBT_CHECK(!ok || b == want, "reading a byte at bit %zu yields %02x, should be %02llx", c.at, b, static_cast<unsigned long long>(want));
                c.at += n;
                break;
            }
            default:
            {
                unsigned n = 0;
                auto const want = c.value(16, n);
                fly::word_type w = 0;
                bool const ok = r.read_word(w);
                PBT_CHECK(ok == (n == 16), "reading a word at bit %zu of %zu %s", c.at, model.size(), ok ? "succeeds" : "fails");
                PBT_CHECK(!ok || w == want, "reading a word at bit %zu yields %04x, should be %04llx", c.at, w, static_cast<unsigned long long>(want));
                c.at += n;
                break;
            }
        }
    }
    if (c.at == model.size())
    {
        s.label("read to the end");
        PBT_CHECK(r.fully_consumed(), "not fully consumed after the last of %zu bits", model.size());
    }
}

void round_trip(pbt::Src &s)
{
    Bits model;
    std::string text;
    {
        std::ostringstream o(std::ios::out | std::ios::binary);
        fly::BitStreamWriter w(o);
        write_some(s, w, model, s.length(60));
        PBT_CHECK(w.finish(), "finishing a stream of %zu bits fails", model.size());
        if (s.chance(1, 4))
            PBT_CHECK(w.finish(), "finishing a stream of %zu bits again fails", model.size());
        text = o.str();
    }
    std::string const want = pack(model);
    PBT_CHECK(text == want, "%zu bits are written as %s, should be %s", model.size(), pbt::show(text).c_str(), pbt::show(want).c_str());
    if (!model.empty())
        s.nontrivial();
    std::size_t const ops = s.length(80);
    PieceBuf buf(text, s.flip() ? text.size() : 1 + s.below(12), false);
    std::istream i(&buf);
    fly::BitStreamReader r(i);
    PBT_CHECK(!i.fail(), "the header of %s is refused", pbt::show(text).c_str());
    PBT_CHECK(r.header() == static_cast<unsigned char>(want[0]), "the header is %02x", r.header());
    read_some(s, r, model, ops);
}

// any bytes at all
void damaged(pbt::Src &s)
{
    std::string text(s.length(40), '\0');
    for (auto &c : text)
        c = static_cast<char>(s.byte());
    if (!text.empty() && s.chance(3, 4))
        text[0] = static_cast<char>(0xd0 | s.below(8));
    if (s.want_note())
        s.note(pbt::show(text));
    auto const model = unpack(text);
    s.label(model ? "valid header" : "invalid header");
    s.nontrivial();
    std::istringstream i(text);
    fly::BitStreamReader r(i);
    PBT_CHECK(i.fail() == !model, "the header of %s is %s", pbt::show(text).c_str(), i.fail() ? "refused" : "accepted");
    if (model)
        read_some(s, r, *model, s.length(40));
    else
    {
        std::uint32_t v = 7;
        fly::byte_type b = 0;
        fly::word_type w = 0;
        switch (s.below(4))
        {
            case 0: PBT_CHECK(r.read_bits(v, static_cast<fly::byte_type>(1 + s.below(32))) == 0, "bits are read from %s", pbt::show(text).c_str()); break;
            case 1: PBT_CHECK(r.peek_bits(v, static_cast<fly::byte_type>(1 + s.below(32))) == 0, "bits are peeked from %s", pbt::show(text).c_str()); break;
            case 2: PBT_CHECK(!r.read_byte(b), "a byte is read from %s", pbt::show(text).c_str()); break;
            default: PBT_CHECK(!r.read_word(w), "a word is read from %s", pbt::show(text).c_str()); break;
        }
    }
}

// streams that fail: at the write of some byte, at the read of some byte, or when told to
void faults(pbt::Src &s)
{
    Bits model;
    std::size_t const n = 1 + s.length(60);
    std::string text;
    {
        std::ostringstream o(std::ios::out | std::ios::binary);
        fly::BitStreamWriter w(o);
        write_some(s, w, model, n);
        PBT_CHECK(w.finish(), "finishing fails");
        text = o.str();
    }
    s.nontrivial();
    if (s.flip())
    {
        std::size_t const room = s.below(text.size() + 1);
        FullBuf buf(room);
        std::ostream o(&buf);
        fly::BitStreamWriter w(o);
        for (std::size_t i = 0; i < model.size();)
        {
            unsigned k = static_cast<unsigned>(std::min<std::size_t>(model.size() - i, 1 + s.below(64)));
            std::uint64_t v = 0;
            for (unsigned b = 0; b < k; ++b)
                v = (v << 1) | (model[i + b] ? 1 : 0);
            w.write_bits(v, static_cast<fly::byte_type>(k));
            i += k;
        }
        bool const ok = w.finish();
        PBT_CHECK(ok == (room >= text.size()), "writing %zu bytes to a stream with room for %zu %s", text.size(), room, ok ? "is reported as a success" : "fails");
        s.label(ok ? "just fits" : "write fault");
    }
    else
    {
        std::size_t const at = s.below(text.size() + 1);
        PieceBuf buf(text.substr(0, at), 1 + s.below(20), true);
        std::istream i(&buf);
        fly::BitStreamReader r(i);
        s.label("read fault");
        PBT_CHECK(i.fail() == (at == 0), "a header that %s read %s refused", at ? "can be" : "cannot be", i.fail() ? "is" : "is not");
        // never more or other bits than were read, and the fault is visible afterwards
        std::size_t seen = 0;
        for (std::size_t k = 0; k < model.size() + 2; ++k)
        {
            std::uint8_t v = 0;
            unsigned const got = r.read_bits(v, 1);
            if (got == 0)
                break;
            PBT_CHECK(seen < 8 * (at - 1) && seen < 8 * (text.size() - 1), "bit %zu is read from %zu bytes", seen, at);
            bool const want = (static_cast<unsigned char>(text[1 + seen / 8]) >> (7 - seen % 8)) & 1;
            PBT_CHECK(v == want, "bit %zu is %u, should be %d", seen, v, want);
            ++seen;
        }
        PBT_CHECK(!r.fully_consumed() , "a stream that cannot be read is fully consumed");
        PBT_CHECK(i.fail(), "a read fault is not reported by the stream");
    }
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"B01",
        "Sequences of up to 60 writes (words, bytes, bit fields of every width of four types, with arbitrary bits above the width) must produce exactly the documented bytes; sequences of up to 80 reads, peeks, discards and end checks over them (streams delivered whole or in pieces), including past the end, must match a list of bits. The same reads run over arbitrary bytes with valid and invalid headers. Streams that fail at the write or read of any byte must be reported. Non-trivial: at least one bit was written (or, for damaged streams, any).",
        {{"round_trip", round_trip, 60000, 3000000}, {"damaged", damaged, 60000, 2000000}, {"faults", faults, 40000, 1000000}},
        {}, {"discard_bits is only called for bits that were just peeked, as documented", "widths do not exceed those of the value's type"}});
}
