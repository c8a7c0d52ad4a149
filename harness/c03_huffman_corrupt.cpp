// C03: decoding corrupt Huffman data.
#include "huffman_common.hpp"
#include "quiet.hpp"

namespace {

std::string valid(pbt::Src &s, std::string &in)
{
    unsigned const kb = 1 + static_cast<unsigned>(s.below(2));
    unsigned const length = s.chance(1, 3) ? 11 : 1 + static_cast<unsigned>(s.below(15));
    Encoder e(std::make_shared<HuffmanConfig>(kb, length));
    std::size_t const fit = std::size_t(1) << std::min(length, 8u);
    std::size_t const chunk = kb << 10;
    switch (s.below(4))
    {
        case 0: in = gen::skewed(s, 1 + s.below(30), 1 + s.below(fit)); break;
        case 1: in = gen::skewed(s, 1 + s.below(600), 1 + s.below(fit)); break;
        case 2: in = gen::skewed(s, chunk, 1 + s.below(fit)) + gen::skewed(s, 1 + s.below(100), 1 + s.below(fit)); break;
        default: in = gen::skewed(s, chunk + s.below(2 * chunk), 1 + s.below(fit)); break;
    }
    std::string encoded;
    if (!e.encode_string(in, encoded))
        throw pbt::Skip {};
    return encoded;
}

void judge(pbt::Src &s, Decoder &d, std::string const &text)
{
    ref::Huffman const want(text);
    std::string out = "untouched";
    bool const ok = d.decode_string(text, out);
    s.label(want.open ? "codes without bits" : want.ok ? "valid" : pbt::strf("rejected: %s", want.why));
    if (ok)
        PBT_CHECK(out.size() <= 8 * text.size(), "%zu bytes decode to %zu", text.size(), out.size());
    if (want.open)
        return;
    PBT_CHECK(ok == want.ok, "decoding %s %s (%s)", ref::summary(text).c_str(), ok ? "succeeds" : "fails", want.why);
    if (ok)
        PBT_CHECK(out == want.out, "%s decodes to %s, should be %s (%s)", ref::summary(text).c_str(), ref::summary(out).c_str(), ref::summary(want.out).c_str(), ref::difference(out, want.out).c_str());
}

void mutate(pbt::Src &s, std::string &t)
{
    std::size_t const n = 1 + s.below(3);
    for (std::size_t k = 0; k < n && !t.empty(); ++k)
    {
        // mostly in the header and code tables
        std::size_t const at = s.chance(2, 3) ? s.below(std::min<std::size_t>(t.size(), 60)) : s.below(t.size());
        switch (s.below(6))
        {
            case 0: t[at] = static_cast<char>(t[at] ^ (1 << s.below(8))); break;
            case 1: t[at] = static_cast<char>(s.byte()); break;
            case 2: t[at] = static_cast<char>(t[at] + (s.flip() ? 1 : -1)); break;
            case 3: t.erase(at, 1 + s.below(4)); break;
            case 4: t.insert(at, 1 + s.below(3), static_cast<char>(s.byte())); break;
            default: t.resize(t.size() - s.below(std::min<std::size_t>(t.size(), 40))); break;
        }
        // keep the chunks small: their size only determines how much is allocated
        if (t.size() > 3 && s.chance(15, 16))
            t[2] = 0;
    }
}

void mutated(pbt::Src &s)
{
    std::string in;
    Decoder d;
    std::size_t const n = 1 + s.below(3);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::string t = valid(s, in);
        if (s.chance(7, 8))
            mutate(s, t);
        if (s.want_note())
            s.note(ref::summary(t) + " ");
        judge(s, d, t);
        s.nontrivial();
    }
}

// documents composed from the format's fields, mostly near validity
void composed(pbt::Src &s)
{
    std::string bits;
    auto put = [&](std::uint64_t v, unsigned n) {
        for (unsigned i = n; i-- > 0;)
            bits += static_cast<char>((v >> i) & 1);
    };
    put(s.chance(1, 20) ? s.byte() : 1, 8);
    put(s.chance(1, 20) ? s.below(300) : 1, 16);
    unsigned const max = s.chance(1, 20) ? s.byte() : 1 + static_cast<unsigned>(s.below(15));
    put(max, 8);
    std::size_t const chunks = s.below(4);
    for (std::size_t c = 0; c < chunks; ++c)
    {
        unsigned const n = s.chance(1, 20) ? s.byte() : 1 + static_cast<unsigned>(s.below(std::min(max, 15u) + 1));
        put(n, 8);
        std::size_t total = 0;
        std::int64_t room = 1; // codes left at this length
        for (unsigned l = 0; l < n; ++l)
        {
            std::int64_t count = 0;
            if (l > 0)
            {
                room = std::min<std::int64_t>(2 * room, 1 << 16);
                count = l + 1 == n && s.flip() ? room : static_cast<std::int64_t>(s.below(static_cast<std::uint64_t>(std::max<std::int64_t>(room, 0)) + 1));
                count = std::min<std::int64_t>(count, 258);
                if (s.chance(1, 30))
                    count += 1 + static_cast<std::int64_t>(s.below(3));
                else if (s.chance(1, 100))
                    count = static_cast<std::int64_t>(s.below(65536));
            }
            else if (s.chance(1, 40))
                count = 1 + static_cast<std::int64_t>(s.below(2));
            room = std::max<std::int64_t>(room - count, 0);
            total += static_cast<std::size_t>(count);
            put(static_cast<std::uint64_t>(count), 16);
        }
        std::size_t const listed = std::min<std::size_t>(total, 300) - (s.chance(1, 20) && total > 0 ? 1 : 0);
        std::uint64_t x = s.u64() | 1;
        for (std::size_t k = 0; k < listed; ++k)
        {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            put(x >> 56, 8);
        }
        std::size_t const data = s.chance(1, 6) ? 1024 * (1 + s.below(14)) + s.below(40) : s.below(200);
        for (std::size_t k = 0; k < data; k += 8)
        {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            put(s.flip() ? x >> 56 : 0, 8);
        }
        for (std::size_t k = s.below(8); k-- > 0;)
            put(s.below(2), 1);
    }
    std::string text(1, static_cast<char>((0x1a << 3) | ((8 - bits.size() % 8) % 8)));
    text.resize(1 + (bits.size() + 7) / 8);
    for (std::size_t i = 0; i < bits.size(); ++i)
        if (bits[i])
            text[1 + i / 8] = static_cast<char>(text[1 + i / 8] | (0x80 >> (i % 8)));
    if (s.chance(1, 20))
        text[0] = static_cast<char>(s.byte());
    if (s.want_note())
        s.note(ref::summary(text));
    s.nontrivial();
    Decoder d;
    judge(s, d, text);
    judge(s, d, text); // and with what the first left behind
}

void arbitrary(pbt::Src &s)
{
    std::string t(s.length(60), '\0');
    for (auto &c : t)
        c = s.flip() ? static_cast<char>(s.byte()) : static_cast<char>(s.below(4));
    std::string const start = std::string("\xd0\x01\x00\x01", 4);
    for (std::size_t i = 0; i < std::min(start.size(), t.size()); ++i)
        if (s.chance(15, 16))
            t[i] = start[i];
    if (s.want_note())
        s.note(ref::summary(t));
    s.nontrivial();
    Decoder d;
    judge(s, d, t);
}

// truncated data never passes for the whole
void truncated(pbt::Src &s)
{
    std::string in, out;
    std::string const whole = valid(s, in);
    std::size_t const at = s.flip() ? s.below(whole.size()) : whole.size() - 1 - s.below(std::min<std::size_t>(whole.size(), 4));
    std::string const t = whole.substr(0, at);
    s.nontrivial();
    if (s.want_note())
        s.note(pbt::strf("%zu of ", at) + ref::summary(whole));
    Decoder d;
    bool const ok = s.flip() && (d.decode_string(whole, out), true) ? d.decode_string(t, out) : Decoder().decode_string(t, out);
    s.label(ok ? "decoded in part" : "rejected");
    PBT_CHECK(!ok || (out.size() < in.size() && in.compare(0, out.size(), out) == 0), "the first %zu of the %zu bytes that encode %s decode to %s", at, whole.size(), ref::summary(in).c_str(), ref::summary(out).c_str());
    judge(s, d, t);
}

// chunk sizes up to the largest
void large_chunks(pbt::Src &s)
{
    std::string in;
    std::string t = valid(s, in);
    unsigned const kb = static_cast<unsigned>(s.flip() ? 65535 : s.below(65536));
    t[2] = static_cast<char>(kb >> 8);
    t[3] = static_cast<char>(kb);
    if (s.flip())
        mutate(s, t);
    s.nontrivial();
    Decoder d;
    judge(s, d, t);
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"C03",
        "Valid encodings with up to three mutations or truncated anywhere, documents composed from the format's fields near validity (incomplete, complete and over-subscribed code sets, several chunks, missing parts), nearly arbitrary bytes and the largest chunk sizes are decoded under AddressSanitizer and UndefinedBehaviorSanitizer, reusing decoder objects. The decoder must accept and yield exactly what an independent bit-at-a-time decoder of the documented format does, output is bounded by the input, and truncated data must not decode to the complete original. Every case is non-trivial.",
        {{"mutated", mutated, 60000, 2500000}, {"composed", composed, 60000, 2500000}, {"arbitrary", arbitrary, 100000, 3000000}, {"truncated", truncated, 40000, 1500000}, {"large_chunks", large_chunks, 120, 3000}},
        {}, {"data listing codes of zero bits, which the format does not define, may be accepted or rejected"}});
}
