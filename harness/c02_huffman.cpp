// C02: Huffman coding is lossless.
#include "huffman_common.hpp"
#include "quiet.hpp"

namespace {

struct Setup
{
    unsigned kb, length;
};

Setup setup(pbt::Src &s)
{
    unsigned const kb = s.chance(7, 8) ? 1 + static_cast<unsigned>(s.below(4)) : s.pick({5u, 16u, 64u, 256u, 257u, 1024u});
    unsigned const length = s.chance(1, 8) ? 11 : 1 + static_cast<unsigned>(s.below(15));
    return {kb, length};
}

std::size_t most_symbols(std::string const &in, std::size_t chunk)
{
    std::size_t most = 0;
    for (std::size_t i = 0; i < in.size(); i += chunk)
    {
        std::array<bool, 256> seen {};
        std::size_t n = 0;
        for (std::size_t k = i; k < std::min(in.size(), i + chunk); ++k)
            if (!std::exchange(seen[static_cast<unsigned char>(in[k])], true))
                ++n;
        most = std::max(most, n);
    }
    return most;
}

enum Way { Strings, Streams, Files };
char const *name(Way w) { return w == Strings ? "strings" : w == Streams ? "streams" : "files"; }

bool encode(pbt::Src &s, Way way, Encoder &e, std::string const &in, std::string &out)
{
    if (way == Strings)
        return e.encode_string(in, out);
    if (way == Streams)
    {
        PieceBuf buf(in, 1 + s.below(3000), false);
        std::istream i(&buf);
        std::ostringstream o(std::ios::out | std::ios::binary);
        bool const ok = e.encode_internal(i, o);
        out = o.str();
        return ok;
    }
    CaseDir d;
    write_file(d.path / "in", in);
    if (s.flip())
        write_file(d.path / "out", std::string(50, 'x'));
    bool const ok = e.encode_file(d.path / "in", d.path / "out");
    out = read_file(d.path / "out");
    return ok;
}

bool decode(pbt::Src &s, Way way, Decoder &c, std::string const &in, std::string &out)
{
    if (way == Strings)
        return c.decode_string(in, out);
    if (way == Streams)
    {
        PieceBuf buf(in, 1 + s.below(3000), false);
        std::istream i(&buf);
        std::ostringstream o(std::ios::out | std::ios::binary);
        bool const ok = c.decode_internal(i, o);
        out = o.str();
        return ok;
    }
    CaseDir d;
    write_file(d.path / "in", in);
    bool const ok = c.decode_file(d.path / "in", d.path / "out");
    out = read_file(d.path / "out");
    return ok;
}

std::string content(pbt::Src &s, Setup const &c)
{
    std::size_t const chunk = std::size_t(c.kb) << 10;
    std::size_t const fit = std::size_t(1) << std::min(c.length, 8u);
    std::size_t const symbols = s.chance(1, 2) ? fit - s.below(std::min<std::size_t>(fit, 3)) : s.chance(1, 12) ? std::min<std::size_t>(256, fit + 1 + s.below(3)) : 1 + s.below(std::min<std::size_t>(fit, 256));
    std::size_t const kind = s.below(6);
    if (c.kb > 64 && kind < 4)
        return gen::skewed(s, s.below(5000), symbols);
    switch (kind)
    {
        case 0: return gen::skewed(s, s.length(40), symbols);
        case 1: return gen::skewed(s, s.below(2000), symbols);
        case 2: return gen::skewed(s, s.below(3 * chunk), symbols);
        case 3: return gen::skewed(s, static_cast<std::size_t>(std::max<std::int64_t>(0, static_cast<std::int64_t>(chunk * (1 + s.below(3))) + s.range(-2, 2))), symbols);
        case 4: // chunks of different kinds: the codes change from chunk to chunk
        {
            std::string r;
            std::size_t const n = 1 + s.below(3);
            for (std::size_t k = 0; k < n; ++k)
                r += gen::skewed(s, std::min<std::size_t>(chunk, 1 << 15), 1 + s.below(std::min<std::size_t>(fit, 256)));
            return r + gen::skewed(s, s.below(200), symbols);
        }
        default: return gen::skewed(s, s.chance(1, 6) ? 20000 + s.below(60000) : 256 + s.below(2000), symbols);
    }
}

void round_trip(pbt::Src &s)
{
    Setup const c = setup(s);
    Encoder e(std::make_shared<HuffmanConfig>(c.kb, c.length));
    Decoder d;
    std::size_t const rounds = 1 + s.below(3);
    for (std::size_t k = 0; k < rounds; ++k)
    {
        std::string const in = content(s, c);
        Way const way = s.chance(5, 6) ? Strings : s.flip() ? Streams : Files;
        std::size_t const symbols = most_symbols(in, std::size_t(c.kb) << 10);
        if (s.want_note())
            s.note(pbt::strf("chunks of %u KB, codes of up to %u bits, %zu bytes of up to %zu symbols ", c.kb, c.length, in.size(), symbols) + ref::summary(in));
        std::string encoded, decoded;
        bool const possible = symbols <= (std::size_t(1) << c.length);
        bool const ok = encode(s, way, e, in, encoded);
        if (!ok)
        {
            s.label("not encodable");
            PBT_CHECK(!possible, "encoding %s (%zu symbols) in chunks of %u KB with codes of up to %u bits through %s fails", ref::summary(in).c_str(), symbols, c.kb, c.length, name(way));
            continue;
        }
        ref::Huffman const r(encoded, in.size() + 10);
        PBT_CHECK(r.ok, "%s (%zu symbols) in chunks of %u KB with codes of up to %u bits is encoded through %s as %s, which cannot be decoded: %s", ref::summary(in).c_str(), symbols, c.kb, c.length, name(way), ref::summary(encoded).c_str(), r.why);
        PBT_CHECK(r.out == in, "%s with codes of up to %u bits is encoded through %s as data denoting %s (%s)", ref::summary(in).c_str(), c.length, name(way), ref::summary(r.out).c_str(), ref::difference(r.out, in).c_str());
        PBT_CHECK(r.longest <= c.length && r.max_length <= c.length, "codes of %u bits (maximum %u) are used", r.longest, c.length);
        PBT_CHECK(r.chunk_kb == c.kb, "the chunk size is written as %u KB, should be %u", r.chunk_kb, c.kb);
        PBT_CHECK(decode(s, way, d, encoded, decoded), "decoding the encoding of %s with codes of up to %u bits through %s fails", ref::summary(in).c_str(), c.length, name(way));
        PBT_CHECK(decoded == in, "%s with codes of up to %u bits through %s decodes to %s (%s)", ref::summary(in).c_str(), c.length, name(way), ref::summary(decoded).c_str(), ref::difference(decoded, in).c_str());
        if (!in.empty())
            s.nontrivial();
        if (r.chunks > 1)
            s.label("several chunks");
        if (symbols == (std::size_t(1) << c.length))
            s.label("as many symbols as codes");
        if (r.longest == c.length)
            s.label("codes of the maximum length");
        s.label(name(way));
    }
}

// configurations that cannot work are reported, never written as data that is lost
void bad_setup(pbt::Src &s)
{
    unsigned const kb = s.flip() ? 0 : 1;
    unsigned const length = kb == 0 ? static_cast<unsigned>(s.below(20)) : s.pick({0u, 16u, 17u, 31u, 32u, 33u, 64u, 128u, 255u});
    Encoder e(std::make_shared<HuffmanConfig>(kb, length));
    std::string const in = gen::skewed(s, s.below(50), 1 + s.below(20));
    std::string encoded, decoded;
    s.nontrivial();
    if (s.want_note())
        s.note(pbt::strf("chunks of %u KB, codes of up to %u bits, ", kb, length) + ref::summary(in));
    if (!e.encode_string(in, encoded))
        return;
    s.label("encoded");
    Decoder d;
    PBT_CHECK(d.decode_string(encoded, decoded) && decoded == in, "%s in chunks of %u KB with codes of up to %u bits is encoded as data that cannot be decoded", ref::summary(in).c_str(), kb, length);
}

void faults(pbt::Src &s)
{
    Setup const c {1, 8 + static_cast<unsigned>(s.below(8))};
    Encoder e(std::make_shared<HuffmanConfig>(c.kb, c.length));
    Decoder d;
    std::string const in = gen::skewed(s, 1 + s.below(2500), 1 + s.below(256));
    std::string encoded;
    PBT_CHECK(e.encode_string(in, encoded), "encoding %s fails", ref::summary(in).c_str());
    bool const enc = s.flip();
    s.nontrivial();
    auto verdict = [&](bool ok, bool good, char const *what) {
        s.label(what);
        PBT_CHECK(ok == good, "%s %s with %s %s", enc ? "encoding" : "decoding", ref::summary(in).c_str(), what, ok ? "succeeds" : "fails");
    };
    switch (s.below(7))
    {
        case 0:
        {
            // the first bytes can be read, then reading fails
            std::string const &text = enc ? in : encoded;
            std::size_t const n = s.below(text.size() + 1);
            PieceBuf buf(text.substr(0, n), 1 + s.below(600), true);
            std::istream i(&buf);
            std::ostringstream o;
            verdict(enc ? e.encode_internal(i, o) : d.decode_internal(i, o), false, "a read error");
            break;
        }
        case 1:
        {
            std::string const &target = enc ? encoded : in;
            std::size_t const room = s.below(target.size() + 1);
            std::istringstream i(enc ? in : encoded);
            FullBuf buf(room);
            std::ostream o(&buf);
            verdict(enc ? e.encode_internal(i, o) : d.decode_internal(i, o), room == target.size(), room == target.size() ? "just enough room" : "a write error");
            break;
        }
        default:
        {
            CaseDir dir;
            write_file(dir.path / "in", enc ? in : encoded);
            auto source = dir.path / "in", target = dir.path / "out";
            bool good = false;
            char const *what = "";
            switch (s.below(5))
            {
                case 0: source = dir.path / "missing"; what = "a missing input"; break;
                case 1: source = dir.path; what = "a directory as input"; break;
                case 2: target = dir.path / "no" / "out"; what = "an output in a missing directory"; break;
                case 3: target = "/dev/full"; what = "an output device that is full"; break;
                default: good = true; what = "usable files"; break;
            }
            verdict(enc ? e.encode_file(source, target) : d.decode_file(source, target), good, what);
            break;
        }
    }
    // the coders still work
    std::string again, out;
    PBT_CHECK(e.encode_string(in, again) && again == encoded, "encoding %s again is different", ref::summary(in).c_str());
    PBT_CHECK(d.decode_string(encoded, out) && out == in, "decoding %s again fails", ref::summary(in).c_str());
}

// as large as one chunk can be made with codes of 20 and more bits
void deep(pbt::Src &s)
{
    unsigned const length = 2 + static_cast<unsigned>(s.below(14));
    unsigned const kb = 65535;
    Encoder e(std::make_shared<HuffmanConfig>(kb, length));
    Decoder d;
    std::size_t const symbols = std::min<std::size_t>(std::size_t(1) << length, 18 + s.below(10));
    std::string in;
    std::uint64_t a = 1, b = 1;
    for (std::size_t i = 0; i < symbols; ++i)
    {
        in.append(static_cast<std::size_t>(a), static_cast<char>(i * 7));
        std::swap(a, b);
        b += a;
    }
    s.nontrivial();
    std::string encoded, decoded;
    PBT_CHECK(e.encode_string(in, encoded), "encoding %zu bytes fails", in.size());
    PBT_CHECK(d.decode_string(encoded, decoded) && decoded == in, "%zu bytes of Fibonacci frequencies with codes of up to %u bits are lost", in.size(), length);
    auto const kraft = d.compute_kraft_mcmillan_constant();
    PBT_CHECK(kraft <= (1u << length), "the Kraft sum is %u of %u", kraft, 1u << length);
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"C02",
        "Byte strings over 1 to 256 symbols with equal to Fibonacci frequencies, shorter than, exactly and longer than one chunk (several chunks with different codes), are encoded with chunk sizes from 1 KB and maximum code lengths 1 to 15, as strings, streams delivered in pieces and files, reusing the coder objects. The encoding must be decoded by an independent decoder of the documented format and by the library to the original bytes, and may only fail when a chunk has more symbols than there are codes. Impossible configurations, read and write errors and unusable files must be reported. Non-trivial: the input is not empty.",
        {{"round_trip", round_trip, 40000, 1500000}, {"bad_setup", bad_setup, 10000, 200000}, {"faults", faults, 10000, 300000}, {"deep", deep, 24, 600}},
        {}, {"encoding may fail when a chunk has more distinct bytes than the maximum code length can tell apart"}});
}
