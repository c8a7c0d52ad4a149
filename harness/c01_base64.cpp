// C01: Base64.
#include "pbt.hpp"
#include "quiet.hpp"
#include "scratch.hpp"

#include "fly/coders/base64/base64_coder.hpp"

#include <memory>
#include <optional>

namespace {

constexpr std::size_t s_buffer = 196608; // bytes of input that fill the coder's buffer once

struct Coder : fly::coders::Base64Coder
{
    using fly::coders::Base64Coder::decode_internal;
    using fly::coders::Base64Coder::encode_internal;
};

// one coder for each case, used for everything the case does
std::unique_ptr<Coder> s_coder;

Coder &coder()
{
    if (!s_coder)
        s_coder = std::make_unique<Coder>();
    return *s_coder;
}

char const *const s_alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string ref_encode(std::string const &in)
{
    std::string out;
    out.reserve(in.size() * 4 / 3 + 4);
    unsigned acc = 0, bits = 0;
    for (unsigned char c : in)
    {
        acc = (acc << 8) | c;
        bits += 8;
        while (bits >= 6)
        {
            bits -= 6;
            out += s_alphabet[(acc >> bits) & 63];
        }
        acc &= (1u << bits) - 1;
    }
    if (bits)
        out += s_alphabet[(acc << (6 - bits)) & 63];
    while (out.size() % 4)
        out += '=';
    return out;
}

// nothing: not padded Base64 of whole groups. Unused trailing bits are ignored.
std::optional<std::string> ref_decode(std::string const &in)
{
    static auto const table = [] {
        std::array<int, 256> t;
        t.fill(-1);
        for (int i = 0; i < 64; ++i)
            t[static_cast<unsigned char>(s_alphabet[i])] = i;
        return t;
    }();
    if (in.size() % 4)
        return std::nullopt;
    std::size_t n = in.size();
    for (int k = 0; k < 2 && n > 0 && in[n - 1] == '='; ++k)
        --n;
    std::string out;
    out.reserve(n);
    unsigned acc = 0, bits = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        int const v = table[static_cast<unsigned char>(in[i])];
        if (v < 0)
            return std::nullopt;
        acc = (acc << 6) | static_cast<unsigned>(v);
        bits += 6;
        if (bits >= 8)
        {
            bits -= 8;
            out += static_cast<char>((acc >> bits) & 0xff);
        }
        acc &= (1u << bits) - 1;
    }
    return out;
}

std::string summary(std::string const &s)
{
    return s.size() <= 200 ? pbt::show(s) : pbt::strf("%zu bytes", s.size());
}

std::string first_difference(std::string const &a, std::string const &b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    return pbt::strf("%zu and %zu bytes, first different at %zu", a.size(), b.size(), i);
}

std::string bytes(pbt::Src &s, std::size_t n)
{
    std::string r(n, '\0');
    if (n > 300)
    {
        // long contents: cheap to generate, one choice
        std::uint64_t x = s.u64() | 1;
        for (auto &c : r)
        {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            c = static_cast<char>(x >> 32);
        }
        return r;
    }
    std::size_t const style = s.below(4);
    for (auto &c : r)
        c = style == 0 ? static_cast<char>(s.byte()) : style == 1 ? s.pick({'\0', '\xff', '\x80', '\x7f'}) : style == 2 ? static_cast<char>(0x80 + s.below(128)) : static_cast<char>(s.range('a', 'z'));
    return r;
}

std::size_t big_size(pbt::Src &s)
{
    std::size_t const whole = s_buffer * (1 + s.below(2));
    return static_cast<std::size_t>(static_cast<std::int64_t>(whole) + s.range(-4, 4));
}

// encodes and decodes through one of the entry points
enum Way { Strings, Streams, Files };

bool encode(Way way, pbt::Src &s, std::string const &in, std::string &out)
{
    if (way == Strings)
        return coder().encode_string(in, out);
    if (way == Streams)
    {
        PieceBuf buf(in, 1 + s.below(5000), false);
        std::istream i(&buf);
        std::ostringstream o;
        bool const ok = coder().encode_internal(i, o);
        out = o.str();
        return ok;
    }
    CaseDir d;
    write_file(d.path / "in", in);
    if (s.flip())
        write_file(d.path / "out", "previous content that is longer than nothing");
    bool const ok = coder().encode_file(d.path / "in", d.path / "out");
    out = read_file(d.path / "out");
    return ok;
}

bool decode(Way way, pbt::Src &s, std::string const &in, std::string &out)
{
    if (way == Strings)
        return coder().decode_string(in, out);
    if (way == Streams)
    {
        PieceBuf buf(in, 1 + s.below(5000), false);
        std::istream i(&buf);
        std::ostringstream o;
        bool const ok = coder().decode_internal(i, o);
        out = o.str();
        return ok;
    }
    CaseDir d;
    write_file(d.path / "in", in);
    bool const ok = coder().decode_file(d.path / "in", d.path / "out");
    out = read_file(d.path / "out");
    return ok;
}

char const *name(Way w) { return w == Strings ? "strings" : w == Streams ? "streams" : "files"; }

void round_trip(pbt::Src &s, std::string const &in, Way way)
{
    s.label(name(way));
    if (s.want_note())
        s.note(summary(in));
    std::string const want = ref_encode(in);
    std::string encoded, decoded;
    PBT_CHECK(encode(way, s, in, encoded), "encoding %s through %s fails", summary(in).c_str(), name(way));
    PBT_CHECK(encoded == want, "%s is encoded through %s as %s, should be %s (%s)", summary(in).c_str(), name(way), summary(encoded).c_str(), summary(want).c_str(), first_difference(encoded, want).c_str());
    PBT_CHECK(decode(way, s, encoded, decoded), "decoding the encoding of %s through %s fails", summary(in).c_str(), name(way));
    PBT_CHECK(decoded == in, "%s through %s decodes to %s (%s)", summary(in).c_str(), name(way), summary(decoded).c_str(), first_difference(decoded, in).c_str());
}

void small(pbt::Src &s)
{
    std::size_t const n = 1 + s.below(3);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::string const in = bytes(s, s.length(200));
        if (in.size() % 3)
            s.label("padded");
        if (!in.empty())
            s.nontrivial();
        round_trip(s, in, s.chance(1, 4) ? Streams : Strings);
    }
}

void big(pbt::Src &s)
{
    std::string const in = bytes(s, big_size(s));
    s.nontrivial();
    s.label(in.size() % s_buffer == 0 ? "whole buffers" : in.size() % s_buffer >= s_buffer - 2 ? "padded whole buffers" : "other length");
    round_trip(s, in, static_cast<Way>(s.below(3)));
}

void files(pbt::Src &s)
{
    std::string const in = bytes(s, s.length(2000));
    if (!in.empty())
        s.nontrivial();
    round_trip(s, in, Files);
}

void judge(pbt::Src &s, std::string const &text, Way way)
{
    auto const want = ref_decode(text);
    s.label(want ? "accepted" : "rejected");
    std::string out;
    bool const ok = decode(way, s, text, out);
    PBT_CHECK(ok == want.has_value(), "decoding %s through %s %s", summary(text).c_str(), name(way), ok ? "succeeds" : "fails");
    if (ok)
        PBT_CHECK(out == *want, "%s decodes to %s, should be %s", summary(text).c_str(), summary(out).c_str(), summary(*want).c_str());
    s.nontrivial();
}

void mutate(pbt::Src &s, std::string &t)
{
    std::size_t const n = 1 + s.below(3);
    for (std::size_t k = 0; k < n; ++k)
    {
        // half of the time in the last two groups
        std::size_t const at = t.empty() ? 0 : s.flip() ? t.size() - 1 - s.below(std::min<std::size_t>(t.size(), 8)) : s.below(t.size());
        switch (s.below(8))
        {
            case 0: if (!t.empty()) t[at] = '='; break;
            case 1: if (!t.empty()) t[at] = static_cast<char>(s.byte()); break;
            case 2: if (!t.empty()) t[at] = static_cast<char>(0x80 + s.below(128)); break;
            case 3: t.insert(at, 1, s.pick({'=', 'A', '\n', ' ', '-', '_', '/', '+'})); break;
            case 4: if (!t.empty()) t.erase(at, 1 + s.below(4)); break;
            case 5: t += s.pick<char const *>({"=", "==", "===", "====", "A", "A===", "AA==", "AAA=", "AA=A", "\n"}); break;
            case 6: if (!t.empty()) t[at] = s_alphabet[s.below(64)]; break;
            default: if (!t.empty()) t[at] = s.pick({'@', '[', '`', '{', '.', ',', ':', '*', '\0', '\xff', '<', '>'}); break;
        }
    }
}

void mutated(pbt::Src &s)
{
    std::string t = ref_encode(bytes(s, s.length(60)));
    mutate(s, t);
    if (s.want_note())
        s.note(summary(t));
    judge(s, t, s.chance(1, 6) ? Streams : Strings);
}

// every text of one group over representatives of each class of character
void group(pbt::Src &s)
{
    static std::string const chars = std::string("=AZaz09+/\x80\xff.@ ", 14) + std::string(1, '\0');
    std::string t;
    std::size_t n = s.enumerate(chars.size() * chars.size() * chars.size() * chars.size());
    for (int i = 0; i < 4; ++i, n /= chars.size())
        t += chars[n % chars.size()];
    judge(s, t, Strings);
}

void mutated_big(pbt::Src &s)
{
    std::string t = ref_encode(bytes(s, big_size(s)));
    std::size_t const whole = s_buffer / 3 * 4;
    switch (s.below(4))
    {
        case 0: mutate(s, t); break;
        case 1: t[std::min(t.size() - 1, static_cast<std::size_t>(static_cast<std::int64_t>(whole) + s.range(-5, 5)))] = s.pick({'=', '!', '\x80'}); break;
        case 2: t[std::min(t.size() - 1, static_cast<std::size_t>(static_cast<std::int64_t>(whole) + s.range(-5, 5)))] = 'Q'; break;
        default: t.insert(whole - 4, s.pick<char const *>({"====", "QQ==", "QQQ="})); break;
    }
    judge(s, t, s.below(2) ? Files : Strings);
}

// failing files: reported, and nothing crashes
void faults(pbt::Src &s)
{
    CaseDir d;
    std::string const in = bytes(s, 1 + s.below(400));
    bool const enc = s.flip();
    write_file(d.path / "in", enc ? in : ref_encode(in));
    auto source = d.path / "in", target = d.path / "out";
    bool good = false;
    std::string what;
    switch (s.below(5))
    {
        case 0: source = d.path / "missing"; what = "a missing input"; break;
        case 1: source = d.path; what = "a directory as input"; break;
        case 2: target = d.path / "no" / "out"; what = "an output in a missing directory"; break;
        case 3: target = "/dev/full"; what = "an output device that is full"; break;
        default: good = true; what = "usable files"; break;
    }
    s.label(what);
    s.nontrivial();
    bool ok = false;
    ok = enc ? coder().encode_file(source, target) : coder().decode_file(source, target);
    PBT_CHECK(ok == good, "%s with %s %s", enc ? "encode_file" : "decode_file", what.c_str(), ok ? "succeeds" : "fails");
    // the coder still works
    std::string e, o;
    PBT_CHECK(coder().encode_string(in, e) && e == ref_encode(in), "encoding after %s is wrong", what.c_str());
    // read errors and write errors of streams
    std::string const content = bytes(s, s.below(300));
    {
        PieceBuf buf(content, 7, true);
        std::istream i(&buf);
        std::ostringstream out;
        PBT_CHECK(!coder().encode_internal(i, out), "encoding a stream with a read error succeeds");
    }
    {
        std::string const text = ref_encode(content);
        PieceBuf buf(text, 5, true);
        std::istream i(&buf);
        std::ostringstream out;
        PBT_CHECK(!coder().decode_internal(i, out), "decoding a stream with a read error succeeds");
    }
    if (!content.empty())
    {
        std::istringstream i(content);
        FullBuf buf(s.below(ref_encode(content).size()));
        std::ostream out(&buf);
        PBT_CHECK(!coder().encode_internal(i, out), "encoding to a full stream succeeds");
        std::istringstream i2(ref_encode(content));
        FullBuf buf2(s.below(content.size()));
        std::ostream out2(&buf2);
        PBT_CHECK(!coder().decode_internal(i2, out2), "decoding to a full stream succeeds");
    }
}

} // namespace

template <void (*F)(pbt::Src &)>
void fresh(pbt::Src &s)
{
    s_coder.reset();
    F(s);
}

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"C01",
        "Byte strings of every small length and of lengths within four of one and two whole coder buffers (196608 bytes) are encoded and decoded as strings, streams delivered in pieces, and files, with one coder object for each case, against an independent RFC 4648 coder. Valid encodings are mutated (padding, non-alphabet and non-ASCII bytes, insertions, deletions; around buffer boundaries) and all 50625 groups over 15 representative characters are tried, and must be accepted exactly when the independent decoder accepts. Missing, unreadable and full files, and streams with read and write errors, must be reported. Non-trivial: the input is not empty.",
        {{"small", fresh<small>, 60000, 6000000}, {"group", group, 50625, 50625}, {"mutated", fresh<mutated>, 150000, 6000000}, {"files", fresh<files>, 3000, 100000}, {"faults", fresh<faults>, 3000, 60000}, {"big", fresh<big>, 60, 3000}, {"mutated_big", fresh<mutated_big>, 80, 3000}},
        {}, {"unused bits of the last symbol before padding are ignored when decoding (RFC 4648 leaves this open)"}});
}
