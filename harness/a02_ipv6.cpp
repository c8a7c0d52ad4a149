// A02: IPv6 address and endpoint text forms.
#include "ip_common.hpp"

namespace {

using Addr = fly::net::IPv6Address;
using End = fly::net::Endpoint<Addr>;
using Groups = std::array<std::uint16_t, 8>;

// Independent parser of the RFC 4291 hexadecimal-group text form.
std::optional<Groups> ref_ipv6(std::string_view s)
{
    auto groups = [](std::string_view t) -> std::optional<std::vector<std::uint16_t>> {
        std::vector<std::uint16_t> out;
        if (t.empty())
            return out;
        std::size_t i = 0;
        while (true)
        {
            std::size_t n = 0;
            unsigned v = 0;
            while (i < t.size() && isxdigit(static_cast<unsigned char>(t[i])))
            {
                char const c = static_cast<char>(tolower(t[i]));
                v = v * 16 + static_cast<unsigned>((c <= '9') ? c - '0' : c - 'a' + 10);
                ++i;
                if (++n > 4)
                    return {};
            }
            if (n == 0)
                return {};
            out.push_back(static_cast<std::uint16_t>(v));
            if (i == t.size())
                return out;
            if (t[i] != ':')
                return {};
            ++i;
        }
    };
    auto const p = s.find("::");
    Groups g {};
    if (p == std::string_view::npos)
    {
        auto const all = groups(s);
        if (!all || all->size() != 8)
            return {};
        std::copy(all->begin(), all->end(), g.begin());
        return g;
    }
    auto const head = groups(s.substr(0, p));
    auto const rest = s.substr(p + 2);
    auto const back = groups(rest);
    if (!head || !back || head->size() + back->size() > 7)
        return {};
    std::copy(head->begin(), head->end(), g.begin());
    std::copy(back->begin(), back->end(), g.end() - static_cast<std::ptrdiff_t>(back->size()));
    return g;
}

Addr make(Groups const &g)
{
    Addr::address_type a {};
    for (std::size_t i = 0; i < 8; ++i)
    {
        a[2 * i] = static_cast<std::uint8_t>(g[i] >> 8);
        a[2 * i + 1] = static_cast<std::uint8_t>(g[i]);
    }
    return Addr(a);
}

Groups groups_of(Addr const &a)
{
    std::uint8_t b[16];
    std::memset(b, 0xa5, sizeof(b));
    a.copy(b);
    Groups g {};
    for (std::size_t i = 0; i < 8; ++i)
        g[i] = static_cast<std::uint16_t>(b[2 * i] << 8 | b[2 * i + 1]);
    return g;
}

std::string hex(Groups const &g)
{
    std::string t;
    for (auto v : g)
        t += pbt::strf("%s%x", t.empty() ? "" : ":", v);
    return t;
}

std::uint16_t gen_group(pbt::Src &s)
{
    switch (s.weighted({5, 2, 2, 1}))
    {
        case 0: return 0;
        case 1: return static_cast<std::uint16_t>(s.below(17));
        case 2: return static_cast<std::uint16_t>(s.below(65536));
        default: return static_cast<std::uint16_t>(0x10000 - 1 - s.below(3));
    }
}

std::string group_text(pbt::Src &s)
{
    std::uint16_t const v = gen_group(s);
    std::string t = s.chance(1, 5) ? pbt::strf("%0*X", static_cast<int>(s.below(7)), v) : pbt::strf("%x", v);
    if (s.chance(1, 20))
        t = pbt::strf("%llx", static_cast<unsigned long long>(s.interesting()));
    return t;
}

std::string gen_text(pbt::Src &s)
{
    std::string t;
    if (s.chance(1, 10))
    {
        std::size_t const n = s.below(14);
        for (std::size_t i = 0; i < n; ++i)
            t += s.pick<char>({':', '1', ':', '0', 'f', 'g', '.', ' ', '[', '\xf5'});
        return t;
    }
    bool const shorten = s.chance(2, 3);
    std::size_t n = shorten ? s.below(9) : (s.chance(5, 6) ? 8 : s.below(11));
    std::size_t const at = shorten ? s.below(n + 1) : n + 1;
    for (std::size_t i = 0; i < n; ++i)
    {
        if (i == at)
            t += "::";
        else if (i)
            t += ':';
        t += group_text(s);
    }
    if (at == n)
        t += "::";
    return t;
}

std::string_view const noise = ":::0fgG.[]%/ x\0\xf5"sv;

void address(pbt::Src &s)
{
    std::string t = gen_text(s);
    if (s.chance(1, 3))
        refip::mutate(s, t, noise);
    s.note(pbt::show(t));
    auto const want = ref_ipv6(t);
    auto const got = Addr::from_string(t);
    s.label(want ? "valid" : "invalid");
    if (t.find("::") != std::string::npos)
        s.label(want ? "valid with ::" : "invalid with ::");
    if (t.find(':') != std::string::npos)
        s.nontrivial();
    PBT_CHECK(got.has_value() == want.has_value(), "from_string(%s): accepted=%d expected=%d", pbt::show(t).c_str(), got.has_value(), want.has_value());
    if (t.find('.') == std::string::npos && t.find('\0') == std::string::npos)
    {
        in6_addr sys {};
        bool const ok = inet_pton(AF_INET6, t.c_str(), &sys) == 1;
        PBT_CHECK(ok == got.has_value(), "inet_pton(%s) disagrees", pbt::show(t).c_str());
    }
    if (want)
        PBT_CHECK(groups_of(*got) == *want, "from_string(%s) = %s, expected %s", pbt::show(t).c_str(), hex(groups_of(*got)).c_str(), hex(*want).c_str());
}

void values(pbt::Src &s)
{
    Groups g {}, h {};
    for (auto &v : g)
        v = gen_group(s);
    h = g;
    for (std::size_t i = s.below(4); i > 0; --i)
        h[s.below(8)] = gen_group(s);
    s.note(hex(g) + " / " + hex(h));
    s.nontrivial();
    Addr const a = make(g), b = make(h);
    PBT_CHECK(groups_of(a) == g && groups_of(b) == h, "copy of %s", hex(g).c_str());
    std::string const f = fly::string::format("{}", a);
    auto const back = Addr::from_string(f);
    PBT_CHECK(back && *back == a, "%s formats as %s, which does not parse back", hex(g).c_str(), f.c_str());
    auto const ref = ref_ipv6(f);
    PBT_CHECK(ref && *ref == g, "%s formats as %s", hex(g).c_str(), f.c_str());
    in6_addr sys {};
    PBT_CHECK(inet_pton(AF_INET6, f.c_str(), &sys) == 1 && Addr(sys.s6_addr) == a, "inet_pton rejects %s", f.c_str());
    PBT_CHECK(f.find("::") == std::string::npos || std::count(g.begin(), g.end(), 0) > 0, "format %s", f.c_str());
    // compressed: a zero group exists => the short form is used; no group has a leading zero
    PBT_CHECK(std::count(g.begin(), g.end(), 0) == 0 || f.find("::") != std::string::npos, "%s formats as %s, not in shorthand form", hex(g).c_str(), f.c_str());
    for (std::size_t i = 0; i + 1 < f.size(); ++i)
        PBT_CHECK(!(f[i] == '0' && (i == 0 || f[i - 1] == ':') && isxdigit(static_cast<unsigned char>(f[i + 1]))), "leading zero in %s", f.c_str());
    refip::laws(a, b, g == h, g < h);
    PBT_CHECK(Addr() == Addr::in_addr_any() && groups_of(Addr::in_addr_any()) == Groups {} && groups_of(Addr::in_addr_loopback()) == (Groups {0, 0, 0, 0, 0, 0, 0, 1}), "constants");
    Addr::address_type arr {};
    a.copy(reinterpret_cast<std::uint8_t(&)[16]>(*arr.data()));
    PBT_CHECK(Addr(std::move(arr)) == a, "array construction");

    auto const p = static_cast<std::uint16_t>(s.interesting());
    auto const q = s.flip() ? p : static_cast<std::uint16_t>(s.interesting());
    End const e(a, p), e2(b, q);
    PBT_CHECK(e.address() == a && e.port() == p && !End::is_ipv4() && End::is_ipv6(), "endpoint accessors");
    std::string const ef = fly::string::format("{}", e);
    PBT_CHECK(ef == "[" + f + "]:" + std::to_string(p), "endpoint format: %s", ef.c_str());
    auto const eb = End::from_string(ef);
    PBT_CHECK(eb && *eb == e && eb->port() == p && eb->address() == a, "endpoint round trip of %s", ef.c_str());
    refip::laws(e, e2, g == h && p == q, std::make_pair(g, p) < std::make_pair(h, q));
}

void endpoint(pbt::Src &s)
{
    std::string t = "[" + gen_text(s) + "]:" + refip::port_text(s);
    if (s.chance(1, 3))
        refip::mutate(s, t, "[]:::0fgG.%/ x\0\xf5"sv);
    s.note(pbt::show(t));
    bool ok = false;
    Groups addr {};
    std::uint16_t port = 0;
    auto const colon = t.rfind(':');
    if (colon != std::string::npos && colon >= 2 && t[0] == '[' && t[colon - 1] == ']')
    {
        auto const a = ref_ipv6(std::string_view(t).substr(1, colon - 2));
        auto const p = refip::port(std::string_view(t).substr(colon + 1));
        ok = a && p;
        if (ok)
            addr = *a, port = *p;
    }
    s.label(ok ? "valid" : "invalid");
    s.nontrivial();
    auto const got = End::from_string(t);
    PBT_CHECK(got.has_value() == ok, "from_string(%s): accepted=%d expected=%d", pbt::show(t).c_str(), got.has_value(), ok);
    if (ok)
        PBT_CHECK(groups_of(got->address()) == addr && got->port() == port, "from_string(%s) = %s:%u", pbt::show(t).c_str(), hex(groups_of(got->address())).c_str(), got->port());
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"A02",
        "Address texts of 0-10 groups (zero-heavy, leading zeros, over-long and over-large groups) with an optional '::' at every position, character noise, and mutations of both; random 128-bit addresses with every zero-group pattern for formatting and comparison; bracketed endpoints with ports at and beyond the limit. Non-trivial: a text with a colon, any value pair, any endpoint text. Oracle: independent parser of the RFC 4291 group form and inet_pton (texts without dots).",
        {{"address-text", address, 1500000, 30000000}, {"values", values, 250000, 5000000}, {"endpoint-text", endpoint, 1500000, 30000000}},
        {},
        {"IPv4-embedded and zone-index forms are not part of the documented syntax"}});
}
