// A01: IPv4 address and endpoint text forms.
#include "ip_common.hpp"

namespace {

using Addr = fly::net::IPv4Address;
using End = fly::net::Endpoint<Addr>;

std::optional<std::uint32_t> ref_ipv4(std::string_view s)
{
    std::vector<unsigned __int128> parts;
    std::size_t i = 0;
    while (true)
    {
        auto const n = refip::decimal(s, i);
        if (!n)
            return {};
        parts.push_back(*n);
        if (parts.size() > 4)
            return {};
        if (i == s.size())
            break;
        if (s[i] != '.')
            return {};
        ++i;
    }
    unsigned __int128 v = 0;
    for (std::size_t k = 0; k + 1 < parts.size(); ++k)
    {
        if (parts[k] > 255)
            return {};
        v |= parts[k] << (24 - 8 * k);
    }
    unsigned const bits = 32 - 8 * static_cast<unsigned>(parts.size() - 1);
    if (parts.back() >= (static_cast<unsigned __int128>(1) << bits))
        return {};
    return static_cast<std::uint32_t>(v | parts.back());
}

std::string dotted(std::uint32_t host)
{
    return pbt::strf("%u.%u.%u.%u", host >> 24, (host >> 16) & 255, (host >> 8) & 255, host & 255);
}

std::string gen_text(pbt::Src &s)
{
    std::string t;
    switch (s.weighted({5, 4, 3, 1}))
    {
        case 0:
        case 1:
        {
            std::size_t const n = s.chance(1, 12) ? s.below(7) : 1 + s.below(4);
            for (std::size_t i = 0; i < n; ++i)
            {
                if (i)
                    t += '.';
                bool const last = i + 1 == n;
                std::uint64_t const max = last ? (1ull << (n <= 4 ? 32 - 8 * (n - 1) : 8)) - 1 : 255;
                switch (s.weighted({4, 3, 2, 1}))
                {
                    case 0: t += std::to_string(s.below(256)); break;
                    case 1: t += std::to_string(s.below(max + 1)); break;
                    case 2: t += std::to_string(max + s.below(4) - 2); break;
                    default: t += std::string(s.below(12), '0') + refip::big_number(s); break;
                }
            }
            break;
        }
        case 2: t = dotted(static_cast<std::uint32_t>(s.interesting())); break;
        default:
        {
            std::size_t const n = s.below(12);
            for (std::size_t i = 0; i < n; ++i)
                t += s.pick<char>({'1', '.', '0', '2', '5', ' ', 'x', '-', '+', 'a', ':', '\0', '\xf5', '9'});
        }
    }
    if (s.chance(1, 4))
        refip::mutate(s, t, ".0129:xa -+\0\xf5\xff"sv);
    return t;
}

void address(pbt::Src &s)
{
    std::string const t = gen_text(s);
    s.note(pbt::show(t));
    auto const want = ref_ipv4(t);
    auto const got = Addr::from_string(t);
    s.label(want ? "valid" : "invalid");
    if (t.find('.') != std::string::npos)
        s.nontrivial();
    PBT_CHECK(got.has_value() == want.has_value(), "from_string(%s): accepted=%d expected=%d", pbt::show(t).c_str(), got.has_value(), want.has_value());
    if (!want)
        return;
    PBT_CHECK(got->host_order() == *want, "from_string(%s) = %08x, expected %08x", pbt::show(t).c_str(), got->host_order(), *want);
    PBT_CHECK(got->network_order() == htonl(*want), "network order of %s: %08x", pbt::show(t).c_str(), got->network_order());
    in_addr sys {};
    if (std::count(t.begin(), t.end(), '.') == 3 && inet_pton(AF_INET, t.c_str(), &sys) == 1)
        PBT_CHECK(sys.s_addr == got->network_order(), "differs from inet_pton for %s", pbt::show(t).c_str());
}

void values(pbt::Src &s)
{
    auto const h = static_cast<std::uint32_t>(s.interesting());
    auto const g = s.flip() ? h : static_cast<std::uint32_t>(s.interesting());
    s.note(dotted(h) + " / " + dotted(g));
    s.nontrivial();
    Addr const a(htonl(h)), b(htonl(g));
    Addr const c(Addr::address_type {static_cast<std::uint8_t>(h >> 24), static_cast<std::uint8_t>(h >> 16), static_cast<std::uint8_t>(h >> 8), static_cast<std::uint8_t>(h)});
    PBT_CHECK(a == c && a.host_order() == h && c.host_order() == h && a.network_order() == htonl(h), "construction of %08x", h);
    std::string const f = fly::string::format("{}", a);
    PBT_CHECK(f == dotted(h), "format of %08x: %s", h, f.c_str());
    auto const back = Addr::from_string(f);
    PBT_CHECK(back && *back == a, "round trip of %s", f.c_str());
    refip::laws(a, b, htonl(h) == htonl(g), htonl(h) < htonl(g));
    PBT_CHECK(Addr::in_addr_any().host_order() == INADDR_ANY && Addr::in_addr_loopback().host_order() == INADDR_LOOPBACK && Addr::in_addr_broadcast().host_order() == INADDR_BROADCAST && Addr() == Addr::in_addr_any(), "constants");

    auto const p = static_cast<std::uint16_t>(s.interesting());
    auto const q = s.flip() ? p : static_cast<std::uint16_t>(s.interesting());
    End const e(a, p), e2(b, q);
    PBT_CHECK(e.address() == a && e.port() == p && End::is_ipv4() && !End::is_ipv6(), "endpoint accessors");
    std::string const ef = fly::string::format("{}", e);
    PBT_CHECK(ef == dotted(h) + ":" + std::to_string(p), "endpoint format: %s", ef.c_str());
    auto const eb = End::from_string(ef);
    PBT_CHECK(eb && *eb == e && eb->port() == p && eb->address() == a, "endpoint round trip of %s", ef.c_str());
    refip::laws(e, e2, h == g && p == q, std::make_pair(htonl(h), p) < std::make_pair(htonl(g), q));
}

void endpoint(pbt::Src &s)
{
    std::string t = gen_text(s) + ":" + refip::port_text(s);
    if (s.chance(1, 3))
        refip::mutate(s, t, ".:0129xa -+[]\0\xf5"sv);
    s.note(pbt::show(t));
    auto const colon = t.rfind(':');
    bool ok = false;
    std::uint32_t addr = 0;
    std::uint16_t port = 0;
    if (colon != std::string::npos)
    {
        auto const a = ref_ipv4(std::string_view(t).substr(0, colon));
        auto const p = refip::port(std::string_view(t).substr(colon + 1));
        ok = a && p;
        if (ok)
            addr = *a, port = *p;
    }
    s.label(ok ? "valid" : "invalid");
    s.nontrivial();
    auto const got = End::from_string(t);
    PBT_CHECK(got.has_value() == ok, "from_string(%s): accepted=%d expected=%d", pbt::show(t).c_str(), got.has_value(), ok);
    if (ok)
        PBT_CHECK(got->address().host_order() == addr && got->port() == port, "from_string(%s) = %08x:%u", pbt::show(t).c_str(), got->address().host_order(), got->port());
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"A01",
        "Address and endpoint texts built from 1-4 (sometimes 0-6) numeric parts at and around each part's limit (leading zeros, 20+ digit numbers), formatted random addresses, and character noise, then mutated; random 32-bit addresses and ports for formatting and comparison. Non-trivial: a text with at least one dot, any value pair, any endpoint text. Oracle: independent parser in 128-bit arithmetic, inet_pton, printf formatting.",
        {{"address-text", address, 2500000, 40000000}, {"values", values, 500000, 10000000}, {"endpoint-text", endpoint, 2500000, 40000000}},
        {},
        {"comparison order of IPv4 addresses is that of their network-order integers, as documented"}});
}
