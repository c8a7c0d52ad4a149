// What the drivers of the socket checks share.
#pragma once

#include "sim_net.hpp"

#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include "quiet.hpp"

#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace nets {

using V4 = fly::net::Endpoint<fly::net::IPv4Address>;
using V6 = fly::net::Endpoint<fly::net::IPv6Address>;

struct Conf : fly::net::NetworkConfig
{
    Conf(std::size_t packet_size, long wait_time)
    {
        m_default_packet_size = packet_size;
        m_default_socket_io_wait_time = wait_time;
    }
};

template <typename E>
E loopback(fly::net::port_type port)
{
    return E(E::address_type::in_addr_loopback(), port);
}
template <typename E>
char const *loopback_name()
{
    return E::is_ipv4() ? "127.0.0.1" : "::1";
}

// Whether the system has an IPv6 loopback.
inline bool system_has_ipv6()
{
    static bool const yes = []() {
        int const fd = ::socket(AF_INET6, SOCK_STREAM, 0);
        if (fd < 0)
            return false;
        sockaddr_in6 a {};
        a.sin6_family = AF_INET6;
        a.sin6_addr = in6addr_loopback;
        bool const ok = ::bind(fd, reinterpret_cast<sockaddr const *>(&a), sizeof(a)) == 0;
        ::close(fd);
        return ok;
    }();
    return yes;
}

inline constexpr std::int64_t s_long = 100ll * 1000 * sim::ms;

// The byte at an offset of a stream.
inline char stream_byte(std::uint64_t stream, std::uint64_t offset)
{
    return static_cast<char>(pbt::mix((stream << 32) ^ offset) & 0xff);
}
inline std::string stream_bytes(std::uint64_t stream, std::uint64_t offset, std::size_t size)
{
    std::string s(size, '\0');
    for (std::size_t i = 0; i < size; ++i)
        s[i] = stream_byte(stream, offset + i);
    return s;
}

// Interruptions, partial transfers and waits that no user may notice.
inline sim::net::Settings benign(pbt::Src &src)
{
    sim::net::Settings s;
    static std::int64_t const delays[] = {0, 50000, 2 * sim::ms, 300 * sim::ms};
    s.delay = delays[src.below(4)];
    if (src.chance(1, 3))
        s.eintr = 2 + src.below(20);
    if (src.chance(1, 2))
        s.shorts = 1 + src.below(8);
    if (src.chance(1, 2))
        s.again = 2 + src.below(8);
    if (src.chance(1, 3))
        s.wake = 2 + src.below(8);
    if (src.chance(1, 8))
        s.lowest = FD_SETSIZE - 3 + static_cast<int>(src.below(6));
    s.zero = src.chance(1, 6);
    return s;
}
inline long wait_time(pbt::Src &src)
{
    return src.pick({10000l, 100l, 1000l, 50000l, 999999l});
}

} // namespace nets
