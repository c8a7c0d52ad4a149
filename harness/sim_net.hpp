// A network in the simulation of sim.hpp: the socket calls of the process are replaced by an
// in-memory loopback, over IPv4 and IPv6, whose deliveries take virtual time and whose buffers,
// partial transfers, interruptions, spurious wake-ups and failures are drawn from the case's
// choices. Handles are real descriptors (of /dev/null), so that their numbers are reused as the
// system would. Outside of sim::run() everything is forwarded to the system. Like sim.hpp, for one
// source file of a driver only.
//
// Every transfer on a number that is no open socket is counted, every handle that is closed twice or
// is not a socket ends the case, and every handle that is touched is recorded.
#pragma once

#include "sim.hpp"

#include <arpa/inet.h>
#include <array>
#include <deque>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

namespace sim::net {

using Ip = std::array<unsigned char, 16>;

struct Address
{
    int family {AF_INET};
    Ip ip {};
    unsigned port {0};

    bool any() const { return ip == Ip {}; }
    bool loopback() const
    {
        if (family == AF_INET)
            return ip[0] == 127;
        Ip one {};
        one[15] = 1;
        return ip == one;
    }
};
inline Address loopback_of(int family, unsigned port)
{
    Address a;
    a.family = family;
    a.port = port;
    if (family == AF_INET)
        a.ip[0] = 127, a.ip[3] = 1;
    else
        a.ip[15] = 1;
    return a;
}

// One direction of a connection.
struct Pipe
{
    std::size_t capacity {0};
    std::size_t held {0}; // bytes that were sent and not yet received
    std::deque<std::pair<std::int64_t, std::string>> parts;
    std::int64_t last_at {0};
    std::int64_t fin_at {-1};   // when the end arrives, or -1
    std::int64_t reset_at {-1}; // when a reset arrives, or -1
    bool unread {false};        // the receiver is gone
};

enum class State
{
    Fresh,
    Listening,
    Connecting,
    Connected,
    Failed
};

struct Datagram
{
    std::int64_t at {0};
    std::string data;
    Address from;
};

struct Sock
{
    int fd {-1};
    int family {AF_INET}, type {SOCK_STREAM};
    bool nonblock {false}, bound {false}, reuse {false}, accepted {false};
    Address local, peer;
    State state {State::Fresh};
    int error {0};
    std::shared_ptr<Pipe> in, out;
    std::int64_t complete_at {0};
    bool refused {false};
    std::deque<std::pair<std::int64_t, std::shared_ptr<Sock>>> backlog;
    std::deque<Datagram> queue;
    std::size_t queued {0};
    std::int64_t busy_until {0};
    std::uint64_t serial {0};
};

enum Op : unsigned
{
    Socket = 1,
    Fcntl = 2,
    Bind = 4,
    Listen = 8,
    Accept = 16,
    Connect = 32,
    Send = 64,
    Recv = 128,
    Name = 256,
    Option = 512,
    Resolve = 1024
};

struct Settings
{
    std::uint64_t eintr {0};  // one in so many waits is interrupted by a signal; 0 for none (also below)
    std::uint64_t shorts {0}; // one in so many transfers is partial
    std::uint64_t again {0};  // one in so many non-blocking transfers would block
    std::uint64_t wake {0};   // one in so many handles is reported as ready though it is not
    std::uint64_t hard {0};   // one in so many of the calls below fails
    unsigned hard_calls {0};
    std::uint64_t loss {0}, reorder {0}; // of datagrams
    std::int64_t delay {0};              // longest delivery time
    std::size_t capacity {65536};        // of one direction of a connection, and of a datagram queue
    int lowest {0};                      // handles are not lower than this
    bool zero {false};                   // the process has no standard input: 0 is a handle like any other
};

struct World
{
    Settings set;
    std::map<int, std::shared_ptr<Sock>> open;
    std::set<void *> infos;
    std::uint64_t version {0}, serial {0};
    unsigned next_port {40000};
    // what happened
    std::uint64_t interrupted {0}, shortened {0}, blocked {0}, woken {0}, failed {0}, stale {0}, lost {0};
    std::set<int> touched;
    std::vector<std::pair<int, std::uint64_t>> closed; // handles and serials, in order
};
inline World &net()
{
    static World *w = new World;
    return *w;
}
inline void reset(Settings const &s = {})
{
    Quiet quiet;
    World &n = net();
    n.set = s;
    for (auto &kv : n.open)
        SIM_REAL(close)(kv.first);
    n.open.clear();
    n.version = n.serial = 0;
    n.next_port = 40000;
    n.interrupted = n.shortened = n.blocked = n.woken = n.failed = n.stale = n.lost = 0;
    n.touched.clear();
    n.closed.clear();
}

namespace detail {

    inline pbt::Src &src() { return *sim::world().src; }
    inline bool one_in(std::uint64_t n) { return n != 0 && src().chance(1, n); }
    inline std::int64_t delay()
    {
        std::int64_t const d = net().set.delay;
        return d == 0 ? 0 : src().range(0, d);
    }
    inline std::int64_t now() { return sim::world().now; }
    inline void changed() { ++net().version; }

    inline std::shared_ptr<Sock> find(int fd)
    {
        auto it = net().open.find(fd);
        if (it == net().open.end())
        {
            if (fd != -1)
                ++net().stale;
            errno = EBADF;
            return nullptr;
        }
        net().touched.insert(fd);
        return it->second;
    }
    inline bool hard(Op op, std::initializer_list<int> codes)
    {
        if (!(net().set.hard_calls & op) || !one_in(net().set.hard))
            return false;
        ++net().failed;
        errno = *(codes.begin() + src().below(codes.size()));
        return true;
    }
    // Sets of handles may be larger than an fd_set.
    inline bool in_set(fd_set const *set, int fd)
    {
        return set != nullptr && FD_ISSET(fd % FD_SETSIZE, set + fd / FD_SETSIZE);
    }
    inline void clear_set(fd_set *set, int n)
    {
        for (int i = 0; set != nullptr && (i == 0 || i * FD_SETSIZE < n); ++i)
            FD_ZERO(set + i);
    }
    inline bool interrupted()
    {
        if (!one_in(net().set.eintr))
            return false;
        ++net().interrupted;
        errno = EINTR;
        return true;
    }
    inline void refresh(Sock &s)
    {
        if (s.state == State::Connecting && s.complete_at <= now())
        {
            if (s.refused)
            {
                s.state = State::Failed;
                s.error = ECONNREFUSED;
            }
            else
                s.state = State::Connected;
        }
    }
    inline std::size_t available(Pipe const &p)
    {
        std::size_t n = 0;
        for (auto const &part : p.parts)
        {
            if (part.first > now())
                break;
            n += part.second.size();
        }
        return n;
    }
    inline bool ended(Pipe const &p)
    {
        return (p.fin_at >= 0 && p.fin_at <= now()) || (p.reset_at >= 0 && p.reset_at <= now());
    }
    inline bool readable(Sock &s)
    {
        refresh(s);
        if (s.type == SOCK_DGRAM)
            return !s.queue.empty() && s.queue.front().at <= now();
        switch (s.state)
        {
            case State::Listening: return !s.backlog.empty() && s.backlog.front().first <= now();
            case State::Connecting: return false;
            case State::Connected: return available(*s.in) != 0 || ended(*s.in);
            default: return true;
        }
    }
    inline bool writable(Sock &s)
    {
        refresh(s);
        if (s.type == SOCK_DGRAM)
            return s.busy_until <= now();
        switch (s.state)
        {
            case State::Listening: return false;
            case State::Connecting: return false;
            case State::Connected: return s.out->held < s.out->capacity || s.out->unread || (s.in->reset_at >= 0 && s.in->reset_at <= now());
            default: return true;
        }
    }
    // When the state of the socket next changes by itself, or -1.
    inline std::int64_t next_event(Sock const &s)
    {
        std::int64_t d = -1;
        auto at = [&](std::int64_t t) {
            if (t > now() && (d < 0 || t < d))
                d = t;
        };
        if (s.type == SOCK_DGRAM)
        {
            if (!s.queue.empty())
                at(s.queue.front().at);
            at(s.busy_until);
            return d;
        }
        if (s.state == State::Connecting)
            at(s.complete_at);
        if (!s.backlog.empty())
            at(s.backlog.front().first);
        if (s.in)
        {
            for (auto const &part : s.in->parts)
            {
                if (part.first > now())
                {
                    at(part.first);
                    break;
                }
            }
            at(s.in->fin_at);
            at(s.in->reset_at);
        }
        return d;
    }
    inline constexpr std::int64_t s_forever = 1000000ll * 1000 * ms;

    // Waits until the condition holds, or something happens to the sockets, or the deadline.
    template <typename Ready>
    inline bool wait(std::vector<std::shared_ptr<Sock>> const &socks, std::int64_t deadline, Ready ready)
    {
        for (;;)
        {
            if (ready())
                return true;
            if (deadline <= now())
                return false;
            std::int64_t until = deadline;
            for (auto const &s : socks)
            {
                std::int64_t const e = next_event(*s);
                if (e > 0)
                    until = std::min(until, e);
            }
            std::uint64_t const version = net().version;
            sim::wait_until([version]() { return net().version != version; }, until - now());
        }
    }
    // The same for a blocking call; false (and errno) if it ends without.
    template <typename Ready>
    inline bool block(std::shared_ptr<Sock> const &s, Ready ready)
    {
        std::uint64_t const serial = s->serial;
        if (interrupted())
            return false;
        bool const r = wait({s}, now() + s_forever, [&]() { return s->fd == -1 || ready(); });
        if (!r)
            sim::fail(pbt::strf("a call on socket %llu blocks forever", static_cast<unsigned long long>(serial)));
        if (s->fd == -1)
        {
            errno = EBADF;
            return false;
        }
        return true;
    }

    inline bool parse(sockaddr const *address, socklen_t size, int family, Address &a)
    {
        if (address == nullptr || address->sa_family != family)
        {
            errno = EAFNOSUPPORT;
            return false;
        }
        a.family = family;
        if (family == AF_INET)
        {
            if (size < sizeof(sockaddr_in))
            {
                errno = EINVAL;
                return false;
            }
            auto const *in = reinterpret_cast<sockaddr_in const *>(address);
            std::memcpy(a.ip.data(), &in->sin_addr, 4);
            a.port = ntohs(in->sin_port);
        }
        else
        {
            if (size < sizeof(sockaddr_in6))
            {
                errno = EINVAL;
                return false;
            }
            auto const *in = reinterpret_cast<sockaddr_in6 const *>(address);
            std::memcpy(a.ip.data(), &in->sin6_addr, 16);
            a.port = ntohs(in->sin6_port);
        }
        return true;
    }
    inline void store(Address const &a, sockaddr *address, socklen_t *size)
    {
        if (address == nullptr || size == nullptr)
            return;
        sockaddr_storage all {};
        socklen_t n = 0;
        if (a.family == AF_INET)
        {
            auto *in = reinterpret_cast<sockaddr_in *>(&all);
            in->sin_family = AF_INET;
            std::memcpy(&in->sin_addr, a.ip.data(), 4);
            in->sin_port = htons(static_cast<std::uint16_t>(a.port));
            n = sizeof(*in);
        }
        else
        {
            auto *in = reinterpret_cast<sockaddr_in6 *>(&all);
            in->sin6_family = AF_INET6;
            std::memcpy(&in->sin6_addr, a.ip.data(), 16);
            in->sin6_port = htons(static_cast<std::uint16_t>(a.port));
            n = sizeof(*in);
        }
        std::memcpy(address, &all, std::min(n, *size));
        *size = n;
    }
    inline unsigned ephemeral(int family, int type)
    {
        for (;;)
        {
            unsigned const p = net().next_port++;
            if (net().next_port > 60000)
                net().next_port = 40000;
            bool used = false;
            for (auto const &kv : net().open)
                used |= kv.second->family == family && kv.second->type == type && kv.second->local.port == p;
            if (!used)
                return p;
        }
    }
    inline std::shared_ptr<Sock> adopt(std::shared_ptr<Sock> s)
    {
        int fd = ::open("/dev/null", O_RDWR | O_CLOEXEC);
        if (fd < 0)
            sim::fail("cannot open /dev/null");
        if (net().set.zero && net().open.count(0) == 0)
        {
            if (dup2(fd, 0) != 0)
                sim::fail("cannot use handle 0");
            SIM_REAL(close)(fd);
            fd = 0;
        }
        else if (fd < net().set.lowest)
        {
            int const higher = SIM_REAL(fcntl)(fd, F_DUPFD_CLOEXEC, net().set.lowest);
            if (higher >= 0)
            {
                SIM_REAL(close)(fd);
                fd = higher;
            }
        }
        s->fd = fd;
        s->serial = ++net().serial;
        net().open[fd] = s;
        net().touched.insert(fd);
        return s;
    }
    // The end that belongs to the socket is gone.
    inline void hang_up(Sock &s)
    {
        if (s.state == State::Listening)
        {
            for (auto &kv : s.backlog)
                hang_up(*kv.second);
            s.backlog.clear();
        }
        if (s.out)
        {
            if (s.in->held != 0 || s.state == State::Connecting)
                s.out->reset_at = std::max(now() + delay(), s.out->last_at);
            else if (s.out->fin_at < 0)
                s.out->fin_at = std::max(now() + delay(), s.out->last_at);
            s.in->unread = true;
            s.in->parts.clear();
            s.in->held = 0;
        }
        changed();
    }
    inline ssize_t send_stream(std::shared_ptr<Sock> const &s, void const *data, std::size_t size)
    {
        if (hard(Send, {ECONNRESET, ENOBUFS, EPIPE, ETIMEDOUT}))
            return -1;
        refresh(*s);
        if (s->state == State::Connecting)
        {
            if (s->nonblock)
            {
                errno = EAGAIN;
                return -1;
            }
            if (!block(s, [&]() { refresh(*s); return s->state != State::Connecting; }))
                return -1;
        }
        if (s->state != State::Connected)
        {
            errno = s->state == State::Failed && s->error != 0 ? std::exchange(s->error, 0) : EPIPE;
            return -1;
        }
        if (size == 0)
            return 0;
        if (s->nonblock && one_in(net().set.again))
        {
            ++net().blocked;
            errno = EAGAIN;
            return -1;
        }
        std::size_t done = 0;
        while (done < size)
        {
            if (s->in->reset_at >= 0 && s->in->reset_at <= now())
            {
                if (done != 0)
                    break;
                errno = ECONNRESET;
                return -1;
            }
            if (s->out->unread)
            {
                if (done != 0)
                    break;
                if (s->in->reset_at < 0 && src().flip())
                {
                    // on its way when the other end was closed
                    s->in->reset_at = std::max(now() + delay(), s->in->last_at);
                    changed();
                    return static_cast<ssize_t>(size);
                }
                errno = EPIPE;
                return -1;
            }
            std::size_t const room = s->out->capacity - s->out->held;
            if (room == 0)
            {
                if (s->nonblock)
                {
                    if (done != 0)
                        break;
                    ++net().blocked;
                    errno = EAGAIN;
                    return -1;
                }
                if (!block(s, [&]() { return writable(*s); }))
                {
                    if (done != 0)
                        break;
                    return -1;
                }
                continue;
            }
            std::size_t n = std::min(room, size - done);
            bool const cut = n > 1 && one_in(net().set.shorts);
            if (cut)
                n = 1 + src().below(n - 1);
            std::int64_t const at = std::max(now() + delay(), s->out->last_at);
            s->out->last_at = at;
            s->out->parts.emplace_back(at, std::string(static_cast<char const *>(data) + done, n));
            s->out->held += n;
            done += n;
            changed();
            if (cut)
            {
                ++net().shortened;
                break;
            }
        }
        return static_cast<ssize_t>(done);
    }
    inline ssize_t recv_stream(std::shared_ptr<Sock> const &s, void *data, std::size_t size)
    {
        if (hard(Recv, {ECONNRESET, ETIMEDOUT, ENOMEM}))
            return -1;
        refresh(*s);
        if (s->state == State::Connecting)
        {
            if (s->nonblock)
            {
                errno = EAGAIN;
                return -1;
            }
            if (!block(s, [&]() { refresh(*s); return s->state != State::Connecting; }))
                return -1;
        }
        if (s->state != State::Connected)
        {
            errno = s->state == State::Failed && s->error != 0 ? std::exchange(s->error, 0) : ENOTCONN;
            return -1;
        }
        if (size == 0)
            return 0;
        if (!readable(*s) || (s->nonblock && !ended(*s->in) && one_in(net().set.again)))
        {
            if (s->nonblock)
            {
                ++net().blocked;
                errno = EAGAIN;
                return -1;
            }
            if (!block(s, [&]() { return readable(*s); }))
                return -1;
        }
        Pipe &p = *s->in;
        std::size_t n = std::min(available(p), size);
        if (n == 0)
        {
            if (p.reset_at >= 0 && p.reset_at <= now())
            {
                p.reset_at = -1;
                p.fin_at = now();
                errno = ECONNRESET;
                return -1;
            }
            return 0;
        }
        if (n > 1 && one_in(net().set.shorts))
        {
            n = 1 + src().below(n - 1);
            ++net().shortened;
        }
        std::size_t done = 0;
        while (done < n)
        {
            std::string &part = p.parts.front().second;
            std::size_t const k = std::min(part.size(), n - done);
            std::memcpy(static_cast<char *>(data) + done, part.data(), k);
            done += k;
            if (k == part.size())
                p.parts.pop_front();
            else
                part.erase(0, k);
        }
        p.held -= n;
        changed();
        return static_cast<ssize_t>(n);
    }

} // namespace detail

SIM_RAW inline bool is_open(int fd)
{
    Quiet quiet;
    return net().open.count(fd) != 0;
}
} // namespace sim::net

extern "C" {

SIM_RAW int socket(int family, int type, int protocol) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(socket)(family, type, protocol);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    if (detail::hard(Socket, {EMFILE, ENFILE, ENOBUFS}))
        return -1;
    auto s = std::make_shared<Sock>();
    s->family = s->local.family = s->peer.family = family;
    s->type = type & 0xf;
    s->nonblock = (type & SOCK_NONBLOCK) != 0;
    return detail::adopt(s)->fd;
}

SIM_RAW int close(int fd)
{
    if (!sim::detail::on())
        return SIM_REAL(close)(fd);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto it = net().open.find(fd);
    if (it == net().open.end())
        sim::fail(pbt::strf("handle %d is closed, which is no open socket", fd));
    auto s = it->second;
    net().closed.emplace_back(fd, s->serial);
    net().touched.insert(fd);
    net().open.erase(it);
    detail::hang_up(*s);
    s->fd = -1;
    if (fd != 0) // which nothing else of the process is to get
        SIM_REAL(close)(fd);
    sim::detail::point();
    return 0;
}

SIM_RAW int fcntl(int fd, int command, ...)
{
    va_list ap;
    va_start(ap, command);
    long const arg = va_arg(ap, long);
    va_end(ap);
    if (!sim::detail::on() || (command != F_GETFL && command != F_SETFL))
        return SIM_REAL(fcntl)(fd, command, arg);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Fcntl, {EINTR, EIO}))
        return -1;
    if (command == F_GETFL)
        return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    s->nonblock = (arg & O_NONBLOCK) != 0;
    return 0;
}

SIM_RAW int setsockopt(int fd, int level, int name, void const *value, socklen_t size) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(setsockopt)(fd, level, name, value, size);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Option, {ENOMEM, ENOBUFS}))
        return -1;
    if (level == SOL_SOCKET && name == SO_REUSEADDR && size >= sizeof(int))
        s->reuse = *static_cast<int const *>(value) != 0;
    return 0;
}

SIM_RAW int getsockopt(int fd, int level, int name, void *value, socklen_t *size) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(getsockopt)(fd, level, name, value, size);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Option, {ENOMEM, ENOBUFS}))
        return -1;
    detail::refresh(*s);
    if (level == SOL_SOCKET && name == SO_ERROR)
        *static_cast<int *>(value) = std::exchange(s->error, 0);
    return 0;
}

SIM_RAW int getsockname(int fd, struct sockaddr *address, socklen_t *size) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(getsockname)(fd, address, size);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Name, {ENOBUFS}))
        return -1;
    detail::store(s->local, address, size);
    return 0;
}

SIM_RAW int getpeername(int fd, struct sockaddr *address, socklen_t *size) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(getpeername)(fd, address, size);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Name, {ENOBUFS}))
        return -1;
    detail::refresh(*s);
    if (s->state != State::Connected)
    {
        errno = ENOTCONN;
        return -1;
    }
    detail::store(s->peer, address, size);
    return 0;
}

SIM_RAW int bind(int fd, struct sockaddr const *address, socklen_t size) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(bind)(fd, address, size);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Bind, {EADDRINUSE, EACCES}))
        return -1;
    Address a;
    if (!detail::parse(address, size, s->family, a))
        return -1;
    if (s->bound)
    {
        errno = EINVAL;
        return -1;
    }
    if (!a.any() && !a.loopback())
    {
        errno = EADDRNOTAVAIL;
        return -1;
    }
    if (a.port == 0)
        a.port = detail::ephemeral(s->family, s->type);
    for (auto const &kv : net().open)
    {
        Sock const &o = *kv.second;
        if (&o == s.get() || o.family != s->family || o.type != s->type || o.local.port != a.port)
            continue;
        if (!a.any() && !o.local.any() && a.ip != o.local.ip)
            continue;
        if (!s->reuse || !o.reuse || o.state == State::Listening)
        {
            errno = EADDRINUSE;
            return -1;
        }
    }
    s->local = a;
    s->bound = true;
    return 0;
}

SIM_RAW int listen(int fd, int n) noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(listen)(fd, n);
    sim::Quiet quiet;
    using namespace sim::net;
    auto s = detail::find(fd);
    if (!s || detail::hard(Listen, {EADDRINUSE}))
        return -1;
    if (s->type != SOCK_STREAM)
    {
        errno = EOPNOTSUPP;
        return -1;
    }
    if (s->state != State::Fresh && s->state != State::Listening)
    {
        errno = EINVAL;
        return -1;
    }
    if (!s->bound)
    {
        s->local.port = detail::ephemeral(s->family, s->type);
        s->bound = true;
    }
    s->state = State::Listening;
    detail::changed();
    return 0;
}

SIM_RAW int accept(int fd, struct sockaddr *address, socklen_t *size)
{
    if (!sim::detail::on())
        return SIM_REAL(accept)(fd, address, size);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto s = detail::find(fd);
    if (!s || detail::hard(Accept, {EMFILE, ENFILE, ENOMEM}))
        return -1;
    if (s->state != State::Listening)
    {
        errno = s->type == SOCK_STREAM ? EINVAL : EOPNOTSUPP;
        return -1;
    }
    if (!detail::readable(*s) || (s->nonblock && detail::one_in(net().set.again)))
    {
        if (s->nonblock)
        {
            ++net().blocked;
            errno = EAGAIN;
            return -1;
        }
        if (!detail::block(s, [&]() { return detail::readable(*s); }))
            return -1;
    }
    auto client = s->backlog.front().second;
    s->backlog.pop_front();
    detail::adopt(client);
    detail::store(client->peer, address, size);
    detail::changed();
    return client->fd;
}

SIM_RAW int accept4(int fd, struct sockaddr *address, socklen_t *size, int flags)
{
    if (!sim::detail::on())
        return SIM_REAL(accept4)(fd, address, size, flags);
    int const client = accept(fd, address, size);
    sim::Quiet quiet;
    if (client != -1 && (flags & SOCK_NONBLOCK))
        sim::net::net().open.at(client)->nonblock = true;
    return client;
}

SIM_RAW int connect(int fd, struct sockaddr const *address, socklen_t size)
{
    if (!sim::detail::on())
        return SIM_REAL(connect)(fd, address, size);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto s = detail::find(fd);
    if (!s || detail::hard(Connect, {ECONNREFUSED, ENETUNREACH, ETIMEDOUT, EAGAIN}))
        return -1;
    Address a;
    if (!detail::parse(address, size, s->family, a))
        return -1;
    detail::refresh(*s);
    if (s->type != SOCK_STREAM || s->state == State::Listening)
    {
        errno = EOPNOTSUPP;
        return -1;
    }
    if (s->state == State::Connecting || s->state == State::Connected)
    {
        errno = s->state == State::Connecting ? EALREADY : EISCONN;
        return -1;
    }
    if (!a.any() && !a.loopback())
    {
        errno = ENETUNREACH;
        return -1;
    }
    std::shared_ptr<Sock> listener;
    for (auto const &kv : net().open)
    {
        Sock const &o = *kv.second;
        if (o.state == State::Listening && o.family == s->family && o.local.port == a.port && (o.local.any() || a.any() || o.local.ip == a.ip))
            listener = kv.second;
    }
    if (!s->bound)
    {
        s->local = loopback_of(s->family, detail::ephemeral(s->family, s->type));
        s->bound = true;
    }
    s->peer = a.any() ? loopback_of(s->family, a.port) : a;
    bool const at_once = s->nonblock && detail::src().chance(1, 4);
    s->complete_at = detail::now() + (at_once ? 0 : detail::delay());
    s->refused = !listener;
    s->state = State::Connecting;
    if (listener)
    {
        auto other = std::make_shared<Sock>();
        other->family = s->family;
        other->state = State::Connected;
        other->accepted = other->bound = true;
        other->reuse = listener->reuse;
        other->local = s->peer;
        other->peer = s->local;
        if (other->peer.any())
            other->peer.ip = loopback_of(s->family, 0).ip;
        s->out = std::make_shared<Pipe>();
        s->in = std::make_shared<Pipe>();
        s->out->capacity = s->in->capacity = net().set.capacity;
        other->out = s->in;
        other->in = s->out;
        std::int64_t at = s->complete_at + detail::delay();
        if (!listener->backlog.empty())
            at = std::max(at, listener->backlog.back().first);
        listener->backlog.emplace_back(at, other);
    }
    detail::changed();
    if (s->nonblock && !at_once)
    {
        errno = EINPROGRESS;
        return -1;
    }
    if (!s->nonblock && !detail::wait({s}, detail::now() + detail::s_forever, [&]() { detail::refresh(*s); return s->fd == -1 || s->state != State::Connecting; }))
        sim::fail("connecting does not end");
    detail::refresh(*s);
    if (s->state != State::Connected)
    {
        s->state = State::Fresh;
        errno = s->error != 0 ? std::exchange(s->error, 0) : EBADF;
        return -1;
    }
    return 0;
}

SIM_RAW ssize_t send(int fd, void const *data, std::size_t size, int flags)
{
    if (!sim::detail::on())
        return SIM_REAL(send)(fd, data, size, flags);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto s = detail::find(fd);
    if (!s)
        return -1;
    if (s->type != SOCK_STREAM)
    {
        errno = EDESTADDRREQ;
        return -1;
    }
    ssize_t const rc = detail::send_stream(s, data, size);
    int const code = errno;
    if (rc == -1 && code == EPIPE && !(flags & MSG_NOSIGNAL))
        sim::fail("the process is ended by SIGPIPE");
    sim::detail::point();
    errno = code;
    return rc;
}

SIM_RAW ssize_t recv(int fd, void *data, std::size_t size, int flags)
{
    if (!sim::detail::on())
        return SIM_REAL(recv)(fd, data, size, flags);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto s = detail::find(fd);
    if (!s)
        return -1;
    if (s->type != SOCK_STREAM)
        return recvfrom(fd, data, size, flags, nullptr, nullptr);
    ssize_t const rc = detail::recv_stream(s, data, size);
    int const code = errno;
    sim::detail::point();
    errno = code;
    return rc;
}

SIM_RAW ssize_t sendto(int fd, void const *data, std::size_t size, int flags, struct sockaddr const *address, socklen_t address_size)
{
    if (!sim::detail::on())
        return SIM_REAL(sendto)(fd, data, size, flags, address, address_size);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto s = detail::find(fd);
    if (!s)
        return -1;
    if (s->type == SOCK_STREAM)
        return detail::send_stream(s, data, size);
    if (detail::hard(Send, {ENOBUFS, ENETUNREACH, EPERM}))
        return -1;
    Address a;
    if (!detail::parse(address, address_size, s->family, a))
        return -1;
    if (a.port == 0)
    {
        errno = EINVAL;
        return -1;
    }
    if (!a.any() && !a.loopback())
    {
        errno = ENETUNREACH;
        return -1;
    }
    if (size > 65507)
    {
        errno = EMSGSIZE;
        return -1;
    }
    if (!detail::writable(*s) || (s->nonblock && detail::one_in(net().set.again)))
    {
        if (s->nonblock)
        {
            ++net().blocked;
            errno = EAGAIN;
            return -1;
        }
        if (!detail::block(s, [&]() { return detail::writable(*s); }))
            return -1;
    }
    if (!s->bound)
    {
        s->local.port = detail::ephemeral(s->family, s->type);
        s->bound = true;
    }
    if (net().set.delay != 0 && detail::src().chance(1, 4))
        s->busy_until = detail::now() + detail::delay();
    std::shared_ptr<Sock> to;
    for (auto const &kv : net().open)
    {
        Sock const &o = *kv.second;
        if (o.type == SOCK_DGRAM && o.bound && o.family == s->family && o.local.port == a.port && (o.local.any() || a.any() || o.local.ip == a.ip))
            to = kv.second;
    }
    if (!to || detail::one_in(net().set.loss) || to->queued + size > net().set.capacity)
        ++net().lost;
    else
    {
        Datagram d;
        d.data.assign(static_cast<char const *>(data), size);
        d.from = s->local;
        if (d.from.any())
            d.from.ip = loopback_of(s->family, 0).ip;
        d.at = detail::now() + detail::delay();
        auto &q = to->queue;
        std::size_t at = q.size();
        if (at != 0 && detail::one_in(net().set.reorder))
        {
            at = detail::src().below(at);
            d.at = std::min(d.at, q[at].at);
            if (at != 0)
                d.at = std::max(d.at, q[at - 1].at);
        }
        else if (at != 0)
            d.at = std::max(d.at, q.back().at);
        to->queued += size;
        q.insert(q.begin() + static_cast<std::ptrdiff_t>(at), std::move(d));
    }
    detail::changed();
    sim::detail::point();
    return static_cast<ssize_t>(size);
}

SIM_RAW ssize_t recvfrom(int fd, void *data, std::size_t size, int flags, struct sockaddr *address, socklen_t *address_size)
{
    if (!sim::detail::on())
        return SIM_REAL(recvfrom)(fd, data, size, flags, address, address_size);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    auto s = detail::find(fd);
    if (!s)
        return -1;
    if (s->type == SOCK_STREAM)
        return detail::recv_stream(s, data, size);
    if (detail::hard(Recv, {ENOMEM, ENOBUFS}))
        return -1;
    if (!detail::readable(*s) || (s->nonblock && detail::one_in(net().set.again)))
    {
        if (s->nonblock)
        {
            ++net().blocked;
            errno = EAGAIN;
            return -1;
        }
        if (!detail::block(s, [&]() { return detail::readable(*s); }))
            return -1;
    }
    Datagram d = std::move(s->queue.front());
    s->queue.pop_front();
    s->queued -= d.data.size();
    std::size_t const n = std::min(size, d.data.size());
    std::memcpy(data, d.data.data(), n);
    detail::store(d.from, address, address_size);
    detail::changed();
    sim::detail::point();
    return static_cast<ssize_t>(n);
}

SIM_RAW int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (!sim::detail::on())
        return SIM_REAL(select)(n, r, w, e, tv);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    std::vector<std::shared_ptr<Sock>> reading, writing, all;
    for (int fd = 0; fd < n; ++fd)
    {
        bool const in_r = detail::in_set(r, fd);
        bool const in_w = detail::in_set(w, fd);
        if (!in_r && !in_w)
            continue;
        // Waiting for a handle that was just closed transfers nothing: it is not counted as stale.
        auto it = net().open.find(fd);
        if (it == net().open.end())
        {
            errno = EBADF;
            return -1;
        }
        auto s = it->second;
        all.push_back(s);
        if (in_r)
            reading.push_back(s);
        if (in_w)
            writing.push_back(s);
    }
    if (detail::interrupted())
        return -1;
    std::int64_t const limit = tv ? (tv->tv_sec * 1000000ll + tv->tv_usec) * 1000 : detail::s_forever;
    std::vector<int> ready_r, ready_w;
    detail::wait(all, detail::now() + limit, [&]() {
        ready_r.clear();
        ready_w.clear();
        for (auto const &s : reading)
            if (s->fd == -1 || detail::readable(*s))
                ready_r.push_back(s->fd);
        for (auto const &s : writing)
            if (s->fd == -1 || detail::writable(*s))
                ready_w.push_back(s->fd);
        return !ready_r.empty() || !ready_w.empty();
    });
    auto report = [&](fd_set *set, std::vector<std::shared_ptr<Sock>> const &from, std::vector<int> const &ready) {
        int count = 0;
        if (set == nullptr)
            return 0;
        detail::clear_set(set, n);
        for (auto const &s : from)
        {
            if (s->fd == -1)
                continue; // closed meanwhile
            bool yes = std::find(ready.begin(), ready.end(), s->fd) != ready.end();
            if (!yes && detail::one_in(net().set.wake))
            {
                ++net().woken;
                yes = s->state != State::Connecting;
            }
            if (yes)
            {
                FD_SET(s->fd % FD_SETSIZE, set + s->fd / FD_SETSIZE);
                ++count;
            }
        }
        return count;
    };
    int count = report(r, reading, ready_r);
    count += report(w, writing, ready_w);
    detail::clear_set(e, n);
    sim::detail::point();
    return count;
}

SIM_RAW int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    if (!sim::detail::on())
        return SIM_REAL(poll)(fds, n, timeout);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    std::vector<std::shared_ptr<Sock>> all(n);
    std::vector<std::shared_ptr<Sock>> watched;
    for (nfds_t i = 0; i < n; ++i)
    {
        auto it = net().open.find(fds[i].fd);
        if (it != net().open.end())
        {
            all[i] = it->second;
            watched.push_back(it->second);
        }
    }
    if (detail::interrupted())
        return -1;
    std::int64_t const limit = timeout < 0 ? detail::s_forever : timeout * 1000000ll;
    auto const look = [&]() {
        int count = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            fds[i].revents = 0;
            if (fds[i].fd < 0)
                continue;
            if (!all[i] || all[i]->fd == -1)
                fds[i].revents = POLLNVAL;
            else
            {
                if ((fds[i].events & POLLIN) && detail::readable(*all[i]))
                    fds[i].revents |= POLLIN;
                if ((fds[i].events & POLLOUT) && detail::writable(*all[i]))
                    fds[i].revents |= POLLOUT;
            }
            count += fds[i].revents != 0;
        }
        return count;
    };
    detail::wait(watched, detail::now() + limit, [&]() { return look() != 0; });
    int const count = look();
    sim::detail::point();
    return count;
}

SIM_RAW ssize_t read(int fd, void *data, std::size_t size)
{
    if (!sim::detail::on() || !sim::net::is_open(fd))
        return SIM_REAL(read)(fd, data, size);
    return recv(fd, data, size, 0);
}

SIM_RAW ssize_t write(int fd, void const *data, std::size_t size)
{
    if (!sim::detail::on() || !sim::net::is_open(fd))
        return SIM_REAL(write)(fd, data, size);
    return send(fd, data, size, 0);
}

SIM_RAW int getaddrinfo(char const *node, char const *service, struct addrinfo const *hints, struct addrinfo **result)
{
    if (!sim::detail::on())
        return SIM_REAL(getaddrinfo)(node, service, hints, result);
    sim::Quiet quiet;
    using namespace sim::net;
    sim::detail::point();
    if (detail::hard(Resolve, {0}))
        return EAI_AGAIN;
    Address a = loopback_of(hints->ai_family, 0);
    if (std::strcmp(node, "localhost") != 0)
    {
        a.ip = {};
        if (inet_pton(hints->ai_family, node, a.ip.data()) != 1)
            return EAI_NONAME;
    }
    auto *info = static_cast<struct addrinfo *>(std::calloc(1, sizeof(struct addrinfo)));
    info->ai_family = hints->ai_family;
    info->ai_socktype = hints->ai_socktype;
    info->ai_protocol = hints->ai_protocol;
    info->ai_addrlen = hints->ai_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
    info->ai_addr = static_cast<sockaddr *>(std::calloc(1, sizeof(sockaddr_storage)));
    socklen_t size = sizeof(sockaddr_storage);
    detail::store(a, info->ai_addr, &size);
    net().infos.insert(info);
    *result = info;
    return 0;
}

SIM_RAW void freeaddrinfo(struct addrinfo *info) noexcept
{
    sim::net::World &n = sim::net::net();
    {
        sim::Quiet quiet;
        if (n.infos.erase(info) != 0)
        {
            std::free(info->ai_addr);
            std::free(info);
            return;
        }
    }
    SIM_REAL(freeaddrinfo)(info);
}

} // extern "C"
