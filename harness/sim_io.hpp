// Waiting for file descriptors in the simulation of sim.hpp: poll and select wait in virtual time,
// and closing or creating descriptors is a point where another thread may run. The descriptors are
// real ones. Like sim.hpp, for one source file of a driver only.
#pragma once

#include "sim.hpp"

#include <poll.h>
#include <sys/inotify.h>
#include <sys/select.h>
#include <unistd.h>

namespace sim::io {

struct State
{
    std::map<int, std::uint64_t> idle; // inotify descriptors, and how often they were found empty when waited for
    std::uint64_t interrupts {0};      // one in so many waits is interrupted by a signal; 0 for none
    std::uint64_t interrupted {0};
};
inline State &state()
{
    static State *s = new State;
    return *s;
}
inline void reset(std::uint64_t interrupts = 0)
{
    state().idle.clear();
    state().interrupts = interrupts;
    state().interrupted = 0;
}
inline bool interrupt()
{
    State &s = state();
    if (s.interrupts == 0 || !world().src->chance(1, s.interrupts))
        return false;
    ++s.interrupted;
    return true;
}

} // namespace sim::io

extern "C" {

SIM_RAW int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    auto const real = SIM_REAL(poll);
    if (!sim::detail::on())
        return real(fds, n, timeout);
    sim::Quiet quiet;
    sim::detail::point();
    if (sim::io::interrupt())
    {
        errno = EINTR;
        return -1;
    }
    int rc = real(fds, n, 0);
    if (rc == 0)
    {
        for (nfds_t i = 0; i < n; ++i)
        {
            auto it = sim::io::state().idle.find(fds[i].fd);
            if (it != sim::io::state().idle.end())
                ++it->second;
        }
    }
    if (rc != 0 || timeout == 0)
        return rc;
    std::vector<struct pollfd> copy(fds, fds + n);
    std::int64_t const limit = timeout < 0 ? 1000000ll * 1000 * sim::ms : timeout * sim::ms;
    sim::wait_until([&copy, real]() { return real(copy.data(), copy.size(), 0) != 0; }, limit);
    return real(fds, n, 0);
}

SIM_RAW int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    auto const real = SIM_REAL(select);
    if (!sim::detail::on())
        return real(n, r, w, e, tv);
    sim::Quiet quiet;
    sim::detail::point();
    if (sim::io::interrupt())
    {
        errno = EINTR;
        return -1;
    }
    auto attempt = [=](fd_set *r2, fd_set *w2, fd_set *e2) SIM_RAW {
        struct timeval zero {0, 0};
        return real(n, r ? r2 : nullptr, w ? w2 : nullptr, e ? e2 : nullptr, &zero);
    };
    fd_set r0, w0, e0;
    if (r)
        r0 = *r;
    if (w)
        w0 = *w;
    if (e)
        e0 = *e;
    auto const ready = [=]() SIM_RAW {
        fd_set a = r0, b = w0, c = e0;
        return attempt(&a, &b, &c) != 0;
    };
    std::int64_t const limit = tv ? (tv->tv_sec * 1000 + tv->tv_usec / 1000) * sim::ms + (tv->tv_usec % 1000) * 1000 : 1000000ll * 1000 * sim::ms;
    if (!ready() && limit != 0)
        sim::wait_until(ready, limit);
    return attempt(r, w, e);
}

SIM_RAW int close(int fd)
{
    auto const real = SIM_REAL(close);
    if (!sim::detail::on())
        return real(fd);
    sim::Quiet quiet;
    sim::io::state().idle.erase(fd);
    int const rc = real(fd);
    int const code = errno;
    sim::detail::point();
    errno = code;
    return rc;
}

SIM_RAW int inotify_init1(int flags) noexcept
{
    auto const real = SIM_REAL(inotify_init1);
    int const fd = real(flags);
    if (sim::detail::on() && fd >= 0)
    {
        sim::Quiet quiet;
        sim::io::state().idle[fd] = 0;
        sim::detail::point();
    }
    return fd;
}

SIM_RAW int inotify_add_watch(int fd, char const *path, uint32_t mask) noexcept
{
    auto const real = SIM_REAL(inotify_add_watch);
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::point();
    }
    return real(fd, path, mask);
}

SIM_RAW int inotify_rm_watch(int fd, int wd) noexcept
{
    auto const real = SIM_REAL(inotify_rm_watch);
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::point();
    }
    return real(fd, wd);
}

} // extern "C"
