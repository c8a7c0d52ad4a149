// K03: socket handles are owned exactly once and never leaked.
//
// "values": histories of creating, moving (also onto themselves), closing, destroying, binding,
// listening, connecting, accepting, sending, receiving and changing the mode of TCP, UDP and
// listening sockets in a set of variables, on the simulated network of sim_net.hpp, whose calls
// fail now and then. Oracle: after each operation the open handles are exactly those of the open
// sockets, each once; a move transfers the handle, the identity and the state and leaves a closed
// socket; closing releases the handle once; operations on closed sockets fail without any system
// call on any handle; and no operation changes another socket.
// "services": sockets of one or two services, used, closed and dropped by the service's sequence
// and the user's thread, and outliving the service or the task manager. Oracle: no call is made on a handle that
// its socket does not own any more, none is closed twice, every completion is invoked at most
// once, and nothing is left.
// "system": "values" on the system's own loopback, with the handles of /proc/self/fd.
#include "net_common.hpp"

#include <dirent.h>
#include <deque>
#include <mutex>
#include <poll.h>
#include <set>

using namespace pbt;
using namespace nets;
using fly::net::BindMode;
using fly::net::ConnectedState;
using fly::net::IOMode;

namespace {

std::set<int> system_sockets()
{
    std::set<int> all;
    DIR *dir = ::opendir("/proc/self/fd");
    while (dirent *e = ::readdir(dir))
    {
        int const fd = std::atoi(e->d_name);
        char target[64] {};
        if (e->d_name[0] != '.' && ::readlinkat(::dirfd(dir), e->d_name, target, sizeof(target) - 1) > 0 && std::strncmp(target, "socket:", 7) == 0)
            all.insert(fd);
    }
    ::closedir(dir);
    return all;
}

// What can be seen of a socket.
struct View
{
    bool exists {false}, open {false}, listening {false}, connecting {false}, connected {false};
    int handle {-1};
    std::uint64_t id {0};
    IOMode mode {IOMode::Synchronous};

    bool operator==(View const &) const = default;
    std::string text() const
    {
        if (!exists)
            return "none";
        return strf("id %llu, handle %d%s, %s%s%s%s", static_cast<unsigned long long>(id), handle, open ? "" : ", closed", mode == IOMode::Synchronous ? "synchronous" : "asynchronous", listening ? ", listening" : "", connecting ? ", connecting" : "", connected ? ", connected" : "");
    }
};

template <typename S>
View view(S const &s)
{
    View v;
    v.exists = true;
    v.open = s.is_open();
    v.handle = s.handle();
    v.id = s.socket_id();
    v.mode = s.io_mode();
    if constexpr (requires { s.is_listening(); })
        v.listening = s.is_listening();
    if constexpr (requires { s.is_connected(); })
    {
        v.connecting = s.is_connecting();
        v.connected = s.is_connected();
    }
    return v;
}

template <typename E>
struct Values
{
    using Tcp = fly::net::TcpSocket<E>;
    using Udp = fly::net::UdpSocket<E>;
    using Listen = fly::net::ListenSocket<E>;

    Src &src;
    bool real;
    std::shared_ptr<Conf> config;
    std::array<std::optional<Tcp>, 5> tcp;
    std::array<std::optional<Udp>, 3> udp;
    std::array<std::optional<Listen>, 3> listen;
    std::set<int> baseline;
    std::set<std::uint64_t> ids;
    unsigned moves {0}, closed_operations {0}, failures {0};
    // of the operation under way
    std::uint64_t faults {0};
    std::size_t closes {0};

    Values(Src &s, bool r) : src(s), real(r) {}

    std::vector<View> views() const
    {
        std::vector<View> all;
        auto add = [&](auto const &slots) {
            for (auto const &s : slots)
                all.push_back(s ? view(*s) : View {});
        };
        add(tcp);
        add(udp);
        add(listen);
        return all;
    }
    static constexpr std::size_t first(Tcp const *) { return 0; }
    static constexpr std::size_t first(Udp const *) { return 5; }
    static constexpr std::size_t first(Listen const *) { return 8; }
    auto &slots(Tcp const *) { return tcp; }
    auto &slots(Udp const *) { return udp; }
    auto &slots(Listen const *) { return listen; }

    static std::string slot_name(std::size_t i) { return i < 5 ? strf("tcp%zu", i) : i < 8 ? strf("udp%zu", i - 5) : strf("listen%zu", i - 8); }

    void said(std::string s)
    {
        sim::Quiet quiet;
        src.note(s);
    }

    std::set<int> handles() const
    {
        sim::Quiet quiet;
        std::set<int> all;
        if (real)
        {
            for (int fd : system_sockets())
                if (baseline.count(fd) == 0)
                    all.insert(fd);
            return all;
        }
        for (auto const &kv : sim::net::net().open)
            all.insert(kv.first);
        return all;
    }
    bool faulty() const { return !real && sim::net::net().failed != faults; }
    sim::net::Sock *sock(int fd) const
    {
        auto it = sim::net::net().open.find(fd);
        return it == sim::net::net().open.end() ? nullptr : it->second.get();
    }
    // Whether a blocking call would wait for something that does not come.
    bool would_wait(int fd) const
    {
        if (real)
        {
            pollfd p {fd, POLLIN, 0};
            return ::poll(&p, 1, 0) == 0;
        }
        sim::Quiet quiet;
        sim::net::Sock *s = sock(fd);
        if (s == nullptr || s->nonblock)
            return false;
        if (s->type == SOCK_DGRAM)
            return s->queue.empty();
        switch (s->state)
        {
            case sim::net::State::Listening: return s->backlog.empty();
            case sim::net::State::Connecting: return true;
            case sim::net::State::Connected: return s->in->parts.empty() && s->in->fin_at < 0 && s->in->reset_at < 0;
            default: return false;
        }
    }

    // What holds after each operation, which was about some of the slots.
    void check(std::vector<View> const &before, std::set<std::size_t> const &about, std::string const &what)
    {
        auto const after = views();
        std::set<int> mine;
        for (std::size_t i = 0; i < after.size(); ++i)
        {
            View const &v = after[i];
            if (about.count(i) == 0)
                SIM_CHECK(v == before[i], "%s changes %s from (%s) to (%s)", what.c_str(), slot_name(i).c_str(), before[i].text().c_str(), v.text().c_str());
            if (!v.exists)
                continue;
            SIM_CHECK(v.open == (v.handle != -1), "after %s, %s: %s", what.c_str(), slot_name(i).c_str(), v.text().c_str());
            SIM_CHECK(v.open || (!v.listening && !v.connecting && !v.connected), "after %s, %s: %s", what.c_str(), slot_name(i).c_str(), v.text().c_str());
            if (!v.open)
                continue;
            SIM_CHECK(mine.insert(v.handle).second, "after %s, %s owns a handle which another owns: %s", what.c_str(), slot_name(i).c_str(), v.text().c_str());
            if (!real)
            {
                sim::Quiet quiet;
                sim::net::Sock *s = sock(v.handle);
                if (s == nullptr)
                    SIM_FAIL("after %s, the handle of %s (%s) was closed by another", what.c_str(), slot_name(i).c_str(), v.text().c_str());
                if (s->nonblock != (v.mode == IOMode::Asynchronous))
                    SIM_FAIL("after %s, %s says (%s), but the handle is %s", what.c_str(), slot_name(i).c_str(), v.text().c_str(), s->nonblock ? "asynchronous" : "synchronous");
                if (v.listening && s->state != sim::net::State::Listening)
                    SIM_FAIL("after %s, %s says that it is listening", what.c_str(), slot_name(i).c_str());
                if (v.connected && s->state != sim::net::State::Connected)
                    SIM_FAIL("after %s, %s says that it is connected", what.c_str(), slot_name(i).c_str());
            }
        }
        auto const all = handles();
        for (int h : all)
            SIM_CHECK(mine.count(h) != 0, "after %s, handle %d is open, which belongs to no socket", what.c_str(), h);
        for (int h : mine)
            SIM_CHECK(all.count(h) != 0, "after %s, handle %d belongs to a socket, but is not open", what.c_str(), h);
        if (real)
            return;
        sim::Quiet quiet;
        auto &net = sim::net::net();
        for (int h : net.touched)
        {
            bool ok = false;
            for (std::size_t i : about)
                ok |= after[i].handle == h || before[i].handle == h;
            for (std::size_t k = closes; k < net.closed.size(); ++k)
                ok |= net.closed[k].first == h;
            if (!ok)
                SIM_FAIL("%s makes a system call on handle %d", what.c_str(), h);
        }
        if (net.stale != 0)
            SIM_FAIL("%s makes a system call on a handle which was closed", what.c_str());
        // each handle that the slots lost was closed once
        std::size_t lost = 0;
        for (std::size_t i : about)
        {
            bool kept = false;
            for (std::size_t k : about)
                kept |= before[i].open && after[k].open && after[k].handle == before[i].handle && after[k].id == before[i].id;
            lost += before[i].open && !kept;
        }
        // (a socket which is made or accepted may be closed at once when its mode cannot be set)
        if (net.closed.size() - closes != lost && !(faulty() && net.closed.size() - closes <= lost + 1))
            SIM_FAIL("%s closes %zu handles, but %zu sockets lost theirs", what.c_str(), net.closed.size() - closes, lost);
        if (!net.infos.empty())
            SIM_FAIL("%s leaks the result of name resolution", what.c_str());
    }
    // Nothing may be done on any handle.
    void untouched(std::string const &what)
    {
        ++closed_operations;
        if (real)
            return;
        sim::Quiet quiet;
        if (!sim::net::net().touched.empty())
            SIM_FAIL("%s, which is closed, makes a system call on handle %d", what.c_str(), *sim::net::net().touched.begin());
    }

    template <typename S>
    void create(std::size_t i)
    {
        auto &s = slots(static_cast<S *>(nullptr))[i];
        IOMode const mode = src.flip() ? IOMode::Synchronous : IOMode::Asynchronous;
        bool const plain = mode == IOMode::Synchronous && src.flip();
        auto const before = views();
        std::size_t const at = first(static_cast<S *>(nullptr)) + i;
        std::string const what = strf("creating %s%s", slot_name(at).c_str(), mode == IOMode::Synchronous ? "" : " (asynchronous)");
        said(what);
        if (plain)
            s.emplace(config);
        else
            s.emplace(config, mode);
        SIM_CHECK(s->is_open() || faulty(), "%s fails", what.c_str());
        failures += !s->is_open();
        SIM_CHECK(s->io_mode() == mode, "%s gives the other mode", what.c_str());
        SIM_CHECK(ids.insert(s->socket_id()).second, "%s gives the identity %llu, which was given before", what.c_str(), static_cast<unsigned long long>(s->socket_id()));
        auto const v = view(*s);
        SIM_CHECK(!v.listening && !v.connected && !v.connecting, "%s gives (%s)", what.c_str(), v.text().c_str());
        check(before, {at}, what);
    }
    template <typename S>
    void common(std::size_t i)
    {
        auto &all = slots(static_cast<S *>(nullptr));
        auto &s = all[i];
        std::size_t const base = first(static_cast<S *>(nullptr));
        std::size_t const at = base + i;
        if (!s)
            return create<S>(i);
        auto const before = views();
        std::string const name = slot_name(at) + (s->is_open() ? "" : " (closed)");
        bool const open = s->is_open();
        switch (src.weighted({3, 4, 5, 6, 2, 3, 2, 1}))
        {
            case 0:
            {
                said("destroying " + name);
                s.reset();
                check(before, {at}, "destroying " + name);
                return;
            }
            case 1:
            {
                said("closing " + name);
                s->close();
                SIM_CHECK(!s->is_open(), "%s is open after it was closed", name.c_str());
                if (!open)
                    untouched("closing " + name);
                check(before, {at}, "closing " + name);
                return;
            }
            case 2:
            {
                std::size_t const k = src.below(all.size());
                if (k == i)
                    return;
                if (all[k])
                    return assign<S>(i, k);
                std::string const what = "constructing " + slot_name(base + k) + " from " + name;
                said(what);
                all[k].emplace(std::move(*s));
                moved(before[at], base + k, at, what);
                check(before, {at, base + k}, what);
                return;
            }
            case 3: return assign<S>(i, src.below(all.size()));
            case 4:
            {
                IOMode const mode = src.flip() ? IOMode::Synchronous : IOMode::Asynchronous;
                std::string const what = strf("making %s %s", name.c_str(), mode == IOMode::Synchronous ? "synchronous" : "asynchronous");
                said(what);
                bool const ok = s->set_io_mode(mode);
                SIM_CHECK(ok == s->is_open(), "%s says %d", what.c_str(), ok);
                SIM_CHECK(ok || !open || faulty(), "%s fails", what.c_str());
                SIM_CHECK(!ok || (open && s->io_mode() == mode), "%s succeeds, but the mode is the other", what.c_str());
                if (!open)
                    untouched(what);
                check(before, {at}, what);
                return;
            }
            case 5: return bind<S>(i);
            case 6:
            {
                said("asking " + name);
                auto const local = s->local_endpoint();
                SIM_CHECK(local.has_value() == (open && !faulty()), "asking %s for its endpoint %s", name.c_str(), local ? "succeeds" : "fails");
                if constexpr (requires { s->remote_endpoint(); })
                {
                    auto const remote = s->remote_endpoint();
                    SIM_CHECK(remote ? open : (!s->is_connected() || faulty() || real), "asking %s for its peer %s", name.c_str(), remote ? "succeeds" : "fails");
                }
                if (!open)
                    untouched("asking " + name);
                check(before, {at}, "asking " + name);
                return;
            }
            default: return without_service<S>(i);
        }
    }
    void moved(View const &from, std::size_t to, std::size_t source, std::string const &what)
    {
        ++moves;
        auto const now = views();
        SIM_CHECK(now[to] == from, "%s: it was (%s), and is now (%s)", what.c_str(), from.text().c_str(), now[to].text().c_str());
        SIM_CHECK(to == source || !now[source].open, "%s leaves the source open: %s", what.c_str(), now[source].text().c_str());
    }
    template <typename S>
    void assign(std::size_t i, std::size_t k)
    {
        auto &all = slots(static_cast<S *>(nullptr));
        std::size_t const base = first(static_cast<S *>(nullptr));
        if (!all[k])
            return;
        auto const before = views();
        std::string const what = "assigning " + slot_name(base + i) + (all[i]->is_open() ? "" : " (closed)") + " to " + slot_name(base + k) + (all[k]->is_open() ? "" : " (closed)");
        said(what);
        S &source = *all[i];
        S &result = (*all[k] = std::move(source));
        SIM_CHECK(&result == &*all[k], "%s returns another socket", what.c_str());
        moved(before[base + i], base + k, base + i, what);
        check(before, {base + i, base + k}, what);
    }
    template <typename S>
    void bind(std::size_t i)
    {
        S &s = *slots(static_cast<S *>(nullptr))[i];
        std::size_t const at = first(static_cast<S *>(nullptr)) + i;
        auto const before = views();
        bool const open = s.is_open();
        fly::net::port_type port = 0;
        if (src.chance(1, 4))
            port = some_port();
        BindMode const mode = src.flip() ? BindMode::SingleUse : BindMode::AllowReuse;
        std::string const what = strf("binding %s%s to port %u", slot_name(at).c_str(), open ? "" : " (closed)", port);
        said(what);
        bool ok = false;
        switch (src.below(4))
        {
            case 0: ok = s.bind(loopback_name<E>(), port, mode); break;
            case 1: ok = s.bind(E(E::address_type::in_addr_any(), port), mode); break;
            case 2:
                ok = s.bind("no such host", port, mode);
                SIM_CHECK(!ok, "%s of no such host succeeds", what.c_str());
                break;
            default: ok = s.bind(loopback<E>(port), mode);
        }
        SIM_CHECK(!ok || open, "%s succeeds", what.c_str());
        SIM_CHECK(s.is_open() == open, "%s %s the socket", what.c_str(), open ? "closes" : "opens");
        failures += open && !ok;
        if (!open)
            untouched(what);
        check(before, {at}, what);
    }
    fly::net::port_type some_port()
    {
        std::vector<fly::net::port_type> ports;
        auto add = [&](auto &all) {
            for (auto &s : all)
            {
                if (!s || !s->is_open())
                    continue;
                if (auto const e = s->local_endpoint(); e && e->port() != 0)
                    ports.push_back(e->port());
            }
        };
        add(listen);
        add(tcp);
        {
            sim::Quiet quiet;
            sim::net::net().touched.clear();
        }
        if (ports.empty())
            return 1;
        return ports[src.below(ports.size())];
    }
    // Sockets which belong to no service refuse what is asynchronous.
    template <typename S>
    void without_service(std::size_t i)
    {
        S &s = *slots(static_cast<S *>(nullptr))[i];
        std::size_t const at = first(static_cast<S *>(nullptr)) + i;
        auto const before = views();
        std::string const what = "using " + slot_name(at) + " asynchronously";
        said(what);
        if constexpr (std::is_same_v<S, Listen>)
            SIM_CHECK(!s.accept_async([](std::shared_ptr<Tcp>) { SIM_FAIL("called"); }), "%s is accepted", what.c_str());
        else
        {
            SIM_CHECK(!s.receive_async([](std::string) { SIM_FAIL("called"); }), "%s is accepted", what.c_str());
            if constexpr (std::is_same_v<S, Tcp>)
            {
                SIM_CHECK(!s.send_async("x", [](std::size_t) { SIM_FAIL("called"); }), "%s is accepted", what.c_str());
                SIM_CHECK(s.connect_async(loopback<E>(1), [](ConnectedState) { SIM_FAIL("called"); }) == ConnectedState::Disconnected, "%s is accepted", what.c_str());
            }
            else
                SIM_CHECK(!s.send_async(loopback<E>(1), "x", [](std::size_t) { SIM_FAIL("called"); }), "%s is accepted", what.c_str());
        }
        check(before, {}, what);
    }

    void use_listen(std::size_t i)
    {
        if (!listen[i])
            return create<Listen>(i);
        Listen &l = *listen[i];
        std::size_t const at = 8 + i;
        bool const open = l.is_open();
        auto const before = views();
        std::string const name = slot_name(at) + (open ? "" : " (closed)");
        if (src.chance(1, 2) && !(open && l.is_listening() && src.chance(3, 4)))
        {
            said(name + " listens");
            bool const ok = l.listen();
            SIM_CHECK(ok == l.is_listening() && (!ok || open), "%s says that listening %s", name.c_str(), ok ? "succeeds" : "fails");
            SIM_CHECK(l.is_open() == open, "%s is %s after listening", name.c_str(), open ? "closed" : "open");
            failures += open && !ok;
            if (!open)
                untouched("listening of " + name);
            check(before, {at}, "listening of " + name);
            return;
        }
        if (open && would_wait(l.handle()))
            return;
        std::size_t const k = src.below(tcp.size());
        said(name + strf(" accepts tcp%zu", k));
        auto s = l.accept();
        SIM_CHECK(s ? open : !l.is_open(), "%s %s", name.c_str(), s ? "accepts" : "could not accept, but is open");
        SIM_CHECK(!s || l.is_open(), "%s is closed after it accepted", name.c_str());
        failures += open && !s;
        if (s)
        {
            auto v = view(*s);
            SIM_CHECK(v.open || faulty(), "%s accepts a socket which is closed", name.c_str());
            SIM_CHECK(v.mode == l.io_mode() && v.connected == v.open, "%s (%s) accepts (%s)", name.c_str(), view(l).text().c_str(), v.text().c_str());
            SIM_CHECK(ids.insert(v.id).second, "%s accepts a socket with the identity %llu, which was given before", name.c_str(), static_cast<unsigned long long>(v.id));
            if (tcp[k])
                *tcp[k] = std::move(*s);
            else
                tcp[k].emplace(std::move(*s));
            SIM_CHECK(view(*tcp[k]) == v && !s->is_open(), "the accepted socket (%s) became (%s)", v.text().c_str(), view(*tcp[k]).text().c_str());
        }
        else if (!open)
            untouched("accepting with " + name);
        check(before, {at, k}, "accepting with " + name);
    }
    void use_tcp(std::size_t i)
    {
        if (!tcp[i])
            return create<Tcp>(i);
        Tcp &s = *tcp[i];
        bool const open = s.is_open();
        auto before = views();
        std::string const name = slot_name(i) + (open ? "" : " (closed)");
        switch (src.below(3))
        {
            case 0:
            {
                fly::net::port_type const port = some_port();
                std::string const what = strf("connecting %s to port %u", name.c_str(), port);
                said(what);
                ConnectedState state = ConnectedState::Disconnected;
                bool unresolved = false;
                switch (src.below(4))
                {
                    case 0: state = s.connect(loopback_name<E>(), port); break;
                    case 1:
                        state = s.connect("no such host", port);
                        unresolved = true;
                        break;
                    default: state = s.connect(loopback<E>(port));
                }
                bool const connecting = state == ConnectedState::Connecting;
                SIM_CHECK(!unresolved || (state == ConnectedState::Disconnected && s.is_open() == open), "%s, whose name is unknown, says %d", what.c_str(), static_cast<int>(state));
                SIM_CHECK(open || state == ConnectedState::Disconnected, "%s succeeds", what.c_str());
                SIM_CHECK(!connecting || s.io_mode() == IOMode::Asynchronous, "%s goes on", what.c_str());
                if (!unresolved)
                {
                    // a fault of the resolver leaves the socket as it was
                    bool const same = faulty() && state == ConnectedState::Disconnected && view(s) == before[i];
                    SIM_CHECK(same || (s.is_open() == (state != ConnectedState::Disconnected) && s.is_connected() == (state == ConnectedState::Connected) && s.is_connecting() == connecting), "%s says %d, the socket says (%s)", what.c_str(), static_cast<int>(state), view(s).text().c_str());
                }
                failures += open && !s.is_open();
                if (!open)
                    untouched(what);
                check(before, {i}, what);
                return;
            }
            case 1:
            {
                std::string const data(src.below(20), 'x');
                std::string const what = strf("sending %zu bytes with %s", data.size(), name.c_str());
                if (open && s.is_connecting() && s.io_mode() == IOMode::Synchronous)
                    return; // may wait for a connection which is never made
                said(what);
                std::size_t const n = s.send(data);
                SIM_CHECK(n <= data.size() && (open || n == 0), "%s says %zu", what.c_str(), n);
                SIM_CHECK(s.is_open() == (open && (n != 0 || data.empty())), "%s says %zu, and the socket is %s", what.c_str(), n, s.is_open() ? "open" : "closed");
                failures += open && !s.is_open();
                if (!open)
                    untouched(what);
                check(before, {i}, what);
                return;
            }
            default:
            {
                if (open && would_wait(s.handle()))
                    return;
                std::string const what = "receiving with " + name;
                said(what);
                auto const data = s.receive();
                SIM_CHECK(open || data.empty(), "%s gives %s", what.c_str(), show(data).c_str());
                SIM_CHECK(s.is_open() == !data.empty(), "%s gives %s, and the socket is %s", what.c_str(), show(data).c_str(), s.is_open() ? "open" : "closed");
                failures += open && !s.is_open();
                if (!open)
                    untouched(what);
                check(before, {i}, what);
            }
        }
    }
    void use_udp(std::size_t i)
    {
        if (!udp[i])
            return create<Udp>(i);
        Udp &s = *udp[i];
        bool const open = s.is_open();
        std::string const name = slot_name(5 + i) + (open ? "" : " (closed)");
        if (src.flip())
        {
            fly::net::port_type port = 0;
            if (auto &o = udp[src.below(udp.size())]; o && o->is_open())
                if (auto const e = o->local_endpoint(); e)
                    port = e->port();
            {
                sim::Quiet quiet;
                sim::net::net().touched.clear();
            }
            auto const before = views();
            std::string const data(src.below(20), 'x');
            std::string const what = strf("sending %zu bytes with %s to port %u", data.size(), name.c_str(), port);
            said(what);
            bool const named = src.chance(1, 4);
            std::size_t const n = named ? s.send(loopback_name<E>(), port, data) : s.send(loopback<E>(port), data);
            SIM_CHECK(n <= data.size() && (open || n == 0), "%s says %zu", what.c_str(), n);
            SIM_CHECK(s.is_open() == (open && (n != 0 || data.empty())) || (named && n == 0 && faulty()), "%s says %zu, and the socket is %s", what.c_str(), n, s.is_open() ? "open" : "closed");
            failures += open && !s.is_open();
            if (!open)
                untouched(what);
            check(before, {5 + i}, what);
            return;
        }
        if (open && would_wait(s.handle()))
            return;
        auto const before = views();
        std::string const what = "receiving with " + name;
        said(what);
        auto const data = s.receive();
        SIM_CHECK(open || data.empty(), "%s gives %s", what.c_str(), show(data).c_str());
        SIM_CHECK(s.is_open() == !data.empty(), "%s gives %s, and the socket is %s", what.c_str(), show(data).c_str(), s.is_open() ? "open" : "closed");
        failures += open && !s.is_open();
        if (!open)
            untouched(what);
        check(before, {5 + i}, what);
    }

    void body(std::size_t steps)
    {
        if (real)
            baseline = system_sockets();
        for (std::size_t step = 0; step < steps; ++step)
        {
            if (!real)
            {
                sim::Quiet quiet;
                faults = sim::net::net().failed;
                closes = sim::net::net().closed.size();
                sim::net::net().touched.clear();
            }
            switch (src.weighted({3, 2, 2, 4, 2, 4}))
            {
                case 0: common<Tcp>(src.below(tcp.size())); break;
                case 1: common<Udp>(src.below(udp.size())); break;
                case 2: common<Listen>(src.below(listen.size())); break;
                case 3: use_tcp(src.below(tcp.size())); break;
                case 4: use_udp(src.below(udp.size())); break;
                default: use_listen(src.below(listen.size())); break;
            }
        }
        tcp = {};
        udp = {};
        listen = {};
        auto const all = handles();
        SIM_CHECK(all.empty(), "%zu handles are open in the end", all.size());
    }
};

template <typename E>
void values(Src &src, bool real)
{
    auto v = std::make_unique<Values<E>>(src, real);
    sim::net::Settings set;
    if (!real)
    {
        set = benign(src);
        set.delay = std::min<std::int64_t>(set.delay, 2 * sim::ms);
        set.eintr = 0; // of connections that are made by one thread there is no end
        if (src.chance(2, 3))
        {
            set.hard = 2 + src.below(20);
            set.hard_calls = static_cast<unsigned>(src.below(2048));
        }
    }
    v->config = std::make_shared<Conf>(src.pick<std::size_t>({4096, 100, 7}), 10000);
    std::size_t const steps = 1 + src.length(60);
    src.note(strf("IPv%d", E::is_ipv4() ? 4 : 6));
    if (real)
    {
        sim::unsimulated(src);
        v->body(steps);
    }
    else
    {
        sim::net::reset(set);
        sim::run(src, {}, [&]() { v->body(steps); });
    }
    if (v->moves)
        src.label("moves");
    if (v->closed_operations)
        src.label("operations on closed sockets");
    if (v->failures)
        src.label("failed operations");
    if (v->moves + v->closed_operations + v->failures > 2)
        src.nontrivial();
}

// ---- sockets of services ------------------------------------------------------------------------

template <typename E>
struct Services
{
    using Tcp = fly::net::TcpSocket<E>;
    using Udp = fly::net::UdpSocket<E>;
    using Listen = fly::net::ListenSocket<E>;

    struct Operation
    {
        char const *what {""};
        unsigned calls {0};
    };

    Src &src;
    std::shared_ptr<Conf> config;
    std::mutex hand;
    struct Group // of one service
    {
        std::vector<std::shared_ptr<Tcp>> tcp;
        std::vector<std::shared_ptr<Udp>> udp;
        std::vector<std::shared_ptr<Listen>> listen;
        std::shared_ptr<fly::task::SequencedTaskRunner> runner;
        std::shared_ptr<fly::net::SocketService> service;
    };
    std::deque<Group> groups;
    std::vector<std::unique_ptr<Operation>> operations; // appended in Quiet scopes
    std::shared_ptr<fly::task::TaskManager> manager;
    fly::net::port_type port {1};
    std::string const data = std::string(50, 'd');
    unsigned closed {0}, dropped {0}, completions {0};

    explicit Services(Src &s) : src(s) {}

    Operation *operation(char const *what)
    {
        sim::Quiet quiet;
        operations.push_back(std::make_unique<Operation>());
        operations.back()->what = what;
        return operations.back().get();
    }
    void completed(Operation *o)
    {
        sim::Quiet quiet;
        ++completions;
        if (++o->calls != 1)
            SIM_FAIL("the callback of %s is invoked again", o->what);
    }
    template <typename S>
    std::shared_ptr<S> pick(std::vector<std::shared_ptr<S>> &from, bool remove)
    {
        std::lock_guard<std::mutex> lock(hand);
        if (from.empty())
            return nullptr;
        std::size_t i = 0;
        {
            sim::Quiet quiet;
            i = src.below(from.size());
        }
        auto s = from[i];
        if (remove)
            from.erase(from.begin() + static_cast<std::ptrdiff_t>(i));
        return s;
    }
    template <typename S>
    void keep(std::vector<std::shared_ptr<S>> &to, std::shared_ptr<S> s)
    {
        std::lock_guard<std::mutex> lock(hand);
        to.push_back(std::move(s));
    }
    std::uint64_t draw(std::uint64_t n)
    {
        sim::Quiet quiet;
        return src.below(n);
    }

    // One step. What uses or closes handles at once is done on the service's sequence: the service
    // may close sockets whose operations fail.
    void step(Group &g, bool on_sequence)
    {
        auto &[tcp, udp, listen, runner, its_service] = g;
        auto service = [this, &g]() {
            std::lock_guard<std::mutex> lock(hand);
            return g.service;
        };
        switch (draw(on_sequence ? 14 : 10))
        {
            case 0:
                if (auto s = service(); s)
                {
                    auto t = s->template create_socket<Tcp>();
                    keep(tcp, t);
                }
                return;
            case 1:
                if (auto s = service(); s)
                {
                    auto u = s->template create_socket<Udp>();
                    u->bind(loopback<E>(0), BindMode::SingleUse);
                    keep(udp, u);
                }
                return;
            case 2:
                if (auto s = service(); s)
                {
                    auto l = s->template create_socket<Listen>();
                    if (l->bind(loopback<E>(0), BindMode::SingleUse) && l->listen())
                        if (auto e = l->local_endpoint(); e)
                        {
                            sim::Quiet quiet;
                            port = e->port();
                        }
                    keep(listen, l);
                }
                return;
            case 3:
            case 4:
                if (auto l = pick(listen, false); l)
                {
                    Operation *o = operation("accept_async");
                    l->accept_async([this, o, &g](std::shared_ptr<Tcp> s) {
                        completed(o);
                        if (s)
                            keep(g.tcp, s);
                    });
                }
                return;
            case 10:
            case 11:
                if (auto t = pick(tcp, false); t && !t->is_connected() && !t->is_connecting())
                {
                    Operation *o = operation("connect_async");
                    fly::net::port_type p = 0;
                    {
                        sim::Quiet quiet;
                        p = port;
                    }
                    t->connect_async(loopback<E>(p), [this, o](ConnectedState) { completed(o); });
                }
                return;
            case 6:
                if (auto t = pick(tcp, false); t)
                {
                    Operation *o = operation("receive_async");
                    t->receive_async([this, o](std::string) { completed(o); });
                }
                return;
            case 7:
                if (auto t = pick(tcp, false); t)
                {
                    Operation *o = operation("send_async");
                    t->send_async(std::string_view(data).substr(0, draw(data.size())), [this, o](std::size_t) { completed(o); });
                }
                return;
            case 8:
                if (auto u = pick(udp, false); u)
                {
                    Operation *o = operation("receive_async");
                    u->receive_async([this, o](std::string) { completed(o); });
                }
                return;
            case 9:
                if (auto u = pick(udp, false); u)
                {
                    Operation *o = operation("send_async");
                    u->send_async(loopback<E>(static_cast<fly::net::port_type>(40000 + draw(10))), std::string_view(data).substr(0, draw(data.size())), [this, o](std::size_t) { completed(o); });
                }
                return;
            case 5:
            {
                sim::Quiet quiet;
                ++dropped;
            }
                // outside of the lock: what is dropped is closed
                switch (draw(3))
                {
                    case 0: static_cast<void>(pick(tcp, true)); return;
                    case 1: static_cast<void>(pick(udp, true)); return;
                    default: static_cast<void>(pick(listen, true)); return;
                }
            default:
            {
                {
                    sim::Quiet quiet;
                    ++closed;
                }
                auto close = [](auto s) {
                    if (!s)
                        return;
                    s->close();
                    SIM_CHECK(!s->is_open(), "a socket is open after it was closed");
                };
                switch (draw(3))
                {
                    case 0: close(pick(tcp, false)); return;
                    case 1: close(pick(udp, false)); return;
                    default: close(pick(listen, false)); return;
                }
            }
        }
    }
    template <typename S>
    std::size_t open(std::vector<std::shared_ptr<S>> const &all, std::set<int> &handles)
    {
        std::size_t n = 0;
        for (auto const &s : all)
        {
            if (s->is_open())
            {
                ++n;
                handles.insert(s->handle());
            }
            else
                SIM_CHECK(s->handle() == -1, "a closed socket has the handle %d", s->handle());
        }
        return n;
    }

    void body(unsigned threads, std::size_t steps, bool two, int ending)
    {
        manager = fly::task::TaskManager::create(threads);
        for (int i = 0; i < (two ? 2 : 1); ++i)
        {
            Group &g = groups.emplace_back();
            g.runner = fly::task::SequencedTaskRunner::create(manager);
            g.service = fly::net::SocketService::create(g.runner, config);
        }
        for (std::size_t i = 0; i < steps; ++i)
        {
            Group &g = groups[draw(groups.size())];
            if (draw(3) != 0)
                g.runner->post_task(FROM_HERE, [this, &g]() { step(g, true); });
            else
                step(g, false);
            if (draw(4) == 0)
                sim::sleep(static_cast<std::int64_t>(draw(20)) * sim::ms);
        }
        if (ending == 0)
        {
            std::lock_guard<std::mutex> lock(hand);
            for (Group &g : groups)
                g.service.reset();
        }
        if (ending != 1)
        {
            SIM_CHECK(manager->stop(), "the task manager does not stop");
            std::set<int> handles;
            std::size_t n = 0;
            for (Group &g : groups)
                n += open(g.tcp, handles) + open(g.udp, handles) + open(g.listen, handles);
            SIM_CHECK(n == handles.size(), "%zu open sockets have %zu handles", n, handles.size());
            sim::Quiet quiet;
            for (int h : handles)
                if (sim::net::net().open.count(h) == 0)
                    SIM_FAIL("handle %d of a socket is not open", h);
            if (sim::net::net().open.size() != n)
                SIM_FAIL("%zu sockets are open, but %zu handles", n, sim::net::net().open.size());
        }
        // sockets go while the service goes on, or the other way round
        auto drop_all = [this]() {
            auto drop = [this](auto &all) {
                while (pick(all, true) != nullptr)
                {
                }
            };
            for (Group &g : groups)
            {
                drop(g.tcp);
                drop(g.udp);
                drop(g.listen);
            }
        };
        drop_all();
        if (ending == 1)
        {
            SIM_CHECK(manager->stop(), "the task manager does not stop");
            drop_all(); // accepted meanwhile
        }
        {
            std::lock_guard<std::mutex> lock(hand);
            for (Group &g : groups)
                g.service.reset();
        }
        groups.clear();
        manager.reset();
    }
};

template <typename E>
void services(Src &src)
{
    sim::net::Settings set = benign(src);
    set.delay = std::min<std::int64_t>(set.delay, 20 * sim::ms);
    set.capacity = src.pick<std::size_t>({65536, 100, 7});
    if (src.chance(1, 2))
    {
        set.hard = 3 + src.below(30);
        set.hard_calls = static_cast<unsigned>(src.below(2048));
    }
    auto s = std::make_unique<Services<E>>(src);
    s->config = std::make_shared<Conf>(src.pick<std::size_t>({100, 4096, 7}), src.pick({1000l, 10000l, 100l}));
    unsigned const threads = 1 + static_cast<unsigned>(src.below(3));
    std::size_t const steps = 1 + src.length(50);
    bool const two = src.chance(1, 3);
    int const ending = static_cast<int>(src.below(3));
    src.note(strf("IPv%d, %zu steps, %u threads, %d services, ending %d, hard 1/%llu (%x)", E::is_ipv4() ? 4 : 6, steps, threads, two ? 2 : 1, ending, static_cast<unsigned long long>(set.hard), set.hard_calls));
    sim::net::reset(set);
    sim::world().max_steps = 2000000;
    sim::run(src, {}, [&]() { s->body(threads, steps, two, ending); });
    auto &net = sim::net::net();
    PBT_CHECK(net.open.empty(), "%zu handles are left open", net.open.size());
    PBT_CHECK(net.infos.empty(), "results of name resolution are not freed");
    PBT_CHECK(net.stale == 0, "%llu system calls are made on handles that were closed", static_cast<unsigned long long>(net.stale));
    if (s->closed)
        src.label("closed");
    if (s->dropped)
        src.label("dropped");
    if (s->completions && s->closed + s->dropped)
        src.nontrivial();
}

void values_target(Src &src)
{
    src.flip() ? values<V6>(src, false) : values<V4>(src, false);
}
void services_target(Src &src)
{
    src.flip() ? services<V6>(src) : services<V4>(src);
}
void system_target(Src &src)
{
    src.flip() && system_has_ipv6() ? values<V6>(src, true) : values<V4>(src, true);
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {
        "K03",
        "\"values\" and \"system\": more than two moves, operations on closed sockets or failed operations; \"services\": a completion was invoked and a socket was closed or dropped",
        {
            {"values", values_target, 40000, 400000},
            {"services", services_target, 12000, 100000},
            {"system", system_target, 5000, 40000, true},
        },
    });
}
