// K01: TCP sockets deliver every byte sent, once and in order.
//
// "streams": up to three connections at once, each end synchronous or driven by a socket service,
// over IPv4 or IPv6, with generated message sizes, packet sizes, buffer sizes, delivery times and
// interruptions, on the simulated network of sim_net.hpp under generated schedules. Oracle: each
// end receives exactly the byte stream that the other sent, every asynchronous operation completes
// once with the number of bytes it transferred, in the order of the calls, and both ends learn of
// the connection and of its end.
// "broken": the same with system calls that fail and ends that are closed or dropped at any time.
// Oracle: what is received is a prefix of what was sent, no operation completes twice, none
// reports bytes that were not accepted, and every end learns that its connection is over.
// "system": a smaller version against the system's own loopback.
#include "net_common.hpp"

#include <mutex>

using namespace pbt;
using namespace nets;
using fly::net::BindMode;
using fly::net::ConnectedState;
using fly::net::IOMode;

namespace {

struct Plan
{
    bool async {false};
    std::vector<std::string> messages;
    std::size_t total {0};
    std::uint64_t stream {0};
    bool pipelined {false}; // asynchronous: all messages are sent at once
    unsigned depth {1};     // asynchronous: so many receptions are armed at a time
    bool from_user {false}; // asynchronous: started by the user's thread rather than a completion
    int give_up {0};        // 0: never, 1: closes, 2: drops the socket; after ...
    std::size_t give_up_after {0}; // ... so many bytes received
};

template <typename E>
struct Case
{
    using Tcp = fly::net::TcpSocket<E>;
    using Listen = fly::net::ListenSocket<E>;

    struct End
    {
        Plan plan;
        End *other {nullptr};
        int connection {0};
        bool client {false};
        bool closes_first {false};
        bool sends_first {false};
        // what happened; written in Quiet scopes
        std::shared_ptr<Tcp> socket; // asynchronous
        bool established {false};
        bool failed {false}; // could not be connected, or broke
        std::size_t received {0};
        std::size_t accepted {0}; // bytes reported as sent
        std::size_t completed {0};
        std::vector<unsigned> completions;
        bool ended {false};  // was told of the end
        bool closed {false}; // closed it itself
        bool dropped {false};
        bool done {false};
        unsigned connects {0};
        bool connecting {false}; // connect_async said so

        std::string name() const { return strf("connection %d, %s (%s)", connection, client ? "client" : "server", plan.async ? "asynchronous" : "synchronous"); }
    };

    Src &src;
    bool broken;
    bool real; // on the system's network
    std::shared_ptr<Conf> config;
    std::vector<std::unique_ptr<End>> ends; // client, server, client, server, ...
    std::map<unsigned, End *> by_port;      // the server end for a client's port
    std::shared_ptr<fly::task::TaskManager> manager;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<fly::net::SocketService> service;
    std::shared_ptr<Listen> async_listener;
    std::optional<Listen> sync_listener;
    fly::net::port_type async_port {0}, sync_port {0};
    unsigned accepted {0}, to_accept_async {0}, to_accept_sync {0};
    bool listener_failed {false};
    int inside {0}; // completions running
    bool by_name {false};
    std::int64_t limit {0};
    std::mutex hand; // sockets are handed from one thread to another as users would do it

    void give(End &e, std::shared_ptr<Tcp> s)
    {
        std::lock_guard<std::mutex> lock(hand);
        e.socket = std::move(s);
    }
    std::shared_ptr<Tcp> take(End &e, bool keep)
    {
        std::lock_guard<std::mutex> lock(hand);
        std::shared_ptr<Tcp> s = e.socket;
        if (!keep)
            e.socket.reset();
        return s;
    }

    Case(Src &s, bool b, bool r) : src(s), broken(b), real(r) {}

    // ---- what every end does with what it gets ----

    void got(End &e, std::string const &data)
    {
        sim::Quiet quiet;
        if (data.size() > config->packet_size())
            SIM_FAIL("%s receives %zu bytes at once, packets have %zu", e.name().c_str(), data.size(), config->packet_size());
        if (e.received + data.size() > e.other->plan.total)
            SIM_FAIL("%s receives more than the %zu bytes that were sent", e.name().c_str(), e.other->plan.total);
        for (std::size_t i = 0; i < data.size(); ++i)
        {
            if (data[i] != stream_byte(e.other->plan.stream, e.received + i))
                SIM_FAIL("%s receives %s at offset %zu, byte %zu of which is not the one that was sent", e.name().c_str(), show(data).c_str(), e.received, i);
        }
        e.received += data.size();
    }
    void sent(End &e, std::size_t index, std::size_t bytes)
    {
        sim::Quiet quiet;
        std::size_t const size = e.plan.messages[index].size();
        if (++e.completions[index] != 1)
            SIM_FAIL("%s: sending message %zu completes again", e.name().c_str(), index);
        if (index != e.completed && !(broken && bytes == 0)) // closing cancels what was waiting
            SIM_FAIL("%s: sending message %zu completes before message %zu", e.name().c_str(), index, e.completed);
        ++e.completed;
        e.accepted += bytes;
        if (bytes > size)
            SIM_FAIL("%s: sending %zu bytes reports %zu", e.name().c_str(), size, bytes);
        if (bytes != size && !broken)
            SIM_FAIL("%s: sending %zu bytes reports only %zu", e.name().c_str(), size, bytes);
        if (bytes != size)
            e.failed = true;
    }
    bool finished(End const &e) const { return e.completed == e.plan.messages.size() && e.received == e.other->plan.total; }

    // ---- synchronous ends ----

    void sync_send(End &e, Tcp &s)
    {
        for (std::size_t i = 0; i < e.plan.messages.size(); ++i)
        {
            auto const &m = e.plan.messages[i];
            std::size_t done = 0;
            for (;;)
            {
                std::size_t const n = s.send(std::string_view(m).substr(done));
                SIM_CHECK(n <= m.size() - done, "%s: sending %zu bytes reports %zu", e.name().c_str(), m.size() - done, n);
                done += n;
                if (done == m.size())
                    break;
                // an error
                SIM_CHECK(broken, "%s: sending %zu bytes reports %zu", e.name().c_str(), m.size(), done);
                if (n == 0)
                    break;
            }
            bool const ok = done == m.size();
            sent(e, i, done);
            SIM_CHECK(s.is_open() == ok, "%s: after %s message %zu (%zu bytes) the socket is %s", e.name().c_str(), ok ? "sending" : "failing to send", i, m.size(), s.is_open() ? "open" : "closed");
            if (!ok)
                return;
        }
    }
    void sync_receive(End &e, Tcp &s)
    {
        while (s.is_open() && e.received < e.other->plan.total && !leaves(e))
        {
            auto const data = s.receive();
            if (data.empty())
            {
                SIM_CHECK(broken, "%s is told that the connection is over after %zu of %zu bytes", e.name().c_str(), e.received, e.other->plan.total);
                SIM_CHECK(!s.is_open(), "%s: the socket is open after the connection ended", e.name().c_str());
                sim::Quiet quiet;
                e.ended = true;
                return;
            }
            got(e, data);
        }
    }
    bool leaves(End const &e) const { return broken && e.plan.give_up != 0 && e.received >= e.plan.give_up_after; }
    void sync_end(End &e, Tcp s) // takes it over
    {
        SIM_CHECK(s.is_open() && s.is_connected() && !s.is_connecting(), "%s is connected, but does not say so", e.name().c_str());
        {
            sim::Quiet quiet;
            e.established = true;
        }
        for (int turn = 0; turn < 2 && s.is_open() && !(broken && leaves(e) && turn != 0); ++turn)
        {
            if ((turn == 0) == e.sends_first)
                sync_send(e, s);
            else
                sync_receive(e, s);
        }
        if (s.is_open() && !e.closes_first && !leaves(e))
        {
            auto const data = s.receive();
            SIM_CHECK(data.empty(), "%s receives %s after all that was sent", e.name().c_str(), show(data).c_str());
            SIM_CHECK(!s.is_open(), "%s: the socket is open after the connection ended", e.name().c_str());
            sim::Quiet quiet;
            e.ended = true;
        }
        if (s.is_open())
        {
            s.close();
            sim::Quiet quiet;
            e.closed = true;
        }
        SIM_CHECK(!s.is_open() && !s.is_connected() && !s.is_connecting(), "%s is closed, but says that it is %s", e.name().c_str(), s.is_open() ? "open" : s.is_connected() ? "connected" : "connecting");
        sim::Quiet quiet;
        e.done = true;
    }

    // ---- asynchronous ends ----

    struct Inside
    {
        Case &c;
        explicit Inside(Case &k) : c(k)
        {
            sim::Quiet quiet;
            if (++c.inside != 1)
                SIM_FAIL("two completions of one service run at a time");
        }
        ~Inside()
        {
            sim::Quiet quiet;
            --c.inside;
        }
    };

    void async_send(End &e, std::shared_ptr<Tcp> const &s, std::size_t index)
    {
        if (index >= e.plan.messages.size())
            return;
        bool const chained = !e.plan.pipelined;
        std::weak_ptr<Tcp> weak = s;
        bool const ok = s->send_async(e.plan.messages[index], [this, &e, weak, index, chained](std::size_t bytes) {
            Inside in(*this);
            sent(e, index, bytes);
            auto s = weak.lock();
            SIM_CHECK(s != nullptr, "%s: a completion runs after the socket is gone", e.name().c_str());
            bool const all = bytes == e.plan.messages[index].size();
            SIM_CHECK(all || !s->is_open(), "%s: sent only %zu of %zu bytes, but the socket is open", e.name().c_str(), bytes, e.plan.messages[index].size());
            if (chained && all && !leaves(e))
                async_send(e, s, index + 1);
            progress(e, s);
        });
        SIM_CHECK(ok, "%s: send_async is refused", e.name().c_str());
    }
    void async_receive(End &e, std::shared_ptr<Tcp> const &s)
    {
        std::weak_ptr<Tcp> weak = s;
        bool const ok = s->receive_async([this, &e, weak](std::string data) {
            Inside in(*this);
            auto s = weak.lock();
            SIM_CHECK(s != nullptr, "%s: a completion runs after the socket is gone", e.name().c_str());
            if (data.empty())
            {
                SIM_CHECK(!s->is_open(), "%s: receives nothing, but the socket is open", e.name().c_str());
                SIM_CHECK(!s->is_connected(), "%s: the socket is connected after it was closed", e.name().c_str());
                SIM_CHECK(broken || e.received == e.other->plan.total || e.closed, "%s is told that the connection is over after %zu of %zu bytes", e.name().c_str(), e.received, e.other->plan.total);
                sim::Quiet quiet;
                e.ended = true;
                e.done = true;
                return;
            }
            got(e, data);
            if (!leaves(e))
                async_receive(e, s);
            progress(e, s);
        });
        SIM_CHECK(ok, "%s: receive_async is refused", e.name().c_str());
    }
    void progress(End &e, std::shared_ptr<Tcp> const &s)
    {
        bool close = false, drop = false;
        {
            sim::Quiet quiet;
            if (e.done)
                return;
            if (!s->is_open())
                e.done = true;
            else if (leaves(e))
            {
                close = e.plan.give_up == 1;
                drop = !close;
            }
            else if (e.closes_first && finished(e))
                close = true;
            if (close || drop)
                (close ? e.closed : e.dropped) = e.done = true;
        }
        if (close)
        {
            s->close();
            SIM_CHECK(!s->is_open() && !s->is_connected(), "%s is closed, but says that it is %s", e.name().c_str(), s->is_open() ? "open" : "connected");
        }
        if (drop)
            take(e, false);
    }
    void async_established(End &e, std::shared_ptr<Tcp> const &s)
    {
        SIM_CHECK(s->is_open() && s->is_connected() && !s->is_connecting(), "%s is connected, but does not say so", e.name().c_str());
        give(e, s);
        {
            sim::Quiet quiet;
            e.established = true;
        }
        if (!e.plan.from_user)
            async_start(e, s);
    }
    void async_start(End &e, std::shared_ptr<Tcp> const &s)
    {
        for (unsigned i = 0; i < e.plan.depth; ++i)
            async_receive(e, s);
        if (e.plan.pipelined)
        {
            for (std::size_t i = 0; i < e.plan.messages.size(); ++i)
                async_send(e, s, i);
        }
        else
            async_send(e, s, 0);
        if (e.plan.messages.empty() || (broken && e.plan.give_up != 0))
        {
            // nothing may ever complete: decide once more on the service's own sequence
            std::weak_ptr<Tcp> weak = s;
            runner->post_task(FROM_HERE, [this, &e, weak]() {
                if (auto t = weak.lock(); t)
                    progress(e, t);
            });
        }
    }

    // ---- connecting ----

    void client(End &e)
    {
        fly::net::port_type const port = e.other->plan.async ? async_port : sync_port;
        if (e.plan.async)
        {
            auto s = service->create_socket<Tcp>();
            if (!prepare(e, *s))
                return;
            std::weak_ptr<Tcp> weak = s;
            auto callback = [this, &e, weak](ConnectedState state) {
                Inside in(*this);
                bool said_connecting = false;
                {
                    sim::Quiet quiet;
                    if (++e.connects != 1)
                        SIM_FAIL("%s: the connection completes again", e.name().c_str());
                    said_connecting = e.connecting;
                }
                static_cast<void>(said_connecting);
                auto s = weak.lock();
                SIM_CHECK(s != nullptr, "%s: a completion runs after the socket is gone", e.name().c_str());
                SIM_CHECK(state == ConnectedState::Connected || state == ConnectedState::Disconnected, "%s: the connection completes as connecting", e.name().c_str());
                SIM_CHECK(state == ConnectedState::Connected || broken, "%s could not be connected", e.name().c_str());
                if (state == ConnectedState::Connected)
                    async_established(e, s);
                else
                {
                    SIM_CHECK(!s->is_open() && !s->is_connected() && !s->is_connecting(), "%s could not be connected, but is not closed", e.name().c_str());
                    sim::Quiet quiet;
                    e.failed = e.done = true;
                }
            };
            give(e, s);
            auto const state = by_name ? s->connect_async(real ? loopback_name<E>() : "localhost", port, callback) : s->connect_async(loopback<E>(port), callback);
            if (state == ConnectedState::Connected)
                async_established(e, s);
            else if (state == ConnectedState::Disconnected)
            {
                SIM_CHECK(broken, "%s could not be connected", e.name().c_str());
                sim::Quiet quiet;
                e.failed = e.done = true;
            }
            sim::Quiet quiet;
            e.connecting = state == ConnectedState::Connecting;
            if (!e.connecting && e.connects != 0)
                SIM_FAIL("%s: the connection completes, though connect_async reported its result", e.name().c_str());
            return;
        }
        Tcp s(config);
        SIM_CHECK(s.is_open() || broken, "%s could not be opened", e.name().c_str());
        if (!prepare(e, s))
            return;
        auto const state = by_name ? s.connect(real ? loopback_name<E>() : "localhost", port) : s.connect(loopback<E>(port));
        if (state != ConnectedState::Connected)
        {
            SIM_CHECK(broken, "%s could not be connected", e.name().c_str());
            SIM_CHECK(!s.is_connected(), "%s could not be connected, but says that it is", e.name().c_str());
            sim::Quiet quiet;
            e.failed = e.done = true;
            return;
        }
        auto const remote = s.remote_endpoint();
        SIM_CHECK(broken || remote == loopback<E>(port), "%s is connected to a wrong endpoint", e.name().c_str());
        sync_end(e, std::move(s));
        SIM_CHECK(!s.is_open() && !s.is_connected(), "%s: the socket is open after it was moved", e.name().c_str());
    }
    // Binds the client's socket, so that the server can tell whom it accepts.
    bool prepare(End &e, Tcp &s)
    {
        bool ok = s.is_open() && s.bind(loopback<E>(0), BindMode::AllowReuse);
        std::optional<E> local;
        if (ok)
        {
            local = s.local_endpoint();
            ok = local.has_value();
        }
        SIM_CHECK(ok || broken, "%s could not be bound", e.name().c_str());
        sim::Quiet quiet;
        if (!ok)
            e.failed = e.done = true;
        else
            by_port[local->port()] = e.other;
        return ok;
    }
    template <typename S>
    End *whose(S const &s)
    {
        auto const remote = s.remote_endpoint();
        if (!remote)
        {
            SIM_CHECK(broken, "an accepted socket has no remote endpoint");
            return nullptr;
        }
        sim::Quiet quiet;
        auto it = by_port.find(remote->port());
        if (it == by_port.end() || it->second->established)
            SIM_FAIL("a connection from port %u is accepted, which nobody made or which was accepted before", remote->port());
        return it->second;
    }
    void accept_next()
    {
        bool const ok = async_listener->accept_async([this](std::shared_ptr<Tcp> s) {
            Inside in(*this);
            if (!s)
            {
                SIM_CHECK(broken, "accepting fails");
                SIM_CHECK(!async_listener->is_listening(), "accepting failed, but the socket is listening");
                sim::Quiet quiet;
                listener_failed = true;
                return;
            }
            bool more = false;
            {
                sim::Quiet quiet;
                more = ++accepted < to_accept_async;
            }
            if (broken && !s->is_open())
            {
                // its mode could not be set
            }
            else if (End *e = whose(*s))
                async_established(*e, s);
            if (more || broken)
                accept_next();
        });
        SIM_CHECK(ok, "accept_async is refused");
    }

    // ---- the whole ----

    bool over(End const &e) const
    {
        if (broken)
            return e.done || (!e.client && !e.established && (e.other->done || listener_failed));
        if (!e.done)
            return false;
        return e.closes_first ? e.closed : e.ended;
    }
    bool wait(std::function<bool()> const &f)
    {
        if (!real)
            return sim::wait_until(f, limit);
        for (int i = 0; i < 20000; ++i)
        {
            {
                sim::Quiet quiet;
                if (f())
                    return true;
            }
            usleep(500);
        }
        return false;
    }

    void body(unsigned threads)
    {
        {
            manager = fly::task::TaskManager::create(threads);
            runner = fly::task::SequencedTaskRunner::create(manager);
            service = fly::net::SocketService::create(runner, config);
        }
        if (to_accept_async != 0)
        {
            async_listener = service->create_socket<Listen>();
            bool ok = async_listener->bind(E(E::address_type::in_addr_any(), 0), BindMode::AllowReuse) && async_listener->listen();
            if (ok)
            {
                auto const local = async_listener->local_endpoint();
                ok = local.has_value();
                if (ok)
                    async_port = local->port();
            }
            SIM_CHECK(ok || broken, "no socket listens");
            if (ok)
                accept_next();
            else
            {
                sim::Quiet quiet;
                listener_failed = true;
                async_port = 9;
            }
        }
        if (to_accept_sync != 0)
        {
            sync_listener.emplace(config);
            SIM_CHECK(sync_listener->bind(loopback_name<E>(), 0, BindMode::AllowReuse) && sync_listener->listen() && sync_listener->is_listening(), "no socket listens");
            auto const local = sync_listener->local_endpoint();
            SIM_CHECK(local && local->port() != 0, "a listening socket has no endpoint");
            sync_port = local->port();
        }
        std::vector<std::thread> all;
        if (to_accept_sync != 0)
        {
            all.emplace_back([this]() {
                std::vector<std::thread> servers;
                for (unsigned i = 0; i < to_accept_sync; ++i)
                {
                    auto s = sync_listener->accept();
                    SIM_CHECK(s.has_value(), "accepting fails");
                    End *e = whose(*s);
                    auto moved = std::make_shared<Tcp>(std::move(*s));
                    SIM_CHECK(!s->is_open() && !s->is_connected(), "the socket is open after it was moved");
                    servers.emplace_back([this, e, moved]() { sync_end(*e, std::move(*moved)); });
                }
                for (auto &t : servers)
                    t.join();
            });
        }
        for (auto &e : ends)
        {
            if (!e->client)
                continue;
            if (e->plan.async)
                client(*e);
            else
                all.emplace_back([this, p = e.get()]() { client(*p); });
        }
        // what is started by the user
        for (auto &e : ends)
        {
            if (!e->plan.async || !e->plan.from_user)
                continue;
            bool const up = wait([this, p = e.get()]() { return p->established || over(*p); });
            SIM_CHECK(up, "%s is not established in time", e->name().c_str());
            {
                sim::Quiet quiet;
                if (!e->established)
                {
                    e->plan.from_user = false; // should it be accepted yet
                    continue;
                }
            }
            std::shared_ptr<Tcp> s = take(*e, true);
            if (s && e->established)
                async_start(*e, s);
        }
        bool const all_over = wait([this]() { return std::all_of(ends.begin(), ends.end(), [this](auto const &e) { return over(*e); }); });
        if (!all_over)
        {
            sim::Quiet quiet;
            std::string s;
            for (auto const &e : ends)
                s += strf(" %s: %s%s%s%s%s%s received %zu of %zu, sent %zu of %zu messages;", e->name().c_str(), e->plan.from_user ? "started by the user, " : "", e->established ? "" : "not established, ", e->dropped ? "dropped, " : "", e->ended ? "ended, " : "", e->closed ? "closed, " : "", e->done ? "done," : "", e->received, e->other->plan.total, e->completed, e->plan.messages.size());
            SIM_FAIL("no progress:%s", s.c_str());
        }
        for (auto &t : all)
            t.join();
        if (broken) // accepting may go on until the end
            SIM_CHECK(manager->stop(), "the task manager does not stop");
        for (auto &e : ends)
            take(*e, false);
        async_listener.reset();
        sync_listener.reset();
        service.reset();
        runner.reset();
        SIM_CHECK(broken || manager->stop(), "the task manager does not stop");
        manager.reset();
        sim::Quiet quiet;
        for (auto &e : ends)
        {
            if (broken)
            {
                if (e->received > e->other->plan.total)
                    SIM_FAIL("%s receives more than was sent", e->name().c_str());
                continue;
            }
            // What is empty may still be waiting when the other end closes.
            bool const all = e->accepted == e->plan.total && (e->completed == e->plan.messages.size() || (e->plan.async && e->ended));
            SIM_CHECK(all && e->received == e->other->plan.total, "%s: received %zu of %zu bytes, sent %zu of %zu messages", e->name().c_str(), e->received, e->other->plan.total, e->completed, e->plan.messages.size());
            SIM_CHECK(!e->connecting || e->connects == 1, "%s: the connection completes %u times", e->name().c_str(), e->connects);
        }
    }
};

template <typename E>
void run(Src &src, bool broken, bool real)
{
    sim::net::Settings set = benign(src);
    set.capacity = src.pick<std::size_t>({65536, 1000, 64, 7, 1, 4096});
    std::size_t const packet = src.pick<std::size_t>({4096, 100, 16, 2, 1, 65536});
    if (broken)
    {
        set.hard = 5 + src.below(40);
        set.hard_calls = static_cast<unsigned>(src.below(2048));
        if (src.chance(1, 3))
            set.hard = 0;
        // the threads of the synchronous ends must not wait for connections that are never made
    }
    auto c = std::make_unique<Case<E>>(src, broken, real);
    long const wait = wait_time(src);
    set.delay = std::min<std::int64_t>(set.delay, wait * 1000 * 30); // a service polls that often while it waits
    c->config = std::make_shared<Conf>(packet, wait);
    c->limit = std::max<std::int64_t>(wait * 1000 * 12000, s_long);
    c->by_name = src.chance(1, 4);
    std::size_t const limit = std::min<std::size_t>(std::max<std::size_t>(60 * std::min(set.capacity, packet), 30), 3000);
    unsigned const n = 1 + static_cast<unsigned>(src.below(real ? 2 : 3));
    bool partial = false;
    std::string note;
    for (unsigned i = 0; i < n; ++i)
    {
        bool const client_closes = src.flip(), client_sends_first = src.flip();
        for (int k = 0; k < 2; ++k)
        {
            auto e = std::make_unique<typename Case<E>::End>();
            e->connection = static_cast<int>(i);
            e->client = k == 0;
            Plan &p = e->plan;
            p.async = src.chance(2, 3) || (broken && k == 1);
            p.stream = 2 * i + static_cast<unsigned>(k) + 1;
            std::size_t const count = src.length(8);
            for (std::size_t m = 0; m < count; ++m)
            {
                std::size_t size = 0;
                switch (src.weighted({4, 3, 2, 1}))
                {
                    case 0: size = 1 + src.below(20); break;
                    case 1: size = src.below(4) * std::min(set.capacity, limit) + src.below(3); break;
                    case 2: size = src.below(4) * std::min(packet, limit) + src.below(3); break;
                    default: size = 0;
                }
                size = std::min(size, limit - std::min(limit, p.total));
                p.messages.push_back(stream_bytes(p.stream, p.total, size));
                p.total += size;
                partial |= size > set.capacity;
            }
            p.pipelined = src.flip();
            p.depth = 1 + static_cast<unsigned>(src.below(3));
            p.from_user = src.chance(1, 3);
            if (broken)
            {
                p.give_up = static_cast<int>(src.below(3));
                p.give_up_after = src.below(60);
            }
            e->completions.resize(count);
            e->closes_first = (k == 0) == client_closes;
            e->sends_first = (k == 0) == client_sends_first;
            if (k == 1)
                ++(p.async ? c->to_accept_async : c->to_accept_sync);
            note += strf(" %s%u %s %zu messages (%zu bytes)%s;", k == 0 ? "client" : "server", i, p.async ? (p.pipelined ? "async pipelined" : "async") : "sync", count, p.total, e->closes_first ? " closes first" : "");
            c->ends.push_back(std::move(e));
        }
        c->ends[2 * i]->other = c->ends[2 * i + 1].get();
        c->ends[2 * i + 1]->other = c->ends[2 * i].get();
    }
    src.note(strf("IPv%d, packets of %zu, buffers of %zu, delays to %lld us, eintr 1/%llu shorts 1/%llu again 1/%llu wake 1/%llu hard 1/%llu (%x):%s", E::is_ipv4() ? 4 : 6, packet, set.capacity, static_cast<long long>(set.delay / 1000), static_cast<unsigned long long>(set.eintr), static_cast<unsigned long long>(set.shorts), static_cast<unsigned long long>(set.again), static_cast<unsigned long long>(set.wake), static_cast<unsigned long long>(set.hard), set.hard_calls, note.c_str()));
    unsigned const threads = 1 + static_cast<unsigned>(src.below(3));
    if (real)
    {
        sim::unsimulated(src);
        c->body(threads);
        src.nontrivial();
        return;
    }
    sim::net::reset(set);
    sim::world().max_steps = 2000000;
    sim::run(src, {}, [&]() { c->body(threads); });
    auto &net = sim::net::net();
    PBT_CHECK(net.open.empty(), "%zu handles are left open", net.open.size());
    PBT_CHECK(net.infos.empty(), "results of name resolution are not freed");
    PBT_CHECK(net.stale == 0, "%llu system calls are made on handles that were closed", static_cast<unsigned long long>(net.stale));
    bool moved = false;
    for (auto const &e : c->ends)
        moved |= e->received > 0;
    src.label(strf("%u connections", n));
    if (partial)
        src.label("messages larger than the buffer");
    if (net.blocked)
        src.label("calls that would block");
    if (net.interrupted)
        src.label("interrupted calls");
    if (net.failed)
        src.label("failed calls");
    if (moved && (net.blocked || net.shortened || net.interrupted || net.failed))
        src.nontrivial();
}

void streams(Src &src)
{
    src.flip() ? run<V6>(src, false, false) : run<V4>(src, false, false);
}
void broken(Src &src)
{
    src.flip() ? run<V6>(src, true, false) : run<V4>(src, true, false);
}
void system_network(Src &src)
{
    src.flip() && system_has_ipv6() ? run<V6>(src, false, true) : run<V4>(src, false, true);
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {
        "K01",
        "a case is non-trivial if bytes were received and a call would have blocked, was interrupted, was partial or failed (for \"system\": always)",
        {
            {"streams", streams, 2500, 40000},
            {"broken", broken, 4000, 40000},
            {"system", system_network, 150, 2000, true},
        },
    });
}
