// K02: UDP sockets preserve datagram boundaries and content.
//
// "datagrams": up to four sockets, synchronous or driven by a socket service, exchange messages of
// generated sizes over IPv4 or IPv6 on the simulated network of sim_net.hpp, which delivers all of
// them, in order, under generated schedules, delivery times and interruptions. Messages larger
// than a packet are sent as several datagrams. Oracle: each socket receives exactly the datagrams
// that were sent to it, those of each sender in order, and each send completes once with its size.
// "lossy": the same while the network loses and reorders datagrams, system calls fail, and sockets
// are closed or dropped at any time. Oracle: each datagram that is received was sent to the
// receiver, has its exact content, and is received once; completions are invoked at most once with
// no more than the size of the message; no handle is left.
// "system": a smaller version of "datagrams" against the system's own loopback.
#include "net_common.hpp"

#include <atomic>
#include <mutex>

using namespace pbt;
using namespace nets;
using fly::net::BindMode;
using fly::net::IOMode;

namespace {

struct Message
{
    std::size_t to {0};
    std::string data;
    bool by_name {false};
};

template <typename E>
struct Case
{
    using Udp = fly::net::UdpSocket<E>;

    struct Node
    {
        std::size_t index {0};
        bool async {false};
        bool two_threads {false};
        bool pipelined {false};
        bool from_user {false};
        unsigned depth {1};
        int binding {0}; // 0: loopback, 1: any, 2: by name
        std::vector<Message> messages;
        int give_up {0}; // 0: never, 1: closes, 2: drops the socket; after ...
        std::size_t give_up_after {0}; // ... so many datagrams received
        fly::net::port_type port {0};
        // what is sent to this node
        struct Expected
        {
            std::string data;
            std::size_t from {0};
        };
        std::vector<Expected> expected; // the first byte is the index
        std::size_t expected_empty {0};
        // what happened; written in Quiet scopes
        std::vector<unsigned> times;
        std::map<std::size_t, std::size_t> latest; // by sender
        std::size_t received {0}, empty {0}, completed {0};
        std::vector<unsigned> completions;
        bool done {false};   // closed or broken: nothing more is to be expected
        bool failed {false};
        std::shared_ptr<Udp> socket; // asynchronous
        std::optional<Udp> own;      // synchronous

        std::string name() const { return strf("socket %zu (%s)", index, async ? "asynchronous" : "synchronous"); }
    };

    Src &src;
    bool lossy;
    bool real;
    bool ordered {true};
    std::size_t packet {1};
    std::shared_ptr<Conf> config;
    std::vector<std::unique_ptr<Node>> nodes;
    std::shared_ptr<fly::task::TaskManager> manager;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<fly::net::SocketService> service;
    std::vector<std::pair<std::size_t, std::size_t>> blanks; // so many empty datagrams to a node
    int inside {0};
    std::atomic<bool> ending {false};
    std::int64_t limit {0};
    std::mutex hand;

    Case(Src &s, bool l, bool r) : src(s), lossy(l), real(r) {}

    std::shared_ptr<Udp> take(Node &n, bool keep)
    {
        std::lock_guard<std::mutex> lock(hand);
        std::shared_ptr<Udp> s = n.socket;
        if (!keep)
            n.socket.reset();
        return s;
    }

    // A message of so many bytes from one node to another, and the datagrams it becomes.
    bool add(std::size_t from, std::size_t to, std::size_t size, bool by_name)
    {
        Message m;
        m.to = to;
        m.by_name = by_name;
        auto &x = nodes[to]->expected;
        if (x.size() + (size + packet - 1) / packet > 250)
            return false;
        for (std::size_t at = 0; at < size; at += packet)
        {
            std::size_t const n = std::min(packet, size - at);
            std::string d = stream_bytes(to * 256 + x.size() + 1, 0, n);
            d[0] = static_cast<char>(x.size());
            m.data += d;
            x.push_back({d, from});
        }
        nodes[from]->messages.push_back(std::move(m));
        return true;
    }

    void got(Node &n, std::string const &data)
    {
        sim::Quiet quiet;
        if (data.empty())
        {
            if (++n.empty > n.expected_empty)
                SIM_FAIL("%s receives %zu empty datagrams, %zu were sent", n.name().c_str(), n.empty, n.expected_empty);
            return;
        }
        std::size_t const i = static_cast<unsigned char>(data[0]);
        if (i >= n.expected.size() || data != n.expected[i].data)
            SIM_FAIL("%s receives %s, which nobody sent to it%s%s", n.name().c_str(), show(data).c_str(), i < n.expected.size() ? "; datagram " : "", i < n.expected.size() ? (strf("%zu is ", i) + show(n.expected[i].data)).c_str() : "");
        if (++n.times[i] != 1)
            SIM_FAIL("%s receives datagram %zu again", n.name().c_str(), i);
        std::size_t const from = n.expected[i].from;
        auto it = n.latest.find(from);
        if (ordered && it != n.latest.end() && it->second > i)
            SIM_FAIL("%s receives datagram %zu of socket %zu after datagram %zu", n.name().c_str(), i, from, it->second);
        n.latest[from] = i;
        ++n.received;
    }
    void sent(Node &n, std::size_t index, std::size_t bytes)
    {
        sim::Quiet quiet;
        std::size_t const size = n.messages[index].data.size();
        if (++n.completions[index] != 1)
            SIM_FAIL("%s: sending message %zu completes again", n.name().c_str(), index);
        if (index != n.completed && !(lossy && bytes == 0))
            SIM_FAIL("%s: sending message %zu completes before message %zu", n.name().c_str(), index, n.completed);
        ++n.completed;
        if (bytes > size)
            SIM_FAIL("%s: sending %zu bytes reports %zu", n.name().c_str(), size, bytes);
        if (bytes != size && !lossy)
            SIM_FAIL("%s: sending %zu bytes reports only %zu", n.name().c_str(), size, bytes);
        if (bytes % packet != 0 && bytes != size)
            SIM_FAIL("%s: sending %zu bytes in packets of %zu reports %zu", n.name().c_str(), size, packet, bytes);
        if (bytes != size)
            n.failed = true;
    }
    bool complete(Node const &n) const { return n.completed == n.messages.size() && n.received == n.expected.size() && n.empty == n.expected_empty; }
    char const *host() const { return real ? loopback_name<E>() : "localhost"; }

    // ---- synchronous ----

    void sync_send(Node &n, Udp &s)
    {
        for (std::size_t i = 0; i < n.messages.size(); ++i)
        {
            Message const &m = n.messages[i];
            std::size_t const bytes = m.by_name ? s.send(host(), nodes[m.to]->port, m.data) : s.send(loopback<E>(nodes[m.to]->port), m.data);
            sent(n, i, bytes);
            SIM_CHECK(s.is_open() || bytes != m.data.size() || n.failed, "%s: closed after sending %zu bytes", n.name().c_str(), bytes);
            if (bytes != m.data.size())
            {
                SIM_CHECK(!s.is_open() || bytes != 0, "%s: open after failing to send", n.name().c_str());
                if (!s.is_open())
                    break;
            }
        }
    }
    void sync_receive(Node &n, Udp &s)
    {
        std::size_t const all = n.expected.size() + n.expected_empty;
        for (std::size_t i = 0; i < all; ++i)
        {
            std::string const data = s.receive();
            SIM_CHECK(s.is_open(), "%s: closed after receiving %zu of %zu datagrams", n.name().c_str(), i, all);
            got(n, data);
        }
    }
    void close(Node &n, Udp &s)
    {
        s.close();
        SIM_CHECK(!s.is_open(), "%s: open after it was closed", n.name().c_str());
        sim::Quiet quiet;
        n.done = true;
    }

    // ---- asynchronous ----

    struct Inside
    {
        Case &c;
        explicit Inside(Case &k) : c(k)
        {
            sim::Quiet quiet;
            if (++c.inside != 1)
                SIM_FAIL("two completions of one service run at a time");
        }
        ~Inside()
        {
            sim::Quiet quiet;
            --c.inside;
        }
    };
    void async_send(Node &n, std::shared_ptr<Udp> const &s, std::size_t index)
    {
        if (index >= n.messages.size())
            return;
        Message const &m = n.messages[index];
        std::weak_ptr<Udp> weak = s;
        auto callback = [this, &n, weak, index](std::size_t bytes) {
            Inside in(*this);
            sent(n, index, bytes);
            auto s = weak.lock();
            SIM_CHECK(s != nullptr, "%s: a completion runs after the socket is gone", n.name().c_str());
            bool const all = bytes == n.messages[index].data.size();
            SIM_CHECK(all || !s->is_open(), "%s: sent only %zu of %zu bytes, but the socket is open", n.name().c_str(), bytes, n.messages[index].data.size());
            if (!all)
            {
                sim::Quiet quiet;
                n.done = true;
            }
            else if (!n.pipelined)
                async_send(n, s, index + 1);
        };
        bool const ok = m.by_name ? s->send_async(host(), nodes[m.to]->port, m.data, callback) : s->send_async(loopback<E>(nodes[m.to]->port), m.data, callback);
        SIM_CHECK(ok || ending, "%s: send_async is refused", n.name().c_str());
    }
    void async_receive(Node &n, std::shared_ptr<Udp> const &s)
    {
        std::weak_ptr<Udp> weak = s;
        bool const ok = s->receive_async([this, &n, weak](std::string data) {
            Inside in(*this);
            auto s = weak.lock();
            SIM_CHECK(s != nullptr, "%s: a completion runs after the socket is gone", n.name().c_str());
            if (!s->is_open())
            {
                SIM_CHECK(data.empty(), "%s: receives %s, but is closed", n.name().c_str(), show(data).c_str());
                SIM_CHECK(lossy, "%s: is closed after receiving %zu datagrams", n.name().c_str(), n.received);
                sim::Quiet quiet;
                n.done = true;
                return;
            }
            got(n, data);
            bool const leaves = lossy && n.give_up != 0 && n.received >= n.give_up_after;
            if (leaves && n.give_up == 1)
                close(n, *s);
            else if (leaves)
            {
                take(n, false);
                sim::Quiet quiet;
                n.done = true;
            }
            else
                async_receive(n, s);
        });
        SIM_CHECK(ok || ending, "%s: receive_async is refused", n.name().c_str());
    }
    void async_start(Node &n, std::shared_ptr<Udp> const &s)
    {
        for (unsigned i = 0; i < n.depth; ++i)
            async_receive(n, s);
        if (n.pipelined)
        {
            for (std::size_t i = 0; i < n.messages.size(); ++i)
                async_send(n, s, i);
        }
        else
            async_send(n, s, 0);
    }

    // ---- the whole ----

    bool wait(std::function<bool()> const &f)
    {
        if (!real)
            return sim::wait_until(f, limit);
        for (int i = 0; i < 20000; ++i)
        {
            {
                sim::Quiet quiet;
                if (f())
                    return true;
            }
            usleep(500);
        }
        return false;
    }
    template <typename S>
    void prepare(Node &n, S &s)
    {
        bool ok = s.is_open();
        if (ok)
        {
            switch (n.binding)
            {
                case 0: ok = s.bind(loopback<E>(0), BindMode::SingleUse); break;
                case 1: ok = s.bind(E(E::address_type::in_addr_any(), 0), BindMode::AllowReuse); break;
                default: ok = s.bind(host(), 0, BindMode::SingleUse);
            }
        }
        std::optional<E> local;
        if (ok)
            local = s.local_endpoint();
        SIM_CHECK(local && local->port() != 0, "%s could not be opened and bound", n.name().c_str());
        n.port = local->port();
    }
    // Peers which do not use the library may send empty datagrams.
    void send_blanks()
    {
        int const fd = ::socket(E::is_ipv4() ? AF_INET : AF_INET6, SOCK_DGRAM, 0);
        for (auto const &kv : blanks)
        {
            sockaddr_storage all {};
            socklen_t size = 0;
            sim::net::detail::store(sim::net::loopback_of(E::is_ipv4() ? AF_INET : AF_INET6, nodes[kv.first]->port), reinterpret_cast<sockaddr *>(&all), &(size = sizeof(all)));
            for (std::size_t i = 0; i < kv.second; ++i)
            {
                ssize_t rc = -1;
                while ((rc = ::sendto(fd, "", 0, 0, reinterpret_cast<sockaddr *>(&all), size)) == -1 && errno == EINTR)
                {
                }
                SIM_CHECK(rc == 0 || lossy, "an empty datagram could not be sent: %s", std::strerror(errno));
            }
        }
        ::close(fd);
    }

    void body(unsigned threads)
    {
        manager = fly::task::TaskManager::create(threads);
        runner = fly::task::SequencedTaskRunner::create(manager);
        service = fly::net::SocketService::create(runner, config);
        for (auto &n : nodes)
        {
            if (n->async)
            {
                auto s = service->create_socket<Udp>();
                prepare(*n, *s);
                std::lock_guard<std::mutex> lock(hand);
                n->socket = std::move(s);
            }
            else
            {
                n->own.emplace(config);
                prepare(*n, *n->own);
            }
        }
        std::vector<std::thread> all;
        if (!blanks.empty())
            all.emplace_back([this]() { send_blanks(); });
        for (auto &n : nodes)
        {
            if (n->async)
            {
                auto s = take(*n, true);
                if (n->from_user)
                    async_start(*n, s);
                else
                    runner->post_task(FROM_HERE, [this, p = n.get(), s]() { async_start(*p, s); });
                continue;
            }
            auto own = std::make_shared<Udp>(std::move(*n->own));
            SIM_CHECK(!n->own->is_open(), "%s: open after it was moved", n->name().c_str());
            auto send = [this, p = n.get(), own]() { sync_send(*p, *own); };
            auto receive = [this, p = n.get(), own]() { sync_receive(*p, *own); };
            if (lossy)
                all.emplace_back(send);
            else if (n->two_threads)
            {
                all.emplace_back(send);
                all.emplace_back(receive);
            }
            else
                all.emplace_back([send, receive]() {
                    send();
                    receive();
                });
        }
        bool const over = wait([this]() {
            return std::all_of(nodes.begin(), nodes.end(), [this](auto const &n) {
                if (!lossy)
                    return complete(*n);
                return n->done || !n->async || n->completed == n->messages.size();
            });
        });
        if (!over)
        {
            sim::Quiet quiet;
            std::string s;
            for (auto const &n : nodes)
                s += strf(" %s: received %zu of %zu datagrams, %zu of %zu empty ones, sent %zu of %zu messages;", n->name().c_str(), n->received, n->expected.size(), n->empty, n->expected_empty, n->completed, n->messages.size());
            SIM_FAIL("no progress:%s", s.c_str());
        }
        for (auto &t : all)
            t.join();
        if (!real)
            sim::sleep(sim::net::net().set.delay + 10 * sim::ms); // what comes twice may come late
        if (lossy)
            SIM_CHECK(manager->stop(), "the task manager does not stop");
        ending = true;
        for (auto &n : nodes)
            take(*n, false);
        service.reset();
        runner.reset();
        SIM_CHECK(lossy || manager->stop(), "the task manager does not stop");
        manager.reset();
        if (lossy)
            return;
        sim::Quiet quiet;
        for (auto &n : nodes)
            SIM_CHECK(complete(*n), "%s: received %zu of %zu datagrams", n->name().c_str(), n->received, n->expected.size());
    }
};

template <typename E>
void run(Src &src, bool lossy, bool real)
{
    sim::net::Settings set = benign(src);
    set.capacity = 1u << 30;
    auto c = std::make_unique<Case<E>>(src, lossy, real);
    c->packet = src.pick<std::size_t>({100, 4096, 16, 2, 1, 1500, 65507});
    if (lossy)
    {
        set.loss = src.chance(1, 2) ? 2 + src.below(10) : 0;
        set.reorder = src.chance(1, 2) ? 1 + src.below(4) : 0;
        if (src.chance(1, 4))
            set.capacity = src.below(300);
        if (src.chance(1, 2))
        {
            set.hard = 5 + src.below(60);
            set.hard_calls = static_cast<unsigned>(src.pick({64, 128, 192}));
        }
        c->ordered = set.reorder == 0;
    }
    long const wait = wait_time(src);
    set.delay = std::min<std::int64_t>(set.delay, wait * 1000 * 30);
    c->config = std::make_shared<Conf>(c->packet, wait);
    c->limit = std::max<std::int64_t>(wait * 1000 * 12000, s_long);
    std::size_t const count = 1 + src.below(real ? 3 : 4);
    for (std::size_t i = 0; i < count; ++i)
    {
        auto n = std::make_unique<typename Case<E>::Node>();
        n->index = i;
        n->async = src.chance(2, 3);
        n->two_threads = src.flip();
        n->pipelined = src.flip();
        n->from_user = src.flip();
        n->depth = 1 + static_cast<unsigned>(src.below(3));
        n->binding = static_cast<int>(src.below(3));
        if (lossy)
        {
            n->give_up = static_cast<int>(src.below(3));
            n->give_up_after = src.below(20);
        }
        c->nodes.push_back(std::move(n));
    }
    std::size_t total = 0, split = 0;
    std::size_t const messages = src.length(20);
    std::size_t const most = real ? 20000 : std::max<std::size_t>(8 * c->packet, 200);
    for (std::size_t m = 0; m < messages; ++m)
    {
        std::size_t const from = src.below(count), to = src.below(count);
        std::size_t size = 0;
        switch (src.weighted({4, 3, 2, 1}))
        {
            case 0: size = 1 + src.below(20); break;
            case 1: size = src.below(4) * c->packet + src.below(3); break;
            case 2: size = c->packet - (c->packet > 1 ? src.below(2) : 0); break;
            default: size = 0;
        }
        size = std::min(size, most - std::min(most, total));
        if (c->add(from, to, size, src.chance(1, 3)))
        {
            total += size;
            split += size > c->packet;
        }
    }
    for (std::size_t i = 0; i < count; ++i)
    {
        if (!src.chance(1, 6))
            continue;
        std::size_t const n = 1 + src.below(3);
        c->blanks.emplace_back(i, n);
        c->nodes[i]->expected_empty = n;
    }
    std::string note;
    std::size_t asynchronous = 0;
    for (auto &n : c->nodes)
    {
        n->times.resize(n->expected.size());
        n->completions.resize(n->messages.size());
        asynchronous += n->async;
        note += strf(" %s sends", n->name().c_str());
        for (auto const &m : n->messages)
            note += strf(" %zu>%zu", m.data.size(), m.to);
        note += strf(" and receives %zu+%zu;", n->expected.size(), n->expected_empty);
    }
    src.note(strf("IPv%d, packets of %zu, delays to %lld us, eintr 1/%llu again 1/%llu wake 1/%llu hard 1/%llu loss 1/%llu reorder 1/%llu:%s", E::is_ipv4() ? 4 : 6, c->packet, static_cast<long long>(set.delay / 1000), static_cast<unsigned long long>(set.eintr), static_cast<unsigned long long>(set.again), static_cast<unsigned long long>(set.wake), static_cast<unsigned long long>(set.hard), static_cast<unsigned long long>(set.loss), static_cast<unsigned long long>(set.reorder), note.c_str()));
    unsigned const threads = 1 + static_cast<unsigned>(src.below(3));
    if (real)
    {
        sim::unsimulated(src);
        c->body(threads);
        if (total != 0)
            src.nontrivial();
        return;
    }
    // opening and binding must succeed
    sim::net::reset(set);
    sim::world().max_steps = 2000000;
    sim::run(src, {}, [&]() { c->body(threads); });
    auto &net = sim::net::net();
    PBT_CHECK(net.open.empty(), "%zu handles are left open", net.open.size());
    PBT_CHECK(net.infos.empty(), "results of name resolution are not freed");
    PBT_CHECK(net.stale == 0, "%llu system calls are made on handles that were closed", static_cast<unsigned long long>(net.stale));
    std::size_t received = 0;
    for (auto const &n : c->nodes)
        received += n->received;
    if (split)
        src.label("messages of several datagrams");
    if (asynchronous != 0 && asynchronous != count)
        src.label("both modes");
    if (!c->blanks.empty())
        src.label("empty datagrams");
    if (net.blocked)
        src.label("calls that would block");
    if (net.interrupted)
        src.label("interrupted calls");
    if (net.lost)
        src.label("lost datagrams");
    if (net.failed)
        src.label("failed calls");
    if (received > 1 && (net.blocked || net.interrupted || net.lost || net.failed || split))
        src.nontrivial();
}

void datagrams(Src &src)
{
    src.flip() ? run<V6>(src, false, false) : run<V4>(src, false, false);
}
void lossy(Src &src)
{
    src.flip() ? run<V6>(src, true, false) : run<V4>(src, true, false);
}
void system_network(Src &src)
{
    src.flip() && system_has_ipv6() ? run<V6>(src, false, true) : run<V4>(src, false, true);
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {
        "K02",
        "a case is non-trivial if several datagrams were received and a message was split, or a call would have blocked, was interrupted or failed, or a datagram was lost (for \"system\": if anything was sent)",
        {
            {"datagrams", datagrams, 4000, 50000},
            {"lossy", lossy, 4000, 50000},
            {"system", system_network, 120, 2000, true},
        },
    });
}
