// T01: the concurrent queue and stack are linearizable and lose nothing.
//
// A case draws programs for several threads and a schedule (sim.hpp), records the invocation and
// the response of every operation, and searches for a linearization of the history against the
// sequential model (a list). The scheduler reports deadlocks (a pop that is never woken), and the
// race detector reports unsynchronised accesses.
#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"

#include "sim.hpp"

#include <deque>
#include <map>
#include <memory>
#include <thread>

using namespace pbt;

namespace {

// An item that can only be moved, and that shows when it was moved from.
struct Item
{
    Item() = default;
    explicit Item(int v) : value(std::make_unique<int>(v)) {}
    int get() const { return value ? *value : -1; }
    std::unique_ptr<int> value;
};

enum class Kind
{
    Push,
    Pop,
    TimedPop,
    Size,
    Empty
};

struct Op
{
    Kind kind {};
    int value {0};                 // of a push
    std::int64_t timeout {0};      // microseconds, of a timed pop
    unsigned points {0};           // scheduling points before it
    // the outcome
    std::uint64_t from {0}, to {0};
    std::int64_t began {0}, ended {0};
    bool done {false};
    bool popped {false};
    int result {0};
    bool target_kept {true};
};

std::string show_op(Op const &op)
{
    switch (op.kind)
    {
        case Kind::Push: return strf("push(%d)", op.value);
        case Kind::Pop: return strf("pop()=%d", op.result);
        case Kind::TimedPop:
            return op.popped ? strf("pop(%lld us)=%d", static_cast<long long>(op.timeout), op.result) : strf("pop(%lld us)=none", static_cast<long long>(op.timeout));
        case Kind::Size: return strf("size()=%d", op.result);
        default: return strf("empty()=%d", op.result);
    }
}

std::string show_history(std::vector<std::vector<Op>> const &threads)
{
    std::string s;
    for (std::size_t t = 0; t < threads.size(); ++t)
    {
        s += strf(" [%zu]", t);
        for (auto const &op : threads[t])
        {
            if (op.done)
                s += strf(" %llu-%llu:%s", static_cast<unsigned long long>(op.from), static_cast<unsigned long long>(op.to), show_op(op).c_str());
        }
    }
    return s;
}

// Wing and Gong's search with the configurations already seen. What leaves the state as it is can be
// taken as soon as it is possible; what is pushed into a queue must not contradict the order of the
// pops; a search which is too large is given up undecided.
class Linearizer
{
public:
    Linearizer(std::vector<std::vector<Op>> const &threads, bool fifo) : m_threads(threads), m_fifo(fifo)
    {
        for (auto const &ops : threads)
            for (auto const &op : ops)
                if ((op.kind == Kind::Pop || op.kind == Kind::TimedPop) && op.popped)
                    m_pops[op.result] = &op;
    }
    bool undecided() const { return m_seen.size() >= s_most; }

    bool search()
    {
        std::vector<std::size_t> at(m_threads.size(), 0);
        std::vector<int> state;
        return step(at, state);
    }
    std::size_t configurations() const { return m_seen.size(); }

private:
    bool step(std::vector<std::size_t> &at, std::vector<int> &state)
    {
        bool all = true;
        std::uint64_t first_response = ~0ull;
        for (std::size_t t = 0; t < at.size(); ++t)
        {
            if (at[t] < m_threads[t].size())
            {
                all = false;
                first_response = std::min(first_response, m_threads[t][at[t]].to);
            }
        }
        if (all)
            return true;
        std::string key;
        for (auto i : at)
            key += static_cast<char>(i);
        for (auto v : state)
        {
            key += static_cast<char>(v & 0xff);
            key += static_cast<char>(v >> 8);
        }
        if (m_seen.size() >= s_most)
            return true;
        if (!m_seen.insert(key).second)
            return false;
        for (std::size_t t = 0; t < at.size(); ++t)
        {
            if (at[t] >= m_threads[t].size())
                continue;
            Op const &op = m_threads[t][at[t]];
            bool const changes = op.kind == Kind::Push || op.kind == Kind::Pop || op.popped;
            if (changes || op.from > first_response || !apply(op, state))
                continue;
            ++at[t];
            bool const found = step(at, state);
            --at[t];
            return found;
        }
        for (std::size_t t = 0; t < at.size(); ++t)
        {
            if (at[t] >= m_threads[t].size())
                continue;
            Op const &op = m_threads[t][at[t]];
            if (op.from > first_response)
                continue; // another operation had completed before it began
            std::vector<int> const before = state;
            if (apply(op, state))
            {
                ++at[t];
                if (step(at, state))
                    return true;
                --at[t];
            }
            state = before;
        }
        return false;
    }

    bool apply(Op const &op, std::vector<int> &state) const
    {
        switch (op.kind)
        {
            case Kind::Push:
                if (m_fifo && !state.empty() && before(op.value, state.back()))
                    return false;
                state.push_back(op.value);
                return true;
            case Kind::Size: return op.result == static_cast<int>(state.size());
            case Kind::Empty: return (op.result != 0) == state.empty();
            default:
                if (op.kind == Kind::TimedPop && !op.popped)
                    return state.empty();
                if (state.empty())
                    return false;
                if (op.result != (m_fifo ? state.front() : state.back()))
                    return false;
                if (m_fifo)
                    state.erase(state.begin());
                else
                    state.pop_back();
                return true;
        }
    }

    // Was the first popped before the second, in any linearization?
    bool before(int first, int second) const
    {
        auto const a = m_pops.find(first), b = m_pops.find(second);
        if (a == m_pops.end() || b == m_pops.end())
            return false;
        return a->second->to < b->second->from;
    }

    static constexpr std::size_t s_most = 100000;
    std::vector<std::vector<Op>> const &m_threads;
    bool m_fifo;
    std::map<int, Op const *> m_pops;
    std::set<std::string> m_seen;
};

template <typename Container>
void execute(Container &container, std::vector<Op> &ops)
{
    for (auto &op : ops)
    {
        for (unsigned i = 0; i < op.points; ++i)
            sim::point();
        Item item(op.kind == Kind::Push ? op.value : -7);
        std::int64_t const began = sim::now();
        std::uint64_t const from = sim::tick();
        bool popped = false;
        int result = 0;
        switch (op.kind)
        {
            case Kind::Push: container.push(std::move(item)); break;
            case Kind::Pop:
                container.pop(item);
                popped = true;
                break;
            case Kind::TimedPop: popped = container.pop(item, std::chrono::microseconds(op.timeout)); break;
            case Kind::Size: result = static_cast<int>(container.size()); break;
            case Kind::Empty: result = container.empty() ? 1 : 0; break;
        }
        std::uint64_t const to = sim::tick();
        if (popped)
            result = item.get();
        bool const kept = popped || op.kind != Kind::TimedPop || item.get() == -7;
        sim::Quiet quiet;
        op.from = from;
        op.to = to;
        op.began = began;
        op.ended = sim::world().now;
        op.popped = popped;
        op.result = result;
        op.target_kept = kept;
        op.done = true;
    }
}

template <typename Container>
void history(Src &src, bool fifo)
{
    std::size_t const n = 2 + src.below(4);
    std::size_t const per = 1 + src.below(6);
    std::vector<std::vector<Op>> threads(n);
    int value = 0;
    long blocking = 0;
    static std::int64_t const timeouts[] = {0, 1, 10, 1000, 10000, 1000000, -5};
    unsigned const blocking_weight = static_cast<unsigned>(src.below(4));
    for (auto &ops : threads)
    {
        unsigned const role = static_cast<unsigned>(src.below(3));
        std::size_t const count = 1 + src.below(per);
        for (std::size_t i = 0; i < count; ++i)
        {
            Op op;
            switch (src.weighted({role == 1 ? 8u : 3u, role == 2 ? 6u : 3u, blocking_weight, 1, 1}))
            {
                case 0:
                    op.kind = Kind::Push;
                    op.value = ++value;
                    break;
                case 1:
                    op.kind = Kind::TimedPop;
                    op.timeout = timeouts[src.below(7)];
                    break;
                case 2:
                    op.kind = Kind::Pop;
                    ++blocking;
                    break;
                case 3: op.kind = Kind::Size; break;
                default: op.kind = Kind::Empty; break;
            }
            op.points = static_cast<unsigned>(src.below(3));
            ops.push_back(op);
        }
    }
    // Enough items for every blocking pop, whatever the timed ones take: one more thread supplies
    // an item whenever nothing else can happen.
    long const timed = [&]() {
        long c = 0;
        for (auto &ops : threads)
            for (auto &op : ops)
                c += op.kind == Kind::TimedPop;
        return c;
    }();
    long const supply = blocking > 0 ? blocking + timed : 0;
    std::vector<Op> last(static_cast<std::size_t>(supply));
    for (auto &op : last)
    {
        op.kind = Kind::Push;
        op.value = ++value;
        op.points = static_cast<unsigned>(src.below(3));
    }
    threads.push_back(std::move(last));

    sim::Schedule schedule;
    schedule.jumps = src.flip();
    std::vector<int> rest;
    std::size_t left = 0;
    sim::run(src, schedule, [&]() {
        Container container;
        bool const jumps = schedule.jumps;
        if (!jumps)
        {
            // Time is about to pass because nothing can run: nobody may be waiting for an item
            // although there is one.
            sim::world().idle = [&]() {
                long present = 0;
                bool waiting = false;
                for (auto &ops : threads)
                {
                    for (auto &op : ops)
                    {
                        if (op.done)
                            present += (op.kind == Kind::Push) - static_cast<long>(op.popped);
                    }
                }
                for (auto &t : sim::world().threads)
                    waiting |= t->wait == sim::Wait::Cond;
                if (waiting && present > 0)
                    sim::fail(strf("a pop keeps waiting although %ld items are present:", present) + show_history(threads));
            };
        }
        {
            std::vector<std::thread> running;
            for (auto &ops : threads)
                running.emplace_back([&container, &ops]() { execute(container, ops); });
            for (auto &t : running)
                t.join();
        }
        sim::world().idle = nullptr;
        left = container.size();
        SIM_CHECK(container.empty() == (left == 0), "empty() and size() %zu disagree", left);
        for (;;)
        {
            Item item;
            if (!container.pop(item, std::chrono::milliseconds(0)))
                break;
            rest.push_back(item.get());
        }
        SIM_CHECK(container.empty(), "not empty after a pop found nothing");
    });

    std::string const shown = show_history(threads);
    src.note((fifo ? "queue" : "stack") + shown);
    PBT_CHECK(left == rest.size(), "size %zu, but %zu items popped;%s", left, rest.size(), shown.c_str());
    // what remained was popped in the end, one after another
    std::uint64_t t = 1ull << 40;
    std::vector<Op> drained;
    for (int v : rest)
    {
        Op op;
        op.kind = Kind::Pop;
        op.popped = op.done = true;
        op.result = v;
        op.from = ++t;
        op.to = ++t;
        drained.push_back(op);
    }
    Op none;
    none.kind = Kind::Empty;
    none.result = 1;
    none.done = true;
    none.from = ++t;
    none.to = ++t;
    drained.push_back(none);
    threads.push_back(drained);

    bool waited = false, timed_out = false, overlapped = false;
    for (std::size_t a = 0; a + 1 < threads.size(); ++a)
    {
        for (auto const &op : threads[a])
        {
            PBT_CHECK(op.target_kept, "a pop without a result changed its target;%s", shown.c_str());
            if (op.kind == Kind::TimedPop && !op.popped)
            {
                PBT_CHECK(op.ended - op.began >= op.timeout * 1000, "pop(%lld us) gave up after %lld ns;%s", static_cast<long long>(op.timeout), static_cast<long long>(op.ended - op.began), shown.c_str());
                timed_out = true;
            }
            waited |= op.popped && op.to > op.from + 1;
            for (std::size_t b = 0; b < a; ++b)
                for (auto const &other : threads[b])
                    overlapped |= other.from < op.to && op.from < other.to;
        }
    }
    Linearizer l(threads, fifo);
    PBT_CHECK(l.search(), "no linearization of the history of a %s:%s, then %zu items left", fifo ? "queue" : "stack", shown.c_str(), rest.size());
    if (l.undecided())
        src.label("undecided");
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (timed_out)
        src.label("a pop timed out");
    if (waited)
        src.label("something happened during a pop");
    if (overlapped)
    {
        src.label("operations overlap");
        src.nontrivial();
    }
}

void queue_history(Src &src)
{
    history<fly::ConcurrentQueue<Item>>(src, true);
}
void stack_history(Src &src)
{
    history<fly::ConcurrentStack<Item>>(src, false);
}

// One thread, long sequences of operations, against a std::deque.
template <typename Container>
void sequence(Src &src, bool fifo)
{
    Container container;
    std::deque<int> model;
    std::size_t const n = src.length(120);
    int value = 0;
    std::size_t most = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (src.weighted({5, 3, 2, 1}))
        {
            case 0:
            {
                Item item(++value);
                container.push(std::move(item));
                model.push_back(value);
                break;
            }
            case 1:
            {
                Item item(-7);
                bool const popped = container.pop(item, std::chrono::nanoseconds(0));
                PBT_CHECK(popped == !model.empty(), "pop()=%d of %zu items", popped, model.size());
                if (popped)
                {
                    int const expected = fifo ? model.front() : model.back();
                    fifo ? model.pop_front() : model.pop_back();
                    PBT_CHECK(item.get() == expected, "popped %d, expected %d", item.get(), expected);
                }
                else
                    PBT_CHECK(item.get() == -7, "a pop without a result changed its target");
                break;
            }
            case 2:
                if (!model.empty())
                {
                    Item item;
                    container.pop(item);
                    int const expected = fifo ? model.front() : model.back();
                    fifo ? model.pop_front() : model.pop_back();
                    PBT_CHECK(item.get() == expected, "popped %d, expected %d", item.get(), expected);
                }
                break;
            default: break;
        }
        PBT_CHECK(container.size() == model.size(), "size %zu, expected %zu", container.size(), model.size());
        PBT_CHECK(container.empty() == model.empty(), "empty() with %zu items", model.size());
        most = std::max(most, model.size());
    }
    src.note(strf("%zu operations, at most %zu items", n, most));
    if (most >= 3)
        src.nontrivial();
}
void queue_sequence(Src &src)
{
    sequence<fly::ConcurrentQueue<Item>>(src, true);
}
void stack_sequence(Src &src)
{
    sequence<fly::ConcurrentStack<Item>>(src, false);
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"T01",
         "a concurrent history in which operations overlap, or a sequence that reached three items",
         {
             {"queue history", queue_history, 6000, 300000},
             {"stack history", stack_history, 6000, 300000},
             {"queue sequence", queue_sequence, 2000, 40000},
             {"stack sequence", stack_sequence, 2000, 40000},
         },
         {},
         {"threads are switched at synchronisation operations only; between them, accesses are checked by the race detector"}});
}
