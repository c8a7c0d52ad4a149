// T04: delays, results, replies and owner lifetimes are honoured for every task.
//
// Tasks of every posting method, on sequenced and parallel runners, with generated delays, result
// types, callables, chains of replies and owners that go away at generated times, under generated
// schedules with virtual time (sim.hpp). Oracle: what the tasks recorded.
#include "task_common.hpp"

#include <map>
#include <optional>

using namespace pbt;
using namespace tasks;

namespace {

// An owner of tasks that shows whether it is alive, and since when it is not.
struct Owner
{
    explicit Owner(std::shared_ptr<std::atomic<std::uint64_t>> gone) : m_gone(std::move(gone)) {}
    ~Owner()
    {
        m_magic = 0;
        *m_gone = sim::tick();
    }
    bool alive() const { return m_magic == 0x600d; }
    int method() { return m_value; }
    int m_value {77};
    std::shared_ptr<std::atomic<std::uint64_t>> m_gone;
    volatile int m_magic {0x600d};
};

// A result that only has its full value if it is handed on unharmed.
struct Payload
{
    int number {0};
    std::string text;
    std::vector<int> list;
    std::shared_ptr<int> shared;
    bool operator==(Payload const &o) const
    {
        return number == o.number && text == o.text && list == o.list && ((shared == nullptr) == (o.shared == nullptr)) && (!shared || *shared == *o.shared);
    }
};
Payload payload(int n)
{
    return {n, std::string(static_cast<std::size_t>(n % 40), 'x') + std::to_string(n), std::vector<int>(static_cast<std::size_t>(n % 7), n), std::make_shared<int>(n)};
}

enum class Result
{
    Void,
    Int,
    String,
    Struct,
    Pointer
};

struct Plan
{
    Record *task {nullptr}, *reply {nullptr};
    int runner {0};
    int owner {-1};
    bool delayed {false};
    std::int64_t delay {0};
    bool has_reply {false};
    Result result {Result::Void};
    int value {0};
    unsigned points {0};
    std::int64_t sleep {0};
    bool drops_owner {false}; // the task itself gives up the reference kept for its owner
    bool as_lvalue {false};
    std::unique_ptr<Plan> then; // posted by the reply (or the task)
};

struct World
{
    Log log;
    std::vector<Runner> runners;
    std::vector<bool> sequenced;
    std::vector<std::shared_ptr<Owner>> owners; // touched in Quiet scopes only
    std::vector<std::weak_ptr<Owner>> weak;
    std::vector<std::shared_ptr<std::atomic<std::uint64_t>>> gone;
    std::vector<std::int64_t> given_up; // when (in virtual time) the case gave up its reference; -1 while it has it
};

void drop_owner(World &w, int owner)
{
    std::shared_ptr<Owner> last;
    {
        sim::Quiet quiet;
        last.swap(w.owners[static_cast<std::size_t>(owner)]);
        if (last)
            w.given_up[static_cast<std::size_t>(owner)] = sim::world().now;
    }
}

void post(World &w, Plan *plan);

void body(World &w, Plan *plan, Record *record, Owner *owner, bool last)
{
    w.log.begin(record);
    if (plan->owner >= 0)
    {
        SIM_CHECK(owner != nullptr, "%s runs without its owner", record->name.c_str());
        SIM_CHECK(owner->alive(), "%s runs with an owner that is gone", record->name.c_str());
    }
    for (unsigned i = 0; i < plan->points; ++i)
        sim::point();
    if (plan->drops_owner && record == plan->task && plan->owner >= 0)
        drop_owner(w, plan->owner);
    if (plan->sleep)
        std::this_thread::sleep_for(std::chrono::nanoseconds(plan->sleep));
    if (last && plan->then)
        post(w, plan->then.get());
    if (owner != nullptr)
        SIM_CHECK(owner->alive(), "the owner of %s went away while it ran", record->name.c_str());
    w.log.end(record);
}

template <typename T>
struct Type
{
};

template <typename T>
T make_value(Type<T>, int v);
template <>
int make_value(Type<int>, int v)
{
    return v;
}
template <>
std::string make_value(Type<std::string>, int v)
{
    return std::string(static_cast<std::size_t>(v % 60), 'r') + std::to_string(v);
}
template <>
Payload make_value(Type<Payload>, int v)
{
    return payload(v);
}
template <>
std::shared_ptr<int> make_value(Type<std::shared_ptr<int>>, int v)
{
    return std::make_shared<int>(v);
}
template <typename T>
bool same(T const &a, int v)
{
    return a == make_value(Type<T> {}, v);
}
inline bool same(std::shared_ptr<int> const &a, int v)
{
    return a != nullptr && *a == v && a.use_count() >= 1;
}

// Posts by the method the plan names. The callables own a large enough capture that a dangling or
// sliced one is noticed.
template <typename TaskType, typename ReplyType>
bool post_with(World &w, Plan *plan, TaskType task, ReplyType reply)
{
    auto &runner = *w.runners[static_cast<std::size_t>(plan->runner)];
    std::chrono::milliseconds const delay(plan->delay);
    if (plan->delayed)
    {
        if (plan->as_lvalue)
            return runner.post_task_with_delay_and_reply(FROM_HERE, delay, task, reply);
        return runner.post_task_with_delay_and_reply(FROM_HERE, delay, std::move(task), std::move(reply));
    }
    if (plan->as_lvalue)
        return runner.post_task_with_reply(FROM_HERE, task, reply);
    return runner.post_task_with_reply(FROM_HERE, std::move(task), std::move(reply));
}
template <typename TaskType, typename ReplyType>
bool post_owned_with(World &w, Plan *plan, TaskType task, ReplyType reply)
{
    auto &runner = *w.runners[static_cast<std::size_t>(plan->runner)];
    std::weak_ptr<Owner> weak = w.weak[static_cast<std::size_t>(plan->owner)];
    std::chrono::milliseconds const delay(plan->delay);
    if (plan->delayed)
        return runner.post_task_with_delay_and_reply(FROM_HERE, weak, delay, std::move(task), std::move(reply));
    if (plan->as_lvalue)
        return runner.post_task_with_reply(FROM_HERE, weak, task, reply);
    return runner.post_task_with_reply(FROM_HERE, weak, std::move(task), std::move(reply));
}
template <typename TaskType>
bool post_alone(World &w, Plan *plan, TaskType task)
{
    auto &runner = *w.runners[static_cast<std::size_t>(plan->runner)];
    std::chrono::milliseconds const delay(plan->delay);
    if (plan->delayed)
    {
        if (plan->as_lvalue)
            return runner.post_task_with_delay(FROM_HERE, delay, task);
        return runner.post_task_with_delay(FROM_HERE, delay, std::move(task));
    }
    if (plan->as_lvalue)
        return runner.post_task(FROM_HERE, task);
    return runner.post_task(FROM_HERE, std::move(task));
}
template <typename TaskType>
bool post_owned_alone(World &w, Plan *plan, TaskType task)
{
    auto &runner = *w.runners[static_cast<std::size_t>(plan->runner)];
    std::weak_ptr<Owner> weak = w.weak[static_cast<std::size_t>(plan->owner)];
    std::chrono::milliseconds const delay(plan->delay);
    if (plan->delayed)
        return runner.post_task_with_delay(FROM_HERE, weak, delay, std::move(task));
    if (plan->as_lvalue)
        return runner.post_task(FROM_HERE, weak, task);
    return runner.post_task(FROM_HERE, weak, std::move(task));
}

template <typename T>
bool post_result(World &w, Plan *plan)
{
    int const value = plan->value;
    std::string const ballast(100, static_cast<char>('a' + value % 26));
    if (plan->owner < 0)
    {
        if (!plan->has_reply)
        {
            return post_alone(w, plan, [&w, plan, ballast, value]() -> T {
                SIM_CHECK(ballast == std::string(100, static_cast<char>('a' + value % 26)), "a task lost its captures");
                body(w, plan, plan->task, nullptr, true);
                return make_value(Type<T> {}, value);
            });
        }
        return post_with(
            w,
            plan,
            [&w, plan, ballast, value]() -> T {
                SIM_CHECK(ballast == std::string(100, static_cast<char>('a' + value % 26)), "a task lost its captures");
                body(w, plan, plan->task, nullptr, false);
                return make_value(Type<T> {}, value);
            },
            [&w, plan, ballast, value](T result) {
                SIM_CHECK(ballast == std::string(100, static_cast<char>('a' + value % 26)), "a reply lost its captures");
                SIM_CHECK(same(result, value), "the reply of %s received another result", plan->task->name.c_str());
                body(w, plan, plan->reply, nullptr, true);
            });
    }
    if (!plan->has_reply)
    {
        return post_owned_alone(w, plan, [&w, plan, ballast, value](std::shared_ptr<Owner> owner) -> T {
            body(w, plan, plan->task, owner.get(), true);
            return make_value(Type<T> {}, value);
        });
    }
    return post_owned_with(
        w,
        plan,
        [&w, plan, ballast, value](std::shared_ptr<Owner> owner) -> T {
            body(w, plan, plan->task, owner.get(), false);
            return make_value(Type<T> {}, value);
        },
        [&w, plan, ballast, value](T result, std::shared_ptr<Owner> owner) {
            SIM_CHECK(ballast == std::string(100, static_cast<char>('a' + value % 26)), "a reply lost its captures");
            SIM_CHECK(same(result, value), "the reply of %s received another result", plan->task->name.c_str());
            body(w, plan, plan->reply, owner.get(), true);
        });
}

bool post_void(World &w, Plan *plan)
{
    std::string const ballast(100, 'v');
    if (plan->owner < 0)
    {
        auto task = [&w, plan, ballast]() {
            SIM_CHECK(ballast == std::string(100, 'v'), "a task lost its captures");
            body(w, plan, plan->task, nullptr, !plan->has_reply);
        };
        if (!plan->has_reply)
            return post_alone(w, plan, std::move(task));
        return post_with(w, plan, std::move(task), [&w, plan, ballast]() {
            SIM_CHECK(ballast == std::string(100, 'v'), "a reply lost its captures");
            body(w, plan, plan->reply, nullptr, true);
        });
    }
    auto task = [&w, plan, ballast](std::shared_ptr<Owner> owner) {
        SIM_CHECK(ballast == std::string(100, 'v'), "a task lost its captures");
        body(w, plan, plan->task, owner.get(), !plan->has_reply);
    };
    if (!plan->has_reply)
        return post_owned_alone(w, plan, std::move(task));
    return post_owned_with(w, plan, std::move(task), [&w, plan, ballast](std::shared_ptr<Owner> owner) {
        SIM_CHECK(ballast == std::string(100, 'v'), "a reply lost its captures");
        body(w, plan, plan->reply, owner.get(), true);
    });
}

void post(World &w, Plan *plan)
{
    w.log.posting(plan->task);
    bool posted = false;
    switch (plan->result)
    {
        case Result::Void: posted = post_void(w, plan); break;
        case Result::Int: posted = post_result<int>(w, plan); break;
        case Result::String: posted = post_result<std::string>(w, plan); break;
        case Result::Struct: posted = post_result<Payload>(w, plan); break;
        case Result::Pointer: posted = post_result<std::shared_ptr<int>>(w, plan); break;
    }
    w.log.posted(plan->task, posted);
}

struct Shape
{
    bool owners {false};
    bool delays {false};
    bool replies {false};
};

std::unique_ptr<Plan> make_plan(Src &src, World &w, Shape const &shape, std::string const &name, int depth, int &number)
{
    auto plan = std::make_unique<Plan>();
    plan->runner = static_cast<int>(src.below(w.sequenced.size()));
    plan->value = ++number;
    plan->task = w.log.make(name, plan->runner);
    if (shape.delays && src.flip())
    {
        plan->delayed = true;
        static std::int64_t const delays[] = {0, 1, 5, 10, 11, 50, 200, 1000, -3};
        plan->delay = delays[src.below(9)];
        plan->task->delay = std::max<std::int64_t>(plan->delay, 1);
    }
    if (shape.replies && src.chance(2, 3))
    {
        plan->has_reply = true;
        plan->reply = w.log.make(name + " reply", plan->runner);
    }
    plan->result = static_cast<Result>(src.below(5));
    plan->points = static_cast<unsigned>(src.below(3));
    if (src.chance(1, 8))
        plan->sleep = src.pick({1, 15, 30}) * sim::ms;
    if (shape.owners && src.chance(3, 4))
    {
        plan->owner = static_cast<int>(src.below(w.weak.size()));
        plan->drops_owner = src.chance(1, 6);
    }
    plan->as_lvalue = src.chance(1, 4);
    if (depth > 0 && src.chance(1, 3))
        plan->then = make_plan(src, w, shape, name + "+", depth - 1, number);
    return plan;
}

void collect(Plan *plan, std::vector<Plan *> &all)
{
    for (; plan != nullptr; plan = plan->then.get())
        all.push_back(plan);
}

// Whether what the plan posts must run: its owners never go away.
void mixture(Src &src, Shape const &shape)
{
    auto w = std::make_shared<World>();
    unsigned const workers = 1 + static_cast<unsigned>(src.below(3));
    std::size_t const runners = 1 + src.below(3);
    for (std::size_t i = 0; i < runners; ++i)
        w->sequenced.push_back(src.flip());
    std::size_t const owners = shape.owners ? 1 + src.below(3) : 0;
    for (std::size_t i = 0; i < owners; ++i)
    {
        w->gone.push_back(std::make_shared<std::atomic<std::uint64_t>>(0));
        w->owners.push_back(std::make_shared<Owner>(w->gone.back()));
        w->weak.push_back(w->owners.back());
        w->given_up.push_back(-1);
    }
    std::vector<std::int64_t> drops(owners, -1); // when the main thread gives up an owner
    for (auto &d : drops)
    {
        if (src.chance(2, 3))
            d = src.pick({0, 0, 1, 9, 20, 100, 1100}) * sim::ms;
    }
    std::size_t const posters = 1 + src.below(2);
    int number = 0;
    std::vector<std::vector<std::unique_ptr<Plan>>> plans(posters);
    std::vector<Plan *> all;
    for (std::size_t p = 0; p < posters; ++p)
    {
        std::size_t const n = 1 + src.below(5);
        for (std::size_t i = 0; i < n; ++i)
        {
            plans[p].push_back(make_plan(src, *w, shape, strf("%zu/%zu", p, i), 2, number));
            collect(plans[p].back().get(), all);
        }
    }
    sim::Schedule schedule;
    schedule.jumps = src.chance(2, 3);
    bool const any_sleep = std::any_of(all.begin(), all.end(), [](Plan *p) { return p->sleep != 0; });

    sim::run(src, schedule, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        for (std::size_t r = 0; r < runners; ++r)
        {
            if (w->sequenced[r])
                w->runners.push_back(fly::task::SequencedTaskRunner::create(manager));
            else
                w->runners.push_back(fly::task::ParallelTaskRunner::create(manager));
        }
        auto poster = [&](std::size_t p) {
            for (auto &plan : plans[p])
                post(*w, plan.get());
        };
        std::vector<std::thread> threads;
        for (std::size_t p = 1; p < posters; ++p)
            threads.emplace_back(poster, p);
        for (std::size_t o = 0; o < owners; ++o)
        {
            if (drops[o] >= 0)
                threads.emplace_back([&, o]() {
                    sim::sleep(drops[o]);
                    drop_owner(*w, static_cast<int>(o));
                });
        }
        poster(0);
        for (auto &t : threads)
            t.join();
        // Everything that must run has run: what has no owner, or one that is still alive.
        auto settled = [&]() {
            for (auto *plan : all)
            {
                auto must = [&]() { return plan->owner < 0 || w->gone[static_cast<std::size_t>(plan->owner)]->load() == 0; };
                if (plan->task->posted && plan->task->ends == 0 && must())
                    return false;
                if (plan->has_reply && plan->task->ends && plan->reply->ends == 0 && must())
                    return false;
            }
            return true;
        };
        expect("a task or reply never ran", w->log, settled);
        // What was dropped stays dropped, and what had to come has come.
        sim::sleep(1500 * sim::ms);
        SIM_CHECK(settled(), "a task or reply never ran;%s", w->log.show().c_str());
        SIM_CHECK(manager->stop(), "stop() failed");
        manager.reset();
        w->runners.clear();
    });

    std::string const shown = strf("%u workers:", workers) + w->log.show();
    bool dropped = false, kept = false, late = false, waited = false;
    for (auto *plan : all)
    {
        Record const &t = *plan->task;
        if (t.post_from == 0)
            continue; // the task that posts it was dropped
        std::uint64_t const gone = (plan->owner >= 0) ? w->gone[static_cast<std::size_t>(plan->owner)]->load() : 0;
        if (plan->delayed && t.starts)
        {
            PBT_CHECK(t.started_at - t.posted_at >= plan->delay * sim::ms, "%s ran %lld ns after it was posted with a delay of %lld ms;%s", t.name.c_str(), static_cast<long long>(t.started_at - t.posted_at), static_cast<long long>(plan->delay), shown.c_str());
            if (!schedule.jumps && !any_sleep)
                PBT_CHECK(t.started_at - t.posted_at <= (std::max<std::int64_t>(plan->delay, 0) + 1000) * sim::ms, "%s ran %lld ns after it was posted with a delay of %lld ms, although nothing kept it;%s", t.name.c_str(), static_cast<long long>(t.started_at - t.posted_at), static_cast<long long>(plan->delay), shown.c_str());
            late = true;
        }
        if (gone == 0)
            PBT_CHECK(t.ends == 1, "%s never ran although its owner lives;%s", t.name.c_str(), shown.c_str());
        else if (t.starts)
        {
            PBT_CHECK(t.start < gone, "%s ran after its owner was gone;%s", t.name.c_str(), shown.c_str());
            PBT_CHECK(t.end < gone, "the owner of %s was not kept while it ran;%s", t.name.c_str(), shown.c_str());
        }
        if (plan->has_reply)
        {
            Record const &r = *plan->reply;
            PBT_CHECK(t.starts || !r.starts, "the reply of %s ran, but not the task;%s", t.name.c_str(), shown.c_str());
            if (r.starts)
            {
                PBT_CHECK(t.end != 0 && t.end < r.start, "the reply of %s ran before it ended;%s", t.name.c_str(), shown.c_str());
                if (gone != 0)
                    PBT_CHECK(r.end < gone, "the reply of %s ran after its owner was gone;%s", t.name.c_str(), shown.c_str());
            }
            else
                PBT_CHECK(gone != 0, "the reply of %s never ran although its owner lives;%s", t.name.c_str(), shown.c_str());
        }
        dropped |= !t.starts || (plan->has_reply && !plan->reply->starts);
        kept |= gone != 0 && t.starts;
    }
    // A task or reply that waits does not keep its owner: when the case has given up an owner, only
    // what runs then (and what starts while that runs) may still run. Without jumps, time passes
    // only while every thread waits.
    std::int64_t const slack = 5 * sim::ms;
    for (std::size_t o = 0; o < owners && !schedule.jumps; ++o)
    {
        if (w->given_up[o] < 0)
            continue;
        std::vector<Record const *> bound;
        for (auto *plan : all)
        {
            if (plan->owner != static_cast<int>(o))
                continue;
            for (Record const *r : {plan->task, plan->reply})
                if (r != nullptr && r->ends)
                    bound.push_back(r);
        }
        std::sort(bound.begin(), bound.end(), [](auto *a, auto *b) { return a->start < b->start; });
        std::int64_t held = w->given_up[o];
        for (auto const *r : bound)
        {
            PBT_CHECK(r->started_at <= held + slack, "%s ran %lld ns after nothing kept its owner any more;%s", r->name.c_str(), static_cast<long long>(r->started_at - held), shown.c_str());
            held = std::max(held, r->ended_at);
            waited |= r->started_at > w->given_up[o];
        }
        src.label("an owner was given up at a known time");
    }
    for (std::size_t r = 0; r < runners; ++r)
    {
        if (!w->sequenced[r])
            continue;
        w->log.check_sequence(static_cast<int>(r));
        // A reply is posted on the same runner when its task has ended: it waits for what had been
        // posted until then.
        for (auto *plan : all)
        {
            if (!plan->has_reply || plan->runner != static_cast<int>(r) || !plan->reply->starts)
                continue;
            for (auto *other : all)
            {
                if (other->runner == plan->runner && other->task->starts && !other->delayed && other->task->post_to < plan->task->end && other->task->post_to != 0)
                    PBT_CHECK(other == plan || other->task->start < plan->reply->start, "the reply of %s overtook %s;%s", plan->task->name.c_str(), other->task->name.c_str(), shown.c_str());
            }
        }
    }
    src.note(shown);
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (dropped)
        src.label("something was dropped with its owner");
    if (kept)
        src.label("a task ran before its owner went away");
    if (waited)
        src.label("a running task kept an owner that was given up");
    if (late)
        src.label("a delayed task ran");
    std::size_t replies = 0;
    for (auto *plan : all)
        replies += plan->has_reply && plan->reply->starts;
    if (replies)
        src.label("a reply ran");
    if (all.size() >= 2 && (dropped || kept || late || replies))
        src.nontrivial();
}

void delays(Src &src)
{
    Shape s;
    s.delays = true;
    mixture(src, s);
}
void replies(Src &src)
{
    Shape s;
    s.replies = true;
    s.delays = src.chance(1, 3);
    mixture(src, s);
}
void owners(Src &src)
{
    Shape s;
    s.owners = true;
    s.replies = src.flip();
    s.delays = src.flip();
    mixture(src, s);
}

// ---- callables -----------------------------------------------------------------------------------

int g_calls = 0; // tasks of a sequenced runner only

void free_function()
{
    ++g_calls;
}
struct Functor
{
    std::shared_ptr<std::vector<int>> out;
    std::string text;
    int operator()()
    {
        out->push_back(static_cast<int>(text.size()));
        return 1;
    }
};

// Every kind of callable, posted several times: as a value, as an lvalue that is posted again, and
// as an lvalue that is gone when the task runs.
void callables(Src &src)
{
    std::size_t const n = 1 + src.below(6);
    std::vector<std::pair<unsigned, unsigned>> plan;
    for (std::size_t i = 0; i < n; ++i)
        plan.emplace_back(src.below(6), 1 + src.below(3));
    auto out = std::make_shared<std::vector<int>>();
    std::vector<int> expected;
    int calls = 0;
    g_calls = 0;
    std::string shown;
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(2);
        auto runner = fly::task::SequencedTaskRunner::create(manager);
        auto gone = std::make_shared<std::atomic<std::uint64_t>>(0);
        auto owner = std::make_shared<Owner>(gone);
        std::weak_ptr<Owner> weak = owner;
        for (auto [kind, times] : plan)
        {
            std::string const text(static_cast<std::size_t>(20 + 7 * kind + times), 't');
            int const length = static_cast<int>(text.size());
            // The callable lives on the heap, and is gone when this round ends.
            switch (kind)
            {
                case 0:
                {
                    auto task = std::make_unique<Functor>(Functor {out, text});
                    for (unsigned i = 0; i < times; ++i)
                    {
                        expected.push_back(length);
                        SIM_CHECK(runner->post_task(FROM_HERE, *task), "refused");
                    }
                    break;
                }
                case 1:
                {
                    auto task = std::make_unique<std::function<void()>>([out, text]() { out->push_back(static_cast<int>(text.size())); });
                    for (unsigned i = 0; i < times; ++i)
                    {
                        expected.push_back(length);
                        SIM_CHECK(runner->post_task(FROM_HERE, *task), "refused");
                    }
                    break;
                }
                case 2:
                    for (unsigned i = 0; i < times; ++i)
                    {
                        ++calls;
                        SIM_CHECK(runner->post_task(FROM_HERE, free_function), "refused");
                        ++calls;
                        SIM_CHECK(runner->post_task(FROM_HERE, &free_function), "refused");
                    }
                    break;
                case 3:
                {
                    auto task = std::make_unique<std::function<int()>>([length]() { return length; });
                    auto reply = std::make_unique<std::function<void(int)>>([out](int v) { out->push_back(v); });
                    for (unsigned i = 0; i < times; ++i)
                    {
                        expected.push_back(length);
                        SIM_CHECK(runner->post_task_with_reply(FROM_HERE, *task, *reply), "refused");
                    }
                    // the replies come before what is posted from here on
                    sim::sleep(500 * sim::ms);
                    break;
                }
                case 4:
                {
                    auto const task = std::make_unique<std::function<void(std::shared_ptr<Owner>)>>([out, length](std::shared_ptr<Owner> o) { out->push_back(o->alive() ? length : -1); });
                    for (unsigned i = 0; i < times; ++i)
                    {
                        expected.push_back(length);
                        SIM_CHECK(runner->post_task(FROM_HERE, weak, *task), "refused");
                    }
                    break;
                }
                default:
                    for (unsigned i = 0; i < times; ++i)
                    {
                        expected.push_back(77);
                        SIM_CHECK(runner->post_task_with_reply(FROM_HERE, weak, &Owner::method, [out](int v, std::shared_ptr<Owner>) { out->push_back(v); }), "refused");
                    }
                    sim::sleep(500 * sim::ms);
                    break;
            }
            shown += strf(" kind %u x%u;", kind, times);
        }
        bool const all = sim::wait_until([&]() { return out->size() == expected.size() && g_calls == calls; }, s_forever);
        if (!all)
            SIM_FAIL("%zu of %zu tasks and %d of %d functions ran;%s", out->size(), expected.size(), g_calls, calls, shown.c_str());
        manager->stop();
    });
    std::sort(expected.begin(), expected.end());
    std::sort(out->begin(), out->end());
    PBT_CHECK(*out == expected, "the tasks did not run as they were posted;%s", shown.c_str());
    src.note(shown);
    src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"T04",
         "two or more tasks of which a delayed one ran, a reply ran, or an owner went away before or after its task; a callable posted as an lvalue",
         {
             {"delays", delays, 2500, 100000},
             {"replies", replies, 3000, 100000},
             {"owners", owners, 4000, 150000},
             {"callables", callables, 800, 20000},
         },
         {},
         {"threads are switched at synchronisation operations only; between them, accesses are checked by the race detector"}});
}
