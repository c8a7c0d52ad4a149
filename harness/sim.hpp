// Deterministic simulation of threads and time.
//
// This header replaces the thread primitives of the process (pthread_create, mutexes, condition
// variables, read-write locks, sleeping, the clocks, futex waits) by definitions of the same names
// in the driver's executable. Outside of sim::run() they forward to the real ones. Inside, only one
// thread runs at a time, every synchronisation operation is a scheduling decision drawn from the
// case's choice sequence, and time is virtual: it advances when nothing can run, or when the
// schedule says so. Code under test needs no change, a schedule is replayed from its choices, and
// shrinks like any other input.
//
// Under ThreadSanitizer the scheduler is invisible: its own memory accesses and hand-overs are
// ignored and the real primitive is called (uncontended) as well, so that happens-before edges are
// only those of the code under test, and a data race is reported on the schedule that shows it.
//
// May be included by one source file of a driver only.
#pragma once

#include "pbt.hpp"

#include <atomic>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>

extern "C" {
void AnnotateIgnoreReadsBegin(char const *, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(char const *, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(char const *, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(char const *, int) __attribute__((weak));
void AnnotateIgnoreSyncBegin(char const *, int) __attribute__((weak));
void AnnotateIgnoreSyncEnd(char const *, int) __attribute__((weak));
}

#define SIM_RAW __attribute__((no_sanitize("thread")))

namespace sim {

// Without a simulation, as many threads as there are really run at a time: such a scope then is
// also entered by one thread only.
inline bool s_unsimulated = false;
inline int s_quiet_owner = 0;
inline thread_local int t_quiet_depth = 0;
inline thread_local int t_quiet = 0; // scopes of any kind in which atomic operations are no scheduling points

// What is done in such a scope is no business of the race detector's.
struct Quiet
{
    SIM_RAW Quiet()
    {
        ++t_quiet;
        if (s_unsimulated && t_quiet_depth++ == 0)
        {
            while (__atomic_exchange_n(&s_quiet_owner, 1, __ATOMIC_ACQUIRE) != 0)
                syscall(SYS_sched_yield);
        }
        if (AnnotateIgnoreReadsBegin)
        {
            AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
            AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
            AnnotateIgnoreSyncBegin(__FILE__, __LINE__);
        }
    }
    SIM_RAW ~Quiet()
    {
        if (AnnotateIgnoreReadsBegin)
        {
            AnnotateIgnoreSyncEnd(__FILE__, __LINE__);
            AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
            AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
        }
        if (s_unsimulated && --t_quiet_depth == 0)
            __atomic_store_n(&s_quiet_owner, 0, __ATOMIC_RELEASE);
        --t_quiet;
    }
};

enum class Wait
{
    None,      // can run
    Mutex,     // until the mutex is free
    Cond,      // until signalled (or the deadline)
    Join,      // until a thread is done
    Sleep,     // until the deadline
    Read,      // until the read-write lock has no writer
    Write,     // until the read-write lock is free
    Predicate, // until a condition holds (or the deadline)
    Done
};

struct Thread
{
    int id {0};
    std::atomic<std::uint32_t> go {0};
    Wait wait {Wait::None};
    void *object {nullptr};
    int joined {-1};
    std::int64_t deadline {-1};
    bool signalled {false};
    bool timed_out {false};
    std::function<bool()> predicate;
    std::uint64_t priority {0};
    pthread_t handle {};
    bool has_handle {false};
};

struct Lock
{
    int owner {-1};
    int depth {0};
    int readers {0};
};

struct World
{
    pbt::Src *src {nullptr};
    bool active {false};
    std::vector<std::unique_ptr<Thread>> threads;
    std::map<void *, Lock> locks;
    std::int64_t now {0};
    std::uint64_t steps {0};
    std::uint64_t max_steps {400000};
    std::uint64_t sequence {0};
    // schedule parameters
    bool pct {false};
    std::uint64_t stick {1}, change {1}, jump {0}, spurious {0}, lowest {0};
    std::uint64_t switches {0}, jumps {0};
    std::function<void()> idle; // called before time advances because nothing can run
};

inline World &world()
{
    static World *w = new World;
    return *w;
}
inline thread_local int t_id = -1;
// One atomic operation in about so many is a scheduling point, and those until the next one.
inline std::uint64_t s_atomics = 0, s_atomics_left = 0;

// For a case which runs without a simulation.
inline void unsimulated(pbt::Src &src)
{
    s_unsimulated = true;
    world().src = &src;
}

inline constexpr std::int64_t ms = 1000000;
inline constexpr std::int64_t s_epoch = 1000000ll * 1000 * ms;       // of the monotonic clock
inline constexpr std::int64_t s_real_epoch = 1700000000ll * 1000 * ms; // of the calendar clock

template <typename F>
SIM_RAW inline F real(F, char const *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define SIM_REAL(f)                                                                                \
    ([]() SIM_RAW {                                                                                \
        static decltype(&::f) volatile p = nullptr;                                                \
        if (p == nullptr)                                                                          \
            p = sim::real(&::f, #f);                                                               \
        return p;                                                                                  \
    }())

SIM_RAW inline long raw_futex(std::atomic<std::uint32_t> *word, int op, std::uint32_t value)
{
    register long rax __asm__("rax") = SYS_futex;
    register long rdi __asm__("rdi") = reinterpret_cast<long>(word);
    register long rsi __asm__("rsi") = op;
    register long rdx __asm__("rdx") = value;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "+r"(rax) : "r"(rdi), "r"(rsi), "r"(rdx), "r"(r10) : "rcx", "r11", "memory");
    return rax;
}
SIM_RAW inline void release(Thread &t)
{
    __atomic_store_n(reinterpret_cast<std::uint32_t *>(&t.go), 1u, __ATOMIC_SEQ_CST);
    raw_futex(&t.go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
SIM_RAW inline void await(Thread &t)
{
    for (;;)
    {
        if (__atomic_exchange_n(reinterpret_cast<std::uint32_t *>(&t.go), 0u, __ATOMIC_SEQ_CST) == 1)
            return;
        raw_futex(&t.go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
    }
}

// Ends the case as failed, from any thread, without unwinding.
[[noreturn]] inline void fail(std::string const &message)
{
    Quiet quiet;
    pbt::Slot *slot = world().src->m_slot;
    std::size_t const n = std::min(message.size(), sizeof(slot->message) - 1);
    std::memcpy(slot->message, message.data(), n);
    slot->message[n] = '\0';
    slot->failed = 1;
    pbt::detail::write_note(*world().src);
    _exit(1);
}
#define SIM_FAIL(...) ::sim::fail(::pbt::strf(__VA_ARGS__))
#define SIM_CHECK(cond, ...)                                                                       \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
            ::sim::fail(std::string("[" #cond "] ") + ::pbt::strf(__VA_ARGS__));                   \
    } while (0)

namespace detail {

    inline bool has_deadline(Thread const &t)
    {
        return (t.deadline >= 0) &&
            (t.wait == Wait::Cond || t.wait == Wait::Sleep || t.wait == Wait::Predicate);
    }
    inline bool enabled(Thread &t)
    {
        World &w = world();
        switch (t.wait)
        {
            case Wait::None: return true;
            case Wait::Mutex:
            {
                auto it = w.locks.find(t.object);
                return it == w.locks.end() || it->second.owner == -1;
            }
            case Wait::Write:
            {
                auto it = w.locks.find(t.object);
                return it == w.locks.end() || (it->second.owner == -1 && it->second.readers == 0);
            }
            case Wait::Read:
            {
                auto it = w.locks.find(t.object);
                return it == w.locks.end() || it->second.owner == -1;
            }
            case Wait::Join: return w.threads[static_cast<std::size_t>(t.joined)]->wait == Wait::Done;
            case Wait::Cond: return t.signalled || (t.deadline >= 0 && t.deadline <= w.now);
            case Wait::Sleep: return t.deadline <= w.now;
            case Wait::Predicate:
                if (t.predicate())
                    return true;
                return t.deadline >= 0 && t.deadline <= w.now;
            case Wait::Done: return false;
        }
        return false;
    }
    inline std::string describe()
    {
        World &w = world();
        static char const *names[] = {"ready", "mutex", "condition", "join", "sleep", "read lock", "write lock", "predicate", "done"};
        std::string s;
        for (auto &t : w.threads)
            s += pbt::strf(" thread %d: %s;", t->id, names[static_cast<int>(t->wait)]);
        return s;
    }
    // The earliest deadline, or -1. The limits of the case's own waiting are no reason to jump.
    inline std::int64_t next_deadline(bool jump)
    {
        std::int64_t d = -1;
        for (auto &t : world().threads)
        {
            if (has_deadline(*t) && !(jump && t->wait == Wait::Predicate) && t->deadline > world().now && (d < 0 || t->deadline < d))
                d = t->deadline;
        }
        return d;
    }

    // Hands over to the thread that the schedule picks, and returns when the caller is picked.
    // The caller has recorded in its wait state what it waits for.
    inline void reschedule(Thread &me, bool yielding)
    {
        World &w = world();
        if (++w.steps > w.max_steps)
            fail(pbt::strf("no end in sight after %llu scheduling steps;%s", static_cast<unsigned long long>(w.steps), describe().c_str()));
        w.now += 1000;
        std::vector<Thread *> ready;
        bool me_ready = false;
        for (;;)
        {
            ready.clear();
            me_ready = false;
            std::size_t const n = w.threads.size();
            for (std::size_t i = 1; i <= n; ++i)
            {
                Thread &t = *w.threads[(static_cast<std::size_t>(me.id) + i) % n];
                if (!enabled(t))
                    continue;
                if (&t == &me)
                    me_ready = true;
                else
                    ready.push_back(&t);
            }
            if (me_ready || !ready.empty())
                break;
            std::int64_t const d = next_deadline(false);
            if (d < 0)
            {
                if (me.wait == Wait::Done && std::all_of(w.threads.begin(), w.threads.end(), [](auto &t) { return t->wait == Wait::Done; }))
                    return;
                fail("deadlock:" + describe());
            }
            if (w.idle)
                w.idle();
            w.now = d;
        }
        // decide
        Thread *next = nullptr;
        std::int64_t const deadline = (w.jump != 0) ? next_deadline(true) : -1;
        if (w.pct)
        {
            if (me_ready)
                ready.push_back(&me);
            next = ready[0];
            for (auto *t : ready)
                if (t->priority > next->priority)
                    next = t;
            if (ready.size() > 1 && (w.src->chance(1, w.change) || (yielding && next == &me)))
            {
                next->priority = w.lowest--;
                next = ready[0];
                for (auto *t : ready)
                    if (t->priority > next->priority)
                        next = t;
            }
            if (deadline >= 0 && w.src->chance(1, w.jump))
            {
                w.now = deadline;
                ++w.jumps;
            }
        }
        else
        {
            bool const stay = me_ready && !yielding;
            std::uint64_t const keep = stay ? w.stick : 0;
            if (me_ready && yielding)
                ready.push_back(&me);
            std::uint64_t const total = keep + ready.size();
            std::uint64_t r = 0;
            if (total > 1 && !(keep != 0 && ready.empty()))
                r = w.src->below(total);
            next = (r < keep) ? &me : ready[r - keep];
            if (deadline >= 0 && w.src->chance(1, w.jump))
            {
                w.now = deadline;
                ++w.jumps;
            }
        }
        if (w.spurious != 0)
        {
            // a condition variable may wake without a reason
            for (auto &t : w.threads)
            {
                if (t->wait == Wait::Cond && !t->signalled && w.src->chance(1, w.spurious))
                    t->signalled = true;
            }
        }
        if (next == &me)
            return;
        ++w.switches;
        bool const done = me.wait == Wait::Done;
        release(*next);
        if (!done)
            await(me);
    }

    inline Thread &self() { return *world().threads[static_cast<std::size_t>(t_id)]; }

    // Called before each atomic operation of what is built with the race detector.
    SIM_RAW inline void atomic_point()
    {
        if (t_id < 0 || t_quiet != 0)
            return;
        if (s_atomics == 0 || --s_atomics_left != 0)
            return;
        Quiet quiet;
        s_atomics_left = 1 + world().src->below(2 * s_atomics);
        reschedule(self(), true);
    }

    inline void block(Wait wait, void *object)
    {
        Thread &me = self();
        me.wait = wait;
        me.object = object;
        reschedule(me, false);
        me.wait = Wait::None;
    }
    inline void point(bool yielding = false) { reschedule(self(), yielding); }

    inline std::int64_t ns(struct timespec const &ts) { return static_cast<std::int64_t>(ts.tv_sec) * 1000 * ms + ts.tv_nsec; }
    inline std::int64_t deadline_of(clockid_t clock, struct timespec const *ts)
    {
        std::int64_t const d = ns(*ts) - (clock == CLOCK_MONOTONIC ? s_epoch : s_real_epoch);
        return d < 0 ? 0 : d;
    }

    inline void acquire(void *m, bool recursive)
    {
        World &w = world();
        Thread &me = self();
        Lock &l = w.locks[m];
        if (l.owner == me.id && recursive)
        {
            ++l.depth;
            return;
        }
        block(Wait::Mutex, m);
        Lock &l2 = w.locks[m];
        l2.owner = me.id;
        l2.depth = 1;
    }
    inline void unlock(void *m)
    {
        World &w = world();
        auto it = w.locks.find(m);
        if (it == w.locks.end() || it->second.owner != t_id)
            fail("a thread unlocks a mutex it does not hold");
        if (--it->second.depth > 0)
            return;
        w.locks.erase(it);
    }
    inline bool is_recursive(pthread_mutex_t *m)
    {
        return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    }

    SIM_RAW inline bool on()
    {
        return t_id >= 0;
    }

    struct Start
    {
        void *(*fn)(void *);
        void *arg;
        int id;
    };
    SIM_RAW inline void *trampoline(void *p)
    {
        Start const s = *static_cast<Start *>(p);
        {
            Quiet quiet;
            delete static_cast<Start *>(p);
            t_id = s.id;
            await(self());
            self().wait = Wait::None;
        }
        void *const r = s.fn(s.arg);
        {
            Quiet quiet;
            Thread &me = self();
            t_id = -1;
            me.wait = Wait::Done;
            reschedule(me, false);
        }
        return r;
    }

    SIM_RAW inline int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, std::int64_t deadline)
    {
        SIM_REAL(pthread_mutex_unlock)(m);
        int rc = 0;
        {
            Quiet quiet;
            Thread &me = self();
            unlock(m);
            me.signalled = false;
            me.deadline = deadline;
            block(Wait::Cond, c);
            // having been picked: by a signal, a timeout, or spuriously
            if (!me.signalled)
                rc = ETIMEDOUT;
            me.signalled = false;
            me.deadline = -1;
            acquire(m, false);
        }
        SIM_REAL(pthread_mutex_lock)(m);
        return rc;
    }

} // namespace detail

// ---- for test bodies ----------------------------------------------------------------------------

inline std::int64_t now()
{
    Quiet quiet;
    return world().now;
}
// A number that orders the events of the case.
inline std::uint64_t tick()
{
    Quiet quiet;
    return ++world().sequence;
}
inline int thread_id()
{
    return t_id;
}
// A point where another thread may run.
inline void point()
{
    Quiet quiet;
    detail::point();
}
inline void sleep(std::int64_t duration)
{
    Quiet quiet;
    Thread &me = detail::self();
    me.deadline = world().now + duration;
    detail::block(Wait::Sleep, nullptr);
    me.deadline = -1;
}
// Waits until the condition holds; false if it does not within the given virtual time. The
// condition is evaluated by the scheduler, whenever it decides: it must only read what is written
// within a Quiet scope or by atomics.
inline bool wait_until(std::function<bool()> predicate, std::int64_t limit)
{
    Quiet quiet;
    Thread &me = detail::self();
    me.predicate = std::move(predicate);
    me.deadline = world().now + limit;
    detail::block(Wait::Predicate, nullptr);
    me.deadline = -1;
    bool const r = me.predicate();
    me.predicate = nullptr;
    return r;
}

struct Schedule
{
    bool jumps {true};     // time may advance while threads are ready
    bool spurious {true};  // condition variables may wake without a reason
};

// Runs body under a schedule drawn from src. All threads the body starts must have ended when it
// returns.
inline void run(pbt::Src &src, Schedule const &schedule, std::function<void()> const &body)
{
    World &w = world();
    // Only one thread runs at a time: handing over is cheapest on one processor.
    static bool const pinned = []() {
        cpu_set_t all, one;
        if (sched_getaffinity(0, sizeof(all), &all) != 0 || CPU_COUNT(&all) < 2)
            return false;
        int skip = static_cast<int>(pbt::detail::worker_index()) % CPU_COUNT(&all);
        for (int c = 0; c < CPU_SETSIZE; ++c)
        {
            if (CPU_ISSET(c, &all) && skip-- == 0)
            {
                CPU_ZERO(&one);
                CPU_SET(c, &one);
                return sched_setaffinity(0, sizeof(one), &one) == 0;
            }
        }
        return false;
    }();
    static_cast<void>(pinned);
    w.threads.clear();
    w.locks.clear();
    w.src = &src;
    s_unsimulated = false;
    w.now = 0;
    w.steps = w.switches = w.jumps = w.sequence = 0;
    w.idle = nullptr;
    w.pct = src.chance(1, 3);
    static std::uint64_t const sticks[] = {1000, 30, 8, 3, 1};
    w.stick = sticks[src.below(5)];
    static std::uint64_t const changes[] = {200, 50, 15, 5};
    w.change = changes[src.below(4)];
    static std::uint64_t const jump[] = {0, 300, 40, 8};
    w.jump = schedule.jumps ? jump[src.below(4)] : 0;
    w.spurious = (schedule.spurious && src.chance(1, 4)) ? 20 : 0;
    static std::uint64_t const atomics[] = {0, 0, 100, 25, 6};
    s_atomics = s_atomics_left = atomics[src.below(5)];
    w.lowest = 1000000;
    auto main = std::make_unique<Thread>();
    main->id = 0;
    main->priority = 2000000 + src.below(1000);
    w.threads.push_back(std::move(main));
    t_id = 0;
    body();
    {
        Quiet quiet;
        for (auto &t : w.threads)
        {
            if (t->id != 0 && t->wait != Wait::Done)
                fail("threads are left running:" + detail::describe());
        }
    }
    t_id = -1;
    w.locks.clear();
}
inline void run(pbt::Src &src, std::function<void()> const &body)
{
    run(src, Schedule {}, body);
}

} // namespace sim

// ---- the replaced primitives --------------------------------------------------------------------

namespace sim::detail {

    // Tries again in steps of the simulated time until the deadline.
    template <typename Try>
    int until(std::int64_t deadline, Try &&attempt)
    {
        for (;;)
        {
            int const rc = attempt();
            if (rc != EBUSY)
                return rc;
            std::int64_t const rest = deadline - sim::now();
            if (rest <= 0)
                return ETIMEDOUT;
            sim::sleep(std::min<std::int64_t>(rest, sim::ms));
        }
    }

} // namespace sim::detail

// Called by atomics.cpp.
extern "C" SIM_RAW void verif_atomic_point()
{
    sim::detail::atomic_point();
}
extern "C" SIM_RAW void verif_static_initialization(int begun)
{
    sim::t_quiet += begun;
}

extern "C" {

SIM_RAW int pthread_create(pthread_t *handle, pthread_attr_t const *attr, void *(*fn)(void *), void *arg)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_create)(handle, attr, fn, arg);
    sim::detail::Start *start = nullptr;
    sim::Thread *thread = nullptr;
    {
        sim::Quiet quiet;
        sim::World &w = sim::world();
        auto t = std::make_unique<sim::Thread>();
        t->id = static_cast<int>(w.threads.size());
        t->priority = 2000000 + w.src->below(1000);
        thread = t.get();
        start = new sim::detail::Start {fn, arg, t->id};
        w.threads.push_back(std::move(t));
    }
    int const rc = SIM_REAL(pthread_create)(handle, attr, &sim::detail::trampoline, start);
    {
        sim::Quiet quiet;
        if (rc != 0)
            sim::fail("pthread_create failed");
        thread->handle = *handle;
        thread->has_handle = true;
        sim::detail::point();
    }
    return rc;
}

SIM_RAW int pthread_join(pthread_t handle, void **result)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::Thread *other = nullptr;
        for (auto &t : sim::world().threads)
        {
            if (t->has_handle && pthread_equal(t->handle, handle))
                other = t.get();
        }
        if (other != nullptr)
        {
            sim::detail::self().joined = other->id;
            sim::detail::block(sim::Wait::Join, nullptr);
            other->has_handle = false;
        }
    }
    return SIM_REAL(pthread_join)(handle, result);
}

SIM_RAW int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::acquire(m, sim::detail::is_recursive(m));
    }
    return SIM_REAL(pthread_mutex_lock)(m);
}

SIM_RAW int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::point();
        sim::Lock &l = sim::world().locks[m];
        if (l.owner == sim::t_id && sim::detail::is_recursive(m))
            ++l.depth;
        else if (l.owner != -1)
            return EBUSY;
        else
            l.owner = sim::t_id, l.depth = 1;
    }
    return SIM_REAL(pthread_mutex_trylock)(m);
}

SIM_RAW int pthread_mutex_unlock(pthread_mutex_t *m)
{
    int const rc = SIM_REAL(pthread_mutex_unlock)(m);
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::unlock(m);
        sim::detail::point();
    }
    return rc;
}

SIM_RAW int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_cond_wait)(c, m);
    return sim::detail::cond_wait(c, m, -1);
}

SIM_RAW int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, struct timespec const *ts)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_cond_timedwait)(c, m, ts);
    return sim::detail::cond_wait(c, m, sim::detail::deadline_of(CLOCK_REALTIME, ts));
}

SIM_RAW int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clock, struct timespec const *ts)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_cond_clockwait)(c, m, clock, ts);
    return sim::detail::cond_wait(c, m, sim::detail::deadline_of(clock, ts));
}

SIM_RAW int pthread_cond_signal(pthread_cond_t *c)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_cond_signal)(c);
    sim::Quiet quiet;
    std::vector<sim::Thread *> waiting;
    for (auto &t : sim::world().threads)
    {
        if (t->wait == sim::Wait::Cond && t->object == c && !t->signalled)
            waiting.push_back(t.get());
    }
    if (!waiting.empty())
        waiting[waiting.size() == 1 ? 0 : sim::world().src->below(waiting.size())]->signalled = true;
    sim::detail::point();
    return 0;
}

SIM_RAW int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_cond_broadcast)(c);
    sim::Quiet quiet;
    for (auto &t : sim::world().threads)
    {
        if (t->wait == sim::Wait::Cond && t->object == c)
            t->signalled = true;
    }
    sim::detail::point();
    return 0;
}

SIM_RAW int pthread_cond_destroy(pthread_cond_t *c)
{
    if (!sim::detail::on())
        return SIM_REAL(pthread_cond_destroy)(c);
    return 0;
}

SIM_RAW int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::block(sim::Wait::Read, m);
        ++sim::world().locks[m].readers;
    }
    return SIM_REAL(pthread_rwlock_rdlock)(m);
}

SIM_RAW int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::block(sim::Wait::Write, m);
        sim::world().locks[m].owner = sim::t_id;
    }
    return SIM_REAL(pthread_rwlock_wrlock)(m);
}

SIM_RAW int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    int const rc = SIM_REAL(pthread_rwlock_unlock)(m);
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::Lock &l = sim::world().locks[m];
        if (l.owner == sim::t_id)
            l.owner = -1;
        else
            --l.readers;
        if (l.owner == -1 && l.readers == 0)
            sim::world().locks.erase(m);
        sim::detail::point();
    }
    return rc;
}

SIM_RAW int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::point();
        sim::Lock &l = sim::world().locks[m];
        if (l.owner != -1)
            return EBUSY;
        ++l.readers;
    }
    return SIM_REAL(pthread_rwlock_tryrdlock)(m);
}

SIM_RAW int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    if (sim::detail::on())
    {
        sim::Quiet quiet;
        sim::detail::point();
        sim::Lock &l = sim::world().locks[m];
        if (l.owner != -1 || l.readers != 0)
            return EBUSY;
        l.owner = sim::t_id;
    }
    return SIM_REAL(pthread_rwlock_trywrlock)(m);
}

#define SIM_TIMED(type, timed, clocked, attempt)                                                   \
    SIM_RAW int timed(type *m, struct timespec const *ts)                                          \
    {                                                                                              \
        if (!sim::detail::on())                                                                    \
            return SIM_REAL(timed)(m, ts);                                                         \
        std::int64_t const deadline = sim::detail::deadline_of(CLOCK_REALTIME, ts);                \
        return sim::detail::until(deadline, [m]() { return attempt(m); });                         \
    }                                                                                              \
    SIM_RAW int clocked(type *m, clockid_t clock, struct timespec const *ts)                       \
    {                                                                                              \
        if (!sim::detail::on())                                                                    \
            return SIM_REAL(clocked)(m, clock, ts);                                                \
        std::int64_t const deadline = sim::detail::deadline_of(clock, ts);                         \
        return sim::detail::until(deadline, [m]() { return attempt(m); });                         \
    }

SIM_TIMED(pthread_mutex_t, pthread_mutex_timedlock, pthread_mutex_clocklock, pthread_mutex_trylock)
SIM_TIMED(pthread_rwlock_t, pthread_rwlock_timedrdlock, pthread_rwlock_clockrdlock, pthread_rwlock_tryrdlock)
SIM_TIMED(pthread_rwlock_t, pthread_rwlock_timedwrlock, pthread_rwlock_clockwrlock, pthread_rwlock_trywrlock)

SIM_RAW int nanosleep(struct timespec const *ts, struct timespec *rest)
{
    if (!sim::detail::on())
        return SIM_REAL(nanosleep)(ts, rest);
    sim::sleep(sim::detail::ns(*ts));
    return 0;
}

SIM_RAW int clock_nanosleep(clockid_t clock, int flags, struct timespec const *ts, struct timespec *rest)
{
    if (!sim::detail::on())
        return SIM_REAL(clock_nanosleep)(clock, flags, ts, rest);
    if (flags & TIMER_ABSTIME)
        sim::sleep(std::max<std::int64_t>(0, sim::detail::deadline_of(clock, ts) - sim::now()));
    else
        sim::sleep(sim::detail::ns(*ts));
    return 0;
}

SIM_RAW int sched_yield() noexcept
{
    if (!sim::detail::on())
        return SIM_REAL(sched_yield)();
    sim::Quiet quiet;
    sim::detail::point(true);
    return 0;
}

SIM_RAW int clock_gettime(clockid_t clock, struct timespec *ts) noexcept
{
    if (!sim::detail::on() || (clock != CLOCK_MONOTONIC && clock != CLOCK_REALTIME))
        return SIM_REAL(clock_gettime)(clock, ts);
    std::int64_t const t = sim::now() + (clock == CLOCK_MONOTONIC ? sim::s_epoch : sim::s_real_epoch);
    ts->tv_sec = t / (1000 * sim::ms);
    ts->tv_nsec = t % (1000 * sim::ms);
    return 0;
}

SIM_RAW long syscall(long number, ...) noexcept
{
    va_list ap;
    va_start(ap, number);
    long a[6];
    for (auto &x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (sim::detail::on() && number == SYS_futex)
    {
        int const op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sim::Quiet quiet;
            auto const *word = reinterpret_cast<std::uint32_t const volatile *>(a[0]);
            std::uint32_t const value = static_cast<std::uint32_t>(a[2]);
            std::int64_t limit = 1000000ll * 1000 * sim::ms;
            if (auto const *ts = reinterpret_cast<struct timespec const *>(a[3]); ts != nullptr)
            {
                clockid_t const clock = (a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC;
                limit = (op == FUTEX_WAIT) ? sim::detail::ns(*ts) : std::max<std::int64_t>(0, sim::detail::deadline_of(clock, ts) - sim::now());
                if (!sim::wait_until([word, value]() { return *word != value; }, limit))
                {
                    errno = ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            sim::wait_until([word, value]() { return *word != value; }, limit);
            return 0;
        }
    }
    return SIM_REAL(syscall)(number, a[0], a[1], a[2], a[3], a[4], a[5]);
}

} // extern "C"
