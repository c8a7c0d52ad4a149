// Y02: times, error strings and backtraces are those of the system; signals reach the handler in force.
//
// "time": the system clock and time zone are drawn; oracle: an independent civil calendar. "errors":
// every kind of error code, with and without naming it, on several threads; oracle: the C library's
// descriptions. "backtrace": generated depths; oracle: the caller's own frames. "signals": histories
// of installing, replacing and removing handlers and of signals which arrive between these, within
// handlers, or while handlers are changed (at any call which changes a disposition); oracle: a model
// of the handler in force.
#include "pbt.hpp"

#include "fly/system/system.hpp"

#include <dlfcn.h>
#include <execinfo.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace pbt;

namespace {

// What the interposed calls do, in the thread of the case.
struct Interposed
{
    bool clock {false};
    std::int64_t seconds {0};
    std::int64_t nanoseconds {0};
    bool no_local_time {false};
    std::function<void()> point; // around each change of a disposition
};
thread_local Interposed *t_interposed = nullptr;

template <typename F>
F real(char const *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void point()
{
    if (t_interposed && t_interposed->point)
        t_interposed->point();
}

} // namespace

extern "C" {

int clock_gettime(clockid_t clock, struct timespec *ts) noexcept
{
    static auto const original = real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
    if (!t_interposed || !t_interposed->clock || (clock != CLOCK_REALTIME && clock != CLOCK_REALTIME_COARSE))
        return original(clock, ts);
    ts->tv_sec = t_interposed->seconds;
    ts->tv_nsec = t_interposed->nanoseconds;
    return 0;
}

struct tm *localtime_r(time_t const *when, struct tm *out) noexcept
{
    static auto const original = real<struct tm *(*)(time_t const *, struct tm *)>("localtime_r");
    if (t_interposed && t_interposed->no_local_time)
    {
        errno = EOVERFLOW;
        return nullptr;
    }
    return original(when, out);
}

sighandler_t signal(int number, sighandler_t handler) noexcept
{
    static auto const original = real<sighandler_t (*)(int, sighandler_t)>("signal");
    point();
    auto const r = original(number, handler);
    point();
    return r;
}

int sigaction(int number, struct sigaction const *action, struct sigaction *old) noexcept
{
    static auto const original = real<int (*)(int, struct sigaction const *, struct sigaction *)>("sigaction");
    if (!action)
        return original(number, action, old);
    point();
    auto const r = original(number, action, old);
    point();
    return r;
}

} // extern "C"

namespace {

// --------------------------------------------------------------------------------------------
// time

// Days since 1970-01-01 to a date of the Gregorian calendar, by counting.
void civil(std::int64_t days, int &year, unsigned &month, unsigned &day)
{
    auto const leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    year = 1970;
    for (; days < 0; days += leap(year) ? 366 : 365)
        --year;
    for (; days >= (leap(year) ? 366 : 365); ++year)
        days -= leap(year) ? 366 : 365;
    unsigned const length[] = {31, leap(year) ? 29u : 28u, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (month = 0; days >= length[month]; ++month)
        days -= length[month];
    ++month;
    day = static_cast<unsigned>(days) + 1;
}

void times(Src &src)
{
    Interposed i;
    i.clock = true;
    // 1900 to 2260: what a clock of 64 bits of nanoseconds can say.
    switch (src.below(4))
    {
        case 0: i.seconds = static_cast<std::int64_t>(src.below(4'000'000'000ull)); break;
        case 1: i.seconds = static_cast<std::int64_t>(src.below(11'400'000'000ull)) - 2'208'000'000; break;
        case 2: // around a new year, a leap day, an overflow
            i.seconds = src.pick({std::int64_t {0}, std::int64_t {951782400}, std::int64_t {951868800}, std::int64_t {1709164800}, std::int64_t {2147483648}, std::int64_t {4294967296}, std::int64_t {4107542400}, std::int64_t {1735689600}}) +
                static_cast<std::int64_t>(src.below(5)) - 2;
            break;
        default: i.seconds = static_cast<std::int64_t>(src.below(106'000)) * 86400 + src.pick({std::int64_t {0}, std::int64_t {-1}, std::int64_t {43199}, std::int64_t {3599}}); break;
    }
    i.nanoseconds = static_cast<std::int64_t>(src.below(2) ? 999'999'999 : src.below(1'000'000'000));
    // Before 1970 the truncation of fractions is up to the standard library.
    if (i.seconds < 0)
        i.nanoseconds = 0;
    int const offset = static_cast<int>(src.below(24 * 60 + 14 * 60)) - 24 * 60 + 1; // minutes west
    std::string const zone = strf("XYZ%s%d:%02d", offset < 0 ? "-" : "", std::abs(offset) / 60, std::abs(offset) % 60);
    i.no_local_time = src.chance(1, 20);
    ::setenv("TZ", zone.c_str(), 1);
    ::tzset();

    t_interposed = &i;
    std::string const got = fly::system::local_time();
    t_interposed = nullptr;

    std::int64_t const local = i.seconds - offset * 60;
    std::int64_t days = local / 86400, rest = local % 86400;
    if (rest < 0)
        rest += 86400, --days;
    int year;
    unsigned month, day;
    civil(days, year, month, day);
    std::string const want = i.no_local_time ? "" :
        strf("%02u-%02u-%d %02d:%02d:%02d", month, day, year, static_cast<int>(rest / 3600), static_cast<int>(rest / 60 % 60), static_cast<int>(rest % 60));
    src.note(strf("%lld in %s", static_cast<long long>(i.seconds), zone.c_str()));
    PBT_CHECK(got == want, "the local time is %s instead of %s: %lld in %s", show(got).c_str(), show(want).c_str(), static_cast<long long>(i.seconds), zone.c_str());
    if (!i.no_local_time)
        src.nontrivial();
}

// --------------------------------------------------------------------------------------------
// errors

std::string described(int code)
{
    char const *const d = ::strerrordesc_np(code);
    return strf("(%d) ", code) + (d ? std::string(d) : strf("Unknown error %d", code));
}

void errors(Src &src)
{
    std::size_t const n = 1 + src.below(3);
    std::vector<int> codes;
    std::string history;
    for (std::size_t i = 0; i < n; ++i)
    {
        codes.push_back(src.chance(3, 4) ? static_cast<int>(src.below(140)) : static_cast<int>(src.interesting()));
        history += strf(" %d", codes.back());
    }
    src.note(history);
    auto const one = [&](int code) {
        errno = code;
        int const got = fly::system::get_error_code();
        PBT_CHECK(got == code, "the error code is %d instead of %d", got, code);
        errno = code;
        std::string const last = fly::system::get_error_string();
        PBT_CHECK(last == described(code), "the last error is %s instead of %s", show(last).c_str(), show(described(code)).c_str());
        errno = code == 5 ? 6 : 5;
        std::string const named = fly::system::get_error_string(code);
        PBT_CHECK(named == described(code), "error %d is %s instead of %s", code, show(named).c_str(), show(described(code)).c_str());
    };
    for (int code : codes)
        one(code);
    if (src.chance(1, 8))
    {
        // The last error is that of the calling thread.
        int const here = codes[0], there = here == 1 ? 2 : 1;
        errno = here;
        std::string other;
        std::thread([&] {
            errno = there;
            other = fly::system::get_error_string();
        }).join();
        PBT_CHECK(other == described(there), "another thread's last error is %s instead of %s", show(other).c_str(), show(described(there)).c_str());
    }
    src.nontrivial();
}

// --------------------------------------------------------------------------------------------
// backtrace

struct Descriptor
{
    int const original, saved, file;
    explicit Descriptor(int fd) : original(fd), saved(dup(fd)), file(memfd_create("captured", MFD_CLOEXEC)) { dup2(file, fd); }
    ~Descriptor()
    {
        dup2(saved, original);
        ::close(saved);
        ::close(file);
    }
    std::string text() const
    {
        std::string s(static_cast<std::size_t>(lseek(file, 0, SEEK_END)), '\0');
        if (pread(file, s.data(), s.size(), 0) != static_cast<ssize_t>(s.size()))
            s = "(cannot be read)";
        return s;
    }
};

struct Trace
{
    void *frames[64];
    int count {0};
    std::string out, err;
};

[[gnu::noinline]] void descend(unsigned depth, Trace &trace)
{
    if (depth == 0)
    {
        Descriptor out(1), err(2);
        trace.count = ::backtrace(trace.frames, 64);
        fly::system::print_backtrace();
        trace.out = out.text();
        trace.err = err.text();
    }
    else
    {
        descend(depth - 1, trace);
    }
    asm volatile("" ::: "memory");
}

void backtraces(Src &src)
{
    unsigned const depth = static_cast<unsigned>(src.below(20));
    auto const trace = std::make_unique<Trace>();
    descend(depth, *trace);
    src.note(strf("depth %u, %d frames", depth, trace->count));
    PBT_CHECK(trace->out.empty(), "a backtrace is written to standard output: %s", show(trace->out).c_str());
    std::vector<std::uint64_t> printed;
    for (std::size_t at = trace->err.find("[0x"); at != std::string::npos; at = trace->err.find("[0x", at + 1))
        printed.push_back(std::stoull(trace->err.substr(at + 1), nullptr, 16));
    // The frames of the callers, behind those of the implementation and of the function which makes it.
    std::size_t first = printed.size(), caller = 0;
    for (; caller < 5 && first == printed.size(); ++caller)
        first = static_cast<std::size_t>(std::find(printed.begin(), printed.end(), reinterpret_cast<std::uint64_t>(trace->frames[caller])) - printed.begin());
    --caller;
    // (A sanitizer's own frame may be common to both.)
    if (first == 0 && caller == 0)
    {
        for (caller = 1, first = printed.size(); caller < 5 && first == printed.size(); ++caller)
            first = static_cast<std::size_t>(std::find(printed.begin(), printed.end(), reinterpret_cast<std::uint64_t>(trace->frames[caller])) - printed.begin());
        --caller;
    }
    PBT_CHECK(first < printed.size() && first <= 5, "the backtrace does not have the caller's frame: %s", show(trace->err, 2000).c_str());
    for (std::size_t i = first; i < printed.size(); ++i)
    {
        std::size_t const j = i - first + caller;
        PBT_CHECK(j < static_cast<std::size_t>(trace->count) && printed[i] == reinterpret_cast<std::uint64_t>(trace->frames[j]), "frame %zu of the backtrace is another than the caller's: %s", i, show(trace->err, 2000).c_str());
    }
    PBT_CHECK(printed.size() >= std::min<std::size_t>(5, static_cast<std::size_t>(trace->count)), "the backtrace has only %zu frames: %s", printed.size(), show(trace->err, 2000).c_str());
    PBT_CHECK(trace->err.ends_with("\n"), "the backtrace does not end with its line: %s", show(trace->err, 2000).c_str());
    src.nontrivial();
}

// --------------------------------------------------------------------------------------------
// signals

constexpr int s_terminal[] = {SIGINT, SIGTERM, SIGILL, SIGFPE, SIGABRT, SIGSEGV, SIGSYS, SIGBUS};
constexpr int s_others[] = {SIGUSR1, SIGUSR2, SIGHUP, SIGALRM, SIGPIPE, SIGCHLD};

struct Call
{
    unsigned handler;
    int signal;
};

struct Signals
{
    Src *src {nullptr};
    std::vector<Call> calls;
    std::vector<std::weak_ptr<int>> tokens; // one per handler which was made
    unsigned current {0};                  // 0: none
    unsigned next {0};                     // what it is being changed to
    bool changing {false};
    unsigned depth {0};
    unsigned raised_changing {0}, raised_nested {0}, raised {0}, others {0};
    std::string history;
};
Signals *s_signals = nullptr;

void other_handler(int)
{
    ++s_signals->others;
}

bool handled(int number)
{
    struct sigaction now {};
    ::sigaction(number, nullptr, &now);
    return !(now.sa_flags & SA_SIGINFO) && now.sa_handler != SIG_DFL && now.sa_handler != SIG_IGN;
}

// Raises a signal, if it is not fatal, and checks who was told.
void raise_one(Signals &s)
{
    int const number = s_terminal[s.src->below(8)];
    if (!handled(number))
    {
        PBT_CHECK(s.changing || s.current == 0, "signal %d has no handler: %s", number, s.history.c_str());
        return;
    }
    PBT_CHECK(s.changing || s.current != 0, "signal %d has a handler after its removal: %s", number, s.history.c_str());
    sigset_t blocked;
    ::pthread_sigmask(SIG_BLOCK, nullptr, &blocked);
    if (sigismember(&blocked, number))
        return; // it is being handled
    std::size_t const before = s.calls.size();
    s.history += strf(" raise %d%s%s", number, s.changing ? " (changing)" : "", s.depth ? " (nested)" : "");
    ++s.raised;
    s.raised_changing += s.changing;
    s.raised_nested += s.depth > 0;
    ::raise(number);
    PBT_CHECK(s.calls.size() > before, "signal %d was not handled: %s", number, s.history.c_str());
    // Signals which were raised within the handler are behind it.
    Call const &c = s.calls[before];
    PBT_CHECK(c.signal == number, "signal %d was handled as %d: %s", number, c.signal, s.history.c_str());
    PBT_CHECK(c.handler == s.current || (s.changing && c.handler == s.next), "signal %d was handled by handler %u: %s", number, c.handler, s.history.c_str());
    if (s.depth == 0)
    {
        std::size_t told = 0;
        for (std::size_t i = before; i < s.calls.size(); ++i)
            told += s.calls[i].signal == number;
        PBT_CHECK(told == 1, "signal %d was handled %zu times: %s", number, told, s.history.c_str());
    }
}

void handle(unsigned id, int number)
{
    Signals &s = *s_signals;
    s.calls.push_back({id, number});
    ++s.depth;
    if (s.depth < 3 && s.src->chance(1, 4))
        raise_one(s);
    --s.depth;
}

void plain_1(int number)
{
    handle(1, number);
}
void plain_2(int number)
{
    handle(2, number);
}

struct Member
{
    unsigned id;
    std::shared_ptr<int> token;
    char size[100];
    void called(int number) { handle(id, number); }
};

void signals(Src &src)
{
    struct sigaction saved[NSIG] {};
    for (int number : s_terminal)
        ::sigaction(number, nullptr, &saved[number]);
    Signals s;
    s.src = &src;
    s_signals = &s;
    for (int number : s_others)
    {
        ::sigaction(number, nullptr, &saved[number]);
        struct sigaction a {};
        a.sa_handler = other_handler;
        ::sigaction(number, &a, nullptr);
    }
    Interposed interposed;
    interposed.point = [&] {
        if (src.chance(1, 12))
            raise_one(s);
    };
    struct Restore
    {
        struct sigaction (&saved)[NSIG];
        ~Restore()
        {
            t_interposed = nullptr;
            fly::system::set_signal_handler(nullptr);
            s_signals = nullptr;
            for (int number : s_terminal)
                ::sigaction(number, &saved[number], nullptr);
            for (int number : s_others)
                ::sigaction(number, &saved[number], nullptr);
        }
    } restore {saved};

    fly::system::set_signal_handler(nullptr);
    unsigned ids = 2;
    std::size_t const n = src.length(12);
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (src.below(6))
        {
            case 0:
            case 1:
            {
                fly::system::SignalHandler handler;
                std::weak_ptr<int> token;
                bool const plain = src.chance(1, 4);
                if (plain)
                {
                    s.next = src.flip() ? 1 : 2;
                    handler = s.next == 1 ? plain_1 : plain_2;
                }
                else
                {
                    s.next = ++ids;
                    auto const owned = std::make_shared<int>(0);
                    token = owned;
                    unsigned const id = s.next;
                    switch (src.below(3))
                    {
                        case 0: handler = [owned, id](int number) { handle(id, number); }; break;
                        case 1: handler = std::bind(&Member::called, Member {id, owned, {}}, std::placeholders::_1); break;
                        default: handler = [member = Member {id, owned, {}}](int number) mutable { member.called(number); }; break;
                    }
                }
                s.history += strf("; set %u", s.next);
                bool const moved = src.flip();
                auto const old = s.tokens;
                s.changing = true;
                t_interposed = &interposed;
                if (moved)
                    fly::system::set_signal_handler(std::move(handler));
                else
                    fly::system::set_signal_handler(handler);
                t_interposed = nullptr;
                s.changing = false;
                s.current = s.next;
                handler = nullptr;
                for (auto const &t : old)
                    PBT_CHECK(t.expired(), "a handler which was replaced is still held: %s", s.history.c_str());
                s.tokens.clear();
                if (!plain)
                {
                    PBT_CHECK(!token.expired(), "the handler is not held: %s", s.history.c_str());
                    s.tokens.push_back(token);
                }
                for (int number : s_terminal)
                    PBT_CHECK(handled(number), "signal %d is not handled: %s", number, s.history.c_str());
                break;
            }
            case 2:
                s.history += "; remove";
                s.next = 0;
                s.changing = true;
                t_interposed = &interposed;
                if (src.flip())
                    fly::system::set_signal_handler(nullptr);
                else
                    fly::system::set_signal_handler(fly::system::SignalHandler {});
                t_interposed = nullptr;
                s.changing = false;
                s.current = 0;
                for (int number : s_terminal)
                {
                    struct sigaction now {};
                    ::sigaction(number, nullptr, &now);
                    PBT_CHECK(now.sa_handler == SIG_DFL, "signal %d has not got its default disposition back: %s", number, s.history.c_str());
                }
                for (auto const &t : s.tokens)
                    PBT_CHECK(t.expired(), "a handler which was removed is still held: %s", s.history.c_str());
                s.tokens.clear();
                break;
            case 3:
            {
                int const number = s_others[src.below(std::size(s_others))];
                unsigned const before = s.others;
                std::size_t const calls = s.calls.size();
                s.history += strf("; other %d", number);
                ::raise(number);
                PBT_CHECK(s.others == before + 1 && s.calls.size() == calls, "signal %d, which is not a terminal one, did not reach its own handler: %s", number, s.history.c_str());
                break;
            }
            default:
                s.history += ";";
                raise_one(s);
                break;
        }
    }
    src.note(s.history);
    if (s.raised > 1 && ids > 3)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    Options o;
    o.property = "Y02";
    o.rule = "time: a system time (1900-2260, boundaries), a time zone of -14 to 24 hours west, sometimes no local time; errors: 1-3 error codes (known, unknown, any integer), named or last, on two threads; backtrace: 0-20 frames above the caller; "
             "signals: up to 12 operations (set a function, lambda or bound member, remove, raise one of the 8 terminal signals or another), with signals within handlers and at every call that changes a disposition. "
             "Non-trivial (signals): at least two handlers with state and two signals handled. Oracle: a calendar of its own, descriptions of the C library, the caller's frames, a model of the handler in force.";
    o.targets = {
        {"time", times, 400000, 8000000},
        {"errors", errors, 200000, 3000000},
        {"backtrace", backtraces, 20000, 200000},
        {"signals", signals, 200000, 3000000},
    };
    return pbt::main(argc, argv, o);
}
