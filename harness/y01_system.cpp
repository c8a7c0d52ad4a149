// Y01: the system monitor reports what the kernel says.
//
// The kernel's answers (/proc/stat, /proc/self/status, times, sysinfo) are generated: any number of
// processors that come and go, counters of any size that stand still or go back, files that cannot
// be opened, read or understood, and calls that fail. They change between polls, which run in the
// simulation of sim.hpp, with readers on other threads, and monitors that are dropped and made.
// Oracle: a model of each value over the samples which the kernel gave, the virtual time, and the
// documented range of percentages.
#include "quiet.hpp"
#include "scratch.hpp"
#include "sim.hpp"

#include "fly/system/system_config.hpp"
#include "fly/system/system_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <cmath>
#include <sys/sysinfo.h>
#include <sys/times.h>

using namespace pbt;

namespace {

struct Counters
{
    std::uint64_t user {0}, nice {0}, system {0}, idle {0};
};

// How a file is given.
enum class File
{
    Good,
    Missing,
    Broken, // opens, but cannot be read
    Empty,
    Strange, // without the line which is looked for
};

struct Kernel
{
    File stat_file {File::Good}, status_file {File::Good};
    bool times_fails {false}, sysinfo_fails {false};
    std::vector<std::size_t> cpus; // their numbers
    Counters counters;
    std::uint64_t rss {0}; // kB
    std::uint64_t total {0}, free {0}, unit {1};
    unsigned busy {0}; // per cent of all processors
    clock_t origin {0};
    clock_t user_time {0}, system_time {0}, sampled {0};

    // what was asked
    std::uint64_t stats {0}, statuses {0}, times {0}, sysinfos {0};
    struct Sample
    {
        bool failed;
        clock_t now, busy;
        std::int64_t at;
    };
    std::vector<Sample> samples;
};

Kernel *s_kernel = nullptr;

std::string stat_text(Kernel const &k)
{
    if (k.stat_file == File::Empty)
        return "";
    if (k.stat_file == File::Strange)
        return "intr 0 0\nctxt 17\n";
    auto const &c = k.counters;
    auto line = [&](std::string const &name, std::uint64_t d) {
        return strf("%s %llu %llu %llu %llu 7 0 3 0 0 0\n", name.c_str(), static_cast<unsigned long long>(c.user / d), static_cast<unsigned long long>(c.nice / d),
            static_cast<unsigned long long>(c.system / d), static_cast<unsigned long long>(c.idle / d));
    };
    std::string s = line("cpu ", 1);
    for (auto const n : k.cpus)
        s += line("cpu" + std::to_string(n), k.cpus.size());
    return s + "intr 5 0 1 cpu\nctxt 8\nbtime 1\nprocesses 4\nprocs_running 1\nsoftirq 1 2 3\n";
}

std::string status_text(Kernel const &k)
{
    if (k.status_file == File::Empty)
        return "";
    std::string s = "Name:\tVmRSS\nUmask:\t0022\nState:\tR (running)\nPid:\t17\nVmPeak:\t  999999 kB\nVmHWM:\t  888888 kB\n";
    if (k.status_file == File::Good)
        s += strf("VmRSS:\t%8llu kB\n", static_cast<unsigned long long>(k.rss));
    return s + "RssAnon:\t 12345 kB\nVmData:\t 54321 kB\nThreads:\t3\n";
}

// A descriptor for one of the files; -1 if it is not one of them, -2 if it cannot be opened.
int open_file(char const *path)
{
    if (s_kernel == nullptr || path == nullptr)
        return -1;
    bool const stat = std::strcmp(path, "/proc/stat") == 0;
    if (!stat && std::strcmp(path, "/proc/self/status") != 0)
        return -1;
    sim::Quiet quiet;
    ++(stat ? s_kernel->stats : s_kernel->statuses);
    File const how = stat ? s_kernel->stat_file : s_kernel->status_file;
    if (how == File::Missing)
        return -2;
    if (how == File::Broken)
        return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, "/", O_RDONLY | O_CLOEXEC));
    int const fd = memfd_create("kernel", MFD_CLOEXEC);
    std::string const text = stat ? stat_text(*s_kernel) : status_text(*s_kernel);
    if (fd < 0 || ::write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size()) || ::lseek(fd, 0, SEEK_SET) != 0)
        std::abort();
    return fd;
}

template <typename F, typename... Args>
int interposed_open(F real, char const *path, int flags, Args... args)
{
    int const fd = open_file(path);
    if (fd >= 0)
        return fd;
    if (fd == -2)
    {
        errno = ENOENT;
        return -1;
    }
    return real(path, flags, args...);
}

template <typename F>
FILE *interposed_fopen(F real, char const *path, char const *mode)
{
    int const fd = open_file(path);
    if (fd >= 0)
        return fdopen(fd, mode);
    if (fd == -2)
    {
        errno = ENOENT;
        return nullptr;
    }
    return real(path, mode);
}

} // namespace

extern "C" {

FILE *fopen(char const *path, char const *mode)
{
    return interposed_fopen(SIM_REAL(fopen), path, mode);
}
FILE *fopen64(char const *path, char const *mode)
{
    return interposed_fopen(SIM_REAL(fopen64), path, mode);
}
int open(char const *path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t const mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return interposed_open(SIM_REAL(open), path, flags, mode);
}
int open64(char const *path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    mode_t const mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return interposed_open(SIM_REAL(open64), path, flags, mode);
}

clock_t times(struct tms *sample) noexcept
{
    if (s_kernel == nullptr)
        return SIM_REAL(times)(sample);
    sim::Quiet quiet;
    Kernel &k = *s_kernel;
    clock_t const now = k.origin + static_cast<clock_t>(sim::now() / (10 * sim::ms));
    clock_t const used = static_cast<clock_t>(static_cast<std::uint64_t>(now - k.sampled) * k.cpus.size() * k.busy / 100);
    k.sampled = now;
    k.user_time += used - used / 3;
    k.system_time += used / 3;
    ++k.times;
    k.samples.push_back({k.times_fails, now, k.user_time + k.system_time, sim::now()});
    if (k.times_fails)
    {
        errno = EFAULT;
        return static_cast<clock_t>(-1);
    }
    sample->tms_utime = k.user_time;
    sample->tms_stime = k.system_time;
    sample->tms_cutime = 77777777;
    sample->tms_cstime = 88888888;
    return now;
}

int sysinfo(struct sysinfo *info) noexcept
{
    if (s_kernel == nullptr)
        return SIM_REAL(sysinfo)(info);
    sim::Quiet quiet;
    Kernel &k = *s_kernel;
    ++k.sysinfos;
    if (k.sysinfo_fails)
    {
        errno = EFAULT;
        return -1;
    }
    std::memset(info, 0, sizeof(*info));
    info->totalram = k.total;
    info->freeram = k.free;
    info->mem_unit = static_cast<unsigned>(k.unit);
    info->bufferram = 3;
    info->sharedram = 5;
    info->totalswap = 7;
    info->freeswap = 2;
    info->procs = 9;
    return 0;
}

} // extern "C"

namespace {

struct Config : fly::system::SystemConfig
{
    std::chrono::milliseconds interval;
    std::chrono::milliseconds poll_interval() const override { return interval; }
};

// What a monitor should say.
struct Model
{
    std::uint32_t cpus {0};
    double system {0}, process {0};
    std::uint64_t total {0}, used {0}, rss {0};
    Counters before;
    clock_t before_now {0}, before_busy {0};
    std::size_t samples {0}; // seen

    static bool counted(Kernel const &k) { return k.stat_file == File::Good && !k.cpus.empty(); }

    // The kernel was polled, once or more often, in this state.
    void polled(Kernel const &k)
    {
        if (counted(k))
            cpus = static_cast<std::uint32_t>(k.cpus.size());
        if (k.stat_file == File::Good)
        {
            auto const &c = k.counters;
            if (c.user >= before.user && c.nice >= before.nice && c.system >= before.system && c.idle >= before.idle)
            {
                auto const active = static_cast<long double>((c.user - before.user) + (c.nice - before.nice) + (c.system - before.system));
                auto const all = active + static_cast<long double>(c.idle - before.idle);
                if (all > 0)
                    system = static_cast<double>(100 * active / all);
            }
            before = c;
        }
        for (; samples < k.samples.size(); ++samples)
        {
            auto const &s = k.samples[samples];
            if (s.failed)
                continue;
            if (s.now > before_now)
                process = static_cast<double>(100.0L * static_cast<long double>(s.busy - before_busy) / static_cast<long double>(s.now - before_now) / cpus);
            before_now = s.now;
            before_busy = s.busy;
        }
        if (!k.sysinfo_fails)
        {
            total = k.total * k.unit;
            used = (k.total - k.free) * k.unit;
        }
        if (k.status_file == File::Good)
            rss = k.rss * 1024;
    }
};

bool near(double a, double b)
{
    return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}

File draw_file(Src &src)
{
    return src.chance(1, 4) ? src.pick({File::Missing, File::Broken, File::Empty, File::Strange}) : File::Good;
}

void change(Src &src, Kernel &k, bool first)
{
    k.stat_file = draw_file(src);
    k.status_file = draw_file(src);
    k.times_fails = src.chance(1, 6);
    k.sysinfo_fails = src.chance(1, 6);
    if (first || src.chance(1, 5))
    {
        k.cpus.clear();
        std::size_t const n = src.chance(1, 8) ? 1 + src.below(400) : 1 + src.below(8);
        std::size_t number = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            number += src.chance(1, 6) ? 1 + src.below(3) : 0; // one that is offline
            k.cpus.push_back(number++);
        }
    }
    auto step = [&](std::uint64_t &c) {
        switch (src.weighted({4, 4, 2, 1, first ? 3u : 0u}))
        {
            case 0: break;
            case 1: c += src.below(1000); break;
            case 2: c += src.below(1u << 30); break;
            case 3: c -= std::min<std::uint64_t>(c, src.below(50)); break;
            default: c = src.u64() >> (4 + src.below(60)); break;
        }
    };
    if (first || !src.chance(1, 6))
    {
        step(k.counters.user);
        step(k.counters.nice);
        step(k.counters.system);
        step(k.counters.idle);
    }
    k.busy = static_cast<unsigned>(src.below(101));
    if (first || src.chance(1, 2))
        k.rss = 1 + (src.chance(1, 3) ? src.u64() >> (12 + src.below(50)) : src.below(1u << 20));
    if (first || src.chance(1, 2))
    {
        k.unit = src.chance(1, 3) ? 1u << src.below(17) : 1;
        k.total = 1 + (src.u64() >> (18 + src.below(40)));
        k.free = src.chance(1, 6) ? k.total : src.below(k.total + 1);
    }
}

std::string show(Kernel const &k)
{
    static char const *const s_files[] = {"", " missing", " broken", " empty", " strange"};
    return strf("[stat%s cpus %zu %llu/%llu/%llu/%llu, times%s busy %u%%, memory%s %llu of %llu * %llu, status%s %llu]", s_files[static_cast<int>(k.stat_file)], k.cpus.size(),
        static_cast<unsigned long long>(k.counters.user), static_cast<unsigned long long>(k.counters.nice), static_cast<unsigned long long>(k.counters.system), static_cast<unsigned long long>(k.counters.idle),
        k.times_fails ? " fails" : "", k.busy, k.sysinfo_fails ? " fails" : "", static_cast<unsigned long long>(k.free), static_cast<unsigned long long>(k.total), static_cast<unsigned long long>(k.unit),
        s_files[static_cast<int>(k.status_file)], static_cast<unsigned long long>(k.rss));
}

void polls(Src &src)
{
    quiet_logger();
    auto const workers = static_cast<unsigned>(1 + src.below(3));
    auto config = std::make_shared<Config>();
    config->interval = std::chrono::milliseconds(src.chance(1, 3) ? 10 + src.below(20) : 50 + src.below(3000));
    std::int64_t const interval = config->interval.count() * sim::ms;
    std::size_t const steps = 1 + src.below(8);
    std::size_t const readers = src.below(3);
    Kernel kernel;
    kernel.origin = static_cast<clock_t>(1 + (src.u64() >> (3 + src.below(50))));
    kernel.sampled = kernel.origin;
    change(src, kernel, true);
    std::string history = strf("%u workers, every %lld ms ", workers, static_cast<long long>(config->interval.count())) + show(kernel);
    unsigned changes = 0, oddities = 0;
    std::set<std::uint64_t> sizes {0};
    sim::run(src, [&]() {
        {
            sim::Quiet quiet;
            kernel.sampled += static_cast<clock_t>(sim::now() / (10 * sim::ms));
            s_kernel = &kernel;
            sizes.insert(kernel.rss * 1024);
        }
        auto manager = fly::task::TaskManager::create(workers);
        auto runner = fly::task::SequencedTaskRunner::create(manager);
        // Runs the function between two polls.
        auto between = [&](std::function<void()> f) {
            std::atomic<bool> done {false};
            runner->post_task(FROM_HERE, [&]() {
                f();
                done.store(true);
            });
            sim::wait_until([&]() { return done.load(); }, 3600000 * sim::ms);
            if (!done.load()) // which also makes the task's effects visible here
                SIM_FAIL("a task on the monitor's sequence never ran: %s", history.c_str());
        };
        for (std::size_t life = 0; life < 3; ++life)
        {
            Model model;
            {
                sim::Quiet quiet;
                model.samples = kernel.samples.size();
            }
            auto monitor = fly::system::SystemMonitor::create(runner, config);
            {
                sim::Quiet quiet;
                bool const expected = Model::counted(kernel);
                if ((monitor != nullptr) != expected)
                    SIM_FAIL("create() %s a monitor: %s", monitor ? "made" : "did not make", history.c_str());
            }
            if (monitor)
            {
                {
                    sim::Quiet quiet;
                    if (monitor->get_system_cpu_count() != kernel.cpus.size())
                        SIM_FAIL("%u processors after creation: %s", monitor->get_system_cpu_count(), history.c_str());
                    model.cpus = static_cast<std::uint32_t>(kernel.cpus.size());
                }
                std::atomic<bool> stop {false};
                std::vector<std::thread> threads;
                for (std::size_t r = 0; r < readers; ++r)
                {
                    threads.emplace_back([&]() {
                        while (!stop.load())
                        {
                            double const system = monitor->get_system_cpu_usage();
                            double const process = monitor->get_process_cpu_usage();
                            std::uint64_t const rss = monitor->get_process_memory_usage();
                            std::uint32_t const cpus = monitor->get_system_cpu_count();
                            {
                                sim::Quiet quiet;
                                if (!(system >= 0 && system <= 100 * (1 + 1e-12)))
                                    SIM_FAIL("a system usage of %g%%: %s", system, history.c_str());
                                if (!(process >= 0 && std::isfinite(process)))
                                    SIM_FAIL("a process usage of %g%%: %s", process, history.c_str());
                                if (sizes.count(rss) == 0 || cpus == 0)
                                    SIM_FAIL("a process memory of %llu, %u processors: %s", static_cast<unsigned long long>(rss), cpus, history.c_str());
                            }
                            std::this_thread::sleep_for(config->interval / 3);
                        }
                    });
                }
                for (std::size_t step = 0; step <= steps; ++step)
                {
                    std::uint64_t stats = 0, statuses = 0, times = 0, sysinfos = 0;
                    between([&]() {
                        sim::Quiet quiet;
                        if (step != 0)
                        {
                            // nothing was polled since the last check but in the state that was
                            if (kernel.times != 0)
                                model.polled(kernel);
                            change(src, kernel, false);
                            sizes.insert(kernel.rss * 1024);
                            history += " " + show(kernel);
                            ++changes;
                            oddities += kernel.stat_file != File::Good || kernel.status_file != File::Good || kernel.times_fails || kernel.sysinfo_fails;
                        }
                        stats = kernel.stats;
                        statuses = kernel.statuses;
                        times = kernel.times;
                        sysinfos = kernel.sysinfos;
                    });
                    std::uint64_t const rounds = src.chance(1, 4) ? 1 + src.below(3) : 1;
                    if (!sim::wait_until(
                            [&]() { return kernel.stats >= stats + rounds && kernel.statuses >= statuses + rounds && kernel.times >= times + rounds && kernel.sysinfos >= sysinfos + rounds; }, 1000 * interval + 60000 * sim::ms))
                        SIM_FAIL("the system was not polled again: %s", history.c_str());
                    between([&]() {
                        sim::Quiet quiet;
                        std::uint32_t const old = model.cpus;
                        Model other = model;
                        model.polled(kernel);
                        double const process = monitor->get_process_cpu_usage();
                        other.cpus = old;
                        if (monitor->get_system_cpu_count() != model.cpus)
                            SIM_FAIL("%u processors instead of %u: %s", monitor->get_system_cpu_count(), model.cpus, history.c_str());
                        if (!near(monitor->get_system_cpu_usage(), model.system))
                            SIM_FAIL("a system usage of %.17g%% instead of %.17g%%: %s", monitor->get_system_cpu_usage(), model.system, history.c_str());
                        // with the number of processors before or after it changed
                        double const scaled = old ? model.process * model.cpus / old : model.process;
                        if (!near(process, model.process) && !near(process, scaled))
                            SIM_FAIL("a process usage of %.17g%% instead of %.17g%%: %s", process, model.process, history.c_str());
                        if (monitor->get_total_system_memory() != model.total || monitor->get_system_memory_usage() != model.used)
                            SIM_FAIL("memory %llu of %llu instead of %llu of %llu: %s", static_cast<unsigned long long>(monitor->get_system_memory_usage()), static_cast<unsigned long long>(monitor->get_total_system_memory()),
                                static_cast<unsigned long long>(model.used), static_cast<unsigned long long>(model.total), history.c_str());
                        if (monitor->get_process_memory_usage() != model.rss)
                            SIM_FAIL("a process memory of %llu instead of %llu: %s", static_cast<unsigned long long>(monitor->get_process_memory_usage()), static_cast<unsigned long long>(model.rss), history.c_str());
                    });
                }
                stop.store(true);
                for (auto &t : threads)
                    t.join();
                // A monitor which is gone polls no more.
                monitor.reset();
                std::uint64_t asked = 0;
                between([&]() {
                    sim::Quiet quiet;
                    asked = kernel.times + kernel.stats;
                });
                sim::sleep(5 * interval + 100 * sim::ms);
                sim::Quiet quiet;
                if (kernel.times + kernel.stats != asked)
                    SIM_FAIL("the system is polled for a monitor which is gone: %s", history.c_str());
                history += " dropped";
            }
            else
            {
                sim::Quiet quiet;
                kernel.stat_file = File::Good;
                history += " repaired";
            }
            if (!src.chance(1, 2))
                break;
        }
        manager->stop();
    });
    s_kernel = nullptr;
    for (std::size_t i = 1; i < kernel.samples.size(); ++i)
        PBT_CHECK(kernel.samples[i].at - kernel.samples[i - 1].at >= interval, "polled again after %lld ns: %s", static_cast<long long>(kernel.samples[i].at - kernel.samples[i - 1].at), history.c_str());
    src.note(history);
    if (oddities)
        src.label("a file or call that fails");
    if (readers)
        src.label("readers");
    if (changes >= 2)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    Options o;
    o.property = "Y01";
    o.rule = "1-3 monitors one after another, each polled in 1-9 states of a generated kernel: 1-400 processors with gaps, counters up to 2^60 that grow, stand still or go back, memory sizes and units, "
             "files that are missing, unreadable, empty or strange, calls that fail; up to two reading threads; generated schedules and virtual time. Non-trivial: at least two changes of the kernel's state. "
             "Oracle: a model of each value over the samples given, ranges of percentages, poll times in virtual time.";
    o.targets = {{"polls", polls, 1500, 60000}};
    return pbt::main(argc, argv, o);
}
