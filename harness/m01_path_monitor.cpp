// M01: path monitors report the monitored changes and nothing else.
//
// Real directories and inotify below a scratch directory; the polling thread runs in the simulation
// of sim.hpp, so that its interleaving with the case's operations and the time are generated.
// "history": one thread changes files and adds and removes monitored paths and files, for one or two
// monitors; a model knows which handler is in force when. "threads": several threads add and remove
// their own files (and make and drop monitors) while another one changes files.
// Oracle: every change made while a handler is in force until everything was delivered is reported
// to it once (repeated modifications may be merged), in order; every report is that of a change, in
// order, to the handler in force, and none comes after its removal.
#include "sim_io.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/path/path_config.hpp"
#include "fly/path/path_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include "quiet.hpp"
#include "scratch.hpp"

#include <fcntl.h>
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <thread>

using namespace pbt;
using fly::path::PathEvent;
using fly::path::PathMonitor;
namespace fs = std::filesystem;

namespace {

struct Config : fly::path::PathConfig
{
    explicit Config(std::chrono::milliseconds::rep interval) { m_default_poll_interval = interval; }
};

// One has the longest name that there can be.
std::vector<std::string> const s_files = {"f", "a file", ".hidden", "f.txt" + std::string(250, 't'), "\xc3\xbc"};

char const *name(PathEvent e)
{
    switch (e)
    {
        case PathEvent::Created: return "created";
        case PathEvent::Deleted: return "deleted";
        case PathEvent::Changed: return "changed";
        default: return "none";
    }
}

struct Event // a change that was made
{
    std::size_t dir, file;
    PathEvent kind;
    std::uint64_t from, to;
    int window;
    bool moved; // by a rename
};

struct Report // what a callback was given
{
    int monitor, handler;
    fs::path path;
    PathEvent kind;
    std::uint64_t at;
    int window;
};

// The changes of a case, and the reports.
struct History
{
    std::vector<fs::path> dirs;
    std::map<std::pair<std::size_t, std::size_t>, bool> exists;
    std::vector<Event> events;
    std::vector<Report> reports;
    int window {0};
    std::string text;

    fs::path path(std::size_t d, std::size_t f) const { return dirs[d] / s_files[f]; }

    void add(std::size_t d, std::size_t f, PathEvent kind, std::uint64_t from, bool moved = false)
    {
        sim::Quiet quiet;
        events.push_back({d, f, kind, from, sim::tick(), window, moved});
        text += strf(" %zu/%s %s,", d, s_files[f].c_str(), name(kind));
    }

    void write(std::size_t d, std::size_t f, int flags, std::string const &data)
    {
        std::uint64_t from = sim::tick();
        bool const there = exists[{d, f}];
        int const fd = ::open(path(d, f).c_str(), O_WRONLY | O_CREAT | flags, 0644);
        PBT_CHECK(fd >= 0, "the case's own open failed");
        if (!there)
            add(d, f, PathEvent::Created, from);
        else if (flags & O_TRUNC)
            add(d, f, PathEvent::Changed, from);
        exists[{d, f}] = true;
        if (!data.empty())
        {
            from = sim::tick();
            PBT_CHECK(::write(fd, data.data(), data.size()) == static_cast<ssize_t>(data.size()), "the case's own write failed");
            add(d, f, PathEvent::Changed, from);
        }
        ::close(fd);
    }

    // One change, or something that changes nothing.
    void change(Src &src)
    {
        std::size_t const d = src.below(dirs.size()), f = src.below(s_files.size());
        bool const there = exists[{d, f}];
        switch (src.weighted({4, 3, 3, 3, 1}))
        {
            case 0: write(d, f, O_APPEND, std::string(1 + src.below(4), 'x')); break;
            case 1: write(d, f, O_TRUNC, src.flip() ? "new" : ""); break;
            case 2:
                if (there)
                {
                    std::uint64_t const from = sim::tick();
                    PBT_CHECK(::unlink(path(d, f).c_str()) == 0, "the case's own unlink failed");
                    exists[{d, f}] = false;
                    add(d, f, PathEvent::Deleted, from);
                }
                break;
            case 3:
                if (there)
                {
                    std::size_t const e = src.below(dirs.size()), g = src.below(s_files.size());
                    if (e == d && g == f)
                        break;
                    std::uint64_t const from = sim::tick();
                    PBT_CHECK(::rename(path(d, f).c_str(), path(e, g).c_str()) == 0, "the case's own rename failed");
                    exists[{d, f}] = false;
                    exists[{e, g}] = true;
                    add(d, f, PathEvent::Deleted, from, true);
                    add(e, g, PathEvent::Created, from, true);
                }
                break;
            case 4: // no change
                if (there)
                {
                    static_cast<void>(read_file(path(d, f)));
                    ::chmod(path(d, f).c_str(), 0600);
                }
                break;
        }
    }
};

// Waits until every monitor has seen that nothing is left to report.
void settle(History &h)
{
    std::map<int, std::uint64_t> const before = sim::io::state().idle;
    bool const ok = sim::wait_until(
        [&before]() {
            for (auto const &[fd, count] : before)
            {
                auto it = sim::io::state().idle.find(fd);
                if (it != sim::io::state().idle.end() && it->second < count + 1)
                    return false;
            }
            return true;
        },
        600ll * 1000 * sim::ms);
    if (!ok)
        SIM_FAIL("a monitor does not poll any more;%s", h.text.c_str());
    sim::Quiet quiet;
    ++h.window;
    h.text += " |";
}

fly::path::PathMonitor::PathEventCallback callback(History &h, int monitor, int handler)
{
    return [&h, monitor, handler](fs::path p, PathEvent e) {
        sim::Quiet quiet;
        h.reports.push_back({monitor, handler, std::move(p), e, sim::tick(), h.window});
        h.text += strf(" [%d:%d %s %s]", monitor, handler, name(e), h.reports.back().path.filename().c_str());
    };
}

// All reports of a monitor are those of changes, in their order.
void check_order(History const &h, int monitor)
{
    std::size_t at = 0;
    for (auto const &r : h.reports)
    {
        if (r.monitor != monitor)
            continue;
        while (at < h.events.size() && !(h.path(h.events[at].dir, h.events[at].file) == r.path && h.events[at].kind == r.kind))
            ++at;
        PBT_CHECK(at < h.events.size() && h.events[at].from < r.at, "monitor %d reported '%s %s', which is no (more) change at that place;%s", monitor, r.path.c_str(), name(r.kind), h.text.c_str());
        ++at;
    }
}

// The reports of one file in one window are those of its changes: those that must be reported, and
// maybe others; modifications that follow each other, and renames to the same file, may be merged by
// the kernel.
struct Matcher
{
    std::vector<Event const *> events;
    std::vector<bool> must;
    std::vector<Report const *> reports;
    std::map<std::tuple<std::size_t, std::size_t, bool>, bool> known;

    bool can(std::size_t i, std::size_t j, bool run)
    {
        if (i == events.size())
            return j == reports.size();
        auto const key = std::make_tuple(i, j, run);
        if (auto it = known.find(key); it != known.end())
            return it->second;
        // 'run' is whether the one before was reported.
        bool const same = i != 0 && events[i]->kind == events[i - 1]->kind &&
            (events[i]->kind == PathEvent::Changed || (events[i]->moved && events[i - 1]->moved));
        bool ok = false;
        if (!must[i] || (same && run))
            ok = can(i + 1, j, same && run);
        if (!ok && j < reports.size() && reports[j]->kind == events[i]->kind && reports[j]->at > events[i]->from)
            ok = can(i + 1, j + 1, true);
        return known[key] = ok;
    }
};

// ---- one thread ----

struct Paths // what a monitor monitors: directory -> handlers; 0 is none
{
    struct Dir
    {
        int handler {0};
        std::map<std::size_t, int> files;
        std::uint64_t since {0}; // that watch, by number of the operation
    };
    std::map<std::size_t, Dir> dirs;

    // The handler in force for a file, and since when its directory is watched.
    std::pair<int, std::uint64_t> at(std::size_t d, std::size_t f) const
    {
        auto it = dirs.find(d);
        if (it == dirs.end())
            return {0, 0};
        auto file = it->second.files.find(f);
        return {file == it->second.files.end() ? it->second.handler : file->second, it->second.since};
    }
};

struct State // from this operation on
{
    std::uint64_t from, to;
    int window;
    Paths paths;
};

void history(Src &src)
{
    quiet_logger();
    CaseDir dir;
    History h;
    std::size_t const n_dirs = 1 + src.below(3);
    for (std::size_t d = 0; d < n_dirs; ++d)
    {
        h.dirs.push_back(dir.path / strf("dir %zu", d));
        fs::create_directory(h.dirs.back());
    }
    write_file(dir.path / "file", "no directory");
    std::size_t const n_monitors = 1 + src.below(2);
    auto config = std::make_shared<Config>(src.pick({1000, 1, 50}));
    unsigned const workers = static_cast<unsigned>(n_monitors) + static_cast<unsigned>(src.below(2));
    bool const one_runner = src.chance(1, 4);
    std::size_t const steps = 3 + src.length(30);
    std::vector<std::vector<State>> states(n_monitors);
    int handlers = 0;
    unsigned settled = 0, operations = 0;
    sim::io::reset(src.chance(1, 4) ? 10 : 0);

    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        std::vector<std::shared_ptr<PathMonitor>> monitors;
        std::vector<std::shared_ptr<fly::task::SequencedTaskRunner>> runners;
        for (std::size_t m = 0; m < n_monitors; ++m)
        {
            if (runners.empty() || !one_runner)
                runners.push_back(fly::task::SequencedTaskRunner::create(manager));
            monitors.push_back(PathMonitor::create(runners.back(), config));
            if (!monitors.back())
                SIM_FAIL("a path monitor could not be created: %s", std::strerror(errno));
            states[m].push_back({0, 0, 0, {}});
        }
        for (std::size_t step = 0; step < steps; ++step)
        {
            for (std::uint64_t n = src.below(3); n > 0; --n)
                sim::point();
            switch (src.weighted({6, 5, 1}))
            {
                case 0: h.change(src); break;
                case 2:
                    settle(h);
                    ++settled;
                    break;
                case 1:
                {
                    ++operations;
                    std::size_t const m = src.below(n_monitors), d = src.below(n_dirs), f = src.below(s_files.size());
                    Paths paths = states[m].back().paths;
                    bool expected = true, result = true;
                    std::string what;
                    int const number = ++handlers;
                    auto const since = states[m].size();
                    auto watched = [&](std::size_t i) -> Paths::Dir & {
                        auto [it, fresh] = paths.dirs.try_emplace(i);
                        if (fresh)
                            it->second.since = since;
                        return it->second;
                    };
                    auto &monitor = *monitors[m];
                    int const op = static_cast<int>(src.weighted({8, 4, 5, 2, 1, 2}));
                    int const bad = op == 5 ? static_cast<int>(src.below(7)) : 0;
                    std::uint64_t const from = sim::tick();
                    switch (op)
                    {
                        case 0:
                            what = strf("add %zu/%s", d, s_files[f].c_str());
                            watched(d).files[f] = number;
                            result = monitor.add_file(h.path(d, f), callback(h, static_cast<int>(m), number));
                            break;
                        case 1:
                            what = strf("add %zu", d);
                            watched(d).handler = number;
                            result = monitor.add_path(h.dirs[d], callback(h, static_cast<int>(m), number));
                            break;
                        case 2:
                        {
                            what = strf("remove %zu/%s", d, s_files[f].c_str());
                            auto it = paths.dirs.find(d);
                            expected = it != paths.dirs.end() && it->second.files.erase(f) != 0;
                            if (expected && it->second.files.empty() && it->second.handler == 0)
                                paths.dirs.erase(it);
                            result = monitor.remove_file(h.path(d, f));
                            break;
                        }
                        case 3:
                            what = strf("remove %zu", d);
                            expected = paths.dirs.erase(d) != 0;
                            result = monitor.remove_path(h.dirs[d]);
                            break;
                        case 4:
                            what = "remove all";
                            paths.dirs.clear();
                            monitor.remove_all_paths();
                            break;
                        default: // what cannot be monitored
                            expected = false;
                            switch (bad)
                            {
                                case 0: result = monitor.add_file(h.path(d, f), nullptr); break;
                                case 1: result = monitor.add_path(h.dirs[d], nullptr); break;
                                case 2: result = monitor.add_file(h.dirs[d], callback(h, static_cast<int>(m), -1)); break;
                                case 3: result = monitor.add_path(dir.path / "file", callback(h, static_cast<int>(m), -1)); break;
                                case 4: result = monitor.add_path(dir.path / "none", callback(h, static_cast<int>(m), -1)); break;
                                case 5: result = monitor.add_file(dir.path / "none" / "f", callback(h, static_cast<int>(m), -1)); break;
                                default: result = monitor.remove_file(dir.path / "none" / "f"); break;
                            }
                            what = strf("bad operation %d", bad);
                            break;
                    }
                    std::uint64_t const to = sim::tick();
                    sim::Quiet quiet;
                    h.text += strf(" (%d: %zu %s)", number, m, what.c_str());
                    if (result != expected)
                        SIM_FAIL("monitor %zu: %s returned %d;%s", m, what.c_str(), result, h.text.c_str());
                    states[m].push_back({from, to, h.window, std::move(paths)});
                    break;
                }
            }
        }
        settle(h);
        monitors.clear();
        runners.clear();
        manager->stop();
        // Nobody listens any more: nothing may come.
        std::size_t const reports = h.reports.size();
        Src &s = *sim::world().src;
        for (int i = 0; i < 3; ++i)
            h.change(s);
        sim::sleep(3000 * sim::ms);
        SIM_CHECK(h.reports.size() == reports, "a monitor that is gone reported something;%s", h.text.c_str());
    });

    std::size_t reported = 0;
    for (std::size_t m = 0; m < n_monitors; ++m)
    {
        auto const &log = states[m];
        check_order(h, static_cast<int>(m));
        // Each report came to the handler in force.
        for (auto const &r : h.reports)
        {
            if (r.monitor != static_cast<int>(m))
                continue;
            ++reported;
            std::size_t d = 0, f = 0;
            for (std::size_t i = 0; i < n_dirs; ++i)
                for (std::size_t k = 0; k < s_files.size(); ++k)
                    if (h.path(i, k) == r.path)
                        d = i, f = k;
            bool legal = false;
            for (std::size_t s = 0; s < log.size(); ++s)
            {
                // state s holds from (at the latest) log[s].to to (at the latest) log[s + 1].to
                bool const begun = log[s].from < r.at;
                bool const over = s + 1 < log.size() && log[s + 1].to < r.at;
                legal |= begun && !over && log[s].paths.at(d, f).first == r.handler;
            }
            PBT_CHECK(legal, "monitor %zu called handler %d for '%s %s', which is not the one in force;%s", m, r.handler, r.path.c_str(), name(r.kind), h.text.c_str());
        }
        // Each change that must be reported was.
        for (int w = 0; w <= h.window; ++w)
        {
            for (std::size_t d = 0; d < n_dirs; ++d)
            {
                for (std::size_t f = 0; f < s_files.size(); ++f)
                {
                    Matcher match;
                    for (auto const &e : h.events)
                    {
                        if (e.window != w || e.dir != d || e.file != f)
                            continue;
                        // Is a handler in force from the change to the end of the window, without
                        // a gap in watching the directory?
                        std::size_t s = 0;
                        while (s + 1 < log.size() && log[s + 1].from < e.from)
                            ++s;
                        auto const since = log[s].paths.at(d, f).second;
                        bool must = w < h.window;
                        do
                        {
                            auto const [handler, watch] = log[s].paths.at(d, f);
                            must &= handler != 0 && watch == since;
                        } while (++s < log.size() && log[s].window == w);
                        match.events.push_back(&e);
                        match.must.push_back(must);
                    }
                    for (auto const &r : h.reports)
                        if (r.monitor == static_cast<int>(m) && r.window == w && r.path == h.path(d, f))
                            match.reports.push_back(&r);
                    PBT_CHECK(match.can(0, 0, false), "monitor %zu did not report the changes of %zu/%s in part %d;%s", m, d, s_files[f].c_str(), w, h.text.c_str());
                }
            }
        }
    }
    src.note(h.text);
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (sim::io::state().interrupted)
        src.label("waits were interrupted");
    if (reported)
        src.label("changes were reported");
    if (reported && operations >= 2)
        src.nontrivial();
}

// ---- several threads ----

struct Change // of the monitoring of a file, by the thread that owns the file
{
    std::uint64_t from, to;
    int handler; // 0 for a removal, or for making the monitor anew
};

void threads(Src &src)
{
    quiet_logger();
    CaseDir dir;
    History h;
    std::size_t const n_dirs = 1 + src.below(2);
    for (std::size_t d = 0; d < n_dirs; ++d)
    {
        h.dirs.push_back(dir.path / strf("dir %zu", d));
        fs::create_directory(h.dirs.back());
    }
    auto config = std::make_shared<Config>(src.pick({1000, 1, 50}));
    std::size_t const n_threads = 2 + src.below(2); // thread t owns the files f with f % n_threads == t
    std::size_t const n_monitors = src.chance(1, 2) ? 1 : n_threads; // shared by all, or one for each
    bool const anew = n_monitors > 1 && src.chance(2, 3); // threads drop their monitor and make another
    unsigned const workers = static_cast<unsigned>(2 * n_monitors);
    sim::io::reset(src.chance(1, 4) ? 10 : 0);

    struct Step
    {
        int what; // add, remove, make anew
        std::size_t dir, file;
        unsigned gap;
    };
    std::vector<std::vector<Step>> plan(n_threads);
    for (std::size_t t = 0; t < n_threads; ++t)
    {
        std::size_t const n = 1 + src.below(8);
        std::vector<std::size_t> own;
        for (std::size_t f = t; f < s_files.size(); f += n_threads)
            own.push_back(f);
        for (std::size_t i = 0; i < n; ++i)
            plan[t].push_back({static_cast<int>(src.weighted({5, 4, anew ? 2u : 0u})), src.below(n_dirs), own[src.below(own.size())], static_cast<unsigned>(src.below(3))});
    }
    std::size_t const changes = src.below(12);

    // by directory and file
    std::map<std::pair<std::size_t, std::size_t>, std::vector<Change>> log;
    for (std::size_t d = 0; d < n_dirs; ++d)
        for (std::size_t f = 0; f < s_files.size(); ++f)
            log[{d, f}].push_back({0, 0, 0});
    int handlers = 0;

    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        std::vector<std::shared_ptr<PathMonitor>> monitors(n_monitors);
        for (auto &m : monitors)
        {
            m = PathMonitor::create(fly::task::SequencedTaskRunner::create(manager), config);
            if (!m)
                SIM_FAIL("a path monitor could not be created: %s", std::strerror(errno));
        }
        auto body = [&](std::size_t t) {
            auto &monitor = monitors[t % n_monitors];
            for (auto const &step : plan[t])
            {
                for (unsigned i = 0; i < step.gap; ++i)
                    sim::point();
                std::vector<Change> *mine;
                int number;
                bool expected = true, result = true;
                std::uint64_t from;
                {
                    sim::Quiet quiet;
                    mine = &log[{step.dir, step.file}];
                    number = ++handlers;
                    from = sim::tick();
                    h.text += strf(" (%zu %s %zu/%s", t, step.what == 0 ? "adds" : step.what == 1 ? "removes" : "makes anew", step.dir, s_files[step.file].c_str());
                }
                switch (step.what)
                {
                    case 0: result = monitor->add_file(h.path(step.dir, step.file), callback(h, static_cast<int>(t % n_monitors), number)); break;
                    case 1:
                        expected = mine->back().handler != 0;
                        number = 0;
                        result = monitor->remove_file(h.path(step.dir, step.file));
                        break;
                    default:
                        monitor.reset();
                        monitor = PathMonitor::create(fly::task::SequencedTaskRunner::create(manager), config);
                        result = monitor != nullptr;
                        break;
                }
                sim::Quiet quiet;
                std::uint64_t const to = sim::tick();
                h.text += ")";
                if (result != expected)
                    SIM_FAIL("thread %zu: %s %zu/%s returned %d;%s", t, step.what == 0 ? "adding" : step.what == 1 ? "removing" : "making a monitor for", step.dir, s_files[step.file].c_str(), result, h.text.c_str());
                if (step.what < 2)
                    mine->push_back({from, to, number});
                else
                {
                    for (auto &[key, list] : log)
                        if (key.second % n_threads == t)
                            list.push_back({from, ~0ull, 0}); // the old one may still report what it is about to
                }
            }
        };
        std::vector<std::thread> all;
        for (std::size_t t = 0; t < n_threads; ++t)
            all.emplace_back(body, t);
        Src &s = *sim::world().src;
        for (std::size_t i = 0; i < changes; ++i)
        {
            for (std::uint64_t n = s.below(4); n > 0; --n)
                sim::point();
            sim::Quiet quiet;
            h.change(s);
        }
        for (auto &t : all)
            t.join();
        // Everything that is monitored now gets reported.
        for (std::size_t f = 0; f < s_files.size(); ++f)
            for (std::size_t d = 0; d < n_dirs; ++d)
                h.write(d, f, O_APPEND, "end");
        settle(h);
        monitors.clear();
        manager->stop();
    });

    std::set<int> seen_monitors;
    for (auto const &r : h.reports)
        seen_monitors.insert(r.monitor);
    if (!anew)
        for (int m : seen_monitors)
            check_order(h, m);
    for (std::size_t d = 0; d < n_dirs; ++d)
    {
        for (std::size_t f = 0; f < s_files.size(); ++f)
        {
            auto const &changes_of = log[{d, f}];
            Matcher match;
            for (auto const &e : h.events)
            {
                if (e.dir != d || e.file != f)
                    continue;
                match.events.push_back(&e);
                match.must.push_back(changes_of.back().handler != 0 && changes_of.back().to < e.from);
            }
            for (auto const &r : h.reports)
            {
                if (r.path != h.path(d, f))
                    continue;
                PBT_CHECK(f % n_threads % n_monitors == static_cast<std::size_t>(r.monitor), "monitor %d reported %zu/%s;%s", r.monitor, d, s_files[f].c_str(), h.text.c_str());
                match.reports.push_back(&r);
                bool legal = false;
                for (std::size_t i = 0; i < changes_of.size(); ++i)
                {
                    bool const begun = changes_of[i].from < r.at;
                    bool const over = i + 1 < changes_of.size() && changes_of[i + 1].to < r.at;
                    legal |= begun && !over && changes_of[i].handler == r.handler;
                }
                // Of a monitor that is made anew, the old one may finish what it is doing.
                legal |= anew && r.handler != 0;
                PBT_CHECK(legal, "handler %d was called for '%zu/%s %s', which is not the one in force;%s", r.handler, d, s_files[f].c_str(), name(r.kind), h.text.c_str());
            }
            // Two monitors may both see a change when one is made anew.
            if (!anew)
                PBT_CHECK(match.can(0, 0, false), "the changes of %zu/%s were not reported;%s", d, s_files[f].c_str(), h.text.c_str());
            else if (changes_of.back().handler != 0)
            {
                std::size_t due = 0, got = 0;
                for (std::size_t i = 0; i < match.events.size(); ++i)
                    due += match.must[i] && match.events[i]->kind == PathEvent::Changed;
                for (auto const *r : match.reports)
                    got += r->handler == changes_of.back().handler && r->kind == PathEvent::Changed;
                PBT_CHECK(due == 0 || got > 0, "the last change of %zu/%s was not reported;%s", d, s_files[f].c_str(), h.text.c_str());
            }
        }
    }
    src.note(h.text);
    src.label(n_monitors == 1 ? "one monitor for all threads" : anew ? "monitors are made anew" : "a monitor for each thread");
    if (!h.reports.empty())
        src.nontrivial();
}

// ---- what is known to be broken (outside the simulation; the reports of a monitor keep the order of
// the changes, so that the report of a later change tells that none is coming for an earlier one) ----

struct Waiter
{
    std::mutex mutex;
    std::condition_variable changed;
    std::vector<std::pair<int, PathEvent>> reports;

    PathMonitor::PathEventCallback callback(int handler)
    {
        return [this, handler](fs::path, PathEvent e) {
            std::lock_guard lock(mutex);
            reports.emplace_back(handler, e);
            changed.notify_all();
        };
    }
    bool reported(int handler)
    {
        return std::any_of(reports.begin(), reports.end(), [&](auto const &r) { return r.first == handler; });
    }
    void wait_for(int handler)
    {
        std::unique_lock lock(mutex);
        PBT_CHECK(changed.wait_for(lock, std::chrono::seconds(20), [&]() { return reported(handler); }), "the report that should come did not come");
    }
};

struct Monitored
{
    Monitored()
    {
        quiet_logger();
        fs::create_directory(dir.path / "a");
        fs::create_directory(dir.path / "b");
        manager = fly::task::TaskManager::create(1);
        monitor = PathMonitor::create(fly::task::SequencedTaskRunner::create(manager), std::make_shared<Config>(1));
    }
    ~Monitored()
    {
        monitor.reset();
        manager->stop();
    }
    void append(fs::path const &p)
    {
        std::ofstream(p, std::ios::app) << "x";
    }
    CaseDir dir;
    Waiter waiter;
    std::shared_ptr<fly::task::TaskManager> manager;
    std::shared_ptr<PathMonitor> monitor;
};

void two_spellings()
{
    Monitored m;
    fs::path const a = m.dir.path / "a", b = m.dir.path / "b";
    PBT_CHECK(m.monitor->add_file(a / "f", m.waiter.callback(1)), "refused");
    if (!m.monitor->add_file(b / ".." / "a" / "g", m.waiter.callback(2)))
        return; // refusing is a way to tell
    PBT_CHECK(m.monitor->add_file(b / "end", m.waiter.callback(3)), "refused");
    m.append(a / "g");
    m.append(b / "end");
    m.waiter.wait_for(3);
    std::lock_guard lock(m.waiter.mutex);
    PBT_CHECK(m.waiter.reported(2), "a file of a directory that is monitored under another spelling too is not reported");
}

void recreated_directory()
{
    Monitored m;
    fs::path const a = m.dir.path / "a", b = m.dir.path / "b";
    PBT_CHECK(m.monitor->add_file(a / "f", m.waiter.callback(1)), "refused");
    PBT_CHECK(m.monitor->add_file(b / "end", m.waiter.callback(3)), "refused");
    fs::remove_all(a);
    fs::create_directory(a);
    if (!m.monitor->add_file(a / "g", m.waiter.callback(2)))
        return;
    m.append(a / "g");
    m.append(b / "end");
    m.waiter.wait_for(3);
    std::lock_guard lock(m.waiter.mutex);
    PBT_CHECK(m.waiter.reported(2), "a file which is added after its monitored directory was deleted and made again is not reported");
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"M01",
         "changes were reported, and at least two operations changed what is monitored; or several threads changed what is monitored, and changes were reported",
         {
             {"history", history, 3000, 100000},
             {"threads", threads, 3000, 100000},
         },
         {
             {"M01-spelling", "a file added under a second spelling of the path of a monitored directory (b/../a) is accepted, but its changes are not reported", two_spellings},
             {"M01-recreated-directory", "a file added to a monitored directory which was deleted and made again is accepted, but its changes are not reported", recreated_directory},
         },
         {"directories that are monitored stay where they are", "callbacks do not call the monitor (it is locked while they run)", "repeated modifications of a file may be reported as one"}});
}
