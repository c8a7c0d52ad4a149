// L01: every log statement reaches the sink once, in order, with its exact content.
//
// "asynchronous": statements from several threads to asynchronous loggers under generated schedules
// and virtual time (sim.hpp); the sink records, is slow, blocks until all callers are done, or
// fails; loggers may be dropped with statements pending. Oracle: the statements made, with the
// times around each call.
// "shared": a synchronous logger that several threads use, as the library itself does with the
// default logger, and a sink that can take it.
// "synchronous": longer histories on one thread, every message size limit, all message shapes.
#include "sim.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/system/system.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <thread>

using namespace pbt;
using fly::logger::Level;
using fly::logger::Logger;

namespace {

struct Config : fly::logger::LoggerConfig
{
    explicit Config(std::uint32_t size) { m_default_max_message_size = size; }
};

struct Statement
{
    Level level {Level::Debug};
    bool traced {false};
    int shape {0}; // how it is made: see issue()
    std::string message;
    std::string file, function;
    std::uint32_t line {0};
    // recorded
    bool issued {false};
    std::int64_t from {0}, to {0};
    std::string expected;
    unsigned delivered {0};
};

struct Delivery
{
    std::uintmax_t index;
    Level level;
    std::string file, function;
    std::uint32_t line;
    double time;
    std::string message;
};

constexpr char const *s_files[] = {"some/file.cpp", "x.h", "a file\x1f.cpp", __FILE__};
constexpr char const *s_functions[] = {"f", "operator()", "name\x1e", "~T"};

// One statement per line: the line is part of what is logged.
void by_macro(Statement &s)
{
    s.file = __FILE__;
    s.function = __FUNCTION__;
    s.traced = true;
    std::string const &m = s.message;
    switch (s.level)
    {
        case Level::Debug: s.line = __LINE__; LOGD("{}", m); break;
        case Level::Info: s.line = __LINE__; LOGI("{}", m); break;
        case Level::Warn: s.line = __LINE__; LOGW("{}", m); break;
        default: s.line = __LINE__; LOGE("{}", m); break;
    }
    s.expected = m;
}

void by_system_macro(Statement &s, int code)
{
    s.file = __FILE__;
    s.function = __FUNCTION__;
    s.traced = true;
    s.level = Level::Warn;
    std::string const &m = s.message;
    errno = code;
    s.line = __LINE__; LOGS("{}", m);
    s.expected = m + ": " + fly::system::get_error_string(code);
}

template <typename... Args>
void by_level(Logger &logger, Statement &s, fly::string::FormatString<char, Args...> format, Args &&...args)
{
    if (s.traced)
    {
        fly::logger::Trace trace {s.file, s.function, s.line};
        // the position given must be the one logged even if it lies in short-lived objects of ours
        // (file and function are documented to be views: they outlive the logger here)
        switch (s.level)
        {
            case Level::Debug: logger.debug(std::move(trace), std::move(format), std::forward<Args>(args)...); break;
            case Level::Info: logger.info(std::move(trace), std::move(format), std::forward<Args>(args)...); break;
            case Level::Warn: logger.warn(std::move(trace), std::move(format), std::forward<Args>(args)...); break;
            default: logger.error(std::move(trace), std::move(format), std::forward<Args>(args)...); break;
        }
    }
    else
    {
        switch (s.level)
        {
            case Level::Debug: logger.debug(std::move(format), std::forward<Args>(args)...); break;
            case Level::Info: logger.info(std::move(format), std::forward<Args>(args)...); break;
            case Level::Warn: logger.warn(std::move(format), std::forward<Args>(args)...); break;
            default: logger.error(std::move(format), std::forward<Args>(args)...); break;
        }
    }
}

void issue(Logger &logger, Statement &s, bool is_default)
{
    switch (is_default ? s.shape : s.shape % 4)
    {
        case 0:
        case 1:
            by_level<std::string &>(logger, s, "{}", s.message);
            s.expected = s.message;
            break;
        case 2:
        {
            int n = static_cast<int>(s.message.size());
            by_level<std::string &, int &>(logger, s, "{}|{}", s.message, n);
            s.expected = s.message + "|" + std::to_string(n);
            break;
        }
        case 3:
        {
            std::string copy = s.message; // gone when the statement is delivered
            by_level<std::string>(logger, s, "{} and braces {{}}", std::move(copy));
            s.expected = s.message + " and braces {}";
            break;
        }
        case 4: by_macro(s); break;
        default: by_system_macro(s, 1 + static_cast<int>(s.message.size() % 30)); break;
    }
}

std::string content(Src &src, std::uint32_t limit)
{
    std::size_t n = src.chance(1, 3) ? src.below(12) : src.chance(1, 2) ? (limit > 600 ? src.below(600) : std::max<std::int64_t>(0, static_cast<std::int64_t>(limit) + src.range(-12, 3))) : src.below(300);
    bool const plain = src.flip();
    std::uint64_t const step = src.below(256);
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
        s += plain ? static_cast<char>('a' + i % 26) : static_cast<char>(i * step + i / 7);
    return s;
}

void decorate(Src &src, Statement &s)
{
    s.level = static_cast<Level>(src.below(4));
    s.shape = static_cast<int>(src.below(6));
    if ((s.traced = src.flip()))
    {
        s.file = src.chance(1, 12) ? "" : s_files[src.below(4)];
        s.function = src.chance(1, 12) ? "" : s_functions[src.below(4)];
        s.line = src.chance(1, 8) ? ~0u : static_cast<std::uint32_t>(src.below(1000));
    }
}

char const *name(Level level)
{
    switch (level)
    {
        case Level::Debug: return "debug";
        case Level::Info: return "info";
        case Level::Warn: return "warning";
        case Level::Error: return "error";
        default: return "??";
    }
}

// The content of a delivery is that of the statement.
void compare(Statement const &s, Delivery const &d, std::uint32_t limit, std::string const &where)
{
    PBT_CHECK(d.level == s.level, "%s: a statement of level %s came as %s", where.c_str(), name(s.level), name(d.level));
    std::string const expected = s.expected.substr(0, limit);
    PBT_CHECK(d.message == expected, "%s: the message %s came as %s (limit %u)", where.c_str(), show(s.expected).c_str(), show(d.message).c_str(), limit);
    if (s.traced)
        PBT_CHECK(d.file == s.file && d.function == s.function && d.line == s.line, "%s: the position %s:%s:%u came as %s:%s:%u", where.c_str(), s.file.c_str(), s.function.c_str(), s.line, d.file.c_str(), d.function.c_str(), d.line);
    else
        PBT_CHECK(d.file.empty() && d.function.empty() && d.line == 0, "%s: a statement without position came with %s:%s:%u", where.c_str(), d.file.c_str(), d.function.c_str(), d.line);
}

// ---- asynchronous ----

struct Shared // of a logger, its sink and the case
{
    std::vector<Delivery> deliveries;
    std::vector<std::int64_t> times;
    bool starts {true};
    int fails_at {-1};
    unsigned points {0};
    std::int64_t slow {0};
    bool stuck {false}; // the first delivery waits until all callers are done
    std::atomic<bool> *callers_done {nullptr};
    std::atomic<unsigned> inside {0};
    bool overlapped {false};
    std::int64_t created_from {0}, created_to {0};
};

struct Recorder : fly::logger::Sink
{
    explicit Recorder(std::shared_ptr<Shared> shared) : m(std::move(shared)) { }
    bool initialize() override { return m->starts; }
    bool stream(fly::logger::Log &&log) override
    {
        if (m->inside++ != 0)
            m->overlapped = true;
        std::size_t n;
        {
            sim::Quiet quiet;
            m->deliveries.push_back({log.m_index, log.m_level, std::string(log.m_trace.m_file), std::string(log.m_trace.m_function), log.m_trace.m_line, log.m_time, log.m_message});
            m->times.push_back(sim::world().now);
            n = m->deliveries.size();
        }
        ++effect; // plain memory: deliveries must see each other's effects
        if (m->stuck && n == 1)
        {
            auto *done = m->callers_done;
            if (!sim::wait_until([done]() { return done->load(); }, 300ll * 1000 * sim::ms))
                SIM_FAIL("statements wait for a sink that is busy");
        }
        for (unsigned i = 0; i < m->points; ++i)
            sim::point();
        if (m->slow)
            sim::sleep(m->slow);
        --m->inside;
        return m->fails_at < 0 || static_cast<int>(n) <= m->fails_at;
    }
    std::shared_ptr<Shared> m;
    unsigned effect {0};
};

void asynchronous(Src &src)
{
    Logger::get_default_logger(); // made outside of the simulation
    std::uint32_t const limit = src.chance(1, 3) ? 256 : static_cast<std::uint32_t>(src.pick({10, 64, 4096, 11}));
    auto config = std::make_shared<Config>(limit);
    unsigned const workers = 1 + static_cast<unsigned>(src.below(3));
    std::size_t const n_loggers = 1 + src.below(2);
    bool const one_runner = src.flip();
    std::size_t const n_threads = 1 + src.below(3);
    bool const with_default = src.flip();
    bool const drop = src.chance(1, 5); // let go of the loggers when all statements are made

    std::atomic<bool> callers_done {false};
    std::vector<std::shared_ptr<Shared>> shared;
    for (std::size_t l = 0; l < n_loggers; ++l)
    {
        auto s = std::make_shared<Shared>();
        if (src.chance(1, 4))
            s->fails_at = static_cast<int>(src.below(5));
        s->points = static_cast<unsigned>(src.below(3));
        if (src.chance(1, 5))
            s->slow = src.pick({1, 20, 100}) * sim::ms;
        s->stuck = src.chance(1, 5);
        s->callers_done = &callers_done;
        shared.push_back(s);
    }

    struct Issue
    {
        Statement statement;
        std::size_t logger;
        int gap;
    };
    std::vector<std::vector<Issue>> plan(n_threads);
    std::size_t total = 0;
    for (std::size_t t = 0; t < n_threads; ++t)
    {
        std::size_t const n = 1 + src.below(7);
        for (std::size_t i = 0; i < n; ++i)
        {
            Issue issue;
            issue.logger = src.below(n_loggers);
            decorate(src, issue.statement);
            issue.statement.message = strf("%zu/%zu ", t, i) + content(src, limit);
            issue.gap = static_cast<int>(src.weighted({5, 2, 1, 1}));
            plan[t].push_back(std::move(issue));
            ++total;
        }
    }

    std::vector<std::size_t> due(n_loggers, 0); // statements that must be delivered
    for (auto const &p : plan)
        for (auto const &i : p)
            ++due[i.logger];
    for (std::size_t l = 0; l < n_loggers; ++l)
        if (shared[l]->fails_at >= 0)
            due[l] = std::min(due[l], static_cast<std::size_t>(shared[l]->fails_at) + 1);

    bool settled = true;
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        std::vector<std::shared_ptr<fly::task::SequencedTaskRunner>> runners;
        for (std::size_t l = 0; l < (one_runner ? 1 : n_loggers); ++l)
            runners.push_back(fly::task::SequencedTaskRunner::create(manager));
        std::vector<std::shared_ptr<Logger>> loggers;
        for (std::size_t l = 0; l < n_loggers; ++l)
        {
            shared[l]->created_from = sim::world().now;
            loggers.push_back(Logger::create(strf("logger %zu", l), runners[one_runner ? 0 : l], config, std::make_unique<Recorder>(shared[l])));
            shared[l]->created_to = sim::world().now;
            SIM_CHECK(loggers.back() != nullptr, "an asynchronous logger could not be created");
        }
        if (with_default)
            Logger::set_default_logger(loggers[0]);

        auto body = [&](std::size_t t) {
            for (auto &i : plan[t])
            {
                switch (i.gap)
                {
                    case 1: sim::point(); break;
                    case 2: sim::sleep(1234567); break;
                    case 3: sim::sleep(30 * sim::ms); break;
                    default: break;
                }
                i.statement.from = sim::world().now;
                issue(*loggers[i.logger], i.statement, with_default && i.logger == 0);
                sim::Quiet quiet;
                i.statement.to = sim::world().now;
                i.statement.issued = true;
            }
        };
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < n_threads; ++t)
            threads.emplace_back(body, t);
        body(0);
        for (auto &t : threads)
            t.join();
        callers_done = true;
        if (drop)
        {
            Logger::set_default_logger(nullptr);
            loggers.clear();
            sim::sleep(2000 * sim::ms);
        }
        else
        {
            settled = sim::wait_until(
                [&]() {
                    for (std::size_t l = 0; l < n_loggers; ++l)
                        if (shared[l]->deliveries.size() < due[l])
                            return false;
                    return true;
                },
                300ll * 1000 * sim::ms);
            sim::sleep(2000 * sim::ms); // and nothing more comes
        }
        manager->stop();
        Logger::set_default_logger(nullptr);
        loggers.clear();
        runners.clear();
    });

    std::string text = strf(" %u workers, limit %u,%s", workers, limit, drop ? " dropped," : "");
    for (std::size_t l = 0; l < n_loggers; ++l)
    {
        text += strf(" logger %zu (fails at %d):", l, shared[l]->fails_at);
        for (auto const &d : shared[l]->deliveries)
            text += " " + d.message.substr(0, 4);
    }

    for (std::size_t l = 0; l < n_loggers; ++l)
    {
        auto const &s = *shared[l];
        PBT_CHECK(!s.overlapped, "the sink of logger %zu was called by two threads at once;%s", l, text.c_str());
        std::vector<std::size_t> next(n_threads, 0);
        for (std::size_t k = 0; k < s.deliveries.size(); ++k)
        {
            auto const &d = s.deliveries[k];
            PBT_CHECK(d.index == k, "delivery %zu of logger %zu has the index %ju;%s", k, l, d.index, text.c_str());
            unsigned t = 0, i = 0;
            PBT_CHECK(std::sscanf(d.message.c_str(), "%u/%u ", &t, &i) == 2 && t < n_threads && i < plan[t].size(), "logger %zu delivered %s;%s", l, show(d.message).c_str(), text.c_str());
            // Statements of one thread arrive in the order made, none is left out and none repeated.
            while (next[t] < plan[t].size() && plan[t][next[t]].logger != l)
                ++next[t];
            PBT_CHECK(next[t] == i, "logger %zu delivered %u/%u instead of %u/%zu;%s", l, t, i, t, next[t], text.c_str());
            ++next[t];
            auto &st = plan[t][i].statement;
            compare(st, d, limit, strf("logger %zu, %u/%u", l, t, i));
            double const earliest = static_cast<double>(st.from - s.created_to) / sim::ms - 1e-6;
            double const latest = static_cast<double>(st.to - s.created_from) / sim::ms + 1e-6;
            PBT_CHECK(d.time >= earliest && d.time <= latest, "logger %zu, %u/%u: logged at %f ms, but delivered with the time %f", l, t, i, earliest, d.time);
        }
        if (s.fails_at >= 0)
            PBT_CHECK(s.deliveries.size() <= static_cast<std::size_t>(s.fails_at) + 1, "%zu statements came after the sink of logger %zu failed;%s", s.deliveries.size() - static_cast<std::size_t>(s.fails_at) - 1, l, text.c_str());
        if (!drop)
            PBT_CHECK(s.deliveries.size() == due[l], "%zu of %zu statements of logger %zu were delivered;%s", s.deliveries.size(), due[l], l, text.c_str());
    }
    PBT_CHECK(settled, "statements were not delivered;%s", text.c_str());

    src.note(text);
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (drop)
        src.label("loggers were dropped early");
    for (auto const &s : shared)
    {
        if (s->fails_at >= 0 && static_cast<int>(s->deliveries.size()) > s->fails_at)
            src.label("a sink failed");
        if (s->stuck && !s->deliveries.empty())
            src.label("a sink was stuck until all statements were made");
    }
    if (total >= 2 && (n_threads > 1 || n_loggers > 1 || total >= 4))
        src.nontrivial();
}

// ---- synchronous ----

struct Plain : fly::logger::Sink
{
    Plain(std::shared_ptr<std::vector<Delivery>> seen, bool starts, int fails_at) : m_seen(std::move(seen)), m_starts(starts), m_fails_at(fails_at) { }
    bool initialize() override { return m_starts; }
    bool stream(fly::logger::Log &&log) override
    {
        m_seen->push_back({log.m_index, log.m_level, std::string(log.m_trace.m_file), std::string(log.m_trace.m_function), log.m_trace.m_line, log.m_time, std::move(log).m_message});
        return m_fails_at < 0 || static_cast<int>(m_seen->size()) <= m_fails_at;
    }
    std::shared_ptr<std::vector<Delivery>> m_seen;
    bool m_starts;
    int m_fails_at;
};

void synchronous(Src &src)
{
    std::uint32_t const limit = src.chance(1, 4) ? 256 : src.chance(1, 8) ? ~0u : static_cast<std::uint32_t>(src.below(src.pick({4, 40, 600})));
    auto config = std::make_shared<Config>(limit);
    auto seen = std::make_shared<std::vector<Delivery>>();
    int const fails_at = src.chance(1, 4) ? static_cast<int>(src.below(8)) : -1;
    bool const starts = !src.chance(1, 20);
    auto const before = std::chrono::steady_clock::now();
    auto logger = Logger::create("synchronous", config, std::make_unique<Plain>(seen, starts, fails_at));
    auto const created = std::chrono::steady_clock::now();
    PBT_CHECK((logger != nullptr) == starts, "a logger whose sink %s was %screated", starts ? "works" : "fails to initialise", logger ? "" : "not ");
    if (!logger)
    {
        PBT_CHECK(seen->empty(), "a sink that failed to initialise was used");
        return;
    }
    bool const with_default = src.flip();
    if (with_default)
        Logger::set_default_logger(logger);
    std::size_t const n = 1 + src.length(12);
    std::size_t truncated = 0;
    double last = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        Statement s;
        decorate(src, s);
        s.message = content(src, limit);
        std::size_t const have = seen->size();
        auto const from = std::chrono::steady_clock::now();
        issue(*logger, s, with_default);
        auto const to = std::chrono::steady_clock::now();
        bool const due = fails_at < 0 || static_cast<int>(i) <= fails_at;
        PBT_CHECK(seen->size() == have + due, "statement %zu came %zu times (the sink fails at %d)", i, seen->size() - have, fails_at);
        if (!due)
        {
            src.label("statement after the sink failed");
            continue;
        }
        auto const &d = seen->back();
        PBT_CHECK(d.index == i, "statement %zu has the index %ju", i, d.index);
        compare(s, d, limit, strf("statement %zu", i));
        using ms = std::chrono::duration<double, std::milli>;
        PBT_CHECK(d.time >= ms(from - created).count() - 1e-6 && d.time <= ms(to - before).count() + 1e-6, "statement %zu was made %f to %f ms after the logger, but has the time %f", i, ms(from - created).count(), ms(to - before).count(), d.time);
        PBT_CHECK(d.time >= last, "statement %zu has the time %f after %f", i, d.time, last);
        last = d.time;
        truncated += s.expected.size() > limit;
        if (src.want_note())
            src.note(strf("%s %s at %s:%s:%u", name(s.level), show(d.message).c_str(), d.file.c_str(), d.function.c_str(), d.line));
    }
    Logger::set_default_logger(nullptr);
    if (truncated)
        src.label("truncated message");
    if (n >= 3 || truncated)
        src.nontrivial();
}

struct Locked : fly::logger::Sink // can be used by several threads at once
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&log) override
    {
        sim::point();
        std::lock_guard<std::mutex> lock(mutex);
        deliveries.push_back({log.m_index, log.m_level, std::string(log.m_trace.m_file), std::string(log.m_trace.m_function), log.m_trace.m_line, log.m_time, std::move(log).m_message});
        callers.push_back(sim::thread_id());
        return fails_at < 0 || static_cast<int>(deliveries.size()) != fails_at + 1; // once
    }
    std::mutex mutex;
    int fails_at {-1};
    std::vector<Delivery> deliveries;
    std::vector<int> callers;
};

void shared_logger(Src &src)
{
    Logger::get_default_logger();
    std::uint32_t const limit = src.chance(1, 3) ? 256 : static_cast<std::uint32_t>(src.pick({10, 64, 4096, 11}));
    auto config = std::make_shared<Config>(limit);
    std::size_t const n_threads = 2 + src.below(2);
    bool const with_default = src.flip();
    std::vector<std::vector<Statement>> plan(n_threads);
    std::size_t total = 0;
    for (std::size_t t = 0; t < n_threads; ++t)
    {
        std::size_t const n = 1 + src.below(5);
        for (std::size_t i = 0; i < n; ++i, ++total)
        {
            plan[t].emplace_back();
            decorate(src, plan[t].back());
            plan[t].back().message = strf("%zu/%zu ", t, i) + content(src, limit);
        }
    }
    int const fails_at = src.chance(1, 3) ? static_cast<int>(src.below(total)) : -1;
    Locked *sink = nullptr;
    std::shared_ptr<Logger> logger;
    std::vector<int> ids(n_threads, -1);
    unsigned clock = 0;
    std::vector<std::vector<std::pair<unsigned, unsigned>>> calls(n_threads); // when each began and returned
    sim::run(src, [&]() {
        auto owned = std::make_unique<Locked>();
        sink = owned.get();
        sink->fails_at = fails_at;
        logger = Logger::create("shared", config, std::move(owned));
        SIM_CHECK(logger != nullptr, "a synchronous logger could not be created");
        if (with_default)
            Logger::set_default_logger(logger);
        auto body = [&](std::size_t t) {
            ids[t] = sim::thread_id();
            for (auto &s : plan[t])
            {
                sim::point();
                {
                    sim::Quiet quiet;
                    calls[t].emplace_back(++clock, 0);
                }
                issue(*logger, s, with_default);
                sim::Quiet quiet;
                calls[t].back().second = ++clock;
            }
        };
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < n_threads; ++t)
            threads.emplace_back(body, t);
        body(0);
        for (auto &t : threads)
            t.join();
    });
    std::string text = strf(" %zu threads, limit %u, the sink fails at %d:", n_threads, limit, fails_at);
    for (auto const &d : sink->deliveries)
        text += strf(" %s=%ju", d.message.substr(0, 3).c_str(), d.index);
    // when the call that failed was made and returned
    unsigned failing = ~0u, failed = ~0u;
    if (fails_at >= 0 && static_cast<std::size_t>(fails_at) < sink->deliveries.size())
    {
        unsigned t = 0, i = 0;
        PBT_CHECK(std::sscanf(sink->deliveries[static_cast<std::size_t>(fails_at)].message.c_str(), "%u/%u ", &t, &i) == 2 && t < n_threads && i < plan[t].size(), "the sink got %s;%s", show(sink->deliveries[static_cast<std::size_t>(fails_at)].message).c_str(), text.c_str());
        std::tie(failing, failed) = calls[t][i];
        src.label("a sink failed");
    }
    std::vector<std::vector<bool>> came(n_threads);
    for (std::size_t t = 0; t < n_threads; ++t)
        came[t].resize(plan[t].size());
    std::set<std::uintmax_t> indices;
    for (std::size_t k = 0; k < sink->deliveries.size(); ++k)
    {
        auto const &d = sink->deliveries[k];
        unsigned t = 0, i = 0;
        PBT_CHECK(std::sscanf(d.message.c_str(), "%u/%u ", &t, &i) == 2 && t < n_threads && i < plan[t].size(), "the sink got %s;%s", show(d.message).c_str(), text.c_str());
        PBT_CHECK(!came[t][i], "the sink got %u/%u again;%s", t, i, text.c_str());
        PBT_CHECK(std::find(came[t].begin() + i, came[t].end(), true) == came[t].end(), "the sink got %u/%u after a later statement;%s", t, i, text.c_str());
        came[t][i] = true;
        PBT_CHECK(calls[t][i].first < failed, "the sink got %u/%u, which was made after it had failed;%s", t, i, text.c_str());
        PBT_CHECK(sink->callers[k] == ids[t], "a synchronous logger's sink was called by another thread;%s", text.c_str());
        PBT_CHECK(d.index < total && indices.insert(d.index).second, "the index %ju is given twice or is out of range;%s", d.index, text.c_str());
        compare(plan[t][i], d, limit, strf("%u/%u", t, i));
    }
    for (std::size_t t = 0; t < n_threads; ++t)
        for (std::size_t i = 0; i < plan[t].size(); ++i)
            PBT_CHECK(came[t][i] || calls[t][i].second > failing, "the statement %zu/%zu did not come;%s", t, i, text.c_str());
    Logger::set_default_logger(nullptr);
    logger.reset();
    src.note(text);
    src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"L01",
         "several statements from several threads or to several loggers, or at least four; shared: always; synchronous: three or more statements, or a message longer than the limit",
         {
             {"asynchronous", asynchronous, 6000, 200000},
             {"shared", shared_logger, 2000, 60000},
             {"synchronous", synchronous, 10000, 300000},
         },
         {},
         {"the strings of a source position outlive the logger (they are views)", "threads are switched at synchronisation operations only; between them, accesses are checked by the race detector"}});
}
