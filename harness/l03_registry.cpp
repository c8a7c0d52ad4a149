// L03: logger names are unique while alive and reusable afterwards.
//
// "history": a single thread's history of creations (of every kind, with sinks and directories that
// fail), lookups, sharing, dropping, default changes and log statements, against a model that knows
// which references exist. After every step every name is looked up, and the default logger is used.
// "threads": several threads create, look up, keep and drop loggers under generated schedules; the
// recorded intervals must be consistent with a name naming at most one live logger.
#include "sim.hpp"

#include "fly/coders/coder_config.hpp"
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"

#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include "scratch.hpp"

#include <iostream>
#include <sstream>
#include <thread>

using namespace pbt;
using fly::logger::Logger;
using Handle = std::shared_ptr<Logger>;

namespace {

// What a recording sink got, and whether it still exists.
struct Seen
{
    std::vector<std::string> messages;
    bool alive {true};
};

struct Recorder : fly::logger::Sink
{
    Recorder(std::shared_ptr<Seen> seen, bool starts, int fails_at) : m_seen(std::move(seen)), m_starts(starts), m_fails_at(fails_at) { }
    ~Recorder() override { m_seen->alive = false; }
    bool initialize() override { return m_starts; }
    bool stream(fly::logger::Log &&log) override
    {
        m_seen->messages.push_back(log.m_message);
        return m_fails_at < 0 || static_cast<int>(m_seen->messages.size()) <= m_fails_at;
    }

    std::shared_ptr<Seen> m_seen;
    bool m_starts;
    int m_fails_at;
};

// Redirects the console while it lives.
struct Console
{
    Console() : m_out(std::cout.rdbuf(out.rdbuf())), m_err(std::cerr.rdbuf(err.rdbuf())) { }
    ~Console()
    {
        std::cout.rdbuf(m_out);
        std::cerr.rdbuf(m_err);
    }
    std::ostringstream out, err;

private:
    std::streambuf *m_out, *m_err;
};

struct Model
{
    std::string name;
    std::shared_ptr<Seen> seen; // of loggers with a recording sink
    enum Kind { Recording, ToConsole, ToFile } kind {Recording};
    std::filesystem::path dir;  // of loggers to files
    Logger *address {nullptr};
    int references {0};
    int fails_at {-1};
    std::vector<std::string> sent;
};

std::size_t count_of(std::string const &text, std::string const &what)
{
    std::size_t n = 0;
    for (std::size_t at = 0; (at = text.find(what, at)) != std::string::npos; at += what.size())
        ++n;
    return n;
}

std::string all_files(std::filesystem::path const &dir)
{
    std::string all;
    for (auto const &e : std::filesystem::directory_iterator(dir))
        all += read_file(e.path());
    return all;
}

void history(Src &src)
{
    static auto const config = std::make_shared<fly::logger::LoggerConfig>();
    static auto const coder_config = std::make_shared<fly::coders::CoderConfig>();
    std::optional<CaseDir> dir; // made when needed

    std::vector<std::string> const pool = {"a", "b", "", "a name with spaces \x01", "A", std::string("a\0b", 3), "console", "_libfly_default_"};
    std::size_t const names = 1 + src.below(pool.size());
    std::vector<std::shared_ptr<Model>> models;                      // all there ever were
    std::vector<std::pair<std::shared_ptr<Model>, Handle>> handles;  // the references this case has
    std::shared_ptr<Model> current;                                  // the default logger; null for the initial one
    std::map<std::string, std::shared_ptr<Model>> live;
    unsigned serial = 0;
    unsigned rejected = 0, recreated = 0, orphan_default = 0;
    std::set<std::string> died;
    std::string log;

    struct Reset
    {
        ~Reset() { Logger::set_default_logger(nullptr); }
    } reset;

    auto release = [&](std::shared_ptr<Model> const &m) {
        if (--m->references == 0)
        {
            live.erase(m->name);
            died.insert(m->name);
            if (m->seen)
                PBT_CHECK(!m->seen->alive, "the logger %s outlives its references;%s", show(m->name).c_str(), log.c_str());
        }
    };
    auto statement = [&](Logger *logger, std::shared_ptr<Model> const &m, unsigned level, bool macro) {
        std::string const text = strf("<statement %u>", ++serial);
        Console console;
        if (macro)
        {
            switch (level)
            {
                case 0: LOGD("{}", text); break;
                case 1: LOGI("{}", text); break;
                case 2: LOGW("{}", text); break;
                default: LOGE("{}", text); break;
            }
        }
        else
        {
            switch (level)
            {
                case 0: logger->debug("{}", text); break;
                case 1: logger->info("{}", text); break;
                case 2: logger->warn("{}", text); break;
                default: logger->error("{}", text); break;
            }
        }
        std::size_t const on_console = count_of(console.out.str() + console.err.str(), text);
        bool const to_console = !m || m->kind == Model::ToConsole;
        PBT_CHECK(on_console == (to_console ? 1u : 0u), "a statement to the logger %s came %zu times on the console;%s", m ? show(m->name).c_str() : "(initial)", on_console, log.c_str());
        if (to_console)
        {
            bool const warning = level >= 2;
            PBT_CHECK(count_of((warning ? console.err : console.out).str(), text) == 1, "a statement of level %u came on the wrong console stream;%s", level, log.c_str());
        }
        if (m && m->kind == Model::ToFile)
            PBT_CHECK(count_of(all_files(m->dir), text) == 1, "a statement to the logger %s is not in its file once;%s", show(m->name).c_str(), log.c_str());
        if (m && m->kind == Model::Recording)
        {
            if (m->fails_at < 0 || static_cast<int>(m->sent.size()) <= m->fails_at)
                m->sent.push_back(text);
            PBT_CHECK(m->seen->messages == m->sent, "the sink of %s got %zu statements instead of %zu;%s", show(m->name).c_str(), m->seen->messages.size(), m->sent.size(), log.c_str());
        }
    };

    std::size_t const steps = 1 + src.length(30);
    for (std::size_t step = 0; step < steps; ++step)
    {
        switch (src.weighted({5, 2, 1, 4, 2, 2, 2}))
        {
            case 0: // create
            {
                std::string const name = pool[src.below(names)];
                auto m = std::make_shared<Model>();
                m->name = name;
                bool starts = true;
                Handle h;
                std::string kind;
                switch (src.weighted({6, 2, 1, 1, 1, 1}))
                {
                    case 1:
                        starts = false;
                        kind = "with a sink that fails";
                        [[fallthrough]];
                    case 0:
                        if (starts && src.chance(1, 4))
                            m->fails_at = static_cast<int>(src.below(3));
                        m->seen = std::make_shared<Seen>();
                        h = Logger::create(name, config, std::make_unique<Recorder>(m->seen, starts, m->fails_at));
                        break;
                    case 2:
                        starts = false;
                        kind = "without a sink";
                        h = Logger::create(name, config, nullptr);
                        break;
                    case 3:
                        kind = "to the console";
                        m->kind = Model::ToConsole;
                        h = fly::logger::create_console_logger(name, config);
                        break;
                    case 4:
                        kind = "to a file";
                        m->kind = Model::ToFile;
                        if (!dir)
                            dir.emplace();
                        m->dir = dir->path / std::to_string(step);
                        std::filesystem::create_directory(m->dir);
                        h = fly::logger::create_file_logger(name, config, coder_config, m->dir);
                        break;
                    case 5:
                        kind = "to a directory that does not exist";
                        starts = false;
                        if (!dir)
                            dir.emplace();
                        h = fly::logger::create_file_logger(name, config, coder_config, dir->path / "none" / std::to_string(step));
                        break;
                }
                log += strf(" create %s %s: %s,", show(name).c_str(), kind.c_str(), h ? "done" : "refused");
                bool const expected = starts && live.find(name) == live.end();
                PBT_CHECK((h != nullptr) == expected, "creating the logger %s %s;%s", show(name).c_str(), expected ? "was refused" : "succeeded", log.c_str());
                rejected += !starts || live.find(name) != live.end();
                if (h)
                {
                    PBT_CHECK(h->name() == name, "the logger %s is called %s;%s", show(name).c_str(), show(h->name()).c_str(), log.c_str());
                    recreated += died.count(name) != 0;
                    m->address = h.get();
                    m->references = 1;
                    live[name] = m;
                    models.push_back(m);
                    handles.emplace_back(m, std::move(h));
                }
                break;
            }
            case 1: // look up and keep
            {
                std::string const name = pool[src.below(names)];
                if (auto h = Logger::get(name))
                {
                    auto it = live.find(name);
                    PBT_CHECK(it != live.end() && it->second->address == h.get(), "looking up %s found a logger that is not there;%s", show(name).c_str(), log.c_str());
                    log += strf(" keep %s,", show(name).c_str());
                    ++it->second->references;
                    handles.emplace_back(it->second, std::move(h));
                }
                break;
            }
            case 2: // share
                if (!handles.empty())
                {
                    auto copy = handles[src.below(handles.size())];
                    log += strf(" share %s,", show(copy.first->name).c_str());
                    ++copy.first->references;
                    handles.push_back(std::move(copy));
                }
                break;
            case 3: // drop
                if (!handles.empty())
                {
                    std::size_t const i = src.below(handles.size());
                    auto m = handles[i].first;
                    log += strf(" drop %s,", show(m->name).c_str());
                    handles.erase(handles.begin() + static_cast<std::ptrdiff_t>(i));
                    orphan_default += m == current && m->references == 2;
                    release(m);
                }
                break;
            case 4: // default
            {
                auto before = current;
                if (handles.empty() || src.chance(1, 4))
                {
                    log += " default initial,";
                    current = nullptr;
                    Logger::set_default_logger(nullptr);
                }
                else
                {
                    auto const &[m, h] = handles[src.below(handles.size())];
                    log += strf(" default %s,", show(m->name).c_str());
                    current = m;
                    ++m->references;
                    Logger::set_default_logger(h);
                }
                if (before)
                    release(before);
                break;
            }
            case 5:
            {
                unsigned const level = static_cast<unsigned>(src.below(4));
                log += strf(" default logs %u,", level);
                statement(nullptr, current, level, true);
                break;
            }
            case 6:
                if (!handles.empty())
                {
                    auto const &[m, h] = handles[src.below(handles.size())];
                    log += strf(" %s logs,", show(m->name).c_str());
                    statement(h.get(), m, static_cast<unsigned>(src.below(4)), false);
                }
                break;
        }

        // The whole state, after every step.
        for (std::size_t i = 0; i < names; ++i)
        {
            auto const found = Logger::get(pool[i]);
            auto it = live.find(pool[i]);
            if (it == live.end())
                PBT_CHECK(found == nullptr, "looking up %s found a logger although none is alive;%s", show(pool[i]).c_str(), log.c_str());
            else
                PBT_CHECK(found.get() == it->second->address, "looking up %s found %s;%s", show(pool[i]).c_str(), found ? "another logger" : "nothing although it is alive", log.c_str());
        }
        Logger *const d = Logger::get_default_logger();
        PBT_CHECK(d != nullptr, "there is no default logger;%s", log.c_str());
        if (current)
            PBT_CHECK(d == current->address, "the default logger is another one than was set;%s", log.c_str());
        for (auto const &m : models)
        {
            if (m->seen)
                PBT_CHECK(m->seen->alive == (m->references > 0), "the logger %s is %s with %d references;%s", show(m->name).c_str(), m->seen->alive ? "alive" : "gone", m->references, log.c_str());
            if (!current)
                PBT_CHECK(m->references == 0 || d != m->address, "the default logger is one that was not set;%s", log.c_str());
        }
    }

    // Every name can be used again afterwards.
    handles.clear();
    Logger::set_default_logger(nullptr);
    for (auto const &name : pool)
    {
        PBT_CHECK(Logger::get(name) == nullptr, "looking up %s found a logger after all were dropped;%s", show(name).c_str(), log.c_str());
        auto seen = std::make_shared<Seen>();
        PBT_CHECK(Logger::create(name, config, std::make_unique<Recorder>(seen, true, -1)) != nullptr, "the name %s cannot be used again;%s", show(name).c_str(), log.c_str());
    }
    current = nullptr;
    statement(nullptr, nullptr, static_cast<unsigned>(src.below(4)), true);

    src.note(log);
    if (rejected)
        src.label("a creation failed");
    if (recreated)
        src.label("a name was used again");
    if (orphan_default)
        src.label("only the default refers to a logger");
    if (rejected || recreated || orphan_default)
        src.nontrivial();
}

// ---- several threads ----

struct Life // of one logger
{
    std::size_t name {0};
    Logger *address {nullptr};
    std::uint64_t create_from {0}, create_to {0};
    std::uint64_t held_until {0};          // the start of the last drop of a reference
    std::uint64_t gone_by {~0ull};         // the end of the last drop of a reference
    int references {0};
    bool failed {false};                   // its initialisation failed
};

struct Call // a failed creation, or a lookup
{
    std::size_t name {0};
    std::uint64_t from {0}, to {0};
    Life *found {nullptr};
    bool lookup {false};
};

struct Quick : fly::logger::Sink
{
    explicit Quick(bool starts) : m_starts(starts) { }
    bool initialize() override
    {
        sim::point();
        return m_starts;
    }
    bool stream(fly::logger::Log &&) override { return true; }
    bool m_starts;
};

void threads(Src &src)
{
    static auto const config = std::make_shared<fly::logger::LoggerConfig>();
    static std::vector<std::string> const pool = {"x", "y"};
    Logger::get_default_logger();

    struct Step
    {
        int what;
        std::size_t name;
        bool starts;
        std::size_t which;
        int gap;
    };
    std::size_t const n_threads = 2 + src.below(2);
    std::size_t const names = 1 + src.below(2);
    std::vector<std::vector<Step>> plan(n_threads);
    for (auto &p : plan)
    {
        std::size_t const n = 1 + src.below(8);
        for (std::size_t i = 0; i < n; ++i)
            p.push_back({static_cast<int>(src.weighted({4, 2, 4})), src.below(names), !src.chance(1, 5), src.below(4), static_cast<int>(src.below(3))});
    }

    std::vector<std::unique_ptr<Life>> lives; // in the order of recording
    std::vector<Call> calls;
    std::vector<bool> reusable(pool.size(), false);

    sim::run(src, [&]() {
        auto body = [&](std::size_t t) {
            std::vector<std::pair<Life *, Handle>> mine;
            auto drop = [&](std::size_t i) {
                Life *life = mine[i].first;
                {
                    sim::Quiet quiet;
                    life->held_until = sim::tick();
                }
                {
                    Handle h = std::move(mine[i].second);
                    mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(i));
                }
                sim::Quiet quiet;
                std::uint64_t const now = sim::tick();
                if (--life->references == 0)
                    life->gone_by = now;
            };
            for (auto const &step : plan[t])
            {
                for (int i = 0; i < step.gap; ++i)
                    sim::point();
                switch (step.what)
                {
                    case 0:
                    {
                        std::uint64_t from;
                        Life *life;
                        {
                            sim::Quiet quiet;
                            from = sim::tick();
                            lives.push_back(std::make_unique<Life>());
                            life = lives.back().get();
                            life->name = step.name;
                            life->create_from = from;
                        }
                        Handle h = Logger::create(pool[step.name], config, std::make_unique<Quick>(step.starts));
                        {
                            sim::Quiet quiet;
                            std::uint64_t const to = sim::tick();
                            life->create_to = to;
                            if (h)
                            {
                                life->address = h.get();
                                ++life->references;
                            }
                            else
                            {
                                // Whether it was there for a moment only its own sink knows.
                                life->failed = true;
                                life->gone_by = to;
                                if (step.starts)
                                    calls.push_back({step.name, from, to, nullptr, false});
                            }
                        }
                        if (h)
                            mine.emplace_back(life, std::move(h));
                        break;
                    }
                    case 1:
                    {
                        std::uint64_t from;
                        {
                            sim::Quiet quiet;
                            from = sim::tick();
                        }
                        Handle h = Logger::get(pool[step.name]);
                        Life *life = nullptr;
                        Life *early = nullptr;
                        {
                            sim::Quiet quiet;
                            std::uint64_t const to = sim::tick();
                            if (h)
                            {
                                for (auto const &l : lives)
                                    if (l->address == h.get() && l->gone_by == ~0ull && l->references > 0)
                                        life = l.get();
                                if (life)
                                    ++life->references;
                                else
                                {
                                    // Its creation is not done (or fails): it may stay a moment longer.
                                    lives.push_back(std::make_unique<Life>());
                                    early = lives.back().get();
                                    early->name = step.name;
                                    early->create_from = from;
                                    early->create_to = ~0ull;
                                    early->failed = true;
                                }
                            }
                            if (!early)
                                calls.push_back({step.name, from, to, life, true});
                        }
                        if (early)
                        {
                            h.reset();
                            sim::Quiet quiet;
                            early->gone_by = sim::tick();
                        }
                        if (life)
                            mine.emplace_back(life, std::move(h));
                        break;
                    }
                    default:
                        if (!mine.empty())
                            drop(step.which % mine.size());
                        break;
                }
            }
            while (!mine.empty())
                drop(0);
        };
        std::vector<std::thread> all;
        for (std::size_t t = 1; t < n_threads; ++t)
            all.emplace_back(body, t);
        body(0);
        for (auto &t : all)
            t.join();
        for (std::size_t i = 0; i < pool.size(); ++i)
        {
            bool const gone = Logger::get(pool[i]) == nullptr;
            reusable[i] = gone && Logger::create(pool[i], config, std::make_unique<Quick>(true)) != nullptr;
        }
    });

    std::string text;
    for (auto const &l : lives)
        text += strf(" %s %s %llu-%llu until %llu-%llu,", l->failed ? "not created" : "created", pool[l->name].c_str(), static_cast<unsigned long long>(l->create_from), static_cast<unsigned long long>(l->create_to), static_cast<unsigned long long>(l->held_until), static_cast<unsigned long long>(l->gone_by));
    for (auto const &c : calls)
        text += strf(" %s %s %llu-%llu,", c.lookup ? (c.found ? "found" : "did not find") : "was refused", pool[c.name].c_str(), static_cast<unsigned long long>(c.from), static_cast<unsigned long long>(c.to));

    for (std::size_t i = 0; i < pool.size(); ++i)
        PBT_CHECK(reusable[i], "%s cannot be used again after all loggers were dropped;%s", pool[i].c_str(), text.c_str());
    // A reference that is given up before another is taken may be the last one: held_until is the
    // start of the last drop.
    for (auto const &a : lives)
        for (auto const &b : lives)
            if (a != b && a->name == b->name && !a->failed && !b->failed && a->create_from <= b->create_from)
                PBT_CHECK(!(a->create_to < b->held_until && b->create_to < a->held_until), "two loggers called %s were alive at once;%s", pool[a->name].c_str(), text.c_str());
    bool contended = false;
    for (auto const &c : calls)
    {
        if (c.found)
        {
            PBT_CHECK(c.found->name == c.name, "looking up %s found a logger of another name;%s", pool[c.name].c_str(), text.c_str());
            PBT_CHECK(c.found->create_from < c.to && c.from < c.found->gone_by, "looking up %s found a logger that was gone;%s", pool[c.name].c_str(), text.c_str());
            continue;
        }
        bool excused = false;
        for (auto const &l : lives)
        {
            if (l->name != c.name)
                continue;
            if (c.lookup)
                PBT_CHECK(l->failed || !(l->create_to < c.from && c.to < l->held_until), "looking up %s found nothing although it is alive;%s", pool[c.name].c_str(), text.c_str());
            else if (l->create_from != c.from && l->create_from < c.to && c.from < l->gone_by)
                excused = true;
        }
        if (!c.lookup)
            PBT_CHECK(excused, "creating %s was refused although no logger has that name;%s", pool[c.name].c_str(), text.c_str());
        contended |= !c.lookup;
    }
    src.note(text);
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (contended)
        src.label("a creation was refused");
    if (contended || names < lives.size())
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"L03",
         "a creation failed, a name was used again, or only the default refers to a logger; with threads: a creation was refused or there were more creations than names",
         {
             {"history", history, 20000, 400000},
             {"threads", threads, 8000, 300000},
         },
         {},
         {"the default logger is not changed while other threads use it (documented)"}});
}
