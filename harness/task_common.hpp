// What the drivers of the task checks share: recorded tasks, and a shorthand for running a case
// with a task manager in the simulation.
#pragma once

#include "sim.hpp"

#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace tasks {

using Manager = std::shared_ptr<fly::task::TaskManager>;
using Runner = std::shared_ptr<fly::task::TaskRunner>;

inline constexpr std::int64_t s_forever = 300ll * 1000 * sim::ms;

// What happened to one task. Written within sim::Quiet scopes only.
struct Record
{
    std::string name;
    int runner {0};
    std::uint64_t post_from {0}, post_to {0}; // ticks around the call that posted it
    std::int64_t posted_at {0};               // virtual time before that call
    std::int64_t delay {0};
    bool posted {false};
    unsigned starts {0}, ends {0};
    std::uint64_t start {0}, end {0};
    std::int64_t started_at {0}, ended_at {0};
    int thread {-1};
};

class Log
{
public:
    // Records are made before the simulation starts (or in a Quiet scope), and stay where they are.
    Record *make(std::string name, int runner)
    {
        sim::Quiet quiet;
        m_records.push_back(std::make_unique<Record>());
        m_records.back()->name = std::move(name);
        m_records.back()->runner = runner;
        return m_records.back().get();
    }

    void posting(Record *r)
    {
        sim::Quiet quiet;
        r->post_from = sim::tick();
        r->posted_at = sim::world().now;
    }
    void posted(Record *r, bool accepted)
    {
        sim::Quiet quiet;
        r->post_to = sim::tick();
        if (!accepted)
            SIM_FAIL("posting %s was refused;%s", r->name.c_str(), show().c_str());
        r->posted = true;
    }
    void begin(Record *r)
    {
        sim::Quiet quiet;
        if (++r->starts > 1)
            SIM_FAIL("%s runs again;%s", r->name.c_str(), show().c_str());
        r->start = sim::tick();
        r->started_at = sim::world().now;
        r->thread = sim::t_id;
        ++m_running;
        m_most = std::max(m_most, m_running);
        m_threads.insert(sim::t_id);
    }
    void end(Record *r)
    {
        sim::Quiet quiet;
        ++r->ends;
        r->end = sim::tick();
        r->ended_at = sim::world().now;
        --m_running;
        ++m_ended;
    }

    // ---- to be called by the main thread, or from a predicate, or after the simulation ----

    unsigned running() const { return m_running; }
    unsigned most_running() const { return m_most; }
    std::size_t ended() const { return m_ended; }
    std::set<int> const &threads() const { return m_threads; }
    std::vector<std::unique_ptr<Record>> const &records() const { return m_records; }

    bool all_ended() const
    {
        return std::all_of(m_records.begin(), m_records.end(), [](auto const &r) { return r->ends > 0; });
    }

    std::string show() const
    {
        std::string s;
        for (auto const &r : m_records)
        {
            s += pbt::strf(" %s@%d", r->name.c_str(), r->runner);
            if (r->post_from)
                s += pbt::strf(" posted %llu-%llu", static_cast<unsigned long long>(r->post_from), static_cast<unsigned long long>(r->post_to));
            if (r->starts)
                s += pbt::strf(" ran %llu-%llu on %d", static_cast<unsigned long long>(r->start), static_cast<unsigned long long>(r->end), r->thread);
            s += ",";
        }
        return s;
    }

    // The tasks of one sequenced runner ran one after another, in an order that agrees with the
    // order in which they were posted.
    void check_sequence(int runner) const
    {
        std::vector<Record const *> all;
        for (auto const &r : m_records)
        {
            if (r->runner == runner && r->starts)
                all.push_back(r.get());
        }
        for (auto const *a : all)
        {
            for (auto const *b : all)
            {
                if (a == b)
                    continue;
                bool const before = a->end != 0 && a->end < b->start;
                bool const after = b->end != 0 && b->end < a->start;
                PBT_CHECK(before || after, "%s and %s of one sequence overlap;%s", a->name.c_str(), b->name.c_str(), show().c_str());
                if (a->delay == 0 && b->delay == 0 && a->post_to < b->post_from && a->post_to != 0)
                    PBT_CHECK(a->start < b->start, "%s was posted before %s but ran after it;%s", a->name.c_str(), b->name.c_str(), show().c_str());
            }
        }
    }

private:
    std::vector<std::unique_ptr<Record>> m_records;
    unsigned m_running {0}, m_most {0};
    std::size_t m_ended {0};
    std::set<int> m_threads;
};

// Waits for the condition in virtual time; the case fails if it does not come.
inline void expect(char const *what, Log const &log, std::function<bool()> condition)
{
    bool const ok = sim::wait_until(std::move(condition), s_forever);
    sim::Quiet quiet;
    if (!ok)
        SIM_FAIL("%s;%s", what, log.show().c_str());
}

} // namespace tasks
