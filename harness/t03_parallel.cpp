// T03: parallel task runners and the task manager run every task exactly once.
//
// Generated posts, blocking tasks and start/stop histories under generated schedules with virtual
// time (sim.hpp), judged by what the tasks recorded.
#include "task_common.hpp"

using namespace pbt;
using namespace tasks;

namespace {

// ---- posts from several threads and tasks --------------------------------------------------------

struct Plan
{
    Record *record {nullptr};
    int runner {0};
    unsigned points {0};
    std::int64_t sleep {0};
    std::vector<std::unique_ptr<Plan>> children;
};

struct World
{
    Log log;
    std::vector<Runner> runners;
};

void post(World &w, Plan *plan);

void run_task(World &w, Plan *plan)
{
    w.log.begin(plan->record);
    for (unsigned i = 0; i < plan->points; ++i)
        sim::point();
    if (plan->sleep)
        std::this_thread::sleep_for(std::chrono::nanoseconds(plan->sleep));
    for (auto &child : plan->children)
        post(w, child.get());
    w.log.end(plan->record);
}

void post(World &w, Plan *plan)
{
    w.log.posting(plan->record);
    bool const posted = w.runners[static_cast<std::size_t>(plan->runner)]->post_task(FROM_HERE, [&w, plan]() { run_task(w, plan); });
    w.log.posted(plan->record, posted);
}

std::unique_ptr<Plan> make_plan(Src &src, World &w, int runners, std::string const &name, int depth, std::size_t &budget)
{
    auto plan = std::make_unique<Plan>();
    plan->runner = static_cast<int>(src.below(static_cast<std::uint64_t>(runners)));
    plan->record = w.log.make(name, plan->runner);
    plan->points = static_cast<unsigned>(src.below(3));
    if (src.chance(1, 6))
        plan->sleep = src.pick({1, 5, 15, 100}) * sim::ms;
    if (depth > 0 && src.chance(1, 4))
    {
        std::size_t const n = 1 + src.below(3);
        for (std::size_t i = 0; i < n && budget > 0; ++i)
        {
            --budget;
            plan->children.push_back(make_plan(src, w, runners, name + "." + std::to_string(i), depth - 1, budget));
        }
    }
    return plan;
}

void posts(Src &src)
{
    auto w = std::make_shared<World>();
    unsigned const workers = 1 + static_cast<unsigned>(src.below(4));
    int const runners = 1 + static_cast<int>(src.below(2));
    std::size_t const posters = 1 + src.below(3);
    std::size_t budget = 24;
    std::vector<std::vector<std::unique_ptr<Plan>>> plans(posters);
    for (std::size_t p = 0; p < posters; ++p)
    {
        std::size_t const n = 1 + src.below(6);
        for (std::size_t i = 0; i < n && budget > 0; ++i)
        {
            --budget;
            plans[p].push_back(make_plan(src, *w, runners, strf("%zu/%zu", p, i), 2, budget));
        }
    }
    std::set<int> posting;
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        SIM_CHECK(manager != nullptr, "no task manager");
        for (int r = 0; r < runners; ++r)
            w->runners.push_back(fly::task::ParallelTaskRunner::create(manager));
        auto poster = [&](std::size_t p) {
            {
                sim::Quiet quiet;
                posting.insert(sim::thread_id());
            }
            for (auto &plan : plans[p])
                post(*w, plan.get());
        };
        std::vector<std::thread> threads;
        for (std::size_t p = 1; p < posters; ++p)
            threads.emplace_back(poster, p);
        poster(0);
        for (auto &t : threads)
            t.join();
        expect("a posted task never ran", w->log, [&]() { return w->log.all_ended(); });
        sim::sleep(100 * sim::ms);
        SIM_CHECK(manager->stop(), "stop() of a running manager failed");
        w->runners.clear();
    });
    PBT_CHECK(w->log.threads().size() <= workers, "tasks ran on %zu threads of %u;%s", w->log.threads().size(), workers, w->log.show().c_str());
    for (int t : posting)
        PBT_CHECK(w->log.threads().count(t) == 0, "a task ran on the thread %d that posts;%s", t, w->log.show().c_str());
    src.note(strf("%u workers, %d runners, %zu posters:", workers, runners, posters) + w->log.show());
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (w->log.most_running() > 1)
        src.label("tasks overlapped");
    if (w->log.records().size() >= 3 && (posters > 1 || w->log.most_running() > 1))
        src.nontrivial();
}

// ---- width: as many tasks in progress as there are threads -----------------------------------------

void width(Src &src)
{
    Log log;
    unsigned const workers = 1 + static_cast<unsigned>(src.chance(1, 12) ? src.below(40) : src.below(5)); // more than there are processors, too
    bool const sequenced = src.chance(1, 3); // one sequenced runner per task instead of a parallel one
    unsigned const extra = static_cast<unsigned>(src.below(4));
    unsigned const rounds = 1 + static_cast<unsigned>(src.below(2));
    std::atomic<unsigned> counts[2] = {0, 0};
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        std::vector<Runner> runners;
        auto parallel = fly::task::ParallelTaskRunner::create(manager);
        for (unsigned round = 0; round < rounds; ++round)
        {
            auto &in_progress = counts[round];
            for (unsigned i = 0; i < workers; ++i)
            {
                Record *r = log.make(strf("r%u wide %u", round, i), static_cast<int>(i));
                Runner runner = parallel;
                if (sequenced)
                {
                    runner = fly::task::SequencedTaskRunner::create(manager);
                    runners.push_back(runner);
                }
                log.posting(r);
                log.posted(r, runner->post_task(FROM_HERE, [&log, &in_progress, workers, r]() {
                    log.begin(r);
                    ++in_progress;
                    expect("not as many tasks in progress as there are threads", log, [&]() { return in_progress.load() == workers; });
                    log.end(r);
                }));
            }
            for (unsigned i = 0; i < extra; ++i)
            {
                Record *r = log.make(strf("r%u extra %u", round, i), -1);
                log.posting(r);
                log.posted(r, parallel->post_task(FROM_HERE, [&log, r]() {
                    log.begin(r);
                    log.end(r);
                }));
            }
            expect("a posted task never ran", log, [&]() { return log.all_ended(); });
        }
        manager->stop();
    });
    PBT_CHECK(log.most_running() <= workers, "%u tasks in progress on %u threads;%s", log.most_running(), workers, log.show().c_str());
    src.note(strf("%u workers%s, %u extra, %u rounds:", workers, sequenced ? " (sequenced)" : "", extra, rounds) + log.show());
    if (workers > 1)
        src.nontrivial();
}

// ---- start, stop and post ----------------------------------------------------------------------------

void lifecycle(Src &src)
{
    struct Step
    {
        unsigned kind;
        unsigned tasks;
        bool sequenced;
        std::int64_t pause;
    };
    Log log;
    unsigned const workers = 1 + static_cast<unsigned>(src.below(3));
    std::size_t const n = 1 + src.below(7);
    std::vector<Step> steps;
    for (std::size_t i = 0; i < n; ++i)
    {
        Step s {};
        s.kind = static_cast<unsigned>(src.weighted({4, 3, 3, 2, 1}));
        s.tasks = 1 + static_cast<unsigned>(src.below(4));
        s.sequenced = src.flip();
        s.pause = src.pick({0, 1, 9, 25}) * sim::ms;
        steps.push_back(s);
    }
    std::string history = strf("%u workers:", workers);
    bool raced = false, restarted = false;
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        SIM_CHECK(manager != nullptr, "no task manager");
        auto parallel = fly::task::ParallelTaskRunner::create(manager);
        auto sequenced = fly::task::SequencedTaskRunner::create(manager);
        bool running = true;
        int number = 0;
        auto post_tasks = [&](unsigned count, bool seq) {
            for (unsigned i = 0; i < count; ++i)
            {
                Record *r = nullptr;
                {
                    sim::Quiet quiet;
                    r = log.make(strf("%s%d", seq ? "s" : "p", number++), seq ? 0 : 1);
                }
                Runner runner = seq ? Runner(sequenced) : Runner(parallel);
                log.posting(r);
                log.posted(r, runner->post_task(FROM_HERE, [&log, r]() {
                    log.begin(r);
                    sim::point();
                    log.end(r);
                }));
            }
        };
        auto stop = [&]() {
            bool const stopped = manager->stop();
            {
                sim::Quiet quiet;
                if (stopped != running)
                    SIM_FAIL("stop() is %d of a manager that is%s running;%s%s", stopped, running ? "" : " not", history.c_str(), log.show().c_str());
                if (log.running() != 0)
                    SIM_FAIL("a task is in progress after stop();%s%s", history.c_str(), log.show().c_str());
            }
            running = false;
        };
        auto quiet_now = [&](std::int64_t pause) {
            std::size_t const before = log.ended();
            sim::sleep(pause + 100 * sim::ms);
            if (log.ended() != before || log.running() != 0)
                SIM_FAIL("a task ran while the manager was stopped;%s%s", history.c_str(), log.show().c_str());
        };
        for (auto const &s : steps)
        {
            switch (s.kind)
            {
                case 0:
                    history += strf(" post %u;", s.tasks);
                    post_tasks(s.tasks, s.sequenced);
                    if (s.pause)
                        sim::sleep(s.pause);
                    break;
                case 1:
                    history += " stop;";
                    stop();
                    quiet_now(s.pause);
                    break;
                case 2:
                {
                    history += " start;";
                    bool const started = manager->start();
                    SIM_CHECK(started == !running, "start() is %d of a manager that is%s running;%s", started, running ? "" : " not", history.c_str());
                    restarted |= started;
                    running = true;
                    break;
                }
                case 3:
                {
                    history += strf(" stop while posting %u;", s.tasks);
                    raced = true;
                    std::thread poster([&]() {
                        for (unsigned i = 0; i < s.tasks; ++i)
                        {
                            post_tasks(1, s.sequenced);
                            sim::sleep(s.pause / 8);
                        }
                    });
                    stop();
                    std::size_t const before = log.ended();
                    poster.join();
                    quiet_now(0);
                    if (log.ended() != before)
                        SIM_FAIL("a task ran after stop();%s%s", history.c_str(), log.show().c_str());
                    break;
                }
                default:
                {
                    history += " start by two threads;";
                    std::atomic<int> started {0};
                    std::thread other([&]() { started += manager->start() ? 1 : 0; });
                    other.join();
                    started += manager->start() ? 1 : 0;
                    SIM_CHECK(started.load() == (running ? 0 : 1), "%d of two start() succeeded of a manager that is%s running;%s", started.load(), running ? "" : " not", history.c_str());
                    restarted |= !running;
                    running = true;
                    break;
                }
            }
        }
        if (!running)
        {
            SIM_CHECK(manager->start(), "start() of a stopped manager failed;%s", history.c_str());
            history += " start;";
            restarted = true;
            running = true;
        }
        expect(("a posted task never ran;" + history).c_str(), log, [&]() { return log.all_ended(); });
        stop();
        SIM_CHECK(!manager->stop(), "stop() of a stopped manager succeeded");
    });
    log.check_sequence(0);
    src.note(history + log.show());
    if (raced)
        src.label("posts race with stop");
    if (restarted)
        src.label("restarted");
    if (restarted && !log.records().empty())
        src.nontrivial();
}

// ---- the end of runners and managers -------------------------------------------------------------------

// Tasks of a runner that is gone may be dropped, but never run twice, and leave the others alone.
void dropped(Src &src)
{
    Log log;
    unsigned const workers = 1 + static_cast<unsigned>(src.below(3));
    unsigned const before = static_cast<unsigned>(src.below(5));
    unsigned const other = 1 + static_cast<unsigned>(src.below(4));
    bool const sequenced = src.flip(), other_sequenced = src.flip();
    std::vector<Record *> kept;
    bool some_dropped = false;
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        auto make = [&](bool seq) {
            return seq ? Runner(fly::task::SequencedTaskRunner::create(manager)) : Runner(fly::task::ParallelTaskRunner::create(manager));
        };
        Runner gone = make(sequenced), stays = make(other_sequenced);
        auto post_one = [&](Runner const &runner, int id, unsigned i) {
            Record *r = log.make(strf("%s %u", id ? "stays" : "gone", i), id);
            log.posting(r);
            log.posted(r, runner->post_task(FROM_HERE, [&log, r]() {
                log.begin(r);
                sim::point();
                log.end(r);
            }));
            if (id)
                kept.push_back(r);
        };
        for (unsigned i = 0; i < std::max(before, other); ++i)
        {
            if (i < before)
                post_one(gone, 0, i);
            if (i < other)
                post_one(stays, 1, i);
        }
        gone.reset();
        expect("a task of another runner never ran", log, [&]() {
            return std::all_of(kept.begin(), kept.end(), [](Record *r) { return r->ends != 0; });
        });
        sim::sleep(100 * sim::ms);
        SIM_CHECK(manager->stop(), "stop() failed");
        std::weak_ptr<fly::task::TaskManager> weak = manager;
        manager.reset();
        SIM_CHECK(weak.expired(), "a stopped manager outlives its last reference");
        bool const posted = stays->post_task(FROM_HERE, []() { SIM_FAIL("a task ran without a manager"); });
        bool const delayed = stays->post_task_with_delay(FROM_HERE, std::chrono::milliseconds(1), []() { SIM_FAIL("a task ran without a manager"); });
        if (!other_sequenced)
            SIM_CHECK(!posted, "posting to a manager that is gone succeeded");
        SIM_CHECK(!delayed, "posting with a delay to a manager that is gone succeeded");
        sim::sleep(100 * sim::ms);
    });
    if (sequenced)
        log.check_sequence(0);
    if (other_sequenced)
        log.check_sequence(1);
    for (auto const &r : log.records())
        some_dropped |= r->starts == 0;
    src.note(strf("%u workers:", workers) + log.show());
    if (some_dropped)
        src.label("a task was dropped with its runner");
    if (before > 0)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"T03",
         "three or more tasks with several posting threads or overlap; several threads; a restart with tasks; tasks of a runner that goes away",
         {
             {"posts", posts, 3000, 150000},
             {"width", width, 1200, 30000},
             {"lifecycle", lifecycle, 4000, 150000},
             {"dropped", dropped, 1500, 40000},
         },
         {},
         {"threads are switched at synchronisation operations only; between them, accesses are checked by the race detector"}});
}
