// T02: a sequenced task runner runs each task once, in order, without overlap.
//
// Plans of posts from several threads and from inside tasks run under generated schedules with
// virtual time (sim.hpp). Oracle: the recorded posts and executions. Every task also touches plain
// memory of its runner, so that the race detector reports tasks that do not see each other's
// effects.
#include "task_common.hpp"

using namespace pbt;
using namespace tasks;

namespace {

struct Plan
{
    Record *record {nullptr};
    int runner {0};
    unsigned points {0};
    std::int64_t sleep {0};
    std::vector<std::unique_ptr<Plan>> children;
};

struct World
{
    Log log;
    std::vector<Runner> runners;
    std::vector<std::vector<int>> effects; // plain memory, one per runner
};

void post(World &w, Plan *plan);

void run_task(World &w, Plan *plan)
{
    w.log.begin(plan->record);
    auto &effects = w.effects[static_cast<std::size_t>(plan->runner)];
    effects.push_back(static_cast<int>(effects.size()));
    for (unsigned i = 0; i < plan->points; ++i)
        sim::point();
    if (plan->sleep)
        std::this_thread::sleep_for(std::chrono::nanoseconds(plan->sleep));
    for (auto &child : plan->children)
        post(w, child.get());
    w.log.end(plan->record);
}

void post(World &w, Plan *plan)
{
    w.log.posting(plan->record);
    bool const posted = w.runners[static_cast<std::size_t>(plan->runner)]->post_task(FROM_HERE, [&w, plan]() { run_task(w, plan); });
    w.log.posted(plan->record, posted);
}

std::unique_ptr<Plan> make_plan(Src &src, World &w, int runners, std::string const &name, int depth, std::size_t &budget)
{
    auto plan = std::make_unique<Plan>();
    plan->runner = static_cast<int>(src.below(static_cast<std::uint64_t>(runners)));
    plan->record = w.log.make(name, plan->runner);
    plan->points = static_cast<unsigned>(src.below(3));
    if (src.chance(1, 8))
        plan->sleep = src.pick({1, 5, 15, 100}) * sim::ms;
    if (depth > 0 && src.chance(1, 4))
    {
        std::size_t const n = 1 + src.below(3);
        for (std::size_t i = 0; i < n && budget > 0; ++i)
        {
            --budget;
            plan->children.push_back(make_plan(src, w, runners, name + "." + std::to_string(i), depth - 1, budget));
        }
    }
    return plan;
}

void sequences(Src &src)
{
    auto w = std::make_shared<World>();
    unsigned const workers = 1 + static_cast<unsigned>(src.below(4));
    int const runners = 1 + static_cast<int>(src.below(3));
    std::size_t const posters = 1 + src.below(3);
    std::size_t budget = 24;
    std::vector<std::vector<std::unique_ptr<Plan>>> plans(posters);
    std::vector<std::vector<unsigned>> gaps(posters);
    for (std::size_t p = 0; p < posters; ++p)
    {
        std::size_t const n = 1 + src.below(6);
        for (std::size_t i = 0; i < n && budget > 0; ++i)
        {
            --budget;
            plans[p].push_back(make_plan(src, *w, runners, strf("%zu/%zu", p, i), 2, budget));
            gaps[p].push_back(static_cast<unsigned>(src.weighted({6, 2, 1, 1})));
        }
    }
    w->effects.resize(static_cast<std::size_t>(runners));

    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        SIM_CHECK(manager != nullptr, "no task manager");
        for (int r = 0; r < runners; ++r)
            w->runners.push_back(fly::task::SequencedTaskRunner::create(manager));
        auto poster = [&](std::size_t p) {
            for (std::size_t i = 0; i < plans[p].size(); ++i)
            {
                switch (gaps[p][i])
                {
                    case 1: sim::point(); break;
                    case 2: sim::sleep(5 * sim::ms); break;
                    case 3: sim::sleep(40 * sim::ms); break;
                    default: break;
                }
                post(*w, plans[p][i].get());
            }
        };
        std::vector<std::thread> threads;
        for (std::size_t p = 1; p < posters; ++p)
            threads.emplace_back(poster, p);
        poster(0);
        for (auto &t : threads)
            t.join();
        expect("a posted task never ran", w->log, [&]() { return w->log.all_ended(); });
        // and nothing more happens
        sim::sleep(100 * sim::ms);
        SIM_CHECK(manager->stop(), "stop() of a running manager failed");
        w->runners.clear();
    });

    std::size_t most = 0;
    for (int r = 0; r < runners; ++r)
    {
        w->log.check_sequence(r);
        std::size_t count = 0;
        for (auto const &record : w->log.records())
            count += record->runner == r;
        auto const &effects = w->effects[static_cast<std::size_t>(r)];
        PBT_CHECK(effects.size() == count, "%zu tasks of runner %d had %zu effects;%s", count, r, effects.size(), w->log.show().c_str());
        most = std::max(most, count);
    }
    PBT_CHECK(w->log.most_running() <= workers, "%u tasks ran at once on %u threads", w->log.most_running(), workers);
    src.note(strf("%u workers, %d runners, %zu posters:", workers, runners, posters) + w->log.show());
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (w->log.most_running() > 1)
        src.label("tasks of different runners overlapped");
    bool waited = false;
    for (auto const &a : w->log.records())
        for (auto const &b : w->log.records())
            waited |= a->runner == b->runner && a->start < b->post_from && b->post_to < a->end;
    if (waited)
        src.label("a task was posted while another of its sequence ran");
    if (most >= 2 && (posters > 1 || waited))
        src.nontrivial();
}

// Tasks that wait for tasks of other runners: with a free thread, those must run.
void independence(Src &src)
{
    Log log;
    unsigned const workers = 2 + static_cast<unsigned>(src.below(3));
    unsigned const blocked = 1 + static_cast<unsigned>(src.below(workers - 1));
    unsigned const behind = static_cast<unsigned>(src.below(3)); // tasks queued behind the blocked ones
    unsigned const free_tasks = 1 + static_cast<unsigned>(src.below(4));
    std::atomic<unsigned> done {0};
    std::atomic<bool> finish {false};
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        std::vector<Runner> runners;
        for (unsigned i = 0; i < blocked; ++i)
        {
            auto runner = fly::task::SequencedTaskRunner::create(manager);
            runners.push_back(runner);
            Record *r = log.make(strf("blocked %u", i), static_cast<int>(i));
            log.posting(r);
            log.posted(r, runner->post_task(FROM_HERE, [&log, &finish, &done, free_tasks, r]() {
                log.begin(r);
                expect("a runner's tasks wait for another runner's", log, [&]() { return done.load() == free_tasks; });
                log.end(r);
            }));
            for (unsigned k = 0; k < behind; ++k)
            {
                Record *q = log.make(strf("behind %u.%u", i, k), static_cast<int>(i));
                log.posting(q);
                log.posted(q, runner->post_task(FROM_HERE, [&log, q]() {
                    log.begin(q);
                    log.end(q);
                }));
            }
        }
        auto runner = fly::task::SequencedTaskRunner::create(manager);
        for (unsigned i = 0; i < free_tasks; ++i)
        {
            Record *r = log.make(strf("free %u", i), static_cast<int>(blocked));
            log.posting(r);
            log.posted(r, runner->post_task(FROM_HERE, [&log, &done, r]() {
                log.begin(r);
                sim::point();
                ++done;
                log.end(r);
            }));
        }
        expect("a posted task never ran", log, [&]() { return log.all_ended(); });
        manager->stop();
    });
    for (unsigned i = 0; i <= blocked; ++i)
        log.check_sequence(static_cast<int>(i));
    src.note(strf("%u workers, %u blocked:", workers, blocked) + log.show());
    src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"T02",
         "a runner got two or more tasks, from several threads or while one of its tasks ran; or tasks that wait for another runner's",
         {
             {"sequences", sequences, 4000, 200000},
             {"independence", independence, 1500, 40000},
         },
         {},
         {"threads are switched at synchronisation operations only; between them, accesses are checked by the race detector"}});
}
