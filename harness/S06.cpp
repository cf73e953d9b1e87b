// current_thread: nested work runs after the current one, on the same thread, in due order, before the outermost call
// returns; threads are independent; the queue is left reusable.
#include "sched_workloads.hpp"
using namespace h;
using rpp::schedulers::current_thread;

static void generate(Engine& e)
{
    Engine::Gen g;
    g.max_tasks   = 6;
    g.max_reps    = 2;
    g.max_ms      = 3;
    g.throws      = sim::flip("with_throws");
    g.dispose     = sim::flip("with_dispose");
    e.loose_first = true;
    e.generate(g);
}

static void tree_done(Engine& e, uint32_t tid, uint64_t since)
{
    Quiet q;
    for (auto& t : e.tasks)
    {
        if (!t.sched)
            continue;
        SIM_CHECK(t.disp_b || (t.runs.size() == e.expected_runs(t) && t.runs.back().e), "not-drained", "the outermost schedule call returned but task %d ran %zu of %zu times", t.id, t.runs.size(), e.expected_runs(t));
        for (auto& r : t.runs)
            SIM_CHECK(r.tid == tid, "wrong-thread", "task %d scheduled on current_thread of T%u ran on T%u", t.id, tid, r.tid);
    }
    (void)since;
}

static void one_thread(Engine& e)
{
    uint32_t tid = sim::tid();
    bool     own = sim::param(3, "own_queue") == 1;
    if (own)
    {
        {
            auto guard = current_thread::own_queue_and_drain_finally_if_not_owned();
            for (auto& t : e.tasks)
                if (t.in_run_of < 0)
                {
                    e.schedule(current_thread::create_worker(), t);
                    Quiet q;
                    SIM_CHECK(t.runs.empty(), "ran-inside", "task %d ran although the thread's queue is owned", t.id);
                }
            // a nested guard owns nothing
            {
                auto inner = current_thread::own_queue_and_drain_finally_if_not_owned();
            }
            Quiet q;
            for (auto& t : e.tasks)
                SIM_CHECK(t.runs.empty(), "ran-inside", "task %d ran when an inner guard was released", t.id);
        }
        tree_done(e, tid, 0);
        return;
    }
    for (auto& t : e.tasks)
        if (t.in_run_of < 0)
        {
            e.schedule(current_thread::create_worker(), t);
            tree_done(e, tid, 0);
            Quiet q;
            // reusable and empty: the call itself executes work
            SIM_CHECK(t.disp_b || !t.runs.empty(), "not-run", "task %d did not run inside schedule", t.id);
        }
    SIM_CHECK(current_thread::get_queue() == nullptr, "queue-left", "the thread's queue is still installed");
}
static void judge(Engine& e)
{
    Quiet q;
    e.check_never_early();
    e.check_order();
    e.check_disposed();
    e.check_counts();
    e.check_prompt();
    // nested: starts after the work that scheduled it has returned
    for (auto& t : e.tasks)
        if (t.in_run_of >= 0 && !t.runs.empty())
            for (auto& r : e.tasks[(size_t)t.in_run_of].runs)
                SIM_CHECK(!(r.b < t.sched_b && t.sched_b < r.e) || t.runs[0].b > r.e, "ran-inside", "task %d ran inside task %d which scheduled it", t.id, t.in_run_of);
}
SIM_SCENARIO(single, 2)
{
    Engine e;
    generate(e);
    one_thread(e);
    judge(e);
}
SIM_SCENARIO(with_disposer, 2)
{
    Engine e;
    generate(e);
    {
        Threads th;
        Task*   t  = &e.tasks[sim::param((uint32_t)e.tasks.size(), "extdisp_t")];
        int64_t at = (int64_t)sim::param(12, "extdisp_ms") * MS / 2;
        th.spawn([&e, t, at] {
            if (at)
                sim::sleep_ns(at);
            e.dispose(*t);
        });
        one_thread(e);
    }
    judge(e);
}
SIM_SCENARIO(two_threads, 2)
{
    Engine a, b;
    generate(a);
    generate(b);
    {
        Threads th;
        th.spawn([&] { one_thread(a); });
        one_thread(b);
    }
    judge(a);
    judge(b);
}
// nested sources on the default scheduler: interleaving of two cold ranges is the documented breadth-first one
SIM_SCENARIO(nested_sources, 1)
{
    unsigned n = sim::param_range(1, 3, "n"), m = sim::param_range(1, 3, "m");
    Rec      rec;
    rec.yields = 0;
    {
        std::vector<int> outer;
        for (unsigned i = 0; i < n; ++i)
            outer.push_back((int)i);
        rpp::source::from_iterable(outer) | rpp::ops::flat_map([m](int i) {
            std::vector<int> v;
            for (unsigned k = 0; k < m; ++k)
                v.push_back(100 * (i + 1) + (int)k);
            return rpp::source::from_iterable(v);
        }) | rpp::ops::subscribe(observer(rec));
    }
    Quiet q;
    SIM_CHECK(rec.ending() == 'C' && rec.values().size() == n * m, "not-drained", "subscribe returned after %s", rec.str().c_str());
    SIM_CHECK(current_thread::get_queue() == nullptr, "queue-left", "the thread's queue is still installed");
    for (unsigned i = 0; i < n; ++i)
    {
        std::vector<int> mine;
        for (int v : rec.values())
            if (v / 100 == (int)i + 1)
                mine.push_back(v % 100);
        SIM_CHECK(mine.size() == m && std::is_sorted(mine.begin(), mine.end()), "order", "inner %u gave %s", i, rec.str().c_str());
    }
}
