// Drives sched_common's engine on the library's schedulers.
#pragma once
#include "sched_common.hpp"
#include <rpp/schedulers.hpp>

namespace h
{
struct Drive
{
    Engine::Gen gen;
    bool        external_dispose = false; // a thread that disposes handlers at random moments
    bool        drop             = true;  // worker handles may be dropped right after scheduling
};

// Root tasks are scheduled from 1..3 threads, each owning copies of the worker handles. Returns when they are done.
template<typename W>
void schedule_roots(Engine& e, std::vector<W>& workers, const Drive& d, bool drop_ours)
{
    unsigned nth = sim::param_range(1, 3, "threads");
    Threads  th;
    for (unsigned i = 0; i < nth; ++i)
    {
        std::vector<Task*>   mine;
        std::vector<int64_t> gaps;
        for (auto& t : e.tasks)
            if (t.in_run_of < 0 && (unsigned)t.id % nth == i)
            {
                int64_t gap = sim::param(3, "gap") == 1 ? (int64_t)sim::param(4, "gapms") * MS / 2 : 0;
                Quiet   q;
                mine.push_back(&t);
                gaps.push_back(gap);
            }
        unsigned y = sim::param(3, "thyield");
        th.spawn([&e, mine, gaps, y, ws = workers]() mutable {
            for (size_t k = 0; k < mine.size(); ++k)
            {
                if (gaps[k])
                    sim::sleep_ns(gaps[k]);
                sim::yield(y);
                e.schedule(ws[(size_t)mine[k]->worker], *mine[k]);
            }
        });
    }
    if (d.external_dispose)
    {
        unsigned                               n = sim::param_range(1, 2, "extdisp");
        std::vector<std::pair<Task*, int64_t>> plan;
        for (unsigned i = 0; i < n; ++i)
        {
            Task*   t  = &e.tasks[sim::param((uint32_t)e.tasks.size(), "extdisp_t")];
            int64_t at = (int64_t)sim::param(8, "extdisp_ms") * MS / 2;
            Quiet   q;
            plan.push_back({t, at});
        }
        unsigned y = sim::param(6, "extdisp_y");
        th.spawn([&e, plan, y] {
            sim::yield(y * 4);
            for (auto& [t, at] : plan)
            {
                if (at)
                    sim::sleep_ns(at);
                e.dispose(*t);
            }
        });
    }
    if (drop_ours)
        workers.clear();
}

// new_thread, thread_pool, computational: own threads
template<typename Make>
void drive_threads(Engine& e, const Drive& d, Make make)
{
    using W = decltype(make());
    e.generate(d.gen);
    std::vector<W> workers;
    for (unsigned i = 0; i < d.gen.workers; ++i)
        workers.push_back(make());
    bool drop = d.drop && sim::flip("drop");
    schedule_roots(e, workers, d, drop);
    sim::quiesce();
}
inline void on_new_thread(Engine& e, Drive d)
{
    d.gen.workers = sim::param_range(1, 2, "workers");
    drive_threads(e, d, [] { return rpp::schedulers::new_thread::create_worker(); });
}
inline void on_thread_pool(Engine& e, Drive d)
{
    d.gen.workers = sim::param_range(1, 3, "workers");
    auto tp       = std::make_unique<rpp::schedulers::thread_pool>(sim::param_range(1, 2, "poolsize"));
    drive_threads(e, d, [&] {
        auto w = tp->create_worker();
        return w;
    });
}
inline void on_computational(Engine& e, Drive d)
{
    sim::allow_idle_threads();
    sim::allow_leaks();
    d.gen.workers = sim::param_range(1, 2, "workers");
    drive_threads(e, d, [] { return rpp::schedulers::computational::create_worker(); });
}
// run_loop: one dispatching thread, blocking or polling
inline void on_run_loop(Engine& e, Drive d)
{
    sim::set_tick(20000);
    SLACK         = 1500000;
    d.gen.workers = 1;
    rpp::schedulers::run_loop loop{};
    e.generate(d.gen);
    std::vector<decltype(loop.create_worker())> workers{loop.create_worker()};
    bool                                        poll = sim::flip("poll");
    volatile bool                               stop = false;
    Threads                                     th;
    th.spawn([&] {
        while (!stop)
        {
            if (!poll)
                loop.dispatch();
            else
            {
                if (loop.is_any_ready_schedulable())
                    loop.dispatch_if_ready();
                else
                    sim::sleep_ns(300000);
                loop.dispatch_if_ready();
            }
        }
    });
    schedule_roots(e, workers, d, false);
    struct Nothing
    {
        static bool is_disposed() { return false; }
        static void on_error(const std::exception_ptr&) {}
    };
    // wait until all work is done (or clearly lost), then stop the dispatcher through the loop itself
    for (int i = 0; i < 1000; ++i)
    {
        bool pending = false;
        {
            Quiet q;
            for (auto& t : e.tasks)
                pending |= !t.disp_b && (t.runs.size() < e.expected_runs(t) || !t.runs.back().e) && (t.in_run_of < 0 || t.sched);
        }
        if (!pending)
            break;
        sim::sleep_ns(MS);
    }
    loop.create_worker().schedule(
        at(sim::now()), [&](const Nothing&) -> rpp::schedulers::optional_delay_from_now {
            stop = true;
            return std::nullopt;
        },
        Nothing{});
    th.join_all();
}
// current_thread: everything is scheduled from inside one outer task
inline void on_current_thread(Engine& e, Drive d)
{
    d.gen.workers = 1;
    e.generate(d.gen);
    struct Nothing
    {
        static bool is_disposed() { return false; }
        static void on_error(const std::exception_ptr&) {}
    };
    auto w = rpp::schedulers::current_thread::create_worker();
    w.schedule(
        [&](const Nothing&) -> rpp::schedulers::optional_delay_from_now {
            for (auto& t : e.tasks)
                if (t.in_run_of < 0)
                    e.schedule(w, t);
            return std::nullopt;
        },
        Nothing{});
}
} // namespace h
