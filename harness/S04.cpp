// Disposed handlers run no more work; workers, pools and loops tear down cleanly from any thread (also their own), their
// threads end and captured state is destroyed (leak, use-after-free, dead-lock and stuck-thread detection of the runtime).
#include "sched_workloads.hpp"
using namespace h;

static Drive drive(bool current = false)
{
    Drive d;
    d.gen.current      = current;
    d.gen.max_tasks    = 4;
    d.gen.max_reps     = 6;
    d.gen.throws       = sim::flip("with_throws");
    d.external_dispose = true;
    return d;
}
static void judge(Engine& e)
{
    Quiet q;
    e.check_disposed();
    e.check_counts();
}
SIM_SCENARIO(new_thread, 4)
{
    Engine e;
    on_new_thread(e, drive(true));
    judge(e);
}
SIM_SCENARIO(thread_pool, 3)
{
    Engine e;
    on_thread_pool(e, drive(true));
    judge(e);
}
SIM_SCENARIO(computational, 1)
{
    Engine e;
    on_computational(e, drive());
    judge(e);
}
SIM_SCENARIO(run_loop, 2)
{
    Engine e;
    on_run_loop(e, drive());
    judge(e);
}
static void one_after_the_other(Engine& e, Drive d, bool immediate)
{
    e.loose_first   = true;
    d.gen.workers   = 1;
    d.gen.nested    = !immediate;
    e.generate(d.gen);
    Threads th;
    {
        Task*    t  = &e.tasks[sim::param((uint32_t)e.tasks.size(), "extdisp_t")];
        int64_t  at = (int64_t)sim::param(12, "extdisp_ms") * MS / 2;
        th.spawn([&e, t, at] {
            if (at)
                sim::sleep_ns(at);
            e.dispose(*t);
        });
    }
    for (auto& t : e.tasks)
        if (t.in_run_of < 0)
        {
            if (immediate)
                e.schedule(rpp::schedulers::immediate::create_worker(), t);
            else
                e.schedule(rpp::schedulers::current_thread::create_worker(), t);
        }
    th.join_all();
}
SIM_SCENARIO(current_thread, 2)
{
    Engine e;
    one_after_the_other(e, drive(), false);
    judge(e);
}
SIM_SCENARIO(immediate, 1)
{
    Engine e;
    one_after_the_other(e, drive(), true);
    judge(e);
}
// a loop destroyed, or its last handle dropped by its own work, while work is pending
SIM_SCENARIO(run_loop_teardown, 2)
{
    sim::set_tick(20000);
    Engine e;
    Drive  d = drive();
    d.gen.workers = 1;
    e.generate(d.gen);
    unsigned mode = sim::param(3, "mode");
    auto     loop = std::make_shared<rpp::schedulers::run_loop>();
    std::vector<decltype(loop->create_worker())> workers{loop->create_worker()};
    unsigned                                     n = sim::param(4, "dispatches");
    if (mode == 0) // destroyed by another thread than the one that schedules
    {
        Threads th;
        th.spawn([&, l = std::move(loop)]() mutable {
            for (unsigned i = 0; i < n; ++i)
                l->dispatch_if_ready();
            l.reset();
        });
        loop.reset();
        schedule_roots(e, workers, d, false);
    }
    else if (mode == 1) // work that owns the loop
    {
        struct Nothing
        {
            static bool is_disposed() { return false; }
            static void on_error(const std::exception_ptr&) {}
        };
        workers[0].schedule([keep = loop](const Nothing&) -> rpp::schedulers::optional_delay_from_now { return std::nullopt; }, Nothing{});
        auto* raw = loop.get();
        loop.reset();
        raw->dispatch();
    }
    else
    {
        schedule_roots(e, workers, d, sim::flip("drop"));
        for (unsigned i = 0; i < n; ++i)
            loop->dispatch_if_ready();
        loop.reset();
    }
    sim::quiesce();
    Quiet q;
    e.check_disposed();
    e.check_counts(false);
}
// the pool, and the workers, are dropped by whoever finishes last, possibly inside the pool's own work
SIM_SCENARIO(pool_teardown, 2)
{
    Engine e;
    Drive  d      = drive();
    d.gen.workers = sim::param_range(1, 2, "workers");
    e.generate(d.gen);
    auto tp = std::make_shared<rpp::schedulers::thread_pool>(sim::param_range(1, 2, "poolsize"));
    {
        Threads th;
        for (unsigned i = 0; i < d.gen.workers; ++i)
            th.spawn([&e, i, tp]() mutable {
                auto w = tp->create_worker();
                struct Nothing
                {
                    static bool is_disposed() { return false; }
                    static void on_error(const std::exception_ptr&) {}
                };
                w.schedule([tp](const Nothing&) -> rpp::schedulers::optional_delay_from_now { return std::nullopt; }, Nothing{});
                tp.reset();
                for (auto& t : e.tasks)
                    if (t.worker == (int)i && t.in_run_of < 0)
                        e.schedule(w, t);
            });
        tp.reset();
    }
    sim::quiesce();
    judge(e);
}
