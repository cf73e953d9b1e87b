// Every accepted schedulable runs exactly once per scheduling, in bounded time, and no wake-up is lost.
#include "sched_workloads.hpp"
#include "many.hpp"
using namespace h;

static Drive drive(bool current = false)
{
    Drive d;
    d.gen.dispose   = sim::param(3, "with_dispose") == 1;
    d.gen.current   = current;
    d.gen.max_tasks = 6;
    return d;
}
static void judge(Engine& e)
{
    Quiet q;
    e.check_counts();
    e.check_prompt();
}
SIM_SCENARIO(new_thread, 4)
{
    Engine e;
    on_new_thread(e, drive(true));
    judge(e);
}
SIM_SCENARIO(thread_pool, 3)
{
    Engine e;
    on_thread_pool(e, drive(true));
    judge(e);
}
SIM_SCENARIO(computational, 1)
{
    Engine e;
    on_computational(e, drive());
    judge(e);
}
SIM_SCENARIO(run_loop, 3)
{
    Engine e;
    on_run_loop(e, drive());
    judge(e);
}
SIM_SCENARIO(current_thread, 1)
{
    Engine e;
    on_current_thread(e, drive());
    judge(e);
}
// workers created by several threads at once, dropped right after scheduling
template<typename F>
static void created_concurrently(F make)
{
    Engine      e;
    unsigned    nth = sim::param_range(2, 3, "threads");
    Engine::Gen g;
    g.workers   = nth;
    g.dispose   = false;
    g.nested    = false;
    g.max_tasks = 5;
    e.generate(g);
    {
        Threads th;
        for (unsigned i = 0; i < nth; ++i)
            th.spawn([&, i] {
                auto w = make();
                for (auto& t : e.tasks)
                    if (t.worker == (int)i)
                        e.schedule(w, t);
            });
    }
    sim::quiesce();
    judge(e);
}
SIM_SCENARIO(create_pool_workers, 1)
{
    rpp::schedulers::thread_pool tp{sim::param_range(1, 2, "poolsize")};
    created_concurrently([&] { return tp.create_worker(); });
}
SIM_SCENARIO(create_computational_workers, 1)
{
    sim::allow_idle_threads();
    sim::allow_leaks();
    created_concurrently([&] { return rpp::schedulers::computational::create_worker(); });
}
SIM_SCENARIO(create_new_threads, 1)
{
    created_concurrently([&] { return rpp::schedulers::new_thread::create_worker(); });
}
// many tasks waiting at once
SIM_SCENARIO(many_tasks, 1)
{
    sim::set_no_time_slip();
    unsigned n = many(1030), ran = 0, kind = sim::param(4, "scheduler"), spread = sim::param(4, "spread") * 7 + 1;
    std::vector<std::pair<int64_t, unsigned>> want;
    unsigned                                  bad = 0;
    std::optional<rpp::schedulers::thread_pool> pool;
    rpp::schedulers::run_loop                 loop;
    auto                                      obs = rpp::make_lambda_observer<int>([](int) {}, [](const std::exception_ptr&) {}, [] {}).as_dynamic();
    auto go = [&](auto worker) {
        // (a first task keeps the worker busy until all are there)
        auto t0 = worker.now() + std::chrono::seconds{1};
        for (unsigned i = 0; i < n; ++i)
        {
            int64_t due = (int64_t)(i * 2654435761u % spread) * 1000;
            {
                Quiet q;
                want.push_back({due, i});
            }
            worker.schedule(t0 + std::chrono::nanoseconds{due}, [&, i](const auto&) -> rpp::schedulers::optional_delay_from_now {
                Quiet q;
                if (ran >= want.size() || want[ran].second != i)
                    ++bad;
                ++ran;
                return {}; }, obs);
        }
        Quiet q;
        std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first < b.first; });
    };
    switch (kind)
    {
    case 0: go(rpp::schedulers::new_thread::create_worker()); break;
    case 1: pool.emplace(2); go(pool->create_worker()); break;
    case 2:
        go(loop.create_worker());
        while (!loop.is_empty())
            loop.dispatch();
        break;
    default:
        sim::allow_idle_threads(); // (of the pool that lives as long as the program)
        go(rpp::schedulers::computational::create_worker());
        break;
    }
    sim::quiesce(sim::now() + 3000000000);
    Quiet q;
    SIM_CHECK(ran == n && !bad, "lost", "%u of %u tasks ran, %u of them out of order", ran, n, bad);
}
