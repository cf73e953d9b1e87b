// Returned delays: from now, from the previous due time (no drift), to an absolute time; end and error.
#include "sched_workloads.hpp"
using namespace h;

static Drive drive()
{
    Drive d;
    d.gen.dispose   = false;
    d.gen.nested    = sim::flip("with_nested");
    d.gen.max_tasks = 3;
    d.gen.max_reps  = 5;
    return d;
}
static void judge(Engine& e)
{
    Quiet q;
    e.check_counts();
    e.check_never_early();
    e.check_prompt();
}
SIM_SCENARIO(new_thread, 3)
{
    Engine e;
    on_new_thread(e, drive());
    judge(e);
}
SIM_SCENARIO(thread_pool, 2)
{
    Engine e;
    on_thread_pool(e, drive());
    judge(e);
}
SIM_SCENARIO(run_loop, 2)
{
    Engine e;
    on_run_loop(e, drive());
    judge(e);
}
SIM_SCENARIO(current_thread_nested, 2)
{
    Engine e;
    on_current_thread(e, drive());
    judge(e);
}
static void directly(Engine& e, bool immediate)
{
    Drive d         = drive();
    e.loose_first   = true;
    d.gen.workers   = 1;
    if (immediate)
        d.gen.nested = false;
    e.generate(d.gen);
    for (auto& t : e.tasks)
        if (t.in_run_of < 0)
        {
            if (immediate)
                e.schedule(rpp::schedulers::immediate::create_worker(), t);
            else
                e.schedule(rpp::schedulers::current_thread::create_worker(), t);
        }
}
SIM_SCENARIO(current_thread, 2)
{
    Engine e;
    directly(e, false);
    judge(e);
}
SIM_SCENARIO(immediate, 1)
{
    Engine e;
    directly(e, true);
    judge(e);
}
