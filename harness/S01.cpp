// Due-time order, first-in first-out on ties, never early, prompt when idle.
#include "sched_workloads.hpp"
using namespace h;

static void judge(Engine& e)
{
    Quiet q;
    e.check_never_early();
    e.check_order();
    e.check_prompt();
}
static Drive drive(bool current = false)
{
    Drive d;
    d.gen.dispose   = sim::flip("with_dispose");
    d.gen.throws    = false;
    d.gen.current   = current;
    d.gen.max_tasks = 5;
    return d;
}
SIM_SCENARIO(new_thread, 4)
{
    Engine e;
    on_new_thread(e, drive(true));
    judge(e);
}
SIM_SCENARIO(thread_pool, 2)
{
    Engine e;
    on_thread_pool(e, drive());
    judge(e);
}
SIM_SCENARIO(computational, 1)
{
    Engine e;
    on_computational(e, drive());
    judge(e);
}
SIM_SCENARIO(run_loop, 2)
{
    Engine e;
    on_run_loop(e, drive());
    judge(e);
}
SIM_SCENARIO(current_thread, 2)
{
    Engine e;
    on_current_thread(e, drive());
    judge(e);
}
