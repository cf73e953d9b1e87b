// Work of one worker never overlaps; effects of one run (and of the scheduling thread) are visible to the next.
// Overlap is checked on entry of every run; visibility by the happens-before race detector on plain per-worker and
// per-task cells that every run reads and writes.
#include "sched_workloads.hpp"
using namespace h;

static Drive drive(bool current = false)
{
    Drive d;
    d.gen.dispose          = sim::flip("with_dispose");
    d.gen.current          = current;
    d.gen.max_tasks        = 6;
    d.gen.max_ms           = 2;
    d.external_dispose     = sim::param(4, "ext") == 1;
    return d;
}
SIM_SCENARIO(new_thread, 4)
{
    Engine e;
    on_new_thread(e, drive(true));
}
SIM_SCENARIO(thread_pool, 3)
{
    Engine e;
    on_thread_pool(e, drive(true));
}
SIM_SCENARIO(computational, 1)
{
    Engine e;
    on_computational(e, drive());
}
SIM_SCENARIO(run_loop, 2)
{
    Engine e;
    on_run_loop(e, drive());
}
