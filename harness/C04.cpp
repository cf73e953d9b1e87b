// EXTRA: zoo.cpp zoo_single.cpp zoo_multi.cpp zoo_time.cpp zoo_static0.cpp zoo_static1.cpp zoo_static2.cpp zoo_static3.cpp zoo_static4.cpp
// Every upstream subscription is disposed exactly once when the subscription ends; afterwards nothing is left alive
// (heap blocks of the library and of its user are counted by the simulator) and nothing freed is touched.
#include "zoo.hpp"
using namespace h;

namespace
{
// ends: 0 by itself, 1 dispose by another thread, 2 dispose inside a callback, 3 handle dropped, disposed only at the end
void pipeline(Zoo& z, unsigned stages)
{
    unsigned ends = sim::param(4, "ends");
    if (sim::param(4, "throws") == 1)
        z.throw_at = (int)sim::param_range(1, 8, "throwat");
    Rec rec;
    rec.yields       = sim::param(3, "obsyield");
    rec.late_allowed = 100;
    auto     d       = rpp::composite_disposable_wrapper::make();
    bool     disposed{};
    unsigned y = sim::param(60, "dispyield"), t = sim::param(4, "disptime"), nth = sim::param_range(1, 4, "nth");
    if (ends == 2)
    {
        Quiet q;
        rec.hook = [&, nth](const Ev& e) {
            if (e.k == 'N' && rec.ev.size() == nth)
            {
                d.dispose();
                disposed = true;
            }
        };
    }
    if (ends == 1)
        z.th.spawn([&, y, t] {
            if (t)
                sim::sleep_ns((int64_t)t * UNIT);
            sim::yield(y);
            d.dispose();
            disposed = true;
        });
    if (stages)
    {
        Obs o = z.chain(stages);
        sim::log("%s", z.desc.c_str());
        o.subscribe(d, observer(rec));
    }
    else
        z.static_pipeline(sim::param(Zoo::N_STATIC, "which"), d, rec);
    z.drain();
    if (disposed || rec.ending() != '-')
    {
        SIM_CHECK(d.is_disposed(), "not-released", "%s: the subscription has ended but its disposable is not disposed", z.desc.c_str());
        z.check_released(disposed ? "after dispose" : "after the end");
    }
    if (sim::flip("kept-first"))
        z.drop_kept();
    d.dispose();
    z.drain();
    z.drop_kept();
    z.check_released("after all");
    Quiet q;
    rec.hook = nullptr;
}
} // namespace

SIM_SCENARIO(pipelines, 3)
{
    Zoo z;
    z.never10 = sim::param(3, "never");
    pipeline(z, sim::param_range(1, 5, "stages"));
}
SIM_SCENARIO(threads, 2)
{
    Zoo z;
    z.all_threads = true;
    z.timed       = false;
    z.never10     = sim::param(3, "never");
    pipeline(z, sim::param_range(1, 4, "stages"));
}
SIM_SCENARIO(fixed, 2)
{
    Zoo z;
    z.never10 = sim::param(3, "never");
    pipeline(z, 0);
}
