// EXTRA: zoo.cpp zoo_single.cpp zoo_multi.cpp zoo_time.cpp zoo_static0.cpp zoo_static1.cpp zoo_static2.cpp zoo_static3.cpp zoo_static4.cpp
// Dispose from any thread and from inside callbacks: nothing emitted afterwards arrives, everything is released.
#include "zoo.hpp"
using namespace h;

namespace
{
struct Watch
{
    Zoo&                              z;
    Rec                               rec;
    rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
    uint32_t                          inside_tid{~0u}; // disposed inside a callback of this thread
    uint64_t                          inside_ret{};
    uint64_t                          ret{};           // dispose has returned

    explicit Watch(Zoo& zoo)
        : z(zoo)
    {
    }
    void dispose(bool inside)
    {
        {
            Quiet q;
            sim::log("dispose");
            if (inside)
                inside_tid = sim::tid();
        }
        d.dispose();
        Quiet q;
        uint64_t now = sim::seq();
        if (!ret)
            ret = now;
        if (inside)
            inside_ret = now;
        sim::log("dispose returned");
    }
    void check()
    {
        Quiet q;
        if (!ret)
            return;
        std::map<uint32_t, int> late;
        for (auto& e : rec.ev)
        {
            if (e.seq < ret)
                continue;
            const char* what = z.desc.c_str();
            SIM_CHECK(e.tid != inside_tid || e.seq < inside_ret, "after-dispose", "%s: %c(%d) delivered to the thread that had disposed inside its callback: %s", what, e.k, e.v, rec.str().c_str());
            SIM_CHECK(++late[e.tid] == 1, "after-dispose", "%s: second delivery by T%u after dispose returned: %s", what, e.tid, rec.str().c_str());
            if (e.k == 'N')
            {
                if (auto* o = z.origin(e.v))
                    SIM_CHECK(o->b < ret, "after-dispose", "%s: %d was emitted after dispose returned: %s", what, e.v, rec.str().c_str());
            }
            else if (e.k == 'E')
            {
                for (auto& s : z.srcs)
                    for (auto& si : s.subs)
                        if (si.term == 'E' && si.err == e.v)
                            SIM_CHECK(si.term_b < ret, "after-dispose", "%s: error %d was raised after dispose returned", what, e.v);
            }
        }
    }
};
void pipeline(Zoo& z, unsigned stages)
{
    Watch w{z};
    w.rec.yields = sim::param(4, "obsyield");
    unsigned how = sim::param(4, "how"); // 0,1: other thread; 2: inside a callback; 3: both
    unsigned y = sim::param(60, "dispyield"), t = sim::param(4, "disptime");
    unsigned nth = 0;
    if (how >= 2)
    {
        nth = sim::param_range(1, 4, "nth");
        Quiet q;
        w.rec.hook = [&w, nth](const Ev& e) {
            if (e.k == 'N' && w.rec.ev.size() == nth)
                w.dispose(true);
        };
    }
    auto disposer = [&] {
        if (how == 2)
            return;
        z.th.spawn([&w, y, t] {
            if (t)
                sim::sleep_ns((int64_t)t * UNIT);
            sim::yield(y);
            w.dispose(false);
        });
    };
    bool early = sim::flip("early"); // the disposing thread runs while subscribe is still in progress
    if (stages)
    {
        Obs o = z.chain(stages);
        sim::log("%s", z.desc.c_str());
        if (early)
            disposer();
        o.subscribe(w.d, observer(w.rec));
    }
    else
    {
        if (early)
            disposer();
        z.static_pipeline(sim::param(Zoo::N_STATIC, "which"), w.d, w.rec);
    }
    if (!early)
        disposer();
    z.drain();
    w.check();
    if (w.ret || w.rec.ending() != '-')
        z.check_released(w.ret ? "after dispose" : "after the end");
    w.dispose(false);
    z.drain();
    z.check_released("after all");
    w.check();
    z.drop_kept();
    w.rec.hook = nullptr;
}
} // namespace

SIM_SCENARIO(pipelines, 3)
{
    Zoo z;
    z.never10 = sim::param(3, "never");
    pipeline(z, sim::param_range(1, 4, "stages"));
}
SIM_SCENARIO(threads, 2)
{
    Zoo z;
    z.all_threads = true;
    z.timed       = false;
    z.never10     = sim::param(3, "never");
    pipeline(z, sim::param_range(1, 4, "stages"));
}
SIM_SCENARIO(fixed, 2)
{
    Zoo z;
    z.never10 = sim::param(3, "never");
    pipeline(z, 0);
}
