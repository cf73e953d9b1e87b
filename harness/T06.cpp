// throttle: a value passes exactly when the period has passed since the last one that passed.
#include "timed.hpp"
using namespace h;

SIM_SCENARIO(throttle, 1)
{
    std::deque<Rec>      recs;
    std::deque<Disposer> dis;
    Src                  src;
    unsigned             subs   = sim::param_range(1, 3, "subs");
    if (sim::flip("idealclock"))
        sim::set_tick(0); // arrivals exactly at the end of the period
    int64_t              unit   = sim::flip("fine") ? 20000 : MS;
    int64_t              period = (int64_t)sim::param_range(0, 4, "period") * unit;
    std::vector<int>     attempt;
    {
        Quiet q;
        for (unsigned i = 0; i < subs; ++i)
        {
            recs.emplace_back("obs" + std::to_string(i));
            dis.emplace_back();
        }
    }
    bool busy = sim::param(3, "busy") == 1;
    if (busy)
        for (auto& r : recs)
            r.busy = (int64_t)sim::param_range(1, 5, "busyfor") * unit / 2;
    {
        Threads th;
        for (unsigned i = 0; i < subs; ++i)
            timed_source(src, th, 100, 8, unit, 3);
        src.check_disposed = sim::flip("checkdisp");
        if (sim::flip("sync"))
            src.mode = Mode::Sync;
        auto run = [&](auto&& o) {
            for (unsigned i = 0; i < subs; ++i)
            {
                auto d = rpp::composite_disposable_wrapper::make();
                dis[i].plan(th, recs[i], d, unit, 10);
                {
                    Quiet q;
                    attempt.push_back((int)src.subs.size());
                }
                o | rpp::ops::subscribe(observer(recs[i], d));
                Quiet q;
                if ((int)src.subs.size() == attempt.back())
                    attempt.back() = -1;
            }
        };
        if (sim::flip("sched"))
            run(src.observable() | rpp::ops::throttle(ns{period}));
        else
            run(src.observable() | rpp::ops::throttle<rpp::schedulers::new_thread>(ns{period}));
    }
    Quiet q;
    for (unsigned i = 0; i < subs; ++i)
    {
        Rec&        r = recs[i];
        const char* n = r.name.c_str();
        if (attempt[i] < 0)
        {
            SIM_CHECK(dis[i].on && r.ev.empty(), "subscribed", "%s was not subscribed", n);
            continue;
        }
        auto& si   = src.subs[(size_t)attempt[i]];
        auto  got  = r.values();
        int   last = -1; // emit index of the last value that passed
        size_t k   = 0;  // its event
        for (size_t j = 0; j < si.emits.size(); ++j)
        {
            auto& e      = si.emits[j];
            size_t next  = last < 0 ? 0 : k + 1;
            bool   passed = next < got.size() && got[next] == e.v;
            if (passed)
            {
                auto& ev = r.ev[next];
                SIM_CHECK(ev.seq > e.b && (!e.r || ev.seq < e.r), "sequence", "%s: value %d not delivered inside its emission", n, e.v);
                if (last >= 0)
                    SIM_CHECK(ev.t >= si.emits[(size_t)last].bt + period, "too-close", "%s: value %d passed at %+lldus although the one before passed at %+lldus (period %lldus)", n, e.v, (long long)ev.t / 1000, (long long)r.ev[k].t / 1000, (long long)period / 1000);
                last = (int)j;
                k    = next;
            }
            else if (!dis[i].on)
            {
                SIM_CHECK(last >= 0, "lost", "%s: the first value was dropped", n);
                SIM_CHECK(e.bt < r.ev[k].t + period, "lost", "%s: value %d was dropped at %+lldus although the last one passed at %+lldus (period %lldus)", n, e.v, (long long)e.bt / 1000, (long long)r.ev[k].t / 1000, (long long)period / 1000);
            }
        }
        SIM_CHECK(got.size() == (last < 0 ? 0 : k + 1), "sequence", "%s: unexpected values %s", n, r.str().c_str());
        if (r.ending() != '-')
        {
            SIM_CHECK(r.ending() == si.term && r.ev.back().seq > si.term_b && (!si.term_r || r.ev.back().seq < si.term_r), "wrong-end", "%s: %s", n, r.str().c_str());
            if (si.term == 'E')
                SIM_CHECK(r.error_code() == si.err, "wrong-error", "%s: %s", n, r.str().c_str());
        }
        else if (!dis[i].on)
            SIM_CHECK(si.term == '-', "lost", "%s: terminal event lost", n);
        if (r.ending() != '-' || dis[i].on)
            SIM_CHECK(si.disposed == 1, "not-released", "%s: source disposed %d times", n, si.disposed);
    }
}
