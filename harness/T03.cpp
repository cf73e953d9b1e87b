// debounce: exactly the values followed by a quiet period; completion flushes; nothing twice, nothing lost in races.
#include "timed.hpp"
using namespace h;

SIM_SCENARIO(debounce, 3)
{
    Rec rec;
    rec.yields = sim::param(4, "yields");
    Src      src;
    Disposer dis;
    World    w{(int)sim::param(NumScheds, "scheduler")};
    int64_t  unit   = sim::flip("fine") ? 20000 : MS;
    int64_t  period = (int64_t)sim::param_range(0, 3, "period") * unit;
    bool     busy   = sim::param(4, "busy") == 1;
    if (busy)
        rec.busy = (int64_t)sim::param_range(1, 3, "busyfor") * unit;
    {
        Threads th;
        timed_source(src, th, 100, 5, unit, 4);
        src.check_disposed = sim::flip("checkdisp");
        if (sim::param(4, "sync") == 1)
            src.mode = Mode::Sync;
        w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, unit, 8);
        w.with([&](auto&& s) { src.observable() | rpp::ops::debounce(ns{period}, s) | rpp::ops::subscribe(observer(rec, d)); });
        th.join_all();
        w.settle(5 * unit + 3 * LOOP_STEP);
        w.finish();
    }
    Quiet       q;
    const char* n = rec.name.c_str();
    if (dis.on && src.subs.empty())
        return;
    SIM_CHECK(src.subs.size() == 1, "subscribed", "%s: source subscribed %zu times", n, src.subs.size());
    auto& si  = src.subs[0];
    auto  got = rec.values();
    char  end = rec.ending();
    std::map<int, size_t> at; // value -> delivered event
    int   last = -1;
    for (size_t i = 0; i < got.size(); ++i)
    {
        SIM_CHECK(got[i] > last, "order", "%s: %s", n, rec.str().c_str());
        last = got[i];
        SIM_CHECK((size_t)(got[i] - 100) < si.emits.size(), "phantom", "%s: %s", n, rec.str().c_str());
        at[got[i] - 100] = i;
    }
    bool exact = sim::time_exact();
    for (size_t i = 0; i < si.emits.size(); ++i)
    {
        auto&    e    = si.emits[i];
        bool     is_last = i + 1 == si.emits.size();
        bool     next = !is_last || (si.term == 'C' || si.term == 'E'); // something came after it
        uint64_t nr   = !is_last ? si.emits[i + 1].r : si.term_r;
        int64_t  nbt  = !is_last ? si.emits[i + 1].bt : si.term_bt;
        int64_t  nrt  = !is_last ? si.emits[i + 1].rt : si.term_rt;
        auto     it   = at.find((int)i);
        bool     flushed = is_last && si.term == 'C'; // delivered by the completion if not before
        if (it != at.end())
        {
            auto& ev = rec.ev[it->second];
            SIM_CHECK(ev.seq > e.b, "phantom", "%s: value %zu before its emission", n, i);
            bool by_completion = flushed && ev.tid == si.sub_tid; // refined below
            (void)by_completion;
            if (!(flushed && ev.seq > si.term_b))
                SIM_CHECK(ev.t >= e.bt + period, "early", "%s: value %zu delivered at %+lldus although emitted at %+lldus with period %lldus", n, i, (long long)ev.t / 1000, (long long)e.bt / 1000, (long long)period / 1000);
            // the newer value was taken before this one's period could have passed
            if (!is_last && si.emits[i + 1].r)
                SIM_CHECK(nrt >= e.bt + period, "superseded", "%s: value %zu delivered although value %zu replaced it %lldus later (period %lldus)", n, i, i + 1, (long long)(nrt - e.bt) / 1000, (long long)period / 1000);
            if (is_last && si.term == 'E' && si.term_r)
                SIM_CHECK(nrt >= e.bt + period, "superseded", "%s: value %zu delivered although the error came earlier than its period", n, i);
            if (exact && !busy && !dis.on && !(flushed && ev.seq > si.term_b))
                SIM_CHECK(ev.t <= e.rt + period + w.lag(), "late", "%s: value %zu at %+lldus although emitted at %+lldus with period %lldus", n, i, (long long)ev.t / 1000, (long long)e.rt / 1000, (long long)period / 1000);
        }
        else if (!dis.on)
        {
            if (flushed)
                SIM_CHECK(false, "lost", "%s: last value %zu not delivered before the completion: %s", n, i, rec.str().c_str());
            if (!next)
                SIM_CHECK(false, "lost", "%s: last value %zu never delivered: %s", n, i, rec.str().c_str());
            if (exact && !busy)
                SIM_CHECK(nbt <= e.rt + period + w.lag(), "lost", "%s: value %zu not delivered although nothing came for %lldus (period %lldus): %s", n, i, (long long)(nbt - e.rt) / 1000, (long long)period / 1000, rec.str().c_str());
        }
        (void)nr;
    }
    if (end != '-')
    {
        SIM_CHECK(end == si.term && rec.ev.back().seq > si.term_b, "wrong-end", "%s: source ended %c observer saw %s", n, si.term, rec.str().c_str());
        if (end == 'E')
            SIM_CHECK(rec.error_code() == si.err, "wrong-error", "%s: %s", n, rec.str().c_str());
        if (exact && !busy && si.term_r)
            SIM_CHECK(rec.ev.back().t <= si.term_rt, "late", "%s: terminal event late", n);
    }
    if (!dis.on)
        SIM_CHECK(end == si.term, "lost", "%s: source ended %c but the observer saw %s", n, si.term, rec.str().c_str());
    if (end != '-' || dis.on)
        src.check_released();
}
