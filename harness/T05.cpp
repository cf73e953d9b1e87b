// timeout: switches (or fails) exactly when a gap exceeds the period, once, and nothing of the source comes after it.
#include "timed.hpp"
using namespace h;

static void run(bool with_fallback)
{
    Rec rec;
    rec.yields = sim::param(4, "yields");
    Src      src, fb;
    Disposer dis;
    World    w{(int)sim::param(4, "scheduler")}; // immediate would sleep inside subscribe
    int64_t  unit   = sim::flip("fine") ? 20000 : MS;
    int64_t  period = (int64_t)sim::param_range(0, 3, "period") * unit;
    bool     busy   = sim::param(4, "busy") == 1;
    if (busy)
        rec.busy = (int64_t)sim::param_range(1, 3, "busyfor") * unit;
    int64_t call_bt = 0, call_rt = 0;
    {
        Threads th;
        timed_source(src, th, 100, 5, unit, 4, 2, 3);
        src.check_disposed = sim::flip("checkdisp");
        src.rogue          = false;
        if (sim::param(4, "sync") == 1)
            src.mode = Mode::Sync;
        {
            Quiet q;
            fb.name = "fallback";
        }
        timed_source(fb, th, 200, 2, unit, 1, 2, 2);
        if (sim::flip("fbsync"))
            fb.mode = Mode::Sync;
        w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, unit, 8);
        {
            Quiet q;
            call_bt = sim::now();
        }
        w.with([&](auto&& s) {
            if constexpr (!std::is_same_v<std::decay_t<decltype(s)>, rpp::schedulers::immediate>)
            {
                if (with_fallback)
                    src.observable() | rpp::ops::timeout(ns{period}, fb.observable(), s) | rpp::ops::subscribe(observer(rec, d));
                else
                    src.observable() | rpp::ops::timeout(ns{period}, s) | rpp::ops::subscribe(observer(rec, d));
            }
        });
        {
            Quiet q;
            call_rt = sim::now();
        }
        th.join_all();
        w.settle(5 * unit + 3 * LOOP_STEP);
        th.join_all();
        w.finish();
    }
    (void)call_rt;
    Quiet       q;
    const char* n = rec.name.c_str();
    if (dis.on && src.subs.empty() && fb.subs.empty())
        return;
    static SubInfo none;
    SIM_CHECK(src.subs.size() <= 1, "subscribed", "%s: source subscribed %zu times", n, src.subs.size());
    // a timeout that expires before the source is even subscribed leaves nothing to subscribe
    auto& si = src.subs.empty() ? none : src.subs[0];
    SIM_CHECK(fb.subs.size() <= 1, "fallback-twice", "%s: fallback subscribed %zu times", n, fb.subs.size());
    // the moment of the switch
    bool     switched = false;
    uint64_t sw_seq   = ~0ull;
    int64_t  sw_t     = 0;
    if (with_fallback && !fb.subs.empty())
    {
        switched = true;
        sw_seq   = fb.subs[0].sub_seq;
        sw_t     = fb.subs[0].sub_t;
    }
    else if (!with_fallback && rec.ending() == 'E' && rec.error_code() == -1)
    {
        switched = true;
        sw_seq   = rec.ev.back().seq;
        sw_t     = rec.ev.back().t;
    }
    std::vector<int> mine, fbgot, sent, fbsent;
    for (auto& e : rec.ev)
        if (e.k == 'N')
        {
            if (e.v >= 200)
                fbgot.push_back(e.v);
            else
            {
                mine.push_back(e.v);
                SIM_CHECK(fbgot.empty() && e.seq < sw_seq, "after-switch", "%s: value %d of the source delivered after the switch: %s", n, e.v, rec.str().c_str());
            }
        }
    for (auto& e : si.emits)
        sent.push_back(e.v);
    if (!fb.subs.empty())
        for (auto& e : fb.subs[0].emits)
            fbsent.push_back(e.v);
    SIM_CHECK(is_prefix(mine, sent), "order", "%s: sent %s observed %s", n, str(sent).c_str(), rec.str().c_str());
    SIM_CHECK(is_prefix(fbgot, fbsent), "order", "%s: fallback sent %s observed %s", n, str(fbsent).c_str(), rec.str().c_str());
    bool    exact    = sim::time_exact();
    // nothing may have decided to switch before this
    int64_t deadline = (mine.empty() ? call_bt : rec.ev[mine.size() - 1].t) + period;
    for (size_t i = 0; i < si.emits.size(); ++i)
    {
        auto& e = si.emits[i];
        if (e.r && e.rt < deadline && !dis.on)
            SIM_CHECK(i < mine.size(), "lost", "%s: value %d was emitted before the switch but not delivered: %s", n, e.v, rec.str().c_str());
        if (i < mine.size() && switched)
            SIM_CHECK(sw_t >= rec.ev[i].t + period, "early-timeout", "%s: switched at %+lldus although value %d came at %+lldus (period %lldus)", n, (long long)sw_t / 1000, e.v, (long long)rec.ev[i].t / 1000, (long long)period / 1000);
        if (i < mine.size() && exact && !busy && w.own_thread())
        {
            int64_t prev = i ? si.emits[i - 1].rt : (src.mode == Mode::Sync ? std::max(call_bt, si.sub_t) : si.sub_t);
            SIM_CHECK(e.bt <= prev + period + w.lag(), "late-timeout", "%s: value %d delivered although it came %lldus after the previous event (period %lldus)", n, e.v, (long long)(e.bt - prev) / 1000, (long long)period / 1000);
        }
    }
    if (switched)
    {
        SIM_CHECK(sw_t >= call_bt + period, "early-timeout", "%s: switched at %+lldus", n, (long long)sw_t / 1000);
        SIM_CHECK(!(si.term != '-' && si.term_r && si.term_rt < deadline), "switched-after-end", "%s: switched although the source had ended", n);
        if (!src.subs.empty())
            SIM_CHECK(si.disposed == 1, "not-released", "%s: switched but the source was disposed %d times", n, si.disposed);
        if (exact && !busy && !dis.on && w.own_thread())
        {
            int64_t last = call_bt;
            if (!mine.empty())
                last = si.emits[mine.size() - 1].rt;
            SIM_CHECK(sw_t <= std::max(last, si.sub_t) + period + w.lag(), "late-timeout", "%s: switched at %+lldus although the last event was at %+lldus (period %lldus)", n, (long long)sw_t / 1000, (long long)last / 1000, (long long)period / 1000);
        }
        if (with_fallback && !dis.on)
        {
            SIM_CHECK(fbgot == fbsent, "lost", "%s: fallback sent %s but the observer saw %s", n, str(fbsent).c_str(), rec.str().c_str());
            SIM_CHECK(rec.ending() == fb.subs[0].term, "wrong-end", "%s: fallback ended %c but the observer saw %s", n, fb.subs[0].term, rec.str().c_str());
            if (rec.ending() == 'E')
                SIM_CHECK(rec.error_code() == 200, "wrong-error", "%s: %s", n, rec.str().c_str());
        }
    }
    else if (!dis.on)
    {
        SIM_CHECK(si.term != '-', "no-timeout", "%s: the source never ends but nothing was switched: %s", n, rec.str().c_str());
        SIM_CHECK(rec.ending() == si.term && mine == sent, "lost", "%s: sent %s%c but the observer saw %s", n, str(sent).c_str(), si.term, rec.str().c_str());
        if (si.term == 'E')
            SIM_CHECK(rec.error_code() == si.err, "wrong-error", "%s: %s", n, rec.str().c_str());
    }
    if (rec.ending() != '-' || dis.on)
    {
        src.check_released();
        fb.check_released();
    }
}
SIM_SCENARIO(timeout_fallback, 3) { run(true); }
SIM_SCENARIO(timeout_error, 2) { run(false); }
