// observe_on, subscribe_on: the right thread, the right order, errors never overlap, disposal before the start prevents.
#include "timed.hpp"
using namespace h;

SIM_SCENARIO(observe_on, 3)
{
    Rec rec;
    rec.yields = sim::param(4, "yields");
    Src      src;
    Disposer dis;
    World    w{(int)sim::param(NumScheds, "scheduler")};
    int64_t  unit  = sim::flip("fine") ? 20000 : MS;
    int64_t  delay = sim::param(3, "delayed") == 1 ? (int64_t)sim::param(3, "delay") * unit : 0;
    bool     busy  = sim::param(3, "busy") == 1;
    bool     sync;
    if (busy)
        rec.busy = (int64_t)sim::param_range(1, 3, "busyfor") * unit;
    {
        Threads th;
        timed_source(src, th, 100, 5, unit, 2, 4, 1);
        src.check_disposed = sim::flip("checkdisp");
        sync               = sim::param(4, "sync") == 1;
        if (sync)
            src.mode = Mode::Sync;
        w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, unit, 8);
        w.with([&](auto&& s) { src.observable() | rpp::ops::observe_on(s, ns{delay}) | rpp::ops::subscribe(observer(rec, d)); });
        th.join_all();
        w.settle(4 * unit + 3 * LOOP_STEP);
        w.finish();
    }
    Quiet       q;
    const char* n = rec.name.c_str();
    if (dis.on && src.subs.empty())
        return;
    SIM_CHECK(src.subs.size() == 1, "subscribed", "%s: source subscribed %zu times", n, src.subs.size());
    auto&            si = src.subs[0];
    std::vector<int> sent;
    for (auto& e : si.emits)
        sent.push_back(e.v);
    auto got = rec.values();
    SIM_CHECK(is_prefix(got, sent), "order", "%s: sent %s observed %s", n, str(sent).c_str(), str(got).c_str());
    for (size_t i = 0; i < got.size(); ++i)
    {
        SIM_CHECK(rec.ev[i].t >= si.emits[i].bt + delay, "early", "%s: value %d early", n, got[i]);
        if (w.own_thread())
        {
            SIM_CHECK(rec.ev[i].tid != si.sub_tid && rec.ev[i].tid == rec.ev[0].tid, "thread", "%s: value %d delivered on T%u, first value on T%u, source subscribed on T%u", n, got[i], rec.ev[i].tid, rec.ev[0].tid, si.sub_tid);
            if (w.kind == RunLoop)
                SIM_CHECK(rec.ev[i].tid == w.loop_tid, "thread", "%s: value %d not on the loop's thread", n, got[i]);
        }
        if (!busy && !dis.on && sim::time_exact() && si.emits[i].rt && (w.own_thread() || !sync))
            SIM_CHECK(rec.ev[i].t <= std::max(si.emits[i].rt, si.emits[i].bt + delay + w.lag()) + w.lag(), "late", "%s: value %d at %+lldus although emitted at %+lldus", n, got[i], (long long)rec.ev[i].t / 1000, (long long)si.emits[i].bt / 1000);
    }
    char end = rec.ending();
    if (end != '-')
    {
        SIM_CHECK(end == si.term, "wrong-end", "%s: source ended %c observer saw %s", n, si.term, rec.str().c_str());
        SIM_CHECK(rec.ev.back().seq > si.term_b, "wrong-end", "%s: end before the source's", n);
    }
    if (end == 'E')
        SIM_CHECK(rec.error_code() == si.err, "wrong-error", "%s: %s", n, rec.str().c_str());
    if (end == 'C')
    {
        SIM_CHECK(got.size() == sent.size(), "lost", "%s: sent %s observed %s", n, str(sent).c_str(), rec.str().c_str());
        SIM_CHECK(rec.ev.back().t >= si.term_bt + delay, "early", "%s: completion early", n);
        if (w.own_thread() && !got.empty())
            SIM_CHECK(rec.ev.back().tid == rec.ev[0].tid, "thread", "%s: completion on T%u, values on T%u", n, rec.ev.back().tid, rec.ev[0].tid);
    }
    if (!dis.on)
    {
        SIM_CHECK(end == si.term, "lost", "%s: source ended %c but the observer saw %s", n, si.term, rec.str().c_str());
        if (si.term != 'E')
            SIM_CHECK(got.size() == sent.size(), "lost", "%s: sent %s observed %s", n, str(sent).c_str(), rec.str().c_str());
    }
    if (end != '-' || dis.on)
        src.check_released();
}

// observe_on hops between two schedulers while the source sits on a third thread
SIM_SCENARIO(observe_on_hops, 1)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    Src   src;
    World w{(int)sim::param(3, "scheduler")};
    std::vector<std::pair<uint32_t, int>> mid;
    {
        Threads th;
        timed_source(src, th, 100, 4, 20000, 2, 1, 0);
        w.start_loop();
        w.with([&](auto&& s) {
            src.observable() | rpp::ops::observe_on(rpp::schedulers::new_thread{}) | rpp::ops::tap([&](int v) {
                Quiet q;
                mid.push_back({sim::tid(), v});
            }) | rpp::ops::observe_on(s)
                | rpp::ops::subscribe(observer(rec));
        });
        th.join_all();
        w.settle(MS);
        w.finish();
    }
    Quiet q;
    auto& si  = src.subs[0];
    auto  got = rec.values();
    SIM_CHECK(rec.ending() == si.term, "lost", "source ended %c but the observer saw %s", si.term, rec.str().c_str());
    std::vector<int> sent;
    for (auto& e : si.emits)
        sent.push_back(e.v);
    SIM_CHECK(is_prefix(got, sent) && (si.term == 'E' || got == sent), "order", "sent %s observed %s", str(sent).c_str(), rec.str().c_str());
    for (auto& [t, v] : mid)
        SIM_CHECK(t == mid[0].first && t != si.sub_tid, "thread", "value %d on the wrong thread after the first hop", v);
    for (size_t i = 0; i < got.size(); ++i)
        SIM_CHECK(rec.ev[i].tid == rec.ev[0].tid && rec.ev[i].tid != mid[0].first && rec.ev[i].tid != si.sub_tid, "thread", "value %d on the wrong thread after the second hop", got[i]);
    src.check_released();
}

SIM_SCENARIO(subscribe_on, 2)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    Src      src;
    Disposer dis;
    World    w{(int)sim::param(NumScheds, "scheduler")};
    bool     throws = sim::param(6, "throws") == 1, chain = sim::flip("chain");
    uint64_t before_start = 0, call_b = 0, call_r = 0;
    uint32_t call_tid = sim::tid();
    int      factory  = 0;
    {
        Threads th;
        timed_source(src, th, 100, 4, 20000, 2, 2, 1);
        src.check_disposed = sim::flip("checkdisp");
        if (sim::flip("sync"))
            src.mode = Mode::Sync;
        if (throws)
            src.on_sub = nullptr;
        bool pre   = w.kind == RunLoop && sim::param(3, "predispose") == 1;
        bool early = sim::flip("startearly");
        if (early && !pre)
            w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        if (!pre)
            dis.plan(th, rec, d, 20000, 6);
        w.with([&](auto&& s) {
            {
                Quiet q;
                call_b = sim::seq();
            }
            auto o = rpp::source::defer([&] {
                {
                    Quiet q;
                    factory++;
                }
                if (throws)
                    throw_err(77);
                return src.observable();
            });
            if (chain)
                o | rpp::ops::subscribe_on(rpp::schedulers::new_thread{}) | rpp::ops::subscribe_on(s) | rpp::ops::subscribe(observer(rec, d));
            else
                o | rpp::ops::subscribe_on(s) | rpp::ops::subscribe(observer(rec, d));
            Quiet q;
            call_r = sim::seq();
        });
        if (pre)
        {
            dis.on = true;
            d.dispose();
            Quiet q;
            rec.disp_ret = before_start = sim::seq();
        }
        if (!early || pre)
            w.start_loop();
        w.settle(MS);
        th.join_all();
        w.settle(MS);
        w.finish();
    }
    Quiet       q;
    const char* n = rec.name.c_str();
    if (before_start)
        SIM_CHECK(factory == 0 && rec.ev.empty(), "subscribed-disposed", "%s: the source was subscribed although the subscription had been disposed before the scheduler started", n);
    SIM_CHECK(factory <= 1, "subscribed", "%s: subscribed %d times", n, factory);
    if (!dis.on)
        SIM_CHECK(factory == 1, "not-subscribed", "%s: never subscribed", n);
    if (throws)
    {
        if (factory && !dis.on)
            SIM_CHECK(rec.ending() == 'E' && rec.error_code() == 77, "error-lost", "%s: the subscription threw but the observer saw %s", n, rec.str().c_str());
        return;
    }
    if (!src.subs.empty())
    {
        auto& si = src.subs[0];
        if (chain || w.own_thread())
            SIM_CHECK(si.sub_tid != call_tid, "thread", "%s: subscribed on the caller's thread", n);
        else
            SIM_CHECK(si.sub_tid == call_tid, "thread", "%s: subscribed on T%u by %s", n, si.sub_tid, sched_name(w.kind));
        if (w.kind == RunLoop && !chain)
            SIM_CHECK(si.sub_tid == w.loop_tid, "thread", "%s: not subscribed on the loop's thread", n);
        std::vector<int> sent;
        for (auto& e : si.emits)
            sent.push_back(e.v);
        auto got = rec.values();
        SIM_CHECK(is_prefix(got, sent), "order", "%s: sent %s observed %s", n, str(sent).c_str(), str(got).c_str());
        if (!dis.on)
            SIM_CHECK(got.size() == sent.size() && rec.ending() == si.term, "lost", "%s: sent %s%c observed %s", n, str(sent).c_str(), si.term, rec.str().c_str());
        if (rec.ending() != '-' || dis.on)
            src.check_released();
    }
}
