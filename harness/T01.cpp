// delay: every event, exactly once, in order, one at a time, never before arrival + delay, prompt on an ideal clock.
#include "timed.hpp"
#include "many.hpp"
using namespace h;

namespace
{
struct Cfg
{
    int      kind;
    int64_t  d;
    bool     chain;
    int64_t  d2;
    unsigned maxvals;
};

void judge(Rec& rec, Src& src, int64_t delay, World& w, const Disposer& dis, bool upper)
{
    const char* n = rec.name.c_str();
    if (dis.on && src.subs.empty())
        return;
    SIM_CHECK(src.subs.size() == 1, "subscribed", "%s: source subscribed %zu times", n, src.subs.size());
    auto&            si = src.subs[0];
    std::vector<int> sent;
    for (auto& e : si.emits)
        sent.push_back(e.v);
    auto got = rec.values();
    SIM_CHECK(is_prefix(got, sent), "order", "%s: sent %s observed %s", n, str(sent).c_str(), str(got).c_str());
    for (size_t i = 0; i < got.size(); ++i)
    {
        SIM_CHECK(rec.ev[i].t >= si.emits[i].bt + delay, "early", "%s: value %d at %+lldus although emitted at %+lldus with delay %lldus", n, got[i], (long long)rec.ev[i].t / 1000, (long long)si.emits[i].bt / 1000, (long long)delay / 1000);
        if (upper && sim::time_exact() && si.emits[i].rt)
            SIM_CHECK(rec.ev[i].t <= std::max(si.emits[i].rt, si.emits[i].bt + delay + w.lag()) + w.lag(), "late", "%s: value %d at %+lldus although emitted at %+lldus with delay %lldus", n, got[i], (long long)rec.ev[i].t / 1000, (long long)si.emits[i].bt / 1000, (long long)delay / 1000);
    }
    if (rec.ending() != '-')
    {
        SIM_CHECK(rec.ending() == si.term, "wrong-end", "%s: source ended %c observer saw %s", n, si.term, rec.str().c_str());
        if (si.term == 'E')
            SIM_CHECK(rec.error_code() == si.err, "wrong-error", "%s: %s", n, rec.str().c_str());
        SIM_CHECK(got.size() == sent.size(), "lost", "%s: sent %s observed %s", n, str(sent).c_str(), rec.str().c_str());
        SIM_CHECK(rec.ev.back().t >= si.term_bt + delay, "early", "%s: terminal event early", n);
        if (upper && sim::time_exact() && si.term_rt)
            SIM_CHECK(rec.ev.back().t <= std::max(si.term_rt, si.term_bt + delay + w.lag()) + w.lag(), "late", "%s: terminal event at %+lldus although emitted at %+lldus with delay %lldus", n, (long long)rec.ev.back().t / 1000, (long long)si.term_bt / 1000, (long long)delay / 1000);
    }
    if (!dis.on)
    {
        SIM_CHECK(got.size() == sent.size(), "lost", "%s: sent %s observed %s", n, str(sent).c_str(), rec.str().c_str());
        SIM_CHECK(rec.ending() == si.term, "lost", "%s: source ended %c but the observer saw %s", n, si.term, rec.str().c_str());
    }
    if (rec.ending() != '-' || dis.on)
        src.check_released();
}
} // namespace

SIM_SCENARIO(delay, 3)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    Src      src;
    Disposer dis;
    World    w{(int)sim::param(NumScheds, "scheduler")};
    int64_t  unit  = sim::flip("fine") ? 30000 : MS;
    int64_t  delay = (int64_t)sim::param(4, "delay") * unit;
    bool     busy  = sim::param(4, "busy") == 1;
    if (busy)
        rec.busy = (int64_t)sim::param_range(1, 3, "busyfor") * unit;
    {
        Threads th;
        timed_source(src, th, 100, 5, unit, 4);
        src.check_disposed = sim::flip("checkdisp");
        if (!w.own_thread() && sim::flip("sync"))
            src.mode = Mode::Sync;
        w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, unit, 8);
        w.with([&](auto&& s) { src.observable() | rpp::ops::delay(ns{delay}, s) | rpp::ops::subscribe(observer(rec, d)); });
        th.join_all();
        w.settle(4 * unit + 3 * LOOP_STEP);
        w.finish();
    }
    Quiet q;
    judge(rec, src, delay, w, dis, !busy && !dis.on && (w.own_thread() || src.mode == Mode::Thread));
}

// two delays one after another, on two schedulers; the source on a third thread
SIM_SCENARIO(delay_twice, 1)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    Src      src;
    Disposer dis;
    World    w{(int)sim::param(3, "scheduler")};
    int64_t  unit = sim::flip("fine") ? 30000 : MS;
    int64_t  d1 = (int64_t)sim::param(4, "delay1") * unit, d2 = (int64_t)sim::param(4, "delay2") * unit;
    {
        Threads th;
        timed_source(src, th, 100, 4, unit, 3);
        w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, unit, 8);
        w.with([&](auto&& s) { src.observable() | rpp::ops::delay(ns{d1}, rpp::schedulers::new_thread{}) | rpp::ops::delay(ns{d2}, s) | rpp::ops::subscribe(observer(rec, d)); });
        th.join_all();
        w.settle(4 * unit + 3 * LOOP_STEP);
        w.finish();
    }
    Quiet q;
    judge(rec, src, d1 + d2, w, dis, false);
}
// many values on their way
SIM_SCENARIO(many_on_the_way, 1)
{
    sim::set_no_time_slip();
    unsigned n = many(1030), got = 0;
    int64_t  delay = (int64_t)sim::param_range(1, 4, "delay") * 1000000, gap = (int64_t)sim::param(4, "gap") * 1000;
    bool     ended = false;
    std::vector<int64_t> at(n);
    rpp::subjects::publish_subject<int> s;
    s.get_observable() | rpp::ops::delay(std::chrono::nanoseconds{delay}, rpp::schedulers::new_thread{}) | rpp::ops::subscribe([&](int v) {
        Quiet q;
        SIM_CHECK((unsigned)v == got && sim::now() >= at[got] + delay, "order", "value %d came as number %u, %lld ns after it was emitted (delay %lld)", v, got, (long long)(sim::now() - at[got]), (long long)delay);
        ++got; }, [](const std::exception_ptr&) {}, [&] { Quiet q; ended = true; });
    for (unsigned i = 0; i < n; ++i)
    {
        {
            Quiet q;
            at[i] = sim::now();
        }
        s.get_observer().on_next((int)i);
        if (gap && i % 16 == 0)
            sim::sleep_ns(gap);
    }
    s.get_observer().on_completed();
    sim::quiesce(sim::now() + 10 * delay);
    Quiet q;
    SIM_CHECK(got == n && ended, "lost", "%u of %u values, ended %d", got, n, ended);
}
