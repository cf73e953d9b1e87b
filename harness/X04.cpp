// PKG: Qt6Core
// CXXFLAGS: -fPIC
// Qt main-thread scheduler: the thread of the application, never early, in order, disposal, rescheduling, errors.
// REAL: rppqt main_thread_scheduler, Qt 6.4 QtCore (application object, event loop, UNIX event dispatcher, timers, posted events)
// STUB: kernel scheduler, futexes, clocks, poll waiting (simulator; real eventfd descriptors), heap (simulator bump allocator); QtCore itself is not instrumented, so its locks are not seen by the race detector
#include "sched_workloads.hpp"
#include "timed.hpp"
#include <rpp/rpp.hpp>
#include <rppqt/schedulers/main_thread.hpp>
#include <QCoreApplication>
#include <QTimer>
using namespace h;
using Qts = rppqt::schedulers::main_thread_scheduler;

namespace
{
struct App
{
    int                              argc{1};
    char                             name[4] = "sim";
    char*                            argv[2] = {name, nullptr};
    std::optional<QCoreApplication>  app;
    uint32_t                         tid = sim::tid();
    App()
    {
        qputenv("QT_NO_GLIB", "1"); // the plain poll() dispatcher
        sim::allow_races(); // QtCore's own synchronisation is invisible to the detector
        sim::allow_leaks(); // QtCore keeps its per-thread data
        app.emplace(argc, argv);
    }
    int64_t loop_start{};
    // the event loop runs until `ready` says that everything has happened; looked at every `step`
    template<typename F>
    void loop(Threads& th, int64_t step, F ready)
    {
        loop_start = sim::now();
        th.spawn([this, ready, step] {
            for (int i = 0; i < 400 && !ready(); ++i)
                sim::sleep_ns(step);
            QMetaObject::invokeMethod(&*app, [] { QCoreApplication::quit(); }, Qt::QueuedConnection);
        });
        app->exec();
    }
};
constexpr int64_t LATE = 2400000; // two roundings to milliseconds and the clock's ticks
bool all_done(Engine& e)
{
    Quiet q;
    for (auto& t : e.tasks)
        if (!t.disp_b && (t.runs.size() < e.expected_runs(t) || !t.runs.back().e) && (t.in_run_of < 0 || t.sched))
            return false;
    return true;
}
void check_thread(Engine& e, uint32_t tid)
{
    for (auto& t : e.tasks)
        for (auto& r : t.runs)
            SIM_CHECK(r.tid == tid, "thread", "task %d ran on T%u, the application lives on T%u", t.id, r.tid, tid);
}
void check_fifo(Engine& e)
{
    for (auto& a : e.tasks)
        for (auto& b : e.tasks)
        {
            if (&a == &b || a.by_tp || b.by_tp || a.delay > 0 || b.delay > 0 || !a.sched || !b.sched || a.sched_tid != b.sched_tid || !a.sched_r || a.sched_r > b.sched_b || b.runs.empty())
                continue;
            if (a.disp_b && a.disp_b < b.runs[0].b)
                continue;
            SIM_CHECK(!a.runs.empty() && a.runs[0].b < b.runs[0].b, "order", "task %d was scheduled before task %d without delay by the same thread but runs %s", a.id, b.id, a.runs.empty() ? "never" : "after it");
        }
}
void check_prompt(Engine& e, int64_t since)
{
    if (!sim::time_exact())
        return;
    for (auto& t : e.tasks)
        for (size_t k = 0; k < t.runs.size(); ++k)
        {
            // the loop is on time except for the work it does meanwhile
            int64_t lim  = std::max(std::max(e.due(t, k).hi, since), k ? t.runs[k - 1].et : t.sched_rt);
            int64_t busy = 0;
            for (auto& o : e.tasks)
                for (auto& r : o.runs)
                    if ((&o != &t || &r < &t.runs[k]) && r.et > lim && r.bt < t.runs[k].bt)
                        busy += r.et - r.bt;
            SIM_CHECK(t.runs[k].bt <= lim + busy + LATE, "late", "task %d run %zu starts at %+lldus although due at %+lldus", t.id, k, (long long)(t.runs[k].bt - e.base) / 1000, (long long)(lim - e.base) / 1000);
        }
}
void workload(bool throws, bool fine, bool slow)
{
    App    app;
    Engine e;
    Drive  d;
    sim::set_tick(1000);
    SLACK                = 400000;
    d.gen.dispose        = sim::flip("with dispose");
    d.external_dispose   = d.gen.dispose && sim::param(3, "ext") == 1;
    d.gen.throws         = throws;
    d.gen.max_tasks      = 6;
    d.gen.max_ms         = 4;
    bool early           = sim::flip("before the loop");
    e.generate(d.gen);
    for (auto& t : e.tasks)
    {
        int64_t x = fine ? (int64_t)sim::param(4, "part") * 300000 : 0;
        if (slow && sim::param(4, "long") == 1)
            x += 2500 * MS;
        if (t.delay > 0)
            t.delay += x;
        t.tp += x;
    }
    std::vector<decltype(Qts::create_worker())> ws{Qts::create_worker()};
    {
        Threads users;
        if (sim::flip("by the main thread"))
            for (auto& t : e.tasks)
                if (t.in_run_of < 0 && t.id % 2)
                {
                    e.schedule(ws[0], t);
                    t.in_run_of = -2; // not by the others
                }
        for (auto& t : e.tasks)
            if (t.in_run_of == -2)
                t.in_run_of = 1000;
        if (early)
            schedule_roots(e, ws, d, false);
        else
            users.spawn([&] { schedule_roots(e, ws, d, false); });
        Threads th;
        app.loop(th, slow ? 100 * MS : MS, [&] {
            bool all;
            {
                Quiet q;
                all = true;
                for (auto& t : e.tasks)
                    all &= t.in_run_of >= 0 || t.sched;
            }
            return all && all_done(e);
        });
        users.join_all();
        th.join_all();
    }
    Quiet q;
    check_thread(e, app.tid);
    e.check_never_early();
    e.check_counts();
    e.check_disposed();
    check_fifo(e);
    if (!slow)
        check_prompt(e, app.loop_start);
}
} // namespace

SIM_SCENARIO(tasks, 4) { workload(false, false, false); }
SIM_SCENARIO(fractions, 3) { workload(false, true, false); }
SIM_SCENARIO(throwing, 2) { workload(true, false, false); }
SIM_SCENARIO(seconds, 1) { workload(false, true, true); }
// operators that use the application's thread as their scheduler
SIM_SCENARIO(operators, 2)
{
    App app;
    sim::set_tick(1000);
    Rec rec;
    rec.yields      = sim::param(4, "yields");
    unsigned kind   = sim::param(4, "operator");
    int64_t  delay  = kind == 1 ? (int64_t)sim::param(3, "delay") * MS : 0;
    unsigned count  = sim::param_range(1, 4, "take");
    int64_t  period = (int64_t)sim::param_range(1, 2, "period") * MS;
    bool     early  = sim::flip("before the loop");
    if (sim::param(3, "busy") == 1)
        rec.busy = (int64_t)sim::param_range(1, 3, "busy for") * MS / 2;
    Src      src;
    Disposer dis;
    int64_t  t0 = 0;
    {
        Threads th, ui;
        timed_source(src, th, 100, 5, MS / 2, 2, 4, 1);
        Qts  s{};
        auto d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, MS / 2, 8);
        auto subscribe = [&] {
            t0 = sim::now();
            switch (kind)
            {
            case 0:
            case 1: src.observable() | rpp::ops::observe_on(s, ns{delay}) | rpp::ops::subscribe(observer(rec, d)); break;
            case 2:
                src.mode = Mode::Sync;
                src.observable() | rpp::ops::subscribe_on(s) | rpp::ops::subscribe(observer(rec, d));
                break;
            default: rpp::source::interval(ns{period}, s) | rpp::ops::take(count) | rpp::ops::map([](size_t x) { return (int)x; }) | rpp::ops::subscribe(observer(rec, d)); break;
            }
        };
        if (early)
            subscribe();
        else
            ui.spawn(subscribe);
        int rounds = 0;
        app.loop(ui, MS, [&] {
            Quiet q;
            return ++rounds > 30 || rec.ending() != '-';
        });
        ui.join_all();
        th.join_all();
    }
    Quiet       q;
    const char* n = rec.name.c_str();
    for (auto& e : rec.ev)
        SIM_CHECK(e.k == 'E' || e.tid == app.tid, "thread", "%s: event not on the thread of the application", n);
    if (kind == 3)
    {
        auto v = rec.values();
        for (size_t i = 0; i < v.size(); ++i)
        {
            SIM_CHECK(v[i] == (int)i, "interval", "observed %s", rec.str().c_str());
            SIM_CHECK(rec.ev[i].t >= t0 + (int64_t)(i + 1) * period, "early", "interval: %zu early", i);
            if (sim::time_exact() && !rec.busy)
                SIM_CHECK(rec.ev[i].t <= t0 + (int64_t)(i + 1) * period + LATE, "drift", "interval: %zu at %lldus", i, (long long)(rec.ev[i].t - t0) / 1000);
        }
        if (!dis.on)
            SIM_CHECK(v.size() == count && rec.ending() == 'C', "interval", "observed %s", rec.str().c_str());
        return;
    }
    if (src.subs.empty())
    {
        SIM_CHECK(dis.on, "subscribed", "source not subscribed");
        return;
    }
    auto&            si = src.subs[0];
    std::vector<int> sent;
    for (auto& e : si.emits)
        sent.push_back(e.v);
    auto got = rec.values();
    SIM_CHECK(is_prefix(got, sent), "values", "sent %s observed %s", str(sent).c_str(), str(got).c_str());
    for (size_t i = 0; i < got.size(); ++i)
        SIM_CHECK(rec.ev[i].t >= si.emits[i].bt + delay, "early", "value %d early", got[i]);
    if (rec.ending() != '-')
        SIM_CHECK(rec.ending() == si.term, "wrong-end", "source ended %c observer saw %s", si.term, rec.str().c_str());
    if (!dis.on && si.term != '-')
        SIM_CHECK(rec.ending() == si.term && (si.term == 'E' || got == sent), "lost", "sent %s %c observed %s", str(sent).c_str(), si.term, rec.str().c_str());
}
