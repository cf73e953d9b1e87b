// asio strand scheduler: exclusion, due times, order of immediate work, disposal, rescheduling, release.
// REAL: rppasio strand scheduler, asio 1.28 (io_context, strand service, timer queue, epoll reactor), rpp current_thread queue
// STUB: kernel scheduler, futexes, clocks, epoll waiting (simulator; real epoll and eventfd descriptors), heap (simulator bump allocator)
#include "sched_workloads.hpp"
#include "timed.hpp"
#include <rpp/rpp.hpp>
#include <set>
#include <asio/io_context.hpp>
#include <asio/executor_work_guard.hpp>
#include <rppasio/schedulers/strand.hpp>
using namespace h;

namespace
{
struct Io
{
    unsigned threads = 1;
    int64_t  since   = 0;     // its threads are there since
    bool     stopped = false; // the context was stopped: what was left over is not run
};

void check_fifo(Engine& e)
{
    for (auto& a : e.tasks)
        for (auto& b : e.tasks)
        {
            bool imm = !a.by_tp && !b.by_tp && a.delay == 0 && b.delay == 0 && !a.on_current && !b.on_current;
            if (&a == &b || a.worker != b.worker || !imm || !a.sched || !b.sched || !a.sched_r || a.sched_r > b.sched_b || b.runs.empty())
                continue;
            if (a.disp_b && a.disp_b < b.runs[0].b)
                continue;
            SIM_CHECK(!a.runs.empty() && a.runs[0].b < b.runs[0].b, "order", "task %d was posted before task %d to the same strand but runs %s", a.id, b.id, a.runs.empty() ? "never" : "after it");
        }
}
// one io thread: earlier due times first
void check_due_order(Engine& e)
{
    for (auto& a : e.tasks)
        for (auto& b : e.tasks)
        {
            if (&a == &b || a.worker != b.worker || a.runs.empty() || b.runs.empty() || a.on_current || b.on_current)
                continue;
            bool ta = a.by_tp || a.delay, tb = b.by_tp || b.delay;
            if (!ta || !tb || !a.sched_r || !b.sched_r)
                continue;
            // both waiting in the timer queue before either was due
            if (a.disp_b || b.disp_b)
                continue;
            auto da = e.due(a, 0), db = e.due(b, 0);
            if (std::max(a.sched_rt, b.sched_rt) + SLACK >= std::min(da.lo, db.lo))
                continue;
            if (da.hi < db.lo)
                SIM_CHECK(a.runs[0].b < b.runs[0].b, "due-order", "task %d (due %+lldus) runs after task %d (due %+lldus)", a.id, (long long)(da.hi - e.base) / 1000, b.id, (long long)(db.lo - e.base) / 1000);
        }
}
void check_prompt(Engine& e, const Io& io)
{
    if (!sim::time_exact())
        return;
    // somebody was always there to run it: only the work itself (sleeps) and a millisecond of the epoll timeout delay it
    int64_t busy = 0;
    for (auto& t : e.tasks)
        busy += t.sleep * (int64_t)t.runs.size();
    for (auto& t : e.tasks)
        for (size_t k = 0; k < t.runs.size(); ++k)
        {
            int64_t lim = std::max(e.due(t, k).hi, std::max(io.since, k ? t.runs[k - 1].et : t.sched_rt));
            SIM_CHECK(t.runs[k].bt <= lim + busy + 2 * MS, "late", "task %d run %zu starts at %+lldus although due at %+lldus", t.id, k, (long long)(t.runs[k].bt - e.base) / 1000, (long long)(lim - e.base) / 1000);
        }
}

struct Setup
{
    Drive d;
    bool  stop = false; // the context is stopped in the middle and destroyed with work in it
};
void go(Engine& e, Setup s, Io& io)
{
    auto& d       = s.d;
    d.gen.workers = sim::param_range(1, 2, "workers");
    io.threads    = sim::param_range(1, 3, "io threads");
    e.key_by_worker = true;
    sim::set_tick(1000);
    SLACK = 400000;
    {
        asio::io_context ctx;
        e.generate(d.gen);
        bool guarded = sim::param(3, "guard") != 0;
        {
            std::optional<asio::executor_work_guard<asio::io_context::executor_type>> guard;
            std::vector<decltype(rppasio::schedulers::strand{ctx.get_executor()}.create_worker())> workers;
            rppasio::schedulers::strand sched{ctx.get_executor()};
            for (unsigned i = 0; i < d.gen.workers; ++i)
                workers.push_back(sched.create_worker());
            Threads ios;
            auto    run = [&ctx] { ctx.run(); };
            if (guarded)
            {
                guard.emplace(ctx.get_executor());
                for (unsigned i = 0; i < io.threads; ++i)
                    ios.spawn(run);
                io.since = sim::now();
                schedule_roots(e, workers, d, d.drop && sim::flip("drop"));
                if (s.stop)
                {
                    sim::sleep_ns((int64_t)sim::param(6, "stop at") * MS / 2);
                    ctx.stop();
                    io.stopped = true;
                }
                else
                    guard.reset();
            }
            else
            {
                schedule_roots(e, workers, d, d.drop && sim::flip("drop"));
                for (unsigned i = 0; i < io.threads; ++i)
                    ios.spawn(run);
                io.since = sim::now();
                if (s.stop)
                {
                    sim::sleep_ns((int64_t)sim::param(6, "stop at") * MS / 2);
                    ctx.stop();
                    io.stopped = true;
                }
            }
            ios.join_all();
        }
    }
}
Setup setup()
{
    Setup s;
    s.d.gen.dispose      = sim::flip("with_dispose");
    s.d.gen.throws       = false;
    s.d.gen.max_tasks    = 6;
    s.d.gen.max_ms       = 3;
    s.d.external_dispose = s.d.gen.dispose && sim::param(3, "ext") == 1;
    return s;
}
void judge(Engine& e, const Io& io)
{
    Quiet q;
    e.check_never_early();
    e.check_counts(!io.stopped);
    e.check_disposed();
    if (!io.stopped)
        check_fifo(e);
    if (io.threads == 1)
        check_due_order(e);
    if (!io.stopped)
        check_prompt(e, io);
}
} // namespace

SIM_SCENARIO(strand, 4)
{
    Engine e;
    Io     io;
    go(e, setup(), io);
    judge(e, io);
}
SIM_SCENARIO(current_thread, 3)
{
    Engine e;
    Io     io;
    auto   s        = setup();
    s.d.gen.current = true;
    go(e, s, io);
    judge(e, io);
}
SIM_SCENARIO(throwing, 2)
{
    Engine e;
    Io     io;
    auto   s       = setup();
    s.d.gen.throws = true;
    go(e, s, io);
    judge(e, io);
}
SIM_SCENARIO(stopped, 2)
{
    Engine e;
    Io     io;
    auto   s = setup();
    s.stop   = true;
    go(e, s, io);
    judge(e, io);
}
// operators that use the strand as their scheduler
SIM_SCENARIO(operators, 3)
{
    sim::set_tick(1000);
    Rec rec;
    rec.yields    = sim::param(4, "yields");
    unsigned kind = sim::param(4, "operator");
    int64_t  delay = kind == 1 ? (int64_t)sim::param(3, "delay") * MS : 0;
    unsigned n_io = sim::param_range(1, 3, "io threads");
    unsigned count = sim::param_range(1, 4, "take");
    int64_t  period = (int64_t)sim::param_range(1, 2, "period") * MS;
    if (sim::param(3, "busy") == 1)
        rec.busy = (int64_t)sim::param_range(1, 3, "busy for") * MS / 2;
    Src                src;
    Disposer           dis;
    int64_t            t0;
    bool               gone;
    std::set<uint32_t> io;
    {
        asio::io_context ctx;
        {
            Threads ios, th;
            timed_source(src, th, 100, 5, MS / 2, 2, 4, 1);
            std::optional<asio::executor_work_guard<asio::io_context::executor_type>> guard{ctx.get_executor()};
            for (unsigned i = 0; i < n_io; ++i)
                ios.spawn([&] {
                    {
                        Quiet q;
                        io.insert(sim::tid());
                    }
                    ctx.run();
                });
            rppasio::schedulers::strand s{ctx.get_executor()};
            auto                        d = rpp::composite_disposable_wrapper::make();
            dis.plan(th, rec, d, MS / 2, 8);
            t0 = sim::now();
            switch (kind)
            {
            case 0:
            case 1: src.observable() | rpp::ops::observe_on(s, ns{delay}) | rpp::ops::subscribe(observer(rec, d)); break;
            case 2:
                src.mode = Mode::Sync;
                src.observable() | rpp::ops::subscribe_on(s) | rpp::ops::subscribe(observer(rec, d));
                break;
            default: rpp::source::interval(ns{period}, s) | rpp::ops::take(count) | rpp::ops::map([](size_t x) { return (int)x; }) | rpp::ops::subscribe(observer(rec, d)); break;
            }
            th.join_all();
            guard.reset();
            ios.join_all();
        }
    }
    Quiet       q;
    const char* n = rec.name.c_str();
    for (auto& e : rec.ev)
        SIM_CHECK(e.k == 'E' || io.count(e.tid), "thread", "%s: event on a thread that does not run the context", n);
    if (kind == 3)
    {
        auto v = rec.values();
        for (size_t i = 0; i < v.size(); ++i)
        {
            SIM_CHECK(v[i] == (int)i, "interval", "observed %s", rec.str().c_str());
            SIM_CHECK(rec.ev[i].t >= t0 + (int64_t)(i + 1) * period, "early", "interval: %zu early", i);
            if (sim::time_exact() && !rec.busy)
                SIM_CHECK(rec.ev[i].t <= t0 + (int64_t)(i + 1) * period + 2 * MS, "drift", "interval: %zu at %lldus", i, (long long)(rec.ev[i].t - t0) / 1000);
        }
        if (!dis.on)
            SIM_CHECK(v.size() == count && rec.ending() == 'C', "interval", "observed %s", rec.str().c_str());
        return;
    }
    if (src.subs.empty())
    {
        SIM_CHECK(dis.on, "subscribed", "source not subscribed");
        return;
    }
    auto&            si = src.subs[0];
    std::vector<int> sent;
    for (auto& e : si.emits)
        sent.push_back(e.v);
    auto got = rec.values();
    SIM_CHECK(is_prefix(got, sent), "values", "sent %s observed %s", str(sent).c_str(), str(got).c_str());
    for (size_t i = 0; i < got.size(); ++i)
        SIM_CHECK(rec.ev[i].t >= si.emits[i].bt + delay, "early", "value %d early", got[i]);
    if (rec.ending() != '-')
        SIM_CHECK(rec.ending() == si.term, "wrong-end", "source ended %c observer saw %s", si.term, rec.str().c_str());
    if (!dis.on && si.term != '-')
        SIM_CHECK(rec.ending() == si.term && (si.term == 'E' || got == sent), "lost", "sent %s %c observed %s", str(sent).c_str(), si.term, rec.str().c_str());
}
// what strand work puts on current_thread is run later, also when some of it is disposed at once and also when the
// io_context itself is run by work of current_thread
SIM_SCENARIO(handover, 2)
{
    sim::set_tick(1000);
    bool     nested = sim::flip("io inside of current_thread");
    unsigned n      = sim::param_range(2, 4, "children");
    unsigned n_io   = sim::param_range(1, 2, "io threads");
    unsigned posts  = sim::param_range(1, 2, "posts");
    bool     abs    = sim::flip("absolute");
    struct Child
    {
        std::atomic<bool> off{};
        int64_t           delay{}, due{};
        bool              drop{};
        int               runs{};
        int64_t           at{};
    };
    struct H
    {
        Child* c;
        bool   is_disposed() const { return c->off.load(); }
        void   on_error(const std::exception_ptr&) const {}
    };
    struct Nothing
    {
        static bool is_disposed() { return false; }
        static void on_error(const std::exception_ptr&) {}
    };
    std::deque<Child> kids;
    for (unsigned i = 0; i < n * posts; ++i)
    {
        auto  d  = (int64_t)sim::param(3, "child due") * MS;
        bool  dr = sim::param(3, "child disposed") == 1;
        Quiet q;
        kids.emplace_back();
        kids.back().delay = d;
        kids.back().drop  = dr;
    }
    {
        asio::io_context ctx;
        {
            Threads ios;
            auto    w = rppasio::schedulers::strand{ctx.get_executor()}.create_worker();
            for (unsigned p = 0; p < posts; ++p)
                w.schedule(
                    [&kids, p, n, abs](const Nothing&) -> rpp::schedulers::optional_delay_from_now {
                        for (unsigned i = p * n; i < p * n + n; ++i)
                        {
                            Child& c  = kids[i];
                            c.due     = sim::now() + c.delay;
                            auto  fn  = [](const H& h) -> rpp::schedulers::optional_delay_from_now {
                                Quiet q;
                                h.c->runs++;
                                h.c->at = sim::now();
                                return std::nullopt;
                            };
                            auto ct = rpp::schedulers::current_thread::create_worker();
                            if (abs)
                                ct.schedule(at(c.due), fn, H{&c});
                            else
                                ct.schedule(ns{c.delay}, fn, H{&c});
                        }
                        for (unsigned i = p * n; i < p * n + n; ++i)
                            if (kids[i].drop)
                                kids[i].off.store(true);
                        return std::nullopt;
                    },
                    Nothing{});
            for (unsigned i = 0; i < n_io; ++i)
                ios.spawn([&] {
                    if (nested)
                        rpp::schedulers::current_thread::create_worker().schedule(
                            [&ctx](const Nothing&) -> rpp::schedulers::optional_delay_from_now {
                                ctx.run();
                                return std::nullopt;
                            },
                            Nothing{});
                    else
                        ctx.run();
                });
        }
    }
    Quiet q;
    for (size_t i = 0; i < kids.size(); ++i)
    {
        auto& c = kids[i];
        SIM_CHECK(c.runs == (c.drop ? 0 : 1), "handover", "child %zu (due after %lldms%s) ran %d times", i, (long long)(c.delay / MS), c.drop ? ", disposed" : "", c.runs);
        if (c.runs)
            SIM_CHECK(c.at >= c.due, "early", "child %zu early", i);
    }
}
