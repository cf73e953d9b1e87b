// Workload engine and history oracles shared by the scheduler properties S01..S05 and X01.
//
// A workload is a set of tasks scheduled on workers by several threads, from inside other tasks, with relative delays or
// absolute time points (many ties), returning delays of all three kinds, throwing, sleeping, disposing handlers. Every
// start and end of a run is recorded with sequence number and virtual time; the oracles judge the history.
#pragma once
#include "common.hpp"

namespace h
{
constexpr int64_t MS    = 1000000;
inline int64_t    SLACK = 400000; // exact-clock runs: everything the code itself spends is far below (ticks <= 1us)

inline rpp::schedulers::time_point at(int64_t virtual_ns) { return rpp::schedulers::time_point{ns{sim::clock_base() + virtual_ns}}; }

struct Run
{
    uint64_t b{}, e{};
    int64_t  bt{}, et{};
    uint32_t tid{};
    uint64_t prev_e{}; // end of the run that this worker finished before (0: none)
    int64_t  prev_et{};
};

struct Task
{
    int                  id{}, worker{};
    bool                 by_tp{};
    int64_t              delay{}, tp{};
    int                  ret{}; // 0 from_now, 1 from_this_timepoint, 2 delay_to
    std::vector<int64_t> deltas; // one per additional run (ret 2: absolute)
    int                  throw_at{-1}, dispose_target{-1}, dispose_at{0};
    std::vector<std::pair<int, int>> kids; // (task, scheduled from inside this run)
    bool                 on_current{}; // nested task that goes to current_thread of the executing thread
    unsigned             yields{};
    int64_t              sleep{};
    // shared with simulated code
    std::atomic<bool> disposed{};
    volatile int      payload{}; // written by the scheduling thread before schedule, and by each run
    // history
    bool            sched{};
    uint64_t        sched_b{}, sched_r{}, disp_b{}, disp_r{};
    int64_t         sched_bt{}, sched_rt{}, disp_rt{};
    uint32_t        sched_tid{};
    std::deque<Run> runs;
    int             errors{}, err{};
    int             in_run_of{-1}; // scheduled from inside this task
};

struct Engine;
struct Handler
{
    Task* t;
    bool  is_disposed() const noexcept { return t->disposed.load(); }
    void  on_error(const std::exception_ptr& e) const
    {
        int    c = err_code(e);
        Quiet  q;
        t->errors++;
        t->err = c;
        sim::log("task %d error %d", t->id, c);
    }
};

struct Engine
{
    std::deque<Task>                  tasks;
    std::map<uint32_t, std::pair<uint64_t, int64_t>> last_end; // by executing thread (or by worker)
    bool                              key_by_worker{};         // strand: one worker, many threads
    std::map<int, int>                inside; // worker -> task inside (or -1)
    std::deque<std::unique_ptr<int>>  worker_cells; // plain data of each worker: visibility between its runs
    int64_t                           base{};

    // ------------------------------------------------------------------------------------------------ executing
    template<typename W>
    std::optional<int64_t> body(Task& t, const std::optional<W>& w)
    {
        size_t k;
        int    disp = -1;
        std::vector<int> kids;
        {
            Quiet q;
            k = t.runs.size();
            Run r;
            r.b   = sim::seq();
            r.bt  = sim::now();
            r.tid = sim::tid();
            uint32_t key = key_by_worker ? (uint32_t)t.worker : r.tid;
            if (last_end.count(key))
            {
                r.prev_e  = last_end[key].first;
                r.prev_et = last_end[key].second;
            }
            sim::log("task %d run %zu on worker %d", t.id, k, t.worker);
            if (t.worker >= 0)
            {
                auto it = inside.find(t.worker);
                if (it != inside.end() && it->second >= 0)
                    sim::fail("overlap", "task %d starts on worker %d while task %d is inside", t.id, t.worker, it->second);
                inside[t.worker] = t.id;
            }
            t.runs.push_back(r);
            if (k > t.deltas.size())
                sim::fail("extra-run", "task %d ran %zu times, expected at most %zu", t.id, k + 1, t.deltas.size() + 1);
            for (auto& [c, at] : t.kids)
                if (at == (int)k)
                    kids.push_back(c);
            if (t.dispose_target >= 0 && (int)k == t.dispose_at)
                disp = t.dispose_target;
        }
        // visibility (race detector): what the scheduling thread wrote, and what this worker's previous run wrote
        t.payload = t.payload + 1;
        if (t.worker >= 0)
            cell(t.worker) += 1;
        sim::yield(t.yields);
        for (size_t i = 0; i < kids.size(); ++i)
        {
            Task& n = tasks[(size_t)kids[i]];
            if (n.on_current)
                schedule(rpp::schedulers::current_thread::create_worker(), n);
            else
                schedule(*w, n);
        }
        if (disp >= 0)
            dispose(tasks[(size_t)disp]);
        if (t.sleep)
            sim::sleep_ns(t.sleep);
        if (t.worker >= 0)
            cell(t.worker) += 1;
        t.payload = t.payload + 1;
        std::optional<int64_t> res;
        bool                   thr = false;
        {
            Quiet q;
            Run&  r = t.runs[k];
            r.e     = sim::seq();
            r.et    = sim::now();
            last_end[key_by_worker ? (uint32_t)t.worker : r.tid] = {r.e, r.et};
            if (t.worker >= 0)
                inside[t.worker] = -1;
            thr = (int)k == t.throw_at;
            if (k < t.deltas.size())
                res = t.deltas[k];
        }
        if (thr)
            throw_err(t.id + 1);
        return res;
    }
    volatile int& cell(int w)
    {
        return *(volatile int*)worker_cells[(size_t)w].get();
    }

    void dispose(Task& t)
    {
        {
            Quiet q;
            if (t.disp_b)
                return;
            t.disp_b = sim::seq();
            sim::log("dispose task %d", t.id);
        }
        t.disposed.store(true);
        Quiet q;
        t.disp_r  = sim::seq();
        t.disp_rt = sim::now();
    }

    // token: destroyed with the schedulable; makes leaks and use-after-destruction of captured state visible
    template<typename W>
    void schedule(const W& w, Task& t)
    {
        using namespace rpp::schedulers;
        {
            Quiet q;
            t.sched     = true;
            t.sched_b   = sim::seq();
            t.sched_bt  = sim::now();
            t.sched_tid = sim::tid();
            sim::log("schedule task %d on worker %d", t.id, t.worker);
        }
        t.payload  = t.payload + 1;
        auto token = std::make_shared<int>(7);
        // user code that schedules from inside its work owns a worker handle, possibly the last one
        std::optional<W> self;
        bool want_self = false;
        for (auto& [c, at] : t.kids)
            want_self |= !tasks[(size_t)c].on_current;
        if (want_self)
            self.emplace(w);
        auto go    = [&](auto fn) {
            if (t.by_tp)
                w.schedule(at(t.tp), fn, Handler{&t});
            else if (t.delay == 0)
                w.schedule(fn, Handler{&t});
            else
                w.schedule(ns{t.delay}, fn, Handler{&t});
        };
        if (t.ret == 0)
            go([this, token, self](const Handler& hd) -> optional_delay_from_now {
                SIM_CHECK(*token == 7, "state-destroyed", "captured state is gone");
                if (auto d = body(*hd.t, self))
                    return delay_from_now{ns{*d}};
                return std::nullopt;
            });
        else if (t.ret == 1)
            go([this, token, self](const Handler& hd) -> optional_delay_from_this_timepoint {
                SIM_CHECK(*token == 7, "state-destroyed", "captured state is gone");
                if (auto d = body(*hd.t, self))
                    return delay_from_this_timepoint{ns{*d}};
                return std::nullopt;
            });
        else
            go([this, token, self](const Handler& hd) -> optional_delay_to {
                SIM_CHECK(*token == 7, "state-destroyed", "captured state is gone");
                if (auto d = body(*hd.t, self))
                    return delay_to{at(*d)};
                return std::nullopt;
            });
        Quiet q;
        t.sched_r  = sim::seq();
        t.sched_rt = sim::now();
    }

    // ------------------------------------------------------------------------------------------------ generating
    struct Gen
    {
        unsigned workers = 1, max_tasks = 5, max_reps = 2;
        bool     nested = true, dispose = true, throws = true, sleeps = true, past = true, current = false; // current: nested work may go to current_thread
        unsigned max_ms = 4;
    };
    void generate(const Gen& g)
    {
        unsigned n = sim::param_range(1, g.max_tasks, "ntasks");
        base       = sim::now();
        for (unsigned i = 0; i < g.workers; ++i)
        {
            auto  c = std::make_unique<int>(0);
            Quiet q;
            worker_cells.push_back(std::move(c));
            inside[(int)i] = -1;
        }
        for (unsigned i = 0; i < n; ++i)
        {
            Task* t;
            {
                Quiet q;
                tasks.emplace_back();
                t = &tasks.back();
            }
            t->id     = (int)i;
            t->worker = (int)sim::param(g.workers, "worker");
            t->by_tp  = sim::flip("by_tp");
            int64_t d = (int64_t)sim::param(g.max_ms + 1, "due") * MS;
            if (g.past && sim::param(8, "past") == 1)
                d = -d;
            t->delay      = d;
            t->tp         = base + d;
            t->ret        = (int)sim::param(3, "ret");
            unsigned reps = sim::param(g.max_reps + 1, "reps");
            int64_t  acc  = base + d;
            for (unsigned k = 0; k < reps; ++k)
            {
                int64_t x = (int64_t)sim::param(4, "delta") * MS;
                if (t->ret == 2)
                {
                    acc += x;
                    x = acc;
                }
                Quiet q;
                t->deltas.push_back(x);
            }
            t->yields = sim::param(3, "yields");
            if (g.sleeps && sim::param(4, "sleeps") == 1)
                t->sleep = (int64_t)sim::param_range(1, 5, "sleep") * 700000;
            if (g.throws && sim::param(8, "throws") == 1)
                t->throw_at = (int)sim::param((uint32_t)t->deltas.size() + 1, "throw_at");
            if (g.dispose && sim::param(4, "disposes") == 1)
            {
                t->dispose_target = (int)sim::param(n, "disp_target");
                t->dispose_at     = (int)sim::param((uint32_t)t->deltas.size() + 1, "disp_at");
            }
        }
        for (unsigned i = 1; i < n && g.nested; ++i)
            if (sim::param(3, "nest") == 1)
            {
                int      p  = (int)sim::param(i, "parent");
                int      at = (int)sim::param((uint32_t)tasks[(size_t)p].deltas.size() + 1, "nest_at");
                bool     oc = g.current && sim::flip("nested_current");
                Quiet    q;
                tasks[(size_t)p].kids.push_back({(int)i, at});
                tasks[i].in_run_of  = p;
                tasks[i].worker     = tasks[(size_t)p].worker;
                tasks[i].on_current = oc;
            }
    }

    // ------------------------------------------------------------------------------------------------ judging
    struct Due
    {
        int64_t lo, hi;
    };
    static constexpr int64_t INF = INT64_MAX / 4;
    // due interval of run k
    Due due(const Task& t, size_t k) const
    {
        bool    exact       = sim::time_exact();
        bool    loose_first = this->loose_first && t.in_run_of < 0;
        Due     d{};
        if (t.by_tp)
            d = {t.tp, loose_first ? std::max(t.tp, t.sched_bt) + (exact ? SLACK : INF) : t.tp};
        else
            d = {t.sched_bt + t.delay, t.sched_rt && !loose_first ? t.sched_rt + t.delay : (exact ? t.sched_bt + std::max<int64_t>(t.delay, 0) + SLACK : INF)};
        for (size_t i = 0; i < k; ++i)
        {
            if (t.ret == 0)
            {
                int64_t e = t.runs[i].et;
                d         = {e + t.deltas[i], exact ? e + t.deltas[i] + SLACK : INF};
            }
            else if (t.ret == 1)
                d = {d.lo + t.deltas[i], std::min(INF, d.hi + t.deltas[i])};
            else
                d = {t.deltas[i], t.deltas[i]};
        }
        return d;
    }
    bool loose_first{}; // immediate and current_thread: the scheduling call itself executes, its return bounds nothing

    size_t expected_runs(const Task& t) const { return t.throw_at >= 0 ? (size_t)t.throw_at + 1 : t.deltas.size() + 1; }

    void check_never_early()
    {
        for (auto& t : tasks)
            for (size_t k = 0; k < t.runs.size(); ++k)
                SIM_CHECK(t.runs[k].bt >= due(t, k).lo, "early", "task %d run %zu starts at %+lldus, due at %+lldus", t.id, k, (long long)(t.runs[k].bt - base) / 1000, (long long)(due(t, k).lo - base) / 1000);
    }
    // only meaningful with an exact clock
    void check_prompt()
    {
        if (!sim::time_exact())
            return;
        for (auto& t : tasks)
            for (size_t k = 0; k < t.runs.size(); ++k)
            {
                auto&   r   = t.runs[k];
                int64_t lim = std::max(due(t, k).hi, r.prev_et);
                if (!k)
                    lim = std::max(lim, loose_first ? t.sched_bt : t.sched_rt);
                SIM_CHECK(r.bt <= lim + SLACK, "late", "task %d run %zu starts at %+lldus although due at %+lldus and the worker was free since %+lldus", t.id, k, (long long)(r.bt - base) / 1000, (long long)(due(t, k).hi - base) / 1000, (long long)(r.prev_et - base) / 1000);
            }
    }
    void check_counts(bool all_must_run = true)
    {
        for (auto& t : tasks)
        {
            size_t want = expected_runs(t);
            if (!t.sched)
            {
                SIM_CHECK(t.runs.empty(), "phantom", "task %d ran without having been scheduled", t.id);
                continue;
            }
            SIM_CHECK(t.runs.size() <= want, "extra-run", "task %d ran %zu times, expected %zu", t.id, t.runs.size(), want);
            if (!t.disp_b && all_must_run)
                SIM_CHECK(t.runs.size() == want, "lost", "task %d ran %zu times, expected %zu", t.id, t.runs.size(), want);
            bool should_err = t.throw_at >= 0 && t.runs.size() == want;
            SIM_CHECK(t.errors == (should_err ? 1 : 0), "error-count", "task %d reported %d errors to its handler", t.id, t.errors);
            if (t.errors)
                SIM_CHECK(t.err == t.id + 1, "error-identity", "task %d got error %d", t.id, t.err);
        }
    }
    void check_disposed()
    {
        for (auto& t : tasks)
        {
            if (!t.disp_r)
                continue;
            for (size_t k = 0; k < t.runs.size(); ++k)
            {
                auto& r = t.runs[k];
                // the worker looked at the handler after everything below had happened
                uint64_t looked = std::max({t.sched_b, r.prev_e, k ? t.runs[k - 1].e : 0});
                SIM_CHECK(t.disp_r > looked, "ran-disposed", "task %d run %zu started although its handler was disposed before the worker picked it", t.id, k);
                // exact clock: a handler disposed well before the due time was certainly seen
                if (sim::time_exact())
                    SIM_CHECK(t.disp_rt + SLACK > std::min(due(t, k).lo, r.bt), "ran-disposed", "task %d run %zu started at %+lldus although its handler was disposed at %+lldus", t.id, k, (long long)(r.bt - base) / 1000, (long long)(t.disp_rt - base) / 1000);
            }
        }
    }
    // earlier due first, ties first-in first-out
    void check_order()
    {
        struct Inst
        {
            const Task* t;
            size_t      k;
            Due         d;
            uint64_t    emp_lo, emp_hi; // the queue insertion happened inside this interval
            int64_t     emp_hi_t;
        };
        std::vector<Inst> in;
        for (auto& t : tasks)
            for (size_t k = 0; k < t.runs.size(); ++k)
            {
                Inst i{&t, k, due(t, k), 0, 0, 0};
                if (!k)
                {
                    i.emp_lo   = t.sched_b;
                    i.emp_hi   = t.sched_r;
                    i.emp_hi_t = t.sched_rt;
                }
                else // re-inserted by the worker thread after the run, before anything else runs on that thread
                {
                    i.emp_lo   = t.runs[k - 1].e;
                    i.emp_hi   = t.runs[k - 1].e;
                    i.emp_hi_t = t.runs[k - 1].et;
                }
                in.push_back(i);
            }
        for (auto& a : in)
            for (auto& b : in)
            {
                if (a.t == b.t || a.t->worker != b.t->worker)
                    continue;
                const Run& ra = a.t->runs[a.k];
                const Run& rb = b.t->runs[b.k];
                if (ra.b < rb.b)
                    continue; // a ran first: nothing to check from a's side
                // b ran first. Was a in the queue when the worker picked b?
                uint64_t pick = std::max(b.emp_lo, rb.prev_e);
                bool     present;
                if (a.k == 0)
                    present = a.emp_hi && (a.emp_hi < pick || a.emp_hi_t + (sim::time_exact() ? SLACK : INF) < b.d.lo);
                else // re-inserted after its previous run ended and before the thread's next run
                    present = a.emp_hi <= rb.prev_e;
                if (!present)
                    continue;
                if (a.t->disp_b && a.t->disp_b < rb.b)
                    continue;
                bool earlier = a.d.hi < b.d.lo;
                bool tie     = a.d.lo == a.d.hi && b.d.lo == b.d.hi && a.d.lo == b.d.lo && a.emp_hi < b.emp_lo
                          && (a.k == 0 || b.k > 0 || (b.t->in_run_of >= 0 && b.t->sched_tid == ra.tid));
                SIM_CHECK(!earlier, "due-order", "task %d (run %zu, due %+lldus) ran before task %d (run %zu, due %+lldus) which was already queued", b.t->id, b.k, (long long)(b.d.lo - base) / 1000, a.t->id, a.k, (long long)(a.d.hi - base) / 1000);
                SIM_CHECK(!tie, "tie-order", "task %d (run %zu) ran before task %d (run %zu): same due time, queued earlier", b.t->id, b.k, a.t->id, a.k);
            }
    }
};
} // namespace h
