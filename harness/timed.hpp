// Timed operators: sources with gaps, the library's schedulers under one roof.
#pragma once
#include "multi.hpp"
#include "sched_common.hpp"
#include <rpp/schedulers.hpp>

namespace h
{
enum Sched
{
    NewThread,
    Pool,
    RunLoop,
    CurrentThread,
    Immediate,
    NumScheds
};
inline const char* sched_name(int s)
{
    const char* n[] = {"new_thread", "thread_pool", "run_loop", "current_thread", "immediate"};
    return n[s];
}
constexpr int64_t LOOP_STEP = 100000; // how often the run_loop of the scenarios is polled

// Runs f(scheduler) with a scheduler of the wanted kind. Everything that uses it must have been handed over in f; the
// loop of RunLoop is driven by one thread until `stop` and the queue is empty.
struct World
{
    int                                        kind{};
    std::optional<rpp::schedulers::thread_pool> pool;
    std::optional<rpp::schedulers::run_loop>    loop;
    std::atomic<bool>                          stop{};
    uint32_t                                   loop_tid{};
    std::thread                                loop_thread;

    explicit World(int k)
        : kind(k)
    {
        if (sim::param(4, "idealclock") == 1)
            sim::set_tick(0); // many events at exactly the same instant
        if (kind == Pool)
            pool.emplace(sim::param_range(1, 2, "poolthreads"));
        if (kind == RunLoop)
            loop.emplace();
    }
    void start_loop()
    {
        if (kind != RunLoop)
            return;
        loop_thread = std::thread([this] {
            loop_tid = sim::tid();
            while (!stop.load())
            {
                while (loop->is_any_ready_schedulable())
                    loop->dispatch_if_ready();
                sim::sleep_ns(LOOP_STEP);
            }
        });
    }
    void finish()
    {
        stop.store(true);
        if (loop_thread.joinable())
            loop_thread.join();
        loop.reset();
        pool.reset();
    }
    ~World() { finish(); }
    // everything that is due within `ms` has happened
    void settle(int64_t ns)
    {
        if (kind == RunLoop)
            for (int i = 0; i < 3 || !loop->is_empty(); ++i)
                sim::quiesce(sim::now() + ns); // again: a clock jump may have eaten the waiting time
        else
            sim::quiesce();
    }
    int64_t lag() const { return SLACK + (kind == RunLoop ? LOOP_STEP + SLACK : 0); }
    bool    own_thread() const { return kind == NewThread || kind == Pool || kind == RunLoop; }
    template<typename F>
    void with(F&& f)
    {
        switch (kind)
        {
        case NewThread: f(rpp::schedulers::new_thread{}); break;
        case Pool: f(*pool); break;
        case RunLoop: f(*loop); break;
        case CurrentThread: f(rpp::schedulers::current_thread{}); break;
        case Immediate: f(rpp::schedulers::immediate{}); break;
        }
    }
};

// a source whose events come after random gaps, multiples of `unit`
inline void timed_source(Src& s, Threads& th, int base, unsigned maxvals, int64_t unit, unsigned maxgap, unsigned err10 = 2, unsigned never10 = 1)
{
    Script sc = random_script(base, maxvals, err10, never10);
    for (size_t i = 0; i <= sc.values.size(); ++i)
    {
        int64_t g = (int64_t)sim::param(maxgap + 1, "gap") * unit;
        Quiet   q;
        sc.gaps.push_back(g);
    }
    s.mode   = Mode::Thread;
    s.yields = sim::param(3, "srcyield");
    Quiet q;
    s.threads = &th;
    if (s.name.empty())
        s.name = "src";
    s.scripts.push_back(sc);
}

// disposes a subscription at a random moment from its own thread
struct Disposer
{
    bool     on{};
    uint64_t b{}, r{};
    int64_t  bt{}, rt{};
    void plan(Threads& th, Rec& rec, const rpp::composite_disposable_wrapper& d, int64_t unit, unsigned max)
    {
        if (sim::param(3, "dispose") != 1)
            return;
        on         = true;
        int64_t  w = (int64_t)sim::param(max + 1, "dispat") * unit;
        unsigned y = sim::param(8, "dispyield");
        {
            Quiet q;
            rec.late_allowed = 1;
        }
        th.spawn([this, &rec, d, w, y] {
            if (w)
                sim::sleep_ns(w);
            sim::yield(y);
            {
                Quiet q;
                b  = sim::seq();
                bt = sim::now();
                sim::log("dispose");
            }
            d.dispose();
            Quiet q;
            r  = sim::seq();
            rt = sim::now();
            rec.disp_ret = r;
        });
    }
};
} // namespace h
