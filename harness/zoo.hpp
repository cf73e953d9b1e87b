// The pipeline zoo: random chains of the library's operators over scripted sources and the library's own sources.
#pragma once
#include "multi.hpp"

#include <rpp/schedulers.hpp>

namespace h
{
constexpr int     THROWN = 7777;
constexpr int64_t UNIT   = 1000000; // of the gaps and periods: 1 ms of virtual time

// Watches one subscription between two operators: strictly one call at a time. (An operator behind a failed source may
// still be handed a value there; what counts is that the observer at the end is not.)
struct Guard
{
    std::string  name;
    int          in{};
    uint32_t     in_tid{};
    unsigned     yields{};
    volatile int touched{};
    void         run(char k, int v)
    {
        {
            Quiet q;
            if (in)
                sim::fail(in_tid == sim::tid() ? "reentrant" : "overlap", "after %s: %c(%d) by T%u begins while T%u is still inside a call", name.c_str(), k, v, sim::tid(), in_tid);
            in     = 1;
            in_tid = sim::tid();
        }
        touched = touched + 1;
        sim::yield(yields);
        touched = touched + 1;
        Quiet q;
        in = 0;
    }
};

struct Zoo
{
    std::deque<Src>                             srcs;
    Threads                                     th;
    std::optional<rpp::schedulers::thread_pool> pool;
    std::string                                 desc;
    // configuration
    unsigned max_sources{5}, max_values{4};
    bool     preserve{};  // values reach the observer unchanged or not at all
    bool     faithful{};  // (with preserve) only operators that deliver each value at most once
    unsigned err10{2}, never10{1};
    bool     all_threads{};
    bool     timed{true}, builtin_sources{true};
    bool     guarded{};   // a Guard after every operator
    bool     only_joins{};
    unsigned how{};       // static pipelines: 0 - observer with disposable, 1 - bare callbacks, 2 - subscribe_with_disposable
    // what was built
    bool     never{};     // some source does not end
    bool     joins{};     // some operator takes more than one source
    bool     asynchronous{};
    // user callables
    int calls{}, throw_at{-1};
    int thrown{};
    uint64_t thrown_seq{};

    void user()
    {
        bool t;
        {
            Quiet q;
            t = ++calls == throw_at;
            if (t)
            {
                thrown++;
                thrown_seq = sim::seq();
                sim::log("user callable throws");
            }
        }
        if (t)
            throw_err(THROWN);
    }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        Quiet   q;
        char    b[96];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        desc += b;
    }

    Src&  scripted();
    Obs   leaf();
    Obs   quick_leaf(); // never '-'
    Obs   stage(Obs in);
    Obs   chain(unsigned stages);
    Obs   guard(Obs in);
    Obs   single(unsigned op, Obs in);
    Obs   multi(unsigned op, Obs in);
    Obs   time(unsigned op, Obs in);
    Obs   source(unsigned op);
    void  static_pipeline(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec);
    void  static_pipeline0(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec);
    void  static_pipeline1(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec);
    void  static_pipeline2(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec);
    void  static_pipeline3(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec);
    void  static_pipeline4(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec);

    static constexpr unsigned N_SINGLE = 25, N_MULTI = 19, N_TIME = 12, N_SOURCE = 11, N_STATIC = 44;

    // everything that can still happen has happened
    void drain()
    {
        for (int i = 0; i < 50; ++i)
        {
            sim::quiesce();
            bool more;
            {
                Quiet q;
                more = th.joined != th.th.size();
            }
            if (!more)
            {
                for (auto& x : srcs)
                {
                    x.check_visible(desc.c_str());
                    x.check_ended(desc.c_str());
                }
                return;
            }
            th.join_all();
        }
        sim::fail("endless", "%s: sources are subscribed again and again", desc.c_str());
    }
    void drop_kept()
    {
        for (auto& s : srcs)
            s.drop_kept();
    }
    void check_released(const char* when)
    {
        Quiet q;
        for (auto& s : srcs)
            for (auto& si : s.subs)
                SIM_CHECK(si.disposed == 1, "not-released", "%s: %s: source %s (attempt %d) was disposed %d times", desc.c_str(), when, s.name.c_str(), si.attempt, si.disposed);
    }
    // the emission that value `v` comes from
    const Emit* origin(int v)
    {
        for (auto& s : srcs)
            for (auto& si : s.subs)
                for (auto& e : si.emits)
                    if (e.v == v)
                        return &e;
        return nullptr;
    }
};
} // namespace h
