// REAL: rpp operators that open subscriptions while they run, subjects, connectables, disposables, schedulers
// STUB: none
// Long-lived subscriptions: after any number of inner lifecycles the heap holds only what is still active.
#include "multi.hpp"

#include <rpp/schedulers.hpp>
#include <cstring>
using namespace h;

namespace
{
namespace o = rpp::ops;
using namespace rpp::schedulers;

using ms = std::chrono::milliseconds;

struct World
{
    Threads         th;
    std::deque<Src> srcs;
    std::string     what;

    // a source that can be subscribed any number of times, every time with the same script
    Src& source(unsigned n, char end, bool may_thread = true)
    {
        Src* s;
        {
            Quiet q;
            srcs.emplace_back();
            s = &srcs.back();
        }
        bool thread = may_thread && sim::param(3, "thread") == 1;
        auto yields = sim::param(3, "yields");
        Quiet q;
        s->name    = "inner" + std::to_string(srcs.size());
        s->threads = &th;
        s->mode    = thread ? Mode::Thread : Mode::Sync;
        s->yields  = yields;
        Script sc;
        for (unsigned i = 0; i < n; ++i)
            sc.values.push_back((int)i);
        sc.end = end;
        sc.err = 1;
        s->scripts.push_back(sc);
        return *s;
    }
    Obs inner(const char* ends = "C")
    {
        unsigned n = sim::param(3, "inner values");
        unsigned k = sim::param((unsigned)strlen(ends), "inner end");
        return source(n, ends[k]).dyn();
    }
    void settle()
    {
        for (;;)
        {
            sim::quiesce();
            bool more;
            {
                Quiet q;
                more = th.joined != th.th.size();
            }
            if (!more)
                return;
            th.join_all();
        }
    }
    template<typename Cycle, typename Settle>
    void grow(const Cycle& cycle, const Settle& settled)
    {
        unsigned k    = sim::param_range(8, 14, "cycles");
        size_t   live[4];
        int      i = 0;
        for (unsigned phase = 0; phase < 4; ++phase)
        {
            for (unsigned c = 0; c < k; ++c)
                cycle(i++);
            settled();
            live[phase] = sim::live_allocations();
        }
        Quiet q;
        sim::log("%s: live blocks %zu %zu %zu %zu", what.c_str(), live[0], live[1], live[2], live[3]);
        SIM_CHECK(!(live[3] > live[0] + 5 && live[3] > live[2] && live[2] > live[1] && live[1] > live[0]), "accumulates", "%s: blocks alive after %u, %u, %u, %u cycles: %zu %zu %zu %zu", what.c_str(), k, 2 * k, 3 * k, 4 * k, live[0], live[1], live[2], live[3]);
    }
    template<typename Cycle>
    void grow(const Cycle& cycle)
    {
        grow(cycle, [this] { settle(); });
    }
};

Obs pipeline(World& w, unsigned which, const Obs& S, const Obs& T)
{
    auto is = [&](const char* n) {
        Quiet q;
        w.what = n;
    };
    switch (which)
    {
    default:
    case 0:
    {
        is("flat_map");
        Obs i = w.inner();
        return (S | o::flat_map([i](int) { return i; })).as_dynamic();
    }
    case 1:
    {
        is("concat");
        Obs i = w.inner();
        return (S | o::map([i](int) { return i; }) | o::concat()).as_dynamic();
    }
    case 2:
    {
        is("switch_on_next");
        Obs i = w.inner("C-");
        return (S | o::map([i](int) { return i; }) | o::switch_on_next()).as_dynamic();
    }
    case 3:
    {
        is("window|merge");
        return (S | o::window(2) | o::merge()).as_dynamic();
    }
    case 4:
    {
        is("window|flat_map(take)");
        return (S | o::window(3) | o::flat_map([](const auto& x) { return x | rpp::ops::take(1); })).as_dynamic();
    }
    case 5:
    {
        is("group_by|merge");
        return (S | o::group_by([](int v) { return v % 3; }) | o::merge()).as_dynamic();
    }
    case 6: is("observe_on"); return (S | o::observe_on(new_thread{})).as_dynamic();
    case 7: is("delay"); return (S | o::delay(us{3}, new_thread{})).as_dynamic();
    case 8: is("debounce"); return (S | o::debounce(us{3}, new_thread{})).as_dynamic();
    case 9:
    {
        is("flat_map(take_until)");
        Obs a = w.inner("C-"), b = w.source(1, 'C', false).dyn();
        return (S | o::flat_map([a, b](int) { return a | rpp::ops::take_until(b); })).as_dynamic();
    }
    case 10:
    {
        is("flat_map(subject|take)");
        return (S | o::flat_map([T](int) { return T | rpp::ops::take(1); })).as_dynamic();
    }
    case 11:
    {
        is("flat_map(on_error_resume_next)");
        Obs a = w.inner("E"), b = w.inner("C"), c = w.inner("-");
        return (S | o::flat_map([a, b, c](int) { return c | rpp::ops::merge_with(a) | rpp::ops::on_error_resume_next([b](const std::exception_ptr&) { return b; }); })).as_dynamic();
    }
    case 12:
    {
        is("flat_map(retry)");
        Obs a = w.inner("E"), c = w.inner("C");
        return (S | o::flat_map([a, c](int) { return c | rpp::ops::merge_with(a) | rpp::ops::retry(1) | rpp::ops::on_error_resume_next([c](const std::exception_ptr&) { return c; }); })).as_dynamic();
    }
    case 13:
    {
        is("flat_map(retry_when)");
        Obs a = w.inner("E"), b = w.source(1, '-').dyn(), c = w.source(0, 'C').dyn();
        auto n = std::make_shared<std::atomic<int>>(0);
        return (S | o::flat_map([a, b, c, n](int) {
                    return a | rpp::ops::retry_when([b, c, n](const std::exception_ptr&) { return n->fetch_add(1) % 2 ? c : b; });
                }))
            .as_dynamic();
    }
    case 14:
    {
        is("flat_map(zip)");
        Obs a = w.inner(), b = w.inner();
        return (S | o::flat_map([a, b](int) { return a | rpp::ops::zip([](int x, int) { return x; }, b); })).as_dynamic();
    }
    case 15:
    {
        is("flat_map(combine_latest)");
        Obs a = w.inner(), b = w.inner();
        return (S | o::flat_map([a, b](int) { return a | rpp::ops::combine_latest([](int x, int) { return x; }, b); })).as_dynamic();
    }
    case 16:
    {
        is("flat_map(with_latest_from)");
        Obs a = w.inner(), b = w.inner("C-");
        return (S | o::flat_map([a, b](int) { return a | rpp::ops::with_latest_from([](int x, int) { return x; }, b); })).as_dynamic();
    }
    case 17:
    {
        is("flat_map(window_toggle)");
        Obs a = w.inner(), b = w.inner("C-"), c = w.inner("C-");
        return (S | o::flat_map([a, b, c](int) { return a | rpp::ops::window_toggle(b, [c](int) { return c; }) | rpp::ops::merge(); })).as_dynamic();
    }
    case 18:
    {
        is("window_toggle");
        Obs c = w.inner("C");
        return (T | o::window_toggle(S, [c](int) { return c; }) | o::merge()).as_dynamic();
    }
    case 19:
    {
        is("flat_map(subscribe_on)");
        Obs a = w.inner();
        return (S | o::flat_map([a](int) { return a | rpp::ops::subscribe_on(new_thread{}); })).as_dynamic();
    }
    case 20:
    {
        is("flat_map(timeout)");
        Obs a = w.inner("C-"), b = w.inner();
        return (S | o::flat_map([a, b](int) { return a | rpp::ops::timeout(us{2}, b, new_thread{}); })).as_dynamic();
    }
    case 21:
    {
        is("flat_map(timer)");
        return (S | o::flat_map([](int) { return rpp::source::timer(us{2}, new_thread{}) | rpp::ops::map([](size_t) { return 0; }); })).as_dynamic();
    }
    case 22:
    {
        is("flat_map(interval|take)");
        return (S | o::flat_map([](int) { return rpp::source::interval(us{2}, new_thread{}) | rpp::ops::take(2) | rpp::ops::map([](size_t) { return 0; }); })).as_dynamic();
    }
    case 23:
    {
        is("flat_map(repeat)");
        Obs a = w.inner();
        return (S | o::flat_map([a](int) { return a | rpp::ops::repeat(2); })).as_dynamic();
    }
    case 24:
    {
        is("flat_map(observe_on)");
        Obs a = w.inner();
        return (S | o::flat_map([a](int) { return a | rpp::ops::observe_on(new_thread{}); })).as_dynamic();
    }
    case 25:
    {
        is("flat_map(publish|ref_count)");
        Obs a = w.source(1 + sim::param(2, "more values"), sim::flip("ends") ? 'C' : '-').dyn();
        return (S | o::flat_map([a](int) { return a | rpp::ops::publish() | rpp::ops::ref_count() | rpp::ops::take(1); })).as_dynamic();
    }
    case 26:
    {
        is("flat_map(group_by)");
        Obs a = w.inner("C");
        return (S | o::flat_map([a](int) { return a | rpp::ops::group_by([](int v) { return v; }) | rpp::ops::flat_map([](const auto& g) { return g | rpp::ops::take(1); }); })).as_dynamic();
    }
    case 27:
    {
        is("throttle|scan|distinct_until_changed|buffer|take_last|tap|start_with");
        return (S | o::throttle(us{1}) | o::scan(0, [](int, int v) { return v; }) | o::distinct_until_changed() | o::buffer(2) | o::flat_map([](const std::vector<int>& v) { return rpp::source::from_iterable(v) | rpp::ops::start_with_values(5); }) | o::take_last(2)).as_dynamic();
    }
    case 28:
    {
        is("concat(defer)");
        Obs a = w.inner();
        return (S | o::flat_map([a](int) { return rpp::source::concat(a, rpp::source::defer([a] { return a; }).as_dynamic()); })).as_dynamic();
    }
    case 29: // the queue of waiting observables is never empty
    {
        is("concat(backlog)");
        return (S | o::start_with_values(0, 1) | o::map([T](int) { return (T | rpp::ops::take(1)).as_dynamic(); }) | o::concat()).as_dynamic();
    }
    }
}
constexpr unsigned N = 30;

template<typename Subject>
void observers_come_and_go(World& w, Subject&& s, const char* name)
{
    {
        Quiet q;
        w.what = name;
    }
    auto how  = sim::param(4, "how");
    auto obs  = s.get_observer();
    auto src  = s.get_observable();
    auto sync = sim::flip("other thread");
    w.grow([&](int i) {
        auto one = [&] {
            switch (how)
            {
            case 0: // disposed by hand
            {
                auto d = src.subscribe_with_disposable([](int) {});
                obs.on_next(i);
                d.dispose();
                break;
            }
            case 1: // disposed inside the callback
            {
                auto d = rpp::composite_disposable_wrapper::make();
                src.subscribe(d, [d](int) { d.dispose(); });
                obs.on_next(i);
                break;
            }
            case 2:
            {
                src | rpp::ops::take(1) | rpp::ops::subscribe([](int) {});
                obs.on_next(i);
                break;
            }
            default: // through another operator
            {
                auto d = (src | rpp::ops::merge_with(src) | rpp::ops::window(2) | rpp::ops::merge()).subscribe_with_disposable([](int) {});
                obs.on_next(i);
                d.dispose();
            }
            }
        };
        if (sync)
        {
            w.th.spawn(one);
            w.th.join_all();
        }
        else
            one();
    });
}
} // namespace

SIM_SCENARIO(inner, 6)
{
    World w;
    Rec   rec;
    rpp::subjects::serialized_publish_subject<int> s, t;
    Obs      S = s.get_observable().as_dynamic(), T = t.get_observable().as_dynamic();
    unsigned which   = sim::param(N, "pipeline");
    bool     threads = sim::param(3, "outer threads") == 1 && which != 29; // there a missed trigger makes the backlog longer
    unsigned settle  = sim::param(3, "settle");
    auto     d       = rpp::composite_disposable_wrapper::make();
    {
        Obs p = pipeline(w, which, S, T);
        p.subscribe(d, [&](int) { sim::yield(1); }, [](const std::exception_ptr& e) { sim::fail("error", "unexpected error %d", err_code(e)); }, [] {});
    }
    w.grow([&](int i) {
        auto one = [&, i] {
            s.get_observer().on_next(i);
            t.get_observer().on_next(i);
        };
        if (threads)
            w.th.spawn(one);
        else
            one();
        if (settle == 0 || (settle == 1 && i % 3 == 0))
            w.settle();
    });
    d.dispose();
    w.settle();
}

SIM_SCENARIO(subjects, 2)
{
    World w;
    switch (sim::param(8, "subject"))
    {
    default:
    case 0: observers_come_and_go(w, rpp::subjects::publish_subject<int>{}, "publish_subject"); break;
    case 1: observers_come_and_go(w, rpp::subjects::serialized_publish_subject<int>{}, "serialized_publish_subject"); break;
    case 2: observers_come_and_go(w, rpp::subjects::behavior_subject<int>{1}, "behavior_subject"); break;
    case 3: observers_come_and_go(w, rpp::subjects::serialized_behavior_subject<int>{1}, "serialized_behavior_subject"); break;
    case 4: observers_come_and_go(w, rpp::subjects::replay_subject<int>{3}, "replay_subject(3)"); break;
    case 5: observers_come_and_go(w, rpp::subjects::serialized_replay_subject<int>{3}, "serialized_replay_subject(3)"); break;
    case 6: observers_come_and_go(w, rpp::subjects::replay_subject<int>{2, us{1}}, "replay_subject(2, 1us)"); break;
    }
}

// connections made and released again and again
SIM_SCENARIO(connections, 2)
{
    World w;
    Obs   src  = w.source(sim::param(3, "n"), "C--"[sim::param(3, "end")]).dyn();
    auto  kind = sim::param(3, "kind");
    bool  th   = sim::param(3, "threads") == 1;
    auto  go   = [&](const auto& one) {
        w.grow([&](int i) {
            if (th)
                w.th.spawn(one);
            else
                one();
            if (!th || i % 2)
                w.settle();
        });
    };
    if (kind < 2)
    {
        {
            Quiet q;
            w.what = "publish|ref_count";
        }
        auto rc = (kind ? Obs{(src | o::publish() | o::ref_count()).as_dynamic()} : Obs{(src | o::multicast(rpp::subjects::replay_subject<int>{2}) | o::ref_count()).as_dynamic()});
        go([&, rc] {
            auto d = rc.subscribe_with_disposable([](int) {});
            sim::yield(2);
            d.dispose();
        });
    }
    else
    {
        {
            Quiet q;
            w.what = "publish, connect and disconnect";
        }
        auto c = src | o::publish();
        auto keep = c.subscribe_with_disposable([](int) {});
        go([&, c] {
            auto d = c.connect();
            sim::yield(2);
            d.dispose();
        });
        keep.dispose();
    }
}

// timers and workers
SIM_SCENARIO(timers, 2)
{
    sim::set_no_time_slip(); // an interval catches up with every period it has missed
    World    w;
    unsigned kind = sim::param(7, "kind");
    auto     d    = rpp::composite_disposable_wrapper::make();
    auto     is   = [&](const char* n) {
        Quiet q;
        w.what = n;
    };
    int64_t  t0   = 0;
    auto     run  = [&](auto&& obs) {
        obs.subscribe(d, [](auto) {}, [](const std::exception_ptr&) {}, [] {});
        w.grow([&](int) { t0 += 20000000; }, [&] { sim::quiesce(t0); });
        d.dispose();
        w.settle();
    };
    switch (kind)
    {
    default:
    case 0: is("interval"); run(rpp::source::interval(ms{20}, new_thread{})); break;
    case 1: is("timer|repeat"); run(rpp::source::timer(ms{20}, new_thread{}) | o::repeat()); break;
    case 2: is("timer|error|retry"); run(rpp::source::timer(ms{20}, new_thread{}) | o::flat_map([](size_t) { return rpp::source::error<int>(make_err(1)); }) | o::retry()); break;
    case 3: is("timer|error|retry_when"); run(rpp::source::just(rpp::schedulers::immediate{}, 1) | o::flat_map([](int) { return rpp::source::error<int>(make_err(1)); }) | o::retry_when([](const std::exception_ptr&) { return rpp::source::timer(ms{20}, new_thread{}); })); break;
    case 4: is("interval|switch_on_next(interval)"); run(rpp::source::interval(ms{20}, new_thread{}) | o::map([](size_t) { return rpp::source::interval(ms{7}, new_thread{}); }) | o::switch_on_next()); break;
    case 5: is("interval|delay|observe_on|debounce"); run(rpp::source::interval(ms{20}, new_thread{}) | o::delay(ms{30}, new_thread{}) | o::observe_on(new_thread{}) | o::debounce(ms{5}, new_thread{})); break;
    case 6:
    {
        is("worker.schedule");
        thread_pool pool{2};
        auto        kinds = sim::param(2, "scheduler");
        auto        go    = [&](auto&& worker) {
            w.grow([&](int i) { worker.schedule(us{i % 3}, [](const auto& o) -> rpp::schedulers::optional_delay_from_now { if (o.is_disposed()) return {}; return {}; }, rpp::make_lambda_observer<int>([](int) {}, [](const std::exception_ptr&) {}, [] {}).as_dynamic()); });
        };
        if (kinds)
            go(pool.create_worker());
        else
            go(new_thread::create_worker());
    }
    }
}

// children of a composite disposable
SIM_SCENARIO(disposables, 1)
{
    World w;
    {
        Quiet q;
        w.what = "composite_disposable";
    }
    auto d    = rpp::composite_disposable_wrapper::make();
    auto kind = sim::param(3, "kind");
    bool th   = sim::flip("threads");
    w.grow([&](int i) {
        auto one = [&, i] {
            if (kind == 0) // added and removed
            {
                auto c = rpp::make_callback_disposable([]() noexcept {});
                d.add(c);
                d.remove(c);
            }
            else if (kind == 1) // already disposed when added
            {
                auto c = rpp::make_callback_disposable([]() noexcept {});
                c.dispose();
                d.add(c);
            }
            else
            {
                d.add(rpp::make_callback_disposable([]() noexcept {}));
                if (i % 3 == 2)
                    d.clear();
            }
        };
        if (th)
            w.th.spawn(one);
        else
            one();
        if (i % 4 == 3)
        {
            w.settle();
            if (kind == 2)
                d.clear();
        }
    });
    d.dispose();
}

// attempts that end inside of their own subscribe: the loop around them runs inside of a single call
SIM_SCENARIO(synchronous_attempts, 1)
{
    World    w;
    unsigned kind = sim::param(8, "kind"), per = sim::param_range(8, 14, "cycles"), reg = sim::param(3, "registered"), vals = sim::param(3, "values");
    bool     mixed = sim::param(3, "mixed") == 1 && kind != 5 && kind != 7; // every fifth one ends on another thread
    size_t   live[4]{};
    unsigned n = 0, phase = 0;
    bool     done = false;
    char     end  = kind < 3 ? 'E' : 'C';
    auto     d    = rpp::composite_disposable_wrapper::make();
    auto     src  = rpp::source::create<int>([&](auto&& obs) {
        if (++n % per == 0 && phase < 4)
            live[phase++] = sim::live_allocations();
        if (phase == 4)
        {
            {
                Quiet q;
                done = true;
            }
            d.dispose();
            obs.on_completed();
            return;
        }
        for (unsigned i = 0; i < reg; ++i)
            obs.set_upstream(i ? rpp::make_callback_disposable([]() noexcept {}) : rpp::disposable_wrapper{rpp::composite_disposable_wrapper::make()});
        auto go = [end, vals](const auto& ob) {
            for (unsigned i = 0; i < vals; ++i)
                ob.on_next((int)i);
            if (end == 'E')
                ob.on_error(make_err(1));
            else
                ob.on_completed();
        };
        if (mixed && n % 5 == 0)
            w.th.spawn([go, ob = std::make_shared<std::decay_t<decltype(obs)>>(std::forward<decltype(obs)>(obs))] { go(*ob); });
        else
            go(obs);
    });
    auto run = [&](const char* what, const auto& o) {
        {
            Quiet q;
            w.what = what;
        }
        o.subscribe(d, [](int) {}, [](const std::exception_ptr& e) { sim::fail("error", "unexpected error %d", err_code(e)); }, [] {});
    };
    auto stop = src | o::map([](int v) { return v; });
    switch (kind)
    {
    default:
    case 0: run("retry of synchronous attempts", stop | o::retry()); break;
    case 1: run("retry(n) of synchronous attempts", stop | o::retry(1000)); break;
    case 2: run("retry_when of synchronous attempts", stop | o::retry_when([](const std::exception_ptr&) { return rpp::source::just(rpp::schedulers::immediate{}, 1); })); break;
    case 3: run("repeat of synchronous attempts", stop | o::repeat()); break;
    case 4: run("repeat(n) of synchronous attempts", stop | o::repeat(1000)); break;
    case 5: run("flat_map to synchronous sources", rpp::source::from_iterable(std::vector<int>(64, 1), rpp::schedulers::immediate{}) | o::flat_map([stop](int) { return stop; })); break;
    case 6: run("concat of synchronous sources", rpp::source::from_iterable(std::vector<int>(64, 1), rpp::schedulers::immediate{}) | o::map([stop](int) { return stop; }) | o::concat()); break;
    case 7: run("switch_on_next of synchronous sources", rpp::source::from_iterable(std::vector<int>(64, 1), rpp::schedulers::immediate{}) | o::map([stop](int) { return stop; }) | o::switch_on_next()); break;
    }
    w.th.join_all();
    w.settle();
    Quiet q;
    SIM_CHECK(kind == 6 || kind == 7 || kind == 5 || done, "stopped", "%s: only %u attempts", w.what.c_str(), n);
    if (!done)
        return;
    sim::log("%s: live blocks %zu %zu %zu %zu", w.what.c_str(), live[0], live[1], live[2], live[3]);
    SIM_CHECK(!(live[3] > live[0] + 5 && live[3] > live[2] && live[2] > live[1] && live[1] > live[0]), "accumulates", "%s: blocks alive after %u, %u, %u, %u attempts: %zu %zu %zu %zu", w.what.c_str(), per, 2 * per, 3 * per, 4 * per, live[0], live[1], live[2], live[3]);
}
