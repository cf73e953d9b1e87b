// publish subjects: every current observer receives every event exactly once, under concurrent subscribe and dispose.
#include "subject_common.hpp"
#include "many.hpp"
using namespace h;

template<typename S>
static void run()
{
    SubjectWorld<S> w;
    w.s.emplace();
    unsigned n = sim::param_range(1, 5, "subs"), pre = sim::param(n + 1, "pre");
    for (unsigned i = 0; i < n; ++i)
        w.make_sub(n);
    for (unsigned i = 0; i < pre; ++i)
        w.subscribe(w.subs[i]);
    {
        Threads th;
        w.user_threads(th, sim::param_range(1, 2, "threads"), pre, n);
        unsigned m = sim::param(5, "emissions"), end = sim::param(4, "end");
        bool     sd = sim::param(8, "subject_dispose") == 1;
        th.spawn([&, m, end] {
            auto o = w.s->get_observer();
            for (unsigned i = 0; i < m; ++i)
                w.emit(o, 'N', (int)i + 1);
            if (end)
                w.emit(o, end == 1 ? 'E' : 'C', 5);
            if (end == 3)
                w.emit(o, 'N', 99);
        });
        if (sd)
            th.spawn([&] {
                {
                    Quiet q;
                    w.subj_disp_b = sim::seq();
                }
                w.s->get_disposable().dispose();
            });
    }
    {
        Quiet q;
        auto  t = w.terminal();
        for (auto& u : w.subs)
            if (u.sub_b)
            {
                w.judge_live(u, u.rec.values());
                if (t && t->r && u.sub_b > t->r)
                    SIM_CHECK(u.rec.values().empty(), "after-terminal", "%s subscribed after the end but received %s", u.rec.name.c_str(), u.rec.str().c_str());
            }
    }
    w.s.reset();
}
SIM_SCENARIO(publish, 30) { run<rpp::subjects::publish_subject<int>>(); }
SIM_SCENARIO(serialized_publish, 20) { run<rpp::subjects::serialized_publish_subject<int>>(); }

// many observers, more subscribing while one event is on its way
static volatile int sink_count;
SIM_SCENARIO(crowd, 10)
{
    rpp::subjects::publish_subject<int> s;
    std::deque<int>                     got;
    unsigned                            n = 8 + 24 * sim::param(12, "n"), extra = 1 + 16 * sim::param(6, "extra");
    unsigned                            at = sim::param(n, "at");
    bool                                other_thread = sim::flip("other_thread");
    {
        Quiet q;
        got.resize(n + extra);
    }
    auto sub = [&](unsigned i) {
        s.get_observable().subscribe([&, i](int v) {
            {
                Quiet q;
                got[i]++;
            }
            if (i == at && v == 1)
            {
                auto more = [&] {
                    for (unsigned k = n; k < n + extra; ++k)
                        s.get_observable().subscribe([&got, k](int) { Quiet q; got[k]++; });
                };
                if (other_thread)
                {
                    Threads th;
                    th.spawn(more);
                }
                else
                    more();
            }
        });
    };
    for (unsigned i = 0; i < n; ++i)
        sub(i);
    auto o = s.get_observer();
    o.on_next(1);
    {
        Quiet q;
        for (unsigned i = 0; i < n; ++i)
            SIM_CHECK(got[i] == 1, "lost", "observer %u of %u received %d events", i, n, got[i]);
    }
    o.on_next(2);
    {
        Quiet q;
        for (unsigned i = 0; i < n + extra; ++i)
            SIM_CHECK(got[i] == (i < n ? 2 : 1), "lost", "observer %u received %d events", i, got[i]);
    }
    o.on_completed();
}
// many observers
SIM_SCENARIO(many_observers, 1)
{
    unsigned n = many(300), m = sim::param_range(1, 3, "values"), by = sim::param_range(1, 7, "every"), off = sim::param(by, "offset"), when = sim::param(m, "when");
    rpp::subjects::publish_subject<int> s;
    std::vector<unsigned>               got(n), ended(n);
    std::vector<rpp::disposable_wrapper> d;
    for (unsigned i = 0; i < n; ++i)
        d.push_back(s.get_observable().subscribe_with_disposable([&got, i](int v) { SIM_CHECK((unsigned)v == got[i]++, "order", "observer %u got %d", i, v); }, [](const std::exception_ptr&) {}, [&ended, i] { ++ended[i]; }));
    for (unsigned v = 0; v < m; ++v)
    {
        for (unsigned i = off; v == when && by > 1 && i < n; i += by)
            d[i].dispose();
        s.get_observer().on_next((int)v);
    }
    s.get_observer().on_completed();
    for (unsigned i = 0; i < n; ++i)
    {
        bool gone = by > 1 && i % by == off;
        SIM_CHECK(got[i] == (gone ? when : m) && ended[i] == (gone ? 0 : 1), "lost", "observer %u of %u (%s) got %u of %u values and %u ends", i, n, gone ? "disposed" : "active", got[i], m, ended[i]);
    }
}
