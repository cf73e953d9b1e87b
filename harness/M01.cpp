// merge, merge_with, flat_map: conservation, per-source order, completion and error behaviour under concurrency.
#include "common.hpp"
#include "models.hpp"
#include "many.hpp"
using namespace h;

static void setup_sources(std::deque<Src>& srcs, unsigned n, Threads& th, unsigned maxvals, bool may_sync)
{
    for (unsigned i = 0; i < n; ++i)
    {
        Src* s;
        {
            Quiet q;
            srcs.emplace_back();
            s = &srcs.back();
        }
        Script sc = random_script(100 * (int)(i + 1), maxvals, 2, 1);
        s->mode   = may_sync && sim::param(4, "sync") == 1 ? Mode::Sync : Mode::Thread;
        s->yields = sim::param(2, "srcyield");
        s->rogue  = sim::param(8, "rogue") == 1;
        s->check_disposed = !sim::param(3, "ignoredisp");
        Quiet q;
        s->name    = "s" + std::to_string(i + 1);
        s->threads = &th;
        s->scripts.push_back(sc);
    }
}

SIM_SCENARIO(merge_with, 3)
{
    Rec             rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    {
        Threads  th;
        unsigned n = sim::param_range(2, 4, "n");
        setup_sources(srcs, n, th, 3, true);
        if (n == 2)
            srcs[0].observable() | rpp::ops::merge_with(srcs[1].observable()) | rpp::ops::subscribe(observer(rec));
        else if (n == 3)
            srcs[0].observable() | rpp::ops::merge_with(srcs[1].observable(), srcs[2].observable()) | rpp::ops::subscribe(observer(rec));
        else
            srcs[0].observable() | rpp::ops::merge_with(srcs[1].observable(), srcs[2].observable(), srcs[3].observable()) | rpp::ops::subscribe(observer(rec));
    }
    Quiet q;
    check_merge(rec, srcs, nullptr);
}

SIM_SCENARIO(merge_outer, 3)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    Src             outer;
    {
        Threads  th;
        unsigned n = sim::param(5, "n");
        setup_sources(srcs, n, th, 3, true);
        {
            Quiet q;
            outer.name    = "outer";
            outer.threads = &th;
            Script sc;
            for (unsigned i = 0; i < n; ++i)
                sc.values.push_back((int)i);
            outer.scripts.push_back(sc);
        }
        unsigned e = sim::param(8, "outerend");
        {
            Quiet q;
            outer.scripts[0].end = e == 7 ? 'E' : e == 6 ? '-' : 'C';
            outer.scripts[0].err = 9;
        }
        outer.mode   = sim::flip("outersync") ? Mode::Thread : Mode::Sync;
        outer.yields = sim::param(3, "outeryield");
        if (sim::flip("flat"))
            outer.observable() | rpp::ops::flat_map([&](int i) { return srcs[(size_t)i].observable(); }) | rpp::ops::subscribe(observer(rec));
        else
            outer.observable() | rpp::ops::map([&](int i) { return srcs[(size_t)i].observable(); }) | rpp::ops::merge() | rpp::ops::subscribe(observer(rec));
    }
    Quiet q;
    check_merge(rec, srcs, &outer);
}

// inner observables on real library schedulers
SIM_SCENARIO(flat_map_schedulers, 1)
{
    Rec rec;
    rec.yields = sim::param(2, "yields");
    unsigned n = sim::param_range(1, 4, "n"), m = sim::param_range(1, 3, "m");
    unsigned kind = sim::param(3, "sched");
    {
        auto run = [&](auto sched) {
            std::vector<int> items;
            {
                Quiet q;
                for (unsigned i = 0; i < n; ++i)
                    items.push_back((int)i);
            }
            rpp::source::from_iterable(items)
                | rpp::ops::flat_map([&, sched](int i) {
                      std::vector<int> v;
                      {
                          Quiet q;
                          for (unsigned k = 0; k < m; ++k)
                              v.push_back(100 * (i + 1) + (int)k);
                      }
                      return rpp::source::from_iterable(v, sched);
                  })
                | rpp::ops::as_blocking() | rpp::ops::subscribe(observer(rec));
        };
        if (kind == 0)
            run(rpp::schedulers::new_thread{});
        else if (kind == 1)
            run(rpp::schedulers::thread_pool{2});
        else
            run(rpp::schedulers::current_thread{});
    }
    Quiet q;
    SIM_CHECK(rec.ending() == 'C', "no-completion", "got %s", rec.str().c_str());
    auto vals = rec.values();
    SIM_CHECK(vals.size() == n * m, "conservation", "expected %u values, got %s", n * m, rec.str().c_str());
    for (unsigned i = 0; i < n; ++i)
    {
        std::vector<int> mine, want;
        for (int v : vals)
            if (v / 100 == (int)i + 1)
                mine.push_back(v);
        for (unsigned k = 0; k < m; ++k)
            want.push_back(100 * (int)(i + 1) + (int)k);
        SIM_CHECK(mine == want, "order", "source %u delivered %s", i, str(mine).c_str());
    }
}
// many inner observables at once
SIM_SCENARIO(many_inners, 1)
{
    unsigned n = many(1030), left = n, got = 0;
    char     end = '-';
    std::vector<rpp::dynamic_observer<int>>     open;
    rpp::subjects::publish_subject<int>         outer;
    bool   mix = sim::flip("some end at once"), rev = sim::flip("reverse"), first = sim::flip("outer ends first");
    (outer.get_observable() | rpp::ops::flat_map([&](int i) {
         return rpp::source::create<int>([&open, &left, mix, i](auto&& obs) {
             obs.on_next(i);
             if (mix && i % 3)
             {
                 --left;
                 obs.on_completed();
             }
             else
                 open.push_back(std::forward<decltype(obs)>(obs).as_dynamic());
         });
     }))
        .subscribe([&](int) { ++got; }, [&](const std::exception_ptr&) { end = 'E'; }, [&] { end = 'C'; });
    for (unsigned i = 0; i < n; ++i)
        outer.get_observer().on_next((int)i);
    SIM_CHECK(got == n && end == '-', "lost", "%u inner observables, %u values, ended %c", n, got, end);
    if (first)
        outer.get_observer().on_completed();
    if (rev)
        std::reverse(open.begin(), open.end());
    for (auto& o : open)
    {
        SIM_CHECK(end == '-', "early-end", "ended with %u inner observables active", left);
        o.on_next(1);
        o.on_completed();
        --left;
    }
    if (!first)
    {
        SIM_CHECK(end == '-', "early-end", "ended before the outer observable");
        outer.get_observer().on_completed();
    }
    SIM_CHECK(end == 'C' && got == n + open.size(), "lost", "%u inner observables, %u values, ended %c", n, got, end);
}
