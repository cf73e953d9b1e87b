// EXTRA: zoo.cpp zoo_single.cpp zoo_multi.cpp zoo_time.cpp zoo_static0.cpp zoo_static1.cpp zoo_static2.cpp zoo_static3.cpp zoo_static4.cpp
// Serialised delivery behind every joining operator, at the observer and between the operators.
#include "zoo.hpp"
using namespace h;

namespace
{
void pipeline(Zoo& z, unsigned stages)
{
    Rec rec;
    rec.yields = sim::param_range(1, 6, "obsyield");
    auto d     = rpp::composite_disposable_wrapper::make();
    if (stages)
    {
        Obs o = z.chain(stages);
        sim::log("%s", z.desc.c_str());
        o.subscribe(d, observer(rec));
    }
    else
    {
        z.how = sim::param(3, "how");
        z.static_pipeline(sim::param(Zoo::N_STATIC, "which"), d, rec);
    }
    z.drain();
    if (z.never)
        d.dispose();
    z.drain();
}
} // namespace

SIM_SCENARIO(one_join, 2)
{
    Zoo z;
    z.all_threads = z.only_joins = z.guarded = true;
    z.builtin_sources                        = false;
    z.timed                                  = sim::flip("timed");
    pipeline(z, 1);
    z.drop_kept();
}
SIM_SCENARIO(joins, 2)
{
    Zoo z;
    z.all_threads = z.only_joins = z.guarded = true;
    z.timed                                  = sim::flip("timed");
    z.builtin_sources                        = sim::flip("builtin");
    pipeline(z, sim::param_range(2, 4, "stages"));
    z.drop_kept();
}
SIM_SCENARIO(fixed, 2)
{
    Zoo z;
    z.all_threads = true;
    pipeline(z, 0);
    z.drop_kept();
}

// several threads push into one serialized subject, alone and in front of other operators
template<typename Subject>
static void subject(Subject s)
{
    std::deque<Rec> recs;
    unsigned        observers = sim::param_range(1, 2, "observers"), n = sim::param_range(2, 3, "threads");
    for (unsigned i = 0; i < observers; ++i)
    {
        {
            Quiet q;
            recs.emplace_back("obs" + std::to_string(i));
            recs.back().yields = 2;
        }
        switch (sim::param(3, "shape"))
        {
        case 0: s.get_observable().subscribe(observer(recs.back())); break;
        case 1: (s.get_observable() | rpp::ops::map([](int v) { return v; }) | rpp::ops::take(4)).subscribe(observer(recs.back())); break;
        case 2: (s.get_observable() | rpp::ops::scan(0, [](int a, int v) { return a + v; })).subscribe(observer(recs.back())); break;
        }
    }
    std::deque<Rec> late;
    {
        Threads th;
        for (unsigned t = 0; t < n; ++t)
        {
            Script sc = random_script(100 * (int)(t + 1), 4, 2, 5);
            th.spawn([sc, o = s.get_observer()] {
                for (int v : sc.values)
                    o.on_next(v);
                if (sc.end == 'C')
                    o.on_completed();
                if (sc.end == 'E')
                    o.on_error(make_err(sc.err));
            });
        }
        if (sim::flip("late"))
        {
            unsigned y = sim::param(20, "lateyield");
            {
                Quiet q;
                late.emplace_back("late");
            }
            th.spawn([&, y] {
                sim::yield(y);
                s.get_observable().subscribe(observer(late.back()));
            });
        }
    }
    s.get_disposable().dispose();
}
SIM_SCENARIO(serialized_publish, 1)
{
    subject(rpp::subjects::serialized_publish_subject<int>{});
}
SIM_SCENARIO(serialized_behavior, 1)
{
    subject(rpp::subjects::serialized_behavior_subject<int>{0});
}
SIM_SCENARIO(serialized_replay, 1)
{
    subject(rpp::subjects::serialized_replay_subject<int>{3});
}
