// EXTRA: zoo.cpp zoo_single.cpp zoo_multi.cpp zoo_time.cpp zoo_static0.cpp zoo_static1.cpp zoo_static2.cpp zoo_static3.cpp zoo_static4.cpp
// The observer grammar over random pipelines: values, one terminal, silence; and the terminal does come.
#include "zoo.hpp"
using namespace h;

namespace
{
// stages == 0: one of the pipelines without type erasure
void pipeline(Zoo& z, unsigned stages)
{
    if (sim::param(3, "throws") == 1)
        z.throw_at = (int)sim::param_range(1, 8, "throwat");
    Rec rec;
    rec.yields = sim::param(3, "obsyield");
    auto d     = rpp::composite_disposable_wrapper::make();
    if (stages)
    {
        Obs o = z.chain(stages);
        sim::log("%s", z.desc.c_str());
        o.subscribe(d, observer(rec));
    }
    else
    {
        z.how = sim::param(3, "how");
        z.static_pipeline(sim::param(Zoo::N_STATIC, "which"), d, rec);
    }
    z.drain();
    if (z.never)
        d.dispose();
    z.drain();
    Quiet q;
    if (!z.never)
        SIM_CHECK(rec.ending() != '-', "no-end", "%s: every source has ended but the observer saw only: %s", z.desc.c_str(), rec.str().c_str());
}
} // namespace

SIM_SCENARIO(pipelines, 2)
{
    Zoo z;
    z.never10 = 1;
    pipeline(z, sim::param_range(1, 4, "stages"));
    z.drop_kept();
}
SIM_SCENARIO(ending, 2)
{
    Zoo z;
    z.never10 = 0;
    z.err10   = 3;
    pipeline(z, sim::param_range(1, 4, "stages"));
}
SIM_SCENARIO(threads, 1)
{
    Zoo z;
    z.never10 = 0;
    z.all_threads = true;
    z.timed = false;
    pipeline(z, sim::param_range(2, 5, "stages"));
}
SIM_SCENARIO(fixed, 2)
{
    Zoo z;
    z.never10 = sim::param(3, "never") == 1;
    pipeline(z, 0);
    z.drop_kept();
}
// What an operator that subscribes one source after another does while its observer may already be ending on another thread.
SIM_SCENARIO(handover, 2)
{
    Zoo z;
    z.never10     = 0;
    z.err10       = 4;
    z.max_sources = 4;
    Rec rec;
    rec.yields = sim::param(3, "obsyield");
    auto d     = rpp::composite_disposable_wrapper::make();
    Obs  o     = z.leaf();
    if (sim::flip("timeout"))
        o = z.time(9, std::move(o));
    else
        o = z.multi(sim::param(Zoo::N_MULTI, "multi"), std::move(o));
    o = z.time(sim::flip("delay") ? 4 : 0, std::move(o));
    switch (sim::param(5, "ender"))
    {
    case 0: z.note("|first"); o = (o | rpp::ops::first()).as_dynamic(); break;
    case 1: z.note("|take(2)"); o = (o | rpp::ops::take(2)).as_dynamic(); break;
    case 2: z.note("|element_at(1)"); o = (o | rpp::ops::element_at(1)).as_dynamic(); break;
    case 3: z.note("|take_while"); o = (o | rpp::ops::take_while([](int v) { return v % 3 != 2; })).as_dynamic(); break;
    default: break;
    }
    sim::log("%s", z.desc.c_str());
    o.subscribe(d, observer(rec));
    z.drain();
    Quiet q;
    SIM_CHECK(z.never || rec.ending() != '-', "no-end", "%s: every source has ended but the observer saw only: %s", z.desc.c_str(), rec.str().c_str());
}
// A source that says good-bye (values, an end) when it is told to stop.
SIM_SCENARIO(farewell, 1)
{
    Zoo z;
    z.timed = false;
    static constexpr unsigned ops[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 20};
    Rec      rec;
    unsigned n = sim::param(5, "values"), bye = sim::param(3, "farewell values"), stages = sim::param(4, "stages"), yields = sim::param(3, "yields");
    char     end = "CE-"[sim::param(3, "end")], byend = "CE-"[sim::param(3, "farewell end")];
    bool     thread = sim::flip("thread"), direct = sim::flip("direct");
    unsigned disp   = sim::param(4, "dispose"); // 1 in a callback, 2 before, 3 at the end
    unsigned at     = sim::param(4, "dispose at");
    auto     d      = rpp::composite_disposable_wrapper::make();
    struct State
    {
        std::optional<rpp::dynamic_observer<int>> o;
        int                                       busy = -1; // the thread that is inside of a call
        bool                                      said{};
    } st;
    auto goodbye = [&]() noexcept {
        {
            Quiet q;
            if (st.said || !st.o || (st.busy != -1 && st.busy != (int)sim::tid()))
                return;
            st.said = true;
            sim::log("farewell");
        }
        for (unsigned i = 0; i < bye; ++i)
            st.o->on_next(1000 + (int)i);
        if (byend == 'C')
            st.o->on_completed();
        else if (byend == 'E')
            st.o->on_error(make_err(77));
    };
    auto src = rpp::source::create<int>([&](auto&& obs) {
        st.o.emplace(std::forward<decltype(obs)>(obs).as_dynamic());
        st.o->set_upstream(rpp::make_callback_disposable([&]() noexcept { goodbye(); }));
        auto emit = [&] {
            auto call = [&](auto f) {
                {
                    Quiet q;
                    st.busy = (int)sim::tid();
                }
                f();
                {
                    Quiet q;
                    st.busy = -1;
                }
                sim::yield(yields);
            };
            for (unsigned i = 0; i < n && !st.o->is_disposed(); ++i)
                call([&] { st.o->on_next((int)i); });
            if (end != '-')
                call([&] { end == 'C' ? st.o->on_completed() : st.o->on_error(make_err(9)); });
        };
        if (thread)
            z.th.spawn(emit);
        else
            emit();
    });
    {
        Quiet q;
        rec.hook = [&](const Ev& e) {
            if (disp != 1 || e.k != 'N' || rec.values().size() != at + 1)
                return;
            d.dispose();
            Quiet q2;
            rec.disp_ret = sim::seq();
        };
    }
    if (disp == 2)
    {
        d.dispose();
        rec.disp_ret = sim::seq();
    }
    if (direct && sim::flip("taken"))
        src | rpp::ops::map([](int v) { return v; }) | rpp::ops::take(at + 1) | rpp::ops::subscribe(d, observer(rec));
    else if (direct)
        src.subscribe(d, observer(rec));
    else
    {
        Obs o = src.as_dynamic();
        for (unsigned i = 0; i < stages; ++i)
            o = z.single(ops[sim::param(std::size(ops), "op")], std::move(o));
        o.subscribe(d, observer(rec));
    }
    z.th.join_all();
    if (disp == 3)
    {
        d.dispose();
        rec.disp_ret = sim::seq();
    }
    {
        Quiet q;
        rec.hook = nullptr;
        if (!disp && end != '-')
            SIM_CHECK(rec.ending() != '-', "no-end", "%s: the source has ended but the observer saw only: %s", z.desc.c_str(), rec.str().c_str());
    }
    st.o.reset();
}
