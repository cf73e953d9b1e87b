#include "zoo.hpp"
namespace h
{
Src& Zoo::scripted()
{
    Src*     s;
    unsigned i;
    {
        Quiet q;
        srcs.emplace_back();
        s = &srcs.back();
        i = (unsigned)srcs.size();
    }
    unsigned attempts = 3;
    for (unsigned a = 0; a < attempts; ++a)
    {
        Script sc = random_script((int)(1000 * i + 100 * a), max_values, err10, never10);
        if (a == 0 && sc.end == '-')
            never = true;
        if (a)
            sc.end = sc.end == '-' ? 'C' : sc.end;
        Quiet q;
        s->scripts.push_back(sc);
    }
    s->mode           = !all_threads && sim::param(5, "sync") < 2 ? Mode::Sync : Mode::Thread;
    s->yields         = sim::param(3, "srcyield");
    s->rogue          = sim::param(6, "rogue") == 1;
    s->keep           = sim::param(3, "keep") != 1;
    s->keep_all       = sim::param(3, "keepall") == 1;
    s->check_disposed = sim::param(3, "ignoredisp") != 1;
    s->gap            = s->mode == Mode::Thread && timed && sim::param(3, "gaps") == 1 ? (int64_t)sim::param(3, "gap") * UNIT : 0;
    asynchronous |= s->mode == Mode::Thread;
    Quiet q;
    s->name    = "s" + std::to_string(i);
    s->threads = &th;
    note("%s", s->name.c_str());
    return *s;
}
Obs Zoo::leaf()
{
    if (srcs.size() < max_sources && (!builtin_sources || sim::param(5, "leaf") != 4))
        return scripted().dyn();
    return source(sim::param(N_SOURCE, "source"));
}
Obs Zoo::guard(Obs in)
{
    std::string where;
    unsigned    y = sim::param(3, "guardyield");
    {
        Quiet q;
        where = desc;
    }
    return rpp::source::defer([in, where, y] {
               std::shared_ptr<Guard> g;
               {
                   Quiet q;
                   g         = std::make_shared<Guard>();
                   g->name   = where;
                   g->yields = y;
               }
               return in | rpp::ops::tap([g](int v) { g->run('N', v); }, [g](const std::exception_ptr&) { g->run('E', 0); }, [g] { g->run('C', 0); });
           })
        .as_dynamic();
}
Obs Zoo::stage(Obs in)
{
    if (guarded)
    {
        guarded = false;
        Obs o   = stage(std::move(in));
        guarded = true;
        return guard(std::move(o));
    }
    if (only_joins)
        switch (sim::param(timed ? 6 : 5, "kind"))
        {
        case 0: return single(sim::param(N_SINGLE, "single"), std::move(in));
        default: return multi(sim::param(N_MULTI, "multi"), std::move(in));
        case 5: return time(sim::param(N_TIME, "time"), std::move(in));
        }

    unsigned kinds = timed ? 5 : 4;
    switch (sim::param(kinds, "kind"))
    {
    case 0:
    case 1: return single(sim::param(N_SINGLE, "single"), std::move(in));
    case 2:
    case 3: return multi(sim::param(N_MULTI, "multi"), std::move(in));
    default: return time(sim::param(N_TIME, "time"), std::move(in));
    }
}
Obs Zoo::chain(unsigned stages)
{
    Obs o = leaf();
    for (unsigned i = 0; i < stages; ++i)
        o = stage(std::move(o));
    return o;
}

Obs Zoo::source(unsigned op)
{
    using namespace rpp::schedulers;
    auto src = rpp::source::just(1);
    switch (op)
    {
    default:
    case 0: note("just"); return rpp::source::just(-1, -2, -3).as_dynamic();
    case 1: note("iter"); return rpp::source::from_iterable(std::vector<int>{-1, -2}).as_dynamic();
    case 2: note("iter-nt"); asynchronous = true; return rpp::source::from_iterable(std::vector<int>{-1, -2}, new_thread{}).as_dynamic();
    case 3: note("empty"); return rpp::source::empty<int>().as_dynamic();
    case 4: note("error"); return rpp::source::error<int>(make_err(5)).as_dynamic();
    case 5: note("never"); never = true; return rpp::source::never<int>().as_dynamic();
    case 6: note("call"); return rpp::source::from_callable([this] { user(); return -4; }).as_dynamic();
    case 7:
    {
        note("defer(");
        Obs i = scripted().dyn();
        note(")");
        return rpp::source::defer([i] { return i; }).as_dynamic();
    }
    case 8:
    {
        note("concat(");
        Obs a = scripted().dyn();
        note(",");
        Obs b = scripted().dyn();
        note(")");
        joins = true;
        return rpp::source::concat(a, b).as_dynamic();
    }
    case 9:
        if (!timed)
            return source(0);
        note("interval");
        asynchronous = true;
        return (rpp::source::interval(std::chrono::nanoseconds{UNIT}, new_thread{}) | rpp::ops::take(3) | rpp::ops::map([](size_t v) { return -10 - (int)v; })).as_dynamic();
    case 10:
        if (!timed)
            return source(1);
        note("timer");
        asynchronous = true;
        return (rpp::source::timer(std::chrono::nanoseconds{UNIT}, new_thread{}) | rpp::ops::map([](size_t) { return -20; })).as_dynamic();
    }
}
} // namespace h
