#include "zoo.hpp"
namespace h
{
namespace
{
template<typename F>
Obs with(Zoo* z, F&& f)
{
    using namespace rpp::schedulers;
    switch (sim::param(4, "sched"))
    {
    default:
    case 0: z->note("nt"); z->asynchronous = true; return f(new_thread{});
    case 1:
        z->note("pool");
        z->asynchronous = true;
        if (!z->pool)
            z->pool.emplace(2);
        return f(*z->pool);
    case 2: z->note("ct"); return f(current_thread{});
    case 3: z->note("im"); return f(immediate{});
    }
}
} // namespace
Obs Zoo::time(unsigned op, Obs in)
{
    namespace o = rpp::ops;
    ns   d{(int64_t)sim::param_range(1, 3, "period") * UNIT};
    Zoo* z = this;
    struct Close
    {
        Zoo* z;
        ~Close() { z->note(")"); }
    };
    switch (op)
    {
    default:
    case 0:
    case 1: note("|observe_on("); { Close c{z}; return with(z, [&](const auto& s) { return (in | o::observe_on(s)).as_dynamic(); }); }
    case 2:
    case 3: note("|subscribe_on("); { Close c{z}; return with(z, [&](const auto& s) { return (in | o::subscribe_on(s)).as_dynamic(); }); }
    case 4:
    case 5: note("|delay("); { Close c{z}; return with(z, [&](const auto& s) { return (in | o::delay(d, s)).as_dynamic(); }); }
    case 6:
    case 7: note("|debounce("); { Close c{z}; return with(z, [&](const auto& s) { return (in | o::debounce(d, s)).as_dynamic(); }); }
    case 8: note("|throttle"); return (in | o::throttle(d)).as_dynamic();
    case 9:
    case 10:
    {
        note("|timeout(");
        Close c{z};
        joins = true;
        Obs   a = leaf();
        note(",");
        return with(z, [&](const auto& s) { return (in | o::timeout(d, a, s)).as_dynamic(); });
    }
    case 11: note("|timeout("); { Close c{z}; return with(z, [&](const auto& s) { return (in | o::timeout(d, s)).as_dynamic(); }); }
    }
}
} // namespace h
