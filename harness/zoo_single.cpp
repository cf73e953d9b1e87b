#include "zoo.hpp"
namespace h
{
Obs Zoo::single(unsigned op, Obs in)
{
    namespace o = rpp::ops;
    Zoo*     z  = this;
    unsigned n  = sim::param(4, "n");
    switch (op)
    {
    default:
    case 0: note("|map"); return (in | o::map([z](int v) { z->user(); return v; })).as_dynamic();
    case 1: note("|filter"); return (in | o::filter([z](int v) { z->user(); return v % 3 != 1; })).as_dynamic();
    case 2: note("|take(%u)", n); return (in | o::take(n)).as_dynamic();
    case 3: note("|skip(%u)", n); return (in | o::skip(n)).as_dynamic();
    case 4: note("|take_while"); return (in | o::take_while([z](int v) { z->user(); return v % 4 != 2; })).as_dynamic();
    case 5: note("|take_last(%u)", n); return (in | o::take_last(n)).as_dynamic();
    case 6: note("|first"); return (in | o::first()).as_dynamic();
    case 7: note("|last"); return (in | o::last()).as_dynamic();
    case 8: note("|element_at(%u)", n); return (in | o::element_at(n)).as_dynamic();
    case 9: note("|scan"); return (in | o::scan(0, [z](int, int v) { z->user(); return v; })).as_dynamic();
    case 10: note("|scan1"); return (in | o::scan([z](int, int v) { z->user(); return v; })).as_dynamic();
    case 11: note("|reduce"); return (in | o::reduce(0, [z](int, int v) { z->user(); return v; })).as_dynamic();
    case 12: note("|reduce1"); return (in | o::reduce([z](int, int v) { z->user(); return v; })).as_dynamic();
    case 13: note("|distinct"); return (in | o::distinct()).as_dynamic();
    case 14: note("|distinct_until_changed"); return (in | o::distinct_until_changed([z](int a, int b) { z->user(); return a == b; })).as_dynamic();
    case 15: note("|buffer(%u)", n + 1); return (in | o::buffer(n + 1) | o::flat_map([z](const std::vector<int>& v) { z->user(); return rpp::source::from_iterable(v); })).as_dynamic();
    case 16: note("|window(%u)|merge", n + 1); return (in | o::window(n + 1) | o::merge()).as_dynamic();
    case 17: note("|window(%u)|concat", n + 1); return (in | o::window(n + 1) | o::concat()).as_dynamic();
    case 18: note("|start_with"); return (in | o::start_with(-5, -6)).as_dynamic();
    case 19: note("|tap"); return (in | o::tap([z](int) { z->user(); }, [](const std::exception_ptr&) {}, [] {})).as_dynamic();
    case 20: note("|finally"); return (in | o::finally([]() noexcept {})).as_dynamic();
    case 21: note("|repeat(2)"); return (in | o::repeat(2)).as_dynamic();
    case 22: note("|retry(%u)", n); return (in | o::retry(n)).as_dynamic();
    case 23: note("|group_by|merge"); return (in | o::group_by([z](int v) { z->user(); return v % 2; }) | o::merge()).as_dynamic();
    case 24: note("|group_by|flat_map"); return (in | o::group_by([z](int v) { z->user(); return v % 2; }) | o::flat_map([z](const auto& g) { z->user(); return g | rpp::ops::take(2); })).as_dynamic();
    }
}
} // namespace h
