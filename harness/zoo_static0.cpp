// Part 0 of the pipelines without type erasure
#include "zoo_static.hpp"
namespace h
{
void Zoo::static_pipeline0(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec)
{
    STATIC_CONTEXT;
    switch (which)
    {
    default: break;
    case 0: return go(S() | o::map(Id{z}) | o::merge_with(S(), S()) | o::filter(Odd{z}) | o::take(5));
    case 5: return go(S() | o::combine_latest(Fst{z}, S()) | o::buffer(2) | o::map([z](const std::vector<int>& v) { z->user(); return v.back(); }));
    case 10: return go(S() | o::on_error_resume_next(inner(1)) | o::merge_with(S()) | o::first());
    case 15: return go(S() | o::timeout(t, S(), new_thread{}) | o::take(3) | o::map(Id{z}));
    case 20: return go(S() | o::merge_with(S() | o::map(inner(2)) | o::switch_on_next()) | o::distinct() | o::throttle(t));
    case 25: return go(iter() | o::observe_on(new_thread{}) | o::group_by([z](int v) { z->user(); return v & 1; }) | o::flat_map([z](const auto& g) { z->user(); return g | rpp::ops::map(Id{z}); }));
    case 30: return go(tick() | o::map(Id{z}) | o::retry_when([z](const std::exception_ptr&) { z->user(); return rpp::source::just(1); }) | o::delay(t, new_thread{}) | o::take(3));
    case 35: return go(iter() | o::zip(Fst{z}, tick()) | o::delay(t, new_thread{}) | o::element_at(1));
    case 40: return go(iter() | o::map(wrap(tick)) | o::switch_on_next() | o::take(3));
    }
}
// subscribes `rec` to the pipeline number `which`
void Zoo::static_pipeline(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec)
{
    joins = true;
    note("#%u ", which);
    switch (which % 5)
    {
    case 0: return static_pipeline0(which, d, rec);
    case 1: return static_pipeline1(which, d, rec);
    case 2: return static_pipeline2(which, d, rec);
    case 3: return static_pipeline3(which, d, rec);
    default: return static_pipeline4(which, d, rec);
    }
}
} // namespace h
