// Part 2 of the pipelines without type erasure
#include "zoo_static.hpp"
namespace h
{
void Zoo::static_pipeline2(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec)
{
    STATIC_CONTEXT;
    switch (which)
    {
    default: break;
    case 2: return go(S() | o::map(inner(3)) | o::switch_on_next() | o::distinct_until_changed() | o::take(4));
    case 7: return go(S() | o::window(2) | o::flat_map([z](const auto& w) { z->user(); return w | rpp::ops::last(); }) | o::filter(Odd{z}));
    case 12: return go(S() | o::subscribe_on(new_thread{}) | o::merge_with(S() | o::observe_on(new_thread{})) | o::element_at(2));
    case 17: return go(S() | o::publish() | o::ref_count() | o::merge_with(S()) | o::last());
    case 22: return go(iter() | o::merge_with(S()) | o::map(Id{z}) | o::take(5));
    case 27: return go(iter() | o::retry(1) | o::map(wrap(just)) | o::concat() | o::distinct_until_changed() | o::take(5));
    case 32: return go(just() | o::map(Id{z}) | o::on_error_resume_next(wrap(iter)) | o::observe_on(new_thread{}) | o::first());
    case 37: return go(iter() | o::take_until(once()) | o::scan(0, Acc{z}) | o::buffer(2) | o::map([z](const vector<int>& v) { z->user(); return v.back(); }));
    case 42: return go(tick() | o::map(Id{z}) | o::retry_when(wrap(once)) | o::take(3));
    }
}
} // namespace h
