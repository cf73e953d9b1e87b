// Part 1 of the pipelines without type erasure
#include "zoo_static.hpp"
namespace h
{
void Zoo::static_pipeline1(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec)
{
    STATIC_CONTEXT;
    switch (which)
    {
    default: break;
    case 1: return go(S() | o::flat_map(inner(3)) | o::take_until(S()) | o::map(Id{z}));
    case 6: return go(S() | o::with_latest_from(Fst{z}, S()) | o::merge_with(S()) | o::retry(1));
    case 11: return go(S() | o::observe_on(new_thread{}) | o::map(Id{z}) | o::take_until(S()) | o::tap([z](int) { z->user(); }));
    case 16: return go(S() | o::window_toggle(S(), inner(2)) | o::merge() | o::take(4));
    case 21: return go(S() | o::observe_on(current_thread{}) | o::flat_map(inner(2)) | o::observe_on(immediate{}) | o::map(Id{z}));
    case 26: return go(just() | o::subscribe_on(new_thread{}) | o::window(2) | o::merge() | o::throttle(t));
    case 31: return go(once() | o::timeout(t, iter(), new_thread{}) | o::map(Id{z}) | o::finally([]() noexcept {}));
    case 36: return go(tick() | o::combine_latest(Fst{z}, iter()) | o::observe_on(new_thread{}) | o::take_while(Odd{z}));
    case 41: return go(iter() | o::map(wrap(once)) | o::concat() | o::element_at(1));
    }
}
} // namespace h
