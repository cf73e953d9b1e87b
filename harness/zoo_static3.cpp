// Part 3 of the pipelines without type erasure
#include "zoo_static.hpp"
namespace h
{
void Zoo::static_pipeline3(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec)
{
    STATIC_CONTEXT;
    switch (which)
    {
    default: break;
    case 3: return go(S() | o::map(inner(2)) | o::concat() | o::scan(0, Acc{z}) | o::skip(1));
    case 8: return go(S() | o::group_by([z](int v) { z->user(); return v % 2; }) | o::flat_map([z](const auto& g) { z->user(); return g | rpp::ops::map(Id{z}) | rpp::ops::take(2); }));
    case 13: return go(S() | o::delay(t, new_thread{}) | o::flat_map(inner(2)) | o::reduce(0, Acc{z}));
    case 18: return go(rpp::source::concat(S(), S()) | o::take_while(Odd{z}) | o::finally([]() noexcept {}) | o::repeat(2));
    case 23: return go(just() | o::delay(t, new_thread{}) | o::filter(Odd{z}) | o::merge_with(iter()) | o::take(4));
    case 28: return go(just() | o::map(wrap(iter)) | o::switch_on_next() | o::observe_on(new_thread{}) | o::take_last(2));
    case 33: return go(iter() | o::finally([]() noexcept {}) | o::delay(t, new_thread{}) | o::debounce(t, new_thread{}) | o::finally([]() noexcept {}) | o::last());
    case 38: return go(iter() | o::flat_map(wrap(tick)) | o::take(3));
    case 43: return go(tick() | o::map([z](int v) { z->user(); return v == -12 ? rpp::source::error<int>(make_err(6)).as_dynamic() : rpp::source::just(v).as_dynamic(); }) | o::merge() | o::retry(1) | o::take(3));
    }
}
} // namespace h
