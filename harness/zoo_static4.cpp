// Part 4 of the pipelines without type erasure
#include "zoo_static.hpp"
namespace h
{
void Zoo::static_pipeline4(unsigned which, const rpp::composite_disposable_wrapper& d, Rec& rec)
{
    STATIC_CONTEXT;
    switch (which)
    {
    default: break;
    case 4: return go(S() | o::zip(Fst{z}, S(), S()) | o::map(Id{z}) | o::take_last(2));
    case 9: return go(S() | o::retry(2) | o::start_with(-1, -2) | o::repeat(2) | o::map(Id{z}));
    case 14: return go(S() | o::debounce(t, new_thread{}) | o::merge_with(S()) | o::map(Id{z}));
    case 19: return go(S() | o::retry_when([k = std::make_shared<int>(0), i = inner(1), z](const std::exception_ptr&) mutable { return i() | rpp::ops::take(1) | rpp::ops::map([k, z](int v) {
                  bool over;
                  {
                      Quiet q;
                      over = ++*k > 2;
                  }
                  if (over)
                      throw_err(THROWN);
                  return v; }); }) | o::merge_with(S()));
    case 24: return go(tick() | o::debounce(t / 2, new_thread{}) | o::finally([]() noexcept {}) | o::map(Id{z}));
    case 29: return go(iter() | o::window_toggle(tick(), wrap(once)) | o::merge() | o::take(2));
    case 34: return go(rpp::source::from_callable([z] { z->user(); return -4; }) | o::repeat(2) | o::with_latest_from(Fst{z}, just()));
    case 39: return go(rpp::source::concat(iter(), just()) | o::start_with(-7, -8) | o::publish() | o::ref_count() | o::merge_with(once()));
    }
}
} // namespace h
