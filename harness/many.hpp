// How many: numbers far beyond the handful of the other scenarios.
#pragma once
#include "common.hpp"
namespace h
{
// (the biggest once in a while, up to `most`)
inline unsigned many(unsigned most)
{
    static constexpr unsigned n[] = {66000, 1030, 300, 260, 257, 130, 70, 40};
    unsigned                  r   = n[sim::param(40, "huge") == 1 ? 0 : sim::param_range(1, 7, "many")];
    sim::set_max_steps(50'000'000);
    return std::min(r, most) + sim::param(3, "more");
}
// a sum that depends on the order
struct Sum
{
    uint64_t h = 1469598103934665603ull, n = 0;
    void     add(uint64_t v)
    {
        h = (h ^ (v + 0x9e3779b97f4a7c15ull)) * 1099511628211ull;
        ++n;
    }
    bool operator==(const Sum&) const = default;
};
} // namespace h
