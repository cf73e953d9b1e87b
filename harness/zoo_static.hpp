// Pipelines without type erasure between the operators: what they are made of.
#pragma once
#include "zoo.hpp"
namespace h
{
namespace
{
namespace o = rpp::ops;
struct Id
{
    Zoo* z;
    int  operator()(int v) const
    {
        z->user();
        return v;
    }
};
struct Odd
{
    Zoo* z;
    bool operator()(int v) const
    {
        z->user();
        return v % 3 != 1;
    }
};
struct Fst
{
    Zoo* z;
    template<typename... T>
    int operator()(int v, const T&...) const
    {
        z->user();
        return v;
    }
};
struct Acc
{
    Zoo* z;
    int  operator()(int, int v) const
    {
        z->user();
        return v;
    }
};
} // namespace
} // namespace h
#define STATIC_CONTEXT \
    using namespace rpp::schedulers; \
    Zoo* z = this; \
    auto S = [z]() { return z->scripted().observable(); }; \
    auto inner = [z](unsigned n) { \
        std::vector<Src*> v; \
        for (unsigned i = 0; i < n; ++i) \
        { \
            Src*  s = &z->scripted(); \
            Quiet q; \
            v.push_back(s); \
        } \
        auto k = std::make_shared<int>(0); \
        return [z, v, k](auto&&...) { \
            z->user(); \
            Src* s; \
            { \
                Quiet q; \
                s = v[(size_t)(*k)++ % v.size()]; \
            } \
            return s->observable(); \
        }; \
    }; \
    ns   t{UNIT}; \
    auto go = [&](const auto& obs) { \
        sim::log("%s", desc.c_str()); \
        auto n = [&rec](int v) { rec.next(v); }; \
        auto e = [&rec](const std::exception_ptr& e) { rec.error(e); }; \
        auto c = [&rec]() { rec.completed(); }; \
        if (how == 0) \
            obs.subscribe(d, observer(rec)); \
        else if (how == 1) \
            obs.subscribe(n, e, c); \
        else \
            d.add(obs.subscribe_with_disposable(n, e, c)); \
    }; \
    using std::vector; \
    auto just = [] { return rpp::source::just(-1, -2, -3); }; \
    auto iter = [this] { asynchronous = true; return rpp::source::from_iterable(vector<int>{-1, -2, -3, -4}, new_thread{}); }; \
    auto tick = [this, t] { asynchronous = true; return rpp::source::interval(t, new_thread{}) | o::take(4) | o::map([](size_t v) { return -10 - (int)v; }); }; \
    auto once = [this, t] { asynchronous = true; return rpp::source::timer(t, new_thread{}) | o::map([](size_t) { return -20; }); }; \
    auto wrap = [z](auto make) { return [z, make](auto&&...) { z->user(); return make(); }; }; \
    (void)0
