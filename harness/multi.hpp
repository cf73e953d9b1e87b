// Several scripted sources feeding one operator.
#pragma once
#include "common.hpp"
#include "models.hpp"

namespace h
{
inline Src& add_source(std::deque<Src>& srcs, Threads& th, unsigned maxvals, bool may_sync, unsigned err10 = 2, unsigned never10 = 1)
{
    Src* s;
    int  i;
    {
        Quiet q;
        srcs.emplace_back();
        s = &srcs.back();
        i = (int)srcs.size();
    }
    Script sc         = random_script(100 * i, maxvals, err10, never10);
    s->mode           = may_sync && sim::param(4, "sync") == 1 ? Mode::Sync : Mode::Thread;
    s->yields         = sim::param(3, "srcyield");
    s->rogue          = sim::param(8, "rogue") == 1;
    s->check_disposed = !sim::param(3, "ignoredisp");
    Quiet q;
    s->name    = "s" + std::to_string(i);
    s->threads = &th;
    s->scripts.push_back(sc);
    return *s;
}
inline void setup_sources(std::deque<Src>& srcs, unsigned n, Threads& th, unsigned maxvals, bool may_sync, unsigned err10 = 2, unsigned never10 = 1)
{
    for (unsigned i = 0; i < n; ++i)
        add_source(srcs, th, maxvals, may_sync, err10, never10);
}
// the source of inner observables: emits the indices 0..n-1
inline void setup_outer(Src& outer, Threads& th, unsigned n)
{
    {
        Quiet q;
        outer.name    = "outer";
        outer.threads = &th;
        Script sc;
        for (unsigned i = 0; i < n; ++i)
            sc.values.push_back((int)i);
        outer.scripts.push_back(sc);
    }
    unsigned e     = sim::param(8, "outerend");
    outer.mode     = sim::flip("outersync") ? Mode::Thread : Mode::Sync;
    outer.yields   = sim::param(4, "outeryield");
    outer.check_disposed = !sim::param(3, "outerignore");
    Quiet q;
    outer.scripts[0].end = e == 7 ? 'E' : e == 6 ? '-' : 'C';
    outer.scripts[0].err = 9;
}

// A value that notices when it has been moved from.
struct Tok
{
    int v{-999};
    Tok() = default;
    explicit Tok(int x)
        : v(x)
    {
    }
    Tok(const Tok&)            = default;
    Tok& operator=(const Tok&) = default;
    Tok(Tok&& o) noexcept
        : v(o.v)
    {
        o.v = -999;
    }
    Tok& operator=(Tok&& o) noexcept
    {
        v   = o.v;
        o.v = -999;
        return *this;
    }
};
// tuples of up to 5 values 100*(k+1)+i packed into one int; a moved-from or misplaced value yields a code that unpacks to -1
inline int pack() { return 0; }
template<typename... T>
int pack(const Tok& a, const T&... rest)
{
    return (((a.v < 0 ? 63 : a.v % 100) + 1) | pack(rest...) << 6);
}
inline int pos_of(const Tok& t) { return t.v / 100; }
template<size_t... I, typename... T>
int packed(std::index_sequence<I...>, const T&... t)
{
    bool ok = ((pos_of(t) == (int)I + 1) && ...);
    return ok ? pack(t...) : -5;
}
inline std::vector<int> unpack(int c, unsigned n)
{
    std::vector<int> r;
    for (unsigned i = 0; i < n; ++i)
        r.push_back(((c >> (6 * i)) & 63) - 1);
    return r;
}
struct PackSel
{
    template<typename... T>
    int operator()(const T&... t) const
    {
        return packed(std::make_index_sequence<sizeof...(T)>{}, t...);
    }
};
inline auto tok() { return rpp::ops::map([](int v) { return Tok{v}; }); }

// one record per source; a source that was never subscribed has an empty one
inline std::vector<SubInfo*> per_source(std::deque<Src>& srcs)
{
    static SubInfo none;
    std::vector<SubInfo*> r;
    for (auto& s : srcs)
        r.push_back(s.subs.empty() ? &none : &s.subs[0]);
    return r;
}
// The terminal event that the observer saw against the failures of the sources. Returns the winner (or null).
inline SubInfo* judge_error(Rec& rec, const std::vector<SubInfo*>& subs)
{
    const char* n   = rec.name.c_str();
    bool        any = false;
    for (auto* s : subs)
        any |= s->term == 'E';
    if (!any)
    {
        SIM_CHECK(rec.ending() != 'E', "wrong-error", "%s: nobody failed but the observer saw %s", n, rec.str().c_str());
        return nullptr;
    }
    if (rec.ending() != 'E')
        return nullptr;
    SubInfo* w = nullptr;
    for (auto* s : subs)
        if (s->term == 'E' && s->err == rec.error_code())
            w = s;
    SIM_CHECK(w && w->term_b < rec.ev.back().seq, "wrong-error", "%s: observer saw %s", n, rec.str().c_str());
    for (auto* s : subs)
        if (s != w && s->term == 'E')
            SIM_CHECK(!(s->term_r && s->term_r < w->term_b), "first-error", "%s: error %d reported although %d failed before", n, w->err, s->err);
    return w;
}
inline uint64_t first_error_begin(const std::vector<SubInfo*>& subs)
{
    uint64_t r = ~0ull;
    for (auto* s : subs)
        if (s->term == 'E')
            r = std::min(r, s->term_b);
    return r;
}
inline void judge_released(Rec& rec, const std::vector<SubInfo*>& subs)
{
    if (rec.ending() != '-')
        for (auto* s : subs)
            SIM_CHECK(s->disposed == 1, "not-released", "%s: a source subscription was disposed %d times after the end", rec.name.c_str(), s->disposed);
}
} // namespace h
