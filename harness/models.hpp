// Reference models over recorded histories. All functions run in quiet mode, at quiescence.
#pragma once
#include "common.hpp"

namespace h
{
// All subscriptions of all sources, flattened.
inline std::vector<SubInfo*> all_subs(std::deque<Src>& srcs, Src* outer)
{
    std::vector<SubInfo*> r;
    if (outer)
        for (auto& s : outer->subs)
            r.push_back(&s);
    for (auto& x : srcs)
        for (auto& s : x.subs)
            r.push_back(&s);
    return r;
}

// Merge semantics (each source has been subscribed at most once, source k emits values in [100k,100k+99]).
inline void check_merge(Rec& rec, std::deque<Src>& srcs, Src* outer)
{
    const char* n    = rec.name.c_str();
    auto        subs = all_subs(srcs, outer);
    SubInfo*    o    = outer && !outer->subs.empty() ? &outer->subs[0] : nullptr;
    char        end  = rec.ending();
    auto        vals = rec.values();
    uint64_t    end_seq = end == '-' ? ~0ull : rec.ev.back().seq;

    // per-source order and exactly-once
    for (size_t i = 0; i < srcs.size(); ++i)
    {
        std::vector<int> mine, sent;
        for (int v : vals)
            if (v / 100 == (int)i + 1)
                mine.push_back(v);
        if (!srcs[i].subs.empty())
            for (auto& e : srcs[i].subs[0].emits)
                sent.push_back(e.v);
        SIM_CHECK(srcs[i].subs.size() <= 1, "resubscribed", "source %zu subscribed %zu times", i + 1, srcs[i].subs.size());
        SIM_CHECK(is_subsequence(mine, sent), "order", "%s: source %zu sent %s but observer saw %s", n, i + 1, str(sent).c_str(), str(mine).c_str());
        SIM_CHECK(is_prefix(mine, sent), "gap", "%s: source %zu sent %s but observer saw %s", n, i + 1, str(sent).c_str(), str(mine).c_str());
    }
    bool any_err = false, all_done = true;
    uint64_t first_err_b = ~0ull;
    for (auto* s : subs)
    {
        any_err |= s->term == 'E';
        all_done &= s->term == 'C';
        if (s->term == 'E')
            first_err_b = std::min(first_err_b, s->term_b);
    }
    // every value whose on_next returned before the first error began is delivered
    for (auto& x : srcs)
        for (auto& s : x.subs)
            for (auto& e : s.emits)
                if (e.r && e.r < first_err_b && e.b < end_seq)
                    SIM_CHECK(std::count(vals.begin(), vals.end(), e.v) == 1, "lost", "%s: value %d was emitted but not delivered exactly once: %s", n, e.v, rec.str().c_str());
    if (any_err)
    {
        SIM_CHECK(end == 'E', "error-lost", "%s: a source failed but the observer saw %s", n, rec.str().c_str());
        SubInfo* w = nullptr;
        for (auto* s : subs)
            if (s->term == 'E' && s->err == rec.error_code())
                w = s;
        SIM_CHECK(w && w->term_b < end_seq, "wrong-error", "%s: observer saw %s", n, rec.str().c_str());
        for (auto* s : subs)
            if (s != w && s->term == 'E')
                SIM_CHECK(!(s->term_r && s->term_r < w->term_b), "first-error", "%s: error %d reported although %d failed before", n, w->err, s->err);
    }
    else if (all_done)
        SIM_CHECK(end == 'C', "no-completion", "%s: all sources completed but the observer saw %s", n, rec.str().c_str());
    else
        SIM_CHECK(end == '-', "early-completion", "%s: not all sources ended but the observer saw %s", n, rec.str().c_str());
    if (end == 'C')
        for (auto* s : subs)
            SIM_CHECK(s->term == 'C' && s->term_b < end_seq, "early-completion", "%s: completed before every source had completed", n);
    if (end != '-')
        for (auto* s : subs)
            SIM_CHECK(s->disposed == 1, "not-released", "%s: a source subscription was disposed %d times after the end", n, s->disposed);
    (void)o;
}
} // namespace h
