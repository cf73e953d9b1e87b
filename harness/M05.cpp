// combine_latest, with_latest_from: every result is the snapshot of one instant; exact number of results; exact end.
#include "multi.hpp"
using namespace h;

static void judge_end(Rec& rec, const std::vector<SubInfo*>& subs, bool done, const std::vector<SubInfo*>& needed)
{
    const char* n    = rec.name.c_str();
    uint64_t    ferr = first_error_begin(subs);
    SubInfo*    w    = judge_error(rec, subs);
    char        end  = rec.ending();
    if (ferr != ~0ull && end != 'C')
        SIM_CHECK(w, "error-lost", "%s: a source failed but the observer saw %s", n, rec.str().c_str());
    else if (ferr == ~0ull && done)
        SIM_CHECK(end == 'C', "no-completion", "%s: %s", n, rec.str().c_str());
    if (end == 'C')
    {
        for (auto* s : needed)
            SIM_CHECK(s->term == 'C' && s->term_b < rec.ev.back().seq, "early-completion", "%s completed before its sources had", n);
        for (auto* s : subs)
            if (s->term == 'E')
                for (auto* k : needed)
                    if (!(s->term_b > k->term_b))
                        SIM_CHECK(!(s->term_r && s->term_r < k->term_b), "error-lost", "%s completed although %d failed before", n, s->err);
    }
    judge_released(rec, subs);
}

SIM_SCENARIO(combine_latest, 1)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    unsigned        n;
    {
        Threads th;
        n = sim::param_range(2, 4, "n");
        setup_sources(srcs, n, th, 4, true, 1, 1);
        namespace ops = rpp::ops;
        auto o        = [&](size_t i) { return srcs[i].observable() | tok(); };
        if (n == 2)
        {
            if (sim::flip("tuple"))
                o(0) | ops::combine_latest(o(1)) | ops::map([](const std::tuple<Tok, Tok>& t) { return std::apply(PackSel{}, t); }) | ops::subscribe(observer(rec));
            else
                o(0) | ops::combine_latest(PackSel{}, o(1)) | ops::subscribe(observer(rec));
        }
        else if (n == 3)
            o(0) | ops::combine_latest(PackSel{}, o(1), o(2)) | ops::subscribe(observer(rec));
        else
            o(0) | ops::combine_latest(PackSel{}, o(1), o(2), o(3)) | ops::subscribe(observer(rec));
    }
    Quiet       q;
    const char* nm   = rec.name.c_str();
    auto        subs = per_source(srcs);
    uint64_t    ferr = first_error_begin(subs);
    auto        vals = rec.values();
    // everything emitted before x began must be part of a snapshot triggered by x
    auto includes = [&](const std::vector<int>& c, uint64_t before) {
        for (unsigned k = 0; k < n; ++k)
            for (size_t i = 0; i < subs[k]->emits.size(); ++i)
                if (subs[k]->emits[i].r && subs[k]->emits[i].r < before && (int)i > c[k])
                    return false;
        return true;
    };
    std::vector<int> prev;
    for (size_t j = 0; j < vals.size(); ++j)
    {
        auto c = unpack(vals[j], n);
        for (unsigned k = 0; k < n; ++k)
        {
            SIM_CHECK(c[k] >= 0 && c[k] < (int)subs[k]->emits.size(), "phantom", "%s: result %zu combines indices %s", nm, j, str(c).c_str());
            SIM_CHECK(subs[k]->emits[(size_t)c[k]].b < rec.ev[j].seq, "phantom", "%s: result %zu before its values", nm, j);
        }
        bool ok = false;
        if (!j)
            for (unsigned k = 0; k < n; ++k)
                ok |= c[k] == 0 && includes(c, subs[k]->emits[0].b);
        else
        {
            int changed = -1, cnt = 0;
            for (unsigned k = 0; k < n; ++k)
                if (c[k] != prev[k])
                {
                    changed = (int)k;
                    ++cnt;
                }
            SIM_CHECK(cnt == 1 && c[(size_t)changed] == prev[(size_t)changed] + 1, "snapshot", "%s: result %s follows %s", nm, str(c).c_str(), str(prev).c_str());
            ok = includes(c, subs[(size_t)changed]->emits[(size_t)c[(size_t)changed]].b);
        }
        SIM_CHECK(ok, "stale", "%s: result %zu %s misses an earlier value", nm, j, str(c).c_str());
        prev = c;
    }
    bool done = true, all_have = true;
    for (auto* s : subs)
    {
        done &= s->term == 'C';
        size_t must = 0;
        for (auto& e : s->emits)
            must += e.r && e.r < ferr;
        all_have &= must > 0;
    }
    if (all_have)
    {
        SIM_CHECK(!vals.empty(), "lost", "%s: no result", nm);
        auto c = unpack(vals.back(), n);
        for (unsigned k = 0; k < n; ++k)
            for (size_t i = 0; i < subs[k]->emits.size(); ++i)
                if (subs[k]->emits[i].r && subs[k]->emits[i].r < ferr)
                    SIM_CHECK((int)i <= c[k], "lost", "%s: the last result %s misses value %zu of source %u", nm, str(c).c_str(), i, k);
    }
    judge_end(rec, all_subs(srcs, nullptr), done, subs);
}

SIM_SCENARIO(with_latest_from, 1)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    unsigned        n;
    {
        Threads th;
        n = sim::param_range(2, 4, "n");
        setup_sources(srcs, n, th, 4, true, 1, 1);
        srcs[0].yields = sim::param(8, "mainyields");
        namespace ops  = rpp::ops;
        auto o         = [&](size_t i) { return srcs[i].observable() | tok(); };
        if (n == 2)
        {
            if (sim::flip("tuple"))
                o(0) | ops::with_latest_from(o(1)) | ops::map([](const std::tuple<Tok, Tok>& t) { return std::apply(PackSel{}, t); }) | ops::subscribe(observer(rec));
            else
                o(0) | ops::with_latest_from(PackSel{}, o(1)) | ops::subscribe(observer(rec));
        }
        else if (n == 3)
            o(0) | ops::with_latest_from(PackSel{}, o(1), o(2)) | ops::subscribe(observer(rec));
        else
            o(0) | ops::with_latest_from(PackSel{}, o(1), o(2), o(3)) | ops::subscribe(observer(rec));
    }
    Quiet       q;
    const char* nm   = rec.name.c_str();
    auto        subs = per_source(srcs);
    uint64_t    ferr = first_error_begin(subs);
    auto        vals = rec.values();
    int         last = -1;
    std::vector<int> prev(n, 0);
    std::map<int, size_t> by_main;
    for (size_t j = 0; j < vals.size(); ++j)
    {
        auto c = unpack(vals[j], n);
        for (unsigned k = 0; k < n; ++k)
            SIM_CHECK(c[k] >= 0 && c[k] < (int)subs[k]->emits.size(), "phantom", "%s: result %zu combines indices %s", nm, j, str(c).c_str());
        SIM_CHECK(c[0] > last, "order", "%s: result %zu repeats or reorders a main value", nm, j);
        last      = c[0];
        by_main[last] = j;
        auto&    x  = subs[0]->emits[(size_t)c[0]];
        uint64_t lo = x.b, hi = x.r ? x.r : ~0ull; // the instant of the snapshot
        for (unsigned k = 1; k < n; ++k)
        {
            auto& e = subs[k]->emits;
            SIM_CHECK(c[k] >= prev[k], "snapshot", "%s: result %s goes back behind %s", nm, str(c).c_str(), str(prev).c_str());
            lo = std::max(lo, e[(size_t)c[k]].b);
            if ((size_t)c[k] + 1 < e.size() && e[(size_t)c[k] + 1].r)
                hi = std::min(hi, e[(size_t)c[k] + 1].r);
        }
        SIM_CHECK(lo < hi, "snapshot", "%s: result %s was never the latest combination while main value %d was emitted", nm, str(c).c_str(), c[0]);
        prev = c;
    }
    for (size_t i = 0; i < subs[0]->emits.size(); ++i)
    {
        auto& x    = subs[0]->emits[i];
        bool  must = x.r && x.r < ferr, may = true;
        for (unsigned k = 1; k < n; ++k)
        {
            auto& e = subs[k]->emits;
            must &= !e.empty() && e[0].r && e[0].r < x.b;
            may &= !e.empty() && (!x.r || e[0].b < x.r);
        }
        if (must)
            SIM_CHECK(by_main.count((int)i), "lost", "%s: no result for main value %zu", nm, i);
        if (!may)
            SIM_CHECK(!by_main.count((int)i), "phantom", "%s: a result for main value %zu although a source had no value", nm, i);
    }
    judge_end(rec, all_subs(srcs, nullptr), subs[0]->term == 'C', {subs[0]});
}
