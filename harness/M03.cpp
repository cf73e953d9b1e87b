// switch_on_next: only the newest inner is followed; exact completion; errors once.
#include "multi.hpp"
using namespace h;

static void check_switch(Rec& rec, std::deque<Src>& srcs, Src& outer)
{
    const char* n    = rec.name.c_str();
    auto&       o    = outer.subs[0];
    auto        subs = all_subs(srcs, &outer);
    uint64_t    ferr = first_error_begin(subs);
    char        end  = rec.ending();
    bool        any_err = ferr != ~0ull;
    size_t      cnt  = o.emits.size();
    int         newest = -1;
    std::map<int, size_t> counts;
    for (auto& e : rec.ev)
        if (e.k == 'N')
        {
            int k = e.v / 100 - 1;
            SIM_CHECK(k >= 0 && k < (int)srcs.size(), "phantom", "%s received %d", n, e.v);
            SIM_CHECK(k >= newest, "stale", "%s received %d of inner %d after a value of the newer inner %d: %s", n, e.v, k + 1, newest + 1, rec.str().c_str());
            newest = std::max(newest, k);
            counts[k]++;
        }
    for (size_t k = 0; k < srcs.size(); ++k)
    {
        auto& s = srcs[k];
        if (k >= cnt)
        {
            SIM_CHECK(s.subs.empty(), "phantom", "inner %zu subscribed but never emitted", k + 1);
            continue;
        }
        SIM_CHECK(s.subs.size() <= 1, "resubscribed", "inner %zu subscribed %zu times", k + 1, s.subs.size());
        uint64_t next_b = k + 1 < cnt ? o.emits[k + 1].b : ~0ull, next_r = k + 1 < cnt && o.emits[k + 1].r ? o.emits[k + 1].r : ~0ull;
        if (s.subs.empty())
        {
            SIM_CHECK(any_err, "inner-lost", "%s: inner %zu was never subscribed", n, k + 1);
            continue;
        }
        auto&            u = s.subs[0];
        std::vector<int> got, sent;
        for (auto& e : rec.ev)
            if (e.k == 'N' && e.v / 100 == (int)k + 1)
                got.push_back(e.v);
        size_t must = 0;
        for (auto& e : u.emits)
        {
            if (e.b > next_r)
                SIM_CHECK(std::find(got.begin(), got.end(), e.v) == got.end(), "old-inner", "%s received %d emitted after the switch to inner %zu", n, e.v, k + 2);
            sent.push_back(e.v);
            must += e.r && e.r < next_b && e.r < ferr;
        }
        SIM_CHECK(is_prefix(got, sent), "order", "%s: inner %zu sent %s but the observer saw %s", n, k + 1, str(sent).c_str(), rec.str().c_str());
        SIM_CHECK(got.size() >= must, "lost", "%s: inner %zu sent %s but the observer saw %s", n, k + 1, str(sent).c_str(), rec.str().c_str());
        if (k + 1 < cnt)
            SIM_CHECK(u.disposed == 1, "not-released", "%s: replaced inner %zu disposed %d times", n, k + 1, u.disposed);
        if (k + 1 < cnt && !any_err && u.term_b > o.emits[k + 1].r)
            SIM_CHECK(u.disp_seq < o.emits[k + 1].r, "not-disposed", "%s: inner %zu is not disposed by the switch", n, k + 1);
    }
    // terminal
    SubInfo* last   = cnt && !srcs[cnt - 1].subs.empty() ? &srcs[cnt - 1].subs[0] : nullptr;
    bool     done   = o.term == 'C' && (!cnt || (last && last->term == 'C'));
    // a failure of an inner that was replaced before it failed does not count
    std::vector<SubInfo*> may, must{};
    for (size_t i = 0; i < subs.size(); ++i)
    {
        auto* u = subs[i];
        if (u->term != 'E')
        {
            may.push_back(u);
            continue;
        }
        size_t k = cnt;
        for (size_t j = 0; j < srcs.size(); ++j)
            if (!srcs[j].subs.empty() && &srcs[j].subs[0] == u)
                k = j;
        if (k + 1 < cnt)
        {
            if (o.emits[k + 1].r && u->term_b > o.emits[k + 1].r)
                continue;
            if (!(u->term_r && u->term_r < o.emits[k + 1].b))
            {
                may.push_back(u);
                continue;
            }
        }
        may.push_back(u);
        must.push_back(u);
    }
    SubInfo* w = nullptr;
    if (end == 'E')
    {
        for (auto* u : may)
            if (u->term == 'E' && u->err == rec.error_code())
                w = u;
        SIM_CHECK(w && w->term_b < rec.ev.back().seq, "wrong-error", "%s saw %s", n, rec.str().c_str());
        for (auto* u : must)
            SIM_CHECK(u == w || !(u->term_r && u->term_r < w->term_b), "first-error", "%s: error %d reported although %d failed before", n, w->err, u->err);
    }
    else if (!must.empty() && !(end == 'C'))
        sim::fail("error-lost", "%s: a followed source failed but the observer saw %s", n, rec.str().c_str());
    if (end == 'C')
        SIM_CHECK(done && o.term_b < rec.ev.back().seq && (!last || last->term_b < rec.ev.back().seq), "early-completion", "%s completed before the outer source and the current inner had", n);
    else if (end == '-' && may.size() == subs.size())
        SIM_CHECK(!done, "no-completion", "%s: outer and last inner completed but the observer saw %s", n, rec.str().c_str());
    judge_released(rec, subs);
}

static void run(bool heavy)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    Src             outer;
    {
        Threads  th;
        unsigned n = heavy ? sim::param_range(2, 5, "n") : sim::param(4, "n");
        setup_sources(srcs, n, th, heavy ? 2 : 4, true, heavy ? 0 : 2, 2);
        setup_outer(outer, th, n);
        outer.keep = true;
        for (auto& s : srcs)
            s.keep = true;
        outer.yields = sim::param(10, "outeryield2");
        if (heavy)
            outer.mode = Mode::Thread;
        outer.observable() | rpp::ops::map([&](int i) { return srcs[(size_t)i].observable(); }) | rpp::ops::switch_on_next() | rpp::ops::subscribe(observer(rec));
    }
    {
        Quiet q;
        check_switch(rec, srcs, outer);
    }
    outer.drop_kept();
    for (auto& s : srcs)
        s.drop_kept();
}
SIM_SCENARIO(mixed, 1) { run(false); }
SIM_SCENARIO(short_inners, 1) { run(true); }
