// concat (operator and source): one inner at a time, in arrival order, none lost, exact completion.
#include "multi.hpp"
#include "many.hpp"
using namespace h;

static void check_concat(Rec& rec, std::deque<Src>& srcs, Src* outer)
{
    const char*      n = rec.name.c_str();
    std::vector<int> arrived;
    bool             outer_done = true;
    if (outer)
    {
        outer_done = outer->subs[0].term == 'C';
        for (auto& e : outer->subs[0].emits)
            arrived.push_back(e.v);
    }
    else
        for (size_t i = 0; i < srcs.size(); ++i)
            arrived.push_back((int)i);
    auto     subs  = all_subs(srcs, outer);
    char     end   = rec.ending();
    uint64_t ferr  = first_error_begin(subs);
    uint64_t endat = end == '-' ? ~0ull : rec.ev.back().seq;
    bool     any_err = ferr != ~0ull;

    std::vector<int> sent, must;
    bool             stopped = false, all_done = outer_done;
    SubInfo*         prev = nullptr;
    for (int i : arrived)
    {
        auto& s = srcs[(size_t)i];
        SIM_CHECK(s.subs.size() <= 1, "resubscribed", "inner %d subscribed %zu times", i + 1, s.subs.size());
        if (s.subs.empty())
        {
            if (!stopped && !any_err)
                SIM_CHECK(prev && prev->term != 'C', "inner-lost", "%s: inner %d was never subscribed: %s", n, i + 1, rec.str().c_str());
            stopped  = true;
            all_done = false;
            continue;
        }
        SubInfo* u = &s.subs[0];
        SIM_CHECK(!stopped, "skipped", "%s: inner %d subscribed although an earlier one was not", n, i + 1);
        if (prev)
            SIM_CHECK(prev->term == 'C' && prev->term_b < u->sub_seq, "too-early", "%s: inner %d subscribed before the previous one completed", n, i + 1);
        for (auto& e : u->emits)
        {
            sent.push_back(e.v);
            if (e.r && e.r < ferr)
                must.push_back(e.v);
        }
        all_done &= u->term == 'C';
        prev = u;
        if (u->term == 'C' && !any_err)
            SIM_CHECK(u->disposed == 1, "not-released", "%s: completed inner %d disposed %d times", n, i + 1, u->disposed);
    }
    for (size_t i = 0; i < srcs.size(); ++i)
        if (std::find(arrived.begin(), arrived.end(), (int)i) == arrived.end())
            SIM_CHECK(srcs[i].subs.empty(), "phantom", "inner %zu subscribed but never emitted", i + 1);
    auto v = rec.values();
    SIM_CHECK(is_prefix(v, sent), "order", "%s: inners sent %s but the observer saw %s", n, str(sent).c_str(), rec.str().c_str());
    SIM_CHECK(v.size() >= must.size(), "lost", "%s: inners sent %s but the observer saw %s", n, str(sent).c_str(), rec.str().c_str());
    SubInfo* w = judge_error(rec, subs);
    if (any_err)
        SIM_CHECK(w, "error-lost", "%s: a source failed but the observer saw %s", n, rec.str().c_str());
    else if (all_done)
        SIM_CHECK(end == 'C', "no-completion", "%s: everything completed but the observer saw %s", n, rec.str().c_str());
    else
        SIM_CHECK(end == '-', "early-completion", "%s: not everything ended but the observer saw %s", n, rec.str().c_str());
    if (end == 'C')
        for (auto* s : subs)
            SIM_CHECK(s->term == 'C' && s->term_b < endat, "early-completion", "%s: completed before every source had completed", n);
    judge_released(rec, subs);
}

static void operator_case(bool heavy)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    Src             outer;
    {
        Threads  th;
        unsigned n = heavy ? sim::param_range(3, 6, "n") : sim::param(5, "n");
        setup_sources(srcs, n, th, heavy ? 1 : 3, true, heavy ? 0 : 1, 1);
        setup_outer(outer, th, n);
        if (heavy)
            outer.mode = Mode::Thread;
        outer.observable() | rpp::ops::map([&](int i) { return srcs[(size_t)i].observable(); }) | rpp::ops::concat() | rpp::ops::subscribe(observer(rec));
    }
    Quiet q;
    check_concat(rec, srcs, &outer);
}
SIM_SCENARIO(operator_mixed, 3) { operator_case(false); }
SIM_SCENARIO(operator_short_inners, 4) { operator_case(true); }

SIM_SCENARIO(source, 2)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    {
        Threads  th;
        unsigned n = sim::param_range(1, 5, "n");
        setup_sources(srcs, n, th, 2, true, 1, 1);
        unsigned how = sim::param(3, "how");
        if (how == 0 || n < 2)
        {
            std::vector<Obs> v;
            for (auto& s : srcs)
                v.push_back(s.dyn());
            rpp::source::concat(v).subscribe(observer(rec));
        }
        else if (n == 2)
            rpp::source::concat(srcs[0].observable(), srcs[1].observable()).subscribe(observer(rec));
        else if (n == 3)
            rpp::source::concat(srcs[0].observable(), srcs[1].dyn(), srcs[2].observable()).subscribe(observer(rec));
        else if (how == 1)
        {
            std::vector<Obs> v;
            for (auto& s : srcs)
                v.push_back(s.dyn());
            rpp::source::concat<rpp::memory_model::use_shared>(v).subscribe(observer(rec));
        }
        else
        {
            // start_with is concat with the source last
            std::vector<Obs> v;
            for (auto& s : srcs)
                v.push_back(s.dyn());
            if (n == 4)
                v[3] | rpp::ops::start_with(v[0], v[1], v[2]) | rpp::ops::subscribe(observer(rec));
            else
                v[4] | rpp::ops::start_with(v[0], v[1], v[2], v[3]) | rpp::ops::subscribe(observer(rec));
        }
    }
    Quiet q;
    check_concat(rec, srcs, nullptr);
}

// a long queue of waiting observables
SIM_SCENARIO(backlog, 1)
{
    unsigned n = many(1030), each = sim::param_range(1, 64, "each");
    rpp::subjects::publish_subject<rpp::dynamic_observable<int>> outer;
    std::optional<rpp::dynamic_observer<int>>                    open; // the active inner observable, if it has not ended at once
    uint64_t got = 0, bad = 0, subs = 0;
    char     end = '-';
    (outer.get_observable() | rpp::ops::concat()).subscribe([&](int v) { bad += v != (int)got; ++got; }, [&](const std::exception_ptr&) { end = 'E'; }, [&] { end = 'C'; });
    for (unsigned i = 0; i < n; ++i)
    {
        auto in = rpp::source::create<int>([&subs, &open, i, each](auto&& obs) {
            ++subs;
            obs.on_next((int)i);
            if (i % each == 0)
                open.emplace(std::forward<decltype(obs)>(obs).as_dynamic());
            else
                obs.on_completed();
        });
        outer.get_observer().on_next(in.as_dynamic());
        SIM_CHECK(subs == 1, "overlap", "%llu inner observables subscribed while the first one is active", (unsigned long long)subs);
    }
    outer.get_observer().on_completed();
    SIM_CHECK(end == '-', "wrong-end", "ended %c while inner observables are waiting", end);
    while (open)
    {
        SIM_CHECK(got == subs && !bad, "order", "%llu subscribed, %llu values, %llu of them wrong", (unsigned long long)subs, (unsigned long long)got, (unsigned long long)bad);
        auto o = *open;
        open.reset();
        o.on_completed();
    }
    SIM_CHECK(got == n && subs == n && !bad && end == 'C', "lost", "%u inner observables, %llu subscribed, %llu values (%llu wrong), ended %c", n, (unsigned long long)subs, (unsigned long long)got, (unsigned long long)bad, end);
}
