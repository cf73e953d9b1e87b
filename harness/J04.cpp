// replay_subject: retained history first, then every later value exactly once, then the terminal event.
#include "subject_common.hpp"
#include "many.hpp"
using namespace h;

constexpr int64_t MSEC = 1000000;
template<typename S>
static void run(bool threads)
{
    SubjectWorld<S> w;
    unsigned        mode  = sim::param(3, "mode"); // all, last N, last N within a window
    size_t          limit = SIZE_MAX;
    int64_t         window = INT64_MAX;
    if (mode)
        limit = sim::param(4, "limit");
    if (mode == 2)
    {
        if (sim::flip("big"))
            limit = 100;
        window = (int64_t)sim::param_range(1, 4, "window") * MSEC;
    }
    if (mode == 0)
        w.s.emplace();
    else if (mode == 1)
        w.s.emplace(limit);
    else
        w.s.emplace(limit, ns{window});
    if (limit == 0)
        limit = 1;
    unsigned n = sim::param_range(1, 4, "subs"), pre = sim::param(2, "pre");
    for (unsigned i = 0; i < n; ++i)
        w.make_sub(n);
    if (pre > n)
        pre = n;
    for (unsigned i = 0; i < pre; ++i)
        w.subscribe(w.subs[i]);
    unsigned             m = sim::param(6, "emissions"), end = sim::param(4, "end");
    std::vector<int64_t> gaps;
    for (unsigned i = 0; i <= m; ++i)
        gaps.push_back(mode == 2 ? (int64_t)sim::param(3, "gap") * MSEC : 0);
    auto emitter = [&w, m, end, gaps](auto&& between) {
        auto o = w.s->get_observer();
        for (unsigned i = 0; i < m; ++i)
        {
            if (gaps[i])
                sim::sleep_ns(gaps[i]);
            w.emit(o, 'N', 100 + (int)i);
            between(i);
        }
        if (end)
            w.emit(o, end == 1 ? 'E' : 'C', 5);
    };
    {
        Threads th;
        if (threads)
        {
            w.user_threads(th, sim::param_range(1, 2, "threads"), pre, n, mode == 2 ? MSEC : 0);
            th.spawn([&] { emitter([](unsigned) {}); });
        }
        else
        {
            std::vector<unsigned> plan;
            for (unsigned i = 0; i < m; ++i)
                plan.push_back(sim::param(3, "step"));
            emitter([&](unsigned i) {
                if (pre < n && plan[i])
                    w.subscribe(w.subs[pre + i % (n - pre)]);
                if (plan[i] == 2)
                    w.dispose(w.subs[i % n]);
            });
        }
    }
    if (mode == 2 && gaps[m])
        sim::sleep_ns(gaps[m]);
    for (unsigned i = pre; i < n; ++i)
        w.subscribe(w.subs[i]);
    {
        Quiet                        q;
        std::vector<int>             all;
        std::vector<const Emission*> em;
        const Emission*              term = w.terminal();
        for (auto& e : w.em)
            if (e.k == 'N')
            {
                all.push_back(e.v);
                em.push_back(&e);
            }
        for (auto& u : w.subs)
        {
            if (!u.sub_b)
                continue;
            const char* name = u.rec.name.c_str();
            w.judge_terminal(u, term);
            // number of values in the history when the snapshot was taken
            size_t lo = 0, hi = 0;
            for (auto* e : em)
            {
                lo += e->r && e->r < u.sub_b;
                hi += e->b < u.sub_r;
            }
            // first index that may / must be replayed
            size_t may = lo > limit ? lo - limit : 0, must = hi > limit ? hi - limit : 0;
            if (window != INT64_MAX)
            {
                while (may < lo && em[may]->rt && u.sub_bt - em[may]->rt > window)
                    ++may;
                size_t x = 0;
                while (x < hi && !(u.sub_rt - em[x]->bt <= window))
                    ++x;
                must = std::max(must, x);
            }
            auto   v = u.rec.values();
            size_t p = all.size();
            if (!v.empty())
            {
                p = (size_t)(std::find(all.begin(), all.end(), v[0]) - all.begin());
                SIM_CHECK(p < all.size(), "phantom", "%s received %d", name, v[0]);
                SIM_CHECK(p >= may, "too-old", "%s received %s although only values from index %zu on are retained", name, u.rec.str().c_str(), may);
                for (size_t i = 0; i < v.size(); ++i)
                    SIM_CHECK(p + i < all.size() && all[p + i] == v[i], "gap", "%s received %s of values %s", name, u.rec.str().c_str(), str(all).c_str());
            }
            if (!u.disp_b)
            {
                SIM_CHECK(p <= must, "lost-history", "%s received %s although values from index %zu on are retained: %s", name, u.rec.str().c_str(), must, str(all).c_str());
                SIM_CHECK(p + v.size() == all.size(), "lost", "%s received %s of values %s", name, u.rec.str().c_str(), str(all).c_str());
            }
        }
    }
    w.s.reset();
}
SIM_SCENARIO(serialized_racing, 4) { run<rpp::subjects::serialized_replay_subject<int>>(true); }
SIM_SCENARIO(one_thread, 2) { run<rpp::subjects::replay_subject<int>>(false); }
// a long history
SIM_SCENARIO(long_history, 1)
{
    unsigned n = many(66000), k = sim::flip("bounded") ? many(66000) : 0;
    rpp::subjects::replay_subject<int> s = k ? rpp::subjects::replay_subject<int>{k} : rpp::subjects::replay_subject<int>{};
    unsigned at  = sim::flip("late") ? n : sim::param(n + 1, "at");
    Sum      early, early_want, got, want;
    bool     ended = false;
    s.get_observable().subscribe([&](int v) { early.add((uint64_t)v); });
    auto late = [&] { s.get_observable().subscribe([&](int v) { got.add((uint64_t)v); }, [](const std::exception_ptr&) {}, [&] { ended = true; }); };
    for (unsigned i = 0; i < n; ++i)
    {
        if (i == at)
            late();
        s.get_observer().on_next((int)i);
    }
    if (sim::flip("after end"))
    {
        s.get_observer().on_completed();
        if (at == n)
            late();
    }
    else
    {
        if (at == n)
            late();
        s.get_observer().on_completed();
    }
    for (unsigned i = 0; i < n; ++i)
        early_want.add(i);
    for (unsigned i = k ? at - std::min(at, k) : 0; i < n; ++i)
        want.add(i);
    SIM_CHECK(early == early_want && got == want && ended, "wrong-values", "%u values, %u kept, subscribed after %u: the first observer got %llu, the late one %llu of %llu", n, k, at, (unsigned long long)early.n, (unsigned long long)got.n, (unsigned long long)want.n);
}
