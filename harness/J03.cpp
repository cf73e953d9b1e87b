// behavior_subject: latest value first, then every later one, without gap or repetition.
#include "subject_common.hpp"
using namespace h;

// position p of the emission order (0: the initial value) was current at some moment of [b, r]
template<typename W>
static bool current_during(W& w, size_t p, uint64_t b, uint64_t r)
{
    std::vector<const Emission*> em;
    for (auto& e : w.em)
        if (e.k == 'N')
            em.push_back(&e);
    if (p > 0 && em[p - 1]->b > r)
        return false;
    if (p < em.size() && em[p]->r && em[p]->r < b)
        return false;
    return true;
}
template<typename W>
static void judge_sub(W& w, Sub& u)
{
    const char*      n = u.rec.name.c_str();
    std::vector<int> all{7};
    const Emission*  term = w.terminal();
    for (auto& e : w.em)
        if (e.k == 'N')
            all.push_back(e.v);
    auto v = u.rec.values();
    w.judge_terminal(u, term);
    if (term && term->r && u.sub_b > term->r)
    {
        SIM_CHECK(v.empty(), "after-terminal", "%s subscribed after the end but received %s", n, u.rec.str().c_str());
        return;
    }
    if (v.empty())
    {
        SIM_CHECK((term && term->b < u.sub_r) || u.disp_b || (w.subj_disp_b && w.subj_disp_b < u.sub_r), "no-value", "%s received no value on subscription", n);
        return;
    }
    size_t p = (size_t)(std::find(all.begin(), all.end(), v[0]) - all.begin());
    SIM_CHECK(p < all.size(), "phantom", "%s received %d", n, v[0]);
    SIM_CHECK(current_during(w, p, u.sub_b, u.sub_r), "stale", "%s first received %d which was not the latest value while it subscribed", n, v[0]);
    for (size_t i = 0; i < v.size(); ++i)
        SIM_CHECK(p + i < all.size() && all[p + i] == v[i], "gap", "%s received %s of values %s", n, u.rec.str().c_str(), str(all).c_str());
    size_t k = 0;
    for (auto& e : w.em)
        if (e.k == 'N' && (!term || &e < term))
        {
            ++k;
            if (k > p && (!u.disp_b || (e.r && e.r < u.disp_b)) && (!w.subj_disp_b || (e.r && e.r < w.subj_disp_b)) && e.b > u.sub_r)
                SIM_CHECK(k < p + v.size(), "lost", "%s did not receive %d: %s", n, e.v, u.rec.str().c_str());
        }
    if (!u.disp_b && !w.subj_disp_b && !term)
        SIM_CHECK(p + v.size() == all.size(), "lost", "%s received %s of values %s", n, u.rec.str().c_str(), str(all).c_str());
}
template<typename S>
static void run(bool threads)
{
    SubjectWorld<S> w;
    w.s.emplace(7);
    unsigned n = sim::param_range(1, 4, "subs"), pre = sim::param(n + 1, "pre");
    for (unsigned i = 0; i < n; ++i)
        w.make_sub(n);
    for (unsigned i = 0; i < pre; ++i)
        w.subscribe(w.subs[i]);
    unsigned m = sim::param(5, "emissions"), end = sim::param(4, "end");
    auto     emitter = [&w, m, end](auto&& between) {
        auto o = w.s->get_observer();
        for (unsigned i = 0; i < m; ++i)
        {
            w.emit(o, 'N', 100 + (int)i);
            between(i);
        }
        if (end)
            w.emit(o, end == 1 ? 'E' : 'C', 5);
    };
    struct Get
    {
        uint64_t b, r;
        int      v;
    };
    std::deque<Get> gets;
    {
        Threads th;
        if (threads)
        {
            w.user_threads(th, sim::param_range(1, 2, "threads"), pre, n);
            th.spawn([&] { emitter([](unsigned) {}); });
        }
        if (sim::flip("get_value"))
            th.spawn([&, k = sim::param_range(1, 3, "gets")] {
                for (unsigned i = 0; i < k; ++i)
                {
                    uint64_t b = sim::seq();
                    int      v = w.s->get_value();
                    Quiet    q;
                    gets.push_back({b, sim::seq(), v});
                }
            });
        if (!threads)
        {
            std::vector<unsigned> plan;
            for (unsigned i = 0; i < m; ++i)
                plan.push_back(sim::param(3, "step"));
            emitter([&](unsigned i) {
                if (pre < n && plan[i])
                    w.subscribe(w.subs[pre + i % (n - pre)]);
                if (plan[i] == 2)
                    w.dispose(w.subs[i % n]);
            });
            for (unsigned i = pre; i < n; ++i)
                w.subscribe(w.subs[i]);
        }
    }
    {
        Quiet q;
        for (auto& u : w.subs)
            if (u.sub_b)
                judge_sub(w, u);
        for (auto& g : gets)
        {
            std::vector<int> all{7};
            for (auto& e : w.em)
                if (e.k == 'N')
                    all.push_back(e.v);
            size_t p = (size_t)(std::find(all.begin(), all.end(), g.v) - all.begin());
            SIM_CHECK(p < all.size() && current_during(w, p, g.b, g.r), "stale", "get_value returned %d", g.v);
        }
    }
    w.s.reset();
}
SIM_SCENARIO(serialized_racing, 4) { run<rpp::subjects::serialized_behavior_subject<int>>(true); }
SIM_SCENARIO(one_thread, 2) { run<rpp::subjects::behavior_subject<int>>(false); }
