// Histories of subjects: emitters, subscribers that come and go on other threads, reentrant callbacks.
#pragma once
#include "common.hpp"
#include <rpp/subjects/behavior_subject.hpp>
#include <rpp/subjects/publish_subject.hpp>
#include <rpp/subjects/replay_subject.hpp>

namespace h
{
struct Emission
{
    char     k;
    int      v;
    uint32_t tid;
    uint64_t b, r;
    int64_t  bt, rt;
};
struct Sub
{
    Rec                               rec;
    rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
    uint64_t                          sub_b{}, sub_r{}, disp_b{};
    int64_t                           sub_bt{}, sub_rt{};
    int                               on_event{-1}, action{0}, target{-1}; // what the callback of event number on_event does
    int                               seen{};
    unsigned                          style{}; // how it subscribes
};

template<typename S>
struct SubjectWorld
{
    std::optional<S>     s;
    std::deque<Emission> em;
    std::deque<Sub>      subs;
    uint64_t             subj_disp_b{};

    Sub& make_sub(unsigned nsubs_max)
    {
        Sub* u;
        {
            Quiet q;
            subs.emplace_back();
            u = &subs.back();
        }
        u->rec.yields       = sim::param(3, "yields");
        u->style            = sim::param(3, "style");
        u->rec.late_allowed = 1;
        if (sim::param(3, "acts") == 1)
        {
            u->on_event = (int)sim::param(3, "on_event");
            u->action   = (int)sim::param_range(1, 3, "action");
            u->target   = (int)sim::param(nsubs_max, "target");
        }
        Quiet q;
        u->rec.name = "o" + std::to_string(subs.size() - 1);
        u->rec.hook = [this, u](const Ev&) {
            if (u->seen++ != u->on_event)
                return;
            if (u->action == 1)
                dispose(*u);
            else if (u->target < (int)subs.size())
            {
                Sub& t = subs[(size_t)u->target];
                if (u->action == 2)
                    dispose(t);
                else
                    subscribe(t);
            }
        };
        return *u;
    }
    void subscribe(Sub& u)
    {
        {
            Quiet q;
            if (u.sub_b)
                return;
            u.sub_b  = sim::seq();
            u.sub_bt = sim::now();
            sim::log("subscribe %s", u.rec.name.c_str());
        }
        switch (u.style)
        {
        case 0: s->get_observable().subscribe(observer(u.rec, u.d)); break;
        case 1: s->get_observable().subscribe(u.d, observer(u.rec)); break;
        default: s->get_observable().subscribe(u.d, [&u](int v) { u.rec.next(v); }, [&u](const std::exception_ptr& e) { u.rec.error(e); }, [&u] { u.rec.completed(); }); break;
        }
        Quiet q;
        u.sub_r  = sim::seq();
        u.sub_rt = sim::now();
    }
    void dispose(Sub& u)
    {
        {
            Quiet q;
            if (u.disp_b)
                return;
            u.disp_b = sim::seq();
            sim::log("dispose %s", u.rec.name.c_str());
        }
        u.d.dispose();
        Quiet q;
        u.rec.disp_ret = sim::seq();
    }
    template<typename O>
    void emit(const O& o, char k, int v)
    {
        Emission* e;
        {
            Quiet q;
            em.push_back({k, v, sim::tid(), sim::seq(), 0, sim::now(), 0});
            e = &em.back();
            sim::log("emit %c %d", k, v);
        }
        if (k == 'N')
            o.on_next(v);
        else if (k == 'E')
            o.on_error(make_err(v));
        else
            o.on_completed();
        Quiet q;
        e->r  = sim::seq();
        e->rt = sim::now();
    }
    // threads of subscribers and disposers over subs[from..to)
    void user_threads(Threads& th, unsigned nth, unsigned from, unsigned to, int64_t gap = 0)
    {
        for (unsigned t = 0; t < nth; ++t)
        {
            std::vector<std::pair<int, unsigned>> ops; // 0 subscribe 1 dispose 2 yield
            for (unsigned i = from; i < to; ++i)
                if (i % nth == t)
                {
                    bool     disp = sim::param(3, "disp") == 1;
                    unsigned y    = sim::param(4, "opyield");
                    Quiet    q;
                    ops.push_back({2, y});
                    ops.push_back({0, i});
                    if (disp)
                    {
                        ops.push_back({2, 3 - y});
                        ops.push_back({1, i});
                    }
                }
            th.spawn([this, ops, gap] {
                for (size_t i = 0; i < ops.size(); ++i)
                {
                    if (ops[i].first == 0)
                        subscribe(subs[ops[i].second]);
                    else if (ops[i].first == 1)
                        dispose(subs[ops[i].second]);
                    else
                    {
                        sim::yield(ops[i].second * 3);
                        if (gap)
                            sim::sleep_ns(gap * ops[i].second);
                    }
                }
            });
        }
    }
    // Emissions in the order the subject serialised them, when all emitters are one thread: program order.
    // `initial`: values that a subscriber may see before live ones are judged by the caller.
    void judge_live(Sub& u, const std::vector<int>& live, bool disposed_subject = false)
    {
        const char* n = u.rec.name.c_str();
        // contiguous slice of the emission order
        std::vector<int> all;
        for (auto& e : em)
            if (e.k == 'N')
                all.push_back(e.v);
        size_t at = 0;
        if (!live.empty())
        {
            at = (size_t)(std::find(all.begin(), all.end(), live[0]) - all.begin());
            SIM_CHECK(at < all.size(), "phantom", "%s received %d which was never emitted", n, live[0]);
            for (size_t i = 0; i < live.size(); ++i)
                SIM_CHECK(at + i < all.size() && all[at + i] == live[i], "gap", "%s received %s of emissions %s", n, str(live).c_str(), str(all).c_str());
        }
        const Emission* term = nullptr;
        for (auto& e : em)
            if (e.k != 'N' && !term)
                term = &e;
        for (auto& e : em)
        {
            if (e.k != 'N' || (term && e.b > term->b))
                continue;
            bool got = std::find(live.begin(), live.end(), e.v) != live.end();
            if (e.r && e.r < u.sub_b)
                SIM_CHECK(!got, "old-value", "%s received %d emitted before it subscribed", n, e.v);
            bool must = u.sub_r && e.b > u.sub_r && (!u.disp_b || (e.r && e.r < u.disp_b)) && (!subj_disp_b || (e.r && e.r < subj_disp_b));
            if (must)
                SIM_CHECK(got, "lost", "%s was subscribed but did not receive %d: %s", n, e.v, u.rec.str().c_str());
        }
        judge_terminal(u, term);
    }
    void judge_terminal(Sub& u, const Emission* term)
    {
        const char* n   = u.rec.name.c_str();
        char        end = u.rec.ending();
        if (end != '-')
            SIM_CHECK(term && term->k == end && (end == 'C' || u.rec.error_code() == term->v) , "wrong-terminal", "%s ended with %c", n, end);
        if (term && u.sub_b && !u.disp_b && (!subj_disp_b || (term->r && term->r < subj_disp_b && (u.sub_r < subj_disp_b))))
            SIM_CHECK(end == term->k, "terminal-lost", "%s did not receive the terminal event: %s", n, u.rec.str().c_str());
    }
    const Emission* terminal() const
    {
        for (auto& e : em)
            if (e.k != 'N')
                return &e;
        return nullptr;
    }
};
} // namespace h
