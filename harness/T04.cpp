// interval, timer and scheduled iterables: values, times, order, stop on dispose, on every scheduler.
#include "timed.hpp"
using namespace h;

namespace
{
// how a subscription ends before its source does
struct Stop
{
    int      kind{}; // 0 take(n), 1 dispose inside value n, 2 disposed from another thread
    unsigned n{};
    Disposer dis;
};
void judge_interval(Rec& rec, int64_t first_lo, int64_t first_hi, int64_t period, World& w, bool upper)
{
    const char* nm   = rec.name.c_str();
    auto        vals = rec.values();
    for (size_t i = 0; i < vals.size(); ++i)
    {
        SIM_CHECK(vals[i] == (int)i, "sequence", "%s: %s", nm, rec.str().c_str());
        int64_t lo = first_lo + (int64_t)i * period;
        SIM_CHECK(rec.ev[i].t >= lo, "early", "%s: value %zu at %+lldus, due at %+lldus", nm, i, (long long)rec.ev[i].t / 1000, (long long)lo / 1000);
        if (upper && sim::time_exact())
        {
            int64_t hi = first_hi + (int64_t)i * period;
            if (i)
                hi = std::max(hi, rec.ev[i - 1].t + rec.busy);
            SIM_CHECK(rec.ev[i].t <= hi + w.lag(), "drift", "%s: value %zu at %+lldus, due at %+lldus", nm, i, (long long)rec.ev[i].t / 1000, (long long)hi / 1000);
        }
    }
}
} // namespace

SIM_SCENARIO(interval, 3)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    Stop    st;
    World   w{(int)sim::param(NumScheds, "scheduler")};
    int64_t unit    = sim::flip("fine") ? 50000 : MS;
    int64_t initial = (int64_t)sim::param(4, "initial") * unit;
    int64_t period  = (int64_t)sim::param(4, "period") * unit;
    bool    same    = sim::param(4, "oneparam") == 1;
    bool    abs     = !same && sim::param(3, "absolute") == 1;
    if (same)
        initial = period;
    if (sim::param(3, "busy") == 1)
        rec.busy = (int64_t)sim::param_range(1, 5, "busyfor") * unit / 2;
    st.kind = (int)sim::param(3, "stop");
    st.n    = sim::param_range(1, 5, "n");
    int64_t call_bt, call_rt = 0;
    {
        Threads th;
        w.start_loop();
        auto d = rpp::composite_disposable_wrapper::make();
        if (st.kind == 2)
        {
            if (!period)
                period = unit; // somebody else must be able to run
            st.dis.on = true;
            int64_t  at = (int64_t)sim::param(12, "dispat") * unit;
            unsigned y  = sim::param(8, "dispyield");
            {
                Quiet q;
                rec.late_allowed = 1;
            }
            th.spawn([&, d, at, y] {
                if (at)
                    sim::sleep_ns(at);
                sim::yield(y);
                d.dispose();
                Quiet q;
                st.dis.rt    = sim::now();
                rec.disp_ret = sim::seq();
            });
        }
        if (st.kind == 1)
        {
            Quiet q;
            rec.hook = [&](const Ev& e) {
                if (e.k == 'N' && e.v + 1 == (int)st.n)
                {
                    d.dispose();
                    Quiet q2;
                    rec.disp_ret = sim::seq();
                }
            };
        }
        {
            Quiet q;
            call_bt = sim::now();
        }
        auto toint = rpp::ops::map([](size_t v) { return (int)v; });
        auto go    = [&](auto&& o) {
            if (st.kind == 0)
                std::forward<decltype(o)>(o) | toint | rpp::ops::take(st.n) | rpp::ops::subscribe(observer(rec, d));
            else
                std::forward<decltype(o)>(o) | toint | rpp::ops::subscribe(observer(rec, d));
        };
        w.with([&](auto&& s) {
            if (abs)
                go(rpp::source::interval(at(call_bt + initial), ns{period}, s));
            else if (same)
                go(rpp::source::interval(ns{period}, s));
            else
                go(rpp::source::interval(ns{initial}, ns{period}, s));
        });
        {
            Quiet q;
            call_rt = sim::now();
        }
        th.join_all();
        for (int i = 0; i < 2; ++i)
            w.settle(6 * period + initial + 20 * unit);
        w.finish();
    }
    Quiet q;
    if (same)
        initial = period;
    int64_t lo = call_bt + initial;
    int64_t hi = abs ? lo : (w.own_thread() ? call_rt + initial : lo + SLACK);
    judge_interval(rec, lo, hi, period, w, true);
    auto got = rec.values();
    if (st.kind == 0)
        SIM_CHECK(got.size() == st.n && rec.ending() == 'C', "lost", "take(%u): %s", st.n, rec.str().c_str());
    else
        SIM_CHECK(rec.ending() == '-', "wrong-end", "%s", rec.str().c_str());
    if (st.kind == 1)
        SIM_CHECK(got.size() == st.n, "lost", "disposed inside value %u: %s", st.n, rec.str().c_str());
    if (st.kind == 2 && sim::time_exact() && w.own_thread())
        for (size_t i = got.size(); i < got.size() + 1; ++i)
            SIM_CHECK(st.dis.rt <= std::max(hi + (int64_t)i * period, i ? rec.ev[i - 1].t + rec.busy : 0) + w.lag() + SLACK, "lost", "value %zu was due at %+lldus, disposed at %+lldus: %s", i, (long long)(hi + (int64_t)i * period) / 1000, (long long)st.dis.rt / 1000, rec.str().c_str());
}

SIM_SCENARIO(timer, 1)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    World    w{(int)sim::param(NumScheds, "scheduler")};
    Disposer dis;
    int64_t  unit = sim::flip("fine") ? 50000 : MS;
    int64_t  when = (int64_t)sim::param(4, "when") * unit;
    bool     abs  = sim::param(3, "absolute") == 1;
    unsigned reps = sim::param_range(1, 2, "subscriptions");
    Rec      rec2{"second"};
    int64_t  bt[2]{}, rt[2]{};
    {
        Threads th;
        w.start_loop();
        auto    d = rpp::composite_disposable_wrapper::make();
        dis.plan(th, rec, d, unit, 5);
        int64_t tp = sim::now() + when;
        auto    go = [&](auto&& o) {
            for (unsigned i = 0; i < reps; ++i)
            {
                bt[i] = sim::now();
                if (i)
                    o | rpp::ops::map([](size_t v) { return (int)v; }) | rpp::ops::subscribe(observer(rec2));
                else
                    o | rpp::ops::map([](size_t v) { return (int)v; }) | rpp::ops::subscribe(observer(rec, d));
                rt[i] = sim::now();
            }
        };
        w.with([&](auto&& s) {
            if (abs)
                go(rpp::source::timer(at(tp), s));
            else
                go(rpp::source::timer(ns{when}, s));
        });
        th.join_all();
        w.settle(5 * unit);
        w.settle(5 * unit);
        w.finish();
        if (abs)
            for (auto& b : bt)
                b = tp - when, w.own_thread() ? 0 : 0;
    }
    Quiet q;
    for (unsigned i = 0; i < reps; ++i)
    {
        Rec& r = i ? rec2 : rec;
        if (!i && dis.on && r.ending() != 'C')
            continue;
        SIM_CHECK(r.values() == std::vector<int>{0} && r.ending() == 'C', "sequence", "%s: %s", r.name.c_str(), r.str().c_str());
        SIM_CHECK(r.ev[0].t >= bt[i] + when, "early", "%s at %+lldus", r.name.c_str(), (long long)r.ev[0].t / 1000);
        if (sim::time_exact() && w.own_thread())
            SIM_CHECK(r.ev[0].t <= std::max(rt[i], bt[i] + when) + 2 * w.lag(), "late", "%s at %+lldus, due at %+lldus", r.name.c_str(), (long long)r.ev[0].t / 1000, (long long)(bt[i] + when) / 1000);
    }
}

namespace
{
// an iterable whose iterator throws at one position
struct Bad
{
    std::vector<int> v;
    int              at;
    struct It
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type        = int;
        using difference_type   = std::ptrdiff_t;
        using pointer           = const int*;
        using reference         = const int&;
        const Bad* b{};
        size_t     i{};
        const int& operator*() const
        {
            if ((int)i == b->at)
                throw_err(5);
            return b->v[i];
        }
        It& operator++()
        {
            ++i;
            return *this;
        }
        It operator++(int)
        {
            It c = *this;
            ++i;
            return c;
        }
        bool operator==(const It& o) const { return i == o.i; }
        bool operator!=(const It& o) const { return i != o.i; }
    };
    It begin() const { return {this, 0}; }
    It end() const { return {this, v.size()}; }
};
} // namespace

// one observable, several subscriptions from several threads
SIM_SCENARIO(iterables, 3)
{
    World                                w{(int)sim::param(NumScheds, "scheduler")};
    unsigned                             kind = sim::param(5, "kind");
    unsigned                             n    = sim::param(6, "n");
    unsigned                             subs = sim::param_range(1, 3, "subs");
    std::deque<Rec>                      recs;
    std::deque<Disposer>                 dis;
    std::vector<uint32_t>                by;
    std::vector<int>                     items;
    std::atomic<int>                     calls{};
    int                                  bad = -1;
    {
        Quiet q;
        for (unsigned i = 0; i < n; ++i)
            items.push_back(100 + (int)i);
        for (unsigned i = 0; i < subs; ++i)
        {
            recs.emplace_back("obs" + std::to_string(i));
            dis.emplace_back();
            by.push_back(0);
        }
    }
    if (kind == 3)
        bad = (int)sim::param(n + 1, "bad");
    {
        Threads th;
        w.start_loop();
        auto go = [&](auto&& o) {
            for (unsigned i = 0; i < subs; ++i)
            {
                auto d = rpp::composite_disposable_wrapper::make();
                dis[i].plan(th, recs[i], d, 10000, 4);
                unsigned y = sim::param(4, "y");
                if (sim::flip("inthread"))
                    th.spawn([&, i, d, y, o] {
                        sim::yield(y);
                        by[i] = sim::tid();
                        o | rpp::ops::subscribe(observer(recs[i], d));
                    });
                else
                {
                    by[i] = sim::tid();
                    o | rpp::ops::subscribe(observer(recs[i], d));
                }
            }
        };
        w.with([&](auto&& s) {
            std::vector<int> mine = items;
            switch (kind)
            {
            case 0: go(rpp::source::from_iterable(mine, s)); break;
            case 1: go(rpp::source::from_iterable<rpp::memory_model::use_shared>(mine, s)); break;
            case 2:
                {
                    Quiet q;
                    items = {100, 101, 102};
                }
                go(rpp::source::just(s, 100, 101, 102));
                break;
            case 3: go(rpp::source::from_iterable(Bad{mine, bad}, s)); break;
            case 4:
                {
                    Quiet q;
                    items = {100};
                }
                go(rpp::source::from_callable([&] {
                    if (calls.fetch_add(1) == 1)
                        throw_err(6);
                    return 100;
                }));
                break;
            }
        });
        th.join_all();
        w.settle(MS);
        w.finish();
    }
    Quiet q;
    int   threw = 0;
    for (unsigned i = 0; i < subs; ++i)
    {
        Rec&             r    = recs[i];
        std::vector<int> want = items;
        char             end  = 'C';
        int              code = 0;
        if (kind == 3 && bad < (int)want.size())
        {
            want.resize((size_t)bad);
            end  = 'E';
            code = 5;
        }
        if (kind == 4 && r.ending() == 'E')
        {
            threw++;
            want.clear();
            end  = 'E';
            code = 6;
        }
        auto got = r.values();
        SIM_CHECK(is_prefix(got, want), "sequence", "%s: %s", r.name.c_str(), r.str().c_str());
        if (!dis[i].on)
            SIM_CHECK(got == want && r.ending() == end, "lost", "%s: wanted %s%c, saw %s", r.name.c_str(), str(want).c_str(), end, r.str().c_str());
        if (r.ending() != '-')
            SIM_CHECK(r.ending() == end && (end == 'C' || r.error_code() == code) && got == want, "wrong-end", "%s: %s", r.name.c_str(), r.str().c_str());
        for (auto& e : r.ev)
            SIM_CHECK((kind == 4 || !w.own_thread() ? e.tid == by[i] : e.tid == r.ev[0].tid && e.tid != by[i]), "thread", "%s: delivered on T%u, subscribed on T%u", r.name.c_str(), e.tid, by[i]);
    }
    SIM_CHECK(threw <= 1, "wrong-end", "%d subscriptions failed although one call threw", threw);
}
