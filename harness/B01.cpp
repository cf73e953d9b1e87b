// as_blocking: subscribe returns exactly when the stream has ended or was disposed, and always then.
#include "multi.hpp"
#include "timed.hpp"
using namespace h;

namespace
{
struct Call
{
    Rec      rec;
    uint64_t b{}, r{}, disp_b{}, disp_r{};
    int64_t  rt{}, disp_t{};
    bool     disp{};
    int      plain{}; // written by the callbacks, read after subscribe returned
    explicit Call(std::string n)
        : rec(std::move(n))
    {
    }
};

// what must hold the moment subscribe returned on this thread
void returned(Call& c)
{
    {
        Quiet q;
        c.r  = sim::seq();
        c.rt = sim::now();
        if (!c.disp_b)
        {
            SIM_CHECK(c.rec.ending() != '-', "early", "%s: subscribe returned but the stream has not ended: %s", c.rec.name.c_str(), c.rec.str().c_str());
            SIM_CHECK(c.rec.in == 0 && c.rec.ev.back().end, "early", "%s: subscribe returned inside of a callback", c.rec.name.c_str());
        }
    }
    if (!c.disp) // the race detector sees whether these writes happened before
    {
        int p = c.plain;
        Quiet q;
        SIM_CHECK(p == (int)c.rec.ev.size(), "lost-effect", "%s: %d of %zu callbacks visible", c.rec.name.c_str(), p, c.rec.ev.size());
        sim::log("returned");
    }
}

template<typename O>
void block(const O& o, Call& c, const rpp::composite_disposable_wrapper& d)
{
    {
        Quiet q;
        c.b      = sim::seq();
        c.rec.hook = [&c](const Ev&) { if (!c.disp) c.plain = c.plain + 1; };
    }
    o.subscribe(d, observer(c.rec));
    returned(c);
}

// `use(blocking observable)` with one of several chains in front
template<typename F>
void chain(Src& s, Src& s2, unsigned kind, F&& use)
{
    switch (kind)
    {
    case 0: use(s.observable() | rpp::ops::as_blocking()); break;
    case 1: use(s.observable() | rpp::ops::map([](int v) { return v; }) | rpp::ops::as_blocking()); break;
    case 2: use(s.observable() | rpp::ops::merge_with(s2.observable()) | rpp::ops::as_blocking()); break;
    case 3: use(s.observable() | rpp::ops::take(2) | rpp::ops::as_blocking()); break;
    case 4: use(rpp::source::concat(s.observable(), s2.observable()) | rpp::ops::as_blocking()); break;
    default: use(s.dyn() | rpp::ops::as_blocking()); break;
    }
}
} // namespace

SIM_SCENARIO(blocking, 3)
{
    std::deque<Call> calls;
    Src              s, s2;
    Threads          th;
    unsigned         ncalls = sim::param(3, "callers") == 1 ? 2 : 1, kind = sim::param(6, "chain");
    for (Src* x : {&s, &s2})
    {
        x->mode           = sim::param(4, "sync") == 1 ? Mode::Sync : Mode::Thread;
        x->yields         = sim::param(5, "srcyield");
        x->check_disposed = sim::param(3, "ignoredisp") != 1;
        x->rogue          = sim::param(8, "rogue") == 1;
        x->keep           = true;
        Script sc         = random_script(x == &s ? 100 : 200, 3, 3);
        Quiet  q;
        x->name    = x == &s ? "s" : "s2";
        x->threads = &th;
        x->scripts.push_back(sc);
    }
    bool never = sim::param(6, "never") == 1; // then every caller is disposed from outside
    if (never)
    {
        Quiet q;
        s.scripts[0].end = '-';
        s.keep           = true;
    }
    chain(s, s2, kind, [&](const auto& o) {
        std::deque<std::thread> callers;
        for (unsigned i = 0; i < ncalls; ++i)
        {
            Call* c;
            {
                Quiet q;
                calls.emplace_back("caller" + std::to_string(i));
                c = &calls.back();
            }
            auto     d    = rpp::composite_disposable_wrapper::make();
            unsigned disp = sim::param(5, "dispose");
            if (disp == 1 || (never && disp != 2))
            {
                {
                    Quiet q;
                    c->disp             = true;
                    c->rec.late_allowed = 1;
                }
                th.spawn([c, d, y = sim::param(30, "dispyield")] {
                    sim::yield(y);
                    {
                        Quiet q;
                        c->disp_b = sim::seq();
                        c->disp_t = sim::now();
                    }
                    d.dispose();
                    Quiet q;
                    c->disp_r       = sim::seq();
                    c->rec.disp_ret = c->disp_r;
                });
            }
            else if (never) // disposed before
            {
                d.dispose();
                Quiet q;
                c->disp   = true;
                c->disp_b = c->disp_r = c->rec.disp_ret = sim::seq();
            }
            if (i + 1 < ncalls)
            {
                std::thread t{[c, d, &o] { block(o, *c, d); }};
                Quiet       q;
                callers.push_back(std::move(t));
            }
            else
                block(o, *c, d);
        }
        for (;;)
        {
            std::thread t;
            {
                Quiet q;
                if (callers.empty())
                    break;
                t = std::move(callers.front());
                callers.pop_front();
            }
            t.join();
        }
    });
    th.join_all();
    Quiet q;
    for (auto& c : calls)
        c.rec.hook = nullptr;
}

// the subscribe function throws
SIM_SCENARIO(throwing_subscribe, 1)
{
    Call     c{"caller"};
    unsigned n = sim::param(3, "before"), kind = sim::param(3, "kind");
    auto     d = rpp::composite_disposable_wrapper::make();
    auto     src = rpp::source::create<int>([&](const auto& o) {
        for (unsigned i = 0; i < n; ++i)
            o.on_next((int)i);
        throw_err(7);
    });
    if (kind == 0) // nobody in between: the caller gets the exception
    {
        bool thrown = false;
        try
        {
            block(src | rpp::ops::as_blocking(), c, d);
        }
        catch (const std::runtime_error&)
        {
            thrown = true;
        }
        Quiet q;
        c.rec.hook = nullptr;
        SIM_CHECK(thrown && c.rec.values().size() == n && c.rec.ending() == '-', "wrong-end", "%s", c.rec.str().c_str());
        return;
    }
    if (kind == 1)
        block(src | rpp::ops::subscribe_on(rpp::schedulers::new_thread{}) | rpp::ops::as_blocking(), c, d);
    else
        block(src | rpp::ops::map([](int v) { return v; }) | rpp::ops::retry(2) | rpp::ops::as_blocking(), c, d);
    Quiet q;
    SIM_CHECK(c.rec.ending() == 'E' && c.rec.error_code() == 7 && c.rec.values().size() == n, "wrong-end", "%s", c.rec.str().c_str());
    c.rec.hook = nullptr;
}

// waiting for schedulers; the call returns soon after the last event
SIM_SCENARIO(blocking_timed, 1)
{
    Call     c{"caller"};
    auto     d    = rpp::composite_disposable_wrapper::make();
    unsigned n    = sim::param_range(1, 4, "n"), kind = sim::param(4, "kind");
    const int64_t unit = std::array{MS, 1000 * MS, 3'600'000 * MS}[sim::param(3, "unit")]; // however long it takes
    int64_t  p    = (int64_t)sim::param_range(1, 4, "period") * unit;
    auto     per  = ns(p);
    std::thread disposer;
    if (sim::param(3, "dispose") == 1)
    {
        {
            Quiet q;
            c.disp             = true;
            c.rec.late_allowed = 1;
        }
        disposer = std::thread{[&, at = (int64_t)sim::param(8, "at") * unit + 500'000] {
            sim::sleep_ns(at);
            {
                Quiet q;
                c.disp_b = sim::seq();
                c.disp_t = sim::now();
            }
            d.dispose();
            Quiet q;
            c.disp_r = c.rec.disp_ret = sim::seq();
        }};
    }
    auto iv = [&](auto s) { return rpp::source::interval(per, s) | rpp::ops::map([](size_t v) { return (int)v; }) | rpp::ops::take(n); };
    switch (kind)
    {
    case 0: block(iv(rpp::schedulers::new_thread{}) | rpp::ops::as_blocking(), c, d); break;
    case 1: block(iv(rpp::schedulers::thread_pool{1}) | rpp::ops::as_blocking(), c, d); break;
    case 2: block(iv(rpp::schedulers::current_thread{}) | rpp::ops::as_blocking(), c, d); break;
    default: block(iv(rpp::schedulers::new_thread{}) | rpp::ops::delay(per, rpp::schedulers::new_thread{}) | rpp::ops::as_blocking(), c, d); break;
    }
    if (disposer.joinable())
        disposer.join();
    if (c.disp)
        sim::quiesce(); // a callback past its check may still be running
    Quiet q;
    if (!c.disp_b || c.rec.ending() != '-')
        SIM_CHECK(c.rec.values().size() == n && c.rec.ending() == 'C', "wrong-end", "%s", c.rec.str().c_str());
    if (sim::time_exact())
    {
        // (current_thread executes in place: a dispose is noticed at the next due time)
        int64_t latest = std::max(c.rec.ev.empty() ? 0 : c.rec.ev.back().t, c.disp_b ? c.disp_t : 0) + (kind == 2 && c.disp_b ? p : 0) + SLACK;
        SIM_CHECK(c.rt <= latest, "late", "returned %lld ns after the end", (long long)(c.rt - latest + SLACK));
    }
    c.rec.hook = nullptr;
}
