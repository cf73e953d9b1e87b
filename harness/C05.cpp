// Exceptions of user callables at every call index, on every thread: exactly that one error, upstream released.
#include "timed.hpp"
#include <cstring>
using namespace h;

namespace
{
constexpr int BOOM = 4242;

struct Boom
{
    int      at{-1}, calls{}, thrown{};
    void     hit()
    {
        bool t;
        {
            Quiet q;
            t = ++calls == at;
            if (t)
            {
                thrown++;
                sim::log("throws at call %d", calls);
            }
        }
        if (t)
            throw_err(BOOM);
    }
    // model: would call number n throw?
    bool here(int n) const { return n == at; }
};
struct Expect
{
    std::vector<int> v;
    bool             thrown{};
};
// f(value, index of the call, out) -> true: stop normally
template<typename F>
Expect model(const Boom& b, const std::vector<int>& in, F&& f, int skip_calls = 0)
{
    Expect e;
    int    n = -skip_calls;
    for (int x : in)
    {
        if (++n >= 1 && b.here(n))
        {
            e.thrown = true;
            return e;
        }
        if (f(x, e.v))
            return e;
    }
    return e;
}

struct Case
{
    const char* name;
    Expect (*expect)(const Boom&, const std::vector<int>&);
    Obs (*build)(Boom*, Obs);
};
auto same = [](int x, std::vector<int>& o) { o.push_back(x); return false; };
auto none = [](int, std::vector<int>&) { return false; };
namespace o = rpp::ops;
const Case cases[] = {
    {"map", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::map([b](int v) { b->hit(); return v; })).as_dynamic(); }},
    {"filter", [](const Boom& b, const std::vector<int>& in) { return model(b, in, [](int x, auto& out) { if (x % 2) out.push_back(x); return false; }); }, [](Boom* b, Obs s) { return (s | o::filter([b](int v) { b->hit(); return v % 2 == 1; })).as_dynamic(); }},
    {"take_while", [](const Boom& b, const std::vector<int>& in) { return model(b, in, [](int x, auto& out) { if (x % 5 == 4) return true; out.push_back(x); return false; }); }, [](Boom* b, Obs s) { return (s | o::take_while([b](int v) { b->hit(); return v % 5 != 4; })).as_dynamic(); }},
    {"scan-seed", [](const Boom& b, const std::vector<int>& in) { auto e = model(b, in, same); e.v.insert(e.v.begin(), -1); return e; }, [](Boom* b, Obs s) { return (s | o::scan(-1, [b](int, int v) { b->hit(); return v; })).as_dynamic(); }},
    {"scan", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same, 1); }, [](Boom* b, Obs s) { return (s | o::scan([b](int, int v) { b->hit(); return v; })).as_dynamic(); }},
    {"reduce-seed", [](const Boom& b, const std::vector<int>& in) { auto e = model(b, in, none); if (!e.thrown) e.v.push_back(in.empty() ? -1 : in.back()); return e; }, [](Boom* b, Obs s) { return (s | o::reduce(-1, [b](int, int v) { b->hit(); return v; })).as_dynamic(); }},
    {"distinct_until_changed", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same, 1); }, [](Boom* b, Obs s) { return (s | o::distinct_until_changed([b](int, int) { b->hit(); return false; })).as_dynamic(); }},
    {"flat_map", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::flat_map([b](int v) { b->hit(); return rpp::source::just(rpp::schedulers::immediate{}, v); })).as_dynamic(); }},
    {"flat_map-inner", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::flat_map([b](int v) { return rpp::source::just(rpp::schedulers::immediate{}, v) | rpp::ops::map([b](int x) { b->hit(); return x; }); })).as_dynamic(); }},
    {"flat_map-subscribe", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::flat_map([b](int v) { return rpp::source::create<int>([b, v](const auto& obs) { b->hit(); obs.on_next(v); obs.on_completed(); }); })).as_dynamic(); }},
    {"flat_map-defer", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::flat_map([b](int v) { return rpp::source::defer([b, v] { b->hit(); return rpp::source::just(rpp::schedulers::immediate{}, v); }); })).as_dynamic(); }},
    {"concat-inner", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::map([b](int v) { return rpp::source::create<int>([b, v](const auto& obs) { b->hit(); obs.on_next(v); obs.on_completed(); }); }) | o::concat()).as_dynamic(); }},
    {"switch-inner", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::map([b](int v) { return rpp::source::create<int>([b, v](const auto& obs) { b->hit(); obs.on_next(v); obs.on_completed(); }); }) | o::switch_on_next()).as_dynamic(); }},
    {"from_callable", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::flat_map([b](int v) { return rpp::source::from_callable([b, v] { b->hit(); return v; }); })).as_dynamic(); }},
    {"group_by-key", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::group_by([b](int v) { b->hit(); return v % 2; }) | o::merge()).as_dynamic(); }},
    {"group_by-value", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::group_by([](int v) { return v % 2; }, [b](int v) { b->hit(); return v; }) | o::merge()).as_dynamic(); }},
    {"tap", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::tap([b](int) { b->hit(); })).as_dynamic(); }},
    {"zip", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::zip([b](int v, int) { b->hit(); return v; }, rpp::source::from_iterable(std::vector<int>{1, 2, 3, 4, 5, 6, 7}, rpp::schedulers::immediate{}) | o::merge_with(rpp::source::never<int>()))).as_dynamic(); }},
    {"combine_latest", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::combine_latest([b](int v, int) { b->hit(); return v; }, rpp::source::just(rpp::schedulers::immediate{}, 1))).as_dynamic(); }},
    {"with_latest_from", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::with_latest_from([b](int v, int) { b->hit(); return v; }, rpp::source::just(rpp::schedulers::immediate{}, 1))).as_dynamic(); }},
    {"window", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::window(2) | o::flat_map([b](const auto& w) { return w | rpp::ops::map([b](int v) { b->hit(); return v; }); })).as_dynamic(); }},
    {"buffer", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::buffer(1) | o::map([b](const std::vector<int>& v) { b->hit(); return v[0]; })).as_dynamic(); }},
    {"window_toggle-closing", [](const Boom& b, const std::vector<int>& in) { return model(b, in, none); }, [](Boom* b, Obs s) { return (rpp::source::never<int>() | o::window_toggle(s, [b](int) { b->hit(); return rpp::source::never<int>(); }) | o::merge() | o::merge_with(s | o::filter([](int) { return false; }))).as_dynamic(); }},
    {"take_until-trigger", [](const Boom& b, const std::vector<int>& in) { return model(b, in, none); }, [](Boom* b, Obs s) { return (rpp::source::never<int>() | o::take_until(s | o::filter([b](int) { b->hit(); return false; })) | o::merge_with(s | o::filter([](int) { return false; }))).as_dynamic(); }},
    {"observe_on", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::observe_on(rpp::schedulers::new_thread{}) | o::map([b](int v) { b->hit(); return v; })).as_dynamic(); }},
    {"delay", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::delay(ns{1000}, rpp::schedulers::new_thread{}) | o::map([b](int v) { b->hit(); return v; })).as_dynamic(); }},
    {"subscribe_on", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::map([b](int v) { b->hit(); return v; }) | o::subscribe_on(rpp::schedulers::new_thread{})).as_dynamic(); }},
    {"publish", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (s | o::map([b](int v) { b->hit(); return v; }) | o::publish() | o::ref_count()).as_dynamic(); }},
    {"merge_with", [](const Boom& b, const std::vector<int>& in) { return model(b, in, same); }, [](Boom* b, Obs s) { return (rpp::source::never<int>() | o::merge_with(s | o::map([b](int v) { b->hit(); return v; }) | o::merge_with(s | o::filter([](int) { return false; })))).as_dynamic(); }},
};
constexpr unsigned NCASES = sizeof cases / sizeof *cases;

// only what follows from the throw is checked for these (their other source never ends, or is subscribed twice)
bool endless(const char* n) { return !strcmp(n, "zip") || !strcmp(n, "window_toggle-closing") || !strcmp(n, "merge_with") || !strcmp(n, "take_until-trigger"); }

void judge(const char* name, Rec& rec, const Expect& e, Boom& b, Src& src, const Script& sc)
{
    Quiet q;
    auto  got = rec.values();
    SIM_CHECK(!!b.thrown == e.thrown, "harness", "%s: thrown %d, model %d", name, b.thrown, e.thrown);
    if (!e.thrown && !strcmp(name, "reduce-seed") && sc.end == '-')
        SIM_CHECK(got.empty(), "no-throw", "%s: %s", name, rec.str().c_str());
    else
        SIM_CHECK(got == e.v, e.thrown ? "values" : "no-throw", "%s: expected %s but observer saw %s", name, str(e.v).c_str(), rec.str().c_str());
    if (e.thrown)
    {
        SIM_CHECK(rec.ending() == 'E' && rec.error_code() == BOOM, "not-reported", "%s: the exception of the user function did not arrive: %s", name, rec.str().c_str());
        for (auto& s : src.subs)
            SIM_CHECK(s.disposed == 1, "not-released", "%s: upstream disposed %d times", name, s.disposed);
    }
    else if (!endless(name) && !(rec.ending() == 'C' && !strcmp(name, "take_while")))
        SIM_CHECK(rec.ending() == sc.end, "no-throw", "%s: source ended %c, observer saw %s", name, sc.end, rec.str().c_str());
}
} // namespace

SIM_SCENARIO(operators, 4)
{
    unsigned    c = sim::param(NCASES, "case");
    Threads     th;
    Src         src;
    Boom        boom;
    Script      sc = random_script(100, 6, 0, 2);
    boom.at        = (int)sim::param_range(1, 7, "throwat");
    src.mode       = sim::flip("sync") ? Mode::Sync : Mode::Thread;
    src.yields     = sim::param(2, "srcyield");
    src.keep       = true;
    src.check_disposed = sim::param(3, "ignoredisp") != 1;
    src.rogue      = sim::param(5, "rogue") == 1;
    {
        Quiet q;
        src.name    = "src";
        src.threads = &th;
        src.scripts.push_back(sc);
    }
    Rec    rec;
    auto   d = rpp::composite_disposable_wrapper::make();
    Expect e;
    {
        Quiet q;
        e = cases[c].expect(boom, sc.values);
        sim::log("case %s", cases[c].name);
    }
    cases[c].build(&boom, src.dyn()).subscribe(d, observer(rec));
    sim::quiesce();
    th.join_all();
    sim::quiesce();
    judge(cases[c].name, rec, e, boom, src, sc);
    d.dispose();
    sim::quiesce();
    src.drop_kept();
}

// the observer's own on_next throws
SIM_SCENARIO(observer_callback, 1)
{
    Threads th;
    Src     src;
    Boom    boom;
    Script  sc = random_script(100, 6, 0, 2);
    boom.at    = (int)sim::param_range(1, 7, "throwat");
    src.mode   = sim::flip("sync") ? Mode::Sync : Mode::Thread;
    src.keep   = true;
    src.check_disposed = sim::param(3, "ignoredisp") != 1;
    {
        Quiet q;
        src.name    = "src";
        src.threads = &th;
        src.scripts.push_back(sc);
    }
    Rec  rec;
    auto d   = rpp::composite_disposable_wrapper::make();
    auto obs = [&] {
        return rpp::make_lambda_observer<int>([&](int v) { boom.hit(); rec.next(v); }, [&](const std::exception_ptr& e) { rec.error(e); }, [&] { rec.completed(); });
    };
    unsigned how = sim::param(5, "how");
    switch (how)
    {
    case 0: src.observable().subscribe(d, obs()); break;
    case 1: (src.observable() | rpp::ops::map([](int v) { return v; })).subscribe(d, obs()); break;
    case 2: (src.observable() | rpp::ops::merge_with(rpp::source::empty<int>())).subscribe(d, obs()); break;
    case 3: (src.observable() | rpp::ops::observe_on(rpp::schedulers::new_thread{})).subscribe(d, obs()); break;
    case 4:
    {
        rpp::subjects::serialized_publish_subject<int> s;
        s.get_observable().subscribe(d, obs());
        src.observable().subscribe(s.get_observer());
        sim::quiesce();
        th.join_all();
        break;
    }
    }
    sim::quiesce();
    th.join_all();
    sim::quiesce();
    {
        Quiet  q;
        Expect e = model(boom, sc.values, same);
        auto   got = rec.values();
        SIM_CHECK(got == e.v, "values", "on_next %u: expected %s but observer saw %s", how, str(e.v).c_str(), rec.str().c_str());
        if (e.thrown)
            SIM_CHECK(rec.ending() == 'E' && rec.error_code() == BOOM, "not-reported", "on_next: %s", rec.str().c_str());
        if (e.thrown && how != 4)
            for (auto& s : src.subs)
                SIM_CHECK(s.disposed == 1, "not-released", "on_next: upstream disposed %d times", s.disposed);
    }
    d.dispose();
    sim::quiesce();
    src.drop_kept();
}

// operators that subscribe again: the factory / subscribe function throws at the n-th subscription
SIM_SCENARIO(resubscription, 2)
{
    Boom     boom;
    unsigned how = sim::param(9, "how");
    boom.at      = (int)sim::param_range(1, 4, "throwat");
    Threads  th;
    bool     async = sim::flip("async");
    int      n     = 0;
    // every subscription emits its number and ends
    auto make = [&](char end) {
        return rpp::source::create<int>([&, end](auto&& obs) {
            boom.hit();
            int k;
            {
                Quiet q;
                k = ++n;
            }
            auto body = [k, end](const auto& obs) {
                obs.on_next(k);
                if (end == 'C')
                    obs.on_completed();
                else
                    obs.on_error(make_err(7));
            };
            if (async)
                th.spawn([body, o = std::forward<decltype(obs)>(obs).as_dynamic()] { body(o); });
            else
                body(obs);
        });
    };
    Rec  rec;
    auto d = rpp::composite_disposable_wrapper::make();
    auto C = make('C'), E = make('E');
    int  limit  = 3;      // how many subscriptions there would be
    char ending = 'C';
    std::exception_ptr escaped;
    try
    {
        switch (how)
        {
        case 0: (C | rpp::ops::repeat(3)).subscribe(d, observer(rec)); break;
        case 1: (E | rpp::ops::retry(2)).subscribe(d, observer(rec)); ending = 'E'; break;
        case 2: rpp::source::concat(C, C, C).subscribe(d, observer(rec)); break;
        case 3: (E | rpp::ops::on_error_resume_next([C](const std::exception_ptr&) { return C; })).subscribe(d, observer(rec)); limit = 2; break;
        case 4: (E | rpp::ops::retry_when([k = std::make_shared<int>(0)](const std::exception_ptr& e) { return ++*k < 3 ? rpp::source::just(rpp::schedulers::immediate{}, 1).as_dynamic() : rpp::source::error<int>(e).as_dynamic(); })).subscribe(d, observer(rec)); ending = 'E'; break;
        case 5: (rpp::source::just(rpp::schedulers::immediate{}, 1, 2, 3) | rpp::ops::map([C](int) { return C; }) | rpp::ops::concat()).subscribe(d, observer(rec)); break;
        case 6: (C | rpp::ops::start_with(C, C)).subscribe(d, observer(rec)); break;
        case 7: (C | rpp::ops::subscribe_on(rpp::schedulers::new_thread{})).subscribe(d, observer(rec)); limit = 1; break;
        case 8: (rpp::source::never<int>() | rpp::ops::timeout(ns{1000}, C, rpp::schedulers::new_thread{})).subscribe(d, observer(rec)); limit = 1; break;
        }
    }
    catch (...)
    {
        escaped = std::current_exception();
    }
    sim::quiesce();
    th.join_all();
    sim::quiesce();
    bool thrown = boom.at <= limit;
    {
        Quiet q;
        if (escaped)
        {
            // nobody but the caller of subscribe was there yet
            SIM_CHECK(boom.at == 1 && rec.ev.empty(), "escaped", "resubscription %u: exception at subscription %d left subscribe: %s", how, boom.at, rec.str().c_str());
        }
        else
        {
            std::vector<int> want;
            for (int i = 1; i <= limit && i != boom.at; ++i)
                want.push_back(i);
            SIM_CHECK(rec.values() == want, "values", "resubscription %u, throws at %d: %s", how, boom.at, rec.str().c_str());
            if (thrown)
            {
                // retry treats it as an error to retry
                SIM_CHECK(rec.ending() == 'E' && rec.error_code() == BOOM, "not-reported", "resubscription %u, throws at %d: %s", how, boom.at, rec.str().c_str());
            }
            else
                SIM_CHECK(rec.ending() == ending, "ending", "resubscription %u: %s", how, rec.str().c_str());
        }
    }
    d.dispose();
    sim::quiesce();
}

// a scheduled function throws: its handler gets the exception once, the function does not run again
SIM_SCENARIO(schedulers, 1)
{
    World       w((int)sim::param(NumScheds, "sched"));
    Boom        boom;
    Rec         rec;
    boom.at = (int)sim::param_range(1, 3, "throwat");
    unsigned    form = sim::param(3, "form");
    auto        d = rpp::composite_disposable_wrapper::make();
    unsigned    others = sim::param(3, "others");
    int         ran = 0;
    w.with([&](const auto& s) {
        auto worker = s.create_worker();
        auto h      = rpp::make_lambda_observer<int>(d, [&](int v) { rec.next(v); }, [&](const std::exception_ptr& e) { rec.error(e); }, [&] { rec.completed(); }).as_dynamic();
        worker.schedule(
            [&, form](const auto&) {
                boom.hit();
                if (form == 0)
                    return rpp::schedulers::optional_delay_from_now{};
                return rpp::schedulers::optional_delay_from_now{ns{form == 1 ? 0 : 1000}};
            },
            h);
        for (unsigned i = 0; i < others; ++i)
            worker.schedule([&](const auto&) { Quiet q; ++ran; return rpp::schedulers::optional_delay_from_now{}; }, rpp::make_lambda_observer<int>([](int) {}).as_dynamic());
        w.start_loop();
        if (form && boom.at > 3)
            d.dispose();
        w.settle(10 * 1000000);
    });
    {
        Quiet q;
        bool thrown = form || boom.at == 1;
        SIM_CHECK(boom.thrown == (thrown ? 1 : 0), "harness", "thrown %d", boom.thrown);
        SIM_CHECK(rec.ending() == (thrown ? 'E' : '-') && rec.ev.size() == (thrown ? 1 : 0), "not-reported", "%s: handler saw %s", sched_name(w.kind), rec.str().c_str());
        if (thrown)
            SIM_CHECK(boom.calls == boom.at && rec.error_code() == BOOM, "runs-again", "%s: function ran %d times after the throw", sched_name(w.kind), boom.calls - boom.at);
        SIM_CHECK(ran == (int)others, "lost", "%s: %d of %u other functions ran", sched_name(w.kind), ran, others);
    }
    d.dispose();
    w.finish();
}
