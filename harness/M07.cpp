// retry, repeat, retry_when, on_error_resume_next: the sequence of attempts and their values.
#include "multi.hpp"
using namespace h;

struct Expect
{
    std::vector<int> values;
    size_t           attempts{};
    char             end{'-'};
    int              err{};
};

static void fill(Src& s, Threads& th, unsigned k, unsigned again_of_10, char again, const char* nm, int base, bool never = true)
{
    for (unsigned a = 0; a < k; ++a)
    {
        unsigned n = sim::param(4, "nvals"), e = sim::param(10, "ending"), m = sim::param(2, "mode");
        Quiet    q;
        Script   sc;
        for (unsigned i = 0; i < n; ++i)
            sc.values.push_back(base + 100 * (int)(a + 1) + (int)i);
        sc.end = e < again_of_10 ? again : e == 9 && never ? '-' : again == 'E' ? 'C' : 'E';
        sc.err = base + 100 * (int)(a + 1);
        s.scripts.push_back(sc);
        s.modes.push_back(m ? Mode::Thread : Mode::Sync);
    }
    s.yields         = sim::param(3, "srcyield");
    s.rogue          = sim::param(6, "rogue") == 1;
    s.check_disposed = !sim::param(3, "ignoredisp");
    Quiet q;
    s.name    = nm;
    s.threads = &th;
}
static void judge(Rec& rec, const Expect& x, std::deque<SubInfo>& att, uint64_t disp_b, uint64_t disp_r)
{
    const char* n   = rec.name.c_str();
    auto        got = rec.values();
    SIM_CHECK(is_prefix(got, x.values), "values", "%s expected %s but received %s", n, str(x.values).c_str(), rec.str().c_str());
    SIM_CHECK(att.size() <= x.attempts, "extra-attempt", "%s: %zu attempts, expected %zu", n, att.size(), x.attempts);
    unsigned late = 0;
    for (size_t a = 1; a < att.size(); ++a)
    {
        SIM_CHECK(att[a - 1].term != '-' && att[a - 1].term_b < att[a].sub_seq, "two-active", "%s: attempt %zu subscribed while the previous one is active", n, a);
        late += disp_r && att[a].sub_seq > disp_r;
    }
    SIM_CHECK(late <= 1, "after-dispose", "%s: %u attempts begun after dispose returned", n, late);
    if (rec.ending() != '-')
        SIM_CHECK(rec.ending() == x.end && (x.end == 'C' || rec.error_code() == x.err) && got == x.values, "wrong-end", "%s expected %s%c%d but received %s", n, str(x.values).c_str(), x.end, x.err, rec.str().c_str());
    if (!disp_b)
    {
        SIM_CHECK(got == x.values, "lost", "%s expected %s but received %s", n, str(x.values).c_str(), rec.str().c_str());
        SIM_CHECK(att.size() == x.attempts, "lost-attempt", "%s: %zu attempts, expected %zu", n, att.size(), x.attempts);
        SIM_CHECK(rec.ending() == x.end, "wrong-end", "%s expected end %c but received %s", n, x.end, rec.str().c_str());
    }
    if (disp_b || rec.ending() != '-')
        for (auto& a : att)
            SIM_CHECK(a.disposed == 1, "not-released", "%s: attempt %d disposed %d times", n, a.attempt, a.disposed);
}
// runs f(observer-with-disposable) with an optional disposing thread; returns dispose begin/return
template<typename F>
static std::pair<uint64_t, uint64_t> drive(Rec& rec, Threads& th, F&& f)
{
    auto     d = rpp::composite_disposable_wrapper::make();
    uint64_t b = 0, r = 0;
    rec.yields       = sim::param(3, "yields");
    rec.late_allowed = 1;
    if (sim::param(3, "dispose") == 1)
        th.spawn([&rec, &b, &r, d, y = sim::param(60, "when")] {
            sim::yield(y);
            {
                Quiet q;
                b = sim::seq();
                sim::log("dispose");
            }
            d.dispose();
            Quiet q;
            r = rec.disp_ret = sim::seq();
        });
    f(d);
    th.join_all();
    return {b, r};
}

SIM_SCENARIO(retry, 3)
{
    Rec      rec;
    Src      src;
    Expect   x;
    Threads  th;
    unsigned n = sim::param(5, "count"), inf = sim::param(2, "infinite");
    fill(src, th, sim::param_range(1, 5, "scripts"), 7, 'E', "src", 0);
    {
        Quiet q;
        if (inf && src.scripts.back().end == 'E')
            src.scripts.back().end = 'C';
        for (size_t a = 0;; ++a)
        {
            auto& sc = src.script((int)a);
            x.attempts++;
            x.values.insert(x.values.end(), sc.values.begin(), sc.values.end());
            x.end = sc.end;
            x.err = sc.err;
            if (sc.end != 'E' || (!inf && a >= n))
                break;
        }
    }
    auto [b, r] = drive(rec, th, [&](auto& d) {
        if (inf)
            src.observable() | rpp::ops::retry() | rpp::ops::subscribe(observer(rec, d));
        else
            src.observable() | rpp::ops::retry(n) | rpp::ops::subscribe(observer(rec, d));
    });
    Quiet q;
    judge(rec, x, src.subs, b, r);
}
SIM_SCENARIO(repeat, 3)
{
    Rec      rec;
    Src      src;
    Expect   x;
    Threads  th;
    unsigned n = sim::param(6, "count"), inf = sim::param(2, "infinite");
    fill(src, th, sim::param_range(1, 5, "scripts"), 7, 'C', "src", 0);
    {
        Quiet q;
        if (inf && src.scripts.back().end == 'C')
            src.scripts.back().end = 'E';
        if (!inf && !n)
            x.end = 'C';
        else
            for (size_t a = 0;; ++a)
            {
                auto& sc = src.script((int)a);
                x.attempts++;
                x.values.insert(x.values.end(), sc.values.begin(), sc.values.end());
                x.end = sc.end;
                x.err = sc.err;
                if (sc.end != 'C' || (!inf && a + 1 >= n))
                    break;
            }
    }
    auto [b, r] = drive(rec, th, [&](auto& d) {
        if (inf)
            src.observable() | rpp::ops::repeat() | rpp::ops::subscribe(observer(rec, d));
        else
            src.observable() | rpp::ops::repeat(n) | rpp::ops::subscribe(observer(rec, d));
    });
    Quiet q;
    judge(rec, x, src.subs, b, r);
}
SIM_SCENARIO(retry_when, 3)
{
    Rec     rec;
    Src     src, note;
    Expect  x;
    Threads th;
    fill(src, th, sim::param_range(1, 5, "scripts"), 7, 'E', "src", 0);
    fill(note, th, sim::param_range(1, 5, "notifiers"), 5, 'C', "note", 5000);
    int      throw_at = (int)sim::param(8, "throw_at") - 1; // the notifier factory throws at this failure
    unsigned failures = 0;
    {
        Quiet q;
        if (src.scripts.back().end == 'E')
            src.scripts.back().end = 'C';
        int f = 0;
        for (size_t a = 0;; ++a)
        {
            auto& sc = src.script((int)a);
            x.attempts++;
            x.values.insert(x.values.end(), sc.values.begin(), sc.values.end());
            x.end = sc.end;
            x.err = sc.err;
            if (sc.end != 'E')
                break;
            if (f == throw_at)
            {
                x.err = 7777;
                break;
            }
            auto& nt = note.script(f++);
            if (!nt.values.empty())
                continue;
            x.end = nt.end;
            x.err = nt.err;
            break;
        }
    }
    auto [b, r] = drive(rec, th, [&](auto& d) {
        src.observable() | rpp::ops::retry_when([&, throw_at](const std::exception_ptr& e) {
            bool boom;
            {
                Quiet q;
                SIM_CHECK(err_code(e) == src.subs.back().err, "wrong-error", "notifier factory got %d", err_code(e));
                boom = (int)failures++ == throw_at;
            }
            if (boom)
                throw_err(7777);
            return note.observable();
        }) | rpp::ops::subscribe(observer(rec, d));
    });
    Quiet q;
    judge(rec, x, src.subs, b, r);
    if (b || rec.ending() != '-')
        for (auto& a : note.subs)
            SIM_CHECK(a.disposed == 1, "not-released", "notifier %d disposed %d times", a.attempt, a.disposed);
}
SIM_SCENARIO(on_error_resume_next, 2)
{
    Rec     rec;
    Src     src, fb;
    Expect  x;
    Threads th;
    fill(src, th, 1, 7, 'E', "src", 0);
    fill(fb, th, 1, 4, 'E', "fallback", 5000);
    bool boom = sim::param(6, "throws") == 1;
    {
        Quiet q;
        auto& sc = src.script(0);
        x.attempts = 1;
        x.values = sc.values;
        x.end = sc.end;
        x.err = sc.err;
        if (sc.end == 'E')
        {
            if (boom)
                x.err = 7777;
            else
            {
                auto& f = fb.script(0);
                x.values.insert(x.values.end(), f.values.begin(), f.values.end());
                x.end = f.end;
                x.err = f.err;
            }
        }
    }
    unsigned calls = 0;
    auto [b, r] = drive(rec, th, [&](auto& d) {
        src.observable() | rpp::ops::on_error_resume_next([&](const std::exception_ptr& e) {
            {
                Quiet q;
                calls++;
                SIM_CHECK(err_code(e) == src.subs.back().err, "wrong-error", "selector got %d", err_code(e));
            }
            if (boom)
                throw_err(7777);
            return fb.observable();
        }) | rpp::ops::subscribe(observer(rec, d));
    });
    Quiet q;
    judge(rec, x, src.subs, b, r);
    bool due = src.subs.size() && src.subs[0].term == 'E' && !boom;
    SIM_CHECK(calls <= 1 && fb.subs.size() <= 1 && (b || fb.subs.size() == (due ? 1u : 0u)), "extra-attempt", "fallback subscribed %zu times, selector called %u times", fb.subs.size(), calls);
    if (b || rec.ending() != '-')
        for (auto& a : fb.subs)
            SIM_CHECK(a.disposed == 1, "not-released", "fallback disposed %d times", a.disposed);
}
// many synchronous attempts: the stack must not grow with their number
SIM_SCENARIO(depth, 1)
{
    Rec      rec;
    unsigned kind = sim::param(3, "kind"), n = 40 + sim::param(100, "n");
    uintptr_t lo = UINTPTR_MAX, hi = 0;
    unsigned  k  = 0;
    auto      src = rpp::source::create<int>([&](auto&& o) {
        {
            Quiet q;
            volatile char c  = 0;
            uintptr_t     at = (uintptr_t)&c;
            lo               = std::min(lo, at);
            hi               = std::max(hi, at);
            k++;
        }
        o.on_next((int)k);
        if (kind == 1)
            o.on_completed();
        else if (k < n)
            o.on_error(make_err(1));
        else
            o.on_completed();
    });
    if (kind == 0)
        src | rpp::ops::retry() | rpp::ops::subscribe(observer(rec));
    else if (kind == 1)
        src | rpp::ops::repeat(n) | rpp::ops::subscribe(observer(rec));
    else
        src | rpp::ops::retry_when([](const std::exception_ptr&) { return rpp::source::just(1); }) | rpp::ops::subscribe(observer(rec));
    Quiet q;
    SIM_CHECK(k == n && rec.values().size() == n && rec.ending() == 'C', "lost-attempt", "%u attempts of %u, end %c", k, n, rec.ending());
    SIM_CHECK(hi - lo < 4096, "recursion", "stack grew by %zu bytes over %u synchronous attempts", (size_t)(hi - lo), n);
}
