// Shared pieces of the harnesses: recording observers, scripted sources, producer threads.
#pragma once
#include "sim.hpp"

#include <rpp/rpp.hpp>

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace h
{
using sim::Quiet;
using Obs = rpp::dynamic_observable<int>;
using ns  = std::chrono::nanoseconds;
using us  = std::chrono::microseconds;

// ---------------------------------------------------------------------------------------------------------------------
struct Ev
{
    char     k; // N next, E error, C completed
    int      v;
    int64_t  t;
    uint32_t tid;
    uint64_t seq; // at entry
    uint64_t end; // at exit (0: still inside)
};

inline int err_code(const std::exception_ptr& e)
{
    Quiet q; // the reference count of exception objects is inside libstdc++.so, out of the race detector's sight
    try
    {
        std::rethrow_exception(e);
    }
    catch (const rpp::utils::more_disposables_than_expected& x)
    {
        sim::fail("internal-error", "the library passes an error of its own making to the observer: %s", x.what());
    }
    catch (const std::exception& x)
    {
        const char* s = x.what();
        if (s[0] == 'e' && s[1] == '#')
            return atoi(s + 2);
        return -1;
    }
    catch (...)
    {
    }
    return -2;
}
inline std::exception_ptr make_err(int code)
{
    char b[32];
    snprintf(b, sizeof b, "e#%d", code);
    return std::make_exception_ptr(std::runtime_error{b});
}
[[noreturn]] inline void throw_err(int code)
{
    char b[32];
    snprintf(b, sizeof b, "e#%d", code);
    throw std::runtime_error{b};
}

// Records what one observer sees and checks the parts of the contract that hold for every observer: no two calls at
// once, nothing after a terminal event, and every call's writes visible to the next call (race detector on `touched`).
struct Rec
{
    std::string      name;
    std::vector<Ev>  ev;
    int              in{};
    uint32_t         in_tid{};
    bool             term{};
    uint64_t         disp_ret{};      // when dispose() returned (0: not disposed by the scenario)
    unsigned         late{}, late_allowed{}; // deliveries begun after that; a delivery already past its check may finish
    bool             allow_reentrant{}; // same-thread nested calls are part of the scenario
    unsigned         yields{1};
    volatile int     touched{}; // deliberately plain: written by every callback
    int64_t          busy{};    // virtual CPU time spent in each callback
    std::function<void(const Ev&)> hook;

    explicit Rec(std::string n = "obs")
        : name(std::move(n))
    {
    }
    Rec(const Rec&) = delete;

    size_t enter(char k, int v)
    {
        Quiet q;
        if (in && in_tid != sim::tid())
            sim::fail("overlap", "%s: %c(%d) by T%u begins while T%u is still inside a callback", name.c_str(), k, v, sim::tid(), in_tid);
        if (in && !allow_reentrant)
            sim::fail("reentrant", "%s: %c(%d) delivered from inside another callback of the same observer", name.c_str(), k, v);
        if (term)
            sim::fail("after-terminal", "%s: %c(%d) delivered after the terminal event", name.c_str(), k, v);
        if (disp_ret && ++late > late_allowed)
            sim::fail("after-dispose", "%s: %c(%d) begins after dispose returned", name.c_str(), k, v);
        in++;
        in_tid = sim::tid();
        if (k != 'N')
            term = true;
        ev.push_back({k, v, sim::now(), sim::tid(), sim::seq(), 0});
        sim::log("%s %c %d", name.c_str(), k, v);
        return ev.size() - 1;
    }
    void leave(size_t i)
    {
        Quiet q;
        ev[i].end = sim::seq();
        in--;
    }
    void touch() { touched = touched + 1; }
    void run(char k, int v)
    {
        auto i = enter(k, v);
        struct Leave
        {
            Rec*   r;
            size_t i;
            ~Leave() { r->leave(i); }
        } guard{this, i};
        touch();
        if (busy)
            sim::advance_ns(busy);
        sim::yield(yields);
        if (hook)
        {
            Ev e;
            {
                Quiet q;
                e = ev[i];
            }
            hook(e);
        }
        touch();
    }
    void next(int v) { run('N', v); }
    void error(const std::exception_ptr& e) { run('E', err_code(e)); }
    void completed() { run('C', 0); }

    // ---- queries (call in quiet or at quiescence)
    std::vector<int> values() const
    {
        std::vector<int> r;
        for (auto& e : ev)
            if (e.k == 'N')
                r.push_back(e.v);
        return r;
    }
    char ending() const { return ev.empty() || ev.back().k == 'N' ? '-' : ev.back().k; }
    int  error_code() const { return ev.empty() ? 0 : ev.back().v; }
    std::string str() const
    {
        std::string s;
        for (auto& e : ev)
        {
            char b[32];
            if (e.k == 'N')
                snprintf(b, sizeof b, "%d ", e.v);
            else if (e.k == 'E')
                snprintf(b, sizeof b, "E#%d ", e.v);
            else
                snprintf(b, sizeof b, "| ");
            s += b;
        }
        return s;
    }
};

inline auto observer(Rec& r)
{
    return rpp::make_lambda_observer<int>([&r](int v) { r.next(v); }, [&r](const std::exception_ptr& e) { r.error(e); }, [&r]() { r.completed(); });
}
inline auto observer(Rec& r, const rpp::composite_disposable_wrapper& d)
{
    return rpp::make_lambda_observer<int>(d, [&r](int v) { r.next(v); }, [&r](const std::exception_ptr& e) { r.error(e); }, [&r]() { r.completed(); });
}

inline std::string str(const std::vector<int>& v)
{
    std::string s;
    for (int x : v)
        s += std::to_string(x) + " ";
    return s;
}

// ---------------------------------------------------------------------------------------------------------------------
// Threads started by the scenario or by asynchronous sources.
struct Threads
{
    std::deque<std::thread> th;
    size_t                  joined{};
    template<typename F>
    void spawn(F&& f)
    {
        std::thread t{std::forward<F>(f)};
        Quiet       q;
        th.push_back(std::move(t));
    }
    void join_all()
    {
        for (;;)
        {
            std::thread t;
            {
                Quiet q;
                if (joined == th.size())
                    return;
                t = std::move(th[joined++]);
            }
            t.join();
        }
    }
    ~Threads() { join_all(); }
};

// ---------------------------------------------------------------------------------------------------------------------
// A scripted cold source. Every subscription gets its own attempt number; the script of an attempt is fixed up front.
struct Script
{
    std::vector<int> values;
    char             end = 'C'; // C completed, E error, '-' never ends
    int              err = 0;
    std::vector<int64_t> gaps{}; // virtual time before value i (last: before the end); empty: Src::gap
};

enum class Mode
{
    Sync,   // emits inside subscribe
    Thread, // a thread started at subscription emits
    Hold,   // keeps the observer; the scenario drives it through Src::drive
};

struct Emit
{
    int      v;
    uint64_t b, r; // on_next call begins / has returned (0: not yet)
    int64_t  bt{}, rt{};
};
struct SubInfo
{
    int               attempt{};
    int               disposed{};
    uint64_t          sub_seq{}, disp_seq{}, term_b{}, term_r{}; // terminal call begins / has returned
    char              term{'-'};
    int               err{};
    std::deque<Emit>  emits;
    uint32_t          sub_tid{};
    int64_t           sub_t{}, disp_t{}, term_bt{}, term_rt{};
};

struct Src
{
    std::string                  name;
    Mode                         mode{Mode::Sync};
    std::vector<Mode>                modes;                // mode of attempt i (empty: `mode`)
    std::vector<Script>          scripts; // script of attempt i (last one is reused)
    Threads*                     threads{};
    std::deque<SubInfo>          subs;
    bool                         check_disposed{true}; // stop when observer.is_disposed()
    bool                         rogue{};              // keeps calling after its terminal event
    unsigned                     yields{};
    int64_t                      gap{};                // virtual time between events (thread mode)
    int                          active{}, max_active{};
    bool                             keep{};               // a script without end keeps its observer alive until drop_kept()
    bool                             keep_all{};           // the observer is kept however the script ends
    std::deque<std::pair<SubInfo*, rpp::dynamic_observer<int>>> kept;
    std::function<void(SubInfo&)> on_sub, on_end;

    Src() = default;
    Src(const Src&) = delete;

    const Script& script(int attempt) const { return scripts[std::min<size_t>((size_t)attempt, scripts.size() - 1)]; }

    int64_t gap_of(const Script& sc, size_t i) const { return sc.gaps.empty() ? gap : i < sc.gaps.size() ? sc.gaps[i] : 0; }

    template<typename O>
    void emit(O& o, SubInfo* si)
    {
        const Script* sc;
        {
            Quiet q;
            sc = &script(si->attempt);
        }
        for (size_t i = 0;; ++i)
        {
            int v = 0;
            {
                Quiet q;
                if (i >= sc->values.size())
                    break;
                v = sc->values[i];
            }
            if (int64_t g = gap_of(*sc, i))
                sim::sleep_ns(g);
            sim::yield(yields);
            if (check_disposed && o.is_disposed())
                return;
            Emit* em;
            {
                Quiet q;
                si->emits.push_back({v, sim::seq(), 0, sim::now(), 0});
                sim::log("%s emits %d", name.c_str(), v);
                em = &si->emits.back();
            }
            o.on_next(v);
            {
                Quiet q;
                em->r  = sim::seq();
                em->rt = sim::now();
            }
        }
        if (int64_t g = gap_of(*sc, sc->values.size()); g && sc->end != '-')
            sim::sleep_ns(g);
        sim::yield(yields);
        for (int rep = 0; rep < (rogue ? 2 : 1); ++rep)
        {
            char end;
            int  code;
            {
                Quiet q;
                end = sc->end;
                code = sc->err;
                if (end != '-' && !rep)
                {
                    si->term   = end;
                    si->err    = code;
                    si->term_b  = sim::seq();
                    si->term_bt = sim::now();
                    sim::log("%s ends %c", name.c_str(), end);
                    if (on_end)
                        on_end(*si);
                }
            }
            if (end == 'C')
                o.on_completed();
            else if (end == 'E')
                o.on_error(make_err(code));
            if (end != '-' && !rep)
            {
                Quiet q;
                si->term_r  = sim::seq();
                si->term_rt = sim::now();
            }
            if (rogue && end != '-')
                o.on_next(-77);
        }
    }

    template<typename O>
    void keep_observer(SubInfo* si, O&& o)
    {
        if (!keep_all && (!keep || script(si->attempt).end != '-'))
            return;
        auto  d = std::forward<O>(o).as_dynamic();
        Quiet q;
        kept.emplace_back(si, std::move(d));
    }
    void drop_kept()
    {
        for (;;)
        {
            std::optional<rpp::dynamic_observer<int>> o;
            {
                Quiet q;
                if (kept.empty())
                    return;
                o.emplace(std::move(kept.front().second));
                kept.pop_front();
            }
        }
    }
    // at quiescence: a source that holds on to its observer can see that nobody listens any more
    void check_visible(const char* what)
    {
        for (size_t i = 0; i < kept.size(); ++i)
        {
            bool disposed = kept[i].second.is_disposed();
            SIM_CHECK(disposed || !kept[i].first->disposed, "not-visible", "%s: %s has been disposed but its observer does not tell", what, name.c_str());
        }
    }
    // at quiescence: a subscription that came to its end has been released
    void check_ended(const char* what)
    {
        Quiet q;
        for (auto& s : subs)
            SIM_CHECK(s.term == '-' || s.disposed == 1, "not-released", "%s: attempt %d of %s has ended but was disposed %d times", what, s.attempt, name.c_str(), s.disposed);
    }
    auto observable()
    {
        return rpp::source::create<int>([this](auto&& obs) {
            SubInfo* si;
            {
                Quiet q;
                subs.push_back({});
                si          = &subs.back();
                si->attempt = (int)subs.size() - 1;
                si->sub_seq = sim::seq();
                si->sub_tid = sim::tid();
                si->sub_t   = sim::now();
                active++;
                max_active = std::max(max_active, active);
                sim::log("%s subscribed (attempt %d)", name.c_str(), si->attempt);
                if (on_sub)
                    on_sub(*si);
            }
            obs.set_upstream(rpp::make_callback_disposable([this, si]() noexcept {
                Quiet q;
                si->disposed++;
                si->disp_seq = sim::seq();
                si->disp_t   = sim::now();
                active--;
                sim::log("%s disposed (attempt %d)", name.c_str(), si->attempt);
            }));
            Mode m;
            {
                Quiet q;
                m = modes.empty() ? mode : modes[std::min<size_t>((size_t)si->attempt, modes.size() - 1)];
            }
            if (m == Mode::Sync)
            {
                emit(obs, si);
                keep_observer(si, std::forward<decltype(obs)>(obs));
            }
            else if (m == Mode::Thread)
                threads->spawn([this, si, o = std::forward<decltype(obs)>(obs).as_dynamic()]() mutable {
                    emit(o, si);
                    keep_observer(si, std::move(o));
                });
        });
    }
    Obs dyn() { return observable().as_dynamic(); }

    void check_released()
    {
        Quiet q;
        for (auto& s : subs)
            SIM_CHECK(s.disposed == 1, "not-released", "%s: upstream disposable of attempt %d disposed %d times", name.c_str(), s.attempt, s.disposed);
    }
};

inline Script random_script(int base, unsigned maxn, unsigned err_permille_of_10 = 2, unsigned never_of_10 = 0)
{
    Script   s;
    unsigned n = sim::param(maxn + 1, "nvals");
    Quiet    q;
    for (unsigned i = 0; i < n; ++i)
        s.values.push_back(base + (int)i);
    unsigned e = sim::param(10, "ending");
    s.end      = e >= 10 - err_permille_of_10 ? 'E' : e >= 10 - err_permille_of_10 - never_of_10 ? '-' : 'C';
    s.err      = base;
    return s;
}

inline bool is_prefix(const std::vector<int>& a, const std::vector<int>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
inline bool is_subsequence(const std::vector<int>& a, const std::vector<int>& b)
{
    size_t i = 0;
    for (int x : b)
        if (i < a.size() && a[i] == x)
            ++i;
    return i == a.size();
}
} // namespace h
