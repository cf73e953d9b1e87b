// REAL: rpp operators take, skip, take_while, take_last, first, last, element_at, filter, map, scan, reduce, distinct, distinct_until_changed, buffer, window, start_with, tap, finally; rpp::source::create
// STUB: none
// Chains of single-source operators against a push-based executable model, per subscription of one shared observable.
#include "common.hpp"
#include "many.hpp"
using namespace h;

namespace
{
constexpr int MOVED = -5000;

// A value that shows when it is used after having been moved from.
struct Tok
{
    int v{MOVED};
    Tok() = default;
    Tok(int x) : v(x) {}
    Tok(const Tok&) = default;
    Tok(Tok&& o) noexcept : v(o.v) { o.v = MOVED; }
    Tok& operator=(const Tok&) = default;
    Tok& operator=(Tok&& o) noexcept
    {
        int x = o.v;
        o.v   = MOVED;
        v     = x;
        return *this;
    }
    bool operator==(const Tok& o) const { return v == o.v; }
};
using TObs = rpp::dynamic_observable<Tok>;
} // namespace
template<>
struct std::hash<Tok>
{
    size_t operator()(const Tok& t) const { return (size_t)t.v % 3; }
};
namespace
{
// ---- the script and what one subscription has seen
struct Script
{
    std::vector<int> v;
    char             end{'C'};
};
struct SideEv
{
    char k;
    int  v;
    bool operator==(const SideEv&) const = default;
};
struct Sub
{
    Rec                                 rec;
    rpp::composite_disposable_wrapper   d = rpp::composite_disposable_wrapper::make();
    std::map<int, std::vector<SideEv>>  taps;     // by stage
    std::map<int, std::vector<SideEv>>  windows;  // how the windows of a stage ended
    std::map<int, int>                  finals;   // by stage
    std::map<int, bool>                 final_late;
    unsigned                            subscribed{};
    bool                                all_sent{};
    explicit Sub(const std::string& n) : rec(n) {}
};

struct World
{
    Script               script;
    bool                 async{}, checks_disposed{};
    unsigned             forms[16]{};
    std::map<uint32_t, Sub*> by_thread;
    Threads              th;
    std::string          desc;

    Sub* cur()
    {
        auto it = by_thread.find(sim::tid());
        return it == by_thread.end() ? nullptr : it->second;
    }
    template<typename O>
    void emit(const O& obs)
    {
        for (size_t i = 0; i < script.v.size(); ++i)
        {
            if (checks_disposed && obs.is_disposed())
                return;
            sim::yield(1);
            int x = script.v[i];
            switch (forms[i])
            {
            case 0: obs.on_next(Tok{x}); break;
            case 1:
            {
                const Tok t{x};
                obs.on_next(t);
                SIM_CHECK(t.v == x, "lvalue-changed", "%s: a value passed by const reference was changed", desc.c_str());
                break;
            }
            default:
            {
                Tok t{x};
                obs.on_next(t);
                SIM_CHECK(t.v == x, "lvalue-changed", "%s: a value passed as an lvalue was moved from", desc.c_str());
                break;
            }
            }
        }
        {
            Quiet q;
            if (auto* s = cur())
                s->all_sent = true;
        }
        sim::yield(1);
        if (script.end == 'C')
            obs.on_completed();
        else if (script.end == 'E')
            obs.on_error(make_err(31));
    }
    TObs source()
    {
        return rpp::source::create<Tok>([this](auto&& obs) {
                   Sub* s;
                   {
                       Quiet q;
                       s = cur();
                       if (s)
                           s->subscribed++;
                   }
                   if (!async)
                       return emit(obs);
                   th.spawn([this, s, o = std::forward<decltype(obs)>(obs)]() mutable {
                       {
                           Quiet q;
                           by_thread[sim::tid()] = s;
                       }
                       emit(o);
                   });
               })
            .as_dynamic();
    }
    void tap(int stage, char k, int v)
    {
        Quiet q;
        if (auto* s = cur())
            s->taps[stage].push_back({k, v});
    }
    void window(int stage, char k, int v)
    {
        Quiet q;
        if (auto* s = cur())
            s->windows[stage].push_back({k, v});
    }
    // finally runs on whatever thread disposes; that is the subscription's own thread or the disposing one
};

// ---- reference model: a chain of stages; events are pushed through, a stopped chain passes nothing
struct Model;
struct Stage
{
    Model* m{};
    Stage* down{};
    int    index{};
    bool   ended{};
    virtual ~Stage() = default;
    virtual bool init() { return true; } // what happens at subscription; false: the stages above are not subscribed
    virtual void next(int v)  = 0;
    virtual void error(int e) { emit_err(e); }
    virtual void completed() { emit_end(); }
    void         emit(int v);
    void         emit_err(int e);
    void         emit_end();
};
struct Model
{
    std::vector<std::unique_ptr<Stage>> stages; // source side first
    std::vector<SideEv>                 out;
    std::map<int, std::vector<SideEv>>  taps, windows;
    std::vector<int>                    finals; // stages with a finally that was subscribed
    unsigned                            dispose_at{}; // observer disposes inside its n-th callback
    bool                                stopped{}, reached_source{};
    bool                                free{}; // what the stages do when nobody disposes anything
    struct Sink : Stage
    {
        void put(char k, int v)
        {
            m->out.push_back({k, v});
            if ((k != 'N' || m->out.size() == m->dispose_at) && !m->free)
                m->stopped = true;
        }
        void next(int v) override { put('N', v); }
        void error(int e) override { put('E', e); }
        void completed() override { put('C', 0); }
    } sink;

    void run(const Script& s)
    {
        sink.m = this;
        for (size_t i = 0; i < stages.size(); ++i)
        {
            stages[i]->m     = this;
            stages[i]->index = (int)i;
            stages[i]->down  = i + 1 < stages.size() ? stages[i + 1].get() : &sink;
        }
        for (size_t i = stages.size(); i-- > 0;)
            if (!stages[i]->init())
                return;
        reached_source = !stopped;
        Stage* first   = stages.empty() ? &sink : stages[0].get();
        for (int v : s.v)
            if (!stopped)
                first->next(v);
        if (stopped)
            return;
        if (s.end == 'C')
            first->completed();
        else if (s.end == 'E')
            first->error(31);
    }
};
void Stage::emit(int v)
{
    if (!m->stopped && !ended)
        down->next(v);
}
void Stage::emit_err(int e)
{
    if (!m->stopped && !std::exchange(ended, true))
        down->error(e);
}
void Stage::emit_end()
{
    if (!m->stopped && !std::exchange(ended, true))
        down->completed();
}

int  fold(int a, int v) { return (a * 7 + v) % 1000; }
bool odd3(int v) { return v % 3 != 1; }
bool not4(int v) { return v % 5 != 4; }
bool close(int a, int b) { return a / 2 == b / 2; }

struct MTake : Stage
{
    size_t n;
    explicit MTake(size_t k) : n(k) {}
    void next(int v) override
    {
        if (n)
        {
            --n;
            emit(v);
        }
        if (!n)
            emit_end();
    }
};
struct MSkip : Stage
{
    size_t n;
    explicit MSkip(size_t k) : n(k) {}
    void next(int v) override
    {
        if (n)
            --n;
        else
            emit(v);
    }
};
struct MTakeWhile : Stage
{
    void next(int v) override { not4(v) ? emit(v) : emit_end(); }
};
struct MFilter : Stage
{
    void next(int v) override
    {
        if (odd3(v))
            emit(v);
    }
};
struct MMap : Stage
{
    void next(int v) override { emit((v + 3) % 11); }
};
struct MTakeLast : Stage
{
    size_t          n;
    std::deque<int> q;
    explicit MTakeLast(size_t k) : n(k) {}
    void next(int v) override
    {
        q.push_back(v);
        if (q.size() > n)
            q.pop_front();
    }
    void completed() override
    {
        for (int v : q)
            emit(v);
        emit_end();
    }
};
struct MFirst : Stage
{
    void next(int v) override
    {
        emit(v);
        emit_end();
    }
    void completed() override { emit_err(-1); }
};
struct MLast : Stage
{
    std::optional<int> l;
    void               next(int v) override { l = v; }
    void               completed() override
    {
        if (!l)
            return emit_err(-1);
        emit(*l);
        emit_end();
    }
};
struct MElementAt : Stage
{
    size_t left;
    explicit MElementAt(size_t i) : left(i) {}
    void next(int v) override
    {
        if (left--)
            return;
        emit(v);
        emit_end();
    }
    void completed() override { emit_err(-1); }
};
struct MScan : Stage
{
    std::optional<int> s;
    bool               seeded;
    explicit MScan(bool seed) : seeded(seed)
    {
        if (seed)
            s = 1;
    }
    bool init() override
    {
        if (seeded)
            emit(*s);
        return true;
    }
    void next(int v) override
    {
        s = s ? fold(*s, v) : v;
        emit(*s);
    }
};
struct MReduce : Stage
{
    std::optional<int> s;
    explicit MReduce(bool seed)
    {
        if (seed)
            s = 1;
    }
    void next(int v) override { s = s ? fold(*s, v) : v; }
    void completed() override
    {
        if (s)
            emit(*s);
        emit_end();
    }
};
struct MDistinct : Stage
{
    std::vector<int> seen;
    void             next(int v) override
    {
        if (std::find(seen.begin(), seen.end(), v) != seen.end())
            return;
        seen.push_back(v);
        emit(v);
    }
};
struct MDuc : Stage
{
    bool               custom;
    std::optional<int> l;
    explicit MDuc(bool c) : custom(c) {}
    void next(int v) override
    {
        if (l && (custom ? close(*l, v) : *l == v))
            return;
        l = v;
        emit(v);
    }
};
struct MGroups : Stage // buffer and window, folded
{
    size_t           n;
    std::vector<int> b;
    bool             window;
    explicit MGroups(size_t k, bool w = false) : n(std::max<size_t>(1, k)), window(w) {}
    void ended(char k, int v)
    {
        if (window && !m->stopped && !b.empty())
            m->windows[index].push_back({k, v});
    }
    void flush()
    {
        ended('C', 0);
        int a = (int)b.size();
        for (int v : b)
            a = fold(a, v);
        b.clear();
        emit(a);
    }
    void next(int v) override
    {
        b.push_back(v);
        if (b.size() == n)
            flush();
    }
    void error(int e) override
    {
        ended('E', e);
        emit_err(e);
    }
    void completed() override
    {
        if (!b.empty())
            flush();
        emit_end();
    }
};
struct MStart : Stage
{
    std::vector<int> v;
    explicit MStart(std::vector<int> x) : v(std::move(x)) {}
    bool init() override
    {
        for (int x : v)
            emit(x);
        return !m->stopped;
    }
    void next(int x) override { emit(x); }
};
struct MTap : Stage
{
    void put(char k, int v) { m->taps[index].push_back({k, v}); }
    void next(int v) override
    {
        put('N', v);
        emit(v);
    }
    void error(int e) override
    {
        put('E', e);
        emit_err(e);
    }
    void completed() override
    {
        put('C', 0);
        emit_end();
    }
};
struct MFinally : Stage
{
    bool init() override
    {
        if (!m->stopped)
            m->finals.push_back(index);
        return true;
    }
    void next(int v) override { emit(v); }
};

// ---- the operators themselves, generic in the observable's type
namespace o = rpp::ops;
auto op_map()
{
    return o::map([](const Tok& t) { return Tok{(t.v + 3) % 11}; });
}
auto op_map_rv()
{
    return o::map([](Tok t) { Tok k = std::move(t); return Tok{(k.v + 3) % 11}; });
}
auto op_filter()
{
    return o::filter([](const Tok& t) { return odd3(t.v); });
}
auto op_take_while()
{
    return o::take_while([](const Tok& t) { return not4(t.v); });
}
auto op_scan_seed()
{
    return o::scan(Tok{1}, [](Tok&& a, const Tok& v) { Tok k = std::move(a); return Tok{fold(k.v, v.v)}; });
}
auto op_scan()
{
    return o::scan([](Tok&& a, const Tok& v) { Tok k = std::move(a); return Tok{fold(k.v, v.v)}; });
}
auto op_reduce_seed()
{
    return o::reduce(Tok{1}, [](Tok&& a, const Tok& v) { Tok k = std::move(a); return Tok{fold(k.v, v.v)}; });
}
auto op_reduce()
{
    return o::reduce([](Tok&& a, Tok v) { Tok k = std::move(a); return Tok{fold(k.v, v.v)}; });
}
auto op_duc_custom()
{
    return o::distinct_until_changed([](const Tok& a, const Tok& b) { return close(a.v, b.v); });
}
auto op_fold_vec()
{
    return o::map([](const std::vector<Tok>& b) {
        int a = (int)b.size();
        for (auto& t : b)
            a = fold(a, t.v);
        return Tok{a};
    });
}
auto op_fold_vec_rv()
{
    return o::map([](std::vector<Tok> x) {
        auto b = std::move(x);
        int  a = (int)b.size();
        for (auto& t : b)
            a = fold(a, t.v);
        return Tok{a};
    });
}
// keeps the values and leaves a bigger vector in their place
auto op_fold_vec_swap(size_t room)
{
    return o::map([room](std::vector<Tok>&& x) {
        std::vector<Tok> b;
        b.reserve(room);
        b.swap(x);
        int a = (int)b.size();
        for (auto& t : b)
            a = fold(a, t.v);
        return Tok{a};
    });
}
struct WAcc
{
    int              n{};
    std::vector<int> v;
};
auto op_fold_win(World* world, int stage)
{
    return o::flat_map([world, stage](const auto& w) {
        return w | o::tap([](const Tok&) {}, [world, stage](const std::exception_ptr& e) { world->window(stage, 'E', err_code(e)); }, [world, stage] { world->window(stage, 'C', 0); })
             | o::reduce(std::vector<int>{}, [](std::vector<int>&& a, const Tok& t) { auto b = std::move(a); b.push_back(t.v); return b; })
             | o::map([](const std::vector<int>& b) {
                   int a = (int)b.size();
                   for (int t : b)
                       a = fold(a, t);
                   return Tok{a};
               });
    });
}
auto op_tap(World* w, int stage)
{
    return o::tap([w, stage](const Tok& t) { w->tap(stage, 'N', t.v); }, [w, stage](const std::exception_ptr& e) { w->tap(stage, 'E', err_code(e)); }, [w, stage] { w->tap(stage, 'C', 0); });
}
struct Fin
{
    World* w;
    int    stage;
    void   operator()() const noexcept
    {
        Quiet q;
        auto* s = w->cur();
        SIM_CHECK(s, "finally-thread", "%s: finally callback on a thread that neither emits nor disposes", w->desc.c_str());
        s->finals[stage]++;
    }
};
auto op_finally(World* w, int stage)
{
    return o::finally(Fin{w, stage});
}

using MS = std::vector<std::unique_ptr<Stage>>;
using MakeModel = std::function<void(MS&)>;
constexpr unsigned N_OPS = 25;

TObs apply(unsigned op, unsigned n, World* w, int stage, TObs in, std::vector<std::function<Stage*()>>& model)
{
    char b[40];
    auto note = [&](const char* s) {
        Quiet q;
        snprintf(b, sizeof b, "|%s(%u)", s, n);
        w->desc += b;
    };
    // an operator object can be applied to several observables
    bool twice = sim::param(4, "operator applied before") == 1;
    auto as    = [&](const char* name, const auto& op, std::function<Stage*()> f) {
        note(name);
        model.push_back(std::move(f));
        if (twice)
        {
            auto other = in | op;
            (void)other;
        }
        return TObs{(in | op).as_dynamic()};
    };
    auto then = [](const auto& a, const auto& b) { return [a, b](const auto& obs) { return obs | a | b; }; };
    switch (op)
    {
    default:
    case 0: return as("take", o::take(n), [n] { return new MTake(n); });
    case 1: return as("skip", o::skip(n), [n] { return new MSkip(n); });
    case 2: return as("take_while", op_take_while(), [] { return new MTakeWhile; });
    case 3: return as("take_last", o::take_last(n), [n] { return new MTakeLast(n); });
    case 4: return as("first", o::first(), [] { return new MFirst; });
    case 5: return as("last", o::last(), [] { return new MLast; });
    case 6: return as("element_at", o::element_at(n), [n] { return new MElementAt(n); });
    case 7: return as("filter", op_filter(), [] { return new MFilter; });
    case 8: return as("map", op_map(), [] { return new MMap; });
    case 9: return as("scan-seed", op_scan_seed(), [] { return new MScan(true); });
    case 10: return as("scan", op_scan(), [] { return new MScan(false); });
    case 11: return as("reduce-seed", op_reduce_seed(), [] { return new MReduce(true); });
    case 12: return as("reduce", op_reduce(), [] { return new MReduce(false); });
    case 13: return as("distinct", o::distinct(), [] { return new MDistinct; });
    case 14: return as("distinct_until_changed", o::distinct_until_changed(), [] { return new MDuc(false); });
    case 15: return as("distinct_until_changed-custom", op_duc_custom(), [] { return new MDuc(true); });
    case 16: return as("buffer", then(o::buffer(n), op_fold_vec()), [n] { return new MGroups(n); });
    case 17:
        if (n % 2)
            return as("buffer-swap", then(o::buffer(n), op_fold_vec_swap(7)), [n] { return new MGroups(n); });
        return as("buffer-rv", then(o::buffer(n), op_fold_vec_rv()), [n] { return new MGroups(n); });
    case 18: return as("window", then(o::window(n), op_fold_win(w, stage)), [n] { return new MGroups(n, true); });
    case 19: return as("start_with_values", o::start_with_values(Tok{21}, Tok{4}), [] { return new MStart({21, 4}); });
    case 20: return as("start_with", o::start_with(rpp::source::just(rpp::schedulers::immediate{}, Tok{8}), rpp::source::just(Tok{9}, Tok{10})), [] { return new MStart({8, 9, 10}); });
    case 21: return as("tap", op_tap(w, stage), [] { return new MTap; });
    case 22: return as("finally", op_finally(w, stage), [] { return new MFinally; });
    case 23: return as("start_with_empty", o::start_with(rpp::source::empty<Tok>()), [] { return new MStart({}); });
    case 24: return as("map-rv", then(o::map([](const Tok& t) { return t; }), op_map_rv()), [] { return new MMap; });
    }
}

// chains without type erasure between the operators
constexpr unsigned N_STATIC = 16;
struct Chain
{
    std::function<void(Sub&)>             subscribe;
    std::vector<std::function<Stage*()>>  model;
};

template<typename O>
void subscribe_to(const O& obs, Sub& s, unsigned how)
{
    Rec& r = s.rec;
    switch (how)
    {
    default:
    case 0:
        obs.subscribe(s.d, [&r](const Tok& t) { r.next(t.v); }, [&r](const std::exception_ptr& e) { r.error(e); }, [&r] { r.completed(); });
        break;
    case 1:
        obs.subscribe(rpp::make_lambda_observer<Tok>(s.d, [&r](Tok t) { r.next(t.v); }, [&r](const std::exception_ptr& e) { r.error(e); }, [&r] { r.completed(); }));
        break;
    case 2:
        obs.subscribe(rpp::make_lambda_observer<Tok>(s.d, [&r](Tok t) { Tok k = std::move(t); r.next(k.v); }, [&r](const std::exception_ptr& e) { r.error(e); }, [&r] { r.completed(); }).as_dynamic());
        break;
    }
}

template<typename F>
Chain make_chain(World* w, const char* name, F&& build, std::vector<std::function<Stage*()>> model, unsigned how)
{
    {
        Quiet q;
        w->desc += name;
    }
    auto  obs = build();
    Chain c;
    c.model     = std::move(model);
    c.subscribe = [obs, how](Sub& s) { subscribe_to(obs, s, how); };
    return c;
}
#define M(x) [=]() -> Stage* { return new x; }
Chain static_chain(unsigned which, World* w, unsigned n, unsigned how)
{
    auto src = [w] {
        return rpp::source::create<Tok>([w](auto&& obs) {
            Sub* s;
            {
                Quiet q;
                s = w->cur();
                if (s)
                    s->subscribed++;
            }
            w->emit(obs);
        });
    };
    switch (which)
    {
    default:
    case 0: return make_chain(w, "static|map|filter|take", [&] { return src() | op_map() | op_filter() | o::take(n); }, {M(MMap), M(MFilter), M(MTake(n))}, how);
    case 1: return make_chain(w, "static|skip|take_last", [&] { return src() | o::skip(1) | o::take_last(n); }, {M(MSkip(1)), M(MTakeLast(n))}, how);
    case 2: return make_chain(w, "static|scan-seed|take|last", [&] { return src() | op_scan_seed() | o::take(n) | o::last(); }, {M(MScan(true)), M(MTake(n)), M(MLast)}, how);
    case 3: return make_chain(w, "static|distinct|buffer", [&] { return src() | o::distinct() | o::buffer(n) | op_fold_vec(); }, {M(MDistinct), M(MGroups(n))}, how);
    case 4: return make_chain(w, "static|tap|finally|take_while|reduce", [&] { return src() | op_tap(w, 0) | op_finally(w, 1) | op_take_while() | op_reduce(); }, {M(MTap), M(MFinally), M(MTakeWhile), M(MReduce(false))}, how);
    case 5: return make_chain(w, "static|window|take", [&] { return src() | o::window(n) | op_fold_win(w, 0) | o::take(2); }, {M(MGroups(n, true)), M(MTake(2))}, how);
    case 6: return make_chain(w, "static|start_with|scan|duc", [&] { return src() | o::start_with_values(Tok{21}, Tok{4}) | op_scan() | o::distinct_until_changed(); }, {M(MStart({21, 4})), M(MScan(false)), M(MDuc(false))}, how);
    case 7: return make_chain(w, "static|element_at|start_with", [&] { return src() | o::element_at(n) | o::start_with(rpp::source::just(Tok{3})); }, {M(MElementAt(n)), M(MStart({3}))}, how);
    case 8: return make_chain(w, "static|duc|map|map|skip|first", [&] { return src() | op_duc_custom() | op_map() | op_map() | o::skip(n) | o::first(); }, {M(MDuc(true)), M(MMap), M(MMap), M(MSkip(n)), M(MFirst)}, how);
    case 9: return make_chain(w, "static|finally|take|finally", [&] { return src() | op_finally(w, 0) | o::take(n) | op_finally(w, 2); }, {M(MFinally), M(MTake(n)), M(MFinally)}, how);
    case 10: return make_chain(w, "static|take|tap|take", [&] { return src() | o::take(4) | op_tap(w, 1) | o::take(n); }, {M(MTake(4)), M(MTap), M(MTake(n))}, how);
    case 11: return make_chain(w, "static|buffer|take", [&] { return src() | o::buffer(2) | op_fold_vec_rv() | o::take(n) | op_reduce_seed(); }, {M(MGroups(2)), M(MTake(n)), M(MReduce(true))}, how);
    case 12: return make_chain(w, "static|scan|scan|scan-seed", [&] { return src() | op_scan() | op_scan() | op_scan_seed() | o::take(n + 2); }, {M(MScan(false)), M(MScan(false)), M(MScan(true)), M(MTake(n + 2))}, how);
    case 13: return make_chain(w, "static|take_last|take", [&] { return src() | o::take_last(4) | o::take(n); }, {M(MTakeLast(4)), M(MTake(n))}, how);
    case 14: return make_chain(w, "static|filter|last", [&] { return src() | op_filter() | o::last(); }, {M(MFilter), M(MLast)}, how);
    case 15: return make_chain(w, "static|finally|window|tap", [&] { return src() | op_finally(w, 0) | o::window(n) | op_fold_win(w, 1) | op_tap(w, 2) | o::take_last(2); }, {M(MFinally), M(MGroups(n, true)), M(MTap), M(MTakeLast(2))}, how);
    }
}

std::string str(const std::vector<SideEv>& v)
{
    std::string s;
    for (auto& e : v)
        s += e.k == 'N' ? std::to_string(e.v) + " " : e.k == 'E' ? "E#" + std::to_string(e.v) + " " : "| ";
    return s;
}
bool starts_with(const std::vector<SideEv>& a, const std::vector<SideEv>& whole)
{
    return a.size() <= whole.size() && std::equal(a.begin(), a.end(), whole.begin());
}
} // namespace

SIM_SCENARIO(chains, 6)
{
    World w;
    {
        unsigned len = sim::param(8, "len");
        unsigned mod = 2 + sim::param(12, "mod");
        for (unsigned i = 0; i < len; ++i)
        {
            int  x = (int)sim::param(mod, "v");
            auto f = sim::param(3, "form");
            Quiet q;
            w.script.v.push_back(x);
            w.forms[i] = f;
        }
        auto e            = sim::param(4, "end");
        w.script.end      = e == 0 ? 'E' : e == 1 ? '-' : 'C';
        w.checks_disposed = sim::param(2, "polite");
    }
    unsigned kind = sim::param(10, "chain kind");
    unsigned how  = sim::param(3, "how");
    Chain    c;
    if (kind < 7)
    {
        unsigned k = 1 + sim::param(4, "stages");
        w.async    = sim::param(4, "async") == 0;
        TObs obs   = w.source();
        std::vector<std::function<Stage*()>> m;
        for (unsigned i = 0; i < k; ++i)
        {
            auto op = sim::param(N_OPS, "op");
            auto n  = sim::param(6, "n");
            obs     = apply(op, n, &w, (int)i, obs, m);
        }
        c.model     = std::move(m);
        c.subscribe = [obs, how](Sub& s) { subscribe_to(obs, s, how); };
    }
    else
    {
        auto which = sim::param(N_STATIC, "static chain");
        auto n     = sim::param(6, "n");
        c          = static_chain(which, &w, n, how);
    }
    unsigned n_subs = 1 + sim::param(3, "subscriptions");
    bool     conc   = n_subs > 1 && sim::param(2, "concurrent");
    bool     ext    = sim::param(5, "external dispose") == 0;
    std::deque<Sub>      subs;
    std::vector<unsigned> at(n_subs);
    for (unsigned i = 0; i < n_subs; ++i)
    {
        auto b = sim::param(2, "dispose?");
        at[i]  = b ? 0 : 1 + sim::param(6, "dispose at");
        Quiet q;
        Sub&  s = subs.emplace_back("observer " + std::to_string(i + 1));
        // the observer itself disposes inside one of its callbacks
        unsigned k  = at[i];
        s.rec.hook  = [&s, k](const Ev&) {
            size_t n;
            {
                Quiet q;
                n = s.rec.ev.size();
            }
            if (n == k)
                s.d.dispose();
        };
    }
    auto one = [&](unsigned i) {
        {
            Quiet q;
            w.by_thread[sim::tid()] = &subs[i];
        }
        c.subscribe(subs[i]);
    };
    {
        std::optional<std::thread> killer;
        bool early = sim::param(4, "dispose early") == 0;
        auto kill = [&] {
            auto pause = sim::param(60, "pause");
            killer.emplace([&, pause] {
                {
                    Quiet q;
                    w.by_thread[sim::tid()] = &subs[0];
                }
                for (unsigned i = 0; i < pause; ++i)
                    sim::yield(1);
                subs[0].d.dispose();
            });
        };
        if (ext)
        {
            if (early)
            {
                {
                    Quiet q;
                    w.by_thread[sim::tid()] = &subs[0];
                }
                subs[0].d.dispose();
            }
            else
                kill();
        }
        if (conc)
        {
            std::vector<std::thread> t;
            for (unsigned i = 1; i < n_subs; ++i)
                t.emplace_back([&, i] { one(i); });
            one(0);
            for (auto& x : t)
                x.join();
        }
        else
            for (unsigned i = 0; i < n_subs; ++i)
            {
                one(i);
                if (w.async)
                    w.th.join_all(); // the next subscription finds whatever state this one left behind
            }
        w.th.join_all();
        if (killer)
            killer->join();
    }
    sim::quiesce();
    Quiet q;
    for (unsigned i = 0; i < n_subs; ++i)
    {
        Model m;
        for (auto& f : c.model)
            m.stages.emplace_back(f());
        m.dispose_at = at[i];
        m.run(w.script);
        std::vector<SideEv> got;
        for (auto& e : subs[i].rec.ev)
            got.push_back({e.k, e.k == 'C' ? 0 : e.v});
        const char* d     = w.desc.c_str();
        bool        loose = ext && i == 0; // disposed from outside at some moment: a prefix
        if (loose)
            SIM_CHECK(starts_with(got, m.out), "not-a-prefix", "%s over %s%c: disposed from outside, saw %s, expected a prefix of %s", d, str(w.script.v).c_str(), w.script.end, str(got).c_str(), str(m.out).c_str());
        else
            SIM_CHECK(got == m.out, "model", "%s over %s%c (subscription %u of %u, dispose in callback %u): saw %s, expected %s", d, str(w.script.v).c_str(), w.script.end, i + 1, n_subs, at[i], str(got).c_str(), str(m.out).c_str());
        Model fm;
        for (auto& f : c.model)
            fm.stages.emplace_back(f());
        fm.free = true;
        fm.run(w.script);
        // loose: a disposal that is still on its way has taken the place of the one by an operator downstream, so stages
        // above a window may go on until it has reached them
        if (loose)
            for (auto& [stage, ev] : subs[i].taps)
            {
                auto upto = std::find_if(ev.begin(), ev.end(), [](const SideEv& e) { return e.k != 'N'; });
                std::vector<SideEv> e(ev.begin(), upto == ev.end() ? upto : upto + 1);
                SIM_CHECK(starts_with(e, fm.taps[stage]), "tap", "%s over %s%c: disposed from outside, tap at stage %d saw %s, expected a prefix of %s", d, str(w.script.v).c_str(), w.script.end, stage, str(e).c_str(), str(fm.taps[stage]).c_str());
            }
        else
          for (auto& [stage, ev] : subs[i].taps)
            SIM_CHECK(starts_with(ev, m.taps[stage]), "tap", "%s over %s%c: tap at stage %d saw %s, expected %s", d, str(w.script.v).c_str(), w.script.end, stage, str(ev).c_str(), str(m.taps[stage]).c_str());
        if (!loose)
            for (auto& [stage, ev] : m.taps)
                SIM_CHECK(subs[i].taps[stage] == ev, "tap", "%s over %s%c: tap at stage %d saw %s, expected %s", d, str(w.script.v).c_str(), w.script.end, stage, str(subs[i].taps[stage]).c_str(), str(ev).c_str());
        for (auto& [stage, ev] : subs[i].windows)
        {
            if (loose)
            {
                for (size_t k = 0; k < ev.size(); ++k)
                    SIM_CHECK(ev[k].k == 'C' || (ev[k].k == 'E' && ev[k].v == 31 && w.script.end == 'E' && k + 1 == ev.size()), "window-end", "%s over %s%c: windows of stage %d ended %s", d, str(w.script.v).c_str(), w.script.end, stage, str(ev).c_str());
                continue;
            }
            SIM_CHECK(starts_with(ev, m.windows[stage]), "window-end", "%s over %s%c: windows of stage %d ended %s, expected %s", d, str(w.script.v).c_str(), w.script.end, stage, str(ev).c_str(), str(m.windows[stage]).c_str());
        }
        if (!loose)
            for (auto& [stage, ev] : m.windows)
                SIM_CHECK(subs[i].windows[stage] == ev, "window-end", "%s over %s%c: windows of stage %d ended %s, expected %s", d, str(w.script.v).c_str(), w.script.end, stage, str(subs[i].windows[stage]).c_str(), str(ev).c_str());
        SIM_CHECK(subs[i].subscribed <= 1, "resubscribed", "%s: source subscribed %u times", d, subs[i].subscribed);
        if (!loose && m.reached_source)
            SIM_CHECK(subs[i].subscribed == 1, "subscribed", "%s: source was not subscribed", d);
        // finally: exactly once when the subscription ended or was disposed
        if (!loose && m.stopped)
            for (int k : m.finals)
                SIM_CHECK(subs[i].finals[k] == 1, "finally", "%s: finally at stage %d ran %d times although the subscription has ended", d, k, subs[i].finals[k]);
        for (size_t k = 0; k < c.model.size(); ++k)
            if (subs[i].finals.count((int)k))
                SIM_CHECK(subs[i].finals[(int)k] == 1, "finally", "%s: finally at stage %zu ran %d times", d, k, subs[i].finals[(int)k]);
    }
}

// the same operators over booleans, whose containers have a size and a storage of their own
SIM_SCENARIO(flags, 1)
{
    unsigned          n = sim::param(12, "values"), op = sim::param(12, "op"), k = sim::param(5, "n"), end = sim::param(3, "end");
    std::vector<bool> in;
    for (unsigned i = 0; i < n; ++i)
    {
        bool  b = sim::flip("value");
        Quiet q;
        in.push_back(b);
    }
    bool        lib = end == 0 && sim::flip("from_iterable"); // (end: completed, error, nothing)
    std::string got, want;
    auto        src = rpp::source::create<bool>([&](auto&& obs) {
        for (size_t i = 0; i < in.size() && !obs.is_disposed(); ++i)
            obs.on_next(bool{in[i]});
        if (end == 0)
            obs.on_completed();
        else if (end == 1)
            obs.on_error(make_err(3));
    });
    auto show  = [&](bool b) { Quiet q; got += b ? '1' : '0'; };
    auto shows = [&](const std::vector<bool>& v) {
        Quiet q;
        for (bool b : v)
            got += b ? '1' : '0';
        got += ',';
    };
    auto sub = [&](const auto& obs, auto f) {
        obs.subscribe(f, [&](const std::exception_ptr& e) { Quiet q; got += "E" + std::to_string(err_code(e)); }, [&] { Quiet q; got += "C"; });
    };
    auto on = [&](auto&& o, auto f) {
        if (lib)
            sub(rpp::source::from_iterable(in) | o, f);
        else
            sub(src | o, f);
    };
    switch (op)
    {
    case 0: on(o::take_last(k), show); break;
    case 1: on(o::buffer(k + 1), shows); break;
    case 2: on(o::take(k), show); break;
    case 3: on(o::skip(k), show); break;
    case 4: on(o::distinct(), show); break;
    case 5: on(o::distinct_until_changed(), show); break;
    case 6: on(o::start_with_values(true, false), show); break;
    case 7: on(o::scan([](bool a, bool b) { return a != b; }), show); break;
    case 8: on(o::last(), show); break;
    case 9: on(o::reduce(true, [](bool a, bool b) { return a != b; }), show); break;
    case 10: on(o::repeat(2), show); break;
    default:
    {
        rpp::subjects::replay_subject<bool> r{k + 1};
        src.subscribe(r.get_observer());
        sub(r.get_observable(), show);
    }
    }
    Quiet q;
    // the model: lists of characters
    std::string s, tail = end == 0 ? "C" : end == 1 ? "E3" : "";
    for (bool b : in)
        s += b ? '1' : '0';
    switch (op)
    {
    case 0: want = end == 0 ? s.substr(s.size() - std::min<size_t>(k, s.size())) + tail : tail; break;
    case 1:
        for (size_t i = 0; i < s.size(); i += k + 1)
            if (i + k + 1 <= s.size() || end == 0)
                want += s.substr(i, k + 1) + ",";
        want += tail;
        break;
    case 2: want = s.size() >= k && k ? s.substr(0, k) + "C" : k ? s + tail : ""; break;
    case 3: want = s.substr(std::min<size_t>(k, s.size())) + tail; break;
    case 4:
        for (char c : s)
            if (want.find(c) == want.npos)
                want += c;
        want += tail;
        break;
    case 5:
        for (char c : s)
            if (want.empty() || want.back() != c)
                want += c;
        want += tail;
        break;
    case 6: want = "10" + s + tail; break;
    case 7:
        for (size_t i = 0; i < s.size(); ++i)
            want += i ? (want.back() != s[i] ? '1' : '0') : s[i];
        want += tail;
        break;
    case 8: want = end != 0 ? tail : s.empty() ? "" : s.substr(s.size() - 1) + "C"; break;
    case 9:
        want = "1";
        for (char c : s)
            want = want[0] != c ? "1" : "0";
        want = end == 0 ? want + "C" : tail;
        break;
    case 10: want = end == 0 ? s + s + "C" : s + tail; break;
    default: want = s.substr(s.size() - std::min<size_t>(k + 1, s.size())) + tail; break;
    }
    if ((op == 8 && end == 0 && s.empty()) || (op == 2 && !k))
        return; // how they end is checked elsewhere
    SIM_CHECK(got == want, "wrong-values", "operator %u (n = %u) over %s%s: got %s wanted %s", op, k, s.c_str(), tail.c_str(), got.c_str(), want.c_str());
}

// long streams and big arguments
SIM_SCENARIO(long_streams, 1)
{
    unsigned n = many(66000), k = sim::flip("as long") ? n - (n > 2 ? sim::param(3, "less") : 0) : many(66000), op = sim::param(16, "op");
    bool     err = sim::param(3, "error") == 1;
    Sum      got, want;
    char     end = '-', wend = err ? 'E' : 'C';
    uint64_t asked = 0;
    auto     src   = rpp::source::create<int>([&](auto&& obs) {
        for (unsigned i = 0; i < n && !obs.is_disposed(); ++i)
        {
            ++asked;
            obs.on_next((int)i);
        }
        if (err)
            obs.on_error(make_err(3));
        else
            obs.on_completed();
    });
    auto sub = [&](const auto& o) {
        o.subscribe([&](int v) { got.add((uint64_t)v); }, [&](const std::exception_ptr&) { end = 'E'; }, [&] { end = 'C'; });
    };
    auto wants = [&](unsigned from, unsigned to) {
        for (unsigned i = from; i < to; ++i)
            want.add(i);
    };
    unsigned asks = n;
    switch (op)
    {
    default:
    case 0:
        sub(src | o::take(k));
        wants(0, std::min(k, n));
        if (k <= n)
            wend = 'C', asks = k;
        break;
    case 1:
        sub(src | o::skip(k));
        wants(std::min(k, n), n);
        break;
    case 2:
        sub(src | o::take_last(k));
        if (!err)
            wants(n - std::min(k, n), n);
        break;
    case 3:
        sub(src | o::element_at(k));
        if (k < n)
            want.add(k), wend = 'C', asks = k + 1;
        else
            wend = 'E';
        break;
    case 4:
        sub(src | o::buffer(k) | o::map([](const std::vector<int>& v) { Sum s; for (int x : v) s.add((uint64_t)x); return (int)(s.h % 1000003); }));
        for (unsigned i = 0; i < n; i += k)
        {
            Sum s;
            for (unsigned j = i; j < std::min(i + k, n); ++j)
                s.add(j);
            if (i + k <= n || !err)
                want.add(s.h % 1000003);
        }
        break;
    case 5:
        sub(src | o::window(k) | o::merge());
        wants(0, n);
        break;
    case 6:
        sub(src | o::window(k) | o::flat_map([](const auto& w) { return w | rpp::ops::first(); }));
        for (unsigned i = 0; i < n; i += k)
            want.add(i);
        break;
    case 7:
        sub(src | o::map([k](int v) { return v % (int)k; }) | o::distinct());
        wants(0, std::min(n, k));
        break;
    case 8:
        sub(src | o::scan(0, [](int a, int) { return a + 1; }));
        wants(0, n + 1);
        break;
    case 9:
        sub(src | o::reduce(0, [](int a, int) { return a + 1; }));
        if (!err)
            want.add(n);
        break;
    case 10:
        sub(src | o::last());
        if (!err)
            want.add(n - 1);
        break;
    case 11:
    {
        unsigned c = 0;
        sub(rpp::source::create<int>([&](auto&& obs) { obs.on_next((int)c++); err && c == n ? obs.on_error(make_err(1)) : obs.on_completed(); }) | o::repeat(k));
        wants(0, err ? std::min(n, k) : k);
        wend = err && n <= k ? 'E' : 'C', asks = 0;
        break;
    }
    case 12:
    {
        unsigned c = 0;
        sub(rpp::source::create<int>([&](auto&& obs) { obs.on_next((int)c++); c < n ? obs.on_error(make_err(1)) : obs.on_completed(); }) | o::retry(k));
        wants(0, std::min(n, k + 1));
        wend = n <= k + 1 ? 'C' : 'E', asks = 0;
        break;
    }
    case 13:
        sub(src | o::distinct_until_changed([k](int a, int b) { return (unsigned)a / k == (unsigned)b / k; }));
        for (unsigned i = 0; i < n; i += k)
            want.add(i);
        break;
    case 14:
        sub(src | o::take_while([k](int v) { return (unsigned)v < k; }));
        wants(0, std::min(k, n));
        if (k < n)
            wend = 'C', asks = k + 1;
        break;
    case 15:
    {
        std::vector<int> v(n);
        for (unsigned i = 0; i < n; ++i)
            v[i] = (int)i;
        sub(rpp::source::from_iterable(v) | o::filter([](int x) { return x % 2 == 0; }));
        for (unsigned i = 0; i < n; i += 2)
            want.add(i);
        wend = 'C', asks = 0;
    }
    }
    SIM_CHECK(got == want && end == wend, "wrong-values", "operator %u (n = %u, %u) : %llu values (wanted %llu), ended %c (wanted %c)", op, k, n, (unsigned long long)got.n, (unsigned long long)want.n, end, wend);
    SIM_CHECK(asked == asks, "asked", "operator %u (n = %u, %u): the source was asked for %llu values, wanted %u", op, k, n, (unsigned long long)asked, asks);
}
