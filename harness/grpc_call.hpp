// One gRPC call with user threads around it, and what has to hold for its two sides.
#pragma once
#include "grpc_fake.hpp"

namespace h
{
struct Emission
{
    int      v;
    uint64_t b, r;
    unsigned by;
};

struct Session
{
    Threads              th; // reactions
    Kind                 kind;
    Plan                 plan;
    std::deque<Rec>      recs;
    std::deque<Emission> sent;
    char                 term = '-';
    uint64_t             term_b{}, term_r{};
    std::unique_ptr<Call> call;
    std::vector<int>     rec_left; // disposed itself after so many values
    bool                 echo{};
    bool                 strict_hold{};

    explicit Session(Kind k)
        : kind(k)
    {
    }

    void draw()
    {
        plan.messages     = has_read(kind) ? sim::param(5, "messages") : 0;
        plan.half_close   = sim::flip("half close");
        plan.read_yields  = sim::param(12, "read delay");
        plan.write_yields = sim::param(12, "write delay");
        plan.finish_yields = sim::param(8, "finish delay");
        if (sim::param(3, "write failure") == 1)
            plan.fail_write = (int)sim::param(4, "failing write");
        if (is_server(kind))
            plan.cancel_at = sim::param(3, "cancel") == 1 ? (int)sim::param(80, "cancel at") : -1;
        else
        {
            plan.end_at = !has_write(kind) || sim::param(2, "server ends") ? (int)sim::param(80, "end at") : -1;
            plan.end_ok = sim::param(3, "bad status") != 1;
            if (!plan.end_ok)
                plan.end_code = (int)sim::param_range(1, 16, "status code");
        }
    }

    void settle()
    {
        for (;;)
        {
            sim::quiesce();
            bool more;
            {
                Quiet q;
                more = th.joined != th.th.size();
            }
            if (!more)
                return;
            th.join_all();
        }
    }

    template<typename In, typename Reactor>
    void listen(Reactor& x, unsigned n)
    {
        for (unsigned i = 0; i < n; ++i)
        {
            Rec* r;
            int  left = sim::param(4, "leaves") == 1 ? (int)sim::param_range(1, 2, "after") : 0;
            {
                Quiet q;
                recs.emplace_back("observer" + std::to_string(i));
                r = &recs.back();
                rec_left.push_back(left);
            }
            auto d = rpp::composite_disposable_wrapper::make();
            x.get_observable().subscribe(
                d,
                [r, d, left](const In& m) {
                    int v = 0;
                    if constexpr (requires { m.v; })
                        v = m.v;
                    r->next(v);
                    if (left)
                    {
                        bool leave;
                        {
                            Quiet q;
                            leave = (int)r->values().size() == left;
                        }
                        if (leave)
                            d.dispose();
                    }
                },
                [r](const std::exception_ptr& e) { r->error(e); },
                [r]() { r->completed(); });
        }
    }

    // emitting threads
    template<typename Out, typename Observer>
    void emitter(Threads& users, const Observer& o, unsigned id, char ends)
    {
        unsigned              n      = sim::param(5, "values");
        unsigned              before = sim::param(40, "starts after"), between = sim::param(15, "between");
        unsigned              late = ends != '-' && sim::flip("goes on") ? 1 : 0;
        users.spawn([this, o, id, ends, n, before, between, late] {
            sim::yield(before);
            auto emit = [&](unsigned i) {
                Emission* e;
                {
                    Quiet q;
                    sent.push_back({(int)(id * 100 + i), sim::seq(), 0, id});
                    e = &sent.back();
                    sim::log("emit %d", e->v);
                }
                o.on_next(Out{e->v});
                {
                    Quiet q;
                    e->r = sim::seq();
                }
                sim::yield(between);
            };
            for (unsigned i = 1; i <= n; ++i)
                emit(i);
            if (ends == '-')
                return;
            {
                Quiet q;
                term   = ends;
                term_b = sim::seq();
                sim::log("emit %c", ends);
            }
            if (ends == 'C')
                o.on_completed();
            else
                o.on_error(make_err(3));
            {
                Quiet q;
                term_r = sim::seq();
            }
            if (late)
                emit(n + 1);
        });
    }
    template<typename Out, typename Reactor>
    void emitters(Threads& users, Reactor& x)
    {
        static const char ends[] = {'C', '-', 'E'};
        unsigned          n      = echo ? 0 : sim::param_range(1, 2, "emitters");
        for (unsigned i = 0; i < n; ++i)
            emitter<Out>(users, x.get_observer().as_dynamic(), i + 1, i == 0 ? ends[sim::param(3, "terminal")] : '-');
    }

    template<typename Fake, typename Reactor, typename In, typename Out>
    void go()
    {
        draw();
        Fake* f;
        {
            Quiet q;
            auto  u = std::make_unique<Fake>(kind, plan, th);
            f       = u.get();
            call    = std::move(u);
            f->strict_hold = strict_hold;
        }
        unsigned listeners = sim::param(3, "observers");
        if constexpr (!std::is_void_v<Out> && !std::is_same_v<In, rpp::utils::none>)
            echo = sim::param(4, "echo") == 1;
        {
            Threads users;
            auto*   x = new Reactor();
            listen<In>(*x, listeners);
            if constexpr (!std::is_void_v<Out> && !std::is_same_v<In, rpp::utils::none>)
                if (echo)
                    x->get_observable() | rpp::ops::map([this](const In& m) {
                        Quiet q;
                        sent.push_back({m.v, sim::seq(), 0, 9});
                        return Out{m.v};
                    }) | rpp::ops::subscribe(x->get_observer());
            unsigned wait = sim::param(20, "starts late");
            if constexpr (requires { x->init(); })
            {
                f->setup(x);
                if constexpr (!std::is_void_v<Out>)
                    emitters<Out>(users, *x);
                sim::yield(wait);
                x->init();
            }
            else
            {
                if constexpr (!std::is_void_v<Out>)
                    emitters<Out>(users, *x);
                sim::yield(wait);
                f->setup(x);
            }
        }
        settle();
        bool done;
        {
            Quiet q;
            done = call->wire.done_e;
            if (!done)
                sim::log("nothing is going on any more: the peer goes away");
            clean = !call->broken() && !call->wire.broken_at;
        }
        if (!done)
        {
            quiet_point = sim::seq();
            call->over(false);
            settle();
        }
    }
    bool     clean{};     // nothing went wrong before everything was quiet
    uint64_t quiet_point{};

    void run()
    {
        switch (kind)
        {
        case Kind::ServerBidi: return go<ServerBidi, rppgrpc::server_bidi_reactor<Req, Res>, Req, Res>();
        case Kind::ServerWrite: return go<ServerWrite, rppgrpc::server_write_reactor<Res>, rpp::utils::none, Res>();
        case Kind::ServerRead: return go<ServerRead, rppgrpc::server_read_reactor<Req>, Req, void>();
        case Kind::ClientBidi: return go<ClientBidi, rppgrpc::client_bidi_reactor<Req, Res>, Res, Req>();
        case Kind::ClientWrite: return go<ClientWrite, rppgrpc::client_write_reactor<Req>, rpp::utils::none, Req>();
        case Kind::ClientRead: return go<ClientRead, rppgrpc::client_read_reactor<Res>, Res, void>();
        }
    }

    // ---- X02
    void check_writes()
    {
        Quiet       q;
        auto&       w = call->wire;
        const char* k = name_of(kind);
        // exactly once, nothing foreign
        std::map<int, uint64_t> pos;
        for (size_t i = 0; i < w.writes.size(); ++i)
        {
            int  v  = w.writes[i].v;
            bool ok = false;
            for (auto& e : sent)
                ok |= e.v == v && e.b < w.writes[i].b;
            SIM_CHECK(ok, "foreign-write", "%s: %d was written but not emitted before", k, v);
            SIM_CHECK(pos.emplace(v, i).second, "written-twice", "%s: %d was written twice", k, v);
        }
        // order: a value whose emission had returned before another one began goes first; nothing overtakes inside of one thread
        for (auto& a : sent)
            for (auto& b : sent)
                if (a.r && a.r < b.b && pos.count(b.v) && !(term_r && a.b > term_r))
                    SIM_CHECK(pos.count(a.v) && pos[a.v] < pos[b.v], "order", "%s: %d was emitted before %d but written %s", k, a.v, b.v, pos.count(a.v) ? "after it" : "never");
        for (auto& e : sent)
            if (term_r && e.b > term_r)
                SIM_CHECK(!pos.count(e.v), "after-terminal", "%s: %d was emitted after the terminal event and written", k, e.v);
        if (clean)
        {
            for (auto& e : sent)
                if (!term_b || (e.r && e.r < term_b))
                    SIM_CHECK(pos.count(e.v), "lost-write", "%s: %d was never written", k, e.v);
            if (term_b && !echo)
                SIM_CHECK(!w.finishes.empty() && (!quiet_point || w.finishes.front().at < quiet_point), "never-finished", "%s: %c was emitted, all writes are done, the stream is still open", k, term);
        }
        for (auto& f : w.finishes)
        {
            bool cancelled = w.cancel_b && w.cancel_b < f.at;
            if (cancelled || w.broken_at)
                continue;
            bool closing = term_b && term_b < f.at;
            bool read_end = kind == Kind::ServerRead;
            SIM_CHECK(closing || read_end, "early-finish", "%s: the stream was closed before the end of the observable", k);
            if (is_server(kind) && closing)
                SIM_CHECK(f.ok == (term == 'C'), "status", "%s: observable ended %c but the status is %s", k, term, f.ok ? "OK" : "an error");
            SIM_CHECK(f.writes == w.writes.size(), "finish-too-early", "%s: closed before the last write", k);
            for (auto& x : w.writes)
                SIM_CHECK(x.ack && x.ack < f.at, "finish-too-early", "%s: closed while %d was not acknowledged", k, x.v);
        }
        SIM_CHECK(w.done_e, "never-done", "%s: the call never came to its end%s", k, is_server(kind) && w.finishes.empty() ? ", Finish was not called" : "");
    }

    // ---- X03
    void check_reads()
    {
        Quiet       q;
        auto&       w = call->wire;
        const char* k = name_of(kind);
        SIM_CHECK(w.done_e, "never-done", "%s: the call never came to its end%s", k, is_server(kind) && w.finishes.empty() ? ", Finish was not called" : "");
        char want = '?';
        if (is_server(kind))
            want = w.cancel_b ? 'E' : 'C';
        else
            want = w.status_ok ? 'C' : 'E';
        for (size_t i = 0; i < recs.size(); ++i)
        {
            auto& r    = recs[i];
            int   left = rec_left[i];
            auto  v    = r.values();
            for (size_t j = 0; j < v.size(); ++j)
                SIM_CHECK(v[j] == (int)j + 1, "order", "%s: %s received %s", k, r.name.c_str(), r.str().c_str());
            if (left && (int)v.size() >= left)
            {
                SIM_CHECK((int)v.size() == left && r.ending() == '-', "after-dispose", "%s: %s left after %d but received %s", k, r.name.c_str(), left, r.str().c_str());
                continue;
            }
            for (auto& x : w.reads)
                if (x.ok && !(w.cancel_b && x.e > w.cancel_b))
                    SIM_CHECK((int)v.size() >= x.v, "lost-read", "%s: message %d was read but %s received %s", k, x.v, r.name.c_str(), r.str().c_str());
            SIM_CHECK(r.ending() == want, "end", "%s: the call ended %s but %s received %s", k, want == 'C' ? "cleanly" : is_server(kind) ? "with a cancellation" : "with an error", r.name.c_str(), r.str().c_str());
            if (want == 'E' && !is_server(kind))
                SIM_CHECK(r.error_code() == 7, "error", "%s: wrong error", k);
            SIM_CHECK(r.ev.back().seq < w.done_e, "end-late", "%s: end reported after OnDone", k);
        }
        if (!w.cancel_b && !(!is_server(kind) && !w.status_ok))
        {
            unsigned n = 0;
            for (auto& x : w.reads)
                n += x.ok;
            if (has_read(kind) && clean && !is_server(kind))
                SIM_CHECK(n == plan.messages, "unread", "%s: %u of %u messages were read", k, n, plan.messages);
        }
        if (has_read(kind) && clean && is_server(kind) && w.finishes.empty())
        {
            unsigned n = 0;
            for (auto& x : w.reads)
                n += x.ok;
            SIM_CHECK(n == plan.messages, "unread", "%s: %u of %u messages were read", k, n, plan.messages);
        }
    }
};
} // namespace h
