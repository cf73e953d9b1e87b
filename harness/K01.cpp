// publish / multicast with connect and ref_count: one source subscription at a time, shared by everybody, ended by the last.
#include "multi.hpp"
using namespace h;

namespace
{
struct Win
{
    uint64_t b{}, r{};
    size_t   call{}; // (connect) the connect call whose connection is disposed
};
struct Connect
{
    const void* id{};
    uint32_t    tid{};
    uint64_t    b{}, r{};
};
struct Sub
{
    Rec      rec;
    uint64_t sub_b{}, sub_r{}, disp_b{}, disp_r{};
    uint32_t tid{};
    int      disp_after{}; // disposes itself inside its n-th value
    explicit Sub(std::string n)
        : rec(std::move(n))
    {
    }
    bool live(uint64_t from, uint64_t to) const { return sub_r && sub_r < from && (!disp_b || disp_b > to); }
};
bool cover(const std::deque<Win>& w, uint64_t b, uint64_t r)
{
    for (auto& x : w)
        if (x.b < r && (!x.r || x.r > b))
            return true;
    return false;
}

struct World
{
    Src              src;
    Threads          th;
    std::deque<Sub>  subs;
    std::deque<Win>  leaves; // dispose calls that may end the source subscription
    std::deque<Connect> connects;
    bool             sync{};

    void setup(bool reconnect)
    {
        sync               = sim::param(4, "sync") == 1;
        src.mode           = sync ? Mode::Sync : Mode::Thread;
        src.yields         = sim::param(5, "srcyield");
        src.check_disposed = sim::param(3, "ignoredisp") != 1;
        src.rogue          = sim::param(8, "rogue") == 1;
        src.keep           = true;
        unsigned n         = reconnect ? 12 : 5;
        for (unsigned i = 0; i < n; ++i)
        {
            Script sc = random_script(100 * (int)(i + 1), 4, 2, 4);
            Quiet  q;
            if (!reconnect && i && sc.values.size() > 1)
                sc.values.resize(1);
            src.scripts.push_back(sc);
        }
        Quiet q;
        src.name    = "src";
        src.threads = &th;
    }
    Sub& make(unsigned i)
    {
        Quiet q;
        subs.emplace_back("sub" + std::to_string(i));
        subs.back().rec.late_allowed = 1;
        return subs.back();
    }
    template<typename O>
    void subscribe(Sub& s, const O& o, const rpp::composite_disposable_wrapper& d)
    {
        if (s.disp_after)
        {
            Quiet q;
            s.rec.hook = [this, &s, d](const Ev& e) {
                if (e.k == 'N' && (int)s.rec.values().size() == s.disp_after)
                    dispose(s, d);
            };
        }
        {
            Quiet q;
            s.sub_b = sim::seq();
            s.tid   = sim::tid();
        }
        o.subscribe(d, observer(s.rec));
        Quiet q;
        s.sub_r = sim::seq();
    }
    void dispose(Sub& s, const rpp::composite_disposable_wrapper& d)
    {
        Win* w;
        {
            Quiet q;
            leaves.push_back({sim::seq(), 0});
            w        = &leaves.back();
            s.disp_b = w->b;
        }
        d.dispose();
        Quiet q;
        w->r = s.disp_r = s.rec.disp_ret = sim::seq();
    }
    // by the owner of attempt `a` being subscribed? (source emits inside subscribe)
    bool connector(const Sub& s, const SubInfo& a) const { return s.tid == a.sub_tid && s.sub_b < a.sub_seq && (!s.sub_r || a.sub_seq < s.sub_r); }

    // begin of the connect/subscribe call that made this attempt
    uint64_t asked(const SubInfo& a) const
    {
        for (auto& c : connects)
            if (c.tid == a.sub_tid && c.b < a.sub_seq && (!c.r || c.r > a.sub_seq))
                return c.b;
        for (auto& s : subs)
            if (connector(s, a))
                return s.sub_b;
        return 0;
    }
    // has a dispose call for the connection of attempt `a` begun before `at`?
    bool conn_disposed(const SubInfo& a, uint64_t at) const
    {
        for (auto& l : leaves)
            if (l.b < at && l.call < connects.size())
            {
                auto& c = connects[l.call];
                if (c.tid == a.sub_tid && c.b < a.sub_seq && (!c.r || c.r > a.sub_seq))
                    return true;
            }
        return false;
    }
    // the emission of attempt `i` met a reconnection: everybody left it while it was in flight
    bool superseded(size_t i, uint64_t b, uint64_t r) const
    {
        if (!cover(leaves, b, r))
            return false;
        for (size_t k = i + 1; k < src.subs.size(); ++k)
            if (asked(src.subs[k]) < r && (!src.subs[i].disp_seq || asked(src.subs[k]) < src.subs[i].disp_seq))
                return true;
        return false;
    }
    // terminal event deliveries also make observers leave
    bool leaving(uint64_t at) const
    {
        if (cover(leaves, at, at + 1))
            return true;
        for (auto& a : src.subs)
            if (a.term != '-' && a.term_b < at && (!a.term_r || a.term_r > at))
                return true;
        return false;
    }

    void check(bool conn_refcount, bool quiet_leaves)
    {
        Quiet q;
        for (auto& s : subs)
            s.rec.hook = nullptr;
        // one at a time
        for (size_t b = 1; b < src.subs.size(); ++b)
            for (size_t a = 0; a < b; ++a)
            {
                auto &A = src.subs[a], &B = src.subs[b];
                bool gone = connects.empty() ? leaving(B.sub_seq) : conn_disposed(A, B.sub_seq) || conn_disposed(B, B.sub_seq);
                SIM_CHECK((A.disp_seq && A.disp_seq < B.sub_seq) || gone, "two-connections", "attempt %zu begins while attempt %zu is still subscribed", b, a);
                bool left = connects.empty() ? cover(leaves, A.sub_seq, A.term_r) : conn_disposed(A, A.term_r);
                bool over = !left && A.term != '-' && A.term_r && (!A.disp_seq || A.disp_seq > A.term_b);
                SIM_CHECK(!(over && asked(B) > A.term_r), "connected-after-end", "attempt %zu begins after the source ended", b);
            }
        uint64_t ending_at = UINT64_MAX; // since this point the shared subject may be over
        for (auto& a : src.subs)
            if (a.term != '-' && (!a.disp_seq || a.disp_seq > a.term_b))
                ending_at = std::min<uint64_t>(ending_at, a.term_b);
        for (auto& s : subs)
        {
            const char* nm  = s.rec.name.c_str();
            auto        got = s.rec.values();
            std::vector<uint64_t> at;
            for (auto& e : s.rec.ev)
                if (e.k == 'N')
                    at.push_back(e.seq);
            std::vector<int> used;
            for (auto& a : src.subs)
            {
                size_t last = 0;
                for (auto& e : a.emits)
                {
                    if (a.term != '-' && e.b > a.term_b)
                        continue;
                    size_t k = std::find(got.begin(), got.end(), e.v) - got.begin();
                    bool   has = k < got.size();
                    if (has)
                    {
                        SIM_CHECK(std::count(got.begin(), got.end(), e.v) == 1, "twice", "%s received %d twice: %s", nm, e.v, s.rec.str().c_str());
                        SIM_CHECK(at[k] > e.b && (!e.r || at[k] < e.r), "order", "%s received %d outside of its emission", nm, e.v);
                        SIM_CHECK(k >= last, "order", "%s: %s", nm, s.rec.str().c_str());
                        last = k;
                        used.push_back(e.v);
                        continue;
                    }
                    uint64_t over  = s.rec.ending() == '-' ? UINT64_MAX : s.rec.ev.back().seq;
                    bool     there = s.live(e.b, e.r ? e.r : UINT64_MAX) || (connector(s, a) && (!s.disp_b || s.disp_b > (e.r ? e.r : UINT64_MAX)));
                    bool still = !a.disp_seq || (e.r && a.disp_seq > e.r);
                    if (quiet_leaves && cover(leaves, e.b, e.r ? e.r : UINT64_MAX))
                        still = false; // the connection was being disposed by its owner
                    if (superseded(a.attempt, e.b, e.r ? e.r : UINT64_MAX))
                        still = false;
                    SIM_CHECK(!(there && still && e.r && over > e.r && ending_at > e.r), "lost", "%s was there but did not receive %d: %s", nm, e.v, s.rec.str().c_str());
                }
                // (ref_count) a subscriber that stays keeps the subscription
                if (conn_refcount && a.disp_seq && ending_at > a.disp_seq)
                    SIM_CHECK(!s.live(a.sub_seq, a.disp_seq), "released-early", "%s is subscribed but attempt %d was disposed", nm, a.attempt);
                if (a.term != '-' && (!a.disp_seq || a.disp_seq > a.term_b))
                {
                    bool there = s.live(a.term_b, a.term_r ? a.term_r : UINT64_MAX) || (connector(s, a) && !s.disp_b);
                    if ((quiet_leaves && cover(leaves, a.term_b, a.term_r ? a.term_r : UINT64_MAX)) || superseded(a.attempt, a.term_b, a.term_r ? a.term_r : UINT64_MAX))
                        there = false;
                    if (there)
                        SIM_CHECK(s.rec.ending() != '-', "no-end", "source ended %c but %s received %s", a.term, nm, s.rec.str().c_str());
                }
            }
            if (s.rec.ending() != '-')
            {
                bool ok = false;
                auto at_end = s.rec.ev.back().seq;
                for (auto& a : src.subs)
                    ok |= a.term == s.rec.ending() && (a.term != 'E' || a.err == s.rec.error_code()) && a.term_b < at_end && (!a.term_r || a.term_r > at_end || !s.sub_r || s.sub_r > at_end);
                SIM_CHECK(ok, "foreign-end", "%s received %s", nm, s.rec.str().c_str());
            }
            SIM_CHECK(used.size() == got.size(), "foreign", "%s received %s", nm, s.rec.str().c_str());
        }
    }
};

template<typename C>
void ref_count(World& w, const C& conn, unsigned nthreads, bool keeper)
{
    auto o = conn | rpp::ops::ref_count();
    if (keeper)
        w.subscribe(w.make(99), o, rpp::composite_disposable_wrapper::make());
    unsigned k = 0;
    {
        Threads th;
        for (unsigned t = 0; t < nthreads; ++t)
        {
            struct Step
            {
                Sub*     s;
                unsigned before, after;
                bool     leave;
            };
            std::vector<Step> steps;
            unsigned          n = sim::param_range(1, 3, "steps");
            for (unsigned i = 0; i < n; ++i)
            {
                Step st{&w.make(k++), sim::param(20, "before"), sim::param(30, "after"), sim::param(4, "stay") != 1};
                if (sim::param(4, "inside") == 1)
                {
                    st.leave         = false;
                    st.s->disp_after = (int)sim::param_range(1, 3, "dispafter");
                }
                Quiet q;
                steps.push_back(st);
            }
            th.spawn([&w, &o, steps] {
                for (auto& st : steps)
                {
                    sim::yield(st.before);
                    auto d = rpp::composite_disposable_wrapper::make();
                    w.subscribe(*st.s, o, d);
                    sim::yield(st.after);
                    if (st.leave)
                        w.dispose(*st.s, d);
                }
            });
        }
    }
    w.th.join_all();
    w.check(true, false);
    Quiet q;
    bool  ended = false, anybody = false;
    for (auto& a : w.src.subs)
    {
        // a new subscriber may find the connection without subscribers and finish its disposal itself: an end arriving meanwhile is dropped
        bool releasing = cover(w.leaves, a.term_b, a.term_r);
        for (auto& s : w.subs)
            releasing |= a.disp_seq && s.sub_b < a.term_b && (!s.sub_r || s.sub_r > a.disp_seq);
        ended |= a.term != '-' && (!a.disp_seq || a.disp_seq > a.term_b) && !releasing;
    }
    for (auto& s : w.subs)
        anybody |= !s.disp_r && s.rec.ending() == '-';
    int active = 0;
    for (auto& a : w.src.subs)
    {
        SIM_CHECK(a.disposed <= 1, "disposed-twice", "attempt %d disposed %d times", a.attempt, a.disposed);
        active += !a.disposed;
    }
    if (anybody)
        SIM_CHECK(active == 1 && !ended, "no-connection", "somebody is subscribed, %d active source subscriptions%s", active, ended ? ", source ended" : "");
    else
        SIM_CHECK(active == 0, "not-released", "nobody is subscribed, %d active source subscriptions", active);
}
} // namespace

SIM_SCENARIO(ref_count_reconnect, 3)
{
    World w;
    w.setup(true);
    ref_count(w, w.src.observable() | rpp::ops::multicast<rpp::subjects::serialized_publish_subject>(), sim::param_range(2, 3, "threads"), false);
    w.src.drop_kept();
}

SIM_SCENARIO(ref_count_publish, 1)
{
    World w;
    w.setup(false);
    ref_count(w, w.src.observable() | rpp::ops::publish(), sim::param_range(1, 3, "threads"), true);
    w.src.drop_kept();
}

// connect called and its result disposed from several threads
SIM_SCENARIO(connect, 2)
{
    World w;
    w.setup(true);
    auto             conn = w.src.observable() | rpp::ops::multicast<rpp::subjects::serialized_publish_subject>();
    unsigned         k    = 0, undisposed = 0, nthreads = sim::param_range(1, 3, "connectors");
    unsigned         early = sim::param(3, "early");
    for (unsigned i = 0; i < early; ++i)
        w.subscribe(w.make(k++), conn, rpp::composite_disposable_wrapper::make());
    SIM_CHECK(w.src.subs.empty(), "early", "subscribed before connect");
    std::deque<std::pair<rpp::disposable_wrapper, bool>> handles;
    {
        Threads th;
        for (unsigned t = 0; t < nthreads; ++t)
        {
            unsigned n = sim::param_range(1, 3, "connects");
            struct Step
            {
                unsigned before, after;
                bool     drop;
            };
            std::vector<Step> steps;
            for (unsigned i = 0; i < n; ++i)
            {
                Step  st{sim::param(10, "before"), sim::param(30, "after"), sim::param(3, "keep") != 1};
                Quiet q;
                steps.push_back(st);
            }
            th.spawn([&, steps] {
                for (auto& st : steps)
                {
                    sim::yield(st.before);
                    auto        mine = rpp::composite_disposable_wrapper::make();
                    const void* id   = static_cast<rpp::interface_disposable*>(mine.lock().get());
                    Connect*    c;
                    {
                        Quiet q;
                        w.connects.push_back({id, sim::tid(), sim::seq(), 0});
                        c = &w.connects.back();
                    }
                    rpp::disposable_wrapper d   = conn.connect(mine);
                    const void*             got = d.lock().get();
                    size_t                  call;
                    {
                        Quiet q;
                        c->r = sim::seq();
                        for (call = 0; call < w.connects.size() && w.connects[call].id != got;)
                            ++call;
                    }
                    sim::yield(st.after);
                    if (st.drop)
                    {
                        Win* win;
                        {
                            Quiet q;
                            w.leaves.push_back({sim::seq(), 0, call});
                            win = &w.leaves.back();
                        }
                        d.dispose();
                        Quiet q;
                        win->r = sim::seq();
                    }
                    else
                    {
                        Quiet q;
                        handles.emplace_back(d, false);
                    }
                }
            });
        }
        if (unsigned n = sim::param(3, "latesubs"))
        {
            auto& s = w.make(k++);
            auto  y = sim::param(30, "subyield"), z = sim::param(30, "dispyield");
            th.spawn([&, n, y, z] {
                auto d = rpp::composite_disposable_wrapper::make();
                sim::yield(y);
                w.subscribe(s, conn, d);
                sim::yield(z);
                if (n == 2)
                {
                    {
                        Quiet q;
                        s.disp_b = sim::seq();
                    }
                    d.dispose();
                    Quiet q;
                    s.disp_r = s.rec.disp_ret = sim::seq();
                }
            });
        }
    }
    w.th.join_all();
    w.check(false, true);
    for (auto& hd : handles)
        undisposed += !hd.first.is_disposed();
    {
        Quiet q;
        int   active = 0;
        bool  ended  = false, term = false;
        for (auto& a : w.src.subs)
        {
            SIM_CHECK(a.disposed <= 1, "disposed-twice", "attempt %d disposed %d times", a.attempt, a.disposed);
            active += !a.disposed;
            ended |= a.term != '-' && (!a.disp_seq || a.disp_seq > a.term_b) && !w.conn_disposed(a, a.term_r);
            term |= a.term != '-'; // may have ended the shared subject
        }
        SIM_CHECK(active <= (undisposed ? 1 : 0) && (term || active == (undisposed ? 1 : 0)), "connection", "%u connection handles are not disposed but %d source subscriptions are active", undisposed, active);
        SIM_CHECK(!(ended && active), "connection", "the source ended but a subscription is active");
    }
    w.src.drop_kept();
    for (auto& hd : handles)
        hd.first.dispose();
}
