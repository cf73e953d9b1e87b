// group_by: each value to the group of its key, groups end with the source, the source lives as long as anybody listens.
#include "multi.hpp"
#include "many.hpp"
using namespace h;

namespace
{
struct Sub // one subscription of one group
{
    Rec      rec;
    int      key{};
    uint64_t sub_b{}, sub_r{}, disp_b{}, disp_r{};
    int      disp_after{}; // disposes itself inside its n-th value
    bool     late{};
    explicit Sub(std::string n)
        : rec(std::move(n))
    {
    }
};

// keys that are the same modulo a number known to the comparator object only
struct ModLess
{
    int  mod;
    bool operator()(int a, int b) const { return a % mod < b % mod; }
};
} // namespace

SIM_SCENARIO(group_by, 40)
{
    Src             src;
    Rec             outer{"outer"};
    std::deque<Sub> subs;
    std::vector<int> opened;
    unsigned        nkeys   = sim::param_range(1, 3, "nkeys");
    unsigned        nvals   = sim::param(8, "nvals");
    int             throws  = sim::param(6, "throws") == 1 ? (int)sim::param(nvals + 1, "throwat") : -1;
    bool            val_thr = throws >= 0 && sim::flip("valuethrows");
    bool            laps    = sim::param(3, "comparator") == 1; // keys spread over classes, a comparator object that knows them
    uint64_t        outer_disp_b = 0, outer_disp_r = 0;
    std::vector<int> keys, lap; // key of value i
    bool            thrown = false;
    {
        Threads th;
        unsigned end = sim::param(6, "ending");
        src.mode     = sim::param(4, "sync") == 1 ? Mode::Sync : Mode::Thread;
        src.yields   = sim::param(5, "srcyield");
        src.check_disposed = sim::param(3, "ignoredisp") != 1;
        src.rogue    = sim::param(8, "rogue") == 1;
        src.keep     = true;
        {
            Quiet q;
            src.name    = "src";
            src.threads = &th;
            Script sc;
            for (unsigned i = 0; i < nvals; ++i)
                sc.values.push_back((int)i);
            sc.end = end == 5 ? 'E' : end == 4 ? '-' : 'C';
            sc.err = 9;
            src.scripts.push_back(sc);
        }
        for (unsigned i = 0; i < nvals; ++i)
        {
            int   k = (int)sim::param(nkeys, "key");
            int   l = laps ? (int)sim::param(3, "lap") : 0;
            Quiet q;
            keys.push_back(k);
            lap.push_back(l);
        }
        unsigned per_group[4];
        unsigned disp[4][2], dispn[4][2];
        bool     late[4][2];
        for (unsigned k = 0; k < nkeys; ++k)
        {
            per_group[k] = sim::param(4, "subscribers") == 3 ? 2 : sim::param(8, "none") == 1 ? 0 : 1;
            for (unsigned j = 0; j < per_group[k]; ++j)
            {
                disp[k][j]  = sim::param(4, "disp"); // 1 inside a value, 2 from a thread
                dispn[k][j] = sim::param_range(1, 4, "dispn") - 1;
                late[k][j]  = sim::param(5, "late") == 1;
            }
        }
        auto d = rpp::composite_disposable_wrapper::make();
        if (sim::param(3, "outerdisp") == 1)
        {
            unsigned y = sim::param(40, "outerdispyield");
            {
                Quiet q;
                outer.late_allowed = 1;
            }
            th.spawn([&, d, y] {
                sim::yield(y);
                {
                    Quiet q;
                    outer_disp_b = sim::seq();
                }
                d.dispose();
                Quiet q;
                outer.disp_ret = outer_disp_r = sim::seq();
            });
        }
        auto subscribe = [&](auto g, int k, unsigned j) {
            Sub* s;
            {
                Quiet q;
                subs.emplace_back("group" + std::to_string(k) + "." + std::to_string(j));
                s       = &subs.back();
                s->key  = k;
                s->late = late[k][j];
            }
            auto gd = rpp::composite_disposable_wrapper::make();
            if (disp[k][j] == 1)
            {
                Quiet q;
                s->disp_after = (int)dispn[k][j] + 1;
                s->rec.hook   = [s, gd](const Ev& e) {
                    if (e.k != 'N' || (int)s->rec.values().size() != s->disp_after)
                        return;
                    {
                        Quiet q2;
                        s->disp_b = sim::seq();
                    }
                    gd.dispose();
                    Quiet q2;
                    s->rec.disp_ret = s->disp_r = sim::seq();
                };
            }
            else if (disp[k][j] == 2)
            {
                {
                    Quiet q;
                    s->rec.late_allowed = 1;
                }
                th.spawn([&, s, gd, y = dispn[k][j] * 6] {
                    sim::yield(y);
                    {
                        Quiet q;
                        s->disp_b = sim::seq();
                    }
                    gd.dispose();
                    Quiet q;
                    s->rec.disp_ret = s->disp_r = sim::seq();
                });
            }
            auto go = [&outer, s, g, gd, k, nkeys] {
                {
                    Quiet q;
                    s->sub_b = sim::seq();
                }
                SIM_CHECK(g.get_key() % (int)nkeys == k, "key", "group of key %d reports key %d", k, g.get_key());
                g.subscribe(observer(s->rec, gd));
                Quiet q;
                s->sub_r = sim::seq();
            };
            if (late[k][j])
                th.spawn(go);
            else
                go();
        };
        auto key = [&](int v) {
            if (v < 0)
                return 0; // a source that goes on after its end
            if (!val_thr && v == throws)
            {
                thrown = true;
                throw_err(50);
            }
            return keys[(size_t)v] + (int)nkeys * lap[(size_t)v];
        };
        auto val = [&](int v) {
            if (v >= 0 && val_thr && v == throws)
            {
                thrown = true;
                throw_err(50);
            }
            return v;
        };
        auto run = [&](auto op) {
            src.observable() | op | rpp::ops::subscribe(d, [&](const auto& g) {
                const int k = g.get_key() % (int)nkeys;
                auto      i = outer.enter('N', k);
                {
                    Quiet q;
                    opened.push_back(k);
                    if (std::count(opened.begin(), opened.end(), k) != 1)
                        sim::fail("group-twice", "two groups for key %d", k);
                    // the key of a group is that of the value that opened it
                    size_t first = 0;
                    while (keys[first] != k)
                        ++first;
                    if (g.get_key() != k + (int)nkeys * lap[first])
                        sim::fail("key", "group of key %d was opened by key %d but reports %d", k, k + (int)nkeys * lap[first], g.get_key());
                }
                outer.touch();
                for (unsigned j = 0; j < per_group[k]; ++j)
                    subscribe(g, k, j);
                sim::yield();
                outer.touch();
                outer.leave(i); }, [&](const std::exception_ptr& e) { outer.error(e); }, [&]() { outer.completed(); });
        };
        if (laps)
            run(rpp::ops::group_by(key, val, ModLess{(int)nkeys}));
        else
            run(rpp::ops::group_by(key, val));
        th.join_all();
        th.join_all();
        {
            Quiet q;
            for (auto& s : subs)
                s.rec.hook = nullptr;
            static SubInfo none;
            auto&    si    = src.subs.empty() ? none : src.subs[0];
            bool     threw = thrown; // not called when everybody left before
            size_t   n     = threw ? (size_t)throws : si.emits.size();
            char     end   = threw ? 'E' : si.term;
            uint64_t end_b = threw ? si.emits[n].b : si.term_b, end_r = threw ? si.emits[n].r : si.term_r;
            int      code  = threw ? 50 : 9;
            // groups in the order of the first values
            std::vector<int> want;
            for (size_t i = 0; i < n + (val_thr && threw ? 1 : 0); ++i)
                if (std::find(want.begin(), want.end(), keys[i]) == want.end())
                    want.push_back(keys[i]);
            SIM_CHECK(is_prefix(opened, want), "groups", "groups opened: %s wanted: %s", str(opened).c_str(), str(want).c_str());
            if (!outer_disp_b)
            {
                SIM_CHECK(opened.size() == want.size(), "groups", "groups opened: %s wanted: %s", str(opened).c_str(), str(want).c_str());
                SIM_CHECK(outer.ending() == end, "wrong-end", "source ended %c but the outer observer saw %s", end, outer.str().c_str());
            }
            else if (outer.ending() != '-')
                SIM_CHECK(outer.ending() == end, "wrong-end", "source ended %c but the outer observer saw %s", end, outer.str().c_str());
            if (outer.ending() == 'E')
                SIM_CHECK(outer.error_code() == code, "wrong-error", "%s", outer.str().c_str());
            bool all_gone = outer.ending() != '-' || outer_disp_r, ambiguous = false;
            for (auto& s : subs)
            {
                const char*      nm = s.rec.name.c_str();
                auto             got = s.rec.values();
                size_t           g   = 0;
                bool             started = false;
                bool             cut = outer_disp_b && outer_disp_b < s.sub_r; // perhaps nobody was left when it came
                for (size_t i = 0; i < n; ++i)
                {
                    if (keys[i] != s.key)
                        continue;
                    auto& v   = si.emits[i];
                    bool  has = g < got.size() && got[g] == v.v;
                    if (has)
                    {
                        SIM_CHECK(!started || g > 0, "order", "%s", nm);
                        SIM_CHECK(s.rec.ev[g].seq > v.b && !(v.r && s.rec.ev[g].seq > v.r), "order", "%s: value %d outside of its emission", nm, v.v);
                        started = true;
                        ++g;
                    }
                    else
                    {
                        bool missed = (s.disp_b && (!v.r || v.r > s.disp_b)) || cut || (!started && s.late && (!s.sub_r || v.b < s.sub_r));
                        // values after a missed one may only be missed by a disposed or not yet subscribed observer
                        SIM_CHECK(missed, "lost", "%s: value %d not delivered: %s", nm, v.v, s.rec.str().c_str());
                        if (s.disp_b && started)
                            break;
                    }
                }
                SIM_CHECK(g == got.size(), "order", "%s saw %s", nm, s.rec.str().c_str());
                char e = s.rec.ending();
                if (e != '-')
                {
                    SIM_CHECK(e == end && s.rec.ev.back().seq > end_b, "wrong-end", "%s: source ended %c but saw %s", nm, end, s.rec.str().c_str());
                    if (e == 'E')
                        SIM_CHECK(s.rec.error_code() == code, "wrong-error", "%s: %s", nm, s.rec.str().c_str());
                }
                else if (end != '-' && !s.disp_b && !cut && !(s.late && (!s.sub_r || s.sub_r > end_b)))
                    SIM_CHECK(false, "never-ended", "%s: source ended %c but saw %s", nm, end, s.rec.str().c_str());
                (void)end_r;
                bool too_late = s.late && (!s.sub_r || (si.disp_seq && si.disp_seq < s.sub_r)); // everybody else had left
                if (e == '-' && !s.disp_r && too_late)
                    ambiguous = true;
                else if (e == '-' && !s.disp_r)
                    (cut ? ambiguous : all_gone) = cut;
            }
            if (!src.subs.empty() && !ambiguous)
            {
                if (all_gone)
                    SIM_CHECK(si.disposed == 1, "not-released", "nobody is subscribed any more but the source was disposed %d times", si.disposed);
                else
                    SIM_CHECK(si.disposed == 0, "released-early", "somebody is still subscribed but the source was disposed");
            }
        }
        src.drop_kept();
    }
}
// many groups
SIM_SCENARIO(many_groups, 1)
{
    unsigned              n = many(600), k = sim::flip("as many keys") ? std::min(n, 300u) : many(300);
    std::vector<uint64_t> per(k), first(k);
    unsigned              opened = 0, ended = 0, values = 0;
    bool                  err = sim::param(3, "error") == 1;
    rpp::subjects::publish_subject<int> s;
    s.get_observable() | rpp::ops::group_by([k](int v) { return v % (int)k; }) | rpp::ops::subscribe([&](const auto& g) {
        auto key = (size_t)g.get_key();
        SIM_CHECK(per[key] == 0, "group-twice", "two groups for key %zu", key);
        ++opened;
        g.subscribe([&, key](int v) { ++values; SIM_CHECK((size_t)v == key + k * per[key]++, "order", "group %zu got %d", key, v); }, [&](const std::exception_ptr&) { ++ended; }, [&] { ++ended; }); }, [](const std::exception_ptr&) {}, [] {});
    for (unsigned i = 0; i < n; ++i)
        s.get_observer().on_next((int)i);
    err ? s.get_observer().on_error(make_err(1)) : s.get_observer().on_completed();
    SIM_CHECK(opened == std::min(n, k) && ended == opened && values == n, "lost", "%u values of %u keys: %u groups opened, %u ended, %u values", n, k, opened, ended, values);
}
