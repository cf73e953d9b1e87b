// serialized subjects: several emitting threads, one common total order, one event at a time.
#include "subject_common.hpp"
using namespace h;

template<typename S, typename... A>
static void run(unsigned skip, A&&... a)
{
    SubjectWorld<S> w;
    w.s.emplace(std::forward<A>(a)...);
    unsigned n = sim::param_range(2, 4, "subs"), late = sim::param(2, "late");
    for (unsigned i = 0; i < n; ++i)
    {
        auto& u = w.make_sub(n);
        if (u.action == 3)
            u.action = 0; // no subscribing from inside: covered by J01
    }
    for (unsigned i = 0; i + late < n; ++i)
        w.subscribe(w.subs[i]);
    {
        Threads th;
        if (late)
            w.user_threads(th, 1, n - late, n);
        unsigned ne = sim::param_range(2, 3, "emitters");
        for (unsigned t = 0; t < ne; ++t)
        {
            unsigned m = sim::param(4, "emissions"), end = sim::param(6, "end");
            th.spawn([&w, m, end, t] {
                auto o = w.s->get_observer();
                for (unsigned i = 0; i < m; ++i)
                    w.emit(o, 'N', (int)(100 * (t + 1) + i));
                if (end == 1 || end == 2)
                    w.emit(o, end == 1 ? 'E' : 'C', (int)t + 1);
            });
        }
    }
    {
        Quiet q;
        // the longest sequence among observers that were there from the start and never disposed is the order
        const Sub* full = nullptr;
        for (unsigned i = 0; i + late < n; ++i)
            if (!w.subs[i].disp_b && (!full || w.subs[i].rec.ev.size() > full->rec.ev.size()))
                full = &w.subs[i];
        for (unsigned i = 0; i < n; ++i)
        {
            auto& u = w.subs[i];
            auto  v = u.rec.values();
            if (i + late < n)
                v.erase(v.begin(), v.begin() + std::min<size_t>(skip, v.size()));
            else
                v.clear(); // what late subscribers see first is J03 and J04
            for (size_t a = 0; a < v.size(); ++a)
                for (size_t b = a + 1; b < v.size(); ++b)
                    SIM_CHECK(v[a] != v[b] && !(v[a] / 100 == v[b] / 100 && v[a] > v[b]), "order", "%s received %s", u.rec.name.c_str(), u.rec.str().c_str());
            if (!full || i + late >= n)
                continue;
            auto f = full->rec.values();
            f.erase(f.begin(), f.begin() + std::min<size_t>(skip, f.size()));
            if (!u.disp_b)
                SIM_CHECK(v == f && u.rec.ending() == full->rec.ending() && (u.rec.ending() != 'E' || u.rec.error_code() == full->rec.error_code()), "different-order", "%s received %s but %s received %s", u.rec.name.c_str(), u.rec.str().c_str(), full->rec.name.c_str(), full->rec.str().c_str());
            else
                SIM_CHECK(is_prefix(v, f), "different-order", "%s received %s but %s received %s", u.rec.name.c_str(), u.rec.str().c_str(), full->rec.name.c_str(), full->rec.str().c_str());
        }
        if (full)
        {
            auto f = full->rec.values();
            // the order respects real time, and the first terminal event wins
            const Emission *first = nullptr, *winner = nullptr;
            for (auto& e : w.em)
                if (e.k != 'N')
                {
                    if (!first || e.b < first->b)
                        first = &e;
                    if (full->rec.ending() == e.k && (e.k == 'C' || full->rec.error_code() == e.v) && (!winner || e.b < winner->b))
                        winner = &e;
                }
            SIM_CHECK((full->rec.ending() != '-') == (first != nullptr), "terminal-lost", "%s received %s", full->rec.name.c_str(), full->rec.str().c_str());
            if (winner)
                for (auto& e : w.em)
                    if (e.k != 'N' && &e != winner && !(e.k == winner->k && e.k == 'C'))
                        SIM_CHECK(!(e.r && e.r < winner->b), "first-terminal", "the second terminal event won");
            uint64_t tb = ~0ull;
            for (auto& e : w.em)
                if (e.k != 'N')
                    tb = std::min(tb, e.b);
            for (auto& e : w.em)
                if (e.k == 'N' && e.r && e.r < tb)
                    SIM_CHECK(std::count(f.begin(), f.end(), e.v) == 1, "lost", "%d was emitted before the end but not received: %s", e.v, full->rec.str().c_str());
            for (auto& a : w.em)
                for (auto& b : w.em)
                    if (a.k == 'N' && b.k == 'N' && a.r && a.r < b.b)
                    {
                        auto ia = std::find(f.begin(), f.end(), a.v), ib = std::find(f.begin(), f.end(), b.v);
                        SIM_CHECK(ib == f.end() || ia < ib, "order", "%d emitted before %d but received %s", a.v, b.v, full->rec.str().c_str());
                    }
        }
    }
    w.s.reset();
}
SIM_SCENARIO(publish, 3) { run<rpp::subjects::serialized_publish_subject<int>>(0); }
SIM_SCENARIO(behavior, 1) { run<rpp::subjects::serialized_behavior_subject<int>>(1, 7); }
SIM_SCENARIO(replay, 1) { run<rpp::subjects::serialized_replay_subject<int>>(0); }
