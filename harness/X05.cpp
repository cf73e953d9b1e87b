// PKG: Qt6Core
// CXXFLAGS: -fPIC
// from_signal: every emission of the signal once, in order, to those subscribed at the time; destruction of the object completes.
// REAL: rppqt from_signal, Qt 6.4 QtCore signals, slots, connections and object destruction
// STUB: kernel scheduler, futexes, clocks, heap (simulator); QtCore itself is not instrumented, so its locks are not seen by the race detector
#include "timed.hpp"
#include <rpp/rpp.hpp>
#include <rppqt/sources/from_signal.hpp>
#include <QBuffer>
#include <QSignalMapper>
#include <QStringListModel>
#include <QObject>
using namespace h;

namespace
{
struct Sent
{
    int      v;
    uint64_t b{}, e{};
};
struct User
{
    Rec                                rec{"sub"};
    rpp::composite_disposable_wrapper  d = rpp::composite_disposable_wrapper::make();
    uint64_t                           sb{}, sr{}, db{}, dr{};
    int                                stop_after{-1};
};
// one object, its signal as (several) observables, a thread that emits and then destroys the object, threads that
// subscribe and dispose
template<typename Make, typename ToObs, typename Fire>
void run(Make make, ToObs to_obs, Fire fire, bool distinct)
{
    sim::allow_races(); // QtCore's own synchronisation is invisible to the detector
    sim::allow_leaks(); // QtCore keeps its per-thread data
    unsigned          n_users = sim::param_range(1, 4, "users");
    unsigned          n_obs   = sim::param_range(1, 2, "observables");
    unsigned          n_sent  = sim::param(6, "emissions");
    unsigned          before  = sim::param(n_users + 1, "subscribed before");
    bool              destroy = sim::param(4, "destroy") != 0;
    unsigned          y       = sim::param(4, "yields");
    std::deque<User>  users(n_users);
    std::vector<Sent> sent;
    uint64_t          kill_b = 0, kill_e = 0;
    auto              object = make();
    {
        using Obs = decltype(to_obs(*object));
        std::vector<Obs> obs;
        for (unsigned i = 0; i < n_obs; ++i)
            obs.push_back(to_obs(*object));
        Threads th;
        auto    subscribe = [&](User& u, unsigned i) {
            {
                Quiet q;
                u.sb = sim::seq();
            }
            obs[i % n_obs] | rpp::ops::subscribe(observer(u.rec, u.d));
            Quiet q;
            u.sr = sim::seq();
        };
        auto dispose = [](User& u) {
            {
                Quiet q;
                u.db = sim::seq();
            }
            u.d.dispose();
            Quiet q;
            u.dr         = sim::seq();
            u.rec.disp_ret = u.dr;
        };
        for (unsigned i = 0; i < n_users; ++i)
        {
            User& u            = users[i];
            u.rec.yields       = y;
            unsigned how       = sim::param(4, "dispose");
            unsigned w         = sim::param(12, "wait"), w2 = sim::param(12, "wait2");
            if (how == 1)
            {
                Quiet q;
                u.stop_after = (int)sim::param(4, "own dispose after");
                u.rec.hook   = [&u, dispose](const Ev&) mutable {
                    bool now;
                    {
                        Quiet q2;
                        now = (int)u.rec.ev.size() == u.stop_after + 1;
                    }
                    if (now)
                        dispose(u);
                };
            }
            if (how == 2)
            {
                Quiet q;
                u.rec.late_allowed = 1;
            }
            if (i < before)
                subscribe(u, i);
            th.spawn([&, i, how, w, w2] {
                sim::yield(w);
                if (i >= before)
                    subscribe(users[i], i);
                sim::yield(w2);
                if (how == 2)
                    dispose(users[i]);
            });
        }
        th.spawn([&] {
            for (unsigned k = 0; k < n_sent; ++k)
            {
                {
                    Quiet q;
                    sent.push_back({distinct ? 100 + (int)k : 7, sim::seq()});
                }
                fire(*object, (int)(100 + k));
                {
                    Quiet q;
                    sent.back().e = sim::seq();
                }
                sim::yield(y);
            }
            if (!destroy)
                return;
            {
                Quiet q;
                kill_b = sim::seq();
            }
            object.reset();
            Quiet q;
            kill_e = sim::seq();
        });
        th.join_all();
        bool drop = sim::flip("observable outlives");
        if (drop)
            obs.clear();
        {
            // the rest learns of the end even when only the connections keep the subject
            Quiet q;
            if (!kill_b)
                kill_b = sim::seq();
        }
        object.reset();
        Quiet q;
        if (!kill_e)
            kill_e = sim::seq();
    }
    Quiet q;
    for (auto& u : users)
    {
        const char*      n   = u.rec.name.c_str();
        std::vector<int> must, may;
        size_t           k   = 0;
        auto             got = u.rec.values();
        // emissions begun before the subscription or after the disposal may be missed, the rest may not
        size_t first_may = sent.size(), last_may = 0, first_must = sent.size(), last_must = 0;
        for (size_t i = 0; i < sent.size(); ++i)
        {
            bool can  = (!sent[i].e || sent[i].e > u.sb) && (!u.dr || sent[i].b < u.dr);
            bool need = sent[i].b > u.sr && (!u.db || sent[i].e < u.db);
            if (can)
            {
                first_may = std::min(first_may, i);
                last_may  = i;
                may.push_back(sent[i].v);
            }
            if (need)
            {
                first_must = std::min(first_must, i);
                last_must  = i;
                must.push_back(sent[i].v);
            }
        }
        (void)k;
        SIM_CHECK(got.size() >= must.size() && got.size() <= may.size(), "count", "%s saw %s, at least %s, at most %s", n, u.rec.str().c_str(), str(must).c_str(), str(may).c_str());
        // consecutive emissions that include all of `must`
        bool ok = got.empty();
        for (size_t s = 0; !ok && s + got.size() <= sent.size(); ++s)
        {
            bool same = true;
            for (size_t i = 0; i < got.size(); ++i)
                same &= got[i] == sent[s + i].v;
            size_t last = s + got.size() - 1;
            ok = same && s >= first_may && last <= last_may && (must.empty() || (s <= first_must && last >= last_must));
        }
        SIM_CHECK(ok, "values", "%s saw %s, at least %s, at most %s", n, u.rec.str().c_str(), str(must).c_str(), str(may).c_str());
        char end = u.rec.ending();
        SIM_CHECK(end != 'E', "wrong-end", "%s saw %s", n, u.rec.str().c_str());
        if (end == 'C')
        {
            for (auto& e : u.rec.ev)
                if (e.k == 'C')
                    SIM_CHECK(e.seq > kill_b, "wrong-end", "%s completed while the object lives", n);
        }
        else
            SIM_CHECK(u.db, "lost", "%s: the object was destroyed, observed %s", n, u.rec.str().c_str());
    }
}
struct Mapper final : QSignalMapper
{
    QObject key{};
    void    fire(int v)
    {
        setMapping(&key, v);
        setMapping(&key, QString::number(v));
        map(&key);
    }
};
} // namespace

SIM_SCENARIO(number, 3)
{
    run([] { return std::make_unique<Mapper>(); }, [](Mapper& m) { return rppqt::source::from_signal(m, &QSignalMapper::mappedInt); },
        [](Mapper& m, int v) { m.fire(v); }, true);
}
SIM_SCENARIO(text, 1)
{
    run([] { return std::make_unique<Mapper>(); },
        [](Mapper& m) { return rppqt::source::from_signal(m, &QSignalMapper::mappedString) | rpp::ops::map([](const QString& s) { return s.toInt(); }); },
        [](Mapper& m, int v) { m.fire(v); }, true);
}
SIM_SCENARIO(triple, 1)
{
    run([] { return std::make_unique<QStringListModel>(); },
        [](QStringListModel& m) {
            return rppqt::source::from_signal(m, &QAbstractItemModel::headerDataChanged)
                 | rpp::ops::map([](const std::tuple<Qt::Orientation, int, int>& t) { return std::get<0>(t) == Qt::Vertical && std::get<2>(t) == -std::get<1>(t) ? std::get<1>(t) : -1; });
        },
        [](QStringListModel& m, int v) { emit m.headerDataChanged(Qt::Vertical, v, -v); }, true);
}
SIM_SCENARIO(nothing, 1)
{
    run([] { return std::make_unique<QBuffer>(); },
        [](QBuffer& b) { return rppqt::source::from_signal(b, &QIODevice::readyRead) | rpp::ops::map([](rpp::utils::none) { return 7; }); },
        [](QBuffer& b, int) { emit b.readyRead(); }, false);
}
