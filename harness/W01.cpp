// window_toggle: every value to exactly the windows that are open, whichever threads open, close and emit.
#include "multi.hpp"
using namespace h;

SIM_SCENARIO(window_toggle, 1)
{
    Src             src, openings;
    std::deque<Src> closings;
    std::deque<Rec> wins;
    Rec             outer{"outer"};
    std::vector<int>      win_disp_after; // dispose window k inside its n-th value (0: never)
    std::vector<uint64_t> win_disp;
    bool                  outer_disposed = false;
    uint64_t              outer_disp_b   = 0;
    unsigned              n = sim::param_range(1, 3, "nwin");
    outer.yields            = sim::param(3, "yields");
    {
        Threads th;
        {
            Quiet q;
            src.name = "src";
            src.threads = &th;
        }
        Script sc = random_script(100, 5, 1, 2);
        src.mode  = sim::param(4, "sync") == 1 ? Mode::Sync : Mode::Thread;
        src.yields = sim::param(4, "srcyield");
        {
            Quiet q;
            src.scripts.push_back(sc);
        }
        setup_outer(openings, th, n);
        openings.name = "openings";
        if (openings.scripts[0].end == 'E')
            openings.scripts[0].end = sim::param(3, "openerr") == 1 ? 'E' : 'C';
        for (unsigned i = 0; i < n; ++i)
        {
            {
                Quiet q;
                closings.emplace_back();
                wins.emplace_back("win" + std::to_string(i));
                win_disp.push_back(0);
            }
            auto& c       = closings.back();
            Script cs;
            unsigned e    = sim::param(8, "closing"); // 0..3 a value, 4,5 completes, 6 never, 7 error
            c.mode        = sim::param(4, "closync") == 1 ? Mode::Sync : Mode::Thread;
            c.yields      = sim::param(8, "cloyield");
            wins[i].yields = sim::param(3, "winyields");
            int da        = sim::param(6, "windisp") == 1 ? (int)sim::param_range(1, 3, "windispat") : 0;
            Quiet q;
            c.name    = "closing" + std::to_string(i);
            c.threads = &th;
            if (e < 4)
                cs.values.push_back(1);
            cs.end = e == 7 ? 'E' : (e == 6 || (e < 4 && e % 2)) ? '-' : 'C';
            cs.err = 300 + (int)i;
            c.scripts.push_back(cs);
            win_disp_after.push_back(da);
        }
        src.keep = openings.keep = true; // a source without end keeps its observer, as a timer or a socket would
        for (auto& c : closings)
            c.keep = true;
        auto d = rpp::composite_disposable_wrapper::make();
        if (sim::param(4, "outerdisp") == 1)
        {
            outer_disposed = true;
            unsigned y     = sim::param(30, "outerdispyield");
            {
                Quiet q;
                outer.late_allowed = 1;
            }
            th.spawn([&, d, y] {
                sim::yield(y);
                {
                    Quiet q;
                    outer_disp_b = sim::seq();
                }
                d.dispose();
                Quiet q;
                outer.disp_ret = sim::seq();
            });
        }
        int  opened = 0;
        auto chain  = src.observable() | rpp::ops::window_toggle(openings.observable(), [&](int k) { return closings[(size_t)k].observable(); });
        chain.subscribe(d,
                        [&](const auto& w) {
                            int  k;
                            auto i = outer.enter('N', -1);
                            {
                                Quiet q;
                                k = opened++;
                                // openings emits 0,1,.. in order; a window may be missing only after the end
                                outer.ev[i].v = k;
                            }
                            outer.touch();
                            auto wd = rpp::composite_disposable_wrapper::make();
                            if (win_disp_after[(size_t)k])
                            {
                                Quiet q;
                                wins[(size_t)k].hook = [&, k, wd](const Ev& e) {
                                    if (e.k == 'N' && (int)wins[(size_t)k].values().size() == win_disp_after[(size_t)k])
                                    {
                                        wd.dispose();
                                        Quiet q2;
                                        wins[(size_t)k].disp_ret = win_disp[(size_t)k] = sim::seq();
                                    }
                                };
                            }
                            w.subscribe(observer(wins[(size_t)k], wd));
                            sim::yield(outer.yields);
                            outer.touch();
                            outer.leave(i);
                        },
                        [&](const std::exception_ptr& e) { outer.error(e); },
                        [&]() { outer.completed(); });
        th.join_all();
        th.join_all();
        {
            Quiet q;
            for (auto& w : wins)
                w.hook = nullptr;
        }
        // ------------------------------------------------------------------------------------------------ judging
        {
            Quiet q;
            static SubInfo none;
            auto&   si = src.subs.empty() ? none : src.subs[0];
            auto&   oi = openings.subs.empty() ? none : openings.subs[0];
            std::vector<SubInfo*> all = all_subs(closings, &src);
            if (!openings.subs.empty())
                all.push_back(&oi);
            uint64_t ferr_b = ~0ull, ferr_r = ~0ull;
            for (auto* s : all)
                if (s->term == 'E')
                {
                    ferr_b = std::min(ferr_b, s->term_b);
                    if (s->term_r)
                        ferr_r = std::min(ferr_r, s->term_r);
                }
            SubInfo* w = judge_error(outer, all);
            char     end = outer.ending();
            uint64_t stop_b = std::min<uint64_t>(ferr_b, si.term != '-' ? si.term_b : ~0ull); // nothing ended before this
            uint64_t stop_r = std::min<uint64_t>(ferr_r, si.term_r ? si.term_r : ~0ull);      // certainly ended after this
            if (!outer_disposed)
            {
                if (ferr_b != ~0ull && end != 'C')
                    SIM_CHECK(w, "error-lost", "a source failed but the outer observer saw %s", outer.str().c_str());
                else if (ferr_b == ~0ull)
                    SIM_CHECK(end == (si.term == 'C' ? 'C' : '-'), "wrong-end", "source ended %c but the outer observer saw %s", si.term, outer.str().c_str());
                if (end == 'C')
                    SIM_CHECK(si.term == 'C' && !(ferr_r < si.term_b), "wrong-end", "outer observer saw %s", outer.str().c_str());
                for (size_t k = 0; k < oi.emits.size(); ++k)
                {
                    if (oi.emits[k].r && oi.emits[k].r < stop_b)
                        SIM_CHECK((int)k < opened, "window-lost", "opening %zu produced no window", k);
                    if (oi.emits[k].b > stop_r)
                        SIM_CHECK((int)k >= opened, "window-late", "opening %zu produced a window after the end", k);
                }
            }
            SIM_CHECK(opened <= (int)oi.emits.size(), "window-phantom", "%d windows for %zu openings", opened, oi.emits.size());
            bool any_open = false, any_cut = false;
            for (int k = 0; k < opened; ++k)
            {
                Rec&        r  = wins[(size_t)k];
                const char* nm = r.name.c_str();
                auto&       op = oi.emits[(size_t)k];
                size_t      oe = (size_t)k; // outer event k
                uint64_t    in_b = op.b, in_r = outer.ev[oe].end;
                uint64_t    cl_b = ~0ull, cl_r = ~0ull;
                char        cl   = '-';
                auto&       cs   = closings[(size_t)k];
                SIM_CHECK(cs.subs.size() <= 1, "resubscribed", "closing %d subscribed %zu times", k, cs.subs.size());
                if (!cs.subs.empty())
                {
                    auto& ci = cs.subs[0];
                    if (!ci.emits.empty())
                    {
                        cl   = 'C';
                        cl_b = ci.emits[0].b;
                        cl_r = ci.emits[0].r ? ci.emits[0].r : ~0ull;
                    }
                    else if (ci.term == 'C')
                    {
                        cl   = 'C';
                        cl_b = ci.term_b;
                        cl_r = ci.term_r ? ci.term_r : ~0ull;
                    }
                }
                else if (oi.emits[(size_t)k].r && oi.emits[(size_t)k].r < stop_b && !outer_disposed && !win_disp[(size_t)k])
                    SIM_CHECK(false, "no-closing", "closing %d was never subscribed", k);
                // the outer subscription went away while the window was being handed out
                bool   cut = outer_disp_b && outer_disp_b < in_r;
                auto   got = r.values();
                size_t g   = 0;
                int    last = -1;
                for (size_t i = 0; i < si.emits.size(); ++i)
                {
                    auto& v   = si.emits[i];
                    bool  has = g < got.size() && got[g] == v.v;
                    if (has)
                    {
                        SIM_CHECK(last < 0 || last + 1 == (int)i, "gap", "%s: saw %s of %zu values", nm, r.str().c_str(), si.emits.size());
                        SIM_CHECK(r.ev[g].seq > v.b && !(v.r && r.ev[g].seq > v.r), "order", "%s: value %d outside of its emission", nm, v.v);
                        last = (int)i;
                        ++g;
                        SIM_CHECK(!(v.r && v.r < in_b), "not-open", "%s: value %d came before the window was opened", nm, v.v);
                        SIM_CHECK(v.b < cl_r, "not-open", "%s: value %d came after the window was closed", nm, v.v);
                        SIM_CHECK(v.b < stop_r, "not-open", "%s: value %d came after the end", nm, v.v);
                    }
                    else if (!cut && !(win_disp[(size_t)k] && (!v.r || v.r > win_disp[(size_t)k] || last >= 0)))
                        SIM_CHECK(!(in_r && in_r < v.b && v.r && v.r < cl_b && v.r < stop_b), "lost", "%s: value %d was emitted while the window was open but not delivered: %s", nm, v.v, r.str().c_str());
                }
                SIM_CHECK(g == got.size(), "order", "%s: saw %s", nm, r.str().c_str());
                any_cut |= cut && r.ending() == '-';
                if (win_disp[(size_t)k] || cut)
                    continue;
                char we = r.ending();
                if (we == '-')
                    any_open = true;
                if (we == 'C')
                    SIM_CHECK((cl == 'C' && cl_b < r.ev.back().seq) || (si.term == 'C' && si.term_b < r.ev.back().seq), "wrong-end", "%s completed although nothing closed it", nm);
                if (we == 'E')
                {
                    SubInfo* x = nullptr;
                    for (auto* s : all)
                        if (s->term == 'E' && s->err == r.error_code())
                            x = s;
                    SIM_CHECK(x && x->term_b < r.ev.back().seq, "wrong-error", "%s: %s", nm, r.str().c_str());
                }
                if (cl_r < stop_b)
                    SIM_CHECK(we == 'C', "wrong-end", "%s was closed but saw %s", nm, r.str().c_str());
                if (in_r < stop_b && stop_r < cl_b && stop_r != ~0ull)
                    SIM_CHECK(we != '-' && (ferr_r > si.term_b || we == 'E'), "wrong-end", "%s was open at the end but saw %s", nm, r.str().c_str());
                // opened while the end was being delivered: whichever came first, it must not stay open for ever
                if (stop_r != ~0ull && !outer_disposed)
                    SIM_CHECK(we != '-', "never-ended", "%s was handed out but never ended: %s", nm, r.str().c_str());
            }
            bool ended = end != '-' || outer_disposed;
            if (ended && !any_open && !any_cut)
                for (auto* s : all)
                    SIM_CHECK(s->disposed == 1, "not-released", "everything ended but a source (err code %d) was disposed %d times", s->err, s->disposed);
            if (ended && any_open && end == '-' && !src.subs.empty())
                SIM_CHECK(si.disposed == 0 || si.term != '-', "released-early", "a window is still open but the source was disposed");
            if (!ended && si.term == '-' && !src.subs.empty())
                SIM_CHECK(si.disposed == 0, "released-early", "the source was disposed although nothing ended");
        }
        src.drop_kept();
        openings.drop_kept();
        for (auto& c : closings)
            c.drop_kept();
    }
}
