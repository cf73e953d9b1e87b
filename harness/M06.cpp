// take_until: the prefix of the main source up to the notifier's first event, then exactly one terminal event.
#include "multi.hpp"
using namespace h;

SIM_SCENARIO(take_until, 1)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    {
        Threads th;
        setup_sources(srcs, 2, th, 5, true, 2, 2);
        srcs[1].yields = sim::param(8, "notifieryields");
        srcs[0].observable() | rpp::ops::take_until(srcs[1].observable()) | rpp::ops::subscribe(observer(rec));
    }
    Quiet       q;
    const char* n    = rec.name.c_str();
    auto        subs = all_subs(srcs, nullptr);
    SIM_CHECK(srcs[1].subs.size() == 1 && srcs[0].subs.size() <= 1, "resubscribed", "%s: sources subscribed %zu/%zu times", n, srcs[0].subs.size(), srcs[1].subs.size());
    // stop events: first event of the notifier, terminal of main
    struct Stop
    {
        uint64_t b, r;
        char     k;
        int      err;
    };
    std::vector<Stop> stops;
    auto&             no = srcs[1].subs[0];
    if (!no.emits.empty())
        stops.push_back({no.emits[0].b, no.emits[0].r, 'C', 0});
    else if (no.term != '-')
        stops.push_back({no.term_b, no.term_r, no.term, no.err});
    SubInfo* main = srcs[0].subs.empty() ? nullptr : &srcs[0].subs[0];
    if (main && main->term != '-')
        stops.push_back({main->term_b, main->term_r, main->term, main->err});
    uint64_t         first = ~0ull;
    for (auto& s : stops)
        first = std::min(first, s.b);
    std::vector<int> sent, got = rec.values();
    size_t           must = 0;
    if (main)
        for (auto& e : main->emits)
        {
            sent.push_back(e.v);
            must += e.r && e.r < first;
            for (auto& s : stops)
                if (s.r && e.b > s.r)
                    SIM_CHECK(std::find(got.begin(), got.end(), e.v) == got.end(), "after-stop", "%s received %d emitted after the end", n, e.v);
        }
    SIM_CHECK(is_prefix(got, sent), "order", "%s: main sent %s but the observer saw %s", n, str(sent).c_str(), rec.str().c_str());
    SIM_CHECK(got.size() >= must, "lost", "%s: main sent %s but the observer saw %s", n, str(sent).c_str(), rec.str().c_str());
    if (stops.empty())
        SIM_CHECK(rec.ending() == '-', "early-end", "%s: nothing ended but the observer saw %s", n, rec.str().c_str());
    else
    {
        bool ok = false;
        for (auto& s : stops)
        {
            bool beaten = false;
            for (auto& t : stops)
                beaten |= t.r && t.r < s.b;
            ok |= !beaten && s.k == rec.ending() && (s.k == 'C' || s.err == rec.error_code());
        }
        SIM_CHECK(ok, "wrong-end", "%s ended with %s", n, rec.str().c_str());
    }
    judge_released(rec, subs);
}
