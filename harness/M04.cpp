// zip: the n-th result combines the n-th values; nothing lost, reused or mispaired; exact end.
#include "multi.hpp"
#include "many.hpp"
using namespace h;

SIM_SCENARIO(zip, 8)
{
    Rec rec;
    rec.yields = sim::param(3, "yields");
    std::deque<Src> srcs;
    unsigned        n;
    {
        Threads th;
        n = sim::param_range(2, 4, "n");
        setup_sources(srcs, n, th, 4, true, 1, 1);
        namespace ops = rpp::ops;
        auto& s       = srcs;
        auto  o       = [&](size_t i) { return s[i].observable() | tok(); };
        if (n == 2)
        {
            if (sim::flip("tuple"))
                o(0) | ops::zip(o(1)) | ops::map([](const std::tuple<Tok, Tok>& t) { return std::apply(PackSel{}, t); }) | ops::subscribe(observer(rec));
            else
                o(0) | ops::zip(PackSel{}, o(1)) | ops::subscribe(observer(rec));
        }
        else if (n == 3)
            o(0) | ops::zip(PackSel{}, o(1), o(2)) | ops::subscribe(observer(rec));
        else
            o(0) | ops::zip(PackSel{}, o(1), o(2), o(3)) | ops::subscribe(observer(rec));
    }
    Quiet       q;
    auto        subs = all_subs(srcs, nullptr);
    const char* nm   = rec.name.c_str();
    auto        vals = rec.values();
    uint64_t    ferr = first_error_begin(subs);
    for (size_t i = 0; i < vals.size(); ++i)
        SIM_CHECK(unpack(vals[i], n) == std::vector<int>(n, (int)i), "mispaired", "%s: result %zu combines indices %s", nm, i, str(unpack(vals[i], n)).c_str());
    size_t most = 99, must = 99;
    bool   all_done = true;
    for (auto* s : per_source(srcs))
    {
        size_t a = s->emits.size(), b = 0;
        for (auto& e : s->emits)
            b += e.r && e.r < ferr;
        most = std::min(most, a);
        must = std::min(must, b);
        all_done &= s->term == 'C';
    }
    // a result appears only when all its values have been emitted
    for (size_t i = 0; i < vals.size() && i < most; ++i)
        for (auto* s : subs)
            SIM_CHECK(s->emits[i].b < rec.ev[i].seq, "phantom", "%s: result %zu before its values", nm, i);
    SIM_CHECK(vals.size() <= most && vals.size() >= must, "lost", "%s: %zu results, expected %zu to %zu", nm, vals.size(), must, most);
    SubInfo* w = judge_error(rec, subs);
    if (ferr != ~0ull)
        SIM_CHECK(w, "error-lost", "%s: a source failed but the observer saw %s", nm, rec.str().c_str());
    else if (all_done)
        SIM_CHECK(rec.ending() == 'C', "no-completion", "%s: all sources completed but the observer saw %s", nm, rec.str().c_str());
    if (rec.ending() == 'C')
    {
        bool exhausted = all_done;
        for (auto* s : subs)
            if (s->term == 'C' && s->term_b < rec.ev.back().seq && s->emits.size() <= vals.size())
                exhausted = true; // no further full tuple is possible
        SIM_CHECK(exhausted, "early-completion", "%s completed although another tuple is possible", nm);
    }
    judge_released(rec, subs);
}

// one source far ahead of the other
SIM_SCENARIO(zip_backlog, 1)
{
    unsigned n = many(66000), m = sim::flip("fewer") ? n - std::min(n, many(300)) : n;
    bool     mirror = sim::flip("mirror");
    rpp::subjects::publish_subject<int> a, b;
    uint64_t                            got = 0, bad = 0;
    char                                end = '-';
    (mirror ? (b.get_observable() | rpp::ops::zip([](int y, int x) { return std::pair{x, y}; }, a.get_observable())).as_dynamic()
            : (a.get_observable() | rpp::ops::zip([](int x, int y) { return std::pair{x, y}; }, b.get_observable())).as_dynamic())
        .subscribe([&](const std::pair<int, int>& p) { bad += p.first != (int)got || p.second != (int)got + 7; ++got; }, [&](const std::exception_ptr&) { end = 'E'; }, [&] { end = 'C'; });
    for (unsigned i = 0; i < n; ++i)
        a.get_observer().on_next((int)i);
    a.get_observer().on_completed();
    for (unsigned i = 0; i < m; ++i)
        b.get_observer().on_next((int)i + 7);
    SIM_CHECK(got == std::min(n, m) && !bad, "wrong-values", "%u and %u values: %llu pairs, %llu of them wrong", n, m, (unsigned long long)got, (unsigned long long)bad);
    b.get_observer().on_completed();
    SIM_CHECK(end == 'C', "wrong-end", "%u and %u values: ended %c", n, m, end);
}
