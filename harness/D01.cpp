// composite_disposable: every child disposed exactly once under any race of add / remove / clear / dispose.
#include "common.hpp"
#include <rpp/disposables/details/container.hpp>
#include "many.hpp"
using namespace h;

namespace
{
struct Child
{
    int                      id{};
    rpp::disposable_wrapper  w = rpp::disposable_wrapper::empty(); // the user's handle
    int                      count{};
    uint64_t                 disp_seq{};
    uint64_t                 add_b{}, add_r{}, rem_b{}, rem_r{}, own_b{};
    int                      reenter{}; // what the callback does with the composite
    int                      reenter_child{-1};
};
struct World
{
    rpp::composite_disposable_wrapper c = rpp::composite_disposable_wrapper::empty();
    std::deque<Child>                 ch;
    uint64_t                          disp_b{}, disp_r{}; // first dispose call begins / any dispose call has returned
    std::deque<std::pair<uint64_t, uint64_t>> clears;
    ~World() // the user's handles go: nothing re-enters any more
    {
        Quiet q;
        for (auto& k : ch)
            k.reenter = 0;
        disp_b = 1;
    }
    void make_child(Child& k)
    {
        k.w = rpp::make_callback_disposable([this, &k]() noexcept {
            int re;
            {
                Quiet q;
                if (++k.count > 1)
                    sim::fail("twice", "child %d disposed %d times", k.id, k.count);
                k.disp_seq = sim::seq();
                if (!disp_b && clears.empty() && !k.own_b)
                    sim::fail("premature", "child %d disposed although nobody disposed it or the composite", k.id);
                re = k.reenter;
                sim::log("child %d disposed", k.id);
            }
            sim::yield();
            if (re == 1 && k.reenter_child >= 0)
                add(ch[(size_t)k.reenter_child]);
            else if (re == 2 && k.reenter_child >= 0)
                remove(ch[(size_t)k.reenter_child]);
            else if (re == 3)
                dispose();
            else if (re == 4)
                (void)c.is_disposed();
        });
    }
    void add(Child& k, bool weak = false)
    {
        bool after;
        {
            Quiet q;
            if (k.add_b)
                return;
            k.add_b = sim::seq();
            after   = disp_r != 0;
            sim::log("add %d", k.id);
        }
        if (weak)
            c.add(k.w.as_weak());
        else
            c.add(k.w);
        Quiet q;
        k.add_r = sim::seq();
        SIM_CHECK(!after || k.count == 1, "not-disposed", "child %d added after dispose returned is alive", k.id);
    }
    void remove(Child& k)
    {
        {
            Quiet q;
            if (!k.add_r || k.rem_b)
                return;
            k.rem_b = sim::seq();
            sim::log("remove %d", k.id);
        }
        c.remove(k.w);
        Quiet q;
        k.rem_r = sim::seq();
    }
    void own_dispose(Child& k)
    {
        {
            Quiet q;
            if (!k.own_b)
                k.own_b = sim::seq();
        }
        k.w.dispose();
        Quiet q;
        (void)q;
    }
    void dispose()
    {
        uint64_t b;
        bool     first;
        {
            Quiet q;
            b     = sim::seq();
            first = !disp_b;
            if (first)
                disp_b = b;
            sim::log("dispose");
        }
        c.dispose();
        bool d = c.is_disposed();
        Quiet q;
        if (!disp_r)
            disp_r = sim::seq();
        SIM_CHECK(d, "not-disposed", "is_disposed is false after dispose returned");
    }
    void clear()
    {
        std::pair<uint64_t, uint64_t>* rec;
        bool before;
        {
            Quiet q;
            clears.push_back({sim::seq(), 0});
            rec    = &clears.back();
            before = !disp_b;
            sim::log("clear");
        }
        c.clear();
        Quiet q;
        rec->second = sim::seq();
        if (before && !disp_b && clears.size() == 1)
            for (auto& k : ch)
                if (k.add_r && k.add_r < rec->first && !k.rem_b)
                    SIM_CHECK(k.count == 1, "not-cleared", "child %d survives clear", k.id);
    }
    void judge(bool dropped)
    {
        Quiet    q;
        uint64_t d = disp_b;
        for (auto& k : ch)
        {
            if (!k.add_b)
            {
                SIM_CHECK(k.count == (k.own_b ? 1 : 0), "phantom", "child %d was never added but disposed", k.id);
                continue;
            }
            bool removed_first = k.rem_r && (!d || k.rem_r < d) && !k.own_b;
            for (auto& c : clears)
                removed_first &= !(k.add_b < (c.second ? c.second : ~0ull)) || k.rem_r < c.first;
            if (removed_first)
                SIM_CHECK(k.count == 0, "removed-disposed", "child %d was removed first but disposed", k.id);
            if ((d || dropped) && !k.rem_b)
                SIM_CHECK(k.count == 1, "lost", "child %d is alive although the composite is disposed", k.id);
        }
    }
};
void setup(World& w, unsigned n, bool reenter)
{
    for (unsigned i = 0; i < n; ++i)
    {
        Child* k;
        {
            Quiet q;
            w.ch.emplace_back();
            k     = &w.ch.back();
            k->id = (int)i;
        }
        if (reenter && sim::param(3, "reenter") == 1)
        {
            k->reenter       = (int)sim::param_range(1, 4, "re_op");
            k->reenter_child = (int)sim::param(n, "re_child");
        }
        w.make_child(*k);
    }
}
void random_op(World& w, unsigned n, unsigned op, unsigned child, bool weak)
{
    Child& k = w.ch[child % n];
    switch (op)
    {
    case 0:
    case 1:
    case 2:
    case 3: w.add(k, weak); break;
    case 4:
    case 5: w.remove(k); break;
    case 6: w.clear(); break;
    case 7: w.dispose(); break;
    case 8: w.own_dispose(k); break;
    default: sim::yield(3);
    }
}
void threads(World& w, unsigned n)
{
    unsigned nth = sim::param_range(2, 3, "threads");
    Threads  th;
    for (unsigned t = 0; t < nth; ++t)
    {
        std::vector<std::array<unsigned, 3>> ops;
        unsigned                             m = sim::param_range(1, 5, "ops");
        for (unsigned i = 0; i < m; ++i)
        {
            unsigned op = sim::param(10, "op"), ci = sim::param(n, "child"), weak = sim::param(3, "weak") == 1;
            Quiet    q;
            ops.push_back({op, ci, weak});
        }
        th.spawn([&w, n, ops] {
            bool was = false;
            for (size_t i = 0; i < ops.size(); ++i)
            {
                random_op(w, n, ops[i][0], ops[i][1], ops[i][2]);
                bool is = w.c.is_disposed();
                SIM_CHECK(is || !was, "reverted", "is_disposed went back to false");
                was = is;
            }
        });
    }
}
template<typename Make>
void run(Make make, bool reenter)
{
    World w;
    auto  strong = make();
    w.c          = strong.as_weak();
    unsigned n   = sim::param_range(2, 6, "children");
    setup(w, n, reenter);
    unsigned pre = sim::param(4, "pre");
    for (unsigned i = 0; i < pre && i < n; ++i)
        w.add(w.ch[i], sim::param(3, "weak") == 1);
    threads(w, n);
    w.judge(false);
    bool drop = sim::flip("drop");
    if (drop)
    {
        {
            Quiet q;
            if (!w.disp_b)
                w.disp_b = sim::seq();
        }
        strong = rpp::composite_disposable_wrapper::empty(); // last owner: destroying disposes
        w.judge(true);
    }
    else
    {
        w.dispose();
        w.judge(false);
    }
}
} // namespace

SIM_SCENARIO(dynamic, 30)
{
    run([] { return rpp::composite_disposable_wrapper::make(); }, false);
}
SIM_SCENARIO(dynamic_reentrant, 30)
{
    run([] { return rpp::composite_disposable_wrapper::make(); }, true);
}
SIM_SCENARIO(fixed_capacity, 20)
{
    run([] { return rpp::composite_disposable_wrapper::make<rpp::composite_disposable_impl<rpp::details::disposables::static_disposables_container<6>>>(); }, sim::flip("re"));
}
// nested composites: the tree is disposed exactly once, whoever starts
SIM_SCENARIO(tree, 20)
{
    World w;
    w.c        = rpp::composite_disposable_wrapper::make();
    unsigned n = sim::param_range(2, 5, "children");
    setup(w, n, false);
    auto inner = rpp::composite_disposable_wrapper::make();
    {
        Quiet q;
        w.disp_b = 1; // either composite may dispose children at any time
    }
    {
        Threads th;
        bool    inner_first = sim::flip("inner_first");
        th.spawn([&, inner_first] {
            if (inner_first)
                inner.dispose();
            else
                w.c.dispose();
        });
        th.spawn([&] {
            w.c.add(inner);
            for (auto& k : w.ch)
                inner.add(k.w);
        });
        if (sim::flip("third"))
            th.spawn([&] { w.c.clear(); });
    }
    w.c.dispose();
    inner.dispose();
    Quiet q;
    for (auto& k : w.ch)
        SIM_CHECK(k.count == 1, "lost", "child %d of the inner composite disposed %d times", k.id, k.count);
}
// adding allocates: a failing allocation must leave the composite usable and the child undisposed or disposed once
SIM_SCENARIO(add_out_of_memory, 10)
{
    World w;
    w.c        = rpp::composite_disposable_wrapper::make();
    unsigned n = sim::param_range(1, 6, "children");
    setup(w, n, false);
    {
        Threads th;
        th.spawn([&] {
            for (auto& k : w.ch)
            {
                try
                {
                    sim::enable_alloc_faults(300);
                    w.c.add(k.w);
                    sim::enable_alloc_faults(0);
                    Quiet q;
                    k.add_r = sim::seq();
                }
                catch (const std::bad_alloc&)
                {
                    sim::enable_alloc_faults(0);
                    sim::probe("add threw bad_alloc");
                }
            }
        });
        if (sim::flip("racing"))
            th.spawn([&] { w.dispose(); });
    }
    w.dispose();
    Quiet q;
    for (auto& k : w.ch)
        if (k.add_r)
            SIM_CHECK(k.count == 1, "lost", "child %d was added but disposed %d times", k.id, k.count);
}
// many children
SIM_SCENARIO(many_children, 1)
{
    unsigned n = many(300), removed = 0, disposed = 0;
    auto     d = rpp::composite_disposable_wrapper::make();
    std::vector<int>                     count(n);
    std::vector<rpp::disposable_wrapper> c;
    for (unsigned i = 0; i < n; ++i)
    {
        c.push_back(rpp::make_callback_disposable([&count, &disposed, i]() noexcept { ++count[i]; ++disposed; }));
        d.add(c.back());
    }
    unsigned by = sim::param_range(1, 8, "every"), off = sim::param(by, "offset");
    for (unsigned i = off; by > 1 && i < n; i += by)
    {
        d.remove(c[i]);
        count[i] = 1;
        ++removed;
    }
    SIM_CHECK(disposed == 0, "early", "%u of %u children disposed by remove", disposed, n);
    bool clear = sim::flip("clear");
    clear ? d.clear() : d.dispose();
    for (unsigned i = 0; i < n; ++i)
        SIM_CHECK(count[i] == 1, "count", "child %u of %u (%u removed) was disposed %d times", i, n, removed, count[i]);
    SIM_CHECK(disposed == n - removed, "count", "%u of %u children disposed, %u removed", disposed, n, removed);
    if (clear)
        d.dispose();
    SIM_CHECK(disposed == n - removed, "count", "disposed again");
}
