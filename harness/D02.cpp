// refcount_disposable: source disposed exactly at the last release or by direct disposal.
#include "common.hpp"
#include "many.hpp"
using namespace h;

namespace
{
using Ref  = rpp::composite_disposable_wrapper;
using Root = rpp::disposable_wrapper_impl<rpp::refcount_disposable>;
struct R
{
    Ref      w = Ref::empty();
    bool     strong_mode{};
    bool     obtained{}, refused{};
    uint64_t add_b{}, add_r{}, rel_b{}, rel_r{};
    int      child{}; // dispositions of the child attached to this reference
    bool     has_child{};
};
struct World
{
    Root          root = Root::make();
    int           src{};
    uint64_t      src_seq{}, direct_b{}, direct_r{}, gone_r{}; // gone_r: some call after which the source must be gone has returned
    std::deque<R> refs;
    rpp::disposable_wrapper source = rpp::disposable_wrapper::empty();
    World()
    {
        source = rpp::make_callback_disposable([this]() noexcept {
            Quiet q;
            if (++src > 1)
                sim::fail("twice", "source disposed %d times", src);
            src_seq = sim::seq();
            sim::log("source disposed");
            if (!direct_b)
                for (size_t i = 0; i < refs.size(); ++i)
                    if (refs[i].obtained && !refs[i].rel_b)
                        sim::fail("premature", "source disposed while reference %zu is alive", i);
            if (!direct_b)
            {
                bool any = false;
                for (auto& r : refs)
                    any |= r.rel_b != 0;
                if (!any)
                    sim::fail("premature", "source disposed although nothing was released");
            }
        });
        root.add(source);
    }
    R* add_ref(bool strong, bool with_child)
    {
        R*   r;
        bool must_refuse;
        {
            Quiet q;
            refs.emplace_back();
            r              = &refs.back();
            r->add_b       = sim::seq();
            r->strong_mode = strong;
            must_refuse    = gone_r != 0;
        }
        Ref got = Ref::empty();
        if (auto l = root.lock())
            got = l->add_ref(strong ? rpp::refcount_disposable::Mode::StrongRefRefSource : rpp::refcount_disposable::Mode::WeakRefStrongSource);
        bool dead = got.is_disposed();
        r->w      = got;
        {
            Quiet q;
            r->add_r    = sim::seq();
            r->obtained = !dead;
            r->refused  = dead;
            if (dead)
                r->rel_b = r->add_r;
            SIM_CHECK(!must_refuse || dead, "not-refused", "add_ref gave a live reference after the source was disposed");
            sim::log("add_ref -> %s", dead ? "refused" : "live");
            // only a concurrent or earlier disposal may refuse
            if (dead)
            {
                bool reason = direct_b != 0;
                for (auto& x : refs)
                    reason |= &x != r && x.rel_b && x.obtained;
                SIM_CHECK(reason, "refused", "add_ref refused although nothing was released or disposed");
            }
        }
        if (with_child)
        {
            {
                Quiet q;
                r->has_child = true;
            }
            r->w.add([r]() noexcept {
                Quiet q;
                if (++r->child > 1)
                    sim::fail("twice", "child of a reference disposed twice");
                sim::log("ref child disposed");
            });
            if (dead)
            {
                Quiet q;
                SIM_CHECK(r->child == 1, "lost", "child added to a refused reference is alive");
            }
        }
        return r;
    }
    void release(R* r, bool drop)
    {
        {
            Quiet q;
            if (r->rel_b)
                return;
            r->rel_b = sim::seq();
            sim::log("release");
        }
        if (drop && !r->strong_mode)
            r->w = Ref::empty();
        else
            r->w.dispose();
        Quiet q;
        r->rel_r = sim::seq();
        check_gone();
    }
    // when every reference ever handed out has been released and returned, the source is disposed
    void check_gone()
    {
        bool all = true, any = false;
        for (auto& r : refs)
        {
            if (r.obtained)
            {
                any = true;
                all &= r.rel_r != 0;
            }
            if (!r.add_r)
                all = false;
        }
        if (any && all)
        {
            SIM_CHECK(src == 1 || direct_b, "lost", "every reference is released but the source is alive");
            if (!gone_r && src == 1)
                gone_r = sim::seq();
        }
    }
    void direct()
    {
        {
            Quiet q;
            if (!direct_b)
                direct_b = sim::seq();
            sim::log("direct dispose");
        }
        root.dispose();
        bool d = root.is_disposed();
        Quiet q;
        if (!direct_r)
            direct_r = sim::seq();
        if (!gone_r)
            gone_r = sim::seq();
        SIM_CHECK(d, "not-disposed", "is_disposed false after dispose");
    }
};
} // namespace

static void run(bool strong_modes)
{
    World    w;
    unsigned pre  = sim::param(3, "pre");
    unsigned nth  = sim::param_range(2, 3, "threads");
    bool     keep = pre > 0 && sim::flip("keep"); // the first reference is held to the end
    std::vector<R*> given;
    for (unsigned i = 0; i < pre; ++i)
        given.push_back(w.add_ref(strong_modes && sim::flip("strong"), sim::flip("child")));
    bool direct_used = false;
    {
        Threads th;
        for (unsigned t = 0; t < nth; ++t)
        {
            std::vector<std::array<unsigned, 3>> ops;
            unsigned                             m = sim::param_range(1, 5, "ops");
            for (unsigned i = 0; i < m; ++i)
            {
                unsigned op = sim::param(9, "op"), a = sim::flip("a"), b = sim::flip("b");
                if (op == 8 && sim::param(2, "direct") == 1)
                    direct_used = true;
                else if (op == 8)
                    op = 7;
                Quiet q;
                ops.push_back({op, a, b});
            }
            R* mine = given.size() > t && !(keep && t == 0) ? given[t] : nullptr;
            th.spawn([&w, ops, mine, strong_modes] {
                std::vector<R*> own;
                if (mine)
                    own.push_back(mine);
                for (size_t i = 0; i < ops.size(); ++i)
                {
                    switch (ops[i][0])
                    {
                    case 0:
                    case 1:
                    case 2: own.push_back(w.add_ref(strong_modes && ops[i][1], ops[i][2])); break;
                    case 3:
                    case 4:
                    case 5:
                    case 6:
                        if (!own.empty())
                        {
                            w.release(own.back(), ops[i][1]);
                            own.pop_back();
                        }
                        break;
                    case 7: sim::yield(2); break;
                    case 8: w.direct(); break;
                    }
                }
                for (auto* r : own)
                    w.release(r, false);
            });
        }
    }
    if (keep && !direct_used)
    {
        bool root_disposed = w.root.is_disposed();
        {
            Quiet q;
            if (given[0]->obtained)
                SIM_CHECK(w.src == 0 && !root_disposed, "premature", "source disposed although a reference is held");
        }
    }
    for (auto* r : given)
        w.release(r, true);
    {
        Quiet q;
        w.check_gone();
    }
    bool any = false;
    {
        Quiet q;
        for (auto& r : w.refs)
            any |= r.obtained;
    }
    if (any)
        SIM_CHECK(w.root.is_disposed(), "lost", "every reference is released but is_disposed is false");
    else
        w.direct();
    auto* late = w.add_ref(false, true);
    SIM_CHECK(!late->obtained, "not-refused", "a new reference was handed out after the end");
    Quiet q;
    SIM_CHECK(w.src == 1, "lost", "source disposed %d times", w.src);
    for (auto& r : w.refs)
        if (r.has_child)
            SIM_CHECK(r.child == 1, "lost", "child of a reference disposed %d times", r.child);
}
SIM_SCENARIO(weak_refs, 30) { run(false); }
SIM_SCENARIO(mixed_refs, 20) { run(true); }
// the last handle of the root goes while references (which own it) live on
SIM_SCENARIO(root_dropped, 10)
{
    int  src = 0, kids = 0;
    {
        std::vector<Ref> refs;
        unsigned         n = sim::param_range(1, 3, "n");
        {
            auto root = Root::make();
            root.add([&src]() noexcept { Quiet q; src++; });
            for (unsigned i = 0; i < n; ++i)
            {
                refs.push_back(root.lock()->add_ref());
                refs.back().add([&kids]() noexcept { Quiet q; kids++; });
            }
        }
        SIM_CHECK(src == 0, "premature", "source disposed although references are alive");
        Threads th;
        for (auto& r : refs)
            th.spawn([r = std::move(r), d = sim::flip("dispose")]() mutable {
                if (d)
                    r.dispose();
                r = Ref::empty();
            });
    }
    Quiet q;
    SIM_CHECK(src == 1 && kids >= 1, "lost", "source disposed %d times", src);
}
// many references
SIM_SCENARIO(many_references, 1)
{
    unsigned n = many(300), at = 0;
    int      gone = 0;
    auto     root = Root::make();
    auto     ptr  = root.lock();
    ptr->add(rpp::make_callback_disposable([&]() noexcept { ++gone; }));
    std::vector<Ref> refs;
    for (unsigned i = 0; i < n; ++i)
        refs.push_back(ptr->add_ref());
    bool rev = sim::flip("reverse");
    for (unsigned i = 0; i < n; ++i)
    {
        SIM_CHECK(gone == 0, "premature", "source disposed with %u of %u references left", n - i, n);
        at = rev ? n - 1 - i : i;
        refs[at].dispose();
        refs[at].dispose();
    }
    SIM_CHECK(gone == 1, "not-released", "all %u references released but the source was disposed %d times", n, gone);
}
