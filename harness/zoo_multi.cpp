#include "zoo.hpp"
namespace h
{
namespace
{
// what a user function that chooses inner streams returns for its k-th call
struct Pick
{
    Zoo*             z;
    std::vector<Obs> obs;
    std::shared_ptr<int> n = std::make_shared<int>(0);
    Obs operator()() const
    {
        z->user();
        int k;
        {
            Quiet q;
            k = (*n)++;
        }
        return obs[(size_t)k % obs.size()];
    }
};
Pick pick(Zoo* z, unsigned n)
{
    Pick p{z, {}};
    for (unsigned i = 0; i < n; ++i)
    {
        if (i)
            z->note(",");
        p.obs.push_back(z->leaf());
    }
    return p;
}
} // namespace

Obs Zoo::multi(unsigned op, Obs in)
{
    namespace o = rpp::ops;
    Zoo* z      = this;
    joins       = true;
    struct Close
    {
        Zoo* z;
        ~Close() { z->note(")"); }
    };
    switch (op)
    {
    default:
    case 0:
    {
        note("|merge_with(");
        Close c{z};
        Obs   a = leaf();
        if (sim::flip("three"))
        {
            note(",");
            Obs b = leaf();
            return (in | o::merge_with(a, b)).as_dynamic();
        }
        return (in | o::merge_with(a)).as_dynamic();
    }
    case 1:
    case 2:
    {
        note("|flat_map(");
        Close c{z};
        Pick  p = pick(z, 2);
        return (in | o::flat_map([p](int) { return p(); })).as_dynamic();
    }
    case 3:
    {
        note("|map|concat(");
        Close c{z};
        Pick  p = pick(z, 2);
        return (in | o::map([p](int) { return p(); }) | o::concat()).as_dynamic();
    }
    case 4:
    case 5:
    {
        note("|map|switch(");
        Close c{z};
        Pick  p = pick(z, 2);
        return (in | o::map([p](int) { return p(); }) | o::switch_on_next()).as_dynamic();
    }
    case 6:
    {
        note("|zip(");
        Close c{z};
        Obs   a = leaf();
        return (in | o::zip([z](int v, int) { z->user(); return v; }, a)).as_dynamic();
    }
    case 7:
    {
        note("|combine(");
        Close c{z};
        Obs   a = leaf();
        return (in | o::combine_latest([z](int v, int) { z->user(); return v; }, a)).as_dynamic();
    }
    case 8:
    {
        note("|with_latest(");
        Close c{z};
        Obs   a = leaf();
        return (in | o::with_latest_from([z](int v, int) { z->user(); return v; }, a)).as_dynamic();
    }
    case 9:
    case 10:
    {
        note("|take_until(");
        Close c{z};
        Obs   a = leaf();
        return (in | o::take_until(a)).as_dynamic();
    }
    case 11:
    {
        note("|resume_next(");
        Close c{z};
        Pick  p = pick(z, 1);
        return (in | o::on_error_resume_next([p](const std::exception_ptr&) { return p(); })).as_dynamic();
    }
    case 12:
    {
        note("|retry_when(");
        Close c{z};
        Pick  p = pick(z, 1);
        p.obs.push_back(rpp::source::error<int>(make_err(6)).as_dynamic());
        return (in | o::retry_when([p](const std::exception_ptr&) { return p(); })).as_dynamic();
    }
    case 13:
    {
        note("|window_toggle(");
        Close c{z};
        Obs   a = leaf();
        note(";");
        Pick p = pick(z, 1);
        return (in | o::window_toggle(a, [p](int) { return p(); }) | o::merge()).as_dynamic();
    }
    case 14:
    {
        note("|concat_with(");
        Close c{z};
        Obs   a = leaf();
        return rpp::source::concat(in, a).as_dynamic();
    }
    case 15:
    {
        note("|start_with(");
        Close c{z};
        Obs   a = leaf();
        return (in | o::start_with(a)).as_dynamic();
    }
    case 16: note("|publish|ref_count("); { Close c{z}; } return (in | o::publish() | o::ref_count()).as_dynamic();
    case 17:
    {
        note("|map|merge(");
        Close c{z};
        Pick  p = pick(z, 3);
        return (in | o::map([p](int) { return p(); }) | o::merge()).as_dynamic();
    }
    case 18: note("|replay|ref_count("); { Close c{z}; } return (in | o::multicast<rpp::subjects::replay_subject>() | o::ref_count()).as_dynamic();
    }
}
} // namespace h
