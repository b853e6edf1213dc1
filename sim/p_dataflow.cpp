// C01, C02: evaluation order and results
#include "session.hpp"

namespace sim
{

// ---------------------------------------------------------------- C01
static Plan gen01(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.min_blocks = 3;
    o.max_blocks = r.chance(0.2) ? 24 : 12;
    gen_model(r, p, o);
    add_probes(r, p, r.range(1, 3), true);
    TimesOpt t;
    t.repeats = true;
    gen_requests(r, p, t);
    return p;
}
static void exec01(const Plan& p)
{
    heap_on(p.cfg().u("layout"), p.cfg().i("fill"));
    Session s(p);
    if (!s.good) return;
    Online on(s, "order");
    bool probe = !on.probes.empty();
    if (!probe)
    {
        invalid();
        return;
    }
    // only the observed evaluations are judged here, not the step sizes
    s.advance_ref = false;
    drive(s, "order", &on);
    if (failed()) return;
    COUNTN("evaluations followed", uint64_t(on.evals));
    COUNTN("steps committed", uint64_t(on.commits));
    if (on.evals >= 2 && on.users.size() >= 2) nontrivial();
}
static PropReg r01({"C01", gen01, exec01});

// ---------------------------------------------------------------- C02
static Plan gen02(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.min_blocks = 2;
    o.max_blocks = r.chance(0.2) ? 24 : 10;
    o.integ      = r.chance(0.75);
    o.tint       = o.integ;
    o.probe      = r.chance(0.3);
    gen_model(r, p, o);
    TimesOpt t;
    gen_requests(r, p, t);
    return p;
}
static void exec02(const Plan& p)
{
    heap_on(p.cfg().u("layout"), p.cfg().i("fill"));
    Session s(p);
    if (!s.good) return;
    int n = drive(s, "values").ok;
    if (!s.ref->usable()) log_u(77);
    if (s.sp.stateful()) COUNT("models with states");
    if (n >= 2 && s.sp.blks.size() >= 2) nontrivial();
    COUNTN("requests compared", uint64_t(n));
}
static PropReg r02({"C02", gen02, exec02});

} // namespace sim
