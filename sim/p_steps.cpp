// C03-C08: integration, step control, commits, the clock
#include "session.hpp"

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

// ---------------------------------------------------------------- C03: fixed-step recurrences
static Plan gen03(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    p.cfg().set("meth", r.chance(0.35) ? "euler" : "rk4");
    GenOpt o;
    o.need_integ = true;
    o.deriv      = false;
    o.delay      = r.chance(0.3);
    o.max_blocks = r.chance(0.2) ? 20 : 9;
    gen_model(r, p, o);
    TimesOpt t;
    t.max_n = 8;
    gen_requests(r, p, t);
    return p;
}
static void exec03(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    if (s.meth != "euler" && s.meth != "rk4")
    {
        invalid();
        return;
    }
    s.tol = 1e-10;
    auto d = drive(s, "recurrence", nullptr, true);
    COUNTN("fixed steps compared with the recurrence", uint64_t(d.ok));
    if (d.ok >= 1) nontrivial();
}
static PropReg r03({"C03", gen03, exec03});

// ---------------------------------------------------------------- C04: rejected trials leave no trace
static Plan gen04(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.need_integ = true;
    o.max_blocks = r.chance(0.2) ? 20 : 10;
    gen_model(r, p, o);
    add_probes(r, p, r.range(1, 2));
    TimesOpt t;
    t.repeats    = r.chance(0.3);
    t.max_mn_exp = 8;
    gen_requests(r, p, t);
    gen_script(r, p, r.range(1, 12), 0.3);
    return p;
}
static void exec04(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    Online on(s, "trace");
    auto d = drive(s, "trace", &on);
    COUNTN("trial steps rejected", uint64_t(s.rejected));
    COUNTN("steps accepted", uint64_t(s.steps));
    if (s.rejected >= 1 && d.ok >= 1) nontrivial();
}
static PropReg r04({"C04", gen04, exec04});

// ---------------------------------------------------------------- C05: RKF45
// a well-conditioned oscillator system out of library blocks
static void gen_oscillator(Rng& r, Plan& p)
{
    int n = r.range(1, 3), id = 1, sig = 1;
    for (int k = 0; k < n; k++)
    {
        double w = dyadic(r, 0.5, 4, 16), c = dyadic(r, 0, 2, 16);
        // x' = w v, v' = -w x - c v + f(t)
        int x = sig++, v = sig++, wv = sig++, wx = sig++, cv = sig++, f = sig++, a = sig++;
        p.add("blk").set("id", id++).set("type", "integ").set("ty", "s").set("in", wv).set("out", x).set("p", dyadic(r, -1, 1, 16));
        p.add("blk").set("id", id++).set("type", "integ").set("ty", "s").set("in", a).set("out", v).set("p", dyadic(r, -1, 1, 16));
        p.add("blk").set("id", id++).set("type", "gain").set("ty", "s").set("in", v).set("out", wv).set("p", w);
        p.add("blk").set("id", id++).set("type", "gain").set("ty", "s").set("in", x).set("out", wx).set("p", -w);
        p.add("blk").set("id", id++).set("type", "gain").set("ty", "s").set("in", v).set("out", cv).set("p", -c);
        p.add("ext").set("id", f).set("ty", "s").set("fn", 0).set("p", Vec{0, dyadic(r, -1, 1, 16), dyadic(r, 0, 4, 16), 0});
        p.add("blk").set("id", id++).set("type", "add").set("ty", "s").set("in", std::vector<int>{wx, cv, f}).set("out", a);
    }
    shuffle_order(r, p);
}
static Plan gen05(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    p.cfg().set("meth", "rkf45");
    TimesOpt t;
    t.max_mn_exp = 10;
    if (r.chance(0.3))
    {
        p.cfg().set("osc", 1);
        gen_oscillator(r, p);
        t.max_dt = 0.5;
        t.min_n  = 3;
        t.max_n  = 12;
        gen_requests(r, p, t);
        p.cfg().set("mn", std::ldexp(1.0, -17));
        return p;
    }
    GenOpt o;
    o.need_integ = true;
    o.deriv      = false;
    o.delay      = false;
    o.max_blocks = 8;
    o.smooth     = r.chance(0.6);
    gen_model(r, p, o);
    // stiff or fast parts make the error control work
    if (r.chance(0.8))
    {
        int n = r.range(1, 2);
        for (int k = 0; k < n; k++)
        {
            int a = 500 + 10 * k;
            double rate = -std::ldexp(1.0, r.range(2, 7));
            p.add("blk").set("id", a).set("type", "integ").set("ty", "s").set("in", a + 3).set("out", a + 1).set("p", dyadic(r, -2, 2, 8)).set("ord", r.below(30));
            p.add("blk").set("id", a + 1).set("type", "gain").set("ty", "s").set("in", a + 1).set("out", a + 2).set("p", rate).set("ord", r.below(30));
            p.add("ext").set("id", a + 4).set("ty", "s").set("fn", o.smooth || r.chance(0.5) ? 0 : 2).set("p", r.chance(0.5) ? Vec{0, dyadic(r, -30, 30, 4), dyadic(r, 1, 40, 4), 0} : Vec{0.5137, 20, -20, 1});
            p.add("blk").set("id", a + 2).set("type", "add").set("ty", "s").set("in", std::vector<int>{a + 2, a + 4}).set("out", a + 3).set("ord", r.below(30));
        }
    }
    // many easy states besides
    if (r.chance(0.25))
    {
        int n = r.range(3, 30);
        for (int k = 0; k < n; k++)
        {
            int a = 600 + 3 * k;
            p.add("blk").set("id", a).set("type", "const").set("ty", "s").set("out", a).set("p", dyadic(r, -2, 2, 8)).set("ord", r.below(30));
            p.add("blk").set("id", a + 1).set("type", "integ").set("ty", "s").set("in", a).set("out", a + 1).set("p", dyadic(r, -2, 2, 8)).set("ord", r.below(30));
        }
    }
    gen_requests(r, p, t);
    return p;
}
static void exec05(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    if (s.meth != "rkf45")
    {
        invalid();
        return;
    }
    bool osc = p.cfg().i("osc");
    std::unique_ptr<Ref> fine;
    if (osc)
    {
        // must still be what gen_oscillator makes
        for (auto& b : s.sp.blks)
            if (b.type != "integ" && b.type != "gain" && b.type != "add")
            {
                invalid();
                return;
            }
        fine = std::make_unique<Ref>(s.sp);
    }
    const char* cls = "tolerance";
    Ref& ref        = *s.ref;
    long checked = 0, big = 0, small = 0;
    double tstart = 0;
    for (auto* op : p.all("run"))
    {
        double t = op->d("t"), from = s.tprev;
        if (s.inited && t <= from) continue;
        if (!s.inited)
        {
            if (!s.request(*op, cls)) return;
            tstart = t;
            if (fine) fine->init(t);
            continue;
        }
        Outcome o = s.request_raw(*op);
        if (failed()) return;
        if (!o.ok())
        {
            violation(cls, "request failed: " + o.what);
            return;
        }
        auto& tr = s.rs->stepper->trials;
        std::vector<std::pair<double, double>> acc;
        if (!accepted_steps(tr, from, t, acc))
        {
            violation(cls, "the trials do not lead to the requested time");
            return;
        }
        for (std::size_t k = 0; k < tr.size(); k++)
        {
            double t0 = tr[k].t0, t1 = tr[k].t1, h = t1 - t0;
            bool last     = k + 1 == tr.size();
            bool accepted = last || tr[k + 1].t0 == t1;
            std::vector<Vec> z;
            ref.begin(t0);
            auto x = ref.integrate("rkf45", t0, t1, &z);
            double est = 0;
            for (std::size_t a = 0; a < x.size(); a++)
                for (std::size_t b = 0; b < x[a].size(); b++)
                {
                    double e = std::fabs(x[a][b] - z[a][b]);
                    if (!(e <= est)) est = e;
                }
            if (accepted)
            {
                ref.eval(t1, &x);
                ref.commit(t1);
            }
            if (!ref.usable() || std::isnan(est))
            {
                COUNT("runs ended early: undecidable comparison or large values");
                return;
            }
            double rate = est / h, slack = 1e-11 * (1 + ref.biggest) / h;
            checked++;
            auto what = [&] {
                return fmt("trial [%s, %s] (difference of the embedded solutions %.4g per second): ", num(t0).c_str(),
                           num(t1).c_str(), rate);
            };
            if (rate > 1.65e-3 + slack)
            {
                big++;
                if (accepted && h > s.mn * (1 + 1e-9))
                {
                    violation(cls, what() + fmt("accepted, although longer than the minimum step %.4g", s.mn));
                    return;
                }
            }
            if (rate < 1.5e-3 - slack && !accepted)
            {
                violation(cls, what() + "not accepted");
                return;
            }
            if (rate < 0.9e-4 - slack)
            {
                small++;
                if (accepted && !last && tr[k + 1].t1 < t)
                {
                    double nh = tr[k + 1].t1 - tr[k + 1].t0;
                    if (!(nh > h * (1 + 1e-9)) && h < s.mx * (1 - 1e-9))
                    {
                        violation(cls, what() + fmt("the next step of %.4g is not longer", nh));
                        return;
                    }
                }
            }
        }
        g_sh->simtime += t - from;
        s.tprev = t;
        log_signals(*s.m);
        for (auto& q : tr) log_d(q.t1);
        log_u(tr.size());
        if (!compare(*s.m, ref, cls, fmt("after request %ld (t=%s)", s.nreq, num(t).c_str()))) return;
        if (fine)
        {
            int n = 1 + int((t - from) * 256);
            for (int k = 0; k < n; k++)
            {
                double a = from + (t - from) * k / n, b = k + 1 == n ? t : from + (t - from) * (k + 1) / n;
                fine->step("rk4", a, b);
            }
            double bound = 0.02 * (t - tstart) + 1e-9;
            for (int k : fine->integ)
            {
                int sg   = fine->nodes[k].out[0];
                double e = std::fabs(s.m->sigs.at(sg).get()[0] - fine->sig.at(sg)[0]);
                if (!(e <= bound))
                {
                    violation(cls, fmt("t=%s: state s%d is off by %.4g after %.4g seconds", num(t).c_str(), sg, e, t - tstart));
                    return;
                }
            }
            COUNT("states compared with a fine solution");
        }
    }
    COUNTN("trials checked", uint64_t(checked));
    COUNTN("trials outside the tolerance", uint64_t(big));
    COUNTN("trials far inside the tolerance", uint64_t(small));
    if (checked >= 3) nontrivial();
}
static PropReg r05({"C05", gen05, exec05});

// ---------------------------------------------------------------- C06: landing on the requested time
static Plan gen06(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    p.cfg().set("meth", r.chance(0.8) ? "euler" : "rk4").set("grow", r.chance(0.7) ? 2 : 1.5);
    GenOpt o;
    o.need_integ = true;
    o.max_blocks = 4;
    o.min_blocks = 1;
    gen_model(r, p, o);
    add_probes(r, p, 1);
    // times, not only friendly ones
    double t = r.chance(0.3) ? 0 : r.chance(0.5) ? r.real(-10, 10) : r.real(-1, 1) * std::pow(10.0, r.range(0, 14));
    int n    = r.range(1, 5);
    p.add("run").set("t", t);
    double mn, mx;
    if (r.chance(0.6))
    {
        mn = std::pow(10.0, -r.range(1, 5)) * r.real(1, 9);
        mx = mn * r.real(1.01, 1000);
    }
    else if (r.chance(0.5))
    {
        mn = std::ldexp(1.0, -r.range(3, 10));
        mx = std::ldexp(1.0, -r.range(0, 2));
    }
    else
    {
        mn = std::pow(10.0, -r.range(5, 25)) * r.real(1, 9);
        mx = r.real(0.1, 2);
    }
    p.cfg().set("mn", mn).set("mx", mx);
    int total = 0;
    for (int k = 0; k < n; k++)
    {
        double dt;
        switch (r.below(4))
        {
        case 0: dt = mn * r.real(0.1, 4); break;
        case 1: dt = mx * r.real(0.1, 6); break;
        case 2: dt = mx * r.range(1, 4); break;
        default: dt = r.real(0, 1); break;
        }
        dt      = std::min(dt, 300 * mx);
        double u = t + dt;
        if (!(u > t)) u = std::nextafter(t, 1e300);
        t = u;
        p.add("run").set("t", t);
        total++;
    }
    int m = r.range(0, 25), k = r.below(2);
    for (int j = 0; j < m; j++)
    {
        Line& l = p.add("rej");
        l.set("k", k);
        switch (r.below(8))
        {
        case 0: l.set("abs", 0.0); break;
        case 1: l.set("abs", r.chance(0.5) ? -1.0 : 1e300); break;
        case 2: l.set("abs", mn * r.real(0.2, 3)); break;
        case 3: l.set("abs", mx * r.real(0.5, 2)); break;
        case 4: l.set("f", r.real(0.999, 1)); break;
        case 5: l.set("abs", r.chance(0.5) ? 1e-300 : 5e-324); break;
        default: l.set("f", r.real(0, 1)); break;
        }
        k += r.chance(0.7) ? 1 : r.range(1, 8);
    }
    return p;
}
static void exec06(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    const char* cls = "landing";
    if (!s.sp.stateful() || !(s.mn > 0) || !(s.mx > s.mn) || s.mn < 1e-30 || s.mx > 1e6 || !(p.cfg().d("grow") >= 1.25) ||
        p.all("rej").size() > 100)
    {
        invalid();
        return;
    }
    std::vector<double> commits;
    int probe = -1;
    for (auto& b : s.sp.blks)
        if (b.type == "probe") probe = b.id;
    s.m->hk.on = [&](char kind, int id, double t) {
        log_u((uint64_t(kind) << 24) + unsigned(id));
        if (kind == 'C' && id == probe) commits.push_back(t);
    };
    long nscript = long(p.all("rej").size());
    double from  = 0;
    bool first   = true;
    long limit   = 0;
    auto inner   = s.rs->stepper->propose;
    auto* st     = s.rs->stepper.get();
    st->propose  = [&, inner](double t0, double t1, double h, long k) {
        if (long(st->trials.size()) > limit) throw UserFault("too many trials");
        return inner ? inner(t0, t1, h, k) : h;
    };
    long total = 0, rejected = 0;
    for (auto* op : p.all("run"))
    {
        double t = op->d("t");
        if (!first && t <= from) continue;
        commits.clear();
        if (!first && (t - from) / s.mx > 2000) continue;
        limit     = (nscript + 1) * 400 + long(8 * (t - from) / s.mx) + 50;
        Outcome o = s.request_raw(*op);
        if (failed()) return;
        if (o.kind == 3)
        {
            violation(cls, fmt("more than %ld trials on the way from %s to %s", limit, num(from).c_str(), num(t).c_str()));
            return;
        }
        if (!o.ok())
        {
            violation(cls, "request failed: " + o.what);
            return;
        }
        if (first)
        {
            first = false;
            from  = t;
            continue;
        }
        auto& tr = st->trials;
        std::vector<double> ends;
        double cur = from;
        for (std::size_t k = 0; k < tr.size(); k++)
        {
            auto show = [&] { return fmt("trial %zu [%s, %s] of the run from %s to %s ", k, num(tr[k].t0).c_str(), num(tr[k].t1).c_str(), num(from).c_str(), num(t).c_str()); };
            if (tr[k].t0 != cur)
            {
                violation(cls, show() + "does not start at " + num(cur));
                return;
            }
            if (!(tr[k].t1 > cur) || !(tr[k].t1 <= t))
            {
                violation(cls, show() + "does not lead forward, or leads too far");
                return;
            }
            double h   = tr[k].t1 - tr[k].t0;
            double ulp = std::nextafter(std::fabs(tr[k].t1) + std::fabs(tr[k].t0), 1e300) - (std::fabs(tr[k].t1) + std::fabs(tr[k].t0));
            if (k > 0 && h > s.mx + 2 * ulp)
            {
                violation(cls, show() + fmt("is longer than the maximum step %s", num(s.mx).c_str()));
                return;
            }
            if (k > 0 && tr[k].t1 != t && h < s.mn - 2 * ulp)
            {
                violation(cls, show() + fmt("is shorter than the minimum step %s", num(s.mn).c_str()));
                return;
            }
            bool last = k + 1 == tr.size();
            if (last || tr[k + 1].t0 != cur)
            {
                cur = tr[k].t1;
                ends.push_back(cur);
            }
            else
            {
                rejected++;
                if (!(tr[k + 1].t1 < tr[k].t1))
                {
                    violation(cls, show() + "was repeated, but not shorter");
                    return;
                }
            }
            log_d(tr[k].t1);
        }
        log_u(tr.size());
        total += long(tr.size());
        if (cur != t)
        {
            violation(cls, fmt("the run from %s to %s ended at %s", num(from).c_str(), num(t).c_str(), num(cur).c_str()));
            return;
        }
        if (probe >= 0 && commits != ends)
        {
            violation(cls, fmt("the run from %s to %s committed the times %s, but its steps ended at %s", num(from).c_str(),
                               num(t).c_str(), show(commits).c_str(), show(ends).c_str()));
            return;
        }
        if (t - from < 1e3) g_sh->simtime += t - from;
        from = t;
    }
    COUNTN("trials", uint64_t(total));
    COUNTN("trials rejected", uint64_t(rejected));
    if (total >= 2) nontrivial();
}
static PropReg r06({"C06", gen06, exec06});

// ---------------------------------------------------------------- C07: commits
static Plan gen07(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.need_integ = r.chance(0.85);
    o.integ      = o.need_integ;
    o.tint       = o.need_integ;
    o.max_blocks = 9;
    gen_model(r, p, o);
    add_probes(r, p, r.range(2, 5), true);
    TimesOpt t;
    t.repeats    = r.chance(0.3);
    t.max_mn_exp = 7;
    gen_requests(r, p, t);
    gen_script(r, p, r.range(0, 10), 0.3);
    return p;
}
static void exec07(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    const char* cls = "commit";
    Online on(s, cls);
    s.advance_ref = false;
    if (on.probes.empty())
    {
        invalid();
        return;
    }
    // one evaluation's commit: the hooks seen since the previous change of evaluation
    std::map<int, int> pre, post;
    double tcommit = NAN;
    std::vector<double> commits;
    bool in_commit = false;
    double tseg    = NAN;
    auto close_commit = [&] {
        if (!in_commit || failed()) return;
        in_commit = false;
        for (int id : on.probes)
            if (post[id] != 1)
            {
                violation(cls, fmt("block b%d got %d end-of-step calls for t=%s", id, post[id], num(tcommit).c_str()));
                return;
            }
        pre.clear();
        post.clear();
    };
    auto follow = s.m->hk.on;
    bool init   = false;
    s.m->hk.on  = [&](char kind, int id, double t) {
        if (failed()) return;
        if (kind == 'C')
        {
            if (!in_commit)
            {
                in_commit = true;
                tcommit   = t;
                commits.push_back(t);
                for (int b : on.probes)
                    if (pre[b] < 1)
                    {
                        violation(cls, fmt("the step to t=%s was committed without a begin-of-step call to block b%d", num(t).c_str(), b));
                        return;
                    }
            }
            if (t != tcommit || t != tseg)
            {
                violation(cls, fmt("block b%d got an end-of-step call for t=%s in the evaluation at t=%s", id, num(t).c_str(), num(tseg).c_str()));
                return;
            }
            if (++post[id] > 1)
            {
                violation(cls, fmt("block b%d got %d end-of-step calls for t=%s", id, post[id], num(t).c_str()));
                return;
            }
        }
        else
            close_commit();
        if (failed()) return;
        if (kind == 'I') tseg = t;
        if (kind == 'P') pre[id]++;
        if (kind == 'P' && init)
        {
            Sys sys;
            for (auto& e : s.sp.exts)
            {
                if (!s.sp.used.count(e.id)) continue;
                auto& sig = s.m->sigs.at(e.id);
                Vec v     = time_fn(e.ty, e.sz, e.fn, e.p, t);
                if (sig.assigned() && sig.get() == v) continue;
                violation(cls, fmt("when block b%d got its begin-of-step call for t=%s, external input s%d was ", id, num(t).c_str(), e.id) +
                                   (sig.assigned() ? show(sig.get()) + " instead of " + show(v) : "not delivered"));
                return;
            }
            if (!s.sp.exts.empty()) COUNT("external inputs checked at begin-of-step calls");
        }
        follow(kind, id, t);
        if (kind == 'C' && on.comparing && !failed())
            compare(*s.m, *on.ref, cls, fmt("when block b%d got its end-of-step call for t=%s", id, num(t).c_str()));
    };
    // begin-of-step calls of an initialization may come before or after its external inputs
    long total = 0, nrun = 0;
    double last = -INFINITY;
    for (auto& op : p.lines)
    {
        if (op.key != "run" && op.key != "rep") continue;
        Line l = op;
        if (op.key == "rep")
        {
            if (!init) continue;
            l.set("t", s.tprev);
        }
        double t = l.d("t"), from = s.tprev;
        if (init && op.key == "run" && t <= from) continue;
        commits.clear();
        if (!s.request(l, cls)) return;
        close_commit();
        on.segment_end();
        if (failed()) return;
        std::vector<double> want;
        if (init && t > from && s.sp.stateful())
        {
            std::vector<std::pair<double, double>> acc;
            if (!accepted_steps(s.rs->stepper->trials, from, t, acc))
            {
                violation(cls, "the trials do not lead to the requested time");
                return;
            }
            for (auto& a : acc) want.push_back(a.second);
            COUNTN("trials rejected", uint64_t(s.rs->stepper->trials.size() - acc.size()));
        }
        else
            want.push_back(t);
        if (commits != want)
        {
            violation(cls, fmt("the request for t=%s committed %s, its accepted steps ended at %s", num(t).c_str(), show(commits).c_str(), show(want).c_str()));
            return;
        }
        for (double c : commits)
        {
            if (!(c > last) && op.key == "run")
            {
                violation(cls, "commit times do not increase");
                return;
            }
            last = c;
        }
        total += long(commits.size());
        init = true;
        nrun++;
    }
    COUNTN("commits", uint64_t(total));
    if (nrun >= 2) nontrivial();
}
static PropReg r07({"C07", gen07, exec07});

// ---------------------------------------------------------------- C08: the clock
static Plan gen08(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.need_integ = true;
    o.max_blocks = 9;
    gen_model(r, p, o);
    if (r.chance(0.6)) add_probes(r, p, 1);
    TimesOpt t;
    t.repeats    = true;
    t.backs      = true;
    t.max_mn_exp = 7;
    gen_requests(r, p, t);
    if (r.chance(0.3)) gen_script(r, p, r.range(1, 5), 0.3);
    return p;
}
static void exec08(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    std::unique_ptr<Online> on;
    for (auto& b : s.sp.blks)
        if (b.type == "probe" && !on) on = std::make_unique<Online>(s, "clock");
    auto d = drive(s, "clock", on.get());
    COUNTN("requests after a fault", uint64_t(d.ok));
    if (d.ok >= 1 && d.refused + d.repeats >= 1) nontrivial();
}
static PropReg r08({"C08", gen08, exec08});

} // namespace sim
