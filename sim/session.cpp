#include "session.hpp"

#include <algorithm>

namespace sim
{

Session::Session(const Plan& p, const std::string& prefix, bool capture) : plan(p)
{
    if (capture) cap.emplace();
    const Line& c = p.cfg();
    if (!sp.parse(p))
    {
        invalid();
        return;
    }
    simk = c.str("sim", "plain");
    meth = sp.stateful() ? c.str("meth", "rk4") : "";
    mn   = c.d("mn", 1e-3);
    mx   = c.d("mx", 1);
    m    = std::make_unique<RealModel>(sp, prefix);
    m->names = c.i("names");
    auto o = guarded([&] { m->build(); });
    if (!o.ok() && !sp.missize.empty())
    {
        refused_build = true;
        return;
    }
    if (!o.ok())
    {
        violation("build", "building a well-formed model failed: " + o.what);
        return;
    }
    ref = std::make_unique<Ref>(sp);
    new_sim(simk);
    good = !failed();
}
Session::~Session() = default;

void Session::new_sim(const std::string& kind, bool keep_stepper)
{
    if (keep_stepper && rs && rs->stepper)
    {
        std::unique_ptr<RecStepper> old = std::move(rs->stepper);
        rs                              = std::make_unique<RealSim>(*m, kind, old.get());
        rs->stepper                     = std::move(old);
        return;
    }
    std::unique_ptr<RecStepper> st = make_stepper(meth);
    rs                             = std::make_unique<RealSim>(*m, kind, st.get());
    rs->stepper                    = std::move(st);
    // scripted proposals of step sizes: by number of the trial, relative to its length or absolute
    auto lines = plan.all("rej");
    double grow = plan.cfg().d("grow", 0);
    double habs = plan.cfg().d("habs", 0); // a method that always proposes this step size
    if (rs->stepper && (!lines.empty() || grow > 0 || habs > 0))
    {
        auto script = std::make_shared<std::map<long, std::pair<double, bool>>>();
        for (auto* l : lines) (*script)[l->i("k")] = {l->has("abs") ? l->d("abs") : l->d("f", 0.5), l->has("abs")};
        rs->stepper->propose = [script, grow, habs](double t0, double t1, double h, long k) {
            auto it = script->find(k);
            if (it == script->end() && habs > 0) return habs;
            if (it == script->end()) return grow > 0 ? grow * (t1 - t0) : h;
            double w = it->second.second ? it->second.first : it->second.first * (t1 - t0);
            if (w < t1 - t0)
                COUNT("fault: scripted rejection of a trial step");
            else
                COUNT("fault: scripted step-size growth");
            return w;
        };
    }
}

Outcome Session::request_raw(const Line& op)
{
    double t, lo, hi;
    bool ini, nolim;
    {
        Sys sys; // allocations of the simulator itself never fail
        t     = op.d("t");
        lo    = op.d("mn", mn);
        hi    = op.d("mx", mx);
        ini   = op.i("init") != 0;
        nolim = op.i("nolim") != 0;
        nreq++;
        if (rs->stepper) rs->stepper->trials.clear();
    }
    if (!ini && !nolim && !(lo > 0 && hi > lo))
    {
        invalid(); // not a request a caller may make
        Outcome o;
        return o;
    }
    if (ini) return rs->init(t);
    if (nolim) return rs->run(t);
    return rs->run(t, lo, hi);
}

bool Session::follow(double t, const char* cls)
{
    if (!inited)
    {
        ref->init(t);
        inited = true;
        tprev  = t;
        return true;
    }
    if (!sp.stateful() || t == tprev)
    {
        ref->init(t);
        tprev = t;
        return true;
    }
    std::vector<std::pair<double, double>> acc;
    if (!rs->stepper || !accepted_steps(rs->stepper->trials, tprev, t, acc))
    {
        violation(cls, fmt("the trial steps of the request do not lead from %s to %s", num(tprev).c_str(), num(t).c_str()));
        return false;
    }
    steps += long(acc.size());
    rejected += long(rs->stepper->trials.size() - acc.size());
    for (auto& [a, b] : acc)
    {
        ref->step(meth, a, b);
        if (!ref->usable())
        {
            COUNT("runs ended early: undecidable comparison or large values");
            return false;
        }
    }
    g_sh->simtime += t - tprev;
    tprev = t;
    return true;
}

bool Session::absorb(const std::vector<double>& times, const char* cls)
{
    if (times.empty()) return true;
    if (!inited)
    {
        violation(cls, "a failed initialization committed blocks");
        return false;
    }
    auto tr       = rs->stepper ? rs->stepper->trials : std::vector<Trial>();
    double cur    = tprev;
    std::size_t n = 0;
    for (std::size_t k = 0; k < tr.size() && n < times.size(); k++)
        if (tr[k].t0 == cur && tr[k].t1 == times[n])
        {
            ref->step(meth, cur, tr[k].t1);
            cur = tr[k].t1;
            n++;
        }
    if (n != times.size())
    {
        violation(cls, fmt("a request that failed had committed %s, which its trials do not explain", show(times).c_str()));
        return false;
    }
    g_sh->simtime += cur - tprev;
    tprev = cur;
    return true;
}

Commits::Commits(Session& s)
{
    auto prev  = s.m->hk.on;
    s.m->hk.on = [this, prev](char kind, int id, double t) {
        log_u((uint64_t(kind) << 24) + unsigned(id));
        if (kind == 'I' || kind == 'P') fresh = true;
        if (kind == 'C')
        {
            any = true;
            if (fresh) times.push_back(t);
            fresh = false;
        }
        if (prev) prev(kind, id, t);
    };
}
bool has_probe(const Spec& sp)
{
    for (auto& b : sp.blks)
        if (b.type == "probe") return true;
    return false;
}

bool Session::request(const Line& op, const char* cls)
{
    double t  = op.d("t");
    Outcome o = request_raw(op);
    if (failed()) return false;
    log_u(uint64_t(o.kind));
    if (!o.ok())
    {
        violation(cls, fmt("request for time %s failed: ", num(t).c_str()) + o.what);
        return false;
    }
    if (!advance_ref)
    {
        if (inited) g_sh->simtime += t - tprev;
        inited = true;
        tprev  = t;
        log_signals(*m);
        return true;
    }
    if (!follow(t, cls)) return false;
    if (!ref->usable())
    {
        COUNT("runs ended early: undecidable comparison or large values");
        return false;
    }
    log_signals(*m);
    return compare(*m, *ref, cls, fmt("after request %ld (t=%s)", nreq, num(t).c_str()), tol);
}

// ---------------------------------------------------------------- evaluation by evaluation
Online::Online(Session& ss, const char* c) : s(ss), cls(c)
{
    ref = std::make_unique<Ref>(s.sp);
    for (int k : ref->order)
    {
        if (is_user(ref->nodes[k].type)) users.insert(ref->nodes[k].id);
        if (ref->nodes[k].type == "probe") probes.insert(ref->nodes[k].id);
    }
    s.m->hk.on     = [this](char k, int id, double t) { event(k, id, t); };
    s.m->hk.on_act = [this](int id, double t, const std::vector<Vec>& in) { act(id, t, in); };
}
void Online::refresh(const std::set<int>& mute)
{
    ref->mute = mute;
    ref->plan_order();
    users.clear();
    for (int k : ref->order)
        if (is_user(ref->nodes[k].type)) users.insert(ref->nodes[k].id);
}
void Online::segment_start(double tt)
{
    segment_end();
    acts.clear();
    begun = evaled = committed = ended = false;
    t                          = tt;
}
void Online::segment_end()
{
    if (failed()) return;
    if (!evaled || ended) return;
    ended = true;
    for (int id : users)
        if (acts[id] != 1)
        {
            violation(cls, fmt("block b%d was executed %d times in the evaluation at t=%s", id, acts[id], num(t).c_str()));
            return;
        }
}
void Online::ensure_eval(double tt)
{
    if (evaled || failed()) return;
    evaled = true;
    evals++;
    std::vector<Vec> x;
    for (int k : ref->integ)
    {
        const auto& rsig = s.m->sigs.at(ref->nodes[k].out[0]);
        if (!rsig.assigned())
        {
            violation(cls, fmt("evaluation at t=%s: state s%d has no value when the first block runs", num(tt).c_str(),
                               ref->nodes[k].out[0]));
            return;
        }
        x.push_back(rsig.get());
    }
    if (!values) return; // the values are not known any more
    ref->eval(tt, &x);
    if (!ref->usable()) comparing = false;
}
void Online::act(int id, double tt, const std::vector<Vec>& in)
{
    if (failed()) return;
    log_u(0x41000000u + unsigned(id));
    log_d(tt);
    ensure_eval(tt);
    if (failed()) return;
    if (tt != t)
    {
        violation(cls, fmt("block b%d was executed for t=%s in the evaluation at t=%s", id, num(tt).c_str(), num(t).c_str()));
        return;
    }
    if (++acts[id] > 1)
    {
        violation(cls, fmt("block b%d was executed twice in the evaluation at t=%s", id, num(t).c_str()));
        return;
    }
    if (!users.count(id))
    {
        violation(cls, fmt("block b%d was executed at t=%s although one of its inputs cannot have a value", id, num(t).c_str()));
        return;
    }
    if (!comparing || !values) return;
    for (auto& b : s.sp.blks)
        if (b.id == id)
            for (std::size_t k = 0; k < in.size(); k++)
            {
                auto it = ref->sig.find(b.in[k]);
                if (it == ref->sig.end()) continue;
                for (std::size_t j = 0; j < in[k].size(); j++)
                    if (!close(in[k][j], it->second[j], ref->biggest))
                    {
                        violation(cls, fmt("evaluation at t=%s: block b%d read %s from s%d, whose value is %s",
                                           num(t).c_str(), id, show(in[k]).c_str(), b.in[k], show(it->second).c_str()));
                        return;
                    }
            }
}
void Online::event(char kind, int id, double tt)
{
    if (failed()) return;
    if (kind != 'A')
    {
        log_u((uint64_t(kind) << 24) + unsigned(id));
        log_d(tt);
    }
    if (kind == 'I') segment_start(tt);
    if (kind == 'P')
    {
        pre[id]++;
        if (!begun)
        {
            begun = true;
            if (values) ref->begin(tt);
        }
    }
    if (kind == 'C')
    {
        post[id]++;
        if (!committed)
        {
            committed = true;
            ensure_eval(tt);
            if (failed()) return;
            segment_end();
            if (failed()) return;
            commits++;
            commit_times.push_back(tt);
            if (on_commit) on_commit(id, tt);
            if (values) ref->commit(tt);
        }
    }
}

// ---------------------------------------------------------------- generation
void gen_cfg(Rng& r, Plan& plan, bool)
{
    static const char* sims[]  = {"plain", "reuse", "fast"};
    static const char* meths[] = {"euler", "rk4", "rkf45"};
    plan.cfg()
        .set("sim", sims[r.below(3)])
        .set("meth", meths[r.below(3)])
        .set("layout", int(r.below(1 << 20)))
        .set("fill", r.below(5));
    if (r.chance(0.06)) plan.cfg().set("names", r.range(1, 4));
    if (r.chance(0.12)) plan.cfg().set("nocb", 1);
}

void add_probes(Rng& r, Plan& p, int n, bool must)
{
    const bool sole = p.cfg().i("sole") != 0; // the model stays a single block
    if (sole && !must) return;
    int nsig = 1, nsub = 0;
    for (auto& l : p.lines)
    {
        if (l.key == "ext") nsig = std::max(nsig, l.i("id"));
        if (l.key == "sub") nsub++;
        if (l.key == "blk")
            for (int s : l.li("out")) nsig = std::max(nsig, s);
    }
    if (sole)
    {
        n = 1;
        std::vector<Line> rest;
        for (auto& l : p.lines)
            if (l.key != "blk") rest.push_back(l);
        p.lines = rest;
    }
    for (int j = 0; j < n; j++)
    {
        Line& l = p.add("blk");
        if (sole && r.chance(0.7)) l.set("ty", "s").set("out", nsig + 1);
        l.set("id", 900 + j).set("type", "probe").set("ord", r.below(40));
        if (r.chance(0.8)) l.set("in", r.range(1, nsig));
        if (nsub) l.set("par", r.range(-1, nsub - 1));
        if (r.chance(0.3)) l.set("via", 1);
    }
}

void gen_script(Rng& r, Plan& p, int n, double p_grow)
{
    static const double fs[] = {0.5, 0.5, 0.25, 0.75, 0.125, 0, -1, 0.875};
    int k = r.below(3);
    for (int j = 0; j < n; j++)
    {
        double f = r.chance(p_grow) ? double(r.range(2, 8)) : fs[r.below(8)];
        p.add("rej").set("k", k).set("f", f);
        k += r.chance(0.6) ? 1 : r.range(1, 6);
    }
}

// runs the "run", "rep", "back" and "nan" lines of the plan
Driven drive(Session& s, const char* cls, Online* on, bool one_step)
{
    Driven d;
    for (auto& op : s.plan.lines)
    {
        if (op.key == "run")
        {
            if (s.inited && op.d("t") <= s.tprev) continue;
            bool first = !s.inited;
            double from = s.tprev;
            if (!s.request(op, cls)) return d;
            if (!first) d.ok++;
            if (one_step && !first && s.rs->stepper && s.rs->stepper->trials.size() != 1)
            {
                violation(cls, fmt("the request from %s to %s took %zu steps of the fixed-step method", num(from).c_str(),
                                   num(s.tprev).c_str(), s.rs->stepper->trials.size()));
                return d;
            }
        }
        else if (op.key == "rep")
        {
            if (!s.inited) continue;
            Line l;
            l.set("t", s.tprev);
            if (!s.request(l, cls)) return d;
            COUNT("fault: current time requested again");
            d.repeats++;
        }
        else if (op.key == "back" || op.key == "nan")
        {
            if (!s.inited || !s.sp.stateful()) continue;
            double dt = op.d("d", 0.5);
            if (!(dt > 0)) continue;
            double t  = op.key == "nan" ? NAN : op.i("inf") ? -INFINITY : s.tprev - dt;
            if (t >= s.tprev) continue;
            Line l;
            l.set("t", t);
            if (on) on->segment_end();
            long ev = on ? on->evals : 0, hooks = s.m->hk.hooks;
            Outcome o = s.request_raw(l);
            if (failed()) return d;
            if (op.key == "nan")
                COUNT("fault: request for a time that is not a number");
            else
                COUNT("fault: request for an earlier time");
            if (o.kind != 1)
            {
                violation(cls, fmt("a request for time %s at time %s %s", num(t).c_str(), num(s.tprev).c_str(),
                                   o.ok() ? "succeeded" : "failed, but not with an error of the library"));
                return d;
            }
            if (on && on->evals != ev)
            {
                violation(cls, fmt("a refused request for time %s evaluated the model", num(t).c_str()));
                return d;
            }
            if (s.m->hk.hooks != hooks)
            {
                violation(cls, fmt("a refused request for time %s called a begin- or end-of-step hook", num(t).c_str()));
                return d;
            }
            if (s.advance_ref && !compare(*s.m, *s.ref, cls, fmt("after a refused request for %s at time %s", num(t).c_str(), num(s.tprev).c_str()))) return d;
            d.refused++;
        }
        if (on)
        {
            on->segment_end();
            if (failed()) return d;
            if (!s.advance_ref && on->comparing && on->evaled &&
                !compare(*s.m, *on->ref, cls, fmt("after request %ld", s.nreq)))
                return d;
        }
    }
    d.complete = true;
    return d;
}

double gen_requests(Rng& r, Plan& plan, const TimesOpt& o)
{
    double t = r.chance(0.4) ? 0.0 : dyadic(r, -4, 4, 16);
    if (r.chance(0.04)) t += std::ldexp(r.chance(0.5) ? 1.0 : -1.0, r.range(3, 12));
    int n    = r.range(o.min_n, o.max_n);
    bool noise = false;
    for (auto& l : plan.lines) noise = noise || l.str("type") == "deriv";
    bool lng = r.chance(0.015); // now and then a long sequence
    if (lng) n = r.chance(0.2) ? r.range(100, 400) : r.range(o.max_n, 60);
    Line& f  = plan.add("run");
    f.set("t", t);
    if (r.chance(0.5)) f.set("init", 1);
    double mn = 1.0 / 1024, mx = 1;
    if (o.limits)
    {
        mn = std::ldexp(1.0, -r.range(4, o.max_mn_exp));
        mx = std::ldexp(1.0, -r.range(0, 3));
        plan.cfg().set("mn", mn).set("mx", mx);
    }
    else
        plan.cfg().set("mn", mn).set("mx", mx);
    for (int k = 0; k < n; k++)
    {
        {
            double dt = lng ? dyadic(r, 1.0 / 256, 1.0 / 16, 256) : r.chance(0.6) ? std::ldexp(1.0, -r.range(1, 6)) : dyadic(r, 1.0 / 64, o.max_dt, 64);
            // hardly any time at all (differences over such steps would only be noise)
            if (r.chance(0.02)) dt = std::ldexp(1.0, -r.range(16, 20));
            if (!noise && r.chance(0.02)) dt = std::ldexp(1.0, -r.range(28, 36));
            t += std::min(dt, o.max_dt);
        }
        if (o.repeats && r.chance(0.15))
            plan.add("rep");
        else
            plan.add("run").set("t", t);
        if (o.backs && r.chance(0.25))
        {
            if (r.chance(0.3))
                plan.add("nan");
            else
            {
                Line& l = plan.add("back");
                l.set("d", r.chance(0.3) ? std::ldexp(1.0, -r.range(10, 40)) : dyadic(r, 1.0 / 64, 4, 64));
                if (r.chance(0.1)) l.set("inf", 1);
            }
        }
    }
    return t;
}

} // namespace sim
