// C13, C14: exceptions of user code, failing allocations
#include "session.hpp"

#include "src/solver/history.hpp"

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

// lines of the call trace in an error message of the library
static int trace_lines()
{
    Outcome o = guarded([] {
        pooya::ScalarSignal x("nothing");
        (void)x->get_value();
    });
    Sys s;
    if (o.kind != 1) return -1;
    int n           = 0;
    std::size_t pos = 0;
    while ((pos = o.what.find("\n- ", pos)) != std::string::npos)
    {
        n++;
        pos++;
    }
    return n;
}

// ---------------------------------------------------------------- C13
static Plan gen13(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.8);
    o.max_blocks = r.chance(0.2) ? 18 : 9;
    gen_model(r, p, o);
    add_probes(r, p, r.range(1, 3), true);
    TimesOpt t;
    t.min_n      = 2;
    t.max_n      = 6;
    t.repeats    = r.chance(0.3);
    t.max_mn_exp = 7;
    gen_requests(r, p, t);
    bool sub = r.chance(0.4); // many sub-steps
    if (sub) p.cfg().set("habs", std::ldexp(1.0, -r.range(3, 6)));
    if (r.chance(0.5)) gen_script(r, p, r.range(1, 8), 0.3);
    int nfail = r.range(1, 3);
    for (int k = 0; k < nfail; k++)
    {
        std::vector<Line*> ops;
        for (auto& l : p.lines)
            if (l.key == "run" || l.key == "rep") ops.push_back(&l);
        Line& l = *(r.chance(0.25) ? ops.front() : r.pick(ops));
        int hi  = sub ? r.chance(0.5) ? 60 : 400 : r.chance(0.5) ? 12 : r.chance(0.5) ? 40 : 300;
        l.set("fail", r.range(1, hi)).set("fk", r.chance(0.8) ? 0 : 1);
        if (r.chance(0.2)) l.set("again", r.range(1, hi));
        if (r.chance(0.2)) l.set("skip", 1);
    }
    return p;
}
static void exec13(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    const char* cls = "retry";
    Commits com(s);
    if (!has_probe(s.sp))
    {
        invalid();
        return;
    }
    int lines0 = trace_lines();
    int fired = 0, ok = 0;
    for (auto& op : p.lines)
    {
        if (op.key != "run" && op.key != "rep") continue;
        Line l = op;
        if (op.key == "rep")
        {
            if (!s.inited) continue;
            l.set("t", s.tprev);
        }
        else if (s.inited && l.d("t") <= s.tprev)
            continue;
        double t = l.d("t");
        bool gave_up = false;
        for (int attempt = 0; attempt < 2; attempt++)
        {
            int at = l.i(attempt ? "again" : "fail");
            if (at <= 0) continue;
            com.reset();
            long before = s.m->hk.fired;
            s.m->hk.arm(at, l.i("fk"));
            Outcome o = s.request_raw(l);
            s.m->hk.arm(0, 0);
            if (failed()) return;
            if (s.m->hk.fired == before)
            {
                // the call was not reached: an ordinary request
                if (!o.ok())
                {
                    violation(cls, "request failed: " + o.what);
                    return;
                }
                if (!s.follow(t, cls)) return;
                if (!s.ref->usable()) return;
                gave_up = true; // done
                if (!compare(*s.m, *s.ref, cls, fmt("after request %ld", s.nreq))) return;
                break;
            }
            fired++;
            log_u(0xF0 + unsigned(attempt));
            if (!s.inited)
                COUNT("fault: user code threw during initialisation");
            else if (com.times.empty())
                COUNT("fault: user code threw during a request, before any commit");
            else
                COUNT("fault: user code threw during a request, after a sub-step");
            if (o.kind != (l.i("fk") == 1 ? 4 : 3))
            {
                violation(cls, o.ok() ? "user code threw, but the request reported success"
                                      : "user code threw, but another exception reached the caller: " + o.what);
                return;
            }
            // what had been committed stays, and nothing else
            if (!s.absorb(com.times, cls)) return;
            int n = trace_lines();
            if (n != lines0)
            {
                violation(cls, fmt("an error message issued after the failed call has %d entries in its call trace instead of %d", n, lines0));
                return;
            }
            if (!s.ref->usable()) return;
            if (l.i("skip") && s.inited && op.key == "run")
            {
                // go on with a later request instead
                gave_up = true;
                COUNT("a later time was requested instead of retrying");
                break;
            }
        }
        if (gave_up) continue;
        if (s.inited && op.key == "run" && t <= s.tprev) continue; // all of it had been committed
        if (op.key == "rep") l.set("t", s.tprev);
        com.reset();
        if (!s.request(l, cls)) return;
        ok++;
    }
    COUNTN("requests compared", uint64_t(ok));
    if (fired && ok >= 1) nontrivial();
}
static PropReg r13({"C13", gen13, exec13});

// ---------------------------------------------------------------- C14
static Plan gen14(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.7);
    o.max_blocks = r.chance(0.2) ? 16 : 7;
    gen_model(r, p, o);
    // probes at both ends of the model, so that one of them tells when the first block is committed
    for (auto& l : p.lines)
        if (l.key == "sub" && l.i("via") == 2) l.set("via", 1);
    p.add("blk").set("id", 900).set("type", "probe").set("ord", -1);
    p.add("blk").set("id", 901).set("type", "probe").set("ord", 1000000);
    TimesOpt t;
    t.min_n      = 2;
    t.max_n      = 6;
    t.repeats    = r.chance(0.3);
    t.backs      = r.chance(0.2);
    t.max_mn_exp = 6;
    gen_requests(r, p, t);
    if (r.chance(0.3)) gen_script(r, p, r.range(1, 4), 0.3);
    std::vector<Line*> ops;
    for (auto& l : p.lines)
        if (l.key == "run" || l.key == "rep") ops.push_back(&l);
    int nfail = r.range(1, 3);
    for (int k = 0; k < nfail; k++)
    {
        Line& l = *(r.chance(0.3) ? ops.front() : r.pick(ops));
        int hi  = 1 << r.range(3, 12);
        l.set("nomem", r.range(1, hi)).set("burst", r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 10) : 1000000);
        if (r.chance(0.2)) l.set("again", r.range(1, hi));
    }
    if (r.chance(0.3)) // the simulator is initialised again
    {
        std::vector<Line> lines;
        for (auto& l : p.lines)
        {
            lines.push_back(l);
            if ((l.key != "run" && l.key != "rep") || r.chance(0.6)) continue;
            Line n{"ini", {}};
            int hi = 1 << r.range(2, 9);
            n.set("nomem", r.range(1, hi)).set("burst", r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 10) : 1000000);
            if (r.chance(0.2)) n.set("again", r.range(1, hi));
            if (r.chance(0.6)) n.set("plain", 1); // followed by a run request, not by another initialisation
            lines.push_back(n);
        }
        p.lines = lines;
        ops.clear();
        for (auto& l : p.lines)
            if (l.key == "run" || l.key == "rep") ops.push_back(&l);
    }
    if (r.chance(0.6))
    {
        p.cfg().set("grow", 0).set("rec", r.range(1, 3)).set("rows", r.range(1, 4));
        for (auto* l : ops)
            if (r.chance(0.4)) l->set("recfail", r.range(1, r.chance(0.5) ? 12 : 40));
    }
    return p;
}
static void exec14(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    const char* cls = "memory";
    Commits com(s);
    bool lo = false, hi = false, via2 = false;
    for (auto& b : s.sp.blks)
    {
        bool end = b.type == "probe" && b.parent < 0 && b.via == 0;
        lo       = lo || (end && b.ord == -1);
        hi       = hi || (end && b.ord == 1000000);
    }
    for (auto& b : s.sp.subs) via2 = via2 || b.via == 2;
    if (!lo || !hi || via2)
    {
        invalid();
        return;
    }
    // a recorder of some signals
    std::unique_ptr<pooya::History> rec;
    std::vector<std::pair<double, std::map<int, Vec>>> rows;
    std::vector<int> tracked;
    if (int n = p.cfg().i("rec"))
    {
        rec = std::make_unique<pooya::History>(unsigned(std::max(1, p.cfg().i("rows", 2))));
        for (auto& [id, sig] : s.m->sigs)
            if (s.sp.used.count(id) && id % n == 0)
            {
                rec->track(sig.sig());
                Sys sys;
                tracked.push_back(id);
            }
    }
    auto check_rows = [&](const char* when) -> bool {
        for (std::size_t q = 0; q < rows.size(); q++)
        {
            bool good = rec->nrows() == rows.size() && rec->time()[long(q)] == rows[q].first;
            for (int id : tracked)
            {
                const auto& mat = (*rec)[s.m->sigs.at(id).sig()];
                const Vec& v    = rows[q].second.at(id);
                if (long(v.size()) != mat.cols() || mat.rows() <= long(q))
                    good = false;
                else
                    for (std::size_t j = 0; j < v.size(); j++) good = good && (mat(long(q), long(j)) == v[j]);
            }
            if (!good)
            {
                violation(cls, fmt("row %zu of the record differs from the signals", q) + when);
                return false;
            }
        }
        return true;
    };
    auto record = [&](double t, int failat) -> bool {
        if (!rec || tracked.empty()) return true;
        unsigned k = unsigned(rows.size());
        if (failat > 0)
        {
            fail_arm(failat, 1);
            Outcome o = guarded([&] { rec->update(k, t); });
            fail_disarm();
            if (fail_fired())
            {
                COUNT("fault: allocation failed while recording");
                log_u(0xE3);
                if (o.kind == 1)
                {
                    violation(cls, "recording failed with an unrelated error after an allocation failed: " + o.what);
                    return false;
                }
            }
            if (!fail_fired() && !o.ok())
            {
                violation(cls, "recording failed: " + o.what);
                return false;
            }
            if (fail_fired() && !o.ok())
            {
                // nothing was added, and what was recorded before is intact
                Sys sys;
                if (rec->nrows() != rows.size())
                {
                    violation(cls, fmt("the record has %u rows after the row %zu could not be recorded for lack of memory", unsigned(rec->nrows()),
                                       rows.size()));
                    return false;
                }
                if (!check_rows(" after an attempt to record without memory")) return false;
                if (failat % 3 == 0) return true; // this one is not recorded
            }
        }
        // again, or for the first time
        Outcome o = guarded([&] { rec->update(k, t); });
        if (!o.ok())
        {
            violation(cls, "recording failed" + std::string(failat > 0 ? " after an attempt without memory: " : ": ") + o.what);
            return false;
        }
        Sys sys;
        std::map<int, Vec> row;
        for (int id : tracked)
        {
            auto& sg = s.m->sigs.at(id);
            row[id]  = sg.assigned() ? sg.get() : Vec(sg.ty == 'a' ? std::size_t(sg.sz) : 1, 0.0);
        }
        rows.emplace_back(t, row);
        return check_rows("");
    };
    int fired = 0, ok = 0;
    bool tainted = false;
    for (auto& op : p.lines)
    {
        if (op.key != "run" && op.key != "rep" && op.key != "back" && op.key != "ini") continue;
        Line l = op;
        if (op.key == "ini")
        {
            if (!s.inited) continue;
            COUNT("fault: simulator initialised again");
            l.set("t", s.tprev).set("init", 1);
        }
        else if (op.key == "rep" || op.key == "back")
        {
            if (!s.inited) continue;
            if (op.key == "back" && (!s.sp.stateful() || !(op.d("d") > 0))) continue;
            l.set("t", op.key == "rep" ? s.tprev : s.tprev - op.d("d"));
        }
        else if (s.inited && l.d("t") <= s.tprev)
            continue;
        double t     = l.d("t");
        bool done    = false;
        for (int attempt = 0; attempt < 2 && !done; attempt++)
        {
            int at = l.i(attempt ? "again" : "nomem");
            if (at <= 0) continue;
            com.reset();
            fail_arm(at, l.i("burst", 1));
            Outcome o = s.request_raw(l);
            fail_disarm();
            if (failed()) return;
            bool hit = fail_fired() > 0;
            if (hit)
            {
                fired++;
                log_u(0xE0 + unsigned(attempt));
                COUNTN("allocations that failed", uint64_t(fail_fired()));
                if (!s.inited || op.key == "ini")
                    COUNT("fault: allocation failed during initialisation");
                else if (com.any)
                    COUNT("fault: allocation failed during a request, after a commit had begun");
                else
                    COUNT("fault: allocation failed during a request, before any commit");
            }
            if (op.key == "back")
            {
                if (o.ok())
                {
                    violation(cls, "a request for an earlier time succeeded");
                    return;
                }
                done = true;
                break;
            }
            if (!hit && !o.ok() && !tainted)
            {
                violation(cls, "request failed: " + o.what);
                return;
            }
            if (o.ok())
            {
                // the fault was not reached, or the library coped with it: the results must be right
                done = true;
                if (tainted)
                {
                    s.tprev = t;
                    break;
                }
                if (!s.follow(t, cls) || !s.ref->usable()) return;
                if (!compare(*s.m, *s.ref, cls, fmt("after request %ld", s.nreq))) return;
                break;
            }
            if (com.any) tainted = true;
        }
        if (op.key == "back") continue;
        if (!done)
        {
            com.reset();
            if (op.i("plain")) l.set("init", 0);
            if (tainted)
            {
                // whatever it does, it must not crash
                Outcome o = s.request_raw(l);
                if (failed()) return;
                if (o.ok())
                {
                    s.inited = true;
                    s.tprev  = t;
                }
            }
            else if (!s.request(l, cls))
                return;
            ok++;
        }
        if (!record(t, l.i("recfail"))) return;
    }
    COUNTN("requests after a failed allocation", uint64_t(ok));
    if (fired && ok >= 1) nontrivial();
}
static PropReg r14({"C14", gen14, exec14});

} // namespace sim
