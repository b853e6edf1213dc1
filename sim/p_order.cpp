// C18, C19: models that cannot be ordered, conflicting and missing values
#include "session.hpp"

#include <algorithm>

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

namespace
{
int max_sig(const Plan& p)
{
    int n = 1;
    for (auto& l : p.lines)
    {
        if (l.key == "ext") n = std::max(n, l.i("id"));
        if (l.key == "blk")
        {
            for (int s : l.li("out")) n = std::max(n, s);
            for (int s : l.li("in")) n = std::max(n, s);
        }
    }
    return n;
}

// breaks some dependency: a loop or an input that nothing drives
void break_model(Rng& r, Plan& p)
{
    Spec sp;
    if (!sp.parse(p)) return;
    std::vector<Line*> blks;
    for (auto& l : p.lines)
        if (l.key == "blk" && !l.li("in").empty()) blks.push_back(&l);
    if (blks.empty()) return;
    Line& l   = *r.pick(blks);
    auto in   = l.li("in");
    int k     = r.below(int(in.size()));
    SigInfo w = sp.sigs.at(in[std::size_t(k)]);
    if (r.chance(0.55))
    {
        // any signal of the same kind computed by a block, preferably by a later one
        std::vector<int> c;
        bool past = false;
        for (auto& q : p.lines)
        {
            if (&q == &l) past = true;
            if (q.key != "blk" || (!past && r.chance(0.7))) continue;
            for (int o : q.li("out"))
            {
                auto it = sp.sigs.find(o);
                if (it != sp.sigs.end() && it->second.ty == w.ty && it->second.sz == w.sz) c.push_back(o);
            }
        }
        if (!c.empty())
        {
            in[std::size_t(k)] = r.pick(c);
            l.set("in", in);
            return;
        }
    }
    int id             = max_sig(p) + 1;
    in[std::size_t(k)] = id;
    l.set("in", in);
    p.add("undriven").set("id", id);
}

std::set<std::string> tokens(const std::string& text)
{
    std::set<std::string> r;
    std::string w;
    for (char c : text + " ")
        if (isalnum((unsigned char)c) || c == '_' || c == '.' || c == '/')
            w += c;
        else
        {
            while (!w.empty() && w.back() == '.') w.pop_back();
            if (!w.empty()) r.insert(w);
            w.clear();
        }
    return r;
}

// blocks that read an input while being committed or for its derivative, although that input has no value
int late_readers(const Ref& r, bool stepping)
{
    int n = 0;
    for (auto& b : r.nodes)
    {
        if (b.type == "mem" || b.type == "delay" || b.type == "deriv") n += !r.have.count(b.in[0]);
        if (b.type == "deriv") n += !r.have.count(b.out[0]);
        if ((b.type == "integ" || b.type == "tint") && stepping) n += !r.have.count(b.in[0]);
        if (b.type == "tint") n += !r.have.count(b.in[1]);
    }
    return n;
}
} // namespace

// ---------------------------------------------------------------- C18
static Plan gen18(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    if (p.cfg().i("names")) p.cfg().set("names", 3); // told apart by name
    GenOpt o;
    o.p_user     = 0.5;
    o.integ      = o.tint = r.chance(0.6);
    o.mem        = r.chance(0.5);
    o.delay      = r.chance(0.4);
    o.deriv      = r.chance(0.4);
    o.max_blocks = r.chance(0.2) ? 20 : 9;
    gen_model(r, p, o);
    add_probes(r, p, r.range(1, 3), true);
    for (int k = r.chance(0.85) ? r.range(1, 3) : 0; k > 0; k--) break_model(r, p);
    TimesOpt t;
    t.min_n      = 2;
    t.max_n      = 5;
    t.repeats    = r.chance(0.3);
    t.max_mn_exp = 6;
    gen_requests(r, p, t);
    std::vector<int> exts;
    for (auto& l : p.lines)
        if (l.key == "ext") exts.push_back(l.i("id"));
    if (p.cfg().str("sim") == "fast")
    {
        static const char* sims[] = {"plain", "reuse"};
        p.cfg().set("then", sims[r.below(2)]).set("tries", r.range(1, 4));
    }
    if (!exts.empty() && r.chance(0.5))
        for (auto& l : p.lines)
            if (l.key == "run" && r.chance(0.3))
            {
                std::vector<int> m;
                for (int e : exts)
                    if (r.chance(0.5)) m.push_back(e);
                if (!m.empty()) l.set("mute", m);
            }
    return p;
}

static void exec18(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    const char* cls = "unordered";
    s.advance_ref   = false;
    if (!has_probe(s.sp) || (s.m->names != 0 && s.m->names != 3))
    {
        invalid();
        return;
    }
    bool broken = !s.ref->blocked.empty();
    if (broken) COUNT("models that cannot be ordered");
    int refusals = 0;
    if (s.simk == "fast")
    {
        // refused on every attempt, and nothing runs that cannot run
        std::set<int> runs, ran;
        for (int k : s.ref->order) runs.insert(s.ref->nodes[k].id);
        int n = std::max(1, p.cfg().i("tries", 1));
        if (broken)
        {
            s.m->hk.on_act = [&](int id, double, const std::vector<Vec>&) { ran.insert(id); };
            for (int k = 0; k < n; k++)
            {
                Line l;
                l.set("t", double(k / 2)).set("init", k % 2);
                Outcome o = s.request_raw(l);
                if (failed()) return;
                log_u(uint64_t(o.kind));
                if (o.kind != 1)
                {
                    violation(cls, fmt("attempt %d: FastSimulator %s", k + 1, o.ok() ? "accepted a model that cannot be ordered" : "failed, but not with an error of the library"));
                    return;
                }
                for (int id : ran)
                    if (!runs.count(id))
                    {
                        violation(cls, fmt("FastSimulator executed block b%d, which cannot run", id));
                        return;
                    }
                refusals++;
                COUNT("models refused by FastSimulator");
            }
            s.m->hk.on_act = nullptr;
            s.new_sim(p.cfg().str("then", "plain"));
            s.simk = p.cfg().str("then", "plain");
            nontrivial();
            // an initial-value block may have kept what it saw in the attempts
            for (auto& b : s.ref->nodes)
                if (b.type == "ival") return;
        }
    }
    Online on(s, cls);
    std::set<int> was;
    int asked = 0, judged = 0;
    bool values = true, uncertain = false, delays = false;
    for (auto& b : s.sp.blks) delays = delays || b.type == "delay";
    for (auto& op : p.lines)
    {
        if (op.key != "run" && op.key != "rep") continue;
        Line l = op;
        if (op.key == "rep")
        {
            if (!s.inited || uncertain) continue;
            l.set("t", s.tprev);
        }
        else if (s.inited && l.d("t") <= s.tprev)
            continue;
        double t = l.d("t");
        std::set<int> mute;
        if (s.simk != "fast")
            for (int id : l.li("mute")) mute.insert(id);
        if (!mute.empty()) COUNT("fault: external inputs not delivered");
        s.m->mute_ext = mute;
        on.refresh(mute);
        bool stepping = s.inited && s.sp.stateful() && t != s.tprev;
        int late      = late_readers(*on.ref, stepping);
#if !defined(POOYA_DEBUG)
        // nothing detects the read of a missing value: whatever the signal held is used, and committed
        if (late) on.comparing = on.values = values = false;
#endif // !POOYA_DEBUG
        s.cap->clear();
        long ev   = on.evals;
        Outcome o = s.request_raw(l);
        if (failed()) return;
        asked++;
        log_u(uint64_t(o.kind));
        on.segment_end();
        if (failed()) return;
        if (!o.ok())
        {
            // a step that was committed by a part of the blocks only: a delay refuses to go back before it
            if (o.kind == 1 && !late && !values && delays)
            {
                COUNT("runs ended early: half a step was committed before");
                return;
            }
            if (o.kind != 1 || !late)
            {
                violation(cls, "request failed: " + o.what);
                return;
            }
            COUNT("requests ended by a read of a missing value");
            // part of the model may have been committed
            on.comparing = on.values = values = false;
        }
        else
        {
            if (s.inited) g_sh->simtime += t - s.tprev;
            s.inited = true;
            s.tprev  = t;
            if (values && on.comparing && on.evaled && !compare(*s.m, *on.ref, cls, fmt("after request %ld", s.nreq))) return;
            log_signals(*s.m);
        }
        if (on.evals > ev)
        {
            judged++;
#if defined(POOYA_DEBUG) // the diagnostics are not in the other build
            if (s.simk != "fast")
            {
                auto tok = tokens(s.cap->text());
                std::set<int> blocked(on.ref->blocked.begin(), on.ref->blocked.end());
                for (auto& b : s.sp.blks)
                {
                    std::string name = s.m->blocks.at(b.id)->full_name().str();
                    if (b.type == "bmem" || b.type == "bpipe") continue;
                    bool named = tok.count(name), should = blocked.count(b.id);
                    if (named != should)
                    {
                        violation(cls, fmt("request %ld: the diagnostics %s block %s, which %s", s.nreq, named ? "name" : "do not name", name.c_str(),
                                           should ? "was not executed" : "was executed"));
                        return;
                    }
                }
                // a submodel of which every part was executed is not named either
                std::map<int, bool> whole{{-1, true}};
                for (auto& b : s.sp.subs) whole[b.id] = true;
                auto miss = [&](int id) {
                    while (id >= 0)
                    {
                        whole[id] = false;
                        for (auto& b : s.sp.subs)
                            if (b.id == id)
                            {
                                id = b.parent;
                                break;
                            }
                    }
                    whole[-1] = false;
                };
                for (auto& b : s.sp.blks)
                    if (blocked.count(b.id)) miss(b.parent);
                for (auto& [id, w] : whole)
                {
                    if (!w || (id < 0 && !s.m->root)) continue;
                    std::string name = (id < 0 ? s.m->root : s.m->subs.at(id))->full_name().str();
                    if (!tok.count(name)) continue;
                    violation(cls, fmt("request %ld: the diagnostics name submodel %s, every block of which was executed", s.nreq, name.c_str()));
                    return;
                }
                if (!blocked.empty()) COUNT("diagnostics checked");
            }
#endif // POOYA_DEBUG
        }
        // a request that failed may have ended at any time up to t
        if (!o.ok() && s.inited)
        {
            s.tprev   = t;
            uncertain = true;
        }
        if (o.ok()) uncertain = false;
    }
    COUNTN("evaluations followed", uint64_t(on.evals));
    if (judged && (broken || on.evals > 1)) nontrivial();
}
static PropReg r18({"C18", gen18, exec18});

// ---------------------------------------------------------------- C19
static Plan gen19(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.p_user     = 0.5;
    o.integ = o.tint = r.chance(0.7);
    o.max_blocks = r.chance(0.2) ? 16 : 8;
    gen_model(r, p, o);
    add_probes(r, p, r.range(1, 2), true);
    TimesOpt t;
    t.min_n      = 2;
    t.max_n      = 5;
    t.repeats    = r.chance(0.3);
    t.max_mn_exp = 6;
    gen_requests(r, p, t);
    if (r.chance(0.3)) p.cfg().set("habs", std::ldexp(1.0, -r.range(3, 5)));
    Spec sp;
    if (!sp.parse(p)) return p;
    std::vector<int> all, arrays, exts;
    for (auto& [id, i] : sp.sigs)
    {
        if (!sp.used.count(id)) continue;
        all.push_back(id);
        if (i.ty == 'a') arrays.push_back(id);
    }
    if (all.empty()) return p;
    for (auto& e : sp.exts)
        if (sp.used.count(e.id)) exts.push_back(e.id);
    int what = r.below(10);
    if (what == 0 && !arrays.empty())
    {
        int id = r.pick(arrays), sz = sp.sigs.at(id).sz;
        p.add("missize").set("id", id).set("sz", r.chance(0.5) || sz == 1 ? sz + r.range(1, 3) : sz - 1);
        return p;
    }
    if (what <= 2 && !all.empty())
    {
        Line& l = p.add("dup");
        l.set("s", r.pick(all));
        if (r.chance(0.5)) l.set("in", r.pick(all));
        if (r.chance(0.4)) l.set("eq", 1);
        if (!sp.subs.empty()) l.set("par", r.range(-1, int(sp.subs.size()) - 1));
        return p;
    }
    std::vector<Line*> ops;
    for (auto& l : p.lines)
        if (l.key == "run" || l.key == "rep") ops.push_back(&l);
    if (what <= 4 && !exts.empty())
    {
        std::vector<int> m{r.pick(exts)};
        if (r.chance(0.3)) m.push_back(r.pick(exts));
        r.pick(ops)->set("mute", m);
        return p;
    }
    for (int k = r.range(1, 3); k > 0; k--)
    {
        Line& l   = *r.pick(ops);
        int hi    = r.chance(0.5) ? 8 : r.chance(0.5) ? 40 : 200;
        char kind = "wzr"[r.below(arrays.empty() ? 3 : 3)];
        if (kind == 'z' && arrays.empty()) kind = 'w';
        l.set("inj", std::string(1, kind)).set("at", r.range(1, hi)).set("s", kind == 'z' ? r.pick(arrays) : r.pick(all));
        if (kind == 'z' && r.chance(0.5)) l.set("n", r.chance(0.5) ? 0 : r.range(1, 12));
        if (kind == 'w' && r.chance(0.4)) l.set("eq", 1);
    }
    return p;
}

namespace
{
// an equal value is a second value, too
void set_equal(RealSig& s)
{
    if (s.s) (*s.s)->set_value((*s.s)->get_value());
    if (s.i) (*s.i)->set_value((*s.i)->get_value());
    if (s.b) (*s.b)->set_value((*s.b)->get_value());
    if (s.a)
    {
        pooya::Array a((*s.a)->get_value());
        (*s.a)->set_value(a);
    }
}
void set_any(RealSig& s, int size, bool equal = false)
{
    if (equal && s.assigned())
    {
        set_equal(s);
        return;
    }
    if (s.s) (*s.s)->set_value(0.5);
    if (s.i) (*s.i)->set_value(2);
    if (s.b) (*s.b)->set_value(true);
    if (s.a)
    {
        pooya::Array a(size);
        a.setConstant(0.5);
        (*s.a)->set_value(a);
    }
}
// one more block driving a signal
struct Writer : pooya::Leaf
{
    RealSig& target;
    bool equal;
    Writer(RealSig& t, pooya::Submodel* parent, bool in, bool eq) : Leaf(parent, "writer", in ? 1 : 0, 1), target(t), equal(eq) {}
    void activation_function(double) override { set_any(target, target.sz, equal); }
};
} // namespace

static void exec19(const Plan& p)
{
    start(p);
    Session s(p);
    if (s.refused_build)
    {
        COUNT("ill-sized models refused when connected");
        nontrivial();
        return;
    }
    if (!s.good) return;
    const char* cls = "signals";
    if (!has_probe(s.sp))
    {
        invalid();
        return;
    }
    Commits com(s);
    int caught = 0, ok = 0;

    // defects of the model itself: no request may succeed
    std::unique_ptr<Writer> writer;
    std::string defect;
    for (auto& [id, sz] : s.sp.missize)
    {
        auto it = s.sp.sigs.find(id);
        if (it == s.sp.sigs.end() || it->second.ty != 'a' || !s.ref->have.count(id) || !s.sp.used.count(id) || sz == it->second.sz) return;
        defect = fmt("array s%d gets a value of %d elements instead of %d", id, it->second.sz, sz);
        COUNT("fault: array signal of another size");
    }
    for (auto* l : p.all("dup"))
    {
        if (writer) continue;
        int id = l->i("s"), in = l->i("in");
        if (!s.m->sigs.count(id) || !s.ref->have.count(id) || !s.sp.used.count(id)) return;
        if (in && (!s.m->sigs.count(in) || !s.ref->have.count(in) || !s.sp.used.count(in))) return;
        pooya::Submodel* par = s.m->root.get();
        if (!par) return; // the model is a single block
        if (auto it = s.m->subs.find(l->i("par", -1)); it != s.m->subs.end()) par = it->second.get();
        Outcome o = guarded([&] {
            writer = std::make_unique<Writer>(s.m->sigs.at(id), par, in != 0, l->i("eq") != 0);
            if (in)
                writer->connect(pooya::Bus({s.m->sigs.at(in).sig()}), pooya::Bus({s.m->sigs.at(id).sig()}));
            else
                writer->connect(pooya::Bus(), pooya::Bus({s.m->sigs.at(id).sig()}));
        });
        if (!o.ok())
        {
            COUNT("second drivers refused when connected");
            nontrivial();
            return;
        }
        defect = fmt("signal s%d has two drivers", id);
        COUNT("fault: second driver of a signal");
    }
    if (!defect.empty())
    {
        for (auto& op : p.lines)
        {
            if (op.key != "run") continue;
            Outcome o = s.request_raw(op);
            if (failed()) return;
            log_u(uint64_t(o.kind));
            if (o.kind != 1)
            {
                violation(cls, fmt("request %ld: ", s.nreq) + defect + (o.ok() ? ", but the request succeeded" : ", but the error was not one of the library"));
                return;
            }
            caught++;
        }
        if (caught) nontrivial();
        COUNTN("errors reported", uint64_t(caught));
        return;
    }

    for (auto& op : p.lines)
    {
        if (op.key != "run" && op.key != "rep") continue;
        Line l = op;
        if (op.key == "rep")
        {
            if (!s.inited) continue;
            l.set("t", s.tprev);
        }
        else if (s.inited && l.d("t") <= s.tprev)
            continue;
        double t = l.d("t");
        // external inputs that are not delivered
        std::set<int> mute;
        for (int id : l.li("mute")) mute.insert(id);
        if (!mute.empty() && (s.simk != "fast" || s.inited))
        {
            s.ref->mute = mute;
            Ref r(s.sp);
            r.mute = mute;
            r.plan_order();
            s.ref->mute.clear();
            bool stepping = s.inited && s.sp.stateful() && t != s.tprev;
            int must      = late_readers(r, stepping);
            if (s.simk == "fast")
            {
                must = 0;
                for (auto& b : r.nodes)
                    for (std::size_t k = 0; k < b.in.size(); k++)
                        if (mute.count(b.in[k]) && needs_input(b, k) && b.type != "delay" && b.type != "deriv" && b.type != "ival" && b.type != "tint" &&
                            s.sp.used.count(b.in[k]))
                            must++;
            }
            s.m->mute_ext = mute;
            Outcome o     = s.request_raw(l);
            s.m->mute_ext.clear();
            if (failed()) return;
            COUNT("fault: external inputs not delivered");
            log_u(uint64_t(o.kind));
            if (must && o.kind != 1)
            {
                violation(cls, fmt("request %ld: a signal without a value is read, but ", s.nreq) + (o.ok() ? "the request succeeded" : "the error was not one of the library"));
                return;
            }
            if (!must && !o.ok() && s.simk != "fast")
            {
                violation(cls, "request failed although nothing reads the missing input: " + o.what);
                return;
            }
            if (must)
            {
                COUNT("errors reported");
                nontrivial();
            }
            return; // the committed values are no longer known
        }
        if (!op.str("inj").empty())
        {
            char kind = op.str("inj")[0];
            int id    = op.i("s");
            long at   = op.i("at"), calls = 0;
            bool hit  = false;
            auto it   = s.m->sigs.find(id);
            bool can  = it != s.m->sigs.end() && s.sp.used.count(id) && (kind != 'w' || s.ref->have.count(id)) && (kind != 'z' || it->second.a);
            if (can && at > 0)
            {
                s.m->hk.inside = [&](char k) {
                    if (k != 'A' || ++calls != at) return;
                    if (kind == 'r' && it->second.assigned()) return;
                    hit = true;
                    if (kind == 'w') set_any(it->second, it->second.sz, l.i("eq") != 0);
                    int sz = it->second.sz, n = l.has("n") ? std::abs(l.i("n")) : sz > 1 && at % 2 ? sz - 1 : sz + 1;
                    if (kind == 'z') set_any(it->second, n == sz ? sz + 1 : n);
                    if (kind == 'r') (void)it->second.get();
                };
                com.reset();
                Outcome o      = s.request_raw(l);
                s.m->hk.inside = nullptr;
                if (failed()) return;
                log_u(uint64_t(o.kind) * 2 + hit);
                if (hit)
                {
                    if (!s.inited)
                        COUNT("violations of the signal rules during initialisation");
                    else
                        COUNT("violations of the signal rules during a request");
                    if (kind == 'w') COUNT("fault: second value for a signal");
                    if (kind == 'z') COUNT("fault: array value of the wrong size");
                    if (kind == 'r') COUNT("fault: read of a signal without a value");
                    if (o.kind != 1)
                    {
                        violation(cls, fmt("request %ld: in execution %ld of a user block, ", s.nreq, at) +
                                           (kind == 'w'   ? fmt("signal s%d got a second value", id)
                                            : kind == 'z' ? fmt("array s%d got a value of the wrong size", id)
                                                          : fmt("s%d was read without having a value", id)) +
                                           (o.ok() ? ", but the request succeeded" : ", but the error was not one of the library"));
                        return;
                    }
                    caught++;
                    // an initial-value block may have kept the intruding value
                    bool ival = false;
                    for (auto& b : s.ref->nodes) ival = ival || b.type == "ival";
                    if (ival && !s.inited && kind == 'w')
                    {
                        nontrivial();
                        return;
                    }
                    if (!s.absorb(com.times, cls) || !s.ref->usable()) return;
                    if (op.key == "rep") l.set("t", s.tprev);
                    if (s.inited && op.key == "run" && t <= s.tprev) continue;
                }
                else
                {
                    if (!o.ok())
                    {
                        violation(cls, "request failed: " + o.what);
                        return;
                    }
                    if (!s.follow(t, cls) || !s.ref->usable()) return;
                    if (!compare(*s.m, *s.ref, cls, fmt("after request %ld", s.nreq))) return;
                    continue;
                }
            }
        }
        if (!s.request(l, cls)) return;
        if (caught) ok++;
    }
    COUNTN("errors reported", uint64_t(caught));
    COUNTN("requests compared after an error", uint64_t(ok));
    if (caught) nontrivial();
}
static PropReg r19({"C19", gen19, exec19});

} // namespace sim
