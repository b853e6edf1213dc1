// C09-C12: blocks with memory
#include "session.hpp"

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

static std::unique_ptr<Online> online(Session& s, const char* cls)
{
    for (auto& b : s.sp.blks)
        if (b.type == "probe") return std::make_unique<Online>(s, cls);
    return nullptr;
}
static int count_type(const Spec& sp, std::initializer_list<const char*> types)
{
    int n = 0;
    for (auto& b : sp.blks)
        for (auto* t : types)
            if (b.type == t) n++;
    return n;
}
static void run_blocks(const Plan& p, const char* cls, std::initializer_list<const char*> types, int need)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    auto on = online(s, cls);
    auto d  = drive(s, cls, on.get());
    COUNTN("requests compared", uint64_t(d.ok + d.repeats));
    COUNTN("trial steps rejected", uint64_t(s.rejected));
    if (s.sp.stateful()) COUNT("models with states");
    if (on) COUNTN("evaluations followed", uint64_t(on->evals));
    if (d.ok >= need && count_type(s.sp, types) >= 1) nontrivial();
}
static void ops(Rng& r, Plan& p, int min_n, int max_n)
{
    TimesOpt t;
    t.min_n      = min_n;
    t.max_n      = max_n;
    t.repeats    = r.chance(0.4);
    t.backs      = r.chance(0.15);
    t.max_mn_exp = 7;
    gen_requests(r, p, t);
    if (r.chance(0.6)) gen_script(r, p, r.range(1, 8), 0.3);
    if (r.chance(0.7)) add_probes(r, p, 1);
}
static int max_id(const Plan& p, bool sig)
{
    int m = 0;
    for (auto& l : p.lines)
    {
        if (sig && (l.key == "ext")) m = std::max(m, l.i("id"));
        if (l.key == "blk")
        {
            if (!sig) m = std::max(m, l.i("id"));
            if (sig)
                for (int s : l.li("out")) m = std::max(m, s);
        }
    }
    return m;
}

// ---------------------------------------------------------------- C09: memories, bus memories, bus pipes
static Plan gen09(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.5);
    o.deriv = o.delay = o.ival = o.div = false;
    o.lib       = r.chance(0.5);
    o.probe     = false;
    o.focus_mem = true;
    o.max_blocks = 10;
    gen_model(r, p, o);
    // exclusions: the excluded output is driven by something else, or by nothing
    int nb = max_id(p, false), ns = max_id(p, true);
    std::vector<Line> extra;
    for (auto& l : p.lines)
    {
        if (l.key != "blk" || (l.str("type") != "bmem" && l.str("type") != "bpipe") || !r.chance(0.5)) continue;
        auto lab = l.ls("lab");
        auto in  = l.li("in");
        auto out = l.li("out");
        auto ty  = l.str("ty");
        if (lab.size() < 2) continue;
        std::vector<std::string> ex;
        int n = r.chance(0.7) ? 1 : r.range(2, 3);
        for (int j = 0; j < n; j++)
        {
            int k = r.below(int(lab.size()));
            // rather a label that another one begins or ends with
            for (int q = 0; q < int(lab.size()) && r.chance(0.7); q++)
                for (auto& x : lab)
                    if (x.size() > lab[q].size() && (x.compare(0, lab[q].size(), lab[q]) == 0 || x.compare(x.size() - lab[q].size(), lab[q].size(), lab[q]) == 0)) k = q;
            auto dot = r.chance(0.5) ? lab[k].find('.') : lab[k].rfind('.');
            if (r.chance(0.5) && dot != std::string::npos)
            {
                ex.push_back(lab[k].substr(0, dot + 1));
                if (r.chance(0.3)) ex.push_back("unknown");
            }
            else
                ex.push_back(lab[k]);
        }
        bool all = true;
        std::vector<Line> mine;
        for (std::size_t j = 0; j < lab.size(); j++)
        {
            bool e = false;
            for (auto& x : ex) e = e || x == lab[j] || (x.back() == '.' && lab[j].compare(0, x.size(), x) == 0);
            all = all && e;
            if (!e) continue;
            Line d;
            d.key   = "blk";
            char c  = ty[j];
            int src = in[j];
            // from something else of the same type
            if (c == 's' || c == 'i' || c == 'a')
            {
                src = ++ns;
                Line s;
                s.key = "blk";
                s.set("id", ++nb).set("type", "source").set("ty", std::string(1, c)).set("sz", l.i("sz", 1)).set("fn", 0).set("out", src).set("p", Vec{1.37, 0.5, 3, 1}).set("ord", r.below(30));
                mine.push_back(s);
            }
            d.set("id", ++nb).set("type", "pipe").set("ty", std::string(1, c)).set("sz", l.i("sz", 1)).set("in", src).set("out", out[j]).set("ord", r.below(30));
            mine.push_back(d);
        }
        if (all) continue;
        l.set("ex", ex);
        extra.insert(extra.end(), mine.begin(), mine.end());
    }
    for (auto& l : extra) p.lines.push_back(l);
    ops(r, p, 2, 8);
    return p;
}
static void exec09(const Plan& p) { run_blocks(p, "memory", {"mem", "bmem", "bpipe"}, 2); }
static PropReg r09({"C09", gen09, exec09});

// ---------------------------------------------------------------- C10: delay
static Plan gen10(Rng& r, int tier)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    int nb = 1, ns = 1;
    auto B = [&](const char* type, const char* ty) -> Line& {
        return p.add("blk").set("id", nb++).set("type", type).set("ty", ty).set("ord", r.below(40));
    };
    bool states = r.chance(0.5), noise = r.chance(0.3), big = r.chance(0.15), tiny = r.chance(0.15);
    bool vast   = r.chance(0.004); // thousands of samples within a lifespan
    if (vast) big = true, tiny = false;
    int n       = r.range(1, 3);
    int arr     = r.range(1, 3);
    std::vector<int> pool, apool, npool, napool; // the last two: not for integrators
    for (int k = 0; k < 2; k++)
    {
        int s = ns++;
        static const int f[] = {0, 0, 1, 4};
        Line& l = r.chance(0.5) ? p.add("ext").set("id", s).set("ty", "s") : B("source", "s").set("out", s);
        l.set("fn", f[r.below(4)]).set("p", Vec{dyadic(r, -2, 2, 16), dyadic(r, -2, 2, 16), dyadic(r, -5, 5, 16), dyadic(r, -2, 2, 16)});
        pool.push_back(s);
        s = ns++;
        B("source", "a").set("sz", arr).set("out", s).set("fn", f[r.below(4)]).set("p", Vec{dyadic(r, -2, 2, 16), dyadic(r, -2, 2, 16), dyadic(r, -5, 5, 16), dyadic(r, -2, 2, 16)});
        apool.push_back(s);
    }
    if (states)
    {
        int a = ns++, b = ns++;
        B("integ", "s").set("in", r.chance(0.5) ? a : pool[0]).set("out", a).set("p", dyadic(r, -1, 1, 16));
        B("integ", "a").set("sz", arr).set("in", apool[0]).set("out", b).set("p", dyadic(r, -1, 1, 16));
        if (p.lines.back().li("in").empty()) {}
        pool.push_back(a);
        apool.push_back(b);
        // keep it bounded
        for (auto& l : p.lines)
            if (l.key == "blk" && l.str("type") == "integ" && l.str("ty") == "s")
            {
                int g = ns++;
                l.set("in", g);
                p.add("blk").set("id", nb++).set("type", "siso").set("ty", "s").set("in", a).set("out", g).set("fn", 4).set("p", Vec{0.5, 1, 2}).set("ord", r.below(40));
                break;
            }
    }
    if (noise)
    {
        int s = ns++;
        (r.chance(0.5) ? p.add("ext").set("id", s).set("ty", "s") : B("source", "s").set("out", s)).set("fn", 6);
        npool.push_back(s);
        s = ns++;
        B("source", "a").set("sz", arr).set("out", s).set("fn", 6);
        napool.push_back(s);
    }
    int span = -4;
    for (int k = 0; k < n; k++)
    {
        bool A    = r.chance(0.35);
        int lg    = vast ? r.range(5, 9) : big ? r.range(3, 9) : r.range(-4, 2);
        double L  = std::ldexp(1.0, lg);
        span      = std::max(span, lg);
        int d     = ns++;
        Line& dl  = r.chance(0.5) ? p.add("ext").set("id", d).set("ty", "s") : B("source", "s").set("out", d);
        switch (r.below(5))
        {
        case 0: dl.set("fn", 3).set("p", L); break;
        case 1: dl.set("fn", 3).set("p", L * r.range(0, 8) / 8); break;
        case 2: dl.set("fn", 0).set("p", Vec{L / 2, L / 2 * r.range(1, 8) / 8, dyadic(r, 0.5, 12, 4), dyadic(r, 0, 3, 4)}); break;
        case 3: dl.set("fn", 2).set("p", Vec{dyadic(r, 0, 8, 16) + 0.0137, L * r.range(0, 8) / 8, L * r.range(0, 8) / 8}); break;
        default: dl.set("fn", 3).set("p", -L / 2); break; // from the future: the latest value
        }
        int in = noise && r.chance(0.7) ? (A ? napool : npool)[0] : A ? r.pick(apool) : r.pick(pool), ic = A ? r.pick(apool) : r.pick(pool), out = ns++;
        B("delay", A ? "a" : "s").set("sz", A ? arr : 1).set("in", std::vector<int>{in, d, ic}).set("out", out).set("p", L).set("fn", r.chance(0.5) ? r.below(6) : 0);
        (A ? apool : pool).push_back(out);
    }
    // stages of steep inputs depend on the last bit of the time of the stage
    if (r.chance(0.5) && !(states && noise && tiny))
        p.add("blk").set("id", 900).set("type", "probe").set("in", std::vector<int>{pool.back(), apool.back()}).set("ord", r.below(40));
    // times
    double t  = r.chance(0.4) ? 0.0 : dyadic(r, -4, 4, 16);
    double mn = std::ldexp(1.0, -r.range(4, 7)), mx = std::ldexp(1.0, -r.range(1, 3));
    p.cfg().set("mn", mn).set("mx", mx);
    p.add("run").set("t", t);
    int steps = r.chance(0.3) ? r.range(100, tier ? 1200 : r.chance(0.1) ? 1000 : 300) : r.range(5, 60);
    int scale = vast ? r.range(5, 8) : big ? r.range(0, 4) : r.range(3, 7);
    if (vast) steps = r.range(2000, tier ? 20000 : 6000);
    if (big) p.cfg().set("mx", 2.0 * mx + 2);
    for (int k = 0; k < steps; k++)
    {
        t += r.chance(vast ? 0.99 : 0.7) ? std::ldexp(1.0, -scale) : dyadic(r, 1.0 / 64, 0.5, 64);
        if (r.chance(vast ? 0.0005 : 0.03)) t += std::ldexp(1.0, big ? r.range(0, span) : r.range(0, 2)); // a gap longer than some lifespans
        if (tiny && r.chance(0.3))
        {
            p.add("run").set("t", t);
            t += std::ldexp(1.0, -r.range(20, 34));
        }
        if (r.chance(0.04))
            p.add("rep");
        else
            p.add("run").set("t", t);
    }
    if (states && r.chance(0.5)) gen_script(r, p, r.range(1, 10), 0.3);
    return p;
}
static void exec10(const Plan& p)
{
    // the delay must stay within the lifespan
    run_blocks(p, "delay", {"delay"}, 3);
}
static PropReg r10({"C10", gen10, exec10});

// ---------------------------------------------------------------- C11: derivative, initial value
static Plan gen11(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.5);
    o.delay = o.div = o.bus = false;
    o.mem         = r.chance(0.3);
    o.probe       = false;
    o.focus_deriv = true;
    o.max_blocks  = 10;
    gen_model(r, p, o);
    ops(r, p, 2, 8);
    return p;
}
static void exec11(const Plan& p) { run_blocks(p, "history", {"deriv", "ival"}, 2); }
static PropReg r11({"C11", gen11, exec11});

// ---------------------------------------------------------------- C12: triggered integrator
static Plan gen12(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.delay = o.div = o.bus = o.deriv = o.ival = false;
    o.mem        = r.chance(0.3);
    o.probe      = false;
    o.focus_tint = true;
    o.max_blocks = 9;
    gen_model(r, p, o);
    ops(r, p, 3, 9);
    return p;
}
static void exec12(const Plan& p) { run_blocks(p, "trigger", {"tint"}, 2); }
static PropReg r12({"C12", gen12, exec12});

} // namespace sim
