// C21: a simulation can be repeated exactly; C22: memory is given back, and long runs do not need more of it
#include "session.hpp"
#include "src/solver/history.hpp"

#include <algorithm>
#include <clocale>
#include <fstream>
#include <locale>
#include <sstream>
#include <thread>

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

// ---------------------------------------------------------------- C21
namespace
{
// everything a caller can see of one request
struct Obs
{
    bool done{false};
    int kind{0};
    std::string what;
    std::map<int, Vec> values;
    std::vector<Trial> trials;
    std::vector<Vec> states;   // before and after each trial, as the stepping method sees them
    std::map<int, Vec> row; // recorded
    double row_t{0};
};
struct Story
{
    bool broken{false};
    std::vector<Obs> reqs;
    std::vector<std::pair<std::string, std::string>> columns; // of the exported record
};

__attribute__((noinline)) void dirty_stack(unsigned char v)
{
    volatile unsigned char junk[48 * 1024];
    for (auto& c : junk) c = v;
}

bool bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
bool bits(const Vec& a, const Vec& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t k = 0; k < a.size(); k++)
        if (!bits(a[k], b[k])) return false;
    return true;
}
std::string exact(const Vec& v)
{
    std::string s;
    for (double x : v) s += fmt("%s%.17g", s.empty() ? "" : ",", x);
    return "[" + s + "]";
}
// the whole story of a plan, once
std::unique_ptr<Session> tell(const Plan& p, Story& out, unsigned char dirt)
{
    auto s = std::make_unique<Session>(p, "", true);
    if (!s->good)
    {
        if (!failed()) invalid();
        out.broken = true;
        return s;
    }
    std::unique_ptr<pooya::History> rec;
    unsigned rows = 0;
    if (int n = s->m->sigs.empty() ? 0 : p.cfg().i("rec"))
    {
        rec = std::make_unique<pooya::History>(unsigned(n));
        for (auto& [id, sig] : s->m->sigs) (void)rec->track(sig.sig());
    }
    for (auto& op : p.lines)
    {
        if (op.key != "run" && op.key != "rep" && op.key != "back" && op.key != "nan" && op.key != "newsim") continue;
        Line l;
        bool backwards = op.key == "back" || op.key == "nan";
        {
            Sys sys;
            out.reqs.emplace_back();
            if (op.key == "newsim")
            {
                if (!s->inited) continue;
                sys.leave();
                s->new_sim(op.str("sim", s->simk));
                sys.enter();
                l = Line{"run", {}};
                l.set("t", s->tprev).set("init", 1);
            }
            else
                l = op;
            if (op.key != "run" && !s->inited) continue;
            if (op.key == "rep") l.set("t", s->tprev);
            if (op.key == "back") l.set("t", s->tprev - std::abs(op.d("d", 0.5)) - 1e-9);
            if (op.key == "nan") l.set("t", double(NAN));
            if (op.key == "run" && s->inited && op.d("t") <= s->tprev) continue;
            if (backwards && !s->sp.stateful()) continue;
        }
        Obs& o = out.reqs.back();
        long n = 0, at = op.i("fail");
        bool hit = false;
        s->m->hk.inside = [&](char kind) {
            if (kind != 'I' || ++n != at || hit) return;
            hit = true;
            throw UserFault("inputs are not available");
        };
        if (s->rs->stepper)
            s->rs->stepper->seen = [&](double, double, const pooya::Array& v0, const pooya::Array& v1, double) {
                Sys sys;
                for (auto* v : {&v0, &v1}) o.states.emplace_back(v->data(), v->data() + v->size());
            };
        dirty_stack(dirt);
        Outcome r       = s->request_raw(l);
        s->m->hk.inside = nullptr;
        if (s->rs->stepper) s->rs->stepper->seen = nullptr;
        Sys sys;
        if (hit) COUNT("fault: user code threw");
        o.done = true;
        o.kind = r.kind;
        o.what = r.what;
        for (auto& [id, sig] : s->m->sigs)
            if (sig.assigned()) o.values[id] = sig.get();
        if (s->rs->stepper) o.trials = s->rs->stepper->trials;
        if (r.ok())
        {
            s->inited = true;
            if (s->rs->stepper && l.d("t") > s->tprev) g_sh->simtime += l.d("t") - s->tprev;
            s->tprev = l.d("t");
            if (rec)
            {
                unsigned k = rows++;
                sys.leave();
                Outcome u = guarded([&] { rec->update(k, l.d("t")); });
                sys.enter();
                if (!u.ok())
                {
                    violation("repeat", "recording failed: " + u.what);
                    return s;
                }
                o.row_t = rec->time()(long(k));
                for (auto& [id, sig] : s->m->sigs)
                {
                    auto& m = (*rec)[sig.sig()];
                    for (long j = 0; j < m.cols(); j++) o.row[id].push_back(m(long(k), j));
                }
            }
        }
    }
    if (rec && rows)
    {
        std::string path;
        {
            Sys sys;
            path = scratch_dir() + "/story.csv";
        }
        Outcome u = guarded([&] { rec->export_csv(path); });
        Sys sys;
        if (!u.ok()) violation("repeat", "the export failed: " + u.what);
        std::ifstream f(path);
        std::vector<std::string> head, cols;
        for (std::string row; std::getline(f, row);)
        {
            std::vector<std::string> cells;
            std::istringstream is(row + ",");
            for (std::string c; std::getline(is, c, ',');) cells.push_back(c);
            if (head.empty())
            {
                head = cells;
                cols.resize(head.size());
            }
            for (std::size_t k = 0; k < head.size(); k++) cols[k] += (k < cells.size() ? cells[k] : "?") + "\n";
        }
        for (std::size_t k = 0; k < head.size(); k++) out.columns.emplace_back(head[k], cols[k]);
        COUNT("records exported");
    }
    return s;
}

bool same_story(const Story& a, const Story& b)
{
    const char* cls = "repeat";
    for (std::size_t k = 0; k < a.reqs.size() && k < b.reqs.size(); k++)
    {
        const Obs &x = a.reqs[k], &y = b.reqs[k];
        std::string where = fmt("request %zu: ", k + 1);
        auto differ       = [&](const std::string& m) {
            violation(cls, where + m);
            return false;
        };
        if (x.done != y.done || x.kind != y.kind)
            return differ("ends differently the second time: '" + x.what + "' / '" + y.what + "'");
        if (x.what != y.what)
            return differ("the error message is\n" + y.what + "\nthe first time it was\n" + x.what);
        if (x.trials.size() != y.trials.size())
            return differ(fmt("takes %zu trials, the first time it took %zu", y.trials.size(), x.trials.size()));
        for (std::size_t j = 0; j < x.trials.size(); j++)
            if (!bits(x.trials[j].t0, y.trials[j].t0) || !bits(x.trials[j].t1, y.trials[j].t1) || !bits(x.trials[j].h, y.trials[j].h))
                return differ(fmt("trial %zu goes from %.17g to %.17g and proposes %.17g, the first time from %.17g to %.17g and %.17g",
                                  j + 1, y.trials[j].t0, y.trials[j].t1, y.trials[j].h, x.trials[j].t0, x.trials[j].t1, x.trials[j].h));
        for (std::size_t j = 0; j < x.states.size() && j < y.states.size(); j++)
            if (!bits(x.states[j], y.states[j]))
                return differ(fmt("the states %s trial %zu are %s for the stepping method, the first time they were %s", j % 2 ? "after" : "before",
                                  j / 2 + 1, exact(y.states[j]).c_str(), exact(x.states[j]).c_str()));
        for (auto* m : {&x.values, &y.values})
            for (auto& [id, v] : *m)
            {
                auto i = x.values.find(id), j = y.values.find(id);
                if (i == x.values.end() || j == y.values.end())
                    return differ(fmt("s%d has a value %s time only", id, j == y.values.end() ? "the first" : "the second"));
                if (!bits(i->second, j->second))
                    return differ(fmt("s%d is %s, the first time it was %s", id, exact(j->second).c_str(), exact(i->second).c_str()));
            }
        if (!bits(x.row_t, y.row_t)) return differ("another time was recorded");
        for (auto& [id, v] : x.row)
            if (!y.row.count(id) || !bits(v, y.row.at(id)))
                return differ(fmt("s%d was recorded as %s, the first time as %s", id, y.row.count(id) ? exact(y.row.at(id)).c_str() : "nothing", exact(v).c_str()));
    }
    for (std::size_t k = 0; k < std::max(a.columns.size(), b.columns.size()); k++)
    {
        const char* none = "nothing";
        const char *ca = k < a.columns.size() ? a.columns[k].first.c_str() : none, *cb = k < b.columns.size() ? b.columns[k].first.c_str() : none;
        if (strcmp(ca, cb) != 0)
            violation(cls, fmt("column %zu of the exported record is %s, the first time it was %s", k + 1, cb, ca));
        else if (a.columns[k].second != b.columns[k].second)
            violation(cls, fmt("column %s of the exported record differs the second time", ca));
        else
            continue;
        return false;
    }
    return true;
}
} // namespace

static Plan gen21(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.85);
    o.max_blocks     = r.chance(0.2) ? 20 : 10;
    gen_model(r, p, o);
    TimesOpt t;
    t.min_n   = 2;
    t.max_n   = 7;
    t.repeats = t.backs = r.chance(0.4);
    gen_requests(r, p, t);
    if (r.chance(0.3)) gen_script(r, p, r.range(1, 6), 0.3);
    if (r.chance(0.5))
        for (auto& l : p.lines)
        {
            if (l.key == "run" && r.chance(0.2)) l.set("fail", r.chance(0.6) ? r.range(1, 4) : r.range(1, 40));
        }
    if (r.chance(0.3))
    {
        static const char* sims[] = {"plain", "reuse", "fast"};
        std::vector<Line> ls;
        for (auto& l : p.lines)
        {
            ls.push_back(l);
            if (l.key == "run" && r.chance(0.2)) ls.push_back(Line{"newsim", {}}.set("sim", sims[r.below(3)]));
        }
        p.lines = ls;
    }
    // what is different the second time
    p.cfg().set("fill2", r.below(5)).set("dirt", r.below(256)).set("dirt2", r.below(256)).set("env", r.below(32));
    if (r.chance(0.5)) p.cfg().set("rec", r.chance(0.5) ? r.range(1, 6) : r.range(7, 40));
    if (r.chance(0.3)) p.cfg().set("decoy", r.range(1, 1 << 30));
    return p;
}

struct CommaPunct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};

static void exec21(const Plan& p)
{
    start(p);
    Story first, second;
    int env = p.cfg().i("env");
    auto s1 = tell(p, first, static_cast<unsigned char>(p.cfg().i("dirt")));
    if (first.broken || failed()) return;
    // another world: memory, stack, thread, locale, time zone, other models around
    if (!(env & 1)) s1.reset();
    if (env & 1) COUNT("the first model still exists");
    heap_fill(p.cfg().i("fill2"));
    std::vector<void*> junk;
    if (env & 2)
    {
        COUNT("the heap was used by others");
        Rng r(p.cfg().u("layout") + 77);
        for (int k = r.range(1, 60); k > 0; k--)
        {
            void* q = malloc(std::size_t(r.range(8, 700)));
            Sys sys;
            junk.push_back(q);
        }
        for (std::size_t k = 0; k < junk.size(); k += 2)
        {
            free(junk[k]);
            junk[k] = nullptr;
        }
    }
    Plan decoy;
    std::unique_ptr<Session> other;
    if (int k = p.cfg().i("decoy"))
    {
        COUNT("another simulation in between");
        {
            Sys sys;
            Rng r(static_cast<uint64_t>(k));
            decoy = gen21(r, 0);
            decoy.cfg().set("meth", p.cfg().str("meth"));
        }
        Story ignored;
        other = tell(decoy, ignored, 0x55);
        if (g_sh->status == ST_INVALID || failed()) return;
        if (k & 1) other.reset();
    }
    {
        Sys sys;
        if (env & 4)
        {
            COUNT("fault: another locale");
            std::locale::global(std::locale(std::locale::classic(), new CommaPunct));
        }
        if (env & 8)
        {
            setenv("TZ", "Asia/Kathmandu", 1);
            setenv("LANG", "xx_XX", 1);
            COUNT("fault: another environment");
        }
    }
    std::unique_ptr<Session> s2;
    auto again = [&] { s2 = tell(p, second, static_cast<unsigned char>(p.cfg().i("dirt2"))); };
    if (env & 16)
    {
        COUNT("repeated on another thread");
        std::unique_ptr<std::thread> th;
        {
            Sys sys;
            th = std::make_unique<std::thread>(again);
        }
        th->join();
        Sys sys;
        th.reset();
    }
    else
        again();
    {
        Sys sys;
        if (env & 4) std::locale::global(std::locale::classic());
        for (void* q : junk)
            if (q) free(q);
    }
    if (failed()) return;
    Sys sys;
    if (!same_story(first, second)) return;
    long n = 0;
    for (auto& o : first.reqs)
    {
        if (!o.done) continue;
        n++;
        log_u(uint64_t(o.kind));
        for (auto& [id, v] : o.values)
            for (double x : v) log_d(x);
    }
    COUNTN("requests repeated", uint64_t(n));
    if (n > 1) nontrivial();
}
static PropReg r21({"C21", gen21, exec21});

// ---------------------------------------------------------------- C22
namespace
{
struct Life
{
    std::unique_ptr<Spec> sp;
    std::unique_ptr<RealModel> m;
    std::unique_ptr<RealSim> rs;
    std::unique_ptr<pooya::History> rec;
    std::vector<std::map<int, Vec>> rows;
    std::vector<double> times;
};

// takes a world apart, piece by piece, in any order
void dismantle(Life& w, uint64_t order)
{
    std::vector<std::pair<uint64_t, std::function<void()>>> parts;
    {
        Sys sys;
        Rng r(order);
        auto part = [&](std::function<void()> f) { parts.emplace_back(r.next(), std::move(f)); };
        if (w.rs) part([&] { w.rs->sim.reset(); });
        if (w.rs) part([&] { w.rs->stepper.reset(); });
        if (w.m)
        {
            for (auto& [id, b] : w.m->blocks)
            {
                auto* q = &b;
                part([q] { q->reset(); });
            }
            for (auto& [id, b] : w.m->subs)
            {
                auto* q = &b;
                part([q] { q->reset(); });
            }
            part([&] { w.m->root.reset(); });
            for (auto& [id, s] : w.m->sigs)
            {
                auto* q = &s;
                part([q] {
                    q->s.reset();
                    q->i.reset();
                    q->b.reset();
                    q->a.reset();
                });
            }
        }
        std::sort(parts.begin(), parts.end(), [](auto& a, auto& b) { return a.first < b.first; });
    }
    for (auto& q : parts) q.second();
    Sys sys;
    parts.clear();
    sys.leave();
    w.rs.reset();
    w.m.reset();
    w.sp.reset();
    sys.enter();
}

// one life of a model; false: stop
bool live(const Plan& p, uint64_t order, int nth, bool& meaningful)
{
    const char* cls = "memory";
    Capture cap;
    Life w;
    {
        Sys sys;
        w.sp = std::make_unique<Spec>();
        if (!w.sp->parse(p))
        {
            invalid();
            return false;
        }
    }
    std::string simk, meth;
    {
        Sys sys;
        simk = p.cfg().str("sim", "plain");
        meth = w.sp->stateful() ? p.cfg().str("meth", "rk4") : "";
    }
    // names of its own for each life
    std::string prefix;
    {
        Sys sys;
        if (p.cfg().i("own")) prefix = fmt("model_number_%03d_", nth);
    }
    // building may fail
    for (int attempt = 0; attempt < 3; attempt++)
    {
        int at = attempt == 0 ? p.cfg().i("bfail") : attempt == 1 ? p.cfg().i("bfail2") : 0;
        if (attempt < 2 && !at) continue;
        w.m = std::make_unique<RealModel>(*w.sp, prefix);
        if (at) fail_arm(at, p.cfg().i("bburst", 1));
        Outcome o = guarded([&] { w.m->build(); });
        bool hit  = at && fail_fired();
        fail_disarm();
        if (o.ok()) break;
        if (!hit)
        {
            Sys sys;
            violation(cls, "building a well-formed model failed: " + o.what);
            return false;
        }
        COUNT("fault: allocation failed while a model was built");
        dismantle(w, order + unsigned(attempt) + 1);
        Sys sys;
        w.sp = std::make_unique<Spec>();
        (void)w.sp->parse(p);
    }
    auto make = [&](const std::string& kind) {
        w.rs.reset();
        w.rs = std::make_unique<RealSim>(*w.m, kind, meth);
        if (w.rs->stepper) w.rs->stepper->record = false;
    };
    make(simk);
    if (int n = w.m->sigs.empty() ? 0 : p.cfg().i("rec"))
    {
        w.rec = std::make_unique<pooya::History>(unsigned(n));
        for (auto& [id, sig] : w.m->sigs) (void)w.rec->track(sig.sig());
    }
    bool inited = false;
    double t    = 0;
    for (auto& op : p.lines)
    {
        if (op.key == "newsim" && inited)
        {
            COUNT("simulators replaced or initialised again");
            if (!op.i("same")) make(op.str("sim", simk));
            Outcome o = w.rs->init(t);
            if (o.ok()) continue;
            Sys sys;
            violation(cls, "a new simulator failed: " + o.what);
            return false;
        }
        if (op.key != "run" || (inited && op.d("t") <= t)) continue;
        double lo = p.cfg().d("mn", 1e-3), hi = p.cfg().d("mx", 1);
        if (!(lo > 0 && hi > lo))
        {
            invalid();
            return false;
        }
        for (int attempt = 0; attempt < 2; attempt++)
        {
            int uf = attempt ? 0 : op.i("fail"), af = attempt ? 0 : op.i("nomem");
            long before = w.m->hk.fired;
            long n = 0, at = attempt ? 0 : op.i("peek");
            {
                Sys sys;
                w.m->hk.inside = [&](char) {
                    if (++n == at) (void)w.m->sigs.begin()->second.get();
                };
            }
            double tt = op.d("t");
            if (uf) w.m->hk.arm(uf, op.i("fk"));
            if (af) fail_arm(af, op.i("burst", 1));
            Outcome o       = inited ? w.rs->run(tt, lo, hi) : w.rs->init(tt);
            w.m->hk.inside  = nullptr;
            w.m->hk.arm(0, 0);
            fail_disarm();
            bool hit = w.m->hk.fired != before || (af && fail_fired()) || op.i("peek");
            if (o.ok())
            {
                inited = true;
                t      = op.d("t");
                break;
            }
            if (hit && attempt == 0)
            {
                if (w.m->hk.fired != before)
                    COUNT("fault: user code threw");
                else if (o.kind == 2)
                    COUNT("fault: allocation failed in a request");
                else
                    COUNT("fault: a value was read too early");
                continue;
            }
            // a delay that had already noted the time of a step that failed half-way may refuse
            COUNT("a retried request failed");
            break;
        }
        if (w.rec && inited && t == op.d("t"))
        {
            unsigned k = unsigned(w.rows.size());
            int af     = op.i("rnomem");
            Outcome o;
            for (int attempt = 0; attempt < 2; attempt++)
            {
                if (af && !attempt) fail_arm(af, 1);
                o = guarded([&] { w.rec->update(k, t); });
                bool hit = af && !attempt && fail_fired();
                fail_disarm();
                if (!hit) break;
                COUNT("fault: allocation failed while recording");
            }
            Sys sys;
            if (!o.ok())
            {
                violation(cls, "recording failed: " + o.what);
                return false;
            }
            w.rows.emplace_back();
            w.times.push_back(t);
            for (auto& [id, sig] : w.m->sigs) w.rows.back()[id] = sig.assigned() ? sig.get() : Vec(std::size_t(sig.sz), 0.0);
        }
    }
    meaningful = inited;
    // the record outlives everything else
    std::map<int, pooya::Signal> kept;
    if (w.rec && p.cfg().i("outlive"))
    {
        for (auto& [id, sig] : w.m->sigs)
        {
            Sys sys;
            kept.emplace(id, sig.sig());
        }
    }
    else if (w.rec && p.cfg().i("shrink") && !w.rows.empty())
        w.rec->shrink_to_fit();
    dismantle(w, order);
    if (w.rec && !w.rows.empty())
    {
        if (p.cfg().i("shrink")) w.rec->shrink_to_fit();
        Sys sys;
        if (w.rec->nrows() != w.rows.size())
            violation(cls, fmt("the record has %u rows instead of %zu after its model is gone", unsigned(w.rec->nrows()), w.rows.size()));
        for (std::size_t k = 0; k < w.rows.size() && !failed(); k++)
        {
            if (w.rec->time()(long(k)) != w.times[k]) violation(cls, fmt("row %zu has another time after the model is gone", k));
            for (auto& [id, sig] : kept)
            {
                auto& mat = (*w.rec)[sig];
                Vec v;
                for (long j = 0; j < mat.cols(); j++) v.push_back(mat(long(k), j));
                if (!bits(v, w.rows[k][id]))
                {
                    violation(cls, fmt("row %zu of s%d is %s instead of %s after the model is gone", k, id, show(v).c_str(), show(w.rows[k][id]).c_str()));
                    break;
                }
            }
        }
        COUNT("records read after their models were gone");
    }
    {
        Sys sys;
        kept.clear();
        w.rows.clear();
        w.times.clear();
    }
    w.rec.reset();
    return !failed();
}

// a long run
void endure(const Plan& p)
{
    const char* cls = "memory";
    Session s(p);
    if (!s.good) return;
    if (s.rs->stepper)
        s.rs->stepper->propose = [n = p.cfg().i("rejn")](double t0, double t1, double h, long k) {
            if (n > 1 && k % n == 0)
            {
                COUNT("fault: scripted rejection of a trial step");
                return 0.5 * (t1 - t0);
            }
            return h;
        };
    int gap = p.cfg().i("gap"), n = std::min(20000, p.cfg().i("steps")), every = p.cfg().i("every"), newsim = p.cfg().i("resim");
    double t = p.cfg().d("t0"), dt = p.cfg().d("dt");
    if (n < 64 || !(dt > 0) || !(s.mn > 0 && s.mx > s.mn)) return invalid();
    double span = 0;
    long width  = 0; // of the samples of one time in all delays
    for (auto& b : s.sp.blks)
        if (b.type == "delay")
        {
            span = std::max(span, b.p.empty() ? 0 : b.p[0]);
            width += b.ty == "a" ? 8 + 16 + 8 * b.sz : 8 + 8;
        }
    std::vector<double> commits; // within the longest lifespan
    std::size_t most = 1, head = 0, total = 0, later = 0;
    HeapUse early{};
    static const char* sims[] = {"plain", "reuse", "fast"};
    for (int k = 0; k < n; k++)
    {
        double from = t;
        if (k) t += gap && k % gap == 0 ? 40 * dt : dt;
        if (newsim && k && k % newsim == 0)
        {
            if (!p.cfg().i("same")) s.new_sim(sims[(k / newsim) % 3]);
            if (!s.rs->init(from).ok())
            {
                violation(cls, "a new simulator failed");
                return;
            }
            COUNT("simulators replaced or initialised again");
        }
        Outcome o;
        for (int attempt = 0; attempt < 2; attempt++)
        {
            if (every && k && k % every == 0 && !attempt) s.m->hk.arm(1 + (k / every) % 9, 0);
            if (s.rs->stepper) s.rs->stepper->trials.clear();
            o = k ? s.rs->run(t, s.mn, s.mx) : s.rs->init(t);
            s.m->hk.arm(0, 0);
            if (o.ok()) break;
            COUNT("fault: user code threw");
        }
        Sys sys;
        if (!o.ok())
        {
            COUNT("a retried request failed");
            continue; // see above
        }
        s.cap->clear();
        std::vector<double> done{t};
        if (s.rs->stepper)
        {
            done.clear();
            for (auto& tr : s.rs->stepper->trials) done.push_back(tr.t1);
            done.push_back(t);
            s.rs->stepper->trials.clear();
            s.rs->stepper->trials.reserve(4096);
        }
        g_sh->simtime += t - from;
        total += done.size();
        if (k >= n / 4) later += done.size();
        commits.insert(commits.end(), done.begin(), done.end());
        while (head < commits.size() && commits[head] < t - span) head++;
        most = std::max(most, commits.size() - head + 2);
        if (k == n / 4) early = heap_use();
    }
    HeapUse end = heap_use();
    Sys sys;
    long allowed = 1024 + 4 * width * long(most);
    if (allowed > long(later) * 6) return; // the run is too short to tell
    COUNT("long runs measured");
    COUNTN("steps of long runs", uint64_t(total));
    nontrivial();
    log_u(uint64_t(end.bytes));
    if (end.bytes - early.bytes > allowed)
        violation(cls, fmt("memory in use grew from %ld to %ld bytes during the last %zu steps, although no more than %zu of them lie within a lifespan",
                           early.bytes, end.bytes, later, most));
}
} // namespace

static Plan gen22(Rng& r, int tier)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.7);
    bool lng         = r.chance(0.12);
    o.max_blocks     = lng ? 6 : r.chance(0.2) ? 20 : 10;
    o.div            = !lng;
    gen_model(r, p, o);
    add_probes(r, p, 1);
    if (lng)
    {
        double span = 1;
        for (auto& l : p.lines)
            if (l.key == "blk" && l.str("type") == "delay")
            {
                span = std::ldexp(1.0, r.range(-3, 4));
                l.set("p", span);
                int d = l.li("in")[1]; // the delay: none at all, or constant
                double v = r.chance(0.5) ? 0 : span * r.below(9) / 8;
                if (r.chance(0.6))
                    for (auto& q : p.lines)
                        if ((q.key == "blk" && q.str("type") == "source" && q.li("out") == std::vector<int>{d}) || (q.key == "ext" && q.i("id") == d))
                            q.set("fn", 3).set("p", v);
            }
        double dt = span / std::ldexp(1.0, r.range(0, 5));
        int n     = r.range(500, tier ? 6000 : 1500);
        p.cfg().set("steps", n).set("dt", dt).set("t0", dyadic(r, -4, 4, 16)).set("mx", dt * 2).set("mn", dt / std::ldexp(1.0, r.range(1, 3)));
        if (r.chance(0.5)) p.cfg().set("every", r.range(2, 20));
        if (r.chance(0.5)) p.cfg().set("rejn", r.range(2, 9));
        if (r.chance(0.3)) p.cfg().set("resim", r.range(2, 20)).set("same", r.below(2));
        if (r.chance(0.3)) p.cfg().set("gap", r.chance(0.5) ? r.range(5, 40) : r.range(40, 120));
        return p;
    }
    TimesOpt t;
    t.min_n = 1;
    t.max_n = 5;
    t.max_mn_exp = 7;
    gen_requests(r, p, t);
    static const char* sims[] = {"plain", "reuse", "fast"};
    std::vector<Line> ls;
    for (auto& l : p.lines)
    {
        if (l.key == "run" && r.chance(0.4))
        {
            double x = r.unit();
            if (x < 0.4)
                l.set("fail", r.chance(0.5) ? r.range(1, 12) : r.range(1, 100)).set("fk", r.chance(0.8) ? 0 : 1);
            else if (x < 0.8)
                l.set("nomem", r.chance(0.5) ? r.range(1, 12) : r.range(1, 200)).set("burst", r.chance(0.8) ? 1 : r.range(2, 5));
            else if (x < 0.9)
                l.set("peek", r.range(1, 5));
            else
                l.set("rnomem", r.range(1, 5));
        }
        ls.push_back(l);
        if (l.key == "run" && r.chance(0.1)) ls.push_back(Line{"newsim", {}}.set("sim", sims[r.below(3)]));
        if (l.key == "run" && r.chance(0.05)) ls.push_back(Line{"newsim", {}}.set("same", 1));
    }
    p.lines = ls;
    Line& c = p.cfg();
    if (r.chance(0.4)) c.set("bfail", r.chance(0.5) ? r.range(1, 60) : r.range(1, 400)).set("bburst", r.chance(0.8) ? 1 : r.range(2, 5));
    if (r.chance(0.1)) c.set("bfail2", r.range(1, 100));
    if (r.chance(0.5)) c.set("rec", r.chance(0.5) ? r.range(1, 4) : r.range(5, 40));
    if (r.chance(0.6)) c.set("outlive", 1);
    if (r.chance(0.3)) c.set("shrink", 1);
    if (r.chance(0.5)) c.set("own", 1);
    c.set("order", int(r.below(1 << 20)));
    return p;
}
static void exec22(const Plan& p)
{
    start(p);
    if (p.cfg().has("steps")) return endure(p);
    // lives one after the other; the first ones may leave something behind (caches)
    constexpr int N = 5;
    long left[N], blocks[N];
    bool meaningful = false;
    for (int k = 0; k < N; k++)
    {
        if (!live(p, p.cfg().u("order") + uint64_t(k) * 1000, k, meaningful)) return;
        left[k]   = heap_use().bytes;
        blocks[k] = heap_use().blocks;
        heap_check();
        if (failed()) return;
    }
    log_u(uint64_t(left[N - 1]));
    bool leak = true;
    for (int k = 2; k < N; k++) leak = leak && left[k] > left[k - 1];
    COUNTN("lives of a model", N);
    if (leak)
        violation("memory", fmt("every life of the model leaves memory behind: %ld blocks, %ld bytes after the last one, %ld blocks, %ld bytes before", blocks[N - 1],
                                left[N - 1], blocks[N - 2], left[N - 2]));
    if (meaningful) nontrivial();
}
static PropReg r22({"C22", gen22, exec22});

} // namespace sim
