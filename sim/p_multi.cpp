// C17, C20: several simulations side by side, simulators one after the other
#include "session.hpp"
#include "src/solver/history.hpp"

#include <condition_variable>
#include <fstream>
#include <sstream>
#include <mutex>
#include <thread>

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

// ---------------------------------------------------------------- threads under control of the plan
// Exactly one thread runs at any time. Every call of user code and every allocation of the library is a point at which
// the plan may hand control to another thread.
namespace
{
struct Baton
{
    std::mutex mx;
    std::condition_variable cv;
    int holder{-1}; // -1: the coordinator
    uint64_t points{0};
    std::map<uint64_t, int> sw;
    uint64_t statics{0};
    std::map<uint64_t, int> gw; // by accesses to static data
    std::vector<bool> alive;
    long switches{0};
    static Baton* cur;
    static thread_local int self;

    void give(int to)
    {
        std::unique_lock<std::mutex> l(mx);
        holder = to;
        cv.notify_all();
    }
    void wait(int me)
    {
        std::unique_lock<std::mutex> l(mx);
        cv.wait(l, [&] { return holder == me; });
    }
    static void point()
    {
        Baton* b = cur;
        if (!b || self < 0) return;
        Sys s;
        auto it = b->sw.find(++b->points);
        if (it != b->sw.end()) b->hand(it->second);
    }
    static void static_point()
    {
        Baton* b = cur;
        if (!b || self < 0) return;
        Sys s;
        COUNT("accesses to static data");
        auto it = b->gw.find(++b->statics);
        if (it == b->gw.end()) return;
        COUNT("switches at an access to static data");
        b->hand(it->second);
    }
    void hand(int to)
    {
        Baton* b = this;
        to %= int(b->alive.size());
        if (to < 0 || to == self || !b->alive[std::size_t(to)]) return;
        b->switches++;
        log_u(0x53570000u + unsigned(to));
        b->give(to);
        b->wait(self);
    }
    // the running thread cannot go on: the next one in turn does
    static void blocked()
    {
        Baton* b = cur;
        Sys s;
        COUNT("threads found a lock taken");
        for (std::size_t k = 1; k < b->alive.size(); k++)
        {
            int to = int((std::size_t(self) + k) % b->alive.size());
            if (!b->alive[std::size_t(to)]) continue;
            b->switches++;
            log_u(0x53580000u + unsigned(to));
            b->give(to);
            b->wait(self);
            return;
        }
    }
};
Baton* Baton::cur = nullptr;
thread_local int Baton::self = -1;

// what a request did, as far as its caller can see
struct Seen
{
    int kind{0};
    std::string what;
    std::map<int, Vec> values; // empty: unassigned
    std::vector<Trial> trials;
    bool depth{false};
    std::string record; // rows recorded, labels, exported text
    bool any_order{false}; // which of several unassigned signals is found first is not determined
};

struct Actor
{
    int id{0};
    Plan plan;
    std::vector<const Line*> ops;
    std::unique_ptr<Session> s;
    std::vector<Seen> solo, got;
    std::size_t next{0};
    bool busy{false}, broken{false}, refok{true};
    pooya::ScalarSignal* empty{nullptr};
    std::unique_ptr<pooya::History> rec;
    unsigned rows{0};
};

struct World
{
    std::vector<Actor> actors;
    const char* cls{"interference"};
    bool threads{false};
    int depth{0};
    long nested{0}, errors{0};

    bool build(Actor& a)
    {
        if (a.s) return a.s->good;
        std::string prefix;
        {
            Sys s;
            prefix = std::string(1, char('A' + a.id)) + "_";
        }
        a.s = std::make_unique<Session>(a.plan, prefix, false);
        if (!a.s->good) return false;
        a.empty = new pooya::ScalarSignal(prefix + "empty");
        int rows = a.plan.cfg().i("rec");
        if (rows > 0)
        {
            a.rec  = std::make_unique<pooya::History>(unsigned(rows));
            a.rows = 0;
            for (auto& [id, sig] : a.s->m->sigs) (void)a.rec->track(sig.sig());
        }
        return true;
    }
    // the next request of an actor
    void step(Actor& a, std::vector<Seen>& out, bool solo)
    {
        if (a.busy || a.broken || a.next >= a.ops.size() || failed()) return;
        a.busy = true;
        if (!build(a))
        {
            a.broken = true;
            if (!failed()) invalid();
            return;
        }
        const Line& op = *a.ops[a.next++];
        Session& s     = *a.s;
        Line l;
        bool expect_error = false;
        {
            Sys sys;
            l = op;
            if (op.key == "rep") l.set("t", s.tprev);
            if (op.key == "back") l.set("t", s.tprev - std::abs(op.d("d", 0.5)) - 1e-9);
            if (op.key == "nan") l.set("t", double(NAN));
            expect_error = op.key == "back" || op.key == "nan";
        }
        bool skip = (!s.inited && op.key != "run") || (expect_error && !s.sp.stateful()) ||
                    (op.key == "run" && s.inited && op.d("t") <= s.tprev);
        if (!skip)
        {
            long calls = 0;
            int peek = op.i("peek"), nest = solo ? 0 : op.i("nest");
            s.m->hk.inside = [&](char kind) {
                if (kind == 'C') return;
                ++calls;
                if (calls == nest && !threads)
                {
                    Actor* b = nullptr;
                    for (std::size_t k = 1; k < actors.size() && !b; k++)
                    {
                        Actor& c = actors[(std::size_t(a.id) + k) % actors.size()];
                        if (!c.busy && !c.broken && c.next < c.ops.size()) b = &c;
                    }
                    if (b)
                    {
                        depth++;
                        nested++;
                        step(*b, b->got, false);
                        depth--;
                    }
                }
                if (calls == peek) (void)(*a.empty)->get_value();
            };
            // inputs that are not delivered: blocks that cannot be executed
            bool muted = op.i("mute") && !s.sp.exts.empty();
            if (muted)
            {
                Sys sys;
                for (auto& e : s.sp.exts) s.m->mute_ext.insert(e.id);
                a.refok = false;
                COUNT("fault: external inputs not delivered");
            }
            Outcome o = s.request_raw(l);
            s.m->hk.inside = nullptr;
            Sys sys;
            if (muted) s.m->mute_ext.clear();
            Seen r;
            int integrators = 0;
            for (auto& b : s.sp.blks) integrators += b.type == "integ" || b.type == "tint";
            r.any_order = muted && integrators > 1;
            r.kind  = o.kind;
            r.what  = o.what;
            r.depth = depth > 0;
            for (auto& [id, sig] : s.m->sigs)
                if (sig.assigned()) r.values[id] = sig.get();
            if (s.rs->stepper) r.trials = s.rs->stepper->trials;
            if (!o.ok()) errors++;
            sys.leave();
            if (a.rec) record(a, l.d("t"), o.ok(), r);
            sys.enter();
            if (!solo)
            {
                log_u(uint64_t(a.id) << 8 | uint64_t(o.kind));
                for (auto& [id, v] : r.values)
                    for (double x : v) log_d(x);
            }
            // the reference model, as long as it can follow
            if (!solo && a.refok && !expect_error)
            {
                if (!o.ok())
                    a.refok = false;
                else if (!s.follow(l.d("t"), cls))
                    a.refok = false;
                else if (!s.ref->usable())
                    a.refok = false;
                else
                    compare(*s.m, *s.ref, cls, fmt("simulation %c after request %zu", 'A' + a.id, a.next));
            }
            else if (o.ok())
            {
                s.inited = true;
                s.tprev  = l.d("t");
            }
            if (o.ok())
            {
                s.inited = true;
                s.tprev  = l.d("t");
            }
            out.push_back(r);
            if (!solo && !failed()) check(a, out.size() - 1);
            if (!o.ok() && !expect_error && !s.inited)
            {
                // a failed initialization: the next request repeats it
            }
        }
        else
        {
            Sys sys;
            out.emplace_back();
            if (!solo && !failed()) check(a, out.size() - 1);
        }
        a.busy = false;
    }
    // what the recorder and the labels say
    void record(Actor& a, double t, bool ok, Seen& r)
    {
        Session& s = *a.s;
        if (ok)
        {
            unsigned k = a.rows++;
            Outcome o  = guarded([&] { a.rec->update(k, t); });
            Sys sys;
            r.record += o.ok() ? "" : "recording failed: " + o.what + "\n";
            for (auto& [id, sig] : s.m->sigs)
            {
                const Eigen::MatrixXd* m = nullptr;
                Outcome o2               = guarded([&] { m = &(*a.rec)[sig.sig()]; });
                if (!o2.ok() || m->rows() <= long(k))
                {
                    r.record += fmt("s%d is not in the record\n", id);
                    continue;
                }
                Vec v = sig.assigned() ? sig.get() : Vec(std::size_t(m->cols()), 0.0), w;
                for (long j = 0; j < m->cols(); j++) w.push_back((*m)(long(k), j));
                bool same = v.size() == w.size();
                for (std::size_t j = 0; same && j < v.size(); j++) same = v[j] == w[j] || (std::isnan(v[j]) && std::isnan(w[j]));
                if (!same) r.record += fmt("s%d is recorded as %s instead of %s\n", id, show(w).c_str(), show(v).c_str());
            }
        }
        if (a.next == 1 || a.next == a.ops.size())
        {
            std::string l;
            for (auto& [id, sig] : s.m->sigs) l += sig.sig()->name().str() + "\n";
            for (auto& [id, b] : s.m->blocks) l += b->full_name().str() + "\n";
            Sys sys;
            r.record += l.c_str();
        }
        if (a.next == a.ops.size())
        {
            std::string path;
            {
                Sys sys;
                path = scratch_dir() + fmt("/%c.csv", 'A' + a.id);
            }
            Outcome o = guarded([&] { a.rec->export_csv(path); });
            Sys sys;
            r.record += o.ok() ? "exported\n" : "export failed: " + o.what + "\n";
            std::ifstream f(path);
            std::stringstream text;
            text << f.rdbuf();
            std::string x = text.str();
            // numbers are compared elsewhere
            r.record += fmt("%ld lines\n", long(std::count(x.begin(), x.end(), '\n')));
            std::vector<std::string> cols; // in any order
            std::istringstream head(x.substr(0, x.find('\n')) + ",");
            for (std::string c; std::getline(head, c, ',');) cols.push_back(c);
            std::sort(cols.begin(), cols.end());
            for (auto& c : cols) r.record += c + " ";
            COUNT("records exported");
        }
    }
    void check(const Actor& a, std::size_t k)
    {
        if (k >= a.solo.size())
        {
            violation(cls, fmt("simulation %c executed more requests than on its own", 'A' + a.id));
            return;
        }
        const Seen &x = a.solo[k], &y = a.got[k];
        std::string where = fmt("request %zu of simulation %c: ", k + 1, 'A' + a.id);
        if (x.kind != y.kind)
        {
            violation(cls, where + (x.kind == 0 ? "succeeds when executed alone, but failed: " + y.what
                                    : y.kind == 0 ? "fails when executed alone, but succeeded; alone: " + x.what
                                                  : "fails differently when executed alone: " + x.what + " / " + y.what));
            return;
        }
        // the call trace of a nested call goes on with the calls around it
        // (the lines of a message may come in any order)
        auto lines = [](const std::string& t) {
            std::multiset<std::string> l;
            std::istringstream is(t);
            for (std::string k; std::getline(is, k);) l.insert(k);
            return l;
        };
        auto lx = lines(x.what), ly = lines(y.what);
        bool same = y.depth ? std::includes(ly.begin(), ly.end(), lx.begin(), lx.end()) : lx == ly;
        if (!same && !x.any_order)
        {
            violation(cls, where + "the error message is\n" + y.what + "\nalone it is\n" + x.what);
            return;
        }
        if (x.values.size() != y.values.size())
        {
            violation(cls, where + fmt("%zu signals have a value instead of %zu", y.values.size(), x.values.size()));
            return;
        }
        for (auto& [id, v] : x.values)
        {
            auto it = y.values.find(id);
            bool eq = it != y.values.end() && it->second.size() == v.size();
            for (std::size_t j = 0; eq && j < v.size(); j++) eq = close(v[j], it->second[j], 1, 1e-9);
            if (!eq)
            {
                violation(cls, where + fmt("s%d is %s instead of %s", id, it == y.values.end() ? "unassigned" : show(it->second).c_str(), show(v).c_str()));
                return;
            }
        }
        if (x.record != y.record)
        {
            violation(cls, where + "what is recorded is\n" + y.record + "\nalone it is\n" + x.record);
            return;
        }
        if (x.trials.size() != y.trials.size())
        {
            violation(cls, where + fmt("took %zu trials instead of %zu", y.trials.size(), x.trials.size()));
            return;
        }
    }
    void reset()
    {
        for (auto& a : actors)
        {
            delete a.empty;
            a.empty = nullptr;
            a.rec.reset();
            a.s.reset();
            a.next = 0;
            a.busy = a.broken = false;
            a.refok           = true;
        }
        depth = 0;
        errors = 0;
    }
};
} // namespace

static Plan gen17(Rng& r, int)
{
    Plan p;
    int n    = r.chance(0.8) ? 2 : 3;
    int mode = r.chance(0.9) ? r.below(3) : 3; // 3: the requests of one simulation come from different threads
    p.add("cfg").set("layout", int(r.below(1 << 20))).set("fill", r.below(5)).set("n", n).set("mode", mode);
    std::vector<std::vector<Line>> ops(static_cast<std::size_t>(n));
    bool twin = r.chance(0.3); // equal models
    Plan first;
    for (int k = 0; k < n; k++)
    {
        Plan q;
        if (k && twin)
        {
            q = first;
            if (r.chance(0.5))
            {
                static const char* sims[] = {"plain", "reuse", "fast"};
                q.cfg().set("sim", sims[r.below(3)]);
            }
        }
        else
        {
            q.add("cfg");
            gen_cfg(r, q);
            if (r.chance(0.4)) q.cfg().set("rec", r.range(1, 4));
            GenOpt o;
            o.integ = o.tint = r.chance(0.85);
            o.need_integ     = r.chance(0.6);
            o.max_blocks     = r.chance(0.2) ? 12 : 6;
            gen_model(r, q, o);
            add_probes(r, q, 1);
            TimesOpt t;
            t.min_n      = 2;
            t.max_n      = 5;
            t.repeats    = r.chance(0.3);
            t.backs      = r.chance(0.5);
            t.max_mn_exp = 6;
            gen_requests(r, q, t);
            if (r.chance(0.3)) gen_script(r, q, r.range(1, 4), 0.3);
            first = q;
        }
        for (auto& l : q.lines)
        {
            Line m = l;
            m.set("@", k);
            if (l.key == "run" || l.key == "rep" || l.key == "back" || l.key == "nan")
            {
                if (r.chance(0.12)) m.set("peek", r.range(1, r.chance(0.5) ? 6 : 40));
                if (r.chance(0.04)) m.set("mute", 1);
                if (mode == 3) m.set("on", r.below(3));
                if (mode == 1 && r.chance(0.5)) m.set("nest", r.range(1, r.chance(0.5) ? 6 : 40));
                ops[std::size_t(k)].push_back(m);
            }
            else
                p.lines.push_back(m);
        }
    }
    std::vector<std::size_t> at(std::size_t(n), 0);
    for (;;)
    {
        std::vector<int> left;
        for (int k = 0; k < n; k++)
            if (at[std::size_t(k)] < ops[std::size_t(k)].size()) left.push_back(k);
        if (left.empty()) break;
        int k = r.pick(left);
        p.lines.push_back(ops[std::size_t(k)][at[std::size_t(k)]++]);
    }
    if (mode == 2)
    {
        uint64_t pt = 0;
        int mean    = r.chance(0.3) ? 20 : r.chance(0.4) ? 150 : r.chance(0.5) ? 1500 : 10000;
        int cnt     = r.range(5, 120);
        for (int k = 0; k < cnt; k++)
        {
            pt += uint64_t(1 + r.below(2 * mean));
            p.add("sw").set("k", pt).set("to", r.below(n));
        }
        // around accesses to data that all simulations share
        pt   = 0;
        mean = r.chance(0.6) ? 1 : r.chance(0.5) ? 5 : 40;
        cnt  = r.range(0, 100);
        for (int k = 0; k < cnt; k++)
        {
            pt += uint64_t(1 + r.below(2 * mean));
            p.add("gw").set("k", pt).set("to", r.below(n));
        }
    }
    return p;
}

static void exec17(const Plan& p)
{
    start(p);
    World w;
    Capture cap;
    int n = std::min(4, std::max(1, p.cfg().i("n", 2)));
    {
        Sys s;
        w.actors.resize(std::size_t(n));
        for (int k = 0; k < n; k++) w.actors[std::size_t(k)].id = k;
        for (auto& l : p.lines)
            if (l.has("@"))
            {
                int k = l.i("@");
                if (k < 0 || k >= n) continue;
                w.actors[std::size_t(k)].plan.lines.push_back(l);
            }
        for (auto& a : w.actors) (void)a.plan.cfg(); // may add a line
        for (auto& a : w.actors)
            for (auto& l : a.plan.lines)
                if (l.key == "run" || l.key == "rep" || l.key == "back" || l.key == "nan") a.ops.push_back(&l);
    }
    // every simulation on its own
    for (auto& a : w.actors)
    {
        while (a.next < a.ops.size() && !a.broken && !failed()) w.step(a, a.solo, true);
        if (failed()) return;
    }
    w.reset();
    // all of them
    int mode = p.cfg().i("mode");
    if (mode == 2)
    {
        w.threads = true;
        Baton b;
        {
            Sys s;
            b.alive.assign(std::size_t(n), true);
            for (auto* l : p.all("sw")) b.sw[l->u("k")] = l->i("to");
            for (auto* l : p.all("gw")) b.gw[l->u("k")] = l->i("to");
        }
        Baton::cur = &b;
        std::vector<std::thread> th;
        std::vector<bool> done(std::size_t(n), false);
        {
            Sys s;
            for (int k = 0; k < n; k++)
                th.emplace_back([&, k] {
                    Baton::self = k;
                    b.wait(k);
                    Actor& a = w.actors[std::size_t(k)];
                    t_alloc_yield = &Baton::point;
                    t_lock_yield  = &Baton::blocked;
                    t_entry_yield  = &Baton::point;
                    t_static_yield = &Baton::static_point;
                    while (a.next < a.ops.size() && !a.broken && !failed())
                    {
                        w.step(a, a.got, false);
                        Baton::point();
                    }
                    if (a.s && a.s->m)
                    {
                        delete a.empty;
                        a.empty = nullptr;
                        a.rec.reset();
                        a.s.reset();
                    }
                    t_alloc_yield = nullptr;
                    t_lock_yield  = nullptr;
                    t_entry_yield  = nullptr;
                    t_static_yield = nullptr;
                    done[std::size_t(k)]    = true;
                    b.alive[std::size_t(k)] = false;
                    b.give(-1);
                });
        }
        // the threads end one by one, and what each frees at its end is freed before another one goes on
        int cur = 0;
        for (int left = n; left > 0; left--)
        {
            while (!b.alive[std::size_t(cur)]) cur = (cur + 1) % n;
            b.give(cur);
            b.wait(-1);
            for (int k = 0; k < n; k++)
                if (done[std::size_t(k)] && th[std::size_t(k)].joinable()) th[std::size_t(k)].join();
        }
        Baton::cur = nullptr;
        COUNTN("threads", uint64_t(n));
        COUNTN("switches between threads", uint64_t(b.switches));
        if (b.switches && !failed()) nontrivial();
    }
    else if (mode == 3)
    {
        Baton b;
        const int nt = 3;
        std::vector<std::thread> th;
        std::function<void()> job;
        bool stop = false;
        {
            Sys s;
            for (int k = 0; k < nt; k++)
                th.emplace_back([&, k] {
                    for (;;)
                    {
                        b.wait(k);
                        if (stop) break;
                        job();
                        b.give(-1);
                    }
                    b.give(-1);
                });
        }
        auto on = [&](int k, std::function<void()> f) {
            {
                Sys s;
                job = std::move(f);
            }
            b.give(k);
            b.wait(-1);
        };
        int last = -1;
        for (auto& l : p.lines)
        {
            if (failed()) break;
            if (!l.has("@") || !(l.key == "run" || l.key == "rep" || l.key == "back" || l.key == "nan")) continue;
            int k = l.i("@"), t = std::abs(l.i("on")) % nt;
            if (k < 0 || k >= n) continue;
            if (last >= 0 && last != t) COUNT("fault: next request from another thread");
            last = t;
            Actor& a = w.actors[std::size_t(k)];
            on(t, [&] { w.step(a, a.got, false); });
        }
        for (auto& a : w.actors)
        {
            if (failed()) break;
            on((last + 1) % nt, [&] {
                delete a.empty;
                a.empty = nullptr;
                a.rec.reset();
                a.s.reset();
            });
        }
        stop = true;
        for (int k = 0; k < nt; k++)
        {
            b.give(k);
            b.wait(-1);
            th[std::size_t(k)].join();
        }
        if (last >= 0 && !failed()) nontrivial();
    }
    else
    {
        for (auto& l : p.lines)
        {
            if (failed()) return;
            if (!l.has("@") || !(l.key == "run" || l.key == "rep" || l.key == "back" || l.key == "nan")) continue;
            int k = l.i("@");
            if (k < 0 || k >= n) continue;
            w.step(w.actors[std::size_t(k)], w.actors[std::size_t(k)].got, false);
        }
        for (auto& a : w.actors)
            while (a.next < a.ops.size() && !a.broken && !failed()) w.step(a, a.got, false);
        COUNTN("requests nested in callbacks of another simulation", uint64_t(w.nested));
        if (mode == 0 && n > 1) COUNT("runs interleaved request by request");
        if ((mode == 0 || w.nested) && n > 1 && !failed()) nontrivial();
    }
    COUNTN("requests that failed as they should", uint64_t(w.errors));
    w.reset();
}
static PropReg r17({"C17", gen17, exec17});

// ---------------------------------------------------------------- C20
static Plan gen20(Rng& r, int)
{
    Plan p;
    p.add("cfg");
    gen_cfg(r, p);
    GenOpt o;
    o.integ = o.tint = r.chance(0.85);
    o.max_blocks     = r.chance(0.2) ? 16 : 8;
    gen_model(r, p, o);
    add_probes(r, p, r.range(1, 2), true);
    TimesOpt t;
    t.min_n      = 3;
    t.max_n      = 8;
    t.repeats    = r.chance(0.3);
    t.max_mn_exp = 7;
    gen_requests(r, p, t);
    bool sub = r.chance(0.4);
    if (sub) p.cfg().set("habs", std::ldexp(1.0, -r.range(3, 6)));
    if (r.chance(0.3)) gen_script(r, p, r.range(1, 6), 0.3);
    static const char* sims[]  = {"plain", "reuse", "fast"};
    static const char* meths[] = {"euler", "rk4", "rkf45"};
    std::vector<Line> lines;
    bool first = true;
    for (auto l : p.lines)
    {
        bool req = l.key == "run" || l.key == "rep";
        if (req && r.chance(0.3))
        {
            int hi = sub ? 150 : r.chance(0.6) ? 12 : 60;
            l.set("fail", r.range(1, hi)).set("fk", r.chance(0.8) ? 0 : 1);
        }
        lines.push_back(l);
        if (req && (r.chance(0.35) || (first && r.chance(0.3))))
        {
            Line n{"new", {}};
            n.set("sim", sims[r.below(3)]);
            if (r.chance(0.3)) n.set("meth", meths[r.below(3)]);
            if (r.chance(0.5)) n.set("init", 1);
            if (r.chance(0.2)) n.set("fail", r.range(1, 12));
            if (r.chance(0.25)) n.set("same", 1); // the same simulator is initialised again
            else if (r.chance(0.3)) n.set("keep", 1); // the old stepping-method object serves the new simulator
            else if (r.chance(0.4)) n.set("late", r.range(1, 3)); // the old simulator is destroyed late
            lines.push_back(n);
        }
        if (req) first = false;
    }
    p.lines = lines;
    return p;
}
static void exec20(const Plan& p)
{
    start(p);
    Session s(p);
    if (!s.good) return;
    if (!has_probe(s.sp))
    {
        invalid();
        return;
    }
    const char* cls = "takeover";
    Commits com(s);
    int taken = 0, after_failure = 0, ok = 0;
    bool pending = false; // a failed request since the last success
    std::optional<double> t0; // of the first attempt to initialise
    std::vector<std::pair<int, std::unique_ptr<RealSim>>> olds; // replaced simulators that live on for some steps
    auto bury = [&](const char* when) -> bool {
        bool gone = false;
        for (std::size_t k = 0; k < olds.size();)
            if (--olds[k].first <= 0)
            {
                olds.erase(olds.begin() + long(k));
                gone = true;
            }
            else
                k++;
        if (!gone) return true;
        COUNT("fault: replaced simulator destroyed while its successor is in use");
        return compare(*s.m, *s.ref, cls, when);
    };
    for (auto& op : p.lines)
    {
        if (op.key == "new")
        {
            bool same = op.i("same") && s.inited;
            if (same)
                COUNT("fault: simulator initialised again");
            else
            {
                bool keep = op.i("keep") != 0;
                if (op.has("meth") && s.sp.stateful() && !keep) s.meth = op.str("meth");
                if (!keep && op.i("late") > 0) olds.emplace_back(op.i("late"), std::move(s.rs));
                s.new_sim(op.str("sim", "plain"), keep);
            }
            taken++;
            if (pending) after_failure++;
            if (!s.inited) continue;
            // initialised at the last committed time; an attempt may fail
            Line l;
            l.set("t", s.tprev).set("init", same ? 1 : op.i("init"));
            if (op.i("fail") > 0)
            {
                com.reset();
                long before = s.m->hk.fired;
                s.m->hk.arm(op.i("fail"), 0);
                Outcome o = s.request_raw(l);
                s.m->hk.arm(0, 0);
                if (failed()) return;
                if (s.m->hk.fired == before)
                {
                    if (!o.ok())
                    {
                        violation(cls, "the initialization of a new simulator failed: " + o.what);
                        return;
                    }
                    if (!s.follow(s.tprev, cls) || !s.ref->usable()) return;
                    if (!compare(*s.m, *s.ref, cls, "after a new simulator was initialised")) return;
                    pending = false;
                    continue;
                }
                COUNT("fault: user code threw during initialisation of a new simulator");
                if (o.kind != 3)
                {
                    violation(cls, "user code threw, but the exception did not reach the caller");
                    return;
                }
                // discard it, too
                if (op.i("fail") % 2 == 0 && !same) s.new_sim(op.str("sim", "plain"));
            }
            com.reset();
            Outcome o = s.request_raw(l);
            if (failed()) return;
            if (!o.ok())
            {
                violation(cls, fmt("the initialization of a new simulator at the committed time %s failed: ", num(s.tprev).c_str()) + o.what);
                return;
            }
            if (!s.follow(s.tprev, cls) || !s.ref->usable()) return;
            if (!compare(*s.m, *s.ref, cls, fmt("after a new simulator was initialised at t=%s", num(s.tprev).c_str()))) return;
            pending = false;
            COUNT("fault: simulator discarded and replaced");
            if (!bury(fmt("after the replaced simulator was destroyed at t=%s", num(s.tprev).c_str()).c_str())) return;
            continue;
        }
        if (op.key != "run" && op.key != "rep") continue;
        Line l = op;
        if (op.key == "rep")
        {
            if (!s.inited) continue;
            l.set("t", s.tprev);
        }
        else if (s.inited && l.d("t") <= s.tprev)
            continue;
        // an initial-value block keeps what it saw in the very first evaluation: start where the first attempt did
        if (!s.inited)
        {
            if (!t0) t0 = l.d("t");
            l.set("t", *t0);
        }
        com.reset();
        if (op.i("fail") > 0)
        {
            long before = s.m->hk.fired;
            s.m->hk.arm(op.i("fail"), op.i("fk"));
            Outcome o = s.request_raw(l);
            s.m->hk.arm(0, 0);
            if (failed()) return;
            if (s.m->hk.fired != before)
            {
                if (com.times.empty())
                    COUNT("fault: user code threw during a request, before any commit");
                else
                    COUNT("fault: user code threw during a request, after a sub-step");
                if (o.kind != (op.i("fk") == 1 ? 4 : 3))
                {
                    violation(cls, "user code threw, but the exception did not reach the caller");
                    return;
                }
                if (!s.absorb(com.times, cls)) return;
                if (!s.ref->usable()) return;
                pending = true;
                continue; // not retried: a later request or a new simulator goes on
            }
            if (!o.ok())
            {
                violation(cls, "request failed: " + o.what);
                return;
            }
            if (!s.follow(l.d("t"), cls) || !s.ref->usable()) return;
            if (!compare(*s.m, *s.ref, cls, fmt("after request %ld", s.nreq))) return;
        }
        else if (!s.request(l, cls))
            return;
        pending = false;
        if (taken) ok++;
        if (!bury(fmt("after a replaced simulator was destroyed at t=%s", num(s.tprev).c_str()).c_str())) return;
    }
    COUNTN("new simulators right after a failed request", uint64_t(after_failure));
    COUNTN("requests compared after a takeover", uint64_t(ok));
    if (taken && ok) nontrivial();
}
static PropReg r20({"C20", gen20, exec20});

} // namespace sim
