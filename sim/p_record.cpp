// C15, C16: the recorder and its CSV export
#include "session.hpp"

#include <cerrno>
#include <csignal>
#include <locale>
#include <sys/resource.h>
#include <sys/stat.h>

#include "src/solver/history.hpp"

namespace sim
{

static void start(const Plan& p) { heap_on(p.cfg().u("layout"), p.cfg().i("fill")); }

namespace
{
// signals on their own, as described by "sig" lines
struct Pool
{
    std::map<int, RealSig> sigs;
    std::map<int, std::unique_ptr<pooya::Bus>> buses;
    std::map<int, Vec> val; // values set by the workload
    explicit Pool(const Plan& p)
    {
        for (auto* l : p.all("sig"))
        {
            int id = l->i("id");
            if (sigs.count(id) || buses.count(id)) continue;
            char ty     = l->str("ty", "s")[0];
            int sz      = std::max(1, l->i("sz", 1));
            std::string nm;
            {
                Sys s;
                nm = "q" + std::to_string(id);
            }
            if (ty == 'u')
            {
                buses[id] = std::make_unique<pooya::Bus>(std::initializer_list<pooya::Signal>{}, nm);
                continue;
            }
            RealSig& r = [&]() -> RealSig& {
                Sys s;
                return sigs[id];
            }();
            r.ty = ty;
            r.sz = ty == 'a' ? sz : 1;
            if (ty == 'i')
                r.i.emplace(nm);
            else if (ty == 'b')
                r.b.emplace(nm);
            else if (ty == 'a')
                r.a.emplace(std::size_t(sz), nm);
            else
            {
                r.ty = 's';
                r.s.emplace(nm);
            }
        }
    }
    void clear(int id)
    {
        auto it = sigs.find(id);
        if (it == sigs.end()) return;
        auto& r = it->second;
        if (r.s) (*r.s)->clear();
        if (r.i) (*r.i)->clear();
        if (r.b) (*r.b)->clear();
        if (r.a) (*r.a)->clear();
        Sys s;
        val.erase(id);
    }
    void set(int id, const Vec& v)
    {
        auto it = sigs.find(id);
        if (it == sigs.end() || v.empty()) return;
        clear(id);
        auto& r = it->second;
        Vec w;
        {
            Sys s;
            for (int k = 0; k < r.sz; k++) w.push_back(v[std::size_t(k) % v.size()]);
            if (r.i)
                w[0] = std::abs(w[0]) < 1e9 ? std::trunc(w[0]) : 7;
            if (r.b) w[0] = w[0] != 0;
        }
        if (r.s) (*r.s)->set_value(w[0]);
        if (r.i) (*r.i)->set_value(int(w[0]));
        if (r.b) (*r.b)->set_value(w[0] != 0);
        if (r.a)
        {
            pooya::Array a(r.sz);
            for (int k = 0; k < r.sz; k++) a[k] = w[std::size_t(k)];
            (*r.a)->set_value(a);
        }
        Sys s;
        val[id] = w;
    }
    Vec value(int id) const
    {
        auto it = val.find(id);
        if (it != val.end()) return it->second;
        return Vec(std::size_t(sigs.at(id).sz), 0.0);
    }
};

struct Row
{
    double t;
    std::map<int, Vec> v;
};
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// the record as it should be
struct Book
{
    std::map<unsigned, Row> rows;
    std::vector<int> tracked;
    unsigned n() const { return rows.empty() ? 0 : rows.rbegin()->first + 1; }
    bool has(int id) const { return std::find(tracked.begin(), tracked.end(), id) != tracked.end(); }
};

// compares everything the recorder gives access to
template<typename GetSig>
bool check_record(const pooya::History& rec, const Book& b, const char* cls, const std::string& where, bool trimmed, GetSig get)
{
    Sys sys;
    if (rec.nrows() != b.n())
    {
        violation(cls, where + fmt(": %u rows instead of %u", rec.nrows(), b.n()));
        return false;
    }
    if (b.rows.empty()) return true;
    if (rec.size() != b.tracked.size())
    {
        violation(cls, where + fmt(": the record has %zu signals instead of %zu", rec.size(), b.tracked.size()));
        return false;
    }
    for (int id : b.tracked)
    {
        const Eigen::MatrixXd* m = nullptr;
        Outcome o                = guarded([&] { m = &rec[get(id)]; });
        if (!o.ok())
        {
            violation(cls, where + fmt(": tracked signal q%d is not in the record", id));
            return false;
        }
        if (m->rows() < long(b.n()) || rec.time().rows() < long(b.n()) ||
            (trimmed && (m->rows() != long(b.n()) || rec.time().rows() != long(b.n()))))
        {
            violation(cls, where + fmt(": %ld rows of values and %ld times are stored for %u rows", long(m->rows()),
                                       long(rec.time().rows()), b.n()));
            return false;
        }
        for (auto& [k, row] : b.rows)
        {
            const Vec& v = row.v.at(id);
            bool good    = m->cols() == long(v.size());
            Vec got;
            for (std::size_t j = 0; good && j < v.size(); j++) got.push_back((*m)(long(k), long(j)));
            for (std::size_t j = 0; good && j < v.size(); j++) good = same(got[j], v[j]);
            if (!good)
            {
                violation(cls, where + fmt(": row %u of q%d is %s instead of %s", k, id, show(got).c_str(), show(v).c_str()));
                return false;
            }
        }
    }
    for (auto& [k, row] : b.rows)
        if (!same(rec.time()[long(k)], row.t))
        {
            violation(cls, where + fmt(": time of row %u is %s instead of %s", k, num(rec.time()[long(k)]).c_str(), num(row.t).c_str()));
            return false;
        }
    return true;
}

// a long recording: n rows, one after the other, of a signal that changes from row to row
Outcome record_many(const Line& op, Pool& pool, pooya::History& rec, Book& b)
{
    int id = op.i("s"), n = std::min(20000, op.i("n"));
    double t = op.d("t"), dt = op.d("dt", 1);
    COUNT("long recordings");
    for (int j = 0; j < n; j++)
    {
        Vec v;
        {
            Sys s;
            v = {j + 0.25, -1.5 * j, 3};
        }
        pool.set(id, v);
        unsigned k = b.n();
        Outcome o  = guarded([&] { rec.update(k, t); });
        Sys s;
        v = Vec();
        if (!o.ok()) return o;
        if (b.tracked.empty()) return o;
        Row r{t, {}};
        for (int q : b.tracked) r.v[q] = pool.value(q);
        b.rows[k] = r;
        t += dt;
    }
    return Outcome();
}

double value_for(Rng& r)
{
    static const double odd[] = {0,      -0.0,        1e300,  -1e300, 5e-324, 1e-300, 123456789.0, 1234567.0, 0.1,
                                 999999, 999999.5,    1e6,    1e5,    1e-5,   INFINITY, -INFINITY, NAN, 1000, 1234.5};
    if (r.chance(0.25)) return odd[r.below(int(sizeof odd / sizeof *odd))];
    if (r.chance(0.3)) return r.range(-3, 3);
    if (r.chance(0.5)) return r.real(-1e4, 1e4);
    return dyadic(r, -8, 8, 256);
}
void gen_signals(Rng& r, Plan& p, int n, bool buses)
{
    for (int k = 1; k <= n; k++)
    {
        int w    = r.below(buses ? 11 : 10);
        char ty  = w < 4 ? 's' : w < 5 ? 'i' : w < 6 ? 'b' : w < 10 ? 'a' : 'u';
        Line& l  = p.add("sig");
        l.set("id", k).set("ty", std::string(1, ty));
        if (ty == 'a') l.set("sz", r.range(1, 5));
    }
}
void gen_set(Rng& r, Plan& p, int nsig)
{
    int id = r.range(1, nsig);
    if (r.chance(0.15))
    {
        p.add("unset").set("s", id);
        return;
    }
    Vec v;
    for (int k = r.range(1, 5); k > 0; k--) v.push_back(value_for(r));
    p.add("set").set("s", id).set("v", v);
}
} // namespace

// ---------------------------------------------------------------- C15
static Plan gen15(Rng& r, int tier)
{
    Plan p;
    p.add("cfg");
    if (r.chance(0.35))
    {
        // a recorder attached to a simulation
        gen_cfg(r, p);
        GenOpt o;
        o.max_blocks = 8;
        gen_model(r, p, o);
        add_probes(r, p, 1);
        TimesOpt t;
        t.max_mn_exp = 7;
        gen_requests(r, p, t);
        if (r.chance(0.3)) gen_script(r, p, r.range(1, 5), 0.3);
        p.cfg().set("mode", 1).set("rows", r.range(1, 6)).set("rec", r.range(1, 3)).set("each", r.below(2));
        return p;
    }
    p.cfg().set("layout", int(r.below(1 << 20))).set("fill", r.below(5)).set("rows", r.chance(0.7) ? r.range(1, 5) : r.range(6, 40));
    int ns = r.range(1, 7);
    gen_signals(r, p, ns, true);
    int before = r.range(1, 14);
    for (int k = 0; k < before; k++)
    {
        int w = r.below(10);
        if (w < 6)
            p.add("track").set("s", r.range(1, ns));
        else if (w < 8)
            p.add("untrack").set("s", r.range(1, ns));
        else
            gen_set(r, p, ns);
    }
    bool big = r.chance(0.04);
    if (big && r.chance(0.5)) p.cfg().set("rows", r.chance(0.5) ? 1000 : r.range(100, 2000));
    unsigned k = 0;
    int n      = r.range(2, tier ? 60 : 30);
    double t   = r.chance(0.5) ? 0 : dyadic(r, -4, 4, 16);
    for (int j = 0; j < n; j++)
    {
        for (int q = r.below(4); q > 0; q--) gen_set(r, p, ns);
        unsigned row;
        double x = r.unit();
        if (x < 0.6)
            row = k++;
        else if (x < 0.85)
            row = unsigned(r.below(int(k) + 1));
        else
            row = k + unsigned(r.range(1, big ? 3000 : 25));
        k = std::max(k, row + 1);
        t += r.chance(0.9) ? std::ldexp(1.0, -r.range(0, 8)) : 0;
        Line& l = p.add("upd");
        l.set("k", int(row)).set("t", t);
        if (r.chance(0.1)) l.set("nomem", r.range(1, 30)).set("burst", r.chance(0.7) ? 1 : 1000);
        if (r.chance(0.1)) p.add("shrink");
        if (r.chance(0.05)) p.add("track").set("s", r.range(1, ns));
        if (r.chance(0.05)) p.add("untrack").set("s", r.range(1, ns));
        if (big && r.chance(0.1))
        {
            int c = r.range(50, 1500);
            p.add("many").set("s", r.range(1, ns)).set("n", c).set("t", t).set("dt", std::ldexp(1.0, -r.range(0, 8)));
            k += unsigned(c);
            t += c;
        }
    }
    return p;
}

static void exec15_sim(const Plan& p)
{
    Session s(p);
    if (!s.good) return;
    const char* cls = "record";
    pooya::History rec(unsigned(std::max(1, p.cfg().i("rows", 2))));
    Book book;
    int n = std::max(1, p.cfg().i("rec", 1));
    for (auto& [id, sig] : s.m->sigs)
        if (s.sp.used.count(id) && id % n == 0)
        {
            bool ok = rec.track(sig.sig()), again = rec.track(sig.sig());
            if (!ok || again)
            {
                violation(cls, fmt("tracking s%d for the first and second time returned %d and %d", id, ok, again));
                return;
            }
            Sys sys;
            book.tracked.push_back(id);
        }
    if (book.tracked.empty()) return;
    auto get = [&](int id) { return s.m->sigs.at(id).sig(); };
    unsigned k = 0;
    auto put   = [&](unsigned row, double t) {
        Outcome o = guarded([&] { rec.update(row, t); });
        Sys sys;
        if (!o.ok())
        {
            violation(cls, "recording failed: " + o.what);
            return;
        }
        Row r{t, {}};
        for (int id : book.tracked)
        {
            auto& sg = s.m->sigs.at(id);
            r.v[id]  = sg.assigned() ? sg.get() : Vec(sg.ty == 'a' ? std::size_t(sg.sz) : 1, 0.0);
        }
        book.rows[row] = r;
    };
    bool each = p.cfg().i("each");
    if (each)
        s.m->hk.on = [&](char kind, int, double t) {
            // at every commit, when the last probe is told
            if (kind == 'C' && !failed()) put(k++, t);
        };
    for (auto& op : p.lines)
    {
        if (op.key != "run") continue;
        if (s.inited && op.d("t") <= s.tprev) continue;
        if (!s.inited && op.i("init"))
        {
            // signals that have no value yet
            put(k, op.d("t") - 1);
            if (failed() || !check_record(rec, book, cls, "before the simulation", false, get)) return;
            k++;
        }
        if (!s.request(op, cls)) return;
        if (!each || k == 0)
            put(k++, s.tprev);
        else
            put(k - 1, s.tprev);
        if (failed() || !check_record(rec, book, cls, fmt("after request %ld", s.nreq), false, get)) return;
    }
    rec.shrink_to_fit();
    if (!check_record(rec, book, cls, "after trimming", true, get)) return;
    COUNTN("rows recorded", book.rows.size());
    if (book.rows.size() > 1) nontrivial();
}

static void exec15(const Plan& p)
{
    start(p);
    if (p.cfg().i("mode"))
    {
        exec15_sim(p);
        return;
    }
    const char* cls = "record";
    Pool pool(p);
    unsigned cap       = unsigned(std::max(1, p.cfg().i("rows", 2)));
    pooya::History rec = cap == 1000 ? pooya::History() : pooya::History(cap); // the documented capacity
    Book book;
    auto get = [&](int id) { return pool.sigs.at(id).sig(); };
    bool trimmed = false, faulted = false;
    long op_no = 0;
    for (auto& op : p.lines)
    {
        op_no++;
        int id = op.i("s");
        bool known = pool.sigs.count(id), bus = pool.buses.count(id);
        std::string where = "after operation " + std::to_string(op_no) + " (" + op.key + ")";
        if (op.key == "track" && (known || bus))
        {
            bool late = !book.rows.empty();
            bool r    = false;
            Outcome o = guarded([&] { r = rec.track(known ? pool.sigs.at(id).sig() : pooya::Signal(*pool.buses.at(id))); });
            log_u(uint64_t(o.kind) * 4 + r);
            if (late)
            {
                // refused in debug builds; must not touch the record of the signals tracked before
                COUNT("tracking after the first row");
                if (o.ok()) return; // a build that does not check
            }
            else
            {
                bool expect = known && !book.has(id);
                if (!o.ok() || r != expect)
                {
                    violation(cls, where + (o.ok() ? fmt(": tracking returned %d instead of %d", r, expect) : ": tracking failed: " + o.what));
                    return;
                }
                if (!expect) COUNT("tracking something tracked or without a value");
                Sys s;
                if (expect) book.tracked.push_back(id);
            }
        }
        else if (op.key == "untrack" && (known || bus))
        {
            bool late = !book.rows.empty();
            Outcome o = guarded([&] { rec.untrack(known ? pool.sigs.at(id).sig() : pooya::Signal(*pool.buses.at(id))); });
            log_u(uint64_t(o.kind));
            if (late)
            {
                COUNT("untracking after the first row");
                if (o.ok()) return;
            }
            else
            {
                if (!o.ok())
                {
                    violation(cls, where + ": untracking failed: " + o.what);
                    return;
                }
                if (!book.has(id)) COUNT("untracking something that is not tracked");
                Sys s;
                book.tracked.erase(std::remove(book.tracked.begin(), book.tracked.end(), id), book.tracked.end());
            }
        }
        else if (op.key == "set")
        {
            Vec v = op.ld("v");
            pool.set(id, v);
        }
        else if (op.key == "unset")
            pool.clear(id);
        else if (op.key == "upd")
        {
            unsigned k = unsigned(std::max(0, op.i("k")));
            if (k > 100000) continue;
            double t   = op.d("t");
            if (op.i("nomem") > 0)
            {
                fail_arm(op.i("nomem"), op.i("burst", 1));
                Outcome o = guarded([&] { rec.update(k, t); });
                fail_disarm();
                if (fail_fired())
                {
                    COUNT("fault: allocation failed while recording");
                    faulted = true;
                    log_u(0xE1);
                    if (o.ok() || o.kind == 1)
                    {
                        violation(cls, where + (o.ok() ? ": an allocation failed while recording, but no error was reported"
                                                       : ": an allocation failed while recording, and the error was " + o.what));
                        return;
                    }
                }
                else if (!o.ok())
                {
                    violation(cls, where + ": recording failed: " + o.what);
                    return;
                }
            }
            Outcome o = guarded([&] { rec.update(k, t); });
            if (!o.ok())
            {
                violation(cls, where + ": recording failed: " + o.what);
                return;
            }
            trimmed = false;
            if (!book.tracked.empty())
            {
                Sys s;
                if (!book.rows.empty() && k < book.n()) COUNT("rows overwritten or filled in later");
                if (k > book.n()) COUNT("rows skipped");
                Row r{t, {}};
                for (int q : book.tracked) r.v[q] = pool.value(q);
                book.rows[k] = r;
                log_u(k);
                log_d(t);
            }
        }
        else if (op.key == "many")
        {
            Outcome o = record_many(op, pool, rec, book);
            if (!o.ok())
            {
                violation(cls, where + ": recording failed: " + o.what);
                return;
            }
            trimmed = false;
        }
        else if (op.key == "shrink")
        {
            if (book.rows.empty()) continue;
            Outcome o = guarded([&] { rec.shrink_to_fit(); });
            if (!o.ok())
            {
                violation(cls, where + ": trimming failed: " + o.what);
                return;
            }
            trimmed = true;
            COUNT("trimmed");
        }
        else
            continue;
        if (!check_record(rec, book, cls, where, trimmed, get)) return;
    }
    COUNTN("rows recorded", book.rows.size());
    if (book.rows.size() > 1 || faulted) nontrivial();
}
static PropReg r15({"C15", gen15, exec15});

// ---------------------------------------------------------------- C16
namespace
{
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "ja"; }
};

std::string slurp(const std::string& path, bool& ok)
{
    std::string s;
    FILE* f = fopen(path.c_str(), "rb");
    ok      = f;
    if (!f) return s;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
    fclose(f);
    return s;
}
std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> v(1);
    for (char x : s)
        if (x == c)
            v.emplace_back();
        else
            v.back() += x;
    return v;
}
bool digits6(const std::string& text, double v)
{
    if (text.empty()) return false;
    char* end;
    double x = strtod(text.c_str(), &end);
    if (*end) return false;
    if (std::isnan(v)) return std::isnan(x);
    if (std::isinf(v)) return x == v;
    // half a unit of the sixth digit
    return std::abs(x - v) <= 5.0000001e-6 * std::abs(v) + 1e-323;
}

// empty: the text is a complete export of the book
std::string csv_fault(const std::string& text, const Book& b, const Pool& pool)
{
    auto lines = split(text, '\n');
    if (lines.back().empty()) lines.pop_back();
    if (lines.size() != b.n() + 1) return fmt("%zu lines instead of %u", lines.size(), b.n() + 1);
    auto head = split(lines[0], ',');
    std::map<std::string, std::pair<int, int>> want;
    for (int id : b.tracked)
    {
        const RealSig& s = pool.sigs.at(id);
        std::string nm   = "q" + std::to_string(id);
        if (s.ty == 'a')
            for (int j = 0; j < s.sz; j++) want[nm + "[" + std::to_string(j) + "]"] = {id, j};
        else
            want[nm] = {id, 0};
    }
    if (head[0] != "time") return "the first column is '" + head[0] + "' instead of time";
    std::vector<std::pair<int, int>> cols;
    for (std::size_t k = 1; k < head.size(); k++)
    {
        auto it = want.find(head[k]);
        if (it == want.end()) return "unexpected or repeated column '" + head[k] + "'";
        cols.push_back(it->second);
        want.erase(it);
    }
    if (!want.empty()) return "no column for " + want.begin()->first;
    for (unsigned k = 0; k < b.n(); k++)
    {
        auto f = split(lines[k + 1], ',');
        if (f.size() != head.size()) return fmt("line %u has %zu fields instead of %zu", k + 2, f.size(), head.size());
        auto row = b.rows.find(k);
        if (row == b.rows.end()) continue; // never recorded
        if (!digits6(f[0], row->second.t)) return fmt("time of row %u is '%s' instead of %s", k, f[0].c_str(), num(row->second.t).c_str());
        for (std::size_t c = 1; c < f.size(); c++)
        {
            double v = row->second.v.at(cols[c - 1].first)[std::size_t(cols[c - 1].second)];
            if (!digits6(f[c], v)) return fmt("%s of row %u is '%s' instead of %s", head[c].c_str(), k, f[c].c_str(), num(v).c_str());
        }
    }
    return "";
}
} // namespace

static Plan gen16(Rng& r, int tier)
{
    Plan p;
    p.add("cfg").set("layout", int(r.below(1 << 20))).set("fill", r.below(5)).set("rows", r.chance(0.6) ? r.range(1, 8) : r.range(9, 300));
    int ns = r.range(1, 6);
    gen_signals(r, p, ns, false);
    for (int k = 1; k <= ns; k++)
        if (k == 1 || r.chance(0.8)) p.add("track").set("s", k);
    int n    = r.chance(0.7) ? r.range(1, 12) : r.range(13, tier ? 400 : 150);
    bool skip = r.chance(0.1); // rows left out
    int off   = 0;
    double t = r.chance(0.5) ? 0 : dyadic(r, -4, 4, 16);
    for (int k = 0; k < n; k++)
    {
        for (int q = r.below(3); q > 0; q--) gen_set(r, p, ns);
        t += r.chance(0.2) ? r.real(0, 2000) : std::ldexp(1.0, -r.range(0, 8));
        p.add("upd").set("k", skip ? k + (off += r.chance(0.2) ? r.range(1, 9) : 0) : k).set("t", t);
        if (r.chance(0.1)) p.add("upd").set("k", r.below(k + 1)).set("t", t);
        if (r.chance(0.02)) p.add("shrink");
    }
    if (r.chance(0.03))
    {
        int c = r.range(50, 2500);
        p.add("many").set("s", r.range(1, ns)).set("n", c).set("t", t).set("dt", std::ldexp(1.0, -r.range(0, 8)));
        n += c;
    }
    if (r.chance(0.3)) p.add("shrink");
    if (r.chance(0.25)) p.cfg().set("loc", 1);
    int ne       = r.range(1, 4);
    long est     = long(n) * ns * 8;
    for (int k = 0; k < ne; k++)
    {
        Line& l = p.add("export");
        if (r.chance(0.3)) l.set("pre", r.range(1, 20000));
        switch (r.below(9))
        {
        case 0: break;
        case 1:
        case 2:
            l.set("after", long(r.chance(0.3) ? r.below(64) : r.next() % uint64_t(est + 64))).set("err", r.chance(0.5) ? ENOSPC : r.chance(0.5) ? EIO : EDQUOT);
            break;
        case 3: l.set("short", r.range(1, 3)); break;
        case 4: l.set("eintr", r.range(1, 4)); break;
        case 5: l.set("close", 1); break;
        case 6: l.set("open", r.chance(0.5) ? EACCES : ENOSPC); break;
        case 7: l.set("where", r.range(1, 3)); break;
        case 8: r.chance(0.5) ? l.set("limit", int(r.next() % uint64_t(est + 64))) : l.set("nomem", r.range(1, 40)).set("burst", r.chance(0.7) ? 1 : 100000); break;
        }
        if (r.chance(0.15)) l.set("short", r.range(1, 3));
        if (r.chance(0.15)) l.set("eintr", r.range(2, 4));
        if (r.chance(0.2))
        {
            gen_set(r, p, ns);
            p.add("upd").set("k", n++).set("t", t += 1);
        }
    }
    return p;
}

static void exec16(const Plan& p)
{
    start(p);
    const char* cls = "csv";
    if (p.cfg().i("loc"))
    {
        Sys s;
        std::locale::global(std::locale(std::locale::classic(), new Punct));
        COUNT("fault: global locale with other separators");
    }
    Pool pool(p);
    pooya::History rec(unsigned(std::max(1, p.cfg().i("rows", 2))));
    Book book;
    auto get = [&](int id) { return pool.sigs.at(id).sig(); };
    std::string dir, file;
    {
        Sys s;
        dir  = scratch_dir();
        file = dir + "/record.csv";
    }
    int good = 0, bad = 0;
    long op_no = 0;
    for (auto& op : p.lines)
    {
        op_no++;
        int id = op.i("s");
        if (op.key == "track" && pool.sigs.count(id) && book.rows.empty())
        {
            rec.track(pool.sigs.at(id).sig());
            Sys s;
            if (!book.has(id)) book.tracked.push_back(id);
        }
        else if (op.key == "set")
            pool.set(id, op.ld("v"));
        else if (op.key == "unset")
            pool.clear(id);
        else if (op.key == "upd" && !book.tracked.empty())
        {
            unsigned k = unsigned(std::max(0, op.i("k")));
            if (k > book.n() + 40) k = book.n() + 40;
            rec.update(k, op.d("t"));
            Sys s;
            Row r{op.d("t"), {}};
            for (int q : book.tracked) r.v[q] = pool.value(q);
            book.rows[k] = r;
        }
        else if (op.key == "many" && !book.tracked.empty())
            (void)record_many(op, pool, rec, book);
        else if (op.key == "shrink" && !book.rows.empty())
            rec.shrink_to_fit();
        else if (op.key == "export" && !book.rows.empty())
        {
            std::string path = file;
            {
                Sys s;
                unlink(file.c_str());
                if (op.i("where") == 1) path = dir + "/no/such/directory.csv";
                if (op.i("where") == 2) path = dir;
                if (op.i("where") == 3) path = "/dev/full";
                if (op.i("where")) COUNT("fault: bad path or full device");
                if (int n = op.i("pre"))
                    if (path == file)
                    {
                        FILE* f = fopen(file.c_str(), "wb");
                        for (int k = 0; f && k < n; k++) fputc(k % 40 == 39 ? '\n' : 'x', f);
                        if (f) fclose(f);
                        COUNT("file existed before");
                    }
            }
            // once with the fault, once without
            for (int attempt = 0; attempt < 2; attempt++)
            {
                FsFault f;
                bool lim = false, nomem = false;
                struct rlimit old = {};
                if (attempt == 0)
                {
                    f.after_bytes = op.has("after") ? long(op.u("after")) : -1;
                    f.err         = op.i("err", EIO);
                    f.short_every = op.i("short");
                    f.eintr_every = op.i("eintr");
                    if (f.eintr_every == 1) f.eintr_every = 2; // otherwise no write ever succeeds
                    f.fail_close  = op.i("close");
                    f.open_err    = op.i("open");
                    if (op.has("limit"))
                    {
                        lim = true;
                        signal(SIGXFSZ, SIG_IGN);
                        getrlimit(RLIMIT_FSIZE, &old);
                        struct rlimit rl = old;
                        rl.rlim_cur      = rlim_t(std::max(0, op.i("limit")));
                        setrlimit(RLIMIT_FSIZE, &rl);
                        COUNT("fault: file size limit");
                    }
                    nomem = op.i("nomem") > 0;
                }
                else
                {
                    Sys s;
                    path = file;
                }
                fs_arm(f);
                if (nomem) fail_arm(op.i("nomem"), op.i("burst", 1));
                Outcome o = guarded([&] { rec.export_csv(path); });
                bool hit  = fs_fired() > 0 || lim || (attempt == 0 && op.i("where"));
                if (nomem)
                {
                    fail_disarm();
                    if (fail_fired()) COUNT("fault: allocation failed during the export");
                    hit = hit || fail_fired() > 0;
                }
                fs_disarm();
                if (lim) setrlimit(RLIMIT_FSIZE, &old);
                Sys s;
                log_u(uint64_t(o.kind));
                std::string where = fmt("operation %ld%s", op_no, attempt ? " (again, without a fault)" : "");
                if (o.ok())
                {
                    if (attempt == 0 && op.i("where"))
                    {
                        violation(cls, where + ": an export to a file that cannot be written reported success");
                        return;
                    }
                    if (f.fail_close && fs_fired())
                    {
                        violation(cls, where + ": the file could not be closed, but the export reported success");
                        return;
                    }
                    bool readable;
                    std::string text = slurp(path, readable);
                    std::string why  = readable ? csv_fault(text, book, pool) : "there is no file";
                    // streams in memory swallow failing allocations: not a failure of the file
                    if (nomem && fail_fired()) why.clear();
                    if (!why.empty())
                    {
                        violation(cls, where + ": an export reported success, but the file is not complete: " + why);
                        return;
                    }
                    log_u(text.size());
                    good++;
                }
                else
                {
                    bad++;
                    bool serious = lim || (attempt == 0 && (op.i("where") || op.has("after") || f.fail_close || f.open_err || nomem));
                    if (!hit || !serious)
                    {
                        violation(cls, where + ": an export failed although nothing was wrong with the file: " + o.what);
                        return;
                    }
                    COUNT("exports that reported an error");
                }
                if (!check_record(rec, book, cls, where, false, get)) return;
            }
        }
    }
    COUNTN("complete exports checked", uint64_t(good));
    if (good) nontrivial();
}
static PropReg r16({"C16", gen16, exec16});

} // namespace sim
