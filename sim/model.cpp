#include "model.hpp"

#include <algorithm>
#include <cmath>

namespace sim
{
using namespace pooya;

// ---------------------------------------------------------------- specs
bool is_user(const std::string& t)
{
    return t == "source" || t == "sources" || t == "siso" || t == "so" || t[0] == 'f' || t == "probe";
}

static bool excluded(const BlkSpec& b, std::size_t k)
{
    const auto& l = b.lab[k];
    for (auto& e : b.ex)
    {
        if (e == l) return true;
        if (!e.empty() && e.back() == '.' && l.compare(0, e.size(), e) == 0) return true;
    }
    return false;
}
static bool is_bus(const BlkSpec& b) { return b.type == "bmem" || b.type == "bpipe"; }

bool needs_input(const BlkSpec& b, std::size_t k)
{
    if (b.type == "mem" || b.type == "bmem" || b.type == "integ") return false;
    if (b.type == "tint") return k == 1;
    return true;
}

char Spec::in_type(const BlkSpec& b, std::size_t k) const
{
    const auto& t = b.type;
    if (t == "probe") return '?';
    if (t == "f_cmp" || t == "f_s2i" || t == "f_pack" || t == "f_two") return 's';
    if (t == "f_dot") return 'a';
    if (t == "f_ib2s") return k == 0 ? 'i' : 'b';
    if (t == "tint") return k == 1 ? 'b' : b.ty[0];
    if (t == "delay") return k == 1 ? 's' : b.ty[0];
    if (is_bus(b)) return k < b.ty.size() ? b.ty[k] : '?';
    return b.ty.empty() ? '?' : b.ty[0];
}

static int in_count(const std::string& t)
{
    if (t == "const" || t == "source" || t == "sources") return 0;
    if (t == "sub" || t == "div" || t == "tint" || t == "f_cmp" || t == "f_ib2s" || t == "f_pack" || t == "f_two")
        return 2;
    if (t == "delay") return 3;
    if (t == "add" || t == "mul" || t == "so") return -1; // one or more
    if (t == "probe" || t == "bmem" || t == "bpipe") return -2;
    return 1;
}

bool Spec::parse(const Plan& plan, bool add_missing)
{
    nocb = plan.cfg().i("nocb") != 0;
    sole = plan.cfg().i("sole") != 0;
    auto par = [&](const Line& l) { return l.i("par", -1); };
    std::set<int> bids;
    for (auto& l : plan.lines)
    {
        if (l.key == "sub")
        {
            SubSpec s;
            s.id     = l.i("id");
            s.parent = par(l);
            s.ord    = l.i("ord");
            s.via    = l.i("via");
            subs.push_back(s);
        }
        else if (l.key == "blk")
        {
            BlkSpec b;
            b.id     = l.i("id");
            b.type   = l.str("type");
            b.ty     = l.str("ty");
            b.in     = l.li("in");
            b.out    = l.li("out");
            b.lab    = l.ls("lab");
            b.ex     = l.ls("ex");
            b.p      = l.ld("p");
            b.fn     = l.i("fn");
            b.sz     = l.i("sz", 1);
            b.parent = par(l);
            b.ord    = l.i("ord");
            b.via    = l.i("via");
            b.late   = l.i("late");
            if (b.type.empty() || b.sz < 1 || b.sz > 64 || !bids.insert(b.id).second) return false;
            if (b.ty.size() != b.out.size()) return false;
            for (char c : b.ty)
                if (!strchr("siba", c)) return false;
            int n = in_count(b.type);
            if (n >= 0 && int(b.in.size()) != n) return false;
            if (n == -1 && b.in.empty()) return false;
            if (is_bus(b) && (b.in.size() != b.out.size() || b.lab.size() != b.in.size())) return false;
            if (b.type == "f_two" ? b.out.size() != 2
                                  : !is_bus(b) && b.type != "probe" && b.type != "sources" && b.out.size() != 1)
                return false;
            if (b.type == "probe" && b.out.size() > 1) return false;
            blks.push_back(b);
        }
        else if (l.key == "ext")
        {
            ExtSpec e;
            e.id  = l.i("id");
            e.ty  = l.str("ty", "s")[0];
            e.fn  = l.i("fn");
            e.sz  = l.i("sz", 1);
            e.icb = l.i("icb");
            e.p   = l.ld("p");
            exts.push_back(e);
        }
    }
    // nesting: a parent must exist and have a smaller id
    std::set<int> sids;
    for (auto& s : subs)
    {
        if (!sids.count(s.parent) || s.parent >= s.id) s.parent = -1;
        if (s.id < 0 || !sids.insert(s.id).second) return false;
    }
    for (auto& b : blks)
        if (!sids.count(b.parent)) b.parent = -1;

    // produced signals
    auto def = [&](int id, char ty, int sz) {
        if (id <= 0 || sigs.count(id)) return false;
        sigs[id] = SigInfo{ty, ty == 'a' ? sz : 1};
        return true;
    };
    for (auto& e : exts)
        if (!def(e.id, e.ty, e.sz)) return false;
    for (auto& b : blks)
        for (std::size_t k = 0; k < b.out.size(); k++)
            if (!(is_bus(b) && excluded(b, k)) && !def(b.out[k], b.ty[k], b.sz)) return false;
    // signals nothing drives
    std::set<int> undriven;
    for (auto& l : plan.lines)
    {
        if (l.key == "undriven") undriven.insert(l.i("id"));
        if (l.key == "missize" && l.i("sz") > 0 && l.i("sz") < 64) missize[l.i("id")] = l.i("sz");
    }
    auto need = [&](int id, char ty, int sz) {
        if (id <= 0) return false;
        auto it = sigs.find(id);
        if (it != sigs.end())
        {
            if (ty == '?') return true;
            return it->second.ty == ty && (ty != 'a' || it->second.sz == sz);
        }
        if (ty == '?') ty = 's';
        sigs[id] = SigInfo{ty, ty == 'a' ? sz : 1};
        if (add_missing && !undriven.count(id))
        {
            ExtSpec e;
            e.id = id;
            e.ty = ty;
            e.fn = ty == 'b' ? 2 : 3;
            e.sz = sz;
            e.p  = {ty == 'i' ? 2.5 : 1.0};
            exts.push_back(e);
        }
        return true;
    };
    for (auto& b : blks)
    {
        for (std::size_t k = 0; k < b.in.size(); k++)
            if (!need(b.in[k], in_type(b, k), b.sz)) return false;
        if (is_bus(b))
        {
            std::set<int> seen;
            for (std::size_t k = 0; k < b.out.size(); k++)
            {
                if (excluded(b, k))
                {
                    auto it = sigs.find(b.out[k]);
                    if (it == sigs.end()) sigs[b.out[k]] = SigInfo{b.ty[k], b.ty[k] == 'a' ? b.sz : 1};
                }
                if (!seen.insert(b.out[k]).second) return false;
            }
            std::set<std::string> labs(b.lab.begin(), b.lab.end());
            if (labs.size() != b.lab.size()) return false;
        }
    }
    // linked signals
    for (auto& b : blks)
    {
        for (std::size_t k = 0; k < b.in.size(); k++)
            if (!(is_bus(b) && excluded(b, k) && b.lab[k].find('.') != std::string::npos)) used.insert(b.in[k]);
        for (std::size_t k = 0; k < b.out.size(); k++)
            if (!(is_bus(b) && excluded(b, k) && b.lab[k].find('.') != std::string::npos)) used.insert(b.out[k]);
    }
    sole = sole && subs.empty() && blks.size() == 1 && !is_bus(blks[0]); // (those put their parts into the parent)
    if (sole)
    {
        nocb           = false;
        blks[0].parent = -1;
        blks[0].via    = 0;
        for (auto& e : exts) e.icb = 0;
    }
    if (nocb)
        for (auto& e : exts) e.icb = 1;
    return !blks.empty();
}

const BlkSpec* Spec::producer(int s) const
{
    for (auto& b : blks)
        for (std::size_t k = 0; k < b.out.size(); k++)
            if (b.out[k] == s && !(is_bus(b) && excluded(b, k))) return &b;
    return nullptr;
}
bool Spec::stateful() const
{
    for (auto& b : blks)
        if (b.type == "integ" || b.type == "tint") return true;
    return false;
}

// ---------------------------------------------------------------- user code
static double P(const Vec& p, std::size_t k, double def) { return k < p.size() ? p[k] : def; }
static Vec arr(const Vec& p, int sz, double def)
{
    Vec v(sz);
    for (int j = 0; j < sz; j++) v[j] = p.empty() ? def : p[j % p.size()];
    return v;
}
static void near(double d, bool* tie)
{
    if (tie && std::fabs(d) < 1e-7) *tie = true;
}

Vec time_fn(char ty, int sz, int fn, const Vec& p, double t, bool* tie)
{
    if (ty == 'i')
    {
        double x = P(p, 0, 0.37) + P(p, 1, 1.0) * t;
        near(x - std::round(x), tie);
        double big = P(p, 2, 1); // now and then numbers that need all bits of an int
        return {std::max(-20.0, std::min(20.0, std::floor(x))) * (big >= 2 ? big : 1.0)};
    }
    if (ty == 'b')
    {
        switch (fn)
        {
        case 0:
        {
            double per = P(p, 1, 1.0), w = P(p, 2, 0.5);
            if (!(per > 1e-6)) per = 1;
            double m = std::fmod(t + P(p, 0, 0.0137), per);
            if (m < 0) m += per;
            near(m, tie);
            near(m - w, tie);
            near(m - per, tie);
            return {m < w ? 1.0 : 0.0};
        }
        case 1: near(t - P(p, 0, 0.5137), tie); return {t >= P(p, 0, 0.5137) ? 1.0 : 0.0};
        default: return {P(p, 0, 0) > 0.5 ? 1.0 : 0.0};
        }
    }
    Vec v(ty == 'a' ? sz : 1);
    for (std::size_t j = 0; j < v.size(); j++)
    {
        double ph = 0.7 * double(j);
        switch (fn)
        {
        case 0: v[j] = P(p, 0, 0) + P(p, 1, 1) * std::sin(P(p, 2, 1) * t + P(p, 3, 0) + ph); break;
        case 1: v[j] = P(p, 0, 0) + P(p, 1, 1) * t + 0.1 * double(j); break;
        case 2:
            near(t - P(p, 0, 0.5137), tie);
            v[j] = (t >= P(p, 0, 0.5137) ? P(p, 1, 1) : P(p, 2, 0)) + 0.1 * double(j);
            break;
        case 3: v[j] = P(p, 0, 1) + double(j); break;
        case 4: v[j] = P(p, 0, 0) + P(p, 1, 0.5) * t * t + 0.1 * double(j); break;
        case 6:
        {
            // unrelated values at different times, however close
            uint64_t u;
            memcpy(&u, &t, sizeof u);
            u = (u ^ (u >> 29)) * 0x9e3779b97f4a7c15ULL + j + 1;
            u = (u ^ (u >> 32)) * 0xbf58476d1ce4e5b9ULL;
            v[j] = double(int(u >> 40 & 0xffff) - 32768) / 16384;
            break;
        }
        default: v[j] = 2.5 + std::sin(P(p, 2, 1) * t + ph); break;
        }
    }
    return v;
}

std::vector<Vec> user_fn(const BlkSpec& b, double t, const std::vector<Vec>& in, bool* tie)
{
    const auto& ty = b.type;
    const auto& p  = b.p;
    if (ty == "source") return {time_fn(b.ty[0], b.sz, b.fn, p, t, tie)};
    if (ty == "sources")
    {
        std::vector<Vec> r;
        for (std::size_t k = 0; k < b.out.size(); k++)
        {
            Vec q = p;
            if (!q.empty()) q[0] += 0.211 * double(k);
            r.push_back(time_fn(b.ty[k], b.sz, b.ty[k] == 'b' ? b.fn % 3 : b.fn, q, t, tie));
        }
        return r;
    }
    if (ty == "siso")
    {
        const Vec& x = in[0];
        Vec y(x.size());
        for (std::size_t j = 0; j < x.size(); j++)
        {
            double c = x.size() > 1 ? 0.1 * x[(j + 1) % x.size()] : 0.0;
            switch (b.fn)
            {
            case 0: y[j] = std::sin(x[j] + P(p, 0, 1) * t) + c; break;
            case 1: y[j] = P(p, 0, 1) * x[j] + P(p, 1, 0) * std::cos(t) + c; break;
            case 2: y[j] = std::tanh(x[j]) + P(p, 0, 0) + c; break;
            case 3: y[j] = P(p, 0, 1) * x[j] / (1 + x[j] * x[j]) + c; break;
            default: y[j] = -P(p, 0, 1) * x[j] + P(p, 1, 0) * std::sin(P(p, 2, 1) * t) + c; break;
            }
        }
        return {y};
    }
    if (ty == "so")
    {
        Vec y(in[0].size(), P(p, 0, 0) + 0.1 * std::cos(t));
        for (std::size_t k = 0; k < in.size(); k++)
            for (std::size_t j = 0; j < y.size(); j++) y[j] += (0.5 + 0.25 * double(k)) * std::tanh(in[k][j]);
        return {y};
    }
    if (ty == "f_cmp")
    {
        near(in[0][0] - in[1][0], tie);
        return {{in[0][0] > in[1][0] ? 1.0 : 0.0}};
    }
    if (ty == "f_ib2s") return {{0.25 * std::fmod(in[0][0], 61.0) + (in[1][0] > 0.5 ? 1.0 : -0.5)}};
    if (ty == "f_s2i")
    {
        double x = 4 * in[0][0] + 0.0371;
        near(x - std::round(x), tie);
        return {{std::max(-20.0, std::min(20.0, std::floor(x)))}};
    }
    if (ty == "f_pack")
    {
        Vec y(b.sz);
        for (int j = 0; j < b.sz; j++) y[j] = 0.3 * (j + 1) * in[0][0] + in[1][0];
        return {y};
    }
    if (ty == "f_dot")
    {
        double y = 0;
        for (std::size_t j = 0; j < in[0].size(); j++) y += 0.2 * double(j + 1) * in[0][j];
        return {{y}};
    }
    if (ty == "f_two") return {{in[0][0] + 0.5 * in[1][0]}, {std::tanh(in[0][0]) - in[1][0]}};
    if (ty == "probe")
    {
        double y = 0.25;
        for (auto& v : in)
            for (double x : v) y += 0.5 * std::sin(x);
        if (b.out.empty()) return {};
        return {{y}};
    }
    return {};
}

// ---------------------------------------------------------------- reference model
static std::vector<BlkSpec> expand(const Spec& sp)
{
    std::vector<BlkSpec> r;
    for (auto& b : sp.blks)
    {
        if (!is_bus(b))
        {
            r.push_back(b);
            continue;
        }
        for (std::size_t k = 0; k < b.in.size(); k++)
        {
            if (excluded(b, k)) continue;
            BlkSpec n;
            n.id   = b.id;
            n.type = b.type == "bmem" ? "mem" : "pipe";
            n.ty   = std::string(1, b.ty[k]);
            n.in   = {b.in[k]};
            n.out  = {b.out[k]};
            n.sz   = b.sz;
            double iv = P(b.p, k, NAN);
            n.p       = std::isnan(iv) ? Vec{0.0} : Vec{iv};
            r.push_back(n);
        }
    }
    return r;
}

static Vec ic_of(const BlkSpec& b)
{
    double def = b.type == "mul" ? 1.0 : 0.0;
    if (b.ty[0] == 'a') return arr(b.p, b.sz, def);
    double v = P(b.p, 0, def);
    if (b.ty[0] == 'i') v = double(int(v));
    if (b.ty[0] == 'b') v = v > 0.5;
    return {v};
}

Ref::Ref(const Spec& s) : sp(s), nodes(expand(s))
{
    for (std::size_t k = 0; k < nodes.size(); k++)
        if (nodes[k].type == "integ" || nodes[k].type == "tint") integ.push_back(int(k));
    plan_order();
    st.resize(nodes.size());
    for (std::size_t k = 0; k < nodes.size(); k++)
    {
        const auto& b = nodes[k];
        if (b.type == "integ" || b.type == "tint" || b.type == "mem" || b.type == "deriv") st[k].v = ic_of(b);
        if (b.type == "deriv") st[k].v2 = st[k].v;
    }
}

void Ref::plan_order()
{
    twin.reset();
    have.clear();
    order.clear();
    blocked.clear();
    for (auto& e : sp.exts)
        if (!mute.count(e.id)) have.insert(e.id);
    for (int k : integ) have.insert(nodes[k].out[0]);
    std::vector<bool> done(nodes.size(), false);
    bool any;
    do
    {
        any = false;
        for (std::size_t k = 0; k < nodes.size(); k++)
        {
            if (done[k]) continue;
            bool ready = true;
            for (std::size_t j = 0; j < nodes[k].in.size(); j++)
                if (needs_input(nodes[k], j) && !have.count(nodes[k].in[j])) ready = false;
            if (!ready) continue;
            done[k] = any = true;
            order.push_back(int(k));
            for (int o : nodes[k].out) have.insert(o);
        }
    } while (any);
    for (std::size_t k = 0; k < nodes.size(); k++)
        if (!done[k]) blocked.push_back(nodes[k].id);
}

std::vector<Vec> Ref::states() const
{
    std::vector<Vec> r;
    for (int k : integ) r.push_back(st[k].v);
    return r;
}
std::vector<Vec> Ref::derivs() const
{
    std::vector<Vec> r;
    for (int k : integ)
    {
        auto it = sig.find(nodes[k].in[0]);
        r.push_back(it == sig.end() ? Vec(st[k].v.size(), NAN) : it->second);
    }
    return r;
}
void Ref::begin(double)
{
    for (std::size_t k = 0; k < nodes.size(); k++)
        if (nodes[k].type == "tint" && st[k].flag)
        {
            st[k].flag = false;
            for (auto& v : st[k].v) v = 0;
        }
}

void Ref::eval(double t, const std::vector<Vec>* x)
{
    sig.clear();
    for (auto& e : sp.exts)
        if (!mute.count(e.id)) sig[e.id] = time_fn(e.ty, e.sz, e.fn, e.p, t, &tie);
    for (std::size_t k = 0; k < integ.size(); k++) sig[nodes[integ[k]].out[0]] = x ? (*x)[k] : st[integ[k]].v;
    for (int k : order)
    {
        const auto& b = nodes[k];
        St& s         = st[k];
        if (b.type == "integ" || b.type == "tint") continue;
        std::vector<Vec> in;
        for (std::size_t j = 0; j < b.in.size(); j++) in.push_back(needs_input(b, j) ? sig.at(b.in[j]) : Vec());
        Vec y;
        if (is_user(b.type))
        {
            auto o = user_fn(b, t, in, &tie);
            for (std::size_t j = 0; j < b.out.size(); j++) sig[b.out[j]] = o[j];
            continue;
        }
        std::size_t n = b.ty[0] == 'a' ? std::size_t(b.sz) : 1;
        if (b.type == "const")
            y = ic_of(b);
        else if (b.type == "gain")
        {
            double g = b.ty[0] == 'i' ? double(int(P(b.p, 0, 1))) : P(b.p, 0, 1);
            for (double v : in[0]) y.push_back(g * v);
        }
        else if (b.type == "add" || b.type == "mul")
        {
            y = ic_of(b);
            for (auto& v : in)
                for (std::size_t j = 0; j < n; j++) y[j] = b.type == "add" ? y[j] + v[j] : y[j] * v[j];
        }
        else if (b.type == "sub" || b.type == "div")
        {
            for (std::size_t j = 0; j < n; j++)
                y.push_back(b.type == "sub" ? in[0][j] - in[1][j] : in[0][j] / in[1][j]);
        }
        else if (b.type == "pipe")
            y = in[0];
        else if (b.type == "mem")
            y = s.v;
        else if (b.type == "ival")
        {
            if (s.first)
            {
                s.first = false;
                s.v     = in[0];
            }
            y = s.v;
        }
        else if (b.type == "deriv")
        {
            // v: output at the last commit (initially y0), v2: input at the last commit
            if (s.first || t == s.t)
                y = s.v;
            else
                for (std::size_t j = 0; j < n; j++) y.push_back((in[0][j] - s.v2[j]) / (t - s.t));
        }
        else if (b.type == "delay")
        {
            double q = t - in[1][0];
            // beyond the lifespan the history may be gone
            if (!s.ht.empty() && q < s.ht.back() - (b.p.empty() ? 0 : b.p[0]) && q > s.ht.front()) tie = true;
            if (!s.ht.empty())
            {
                for (double h : {s.ht.front(), s.ht.back()})
                    if (q != h) near((q - h) * 100, &tie);
            }
            if (s.ht.empty() || q <= s.ht.front())
                y = in[2];
            else if (q >= s.ht.back())
                y = s.hx.back();
            else
            {
                std::size_t k2 = 0;
                while (s.ht[k2] < q) k2++;
                for (std::size_t j = 0; j < n; j++)
                    y.push_back(s.hx[k2 - 1][j] + (s.hx[k2][j] - s.hx[k2 - 1][j]) * (q - s.ht[k2 - 1]) /
                                                      (s.ht[k2] - s.ht[k2 - 1]));
            }
        }
        sig[b.out[0]] = y;
    }
    for (auto& p : sig)
    {
        auto info = sp.sigs.find(p.first);
        if (info != sp.sigs.end() && info->second.ty == 'i') continue; // compared exactly
        for (double v : p.second)
        {
            double a = std::fabs(v);
            if (!(a <= biggest)) biggest = std::isnan(a) ? 1e300 : a;
        }
    }
}

void Ref::commit(double t)
{
    for (std::size_t k = 0; k < nodes.size(); k++)
    {
        const auto& b = nodes[k];
        St& s         = st[k];
        auto get      = [&](int id) -> const Vec* {
            auto it = sig.find(id);
            return it == sig.end() ? nullptr : &it->second;
        };
        if (b.type == "mem")
        {
            if (auto* v = get(b.in[0])) s.v = *v;
        }
        else if (b.type == "integ" || b.type == "tint")
        {
            s.v = *get(b.out[0]);
            if (b.type == "tint")
                if (auto* v = get(b.in[1])) s.flag = (*v)[0] > 0.5;
        }
        else if (b.type == "deriv")
        {
            auto *x = get(b.in[0]), *y = get(b.out[0]);
            if (x && y)
            {
                s.v     = *y;
                s.v2    = *x;
                s.t     = t;
                s.first = false;
            }
        }
        else if (b.type == "delay")
        {
            if (auto* x = get(b.in[0]))
            {
                if (!s.ht.empty() && s.ht.back() == t)
                    s.hx.back() = *x;
                else
                {
                    s.ht.push_back(t);
                    s.hx.push_back(*x);
                }
            }
        }
    }
}

std::vector<Vec> axpy(const std::vector<Vec>& x, double a, const std::vector<Vec>& y)
{
    auto r = x;
    for (std::size_t k = 0; k < r.size(); k++)
        for (std::size_t j = 0; j < r[k].size(); j++) r[k][j] += a * y[k][j];
    return r;
}

std::vector<Vec> Ref::integrate(const std::string& method, double t1, double t2, std::vector<Vec>* other)
{
    double h  = t2 - t1;
    auto x    = states();
    auto eval = [&](double t, const std::vector<Vec>& s) {
        this->eval(t, &s);
        return derivs();
    };
    if (method == "euler") return axpy(x, h, eval(t1, x));
    if (method == "rk4")
    {
        auto k1 = eval(t1, x);
        auto k2 = eval(t1 + h / 2, axpy(x, h / 2, k1));
        auto k3 = eval(t1 + h / 2, axpy(x, h / 2, k2));
        auto k4 = eval(t1 + h, axpy(x, h, k3));
        auto r  = axpy(x, h / 6, k1);
        r       = axpy(r, h / 3, k2);
        r       = axpy(r, h / 3, k3);
        return axpy(r, h / 6, k4);
    }
    // Fehlberg's 4(5) pair as published
    static const double A[6]    = {0, 1. / 4, 3. / 8, 12. / 13, 1, 1. / 2};
    static const double B[6][5] = {{0, 0, 0, 0, 0},
                                   {1. / 4, 0, 0, 0, 0},
                                   {3. / 32, 9. / 32, 0, 0, 0},
                                   {1932. / 2197, -7200. / 2197, 7296. / 2197, 0, 0},
                                   {439. / 216, -8, 3680. / 513, -845. / 4104, 0},
                                   {-8. / 27, 2, -3544. / 2565, 1859. / 4104, -11. / 40}};
    static const double C4[6]   = {25. / 216, 0, 1408. / 2565, 2197. / 4104, -1. / 5, 0};
    static const double C5[6]   = {16. / 135, 0, 6656. / 12825, 28561. / 56430, -9. / 50, 2. / 55};
    std::vector<std::vector<Vec>> k;
    for (int s = 0; s < 6; s++)
    {
        auto y = x;
        for (int j = 0; j < s; j++)
            if (B[s][j] != 0) y = axpy(y, h * B[s][j], k[j]);
        k.push_back(eval(t1 + A[s] * h, y));
    }
    auto r = x, z = x;
    for (int s = 0; s < 6; s++)
    {
        r = axpy(r, h * C4[s], k[s]);
        z = axpy(z, h * C5[s], k[s]);
    }
    if (other) *other = z;
    return r;
}

void Ref::step(const std::string& method, double t1, double t2)
{
    bool watch = !integ.empty() && biggest > 20;
    if (watch)
    {
        if (!twin) twin = std::make_shared<Ref>(*this);
        twin->twin.reset();
        for (int k : integ)
            for (auto& v : twin->st[std::size_t(k)].v)
            {
                jitter = jitter * 6364136223846793005ULL + 1442695040888963407ULL;
                v += (jitter >> 63 ? 1e-14 : -1e-14) * (1 + std::fabs(v) + 0.01 * biggest);
            }
        double before = twin->biggest;
        twin->biggest = 0; // no twin of its own
        twin->step(method, t1, t2);
        twin->biggest = std::max(before, twin->biggest);
    }
    begin(t1);
    auto x = integrate(method, t1, t2);
    eval(t2, &x);
    commit(t2);
    if (!watch) return;
    for (auto& [id, v] : sig)
    {
        auto& w = twin->sig[id];
        for (std::size_t j = 0; j < v.size(); j++)
            if (!(std::fabs(v[j] - w[j]) <= 1e-9 * (1 + biggest))) chaotic = true;
    }
}

// ---------------------------------------------------------------- the real model
void Hooks::call(char kind, int id, double t)
{
    {
        Sys s;
        if (g_sh) log_u(uint64_t(kind) << 32 | unsigned(id));
        if (on) on(kind, id, t);
        if (yield) yield();
    }
    if (kind == 'P' || kind == 'C') hooks++;
    if (inside) inside(kind);
    if (kind == 'C') return;
    calls++;
    if (calls != fault_at) return;
    fired++;
    if (fault_kind == 1) throw 42;
    throw UserFault("the injected fault");
}

pooya::Signal RealSig::sig() const
{
    if (ty == 's') return *s;
    if (ty == 'i') return *i;
    if (ty == 'b') return *b;
    return *a;
}
bool RealSig::assigned() const
{
    if (ty == 's') return (*s)->assigned();
    if (ty == 'i') return (*i)->assigned();
    if (ty == 'b') return (*b)->assigned();
    return (*a)->assigned();
}
Vec RealSig::get() const
{
    Sys sys;
    if (ty == 's') return {(*s)->get_value()};
    if (ty == 'i') return {double((*i)->get_value())};
    if (ty == 'b') return {(*b)->get_value() ? 1.0 : 0.0};
    const Array& v = (*a)->get_value();
    Vec r(v.rows());
    for (int k = 0; k < v.rows(); k++) r[k] = v[k];
    return r;
}

static Array to_array(const Vec& v)
{
    Array a(v.size());
    for (std::size_t k = 0; k < v.size(); k++) a[k] = v[k];
    return a;
}
static void put(RealSig& s, const Vec& v)
{
    if (s.ty == 's')
        *s.s = v[0];
    else if (s.ty == 'i')
        *s.i = int(v[0]);
    else if (s.ty == 'b')
        *s.b = v[0] > 0.5;
    else
        *s.a = to_array(v);
}

namespace
{
class ProbeLeaf : public Leaf
{
public:
    RealModel& m;
    const BlkSpec& b;
    ProbeLeaf(RealModel& m, const BlkSpec& b, Submodel* parent, std::string_view name)
        : Leaf(parent, name), m(m), b(b)
    {
    }
    void pre_step(double t) override { m.hk.call('P', b.id, t); }
    void post_step(double t) override { m.hk.call('C', b.id, t); }
    void activation_function(double t) override
    {
        std::vector<Vec> out;
        {
            Sys s;
            auto in = m.ins(b);
            if (m.hk.on_act) m.hk.on_act(b.id, t, in);
            out = user_fn(b, t, in);
        }
        m.hk.call('A', b.id, t);
        if (!b.out.empty()) put(m.sigs.at(b.out[0]), out[0]);
        Sys s;
        out.clear();
        out.shrink_to_fit();
    }
};

class RootModel : public Submodel
{
public:
    RealModel& m;
    RootModel(RealModel& m, std::string_view name) : Submodel(nullptr, name), m(m) {}
    void input_cb(double t) override
    {
        m.hk.call(m.sp.nocb ? 'I' : 'i', 0, t);
        m.write_ext(true, t);
    }
};

template<typename T, typename F, std::size_t... I>
auto call_with(const std::vector<T>& v, F& f, std::index_sequence<I...>)
{
    return f(std::initializer_list<T>{v[I]...});
}
template<std::size_t N = 0, typename T, typename F>
auto with_list(const std::vector<T>& v, F f)
{
    if constexpr (N < 20)
        if (v.size() > N) return with_list<N + 1>(v, f);
    return call_with(v, f, std::make_index_sequence<N>());
}
Bus mkbus(const std::vector<Signal>& v)
{
    if (v.empty()) return Bus();
    return with_list(v, [](auto l) { return Bus(l); });
}
using LS = std::pair<std::string, Signal>;
Bus mklbus(const std::vector<LS>& v)
{
    if (v.empty()) return Bus();
    return with_list(v, [](auto l) { return Bus(l); });
}
// nested bus out of dotted labels
Bus nested(const std::vector<LS>& v)
{
    std::vector<LS> top;
    std::vector<std::string> heads;
    for (auto& p : v)
    {
        auto h = p.first.substr(0, p.first.find('.'));
        if (std::find(heads.begin(), heads.end(), h) == heads.end()) heads.push_back(h);
    }
    for (auto& h : heads)
    {
        std::vector<LS> sub;
        for (auto& p : v)
        {
            auto pos = p.first.find('.');
            if (p.first.substr(0, pos) != h) continue;
            if (pos == std::string::npos)
                top.push_back(p);
            else
                sub.emplace_back(p.first.substr(pos + 1), p.second);
        }
        if (!sub.empty()) top.emplace_back(h, nested(sub));
    }
    return mklbus(top);
}
} // namespace

std::string RealModel::given_name(const char* kind, int id) const
{
    switch (names)
    {
    case 1: return "x"; // all alike
    case 2: return "";
    case 3: return prefix + kind + std::to_string(id) + "_with_a_name_that_is_much_longer_than_any_small_buffer_could_ever_hold";
    case 4: return prefix + "9 " + kind + "-" + std::to_string(id % 2); // not valid as it is
    default: return prefix + kind + std::to_string(id);
    }
}
RealModel::RealModel(const Spec& s, const std::string& name_prefix) : sp(s), prefix(name_prefix) {}
RealModel::~RealModel() = default;

std::vector<Vec> RealModel::ins(const BlkSpec& b)
{
    Sys s;
    std::vector<Vec> r;
    for (int id : b.in) r.push_back(sigs.at(id).get());
    return r;
}

void RealModel::write_ext(bool icb, double t)
{
    for (auto& e : sp.exts)
        if ((e.icb != 0) == icb && sp.used.count(e.id) && !mute_ext.count(e.id))
        {
            Vec v;
            {
                Sys s;
                v = time_fn(e.ty, e.sz, e.fn, e.p, t);
            }
            put(sigs.at(e.id), v);
            Sys s;
            v = Vec();
        }
}
Block& RealModel::top()
{
    if (root) return *root;
    return *blocks.begin()->second;
}
void RealModel::inputs_cb(double t)
{
    hk.call('I', 0, t);
    write_ext(false, t);
}

void RealModel::make_block(const BlkSpec& b)
{
    Submodel* par = b.parent < 0 ? root.get() : subs.at(b.parent).get();
    Submodel* cp  = b.via == 1 && !is_bus(b) ? nullptr : par;
    std::string name;
    {
        Sys s;
        name = given_name("b", b.id);
    }
    const std::string& t = b.type;
    char ty              = b.ty.empty() ? '-' : b.ty[0];
    double p0            = P(b.p, 0, 1);
    std::unique_ptr<Block> blk;
    auto* self = this;
    const BlkSpec* bs{&b};
    // the values user code computes belong to the harness, what it hands to the library does not
    auto user = [self, bs](double t) {
        Sys s;
        auto in = self->ins(*bs);
        if (self->hk.on_act) self->hk.on_act(bs->id, t, in);
        return user_fn(*bs, t, in);
    };
    auto drop = [](std::vector<Vec>& o) {
        Sys s;
        std::vector<Vec>().swap(o);
    };
    auto scalar_fn = [self, bs, user, drop](double t) {
        auto o   = user(t);
        double v = o[0][0];
        drop(o);
        self->hk.call('A', bs->id, t);
        return v;
    };
    auto array_fn = [self, bs, user, drop](double t) {
        auto o = user(t);
        struct D
        {
            std::vector<Vec>& o;
            ~D()
            {
                Sys s;
                std::vector<Vec>().swap(o);
            }
        } d{o};
        self->hk.call('A', bs->id, t);
        return to_array(o[0]);
    };
    Array av = to_array(ic_of(BlkSpec{b.id, b.type, b.ty.empty() ? "s" : b.ty, {}, {}, {}, {}, b.p, b.fn, b.sz}));

    // array functions hand out a reference to an array of their own
    std::shared_ptr<Array> keep;
    if (ty == 'a' && (t == "siso" || t == "so")) keep = std::make_shared<Array>();

    if (t == "const")
    {
        if (ty == 's') blk = std::make_unique<Const>(P(b.p, 0, 0), cp, name);
        if (ty == 'a') blk = std::make_unique<ConstA>(av, cp, name);
    }
    else if (t == "source")
    {
        if (ty == 's') blk = std::make_unique<Source>(scalar_fn, cp, name);
        if (ty == 'i') blk = std::make_unique<SourceI>([scalar_fn](double t) { return int(scalar_fn(t)); }, cp, name);
        if (ty == 'a') blk = std::make_unique<SourceA>(array_fn, cp, name);
    }
    else if (t == "sources")
    {
        blk = std::make_unique<Sources>(
            [self, bs, user](const Bus& obus, double t) {
                auto o = user(t);
                struct D
                {
                    std::vector<Vec>& o;
                    ~D()
                    {
                        Sys s;
                        std::vector<Vec>().swap(o);
                    }
                } d{o};
                self->hk.call('A', bs->id, t);
                for (std::size_t k = 0; k < bs->out.size(); k++)
                {
                    const Vec& v = o[k];
                    switch (bs->ty[k])
                    {
                    case 's': { ScalarSignal x(obus[k]); x = v[0]; break; }
                    case 'i': { IntSignal x(obus[k]); x = int(v[0]); break; }
                    case 'b': { BoolSignal x(obus[k]); x = v[0] > 0.5; break; }
                    default: { ArraySignal x(obus[k]); x = to_array(v); break; }
                    }
                }
            },
            cp, name);
    }
    else if (t == "gain")
    {
        if (ty == 's') blk = std::make_unique<Gain>(p0, cp, name);
        if (ty == 'i') blk = std::make_unique<GainI>(int(p0), cp, name);
        if (ty == 'a') blk = std::make_unique<GainA>(p0, cp, name);
    }
    else if (t == "add")
    {
        if (ty == 's' && !cp && P(b.p, 0, 0) == 0)
            (blk = std::make_unique<Add>())->rename(name); // the default initial value
        else if (ty == 's')
            blk = std::make_unique<Add>(P(b.p, 0, 0), cp, name);
        if (ty == 'a') blk = std::make_unique<AddA>(av, cp, name);
    }
    else if (t == "mul")
    {
        if (ty == 's' && !cp && p0 == 1)
            (blk = std::make_unique<Multiply>())->rename(name); // the default initial value
        else if (ty == 's')
            blk = std::make_unique<Multiply>(p0, cp, name);
        if (ty == 'a') blk = std::make_unique<MultiplyA>(av, cp, name);
    }
    else if (t == "sub")
    {
        if (ty == 's') blk = std::make_unique<Subtract>(cp, name);
        if (ty == 'a') blk = std::make_unique<SubtractA>(cp, name);
    }
    else if (t == "div")
    {
        if (ty == 's') blk = std::make_unique<Divide>(cp, name);
        if (ty == 'a') blk = std::make_unique<DivideA>(cp, name);
    }
    else if (t == "pipe")
    {
        if (ty == 's') blk = std::make_unique<Pipe>(cp, name);
        if (ty == 'i') blk = std::make_unique<PipeI>(cp, name);
        if (ty == 'b') blk = std::make_unique<PipeB>(cp, name);
        if (ty == 'a') blk = std::make_unique<PipeA>(cp, name);
    }
    else if (t == "siso")
    {
        if (ty == 's')
            blk = std::make_unique<SISOFunction>([scalar_fn](double t, double) { return scalar_fn(t); }, cp, name);
        if (ty == 'a')
            blk = std::make_unique<SISOFunctionA>([array_fn, keep](double t, const Array&) -> const Array&
                                                  { return *keep = array_fn(t); }, cp, name);
    }
    else if (t == "so")
    {
        if (ty == 's')
            blk = std::make_unique<SOFunction>([scalar_fn](double t, const Bus&) { return scalar_fn(t); }, cp, name);
        if (ty == 'a')
            blk = std::make_unique<SOFunctionA>([array_fn, keep](double t, const Bus&) -> const Array&
                                                { return *keep = array_fn(t); }, cp, name);
    }
    else if (t[0] == 'f')
    {
        blk = std::make_unique<Function>(
            [self, bs, user](double t, const Bus&, const Bus&) {
                auto o = user(t);
                struct D
                {
                    std::vector<Vec>& o;
                    ~D()
                    {
                        Sys s;
                        std::vector<Vec>().swap(o);
                    }
                } d{o};
                self->hk.call('A', bs->id, t);
                for (std::size_t k = 0; k < bs->out.size(); k++) put(self->sigs.at(bs->out[k]), o[k]);
            },
            cp, name);
    }
    else if (t == "mem")
    {
        double v = P(b.p, 0, 0);
        if (ty == 's') blk = std::make_unique<Memory>(v, cp, name);
        if (ty == 'i') blk = std::make_unique<MemoryI>(int(v), cp, name);
        if (ty == 'b') blk = std::make_unique<MemoryB>(v > 0.5, cp, name);
        if (ty == 'a') blk = std::make_unique<MemoryA>(av, cp, name);
    }
    else if (t == "integ")
    {
        if (ty == 's' && !cp && P(b.p, 0, 0) == 0)
            (blk = std::make_unique<Integrator>())->rename(name); // the default initial value
        else if (ty == 's')
            blk = std::make_unique<Integrator>(P(b.p, 0, 0), cp, name);
        if (ty == 'a') blk = std::make_unique<IntegratorA>(av, cp, name);
    }
    else if (t == "tint")
    {
        if (ty == 's' && !cp && P(b.p, 0, 0) == 0)
            (blk = std::make_unique<TriggeredIntegrator>())->rename(name); // the default initial value
        else if (ty == 's')
            blk = std::make_unique<TriggeredIntegrator>(P(b.p, 0, 0), cp, name);
        if (ty == 'a') blk = std::make_unique<TriggeredIntegratorA>(av, cp, name);
    }
    else if (t == "deriv")
    {
        if (ty == 's' && !cp && P(b.p, 0, 0) == 0)
            (blk = std::make_unique<Derivative>())->rename(name); // the default initial value
        else if (ty == 's')
            blk = std::make_unique<Derivative>(P(b.p, 0, 0), cp, name);
        if (ty == 'a') blk = std::make_unique<DerivativeA>(av, cp, name);
    }
    else if (t == "ival")
    {
        if (ty == 's') blk = std::make_unique<InitialValue>(cp, name);
        if (ty == 'a') blk = std::make_unique<InitialValueA>(cp, name);
    }
    else if (t == "delay")
    {
        if (ty == 's') blk = std::make_unique<Delay>(P(b.p, 0, 10), cp, name);
        if (ty == 'a') blk = std::make_unique<DelayA>(P(b.p, 0, 10), cp, name);
    }
    else if (t == "probe")
        blk = std::make_unique<ProbeLeaf>(*this, b, cp, name);
    else if (t == "bmem")
    {
        std::vector<BusMemory::LabelValue> iv;
        for (std::size_t k = 0; k < b.lab.size(); k++)
        {
            double v = P(b.p, k, NAN);
            if (std::isnan(v) || excluded(b, k)) continue;
            switch (b.ty[k])
            {
            case 's': iv.emplace_back(b.lab[k], v); break;
            case 'i': iv.emplace_back(b.lab[k], int(v)); break;
            case 'b': iv.emplace_back(b.lab[k], v > 0.5); break;
            default: iv.emplace_back(b.lab[k], to_array(Vec(b.sz, v))); break;
            }
        }
        blk = with_list(iv, [&](auto l1) {
            return with_list(b.ex, [&](auto l2) -> std::unique_ptr<Block> {
                auto q = std::make_unique<BusMemory>(*par, l1, l2);
                q->rename(name);
                return q;
            });
        });
    }
    else if (t == "bpipe")
        blk = with_list(b.ex, [&](auto l2) -> std::unique_ptr<Block> {
            auto q = std::make_unique<BusPipe>(*par, l2);
            q->rename(name);
            return q;
        });
    if (!blk)
    {
        invalid();
        throw UserFault("bad plan");
    }
    blocks[b.id] = std::move(blk);
    Sys s;
    name = std::string();
}

void RealModel::connect(const BlkSpec& b, bool add)
{
    Block& blk    = *blocks.at(b.id);
    Submodel* par = b.parent < 0 ? root.get() : subs.at(b.parent).get();
    auto S        = [&](int id) { return sigs.at(id).sig(); };
    Bus ib, ob;
    if (b.type == "delay")
    {
        std::vector<LS> v{LS("in", S(b.in[0])), LS("delay", S(b.in[1])), LS("initial", S(b.in[2]))};
        std::vector<LS> w; // in one of the six orders
        for (int f = b.fn; !v.empty();)
        {
            std::size_t k = std::size_t(f) % v.size();
            f /= int(v.size());
            w.push_back(v[k]);
            std::vector<LS> rest;
            for (std::size_t j = 0; j < v.size(); j++)
                if (j != k) rest.push_back(v[j]);
            v.swap(rest);
        }
        ib.reset(mklbus(w));
    }
    else if (b.type == "tint")
        ib.reset(mklbus({LS("in", S(b.in[0])), LS("trigger", S(b.in[1]))}));
    else if (is_bus(b))
    {
        std::vector<LS> vi, vo;
        for (std::size_t k = 0; k < b.in.size(); k++) vi.emplace_back(b.lab[k], S(b.in[k]));
        for (std::size_t k = 0; k < b.in.size(); k++) vo.emplace_back(b.lab[k], S(b.out[k]));
        if (b.fn == 1) std::reverse(vo.begin(), vo.end());
        if (b.fn == 2 && vo.size() > 1) std::rotate(vo.begin(), vo.begin() + 1, vo.end());
        ib.reset(nested(vi));
        ob.reset(nested(vo));
    }
    else
    {
        std::vector<Signal> v;
        for (int id : b.in) v.push_back(S(id));
        ib.reset(mkbus(v));
    }
    if (!is_bus(b))
    {
        std::vector<Signal> v;
        for (int id : b.out) v.push_back(S(id));
        ob.reset(mkbus(v));
    }
    if (add && par)
        par->add_block(blk, ib, ob);
    else
        blk.connect(ib, ob);
}

void RealModel::build()
{
    std::string nm;
    auto name = [&](const char* c, int id) -> const std::string& {
        Sys s;
        nm = given_name(c, id);
        return nm;
    };
    if (!sp.sole) root = std::make_unique<RootModel>(*this, name("root", 0));
    for (auto& [id, info] : sp.sigs)
    {
        RealSig& s = [&]() -> RealSig& {
            Sys sys;
            return sigs[id];
        }();
        s.ty = info.ty;
        s.sz = info.sz;
        if (auto it = sp.missize.find(id); it != sp.missize.end()) s.sz = it->second;
        name("s", id);
        if (s.ty == 's') s.s.emplace(nm);
        if (s.ty == 'i') s.i.emplace(nm);
        if (s.ty == 'b') s.b.emplace(nm);
        if (s.ty == 'a') s.a.emplace(std::size_t(s.sz), nm);
    }
    struct Item
    {
        int ord, id;
        const SubSpec* s;
        const BlkSpec* b;
    };
    std::vector<Item> items;
    for (auto& s : sp.subs) items.push_back({s.ord, s.id, &s, nullptr});
    for (auto& b : sp.blks) items.push_back({b.ord, b.id, nullptr, &b});
    std::stable_sort(items.begin(), items.end(),
                     [](const Item& a, const Item& b) { return std::make_pair(a.ord, a.id) < std::make_pair(b.ord, b.id); });
    std::function<void(int)> mksub = [&](int id) {
        if (id < 0 || subs.count(id)) return;
        for (auto& s : sp.subs)
            if (s.id == id)
            {
                mksub(s.parent);
                Submodel* par = s.parent < 0 ? root.get() : subs.at(s.parent).get();
                name("m", id);
                subs[id] = std::make_unique<Submodel>(s.via == 0 ? par : nullptr, nm);
                if (s.via == 1) par->add_block(*subs[id]);
            }
    };
    for (auto& it : items)
    {
        if (it.s)
        {
            mksub(it.id);
            continue;
        }
        mksub(it.b->parent);
        make_block(*it.b);
        if (it.b->via == 1 || !it.b->late) connect(*it.b, it.b->via == 1);
    }
    for (auto& it : items)
        if (it.b && it.b->late && it.b->via != 1) connect(*it.b, false);
    for (auto& it : items)
        if (it.s && it.s->via == 2)
        {
            Submodel* par = it.s->parent < 0 ? root.get() : subs.at(it.s->parent).get();
            par->add_block(*subs[it.id]);
        }
}

// ---------------------------------------------------------------- steppers and simulators
void RecStepper::step(StepperCallback callback, double t0, const Array& v0, double t1, Array& v1, double& new_h)
{
    Array before;
    if (seen)
    {
        Sys s;
        before = v0;
    }
    inner->step(callback, t0, v0, t1, v1, new_h);
    Sys s;
    long k = count++;
    if (seen) seen(t0, t1, before, v1, new_h);
    if (propose) new_h = propose(t0, t1, new_h, k);
    if (record) trials.push_back({t0, t1, new_h});
}
std::unique_ptr<RecStepper> make_stepper(const std::string& method)
{
    auto r = std::make_unique<RecStepper>();
    if (method == "euler")
        r->inner = std::make_unique<Euler>();
    else if (method == "rk4")
        r->inner = std::make_unique<Rk4>();
    else if (method == "rkf45")
        r->inner = std::make_unique<Rkf45>();
    else
        return nullptr;
    return r;
}
std::unique_ptr<SimulatorBase> make_sim(const std::string& kind, Block& model, SimulatorBase::InputCallback cb,
                                        StepperBase* st)
{
    if (kind == "fast") return std::make_unique<FastSimulator>(model, cb, st);
    return std::make_unique<Simulator>(model, cb, st, kind == "reuse");
}
static SimulatorBase::InputCallback input_cb(RealModel* pm)
{
    if (pm->sp.nocb) return nullptr;
    return [pm](Block&, double t) { pm->inputs_cb(t); };
}
RealSim::RealSim(RealModel& model, const std::string& kind, const std::string& method)
    : m(model), stepper(make_stepper(method))
{
    auto* pm = &m;
    sim      = make_sim(kind, m.top(), input_cb(pm), stepper.get());
}
RealSim::RealSim(RealModel& model, const std::string& kind, StepperBase* st) : m(model)
{
    auto* pm = &m;
    sim      = make_sim(kind, m.top(), input_cb(pm), st);
}

Capture::Capture()
{
    Sys s;
    buf.resize(1 << 18);
    old = std::cout.rdbuf(this);
}
Capture::~Capture()
{
    std::cout.rdbuf(old);
}
int Capture::overflow(int c)
{
    if (c != EOF && n < buf.size()) buf[n++] = char(c);
    return c == EOF ? 0 : c;
}
std::streamsize Capture::xsputn(const char* s, std::streamsize k)
{
    std::size_t c = std::min(std::size_t(k), buf.size() - n);
    memcpy(buf.data() + n, s, c);
    n += c;
    return k;
}

// ---------------------------------------------------------------- comparison
std::string show(const Vec& v)
{
    std::string s = "[";
    for (double x : v) s += (s.size() > 1 ? ", " : "") + num(x);
    return s + "]";
}
bool close(double a, double b, double scale, double tol)
{
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= tol * (1 + scale);
}
bool compare(RealModel& m, const Ref& r, const char* cls, const std::string& where, double tol)
{
    Sys s;
    for (auto& [id, rs] : m.sigs)
    {
        if (!m.sp.used.count(id)) continue;
        auto it = r.sig.find(id);
        if (it == r.sig.end())
        {
            if (rs.assigned())
            {
                violation(cls, fmt("%s: signal s%d has a value, but nothing can have computed it", where.c_str(), id));
                return false;
            }
            continue;
        }
        if (!rs.assigned())
        {
            violation(cls, fmt("%s: signal s%d has no value, expected %s", where.c_str(), id, show(it->second).c_str()));
            return false;
        }
        Vec v = rs.get();
        if (v.size() != it->second.size())
        {
            violation(cls, fmt("%s: signal s%d has %zu elements, expected %zu", where.c_str(), id, v.size(),
                               it->second.size()));
            return false;
        }
        for (std::size_t k = 0; k < v.size(); k++)
            if (!close(v[k], it->second[k], rs.ty == 'i' ? 0 : r.biggest, tol))
            {
                violation(cls, fmt("%s: signal s%d is %s, expected %s", where.c_str(), id, show(v).c_str(),
                                   show(it->second).c_str()));
                return false;
            }
    }
    return true;
}
void log_signals(RealModel& m)
{
    for (auto& [id, rs] : m.sigs)
        if (rs.assigned())
        {
            for (double v : rs.get()) log_d(v);
        }
}

bool accepted_steps(const std::vector<Trial>& tr, double from, double to, std::vector<std::pair<double, double>>& out)
{
    double cur = from;
    for (std::size_t k = 0; k < tr.size(); k++)
    {
        if (tr[k].t0 != cur) return false;
        bool acc = k + 1 < tr.size() ? tr[k + 1].t0 == tr[k].t1 : true;
        if (acc)
        {
            if (!(tr[k].t1 > cur)) return false;
            out.emplace_back(cur, tr[k].t1);
            cur = tr[k].t1;
        }
        else if (tr[k + 1].t0 != cur)
            return false;
    }
    return cur == to;
}

// ---------------------------------------------------------------- generation
double dyadic(Rng& r, double lo, double hi, int den)
{
    return double(r.range(int(std::ceil(lo * den)), int(std::floor(hi * den)))) / den;
}

namespace
{
struct Gen
{
    Rng& r;
    Plan& plan;
    const GenOpt& o;
    struct S
    {
        int id;
        char ty;
        int sz;
        bool nonzero, noisy, step;
    };
    std::vector<S> pool;
    int next_sig{1}, next_blk{1};
    int sizes[2];
    struct Fb
    {
        std::size_t line;
        std::size_t in;
        char ty;
        int sz;
    };
    std::vector<Fb> fb;

    Gen(Rng& r, Plan& p, const GenOpt& o) : r(r), plan(p), o(o)
    {
        sizes[0] = r.range(1, 3);
        sizes[1] = r.range(2, 4);
        // now and then something much larger than usual
        wide = r.chance(0.03);
        // long chains of blocks that wait for one another
        chain  = r.chance(0.05);
        bigint = r.chance(0.06) ? 29000017 : 0;
        if (wide) sizes[r.below(2)] = r.range(5, 40);
    }
    bool wide, chain;
    int bigint;
    int fan() { return wide && r.chance(0.4) ? r.range(5, 14) : r.range(1, 4); }
    double coef(double a = 2) { return double(r.range(int(-a * 16), int(a * 16))) / 16; }
    double nz() { return double(r.range(2, 20)) / 16 * (r.chance(0.5) ? 1 : -1); }
    Vec tparams(char ty)
    {
        if (ty == 'i') return bigint ? Vec{r.range(-3, 3) + 0.3713, coef(3) + 0.01, double(bigint)} : Vec{r.range(-3, 3) + 0.3713, coef(3) + 0.01};
        if (ty == 'b') return {r.range(0, 9) / 16.0 + 0.0137, r.range(2, 20) / 16.0 + 0.0021, r.range(1, 8) / 16.0 + 0.0007};
        return {coef(), coef(), coef(4), coef()};
    }
    int tfn(char ty)
    {
        if (ty == 'b') return r.below(2);
        if (ty == 'i') return 0;
        if (o.smooth) return r.chance(0.7) ? 0 : (r.chance(0.5) ? 3 : 1);
        static const int f[] = {0, 0, 0, 1, 2, 3, 4, 5};
        return f[r.below(8)];
    }
    S add_sig(char ty, int sz, bool nonzero = false, bool noisy = false)
    {
        S s{next_sig++, ty, ty == 'a' ? sz : 1, nonzero, noisy, false};
        pool.push_back(s);
        return s;
    }
    Line& blk(const char* type, const std::string& ty, int sz)
    {
        Line& l = plan.add("blk");
        l.set("id", next_blk++).set("type", type);
        if (!ty.empty()) l.set("ty", ty);
        if (sz != 1) l.set("sz", sz);
        return l;
    }
    S source(char ty, int sz, bool nonzero = false)
    {
        int kind = r.below(10);
        int fn   = nonzero ? 5 : tfn(ty);
        Vec p    = tparams(ty);
        if ((ty == 'b' || kind < 3) && o.ext)
        {
            S s     = add_sig(ty, sz, nonzero);
            Line& l = plan.add("ext");
            l.set("id", s.id).set("ty", std::string(1, ty)).set("fn", fn).set("p", p);
            if (ty == 'a') l.set("sz", sz);
            if (r.chance(0.3)) l.set("icb", 1);
            return s;
        }
        if (kind == 3 && (ty == 's' || ty == 'a') && o.lib)
        {
            Vec v;
            for (int j = 0; j < (ty == 'a' ? sz : 1); j++) v.push_back(nz());
            Line& l = blk("const", std::string(1, ty), ty == 'a' ? sz : 1);
            S s     = add_sig(ty, sz, true);
            l.set("out", s.id).set("p", v);
            return s;
        }
        if ((kind == 4 || ty == 'b') && !nonzero)
        {
            std::string tys(1, ty);
            int k = r.below(3);
            for (int j = 0; j < k; j++)
            {
                char c = "sib"[r.below(o.intbool ? 3 : 1)];
                tys += c;
            }
            Line& l = blk("sources", tys, ty == 'a' ? sz : 1);
            std::vector<int> outs;
            S first{};
            int fnn = o.smooth ? 0 : r.below(3);
            for (std::size_t j = 0; j < tys.size(); j++)
            {
                S s = add_sig(tys[j], tys[j] == 'a' ? sz : 1);
                if (j == 0) first = s;
                outs.push_back(s.id);
            }
            Vec q{r.range(0, 9) / 16.0 + 0.0137, r.range(8, 20) / 16.0 + 0.0021, r.range(1, 6) / 16.0 + 0.0007};
            l.set("out", outs).set("fn", fnn).set("p", q);
            return first;
        }
        Line& l = blk("source", std::string(1, ty), ty == 'a' ? sz : 1);
        S s     = add_sig(ty, sz, nonzero);
        l.set("out", s.id).set("fn", fn).set("p", p);
        return s;
    }
    S pick(char ty, int sz, bool clean = false, bool nonzero = false)
    {
        std::vector<S> c;
        for (auto& s : pool)
            if (s.ty == ty && (ty != 'a' || s.sz == sz) && !(clean && s.noisy) && !(nonzero && !s.nonzero)) c.push_back(s);
        if (c.empty() || r.chance(chain ? 0.01 : 0.12)) return source(ty, sz, nonzero);
        if (chain && r.chance(0.9)) return c.back();
        // recent ones are more likely: longer chains
        if (r.chance(0.5)) return c[c.size() - 1 - std::size_t(r.below(int(std::min<std::size_t>(3, c.size()))))];
        return r.pick(c);
    }
    bool noisy(std::initializer_list<S> l)
    {
        for (auto& s : l)
            if (s.noisy) return true;
        return false;
    }
    Vec ics(char ty, int sz)
    {
        Vec v;
        for (int j = 0; j < (ty == 'a' ? sz : 1); j++) v.push_back(ty == 'i' ? double(r.range(-3, 3)) * (bigint ? bigint : 1) : ty == 'b' ? r.below(2) : coef());
        return v;
    }

    void one()
    {
        char fa = o.array && r.chance(0.35) ? 'a' : 's';
        int sz  = fa == 'a' ? sizes[r.below(2)] : 1;
        std::string T(1, fa);
        for (int tries = 0; tries < 50; tries++)
        {
            int k = r.below(22);
            if (chain && r.chance(0.7)) k = r.range(1, 11);
            if (o.focus_mem && r.chance(0.5)) k = r.chance(0.5) ? 13 : 99;
            if (o.focus_deriv && r.chance(0.4)) k = r.chance(0.6) ? 18 : 20;
            if (o.focus_tint && r.chance(0.4)) k = 17;
            switch (k)
            {
            case 0: source(fa, sz); return;
            case 1:
            case 2:
            {
                if (!o.lib) break;
                if (o.intbool && r.chance(0.25))
                {
                    S a     = pick('i', 1);
                    if (a.step) break;
                    Line& l = blk("gain", "i", 1);
                    S y     = add_sig('i', 1);
                    pool.back().step = true; // an amplified integer: not amplified again
                    l.set("in", a.id).set("out", y.id).set("p", double(r.range(-3, 3)));
                    return;
                }
                S a     = pick(fa, sz);
                Line& l = blk("gain", T, sz);
                S y     = add_sig(fa, sz, a.nonzero, a.noisy);
                double g = nz();
                if (a.nonzero) g = g < 0 ? -1 : 1;
                l.set("in", a.id).set("out", y.id).set("p", g);
                return;
            }
            case 3:
            case 4:
            case 5:
            {
                if (!o.lib) break;
                bool mul = k == 5;
                int n    = fan();
                if (mul && n > 2) n = 2;
                std::vector<int> in;
                bool noi = false;
                for (int j = 0; j < n; j++)
                {
                    S a = pick(fa, sz);
                    in.push_back(a.id);
                    noi = noi || a.noisy;
                }
                Line& l = blk(mul ? "mul" : "add", T, sz);
                S y     = add_sig(fa, sz, false, noi);
                l.set("in", in).set("out", y.id).set("p", r.chance(0.5) ? Vec{mul ? 1.0 : 0.0} : ics(fa, sz));
                return;
            }
            case 6:
            {
                if (!o.lib) break;
                S a = pick(fa, sz), b = pick(fa, sz);
                Line& l = blk("sub", T, sz);
                S y     = add_sig(fa, sz, false, noisy({a, b}));
                l.set("in", std::vector<int>{a.id, b.id}).set("out", y.id);
                return;
            }
            case 7:
            {
                if (!o.lib || !o.div) break;
                S a = pick(fa, sz), b = pick(fa, sz, true, true);
                Line& l = blk("div", T, sz);
                S y     = add_sig(fa, sz, false, noisy({a, b}));
                l.set("in", std::vector<int>{a.id, b.id}).set("out", y.id);
                return;
            }
            case 8:
            {
                if (!o.lib) break;
                char c = fa;
                if (o.intbool && r.chance(0.4)) c = r.chance(0.5) ? 'i' : 'b';
                S a     = pick(c, sz);
                Line& l = blk("pipe", std::string(1, c), c == 'a' ? sz : 1);
                S y     = add_sig(c, sz, a.nonzero, a.noisy);
                pool.back().step = a.step;
                l.set("in", a.id).set("out", y.id);
                return;
            }
            case 9:
            case 10:
            {
                if (!o.user) break;
                S a     = pick(fa, sz);
                Line& l = blk("siso", T, sz);
                S y     = add_sig(fa, sz, false, a.noisy);
                l.set("in", a.id).set("out", y.id).set("fn", r.below(5)).set("p", Vec{nz(), coef(), coef()});
                return;
            }
            case 11:
            {
                if (!o.user) break;
                int n = fan();
                std::vector<int> in;
                bool noi = false;
                for (int j = 0; j < n; j++)
                {
                    S a = pick(fa, sz);
                    in.push_back(a.id);
                    noi = noi || a.noisy;
                }
                Line& l = blk("so", T, sz);
                S y     = add_sig(fa, sz, false, noi);
                l.set("in", in).set("out", y.id).set("p", Vec{coef()});
                return;
            }
            case 12:
            {
                if (!o.user) break;
                int f = r.below(6);
                if (f < 3 && !o.intbool) break;
                if (f == 0 && o.smooth) break;
                if (f == 2 && o.smooth) break;
                if (f == 0)
                {
                    S a = pick('s', 1, true), b = pick('s', 1, true);
                    if (a.id == b.id) break;
                    Line& l = blk("f_cmp", "b", 1);
                    l.set("in", std::vector<int>{a.id, b.id}).set("out", add_sig('b', 1).id);
                }
                else if (f == 1)
                {
                    S a = pick('i', 1), b = pick('b', 1);
                    Line& l = blk("f_ib2s", "s", 1);
                    l.set("in", std::vector<int>{a.id, b.id}).set("out", add_sig('s', 1).id);
                }
                else if (f == 2)
                {
                    S a     = pick('s', 1, true);
                    Line& l = blk("f_s2i", "i", 1);
                    l.set("in", a.id).set("out", add_sig('i', 1).id);
                }
                else if (f == 3 && o.array)
                {
                    S a = pick('s', 1), b = pick('s', 1);
                    int z   = sizes[r.below(2)];
                    Line& l = blk("f_pack", "a", z);
                    l.set("in", std::vector<int>{a.id, b.id}).set("out", add_sig('a', z, false, noisy({a, b})).id);
                }
                else if (f == 4 && o.array)
                {
                    int z   = sizes[r.below(2)];
                    S a     = pick('a', z);
                    Line& l = blk("f_dot", "s", z);
                    l.set("in", a.id).set("out", add_sig('s', 1, false, a.noisy).id);
                }
                else if (f == 5)
                {
                    S a = pick('s', 1), b = pick('s', 1);
                    Line& l = blk("f_two", "ss", 1);
                    S x = add_sig('s', 1, false, noisy({a, b})), y = add_sig('s', 1, false, noisy({a, b}));
                    l.set("in", std::vector<int>{a.id, b.id}).set("out", std::vector<int>{x.id, y.id});
                }
                else
                    break;
                return;
            }
            case 13:
            case 14:
            {
                if (!o.mem) break;
                char c = fa;
                if (o.intbool && r.chance(0.4)) c = r.chance(0.5) ? 'i' : 'b';
                S a     = pick(c, sz);
                if (a.step) break;
                Line& l = blk("mem", std::string(1, c), c == 'a' ? sz : 1);
                S y     = add_sig(c, sz, false, a.noisy);
                l.set("in", a.id).set("out", y.id).set("p", ics(c, sz));
                if (c != 'i' && r.chance(0.4)) fb.push_back({plan.lines.size() - 1, 0, c, sz});
                return;
            }
            case 15:
            case 16:
            {
                if (!o.integ) break;
                integ(fa, sz);
                return;
            }
            case 17:
            {
                if (!o.tint) break;
                S a = pick(fa, sz, true), b = pick('b', 1);
                Line& l = blk("tint", T, sz);
                S y     = add_sig(fa, sz);
                l.set("in", std::vector<int>{a.id, b.id}).set("out", y.id).set("p", ics(fa, sz));
                if (r.chance(0.5)) fb.push_back({plan.lines.size() - 1, 0, fa, sz});
                return;
            }
            case 18:
            {
                if (!o.deriv) break;
                S a     = pick(fa, sz, true);
                Line& l = blk("deriv", T, sz);
                S y     = add_sig(fa, sz, false, true);
                l.set("in", a.id).set("out", y.id).set("p", ics(fa, sz));
                return;
            }
            case 19:
            {
                if (!o.delay) break;
                S a      = pick(fa, sz, true);
                double L = 16;
                S d;
                if (r.chance(0.6))
                {
                    // a short lifespan, and a delay that keeps within it
                    L = std::ldexp(1.0, r.range(-4, 2));
                    Vec q{L * r.range(0, 8) / 8};
                    int fn = 3;
                    if (r.chance(0.4)) fn = 0, q = {L / 2, L / 2 * r.range(1, 8) / 8, coef(4), coef()};
                    if (r.chance(0.5) && o.ext)
                    {
                        d = add_sig('s', 1, false);
                        plan.add("ext").set("id", d.id).set("ty", "s").set("fn", fn).set("p", q);
                    }
                    else
                    {
                        Line& l = blk("source", "s", 1);
                        d       = add_sig('s', 1, false);
                        l.set("out", d.id).set("fn", fn).set("p", q);
                    }
                }
                else
                    d = source('s', 1, r.chance(0.5));
                S i = pick(fa, sz, true);
                Line& l = blk("delay", T, sz);
                S y     = add_sig(fa, sz);
                l.set("in", std::vector<int>{a.id, d.id, i.id}).set("out", y.id).set("p", L);
                if (r.chance(0.5)) l.set("fn", r.below(6));
                return;
            }
            case 20:
            {
                if (!o.ival) break;
                S a     = pick(fa, sz);
                Line& l = blk("ival", T, sz);
                S y     = add_sig(fa, sz, false, false);
                l.set("in", a.id).set("out", y.id);
                return;
            }
            default:
            {
                if (r.chance(0.5) ? !o.probe : !o.bus) break;
                if (o.probe && (!o.bus || r.chance(0.5)))
                {
                    std::vector<int> in;
                    bool noi = false;
                    int n    = r.below(4);
                    for (int j = 0; j < n; j++)
                    {
                        S a = r.chance(0.5) || pool.empty() ? pick('s', 1) : r.pick(pool);
                        in.push_back(a.id);
                        noi = noi || a.noisy;
                    }
                    bool out = r.chance(0.7);
                    Line& l  = blk("probe", out ? "s" : "", 1);
                    if (!in.empty()) l.set("in", in);
                    if (out) l.set("out", add_sig('s', 1, false, noi).id);
                    return;
                }
                bus();
                return;
            }
            }
        }
        source(fa, sz);
    }
    void integ(char fa, int sz)
    {
        S a     = pick(fa, sz, true);
        Line& l = blk("integ", std::string(1, fa), fa == 'a' ? sz : 1);
        S y     = add_sig(fa, sz);
        l.set("in", a.id).set("out", y.id).set("p", ics(fa, sz));
        if (r.chance(0.7)) fb.push_back({plan.lines.size() - 1, 0, fa, fa == 'a' ? sz : 1});
    }
    void bus()
    {
        bool mem = r.chance(0.5);
        static const std::vector<std::string> labs{"x", "y", "Z.a", "Z.b", "Z.W.c", "V.x"};
        static const std::vector<std::string> more{"x",     "y",     "Z.a",   "Z.b",     "Z.W.c", "V.x",         "a",
                                                   "b_2",   "Z.W.d", "Z.W.a", "V.Z.W.c", "V.y",   "U.T.S.R.Q.x", "x1",
                                                   "W.x",   "W.y",   "c",     "U.T.x",   "xx",    "Z.ab",        "Z.W.cc",
                                                   "Zz",    "X",     "Z.x",   "V.Z.a"};
        std::vector<std::string> l(wide || r.chance(0.5) ? more : labs);
        int n = wide ? r.range(1, int(l.size())) : r.range(1, 4);
        for (std::size_t k = l.size(); k > 1; k--) std::swap(l[k - 1], l[std::size_t(r.below(int(k)))]);
        l.resize(std::size_t(n));
        std::string tys;
        std::vector<int> in, out;
        Vec p;
        int sz = sizes[r.below(2)];
        std::vector<S> ss;
        for (int k = 0; k < n; k++)
        {
            char c = "siba"[r.below(4)];
            if (!o.intbool && (c == 'i' || c == 'b')) c = 's';
            if (!o.array && c == 'a') c = 's';
            S a = pick(c, sz);
            if (a.step && mem) a = source(c, sz);
            ss.push_back(a);
            in.push_back(a.id);
            tys += c;
        }
        for (auto& a : ss)
        {
            out.push_back(add_sig(a.ty, a.sz, false, a.noisy).id);
            pool.back().step = a.step;
            p.push_back(r.chance(0.5) ? NAN : ics(a.ty, a.sz)[0]);
        }
        Line& ln = blk(mem ? "bmem" : "bpipe", tys, sz);
        ln.set("in", in).set("out", out).set("lab", l).set("fn", r.below(3));
        if (mem) ln.set("p", p);
    }
    void run()
    {
        int n = r.range(o.min_blocks, o.max_blocks);
        if (r.chance(chain ? 0.3 : 0.01)) n = r.range(n, (chain ? 3 : 5) * o.max_blocks);
        if (o.need_integ) integ(o.array && r.chance(0.3) ? 'a' : 's', sizes[0]);
        for (int k = 0; k < n; k++) one();
        bool any = false;
        for (auto& l : plan.lines) any = any || l.key == "blk";
        if (!any) blk("const", "s", 1).set("out", add_sig('s', 1).id).set("p", coef());
        for (auto& f : fb)
        {
            S a       = pick(f.ty, f.sz, true);
            auto in   = plan.lines[f.line].li("in");
            in[f.in]  = a.id;
            plan.lines[f.line].set("in", in);
        }
    }
};
} // namespace

void gen_model(Rng& r, Plan& plan, const GenOpt& o)
{
    GenOpt q = o;
    // swarm: every run leaves out some kinds of blocks
    if (r.chance(0.6))
    {
        for (bool* f : {&q.tint, &q.mem, &q.deriv, &q.delay, &q.ival, &q.array, &q.intbool, &q.bus, &q.div})
            if (r.chance(0.3)) *f = false;
        if (o.focus_mem) q.mem = o.mem;
        if (o.focus_deriv) q.deriv = o.deriv;
        if (o.focus_tint) q.tint = o.tint;
    }
    Gen g(r, plan, q);
    g.run();
    shuffle_order(r, plan);
    for (auto& l : plan.lines)
        if (l.key == "blk" && l.str("ty") == "s" && r.chance(0.1))
            if (auto t = l.str("type"); t == "integ" || t == "tint" || t == "deriv") l.set("p", 0.0); // as by default
    if (o.sole && r.chance(0.02)) // one block is all there is
    {
        std::vector<Line> blks, rest;
        for (auto& l : plan.lines)
        {
            if (l.key == "blk")
                blks.push_back(l);
            else if (l.key != "sub")
                rest.push_back(l);
        }
        blks.erase(std::remove_if(blks.begin(), blks.end(),
                                  [](const Line& l) { return l.str("type") == "bmem" || l.str("type") == "bpipe"; }),
                   blks.end());
        if (o.need_integ)
            blks.erase(std::remove_if(blks.begin(), blks.end(),
                                      [](const Line& l) { return l.str("type") != "integ" && l.str("type") != "tint"; }),
                       blks.end());
        if (blks.empty()) return;
        plan.lines = rest;
        plan.lines.push_back(blks[r.below(int(blks.size()))]);
        plan.cfg().set("sole", 1);
    }
}

void shuffle_order(Rng& r, Plan& plan)
{
    // nesting
    int nsub  = r.chance(0.3) ? 0 : r.range(1, 4);
    bool deep = r.chance(0.04);
    if (deep) nsub = r.chance(0.1) ? r.range(13, 70) : r.range(5, 12);
    for (int k = 0; k < nsub; k++)
    {
        Line& l = plan.add("sub");
        int par = k == 0 ? -1 : deep && r.chance(0.9) ? k - 1 : r.range(-1, k - 1);
        l.set("id", k).set("par", par).set("via", r.below(3));
    }
    std::vector<Line*> blks;
    int n = 0;
    for (auto& l : plan.lines)
        if (l.key == "blk" || l.key == "sub") n++;
    int mode = r.below(5), k = 0;
    for (auto& l : plan.lines)
    {
        if (l.key != "blk" && l.key != "sub") continue;
        int ord = mode == 0 ? k : mode == 1 || mode == 4 ? n - k : r.below(3 * n + 1);
        if (l.key == "sub" && (mode < 2 || mode == 4)) ord = r.below(n + 1);
        l.set("ord", ord);
        k++;
        if (l.key == "blk")
        {
            if (nsub) l.set("par", deep && r.chance(0.5) ? nsub - 1 : r.range(-1, nsub - 1));
            if (r.chance(0.4)) l.set("via", 1);
            if (r.chance(0.3)) l.set("late", 1);
        }
    }
}

} // namespace sim
