// gen PROP SEED                 print the plan of one seed
// exec PROP FILE                execute a plan (a replay file); exit 0 ok, 1 violation
// batch PROP SEED WORKER NWORKERS RUNS TIER SECONDS OUTDIR
// minimise PROP IN OUT SECONDS
// serve PROP                    execute plans read from standard input (for the process of the other build)
#include "core.hpp"

#include <algorithm>
#include <chrono>
#include <fstream>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static std::string slurp(const char* p)
{
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += char(c);
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126)
            r += fmt("\\u%04x", c);
        else
            r += char(c);
    }
    return r + "\"";
}
static constexpr double CPU = 30;

static uint64_t run_seed(const Prop& p, uint64_t seed, long k)
{
    uint64_t h = mix64(seed);
    for (const char* c = p.id; *c; c++) h = mix64(h ^ uint64_t(*c));
    return mix64(h ^ mix64(uint64_t(k)));
}

// ---------------------------------------------------------------- the other build
// C23: the same run in both builds. The others of these: some of the runs without debug checks.
static bool twin_runs(const Prop& p)
{
    for (auto* id : {"C14", "C15", "C16", "C18", "C22"})
        if (std::string(p.id) == id) return true;
    return false;
}
static Plan make_plan(const Prop& p, uint64_t seed, long k, int tier)
{
    Rng r(run_seed(p, seed, k));
    Plan plan = p.gen(r, tier);
    if (twin_runs(p) && r.chance(0.2)) plan.cfg().set("build", "release");
    // the names of blocks are put together in each call: deeply nested models are slow and get fewer steps
    long deep = 0;
    for (auto& l : plan.lines) deep += l.key == "sub";
    if (deep > 20)
    {
        if (plan.cfg().i("steps") > 300) plan.cfg().set("steps", std::max<long>(300, plan.cfg().i("steps") * 15 / deep));
        double mx = plan.cfg().d("mx", 1);
        for (auto& l : plan.lines)
            if (l.has("mn") && l.d("mn") < 1.0 / 32 && l.d("mx", mx) > 1.0 / 16) l.set("mn", 1.0 / 32);
    }
    return plan;
}
static bool send_all(int fd, const void* p, std::size_t n)
{
    auto* c = static_cast<const char*>(p);
    while (n > 0)
    {
        ssize_t k = write(fd, c, n);
        if (k <= 0 && errno != EINTR) return false;
        if (k > 0) c += k, n -= std::size_t(k);
    }
    return true;
}
static bool recv_all(int fd, void* p, std::size_t n)
{
    auto* c = static_cast<char*>(p);
    while (n > 0)
    {
        ssize_t k = read(fd, c, n);
        if (k == 0 || (k < 0 && errno != EINTR)) return false;
        if (k > 0) c += k, n -= std::size_t(k);
    }
    return true;
}
static int serve(const Prop& p)
{
    // the code under test prints to standard output; answers go elsewhere
    int out = dup(1), null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    for (;;)
    {
        uint64_t n;
        if (!recv_all(0, &n, sizeof n)) return 0;
        std::string text(n, 0);
        Plan plan;
        Shared s = {};
        if (!recv_all(0, text.data(), n)) return 0;
        if (Plan::parse(text, plan))
            s = run_isolated(p, plan, CPU);
        else
            s.status = ST_INVALID;
        if (!send_all(out, &s, sizeof s)) return 0;
    }
}
static Shared run_twin(const Prop& p, const Plan& plan)
{
    static int to = -1, from = -1;
    Shared s = {};
    s.status = ST_HARNESS;
    if (to < 0)
    {
        const char* path = getenv("SIM_TWIN");
        int a[2], b[2];
        if (!path || pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
        {
            snprintf(s.msg, sizeof s.msg, "SIM_TWIN does not name the simulator of the other build");
            return s;
        }
        signal(SIGPIPE, SIG_IGN);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            dup2(a[0], 0);
            dup2(b[1], 1);
            unsetenv("SIM_NO_REEXEC");
            execl(path, path, "serve", p.id, "-", static_cast<char*>(nullptr));
            _exit(4);
        }
        close(a[0]);
        close(b[1]);
        to   = a[1];
        from = b[0];
    }
    std::string text = plan.text();
    uint64_t n       = text.size();
    if (!send_all(to, &n, sizeof n) || !send_all(to, text.data(), n) || !recv_all(from, &s, sizeof s))
    {
        s        = {};
        s.status = ST_HARNESS;
        snprintf(s.msg, sizeof s.msg, "the simulator of the other build does not answer");
    }
    return s;
}
// in the debug build, or in the release build, or for C23 in both
static Shared run_all(const Prop& p, const Plan& plan, double cpu)
{
    if (twin_runs(p) && getenv("SIM_TWIN") && !plan.lines.empty() && plan.lines[0].str("build") == "release")
    {
        static const int id = ctr_id("runs without debug checks");
        Shared s            = run_twin(p, plan);
        memset(s.ctr, 0, sizeof s.ctr); // (numbered otherwise)
        s.ctr[id] = 1;
        return s;
    }
    Shared s = run_isolated(p, plan, cpu);
    if (std::string(p.id) != "C23" || (s.status != ST_OK && s.status != ST_VIOLATION)) return s;
    Shared t = run_twin(p, plan);
    if (t.status == ST_HARNESS || t.status == ST_INVALID) return t;
    auto verdict = [&](const char* cls, const std::string& msg) {
        s.status = ST_VIOLATION;
        snprintf(s.cls, sizeof s.cls, "%s", cls);
        snprintf(s.msg, sizeof s.msg, "%s", msg.c_str());
    };
    if (s.status == ST_VIOLATION && t.status == ST_VIOLATION)
    {
        // both alike wrong: not a matter of the build
        s.status     = ST_OK;
        s.nontrivial = 0;
        s.cls[0] = s.msg[0] = 0;
        s.hash = s.sched = 0;
    }
    else if (t.status == ST_VIOLATION)
        verdict("release", fmt("as it should be with debug checks, but without them (%s): ", t.cls) + t.msg);
    else if (s.status == ST_VIOLATION)
        verdict("debug", fmt("as it should be without debug checks, but with them (%s): ", s.cls) + s.msg);
    else if (s.hash != t.hash)
    {
        uint32_t k = 0, n = std::min(s.events, t.events);
        while (k < n && k < sizeof s.trail / sizeof *s.trail && s.trail[k] == t.trail[k]) k++;
        verdict("differs", fmt("event %u of the run (of %u with, %u without debug checks) is not the same in the two builds", k + 1, s.events, t.events));
    }
    return s;
}

static int do_exec(const Prop& p, const char* file)
{
    Plan plan;
    if (!Plan::parse(slurp(file), plan)) return 3;
    Shared r = run_all(p, plan, CPU);
    printf("status=%d class=%s hash=%016lx sched=%016lx\n", r.status, r.cls, r.hash, r.sched);
    if (r.status == ST_VIOLATION) printf("%s\n", r.msg);
    if (r.status == ST_HARNESS) printf("harness error: %s\n", r.msg);
    return r.status == ST_OK ? 0 : r.status == ST_VIOLATION ? 1 : r.status == ST_INVALID ? 2 : 4;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser
{
    const Prop& p;
    std::string cls;
    double deadline;
    long tries{0};
    bool bad(const Plan& q)
    {
        if (now() > deadline) return false;
        tries++;
        Shared r = run_all(p, q, cls == "hang" ? 4 : CPU);
        return r.status == ST_VIOLATION && cls == r.cls;
    }
    Plan run(Plan cur)
    {
        bool again = true;
        for (int round = 0; again && round < 6 && now() < deadline; round++)
        {
            again = false;
            // chunks of lines
            for (std::size_t chunk = std::max<std::size_t>(1, cur.lines.size() / 2); chunk >= 1; chunk /= 2)
            {
                for (std::size_t a = 0; a < cur.lines.size();)
                {
                    Plan q;
                    bool any = false;
                    for (std::size_t k = 0; k < cur.lines.size(); k++)
                    {
                        if (k >= a && k < a + chunk && cur.lines[k].key != "cfg")
                        {
                            any = true;
                            continue;
                        }
                        q.lines.push_back(cur.lines[k]);
                    }
                    if (any && bad(q))
                    {
                        cur   = q;
                        again = true;
                    }
                    else
                        a += chunk;
                }
                if (chunk == 1) break;
            }
            // parameters: drop, then simplify
            for (std::size_t k = 0; k < cur.lines.size(); k++)
            {
                for (std::size_t j = cur.lines[k].kv.size(); j-- > 0;)
                {
                    const auto kv = cur.lines[k].kv[j];
                    if (kv.first == "id" || kv.first == "type" || kv.first == "ty") continue;
                    Plan q = cur;
                    q.lines[k].kv.erase(q.lines[k].kv.begin() + long(j));
                    if (kv.first != "t" && kv.first != "in" && kv.first != "out" && bad(q))
                    {
                        cur   = q;
                        again = true;
                        continue;
                    }
                    // single numbers: smaller or rounder
                    if (kv.second.find(',') != std::string::npos || kv.first == "in" || kv.first == "out") continue;
                    char* e;
                    double v = strtod(kv.second.c_str(), &e);
                    if (*e || kv.second.empty()) continue;
                    for (double w : {0.0, 1.0, std::floor(v), std::floor(v / 2), v / 2})
                    {
                        if (w == v || std::abs(w) > std::abs(v)) continue;
                        Plan z = cur;
                        z.lines[k].set(kv.first, num(w));
                        if (bad(z))
                        {
                            cur   = z;
                            again = true;
                            break;
                        }
                    }
                }
            }
        }
        return cur;
    }
};

int main(int argc, char** argv)
{
    // the same addresses in every process
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC"))
    {
        if (personality(unsigned(per) | ADDR_NO_RANDOMIZE) >= 0)
        {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    if (argc < 4) return 3;
    std::string cmd = argv[1];
    const Prop* p   = find_prop(argv[2]);
    if (!p)
    {
        fprintf(stderr, "unknown property %s\n", argv[2]);
        return 3;
    }
    if (cmd == "gen")
    {
        fputs(make_plan(*p, argc > 4 ? strtoull(argv[4], nullptr, 10) : 1, atol(argv[3]), 0).text().c_str(), stdout);
        return 0;
    }
    if (cmd == "serve") return serve(*p);
    if (cmd == "exec") return do_exec(*p, argv[3]);
    if (cmd == "minimise")
    {
        Plan plan;
        if (!Plan::parse(slurp(argv[3]), plan)) return 3;
        Shared r = run_all(*p, plan, CPU);
        if (r.status != ST_VIOLATION) return 3;
        Minimiser m{*p, r.cls, now() + atof(argv[5])};
        Plan q = m.run(plan);
        r      = run_all(*p, q, CPU);
        std::ofstream f(argv[4]);
        f << "# property " << p->id << ", " << r.cls << ": ";
        for (char* c = r.msg; *c; c++) f << (*c == '\n' ? ' ' : *c);
        f << "\n" << q.text();
        printf("%ld tries, %zu -> %zu lines\n", m.tries, plan.lines.size(), q.lines.size());
        return 0;
    }
    if (cmd == "batch")
    {
        uint64_t seed  = strtoull(argv[3], nullptr, 10);
        int worker = atoi(argv[4]), nw = atoi(argv[5]);
        long runs = atol(argv[6]);
        int tier  = atoi(argv[7]);
        double deadline = now() + atof(argv[8]);
        std::string dir = argv[9];
        std::unordered_set<uint64_t> hashes, scheds;
        std::map<std::string, int> seen;
        long n = 0, nontriv = 0, nviol = 0, nharness = 0, ninvalid = 0, ndet = 0, nondet = 0;
        double simtime = 0;
        uint64_t ctr[MAX_CTR] = {};
        std::string viols, samples;
        std::string herr;
        double first_viol = 0;
        const double slow = getenv("SIM_SLOW") ? atof(getenv("SIM_SLOW")) : 0;
        for (long k = worker; k < runs; k += nw)
        {
            if (now() > deadline) break;
            Plan plan = make_plan(*p, seed, k, tier);
            double began = now();
            Shared s     = run_all(*p, plan, CPU);
            if (slow > 0 && now() - began > slow) fprintf(stderr, "run %ld took %.1f s\n", k, now() - began);
            n++;
            for (int c = 0; c < MAX_CTR; c++) ctr[c] += s.ctr[c];
            simtime += s.simtime;
            if (s.nontrivial)
            {
                if (hashes.insert(s.hash).second) nontriv++;
                scheds.insert(s.sched);
            }
            if (s.status == ST_HARNESS)
            {
                nharness++;
                if (herr.empty()) herr = fmt("run %ld: %s", k, s.msg);
            }
            if (s.status == ST_INVALID)
            {
                ninvalid++;
                if (herr.empty()) herr = fmt("run %ld: invalid plan generated", k);
            }
            if (s.status == ST_OK && (n % 24 == 1))
            {
                Shared s2 = run_all(*p, plan, CPU);
                ndet++;
                if (s2.status != s.status || s2.hash != s.hash || s2.sched != s.sched)
                {
                    nondet++;
                    if (herr.empty()) herr = fmt("run %ld does not repeat", k);
                }
            }
            if (s.status == ST_OK && s.nontrivial && samples.empty() && worker == 0) samples = plan.text();
            if (s.status == ST_VIOLATION)
            {
                nviol++;
                if (seen[s.cls]++ < 3)
                {
                    auto path = dir + fmt("/v-%ld.plan", k);
                    std::ofstream f(path);
                    f << plan.text();
                    viols += fmt("%s{\"run\": %ld, \"class\": ", viols.empty() ? "" : ", ", k) + jstr(s.cls) +
                             ", \"hash\": " + jstr(fmt("%016lx", s.hash)) + ", \"path\": " + jstr(path) +
                             ", \"msg\": " + jstr(s.msg) + "}";
                }
                // enough is known; hangs are slow
                if (first_viol == 0) first_viol = now();
                if (nviol >= 40 || now() - first_viol > 15 || getenv("SIM_FIRST")) break;
            }
        }
        std::ofstream hf(dir + fmt("/h-%d.bin", worker), std::ios::binary);
        for (uint64_t h : hashes) hf.write((const char*)&h, 8);
        std::ofstream sf(dir + fmt("/s-%d.bin", worker), std::ios::binary);
        for (uint64_t h : scheds) sf.write((const char*)&h, 8);
        std::ofstream jf(dir + fmt("/r-%d.json", worker));
        jf << "{\"runs\": " << n << ", \"nontrivial\": " << nontriv << ", \"violations\": " << nviol
           << ", \"harness_errors\": " << nharness << ", \"invalid\": " << ninvalid << ", \"repeated\": " << ndet
           << ", \"diverged\": " << nondet << ", \"simtime\": " << fmt("%.6g", simtime) << ", \"error\": " << jstr(herr)
           << ", \"sample\": " << jstr(samples) << ", \"viol\": [" << viols << "], \"counters\": {";
        bool first = true;
        auto names = ctr_names();
        for (std::size_t c = 0; c < names.size(); c++)
        {
            jf << (first ? "" : ", ") << jstr(names[c]) << ": " << ctr[c];
            first = false;
        }
        jf << "}}\n";
        return 0;
    }
    return 3;
}
