// Core of the deterministic simulator: PRNG, plans (= replay files), the simulated heap, verdicts.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim
{

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
    // uniform in [a, b]
    int range(int a, int b) { return a + below(b - a + 1); }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template<typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(int(v.size()))];
    }
};

// ---------------------------------------------------------------- plans
// A plan is a list of lines "key k=v k=v ..."; one plan is one exactly repeatable execution, and the text of a plan
// is the replay file. Everything an execution does is a function of its plan and of the code under test.
struct Line
{
    std::string key;
    std::vector<std::pair<std::string, std::string>> kv;

    bool has(const std::string& k) const;
    std::string str(const std::string& k, const std::string& def = "") const;
    int i(const std::string& k, int def = 0) const;
    uint64_t u(const std::string& k, uint64_t def = 0) const;
    double d(const std::string& k, double def = 0) const;
    std::vector<int> li(const std::string& k) const;
    std::vector<double> ld(const std::string& k) const;
    std::vector<std::string> ls(const std::string& k) const;

    Line& set(const std::string& k, const std::string& v);
    Line& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
    Line& set(const std::string& k, int v) { return set(k, std::to_string(v)); }
    Line& set(const std::string& k, long v) { return set(k, std::to_string(v)); }
    Line& set(const std::string& k, uint64_t v) { return set(k, std::to_string(v)); }
    Line& set(const std::string& k, double v);
    Line& set(const std::string& k, const std::vector<int>& v);
    Line& set(const std::string& k, const std::vector<double>& v);
    Line& set(const std::string& k, const std::vector<std::string>& v);
};

struct Plan
{
    std::vector<Line> lines;

    Line& add(const std::string& key)
    {
        lines.push_back(Line{key, {}});
        return lines.back();
    }
    const Line& cfg() const;
    Line& cfg();
    std::vector<const Line*> all(const std::string& key) const;
    std::string text() const;
    static bool parse(const std::string& text, Plan& out);
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string num(double v);

// ---------------------------------------------------------------- results of one execution (shared memory)
constexpr int MAX_CTR = 96;
enum Status : int
{
    ST_NONE = 0,
    ST_OK,
    ST_VIOLATION,
    ST_INVALID, // the plan means nothing (can only come from minimisation)
    ST_HARNESS, // a bug of the harness
};

struct Shared
{
    int status;
    int nontrivial;
    char cls[64];
    char msg[3000];
    uint64_t hash;  // of everything observed
    uint64_t sched; // of the order of events and faults
    double simtime;
    uint64_t ctr[MAX_CTR];
    uint32_t events;      // number of things observed
    uint32_t trail[1024]; // the hash after each of the first ones
};
extern Shared* g_sh;

int ctr_id(const char* name);
const std::vector<std::string>& ctr_names();
#define COUNT(name)                                                                                                    \
    do                                                                                                                 \
    {                                                                                                                  \
        static const int _id = ::sim::ctr_id(name);                                                                    \
        if (::sim::g_sh) ::sim::g_sh->ctr[_id]++;                                                                      \
    } while (0)
#define COUNTN(name, n)                                                                                                \
    do                                                                                                                 \
    {                                                                                                                  \
        static const int _id = ::sim::ctr_id(name);                                                                    \
        if (::sim::g_sh) ::sim::g_sh->ctr[_id] += (n);                                                                 \
    } while (0)

// first violation wins
void violation(const char* cls, const std::string& msg);
bool failed();
void nontrivial();
void invalid();
void log_u(uint64_t v); // into both hashes
void log_d(double v);   // into the observation hash only
void log_s(const std::string& s);

// ---------------------------------------------------------------- the simulated heap
// While on, allocations of the code under test come from a fixed address range; placement, reuse and the initial
// contents are decided by the plan, freed memory is poisoned, and the ends of blocks are guarded.
void heap_on(uint64_t layout, int fill);
void heap_off();
void heap_fill(int fill); // other initial contents from now on
struct HeapUse
{
    long blocks{0}, bytes{0};
};
HeapUse heap_use(); // what the code under test has in use
void heap_check(); // reports a violation when guards were overwritten
// fail the n-th (1-based) allocation made by the code under test from now on, and the burst-1 ones after it
void fail_arm(long n, long burst);
void fail_disarm();
long fail_fired();
long alloc_count();
// called before every allocation of the code under test on a thread that has set it
extern thread_local void (*t_alloc_yield)();
// called before accesses to the static data of the library, and at each entry of one of its functions, on a thread that
// has set them (where the build instruments them)
extern thread_local void (*t_static_yield)();
extern thread_local void (*t_entry_yield)();
// called instead of blocking on a lock that another simulated thread holds
extern thread_local void (*t_lock_yield)();

// allocations made inside this scope belong to the harness
struct Sys
{
    Sys();
    ~Sys();
    static void enter(); // back inside
    static void leave(); // for calls of the code under test in between
};

// ---------------------------------------------------------------- file faults (see fs.cpp)
struct FsFault
{
    long after_bytes{-1};  // the write that would pass this many bytes fails
    int err{0};            // with this errno
    int short_every{0};    // every n-th write is cut short
    int eintr_every{0};    // every n-th write is interrupted
    bool fail_close{false};
    int open_err{0};
};
void fs_arm(const FsFault& f);
void fs_disarm();
long fs_writes();
long fs_fired();

// ---------------------------------------------------------------- properties
struct Prop
{
    const char* id;
    Plan (*gen)(Rng&, int tier);
    void (*exec)(const Plan&);
};
const Prop* find_prop(const std::string& id);
struct PropReg
{
    explicit PropReg(const Prop& p);
};

std::string scratch_dir(); // of this run; removed when it has ended
Shared run_isolated(const Prop& p, const Plan& plan, double cpu_seconds);

} // namespace sim
