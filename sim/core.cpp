#include "core.hpp"

#include <pthread.h>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <new>
#include <sstream>
#include <sys/single_threaded.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{

Shared* g_sh = nullptr;

std::string fmt(const char* f, ...)
{
    char buf[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

std::string num(double v)
{
    char buf[40];
    for (int prec = 1; prec <= 17; prec++)
    {
        snprintf(buf, sizeof buf, "%.*g", prec, v);
        if (strtod(buf, nullptr) == v) break;
    }
    return buf;
}

// ---------------------------------------------------------------- plans
bool Line::has(const std::string& k) const
{
    for (auto& p : kv)
        if (p.first == k) return true;
    return false;
}
std::string Line::str(const std::string& k, const std::string& def) const
{
    for (auto& p : kv)
        if (p.first == k) return p.second;
    return def;
}
int Line::i(const std::string& k, int def) const
{
    auto s = str(k);
    return s.empty() ? def : int(strtol(s.c_str(), nullptr, 10));
}
uint64_t Line::u(const std::string& k, uint64_t def) const
{
    auto s = str(k);
    return s.empty() ? def : strtoull(s.c_str(), nullptr, 10);
}
double Line::d(const std::string& k, double def) const
{
    auto s = str(k);
    return s.empty() ? def : strtod(s.c_str(), nullptr);
}
std::vector<std::string> Line::ls(const std::string& k) const
{
    std::vector<std::string> r;
    auto s = str(k);
    if (s.empty()) return r;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, ',')) r.push_back(x);
    return r;
}
std::vector<int> Line::li(const std::string& k) const
{
    std::vector<int> r;
    for (auto& x : ls(k)) r.push_back(int(strtol(x.c_str(), nullptr, 10)));
    return r;
}
std::vector<double> Line::ld(const std::string& k) const
{
    std::vector<double> r;
    for (auto& x : ls(k)) r.push_back(strtod(x.c_str(), nullptr));
    return r;
}
Line& Line::set(const std::string& k, const std::string& v)
{
    for (auto& p : kv)
        if (p.first == k)
        {
            p.second = v;
            return *this;
        }
    kv.emplace_back(k, v);
    return *this;
}
Line& Line::set(const std::string& k, double v) { return set(k, num(v)); }
template<typename V, typename F>
static std::string join(const V& v, F f)
{
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : ",") + f(x);
    return s;
}
Line& Line::set(const std::string& k, const std::vector<int>& v)
{
    return set(k, join(v, [](int x) { return std::to_string(x); }));
}
Line& Line::set(const std::string& k, const std::vector<double>& v)
{
    return set(k, join(v, [](double x) { return num(x); }));
}
Line& Line::set(const std::string& k, const std::vector<std::string>& v)
{
    return set(k, join(v, [](const std::string& x) { return x; }));
}

const Line& Plan::cfg() const
{
    for (auto& l : lines)
        if (l.key == "cfg") return l;
    static const Line empty{"cfg", {}};
    return empty;
}
Line& Plan::cfg()
{
    for (auto& l : lines)
        if (l.key == "cfg") return l;
    return add("cfg");
}
std::vector<const Line*> Plan::all(const std::string& key) const
{
    std::vector<const Line*> r;
    for (auto& l : lines)
        if (l.key == key) r.push_back(&l);
    return r;
}
std::string Plan::text() const
{
    std::string s;
    for (auto& l : lines)
    {
        s += l.key;
        for (auto& p : l.kv) s += " " + p.first + "=" + p.second;
        s += "\n";
    }
    return s;
}
bool Plan::parse(const std::string& text, Plan& out)
{
    std::stringstream ss(text);
    std::string line;
    while (std::getline(ss, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::stringstream ls(line);
        std::string w;
        ls >> w;
        Line& l = out.add(w);
        while (ls >> w)
        {
            auto p = w.find('=');
            if (p == std::string::npos) return false;
            l.kv.emplace_back(w.substr(0, p), w.substr(p + 1));
        }
    }
    return !out.lines.empty();
}

// ---------------------------------------------------------------- results
static std::vector<std::string>& names()
{
    static std::vector<std::string> v;
    return v;
}
const std::vector<std::string>& ctr_names() { return names(); }
// counters are numbered in a table shared by parent and child: names are registered on first use in the child, so the
// table itself lives in shared memory
struct CtrTable
{
    int n;
    char name[MAX_CTR][72];
};
static CtrTable* g_ct = nullptr;
int ctr_id(const char* name)
{
    if (!g_ct) return 0;
    for (int k = 0; k < g_ct->n; k++)
        if (!strncmp(g_ct->name[k], name, 71)) return k;
    if (g_ct->n >= MAX_CTR) return MAX_CTR - 1;
    snprintf(g_ct->name[g_ct->n], 72, "%s", name);
    return g_ct->n++;
}
void ctr_sync()
{
    Sys s;
    names().clear();
    for (int k = 0; g_ct && k < g_ct->n; k++) names().push_back(g_ct->name[k]);
}

static bool g_failed = false;
void violation(const char* cls, const std::string& msg)
{
    Sys s;
    if (!g_sh || g_failed) return;
    g_failed     = true;
    g_sh->status = ST_VIOLATION;
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
}
bool failed() { return g_failed; }
void nontrivial()
{
    if (g_sh) g_sh->nontrivial = 1;
}
void invalid()
{
    if (g_sh && !g_failed) g_sh->status = ST_INVALID;
    g_failed = true;
}
static inline void fnv(uint64_t& h, uint64_t v) { h = mix64(h ^ v) + 0x632BE59BD9B4E019ull; }
static inline void mark()
{
    if (g_sh->events < sizeof g_sh->trail / sizeof *g_sh->trail) g_sh->trail[g_sh->events] = uint32_t(g_sh->hash >> 32);
    g_sh->events++;
}
void log_u(uint64_t v)
{
    fnv(g_sh->hash, v);
    fnv(g_sh->sched, v);
    mark();
}
void log_d(double v)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    fnv(g_sh->hash, u);
    mark();
}
void log_s(const std::string& s)
{
    for (unsigned char c : s) fnv(g_sh->hash, c);
}

// ---------------------------------------------------------------- the simulated heap
static constexpr uintptr_t HEAP_BASE = 0x510000000000ull;
static constexpr size_t REGION       = size_t(1) << 27;
static constexpr int NREG            = 8;
static constexpr size_t HEAP_SIZE    = REGION * NREG;
static constexpr uint32_t LIVE = 0x51A11E0Du, DEAD = 0xDEADB10Cu;
static constexpr int NCLS = 256; // classes of 16 bytes

struct Head
{
    uint32_t magic;
    uint32_t cls; // payload size / 16
    uint64_t size;
};

static bool heap_mapped = false;
static bool heap_active = false;
static uintptr_t bump[NREG];
static Head* freelist[NCLS + 64]; // by class; larger blocks by power of two
static inline int bucket(size_t cls) { return cls < NCLS ? int(cls) : NCLS + 63 - __builtin_clzll(cls); }
static uint64_t lay_state;
static unsigned char fill_byte;
static const char* heap_bad = nullptr;
static HeapUse in_use;
HeapUse heap_use() { return in_use; }
static long n_alloc = 0, fail_at = 0, fail_burst = 0, n_fail = 0;
static thread_local int sys_depth = 0;

thread_local void (*t_alloc_yield)() = nullptr;
thread_local void (*t_lock_yield)()  = nullptr;
thread_local void (*t_static_yield)() = nullptr;
thread_local void (*t_entry_yield)()  = nullptr;
static thread_local int guard_depth  = 0; // inside the initialization of a function-local static
Sys::Sys() { sys_depth++; }
Sys::~Sys() { sys_depth--; }
void Sys::enter() { sys_depth++; }
void Sys::leave() { sys_depth--; }

static uint64_t lay_next()
{
    lay_state += 0x9E3779B97F4A7C15ull;
    return mix64(lay_state);
}
static inline bool in_heap(const void* p)
{
    auto a = uintptr_t(p);
    return a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE;
}

void heap_on(uint64_t layout, int fill)
{
    if (!heap_mapped)
    {
        void* p = mmap((void*)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)HEAP_BASE)
        {
            fprintf(stderr, "cannot map the simulated heap\n");
            _exit(4);
        }
        heap_mapped = true;
    }
    lay_state = layout;
    heap_fill(fill);
    for (int k = 0; k < NREG; k++) bump[k] = HEAP_BASE + REGION * k + 64 * (1 + lay_next() % 64);
    heap_active = true;
}
void heap_fill(int fill)
{
    static const unsigned char fills[] = {0xCB, 0xFF, 0x00, 0x7F, 0x3F};
    fill_byte                          = fills[unsigned(fill) % 5];
}
void heap_off() { heap_active = false; }

static bool alloc_fails()
{
    if (t_alloc_yield && !guard_depth) t_alloc_yield();
    n_alloc++;
    if (fail_at > 0 && n_alloc >= fail_at && n_alloc < fail_at + fail_burst)
    {
        n_fail++;
        return true;
    }
    return false;
}
void fail_arm(long n, long burst)
{
    n_alloc    = 0;
    n_fail     = 0;
    fail_at    = n;
    fail_burst = burst;
}
void fail_disarm() { fail_at = 0; }
long fail_fired() { return n_fail; }
long alloc_count() { return n_alloc; }

static void* heap_alloc(size_t size)
{
    size_t cls = (size + 15) / 16;
    if (cls == 0) cls = 1;
    if (cls >= NCLS && (cls & (cls - 1))) cls = size_t(1) << (64 - __builtin_clzll(cls));
    int bkt    = bucket(cls);
    Head* h    = nullptr;
    uint64_t r = lay_next();
    bool tight = bump[(r >> 8) % NREG] > HEAP_BASE + REGION * ((r >> 8) % NREG) + REGION / 4;
    if (freelist[bkt] && ((r & 3) || tight))
    {
        h             = freelist[bkt];
        freelist[bkt] = *(Head**)(h + 1);
    }
    else
    {
        int reg      = int((r >> 8) % NREG);
        size_t total = sizeof(Head) + cls * 16 + 16;
        if (cls * 16 > REGION) return nullptr;
        bump[reg] += 16 * ((r >> 16) % 4);
        h = (Head*)bump[reg];
        bump[reg] += total;
        if (bump[reg] > HEAP_BASE + REGION * (reg + 1)) return nullptr;
    }
    h->magic = LIVE;
    h->cls   = uint32_t(cls);
    h->size  = size;
    auto* p  = (unsigned char*)(h + 1);
    memset(p, fill_byte, cls * 16);
    memset(p + size, 0xA5, cls * 16 + 16 - size);
    in_use.blocks++;
    in_use.bytes += long(size);
    return p;
}
static void heap_free(void* q)
{
    auto* h = (Head*)q - 1;
    if (h->magic != LIVE)
    {
        heap_bad = h->magic == DEAD ? "double free" : "free of an invalid pointer or underrun of a heap block";
        return;
    }
    auto* p = (unsigned char*)q;
    for (size_t k = h->size; k < size_t(h->cls) * 16 + 16; k++)
        if (p[k] != 0xA5)
        {
            heap_bad = "write past the end of a heap block";
            break;
        }
    in_use.blocks--;
    in_use.bytes -= long(h->size);
    memset(p, 0xDD, size_t(h->cls) * 16);
    h->magic = DEAD;
    *(Head**)(h + 1)        = freelist[bucket(h->cls)];
    freelist[bucket(h->cls)] = h;
}
void heap_check()
{
    if (heap_bad) violation("heap", fmt("heap corruption: %s", heap_bad));
}

} // namespace sim

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void __real_free(void*);

    void* __wrap_malloc(size_t n)
    {
        if (!sim::heap_active || sim::sys_depth) return __real_malloc(n);
        if (sim::alloc_fails())
        {
            errno = ENOMEM;
            return nullptr;
        }
        return sim::heap_alloc(n);
    }
    void* __wrap_calloc(size_t a, size_t b)
    {
        void* p = __wrap_malloc(a * b);
        if (p) memset(p, 0, a * b);
        return p;
    }
    void __wrap_free(void* p)
    {
        if (sim::in_heap(p))
            sim::heap_free(p);
        else
            __real_free(p);
    }
    void* __wrap_realloc(void* p, size_t n)
    {
        if (!p) return __wrap_malloc(n);
        if (!sim::in_heap(p)) return __real_realloc(p, n);
        if (n == 0)
        {
            __wrap_free(p);
            return nullptr;
        }
        void* q = __wrap_malloc(n);
        if (!q) return nullptr;
        size_t old = ((sim::Head*)p - 1)->size;
        memcpy(q, p, old < n ? old : n);
        __wrap_free(p);
        return q;
    }
}

// Locks are scheduling points too: a simulated thread that finds a lock taken hands control on instead of blocking.
extern "C"
{
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
    int __real___cxa_guard_acquire(void*);
    void __real___cxa_guard_release(void*);
    void __real___cxa_guard_abort(void*);

#define LOCK(name, type, attempt)                                                                                      \
    int __wrap_##name(type* m)                                                                                         \
    {                                                                                                                  \
        if (!sim::t_lock_yield || sim::sys_depth || sim::guard_depth) return __real_##name(m);                         \
        for (;;)                                                                                                       \
        {                                                                                                              \
            int rc = attempt(m);                                                                                       \
            if (rc != EBUSY) return rc;                                                                                \
            sim::t_lock_yield();                                                                                       \
        }                                                                                                              \
    }
    LOCK(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
    LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
    LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)

    int __wrap___cxa_guard_acquire(void* g)
    {
        int rc = __real___cxa_guard_acquire(g);
        if (rc) sim::guard_depth++;
        return rc;
    }
    void __wrap___cxa_guard_release(void* g)
    {
        sim::guard_depth--;
        __real___cxa_guard_release(g);
    }
    void __wrap___cxa_guard_abort(void* g)
    {
        sim::guard_depth--;
        __real___cxa_guard_abort(g);
    }
}

// ---------------------------------------------------------------- instrumentation
// One build has the library compiled with -fsanitize=thread, but with the functions below instead of that sanitizer's.
extern "C"
{
    extern char __data_start[], _end[];
    int __real_pthread_once(pthread_once_t*, void (*)());
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        // no switching inside: another thread would wait for this one
        sim::guard_depth++;
        struct G
        {
            ~G() { sim::guard_depth--; }
        } g;
        return __real_pthread_once(o, f);
    }
}
namespace
{
inline bool is_static(const volatile void* p)
{
    if (uintptr_t(p) - uintptr_t(__data_start) >= uintptr_t(_end) - uintptr_t(__data_start)) return false;
    // not the library's
    return p != &__libc_single_threaded && p != &sim::g_sh;
}
inline void touch(const volatile void* p)
{
    if (sim::t_static_yield && is_static(p) && !sim::sys_depth && !sim::guard_depth) sim::t_static_yield();
}
// A thread that does nothing but look at an atomic variable waits for another one.
thread_local long spins = 0;
inline void touch_atomic(const volatile void* p)
{
    touch(p);
    if (!sim::t_lock_yield || sim::sys_depth || sim::guard_depth) return;
    if (++spins > 2000)
    {
        spins = 0;
        sim::t_lock_yield();
    }
}
} // namespace
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*)
    {
        if (!sim::t_entry_yield) return;
        if (!sim::sys_depth && !sim::guard_depth) sim::t_entry_yield();
    }
    void __tsan_func_exit() { spins = 0; }
    void __tsan_vptr_update(void** p, void*) { touch(p); }
    void __tsan_vptr_read(void** p) { touch(p); }
#define ACC(n)                                                                                                         \
    void __tsan_read##n(void* p) { touch(p); }                                                                         \
    void __tsan_write##n(void* p) { touch(p); }                                                                        \
    void __tsan_unaligned_read##n(void* p) { touch(p); }                                                               \
    void __tsan_unaligned_write##n(void* p) { touch(p); }                                                              \
    void __tsan_volatile_read##n(void* p) { touch(p); }                                                                \
    void __tsan_volatile_write##n(void* p) { touch(p); }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
    void __tsan_read_range(void* p, unsigned long) { touch(p); }
    void __tsan_write_range(void* p, unsigned long) { touch(p); }
#define RMW(n, T, op)                                                                                                  \
    T __tsan_atomic##n##_##op(volatile T* p, T v, int)                                                                 \
    {                                                                                                                  \
        touch_atomic(p);                                                                                               \
        return __atomic_##op(p, v, __ATOMIC_SEQ_CST);                                                                  \
    }
#define ATO(n, T)                                                                                                      \
    T __tsan_atomic##n##_load(const volatile T* p, int)                                                                \
    {                                                                                                                  \
        touch_atomic(p);                                                                                               \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##n##_store(volatile T* p, T v, int)                                                             \
    {                                                                                                                  \
        touch_atomic(p);                                                                                               \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int)                                                             \
    {                                                                                                                  \
        touch_atomic(p);                                                                                               \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    RMW(n, T, fetch_add) RMW(n, T, fetch_sub) RMW(n, T, fetch_and) RMW(n, T, fetch_or) RMW(n, T, fetch_xor)            \
    RMW(n, T, fetch_nand)                                                                                              \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int)                                 \
    {                                                                                                                  \
        touch_atomic(p);                                                                                               \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int)                                   \
    {                                                                                                                  \
        touch_atomic(p);                                                                                               \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }
    ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    void __tsan_atomic_signal_fence(int) {}
}

static void* new_impl(size_t n)
{
    using namespace sim;
    if (!heap_active || sys_depth)
    {
        void* p = __real_malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    if (alloc_fails()) throw std::bad_alloc();
    void* p = heap_alloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return new_impl(n); }
void* operator new[](size_t n) { return new_impl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return new_impl(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

namespace sim
{

// ---------------------------------------------------------------- isolated execution
static std::map<std::string, Prop>& props()
{
    static std::map<std::string, Prop> m;
    return m;
}
PropReg::PropReg(const Prop& p) { props().emplace(p.id, p); }
const Prop* find_prop(const std::string& id)
{
    auto it = props().find(id);
    return it == props().end() ? nullptr : &it->second;
}

static Shared* shared_page()
{
    static Shared* sh = nullptr;
    if (!sh)
    {
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_ct =
            (CtrTable*)mmap(nullptr, sizeof(CtrTable), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    return sh;
}

// One directory per worker process, made by the run that needs it and removed by the worker after the run.
static std::string scratch_path(pid_t worker) { return "/tmp/psim." + std::to_string(worker); }
static bool* g_scratch = nullptr; // shared with the runs
std::string scratch_dir()
{
    std::string d = scratch_path(getppid());
    if (mkdir(d.c_str(), 0700) != 0 && errno != EEXIST)
    {
        perror("mkdir");
        _exit(4);
    }
    if (g_scratch) *g_scratch = true;
    return d;
}
static void scratch_remove()
{
    if (!g_scratch || !*g_scratch) return;
    *g_scratch    = false;
    std::string d = scratch_path(getpid());
    if (DIR* dir = opendir(d.c_str()))
    {
        while (auto* e = readdir(dir))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((d + "/" + e->d_name).c_str());
        closedir(dir);
    }
    rmdir(d.c_str());
}

Shared run_isolated(const Prop& p, const Plan& plan, double cpu_seconds)
{
    Shared* sh = shared_page();
    memset(sh, 0, sizeof *sh);
    if (!g_scratch)
        g_scratch = (bool*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0)
    {
        perror("fork");
        exit(4);
    }
    if (pid == 0)
    {
        g_sh = sh;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        struct itimerval tv = {};
        tv.it_value.tv_sec  = long(cpu_seconds);
        tv.it_value.tv_usec = long((cpu_seconds - long(cpu_seconds)) * 1e6);
        setitimer(ITIMER_PROF, &tv, nullptr);
        tv.it_value.tv_sec  = long(cpu_seconds) * 5; // blocked forever
        tv.it_value.tv_usec = 0;
        setitimer(ITIMER_REAL, &tv, nullptr);
        rl = {size_t(3) << 30, size_t(3) << 30};
        setrlimit(RLIMIT_AS, &rl);
        try
        {
            p.exec(plan);
            heap_off();
            if (!g_failed) heap_check();
        }
        catch (const std::exception& e)
        {
            heap_off();
            violation("escaped-exception", fmt("an exception nobody expected: %.1500s", e.what()));
        }
        heap_off();
        if (sh->status == ST_NONE) sh->status = ST_OK;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st))
    {
        int sig = WTERMSIG(st);
        if (sig == SIGKILL)
        {
            sh->status = ST_HARNESS;
            snprintf(sh->msg, sizeof sh->msg, "killed by SIGKILL");
        }
        else
        {
            // a crash during a run beats a violation already seen: the run did not end
            if (sh->status != ST_VIOLATION)
            {
                sh->status = ST_VIOLATION;
                snprintf(sh->cls, sizeof sh->cls, "%s", sig == SIGPROF || sig == SIGALRM ? "hang" : "crash");
                snprintf(sh->msg, sizeof sh->msg, sig == SIGPROF   ? "did not end within %g CPU seconds"
                         : sig == SIGALRM ? "blocked for more than %g seconds"
                                          : "killed by signal %.0f",
                         sig == SIGPROF ? cpu_seconds : sig == SIGALRM ? cpu_seconds * 5 : double(sig));
            }
        }
        sh->hash = 0;
    }
    else if (WEXITSTATUS(st) != 0)
    {
        // exit() called by the code under test, e.g. std::terminate without a signal
        if (sh->status != ST_VIOLATION)
        {
            sh->status = WEXITSTATUS(st) == 4 ? ST_HARNESS : ST_VIOLATION;
            snprintf(sh->cls, sizeof sh->cls, "crash");
            snprintf(sh->msg, sizeof sh->msg, "exit status %d", WEXITSTATUS(st));
        }
    }
    else if (sh->status == ST_NONE)
    {
        sh->status = ST_VIOLATION;
        snprintf(sh->cls, sizeof sh->cls, "crash");
        snprintf(sh->msg, sizeof sh->msg, "the process ended before the run did");
    }
    scratch_remove();
    Shared r = *sh;
    ctr_sync();
    return r;
}

} // namespace sim
