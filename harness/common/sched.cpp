#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
constexpr int MAXROLE = 192;
std::atomic<uint32_t> g_epoch{0};
std::atomic<int> g_mode{-1};
std::atomic<uint64_t> g_seed{0};
std::atomic<unsigned> g_prob{0}, g_maxus{0}, g_plan_n{0};
vf_delay g_plan[16];
std::atomic<unsigned> g_points[MAXROLE];
std::atomic<int> g_next_auto{100};
std::atomic<uint64_t> g_hash{0}, g_switches{0}, g_total{0};
std::atomic<int64_t> g_budget{0}; // microseconds of random delays left in this execution
std::atomic<uint32_t> g_last{0};  // role<<20 | point id

struct Tls { uint32_t epoch; int role; uint64_t rng; bool inside; };
__thread Tls tls = {0, -1, 0, false};

uint64_t mix(uint64_t x)
{
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27; x *= 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

void nap(unsigned us)
{
    struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, nullptr);
}

inline void point(uint32_t id)
{
    int mode = g_mode.load(std::memory_order_relaxed);
    if (mode < 0 || tls.inside)
    {
        return;
    }
    tls.inside = true;
    uint32_t ep = g_epoch.load(std::memory_order_relaxed);
    if (tls.epoch != ep)
    {
        tls.epoch = ep;
        tls.role = -1;
    }
    if (tls.role < 0)
    {
        tls.role = g_next_auto.fetch_add(1, std::memory_order_relaxed);
        if (tls.role >= MAXROLE)
        {
            tls.role = MAXROLE - 1;
        }
        tls.rng = 0;
    }
    int role = tls.role;
    unsigned idx = g_points[role].fetch_add(1, std::memory_order_relaxed);
    g_total.fetch_add(1, std::memory_order_relaxed);
    uint32_t me = ((uint32_t)(role + 1) << 20) | (id & 0xfffff);
    uint32_t prev = g_last.exchange(me, std::memory_order_relaxed);
    if (prev && (prev >> 20) != (me >> 20))
    {
        uint64_t n = g_switches.fetch_add(1, std::memory_order_relaxed);
        if (n < 64)   // long executions never repeat exactly: only the first switches identify the interleaving
        {
            g_hash.fetch_add(mix(((uint64_t)prev << 32 | me) + n * 0x9e3779b97f4a7c15ULL), std::memory_order_relaxed);
        }
    }
    if (mode == 1)
    {
        if (!tls.rng)
        {
            tls.rng = mix(g_seed.load(std::memory_order_relaxed) + 0x9e3779b97f4a7c15ULL * (role + 1)) | 1;
        }
        tls.rng ^= tls.rng << 13; tls.rng ^= tls.rng >> 7; tls.rng ^= tls.rng << 17;
        if ((tls.rng >> 20) % 1000 < g_prob.load(std::memory_order_relaxed))
        {
            unsigned us = (tls.rng >> 33) % (g_maxus.load(std::memory_order_relaxed) + 1);
            if (g_budget.fetch_sub(us, std::memory_order_relaxed) > 0)
            {
                int e = errno;
                nap(us);
                errno = e;
            }
        }
    }
    else if (mode == 2)
    {
        unsigned n = g_plan_n.load(std::memory_order_relaxed);
        for (unsigned i = 0; i < n; ++i)
        {
            if (g_plan[i].role == role && g_plan[i].idx == idx)
            {
                int e = errno;
                nap(g_plan[i].us);
                errno = e;
            }
        }
    }
    tls.inside = false;
}
} // namespace

extern "C" {
void vf_sched_begin(int mode, uint64_t seed, unsigned prob, unsigned max_us, const vf_delay* plan, unsigned n)
{
    g_mode = -1;
    for (int i = 0; i < MAXROLE; ++i)
    {
        g_points[i].store(0, std::memory_order_relaxed);
    }
    g_next_auto = 100;
    g_hash = 0; g_switches = 0; g_last = 0;
    g_budget = 1500000;
    g_seed = seed; g_prob = prob; g_maxus = max_us;
    if (n > 16)
    {
        n = 16;
    }
    for (unsigned i = 0; i < n; ++i)
    {
        g_plan[i] = plan[i];
    }
    g_plan_n = n;
    g_epoch.fetch_add(1);
    g_mode = mode;
}
void vf_sched_end()
{
    g_mode = -1;
}
void vf_sched_role(int role)
{
    tls.epoch = g_epoch.load(std::memory_order_relaxed);
    tls.role = role;
    tls.rng = 0;
}
unsigned vf_sched_points(int role)
{
    return role >= 0 && role < MAXROLE ? g_points[role].load() : 0;
}
int vf_sched_max_role()
{
    return MAXROLE;
}
uint64_t vf_sched_hash()
{
    return g_hash.load();
}
uint64_t vf_sched_switches()
{
    return g_switches.load();
}
uint64_t vf_sched_total_points()
{
    return g_total.load();
}
void vf_sched_point(unsigned id)
{
    point(0x80000 | id);
}

// ---- edges of the code under test
static uint32_t g_guards = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if (start == stop || *start)
    {
        return;
    }
    for (uint32_t* x = start; x < stop; ++x)
    {
        *x = ++g_guards;
    }
}
void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    if (g_mode.load(std::memory_order_relaxed) >= 0)
    {
        point(*guard);
    }
}

// ---- synchronisation calls (linked with --wrap)
#define WRAP1(name, T, id) \
    int __real_##name(T); \
    int __wrap_##name(T x) \
    { point(0xF0000 | id); int r = __real_##name(x); point(0xF0100 | id); return r; }
WRAP1(pthread_mutex_lock, pthread_mutex_t*, 1)
WRAP1(pthread_mutex_trylock, pthread_mutex_t*, 2)
WRAP1(pthread_mutex_unlock, pthread_mutex_t*, 3)
WRAP1(pthread_rwlock_rdlock, pthread_rwlock_t*, 4)
WRAP1(pthread_rwlock_wrlock, pthread_rwlock_t*, 5)
WRAP1(pthread_rwlock_tryrdlock, pthread_rwlock_t*, 6)
WRAP1(pthread_rwlock_trywrlock, pthread_rwlock_t*, 7)
WRAP1(pthread_rwlock_unlock, pthread_rwlock_t*, 8)
#define WRAPV(name, id) \
    void __real_##name(void*); \
    void __wrap_##name(void* x) \
    { point(0xF0000 | id); __real_##name(x); point(0xF0100 | id); }
WRAPV(_ZNSt18condition_variable10notify_allEv, 10)
WRAPV(_ZNSt18condition_variable10notify_oneEv, 11)
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* x, void* y)
{
    point(0xF0000 | 12);
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(x, y);
    point(0xF0100 | 12);
}
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    point(0xF0000 | 13);
    int r = __real_pthread_cond_clockwait(c, m, k, t);
    point(0xF0100 | 13);
    return r;
}

// ---- watchdog
static std::atomic<unsigned> wd_limit{0};        // in samples of 100 ms
static std::atomic<uint64_t> wd_generation{0};
static char wd_name[2][512];
static int wd_fd = -1;

// Sum of what all threads but this one have consumed: cpu ticks and context switches
static uint64_t activity()
{
    uint64_t sum = 0;
    int me = (int)syscall(SYS_gettid);
    DIR* d = opendir("/proc/self/task");
    if (!d)
    {
        return 0;
    }
    while (dirent* e = readdir(d))
    {
        int tid = atoi(e->d_name);
        if (tid <= 0 || tid == me)
        {
            continue;
        }
        char path[64], buf[4096];
        snprintf(path, sizeof path, "/proc/self/task/%d/status", tid);
        int fd = open(path, O_RDONLY | O_CLOEXEC);
        if (fd < 0)
        {
            continue;
        }
        ssize_t n = read(fd, buf, sizeof buf - 1);
        close(fd);
        if (n <= 0)
        {
            continue;
        }
        buf[n] = 0;
        for (const char* key : {"voluntary_ctxt_switches:", "nonvoluntary_ctxt_switches:"})
        {
            if (const char* p = strstr(buf, key))
            {
                sum += strtoull(p + strlen(key), nullptr, 10);
            }
        }
        sum += (uint64_t)tid * 1000003;
    }
    closedir(d);
    return sum;
}

static void* wd_main(void*)
{
    tls.inside = true;
    sigset_t all;
    sigfillset(&all);
    pthread_sigmask(SIG_BLOCK, &all, nullptr);
    uint64_t gen = 0, act = 0;
    unsigned n = 0, quiet = 0;
    for (;;)
    {
        nap(100000);
        unsigned lim = wd_limit.load();
        uint64_t g = wd_generation.load();
        if (!lim || g != gen)
        {
            gen = g; n = 0; quiet = 0; act = 0;
            continue;
        }
        ++n;
        if (n * 2 >= lim)
        {
            uint64_t a = activity();
            quiet = a == act ? quiet + 1 : 0;
            act = a;
        }
        if (n >= lim)
        {
            static volatile char out[700];
            int k = 0;
            for (const char* p = quiet * 4 >= lim ? "HANG dead " : "HANG live "; *p; ++p)
            {
                out[k++] = *p;
            }
            for (volatile char* p = wd_name[gen & 1]; *p; ++p)
            {
                out[k++] = *p;
            }
            out[k++] = '\n';
            if (syscall(SYS_write, wd_fd, out, k) < 0)
            {
            }
            _exit(77);
        }
    }
    return nullptr;
}
// Called by ThreadSanitizer for each report: tells in which scenario
void __tsan_on_report(void*)
{
    static volatile char out[700];
    int k = 0;
    for (const char* p = "SAN "; *p; ++p)
    {
        out[k++] = *p;
    }
    for (volatile char* p = wd_name[wd_generation.load() & 1]; *p; ++p)
    {
        out[k++] = *p;
    }
    out[k++] = '\n';
    if (syscall(SYS_write, wd_fd, out, k) < 0)
    {
    }
}
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
void vf_watchdog_start(int fd)
{
    wd_fd = fd;
    pthread_t t;
    pthread_create(&t, nullptr, wd_main, nullptr);
    pthread_detach(t);
}
void vf_watchdog_arm(const char* s, unsigned seconds)
{
    uint64_t g = wd_generation.load() + 1;
    // by hand: an intercepted libc function would be seen by ThreadSanitizer
    volatile char* d = wd_name[g & 1];
    unsigned i = 0;
    for (; s[i] && i < sizeof wd_name[0] - 1; ++i)
    {
        d[i] = s[i];
    }
    d[i] = 0;
    wd_generation = g;
    wd_limit = seconds * 10;
}
void vf_watchdog_disarm()
{
    wd_limit = 0;
    wd_generation.fetch_add(1);
}
}
