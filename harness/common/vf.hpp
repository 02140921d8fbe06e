// Common part of every driver: scenarios, random choices, monitors' verdicts, and what was observed.
#pragma once
#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27; x *= 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s)
    {
        h ^= c; h *= 1099511628211ULL;
    }
    return h;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed) | 1) {}
    uint64_t next()
    {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1DULL;
    }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    std::string bytes(size_t n)
    {
        std::string r(n, 0);
        for (auto& c : r) c = (char)below(256);
        return r;
    }
    std::string from(const std::string& alphabet, size_t n)
    {
        std::string r(n, 0);
        for (auto& c : r) c = alphabet[below(alphabet.size())];
        return r;
    }
};

struct State
{
    uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, shards = 1;
    long resume = 0;                 // skip executions up to this ordinal
    std::string only;                // replay this scenario only
    std::string tool = "asan";
    int out = 2;
    long ordinal = 0;
    std::string scenario = "init";
    std::mutex m;
    std::map<std::string, long> viol_count;
    std::map<std::string, uint64_t> counts;
    std::map<std::string, std::unordered_set<uint64_t>> seen;
    std::vector<std::string> samples;
    int repeat = 1;
};
inline State& S()
{
    static State s;
    return s;
}

inline void emit(std::string line)
{
    for (auto& c : line)
    {
        if (c == '\n' || c == '\0' || c == '\r') c = ' ';
    }
    line += '\n';
    if (write(S().out, line.data(), line.size()) < 0)
    {
    }
}

inline void viol(const std::string& key, const std::string& detail)
{
    std::lock_guard<std::mutex> l(S().m);
    if (S().viol_count[key]++ < 3)
    {
        emit("VIOL " + key + " @@ " + S().scenario + " @@ " + detail.substr(0, 1500));
    }
}
#define VF_CHECK(cond, key, ...)                                                        \
    do { if (!(cond)) { std::ostringstream o_; o_ << __VA_ARGS__; vf::viol(key, o_.str()); } } while (0)

inline void count(const std::string& name, uint64_t n = 1)
{
    std::lock_guard<std::mutex> l(S().m);
    S().counts[name] += n;
}
// Records one non-trivial case; distinct ones are counted
inline void seen(const std::string& set, uint64_t h)
{
    std::lock_guard<std::mutex> l(S().m);
    auto& s = S().seen[set];
    if (s.size() < 300000) s.insert(h);
}
inline void sample(const std::string& s, size_t max = 6)
{
    std::lock_guard<std::mutex> l(S().m);
    if (S().samples.size() < max) S().samples.push_back(s.substr(0, 400));
}
inline std::string show(const std::string& s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s.substr(0, 200))
    {
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}

// Global order of observed events. Relaxed on purpose: it must not add happens-before edges under ThreadSanitizer.
inline uint64_t tick()
{
    static std::atomic<uint64_t> t{1};
    asm volatile ("" ::: "memory");
    uint64_t r = t.fetch_add(1, std::memory_order_relaxed);
    asm volatile ("" ::: "memory");
    return r;
}

inline bool begin(const std::string& id, unsigned watchdog_s = 20)
{
    auto& s = S();
    ++s.ordinal;
    if (!s.only.empty() ? s.only != id : s.ordinal <= s.resume) return false;
    s.scenario = id;
    emit("AT " + std::to_string(s.ordinal) + " " + id);
    vf_watchdog_arm(id.c_str(), watchdog_s);
    return true;
}
inline void end()
{
    vf_watchdog_disarm();
    S().scenario = "between";
}

// One execution of a concurrent scenario
struct Exec
{
    Rng rng;
    explicit Exec(uint64_t seed) : rng(seed) {}
    // Runs the functions in parallel, with roles 0, 1, ...; returns when all are done
    void par(std::vector<std::function<void()>> fs)
    {
        std::atomic<unsigned> ready{0};
        const unsigned n = (unsigned)fs.size();
        std::vector<std::thread> ts;
        for (unsigned i = 0; i < n; ++i)
        {
            ts.emplace_back([&, i]
                    {
                        vf_sched_role((int)i);
                        ready.fetch_add(1);
                        while (ready.load() < n) std::this_thread::yield();
                        fs[i]();
                    });
        }
        for (auto& t : ts) t.join();
    }
};

struct Opt
{
    int base = 10;          // executions without delays
    int rnd = 150;          // executions with random delays
    int pairs = 60;         // executions with two or three planned delays
    int sweep = 1;          // 0: no sweep of single delays
    unsigned sweep_us = 2500;
    unsigned max_idx = 160; // points per role that the sweep delays at most
    unsigned rnd_us = 800;
    unsigned watchdog = 12;
    int roles = -1;         // highest role + 1 that plans use (-1: as observed, including library threads)
    Opt& b(int v) { base = v; return *this; }
    Opt& r(int v) { rnd = v; return *this; }
    Opt& p(int v) { pairs = v; return *this; }
    Opt& sw(int v) { sweep = v; return *this; }
    Opt& us(unsigned v) { sweep_us = v; return *this; }
    Opt& mi(unsigned v) { max_idx = v; return *this; }
    Opt& ru(unsigned v) { rnd_us = v; return *this; }
    Opt& wd(unsigned v) { watchdog = v; return *this; }
};

template <class F>
void run_one(const std::string& name, uint64_t seed, int mode, unsigned prob, unsigned us,
        const std::vector<vf_delay>& plan, const Opt& o, F& body, const std::string& id)
{
    vf_sched_begin(mode, seed, prob, us, plan.data(), (unsigned)plan.size());
    vf_sched_role(99);
    {
        Exec e(seed);
        body(e);
    }
    uint64_t h = vf_sched_hash(), sw = vf_sched_switches();
    vf_sched_end();
    count("executions");
    count("executions:" + name);
    count("thread_switches", sw);
    if (sw) seen("interleavings", mix(h ^ hash_str(name)));
    if (mode == 2) sample(id + " (" + std::to_string(sw) + " thread switches)");
}

// Explores one concurrent scenario: plain runs, a sweep of single delays over all points of all threads,
// random delays, and random pairs of delays.
template <class F>
void explore(const std::string& name, Opt o, F body)
{
    auto& s = S();
    if (!s.only.empty())
    {
        // id: name|s=..|m=..|a=prob,us|p=r:i:us,...
        if (s.only.compare(0, name.size() + 1, name + "|") != 0) return;
        unsigned long long seed = 0; int mode = 0; unsigned prob = 0, us = 0;
        std::vector<vf_delay> plan;
        const char* c = s.only.c_str() + name.size();
        sscanf(c, "|s=%llu|m=%d|a=%u,%u|", &seed, &mode, &prob, &us);
        if (const char* p = strstr(c, "|p="))
        {
            p += 3;
            vf_delay d; int k;
            while (sscanf(p, "%d:%u:%u%n", &d.role, &d.idx, &d.us, &k) == 3)
            {
                plan.push_back(d);
                p += k;
                if (*p == ',') ++p;
            }
        }
        for (int i = 0; i < s.repeat; ++i)
        {
            s.scenario = s.only;
            emit("AT 1 " + s.only);
            vf_watchdog_arm(s.only.c_str(), o.watchdog);
            run_one(name, seed, mode, prob, us, plan, o, body, s.only);
            end();
        }
        return;
    }
    const int mult = s.thorough ? 8 : 1;
    const bool tsan = s.tool == "tsan";
    std::map<int, unsigned> pts;
    auto one = [&](uint64_t seed, int mode, unsigned prob, unsigned us, const std::vector<vf_delay>& plan)
            {
                std::ostringstream id;
                id << name << "|s=" << seed << "|m=" << mode << "|a=" << prob << "," << us << "|p=";
                for (size_t i = 0; i < plan.size(); ++i)
                    id << (i ? "," : "") << plan[i].role << ":" << plan[i].idx << ":" << plan[i].us;
                if (!begin(id.str(), o.watchdog)) return;
                run_one(name, seed, mode, prob, us, plan, o, body, id.str());
                if (mode == 0)
                {
                    for (int r = 0; r < vf_sched_max_role(); ++r)
                    {
                        unsigned n = vf_sched_points(r);
                        if (n) pts[r] = std::max(pts[r], n);
                    }
                }
                end();
            };
    uint64_t base_seed = mix(s.seed * 1000003 + hash_str(name)) >> 16;
    Rng rng(base_seed + 77 + s.shard * 7919);
    // plain runs (every shard makes the first two, to learn the points)
    for (int i = 0; i < std::max(2, o.base * mult / std::max(1, s.shards)); ++i)
    {
        one(base_seed + i + (i >= 2 ? 1000 * s.shard : 0), 0, 0, 0, {});
    }
    if (pts.empty())
    {
        for (int r = 0; r < 3; ++r) pts[r] = 40;
    }
    // sweep
    long k = 0;
    if (o.sweep)
    {
        for (int rep = 0; rep < (s.thorough ? 3 : 1); ++rep)
        for (auto& rp : pts)
        {
            unsigned n = std::min(rp.second + 4, o.max_idx * (s.thorough ? 3 : 1));
            for (unsigned i = 0; i < n; ++i, ++k)
            {
                if (k % s.shards != s.shard) continue;
                one(base_seed + (rep ? 500 + rep : (k % 3)), 2, 0, 0,
                        {{rp.first, i, rep == 1 ? o.sweep_us * 3 : o.sweep_us}});
            }
        }
    }
    // random delays
    for (int i = 0; i < o.rnd * mult / (tsan ? 2 : 1); ++i)
    {
        uint64_t sd = rng.next() >> 20;
        unsigned prob = (unsigned)(10 << rng.below(5));
        if (i % s.shards != s.shard) continue;
        one(sd, 1, prob, o.rnd_us, {});
    }
    // two or three planned delays
    std::vector<std::pair<int, unsigned>> rs(pts.begin(), pts.end());
    for (int i = 0; i < o.pairs * mult / (tsan ? 2 : 1); ++i)
    {
        std::vector<vf_delay> plan;
        int n = 2 + (int)rng.below(2);
        for (int j = 0; j < n; ++j)
        {
            auto& rp = rs[rng.below(rs.size())];
            plan.push_back({rp.first, (unsigned)rng.below(std::min(rp.second + 2, o.max_idx * 2)),
                            (unsigned)(o.sweep_us / 2 + rng.below(o.sweep_us * 2))});
        }
        uint64_t sd = rng.next() >> 20;
        if (i % s.shards != s.shard) continue;
        one(sd, 2, 0, 0, plan);
    }
}

// A batch of generated inputs, or a sequential scenario.  n batches, each with its own seed.
template <class F>
void batches(const std::string& name, int n, F body, unsigned watchdog = 60)
{
    auto& s = S();
    if (!s.only.empty())
    {
        if (s.only.compare(0, name.size() + 3, name + "|s=") != 0) return;
        uint64_t seed = strtoull(s.only.c_str() + name.size() + 3, nullptr, 10);
        for (int i = 0; i < s.repeat; ++i)
        {
            s.scenario = s.only;
            emit("AT 1 " + s.only);
            vf_watchdog_arm(s.only.c_str(), watchdog);
            Rng r(seed);
            body(r);
            end();
        }
        return;
    }
    uint64_t base_seed = mix(s.seed * 1000003 + hash_str(name)) >> 16;
    if (s.thorough) n *= 8;
    for (int i = 0; i < n; ++i)
    {
        if (i % s.shards != s.shard) continue;
        if (!begin(name + "|s=" + std::to_string(base_seed + i), watchdog)) continue;
        Rng r(base_seed + i);
        body(r);
        count("batches:" + name);
        end();
    }
}

inline void init(int argc, char** argv)
{
    auto& s = S();
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") s.thorough = val() == "thorough";
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &s.shard, &s.shards); }
        else if (a == "--resume") s.resume = atol(val().c_str());
        else if (a == "--only") s.only = val();
        else if (a == "--repeat") s.repeat = atoi(val().c_str());
        else if (a == "--tool") s.tool = val();
        else if (a == "--out") s.out = open(val().c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    }
    vf_watchdog_start(s.out);
}

inline int finish()
{
    auto& s = S();
    vf_watchdog_disarm();
    for (auto& c : s.counts) emit("STAT " + c.first + " " + std::to_string(c.second));
    for (auto& c : s.viol_count) emit("NVIOL " + c.first + " " + std::to_string(c.second));
    emit("STAT points " + std::to_string(vf_sched_total_points()));
    for (auto& st : s.seen)
    {
        std::string line = "SEEN " + st.first;
        char b[20];
        size_t n = 0;
        for (uint64_t h : st.second)
        {
            snprintf(b, sizeof b, " %llx", (unsigned long long)h);
            line += b;
            if (++n % 2000 == 0)
            {
                emit(line);
                line = "SEEN " + st.first;
            }
        }
        emit(line);
    }
    for (auto& x : s.samples) emit("SAMPLE " + x);
    emit("DONE");
    // No static destruction of the library's singletons beyond this point: each driver has stopped what it started
    return 0;
}

// Object whose copies and lifetime are watched
template <class Tag>
struct Live
{
    static std::atomic<long>& n()
    {
        static std::atomic<long> v{0};
        return v;
    }
    uint64_t magic = 0xA11FE;
    Live() { n().fetch_add(1, std::memory_order_relaxed); }
    Live(const Live& o) : magic(0xA11FE)
    {
        VF_CHECK(o.magic == 0xA11FE, "live-copy-of-dead", "copied from a destroyed object");
        n().fetch_add(1, std::memory_order_relaxed);
    }
    Live& operator =(const Live&) = default;
    ~Live()
    {
        VF_CHECK(magic == 0xA11FE, "live-double-destroy", "object destroyed twice");
        magic = 0xDEAD;
        n().fetch_sub(1, std::memory_order_relaxed);
    }
    bool ok() const { return magic == 0xA11FE; }
};

inline void sleep_us(unsigned us)
{
    struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
    nanosleep(&ts, nullptr);
}
inline uint64_t now_ns()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ull + (uint64_t)ts.tv_nsec;
}
// A signal with an empty handler, installed without SA_RESTART, to every other thread of the process: whatever system call
// they wait in returns EINTR.
inline void interrupt_threads()
{
    static const bool installed = []
            {
                struct sigaction a;
                memset(&a, 0, sizeof(a));
                a.sa_handler = [](int){};
                return sigaction(SIGURG, &a, nullptr) == 0;
            }();
    DIR* d = installed ? opendir("/proc/self/task") : nullptr;
    if (!d) return;
    const long me = syscall(SYS_gettid);
    while (dirent* e = readdir(d))
    {
        long t = atol(e->d_name);
        if (t > 0 && t != me && syscall(SYS_tgkill, getpid(), t, SIGURG) == 0) count("interrupted_threads");
    }
    closedir(d);
}

// Waits until pred holds; gives up after a generous limit (a hang of the code under test, decided by the caller)
template <class P>
bool eventually(P pred, unsigned limit_ms = 8000)
{
    uint64_t t0 = now_ns();
    while (!pred())
    {
        if (now_ns() - t0 > (uint64_t)limit_ms * 1000000ull) return pred();
        sleep_us(200);
    }
    return true;
}

} // namespace vf
