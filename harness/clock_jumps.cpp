// Timed waits while the wall clock of the process is set to other times (for P10, P11, P12 and P04, as the part defines).
// What the library sees of the wall clock is interposed; nothing outside the process changes.
#include <vf.hpp>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#if VF_PART == 10
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>
#elif VF_PART == 11
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#elif VF_PART == 12
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#else
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#endif

using namespace eprosima::utils;
using namespace eprosima::utils::event;

static std::atomic<int64_t> wall_ns{0};
static int64_t raw(clockid_t c)
{
    struct timespec ts;
    syscall(SYS_clock_gettime, c, &ts);
    return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}
static int64_t seen_by_code(clockid_t c)
{
    return raw(c) + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? wall_ns.load() : 0);
}
static void to_spec(int64_t t, struct timespec* ts)
{
    ts->tv_sec = (time_t)(t / 1000000000);
    ts->tv_nsec = (long)(t % 1000000000);
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept { to_spec(seen_by_code(c), ts); return 0; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    int64_t t = seen_by_code(CLOCK_REALTIME);
    tv->tv_sec = (time_t)(t / 1000000000);
    tv->tv_usec = (suseconds_t)(t % 1000000000 / 1000);
    return 0;
}
extern "C" time_t time(time_t* p) noexcept
{
    time_t t = (time_t)(seen_by_code(CLOCK_REALTIME) / 1000000000);
    if (p) *p = t;
    return t;
}
// Waits until a time of the wall clock, which may be set meanwhile: short waits of the true clock, ended as if spuriously
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    const __int128 end = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
    if (seen_by_code(CLOCK_REALTIME) >= end) return ETIMEDOUT;
    struct timespec ts;
    to_spec(raw(CLOCK_MONOTONIC) + 2000000, &ts);
    pthread_cond_clockwait(c, m, CLOCK_MONOTONIC, &ts);
    return seen_by_code(CLOCK_REALTIME) >= end ? ETIMEDOUT : 0;
}

static const int64_t H = 3600LL * 1000000000;
// Sets the wall clock now and then: forward, backward, both
void set_clock(vf::Rng& r)
{
    static const std::vector<int64_t> to{0, 1000000, -1000000, 5000000000, -5000000000, H, -H, 24 * H, -24 * H, 8766 * H, -8766 * H * 20};
    wall_ns = r.pick(to);
    vf::count("clock_set");
}
double ms_since(int64_t t) { return (double)(raw(CLOCK_MONOTONIC) - t) / 1e6; }

#if VF_PART != 4
enum { DISABLED, TIMEOUT, MET };
int code(AwakeReason a) { return a == AwakeReason::disabled ? DISABLED : a == AwakeReason::timeout ? TIMEOUT : MET; }

// One timed wait. `wait` blocks for at most the given ms; `end` lets it go on
template <class W, class E> void timed(vf::Rng& r, const char* what, W wait, E end)
{
    set_clock(r);
    const bool met = r.chance(50);
    const unsigned ms = met ? 60000 : (unsigned)r.range(10, 60);
    std::atomic<int> result{-1};
    double took = 0;
    std::thread t([&]
            {
                int64_t t0 = raw(CLOCK_MONOTONIC);
                int x = wait(ms);
                took = ms_since(t0);
                result = x;
            });
    for (int k = 1 + (int)r.below(3); k--;)
    {
        vf::sleep_us(1000 * r.below(8));
        set_clock(r);
    }
    if (met)
    {
        VF_CHECK(result == -1, "early", what << " for " << ms << " ms ended by " << result << " after " << took << " ms, with the wall clock set meanwhile");
        end();
    }
    bool back = vf::eventually([&]{ return result != -1; }, 20000);
    VF_CHECK(back, "slow-clock", what << " for " << ms << " ms did not return " << (met ? "when its condition was met" : "after its time") << ", with the wall clock set meanwhile");
    if (!back) end();
    t.join();
    if (back && met) VF_CHECK(result == MET, "wrong-reason", what << " ended by " << result << " when the condition was met");
    if (back && !met)
    {
        VF_CHECK(result == TIMEOUT, "wrong-reason", what << " ended by " << result << " without its condition");
        VF_CHECK(took >= ms - 0.01, "early", what << " for " << ms << " ms timed out after " << took << " ms, with the wall clock set meanwhile");
    }
    wall_ns = 0;
    vf::count("steps");
    vf::seen("sequences", vf::mix(vf::hash_str(what) + ms * 2 + met));
}

#endif

#if VF_PART == 10
void scenario(vf::Rng& r)
{
    IntWaitHandler i(5);
    timed(r, "wait_equal", [&](unsigned ms) { return code(i.wait_equal(7, ms)); }, [&] { i.set_value(7); });
    timed(r, "wait_lower_than", [&](unsigned ms) { return code(i.wait_lower_than(3, ms)); }, [&] { i.set_value(-1); });
    BooleanWaitHandler b(false);
    timed(r, "wait for the door", [&](unsigned ms) { return code(b.wait(ms)); }, [&] { b.open(); });
    WaitHandler<std::string> s("a");
    timed(r, "wait for a value", [&](unsigned ms) { return code(s.wait([](const std::string& x) { return x == "b"; }, ms)); }, [&] { s.set_value("b"); });
}
#elif VF_PART == 11
void scenario(vf::Rng& r)
{
    CounterWaitHandler c(0, 0);
    timed(r, "wait_and_decrement", [&](unsigned ms) { return code(c.wait_and_decrement(ms)); }, [&] { ++c; });
    CounterWaitHandler d(1, 0);
    timed(r, "wait_threshold_reached", [&](unsigned ms) { return code(d.wait_threshold_reached(ms)); }, [&] { ++d; });
    DBQueueWaitHandler<int> q;
    timed(r, "consume", [&](unsigned ms)
            {
                try { return q.consume(ms) == 3 ? MET : 9; }
                catch (const TimeoutException&) { return (int)TIMEOUT; }
                catch (const DisabledException&) { return (int)DISABLED; }
            }, [&] { q.produce(3); });
    DBQueueWaitHandler<int> p;
    p.produce(1);
    timed(r, "wait_all_consumed", [&](unsigned ms) { return code(p.wait_all_consumed(ms)); }, [&] { p.consume(); });
}
#elif VF_PART == 12
void scenario(vf::Rng& r)
{
    std::atomic<bool> go{false};
    TaskId id{1};
    SlotThreadPool pool(2);
    pool.slot(id, Task([&] { while (!go) vf::sleep_us(200); }));
    pool.enable();
    pool.emit(id);
    timed(r, "wait_all_consumed", [&](unsigned ms) { return code(pool.wait_all_consumed(ms)); }, [&] { go = true; });
    go = true;
}
#else
void scenario(vf::Rng& r)
{
    const unsigned period = (unsigned)r.range(5, 25);
    std::mutex mx;
    std::vector<std::pair<int64_t, int64_t>> runs;
    set_clock(r);
    const int64_t t0 = raw(CLOCK_MONOTONIC);
    size_t n = 0;
    {
        PeriodicEventHandler h([&]
                {
                    int64_t a = raw(CLOCK_MONOTONIC);
                    vf::sleep_us(500);
                    std::lock_guard<std::mutex> l(mx);
                    runs.push_back({a, raw(CLOCK_MONOTONIC)});
                }, period);
        for (int k = 0; k < 4; ++k)
        {
            set_clock(r);
            bool fires = vf::eventually([&] { std::lock_guard<std::mutex> l(mx); return runs.size() > n; }, 20000);
            VF_CHECK(fires, "slow-clock", "a handler of period " << period << " ms does not run any more after the wall clock was set");
            std::lock_guard<std::mutex> l(mx);
            n = runs.size();
        }
        wall_ns = 0;
    }
    int64_t last = t0;
    for (auto& x : runs)
    {
        VF_CHECK((double)(x.first - last) / 1e6 >= period - 0.01, "early", "a run " << (double)(x.first - last) / 1e6 << " ms after the end of the last, period " << period << " ms, with the wall clock set meanwhile");
        last = x.second;
    }
    vf::count("steps", runs.size());
    vf::seen("sequences", vf::mix(period));
}
#endif

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    // a violation that is a wait without end takes long each time
    vf::batches("clock-set", VF_PART == 10 || VF_PART == 11 ? 12 : 16, [](vf::Rng& r) { if (vf::S().viol_count.size() < 2) scenario(r); }, 60);
    return vf::finish();
}
