// P18: timers. The clocks of the process are put forward, and the wall clock set to other times, between the calls; the
// elapsed times are compared with an account kept on the true clock.
#include <vf.hpp>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <cpp_utils/time/PausableTimer.hpp>
#include <cpp_utils/time/Timer.hpp>

using namespace eprosima::utils;
using NS = __int128;

// Time that has passed without waiting for it, and where somebody set the wall clock
static std::atomic<int64_t> forward_ns{0}, wall_ns{0};
static thread_local bool fake = false;

static NS raw(clockid_t c)
{
    struct timespec ts;
    syscall(SYS_clock_gettime, c, &ts);
    return NS(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}
// Elapsed-time clock of the machine, as the monitor sees it
static NS truth() { return raw(CLOCK_MONOTONIC) + forward_ns.load(); }

static NS seen_by_code(clockid_t c)
{
    NS t = raw(c);
    if (fake)
    {
        bool cpu = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID;
        if (!cpu) t += forward_ns.load();
        if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) t += wall_ns.load();
    }
    return t;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    NS t = seen_by_code(c);
    ts->tv_sec = (time_t)(t / 1000000000);
    ts->tv_nsec = (long)(t % 1000000000);
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    NS t = seen_by_code(CLOCK_REALTIME);
    tv->tv_sec = (time_t)(t / 1000000000);
    tv->tv_usec = (suseconds_t)(t % 1000000000 / 1000);
    return 0;
}
extern "C" time_t time(time_t* p) noexcept
{
    time_t t = (time_t)(seen_by_code(CLOCK_REALTIME) / 1000000000);
    if (p) *p = t;
    return t;
}

struct In
{
    In() { fake = true; }
    ~In() { fake = false; }
};

// Bounds of the time that must be reported, in ns
struct Account
{
    bool playing;
    NS lo = 0, hi = 0;            // finished periods
    NS from_before, from_after;   // start of the current one
    double last = 0;
    explicit Account(bool p, NS b, NS a) : playing(p), from_before(b), from_after(a) {}
};
const char* judge(Account& a, double ms, NS before, NS after, std::string& why)
{
    NS lo = a.lo, hi = a.hi;
    if (a.playing)
    {
        lo += before - a.from_after;
        hi += after - a.from_before;
    }
    double l = (double)lo / 1e6, h = (double)hi / 1e6, slack = 0.002 + h * 1e-12;
    std::ostringstream o;
    o << std::fixed << "reports " << ms << " ms, true time between " << l << " and " << h << " ms" << (a.playing ? "" : " (paused)") << ", reported before " << a.last;
    why = o.str();
    if (!(ms >= 0)) return "negative";
    if (ms < a.last) return "decreases";
    if (ms > h + slack) return "too-much";
    if (ms < l - slack) return "too-little";
    a.last = ms;
    return nullptr;
}

int64_t pick_forward(vf::Rng& r)
{
    switch (r.below(8))
    {
        case 0: return 0;
        case 1: return (int64_t)r.below(1000);                       // below a microsecond
        case 2: return (int64_t)r.below(1000000);
        case 3: return (int64_t)r.below(3000) * 1000000;             // seconds
        case 4: return (int64_t)r.below(86400) * 1000000000;         // a day
        case 5: return (int64_t)(1 + r.below(5)) * 2147483648LL;
        case 6: return (int64_t)r.below(40) * 86400 * 1000000000LL;  // weeks
        default: return (int64_t)r.below(100) * 1000000;
    }
}
void pass(vf::Rng& r, bool wall)
{
    if (r.chance(60)) forward_ns.fetch_add(pick_forward(r));
    if (wall && r.chance(30)) wall_ns.fetch_add(r.chance(50) ? (int64_t)r.range(-4000, 4000) * 1000000 : (int64_t)r.range(-86400 * 400LL, 86400 * 400LL) * 1000000000);
    if (r.chance(3)) vf::sleep_us((unsigned)r.below(2000));
    if (forward_ns.load() > 40LL * 365 * 86400 * 1000000000) forward_ns = 0;      // (never with a timer alive: see run)
}
#define CALL(expr) (NS(0), [&] { In in; return expr; }())

template <class T>
void check_query(vf::Rng& r, T& t, Account& a, const char* who, const std::string& history)
{
    std::string why;
    unsigned how = (unsigned)r.below(3);
    // elapsed_ms has 32 bits: 49 days
    if ((a.hi + (a.playing ? truth() - a.from_before : 0)) / 1000000 >= 4294900000LL) how = 0;
    NS b = truth();
    double ms;
    uint32_t whole = 0;
    {
        In in;
        Timer& base = t;
        ms = how == 0 ? t.elapsed() : how == 1 ? base.elapsed() : (whole = base.elapsed_ms(), -1);
    }
    NS e = truth();
    if (how == 2)
    {
        // rounded to milliseconds: compared through the bounds
        NS lo = a.lo + (a.playing ? b - a.from_after : 0), hi = a.hi + (a.playing ? e - a.from_before : 0);
        VF_CHECK((double)whole >= (double)lo / 1e6 - 1.01 && (double)whole <= (double)hi / 1e6 + 1.01, "elapsed_ms",
                who << " elapsed_ms is " << whole << ", true time " << (double)lo / 1e6 << " to " << (double)hi / 1e6 << " ms; " << history);
        return;
    }
    if (const char* k = judge(a, ms, b, e, why)) vf::viol(k, std::string(who) + " " + why + "; " + history);
}

void run(vf::Rng& r, bool wall)
{
    forward_ns = 0;
    wall_ns = 0;
    bool plain = r.chance(30);
    std::ostringstream h;
    uint64_t hash = plain;
    int n = (int)r.range(3, 60);
    if (plain)
    {
        NS b = truth();
        In* in = new In;
        Timer t;
        delete in;
        Account a(true, b, truth());
        for (int i = 0; i < n; ++i)
        {
            pass(r, wall);
            if (r.chance(20))
            {
                NS x = truth();
                { In in2; if (r.chance(50)) t.reset(); else { Timer& v = t; v.reset(); } }
                a = Account(true, x, truth());
                h << "reset ";
                hash = vf::mix(hash ^ 1);
            }
            else
            {
                h << "query ";
                hash = vf::mix(hash ^ 2);
                check_query(r, t, a, "Timer", h.str());
            }
            vf::count("steps");
        }
    }
    else
    {
        bool p = r.chance(50);
        NS b = truth();
        In* in = new In;
        std::unique_ptr<PausableTimer> t(new PausableTimer(p));
        delete in;
        Account a(p, b, truth());
        h << "PausableTimer(" << p << ") ";
        double paused_at = -1;
        for (int i = 0; i < n; ++i)
        {
            pass(r, wall);
            unsigned op = (unsigned)r.below(9);
            if (op > 4) op = 4;
            hash = vf::mix(hash ^ (op + 3));
            NS x = truth();
            switch (op)
            {
                case 0:
                {
                    { In i2; t->play(); }
                    NS y = truth();
                    h << "play ";
                    if (!a.playing)
                    {
                        a.playing = true;
                        a.from_before = x;
                        a.from_after = y;
                    }
                    paused_at = -1;
                    break;
                }
                case 1:
                {
                    { In i2; t->pause(); }
                    NS y = truth();
                    h << "pause ";
                    if (a.playing)
                    {
                        a.playing = false;
                        a.lo += x - a.from_after;
                        a.hi += y - a.from_before;
                    }
                    break;
                }
                case 2:
                {
                    { In i2; if (r.chance(50)) t->reset(); else { Timer& v = *t; v.reset(); } }
                    NS y = truth();
                    h << "reset ";
                    a = Account(a.playing, x, y);
                    paused_at = -1;
                    break;
                }
                case 3:
                {
                    // a copy goes on from where it is
                    std::unique_ptr<PausableTimer> c(new PausableTimer(*t));
                    if (r.chance(50)) t = std::move(c);
                    else
                    {
                        PausableTimer o(r.chance(50));
                        o = *t;
                        { In i2; t->reset(); t->play(); }
                        *t = o;
                    }
                    h << "copy ";
                    break;
                }
                default:
                    h << "query ";
                    check_query(r, *t, a, "PausableTimer", h.str());
                    if (!a.playing)
                    {
                        double v = CALL(t->elapsed());
                        VF_CHECK(paused_at < 0 || v == paused_at, "moves-while-paused", "paused timer went from " << paused_at << " to " << v << "; " << h.str());
                        paused_at = v;
                    }
            }
            VF_CHECK(t->playing() == a.playing, "state", "playing() is " << t->playing() << "; " << h.str());
            vf::count("steps");
        }
    }
    vf::seen("sequences", hash);
    vf::sample(h.str());
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("time-passes", 64, [](vf::Rng& r) { for (int i = 0; i < 300; ++i) run(r, false); });
    vf::batches("wall-clock-set", 64, [](vf::Rng& r) { for (int i = 0; i < 300; ++i) run(r, true); });
    vf::batches("really-waiting", 8, [](vf::Rng& r)
            {
                // no clock is touched
                Timer t;
                PausableTimer p(false);
                uint64_t t0 = vf::now_ns(), played = 0, played_hi = 0;
                for (int i = 0; i < 6; ++i)
                {
                    vf::sleep_us((unsigned)r.below(20000));
                    uint64_t a = vf::now_ns();
                    p.play();
                    uint64_t b = vf::now_ns();
                    vf::sleep_us((unsigned)r.below(20000));
                    uint64_t c = vf::now_ns();
                    p.pause();
                    uint64_t d = vf::now_ns();
                    played += c - b;
                    played_hi += d - a;
                    VF_CHECK(p.elapsed() >= played / 1e6 - 0.01 && p.elapsed() <= played_hi / 1e6 + 0.01, "really-waiting", "pausable timer says " << p.elapsed() << " ms, played " << played / 1e6);
                    double e = t.elapsed();
                    VF_CHECK(e >= (d - t0) / 1e6 - 1 && e <= (vf::now_ns() - t0) / 1e6 + 1, "really-waiting", "timer says " << e << " ms of " << (d - t0) / 1e6);
                }
                vf::count("steps", 12);
            });
    return vf::finish();
}
