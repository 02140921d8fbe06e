// P05: SignalEventHandler. Signals are raised (raise() delivers before it returns: one call, one delivery) and the runs of the
// callbacks of every handler counted.
#include <vf.hpp>
#include <csignal>
#include <cpp_utils/event/SignalEventHandler.hpp>

using namespace eprosima::utils::event;

constexpr Signal SIGS[] = {Signal::sigint, Signal::sigterm, Signal::sigusr1, Signal::sigusr2};

struct Mon
{
    Signal want;
    std::atomic<int> runs{0}, enabled{0}, inside{0};
    std::mutex* lock = nullptr;        // a lock of the user that callbacks take
    std::atomic<int> again{0};         // the callback raises this many times more
    std::unique_ptr<std::string> data{new std::string("freed once the handler cannot run any more")};
    explicit Mon(Signal s) : want(s) {}
    std::function<void(Signal)> cb()
    {
        return [this](Signal s)
               {
                   VF_CHECK(enabled.load() == 1, "run-while-disabled", "a callback ran before being set or after unset returned");
                   VF_CHECK(inside.fetch_add(1) == 0, "overlap", "");
                   VF_CHECK(s == want, "wrong-signal", "handler of " << (int)want << " ran with " << (int)s);
                   VF_CHECK(data->size() > 5, "data", "");
                   std::string* heap = new std::string(100, 'x');   // a normal thread context can allocate
                   vf_sched_point(1);
                   if (lock) std::lock_guard<std::mutex> l(*lock);
                   delete heap;
                   if (again > 0 && again.fetch_sub(1) > 0) raise((int)want);
                   runs.fetch_add(1);
                   inside.fetch_sub(1);
                   vf::count("steps");
               };
    }
    void off()
    {
        VF_CHECK(inside.load() == 0, "unset-during-run", "unset or destruction returned during a run");
        enabled = 0;
    }
    void dead()
    {
        off();
        data.reset();
    }
};

bool settle(Mon& m, int n, const char* what)
{
    bool ok = vf::eventually([&]{ return m.runs.load() >= n; }, 6000);
    VF_CHECK(ok, "slow-lost", what << ": " << m.runs.load() << " runs after " << n << " deliveries");
    return ok;
}

// One handler of each signal, created at the start of an execution
template <Signal S>
struct One
{
    Mon m{S};
    std::unique_ptr<SignalEventHandler<S>> h;
    explicit One(bool on = true)
    {
        m.enabled = 1;
        h = std::make_unique<SignalEventHandler<S>>(m.cb());
        if (!on) off();
    }
    void off()
    {
        h->unset_callback();
        m.off();
    }
    void on()
    {
        m.enabled = 1;
        h->set_callback(m.cb());
    }
    void kill()
    {
        h.reset();
        m.dead();
    }
};
constexpr Signal U1 = Signal::sigusr1, U2 = Signal::sigusr2, TE = Signal::sigterm, IN = Signal::sigint;

// Everything raised so far has been processed
template <Signal S>
void drain()
{
    Mon m(S);
    m.enabled = 1;
    {
        SignalEventHandler<S> h(m.cb());
        raise((int)S);
        settle(m, 1, "drain");
        vf::sleep_us(300);
    }
    m.off();
}

// Defined in another file that includes the same headers
extern "C" int other_file_counts_sigusr2();

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    // One delivery, alone: nothing else will wake the manager
    vf::explore("single", vf::Opt().b(40).r(200).p(80).mi(60).wd(25), [](vf::Exec& e)
            {
                One<U1> a;
                std::unique_ptr<One<U1>> b;
                if (e.rng.chance(50)) b = std::make_unique<One<U1>>();
                int n = (int)e.rng.range(1, 3);
                for (int i = 1; i <= n; ++i)
                {
                    if (e.rng.chance(50)) vf::sleep_us((unsigned)e.rng.below(200));
                    if (e.rng.chance(50)) raise(SIGUSR1);
                    else ::kill(getpid(), SIGUSR1);
                    if (!settle(a.m, i, "single")) break;
                    if (b && !settle(b->m, i, "single, second handler")) break;
                }
                VF_CHECK(a.m.runs == n && (!b || b->m.runs == n), "slow-lost", "runs " << a.m.runs << " of " << n);
                if (b) b->kill();
                a.kill();
            });

    // Bursts from several threads, with a lock that both the raising threads and the callbacks take
    vf::explore("burst", vf::Opt().b(20).r(120).p(60).mi(60).wd(25), [](vf::Exec& e)
            {
                std::mutex user;
                One<U1> a, b;
                One<U2> c;
                One<TE> off(false);
                a.m.lock = &user;
                c.m.lock = &user;
                a.m.again = (int)e.rng.below(3);
                int again = a.m.again;
                int n1 = (int)e.rng.range(1, 5), n2 = (int)e.rng.range(0, 4), n3 = (int)e.rng.range(0, 3);
                auto burst = [&](int s, int n, bool locked)
                        {
                            return [&, s, n, locked]
                                   {
                                       for (int i = 0; i < n; ++i)
                                       {
                                           if (locked)
                                           {
                                               std::lock_guard<std::mutex> l(user);
                                               raise(s);
                                               vf_sched_point(5);
                                           }
                                           else raise(s);
                                       }
                                   };
                        };
                e.par({burst(SIGUSR1, n1, true), burst(SIGUSR2, n2, false), burst(SIGUSR1, n3, false), burst(SIGTERM, 1, false)});
                int t = n1 + n3 + std::min(again, n1 + n3 ? again : 0);
                bool ok = settle(a.m, t, "burst") && settle(b.m, t, "burst, second handler") && settle(c.m, n2, "burst, other signal");
                vf::sleep_us(300);
                VF_CHECK(!ok || (a.m.runs == t && b.m.runs == t && c.m.runs == n2 && off.m.runs == 0), "count",
                        "runs " << a.m.runs << "," << b.m.runs << "," << c.m.runs << "," << off.m.runs << " expected " << t << "," << t << "," << n2 << ",0");
                a.off();
                VF_CHECK(!ok || (int)a.h->event_count() == t, "count", "event_count " << a.h->event_count());
                a.kill(); b.kill(); c.kill(); off.kill();
                drain<TE>();
            });

    // Many deliveries while the callback is busy
    vf::batches("flood", 6, [](vf::Rng& r)
            {
                std::mutex user;
                One<U1> a, b(r.chance(50));
                One<U2> c;
                a.m.lock = &user;
                int n = (int)r.range(2, r.chance(20) ? 5000 : 400), m = (int)r.below(400);
                {
                    std::lock_guard<std::mutex> l(user);
                    std::thread o([&]{ for (int i = 0; i < m; ++i) raise(SIGUSR2); });
                    for (int i = 0; i < n; ++i) raise(SIGUSR1);
                    o.join();
                }
                bool ok = settle(a.m, n, "flood") && settle(c.m, m, "flood, other signal") && (!b.m.enabled || settle(b.m, n, "flood, second handler"));
                vf::sleep_us(300);
                VF_CHECK(!ok || (a.m.runs == n && c.m.runs == m), "count", "runs " << a.m.runs << "," << c.m.runs << " expected " << n << "," << m);
                VF_CHECK(!ok || vf::eventually([&]{ return (int)a.h->event_count() == n; }, 5000), "count", "event_count " << a.h->event_count() << " of " << n);
                vf::count("flood_deliveries", n + m);
                a.kill(); b.kill(); c.kill();
            });

    // Handlers come and go while signals arrive; one stays all the time and must see every delivery
    vf::explore("come-and-go", vf::Opt().b(20).r(150).p(80).mi(80).wd(25), [](vf::Exec& e)
            {
                One<U1> stays;
                uint64_t sd = e.rng.next();
                int n = 4;
                auto go = [&](int k)
                        {
                            return [&, k]
                                   {
                                       vf::Rng r(sd + k);
                                       for (int i = 0; i < 3; ++i)
                                       {
                                           One<U1> x(r.chance(70));
                                           for (int j = 0; j < (int)r.below(3); ++j)
                                           {
                                               if (r.chance(30)) vf::sleep_us((unsigned)r.below(200));
                                               x.off();
                                               x.on();
                                           }
                                           if (r.chance(40)) x.off();
                                           if (r.chance(30)) vf::sleep_us((unsigned)r.below(200));
                                           VF_CHECK(x.m.runs <= n, "count", "a handler ran " << x.m.runs << " times for " << n << " deliveries");
                                           x.kill();
                                       }
                                   };
                        };
                e.par({[&]{ for (int i = 0; i < n; ++i) { raise(SIGUSR1); vf::sleep_us(50); } }, go(1), go(2)});
                bool ok = settle(stays.m, n, "come-and-go");
                vf::sleep_us(200);
                VF_CHECK(!ok || stays.m.runs == n, "count", "runs " << stays.m.runs << " of " << n);
                stays.kill();
            });

    // Other signals interrupt the threads of the library while they wait
    vf::batches("interrupted", 12, [](vf::Rng& r)
            {
                One<U1> a, b(r.chance(50));
                One<TE> c;
                int n = 0, m = 0;
                bool ok = true;
                for (int round = 0; round < 4 && ok; ++round)
                {
                    if (r.chance(70)) vf::sleep_us((unsigned)r.below(3000));     // they wait again
                    for (int k = (int)r.below(4); k--;) vf::interrupt_threads();
                    for (int k = (int)r.below(3); k--; ++n) raise(SIGUSR1);
                    for (int k = (int)r.below(3); k--; ++m) raise(SIGTERM);
                    if (r.chance(50)) vf::interrupt_threads();
                    ok = settle(a.m, n, "interrupted") && settle(c.m, m, "interrupted, other signal");
                }
                vf::sleep_us(300);
                VF_CHECK(!ok || (a.m.runs == n && c.m.runs == m), "count", "runs " << a.m.runs << "," << c.m.runs << " expected " << n << "," << m);
                a.kill(); b.kill(); c.kill();
            });

    vf::batches("two-files", 2, [](vf::Rng&)
            {
                VF_CHECK(other_file_counts_sigusr2() == 1, "slow-lost", "handler of another file");
            });

    // Random sequences over handlers of the four signals, each step settled: exact counts
    vf::batches("sequential", 40, [](vf::Rng& r)
            {
                One<U1> a1(r.chance(50)), a2;
                One<U2> b1(r.chance(50)), b2;
                One<TE> c1(r.chance(50)), c2;
                One<IN> d1(r.chance(50)), d2;
                drain<U1>(); drain<U2>(); drain<TE>(); drain<IN>();
                int expect[8];
                Mon* ms[8] = {&a1.m, &a2.m, &b1.m, &b2.m, &c1.m, &c2.m, &d1.m, &d2.m};
                const int sig[8] = {SIGUSR1, SIGUSR1, SIGUSR2, SIGUSR2, SIGTERM, SIGTERM, SIGINT, SIGINT};
                for (int i = 0; i < 8; ++i) expect[i] = ms[i]->runs;
                uint64_t h = 0;
                for (int step = 0; step < 30; ++step)
                {
                    int k = (int)r.below(12);
                    h = vf::mix(h ^ k);
                    auto toggle = [&](auto& x) { if (x.m.enabled) x.off(); else x.on(); };
                    switch (k)
                    {
                        case 0: toggle(a1); break;
                        case 1: toggle(b1); break;
                        case 2: toggle(c1); break;
                        case 3: toggle(d1); break;
                        case 4: if (a1.m.enabled) a1.on(); break;        // set again while set
                        case 5: a1.off(); a1.off(); break;               // unset twice
                        default:
                        {
                            int s[] = {SIGUSR1, SIGUSR2, SIGTERM, SIGINT};
                            int sg = s[r.below(4)];
                            int n = (int)r.range(1, 4);
                            for (int i = 0; i < n; ++i) raise(sg);
                            for (int i = 0; i < 8; ++i) if (sig[i] == sg && ms[i]->enabled) expect[i] += n;
                            for (int i = 0; i < 8; ++i) if (!settle(*ms[i], expect[i], "sequential")) return;
                            vf::sleep_us(100);
                            h = vf::mix(h ^ (sg * 10 + n));
                        }
                    }
                    for (int i = 0; i < 8; ++i)
                        VF_CHECK(ms[i]->runs == expect[i], "count", "handler " << i << " ran " << ms[i]->runs << " times instead of " << expect[i] << " at step " << step);
                    vf::count("steps");
                }
                vf::seen("sequences", h);
                a1.kill(); a2.kill(); b1.kill(); b2.kill(); c1.kill(); c2.kill(); d1.kill(); d2.kill();
            });
    return vf::finish();
}
