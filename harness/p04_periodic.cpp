// P04: PeriodicEventHandler. Every run is stamped; gaps, runs outside the enabled intervals and promptness are checked.
#include <vf.hpp>
#include <blocked.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/exception/InitializationException.hpp>

using namespace eprosima::utils::event;
using P = PeriodicEventHandler;

// Monitor of one handler
struct Mon
{
    uint64_t period_ns;
    uint64_t earliest = 0;              // monotonic: the next run may not start before (0: must not run)
    std::atomic<int> enabled{0};        // 0: no run may start or be in progress
    std::atomic<int> inside{0}, runs{0};
    std::atomic<int> callback{0};       // number of the callback that must run (0: any)
    std::atomic<unsigned> callback_us{0};
    explicit Mon(unsigned ms) : period_ns(ms * 1000000ull) {}

    std::function<void()> cb(int k)
    {
        std::string mine = "data that callback " + std::to_string(k) + " captured on the heap";
        return [this, k, mine]
               {
                   uint64_t now = vf::now_ns();
                   VF_CHECK(inside.fetch_add(1) == 0, "overlap", "two runs overlap");
                   VF_CHECK(enabled.load() == 1, "run-while-disabled", "a run started while no callback was set");
                   VF_CHECK(now >= earliest, "early", "run " << runs << " started " << (earliest - now) << " ns early, period " << period_ns);
                   VF_CHECK(mine.size() > 10, "data", "");
                   int want = callback.load();
                   VF_CHECK(!want || want == k, "old-callback", "callback " << k << " ran instead of " << want);
                   unsigned us = callback_us.load();
                   if (us) vf::sleep_us(us);
                   vf_sched_point(1);
                   runs.fetch_add(1);
                   vf::count("steps");
                   VF_CHECK(inside.fetch_sub(1) == 1, "overlap", "");
                   earliest = vf::now_ns() + period_ns;
               };
    }
    // To be called with no run possible
    void arm()
    {
        earliest = vf::now_ns() + period_ns;
        enabled = 1;
    }
    void disarmed()
    {
        VF_CHECK(inside.load() == 0, "unset-during-run", "unset or destruction returned during a run");
        enabled = 0;
    }
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    // Long period: enabling, unset and destruction finish promptly at whatever point of the thread's wait
    for (unsigned period : {100000u, 4294967295u, 2147483648u})
    {
        vf::explore("prompt-" + std::to_string(period), vf::Opt().b(20).r(60).p(30).mi(50), [=](vf::Exec& e)
                {
                    Mon m(period);
                    std::unique_ptr<P> h;
                    bool in_ctor = e.rng.chance(50);
                    m.arm();
                    if (in_ctor) h = std::make_unique<P>(m.cb(1), period);
                    else
                    {
                        h = std::make_unique<P>(period);
                        h->set_callback(m.cb(1));
                    }
                    int n = (int)e.rng.below(3);
                    for (int i = 0; i < n; ++i)
                    {
                        h->unset_callback();
                        m.disarmed();
                        m.arm();
                        if (e.rng.chance(30)) vf::sleep_us((unsigned)e.rng.below(400));
                        h->set_callback(m.cb(i + 2));
                    }
                    if (e.rng.chance(50)) vf::sleep_us((unsigned)e.rng.below(1500));
                    if (e.rng.chance(50)) h->unset_callback();
                    h.reset();
                    m.disarmed();
                    VF_CHECK(m.runs == 0, "early", "ran within a period of " << period << " ms");
                });
    }

    // Short period: it fires again and again, with the right gaps, and never after unset returned
    vf::explore("fire", vf::Opt().b(16).r(50).p(24).mi(24).us(4000).wd(20), [](vf::Exec& e)
            {
                unsigned ms = (unsigned)e.rng.range(1, 6);
                Mon m(ms);
                auto h = std::make_unique<P>(ms);
                int total = 0;
                for (int c = 0; c < 3; ++c)
                {
                    m.callback_us = e.rng.chance(40) ? (unsigned)e.rng.below(ms * 1500) : 0;
                    int want = (int)e.rng.range(0, 3);
                    m.callback = c + 1;
                    m.arm();
                    int before = m.runs;
                    h->set_callback(m.cb(c + 1));
                    VF_CHECK(vf::eventually([&]{ return m.runs >= before + want; }), "slow-stopped", "no run " << want << " after 8 s, period " << ms << " ms");
                    if (e.rng.chance(50)) vf::sleep_us((unsigned)e.rng.below(ms * 1000));
                    h->unset_callback();
                    m.disarmed();
                    total = m.runs;
                    if (e.rng.chance(40)) vf::sleep_us((unsigned)e.rng.below(ms * 1500));
                    VF_CHECK(m.runs == total, "run-after-unset", "");
                    VF_CHECK((int)h->event_count() == total, "count", "event_count " << h->event_count() << " runs " << total);
                }
                h.reset();
                VF_CHECK(m.runs == total, "run-after-unset", "");
            });

    // Destruction while firing, without unset
    vf::explore("destroy-firing", vf::Opt().b(16).r(50).p(24).mi(40).us(3000), [](vf::Exec& e)
            {
                Mon m(1);
                auto shared = std::make_unique<std::string>("freed once the handler is gone");
                std::string* sp = shared.get();
                m.arm();
                auto inner = m.cb(1);
                auto h = std::make_unique<P>([inner, sp]{ VF_CHECK(sp->size() > 5, "data", ""); inner(); }, 1);
                m.callback_us = (unsigned)e.rng.below(900);
                if (e.rng.chance(80)) vf::sleep_us((unsigned)e.rng.below(3500));
                h.reset();
                m.disarmed();
                shared.reset();
            });

    // Replacing the callback while it fires
    vf::explore("replace", vf::Opt().b(10).r(40).p(20).mi(24).us(3000).wd(20), [](vf::Exec& e)
            {
                Mon m(1);
                P h(1);
                m.arm();
                h.set_callback(m.cb(1));
                for (int k = 2; k <= 4; ++k)
                {
                    if (e.rng.chance(60)) vf::sleep_us((unsigned)e.rng.below(2500));
                    m.callback = 0;
                    h.set_callback(m.cb(k));
                    m.callback = k;
                    int b = m.runs;
                    if (e.rng.chance(50))
                        VF_CHECK(vf::eventually([&]{ return m.runs > b + 1; }), "slow-stopped", "no run after the callback was replaced");
                }
                h.unset_callback();
                m.disarmed();
                VF_CHECK((int)h.event_count() == m.runs, "count", "event_count " << h.event_count() << " runs " << m.runs);
            });

    // A waiter gets the n-th run, or false at unset
    vf::explore("wait", vf::Opt().b(10).r(40).p(20).mi(30).us(2500).wd(20), [](vf::Exec& e)
            {
                Mon m(1);
                auto h = std::make_unique<P>(1);
                m.arm();
                h->set_callback(m.cb(1));
                int n = (int)e.rng.range(1, 3);
                std::atomic<int> t2{0};
                bool r2 = true;
                std::thread w([&]{ vf_sched_role(1); t2 = vf::tid(); r2 = h->wait_for_event(1000000); t2 = -1; });
                bool r = h->wait_for_event(n);
                VF_CHECK(r && m.runs + m.inside >= n, "wait", "wait_for_event(" << n << ") returned " << r << " after " << m.runs << " runs");
                bool ok = vf::wait_blocked(t2);
                h->unset_callback();
                m.disarmed();
                if (ok) h.reset();
                w.join();
                VF_CHECK(!r2, "wait", "wait for a million runs returned true");
            });

    // set, unset and destroy from several threads
    vf::explore("cycles", vf::Opt().b(10).r(60).p(30).mi(60).us(2000), [](vf::Exec& e)
            {
                Mon m(1);
                m.enabled = 1;
                P h(1);
                uint64_t sd = e.rng.next();
                auto th = [&](int k)
                        {
                            return [&, k]
                                   {
                                       vf::Rng r(sd + k);
                                       for (int i = 0; i < 4; ++i)
                                       {
                                           if (r.chance(50)) h.set_callback(m.cb(k));
                                           else h.unset_callback();
                                           if (r.chance(30)) vf::sleep_us((unsigned)r.below(1500));
                                       }
                                   };
                        };
                e.par({th(1), th(2), th(3)});
                h.unset_callback();
                m.disarmed();
                int b = m.runs;
                VF_CHECK((int)h.event_count() == b, "count", "event_count " << h.event_count() << " runs " << b);
            });

    // Sequential: period 0 refused; many handlers with different periods at once; ratio of runs
    vf::batches("many", 12, [](vf::Rng& r)
            {
                for (int i = 0; i < 2; ++i)
                {
                    bool thrown = false, other = false;
                    try
                    {
                        if (i) P h([]{ vf::viol("zero", "callback of a rejected handler ran"); }, 0);
                        else P h(0);
                    }
                    catch (const eprosima::utils::InitializationException&) { thrown = true; }
                    catch (...) { other = true; }
                    VF_CHECK(thrown && !other, "zero", "a period of 0 was not rejected with InitializationException");
                }
                std::vector<std::unique_ptr<Mon>> ms;
                std::vector<std::unique_ptr<P>> hs;
                uint64_t t0 = vf::now_ns();
                int n = (int)r.range(2, 6);
                uint64_t h = 0;
                for (int i = 0; i < n; ++i)
                {
                    unsigned ms_i = (unsigned)r.range(1, 40);
                    h = vf::mix(h ^ ms_i);
                    ms.push_back(std::make_unique<Mon>(ms_i));
                    ms.back()->arm();
                    hs.push_back(std::make_unique<P>(ms.back()->cb(i), ms_i));
                }
                VF_CHECK(vf::eventually([&]{ for (auto& m : ms) if (m->runs < 3) return false; return true; }), "slow-stopped", "not every handler fired 3 times within 8 s");
                for (int i = n - 1; i >= 0; --i)
                {
                    hs[i].reset();
                    ms[i]->disarmed();
                    uint64_t el = vf::now_ns() - t0;
                    VF_CHECK(ms[i]->runs * ms[i]->period_ns <= el, "too-often", ms[i]->runs << " runs of period " << ms[i]->period_ns << " in " << el << " ns");
                }
                vf::seen("sequences", h);
            });
    return vf::finish();
}
