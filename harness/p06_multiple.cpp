// P06: MultipleEventHandler over inner handlers of several kinds.
#include <vf.hpp>
#include <blocked.hpp>
#include <csignal>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/event/SignalEventHandler.hpp>

using namespace eprosima::utils::event;

struct InnerTag {};
using Alive = vf::Live<InnerTag>;

// A handler with a thread of its own that raises a number of events
struct Source : EventHandler<int, std::string>
{
    using Base = EventHandler<int, std::string>;
    Alive alive;
    std::atomic<int> go{0}, fired{0};
    std::atomic<bool> stop{false};
    std::thread th;
    Source(int n, int role, unsigned gap_us = 0)
    {
        th = std::thread([this, n, role, gap_us]
                {
                    vf_sched_role(role);
                    while (!go && !stop) std::this_thread::yield();
                    for (int i = 0; i < n && !stop; ++i)
                    {
                        event_occurred_(i, "event " + std::to_string(i) + " of a source, text on the heap");
                        fired.fetch_add(1);
                        if (gap_us) vf::sleep_us(gap_us);
                    }
                });
    }
    ~Source() override
    {
        // keeps raising events until the last moment
        unset_callback();
        stop = true;
        th.join();
    }
};
// Same, without arguments and without thread
struct Plain : EventHandler<>
{
    Alive alive;
    ~Plain() override { unset_callback(); }
};

struct Mon
{
    std::atomic<int> runs{0}, inside{0}, enabled{1};
    std::unique_ptr<std::string> data{new std::string("freed after the multiple handler was destroyed")};
    std::function<void()> cb()
    {
        return [this]
               {
                   VF_CHECK(enabled == 1, "run-while-disabled", "the callback ran after unset or destruction had returned");
                   VF_CHECK(inside.fetch_add(1) == 0, "overlap", "two runs overlap");
                   VF_CHECK(data->size() > 5, "data", "");
                   vf_sched_point(1);
                   runs.fetch_add(1);
                   inside.fetch_sub(1);
                   vf::count("steps");
               };
    }
    void off()
    {
        VF_CHECK(inside == 0, "unset-during-run", "unset or destruction returned during a run");
        enabled = 0;
    }
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    // Exact count over several sources that fire at once; previous callbacks
    vf::explore("count", vf::Opt().b(30).r(150).p(80).mi(60), [](vf::Exec& e)
            {
                Mon m;
                std::atomic<int> old_runs{0};
                std::atomic<int> registered[3] = {};
                {
                    MultipleEventHandler h(m.cb());
                    Source* s[3];
                    int n[3], total = 0;
                    for (int i = 0; i < 3; ++i)
                    {
                        n[i] = (int)e.rng.range(1, 5);
                        total += n[i];
                        auto u = std::make_unique<Source>(n[i], i);
                        s[i] = u.get();
                        u->set_callback([&, i](int, std::string)
                                {
                                    VF_CHECK(!registered[i], "previous-callback", "the callback set before registering ran after it");
                                    old_runs.fetch_add(1);
                                });
                        if (e.rng.chance(30)) s[i]->go = 1;      // fires while it is being registered
                        h.register_event_handler<EventHandler<int, std::string>, int, std::string>(std::move(u));
                        registered[i] = 1;
                    }
                    for (auto x : s) x->go = 1;
                    if (e.rng.chance(50) && total > 4)
                    {
                        // whichever comes first wakes
                        bool r = h.wait_for_event(1);
                        VF_CHECK(r && h.event_count() >= 1, "wait", "woken with " << h.event_count() << " events");
                    }
                    bool ok = vf::eventually([&]{ for (int i = 0; i < 3; ++i) if (s[i]->fired < n[i]) return false; return true; });
                    VF_CHECK(ok, "slow-blocked", "sources did not finish");
                    VF_CHECK(m.runs + old_runs == total, "count", m.runs << " runs and " << old_runs << " of previous callbacks for " << total << " events");
                    VF_CHECK((int)h.event_count() == m.runs, "count", "event_count " << h.event_count() << ", runs " << m.runs);
                    VF_CHECK(h.wait_for_event(m.runs), "wait", "");
                }
                m.off();
                VF_CHECK(Alive::n() == 0, "inner-alive", Alive::n() << " inner handlers were not destroyed");
            });

    // Destruction while events of all kinds keep arriving
    vf::explore("destroy", vf::Opt().b(30).r(150).p(80).mi(80), [](vf::Exec& e)
            {
                Mon m;
                std::atomic<bool> stop{false};
                std::thread sig;
                {
                    auto h = std::make_unique<MultipleEventHandler>(m.cb());
                    bool with_signal = e.rng.chance(60);
                    int kinds = 0;
                    for (int i = 0; i < 2; ++i)
                    {
                        if (e.rng.chance(70))
                        {
                            auto u = std::make_unique<Source>(1000000, i, 20);
                            u->go = 1;
                            h->register_event_handler<EventHandler<int, std::string>, int, std::string>(std::move(u));
                            ++kinds;
                        }
                    }
                    if (e.rng.chance(50))
                    {
                        h->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(new PeriodicEventHandler(1)));
                        ++kinds;
                    }
                    if (with_signal || !kinds)
                    {
                        h->register_event_handler<EventHandler<Signal>, Signal>(std::unique_ptr<EventHandler<Signal>>(new SignalEventHandler<Signal::sigusr1>()));
                        sig = std::thread([&]{ vf_sched_role(3); while (!stop) { raise(SIGUSR1); vf::sleep_us(150); } });
                    }
                    if (e.rng.chance(50)) h->wait_for_event((uint32_t)e.rng.range(1, 3));
                    if (e.rng.chance(30)) vf::sleep_us((unsigned)e.rng.below(1500));
                    if (e.rng.chance(30))
                    {
                        h->unset_callback();
                        m.off();
                    }
                    h.reset();
                }
                m.off();
                VF_CHECK(Alive::n() == 0, "inner-alive", Alive::n() << " inner handlers were not destroyed");
                m.data.reset();
                stop = true;
                if (sig.joinable()) sig.join();
            });

    // Waiters on the multiple handler, woken by one event of one inner handler or by unset
    vf::explore("wait", vf::Opt().b(20).r(100).p(60).mi(60), [](vf::Exec& e)
            {
                Mon m;
                MultipleEventHandler h;                 // default callback: enabled
                Plain* p[2];
                for (auto& x : p)
                {
                    auto u = std::make_unique<Plain>();
                    x = u.get();
                    h.register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(std::move(u)));
                }
                int n = (int)e.rng.range(1, 2);
                bool unset = e.rng.chance(30);
                e.par({[&]{ bool r = h.wait_for_event(n); VF_CHECK(r || unset, "wait", "wait for " << n << " events ended without them"); },
                       [&]{ p[0]->simulate_event_occurred(); },
                       [&]{ p[1]->simulate_event_occurred(); if (unset) h.unset_callback(); },
                       [&]{ bool r = h.wait_for_event(1); VF_CHECK(r || unset, "wait", "wait for one event ended without it"); }});
                if (!unset) VF_CHECK(h.event_count() == 2, "count", h.event_count());
            });

    // A long life
    vf::batches("long", 2, [](vf::Rng& r)
            {
                Mon m;
                MultipleEventHandler h(m.cb());
                std::vector<Plain*> inner;
                for (int i = 0; i < 3; ++i)
                {
                    auto u = std::make_unique<Plain>();
                    inner.push_back(u.get());
                    h.register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(std::move(u)));
                }
                int n = (int)r.range(60000, 150000);
                for (int i = 0; i < n; ++i) inner[r.below(3)]->simulate_event_occurred();
                VF_CHECK(m.runs == n && (int)h.event_count() == n, "count", "runs " << m.runs << ", count " << h.event_count() << " of " << n);
                h.unset_callback();
                m.off();
            });

    // Many inner handlers
    vf::batches("many", 4, [](vf::Rng& r)
            {
                Mon m;
                int old = 0;
                const size_t n = r.range(60, 1500);
                {
                    MultipleEventHandler h(m.cb());
                    std::vector<Plain*> inner;
                    for (size_t i = 0; i < n; ++i)
                    {
                        auto u = std::make_unique<Plain>();
                        if (r.chance(50)) u->set_callback([&]{ ++old; });
                        inner.push_back(u.get());
                        h.register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(std::move(u)));
                        if (r.chance(10)) VF_CHECK(Alive::n() == (long)i + 1, "inner-lost", Alive::n() << " inner handlers live of " << i + 1 << " registered");
                    }
                    if (Alive::n() != (long)n)
                    {
                        vf::viol("inner-lost", std::to_string(Alive::n()) + " inner handlers live of " + std::to_string(n) + " registered");
                        return;
                    }
                    int want = 0;
                    for (size_t i = 0; i < 2 * n; ++i)
                    {
                        inner[i < n ? i : r.below(n)]->simulate_event_occurred();
                        ++want;
                        VF_CHECK(m.runs == want && (int)h.event_count() == want && old == 0, "count",
                                "runs " << m.runs << " of " << want << ", count " << h.event_count() << ", of previous callbacks " << old << ", " << n << " inner handlers");
                    }
                }
                m.off();
                VF_CHECK(Alive::n() == 0, "inner-alive", Alive::n() << " inner handlers were not destroyed");
            });

    // Sequential sequences, nested multiple handlers
    vf::batches("sequential", 40, [](vf::Rng& r)
            {
                for (int c = 0; c < 10; ++c)
                {
                    Mon m;
                    uint64_t hash = 0;
                    {
                        auto h = std::make_unique<MultipleEventHandler>(m.cb());
                        auto nested_u = std::make_unique<MultipleEventHandler>();
                        MultipleEventHandler* nested = nested_u.get();
                        std::vector<Plain*> inner;
                        std::vector<int> in_nested;
                        int old = 0;
                        auto add = [&](MultipleEventHandler* to)
                                {
                                    auto u = std::make_unique<Plain>();
                                    if (r.chance(50)) u->set_callback([&]{ ++old; });
                                    inner.push_back(u.get());
                                    in_nested.push_back(to == nested);
                                    to->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(std::move(u)));
                                };
                        for (int i = 0; i < (int)r.below(3); ++i) add(nested);
                        h->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(std::move(nested_u)));
                        add(h.get());
                        int runs = 0, count = 0;
                        bool on = true;
                        for (int i = 0; i < 40; ++i)
                        {
                            int k = (int)r.below(8);
                            hash = vf::mix(hash ^ k);
                            if (k == 0) { add(r.chance(50) ? nested : h.get()); }
                            else if (k == 1) { h->unset_callback(); on = false; }
                            else if (k == 2) { h->set_callback(m.cb()); on = true; }
                            else if (k == 3) { h->reset_event_count(); count = 0; }
                            else
                            {
                                int j = (int)r.below(inner.size());
                                hash = vf::mix(hash ^ (100 + j));
                                inner[j]->simulate_event_occurred();
                                if (on) { ++runs; ++count; }
                            }
                            VF_CHECK(m.runs == runs && (int)h->event_count() == count && old == 0, "sequential",
                                    "runs " << m.runs << " of " << runs << ", count " << h->event_count() << " of " << count << ", previous " << old);
                            vf::count("steps");
                        }
                        h.reset();
                    }
                    m.off();
                    VF_CHECK(Alive::n() == 0, "inner-alive", Alive::n() << " inner handlers were not destroyed");
                    vf::seen("sequences", hash);
                }
            });
    return vf::finish();
}
