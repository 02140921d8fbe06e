// Nothing that has to wait gives up because it takes long: each blocking call is kept waiting for several seconds
// (for the property that VF_PART says), and things that happen after a long idle time happen all the same.
#include <vf.hpp>
#if VF_PART == 1
#include <cpp_utils/memory/owner_ptr.hpp>
#elif VF_PART == 2
#include <cpp_utils/collection/database/SafeDatabase.hpp>
#elif VF_PART == 3
#include <cpp_utils/event/EventHandler.hpp>
#elif VF_PART == 4
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#elif VF_PART == 5
#include <csignal>
#include <cpp_utils/event/SignalEventHandler.hpp>
#elif VF_PART == 6
#include <cpp_utils/event/MultipleEventHandler.hpp>
#elif VF_PART == 7
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#elif VF_PART == 8
#include <cpp_utils/event/FileWatcherHandler.hpp>
#elif VF_PART == 10
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>
#elif VF_PART == 11
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#elif VF_PART == 12
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#elif VF_PART == 16
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Singleton.hpp>
#elif VF_PART == 33
#include <shared_mutex>
#include <cpp_utils/types/Atomicable.hpp>
#elif VF_PART == 35
#include <FileWatch.hpp>
#endif
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#if VF_PART != 35
using namespace eprosima::utils;
#endif
#if VF_PART != 1 && VF_PART != 2 && VF_PART != 16 && VF_PART != 33 && VF_PART != 35
using namespace eprosima::utils::event;
#endif

static unsigned hold_ms;
static void hold() { vf::sleep_us((uint64_t)hold_ms * 1000); }

// `block` waits until `let` is called, however long that takes, and returns then
template <class B, class L> void held(const std::string& what, B block, L let)
{
    std::atomic<bool> back{false};
    std::thread t([&] { block(); back = true; });
    const int64_t t0 = vf::now_ns(), end = t0 + (int64_t)hold_ms * 1000000;
    while (!back && vf::now_ns() < end) vf::sleep_us(2000);
    VF_CHECK(!back, "gave-up", what << " returned after " << (vf::now_ns() - t0) / 1000000 << " ms, although what it waits for had not happened");
    let();
    bool b = vf::eventually([&] { return back.load(); }, 20000);
    VF_CHECK(b, "slow-after-long", what << " did not return although what it waited for had happened, after " << hold_ms << " ms");
    t.join();
    vf::count("steps");
    vf::count("held");
    vf::seen("sequences", vf::hash_str(what));
}
struct Gate
{
    std::atomic<bool> open{false}, in{false};
    std::atomic<int> runs{0}, inside{0};
    // What a callback does: the first run stays until the gate opens
    void pass()
    {
        VF_CHECK(inside.fetch_add(1) == 0, "overlap", "a run started while another one had been going on for long");
        if (runs.fetch_add(1) == 0)
        {
            in = true;
            while (!open) vf::sleep_us(1000);
        }
        inside.fetch_sub(1);
    }
    bool entered() { return vf::eventually([this] { return in.load(); }, 20000); }
    bool reached(int n) { return vf::eventually([&] { return runs >= n && inside == 0; }, 20000); }
};
using Jobs = std::vector<std::function<void()>>;
void put(const std::string& f, const char* text)
{
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | O_TRUNC, 0644);
    if (fd < 0 || write(fd, text, strlen(text)) < 0) abort();
    close(fd);
}
static std::string g_tmp;

#if VF_PART == 1
Jobs jobs()
{
    struct Data { int v = 7; ~Data() { v = 0; } };
    auto one = [](int kind)
            {
                OwnerPtr<Data> owner(new Data), other(new Data);
                auto lease = owner.lease();
                auto guard = lease.lock();
                held(kind == 0 ? "reset() with a guard alive" : kind == 1 ? "move-assignment with a guard alive" : "destruction with a guard alive", [&]
                        {
                            if (kind == 0) owner.reset();
                            else if (kind == 1) owner = std::move(other);
                            else { OwnerPtr<Data> dies(std::move(owner)); }
                        }, [&]
                        {
                            VF_CHECK(guard && guard->v == 7, "destroyed", "the data under the guard is gone");
                            auto g = std::move(guard);
                        });
                VF_CHECK(!lease.lock(), "valid-again", "a guard over an object that is gone");
            };
    return {[=] { one(0); }, [=] { one(1); }, [=] { one(2); }};
}
#elif VF_PART == 2
Jobs jobs()
{
    using Db = SafeDatabase<int, std::string>;
    using It = SafeDatabaseIterator<int, std::string>;
    auto one = [](int kind)
            {
                Db db;
                db.add(1, "a");
                auto it = std::make_unique<It>(db.begin());
                held(kind == 0 ? "add() with an iterator alive" : kind == 1 ? "erase() with an iterator alive" : "modify() with an iterator alive", [&]
                        {
                            if (kind == 0) db.add(2, "b");
                            else if (kind == 1) db.erase(1);
                            else db.modify(1, "c");
                        }, [&]
                        {
                            VF_CHECK(db.size() == 1 && (*it)->second == "a", "changed", "changed while an iterator was alive");
                            it.reset();
                        });
                VF_CHECK(kind == 0 ? db.size() == 2 : kind == 1 ? db.size() == 0 : db.at(1) == "c", "no-effect", "no effect once the iterator was gone");
            };
    return {[=] { one(0); }, [=] { one(1); }, [=] { one(2); }};
}
#elif VF_PART == 3
struct H : EventHandler<int>
{
    ~H() { unset_callback(); }
};
Jobs jobs()
{
    return {
        []
        {
            H h;
            h.set_callback([](int) {});
            std::atomic<int> r{-1};
            held("wait_for_event()", [&] { r = h.wait_for_event(2); }, [&] { h.simulate_event_occurred(1); h.simulate_event_occurred(2); });
            VF_CHECK(r == 1, "wait-false", "wait_for_event returned false without unset");
        },
        []
        {
            H h;
            h.set_callback([](int) {});
            std::atomic<int> r{-1};
            held("wait_for_event() on a handler that is unset later", [&] { r = h.wait_for_event(2); }, [&] { h.unset_callback(); });
            VF_CHECK(r == 0, "wait-true", "wait_for_event returned true without events");
        },
        []
        {
            Gate g;
            H h;
            h.set_callback([&](int) { g.pass(); });
            std::thread ev([&] { h.simulate_event_occurred(1); });
            g.entered();
            held("unset_callback() during a long run", [&] { h.unset_callback(); VF_CHECK(g.open, "unset-during-run", ""); }, [&] { g.open = true; });
            ev.join();
            VF_CHECK(h.event_count() == 1, "count", h.event_count());
        },
        []
        {
            Gate g;
            H h;
            h.set_callback([&](int) { g.pass(); });
            std::thread ev([&] { h.simulate_event_occurred(1); });
            g.entered();
            held("an event during a long run", [&] { h.simulate_event_occurred(2); }, [&] { VF_CHECK(g.runs == 1, "overlap", ""); g.open = true; });
            ev.join();
            VF_CHECK(g.runs == 2 && h.event_count() == 2, "lost", g.runs << " runs and a count of " << h.event_count() << " after 2 events");
        },
        []
        {
            Gate g;
            H h;
            std::atomic<int> other{0};
            h.set_callback([&](int) { g.pass(); });
            std::thread ev([&] { h.simulate_event_occurred(1); });
            g.entered();
            held("an event after a replacement during a long run", [&] { h.set_callback([&](int) { ++other; }); h.simulate_event_occurred(2); }, [&] { g.open = true; });
            ev.join();
            VF_CHECK(g.runs == 1 && other == 1 && h.event_count() == 2, "replaced", g.runs << " runs of the old one, " << other << " of the new one, count " << h.event_count());
        },
        []
        {
            auto h = std::make_unique<H>();
            Gate g;
            h->set_callback([&](int) { g.pass(); });
            std::thread ev([&] { h->simulate_event_occurred(1); });
            g.entered();
            std::thread w([&] { VF_CHECK(!h->wait_for_event(5), "wait-true", ""); });
            held("the end of a wait by unset during a long run", [&] { h->unset_callback(); w.join(); }, [&] { g.open = true; });
            ev.join();
            h.reset();
        },
    };
}
#elif VF_PART == 4
Jobs jobs()
{
    return {
        []
        {
            Gate g;
            PeriodicEventHandler h([&] { g.pass(); }, 5);
            g.entered();
            held("unset_callback() during a long run", [&] { h.unset_callback(); VF_CHECK(g.open, "unset-during-run", ""); }, [&] { VF_CHECK(g.runs == 1, "overlap", ""); g.open = true; });
            VF_CHECK(g.runs == 1, "run-while-disabled", g.runs);
        },
        []
        {
            Gate g;
            auto h = std::make_unique<PeriodicEventHandler>([&] { g.pass(); }, 5);
            g.entered();
            held("destruction during a long run", [&] { h.reset(); VF_CHECK(g.open, "destroyed-during-run", ""); }, [&] { g.open = true; });
        },
        []
        {
            // after a long run it goes on
            Gate g;
            PeriodicEventHandler h([&] { g.pass(); }, 5);
            g.entered();
            hold();
            g.open = true;
            VF_CHECK(g.reached(4), "slow-after-long", "no run any more after one of " << hold_ms << " ms");
        },
        []
        {
            // a long period is kept
            std::atomic<int> n{0};
            PeriodicEventHandler h([&] { ++n; }, hold_ms + 600);
            hold();
            VF_CHECK(n == 0, "early", "ran within " << hold_ms << " ms, period " << hold_ms + 600);
            VF_CHECK(vf::eventually([&] { return n > 0; }, 20000), "slow-after-long", "a handler of period " << hold_ms + 600 << " ms does not run");
        },
        []
        {
            // disabled for long, and enabled again
            std::atomic<int> n{0};
            PeriodicEventHandler h([&] { ++n; }, 5);
            h.unset_callback();
            int before = n;
            hold();
            VF_CHECK(n == before, "run-while-disabled", n - before << " runs while disabled");
            h.set_callback([&] { ++n; });
            VF_CHECK(vf::eventually([&] { return n > before + 2; }, 20000), "slow-after-long", "does not run after being disabled for long");
        },
    };
}
#elif VF_PART == 5
Jobs jobs()
{
    return {
        []
        {
            // One after another: the signals of a process have one thread that runs what they are for
            {
                Gate g;
                SignalEventHandler<Signal::sigusr1> h([&](Signal) { g.pass(); });
                raise(SIGUSR1);
                g.entered();
                raise(SIGUSR1);
                raise(SIGUSR1);
                held("unset_callback() during a long run", [&] { h.unset_callback(); VF_CHECK(g.open, "unset-during-run", ""); }, [&] { VF_CHECK(g.runs == 1, "overlap", ""); g.open = true; });
            }
            {
                Gate g;
                SignalEventHandler<Signal::sigusr1> h([&](Signal) { g.pass(); });
                raise(SIGUSR1);
                g.entered();
                raise(SIGUSR1);
                raise(SIGUSR1);
                hold();
                VF_CHECK(g.runs == 1, "overlap", "");
                g.open = true;
                VF_CHECK(g.reached(3), "slow-lost", g.runs << " runs for 3 signals, two of them raised during a long run");
                // idle for long
                hold();
                raise(SIGUSR1);
                VF_CHECK(g.reached(4), "slow-lost", g.runs << " runs for 4 signals, the last one after a long idle time");
                vf::sleep_us(2000);
                VF_CHECK(g.runs == 4 && h.event_count() == 4, "count", g.runs << " runs, count " << h.event_count());
            }
            {
                Gate g;
                auto h = std::make_unique<SignalEventHandler<Signal::sigusr2>>([&](Signal) { g.pass(); });
                raise(SIGUSR2);
                g.entered();
                held("destruction during a long run", [&] { h.reset(); VF_CHECK(g.open, "destroyed-during-run", ""); }, [&] { g.open = true; });
            }
        },
    };
}
#elif VF_PART == 6
struct Inner : EventHandler<>
{
    ~Inner() override { unset_callback(); }
};
Jobs jobs()
{
    return {
        []
        {
            Gate g;
            MultipleEventHandler m([&] { g.pass(); });
            auto* a = new Inner;
            auto* b = new Inner;
            m.register_event_handler<Inner>(std::unique_ptr<Inner>(a));
            m.register_event_handler<Inner>(std::unique_ptr<Inner>(b));
            std::thread ev([&] { a->simulate_event_occurred(); });
            g.entered();
            held("an event of one inner handler during a long run for another", [&] { b->simulate_event_occurred(); }, [&] { g.open = true; });
            ev.join();
            VF_CHECK(g.runs == 2 && m.event_count() == 2, "lost", g.runs << " runs, count " << m.event_count() << " after 2 events");
        },
        []
        {
            MultipleEventHandler m([] {});
            auto* a = new Inner;
            m.register_event_handler<Inner>(std::unique_ptr<Inner>(a));
            std::atomic<int> r{-1};
            held("wait_for_event()", [&] { r = m.wait_for_event(); }, [&] { a->simulate_event_occurred(); });
            VF_CHECK(r == 1, "wait-false", "");
        },
        []
        {
            Gate g;
            auto m = std::make_unique<MultipleEventHandler>([&] { g.pass(); });
            auto* a = new Inner;
            m->register_event_handler<Inner>(std::unique_ptr<Inner>(a));
            std::thread ev([&] { a->simulate_event_occurred(); });
            g.entered();
            held("destruction during a long run", [&] { m.reset(); VF_CHECK(g.open, "destroyed-during-run", ""); }, [&] { g.open = true; ev.join(); });
        },
        []
        {
            Gate g;
            MultipleEventHandler m([&] { g.pass(); });
            auto* a = new Inner;
            m.register_event_handler<Inner>(std::unique_ptr<Inner>(a));
            std::thread ev([&] { a->simulate_event_occurred(); });
            g.entered();
            held("unset_callback() during a long run", [&] { m.unset_callback(); VF_CHECK(g.open, "unset-during-run", ""); }, [&] { g.open = true; ev.join(); });
        },
    };
}
#elif VF_PART == 7
Jobs jobs()
{
    return {[]
            {
                Log::Reset();
                Log::SetVerbosity(Log::Kind::Info);
                {
                    // Handlers that get entries after and while one of them takes long
                    Gate g;
                    std::mutex mx;
                    std::vector<std::string> got, all;
                    LogEventHandler h([&](Log::Entry e)
                            {
                                std::lock_guard<std::mutex> l(mx);
                                got.push_back(e.message);
                                g.pass();
                            });
                    LogSevereEventHandler s([&](Log::Entry e) { all.push_back(e.message); }, Log::Kind::Warning);
                    std::vector<std::string> want;
                    for (int i = 0; i < 40; ++i)
                    {
                        want.push_back("entry " + std::to_string(i));
                        Log::QueueLog(want.back(), Log::Context{"f", 1, "g", "CAT"}, Log::Kind::Warning);
                        if (i == 0) g.entered();
                    }
                    hold();
                    VF_CHECK(g.runs == 1, "overlap", "");
                    g.open = true;
                    VF_CHECK(g.reached(40), "slow-lost", g.runs << " entries of 40 passed on, after a callback that took " << hold_ms << " ms");
                    Log::Flush();
                    std::lock_guard<std::mutex> l(mx);
                    VF_CHECK(got == want && all == want, "wrong", "entries are missing or changed after a callback that took long");
                }
                for (int kind = 0; kind < 2; ++kind)
                {
                    Gate g;
                    auto h = std::make_unique<LogEventHandler>([&](Log::Entry) { g.pass(); });
                    Log::QueueLog("long", Log::Context{"f", 1, "g", "CAT"}, Log::Kind::Warning);
                    g.entered();
                    held(kind ? "destruction during a long run" : "unset_callback() during a long run", [&]
                            {
                                if (kind) h.reset();
                                else h->unset_callback();
                                VF_CHECK(g.open, "destroyed-during-run", "");
                            }, [&] { g.open = true; });
                }
                Log::Reset();
            }};
}
#elif VF_PART == 8
Jobs jobs()
{
    return {
        []
        {
            Gate g;
            std::string f = g_tmp + "/a";
            put(f, "0");
            auto h = std::make_unique<FileWatcherHandler>([&](std::string) { g.pass(); }, f);
            hold();
            VF_CHECK(g.runs == 0, "spurious", "callback without a modification");
            put(f, "after a long idle time");
            VF_CHECK(g.entered(), "slow-lost", "no callback for a modification after a long idle time");
            held("unset_callback() during a long run", [&] { h->unset_callback(); VF_CHECK(g.open, "unset-during-run", ""); }, [&] { g.open = true; });
        },
        []
        {
            Gate g;
            std::string f = g_tmp + "/b";
            put(f, "0");
            auto h = std::make_unique<FileWatcherHandler>([&](std::string) { g.pass(); }, f);
            put(f, "1");
            g.entered();
            held("destruction during a long run", [&] { h.reset(); VF_CHECK(g.open, "destroyed-during-run", ""); }, [&] { g.open = true; });
        },
        []
        {
            Gate g;
            std::string f = g_tmp + "/c";
            put(f, "0");
            FileWatcherHandler h([&](std::string) { g.pass(); }, f);
            put(f, "1");
            g.entered();
            hold();
            int n = g.runs;
            put(f, "2");
            g.open = true;
            VF_CHECK(g.reached(n + 1), "slow-lost", "no callback for a modification made during a long run");
        },
    };
}
#elif VF_PART == 10
Jobs jobs()
{
    Jobs v;
    for (unsigned ms : {0u, 600000u})
    {
        std::string how = ms ? " with a long timeout" : "";
        v.push_back([=]
                {
                    IntWaitHandler h(1);
                    AwakeReason a{};
                    held("wait_equal()" + how, [&] { a = h.wait_equal(5, ms); }, [&] { h.set_value(4); h.set_value(5); });
                    VF_CHECK(a == AwakeReason::condition_met, "reason", (int)a);
                });
        v.push_back([=]
                {
                    BooleanWaitHandler h(false);
                    AwakeReason a{};
                    held("wait() for the door" + how, [&] { a = h.wait(ms); }, [&] { h.open(); });
                    VF_CHECK(a == AwakeReason::condition_met, "reason", (int)a);
                });
        v.push_back([=]
                {
                    WaitHandler<std::string> h("a");
                    AwakeReason a{};
                    held("wait()" + how, [&] { a = h.wait([](const std::string& s) { return s == "b"; }, ms); }, [&] { h.disable(); });
                    VF_CHECK(a == AwakeReason::disabled, "reason", (int)a);
                });
        v.push_back([=]
                {
                    // Conditions that take long: disabling and destruction wait for them
                    auto h = std::make_unique<WaitHandler<std::string>>("a");
                    std::atomic<bool> in{false}, open{false};
                    AwakeReason a{};
                    std::thread w([&]
                            {
                                a = h->wait([&](const std::string&)
                                        {
                                            in = true;
                                            while (!open) vf::sleep_us(1000);
                                            return false;
                                        }, ms);
                            });
                    vf::eventually([&] { return in.load(); }, 20000);
                    held(ms ? "destruction during a long condition" : "blocking_disable() during a long condition", [&]
                            {
                                if (!ms) h->blocking_disable();
                                else h.reset();
                                VF_CHECK(open, "disabled-during-wait", "");
                            }, [&] { open = true; });
                    w.join();
                    VF_CHECK(a == AwakeReason::disabled, "reason", (int)a);
                });
    }
    v.push_back([]
            {
                IntWaitHandler h(1);
                int64_t t0 = vf::now_ns();
                AwakeReason a = h.wait_equal(5, hold_ms);
                double took = (double)(vf::now_ns() - t0) / 1e6;
                VF_CHECK(a == AwakeReason::timeout && took >= hold_ms - 0.01, "early", "wait of " << hold_ms << " ms ended by " << (int)a << " after " << took);
                VF_CHECK(took < hold_ms + 20000, "slow-after-long", "wait of " << hold_ms << " ms took " << took);
            });
    return v;
}
#elif VF_PART == 11
Jobs jobs()
{
    Jobs v;
    for (unsigned ms : {0u, 600000u})
    {
        std::string how = ms ? " with a long timeout" : "";
        v.push_back([=]
                {
                    DBQueueWaitHandler<int> q;
                    std::atomic<int> got{-1};
                    held("consume()" + how, [&] { got = q.consume(ms); }, [&] { q.produce(8); });
                    VF_CHECK(got == 8, "element", got);
                });
        v.push_back([=]
                {
                    DBQueueWaitHandler<int> q;
                    std::atomic<int> got{-1};
                    held("consume() of a handler that is disabled later" + how, [&]
                            {
                                try { got = q.consume(ms); }
                                catch (const DisabledException&) { got = 100; }
                            }, [&] { q.disable(); });
                    VF_CHECK(got == 100, "element", got);
                });
        v.push_back([=]
                {
                    DBQueueWaitHandler<int> q;
                    q.produce(1);
                    q.produce(2);
                    AwakeReason a{};
                    held("wait_all_consumed()" + how, [&] { a = q.wait_all_consumed(ms); }, [&] { q.consume(); q.consume(); });
                    VF_CHECK(a == AwakeReason::condition_met, "reason", (int)a);
                });
        v.push_back([=]
                {
                    CounterWaitHandler c(0, 0);
                    AwakeReason a{};
                    held("wait_and_decrement()" + how, [&] { a = c.wait_and_decrement(ms); }, [&] { ++c; });
                    VF_CHECK(a == AwakeReason::condition_met && c.get_value() == 0, "reason", (int)a);
                });
        v.push_back([=]
                {
                    CounterWaitHandler c(3, 1);
                    AwakeReason a{};
                    held("wait_threshold_reached()" + how, [&] { a = c.wait_threshold_reached(ms); }, [&] { ++c; ++c; });
                    VF_CHECK(a == AwakeReason::condition_met, "reason", (int)a);
                });
    }
    return v;
}
#elif VF_PART == 12
Jobs jobs()
{
    Jobs v;
    for (int kind = 0; kind < 4; ++kind)
        v.push_back([=]
                {
                    Gate g;
                    std::atomic<int> after{0};
                    TaskId id{1}, quick{2};
                    auto p = std::make_unique<SlotThreadPool>(kind == 3 ? 1 : 2);
                    p->slot(id, Task([&] { g.pass(); }));
                    p->slot(quick, Task([&] { ++after; }));
                    p->enable();
                    p->emit(id);
                    g.entered();
                    if (kind == 3) p->emit(quick);
                    AwakeReason a{};
                    held(kind == 0 ? "disable() during a long task" : kind == 1 ? "destruction during a long task" : "wait_all_consumed() during a long task", [&]
                            {
                                if (kind == 0) p->disable();
                                else if (kind == 1) p.reset();
                                else a = p->wait_all_consumed();
                                VF_CHECK(g.open, "during-task", "returned while a task was running");
                            }, [&] { VF_CHECK(kind != 3 || after == 0, "too-many", ""); g.open = true; });
                    VF_CHECK(kind < 2 || a == AwakeReason::condition_met, "reason", (int)a);
                    VF_CHECK(kind != 3 || after == 1, "lost", after);
                    if (kind == 0)
                    {
                        p->enable();
                        p->emit(quick);
                        VF_CHECK(vf::eventually([&] { return after == 1; }, 20000), "slow-lost", "task emitted after a long one");
                    }
                });
    v.push_back([]
            {
                // idle for long, and disabled for long
                std::atomic<int> n{0};
                TaskId id{1};
                SlotThreadPool p(3);
                p.slot(id, Task([&] { ++n; }));
                p.enable();
                hold();
                for (int i = 0; i < 20; ++i) p.emit(id);
                VF_CHECK(vf::eventually([&] { return n == 20; }, 20000), "slow-lost", n << " runs of 20 tasks emitted after a long idle time");
                p.disable();
                for (int i = 0; i < 20; ++i) p.emit(id);
                hold();
                VF_CHECK(n == 20, "run-while-disabled", n);
                p.enable();
                VF_CHECK(vf::eventually([&] { return n == 40; }, 20000), "slow-lost", n << " runs of 40 tasks, 20 of them emitted while disabled for long");
            });
    return v;
}
#elif VF_PART == 16
struct Slow
{
    std::string text;
    static std::atomic<int>& built() { static std::atomic<int> n{0}; return n; }
    Slow() { hold(); text = "whole"; ++built(); }
    Slow(int) : Slow() {}
};
template <int K> struct Which : Slow { using Slow::Slow; static std::atomic<int> n; Which() { ++n; } Which(int i) : Slow(i) { ++n; } };
template <int K> std::atomic<int> Which<K>::n{0};

Jobs jobs()
{
    static std::atomic<bool> done{false};
    if (done.exchange(true)) return {};
    return {
        []
        {
            using S = Singleton<Which<1>>;
            std::vector<std::thread> v;
            std::mutex mx;
            std::set<Which<1>*> got;
            for (int i = 0; i < 6; ++i)
                v.emplace_back([&, i]
                        {
                            vf::sleep_us((unsigned)i * hold_ms * 150);
                            auto p = S::get_shared_instance();
                            VF_CHECK(p && p->text == "whole", "half-built", "an access got an object that is not built yet");
                            std::lock_guard<std::mutex> l(mx);
                            got.insert(p.get());
                        });
            for (auto& t : v) t.join();
            VF_CHECK(got.size() == 1 && Which<1>::n == 1, "several", got.size() << " instances, " << Which<1>::n << " constructions, of a slow constructor");
            vf::count("held");
        },
        []
        {
            using S = SafeInitializableSingleton<Which<2>>;
            std::vector<std::thread> v;
            std::atomic<int> won{0};
            for (int i = 0; i < 6; ++i)
                v.emplace_back([&, i]
                        {
                            vf::sleep_us((unsigned)i * hold_ms * 150);
                            if (i % 2) won += S::initialize(i);
                            auto p = S::get_shared_instance();
                            VF_CHECK(p && p->text == "whole", "half-built", "an access got an object that is not built yet");
                        });
            for (auto& t : v) t.join();
            VF_CHECK(Which<2>::n == 1 && won <= 1, "several", Which<2>::n << " constructions, " << won << " initializations that took effect");
            vf::count("held");
        },
    };
}
#elif VF_PART == 33
Jobs jobs()
{
    using A = Atomicable<std::vector<int>, std::mutex>;
    using Sh = SharedAtomicable<std::vector<int>>;
    Jobs v;
    v.push_back([]
            {
                A a;
                a.lock();
                std::atomic<int> seen{-1};
                held("lock() of a held object", [&] { std::lock_guard<A> l(a); seen = (int)a.size(); a.push_back(2); }, [&] { a.push_back(1); a.unlock(); });
                VF_CHECK(seen == 1 && a.size() == 2, "partial", "");
            });
    for (int kind = 0; kind < 3; ++kind)
        v.push_back([=]
                {
                    Sh a;
                    if (kind == 0) a.lock_shared();
                    else a.lock();
                    std::atomic<int> seen{-1};
                    held(kind == 0 ? "lock() while there is a shared holder" : kind == 1 ? "lock_shared() while there is a holder" : "lock() while there is a holder", [&]
                            {
                                if (kind == 1) { std::shared_lock<Sh> l(a); seen = (int)a.size(); }
                                else { std::unique_lock<Sh> l(a); seen = (int)a.size(); a.push_back(2); }
                            }, [&]
                            {
                                if (kind) { a.push_back(1); a.unlock(); }
                                else { VF_CHECK(a.empty(), "partial", ""); a.unlock_shared(); }
                            });
                    VF_CHECK(seen == (kind ? 1 : 0), "partial", seen);
                });
    return v;
}
#elif VF_PART == 35
Jobs jobs()
{
    return {
        []
        {
            std::string d = g_tmp + "/d1";
            mkdir(d.c_str(), 0755);
            Gate g;
            auto w = std::make_unique<filewatch::FileWatch<std::string>>(d, [&](const std::string&, const filewatch::Event) { g.pass(); });
            hold();
            VF_CHECK(g.runs == 0, "spurious", "");
            put(d + "/x", "1");
            VF_CHECK(g.entered(), "slow-lost", "nothing reported after a long idle time");
            held("destruction during a long run", [&] { w.reset(); VF_CHECK(g.open, "destroyed-during-run", ""); }, [&] { g.open = true; });
        },
        []
        {
            std::string d = g_tmp + "/d2";
            mkdir(d.c_str(), 0755);
            Gate g;
            std::mutex mx;
            std::vector<std::string> got;
            filewatch::FileWatch<std::string> w(d, [&](const std::string& f, const filewatch::Event e)
                    {
                        {
                            std::lock_guard<std::mutex> l(mx);
                            if (e == filewatch::Event::added) got.push_back(f);
                        }
                        g.pass();
                    });
            std::vector<std::string> want;
            for (int i = 0; i < 60; ++i)
            {
                want.push_back("f" + std::to_string(i));
                put(d + "/" + want.back(), "1");
                if (!i) g.entered();
            }
            hold();
            g.open = true;
            VF_CHECK(vf::eventually([&] { std::lock_guard<std::mutex> l(mx); return got.size() >= want.size(); }, 20000), "slow-lost", "creations during a long run are not reported");
            std::lock_guard<std::mutex> l(mx);
            VF_CHECK(got == want, "wrong", "creations during a long run are reported wrongly");
        },
    };
}
#endif

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const char* t = getenv("VF_TMP");
    g_tmp = std::string(t ? t : "/tmp") + "/patient" + std::to_string(getpid());
    mkdir(g_tmp.c_str(), 0755);
    // About 5.5 seconds, then up to half a minute
    const bool thorough = vf::S().thorough;
    vf::batches("patience", 1, [&](vf::Rng& r)
            {
                static unsigned round = 0;
                if (!vf::S().viol_count.empty()) return;
                hold_ms = 5300 + (unsigned)r.below(400);
                if (thorough && round++ % 4 == 3) hold_ms = 31000;
                std::vector<std::thread> v;
                for (auto& j : jobs()) v.emplace_back(j);
                for (auto& x : v) x.join();
            }, 180);
    rmdir(g_tmp.c_str());
    return vf::finish();
}
