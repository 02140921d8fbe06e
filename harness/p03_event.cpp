// P03: EventHandler. Histories of set / unset / event / count / reset / decrement / wait are checked for linearizability
// against {current callback, count}; waits and destruction have scenarios of their own.
#include <vf.hpp>
#include <lin.hpp>
#include <blocked.hpp>
#include <cpp_utils/event/EventHandler.hpp>

using namespace eprosima::utils::event;

namespace t {
using H = EventHandler<int, std::string>;
enum Kind { SET, UNSET, EVENT, COUNT, RESET, DEC, WAIT, WAIT0, NK };
const char* NAMES[] = {"set", "unset", "event", "count", "reset", "decrement", "wait", "wait"};
struct Op
{
    Kind kind;
    int a = 0;             // callback number, event id, n
    int ran = 0;           // callback that the event ran (0 none)
    uint32_t n = 0;
    bool b = false;
    uint64_t call = 0, ret = UINT64_MAX;
};
std::string text(const std::vector<Op>& v)
{
    std::ostringstream s;
    for (auto& o : v)
    {
        s << "[" << o.call << "-" << (long)o.ret << "] " << NAMES[o.kind] << "(" << o.a << ")->" << o.ran << "/" << o.n << "/" << o.b << "; ";
    }
    return s.str();
}

struct St
{
    int cb = 0;
    uint32_t n = 0;
    bool operator <(const St& o) const { return std::tie(cb, n) < std::tie(o.cb, o.n); }
};
bool model(St& s, const Op& o)
{
    switch (o.kind)
    {
        case SET: s.cb = o.a; return true;
        case UNSET: s.cb = 0; return true;
        case EVENT:
            if (o.ran != s.cb) return false;
            if (s.cb) ++s.n;
            return true;
        case COUNT: return o.n == s.n;
        case RESET: s.n = 0; return true;
        case DEC: if (s.n) --s.n; return true;
        case WAIT:
        case WAIT0:
            return o.b ? s.n >= (uint32_t)o.a : s.cb == 0;
        default: return false;
    }
}

std::string arg(int id)
{
    return "argument of event number " + std::to_string(id) + " kept on the heap";
}

// What the callbacks observed: which callback ran for each event id
struct Runs
{
    std::atomic<int> ran[64];
    std::atomic<int> times[64];
    std::atomic<int> inside{0};
    std::atomic<int> total{0};
    std::atomic<int> finished{0};
    Runs()
    {
        for (auto& x : ran) x = 0;
        for (auto& x : times) x = 0;
    }
    std::function<void(int, std::string)> cb(int k)
    {
        // captured data on the heap: a callback that runs after it was replaced is seen by the sanitizers
        std::string mine = "callback " + std::to_string(k) + " with its own captured heap data";
        Runs* r = this;
        return [r, k, mine](int id, std::string s)
               {
                   VF_CHECK(r->inside.fetch_add(1, std::memory_order_relaxed) == 0, "callbacks-overlap", "two callback runs overlap");
                   VF_CHECK(id >= 0 && id < 64 && s == arg(id), "wrong-argument", "event " << id << " argument " << s);
                   VF_CHECK(mine.size() > 20, "dead-callback", "");
                   vf_sched_point(1);
                   r->ran[id & 63].store(k, std::memory_order_relaxed);
                   r->times[id & 63].fetch_add(1, std::memory_order_relaxed);
                   r->total.fetch_add(1, std::memory_order_relaxed);
                   vf_sched_point(2);
                   r->finished.fetch_add(1, std::memory_order_relaxed);
                   r->inside.fetch_sub(1, std::memory_order_relaxed);
               };
    }
};

void run(H& h, Runs& runs, Op& o)
{
    o.call = vf::tick();
    switch (o.kind)
    {
        case SET: h.set_callback(runs.cb(o.a)); break;
        case UNSET: h.unset_callback(); break;
        case EVENT:
            h.simulate_event_occurred(o.a, arg(o.a));
            o.ran = runs.ran[o.a].load(std::memory_order_relaxed);
            VF_CHECK(runs.times[o.a] <= 1, "ran-twice", "event " << o.a << " ran " << runs.times[o.a] << " callbacks");
            break;
        case COUNT: o.n = h.event_count(); break;
        case RESET: h.reset_event_count(); break;
        case DEC: h.decrement_event_count(); break;
        case WAIT: case WAIT0: o.b = h.wait_for_event((uint32_t)o.a); break;
        default: break;
    }
    o.ret = vf::tick();
}

void judge(std::vector<Op> all, const char* key)
{
    std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.call < b.call; });
    std::vector<vf::LinOp> l;
    for (size_t i = 0; i < all.size(); ++i) l.push_back({all[i].call, all[i].ret, (int)i});
    int ok = vf::linearizable(l, St{}, [&](St& s, int i) { return model(s, all[i]); });
    if (ok == 0) vf::viol(key, text(all));
    vf::count(ok == 1 ? "histories_consistent" : "histories_undecided", ok != 0);
    vf::count("history_operations", all.size());
}

void histories(const char* name, int threads, int ops, bool waits, bool resets, vf::Opt opt)
{
    vf::explore(name, opt, [=](vf::Exec& e)
            {
                Runs runs;
                std::vector<std::vector<Op>> hist(threads);
                auto h = std::make_unique<H>();
                std::atomic<int> next_id{0}, next_cb{1};
                std::vector<std::function<void()>> fs;
                for (int th = 0; th < threads; ++th)
                {
                    uint64_t sd = e.rng.next();
                    fs.push_back([&, th, sd]
                            {
                                vf::Rng r(sd);
                                for (int i = 0; i < ops; ++i)
                                {
                                    Op o;
                                    int k = (int)r.below(100);
                                    if (k < 22) { o.kind = SET; o.a = next_cb.fetch_add(1, std::memory_order_relaxed); }
                                    else if (k < 38) o.kind = UNSET;
                                    else if (k < 80 || !resets) { o.kind = EVENT; o.a = next_id.fetch_add(1, std::memory_order_relaxed); }
                                    else if (k < 88) o.kind = COUNT;
                                    else if (k < 94) o.kind = RESET;
                                    else o.kind = DEC;
                                    hist[th].push_back(o);
                                    run(*h, runs, hist[th].back());
                                }
                            });
                }
                std::vector<Op> wops(2);
                std::vector<std::thread> ws;
                if (waits)
                {
                    for (int w = 0; w < 2; ++w)
                    {
                        wops[w].kind = WAIT;
                        wops[w].a = (int)e.rng.range(w, 4);
                        ws.emplace_back([&, w]{ vf_sched_role(10 + w); run(*h, runs, wops[w]); });
                    }
                }
                e.par(fs);
                Op c; c.kind = COUNT;
                run(*h, runs, c);
                Op s; s.kind = SET; s.a = 1000;
                run(*h, runs, s);
                Op u; u.kind = UNSET;
                run(*h, runs, u);     // wakes all
                for (auto& w : ws) w.join();
                std::vector<Op> all;
                for (auto& v : hist) all.insert(all.end(), v.begin(), v.end());
                all.push_back(c);
                all.push_back(s);
                all.push_back(u);
                if (waits) all.insert(all.end(), wops.begin(), wops.end());
                int before = runs.total;
                judge(all, "history");
                for (int i = 0; i < next_id; ++i) VF_CHECK(runs.times[i] <= 1, "ran-twice", "event " << i);
                h.reset();
                VF_CHECK(runs.total == before, "ran-after-unset", "");
                vf::count("callback_runs", before);
            });
}
} // namespace t
using namespace t;

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    histories("history-2", 2, 6, false, true, vf::Opt().b(40).r(200).p(100).mi(120));
    histories("history-3", 3, 5, false, true, vf::Opt().b(40).r(200).p(100).mi(90));
    histories("history-waits", 2, 5, true, false, vf::Opt().b(40).r(200).p(100).mi(90));
    histories("history-waits-reset", 2, 5, true, true, vf::Opt().b(40).r(150).p(80).mi(60));

    // Waiters are woken by the n-th event, with no unset to help them
    vf::explore("wake-by-count", vf::Opt().r(200).p(100).mi(90), [](vf::Exec& e)
            {
                Runs runs;
                H h;
                h.set_callback(runs.cb(1));
                std::atomic<int> id{0}, left{3};
                auto wait = [&](int n)
                        {
                            return [&, n]
                                   {
                                       bool r = h.wait_for_event(n);
                                       uint32_t c = h.event_count();
                                       VF_CHECK(r, "wait-false", "wait_for_event(" << n << ") returned false without unset");
                                       VF_CHECK(c >= (uint32_t)n, "wait-early", "wait_for_event(" << n << ") returned with count " << c);
                                       int d = runs.finished.load();
                                       VF_CHECK(d >= n, "wait-early", "wait_for_event(" << n << ") returned when " << d << " callback runs had finished");
                                       left.fetch_sub(1);
                                   };
                        };
                auto events = [&](int n)
                        {
                            return [&, n]
                                   {
                                       for (int i = 0; i < n; ++i)
                                       {
                                           int k = id.fetch_add(1);
                                           h.simulate_event_occurred(k, arg(k));
                                       }
                                   };
                        };
                e.par({wait(1), wait(3), wait(4), events(2), events(2)});
                VF_CHECK(h.event_count() == 4 && runs.total == 4, "count", "count " << h.event_count() << " runs " << runs.total);
                VF_CHECK(h.wait_for_event(4) && h.wait_for_event(0), "wait-after", "");
                h.unset_callback();
                VF_CHECK(h.wait_for_event(4) && !h.wait_for_event(5), "wait-unset", "wait on an unset handler");
            });

    // Waiters are woken by unset; afterwards the handler is destroyed at once
    vf::explore("unset-then-destroy", vf::Opt().r(120).p(60).mi(60), [](vf::Exec& e)
            {
                Runs runs;
                auto h = std::make_unique<H>();
                h->set_callback(runs.cb(1));
                std::atomic<int> t1{0}, t2{0};
                int n_events = (int)e.rng.below(3);
                bool r1 = true, r2 = false;
                std::thread w1([&]{ vf_sched_role(0); t1 = vf::tid(); r1 = h->wait_for_event(100); t1 = -1; });
                std::thread w2([&]{ vf_sched_role(1); t2 = vf::tid(); r2 = h->wait_for_event(2); t2 = -1; });
                bool ok = vf::wait_blocked(t1) && vf::wait_blocked(t2);
                for (int i = 0; i < n_events; ++i) h->simulate_event_occurred(i, arg(i));
                h->unset_callback();
                if (ok) h.reset();          // both waits had begun: destroying is allowed now
                w1.join();
                w2.join();
                VF_CHECK(!r1, "wait-true", "wait for 100 events returned true");
                VF_CHECK(r2 == (n_events >= 2), "wait-wrong", "wait for 2 events returned " << r2 << " after " << n_events << " events");
                vf::count(ok ? "destroyed_right_after_unset" : "destroyed_later");
            });

    // Unset while a callback runs: it returns after the run, and the handler can be destroyed
    vf::explore("unset-during-callback", vf::Opt().r(120).p(60).mi(60), [](vf::Exec& e)
            {
                auto h = std::make_unique<H>();
                std::atomic<int> started{0}, finished{0};
                auto data = std::make_unique<std::string>("data that the owner frees once unset has returned");
                std::string* dp = data.get();
                h->set_callback([&started, &finished, dp](int, std::string)
                        {
                            started.fetch_add(1);
                            vf_sched_point(3);
                            vf::sleep_us(100);
                            VF_CHECK(dp->size() > 10, "data", "");
                            finished.fetch_add(1, std::memory_order_relaxed);
                        });
                std::thread ev([&]
                        {
                            vf_sched_role(0);
                            h->simulate_event_occurred(1, arg(1));
                        });
                while (started.load() == 0) std::this_thread::yield();
                h->unset_callback();
                VF_CHECK(finished.load(std::memory_order_relaxed) == 1, "unset-during-run", "unset_callback returned while a run was in progress");
                data.reset();
                h.reset();
                ev.join();
            });

    // Replacing: after set_callback(B) has returned, no event runs A
    vf::explore("replace", vf::Opt().r(150).p(80).mi(90), [](vf::Exec& e)
            {
                H h;
                std::atomic<int> current{0}, in_a{0};
                auto pa = std::make_unique<std::string>("captured by the first callback");
                std::string* a = pa.get();
                h.set_callback([&, a](int, std::string)
                        {
                            in_a.fetch_add(1, std::memory_order_relaxed);
                            vf_sched_point(4);
                            VF_CHECK(current.load(std::memory_order_relaxed) == 0, "old-callback", "the old callback ran after set_callback had returned");
                            VF_CHECK(a->size() > 10, "data", "");
                            in_a.fetch_sub(1, std::memory_order_relaxed);
                        });
                std::atomic<int> b_runs{0};
                e.par({[&]{ for (int i = 0; i < 4; ++i) h.simulate_event_occurred(i, arg(i)); },
                       [&]{ for (int i = 0; i < 4; ++i) h.simulate_event_occurred(i, arg(i)); },
                       [&]
                       {
                           vf_sched_point(5);
                           h.set_callback([&](int, std::string) { b_runs.fetch_add(1, std::memory_order_relaxed); });
                           VF_CHECK(in_a.load(std::memory_order_relaxed) == 0, "old-callback", "set_callback returned while the old callback was running");
                           current.store(1, std::memory_order_relaxed);
                           pa.reset();
                       }});
                VF_CHECK(h.event_count() == 8, "count", "count " << h.event_count());
                h.unset_callback();
            });

    // Many cycles of set / unset against events and waits: no deadlock, waits always end
    vf::explore("cycles", vf::Opt().r(80).p(40).mi(60), [](vf::Exec& e)
            {
                Runs runs;
                H h;
                std::atomic<bool> stop{false};
                std::atomic<int> id{0};
                e.par({[&]{ for (int i = 0; i < 6; ++i) { h.set_callback(runs.cb(i + 1)); vf_sched_point(6); h.unset_callback();
                                VF_CHECK(runs.inside.load() == 0, "unset-during-run", "unset returned during a run"); } stop = true; },
                       [&]{ while (!stop && id < 60) { int k = id++; h.simulate_event_occurred(k, arg(k)); } },
                       [&]{ for (int i = 0; i < 5; ++i) { bool r = h.wait_for_event(1000); VF_CHECK(!r, "wait-true", ""); } }});
                VF_CHECK((int)h.event_count() == runs.total, "count", "count " << h.event_count() << " runs " << runs.total);
            });

    // Sequential, other argument lists
    vf::batches("sequential", 30, [](vf::Rng& r)
            {
                for (int c = 0; c < 20; ++c)
                {
                    EventHandler<> h0;
                    EventHandler<int> h1;
                    EventHandler<std::vector<std::string>, double, const char*> h3;
                    int n0 = 0, n1 = 0, n3 = 0, last1 = -1, c0 = 0, c1 = 0, c3 = 0;
                    bool s0 = false, s1 = false, s3 = false;
                    std::vector<std::string> last3;
                    uint64_t hash = 0;
                    for (int i = 0; i < 40; ++i)
                    {
                        int k = (int)r.below(14);
                        hash = vf::mix(hash ^ k);
                        int x = (int)r.below(100000);
                        std::vector<std::string> v(r.below(4), "element " + std::to_string(x));
                        switch (k)
                        {
                            case 0: h0.set_callback([&]{ ++n0; }); s0 = true; break;
                            case 1: h1.set_callback([&](int y) { ++n1; last1 = y; }); s1 = true; break;
                            case 2: h3.set_callback([&](std::vector<std::string> a, double d, const char* p) { ++n3; last3 = a; VF_CHECK(d == 1.5 && !strcmp(p, "text"), "wrong-argument", ""); }); s3 = true; break;
                            case 3: h0.unset_callback(); s0 = false; break;
                            case 4: h1.unset_callback(); s1 = false; break;
                            case 5: h3.unset_callback(); s3 = false; break;
                            case 6: h0.reset_event_count(); c0 = 0; break;
                            case 7: h1.decrement_event_count(); if (c1) --c1; break;
                            case 8: case 9: { int b = n0; h0.simulate_event_occurred(); if (s0) ++c0; VF_CHECK(n0 - b == s0, "sequential", "runs"); break; }
                            case 10: case 11: { int b = n1; h1.simulate_event_occurred(x); if (s1) ++c1; VF_CHECK(n1 - b == s1 && (!s1 || last1 == x), "sequential", "runs"); break; }
                            case 12: { int b = n3; h3.simulate_event_occurred(v, 1.5, "text"); if (s3) ++c3; VF_CHECK(n3 - b == s3 && (!s3 || last3 == v), "sequential", "runs"); break; }
                            case 13:
                                if (c0) VF_CHECK(h0.wait_for_event(c0), "sequential", "wait true");
                                if (!s1) VF_CHECK(!h1.wait_for_event(c1 + 1), "sequential", "wait false");
                                break;
                        }
                        VF_CHECK((int)h0.event_count() == c0 && (int)h1.event_count() == c1 && (int)h3.event_count() == c3, "sequential", "counts");
                        vf::count("steps");
                    }
                    vf::seen("sequences", hash);
                }
            });

    // A handler of its own class is told when it is enabled, changed and disabled, before the call returns
    vf::batches("told", 10, [](vf::Rng& r)
            {
                struct Mine : EventHandler<int>
                {
                    std::string log;
                    ~Mine() { unset_callback(); }
                    void callback_set_nts_() noexcept override { log += "S"; }
                    void callback_change_nts_() noexcept override { log += "C"; }
                    void callback_unset_nts_() noexcept override { log += "U"; }
                };
                for (int c = 0; c < 50; ++c)
                {
                    Mine h;
                    std::string want;
                    bool set = false;
                    int runs = 0, expected = 0;
                    for (int i = 0; i < 30; ++i)
                    {
                        switch (r.below(5))
                        {
                            case 0: case 1: h.set_callback([&](int) { ++runs; }); want += set ? "C" : "S"; set = true; break;
                            case 2: case 3: h.unset_callback(); if (set) want += "U"; set = false; break;
                            default: h.simulate_event_occurred(i); if (set) ++expected;
                        }
                        VF_CHECK(h.log == want && runs == expected, "not-told", "a handler was told " << h.log << " instead of " << want);
                        vf::count("steps");
                    }
                    vf::seen("sequences", vf::hash_str(want));
                }
            });

    // Many events
    vf::batches("many", 4, [](vf::Rng& r)
            {
                EventHandler<unsigned> h;
                unsigned n = r.pick(std::vector<unsigned>{300, 5000, 33000, 70000}), runs = 0, sum = 0;
                h.set_callback([&](unsigned x) { ++runs; sum += x; });
                std::atomic<bool> woken{false};
                std::thread waiter([&]{ h.wait_for_event(n); woken = true; });
                unsigned want = 0;
                for (unsigned i = 0; i < n; ++i)
                {
                    VF_CHECK(!woken, "wait-early", "wait for " << n << " events returned after " << i);
                    h.simulate_event_occurred(i);
                    want += i;
                }
                VF_CHECK(runs == n && sum == want && h.event_count() == n, "sequential", runs << " runs and count " << h.event_count() << " of " << n << " events");
                VF_CHECK(vf::eventually([&]{ return woken.load(); }), "slow-wait", "wait for " << n << " events is not woken");
                waiter.join();
                for (unsigned i = 0; i < 500; ++i) h.decrement_event_count();
                VF_CHECK(h.event_count() == (n > 500 ? n - 500 : 0), "sequential", "count after decrements " << h.event_count());
                h.reset_event_count();
                VF_CHECK(h.event_count() == 0, "sequential", "count after reset");
                vf::count("steps", n);
            });

    // A callback that replaces or unsets itself while it runs
    vf::batches("self-replace", 4, [](vf::Rng& r)
            {
                for (int c = 0; c < 20; ++c)
                {
                    auto h = std::make_unique<EventHandler<int>>();
                    std::string log;
                    bool unset = r.chance(50);
                    std::string captured = "captured by the callback that replaces itself, on the heap";
                    EventHandler<int>* hp = h.get();
                    h->set_callback([&log, hp, unset, captured](int x)
                            {
                                log += "A" + std::to_string(x);
                                if (unset) hp->unset_callback();
                                else hp->set_callback([&log](int y) { log += "B" + std::to_string(y); });
                                log += captured.substr(0, 3);
                            });
                    h->simulate_event_occurred(1);
                    h->simulate_event_occurred(2);
                    VF_CHECK(log == (unset ? "A1cap" : "A1capB2"), "self-replace", log);
                    VF_CHECK(h->event_count() == (unset ? 1u : 2u), "self-replace", "count " << h->event_count());
                    vf::count("steps");
                }
            });
    return vf::finish();
}
