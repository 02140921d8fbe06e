// P11: CounterWaitHandler, ConsumerWaitHandler, DBQueueWaitHandler.
#include <vf.hpp>
#include <fragile.hpp>
#include <lin.hpp>
#include <blocked.hpp>
#include <deque>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>

using namespace eprosima::utils::event;
using eprosima::utils::DisabledException;
using eprosima::utils::TimeoutException;

const char* R[] = {"disabled", "timeout", "condition_met", "?"};
int reason(AwakeReason r)
{
    return r == AwakeReason::disabled ? 0 : r == AwakeReason::timeout ? 1 : r == AwakeReason::condition_met ? 2 : 3;
}
void check_time(int res, unsigned ms, uint64_t t0)
{
    uint64_t us = (vf::now_ns() - t0) / 1000;
    VF_CHECK(res != 1 || ms > 0, "timeout-without-limit", "a wait without timeout ended by timeout");
    VF_CHECK(res != 1 || us + 400 >= ms * 1000ull, "timeout-early", "timeout of " << ms << " ms after " << us << " us");
    VF_CHECK(res < 3, "reason", "");
}

// ---------------------------------------------------------------- counter: histories
enum Kind { INC, GET, ENABLE, DISABLE, BLOCKING, STOP, TAKE, REACHED };
const char* K[] = {"++", "get", "enable", "disable", "blocking_disable", "stop_and_continue", "wait_and_decrement", "wait_threshold_reached"};
struct Op
{
    Kind kind;
    unsigned ms = 0;
    int64_t result = 0;
    uint64_t call = 0, ret = UINT64_MAX;
};
struct St
{
    int64_t v;
    int on;
    uint64_t stopped;
    bool operator <(const St& o) const { return std::tie(v, on, stopped) < std::tie(o.v, o.on, o.stopped); }
};
void run(CounterWaitHandler& h, Op& o)
{
    uint64_t t0 = vf::now_ns();
    o.call = vf::tick();
    switch (o.kind)
    {
        case INC: ++h; break;
        case GET: o.result = h.get_value(); break;
        case ENABLE: h.enable(); break;
        case DISABLE: h.disable(); break;
        case BLOCKING: h.blocking_disable(); break;
        case STOP: h.stop_and_continue(); break;
        case TAKE: o.result = reason(h.wait_and_decrement(o.ms)); check_time((int)o.result, o.ms, t0); break;
        case REACHED: o.result = reason(h.wait_threshold_reached(o.ms)); check_time((int)o.result, o.ms, t0); break;
    }
    o.ret = vf::tick();
}
void judge(std::vector<Op> all, int64_t v0, int on0, int64_t thr)
{
    size_t n = all.size();
    for (size_t i = 0; i < n; ++i)
        if (all[i].kind == STOP)
        {
            Op d = all[i];
            d.kind = DISABLE;
            all.push_back(d);
        }
    std::vector<vf::LinOp> l;
    for (size_t i = 0; i < all.size(); ++i) l.push_back({all[i].call, all[i].ret, (int)i});
    int ok = vf::linearizable(l, St{v0, on0, 0}, [&](St& s, int i)
                    {
                        const Op& o = all[(size_t)i];
                        switch (o.kind)
                        {
                            case INC: ++s.v; return true;
                            case GET: return o.result == s.v;
                            case ENABLE: s.on = 1; return true;
                            case BLOCKING: s.on = 0; return true;
                            case DISABLE:
                                s.on = 0;
                                for (size_t j = 0; j < n; ++j) if (all[j].kind == STOP && all[j].call == o.call) s.stopped |= 1ull << j;
                                return true;
                            case STOP:
                                if (!(s.stopped >> i & 1)) return false;
                                s.on = 1;
                                return true;
                            case TAKE:
                                if (o.result == 0) return !s.on;
                                if (o.result == 1) return s.on && s.v <= thr;
                                if (!s.on || s.v <= thr) return false;
                                --s.v;
                                return true;
                            default:
                                if (o.result == 0) return !s.on;
                                if (o.result == 1) return s.on && s.v != thr;
                                return s.on && s.v == thr;
                        }
                    });
    if (ok == 0)
    {
        std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.call < b.call; });
        std::ostringstream s;
        s << "threshold " << thr << " value " << v0 << " enabled " << on0 << ": ";
        for (auto& o : all) s << "[" << o.call << "-" << (long)o.ret << "] " << K[o.kind] << "->" << (o.kind >= TAKE ? R[o.result & 3] : std::to_string(o.result)) << "; ";
        vf::viol("history", s.str());
    }
    vf::count(ok == 1 ? "histories_consistent" : "histories_undecided", ok != 0);
    vf::count("history_operations", all.size());
}
void histories(int threads, int ops, bool blocking, vf::Opt opt)
{
    vf::explore("counter-" + std::to_string(threads), opt, [=](vf::Exec& e)
            {
                unsigned thr = (unsigned)e.rng.below(3), v0 = (unsigned)e.rng.below(4);
                bool on0 = e.rng.chance(75);
                CounterWaitHandler h(thr, v0, on0);
                std::vector<std::vector<Op>> hist((size_t)threads);
                std::vector<std::function<void()>> fs;
                for (int th = 0; th < threads; ++th)
                {
                    uint64_t sd = e.rng.next();
                    fs.push_back([&, th, sd]
                            {
                                vf::Rng r(sd);
                                for (int i = 0; i < ops; ++i)
                                {
                                    Op o;
                                    int k = (int)r.below(100);
                                    if (k < 33) o.kind = INC;
                                    else if (k < 39) o.kind = GET;
                                    else if (k < 45) o.kind = ENABLE;
                                    else if (k < 49) o.kind = DISABLE;
                                    else if (blocking && k < 52) o.kind = BLOCKING;
                                    else if (blocking && k < 57) o.kind = STOP;
                                    else if (k < 82) o.kind = TAKE;
                                    else o.kind = REACHED;
                                    o.ms = (unsigned)r.range(1, 2);
                                    hist[(size_t)th].push_back(o);
                                    run(h, hist[(size_t)th].back());
                                }
                            });
                }
                e.par(fs);
                std::vector<Op> all;
                for (auto& v : hist) all.insert(all.end(), v.begin(), v.end());
                Op g;
                g.kind = GET;
                run(h, g);
                all.push_back(g);
                judge(all, v0, on0, thr);
            });
}

// ---------------------------------------------------------------- elements
struct Item
{
    int producer = -1, n = -1;
    std::string text;
    vf::Live<Item> live;
    Item() = default;
    Item(int p, int i) : producer(p), n(i), text("element " + std::to_string(i) + " of producer " + std::to_string(p)) {}
    bool ok() const { return live.ok() && text == "element " + std::to_string(n) + " of producer " + std::to_string(producer); }
};
using Q = DBQueueWaitHandler<Item>;

struct Rec
{
    int p, n;
    uint64_t call, ret;
};
void produce(Q& q, int p, int i, bool move, std::vector<Rec>& log)
{
    Item it(p, i);
    uint64_t c = vf::tick();
    if (move) q.produce(std::move(it));
    else q.produce(it);
    log.push_back({p, i, c, vf::tick()});
    VF_CHECK(move || it.ok(), "copy-changed", "a value produced by copy was changed");
}
// Elements consumed against those produced: exactly once, per producer in order, and in the order of the queue when calls do not overlap
void conserve(const std::vector<std::vector<Rec>>& prod, const std::vector<std::vector<Rec>>& cons, bool all_consumed)
{
    std::map<std::pair<int, int>, Rec> in;
    std::map<std::pair<int, int>, Rec> out;
    for (auto& v : prod) for (auto& r : v) in[{r.p, r.n}] = r;
    for (auto& v : cons)
    {
        std::map<int, int> last;
        for (auto& r : v)
        {
            VF_CHECK(in.count({r.p, r.n}), "made-up", "element " << r.n << " of producer " << r.p << " never produced");
            VF_CHECK(!out.count({r.p, r.n}), "twice", "element " << r.n << " of producer " << r.p << " consumed twice");
            VF_CHECK(!last.count(r.p) || last[r.p] < r.n, "order", "element " << r.n << " of producer " << r.p << " consumed after " << last[r.p]);
            last[r.p] = r.n;
            out[{r.p, r.n}] = r;
            auto& i = in[{r.p, r.n}];
            VF_CHECK(i.call < r.ret, "before-produced", "");
        }
    }
    if (all_consumed) VF_CHECK(in.size() == out.size(), "lost", out.size() << " elements consumed of " << in.size());
    for (auto& a : out)
        for (auto& b : out)
        {
            auto& ia = in[a.first];
            auto& ib = in[b.first];
            if (ia.ret < ib.call && b.second.ret < a.second.call)
            {
                vf::viol("order", "element " + std::to_string(ib.n) + " of producer " + std::to_string(ib.p) + " consumed before " + std::to_string(ia.n) + " of " +
                        std::to_string(ia.p) + " that was produced before");
                return;
            }
        }
    vf::count("elements", in.size());
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    histories(2, 7, false, vf::Opt().b(40).r(120).p(60).mi(60));
    histories(3, 5, true, vf::Opt().b(40).r(120).p(60).mi(50));

    // No timeout: as many takers as values; all must be woken, and the threshold waiters too
    vf::explore("counter-wake", vf::Opt().b(60).r(150).p(80).mi(60), [](vf::Exec& e)
            {
                unsigned thr = (unsigned)e.rng.below(3), v0 = (unsigned)e.rng.below(3);
                CounterWaitHandler h(thr, v0);
                // takers take down to the threshold exactly
                int incs = (int)e.rng.range(1, 4);
                int takes = (int)v0 + incs - (int)thr;
                bool below = takes < 0;
                if (below)
                {
                    incs = (int)thr - (int)v0;
                    takes = 0;
                }
                int ta = takes / 2, tb = takes - ta;
                auto take = [&](int n)
                        {
                            return [&h, n]
                                   {
                                       for (int i = 0; i < n; ++i)
                                       {
                                           int r = reason(h.wait_and_decrement());
                                           VF_CHECK(r == 2, "wrong-reason", "wait_and_decrement ended by " << R[r]);
                                       }
                                   };
                        };
                unsigned late = e.rng.chance(30) ? 60000 : 0;
                e.par({
                          take(ta), take(tb),
                          [&] { for (int i = 0; i < incs; ++i) { vf_sched_point(1); ++h; } },
                          [&, late]
                          {
                              int r = reason(h.wait_threshold_reached(late));
                              VF_CHECK(r == 2, "wrong-reason", "wait_threshold_reached ended by " << R[r]);
                          }
                      });
                VF_CHECK(h.get_value() == thr, "value", "value " << h.get_value() << " instead of " << thr);
                VF_CHECK(reason(h.wait_threshold_reached(1)) == 2, "wrong-reason", "threshold not reached");
                VF_CHECK(reason(h.wait_and_decrement(1)) == 1, "wrong-reason", "");
            });

    // Disabling wakes takers and threshold waiters; destroying while they wait is safe
    vf::explore("counter-release", vf::Opt().b(30).r(120).p(60).mi(50), [](vf::Exec& e)
            {
                int how = (int)e.rng.below(4);
                auto owner = std::make_unique<CounterWaitHandler>(2, 1);
                CounterWaitHandler* const h = owner.get();
                unsigned late = e.rng.chance(30) ? 60000 : 0;
                std::atomic<int> t[3] = {{0}, {0}, {0}};
                std::vector<std::thread> ws;
                for (int i = 0; i < 3; ++i)
                    ws.emplace_back([&, i]
                            {
                                vf_sched_role(i);
                                t[i] = vf::tid();
                                int r = reason(i == 0 ? h->wait_and_decrement(late) : h->wait_threshold_reached(late));
                                VF_CHECK(r == 0, "wrong-reason", "wait ended by " << R[r] << " though disabled");
                                t[i] = -1;
                            });
                bool ok = how != 3;
                if (ok) for (int k = 0; k < 3; ++k) for (auto& x : t) ok &= vf::wait_blocked(x);
                if (ok) h->get_value();
                if (how == 1) h->blocking_disable();
                else if (how == 2 || !ok) h->disable();
                if (how == 1) VF_CHECK(!h->enabled(), "enabled", "");
                if (ok) { owner.reset(); vf::count("destroyed_while_waited_on"); }
                for (auto& w : ws) w.join();
            });

    // Producers and consumers
    auto flow = [](const char* name, int np, int nc, bool stop, bool timeouts, vf::Opt opt)
            {
                vf::explore(name, opt, [=](vf::Exec& e)
                        {
                            long live0 = vf::Live<Item>::n();
                            std::vector<std::vector<Rec>> prod((size_t)np), cons((size_t)nc + 1);
                            std::atomic<int> left;
                            int per = (int)e.rng.range(2, 5);
                            left = np * per;
                            {
                                Q q(0, !stop || e.rng.chance(50));
                                std::atomic<bool> done{false};
                                std::vector<std::function<void()>> fs;
                                for (int p = 0; p < np; ++p)
                                {
                                    uint64_t sd = e.rng.next();
                                    fs.push_back([&, p, sd]
                                            {
                                                vf::Rng r(sd);
                                                for (int i = 0; i < per; ++i)
                                                {
                                                    produce(q, p, i, r.chance(50), prod[(size_t)p]);
                                                    vf_sched_point(1);
                                                }
                                            });
                                }
                                int share = np * per / nc, rest = np * per - share * nc;
                                for (int c = 0; c < nc; ++c)
                                {
                                    uint64_t sd = e.rng.next();
                                    int mine = share + (c < rest);
                                    fs.push_back([&, c, sd, mine]
                                            {
                                                vf::Rng r(sd);
                                                int got = 0;
                                                while (got < mine)
                                                {
                                                    unsigned ms = timeouts && r.chance(70) ? (unsigned)r.range(1, 2) : 0;
                                                    uint64_t t0 = vf::now_ns();
                                                    uint64_t call = vf::tick();
                                                    try
                                                    {
                                                        Item it = q.consume(ms);
                                                        cons[(size_t)c].push_back({it.producer, it.n, call, vf::tick()});
                                                        VF_CHECK(it.ok(), "torn", it.text);
                                                        ++got;
                                                    }
                                                    catch (const TimeoutException&)
                                                    {
                                                        check_time(1, ms, t0);
                                                        VF_CHECK(ms > 0, "timeout-without-limit", "");
                                                        vf::count("timeouts");
                                                    }
                                                    catch (const DisabledException&)
                                                    {
                                                        VF_CHECK(stop, "disabled-while-enabled", "disabled exception without disabling");
                                                        vf::count("disabled");
                                                        std::this_thread::yield();
                                                    }
                                                }
                                                if ((left -= mine) == 0) done = true;
                                            });
                                }
                                if (stop)
                                {
                                    uint64_t sd = e.rng.next();
                                    fs.push_back([&, sd]
                                            {
                                                vf::Rng r(sd);
                                                for (int i = 0; i < 3; ++i)
                                                {
                                                    switch (r.below(3))
                                                    {
                                                        case 0: q.disable(); break;
                                                        case 1: q.blocking_disable(); break;
                                                        default: q.stop_and_continue();
                                                    }
                                                    vf_sched_point(2);
                                                    q.enable();
                                                    vf_sched_point(3);
                                                }
                                            });
                                }
                                e.par(fs);
                                VF_CHECK(q.elements_ready_to_consume() == 0, "count", q.elements_ready_to_consume() << " elements left");
                                VF_CHECK(reason(q.wait_all_consumed(1)) == 2, "all-consumed", "");
                                try
                                {
                                    q.consume(1);
                                    vf::viol("made-up", "element consumed from an empty handler");
                                }
                                catch (const TimeoutException&)
                                {
                                }
                            }
                            conserve(prod, cons, true);
                            VF_CHECK(vf::Live<Item>::n() == live0, "leak", vf::Live<Item>::n() - live0 << " elements not destroyed");
                        });
            };
    flow("queue-1-1", 1, 1, false, false, vf::Opt().b(40).r(80).p(40).mi(60));
    flow("queue-2-2", 2, 2, false, false, vf::Opt().b(40).r(100).p(50).mi(60));
    flow("queue-3-1", 3, 1, false, false, vf::Opt().b(40).r(60).p(40).mi(40));
    flow("queue-1-3", 1, 3, false, false, vf::Opt().b(40).r(60).p(40).mi(40));
    flow("queue-2-2-timeouts", 2, 2, false, true, vf::Opt().b(40).r(80).p(40).mi(40));
    flow("queue-2-2-stops", 2, 2, true, false, vf::Opt().b(40).r(100).p(50).mi(40));

    // wait_all_consumed: not before the last is taken, and then at once
    vf::explore("all-consumed", vf::Opt().b(40).r(100).p(60).mi(60), [](vf::Exec& e)
            {
                Q q;
                int n = (int)e.rng.range(1, 4);
                std::vector<Rec> in;
                for (int i = 0; i < n; ++i) produce(q, 0, i, i & 1, in);
                VF_CHECK(q.elements_ready_to_consume() == (unsigned)n, "count", q.elements_ready_to_consume() << " instead of " << n);
                std::atomic<int> started{0};
                bool two = e.rng.chance(50);
                auto wait = [&]
                        {
                            int r = reason(q.wait_all_consumed());
                            VF_CHECK(r == 2, "wrong-reason", "wait_all_consumed ended by " << R[r]);
                            VF_CHECK(started == n, "all-consumed", "returned when " << started << " of " << n << " were being consumed");
                            VF_CHECK(q.elements_ready_to_consume() == 0, "count", "");
                        };
                e.par({
                          [&]
                          {
                              for (int i = 0; i < n; ++i)
                              {
                                  started.fetch_add(1);
                                  Item it = q.consume();
                                  VF_CHECK(it.n == i && it.ok(), "order", "element " << it.n << " instead of " << i);
                                  vf_sched_point(1);
                              }
                          },
                          wait,
                          [&] { if (two) wait(); }
                      });
            });

    // Disabled or destroyed with threads in consume and in wait_all_consumed
    vf::explore("queue-release", vf::Opt().b(30).r(100).p(50).mi(50), [](vf::Exec& e)
            {
                bool some = e.rng.chance(50);            // elements left: threads wait for all consumed; none: they consume
                int how = (int)e.rng.below(4);
                auto owner = std::make_unique<Q>();
                Q* const q = owner.get();
                std::vector<Rec> in;
                if (some) for (int i = 0; i < 3; ++i) produce(*q, 0, i, i & 1, in);
                std::atomic<int> t[2] = {{0}, {0}};
                unsigned late = e.rng.chance(30) ? 60000 : 0;
                std::vector<std::thread> ws;
                for (int i = 0; i < 2; ++i)
                    ws.emplace_back([&, i]
                            {
                                vf_sched_role(i);
                                t[i] = vf::tid();
                                if (some)
                                {
                                    int r = reason(q->wait_all_consumed(late));
                                    VF_CHECK(r == 0, "wrong-reason", "wait_all_consumed ended by " << R[r]);
                                }
                                else
                                {
                                    try
                                    {
                                        q->consume(late);
                                        vf::viol("made-up", "consumed from an empty handler");
                                    }
                                    catch (const DisabledException&)
                                    {
                                    }
                                    catch (const TimeoutException&)
                                    {
                                        vf::viol("wrong-reason", "timeout");
                                    }
                                }
                                t[i] = -1;
                            });
                bool ok = how != 3;
                if (ok) for (int k = 0; k < 3; ++k) for (auto& x : t) ok &= vf::wait_blocked(x);
                if (ok) q->elements_ready_to_consume();
                if (how == 1) q->blocking_disable();
                else if (how == 2 || !ok) q->disable();
                if (ok && how == 0) { owner.reset(); vf::count("destroyed_while_waited_on"); }
                for (auto& w : ws) w.join();
                if (owner)
                {
                    // elements are kept for when it is enabled again
                    try
                    {
                        q->consume();
                        vf::viol("wrong-reason", "consumed while disabled");
                    }
                    catch (const DisabledException&)
                    {
                    }
                    produce(*q, 0, 3, false, in);
                    q->enable();
                    for (int i = some ? 0 : 3; i < 4; ++i)
                    {
                        Item it = q->consume(60000);
                        VF_CHECK(it.n == i && it.ok(), "order", "element " << it.n << " instead of " << i << " after enabling again");
                    }
                    VF_CHECK(q->elements_ready_to_consume() == 0, "count", "");
                }
            });

    // An element that is available for the whole wait is consumed, not timed out
    vf::explore("no-false-timeout", vf::Opt().b(30).r(60).p(30).mi(40), [](vf::Exec& e)
            {
                Q q;
                std::vector<Rec> in[2];
                for (int i = 0; i < 2; ++i) produce(q, 0, i, false, in[0]);
                auto take = [&]
                        {
                            try
                            {
                                Item it = q.consume(1);
                                VF_CHECK(it.ok(), "torn", "");
                            }
                            catch (const TimeoutException&)
                            {
                                vf::viol("timeout-with-element", "consume timed out with an element available");
                            }
                        };
                e.par({take, take, [&] { for (int i = 0; i < 2; ++i) produce(q, 1, i, true, in[1]); }});
                VF_CHECK(q.elements_ready_to_consume() == 2, "count", "");
            });

    // Timeouts of up to 49 days do not end at once, and short ones end although elements come and go all the time
    vf::batches("timeouts", 10, [](vf::Rng& r)
            {
                const unsigned huge = r.pick(std::vector<unsigned>{0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 4000000000u});
                const unsigned ms = 20 + (unsigned)r.below(60), every = 200 + (unsigned)r.below(2500);
                CounterWaitHandler c(2, 2), low(100, 0), high(0, 50);
                Q q, full;
                std::vector<Rec> in;
                produce(full, 0, 0, false, in);
                produce(full, 0, 1, false, in);
                std::atomic<bool> stop{false}, met{false};
                std::atomic<int> back{0};
                std::vector<std::thread> v;
                // never above the threshold of `low`, never down to that of `high`
                v.emplace_back([&]
                        {
                            for (int k = 0; !stop; ++k)
                            {
                                if (k < 90) ++low;
                                ++high;
                                high.wait_and_decrement();
                                vf::sleep_us(every);
                            }
                        });
                auto bounded = [&](const char* what, std::function<AwakeReason()> f)
                        {
                            v.emplace_back([=, &back]
                                    {
                                        int64_t t0 = vf::now_ns();
                                        AwakeReason a = f();
                                        VF_CHECK(a == AwakeReason::timeout, "wrong-reason", what << " did not time out");
                                        VF_CHECK(vf::now_ns() - t0 >= (int64_t)ms * 1000000 - 1000000, "early-timeout", what << " took " << (vf::now_ns() - t0) / 1000 << " us, with a timeout of " << ms << " ms");
                                        ++back;
                                    });
                        };
                bounded("wait_and_decrement", [&] { return low.wait_and_decrement(ms); });
                bounded("wait_threshold_reached", [&] { return high.wait_threshold_reached(ms); });
                bounded("wait_all_consumed", [&] { return full.wait_all_consumed(ms); });
                auto lasting = [&](const char* what, std::function<AwakeReason()> f)
                        {
                            v.emplace_back([=, &met]
                                    {
                                        AwakeReason a = AwakeReason::timeout;
                                        try { a = f(); }
                                        catch (const TimeoutException&) {}
                                        VF_CHECK(a == AwakeReason::condition_met && met, "wrong-reason", what << " with a timeout of " << huge << " ms ended early");
                                    });
                        };
                lasting("wait_and_decrement", [&] { return c.wait_and_decrement(huge); });
                lasting("consume", [&] { Item it = q.consume(huge); return it.ok() ? AwakeReason::condition_met : AwakeReason::disabled; });
                std::thread all([&]
                        {
                            // Two elements in `full`, taken by the main thread
                            vf::eventually([&] { return back == 3; }, 10000);
                            AwakeReason a = full.wait_all_consumed(huge);
                            VF_CHECK(a == AwakeReason::condition_met && met, "wrong-reason", "wait_all_consumed with a timeout of " << huge << " ms ended early");
                        });
                bool b = vf::eventually([&] { return back == 3; }, 10000);
                VF_CHECK(b, "slow-timeout", 3 - back << " waits with a timeout of " << ms << " ms go on while elements come and go");
                vf::sleep_us(30000);
                met = true;
                ++c;
                produce(q, 0, 0, false, in);
                full.consume();
                full.consume();
                stop = true;
                all.join();
                for (auto& t : v) t.join();
                vf::count("steps", 6);
                vf::count("bounded", 3);
                vf::count("lasting", 3);
            });

    // Sequential use against a queue
    vf::batches("sequence", 120, [](vf::Rng& r)
            {
                long live0 = vf::Live<Item>::n();
                {
                    Q q(0, r.chance(70));
                    bool on = q.enabled();
                    std::deque<int> m;
                    std::vector<Rec> in;
                    int next = 0;
                    uint64_t hash = 0;
                    unsigned bias = (unsigned)r.range(20, 80);
                    for (int i = 0; i < 400; ++i)
                    {
                        if (r.chance(5)) bias = (unsigned)r.range(20, 80);
                        if (r.chance(2)) { q.disable(); on = false; }
                        else if (r.chance(5)) { q.enable(); on = true; }
                        else if (r.chance(1)) { q.stop_and_continue(); on = true; }
                        else if (r.chance(bias)) { produce(q, 0, next, r.chance(50), in); m.push_back(next++); }
                        else
                        {
                            int res = -1;
                            unsigned ms = on && m.empty() ? 1 : (unsigned)r.below(2) * 50000;
                            if (on && m.empty() && r.chance(80)) continue;
                            try
                            {
                                Item it = q.consume(ms);
                                res = 2;
                                VF_CHECK(it.ok() && !m.empty() && it.n == m.front(), "order", "element " << it.n << " instead of " << (m.empty() ? -1 : m.front()));
                                if (!m.empty()) m.pop_front();
                            }
                            catch (const DisabledException&)
                            {
                                res = 0;
                            }
                            catch (const TimeoutException&)
                            {
                                res = 1;
                            }
                            int want = !on ? 0 : res == 2 ? 2 : 1;
                            VF_CHECK(res == want, "wrong-reason", "consume ended by " << R[res & 3]);
                            hash = vf::mix(hash ^ (uint64_t)res);
                        }
                        VF_CHECK(q.elements_ready_to_consume() == m.size() && q.enabled() == on, "count", q.elements_ready_to_consume() << " instead of " << m.size());
                        hash = vf::mix(hash ^ m.size());
                        vf::count("steps");
                    }
                    vf::seen("sequences", hash);
                }
                VF_CHECK(vf::Live<Item>::n() == live0, "leak", vf::Live<Item>::n() - live0 << " elements");
            });
    // Many elements
    vf::batches("many", 4, [](vf::Rng& r)
            {
                long live0 = vf::Live<Item>::n();
                {
                    Q q(0, true);
                    std::vector<Rec> in;
                    const int n = (int)r.pick(std::vector<int>{300, 5000, 33000, 70000});
                    for (int round = 0; round < 2; ++round)
                    {
                        int left = (int)r.below((uint64_t)n), next = 0;
                        for (int i = 0; i < n; ++i) produce(q, 0, i, r.chance(50), in);
                        auto take = [&]
                                {
                                    Item it = q.consume(50000);
                                    VF_CHECK(it.ok() && it.n == next, "order", "element " << it.n << " instead of " << next);
                                    ++next;
                                };
                        VF_CHECK(q.elements_ready_to_consume() == (unsigned)n, "count", q.elements_ready_to_consume() << " instead of " << n);
                        while (next < left) take();
                        if (r.chance(50)) { q.disable(); q.enable(); }
                        for (int i = 0; i < 300; ++i) produce(q, 0, n + i, r.chance(50), in);
                        VF_CHECK(q.elements_ready_to_consume() == (unsigned)(n + 300 - left), "count", q.elements_ready_to_consume() << " instead of " << n + 300 - left);
                        while (next < n + 300) take();
                        VF_CHECK(q.elements_ready_to_consume() == 0 && q.wait_all_consumed(50000) == eprosima::utils::event::AwakeReason::condition_met, "count", "elements left");
                    }
                    vf::count("steps", 2 * (uint64_t)n);
                }
                VF_CHECK(vf::Live<Item>::n() == live0, "leak", vf::Live<Item>::n() - live0 << " elements");
            });
    // Elements whose copies fail: an element that could not be produced is not there, one that could not be given out still is
    vf::batches("failing-copies", 20, [](vf::Rng& r)
            {
                using F = vf::Fragile;
                long live0 = vf::Live<F>::n();
                {
                    DBQueueWaitHandler<F> q(0, true);
                    std::deque<int> m;
                    for (int i = 0; i < 300; ++i)
                    {
                        F v(i);
                        if (r.chance(50))
                        {
                            bool move = r.chance(50);
                            if (!vf::failing((int)r.below(4), [&] { if (move) q.produce(std::move(v)); else q.produce(v); })) m.push_back(i);
                        }
                        else if (!m.empty())
                        {
                            int got = -1;
                            if (!vf::failing((int)r.below(4), [&] { F x = q.consume(50000); got = x.get(); }))
                            {
                                VF_CHECK(got == m.front(), "failing-copies", "consumed " << got << " instead of " << m.front());
                                m.pop_front();
                            }
                        }
                        VF_CHECK(q.elements_ready_to_consume() == m.size(), "failing-copies", q.elements_ready_to_consume() << " elements counted, " << m.size() << " there");
                        vf::count("steps");
                    }
                    while (!m.empty() && q.elements_ready_to_consume())
                    {
                        int got = q.consume(50000).get();
                        VF_CHECK(got == m.front(), "failing-copies", "consumed " << got << " instead of " << m.front());
                        m.pop_front();
                    }
                    VF_CHECK(m.empty(), "failing-copies", m.size() << " elements were never given out");
                    VF_CHECK(q.wait_all_consumed(50000) == eprosima::utils::event::AwakeReason::condition_met, "failing-copies", "all consumed");
                }
                VF_CHECK(vf::Live<F>::n() == live0, "leak", "elements that failed to be copied");
            });
    return vf::finish();
}
