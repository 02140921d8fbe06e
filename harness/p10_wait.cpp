// P10: WaitHandler, BooleanWaitHandler, IntWaitHandler. Histories of waits, value changes and enabling are checked for
// linearizability against {value, enabled}; wake-ups, blocking disable and destruction have scenarios of their own.
#include <vf.hpp>
#include <lin.hpp>
#include <blocked.hpp>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>

using namespace eprosima::utils::event;

const char* R[] = {"disabled", "timeout", "condition_met"};
int reason(AwakeReason r)
{
    return r == AwakeReason::disabled ? 0 : r == AwakeReason::timeout ? 1 : r == AwakeReason::condition_met ? 2 : 3;
}

enum Kind { SET, INC, DEC, GET, ENABLE, DISABLE, BLOCKING, STOP, ENABLED, WAIT };
const char* K[] = {"set", "++", "--", "get", "enable", "disable", "blocking_disable", "stop_and_continue", "enabled", "wait"};
struct Op
{
    Kind kind;
    int a = 0, p = 0;        // value, predicate
    unsigned ms = 0;
    int result = 0;
    uint64_t call = 0, ret = UINT64_MAX, t0 = 0, t1 = 0;
};
// predicates: 0 ==, 1 >, 2 >=, 3 <, 4 <=
bool holds(int p, int bound, int v)
{
    switch (p)
    {
        case 0: return v == bound;
        case 1: return v > bound;
        case 2: return v >= bound;
        case 3: return v < bound;
        case 4: return v <= bound;
        default: return (v & 3) == (bound & 3);
    }
}
struct St
{
    int v, on;
    bool operator <(const St& o) const { return std::tie(v, on) < std::tie(o.v, o.on); }
};
bool model(St& s, const Op& o)
{
    switch (o.kind)
    {
        case SET: s.v = o.a; return true;
        case INC: ++s.v; return true;
        case DEC: --s.v; return true;
        case GET: return o.result == s.v;
        case ENABLE: s.on = 1; return true;
        case DISABLE: case BLOCKING: s.on = 0; return true;
        case STOP: s.on = 1; return true;     // expanded in two by judge
        case ENABLED: return o.result == s.on;
        default:
            if (o.result == 0) return !s.on;
            if (o.result == 2) return s.on && holds(o.p, o.a, s.v);
            return s.on && !holds(o.p, o.a, s.v);
    }
}
std::string text(const std::vector<Op>& v)
{
    std::ostringstream s;
    for (auto& o : v)
        s << "[" << o.call << "-" << (long)o.ret << "] " << K[o.kind] << "(" << o.a << (o.kind == WAIT ? " p" + std::to_string(o.p) + " " + std::to_string(o.ms) + "ms" : "")
          << ")->" << (o.kind == WAIT ? R[o.result & 3] : std::to_string(o.result)) << "; ";
    return s.str();
}
// Subjects: the same operations on each of the three handlers
struct Int
{
    static const char* name() { return "int"; }
    IntWaitHandler h;
    Int(int v, bool on) : h(v, on) {}
    int wait(int p, int b, unsigned ms)
    {
        switch (p)
        {
            case 0: return reason(h.wait_equal(b, ms));
            case 1: return reason(h.wait_greater_than(b, ms));
            case 2: return reason(h.wait_greater_equal_than(b, ms));
            case 3: return reason(h.wait_lower_than(b, ms));
            default: return reason(h.wait_lower_equal_than(b, ms));
        }
    }
    void set(int v) { h.set_value(v); }
    void inc() { ++h; }
    void dec() { --h; }
    int get() { return h.get_value(); }
    static int value(vf::Rng& r) { return (int)r.range(0, 3); }
    static int preds() { return 5; }
};
struct Bool
{
    static const char* name() { return "bool"; }
    BooleanWaitHandler h;
    Bool(int v, bool on) : h(v != 0, on) {}
    int wait(int, int, unsigned ms) { return reason(h.wait(ms)); }
    void set(int v) { if (v) h.open(); else h.close(); }
    void inc() { h.open(); }
    void dec() { h.close(); }
    int get() { return h.is_open(); }
    static int value(vf::Rng& r) { return (int)r.below(2); }
    static int preds() { return 1; }
};
struct Val
{
    static const char* name() { return "value"; }
    // a value on the heap: use of a stale one is seen
    struct V
    {
        std::shared_ptr<int> p;
        std::string s;
        V(int v = 0) : p(std::make_shared<int>(v)), s("value " + std::to_string(v) + " with text kept on the heap") {}
    };
    WaitHandler<V> h;
    Val(int v, bool on) : h(V(v), on) {}
    int wait(int p, int b, unsigned ms) { return reason(h.wait([p, b](const V& v) { return holds(p, b, *v.p) && v.s.size() > 5; }, ms)); }
    void set(int v) { h.set_value(V(v)); }
    void inc() { set(1); }
    void dec() { set(0); }
    int get() { V v = h.get_value(); VF_CHECK(v.s == V(*v.p).s, "torn-value", v.s); return *v.p; }
    static int value(vf::Rng& r) { return (int)r.range(0, 3); }
    static int preds() { return 6; }
};

template <class H>
void run(H& h, Op& o)
{
    o.call = vf::tick();
    switch (o.kind)
    {
        case SET: h.set(o.a); break;
        case INC: h.inc(); break;
        case DEC: h.dec(); break;
        case GET: o.result = h.get(); break;
        case ENABLE: h.h.enable(); break;
        case DISABLE: h.h.disable(); break;
        case BLOCKING: h.h.blocking_disable(); break;
        case STOP: h.h.stop_and_continue(); break;
        case ENABLED: o.result = h.h.enabled(); break;
        case WAIT:
            o.t0 = vf::now_ns();
            o.result = h.wait(o.p, o.a, o.ms);
            o.t1 = vf::now_ns();
            VF_CHECK(o.result < 3, "reason", "wait returned none of the reasons");
            VF_CHECK(o.result != 1 || o.ms > 0, "timeout-without-limit", "a wait without timeout ended by timeout");
            VF_CHECK(o.result != 1 || o.t1 - o.t0 + 400000 >= o.ms * 1000000ull, "timeout-early", "timeout of " << o.ms << " ms after " << (o.t1 - o.t0) / 1000 << " us");
            break;
    }
    o.ret = vf::tick();
}
void judge(std::vector<Op> all, int v0, bool on0, const std::string& key, bool boolean)
{
    // stop_and_continue: disabled at some instant, enabled at a later one
    size_t n = all.size();
    std::vector<int> second;
    for (size_t i = 0; i < n; ++i)
    {
        if (boolean && all[i].kind == INC) { all[i].kind = SET; all[i].a = 1; }
        if (boolean && all[i].kind == DEC) { all[i].kind = SET; all[i].a = 0; }
        if (all[i].kind == STOP)
        {
            Op d = all[i];
            d.kind = DISABLE;
            all.push_back(d);
        }
    }
    // the disabling half must come before the enabling half only if enabled; both orders are accepted otherwise
    std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.call != b.call ? a.call < b.call : a.kind < b.kind; });
    std::vector<vf::LinOp> l;
    for (size_t i = 0; i < all.size(); ++i) l.push_back({all[i].call, all[i].ret, (int)i});
    struct S2
    {
        St s;
        uint64_t stopped;   // stop_and_continue operations whose disabling half is done
        bool operator <(const S2& o) const { return s < o.s || (!(o.s < s) && stopped < o.stopped); }
    };
    int ok = vf::linearizable(l, S2{{v0, on0}, 0}, [&](S2& s, int i)
                    {
                        const Op& o = all[(size_t)i];
                        if (o.kind == DISABLE && (size_t)i + 1 < all.size() + 1)
                        {
                            for (size_t j = 0; j < all.size(); ++j)
                                if (all[j].kind == STOP && all[j].call == o.call) s.stopped |= 1ull << j;
                        }
                        if (o.kind == STOP && !(s.stopped >> i & 1)) return false;
                        return model(s.s, o);
                    });
    if (ok == 0) vf::viol(key, text(all));
    vf::count(ok == 1 ? "histories_consistent" : "histories_undecided", ok != 0);
    vf::count("history_operations", all.size());
}

template <class H>
void histories(int threads, int ops, bool blocking, vf::Opt opt)
{
    std::string name = std::string("history-") + H::name() + "-" + std::to_string(threads) + (blocking ? "-blocking" : "");
    vf::explore(name, opt, [=](vf::Exec& e)
            {
                int v0 = H::value(e.rng);
                bool on0 = e.rng.chance(70);
                H h(v0, on0);
                std::vector<std::vector<Op>> hist((size_t)threads);
                std::vector<std::function<void()>> fs;
                for (int th = 0; th < threads; ++th)
                {
                    uint64_t sd = e.rng.next();
                    fs.push_back([&, th, sd]
                            {
                                vf::Rng r(sd);
                                for (int i = 0; i < ops; ++i)
                                {
                                    Op o;
                                    int k = (int)r.below(100);
                                    o.a = H::value(r);
                                    if (k < 24) o.kind = SET;
                                    else if (k < 30) o.kind = INC;
                                    else if (k < 36) o.kind = DEC;
                                    else if (k < 42) o.kind = GET;
                                    else if (k < 52) o.kind = ENABLE;
                                    else if (k < 57) o.kind = DISABLE;
                                    else if (k < 60) o.kind = ENABLED;
                                    else if (blocking && k < 64) o.kind = BLOCKING;
                                    else if (blocking && k < 70) o.kind = STOP;
                                    else
                                    {
                                        o.kind = WAIT;
                                        o.p = (int)r.below((uint64_t)H::preds());
                                        o.ms = (unsigned)r.range(1, 3);
                                        if (!H::preds()) o.a = 1;
                                    }
                                    if (o.kind == WAIT && std::string(H::name()) == "bool") { o.p = 0; o.a = 1; }
                                    hist[(size_t)th].push_back(o);
                                    run(h, hist[(size_t)th].back());
                                }
                            });
                }
                e.par(fs);
                std::vector<Op> all;
                for (auto& v : hist) all.insert(all.end(), v.begin(), v.end());
                Op g, en;
                g.kind = GET;
                run(h, g);
                all.push_back(g);
                en.kind = ENABLED;
                run(h, en);
                all.push_back(en);
                judge(all, v0, on0, "history", std::string(H::name()) != "int");
            });
}

// All waiters, whenever they come, are woken once the condition is and stays true, or by disable
template <class H>
void wakes(vf::Opt opt)
{
    vf::explore(std::string("wake-") + H::name(), opt, [](vf::Exec& e)
            {
                H h(0, true);
                bool by_disable = e.rng.chance(35);
                unsigned late = e.rng.chance(40) ? 60000 : 0;     // with a timeout that is never reached
                std::vector<std::function<void()>> fs;
                int n = (int)e.rng.range(2, 3);
                const bool is_bool = std::string(H::name()) == "bool";
                for (int i = 0; i < n; ++i)
                {
                    // conditions that 0 does not meet and 2 does
                    int p = 0, b = is_bool ? 1 : 2;
                    if (!is_bool && H::preds() > 1)
                    {
                        switch (e.rng.below(3))
                        {
                            case 0: p = 1; b = (int)e.rng.range(0, 1); break;
                            case 1: p = 2; b = (int)e.rng.range(1, 2); break;
                            default: break;
                        }
                    }
                    int again = (int)e.rng.range(1, 2);
                    fs.push_back([&, p, b, again]
                            {
                                for (int k = 0; k < again; ++k)
                                {
                                    Op o;
                                    o.kind = WAIT; o.p = p; o.a = b; o.ms = late;
                                    run(h, o);
                                    VF_CHECK(o.result == (by_disable ? 0 : 2), "wrong-reason", "wait ended by " << R[o.result & 3] << " with " << (by_disable ? "disable" : "the condition"));
                                }
                            });
                }
                vf::Rng r(e.rng.next());
                int step = (int)e.rng.below(3);
                fs.push_back([&, step]
                        {
                            vf_sched_point(1);
                            if (by_disable)
                            {
                                if (step == 1) h.h.blocking_disable();
                                else h.h.disable();
                            }
                            else if (is_bool || step == 0) h.set(is_bool ? 1 : 2);
                            else if (std::string(H::name()) == "int") { h.inc(); vf_sched_point(2); h.inc(); }
                            else { h.set(1); vf_sched_point(2); h.set(2); }
                        });
                e.par(fs);
                vf::count("woken", (uint64_t)n);
            });
}

// Several threads change the value, up and down; if it happens to meet the condition in the end nobody touches it again
template <class H>
void churns(vf::Opt opt)
{
    vf::explore(std::string("churn-") + H::name(), opt, [](vf::Exec& e)
            {
                const bool is_bool = std::string(H::name()) == "bool";
                int v0 = is_bool ? 0 : (int)e.rng.range(0, 4);
                H h(v0, true);
                int p = is_bool ? 0 : (int)e.rng.below(std::min((uint64_t)H::preds(), (uint64_t)5));
                int b = is_bool ? 1 : (int)e.rng.range(1, 3);
                std::vector<std::function<void()>> fs;
                int waiters = (int)e.rng.range(1, 2), changers = (int)e.rng.range(1, 3);
                unsigned limit = e.rng.chance(30) ? 60000 : 0;
                for (int i = 0; i < waiters; ++i)
                    fs.push_back([&]
                            {
                                Op o;
                                o.kind = WAIT; o.p = p; o.a = b; o.ms = limit;
                                run(h, o);
                                VF_CHECK(o.result == 2, "wrong-reason", "wait ended by " << R[o.result & 3] << " with the condition");
                            });
                std::atomic<int> left{changers};
                for (int i = 0; i < changers; ++i)
                {
                    uint64_t sd = e.rng.next();
                    fs.push_back([&, sd]
                            {
                                vf::Rng r(sd);
                                for (int k = (int)r.range(1, 3); k--;)
                                {
                                    switch (r.below(3))
                                    {
                                        case 0: h.inc(); break;
                                        case 1: h.dec(); break;
                                        default: h.set(H::value(r)); break;
                                    }
                                    vf_sched_point(3);
                                }
                                if (left.fetch_sub(1) != 1) return;
                                bool met = is_bool ? h.get() : holds(p, b, h.get());
                                vf::count(met ? "churn_met" : "churn_not_met");
                                if (met) return;
                                // one step at a time towards it
                                if (is_bool) { h.set(1); return; }
                                if (r.chance(50) && std::string(H::name()) == "int")
                                {
                                    for (int k = 0; k < 20 && !holds(p, b, h.get()); ++k)
                                    {
                                        if (p >= 3 || (p == 0 && h.get() > b)) h.dec();
                                        else h.inc();
                                    }
                                }
                                else
                                {
                                    for (int x = -4; x < 8; ++x) if (holds(p, b, x)) { h.set(x); break; }
                                }
                            });
                }
                e.par(fs);
                vf::count("woken", (uint64_t)waiters);
            });
}

// stop_and_continue and blocking disable let every waiter go first; then the handler waits again
template <class H>
void stops(vf::Opt opt)
{
    vf::explore(std::string("stop-") + H::name(), opt, [](vf::Exec& e)
            {
                H h(0, true);
                const int b = std::string(H::name()) == "bool" ? 1 : 2;
                std::atomic<int> t[2] = {{0}, {0}};
                std::atomic<int> released{0};
                std::vector<std::thread> ws;
                for (int i = 0; i < 2; ++i)
                    ws.emplace_back([&, i]
                            {
                                vf_sched_role(i);
                                t[i] = vf::tid();
                                Op o;
                                o.kind = WAIT; o.p = 0; o.a = b;
                                run(h, o);
                                released.fetch_add(1);
                                VF_CHECK(o.result == 0, "wrong-reason", "wait ended by " << R[o.result & 3] << " with stop_and_continue");
                                t[i] = -1;
                            });
                for (int k = 0; k < 3; ++k) for (auto& x : t) vf::wait_blocked(x);
                bool cont = e.rng.chance(60);
                if (cont) h.h.stop_and_continue();
                else h.h.blocking_disable();
                VF_CHECK(h.h.enabled() == cont, "enabled", "");
                for (auto& w : ws) w.join();     // woken: or the watchdog reports it
                if (!cont)
                {
                    // a disabled handler never blocks
                    Op o;
                    o.kind = WAIT; o.p = 0; o.a = b;
                    run(h, o);
                    VF_CHECK(o.result == 0, "wrong-reason", "wait on a disabled handler ended by " << R[o.result & 3]);
                    h.set(b);
                    run(h, o);
                    VF_CHECK(o.result == 0, "wrong-reason", "wait on a disabled handler whose condition holds ended by " << R[o.result & 3]);
                    h.set(0);
                    h.h.enable();
                }
                // an enabled again one waits again
                Op o;
                o.kind = WAIT; o.p = 0; o.a = b; o.ms = 2;
                run(h, o);
                VF_CHECK(o.result == 1, "wrong-reason", "wait for a condition that does not hold ended by " << R[o.result & 3]);
                h.set(b);
                run(h, o);
                VF_CHECK(o.result == 2, "wrong-reason", "wait for a condition that holds ended by " << R[o.result & 3]);
            });
}

// Destroyed while threads wait: they return, disabled, and nothing is used afterwards
template <class H>
void destroys(vf::Opt opt)
{
    vf::explore(std::string("destroy-") + H::name(), opt, [](vf::Exec& e)
            {
                auto owner = std::make_unique<H>(0, true);
                H* const h = owner.get();
                const int b = std::string(H::name()) == "bool" ? 1 : 2;
                const int how = (int)e.rng.below(3);
                std::atomic<int> t[2] = {{0}, {0}};
                unsigned late = e.rng.chance(30) ? 60000 : 0;
                std::vector<std::thread> ws;
                for (int i = 0; i < 2; ++i)
                    ws.emplace_back([&, i]
                            {
                                vf_sched_role(i);
                                t[i] = vf::tid();
                                int r = h->wait(0, b, late);
                                VF_CHECK(r == 0, "wrong-reason", "wait ended by " << R[r & 3] << " with destruction");
                                t[i] = -1;
                            });
                bool ok = true;
                for (int k = 0; k < 3; ++k) for (auto& x : t) ok &= vf::wait_blocked(x);
                if (ok)
                {
                    h->get();      // takes the lock that the waiters have released: they have started to wait, for sure
                    if (how == 1) h->h.disable();
                    if (how == 2) h->h.blocking_disable();
                    owner.reset();
                    vf::count("destroyed_while_waited_on");
                }
                else h->h.disable();
                for (auto& w : ws) w.join();
            });
}

template <class H>
void all()
{
    histories<H>(2, 7, false, vf::Opt().b(40).r(100).p(50).mi(60));
    histories<H>(3, 5, true, vf::Opt().b(40).r(100).p(50).mi(50));
    wakes<H>(vf::Opt().b(60).r(150).p(80).mi(60));
    churns<H>(vf::Opt().b(60).r(150).p(80).mi(60));
    stops<H>(vf::Opt().r(50).p(30).mi(40));
    destroys<H>(vf::Opt().r(60).p(30).mi(40));
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    all<Int>();
    all<Bool>();
    all<Val>();

    // Timeouts of up to 49 days do not end at once, and short ones end although the value changes all the time (and never
    // meets the condition)
    vf::batches("timeouts", 10, [](vf::Rng& r)
            {
                const unsigned huge = r.pick(std::vector<unsigned>{0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 4000000000u});
                const unsigned ms = 20 + (unsigned)r.below(60), every = 200 + (unsigned)r.below(2500);
                IntWaitHandler i(1), ib(0);
                BooleanWaitHandler d(false), db(false);
                WaitHandler<std::string> s("a"), sb("a");
                std::atomic<bool> stop{false};
                std::thread busy([&]
                        {
                            for (int k = 0; !stop; ++k)
                            {
                                if (k % 2) --ib; else ++ib;
                                db.close();
                                if (k % 3 == 0) ib.set_value(0);
                                sb.set_value("b" + std::to_string(k));
                                vf::sleep_us(every);
                            }
                        });
                std::vector<std::thread> v;
                std::atomic<int> back{0};
                auto bounded = [&](const char* what, std::function<AwakeReason()> f)
                        {
                            v.emplace_back([=, &back]
                                    {
                                        int64_t t0 = vf::now_ns();
                                        AwakeReason a = f();
                                        VF_CHECK(a == AwakeReason::timeout, "wrong-reason", what << " ended by " << R[reason(a) & 3]);
                                        VF_CHECK(vf::now_ns() - t0 >= (int64_t)ms * 1000000 - 1000000, "early-timeout", what << " took " << (vf::now_ns() - t0) / 1000 << " us, with a timeout of " << ms << " ms");
                                        ++back;
                                    });
                        };
                bounded("wait_equal", [&] { return ib.wait_equal(77, ms); });
                bounded("wait for the door", [&] { return db.wait(ms); });
                bounded("wait", [&] { return sb.wait([](const std::string& x) { return x == "c"; }, ms); });
                std::atomic<bool> met{false};
                auto lasting = [&](const char* what, std::function<AwakeReason()> f)
                        {
                            v.emplace_back([=, &met]
                                    {
                                        AwakeReason a = f();
                                        VF_CHECK(a == AwakeReason::condition_met && met, "wrong-reason", what << " with a timeout of " << huge << " ms ended by " << R[reason(a) & 3]);
                                    });
                        };
                lasting("wait_greater_than", [&] { return i.wait_greater_than(5, huge); });
                lasting("wait for the door", [&] { return d.wait(huge); });
                lasting("wait", [&] { return s.wait([](const std::string& x) { return x == "c"; }, huge); });
                vf::sleep_us(30000);
                met = true;
                i.set_value(6);
                d.open();
                s.set_value("c");
                bool b = vf::eventually([&] { return back == 3; }, 10000);
                VF_CHECK(b, "slow-timeout", 3 - back << " waits with a timeout of " << ms << " ms go on while the value changes");
                stop = true;
                for (auto& t : v) t.join();
                busy.join();
                vf::count("steps", 6);
                vf::count("bounded", 3);
                vf::count("lasting", 3);
            });

    // Sequential use against the model, with the limits of the values too
    vf::batches("sequence", 60, [](vf::Rng& r)
            {
                Int h(0, true);
                IntWaitHandler& w = h.h;
                int v = 0;
                bool on = true;
                uint64_t hash = 0;
                const std::vector<int> vals = {0, 1, -1, 2, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 77};
                for (int i = 0; i < 300; ++i)
                {
                    int k = (int)r.below(12), b = r.pick(vals);
                    int p = (int)r.below(5);
                    switch (k)
                    {
                        case 0: case 1: v = b; w.set_value(v, r.chance(70)); break;
                        case 2: if (v < INT32_MAX) { ++v; ++w; } break;
                        case 3: if (v > INT32_MIN) { --v; --w; } break;
                        case 4: if (r.chance(30)) { on = false; w.disable(); } break;
                        case 5: on = true; w.enable(); break;
                        case 6: w.stop_and_continue(); on = true; break;
                        case 7: if (r.chance(30)) { on = false; w.blocking_disable(); } break;
                        default:
                        {
                            bool ok = holds(p, b, v);
                            if (on && !ok && r.chance(80)) break;    // few waits that take their time
                            Op o;
                            o.kind = WAIT; o.p = p; o.a = b; o.ms = ok || !on ? (r.chance(50) ? 0 : 50000) : 1;
                            run(h, o);
                            int want = !on ? 0 : ok ? 2 : 1;
                            VF_CHECK(o.result == want, "wrong-reason", "wait with value " << v << " bound " << b << " predicate " << p << " ended by " << R[o.result & 3]);
                            hash = vf::mix(hash ^ (uint64_t)(o.result * 100 + p) ^ (uint64_t)(unsigned)v << 20);
                        }
                    }
                    VF_CHECK(w.get_value() == v && w.enabled() == on, "value", w.get_value() << " instead of " << v);
                    vf::count("steps");
                }
                vf::seen("sequences", hash);
            });
    return vf::finish();
}
