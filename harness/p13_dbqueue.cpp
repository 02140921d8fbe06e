// P13: DBQueue. Histories of any producers and one consumer are checked for linearizability against two queues.
#include <vf.hpp>
#include <fragile.hpp>
#include <lin.hpp>
#include <deque>
#include <cpp_utils/queue/DBQueue.hpp>

using eprosima::utils::event::DBQueue;

struct Item
{
    int n = -1;
    std::string text;
    vf::Live<Item> live;
    Item() = default;
    explicit Item(int i) : n(i), text("element " + std::to_string(i) + " with text on the heap") {}
    bool ok() const { return live.ok() && text == "element " + std::to_string(n) + " with text on the heap"; }
};

enum Kind { PUSH, PUSH_MOVE, SWAP, FRONT, POP, FRONT_POP, SIZE, EMPTY, BOTH, CLEAR, NK };
const char* K[] = {"push", "push(move)", "swap", "front", "pop", "front_and_pop", "size", "empty", "both_empty", "clear"};
struct Op
{
    Kind kind;
    int n = 0;
    long result = 0;
    uint64_t call = 0, ret = UINT64_MAX;
};
struct St
{
    std::deque<int> fg, bg;
    bool operator <(const St& o) const { return std::tie(fg, bg) < std::tie(o.fg, o.bg); }
};
// result of an operation on the model; front and pop are not called on an empty one
bool model(St& s, const Op& o)
{
    switch (o.kind)
    {
        case PUSH: case PUSH_MOVE: s.bg.push_back(o.n); return true;
        case SWAP: s.fg.clear(); std::swap(s.fg, s.bg); return true;
        case FRONT: return !s.fg.empty() && s.fg.front() == o.result;
        case POP: if (s.fg.empty()) return false; s.fg.pop_front(); return true;
        case FRONT_POP: if (s.fg.empty() || s.fg.front() != o.result) return false; s.fg.pop_front(); return true;
        case SIZE: return o.result == (long)s.fg.size();
        case EMPTY: return o.result == (long)s.fg.empty();
        case BOTH: return o.result == (long)(s.fg.empty() && s.bg.empty());
        default: s.fg.clear(); s.bg.clear(); return true;
    }
}
void run(DBQueue<Item>& q, Op& o)
{
    const DBQueue<Item>& c = q;
    o.call = vf::tick();
    switch (o.kind)
    {
        case PUSH: { Item i(o.n); q.push(i); VF_CHECK(i.ok(), "copy-changed", ""); break; }
        case PUSH_MOVE: q.push(Item(o.n)); break;
        case SWAP: q.swap(); break;
        case FRONT: { const Item& i = o.n ? c.front() : q.front(); VF_CHECK(i.ok(), "torn", i.text); o.result = i.n; break; }
        case POP: q.pop(); break;
        case FRONT_POP: { Item i = q.front_and_pop(); VF_CHECK(i.ok(), "torn", i.text); o.result = i.n; break; }
        case SIZE: o.result = (long)q.size(); break;
        case EMPTY: o.result = q.empty(); break;
        case BOTH: o.result = q.both_empty(); break;
        default: q.clear();
    }
    o.ret = vf::tick();
}
std::string text(const std::vector<Op>& v)
{
    std::ostringstream s;
    for (auto& o : v) s << "[" << o.call << "-" << (long)o.ret << "] " << K[o.kind] << "(" << o.n << ")->" << o.result << "; ";
    return s.str();
}

// Element whose move and destruction wait for something
struct Slow
{
    int n;
    static std::function<void()>& hook()
    {
        static std::function<void()> f;
        return f;
    }
    static std::atomic<bool>& armed()
    {
        static std::atomic<bool> a{false};
        return a;
    }
    explicit Slow(int i) : n(i) {}
    Slow(const Slow&) = default;
    Slow(Slow&& o) : n(o.n) { if (armed().exchange(false)) hook()(); }
    ~Slow() { if (armed().exchange(false)) hook()(); }
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    auto histories = [](const char* name, int producers, int pushes, int consumer_ops, bool clears, vf::Opt opt)
            {
                vf::explore(name, opt, [=](vf::Exec& e)
                        {
                            long live0 = vf::Live<Item>::n();
                            {
                                DBQueue<Item> q;
                                std::vector<std::vector<Op>> h((size_t)producers + 1);
                                std::atomic<int> next{0};
                                std::vector<std::function<void()>> fs;
                                int start = (int)e.rng.below(3);
                                const bool look = e.rng.chance(40);    // producers look at the queue too
                                std::vector<Op> all;
                                for (int i = 0; i < start; ++i)
                                {
                                    Op o;
                                    o.kind = PUSH;
                                    o.n = next++;
                                    run(q, o);
                                    all.push_back(o);
                                }
                                for (int p = 0; p < producers; ++p)
                                {
                                    uint64_t sd = e.rng.next();
                                    fs.push_back([&, p, sd]
                                            {
                                                vf::Rng r(sd);
                                                for (int i = 0; i < pushes; ++i)
                                                {
                                                    Op o;
                                                    if (look && r.chance(50))
                                                    {
                                                        o.kind = r.chance(60) ? BOTH : r.chance(50) ? EMPTY : SIZE;
                                                        run(q, o);
                                                        h[(size_t)p].push_back(o);
                                                        continue;
                                                    }
                                                    o.kind = r.chance(50) ? PUSH : PUSH_MOVE;
                                                    o.n = next.fetch_add(1, std::memory_order_relaxed);
                                                    run(q, o);
                                                    h[(size_t)p].push_back(o);
                                                }
                                            });
                                }
                                uint64_t sd = e.rng.next();
                                fs.push_back([&, sd]
                                        {
                                            vf::Rng r(sd);
                                            long have = 0;     // what the foreground holds, as known to the only consumer
                                            auto& v = h[(size_t)producers];
                                            for (int i = 0; i < consumer_ops; ++i)
                                            {
                                                Op o;
                                                int k = (int)r.below(100);
                                                if (k < 30 || (!have && k < 45)) o.kind = SWAP;
                                                else if (k < 62) o.kind = have ? FRONT_POP : SIZE;
                                                else if (k < 70) o.kind = have ? POP : EMPTY;
                                                else if (k < 78) o.kind = have ? FRONT : BOTH;
                                                else if (k < 84) o.kind = BOTH;
                                                else if (k < 88) o.kind = EMPTY;
                                                else if (k < 91 && clears) o.kind = CLEAR;
                                                else o.kind = SIZE;
                                                o.n = o.kind == FRONT ? (int)r.below(2) : 0;
                                                run(q, o);
                                                v.push_back(o);
                                                if (o.kind == POP || o.kind == FRONT_POP) --have;
                                                if (o.kind == SWAP || o.kind == CLEAR)
                                                {
                                                    Op s;
                                                    s.kind = SIZE;
                                                    run(q, s);
                                                    v.push_back(s);
                                                    have = s.result;
                                                }
                                            }
                                        });
                                e.par(fs);
                                for (auto& v : h) all.insert(all.end(), v.begin(), v.end());
                                // drain
                                for (int round = 0; round < 2; ++round)
                                {
                                    Op z;
                                    z.kind = SIZE;
                                    run(q, z);
                                    all.push_back(z);
                                    for (long i = 0; i < z.result; ++i)
                                    {
                                        Op f;
                                        f.kind = FRONT_POP;
                                        run(q, f);
                                        all.push_back(f);
                                    }
                                    Op s;
                                    s.kind = SWAP;
                                    run(q, s);
                                    all.push_back(s);
                                }
                                Op b;
                                b.kind = BOTH;
                                run(q, b);
                                all.push_back(b);
                                VF_CHECK(b.result == 1, "not-empty", "");
                                std::sort(all.begin(), all.end(), [](const Op& x, const Op& y) { return x.call < y.call; });
                                std::vector<vf::LinOp> l;
                                for (size_t i = 0; i < all.size(); ++i) l.push_back({all[i].call, all[i].ret, (int)i});
                                int ok = vf::linearizable(l, St{}, [&](St& s, int i) { return model(s, all[(size_t)i]); });
                                if (ok == 0) vf::viol("history", text(all));
                                vf::count(ok == 1 ? "histories_consistent" : "histories_undecided", ok != 0);
                                vf::count("history_operations", all.size());
                            }
                            VF_CHECK(vf::Live<Item>::n() == live0, "leak", vf::Live<Item>::n() - live0 << " elements not destroyed");
                        });
            };
    histories("history-1", 1, 6, 8, true, vf::Opt().b(60).r(200).p(100).mi(100));
    histories("history-2", 2, 4, 8, true, vf::Opt().b(60).r(200).p(100).mi(80));
    histories("history-3", 3, 3, 7, false, vf::Opt().b(60).r(200).p(100).mi(60));

    // Many elements: every one comes out once, per producer in order, however swaps fall
    vf::explore("stream", vf::Opt().b(40).r(60).p(30).mi(60), [](vf::Exec& e)
            {
                DBQueue<Item> q;
                const int per = 60;
                std::atomic<int> done{0};
                std::vector<int> got;
                int np = (int)e.rng.range(1, 3);
                std::vector<std::function<void()>> fs;
                for (int p = 0; p < np; ++p)
                    fs.push_back([&, p]
                            {
                                for (int i = 0; i < per; ++i) q.push(Item(p * 1000 + i));
                                done.fetch_add(1);
                            });
                fs.push_back([&]
                        {
                            for (;;)
                            {
                                bool last = done == np;
                                while (!q.empty())
                                {
                                    Item i = q.front_and_pop();
                                    VF_CHECK(i.ok(), "torn", i.text);
                                    got.push_back(i.n);
                                }
                                q.swap();
                                if (last && q.empty()) break;
                            }
                        });
                e.par(fs);
                std::map<int, int> next;
                for (int n : got)
                {
                    VF_CHECK(n % 1000 == next[n / 1000], n % 1000 < next[n / 1000] ? "twice" : "lost-or-order", "element " << n << " when " << next[n / 1000] << " of that producer comes next");
                    next[n / 1000] = n % 1000 + 1;
                }
                VF_CHECK((int)got.size() == np * per, "lost", got.size() << " elements of " << np * per);
                vf::count("elements", got.size());
            });

    // A push goes ahead while the consumer takes its time to move or destroy an element
    vf::explore("push-not-blocked", vf::Opt().b(20).r(40).p(20).mi(30), [](vf::Exec& e)
            {
                DBQueue<Slow> q;
                for (int i = 0; i < 3; ++i) q.push(Slow(i));
                q.swap();
                std::atomic<int> pushed{0}, inside{0};
                Slow::hook() = [&]
                        {
                            inside = 1;
                            bool ok = vf::eventually([&] { return pushed == 2; }, 4000);
                            VF_CHECK(ok, "push-blocked", "push waits for the consumer, that is inside " << "an element");
                        };
                bool pop = e.rng.chance(50);
                e.par({
                          [&]
                          {
                              Slow::armed() = true;
                              if (pop) q.pop();
                              else q.front_and_pop();
                              VF_CHECK(q.size() == 2 && q.front().n == 1, "order", "");
                          },
                          [&]
                          {
                              while (!inside) std::this_thread::yield();
                              const Slow s(10);
                              q.push(s);
                              pushed = 1;
                              q.push(s);
                              pushed = 2;
                          }
                      });
                Slow::armed() = false;
                q.swap();
                VF_CHECK(q.size() == 2 && q.front().n == 10, "order", "");
                Slow::hook() = {};
            });

    // Sequential use against the model
    vf::batches("sequence", 300, [](vf::Rng& r)
            {
                long live0 = vf::Live<Item>::n();
                {
                    DBQueue<Item> q;
                    St s;
                    int next = 0;
                    uint64_t hash = 0;
                    unsigned push = (unsigned)r.range(20, 80);
                    int n = (int)r.range(50, 800);
                    for (int i = 0; i < n; ++i)
                    {
                        if (r.chance(3)) push = (unsigned)r.range(5, 90);
                        Op o;
                        int k = (int)r.below(100);
                        o.kind = r.chance(push) ? (r.chance(50) ? PUSH : PUSH_MOVE) : k < 30 ? FRONT_POP : k < 45 ? POP : k < 60 ? FRONT : k < 75 ? SWAP : k < 82 ? SIZE : k < 89 ? EMPTY :
                                k < 97 ? BOTH : CLEAR;
                        if (s.fg.empty() && (o.kind == FRONT_POP || o.kind == POP || o.kind == FRONT)) o.kind = r.chance(50) ? SWAP : SIZE;
                        o.n = o.kind <= PUSH_MOVE ? next++ : (int)r.below(2);
                        run(q, o);
                        VF_CHECK(model(s, o), "sequence", K[o.kind] << " gave " << o.result << " with " << s.fg.size() << " in front and " << s.bg.size() << " behind");
                        VF_CHECK(q.size() == s.fg.size() && q.empty() == s.fg.empty() && q.both_empty() == (s.fg.empty() && s.bg.empty()), "sequence", "sizes after " << K[o.kind]);
                        if (!s.fg.empty()) VF_CHECK(q.front().n == s.fg.front(), "sequence", "front after " << K[o.kind]);
                        VF_CHECK(vf::Live<Item>::n() - live0 == (long)(s.fg.size() + s.bg.size()), "kept", vf::Live<Item>::n() - live0 << " elements alive, " << s.fg.size() + s.bg.size() << " queued");
                        hash = vf::mix(hash ^ (uint64_t)(o.kind * 1000) ^ (uint64_t)o.result);
                        vf::count("steps");
                    }
                    vf::seen("sequences", hash);
                }
                VF_CHECK(vf::Live<Item>::n() == live0, "leak", "");
            });
    // Many elements
    vf::batches("many", 4, [](vf::Rng& r)
            {
                long live0 = vf::Live<Item>::n();
                {
                    DBQueue<Item> q;
                    St s;
                    const int n = (int)r.pick(std::vector<int>{300, 5000, 33000, 70000});
                    int next = 0;
                    auto op = [&](Kind k, int m)
                            {
                                Op o;
                                o.kind = k;
                                o.n = m;
                                run(q, o);
                                VF_CHECK(model(s, o), "sequence", K[o.kind] << " gave " << o.result << " with " << s.fg.size() << " in front and " << s.bg.size() << " behind");
                            };
                    for (int round = 0; round < 3; ++round)
                    {
                        for (int i = 0; i < n; ++i) op(r.chance(50) ? PUSH : PUSH_MOVE, next++);
                        op(SWAP, 0);
                        VF_CHECK(q.size() == s.fg.size(), "sequence", "size " << q.size() << " of " << s.fg.size());
                        for (size_t k = round == 2 ? s.fg.size() : r.below(s.fg.size()); k--;) op(FRONT_POP, (int)r.below(2));
                        for (int i = 0; i < 200; ++i) op(PUSH, next++);
                        op(SWAP, 0);
                        VF_CHECK(vf::Live<Item>::n() - live0 == (long)(s.fg.size() + s.bg.size()), "kept", vf::Live<Item>::n() - live0 << " elements alive, " << s.fg.size() + s.bg.size() << " queued");
                    }
                    vf::count("steps", 3 * (uint64_t)n);
                }
                VF_CHECK(vf::Live<Item>::n() == live0, "leak", "");
            });
    // Elements that cannot be copied, which only their owner has
    vf::batches("move-only", 10, [](vf::Rng& r)
            {
                struct Only
                {
                    vf::Live<Only> live;
                    std::unique_ptr<std::string> text;
                    explicit Only(int n) : text(new std::string("the text of element " + std::to_string(n))) {}
                    Only(Only&&) = default;
                    Only& operator =(Only&&) = default;
                };
                long live0 = vf::Live<Only>::n();
                {
                    DBQueue<Only> q;
                    std::deque<int> fg, bg;
                    for (int i = 0; i < 300; ++i)
                    {
                        const int kind = (int)r.below(8);
                        if (kind < 4)
                        {
                            Only o(i);
                            q.push(std::move(o));
                            bg.push_back(i);
                        }
                        else if (kind < 7 && !fg.empty())
                        {
                            const std::string want = "the text of element " + std::to_string(fg.front());
                            VF_CHECK(q.front().text && *q.front().text == want, "move-only", "the front is not " << want);
                            if (r.chance(70))
                            {
                                Only o = q.front_and_pop();
                                VF_CHECK(o.text && *o.text == want, "move-only", "what was popped is not " << want);
                            }
                            else q.pop();
                            fg.pop_front();
                        }
                        else if (kind == 7) { q.swap(); fg.swap(bg); bg.clear(); }
                        VF_CHECK(q.size() == fg.size() && q.empty() == fg.empty() && q.both_empty() == (fg.empty() && bg.empty()), "move-only", "size " << q.size() << " instead of " << fg.size());
                        VF_CHECK(vf::Live<Only>::n() - live0 == (long)(fg.size() + bg.size()), "move-only", vf::Live<Only>::n() - live0 << " elements alive");
                        vf::count("steps");
                    }
                }
                VF_CHECK(vf::Live<Only>::n() == live0, "leak", "elements that cannot be copied");
            });
    // Elements whose copies fail are not pushed, and nothing else changes
    vf::batches("failing-copies", 20, [](vf::Rng& r)
            {
                using F = vf::Fragile;
                long live0 = vf::Live<F>::n();
                {
                    DBQueue<F> q;
                    std::deque<int> fg, bg;
                    for (int i = 0; i < 300; ++i)
                    {
                        F v(i);
                        const int fuse = (int)r.below(3), kind = (int)r.below(7);
                        int got = -1;
                        if (kind < 3)
                        {
                            if (!vf::failing(fuse, [&] { if (kind) q.push(v); else q.push(std::move(v)); })) bg.push_back(i);
                        }
                        else if (kind < 5 && !fg.empty())
                        {
                            bool copied = !vf::failing(fuse, [&] { F x = q.front(); got = x.get(); });
                            VF_CHECK(!copied || got == fg.front(), "failing-copies", "front " << got << " instead of " << fg.front());
                            if (r.chance(50))
                            {
                                if (!vf::failing(fuse, [&] { got = q.front_and_pop().get(); }))
                                {
                                    VF_CHECK(got == fg.front(), "failing-copies", "popped " << got << " instead of " << fg.front());
                                    fg.pop_front();
                                }
                            }
                            else { q.pop(); fg.pop_front(); }
                        }
                        else if (kind == 5) { q.swap(); fg.swap(bg); bg.clear(); }
                        else if (r.chance(5)) { q.clear(); fg.clear(); bg.clear(); }
                        VF_CHECK(q.size() == fg.size() && q.both_empty() == (fg.empty() && bg.empty()), "failing-copies", "size " << q.size() << " instead of " << fg.size());
                        VF_CHECK(vf::Live<F>::n() - live0 == (long)(fg.size() + bg.size() + 1), "failing-copies", vf::Live<F>::n() - live0 << " elements alive");
                        vf::count("steps");
                    }
                }
                VF_CHECK(vf::Live<F>::n() == live0, "leak", "elements that failed to be copied");
            });
    return vf::finish();
}
