// P02: SafeDatabase. Recorded histories are checked for linearizability against a map; lifetimes of iterators are
// checked against the intervals of successful writes.
#include <vf.hpp>
#include <fragile.hpp>
#include <lin.hpp>
#include <stdexcept>
#include <map>
#include <memory>
#include <cpp_utils/collection/database/SafeDatabase.hpp>

using namespace eprosima::utils;
using DB = SafeDatabase<int, std::string>;
using It = SafeDatabaseIterator<int, std::string>;

namespace t {
enum Kind { ADD, ADDC, MODIFY, AOM, AOMC, ERASE, IS, FIND, AT, SIZE, SNAP, NKINDS };
const char* NAMES[] = {"add", "add(copy)", "modify", "add_or_modify", "add_or_modify(copy)", "erase", "is", "find", "at", "size", "iterate"};
struct Op
{
    Kind kind;
    int key = 0;
    std::string val;          // argument
    bool b = false;           // result
    std::string out;          // result
    unsigned n = 0;
    std::map<int, std::string> snap;
    bool order_ok = true;
    uint64_t call = 0, ret = UINT64_MAX;
};
std::string value(int thread, int i)
{
    return "value-" + std::to_string(thread) + "-" + std::to_string(i) + "-of-some-length-on-the-heap";
}

void run(DB& db, Op& o)
{
    o.call = vf::tick();
    switch (o.kind)
    {
        case ADD: { int k = o.key; std::string v = o.val; o.b = db.add(std::move(k), std::move(v)); break; }
        case ADDC: { const int k = o.key; const std::string v = o.val; o.b = db.add(k, v); break; }
        case MODIFY: { std::string v = o.val; o.b = db.modify(o.key, std::move(v)); break; }
        case AOM: { int k = o.key; std::string v = o.val; o.b = db.add_or_modify(std::move(k), std::move(v)); break; }
        case AOMC: { const int k = o.key; const std::string v = o.val; o.b = db.add_or_modify(k, v); break; }
        case ERASE: o.b = db.erase(o.key); break;
        case IS: o.b = db.is(o.key); break;
        case FIND:
        {
            It it = db.find(o.key);
            vf_sched_point(1);
            o.b = it != db.end();
            if (o.b)
            {
                o.out = it->second;
                VF_CHECK(it->first == o.key, "find-other-key", "find(" << o.key << ") gave key " << it->first);
            }
            break;
        }
        case AT:
            try { o.out = db.at(o.key); o.b = true; }
            catch (const std::out_of_range&) { o.b = false; }
            break;
        case SIZE: o.n = db.size(); break;
        case SNAP:
        {
            int last = -1000000;
            unsigned long guard = 0;
            It end = db.end();
            for (It it = db.begin(); it != end && guard < 1000; ++it, ++guard)
            {
                vf_sched_point(2);
                if (it->first <= last) o.order_ok = false;
                last = it->first;
                o.snap[it->first] = it->second;
            }
            VF_CHECK(o.order_ok && guard == o.snap.size(), "iteration-order", "iteration not in strictly increasing order");
            break;
        }
        default: break;
    }
    o.ret = vf::tick();
}

bool model_apply(std::map<int, std::string>& m, const Op& o)
{
    auto it = m.find(o.key);
    bool has = it != m.end();
    switch (o.kind)
    {
        case ADD: case ADDC:
            if (o.b == has) return false;
            if (!has) m[o.key] = o.val;
            return true;
        case MODIFY:
            if (o.b != has) return false;
            if (has) it->second = o.val;
            return true;
        case AOM: case AOMC:
            if (o.b == has) return false;
            m[o.key] = o.val;
            return true;
        case ERASE:
            if (o.b != has) return false;
            if (has) m.erase(it);
            return true;
        case IS: return o.b == has;
        case FIND: case AT: return o.b == has && (!has || it->second == o.out);
        case SIZE: return o.n == m.size();
        case SNAP: return o.snap == m;
        default: return false;
    }
}

std::string text(const Op& o)
{
    std::ostringstream s;
    s << "[" << o.call << "-" << o.ret << "] " << NAMES[o.kind] << "(" << o.key;
    if (!o.val.empty()) s << "," << o.val.substr(0, 10);
    s << ")->" << o.b;
    if (!o.out.empty()) s << ":" << o.out.substr(0, 10);
    if (o.kind == SIZE) s << ":" << o.n;
    if (o.kind == SNAP) for (auto& x : o.snap) s << " " << x.first << "=" << x.second.substr(0, 10);
    return s.str();
}

Op random_op(vf::Rng& r, int thread, int i, int keys, bool writes_more)
{
    Op o;
    o.kind = (Kind)r.below(NKINDS);
    if (writes_more && o.kind > ERASE && r.chance(40)) o.kind = (Kind)r.below(IS);
    o.key = (int)r.below(keys);
    if (o.kind <= AOMC) o.val = value(thread, i);
    return o;
}
// A value whose assignment can take long
struct Slow
{
    int a, b;
    std::atomic<bool>* started = nullptr;
    explicit Slow(int v) : a(v), b(v) {}
    Slow(const Slow& o) : a(o.a), b(o.b) {}
    Slow(Slow&& o) : a(o.a), b(o.b), started(o.started) {}
    Slow& operator =(const Slow& o) { assign(o); return *this; }
    Slow& operator =(Slow&& o) { assign(o); return *this; }
    void assign(const Slow& o)
    {
        a = o.a;
        if (o.started)
        {
            *o.started = true;
            vf::sleep_us(1200000);
        }
        b = o.b;
    }
    bool whole() const { return a == b; }
};
} // namespace t
using namespace t;

// Values and keys whose copies fail: nothing is changed then, and nothing stays locked (with Brittle, moves and comparisons fail as well)
template <class F> void failing_copies(vf::Rng& r)
{
    long live0 = vf::Live<F>::n();
    {
        SafeDatabase<F, F> db;
        std::map<int, int> m;
        for (int i = 0; i < 200; ++i)
        {
            F k((int)r.below(6)), v(100 + i);
            const int key = k.get();
            bool has = m.count(key), ok = false, failed = false;
            int kind = (int)r.below(8), at = -1;
            failed = vf::failing((int)r.below(std::is_same<F, vf::Brittle>::value ? 14 : 5), [&]
                    {
                        switch (kind)
                        {
                            case 0: case 1: ok = db.add(k, v) == !has; break;
                            case 2: ok = db.add(F(key), F(100 + i)) == !has; break;
                            case 3: { F w(100 + i); ok = db.modify(k, std::move(w)) == has; break; }
                            case 4: ok = db.add_or_modify(k, v) == !has; break;
                            case 5: ok = db.erase(k) == has; break;
                            default:
                                try { F w = db.at(k); at = w.get(); ok = has && at == m[key]; }
                                catch (const std::out_of_range&) { ok = !has; }
                        }
                    });
            if (!failed)
            {
                VF_CHECK(ok, "failing-copies", "operation " << kind << " on " << (has ? "a" : "no") << " key that is there");
                if (kind < 3 && !has) m[key] = 100 + i;
                if (kind == 3 && has) m[key] = 100 + i;
                if (kind == 4) m[key] = 100 + i;
                if (kind == 5) m.erase(key);
            }
            // others still proceed, with the same content
            std::thread t([&]
                    {
                        F probe(77);
                        bool added = db.add(F(77), F(0)), gone = db.erase(probe);
                        VF_CHECK(added && gone, "failing-copies", "another thread after operation " << kind);
                    });
            t.join();
            VF_CHECK(db.size() == m.size(), "failing-copies", "size " << db.size() << " instead of " << m.size() << " after operation " << kind << (failed ? ", which failed" : ""));
            for (auto it = db.begin(); it != db.end(); ++it)
                VF_CHECK(m.count(it->first.get()) && m[it->first.get()] == it->second.get(), "failing-copies", "key " << it->first.get() << " with value " << it->second.get() << " after operation " << kind << (failed ? ", which failed" : ""));
            vf::count("steps");
        }
    }
    VF_CHECK(vf::Live<F>::n() == live0, "leak", "values that failed to be copied");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    vf::batches("sequential", 60, [](vf::Rng& r)
            {
                for (int c = 0; c < 20; ++c)
                {
                    DB db;
                    std::map<int, std::string> model;
                    uint64_t h = 0;
                    int keys = 1 + (int)r.below(40);
                    for (int i = 0; i < 60; ++i)
                    {
                        Op o = random_op(r, 0, i, keys, true);
                        if (r.chance(5)) o.key = -o.key;
                        run(db, o);
                        auto before = model;
                        VF_CHECK(model_apply(model, o), "sequential-result", "wrong result " << text(o) << " on a map of " << before.size());
                        h = vf::mix(h ^ (o.kind * 100 + o.key));
                        vf::count("steps");
                    }
                    Op s; s.kind = SNAP;
                    run(db, s);
                    VF_CHECK(s.snap == model, "sequential-state", "final contents differ");
                    vf::seen("sequences", h);
                }
            });

    // Many elements
    vf::batches("many", 6, [](vf::Rng& r)
            {
                DB db;
                std::map<int, std::string> model;
                const int n = (int)r.pick(std::vector<int>{200, 300, 1100, 5000, 20000, 70000});
                std::vector<int> keys;
                for (int i = 0; i < n; ++i) keys.push_back(i * 3 - n);
                for (int i = n - 1; i > 0; --i) std::swap(keys[(size_t)i], keys[r.below((uint64_t)i + 1)]);
                for (int k : keys)
                {
                    std::string v = t::value(0, k);
                    model[k] = v;
                    VF_CHECK(r.chance(50) ? db.add(k, v) : db.add_or_modify(k, v), "sequential-result", "add of new key " << k << " among " << model.size());
                    if (r.chance(1)) VF_CHECK(db.size() == model.size(), "sequential-result", "size");
                }
                auto same = [&]
                        {
                            VF_CHECK(db.size() == model.size(), "sequential-state", db.size() << " elements instead of " << model.size());
                            size_t at = 0;
                            auto m = model.begin();
                            It end = db.end();
                            for (It it = db.begin(); it != end && m != model.end(); ++it, ++m, ++at)
                            {
                                VF_CHECK(it->first == m->first && it->second == m->second, "sequential-state", "element " << at << " of " << model.size() << " is " << it->first);
                            }
                            VF_CHECK(at == model.size(), "sequential-state", at << " elements iterated of " << model.size());
                        };
                same();
                for (int k : keys)
                {
                    VF_CHECK(db.is(k) && db.at(k) == model[k] && !db.is(k + 1), "sequential-result", "key " << k << " among " << n);
                    if (r.chance(30)) { VF_CHECK(db.erase(k), "sequential-result", "erase " << k); model.erase(k); }
                    else if (r.chance(30)) { model[k] = "new value"; VF_CHECK(db.modify(k, std::string("new value")), "sequential-result", "modify " << k); }
                }
                same();
                vf::count("steps", 3 * (uint64_t)n);
            });

    auto lin = [](const char* name, int threads, int ops, int keys, vf::Opt opt)
            {
                vf::explore(name, opt, [=](vf::Exec& e)
                        {
                            DB db;
                            std::map<int, std::string> init;
                            for (int k = 0; k < keys; ++k)
                            {
                                if (e.rng.chance(50)) { db.add(k, value(99, k)); init[k] = value(99, k); }
                            }
                            std::vector<std::vector<Op>> hist(threads);
                            std::vector<std::function<void()>> fs;
                            for (int th = 0; th < threads; ++th)
                            {
                                uint64_t sd = e.rng.next();
                                fs.push_back([&, th, sd]
                                        {
                                            vf::Rng r(sd);
                                            for (int i = 0; i < ops; ++i)
                                            {
                                                hist[th].push_back(random_op(r, th, i, keys, true));
                                                run(db, hist[th].back());
                                            }
                                        });
                            }
                            e.par(fs);
                            Op fin; fin.kind = SNAP;
                            run(db, fin);
                            std::vector<Op> all;
                            for (auto& h : hist) for (auto& o : h) all.push_back(o);
                            all.push_back(fin);
                            std::vector<vf::LinOp> ops_;
                            for (size_t i = 0; i < all.size(); ++i) ops_.push_back({all[i].call, all[i].ret, (int)i});
                            int ok = vf::linearizable(ops_, init, [&](std::map<int, std::string>& m, int i) { return model_apply(m, all[i]); });
                            if (ok == 0)
                            {
                                std::ostringstream s;
                                std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.call < b.call; });
                                for (auto& o : all) s << text(o) << "; ";
                                vf::viol("not-linearizable", s.str());
                            }
                            vf::count(ok == 1 ? "histories_linearizable" : "histories_undecided", ok != 0);
                            vf::count("history_operations", all.size());
                        });
            };
    lin("histories-1key", 3, 5, 1, vf::Opt().b(60).r(250).p(120).mi(120));
    lin("histories-3keys", 3, 6, 3, vf::Opt().b(60).r(250).p(120).mi(140));
    lin("histories-4threads", 4, 4, 2, vf::Opt().b(60).r(200).p(100).mi(100));

    // Iterators against writers
    vf::explore("iterator-stability", vf::Opt().r(250).p(100), [](vf::Exec& e)
            {
                DB db;
                for (int k = 0; k < 4; ++k) db.add(k, value(9, k));
                struct Span { uint64_t a, b; };
                std::vector<Span> alive;
                struct W { uint64_t call, ret; bool ok; };
                std::vector<W> writes[2];
                uint64_t s0 = e.rng.next();
                auto writer = [&](int w)
                        {
                            for (int i = 0; i < 4; ++i)
                            {
                                Op o;
                                static const Kind K[] = {ADD, MODIFY, AOM, ERASE};
                                o.kind = K[(i + w * 2 + s0) % 4];
                                o.key = (int)((s0 >> (i + w)) % 6);
                                o.val = value(w, i);
                                run(db, o);
                                writes[w].push_back({o.call, o.ret, o.b || o.kind == AOM});
                            }
                        };
                e.par({[&]
                       {
                           vf::Rng r(s0);
                           for (int i = 0; i < 3; ++i)
                           {
                               std::unique_ptr<It> a;
                               switch (r.below(3))
                               {
                                   case 0: a.reset(new It(db.begin())); break;
                                   case 1: a.reset(new It(db.find((int)r.below(6)))); break;
                                   default: a.reset(new It(db.end())); break;
                               }
                               Span s;
                               s.a = vf::tick();
                               vf_sched_point(3);
                               if (r.chance(60))
                               {
                                   // copies and moves keep the lock each on its own
                                   std::unique_ptr<It> b(new It(*a));
                                   if (r.chance(50)) a.reset(); else { It c(std::move(*b)); b.reset(); if (r.chance(50)) { b.reset(new It(c)); a.reset(); } }
                                   if (!a) a = std::move(b);
                                   vf_sched_point(4);
                               }
                               if (r.chance(50))
                               {
                                   // reads while holding it
                                   std::map<int, std::string> s1, s2;
                                   for (It x = db.begin(); x != db.end(); ++x) s1[x->first] = x->second;
                                   vf_sched_point(5);
                                   for (It x = db.begin(); x != db.end(); x++) s2[x->first] = x->second;
                                   VF_CHECK(s1 == s2, "changed-under-iterator", "two iterations under a live iterator differ: " << s1.size() << " and " << s2.size() << " elements");
                                   VF_CHECK(db.size() == s1.size(), "changed-under-iterator", "size differs under a live iterator");
                                   for (auto& kv : s1) VF_CHECK(db.is(kv.first) && db.at(kv.first) == kv.second && db.find(kv.first)->second == kv.second, "changed-under-iterator", "element differs under a live iterator");
                               }
                               s.b = vf::tick();
                               a.reset();
                               alive.push_back(s);
                           }
                       },
                       [&]{ writer(0); },
                       [&]{ writer(1); }});
                for (auto& ws : writes) for (auto& w : ws) for (auto& s : alive)
                {
                    VF_CHECK(!(w.ok && w.call > s.a && w.ret < s.b), "write-under-iterator", "a write took effect while an iterator was alive: write [" << w.call << "," << w.ret << "] iterator [" << s.a << "," << s.b << "]");
                }
                vf::count("iterator_lifetimes", alive.size());
            });

    // Readers go on while an iterator lives (in another thread), with and without a writer that waits
    vf::explore("readers-proceed", vf::Opt().r(60).p(30), [](vf::Exec& e)
            {
                DB db;
                for (int k = 0; k < 4; ++k) db.add(k, value(9, k));
                std::atomic<int> readers{0};
                bool with_writer = e.rng.chance(70);
                std::atomic<bool> wrote{false}, held{false};
                e.par({[&]
                       {
                           It it = db.begin();
                           held = true;
                           // until both readers have finished the iterator lives: if they were blocked, this would never end
                           while (readers.load() < 2) std::this_thread::yield();
                           VF_CHECK(it->first == 0, "changed-under-iterator", "first element changed");
                       },
                       [&]{ (void)db.is(1); (void)db.size(); { It f = db.find(2); (void)(f == db.end()); } readers.fetch_add(1); },
                       [&]{ try { (void)db.at(3); } catch (const std::out_of_range&) {} unsigned n = 0; for (It x = db.begin(); x != db.end(); ++x) ++n; readers.fetch_add(1); },
                       [&]{ while (!held) std::this_thread::yield(); if (with_writer) { db.erase(0); wrote = true; } }});
                VF_CHECK(!with_writer || (wrote && !db.is(0)), "writer-lost", "");
            });

    // Writes that take long (their values take long to assign), and iterators that live long
    vf::batches("slow", 2, [](vf::Rng& r)
            {
                SafeDatabase<int, Slow> db;
                using SIt = SafeDatabaseIterator<int, Slow>;
                for (int k = 0; k < 4; ++k) db.add(k, Slow(k));
                int how = (int)r.below(2);
                std::atomic<bool> started{false};
                std::thread w([&]
                        {
                            Slow v(100);
                            v.started = &started;
                            if (how == 0) db.modify(1, std::move(v));
                            else db.add_or_modify(1, std::move(v));
                        });
                while (!started) std::this_thread::yield();
                auto reader = [&](int kind)
                        {
                            bool whole = true;
                            int got = -1;
                            switch (kind)
                            {
                                case 0: { SIt it = db.begin(); for (SIt e = db.end(); it != e; ++it) { whole = whole && it->second.whole(); if (it->first == 1) got = it->second.a; } break; }
                                case 1: { SIt it = db.find(1); whole = it->second.whole(); got = it->second.a; break; }
                                case 2: { SIt it = db.find(1); SIt c(it); SIt m(std::move(it)); whole = c->second.whole() && m->second.whole(); got = c->second.a; break; }
                                default: { Slow c = db.at(1); whole = c.whole(); got = c.a; break; }
                            }
                            VF_CHECK(whole && got == 100, "partial-write", "reader " << kind << " saw an assignment in progress (" << got << ")");
                            vf::count("slow_readers");
                        };
                std::vector<std::thread> ts;
                for (int k = 0; k < 4; ++k) ts.emplace_back(reader, k);
                for (auto& x : ts) x.join();
                w.join();
                std::vector<std::thread> late;
                std::atomic<int> done{0};
                {
                    // a long iteration holds back every write
                    SIt it = db.begin();
                    std::vector<std::thread> ws;
                    ws.emplace_back([&]{ db.add(50, Slow(50)); ++done; });
                    ws.emplace_back([&]{ db.erase(2); ++done; });
                    ws.emplace_back([&]{ Slow v(200); db.modify(1, std::move(v)); ++done; });
                    ws.emplace_back([&]{ Slow v(300); db.add_or_modify(3, std::move(v)); ++done; });
                    vf::sleep_us(1300000);
                    int n = 0, sum = 0;
                    {
                        SIt x(it);
                        for (SIt e(it); ; ++x) { ++n; sum += x->second.a; if (n == 4) break; }
                    }
                    VF_CHECK(done == 0 && n == 4 && sum == 0 + 100 + 2 + 3, "write-under-iterator", done << " writes took effect during an iteration, elements add up to " << sum);
                    for (auto& x : ws) late.push_back(std::move(x));
                }
                VF_CHECK(vf::eventually([&]{ return db.size() == 4 && !db.is(2) && db.is(50) && db.at(1).a == 200 && db.at(3).a == 300; }, 8000), "slow-writer-blocked", "the writers did not go on after the iterators");
                for (auto& x : late) x.join();
            });

    // Move-only values
    vf::batches("move-only", 2, [](vf::Rng& r)
            {
                SafeDatabase<std::string, std::unique_ptr<std::string>> db;
                for (int i = 0; i < 50; ++i)
                {
                    std::string k = "k" + std::to_string(r.below(5));
                    bool has = db.is(k);
                    VF_CHECK(db.add(std::string(k), std::make_unique<std::string>(value(1, i))) != has, "move-only", "add");
                    VF_CHECK(db.modify(k, std::make_unique<std::string>(value(2, i))), "move-only", "modify");
                    VF_CHECK(*db.find(k)->second == value(2, i), "move-only", "find");
                    if (r.chance(30)) VF_CHECK(db.erase(k) && !db.is(k) && !db.erase(k), "move-only", "erase");
                    vf::count("steps");
                }
            });

    vf::batches("failing-copies", 20, failing_copies<vf::Fragile>);
    vf::batches("failing-moves", 20, failing_copies<vf::Brittle>);
    return vf::finish();
}
