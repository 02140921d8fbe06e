// P33: objects joined with a mutex, of several types and mutexes, locked in all ways by several threads.
#include <vf.hpp>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <vector>
#include <cpp_utils/types/Atomicable.hpp>

using namespace eprosima::utils;

// Two numbers that are equal whenever nobody is changing them
struct Pair
{
    Pair() = default;
    Pair(int x) : a(x), b(x) {}
    Pair(int x, const std::string& n) : a(x), b(x), name(n) {}
    void add()
    {
        int t = a;
        vf_sched_point(0);
        a = t + 1;
        vf_sched_point(1);
        b = b + 1;
    }
    bool whole() const
    {
        int t = a;
        vf_sched_point(2);
        return t == b;
    }
    int a = 0, b = 0;
    std::string name;
};
struct Holders
{
    std::atomic<int> exclusive{0}, shared{0};
    std::atomic<bool> bad{false};
    struct X { Holders& h; X(Holders& q) : h(q) { if (h.exclusive++ || h.shared) h.bad = true; } ~X() { --h.exclusive; } };
    struct R { Holders& h; R(Holders& q) : h(q) { ++h.shared; if (h.exclusive) h.bad = true; } ~R() { --h.shared; } };
};

template <class A> void exclusive_step(A& o, Holders& h, vf::Rng& r, int& changes)
{
    switch (r.below(4))
    {
        case 0: { std::unique_lock<A> l(o); Holders::X x(h); o.add(); ++changes; break; }
        case 1: { std::lock_guard<A> l(o); Holders::X x(h); o.add(); ++changes; break; }
        case 2: { if (o.try_lock()) { { Holders::X x(h); o.add(); ++changes; } o.unlock(); } else vf::count("try_failed"); break; }
        default: { std::unique_lock<A> l(o, std::defer_lock); l.lock(); { Holders::X x(h); o.add(); ++changes; } l.unlock(); l.lock(); { Holders::X x(h); VF_CHECK(o.whole(), "partial", "a partial change was seen under the lock"); } break; }
    }
    vf::count("steps");
}
template <class A> void verify(A& o, Holders& h, int want, const char* what)
{
    std::unique_lock<A> l(o);
    VF_CHECK(o.a == want && o.b == want, "lost-change", what << ": " << o.a << " and " << o.b << " after " << want << " changes");
    VF_CHECK(!h.bad, "not-exclusive", what << ": two threads held the lock");
    VF_CHECK(h.exclusive == 0 && h.shared == 0, "not-exclusive", what);
}

template <class A> void exclusive(vf::Exec& e, const char* what)
{
    A o;
    Holders h;
    uint64_t seed = e.rng.next();
    int changes[3] = {0, 0, 0};
    std::vector<std::function<void()>> fs;
    for (int k = 0; k < 3; ++k) fs.push_back([&, k]{ vf::Rng r(seed + k); for (int i = 0; i < 3; ++i) exclusive_step(o, h, r, changes[k]); });
    e.par(std::move(fs));
    verify(o, h, changes[0] + changes[1] + changes[2], what);
}
template <class A> void shared(vf::Exec& e, const char* what)
{
    A o(5, "name");
    Holders h;
    uint64_t seed = e.rng.next();
    int changes[4] = {0, 0, 0, 0};
    std::vector<std::function<void()>> fs;
    for (int k = 0; k < 4; ++k)
        fs.push_back([&, k]{
                    vf::Rng r(seed + k);
                    for (int i = 0; i < 3; ++i)
                    {
                        if (k == 0 || r.chance(25)) { exclusive_step(o, h, r, changes[k]); continue; }
                        switch (r.below(3))
                        {
                            case 0: { std::shared_lock<A> l(o); Holders::R x(h); VF_CHECK(o.whole(), "partial", "a partial change was seen under the shared lock"); break; }
                            case 1: { if (o.try_lock_shared()) { { Holders::R x(h); VF_CHECK(o.whole() && o.name == "name", "partial", "under the shared lock"); } o.unlock_shared(); } break; }
                            default: { std::shared_lock<A> l(o, std::chrono::milliseconds(500)); if (l) { Holders::R x(h); VF_CHECK(o.whole(), "partial", "under the timed shared lock"); } break; }
                        }
                        vf::count("steps");
                    }
                });
    e.par(std::move(fs));
    verify(o, h, 5 + changes[0] + changes[1] + changes[2] + changes[3], what);
}
// Shared holders do not exclude each other, and exclude the exclusive ones
void together(vf::Exec& e)
{
    SharedAtomicable<Pair> o(1);
    std::atomic<int> in{0};
    std::atomic<bool> met{false}, wrong{false};
    auto reader = [&]{
                std::shared_lock<SharedAtomicable<Pair>> l(o);
                ++in;
                for (int i = 0; i < 4000 && in < 2; ++i) vf::sleep_us(500);
                if (in >= 2) met = true;
                if (o.try_lock()) { wrong = true; o.unlock(); }
            };
    e.par({reader, reader});
    VF_CHECK(met, "slow-shared-excludes", "two threads could not hold the lock shared at once");
    VF_CHECK(!wrong, "not-exclusive", "locked while shared");
    vf::count("steps");
}

// Takes a reference, and what can only be moved
struct Keeper
{
    int& ref;
    std::unique_ptr<int> own;
    Keeper(int& r, std::unique_ptr<int> p) : ref(r), own(std::move(p)) {}
};

// Used as the type itself
void as_type(vf::Rng& r)
{
    for (int i = 0; i < 20; ++i)
    {
        std::string s = r.bytes(r.below(40));
        int n = static_cast<int>(r.below(1000));
        Atomicable<std::string> a(s.data(), s.size()), d(std::string(n % 50, 'x').c_str());
        VF_CHECK(a == s && d == std::string(n % 50, 'x'), "value", "a string " << vf::show(a) << " instead of " << vf::show(s));
        a += "y";
        const std::string& ref = a;
        VF_CHECK(ref == s + "y" && a.size() == s.size() + 1, "value", "a changed string " << vf::show(a));
        Atomicable<std::vector<int>> v{1, 2, n};
        VF_CHECK(v.size() == 3 && v[2] == n, "value", "a vector");
        Atomicable<std::vector<int>> w(n % 20, 5);
        VF_CHECK(w.size() == size_t(n % 20) && std::count(w.begin(), w.end(), 5) == n % 20, "value", "a vector of " << n % 20 << " equal numbers has " << w.size());
        int kept = n;
        Atomicable<Keeper> k(kept, std::make_unique<int>(n));
        ++kept;
        VF_CHECK(&k.ref == &kept && k.ref == n + 1 && k.own && *k.own == n, "value", "what a constructor was given was not passed on as it is");
        v.push_back(7);
        VF_CHECK(v.size() == 4 && v.back() == 7, "value", "a vector");
        SharedAtomicable<std::map<int, std::string>> m;
        { std::unique_lock<SharedAtomicable<std::map<int, std::string>>> l(m); m[n] = s; }
        { std::shared_lock<SharedAtomicable<std::map<int, std::string>>> l(m); VF_CHECK(m.size() == 1 && m.at(n) == s, "value", "a map"); }
        Atomicable<Pair, std::recursive_mutex> p(n, s);
        std::unique_lock<Atomicable<Pair, std::recursive_mutex>> l1(p), l2(p);
        VF_CHECK(p.a == n && p.b == n && p.name == s && p.whole(), "value", "a pair");
        Atomicable<Pair, std::timed_mutex> t(n);
        VF_CHECK(t.try_lock_for(std::chrono::milliseconds(1)) && t.a == n, "value", "a pair with a timed mutex");
        VF_CHECK(!t.try_lock(), "not-exclusive", "locked twice");
        t.unlock();
        VF_CHECK((!std::is_copy_constructible<Atomicable<Pair>>::value && !std::is_copy_assignable<Atomicable<Pair>>::value), "copied", "an object can be copied with its mutex");
        vf::count("steps", 8);
        vf::seen("sequences", vf::hash_str(s) + n);
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("as_type", 160, as_type);
    vf::Opt o = vf::Opt().b(3).r(20).p(10).mi(30).us(100);
    vf::explore("mutex", o, [](vf::Exec& e){ exclusive<Atomicable<Pair>>(e, "std::mutex"); });
    vf::explore("recursive", o, [](vf::Exec& e){ exclusive<Atomicable<Pair, std::recursive_mutex>>(e, "std::recursive_mutex"); });
    vf::explore("shared_exclusive", o, [](vf::Exec& e){ exclusive<SharedAtomicable<Pair>>(e, "std::shared_timed_mutex"); });
    vf::explore("shared", o, [](vf::Exec& e){ shared<SharedAtomicable<Pair>>(e, "std::shared_timed_mutex"); });
    vf::explore("together", vf::Opt().b(1).r(5).p(2).mi(10).us(50), together);
    return vf::finish();
}
