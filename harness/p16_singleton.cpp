// P16: singletons. Racing first accesses (an index of its own for each execution), racing initializations checked for
// linearizability, and the order of destruction at the end of processes of their own.
#include <vf.hpp>
#include <lin.hpp>
#include <array>
#include <utility>
#include <sys/wait.h>
#include "p16_common.hpp"

using namespace eprosima::utils;

struct Cur
{
    std::atomic<int> built{0}, building{0}, destroyed{0};
    std::atomic<int> boom{0};       // constructions that throw
    unsigned slow = 0;
};
Cur* cur;

struct Boom {};
// Slow to construct; what it holds is not synchronised on purpose
struct Obj
{
    vf::Live<Obj> live;
    int kind = -1;
    std::string text;
    std::unique_ptr<std::string> heap;
    bool ready = false;
    Obj() { make(0); }
    explicit Obj(int k) { make(k); }
    Obj(std::string s, int k) : text(s) { make(k); }
    explicit Obj(std::unique_ptr<int> p) { make(*p); }
    ~Obj()
    {
        ready = false;
        heap.reset();
        if (cur) cur->destroyed.fetch_add(1, std::memory_order_relaxed);
    }
    Obj(const Obj&) = delete;
    void make(int k)
    {
        Cur* c = cur;
        c->building.fetch_add(1, std::memory_order_relaxed);
        vf_sched_point(11);
        if (c->slow) vf::sleep_us(c->slow);
        if (c->boom.load(std::memory_order_relaxed) > 0 && c->boom.fetch_sub(1, std::memory_order_relaxed) > 0) throw Boom();
        kind = k;
        vf_sched_point(12);
        heap.reset(new std::string("value of the object " + std::to_string(k) + " kept on the heap"));
        vf_sched_point(13);
        c->built.fetch_add(1, std::memory_order_relaxed);
        ready = true;
    }
    // -1 when it is not whole
    int use() const
    {
        if (!live.ok() || !ready || !heap || *heap != "value of the object " + std::to_string(kind) + " kept on the heap") return -1;
        return kind;
    }
};

// Tables of functions for many indexes
struct SingletonFns { Obj* (*get)(); std::shared_ptr<Obj> (*shared)(); };
struct SafeFns
{
    bool (*init)(int);
    bool (*init_text)(std::string, int);
    bool (*init_none)();
    bool (*init_move)(std::unique_ptr<int>);
    Obj* (*get)(bool);
    std::shared_ptr<Obj> (*shared)(bool);
    void (*clear)();
};
// Gives the memory back at the end of the execution
template <int I> struct Peek : SafeInitializableSingleton<Obj, I> { static void clear() { Peek::the_ptr_.reset(); } };
template <int I> SingletonFns fns()
{
    using T = Singleton<Obj, I>;
    return {[] { return T::get_instance(); }, [] { return T::get_shared_instance(); }};
}
template <int I> SafeFns safe_fns()
{
    using T = SafeInitializableSingleton<Obj, I>;
    return {[](int k) { return T::template initialize<int>(k); }, [](std::string s, int k) { return T::initialize(s, k); }, [] { return T::initialize(); },
            [](std::unique_ptr<int> p) { return T::initialize(std::move(p)); },
            [](bool c) { return c ? T::get_instance() : T::get_instance(false); }, [](bool c) { return c ? T::get_shared_instance() : T::get_shared_instance(false); },
            [] { Peek<I>::clear(); }};
}
constexpr int COUNT = 640;
template <int... I> std::array<SingletonFns, sizeof...(I)> all(std::integer_sequence<int, I...>) { return {fns<I - 20>()...}; }
constexpr int SAFE = 24;       // these can be emptied again, so that few are enough
template <int... I> std::array<SafeFns, sizeof...(I)> all_safe(std::integer_sequence<int, I...>) { return {safe_fns<I - 5>()...}; }

void first_access(vf::Exec& e)
{
    static const auto table = all(std::make_integer_sequence<int, COUNT>());
    static int next = 0;
    if (next + 2 > COUNT)
    {
        vf::count("indexes_exhausted");
        return;
    }
    const SingletonFns f = table[next++];
    const SingletonFns g = table[next];
    static std::map<const void*, int> earlier;
    Cur c;
    c.slow = e.rng.chance(50) ? (unsigned)e.rng.below(400) : 0;
    cur = &c;
    unsigned nt = 2 + (unsigned)e.rng.below(3);
    struct Seen { Obj* p = nullptr; std::shared_ptr<Obj> s; int u1 = -2, u2 = -2; };
    std::vector<Seen> seen(nt);
    std::vector<std::function<void()>> fs;
    unsigned mix = (unsigned)e.rng.below(16);
    bool two = e.rng.chance(30);
    Obj* second = nullptr;
    for (unsigned t = 0; t < nt; ++t)
        fs.push_back([&, t]
                {
                    if (two && t == 0) second = g.get();
                    if (mix >> t & 1)
                    {
                        seen[t].s = f.shared();
                        seen[t].u1 = seen[t].s ? seen[t].s->use() : -3;
                    }
                    seen[t].p = f.get();
                    seen[t].u2 = seen[t].p ? seen[t].p->use() : -3;
                });
    e.par(fs);
    Obj* p = f.get();
    for (auto& s : seen)
    {
        VF_CHECK(s.p == p, "two-instances", "threads got different instances on the first accesses");
        VF_CHECK(!s.s || s.s.get() == p, "two-instances", "shared instance different from the instance");
        VF_CHECK(s.u2 == 0 && (s.u1 == 0 || s.u1 == -2), "half-built", "a thread got an object that was not whole (" << s.u1 << ", " << s.u2 << ")");
    }
    if (two)
    {
        VF_CHECK(second && second != p, "indexes-shared", "two indexes give one instance");
        ++next;
    }
    VF_CHECK(c.built == (two ? 2 : 1) && c.building == (two ? 2 : 1), "built-twice", "object built " << c.building << " times for " << (two ? 2 : 1) << " singletons");
    VF_CHECK(c.destroyed == 0, "destroyed", "an object was destroyed");
    VF_CHECK(!earlier.count(p), "indexes-shared", "two indexes give one instance");
    earlier[p] = 1;
    long uses = f.shared().use_count();
    VF_CHECK(uses >= 1 + 1, "not-held", "shared instance held by nobody but the caller");
    vf::count("steps", nt);
    cur = nullptr;
}

struct Op
{
    int kind;                 // 0 initialize(k), 1 initialize(text, k), 2 initialize(), 3 shared(create), 4 get(create), 5 initialize(unique_ptr)
    int k;
    bool create;
    int result = -9;          // 1 / 0, -8 threw; kind of the object, -1 broken, -3 none
    const Obj* p = nullptr;
    uint64_t call = 0, ret = 0;
};
std::string show(const Op& o)
{
    std::ostringstream s;
    s << "[" << o.call << "-" << o.ret << "] ";
    if (o.kind < 3 || o.kind == 5) s << "initialize(" << (o.kind == 2 ? 0 : o.k) << ") -> " << o.result;
    else s << (o.kind == 3 ? "shared(" : "get(") << o.create << ") -> " << o.result;
    return s.str() + "; ";
}
void race_init(vf::Exec& e)
{
    static const auto table = all_safe(std::make_integer_sequence<int, SAFE>());
    static unsigned turn = 0;
    const SafeFns& f = table[turn++ % SAFE];
    Cur c;
    c.slow = e.rng.chance(50) ? (unsigned)e.rng.below(300) : 0;
    c.boom = e.rng.chance(25) ? 1 : 0;
    cur = &c;
    long live0 = vf::Live<Obj>::n();
    {
        // an exception in the noexcept accesses would end the process, by contract
        bool boom = c.boom > 0;
        unsigned nt = 2 + (unsigned)e.rng.below(2);
        std::vector<std::vector<Op>> ops(nt);
        std::vector<std::vector<std::shared_ptr<Obj>>> held(nt);
        int next = 1;
        for (auto& v : ops)
            for (int i = 0, n = (int)e.rng.range(1, 4); i < n; ++i)
            {
                Op o;
                o.kind = (int)e.rng.below(6);
                o.k = next++;
                o.create = !boom && e.rng.chance(50);
                v.push_back(o);
            }
        std::vector<std::function<void()>> fs;
        for (unsigned t = 0; t < nt; ++t)
            fs.push_back([&, t]
                    {
                        for (auto& o : ops[t])
                        {
                            o.call = vf::tick();
                            try
                            {
                                if (o.kind == 0) o.result = f.init(o.k);
                                else if (o.kind == 1) o.result = f.init_text("text of " + std::to_string(o.k), o.k);
                                else if (o.kind == 2) o.result = f.init_none();
                                else if (o.kind == 5) o.result = f.init_move(std::unique_ptr<int>(new int(o.k)));
                                else
                                {
                                    if (o.kind == 3)
                                    {
                                        held[t].push_back(f.shared(o.create));
                                        o.p = held[t].back().get();
                                    }
                                    else o.p = f.get(o.create);
                                    o.result = o.p ? o.p->use() : -3;
                                }
                            }
                            catch (const Boom&)
                            {
                                o.result = -8;
                            }
                            o.ret = vf::tick();
                            vf_sched_point(5);
                        }
                    });
        e.par(fs);
        std::vector<Op> all;
        std::vector<vf::LinOp> lin;
        std::ostringstream text;
        std::set<const Obj*> addresses;
        int wins = 0;
        for (auto& v : ops)
            for (auto& o : v)
            {
                lin.push_back({o.call, o.ret, (int)all.size()});
                all.push_back(o);
                text << show(o);
                if (o.p) addresses.insert(o.p);
                if ((o.kind < 3 || o.kind == 5) && o.result == 1) ++wins;
                VF_CHECK(o.result != -1 || o.p == nullptr, "half-built", "a thread got an object that was not whole: " << show(o));
            }
        VF_CHECK(addresses.size() <= 1, "two-instances", "different instances: " << text.str());
        VF_CHECK(wins <= 1, "two-initializations", "more than one initialization took effect: " << text.str());
        VF_CHECK(c.built <= 1, "built-twice", c.built << " objects built: " << text.str());
        // state: kind of the object, -3 none; throws left
        using St = std::pair<int, int>;
        int r = vf::linearizable(lin, St{-3, boom ? 1 : 0}, [&](St& s, int i)
                {
                    const Op& o = all[i];
                    if (o.kind < 3 || o.kind == 5)
                    {
                        if (s.first != -3) return o.result == 0;
                        if (s.second > 0)
                        {
                            --s.second;
                            return o.result == -8;
                        }
                        s.first = o.kind == 2 ? 0 : o.k;
                        return o.result == 1;
                    }
                    if (s.first == -3 && o.create) s.first = 0;
                    return o.result == s.first;
                });
        VF_CHECK(r != 0, "not-linearizable", text.str());
        vf::count(r > 0 ? "histories" : "histories_undecided");
        vf::count("steps", all.size());
        // the shared instance survives the singleton
        f.clear();
        for (auto& h : held)
            for (auto& p : h)
                VF_CHECK(!p || p->use() >= 0, "not-held", "the instance ended although it is still held");
    }
    VF_CHECK(vf::Live<Obj>::n() == live0, "leak", vf::Live<Obj>::n() - live0 << " objects left");
    cur = nullptr;
}

template <int I> struct Open : InitializableSingleton<Obj, I> { static void clear() { Open::the_ptr_.reset(); } };
void initializable(vf::Rng& r)
{
    Cur c;
    cur = &c;
    long live0 = vf::Live<Obj>::n();
    {
        using A = InitializableSingleton<Obj, 1>;
        using B = InitializableSingleton<Obj, 2>;
        std::vector<std::pair<std::shared_ptr<Obj>, int>> held;
        int ia = -3, ib = -3, built = 0;
        uint64_t h = 0;
        for (int i = 0; i < 30; ++i)
        {
            int k = (int)r.range(1, 1000);
            unsigned op = (unsigned)r.below(8);
            h = vf::mix(h ^ op);
            bool ok = true;
            switch (op)
            {
                case 0: ok = A::initialize(k); ia = k; ++built; break;
                case 1: ok = B::initialize(std::string("text"), k); ib = k; ++built; break;
                case 2: ok = A::initialize(std::unique_ptr<int>(new int(k))); ia = k; ++built; break;
                case 3: ok = A::initialize(); ia = 0; ++built; break;
                case 4: held.push_back({A::get_shared_instance(), ia}); break;
                case 5: held.push_back({B::get_shared_instance(), ib}); break;
                case 6: if (!held.empty()) held.erase(held.begin() + r.below(held.size())); break;
                default: ;
            }
            VF_CHECK(ok, "initialize", "initialize returned false");
            VF_CHECK((A::get_instance() ? A::get_instance()->use() : -3) == ia && (B::get_instance() ? B::get_instance()->use() : -3) == ib, "instance",
                    "the instance is not the one initialized last");
            VF_CHECK(!A::get_instance() || A::get_instance() != B::get_instance(), "indexes-shared", "two indexes give one instance");
            VF_CHECK(A::get_shared_instance().get() == A::get_instance(), "instance", "shared instance and instance differ");
            VF_CHECK(c.built == built, "built-twice", c.built << " objects built by " << built << " initializations");
            std::set<Obj*> alive;
            if (A::get_instance()) alive.insert(A::get_instance());
            if (B::get_instance()) alive.insert(B::get_instance());
            for (auto& p : held)
            {
                if (p.first) alive.insert(p.first.get());
                VF_CHECK((p.first ? p.first->use() : -3) == p.second, "not-held", "an instance that is held ended or changed");
            }
            VF_CHECK(vf::Live<Obj>::n() - live0 == (long)alive.size(), "leak", vf::Live<Obj>::n() - live0 << " objects alive instead of " << alive.size());
            vf::count("steps");
        }
        vf::seen("sequences", h);
        held.clear();
        Open<1>::clear();
        Open<2>::clear();
    }
    VF_CHECK(vf::Live<Obj>::n() == live0, "leak", "objects left");
    cur = nullptr;
}
void two_files(vf::Rng& r)
{
    if (r.chance(50))
    {
        VF_CHECK(other::plain() == (Singleton<Shared, 3>::get_instance()), "two-files", "the instance is another one in another file");
    }
    InitializableSingleton<Shared, 3>::initialize((int)r.range(1, 50));
    VF_CHECK(other::init() == (InitializableSingleton<Shared, 3>::get_instance()) && other::init() != (InitializableSingleton<Shared, 0>::get_instance()), "two-files",
            "the instance is another one in another file");
    auto p = other::safe_shared(false);
    SafeInitializableSingleton<Shared, 3>::initialize(9);
    VF_CHECK(other::safe() && other::safe() == (SafeInitializableSingleton<Shared, 3>::get_instance()) && other::safe()->v == 9, "two-files", "the instance is another one in another file");
    const void* all[] = {other::plain(), other::init(), other::safe(), Singleton<Shared, 0>::get_instance(), Singleton<Shared, -1>::get_instance(), Singleton<Shared, 3 + (1 << 16)>::get_instance()};
    VF_CHECK(std::set<const void*>(all, all + 6).size() == 6, "indexes-shared", "singletons of different kinds or indexes share an instance");
    vf::count("steps");
}

// ---- order of destruction, in a process of its own
void say(const char* s)
{
    if (write(1, s, strlen(s)) < 0) {}
}
struct Late
{
    bool ok = true;
    std::string text = "text that lives on the heap of the process";
    Late() { say("+"); }
    explicit Late(int) { say("+"); }
    ~Late()
    {
        ok = false;
        say("-");
    }
    void use() const { say(ok && text.size() > 10 ? "u" : "X"); }
};
struct Keeper
{
    std::shared_ptr<Late> p;
    Keeper() = default;
    explicit Keeper(std::shared_ptr<Late> q) : p(q) {}
    ~Keeper()
    {
        if (p) p->use();
        say("k");
    }
};
Keeper global_keeper;       // destroyed after every function local static made later
struct Dependent : Keeper
{
    Dependent() : Keeper(Singleton<Late, 8>::get_shared_instance()) {}
};
int child(int mode)
{
    switch (mode)
    {
        case 0: Singleton<Late, 1>::get_instance()->use(); break;                                                    // +u-k
        case 1: global_keeper.p = Singleton<Late, 2>::get_shared_instance(); break;                                  // +uk-
        case 2: SafeInitializableSingleton<Late, 2>::initialize(1); global_keeper.p = SafeInitializableSingleton<Late, 2>::get_shared_instance(); break;
        case 3: InitializableSingleton<Late, 2>::initialize(); global_keeper.p = InitializableSingleton<Late, 2>::get_shared_instance(); break;
        case 4:
            // the holder, itself a singleton, is made after what it holds: destroyed first
            Singleton<Late, 8>::get_instance()->use(); Singleton<Dependent, 8>::get_instance(); break;               // +uuk-k
        case 5: Singleton<Dependent, 9>::get_instance(); break;
        case 6:
        {
            auto a = Singleton<Late, 3>::get_shared_instance();
            auto b = a;
            a.reset();
            b.reset();
            Singleton<Late, 3>::get_instance()->use();
            break;
        }
        case 7: std::thread([] { global_keeper.p = Singleton<Late, 4>::get_shared_instance(); }).join(); break;
        default: ;
    }
    return 0;
}
void destruction(vf::Rng& r)
{
    // the global keeper and the static members of the singletons are of one file, so their order is fixed only in part:
    // what is held is destroyed last of all, whatever the order
    const std::vector<std::set<std::string>> want{{"+u-k"}, {"+uk-"}, {"+uk-"}, {"+uk-"}, {"+uuk-k"}, {"+uk-k"}, {"+u-k"}, {"+uk-"}};
    char exe[512];
    ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (k <= 0) return;
    exe[k] = 0;
    for (size_t mode = 0; mode < want.size(); ++mode)
    {
        std::string out;
        FILE* f = popen((std::string("'") + exe + "' child " + std::to_string(mode) + " 2>&1").c_str(), "r");
        char b[256];
        while (f && fgets(b, sizeof b, f)) out += b;
        int rc = f ? pclose(f) : -1;
        VF_CHECK(want[mode].count(out) && WIFEXITED(rc) && WEXITSTATUS(rc) == 0, "end-of-process",
                "mode " << mode << ": '" << out << "', exit " << rc << " instead of '" << *want[mode].begin() << "' (+ made, u used, k holder ends, - destroyed, X used after its end)");
        vf::count("steps");
        vf::count("processes");
    }
    (void)r;
}

int main(int argc, char** argv)
{
    if (argc == 3 && !strcmp(argv[1], "child")) return child(atoi(argv[2]));
    vf::init(argc, argv);
    vf::batches("initializable", 400, initializable);
    vf::batches("two-files", 4, two_files);
    vf::batches("destruction", 4, destruction);
    vf::explore("first-access", vf::Opt().b(40).r(300).p(120), first_access);
    vf::explore("initialization", vf::Opt().b(60).r(400).p(160), race_init);
    vf::finish();
    _exit(0);
}
