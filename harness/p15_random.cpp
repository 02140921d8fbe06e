// P15: random managers. Every value is compared with that of a fresh manager of the same seed; other processes give
// the values of any seed too; histories of concurrent calls are checked for linearizability against {seed, position}.
#include <vf.hpp>
#include <lin.hpp>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>

using namespace eprosima::utils;
using N = RandomNumberType;

template <class M> const char* name();
template <> const char* name<RandomManager>() { return "RandomManager"; }
template <> const char* name<TSafeRandomManager>() { return "TSafeRandomManager"; }

// A manager of its own for each question
template <class M>
std::vector<N> reference(N seed, size_t n)
{
    M m(seed);
    std::vector<N> v;
    for (size_t i = 0; i < n; ++i) v.push_back(m.sequence_rand());
    return v;
}
N number_of(N seed)
{
    RandomManager m(7);
    return m.seeded_rand(seed);
}
N pick_seed(vf::Rng& r)
{
    static const std::vector<N> edge{0u, 1u, 2u, 5489u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 42u};
    return r.chance(40) ? r.pick(edge) : (N)r.next();
}

template <class M>
void sequence(vf::Rng& r)
{
    const char* who = name<M>();
    struct Ref
    {
        N seed;
        std::vector<N> v;
        size_t pos = 0;
        N next()
        {
            if (pos >= v.size()) v = reference<M>(seed, pos * 2 + 64);
            return v[pos++];
        }
    };
    std::vector<std::unique_ptr<M>> ms;
    std::vector<Ref> refs;
    auto make = [&](bool dflt)
            {
                N s = dflt ? 1 : pick_seed(r);
                ms.emplace_back(dflt ? new M() : new M(s));
                refs.push_back({s, {}});
            };
    make(r.chance(30));
    std::map<N, N> asked;
    uint64_t h = 0;
    int n = (int)r.range(20, r.chance(5) ? 3000 : 300);     // beyond the 624 words of an engine now and then
    unsigned mostly = (unsigned)r.below(3);
    for (int i = 0; i < n; ++i)
    {
        if (ms.size() < 3 && r.chance(3)) make(r.chance(30));
        size_t k = r.below(ms.size());
        M& m = *ms[k];
        Ref& ref = refs[k];
        unsigned op = r.chance(50) ? mostly : (unsigned)r.below(8);
        h = vf::mix(h ^ (op * 8 + k));
        vf::count("steps");
        switch (op)
        {
            case 0: case 3:
            {
                N v = op == 0 ? m.sequence_rand() : m.template rand<false>();
                N e = ref.next();
                VF_CHECK(v == e, "sequence", who << " seed " << ref.seed << " value " << ref.pos - 1 << " of the sequence is " << v << " instead of " << e << ", call " << i);
                break;
            }
            case 4:
            {
                N v = m.rand();
                N e = ref.next();
                VF_CHECK(v == e, "sequence", who << " rand(), seed " << ref.seed << " position " << ref.pos - 1 << ": " << v << " instead of " << e);
                break;
            }
            case 1: case 5:
            {
                N s = r.chance(40) && !asked.empty() ? asked.begin()->first : r.chance(20) ? ref.seed : pick_seed(r);
                N v = op == 1 ? m.seeded_rand(s) : m.rand(s);
                auto it = asked.find(s);
                if (it == asked.end()) it = asked.emplace(s, number_of(s)).first;
                VF_CHECK(v == it->second, "seeded", who << " number of seed " << s << " is " << v << ", was " << it->second << " before");
                break;
            }
            case 2: case 6:
                if (op == 2) m.pure_rand();
                else m.template rand<true>();
                break;
            default:
                ref.seed = r.chance(30) ? ref.seed : pick_seed(r);
                ref.pos = 0;
                ref.v.clear();
                m.seed(ref.seed);
                h = vf::mix(h ^ ref.seed);
        }
    }
    vf::seen("sequences", h);
    vf::sample(std::string(who) + ": " + std::to_string(n) + " calls on " + std::to_string(ms.size()) + " managers, first seed " + std::to_string(refs[0].seed));
}

// Values of different seeds, and pure random values, are not tied to each other
void spread(vf::Rng& r)
{
    std::set<N> numbers, firsts;
    const int n = 200;
    N s0 = pick_seed(r);
    for (int i = 0; i < n; ++i)
    {
        numbers.insert(number_of(s0 + i));
        firsts.insert(reference<TSafeRandomManager>(s0 + i, 1)[0]);
        vf::count("steps");
    }
    VF_CHECK(numbers.size() > n - 5, "seeds-collide", "only " << numbers.size() << " different numbers for " << n << " seeds from " << s0);
    VF_CHECK(firsts.size() > n - 5, "seeds-collide", "only " << firsts.size() << " different first values for " << n << " seeds from " << s0);
    std::set<N> seq;
    for (N v : reference<RandomManager>(s0, n)) seq.insert(v);
    VF_CHECK(seq.size() > n - 5, "sequence-repeats", "only " << seq.size() << " different values in a sequence of " << n << ", seed " << s0);
    // two managers with one seed: pure random values differ all the same
    RandomManager a(s0), b(s0);
    TSafeRandomManager c(s0), d(s0);
    std::vector<std::vector<N>> pure(4);
    for (int i = 0; i < 8; ++i)
    {
        pure[0].push_back(a.pure_rand()); pure[1].push_back(b.pure_rand());
        pure[2].push_back(c.pure_rand()); pure[3].push_back(d.pure_rand());
    }
    std::set<std::vector<N>> different(pure.begin(), pure.end());
    VF_CHECK(different.size() == 4, "pure-repeats", "two managers gave the same pure random values, seed " << s0);
    a.seed(s0); b.seed(s0);
    a.seeded_rand(s0); b.seeded_rand(s0);
    VF_CHECK(a.pure_rand() != b.pure_rand() || a.pure_rand() != b.pure_rand(), "pure-repeats", "pure random values follow the seed " << s0);
    vf::seen("sequences", vf::mix(s0 ^ 0x5b));
}

// What a process says about seeds
std::string report(uint64_t seed)
{
    vf::Rng r(seed);
    std::ostringstream s;
    if (r.chance(50)) GlobalRandomManager::get_instance()->pure_rand();
    for (int i = 0; i < 20; ++i)
    {
        N x = pick_seed(r);
        RandomManager m(x);
        TSafeRandomManager t(x);
        for (int j = 0; j < 4; ++j) s << m.sequence_rand() << ' ' << t.sequence_rand() << ' ';
        s << m.seeded_rand(x) << ' ' << GlobalRandomManager::get_instance()->seeded_rand(x) << ' ';
    }
    RandomManager d;
    TSafeRandomManager e;
    s << d.sequence_rand() << ' ' << e.sequence_rand();
    return s.str();
}
void processes(vf::Rng& r)
{
    uint64_t seed = r.next() >> 1;
    char exe[512];
    ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (k <= 0) return;
    exe[k] = 0;
    std::string out;
    FILE* f = popen((std::string("'") + exe + "' child " + std::to_string(seed) + " 2>&1").c_str(), "r");
    char b[256];
    while (f && fgets(b, sizeof b, f)) out += b;
    if (f) pclose(f);
    std::string here = report(seed);
    VF_CHECK(out == here + "\n", "other-process", "another process has other values for the same seeds: " << out.substr(0, 300) << " / " << here.substr(0, 300));
    vf::count("steps", 20);
    vf::count("processes");
}

// Concurrent use
struct Op { int kind; N seed; N result; uint64_t call, ret; };      // 0 next, 1 seed
struct St
{
    N seed; int pos;
    bool operator <(const St& o) const { return std::tie(seed, pos) < std::tie(o.seed, o.pos); }
};
void concurrent(vf::Exec& e)
{
    N s0 = pick_seed(e.rng);
    TSafeRandomManager m(s0);
    unsigned nt = 2 + (unsigned)e.rng.below(2);
    bool reseed = e.rng.chance(50);
    std::vector<std::vector<Op>> ops(nt);
    std::vector<N> seeds{s0, pick_seed(e.rng), pick_seed(e.rng)};
    std::map<N, std::vector<N>> table;
    std::map<N, N> num;
    for (N s : seeds)
    {
        table[s] = reference<TSafeRandomManager>(s, 64);
        num[s] = number_of(s);
    }
    for (auto& v : ops)
    {
        int n = (int)e.rng.range(2, 5);
        for (int i = 0; i < n; ++i)
        {
            Op o{(int)e.rng.below(6), e.rng.pick(seeds), 0, 0, 0};
            o.kind = o.kind < 3 ? 0 : o.kind == 3 ? (reseed ? 1 : 0) : o.kind == 4 ? 2 : 3;
            v.push_back(o);
        }
    }
    std::vector<std::function<void()>> fs;
    for (auto& v : ops)
    {
        fs.push_back([&v, &m]
                {
                    for (auto& o : v)
                    {
                        o.call = vf::tick();
                        if (o.kind == 0) o.result = m.sequence_rand();
                        else if (o.kind == 1) m.seed(o.seed);
                        else if (o.kind == 2) o.result = m.seeded_rand(o.seed);
                        else m.pure_rand();
                        o.ret = vf::tick();
                        vf_sched_point(1);
                    }
                });
    }
    e.par(fs);
    std::vector<Op> all;
    std::vector<vf::LinOp> lin;
    std::ostringstream text;
    std::multiset<N> got;
    for (auto& v : ops)
        for (auto& o : v)
        {
            if (o.kind == 2)
                VF_CHECK(o.result == num[o.seed], "seeded-concurrent", "number of seed " << o.seed << " is " << o.result << " instead of " << num[o.seed]);
            if (o.kind > 1) continue;
            text << "[" << o.call << "-" << o.ret << "] " << (o.kind ? "seed " + std::to_string(o.seed) : "next -> " + std::to_string(o.result)) << "; ";
            lin.push_back({o.call, o.ret, (int)all.size()});
            all.push_back(o);
            if (o.kind == 0) got.insert(o.result);
        }
    if (!reseed)
    {
        std::multiset<N> want(table[s0].begin(), table[s0].begin() + got.size());
        VF_CHECK(got == want, "draws", "the threads together did not get the first " << got.size() << " values of the sequence of " << s0 << ": " << text.str());
    }
    int r = vf::linearizable(lin, St{s0, 0}, [&](St& s, int i)
            {
                const Op& o = all[i];
                if (o.kind == 1)
                {
                    s = St{o.seed, 0};
                    return true;
                }
                return o.result == table[s.seed][s.pos++];
            });
    VF_CHECK(r != 0, "not-linearizable", "seed " << s0 << ": " << text.str());
    vf::count(r > 0 ? "histories" : "histories_undecided");
    vf::count("steps", all.size());
}
// Many draws through the manager of the process
void global(vf::Exec& e)
{
    auto m = GlobalRandomManager::get_instance();
    N s0 = pick_seed(e.rng);
    m->seed(s0);
    const unsigned nt = 3, per = 150;
    std::vector<std::vector<N>> got(nt);
    std::vector<std::function<void()>> fs;
    N ask = pick_seed(e.rng), num = number_of(ask);
    std::atomic<int> wrong{0};
    for (unsigned t = 0; t < nt; ++t)
        fs.push_back([&, t]
                {
                    auto g = GlobalRandomManager::get_instance();
                    for (unsigned i = 0; i < per; ++i)
                    {
                        got[t].push_back(g->rand());
                        if (i % 20 == t && g->rand(ask) != num) ++wrong;
                    }
                });
    e.par(fs);
    std::multiset<N> all;
    for (auto& v : got) all.insert(v.begin(), v.end());
    auto ref = reference<TSafeRandomManager>(s0, nt * per);
    VF_CHECK(all == std::multiset<N>(ref.begin(), ref.end()), "draws", "the threads together did not get the first " << nt * per << " values of the sequence of " << s0);
    std::map<N, size_t> at;
    for (size_t i = 0; i < ref.size(); ++i) at[ref[i]] = i;
    for (auto& v : got)
        for (size_t i = 1; i < v.size(); ++i)
            if (at[v[i]] < at[v[i - 1]] && std::count(ref.begin(), ref.end(), v[i]) == 1 && std::count(ref.begin(), ref.end(), v[i - 1]) == 1)
            {
                vf::viol("draws", "a thread got the values of the sequence out of order, seed " + std::to_string(s0));
                break;
            }
    VF_CHECK(wrong == 0, "seeded-concurrent", wrong << " numbers of seed " << ask << " were not " << num);
    vf::count("steps", nt * per);
}

int main(int argc, char** argv)
{
    if (argc == 3 && !strcmp(argv[1], "child"))
    {
        puts(report(strtoull(argv[2], nullptr, 10)).c_str());
        return 0;
    }
    vf::init(argc, argv);
    vf::batches("sequence", 400, sequence<RandomManager>);
    vf::batches("sequence-tsafe", 400, sequence<TSafeRandomManager>);
    vf::batches("spread", 20, spread);
    vf::batches("processes", 12, processes);
    vf::explore("concurrent", vf::Opt().b(60).r(400).p(200).ru(60), concurrent);
    vf::explore("global", vf::Opt().b(16).r(0).p(12).mi(24).us(800), global);
    return vf::finish();
}
