// P24: helpers for containers, trees and casts against naive references.
#include <vf.hpp>
#include <list>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using S = std::string;
using vf::show;

struct Item
{
    vf::Live<Item> live;
    int v;
    explicit Item(int v) : v(v) {}
    virtual ~Item() {}
    virtual int kind() const { return 0; }
    bool operator ==(const Item& o) const { return live.ok() && o.live.ok() && v == o.v; }
    bool operator <(const Item& o) const { return v < o.v; }
};
struct Child : Item
{
    S text;
    explicit Child(int v) : Item(v), text(40, (char)('a' + (v & 7))) {}
    int kind() const override { return 1; }
};
struct Left : virtual Item { Left() : Item(1) {} long pad = 5; };
struct Right { virtual ~Right() {} long more = 7; };
struct Both : Left, Right { Both() : Item(3) {} };
struct Final final : Item { Final() : Item(9) {} };
std::ostream& operator <<(std::ostream& os, const Item& i) { return os << "I" << i.v; }

//////////////////////////// sets of pointers
template <class T> S text(const std::set<std::shared_ptr<T>>& s)
{
    S r = "{";
    for (auto& p : s) { std::ostringstream o; if (p) o << *p; else o << "null"; r += o.str() + " "; }
    return r + "}";
}
template <class T> bool naive(const std::set<std::shared_ptr<T>>& s, const std::shared_ptr<T>& e)
{
    for (auto& p : s) if (e ? p && *p == *e : !p) return true;
    return false;
}
template <class T, class Make> void sets(vf::Rng& r, Make make)
{
    for (int i = 0; i < 1500; ++i)
    {
        const int range = r.chance(50) ? 2 : 4;
        std::vector<std::shared_ptr<T>> pool;
        for (int k = 0; k < 6; ++k) pool.push_back(r.chance(10) ? nullptr : make((int)r.below(range)));
        auto some = [&]
                {
                    std::set<std::shared_ptr<T>> s;
                    for (size_t k = r.below(5); k--;) s.insert(r.chance(60) ? r.pick(pool) : r.chance(15) ? nullptr : make((int)r.below(range)));
                    return s;
                };
        auto a = some(), b = r.chance(15) ? a : some();
        std::shared_ptr<T> e = r.chance(60) ? r.pick(pool) : make((int)r.below(range));
        bool got = set_of_ptr_contains(a, e), want = naive(a, e);
        VF_CHECK(got == want, "contains", text<T>(a) << " contains " << text<T>({e}) << ": " << got);
        want = a.size() == b.size();
        for (auto& x : a) want = want && naive(b, x);
        for (auto& x : b) want = want && naive(a, x);
        got = are_set_of_ptr_equal(a, b);
        bool back = are_set_of_ptr_equal(b, a);
        VF_CHECK(got == back, "symmetric", text<T>(a) << " and " << text<T>(b) << " equal: " << got << ", the other way round: " << back);
        VF_CHECK(got == want, "sets-equal", text<T>(a) << " and " << text<T>(b) << " equal: " << got);
        vf::count(want ? "equal_sets" : "different_sets");
        vf::seen("sequences", vf::hash_str(text<T>(a) + text<T>(b) + text<T>({e})));
        vf::count("steps", 3);
    }
}

// Larger sets
void large_sets(vf::Rng& r)
{
    const size_t n = r.pick(std::vector<size_t>{17, 64, 129, 257, 700});
    std::set<std::shared_ptr<int>> a, b;
    std::vector<int> v;
    for (size_t i = 0; i < n; ++i) v.push_back((int)(i * 7));
    for (int x : v) a.insert(std::make_shared<int>(x));
    for (size_t i = n; i--;) b.insert(std::make_shared<int>(v[i]));
    VF_CHECK(are_set_of_ptr_equal(a, b) && are_set_of_ptr_equal(b, a), "sets-equal", "two sets of the same " << n << " numbers differ");
    for (int x : v) VF_CHECK(set_of_ptr_contains(a, std::make_shared<int>(x)) && !set_of_ptr_contains(a, std::make_shared<int>(x + 1)), "contains", x << " or " << x + 1 << " in a set of " << n);
    // one of them differs: another number, or one that is there already
    auto it = b.begin();
    std::advance(it, (long)r.below(n));
    int old = **it;
    b.erase(it);
    b.insert(std::make_shared<int>(r.chance(50) ? old + 1 : old == v[0] ? v[1] : v[0]));
    VF_CHECK(!are_set_of_ptr_equal(a, b) && !are_set_of_ptr_equal(b, a), "sets-equal", "two sets of " << n << " numbers that differ in one are equal");
    std::ostringstream o, w;
    container_to_stream<int>(o, v, ", ");
    w << "{";
    for (size_t i = 0; i < n; ++i) w << (i ? ", " : "") << v[i];
    w << "}";
    VF_CHECK(o.str() == w.str(), "print", "vector of " << n << " numbers printed as " << show(o.str()));
    std::map<int, S> m;
    for (int x : v) m[x] = "value";
    VF_CHECK(get_keys(m) == std::set<int>(v.begin(), v.end()), "keys", "keys of a map of " << n << " elements");
    vf::count("steps", n);
}

//////////////////////////// printing, keys, raw copies, conversion
S item(vf::Rng& r) { return r.chance(20) ? S() : r.chance(20) ? r.from(";,{}", 1 + r.below(3)) : r.from("abc", 1 + r.below(4)); }
template <class C, class F> S joined(const C& c, const S& sep, F f)
{
    S s = "{";
    bool first = true;
    for (auto&& x : c)
    {
        if (!first) s += sep;
        first = false;
        std::ostringstream o;
        o << f(x);
        s += o.str();
    }
    return s + "}";
}
void printing(vf::Rng& r)
{
    auto self = [](const auto& x) { return x; };
    auto star = [](const auto& x) { return *x; };
    for (int i = 0; i < 600; ++i)
    {
        size_t n = r.chance(30) ? r.below(3) : r.below(20);
        S sep = r.chance(30) ? S(";") : r.chance(20) ? S() : r.from(",; |-", 1 + r.below(3));
        const bool def = r.chance(25);
        if (def) sep = ";";
        auto print = [&](auto f) { std::ostringstream o; o << "<"; std::ostream& back = f(o); VF_CHECK(&back == &o, "print", "another stream was returned"); o << ">"; S t = o.str(); return t.substr(1, t.size() - 2); };
        auto same = [&](const S& got, const S& want, const char* what) { VF_CHECK(got == want, "print", what << " is printed as " << show(got) << " instead of " << show(want)); vf::count("steps"); };
        // numbers
        std::vector<int> vi;
        for (size_t k = 0; k < n; ++k) vi.push_back((int)r.range(-50, 50));
        same(print([&](std::ostream& o) -> std::ostream& { return def ? container_to_stream<int>(o, vi) : container_to_stream<int>(o, vi, sep); }), joined(vi, sep, self), "vector of numbers");
        std::set<int> si(vi.begin(), vi.end());
        same(print([&](std::ostream& o) -> std::ostream& { return def ? container_to_stream<int>(o, si) : container_to_stream<int>(o, si, sep); }), joined(si, sep, self), "set of numbers");
        // texts
        std::vector<S> vs;
        for (size_t k = 0; k < n; ++k) vs.push_back(item(r));
        same(print([&](std::ostream& o) -> std::ostream& { return container_to_stream(o, vs, sep); }), joined(vs, sep, self), "vector of texts");
        std::set<S> ss(vs.begin(), vs.end());
        same(print([&](std::ostream& o) -> std::ostream& { return container_to_stream(o, ss, sep); }), joined(ss, sep, self), "set of texts");
        std::vector<bool> vb;
        for (int x : vi) vb.push_back(x > 0);
        same(print([&](std::ostream& o) -> std::ostream& { return container_to_stream<bool>(o, vb, sep); }), joined(vb, sep, self), "vector of booleans");
        // pointers, by what they point to
        std::vector<std::shared_ptr<Item>> vp;
        for (int x : vi) vp.push_back(r.chance(50) ? std::make_shared<Item>(x) : std::make_shared<Child>(x));
        same(print([&](std::ostream& o) -> std::ostream& { return container_to_stream<std::shared_ptr<Item>, true>(o, vp, sep); }), joined(vi, sep, [](int x) { return "I" + std::to_string(x); }), "vector of pointers");
        std::vector<S*> raw;
        for (auto& x : vs) raw.push_back(&x);
        same(print([&](std::ostream& o) -> std::ostream& { return container_to_stream<S*, true>(o, raw, sep); }), joined(vs, sep, self), "vector of raw pointers");
        std::set<S*> sraw(raw.begin(), raw.end());
        same(print([&](std::ostream& o) -> std::ostream& { return container_to_stream<S*, true>(o, sraw, sep); }), joined(sraw, sep, star), "set of raw pointers");
        // one element
        S one = item(r);
        same(print([&](std::ostream& o) -> std::ostream& { return element_to_stream(o, one); }), one, "one text");
        same(print([&](std::ostream& o) -> std::ostream& { return element_to_stream<S*, true>(o, &one); }), one, "one pointer");
        VF_CHECK(generic_to_string(one) == one && generic_to_string(n) == std::to_string(n) && generic_to_string(Item(4)) == "I4", "print", "generic_to_string");
        // keys
        std::map<S, int> m;
        std::unordered_map<S, std::unique_ptr<int>> um;
        std::map<int, S, std::greater<int>> gm;
        for (size_t k = 0; k < n; ++k) { m[vs[k]] = vi[k]; um[vs[k]] = nullptr; }
        VF_CHECK(get_keys(m) == ss && get_keys(um) == ss, "keys", "keys of a map with " << ss.size() << " elements: " << get_keys(m).size() << ", " << get_keys(um).size());
        std::map<int, S> mi;
        for (int x : vi) mi[x] = "";
        VF_CHECK(get_keys(mi) == si, "keys", "keys of a map of numbers");
        // raw memory
        {
            size_t sz = r.below(2000);
            S mem = r.bytes(sz + 1);
            char* p = (char*)copy_to_void_ptr(mem.data(), sz);
            VF_CHECK(sz == 0 || (p && p != mem.data() && S(p, sz) == mem.substr(0, sz)), "raw-copy", "copy of " << sz << " bytes differs");
            free(p);
            struct Pod { char a; double b; int c[5]; } pod{'x', (double)n, {1, 2, 3, 4, (int)sz}};
            Pod* q = (Pod*)copy_to_void_ptr(&pod);
            VF_CHECK(q && q != &pod && q->a == 'x' && q->b == (double)n && q->c[0] == 1 && q->c[4] == (int)sz, "raw-copy", "copy of a structure differs");
            free(q);
        }
        // conversion
        {
            long live = vf::Live<Item>::n();
            std::set<Child> c;
            for (int x : vi) c.insert(Child(x));
            auto sh = convert_set_to_shared<Item, Child>(c);
            std::vector<int> got, want;
            for (auto& p : sh)
            {
                VF_CHECK(p && p.use_count() == 1 && p->kind() == 1 && static_cast<const Child&>(*p).text == Child(p->v).text, "convert", "a converted element is null, shared or sliced");
                got.push_back(p->v);
                for (auto& x : c) VF_CHECK(&x != p.get(), "convert", "a converted element is not a copy");
            }
            for (auto& x : c) want.push_back(x.v);
            std::sort(got.begin(), got.end());
            VF_CHECK(got == want, "convert", want.size() << " elements were converted into " << got.size() << ", or others");
            auto same_class = convert_set_to_shared<Child, Child>(c);
            VF_CHECK(same_class.size() == c.size(), "convert", "elements lost");
            VF_CHECK(vf::Live<Item>::n() == live + (long)(vp.size() + 3 * c.size()) - (long)vp.size(), "convert", "objects alive");
        }
        vf::seen("sequences", vf::mix(n * 977 + ss.size() * 31 + si.size()) ^ vf::hash_str(sep));
        vf::count("steps", 6);
    }
}

//////////////////////////// trees
template <class I> struct Ref { I info; std::vector<Ref<I>> b; };
template <class I> unsigned depth(const Ref<I>& t)
{
    unsigned d = 0;
    for (auto& x : t.b) d = std::max(d, depth(x) + 1);
    return d;
}
template <class I> void all(const Ref<I>& t, std::vector<I>& v)
{
    for (auto& x : t.b)
    {
        v.push_back(x.info);
        all(x, v);
    }
}
template <class I> void look(const TreeNode<I>& t, const Ref<I>& m)
{
    VF_CHECK(t.info == m.info, "tree-info", "information of a node changed");
    VF_CHECK(t.leaf() == m.b.empty(), "tree-leaf", "a node with " << m.b.size() << " branches is a leaf: " << t.leaf());
    VF_CHECK(t.depth() == depth(m), "tree-depth", "depth " << t.depth() << " instead of " << depth(m));
    VF_CHECK(t.branches().size() == m.b.size(), "tree-branches", t.branches().size() << " branches instead of " << m.b.size());
    if (t.branches().size() == m.b.size())
    {
        size_t k = 0;
        for (auto& b : t.branches()) look(b, m.b[k++]);
    }
    std::vector<I> got, want;
    for (auto& n : t.all_nodes()) got.push_back(n.info);
    all(m, want);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    VF_CHECK(got == want, "tree-all", got.size() << " nodes listed instead of " << want.size() << ", or others");
}
template <class I> I info(vf::Rng& r);
template <> int info<int>(vf::Rng& r) { return (int)r.range(-9, 9); }
template <> S info<S>(vf::Rng& r) { return r.chance(30) ? r.bytes(60) : item(r); }
template <class I> void trees(vf::Rng& r)
{
    for (int rep = 0; rep < 40; ++rep)
    {
        std::vector<TreeNode<I>> t;
        std::vector<Ref<I>> m;
        uint64_t h = 0;
        for (int i = 0; i < 12; ++i)
        {
            I x = info<I>(r);
            int op = t.empty() ? 0 : (int)r.below(8);
            size_t k = t.empty() ? 0 : r.below(t.size()), j = t.empty() ? 0 : r.below(t.size());
            h = vf::mix(h * 31 + op * 64 + k * 8 + j);
            std::vector<I> kn, jn;
            if (!t.empty())
            {
                all(m[k], kn);
                all(m[j], jn);
            }
            bool big = kn.size() + jn.size() > 60;
            switch (op)
            {
                case 0: t.emplace_back(x); m.push_back({x, {}}); break;
                case 1: t[k].add_branch(x); m[k].b.push_back({x, {}}); break;
                case 2: t[k].add_branch(I(x)); m[k].b.push_back({x, {}}); break;
                case 3: if (!big) { const TreeNode<I>& c = t[j]; t[k].add_branch(c); auto mc = m[j]; m[k].b.push_back(mc); } break;        // also to itself
                case 4:
                    if (j != k && !big)
                    {
                        t[k].add_branch(std::move(t[j]));
                        m[k].b.push_back(m[j]);
                        t.erase(t.begin() + (long)j);
                        m.erase(m.begin() + (long)j);
                    }
                    break;
                case 5: if (t.size() < 5) { TreeNode<I> c(t[k]); t.push_back(c); auto mc = m[k]; m.push_back(mc); } break;
                case 6: { TreeNode<I> c(x); c = t[j]; t[k] = c; auto mc = m[j]; m[k] = mc; } break;
                default: t[k].info = x; m[k].info = x;
            }
            for (size_t a = 0; a < t.size(); ++a) look(t[a], m[a]);
            // what was listed is a tree of its own
            if (!t.empty() && !t[0].leaf())
            {
                auto nodes = t[0].all_nodes();
                nodes.front().add_branch(x);
                look(t[0], m[0]);
            }
            vf::count("steps", t.size());
        }
        for (auto& x : m) vf::seen("sequences", vf::mix(h * 7 + depth(x)));
    }
}

// Wide and deep trees
void large_trees(vf::Rng& r)
{
    const int n = (int)r.pick(std::vector<int>{33, 129, 300, 1500});
    const bool deep = r.chance(50);
    TreeNode<int> root(0);
    Ref<int> m{0, {}};
    if (deep)
    {
        for (int i = 0; i < std::min(n, 100); ++i)
        {
            TreeNode<int> up(i + 1);
            Ref<int> mu{i + 1, {m}};
            up.add_branch(std::move(root));
            if (r.chance(30))
            {
                up.add_branch(-i);
                mu.b.push_back({-i, {}});
            }
            root = std::move(up);
            m = mu;
        }
    }
    else for (int i = 0; i < n; ++i) { root.add_branch(i); m.b.push_back({i, {}}); }
    look(root, m);
    vf::count("steps", (uint64_t)n);
}

// Information that cannot be copied: nodes move with their whole branches
void move_only_trees(vf::Rng& r)
{
    using P = std::unique_ptr<int>;
    for (int c = 0; c < 60; ++c)
    {
        const int n = 1 + (int)r.below(30);
        TreeNode<P> root(std::make_unique<int>(0));
        Ref<int> m{0, {}};
        for (int i = 1; i <= n; ++i)
        {
            switch (r.below(3))
            {
                case 0: root.add_branch(std::make_unique<int>(i)); m.b.push_back({i, {}}); break;
                case 1:
                {
                    TreeNode<P> b(std::make_unique<int>(i));
                    b.add_branch(std::make_unique<int>(-i));
                    root.add_branch(std::move(b));
                    m.b.push_back({i, {{-i, {}}}});
                    break;
                }
                default:
                {
                    TreeNode<P> up(std::make_unique<int>(i));
                    up.add_branch(std::move(root));
                    root = std::move(up);
                    Ref<int> mu{i, {m}};
                    m = mu;
                }
            }
        }
        std::function<void(const TreeNode<P>&, const Ref<int>&)> cmp = [&](const TreeNode<P>& t, const Ref<int>& w)
                {
                    VF_CHECK(t.info && *t.info == w.info, "tree-info", "information of a node that cannot be copied changed");
                    VF_CHECK(t.leaf() == w.b.empty() && t.depth() == depth(w), "tree-depth", "depth " << t.depth() << " instead of " << depth(w));
                    VF_CHECK(t.branches().size() == w.b.size(), "tree-branches", t.branches().size() << " branches instead of " << w.b.size());
                    auto k = w.b.begin();
                    for (auto& b : t.branches()) if (k != w.b.end()) cmp(b, *k++);
                };
        cmp(root, m);
        vf::count("steps", (uint64_t)n);
    }
}

//////////////////////////// casts
void casts(vf::Rng& r)
{
    for (int i = 0; i < 50; ++i)
    {
        int x = (int)r.next();
        const int* cp = &x;
        void* v = cast_to_void_ptr(cp);
        VF_CHECK(v == (void*)&x && *(int*)v == x, "cast-void", "void pointer to another place");
        *(int*)v = 5;
        VF_CHECK(x == 5, "cast-void", "void pointer to another place");
        Both b;
        const Right* right = &b;
        VF_CHECK(cast_to_void_ptr(right) == (void*)right, "cast-void", "void pointer to another place");
        const int* null = nullptr;
        VF_CHECK(cast_to_void_ptr(null) == nullptr, "cast-void", "void pointer of null");
        Item it(1);
        Child c(2);
        Final f;
        const Item &ri = it, &rc = c, &rb = b, &rf = f;
        const Right& rr = b;
        Right lone;
        auto is = [](bool got, bool want, const char* what) { VF_CHECK(got == want, "can_cast", what << " can be cast: " << got); vf::count("steps"); };
        is(can_cast<Item>(ri), true, "Item to Item");
        is(can_cast<Child>(ri), false, "Item to Child");
        is(can_cast<Child>(rc), true, "Child to Child");
        is(can_cast<Item>(c), true, "Child to Item");
        is(can_cast<Both>(rc), false, "Child to Both");
        is(can_cast<Both>(rb), true, "Both to Both");
        is(can_cast<Left>(rb), true, "Both to Left");
        is(can_cast<Right>(rb), true, "Both to Right");
        is(can_cast<Child>(rb), false, "Both to Child");
        is(can_cast<Item>(rr), true, "Right of Both to Item");
        is(can_cast<Both>(rr), true, "Right of Both to Both");
        is(can_cast<Both>(lone), false, "Right to Both");
        is(can_cast<Item>(lone), false, "Right to Item");
        is(can_cast<Final>(rf), true, "Final to Final");
        is(can_cast<Child>(rf), false, "Final to Child");
        is(can_cast<Final>(rc), false, "Child to Final");
        vf::count("steps", 4);
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("sets", 32, [](vf::Rng& r)
            {
                sets<Item>(r, [&](int v) -> std::shared_ptr<Item> { if (v & 1) return std::make_shared<Item>(v); return std::make_shared<Child>(v); });
                sets<int>(r, [](int v) { return std::make_shared<int>(v); });
                sets<S>(r, [](int v) { return std::make_shared<S>(S(20 * v, 'x')); });
            });
    vf::batches("large-sets", 8, large_sets);
    vf::batches("printing", 32, printing);
    vf::batches("trees", 32, [](vf::Rng& r) { trees<int>(r); trees<S>(r); });
    vf::batches("large-trees", 8, large_trees);
    vf::batches("move-only-trees", 6, move_only_trees);
    vf::batches("casts", 4, casts);
    return vf::finish();
}
