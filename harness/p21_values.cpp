// P21: fuzzy values against a pair {value, level}; heritable objects against a table of the objects alive.
#include <vf.hpp>
#include <climits>
#include <cpp_utils/memory/Heritable.hpp>
#include <cpp_utils/types/Fuzzy.hpp>

using namespace eprosima::utils;

//////////////////////////// Fuzzy
struct Val
{
    vf::Live<Val> live;
    int x = -1;
    Val() {}
    Val(int v) : x(v) {}
    bool operator ==(const Val& o) const { return x == o.x; }
};
std::ostream& operator <<(std::ostream& os, const Val& v) { return os << "<" << v.x << ">"; }
struct List : std::vector<std::string> {};
std::ostream& operator <<(std::ostream& os, const List& v)
{
    for (auto& s : v) os << s << ";";
    return os;
}
void gen(vf::Rng& r, int& v) { v = (int)r.range(-3, 3); }
void gen(vf::Rng& r, Val& v) { v = Val((int)r.range(-3, 3)); }
void gen(vf::Rng& r, double& v) { v = (double)r.range(-4, 4) / 2; }
void gen(vf::Rng& r, bool& v) { v = r.chance(50); }
void gen(vf::Rng& r, std::string& v) { v = r.chance(70) ? r.from("ab", r.below(3)) : r.bytes(40); }
void gen(vf::Rng& r, List& v)
{
    v.clear();
    for (size_t i = r.below(3); i--;) { std::string s; gen(r, s); v.push_back(s); }
}
FuzzyLevelType level(vf::Rng& r)
{
    static const std::vector<FuzzyLevelType> named{fuzzy_level_unset, fuzzy_level_default, fuzzy_level_fuzzy, fuzzy_level_set, fuzzy_level_hard};
    switch (r.below(4))
    {
        case 0: return r.pick(named);
        case 1: return (FuzzyLevelType)(r.pick(named) + r.range(-1, 1));
        case 2: return r.chance(50) ? SHRT_MIN : SHRT_MAX;
        default: return (FuzzyLevelType)r.next();
    }
}
// What the documentation calls each level
std::string name_of(FuzzyLevelType l)
{
    return l == -20 ? "UNSET" : l == 0 ? "DEFAULT" : l == 20 ? "FUZZY" : l == 40 ? "SET" : l == 60 ? "HARD" : "?";
}
template <class T> std::string str(const T& v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}

template <class T> struct Model { T v; FuzzyLevelType l; };

template <class T> void look(Fuzzy<T>& f, const Model<T>& m, const std::string& what)
{
    const Fuzzy<T>& c = f;
    VF_CHECK(c.get_level() == m.l, "level", what << ": level " << c.get_level() << " instead of " << m.l);
    VF_CHECK(c.is_valid() == (m.l >= 0), "is_valid", what << ": is_valid is " << c.is_valid() << " at level " << m.l);
    VF_CHECK(c.is_set() == (m.l >= 20), "is_set", what << ": is_set is " << c.is_set() << " at level " << m.l);
    VF_CHECK(c.get_reference() == m.v && f.get_reference() == m.v && c.get_value() == m.v, "value", what << ": value " << vf::show(str(c.get_value())));
    VF_CHECK(*(c.operator ->()) == m.v && *(f.operator ->()) == m.v, "value", what << ": value behind the arrow");
    VF_CHECK(&f.get_reference() == f.operator ->() && &c.get_reference() == &f.get_reference(), "value", what << ": references to different objects");
    T copy = c;                  // cast of a constant
    T& ref = f;                  // cast to a reference
    VF_CHECK(copy == m.v && ref == m.v && &ref == &f.get_reference(), "value", what << ": value of the cast");
    if (name_of(m.l) != "?")
    {
        VF_CHECK(c.get_level_as_str() == name_of(m.l), "level-name", what << ": level " << m.l << " is called " << c.get_level_as_str());
        std::string s = str(c);
        VF_CHECK(s.find(name_of(m.l)) != s.npos && s.find(str(m.v)) != s.npos, "print", what << ": printed as " << vf::show(s));
    }
    else VF_CHECK(c.get_level_as_str() != "UNSET" && c.get_level_as_str() != "DEFAULT" && c.get_level_as_str() != "FUZZY"
            && c.get_level_as_str() != "SET" && c.get_level_as_str() != "HARD", "level-name", what << ": level " << m.l << " is called " << c.get_level_as_str());
}

template <class T> void fuzzy(vf::Rng& r, const char* type)
{
    for (int rep = 0; rep < 40; ++rep)
    {
        std::vector<std::unique_ptr<Fuzzy<T>>> f;
        std::vector<Model<T>> m;
        uint64_t h = 0;
        auto make = [&](Fuzzy<T>* p, T v, FuzzyLevelType l) { f.emplace_back(p); m.push_back({v, l}); };
        make(new Fuzzy<T>(), T(), 0);
        for (int i = 0; i < 40; ++i)
        {
            size_t k = r.below(f.size()), j = r.below(f.size());
            T v;
            gen(r, v);
            FuzzyLevelType l = level(r);
            int op = (int)r.below(15);
            std::string what = std::string(type) + " op " + std::to_string(op);
            if (f.size() > 5 && op < 5) op = 13;
            const T moved_from = v;
            switch (op)
            {
                case 0: make(new Fuzzy<T>(), T(), 0); k = f.size() - 1; break;
                case 1: make(new Fuzzy<T>(moved_from), v, 40); k = f.size() - 1; break;
                case 2: make(new Fuzzy<T>(moved_from, l), v, l); k = f.size() - 1; break;
                case 3: { T t = v; make(r.chance(50) ? new Fuzzy<T>(std::move(t), l) : new Fuzzy<T>(T(v), l), v, l); k = f.size() - 1; break; }
                case 4: { auto p = new Fuzzy<T>(*f[j]); make(p, m[j].v, m[j].l); k = f.size() - 1; break; }
                case 5: *f[k] = *f[j]; { auto t = m[j]; m[k] = t; } break;
                case 6: { Fuzzy<T> t(*f[j]); *f[k] = std::move(t); auto c = m[j]; m[k] = c; break; }
                case 7: *f[k] = v; m[k] = {v, 40}; break;
                case 8: *f[k] = T(v); m[k] = {v, 40}; break;
                case 9: f[k]->unset(); m[k].l = -20; break;
                case 10: f[k]->set_value(v); m[k] = {v, 40}; break;
                case 11: f[k]->set_value(v, l); m[k] = {v, l}; break;
                case 12: if (r.chance(30)) { f[k]->set_level(); m[k].l = 40; } else { f[k]->set_level(l); m[k].l = l; } break;
                case 13:
                    switch (r.below(3))
                    {
                        case 0: f[k]->get_reference() = v; break;
                        case 1: *(f[k]->operator ->()) = v; break;
                        default: static_cast<T&>(*f[k]) = v;
                    }
                    m[k].v = v;
                    break;
                default: f[k]->set_value(f[k]->get_reference(), l); m[k].l = l;      // with its own value
            }
            h = vf::mix(h * 31 + op * 8 + k * 512 + j);
            for (size_t a = 0; a < f.size(); ++a) look(*f[a], m[a], what + (a == k ? "" : " (another object)"));
            for (size_t a = 0; a < f.size(); ++a)
            {
                const size_t b = r.below(f.size());
                const Fuzzy<T> &x = *f[a], &y = *f[b];
                bool nb = m[a].l < 20 && m[b].l < 20, same = m[a].l == m[b].l && m[a].v == m[b].v, e = nb || same;
                VF_CHECK(x.operator ==(y) == e, "equal", what << ": levels " << m[a].l << ", " << m[b].l << " and values " << vf::show(str(m[a].v)) << ", " << vf::show(str(m[b].v)) << " equal: " << !e);
                VF_CHECK(x.operator !=(y) == !e, "not-equal", what << ": levels " << m[a].l << ", " << m[b].l << " different: " << e);
                VF_CHECK(x.operator ==(y) == y.operator ==(x), "equal", what << ": equality is not symmetric");
                bool ev = m[a].l >= 0 && m[a].v == v, em = m[a].l >= 0;
                VF_CHECK(x.operator ==(v) == ev && x.operator !=(v) == !ev, "equal-value", what << ": level " << m[a].l << ", value " << vf::show(str(m[a].v)) << " and " << vf::show(str(v)) << " equal: " << !ev);
                VF_CHECK(x.operator ==(m[a].v) == em && x.operator !=(m[a].v) == !em, "equal-value", what << ": level " << m[a].l << " equal to its value: " << !em);
            }
            if (f.size() > 4 && r.chance(30))
            {
                size_t d = r.below(f.size());
                f.erase(f.begin() + (long)d);
                m.erase(m.begin() + (long)d);
            }
            vf::count("steps");
        }
        vf::seen("sequences", h);
    }
}

//////////////////////////// Heritable
// Base classes with and without virtual destructors, and children of several shapes
struct Base                                       // no virtual destructor
{
    vf::Live<Base> live;
    int v;
    explicit Base(int v = 0) : v(v) {}
    Base(const Base& o) : v(o.v) {}
    virtual int kind() const { return 0; }
    virtual int value() const { return v; }
    bool operator ==(const Base& o) const { return value() == o.value(); }
    bool operator <(const Base& o) const { return value() < o.value(); }
};
std::ostream& operator <<(std::ostream& os, const Base& b) { return os << b.kind() << ":" << b.value(); }
struct Big : Base
{
    vf::Live<Big> live;
    std::string text;
    std::vector<int> more;
    explicit Big(int v = 0) : Base(v), text(100, 'x'), more(20, v) {}
    int kind() const override { return 1; }
    int value() const override { return 2 * v + (int)more.size() - 20; }
};
struct Other
{
    long pad[3] = {1, 2, 3};
    virtual ~Other() {}
};
struct Second : Other, Base                       // the base is not at the beginning
{
    vf::Live<Second> live;
    std::string text = std::string(50, 'y');
    explicit Second(int v = 0) : Base(v) {}
    int kind() const override { return 2; }
    int value() const override { return v - (int)text.size() + 50; }
};
struct Deep : Big
{
    vf::Live<Deep> live;
    explicit Deep(int v = 0) : Big(v) {}
    int kind() const override { return 3; }
    int value() const override { return Big::value() - 1; }
};
template <class T> Heritable<Base> make(vf::Rng& r, int v)
{
    switch (r.below(7))
    {
        case 0: return Heritable<Base>(new T(v));
        case 1: return Heritable<T>(new T(v));
        case 2: return Heritable<T>::make_heritable(v);
        case 3: { Heritable<T> h(new T(v)); Heritable<Base> b(h); return b; }
        case 4: { Heritable<T> h(new T(v)); Heritable<T> h2(h); return Heritable<Base>(std::move(h2)); }
        case 5: { T t(v); Heritable<T> h = Heritable<T>::make_heritable(t); t.v = 1000; return h; }
        default: { Heritable<T> h(new T(1)); h = Heritable<T>::make_heritable(v); return Heritable<Base>(h); }
    }
}
struct Obj { int kind, v, id; };
int value(const Obj& o) { return o.kind == 0 || o.kind == 2 ? o.v : o.kind == 1 ? 2 * o.v : 2 * o.v - 1; }

template <class T> void casts(const Heritable<Base>& h, bool ok, const Obj& o, const char* to)
{
    VF_CHECK(h.can_cast<T>() == ok, "can_cast", "object of kind " << o.kind << " can be cast to " << to << ": " << !ok);
    try
    {
        T& t = h.dyn_cast<T>();
        VF_CHECK(ok, "dyn_cast", "object of kind " << o.kind << " was cast to " << to);
        if (ok) VF_CHECK(static_cast<Base*>(&t) == &h.get_reference() && t.value() == value(o), "dyn_cast", "object of kind " << o.kind << " cast to " << to << " is another object");
    }
    catch (const std::bad_cast&)
    {
        VF_CHECK(!ok, "dyn_cast", "object of kind " << o.kind << " was not cast to " << to);
    }
}

void heritable(vf::Rng& r)
{
    auto alive = []{ return std::vector<long>{vf::Live<Base>::n(), vf::Live<Big>::n(), vf::Live<Second>::n(), vf::Live<Deep>::n()}; };
    for (int rep = 0; rep < 30; ++rep)
    {
        std::vector<long> before = alive();
        {
            std::vector<std::unique_ptr<Heritable<Base>>> s;
            std::vector<std::shared_ptr<Obj>> m;
            int ids = 0;
            uint64_t h = 0;
            auto build = [&]() -> std::pair<Heritable<Base>, std::shared_ptr<Obj>>
                    {
                        int kind = (int)r.below(4), v = (int)r.range(-5, 5);
                        auto o = std::make_shared<Obj>(Obj{kind, v, ++ids});
                        switch (kind)
                        {
                            case 0: return {make<Base>(r, v), o};
                            case 1: return {make<Big>(r, v), o};
                            case 2: return {make<Second>(r, v), o};
                            default: return {make<Deep>(r, v), o};
                        }
                    };
            // an object moved from holds nothing that matters
            auto drop = [&](size_t j) { s.erase(s.begin() + (long)j); m.erase(m.begin() + (long)j); };
            for (int i = 0; i < 50; ++i)
            {
                int op = s.empty() ? 0 : (int)r.below(10);
                size_t k = s.empty() ? 0 : r.below(s.size()), j = s.empty() ? 0 : r.below(s.size());
                h = vf::mix(h * 31 + op * 64 + k * 8 + j);
                if (op < 4 && s.size() > 7) op = 8;
                switch (op)
                {
                    case 0: case 1:
                    {
                        auto b = build();
                        s.emplace_back(new Heritable<Base>(b.first));
                        m.push_back(b.second);
                        break;
                    }
                    case 2: if (m[j]) { s.emplace_back(new Heritable<Base>(*s[j])); m.push_back(m[j]); } break;
                    case 3: if (m[j]) { s.emplace_back(new Heritable<Base>(std::move(*s[j]))); m.push_back(m[j]); drop(j); } break;
                    case 4: if (m[j]) { *s[k] = *s[j]; m[k] = m[j]; } break;
                    case 5: if (m[j] && j != k) { *s[k] = std::move(*s[j]); m[k] = m[j]; drop(j); } break;
                    case 6: { auto b = build(); *s[k] = std::move(b.first); m[k] = b.second; break; }
                    case 7:
                        if (m[k])
                        {
                            int v = (int)r.range(-5, 5);
                            m[k]->v = v;
                            switch (r.below(3))
                            {
                                case 0: (*s[k])->v = v; break;
                                case 1: (**s[k]).v = v; break;
                                default: s[k]->get_reference().v = v;
                            }
                        }
                        break;
                    default:
                        s.erase(s.begin() + (long)k);
                        m.erase(m.begin() + (long)k);
                }
                // what is there
                std::set<int> objs;
                std::vector<long> want = before;
                for (auto& o : m)
                    if (o && objs.insert(o->id).second)
                    {
                        ++want[0];
                        if (o->kind == 1 || o->kind == 3) ++want[1];
                        if (o->kind == 2) ++want[2];
                        if (o->kind == 3) ++want[3];
                    }
                auto have = alive();
                for (int c = 0; c < 4; ++c)
                    VF_CHECK(have[c] == want[c], have[c] > want[c] ? "not-destroyed" : "destroyed-early", "after op " << op << ": " << have[c] << " parts of kind " << c << " alive instead of " << want[c]);
                for (size_t a = 0; a < s.size(); ++a)
                {
                    if (!m[a]) continue;
                    const Heritable<Base>& x = *s[a];
                    VF_CHECK(x->kind() == m[a]->kind && (*x).kind() == m[a]->kind, "sliced", "object of kind " << m[a]->kind << " is now of kind " << x->kind());
                    VF_CHECK(x->value() == value(*m[a]) && x.get_reference().value() == value(*m[a]), "value", "object of kind " << m[a]->kind << " has " << x->value() << " instead of " << value(*m[a]));
                    VF_CHECK(&x.get_reference() == &*x && &*x == x.operator ->(), "value", "references to different objects");
                    std::string t = str(x);
                    VF_CHECK(t.find(str(*x)) != t.npos, "print", "printed as " << t);
                    const size_t b = r.below(s.size());
                    if (!m[b]) continue;
                    const Heritable<Base>& y = *s[b];
                    VF_CHECK((&*x == &*y) == (m[a] == m[b]), "value", "copies of different objects share one, or copies of one do not");
                    bool e = value(*m[a]) == value(*m[b]), l = value(*m[a]) < value(*m[b]);
                    VF_CHECK((x == y) == e && (x == *y) == e, "equal", value(*m[a]) << " and " << value(*m[b]) << " equal: " << !e);
                    VF_CHECK((x < y) == l && (x < *y) == l, "less", value(*m[a]) << " less than " << value(*m[b]) << ": " << !l);
                    casts<Base>(x, true, *m[a], "Base");
                    casts<Big>(x, m[a]->kind == 1 || m[a]->kind == 3, *m[a], "Big");
                    casts<Second>(x, m[a]->kind == 2, *m[a], "Second");
                    casts<Deep>(x, m[a]->kind == 3, *m[a], "Deep");
                }
                // as keys of a set
                if (r.chance(20))
                {
                    std::set<Heritable<Base>> keys;
                    std::set<int> vals;
                    for (size_t a = 0; a < s.size(); ++a)
                        if (m[a])
                        {
                            keys.insert(*s[a]);
                            vals.insert(value(*m[a]));
                        }
                    std::vector<int> got;
                    for (auto& x : keys) got.push_back(x->value());
                    VF_CHECK(got == std::vector<int>(vals.begin(), vals.end()), "less", "a set of heritable objects has other elements than their values");
                }
                vf::count("steps");
            }
            vf::seen("sequences", h);
        }
        VF_CHECK(alive() == before, "not-destroyed", "objects are alive after all the heritable objects are gone");
    }
    {
        Heritable<int> a(new int(3)), b = Heritable<int>::make_heritable(4);
        VF_CHECK(*a == 3 && *b == 4 && a < b && !(b < a) && !(a == b) && a == 3 && a < 4, "value", "heritable int");
        b = a;
        *b = 7;
        VF_CHECK(*a == 7 && str(b).find("7") != std::string::npos, "value", "heritable int");
    }
}

// Objects that cannot be copied, of a class built from arguments that cannot be copied
struct Owner
{
    vf::Live<Owner> live;
    std::unique_ptr<int> p;
    std::string name;
    int& outside;
    Owner(std::unique_ptr<int> q, std::string&& n, int& o) : p(std::move(q)), name(std::move(n)), outside(o) {}
    Owner(const Owner&) = delete;
    Owner& operator =(const Owner&) = delete;
    bool operator ==(const Owner& o) const { return *p == *o.p; }
    bool operator <(const Owner& o) const { return *p < *o.p; }
};
void arguments(vf::Rng& r)
{
    long n = vf::Live<Owner>::n();
    for (int c = 0; c < 100; ++c)
    {
        int v = (int)r.range(-100, 100), outside = 0;
        auto q = std::make_unique<int>(v);
        int* raw = q.get();
        std::string s = r.bytes(60), t = s;
        auto h = Heritable<Owner>::make_heritable(std::move(q), std::move(t), outside);
        VF_CHECK(h->p.get() == raw && *h->p == v && h->name == s, "arguments", "a heritable object was not built from the arguments given");
        h->outside = 7;
        VF_CHECK(outside == 7, "arguments", "an argument given by reference was copied");
        auto g = h;
        auto k = Heritable<Owner>::make_heritable(std::make_unique<int>(v + 1), std::string("x"), outside);
        VF_CHECK(g == h && g->p.get() == raw && h < k && !(k < h) && vf::Live<Owner>::n() == n + 2, "arguments", "heritable objects that cannot be copied");
        // and a fuzzy value that can only be moved
        Fuzzy<std::unique_ptr<int>> f(std::make_unique<int>(v), fuzzy_level_fuzzy);
        auto f2 = std::move(f);
        VF_CHECK(f2.get_reference() && *f2.get_reference() == v && f2.get_level() == fuzzy_level_fuzzy && f2.is_set(), "arguments", "a fuzzy value that cannot be copied");
        vf::count("steps");
    }
    VF_CHECK(vf::Live<Owner>::n() == n, "not-destroyed", "objects alive: " << vf::Live<Owner>::n() - n);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("arguments", 6, arguments);
    vf::batches("fuzzy-int", 12, [](vf::Rng& r) { fuzzy<int>(r, "int"); });
    vf::batches("fuzzy-string", 12, [](vf::Rng& r) { fuzzy<std::string>(r, "string"); });
    vf::batches("fuzzy-other", 12, [](vf::Rng& r)
            {
                fuzzy<double>(r, "double");
                fuzzy<bool>(r, "bool");
                fuzzy<List>(r, "vector");
            });
    vf::batches("fuzzy-object", 12, [](vf::Rng& r)
            {
                long n = vf::Live<Val>::n();
                fuzzy<Val>(r, "object");
                VF_CHECK(vf::Live<Val>::n() == n, "not-destroyed", "values alive: " << vf::Live<Val>::n());
            });
    vf::batches("heritable", 40, heritable);
    // copies of the same objects taken, read and dropped by several threads
    vf::explore("threads", vf::Opt().b(10).r(150).p(30).mi(30).us(800), [](vf::Exec& e)
            {
                long n0 = vf::Live<Base>::n(), n1 = vf::Live<Big>::n(), n2 = vf::Live<Second>::n();
                {
                    auto h1 = std::make_unique<Heritable<Base>>(new Big(3));
                    auto h2 = std::make_unique<Heritable<Base>>(Heritable<Second>::make_heritable(4));
                    std::vector<std::unique_ptr<Heritable<Base>>> own;
                    for (int i = 0; i < 3; ++i) own.emplace_back(new Heritable<Base>(i == 1 ? *h2 : *h1));
                    uint64_t seed = e.rng.next();
                    auto work = [&](int i)
                            {
                                vf::Rng r(seed + i);
                                Heritable<Base>& mine = *own[i];
                                for (int k = 0; k < 6; ++k)
                                {
                                    Heritable<Base> c(mine);
                                    vf_sched_point(1);
                                    VF_CHECK(c->kind() == (i == 1 ? 2 : 1) && c == mine && c->live.ok(), "value", "another object");
                                    std::vector<Heritable<Base>> v(r.below(4), c);
                                    for (auto& x : v) VF_CHECK(x.can_cast<Big>() == (i != 1), "can_cast", "wrong");
                                    if (r.chance(50)) mine = std::move(c);
                                }
                                own[i].reset();
                            };
                    e.par({[&]{ work(0); }, [&]{ work(1); }, [&]{ work(2); }, [&]{ vf_sched_point(2); h1.reset(); vf_sched_point(3); h2.reset(); }});
                }
                VF_CHECK(vf::Live<Base>::n() == n0 && vf::Live<Big>::n() == n1 && vf::Live<Second>::n() == n2, "not-destroyed", "objects alive after the last copy");
            });
    return vf::finish();
}
