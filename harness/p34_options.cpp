// P34: command lines read by the option parser against a model of its documentation, and usage messages against the
// layout that it describes.
#include <vf.hpp>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <optionparser.h>

using S = std::string;
using vf::show;
namespace op = option;

// ----------------------------------------------------------------------------------------------- checks of arguments
struct Call { const op::Descriptor* desc; const char* name; int namelen; const char* arg; bool msg; };
std::vector<Call> calls;

enum Kind { NONE, OPTIONAL, REQUIRED, NON_EMPTY, NUMERIC, MAYBE_NUMERIC, NEVER, KINDS };

bool digits(const char* a) { return a && *a && S(a).find_first_not_of("0123456789") == S::npos; }

// What each kind says of an argument (attached: in the same element of the vector as the option)
op::ArgStatus verdict(Kind k, const char* arg, bool attached)
{
    switch (k)
    {
        case NONE: return op::ARG_NONE;
        case OPTIONAL: return arg && attached ? op::ARG_OK : op::ARG_IGNORE;
        case REQUIRED: return arg ? op::ARG_OK : op::ARG_ILLEGAL;
        case NON_EMPTY: return arg && *arg ? op::ARG_OK : op::ARG_ILLEGAL;
        case NUMERIC: return digits(arg) ? op::ARG_OK : op::ARG_ILLEGAL;
        case MAYBE_NUMERIC: return digits(arg) ? op::ARG_OK : op::ARG_IGNORE;
        default: return op::ARG_ILLEGAL;
    }
}
template <int K>
op::ArgStatus check_arg(const op::Option& o, bool msg)
{
    calls.push_back({o.desc, o.name, o.namelen, o.arg, msg});
    if (K == NONE) return op::Arg::None(o, msg);
    if (K == OPTIONAL) return op::Arg::Optional(o, msg);
    return verdict((Kind)K, o.arg, false);
}
const op::CheckArg CHECKS[KINDS] = {check_arg<0>, check_arg<1>, check_arg<2>, check_arg<3>, check_arg<4>, check_arg<5>, check_arg<6>};

// ------------------------------------------------------------------------------------------------- tables and vectors
struct Row { unsigned index; int type; S shorts, longs; Kind kind; };
struct Table
{
    std::vector<Row> rows;
    std::unique_ptr<op::Descriptor[]> d;
    std::vector<S> strings;
    unsigned max_index = 0;

    void build()
    {
        std::vector<op::Descriptor> v;
        strings.clear();
        strings.reserve(rows.size() * 2);
        op::Descriptor* p = static_cast<op::Descriptor*>(operator new[](sizeof(op::Descriptor) * (rows.size() + 1)));
        size_t i = 0;
        for (auto& r : rows)
        {
            strings.push_back(r.shorts);
            const char* sh = strings.back().c_str();
            strings.push_back(r.longs);
            new (p + i++) op::Descriptor{r.index, r.type, sh, strings.back().c_str(), CHECKS[r.kind], "text"};
            max_index = std::max(max_index, r.index);
        }
        new (p + i) op::Descriptor{0, 0, 0, 0, 0, 0};
        d.reset(p);
    }
    S str() const
    {
        S s;
        for (auto& r : rows) s += "{" + std::to_string(r.index) + "," + std::to_string(r.type) + ",'" + r.shorts + "','" + r.longs + "'," + std::to_string(r.kind) + "}";
        return s;
    }
};

Table table(vf::Rng& r)
{
    static const std::vector<S> LONGS{"file", "fil", "files", "foo", "foobar", "foob", "x", "ab", "a", "verbose", "no-verbose", "enable-foo", "disable-foo", "name", "n", "\xc3\xb1", "f-o", "xa"};
    Table t;
    size_t n = r.below(9);
    for (size_t i = 0; i < n; ++i)
    {
        Row w;
        w.index = r.below(r.chance(20) ? 20 : 5);
        w.type = r.below(4);
        w.shorts = r.chance(30) ? S() : r.from("abfnxvo0=", 1 + r.below(2));
        w.longs = r.chance(30) ? S() : r.pick(LONGS);
        w.kind = (Kind)r.below(r.chance(85) ? MAYBE_NUMERIC + 1 : KINDS);
        t.rows.push_back(w);
    }
    if (r.chance(70))                   // for the unknown ones
    {
        Row w{(unsigned)r.below(3), (int)r.below(3), "", "", (Kind)r.below(r.chance(85) ? OPTIONAL + 1 : KINDS)};
        t.rows.insert(t.rows.begin() + r.below(t.rows.size() + 1), w);
    }
    t.build();
    return t;
}

// Vectors whose strings and array end where they should, so that a read beyond them is seen
struct Vector
{
    std::vector<std::unique_ptr<char[]>> strings;
    std::unique_ptr<const char*[]> argv;
    size_t n = 0;
    bool terminated = false;
    int argc = 0;

    std::vector<const char*> now() const { return std::vector<const char*>(argv.get(), argv.get() + n); }
    S str() const
    {
        S s;
        for (auto a : now()) s += (s.empty() ? "" : " ") + show(a);
        return s;
    }
};
Vector vector(vf::Rng& r, const Table& t, bool single_minus)
{
    static const std::vector<S> PLAIN{"-", "file", "12", "7", "", "x", "a=b", "--", "--", "12a", "\xc3\xb1"};
    std::vector<S> v;
    size_t n = r.below(r.chance(10) ? 30 : 8);
    while (v.size() < n)
    {
        auto some_long = [&]
        {
            S name;
            if (!t.rows.empty() && r.chance(85)) name = t.rows[r.below(t.rows.size())].longs;
            if (name.empty() || r.chance(5)) name = r.from("abfnxvo", 1 + r.below(3));
            if (r.chance(30)) name = name.substr(0, 1 + r.below(name.size()));
            if (r.chance(10)) name += r.from("abfox", 1);
            if (r.chance(40)) name += "=" + (r.chance(70) ? r.from("0123456789", r.below(3)) : r.from("a-=1", r.below(4)));
            return name;
        };
        switch (r.below(10))
        {
            case 0: case 1: case 2: v.push_back("--" + some_long()); break;
            case 3: v.push_back("-" + some_long()); break;
            case 4: case 5: case 6:
            {
                S g = r.from("abfnxvo0z", 1 + r.below(5));
                if (r.chance(20)) g += r.from("-=19", 1 + r.below(2));
                if (r.chance(10)) g += r.bytes(1 + r.below(2));
                g.erase(std::remove(g.begin(), g.end(), '\0'), g.end());
                v.push_back("-" + g);
                break;
            }
            case 7: v.push_back(r.chance(60) ? r.from("0123456789", 1 + r.below(3)) : r.from("ab-", 1 + r.below(2))); break;
            default: v.push_back(r.pick(PLAIN));
        }
        // a long option without a name is not specified
        S& s = v.back();
        if (s.compare(0, 3, "--=") == 0 || (single_minus && s.compare(0, 2, "-=") == 0)) v.pop_back(), --n;
    }
    Vector x;
    x.n = v.size();
    x.terminated = r.chance(30);
    x.argc = x.terminated ? (r.chance(70) ? -1 : (int)x.n) : (int)x.n;
    x.argv.reset(new const char*[x.n + x.terminated]);
    for (size_t i = 0; i < x.n; ++i)
    {
        x.strings.emplace_back(new char[v[i].size() + 1]);
        memcpy(x.strings.back().get(), v[i].c_str(), v[i].size() + 1);
        x.argv[i] = x.strings.back().get();
    }
    if (x.terminated) x.argv[x.n] = nullptr;
    return x;
}

// -------------------------------------------------------------------------------------------------------------- model
struct Opt { size_t row; const char* name; int namelen; const char* arg; };
struct Result
{
    std::vector<Opt> opts;
    std::vector<Call> calls;
    std::vector<const char*> rest;          // not options
    std::vector<const char*> order;         // of the vector afterwards
    bool error = false;
};

Result model(const Table& t, const std::vector<const char*>& args, bool gnu, int min_abbr, bool single_minus, bool msg)
{
    Result res;
    const size_t NO = (size_t)-1;
    size_t unknown = NO;
    for (size_t k = 0; k < t.rows.size() && unknown == NO; ++k) if (t.rows[k].shorts.empty() && t.rows[k].longs.empty()) unknown = k;
    auto by_long = [&](const S& name)
    {
        for (size_t k = 0; k < t.rows.size(); ++k) if (t.rows[k].longs == name) return k;
        size_t found = NO, n = 0;
        if (min_abbr > 0 && name.size() >= (size_t)min_abbr)
            for (size_t k = 0; k < t.rows.size(); ++k)
                if (t.rows[k].longs.compare(0, name.size(), name) == 0) { if (!n++) found = k; }
        return n == 1 ? found : NO;
    };
    std::vector<const char*> plain;
    size_t i = 0;
    bool all_plain = false;
    // true when the option took the next element
    auto use = [&](size_t row, const char* name, const char* attached, bool& took, bool& had_arg)
    {
        took = had_arg = false;
        if (row == NO) row = unknown;
        if (row == NO) return true;
        const char* arg = attached ? attached : i + 1 < args.size() ? args[i + 1] : nullptr;
        int len = 1;
        if (name[0] == '-') len = (int)S(name).substr(0, S(name).find('=')).size();
        res.calls.push_back({&t.d[row], name, len, arg, msg});
        Kind k = t.rows[row].kind;
        // "attached" for Optional: the name goes on after its length
        op::ArgStatus s = verdict(k, arg, name[len] != 0);
        if (s == op::ARG_ILLEGAL) return false;
        if (s == op::ARG_OK)
        {
            had_arg = true;
            took = !attached && arg;
        }
        res.opts.push_back({row, name, len, s == op::ARG_OK ? arg : nullptr});
        return true;
    };
    for (; i < args.size() && !all_plain; ++i)
    {
        S a = args[i];
        if (a[0] != '-' || a == "-")
        {
            if (!gnu) break;
            plain.push_back(args[i]);
            continue;
        }
        size_t first = i;
        bool took = false, had = false, ok = true;
        if (a == "--") all_plain = true;
        else
        {
            size_t eq = a.find('=');
            bool is_long = a[1] == '-';
            size_t row = NO;
            S name = a.substr(is_long ? 2 : 1, eq == S::npos ? S::npos : eq - (is_long ? 2 : 1));
            if (is_long || single_minus) row = by_long(name);
            if (is_long || row != NO) ok = use(row, args[i], eq == S::npos ? nullptr : args[i] + eq + 1, took, had);
            else
                for (size_t k = 1; ok && !had && k < a.size(); ++k)
                {
                    size_t s = 0;
                    while (s < t.rows.size() && t.rows[s].shorts.find(a[k]) == S::npos) ++s;
                    ok = use(s < t.rows.size() ? s : NO, args[i] + k, k + 1 < a.size() ? args[i] + k + 1 : nullptr, took, had);
                }
        }
        if (!ok)
        {
            res.error = true;
            return res;
        }
        res.order.push_back(args[first]);
        if (took) res.order.push_back(args[++i]);
    }
    res.rest = plain;
    for (; i < args.size(); ++i) res.rest.push_back(args[i]);
    res.order.insert(res.order.end(), res.rest.begin(), res.rest.end());
    return res;
}

// ------------------------------------------------------------------------------------------------------------ compare
S str(const Opt& o, const Table& t)
{
    return show(S(o.name, o.namelen)) + " (row " + std::to_string(o.row) + " of index " + std::to_string(t.rows[o.row].index) + ")" + (o.arg ? " with " + show(o.arg) : S());
}
bool same_option(const op::Option& o, const Opt& m, const Table& t)
{
    return o.desc == &t.d[m.row] && o.name == m.name && o.arg == m.arg && o.namelen == m.namelen && o.index() == (int)t.rows[m.row].index && o.type() == t.rows[m.row].type && o
           && (const op::Option*)o == &o;
}
void same_calls(const std::vector<Call>& got, const std::vector<Call>& want, const S& what)
{
    VF_CHECK(got.size() == want.size(), "checks", what << ": " << got.size() << " checks of an argument instead of " << want.size());
    for (size_t i = 0; i < std::min(got.size(), want.size()); ++i)
    {
        const Call &a = got[i], &b = want[i];
        VF_CHECK(a.desc == b.desc && a.name == b.name && a.namelen == b.namelen && a.arg == b.arg && a.msg == b.msg, "checks", what << ": check " << i << " is of " << show(a.name) << "/" << a.namelen
                << " with " << show(a.arg ? a.arg : "(null)") << " instead of " << show(b.name) << "/" << b.namelen << " with " << show(b.arg ? b.arg : "(null)"));
    }
}
// The list of each index, and every way to walk through it
void same_lists(op::Option* options, size_t n, const std::vector<Opt>& opts, const Table& t, const S& what)
{
    for (size_t ix = 0; ix < n; ++ix)
    {
        std::vector<Opt> want;
        for (auto& o : opts) if (t.rows[o.row].index == ix) want.push_back(o);
        op::Option& head = options[ix];
        const op::Option& chead = head;
        if (want.empty())
        {
            VF_CHECK(!head && !chead && head.count() == 0 && head.isFirst() && head.isLast() && head.first() == &head && head.last() == &head && head.type() == 0 && head.index() == -1 && !head.next()
                    && !head.prev() && head.nextwrap() == &head && head.prevwrap() == &head && !head.desc, "list", what << ": index " << ix << " was not given but is in use");
            continue;
        }
        std::vector<op::Option*> nodes;
        for (op::Option* o = head; o; o = o->next())
        {
            nodes.push_back(o);
            if (nodes.size() > want.size()) break;
        }
        VF_CHECK(nodes.size() == want.size(), "list", what << ": the list of index " << ix << " has " << nodes.size() << (nodes.size() > want.size() ? " or more" : "") << " options instead of " << want.size());
        if (nodes.size() != want.size()) continue;
        for (size_t k = 0; k < nodes.size(); ++k)
        {
            op::Option* o = nodes[k];
            const op::Option* c = o;
            bool f = k == 0, l = k + 1 == nodes.size();
            VF_CHECK(same_option(*o, want[k], t), "list", what << ": option " << k << " of index " << ix << " is not " << str(want[k], t));
            VF_CHECK(o->count() == (int)want.size(), "count", what << ": option " << k << " of index " << ix << " says that there are " << o->count() << " instead of " << want.size());
            VF_CHECK(o->isFirst() == f && o->isLast() == l && o->first() == nodes[0] && o->last() == nodes.back() && c->first() == nodes[0] && c->last() == nodes.back(), "walk",
                    what << ": first or last of option " << k << " of index " << ix);
            VF_CHECK(o->prev() == (f ? nullptr : nodes[k - 1]) && o->next() == (l ? nullptr : nodes[k + 1]) && c->next() == (l ? nullptr : nodes[k + 1])
                    && o->nextwrap() == nodes[(k + 1) % nodes.size()] && o->prevwrap() == nodes[(k + nodes.size() - 1) % nodes.size()] && c->prevwrap() == nodes[(k + nodes.size() - 1) % nodes.size()],
                    "walk", what << ": neighbours of option " << k << " of index " << ix);
        }
    }
}
void same_buffer(op::Option* buffer, const std::vector<Opt>& opts, const Table& t, const S& what)
{
    for (size_t i = 0; i < opts.size(); ++i)
        VF_CHECK(same_option(buffer[i], opts[i], t), "buffer", what << ": option " << i << " is " << (buffer[i].name ? show(buffer[i].name) : "none") << (buffer[i].arg ? " with " + show(buffer[i].arg) : S())
                << " instead of " << str(opts[i], t));
}

// --------------------------------------------------------------------------------------------------------- scenarios
struct Flags { bool gnu; int min_abbr; bool single_minus; };

void count_all(vf::Rng& r, op::Stats& st, const Table& t, Vector& v, const Flags& f, bool fresh)
{
    bool mut = r.chance(30);
    const char** a = v.argv.get();
    char** m = (char**)a;
    if (!fresh)
    {
        if (f.gnu) mut ? st.add(true, t.d.get(), v.argc, m, f.min_abbr, f.single_minus) : st.add(true, t.d.get(), v.argc, a, f.min_abbr, f.single_minus);
        else mut ? st.add(t.d.get(), v.argc, m, f.min_abbr, f.single_minus) : st.add(t.d.get(), v.argc, a, f.min_abbr, f.single_minus);
        return;
    }
    if (f.gnu) st = mut ? op::Stats(true, t.d.get(), v.argc, m, f.min_abbr, f.single_minus) : op::Stats(true, t.d.get(), v.argc, a, f.min_abbr, f.single_minus);
    else st = mut ? op::Stats(t.d.get(), v.argc, m, f.min_abbr, f.single_minus) : op::Stats(t.d.get(), v.argc, a, f.min_abbr, f.single_minus);
}
void parse_all(vf::Rng& r, op::Parser& p, const Table& t, Vector& v, const Flags& f, bool fresh, op::Option* o, op::Option* b, int bufmax)
{
    bool mut = r.chance(30);
    const char** a = v.argv.get();
    char** m = (char**)a;
    auto d = t.d.get();
    if (!fresh)
    {
        if (f.gnu) mut ? p.parse(true, d, v.argc, m, o, b, f.min_abbr, f.single_minus, bufmax) : p.parse(true, d, v.argc, a, o, b, f.min_abbr, f.single_minus, bufmax);
        else mut ? p.parse(d, v.argc, m, o, b, f.min_abbr, f.single_minus, bufmax) : p.parse(d, v.argc, a, o, b, f.min_abbr, f.single_minus, bufmax);
        return;
    }
    if (f.gnu) p = mut ? op::Parser(true, d, v.argc, m, o, b, f.min_abbr, f.single_minus, bufmax) : op::Parser(true, d, v.argc, a, o, b, f.min_abbr, f.single_minus, bufmax);
    else p = mut ? op::Parser(d, v.argc, m, o, b, f.min_abbr, f.single_minus, bufmax) : op::Parser(d, v.argc, a, o, b, f.min_abbr, f.single_minus, bufmax);
}

void parsing(vf::Rng& r)
{
    for (int round = 0; round < 400; ++round)
    {
        Table t = table(r);
        Flags f{r.chance(50), r.chance(50) ? 0 : (int)r.range(1, 4), r.chance(40)};
        size_t nv = r.chance(25) ? 2 : 1;
        std::vector<Vector> vs;
        for (size_t k = 0; k < nv; ++k) vs.push_back(vector(r, t, f.single_minus));
        std::ostringstream w;
        w << "table " << t.str() << " gnu=" << f.gnu << " abbr=" << f.min_abbr << " single=" << f.single_minus;
        for (auto& v : vs) w << " [" << v.str() << "](" << v.argc << ")";
        const S what = w.str();

        // how many there are
        op::Stats st;
        bool use_stats = r.chance(80);
        size_t total = 0;
        if (use_stats)
        {
            if (r.chance(10))
            {
                op::Stats none(t.d.get(), 0, (const char**)nullptr);
                VF_CHECK(none.buffer_max == 1, "stats", what << ": " << none.buffer_max << " options of no vector");
            }
            for (size_t k = 0; k < nv; ++k)
            {
                auto before = vs[k].now();
                Result m = model(t, before, f.gnu, f.min_abbr, f.single_minus, false);
                calls.clear();
                count_all(r, st, t, vs[k], f, k == 0 && r.chance(50));
                total += m.opts.size();
                same_calls(calls, m.calls, what + " counted");
                VF_CHECK(st.buffer_max == total + 1, "stats", what << ": room for " << st.buffer_max << " options when " << total << " and one more are needed");
                VF_CHECK(st.options_max == (t.rows.empty() ? 1 : t.max_index + 2), "stats", what << ": room for " << st.options_max << " indexes when the largest is " << t.max_index);
                auto after = vs[k].now(), sorted = before;
                if (!m.error) VF_CHECK(after == m.order, "reorder", what << ": the vector is [" << vs[k].str() << "] once counted");
                std::sort(sorted.begin(), sorted.end());
                std::sort(after.begin(), after.end());
                VF_CHECK(sorted == after, "reorder", what << ": the vector has other elements once counted");
                vf::count("steps");
            }
        }
        else
            for (auto& v : vs) total += model(t, v.now(), f.gnu, f.min_abbr, f.single_minus, false).opts.size();

        // and which
        Flags g = f;
        if (use_stats && r.chance(30)) g.gnu = false;          // enough to have passed it to Stats
        int bufmax = r.chance(70) ? -1 : (int)r.below(total + 2);
        size_t room = bufmax < 0 ? (use_stats ? st.buffer_max : total + 1) : bufmax, slots = use_stats ? st.options_max : t.max_index + 1;
        std::unique_ptr<op::Option[]> options(new op::Option[slots]), buffer(new op::Option[room]);
        op::Parser p;
        std::vector<Opt> have;
        std::vector<const char*> rest;
        for (size_t k = 0; k < nv; ++k)
        {
            Result m = model(t, vs[k].now(), g.gnu, g.min_abbr, g.single_minus, true);
            calls.clear();
            bool fresh = k == 0 ? r.chance(50) : r.chance(20);
            parse_all(r, p, t, vs[k], g, fresh, options.get(), buffer.get(), bufmax);
            if (fresh) rest.clear();
            for (auto& o : m.opts) if (bufmax < 0 || have.size() < (size_t)bufmax) have.push_back(o);
            if (!m.error && !m.rest.empty()) rest = m.rest;
            same_calls(calls, m.calls, what + " parsed");
            VF_CHECK(p.error() == m.error, "error", what << ": error " << p.error());
            VF_CHECK(p.optionsCount() == (int)have.size(), "options", what << ": " << p.optionsCount() << " options instead of " << have.size());
            VF_CHECK(p.nonOptionsCount() == (int)rest.size(), "non-options", what << ": " << p.nonOptionsCount() << " elements are not options instead of " << rest.size());
            if (p.optionsCount() == (int)have.size()) same_buffer(buffer.get(), have, t, what);
            if (p.nonOptionsCount() == (int)rest.size())
                for (size_t i = 0; i < rest.size(); ++i)
                    VF_CHECK(p.nonOption((int)i) == rest[i] && p.nonOptions()[i] == rest[i], "non-options", what << ": " << show(p.nonOption((int)i)) << " instead of " << show(rest[i]));
            same_lists(options.get(), slots, have, t, what);
            if (!m.error) VF_CHECK(vs[k].now() == m.order, "reorder", what << ": the vector is [" << vs[k].str() << "] once parsed");
            vf::count("steps");
            vf::seen("sequences", vf::hash_str(what));
        }
        for (size_t i = have.size(); i < room; ++i) VF_CHECK(!buffer[i], "buffer", what << ": more options than counted");
        if (round == 0) vf::sample(what + " -> " + std::to_string(have.size()) + " options, " + std::to_string(rest.size()) + " others");
    }
}

// Lists built by hand
void lists(vf::Rng& r)
{
    for (int round = 0; round < 300; ++round)
    {
        size_t n = 1 + r.below(8);
        Table t;
        for (size_t i = 0; i < n; ++i) t.rows.push_back({0, (int)i, "a", "l" + std::to_string(i), NONE});
        t.build();
        std::vector<S> names;
        for (size_t i = 0; i < n; ++i) names.push_back(r.chance(50) ? "--l" + std::to_string(i) + (r.chance(50) ? "=x" : "") : S("abc").substr(r.below(3)));
        std::unique_ptr<op::Option[]> o(new op::Option[n]);
        std::vector<Opt> opts;
        for (size_t i = 0; i < n; ++i)
        {
            op::Option x(&t.d[i], names[i].c_str(), r.chance(50) ? "v" : nullptr), other(&t.d[i], "q", nullptr);
            // the copy of one in a list is in none
            if (r.chance(50)) r.chance(50) ? x.append(&other) : other.append(&x);
            op::Option y(x);
            VF_CHECK(y.isFirst() && y.isLast() && y.count() == 1 && y.first() == &y && y.last() == &y, "list", "a copy is in a list");
            if (r.chance(50)) o[i] = x;
            else o[i] = y;
            VF_CHECK(o[i].isFirst() && o[i].isLast() && o[i].count() == 1, "list", "an assigned option is in a list");
            S shown = names[i].substr(0, names[i][0] == '-' ? names[i].find('=') : 1);
            opts.push_back({i, names[i].c_str(), (int)shown.size(), x.arg});
        }
        for (size_t i = 1; i < n; ++i) o[r.below(i)].append(&o[i]);
        same_lists(o.get(), 1, opts, t, "list built by hand");
        vf::count("steps");
    }
}

// -------------------------------------------------------------------------------------------------------------- usage
struct Char { S bytes; int width; };
// Characters of a valid text and the columns they take
std::vector<Char> chars(const S& s)
{
    std::vector<Char> v;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        unsigned u = n == 1 ? c : c & (0xFF >> (n + 1));
        for (size_t k = 1; k < n; ++k) u = u << 6 | (s[i + k] & 0x3F);
        auto in = [&](unsigned a, unsigned b) { return a <= u && u <= b; };
        bool wide = u != 0x303F && (in(0x1100, 0x115F) || in(0x2329, 0x232A) || in(0x2E80, 0xA4C6) || in(0xA960, 0xA97C) || in(0xAC00, 0xD7FB) || in(0xF900, 0xFAFF) || in(0xFE10, 0xFE6B)
                    || in(0xFF01, 0xFF60) || in(0xFFE0, 0xFFE6) || u >= 0x1B000);
        v.push_back({s.substr(i, n), wide ? 2 : 1});
        i += n;
    }
    return v;
}
int columns(const S& s)
{
    int n = 0;
    for (auto& c : chars(s)) n += c.width;
    return n;
}
// Lines of at most width columns, broken at spaces when there are some
std::vector<S> wrap(S s, int width)
{
    std::vector<S> lines;
    while (!s.empty())
    {
        size_t fit = 0;
        int w = 0;
        for (auto& c : chars(s))
        {
            if (w + c.width > width) break;
            w += c.width;
            fit += c.bytes.size();
        }
        if (fit == s.size()) { lines.push_back(s); break; }
        size_t sp = s.rfind(' ', fit);
        if (sp != S::npos) { lines.push_back(s.substr(0, sp)); s = s.substr(sp + 1); }
        else { lines.push_back(s.substr(0, fit)); s = s.substr(fit); }
    }
    return lines;
}
std::vector<S> split(const S& s, char c)
{
    std::vector<S> v(1);
    for (char x : s) if (x == c) v.emplace_back(); else v.back() += x;
    return v;
}

struct Cell { int col, line; S text; bool plain; };         // plain: of a row without cells
using Cells = std::vector<Cell>;                             // of a row, line by line

Cells cells_of(const S& row)
{
    std::vector<std::vector<S>> grid;
    size_t lines = 0;
    for (auto& c : split(row, '\t')) grid.push_back(split(c, '\v')), lines = std::max(lines, grid.back().size());
    Cells v;
    for (size_t l = 0; l < lines; ++l)
        for (size_t c = 0; c < grid.size(); ++c) v.push_back({(int)c, (int)l, l < grid[c].size() ? grid[c][l] : S(), grid.size() == 1 && lines == 1});
    return v;
}

// The message; exact is false where only what it contains is specified
S layout(const std::vector<std::vector<S>>& tables, int width, int min_percent, int own_percent, bool& exact)
{
    const int COLS = 8;
    exact = true;
    if (width < 1) width = 80;
    if (width > 10000) width = 10000;
    int last_min = (width * min_percent + 50) / 100, own_max = std::max(1, (width * own_percent + 50) / 100);
    S out;
    for (auto& table : tables)
    {
        std::vector<Cells> rows;
        for (auto& help : table) for (auto& row : split(help, '\n')) rows.push_back(cells_of(row));
        // widths: the widest of each column, without the widest ones of all while they do not fit
        int w[COLS], last = 0, limit = 10000, left;
        do
        {
            std::fill(w, w + COLS, 0);
            last = 0;
            for (auto& row : rows)
                for (auto& c : row)
                    if (c.col < COLS)
                    {
                        last = std::max(last, c.col);
                        if (!c.plain && columns(c.text) < limit) w[c.col] = std::max(w[c.col], columns(c.text));
                    }
            left = limit = 0;
            for (int i = 0; i < last; ++i) left += w[i], limit = std::max(limit, w[i]);
        } while (left > width);
        int tab[COLS] = {0};
        for (int i = 1; i < COLS; ++i) tab[i] = tab[i - 1] + w[i - 1];
        int right = width - tab[last];
        bool own = false;
        if (right < last_min && (w[last] == 0 || right < w[last]) && last > 0) own = true, right = own_max;
        else if (right < last_min && (w[last] == 0 || right < w[last])) right = own_max;
        // writes a text at a column, and keeps what does not fit for the following lines
        struct Flow { int x, width; std::deque<S> later; };
        Flow last_flow{width - right, std::max(2, right), {}}, plain_flow{0, std::max(2, width), {}};
        auto process = [&](Flow& f, const S& text)
        {
            for (auto& l : wrap(text, f.width)) f.later.push_back(l);
            if (f.later.size() > 15) exact = false;
            if (!f.later.empty()) out += f.later.front(), f.later.pop_front();
        };
        for (auto& row : rows)
        {
            int x = -1;
            auto go_to = [&](int want)
            {
                if (x > want && !want) exact = false;           // a column after one that is left out of the widths: unspecified
                if (x > want) out += "\n", x = 0;
                if (x < want) out += S(want - x, ' '), x = want;
            };
            for (auto& c : row)
            {
                if (c.col > last) continue;
                if (c.col == 0)
                {
                    if (x >= 0) out += "\n";
                    x = 0;
                }
                go_to(tab[c.col]);
                if (c.col < last && !c.plain) out += c.text, x += columns(c.text);
                else if (c.col == 0) process(plain_flow, c.text);
                else if (!own) process(last_flow, c.text);
            }
            if (own)
                for (auto& c : row)
                    if (c.col == last)
                    {
                        out += "\n" + S(width - right, ' ');
                        process(last_flow, c.text);
                    }
            out += "\n";
            for (auto f : {&last_flow, &plain_flow})
            {
                while (!f->later.empty()) out += S(f->x, ' ') + f->later.front() + "\n", f->later.pop_front();
            }
        }
    }
    return out;
}

S written;
void write_function(const char* s, int n) { written.append(s, n); }
struct Functor { S* to; void operator ()(const char* s, int n) { to->append(s, n); } };
struct Temporary { S* to; void write(const char* s, int n) const { to->append(s, n); } };
struct Object { S to; void write(const char* s, int n) { to.append(s, n); } };
ssize_t write_fd(int fd, const void* s, size_t n) { if (fd == 77) written.append((const char*)s, n); return n; }
size_t write_stream(const void* s, size_t size, size_t n, S* to) { to->append((const char*)s, size * n); return n; }

S word(vf::Rng& r)
{
    static const std::vector<S> WIDE{"\xe4\xb8\xad", "\xea\xb0\x80", "\xef\xbc\xa1", "\xe1\x84\x80", "\xe3\x80\xbf", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "\xf0\xa0\x80\x80", "\xc3\xb1", "\xe2\x82\xac", "\xe1\x88\x80",
        "\xef\xbd\xa1", "\xef\xbf\xa6", "\xd0\x96"};
    S s;
    size_t n = r.chance(10) ? r.below(60) : 1 + r.below(9);
    bool odd = r.chance(20);
    while (n--) s += odd && r.chance(40) ? r.pick(WIDE) : r.from("abcdefgh-|.", 1);
    return s;
}
S text(vf::Rng& r, size_t words)
{
    S s;
    for (size_t i = 0; i < words; ++i) s += (i || r.chance(10) ? S(1 + (r.chance(5) ? r.below(3) : 0), ' ') : S()) + word(r);
    if (r.chance(10)) s += " ";
    return s;
}
void usage(vf::Rng& r)
{
    for (int round = 0; round < 250; ++round)
    {
        std::vector<std::vector<S>> tables;
        size_t nt = 1 + (r.chance(30) ? r.below(3) : 0);
        size_t cols = 1 + r.below(r.chance(10) ? 11 : 4);
        for (size_t k = 0; k < nt; ++k)
        {
            tables.emplace_back();
            for (size_t n = 1 + r.below(6); n--;)
            {
                S help;
                for (size_t nl = r.chance(15) ? r.below(3) : 0;; --nl)
                {
                    if (r.chance(20)) help += text(r, r.below(15));              // not in columns
                    else
                    {
                        size_t c = r.chance(75) ? cols : 1 + r.below(cols);
                        for (size_t i = 0; i < c; ++i)
                        {
                            if (i) help += "\t";
                            bool end = i + 1 == c;
                            help += text(r, end ? r.below(r.chance(10) ? 40 : 12) : r.chance(85) ? r.below(3) : r.below(6));
                            while (r.chance(12)) help += "\v" + text(r, end ? r.below(8) : r.below(3));
                            if (!end && r.chance(70)) help += "  ";
                        }
                    }
                    if (!nl) break;
                    help += "\n";
                }
                tables.back().push_back(help);
            }
        }
        std::vector<op::Descriptor> d;
        for (size_t k = r.chance(20) ? r.below(3) : 0; k--;) d.push_back({0, 0, "", "", op::Arg::None, nullptr});
        for (auto& t : tables)
        {
            for (auto& h : t) d.push_back({0, 0, "a", "b", op::Arg::None, h.c_str()});
            if (&t != &tables.back() || r.chance(20)) for (size_t k = 1 + (r.chance(10) ? 1 : 0); k--;) d.push_back({0, 0, "", "", op::Arg::None, nullptr});
        }
        d.push_back({0, 0, 0, 0, 0, 0});
        std::unique_ptr<op::Descriptor[]> table(static_cast<op::Descriptor*>(operator new[](sizeof(op::Descriptor) * d.size())));
        for (size_t i = 0; i < d.size(); ++i) new (&table[i]) op::Descriptor(d[i]);

        int width = r.chance(60) ? r.range(10, 120) : r.chance(50) ? r.range(1, 30) : r.pick(std::vector<int>{80, 0, -7, 200, 10000, 123456, 1, 2});
        int pm = r.chance(50) ? 50 : r.range(0, 100), po = r.chance(50) ? 75 : r.range(0, 100);
        bool exact;
        S want = layout(tables, width, pm, po, exact);
        S got;
        std::ostringstream os;
        bool defaults = r.chance(15);
        if (defaults) width = 80, pm = 50, po = 75, want = layout(tables, width, pm, po, exact);
        written.clear();
        const op::Descriptor* u = table.get();
        switch (r.below(7))
        {
            case 0: defaults ? op::printUsage(os, u) : op::printUsage(os, u, width, pm, po); got = os.str(); break;
            case 1: defaults ? op::printUsage(write_function, u) : op::printUsage(write_function, u, width, pm, po); got = written; break;
            case 2: { Functor f{&got}; defaults ? op::printUsage(&f, u) : op::printUsage(&f, u, width, pm, po); break; }
            case 3: defaults ? op::printUsage(Temporary{&got}, u) : op::printUsage(Temporary{&got}, u, width, pm, po); break;
            case 4: { Object o; defaults ? op::printUsage(o, u) : op::printUsage(o, u, width, pm, po); got = o.to; break; }
            case 5: defaults ? op::printUsage(write_fd, 77, u) : op::printUsage(write_fd, 77, u, width, pm, po); got = written; break;
            case 6: defaults ? op::printUsage(write_stream, &got, u) : op::printUsage(write_stream, &got, u, width, pm, po); break;
        }
        std::ostringstream in;
        in << "usage";
        for (auto& t : tables) { in << " {"; for (auto& h : t) in << show(h) << ","; in << "}"; }
        in << " in " << width << " columns (" << pm << "%, " << po << "%)";
        if (exact) VF_CHECK(got == want, "layout", in.str() << " is " << show(got) << " instead of " << show(want));
        // Whatever the layout, nothing is lost but spaces, and columns beyond the eighth
        auto letters = [](S s) { s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return strchr(" \n\t\v", c); }), s.end()); std::sort(s.begin(), s.end()); return s; };
        S all;
        for (auto& t : tables) for (auto& h : t) for (auto& row : split(h, '\n')) { auto c = split(row, '\t'); for (size_t i = 0; i < c.size() && i < 8; ++i) all += c[i]; }
        VF_CHECK(letters(got) == letters(all), "text-lost", in.str() << " is " << show(got));
        vf::count("steps");
        vf::count(exact ? "layouts" : "long layouts");
        vf::seen("sequences", vf::hash_str(in.str()));
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("parsing", 100, parsing);
    vf::batches("lists", 10, lists);
    vf::batches("usage", 60, usage);
    return vf::finish();
}
