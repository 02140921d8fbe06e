// P22: string utilities against reference implementations written here.
#include <vf.hpp>
#include <locales.hpp>
#include <climits>
#include <fstream>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using S = std::string;
using vf::show;

// A string over a small alphabet, so that occurrences are frequent and overlap; or any bytes
S str(vf::Rng& r, size_t max)
{
    switch (r.below(8))
    {
        case 0: return r.bytes(r.below(max + 1));
        case 1: return r.from(S("a\0b", 3), r.below(max + 1));
        case 2: return r.from("/:_ ", r.below(max + 1));
        case 3: return r.from("a", r.below(max + 1));
        case 4: return S("\xc3\xb1") + r.from("ab\xc3\xb1", r.below(max + 1));
        default: return r.from("ab", r.below(max + 1));
    }
}
// A piece that occurs in s, or may
S piece(vf::Rng& r, const S& s, size_t max)
{
    if (s.empty() || r.chance(30)) return str(r, max);
    size_t p = r.below(s.size());
    return s.substr(p, 1 + r.below(max));
}
// Naive search on purpose
size_t at(const S& s, const S& d, size_t from)
{
    for (size_t i = from; i + d.size() <= s.size(); ++i)
    {
        bool eq = true;
        for (size_t k = 0; k < d.size() && eq; ++k) eq = s[i + k] == d[k];
        if (eq) return i;
    }
    return S::npos;
}
// Occurrences of d in s from left to right without overlap; what is between them
std::vector<S> between(const S& s, const S& d)
{
    std::vector<S> v;
    size_t from = 0;
    if (!d.empty())
        for (size_t i; (i = at(s, d, from)) != S::npos; from = i + d.size()) v.push_back(s.substr(from, i - from));
    v.push_back(s.substr(from));
    return v;
}
S join(const std::vector<S>& v, const S& d)
{
    S s = v.empty() ? S() : v[0];
    for (size_t i = 1; i < v.size(); ++i) s += d + v[i];
    return s;
}
S show(const std::vector<S>& v)
{
    S s = "[";
    for (auto& x : v) s += show(x) + ",";
    return s + "]";
}
S show(const std::set<S>& v) { return show(std::vector<S>(v.begin(), v.end())); }
uint64_t cls(int f, const S& a, const S& b, size_t n)
{
    return vf::mix(((f * 64 + std::min<size_t>(a.size(), 40)) * 16 + std::min<size_t>(b.size(), 12)) * 32 + std::min<size_t>(n, 31));
}

void split(vf::Rng& r)
{
    for (int i = 0; i < 3000; ++i)
    {
        S s = str(r, r.chance(5) ? 300 : 12), d = piece(r, s, 3);
        if (r.chance(3)) d.clear();
        S s0 = s, d0 = d;
        std::vector<S> got = split_string(s, d), want = between(s, d);
        VF_CHECK(s == s0 && d == d0, "arguments", "arguments changed");
        VF_CHECK(got == want, "split", "split_string(" << show(s) << ", " << show(d) << ") is " << show(got));
        VF_CHECK(!got.empty() && join(got, d) == s, "split", "split_string(" << show(s) << ", " << show(d) << ") does not join back: " << show(got));
        vf::seen("sequences", cls(1, s, d, got.size()));
        // list of strings
        std::vector<S> in, w;
        for (size_t k = r.below(4); k--;) in.push_back(r.chance(50) ? s : str(r, 8));
        for (auto& x : in) for (auto& y : between(x, d)) w.push_back(y);
        got = split_string(in, d);
        VF_CHECK(got == w, "split-list", "split_string(" << show(in) << ", " << show(d) << ") is " << show(got));
        // several delimiters
        std::set<S> ds;
        for (size_t k = r.below(4); k--;) { S x = piece(r, s, 2); if (!x.empty()) ds.insert(x); }
        got = split_string(s, ds);
        VF_CHECK(!got.empty(), "split-set", "split_string(" << show(s) << ", " << show(ds) << ") is empty");
        for (auto& p : got)
            for (auto& x : ds) VF_CHECK(at(p, x, 0) == S::npos, "split-set", "split_string(" << show(s) << ", " << show(ds) << ") leaves a delimiter: " << show(got));
        // the pieces are in the string, in order, and only delimiters are between them
        std::vector<std::set<size_t>> pos{{0}};
        for (size_t k = 0; k < got.size(); ++k)
        {
            std::set<size_t> next;
            for (size_t p : pos.back())
                if (s.compare(p, got[k].size(), got[k]) == 0)
                {
                    size_t e = p + got[k].size();
                    if (k + 1 == got.size())
                    {
                        if (e == s.size()) next.insert(e);
                    }
                    else for (auto& x : ds) if (s.compare(e, x.size(), x) == 0 && e + x.size() <= s.size()) next.insert(e + x.size());
                }
            pos.push_back(next);
        }
        VF_CHECK(!pos.back().empty(), "split-set", "split_string(" << show(s) << ", " << show(ds) << ") is " << show(got));
        bool single = true;
        for (auto& x : ds) single = single && x.size() == 1;
        if (single)
        {
            std::vector<S> w2{S()};
            for (char c : s) { if (ds.count(S(1, c))) w2.push_back(S()); else w2.back() += c; }
            VF_CHECK(got == w2, "split-set", "split_string(" << show(s) << ", " << show(ds) << ") is " << show(got));
        }
        vf::seen("sequences", cls(2, s, join(std::vector<S>(ds.begin(), ds.end()), ""), got.size()));
        vf::count("steps", 3);
    }
}

void replace(vf::Rng& r)
{
    for (int i = 0; i < 3000; ++i)
    {
        S s = str(r, r.chance(5) ? 300 : 12), a = piece(r, s, 3), b = r.chance(30) ? S() : r.chance(30) ? str(r, 2) + a + str(r, 2) : str(r, 4);
        if (r.chance(3)) a.clear();
        S t = s, a0 = a, b0 = b;
        if (!a.empty())
        {
            size_t p = at(s, a, 0);
            bool did = replace_first(t, a, b);
            S want = p == S::npos ? s : s.substr(0, p) + b + s.substr(p + a.size());
            VF_CHECK(t == want && did == (p != S::npos), "replace_first", "replace_first(" << show(s) << ", " << show(a) << ", " << show(b) << ") made " << show(t) << " and returned " << did);
        }
        auto v = between(s, a);
        t = s;
        unsigned n = replace_all(t, a, b);
        VF_CHECK(t == join(v, b) && n == v.size() - 1, "replace_all", "replace_all(" << show(s) << ", " << show(a) << ", " << show(b) << ") made " << show(t) << " and returned " << n);
        VF_CHECK(a == a0 && b == b0, "arguments", "arguments changed");
        vf::seen("sequences", cls(3, s, a, v.size() + 8 * (at(b, a, 0) != S::npos)));
        // strip
        std::set<S> un;
        for (size_t k = r.below(4); k--;) un.insert(piece(r, s, 2));
        t = s;
        S want = s;
        unsigned m = 0;
        for (auto& u : un)
        {
            auto w = between(want, u);
            m += (unsigned)w.size() - 1;
            want = join(w, b);
        }
        n = strip_str(t, b, un);
        VF_CHECK(t == want && n == m, "strip", "strip_str(" << show(s) << ", " << show(b) << ", " << show(un) << ") made " << show(t) << " and returned " << n);
        // by default, the ends of lines
        S l = r.from("a\n\r \n", r.below(12)), l0 = l, only;
        for (char c : l) if (c != '\n' && c != '\r') only += c;
        n = strip_str(l);
        VF_CHECK(l == only && n == l0.size() - only.size(), "strip", "strip_str(" << show(l0) << ") made " << show(l) << " and returned " << n);
        vf::seen("sequences", cls(4, s, b, m));
        vf::count("steps", 4);
    }
}

void letters(vf::Rng& r)
{
    for (int i = 0; i < 1500; ++i)
    {
        S s = r.chance(50) ? r.bytes(r.below(40)) : r.from("aAzZ@[`{mM09 \xe1\xc1", r.below(30)), lo = s, up = s, t = s;
        for (auto& c : lo) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
        for (auto& c : up) if (c >= 'a' && c <= 'z') c = (char)(c - 32);
        to_lowercase(t);
        VF_CHECK(t == lo, "to_lowercase", show(s) << " in lower case is " << show(t));
        t = s;
        to_uppercase(t);
        VF_CHECK(t == up, "to_uppercase", show(s) << " in upper case is " << show(t));
        vf::seen("sequences", cls(5, s, "", (lo != s) * 2 + (up != s)));
        vf::count("steps", 2);
    }
}

void zeros(vf::Rng& r)
{
    for (int i = 0; i < 3000; ++i)
    {
        unsigned n = r.chance(70) ? 1 + (unsigned)r.below(12) : 1 + (unsigned)r.below(80);
        int v;
        switch (r.below(4))
        {
            case 0: v = (int)(r.next() >> 33) >> r.below(31); break;
            case 1: { static const std::vector<int> e{0, 1, 9, 10, 11, 99, 100, 999999999, 1000000000, 1410065407, 1410065408, INT_MAX}; v = r.pick(e); break; }
            case 2: { int p = 1; for (size_t k = r.below(10); k--;) p *= 10; v = p + (int)r.range(-1, 1); break; }
            default: v = (int)r.below(100);
        }
        S digits = std::to_string(v), want = digits.size() < n ? S(n - digits.size(), '0') + digits : digits;
        S got = number_trailing_zeros_format(v, n);
        VF_CHECK(got == want, "zeros", "number_trailing_zeros_format(" << v << ", " << n << ") is " << show(got));
        got = number_trailing_zeros_format(v, n, true);
        VF_CHECK(got == want, "zeros", "number_trailing_zeros_format(" << v << ", " << n << ", true) is " << show(got));
        try
        {
            got = number_trailing_zeros_format(v, n, false);
            VF_CHECK(digits.size() <= n && got == want, "zeros-limit", "number_trailing_zeros_format(" << v << ", " << n << ", false) is " << show(got));
        }
        catch (const PreconditionNotMet&)
        {
            VF_CHECK(digits.size() > n, "zeros-limit", "number_trailing_zeros_format(" << v << ", " << n << ", false) was refused");
        }
        vf::seen("sequences", cls(6, digits, "", n));
        vf::count("steps", 3);
    }
}

// Shell patterns: literals, ?, * and sets in brackets
struct Atom { int kind; char c; bool neg; std::vector<std::pair<unsigned char, unsigned char>> set; };
bool matches(const std::vector<Atom>& p, size_t i, const S& s, size_t k)
{
    if (i == p.size()) return k == s.size();
    const Atom& a = p[i];
    if (a.kind == 2)
    {
        for (size_t e = k; e <= s.size(); ++e) if (matches(p, i + 1, s, e)) return true;
        return false;
    }
    if (k == s.size()) return false;
    bool one = true;
    if (a.kind == 0) one = s[k] == a.c;
    if (a.kind == 3)
    {
        bool in = false;
        for (auto& x : a.set) in = in || ((unsigned char)s[k] >= x.first && (unsigned char)s[k] <= x.second);
        one = in != a.neg;
    }
    return one && matches(p, i + 1, s, k + 1);
}
void patterns(vf::Rng& r)
{
    const S alphabet = "abcxyzAB019/._-\\ :";
    for (int i = 0; i < 2500; ++i)
    {
        std::vector<Atom> p;
        S text, s;
        for (size_t n = r.below(7); n--;)
        {
            Atom a{(int)r.below(6), alphabet[r.below(alphabet.size())], r.chance(30), {}};
            if (a.kind > 3) a.kind = 0;
            switch (a.kind)
            {
                case 0: text += a.c; s += a.c; break;
                case 1: text += '?'; s += alphabet[r.below(alphabet.size())]; break;
                case 2: text += '*'; s += r.from(alphabet, r.below(4)); break;
                default:
                {
                    text += a.neg ? "[!" : "[";
                    for (size_t k = 1 + r.below(3); k--;)
                    {
                        unsigned char lo = (unsigned char)("abcxyz0123456789AB"[r.below(18)]), hi = lo;
                        if (r.chance(30)) { hi = (unsigned char)(lo + r.below(4)); if (!isalnum(hi)) hi = lo; }
                        a.set.push_back({lo, hi});
                        text += (char)lo;
                        if (hi != lo || r.chance(10)) { text += '-'; text += (char)hi; }
                    }
                    text += ']';
                    s += r.chance(70) && !a.neg ? (char)(a.set[0].first + r.below(1 + a.set[0].second - a.set[0].first)) : alphabet[r.below(alphabet.size())];
                }
            }
            p.push_back(a);
        }
        for (int v = 0; v < 4; ++v)
        {
            S t = s;
            if (v) switch (r.below(5))
                {
                    case 0: if (!t.empty()) t.erase(r.below(t.size()), 1); break;
                    case 1: t.insert(r.below(t.size() + 1), 1, alphabet[r.below(alphabet.size())]); break;
                    case 2: if (!t.empty()) t[r.below(t.size())] = alphabet[r.below(alphabet.size())]; break;
                    case 3: to_uppercase(t); break;
                    default: t = r.from(alphabet, r.below(6));
                }
            bool want = matches(p, 0, t, 0), got = match_pattern(text, t);
            VF_CHECK(got == want, "pattern", "pattern " << show(text) << " matches " << show(t) << ": " << got);
            vf::count(want ? "patterns_matched" : "patterns_not_matched");
            vf::seen("sequences", vf::mix(7 * 4096 + p.size() * 256 + std::min<size_t>(t.size(), 30) * 8 + want) ^ vf::hash_str(text));
            vf::count("steps");
        }
    }
    // hostile patterns: any bytes, long runs of stars
    for (int i = 0; i < 50; ++i)
    {
        S p = r.from("*?[]!a-\\^:.", r.below(30)), t = r.from("ab]-[", r.below(30));
        match_pattern(p, t);
        S stars;
        for (size_t k = r.below(6); k--;) stars += "*a";
        match_pattern(stars + "b", S(60, 'a'));
        vf::count("steps");
    }
}

// Long strings with many occurrences
void large(vf::Rng& r)
{
    static const std::vector<size_t> sizes{255, 256, 257, 1023, 1025, 4096, 5000, 30000, 65537, 200000};
    const size_t n = r.pick(sizes);
    S d = r.from(";-", 1 + r.below(3)), s;
    std::vector<S> pieces;
    while (s.size() < n)
    {
        pieces.push_back(r.chance(10) ? S() : r.chance(3) ? S(r.pick(sizes), 'x') : r.from("abcXYZ", r.below(8)));
        s += pieces.back() + d;
    }
    pieces.push_back("end");
    s += "end";
    std::vector<S> got = split_string(s, d);
    VF_CHECK(got == pieces, "split", "split_string of " << s.size() << " characters with " << pieces.size() << " pieces gives " << got.size() << " pieces, or others");
    got = split_string(std::vector<S>{s, s}, d);
    VF_CHECK(got.size() == 2 * pieces.size() && S(got[pieces.size()]) == pieces[0] && got.back() == "end", "split-list", "split_string of two strings of " << s.size() << " characters gives " << got.size() << " pieces");
    S t = s, u = s, b = r.from("<>", r.below(6));
    unsigned k = replace_all(t, d, b);
    VF_CHECK(t == join(pieces, b) && k == pieces.size() - 1, "replace_all", "replace_all of " << pieces.size() - 1 << " occurrences in " << s.size() << " characters returned " << k);
    k = strip_str(u, b, {d});
    VF_CHECK(u == t && k == pieces.size() - 1, "strip", "strip_str of " << pieces.size() - 1 << " occurrences in " << s.size() << " characters returned " << k);
    S lo = s, up = s;
    to_lowercase(lo);
    to_uppercase(up);
    bool ok = lo.size() == s.size() && up.size() == s.size();
    for (size_t i = 0; ok && i < s.size(); ++i) ok = lo[i] == (s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]) && up[i] == (s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]);
    VF_CHECK(ok, "to_lowercase", "letters of " << s.size() << " characters");
    vf::seen("sequences", vf::mix(n * 64 + d.size() * 8 + b.size()));
    vf::count("steps", 5);
}

// More characters than an int counts
void huge(vf::Rng& r)
{
    // about 5 GB are needed
    std::ifstream mem("/proc/meminfo");
    S word;
    size_t free_kb = 0;
    while (mem >> word) if (word == "MemAvailable:") mem >> free_kb;
    if (free_kb < 10u * 1024 * 1024)
    {
        vf::count("skipped_for_lack_of_memory");
        return;
    }
    const size_t before = (size_t)INT_MAX + (size_t)r.range(-3, 1000), after = (size_t)r.below(1000);
    const S d = r.chance(50) ? S("\n") : S("--");
    {
        S s;
        s.reserve(before + d.size() * 2 + after + 1);
        s.append(before, 'x').append(d).append(after, 'y').append(d).append("z");
        std::vector<S> got;
        bool threw = false;
        try
        {
            got = split_string(s, d);
        }
        catch (const std::exception& e)
        {
            threw = true;
        }
        VF_CHECK(!threw && got.size() == 3, "split-huge", "split_string of " << before << " characters, a delimiter, " << after << " characters, a delimiter and one more gives "
                << got.size() << " pieces" << (threw ? " and an exception" : ""));
        if (got.size() == 3)
            VF_CHECK(got[0].size() == before && got[0].find_first_not_of('x') == S::npos && got[1] == S(after, 'y') && got[2] == "z", "split-huge",
                    "pieces of " << got[0].size() << ", " << got[1].size() << " and " << got[2].size() << " characters instead of " << before << ", " << after << " and 1");
    }
    S t;
    t.reserve(before + d.size() + after + 64);
    t.append(before, 'x').append(d).append(after, 'y');
    VF_CHECK(replace_all(t, d, "<>") == 1 && t.size() == before + 2 + after && t.compare(before, 2, "<>") == 0, "replace-huge", "");
    VF_CHECK(replace_first(t, "<", "") && t.size() == before + 1 + after && t[before] == '>', "replace-huge", "");
    VF_CHECK(strip_str(t, "", {">"}) == 1 && t.size() == before + after, "replace-huge", "");
    vf::count("steps", 4);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("split", 40, split, 20);
    vf::batches("replace", 40, replace, 20);
    vf::batches("letters", 24, letters, 20);
    vf::batches("large", 24, large, 30);
    if (vf::S().tool == "asan") vf::batches("huge", 1, huge, 200);
    vf::batches("locales", 12, [](vf::Rng& r)
            {
                if (vf::locales().empty()) return;
                vf::InLocale l(r.pick(vf::locales()));
                letters(r);
                zeros(r);
                split(r);
                replace(r);
                vf::count("in_locales");
            }, 30);
    vf::batches("zeros", 24, zeros, 20);
    vf::batches("patterns", 32, patterns, 30);
    return vf::finish();
}
