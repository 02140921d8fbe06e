// P23: base64 against a bit by bit reference; quantities of bytes against exact integer arithmetic.
#include <vf.hpp>
#include <locales.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using S = std::string;
using U = unsigned __int128;
using vf::show;

//////////////////////////// base64
// Letters and digits of ASCII, whatever the locale
char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }

const char* ABC = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
S bits(const S& s)
{
    S b;
    for (unsigned char c : s) for (int i = 7; i >= 0; --i) b += (char)('0' + ((c >> i) & 1));
    return b;
}
S encode(const S& s)
{
    S b = bits(s), out;
    while (b.size() % 6) b += '0';
    for (size_t i = 0; i < b.size(); i += 6)
    {
        int v = 0;
        for (int k = 0; k < 6; ++k) v = v * 2 + (b[i + k] - '0');
        out += ABC[v];
    }
    while (out.size() % 4) out += '=';
    return out;
}
S decode(const S& s)
{
    S b, out;
    for (char c : s)
    {
        const char* p = c ? strchr(ABC, c) : nullptr;
        if (!p) break;
        for (int i = 5; i >= 0; --i) b += (char)('0' + (((p - ABC) >> i) & 1));
    }
    for (size_t i = 0; i + 8 <= b.size(); i += 8)
    {
        int v = 0;
        for (int k = 0; k < 8; ++k) v = v * 2 + (b[i + k] - '0');
        out += (char)v;
    }
    return out;
}
void base64(vf::Rng& r)
{
    auto one = [](const S& s)
            {
                S e = base64_encode(s), w = encode(s);
                VF_CHECK(e == w, "encode", "base64 of " << show(s) << " is " << show(e) << " instead of " << show(w));
                VF_CHECK(base64_decode(e) == s, "round-trip", show(s) << " comes back as " << show(base64_decode(e)));
                vf::seen("sequences", vf::mix(1 + s.size() * 977 + vf::hash_str(s.substr(0, 2))));
                vf::count("steps");
            };
    for (int i = 0; i < 600; ++i)
    {
        S s = r.chance(3) ? r.bytes(r.below(3000)) : r.chance(60) ? r.bytes(r.below(40)) : r.from(S("\0\xff\x80\x7f", 4), r.below(20));
        one(s);
        // texts that are not the encoding of anything: foreign characters, cut at any place
        S t = r.chance(50) ? encode(s) : r.from(S("ABCabc019+/=", 12), r.below(20));
        for (size_t k = r.below(3); k-- && !t.empty();)
        {
            static const S odd("=-_ \n\0\xff*.", 9);
            if (r.chance(50)) t[r.below(t.size())] = r.chance(50) ? odd[r.below(9)] : (char)r.below(256);
            else t.insert(r.below(t.size() + 1), 1, odd[r.below(9)]);
        }
        if (r.chance(40)) t.resize(r.below(t.size() + 1));
        S d = base64_decode(t), w = decode(t);
        VF_CHECK(d == w, "decode", "decoding " << show(t) << " gives " << show(d) << " instead of " << show(w));
        vf::seen("sequences", vf::mix(2 + d.size() * 977 + t.size()));
        vf::count("steps");
    }
    // every byte at every place of a group, after others
    unsigned char c = (unsigned char)r.below(256);
    for (int k = 0; k < 256; ++k)
        for (int n = 0; n < 7; ++n) one(S(n, (char)c) + (char)k + S(n % 3, (char)(c + k)));
}

//////////////////////////// quantities
struct Unit { const char* name; uint64_t v; };
const std::vector<Unit> UNITS{{"B", 1}, {"KB", 1000}, {"MB", 1000000}, {"GB", 1000000000}, {"TB", 1000000000000}, {"PB", 1000000000000000},
    {"KIB", 1ull << 10}, {"MIB", 1ull << 20}, {"GIB", 1ull << 30}, {"TIB", 1ull << 40}, {"PIB", 1ull << 50}};
// 0: refused; 1: accepted; 2: other exception
int ask(const S& s, uint64_t& v)
{
    try
    {
        v = to_bytes(s);
        return 1;
    }
    catch (const std::invalid_argument&)
    {
        return 0;
    }
    catch (const std::exception& e)
    {
        vf::viol("exception", "to_bytes(" + show(s) + ") threw " + e.what());
        return 2;
    }
}
S cased(vf::Rng& r, S u)
{
    for (auto& c : u) if (r.chance(50)) c = low(c);
    return u;
}
S digits(U v)
{
    S s;
    do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
    return s;
}
// A number of bytes of any magnitude, ends, and around powers of 2 and 10
uint64_t magnitude(vf::Rng& r)
{
    switch (r.below(5))
    {
        case 0: return r.next() >> r.below(64);
        case 1: return (1ull << r.below(64)) + (uint64_t)r.range(-2, 2);
        case 2: { uint64_t p = 1; for (size_t k = r.below(20); k--;) p *= 10; return p + (uint64_t)r.range(-2, 2); }
        case 3: return UINT64_MAX - r.below(3000);
        default: return r.below(2000);
    }
}
void quantities_of(vf::Rng& r, int rounds)
{
    const U LIMIT = ~uint64_t(0);
    for (int i = 0; i < rounds; ++i)
    {
        const Unit& u = r.pick(UNITS);
        // whole numbers
        {
            U n = r.chance(50) ? (U)magnitude(r) : LIMIT / u.v - 2 + r.below(6);
            if (r.chance(5)) n = n * 1000000000 + r.below(1000);
            S s = S(r.chance(10) ? r.below(30) : 0, '0') + digits(n) + S(r.chance(30) ? r.below(3) : 0, r.chance(50) ? ' ' : '\t') + cased(r, u.name);
            if (r.chance(2)) s = S(400, '0') + s;
            U want = n * u.v;
            uint64_t v = 0;
            int a = ask(s, v);
            VF_CHECK(a == (want <= LIMIT) || a == 2, "accepted", "to_bytes(" << show(s) << ") was " << (a ? "accepted" : "refused"));
            VF_CHECK(a != 1 || want > LIMIT || v == (uint64_t)want, "to_bytes", "to_bytes(" << show(s) << ") is " << v << " instead of " << (uint64_t)want);
            vf::seen("sequences", vf::mix(3 + u.v * 131 + digits(n).size() * 7 + (want <= LIMIT)));
        }
        // numbers with decimals: the fraction of a byte is dropped
        {
            U n = r.chance(70) ? (U)magnitude(r) % (1 + LIMIT / u.v) : (U)r.below(20);
            if (r.chance(20)) n = LIMIT / u.v - r.below(2);
            S f;
            for (size_t k = 1 + r.below(r.chance(20) ? 17 : 4); k--;) f += (char)('0' + r.below(10));
            if (r.chance(2)) f += S(400, (char)('0' + r.below(10)));
            S s = digits(n) + "." + f + S(r.below(2), ' ') + cased(r, u.name);
            U num = 0, den = 1;
            for (size_t k = 0; k < f.size() && k < 17; ++k) num = num * 10 + (U)(f[k] - '0'), den *= 10;
            U whole = n * u.v, part = num * u.v / den, rest = num * u.v % den, want = whole + part;
            // when the fraction is next to a whole byte, the double may be on the other side
            const U tol = 1 + (U)u.v * 1000 / (1ull << 51);       // thousandths
            bool fuzzy = rest * 1000 < den * tol || rest * 1000 > den * (1000 - tol);
            bool edge = want + 1 >= LIMIT && want <= LIMIT + 2;
            uint64_t v = 0;
            int a = ask(s, v);
            VF_CHECK(edge || a == (want <= LIMIT) || a == 2, "accepted", "to_bytes(" << show(s) << ") was " << (a ? "accepted" : "refused"));
            VF_CHECK(a != 1 || v == (uint64_t)want || (fuzzy && v + 1 >= (uint64_t)want && v <= (uint64_t)want + 1), "to_bytes",
                    "to_bytes(" << show(s) << ") is " << v << " instead of " << (uint64_t)want);
            vf::seen("sequences", vf::mix(4 + u.v * 131 + digits(n).size() * 7 + f.size() * 1000003));
        }
        // not a quantity
        {
            S n = digits(r.below(500)), s;
            switch (r.below(12))
            {
                case 0: s = n; break;
                case 1: s = u.name; break;
                case 2: s = "-" + n + u.name; break;
                case 3: s = n + "." + u.name; break;
                case 4: s = "." + n + u.name; break;
                case 5: s = n + u.name + " "; break;
                case 6: s = " " + n + u.name; break;
                case 7: s = n + "1.2.3" + u.name; break;
                case 8: s = n + "," + n + u.name; break;
                case 9: s = n + "e3" + u.name; break;
                case 10: { static const std::vector<S> bad{"KIBB", "EB", "K", "M", "BK", "IB", "BYTES", "BIT", "XB", "MIBI", "KBKB"}; s = n + r.pick(bad); break; }
                default: s = r.chance(50) ? r.from("01.,-+ KMBib\n", r.below(6)) : r.bytes(r.below(6));
            }
            // what is well formed, without regular expressions
            bool ok = false;
            size_t p = 0;
            while (p < s.size() && isdigit((unsigned char)s[p])) ++p;
            if (p)
            {
                size_t q = p;
                if (q < s.size() && s[q] == '.')
                {
                    ++q;
                    size_t b = q;
                    while (q < s.size() && isdigit((unsigned char)s[q])) ++q;
                    if (q > b) p = q;
                }
                while (p < s.size() && isspace((unsigned char)s[p])) ++p;
                S unit = s.substr(p);
                for (auto& c : unit) c = up(c);
                for (auto& x : UNITS) ok = ok || unit == x.name;
            }
            uint64_t v = 0;
            int a = ask(s, v);
            VF_CHECK(a == ok || a == 2, "accepted", "to_bytes(" << show(s) << ") was " << (a ? "accepted" : "refused"));
            vf::seen("sequences", vf::mix(5 + vf::hash_str(s)));
        }
        vf::count("steps", 3);
    }
}
void quantities(vf::Rng& r) { quantities_of(r, 700); }
void printed_of(vf::Rng& r, int rounds)
{
    for (int i = 0; i < rounds; ++i)
    {
        uint64_t b = magnitude(r);
        if (r.chance(40))
        {
            const Unit& w = UNITS[r.below(6)];
            U x = (U)w.v * (r.below(1200) + 1) + (U)w.v * r.below(1000) / 1000 + r.below(3);
            b = x > ~uint64_t(0) ? b : (uint64_t)x;
        }
        S t = from_bytes(b);
        // the unit
        size_t p = 0;
        while (p < t.size() && (isdigit((unsigned char)t[p]) || t[p] == '.')) ++p;
        S num = t.substr(0, p), unit = t.substr(p);
        int k = 0;
        for (int j = 0; j < 6; ++j) if (UNITS[j].v <= b) k = j;
        VF_CHECK(unit == UNITS[k].name, "printed-unit", b << " bytes are printed as " << t);
        // the number, times 100
        size_t dot = num.find('.');
        S whole = num.substr(0, dot), frac = dot == S::npos ? S() : num.substr(dot + 1);
        VF_CHECK(!whole.empty() && (dot == S::npos || !frac.empty()) && frac.size() <= 2 && (whole == "0" || whole[0] != '0'), "printed", b << " bytes are printed as " << t);
        while (frac.size() < 2) frac += '0';
        U hundredths = 0;
        for (char c : whole + frac) hundredths = hundredths * 10 + (U)(c - '0');
        U shown = hundredths * UNITS[k].v, real = (U)b * 100, diff = shown > real ? shown - real : real - shown;
        VF_CHECK(diff * 1000 <= (U)UNITS[k].v * 1001, "printed", b << " bytes are printed as " << t);
        // not more than a hundredth is lost on the way back
        uint64_t v = 0;
        int a = ask(t, v);
        U d2 = (U)(v > b ? v - b : b - v) * 100;
        if (shown <= (U)~uint64_t(0) * 100) VF_CHECK(a == 1 && d2 <= (U)UNITS[k].v + 200, "printed-back", b << " bytes are printed as " << t << ", which is " << v);
        vf::seen("sequences", vf::mix(6 + (uint64_t)k * 131 + hundredths % 100 * 10007 + whole.size()));
        vf::count("steps");
    }
}

void printed(vf::Rng& r) { printed_of(r, 1500); }

// Long texts
void long_texts(vf::Rng& r)
{
    for (int i = 0; i < 6; ++i)
    {
        const size_t n = r.pick(std::vector<size_t>{1000, 4096, 30000, 65536, 400000}) + r.below(3);
        const Unit& u = r.pick(UNITS);
        struct C { S text; bool ok; U v; };
        const U x = 1 + r.below(900);
        for (auto& c : std::vector<C>{
                {S(n, '0') + digits(x) + u.name, true, x * u.v},
                {digits(x) + S(n, ' ') + u.name, true, x * u.v},
                {digits(x) + "." + S(n, '0') + u.name, true, x * u.v},
                {digits(x) + ".5" + S(n, '0') + u.name, true, x * u.v + u.v / 2},
                {S(n, '9') + u.name, false, 0}, {digits(x) + S(n, 'B'), false, 0}, {S(n, ' ') + u.name, false, 0}, {digits(x) + u.name + S(n, ' '), false, 0},
                {S(n, '7'), false, 0}, {digits(x) + "." + S(n, '3'), false, 0}, {digits(x) + "." + S(n, '3') + "." + u.name, false, 0}, {S(n, 'K'), false, 0}})
        {
            uint64_t v = 0;
            int a = ask(c.text, v);
            VF_CHECK(a == c.ok || a == 2, "accepted", "a text of " << c.text.size() << " characters, " << show(c.text.substr(0, 10)) << "..., was " << (a ? "accepted" : "refused"));
            VF_CHECK(a != 1 || v == (uint64_t)c.v, "to_bytes", "a text of " << c.text.size() << " characters, " << show(c.text.substr(0, 10)) << "..., is " << v << " instead of " << (uint64_t)c.v);
            vf::count("steps");
        }
        vf::seen("sequences", vf::mix(n * 31 + u.v));
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("base64", 60, base64);
    vf::batches("quantities", 48, quantities);
    vf::batches("printed", 24, printed);
    vf::batches("long", 16, long_texts);
    vf::batches("locales", 16, [](vf::Rng& r)
            {
                if (vf::locales().empty()) return;
                vf::InLocale l(r.pick(vf::locales()));
                quantities_of(r, 60);     // regular expressions are slow in other locales
                printed_of(r, 60);
                vf::count("in_locales");
            });
    for (auto s : {"0B", "1.50KB", "555.56MB"}) vf::sample(s);
    VF_CHECK(from_bytes(0) == "0B" && from_bytes(1500) == "1.50KB" && from_bytes(555555555) == "555.56MB", "printed", "documented examples");
    return vf::finish();
}
