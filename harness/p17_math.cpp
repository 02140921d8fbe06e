// P17: number helpers against exact arithmetic in wider integers.
#include <vf.hpp>
#include <climits>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/math/math_extension.hpp>

using namespace eprosima::utils;
using U = unsigned int;
using W = unsigned __int128;

const W LIMIT = W(UINT_MAX);
int len(U x) { return x ? 32 - __builtin_clz(x) : 0; }
bool pow2(U x)
{
    for (int i = 0; i < 32; ++i) if (x == (U(1) << i)) return true;
    return false;
}
// Random value with all magnitudes, ends and neighbours of powers of two
U num(vf::Rng& r)
{
    switch (r.below(6))
    {
        case 0: return (U)r.next();
        case 1: return (U)r.next() >> r.below(32);
        case 2: return (U(1) << r.below(32)) + (U)r.range(-2, 2);
        case 3: return (U)r.below(20);
        case 4: return UINT_MAX - (U)r.below(20);
        default: { static const std::vector<U> v{0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, UINT_MAX, 46340, 46341, 65535, 65536, 65537}; return r.pick(v); }
    }
}
void cls(int fn, U a, U b, U c) { vf::seen("sequences", vf::mix(((fn * 64ull + len(a)) * 64 + len(b)) * 64 + len(c))); }

void one(U x)
{
    VF_CHECK(is_even(x) == (x % 2 == 0), "is_even", "is_even(" << x << ")");
    VF_CHECK(is_power_of_2(x) == pow2(x), "is_power_of_2", "is_power_of_2(" << x << ") is " << is_power_of_2(x));
}
void pair(U a, U b)
{
    if (!b) return;
    U m = fast_module(a, b), d = fast_division(a, b);
    VF_CHECK(m == a % b, "fast_module", "fast_module(" << a << ", " << b << ") is " << m << " instead of " << a % b);
    VF_CHECK(d == a / b, "fast_division", "fast_division(" << a << ", " << b << ") is " << d << " instead of " << a / b);
    cls(1, a, b, a % b == 0);
}
bool progression(U l, U i, U s)
{
    W e = W(l) * s + W(s) * (s - 1) / 2 * i;
    if (!s || !i || e > LIMIT) return false;
    U v = arithmetic_progression_sum(l, i, s);
    VF_CHECK(v == (U)e, "arithmetic_progression_sum", "arithmetic_progression_sum(" << l << ", " << i << ", " << s << ") is " << v << " instead of " << (U)e);
    cls(2, l, i, s);
    return true;
}
bool power(U b, U e)
{
    W v = 1;
    if (b > 1)
        for (U k = 0; k < e; ++k)
        {
            v *= b;
            if (v > LIMIT) return false;
        }
    else v = b == 1 || e == 0;
    U got = fast_exponential(b, e);
    VF_CHECK(got == (U)v, "fast_exponential", "fast_exponential(" << b << ", " << e << ") is " << got << " instead of " << (U)v);
    cls(3, b, e, 0);
    return true;
}

// MAX and MIN inside larger expressions, of operands that are expressions
template <class T>
T larger(T a, T b) { if (a < b) return b; return a; }
template <class T>
T smaller(T a, T b) { if (b < a) return b; return a; }
template <class T>
void extremes(T a, T b, T c)
{
#define IS(expr, want) VF_CHECK((expr) == (want), "extremes", #expr << " with " << a << ", " << b << ", " << c << " is " << (expr) << " instead of " << (want))
    const T hi = larger(a, b), lo = smaller(a, b);
    T v = MAX(a, b), w = MIN(a, b);
    IS(v, hi);
    IS(w, lo);
    IS(c + MAX(a, b), c + hi);
    IS(MAX(a, b) + c, hi + c);
    IS(c - MIN(a, b), c - lo);
    IS(MIN(a, b) - c, lo - c);
    IS(2 * MAX(a, b) - 3 * MIN(a, b), 2 * hi - 3 * lo);
    IS(-MAX(a, b), -hi);
    IS(MAX(MAX(a, b), c), larger(hi, c));
    IS(MIN(c, MIN(a, b)), smaller(c, lo));
    IS(MAX(MIN(a, b), MIN(b, c)), larger(lo, smaller(b, c)));
    IS(MAX(a + c, b - c), larger<T>(a + c, b - c));
    IS(MIN(a < b ? a : c, b), smaller(a < b ? a : c, b));
    IS(MAX(b, a < b ? a : c), larger(b, a < b ? a : c));
    VF_CHECK((MAX(a, b) == hi) && (MIN(a, b) == lo), "extremes", "compared");
    VF_CHECK(!(MAX(a, b) < MIN(a, b)), "extremes", "MAX below MIN of " << a << ", " << b);
    bool any = MAX(a, b) > c || MIN(a, b) < c;
    VF_CHECK(any == (hi > c || lo < c), "extremes", "in a condition");
#undef IS
}
void bits(int a, int b, int c)
{
    VF_CHECK(MAX(a & b, b | c) == larger(a & b, b | c) && MIN(a ^ b, c & 7) == smaller(a ^ b, c & 7) && (MAX(a, b) & c) == (larger(a, b) & c), "extremes", "of bits of " << a << ", " << b << ", " << c);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("unary", 64, [](vf::Rng& r)
            {
                // a block of consecutive numbers, and random ones
                U from = num(r), n = 40000;
                for (U i = 0; i < n; ++i) one(from + i);
                for (U i = 0; i < 40000; ++i)
                {
                    U x = num(r);
                    one(x);
                    cls(0, x, pow2(x), 0);
                }
                vf::count("steps", 80000);
            });
    vf::batches("all-numbers", vf::S().thorough ? 512 : 0, [](vf::Rng& r)
            {
                // thorough: 8 * 512 blocks of 2^20 make every number
                uint64_t k = strtoull(vf::S().scenario.c_str() + vf::S().scenario.find("s=") + 2, nullptr, 10) & 4095;
                for (uint64_t x = k << 20; x < (k + 1) << 20; ++x) one((U)x);
                vf::count("steps", 1 << 20);
                (void)r;
            });
    vf::batches("extremes", 16, [](vf::Rng& r)
            {
                for (int i = 0; i < 5000; ++i)
                {
                    int a = (int)r.range(-40, 40), b = (int)r.range(-40, 40), c = (int)r.range(-40, 40);
                    extremes<int>(a, b, c);
                    extremes<long>(a * 1000003L, b * 1000003L, c);
                    extremes<double>(a / 4.0, b / 4.0, c / 4.0);
                    bits((int)r.below(256), (int)r.below(256), (int)r.below(256));
                    vf::seen("sequences", vf::mix(((a + 50) * 128 + b + 50) * 128 + c + 50));
                }
                vf::count("steps", 20000);
            });
    vf::batches("division", 64, [](vf::Rng& r)
            {
                for (int i = 0; i < 40000; ++i)
                {
                    U a = num(r), b = num(r);
                    if (r.chance(20)) a = b * (U)r.below(8) + (U)r.range(-1, 1);
                    pair(a, b);
                }
                vf::count("steps", 40000);
            });
    vf::batches("small", 4, [](vf::Rng&)
            {
                for (U a = 0; a < 300; ++a)
                    for (U b = 0; b < 300; ++b)
                    {
                        pair(a, b);
                        pair(UINT_MAX - a, b);
                        pair(UINT_MAX - a, UINT_MAX - b);
                    }
                // up to three bits set, and up to three not set
                std::vector<U> few{0};
                for (int i = 0; i < 32; ++i)
                    for (int j = 0; j <= i; ++j)
                        for (int k = 0; k <= j; ++k) few.push_back((U(1) << i) | (U(1) << j) | (U(1) << k));
                for (U x : few)
                {
                    one(x);
                    one(~x);
                    for (int b = 0; b < 32; ++b)
                    {
                        pair(x, U(1) << b);
                        pair(~x, U(1) << b);
                        pair(UINT_MAX, x);
                        pair(UINT_MAX, ~x);
                    }
                }
                for (U l = 0; l < 40; ++l)
                    for (U i = 1; i < 40; ++i)
                        for (U s = 1; s < 40; ++s) progression(l, i, s);
                vf::count("steps", 300 * 900 + 64000 + 6545 * 130);
            });
    vf::batches("progression", 64, [](vf::Rng& r)
            {
                long done = 0;
                for (int i = 0; i < 20000; ++i)
                {
                    U s = num(r), l = num(r), d = num(r);
                    switch (r.below(4))
                    {
                        case 0: break;
                        case 1:
                        {
                            // as large as they can be for the number of steps
                            s = (U)(1 + (r.next() >> (32 + r.below(32))));
                            U lm = (U)std::min<uint64_t>(UINT_MAX, UINT_MAX / (uint64_t)std::max<U>(1, s));
                            l = r.chance(30) ? lm : (U)r.below((uint64_t)lm + 1);
                            W left = LIMIT - W(l) * s;
                            W tri = W(s) * (s - 1) / 2;
                            d = tri ? (U)std::min<W>(left / tri, LIMIT) : num(r);
                            if (d && r.chance(50)) d = 1 + (U)r.below(d);
                            break;
                        }
                        case 2: s = 1 + (U)r.below(100); l >>= r.below(16); d >>= 8 + r.below(20); break;
                        default: l = 0; s = 1 + (U)r.below(92000); d = 1 + (U)r.below(3);
                    }
                    done += progression(l, d, s);
                }
                vf::count("steps", done);
            });
    vf::batches("power", 16, [](vf::Rng& r)
            {
                long done = 0;
                for (U b = 0; b < 2000; ++b)
                    for (U e = 0; e < 34; ++e) done += power(b, e);
                for (int i = 0; i < 20000; ++i)
                {
                    U b = num(r), e = (U)r.below(6);
                    if (r.chance(20)) { b = (U)r.below(3); e = num(r); }
                    done += power(b, b > 1 ? std::min<U>(e, 40) : e);
                }
                for (int i = 0; i < 200; ++i)
                {
                    volatile U x = fast_exponential(num(r), num(r));    // ends, whatever it gives
                    (void)x;
                }
                vf::count("steps", done);
            });
    return vf::finish();
}
