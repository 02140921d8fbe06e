// P30: exceptions of every type, built, copied and propagated in every way, and formatters against a standard stream.
#include <vf.hpp>
#include <cstring>
#include <exception>
#include <future>
#include <iomanip>
#include <limits>
#include <memory>
#include <sstream>
#include <thread>
#include <type_traits>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/Exception.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using S = std::string;
using vf::show;

// The handler that catches an exception first, of all types
template <class T> int which_is();
#define TYPES(X) X(0, ConfigurationException) X(1, DNSException) X(2, DisabledException) X(3, InconsistencyException) X(4, InitializationException) X(5, PreconditionNotMet) X(6, TimeoutException) \
    X(7, UnsupportedException) X(8, ValueAccessException) X(9, ValueNotAllowedException)
#define ID(i, T) template <> int which_is<T>() { return i; }
TYPES(ID)
template <> int which_is<Exception>() { return 10; }
template <class F> int caught_as(F f, S& text, std::exception_ptr* p = nullptr)
{
    try
    {
        try { f(); }
        catch (...) { if (p) *p = std::current_exception(); throw; }
        return -1;
    }
#define CATCH(i, T) catch (const T& e) { text = e.what(); return i; }
    TYPES(CATCH)
    CATCH(10, Exception)
    catch (const std::exception& e) { text = e.what(); return 11; }
    catch (...) { return 12; }
}
template <class B, class F> bool caught_by(F f, S& text)
{
    try
    {
        try { f(); }
        catch (const B& e) { text = e.what(); return true; }
    }
    catch (...) { return false; }
    return false;
}

S message(vf::Rng& r)
{
    switch (r.below(5))
    {
        case 0: return "";
        case 1: return S(r.below(3000), 'm');
        case 2: { S s = r.bytes(r.below(40)); while (s.find('\0') != S::npos) s.erase(s.find('\0'), 1); return s; }
        default: return r.from("abc <>%sn\n\xc3\xb1", r.below(30));
    }
}

template <class T> struct Maker
{
    static std::unique_ptr<T> make(vf::Rng& r, const S& m)
    {
        switch (r.below(6))
        {
            case 0: { std::unique_ptr<char[]> c(new char[m.size() + 1]); memcpy(c.get(), m.c_str(), m.size() + 1); return std::make_unique<T>(static_cast<const char*>(c.get())); }
            case 1: return std::make_unique<T>(S(m));
            case 2: return std::make_unique<T>(STR_ENTRY << m);
            case 3: { size_t k = r.below(m.size() + 1); return std::make_unique<T>(STR_ENTRY << m.substr(0, k) << m.substr(k).c_str()); }
            case 4: { auto o = make(r, m); auto n = std::make_unique<T>(*o); return n; }
            default: { auto o = make(r, m); auto n = std::make_unique<T>("other"); switch (r.below(3)) { case 0: *n = *o; break; case 1: *n = std::move(*o); break; default: n.reset(new T(std::move(*o))); } return n; }
        }
    }
};

template <class T> void one(vf::Rng& r, const char* name)
{
    static_assert(std::is_base_of<Exception, T>::value && std::is_base_of<std::exception, T>::value, "derived of the base");
    static_assert(std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value, "copied");
    const int id = which_is<T>();
    S m = message(r), t;
    auto o = Maker<T>::make(r, m);
    VF_CHECK(m == o->what(), "text", name << " built with " << show(m) << " has " << show(o->what()));
    // independent copies
    {
        T c(*o);
        T other("another text");
        other = c;
        c = T("changed");
        VF_CHECK(m == o->what() && m == other.what() && S("changed") == c.what(), "text-shared", "copies of " << name << " with " << show(m));
    }
    const T kept(*o);
    auto raise = [&]{ throw *o; };
    int as = caught_as(raise, t);
    VF_CHECK(as == id && t == m, as == id ? "text" : "type", name << " with " << show(m) << " was caught as " << as << " with " << show(t));
    bool b = caught_by<T>(raise, t);
    VF_CHECK(b && t == m, "type", name << " as itself");
    b = caught_by<Exception>(raise, t);
    VF_CHECK(b && t == m, "type", name << " as the base exception");
    b = caught_by<std::exception>(raise, t);
    VF_CHECK(b && t == m, "type", name << " as the standard exception");
    if (id != 10 && id != 9) VF_CHECK(!caught_by<ValueNotAllowedException>(raise, t), "type", name << " as another type");
    if (id != 10 && id != 0) VF_CHECK(!caught_by<ConfigurationException>(raise, t), "type", name << " as another type");
    // propagated: rethrown through frames, in a pointer kept beyond the handler, to another thread, nested
    std::exception_ptr p;
    caught_as([&]{ try { throw T(*o); } catch (std::exception&) { throw; } }, t, &p);
    VF_CHECK(t == m, "text", name << " rethrown");
    o.reset();
    as = caught_as([&]{ std::rethrow_exception(p); }, t);
    VF_CHECK(as == id && t == m, as == id ? "text" : "type", name << " from an exception pointer is " << as << " with " << show(t));
    if (r.chance(10))
    {
        auto f = std::async(std::launch::async, [&]{ std::rethrow_exception(p); });
        as = caught_as([&]{ f.get(); }, t);
        VF_CHECK(as == id && t == m, as == id ? "text" : "type", name << " from another thread is " << as << " with " << show(t));
    }
    try
    {
        try { throw kept; }
        catch (...) { std::throw_with_nested(T("outer")); }
    }
    catch (const T& e)
    {
        VF_CHECK(S("outer") == e.what(), "text", "outer " << name);
        as = caught_as([&]{ std::rethrow_if_nested(e); }, t);
        VF_CHECK(as == id && t == m, "text", "nested " << name << " is " << as << " with " << show(t));
    }
    VF_CHECK(m == kept.what(), "text", name << " after all");
    vf::count("steps", 12);
    vf::seen("sequences", vf::hash_str(m) * 16 + id);
}
void exceptions(vf::Rng& r)
{
    for (int i = 0; i < 10; ++i)
    {
#define ONE(i, T) one<T>(r, #T);
        TYPES(ONE)
        one<Exception>(r, "Exception");
    }
}

// Texts of several exceptions that live at once, looked at in any order and by several threads: each stays as it was
// until its exception is changed or destroyed
void together(vf::Rng& r)
{
    for (int i = 0; i < 20; ++i)
    {
        std::vector<std::unique_ptr<Exception>> es;
        std::vector<S> ms;
        std::vector<const char*> texts;
        for (size_t n = 2 + r.below(5); n--;)
        {
            ms.push_back(message(r));
            es.push_back(r.chance(50) ? std::unique_ptr<Exception>(Maker<TimeoutException>::make(r, ms.back())) : std::unique_ptr<Exception>(Maker<ConfigurationException>::make(r, ms.back())));
            texts.push_back(r.chance(60) ? es.back()->what() : nullptr);
        }
        for (size_t j = 0; j < es.size(); ++j) if (!texts[j]) texts[j] = es[j]->what();
        if (r.chance(20))
        {
            std::thread t([&]{ for (auto& e : es) VF_CHECK(S(e->what()) == ms[&e - &es[0]], "text-shared", "read by another thread"); });
            t.join();
        }
        if (r.chance(50))
        {
            size_t j = r.below(es.size());
            es.erase(es.begin() + j); ms.erase(ms.begin() + j); texts.erase(texts.begin() + j);
            Exception other("something else");
            VF_CHECK(S("something else") == other.what(), "text", "another");
        }
        for (size_t j = 0; j < es.size(); ++j)
            VF_CHECK(ms[j] == texts[j], "text-shared", "the text given by an exception that lives on is now " << show(texts[j]) << " instead of " << show(ms[j]));
        vf::count("steps", es.size());
        for (auto& m : ms) vf::seen("sequences", vf::hash_str(m) * 16 + 15);
    }
}

// ------------------------------------------------------------ formatters
struct Printable { int a; };
std::ostream& operator <<(std::ostream& os, const Printable& p) { return os << "{" << p.a << "}"; }
enum Plain { ZERO, ONE_, TWO };

// Streams one random value into both
template <class A> void both(A& f, std::ostringstream& want, vf::Rng& r)
{
    switch (r.below(17))
    {
        case 0: { int x = static_cast<int>(r.next()); f << x; want << x; break; }
        case 1: { uint64_t x = r.next(); f << x; want << x; break; }
        case 2: { S s = r.from(S("ab\0 \n\xff", 6), r.below(12)); f << s; want << s; break; }
        case 3: { char c = static_cast<char>(r.below(256)); f << c; want << c; break; }
        case 4: { bool x = r.chance(50); f << x; want << x; break; }
        case 5: { double x = static_cast<double>(static_cast<int64_t>(r.next())) / (1 + r.below(100000)); f << x; want << x; break; }
        case 6: { float x = r.pick(std::vector<float>{0.f, -0.f, 1e30f, 0.1f, std::numeric_limits<float>::infinity()}); f << x; want << x; break; }
        case 7: { Printable x{static_cast<int>(r.below(100))}; f << x; want << x; break; }
        case 8: { f << "literal"; want << "literal"; break; }
        case 9: { const char* x = "pointer"; f << x; want << x; break; }
        case 10: { Formatter g; g << "in" << 5; f << g; want << "in5"; break; }
        case 11: { f << TWO; want << TWO; break; }
        case 12: { int n = r.below(8); f << std::setw(n) << std::setfill('*') << n; want << std::setw(n) << std::setfill('*') << n; break; }
        case 13: { if (r.chance(50)) { f << std::hex; want << std::hex; } else { f << std::dec; want << std::dec; } break; }
        case 14: { void* x = reinterpret_cast<void*>(r.next() >> 20); f << x; want << x; break; }
        case 15: { S s(r.chance(5) ? r.below(300000) : r.below(2000), 'l'); if (!s.empty()) s.back() = 'e'; f << s; want << s; break; }
        default: { f << ""; f << S(); f << S(1, '\0'); want << S(1, '\0'); break; }
    }
}
void check(const Formatter& f, const S& want)
{
    S a = f.to_string(), b = f, c = f.to_string();
    std::ostringstream os;
    os << "<" << f << ">";
    VF_CHECK(a == want, "formatted", "formatter has " << show(a) << " instead of " << show(want));
    VF_CHECK(b == want && c == want, "formatted", "converted to a string: " << show(b) << " instead of " << show(want));
    VF_CHECK(os.str() == "<" + want + ">", "formatted", "printed as " << show(os.str()) << " instead of " << show(want));
    vf::count("steps", 3);
}
void formatters(vf::Rng& r)
{
    for (int i = 0; i < 15; ++i)
    {
        std::vector<std::unique_ptr<Formatter>> fs;
        std::vector<std::unique_ptr<std::ostringstream>> ws;
        for (size_t n = 1 + r.below(3); n--;) { fs.emplace_back(new Formatter); ws.emplace_back(new std::ostringstream); }
        for (int k = r.below(14); k--;)
        {
            size_t j = r.below(fs.size());
            both(*fs[j], *ws[j], r);
            if (r.chance(10)) check(*fs[j], ws[j]->str());
            if (r.chance(5)) fs[j].reset(new Formatter(std::move(*fs[j])));
            if (r.chance(5)) { S now = ws[j]->str(); *fs[j] << *fs[j]; *ws[j] << now; }
        }
        for (size_t j = 0; j < fs.size(); ++j)
        {
            check(*fs[j], ws[j]->str());
            S m = ws[j]->str();
            S got = Exception(*fs[j]).what();
            VF_CHECK(got == m.c_str(), "text", "exception of a formatter has " << show(got) << " instead of " << show(m));
            vf::seen("sequences", vf::hash_str(m));
        }
        // in one expression
        std::ostringstream w;
        Formatter&& t = Formatter();
        t << 1 << "a" << S("b") << 2.5 << 'c';
        check(t, "1ab2.5c");
        S s = STR_ENTRY << "x" << 7 << Printable{3};
        VF_CHECK(s == "x7{3}", "formatted", "expression gave " << show(s));
    }
}

// Texts that grow to be large
void large(vf::Rng& r)
{
    Formatter f;
    std::ostringstream w;
    size_t n = r.range(500, 4000);
    for (size_t i = 0; i < n; ++i)
    {
        both(f, w, r);
        f << i; w << i;
        if (r.chance(1) && r.chance(30)) check(f, w.str());
    }
    S s(r.range(60000, 2000000), 'x');
    s[r.below(s.size())] = 'y';
    s.back() = 'z';
    f << s << "the end";
    w << s << "the end";
    VF_CHECK(f.to_string() == w.str(), "formatted", "a long formatter has " << f.to_string().size() << " characters instead of " << w.str().size());
    S copy = f;
    VF_CHECK(copy == w.str(), "formatted", "a long formatter converted has " << copy.size() << " characters instead of " << w.str().size());
    Exception direct(s), of(Formatter() << s << "tail");
    TimeoutException t(direct.what());
    VF_CHECK(s == direct.what() && s + "tail" == of.what() && s == t.what(), "text", "an exception of a message of " << s.size() << " characters has " << strlen(direct.what()) << ", " << strlen(of.what()) << " and "
                 << strlen(t.what()));
    S got;
    int as = caught_as([&]{ throw InconsistencyException(s); }, got);
    VF_CHECK(got == s, "text", "caught as " << as << " with " << got.size() << " characters instead of " << s.size());
    vf::count("steps", n + 4);
}

// Many threads build, throw, copy and format at once
void threads(vf::Exec& e)
{
    uint64_t seed = e.rng.next();
    std::shared_ptr<const ConfigurationException> shared = std::make_shared<ConfigurationException>("the shared message");
    std::vector<std::function<void()>> fs;
    for (int k = 0; k < 3; ++k)
        fs.push_back([=]{
                    vf::Rng r(seed + k);
                    for (int i = 0; i < 3; ++i)
                    {
                        S m = "message " + std::to_string(k) + "." + std::to_string(i), t;
                        int as = caught_as([&]{ throw TimeoutException(STR_ENTRY << "message " << k << "." << i); }, t);
                        VF_CHECK(as == 6 && t == m, "text", "one of several threads caught " << as << " " << show(t));
                        ConfigurationException c(*shared);
                        VF_CHECK(S(c.what()) == "the shared message" && S(shared->what()) == c.what(), "text", "copy in several threads " << c.what());
                        Formatter f;
                        std::ostringstream w;
                        for (int q = 0; q < 4; ++q) both(f, w, r);
                        VF_CHECK(f.to_string() == w.str(), "formatted", "in one of several threads");
                        vf::count("steps", 3);
                    }
                });
    e.par(std::move(fs));
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("exceptions", 160, exceptions);
    vf::batches("together", 160, together);
    vf::batches("formatters", 400, formatters);
    vf::batches("large", 16, large, 60);
    vf::explore("threads", vf::Opt().b(2).r(10).p(4).mi(20).us(50), threads);
    return vf::finish();
}
