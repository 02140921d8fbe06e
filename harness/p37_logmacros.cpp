// P37: the macros that log, in every configuration of the build (the parts of the check define VF_LOGS and what selects it).
#ifdef VF_DEBUG_BUILD
#undef NDEBUG
#endif
#include <vf.hpp>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <cpp_utils/Log.hpp>

using S = std::string;
using vf::show;
using eprosima::utils::Log;
using Kind = Log::Kind;

struct Got { S msg, file, fn, cat; int line; Kind kind; };
struct Recorder : eprosima::utils::LogConsumer
{
    std::vector<Got>& to;
    std::mutex& mx;
    Recorder(std::vector<Got>& t, std::mutex& m) : to(t), mx(m) {}
    void Consume(const Log::Entry& e) override
    {
        std::lock_guard<std::mutex> l(mx);
        to.push_back({e.message, e.context.filename ? e.context.filename : "", e.context.function ? e.context.function : "", e.context.category ? e.context.category : "", e.context.line, e.kind});
    }
};
std::vector<Got> g_got;
std::mutex g_mx;

// What a message is made of
struct M
{
    S text;
    int n = 0;
    std::atomic<int>* evaluated = nullptr;
    bool throws = false;
    S part(const S& s) const
    {
        evaluated->fetch_add(1);
        if (throws) throw std::runtime_error("of the message");
        return s;
    }
};
// Where the macros are used: each knows what its entry must be
struct Want { S msg, fn, cat; int line; bool dev; };
using Site = Want (*)(const M&);

Want at_global(const M& m)
{
    logDebug(CAT_ONE, m.part(m.text)); return {m.text, __func__, "CAT_ONE", __LINE__, false};
}
namespace other { namespace inner {
Want at_namespace(const M& m)
{
    logDevError(UTILS_CAT, m.part("number ") << m.n << ' ' << m.text << std::hex << 255 << std::setw(5) << 7 << "|"); return {"number " + std::to_string(m.n) + " " + m.text + "ff    7|", __func__, "UTILS_CAT", __LINE__, true};
}
} }
struct Class
{
    const M& m;
    Want operator ()() const
    {
        if (m.n % 2) { logDebug(lower_cat, "odd " << m.part(m.text) << m.n << std::boolalpha << true) }
        else { logDevError(lower_cat, "even " << m.part(m.text) << m.n << true) }
        return {(m.n % 2 ? "odd " : "even ") + m.text + std::to_string(m.n) + (m.n % 2 ? "true" : "1"), __func__, "lower_cat", m.n % 2 ? __LINE__ - 2 : __LINE__ - 1, !(m.n % 2)};
    }
};
Want at_class(const M& m) { return Class{m}(); }
template <class T>
Want in_template(const T& m)
{
    for (int i = 0; i < 1; ++i) logDevError(C, m.part("")); return {"", __func__, "C", __LINE__, true};
}
Want at_template(const M& m) { return in_template<M>(m); }
Want at_lambda(const M& m)
{
    S fn;
    int line = 0;
    auto f = [&]{ S fastdds = "own names"; int ss = 3; fn = __func__; line = __LINE__; logDebug(CAT WITH SPACES, m.part(m.text + fastdds) << ss << (m.n > 3 ? m.text : S("few")) << '\n'); };
    f();
    return {m.text + "own names3" + (m.n > 3 ? m.text : S("few")) + "\n", fn, "CAT WITH SPACES", line, false};
}
// The message itself logs
const M* g_m;
S says()
{
    logDevError(NESTED, g_m->part("inside")); return "outside";
}
// The message logs at the very place where it is used itself
S rec(const M& m, int n)
{
    if (n > 0) logDebug(RECURSIVE, "depth " << n << ' ' << rec(m, n - 1) << m.part(m.text));
    return "in " + std::to_string(n) + " ";
}
S rec_text(const M& m, int n) { return "depth " + std::to_string(n) + " in " + std::to_string(n - 1) + " " + m.text; }
const Site SITES[] = {at_global, other::inner::at_namespace, at_class, at_template, at_lambda};

// Counts what is written and flushed
struct Out : std::streambuf
{
    S all, flushed;
    int_type overflow(int_type c) override { if (c != traits_type::eof()) all += (char)c; return 0; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { all.append(s, (size_t)n); return n; }
    int sync() override { flushed = all; return 0; }
};

S text(vf::Rng& r)
{
    static const std::vector<S> fixed{"", "DEBUG: ", "text", "%s %n %d", "two\nlines", "\t", "DEV_WARNING: x", "CAT_ONE"};
    if (r.chance(40)) return r.pick(fixed);
    if (r.chance(5)) return r.bytes(r.below(20000));
    return r.bytes(r.below(40));
}
bool same(const Got& g, const Want& w)
{
    S prefix = w.dev ? "DEV_WARNING: " : "DEBUG: ";
    S f = __FILE__;
    return g.msg == prefix + w.msg && g.file == f && g.fn == w.fn && g.cat == w.cat && g.line == w.line && (w.dev ? g.kind != Kind::Error : g.kind == Kind::Info);
}
S str(const Got& g) { return show(g.msg) + " " + g.fn + " " + g.cat + " line " + std::to_string(g.line) + " kind " + std::to_string((int)g.kind); }
S str(const Want& w) { return show(w.msg) + " " + w.fn + " " + w.cat + " line " + std::to_string(w.line); }

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    Log::ClearConsumers();
    Log::RegisterConsumer(std::make_unique<Recorder>(g_got, g_mx));

    vf::batches("uses", 60, [](vf::Rng& r)
            {
                for (int c = 0; c < 60; ++c)
                {
                    Kind level = (Kind)r.below(3);
                    Log::SetVerbosity(level);
                    bool on = VF_LOGS && level == Kind::Info;
                    std::atomic<int> ev{0};
                    std::vector<Want> want;
                    int evaluated = 0;
                    { std::lock_guard<std::mutex> l(g_mx); g_got.clear(); }
                    S trace = "verbosity " + std::to_string((int)level) + ":";
                    for (size_t k = 1 + r.below(5); k--;)
                    {
                        M m;
                        m.text = text(r);
                        m.n = (int)r.range(-5, 10);
                        m.evaluated = &ev;
                        m.throws = r.chance(10);
                        int site = (int)r.below(7);
                        trace += " " + std::to_string(site) + (m.throws ? "!" : "");
                        bool thrown = false;
                        try
                        {
                            if (site == 6)
                            {
                                int n = 1 + std::abs(m.n) % 3;
                                // the innermost is the first that throws
                                if (on) for (int k = 1; k <= n && !m.throws; ++k) want.push_back({rec_text(m, k), "rec", "RECURSIVE", 0, false});
                                if (on && !m.throws) evaluated += n - 1;
                                rec(m, n);
                            }
                            else if (site < 5)
                            {
                                Want w = SITES[site](m);
                                if (on) want.push_back(w);
                            }
                            else
                            {
                                g_m = &m;
                                int line = __LINE__ + 1;
                                logDebug(CAT_ONE, says() << m.n);
                                if (on) { want.push_back({"inside", "says", "NESTED", 0, true}); want.push_back({"outside" + std::to_string(m.n), __func__, "CAT_ONE", line, false}); }
                            }
                        }
                        catch (const std::runtime_error&) { thrown = true; }
                        VF_CHECK(thrown == (m.throws && on), "exception", trace << ": the exception of a message was " << (thrown ? "" : "not ") << "thrown");
                        if (on) ++evaluated;
                        vf::count("steps");
                    }
                    Log::Flush();
                    std::lock_guard<std::mutex> l(g_mx);
                    VF_CHECK(ev == evaluated, "evaluated", trace << ": messages evaluated " << ev << " times instead of " << evaluated);
                    VF_CHECK(g_got.size() == want.size(), "entries", trace << ": " << g_got.size() << " entries instead of " << want.size());
                    for (size_t i = 0; i < want.size() && i < g_got.size(); ++i)
                    {
                        if (want[i].line == 0) want[i].line = g_got[i].line;
                        VF_CHECK(same(g_got[i], want[i]), "entry", trace << ": " << str(g_got[i]) << " instead of " << str(want[i]));
                    }
                    vf::seen("sequences", vf::hash_str(trace));
                    vf::sample(trace);
                }
            });

    // Messages for the user: at once, whatever the level and the build
    vf::batches("user", 20, [](vf::Rng& r)
            {
                Out out;
                std::streambuf* old = std::cout.rdbuf(&out);
                S want;
                for (int c = 0; c < 100; ++c)
                {
                    Log::SetVerbosity((Kind)r.below(3));
                    S t = text(r), more = text(r);
                    int n = (int)r.range(-5, 500), ev = 0;
                    auto once = [&](int x) { ++ev; return x; };
                    switch (r.below(3))
                    {
                        case 0: logUser(CAT, t); want += t + "\n"; once(0); break;
                        case 1: logUser(CAT_TWO, t << once(n) << more); want += t + std::to_string(n) + more + "\n"; break;
                        default: if (n > 100) { logUser(X, once(n)) } else { logUser(X, "few " << once(n)) } want += (n > 100 ? "" : "few ") + std::to_string(n) + "\n"; break;
                    }
                    if (out.flushed != want || ev != 1)
                    {
                        std::cout.rdbuf(old);
                        VF_CHECK(out.all == want, "user-text", "printed " << show(out.all.substr(out.all.size() > 60 ? out.all.size() - 60 : 0)) << " instead of " << show(want.substr(want.size() > 60 ? want.size() - 60 : 0)));
                        VF_CHECK(out.flushed == want, "user-late", "the message was not shown at once");
                        VF_CHECK(ev == 1, "evaluated", "a message for the user was evaluated " << ev << " times");
                        return;
                    }
                    vf::count("steps");
                }
                std::cout.rdbuf(old);
                vf::seen("sequences", vf::hash_str(want));
            });

    // From several threads: every entry whole, those of one thread in order; the verbosity changes meanwhile
    vf::explore("threads", vf::Opt().b(10).r(60).p(20), [](vf::Exec& e)
            {
                Log::SetVerbosity(Kind::Info);
                { std::lock_guard<std::mutex> l(g_mx); g_got.clear(); }
                bool changes = e.rng.chance(40);
                std::atomic<int> ev{0};
                auto logs = [&](int k)
                        {
                            return [&, k]
                                   {
                                       for (int i = 0; i < 10; ++i)
                                       {
                                           S t = "message " + std::to_string(i) + " of thread " + std::to_string(k) + " kept on the heap";
                                           logDebug(CAT, t << " " << ev.fetch_add(1) * 0 << "|");
                                           vf_sched_point(1);
                                       }
                                   };
                        };
                e.par({logs(0), logs(1), [&]{ if (changes) for (int i = 0; i < 5; ++i) { Log::SetVerbosity((Kind)(i % 3)); vf_sched_point(2); } Log::SetVerbosity(Kind::Info); }});
                Log::Flush();
                std::lock_guard<std::mutex> l(g_mx);
                VF_CHECK((int)g_got.size() == ev && (changes || ev == (VF_LOGS ? 20 : 0)), "entries", g_got.size() << " entries, " << ev << " messages evaluated");
                int next[2] = {0, 0};
                for (auto& g : g_got)
                {
                    bool ok = false;
                    for (int k = 0; k < 2; ++k)
                        for (int i = next[k]; i < 10; ++i)
                            if (g.msg == "DEBUG: message " + std::to_string(i) + " of thread " + std::to_string(k) + " kept on the heap 0|") { ok = true; next[k] = i + 1; break; }
                    VF_CHECK(ok, "entry", show(g.msg) << " is none of the messages, or out of order");
                }
            });
    Log::Reset();
    Log::KillThread();
    return vf::finish();
}
