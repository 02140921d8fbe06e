// P27: log consumers and their configuration, against a model of filters made of alternatives of literal words.
#include <vf.hpp>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>

using namespace eprosima::utils;
using S = std::string;
using vf::show;
using Kind = Log::Kind;
static const Kind KINDS[] = {Kind::Error, Kind::Warning, Kind::Info};
static const char* const KN[] = {"error", "warning", "info"};

// A pattern and what it matches, known without a regular expression library
struct Pattern
{
    struct Alt { S lit; bool from_start, to_end; };
    std::vector<Alt> alts;
    bool all = false;
    S text;

    bool matches(const S& s) const
    {
        if (all) return true;
        for (auto& a : alts)
        {
            size_t n = a.lit.size();
            if (a.from_start && a.to_end) { if (s == a.lit) return true; }
            else if (a.from_start) { if (s.size() >= n && s.compare(0, n, a.lit) == 0) return true; }
            else if (a.to_end) { if (s.size() >= n && s.compare(s.size() - n, n, a.lit) == 0) return true; }
            else if (s.find(a.lit) != S::npos) return true;
        }
        return false;
    }
};

static const std::vector<S> WORDS{"DDSPIPE", "DDS", "PIPE", "UTILS", "UTILS_WAIT", "fail", "failed", "ok", "x", "a b", "5", "Error", "TEST|", "dds"};
S literal(vf::Rng& r)
{
    S s = r.pick(WORDS);
    if (s.back() == '|') s.pop_back();
    return r.chance(20) ? s + " " + r.from("abc", 1) : s;
}
Pattern pattern(vf::Rng& r)
{
    Pattern p;
    int k = r.below(10);
    if (k == 0) { p.all = true; p.text = ""; return p; }
    if (k == 1) { p.all = true; p.text = ".*"; return p; }
    if (k == 2) { p.alts.push_back({"", true, true}); p.text = "^$"; return p; }
    for (size_t n = 1 + r.below(3); n--;)
    {
        Pattern::Alt a{literal(r), r.chance(15), r.chance(15)};
        if (!p.text.empty()) p.text += "|";
        S t = a.lit;
        if (r.chance(20)) t = "(" + t + ")";
        if (r.chance(10)) t += "{1}";
        else if (t.find(' ') == S::npos && r.chance(20)) { t = S("[") + t[0] + "]" + t.substr(1); if (t.find("[(]") != S::npos) t = a.lit; }
        p.text += S(a.from_start ? "^" : "") + t + (a.to_end ? "$" : "");
        p.alts.push_back(a);
    }
    return p;
}

// The configuration as it should be
struct Model
{
    Kind verbosity = Kind::Warning;
    int vlevel = 0;
    std::map<Kind, std::pair<Pattern, int>> filter;
    Model()
    {
        Pattern p;
        p.all = true;
        for (Kind k : KINDS) filter[k] = {p, 0};
    }
    bool accepts(const Log::Entry& e) const
    {
        const Pattern& p = filter.at(e.kind).first;
        return e.kind <= verbosity && (p.matches(e.context.category) || p.matches(e.message));
    }
    S str() const
    {
        S s = S("verbosity ") + KN[verbosity];
        for (Kind k : KINDS) s += S(", ") + KN[k] + " '" + filter.at(k).first.text + "'";
        return s;
    }
};
int level(vf::Rng& r)
{
    static const std::vector<int> l{-20, 0, 20, 40, 60, -32768, 32767, 39, 41, -1, 1, 19};
    return r.pick(l);
}
void verify(const BaseLogConfiguration& c, const Model& m)
{
    VF_CHECK(c.verbosity.get_value() == m.verbosity && c.verbosity.get_level() == m.vlevel, "verbosity-replacement",
            "verbosity " << c.verbosity.get_value() << " of level " << c.verbosity.get_level() << " instead of " << m.verbosity << " of level " << m.vlevel);
    VF_CHECK(c.filter.size() == 3, "filter-replacement", c.filter.size() << " filters");
    for (Kind k : KINDS)
    {
        auto it = c.filter.find(k);
        VF_CHECK(it != c.filter.end(), "filter-replacement", "no filter of " << KN[k]);
        if (it == c.filter.end()) continue;
        VF_CHECK(it->second.get_value() == m.filter.at(k).first.text && it->second.get_level() == m.filter.at(k).second, "filter-replacement",
                "filter of " << KN[k] << " is " << show(it->second.get_value()) << " of level " << it->second.get_level() << " instead of " << show(m.filter.at(k).first.text) << " of level "
                             << m.filter.at(k).second);
    }
    vf::count("steps", 4);
}
// One random change of the configuration and of the model
void change(vf::Rng& r, BaseLogConfiguration& c, Model& m, bool bind_base_level)
{
    int l = bind_base_level ? 32767 : level(r);
    if (r.chance(50))
    {
        Kind k = KINDS[r.below(3)];
        c.set(Fuzzy<VerbosityKind>(k, static_cast<FuzzyLevelType>(l)));
        if (l >= m.vlevel) { m.verbosity = k; m.vlevel = l; }
        return;
    }
    LogFilter f;
    std::map<Kind, std::pair<Pattern, int>> want;
    for (Kind k : KINDS)
    {
        Pattern p = pattern(r);
        int lk = bind_base_level ? 32767 : r.chance(50) ? l : level(r);
        f[k].set_value(p.text, static_cast<FuzzyLevelType>(lk));
        want[k] = {p, lk};
    }
    c.set(f);
    for (Kind k : KINDS) if (want[k].second >= m.filter[k].second) m.filter[k] = want[k];
}

struct Open : BaseLogConsumer
{
    using BaseLogConsumer::BaseLogConsumer;
    using BaseLogConsumer::accept_entry_;
    void Consume(const Log::Entry&) override {}
};

// Texts of entries; kept for as long as entries exist
struct Gen
{
    std::vector<std::unique_ptr<S>> keep;
    const char* c(const S& s)
    {
        keep.emplace_back(new S(s));
        return keep.back()->c_str();
    }
    S words(vf::Rng& r, size_t max)
    {
        S s;
        for (size_t n = r.below(max + 1); n--;) s += (s.empty() ? S() : r.chance(70) ? S(" ") : S()) + literal(r);
        return s;
    }
    Log::Entry entry(vf::Rng& r)
    {
        Log::Entry e;
        e.kind = KINDS[r.below(3)];
        e.message = words(r, 5);
        if (r.chance(5)) e.message += S(r.below(2000), 'z') + "ok";
        if (r.chance(5)) e.message += r.bytes(r.below(10));
        if (r.chance(5)) e.message.insert(r.below(e.message.size() + 1), 1, '\0');
        if (r.chance(5)) e.message = S(1 + r.below(2), '\0') + e.message;
        if (e.message.find('\n') != S::npos || e.message.find('\r') != S::npos) e.message = "l";       // ^ and $ also mean lines in some implementations
        e.context = Log::Context{"file.cpp", static_cast<int>(r.below(1000)), "function", c(r.chance(70) ? r.pick(WORDS) : words(r, 2))};
        e.timestamp = "2026-01-02 03:04:05.678";
        return e;
    }
};

struct Capture
{
    std::stringbuf out, err;
    std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(&out)), e(std::cerr.rdbuf(&err)) {}
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
size_t times(const S& in, const S& what)
{
    size_t n = 0;
    for (size_t i = in.find(what); i != S::npos; i = in.find(what, i + 1)) ++n;
    return n;
}

void configuration(vf::Rng& r)
{
    for (int i = 0; i < 20; ++i)
    {
        BaseLogConfiguration c;
        Model m;
        uint64_t h = 0;
        verify(c, m);
        Formatter f;
        VF_CHECK(c.is_valid(f), "valid", "a configuration is not valid");
        for (int k = r.below(12); k--;)
        {
            change(r, c, m, false);
            verify(c, m);
            h = vf::mix(h ^ vf::hash_str(m.str()));
            if (r.chance(10)) { BaseLogConfiguration d(c); change(r, d, *std::make_unique<Model>(m), false); verify(c, m); }
        }
        std::ostringstream os;
        os << c.filter;
        for (Kind k : KINDS) VF_CHECK(os.str().find(m.filter[k].first.text) != S::npos, "print", "printed filters " << os.str() << " lack " << m.filter[k].first.text);
        vf::seen("sequences", h);
    }
}

void accept(vf::Rng& r)
{
    for (int i = 0; i < 10; ++i)
    {
        Gen g;
        BaseLogConfiguration c;
        Model m;
        for (int k = r.below(4); k--;) change(r, c, m, true);
        std::unique_ptr<BaseLogConfiguration> heap(new BaseLogConfiguration(c));
        Open o(heap.get());
        Model later = m;
        if (r.chance(50)) change(r, *heap, later, true);              // must not matter to the consumer
        if (r.chance(50)) heap.reset();
        for (int k = 0; k < 40; ++k)
        {
            Log::Entry e = g.entry(r);
            bool want = m.accepts(e), got = o.accept_entry_(e);
            VF_CHECK(got == want, want ? "entry-dropped" : "entry-not-filtered", KN[e.kind] << " of category " << show(e.context.category) << " with message " << show(e.message) << " was "
                         << (got ? "accepted" : "refused") << " with " << m.str());
            vf::count(got ? "accepted" : "refused");
            vf::count("steps");
        }
        vf::seen("sequences", vf::hash_str(m.str()));
    }
}

// What must be on the streams after some entries
struct Expect
{
    S id, category;
    Kind kind;
    int n;
};
void verify_output(const S& out, const S& err, const std::vector<Expect>& x, const S& what)
{
    size_t on_out = 0, on_err = 0;
    for (auto& e : x)
    {
        S id = e.id;
        int o = times(out, id), s = times(err, id);
        int wo = e.kind == Kind::Info ? e.n : 0, ws = e.kind == Kind::Info ? 0 : e.n;
        VF_CHECK(o == wo && s == ws, o + s < e.n ? "not-printed" : o + s > e.n ? "printed-too-often" : "wrong-stream",
                KN[e.kind] << " entry " << id << " is " << o << " times on the output and " << s << " times on the error stream instead of " << wo << " and " << ws << ", " << what);
        on_out += wo;
        on_err += ws;
        vf::count("steps");
    }
    for (auto* s : {&out, &err})
        if (!s->empty()) VF_CHECK(s->back() == '\n', "line-not-ended", "the last printed entry has no end of line");
    if (!on_out) VF_CHECK(out.empty(), "printed-too-much", "output stream has " << show(out));
    if (!on_err) VF_CHECK(err.empty(), "printed-too-much", "error stream has " << show(err));
    vf::count("printed", on_out + on_err);
}

// Entries given to the consumer itself
void direct(vf::Rng& r)
{
    for (int i = 0; i < 10; ++i)
    {
        Gen g;
        BaseLogConfiguration c;
        Model m;
        for (int k = r.below(4); k--;) change(r, c, m, true);
        StdLogConsumer s(&c);
        Model later = m;
        if (r.chance(50)) change(r, c, later, true);
        std::vector<Expect> x;
        Capture cap;
        S texts;
        for (int k = 0; k < 12; ++k)
        {
            Log::Entry e = g.entry(r);
            S id = "<" + std::to_string(i) + "." + std::to_string(k) + ">";
            e.message = r.chance(50) ? e.message + id : e.message + id + "end";
            bool want = m.accepts(e);
            size_t before = cap.out.str().size() + cap.err.str().size();
            s.Consume(e);
            S o = cap.out.str(), er = cap.err.str();
            x.push_back({id, e.context.category, e.kind, want ? 1 : 0});
            if (want && er.size() + o.size() > before)
            {
                const S& on = e.kind == Kind::Info ? o : er;
                VF_CHECK(times(on, e.message) >= 1, "text-changed", "message " << show(e.message) << " was printed as " << show(on.substr(on.size() < 300 ? 0 : on.size() - 300)));
                VF_CHECK(times(on, e.context.category) >= 1 && times(on, "file.cpp:" + std::to_string(e.context.line)) >= 1 && times(on, e.timestamp) >= 1, "text-changed",
                        "the category, time or place of " << show(e.message) << " is missing");
            }
        }
        verify_output(cap.out.str(), cap.err.str(), x, m.str());
        vf::seen("sequences", vf::hash_str(m.str()) + i);
    }
}

// Through the logging thread, several consumers, while the configuration they were built with changes and is destroyed
void threaded(vf::Rng& r)
{
    Gen g;
    Capture cap;
    Log::ClearConsumers();
    Log::SetVerbosity(Kind::Info);
    std::unique_ptr<BaseLogConfiguration> c(new BaseLogConfiguration);
    Model m;
    std::vector<Model> consumers;
    for (size_t n = 1 + r.below(2); n--;)
    {
        for (int k = r.below(3); k--;) change(r, *c, m, true);
        Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new StdLogConsumer(c.get())));
        consumers.push_back(m);
    }
    std::vector<Expect> x;
    bool destroy = r.chance(50);
    int k = 0;
    for (; k < 30; ++k)
    {
        Log::Entry e = g.entry(r);
        S id = "<" + std::to_string(k) + ">";
        e.message += id;
        int n = 0;
        for (auto& q : consumers) n += q.accepts(e);
        x.push_back({id, e.context.category, e.kind, n});
        Log::QueueLog(e.message, e.context, e.kind);
        if (c && r.chance(20)) change(r, *c, m, true);
        if (destroy && k == 10) c.reset();
    }
    Log::Flush();
    verify_output(cap.out.str(), cap.err.str(), x, std::to_string(consumers.size()) + " consumers, the first with " + consumers[0].str());
    Log::ClearConsumers();
    vf::seen("sequences", vf::hash_str(consumers[0].str()) + k);
}

// Very many entries to one consumer
void many(vf::Rng& r)
{
    Gen g;
    Capture cap;
    Log::ClearConsumers();
    Log::SetVerbosity(Kind::Info);
    BaseLogConfiguration c;
    Model m;
    c.set(Fuzzy<VerbosityKind>(Kind::Info, 32767));
    m.verbosity = Kind::Info;
    LogFilter f;
    for (Kind k : KINDS)
    {
        Pattern p;
        p.alts.push_back({"keep", false, false});
        p.text = "keep";
        f[k].set_value(p.text, 32767);
        m.filter[k].first = p;
    }
    c.set(f);
    bool thread = r.chance(50);
    StdLogConsumer own(&c);
    if (thread) Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new StdLogConsumer(&c)));
    S want[2];
    const int n = (int)r.range(12000, 30000);
    for (int i = 0; i < n; ++i)
    {
        bool keep = r.chance(90);
        Log::Entry e;
        e.kind = KINDS[r.below(3)];
        e.message = S(keep ? "keep <" : "drop <") + std::to_string(i) + ">";
        e.context = Log::Context{"file.cpp", i, "function", "CAT"};
        if (keep) want[e.kind == Kind::Info ? 0 : 1] += "<" + std::to_string(i) + ">";
        if (thread) Log::QueueLog(e.message, e.context, e.kind);
        else own.Consume(e);
    }
    if (thread) Log::Flush();
    S text[2] = {cap.out.str(), cap.err.str()};
    for (int s = 0; s < 2; ++s)
    {
        S got;
        for (size_t p = 0; (p = text[s].find('<', p)) != S::npos; )
        {
            size_t q = text[s].find('>', p);
            if (q == S::npos) break;
            got += text[s].substr(p, q - p + 1);
            p = q;
        }
        size_t d = 0;
        while (d < got.size() && d < want[s].size() && got[d] == want[s][d]) ++d;
        VF_CHECK(got == want[s], "not-printed", "of " << n << " entries those printed on " << (s ? "the error stream" : "the output") << " are others than expected, from " << show(got.substr(d, 20)) << " on instead of "
                     << show(want[s].substr(d, 20)));
        VF_CHECK(text[s].find("drop") == S::npos, "printed-too-much", "entries that the filter refuses");
    }
    Log::ClearConsumers();
    vf::count("steps", n);
    vf::count("printed", n);
}

// Long messages
void long_messages(vf::Rng& r)
{
    Gen g;
    BaseLogConfiguration c;
    Model m;
    LogFilter f;
    for (Kind k : KINDS)
    {
        Pattern p;
        do p = pattern(r); while (p.text == ".*");
        f[k].set_value(p.text);
        m.filter[k].first = p;
    }
    c.set(f);
    c.set(Fuzzy<VerbosityKind>(Kind::Info));
    m.verbosity = Kind::Info;
    Open o(&c);
    StdLogConsumer s(&c);
    for (int k = 0; k < 6; ++k)
    {
        Log::Entry e = g.entry(r);
        S filler(r.pick(std::vector<size_t>{4000, 4096, 40000, 65536, 300000}) + r.below(3), 'z');
        size_t cut = e.message.empty() ? 0 : r.below(e.message.size() + 1);
        e.message = e.message.substr(0, cut) + filler + e.message.substr(cut);
        bool want = m.accepts(e), got = o.accept_entry_(e);
        VF_CHECK(got == want, want ? "entry-dropped" : "entry-not-filtered", KN[e.kind] << " of category " << show(e.context.category) << " with a message of " << e.message.size()
                     << " characters was " << (got ? "accepted" : "refused") << " with " << m.str());
        Capture cap;
        s.Consume(e);
        S out = e.kind == Kind::Info ? cap.out.str() : cap.err.str();
        VF_CHECK(want == (out.find(e.message) != S::npos) && (want || out.empty()), "text-changed", "a message of " << e.message.size() << " characters was " << (want ? "accepted" : "refused") << ", printed are "
                     << out.size() << " characters");
        vf::count("steps", 2);
    }
    vf::seen("sequences", vf::hash_str(m.str()));
}
// The same with filters that repeat, in a process of its own: 0 refused, 1 accepted, -1 ended by a signal
int in_child(const S& filter, const S& message)
{
    BaseLogConfiguration c;
    LogFilter f;
    for (Kind k : KINDS) f[k].set_value(filter);
    c.set(f);
    Open o(&c);
    Log::Entry e;
    e.kind = Kind::Error;
    e.context = Log::Context{"file.cpp", 1, "function", "CAT"};
    e.message = message;
    pid_t p = fork();
    if (p == 0)
    {
        for (int sig : {SIGSEGV, SIGBUS, SIGABRT}) signal(sig, SIG_DFL);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        alarm(60);
        _exit(o.accept_entry_(e) ? 1 : 0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
void repeated(vf::Rng& r)
{
    struct C { S filter, message; int want; };
    for (size_t n : {(size_t)r.range(50, 200), (size_t)r.range(500, 1500), (size_t)300000})
    for (auto& c : std::vector<C>{{".*", S(n, 'a'), 1}, {"a+b", S(n, 'a') + "b", 1}, {"^a.*b$", "a" + S(n, 'c') + "b", 1}, {"^[a-y]*$", S(n, 'a') + "z", 0}})
    {
        int got = in_child(c.filter, c.message);
        if (got < 0 && n > 10000) vf::viol("known-long-message", "a message of " + std::to_string(n) + " characters and the filter '" + c.filter + "' end the process");
        else VF_CHECK(got == c.want, "long-message", "a message of " << n << " characters and the filter '" << c.filter << "': " << got << " instead of " << c.want);
        vf::count("steps");
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("configuration", 160, configuration);
    vf::batches("accept", 160, accept);
    vf::batches("direct", 160, direct);
    vf::batches("threaded", 300, threaded);
    vf::batches("long", 24, long_messages);
    vf::batches("many", 6, many, 120);
    if (vf::S().tool == "asan") vf::batches("repeated", 4, repeated, 200);
    return vf::finish();
}
