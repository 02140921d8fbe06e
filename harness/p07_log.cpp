// P07: log handlers and the log checker over the (stand-in) logging thread. A recording consumer gives the reference order.
#include <vf.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/testing/LogChecker.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;

struct Rec
{
    std::string message, category, function, file;
    int line = 0, kind = 0;
    bool operator ==(const Rec& o) const
    {
        return message == o.message && category == o.category && function == o.function && file == o.file && line == o.line && kind == o.kind;
    }
};
Rec rec(const Log::Entry& e)
{
    return {e.message, e.context.category ? e.context.category : "", e.context.function ? e.context.function : "",
            e.context.filename ? e.context.filename : "", e.context.line, (int)e.kind};
}
struct Recorder : LogConsumer
{
    std::vector<Rec>* to;
    explicit Recorder(std::vector<Rec>* t) : to(t) {}
    void Consume(const Log::Entry& e) override { to->push_back(rec(e)); }
};

struct Mon
{
    int threshold;
    std::atomic<int> enabled{1}, inside{0};
    std::vector<Rec> got;                     // only the log thread writes, under the handler's own protection
    std::unique_ptr<std::string> data{new std::string("freed after the log handler was destroyed")};
    explicit Mon(int t) : threshold(t) {}
    std::function<void(Log::Entry)> cb()
    {
        std::string mine = "captured by the callback of the log handler";
        return [this, mine](Log::Entry e)
               {
                   VF_CHECK(enabled == 1, "run-while-disabled", "callback ran after unset or destruction had returned: " << e.message);
                   VF_CHECK(inside.fetch_add(1) == 0, "overlap", "");
                   VF_CHECK(data->size() > 5 && mine.size() > 5, "data", "");
                   VF_CHECK((int)e.kind <= threshold, "below-threshold", "entry of kind " << (int)e.kind << " reached a handler of threshold " << threshold);
                   vf_sched_point(1);
                   got.push_back(rec(e));
                   inside.fetch_sub(1);
                   vf::count("steps");
               };
    }
    void off()
    {
        VF_CHECK(inside == 0, "unset-during-run", "");
        enabled = 0;
    }
    // The entries are a contiguous part of what was consumed
    void judge(const std::vector<Rec>& all, const std::vector<std::string>& must)
    {
        std::vector<Rec> f;
        for (auto& r : all) if (r.kind <= threshold) f.push_back(r);
        if (!got.empty())
        {
            if (std::search(f.begin(), f.end(), got.begin(), got.end()) == f.end())
            {
                std::string s;
                for (auto& g : got) s += g.message + "/" + std::to_string(g.kind) + " ";
                s += " of ";
                for (auto& g : f) s += g.message + "/" + std::to_string(g.kind) + " ";
                vf::viol("order", "entries passed on differ from the entries consumed: " + s);
            }
        }
        for (auto& m : must)
        {
            long n = std::count_if(got.begin(), got.end(), [&](const Rec& r) { return r.message == m; });
            VF_CHECK(n == 1, "missed", "entry " << m << " logged during the life of the handler was passed on " << n << " times");
        }
    }
};

const char* CATS[] = {"VF_ONE", "VF_TWO", "VF_THREE", ""};
void log(const std::string& msg, int kind, int k)
{
    Log::QueueLog(msg, Log::Context{k % 3 ? "file.cpp" : nullptr, k * 7, k % 2 ? "function" : nullptr, CATS[k & 3]}, (Log::Kind)kind);
}

struct Session
{
    std::vector<Rec> all;
    Session()
    {
        Log::Reset();
        Log::SetVerbosity(Log::Kind::Info);
        Log::RegisterConsumer(std::make_unique<Recorder>(&all));
    }
    ~Session()
    {
        Log::Flush();
        Log::ClearConsumers();
        Log::Reset();
    }
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    for (int severe = 0; severe < 2; ++severe)
    vf::explore(severe ? "life-severe" : "life", vf::Opt().b(40).r(200).p(100).mi(150), [severe](vf::Exec& e)
            {
                std::vector<std::unique_ptr<Mon>> mons;
                std::vector<std::vector<std::string>> musts;
                Session s;
                uint64_t sd = e.rng.next();
                auto logger = [&](int k)
                        {
                            return [&, k]
                                   {
                                       vf::Rng r(sd + k);
                                       for (int i = 0; i < 12; ++i)
                                       {
                                           log("t" + std::to_string(k) + "-" + std::to_string(i), (int)r.below(3), (int)r.below(8));
                                           if (r.chance(40)) vf::sleep_us((unsigned)r.below(60));
                                       }
                                   };
                        };
                auto life = [&]
                        {
                            vf::Rng r(sd + 9);
                            for (int i = 0; i < 3; ++i)
                            {
                                int thr = severe ? (int)r.below(3) : 2;
                                mons.push_back(std::make_unique<Mon>(thr));
                                Mon& m = *mons.back();
                                musts.emplace_back();
                                std::unique_ptr<LogEventHandler> h;
                                if (severe) h = std::make_unique<LogSevereEventHandler>(m.cb(), (Log::Kind)thr);
                                else if (r.chance(50)) h = std::make_unique<LogEventHandler>(m.cb());
                                else
                                {
                                    h = std::make_unique<LogEventHandler>();
                                    h->set_callback(m.cb());
                                }
                                if (r.chance(60))
                                {
                                    for (int k = 0; k <= thr; ++k)
                                    {
                                        musts.back().push_back("own" + std::to_string(i) + "-" + std::to_string(k));
                                        log(musts.back().back(), k, k);
                                    }
                                    Log::Flush();
                                    if (r.chance(50)) log("last" + std::to_string(i), (int)r.below(3), 1);
                                }
                                if (r.chance(40)) vf::sleep_us((unsigned)r.below(100));
                                if (r.chance(20))
                                {
                                    h->unset_callback();
                                    m.off();
                                    uint32_t n = h->event_count();
                                    VF_CHECK(n == m.got.size(), "count", "event_count " << n << " of " << m.got.size());
                                }
                                h.reset();
                                m.off();
                                m.data.reset();
                            }
                        };
                e.par({logger(1), logger(2), life});
                Log::Flush();
                for (size_t i = 0; i < mons.size(); ++i) mons[i]->judge(s.all, musts[i]);
                long mine = std::count_if(s.all.begin(), s.all.end(), [](const Rec& r) { return r.message[0] == 't' && r.message.find('-') != std::string::npos; });
                VF_CHECK(mine == 24, "harness", "recorded " << mine);
                vf::count("entries", s.all.size());
            });

    // A waiter on a log handler
    vf::explore("wait", vf::Opt().b(20).r(100).p(60).mi(60), [](vf::Exec& e)
            {
                Session s;
                Mon m(2);
                {
                    LogEventHandler h(m.cb());
                    int n = (int)e.rng.range(1, 3);
                    e.par({[&]{ VF_CHECK(h.wait_for_event(n), "wait", ""); },
                           [&]{ for (int i = 0; i < 3; ++i) log("w" + std::to_string(i), i, i); }});
                    Log::Flush();
                    VF_CHECK(h.event_count() == 3 && m.got.size() == 3, "count", h.event_count());
                }
                m.off();
            });

    // Very many entries, and very long ones
    vf::batches("many", 6, [](vf::Rng& r)
            {
                Session s;
                Mon m[3] = {Mon(2), Mon((int)r.below(3)), Mon(2)};
                const int n = (int)r.range(4000, 20000);
                int per_kind[3] = {};
                {
                    LogEventHandler all(m[0].cb());
                    LogSevereEventHandler severe(m[1].cb(), (Log::Kind)m[1].threshold);
                    // one of no previous entries
                    std::unique_ptr<LogEventHandler> late;
                    std::unique_ptr<testing::LogChecker> checkers[3];
                    for (int i = 0; i < 3; ++i) checkers[i] = std::make_unique<testing::LogChecker>((Log::Kind)i, n / 3, i == 2 ? n : n - 1);
                    size_t at = r.below(n);
                    for (int i = 0; i < n; ++i)
                    {
                        int kind = i % 3 == 0 ? (int)r.below(3) : 2;
                        ++per_kind[kind];
                        if ((size_t)i == at)
                        {
                            Log::Flush();
                            late.reset(new LogEventHandler(m[2].cb()));
                        }
                        log(r.chance(1) && r.chance(20) ? std::string(r.range(3000, 200000), 'm') + std::to_string(i) : "m" + std::to_string(i), kind, i);
                        if (r.chance(1)) Log::Flush();
                    }
                    Log::Flush();
                    VF_CHECK((int)s.all.size() == n, "harness", "");
                    std::vector<Rec> f;
                    for (auto& x : s.all) if (x.kind <= m[1].threshold) f.push_back(x);
                    VF_CHECK(m[0].got == s.all, "missed", "handler passed on " << m[0].got.size() << " entries of " << s.all.size());
                    VF_CHECK(m[1].got == f, "missed", "handler of threshold " << m[1].threshold << " passed on " << m[1].got.size() << " entries of " << f.size());
                    VF_CHECK(m[2].got == std::vector<Rec>(s.all.begin() + at, s.all.end()), "missed", "late handler passed on " << m[2].got.size() << " entries of " << s.all.size() - at);
                    VF_CHECK(all.event_count() == s.all.size() && severe.event_count() == f.size(), "count", all.event_count() << " and " << severe.event_count());
                    int sum = 0;
                    for (int i = 0; i < 3; ++i)
                    {
                        sum += per_kind[i];
                        bool want = sum >= n / 3 && sum <= (i == 2 ? n : n - 1);
                        VF_CHECK(checkers[i]->check_valid() == want, "checker", "threshold " << i << ", " << sum << " entries of " << n << ": " << !want);
                    }
                    vf::count("entries", n);
                }
                for (auto& x : m) x.off();
            }, 60);

    // Log checker with entries from several threads
    vf::explore("checker", vf::Opt().b(20).r(100).p(40).mi(50), [](vf::Exec& e)
            {
                Session s;
                int thr = (int)e.rng.below(3);
                unsigned min = (unsigned)e.rng.below(6), max = (unsigned)e.rng.below(9);
                auto c = std::make_unique<testing::LogChecker>((Log::Kind)thr, min, max);
                uint64_t sd = e.rng.next();
                std::atomic<unsigned> n{0};
                auto logger = [&](int k)
                        {
                            return [&, k]
                                   {
                                       vf::Rng r(sd + k);
                                       int times = (int)r.below(4);
                                       for (int i = 0; i < times; ++i)
                                       {
                                           int kind = (int)r.below(3);
                                           if (kind <= thr) n.fetch_add(1);
                                           log("c", kind, i);
                                       }
                                   };
                        };
                e.par({logger(1), logger(2), logger(3)});
                bool want = n >= min && n <= std::max(min, max);
                VF_CHECK(c->check_valid() == want, "checker", "threshold " << thr << " limits " << min << "-" << max << " entries " << n << ": " << !want);
                VF_CHECK(c->check_valid() == want, "checker", "second answer differs");
                if (n < std::max(min, max))
                {
                    log("one more", thr, 1);
                    bool w2 = n + 1 >= min;
                    VF_CHECK(c->check_valid() == w2, "checker", "after one more");
                }
            });

    // Sequential: several handlers with several thresholds, set and unset, library macros, exact contents
    vf::batches("sequential", 30, [](vf::Rng& r)
            {
                for (int c = 0; c < 8; ++c)
                {
                    Session s;
                    const int N = 4;
                    std::unique_ptr<Mon> ms[N];
                    std::unique_ptr<LogEventHandler> hs[N];
                    std::vector<Rec> want[N];
                    for (int i = 0; i < N; ++i)
                    {
                        int thr = i == 0 ? 2 : (int)r.below(3);
                        ms[i] = std::make_unique<Mon>(thr);
                        if (i == 0) hs[i] = std::make_unique<LogEventHandler>(ms[i]->cb());
                        else hs[i] = std::make_unique<LogSevereEventHandler>(ms[i]->cb(), (Log::Kind)thr);
                        if (i && thr > 0)
                            VF_CHECK(Log::GetVerbosity() >= thr, "verbosity", "the logging system drops entries that the handler of threshold " << thr << " has to see");
                    }
                    uint64_t h = 0;
                    size_t seen = 0;
                    for (int step = 0; step < 30; ++step)
                    {
                        int k = (int)r.below(10);
                        int i = (int)r.below(N);
                        h = vf::mix(h ^ (k * 10 + i));
                        if (k == 0 && hs[i])
                        {
                            hs[i]->unset_callback();
                            ms[i]->off();
                            Log::Flush();
                            seen = s.all.size();      // unsetting twice logs a warning
                            for (int j = 0; j < N; ++j) if (hs[j]) want[j] = ms[j]->got;
                        }
                        else if (k == 1 && hs[i])
                        {
                            ms[i]->enabled = 1;
                            hs[i]->set_callback(ms[i]->cb());
                        }
                        else if (k == 2 && hs[i] && r.chance(20))
                        {
                            hs[i].reset();
                            ms[i]->off();
                            Log::Flush();
                            seen = s.all.size();
                            for (int j = 0; j < N; ++j) if (hs[j]) want[j] = ms[j]->got;
                        }
                        else
                        {
                            std::string m = "message " + r.bytes(r.below(5)) + std::to_string(step);
                            int kind = (int)r.below(3);
                            if (r.chance(30)) { Log::SetVerbosity(Log::Kind::Info); logError(VF_MACRO, m); kind = 0; }
                            else if (r.chance(30)) { Log::SetVerbosity(Log::Kind::Info); logWarning(VF_MACRO, m); kind = 1; }
                            else log(m, kind, k);
                            Log::Flush();
                            for (; seen < s.all.size(); ++seen)
                                for (int j = 0; j < N; ++j)
                                    if (hs[j] && ms[j]->enabled && s.all[seen].kind <= ms[j]->threshold) want[j].push_back(s.all[seen]);
                            VF_CHECK(!s.all.empty() && s.all.back().message == m && s.all.back().kind == kind, "harness", "not recorded");
                        }
                        for (int j = 0; j < N; ++j)
                            VF_CHECK(ms[j]->got == want[j], "sequential", "handler " << j << " of threshold " << ms[j]->threshold << " has " << ms[j]->got.size() << " entries instead of " << want[j].size());
                        vf::count("steps");
                    }
                    vf::seen("sequences", h);
                    for (auto& x : hs) x.reset();
                    Log::Flush();
                }
            });
    Log::KillThread();
    return vf::finish();
}
