// P35: filewatch::FileWatch on directories and files of a scratch directory: what is reported against what was done.
#include <vf.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <system_error>
#include <FileWatch.hpp>

using Watch = filewatch::FileWatch<std::string>;
using filewatch::Event;
using S = std::string;
struct Ev
{
    S name;
    Event what;
    bool operator ==(const Ev& o) const { return name == o.name && what == o.what; }
};
const char* EVENTS[] = {"added", "removed", "modified", "renamed_old", "renamed_new"};
S str(const Ev& e) { return S(EVENTS[(int)e.what]) + " " + vf::show(e.name); }
S str(const std::vector<Ev>& v)
{
    S s;
    for (auto& e : v) s += (s.empty() ? "" : ", ") + str(e);
    return s;
}
// The kernel may merge events that are equal and follow one another
std::vector<Ev> merged(const std::vector<Ev>& v)
{
    std::vector<Ev> r;
    for (auto& e : v) if (r.empty() || !(r.back() == e)) r.push_back(e);
    return r;
}

S g_tmp;
S fresh_dir()
{
    static int n = 0;
    S d = g_tmp + "/w" + std::to_string(n++);
    mkdir(d.c_str(), 0755);
    return d;
}
void remove_dir(const S& d)
{
    if (DIR* p = opendir(d.c_str()))
    {
        while (dirent* e = readdir(p))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
            {
                S f = d + "/" + e->d_name;
                if (unlink(f.c_str())) remove_dir(f);
            }
        closedir(p);
    }
    rmdir(d.c_str());
}
int entries(const char* dir)
{
    int n = 0;
    if (DIR* p = opendir(dir))
    {
        while (readdir(p)) ++n;
        closedir(p);
    }
    return n;
}

// What was reported
struct Log
{
    std::mutex mx;
    std::vector<Ev> evs;
    std::atomic<int> inside{0};
    std::atomic<bool> dead{false};
    int throws = 0;                  // per cent
    int slow = 0;
    uint64_t seed = 0;
    std::function<void(const S&, const Event)> cb()
    {
        auto rng = std::make_shared<vf::Rng>(seed);
        return [this, rng](const S& f, const Event e)
               {
                   VF_CHECK(!dead, "run-after-destruction", "callback after the watch was destroyed");
                   VF_CHECK(inside.fetch_add(1) == 0, "overlap", "two callbacks at once");
                   vf_sched_point(1);
                   if (slow && rng->chance(slow)) vf::sleep_us((unsigned)rng->below(1500));
                   {
                       std::lock_guard<std::mutex> l(mx);
                       evs.push_back({f, e});
                   }
                   inside.fetch_sub(1);
                   vf::count("steps");
                   if (throws && rng->chance(throws)) throw std::runtime_error("of the callback");
               };
    }
    std::vector<Ev> all()
    {
        std::lock_guard<std::mutex> l(mx);
        return evs;
    }
    bool has(const Ev& e)
    {
        std::lock_guard<std::mutex> l(mx);
        return !evs.empty() && evs.back() == e;
    }
};

// Patterns, and names they match, by other means
struct Pattern { S regex; std::function<bool(const S&)> match; };
bool ends(const S& s, const S& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
const std::vector<Pattern> PATTERNS = {
    {".*", [](const S&) { return true; }},
    {".*\\.txt", [](const S& s) { return ends(s, ".txt"); }},
    {"a.*", [](const S& s) { return s[0] == 'a'; }},
    {"a\\.txt", [](const S& s) { return s == "a.txt"; }},
    {"a", [](const S& s) { return s == "a"; }},
    {"[ab]+", [](const S& s) { return s.find_first_not_of("ab") == S::npos; }},
    {S(220, 'a') + "\\.txt", [](const S& s) { return s == S(220, 'a') + ".txt"; }},
    {"n*b", [](const S& s) { return !s.empty() && s.find_first_not_of('n') == s.size() - 1 && s.back() == 'b'; }},
    {"a*", [](const S& s) { return s.find_first_not_of('a') == S::npos; }},
    {"nothing", [](const S&) { return false; }},
    {"(a|b)\\..*", [](const S& s) { return s.size() > 1 && (s[0] == 'a' || s[0] == 'b') && s[1] == '.'; }},
};
const std::vector<S> NAMES = {"a.txt", "b.txt", "a", "b", "ab", "a.txt2", "xa.txt", ".hidden", "with space", "a.*", "a+", "\xc3\xb1.txt", "[ab]+", "A.TXT", S(255, 'n'), S(200, 'a'), S(220, 'a') + ".txt", S(220, 'a') + ".cfg", S(254, 'n') + "b", S(230, 'n') + ".txt", S(250, 'a') + "b", S(255, 'a'), S(254, 'a') + "n", "b.cfg", "a.d", "a(", "*b", "{1}"};

// Something done in the directory; adds what must be reported
void act(vf::Rng& r, const S& d, const S& name, std::map<S, int>& files, std::vector<Ev>& want)
{
    S f = d + "/" + name;
    int& size = files.emplace(name, -1).first->second;               // -2: a directory
    auto write_to = [&](int flags)
    {
        int fd = open(f.c_str(), O_WRONLY | O_CLOEXEC | flags, 0644);
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            if (write(fd, "text", 4) != 4) abort();
            want.push_back({name, Event::modified});
            size += 4;
        }
        close(fd);
    };
    if (size == -1)
    {
        if (r.chance(15))
        {
            if (mkdir(f.c_str(), 0755)) abort();
            size = -2;
            want.push_back({name, Event::added});
            return;
        }
        int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
        if (fd < 0) abort();
        close(fd);
        size = 0;
        want.push_back({name, Event::added});
        if (r.chance(60)) write_to(O_APPEND);
    }
    else if (size == -2)
    {
        if (r.chance(50))
        {
            S in = f + "/a.txt";                                     // inside: not reported
            int fd = open(in.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
            close(fd);
            unlink(in.c_str());
            return;
        }
        if (rmdir(f.c_str())) abort();
        size = -1;
        want.push_back({name, Event::removed});
    }
    else switch (r.below(6))
        {
            case 0:
                if (unlink(f.c_str())) abort();
                size = -1;
                want.push_back({name, Event::removed});
                break;
            case 1:
                if (size > 0)
                {
                    size = (int)r.below(size);
                    if (truncate(f.c_str(), size)) abort();
                    want.push_back({name, Event::modified});
                }
                break;
            case 2:                                                  // reading and looking are not changes
            {
                int fd = open(f.c_str(), O_RDONLY | O_CLOEXEC);
                char c;
                if (read(fd, &c, 1) < 0) abort();
                close(fd);
                chmod(f.c_str(), r.chance(50) ? 0600 : 0644);
                break;
            }
            default: write_to(O_APPEND);
        }
}

// Compares, once the last event done is reported
void compare(Log& log, const std::vector<Ev>& want, const S& what, bool flush_ok)
{
    auto got = log.all();
    if (!flush_ok)
    {
        vf::viol("slow-missed", what + ": the last of " + str(merged(want)).substr(0, 1500) + " was not reported, but " + str(merged(got)).substr(0, 1500));
        return;
    }
    auto g = merged(got), w = merged(want);
    VF_CHECK(g == w, "events", what << ": reported " << str(g).substr(0, 2000) << " instead of " << str(w).substr(0, 2000));
    VF_CHECK(got.size() <= want.size(), "repeated", what << ": " << got.size() << " reports of " << want.size() << " changes");
    vf::count("reports", got.size());
}

// Does something that is reported last, and waits for it
bool flush(const S& d, const S& name, std::vector<Ev>& want, Log& log)
{
    S f = d + "/" + name;
    struct stat st;
    bool there = stat(f.c_str(), &st) == 0;
    if (there)
    {
        unlink(f.c_str());
        want.push_back({name, Event::removed});
    }
    else
    {
        close(open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
        want.push_back({name, Event::added});
    }
    Ev last = want.back();
    return vf::eventually([&]{ return log.has(last); }, 5000);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    g_tmp = getenv("VF_TMP") ? getenv("VF_TMP") : ".";

    // Everything that happens in a directory, through a pattern
    vf::explore("directory", vf::Opt().b(20).r(120).p(30).mi(40), [&](vf::Exec& e)
            {
                S d = fresh_dir();
                std::map<S, int> files;
                std::vector<Ev> done;
                for (size_t n = e.rng.below(4); n--;) act(e.rng, d, e.rng.pick(NAMES), files, done);     // before: not reported
                done.clear();
                int fds = entries("/proc/self/fd"), ths = entries("/proc/self/task");
                const Pattern& p = e.rng.pick(PATTERNS);
                bool all = e.rng.chance(30);
                Log log;
                log.seed = e.rng.next();
                if (e.rng.chance(30)) log.throws = 30;
                if (e.rng.chance(30)) log.slow = 40;
                std::vector<Ev> want;
                S what = all ? S("everything") : "pattern " + p.regex;
                {
                    S path = d + (e.rng.chance(30) ? "/" : "");
                    std::unique_ptr<Watch> w;
                    if (all) w = std::make_unique<Watch>(path, log.cb());
                    else w = std::make_unique<Watch>(path, std::regex("(" + p.regex + ")|the_end"), log.cb());
                    auto filter = [&]
                    {
                        want.clear();
                        for (auto& x : done) if (all || x.name == "the_end" || p.match(x.name)) want.push_back(x);
                    };
                    std::vector<S> some;
                    for (size_t n = 1 + e.rng.below(5); n--;) some.push_back(e.rng.pick(NAMES));
                    for (size_t round = 1 + e.rng.below(2); round--;)
                    {
                        for (size_t n = e.rng.below(e.rng.chance(10) ? 200 : 12); n--;)
                        {
                            act(e.rng, d, e.rng.pick(some), files, done);
                            if (e.rng.chance(20)) vf::sleep_us((unsigned)e.rng.below(300));
                            if (e.rng.chance(3)) vf::interrupt_threads();
                        }
                        if (e.rng.chance(20)) vf::interrupt_threads();
                        bool ok = flush(d, "the_end", done, log);
                        filter();
                        compare(log, want, what, ok);
                        if (!ok) break;
                    }
                    if (e.rng.chance(50)) act(e.rng, d, e.rng.pick(some), files, done);      // may be reported or not
                    w.reset();
                    VF_CHECK(log.inside == 0, "run-after-destruction", "a callback goes on after the destruction");
                    log.dead = true;
                }
                if (e.rng.chance(50)) act(e.rng, d, e.rng.pick(NAMES), files, done);
                VF_CHECK(entries("/proc/self/fd") == fds, "fd-leak", entries("/proc/self/fd") - fds << " file descriptors left");
                VF_CHECK(vf::eventually([&]{ return entries("/proc/self/task") <= ths; }, 4000), "slow-thread-leak", "");
                remove_dir(d);
                vf::seen("sequences", vf::hash_str(what + str(merged(want))));
                vf::sample(what + ": " + str(merged(want)).substr(0, 300));
            });

    // One file, by paths of all forms; its name is not a pattern
    vf::batches("file", 60, [&](vf::Rng& r)
            {
                S d = fresh_dir();
                if (chdir(d.c_str())) abort();
                mkdir((d + "/sub").c_str(), 0755);
                std::vector<S> names;
                for (auto& n : NAMES) if (n != "the_end") names.push_back(n);
                S name = r.pick(names);
                std::vector<S> forms = {d + "/" + name, "./" + name, name, d + "/sub/../" + name, d + "//" + name};
                S path = r.pick(forms);
                std::map<S, int> files;
                std::vector<Ev> done;
                close(open((d + "/" + name).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
                files[name] = 0;
                Log log;
                log.seed = r.next();
                if (r.chance(30)) log.throws = 30;
                if (r.chance(30)) log.slow = 30;
                {
                    std::unique_ptr<Watch> w;
                    bool pattern = r.chance(30);                         // of no use for one file
                    if (pattern) w = std::make_unique<Watch>(path, std::regex("nothing"), log.cb());
                    else w = std::make_unique<Watch>(path, log.cb());
                    std::vector<Ev> want;
                    for (size_t round = 1 + r.below(3); round--;)
                    {
                        for (size_t n = r.below(15); n--;) act(r, d, r.chance(50) ? name : r.pick(names), files, done);
                        // ends with something on the file itself
                        int size = files[name];
                        S f = d + "/" + name;
                        if (size == -1)
                        {
                            close(open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
                            done.push_back({name, Event::added});
                            files[name] = 0;
                        }
                        else
                        {
                            if (size == -2) rmdir(f.c_str());
                            else unlink(f.c_str());
                            done.push_back({name, Event::removed});
                            files[name] = -1;
                        }
                        want.clear();
                        for (auto& x : done) if (x.name == name) want.push_back(x);
                        size_t distinct = merged(want).size();
                        bool ok = vf::eventually([&]{ return merged(log.all()).size() >= distinct && log.has(want.back()); }, 5000);
                        compare(log, want, "file " + vf::show(path), ok);
                        if (!ok) break;
                    }
                    vf::seen("sequences", vf::hash_str(path + str(merged(want))));
                }
                log.dead = true;
                if (chdir(g_tmp.c_str())) abort();
                remove_dir(d);
            }, 30);

    // A copy watches the same as the original, and each reports on its own
    vf::batches("copies", 60, [&](vf::Rng& r)
            {
                S d = fresh_dir();
                std::map<S, int> files;
                std::vector<Ev> done;
                const Pattern& p = r.pick(PATTERNS);
                bool all = r.chance(20), one = r.chance(30);
                Log log;                                                // the callback is copied: both report here
                log.seed = r.next();
                S name = r.pick(NAMES), path = d;
                std::unique_ptr<Watch> w, c;
                std::mutex mx;
                std::map<std::thread::id, std::vector<Ev>> by_thread;
                auto cb = [&](const S& f, const Event e)
                        {
                            std::lock_guard<std::mutex> l(mx);
                            by_thread[std::this_thread::get_id()].push_back({f, e});
                            vf::count("steps");
                        };
                if (one)
                {
                    path = d + "/" + name;
                    close(open(path.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
                    files[name] = 0;
                }
                if (all || one) w = std::make_unique<Watch>(path, cb);
                else w = std::make_unique<Watch>(path, std::regex("(" + p.regex + ")|the_end"), cb);
                c = std::make_unique<Watch>(*w);
                bool alone = r.chance(50);
                if (alone) w.reset();
                for (size_t n = r.below(15); n--;) act(r, d, r.chance(one ? 50 : 0) ? name : r.pick(NAMES), files, done);
                S last = one ? name : S("the_end");
                S f = d + "/" + last;
                if (one && files[name] != -1)
                {
                    if (files[name] == -2) rmdir(f.c_str());
                    else unlink(f.c_str());
                    done.push_back({last, Event::removed});
                }
                else
                {
                    close(open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
                    done.push_back({last, Event::added});
                }
                std::vector<Ev> want;
                for (auto& x : done) if (one ? x.name == name : all || x.name == "the_end" || p.match(x.name)) want.push_back(x);
                auto w2 = merged(want);
                size_t watches = alone ? 1 : 2;
                bool ok = vf::eventually([&]
                        {
                            std::lock_guard<std::mutex> l(mx);
                            size_t n = 0;
                            for (auto& x : by_thread) if (x.second.back() == want.back() && merged(x.second).size() >= w2.size()) ++n;
                            return n >= watches;
                        }, 5000);
                S what = "copy of a watch on " + (one ? "file " + vf::show(name) : all ? S("everything") : "pattern " + p.regex) + (alone ? " that is gone" : "");
                {
                    std::lock_guard<std::mutex> l(mx);
                    VF_CHECK(ok, "slow-missed", what << ": the last of " << str(w2).substr(0, 1500) << " was not reported");
                    for (auto& x : by_thread)
                        if (ok) VF_CHECK(merged(x.second) == w2, "events", what << ": reported " << str(merged(x.second)).substr(0, 1500) << " instead of " << str(w2).substr(0, 1500));
                    VF_CHECK(by_thread.size() <= watches, "repeated", what << ": " << by_thread.size() << " report");
                }
                w.reset();
                c.reset();
                vf::seen("sequences", vf::hash_str(what + str(w2)));
                remove_dir(d);
            }, 30);

    // What cannot be watched is refused, and leaves nothing behind
    // Many changes in quick succession
    vf::batches("flood", 6, [&](vf::Rng& r)
            {
                S d = fresh_dir();
                std::vector<Ev> want;
                Log log;
                log.seed = r.next();
                size_t n = (size_t)r.range(50, 3000);
                int fd[3];
                S name[3] = {"a", "b" + S(r.below(200), 'n'), "c.txt"};
                for (int i = 0; i < 3; ++i) fd[i] = open((d + "/" + name[i]).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
                {
                    Watch w(d, log.cb());
                    int last = -1;
                    for (size_t i = 0; i < n; ++i)
                    {
                        int k = (int)r.below(3);
                        if (k == last) k = (k + 1) % 3;
                        last = k;
                        if (write(fd[k], "x", 1) != 1) abort();
                        want.push_back({name[k], Event::modified});
                    }
                    bool ok = vf::eventually([&]{ return log.all().size() >= n; }, 8000);
                    std::vector<Ev> got = log.all();
                    size_t i = 0;
                    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
                    VF_CHECK(got == want, ok ? "reports" : "slow-reports", got.size() << " reports of " << n << " changes in quick succession, they differ from number " << i << " on");
                }
                log.dead = true;
                for (int x : fd) close(x);
                remove_dir(d);
            }, 30);
    vf::batches("refused", 20, [&](vf::Rng& r)
            {
                S d = fresh_dir();
                int fds = entries("/proc/self/fd"), ths = entries("/proc/self/task");
                for (int i = 0; i < 30; ++i)
                {
                    std::vector<S> paths = {d + "/missing", d + "/missing/file", "", d + "/" + S(300, 'x'), d + "/missing/"};
                    S path = r.pick(paths);
                    bool thrown = false;
                    try
                    {
                        Watch w(path, [](const S&, const Event) {});
                    }
                    catch (const std::system_error& x)
                    {
                        thrown = true;
                        VF_CHECK(x.code().value() == ENOENT || x.code().value() == ENAMETOOLONG, "refused", vf::show(path) << " refused with " << x.what());
                    }
                    VF_CHECK(thrown, "refused", vf::show(path) << " was not refused");
                    vf::count("steps");
                }
                VF_CHECK(entries("/proc/self/fd") == fds, "fd-leak", entries("/proc/self/fd") - fds << " file descriptors left by refused watches");
                VF_CHECK(vf::eventually([&]{ return entries("/proc/self/task") <= ths; }, 4000), "slow-thread-leak", "");
                // and without a callback nothing happens
                {
                    Watch w(d, nullptr);
                    close(open((d + "/x").c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644));
                    if (r.chance(50)) vf::sleep_us(500);
                }
                remove_dir(d);
            });

    // Watches made and destroyed while things happen
    vf::explore("churn", vf::Opt().b(15).r(60).p(30).mi(50), [&](vf::Exec& e)
            {
                S d = fresh_dir();
                std::atomic<bool> stop{false};
                uint64_t sd = e.rng.next();
                e.par({[&]
                       {
                           vf::Rng r(sd);
                           std::map<S, int> files;
                           std::vector<Ev> done;
                           while (!stop)
                           {
                               act(r, d, r.pick(NAMES), files, done);
                               vf::sleep_us(20);
                           }
                       },
                       [&]
                       {
                           vf::Rng r(sd + 1);
                           for (int i = 0; i < 3; ++i)
                           {
                               Log log;
                               log.seed = r.next();
                               {
                                   Watch w(d, log.cb());
                                   if (r.chance(60)) vf::sleep_us((unsigned)r.below(400));
                               }
                               VF_CHECK(log.inside == 0, "run-after-destruction", "");
                               log.dead = true;
                           }
                           stop = true;
                       }});
                remove_dir(d);
            });
    return vf::finish();
}
