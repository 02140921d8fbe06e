// P08: FileWatcherHandler on files of a scratch directory.
#include <vf.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <cpp_utils/event/FileWatcherHandler.hpp>

using namespace eprosima::utils::event;

std::string g_tmp;

struct Mon
{
    std::string name;                        // what the callback must get
    std::atomic<int> runs{0}, enabled{1}, inside{0};
    std::atomic<int> upper{0};               // modifications made so far: callbacks may not be more
    std::unique_ptr<std::string> data{new std::string("freed after the watcher was destroyed")};
    std::function<void(std::string)> cb()
    {
        std::string mine = "captured by the callback of the file watcher";
        return [this, mine](std::string p)
               {
                   VF_CHECK(enabled == 1, "run-while-disabled", "callback before being set or after unset or destruction returned");
                   VF_CHECK(inside.fetch_add(1) == 0, "overlap", "");
                   VF_CHECK(p == name, "wrong-file", "callback with " << vf::show(p) << " while watching " << vf::show(name));
                   VF_CHECK(data->size() > 5 && mine.size() > 5, "data", "");
                   vf_sched_point(1);
                   int r = runs.fetch_add(1) + 1;
                   VF_CHECK(r <= upper, "spurious", r << " callbacks after " << upper << " modifications");
                   inside.fetch_sub(1);
                   vf::count("steps");
               };
    }
    void off()
    {
        VF_CHECK(inside == 0, "unset-during-run", "");
        enabled = 0;
    }
};

std::string fresh_dir()
{
    static int n = 0;
    std::string d = g_tmp + "/d" + std::to_string(n++);
    mkdir(d.c_str(), 0755);
    return d;
}
void put(const std::string& f, const std::string& content, int flags = O_TRUNC)
{
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | flags, 0644);
    if (fd < 0 || (!content.empty() && write(fd, content.data(), content.size()) < 0)) abort();
    close(fd);
}
void remove_dir(const std::string& d)
{
    if (DIR* p = opendir(d.c_str()))
    {
        while (dirent* e = readdir(p))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((d + "/" + e->d_name).c_str());
        closedir(p);
    }
    rmdir(d.c_str());
}
int entries(const char* dir)
{
    int n = 0;
    if (DIR* p = opendir(dir))
    {
        while (readdir(p)) ++n;
        closedir(p);
    }
    return n;
}
// Modifies the watched file in one of several ways; returns the most events it can make
int modify(const std::string& f, vf::Rng& r)
{
    switch (r.below(6))
    {
        case 5:
        {
            // another file takes its place before the change (which the watcher cannot see), as editors do
            std::string g = f + ".new~";
            put(g, "prepared");
            if (r.chance(50)) unlink(f.c_str());
            if (rename(g.c_str(), f.c_str())) abort();
            put(f, "appended\n", O_APPEND);
            return 1;
        }
        case 0: put(f, "rewritten " + std::to_string(r.below(1000)), O_TRUNC); return 2;
        case 1: put(f, "appended\n", O_APPEND); return 1;
        case 2: put(f, "inplace", 0); return 1;
        case 3: if (truncate(f.c_str(), (off_t)r.below(5))) abort(); return 1;
        default:
        {
            // several writes through a descriptor that stays open for a while
            int fd = open(f.c_str(), O_WRONLY | O_CLOEXEC);
            if (write(fd, "one", 3) < 0) abort();
            vf::sleep_us((unsigned)r.below(100));
            if (write(fd, "two", 3) < 0) abort();
            close(fd);
            return 2;
        }
    }
}
int modify_counted(Mon& m, const std::string& f, vf::Rng& r)
{
    m.upper += 2;        // before, so that an early callback is not taken for a spurious one
    int n = modify(f, r);
    m.upper -= 2 - n;    // at most n
    return n;
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    g_tmp = getenv("VF_TMP") ? getenv("VF_TMP") : ".";
    const std::vector<std::string> names = {"watched.txt", "a", ".hidden", "with space.yaml", "UPPER.Lower"};
    const std::vector<std::string> others = {"watched.txt2", "watched.tx", "xwatched.txt", "b", "hidden", "with", "space.yaml", "upper.lower", ".*"};

    // Every modification is reported; other files are not; unset and destruction are prompt; nothing left behind
    vf::explore("report", vf::Opt().b(20).r(80).p(40).mi(50), [&](vf::Exec& e)
            {
                std::string d = fresh_dir();
                Mon m;
                m.name = e.rng.pick(names);
                std::string f = d + "/" + m.name;
                put(f, "initial content");
                int fds = entries("/proc/self/fd"), ths = entries("/proc/self/task");
                {
                    std::unique_ptr<FileWatcherHandler> h;
                    if (e.rng.chance(50)) h = std::make_unique<FileWatcherHandler>(m.cb(), f);
                    else
                    {
                        h = std::make_unique<FileWatcherHandler>(f);
                        h->set_callback(m.cb());
                    }
                    int n = (int)e.rng.range(0, 3);
                    for (int i = 0; i < n; ++i)
                    {
                        if (e.rng.chance(40)) put(d + "/" + e.rng.pick(others), "other");
                        int before = m.runs;
                        modify_counted(m, f, e.rng);
                        bool ok = vf::eventually([&]{ return m.runs > before; }, 5000);
                        VF_CHECK(ok, "slow-missed", "modification " << i << " of " << m.name << " was not reported");
                        if (!ok) break;
                        if (e.rng.chance(30))
                        {
                            h->unset_callback();
                            m.off();
                            int r = m.runs;
                            if (e.rng.chance(70)) modify(f, e.rng);
                            if (e.rng.chance(50)) vf::sleep_us(200);
                            VF_CHECK(m.runs == r, "run-while-disabled", "");
                            m.enabled = 1;
                            m.upper = r;
                            h->set_callback(m.cb());
                        }
                    }
                    if (e.rng.chance(50)) put(d + "/" + e.rng.pick(others), "other");
                    if (e.rng.chance(40)) { modify_counted(m, f, e.rng); }
                    if (e.rng.chance(30)) vf::sleep_us((unsigned)e.rng.below(500));
                    VF_CHECK(m.runs <= m.upper, "spurious", m.runs << " callbacks for " << m.upper << " modifications");
                    if (e.rng.chance(40))
                    {
                        h->unset_callback();
                        m.off();
                        VF_CHECK((int)h->event_count() == m.runs, "count", "event_count " << h->event_count() << " of " << m.runs);
                    }
                    h.reset();
                    m.off();
                    m.data.reset();
                }
                VF_CHECK(entries("/proc/self/fd") == fds, "fd-leak", entries("/proc/self/fd") - fds << " file descriptors left");
                VF_CHECK(vf::eventually([&]{ return entries("/proc/self/task") <= ths; }, 4000), "slow-thread-leak", entries("/proc/self/task") - ths << " threads left");
                remove_dir(d);
            });

    // Writers hammer the file and its neighbours while the handler is set, unset and destroyed
    vf::explore("hammer", vf::Opt().b(20).r(80).p(40).mi(60), [&](vf::Exec& e)
            {
                std::string d = fresh_dir();
                Mon m;
                m.name = names[0];
                m.upper = 1000000;
                m.enabled = 1;
                std::string f = d + "/" + m.name;
                put(f, "initial content");
                std::atomic<bool> stop{false};
                uint64_t sd = e.rng.next();
                auto writer = [&](int k)
                        {
                            return [&, k]
                                   {
                                       vf::Rng r(sd + k);
                                       while (!stop)
                                       {
                                           if (k == 0 || r.chance(30)) put(f, "x", O_APPEND);
                                           else put(d + "/" + r.pick(others), "y", O_APPEND);
                                           vf::sleep_us(30);
                                       }
                                   };
                        };
                e.par({writer(0), writer(1), [&]
                       {
                           vf::Rng r(sd + 7);
                           for (int i = 0; i < 3; ++i)
                           {
                               m.enabled = 1;
                               FileWatcherHandler h(m.cb(), f);
                               if (r.chance(50)) vf::sleep_us((unsigned)r.below(400));
                               if (r.chance(50)) { bool w = h.wait_for_event(1); VF_CHECK(w && h.event_count() >= 1, "wait", ""); }
                               if (r.chance(50))
                               {
                                   h.unset_callback();
                                   m.off();
                                   m.enabled = 1;
                                   h.set_callback(m.cb());
                               }
                           }
                           m.off();
                           stop = true;
                       }});
                remove_dir(d);
            });

    // The directory that is watched goes away, is made again, or was never there
    vf::batches("directory", 24, [&](vf::Rng& r)
            {
                std::string d = fresh_dir();
                Mon m;
                m.name = names[0];
                std::string f = d + "/" + m.name;
                int fds = entries("/proc/self/fd"), ths = entries("/proc/self/task");
                bool missing = r.chance(30);
                if (!missing) put(f, "initial");
                {
                    std::unique_ptr<FileWatcherHandler> h;
                    m.upper = 1000;
                    h = std::make_unique<FileWatcherHandler>(m.cb(), f);
                    if (!missing && r.chance(60)) remove_dir(d);     // the deletion may be reported or not
                    if (r.chance(50)) vf::sleep_us((unsigned)r.below(2000));
                    h->unset_callback();
                    m.off();
                    mkdir(d.c_str(), 0755);
                    put(f, "again");
                    m.enabled = 1;
                    h->set_callback(m.cb());
                    int before = m.runs;
                    if (r.chance(40)) vf::interrupt_threads();
                    put(f, "more", O_APPEND);
                    VF_CHECK(vf::eventually([&]{ return m.runs > before; }, 5000), "slow-missed", "not reported after being enabled again");
                    if (r.chance(50))
                    {
                        // replaced by a new file of the same name
                        unlink(f.c_str());
                        put(f, "new file");
                        int b = m.runs;
                        put(f, "modified", O_APPEND);
                        VF_CHECK(vf::eventually([&]{ return m.runs > b; }, 5000), "slow-missed", "not reported after the file was made again");
                    }
                }
                m.off();
                VF_CHECK(entries("/proc/self/fd") == fds, "fd-leak", entries("/proc/self/fd") - fds << " file descriptors left");
                VF_CHECK(vf::eventually([&]{ return entries("/proc/self/task") <= ths; }, 4000), "slow-thread-leak", "");
                remove_dir(d);
                vf::count("steps");
            }, 20);

    // Modifications while a callback is still running: each must be followed by a callback that starts after it,
    // whatever else happens in the directory meanwhile. Watched events that are apart from each other in the
    // directory (another file changed in between) are not merged by the kernel, so as many callbacks must follow.
    vf::batches("slow-callback", 60, [&](vf::Rng& r)
            {
                std::string d = fresh_dir();
                std::string name = r.pick(names), f = d + "/" + name;
                put(f, "initial content");
                std::mutex mx;
                std::condition_variable cv;
                bool hold = true;
                int started = 0, ended = 0;
                auto pause = [&]{ vf::sleep_us((unsigned)(r.chance(60) ? r.range(500, 3000) : r.below(300))); };
                {
                    FileWatcherHandler h([&](std::string p)
                            {
                                VF_CHECK(p == name, "wrong-file", vf::show(p));
                                std::unique_lock<std::mutex> l(mx);
                                ++started;
                                cv.notify_all();
                                cv.wait(l, [&]{ return !hold; });
                                ++ended;
                            }, f);
                    for (int round = 0, rounds = (int)r.range(1, 3); round < rounds; ++round)
                    {
                        int s0;
                        {
                            std::lock_guard<std::mutex> l(mx);
                            hold = true;
                            s0 = started;
                        }
                        put(f, "x", O_APPEND);
                        {
                            std::unique_lock<std::mutex> l(mx);
                            bool ok = cv.wait_for(l, std::chrono::seconds(10), [&]{ return started > s0; });
                            VF_CHECK(ok, "slow-missed", "first modification of the round was not reported");
                            s0 = started;
                            if (!ok) { hold = false; cv.notify_all(); break; }
                        }
                        // the callback is held: everything that happens now comes after its start
                        int apart = 0, most = 0;
                        bool fresh = true;           // the last event made was not one of the watched file
                        int n = (int)r.range(1, 8);
                        for (int i = 0; i < n; ++i)
                        {
                            if (r.chance(55))
                            {
                                int most_here = modify(f, r);
                                most += most_here;
                                if (fresh) { ++apart; fresh = false; }
                            }
                            else
                            {
                                std::string o = d + "/" + r.pick(others);
                                if (r.chance(70)) put(o, "y", O_APPEND);
                                else unlink(o.c_str());
                                struct stat st;
                                // an event of another file for certain (the unlink may have found none)
                                if (stat(o.c_str(), &st) == 0) fresh = true;
                            }
                            pause();
                        }
                        if (most == 0) { modify(f, r); most = 2; apart = 1; pause(); }
                        if (r.chance(50)) { put(d + "/" + r.pick(others), "z", O_APPEND); pause(); }
                        {
                            std::lock_guard<std::mutex> l(mx);
                            VF_CHECK(started == s0, "overlap", "a callback started while another one was running");
                            hold = false;
                        }
                        cv.notify_all();
                        bool ok = vf::eventually([&]
                                {
                                    std::lock_guard<std::mutex> l(mx);
                                    return started - s0 >= apart && ended == started;
                                }, 6000);
                        std::unique_lock<std::mutex> l(mx);
                        VF_CHECK(ok, "slow-missed", started - s0 << " callbacks after " << apart << " separate modifications made while a callback ran");
                        // drain what may still come, so that the next round starts from rest
                        int seen = -1;
                        while (seen != started)
                        {
                            seen = started;
                            l.unlock();
                            vf::sleep_us(5000);
                            l.lock();
                        }
                        vf::seen("slow-callback", vf::hash_str(std::to_string(apart) + "/" + std::to_string(most) + "/" + std::to_string(n)));
                        vf::count("steps");
                    }
                    {
                        std::lock_guard<std::mutex> l(mx);
                        hold = false;
                    }
                    cv.notify_all();
                }
                remove_dir(d);
            }, 30);

    // Many changes at once, of the file and of another one in turn (equal events in a row are merged by the kernel, these are not)
    vf::batches("flood", 8, [&](vf::Rng& r)
            {
                std::string d = fresh_dir();
                Mon m;
                m.name = r.pick(names);
                std::string f = d + "/" + m.name, o = d + "/" + r.pick(others) + std::string(r.below(60), 'n');
                put(f, "initial content");
                put(o, "another");
                int n = (int)r.range(20, 1500);
                {
                    FileWatcherHandler h(m.cb(), f);
                    m.upper = n;
                    int a = open(f.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC), b = open(o.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC);
                    for (int i = 0; i < n; ++i) if (write(a, "x", 1) < 0 || write(b, "y", 1) < 0) abort();
                    close(a);
                    close(b);
                    VF_CHECK(vf::eventually([&]{ return m.runs >= n; }, 8000), "slow-missed", m.runs << " callbacks for " << n << " modifications made in quick succession");
                    VF_CHECK(vf::eventually([&]{ return (int)h.event_count() == m.runs; }, 4000), "count", "event_count " << h.event_count() << " of " << m.runs);
                    vf::count("flood_events", n);
                }
                m.off();
                remove_dir(d);
            }, 30);

    // Relative paths
    vf::batches("relative", 8, [&](vf::Rng& r)
            {
                Mon m;
                m.name = "relative" + std::to_string(r.below(1000000));
                std::string f = g_tmp + "/" + m.name;
                put(f, "initial");
                {
                    FileWatcherHandler h(m.cb(), r.chance(50) ? m.name : "./" + m.name);
                    m.upper += 1;
                    put(f, "more", O_APPEND);
                    VF_CHECK(vf::eventually([&]{ return m.runs >= 1; }, 5000), "slow-missed", "relative path");
                    put(f + "x", "other");
                    vf::sleep_us(500);
                    VF_CHECK(m.runs == 1, "spurious", m.runs.load());
                }
                unlink(f.c_str());
                unlink((f + "x").c_str());
            });
    return vf::finish();
}
