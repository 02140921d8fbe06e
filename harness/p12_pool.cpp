// P12: SlotThreadPool and task ids.
#include <vf.hpp>
#include <dirent.h>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>

using namespace eprosima::utils;
using event::AwakeReason;

struct Mon
{
    int threads;
    std::atomic<int> running{0}, max_running{0}, allowed{0};
    std::atomic<int> started[8], finished[8], emitted[8];
    std::mutex m;
    std::set<std::thread::id> on;
    std::thread::id main_thread = std::this_thread::get_id();
    explicit Mon(int n) : threads(n)
    {
        for (int i = 0; i < 8; ++i) started[i] = finished[i] = emitted[i] = 0;
    }
    void begin(int k)
    {
        int r = running.fetch_add(1) + 1;
        VF_CHECK(r <= threads, "too-many-at-once", r << " tasks at once in a pool of " << threads);
        int mx = max_running;
        while (r > mx && !max_running.compare_exchange_weak(mx, r))
        {
        }
        VF_CHECK(allowed == 1, "run-while-disabled", "task " << k << " runs while the pool is disabled");
        started[k].fetch_add(1);
        VF_CHECK(started[k] <= emitted[k], "more-runs-than-emissions", "task " << k << ": " << started[k] << " runs, " << emitted[k] << " emissions");
        VF_CHECK(std::this_thread::get_id() != main_thread, "thread", "task on the thread that emits");
        {
            std::lock_guard<std::mutex> l(m);
            on.insert(std::this_thread::get_id());
        }
        vf_sched_point(11);
    }
    void end(int k)
    {
        vf_sched_point(12);
        VF_CHECK(allowed == 1, "run-while-disabled", "task " << k << " still runs after disabling");
        finished[k].fetch_add(1);
        running.fetch_sub(1);
    }
    // A task with data of its own on the heap
    Task task(int k, std::function<void()> more = {})
    {
        std::string mine = "data captured by task " + std::to_string(k) + " on the heap";
        return Task([this, k, mine, more]
                       {
                           begin(k);
                           VF_CHECK(mine == "data captured by task " + std::to_string(k) + " on the heap", "task-data", mine);
                           if (more) more();
                           end(k);
                       });
    }
    void emit(SlotThreadPool& p, const std::vector<TaskId>& ids, int k)
    {
        emitted[k].fetch_add(1);
        p.emit(ids[(size_t)k]);
    }
    int total(std::atomic<int>* a)
    {
        int n = 0;
        for (int i = 0; i < 8; ++i) n += a[i];
        return n;
    }
    void new_threads()
    {
        std::lock_guard<std::mutex> l(m);
        VF_CHECK((int)on.size() <= threads, "thread", on.size() << " threads ran tasks in a pool of " << threads);
        on.clear();
    }
    bool all_done()
    {
        for (int i = 0; i < 8; ++i) if (finished[i] != emitted[i]) return false;
        return true;
    }
    std::string counts()
    {
        std::ostringstream s;
        for (int i = 0; i < 8; ++i) if (emitted[i]) s << "task " << i << ": " << emitted[i] << " emitted " << finished[i] << " finished; ";
        return s.str();
    }
    void check_end(const char* where)
    {
        for (int i = 0; i < 8; ++i)
        {
            VF_CHECK(started[i] == emitted[i] && finished[i] == emitted[i], "exactly-once", where << ": " << counts());
        }
        VF_CHECK((int)on.size() <= threads, "thread", on.size() << " threads ran tasks in a pool of " << threads);
        vf::count("tasks_run", (uint64_t)total(finished));
        vf::count("most_at_once:" + std::to_string((int)max_running));
    }
};
std::vector<TaskId> ids(size_t n)
{
    std::vector<TaskId> v;
    for (size_t i = 0; i < n; ++i) v.push_back(new_unique_task_id());
    return v;
}
int threads_now()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/task"))
    {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);

    // Emissions from several threads, before and after enabling, and from tasks themselves
    vf::explore("emit", vf::Opt().b(40).r(150).p(80).mi(60), [](vf::Exec& e)
            {
                int n = (int)e.rng.range(1, 3);
                Mon m(n);
                auto id = ids(4);
                {
                    SlotThreadPool p((uint32_t)n);
                    for (int k = 0; k < 3; ++k) p.slot(id[(size_t)k], m.task(k));
                    p.slot(id[3], m.task(3, [&] { m.emit(p, id, 0); }));     // emits another task
                    int before = (int)e.rng.below(4);
                    for (int i = 0; i < before; ++i) m.emit(p, id, (int)e.rng.below(4));
                    bool early = e.rng.chance(50);
                    m.allowed = 1;
                    if (early) p.enable();
                    auto emitter = [&](uint64_t sd)
                            {
                                return [&, sd]
                                       {
                                           vf::Rng r(sd);
                                           for (int i = 0; i < 3; ++i)
                                           {
                                               m.emit(p, id, (int)r.below(4));
                                               vf_sched_point(1);
                                           }
                                       };
                            };
                    std::vector<std::function<void()>> fs = {emitter(e.rng.next()), emitter(e.rng.next())};
                    if (!early) fs.push_back([&] { p.enable(); p.enable(); });
                    else if (e.rng.chance(50)) fs.push_back([&]
                                {
                                    // registering while others run
                                    TaskId t = new_unique_task_id();
                                    p.slot(t, m.task(5));
                                    m.emitted[5].fetch_add(1);
                                    p.emit(t);
                                });
                    e.par(fs);
                    bool ok = vf::eventually([&] { return m.all_done(); });
                    VF_CHECK(ok, "task-not-run", m.counts());
                    VF_CHECK(!ok || p.wait_all_consumed(5000) == AwakeReason::condition_met, "wait-all", "");
                    if (e.rng.chance(50)) p.disable();
                }
                m.allowed = 0;
                m.check_end("end");
            });

    // Waiting for all: every task emitted before has finished
    vf::explore("wait-all", vf::Opt().b(40).r(100).p(60).mi(60), [](vf::Exec& e)
            {
                int n = (int)e.rng.range(1, 3);
                Mon m(n);
                auto id = ids(3);
                SlotThreadPool p((uint32_t)n);
                for (int k = 0; k < 2; ++k) p.slot(id[(size_t)k], m.task(k));
                p.slot(id[2], m.task(2, [&] { m.emit(p, id, 1); }));
                m.allowed = 1;
                if (e.rng.chance(50)) p.enable();
                VF_CHECK(p.wait_all_consumed(20000) == AwakeReason::condition_met, "wait-all", "with no task");
                p.enable();
                auto work = [&](uint64_t sd)
                        {
                            return [&, sd]
                                   {
                                       vf::Rng r(sd);
                                       for (int i = 0; i < 2; ++i)
                                       {
                                           m.emit(p, id, (int)r.below(3));
                                           AwakeReason w = p.wait_all_consumed(r.chance(50) ? 0 : r.chance(50) ? 30000 : 0xfffffff0u);
                                           VF_CHECK(w == AwakeReason::condition_met, "wait-all", "ended by another reason");
                                       }
                                   };
                        };
                if (e.rng.chance(50))
                {
                    e.par({work(e.rng.next()), work(e.rng.next())});
                    VF_CHECK(p.wait_all_consumed() == AwakeReason::condition_met, "wait-all", "");
                    VF_CHECK(m.all_done(), "wait-all-early", m.counts());
                }
                else
                {
                    // one thread only emits: what it waits for is known
                    for (int i = 0; i < 3; ++i)
                    {
                        m.emit(p, id, (int)e.rng.below(3));
                        if (e.rng.chance(50)) m.emit(p, id, (int)e.rng.below(3));
                        VF_CHECK(p.wait_all_consumed() == AwakeReason::condition_met, "wait-all", "");
                        VF_CHECK(m.all_done(), "wait-all-early", m.counts());
                    }
                }
            });

    // Disabled and enabled again while tasks are emitted and run
    vf::explore("disable", vf::Opt().b(40).r(150).p(80).mi(60), [](vf::Exec& e)
            {
                int n = (int)e.rng.range(1, 3);
                Mon m(n);
                auto id = ids(3);
                {
                    SlotThreadPool p((uint32_t)n);
                    for (int k = 0; k < 3; ++k) p.slot(id[(size_t)k], m.task(k, k == 2 ? std::function<void()>([] { vf::sleep_us(300); }) : std::function<void()>()));
                    bool started = e.rng.chance(60);
                    if (started)
                    {
                        m.allowed = 1;
                        p.enable();
                    }
                    auto emitter = [&](uint64_t sd)
                            {
                                return [&, sd]
                                       {
                                           vf::Rng r(sd);
                                           for (int i = 0; i < 4; ++i)
                                           {
                                               m.emit(p, id, (int)r.below(3));
                                               vf_sched_point(1);
                                           }
                                       };
                            };
                    int cycles = (int)e.rng.range(1, 3);
                    vf::Rng r(e.rng.next());
                    e.par({
                              emitter(e.rng.next()),
                              emitter(e.rng.next()),
                              [&]
                              {
                                  for (int i = 0; i < cycles; ++i)
                                  {
                                      vf_sched_point(2);
                                      p.disable();
                                      if (r.chance(30)) p.disable();
                                      VF_CHECK(m.running == 0, "run-while-disabled", m.running << " tasks run after disable returned");
                                      m.allowed = 0;
                                      int s = m.total(m.started);
                                      vf_sched_point(3);
                                      if (r.chance(50)) vf::sleep_us(200);
                                      VF_CHECK(m.total(m.started) == s, "run-while-disabled", "a task started while disabled");
                                      m.new_threads();
                                      m.allowed = 1;
                                      p.enable();
                                  }
                              }
                          });
                    bool ok = vf::eventually([&] { return m.all_done(); });
                    VF_CHECK(ok, "task-not-run", m.counts());
                    // once more, with tasks emitted while it is disabled
                    p.disable();
                    VF_CHECK(m.running == 0, "run-while-disabled", "");
                    m.allowed = 0;
                    m.new_threads();
                    int late = (int)e.rng.range(1, 4);
                    for (int i = 0; i < late; ++i) m.emit(p, id, (int)e.rng.below(3));
                    if (e.rng.chance(40)) VF_CHECK(p.wait_all_consumed(1 + (unsigned)e.rng.below(3)) != AwakeReason::condition_met, "wait-all-early", "while disabled, " << m.counts());
                    m.allowed = 1;
                    p.enable();
                    if (e.rng.chance(60))
                    {
                        // and stopped again, perhaps with some of them still to be run
                        if (e.rng.chance(50)) vf::sleep_us(e.rng.below(400));
                        p.disable();
                        VF_CHECK(m.running == 0, "run-while-disabled", "");
                        m.allowed = 0;
                        m.new_threads();
                        if (!m.all_done() && e.rng.chance(50)) VF_CHECK(p.wait_all_consumed(1) != AwakeReason::condition_met, "wait-all-early", "while disabled, " << m.counts());
                        if (e.rng.chance(30)) m.emit(p, id, (int)e.rng.below(3));
                        m.allowed = 1;
                        p.enable();
                    }
                    if (e.rng.chance(70))
                    {
                        VF_CHECK(p.wait_all_consumed(e.rng.chance(50) ? 0 : 30000) == AwakeReason::condition_met, "wait-all", "after enabling again");
                        VF_CHECK(m.all_done(), "wait-all-early", "after enabling again: " << m.counts());
                    }
                    ok = vf::eventually([&] { return m.all_done(); });
                    VF_CHECK(ok, "task-not-run", "after enabling again: " << m.counts());
                }
                m.allowed = 0;
                m.check_end("end");
            });

    // Destroyed with tasks running and queued: threads are gone, nothing runs any more
    vf::explore("destroy", vf::Opt().b(30).r(100).p(50).mi(50), [](vf::Exec& e)
            {
                int n = (int)e.rng.range(1, 3);
                Mon m(n);
                auto id = ids(3);
                int before = threads_now();
                {
                    auto p = std::make_unique<SlotThreadPool>((uint32_t)n);
                    for (int k = 0; k < 3; ++k) p->slot(id[(size_t)k], m.task(k));
                    bool enabled = e.rng.chance(80);
                    m.allowed = enabled;
                    if (enabled) p->enable();
                    int q = (int)e.rng.below(6);
                    for (int i = 0; i < q; ++i) m.emit(*p, id, (int)e.rng.below(3));
                    if (e.rng.chance(50)) vf_sched_point(1);
                    p.reset();
                    VF_CHECK(m.running == 0, "run-after-destruction", m.running << " tasks run after destruction");
                    m.allowed = 0;
                }
                VF_CHECK(vf::eventually([&] { return threads_now() <= before; }), "threads-left", threads_now() - before << " threads left");
                for (int i = 0; i < 8; ++i) VF_CHECK(m.started[i] == m.finished[i] && m.started[i] <= m.emitted[i], "exactly-once", m.counts());
            });

    // Errors change nothing
    vf::batches("errors", 60, [](vf::Rng& r)
            {
                int n = (int)r.below(4);
                Mon m(n);
                auto id = ids(3);
                SlotThreadPool p((uint32_t)n);
                m.allowed = 1;
                if (r.chance(50)) p.enable();
                std::set<int> known;
                for (int i = 0; i < 60; ++i)
                {
                    int k = (int)r.below(3);
                    bool thrown = false;
                    if (r.chance(30))
                    {
                        int as = known.count(k) ? 6 : k;      // a task that must not be kept
                        try
                        {
                            p.slot(id[(size_t)k], m.task(as));
                        }
                        catch (const ValueNotAllowedException&)
                        {
                            thrown = true;
                        }
                        VF_CHECK(thrown == (known.count(k) != 0), "slot-error", "registering " << k << (thrown ? " threw" : " did not throw"));
                        known.insert(k);
                    }
                    else
                    {
                        if (known.count(k)) m.emitted[k].fetch_add(1);
                        try
                        {
                            p.emit(id[(size_t)k]);
                        }
                        catch (const ValueNotAllowedException&)
                        {
                            thrown = true;
                        }
                        VF_CHECK(thrown == !known.count(k), "emit-error", "emitting " << k << (thrown ? " threw" : " did not throw"));
                    }
                    vf::count("steps");
                }
                p.enable();
                if (n > 0)
                {
                    VF_CHECK(vf::eventually([&] { return m.all_done(); }), "task-not-run", m.counts());
                    VF_CHECK(p.wait_all_consumed(20000) == AwakeReason::condition_met, "wait-all", "");
                }
                p.disable();
                for (int k = 0; k < 8; ++k) VF_CHECK(m.finished[k] == (n ? m.emitted[k].load() : 0), "exactly-once", m.counts());
            });

    // Many tasks, many emissions, many threads
    vf::batches("many", 4, [](vf::Rng& r)
            {
                const int threads = (int)r.pick(std::vector<int>{1, 2, 5, 24}), tasks = (int)r.pick(std::vector<int>{1, 40, 300, 2000}), n = (int)r.pick(std::vector<int>{300, 3000, 20000});
                auto id = ids((size_t)tasks);
                std::vector<std::atomic<int>> runs((size_t)tasks);
                std::vector<int> want((size_t)tasks, 0);
                for (auto& x : runs) x = 0;
                std::atomic<int> at_once{0};
                SlotThreadPool p((uint32_t)threads);
                if (r.chance(50)) p.enable();
                for (int k = 0; k < tasks; ++k)
                {
                    p.slot(id[(size_t)k], Task([&, k]
                            {
                                VF_CHECK(at_once.fetch_add(1) < threads, "too-many-at-once", "in a pool of " << threads);
                                runs[(size_t)k].fetch_add(1);
                                at_once.fetch_sub(1);
                            }));
                }
                for (int i = 0; i < n; ++i)
                {
                    size_t k = r.below((uint64_t)tasks);
                    ++want[k];
                    p.emit(id[k]);
                }
                p.enable();
                VF_CHECK(p.wait_all_consumed(100000) == AwakeReason::condition_met, "wait-all", n << " emissions of " << tasks << " tasks");
                for (int k = 0; k < tasks; ++k) VF_CHECK(runs[(size_t)k] == want[(size_t)k], "exactly-once", "task " << k << " of " << tasks << " ran " << runs[(size_t)k] << " times for " << want[(size_t)k] << " emissions");
                // as many tasks as threads can wait for each other
                std::mutex mx;
                std::condition_variable cv;
                int in = 0;
                auto meet = new_unique_task_id();
                p.slot(meet, Task([&]
                        {
                            std::unique_lock<std::mutex> l(mx);
                            ++in;
                            cv.notify_all();
                            VF_CHECK(cv.wait_for(l, std::chrono::seconds(20), [&]{ return in >= threads; }), "task-not-run", in << " of " << threads << " emissions run while the pool has as many threads");
                        }));
                for (int i = 0; i < threads; ++i) p.emit(meet);
                VF_CHECK(p.wait_all_consumed(100000) == AwakeReason::condition_met && in == threads, "wait-all", "");
                p.disable();
                vf::count("steps", (uint64_t)n);
            });

    // Ids
    vf::explore("ids", vf::Opt().b(20).r(60).p(20).mi(20), [](vf::Exec& e)
            {
                std::vector<TaskId> v[3];
                auto get = [](std::vector<TaskId>& o) { return [&o] { for (int i = 0; i < 40; ++i) o.push_back(new_unique_task_id()); }; };
                e.par({get(v[0]), get(v[1]), get(v[2])});
                static std::set<TaskId> all;      // over the whole process
                for (auto& w : v)
                    for (TaskId t : w) VF_CHECK(all.insert(t).second, "id-twice", "task id " << t << " given twice");
            });
    vf::batches("ids-many", 4, [](vf::Rng&)
            {
                std::vector<TaskId> v[4];
                std::vector<std::thread> ts;
                for (auto& o : v) ts.emplace_back([&o] { for (int i = 0; i < 20000; ++i) o.push_back(new_unique_task_id()); });
                for (auto& t : ts) t.join();
                std::set<TaskId> all;
                for (auto& w : v) for (TaskId t : w) VF_CHECK(all.insert(t).second, "id-twice", "task id " << t << " given twice");
                vf::count("steps", all.size());
            });
    return vf::finish();
}
