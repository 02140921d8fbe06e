from seed_lib import seed
import os
os.environ["SEED_SKIP"] = "1"
from seeds_a import INTERPOSE
del os.environ["SEED_SKIP"]
I = 'cpp_utils/include/cpp_utils/'
S = 'cpp_utils/src/cpp/'
ASAN = '-fsanitize=address -fno-omit-frame-pointer'

# ---------------------------------------------------------------- P07
seed('p07-skips-repeated', 'P07', [(S + 'event/logging/LogEventHandler.cpp',
'''    {
        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        entries_consumed_.push_back(entry);
    }
''', '''    {
        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);

        // The same entry could arrive twice if several consumers are connected to this handler
        if (!entries_consumed_.empty() &&
                entries_consumed_.back().timestamp == entry.timestamp &&
                entries_consumed_.back().message == entry.message)
        {
            return;
        }

        entries_consumed_.push_back(entry);
    }
''')],
'Two log entries with the same text in a row within the resolution of the timestamp text.',
'The second one is never passed to the callback.',
'''
#include <cpp_utils/event/LogEventHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> n{0};
    LogEventHandler h([&](Log::Entry) { n++; });
    for (int i = 0; i < 1000; ++i) { EPROSIMA_LOG_ERROR(DEMO, "the same text"); }
    Log::Flush();
    std::printf("%d\\n", n.load());
    EXPECT(n == 1000);
    return 0;
}
''', 'event/logging/LogEventHandler.cpp event/logging/LogConsumerConnection.cpp')

seed('p07-connection-not-held', 'P07', [(S + 'event/logging/LogConsumerConnection.cpp',
'''    // Check whether the callback still exists
    auto callback_persistent = callback_.lock();

    if (callback_persistent)
    {
        // In case it still exists, call it
        callback_persistent->operator ()(
                entry);
    }
''', '''    // Check whether the callback still exists
    if (callback_)
    {
        // In case it still exists, call it
        (*callback_)(entry);
    }
''')],
'The handler is destroyed while the log thread is on its way to its callback.',
'The destructor does not wait for the log thread, which then uses the destroyed handler.',
'''
#include <dlfcn.h>
#include <pthread.h>
#include <cpp_utils/event/LogEventHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
static thread_local bool main_thread = false;
static std::atomic<bool> slow{false}, sleeping{false};
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
    if (slow && !main_thread) { sleeping = true; ms(400); }
    return real(l);
}
int main()
{
    main_thread = true;
    auto h = std::make_unique<LogEventHandler>([](Log::Entry) {});
    slow = true;
    EPROSIMA_LOG_ERROR(DEMO, "text");
    for (int i = 0; i < 1000 && !sleeping; ++i) { ms(1); }
    EXPECT(sleeping);
    h.reset();
    slow = false;
    ms(800);
    return 0;
}
''', 'event/logging/LogEventHandler.cpp event/logging/LogConsumerConnection.cpp', ASAN)

# ---------------------------------------------------------------- P08
seed('p08-callback-overwrites-queue', 'P08', [('thirdparty/filewatch/FileWatch.hpp',
'''                //dispatch callbacks
                {
                    std::lock_guard<std::mutex> lock(_callback_mutex);
                    _callback_information.insert(_callback_information.end(),
                            parsed_information.begin(), parsed_information.end());
                }
                _cv.notify_all();
            }
        }
    }

#endif // __unix__''', '''                //dispatch callbacks
                {
                    std::lock_guard<std::mutex> lock(_callback_mutex);
                    _callback_information = std::move(parsed_information);
                }
                _cv.notify_all();
            }
        }
    }

#endif // __unix__''')],
'Changes of another file in the directory while the callback for an earlier change is still running.',
'A pending change of the watched file is thrown away by the next events, and no callback follows it.',
'''
#include <fstream>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils::event;
static void write(const char* n) { std::ofstream(n, std::ios::app) << "x"; }
int main()
{
    write("f.txt");
    write("other.txt");
    std::atomic<int> n{0};
    FileWatcherHandler h([&](std::string) { n++; ms(500); }, "f.txt");
    write("f.txt");
    for (int i = 0; i < 3000 && n == 0; ++i) { ms(1); }
    EXPECT(n > 0);
    int before = n;
    ms(50);
    write("f.txt");            // queued while the callback is running
    ms(100);
    write("other.txt");
    ms(2500);
    EXPECT(n > before);
    return 0;
}
''', 'event/FileWatcherHandler.cpp')

seed('p08-name-prefix', 'P08', [('thirdparty/filewatch/FileWatch.hpp',
'''            return extracted_filename == _filename;''',
'''            return extracted_filename.compare(0, UnderpinningString(_filename).size(), _filename) == 0;''')],
'Another file in the directory whose name begins with the name of the watched one (a backup of it, say).',
'The callback runs for changes of that other file.',
'''
#include <fstream>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils::event;
static void write(const char* n) { std::ofstream(n, std::ios::app) << "x"; }
int main()
{
    write("conf.yaml");
    std::atomic<int> n{0};
    FileWatcherHandler h([&](std::string) { n++; }, "conf.yaml");
    write("conf.yaml~");
    ms(500);
    write("conf.yaml~");
    ms(1000);
    EXPECT(n == 0);
    return 0;
}
''', 'event/FileWatcherHandler.cpp')

# ---------------------------------------------------------------- P10
seed('p10-disable-without-mutex', 'P10', [(I + 'wait/impl/WaitHandler.ipp',
'''        {
            // WARNING: enabled_ should be modified with mutex taken
            std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
            logDebug(UTILS_WAIT, "Disabling WaitHandler.");
            enabled_.store(false);
        }

        // Do not block''', '''        logDebug(UTILS_WAIT, "Disabling WaitHandler.");
        enabled_.store(false);

        // Do not block''')],
'The handler is disabled (not blocking) between the check of the condition and the sleep of a waiter.',
'The waiter misses the notification and goes on waiting on a disabled handler.',
INTERPOSE + '''
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    BooleanWaitHandler h(false, true);
    delay_ms = 300;
    std::atomic<bool> woken{false};
    std::thread t([&] { EXPECT(h.wait() == AwakeReason::disabled); woken = true; });
    ms(150);
    h.disable();
    ms(3000);
    EXPECT(woken);
    t.join();
    return 0;
}
''', 'wait/BooleanWaitHandler.cpp')

seed('p10-increment-wakes-one', 'P10', [(S + 'wait/IntWaitHandler.cpp',
'''        value_++;
    }

    wait_condition_variable_.notify_all();
''', '''        value_++;
    }

    wait_condition_variable_.notify_one();
''')],
'Two threads waiting for different values, and an increment that fulfils only one of the conditions.',
'The wrong thread may be woken, and the one whose condition is met sleeps on.',
'''
#include <cpp_utils/wait/IntWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    IntWaitHandler h(0);
    std::atomic<bool> woken{false};
    std::thread a([&] { h.wait_greater_equal_than(1000); });
    ms(200);
    std::thread b([&] { h.wait_greater_equal_than(1); woken = true; });
    ms(200);
    ++h;
    ms(2000);
    EXPECT(woken);
    h.set_value(1000);
    a.join();
    b.join();
    return 0;
}
''', 'wait/IntWaitHandler.cpp')

# ---------------------------------------------------------------- P11
seed('p11-notify-on-transition-only', 'P11', [(S + 'wait/CounterWaitHandler.cpp',
'''        // If threshold is reached, notify one waiter
        if (value_ > threshold_)
        {
            wait_condition_variable_.notify_one();
        }
''', '''        // If threshold has just been exceeded, notify one waiter
        if (value_ == threshold_ + 1)
        {
            wait_condition_variable_.notify_one();
        }
'''), (S + 'wait/CounterWaitHandler.cpp',
'''    value_--;

    // If value is still higher than threshold, notify one waiter
    if (value_ > threshold_)
    {
        wait_condition_variable_.notify_one();
    }
    // If the threshold is reached, notify threads waiting for this event
    else if (value_ == threshold_)
''', '''    value_--;

    // If the threshold is reached, notify threads waiting for this event
    if (value_ == threshold_)
''')],
'Two consumers are waiting and two elements are produced before the first consumer that was woken has run.',
'Only one consumer is woken; the other sleeps although an element is available.',
'''
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int round = 0; round < 40; ++round)
    {
        DBQueueWaitHandler<int> q;
        std::atomic<int> got{0};
        std::vector<std::thread> ts;
        for (int i = 0; i < 3; ++i) { ts.emplace_back([&] { q.consume(); got++; }); }
        ms(30);
        for (int i = 0; i < 3; ++i) { q.produce(i); }
        for (int i = 0; i < 3000 && got < 3; ++i) { ms(1); }
        EXPECT(got == 3);
        for (auto& t : ts) { t.join(); }
    }
    return 0;
}
''', 'wait/CounterWaitHandler.cpp')

seed('p11-announce-before-add', 'P11', [(I + 'wait/impl/ConsumerWaitHandler.ipp',
'''    add_value_(value);
    this->operator ++();
''', '''    // Awake a consumer now, so it is ready when the value (that could be expensive to copy) arrives
    this->operator ++();
    add_value_(value);
''')],
'A consumer that gets to the queue before the producer has finished to copy the element into it.',
'consume throws an inconsistency exception and the element count is wrong from then on.',
'''
#include <dlfcn.h>
#include <pthread.h>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils::event;
static thread_local bool slow = false;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (slow) { ms(20); }
    return real(m);
}
int main()
{
    DBQueueWaitHandler<int> q;
    std::thread t([&] { slow = true; for (int i = 0; i < 10; ++i) { const int e = i; q.produce(e); } });
    try
    {
        for (int i = 0; i < 10; ++i) { EXPECT(q.consume(5000) == i); }
    }
    catch (const std::exception& e)
    {
        std::printf("%s\\n", e.what());
        std::_Exit(1);
    }
    t.join();
    return 0;
}
''', 'wait/CounterWaitHandler.cpp')

seed('p11-pop-lock-only-for-swap', 'P11', [(I + 'wait/impl/DBQueueWaitHandler.ipp',
'''    // TODO: Do it without copy
    auto value = queue_.front();
    queue_.pop();

    return value;
''', '''    // The queue is thread safe by itself
    lock.unlock();

    // TODO: Do it without copy
    auto value = queue_.front();
    queue_.pop();

    return value;
''')],
'Two consumers between front and pop at the same time.',
'Both get the same element and another one is lost.',
'''
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils::event;
struct E
{
    int v = 0;
    E(int x) : v(x) {}
    E(E&&) = default;
    E(const E& o) : v(o.v) { ms(2); }
};
int main()
{
    DBQueueWaitHandler<E> q;
    for (int i = 0; i < 40; ++i) { q.produce(E(i)); }
    std::vector<std::atomic<int>> seen(40);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) { ts.emplace_back([&] { for (int i = 0; i < 10; ++i) { seen[q.consume().v]++; } }); }
    for (auto& t : ts) { t.join(); }
    for (auto& s : seen) { EXPECT(s == 1); }
    return 0;
}
''', 'wait/CounterWaitHandler.cpp')

# ---------------------------------------------------------------- P12
seed('p12-slots-locked-while-running', 'P12', [(S + 'thread_pool/pool/SlotThreadPool.cpp',
'''            // Lock to access the slot map
            slots_mutex_.lock();

            auto it''', '''            // Lock to access the slot map
            std::lock_guard<std::mutex> lock(slots_mutex_);

            auto it'''), (S + 'thread_pool/pool/SlotThreadPool.cpp',
'''            Task& task = it->second;

            slots_mutex_.unlock();
''', '''            Task& task = it->second;
''')],
'A task that emits another task (or two tasks that wait for each other).',
'The emission deadlocks, and only one task runs at a time.',
'''
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
int main()
{
    SlotThreadPool* pool = new SlotThreadPool(2);
    std::atomic<int> n{0};
    TaskId a = new_unique_task_id(), b = new_unique_task_id();
    pool->slot(a, [&] { pool->emit(b); n++; });
    pool->slot(b, [&] { n++; });
    pool->enable();
    pool->emit(a);
    for (int i = 0; i < 5000 && n < 2; ++i) { ms(1); }
    EXPECT(n == 2);
    delete pool;
    return 0;
}
''', 'thread_pool/pool/SlotThreadPool.cpp thread_pool/task/TaskId.cpp '
     'wait/CounterWaitHandler.cpp wait/IntWaitHandler.cpp')

# ---------------------------------------------------------------- P13
seed('p13-clear-after-swap', 'P13', [(I + 'queue/DBQueue.hpp',
'''        std::unique_lock<std::mutex> bg_guard(m_background_mutex);

        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);

        auto* swap       = m_background_queue;
        m_background_queue = m_foreground_queue;
        m_foreground_queue = swap;
    }
''', '''        {
            std::unique_lock<std::mutex> bg_guard(m_background_mutex);

            auto* swap       = m_background_queue;
            m_background_queue = m_foreground_queue;
            m_foreground_queue = swap;
        }

        // Clear the queue that was the foreground one, without blocking the producers meanwhile
        while (!m_background_queue->empty())
        {
            m_background_queue->pop();
        }
    }
''')],
'A producer pushes while a swap is discarding elements left in the foreground.',
'The pushed element is discarded too (and the queue is corrupted).',
'''
#include <cpp_utils/queue/DBQueue.hpp>
using namespace eprosima::utils::event;
struct E
{
    int v;
    bool slow;
    ~E() { if (slow) { ms(60); } }
    E(int x, bool s) : v(x), slow(s) {}
    E(const E& o) = default;
};
int main()
{
    DBQueue<E> q;
    E left(0, false), item(1, false);
    for (int i = 0; i < 5; ++i) { q.push(left); }
    q.swap();
    q.front().slow = true;
    std::thread t([&] { ms(30); q.push(item); });
    q.swap();
    t.join();
    ms(100);
    q.swap();
    EXPECT(q.size() == 1 && q.front().v == 1);
    return 0;
}
''')

# ---------------------------------------------------------------- P14
seed('p14-reset-after-return', 'P14', [(I + 'pool/impl/UnboundedPool.ipp',
'''    // Return it to the vector
    this->reset_element_(element);
    elements_.push_back(element);
''', '''    // Return it to the vector
    elements_.push_back(element);
    this->reset_element_(element);
''')],
'A reset of the element that fails with an exception.',
'An element whose reset failed is in the pool all the same and is lent again with its old contents.',
'''
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
struct Pool : UnboundedPool<int>
{
    using P = UnboundedPool<int>;
    bool fail = false;
    static PoolConfiguration config() { PoolConfiguration c; c.initial_size = 1; c.batch_size = 1; return c; }
    Pool() : P(config()) { this->initialize_vector_(); }
    int* new_element_() override { return new int(0); }
    void delete_element_(int* e) override { delete e; }
    void reset_element_(int* e) override { if (fail) { throw std::runtime_error("reset"); } *e = 0; }
};
int main()
{
    Pool p;
    int* e = nullptr;
    p.loan(e);
    *e = 55;
    p.fail = true;
    try { p.return_loan(e); } catch (const std::runtime_error&) {}
    p.fail = false;
    int* f = nullptr;
    p.loan(f);
    EXPECT(*f == 0);
    return 0;
}
''')

# ---------------------------------------------------------------- P15
seed('p15-two-critical-sections', 'P15', [(S + 'math/random/TSafeRandomManager.cpp',
'''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return seed_random_generator_();
''', '''    {
        std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
        seed_random_generator_.seed(seed);
    }
    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    return seed_random_generator_();
''')],
'Two threads ask for the values of different seeds at the same time.',
'A thread gets a number that belongs to the seed of another one.',
'''
#include <dlfcn.h>
#include <pthread.h>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace eprosima::utils;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    std::this_thread::yield();
    return real(m);
}
int main()
{
    TSafeRandomManager m;
    std::vector<RandomNumberType> expected;
    for (int s = 0; s < 4; ++s) { expected.push_back(TSafeRandomManager().rand(s)); }
    std::vector<std::thread> ts;
    for (int s = 0; s < 4; ++s)
    {
        ts.emplace_back([&, s] { for (int i = 0; i < 5000; ++i) { EXPECT(m.rand(s) == expected[s]); } });
    }
    for (auto& t : ts) { t.join(); }
    return 0;
}
''', 'math/random/TSafeRandomManager.cpp math/random/RandomManager.cpp')

# ---------------------------------------------------------------- P16
seed('p16-check-then-create', 'P16', [(I + 'types/impl/SafeInitializableSingleton.ipp',
'''    std::lock_guard<std::mutex> _(mtx_);
    return initialize_nts_(std::forward<Args>(args) ...);
''', '''    // Create the object without the mutex taken, as its constructor could be slow
    if (get_shared_instance(false))
    {
        return false;
    }

    auto new_ptr = std::shared_ptr<T>(new T(std::forward<Args>(args)...));

    std::lock_guard<std::mutex> _(mtx_);
    the_ptr_ = new_ptr;
    return true;
''')],
'Two threads initialize the singleton at the same time.',
'Both report success and the object of the first is replaced.',
'''
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace eprosima::utils;
struct T
{
    int v;
    T(int x = 0) : v(x) { ms(100); }
};
using S = SafeInitializableSingleton<T, 3>;
int main()
{
    bool r[2];
    std::thread a([&] { r[0] = S::initialize(1); });
    std::thread b([&] { r[1] = S::initialize(2); });
    a.join();
    b.join();
    EXPECT(r[0] != r[1]);
    EXPECT(S::get_instance()->v == (r[0] ? 1 : 2));
    return 0;
}
''')

# ---------------------------------------------------------------- P17
seed('p17-power-loop', 'P17', [(S + 'math/math_extension.cpp',
'''    return number && (!(number & (number - 1)));
''', '''    for (unsigned int power = 1; power <= number; power <<= 1)
    {
        if (power == number)
        {
            return true;
        }
    }
    return false;
''')],
'A number above 2^31 that is not a power of two.',
'The function (and the module and division that use it) never ends.',
'''
#include <cpp_utils/math/math_extension.hpp>
using namespace eprosima::utils;
int main()
{
    std::thread([] { ms(20000); std::_Exit(1); }).detach();
    EXPECT(is_power_of_2(2147483648u));
    EXPECT(!is_power_of_2(2147483649u));
    EXPECT(!is_power_of_2(4294967295u));
    EXPECT(fast_module(4294967295u, 4294967294u) == 1);
    return 0;
}
''')

# ---------------------------------------------------------------- P18
seed('p18-whole-milliseconds', 'P18', [(S + 'time/PausableTimer.cpp',
'''        stored_time_elapsed_ += Timer::elapsed();
        reset_();
        playing_ = false;
''', '''        stored_time_elapsed_ += static_cast<Duration_ms>(Timer::elapsed());
        reset_();
        playing_ = false;
''')],
'Many short playing periods.',
'Each pause drops a fraction of a millisecond, so the total is short by up to a millisecond per pause.',
'''
#include <cpp_utils/time/PausableTimer.hpp>
using namespace eprosima::utils;
int main()
{
    PausableTimer t(false);
    double least = 0;
    for (int i = 0; i < 200; ++i)
    {
        t.play();
        auto a = std::chrono::steady_clock::now();
        while (std::chrono::steady_clock::now() - a < std::chrono::microseconds(500)) {}
        least += std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - a).count();
        t.pause();
    }
    std::printf("%f of at least %f\\n", t.elapsed(), least);
    EXPECT(t.elapsed() >= least * 0.99);
    return 0;
}
''', 'time/Timer.cpp time/PausableTimer.cpp')

# ---------------------------------------------------------------- P21
seed('p21-exact-type-only', 'P21', [(I + 'memory/impl/Heritable.ipp',
'''    try
    {
        dyn_cast<U>();
        return true;
    }
    catch (const std::bad_cast& /* e */)
    {
        return false;
    }
''', '''    // Avoid the cost of an exception
    return std::is_base_of<U, T>::value || typeid(*data_ptr_) == typeid(U);
''')],
'A hierarchy of three classes, asked for the middle one.',
'can_cast denies a cast that dyn_cast does.',
'''
#include <cpp_utils/memory/Heritable.hpp>
using namespace eprosima::utils;
struct A { virtual ~A() = default; };
struct B : A { };
struct C : B { };
int main()
{
    Heritable<A> h(new C());
    EXPECT(h.can_cast<C>());
    EXPECT(h.can_cast<B>());
    EXPECT(h.can_cast<A>());
    EXPECT(!Heritable<A>(new A()).can_cast<B>());
    return 0;
}
''')

# ---------------------------------------------------------------- P22
seed('p22-no-empty-tail', 'P22', [(S + 'utils.cpp',
'''    result.push_back(source.substr(start));
    return result;
''', '''    if (start < static_cast<int>(source.size()))
    {
        result.push_back(source.substr(start));
    }
    return result;
''')],
'A text that ends with the delimiter, or an empty one.',
'The last (empty) piece is missing: joining does not give the original back, and an empty text gives no piece.',
'''
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
static std::string join(const std::vector<std::string>& v, const std::string& d)
{
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? d : "") + v[i]; }
    return r;
}
int main()
{
    for (std::string s : {"", "a", "a;b", "a;", ";", ";;a;;"})
    {
        auto v = split_string(s, std::string(";"));
        EXPECT(!v.empty());
        EXPECT(join(v, ";") == s);
    }
    return 0;
}
''')

# ---------------------------------------------------------------- P23
seed('p23-signed-char', 'P23', [(S + 'utils.cpp',
'''    int valb = -6;
    for (unsigned char c : in)
''', '''    int valb = -6;
    for (const char c : in)
''')],
'Bytes of 0x80 and above.',
'The base64 encoding of binary data is wrong.',
'''
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    EXPECT(base64_encode("Man") == "TWFu");
    EXPECT(base64_encode("\\xff\\xff\\xff") == "////");
    std::string s;
    for (int i = 0; i < 256; ++i) { s.push_back(static_cast<char>(i)); }
    EXPECT(base64_decode(base64_encode(s)) == s);
    return 0;
}
''')

# ---------------------------------------------------------------- P24
seed('p24-first-branch-only', 'P24', [(I + 'types/impl/Tree.ipp',
'''        auto b_branches = b.all_nodes();
        result.splice(result.begin(), b_branches);
''', '''        // Nodes of each branch that are not leaves
        if (!b.leaf() && b.depth() > 1)
        {
            result.splice(result.begin(), b.all_nodes());
        }
        else
        {
            result.insert(result.begin(), b.branches_.begin(), b.branches_.empty() ?
                    b.branches_.end() : std::next(b.branches_.begin()));
        }
''')],
'A tree where a lowest branch has more than one leaf.',
'Only the first leaf of such a branch is listed among all the nodes.',
'''
#include <cpp_utils/types/Tree.hpp>
using namespace eprosima::utils;
int main()
{
    TreeNode<int> root(0), b(1);
    b.add_branch(2);
    b.add_branch(3);
    b.add_branch(4);
    root.add_branch(b);
    EXPECT(root.all_nodes().size() == 4);
    return 0;
}
''')

# ---------------------------------------------------------------- P25
seed('p25-mask-from-one', 'P25', [(S + 'qos/qos_utils.cpp',
'''    for (std::uint32_t id_int = QosPolicyId_t::INVALID_QOS_POLICY_ID; id_int < QosPolicyId_t::NEXT_QOS_POLICY_ID;
            id_int++)
''', '''    std::size_t pending = qos_policy_mask.count();
    for (std::uint32_t id_int = QosPolicyId_t::USERDATA_QOS_POLICY_ID; --pending > 0 || first_id_in_mask;
            id_int++)
''')],
'A mask with several policies that are not contiguous.',
'Policies are missing from the text of the mask.',
'''
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::utils;
using namespace eprosima::fastdds::dds;
int main()
{
    PolicyMask m;
    m.set(static_cast<std::size_t>(DURABILITY_QOS_POLICY_ID));
    EXPECT(qos_policy_mask_to_string(m) == "Durability");
    m.set(static_cast<std::size_t>(LIFESPAN_QOS_POLICY_ID));
    EXPECT(qos_policy_mask_to_string(m) == "Durability, Lifespan");
    m.set(static_cast<std::size_t>(RELIABILITY_QOS_POLICY_ID));
    EXPECT(qos_policy_mask_to_string(m) == "Durability, Reliability, Lifespan");
    return 0;
}
''', 'qos/qos_utils.cpp')

# ---------------------------------------------------------------- P26
seed('p26-first-suffix', 'P26', [(S + 'ros2_mangling.cpp',
'''    size_t suffix_position = service_name.rfind(suffix);
''', '''    size_t suffix_position = service_name.find(suffix);
''')],
'A service whose own name contains Request or Reply.',
'Its topic is no longer recognised: the demangled name is empty.',
'''
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
int main()
{
    for (std::string n : {"/add", "/ns/add", "/RequestPart", "/ns/MyReplyRequest", "/a/RequestReply"})
    {
        EXPECT(demangle_ros_service_request_prefix_from_topic(mangle_ros_service_request_prefix_in_topic(n)) == n);
        EXPECT(demangle_ros_service_reply_prefix_from_topic(mangle_ros_service_reply_prefix_in_topic(n)) == n);
    }
    return 0;
}
''', 'ros2_mangling.cpp')

# ---------------------------------------------------------------- P27
seed('p27-shared-configuration', 'P27', [(S + 'logging/BaseLogConsumer.cpp',
'''    // Filter by regex
    std::regex filter_regex(filter_[entry.kind].get_value());
''', '''    // Filter by regex (building it is expensive, do it only when it changes)
    static std::string last_filter;
    static std::regex filter_regex(last_filter);
    if (last_filter.size() != filter_[entry.kind].get_reference().size())
    {
        last_filter = filter_[entry.kind].get_value();
        filter_regex = std::regex(last_filter);
    }
''')],
'Two severities (or two consumers) with different filters of the same length.',
'Entries are judged with the filter of another severity or consumer.',
'''
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
using namespace eprosima::utils;
struct C : BaseLogConsumer
{
    C(const BaseLogConfiguration* c) : BaseLogConsumer(c) {}
    void Consume(const Log::Entry&) override {}
    bool ok(Log::Kind k, const std::string& m) { Log::Entry e{}; e.kind = k; e.message = m; e.context.category = ""; return accept_entry_(e); }
};
int main()
{
    BaseLogConfiguration c;
    c.verbosity.set_value(VerbosityKind::Info);
    c.filter[VerbosityKind::Error].set_value("aaa");
    c.filter[VerbosityKind::Info].set_value("bbb");
    C consumer(&c);
    EXPECT(consumer.ok(Log::Kind::Error, "aaa"));
    EXPECT(consumer.ok(Log::Kind::Info, "bbb"));
    EXPECT(!consumer.ok(Log::Kind::Error, "bbb"));
    EXPECT(!consumer.ok(Log::Kind::Info, "aaa"));
    return 0;
}
''', 'logging/BaseLogConsumer.cpp logging/BaseLogConfiguration.cpp')

# ---------------------------------------------------------------- P28
seed('p28-skips-short-lines', 'P28', [(S + 'file/file_utils.cpp',
'''    while (getline(file, new_line))
    {
        if (strip_chars)
        {
            strip_str(new_line);
        }

        if (!(strip_empty_lines && new_line.empty()))
''', '''    while (getline(file, new_line))
    {
        const bool empty_line = new_line.empty();

        if (strip_chars)
        {
            strip_str(new_line);
        }

        if (!(strip_empty_lines && empty_line))
''')],
'Empty lines of a file with Windows line ends, with both removals asked.',
'Lines that are empty after removing the carriage return are kept.',
'''
#include <fstream>
#include <cpp_utils/file/file_utils.hpp>
using namespace eprosima::utils;
int main()
{
    std::ofstream("f") << "a\\r\\n\\r\\nb\\n\\nc";
    auto v = file_to_strings("f", true, true);
    EXPECT(v.size() == 3);
    return 0;
}
''', 'file/file_utils.cpp')

# ---------------------------------------------------------------- P29
seed('p29-increase-notifies-one', 'P29', [('py_utils/py_utils/wait/IntWaitHandler.py',
'''            self._value += value
            self._condition.notify_all()
''', '''            self._value += value
            self._condition.notify()
''')],
'Two threads waiting for different values.',
'The thread whose condition is met may not be woken.',
None, py='''
import os, sys, threading, time
sys.path.insert(0, os.path.join(os.getcwd(), 'py_utils'))
from py_utils.wait.IntWaitHandler import IntWaitHandler
h = IntWaitHandler(True, 0)
done = threading.Event()
threading.Thread(target=lambda: h.wait_greater_equal(1000), daemon=True).start()
time.sleep(0.3)
threading.Thread(target=lambda: (h.wait_greater_equal(1), done.set()), daemon=True).start()
time.sleep(0.3)
h.increase()
os._exit(0 if done.wait(3) else 1)
''')

# ---------------------------------------------------------------- P31
seed('p31-ignores-duplicates', 'P31', [(S + 'history/CommandHistoryHandler.cpp',
'''    if (!command.empty())
    {
        command_history_.push_back(command);
''', '''    if (!command.empty())
    {
        // Do not repeat commands
        for (auto it = command_history_.begin(); it != command_history_.end(); ++it)
        {
            if (*it == command)
            {
                command_history_.erase(it);
                break;
            }
        }
        command_history_.push_back(command);
''')],
'A command that is stored a second time.',
'The earlier occurrence disappears from the history, so walking back does not give every stored command.',
'''
#include <cpp_utils/history/CommandHistoryHandler.hpp>
using namespace eprosima::utils::history;
int main()
{
    CommandHistoryHandler h;
    h.add_command("a");
    h.add_command("b");
    h.add_command("a");
    EXPECT(h.get_previous_command() == "a");
    EXPECT(h.get_previous_command() == "b");
    EXPECT(h.get_previous_command() == "a");
    EXPECT(h.get_previous_command() == "");
    return 0;
}
''', 'history/CommandHistoryHandler.cpp')
