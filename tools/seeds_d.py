from seed_lib import seed
import os
I = 'cpp_utils/include/cpp_utils/'
S = 'cpp_utils/src/cpp/'

# ---------------------------------------------------------------- P02
D = I + 'collection/database/impl/SafeDatabase.ipp'
seed('p02-modify-unlocks-by-hand', 'P02', [(D,
'''        const Key& key,
        Value&& value)
{
    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        return false;
    }

    it->second = std::move(value);

    return true;
''', '''        const Key& key,
        Value&& value)
{
    mutex_.lock();

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        mutex_.unlock();
        return false;
    }

    it->second = std::move(value);

    mutex_.unlock();
    return true;
''')],
'A value whose assignment, or a key whose comparison, throws.',
'The database stays locked for ever after the exception.',
'''
#include <stdexcept>
#include <string>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
struct V
{
    int n = 0;
    explicit V(int n) : n(n) {}
    V(const V&) = default;
    V& operator =(const V& o) { if (o.n < 0) { throw std::runtime_error("no"); } n = o.n; return *this; }
};
struct DB : SafeDatabase<int, V> {};
int main()
{
    auto db = std::make_shared<DB>();
    EXPECT(db->add(1, V(1)));
    bool threw = false;
    try { db->modify(1, V(-1)); } catch (const std::runtime_error&) { threw = true; }
    EXPECT(threw);
    std::atomic<bool> done{false};
    std::thread([db, &done] { db->at(1); db->modify(1, V(2)); done = true; }).detach();
    for (int i = 0; i < 300 && !done; ++i) { ms(10); }
    EXPECT(done);
    EXPECT(db->at(1).n == 2);
    return 0;
}
''')

# ---------------------------------------------------------------- P04
seed('p04-system-clock', 'P04', [(S + 'event/PeriodicEventHandler.cpp',
'''        periodic_wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),
''', '''        periodic_wait_condition_variable_.wait_until(
            lock,
            std::chrono::system_clock::now() + std::chrono::milliseconds(period_time_),
''')],
'The clock of the system is put back while the handler waits.',
'No event is given until the clock has caught up again.',
'''
#include <dlfcn.h>
#include <time.h>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
// The calendar of this program: an hour ahead till it is put back
static std::atomic<long> ahead{0};
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    if (id == CLOCK_REALTIME) { t->tv_sec += ahead; }
    return r;
}
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> runs{0};
    ahead = 3600;
    PeriodicEventHandler h([&] { runs++; }, 50);
    ms(20);
    ahead = 0;
    for (int i = 0; i < 300 && runs < 3; ++i) { ms(10); }
    EXPECT(runs >= 3);
    return 0;
}
''', 'event/PeriodicEventHandler.cpp')

# ---------------------------------------------------------------- P09
seed('p09-terminal-saved-once', 'P09', [(S + 'event/StdinEventHandler.cpp',
'''        tcgetattr(STDIN_FILENO, &oldt);
''', '''        static const int saved = tcgetattr(STDIN_FILENO, &oldt);
        (void)saved;
''')],
'A terminal whose settings are changed by the program between two handlers.',
'Once the second handler has stopped the terminal has the settings it had before the first one.',
'''
#include <fcntl.h>
#include <termios.h>
#include <unistd.h>
#include <cpp_utils/event/StdinEventHandler.hpp>
using namespace eprosima::utils::event;
static termios now()
{
    termios t{};
    EXPECT(tcgetattr(0, &t) == 0);
    return t;
}
int main()
{
    int m = posix_openpt(O_RDWR | O_NOCTTY);
    EXPECT(m >= 0 && grantpt(m) == 0 && unlockpt(m) == 0);
    int s = open(ptsname(m), O_RDWR | O_NOCTTY);
    EXPECT(s >= 0);
    dup2(s, 0);
    for (int round = 0; round < 3; ++round)
    {
        termios t = now();
        if (round) { t.c_lflag ^= round == 1 ? ECHOE : ISIG; }
        EXPECT(tcsetattr(0, TCSANOW, &t) == 0);
        t = now();
        std::atomic<int> got{0};
        {
            StdinEventHandler h([&](std::string) { got++; }, true, 1);
            ms(200);
            EXPECT(write(m, "hello\\n", 6) == 6);
            for (int i = 0; i < 300 && !got; ++i) { ms(10); }
            EXPECT(got == 1);
        }
        EXPECT(now().c_lflag == t.c_lflag && now().c_iflag == t.c_iflag);
    }
    std::_Exit(0);
}
''', 'event/StdinEventHandler.cpp history/CommandHistoryHandler.cpp wait/CounterWaitHandler.cpp wait/IntWaitHandler.cpp')

# ---------------------------------------------------------------- P13
seed('p13-both-empty-order', 'P13', [(I + 'queue/DBQueue.hpp',
'''        std::unique_lock<std::mutex> guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        return m_foreground_queue''', '''        // Most of the times there are elements in the background, and there is no need to stop the consumer
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        if (!m_background_queue->empty())
        {
            return false;
        }
        std::unique_lock<std::mutex> guard(m_foreground_mutex);
        return m_foreground_queue''')],
'A thread that asks whether both sides are empty exactly while the consumer swaps them.',
'The two block each other for ever, and every producer with them.',
'''
#include <cpp_utils/queue/DBQueue.hpp>
using namespace eprosima::utils::event;
int main()
{
    DBQueue<int> q;
    std::atomic<long> asked{0}, swapped{0};
    std::atomic<bool> stop{false};
    std::vector<std::thread> t;
    for (int k = 0; k < 3; ++k) { t.emplace_back([&] { while (!stop) { q.both_empty(); asked++; } }); }
    t.emplace_back([&] { while (!stop) { q.swap(); swapped++; } });
    long a = -1, s = -1, since = now_ms();
    for (long start = now_ms(); now_ms() - start < 12000;)
    {
        ms(50);
        if (asked != a || swapped != s) { a = asked; s = swapped; since = now_ms(); }
        EXPECT(now_ms() - since < 3000);
    }
    stop = true;
    for (auto& x : t) { x.join(); }
    return 0;
}
''')

# ---------------------------------------------------------------- P14
seed('p14-shrinks', 'P14', [(I + 'pool/impl/UnboundedPool.ipp',
'''    this->reset_element_(element);
    elements_.push_back(element);
''', '''    this->reset_element_(element);
    if (elements_.size() < 4 * (this->configuration_.initial_size + 1024u * this->configuration_.batch_size))
    {
        elements_.push_back(element);
    }
    else
    {
        // Do not keep for ever the memory that was required once
        this->delete_element_(element);
        --reserved_;
    }
''')],
'A pool from which thousands of objects were lent at the same time, all of them given back.',
'Objects are deleted when they are given back, so they are not delivered again and new ones are made.',
'''
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
static int made = 0;
struct P : UnboundedPool<int>
{
    P() : UnboundedPool<int>(PoolConfiguration(0, 0, 1)) { initialize_vector_(); }
    int* new_element_() override { ++made; return new int(0); }
};
int main()
{
    P p;
    for (int round = 0; round < 2; ++round)
    {
        std::vector<int*> v(6000);
        for (auto& e : v) { EXPECT(p.loan(e)); }
        for (auto& e : v) { EXPECT(p.return_loan(e)); }
    }
    std::printf("%d made\\n", made);
    EXPECT(made == 6000);
    return 0;
}
''')

# ---------------------------------------------------------------- P16
seed('p16-built-first', 'P16', [(I + 'types/impl/SafeInitializableSingleton.ipp',
'''    std::lock_guard<std::mutex> _(mtx_);
    return initialize_nts_(std::forward<Args>(args) ...);
''', '''    // Build the object out of the mutex, as its constructor may take long
    std::shared_ptr<T> new_object(new T(std::forward<Args>(args)...));

    std::lock_guard<std::mutex> _(mtx_);
    if (the_ptr_)
    {
        return false;
    }
    the_ptr_ = std::move(new_object);
    return true;
''')],
'An initialization of a singleton that exists already, or two at the same time.',
'A second object is built (and destroyed at once) although the initialization is refused.',
'''
#include <mutex>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace eprosima::utils;
static std::atomic<int> built{0}, destroyed{0};
struct T
{
    int n;
    T(int n = 0) : n(n) { built++; }
    ~T() { destroyed++; }
};
using Single = SafeInitializableSingleton<T, 7>;
int main()
{
    EXPECT(Single::initialize(3));
    EXPECT(!Single::initialize(4));
    EXPECT(Single::get_instance()->n == 3);
    EXPECT(built == 1 && destroyed == 0);
    return 0;
}
''')

# ---------------------------------------------------------------- P20
seed('p20-sixteen-values', 'P20', [(I + 'macros/custom_enumeration.hpp',
'''NAMES_ ## enumeration_name[static_cast<int>(e)]; }''',
'''NAMES_ ## enumeration_name[static_cast<int>(e) & 0x0f]; }''')],
'An enumeration with seventeen or eighteen values, the most that there can be.',
'The last values are printed with the names of the first ones.',
'''
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/Formatter.hpp>
ENUMERATION_BUILDER(Letter, a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r);
int main()
{
    EXPECT(to_string(Letter::a) == "a");
    EXPECT(to_string(Letter::p) == "p");
    EXPECT(to_string(Letter::q) == "q");
    EXPECT(to_string(Letter::r) == "r");
    EXPECT(from_string_Letter("r") == Letter::r);
    return 0;
}
''')

# ---------------------------------------------------------------- P25
seed('p25-mask-of-32-bits', 'P25', [(S + 'qos/qos_utils.cpp',
'''        if (qos_policy_mask.test(qos_policy_id))''',
'''        if (qos_policy_mask.to_ulong() & (std::uint32_t(1) << (id_int % 32)))''')],
'A set with policies whose identifier is 32 or more, or with those whose identifier is 32 less.',
'Policies that are in the set are not printed, or others are.',
'''
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::utils;
using namespace eprosima::fastdds::dds;
int main()
{
    for (std::uint32_t id = 0; id < NEXT_QOS_POLICY_ID; ++id)
    {
        PolicyMask m;
        m.set(id);
        EXPECT(qos_policy_mask_to_string(m) == qos_policy_id_to_string(static_cast<QosPolicyId_t>(id)));
    }
    return 0;
}
''', 'qos/qos_utils.cpp')

# ---------------------------------------------------------------- P26
seed('p26-all-underscores', 'P26', [(S + 'ros2_mangling.cpp',
'''    std::string type_name = dds_type_string.substr(start, dds_type_string.length() - 1 - start);

    return type_namespace + type_name;
}

std::string mangle_if''', '''    size_t last = dds_type_string.find_last_not_of('_');
    std::string type_name = dds_type_string.substr(start, last + 1 - start);

    return type_namespace + type_name;
}

std::string mangle_if''')],
'A type whose own name ends with an underscore.',
'Demangling the mangled name does not give the name back.',
'''
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
int main()
{
    for (std::string s : {"a/msg/Foo", "a/msg/Foo_", "a/msg/Foo_Bar__"})
    {
        EXPECT(demangle_if_ros_type(mangle_if_ros_type(s)) == s);
    }
    return 0;
}
''', 'ros2_mangling.cpp')

# ---------------------------------------------------------------- P27
seed('p27-first-filter-compiled', 'P27', [(S + 'logging/BaseLogConsumer.cpp',
'''    std::regex filter_regex(filter_[entry.kind].get_value());
''', '''    // Filters do not change in a consumer, so they are compiled only the first time they are used
    static thread_local std::map<std::pair<const void*, VerbosityKind>, std::regex> compiled;
    auto it = compiled.find({this, entry.kind});
    if (it == compiled.end())
    {
        it = compiled.emplace(std::make_pair(this, entry.kind), filter_[entry.kind].get_value()).first;
    }
    const std::regex& filter_regex = it->second;
'''), (S + 'logging/BaseLogConsumer.cpp', '#include <regex>\n', '#include <map>\n#include <regex>\n')],
'A consumer that is built where one destroyed before was, with another filter.',
'It judges its entries with the filters of the destroyed one.',
'''
#include <new>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
using namespace eprosima::utils;
struct C : BaseLogConsumer
{
    C(const BaseLogConfiguration* c) : BaseLogConsumer(c) {}
    void Consume(const Log::Entry&) override {}
    bool ok(const std::string& m) { Log::Entry e{}; e.kind = Log::Kind::Error; e.message = m; e.context.category = ""; return accept_entry_(e); }
};
int main()
{
    alignas(C) static char place[sizeof(C)];
    for (std::string f : {"aaa", "bbb"})
    {
        BaseLogConfiguration c;
        c.filter[VerbosityKind::Error].set_value(f);
        C* consumer = new (place) C(&c);
        EXPECT(consumer->ok(f));
        EXPECT(!consumer->ok("ccc"));
        consumer->~C();
    }
    return 0;
}
''', 'logging/BaseLogConsumer.cpp logging/BaseLogConfiguration.cpp')

# ---------------------------------------------------------------- P29
seed('p29-set-value-same', 'P29', [('py_utils/py_utils/wait/WaitHandler.py',
'''            self._value = value
            self._condition.notify_all()
''', '''            if value != self._value:
                self._condition.notify_all()
            self._value = value
''')],
'A value that is changed in place and set again, or one that is equal to the last and not the same.',
'Threads that wait for the new value are not woken.',
None, py='''
import os, sys, threading, time
sys.path.insert(0, os.path.join(os.getcwd(), 'py_utils'))
from py_utils.wait.WaitHandler import WaitHandler
values = [1]
h = WaitHandler(True, values)
done = threading.Event()
threading.Thread(target=lambda: (h.wait(lambda v: len(v) > 1), done.set()), daemon=True).start()
time.sleep(0.3)
values.append(2)
h.set_value(values)
os._exit(0 if done.wait(3) else 1)
''')

# ---------------------------------------------------------------- P31
seed('p31-limit', 'P31', [(S + 'history/CommandHistoryHandler.cpp',
'''        command_history_.push_back(command);
        current_index_ = command_history_.size();
''', '''        // Do not keep more commands than anybody will look for
        if (command_history_.size() >= 500)
        {
            command_history_.erase(command_history_.begin());
        }
        command_history_.push_back(command);
        current_index_ = command_history_.size();
''')],
'More than five hundred stored commands.',
'Walking back ends before the first stored command.',
'''
#include <cpp_utils/history/CommandHistoryHandler.hpp>
using namespace eprosima::utils::history;
int main()
{
    CommandHistoryHandler h;
    for (int i = 0; i < 2000; ++i) { h.add_command(std::to_string(i)); }
    for (int i = 2000; i-- > 0;) { EXPECT(h.get_previous_command() == std::to_string(i)); }
    return 0;
}
''', 'history/CommandHistoryHandler.cpp')

# ---------------------------------------------------------------- P32
seed('p32-keeps-last-call', 'P32', [('py_utils/py_utils/debugging/debug_utils.py',
'''        logger.debug(f'Function <{func.__name__}> finished')
        return result
''', '''        wrapper.last_call = (args, kwargs, result)
        logger.debug(f'Function <{func.__name__}> finished')
        return result
''')],
'An argument that nobody else keeps after the call.',
'The decorated function keeps its last arguments and result alive.',
None, py='''
import gc, os, sys, weakref
sys.path.insert(0, os.path.join(os.getcwd(), 'py_utils'))
from py_utils.debugging.debug_utils import debug_function_decorator
class A:
    pass
@debug_function_decorator
def f(a):
    return a
a = A()
w = weakref.ref(a)
ok = f(a) is a
del a
gc.collect()
sys.exit(0 if ok and w() is None else 1)
''')

# ---------------------------------------------------------------- P33
seed('p33-reader-gives-up', 'P33', [(I + 'types/Atomicable.hpp',
'''template <class Type>
using SharedAtomicable = Atomicable<Type, std::shared_timed_mutex>;
''', '''class SharedAtomicableMutex : public std::shared_timed_mutex
{
public:

    //! Do not let a reader wait for ever for a writer
    void lock_shared()
    {
        while (!try_lock_shared_for(std::chrono::milliseconds(500)) && ++failures_ % 3 != 0)
        {
        }
    }

private:

    unsigned int failures_ = 0;
};
template <class Type>
using SharedAtomicable = Atomicable<Type, SharedAtomicableMutex>;
''')],
'A writer that holds the object for more than a second and a half while another thread wants to read it.',
'The reader goes on without the lock, and releases one that it does not have.',
'''
#include <chrono>
#include <mutex>
#include <shared_mutex>
#include <cpp_utils/types/Atomicable.hpp>
using namespace eprosima::utils;
struct Pair { int a = 0, b = 0; };
int main()
{
    SharedAtomicable<Pair> p;
    p.lock();
    p.a = 1;
    std::atomic<int> seen{-1};
    std::thread r([&] { std::shared_lock<SharedAtomicable<Pair>> l(p); seen = p.b; });
    ms(3000);
    EXPECT(seen == -1);
    p.b = 1;
    p.unlock();
    r.join();
    EXPECT(seen == 1);
    return 0;
}
''')

# ---------------------------------------------------------------- P37
seed('p37-stream-kept', 'P37', [(I + 'Log.hpp',
'''            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg;                                                   \\
''', '''            static thread_local std::stringstream fastdds_log_ss_tmp__;                                 \\
            fastdds_log_ss_tmp__.str("");                                                               \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg;                                                   \\
''')],
'A debug message that leaves a manipulator on its stream (or fails), written again at the same place.',
'The next message of that place is formatted otherwise, or lost.',
'''
#define FASTDDS_ENFORCE_LOG_INFO
#include <sstream>
#include <cpp_utils/Log.hpp>
using namespace eprosima::utils;
static std::vector<std::string> got;
static std::mutex m;
struct C : LogConsumer
{
    void Consume(const Log::Entry& e) override { std::lock_guard<std::mutex> _(m); got.push_back(e.message); }
};
void say(int n)
{
    logDebug(DEMO, n << " is " << std::hex << n);
}
int main()
{
    Log::SetVerbosity(Log::Kind::Info);
    Log::ClearConsumers();
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new C));
    say(10);
    say(255);
    Log::Flush();
    std::lock_guard<std::mutex> _(m);
    EXPECT(got == (std::vector<std::string>{"DEBUG: 10 is a", "DEBUG: 255 is ff"}));
    std::_Exit(0);
}
''')

seed('p37-verbosity-once', 'P37', [(I + 'Log.hpp',
'''        if (Log::GetVerbosity() >= Log::Kind::Info)                                                     \\
        {                                                                                               \\
            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEV_WARNING: "''', '''        static const bool is_enabled__ = Log::GetVerbosity() >= Log::Kind::Info;                        \\
        if (is_enabled__)                                                                               \\
        {                                                                                               \\
            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEV_WARNING: "''')],
'A verbosity that changes after a message was written once.',
'Messages are still written, or still not, as the verbosity at the first use of that place tells.',
'''
#define FASTDDS_ENFORCE_LOG_INFO
#include <sstream>
#include <cpp_utils/Log.hpp>
using namespace eprosima::utils;
static int evaluated = 0;
void say()
{
    logDevError(DEMO, "evaluated " << ++evaluated);
}
int main()
{
    Log::ClearConsumers();
    Log::SetVerbosity(Log::Kind::Error);
    say();
    EXPECT(evaluated == 0);
    Log::SetVerbosity(Log::Kind::Info);
    say();
    EXPECT(evaluated == 1);
    Log::SetVerbosity(Log::Kind::Warning);
    say();
    EXPECT(evaluated == 1);
    std::_Exit(0);
}
''')
