from seed_lib import seed
I = 'cpp_utils/include/cpp_utils/'
S = 'cpp_utils/src/cpp/'

# ---------------------------------------------------------------- P01
seed('p01-gives-up-waiting', 'P01', [(I + 'memory/impl/InternalPtrData.ipp',
'''    shared_mutex_.lock();
    T* reference = reference_.exchange(nullptr);
    shared_mutex_.unlock();
''', '''    std::unique_lock<std::shared_timed_mutex> lock(shared_mutex_, std::chrono::seconds(1));
    T* reference = reference_.exchange(nullptr);
    if (lock) lock.unlock();
''')],
'A guard that is held for more than a second while the owner resets.',
'The owner destroys the object although a guard over it is still alive.',
'''
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
int main()
{
    std::atomic<int> destroyed{0};
    OwnerPtr<int> owner(new int(7), [&](int* p) { destroyed++; delete p; });
    auto lease = owner.lease();
    std::thread t;
    {
        auto guard = lease.lock();
        EXPECT(guard && *guard == 7);
        t = std::thread([&] { owner.reset(); });
        ms(2500);
        EXPECT(destroyed == 0);
        EXPECT(guard.get() != nullptr);
        EXPECT(*guard == 7);
    }
    t.join();
    EXPECT(destroyed == 1);
    EXPECT(!lease.lock());
    return 0;
}
''')

seed('p01-move-assign-swaps', 'P01', [(I + 'memory/impl/OwnerPtr.ipp',
'''    // In case this Ptr had data inside, it must be deleted
    reset();

    this->data_reference_ = std::move(other.data_reference_);
    // Move a shared ptr reset the internal ptr, so other points to null
''', '''    // Data of this Ptr (if any) is taken by other, that will delete it
    std::swap(this->data_reference_, other.data_reference_);
''')],
'Move-assignment into an owner that owns something, from an owner that lives on.',
'The replaced object is not destroyed by the move-assignment (leases stay valid) but only when the source owner dies.',
'''
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
int main()
{
    std::atomic<int> destroyed{0};
    auto del = [&](int* p) { destroyed++; delete p; };
    OwnerPtr<int> a(new int(1), del);
    OwnerPtr<int> b(new int(2), del);
    auto lease = a.lease();
    a = std::move(b);
    EXPECT(*a == 2);
    EXPECT(destroyed == 1);
    EXPECT(!lease);
    EXPECT(!lease.lock());
    EXPECT(b == nullptr);
    return 0;
}
''')

# ---------------------------------------------------------------- P02
seed('p02-add-or-modify-two-steps', 'P02', [(I + 'collection/database/impl/SafeDatabase.ipp',
'''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        // Add new value
        internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));
        return true;
    }
    else
    {
        // Modify already existent value
        it->second = std::move(value);
        return false;
    }
''', '''    // Modify already existent value
    if (modify(key, std::move(value)))
    {
        return false;
    }

    // Add new value
    return add(std::move(key), std::move(value));
''')],
'Two threads call add_or_modify with the same new key, and both find it missing before one of them adds it.',
'The loser reports that it modified the entry, but its value is thrown away.',
'''
#include <dlfcn.h>
#include <pthread.h>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
// Every exclusive lock is preceded by a preemption
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
    ms(20);
    return real(l);
}
int main()
{
    for (int round = 0; round < 10; ++round)
    {
        SafeDatabase<int, int> db;
        for (int i = 0; i < 4; ++i) { db.add(i, -1); }
        bool added[3] = {};
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        for (int t = 0; t < 3; ++t)
        {
            ts.emplace_back([&, t] { ready++; while (ready < 3) {} added[t] = db.add_or_modify(10, t); });
        }
        for (auto& t : ts) { t.join(); }
        EXPECT(added[0] + added[1] + added[2] == 1);
        // the last value must be of one of those that modified the added entry
        EXPECT(!added[db.at(10)]);
    }
    return 0;
}
''')

seed('p02-at-copies-unlocked', 'P02', [(I + 'collection/database/impl/SafeDatabase.ipp',
'''    std::shared_lock<std::shared_timed_mutex> _(mutex_);

    return internal_db_.at(key);
''', '''    // Hold the mutex only while looking for the element, as values may be expensive to copy
    std::shared_lock<std::shared_timed_mutex> lock(mutex_);
    const Value& value = internal_db_.at(key);
    lock.unlock();

    return value;
''')],
'A modification of the same key while a reader is copying the value that at() found.',
'at() copies the value without holding the mutex: it can return a mix of two values or read freed memory.',
'''
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
struct V
{
    int a = 0, b = 0;
    V(int x = 0) : a(x), b(x) {}
    V(const V& o) : a(o.a) { if (o.a) ms(30); b = o.b; }
    V(V&& o) noexcept = default;
    V& operator =(V&& o) noexcept = default;
    V& operator =(const V& o) = default;
};
int main()
{
    SafeDatabase<int, V> db;
    db.add(1, V(1));
    std::atomic<bool> stop{false};
    std::thread w([&] { for (int i = 2; !stop; ++i) { db.modify(1, V(i)); ms(3); } });
    for (int i = 0; i < 40; ++i)
    {
        V v = db.at(1);
        EXPECT(v.a == v.b);
        ms(1);
    }
    stop = true;
    w.join();
    return 0;
}
''')

# ---------------------------------------------------------------- P03
INTERPOSE = '''
#include <dlfcn.h>
#include <pthread.h>
// Waits on a condition variable begin a bit later (with the mutex still held), as on a loaded machine
static std::atomic<int> delay_ms{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (delay_ms) { ms(delay_ms); }
    return real(c, m);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
            dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (delay_ms) { ms(delay_ms); }
    return real(c, m, k, t);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
            dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    if (delay_ms) { ms(delay_ms); }
    return real(c, m, t);
}
'''
seed('p03-count-without-mutex', 'P03', [(I + 'event/impl/EventHandler.ipp',
'''        {
            // Increase number of callbacks received
            std::lock_guard<std::mutex> lock(wait_mutex_);
            ++number_of_events_registered_;
        }
''', '''        // Increase number of callbacks received (atomic variable)
        ++number_of_events_registered_;
''')],
'The event occurs between the moment a waiter has seen the old count and the moment it sleeps.',
'wait_for_event misses the wake-up and sleeps on although the count has been reached.',
INTERPOSE + '''
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    EventHandler<int> h;
    h.set_callback([](int) {});
    delay_ms = 200;
    std::atomic<bool> woken{false};
    std::thread t([&] { EXPECT(h.wait_for_event(1)); woken = true; });
    ms(100);
    h.simulate_event_occurred(3);
    ms(3000);
    EXPECT(woken);
    t.join();
    h.unset_callback();
    return 0;
}
''')

seed('p03-callback-run-unlocked', 'P03', [(I + 'event/impl/EventHandler.ipp',
'''    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        // Use a copy, as the callback could set or unset the callback of this very object while it is running
        const std::function<void(Args...)> callback = callback_;
        callback(args ...);
''', '''    std::unique_lock<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        // Use a copy, as the callback could set or unset the callback of this very object while it is running
        const std::function<void(Args...)> callback = callback_;
        // No need to hold the mutex as the copy is used
        lock.unlock();
        callback(args ...);
''')],
'unset_callback (or another event) on one thread while the callback is running on another.',
'unset_callback returns while a run of the callback is in progress, and runs overlap.',
'''
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    EventHandler<int> h;
    std::atomic<bool> running{false};
    h.set_callback([&](int) { running = true; ms(400); running = false; });
    std::thread t([&] { h.simulate_event_occurred(1); });
    while (!running) { ms(1); }
    h.unset_callback();
    EXPECT(!running);
    t.join();
    return 0;
}
''')

# ---------------------------------------------------------------- P04
seed('p04-stop-without-mutex', 'P04', [(S + 'event/PeriodicEventHandler.cpp',
'''    // Set timer as inactive and awake thread so it stops
    {
        std::unique_lock<std::mutex> lock(periodic_wait_mutex_);
        timer_active_.store(false);
    }
''', '''    // Set timer as inactive and awake thread so it stops
    timer_active_.store(false);
''')],
'The callback is unset exactly while the timer thread goes to sleep.',
'The notification is lost and unset (or destruction) blocks for a whole period.',
INTERPOSE + '''
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    delay_ms = 200;
    long t0;
    {
        PeriodicEventHandler h([] {}, 20000);
        ms(100);
        t0 = now_ms();
    }
    EXPECT(now_ms() - t0 < 8000);
    return 0;
}
''', 'event/PeriodicEventHandler.cpp')

seed('p04-catches-up', 'P04', [(S + 'event/PeriodicEventHandler.cpp',
'''    while (timer_active_.load())
    {

        std::unique_lock''', '''    // Fix the time of the next event from the previous one, so the frequency does not depend on the callback
    auto next_event = std::chrono::steady_clock::now();

    while (timer_active_.load())
    {
        next_event += std::chrono::milliseconds(period_time_);

        std::unique_lock'''), (S + 'event/PeriodicEventHandler.cpp',
'''        periodic_wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),
''', '''        periodic_wait_condition_variable_.wait_until(
            lock,
            next_event,
''')],
'A callback that once takes longer than the period.',
'After it the handler fires several times in a row without any period between the end of a run and the next.',
'''
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> runs{0};
    std::atomic<long> last_end{0}, min_gap{1000000};
    {
        PeriodicEventHandler h([&]
                {
                    long now = now_ms();
                    if (runs > 0 && now - last_end < min_gap) { min_gap = now - last_end; }
                    ms(runs == 0 ? 700 : 5);
                    runs++;
                    last_end = now_ms();
                }, 100);
        while (runs < 5) { ms(5); }
    }
    std::printf("smallest gap %ld\\n", min_gap.load());
    EXPECT(min_gap >= 95);
    return 0;
}
''', 'event/PeriodicEventHandler.cpp')

# ---------------------------------------------------------------- P05
seed('p05-coalesced-signals', 'P05', [(I + 'event/impl/SignalManager.ipp',
'''            signals_received_--;
            signal_handler_routine_();''', '''            signals_received_.store(0);
            signal_handler_routine_();''')],
'Several deliveries of the signal before the handling thread has dealt with the first of them.',
'A burst of signals runs the callbacks only once.',
'''
#include <csignal>
#include <cpp_utils/event/SignalEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> n{0};
    SignalEventHandler<Signal::sigint> h([&](Signal) { n++; ms(100); });
    for (int i = 0; i < 20; ++i) { raise(SIGINT); ms(7); }
    for (int i = 0; i < 400 && n < 20; ++i) { ms(10); }
    ms(200);
    std::printf("%d\\n", n.load());
    EXPECT(n == 20);
    return 0;
}
''')

seed('p05-callbacks-on-a-copy', 'P05', [(I + 'event/impl/SignalManager.ipp',
'''    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);

    logInfo(UTILS_SIGNALHANDLER,
            "Received signal " << SigVal << ".");

    for (auto it : active_callbacks_)
    {
''', '''    logInfo(UTILS_SIGNALHANDLER,
            "Received signal " << SigVal << ".");

    // Use a copy so callbacks could register and unregister other callbacks
    std::unique_lock<std::mutex> lock(active_callbacks_mutex_);
    const auto callbacks = active_callbacks_;
    lock.unlock();

    for (const auto& it : callbacks)
    {
''')],
'A handler is destroyed while the same signal is running the callback of an earlier registered handler.',
'The callback of the destroyed handler is still called (use of a destroyed object).',
'''
#include <csignal>
#include <cpp_utils/event/SignalEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<bool> in_first{false};
    SignalEventHandler<Signal::sigterm> first([&](Signal) { in_first = true; ms(500); });
    auto second = std::make_unique<SignalEventHandler<Signal::sigterm>>([](Signal) {});
    raise(SIGTERM);
    while (!in_first) { ms(1); }
    second.reset();
    ms(800);
    return 0;
}
''', flags='-fsanitize=address -fno-omit-frame-pointer')

# ---------------------------------------------------------------- P06
seed('p06-unset-before-inner', 'P06', [(S + 'event/MultipleEventHandler.cpp',
'''    for (std::unique_ptr<IBaseEventHandler>& event : handlers_registered_)
    {
        event.reset();
    }

    // At this point''', '''    for (std::unique_ptr<IBaseEventHandler>& event : handlers_registered_)
    {
        event.release();
    }

    // At this point''')],
'An inner handler that still receives events when the multiple handler is destroyed.',
'Inner handlers are never destroyed and go on calling the destroyed multiple handler.',
'''
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    auto m = std::make_unique<MultipleEventHandler>([] {});
    m->register_event_handler<PeriodicEventHandler>(std::make_unique<PeriodicEventHandler>([] {}, 10));
    ms(100);
    m.reset();
    ms(300);
    return 0;
}
''', 'event/MultipleEventHandler.cpp event/PeriodicEventHandler.cpp', '-fsanitize=address -fno-omit-frame-pointer')

seed('p06-counts-unset', 'P06', [(I + 'event/impl/MultipleEventHandler.ipp',
'''                this->event_occurred_();
            };
    handler->set_callback(new_callback);

    // Store handler. It will be destroyed once this is destroyed
    handlers_registered_.push_back(std::move(handler));
''', '''                this->event_occurred_();
            };

    // Store handler. It will be destroyed once this is destroyed
    T* const stored_handler = handler.get();
    handlers_registered_.insert(handlers_registered_.begin(), std::move(handler));

    // The first event of the handler is the one that enables it
    if (stored_handler->event_count() == 0)
    {
        stored_handler->set_callback(new_callback);
    }
''')],
'An inner handler that has already counted an event of its own before it is registered.',
'Its old callback stays and the multiple handler never fires for its events.',
'''
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> own{0}, multiple{0};
    auto inner = std::make_unique<PeriodicEventHandler>([&] { own++; }, 20);
    inner->wait_for_event(2);
    MultipleEventHandler m([&] { multiple++; });
    m.register_event_handler<PeriodicEventHandler>(std::move(inner));
    int before = own;
    ms(400);
    EXPECT(own <= before);
    EXPECT(multiple > 0);
    return 0;
}
''', 'event/MultipleEventHandler.cpp event/PeriodicEventHandler.cpp')
