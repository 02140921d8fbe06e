from seed_lib import seed
import os
I = 'cpp_utils/include/cpp_utils/'
S = 'cpp_utils/src/cpp/'

# ---------------------------------------------------------------- P15
seed('p15-shared-engine', 'P15', [(S + 'math/random/RandomManager.cpp',
'''    seed_random_generator_.seed(seed);
    return seed_random_generator_();
''', '''    // One engine is enough, as it is seeded each time
    static std::mt19937 generator;
    generator.seed(seed);
    return generator();
''')],
'Two threads that ask managers of their own for the random number of a seed at the same time.',
'The engine for given seeds is shared by all managers without a lock: values for given seeds get mixed up between threads.',
r'''
#include <cpp_utils/math/random/RandomManager.hpp>
using namespace eprosima::utils;
int main()
{
    std::vector<unsigned> want;
    { RandomManager m; for (unsigned s = 0; s < 16; ++s) want.push_back(m.seeded_rand(s)); }
    std::atomic<int> ready{0}, wrong{0};
    std::vector<std::thread> v;
    for (int t = 0; t < 4; ++t)
        v.emplace_back([&]
                {
                    RandomManager m;
                    ++ready;
                    while (ready < 4) {}
                    for (unsigned i = 0; i < 40000; ++i)
                        if (m.seeded_rand(i % 16) != want[i % 16]) ++wrong;
                });
    for (auto& x : v) x.join();
    EXPECT(wrong == 0);
}
''', sources='math/random/RandomManager.cpp\n')

# ---------------------------------------------------------------- P25
seed('p25-shared-text', 'P25', [(S + 'qos/qos_utils.cpp',
'''    std::string policy_mask_str;
''', '''    // Keeps its capacity from one call to the next
    static std::string policy_mask_str;
    policy_mask_str.clear();
''')],
'Two threads that print a set of policies at the same time.',
'The text is built in a buffer that all calls share.',
r'''
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::utils;
int main()
{
    eprosima::fastdds::dds::PolicyMask a(0x1ffe), b(0x2a);
    const std::string want_a = qos_policy_mask_to_string(a), want_b = qos_policy_mask_to_string(b);
    EXPECT(want_a.size() > want_b.size() && want_b.find(", ") != std::string::npos);
    std::atomic<int> ready{0}, wrong{0};
    std::vector<std::thread> v;
    for (int t = 0; t < 4; ++t)
        v.emplace_back([&, t]
                {
                    ++ready;
                    while (ready < 4) {}
                    for (int i = 0; i < 100000; ++i)
                        if (qos_policy_mask_to_string(t % 2 ? a : b) != (t % 2 ? want_a : want_b)) ++wrong;
                });
    for (auto& x : v) x.join();
    EXPECT(wrong == 0);
}
''', sources='qos/qos_utils.cpp\n')

# ---------------------------------------------------------------- P22
seed('p22-shared-stream', 'P22', [(S + 'utils.cpp',
'''    std::ostringstream os;
    // Only digits, whatever the global locale
''', '''    static std::ostringstream os;
    os.str("");
    // Only digits, whatever the global locale
''')],
'Two threads that pad a number with zeros at the same time.',
'The digits are written to a stream that all calls share.',
r'''
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    EXPECT(number_trailing_zeros_format(42, 5) == "00042");
    std::atomic<int> ready{0}, wrong{0};
    std::vector<std::thread> v;
    for (int t = 0; t < 4; ++t)
        v.emplace_back([&, t]
                {
                    ++ready;
                    while (ready < 4) {}
                    for (int i = 0; i < 100000; ++i)
                        if (number_trailing_zeros_format(t, 3) != "00" + std::to_string(t)) ++wrong;
                });
    for (auto& x : v) x.join();
    EXPECT(wrong == 0);
}
''')

# ---------------------------------------------------------------- P10
seed('p10-timeout-rearmed', 'P10', [(I + 'wait/impl/WaitHandler.ipp',
'''    bool finished_for_condition_met = wait_condition_variable_.wait_until(
        lock,
        time_to_wait_until,
        [this, predicate]
        {
            // Exit if predicate is true or if this has been disabled
            return !enabled_.load() || predicate(value_);
        });
''', '''    bool finished_for_condition_met = !enabled_.load() || predicate(value_);
    bool expired = false;

    // Exit if predicate is true or if this has been disabled
    while (!finished_for_condition_met && !expired)
    {
        if (timeout > 0)
        {
            expired = wait_condition_variable_.wait_for(lock, utils::duration_to_ms(timeout)) == std::cv_status::timeout;
        }
        else
        {
            wait_condition_variable_.wait_until(lock, time_to_wait_until);
        }
        finished_for_condition_met = !enabled_.load() || predicate(value_);
    }
''')],
'A wait with a timeout while another thread changes the value (without meeting the condition) more often than that timeout.',
'The timeout starts again with each change, and the wait goes on as long as the changes do.',
r'''
#include <chrono>
#include <cpp_utils/wait/IntWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    IntWaitHandler h(0);
    std::atomic<bool> stop{false}, ended{false};
    std::thread change([&]{ while (!stop) { ++h; std::this_thread::sleep_for(std::chrono::milliseconds(20)); } });
    std::thread wait([&]{ h.wait_equal(-1, 200); ended = true; });
    for (int i = 0; i < 300 && !ended; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(20));
    const bool in_time = ended;
    stop = true;
    change.join();
    wait.join();
    EXPECT(in_time);
}
''', sources='wait/IntWaitHandler.cpp\n')

# ---------------------------------------------------------------- P12
seed('p12-pending-forgotten', 'P12', [(S + 'thread_pool/pool/SlotThreadPool.cpp',
'''        tasks_not_finished_.disable();

        for (auto& thread : threads_)
        {
            thread.join();
        }

        threads_.clear();
''', '''        tasks_not_finished_.disable();

        for (auto& thread : threads_)
        {
            thread.join();
        }

        // No thread works any more
        tasks_not_finished_.set_value(0);
        threads_ = std::vector<CustomThread>();
''')],
'A pool that is disabled with tasks pending, enabled again, and asked to wait until all tasks are consumed.',
'The pending tasks are not counted any more: waiting for them returns before they ran.',
r'''
#include <chrono>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
int main()
{
    SlotThreadPool pool(1);
    std::atomic<int> ran{0};
    pool.slot(TaskId(1), [&]{ std::this_thread::sleep_for(std::chrono::milliseconds(100)); ++ran; });
    pool.enable();
    for (int i = 0; i < 6; ++i) pool.emit(TaskId(1));
    pool.disable();
    pool.enable();
    EXPECT(pool.wait_all_consumed(20000) == event::AwakeReason::condition_met);
    EXPECT(ran == 6);
}
''', sources='thread_pool/pool/SlotThreadPool.cpp\nwait/CounterWaitHandler.cpp\nwait/IntWaitHandler.cpp\n')
