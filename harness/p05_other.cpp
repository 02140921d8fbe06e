// A second file of the same program that uses signal handlers
#include <atomic>
#include <csignal>
#include <cpp_utils/event/SignalEventHandler.hpp>
#include <unistd.h>

extern "C" int other_file_counts_sigusr2()
{
    std::atomic<int> n{0};
    eprosima::utils::event::SignalEventHandler<eprosima::utils::event::Signal::sigusr2> h(
        [&](eprosima::utils::event::Signal) { ++n; });
    raise(SIGUSR2);
    for (int i = 0; i < 6000 && !n; ++i) usleep(1000);
    usleep(1000);
    h.unset_callback();
    return n;
}
