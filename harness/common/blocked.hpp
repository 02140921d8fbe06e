// Waits until a thread of this process is asleep in a futex (so: blocked in a wait or a lock), without touching it.
#pragma once
#include <vf.hpp>
#include <sys/syscall.h>

namespace vf {

inline int tid()
{
    return (int)syscall(SYS_gettid);
}

// Number of the system call that the thread is blocked in, -1 when it runs, -2 when it is gone
inline long blocked_in(int t)
{
    char path[64], buf[128];
    snprintf(path, sizeof path, "/proc/self/task/%d/syscall", t);
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return -2;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return -2;
    buf[n] = 0;
    if (buf[0] == 'r') return -1;
    return strtol(buf, nullptr, 10);
}

// True once the thread has been seen blocked in futex several times in a row; false if it ended or never was
inline bool wait_blocked(const std::atomic<int>& t, unsigned limit_ms = 8000)
{
    int run = 0;
    uint64_t t0 = now_ns();
    while (now_ns() - t0 < (uint64_t)limit_ms * 1000000)
    {
        int id = t.load();
        if (id > 0)
        {
            long s = blocked_in(id);
            run = s == SYS_futex ? run + 1 : 0;
            if (run >= 4) return true;
        }
        else if (id < 0) return false;   // it says that it is done
        sleep_us(400);
    }
    return false;
}

} // namespace vf
