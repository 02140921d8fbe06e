// Delay injection and scenario watchdog. Implemented in sched.cpp, which is compiled without any sanitizer, so that
// it adds no happens-before edge and no instrumentation of its own.
#pragma once
#include <cstdint>

extern "C" {
struct vf_delay { int role; unsigned idx; unsigned us; };

// Start of one execution: resets per-thread point counters.  mode 0: count only, 1: random delays, 2: planned delays
void vf_sched_begin(int mode, uint64_t seed, unsigned prob_per_mille, unsigned max_us,
        const vf_delay* plan, unsigned plan_size);
void vf_sched_end();
// Role of the calling thread for this execution (roles of unregistered threads are assigned on first use, from 100)
void vf_sched_role(int role);
// Points seen by a role in the current execution
unsigned vf_sched_points(int role);
int vf_sched_max_role();
// Hash of the sequence of thread switches seen at points of the current execution, and how many switches
uint64_t vf_sched_hash();
uint64_t vf_sched_switches();
uint64_t vf_sched_total_points();
// A point that the harness puts in itself (for example in a callback)
void vf_sched_point(unsigned id);

// Watchdog over the current scenario; on expiry writes "HANG <dead|live> <scenario>" to fd and _exit(77)
void vf_watchdog_start(int fd);
void vf_watchdog_arm(const char* scenario, unsigned seconds);
void vf_watchdog_disarm();
}
