// Simulated threads: one runs at a time, the choice tape decides which and for how long.
#ifndef VERIF_SIM_SCHED_H
#define VERIF_SIM_SCHED_H
#include "sim.h"
#include <functional>
#include <vector>
namespace sim {
struct Sched {
    /// Runs the functions as threads; returns when all have ended. Every memory access of the code compiled with
    /// -fsanitize=thread and every synchronisation is a point where the scheduler may switch.
    static void run(Ctx& c, const std::vector<std::function<void()>>& fns);
    /// The number of the running simulated thread, -1 outside of run().
    static int self();
    /// A point where the scheduler may switch (prefers to do so).
    static void yield();
    /// Allocations of the running thread may fail.
    static void mayFail(bool on);
    /// The n-th allocation made by the threads (while mayFail) during run() fails (0: none).
    static void failAlloc(uint64_t n);
    static uint64_t allocFailures();
    static uint64_t switches();
    static uint64_t events();
};
}
#endif
