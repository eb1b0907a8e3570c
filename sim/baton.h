// Simulated threads: real threads of which exactly one runs at a time, chosen by the seeded scheduler at instrumented
// memory accesses and synchronisation operations, with happens-before race detection.
#pragma once
#include <functional>
#include <vector>
#include "sim.h"

namespace sched {
constexpr int MAX_THREADS = 4;

/// Run all of @a bodies, each in a thread of its own, until all have finished.
void run(sim::Run &r, std::vector<std::function<void()>> const &bodies);

/// Current simulated thread, -1 if not in one.
int self();
/// Number of the operation the current thread performs, for reports.
void at_op(int n, char const *what);
/// Make the @a n th allocation of this thread from now fail, negative for none.
void arm_alloc(long n);
/// @return If an allocation of this thread failed since @c arm_alloc.
bool alloc_failed();
/// Finish: totals of the run.
struct Stats {
  uint64_t accesses = 0, syncs = 0, switches = 0, granules = 0, blocked = 0;
};
extern Stats g_stats;
/// Not simulated or observed while one of these is alive.
struct Pause {
  Pause();
  ~Pause();
};
} // namespace sched
