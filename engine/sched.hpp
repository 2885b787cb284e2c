// A cooperative scheduler for threads: one thread runs at a time, and hands over
// at loads and stores of the instrumented code (-fsanitize-coverage=
// trace-loads,trace-stores) where a seeded plan says so.  Without the
// instrumentation threads run one after the other.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched {

// n threads are about to enter().  About `switches` hand-overs are planned among
// `points` loads and stores; none when switches is 0.
void begin(size_t n, uint64_t seed, uint64_t points, uint64_t switches);
// Called in thread t: waits for its turn / says it is done.
void enter(size_t t);
// Returns the number of loads and stores this thread has passed.
uint64_t leave();
// Hand-overs since begin(), and whether the plan was given up because a thread
// waited for another one.
uint64_t handovers();
bool gaveUp();

}  // namespace sched
