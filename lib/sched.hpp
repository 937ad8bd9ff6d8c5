// Controlled scheduler and happens-before race detector.
//
// SeQuant's sources are compiled with -fsanitize=thread, but linked with the
// runtime in sched.cpp instead of the usual one: it sees every memory access
// and atomic operation, and replaces the pthread functions.  Inside run() only
// one thread runs at a time; at every operation on mutexes, condition variables,
// threads and sequentially consistent atomics the next thread is chosen by
// Case::choose, with a bound on the number of preemptions.  Accesses that no
// synchronization orders are races, whatever the schedule that was run.
#pragma once
#include <functional>

#include "lib/vf.hpp"
namespace sched {
struct Report {
  std::string race;                   // first race or use of released memory
  int threads = 0, points = 0, preemptions = 0;
};
/// runs f with all schedules of at most `bound` preemptions being explored by c
Report run(vf::Case& c, int bound, const std::function<void()>& f);
/// marks a synchronization-relevant plain access
void point();
}  // namespace sched
