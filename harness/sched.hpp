// Controlled scheduler: runs the threads of the code under test as fibers and asks the explorer at every shared memory
// access (and lock, wait, and region boundary) which thread continues.
//
// The code under test is compiled with -fsanitize=thread, but linked against the hooks in sched.cpp instead of the
// sanitizer's run-time, so every load, store and atomic operation outside the running fiber's own stack is a point at
// which another thread may take over. OpenMP regions (compiled with -fopenmp) run on fibers through the libgomp entry
// points defined there; pthread mutexes and condition variables are interposed.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <functional>
#include <vector>

#include "mc.hpp"

namespace sched {
// Number of pre-emptions (switches away from a thread that could have continued) per execution.
struct Config {
  mc::Run* run = nullptr;
  int preemptions = 0;
  int omp_threads = 1;
  bool access_points = true;  // shared accesses are scheduling points
  bool (*watch)(const void*) = nullptr;  // if set, only accesses to memory it accepts are scheduling points
  bool ordered_start = false;  // threads are started and resumed in turn; other orders cost a pre-emption each
};
extern Config cfg;
// Runs the bodies as concurrent threads until all have finished. Throws whatever a body or the explorer throws; a
// state in which no thread can continue is a violation.
void run_threads(const std::vector<std::function<void()>>& bodies);
void yield(const char* label = "yield");  // explicit scheduling point
// Blocks the current fiber until the predicate holds (it is evaluated by the scheduler).
void wait_until(const std::function<bool()>& pred, const char* what);
bool in_fiber();
int fiber_id();
// Within this scope (of one fiber, without waiting or calling the code under test) nothing is a scheduling point.
struct Quiet {
  bool old;
  Quiet();
  ~Quiet();
};
uint64_t points();    // scheduling points met so far in this process
uint64_t switches();  // pre-emptions taken so far

struct Scope {  // enables exploration of parallel regions within a scope
  Scope(mc::Run& r, int preemptions, int omp_threads) {
    cfg.run = &r;
    cfg.preemptions = preemptions;
    cfg.omp_threads = omp_threads;
    cfg.ordered_start = false;
    cfg.access_points = true;
    cfg.watch = nullptr;
  }
  ~Scope() {
    cfg.run = nullptr;
    cfg.watch = nullptr;
  }
};
}  // namespace sched
#endif
