/* Deterministic thread simulation: real threads parked and released one at a
 * time; the script decides every switch. */
#ifndef VERIF_THREADS_HPP
#define VERIF_THREADS_HPP
#include "sim.hpp"
#include <functional>
namespace sim {
struct SchedPlan {
  struct Preempt {
    long step;
    int to;
  };
  struct Burst {
    long start, len, every;
  };
  std::vector<Preempt> pre;
  std::vector<Burst> burst;
  uint64_t seed = 1;
  /* parses "preempt <step> <to>", "burst <start> <len> <every>", "sched <seed>" */
  void feed(const Tok &t);
  static void gen(Rng &r, Script &s, int nthreads, long maxsteps);
};
/* run the bodies as simulated threads to completion; a race or a deadlock
 * ends the run as a violation */
void run_threads(const SchedPlan &plan, const std::vector<std::function<void()>> &bodies);
long sched_steps();
long sched_switches();
/* run f in a forked copy of this process and return the bytes it produced */
std::string in_fresh_process(const std::function<std::string()> &f);
} // namespace sim
#endif
