// Controlled scheduler for the real multithreaded code.
//
// The code under test is compiled with -fsanitize=thread but linked against
// mcsched.cc instead of libtsan: every plain access, atomic and pthread call is
// intercepted.  All threads run as fibers of one OS thread; before each
// synchronisation operation the explorer decides (mc::Choose) which thread goes
// on.  Switching away from a thread that could continue costs one preemption;
// all schedules with at most `preemptions` of them are enumerated.  Plain
// accesses are not scheduling points; a vector-clock happens-before detector
// reports any pair of conflicting unordered accesses instead, so within the
// bound the combination covers plain accesses too.
#ifndef VERIF_MC_SCHED_H_
#define VERIF_MC_SCHED_H_
#include <functional>

namespace sched {
struct Options {
  int preemptions = 2;
  // 0: a thread runs until it blocks, and switching where it could continue
  // costs one preemption (who follows a blocked thread is free).  1: the threads
  // take turns at every operation.  2: the youngest enabled thread always runs.
  // 3: the oldest.  For 1-3 every deviation costs one preemption.
  int policy = 0;
  int spurious = 0;       // spurious wake-ups injected per execution
  int cpus = 4;           // reported hardware concurrency
  bool atomic_points = true;  // atomics are scheduling points
  bool races = true;
  int max_ops = 200000;   // horizon; longer executions are reported
};
// Runs body as thread 0.  Returns false if the execution was abandoned (a
// failure was recorded, or the choice prefix belongs to another shard): the
// caller must return at once then.
bool Explore(const Options& o, void (*body)(void*), void* arg);
template <typename F>
bool Explore(const Options& o, F&& f) {
  using T = std::remove_reference_t<F>;
  return Explore(o, [](void* p) { (*static_cast<T*>(p))(); }, const_cast<void*>(static_cast<const void*>(&f)));
}
int ThreadId();        // 0.. within Explore
int NumThreadsCreated();
int LiveThreads();     // threads created and not finished, without thread 0
void Yield();          // a free scheduling point
// Statistics of the current execution.
struct Stats {
  int ops, preemptions, threads, switches;
};
Stats Current();
// Access checks off/on for the calling thread (harness bookkeeping only).
struct Untracked {
  Untracked();
  ~Untracked();
};
}  // namespace sched
#endif
