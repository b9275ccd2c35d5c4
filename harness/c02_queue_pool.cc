// C02: ConcurrentQueue, ThreadPool and ThreadTokenProvider under every schedule.
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <thread>

#include "ceres/concurrent_queue.h"
#include "ceres/thread_pool.h"
#include "ceres/thread_token_provider.h"
#include "mcsched.h"
#include "util.h"

using namespace ceres::internal;

namespace {
enum Kind { kPush, kPop, kWait, kStop, kEnable };
const char* kNames[] = {"Push", "Pop", "Wait", "StopWaiters", "EnableWaiters"};

struct Op {
  Kind kind;
  int arg = 0;        // pushed value
  bool ok = false;    // result
  int value = -1;
  int called = -1, returned = -1;  // logical times
  bool done = false;
};

// Brute force search for a sequential order of the operations that respects
// real time and the FIFO specification.
struct Linearizer {
  std::vector<Op*> ops;
  bool Search(uint32_t taken, std::deque<int>& q, bool stopped) {
    if (taken == (1u << ops.size()) - 1) return true;
    int limit = 1 << 30;  // an operation may go first only if none returned before its call
    for (size_t i = 0; i < ops.size(); ++i)
      if (!(taken >> i & 1) && ops[i]->done) limit = std::min(limit, ops[i]->returned);
    for (size_t i = 0; i < ops.size(); ++i) {
      if (taken >> i & 1) continue;
      Op& o = *ops[i];
      if (o.called > limit) continue;
      const std::deque<int> saved = q;
      const bool saved_stop = stopped;
      bool legal = true;
      switch (o.kind) {
        case kPush: q.push_back(o.arg); break;
        case kStop: stopped = true; break;
        case kEnable: stopped = false; break;
        case kWait:
          if (q.empty() && !stopped) { legal = false; break; }
          [[fallthrough]];
        case kPop:
          if (o.ok) {
            legal = !q.empty() && q.front() == o.value;
            if (legal) q.pop_front();
          } else {
            legal = q.empty();
          }
          break;
      }
      if (legal && Search(taken | 1u << i, q, stopped)) return true;
      q = saved;
      stopped = saved_stop;
    }
    return false;
  }
};

struct Clock {
  int now = 0;
};

void Execute(ConcurrentQueue<int>* q, Op* o, Clock* clock) {
  { sched::Untracked u; o->called = clock->now++; }
  switch (o->kind) {
    case kPush: q->Push(o->arg); break;
    case kPop: o->ok = q->Pop(&o->value); break;
    case kWait: o->ok = q->Wait(&o->value); break;
    case kStop: q->StopWaiters(); break;
    case kEnable: q->EnableWaiters(); break;
  }
  { sched::Untracked u; o->returned = clock->now++; o->done = true; }
}

std::string Describe(const std::vector<std::vector<Op>>& programs) {
  std::ostringstream s;
  for (auto& p : programs) {
    s << " {";
    for (auto& o : p) {
      s << " " << kNames[o.kind];
      if (o.kind == kPush) s << "(" << o.arg << ")";
      if (o.kind == kPop || o.kind == kWait) { if (o.ok) s << "=" << o.value; else s << "=none"; }
      s << "@" << o.called << "-" << o.returned;
    }
    s << " }";
  }
  return s.str();
}

void RunPrograms(std::vector<std::vector<Op>> programs, int preemptions, int spurious) {
  Clock clock;
  const bool ok = sched::Explore({.preemptions = preemptions, .spurious = spurious}, [&] {
    ConcurrentQueue<int> q;
    std::vector<std::thread> t;
    for (size_t i = 1; i < programs.size(); ++i)
      t.emplace_back([&, i] { for (auto& o : programs[i]) Execute(&q, &o, &clock); });
    for (auto& o : programs[0]) Execute(&q, &o, &clock);
    for (auto& x : t) x.join();
  });
  if (!ok) return;
  Linearizer lin;
  for (auto& p : programs) for (auto& o : p) lin.ops.push_back(&o);
  std::deque<int> q;
  MC_EXPECT(lin.Search(0, q, false)) << "no sequential FIFO order explains:" << Describe(programs);
  mc::H h;
  for (auto& p : programs) for (auto& o : p) h(o.ok)(o.value);
  mc::Outcome(h.h);
}
}  // namespace

// Two or three threads, any one to two operations each; a final stop by the
// main thread guarantees termination, so a blocked thread is a lost wake-up.
MC_SCENARIO(queue_linearizable, .split = 8, .no_skip_throw = true, .weight = 3) {
  const int nt = 2;
  std::vector<std::vector<Op>> programs(nt + 1);
  int value = 1;
  for (int t = 1; t <= nt; ++t) {
    const int len = mc::Range(1, 2, "length");
    for (int i = 0; i < len; ++i) {
      Op o;
      o.kind = static_cast<Kind>(mc::Choose(3, "op"));
      if (o.kind == kPush) o.arg = value++;
      programs[t].push_back(o);
    }
  }
  // Main: optionally pushes, always stops the waiters, then drains.
  const int pushes = mc::Range(0, 1, "main_pushes");
  for (int i = 0; i < pushes; ++i) programs[0].push_back({kPush, 100 + i});
  programs[0].push_back({kStop});
  if (mc::Flip("main_takes")) programs[0].push_back({kWait});
  RunPrograms(programs, mc::Bound(3, 4), 1);
}
MC_SCENARIO(queue_three_threads, .split = 8, .no_skip_throw = true, .weight = 2) {
  std::vector<std::vector<Op>> programs(4);
  int value = 1;
  for (int t = 1; t <= 3; ++t) {
    const int len = t == 1 ? mc::Range(1, 2, "length") : 1;
    for (int i = 0; i < len; ++i) {
      Op o;
      o.kind = static_cast<Kind>(mc::Choose(3, "op"));
      if (o.kind == kPush) o.arg = value++;
      programs[t].push_back(o);
    }
  }
  programs[0].push_back({kStop});
  RunPrograms(programs, mc::Bound(2, 3), 0);
}
// As many pushes as takers and no stop: every taker must be woken.
MC_SCENARIO(queue_wakeups, .split = 8, .no_skip_throw = true, .weight = 2) {
  const int takers = mc::Range(1, 3, "takers");
  const int pushers = mc::Range(1, std::min(takers, 2), "pushers");
  std::vector<std::vector<Op>> programs(1 + takers + pushers - 1);
  for (int i = 0; i < takers; ++i) programs[1 + i].push_back({kWait});
  for (int i = 0; i < takers; ++i) {
    const int p = i % pushers;
    programs[p == 0 ? 0 : takers + p].push_back({kPush, i + 1});
  }
  RunPrograms(programs, takers == 3 ? mc::Bound(2, 3) : mc::Bound(4, 5), 1);
}
// Stopping wakes all, whether or not something is queued; later waiters do not
// block until waiting is enabled again.
MC_SCENARIO(queue_stop, .split = 8, .no_skip_throw = true) {
  const int takers = mc::Range(1, 3, "takers");
  const int queued = mc::Range(0, 2, "queued");
  std::vector<std::vector<Op>> programs(1 + takers);
  for (int i = 0; i < takers; ++i) {
    programs[1 + i].push_back({kWait});
    programs[1 + i].push_back({kWait});
  }
  const int at = mc::Range(0, queued, "stop_after");
  for (int i = 0; i < queued; ++i) {
    if (i == at) programs[0].push_back({kStop});
    programs[0].push_back({kPush, i + 1});
  }
  if (at == queued) programs[0].push_back({kStop});
  RunPrograms(programs, takers == 3 ? 1 : mc::Bound(2, 3), 0);
}
// One thread: every sequence of operations that cannot block.
MC_SCENARIO(queue_sequential, .split = 3) {
  ConcurrentQueue<int> q;
  std::deque<int> model;
  bool stopped = false;
  int next = 1;
  const int depth = mc::Bound(8, 10);
  for (int i = 0; i < depth; ++i) {
    const Kind k = static_cast<Kind>(mc::Choose(5, "op"));
    int v = -1;
    bool ok = false;
    mc::Step();
    switch (k) {
      case kPush: q.Push(next); model.push_back(next++); continue;
      case kStop: q.StopWaiters(); stopped = true; continue;
      case kEnable: q.EnableWaiters(); stopped = false; continue;
      case kWait:
        if (model.empty() && !stopped) continue;  // would block, by contract
        ok = q.Wait(&v);
        break;
      case kPop: ok = q.Pop(&v); break;
    }
    MC_REQUIRE(ok == !model.empty()) << kNames[k] << " returned " << ok << " with " << model.size() << " elements queued";
    if (ok) {
      MC_REQUIRE(v == model.front()) << kNames[k] << " returned " << v << ", expected " << model.front();
      model.pop_front();
    }
    mc::State(mc::H()(static_cast<int>(model.size()))(stopped)(model.empty() ? 0 : model.front()).h);
    mc::Outcome(mc::H()(ok)(v)(i).h);
  }
}

// ---- thread pool -----------------------------------------------------------
namespace {
struct Tasks {
  int ran[12] = {};
  int finished[12] = {};
};
}  // namespace

MC_SCENARIO(pool_runs_all, .split = 9, .no_skip_throw = true, .weight = 9) {
  const int size = mc::Range(1, 3, "size"), cpus = mc::Range(1, 3, "cpus");
  const int tasks = mc::Range(0, mc::Bound(3, 4), "tasks");
  const int nested = mc::Range(0, 2, "nested");       // tasks added by task 0
  const int resize = mc::Range(0, 3, "resize");       // later resize, 0 = none
  const bool via_ctor = mc::Flip("sized_constructor");
  Tasks st;
  int size_seen = -1;
  const bool ok = sched::Explore({.preemptions = size == 3 ? 1 : mc::Bound(2, 3), .cpus = cpus}, [&] {
    std::unique_ptr<ThreadPool> pool(via_ctor ? new ThreadPool(size) : new ThreadPool());
    if (!via_ctor) pool->Resize(size);
    ThreadPool* p = pool.get();
    for (int i = 0; i < tasks; ++i) {
      p->AddTask([&st, p, i, nested] {
        ++st.ran[i];
        if (i == 0)
          for (int k = 0; k < nested; ++k) p->AddTask([&st, k] { ++st.ran[6 + k]; st.finished[6 + k] = 1; });
        st.finished[i] = 1;
      });
      if (i == 0 && resize > 0) p->Resize(resize);
    }
    size_seen = p->Size();
    pool.reset();
    // No task may still be running or run later: the race detector checks it.
    for (int i = 0; i < 12; ++i) st.finished[i] += 10;
  });
  if (!ok) return;
  for (int i = 0; i < tasks; ++i)
    MC_EXPECT(st.ran[i] == 1 && st.finished[i] == 11) << "task " << i << " ran " << st.ran[i] << " times by the time the destructor returned";
  for (int k = 0; k < (tasks > 0 ? nested : 0); ++k)
    MC_EXPECT(st.ran[6 + k] == 1 && st.finished[6 + k] == 11) << "nested task " << k << " ran " << st.ran[6 + k] << " times";
  const int want = std::min(tasks > 0 ? std::max(size, resize) : size, cpus);
  MC_EXPECT(sched::NumThreadsCreated() == want) << "created " << sched::NumThreadsCreated() << " threads, requested " << want;
  MC_EXPECT(size_seen == want) << "Size() is " << size_seen << ", requested " << want;
  MC_EXPECT(sched::LiveThreads() == 0) << "threads alive after the destructor";
  mc::Outcome(mc::H()(sched::Current().ops)(size)(tasks)(nested).h);
}
// Two threads resizing and adding at the same time.
MC_SCENARIO(pool_concurrent_use, .split = 8, .no_skip_throw = true, .weight = 2) {
  const int r1 = mc::Range(0, 2, "resize_main"), r2 = mc::Range(0, 3, "resize_other");
  const int r0 = mc::Range(0, 1, "initial");
  if (std::max({r0, r1, r2}) == 0) { mc::Trivial(); return; }
  Tasks st;
  const bool ok = sched::Explore({.preemptions = std::max({r0, r1, r2}) > 2 ? mc::Bound(1, 2) : 2}, [&] {
    ThreadPool pool(r0);
    std::thread other([&] {
      pool.Resize(r2);
      pool.AddTask([&] { ++st.ran[0]; });
    });
    pool.AddTask([&] { ++st.ran[1]; });
    pool.Resize(r1);
    other.join();
  });
  if (!ok) return;
  MC_EXPECT(st.ran[0] == 1 && st.ran[1] == 1) << "tasks ran " << st.ran[0] << " and " << st.ran[1] << " times";
  MC_EXPECT(sched::NumThreadsCreated() - 1 == std::max({r0, r1, r2})) << "created " << sched::NumThreadsCreated() - 1 << " worker threads for requests " << r0 << " " << r1 << " " << r2;
  mc::Outcome(mc::H()(sched::Current().ops)(r1)(r2)(r0).h);
}

// ---- tokens -----------------------------------------------------------------
MC_SCENARIO(tokens, .split = 8, .no_skip_throw = true, .weight = 2) {
  const int n = mc::Range(1, 3, "tokens"), threads = mc::Range(1, 3, "threads");
  const int rounds = mc::Range(1, 2, "rounds");
  int bad = 0, range = 0, held[4] = {};
  const bool ok = sched::Explore({.preemptions = threads == 3 ? mc::Bound(1, 2) : mc::Bound(3, 4), .spurious = 1}, [&] {
    ThreadTokenProvider provider(n);
    auto work = [&] {
      for (int r = 0; r < rounds; ++r) {
        const int t = provider.Acquire();
        if (t < 0 || t >= n) { range = 1; return; }
        { sched::Untracked u; if (held[t]++) bad = 1; }
        if (rounds == 1) sched::Yield();
        { sched::Untracked u; --held[t]; }
        provider.Release(t);
      }
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < threads; ++i) ts.emplace_back(work);
    work();
    for (auto& t : ts) t.join();
    // All tokens are back.
    std::set<int> all;
    for (int i = 0; i < n; ++i) all.insert(provider.Acquire());
    if (static_cast<int>(all.size()) != n) bad = 2;
  });
  if (!ok) return;
  MC_EXPECT(!range) << "token outside the range";
  MC_EXPECT(bad != 1) << "two threads held the same token";
  MC_EXPECT(bad != 2) << "tokens duplicated";
  mc::Outcome(mc::H()(sched::Current().ops)(n)(threads).h);
}
