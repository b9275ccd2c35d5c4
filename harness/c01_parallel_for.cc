// C01: ParallelFor / ParallelInvoke under every schedule.
#include <atomic>
#include <climits>
#include <memory>
#include <thread>
#include <tuple>

#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
#include "ceres/partition_range_for_parallel_for.h"
#include "mcsched.h"
#include "util.h"

using namespace ceres::internal;

namespace {
constexpr int kMax = 64;

// What the body of a loop records about itself.  Plain variables on purpose:
// the race detector then proves that bodies touching the same cell are ordered.
struct Loop {
  int start = 0, end = 0, threads = 0;
  int count[kMax] = {};
  bool returned = false;
  std::atomic<int> busy[8];
  int bad_index = -1000, bad_tid = -1000, clash = 0, late = 0;
  bool has_tid = true;
  Loop() { for (auto& b : busy) b.store(0, std::memory_order_relaxed); }

  void Index(int i) {
    if (i < start || i >= end) { bad_index = i; return; }
    ++count[i - start];
    if (returned) late = 1;
  }
  void Enter(int tid) {
    if (tid < 0 || tid >= threads) { bad_tid = tid; return; }
    // Acquire-free on purpose: the exchange must not order the bodies.
    if (busy[tid].exchange(1, std::memory_order_relaxed)) clash = 1;
  }
  void Leave(int tid) {
    if (tid < 0 || tid >= threads) return;
    busy[tid].store(0, std::memory_order_relaxed);
  }
  void Run(ContextImpl* context, int form, int min_block, const std::vector<int>* parts) {
    auto call = [&](auto&& f) {
      if (parts) ParallelFor(context, start, end, threads, f, *parts);
      else ParallelFor(context, start, end, threads, f, min_block);
    };
    switch (form) {
      case 0: call([this](int i) { Index(i); }); break;
      case 1: call([this](int tid, int i) { Enter(tid); Index(i); Leave(tid); }); break;
      case 2: call([this](std::tuple<int, int> r) {
        if (std::get<0>(r) >= std::get<1>(r)) bad_index = -999;
        for (int i = std::get<0>(r); i < std::get<1>(r); ++i) Index(i);
      }); break;
      default: call([this](int tid, std::tuple<int, int> r) {
        Enter(tid);
        if (std::get<0>(r) >= std::get<1>(r)) bad_index = -999;
        for (int i = std::get<0>(r); i < std::get<1>(r); ++i) Index(i);
        Leave(tid);
      });
    }
    returned = true;
  }
  void Check(const char* what) {
    const int n = std::max(0, end - start);
    for (int i = 0; i < n; ++i)
      MC_EXPECT(count[i] == 1) << what << ": index " << start + i << " of [" << start << "," << end << ") was called " << count[i] << " times";
    MC_EXPECT(bad_index == -1000) << what << ": body called with index or range " << bad_index << " outside [" << start << "," << end << ")";
    MC_EXPECT(bad_tid == -1000) << what << ": thread id " << bad_tid << " outside [0," << threads << ")";
    MC_EXPECT(!clash) << what << ": two bodies ran at the same time with the same thread id";
    MC_EXPECT(!late) << what << ": body ran after the loop returned";
  }
};

// Every shape; schedules with at most `preemptions` preemptions.
void Shape(int preemptions, int max_n, int max_threads, int max_pool, int max_min_block) {
  Loop loop;
  loop.threads = mc::Range(1, max_threads, "threads");
  const int pool = mc::Range(0, max_pool, "pool");
  const int n = mc::Range(0, max_n, "items");
  const int min_block = mc::Range(1, max_min_block, "min_block");
  loop.start = mc::Pick({0, 5}, "start");
  const int form = mc::Choose(4, "form");
  loop.end = loop.start + n;
  const bool ok = sched::Explore({.preemptions = preemptions}, [&] {
    ContextImpl context;
    context.EnsureMinimumThreads(pool);
    loop.Run(&context, form, min_block, nullptr);
  });
  if (!ok) return;
  if (sched::Current().threads <= 1) mc::Cover("single_thread");
  if (sched::Current().switches > 0) mc::Cover("switched");
  loop.Check("loop");
  mc::Outcome(mc::H()(loop.threads)(pool)(n)(form)(sched::Current().ops).h);
}
}  // namespace

MC_SCENARIO(shapes_1_preemption, .split = 7, .no_skip_throw = true, .weight = 2) { Shape(mc::Bound(2, 2), mc::Bound(5, 7), mc::Bound(3, 4), mc::Bound(2, 3), mc::Bound(3, 4)); }
MC_SCENARIO(shapes_more_preemptions, .split = 9, .no_skip_throw = true, .weight = 3) { Shape(mc::Bound(3, 3), mc::Bound(2, 4), 3, 2, mc::Bound(1, 2)); }
MC_SCENARIO(two_threads_deep, .split = 14, .no_skip_throw = true, .weight = 3) {
  Loop loop;
  loop.threads = 2;
  loop.start = 0;
  loop.end = mc::Range(2, mc::Bound(3, 4), "items");
  const bool ok = sched::Explore({.preemptions = mc::Bound(6, 9), .spurious = mc::Bound(1, 2)}, [&] {
    ContextImpl context;
    context.EnsureMinimumThreads(mc::Thorough() ? 2 : 1);
    loop.Run(&context, 1, 1, nullptr);
  });
  if (!ok) return;
  loop.Check("loop");
  mc::Outcome(mc::H()(sched::Current().ops)(sched::Current().switches).h);
}

// Loops in loops on one (possibly smaller, possibly empty) pool.
MC_SCENARIO(nested, .split = 14, .no_skip_throw = true, .weight = 2) {
  const int outer_threads = mc::Range(2, 3, "outer_threads"), inner_threads = mc::Range(1, 3, "inner_threads");
  const int pool = mc::Range(0, 2, "pool");
  const int inner_n = mc::Range(2, mc::Bound(2, 4), "inner_items");
  const int outer_n = 2;
  Loop outer, inner[2];
  outer.threads = outer_threads;
  outer.end = outer_n;
  for (auto& l : inner) { l.threads = inner_threads; l.end = inner_n; l.start = 1; ++l.end; }
  const bool ok = sched::Explore({.preemptions = mc::Bound(2, 3)}, [&] {
    ContextImpl context;
    context.EnsureMinimumThreads(pool);
    ParallelFor(&context, 0, outer_n, outer_threads, [&](int tid, int i) {
      outer.Enter(tid);
      outer.Index(i);
      inner[i].Run(&context, 1, 1, nullptr);
      outer.Leave(tid);
    });
    outer.returned = true;
  });
  if (!ok) return;
  outer.Check("outer");
  for (auto& l : inner) l.Check("inner");
  mc::Outcome(mc::H()(sched::Current().ops)(outer_threads)(inner_threads)(pool).h);
}

// Two threads that start loops on the same context, one after another.
MC_SCENARIO(shared_context, .split = 16, .no_skip_throw = true, .weight = 2) {
  const int pool = mc::Range(0, 2, "pool");
  const int nt = mc::Range(2, 3, "threads");
  const int n = mc::Range(2, 3, "items");
  Loop a, b, c;
  for (Loop* l : {&a, &b, &c}) { l->threads = nt; l->end = n; }
  const bool ok = sched::Explore({.preemptions = pool == 1 && n == 2 ? mc::Bound(2, 3) : mc::Bound(1, 2)}, [&] {
    ContextImpl context;
    context.EnsureMinimumThreads(pool);
    std::thread other([&] { b.Run(&context, 1, 1, nullptr); });
    a.Run(&context, 1, 1, nullptr);
    c.Run(&context, 3, 1, nullptr);
    other.join();
  });
  if (!ok) return;
  a.Check("first");
  b.Check("second thread");
  c.Check("second loop");
  mc::Outcome(mc::H()(sched::Current().ops)(pool)(nt)(n).h);
}

// User supplied partitions: every increasing list.
MC_SCENARIO(partitions, .split = 5, .no_skip_throw = true) {
  Loop loop;
  loop.threads = mc::Range(1, 3, "threads");
  const int n = mc::Range(1, mc::Bound(5, 7), "items");
  loop.start = mc::Pick({0, 2}, "start");
  loop.end = loop.start + n;
  std::vector<int> parts{loop.start};
  for (int i = 1; i < n; ++i)
    if (mc::Flip("cut")) parts.push_back(loop.start + i);
  parts.push_back(loop.end);
  const int form = mc::Choose(4, "form");
  const bool ok = sched::Explore({.preemptions = mc::Bound(1, 2)}, [&] {
    ContextImpl context;
    context.EnsureMinimumThreads(1);
    loop.Run(&context, form, 1, &parts);
  });
  if (!ok) return;
  loop.Check("partitioned loop");
  mc::Outcome(mc::H()(parts)(loop.threads)(sched::Current().ops).h);
}

// Per-index costs: every cost vector; the partition is also checked against
// exhaustive search for the smallest possible largest cost.
MC_SCENARIO(costs, .split = 5, .no_skip_throw = true, .weight = 2) {
  const int n = mc::Range(1, mc::Bound(6, 7), "items");
  const int start = mc::Pick({0, 1, 3}, "start");
  std::vector<int> cumulative;
  std::vector<int> cost;
  int sum = 0;
  for (int i = 0; i < start; ++i) cumulative.push_back(sum += 1 + i);
  // Cumulative costs are ints; their unit may take them up to the largest int.
  const int unit = n <= 5 && start < 3 ? mc::Pick({1, 85899345}, "unit") : 1;
  if (unit > 1 && start > 0 && mc::Choose(2, "large offset")) sum = cumulative[0] = INT_MAX - n * 5 * unit;
  for (int i = 0; i < n; ++i) {
    cost.push_back(mc::Pick({1, 0, 5}, "cost") * unit);
    cumulative.push_back(sum += cost.back());
  }
  auto fun = [](const int& c) { return c; };
  const int parts_max = mc::Range(1, 4, "max_partitions");
  const auto p = PartitionRangeForParallelFor(start, start + n, parts_max, cumulative.data(), fun);
  MC_REQUIRE(p.size() >= 2 && p.front() == start && p.back() == start + n) << "partition " << vu::Str(p, p.size()) << " of [" << start << "," << start + n << ")";
  MC_REQUIRE(static_cast<int>(p.size()) - 1 <= parts_max) << "more partitions than asked for: " << vu::Str(p, p.size());
  int worst = 0;
  for (size_t k = 0; k + 1 < p.size(); ++k) {
    MC_REQUIRE(p[k] < p[k + 1]) << "empty or reversed partition in " << vu::Str(p, p.size());
    int c = 0;
    for (int i = p[k]; i < p[k + 1]; ++i) c += cost[i - start];
    worst = std::max(worst, c);
  }
  // best[k][i]: smallest largest cost of the first i items in k parts
  std::vector<std::vector<int>> best(parts_max + 1, std::vector<int>(n + 1, INT_MAX));
  best[0][0] = 0;
  for (int k = 1; k <= parts_max; ++k)
    for (int i = 1; i <= n; ++i) {
      int c = 0;
      for (int j = i - 1; j >= 0; --j) { c += cost[j]; best[k][i] = std::min(best[k][i], std::max(best[k - 1][j], c)); }
    }
  int opt = INT_MAX;
  for (int k = 1; k <= parts_max; ++k) opt = std::min(opt, best[k][n]);
  MC_REQUIRE(worst == opt) << "largest partition cost " << worst << " but " << opt << " is possible; costs " << vu::Str(cost, n) << " partition " << vu::Str(p, p.size());
  mc::Outcome(mc::H()(p).h);
  mc::Step();
  if (parts_max != 2 || start == 1) return;
  Loop loop;
  loop.threads = mc::Range(1, 3, "threads");
  loop.start = start;
  loop.end = start + n;
  const bool ok = sched::Explore({.preemptions = 0}, [&] {
    ContextImpl context;
    context.EnsureMinimumThreads(1);
    ParallelFor(&context, loop.start, loop.end, loop.threads, [&](int tid, int i) { loop.Enter(tid); loop.Index(i); loop.Leave(tid); }, cumulative.data(), fun);
    loop.returned = true;
  });
  if (!ok) return;
  loop.Check("cost partitioned loop");
}
