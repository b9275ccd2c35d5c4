I = "internal/ceres/"
SEEDS = [
dict(id="c05-forward-scan", property="C05",
 needs="slow removal; a parameter block used by a residual that the swap-with-last moves into an already scanned slot",
 breaks="RemoveParameterBlock leaves residual blocks behind that use the removed block",
 edits=[(I+"problem_impl.cc", """    const int num_residual_blocks = NumResidualBlocks();
    for (int i = num_residual_blocks - 1; i >= 0; --i) {""",
 """    for (int i = 0; i < NumResidualBlocks(); ++i) {""")],
 demo=r'''
#include "ceres/ceres.h"
struct C : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* x, double* r, double** j) const override { r[0] = x[0][0]; if (j && j[0]) j[0][0] = 1; return true; }
};
int main() {
  double a = 1, b = 2;
  ceres::Problem p;
  p.AddResidualBlock(new C, nullptr, &a);
  p.AddResidualBlock(new C, nullptr, &b);
  p.AddResidualBlock(new C, nullptr, &a);
  p.RemoveParameterBlock(&a);
  return p.NumResidualBlocks() == 1 && p.NumResiduals() == 1 ? 0 : 1;
}
'''),
dict(id="c02-wait-once", property="C02",
 needs="a second taker stealing the element between the wake-up of a waiter and its lock",
 breaks="a blocked taker returns empty-handed although the queue was never stopped, so pool threads die",
 edits=[(I+"concurrent_queue.h", """    work_pending_condition_.wait(lock,
                                 [&]() { return !(wait_ && queue_.empty()); });""",
 """    if (wait_ && queue_.empty()) {
      work_pending_condition_.wait(lock);
    }""")],
 lib="none", opt=1,
 demo=r'''
#include <atomic>
#include <thread>
#include "ceres/concurrent_queue.h"
int main() {
  for (int round = 0; round < 60; ++round) {
    ceres::internal::ConcurrentQueue<int> q;
    std::atomic<bool> stopped{false}, early{false}, waiting{false};
    std::thread t([&] {
      int v;
      waiting = true;
      while (q.Wait(&v)) {}
      if (!stopped) early = true;
    });
    while (!waiting) {}
    for (int i = 0; i < 3000; ++i) {
      q.Push(i);
      int v;
      q.Pop(&v);
      if (i % 100 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    stopped = !early;
    bool bad = early;
    q.StopWaiters();
    t.join();
    if (bad) return 1;
  }
  return 0;
}
'''),
dict(id="c21-tolerant-offset", property="C21",
 needs="a squared norm in the overflow branch of a tolerant loss whose offset is not negligible",
 breaks="the loss is discontinuous: it jumps where it switches to its overflow branch",
 edits=[(I+"loss_function.cc", "    rho[0] = s - a_ - c_;", "    rho[0] = s - a_;")],
 demo=r'''
#include <cmath>
#include "ceres/loss_function.h"
int main() {
  ceres::TolerantLoss l(1.0, 1.0);
  double a[3], b[3];
  l.Evaluate(37.0, a);
  l.Evaluate(39.0, b);
  return std::abs((b[0] - a[0]) - 2.0) < 1e-6 ? 0 : 1;
}
'''),
dict(id="c08-final-cost-first", property="C08",
 needs="a non-monotonic solve that stops while at a point worse than an earlier one",
 breaks="the point handed back is the last accepted one, not the best one, after a non-monotonic solve",
 edits=[(I+"trust_region_minimizer.cc", "    if (x_cost_ < minimum_cost_) {", "    if (x_cost_ < minimum_cost_ || options_.max_consecutive_nonmonotonic_steps > 4) {")],
 demo=r'''
#include <cmath>
#include <cstdio>
#include "ceres/ceres.h"
// A bumpy valley: non-monotonic steps climb out of small dents.
struct C : ceres::SizedCostFunction<2, 1> {
  double w;
  explicit C(double w) : w(w) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    const double v = x[0][0];
    r[0] = v + 3 * std::sin(w * v);
    r[1] = 0.1 * v * v - 1;
    if (j && j[0]) { j[0][0] = 1 + 3 * w * std::cos(w * v); j[0][1] = 0.2 * v; }
    return true;
  }
};
int main() {
  for (double w = 0.5; w < 6; w += 0.25)
    for (double s = -20; s < 20; s += 0.37)
      for (int n = 1; n < 12; ++n) {
        double x = s;
        ceres::Problem p;
        p.AddResidualBlock(new C(w), nullptr, &x);
        ceres::Solver::Options o;
        o.use_nonmonotonic_steps = true;
        o.max_num_iterations = n;
        o.linear_solver_type = ceres::DENSE_QR;
        o.logging_type = ceres::SILENT;
        ceres::Solver::Summary u;
        ceres::Solve(o, &p, &u);
        double c;
        p.Evaluate({}, &c, nullptr, nullptr, nullptr);
        if (!u.IsSolutionUsable()) continue;
        double best = u.initial_cost;
        for (auto& i : u.iterations) if (i.step_is_successful) best = std::min(best, i.cost);
        if (std::abs(c - best) > 1e-9 * (1 + best)) { std::printf("%g %g %d: %g best %g\n", w, s, n, c, best); return 1; }
      }
  return 0;
}
'''),
dict(id="c22-tiny-step", property="C22",
 needs="a tangent step shorter than 1e-6",
 breaks="quaternion Plus ignores small steps, so the difference of the moved point does not recover the move",
 edits=[(I+"manifold.cc", "  if (std::fpclassify(norm_delta) == FP_ZERO) {", "  if (norm_delta < 1e-6) {")],
 demo=r'''
#include <cmath>
#include "ceres/manifold.h"
int main() {
  ceres::QuaternionManifold m;
  const double x[4] = {0.5, 0.5, 0.5, 0.5}, d[3] = {3e-7, -2e-7, 1e-7};
  double y[4], e[3];
  m.Plus(x, d, y);
  m.Minus(y, x, e);
  for (int i = 0; i < 3; ++i) if (std::abs(e[i] - d[i]) > 1e-12) return 1;
  return 0;
}
'''),
dict(id="c07-constant-middle", property="C07",
 needs="a residual block with a constant block listed before a variable one whose column comes first",
 breaks="the sparse Jacobian takes the derivative of the wrong argument",
 edits=[(I+"compressed_row_jacobian_writer.cc", """          std::make_pair(parameter_block->index(), j));""",
 """          std::make_pair(parameter_block->index(),
                         static_cast<int>(evaluated_jacobian_blocks->size())));""")],
 demo=r'''
#include <cmath>
#include "ceres/ceres.h"
struct C : ceres::SizedCostFunction<1, 1, 1> {
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    r[0] = 2 * x[0][0] + 3 * x[1][0];
    if (j) { if (j[0]) j[0][0] = 2; if (j[1]) j[1][0] = 3; }
    return true;
  }
};
int main() {
  double a = 1, b = 2;
  ceres::Problem p;
  p.AddResidualBlock(new C, nullptr, &a, &b);
  p.SetParameterBlockConstant(&a);
  p.AddParameterBlock(&b, 1);
  ceres::CRSMatrix J;
  p.Evaluate({}, nullptr, nullptr, nullptr, &J);
  double s = 0;
  for (double v : J.values) s += v;
  return s == 3 ? 0 : 1;
}
'''),
]
