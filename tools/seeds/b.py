I = "internal/ceres/"
P = "include/ceres/"
SEEDS = [
dict(id="c01-midpoint-overflow", property="C01",
 needs="cumulative costs of more than about 1.4e9 in a loop that is split by cost",
 breaks="the search for the most even split overflows: it never ends or splits badly",
 edits=[(I+"partition_range_for_parallel_for.h", """        partition_cost_lower_bound +
        (partition_cost_upper_bound - partition_cost_lower_bound) / 2;""",
 """        (partition_cost_lower_bound + partition_cost_upper_bound) / 2;""")],
 lib="none", opt=1,
 demo=r'''
#include <algorithm>
#include <vector>
#include "ceres/partition_range_for_parallel_for.h"
int main() {
  std::vector<int> c = {500000000, 1000000000, 1500000000, 2000000000};
  auto p = ceres::internal::PartitionRangeForParallelFor(0, 4, 2, c.data(), [](const int& x) { return x; });
  return p == std::vector<int>{0, 2, 4} ? 0 : 1;
}
'''),
dict(id="c02-drop-pending", property="C02",
 needs="a pool destroyed (or a queue stopped) while tasks are still queued",
 breaks="pending tasks are dropped when the queue is stopped",
 edits=[(I+"concurrent_queue.h", """                                 [&]() { return !(wait_ && queue_.empty()); });

    return PopUnlocked(value);""", """                                 [&]() { return !(wait_ && queue_.empty()); });

    return wait_ && PopUnlocked(value);""")],
 lib="none", opt=1,
 demo=r'''
#include "ceres/concurrent_queue.h"
int main() {
  ceres::internal::ConcurrentQueue<int> q;
  q.Push(1);
  q.Push(2);
  q.StopWaiters();
  int v = 0, n = 0;
  while (q.Wait(&v)) ++n;
  return n == 2 ? 0 : 1;
}
'''),
dict(id="c03-scratch-by-block", property="C03",
 needs="two threads evaluating residual blocks whose numbers are equal modulo the number of threads, at the same time",
 breaks="two threads share one scratch buffer",
 edits=[(I+"program_evaluator.h", "EvaluateScratch* scratch = &evaluate_scratch_[thread_id];",
  "EvaluateScratch* scratch =\n              &evaluate_scratch_[i % options_.num_threads];")],
 demo=r'''
#include <chrono>
#include <thread>
#include "ceres/ceres.h"
struct C : ceres::SizedCostFunction<1, 2> {
  double k;
  explicit C(double k) : k(k) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    r[0] = k;
    if (j && j[0]) j[0][0] = j[0][1] = k;
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    return true;
  }
};
int main() {
  std::vector<std::vector<double>> x(64, {1, 2});
  ceres::Problem p;
  for (size_t i = 0; i < x.size(); ++i) {
    p.AddResidualBlock(new C(i), nullptr, x[i].data());
    p.SetManifold(x[i].data(), new ceres::SubsetManifold(2, {0}));
  }
  ceres::Problem::EvaluateOptions o;
  o.num_threads = 4;
  for (int round = 0; round < 10; ++round) {
    double cost;
    std::vector<double> g, r;
    ceres::CRSMatrix J;
    if (!p.Evaluate(o, &cost, &r, &g, &J)) return 1;
    double want = 0;
    for (size_t i = 0; i < x.size(); ++i) {
      want += 0.5 * i * i;
      if (J.values[i] != i || g[i] != double(i) * i) return 1;
    }
    if (cost != want) return 1;
  }
  return 0;
}
'''),
dict(id="c05-keep-upper-bound", property="C05",
 needs="resetting an upper bound to infinity after it was set",
 breaks="the old bound stays in force",
 edits=[(I+"parameter_block.h", "if (upper_bound >= std::numeric_limits<double>::max() && !upper_bounds_) {",
  "if (upper_bound >= std::numeric_limits<double>::max()) {")],
 demo=r'''
#include <limits>
#include "ceres/ceres.h"
int main() {
  double x[2] = {0, 0};
  ceres::Problem p;
  p.AddParameterBlock(x, 2);
  p.SetParameterUpperBound(x, 1, 3.0);
  p.SetParameterUpperBound(x, 1, std::numeric_limits<double>::max());
  return p.GetParameterUpperBound(x, 1) == std::numeric_limits<double>::max() ? 0 : 1;
}
'''),
dict(id="c07-nested-parameters", property="C07",
 needs="a cost function that evaluates another problem inside its own evaluation",
 breaks="the outer cost function sees the inner problem's parameters",
 edits=[(I+"residual_block.cc", "  absl::FixedArray<const double*> parameters(num_parameter_blocks);",
  "  static thread_local std::vector<const double*> parameters;\n  parameters.resize(std::max<size_t>(parameters.size(), num_parameter_blocks));")],
 demo=r'''
#include "ceres/ceres.h"
struct Inner : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* x, double* r, double** j) const override { r[0] = x[0][0]; if (j && j[0]) j[0][0] = 1; return true; }
};
struct Outer : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    double y = 40, cost;
    ceres::Problem p;
    p.AddResidualBlock(new Inner, nullptr, &y);
    p.Evaluate({}, &cost, nullptr, nullptr, nullptr);
    r[0] = x[0][0];
    if (j && j[0]) j[0][0] = 1;
    return true;
  }
};
int main() {
  double x = 2, cost;
  ceres::Problem p;
  p.AddResidualBlock(new Outer, nullptr, &x);
  return p.Evaluate({}, &cost, nullptr, nullptr, nullptr) && cost == 2 ? 0 : 1;
}
'''),
dict(id="c10-last-callback", property="C10",
 needs="a solve that ends by reaching its iteration limit",
 breaks="the callbacks are not run for the last iteration",
 edits=[(I+"trust_region_minimizer.cc", """  if (!RunCallbacks(options_, iteration_summary_, solver_summary_)) {
    return false;
  }

  if (MaxSolverTimeReached()) {
    return false;
  }

  if (MaxSolverIterationsReached()) {
    return false;
  }
""", """  if (MaxSolverTimeReached()) {
    return false;
  }

  if (MaxSolverIterationsReached()) {
    return false;
  }

  if (!RunCallbacks(options_, iteration_summary_, solver_summary_)) {
    return false;
  }
""")],
 demo=r'''
#include "ceres/ceres.h"
struct C : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* x, double* r, double** j) const override { r[0] = x[0][0] * x[0][0]; if (j && j[0]) j[0][0] = 2 * x[0][0]; return true; }
};
struct B : ceres::IterationCallback {
  size_t n = 0;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override { ++n; return ceres::SOLVER_CONTINUE; }
};
int main() {
  double x = 2;
  ceres::Problem p;
  p.AddResidualBlock(new C, nullptr, &x);
  ceres::Solver::Options o;
  B b;
  o.callbacks.push_back(&b);
  o.max_num_iterations = 3;
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  return b.n == s.iterations.size() && b.n == 4 ? 0 : 1;
}
'''),
dict(id="c12-replace-newest", property="C12",
 needs="more updates of the L-BFGS approximation than its rank",
 breaks="the newest correction instead of the oldest is overwritten",
 edits=[(I+"low_rank_inverse_hessian.cc", """    next = indices_.front();
    indices_.pop_front();""", """    next = indices_.back();
    indices_.pop_back();""")],
 demo=r'''
#include <cmath>
#include "ceres/internal/eigen.h"
#include "ceres/low_rank_inverse_hessian.h"
int main() {
  // Exact line searches along conjugate directions of diag(1, 2, 4): the last two
  // corrections must both satisfy the secant equation.
  ceres::internal::LowRankInverseHessian h(3, 2, false);
  ceres::Vector d[3], g[3];
  for (int i = 0; i < 3; ++i) {
    d[i] = ceres::Vector::Unit(3, i);
    g[i] = d[i] * double(1 << i) * 3;
    h.Update(d[i], g[i]);
  }
  for (int i = 1; i < 3; ++i) {
    ceres::Vector y = ceres::Vector::Zero(3);
    h.RightMultiplyAndAccumulate(g[i].data(), y.data());
    if ((y - d[i]).norm() > 1e-12) return 1;
  }
  return 0;
}
'''),
dict(id="c18-scale-by-own-part", property="C18",
 needs="dividing or multiplying a dual number by its own scalar part in place",
 breaks="the derivatives are scaled by the already changed scalar part",
 edits=[(P+"jet.h", """  Jet<T, N>& operator*=(const T& s) {
    *this = *this * s;""", """  Jet<T, N>& operator*=(const T& s) {
    a *= s;
    v *= s;"""), (P+"jet.h", """  Jet<T, N>& operator/=(const T& s) {
    *this = *this / s;""", """  Jet<T, N>& operator/=(const T& s) {
    a /= s;
    v /= s;""")],
 lib="none",
 demo=r'''
#include "ceres/jet.h"
int main() {
  ceres::Jet<double, 2> x(4.0);
  x.v << 8.0, 12.0;
  x /= x.a;
  ceres::Jet<double, 2> y(4.0);
  y.v << 8.0, 12.0;
  y *= y.a;
  return x.a == 1 && x.v[0] == 2 && x.v[1] == 3 && y.a == 16 && y.v[0] == 32 ? 0 : 1;
}
'''),
dict(id="c19-section-cursor", property="C19",
 needs="a dynamic autodiff cost function with a constant block after one that is not, and another one behind it",
 breaks="parameters behind a constant block lose their derivatives",
 edits=[(P+"dynamic_autodiff_cost_function.h", """              ++current_derivative_section;
              current_derivative_section_cursor = 0;""", """              ++current_derivative_section;""", 2)],
 demo=r'''
#include "ceres/ceres.h"
struct F {
  template <typename T> bool operator()(T const* const* x, T* r) const {
    r[0] = x[0][0] + x[0][1] * 2.0 + x[1][0] * 3.0 + x[2][0] * 5.0 + x[2][1] * 7.0;
    return true;
  }
};
int main() {
  ceres::DynamicAutoDiffCostFunction<F, 3> f(new F);
  f.AddParameterBlock(2); f.AddParameterBlock(1); f.AddParameterBlock(2);
  f.SetNumResiduals(1);
  double a[2] = {1, 2}, b = 3, c[2] = {4, 5}, r, ja[2] = {0, 0}, jc[2] = {0, 0};
  const double* x[3] = {a, &b, c};
  double* j[3] = {ja, nullptr, jc};
  return f.Evaluate(x, &r, j) && ja[0] == 1 && ja[1] == 2 && jc[0] == 5 && jc[1] == 7 ? 0 : 1;
}
'''),
dict(id="c20-error-per-block", property="C20",
 needs="a wrong derivative in a parameter block that is not the last one",
 breaks="the largest relative error reported is that of the last block only",
 edits=[(I+"gradient_checker.cc", """  for (int k = 0; k < function_->parameter_block_sizes().size(); k++) {
    absl::StrAppendFormat(&error_log,
                          "========== \"""", """  for (int k = 0; k < function_->parameter_block_sizes().size(); k++) {
    worst_relative_error = 0;
    absl::StrAppendFormat(&error_log,
                          "========== \"""")],
 demo=r'''
#include "ceres/ceres.h"
#include "ceres/gradient_checker.h"
struct C : ceres::SizedCostFunction<1, 1, 1> {
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    r[0] = x[0][0] + x[1][0];
    if (j && j[0]) j[0][0] = 2;
    if (j && j[1]) j[1][0] = 1;
    return true;
  }
};
int main() {
  C c;
  ceres::GradientChecker g(&c, nullptr, ceres::NumericDiffOptions());
  double a = 1, b = 2;
  const double* x[2] = {&a, &b};
  ceres::GradientChecker::ProbeResults r;
  return !g.Probe(x, 1e-6, &r) && r.maximum_relative_error > 0.4 ? 0 : 1;
}
'''),
dict(id="c23-largest-diagonal", property="C23",
 needs="a rotation by nearly 180 degrees about an axis close to y with a tiny z component",
 breaks="the quaternion of such a rotation matrix loses half its digits",
 edits=[(P+"rotation.h", "    if (R(2, 2) > R(i, i)) {", "    if (R(2, 2) > R(0, 0)) {")],
 lib="none",
 demo=r'''
#include <cmath>
#include "ceres/rotation.h"
int main() {
  double n = std::sqrt(1 + 1e-14), q[4] = {0, 0, 1 / n, 1e-7 / n}, R[9], p[4];
  ceres::QuaternionToRotation(q, R);
  ceres::RotationMatrixToQuaternion(R, p);
  double d = 0;
  for (int i = 0; i < 4; ++i) d += p[i] * q[i];
  return std::abs(std::abs(d) - 1) < 1e-12 ? 0 : 1;
}
'''),
dict(id="c24-row-stride", property="C24",
 needs="a column-major grid whose first row number is not zero",
 breaks="values are read from the wrong place, or outside the data",
 edits=[(P+"cubic_interpolation.h", ": num_rows_ * col_idx + row_idx;", ": row_end_ * col_idx + row_idx;")],
 lib="none",
 demo=r'''
#include "ceres/cubic_interpolation.h"
int main() {
  double d[64];
  for (int i = 0; i < 64; ++i) d[i] = i;
  ceres::Grid2D<double, 1, false> g(d, 2, 5, 1, 4);
  double v;
  g.GetValue(3, 3, &v);
  return v == 3 * 2 + 1 ? 0 : 1;
}
'''),
dict(id="c25-shared-manifold", property="C25",
 needs="two parameter blocks that share one curved manifold object, and an off-diagonal block in ambient space",
 breaks="the second block's covariance is lifted with the first block's Jacobian",
 edits=[(I+"covariance_impl.cc", "  if (parameter_block1 == parameter_block2) {\n    block2_jacobian = block1_jacobian;",
  "  if (parameter_block1 == parameter_block2 ||\n      (manifold1 == manifold2 && block1_size == block2_size)) {\n    block2_jacobian = block1_jacobian;")],
 demo=r'''
#include <cmath>
#include "ceres/ceres.h"
struct C : ceres::SizedCostFunction<6, 3, 3> {
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    for (int i = 0; i < 3; ++i) { r[i] = x[0][i] + x[1][i] / 2; r[3 + i] = x[1][i]; }
    for (int k = 0; k < 2; ++k)
      if (j && j[k])
        for (int i = 0; i < 6; ++i)
          for (int c = 0; c < 3; ++c) j[k][i * 3 + c] = i % 3 != c ? 0 : k == 0 ? (i < 3) : (i < 3 ? 0.5 : 1);
    return true;
  }
};
int main() {
  double x[2][3] = {{1, 0, 0}, {0, 0.6, 0.8}};
  auto* m = new ceres::SphereManifold<3>;
  ceres::Problem p;
  p.AddParameterBlock(x[0], 3, m);
  p.AddParameterBlock(x[1], 3, m);
  p.AddResidualBlock(new C, nullptr, x[0], x[1]);
  ceres::Covariance::Options o;
  o.algorithm_type = ceres::DENSE_SVD;
  ceres::Covariance c(o);
  std::vector<std::pair<const double*, const double*>> v = {{x[0], x[1]}};
  if (!c.Compute(v, &p)) return 2;
  double b[9];
  c.GetCovarianceBlock(x[0], x[1], b);
  // Tangent vectors at each point: x0' C = 0 and C x1 = 0.
  for (int i = 0; i < 3; ++i) {
    double l = 0, r = 0;
    for (int k = 0; k < 3; ++k) { l += x[0][k] * b[k * 3 + i]; r += b[i * 3 + k] * x[1][k]; }
    if (std::abs(l) > 1e-9 || std::abs(r) > 1e-9) return 1;
  }
  return 0;
}
'''),
dict(id="c27-accept-nan", property="C27",
 needs="a step to a point where the function is not a number",
 breaks="the tiny solver moves to a point without a cost",
 edits=[(P+"tiny_solver.h", "      if (rho > 0) {", "      if (!(rho <= 0)) {")],
 lib="none",
 demo=r'''
#include <cmath>
#include "ceres/tiny_solver.h"
struct F {
  using Scalar = double;
  enum { NUM_RESIDUALS = 1, NUM_PARAMETERS = 1 };
  bool operator()(const double* x, double* r, double* j) const {
    r[0] = std::sqrt(x[0]);  // not a number beyond the minimum
    if (j) j[0] = 0.5 / r[0];
    return true;
  }
};
int main() {
  ceres::TinySolver<F> s;
  Eigen::Matrix<double, 1, 1> x;
  x << 1.0;
  s.Solve(F(), &x);
  return x[0] >= 0 && x[0] <= 1 && std::isfinite(s.summary.final_cost) ? 0 : 1;
}
'''),
dict(id="c28-user-failure", property="C28",
 needs="a callback that aborts a general minimisation after progress was made",
 breaks="the parameters change although the solution was declared unusable",
 edits=[(I+"gradient_problem_solver.cc", "  if (summary->IsSolutionUsable()) {", "  if (summary->termination_type != FAILURE) {")],
 demo=r'''
#include "ceres/ceres.h"
struct F : ceres::FirstOrderFunction {
  bool Evaluate(const double* x, double* c, double* g) const override { c[0] = (x[0] - 5) * (x[0] - 5); if (g) g[0] = 2 * (x[0] - 5); return true; }
  int NumParameters() const override { return 1; }
};
struct B : ceres::IterationCallback {
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override { return s.iteration > 0 ? ceres::SOLVER_ABORT : ceres::SOLVER_CONTINUE; }
};
int main() {
  ceres::GradientProblem p(std::make_unique<F>());
  ceres::GradientProblemSolver::Options o;
  B b;
  o.callbacks.push_back(&b);
  ceres::GradientProblemSolver::Summary s;
  double x = 1;
  ceres::Solve(o, p, &x, &s);
  return s.termination_type == ceres::USER_FAILURE && x == 1 ? 0 : 1;
}
'''),
dict(id="c17-first-row-size", property="C17",
 needs="residual blocks of different sizes on one eliminated block",
 breaks="back substitution uses the size of the first row block for all of them",
 edits=[(I+"schur_eliminator_impl.h", """          <kRowBlockSize, kEBlockSize, kRowBlockSize, kEBlockSize, 1>(
          values + e_cell.position, row.block.size, e_block_size,
          values + e_cell.position, row.block.size, e_block_size,
          ete.data(), 0, 0, e_block_size, e_block_size);
      // clang-format on
    }

    y_block =""", """          <kRowBlockSize, kEBlockSize, kRowBlockSize, kEBlockSize, 1>(
          values + e_cell.position, bs->rows[chunk.start].block.size, e_block_size,
          values + e_cell.position, bs->rows[chunk.start].block.size, e_block_size,
          ete.data(), 0, 0, e_block_size, e_block_size);
      // clang-format on
    }

    y_block =""")],
 demo=r'''
#include <cmath>
#include "ceres/ceres.h"
template <int M> struct C : ceres::SizedCostFunction<M, 2, 2> {
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    for (int i = 0; i < M; ++i) {
      r[i] = i + 1;
      for (int k = 0; k < 2; ++k) for (int c = 0; c < 2; ++c) {
        double w = (i + 1) * (c + 2) + k * (i == c) * 3 + (i == c) * M;
        r[i] += w * x[k][c];
        if (j && j[k]) j[k][i * 2 + c] = w;
      }
    }
    return true;
  }
};
int main() {
  double out[2][4];
  for (int t = 0; t < 2; ++t) {
    double* e = out[t], *f = out[t] + 2;
    e[0] = 1; e[1] = 2; f[0] = 3; f[1] = -1;
    ceres::Problem p;
    p.AddResidualBlock(new C<2>, nullptr, e, f);
    p.AddResidualBlock(new C<4>, nullptr, e, f);
    ceres::Solver::Options o;
    o.linear_solver_type = t ? ceres::DENSE_SCHUR : ceres::DENSE_QR;
    o.max_num_iterations = 1;
    if (t) {
      o.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      o.linear_solver_ordering->AddElementToGroup(e, 0);
      o.linear_solver_ordering->AddElementToGroup(f, 1);
    }
    ceres::Solver::Summary s;
    ceres::Solve(o, &p, &s);
  }
  for (int i = 0; i < 4; ++i) if (!(std::abs(out[0][i] - out[1][i]) < 1e-6)) return 1;
  return 0;
}
'''),
]
