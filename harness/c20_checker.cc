// C20: the gradient checker: every position and size of a single error.
#include "ceres/gradient_checker.h"
#include "ceres/manifold.h"
#include "polyfun.h"
namespace {
struct Lie {
  int block = -1, row = 0, col = 0;
  double delta = 0;        // added to the reported Jacobian
  int residual = -1;       // residual that differs when Jacobians are requested
  int fail_at = -1;        // failing call
  mutable int calls = 0;
  mutable bool failed_with_jacobian = false;
};
class Cost : public poly::Cost {
 public:
  Cost(const poly::Poly& p, const Lie& l) : poly::Cost(p), lie(l) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    poly::Cost::Evaluate(x, r, j);
    if (j && lie.block >= 0 && j[lie.block]) j[lie.block][lie.row * poly().sizes[lie.block] + lie.col] += lie.delta;
    if (j && lie.residual >= 0) r[lie.residual] += 1;
    return lie.calls++ != lie.fail_at;
  }
  Lie lie;
};
// Plus is linear with a given Jacobian: x + A(x) delta.
class Linear : public ceres::Manifold {
 public:
  Linear(int a, int t) : a(a), t(t) {}
  int AmbientSize() const override { return a; }
  int TangentSize() const override { return t; }
  double A(int i, int k) const { return (i * 2 + k * 3) % 4 - 1; }
  bool Plus(const double* x, const double* d, double* y) const override {
    for (int i = 0; i < a; ++i) { y[i] = x[i]; for (int k = 0; k < t; ++k) y[i] += A(i, k) * d[k]; }
    return true;
  }
  bool PlusJacobian(const double*, double* j) const override {
    for (int i = 0; i < a; ++i) for (int k = 0; k < t; ++k) j[i * t + k] = A(i, k);
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
  int a, t;
};
}  // namespace
MC_SCENARIO(gradient_checker, .split = 5, .weight = 3) {
  poly::Poly p;
  const int nb = mc::Range(1, mc::Bound(2, 3), "blocks");
  for (int b = 0; b < nb; ++b) p.sizes.push_back(mc::Range(1, 3, "size"));
  p.m = mc::Range(1, 2, "residuals");
  std::vector<std::unique_ptr<ceres::Manifold>> own(nb);
  std::vector<const ceres::Manifold*> manifolds(nb, nullptr);
  bool any = false;
  for (int b = 0; b < nb; ++b) {
    const int s = p.sizes[b];
    switch (mc::Choose(s > 1 ? 4 : 2, "manifold")) {
      case 0: break;
      case 1: own[b] = std::make_unique<Linear>(s, s > 1 ? s - 1 : 1); break;
      case 2: own[b] = std::make_unique<ceres::SubsetManifold>(s, std::vector<int>{s - 1}); break;
      case 3: own[b] = std::make_unique<ceres::SubsetManifold>(s, std::vector<int>{0}); break;
    }
    manifolds[b] = own[b].get();
    any |= manifolds[b] != nullptr;
  }
  const bool null_list = !any && mc::Flip("null list");
  const int kind = mc::Choose(4, "error kind");
  Lie lie;
  double rel = 0;
  if (kind == 1) {  // one wrong entry
    lie.block = mc::Choose(nb, "block");
    lie.row = mc::Choose(p.m, "row");
    lie.col = mc::Choose(p.sizes[lie.block], "column");
    rel = mc::Pick({1e-2, -1e-4, 1e-10, 1e6, vu::NaN()}, "error");
    lie.delta = rel;
  } else if (kind == 2) {
    lie.residual = mc::Choose(p.m, "residual");
  } else if (kind == 3) {
    lie.fail_at = mc::Choose(5, "failing call");
  }
  Cost cost(p, lie);
  ceres::NumericDiffOptions o;
  ceres::GradientChecker checker(&cost, null_list ? nullptr : &manifolds, o);
  const auto x = poly::Values(p.sizes, 2);
  std::vector<const double*> xp;
  for (auto& b : x) xp.push_back(b.data());
  const double precision = 1e-6;
  ceres::GradientChecker::ProbeResults r;
  const bool with_results = mc::Flip("results");
  const bool again = with_results && kind != 3 && mc::Flip("reuse");
  bool ok = checker.Probe(xp.data(), precision, with_results ? &r : nullptr);
  if (again) ok = checker.Probe(xp.data(), precision, &r);
  mc::Step();
  // The oracle: does the error show in the tangent space?
  const auto J = p.Jacobian(xp.data());
  bool bad = false, fuzzy = false;
  double worst = 0;
  std::vector<ceres::Matrix> local;
  for (int b = 0; b < nb; ++b) {
    ceres::Matrix full(p.m, p.sizes[b]);
    for (int k = 0; k < p.m; ++k) for (int i = 0; i < p.sizes[b]; ++i) full(k, i) = J[k * p.n() + p.Offset(b) + i];
    ceres::Matrix lied = full;
    if (lie.block == b) lied(lie.row, lie.col) += lie.delta;
    ceres::Matrix P = ceres::Matrix::Identity(p.sizes[b], p.sizes[b]);
    if (manifolds[b]) { P.resize(p.sizes[b], manifolds[b]->TangentSize()); manifolds[b]->PlusJacobian(xp[b], P.data()); }
    const ceres::Matrix t = full * P, l = lied * P;
    for (int k = 0; k < t.rows(); ++k)
      for (int i = 0; i < t.cols(); ++i) {
        double e = std::abs(t(k, i) - l(k, i));
        if (t(k, i) != 0 && l(k, i) != 0) e /= std::max(std::abs(t(k, i)), std::abs(l(k, i)));
        // Numerically a zero derivative is merely tiny, which makes the relative
        // error of a small wrong entry anything up to one.
        if (t(k, i) == 0 && l(k, i) != 0) { fuzzy = true; if (e >= precision) bad = true; continue; }
        if (!(e < precision)) bad = true;
        worst = std::max(worst, e);
      }
    local.push_back(l);
  }
  const bool returned = !(lie.fail_at >= 0 && cost.lie.calls > lie.fail_at);
  const bool expected = returned && !bad && kind != 2;
  MC_EXPECT(ok == expected || (fuzzy && !bad)) << "Probe returned " << ok << ", error kind " << kind << " delta " << lie.delta << " at block " << lie.block << " (" << lie.row << "," << lie.col << ") worst " << worst
                            << " calls " << cost.lie.calls << " fail at " << lie.fail_at;
  mc::Outcome(mc::H()(ok)(kind)(p.sizes)(p.m)(worst).h);
  if (!with_results) return;
  MC_EXPECT(r.return_value == returned);
  MC_EXPECT(r.error_log.empty() == ok) << r.error_log;
  if (!returned) return;
  MC_EXPECT(r.residuals.size() == p.m);
  if (kind == 2) return;
  for (int b = 0; b < nb; ++b) {
    MC_REQUIRE(r.local_jacobians[b].rows() == p.m && r.local_jacobians[b].cols() == local[b].cols());
    MC_REQUIRE(r.jacobians[b].cols() == p.sizes[b] && r.numeric_jacobians[b].cols() == p.sizes[b]);
    for (int k = 0; k < p.m; ++k) {
      for (int i = 0; i < local[b].cols(); ++i) {
        if (std::isfinite(rel)) MC_EXPECT(r.local_jacobians[b](k, i) == local[b](k, i));
      }
      for (int i = 0; i < p.sizes[b]; ++i) MC_EXPECT(vu::Near(r.numeric_jacobians[b](k, i), J[k * p.n() + p.Offset(b) + i], 1e-7));
    }
  }
  if (std::isfinite(rel) && !fuzzy) MC_EXPECT(vu::Near(r.maximum_relative_error, worst, 1e-7)) << r.maximum_relative_error << " vs " << worst;
}
