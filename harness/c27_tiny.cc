// C27: TinySolver against every small adversarial user function.
#include <map>

#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "ceres/sized_cost_function.h"
#include "util.h"

namespace {
constexpr int D = Eigen::Dynamic;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;

struct Point {
  Vec x, r;
  Mat j;
  bool has_j = false;
  double Cost() const { return r.squaredNorm() / 2; }
};
// The environment: what the user function answers at each distinct point is a
// choice of the explorer, the same every time that point is asked about.
struct World {
  int nr, np;
  std::vector<Vec> residuals;  // alphabet
  std::vector<Mat> jacobians;
  std::vector<Point> points;
  int calls = 0, jac_calls = 0;
  std::vector<int> log;  // point index of every call
  Point& At(const double* x) {
    for (auto& p : points)
      if (std::memcmp(p.x.data(), x, np * sizeof(double)) == 0) return p;
    Point p;
    p.x = Eigen::Map<const Vec>(x, np);
    p.r = residuals[mc::Choose(static_cast<int>(residuals.size()), "residuals")];
    points.push_back(p);
    return points.back();
  }
  bool Eval(const double* x, double* r, double* j) {
    Point& p = At(x);
    log.push_back(static_cast<int>(&p - points.data()));
    mc::Step();
    ++calls;
    Eigen::Map<Vec>(r, nr) = p.r;
    if (j) {
      ++jac_calls;
      if (!p.has_j) { p.j = jacobians[mc::Choose(static_cast<int>(jacobians.size()), "jacobian")]; p.has_j = true; }
      Eigen::Map<Mat>(j, nr, np) = p.j;
    }
    return true;
  }
};
template <int R, int P>
struct Function {
  using Scalar = double;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P };
  World* w;
  int NumResiduals() const { return w->nr; }
  int NumParameters() const { return w->np; }
  bool operator()(const double* x, double* r, double* j) const { return w->Eval(x, r, j); }
};

const char* StatusName(int s) {
  const char* n[] = {"GRADIENT", "STEP", "COST", "MAX_ITERATIONS", "COST_CHANGE"};
  return s >= 0 && s < 5 ? n[s] : "?";
}

// Judges a finished solve from the log of the user function's answers only.
template <typename Solver>
void Judge(const World& w, const Solver& solver, const Vec& x0, const Vec& x) {
  const auto& s = solver.summary;
  const auto& o = solver.options;
  const Point* p0 = nullptr;
  const Point* pf = nullptr;
  bool finite = true, moving = true;
  for (const auto& p : w.points) {
    if (p.x == x0) p0 = &p;
    if (std::memcmp(p.x.data(), x.data(), w.np * sizeof(double)) == 0) pf = &p;
    if (p.has_j) {
      finite &= p.j.allFinite() && p.r.allFinite();
      moving &= (p.j.transpose() * p.r).norm() > 0;
    }
  }
  mc::Cover(StatusName(s.status));
  MC_REQUIRE(p0 != nullptr && pf != nullptr) << "the returned point was never evaluated";
  MC_REQUIRE(pf->has_j) << "the returned point was never evaluated with a Jacobian";
  MC_REQUIRE(vu::Near(s.initial_cost, p0->Cost(), 1e-14)) << "initial cost " << s.initial_cost << " but cost at the start is " << p0->Cost();
  MC_REQUIRE(vu::Near(s.final_cost, pf->Cost(), 1e-14)) << "final cost " << s.final_cost << " but cost at the returned point is " << pf->Cost();
  if (std::isfinite(p0->Cost())) {
    MC_REQUIRE(pf->Cost() <= p0->Cost()) << "cost went from " << p0->Cost() << " to " << pf->Cost();
  }
  if (finite && moving)
    for (const auto& p : w.points)
      if (std::isfinite(p.Cost())) MC_REQUIRE(pf->Cost() <= p.Cost()) << "a point of cost " << p.Cost() << " was seen, but cost " << pf->Cost() << " returned";
  // Iteration limit: one evaluation at the start, one per trial and one more
  // per accepted trial.
  const int limit = std::max(o.max_num_iterations, 1);
  MC_REQUIRE(s.iterations >= 0 && s.iterations <= limit) << "iterations " << s.iterations << " limit " << o.max_num_iterations;
  MC_REQUIRE(w.calls - w.jac_calls <= std::max(0, o.max_num_iterations - 1)) << w.calls - w.jac_calls << " trial steps with limit " << o.max_num_iterations;
  MC_REQUIRE(w.jac_calls <= 1 + (w.calls - w.jac_calls)) << "more Jacobian evaluations than accepted steps";
  // Accessors.
  const Vec r = solver.Residuals();
  const Mat j = solver.Jacobian();
  MC_REQUIRE(r.size() == w.nr && j.rows() == w.nr && j.cols() == w.np) << "accessor sizes";
  for (int i = 0; i < w.nr; ++i) MC_REQUIRE(vu::Same(r(i), pf->r(i))) << "Residuals()(" << i << ")=" << r(i) << " but f(x)=" << pf->r(i);
  if (p0->j.allFinite() && pf->j.allFinite())
    for (int i = 0; i < j.size(); ++i) MC_REQUIRE(vu::Near(j.data()[i], pf->j.data()[i], 1e-12)) << "Jacobian() entry " << j.data()[i] << " but J(x)=" << pf->j.data()[i];
  // The reported gradient norm.  It is documented as max|J'f| and computed
  // from the column-scaled Jacobian (known finding).
  const Vec g = pf->j.transpose() * pf->r;
  Vec scale(w.np);
  for (int i = 0; i < w.np; ++i) scale(i) = 1 / (1 + p0->j.col(i).norm());
  double scaled = 0, plain = 0;
  for (int i = 0; i < w.np; ++i) { scaled = std::max(scaled, std::abs(g(i) * scale(i))); plain = std::max(plain, std::abs(g(i))); }
  const bool gfinite = g.allFinite() && scale.allFinite();
  if (gfinite) {
    const bool as_documented = vu::Near(s.gradient_max_norm, plain, 1e-12);
    if (!as_documented) mc::Cover("known_gradient_scaled");
    MC_REQUIRE(as_documented || vu::Near(s.gradient_max_norm, scaled, 1e-12)) << "gradient_max_norm " << s.gradient_max_norm << " but max|J'f|=" << plain << " (scaled " << scaled << ")";
  }
  // A claimed reason holds at the returned point.
  switch (static_cast<int>(s.status)) {
    case 0:
      MC_REQUIRE(s.gradient_max_norm < o.gradient_tolerance) << "gradient " << s.gradient_max_norm << " claimed below " << o.gradient_tolerance;
      break;
    case 2:
      MC_REQUIRE(pf->Cost() < o.cost_threshold) << "cost " << pf->Cost() << " claimed below " << o.cost_threshold;
      break;
    case 3:
      MC_REQUIRE(s.iterations >= o.max_num_iterations) << "claims the iteration limit after " << s.iterations << " of " << o.max_num_iterations;
      break;
    case 4: {
      // The last trial changed the cost by little: documented relative to the
      // old cost, implemented as an absolute change of twice the cost.
      int last = -1;
      for (int i = static_cast<int>(w.log.size()) - 1; i >= 0 && last < 0; --i) if (w.log[i] >= 0) last = i;
      MC_REQUIRE(w.log.size() >= 2) << "no step was taken";
      const Point& lastp = w.points[w.log.back()];
      // Accepted: the last call re-evaluated the trial; the previous reference is
      // the best point before it.
      double before = p0->Cost();
      const bool accepted = w.log.size() >= 3 && w.log[w.log.size() - 1] == w.log[w.log.size() - 2] && &lastp == pf;
      if (accepted) { for (size_t i = 0; i + 2 < w.log.size(); ++i) if (w.points[w.log[i]].has_j && w.points[w.log[i]].Cost() < before) before = w.points[w.log[i]].Cost(); }
      else before = pf->Cost();
      const double change = std::abs(lastp.Cost() - before);
      const bool documented = change <= o.function_tolerance * before * (1 + 1e-12);
      const bool absolute = 2 * change <= o.function_tolerance * (1 + 1e-12);
      if (!documented) mc::Cover("known_function_tolerance_absolute");
      MC_REQUIRE(documented || absolute) << "cost change " << change << " from " << before << " claimed below tolerance " << o.function_tolerance;
      break;
    }
    case 1: {
      MC_REQUIRE(o.parameter_tolerance > 0) << "step size claimed too small with zero tolerance";
      // Recompute the step from the history with the published damping rule.
      if (!finite) break;
      double u = 1 / o.initial_trust_region_radius, v = 2;
      size_t i = 1;
      const Point* cur = &w.points[w.log[0]];
      const auto step = [&](Vec* lm) {
        const Mat js = cur->j * scale.asDiagonal();
        Mat h = js.transpose() * js;
        const Vec gs = -(js.transpose() * cur->r);
        Mat reg = h;
        for (int k = 0; k < w.np; ++k) reg(k, k) += u * std::min(std::max(h(k, k), 1e-6), 1e32);
        *lm = reg.fullPivLu().solve(gs);
        return lm->dot(2 * gs - h * *lm);
      };
      Vec lm;
      while (i < w.log.size()) {
        const double model = step(&lm);
        const Point& trial = w.points[w.log[i]];
        const double rho = 2 * (cur->Cost() - trial.Cost()) / model;
        ++i;
        if (rho > 0) {
          cur = &trial;
          ++i;
          const double t = 2 * rho - 1;
          u *= std::max(1 / 3.0, 1 - t * t * t);
          v = 2;
        } else { u *= v; v *= 2; }
      }
      step(&lm);
      const double norm = (scale.asDiagonal() * lm).norm();
      MC_REQUIRE(cur == pf && norm <= 1.001 * o.parameter_tolerance * (pf->x.norm() + o.parameter_tolerance)) << "step " << norm << " claimed too small at |x|=" << pf->x.norm();
      break;
    }
    default: MC_FAIL() << "unknown status " << s.status;
  }
  mc::Outcome(mc::H()(s.iterations)(static_cast<int>(s.status))(s.final_cost)(s.gradient_max_norm).D(x.data(), w.np).h);
}

template <int R, int P>
void RunSolver(World* w, const Vec& x0, int iters, int opt, ceres::TinySolver<Function<R, P>>* reuse = nullptr) {
  Function<R, P> f{w};
  auto local = std::make_unique<ceres::TinySolver<Function<R, P>>>();
  auto& solver = reuse ? *reuse : *local;
  solver.options.max_num_iterations = iters;
  const double tol[4][4] = {{0, 0, 0, 0}, {1e-10, 1e-8, 1e-6, 2.2e-16}, {0.3, 0.2, 0.4, 0.1}, {0, 0.9, 0, 0}};
  solver.options.gradient_tolerance = tol[opt][0];
  solver.options.parameter_tolerance = tol[opt][1];
  solver.options.function_tolerance = tol[opt][2];
  solver.options.cost_threshold = tol[opt][3];
  solver.options.initial_trust_region_radius = opt == 3 ? 1.0 : 1e4;
  typename ceres::TinySolver<Function<R, P>>::ParameterVector x = x0;
  const auto& s = solver.Solve(f, &x);
  MC_REQUIRE(&s == &solver.summary) << "returned summary";
  Judge(*w, solver, x0, Vec(x));
}
std::vector<Vec> Vectors(std::initializer_list<std::initializer_list<double>> l) {
  std::vector<Vec> r;
  for (const auto& e : l) { Vec v(e.size()); int i = 0; for (double d : e) v(i++) = d; r.push_back(v); }
  return r;
}
std::vector<Mat> Matrices(int rows, int cols, std::initializer_list<std::initializer_list<double>> l) {
  std::vector<Mat> r;
  for (const auto& e : l) { Mat m(rows, cols); int i = 0; for (double d : e) { m(i / cols, i % cols) = d; ++i; } r.push_back(m); }
  return r;
}
const double I = std::numeric_limits<double>::infinity(), N = std::numeric_limits<double>::quiet_NaN();
World World11() {
  World w{1, 1};
  w.residuals = Vectors({{2}, {1}, {0.5}, {-3}, {1.9}, {0}, {N}, {I}, {1e-9}});
  w.jacobians = Matrices(1, 1, {{1}, {-2}, {0}, {100}, {1e-5}, {N}});
  return w;
}
World World22() {
  World w{2, 2};
  w.residuals = Vectors({{1, 2}, {0.5, -1}, {3, 3}, {0, 0}, {1, N}});
  w.jacobians = Matrices(2, 2, {{1, 0, 0, 1}, {1, 2, -3, 4}, {1, 1, 1, 1}, {0, 0, 0, 0}, {1, N, 0, 1}});
  return w;
}
World World32() {
  World w{3, 2};
  w.residuals = Vectors({{1, 2, -1}, {0.5, -1, 0}, {3, 3, 3}, {I, 0, 0}});
  w.jacobians = Matrices(3, 2, {{1, 0, 0, 1, 1, 1}, {1, 2, -3, 4, 0, 5}, {1, 1, 1, 1, 1, 1}, {0, 1, 0, 2, 0, -2}});
  return w;
}
World World12() {
  World w{1, 2};
  w.residuals = Vectors({{1}, {0.5}, {3}, {-2}});
  w.jacobians = Matrices(1, 2, {{1, 0}, {1, 2}, {1, 1}, {0, -3}});
  return w;
}
}  // namespace

MC_SCENARIO(scripted_1x1, .split = 3, .weight = 2) {
  const int opt = mc::Choose(4, "options"), iters = mc::Range(0, mc::Bound(5, 6, 3), "max_iterations");
  const double start = mc::Pick({0.0, 1.5, -1e3}, "start");
  World w = World11();
  if (iters >= 4) { w.residuals.resize(iters >= 5 ? 6 : 8); w.jacobians.resize(iters >= 5 ? 4 : 5); }
  Vec x0(1);
  x0 << start;
  if (iters >= 4 && start != 1.5) return mc::Trivial();
  RunSolver<1, 1>(&w, x0, iters, opt);
}
MC_SCENARIO(scripted_2x2, .split = 3, .weight = 2) {
  const int opt = mc::Choose(4, "options"), iters = mc::Range(1, mc::Bound(5, 6), "max_iterations"), dyn = mc::Choose(4, "dynamic");
  World w = World22();
  if (iters >= 4) { w.residuals.resize(4); w.jacobians.resize(iters >= 5 ? 3 : 4); }
  Vec x0(2);
  x0 << 1.5, -0.25;
  if (dyn == 0) RunSolver<2, 2>(&w, x0, iters, opt);
  else if (dyn == 1) RunSolver<D, D>(&w, x0, iters, opt);
  else if (dyn == 2) RunSolver<D, 2>(&w, x0, iters, opt);
  else RunSolver<2, D>(&w, x0, iters, opt);
}
MC_SCENARIO(scripted_shapes, .split = 3) {
  const int opt = mc::Choose(4, "options"), iters = mc::Range(1, mc::Bound(4, 4), "max_iterations"), shape = mc::Choose(4, "shape");
  World w = shape < 2 ? World32() : World12();
  Vec x0(2);
  x0 << 0.0, 2.0;
  switch (shape) {
    case 0: RunSolver<3, 2>(&w, x0, iters, opt); break;
    case 1: RunSolver<D, D>(&w, x0, iters, opt); break;
    case 2: RunSolver<D, 2>(&w, x0, iters, opt); break;
    case 3: RunSolver<D, D>(&w, x0, iters, opt); break;
  }
}

// ---- equality of static and dynamic solvers, and reuse -------------------------
namespace {
// A fixed family of real functions.
struct Real {
  int kind;
  int nr, np;
  template <typename T>
  void Eval(const T* x, T* r) const {
    switch (kind) {
      case 0: r[0] = T(10.0) * (x[1] - x[0] * x[0]); r[1] = T(1.0) - x[0]; break;                    // Rosenbrock
      case 1: r[0] = x[0] + T(2.0) * x[1] - T(3.0); r[1] = x[0] - x[1]; r[2] = T(0.5) * x[1] - T(4.0); break;  // linear
      case 2: r[0] = x[0] * x[0] - T(2.0); break;
      case 3: r[0] = x[0] * x[1] - T(1.0); r[1] = x[0] - x[1]; r[2] = T(0.1) * x[0]; break;
      case 4: r[0] = x[0] + x[1]; r[1] = T(2.0) * x[0] + T(2.0) * x[1] - T(1.0); break;                // rank deficient
      case 5: r[0] = sin(x[0]) + T(0.2) * x[0]; r[1] = T(0.3); break;
    }
  }
  template <typename T> bool operator()(const T* x, T* r) const { Eval(x, r); return true; }
  int NumResiduals() const { return nr; }
};
Real MakeReal(int kind) {
  const int dims[6][2] = {{2, 2}, {3, 2}, {1, 1}, {3, 2}, {2, 2}, {2, 1}};
  return {kind, dims[kind][0], dims[kind][1]};
}
template <int R, int P>
struct RealFunction {
  using Scalar = double;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P };
  Real f;
  int NumResiduals() const { return f.nr; }
  int NumParameters() const { return f.np; }
  template <int Q>
  void Diff(const double* x, double* r, double* j) const {
    ceres::Jet<double, Q> jx[Q], jr[3];
    for (int i = 0; i < Q; ++i) jx[i] = ceres::Jet<double, Q>(x[i], i);
    f.Eval(jx, jr);
    for (int i = 0; i < f.nr; ++i) { r[i] = jr[i].a; for (int k = 0; k < Q; ++k) j[k * f.nr + i] = jr[i].v[k]; }
  }
  bool operator()(const double* x, double* r, double* j) const {
    if (!j) f.Eval(x, r);
    else if (f.np == 1) Diff<1>(x, r, j);
    else Diff<2>(x, r, j);
    return true;
  }
};
template <typename S> struct Got { typename S::Summary s; Vec x; };
template <int R, int P>
auto SolveReal(int kind, const double* start, int iters, ceres::TinySolver<RealFunction<R, P>>* reuse = nullptr) {
  RealFunction<R, P> f{MakeReal(kind)};
  using S = ceres::TinySolver<RealFunction<R, P>>;
  auto local = std::make_unique<S>();
  S& s = reuse ? *reuse : *local;
  s.options.max_num_iterations = iters;
  typename S::ParameterVector x = Eigen::Map<const Vec>(start, f.f.np);
  s.Solve(f, &x);
  mc::Step();
  return Got<S>{s.summary, Vec(x)};
}
template <typename A, typename B>
void SameResult(const A& a, const B& b, const char* what, int kind) {
  MC_EXPECT(a.s.iterations == b.s.iterations && static_cast<int>(a.s.status) == static_cast<int>(b.s.status))
      << what << ": iterations " << a.s.iterations << "/" << b.s.iterations << " status " << a.s.status << "/" << b.s.status << " kind " << kind;
  MC_EXPECT((a.x - b.x).norm() <= 1e-6 * (1 + a.x.norm()) && vu::Near(a.s.final_cost, b.s.final_cost, 1e-9) && vu::Near(a.s.initial_cost, b.s.initial_cost, 1e-12))
      << what << ": " << a.x.transpose() << " vs " << b.x.transpose() << " kind " << kind;
}
template <int R, int P>
void Variants(int kind, const double* start, int iters) {
  const auto a = SolveReal<R, P>(kind, start, iters);
  SameResult(a, SolveReal<D, D>(kind, start, iters), "dynamic", kind);
  SameResult(a, SolveReal<D, P>(kind, start, iters), "dynamic residuals", kind);
  // (One fixed residual with several or dynamic parameters does not compile.)
  if constexpr (R > 1) SameResult(a, SolveReal<R, D>(kind, start, iters), "dynamic parameters", kind);
  // Wrapped functors.
  const Real real = MakeReal(kind);
  {
    using F = ceres::TinySolverAutoDiffFunction<Real, R, P>;
    F f(real);
    ceres::TinySolver<F> s;
    s.options.max_num_iterations = iters;
    typename ceres::TinySolver<F>::ParameterVector x = Eigen::Map<const Vec>(start, P);
    s.Solve(f, &x);
    SameResult(a, Got<ceres::TinySolver<F>>{s.summary, Vec(x)}, "autodiff", kind);
  }
  {
    using F = ceres::TinySolverAutoDiffFunction<Real, D, P>;
    F f(real);
    ceres::TinySolver<F> s;
    s.options.max_num_iterations = iters;
    typename ceres::TinySolver<F>::ParameterVector x = Eigen::Map<const Vec>(start, P);
    s.Solve(f, &x);
    SameResult(a, Got<ceres::TinySolver<F>>{s.summary, Vec(x)}, "autodiff dynamic", kind);
  }
  {
    struct Cost : ceres::SizedCostFunction<R, P> {
      int kind;
      bool Evaluate(double const* const* p, double* r, double** j) const override {
        RealFunction<R, P> f{MakeReal(kind)};
        double col[9];
        f(p[0], r, j && j[0] ? col : nullptr);
        if (j && j[0]) for (int i = 0; i < R; ++i) for (int k = 0; k < P; ++k) j[0][i * P + k] = col[k * R + i];
        return true;
      }
    } cost;
    cost.kind = kind;
    // (The adapter does not compile for one column and several rows.)
    ceres::TinySolverCostFunctionAdapter<(P > 1 || R == 1) ? R : D, (P > 1 || R == 1) ? P : D> f(cost);
    ceres::TinySolver<decltype(f)> s;
    s.options.max_num_iterations = iters;
    typename decltype(s)::ParameterVector x = Eigen::Map<const Vec>(start, P);
    s.Solve(f, &x);
    SameResult(a, Got<decltype(s)>{s.summary, Vec(x)}, "cost function adapter", kind);
    ceres::TinySolverCostFunctionAdapter<D, D> f2(cost);
    ceres::TinySolver<decltype(f2)> s2;
    s2.options.max_num_iterations = iters;
    typename decltype(s2)::ParameterVector x2 = Eigen::Map<const Vec>(start, P);
    s2.Solve(f2, &x2);
    SameResult(a, Got<decltype(s2)>{s2.summary, Vec(x2)}, "dynamic cost function adapter", kind);
  }
  // Truth of the result and progress on these well-posed functions.
  Vec x0 = Eigen::Map<const Vec>(start, P);
  double r[3];
  real.Eval(a.x.data(), r);
  double c = 0;
  for (int i = 0; i < R; ++i) c += r[i] * r[i] / 2;
  MC_EXPECT(vu::Near(c, a.s.final_cost, 1e-12)) << "final cost " << a.s.final_cost << " is " << c;
  if (iters >= 200) {
    const double best[6] = {0, 3.5 * 3.5 / 2 / (1 + 0) , 0, 0, 0.1, 0.045};
    MC_EXPECT(a.s.status != 3) << "no convergence in " << iters << " iterations, kind " << kind;
    if (kind != 1 && kind != 3 && kind != 5) MC_EXPECT(a.s.final_cost <= best[kind] + 1e-5) << "kind " << kind << " converged to cost " << a.s.final_cost;
    if (kind == 1) {
      Mat A(3, 2); A << 1, 2, 1, -1, 0, 0.5;
      Vec b(3); b << 3, 0, 4;
      const Vec opt = (A.transpose() * A).inverse() * (A.transpose() * b);
      MC_EXPECT((a.x - opt).norm() < 1e-2) << "linear problem solved to " << a.x.transpose() << " instead of " << opt.transpose();
    }
  }
  mc::Outcome(mc::H()(kind)(a.s.final_cost)(a.s.iterations).h);
}
}  // namespace
MC_SCENARIO(real_functions, .split = 1) {
  const int kind = mc::Choose(6, "function");
  const double start[2] = {mc::Pick({1.25, -1.2, 0.3, 3.0}, "x0"), mc::Pick({1.0, -0.5, 2.0}, "x1")};
  const int iters = mc::Pick({1, 2, 3, 4, 200}, "max_iterations");
  switch (kind) {
    case 0: case 4: Variants<2, 2>(kind, start, iters); break;
    case 1: case 3: Variants<3, 2>(kind, start, iters); break;
    case 2: Variants<1, 1>(kind, start, iters); break;
    case 5: Variants<2, 1>(kind, start, iters); break;
  }
}
// All sequences of solves on one dynamic solver object equal fresh solves.
MC_SCENARIO(reuse, .split = 1) {
  ceres::TinySolver<RealFunction<D, D>> shared;
  const int len = mc::Range(2, mc::Bound(3, 4), "length");
  const double start[2] = {1.25, -0.5};
  for (int i = 0; i < len; ++i) {
    const int kind = mc::Choose(6, "function");
    const int iters = mc::Pick({1, 3, 50}, "max_iterations");
    const auto a = SolveReal<D, D>(kind, start, iters, &shared), b = SolveReal<D, D>(kind, start, iters);
    MC_REQUIRE(a.x == b.x && a.s.iterations == b.s.iterations && a.s.status == b.s.status && a.s.final_cost == b.s.final_cost &&
               a.s.initial_cost == b.s.initial_cost && a.s.gradient_max_norm == b.s.gradient_max_norm)
        << "solve " << i << " of function " << kind << " on a used solver differs: " << a.x.transpose() << " vs " << b.x.transpose();
    mc::Outcome(mc::H()(kind)(a.s.final_cost)(i).h);
  }
}
