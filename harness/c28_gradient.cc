// C28: minimisation of first order functions.
#include <functional>
#include <map>

#include "ceres/first_order_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/iteration_callback.h"
#include "ceres/product_manifold.h"
#include "ceres/solver.h"
#include "nls.h"

namespace {
using namespace ceres;
using nls::Model;
using nls::World;
using std::string;
using Point = std::vector<double>;
using Options = GradientProblemSolver::Options;
using Summary = GradientProblemSolver::Summary;

struct Method {
  LineSearchDirectionType d;
  NonlinearConjugateGradientType c;
  LineSearchType t;
  LineSearchInterpolationType i;
};
std::vector<Method> Methods() {
  std::vector<Method> v;
  for (auto d : {STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS})
    for (auto c : {FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL})
      for (auto t : {ARMIJO, WOLFE})
        for (auto i : {BISECTION, QUADRATIC, CUBIC})
          if ((d == NONLINEAR_CONJUGATE_GRADIENT || c == FLETCHER_REEVES) && (t == WOLFE || d < LBFGS)) v.push_back({d, c, t, i});
  return v;
}
void Set(const Method& m, Options* o) {
  o->line_search_direction_type = m.d;
  o->nonlinear_conjugate_gradient_type = m.c;
  o->line_search_type = m.t;
  o->line_search_interpolation_type = m.i;
}
Options Base() {
  Options o;
  o.logging_type = SILENT;
  return o;
}
double Norm(const Point& a) {
  double s = 0;
  for (double v : a) s += v * v;
  return std::sqrt(s);
}
Point Minus(const Point& a, const Point& b) {
  Point d(a.size());
  for (size_t i = 0; i < a.size(); ++i) d[i] = a[i] - b[i];
  return d;
}

// What any minimisation must satisfy.
struct Known {
  double cost;
  Point step;  // Plus(x, -gradient) - x, empty if the gradient was never given
};
using Lookup = std::function<const Known*(const Point&)>;
struct Seen {
  std::vector<IterationSummary> history;  // as told to the callback
  std::vector<Point> at;                  // user memory during the callback
  CallbackReturnType last = SOLVER_CONTINUE;
};
void CheckSummary(const Options& o, const Summary& s, const Point& start, const Point& end, const Seen& seen, const Lookup& known, double tol, bool odd_start = false) {
  const bool usable = s.termination_type == CONVERGENCE || s.termination_type == NO_CONVERGENCE || s.termination_type == USER_SUCCESS;
  MC_EXPECT(usable == s.IsSolutionUsable());
  MC_EXPECT(!s.message.empty() && !s.BriefReport().empty());
  const string full = s.FullReport();
  MC_EXPECT(full.find(LineSearchTypeToString(o.line_search_type)) != string::npos && full.find(TerminationTypeToString(s.termination_type)) != string::npos) << full;
  MC_EXPECT(s.num_parameters == static_cast<int>(start.size()));
  MC_EXPECT(s.line_search_direction_type == o.line_search_direction_type && s.line_search_type == o.line_search_type && s.line_search_interpolation_type == o.line_search_interpolation_type &&
            s.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type && s.max_lbfgs_rank == o.max_lbfgs_rank);
  MC_EXPECT(static_cast<int>(s.iterations.size()) <= o.max_num_iterations + 1) << s.iterations.size() << " iterations";
  const Known *k0 = known(start), *k1 = known(end);
  if (!usable) {
    const Point& want = o.update_state_every_iteration && !seen.at.empty() ? seen.at.back() : start;
    MC_EXPECT(std::memcmp(end.data(), want.data(), sizeof(double) * end.size()) == 0) << "a failed minimisation leaves " << vu::Str(end, static_cast<int>(end.size())) << " instead of "
                                                                                      << vu::Str(want, static_cast<int>(want.size())) << " " << s.message;
    mc::Cover("not usable");
  } else {
    MC_EXPECT(k0 && k1) << "start or end was never evaluated";
    if (!k0 || !k1) return;
    if (!odd_start) {
      MC_EXPECT(vu::Near(s.final_cost, k1->cost, tol)) << "final cost " << s.final_cost << " instead of " << k1->cost;
      MC_EXPECT(vu::Near(s.initial_cost, k0->cost, tol)) << "initial cost " << s.initial_cost << " instead of " << k0->cost;
      MC_EXPECT(k1->cost <= k0->cost && s.final_cost <= s.initial_cost) << "cost rose from " << k0->cost << " to " << k1->cost;
    }
    mc::Cover(s.termination_type == CONVERGENCE ? "convergence" : s.termination_type == NO_CONVERGENCE ? "no convergence" : "user success");
  }
  // The callbacks saw the history, in order; the last iteration may end in
  // convergence before they are called.
  MC_EXPECT(seen.history.size() <= s.iterations.size() && seen.history.size() + 1 >= s.iterations.size());
  for (size_t i = 0; i < s.iterations.size(); ++i) {
    const auto& it = s.iterations[i];
    MC_EXPECT(it.iteration == static_cast<int>(i));
    if (i < seen.history.size()) {
      const auto& h = seen.history[i];
      MC_EXPECT(h.iteration == it.iteration && vu::Near(h.cost, it.cost, 0) && vu::Near(h.step_norm, it.step_norm, 0) && vu::Near(h.gradient_max_norm, it.gradient_max_norm, 0)) << "the callback was told something else";
      const bool moving = o.update_state_every_iteration;
      if (!moving) MC_EXPECT(seen.at[i] == start) << "user memory changed during the minimisation";
      const Known* k = known(seen.at[i]);
      if (moving) {
        MC_EXPECT(k && vu::Near(k->cost, it.cost, tol)) << "cost " << it.cost << " of iteration " << i << " does not belong to the state";
        if (i == 0) MC_EXPECT(seen.at[0] == start);
        bool finite = k && !k->step.empty() && !odd_start;
        for (size_t j = 0; finite && j < k->step.size(); ++j) finite = std::isfinite(k->step[j]);
        if (finite) {
          double m = 0;
          for (double v : k->step) m = std::max(m, std::abs(v));
          MC_EXPECT(vu::Near(it.gradient_max_norm, m, tol) && vu::Near(it.gradient_norm, Norm(k->step), tol)) << "gradient norms " << it.gradient_max_norm << ", " << it.gradient_norm << " instead of " << m;
        }
        if (i > 0) MC_EXPECT(vu::Near(it.step_norm, Norm(Minus(seen.at[i], seen.at[i - 1])), tol)) << "step norm " << it.step_norm;
      }
    }
    if (i > 0) {
      MC_EXPECT(it.step_is_valid && it.step_is_successful);
      MC_EXPECT(vu::Near(it.cost_change, s.iterations[i - 1].cost - it.cost, 1e-9) || odd_start) << "cost change " << it.cost_change;
      MC_EXPECT(it.cost <= s.iterations[i - 1].cost || odd_start) << "iteration " << i << " raises the cost";
    }
  }
  if (seen.last == SOLVER_ABORT) MC_EXPECT(s.termination_type == USER_FAILURE);
  if (seen.last == SOLVER_TERMINATE_SUCCESSFULLY) MC_EXPECT(s.termination_type == USER_SUCCESS);
  if (seen.last == SOLVER_CONTINUE) MC_EXPECT(s.termination_type != USER_FAILURE && s.termination_type != USER_SUCCESS);
  if (s.termination_type == CONVERGENCE && k1 && !odd_start) {
    bool ok = false;
    if (!k1->step.empty()) {
      double m = 0;
      for (double v : k1->step) m = std::max(m, std::abs(v));
      ok |= m <= o.gradient_tolerance * (1 + 1e-9);
    }
    if (s.iterations.size() > 1) {
      const auto& it = s.iterations.back();
      ok |= std::abs(it.cost_change) <= o.function_tolerance * std::abs(s.iterations[s.iterations.size() - 2].cost) * (1 + 1e-9);
      // Relative to the point before, which is at most a step away.
      ok |= it.step_norm <= o.parameter_tolerance * (Norm(end) + it.step_norm + o.parameter_tolerance) * (1 + 1e-9);
    }
    MC_EXPECT(ok) << "convergence claimed without cause: " << s.message;
  }
  if (s.termination_type == NO_CONVERGENCE) MC_EXPECT(static_cast<int>(s.iterations.size()) == o.max_num_iterations + 1) << "gave up after " << s.iterations.size() << " " << s.message;
}

struct Callback : IterationCallback {
  std::function<CallbackReturnType(const IterationSummary&)> f;
  CallbackReturnType operator()(const IterationSummary& s) override { return f(s); }
};

// A summary is filled in whatever was in it before.
Summary Used() {
  Summary s;
  s.termination_type = USER_SUCCESS;
  s.message = "used";
  s.initial_cost = s.final_cost = -5;
  s.iterations.resize(3);
  s.num_cost_evaluations = s.num_gradient_evaluations = s.num_parameters = s.num_tangent_parameters = 77;
  return s;
}

// ---- a function whose values are chosen when a point is first seen -------------
enum Odd { kFail = 1000, kNaN, kInf, kMinusInf };
double Value(double v) { return v == kNaN ? vu::NaN() : v == kInf ? vu::Inf() : v == kMinusInf ? -vu::Inf() : v; }
struct Entry {
  bool have_value = false, have_slope = false;
  double value = 0, slope = 0;
  Known known;
};
struct Lazy : FirstOrderFunction {
  int n;
  std::vector<double> values, slopes;
  Point start;
  double start_value = 1;
  mutable std::map<Point, Entry> memo;
  mutable int costs = 0, gradients = 0;
  mutable bool odd_gradient = false;  // then any point may be asked for
  explicit Lazy(int n) : n(n) {}
  int NumParameters() const override { return n; }
  bool Evaluate(const double* x, double* cost, double* gradient) const override {
    MC_EXPECT(cost != nullptr);
    ++(gradient ? gradients : costs);
    MC_EXPECT(costs + gradients < 400) << "does not end";
    if (costs + gradients >= 400) return false;
    mc::Step();
    const Point p(x, x + n);
    for (double v : p) MC_EXPECT(std::isfinite(v) || odd_gradient) << "evaluated at a non-finite point";
    Entry& e = memo[p];
    if (!e.have_value) {
      e.have_value = true;
      e.value = p == start ? start_value : mc::Pick(values, "value");
      e.known.cost = Value(e.value);
    }
    if (e.value == kFail) return false;
    *cost = e.known.cost;
    if (gradient) {
      if (!e.have_slope) {
        e.have_slope = true;
        e.slope = mc::Pick(slopes, "slope");
        const double s = Value(e.slope);
        for (int i = 0; i < n; ++i) e.known.step.push_back(i % 2 ? 0.5 * s : -s);
      }
      if (e.slope == kFail) return false;
      odd_gradient |= !std::isfinite(Value(e.slope));
      for (int i = 0; i < n; ++i) gradient[i] = -e.known.step[i];
    }
    return true;
  }
};
void RunLazy(const Method& method, int n, const std::vector<double>& values, const std::vector<double>& slopes, double start_value, int iterations, int callbacks) {
  auto own = std::make_unique<Lazy>(n);
  Lazy* f = own.get();
  f->values = values;
  f->slopes = slopes;
  f->start_value = start_value;
  Point x(n);
  for (int i = 0; i < n; ++i) x[i] = 1.5 - i;
  const Point start = x;
  f->start = start;
  GradientProblem problem(std::move(own));
  Options o = Base();
  Set(method, &o);
  o.max_num_iterations = iterations;
  o.max_num_line_search_step_size_iterations = 3;
  o.max_num_line_search_direction_restarts = 1;
  o.update_state_every_iteration = mc::Flip("update state");
  Seen seen;
  Callback cb;
  int left = callbacks;
  cb.f = [&](const IterationSummary& s) {
    MC_EXPECT(seen.last == SOLVER_CONTINUE) << "a callback runs after the end was requested";
    seen.history.push_back(s);
    seen.at.push_back(x);
    const int c = left > 0 ? mc::Choose(3, "callback") : 0;
    if (c) --left;
    return seen.last = c == 0 ? SOLVER_CONTINUE : c == 1 ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY;
  };
  o.callbacks.push_back(&cb);
  Summary s = Used();
  Solve(o, problem, x.data(), &s);
  // A gradient that is not finite, reported as a success, is the function's
  // fault: nothing stops the search from going anywhere then.
  const bool odd = !std::isfinite(Value(start_value)) || start_value == kFail || f->odd_gradient;
  CheckSummary(o, s, start, x, seen, [&](const Point& p) -> const Known* {
    auto it = f->memo.find(p);
    return it == f->memo.end() || it->second.value == kFail ? nullptr : &it->second.known;
  }, 1e-13, odd);
  MC_EXPECT(s.num_cost_evaluations == f->costs && s.num_gradient_evaluations == f->gradients)
      << s.num_cost_evaluations << " and " << s.num_gradient_evaluations << " evaluations instead of " << f->costs << " and " << f->gradients;
  mc::Outcome(mc::H()(static_cast<int>(s.termination_type))(s.final_cost)(x)(static_cast<int>(s.iterations.size())).h);
}
std::vector<Method> Some() {
  return {{STEEPEST_DESCENT, FLETCHER_REEVES, ARMIJO, CUBIC},           {STEEPEST_DESCENT, FLETCHER_REEVES, ARMIJO, BISECTION}, {STEEPEST_DESCENT, FLETCHER_REEVES, WOLFE, CUBIC},
          {NONLINEAR_CONJUGATE_GRADIENT, FLETCHER_REEVES, ARMIJO, QUADRATIC}, {NONLINEAR_CONJUGATE_GRADIENT, HESTENES_STIEFEL, WOLFE, QUADRATIC},
          {LBFGS, FLETCHER_REEVES, WOLFE, CUBIC},                       {BFGS, FLETCHER_REEVES, WOLFE, BISECTION}};
}
MC_SCENARIO(LazyFunctions, .split = 5, .weight = 4) {
  const auto m = Methods();
  RunLazy(m[mc::Choose(static_cast<int>(m.size()), "method")], 1, {2, 0.999999, -3, kFail}, {1, -0.25}, 1, mc::Bound(2, 3), 0);
}
MC_SCENARIO(LazyOddAnswers, .split = 5, .weight = 3) {
  const auto m = Some();
  RunLazy(m[mc::Choose(static_cast<int>(m.size()), "method")], 1, {0.5, kNaN, kInf, kMinusInf, kFail}, {2, kNaN, kInf, kFail}, -1, mc::Bound(2, 3), 0);
}
MC_SCENARIO(LazyOddStart, .split = 4) {
  const auto m = Some();
  const double v = mc::Pick<double>({kFail, kNaN, kInf, kMinusInf, 0, -0.0, 1e300, -1e300}, "value at the start");
  RunLazy(m[mc::Choose(static_cast<int>(m.size()), "method")], 1, {0.5, kFail}, {1, 0, kNaN, kInf, kFail, 1e-200, 1e200}, v, 2, 0);
}
MC_SCENARIO(LazyCallbacks, .split = 4, .weight = 2) {
  const auto m = Methods();
  RunLazy(m[mc::Choose(static_cast<int>(m.size()), "method")], 2, {2, 0.5}, {1, -0.5}, 1, mc::Bound(2, 3), 2);
}

// ---- real functions, with manifolds, with faults anywhere ----------------------
// The cost of a model of blocks side by side, as one function.
struct FromModel : FirstOrderFunction {
  Model m;  // without manifolds and constants
  std::function<bool()> fail;
  mutable int costs = 0, gradients = 0;
  int n = 0;
  explicit FromModel(const Model& full) : m(full) {
    for (auto& b : m.blocks) b.manifold = nls::kNoManifold, b.constant = false, n += b.size;
  }
  int NumParameters() const override { return n; }
  nls::Eval At(const double* x) const {
    std::vector<Point> p;
    for (auto& b : m.blocks) p.emplace_back(x, x + b.size), x += b.size;
    return m.Evaluate(p, m.AllRows(), m.AllCols(), true);
  }
  bool Evaluate(const double* x, double* cost, double* gradient) const override {
    ++(gradient ? gradients : costs);
    mc::Step();
    if (fail && fail()) return false;
    const auto e = At(x);
    *cost = e.cost;
    if (gradient) std::copy(e.g.begin(), e.g.end(), gradient);
    return true;
  }
};
// The product of the manifolds of the blocks.
struct Blocks : Manifold {
  Model m;
  int n = 0, t = 0;
  std::function<bool()> fail;
  explicit Blocks(const Model& full) : m(full) {
    for (auto& b : m.blocks) n += b.size, t += b.Tangent();
  }
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* y) const override {
    if (fail && fail()) return false;
    for (auto& b : m.blocks) {
      const Point p = b.Plus(x, d, false);
      std::copy(p.begin(), p.end(), y);
      x += b.size, y += b.size, d += b.Tangent();
    }
    return true;
  }
  bool PlusJacobian(const double* x, double* J) const override {
    if (fail && fail()) return false;
    std::fill_n(J, n * t, 0.0);
    int r = 0, c = 0;
    for (auto& b : m.blocks) {
      const nls::Dense P = b.PlusJacobian(x);
      for (int i = 0; i < P.rows; ++i) for (int j = 0; j < P.cols; ++j) J[(r + i) * t + c + j] = P(i, j);
      x += b.size, r += b.size, c += b.Tangent();
    }
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};
Model Shape(int which) {
  Model m;
  auto add = [&](Point x, int manifold) {
    nls::Block b;
    b.size = static_cast<int>(x.size());
    b.x = x;
    b.manifold = manifold;
    m.blocks.push_back(b);
  };
  switch (which) {
    case 0: add({1, -2}, nls::kNoManifold); add({0.5}, nls::kNoManifold); break;
    case 1: add({1, -2}, nls::kFixFirst); add({0.5}, nls::kNoManifold); break;
    case 2: add({1, -1}, nls::kTwisted); add({0.5, 1}, nls::kFixAll); break;
    case 3: add({2, 1, -1}, nls::kTwisted); add({1, 1}, nls::kFixFirst); break;
    case 4: add({1, -2}, nls::kFixAll); add({0.5}, nls::kFixAll); break;
    default: add({1}, nls::kNoManifold); add({-1}, nls::kFixAll); break;
  }
  m.res = {{{0, 1}, 3, 1}, {{0}, 2, 3, true, nls::kConcave}, {{1, 0}, 1, 5, true, nls::kConvex}};
  return m;
}
Point Flat(const Model& m) {
  Point p;
  for (auto& b : m.blocks) p.insert(p.end(), b.x.begin(), b.x.end());
  return p;
}
void RunReal(const Method& method, int shape, int budget, int iterations) {
  const Model m = Shape(shape);
  bool armed = true;
  auto fail = [&] {
    if (!armed || budget <= 0 || !mc::Flip("fail")) return false;
    --budget;
    return true;
  };
  auto own = std::make_unique<FromModel>(m);
  auto own_manifold = std::make_unique<Blocks>(m);
  FromModel* f = own.get();
  Blocks* man = own_manifold.get();
  f->fail = man->fail = fail;
  Point x = Flat(m);
  const Point start = x;
  const bool manifold = shape > 0;
  auto problem = manifold ? std::make_unique<GradientProblem>(std::move(own), std::move(own_manifold)) : std::make_unique<GradientProblem>(std::move(own));
  if (!manifold) man = nullptr;
  Options o = Base();
  Set(method, &o);
  o.max_num_iterations = iterations;
  o.max_num_line_search_step_size_iterations = 6;
  o.update_state_every_iteration = mc::Flip("update state");
  Seen seen;
  Callback cb;
  cb.f = [&](const IterationSummary& s) {
    seen.history.push_back(s);
    seen.at.push_back(x);
    return SOLVER_CONTINUE;
  };
  o.callbacks.push_back(&cb);
  Summary s = Used();
  Solve(o, *problem, x.data(), &s);
  armed = false;
  std::map<Point, Known> cache;
  const Blocks ref(m);
  CheckSummary(o, s, start, x, seen, [&](const Point& p) -> const Known* {
    auto it = cache.find(p);
    if (it != cache.end()) return &it->second;
    const auto e = f->At(p.data());
    Known k;
    k.cost = e.cost;
    Point y = p;
    if (manifold) {
      Point J(ref.n * ref.t), d(ref.t, 0.0);
      ref.PlusJacobian(p.data(), J.data());
      for (int i = 0; i < ref.n; ++i) for (int j = 0; j < ref.t; ++j) d[j] -= J[i * ref.t + j] * e.g[i];
      ref.Plus(p.data(), d.data(), y.data());
    } else {
      for (size_t i = 0; i < y.size(); ++i) y[i] -= e.g[i];
    }
    k.step = Minus(y, p);
    return &(cache[p] = k);
  }, 1e-9);
  MC_EXPECT(s.num_tangent_parameters == (manifold ? ref.t : static_cast<int>(start.size())));
  MC_EXPECT(s.num_cost_evaluations == f->costs && s.num_gradient_evaluations == f->gradients);
  // What the manifold holds fixed has not moved.
  size_t at = 0;
  for (auto& b : m.blocks) {
    for (int i = 0; i < b.size; ++i)
      if (b.manifold == nls::kFixAll || (b.manifold == nls::kFixFirst && i == 0)) MC_EXPECT(x[at + i] == start[at + i]) << "a fixed coordinate moved";
    at += b.size;
  }
  mc::Outcome(mc::H()(static_cast<int>(s.termination_type))(s.final_cost)(x)(static_cast<int>(s.iterations.size())).h);
}
MC_SCENARIO(RealFunctions, .split = 3, .weight = 2) {
  const auto m = Methods();
  const auto& method = m[mc::Choose(static_cast<int>(m.size()), "method")];
  RunReal(method, mc::Choose(6, "shape"), mc::Bound(1, 2), mc::Bound(5, 10));
}
MC_SCENARIO(RealFunctionsTwoFaults, .split = 4, .weight = 3) {
  const auto m = Methods();
  const auto& method = m[mc::Choose(static_cast<int>(m.size()), "method")];
  RunReal(method, mc::Choose(6, "shape"), mc::Bound(2, 3), mc::Bound(4, 6));
}
// The definition of the problem itself.
MC_SCENARIO(Definition, .split = 3) {
  const int shape = mc::Choose(6, "shape");
  const bool manifold = shape > 0 || mc::Flip("manifold");
  const int fault = mc::Choose(4, "none, function fails, manifold fails");
  Model m = Shape(shape);
  Point x = Flat(m);
  for (double& v : x) v += mc::Choose(3, "coordinate") - 1;
  const bool gradient = mc::Flip("gradient");
  if (mc::Skipping()) return;
  auto own = std::make_unique<FromModel>(m);
  auto own_manifold = std::make_unique<Blocks>(m);
  FromModel* f = own.get();
  Blocks* man = own_manifold.get();
  GradientProblem p = manifold ? GradientProblem(std::move(own), std::move(own_manifold)) : GradientProblem(std::move(own));
  const Blocks ref(m);
  const int n = ref.n, t = manifold ? ref.t : n;
  MC_EXPECT(p.NumParameters() == n && p.NumTangentParameters() == t && p.function() == f && p.mutable_function() == f && (!manifold || (p.manifold() == man && p.mutable_manifold() == man)));
  if (fault == 1) f->fail = [] { return true; };
  if (fault == 2 && manifold) man->fail = [] { return true; };
  const Point before = x;
  vu::Guarded g(0, t);
  double cost = -77;
  const bool ok = p.Evaluate(x.data(), &cost, gradient ? g.data() : nullptr);
  mc::Step();
  MC_EXPECT(x == before && g.Intact()) << "memory changed by an evaluation";
  MC_EXPECT(ok == !(fault == 1 || (fault == 2 && manifold && gradient && t > 0))) << "evaluation returns " << ok;
  MC_EXPECT(f->gradients == gradient && f->costs == !gradient) << "the function is evaluated " << f->costs << " times without and " << f->gradients << " times with gradient";
  if (ok) {
    f->fail = nullptr;
    const auto e = f->At(x.data());
    MC_EXPECT(vu::Near(cost, e.cost, 1e-14)) << cost << " instead of " << e.cost;
    if (gradient) {
      Point want = e.g;
      if (manifold) {
        Point J(n * t);
        ref.PlusJacobian(x.data(), J.data());
        want.assign(t, 0.0);
        for (int i = 0; i < n; ++i) for (int j = 0; j < t; ++j) want[j] += J[i * t + j] * e.g[i];
      }
      for (int j = 0; j < t; ++j) MC_EXPECT(vu::Near(g[j], want[j], 1e-12)) << "gradient " << j << " is " << g[j] << " instead of " << want[j];
    }
  }
  if (fault == 3) {
    Point d(t), y(n), want = x;
    for (int j = 0; j < t; ++j) d[j] = 0.5 * j - 1;
    MC_EXPECT(p.Plus(x.data(), d.data(), y.data()));
    if (manifold) ref.Plus(x.data(), d.data(), want.data());
    else for (int i = 0; i < n; ++i) want[i] += d[i];
    MC_EXPECT(y == want) << "Plus";
  }
  mc::State(mc::H()(shape)(manifold)(fault)(x)(gradient).h);
  mc::Outcome(mc::H()(ok)(cost).h);
}

// ---- the same as the line search minimizer of least squares problems -----------
struct Number {
  const char* name;
  std::function<void(Options&, Solver::Options&, double)> set;
  std::vector<double> values;
};
const std::vector<Number>& Numbers() {
  static const std::vector<double> any = {-1, 0, 1e-300, 1e-3, 0.5, 0.7, 1, 1.5, 1e4, vu::Inf(), vu::NaN()}, count = {-2147483648.0, -1, 0, 1, 2, 7};
#define NUMBER(x, v) {#x, [](Options& o, Solver::Options& s, double d) { o.x = d; s.x = d; }, v}
  static const std::vector<Number> all = {
      NUMBER(max_num_iterations, count),
      NUMBER(max_solver_time_in_seconds, (std::vector<double>{-1, 0, 1e9, vu::NaN()})),
      NUMBER(function_tolerance, any),
      NUMBER(gradient_tolerance, any),
      NUMBER(parameter_tolerance, any),
      NUMBER(max_lbfgs_rank, count),
      NUMBER(use_approximate_eigenvalue_bfgs_scaling, (std::vector<double>{0, 1})),
      NUMBER(min_line_search_step_size, any),
      NUMBER(max_line_search_step_contraction, any),
      NUMBER(min_line_search_step_contraction, any),
      NUMBER(max_num_line_search_step_size_iterations, count),
      NUMBER(max_num_line_search_direction_restarts, count),
      NUMBER(line_search_sufficient_function_decrease, any),
      NUMBER(line_search_sufficient_curvature_decrease, any),
      NUMBER(max_line_search_step_expansion, any),
      NUMBER(update_state_every_iteration, (std::vector<double>{0, 1})),
  };
#undef NUMBER
  return all;
}
MC_SCENARIO(SameAsLeastSquares, .split = 4, .weight = 3) {
  const auto methods = Methods();
  const auto& method = methods[mc::Choose(static_cast<int>(methods.size()), "method")];
  const int n = static_cast<int>(Numbers().size());
  // The norm of the parameters leaves out fixed blocks in one of the two.
  const int shape = mc::Pick({0, 1, 3}, "shape");
  const int a = mc::Choose(n, "first number"), b = mc::Range(a, n - 1, "second number");
  if (a != b && shape > 0) return;
  const double va = mc::Pick(Numbers()[a].values, "first value"), vb = a == b ? va : mc::Pick(Numbers()[b].values, "second value");
  if (mc::Skipping()) return;
  Model m = Shape(shape);
  Options o = Base();
  Solver::Options so;
  so.logging_type = SILENT;
  so.minimizer_type = LINE_SEARCH;
  Set(method, &o);
  so.line_search_direction_type = method.d;
  so.nonlinear_conjugate_gradient_type = method.c;
  so.line_search_type = method.t;
  so.line_search_interpolation_type = method.i;
  o.max_num_iterations = so.max_num_iterations = 12;
  Numbers()[a].set(o, so, va);
  Numbers()[b].set(o, so, vb);
  string e1, e2;
  const bool valid = o.IsValid(&e1), want = so.IsValid(&e2);
  const string at = string(Numbers()[a].name) + " = " + std::to_string(va) + ", " + Numbers()[b].name + " = " + std::to_string(vb);
  MC_EXPECT(valid == want && e1 == e2) << at << ": " << e1 << " instead of " << e2;
  World w(m);
  Point x = Flat(m);
  const Point start = x;
  auto own = std::make_unique<FromModel>(m);
  GradientProblem p(std::move(own), std::make_unique<Blocks>(m));
  Summary s = Used();
  Solver::Summary ws;
  Solve(o, p, x.data(), &s);
  Solve(so, w.problem.get(), &ws);
  mc::Step(static_cast<int>(s.iterations.size()));
  // Where the cost no longer changes but by rounding, the two may part.
  auto rounding = [](const std::vector<IterationSummary>& v) {
    size_t i = 1;
    while (i < v.size() && std::abs(v[i].cost_change) > 1e-9 * std::abs(v[i - 1].cost)) ++i;
    return i;
  };
  const size_t until = std::min(rounding(s.iterations), rounding(ws.iterations));
  const bool whole = until >= s.iterations.size() && until >= ws.iterations.size();
  if (!valid) {
    MC_EXPECT(s.termination_type == FAILURE && ws.termination_type == FAILURE);
    MC_EXPECT(x == start && s.message == e1 && !s.IsSolutionUsable()) << at << ": refused with " << s.message;
    mc::Cover("refused");
  } else {
    if (whole) {
      MC_EXPECT(s.termination_type == ws.termination_type) << at << ": " << s.message << " instead of " << ws.message;
      MC_EXPECT(s.iterations.size() == ws.iterations.size()) << at << ": " << s.iterations.size() << " iterations instead of " << ws.iterations.size();
    }
    for (size_t i = 0; i < std::min(until, std::min(s.iterations.size(), ws.iterations.size())); ++i)
      MC_EXPECT(vu::Near(s.iterations[i].cost, ws.iterations[i].cost, 1e-6)) << at << ": iteration " << i << " has cost " << s.iterations[i].cost << " instead of " << ws.iterations[i].cost;
    Point y;
    for (auto& v : w.x) y.insert(y.end(), v.begin(), v.end());
    if (s.IsSolutionUsable() && ws.IsSolutionUsable())
      for (size_t i = 0; i < y.size(); ++i) MC_EXPECT(vu::Near(x[i], y[i], 1e-4)) << at << ": parameter " << i << " becomes " << x[i] << " instead of " << y[i];
    mc::Cover(whole ? "same history" : "same until rounding");
  }
  mc::Outcome(mc::H()(static_cast<int>(s.termination_type))(static_cast<int>(s.iterations.size()))(shape).h);
}
}  // namespace
