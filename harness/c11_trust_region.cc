// C11: the trust region loop, its step evaluator and its two strategies against
// independent reference automata, for every sequence of environment answers.
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <map>

#include "Eigen/Dense"
#include "ceres/context_impl.h"
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/iteration_callback.h"
#include "ceres/linear_solver.h"
#include "ceres/cost_function.h"
#include "ceres/minimizer.h"
#include "ceres/ordered_groups.h"
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/trust_region_minimizer.h"
#include "ceres/trust_region_step_evaluator.h"
#include "ceres/trust_region_strategy.h"
#include "util.h"

// The wall clock is part of the environment.
static thread_local bool g_fake_clock = false;
static double g_now = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
  if (id == CLOCK_REALTIME && g_fake_clock) {
    t->tv_sec = 1000000000 + static_cast<time_t>(g_now);
    t->tv_nsec = 0;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, t);
}

namespace {
using namespace ceres::internal;
using ceres::IterationSummary;
using ceres::Solver;
using Matrix = ceres::Matrix;
using Point = std::vector<double>;
using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LV = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
using TRS = TrustRegionStrategy;
using LSTT = LinearSolverTerminationType;

// ---------------------------------------------------------------- environment
// Ambient dimension 3, tangent dimension 2, one residual: every answer is chosen
// once per point, so that real loop and reference see the same world.
struct Features {
  std::vector<double> costs;  // NaN: evaluation fails
  bool derivative_answers = false, plus_answers = false;
  int num_steps = 4;
  bool step_failures = false, radius_answers = false, callback_answers = false, time_answers = false;
  bool gradient_answers = false;
};
struct Env {
  Features f;
  Point start = {1, 2, 3};
  double start_cost = 8;
  bool bounded = false;  // Plus projects the first coordinate on [.., 1]
  std::map<Point, double> cost;
  std::map<Point, int> derivative;  // 0 ok, 1 fails, 2 small gradient, 3 gradient exactly at the tolerance
  std::map<Point, bool> plus;
  // strategy
  struct StepAnswer { LSTT type; int n; Point step; };
  std::vector<StepAnswer> steps;
  struct Verdict { char kind; double quality; };
  std::vector<Verdict> verdicts;
  std::vector<double> radii = {4};
  std::vector<Point> seen_jacobian, seen_residual;
  std::vector<std::string> dumps;
  std::vector<double> etas;
  // callbacks
  std::vector<int> answers;
  std::vector<double> clock;
  std::vector<IterationSummary> told;
  std::vector<Point> told_x;
  bool fresh_flags_checked = true;
  Point last;
  bool any_last = false;

  bool Plus(const Point& x, const Point& d, Point* out) {
    Point key = x;
    key.insert(key.end(), d.begin(), d.end());
    const bool zero = d[0] == 0 && d[1] == 0;
    auto it = plus.find(key);
    if (it == plus.end()) it = plus.emplace(key, !(f.plus_answers && (!zero || bounded) && mc::Flip("plus fails"))).first;
    if (!it->second) return false;
    *out = {x[0] + d[0], x[1] + d[1], x[2] + d[0] + d[1]};
    if (bounded) (*out)[0] = std::min((*out)[0], 1.0);
    return true;
  }
  double Cost(const Point& x) {
    auto it = cost.find(x);
    if (it == cost.end()) it = cost.emplace(x, cost.empty() ? start_cost : f.costs[mc::Choose(static_cast<int>(f.costs.size()), "cost")]).first;
    return it->second;
  }
  int Derivative(const Point& x) {
    auto it = derivative.find(x);
    if (it == derivative.end()) {
      int a = 0;
      if (f.derivative_answers) a = mc::Flip("derivatives fail");
      if (a == 0 && f.gradient_answers) a = mc::Pick<int>({0, 2, 3}, "gradient");
      it = derivative.emplace(x, a).first;
    }
    return it->second;
  }
  Point Jacobian(const Point& x) const { return x == start ? Point{1, 3} : Point{2, -3}; }
  Point Residual(const Point& x) const { return {x == start ? 2.0 : 1.0}; }
  Point Gradient(const Point& x) {
    const int a = Derivative(x);
    return a == 2 ? Point{0x1p-30, 0} : a == 3 ? Point{0x1p-10, 0} : Point{1, .5};
  }
};

struct MockEvaluator : Evaluator {
  Env* e;
  explicit MockEvaluator(Env* e) : e(e) {}
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return std::make_unique<DenseSparseMatrix>(1, 2); }
  bool Evaluate(const EvaluateOptions& o, const double* state, double* cost, double* r, double* g, SparseMatrix* j) override {
    mc::Step();
    const Point x(state, state + 3);
    MC_EXPECT(o.apply_loss_function);
    if (e->fresh_flags_checked && !o.new_evaluation_point) MC_EXPECT(e->any_last && e->last == x) << "new point passed off as the last one";
    e->last = x;
    e->any_last = true;
    const double c = e->Cost(x);
    *cost = c;
    if (c != c) return false;
    if (r || g || j) if (e->Derivative(x) == 1) return false;
    if (r) r[0] = e->Residual(x)[0];
    if (g) { g[0] = e->Gradient(x)[0]; g[1] = e->Gradient(x)[1]; }
    if (j) { j->mutable_values()[0] = e->Jacobian(x)[0]; j->mutable_values()[1] = e->Jacobian(x)[1]; }
    return true;
  }
  bool Plus(const double* state, const double* delta, double* out) const override {
    Point o;
    if (!e->Plus(Point(state, state + 3), Point(delta, delta + 2), &o)) return false;
    for (int i = 0; i < 3; ++i) out[i] = o[i];
    return true;
  }
  int NumParameters() const override { return 3; }
  int NumEffectiveParameters() const override { return 2; }
  int NumResiduals() const override { return 1; }
};

struct MockStrategy : TRS {
  Env* e;
  bool scaled;
  explicit MockStrategy(Env* e, bool scaled) : e(e), scaled(scaled) {}
  Summary ComputeStep(const PerSolveOptions& o, SparseMatrix* j, const double* r, double* step) override {
    mc::Step();
    MC_EXPECT(e->steps.size() == e->verdicts.size()) << "a step was asked for before the verdict on the last one";
    Matrix m;
    j->ToDenseMatrix(&m);
    e->seen_jacobian.push_back({m(0, 0), m(0, 1)});
    e->seen_residual.push_back({r[0]});
    e->dumps.push_back(o.dump_filename_base);
    e->etas.push_back(o.eta);
    // In scaled coordinates; the first lands where the model expects a decrease.
    const double s0 = 1 / (scaled ? .5 : 1.0), s1 = 1 / (scaled ? .25 : 1.0);
    Env::StepAnswer a;
    a.type = LSTT::SUCCESS;
    a.n = static_cast<int>(e->steps.size()) + 3;
    int c = mc::Choose(e->f.num_steps + (e->f.step_failures ? 3 : 0), "step");
    const bool neg = m(0, 0) < 0;
    switch (c) {
      case 0: a.step = {(neg ? 1 : -1) * .5 * s0, 0}; break;             // good
      case 1: a.step = {.5 * s0, 0}; break;                              // model says uphill
      case 2: a.step = {-.25 * s0, m(0, 1) < 0 ? .125 * s1 : -.125 * s1}; break;  // good, shorter
      case 3: a.step = {0, 0}; break;                                    // model says nothing changes
      default:
        if (c == e->f.num_steps - 1) { a.step = {-0x1p-30 * s0, 0}; break; }  // tiny
        c -= e->f.num_steps;
        a.step = {vu::NaN(), vu::NaN()};
        a.type = c == 0 ? LSTT::FAILURE : c == 1 ? LSTT::FATAL_ERROR : LSTT::NO_CONVERGENCE;
        if (c == 2) a.step = {-.5 * s0, 0};
    }
    e->steps.push_back(a);
    step[0] = a.step[0];
    step[1] = a.step[1];
    Summary s;
    s.termination_type = a.type;
    s.num_iterations = a.n;
    s.residual_norm = 1;
    return s;
  }
  void Verdict(char k, double q) {
    MC_EXPECT(e->verdicts.size() + 1 == e->steps.size()) << "verdict " << k << " without a step to judge";
    e->verdicts.push_back({k, q});
    e->radii.push_back(e->f.radius_answers && mc::Flip("radius") ? 0x1p-20 : 4 + e->verdicts.size());
  }
  void StepAccepted(double q) override { Verdict('A', q); }
  void StepRejected(double q) override { Verdict('R', q); }
  void StepIsInvalid() override { Verdict('I', 0); }
  double Radius() const override { return e->radii.back(); }
};

struct Callback : ceres::IterationCallback {
  Env* e;
  const double* parameters;
  ceres::CallbackReturnType operator()(const IterationSummary& s) override {
    mc::Step();
    e->told.push_back(s);
    e->told_x.push_back(Point(parameters, parameters + 3));
    const int a = e->f.callback_answers ? mc::Choose(3, "callback") : 0;
    e->answers.push_back(a);
    if (e->f.time_answers && mc::Flip("time passes")) g_now += 10;
    e->clock.push_back(g_now);
    return a == 0 ? ceres::SOLVER_CONTINUE : a == 1 ? ceres::SOLVER_TERMINATE_SUCCESSFULLY : ceres::SOLVER_ABORT;
  }
};

// Published algorithm (Conn, Gould, Toint: Trust Region Methods, 10.1.2).
struct History {
  int window;
  double f, fmin, fr, fc, sr = 0, sc = 0;
  int l = 0;
  History(double f0, int window) : window(window), f(f0), fmin(f0), fr(f0), fc(f0) {}
  double Quality(double fnew, double dm) const {
    if (!(fnew < std::numeric_limits<double>::max())) return std::numeric_limits<double>::lowest();
    return std::max((f - fnew) / dm, (fr - fnew) / (sr + dm));
  }
  void Accept(double fnew, double dm) {
    f = fnew;
    sc += dm;
    sr += dm;
    if (fnew < fmin) {
      fc = fmin = fnew;
      sc = 0;
      l = 0;
    } else {
      ++l;
      if (fnew > fc) { fc = fnew; sc = 0; }
    }
    if (l == window) { fr = fc; sr = sc; }
  }
};

double Norm2(const Point& a, const Point& b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(s);
}
double NormInf(const Point& a, const Point& b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s = std::max(s, std::abs(a[i] - b[i]));
  return s;
}

// What happens according to the specification.
struct Expected {
  ceres::TerminationType type = ceres::NO_CONVERGENCE;
  std::vector<IterationSummary> its;
  std::vector<Env::Verdict> verdicts;
  std::vector<Point> at;  // where each step was asked for
  std::vector<double> radius;
  Point best;
  int good = 0, bad = 0;
  bool moved = false;
  double initial = 0;
  int inner = 0;
};
using Inner = std::function<Point(const Point&)>;

Expected Reference(Env& e, const Minimizer::Options& o, double fixed, double preprocess, const Inner& inner) {
  Expected r;
  const double kMax = std::numeric_limits<double>::max();
  Point x = e.start, tmp;
  r.best = e.start;
  r.type = ceres::FAILURE;
  if (o.is_constrained) {
    if (!e.Plus(x, {0, 0}, &tmp)) return r;
    x = tmp;
  }
  double scale[2] = {1, 1};
  double fx = 0, gmax = 0, gnorm = 0;
  auto derive = [&](const Point& p) {
    fx = e.Cost(p);
    if (fx != fx || e.Derivative(p) == 1) return false;
    const Point g = e.Gradient(p);
    Point q;
    if (!e.Plus(p, {-g[0], -g[1]}, &q)) return false;
    gmax = NormInf(p, q);
    gnorm = Norm2(p, q);
    return true;
  };
  if (!derive(x)) return r;
  if (o.jacobi_scaling) for (int i = 0; i < 2; ++i) scale[i] = 1 / (1 + std::abs(e.Jacobian(x)[i]));
  r.initial = fx + fixed;
  History h(fx, o.use_nonmonotonic_steps ? o.max_consecutive_nonmonotonic_steps : 0);
  double fmin = kMax;
  bool any_success = false, inner_on = static_cast<bool>(inner);
  int invalid = 0;
  IterationSummary it;
  it.step_is_valid = it.step_is_successful = true;
  it.cost = fx + fixed;
  it.gradient_max_norm = gmax;
  it.gradient_norm = gnorm;
  it.eta = o.eta;
  it.linear_solver_iterations = 0;
  for (int n = 0;; ++n) {
    // End of iteration n.
    it.iteration = n;
    it.trust_region_radius = e.radii[std::min(r.verdicts.size(), e.radii.size() - 1)];
    it.step_is_nonmonotonic = false;
    if (it.step_is_successful) {
      ++r.good;
      if (fx < fmin) {
        fmin = fx;
        r.best = x;
      } else {
        it.step_is_nonmonotonic = true;
      }
    } else {
      ++r.bad;
    }
    r.its.push_back(it);
    if (n >= static_cast<int>(e.answers.size())) return r;  // reported by the comparison
    if (e.answers[n] == 2) { r.type = ceres::USER_FAILURE; return r; }
    if (e.answers[n] == 1) { r.type = ceres::USER_SUCCESS; return r; }
    r.type = ceres::NO_CONVERGENCE;
    if (e.clock[n] + preprocess >= o.max_solver_time_in_seconds) return r;
    if (n >= o.max_num_iterations) return r;
    r.type = ceres::CONVERGENCE;
    if (it.step_is_successful && gmax <= o.gradient_tolerance) return r;
    if (it.trust_region_radius <= o.min_trust_region_radius) return r;
    // A new step.
    r.type = ceres::FAILURE;
    it = IterationSummary();
    it.eta = o.eta;
    it.gradient_max_norm = gmax;
    it.gradient_norm = gnorm;
    r.at.push_back(x);
    if (r.at.size() > e.steps.size()) return r;
    const Env::StepAnswer& a = e.steps[r.at.size() - 1];
    if (a.type == LSTT::FATAL_ERROR) return r;
    it.linear_solver_iterations = a.n;
    double dm = 0;
    if (a.type != LSTT::FAILURE) {
      const double jd = e.Jacobian(x)[0] * scale[0] * a.step[0] + e.Jacobian(x)[1] * scale[1] * a.step[1];
      dm = -jd * (e.Residual(x)[0] + jd / 2);
    }
    if (a.type == LSTT::FAILURE || !(dm > 0)) {
      it.step_is_valid = it.step_is_successful = false;
      it.cost = fx + fixed;
      if (++invalid >= o.max_num_consecutive_invalid_steps) return r;
      r.verdicts.push_back({'I', 0});
      continue;
    }
    invalid = 0;
    it.step_is_valid = true;
    Point c = x;
    double fc = kMax;
    const bool reachable = e.Plus(x, {a.step[0] * scale[0], a.step[1] * scale[1]}, &c);
    if (reachable) {
      fc = e.Cost(c);
      if (fc != fc) fc = kMax;
    }
    bool useful = false;
    if (inner_on && fc < kMax) {
      ++r.inner;
      const Point ci = inner(c);
      const double fi = e.Cost(ci);
      if (fi == fi) {
        dm += fc - fi;
        useful = fi < std::min(fx, fc);
        inner_on = 1 - fi / fc > o.inner_iteration_tolerance;
        c = ci;
        fc = fi;
      }
    }
    if (reachable) it.step_norm = Norm2(x, c);
    it.cost_change = fx - fc;
    r.type = ceres::CONVERGENCE;
    const double xn = Norm2(x, {0, 0, 0});
    if (reachable && any_success && it.step_norm <= o.parameter_tolerance * (xn + o.parameter_tolerance)) return r;
    if (std::abs(fx - fc) <= o.function_tolerance * fx) return r;
    it.relative_decrease = h.Quality(fc, dm);
    if (useful || it.relative_decrease > o.min_relative_decrease) {
      r.type = ceres::FAILURE;
      x = c;
      if (!derive(x)) return r;
      any_success = true;
      it.step_is_successful = true;
      it.cost = fx + fixed;
      it.gradient_max_norm = gmax;
      it.gradient_norm = gnorm;
      r.verdicts.push_back({'A', it.relative_decrease});
      h.Accept(fc, dm);
    } else {
      it.step_is_successful = false;
      it.cost = fc + fixed;
      r.verdicts.push_back({'R', it.relative_decrease});
    }
  }
}

void Compare(const Expected& x, const Env& e, const Solver::Summary& s, const double* parameters, bool scaled, double fixed) {
  MC_EXPECT(s.termination_type == x.type) << ceres::TerminationTypeToString(s.termination_type) << " not " << ceres::TerminationTypeToString(x.type) << ": " << s.message;
  MC_EXPECT(!s.message.empty()) << "no reason given";
  MC_EXPECT(x.verdicts.size() == e.verdicts.size()) << e.verdicts.size() << " verdicts, not " << x.verdicts.size();
  for (size_t i = 0; i < std::min(x.verdicts.size(), e.verdicts.size()); ++i) {
    MC_EXPECT(x.verdicts[i].kind == e.verdicts[i].kind) << "verdict " << i << " is " << e.verdicts[i].kind << " not " << x.verdicts[i].kind;
    MC_EXPECT(vu::Near(x.verdicts[i].quality, e.verdicts[i].quality, 1e-9)) << "quality " << i << " is " << e.verdicts[i].quality << " not " << x.verdicts[i].quality;
  }
  MC_EXPECT(x.at.size() == e.steps.size()) << e.steps.size() << " steps asked for, not " << x.at.size();
  const Point j0 = e.Jacobian(x.at.empty() ? e.start : x.at[0]);
  for (size_t i = 0; i < std::min(x.at.size(), e.steps.size()); ++i) {
    const Point j = e.Jacobian(x.at[i]);
    for (int k = 0; k < 2; ++k) {
      const double expect = j[k] * (scaled ? 1 / (1 + std::abs(j0[k])) : 1.0);
      MC_EXPECT(vu::Near(e.seen_jacobian[i][k], expect, 1e-12)) << "step " << i << " with column " << k << " " << e.seen_jacobian[i][k] << " not " << expect;
    }
    MC_EXPECT(e.seen_residual[i] == e.Residual(x.at[i])) << "step " << i << " computed from another point";
  }
  MC_EXPECT(x.its.size() == s.iterations.size()) << s.iterations.size() << " iterations, not " << x.its.size();
  MC_EXPECT(s.iterations.size() == e.told.size());
  for (size_t i = 0; i < std::min(x.its.size(), s.iterations.size()); ++i) {
    const IterationSummary &a = x.its[i], &b = s.iterations[i];
#define SAME(f, tol) MC_EXPECT(vu::Near(a.f, b.f, tol)) << "iteration " << i << ": " #f " is " << b.f << " not " << a.f
    SAME(iteration, 0);
    SAME(step_is_valid, 0);
    SAME(step_is_successful, 0);
    SAME(step_is_nonmonotonic, 0);
    SAME(cost, 1e-14);
    SAME(cost_change, 1e-12);
    SAME(gradient_max_norm, 1e-14);
    SAME(gradient_norm, 1e-14);
    SAME(step_norm, 1e-12);
    SAME(relative_decrease, 1e-9);
    SAME(trust_region_radius, 0);
    SAME(eta, 0);
    SAME(linear_solver_iterations, 0);
#undef SAME
  }
  MC_EXPECT(s.num_successful_steps == x.good && s.num_unsuccessful_steps == x.bad) << s.num_successful_steps << "/" << s.num_unsuccessful_steps << " steps, not " << x.good << "/" << x.bad;
  if (!x.its.empty()) MC_EXPECT(vu::Near(s.initial_cost, x.initial, 1e-14)) << s.initial_cost << " not " << x.initial;
  MC_EXPECT(Point(parameters, parameters + 3) == x.best) << vu::Str(parameters, 3) << " returned, best is " << vu::Str(x.best, 3);
  mc::H h;
  h(static_cast<int>(s.termination_type))(static_cast<int>(s.iterations.size()));
  for (const auto& it : s.iterations) h(it.cost)(it.relative_decrease)(it.step_is_successful);
  h.D(parameters, 3);
  mc::Outcome(h.h);
  mc::Cover(ceres::TerminationTypeToString(s.termination_type));
  (void)fixed;
}

struct Run {
  Env e;
  Minimizer::Options o;
  Solver::Summary s;
  double parameters[3];
  Callback cb;
  double fixed = 0, preprocess = 0;
  Run() {
    o.is_silent = true;
    o.jacobi_scaling = true;
    o.max_num_iterations = 3;
    o.function_tolerance = 0;
    o.gradient_tolerance = 0;
    o.parameter_tolerance = 0;
    o.min_relative_decrease = 1e-3;
    o.max_num_consecutive_invalid_steps = 5;
    o.eta = .375;
    e.f.costs = {12, 9, 7.75, 7, 4, 8};
  }
  void Go(const Inner& inner = Inner(), bool finish = true) {
    g_now = 0;
    g_fake_clock = true;
    o.evaluator = std::make_shared<MockEvaluator>(&e);
    o.jacobian = o.evaluator->CreateJacobian();
    o.trust_region_strategy = std::make_shared<MockStrategy>(&e, o.jacobi_scaling);
    cb.e = &e;
    cb.parameters = parameters;
    o.callbacks = {&cb};
    for (int i = 0; i < 3; ++i) parameters[i] = e.start[i];
    s.fixed_cost = fixed;
    s.preprocessor_time_in_seconds = preprocess;
    TrustRegionMinimizer().Minimize(o, parameters, &s);
    g_fake_clock = false;
    const Expected x = Reference(e, o, fixed, preprocess, inner);
    Compare(x, e, s, parameters, o.jacobi_scaling, fixed);
    if (inner) MC_EXPECT(s.num_inner_iteration_steps == x.inner) << s.num_inner_iteration_steps << " inner steps, not " << x.inner;
  }
};

// Acceptance and the non-monotonic reference.
MC_SCENARIO(Acceptance, .split = 4) {
  Run r;
  const int window = mc::Choose(4, "window");
  r.o.use_nonmonotonic_steps = window > 0;
  r.o.max_consecutive_nonmonotonic_steps = window > 0 ? window : 3;
  r.o.min_relative_decrease = mc::Pick<double>({1e-3, .5, 0});
  r.o.jacobi_scaling = mc::Flip("scaling");
  r.fixed = 16;
  r.e.f.num_steps = 3;
  r.e.f.costs = {12, 9, 7.625, 7, 4, 8};
  r.o.max_num_iterations = mc::Bound(4, 5, 3);
  r.Go();
}

// Everything that makes a step invalid or unusable.
MC_SCENARIO(Invalid, .split = 3) {
  Run r;
  r.o.max_num_consecutive_invalid_steps = mc::Range(0, 3);
  r.o.use_nonmonotonic_steps = mc::Flip();
  r.o.max_consecutive_nonmonotonic_steps = 1;
  r.e.f.costs = {9, 6, vu::NaN()};
  r.e.f.step_failures = true;
  r.o.max_num_iterations = mc::Bound(4, 5);
  r.Go();
}

// Failures of the manifold and of derivative evaluation.
MC_SCENARIO(Failures, .split = 3) {
  Run r;
  r.o.is_constrained = mc::Flip("constrained");
  r.o.max_num_line_search_step_size_iterations = 0;
  if (r.o.is_constrained) r.e.bounded = mc::Flip("bounded");
  r.e.f.plus_answers = true;
  r.e.f.derivative_answers = true;
  r.e.f.num_steps = 3;
  r.e.start_cost = mc::Flip() ? vu::NaN() : 8;
  if (mc::Flip("outside")) r.e.start[0] = 5;
  r.e.f.costs = {9, 6, vu::NaN()};
  r.o.parameter_tolerance = mc::Pick<double>({0, 1e-6});
  r.o.max_num_iterations = mc::Bound(3, 4);
  r.Go();
}

// All reasons to stop.
MC_SCENARIO(Termination, .split = 4) {
  Run r;
  r.o.function_tolerance = mc::Pick<double>({0, .125});
  r.o.parameter_tolerance = mc::Pick<double>({0, 1e-6});
  r.o.gradient_tolerance = mc::Pick<double>({0, 0x1p-10});
  r.o.min_trust_region_radius = mc::Pick<double>({1e-32, 0x1p-20});
  r.o.max_num_iterations = mc::Range(0, mc::Bound(2, 3));
  r.e.f.num_steps = 5;
  r.e.f.costs = {9, 7, 4, vu::NaN()};
  r.e.f.gradient_answers = true;
  r.e.f.radius_answers = true;
  r.Go();
}
MC_SCENARIO(CallbackAndTime, .split = 3) {
  Run r;
  r.o.max_num_iterations = mc::Range(0, mc::Bound(3, 4));
  r.o.max_solver_time_in_seconds = mc::Pick<double>({1e9, 15, 11, 1, 0});
  r.preprocess = mc::Flip() ? 1 : 0;
  r.o.gradient_tolerance = mc::Pick<double>({0, 0x1p-10});
  r.e.f.callback_answers = true;
  r.e.f.time_answers = true;
  r.e.f.gradient_answers = mc::Flip();
  r.e.f.num_steps = 1;
  r.e.f.costs = {9, 4};
  r.o.trust_region_minimizer_iterations_to_dump = {2, 1};
  r.o.trust_region_problem_dump_directory = "/d";
  r.o.trust_region_problem_dump_format_type = ceres::TEXTFILE;
  r.Go();
  for (size_t i = 0; i < r.e.dumps.size(); ++i) {
    const std::string expect = i == 0 ? "/d/ceres_solver_iteration_001" : i == 1 ? "/d/ceres_solver_iteration_002" : "";
    MC_EXPECT(r.e.dumps[i] == expect) << "step " << i << " dumps to " << r.e.dumps[i];
    MC_EXPECT(r.e.etas[i] == .375);
  }
}

// Inner iterations: the real coordinate descent moves the candidate to a target.
struct Towards : ceres::CostFunction {
  Point* target;
  explicit Towards(Point* t) : target(t) { set_num_residuals(3); mutable_parameter_block_sizes()->push_back(3); }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    for (int i = 0; i < 3; ++i) r[i] = x[0][i] - (*target)[i];
    if (j && j[0]) for (int i = 0; i < 9; ++i) j[0][i] = i % 4 == 0;
    return true;
  }
};
MC_SCENARIO(InnerIterations, .split = 4) {
  Run r;
  const int window = mc::Choose(2, "window");
  r.o.use_nonmonotonic_steps = window > 0;
  r.o.max_consecutive_nonmonotonic_steps = 2;
  r.o.min_relative_decrease = mc::Pick<double>({1e-3, .5});
  r.o.inner_iteration_tolerance = mc::Pick<double>({1e-3, .25});
  r.e.f.num_steps = 1;
  r.e.fresh_flags_checked = false;
  r.o.max_num_iterations = mc::Bound(3, 4);
  // The candidate's cost may be anything, inner iterations never raise it.
  double block[3] = {0, 0, 0};
  Point target = {100, 50, 25};
  ceres::Problem problem;
  problem.AddResidualBlock(new Towards(&target), nullptr, block);
  ContextImpl context;
  auto* impl = problem.mutable_impl();
  Program* program = impl->mutable_program();
  program->SetParameterOffsetsAndIndex();
  ceres::ParameterBlockOrdering ordering;
  ordering.AddElementToGroup(block, 0);
  auto make = [&] {
    auto m = std::make_shared<CoordinateDescentMinimizer>(&context);
    std::string error;
    MC_EXPECT(m->Init(*program, impl->parameter_map(), ordering, &error)) << error;
    return m;
  };
  r.o.inner_iteration_minimizer = make();
  r.o.context = &context;
  r.e.f.costs = {12, 7.75, 6};
  auto second = make();
  Inner inner = [&](const Point& c) {
    Point out = c;
    Solver::Summary s;
    second->Minimize(r.o, out.data(), &s);
    return out;
  };
  // Points reached by inner iterations get their own alphabet.
  struct InnerEvaluator : MockEvaluator {
    Inner inner;
    Point candidate;
    bool in_between = false;
    InnerEvaluator(Env* e) : MockEvaluator(e) {}
    bool Evaluate(const EvaluateOptions& o, const double* state, double* cost, double* r, double* g, SparseMatrix* j) override {
      const Point x(state, state + 3);
      if (!r && !g && !j && e->cost.find(x) == e->cost.end()) {
        // A new candidate: also fix what inner iterations will find.
        const double c = e->Cost(x);
        if (c == c) {
          const Point y = inner(x);
          if (e->cost.find(y) == e->cost.end()) {
            const std::vector<double> v = {c, c - .0625, c - 3, c - 5.5, vu::NaN()};
            e->cost[y] = v[mc::Choose(5, "inner cost")];
          }
        }
      }
      return MockEvaluator::Evaluate(o, state, cost, r, g, j);
    }
  };
  g_now = 0;
  g_fake_clock = true;
  r.s.fixed_cost = r.s.preprocessor_time_in_seconds = r.s.num_inner_iteration_steps = 0;
  auto ev = std::make_shared<InnerEvaluator>(&r.e);
  ev->inner = [&](const Point& c) { target = {c[0] + 100, c[1] + 50, c[2] + 25}; return inner(c); };
  r.o.evaluator = ev;
  r.o.jacobian = ev->CreateJacobian();
  r.o.trust_region_strategy = std::make_shared<MockStrategy>(&r.e, r.o.jacobi_scaling);
  r.cb.e = &r.e;
  r.cb.parameters = r.parameters;
  r.o.callbacks = {&r.cb};
  for (int i = 0; i < 3; ++i) r.parameters[i] = r.e.start[i];
  TrustRegionMinimizer().Minimize(r.o, r.parameters, &r.s);
  g_fake_clock = false;
  const Expected x = Reference(r.e, r.o, 0, 0, [&](const Point& c) { target = {c[0] + 100, c[1] + 50, c[2] + 25}; return inner(c); });
  Compare(x, r.e, r.s, r.parameters, true, 0);
  MC_EXPECT(r.s.num_inner_iteration_steps == x.inner) << r.s.num_inner_iteration_steps << " inner steps, not " << x.inner;
}

// The step evaluator on its own, deeper.
MC_SCENARIO(StepEvaluator, .split = 4) {
  const int window = mc::Choose(5, "window");
  TrustRegionStepEvaluator e(8, window);
  History h(8, window);
  const int depth = mc::Bound(6, 8);
  for (int i = 0; i < depth; ++i) {
    const double c = mc::Pick<double>({9, 8, 7, 10, 5, std::numeric_limits<double>::max()});
    const double dm = c == 5 ? 4 : 1;
    const double q = e.StepQuality(c, dm), expect = h.Quality(c, dm);
    MC_EXPECT(vu::Near(q, expect, 1e-12)) << "quality " << q << " not " << expect << " at step " << i;
    mc::Step();
    if (q > 0) {
      e.StepAccepted(c, dm);
      h.Accept(c, dm);
      mc::Outcome(mc::H()(h.f)(h.fr)(h.sr)(h.fc)(h.sc)(h.l).h);
      if (c != 9 && c != 10) continue;
    } else if (c > 1e300) {
      break;
    }
    // Rejection leaves it unchanged: only go on if the step was taken.
    if (!(q > 0)) break;
  }
}

// ---------------------------------------------------------------- Levenberg-Marquardt
struct MockLinearSolver : LinearSolver {
  std::vector<Point> d;
  std::vector<PerSolveOptions> options;
  std::vector<int> given;
  int answers = 4;
  Point b;
  Matrix a;
  Summary Solve(LinearOperator* A, const double* rhs, const PerSolveOptions& o, double* x) override {
    mc::Step();
    const int n = A->num_cols();
    d.push_back(o.D ? Point(o.D, o.D + n) : Point());
    options.push_back(o);
    b = Point(rhs, rhs + A->num_rows());
    static_cast<SparseMatrix*>(A)->ToDenseMatrix(&a);
    Summary s;
    s.residual_norm = 5;
    s.num_iterations = 7;
    const int k = mc::Choose(answers, "solver");
    given.push_back(k);
    switch (k) {
      case 0:
        s.termination_type = LSTT::SUCCESS;
        for (int i = 0; i < n; ++i) x[i] = 3 + i;
        break;
      case 1: s.termination_type = LSTT::FAILURE; break;
      case 2:  // says it worked but leaves part of the answer out
        s.termination_type = LSTT::SUCCESS;
        for (int i = 0; i + 1 < n; ++i) x[i] = 1;
        break;
      case 3: s.termination_type = LSTT::FATAL_ERROR; break;
      case 4:
        s.termination_type = LSTT::NO_CONVERGENCE;
        for (int i = 0; i < n; ++i) x[i] = -2 - i;
        break;
      case 5:
        s.termination_type = LSTT::SUCCESS;
        for (int i = 0; i < n; ++i) x[i] = i == 1 ? vu::Inf() : 1;
        break;
    }
    return s;
  }
};

MC_SCENARIO(LevenbergMarquardt, .split = 4) {
  ContextImpl context;
  MockLinearSolver solver;
  solver.answers = 6;
  TRS::Options o;
  o.trust_region_strategy_type = ceres::LEVENBERG_MARQUARDT;
  o.linear_solver = &solver;
  o.initial_radius = mc::Pick<double>({1, 1e4, 100});
  o.max_radius = mc::Pick<double>({100, 1e32, 1e4});
  if (o.initial_radius > o.max_radius) return mc::Trivial();
  o.min_lm_diagonal = mc::Pick<double>({1e-6, 2});
  o.max_lm_diagonal = mc::Pick<double>({1e32, 5});
  o.context = &context;
  o.num_threads = 1;
  auto strategy = TRS::Create(o);
  double radius = o.initial_radius, factor = 2;
  Matrix base(3, 3);
  base << 1, 0, 0, 0, 2, 0, 1, 0, 0;  // squared norms 2, 4, 0
  double scale = 1;
  bool keep = false;
  Point diag;
  const int depth = mc::Bound(3, 4);
  for (int k = 0; k < depth; ++k) {
    MC_EXPECT(strategy->Radius() <= o.max_radius);
    MC_EXPECT(vu::Near(strategy->Radius() / radius, 1, 1e-12)) << strategy->Radius() << " not " << radius;
    DenseSparseMatrix j(3, 3);
    *j.mutable_matrix() = base * scale;
    const Matrix before = j.matrix();
    const Point r = {1, 2, 3};
    Point step = {9, 9, 9};
    TRS::PerSolveOptions po;
    po.eta = .25;
    const size_t calls = solver.d.size();
    const TRS::Summary s = strategy->ComputeStep(po, &j, r.data(), step.data());
    MC_REQUIRE(solver.d.size() == calls + 1) << "solver called " << solver.d.size() - calls << " times";
    MC_EXPECT(j.matrix() == before && solver.a == before) << "Jacobian changed";
    MC_EXPECT(solver.b == r);
    if (!keep) {
      diag.clear();
      for (int i = 0; i < 3; ++i) diag.push_back(std::min(std::max(before.col(i).squaredNorm(), o.min_lm_diagonal), o.max_lm_diagonal));
    }
    for (int i = 0; i < 3; ++i) MC_EXPECT(vu::Near(solver.d.back()[i] / std::sqrt(diag[i] / radius), 1, 1e-12)) << "damping " << i << " is " << solver.d.back()[i] << " not " << std::sqrt(diag[i] / radius);
    MC_EXPECT(solver.options.back().q_tolerance == .25 && solver.options.back().r_tolerance < 0);
    MC_EXPECT(s.num_iterations == 7);
    const int given = solver.given.back();
    if (given == 3) {
      MC_EXPECT(s.termination_type == LSTT::FATAL_ERROR);
      break;
    }
    const bool usable = given == 0 || given == 4;
    if (usable) {
      MC_EXPECT(s.termination_type == (given == 0 ? LSTT::SUCCESS : LSTT::NO_CONVERGENCE));
      for (int i = 0; i < 3; ++i) MC_EXPECT(step[i] == (given == 0 ? -3.0 - i : 2.0 + i)) << "step " << vu::Str(step, 3);
    } else {
      MC_EXPECT(s.termination_type == LSTT::FAILURE) << "an unusable step is passed on";
    }
    // The verdict.
    const int v = usable ? mc::Choose(8, "verdict") : 6;
    if (v < 6) {
      const double q = std::vector<double>{.01, .25, .5, .75, 1, 3}[v];
      strategy->StepAccepted(q);
      const double t = 2 * q - 1;
      radius = std::min(o.max_radius, radius / std::max(1 / 3., 1 - t * t * t));
      factor = 2;
      keep = false;
      scale = -1.5 * (k + 2);
    } else {
      if (v == 6) strategy->StepIsInvalid(); else strategy->StepRejected(-1);
      radius /= factor;
      factor *= 2;
      keep = true;  // the same point: the Jacobian stays what it was
    }
    mc::Outcome(mc::H()(radius)(factor)(keep).h);
  }
  MC_EXPECT(vu::Near(strategy->Radius() / radius, 1, 1e-12)) << strategy->Radius() << " not " << radius;
}

// ---------------------------------------------------------------- dogleg
struct Model {
  LM J;
  LV r, diag, g;  // g is the gradient in scaled coordinates
  LV gn, gn0;     // scaled Gauss-Newton step, with and without regularisation
  long double alpha;
  Model(const Matrix& j, const Point& res, double lo, double hi, double mu) {
    J = j.cast<long double>();
    r = LV(static_cast<int>(res.size()));
    for (size_t i = 0; i < res.size(); ++i) r[i] = res[i];
    const int n = static_cast<int>(J.cols());
    diag = LV(n);
    for (int i = 0; i < n; ++i) diag[i] = std::sqrt(std::min(std::max(J.col(i).squaredNorm(), static_cast<long double>(lo)), static_cast<long double>(hi)));
    const LV g0 = J.transpose() * r;
    g = g0.cwiseQuotient(diag);
    const LV s = g.cwiseQuotient(diag);
    alpha = g.squaredNorm() / (J * s).squaredNorm();
    LM H = J.transpose() * J;
    H.diagonal() += static_cast<long double>(mu) * diag.cwiseProduct(diag);
    gn = -(H.ldlt().solve(g0)).cwiseProduct(diag);
  }
  // Model decrease of the scaled step s.
  long double Decrease(const LV& s) const {
    const LV js = J * s.cwiseQuotient(diag);
    return -js.dot(r + js / 2);
  }
  LV Traditional(long double radius) const {
    if (gn.norm() <= radius) return gn;
    if (alpha * g.norm() >= radius) return -(radius / g.norm()) * g;
    const LV a = -alpha * g, d = gn - a;
    // |a + t d| = radius by bisection: no closed formula to get wrong.
    long double lo = 0, hi = 1;
    for (int k = 0; k < 200; ++k) {
      const long double t = (lo + hi) / 2;
      if ((a + t * d).norm() <= radius) lo = t; else hi = t;
    }
    return a + lo * d;
  }
  // Best decrease within the region over the plane of gradient and Gauss-Newton step.
  long double Subspace(long double radius) const {
    if (gn.norm() <= radius) return Decrease(gn);
    LV u = g / g.norm(), v = gn - u * u.dot(gn);
    if (v.norm() <= 1e-12L * gn.norm()) return Decrease(-radius * u);
    v = v / v.norm();
    // The optimum lies on the circle: scan finely, then refine around the best.
    long double best = -1e300L, at = 0;
    const int n = 720;
    auto f = [&](long double t) { return Decrease(radius * (std::cos(t) * u + std::sin(t) * v)); };
    for (int k = 0; k < n; ++k) {
      const long double t = 2 * M_PIl * k / n, d = f(t);
      if (d > best) { best = d; at = t; }
    }
    long double h = 2 * M_PIl / n;
    for (int k = 0; k < 120; ++k) {
      h *= .75L;
      for (long double t : {at - h, at + h}) if (f(t) > best) { best = f(t); at = t; }
    }
    return best;
  }
};

void CheckDogleg(TRS* strategy, ceres::DoglegType type, const Matrix& j, const Point& res, double lo, double hi, double mu, double radius, const Point& step, double tol = 1e-7) {
  const Model m(j, res, lo, hi, mu);
  if (m.g.norm() == 0) {
    MC_EXPECT(vu::Near(Point(step)[0], 0, 1e-12)) << "moved without a gradient";
    return;
  }
  LV s(static_cast<int>(step.size()));
  for (size_t i = 0; i < step.size(); ++i) s[i] = step[i];
  const LV scaled = s.cwiseProduct(m.diag);
  MC_EXPECT(std::isfinite(static_cast<double>(scaled.norm()))) << "step " << vu::Str(step, static_cast<int>(step.size()));
  MC_EXPECT(scaled.norm() <= radius * (1 + 1e-9L)) << "step of scaled length " << static_cast<double>(scaled.norm()) << " outside the radius " << radius;
  const long double got = m.Decrease(scaled), scale = std::max<long double>(m.r.squaredNorm() / 2, 1e-30L);
  const LV trad = m.Traditional(radius);
  const LV cauchy = -std::min(m.alpha, radius / m.g.norm()) * m.g;
  // (The regularised Gauss-Newton step may fall short of it by what regularisation costs.)
  MC_EXPECT(got >= std::min(m.Decrease(cauchy), m.Decrease(m.gn)) - tol * scale) << "decrease " << static_cast<double>(got) << " below the Cauchy point's " << static_cast<double>(m.Decrease(cauchy));
  if (type == ceres::TRADITIONAL_DOGLEG) {
    const long double err = (scaled - trad).norm();
    MC_EXPECT(err <= 10 * tol * std::max<long double>(trad.norm(), 1e-30L)) << "step " << vu::Str(step, static_cast<int>(step.size())) << " is off the dogleg path by " << static_cast<double>(err / trad.norm());
    mc::Cover(m.gn.norm() <= radius ? "Gauss-Newton" : m.alpha * m.g.norm() >= radius ? "Cauchy" : "dogleg");
  } else {
    const long double best = m.Subspace(radius);
    MC_EXPECT(got >= best - tol * std::max<long double>(std::abs(best), 1e-12L * scale)) << "decrease " << static_cast<double>(got) << " optimal " << static_cast<double>(best) << " radius " << radius << " scaled length " << static_cast<double>(scaled.norm());
    mc::Cover(m.gn.norm() <= radius ? "Gauss-Newton" : "boundary");
  }
  mc::Outcome(mc::H().D(step.data(), static_cast<int>(step.size())).h);
}

// All small integer Jacobians, residuals and radii, exact linear solver.
void DoglegSteps(int n, int entries) {
  ContextImpl context;
  const ceres::DoglegType type = mc::Flip("subspace") ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG;
  const int rows = n;
  Matrix j(rows, n);
  for (int i = 0; i < rows * n; ++i) j(i / n, i % n) = mc::Choose(entries, "entry") - (entries - 1) / 2;
  const int w = mc::Choose(3, "weights");
  const Point weights = w == 0 ? Point{1, 1, 1} : w == 1 ? Point{1, 100, 1} : Point{1e-3, 1, 10};
  for (int i = 0; i < n; ++i) j.col(i) *= weights[i];
  const Point res = mc::Pick<Point>({{1, 2, -1}, {3, 0, 1}, {1, -1, 2}});
  const double lo = mc::Pick<double>({1e-6, 1});
  const Point rr(res.begin(), res.begin() + rows);
  // Rank deficient ones are decided by the regularisation alone.
  const double det = std::abs(j.determinant());
  if (j.colwise().norm().minCoeff() == 0 || det < 1e-9 * j.norm()) return mc::Trivial();
  if (mc::Skipping()) return;
  LinearSolver::Options lo_opt;
  lo_opt.type = ceres::DENSE_QR;
  lo_opt.context = &context;
  auto solver = LinearSolver::Create(lo_opt);
  for (double radius : {1e-6, .01, .1, .3, .5, .75, 1., 1.25, 1.5, 2., 3., 5., 10., 50., 1e4}) {
    TRS::Options o;
    o.trust_region_strategy_type = ceres::DOGLEG;
    o.dogleg_type = type;
    o.linear_solver = solver.get();
    o.initial_radius = radius;
    o.min_lm_diagonal = lo;
    o.context = &context;
    auto strategy = TRS::Create(o);
    DenseSparseMatrix jac(rows, n);
    *jac.mutable_matrix() = j;
    Point step(n, vu::NaN());
    const auto s = strategy->ComputeStep(TRS::PerSolveOptions(), &jac, rr.data(), step.data());
    mc::Step();
    MC_EXPECT(s.termination_type == LSTT::SUCCESS);
    MC_EXPECT(jac.matrix() == j);
    CheckDogleg(strategy.get(), type, j, rr, lo, 1e32, 1e-8, radius, step);
    // Rejected: the region shrinks, the same model is used again.
    for (int k = 0; k < 3; ++k) {
      strategy->StepRejected(-1);
      MC_EXPECT(vu::Near(strategy->Radius(), radius * std::pow(.5, k + 1), 1e-14));
      Point again(n, vu::NaN());
      MC_EXPECT(strategy->ComputeStep(TRS::PerSolveOptions(), &jac, rr.data(), again.data()).termination_type == LSTT::SUCCESS);
      mc::Step();
      CheckDogleg(strategy.get(), type, j, rr, lo, 1e32, 1e-8, strategy->Radius(), again);
    }
    if (mc::Failed()) return;
  }
}
MC_SCENARIO(Dogleg1, .split = 3) { DoglegSteps(1, mc::Bound(7, 9)); }
MC_SCENARIO(Dogleg2, .split = 4, .weight = 4) { DoglegSteps(2, mc::Bound(5, 7)); }
MC_SCENARIO(Dogleg3, .split = 5, .weight = 4) { DoglegSteps(3, mc::Bound(2, 3)); }

// Verdict sequences, solver failures, reuse.
MC_SCENARIO(DoglegHistory, .split = 4, .weight = 4) {
  ContextImpl context;
  const ceres::DoglegType type = mc::Flip("subspace") ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG;
  struct Flaky : LinearSolver {
    std::unique_ptr<LinearSolver> real;
    std::vector<Point> d;
    std::vector<int> given;
    int budget = 0;  // failures left
    Summary Solve(LinearOperator* A, const double* b, const PerSolveOptions& o, double* x) override {
      d.push_back(Point(o.D, o.D + A->num_cols()));
      mc::Step();
      int k = 0;
      if (always) k = 1; else if (budget > 0) k = mc::Choose(5, "solver");
      given.push_back(k);
      if (k && !always) --budget;
      Summary s = real->Solve(A, b, o, x);
      if (k == 1) { s.termination_type = LSTT::FAILURE; for (int i = 0; i < A->num_cols(); ++i) x[i] = 77; }
      if (k == 2) x[1] = vu::NaN();
      if (k == 3) s.termination_type = LSTT::FATAL_ERROR;
      if (k == 4) {  // fails for good
        s.termination_type = LSTT::FAILURE;
        always = true;
      }
      return s;
    }
    bool always = false;
  } solver;
  LinearSolver::Options lo;
  lo.type = ceres::DENSE_QR;
  lo.context = &context;
  solver.real = LinearSolver::Create(lo);
  TRS::Options o;
  o.trust_region_strategy_type = ceres::DOGLEG;
  o.dogleg_type = type;
  o.linear_solver = &solver;
  o.initial_radius = mc::Pick<double>({1, .3, 50});
  o.max_radius = mc::Pick<double>({1e32, 50});
  o.min_lm_diagonal = 1e-6;
  o.max_lm_diagonal = mc::Pick<double>({1e32, 3});
  o.context = &context;
  auto strategy = TRS::Create(o);
  double radius = o.initial_radius, mu = 1e-8, mu_used = 1e-8;
  bool keep = false;
  Matrix j(3, 2), fresh(3, 2);
  j << 1, 2, 0, 1, 3, 1;
  const Point res = {1, 2, -1};
  const int depth = mc::Bound(3, 4);
  solver.budget = 2;
  for (int k = 0; k < depth; ++k) {
    DenseSparseMatrix jac(3, 2);
    *jac.mutable_matrix() = j;
    Point step = {vu::NaN(), vu::NaN()};
    const size_t calls = solver.d.size();
    if (solver.always) break;
    const auto s = strategy->ComputeStep(TRS::PerSolveOptions(), &jac, res.data(), step.data());
    bool usable = true, fatal = false;
    if (keep) {
      MC_EXPECT(solver.d.size() == calls) << "Gauss-Newton step recomputed after a rejection";
    } else {
      // Retries with ten times the regularisation until it works.
      Model m(j, res, o.min_lm_diagonal, o.max_lm_diagonal, 1e-8);
      usable = false;
      size_t c = calls;
      while (mu < 1 * (1 - 1e-12)) {
        MC_REQUIRE(c < solver.d.size()) << "gave up after " << c - calls << " attempts at regularisation " << mu;
        for (int i = 0; i < 2; ++i) {
          const double expect = static_cast<double>(m.diag[i]) * std::sqrt(mu);
          MC_EXPECT(vu::Near(solver.d[c][i] / expect, 1, 1e-9)) << "attempt " << c - calls << " damped by " << solver.d[c][i] << " not " << expect;
        }
        const int g = solver.given[c++];
        if (g == 3) { fatal = true; break; }
        if (g == 0) { usable = true; break; }
        mu *= 10;
      }
      // Rounding decides whether 1e-8 * 10^8 counts as the limit.
      if (!usable && !fatal && c + 1 == solver.d.size()) { ++c; mu *= 10; }
      MC_EXPECT(c == solver.d.size()) << solver.d.size() - calls << " attempts";
      mu_used = mu;
    }
    if (fatal) {
      MC_EXPECT(s.termination_type == LSTT::FATAL_ERROR);
      mc::Cover("fatal");
      break;
    }
    double norm = 0;
    if (usable) {
      MC_EXPECT(s.termination_type == LSTT::SUCCESS);
      CheckDogleg(strategy.get(), type, j, res, o.min_lm_diagonal, o.max_lm_diagonal, mu_used, radius, step);
      const Model m(j, res, o.min_lm_diagonal, o.max_lm_diagonal, mu_used);
      LV sv(2);
      sv << step[0], step[1];
      norm = static_cast<double>(sv.cwiseProduct(m.diag).norm());
    } else {
      MC_EXPECT(s.termination_type == LSTT::FAILURE) << "a step without a Gauss-Newton step";
      mc::Cover("gave up");
    }
    const int v = usable ? mc::Choose(7, "verdict") : 5;
    if (v < 5) {
      const double q = std::vector<double>{.1, .25, .5, .75, .9}[v];
      strategy->StepAccepted(q);
      if (q < .25) radius /= 2;
      if (q > .75) radius = std::min(o.max_radius, std::max(radius, 3 * norm));
      mu = std::max(1e-8, mu / 5);
      keep = false;
      j = j * .5;
      j(0, 0) += 1;
    } else if (v == 5) {
      strategy->StepIsInvalid();
      mu *= 10;
      keep = false;
    } else {
      strategy->StepRejected(-1);
      radius /= 2;
      keep = true;
    }
    MC_EXPECT(vu::Near(strategy->Radius() / radius, 1, 1e-9)) << strategy->Radius() << " not " << radius;
    MC_EXPECT(strategy->Radius() <= o.max_radius) << "radius beyond its maximum";
    mc::Outcome(mc::H()(v)(static_cast<int>(solver.d.size()))(usable).h);
  }
}
}  // namespace
