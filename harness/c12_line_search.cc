// C12: line searches, interpolation, search directions and the line search
// loop, for every sequence of function answers.
#include <algorithm>
#include <complex>
#include <deque>
#include <map>

#include "Eigen/Dense"
#include "ceres/cost_function.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/function_sample.h"
#include "ceres/iteration_callback.h"
#include "ceres/line_search.h"
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/minimizer.h"
#include "ceres/polynomial.h"
#include "ceres/program.h"
#include "ceres/types.h"
#include "util.h"

namespace {
using namespace ceres::internal;
using ceres::IterationSummary;
using ceres::Solver;
using Vector = ceres::Vector;
using Point = std::vector<double>;
using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LV = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
using LSI = ceres::LineSearchInterpolationType;

// ---------------------------------------------------------------- evaluators
// Ambient dimension 3, tangent dimension 2.
struct Answer {
  bool plus = true, ok = true;
  double cost = 0;
  double g[2] = {0, 0};
};
struct World : Evaluator {
  std::function<Answer(const Point&, bool gradient)> f;
  std::function<bool(const Point&, const Point&)> plus_ok = [](const Point&, const Point&) { return true; };
  int calls = 0;
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return std::make_unique<DenseSparseMatrix>(1, 2); }
  bool Evaluate(const EvaluateOptions&, const double* state, double* cost, double* r, double* g, SparseMatrix* j) override {
    mc::Step();
    ++calls;
    MC_EXPECT(r == nullptr && j == nullptr);
    const Answer a = f(Point(state, state + 3), g != nullptr);
    if (!a.ok) return false;
    *cost = a.cost;
    if (g) { g[0] = a.g[0]; g[1] = a.g[1]; }
    return true;
  }
  bool Plus(const double* s, const double* d, double* out) const override {
    if (!plus_ok(Point(s, s + 3), Point(d, d + 2))) return false;
    const double o[3] = {s[0] + d[0], s[1] + d[1], s[2] + d[0] + d[1]};
    std::copy(o, o + 3, out);
    return true;
  }
  int NumParameters() const override { return 3; }
  int NumEffectiveParameters() const override { return 2; }
  int NumResiduals() const override { return 1; }
};

// ---------------------------------------------------------------- one search
struct Sample {
  double x, value = vu::NaN(), slope = vu::NaN();
  bool valid = false, gradient = false;
  int kind = 0;
};
constexpr double kF0 = 16, kG0 = -4, kC1 = .25, kC2 = .5;

// One dimensional view of the world: the point at step x is (x, -4x, -3x).
struct Line {
  World w;
  std::vector<Sample> log;  // evaluations asked for by the search
  std::map<double, Sample> memo;
  std::vector<int> values, slopes;
  bool no_plus = false;
  int kinds_of_failure = 3;

  Sample At(double x, bool gradient) {
    auto it = memo.find(x);
    if (it == memo.end()) {
      Sample s;
      s.x = x;
      const double line = kF0 + kC1 * kG0 * x;
      double lowest = kF0;
      for (const auto& [y, o] : memo) if (o.valid) lowest = std::min(lowest, o.value);
      s.kind = mc::Pick(values, "value");
      switch (s.kind) {
        case 0: s.value = line - 8; break;
        case 1: s.value = line - 1. / 1024; break;
        case 2: s.value = line; break;
        case 3: s.value = line + 1. / 1024; break;
        case 4: s.value = kF0 + 8; break;
        case 5: s.value = lowest; break;
        case 6: s.value = lowest - 1. / 1024; break;
        case 7: s.value = vu::Inf(); break;
        case 8: s.value = vu::NaN(); break;
        default: break;  // evaluation fails, Plus fails
      }
      s.valid = s.kind < 7;
      it = memo.emplace(x, s).first;
    }
    Sample& s = it->second;
    if (gradient && s.valid && !s.gradient) {
      s.gradient = true;
      const int k = mc::Pick(slopes, "slope");
      static const double kSlope[] = {-4, -2, -1, 0, 2, 3, vu::Inf(), vu::NaN(), -8};
      s.slope = kSlope[k];
    }
    return s;
  }
  Line() {
    memo.emplace(0, Sample{0, kF0, kG0, true, true});
    w.plus_ok = [this](const Point& at, const Point& d) {
      const double x = at[0] + d[0];
      if (memo.find(x) == memo.end()) log.push_back({x});
      else log.push_back({x});
      return At(x, false).kind != 10;
    };
    w.f = [this](const Point& p, bool gradient) {
      MC_EXPECT(p[1] == -4 * p[0] && p[2] == -3 * p[0]) << "evaluated off the line";
      MC_EXPECT(!log.empty() && log.back().x == p[0]);
      const Sample s = At(p[0], gradient);
      log.back() = s;
      log.back().gradient = gradient;
      Answer a;
      a.ok = s.kind != 9;
      a.cost = s.value;
      a.g[0] = s.slope + 4;
      a.g[1] = 1;
      return a;
    };
  }
};

bool Decreases(const Sample& s) { return s.valid && s.value <= kF0 + kC1 * kG0 * s.x; }
bool Flat(const Sample& s) { return std::isfinite(s.slope) && std::abs(s.slope) <= -kC2 * kG0; }

std::string Show(const std::vector<Sample>& log) {
  std::ostringstream o;
  o.precision(9);
  for (const auto& s : log) o << "(" << s.x << ": " << s.value << " slope " << s.slope << (s.valid ? "" : " invalid") << ") ";
  return o.str();
}

struct SearchSetup {
  LineSearch::Options o;
  double guess = 1;
};

void CheckCommon(const Line& l, const LineSearch::Options& o, const LineSearch::Summary& s) {
  MC_EXPECT(static_cast<int>(l.log.size()) <= o.max_num_iterations) << l.log.size() << " evaluations, limit " << o.max_num_iterations;
  int gradients = 0;
  for (const auto& e : l.log) gradients += e.gradient;
  MC_EXPECT(s.num_function_evaluations == static_cast<int>(l.log.size())) << s.num_function_evaluations << " reported, " << l.log.size() << " made";
  // Requests whose Plus or value failed still count as requested.
  MC_EXPECT(s.num_gradient_evaluations >= gradients && s.num_gradient_evaluations <= s.num_function_evaluations);
  MC_EXPECT(s.num_gradient_evaluations == 0 || s.num_gradient_evaluations == s.num_function_evaluations);
  MC_EXPECT(s.success || !s.error.empty()) << "failure without a reason";
  if (!s.success) return;
  const FunctionSample& p = s.optimal_point;
  MC_EXPECT(p.vector_x_is_valid && p.vector_x.size() == 3 && p.vector_x[0] == p.x && p.vector_x[1] == -4 * p.x) << "point does not belong to the step";
  if (!p.vector_x_is_valid) return;
  bool found = p.x == 0 && p.value == kF0;
  for (const auto& e : l.log) found |= e.x == p.x && e.valid && e.value == p.value;
  MC_EXPECT(found && p.value_is_valid) << "step " << p.x << " with value " << p.value << " was not evaluated: " << Show(l.log);
  if (p.vector_gradient_is_valid) {
    auto it = l.memo.find(p.x);
    MC_EXPECT(it != l.memo.end() && p.vector_gradient[0] == it->second.slope + 4 && p.vector_gradient[1] == 1 && p.gradient == it->second.slope) << "gradient of another point";
  }
}

LineSearch::Options ChooseOptions(bool wolfe) {
  LineSearch::Options o;
  o.interpolation_type = mc::Pick<LSI>({ceres::BISECTION, ceres::QUADRATIC, ceres::CUBIC}, "interpolation");
  o.sufficient_decrease = kC1;
  o.sufficient_curvature_decrease = kC2;
  o.max_step_contraction = mc::Pick<double>({1e-3, .25}, "contraction");
  o.min_step_contraction = mc::Pick<double>({.9, .5}, "contraction");
  o.max_step_expansion = wolfe ? mc::Pick<double>({10, 1.5}, "expansion") : 10;
  o.min_step_size = mc::Pick<double>({1e-9, 1.5}, "min step");  // the direction has norm 4
  o.is_silent = true;
  return o;
}

void RunArmijo(const std::vector<int>& values, const std::vector<int>& slopes, int iterations) {
  Line l;
  l.values = values;
  l.slopes = slopes;
  LineSearch::Options o = ChooseOptions(false);
  o.max_num_iterations = mc::Range(1, iterations, "iterations");
  const double guess = mc::Pick<double>({1, .5}, "guess");
  LineSearchFunction f(&l.w);
  Vector zero = Vector::Zero(3), d(2);
  d << 1, -4;
  f.Init(zero, d);
  o.function = &f;
  std::string error;
  auto search = LineSearch::Create(ceres::ARMIJO, o, &error);
  LineSearch::Summary s;
  search->Search(guess, kF0, kG0, &s);
  CheckCommon(l, o, s);
  MC_REQUIRE(!l.log.empty() && l.log[0].x == guess) << "the search did not start at the estimate";
  for (size_t i = 0; i < l.log.size(); ++i) {
    const Sample& e = l.log[i];
    MC_EXPECT(!Decreases(e) || i + 1 == l.log.size()) << "search went on past an acceptable point: " << Show(l.log);
    if (i) {
      const double x = l.log[i - 1].x, r = 1e-12 * x;
      MC_EXPECT(e.x >= o.max_step_contraction * x - r && e.x <= o.min_step_contraction * x + r) << "step " << x << " contracted to " << e.x;
      MC_EXPECT(e.x * 4 >= o.min_step_size) << "step " << e.x << " below the minimum";
    }
  }
  const Sample& last = l.log.back();
  MC_EXPECT(s.success == Decreases(last)) << Show(l.log);
  if (s.success) MC_EXPECT(s.optimal_point.x == last.x) << "not the accepted point";
  else MC_EXPECT(static_cast<int>(l.log.size()) == o.max_num_iterations || o.max_step_contraction * last.x * 4 < o.min_step_size) << "gave up early: " << Show(l.log) << s.error;
  mc::Cover(s.success ? "success" : "failure");
  mc::Outcome(mc::H()(s.success)(s.num_function_evaluations)(s.success ? s.optimal_point.x : 0).h);
}
MC_SCENARIO(Armijo, .split = 4, .weight = 2) {
  RunArmijo({0, 2, 3, 4, 7, 8, 9, 10}, {0, 3, 5}, mc::Bound(4, 5));
}
MC_SCENARIO(ArmijoLong, .split = 4) { RunArmijo({2, 3, 4, 9}, {0, 4}, mc::Bound(6, 8)); }
// Slopes that are not numbers at points whose value is.
MC_SCENARIO(ArmijoBadSlope, .split = 4) { RunArmijo({2, 3, 9}, {0, 6, 7}, mc::Bound(4, 5)); }

void RunWolfe(const std::vector<int>& values, const std::vector<int>& slopes, int lo, int hi) {
  Line l;
  l.values = values;
  l.slopes = slopes;
  LineSearch::Options o = ChooseOptions(true);
  o.max_num_iterations = mc::Range(lo, hi, "iterations");
  const double guess = 1;
  LineSearchFunction f(&l.w);
  Vector zero = Vector::Zero(3), d(2);
  d << 1, -4;
  f.Init(zero, d);
  o.function = &f;
  std::string error;
  auto search = LineSearch::Create(ceres::WOLFE, o, &error);
  LineSearch::Summary s;
  search->Search(guess, kF0, kG0, &s);
  // The start is known too.
  std::vector<Sample> all = l.log;
  all.insert(all.begin(), Sample{0, kF0, kG0, true, true});
  CheckCommon(l, o, s);
  MC_REQUIRE(!l.log.empty() && l.log[0].x == guess) << "the search did not start at the estimate";
  double top = 0;
  for (size_t i = 0; i < l.log.size(); ++i) {
    const double x = l.log[i].x;
    if (i) {
      MC_EXPECT(x >= 0 && x <= top * o.max_step_expansion * (1 + 1e-12)) << "step " << x << " expanded from " << top;
      if (!l.log[i - 1].valid) MC_EXPECT(x <= l.log[i - 1].x) << "step grew from an invalid point";
    }
    top = std::max(top, x);
  }
  bool invalid = false, narrow = false;
  Sample best = all[0];
  for (const auto& e : all) {
    const bool usable = e.valid && std::isfinite(e.slope);
    invalid |= !usable;
    if (usable && Decreases(e) && e.value < best.value) best = e;
    for (const auto& g : all) narrow |= &e != &g && std::abs(e.x - g.x) * 4 < o.min_step_size;
  }
  const bool limit = static_cast<int>(l.log.size()) >= o.max_num_iterations;
  if (s.success) {
    const FunctionSample& p = s.optimal_point;
    Sample r = all[0];
    for (const auto& e : all) if (e.x == p.x) r = e;
    MC_EXPECT(Decreases(r)) << "step " << p.x << " does not decrease sufficiently: " << Show(all);
    const bool wolfe = p.x > 0 && Decreases(r) && Flat(r);
    if (!wolfe) {
      MC_EXPECT(limit || narrow) << "step " << p.x << " violates the curvature condition: " << Show(all);
      MC_EXPECT(p.value == best.value) << "step " << p.x << " is not the best one that was found, which is " << best.x << ": " << Show(all);
      mc::Cover(p.x == 0 ? "cut short at the start" : "cut short");
    } else {
      mc::Cover("wolfe");
    }
  } else {
    MC_EXPECT(invalid) << "failure although every point was valid: " << Show(all) << s.error;
    mc::Cover("failure");
  }
  // The search does not go on past a point that satisfies both conditions,
  // unless a lower one is known.
  for (size_t i = 1; i + 1 < all.size(); ++i) {
    double low = kF0;
    for (size_t k = 0; k < i; ++k) if (all[k].valid && Decreases(all[k])) low = std::min(low, all[k].value);
    if (Decreases(all[i]) && Flat(all[i]) && all[i].value < low) MC_EXPECT(false) << "went on past a Wolfe point " << all[i].x << ": " << Show(all);
  }
  mc::Outcome(mc::H()(s.success)(s.num_function_evaluations)(s.success ? s.optimal_point.x : 0).h);
}
MC_SCENARIO(Wolfe, .split = 6, .weight = 4) { RunWolfe({0, 2, 3, 4, 5, 9}, {0, 1, 3, 5}, 1, mc::Bound(4, 5)); }
MC_SCENARIO(WolfeZoom, .split = 6, .weight = 4) { RunWolfe({1, 6, 3}, {0, 1, 5}, 4, mc::Bound(6, 7)); }
MC_SCENARIO(WolfeInvalid, .split = 6, .weight = 2) { RunWolfe({1, 6, 4, 7, 9, 10}, {0, 4}, 1, mc::Bound(5, 6)); }
MC_SCENARIO(WolfeBadSlope, .split = 6, .weight = 2) { RunWolfe({1, 6, 3, 9}, {0, 2, 5, 6, 7}, 1, mc::Bound(4, 5)); }

// ---------------------------------------------------------------- real functions
// Every coercive quartic with small coefficients: enough evaluations always
// lead to a point that satisfies the conditions.
MC_SCENARIO(SearchOnPolynomials, .split = 4, .weight = 2) {
  const bool wolfe = mc::Flip("wolfe");
  LineSearch::Options o;
  o.interpolation_type = mc::Pick<LSI>({ceres::QUADRATIC, ceres::CUBIC, ceres::BISECTION}, "interpolation");
  if (wolfe && o.interpolation_type == ceres::BISECTION) return mc::Trivial();  // documented as an oxymoron
  const int q4 = mc::Pick<int>({0, 1, 4}, "x^4"), q3 = mc::Range(-3, 3, "x^3"), q2 = mc::Range(q4 ? -6 : 1, 6, "x^2"), q1 = -mc::Pick<int>({1, 3, 7}, "x^1");
  if (q4 == 0 && q3 < 0) return mc::Trivial();
  if (mc::Thorough()) o.sufficient_curvature_decrease = mc::Pick<double>({.9, .1}, "c2");
  o.is_silent = true;
  o.max_num_iterations = 60;
  const double guess = mc::Pick<double>({1, 1. / 64, 30}, "guess");
  World w;
  double best = 0;
  auto value = [&](double x) { return (((q4 * x + q3) * x + q2) * x + q1) * x + 5; };
  auto slope = [&](double x) { return ((4 * q4 * x + 3 * q3) * x + 2 * q2) * x + q1; };
  w.f = [&](const Point& p, bool) {
    Answer a;
    a.cost = value(p[0]);
    a.g[0] = slope(p[0]) + 4;
    a.g[1] = 1;
    return a;
  };
  LineSearchFunction f(&w);
  Vector zero = Vector::Zero(3), d(2);
  d << 1, -4;
  f.Init(zero, d);
  o.function = &f;
  std::string error;
  auto search = LineSearch::Create(wolfe ? ceres::WOLFE : ceres::ARMIJO, o, &error);
  LineSearch::Summary s;
  search->Search(guess, value(0), slope(0), &s);
  MC_REQUIRE(s.success) << "no step found for " << q4 << " " << q3 << " " << q2 << " " << q1 << ": " << s.error;
  best = s.optimal_point.x;
  MC_EXPECT(best > 0 && s.optimal_point.value == value(best));
  MC_EXPECT(value(best) <= value(0) + o.sufficient_decrease * slope(0) * best) << "step " << best;
  if (wolfe && o.interpolation_type == ceres::CUBIC) MC_EXPECT(std::abs(slope(best)) <= -o.sufficient_curvature_decrease * slope(0)) << "slope " << slope(best) << " at " << best << " after " << s.num_function_evaluations;
  mc::Outcome(mc::H()(best)(w.calls).h);
}

// ---------------------------------------------------------------- polynomials
MC_SCENARIO(Roots, .split = 3) {
  const int real = mc::Range(0, mc::Bound(4, 5), "real roots"), pairs = mc::Range(0, 2, "complex pairs"), zeros = mc::Choose(2, "leading zeros");
  if (real + 2 * pairs == 0 || real + 2 * pairs > mc::Bound(5, 6)) return mc::Trivial();
  std::vector<long double> c = {static_cast<long double>(mc::Pick<int>({1, -3}, "lead"))};
  auto multiply = [&](const std::vector<long double>& m) {
    std::vector<long double> o(c.size() + m.size() - 1, 0);
    for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < m.size(); ++j) o[i + j] += c[i] * m[j];
    c = o;
  };
  int last = -2;
  for (int i = 0; i < real; ++i) multiply({1, -static_cast<long double>(last = mc::Range(last, 2, "root"))});
  for (int i = 0; i < pairs; ++i) {
    const int p = mc::Range(-1, 1, "re"), q = mc::Range(1, 2, "im");
    multiply({1, -2.0L * p, static_cast<long double>(p * p + q * q)});
  }
  Vector poly = Vector::Zero(c.size() + zeros), re, im;
  for (size_t i = 0; i < c.size(); ++i) poly[zeros + i] = static_cast<double>(c[i]);
  MC_REQUIRE(FindPolynomialRoots(poly, &re, &im)) << poly.transpose();
  const int n = static_cast<int>(c.size()) - 1;
  MC_REQUIRE(re.size() == n && im.size() == n) << re.size() << " roots for degree " << n;
  std::vector<std::complex<long double>> back = {c[0]};
  for (int i = 0; i < n; ++i) {
    std::vector<std::complex<long double>> o(back.size() + 1, 0);
    const std::complex<long double> r(re[i], im[i]);
    for (size_t k = 0; k < back.size(); ++k) { o[k] += back[k]; o[k + 1] -= r * back[k]; }
    back = o;
  }
  long double scale = 0;
  for (long double v : c) scale = std::max(scale, std::abs(v));
  for (int i = 0; i <= n; ++i) MC_EXPECT(std::abs(back[i] - c[i]) <= 1e-10L * scale) << "roots " << re.transpose() << " / " << im.transpose() << " of " << poly.transpose();
  Vector only;
  MC_EXPECT(FindPolynomialRoots(poly, &only, nullptr) && only == re);
  MC_EXPECT(FindPolynomialRoots(poly, nullptr, &only) && only == im);
  // Derivative and evaluation, exactly.
  const Vector d = DifferentiatePolynomial(poly);
  MC_EXPECT(d.size() == poly.size() - 1);
  for (int x = -3; x <= 3; ++x) {
    long double v = 0, dv = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      v += c[i] * std::pow(static_cast<long double>(x), static_cast<int>(n - i));
      if (static_cast<int>(i) < n) dv += (n - i) * c[i] * std::pow(static_cast<long double>(x), static_cast<int>(n - i - 1));
    }
    MC_EXPECT(EvaluatePolynomial(poly, x) == v && EvaluatePolynomial(d, x) == dv);
  }
  mc::Outcome(mc::H()(real)(pairs)(n).h);
}

long double Eval(const Vector& p, long double x) {
  long double v = 0;
  for (int i = 0; i < p.size(); ++i) v = v * x + p[i];
  return v;
}

MC_SCENARIO(MinimizePolynomial, .split = 3) {
  const int n = mc::Range(0, mc::Bound(4, 5), "degree");
  Vector p(n + 1);
  for (int i = 0; i <= n; ++i) p[i] = mc::Pick<int>({0, 1, -1, 2, -3}, "coefficient");
  const double lo = mc::Pick<double>({-2, 0, .5}, "lo"), hi = lo + mc::Pick<double>({0, .25, 3}, "width");
  double x = vu::NaN(), v = vu::NaN();
  MinimizePolynomial(p, lo, hi, &x, &v);
  MC_REQUIRE(x >= lo && x <= hi) << x;
  MC_EXPECT(vu::Near(v, static_cast<double>(Eval(p, x)), 1e-12)) << v;
  for (int i = 0; i <= 64; ++i) {
    const double y = lo + (hi - lo) * i / 64;
    MC_EXPECT(v <= Eval(p, y) + 1e-10L * (1 + std::abs(Eval(p, y)))) << "value " << v << " at " << x << ", but " << static_cast<double>(Eval(p, y)) << " at " << y << " for " << p.transpose();
  }
  mc::Outcome(mc::H()(x).h);
}

// Two or three samples, each with value and/or slope, through the function that
// the line searches use and through the polynomial functions themselves.
MC_SCENARIO(Interpolate, .split = 4) {
  const int n = mc::Range(1, 3, "samples");
  std::vector<FunctionSample> samples;
  int constraints = 0;
  static const double kX[] = {0, 1, 3};
  bool slope_only = false;
  for (int i = 0; i < n; ++i) {
    FunctionSample s(kX[i], mc::Pick<double>({0, 2, -3}, "value"));
    const int kind = mc::Choose(i == 0 ? 2 : 3, "kind");
    if (kind >= 1) { s.gradient = mc::Pick<double>({-2, 1, 0}, "slope"); s.gradient_is_valid = true; }
    if (kind == 2) { s.value_is_valid = false; s.gradient_is_valid = mc::Flip("slope only"); slope_only |= s.gradient_is_valid; }
    constraints += s.value_is_valid + s.gradient_is_valid;
    samples.push_back(s);
  }
  if (slope_only) return mc::Trivial();  // Birkhoff data: the interpolant need not exist
  const Vector p = FindInterpolatingPolynomial(samples);
  MC_REQUIRE(p.size() == constraints) << p.size() << " coefficients for " << constraints << " conditions";
  const Vector d = DifferentiatePolynomial(p);
  for (const auto& s : samples) {
    if (s.value_is_valid) MC_EXPECT(vu::Near(static_cast<double>(Eval(p, s.x)), s.value, 1e-9)) << "value at " << s.x << " is " << static_cast<double>(Eval(p, s.x)) << " not " << s.value;
    if (s.gradient_is_valid && constraints > 1) MC_EXPECT(vu::Near(static_cast<double>(Eval(d, s.x)), s.gradient, 1e-9)) << "slope at " << s.x;
  }
  const double lo = mc::Pick<double>({0, .5}, "lo"), hi = mc::Pick<double>({.75, 3.5}, "hi");
  double x = vu::NaN(), v = vu::NaN();
  MinimizeInterpolatingPolynomial(samples, lo, hi, &x, &v);
  MC_REQUIRE(x >= lo && x <= hi) << x;
  MC_EXPECT(vu::Near(v, static_cast<double>(Eval(p, x)), 1e-10)) << v;
  for (int i = 0; i <= 32; ++i) {
    const double y = lo + (hi - lo) * i / 32;
    MC_EXPECT(v <= Eval(p, y) + 1e-9L * (1 + std::abs(Eval(p, y)))) << "minimum " << v << " at " << x << ", lower at " << y;
  }
  mc::Outcome(mc::H()(x).h);
}

MC_SCENARIO(StepSize, .split = 4) {
  World w;
  LineSearchFunction f(&w);
  LineSearch::Options o;
  o.function = &f;
  o.interpolation_type = mc::Pick<LSI>({ceres::BISECTION, ceres::QUADRATIC, ceres::CUBIC}, "interpolation");
  std::string error;
  auto search = LineSearch::Create(mc::Flip("wolfe") ? ceres::WOLFE : ceres::ARMIJO, o, &error);
  FunctionSample low(0, mc::Pick<double>({4, 1}, "low"), mc::Pick<double>({-4, -1}, "slope")), previous, current;
  const double xc = mc::Pick<double>({1, 2}, "x");
  const int kind = mc::Choose(3, "current");  // invalid, value only, value and slope
  current.x = xc;
  if (kind >= 1) current = FunctionSample(xc, mc::Pick<double>({7, 4, 2, -6}, "value"));
  if (kind == 2) { current.gradient = mc::Pick<double>({-3, 0, 2}, "slope"); current.gradient_is_valid = true; }
  const int pkind = mc::Choose(3, "previous");
  previous.x = 4;
  if (pkind >= 1) previous = FunctionSample(4, mc::Pick<double>({9, 3}, "value"));
  if (pkind == 2) { previous.gradient = mc::Pick<double>({-1, 5}, "slope"); previous.gradient_is_valid = true; }
  const double lo = mc::Pick<double>({.001, .5, 1}, "lo") * xc, hi = mc::Pick<double>({.9, 1, 10}, "hi") * xc;
  if (hi < lo) return mc::Trivial();
  const double x = search->InterpolatingPolynomialMinimizingStepSize(o.interpolation_type, low, previous, current, lo, hi);
  MC_REQUIRE(x >= lo && x <= hi) << "step " << x << " outside " << lo << ".." << hi;
  if (kind == 0 || (o.interpolation_type == ceres::BISECTION && hi <= xc)) {
    MC_EXPECT(x == std::min(std::max(xc / 2, lo), hi)) << "not half of the step: " << x;
  } else if (o.interpolation_type == ceres::BISECTION) {
    MC_EXPECT(x == hi) << "not the largest step";
  } else {
    // Least value of the polynomial through everything this type may use.
    struct C { double x; bool slope; double v; };
    std::vector<C> cs = {{0, false, low.value}, {0, true, low.gradient}, {xc, false, current.value}};
    const bool cubic = o.interpolation_type == ceres::CUBIC;
    if (cubic && kind == 2) cs.push_back({xc, true, current.gradient});
    if (pkind >= 1) cs.push_back({4, false, previous.value});
    if (cubic && pkind == 2) cs.push_back({4, true, previous.gradient});
    const int n = static_cast<int>(cs.size());
    LM a(n, n);
    LV b(n);
    for (int i = 0; i < n; ++i) {
      for (int k = 0; k < n; ++k) a(i, k) = cs[i].slope ? (k ? k * std::pow(static_cast<long double>(cs[i].x), k - 1) : 0.0L) : std::pow(static_cast<long double>(cs[i].x), k);
      b[i] = cs[i].v;
    }
    const LV c = a.fullPivLu().solve(b);
    auto value = [&](long double y) { long double v = 0; for (int k = n - 1; k >= 0; --k) v = v * y + c[k]; return v; };
    for (int i = 0; i <= 64; ++i) {
      const long double y = lo + (static_cast<long double>(hi) - lo) * i / 64;
      MC_EXPECT(value(x) <= value(y) + 1e-9L * (1 + std::abs(value(y)))) << "step " << x << " has value " << static_cast<double>(value(x)) << ", but " << static_cast<double>(y) << " has " << static_cast<double>(value(y));
    }
  }
  mc::Outcome(mc::H()(x).h);
}

// ---------------------------------------------------------------- directions
MC_SCENARIO(Directions, .split = 4, .weight = 3) {
  LineSearchDirection::Options o;
  struct T { ceres::LineSearchDirectionType t; ceres::NonlinearConjugateGradientType n; int rank; bool scale; };
  const T t = mc::Pick<T>({{ceres::STEEPEST_DESCENT, ceres::FLETCHER_REEVES, 1, false},
                           {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::FLETCHER_REEVES, 1, false},
                           {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::POLAK_RIBIERE, 1, false},
                           {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::HESTENES_STIEFEL, 1, false},
                           {ceres::LBFGS, ceres::FLETCHER_REEVES, 1, true},
                           {ceres::LBFGS, ceres::FLETCHER_REEVES, 1, false},
                           {ceres::LBFGS, ceres::FLETCHER_REEVES, 2, true},
                           {ceres::LBFGS, ceres::FLETCHER_REEVES, 2, false},
                           {ceres::LBFGS, ceres::FLETCHER_REEVES, 3, true},
                           {ceres::BFGS, ceres::FLETCHER_REEVES, 1, true},
                           {ceres::BFGS, ceres::FLETCHER_REEVES, 1, false}}, "type");
  const int n = 2, depth = t.t == ceres::STEEPEST_DESCENT ? 2 : mc::Bound(4, 5);
  o.num_parameters = n;
  o.type = t.t;
  o.nonlinear_conjugate_gradient_type = t.n;
  o.max_lbfgs_rank = t.rank;
  o.use_approximate_eigenvalue_bfgs_scaling = t.scale;
  auto direction = LineSearchDirection::Create(o);
  MC_REQUIRE(direction != nullptr);
  static const double kG[][2] = {{1, 0}, {-2, 1}, {3, 2}, {-1, -4}, {0, .5}, {1, 3}};
  auto pick = [&](Vector* g) {
    const int k = mc::Choose(mc::Bound(5, 6), "gradient");
    *g << kG[k][0], kG[k][1];
  };
  LineSearchMinimizer::State previous(n, n), current(n, n);
  pick(&current.gradient);
  current.gradient_squared_norm = current.gradient.squaredNorm();
  current.search_direction = -current.gradient;
  struct Pair { LV s, y; };
  std::deque<Pair> pairs;
  LM h = LM::Identity(n, n);
  bool first = true;
  for (int i = 0; i < depth; ++i) {
    current.step_size = mc::Pick<double>({1, .25}, "step");
    previous = current;
    pick(&current.gradient);
    current.gradient_squared_norm = current.gradient.squaredNorm();
    const Vector s = previous.search_direction * previous.step_size, y = current.gradient - previous.gradient;
    const LV g = current.gradient.cast<long double>(), g0 = previous.gradient.cast<long double>(), d0 = previous.search_direction.cast<long double>();
    Vector d = Vector::Constant(n, 7);
    mc::Step();
    const bool ok = direction->NextDirection(previous, current, &d);
    LV e = -g;
    if (t.t == ceres::NONLINEAR_CONJUGATE_GRADIENT) {
      const LV yy = g - g0;
      const long double beta = t.n == ceres::FLETCHER_REEVES ? g.squaredNorm() / g0.squaredNorm() : t.n == ceres::POLAK_RIBIERE ? g.dot(yy) / g0.squaredNorm() : g.dot(yy) / d0.dot(yy);
      const LV c = -g + beta * d0;
      const long double slope = c.dot(g);
      if (std::abs(slope) < 1e-9L && std::isfinite(slope)) break;  // rounding decides
      if (t.n == ceres::HESTENES_STIEFEL && yy.norm() > 0 && std::abs(d0.dot(yy)) < 1e-9L * d0.norm() * yy.norm()) {
        MC_EXPECT(ok && d.allFinite() && d.dot(current.gradient) < 0) << "not a descent direction: " << d.transpose();
        break;
      }
      if (slope <= -1e-12L && c.allFinite()) e = c; else mc::Cover("restart");
      MC_EXPECT(ok);
    } else if (t.t == ceres::BFGS || t.t == ceres::LBFGS) {
      const long double sy = s.cast<long double>().dot(y.cast<long double>());
      if (std::abs(sy - 1e-14L) < 1e-12L && sy != 0) break;
      if (sy > 1e-14L) {
        const Pair p = {s.cast<long double>(), y.cast<long double>()};
        auto update = [&](const Pair& q) {
          const long double rho = 1 / q.s.dot(q.y);
          const LM v = LM::Identity(n, n) - rho * q.y * q.s.transpose();
          h = v.transpose() * h * v + rho * q.s * q.s.transpose();
        };
        const long double gamma = sy / p.y.squaredNorm();
        if (t.t == ceres::BFGS) {
          if (first && t.scale) h *= gamma;
          update(p);
        } else {
          pairs.push_back(p);
          if (static_cast<int>(pairs.size()) > t.rank) pairs.pop_front();
          h = LM::Identity(n, n) * (t.scale ? gamma : 1);
          for (const auto& q : pairs) update(q);
        }
        first = false;
        mc::Cover("updated");
      } else {
        mc::Cover("not updated");
      }
      e = -h * g;
      // Extreme conditioning: the implementation may see a loss of definiteness.
      if (-e.dot(g) < 1e-9L * e.norm() * g.norm()) break;
      MC_EXPECT(ok) << "refused a positive definite history";
    } else {
      MC_EXPECT(ok);
    }
    if (!ok) break;
    MC_EXPECT(d.allFinite()) << "direction " << d.transpose();
    MC_EXPECT(d.dot(current.gradient) < 0) << "not a descent direction: " << d.transpose() << " at gradient " << current.gradient.transpose();
    MC_EXPECT((d.cast<long double>() - e).norm() <= 1e-7L * (1 + e.norm())) << "direction " << d.transpose() << " not " << e.transpose().cast<double>();
    current.search_direction = d;
    mc::Outcome(mc::H().D(d.data(), n).h);
    if (mc::Failed()) break;
  }
}

// ---------------------------------------------------------------- the loop
struct LoopCallback : ceres::IterationCallback {
  bool answers = false;
  std::vector<int> said;
  std::vector<IterationSummary> told;
  std::vector<Point> at;
  const double* x = nullptr;
  ceres::CallbackReturnType operator()(const IterationSummary& s) override {
    told.push_back(s);
    at.push_back(Point(x, x + 3));
    said.push_back(answers ? mc::Choose(3, "callback") : 0);
    return said.back() == 0 ? ceres::SOLVER_CONTINUE : said.back() == 1 ? ceres::SOLVER_TERMINATE_SUCCESSFULLY : ceres::SOLVER_ABORT;
  }
};
struct LoopExpected {
  ceres::TerminationType type = ceres::FAILURE;
  std::vector<IterationSummary> its;
  Point x;
  int good = 0, steps = 0;
  double initial = -1;
};
double Dist(const Point& a, const Point& b, bool inf) {
  double s = 0;
  for (int i = 0; i < 3; ++i) s = inf ? std::max(s, std::abs(a[i] - b[i])) : s + (a[i] - b[i]) * (a[i] - b[i]);
  return inf ? s : std::sqrt(s);
}
// What the documentation says the loop does; line searches and directions are
// the real ones, checked above.
LoopExpected Loop(World* w, const Minimizer::Options& o, const Point& start, double fixed, const std::vector<int>& said) {
  LoopExpected r;
  r.x = start;
  double cost = 0, gmax = 0, gsq = 0, gnorm = 0;
  Vector g(2);
  auto derive = [&](const Point& p) {
    if (!w->Evaluate(Evaluator::EvaluateOptions(), p.data(), &cost, nullptr, g.data(), nullptr)) return false;
    return true;
  };
  auto norms = [&](const Point& p) {
    const double m[2] = {-g[0], -g[1]};
    Point q(3);
    if (!w->Plus(p.data(), m, q.data())) return false;
    gmax = Dist(p, q, true);
    gsq = (ceres::ConstVectorRef(p.data(), 3) - ceres::ConstVectorRef(q.data(), 3)).squaredNorm();
    gnorm = std::sqrt(gsq);
    return true;
  };
  if (!derive(start) || !norms(start)) return r;
  r.initial = cost + fixed;
  r.type = ceres::CONVERGENCE;
  if (gmax <= o.gradient_tolerance) return r;
  IterationSummary it;
  it.step_is_valid = it.step_is_successful = false;
  it.iteration = 0;
  it.cost = cost + fixed;
  it.gradient_max_norm = gmax;
  it.gradient_norm = gnorm;
  r.its.push_back(it);
  LineSearchDirection::Options dop;
  dop.num_parameters = 2;
  dop.type = o.line_search_direction_type;
  dop.nonlinear_conjugate_gradient_type = o.nonlinear_conjugate_gradient_type;
  dop.max_lbfgs_rank = o.max_lbfgs_rank;
  dop.use_approximate_eigenvalue_bfgs_scaling = o.use_approximate_eigenvalue_bfgs_scaling;
  auto direction = LineSearchDirection::Create(dop);
  LineSearchFunction function(w);
  LineSearch::Options lo;
  lo.interpolation_type = o.line_search_interpolation_type;
  lo.min_step_size = o.min_line_search_step_size;
  lo.sufficient_decrease = o.line_search_sufficient_function_decrease;
  lo.max_step_contraction = o.max_line_search_step_contraction;
  lo.min_step_contraction = o.min_line_search_step_contraction;
  lo.max_num_iterations = o.max_num_line_search_step_size_iterations;
  lo.sufficient_curvature_decrease = o.line_search_sufficient_curvature_decrease;
  lo.max_step_expansion = o.max_line_search_step_expansion;
  lo.is_silent = true;
  lo.function = &function;
  std::string error;
  auto search = LineSearch::Create(o.line_search_type, lo, &error);
  LineSearchMinimizer::State before(3, 2), now(3, 2);
  int restarts = 0;
  double last_cost = 0;
  for (int n = 0;; ++n) {
    if (n >= static_cast<int>(said.size())) return r;
    if (said[n] == 2) { r.type = ceres::USER_FAILURE; return r; }
    if (said[n] == 1) { r.type = ceres::USER_SUCCESS; return r; }
    r.type = ceres::NO_CONVERGENCE;
    if (n >= o.max_num_iterations) return r;
    r.type = ceres::FAILURE;
    Vector d = -g;
    bool fresh = n == 0;
    now.cost = cost;
    now.gradient = g;
    now.gradient_squared_norm = gsq;
    now.gradient_max_norm = gmax;
    if (n > 0) {
      Vector next = now.search_direction;
      if (direction->NextDirection(before, now, &next)) {
        d = next;
      } else {
        if (restarts++ >= o.max_num_line_search_direction_restarts) return r;
        direction = LineSearchDirection::Create(dop);
        fresh = true;
        mc::Cover("direction restart");
      }
    }
    now.search_direction = d;
    const double slope = g.dot(d);
    const double step = fresh ? std::min(1.0, 1 / gmax) : std::min(1.0, 2 * (cost - last_cost) / slope);
    if (step < 0) { mc::Cover("negative step"); return r; }
    Vector at(3);
    for (int i = 0; i < 3; ++i) at[i] = r.x[i];
    function.Init(at, d);
    LineSearch::Summary s;
    search->Search(step, cost, slope, &s);
    if (!s.success) return r;
    now.step_size = s.optimal_point.x;
    before = now;
    last_cost = cost;
    const Point to(s.optimal_point.vector_x.data(), s.optimal_point.vector_x.data() + 3);
    if (!derive(to)) { mc::Cover("derivatives fail"); return r; }
    if (!norms(to)) return r;
    it = IterationSummary();
    it.iteration = n + 1;
    it.step_is_valid = it.step_is_successful = true;
    it.cost = cost + fixed;
    it.cost_change = last_cost - cost;
    it.gradient_max_norm = gmax;
    it.gradient_norm = gnorm;
    it.step_norm = Dist(r.x, to, false);
    it.step_size = s.optimal_point.x;
    it.line_search_function_evaluations = s.num_function_evaluations;
    it.line_search_gradient_evaluations = s.num_gradient_evaluations;
    it.line_search_iterations = s.num_iterations;
    r.its.push_back(it);
    r.steps += s.num_iterations;
    ++r.good;
    const double xn = Dist(r.x, {0, 0, 0}, false);
    r.x = to;
    r.type = ceres::CONVERGENCE;
    if (it.step_norm <= o.parameter_tolerance * (xn + o.parameter_tolerance)) return r;
    if (gmax <= o.gradient_tolerance) return r;
    if (std::abs(it.cost_change) <= o.function_tolerance * std::abs(last_cost)) return r;
  }
}

void RunLoop(Minimizer::Options o, std::vector<double> costs, int gradients, bool plus, bool callbacks) {
  o.is_silent = true;
  o.max_num_consecutive_invalid_steps = 5;
  auto world = std::make_shared<World>();
  std::map<Point, double> cost;
  std::map<Point, int> grad;
  std::map<Point, bool> pl;
  std::vector<Point> order;
  Point start = {1, 2, 3};
  static const double kG[][2] = {{2, -1}, {-1, -3}, {0x1p-20, 0}, {-.5, 1}};
  auto key = [](Point p) {  // the last bits of a point are not part of its identity
    for (double& v : p) if (std::isfinite(v)) v = std::floor(v * 1e7 + .1234) / 1e7;
    return p;
  };
  world->f = [&](const Point& at, bool gradient) {
    const Point p = key(at);
    auto it = cost.find(p);
    if (it == cost.end()) it = cost.emplace(p, cost.empty() ? 16.0 : mc::Pick(costs, "cost")).first;
    Answer a;
    a.cost = it->second;
    a.ok = a.cost == a.cost;
    if (a.ok && gradient && std::isfinite(a.cost)) {
      auto g = grad.find(p);
      if (g == grad.end()) g = grad.emplace(p, grad.empty() && !(o.max_num_iterations == 0) ? 0 : mc::Choose(gradients, "gradient")).first;
      if (g->second == 4) a.ok = false;
      else { a.g[0] = kG[g->second][0]; a.g[1] = kG[g->second][1]; }
    }
    return a;
  };
  if (plus) world->plus_ok = [&](const Point& p, const Point& d) {
    Point k = p;
    k.insert(k.end(), d.begin(), d.end());
    k = key(k);
    auto it = pl.find(k);
    if (it == pl.end()) it = pl.emplace(k, !mc::Flip("plus fails")).first;
    return it->second;
  };
  double x[3] = {1, 2, 3};
  LoopCallback cb;
  cb.answers = callbacks;
  cb.x = x;
  o.callbacks = {&cb};
  o.evaluator = world;
  Solver::Summary s;
  const double fixed = s.fixed_cost = 100;
  s.preprocessor_time_in_seconds = 0;
  s.num_line_search_steps = 0;
  s.line_search_cost_evaluation_time_in_seconds = s.line_search_gradient_evaluation_time_in_seconds = 0;
  s.line_search_polynomial_minimization_time_in_seconds = s.line_search_total_time_in_seconds = 0;
  LineSearchMinimizer m;
  m.Minimize(o, x, &s);
  const size_t points = cost.size();
  const LoopExpected e = Loop(world.get(), o, start, fixed, cb.said);
  MC_EXPECT(cost.size() == points) << "the loop should have looked elsewhere";
  MC_EXPECT(s.termination_type == e.type) << ceres::TerminationTypeToString(s.termination_type) << " not " << ceres::TerminationTypeToString(e.type) << ": " << s.message;
  MC_EXPECT(!s.message.empty());
  for (int i = 0; i < 3; ++i) MC_EXPECT(vu::Near(x[i], e.x[i], 1e-12)) << vu::Str(x, 3) << " not " << vu::Str(e.x, 3);
  MC_EXPECT(s.num_successful_steps == e.good && s.num_unsuccessful_steps == 0);
  MC_EXPECT(s.num_line_search_steps == e.steps) << s.num_line_search_steps << " not " << e.steps;
  if (e.initial >= 0) MC_EXPECT(s.initial_cost == e.initial);
  MC_EXPECT(s.iterations.size() == e.its.size()) << s.iterations.size() << " iterations, not " << e.its.size();
  for (size_t i = 0; i < std::min(e.its.size(), s.iterations.size()); ++i) {
    const IterationSummary &a = e.its[i], &b = s.iterations[i];
#define SAME(f) MC_EXPECT(vu::Near(a.f, b.f, 1e-12)) << "iteration " << i << ": " #f " is " << b.f << " not " << a.f
    SAME(iteration);
    SAME(step_is_valid);
    SAME(step_is_successful);
    SAME(cost);
    SAME(cost_change);
    SAME(gradient_max_norm);
    SAME(gradient_norm);
    SAME(step_norm);
    SAME(step_size);
    SAME(line_search_function_evaluations);
    SAME(line_search_gradient_evaluations);
    SAME(line_search_iterations);
    if (i < cb.told.size()) MC_EXPECT(cb.told[i].iteration == b.iteration && cb.told[i].cost == b.cost);
    if (i) MC_EXPECT(b.cost <= s.iterations[i - 1].cost) << "cost rose at iteration " << i;
#undef SAME
  }
  for (size_t i = 0; i < cb.said.size(); ++i) MC_EXPECT(i < s.iterations.size() && (i + 1 < cb.said.size() ? cb.said[i] == 0 : true));
  mc::H h;
  h(static_cast<int>(s.termination_type)).D(key(Point(x, x + 3)).data(), 3);
  for (const auto& it : s.iterations) h(it.cost);
  mc::Outcome(h.h);
  mc::Cover(ceres::TerminationTypeToString(s.termination_type));
}

Minimizer::Options LoopOptions() {
  Minimizer::Options o;
  struct T { ceres::LineSearchDirectionType t; ceres::NonlinearConjugateGradientType n; ceres::LineSearchType l; LSI i; };
  const T t = mc::Pick<T>({{ceres::STEEPEST_DESCENT, ceres::FLETCHER_REEVES, ceres::ARMIJO, ceres::BISECTION},
                           {ceres::STEEPEST_DESCENT, ceres::FLETCHER_REEVES, ceres::ARMIJO, ceres::CUBIC},
                           {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::POLAK_RIBIERE, ceres::ARMIJO, ceres::QUADRATIC},
                           {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::HESTENES_STIEFEL, ceres::WOLFE, ceres::CUBIC},
                           {ceres::LBFGS, ceres::FLETCHER_REEVES, ceres::WOLFE, ceres::CUBIC},
                           {ceres::BFGS, ceres::FLETCHER_REEVES, ceres::WOLFE, ceres::QUADRATIC}}, "type");
  o.line_search_direction_type = t.t;
  o.nonlinear_conjugate_gradient_type = t.n;
  o.line_search_type = t.l;
  o.line_search_interpolation_type = t.i;
  o.max_lbfgs_rank = 2;
  o.max_num_line_search_direction_restarts = mc::Flip("restarts") ? 1 : 0;
  o.max_num_line_search_step_size_iterations = 2;
  o.max_num_iterations = 2;
  o.function_tolerance = 0;
  o.gradient_tolerance = 0;
  o.parameter_tolerance = 0;
  return o;
}
MC_SCENARIO(Loop, .split = 5, .weight = 4) {
  Minimizer::Options o = LoopOptions();
  o.max_num_iterations = mc::Bound(3, 4);
  RunLoop(o, {9, 15.75, 17, vu::NaN()}, 3, false, false);
}
MC_SCENARIO(LoopLong, .split = 5, .weight = 4) {
  Minimizer::Options o = LoopOptions();
  o.max_num_line_search_step_size_iterations = 1;
  o.max_num_iterations = mc::Bound(5, 7);
  RunLoop(o, {9, 5, 15.75, 3, 2}, 3, false, false);
}
MC_SCENARIO(LoopFaults, .split = 5, .weight = 2) {
  Minimizer::Options o = LoopOptions();
  o.max_num_iterations = mc::Bound(2, 3);
  RunLoop(o, {9, 17, vu::NaN(), vu::Inf()}, 5, false, false);
}
MC_SCENARIO(LoopPlus, .split = 5, .weight = 2) {
  Minimizer::Options o = LoopOptions();
  o.max_num_iterations = mc::Bound(3, 4);
  RunLoop(o, {9, 17, 8}, 2, true, false);
}
MC_SCENARIO(LoopTolerances, .split = 5, .weight = 2) {
  Minimizer::Options o = LoopOptions();
  o.max_num_iterations = mc::Range(0, mc::Bound(2, 3), "iterations");
  const int k = mc::Choose(4, "tolerance");
  if (k == 0) o.gradient_tolerance = 0x1p-20;
  if (k == 1) o.function_tolerance = 7.0 / 16;
  if (k == 2) o.parameter_tolerance = .2;
  RunLoop(o, {9, 15.75}, 3, false, true);
}
}  // namespace
