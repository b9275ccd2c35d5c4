// C08: whatever cost functions, manifolds and callbacks answer, a solve ends,
// never returns a worse point, restores the start on failure and reports the truth.
#include <map>

#include "ceres/iteration_callback.h"
#include "ceres/solver.h"
#include "nls.h"

namespace {
using namespace nls;
using ceres::Solver;
using Point = std::vector<double>;

struct Config {
  Solver::Options o;
  bool line_search = false;
};
// The minimiser families; `n` selects.
constexpr int kFamilies = 13;
Solver::Options Family(int n) {
  Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.linear_solver_type = ceres::DENSE_QR;
  switch (n) {
    case 0: break;
    case 1: o.trust_region_strategy_type = ceres::DOGLEG; break;
    case 2: o.trust_region_strategy_type = ceres::DOGLEG; o.dogleg_type = ceres::SUBSPACE_DOGLEG; break;
    case 3: o.use_nonmonotonic_steps = true; break;  // window of 5
    case 4: o.use_nonmonotonic_steps = true; o.max_consecutive_nonmonotonic_steps = 2; o.trust_region_strategy_type = ceres::DOGLEG; break;
    case 5: o.jacobi_scaling = false; o.min_relative_decrease = 0.5; break;
    default: {
      o.minimizer_type = ceres::LINE_SEARCH;
      static const struct { ceres::LineSearchDirectionType d; ceres::LineSearchType t; ceres::LineSearchInterpolationType i; } k[] = {
          {ceres::STEEPEST_DESCENT, ceres::ARMIJO, ceres::CUBIC},
          {ceres::STEEPEST_DESCENT, ceres::WOLFE, ceres::CUBIC},
          {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::WOLFE, ceres::QUADRATIC},
          {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::ARMIJO, ceres::BISECTION},
          {ceres::LBFGS, ceres::WOLFE, ceres::CUBIC},
          {ceres::BFGS, ceres::WOLFE, ceres::CUBIC},
          {ceres::LBFGS, ceres::WOLFE, ceres::BISECTION}};
      o.line_search_direction_type = k[n - 6].d;
      o.line_search_type = k[n - 6].t;
      o.line_search_interpolation_type = k[n - 6].i;
    }
  }
  return o;
}

// What any solve must satisfy, given the start, the end and the true cost of any
// point (second = whether it is known).
struct Truth {
  std::function<std::pair<double, bool>(const Point&)> cost;  // without fixed part
  double fixed = 0;
};
void CheckSummary(const Solver::Options& o, const Solver::Summary& s, const Point& start, const Point& projected, const Point& end, const Truth& truth, double tol) {
  const bool usable = s.termination_type == ceres::CONVERGENCE || s.termination_type == ceres::NO_CONVERGENCE || s.termination_type == ceres::USER_SUCCESS;
  MC_EXPECT(usable == s.IsSolutionUsable());
  MC_EXPECT(!s.message.empty());
  MC_EXPECT(!s.BriefReport().empty() && !s.FullReport().empty());
  if (!usable) {
    MC_EXPECT(std::memcmp(end.data(), start.data(), start.size() * sizeof(double)) == 0)
        << "failed solve left " << vu::Str(end, static_cast<int>(end.size())) << " instead of " << vu::Str(start, static_cast<int>(start.size())) << " " << s.message;
  } else {
    const auto c0 = truth.cost(projected), c1 = truth.cost(end);
    MC_EXPECT(c0.second) << "start never evaluated";
    MC_EXPECT(c1.second) << "returned point " << vu::Str(end, static_cast<int>(end.size())) << " never evaluated successfully";
    if (c0.second) MC_EXPECT(vu::Near(s.initial_cost, c0.first + truth.fixed, tol)) << "initial cost " << s.initial_cost << " instead of " << c0.first + truth.fixed;
    if (c1.second) {
      MC_EXPECT(vu::Near(s.final_cost, c1.first + truth.fixed, tol)) << "final cost " << s.final_cost << " instead of " << c1.first + truth.fixed << " " << s.message;
      MC_EXPECT(c1.first <= c0.first) << "cost rose from " << c0.first << " to " << c1.first;
    }
    MC_EXPECT(s.final_cost <= s.initial_cost) << s.final_cost << " " << s.initial_cost;
    if (s.termination_type == ceres::CONVERGENCE) mc::Cover("convergence");
    if (s.termination_type == ceres::NO_CONVERGENCE) mc::Cover("no convergence");
    if (s.termination_type == ceres::USER_SUCCESS) mc::Cover("user success");
    if (c1.second && c1.first < c0.first) mc::Cover("improved");
  }
  if (s.termination_type == ceres::FAILURE) mc::Cover("failure");
  if (s.termination_type == ceres::USER_FAILURE) mc::Cover("user failure");
  // History.
  int ok = 0, bad = 0;
  double best = s.iterations.empty() ? s.initial_cost : s.iterations[0].cost;
  for (size_t i = 0; i < s.iterations.size(); ++i) {
    const auto& it = s.iterations[i];
    MC_EXPECT(it.iteration == static_cast<int>(i)) << it.iteration << " at " << i;
    (it.step_is_successful || i == 0 ? ok : bad)++;
    MC_EXPECT(!it.step_is_successful || it.step_is_valid);
    if (it.step_is_successful) best = std::min(best, it.cost);
    MC_EXPECT(it.gradient_max_norm >= 0 && it.gradient_norm >= 0 && it.step_norm >= 0);
    MC_EXPECT(it.gradient_max_norm <= it.gradient_norm * (1 + 1e-12)) << it.gradient_max_norm << " " << it.gradient_norm;
    if (i > 0) MC_EXPECT(it.cumulative_time_in_seconds >= s.iterations[i - 1].cumulative_time_in_seconds);
    if (i == 0) MC_EXPECT(vu::Near(it.cost, s.initial_cost, tol)) << it.cost << " " << s.initial_cost;
    if (i > 0 && it.step_is_successful && !o.use_nonmonotonic_steps && o.minimizer_type == ceres::TRUST_REGION)
      MC_EXPECT(it.cost <= best) << "accepted step " << i << " raised the cost to " << it.cost;
    if (!it.step_is_valid) MC_EXPECT(!it.step_is_successful || i == 0);
    if (i > 0 && it.step_is_valid && it.step_is_successful) {
      // cost_change is relative to the last accepted point.
      double prev = 0;
      for (size_t k = 0; k < i; ++k) if (s.iterations[k].step_is_successful || k == 0) prev = s.iterations[k].cost;
      MC_EXPECT(vu::Near(it.cost_change, prev - it.cost, 1e-9)) << "cost change " << it.cost_change << " between " << prev << " and " << it.cost;
    }
  }
  MC_EXPECT(static_cast<int>(s.iterations.size()) <= o.max_num_iterations + 1) << s.iterations.size();
  if (o.minimizer_type == ceres::TRUST_REGION && !s.iterations.empty()) {
    MC_EXPECT(s.num_successful_steps == ok) << s.num_successful_steps << " instead of " << ok;
    MC_EXPECT(s.num_unsuccessful_steps == bad) << s.num_unsuccessful_steps << " instead of " << bad;
  }
  if (usable && !s.iterations.empty()) MC_EXPECT(vu::Near(best, s.final_cost, tol)) << "best accepted " << best << " final " << s.final_cost;
}

struct Answer : ceres::IterationCallback {
  std::function<ceres::CallbackReturnType(const ceres::IterationSummary&)> f;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override { return f(s); }
};

// ---- a cost function whose values are chosen the first time each point is seen
struct LazyCost : ceres::CostFunction {
  int n, m;
  std::vector<double> values, slopes;  // alphabets; NaN among values: failure
  mutable std::map<Point, std::pair<Point, Point>> memo;  // residuals, Jacobian (may be empty)
  mutable int res_calls = 0, jac_calls = 0;
  Point start;
  LazyCost(int n, int m) : n(n), m(m) {
    set_num_residuals(m);
    mutable_parameter_block_sizes()->push_back(n);
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    (j ? jac_calls : res_calls)++;
    MC_EXPECT(res_calls + jac_calls < 400) << "does not end";
    if (res_calls + jac_calls >= 400) return false;
    mc::Step();
    const Point p(x[0], x[0] + n);
    for (double v : p) MC_EXPECT(std::isfinite(v)) << "evaluated at a non-finite point";
    auto it = memo.find(p);
    if (it == memo.end()) {
      Point rv(m);
      const double v = p == start ? values[0] : values[mc::Choose(static_cast<int>(values.size()), "value")];
      for (int i = 0; i < m; ++i) rv[i] = i == 0 ? v : 0.25;
      it = memo.emplace(p, std::make_pair(rv, Point())).first;
    }
    auto& e = it->second;
    for (int i = 0; i < m; ++i) r[i] = e.first[i];
    if (std::isnan(e.first[0])) return false;
    if (j && j[0]) {
      if (e.second.empty()) {
        const int s = mc::Choose(static_cast<int>(slopes.size()) + (p == start ? 0 : 1), "slope");
        e.second.assign(n * m, 0.0);
        if (s == static_cast<int>(slopes.size())) e.second[0] = vu::NaN();
        else for (int i = 0; i < n * m; ++i) e.second[i] = slopes[s] * (i % 2 ? -0.5 : 1);
      }
      for (int i = 0; i < n * m; ++i) j[0][i] = e.second[i];
    }
    return true;
  }
  std::pair<double, bool> Cost(const Point& p) const {
    auto it = memo.find(p);
    if (it == memo.end() || std::isnan(it->second.first[0])) return {0, false};
    double s = 0;
    for (double v : it->second.first) s += v * v;
    return {s / 2, true};
  }
};

void RunLazy(int family, int n, const std::vector<double>& values, const std::vector<double>& slopes, int iterations, int callback_budget, int bounds) {
  LazyCost cost(n, 1 + (n > 1));
  cost.values = values;
  cost.slopes = slopes;
  ceres::Problem::Options po;
  po.cost_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
  ceres::Problem problem(po);
  Point x(n);
  for (int i = 0; i < n; ++i) x[i] = 1.5 - i;
  const Point start = x;
  Point projected = x;
  problem.AddResidualBlock(&cost, nullptr, x.data());
  if (bounds == 1) {  // feasible start
    problem.SetParameterLowerBound(x.data(), 0, 1.0);
    problem.SetParameterUpperBound(x.data(), 0, 2.0);
  } else if (bounds == 2) {  // start outside
    problem.SetParameterLowerBound(x.data(), 0, 2.0);
    projected[0] = 2.0;
  }
  cost.start = projected;
  Solver::Options o = Family(family);
  o.max_num_iterations = iterations;
  o.max_num_consecutive_invalid_steps = 2;
  o.max_num_line_search_step_size_iterations = 3;
  o.max_num_line_search_direction_restarts = 1;
  Answer cb;
  int left = callback_budget;
  ceres::CallbackReturnType last = ceres::SOLVER_CONTINUE;
  int after = 0;
  cb.f = [&](const ceres::IterationSummary& s) {
    MC_EXPECT(x == start) << "user memory changed during the solve";
    if (last != ceres::SOLVER_CONTINUE) ++after;
    if (left <= 0) return last = ceres::SOLVER_CONTINUE;
    const int c = mc::Choose(3, "callback");
    if (c) --left;
    return last = c == 0 ? ceres::SOLVER_CONTINUE : c == 1 ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  };
  o.callbacks.push_back(&cb);
  std::string why;
  MC_REQUIRE(o.IsValid(&why)) << why;
  Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  MC_EXPECT(after == 0) << "callback after it asked to stop";
  if (last == ceres::SOLVER_ABORT) MC_EXPECT(s.termination_type == ceres::USER_FAILURE);
  if (last == ceres::SOLVER_TERMINATE_SUCCESSFULLY) MC_EXPECT(s.termination_type == ceres::USER_SUCCESS);
  Truth t;
  t.cost = [&](const Point& p) { return cost.Cost(p); };
  CheckSummary(o, s, start, projected, x, t, 1e-13);
  // Counters.
  MC_EXPECT(s.num_residual_evaluations == cost.res_calls) << s.num_residual_evaluations << " instead of " << cost.res_calls;
  MC_EXPECT(s.num_jacobian_evaluations == cost.jac_calls) << s.num_jacobian_evaluations << " instead of " << cost.jac_calls;
  // A convergence claim must be backed by something that happened.
  if (s.termination_type == ceres::CONVERGENCE) {
    bool ok = false;
    const auto c1 = cost.Cost(x);
    for (auto& [p, e] : cost.memo) {
      const auto c = cost.Cost(p);
      double d = 0, norm = 0;
      for (int i = 0; i < n; ++i) { d += (p[i] - x[i]) * (p[i] - x[i]); norm += x[i] * x[i]; }
      d = std::sqrt(d);
      norm = std::sqrt(norm);
      const bool known = c.second;
      // Some pair of evaluated points within the tolerances (steps are relative to
      // the last accepted point, which non-monotonic runs may not return).
      for (auto& [q, e2] : cost.memo) {
        if (&e2 == &e || !cost.Cost(q).second) continue;
        double dd = 0, qn = 0;
        for (int i = 0; i < n; ++i) { dd += (p[i] - q[i]) * (p[i] - q[i]); qn += q[i] * q[i]; }
        ok |= std::sqrt(dd) <= 1.0000001 * o.parameter_tolerance * (std::sqrt(qn) + o.parameter_tolerance);
        ok |= known && std::abs(c.first - cost.Cost(q).first) <= 1.0000001 * o.function_tolerance * cost.Cost(q).first;
      }
      (void)c1;
    }
    for (auto& it : s.iterations) ok |= it.gradient_max_norm <= o.gradient_tolerance || (o.minimizer_type == ceres::TRUST_REGION && it.trust_region_radius <= o.min_trust_region_radius);
    // A zero step (the search gave up and kept its start) is reported as such.
    if (o.minimizer_type == ceres::LINE_SEARCH && !s.iterations.empty()) {
      double norm = 0;
      for (double v : x) norm += v * v;
      ok |= s.iterations.back().step_norm <= 1.0000001 * o.parameter_tolerance * (std::sqrt(norm) + o.parameter_tolerance);
    }
    if (s.iterations.empty()) {
      const auto& e = cost.memo[projected];
      double g = 0;
      for (int c = 0; c < n; ++c) {
        double v = 0;
        for (size_t i = 0; i < e.first.size(); ++i) v += e.first[i] * e.second[i * n + c];
        g = std::max(g, std::abs(v));
      }
      ok = g <= o.gradient_tolerance * 1.0000001;
    }
    MC_EXPECT(ok) << "convergence claimed without cause: " << s.message;
  }
  mc::H h;
  h(static_cast<int>(s.termination_type))(s.final_cost)(s.initial_cost)(s.num_successful_steps)(s.num_unsuccessful_steps)(x)(static_cast<int>(s.iterations.size()))(family);
  mc::Outcome(h.h);
}

// Value alphabets: higher, slightly lower (a decrease too small to accept),
// lower, much lower, failing.
MC_SCENARIO(lazy_trust_region, .split = 5, .weight = 4) {
  const int f = mc::Choose(6, "family");
  const int bounds = mc::Choose(3, "bounds");
  // The longer runs use fewer answers.
  if (bounds == 0) RunLazy(f, 1, {2, 1.9999, 0.75, 3, vu::NaN()}, {1, -2}, mc::Bound(3, 4), 0, bounds);
  else if (!mc::Thorough()) RunLazy(f, 1, {2, 1.5, 3, vu::NaN()}, {1, -2}, 2, 0, bounds);
  else RunLazy(f, 1, {2, 1.9999, 0.75, 3, vu::NaN()}, {1, -2, 0}, 2, 0, bounds);
}
MC_SCENARIO(lazy_deep, .split = 5, .weight = 3) {
  const int f = mc::Choose(6, "family");
  RunLazy(f, 1, {2, 1.75, 1.5, 1, 2.25, vu::NaN()}, {1}, mc::Bound(5, 7), 0, 0);
}
MC_SCENARIO(lazy_line_search, .split = 5, .weight = 4) {
  const int f = 6 + mc::Choose(7, "family");
  RunLazy(f, 1, {2, 1.9, 0.75, 3, vu::NaN()}, {1, -2}, mc::Bound(2, 3), 0, 0);
}
MC_SCENARIO(lazy_callbacks, .split = 4, .weight = 2) {
  const int f = mc::Choose(kFamilies, "family");
  RunLazy(f, 1, {2, 1, 3, vu::NaN()}, {1, 0.5}, mc::Bound(3, 4), 1, 0);
}
MC_SCENARIO(lazy_2d, .split = 4, .weight = 2) {
  const int f = mc::Choose(kFamilies, "family");
  RunLazy(f, 2, {2, 1, 3, vu::NaN()}, {1, -2}, 2 - (mc::Thorough() ? 0 : f >= 6), 0, 0);
}

// ---- real problems with misbehaviour injected at any call ------------------
struct FaultyManifold : Twisted {
  explicit FaultyManifold(int n) : Twisted(n) {}
  mutable std::function<bool(int)> fail;  // 0 plus, 1 Jacobian
  bool Plus(const double* x, const double* d, double* y) const override { return !(fail && fail(0)) && Twisted::Plus(x, d, y); }
};

Model Problem(int p) {
  Model m;
  auto block = [&](std::vector<double> x, int manifold = kNoManifold, bool constant = false) {
    Block b;
    b.size = static_cast<int>(x.size());
    b.x = x;
    b.manifold = manifold;
    b.constant = constant;
    m.blocks.push_back(b);
  };
  switch (p) {
    case 0: block({1, -2}); block({0.5}); m.res = {{{0, 1}, 3, 1}, {{1}, 1, 2, true}}; break;
    case 1: block({1, -2}, kTwisted); block({0.5}, kNoManifold, true); block({2, 1}, kFixFirst); m.res = {{{0, 1}, 2, 1}, {{2}, 2, 3}, {{1}, 1, 2, true}, {{0, 2}, 1, 4}}; break;
    default: block({1}); block({-1}); block({2}); m.res = {{{0, 1}, 2, 1, false, kConcave}, {{1, 2}, 2, 3}, {{2, 0}, 1, 5}}; break;
  }
  return m;
}

void RunFaulty(int budget, int kinds_from, int kinds_to, int iterations) {
  const int family = mc::Choose(kFamilies, "family");
  const int p = mc::Choose(3, "problem");
  const bool trust = family < 6;
  // 0 plain, 1 bounds, 2 inner iterations, 3 state updated every iteration, 4 Schur
  const int variant = trust ? mc::Choose(5, "variant") : 3 * mc::Choose(2, "variant");
  Model m = Problem(p);
  if (variant == 1) {
    m.blocks[0].lo.assign(m.blocks[0].size, -2.5);
    m.blocks[0].hi.assign(m.blocks[0].size, 1.25);
  }
  World w(m);
  Solver::Options o = Family(family);
  o.max_num_iterations = iterations;
  o.max_num_line_search_step_size_iterations = 4;
  o.max_num_line_search_direction_restarts = 1;
  if (variant == 2) {
    o.use_inner_iterations = true;
    // The automatic ordering depends on addresses.
    o.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (size_t b = 0; b < w.x.size(); ++b) o.inner_iteration_ordering->AddElementToGroup(w.x[b].data(), static_cast<int>(b));
  }
  if (variant == 3) o.update_state_every_iteration = true;
  if (variant == 4) o.linear_solver_type = ceres::DENSE_SCHUR;
  int left = budget, calls = 0;
  bool transient = false;
  for (size_t i = 0; i < w.costs.size(); ++i) {
    auto* c = w.costs[i];
    // Blocks without variables are evaluated once, for the fixed cost.
    bool fixed = true;
    for (int b : m.res[i].blocks) fixed = fixed && m.blocks[b].Fixed();
    c->hook = [&, c, fixed](double const* const*, double*, double** j) -> int {
      c->fault.kind = 0;
      ++calls;
      MC_EXPECT(calls < 20000) << "does not end";
      mc::Step();
      if (left > 0) {
        const int k = mc::Choose(1 + kinds_to - kinds_from, "fault");
        if (k && !(fixed && kinds_from + k - 1 == kHugeResidual)) { c->fault.kind = kinds_from + k - 1; c->fault.pos = 0; --left; transient = true; }
      }
      return -1;
    };
  }
  Answer cb;
  Point flat_start;
  for (auto& b : w.x) flat_start.insert(flat_start.end(), b.begin(), b.end());
  cb.f = [&](const ceres::IterationSummary&) {
    if (left > 0 && kinds_from == kReturnFalse) {
      const int k = mc::Choose(3, "callback");
      if (k) { --left; return k == 1 ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY; }
    }
    return ceres::SOLVER_CONTINUE;
  };
  o.callbacks.push_back(&cb);
  const auto before = w.x;
  Solver::Summary s;
  ceres::Solve(o, w.problem.get(), &s);
  left = 0;
  Point end;
  for (auto& b : w.x) end.insert(end.end(), b.begin(), b.end());
  Truth t;
  t.cost = [&](const Point& q) {
    std::vector<std::vector<double>> x;
    size_t k = 0;
    for (auto& b : m.blocks) { x.emplace_back(q.begin() + k, q.begin() + k + b.size); k += b.size; }
    double c = 0;
    for (int i : m.AllRows()) c += m.CostOf(i, x, true);
    return std::make_pair(c, true);
  };
  // A summary reached before anything was evaluated has no costs.
  if (s.IsSolutionUsable() || !s.iterations.empty() || s.initial_cost != -1) CheckSummary(o, s, flat_start, flat_start, end, t, 1e-9);
  else MC_EXPECT(w.x == before) << "failed before starting but moved";
  // Constant blocks never move, and the problem can be solved again.
  for (size_t b = 0; b < before.size(); ++b) {
    if (m.blocks[b].Fixed()) MC_EXPECT(w.x[b] == before[b]);
    if (m.blocks[b].manifold == kFixFirst) MC_EXPECT(w.x[b][0] == before[b][0]);
  }
  const double c_end = t.cost(end).first;
  Solver::Summary s2;
  o.callbacks.clear();
  ceres::Solve(o, w.problem.get(), &s2);
  MC_EXPECT(s2.IsSolutionUsable() || s2.termination_type == ceres::FAILURE);
  MC_EXPECT(vu::Near(s2.initial_cost, c_end, 1e-9)) << "second solve starts at " << s2.initial_cost << " instead of " << c_end;
  mc::H h;
  h(static_cast<int>(s.termination_type))(s.final_cost)(s.num_successful_steps)(s.num_unsuccessful_steps)(end)(family)(variant);
  mc::Outcome(h.h);
}
MC_SCENARIO(fault_each_call, .split = 4, .weight = 4) { RunFaulty(1, kReturnFalse, kNumFaults, mc::Bound(6, 8)); }
MC_SCENARIO(fault_pairs, .split = 5, .weight = 4) { RunFaulty(2, kReturnFalse, kReturnFalse + 1, mc::Bound(3, 5)); }

}  // namespace
