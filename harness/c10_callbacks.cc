// C10: iteration and evaluation callbacks see what they are promised, in every run
// a nondeterministic cost function can provoke and for every answer they give.
#include <map>
#include <mutex>

#include "ceres/covariance.h"
#include "ceres/evaluation_callback.h"
#include "ceres/iteration_callback.h"
#include "ceres/solver.h"
#include "nls.h"

namespace {
using namespace nls;
using ceres::Solver;
using Point = std::vector<double>;

constexpr int kTrust = 8, kAll = 16;
Solver::Options Config(int n) {
  Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.linear_solver_type = ceres::DENSE_QR;
  switch (n) {
    case 0: break;
    case 1: o.trust_region_strategy_type = ceres::DOGLEG; break;
    case 2: o.trust_region_strategy_type = ceres::DOGLEG; o.dogleg_type = ceres::SUBSPACE_DOGLEG; break;
    case 3: o.use_nonmonotonic_steps = true; break;
    case 4: o.use_nonmonotonic_steps = true; o.max_consecutive_nonmonotonic_steps = 1; o.trust_region_strategy_type = ceres::DOGLEG; break;
    case 5: o.jacobi_scaling = false; o.linear_solver_type = ceres::CGNR; break;
    case 6: o.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY; o.dynamic_sparsity = true; break;
    case 7: o.logging_type = ceres::PER_MINIMIZER_ITERATION; break;
    default: {
      o.minimizer_type = ceres::LINE_SEARCH;
      static const struct { ceres::LineSearchDirectionType d; ceres::LineSearchType t; ceres::LineSearchInterpolationType i; } k[] = {
          {ceres::STEEPEST_DESCENT, ceres::ARMIJO, ceres::CUBIC},
          {ceres::STEEPEST_DESCENT, ceres::ARMIJO, ceres::QUADRATIC},
          {ceres::STEEPEST_DESCENT, ceres::WOLFE, ceres::CUBIC},
          {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::WOLFE, ceres::QUADRATIC},
          {ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::ARMIJO, ceres::BISECTION},
          {ceres::LBFGS, ceres::WOLFE, ceres::CUBIC},
          {ceres::BFGS, ceres::WOLFE, ceres::CUBIC},
          {ceres::LBFGS, ceres::WOLFE, ceres::BISECTION}};
      o.line_search_direction_type = k[n - 8].d;
      o.line_search_type = k[n - 8].t;
      o.line_search_interpolation_type = k[n - 8].i;
    }
  }
  o.max_num_consecutive_invalid_steps = 2;
  o.max_num_line_search_step_size_iterations = 3;
  o.max_num_line_search_direction_restarts = 1;
  return o;
}

// Everything both kinds of callback are told, judged as it happens.
struct Monitor : ceres::EvaluationCallback {
  std::mutex mu;
  std::function<Point()> user;  // the user's memory now
  bool prepared = false, jacobians = false;
  Point at;        // user memory when prepared
  Point previous;  // at the preparation before
  bool any = false;
  int prepares = 0, since = 0;  // cost calls since the last preparation
  bool saw_jacobian = false;
  bool announced_fresh = false;
  bool frozen = false;  // nothing may be evaluated any more
  void PrepareForEvaluation(bool j, bool fresh) override {
    std::lock_guard<std::mutex> l(mu);
    const Point p = user();
    MC_EXPECT(!frozen) << "evaluation prepared after the end was requested";
    if (any && p != at) MC_EXPECT(fresh) << "a new point was announced as the previous one";
    if (!any) MC_EXPECT(fresh) << "the first point was announced as the previous one";
    MC_EXPECT(!prepared || since > 0) << "prepared twice without evaluating";
    MC_EXPECT(prepares == 0 || !jacobians || saw_jacobian) << "Jacobians announced but never requested";
    any = true;
    at = p;
    prepared = true;
    jacobians = j;
    announced_fresh = fresh;
    since = 0;
    saw_jacobian = false;
    ++prepares;
    if (fresh) mc::Cover("new point"); else mc::Cover("same point");
  }
  // A cost function is called with the values x (of the given user addresses).
  void Called(const Point& values, const Point& memory, bool j) {
    std::lock_guard<std::mutex> l(mu);
    MC_EXPECT(prepared) << "evaluated without preparation";
    MC_EXPECT(!frozen) << "evaluated after the end was requested";
    MC_EXPECT(values == memory) << "cost function sees " << vu::Str(values, static_cast<int>(values.size())) << " user memory is " << vu::Str(memory, static_cast<int>(memory.size()));
    MC_EXPECT(user() == at) << "user memory changed since the preparation";
    if (j) MC_EXPECT(jacobians) << "Jacobian requested but not announced";
    saw_jacobian |= j;
    ++since;
  }
};

struct Iter : ceres::IterationCallback {
  std::function<ceres::CallbackReturnType(const ceres::IterationSummary&)> f;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override { return f(s); }
};

bool Same(const ceres::IterationSummary& a, const ceres::IterationSummary& b) {
  return a.iteration == b.iteration && a.step_is_valid == b.step_is_valid && a.step_is_nonmonotonic == b.step_is_nonmonotonic &&
         a.step_is_successful == b.step_is_successful && a.cost == b.cost && a.cost_change == b.cost_change &&
         a.gradient_max_norm == b.gradient_max_norm && a.gradient_norm == b.gradient_norm && a.step_norm == b.step_norm &&
         a.relative_decrease == b.relative_decrease && a.trust_region_radius == b.trust_region_radius && a.eta == b.eta &&
         a.step_size == b.step_size && a.line_search_function_evaluations == b.line_search_function_evaluations &&
         a.line_search_gradient_evaluations == b.line_search_gradient_evaluations && a.line_search_iterations == b.line_search_iterations &&
         a.linear_solver_iterations == b.linear_solver_iterations && a.iteration_time_in_seconds == b.iteration_time_in_seconds &&
         a.step_solver_time_in_seconds == b.step_solver_time_in_seconds && a.cumulative_time_in_seconds == b.cumulative_time_in_seconds;
}

struct LazyCost : ceres::CostFunction {
  std::vector<double> values, slopes;
  mutable std::map<double, std::pair<double, double>> memo;
  mutable int calls = 0;
  Monitor* monitor = nullptr;
  const double* user = nullptr;
  double start = 0;
  LazyCost() { set_num_residuals(1); mutable_parameter_block_sizes()->push_back(1); }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    MC_EXPECT(++calls < 400) << "does not end";
    if (calls >= 400) return false;
    mc::Step();
    const double p = x[0][0];
    if (monitor) monitor->Called({p}, {*user}, j && j[0]);
    auto it = memo.find(p);
    if (it == memo.end()) {
      const double v = p == start ? values[0] : values[mc::Choose(static_cast<int>(values.size()), "value")];
      it = memo.emplace(p, std::make_pair(v, vu::NaN())).first;
    }
    if (std::isnan(it->second.first)) return false;
    r[0] = it->second.first;
    if (j && j[0]) {
      if (std::isnan(it->second.second)) it->second.second = slopes[mc::Choose(static_cast<int>(slopes.size()), "slope")];
      j[0][0] = it->second.second;
    }
    return true;
  }
};

struct Script {
  bool with_evaluation = true, update_state = false;
  int iterations = 2, budget = 1, bounds = 0;
};
void RunLazy(int cfg, const Script& k, const std::vector<double>& values, const std::vector<double>& slopes) {
  double x = 1.5;
  const double start = x;
  double projected = x;
  Monitor mon;
  mon.user = [&] { return Point{x}; };
  LazyCost cost;
  cost.values = values;
  cost.slopes = slopes;
  cost.user = &x;
  ceres::Problem::Options po;
  po.cost_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
  if (k.with_evaluation) { po.evaluation_callback = &mon; cost.monitor = &mon; }
  ceres::Problem problem(po);
  problem.AddResidualBlock(&cost, nullptr, &x);
  if (k.bounds == 1) { problem.SetParameterLowerBound(&x, 0, 1.0); problem.SetParameterUpperBound(&x, 0, 2.0); }
  if (k.bounds == 2) { problem.SetParameterLowerBound(&x, 0, 2.0); projected = 2; }
  cost.start = projected;
  Solver::Options o = Config(cfg);
  o.max_num_iterations = k.iterations;
  o.update_state_every_iteration = k.update_state;
  int left = k.budget;
  std::vector<ceres::IterationSummary> seen;
  ceres::CallbackReturnType first_answer = ceres::SOLVER_CONTINUE, asked = ceres::SOLVER_CONTINUE;
  int first_calls = 0, second_calls = 0;
  double best = std::numeric_limits<double>::infinity();
  auto answer = [&] {
    if (left <= 0) return ceres::SOLVER_CONTINUE;
    const int c = mc::Choose(3, "callback");
    if (c) --left;
    return c == 0 ? ceres::SOLVER_CONTINUE : c == 1 ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  };
  auto judge = [&](const ceres::IterationSummary& s) {
    if (!k.update_state) {
      if (!k.with_evaluation) MC_EXPECT(x == start) << "user memory changed during the solve";
      return;
    }
    auto it = cost.memo.find(x);
    MC_EXPECT(it != cost.memo.end() && !std::isnan(it->second.first)) << "state " << x << " was never evaluated";
    if (it != cost.memo.end()) MC_EXPECT(it->second.first * it->second.first / 2 == best) << "user memory holds cost " << it->second.first * it->second.first / 2 << " best is " << best << " at iteration " << s.iteration;
    mc::Cover("state checked");
  };
  Iter a, b;
  a.f = [&](const ceres::IterationSummary& s) {
    MC_EXPECT(asked == ceres::SOLVER_CONTINUE) << "called after asking to stop";
    MC_EXPECT(first_calls == second_calls) << "order of callbacks";
    MC_EXPECT(s.iteration == first_calls) << "iteration " << s.iteration << " at call " << first_calls;
    ++first_calls;
    seen.push_back(s);
    if (s.step_is_successful || s.iteration == 0) best = std::min(best, s.cost);
    judge(s);
    first_answer = answer();
    if (first_answer != ceres::SOLVER_CONTINUE) { asked = first_answer; mon.frozen = true; }
    return first_answer;
  };
  b.f = [&](const ceres::IterationSummary& s) {
    MC_EXPECT(asked == ceres::SOLVER_CONTINUE) << "called after an earlier callback asked to stop";
    MC_EXPECT(first_calls == second_calls + 1) << "order of callbacks";
    ++second_calls;
    MC_EXPECT(Same(s, seen.back()));
    judge(s);
    const auto c = answer();
    if (c != ceres::SOLVER_CONTINUE) { asked = c; mon.frozen = true; }
    return c;
  };
  o.callbacks = {&a, &b};
  const int calls_at_end = 0;
  (void)calls_at_end;
  Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  mon.frozen = false;
  // The history is what was shown.
  MC_EXPECT(seen.size() <= s.iterations.size()) << seen.size() << " calls for " << s.iterations.size() << " iterations";
  MC_EXPECT(seen.size() + 1 >= s.iterations.size()) << seen.size() << " calls for " << s.iterations.size() << " iterations";
  for (size_t i = 0; i < seen.size() && i < s.iterations.size(); ++i) MC_EXPECT(Same(seen[i], s.iterations[i])) << "recorded iteration " << i << " differs from what the callback saw";
  if (asked == ceres::SOLVER_ABORT) MC_EXPECT(s.termination_type == ceres::USER_FAILURE && x == start) << ceres::TerminationTypeToString(s.termination_type) << " x " << x;
  if (asked == ceres::SOLVER_TERMINATE_SUCCESSFULLY) MC_EXPECT(s.termination_type == ceres::USER_SUCCESS) << ceres::TerminationTypeToString(s.termination_type);
  if (asked != ceres::SOLVER_CONTINUE) MC_EXPECT(seen.size() == s.iterations.size()) << "kept iterating";
  if (asked == ceres::SOLVER_CONTINUE) MC_EXPECT(s.termination_type != ceres::USER_FAILURE && s.termination_type != ceres::USER_SUCCESS);
  // A stop at a limit still shows the last iteration.
  if (s.termination_type == ceres::NO_CONVERGENCE) MC_EXPECT(seen.size() == s.iterations.size());
  // The outcome is as without an evaluation callback.
  if (s.IsSolutionUsable()) {
    auto it = cost.memo.find(x);
    MC_EXPECT(it != cost.memo.end()) << "end point " << x << " was never evaluated";
    if (it != cost.memo.end()) MC_EXPECT(it->second.first * it->second.first / 2 == s.final_cost) << "end has cost " << it->second.first * it->second.first / 2 << " reported " << s.final_cost;
  } else MC_EXPECT(x == start) << "failed but moved to " << x << " " << s.message;
  if (k.with_evaluation) MC_EXPECT(mon.prepares == cost.calls) << mon.prepares << " preparations, " << cost.calls << " evaluations";
  mc::H h;
  h(static_cast<int>(s.termination_type))(s.final_cost)(x)(static_cast<int>(seen.size()))(cfg)(mon.prepares);
  mc::Outcome(h.h);
}

MC_SCENARIO(lazy_plain, .split = 5, .weight = 3) {
  Script k;
  const int cfg = mc::Choose(kAll, "solver");
  k.with_evaluation = mc::Flip("evaluation callback");
  k.update_state = mc::Flip("update state");
  k.budget = 0;
  k.iterations = cfg < kTrust ? mc::Bound(3, 4) : 2;
  if (cfg < kTrust) RunLazy(cfg, k, {2, 1.5, 1, 3, vu::NaN()}, {1, -2});
  else RunLazy(cfg, k, {2, 1.5, 1, 3, vu::NaN()}, {1, -2});
}
MC_SCENARIO(lazy_answers, .split = 5, .weight = 3) {
  Script k;
  const int cfg = mc::Choose(kAll, "solver");
  k.with_evaluation = mc::Flip("evaluation callback");
  k.update_state = mc::Flip("update state");
  k.budget = 1;
  k.iterations = cfg < kTrust ? mc::Bound(3, 4) : 2;
  RunLazy(cfg, k, {2, 1.5, 1, 3, vu::NaN()}, {1});
}
// Projected line searches inside the trust region loop.
MC_SCENARIO(lazy_bounds, .split = 5, .weight = 2) {
  Script k;
  const int cfg = mc::Choose(5, "solver");
  k.bounds = 1 + mc::Choose(2, "bounds");
  k.update_state = mc::Flip("update state");
  k.budget = 0;
  k.iterations = 2;
  RunLazy(cfg, k, {2, 1, 3, vu::NaN()}, {1, -2});
}

// ---- real problems ---------------------------------------------------------
Model SmallModel(int p) {
  Model m;
  auto block = [&](std::vector<double> x, int manifold = kNoManifold, bool constant = false) {
    Block b;
    b.size = static_cast<int>(x.size());
    b.x = x;
    b.manifold = manifold;
    b.constant = constant;
    m.blocks.push_back(b);
  };
  switch (p) {
    case 0: block({1, -2}); block({0.5}); m.res = {{{0, 1}, 3, 1}, {{1}, 1, 2, true}}; break;
    case 1: block({1, -2}, kTwisted); block({0.5}, kNoManifold, true); block({2, 1}, kFixFirst); m.res = {{{0, 1}, 2, 1}, {{2}, 2, 3}, {{1}, 1, 2, true}, {{0, 2}, 1, 4}}; break;
    default: block({1}); block({-1}, kFixAll); block({2}); m.res = {{{0, 1}, 2, 1, false, kConcave}, {{1, 2}, 2, 3}, {{2, 0}, 1, 5}, {{1}, 1, 7}}; break;
  }
  return m;
}
struct Rig {
  Monitor mon;
  std::unique_ptr<World> w;
  int calls = 0;
  explicit Rig(const Model& m) {
    ceres::Problem::Options po;
    po.evaluation_callback = &mon;
    w = std::make_unique<World>(m, po);
    mon.user = [this] { Point p; for (auto& b : w->x) p.insert(p.end(), b.begin(), b.end()); return p; };
    for (size_t i = 0; i < w->costs.size(); ++i)
      w->costs[i]->hook = [this, i](double const* const* x, double*, double** j) {
        Point v, mem;
        bool any = false;
        const auto& r = w->m.res[i];
        for (size_t k = 0; k < r.blocks.size(); ++k) {
          const auto& u = w->x[r.blocks[k]];
          v.insert(v.end(), x[k], x[k] + u.size());
          mem.insert(mem.end(), u.begin(), u.end());
          any |= j && j[k];
        }
        { std::lock_guard<std::mutex> l(mon.mu); ++calls; }
        mon.Called(v, mem, any);
        if (fail) { std::lock_guard<std::mutex> l(mon.mu); if (fail()) return 0; }
        return -1;
      };
  }
  std::function<bool()> fail;
};
// Same result as without an evaluation callback, with one failing call anywhere.
MC_SCENARIO(real_problems, .split = 4, .weight = 2) {
  const int cfg = mc::Choose(kAll, "solver");
  const int p = mc::Choose(3, "problem");
  const bool update = mc::Flip("update state");
  const int threads = mc::Pick({1, 2}, "threads");
  const int bounds = cfg < kTrust && p != 1 ? mc::Choose(2, "bounds") : 0;
  Model m = SmallModel(p);
  if (bounds) { m.blocks[0].lo.assign(m.blocks[0].size, -2.5); m.blocks[0].hi.assign(m.blocks[0].size, 1.25); }
  Rig r(m);
  const int most = threads == 1 ? mc::Bound(2, 3) : 0;
  int budget = most;
  const bool faults = most > 0;
  r.fail = [&] {
    if (budget > 0 && mc::Choose(2, "fail")) { --budget; return true; }
    return false;
  };
  Solver::Options o = Config(cfg);
  o.max_num_iterations = mc::Bound(5, 8);
  o.num_threads = threads;
  o.update_state_every_iteration = update;
  int n = 0;
  Iter it;
  it.f = [&](const ceres::IterationSummary& s) { MC_EXPECT(s.iteration == n++); return ceres::SOLVER_CONTINUE; };
  o.callbacks.push_back(&it);
  Solver::Summary s;
  const auto before = r.w->x;
  ceres::Solve(o, r.w->problem.get(), &s);
  mc::Step(r.calls);
  if (!s.IsSolutionUsable()) MC_EXPECT(r.w->x == before) << "failed but moved";
  MC_EXPECT(r.mon.prepares > 0);
  if (!faults || budget == most) {
    World plain(m);
    Solver::Summary s2;
    o.callbacks.clear();
    o.num_threads = 1;
    ceres::Solve(o, plain.problem.get(), &s2);
    MC_EXPECT(s.termination_type == s2.termination_type && s.iterations.size() == s2.iterations.size());
    MC_EXPECT(vu::Near(s.final_cost, s2.final_cost, 1e-12)) << s.final_cost << " " << s2.final_cost;
    for (size_t b = 0; b < plain.x.size(); ++b) MC_EXPECT(Diff(r.w->x[b], plain.x[b], 1e-9).empty()) << Diff(r.w->x[b], plain.x[b], 1e-9);
    mc::Cover("compared");
  }
  mc::H h;
  h(static_cast<int>(s.termination_type))(s.final_cost)(cfg)(p)(bounds)(static_cast<int>(s.iterations.size()))(r.mon.prepares);
  mc::Outcome(h.h);
}
// Checking gradients evaluates the cost functions elsewhere too, but between the
// same calls of the evaluation callback.
MC_SCENARIO(gradient_checking, .split = 3, .weight = 1) {
  const int cfg = mc::Choose(kAll, "solver");
  const int p = mc::Choose(3, "problem");
  const bool update = mc::Flip("update state");
  const int bounds = cfg < kTrust && p != 1 ? mc::Choose(2, "bounds") : 0;
  Model m = SmallModel(p);
  if (bounds) { m.blocks[0].lo.assign(m.blocks[0].size, -2.5); m.blocks[0].hi.assign(m.blocks[0].size, 1.25); }
  Solver::Options o = Config(cfg);
  o.max_num_iterations = mc::Bound(3, 6);
  o.update_state_every_iteration = update;
  std::vector<Point> points[2];
  Point end[2];
  Solver::Summary s[2];
  for (int checking = 0; checking < 2; ++checking) {
    Rig r(m);
    for (size_t i = 0; i < r.w->costs.size(); ++i)
      r.w->costs[i]->hook = [&](double const* const*, double*, double**) {
        MC_EXPECT(r.mon.prepares > 0) << "a cost function is evaluated before the evaluation callback is called";
        r.mon.since = 1, r.mon.saw_jacobian = true;
        MC_EXPECT(Diff(r.mon.user(), r.mon.at, 0).empty()) << "the parameters are not those of the last call of the evaluation callback";
        if (static_cast<int>(points[checking].size()) < r.mon.prepares) points[checking].push_back(r.mon.at);
        return -1;
      };
    o.check_gradients = checking;
    ceres::Solve(o, r.w->problem.get(), &s[checking]);
    mc::Step(r.mon.prepares);
    end[checking] = r.mon.user();
  }
  MC_EXPECT(s[0].termination_type == s[1].termination_type && Diff(end[0], end[1], 0).empty()) << s[1].message << " instead of " << s[0].message;
  MC_EXPECT(points[0] == points[1]) << points[1].size() << " points instead of " << points[0].size();
  mc::Outcome(mc::H()(static_cast<int>(s[1].termination_type))(cfg)(p)(bounds)(static_cast<int>(points[1].size())).h);
}
// Direct evaluations through the problem.
MC_SCENARIO(direct_evaluation, .split = 3, .weight = 1) {
  const int p = mc::Choose(3, "problem");
  Model m = SmallModel(p);
  Rig r(m);
  const int depth = mc::Bound(3, 4);
  for (int d = 0; d < depth; ++d) {
    const int before = r.mon.prepares;
    const int op = mc::Choose(5, "operation");
    r.mon.saw_jacobian = true;  // not every evaluation needs the announced Jacobians of all
    mc::Step();
    if (op == 0) {  // whole problem, any outputs
      const int mask = mc::Choose(16, "outputs");
      double c;
      Point res, g;
      ceres::CRSMatrix J;
      MC_EXPECT(r.w->problem->Evaluate({}, mask & 1 ? &c : nullptr, mask & 2 ? &res : nullptr, mask & 4 ? &g : nullptr, mask & 8 ? &J : nullptr));
      if (mask) MC_EXPECT(r.mon.prepares == before + 1) << r.mon.prepares - before << " preparations";
      if (mask) MC_EXPECT(r.mon.jacobians == ((mask & 12) != 0) && r.mon.announced_fresh);
    } else if (op == 1 || op == 2) {  // one residual block, with or without Jacobians
      const int i = mc::Choose(static_cast<int>(m.res.size()), "residual");
      std::vector<std::vector<double>> J;
      std::vector<double*> jp;
      for (int b : m.res[i].blocks) J.emplace_back(m.res[i].m * std::max(1, m.blocks[b].Tangent()));
      for (size_t k = 0; k < J.size(); ++k) jp.push_back(m.blocks[m.res[i].blocks[k]].Fixed() ? nullptr : J[k].data());
      double c;
      MC_EXPECT(r.w->problem->EvaluateResidualBlock(r.w->ids[i], true, &c, nullptr, op == 2 ? jp.data() : nullptr));
      MC_EXPECT(r.mon.prepares == before + 1 && r.mon.jacobians == (op == 2) && r.mon.announced_fresh);
    } else if (op == 3) {  // the same point again
      if (before == 0) continue;
      const int i = mc::Choose(static_cast<int>(m.res.size()), "residual");
      double c;
      if (r.mon.user() == r.mon.at) {
        MC_EXPECT(r.w->problem->EvaluateResidualBlockAssumingParametersUnchanged(r.w->ids[i], true, &c, nullptr, nullptr));
        MC_EXPECT(r.mon.prepares == before + 1 && !r.mon.announced_fresh);
      }
    } else {  // the user moves
      const int b = mc::Choose(static_cast<int>(m.blocks.size()), "block");
      r.w->x[b][0] += 0.25;
      MC_EXPECT(r.mon.prepares == before);
    }
    mc::State(mc::H()(p)(r.mon.user())(r.mon.prepares)(r.mon.jacobians).h);
  }
}
// Inner iterations evaluate elsewhere, so they are refused; nothing is called.
MC_SCENARIO(inner_iterations_refused, .weight = 1) {
  const int p = mc::Choose(3, "problem");
  Model m = SmallModel(p);
  Rig r(m);
  Solver::Options o = Config(0);
  o.use_inner_iterations = true;
  o.check_gradients = mc::Flip("check gradients");
  if (mc::Flip("given")) {
    o.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (size_t b = 0; b < r.w->x.size(); ++b) o.inner_iteration_ordering->AddElementToGroup(r.w->x[b].data(), static_cast<int>(b));
  }
  const auto before = r.w->x;
  Solver::Summary s;
  ceres::Solve(o, r.w->problem.get(), &s);
  MC_EXPECT(s.termination_type == ceres::FAILURE && r.w->x == before);
}
}  // namespace
