// C04: whole solves with several threads, and several solves at a time, under
// every schedule up to a bound, with race detection, against one thread.
#include <thread>

#include "ceres/context.h"
#include "ceres/context_impl.h"
#include "ceres/evaluation_callback.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/ordered_groups.h"
#include "ceres/solver.h"
#include "mcsched.h"
#include "nls.h"
#include "util.h"

namespace {
namespace ci = ceres::internal;
using nls::Model;
using nls::World;
using std::vector;
using Values = vector<double>;

// Two eliminated blocks, two others, some curvature.
Model SmallModel(int structure) {
  Model m;
  for (int s : structure == 0 ? vector<int>{1, 1, 2, 1} : vector<int>{2, 1, 1}) {
    nls::Block b;
    b.size = s;
    m.blocks.push_back(b);
  }
  int c = 0;
  for (auto& b : m.blocks) for (int j = 0; j < b.size; ++j, ++c) b.x.push_back(((c * 5 + structure) % 7) - 3);
  if (structure == 0) m.res = {{{0, 2}, 3}, {{1, 2, 3}, 2}, {{1, 3}, 2}, {{3}, 1}};
  else m.res = {{{0, 1}, 3}, {{0, 2}, 3}, {{1}, 1}};
  for (size_t i = 0; i < m.res.size(); ++i) {
    m.res[i].salt = static_cast<int>(i) + structure;
    m.res[i].linear = i != 1;
    m.res[i].loss = i == 2 ? nls::kFour : nls::kNull;
  }
  return m;
}
struct Config {
  const char* name;
  ceres::LinearSolverType solver;
  ceres::PreconditionerType pre;
  int extra;  // 1 dogleg, 2 line search, 3 inner iterations, 4 gradient checking, 5 explicit Schur complement, 6 dynamic sparsity, 7 mixed precision
};
const vector<Config>& Configs() {
  using namespace ceres;
  static const vector<Config> c = {
      {"DENSE_QR", DENSE_QR, JACOBI, 0},
      {"SPARSE_NORMAL_CHOLESKY", SPARSE_NORMAL_CHOLESKY, JACOBI, 0},
      {"DENSE_SCHUR", DENSE_SCHUR, JACOBI, 0},
      {"SPARSE_SCHUR", SPARSE_SCHUR, JACOBI, 0},
      {"ITERATIVE_SCHUR SCHUR_JACOBI", ITERATIVE_SCHUR, SCHUR_JACOBI, 0},
      {"ITERATIVE_SCHUR SPSE", ITERATIVE_SCHUR, SCHUR_POWER_SERIES_EXPANSION, 0},
      {"CGNR JACOBI", CGNR, JACOBI, 0},
      {"inner iterations", DENSE_QR, JACOBI, 3},
      {"line search", DENSE_QR, JACOBI, 2},
      {"gradient checking", DENSE_QR, JACOBI, 4},
      {"DENSE_NORMAL_CHOLESKY dogleg", DENSE_NORMAL_CHOLESKY, JACOBI, 1},
      {"explicit ITERATIVE_SCHUR", ITERATIVE_SCHUR, SCHUR_JACOBI, 5},
      {"dynamic sparsity", SPARSE_NORMAL_CHOLESKY, JACOBI, 6},
      {"ITERATIVE_SCHUR CLUSTER_JACOBI", ITERATIVE_SCHUR, CLUSTER_JACOBI, 0},
      {"ITERATIVE_SCHUR CLUSTER_TRIDIAGONAL", ITERATIVE_SCHUR, CLUSTER_TRIDIAGONAL, 0},
      {"CGNR SUBSET", CGNR, SUBSET, 0},
      {"mixed precision", SPARSE_SCHUR, JACOBI, 7},
      {"subspace dogleg", DENSE_QR, JACOBI, 8},
      {"gradient checking finds errors", DENSE_QR, JACOBI, 9},
  };
  return c;
}
// Counts calls without any synchronisation of its own.
struct Counter : ceres::IterationCallback, ceres::EvaluationCallback {
  int calls = 0, prepared = 0, last = -1;
  Values costs;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override {
    ++calls;
    if (s.iteration != last + 1) last = 1000; else last = s.iteration;
    costs.push_back(s.cost);
    return ceres::SOLVER_CONTINUE;
  }
  void PrepareForEvaluation(bool, bool) override { ++prepared; }
};
// Builds, solves and reports.
Values SolveOne(const Model& m, const Config& k, int iterations, int threads, ceres::Context* context, bool callbacks) {
  Counter counter;
  ceres::Problem::Options po;
  po.context = context;
  if (callbacks && k.extra != 3) po.evaluation_callback = &counter;
  World w(m, po);
  ceres::Solver::Options o;
  o.num_threads = threads;
  o.linear_solver_type = k.solver;
  o.preconditioner_type = k.pre;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.max_num_iterations = iterations;
  o.logging_type = ceres::SILENT;
  o.use_explicit_schur_complement = k.extra == 5;
  o.dynamic_sparsity = k.extra == 6;
  if (k.extra == 7) o.use_mixed_precision_solves = true, o.max_num_refinement_iterations = 2;
  if (k.extra == 1 || k.extra == 8) o.trust_region_strategy_type = ceres::DOGLEG;
  if (k.extra == 8) o.dogleg_type = ceres::SUBSPACE_DOGLEG;
  if (k.extra == 2) o.minimizer_type = ceres::LINE_SEARCH;
  if (k.extra == 4 || k.extra == 9) o.check_gradients = true;
  if (k.extra == 9)
    for (auto* c : w.costs)
      c->hook = [c](double const* const* x, double* r, double** j) {
        const bool ok = c->::poly::Cost::Evaluate(x, r, j);
        if (j && j[0]) j[0][0] += 1;
        return static_cast<int>(ok);
      };
  if (k.extra == 3) {
    // Independent blocks are minimised at the same time.
    o.use_inner_iterations = true;
    auto ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (size_t b = 0; b < m.blocks.size(); ++b) ordering->AddElementToGroup(w.x[b].data(), b < 2 && m.blocks.size() > 3 ? 0 : b == 0 ? 0 : m.blocks.size() > 3 ? 1 + b % 2 : 1);
    o.inner_iteration_ordering = ordering;
  }
  if (k.pre == ceres::SUBSET) o.residual_blocks_for_subset_preconditioner.insert(w.ids[0]), o.residual_blocks_for_subset_preconditioner.insert(w.ids[2]);
  if (callbacks) {
    o.callbacks.push_back(&counter);
    o.update_state_every_iteration = true;
  }
  ceres::Solver::Summary s;
  ceres::Solve(o, w.problem.get(), &s);
  Values out;
  out.push_back(s.termination_type);
  out.push_back(s.iterations.size());
  out.push_back(s.initial_cost);
  out.push_back(s.final_cost);
  out.push_back(s.num_successful_steps);
  out.push_back(s.num_residual_evaluations);
  out.push_back(s.num_jacobian_evaluations);
  out.push_back(counter.calls);
  out.push_back(counter.last);
  out.push_back(counter.prepared);
  if (k.extra == 9) {
    // The reports name addresses; every residual block has one.
    int reports = 0;
    for (size_t at = 0; (at = s.message.find("Gradient Error detected!", at)) != std::string::npos; ++at) ++reports;
    out.push_back(reports);
  }
  for (auto& it : s.iterations) out.push_back(it.cost), out.push_back(it.step_is_successful);
  for (auto& b : w.x) out.insert(out.end(), b.begin(), b.end());
  return out;
}
bool Same(const Values& a, const Values& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || std::abs(a[i] - b[i]) <= tol * std::max(1.0, std::abs(b[i])))) return false;
  return true;
}
struct Sched {
  int policy, preemptions;
};
const char* kPolicies = "run until blocked, take turns, youngest, oldest";

MC_SCENARIO(Threads, .split = 5, .no_skip_throw = true, .weight = 6) {
  const int structure = mc::Choose(2, "structure");
  const Config k = mc::Pick(Configs(), "solver");
  const int threads = mc::Range(2, 3, "threads");
  const int policy = mc::Choose(4, kPolicies);
  const bool callbacks = mc::Thorough() ? mc::Flip("callbacks") : (threads + policy) % 2;
  if (threads > 2 && policy == 0) return;  // exponential
  const int preemptions = policy > 0 && (mc::Thorough() || (threads == 2 && (structure + policy) % 2));
  if (mc::Skipping()) return;
  const Model m = SmallModel(structure);
  const int iterations = mc::Bound(2, 4);
  Values want;
  {
    ci::ContextImpl c;
    want = SolveOne(m, k, iterations, 1, &c, callbacks);
  }
  MC_REQUIRE((want[0] == ceres::USER_FAILURE || want[0] == ceres::FAILURE) == (k.extra == 9) || k.extra == 4) << k.name << " fails with one thread";
  Values got;
  const bool ok = sched::Explore({.preemptions = preemptions, .policy = policy}, [&] {
    ci::ContextImpl c;
    got = SolveOne(m, k, iterations, threads, &c, callbacks);
  });
  if (!ok) return;
  if (sched::Current().switches > 0) mc::Cover("switched");
  MC_REQUIRE(Same(got, want, 1e-8)) << k.name << " with " << threads << " threads gives " << vu::Str(got, got.size()) << " instead of " << vu::Str(want, want.size());
  mc::Outcome(mc::H()(got)(sched::Current().ops)(sched::Current().switches).h);
}

// The same with one or two deviations anywhere, for the solvers with most of their own threading.
MC_SCENARIO(Deep, .split = 8, .no_skip_throw = true, .weight = 6) {
  const Config k = Configs()[mc::Pick(mc::Thorough() ? vector<int>{0, 2, 3, 4, 5, 6, 7, 9, 18} : vector<int>{0, 2, 4, 6, 7, 9, 10, 14, 18}, "solver")];
  const int policy = mc::Range(1, mc::Bound(2, 3), kPolicies);
  const int structure = k.extra == 3 ? 0 : 1;
  if (mc::Skipping()) return;
  const Model m = SmallModel(structure);
  Values want;
  {
    ci::ContextImpl c;
    want = SolveOne(m, k, 1, 1, &c, true);
  }
  Values got;
  const bool ok = sched::Explore({.preemptions = mc::Thorough() || (k.solver == ceres::DENSE_QR && k.extra == 0) ? 2 : 1, .policy = policy}, [&] {
    ci::ContextImpl c;
    got = SolveOne(m, k, 1, 2, &c, true);
  });
  if (!ok) return;
  MC_REQUIRE(Same(got, want, 1e-8)) << k.name << " gives " << vu::Str(got, got.size()) << " instead of " << vu::Str(want, want.size());
  mc::Outcome(mc::H()(got)(sched::Current().ops)(sched::Current().switches).h);
}

// Two solves at the same time: nothing shared, one context, or cost functions too.
MC_SCENARIO(AtTheSameTime, .split = 6, .no_skip_throw = true, .weight = 6) {
  const int share = mc::Choose(3, "nothing, context, context made by the user");
  const Config k0 = Configs()[mc::Pick(mc::Thorough() ? vector<int>{0, 2, 4, 6, 7, 8, 9} : vector<int>{0, 2, 7, 9}, "first solver")];
  const Config k1 = Configs()[mc::Pick(mc::Thorough() ? vector<int>{0, 1, 3, 5, 7, 8} : vector<int>{1, 3, 8}, "second solver")];
  const int t0 = mc::Range(1, 2, "threads of the first"), t1 = mc::Range(1, 2, "threads of the second");
  const int policy = mc::Choose(4, kPolicies);
  if (policy == 0 && t0 + t1 > 2) return;
  const int preemptions = t0 + t1 == 2 && share == 1 && (mc::Thorough() || k0.solver == ceres::DENSE_QR) ? 1 : 0;
  if (mc::Skipping()) return;
  const Model m0 = SmallModel(1), m1 = SmallModel(0);
  Values want[2];
  {
    ci::ContextImpl c;
    want[0] = SolveOne(m0, k0, 1, 1, &c, true);
    want[1] = SolveOne(m1, k1, 1, 1, &c, false);
  }
  Values got[2];
  const bool ok = sched::Explore({.preemptions = preemptions, .policy = policy}, [&] {
    std::unique_ptr<ceres::Context> c(share ? ceres::Context::Create() : nullptr);
    if (share == 2) static_cast<ci::ContextImpl*>(c.get())->EnsureMinimumThreads(1);
    std::thread other([&] { got[0] = SolveOne(m0, k0, 1, t0, c.get(), true); });
    got[1] = SolveOne(m1, k1, 1, t1, c.get(), false);
    other.join();
  });
  if (!ok) return;
  for (int i = 0; i < 2; ++i)
    MC_REQUIRE(Same(got[i], want[i], 1e-8)) << "solve " << i << " (" << (i ? k1 : k0).name << ") gives " << vu::Str(got[i], got[i].size()) << " instead of "
                                            << vu::Str(want[i], want[i].size());
  mc::Outcome(mc::H()(got[0])(got[1])(sched::Current().ops)(sched::Current().switches).h);
}

// Two problems with the same cost functions, loss functions and manifolds, and
// two evaluations of different problems, at the same time.
MC_SCENARIO(SharedFunctions, .split = 6, .no_skip_throw = true, .weight = 3) {
  const Config k = Configs()[mc::Pick({0, 2, 6, 7, 9}, "solver")];
  const int threads = mc::Range(1, 2, "threads");
  const bool evaluate = mc::Flip("evaluate");
  const int policy = mc::Choose(4, kPolicies);
  if (policy == 0 && threads > 1) return;
  const int preemptions = threads == 1 ? 1 : 0;
  if (mc::Skipping()) return;
  Model m = SmallModel(1);
  m.blocks[0].manifold = nls::kTwisted;
  Values want;
  auto run = [&](World& w, ceres::Context* context, int t) {
    // A second problem over the same objects and its own parameters.
    ceres::Problem::Options po;
    po.cost_function_ownership = po.loss_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    po.manifold_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    po.context = context;
    ceres::Problem p(po);
    auto x = m.Start();
    for (size_t b = 0; b < x.size(); ++b) p.AddParameterBlock(x[b].data(), m.blocks[b].size, w.own_manifolds[b].get());
    for (size_t i = 0; i < m.res.size(); ++i) {
      vector<double*> ptr;
      for (int b : m.res[i].blocks) ptr.push_back(x[b].data());
      p.AddResidualBlock(w.costs[i], w.own_losses[i].get(), ptr);
    }
    Values out;
    if (evaluate) {
      ceres::Problem::EvaluateOptions eo;
      eo.num_threads = t;
      double cost = 0;
      Values r, g;
      ceres::CRSMatrix j;
      out.push_back(p.Evaluate(eo, &cost, &r, &g, &j));
      out.push_back(cost);
      out.insert(out.end(), r.begin(), r.end());
      out.insert(out.end(), g.begin(), g.end());
      out.insert(out.end(), j.values.begin(), j.values.end());
      return out;
    }
    ceres::Solver::Options o;
    o.num_threads = t;
    o.linear_solver_type = k.solver;
    o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    o.use_inner_iterations = k.extra == 3;
    o.check_gradients = k.extra == 4;
    o.max_num_iterations = 2;
    o.logging_type = ceres::SILENT;
    ceres::Solver::Summary s;
    ceres::Solve(o, &p, &s);
    out.push_back(s.termination_type);
    out.push_back(s.final_cost);
    for (auto& b : x) out.insert(out.end(), b.begin(), b.end());
    return out;
  };
  {
    World w(m);
    ci::ContextImpl c;
    want = run(w, &c, 1);
  }
  Values got[2];
  const bool ok = sched::Explore({.preemptions = preemptions, .policy = policy}, [&] {
    World w(m);
    ci::ContextImpl c;
    std::thread other([&] { got[0] = run(w, &c, threads); });
    got[1] = run(w, &c, 1);
    other.join();
  });
  if (!ok) return;
  for (int i = 0; i < 2; ++i)
    MC_REQUIRE(Same(got[i], want, 1e-8)) << "user " << i << " of shared functions (" << k.name << ") gets " << vu::Str(got[i], got[i].size()) << " instead of "
                                         << vu::Str(want, want.size());
  mc::Outcome(mc::H()(got[0])(got[1])(sched::Current().ops)(sched::Current().switches).h);
}
}  // namespace
