// C13: every combination of options is refused with a reason or solved; names.
#include <cstring>
#include <cctype>
#include <functional>

#include "ceres/evaluation_callback.h"
#include "ceres/ordered_groups.h"
#include "ceres/solver.h"
#include "ceres/types.h"
#include "nls.h"
#include "util.h"

namespace {
using namespace ceres;
using nls::Model;
using nls::World;
using std::vector;
using std::string;

// ---- what the documentation allows, for this build (Eigen only) ----------------
bool Iterative(LinearSolverType t) { return t == CGNR || t == ITERATIVE_SCHUR; }
bool Schur(LinearSolverType t) { return t == DENSE_SCHUR || t == SPARSE_SCHUR || t == ITERATIVE_SCHUR; }
bool Clusters(PreconditionerType t) { return t == CLUSTER_JACOBI || t == CLUSTER_TRIDIAGONAL; }
bool LinearSolverOptionsAllowed(const Solver::Options& o) {
  const bool cholesky = o.sparse_linear_algebra_library_type == EIGEN_SPARSE && o.linear_solver_ordering_type == AMD;
  const bool dense = o.dense_linear_algebra_library_type == EIGEN;
  if (o.trust_region_strategy_type == DOGLEG && Iterative(o.linear_solver_type)) return false;
  switch (o.linear_solver_type) {
    case DENSE_NORMAL_CHOLESKY: return dense;
    case DENSE_QR: return dense && !o.use_mixed_precision_solves;
    case SPARSE_NORMAL_CHOLESKY: return cholesky;
    case DENSE_SCHUR: return dense && !o.dynamic_sparsity;
    case SPARSE_SCHUR: return cholesky && !o.dynamic_sparsity;
    case ITERATIVE_SCHUR:
      if (o.dynamic_sparsity || o.use_mixed_precision_solves || o.preconditioner_type == SUBSET) return false;
      if (o.use_explicit_schur_complement && (o.preconditioner_type != SCHUR_JACOBI || o.use_spse_initialization)) return false;
      if ((o.use_spse_initialization || o.preconditioner_type == SCHUR_POWER_SERIES_EXPANSION) && !(o.max_num_spse_iterations >= 1 && o.spse_tolerance >= 0)) return false;
      return !Clusters(o.preconditioner_type) || cholesky;
    case CGNR:
      if (o.dynamic_sparsity || o.use_mixed_precision_solves) return false;
      if (o.preconditioner_type == SUBSET) return cholesky && !o.residual_blocks_for_subset_preconditioner.empty();
      return (o.preconditioner_type == IDENTITY || o.preconditioner_type == JACOBI) && o.sparse_linear_algebra_library_type != CUDA_SPARSE;
  }
  return false;
}
bool TrustRegionAllowed(const Solver::Options& o) {
  return o.initial_trust_region_radius > 0 && o.min_trust_region_radius > 0 && o.max_trust_region_radius > 0 && o.min_trust_region_radius <= o.initial_trust_region_radius &&
         o.initial_trust_region_radius <= o.max_trust_region_radius && o.min_relative_decrease >= 0 && o.min_lm_diagonal > 0 && o.min_lm_diagonal <= o.max_lm_diagonal &&
         o.max_num_consecutive_invalid_steps >= 0 && o.eta > 0 && o.min_linear_solver_iterations >= 0 && o.min_linear_solver_iterations <= o.max_linear_solver_iterations &&
         (!o.use_inner_iterations || o.inner_iteration_tolerance >= 0) && (!o.use_nonmonotonic_steps || o.max_consecutive_nonmonotonic_steps > 0) && LinearSolverOptionsAllowed(o) &&
         (o.trust_region_minimizer_iterations_to_dump.empty() || o.trust_region_problem_dump_format_type == CONSOLE || !o.trust_region_problem_dump_directory.empty());
}
bool LineSearchAllowed(const Solver::Options& o) {
  return o.max_lbfgs_rank > 0 && o.min_line_search_step_size > 0 && o.max_line_search_step_contraction > 0 && o.max_line_search_step_contraction < 1 &&
         o.max_line_search_step_contraction < o.min_line_search_step_contraction && o.min_line_search_step_contraction <= 1 &&
         o.max_num_line_search_step_size_iterations >= (o.minimizer_type == TRUST_REGION ? 0 : 1) && o.line_search_sufficient_function_decrease > 0 &&
         o.line_search_sufficient_function_decrease < o.line_search_sufficient_curvature_decrease && o.line_search_sufficient_curvature_decrease < 1 && o.max_line_search_step_expansion > 1 &&
         !((o.line_search_direction_type == BFGS || o.line_search_direction_type == LBFGS) && o.line_search_type != WOLFE);
}
bool Allowed(const Solver::Options& o) {
  return o.max_num_iterations >= 0 && o.max_solver_time_in_seconds >= 0 && o.function_tolerance >= 0 && o.gradient_tolerance >= 0 && o.parameter_tolerance >= 0 && o.num_threads > 0 &&
         (!o.check_gradients || (o.gradient_check_relative_precision > 0 && o.gradient_check_numeric_derivative_relative_step_size > 0)) &&
         (o.minimizer_type == LINE_SEARCH || TrustRegionAllowed(o)) && LineSearchAllowed(o);
}

// ---- a small, well posed problem ------------------------------------------------
// Blocks 0 and 1 can be eliminated; 3 is a constant one.
Model Small(bool curved) {
  Model m;
  for (int s : {1, 2, 2, 1}) {
    nls::Block b;
    b.size = s;
    for (int j = 0; j < s; ++j) b.x.push_back(j + s - 1 + (m.blocks.size() == 3));
    m.blocks.push_back(b);
  }
  m.blocks[3].constant = true;
  m.res = {{{0, 2}, 3}, {{1, 2}, 4}, {{2}, 3}, {{3, 1}, 2}};
  for (size_t i = 0; i < m.res.size(); ++i) m.res[i].linear = !curved || i != 2, m.res[i].salt = static_cast<int>(2 * i);
  return m;
}
Solver::Options Base() {
  Solver::Options o;
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.logging_type = SILENT;
  o.max_num_iterations = 200;
  o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 1e-13;
  return o;
}
string Describe(const Solver::Options& o) {
  std::ostringstream s;
  s << LinearSolverTypeToString(o.linear_solver_type) << " " << PreconditionerTypeToString(o.preconditioner_type) << " " << SparseLinearAlgebraLibraryTypeToString(o.sparse_linear_algebra_library_type) << " "
    << DenseLinearAlgebraLibraryTypeToString(o.dense_linear_algebra_library_type) << " " << LinearSolverOrderingTypeToString(o.linear_solver_ordering_type) << " "
    << TrustRegionStrategyTypeToString(o.trust_region_strategy_type) << " " << DoglegTypeToString(o.dogleg_type) << " " << VisibilityClusteringTypeToString(o.visibility_clustering_type)
    << (o.dynamic_sparsity ? " dynamic" : "") << (o.use_mixed_precision_solves ? " mixed" : "") << (o.use_explicit_schur_complement ? " explicit" : "") << (o.use_spse_initialization ? " spse" : "")
    << (o.use_inner_iterations ? " inner" : "") << (o.use_nonmonotonic_steps ? " nonmonotonic" : "") << (o.jacobi_scaling ? "" : " unscaled") << (o.check_gradients ? " checking" : "");
  return s.str();
}
double MaxGradient(const World& w) {
  const auto e = w.m.Evaluate(w.x, w.m.AllRows(), {0, 1, 2}, true);
  double g = 0;
  for (double v : e.g) g = std::max(g, std::abs(v));
  return g;
}
double Cost(const World& w) {
  return w.m.Evaluate(w.x, w.m.AllRows(), {0, 1, 2}, true).cost;
}
// Solves, or checks that it is refused.  Returns whether it was allowed.
bool Run(const Solver::Options& o, World& w, Solver::Summary& s) {
  string reason;
  const bool valid = o.IsValid(&reason);
  MC_EXPECT(valid == Allowed(o)) << Describe(o) << (valid ? " is accepted" : " is refused: " + reason);
  MC_EXPECT(valid == reason.empty()) << "reason \"" << reason << "\"";
  mc::Step();
  const double before = Cost(w);
  Solve(o, w.problem.get(), &s);
  if (!valid) {
    MC_EXPECT(s.termination_type == FAILURE && s.message == reason) << "refused with " << TerminationTypeToString(s.termination_type) << " " << s.message << " instead of " << reason;
    MC_EXPECT(w.x == w.m.Start()) << "parameters changed by a solve that was refused";
    MC_EXPECT(!s.IsSolutionUsable()) << "a refused solve has a usable solution";
    for (auto* c : w.costs) (void)c;
  } else {
    const double after = Cost(w);
    MC_EXPECT(after <= before * (1 + 1e-12) || !s.IsSolutionUsable() || o.use_nonmonotonic_steps) << Describe(o) << ": cost " << after << " after, " << before << " before";
    MC_EXPECT(w.x[3] == w.m.blocks[3].x) << "a constant block moved";
    const string full = s.FullReport();
    MC_EXPECT(!full.empty() && !s.BriefReport().empty() && !s.message.empty()) << "reports";
    if (o.minimizer_type == TRUST_REGION && s.termination_type != FAILURE) {
      MC_EXPECT(full.find(LinearSolverTypeToString(s.linear_solver_type_used)) != string::npos) << "the report does not name the linear solver: " << full;
      MC_EXPECT(s.linear_solver_type_given == o.linear_solver_type && s.preconditioner_type_given == o.preconditioner_type) << "given options in the summary";
    }
  }
  return valid;
}

MC_SCENARIO(TrustRegionEnums, .split = 6, .weight = 8) {
  Solver::Options o = Base();
  o.linear_solver_type = static_cast<LinearSolverType>(mc::Choose(7, "linear solver"));
  o.preconditioner_type = static_cast<PreconditionerType>(mc::Choose(7, "preconditioner"));
  o.sparse_linear_algebra_library_type = static_cast<SparseLinearAlgebraLibraryType>(mc::Choose(5, "sparse library"));
  o.dense_linear_algebra_library_type = static_cast<DenseLinearAlgebraLibraryType>(mc::Choose(3, "dense library"));
  const int strategy = mc::Choose(3, "strategy");
  o.trust_region_strategy_type = strategy ? DOGLEG : LEVENBERG_MARQUARDT;
  o.dogleg_type = strategy == 2 ? SUBSPACE_DOGLEG : TRADITIONAL_DOGLEG;
  o.linear_solver_ordering_type = mc::Flip("ordering type") ? NESDIS : AMD;
  o.dynamic_sparsity = mc::Flip("dynamic sparsity");
  o.use_mixed_precision_solves = mc::Flip("mixed precision");
  if (o.use_mixed_precision_solves) o.max_num_refinement_iterations = 3;
  o.use_explicit_schur_complement = mc::Flip("explicit Schur complement");
  o.use_spse_initialization = mc::Flip("initialised by power series");
  if (Clusters(o.preconditioner_type)) o.visibility_clustering_type = mc::Flip("single linkage") ? SINGLE_LINKAGE : CANONICAL_VIEWS;
  const bool subset = o.preconditioner_type == SUBSET && mc::Flip("subset");
  const int ordering = mc::Choose(4, "no ordering, given, first group constant, several groups");
  if (mc::Skipping()) return;
  World w(Small(false));
  if (subset) o.residual_blocks_for_subset_preconditioner = {w.ids[0], w.ids[1], w.ids[2]};
  if (ordering) {
    o.linear_solver_ordering = std::make_shared<ParameterBlockOrdering>();
    for (int b = 0; b < 4; ++b) o.linear_solver_ordering->AddElementToGroup(w.x[b].data(), ordering == 1 ? b == 2 || b == 3 : ordering == 2 ? b != 3 : b + 1);
  }
  Solver::Summary s;
  const bool ok = Run(o, w, s);
  if (ok) {
    mc::Cover("accepted");
    MC_EXPECT(s.termination_type != FAILURE && s.IsSolutionUsable()) << Describe(o) << ": " << s.message;
    const double g = MaxGradient(w);
    MC_EXPECT(g < 1e-4) << Describe(o) << ": gradient " << g << " at the solution: " << s.message;
    // The solver that was asked for, unless nothing is left to eliminate.
    if (!(ordering == 2 && Schur(o.linear_solver_type)))
      MC_EXPECT(s.linear_solver_type_used == o.linear_solver_type && s.preconditioner_type_used == o.preconditioner_type) << Describe(o) << " became " << LinearSolverTypeToString(s.linear_solver_type_used);
    else
      MC_EXPECT(!Schur(s.linear_solver_type_used)) << Describe(o) << " used " << LinearSolverTypeToString(s.linear_solver_type_used);
  } else {
    mc::Cover("refused");
  }
  mc::H h;
  h(static_cast<int>(o.linear_solver_type))(static_cast<int>(o.preconditioner_type))(static_cast<int>(o.sparse_linear_algebra_library_type))(static_cast<int>(o.dense_linear_algebra_library_type))(strategy)(
      o.linear_solver_ordering_type == AMD)(o.dynamic_sparsity)(o.use_mixed_precision_solves)(o.use_explicit_schur_complement)(o.use_spse_initialization)(ordering)(subset);
  mc::State(h.h);
  mc::Outcome(mc::H()(ok)(s.num_linear_solves)(s.message.substr(0, 40)).h);
}

// The other switches with every accepted linear solver.
MC_SCENARIO(TrustRegionSwitches, .split = 6, .weight = 4) {
  Solver::Options o = Base();
  const bool curved = mc::Flip("nonlinear");
  o.linear_solver_type = static_cast<LinearSolverType>(mc::Choose(7, "linear solver"));
  o.preconditioner_type = static_cast<PreconditionerType>(mc::Choose(7, "preconditioner"));
  if (!Iterative(o.linear_solver_type) && o.preconditioner_type != JACOBI) return;
  const int strategy = mc::Choose(3, "strategy");
  o.trust_region_strategy_type = strategy ? DOGLEG : LEVENBERG_MARQUARDT;
  o.dogleg_type = strategy == 2 ? SUBSPACE_DOGLEG : TRADITIONAL_DOGLEG;
  o.use_inner_iterations = mc::Flip("inner iterations");
  o.use_nonmonotonic_steps = mc::Flip("nonmonotonic");
  o.jacobi_scaling = !mc::Flip("unscaled");
  o.check_gradients = mc::Flip("check gradients");
  o.update_state_every_iteration = mc::Flip("update state");
  const bool callback = mc::Flip("evaluation callback");
  const int bounds = mc::Choose(2, "bounds");
  const int line_search_iterations = bounds ? mc::Pick({20, 0}, "line search iterations") : 20;
  const bool mixed = mc::Flip("mixed precision");
  if (mc::Skipping()) return;
  struct Callback : EvaluationCallback {
    int calls = 0;
    void PrepareForEvaluation(bool, bool) override { ++calls; }
  } cb;
  Problem::Options po;
  if (callback) po.evaluation_callback = &cb;
  Model m = Small(curved);
  if (bounds) m.blocks[0].lo = {-100}, m.blocks[0].hi = {100};
  World w(m, po);
  o.use_mixed_precision_solves = mixed;
  o.max_num_refinement_iterations = mixed ? 2 : 0;
  o.max_num_line_search_step_size_iterations = line_search_iterations;
  o.residual_blocks_for_subset_preconditioner = {w.ids[0], w.ids[1], w.ids[2]};
  Solver::Summary s;
  const bool ok = Run(o, w, s);
  if (ok && callback && o.use_inner_iterations) {
    MC_EXPECT(s.termination_type == FAILURE && !s.message.empty() && w.x == m.Start()) << "inner iterations with an evaluation callback: " << s.message;
  } else if (ok) {
    MC_EXPECT(s.IsSolutionUsable()) << Describe(o) << ": " << s.message;
    MC_EXPECT(!callback || cb.calls > 0) << "the evaluation callback was not called";
    const double g = MaxGradient(w);
    MC_EXPECT(g < 1e-3) << Describe(o) << (curved ? " curved" : "") << (bounds ? " bounds" : "") << ": gradient " << g << " at the solution: " << s.message;
  }
  mc::H h;
  h(curved)(static_cast<int>(o.linear_solver_type))(static_cast<int>(o.preconditioner_type))(strategy)(o.use_inner_iterations)(o.use_nonmonotonic_steps)(o.jacobi_scaling)(o.check_gradients)(
      o.update_state_every_iteration)(callback)(bounds)(line_search_iterations)(mixed);
  mc::State(h.h);
  mc::Outcome(mc::H()(ok)(s.num_linear_solves)(s.num_residual_evaluations).h);
}

MC_SCENARIO(LineSearchEnums, .split = 5, .weight = 2) {
  Solver::Options o = Base();
  o.minimizer_type = LINE_SEARCH;
  const bool curved = mc::Flip("nonlinear");
  o.line_search_direction_type = static_cast<LineSearchDirectionType>(mc::Choose(4, "direction"));
  o.line_search_type = static_cast<LineSearchType>(mc::Choose(2, "line search"));
  o.line_search_interpolation_type = static_cast<LineSearchInterpolationType>(mc::Choose(3, "interpolation"));
  o.nonlinear_conjugate_gradient_type = static_cast<NonlinearConjugateGradientType>(mc::Choose(3, "conjugate gradient"));
  o.use_approximate_eigenvalue_bfgs_scaling = mc::Flip("scaling");
  o.max_lbfgs_rank = mc::Pick({20, 1, 2}, "rank");
  o.max_num_line_search_direction_restarts = mc::Pick({5, 0, -1}, "restarts");
  o.check_gradients = mc::Flip("check gradients");
  // Everything about linear solvers is irrelevant here.
  const int irrelevant = mc::Choose(2, "options of the other minimizer");
  const bool bounds = mc::Flip("bounds");
  if (mc::Skipping()) return;
  if (irrelevant) {
    o.linear_solver_type = CGNR;
    o.preconditioner_type = CLUSTER_JACOBI;
    o.trust_region_strategy_type = DOGLEG;
    o.sparse_linear_algebra_library_type = NO_SPARSE;
    o.dense_linear_algebra_library_type = CUDA;
    o.initial_trust_region_radius = -1;
    o.eta = vu::NaN();
  }
  // A small change of the cost does not imply a small gradient.
  o.function_tolerance = o.parameter_tolerance = 0;
  o.max_num_iterations = 500;
  Model m = Small(curved);
  if (bounds) m.blocks[0].lo = {-100};
  World w(m);
  Solver::Summary s;
  const bool ok = Run(o, w, s);
  if (ok && bounds) {
    MC_EXPECT(s.termination_type == FAILURE && !s.message.empty() && w.x == m.Start()) << "line search with bounds: " << s.message;
  } else if (ok) {
    const double g = MaxGradient(w);
    const bool converged = s.termination_type == CONVERGENCE;
    mc::Cover(converged ? "converged" : "not converged");
    // At the minimum no step may be left that decreases the cost measurably.
    MC_EXPECT(s.IsSolutionUsable() || s.iterations.back().gradient_max_norm < 1e-3) << "line search fails: " << s.message;
    MC_EXPECT(g < 1e-3 || !converged) << LineSearchDirectionTypeToString(o.line_search_direction_type) << " " << LineSearchTypeToString(o.line_search_type) << " "
                        << LineSearchInterpolationTypeToString(o.line_search_interpolation_type) << " " << NonlinearConjugateGradientTypeToString(o.nonlinear_conjugate_gradient_type) << ": gradient " << g << ": "
                        << s.message;
  }
  mc::H h;
  h(curved)(static_cast<int>(o.line_search_direction_type))(static_cast<int>(o.line_search_type))(static_cast<int>(o.line_search_interpolation_type))(static_cast<int>(o.nonlinear_conjugate_gradient_type))(
      o.use_approximate_eigenvalue_bfgs_scaling)(o.max_lbfgs_rank)(o.max_num_line_search_direction_restarts)(o.check_gradients)(irrelevant)(bounds);
  mc::State(h.h);
  mc::Outcome(mc::H()(ok)(s.num_residual_evaluations)(s.num_line_search_steps).h);
}

// ---- numbers: every two of them together -----------------------------------------
struct Number {
  const char* name;
  std::function<void(Solver::Options&, double)> set;
  vector<double> values;
};
const vector<Number>& Numbers() {
  const double inf = vu::Inf(), nan = vu::NaN();
  static const vector<double> any = {-1, -1e-300, 0, 1e-300, 1e-3, 0.5, 1, 1.5, 1e4, 1e300, inf, -inf, nan}, count = {-2147483648.0, -1, 0, 1, 3};
#define NUMBER(x, v) {#x, [](Solver::Options& o, double d) { o.x = d; }, v}
  static const vector<Number> all = {
      NUMBER(max_num_iterations, count),
      NUMBER(max_solver_time_in_seconds, any),
      NUMBER(function_tolerance, any),
      NUMBER(gradient_tolerance, any),
      NUMBER(parameter_tolerance, any),
      NUMBER(num_threads, (vector<double>{-1, 0, 1})),
      NUMBER(gradient_check_relative_precision, any),
      NUMBER(gradient_check_numeric_derivative_relative_step_size, any),
      NUMBER(initial_trust_region_radius, any),
      NUMBER(min_trust_region_radius, any),
      NUMBER(max_trust_region_radius, any),
      NUMBER(min_relative_decrease, any),
      NUMBER(min_lm_diagonal, any),
      NUMBER(max_lm_diagonal, any),
      NUMBER(max_num_consecutive_invalid_steps, count),
      NUMBER(eta, any),
      NUMBER(min_linear_solver_iterations, count),
      NUMBER(max_linear_solver_iterations, count),
      NUMBER(inner_iteration_tolerance, any),
      NUMBER(max_consecutive_nonmonotonic_steps, count),
      NUMBER(max_lbfgs_rank, count),
      NUMBER(min_line_search_step_size, any),
      NUMBER(max_line_search_step_contraction, any),
      NUMBER(min_line_search_step_contraction, any),
      NUMBER(max_num_line_search_step_size_iterations, count),
      NUMBER(max_num_line_search_direction_restarts, count),
      NUMBER(line_search_sufficient_function_decrease, any),
      NUMBER(line_search_sufficient_curvature_decrease, any),
      NUMBER(max_line_search_step_expansion, any),
      NUMBER(max_num_spse_iterations, count),
      NUMBER(spse_tolerance, any),
      NUMBER(max_num_refinement_iterations, count),
  };
#undef NUMBER
  return all;
}
MC_SCENARIO(Numbers2, .split = 4, .weight = 8) {
  const int n = Numbers().size();
  Solver::Options o = Base();
  // Which parts are in use.
  const int mode = mc::Choose(6, "Levenberg-Marquardt, dogleg, iterative, power series, line search, everything on");
  const int a = mc::Choose(n, "first number"), b = mc::Range(a, n - 1, "second number");
  const double va = mc::Pick(Numbers()[a].values, "first value"), vb = a == b ? va : mc::Pick(Numbers()[b].values, "second value");
  if (mc::Skipping()) return;
  // Without a limit on the number of iterations or time the end may be far.
  o.max_num_iterations = 30;
  o.linear_solver_type = mode == 2 ? CGNR : mode == 3 ? ITERATIVE_SCHUR : mode == 5 ? DENSE_SCHUR : DENSE_QR;
  if (mode == 1) o.trust_region_strategy_type = DOGLEG;
  if (mode == 3) o.preconditioner_type = SCHUR_POWER_SERIES_EXPANSION, o.use_spse_initialization = true;
  if (mode == 4) o.minimizer_type = LINE_SEARCH;
  if (mode == 5) o.check_gradients = o.use_inner_iterations = o.use_nonmonotonic_steps = o.use_mixed_precision_solves = true;
  Numbers()[a].set(o, va);
  if (b != a) Numbers()[b].set(o, vb);
  // Nonmonotonic steps need a curved problem to matter; the others converge at once.
  Model m = Small(mode != 0);
  if (mode == 5) m.blocks[0].lo = {-100};
  World w(m);
  Solver::Summary s;
  const bool ok = Run(o, w, s);
  const string at = string(Numbers()[a].name) + " = " + std::to_string(va) + ", " + Numbers()[b].name + " = " + std::to_string(vb);
  if (mc::Failed()) mc::Note(at);
  if (ok) {
    MC_EXPECT(static_cast<int>(s.iterations.size()) <= o.max_num_iterations + 1) << at << ": " << s.iterations.size() << " iterations";
    MC_EXPECT(s.final_cost <= s.initial_cost || s.final_cost == -1) << at << ": final cost " << s.final_cost << ", initial cost " << s.initial_cost;
    for (auto& x : w.x) for (double v : x) MC_EXPECT(std::isfinite(v)) << at << ": a parameter becomes " << v;
  }
  mc::State(mc::H()(mode)(a)(b)(va)(vb).h);
  mc::Outcome(mc::H()(ok)(static_cast<int>(s.termination_type))(s.num_residual_evaluations).h);
}

// ---- names -----------------------------------------------------------------------
struct Table {
  const char* name;
  int count;
  std::function<string(int)> to;
  std::function<int(const string&, bool*)> from;  // null: no such function
};
template <typename E>
Table T(const char* name, int count, const char* (*to)(E), bool (*from)(string, E*)) {
  return {name, count, [to](int v) { return string(to(static_cast<E>(v))); },
          from ? std::function<int(const string&, bool*)>([from](const string& s, bool* ok) {
            static_assert(sizeof(E) == sizeof(int));
            E e;
            int raw = 77;  // not an enumerator
            memcpy(&e, &raw, sizeof raw);
            *ok = from(s, &e);
            memcpy(&raw, &e, sizeof raw);
            return raw;
          })
               : std::function<int(const string&, bool*)>()};
}
const vector<Table>& Tables() {
#define TABLE(E, last) T<E>(#E, last + 1, &E##ToString, &StringTo##E)
  static const vector<Table> t = {
      TABLE(LinearSolverType, CGNR),
      TABLE(PreconditionerType, SUBSET),
      TABLE(SparseLinearAlgebraLibraryType, NO_SPARSE),
      TABLE(LinearSolverOrderingType, NESDIS),
      TABLE(DenseLinearAlgebraLibraryType, CUDA),
      TABLE(TrustRegionStrategyType, DOGLEG),
      TABLE(DoglegType, SUBSPACE_DOGLEG),
      TABLE(MinimizerType, TRUST_REGION),
      TABLE(LineSearchDirectionType, BFGS),
      TABLE(LineSearchType, WOLFE),
      TABLE(LineSearchInterpolationType, CUBIC),
      TABLE(NonlinearConjugateGradientType, HESTENES_STIEFEL),
      TABLE(CovarianceAlgorithmType, SPARSE_QR),
      TABLE(NumericDiffMethodType, RIDDERS),
      TABLE(VisibilityClusteringType, SINGLE_LINKAGE),
      TABLE(LoggingType, PER_MINIMIZER_ITERATION),
      TABLE(DumpFormatType, TEXTFILE),
      T<TerminationType>("TerminationType", USER_FAILURE + 1, &TerminationTypeToString, nullptr),
  };
#undef TABLE
  return t;
}
// The declared names, in order; a guard against values moving.
const vector<vector<string>>& Names() {
  static const vector<vector<string>> n = {
      {"DENSE_NORMAL_CHOLESKY", "DENSE_QR", "SPARSE_NORMAL_CHOLESKY", "DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR"},
      {"IDENTITY", "JACOBI", "SCHUR_JACOBI", "SCHUR_POWER_SERIES_EXPANSION", "CLUSTER_JACOBI", "CLUSTER_TRIDIAGONAL", "SUBSET"},
      {"SUITE_SPARSE", "EIGEN_SPARSE", "ACCELERATE_SPARSE", "CUDA_SPARSE", "NO_SPARSE"},
      {"AMD", "NESDIS"},
      {"EIGEN", "LAPACK", "CUDA"},
      {"LEVENBERG_MARQUARDT", "DOGLEG"},
      {"TRADITIONAL_DOGLEG", "SUBSPACE_DOGLEG"},
      {"LINE_SEARCH", "TRUST_REGION"},
      {"STEEPEST_DESCENT", "NONLINEAR_CONJUGATE_GRADIENT", "LBFGS", "BFGS"},
      {"ARMIJO", "WOLFE"},
      {"BISECTION", "QUADRATIC", "CUBIC"},
      {"FLETCHER_REEVES", "POLAK_RIBIERE", "HESTENES_STIEFEL"},
      {"DENSE_SVD", "SPARSE_QR"},
      {"CENTRAL", "FORWARD", "RIDDERS"},
      {"CANONICAL_VIEWS", "SINGLE_LINKAGE"},
      {"SILENT", "PER_MINIMIZER_ITERATION"},
      {"CONSOLE", "TEXTFILE"},
      {"CONVERGENCE", "NO_CONVERGENCE", "FAILURE", "USER_SUCCESS", "USER_FAILURE"},
  };
  return n;
}
MC_SCENARIO(EnumNames, .split = 2) {
  const int t = mc::Choose(static_cast<int>(Tables().size()), "type");
  const Table& table = Tables()[t];
  // Any name of any type, in upper, lower and mixed case, with something added or missing.
  const int u = mc::Choose(static_cast<int>(Names().size()), "type of the name");
  const int v = mc::Choose(static_cast<int>(Names()[u].size()), "name");
  const int change = mc::Choose(8, "upper, lower, mixed, longer, shorter, spaces, first letter, empty");
  if (mc::Skipping()) return;
  const string name = Names()[u][v];
  if (u == t && change == 0) {
    MC_EXPECT(static_cast<int>(Names()[t].size()) == table.count) << table.name << " has " << table.count << " values";
    MC_EXPECT(table.to(v) == name) << table.name << " " << v << " is called " << table.to(v) << " instead of " << name;
    MC_EXPECT(table.to(table.count) == "UNKNOWN" && table.to(-1) == "UNKNOWN") << table.name << ": a value out of range is called " << table.to(table.count);
    for (int w = 0; w < v; ++w) MC_EXPECT(table.to(w) != table.to(v)) << table.name << ": two values are called " << name;
  }
  if (!table.from) return;
  string s = name;
  if (change == 1) for (auto& c : s) c = std::tolower(c);
  if (change == 2) for (size_t i = 0; i < s.size(); i += 2) s[i] = std::tolower(s[i]);
  if (change == 3) s += "X";
  if (change == 4) s.pop_back();
  if (change == 5) s = " " + s;
  if (change == 6) s[0] = s[0] == 'Q' ? 'Z' : 'Q';
  if (change == 7) s.clear();
  int want = 77;
  string upper = s;
  for (auto& c : upper) c = std::toupper(c);
  for (size_t k = 0; k < Names()[t].size(); ++k) if (Names()[t][k] == upper) want = static_cast<int>(k);
  bool ok = false;
  const int got = table.from(s, &ok);
  MC_EXPECT(ok == (want != 77) && got == want) << table.name << ": \"" << s << "\" gives " << got << (ok ? "" : " (refused)");
  mc::State(mc::H()(t)(s).h);
  mc::Outcome(mc::H()(t)(got).h);
}
}  // namespace
