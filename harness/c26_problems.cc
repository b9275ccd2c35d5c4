// C26 (part two): orderings of problems.  Every small problem, and every ordering
// a user might give.
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>

#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
#include "ceres/solver.h"
#include "mc.h"
#include "nls.h"
#include "util.h"

namespace {
namespace ci = ceres::internal;
using nls::Model;
using nls::World;
using std::vector;
using Values = vector<double>;

// Residual blocks over any of the given sets of blocks.
vector<vector<int>> Subsets(int n, int lo, int hi) {
  vector<vector<int>> out;
  for (int mask = 1; mask < 1 << n; ++mask) {
    vector<int> v;
    for (int i = 0; i < n; ++i) if (mask >> i & 1) v.push_back(i);
    if (static_cast<int>(v.size()) >= lo && static_cast<int>(v.size()) <= hi) out.push_back(v);
  }
  return out;
}
struct Prob {
  vector<std::unique_ptr<double[]>> x;
  vector<int> size;
  std::unique_ptr<ci::ProblemImpl> problem;
  vector<ceres::ResidualBlockId> ids;
  vector<vector<int>> sets;
  vector<bool> constant;
  std::map<double*, int> index;
};
struct Nothing : ceres::CostFunction {
  explicit Nothing(vector<int> s, int m) {
    *mutable_parameter_block_sizes() = s;
    set_num_residuals(m);
  }
  bool Evaluate(double const* const*, double*, double**) const override { return true; }
};
// Blocks in user order; residual sets may run in any direction.
Prob Build(int n, const vector<vector<int>>& sets, const vector<bool>& constant) {
  Prob p;
  p.sets = sets;
  p.constant = constant;
  p.problem = std::make_unique<ci::ProblemImpl>();
  // Addresses run against the order of the blocks.
  double* base = new double[16]();
  p.x.emplace_back(base);
  vector<double*> ptr;
  for (int b = 0; b < n; ++b) {
    ptr.push_back(base + 3 * (n - 1 - b));
    p.size.push_back(1 + b % 2);
    p.index[ptr[b]] = b;
    p.problem->AddParameterBlock(ptr[b], p.size[b]);
    if (constant[b]) p.problem->SetParameterBlockConstant(ptr[b]);
  }
  for (size_t i = 0; i < sets.size(); ++i) {
    vector<int> s;
    vector<double*> q;
    for (int b : sets[i]) s.push_back(p.size[b]), q.push_back(ptr[b]);
    if (i % 2) std::reverse(s.begin(), s.end()), std::reverse(q.begin(), q.end());
    p.ids.push_back(p.problem->AddResidualBlock(new Nothing(s, 1 + i % 2), nullptr, q.data(), static_cast<int>(q.size())));
  }
  return p;
}
double* Ptr(const Prob& p, int b) {
  for (auto& e : p.index) if (e.second == b) return e.first;
  return nullptr;
}
Prob AnyProblem(int max_blocks, int max_residuals, bool constants) {
  const int n = mc::Range(1, max_blocks, "blocks");
  const auto all = Subsets(n, 1, 3);
  const int m = mc::Range(0, max_residuals, "residual blocks");
  vector<vector<int>> sets;
  int last = 0;
  for (int i = 0; i < m; ++i) {
    last = mc::Range(last, static_cast<int>(all.size()) - 1, "blocks of the residual");
    sets.push_back(all[last]);
  }
  vector<bool> constant(n);
  if (constants) for (int b = 0; b < n; ++b) constant[b] = mc::Flip("constant");
  if (mc::Skipping()) return Prob();
  // An order that is not sorted.
  if (sets.size() > 2) std::rotate(sets.begin(), sets.begin() + 1, sets.end());
  return Build(n, sets, constant);
}
vector<vector<bool>> Hessian(const Prob& p) {
  const int n = p.constant.size();
  vector<vector<bool>> adj(n, vector<bool>(n));
  for (auto& s : p.sets) for (int a : s) for (int b : s) if (a != b && !p.constant[a] && !p.constant[b]) adj[a][b] = true;
  return adj;
}
vector<int> Blocks(const Prob& p, const vector<ci::ParameterBlock*>& v) {
  vector<int> out;
  for (auto* b : v) out.push_back(p.index.at(b->mutable_user_state()));
  return out;
}

MC_SCENARIO(SchurOrderings, .split = 5, .weight = 2) {
  Prob p = AnyProblem(4, mc::Bound(3, 4), true);
  if (mc::Skipping()) return;
  const int n = p.constant.size();
  const auto adj = Hessian(p);
  auto* program = p.problem->mutable_program();
  program->SetParameterOffsetsAndIndex();
  auto graph = ci::CreateHessianGraph(*program);
  const auto& pb = program->parameter_blocks();
  int vary = 0;
  for (int b = 0; b < n; ++b) {
    vary += !p.constant[b];
    auto* block = pb[b];
    MC_EXPECT(graph->vertices().count(block) == !p.constant[b]) << "vertex " << b;
    if (p.constant[b]) continue;
    for (int c = 0; c < n; ++c)
      if (!p.constant[c]) MC_EXPECT(graph->Neighbors(block).count(pb[c]) == adj[b][c]) << "edge " << b << " " << c;
  }
  MC_EXPECT(static_cast<int>(graph->vertices().size()) == vary) << "number of vertices";
  mc::H h;
  for (int stable = 0; stable < 2; ++stable) {
    const std::string at = stable ? "stable Schur ordering" : "Schur ordering";
    vector<ci::ParameterBlock*> ordering = {nullptr};
    const int k = stable ? ci::ComputeStableSchurOrdering(*program, &ordering) : ci::ComputeSchurOrdering(*program, &ordering);
    vector<int> o = Blocks(p, ordering), sorted = o;
    std::sort(sorted.begin(), sorted.end());
    bool all = static_cast<int>(sorted.size()) == n;
    for (int i = 0; i < n && all; ++i) all = sorted[i] == i;
    MC_REQUIRE(all) << at << " " << vu::Str(o, o.size()) << " is not a permutation";
    MC_REQUIRE(k >= (vary > 0) && k <= vary) << at << ": " << k << " eliminated";
    for (int i = 0; i < n; ++i) MC_EXPECT(p.constant[o[i]] == (i >= vary)) << at << ": constant blocks go last";
    for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) MC_EXPECT(!adj[o[i]][o[j]]) << at << ": " << o[i] << " and " << o[j] << " share a residual";
    for (int i = k; i < vary; ++i) {
      bool any = false;
      for (int j = 0; j < k; ++j) any = any || adj[o[i]][o[j]];
      MC_EXPECT(any) << at << ": " << o[i] << " could be eliminated too";
    }
    auto degree = [&](int v) { int d = 0; for (int u = 0; u < n; ++u) d += adj[v][u]; return d; };
    for (int i = 1; i < vary; ++i) {
      if (i == k) continue;
      MC_EXPECT(degree(o[i - 1]) < degree(o[i]) || (degree(o[i - 1]) == degree(o[i]) && (!stable || o[i - 1] < o[i]))) << at << ": order of " << o[i - 1] << " and " << o[i];
    }
    if (stable) h(k)(o);
  }
  mc::State(h.h);
  mc::Outcome(h.h);
}

// Reduced problems: no constants, no unused blocks.
MC_SCENARIO(Reorder, .split = 6, .weight = 4) {
  Prob p = AnyProblem(mc::Bound(4, 4), mc::Bound(4, 5), false);
  if (mc::Skipping()) return;
  const int n = p.constant.size();
  const auto adj = Hessian(p);
  {
    vector<bool> used(n);
    for (auto& s : p.sets) for (int b : s) used[b] = true;
    for (int b = 0; b < n; ++b) if (!used[b]) return;
  }
  auto* program = p.problem->mutable_program();
  program->SetParameterOffsetsAndIndex();
  // Inner iterations: independent sets, covering everything, the first ones last.
  {
    ceres::ParameterBlockOrdering r;
    r.AddElementToGroup(nullptr, 3);
    ci::ComputeRecursiveIndependentSetOrdering(*program, &r);
    auto inner = ci::CoordinateDescentMinimizer::CreateOrdering(*program);
    std::string message;
    MC_EXPECT(ci::CoordinateDescentMinimizer::IsOrderingValid(*program, *inner, &message)) << "default inner iteration ordering is not valid: " << message;
    for (auto* o : {&r, inner.get()}) {
      MC_EXPECT(o->NumElements() == n) << "recursive ordering of " << o->NumElements() << " blocks";
      for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
          if (adj[a][b]) MC_EXPECT(o->GroupId(Ptr(p, a)) != o->GroupId(Ptr(p, b))) << "blocks " << a << " and " << b << " of one group share a residual";
    }
    // Every block of a later set shares a residual with some block of each earlier one.
    for (auto& later : r.group_to_elements())
      for (auto& earlier : r.group_to_elements()) {
        if (earlier.first >= later.first) continue;
        for (double* x : later.second) {
          bool any = false;
          for (double* y : earlier.second) any = any || adj[p.index[x]][p.index[y]];
          MC_EXPECT(any) << "block " << p.index[x] << " fits in an earlier set";
        }
      }
  }
  // The ordering: one group, or any assignment to groups.
  const int kind = mc::Choose(3, "no preference, some groups, others");
  vector<int> group(n, 0);
  if (kind > 0) for (int b = 0; b < n; ++b) group[b] = mc::Choose(kind == 1 ? 2 : 3, "group");
  if (kind == 2 && std::count(group.begin(), group.end(), 2) == 0) return;  // seen above
  const auto solver = mc::Pick({ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR, ceres::ITERATIVE_SCHUR}, "solver");
  ceres::ParameterBlockOrdering ordering;
  for (int b = 0; b < n; ++b) ordering.AddElementToGroup(Ptr(p, b), 1 + 2 * group[b]);
  const auto before = program->residual_blocks();
  const int first = *std::min_element(group.begin(), group.end());
  const bool one = ordering.NumGroups() == 1;
  bool independent = true;
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (adj[a][b] && group[a] == first && group[b] == first) independent = false;
  std::string error;
  const bool ok = ci::ReorderProgramForSchurTypeLinearSolver(solver, ceres::EIGEN_SPARSE, ceres::AMD, p.problem->parameter_map(), &ordering, program, &error);
  mc::H h;
  h(kind)(ok);
  if (!one && !independent) {
    MC_EXPECT(!ok && !error.empty()) << "a first group that is not independent is accepted";
    mc::Cover("dependent");
    mc::Outcome(h.h);
    return;
  }
  MC_REQUIRE(ok) << "ordering refused: " << error;
  const vector<int> o = Blocks(p, program->parameter_blocks());
  {
    vector<int> sorted = o;
    std::sort(sorted.begin(), sorted.end());
    bool all = static_cast<int>(sorted.size()) == n;
    for (int i = 0; i < n && all; ++i) all = sorted[i] == i;
    MC_REQUIRE(all) << "parameter blocks " << vu::Str(o, o.size()) << " are not a permutation";
  }
  MC_REQUIRE(ordering.NumElements() == n) << "the ordering has " << ordering.NumElements() << " elements";
  const int ne = static_cast<int>(ordering.group_to_elements().begin()->second.size());
  vector<int> sizes;
  ci::OrderingToGroupSizes(&ordering, &sizes);
  MC_EXPECT(!sizes.empty() && sizes[0] == ne) << "group sizes";
  if (!one) {
    int e = 0;
    for (int b = 0; b < n; ++b) e += group[b] == first;
    MC_EXPECT(ne == e) << ne << " blocks eliminated instead of the " << e << " given";
  }
  for (int i = 0; i < n; ++i) {
    MC_EXPECT((ordering.GroupId(Ptr(p, o[i])) == ordering.MinNonZeroGroup()) == (i < ne)) << "eliminated blocks are not first: " << vu::Str(o, n);
    MC_EXPECT(program->parameter_blocks()[i]->index() == i) << "index of block " << i;
    for (int j = 0; j < i && i < ne; ++j) MC_EXPECT(!adj[o[i]][o[j]]) << "eliminated blocks " << o[i] << " and " << o[j] << " share a residual";
    if (i > 0 && solver != ceres::SPARSE_SCHUR && !one)
      MC_EXPECT(group[o[i - 1]] < group[o[i]] || (group[o[i - 1]] == group[o[i]] && o[i - 1] < o[i])) << "groups or the order within them are not kept: " << vu::Str(o, n);
  }
  int state = 0, delta = 0;
  for (auto* b : program->parameter_blocks()) {
    MC_EXPECT(b->state_offset() == state && b->delta_offset() == delta) << "offsets";
    state += b->Size();
    delta += b->TangentSize();
  }
  // Residual blocks: the same ones, by eliminated block, the rest last.
  auto after = program->residual_blocks();
  {
    auto a = before, b = after;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    MC_REQUIRE(a == b) << "residual blocks are lost or repeated";
  }
  int last = -1;
  for (auto* r : after) {
    int e = ne;
    for (int k = 0; k < r->NumParameterBlocks(); ++k) e = std::min(e, r->parameter_blocks()[k]->index());
    MC_EXPECT(e >= last) << "residual blocks are not grouped by eliminated block";
    last = e;
  }
  h(o)(ne);
  mc::State(h.h);
  mc::Outcome(h.h);
}

MC_SCENARIO(OtherReorderings, .split = 6, .weight = 2) {
  Prob p = AnyProblem(4, 4, false);
  if (mc::Skipping()) return;
  const int n = p.constant.size(), m = p.sets.size();
  if (m == 0) return;
  auto* program = p.problem->mutable_program();
  program->SetParameterOffsetsAndIndex();
  const auto blocks = program->parameter_blocks();
  const auto residuals = program->residual_blocks();
  const int what = mc::Choose(3, "partition, sparse Cholesky, given ordering");
  mc::H h;
  h(what);
  if (what == 0) {
    std::unordered_set<ceres::ResidualBlockId> bottom;
    for (int i = 0; i < m; ++i) if (mc::Flip("below")) bottom.insert(p.ids[i]);
    const int k = ci::ReorderResidualBlocksByPartition(bottom, program);
    auto after = program->residual_blocks();
    MC_EXPECT(k == m - static_cast<int>(bottom.size())) << "the second part starts at " << k;
    for (int i = 0; i < m; ++i) MC_EXPECT((bottom.count(after[i]) == 1) == (i >= k)) << "residual block " << i << " is on the wrong side";
    auto a = residuals;
    std::sort(a.begin(), a.end());
    std::sort(after.begin(), after.end());
    MC_EXPECT(a == after) << "residual blocks are lost or repeated";
    h(k);
  } else if (what == 1) {
    ceres::ParameterBlockOrdering ordering;
    const int given = mc::Choose(2, "elements");
    for (int b = given; b < n; ++b) ordering.AddElementToGroup(Ptr(p, b), b % 2);
    const int start = mc::Choose(m + 1, "first row block");
    const auto type = mc::Pick({ceres::AMD, ceres::NESDIS}, "type");
    std::string error;
    const bool ok = ci::ReorderProgramForSparseCholesky(ceres::EIGEN_SPARSE, type, ordering, start, program, &error);
    MC_EXPECT(ok == (given == 0) && ok == error.empty()) << "returns " << ok << " " << error;
    auto after = program->parameter_blocks();
    if (!ok) MC_EXPECT(after == blocks) << "refused but changed";
    for (int i = 0; i < n && ok; ++i) MC_EXPECT(after[i]->index() == i) << "index";
    const vector<int> o = Blocks(p, after);
    h(o);
    auto a = blocks;
    std::sort(a.begin(), a.end());
    std::sort(after.begin(), after.end());
    MC_EXPECT(a == after) << "parameter blocks are lost or repeated";
    MC_EXPECT(program->residual_blocks() == residuals) << "residual blocks moved";
  } else {
    ceres::ParameterBlockOrdering ordering;
    double other[2];
    vector<int> group(n);
    int known = 0, unknown = 0;
    for (int b = 0; b < n; ++b) {
      group[b] = mc::Range(-1, 2, "group");
      if (group[b] >= 0) ordering.AddElementToGroup(Ptr(p, b), 5 * group[b]), ++known;
    }
    for (int k = 0; k < 2; ++k) {
      const int g = known == n ? -1 : mc::Range(-1, 0, "unknown pointer");
      if (g >= 0) ordering.AddElementToGroup(other + k, g), ++unknown;
    }
    std::string error;
    const bool ok = ci::ApplyOrdering(p.problem->parameter_map(), ordering, program, &error);
    MC_EXPECT(ok == (known == n && unknown == 0)) << "ordering of " << known << " blocks and " << unknown << " unknown ones: " << ok;
    MC_EXPECT(ok == error.empty()) << "message " << error;
    if (ok) {
      vector<int> want;
      for (int g = 0; g < 3; ++g) for (int b = 0; b < n; ++b) if (group[b] == g) want.push_back(b);
      const vector<int> o = Blocks(p, program->parameter_blocks());
      MC_EXPECT(o == want) << "order " << vu::Str(o, o.size()) << " instead of " << vu::Str(want, n);
      h(o);
    }
    h(ok);
  }
  mc::State(h.h);
  mc::Outcome(h.h);
}

// ---- whole solves ---------------------------------------------------------------
Model LinearModel(int shape) {
  // Well posed, linear.
  Model m;
  for (int b = 0; b < 4; ++b) {
    nls::Block k;
    k.size = 1 + (b == 1);
    for (int j = 0; j < k.size; ++j) k.x.push_back(b + j - 1);
    m.blocks.push_back(k);
  }
  if (shape == 0) m.res = {{{0, 2}, 2}, {{1, 2}, 3}, {{0, 3}, 2}, {{2, 3}, 3}};
  else if (shape == 1) m.res = {{{0, 1, 2, 3}, 6}};
  else m.res = {{{0}, 2}, {{1}, 3}, {{2, 3}, 3}, {{3}, 1}};
  for (size_t i = 0; i < m.res.size(); ++i) m.res[i].linear = true, m.res[i].salt = static_cast<int>(3 * i) + shape;
  return m;
}
struct Kind {
  ceres::LinearSolverType solver;
  ceres::PreconditionerType pre;
};
MC_SCENARIO(SolveWithOrdering, .split = 6, .weight = 6) {
  const int shape = mc::Choose(3, "structure");
  Model m = LinearModel(shape);
  const int n = m.blocks.size();
  const int fixed = mc::Pick({-1, 0, 2}, "constant block");
  if (fixed >= 0) m.blocks[fixed].constant = true;
  const bool inner = mc::Flip("for inner iterations");
  const Kind k = inner ? Kind{ceres::DENSE_QR, ceres::JACOBI}
                       : mc::Pick(vector<Kind>{{ceres::DENSE_SCHUR, ceres::JACOBI}, {ceres::SPARSE_SCHUR, ceres::JACOBI}, {ceres::ITERATIVE_SCHUR, ceres::SCHUR_JACOBI}, {ceres::SPARSE_NORMAL_CHOLESKY, ceres::JACOBI},
                                                 {ceres::DENSE_QR, ceres::JACOBI}, {ceres::CGNR, ceres::SUBSET}, {ceres::CGNR, ceres::JACOBI}}, "solver");
  vector<int> group(n);
  for (int b = 0; b < n; ++b) group[b] = mc::Range(-1, mc::Bound(1, 2), "group");
  const int unknown = mc::Range(-1, 1, "group of an unknown pointer");
  if (mc::Skipping()) return;
  double nobody[1] = {7};
  World w(m);
  auto ordering = std::make_shared<ceres::ParameterBlockOrdering>();
  for (int b = 0; b < n; ++b) if (group[b] >= 0) ordering->AddElementToGroup(w.x[b].data(), group[b]);
  if (unknown >= 0) ordering->AddElementToGroup(nobody, unknown);
  const auto given = ordering->group_to_elements();
  ceres::Solver::Options o;
  o.linear_solver_type = k.solver;
  o.preconditioner_type = k.pre;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.logging_type = ceres::SILENT;
  o.max_num_iterations = 100;
  o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 1e-14;
  o.eta = 1e-10;
  o.max_linear_solver_iterations = 200;
  if (k.pre == ceres::SUBSET) for (auto id : w.ids) o.residual_blocks_for_subset_preconditioner.insert(id);
  if (inner) o.use_inner_iterations = true, o.inner_iteration_ordering = ordering;
  else o.linear_solver_ordering = ordering;
  ceres::Solver::Summary s;
  ceres::Solve(o, w.problem.get(), &s);
  mc::Step();
  // What should have happened.
  auto independent = [&](int g) {
    for (auto& r : m.res) {
      int c = 0;
      for (int b : r.blocks) c += b != fixed && group[b] == g;
      if (c > 1) return false;
    }
    return true;
  };
  int lowest = 99, lowest_left = 99, known = 0, groups = 0;
  for (int b = 0; b < n; ++b) {
    if (group[b] < 0) continue;
    lowest = std::min(lowest, group[b]);
    if (b != fixed) lowest_left = std::min(lowest_left, group[b]), ++known;
  }
  for (int g = 0; g < 3; ++g) {
    bool any = false;
    for (int b = 0; b < n; ++b) any = any || (b != fixed && group[b] == g);
    groups += any;
  }
  const int left = n - (fixed >= 0);
  const bool schur = k.solver == ceres::DENSE_SCHUR || k.solver == ceres::SPARSE_SCHUR || k.solver == ceres::ITERATIVE_SCHUR;
  int want = -1;  // 1 must be solved, 0 must be refused, -1 either
  if (inner) {
    want = unknown < 0;
    for (int g = 0; g < 3; ++g) if (!independent(g)) want = 0;
  } else {
    if (known == left && unknown < 0) want = !schur || groups == 1 || lowest != lowest_left || independent(lowest_left);
    else if (schur && lowest == lowest_left) want = 0;
  }
  const std::string at = std::string(inner ? "inner iteration ordering" : "linear solver ordering") + vu::Str(group, n) + " unknown " + std::to_string(unknown);
  const bool failed = s.termination_type == ceres::FAILURE;
  MC_EXPECT(want < 0 || want == !failed) << at << (failed ? " is refused: " : " is accepted: ") << s.message;
  if (failed) {
    MC_EXPECT(!s.message.empty()) << "no reason";
    MC_EXPECT(w.x == m.Start()) << at << ": refused, but parameters changed";
  } else {
    // The minimum: zero gradient, from the reference model.
    vector<int> cols;
    for (int b = 0; b < n; ++b) if (b != fixed) cols.push_back(b);
    const auto e = m.Evaluate(w.x, m.AllRows(), cols, true);
    for (double g : e.g) MC_EXPECT(std::abs(g) < 1e-5) << at << ": not at the minimum: gradient " << g;
    if (fixed >= 0) MC_EXPECT(w.x[fixed] == m.blocks[fixed].x) << "constant block moved";
    if (!inner) {
      vector<int> sizes;
      for (auto& g : given) sizes.push_back(static_cast<int>(g.second.size()));
      MC_EXPECT(s.linear_solver_ordering_given == sizes) << "sizes of the groups given: " << vu::Str(s.linear_solver_ordering_given, s.linear_solver_ordering_given.size());
    }
  }
  MC_EXPECT(ordering->group_to_elements() == given) << at << ": the user's ordering was changed by the solve";
  MC_EXPECT(nobody[0] == 7) << "unknown memory was written";
  mc::H h;
  h(shape)(fixed)(inner)(static_cast<int>(k.solver))(group)(unknown);
  mc::State(h.h);
  mc::Outcome(mc::H()(failed)(static_cast<int>(s.iterations.size())).h);
}
}  // namespace
