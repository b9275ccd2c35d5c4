// C09: solves touch only what is variable, respect bounds and manifolds at every
// evaluation, and account for fixed costs.
#include "ceres/solver.h"
#include "ceres/sphere_manifold.h"
#include "nls.h"

namespace {
using namespace nls;
using ceres::Solver;

enum Kind {
  kVariable, kConstant, kSubset, kAllFixed, kSphere, kLowerInside, kBoxActive, kOutside,
  kConstantInBox, kSubsetInBox, kUnusedOutside,
  kGoodKinds,
  kConstantOutside = kGoodKinds, kEmptyBox, kPointBox, kNanStart, kInfConstant, kUnsetStart,
  kNumKinds
};
bool Bad(int k) { return k >= kGoodKinds; }
bool Bounded(int k) { return k == kLowerInside || k == kBoxActive || k == kOutside || k == kSubsetInBox || k == kEmptyBox || k == kPointBox; }

// Solver configurations.
constexpr int kTrust = 14, kAll = 19;
Solver::Options Config(int n) {
  Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.linear_solver_type = ceres::DENSE_QR;
  o.max_num_iterations = mc::Bound(4, 12);
  switch (n) {
    case 0: break;
    case 1: o.linear_solver_type = ceres::DENSE_NORMAL_CHOLESKY; break;
    case 2: o.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY; break;
    case 3: o.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY; o.dynamic_sparsity = true; break;
    case 4: o.linear_solver_type = ceres::DENSE_SCHUR; break;
    case 5: o.linear_solver_type = ceres::SPARSE_SCHUR; break;
    case 6: o.linear_solver_type = ceres::ITERATIVE_SCHUR; o.preconditioner_type = ceres::SCHUR_JACOBI; break;
    case 7: o.linear_solver_type = ceres::ITERATIVE_SCHUR; o.use_explicit_schur_complement = true; o.preconditioner_type = ceres::SCHUR_JACOBI; break;
    case 8: o.linear_solver_type = ceres::CGNR; break;
    case 9: o.trust_region_strategy_type = ceres::DOGLEG; break;
    case 10: o.trust_region_strategy_type = ceres::DOGLEG; o.dogleg_type = ceres::SUBSPACE_DOGLEG; break;
    case 11: o.use_nonmonotonic_steps = true; break;
    case 12: o.use_inner_iterations = true; break;
    case 13: o.use_inner_iterations = true; o.linear_solver_type = ceres::DENSE_SCHUR; o.update_state_every_iteration = true; break;
    default:
      o.minimizer_type = ceres::LINE_SEARCH;
      if (n == 15) o.line_search_direction_type = ceres::STEEPEST_DESCENT;
      if (n == 16) o.line_search_direction_type = ceres::NONLINEAR_CONJUGATE_GRADIENT;
      if (n == 17) o.line_search_direction_type = ceres::BFGS;
      if (n == 18) { o.line_search_direction_type = ceres::STEEPEST_DESCENT; o.line_search_type = ceres::ARMIJO; }
  }
  return o;
}

// 3 blocks, residual structures over them.
std::vector<Res> Structure(int s) {
  switch (s) {
    case 0: return {{{0, 1}, 2, 1}, {{1, 2}, 2, 3}, {{2}, 1, 2}, {{0}, 2, 5}};
    case 1: return {{{0, 1, 2}, 3, 1}, {{1}, 1, 2, true}, {{2, 0}, 2, 4}};
    default: return {{{0}, 2, 1}, {{2, 0}, 3, 3, false, kConcave}};  // block 1 unused
  }
}

// `shape` rotates which block has which size.
void Run(int cfg, const std::vector<int>& kinds, int structure, bool twice, int shape) {
  const int all_sizes[3] = {2, 1, 3};
  const double all_start[3][3] = {{1, -2, 0}, {0.5, 0, 0}, {0.6, 0, 0.8}};
  int sizes[3];
  const double* start[3];
  for (int b = 0; b < 3; ++b) { sizes[b] = all_sizes[(b + shape) % 3]; start[b] = all_start[(b + shape) % 3]; }
  // All blocks live in one array with guards in between.
  std::vector<double> mem(16, 77.125);
  int at = 1;
  Model m;
  double* ptr[3];
  for (int b = 0; b < 3; ++b) {
    Block k;
    k.size = sizes[b];
    k.x.assign(start[b], start[b] + k.size);
    const int kind = kinds[b];
    k.constant = kind == kConstant || kind == kConstantInBox || kind == kConstantOutside || kind == kInfConstant || kind == kUnusedOutside;
    if (kind == kSubset || kind == kSubsetInBox) k.manifold = k.size > 1 ? kFixFirst : kFixAll;
    if (kind == kAllFixed) k.manifold = kFixAll;
    const double v = k.x.back();
    k.lo.assign(k.size, -kMax);
    k.hi.assign(k.size, kMax);
    switch (kind) {
      case kLowerInside: k.lo.back() = v - 0.125; break;
      case kBoxActive: k.lo.back() = v - 0.0625; k.hi.back() = v; k.hi[0] = std::max(k.hi[0] == kMax ? k.x[0] + 0.25 : k.hi[0], k.x[0]); break;
      case kOutside: k.lo[0] = k.x[0] + 0.5; k.hi[0] = k.lo[0] + 1; break;
      case kConstantInBox: k.lo.back() = v; k.hi.back() = v; break;  // a constant may sit on both ends
      case kSubsetInBox: k.lo.assign(k.size, -2.0625); k.hi.assign(k.size, 1.0625); break;
      case kConstantOutside: k.hi.back() = v - 0.25; break;
      case kEmptyBox: k.lo.back() = v + 1; k.hi.back() = v - 1; break;
      case kPointBox: k.lo.back() = v; k.hi.back() = v; break;
      case kNanStart: k.x.back() = vu::NaN(); break;
      case kInfConstant: k.x.back() = -vu::Inf(); break;
      case kUnsetStart: k.x.back() = 1e302; break;  // the library's "not set" marker
    }
    if (kind == kUnusedOutside) { k.constant = false; k.lo.assign(k.size, -kMax); k.hi.assign(k.size, kMax); }
    std::copy(k.x.begin(), k.x.end(), &mem[at]);
    ptr[b] = &mem[at];
    at += k.size + 2;
    m.blocks.push_back(k);
  }
  // kUnusedOutside: a variable block no residual uses, with a start outside its bounds.
  m.res = Structure(structure);
  for (size_t i = 0; i < m.res.size();) {
    bool drop = false;
    for (int b : m.res[i].blocks) drop = drop || kinds[b] == kUnusedOutside;
    if (drop) m.res.erase(m.res.begin() + i); else ++i;
  }
  for (int b = 0; b < 3; ++b) if (kinds[b] == kUnusedOutside) { m.blocks[b].lo[0] = m.blocks[b].x[0] + 1; }

  ceres::Problem::Options po;
  po.cost_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
  ceres::Problem problem(po);
  for (int b = 0; b < 3; ++b) {
    const Block& k = m.blocks[b];
    problem.AddParameterBlock(ptr[b], k.size);
    if (k.constant) problem.SetParameterBlockConstant(ptr[b]);
    std::vector<int> all;
    for (int i = 0; i < k.size; ++i) all.push_back(i);
    if (k.manifold == kFixFirst) problem.SetManifold(ptr[b], new ceres::SubsetManifold(k.size, {0}));
    if (k.manifold == kFixAll) problem.SetManifold(ptr[b], new ceres::SubsetManifold(k.size, all));
    if (kinds[b] == kSphere) {
      if (k.size != 3) return mc::Trivial();  // only the unit block of size 3
      problem.SetManifold(ptr[b], new ceres::SphereManifold<3>);
    }
    for (int i = 0; i < k.size; ++i) {
      if (k.lo[i] != -kMax) problem.SetParameterLowerBound(ptr[b], i, k.lo[i]);
      if (k.hi[i] != kMax) problem.SetParameterUpperBound(ptr[b], i, k.hi[i]);
    }
  }
  std::vector<std::unique_ptr<FCost>> costs;
  std::vector<std::unique_ptr<Loss>> losses;
  for (size_t i = 0; i < m.res.size(); ++i) {
    costs.push_back(std::make_unique<FCost>(m.PolyOf(static_cast<int>(i))));
    std::vector<double*> p;
    for (int b : m.res[i].blocks) p.push_back(ptr[b]);
    problem.AddResidualBlock(costs.back().get(), m.res[i].loss == kNull ? nullptr : new Loss(m.res[i].loss), p.data(), static_cast<int>(p.size()));
  }
  const std::vector<double> before = mem;
  auto inside = [&](int b, const double* v, const char* who) {
    const Block& k = m.blocks[b];
    for (int i = 0; i < k.size; ++i) {
      if (k.Fixed()) MC_EXPECT(std::memcmp(&v[i], &k.x[i], 8) == 0) << who << ": fixed block " << b << " moved to " << v[i];
      else if (kinds[b] != kUnusedOutside) MC_EXPECT(v[i] >= k.lo[i] && v[i] <= k.hi[i]) << who << ": block " << b << "[" << i << "] = " << v[i] << " outside [" << k.lo[i] << ", " << k.hi[i] << "]";
    }
    if (k.manifold == kFixFirst) MC_EXPECT(v[0] == k.x[0]) << who << ": fixed coordinate of block " << b << " is " << v[0];
    if (kinds[b] == kSphere) {
      const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
      MC_EXPECT(std::abs(n - 1) < 1e-9) << who << ": left the sphere, norm " << n;
    }
  };
  int calls = 0;
  for (size_t i = 0; i < costs.size(); ++i)
    costs[i]->hook = [&, i](double const* const* x, double*, double**) {
      ++calls;
      for (size_t k = 0; k < m.res[i].blocks.size(); ++k) inside(m.res[i].blocks[k], x[k], "evaluation");
      return -1;
    };
  auto cost_at = [&](const std::vector<double>& v) {
    std::vector<std::vector<double>> x;
    for (int b = 0; b < 3; ++b) { const double* p = v.data() + (ptr[b] - mem.data()); x.emplace_back(p, p + m.blocks[b].size); }
    double c = 0;
    for (int i : m.AllRows()) c += m.CostOf(i, x, true);
    return c;
  };
  // What must happen.
  bool bad = false, bounded = false;
  for (int b = 0; b < 3; ++b) {
    const bool feasibility = kinds[b] == kConstantOutside || kinds[b] == kEmptyBox || kinds[b] == kPointBox;
    bad |= cfg >= kTrust ? (Bad(kinds[b]) && !feasibility) : Bad(kinds[b]);
    bounded |= Bounded(kinds[b]) && !m.blocks[b].Fixed();
    bounded |= kinds[b] == kUnusedOutside;
  }
  if (cfg >= kTrust) bad |= bounded;
  double fixed_cost = 0, fixed_only = 0;
  int variable_blocks = 0, variable_res = 0, variable_rows = 0;
  {
    std::vector<std::vector<double>> x = m.Start();
    std::vector<bool> used(3, false);
    for (size_t i = 0; i < m.res.size(); ++i) {
      bool fixed = true;
      for (int b : m.res[i].blocks) { fixed &= m.blocks[b].Fixed(); }
      if (fixed) { if (!bad) fixed_cost += m.CostOf(static_cast<int>(i), x, true); fixed_only = 1; continue; }
      ++variable_res;
      variable_rows += m.res[i].m;
      for (int b : m.res[i].blocks) used[b] = used[b] || !m.blocks[b].Fixed();
    }
    for (int b = 0; b < 3; ++b) variable_blocks += used[b];
  }
  std::vector<double> projected = before;
  for (int b = 0; b < 3; ++b)
    if (kinds[b] == kOutside && !m.blocks[b].Fixed()) projected[ptr[b] - mem.data()] = m.blocks[b].lo[0];
  Solver::Options o = Config(cfg);
  if (o.use_inner_iterations) {
    o.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (int b = 0; b < 3; ++b) o.inner_iteration_ordering->AddElementToGroup(ptr[b], 2 - b);
  }
  if (o.linear_solver_type == ceres::DENSE_SCHUR || o.linear_solver_type == ceres::SPARSE_SCHUR || o.linear_solver_type == ceres::ITERATIVE_SCHUR) {
    o.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    // Group 0 must be independent in every structure: block 1 alone.
    for (int b = 0; b < 3; ++b) o.linear_solver_ordering->AddElementToGroup(ptr[b], b == 1 ? 0 : 1);
  }
  Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  mc::Step();
  if (bad) {
    MC_EXPECT(s.termination_type == ceres::FAILURE) << ceres::TerminationTypeToString(s.termination_type) << " " << s.message;
    MC_EXPECT(calls == 0) << "evaluated an impossible start";
    MC_EXPECT(std::memcmp(mem.data(), before.data(), mem.size() * 8) == 0) << "failed but moved";
    MC_EXPECT(!s.message.empty());
    mc::Cover("rejected start");
  } else {
    // Guards and everything not variable.
    std::vector<bool> free(mem.size(), false);
    for (int b = 0; b < 3; ++b)
      if (!m.blocks[b].Fixed())
        for (int i = m.blocks[b].manifold == kFixFirst; i < m.blocks[b].size; ++i) free[ptr[b] - mem.data() + i] = true;
    for (size_t i = 0; i < mem.size(); ++i)
      if (!free[i]) MC_EXPECT(std::memcmp(&mem[i], &before[i], 8) == 0) << "memory at " << i << " changed from " << before[i] << " to " << mem[i];
    for (int b = 0; b < 3; ++b) {
      if (kinds[b] == kUnusedOutside) MC_EXPECT(*ptr[b] == m.blocks[b].x[0]) << "unused block moved";
      else if (s.IsSolutionUsable() && variable_blocks > 0) {
        bool used = false;
        for (auto& r : m.res) for (int q : r.blocks) used |= q == b;
        if (used) inside(b, ptr[b], "result");
        else MC_EXPECT(std::memcmp(ptr[b], m.blocks[b].x.data(), m.blocks[b].size * 8) == 0) << "unused block moved";
      }
    }
    MC_EXPECT(s.IsSolutionUsable()) << ceres::TerminationTypeToString(s.termination_type) << " " << s.message;
    if (s.IsSolutionUsable()) {
      const double c0 = cost_at(projected), c1 = cost_at(mem);
      MC_EXPECT(vu::Near(s.initial_cost, c0, 1e-10)) << "initial cost " << s.initial_cost << " instead of " << c0;
      MC_EXPECT(vu::Near(s.final_cost, c1, 1e-10)) << "final cost " << s.final_cost << " instead of " << c1;
      MC_EXPECT(c1 <= c0 * (1 + 1e-12));
      if (c1 < c0) mc::Cover("improved");
    } else {
      MC_EXPECT(std::memcmp(mem.data(), before.data(), mem.size() * 8) == 0) << "failed but moved";
    }
    MC_EXPECT(vu::Near(s.fixed_cost, fixed_cost, 1e-12)) << "fixed cost " << s.fixed_cost << " instead of " << fixed_cost;
    if (fixed_only) mc::Cover("fixed cost");
    for (auto& it : s.iterations) MC_EXPECT(it.cost >= fixed_cost * (1 - 1e-12));
    MC_EXPECT(s.num_parameter_blocks == 3 && s.num_residual_blocks == static_cast<int>(m.res.size()));
    MC_EXPECT(s.num_parameter_blocks_reduced == variable_blocks && s.num_residual_blocks_reduced == variable_res && s.num_residuals_reduced == variable_rows)
        << s.num_parameter_blocks_reduced << " " << s.num_residual_blocks_reduced << " " << s.num_residuals_reduced;
    if (bounded) mc::Cover("bounds");
  }
  // The problem itself is as before, and points at the user's memory.
  for (int b = 0; b < 3; ++b) {
    MC_EXPECT(problem.IsParameterBlockConstant(ptr[b]) == m.blocks[b].Fixed()) << b;
    for (int i = 0; i < m.blocks[b].size; ++i)
      MC_EXPECT(problem.GetParameterLowerBound(ptr[b], i) == m.blocks[b].lo[i] && problem.GetParameterUpperBound(ptr[b], i) == m.blocks[b].hi[i]);
  }
  for (auto& c : costs) c->hook = nullptr;
  if (!bad) {
    double c = -1;
    MC_EXPECT(problem.Evaluate({}, &c, nullptr, nullptr, nullptr));
    MC_EXPECT(vu::Near(c, cost_at(mem), 1e-12)) << "problem evaluates elsewhere: " << c;
    if (twice) {
      const double c1 = cost_at(mem);
      const auto mid = mem;
      Solver::Summary s2;
      ceres::Solve(o, &problem, &s2);
      MC_EXPECT(!s2.IsSolutionUsable() || cost_at(mem) <= c1 * (1 + 1e-12));
      MC_EXPECT(s2.IsSolutionUsable() || mem == mid);
    }
  }
  mc::H h;
  h(static_cast<int>(s.termination_type))(s.final_cost)(s.initial_cost);
  for (double v : mem) h(v);
  mc::Outcome(h.h);
}

MC_SCENARIO(statuses, .split = 3, .weight = 3) {
  const int cfg = mc::Choose(kAll, "solver");
  const int structure = mc::Choose(3, "structure");
  std::vector<int> k(3);
  for (auto& v : k) v = mc::Choose(kGoodKinds, "status");
  Run(cfg, k, structure, true, mc::Choose(3, "shape"));
}
// One impossible block among all companions.
MC_SCENARIO(impossible_starts, .split = 3, .weight = 1) {
  const int cfg = mc::Choose(kAll, "solver");
  const int structure = mc::Choose(3, "structure");
  const int which = mc::Choose(3, "block");
  const int bad = kGoodKinds + mc::Choose(kNumKinds - kGoodKinds, "impossible");
  std::vector<int> k(3);
  for (int b = 0; b < 3; ++b) k[b] = b == which ? bad : mc::Pick({kVariable, kConstant, kOutside}, "status");
  Run(cfg, k, structure, false, mc::Choose(3, "shape"));
}
}  // namespace
