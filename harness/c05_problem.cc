// C05: every query on a Problem agrees with a plain set-based model after every
// sequence of mutations; misuse is fatal.
#include <algorithm>
#include <map>
#include <set>

#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/crs_matrix.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
#include "polyfun.h"

namespace {
using ceres::Problem;
using ceres::ResidualBlockId;

constexpr int kBlocks = 3;
constexpr int kOffset[kBlocks] = {0, 2, 3};  // adjacent in memory
constexpr int kSize[kBlocks] = {2, 1, 2};
constexpr double kMax = std::numeric_limits<double>::max();

// Residual templates: cost function index and the blocks it takes, in order.
struct Template {
  std::vector<int> blocks;
  int m;
  bool loss;
};
const std::vector<Template>& Templates() {
  static const std::vector<Template> t = {
      {{0}, 1, false}, {{1, 0}, 2, true}, {{2, 1}, 1, false}, {{0, 2, 1}, 2, true}, {{1}, 1, true}, {{}, 1, false}};
  return t;
}

struct MBlock {
  bool constant = false;
  int manifold = 0;  // 0 none, 1 subset (tangent size-1), 2 all fixed (tangent 0), 3 euclidean
  double lo[2] = {-kMax, -kMax};
  double hi[2] = {kMax, kMax};
};
struct MRes {
  int templ;
  int cost;
  ResidualBlockId id;
};

struct World {
  double arena[8] = {1, -2, 3, 0.5, -1, 7, 7, 7};
  std::unique_ptr<Problem> problem;
  bool fast;
  std::map<int, MBlock> blocks;
  std::vector<MRes> res;     // insertion order of the live ones
  std::vector<int> porder;   // order in which blocks joined, as last confirmed
  // Owned by the problem.
  ceres::LossFunction* loss;
  std::vector<std::unique_ptr<ceres::CostFunction>> costs;  // two per template
  std::unique_ptr<ceres::Manifold> manifolds[kBlocks][4];
  std::unique_ptr<ceres::LossFunction> loss_owner;

  explicit World(bool fast) : fast(fast) {
    Problem::Options o;
    o.enable_fast_removal = fast;
    o.cost_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    o.loss_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    o.manifold_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    problem = std::make_unique<Problem>(o);
    loss_owner = std::make_unique<ceres::HuberLoss>(1.0);
    loss = loss_owner.get();
    for (size_t t = 0; t < Templates().size(); ++t) {
      for (int k = 0; k < 2; ++k) {
        poly::Poly p;
        for (int b : Templates()[t].blocks) p.sizes.push_back(kSize[b]);
        p.m = Templates()[t].m;
        p.salt = static_cast<int>(t) * 2 + k;
        p.linear = true;
        costs.push_back(std::make_unique<poly::Cost>(p));
      }
    }
    for (int b = 0; b < kBlocks; ++b) {
      std::vector<int> all;
      for (int i = 0; i < kSize[b]; ++i) all.push_back(i);
      manifolds[b][1] = std::make_unique<ceres::SubsetManifold>(kSize[b], std::vector<int>{0});
      manifolds[b][2] = std::make_unique<ceres::SubsetManifold>(kSize[b], all);
      if (kSize[b] == 1) manifolds[b][3] = std::make_unique<ceres::EuclideanManifold<1>>();
      else manifolds[b][3] = std::make_unique<ceres::EuclideanManifold<2>>();
    }
  }
  double* P(int b) { return arena + kOffset[b]; }
  int Tangent(int b) const {
    const int m = blocks.at(b).manifold;
    return m == 1 ? kSize[b] - 1 : m == 2 ? 0 : kSize[b];
  }
  bool Uses(const MRes& r, int b) const {
    const auto& v = Templates()[r.templ].blocks;
    return std::find(v.begin(), v.end(), b) != v.end();
  }
  void Join(int b) {
    if (blocks.emplace(b, MBlock()).second) porder.push_back(b);
  }

  uint64_t Hash() const {
    mc::H h;
    h(fast);
    for (int b : porder) h(b);
    for (const auto& [b, m] : blocks) h(b)(m.constant)(m.manifold).D(m.lo, 2).D(m.hi, 2);
    // Order as the problem stores it matters for later removals.  (With fast
    // removal it depends on a hash of addresses, hence not on the history.)
    std::vector<ResidualBlockId> ids;
    if (!fast) problem->GetResidualBlocks(&ids);
    for (auto id : ids)
      for (const auto& r : res)
        if (r.id == id) h(r.templ)(r.cost);
    for (const auto& r : res) h(r.templ)(r.cost);
    return h.h;
  }

  void Check() {
    Problem& p = *problem;
    MC_EXPECT(p.NumParameterBlocks() == static_cast<int>(blocks.size())) << p.NumParameterBlocks();
    int np = 0, nr = 0;
    for (auto& [b, m] : blocks) np += kSize[b];
    for (auto& r : res) nr += Templates()[r.templ].m;
    MC_EXPECT(p.NumParameters() == np) << p.NumParameters() << " " << np;
    MC_EXPECT(p.NumResidualBlocks() == static_cast<int>(res.size()));
    MC_EXPECT(p.NumResiduals() == nr);
    std::vector<double*> got, want;
    p.GetParameterBlocks(&got);
    for (auto& [b, m] : blocks) want.push_back(P(b));
    std::sort(got.begin(), got.end());
    MC_EXPECT(got == want) << "parameter blocks differ, " << got.size();
    std::vector<ResidualBlockId> rgot, rwant;
    p.GetResidualBlocks(&rgot);
    for (auto& r : res) rwant.push_back(r.id);
    std::sort(rgot.begin(), rgot.end());
    std::sort(rwant.begin(), rwant.end());
    MC_EXPECT(rgot == rwant) << "residual blocks differ " << rgot.size() << " " << rwant.size();
    for (int b = 0; b < kBlocks; ++b) {
      auto it = blocks.find(b);
      MC_EXPECT(p.HasParameterBlock(P(b)) == (it != blocks.end())) << b;
      if (it == blocks.end()) continue;
      const MBlock& m = it->second;
      MC_EXPECT(p.ParameterBlockSize(P(b)) == kSize[b]);
      MC_EXPECT(p.ParameterBlockTangentSize(P(b)) == Tangent(b)) << b << " " << p.ParameterBlockTangentSize(P(b));
      MC_EXPECT(p.IsParameterBlockConstant(P(b)) == (m.constant || Tangent(b) == 0)) << b;
      MC_EXPECT(p.GetManifold(P(b)) == manifolds[b][m.manifold].get()) << b;
      MC_EXPECT(p.HasManifold(P(b)) == (m.manifold != 0)) << b;
      for (int i = 0; i < kSize[b]; ++i) {
        MC_EXPECT(p.GetParameterLowerBound(P(b), i) == m.lo[i]) << b << " " << i << " " << p.GetParameterLowerBound(P(b), i);
        MC_EXPECT(p.GetParameterUpperBound(P(b), i) == m.hi[i]) << b << " " << i << " " << p.GetParameterUpperBound(P(b), i);
      }
      std::vector<ResidualBlockId> dep, dwant;
      p.GetResidualBlocksForParameterBlock(P(b), &dep);
      for (auto& r : res) if (Uses(r, b)) dwant.push_back(r.id);
      std::sort(dep.begin(), dep.end());
      std::sort(dwant.begin(), dwant.end());
      MC_EXPECT(dep == dwant) << "residuals of block " << b << ": " << dep.size() << " instead of " << dwant.size();
    }
    for (auto& r : res) {
      std::vector<double*> pb, pw;
      p.GetParameterBlocksForResidualBlock(r.id, &pb);
      for (int b : Templates()[r.templ].blocks) pw.push_back(P(b));
      MC_EXPECT(pb == pw) << "blocks of residual " << r.templ;
      MC_EXPECT(p.GetCostFunctionForResidualBlock(r.id) == costs[r.cost].get()) << r.templ;
      MC_EXPECT(p.GetLossFunctionForResidualBlock(r.id) == (Templates()[r.templ].loss ? loss : nullptr)) << r.templ;
    }
    mc::State(Hash());
  }

  void Add(int t, int which) {
    std::vector<double*> pb;
    for (int b : Templates()[t].blocks) { pb.push_back(P(b)); Join(b); }
    const int c = t * 2 + which;
    ResidualBlockId id = problem->AddResidualBlock(costs[c].get(), Templates()[t].loss ? loss : nullptr, pb.data(), static_cast<int>(pb.size()));
    for (auto& r : res) MC_EXPECT(r.id != id);
    res.push_back({t, c, id});
  }
  void RemoveBlock(int b) {
    problem->RemoveParameterBlock(P(b));
    blocks.erase(b);
    porder.erase(std::find(porder.begin(), porder.end(), b));
    res.erase(std::remove_if(res.begin(), res.end(), [&](const MRes& r) { return Uses(r, b); }), res.end());
  }
  // Evaluates everything or a chosen subset; the history must not be disturbed.
  void Evaluate(int kind) {
    Problem::EvaluateOptions o;
    std::vector<ResidualBlockId> use;
    for (auto& r : res) use.push_back(r.id);
    if (kind == 1) {  // one parameter block only, residuals reversed
      std::reverse(use.begin(), use.end());
      o.residual_blocks = use;
      o.parameter_blocks = {P(blocks.rbegin()->first)};
    }
    double cost = -1;
    std::vector<double> r, g;
    ceres::CRSMatrix j;
    const bool ok = problem->Evaluate(o, &cost, res.empty() ? nullptr : &r, blocks.empty() ? nullptr : &g, &j);
    MC_EXPECT(ok);
    int nr = 0, nt = 0;
    for (auto& x : res) nr += Templates()[x.templ].m;
    if (kind == 0) { for (auto& [b, m] : blocks) nt += Tangent(b); }  // constant blocks keep zero columns
    else { nt += Tangent(blocks.rbegin()->first); }
    MC_EXPECT(j.num_rows == nr && j.num_cols == nt) << j.num_rows << "x" << j.num_cols << " wanted " << nr << "x" << nt;
  }
  void Solve(ceres::LinearSolverType type) {
    ceres::Solver::Options o;
    o.linear_solver_type = type;
    o.max_num_iterations = 1;
    o.logging_type = ceres::SILENT;
    double keep[8];
    std::copy(arena, arena + 8, keep);
    ceres::Solver::Summary s;
    ceres::Solve(o, problem.get(), &s);
    std::copy(keep, keep + 8, arena);
  }
};

enum Level { kCore, kAll };
// One mutation chosen from those enabled.  Returns false to stop.
bool Act(World& w, Level level) {
  std::vector<std::function<void()>> acts;
  std::vector<std::string> names;
  auto A = [&](const std::string& n, std::function<void()> f) { names.push_back(n); acts.push_back(std::move(f)); };
  const int nt = level == kCore ? 4 : static_cast<int>(Templates().size());
  for (int t = 0; t < nt; ++t) {
    if (w.res.size() >= 5) break;
    A("add residual " + std::to_string(t), [&w, t] { w.Add(t, 0); });
  }
  if (level == kAll && w.res.size() < 5) A("add residual 1'", [&w] { w.Add(1, 1); });
  for (size_t i = 0; i < w.res.size(); ++i)
    A("remove residual #" + std::to_string(i), [&w, i] { w.problem->RemoveResidualBlock(w.res[i].id); w.res.erase(w.res.begin() + i); });
  for (int b = 0; b < kBlocks; ++b) {
    if (level == kAll || !w.blocks.count(b)) {
      A("add block " + std::to_string(b), [&w, b] { w.problem->AddParameterBlock(w.P(b), kSize[b]); w.Join(b); });
      for (int m : {0, 1}) {
        if (level == kCore && m == 0) continue;
        A("add block with manifold " + std::to_string(b) + " " + std::to_string(m), [&w, b, m] {
          w.problem->AddParameterBlock(w.P(b), kSize[b], w.manifolds[b][m].get());
          w.Join(b);
          w.blocks[b].manifold = m;
        });
      }
    }
    if (!w.blocks.count(b)) continue;
    A("remove block " + std::to_string(b), [&w, b] { w.RemoveBlock(b); });
    A("constant " + std::to_string(b), [&w, b] { w.problem->SetParameterBlockConstant(w.P(b)); w.blocks[b].constant = true; });
    A("variable " + std::to_string(b), [&w, b] { w.problem->SetParameterBlockVariable(w.P(b)); w.blocks[b].constant = false; });
    for (int m = 0; m < 4; ++m) {
      if (level == kCore && m == 3) continue;
      A("manifold " + std::to_string(b) + " " + std::to_string(m), [&w, b, m] { w.problem->SetManifold(w.P(b), w.manifolds[b][m].get()); w.blocks[b].manifold = m; });
    }
    for (int i = 0; i < (level == kAll ? kSize[b] : 1); ++i) {
      const int idx = kSize[b] - 1 - i;
      for (double v : {-4.0, -kMax, -vu::Inf()}) {
        if (level == kCore && v == -kMax) continue;
        A("lower " + std::to_string(b), [&w, b, idx, v] {
          const bool none = v <= -kMax && [&] { for (int k = 0; k < kSize[b]; ++k) if (w.blocks[b].lo[k] != -kMax) return false; return true; }();
          w.problem->SetParameterLowerBound(w.P(b), idx, v);
          // -inf and -max both mean "unbounded"; which of the two is stored is
          // only told apart once some bound was set.
          const double got = w.problem->GetParameterLowerBound(w.P(b), idx);
          MC_EXPECT(v > -kMax ? got == v : got <= -kMax) << got;
          (void)none;
          w.blocks[b].lo[idx] = got;
        });
      }
      for (double v : {9.0, kMax, vu::Inf()}) {
        if (level == kCore && v == kMax) continue;
        A("upper " + std::to_string(b), [&w, b, idx, v] {
          w.problem->SetParameterUpperBound(w.P(b), idx, v);
          const double got = w.problem->GetParameterUpperBound(w.P(b), idx);
          MC_EXPECT(v < kMax ? got == v : got >= kMax) << got;
          w.blocks[b].hi[idx] = got;
        });
      }
    }
  }
  if (!w.blocks.empty() && !w.res.empty()) {
    A("evaluate", [&w] { w.Evaluate(0); });
    A("evaluate one block", [&w] { w.Evaluate(1); });
  }
  const int k = mc::Choose(static_cast<int>(acts.size()), "operation");
  if (mc::Skipping()) return false;
  if (mc::Tracing()) mc::Note(names[k]);
  acts[k]();
  mc::Step();
  return true;
}

void Run(Level level, int depth, bool prune) {
  World w(mc::Flip("fast removal"));
  for (int d = 0; d < depth; ++d) {
    if (!Act(w, level)) return;
    if (!mc::Replaying()) w.Check();
    if (mc::Failed()) return;
    if (prune && mc::Seen(w.Hash(), depth - d - 1)) { mc::Trivial(); return; }
  }
  mc::Outcome(w.Hash());
}

// All sequences, nothing merged.
MC_SCENARIO(sequences, .split = 3, .weight = 3) { Run(kAll, mc::Bound(3, 4), false); }
// Deeper, merging states that the model and the storage order cannot tell apart.
MC_SCENARIO(deep, .split = 3, .weight = 4) { Run(kCore, mc::Bound(5, 7), true); }

// Starting from a populated problem: two interlocking sets of residuals.
void Populated(World& w, int which) {
  switch (which) {
    case 0: w.Add(0, 0); w.Add(1, 0); w.Add(2, 0); w.Add(3, 0); w.Add(1, 1); break;
    case 1: w.Add(3, 0); w.Add(3, 1); w.Add(0, 0); w.Add(0, 0); break;
    case 2: w.Add(2, 0); w.Add(2, 0); w.Add(2, 1); w.Add(1, 0); w.Add(0, 1); break;
  }
}
MC_SCENARIO(populated, .split = 3, .weight = 3) {
  World w(mc::Flip("fast removal"));
  const int which = mc::Choose(3, "start");
  if (mc::Skipping()) return;
  Populated(w, which);
  const int depth = mc::Bound(3, 4);
  for (int d = 0; d < depth; ++d) {
    if (!Act(w, kAll)) return;
    if (!mc::Replaying()) w.Check();
    if (mc::Failed()) return;
  }
  mc::Outcome(w.Hash());
}

// A solve (which works on a reordered copy) in the middle of a history.
MC_SCENARIO(solve_between, .split = 3, .weight = 2) {
  World w(mc::Flip("fast removal"));
  const int which = mc::Choose(3, "start");
  if (mc::Skipping()) return;
  Populated(w, which);
  auto Mutate = [&]() {
    const int k = mc::Choose(7, "mutation");
    if (mc::Skipping()) return;
    switch (k) {
      case 0: break;
      case 1: if (w.blocks.count(1)) { w.problem->SetParameterBlockConstant(w.P(1)); w.blocks[1].constant = true; } break;
      case 2: if (w.blocks.count(0)) w.RemoveBlock(0); break;
      case 3: if (w.blocks.count(2)) w.RemoveBlock(2); break;
      case 4: if (!w.res.empty()) { w.problem->RemoveResidualBlock(w.res[0].id); w.res.erase(w.res.begin()); } break;
      case 5: if (w.res.size() > 1) { w.problem->RemoveResidualBlock(w.res[1].id); w.res.erase(w.res.begin() + 1); } break;
      case 6: if (w.res.size() < 6) w.Add(2, 1); break;
    }
    if (mc::Tracing()) mc::Note("mutation " + std::to_string(k));
    mc::Step();
    w.Check();
  };
  const int rounds = mc::Bound(2, 3);
  for (int i = 0; i < rounds; ++i) {
    Mutate();
    if (mc::Skipping() || mc::Failed()) return;
    const int s = mc::Choose(4, "solver");
    if (mc::Skipping()) return;
    switch (s) {
      case 0: w.Solve(ceres::DENSE_QR); break;
      case 1: w.Solve(ceres::DENSE_SCHUR); break;
      case 2: w.Solve(ceres::ITERATIVE_SCHUR); break;
      case 3: if (!w.blocks.empty() && !w.res.empty()) w.Evaluate(1); break;
    }
    mc::Step();
    w.Check();
    if (mc::Failed()) return;
  }
  Mutate();
  Mutate();
  mc::Outcome(w.Hash());
}

// Every misuse is fatal in every small state.
MC_SCENARIO(misuse, .split = 3, .weight = 2) {
  World w(mc::Flip("fast removal"));
  const int depth = 2;
  for (int d = 0; d < depth; ++d) {
    if (!mc::Flip("another operation")) break;
    if (!Act(w, kAll)) return;
  }
  if (mc::Skipping()) return;
  Problem& p = *w.problem;
  std::vector<std::pair<std::string, std::function<void()>>> bad;
  double* unknown = nullptr;
  for (int b = 0; b < kBlocks; ++b) {
    double* q = w.P(b);
    if (!w.blocks.count(b)) {
      unknown = q;
      bad.push_back({"remove unknown", [&p, q] { p.RemoveParameterBlock(q); }});
      bad.push_back({"constant unknown", [&p, q] { p.SetParameterBlockConstant(q); }});
      bad.push_back({"variable unknown", [&p, q] { p.SetParameterBlockVariable(q); }});
      bad.push_back({"is constant unknown", [&p, q] { p.IsParameterBlockConstant(q); }});
      bad.push_back({"manifold unknown", [&p, q, &w, b] { p.SetManifold(q, w.manifolds[b][1].get()); }});
      bad.push_back({"no manifold unknown", [&p, q] { p.SetManifold(q, nullptr); }});
      bad.push_back({"get manifold unknown", [&p, q] { p.GetManifold(q); }});
      bad.push_back({"has manifold unknown", [&p, q] { p.HasManifold(q); }});
      bad.push_back({"size unknown", [&p, q] { p.ParameterBlockSize(q); }});
      bad.push_back({"tangent unknown", [&p, q] { p.ParameterBlockTangentSize(q); }});
      bad.push_back({"lower unknown", [&p, q] { p.SetParameterLowerBound(q, 0, 1); }});
      bad.push_back({"upper unknown", [&p, q] { p.SetParameterUpperBound(q, 0, 1); }});
      bad.push_back({"get lower unknown", [&p, q] { p.GetParameterLowerBound(q, 0); }});
      bad.push_back({"get upper unknown", [&p, q] { p.GetParameterUpperBound(q, 0); }});
      bad.push_back({"residuals of unknown", [&p, q] { std::vector<ResidualBlockId> v; p.GetResidualBlocksForParameterBlock(q, &v); }});
      bad.push_back({"evaluate unknown", [&p, q] { Problem::EvaluateOptions o; o.parameter_blocks = {q}; double c; p.Evaluate(o, &c, nullptr, nullptr, nullptr); }});
      continue;
    }
    for (int s = 1; s <= 4; ++s)
      if (s != kSize[b]) {
        bad.push_back({"other size", [&p, q, s] { p.AddParameterBlock(q, s); }});
        bad.push_back({"other size with manifold", [&p, q, s] { static ceres::SubsetManifold m(s, {}); p.AddParameterBlock(q, s, &m); }});
      }
    bad.push_back({"manifold of other size", [&p, q, b] { ceres::SubsetManifold m(kSize[b] + 1, {0}); p.SetManifold(q, &m); }});
    bad.push_back({"lower index", [&p, q, b] { p.SetParameterLowerBound(q, kSize[b], 0); }});
    bad.push_back({"upper index", [&p, q, b] { p.SetParameterUpperBound(q, kSize[b], 0); }});
    // A residual whose cost function expects another size here.
    for (int s = 1; s <= 3; ++s)
      if (s != kSize[b])
        bad.push_back({"cost of other size", [&p, q, s] {
          poly::Poly po; po.sizes = {s};
          poly::Cost c(po);
          p.AddResidualBlock(&c, nullptr, q);
        }});
  }
  // Overlapping regions with any block present: every start and length.
  for (int start = 0; start < 5; ++start)
    for (int len = 1; len <= 5 - start; ++len) {
      bool overlap = false, same = false;
      for (auto& [b, m] : w.blocks) {
        if (start == kOffset[b]) same = true;
        if (start < kOffset[b] + kSize[b] && kOffset[b] < start + len) overlap = true;
      }
      if (!overlap || same) continue;
      double* q = w.arena + start;
      bad.push_back({"overlap " + std::to_string(start) + "+" + std::to_string(len), [&p, q, len] { p.AddParameterBlock(q, len); }});
      bad.push_back({"overlap in residual", [&p, q, len] {
        poly::Poly po; po.sizes = {len};
        poly::Cost c(po);
        p.AddResidualBlock(&c, nullptr, q);
      }});
    }
  bad.push_back({"null block", [&p] { p.AddParameterBlock(nullptr, 1); }});
  bad.push_back({"null cost", [&p, &w] { double* q = w.P(0); p.AddResidualBlock(nullptr, nullptr, &q, 1); }});
  bad.push_back({"duplicate blocks", [&p, &w] {
    poly::Poly po; po.sizes = {kSize[1], kSize[1]};
    poly::Cost c(po);
    p.AddResidualBlock(&c, nullptr, w.P(1), w.P(1));
  }});
  bad.push_back({"duplicate blocks apart", [&p, &w] {
    poly::Poly po; po.sizes = {2, 1, 2};
    poly::Cost c(po);
    p.AddResidualBlock(&c, nullptr, w.P(0), w.P(1), w.P(0));
  }});
  bad.push_back({"too few blocks", [&p, &w] { double* q = w.P(0); p.AddResidualBlock(w.costs[2].get(), nullptr, &q, 1); }});
  bad.push_back({"too many blocks", [&p, &w] { double* q[] = {w.P(0), w.P(1)}; p.AddResidualBlock(w.costs[0].get(), nullptr, q, 2); }});
  bad.push_back({"null residual", [&p] { p.RemoveResidualBlock(nullptr); }});
  bad.push_back({"foreign residual", [&p, &w] {
    static World other(false);
    static bool once = (other.Add(0, 0), true);
    (void)once;
    p.RemoveResidualBlock(other.res[0].id);
  }});
  if (!w.res.empty()) {
    bad.push_back({"residual removed twice", [&p, &w] {
      auto id = w.res[0].id;
      p.RemoveResidualBlock(id);
      p.RemoveResidualBlock(id);
    }});
    const int b = Templates()[w.res[0].templ].blocks.empty() ? -1 : Templates()[w.res[0].templ].blocks[0];
    if (b >= 0)
      bad.push_back({"residual removed with its block", [&p, &w, b] {
        auto id = w.res[0].id;
        p.RemoveParameterBlock(w.P(b));
        p.RemoveResidualBlock(id);
      }});
  }
  (void)unknown;
  const int k = mc::Choose(static_cast<int>(bad.size()), "misuse");
  if (mc::Skipping()) return;
  if (mc::Tracing()) mc::Note(bad[k].first);
  MC_EXPECT(mc::Dies(bad[k].second)) << "accepted: " << bad[k].first;
  mc::Step();
  mc::Outcome(mc::H()(bad[k].first)(w.Hash()).h);
  // A failed call leaves the problem in an unspecified state.
  w.problem.release();
}

// Legal neighbours of the misuses: touching memory regions, re-adding, and
// removing then adding with another size.
MC_SCENARIO(touching, .split = 2) {
  const bool fast = mc::Flip("fast removal");
  const int n = mc::Range(2, mc::Bound(3, 4), "blocks");
  if (mc::Skipping()) return;
  double mem[16] = {};
  Problem::Options o;
  o.enable_fast_removal = fast;
  Problem p(o);
  std::vector<std::pair<int, int>> have;
  int total = 0;
  for (int i = 0; i < n; ++i) {
    const int start = mc::Choose(6, "start");
    const int len = mc::Range(1, 3, "length");
    if (mc::Skipping()) return;
    bool overlap = false, same = false, bad_same = false;
    for (auto [s, l] : have) {
      if (s == start) { same = true; bad_same = l != len; }
      if (start < s + l && s < start + len) overlap = true;
    }
    const bool want_dead = same ? bad_same : overlap;
    const bool dead = mc::Dies([&] { p.AddParameterBlock(mem + start, len); });
    mc::Step();
    MC_EXPECT(dead == want_dead) << "block at " << start << " of length " << len;
    if (dead || mc::Failed()) { mc::Cover("rejected"); break; }
    if (!same) { have.push_back({start, len}); total += len; }
    MC_EXPECT(p.NumParameterBlocks() == static_cast<int>(have.size()) && p.NumParameters() == total);
    if (i == n - 2) {  // a removed region is free again
      const int drop = mc::Choose(static_cast<int>(have.size()) + 1, "remove");
      if (mc::Skipping()) return;
      if (drop < static_cast<int>(have.size())) {
        p.RemoveParameterBlock(mem + have[drop].first);
        total -= have[drop].second;
        have.erase(have.begin() + drop);
      }
    }
  }
  mc::H h;
  for (auto [s, l] : have) h(s)(l);
  mc::Outcome(h.h);
}
}  // namespace
