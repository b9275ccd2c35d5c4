// C07: Problem::Evaluate, EvaluateResidualBlock and the internal evaluators equal
// the mathematical definition for every structure, selection and output mask, and
// leave the problem as it was.
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/evaluation_callback.h"
#include "ceres/evaluator.h"
#include "ceres/parameter_block.h"
#include "ceres/problem_impl.h"
#include "ceres/residual_block.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/solver.h"
#include "ceres/sparse_matrix.h"
#include "nls.h"

namespace {
using namespace nls;
using ceres::Problem;

constexpr double kTol = 1e-12;

Model Base(int structure) {
  Model m;
  for (int s : {2, 1, 3}) {
    Block b;
    b.size = s;
    m.blocks.push_back(b);
  }
  int c = 0;
  for (auto& b : m.blocks)
    for (int j = 0; j < b.size; ++j, ++c) b.x.push_back(((c * 5 + structure) % 7) - 3);
  switch (structure) {
    case 0: m.res = {{{0, 1}, 2}, {{1}, 1}, {{2, 0}, 3}}; break;
    case 1: m.res = {{{0, 1, 2}, 1}, {{2}, 2}, {{1, 2}, 2}}; break;
    default: m.res = {{{0}, 4}, {{2}, 1}, {}}; m.res[2].blocks = {1, 0}; m.res[2].m = 1; break;
  }
  for (size_t i = 0; i < m.res.size(); ++i) m.res[i].salt = static_cast<int>(i) + structure;
  return m;
}
// 0 variable, 1 constant, 2.. manifolds; 5: manifold and constant.
void SetKind(Block& b, int kind) {
  b.constant = kind == 1 || kind == 5;
  b.manifold = kind == 0 || kind == 1 ? kNoManifold : kind == 2 ? kFixFirst : kind == 3 ? kFixAll : kTwisted;
}

void CheckUnchanged(World& w, const std::vector<std::vector<double>>& before) {
  for (size_t b = 0; b < before.size(); ++b) {
    MC_EXPECT(w.x[b] == before[b]) << "parameters of block " << b << " changed to " << vu::Str(w.x[b], static_cast<int>(w.x[b].size()));
    MC_EXPECT(w.problem->IsParameterBlockConstant(w.x[b].data()) == w.m.blocks[b].Fixed()) << "constancy of block " << b;
    MC_EXPECT(w.problem->GetManifold(w.x[b].data()) == w.own_manifolds[b].get()) << "manifold of block " << b;
    MC_EXPECT(w.problem->ParameterBlockTangentSize(w.x[b].data()) == w.m.blocks[b].Tangent());
  }
  MC_EXPECT(w.problem->NumResidualBlocks() == static_cast<int>(w.m.res.size()));
}

// One evaluation with outputs selected by mask, compared with the model.
void EvaluateAndCompare(World& w, const std::vector<int>& rows, const std::vector<int>& cols, int mask, bool loss, int threads, const char* when) {
  Problem::EvaluateOptions o;
  for (int i : rows) o.residual_blocks.push_back(w.ids[i]);
  for (int b : cols) o.parameter_blocks.push_back(w.x[b].data());
  o.apply_loss_function = loss;
  o.num_threads = threads;
  double cost = -7;
  std::vector<double> r(3, 9.0), g(20, 9.0);
  ceres::CRSMatrix J;
  J.num_rows = 2;
  const bool ok = w.problem->Evaluate(o, mask & 1 ? &cost : nullptr, mask & 2 ? &r : nullptr, mask & 4 ? &g : nullptr, mask & 8 ? &J : nullptr);
  mc::Step();
  MC_REQUIRE(ok) << when;
  const Eval want = w.m.Evaluate(w.x, rows.empty() ? w.m.AllRows() : rows, cols.empty() ? w.m.AllCols() : cols, loss);
  const double tol = w.m.Exact() || !loss ? 0 : kTol;
  if (mask & 1) MC_EXPECT(vu::Near(cost, want.cost, tol)) << when << " cost " << cost << " instead of " << want.cost;
  if (mask & 2) MC_EXPECT(Diff(r, want.r, tol).empty()) << when << " residuals " << Diff(r, want.r, tol);
  if (mask & 4) MC_EXPECT(Diff(g, want.g, tol).empty()) << when << " gradient " << Diff(g, want.g, tol);
  if (mask & 8) {
    for (size_t k = 0; k < J.cols.size(); ++k) MC_EXPECT(J.cols[k] >= 0 && J.cols[k] < J.num_cols);
    MC_EXPECT(J.values.size() == J.cols.size() && static_cast<int>(J.rows.size()) == J.num_rows + 1);
    const Dense d = FromCRS(J);
    MC_EXPECT(Diff(d, want.J, tol).empty()) << when << " Jacobian " << Diff(d, want.J, tol);
  }
  mc::H h;
  h(want.cost)(want.r)(want.g)(want.J.v)(mask);
  mc::Outcome(h.h);
}
void Move(World& w, int by) {
  for (auto& b : w.x) for (auto& v : b) v += (v > 0 ? -by : by);
}

// Every constancy/manifold pattern x every selection of rows and columns.
MC_SCENARIO(selections, .split = 4, .weight = 4) {
  Model m = Base(mc::Choose(3, "structure"));
  for (auto& b : m.blocks) SetKind(b, mc::Choose(6, "kind"));
  for (size_t i = 0; i < m.res.size(); ++i) m.res[i].loss = i == 1 ? kFour : kNull;
  static const auto lists = OrderedSublists(3);
  const auto rows = lists[mc::Choose(16, "rows")];
  const auto cols = lists[mc::Choose(16, "cols")];
  if (mc::Skipping()) return;
  World w(m);
  const auto before = w.x;
  for (int mask : {15, 4, 8, 2}) EvaluateAndCompare(w, rows, cols, mask, true, 1, "selected");
  CheckUnchanged(w, before);
  Move(w, 1);
  const auto moved = w.x;
  EvaluateAndCompare(w, {}, {}, 15, true, 1, "everything afterwards");
  CheckUnchanged(w, moved);
}

// Every output mask x loss combination x threads, and nothing moves.
MC_SCENARIO(outputs, .split = 4, .weight = 3) {
  Model m = Base(mc::Choose(3, "structure"));
  for (auto& r : m.res) r.loss = mc::Choose(kNumLosses, "loss");
  const int pattern = mc::Choose(4, "pattern");
  static const int kinds[4][3] = {{0, 0, 0}, {4, 1, 2}, {2, 0, 4}, {1, 4, 3}};
  for (int b = 0; b < 3; ++b) SetKind(m.blocks[b], kinds[pattern][b]);
  const bool loss = mc::Flip("loss");
  const int threads = mc::Pick({1, 2, 3}, "threads");
  if (mc::Skipping()) return;
  World w(m);
  const auto before = w.x;
  for (int mask = 0; mask < 16; ++mask) EvaluateAndCompare(w, {}, {}, mask, loss, threads, "mask");
  for (int mask : {15, 4}) EvaluateAndCompare(w, {2, 0}, {1, 2}, mask, loss, threads, "part");
  CheckUnchanged(w, before);
}

// Histories: every sequence of evaluations, value changes, constancy and manifold
// changes keeps each evaluation equal to the definition.
MC_SCENARIO(histories, .split = 3, .weight = 3) {
  Model m = Base(mc::Choose(2, "structure"));
  SetKind(m.blocks[0], 4);
  SetKind(m.blocks[2], 2);
  m.res[0].loss = kFour;
  const int depth = mc::Bound(6, 7);
  if (mc::Skipping()) return;
  World w(m);
  for (int d = 0; d < depth; ++d) {
    switch (mc::Choose(7, "op")) {
      case 0: EvaluateAndCompare(w, {}, {}, 15, true, 1, "all"); break;
      case 1: EvaluateAndCompare(w, {2, 0}, {2}, 12, true, 1, "part"); break;
      case 2: Move(w, 2); break;
      case 3:
        w.m.blocks[0].constant = !w.m.blocks[0].constant;
        if (w.m.blocks[0].constant) w.problem->SetParameterBlockConstant(w.x[0].data());
        else w.problem->SetParameterBlockVariable(w.x[0].data());
        break;
      case 4: {
        const bool on = w.m.blocks[2].manifold != kNoManifold;
        w.m.blocks[2].manifold = on ? kNoManifold : kFixFirst;
        if (!on && !w.own_manifolds[2]) MC_FAIL();
        w.problem->SetManifold(w.x[2].data(), on ? nullptr : w.own_manifolds[2].get());
        break;
      }
      case 5: {  // single residual block
        const bool fixed0 = w.m.blocks[0].Fixed();
        double cost, r[4], j0[32], j1[32], j2[32];
        double* all[3] = {j0, j1, j2};
        std::vector<double*> j;
        for (size_t k = 0; k < w.m.res[0].blocks.size(); ++k) j.push_back(w.m.blocks[w.m.res[0].blocks[k]].Fixed() ? nullptr : all[k]);
        (void)fixed0;
        MC_EXPECT(w.problem->EvaluateResidualBlock(w.ids[0], true, &cost, r, j.data()));
        const Eval e = w.m.Evaluate(w.x, {0}, w.m.res[0].blocks, true);
        MC_EXPECT(cost == e.cost && r[0] == e.r[0]) << cost << " " << e.cost;
        int col = 0;
        for (size_t k = 0; k < j.size(); ++k) {
          const int t = w.m.blocks[w.m.res[0].blocks[k]].Tangent();
          for (int a = 0; j[k] && a < w.m.res[0].m; ++a)
            for (int c = 0; c < t; ++c) MC_EXPECT(j[k][a * t + c] == e.J(a, col + c)) << k;
          col += t;
        }
        break;
      }
      case 6: {  // bounds do not affect evaluation
        if (!w.m.blocks[1].constant) w.problem->SetParameterUpperBound(w.x[1].data(), 0, w.x[1][0] + d);
        break;
      }
    }
  }
  EvaluateAndCompare(w, {}, {}, 15, true, 2, "last");
}

// EvaluateResidualBlock with every mask and every subset of Jacobians.
MC_SCENARIO(single_block, .split = 4, .weight = 2) {
  Model m = Base(mc::Choose(3, "structure"));
  const int i = mc::Choose(3, "residual");
  for (int b : m.res[i].blocks) SetKind(m.blocks[b], mc::Choose(6, "kind"));
  m.res[i].loss = mc::Choose(kNumLosses, "loss");
  const bool loss = mc::Flip("apply");
  const bool unchanged = mc::Flip("assume unchanged");
  if (mc::Skipping()) return;
  World w(m);
  const auto before = w.x;
  const auto& rb = m.res[i];
  const int nb = static_cast<int>(rb.blocks.size());
  const Eval e = m.Evaluate(w.x, {i}, rb.blocks, loss);
  const double tol = rb.loss < kConcave || !loss ? 0 : kTol;
  for (int mask = 0; mask < 4; ++mask)
    for (int jm = -1; jm < (1 << nb); ++jm) {
      double cost = -7;
      std::vector<double> r(rb.m + 1, -7.0);
      std::vector<std::vector<double>> buf;
      std::vector<double*> jp;
      bool refuse = false;
      for (int k = 0; k < nb; ++k) {
        const Block& b = m.blocks[rb.blocks[k]];
        buf.emplace_back(rb.m * b.size + 1, -7.0);
        const bool want = jm >= 0 && (jm >> k & 1);
        jp.push_back(want ? buf.back().data() : nullptr);
        refuse |= want && b.Fixed();
      }
      for (int k = 0; k < nb; ++k) if (jp[k]) jp[k] = buf[k].data();
      double** jj = jm < 0 ? nullptr : jp.data();
      const bool ok = unchanged ? w.problem->EvaluateResidualBlockAssumingParametersUnchanged(w.ids[i], loss, mask & 1 ? &cost : nullptr, mask & 2 ? r.data() : nullptr, jj)
                                : w.problem->EvaluateResidualBlock(w.ids[i], loss, mask & 1 ? &cost : nullptr, mask & 2 ? r.data() : nullptr, jj);
      mc::Step();
      MC_EXPECT(ok == !refuse) << "returned " << ok;
      MC_EXPECT(r[rb.m] == -7) << "wrote past the residuals";
      int col = 0;
      for (int k = 0; k < nb; ++k) {
        const Block& b = m.blocks[rb.blocks[k]];
        const int t = b.Tangent();
        MC_EXPECT(buf[k].back() == -7);
        if (!jp[k]) for (double v : buf[k]) MC_EXPECT(v == -7) << "wrote a Jacobian that was not asked for";
        if (ok && jp[k])
          for (int a = 0; a < rb.m; ++a)
            for (int c = 0; c < t; ++c) MC_EXPECT(vu::Near(buf[k][a * t + c], e.J(a, col + c), tol)) << "block " << k << " (" << a << "," << c << ") " << buf[k][a * t + c] << " instead of " << e.J(a, col + c);
        col += t;
      }
      if (!ok) continue;
      if (mask & 1) MC_EXPECT(vu::Near(cost, e.cost, tol)) << cost << " instead of " << e.cost;
      if (mask & 2) for (int a = 0; a < rb.m; ++a) MC_EXPECT(vu::Near(r[a], e.r[a], tol)) << a << " " << r[a] << " instead of " << e.r[a];
    }
  mc::H h;
  h(e.cost)(e.J.v)(i)(unchanged);
  mc::Outcome(h.h);
  CheckUnchanged(w, before);
}

// A cost function misbehaving at every position: reported, nothing moved, and the
// problem evaluates correctly once the fault is gone.
MC_SCENARIO(faults, .split = 4, .weight = 3) {
  Model m = Base(mc::Choose(3, "structure"));
  const int who = mc::Choose(3, "which residual");
  Fault f;
  f.kind = 1 + mc::Choose(kNumFaults - 1, "fault");
  int n = 0;
  for (int b : m.res[who].blocks) n += m.blocks[b].size;
  f.pos = f.kind == kReturnFalse ? 0 : mc::Choose(f.kind < kNanJacobian ? m.res[who].m : m.res[who].m * n, "position");
  const int pattern = mc::Choose(4, "pattern");
  static const int kinds[4][3] = {{0, 0, 0}, {4, 1, 2}, {2, 0, 4}, {1, 4, 3}};
  for (int b = 0; b < 3; ++b) SetKind(m.blocks[b], kinds[pattern][b]);
  const int threads = mc::Pick({1, 2}, "threads");
  if (mc::Skipping()) return;
  World w(m);
  const auto before = w.x;
  static const auto lists = OrderedSublists(3);
  // Which block the faulty Jacobian entry belongs to.
  int jb = -1;
  if (f.kind >= kNanJacobian) {
    int pos = f.pos;
    for (int b : m.res[who].blocks) {
      if (pos < m.res[who].m * m.blocks[b].size) { jb = b; break; }
      pos -= m.res[who].m * m.blocks[b].size;
    }
  }
  for (const auto& rows : {lists[0], lists[1], lists[3], std::vector<int>{2, 1}, std::vector<int>{1, 0, 2}})
    for (const auto& cols : {lists[0], std::vector<int>{1, 0}})
      for (int mask : {1, 2, 4, 8, 15}) {
        w.costs[who]->fault = f;
        const bool used = rows.empty() || std::find(rows.begin(), rows.end(), who) != rows.end();
        bool fails = used;
        if (jb >= 0) {
          const bool column = cols.empty() || std::find(cols.begin(), cols.end(), jb) != cols.end();
          fails = used && (mask & 12) && column && !m.blocks[jb].Fixed();
        }
        Problem::EvaluateOptions o;
        for (int i : rows) o.residual_blocks.push_back(w.ids[i]);
        for (int b : cols) o.parameter_blocks.push_back(w.x[b].data());
        o.num_threads = threads;
        double cost = -7;
        std::vector<double> r, g;
        ceres::CRSMatrix J;
        const bool ok = w.problem->Evaluate(o, mask & 1 ? &cost : nullptr, mask & 2 ? &r : nullptr, mask & 4 ? &g : nullptr, mask & 8 ? &J : nullptr);
        mc::Step();
        MC_EXPECT(ok == !fails) << "returned " << ok << " for mask " << mask << " used " << used;
        w.costs[who]->fault = Fault();
        CheckUnchanged(w, before);
        EvaluateAndCompare(w, {}, {}, 15, true, threads, "after the fault");
      }
  // The same through a single residual block, all Jacobians that may be asked for.
  w.costs[who]->fault = f;
  std::vector<std::vector<double>> buf;
  std::vector<double*> jp;
  bool asked = false;
  for (int b : m.res[who].blocks) {
    buf.emplace_back(m.res[who].m * m.blocks[b].size, 5.0);
    jp.push_back(nullptr);
    asked |= b == jb && !m.blocks[b].Fixed();
  }
  for (size_t k = 0; k < jp.size(); ++k) if (!m.blocks[m.res[who].blocks[k]].Fixed()) jp[k] = buf[k].data();
  if (f.kind != kHugeResidual) {
    std::vector<double> r(m.res[who].m);
    MC_EXPECT(w.problem->EvaluateResidualBlock(w.ids[who], true, nullptr, r.data(), jp.data()) == (jb >= 0 && !asked)) << "single block";
  }
  w.costs[who]->fault = Fault();
  EvaluateAndCompare(w, {}, {}, 15, true, threads, "after the single fault");
  mc::H h;
  h(who)(f.kind)(f.pos)(pattern)(threads);
  mc::Outcome(h.h);
}

// The evaluators the solvers use: reduced program, every storage, several states.
MC_SCENARIO(evaluators, .split = 4, .weight = 4) {
  using namespace ceres::internal;
  Model m = Base(mc::Choose(3, "structure"));
  for (auto& b : m.blocks) SetKind(b, mc::Choose(5, "kind"));
  const int type = mc::Choose(7, "solver");
  const int losses = mc::Choose(3, "losses");
  for (size_t i = 0; i < m.res.size(); ++i) m.res[i].loss = losses == 0 ? kNull : losses == 1 ? (i == 1 ? kFour : kNull) : (i % 2 ? kConvex : kConcave);
  const int bounds = mc::Choose(4, "bounds");
  if (bounds)
    for (auto& b : m.blocks)
      if (!b.constant) {
        for (double v : b.x) { if (bounds & 1) b.lo.push_back(v - 1); if (bounds & 2) b.hi.push_back(v + 2); }
      }
  const int threads = mc::Pick({1, 2}, "threads");
  if (mc::Skipping()) return;
  World w(m);
  const auto before = w.x;
  Program* program = w.problem->mutable_impl()->mutable_program();
  std::vector<double*> removed;
  double fixed_cost = -1;
  std::string error;
  auto reduced = program->CreateReducedProgram(&removed, &fixed_cost, &error);
  MC_REQUIRE(reduced != nullptr) << error;
  // Expected reduction.
  std::vector<int> rows, cols, gone;
  double want_fixed = 0;
  std::vector<bool> used(m.blocks.size(), false);
  for (size_t i = 0; i < m.res.size(); ++i) {
    bool fixed = true;
    for (int b : m.res[i].blocks) fixed &= m.blocks[b].Fixed();
    if (fixed) want_fixed += m.CostOf(static_cast<int>(i), w.x, true);
    else {
      rows.push_back(static_cast<int>(i));
      for (int b : m.res[i].blocks) used[b] = true;
    }
  }
  for (size_t b = 0; b < m.blocks.size(); ++b)
    (used[b] && !m.blocks[b].Fixed() ? cols : gone).push_back(static_cast<int>(b));
  MC_EXPECT(vu::Near(fixed_cost, want_fixed, kTol)) << fixed_cost << " instead of " << want_fixed;
  MC_REQUIRE(reduced->NumResidualBlocks() == static_cast<int>(rows.size())) << reduced->NumResidualBlocks();
  MC_REQUIRE(reduced->NumParameterBlocks() == static_cast<int>(cols.size())) << reduced->NumParameterBlocks();
  MC_EXPECT(removed.size() == gone.size());
  for (size_t k = 0; k < cols.size(); ++k) MC_EXPECT(reduced->parameter_blocks()[k]->user_state() == w.x[cols[k]].data());
  for (size_t k = 0; k < rows.size(); ++k) MC_EXPECT(reduced->residual_blocks()[k] == w.ids[rows[k]]);
  if (rows.empty()) { mc::Cover("nothing left"); return; }

  ContextImpl context;
  context.EnsureMinimumThreads(threads - 1);
  Evaluator::Options o;
  o.num_threads = threads;
  o.context = &context;
  o.num_eliminate_blocks = 0;
  static const ceres::LinearSolverType types[] = {ceres::DENSE_QR, ceres::SPARSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::ITERATIVE_SCHUR, ceres::SPARSE_SCHUR, ceres::CGNR};
  o.linear_solver_type = types[type];
  o.dynamic_sparsity = type == 2;
  // Schur types: reverse the block order and eliminate a leading group (blocks
  // sharing a residual with another eliminated one stop the group).
  if (type >= 3 && type <= 5) {
    std::reverse(cols.begin(), cols.end());
    auto* pb = reduced->mutable_parameter_blocks();
    std::reverse(pb->begin(), pb->end());
    reduced->SetParameterOffsetsAndIndex();
    int ne = 0;
    while (ne < static_cast<int>(cols.size())) {
      bool independent = true;
      for (int i : rows) {
        int hits = 0;
        for (int k = 0; k <= ne; ++k) hits += std::count(m.res[i].blocks.begin(), m.res[i].blocks.end(), cols[k]);
        independent &= hits <= 1;
      }
      if (!independent) break;
      ++ne;
      if (type == 4 && ne == 1) break;
    }
    o.num_eliminate_blocks = ne;
    MC_REQUIRE(LexicographicallyOrderResidualBlocks(ne, reduced.get(), &error)) << error;
    std::vector<int> order;
    for (auto* rb : reduced->residual_blocks()) order.push_back(static_cast<int>(std::find(w.ids.begin(), w.ids.end(), rb) - w.ids.begin()));
    auto sorted = order;
    std::sort(sorted.begin(), sorted.end());
    MC_REQUIRE(sorted == rows) << "ordering lost or repeated a residual block";
    rows = order;
    mc::Cover("schur");
  }
  auto evaluator = Evaluator::Create(o, reduced.get(), &error);
  MC_REQUIRE(evaluator != nullptr) << error;
  int np = 0, nt = 0, nr = 0;
  for (int b : cols) { np += m.blocks[b].size; nt += m.blocks[b].Tangent(); }
  for (int i : rows) nr += m.res[i].m;
  MC_EXPECT(evaluator->NumParameters() == np && evaluator->NumEffectiveParameters() == nt && evaluator->NumResiduals() == nr);
  auto jac = evaluator->CreateJacobian();
  MC_REQUIRE(jac->num_rows() == nr && jac->num_cols() == nt) << jac->num_rows() << "x" << jac->num_cols();
  reduced->SetParameterBlockStatePtrsToUserStatePtrs();
  auto x = w.x;
  const double tol = m.Exact() ? 0 : kTol;
  std::vector<double> state(np), delta(nt), next(np);
  mc::H h;
  for (int round = 0; round < 4; ++round) {
    int c = 0;
    for (int b : cols) for (double v : x[b]) state[c++] = v;
    const Eval want = m.Evaluate(x, rows, cols, true);
    const Eval raw = m.Evaluate(x, rows, cols, false);
    for (int mask = 0; mask < 8; ++mask)
      for (int apply = 1; apply >= (round == 1 ? 0 : 1); --apply) {
        const Eval& e = apply ? want : raw;
        double cost = -7;
        std::vector<double> r(nr, vu::NaN()), g(nt, vu::NaN());
        Evaluator::EvaluateOptions eo;
        eo.apply_loss_function = apply;
        eo.new_evaluation_point = mask == 0;
        MC_REQUIRE(evaluator->Evaluate(eo, state.data(), &cost, mask & 1 ? r.data() : nullptr, mask & 2 ? g.data() : nullptr, mask & 4 ? jac.get() : nullptr));
        mc::Step();
        MC_EXPECT(vu::Near(cost, e.cost, tol)) << "cost " << cost << " instead of " << e.cost << " in round " << round;
        if (mask & 1) MC_EXPECT(Diff(r, e.r, tol).empty()) << "residuals " << Diff(r, e.r, tol);
        if (mask & 2) MC_EXPECT(Diff(g, e.g, tol).empty()) << "gradient " << Diff(g, e.g, tol);
        if (mask & 4) {
          ceres::Matrix d;
          jac->ToDenseMatrix(&d);
          MC_EXPECT(Diff(FromEigen(d), e.J, tol).empty()) << "Jacobian " << Diff(FromEigen(d), e.J, tol) << " in round " << round << " type " << type;
        }
        h(e.cost)(e.g);
      }
    // Step from here.
    for (int k = 0; k < nt; ++k) delta[k] = ((k + round) % 4) - 1;
    MC_EXPECT(evaluator->Plus(state.data(), delta.data(), next.data()));
    int sc = 0, dc = 0;
    for (int b : cols) {
      const auto y = m.blocks[b].Plus(x[b].data(), delta.data() + dc, true);
      for (int k = 0; k < m.blocks[b].size; ++k) MC_EXPECT(next[sc + k] == y[k]) << "plus of block " << b << " entry " << k << ": " << next[sc + k] << " instead of " << y[k];
      x[b] = y;
      sc += m.blocks[b].size;
      dc += m.blocks[b].Tangent();
    }
    MC_EXPECT(w.x == before) << "user memory changed";
  }
  mc::Outcome(h.h);
  // A failure at each residual is reported, and the evaluator recovers.
  int c = 0;
  for (int b : cols) for (double v : x[b]) state[c++] = v;
  for (int i : rows) {
    w.costs[i]->fault.kind = kReturnFalse;
    double cost;
    std::vector<double> g(nt);
    MC_EXPECT(!evaluator->Evaluate({}, state.data(), &cost, nullptr, g.data(), jac.get())) << "failure of residual " << i << " not reported";
    w.costs[i]->fault.kind = 0;
  }
  double cost;
  std::vector<double> g(nt);
  MC_REQUIRE(evaluator->Evaluate({}, state.data(), &cost, nullptr, g.data(), jac.get()));
  const Eval e = m.Evaluate(x, rows, cols, true);
  ceres::Matrix d;
  jac->ToDenseMatrix(&d);
  MC_EXPECT(vu::Near(cost, e.cost, tol) && Diff(g, e.g, tol).empty() && Diff(FromEigen(d), e.J, tol).empty()) << "after failures";
  program->SetParameterBlockStatePtrsToUserStatePtrs();
  program->SetParameterOffsetsAndIndex();
  CheckUnchanged(w, before);
}

// Cost functions may use problems of their own: whatever one does inside its
// evaluation, before or after producing its values, neither evaluation notices.
using PolyCost = poly::Cost;
struct Inner {
  std::unique_ptr<World> w, leaf;
  int kind = 0, runs = 0;
  explicit Inner(int k) : kind(k) {
    Model m;
    for (int s : {4, 3, 1, 2}) {
      Block b;
      b.size = s;
      for (int i = 0; i < s; ++i) b.x.push_back((i * 3 + s) % 5 - 2);
      m.blocks.push_back(b);
    }
    m.res = {{{3, 0, 1, 2}, 3}, {{0}, 4}, {{1, 0}, 5}, {{2}, 1}, {{3}, 2}};
    for (size_t i = 0; i < m.res.size(); ++i) { m.res[i].salt = static_cast<int>(i) + 5; m.res[i].linear = kind >= 3; }
    m.res[2].loss = kFour;
    m.blocks[0].manifold = kTwisted;
    m.blocks[1].manifold = kFixFirst;
    w = std::make_unique<World>(m);
  }
  void Run() {
    ++runs;
    const auto start = w->m.Start();
    switch (kind) {
      case 0: {
        std::vector<double> r(w->m.res[0].m);
        double cost;
        MC_EXPECT(w->problem->EvaluateResidualBlock(w->ids[0], true, &cost, r.data(), nullptr));
        const Eval e = w->m.Evaluate(w->x, {0}, w->m.AllCols(), true);
        MC_EXPECT(cost == e.cost && r == e.r) << "inner block";
        break;
      }
      case 1: EvaluateAndCompare(*w, {}, {}, 15, true, 1, "inner"); break;
      case 2: EvaluateAndCompare(*w, {2, 0}, {1, 0}, 15, true, 2, "inner"); break;
      default: {
        ceres::Solver::Options o;
        o.logging_type = ceres::SILENT;
        o.max_num_iterations = 3;
        if (kind == 4) o.minimizer_type = ceres::LINE_SEARCH;
        else o.linear_solver_type = ceres::DENSE_QR;
        ceres::Solver::Summary s;
        for (size_t b = 0; b < start.size(); ++b) std::copy(start[b].begin(), start[b].end(), w->x[b].data());
        ceres::Solve(o, w->problem.get(), &s);
        MC_EXPECT(s.IsSolutionUsable()) << s.message;
        double c = 0;
        for (int i : w->m.AllRows()) c += w->m.CostOf(i, w->x, true);
        MC_EXPECT(vu::Near(s.final_cost, c, 1e-9)) << "inner solve " << s.final_cost << " instead of " << c;
        if (runs == 1) first = w->x;
        MC_EXPECT(w->x == first) << "inner solve gave another answer";
      }
    }
  }
  std::vector<std::vector<double>> first;
};
MC_SCENARIO(nested, .split = 4, .weight = 2) {
  Model m = Base(mc::Choose(3, "structure"));
  const int pattern = mc::Choose(4, "pattern");
  static const int kinds[4][3] = {{0, 0, 0}, {4, 1, 2}, {2, 0, 4}, {1, 4, 3}};
  for (int b = 0; b < 3; ++b) SetKind(m.blocks[b], kinds[pattern][b]);
  for (size_t i = 0; i < m.res.size(); ++i) { m.res[i].loss = i == 1 ? kConvex : kNull; }
  const int who = mc::Choose(3, "which residual");
  const int kind = mc::Choose(5, "inside");
  const int deep = mc::Choose(4, "second level");  // 0: none
  const bool after = mc::Flip("after");
  const int outer = mc::Choose(4, "outer");
  if (mc::Skipping()) return;
  Inner in(kind), leaf(deep ? deep - 1 : 0);
  if (deep) in.w->costs[0]->hook = [&](double const* const*, double*, double**) { leaf.Run(); return -1; };
  World w(m), alone(m);
  auto* c = w.costs[who];
  c->hook = [&](double const* const* x, double* r, double** j) {
    if (!after) { in.Run(); return -1; }
    const bool ok = c->PolyCost::Evaluate(x, r, j);
    in.Run();
    return ok ? 1 : 0;
  };
  const auto before = w.x;
  switch (outer) {
    case 0:
    case 1:
      for (int mask : {15, 1, 4, 10}) EvaluateAndCompare(w, {}, {}, mask, true, 1 + outer, "outer");
      EvaluateAndCompare(w, {who}, {2, 0}, 15, false, 1, "outer part");
      CheckUnchanged(w, before);
      break;
    case 2: {
      const auto& rb = m.res[who];
      const Eval e = m.Evaluate(w.x, {who}, rb.blocks, true);
      double cost = -7;
      std::vector<double> r(rb.m);
      std::vector<std::vector<double>> buf;
      for (int b : rb.blocks) buf.emplace_back(rb.m * m.blocks[b].size);
      std::vector<double*> jp;
      for (size_t k = 0; k < buf.size(); ++k) jp.push_back(m.blocks[rb.blocks[k]].Fixed() ? nullptr : buf[k].data());
      MC_EXPECT(w.problem->EvaluateResidualBlock(w.ids[who], true, &cost, r.data(), jp.data()));
      MC_EXPECT(vu::Near(cost, e.cost, kTol) && Diff(r, e.r, kTol).empty()) << cost << " instead of " << e.cost;
      int col = 0;
      for (size_t k = 0; k < jp.size(); ++k) {
        const int t = m.blocks[rb.blocks[k]].Tangent();
        for (int a = 0; jp[k] && a < rb.m; ++a)
          for (int q = 0; q < t; ++q) MC_EXPECT(vu::Near(jp[k][a * t + q], e.J(a, col + q), kTol)) << "block " << k;
        col += t;
      }
      break;
    }
    default: {
      ceres::Solver::Options o;
      o.logging_type = ceres::SILENT;
      o.max_num_iterations = 3;
      o.linear_solver_type = ceres::DENSE_QR;
      ceres::Solver::Summary s, want;
      ceres::Solve(o, w.problem.get(), &s);
      ceres::Solve(o, alone.problem.get(), &want);
      MC_EXPECT(s.termination_type == want.termination_type && s.final_cost == want.final_cost && s.iterations.size() == want.iterations.size())
          << "outer solve ends at " << s.final_cost << " instead of " << want.final_cost;
      MC_EXPECT(w.x == alone.x) << "outer solve gave another answer";
    }
  }
  MC_EXPECT(in.runs > 0 || m.blocks[m.res[who].blocks[0]].Fixed() || outer == 3);
  mc::Outcome(mc::H()(in.runs)(leaf.runs)(kind)(outer).h);
}
}  // namespace
