// C03: parallel evaluation and linear algebra under every schedule, on the real
// code, with race detection, against the same operation with one thread.
#include <mutex>

#include "absl/container/btree_set.h"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/covariance.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/evaluator.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/schur_eliminator.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "ceres/residual_block.h"
#include "linref.h"
#include "mcsched.h"
#include "nls.h"

namespace {
using namespace lin;
using Values = vector<double>;
using Op = std::function<Values(int threads, ci::ContextImpl* context)>;

struct Setup {
  int threads, pool, preemptions, spurious = 0;
};
Setup ChooseSetup(int max_threads, int preemptions) {
  Setup s;
  s.threads = mc::Range(2, max_threads, "threads");
  s.pool = mc::Range(1, s.threads - 1, "pool threads");
  s.preemptions = preemptions;
  return s;
}
// op on every schedule equals op with one thread.
void Compare(const Setup& su, const Op& op, double tol, const std::string& at) {
  Values want;
  {
    ci::ContextImpl context;
    want = op(1, &context);
  }
  Values got;
  const bool ok = sched::Explore({.preemptions = su.preemptions, .spurious = su.spurious}, [&] {
    ci::ContextImpl context;
    context.EnsureMinimumThreads(su.pool);
    got = op(su.threads, &context);
  });
  if (!ok) return;
  if (sched::Current().switches > 0) mc::Cover("switched");
  MC_REQUIRE(got.size() == want.size()) << got.size() << " values instead of " << want.size() << " " << at;
  for (size_t i = 0; i < got.size(); ++i)
    MC_REQUIRE(got[i] == want[i] || std::abs(got[i] - want[i]) <= tol * std::max(1.0, std::abs(want[i])))
        << "value " << i << " is " << got[i] << " instead of " << want[i] << " with " << su.threads << " threads, " << at;
  mc::Outcome(mc::H()(got)(sched::Current().ops)(sched::Current().switches).h);
}
void Put(Values* v, const double* p, int n) { v->insert(v->end(), p, p + n); }
void Put(Values* v, const Values& w) { Put(v, w.data(), w.size()); }

// ---- matrices --------------------------------------------------------------
// A structure of a few row blocks with any cells; the leading eliminated block
// of every row is given by the pattern.
SchurShape ChooseShape(int max_rows, int num_f) {
  SchurShape s;
  s.num_e = mc::Range(1, 2, "eliminated blocks");
  for (int i = 0; i < s.num_e; ++i) s.cols.push_back(2 - i % 2 * 0);
  for (int i = 0; i < num_f; ++i) s.cols.push_back(i == 0 ? 2 : 1);
  const int n = mc::Range(2, max_rows, "row blocks");
  const int first = s.num_e == 2 ? mc::Range(1, n - 1, "rows of the first eliminated block") : n;
  for (int r = 0; r < n; ++r) {
    s.rows.push_back(r == 2 ? 1 : 2);
    auto c = Subset(s.num_e + num_f, "cells", s.num_e);
    c.insert(c.begin(), r < first ? 0 : 1);
    s.cells.push_back(c);
  }
  const int tail = mc::Range(0, 2, "rows without eliminated block");
  for (int r = 0; r < tail; ++r) {
    s.rows.push_back(1 + r);
    vector<int> c = {s.num_e};
    if (r == 0 && num_f > 1) c.push_back(s.num_e + 1);
    s.cells.push_back(c);
  }
  s.split = s.num_e;
  return s;
}
enum MatrixOp { kRight, kLeft, kLeftPlain, kNorms, kScale, kZero, kToCrs, kCrsRight, kViewRight, kViewLeft, kViewDiagonals, kBlockJacobi, kCrsJacobi, kDiagonalMatrix, kNumMatrixOps };
Values RunMatrixOp(int which, const SchurShape& s, int threads, ci::ContextImpl* context) {
  Values out;
  auto m = MakeInts(s, 3, nullptr);
  const int rows = s.Rows(), cols = s.Cols();
  const Values xr = Ints(rows, 4), xc = Ints(cols, 5);
  if (which != kLeftPlain) m->AddTransposeBlockStructure();
  const ci::LinearOperator& op = *m;
  switch (which) {
    case kRight: {
      Values y = Ints(rows, 1);
      op.RightMultiplyAndAccumulate(xc.data(), y.data(), context, threads);
      op.RightMultiplyAndAccumulate(xc.data(), y.data(), context, threads);
      Put(&out, y);
      break;
    }
    case kLeft:
    case kLeftPlain: {
      Values y = Ints(cols, 1);
      op.LeftMultiplyAndAccumulate(xr.data(), y.data(), context, threads);
      op.LeftMultiplyAndAccumulate(xr.data(), y.data(), context, threads);
      Put(&out, y);
      break;
    }
    case kNorms: {
      Values y(cols, 7.0);
      m->SquaredColumnNorm(y.data(), context, threads);
      Put(&out, y);
      break;
    }
    case kScale:
      m->ScaleColumns(xc.data(), context, threads);
      Put(&out, m->values(), m->num_nonzeros());
      break;
    case kZero:
      m->SetZero(context, threads);
      Put(&out, m->values(), m->num_nonzeros());
      break;
    case kToCrs: {
      auto crs = m->ToCompressedRowSparseMatrix();
      m->ScaleColumns(xc.data(), context, threads);
      m->UpdateCompressedRowSparseMatrix(crs.get());
      Put(&out, crs->values(), crs->num_nonzeros());
      break;
    }
    case kCrsRight: {
      auto crs = m->ToCompressedRowSparseMatrix();
      Values y = Ints(rows, 1), n(cols);
      static_cast<ci::LinearOperator&>(*crs).RightMultiplyAndAccumulate(xc.data(), y.data(), context, threads);
      static_cast<ci::SparseMatrix&>(*crs).SquaredColumnNorm(n.data(), context, threads);
      static_cast<ci::SparseMatrix&>(*crs).ScaleColumns(n.data(), context, threads);
      Put(&out, y);
      Put(&out, crs->values(), crs->num_nonzeros());
      break;
    }
    case kViewRight:
    case kViewLeft:
    case kViewDiagonals: {
      ci::LinearSolver::Options o;
      o.elimination_groups = {s.num_e, static_cast<int>(s.cols.size()) - s.num_e};
      o.num_threads = threads;
      o.context = context;
      ci::DetectStructure(*m->block_structure(), s.num_e, &o.row_block_size, &o.e_block_size, &o.f_block_size);
      auto view = ci::PartitionedMatrixViewBase::Create(o, *m);
      const int ce = view->num_cols_e(), cf = view->num_cols_f();
      const Values xe = Ints(ce, 2), xf = Ints(cf, 3);
      if (which == kViewRight) {
        Values y = Ints(rows, 1);
        view->RightMultiplyAndAccumulateE(xe.data(), y.data());
        view->RightMultiplyAndAccumulateF(P(xf), y.data());
        Put(&out, y);
      } else if (which == kViewLeft) {
        Values e = Ints(ce, 1), f = Ints(cf, 6);
        view->LeftMultiplyAndAccumulateE(xr.data(), e.data());
        view->LeftMultiplyAndAccumulateF(xr.data(), P(f));
        Put(&out, e);
        Put(&out, f);
      } else {
        auto ete = view->CreateBlockDiagonalEtE();
        auto ftf = view->CreateBlockDiagonalFtF();
        for (int i = 0; i < 2; ++i) {
          view->UpdateBlockDiagonalEtE(ete.get());
          view->UpdateBlockDiagonalFtF(ftf.get());
        }
        Put(&out, ete->values(), ete->num_nonzeros());
        Put(&out, ftf->values(), ftf->num_nonzeros());
      }
      break;
    }
    case kBlockJacobi:
    case kCrsJacobi: {
      ci::Preconditioner::Options po;
      po.num_threads = threads;
      po.context = context;
      Values y(cols, 0.0), x = Ints(cols, 2);
      const Values d = NonZero(cols, 1);
      auto use = [&](auto& p, auto& a) {
        for (int i = 0; i < 2; ++i) out.push_back(p.Update(a, d.data()));
        p.RightMultiplyAndAccumulate(x.data(), y.data());
      };
      if (which == kBlockJacobi) {
        ci::BlockSparseJacobiPreconditioner p(po, *m);
        use(p, *m);
      } else {
        auto crs = m->ToCompressedRowSparseMatrix();
        ci::BlockCRSJacobiPreconditioner p(po, *crs);
        use(p, *crs);
      }
      Put(&out, y);
      break;
    }
    case kDiagonalMatrix: {
      vector<ci::Block> blocks = {{2, 0}, {1, 2}, {3, 3}};
      ci::BlockRandomAccessDiagonalMatrix d(blocks, context, threads);
      d.SetZero();
      for (int b = 0; b < 3; ++b) {
        int r, c, rs, cs;
        auto* cell = d.GetCell(b, b, &r, &c, &rs, &cs);
        for (int i = 0; i < blocks[b].size; ++i) for (int j = 0; j < blocks[b].size; ++j) cell->values[(r + i) * cs + c + j] = i == j ? 2 + b : 0;
      }
      d.Invert();
      Values y(6, 1.0), x = Ints(6, 3);
      d.RightMultiplyAndAccumulate(x.data(), y.data());
      Put(&out, y);
      break;
    }
  }
  return out;
}
MC_SCENARIO(Matrix, .split = 6, .no_skip_throw = true, .weight = 6) {
  const int which = mc::Choose(kNumMatrixOps, "operation");
  const SchurShape s = ChooseShape(mc::Bound(2, 3), mc::Bound(1, 2));
  const Setup su = ChooseSetup(3, 1);
  if (mc::Skipping()) return;
  Compare(su, [&](int t, ci::ContextImpl* c) { return RunMatrixOp(which, s, t, c); }, which >= kBlockJacobi ? 1e-12 : 0, "operation " + std::to_string(which) + " " + s.Str());
}
SchurShape Fixed(int i) {
  SchurShape s;
  s.num_e = 2;
  s.cols = {2, 2, 2, 1};
  s.rows = {2, 2, 2, 1, 1};
  s.cells = {{0, 2, 3}, {0, 2}, {1, 2, 3}, {1, 3}, {2, 3}};
  if (i == 1) s.rows = {2, 2, 2}, s.cells = {{0, 2}, {0, 2}, {1, 2, 3}};
  if (i == 2) s.num_e = 1, s.cols = {2, 3, 1}, s.rows = {2, 2, 2, 1}, s.cells = {{0, 1}, {0, 1}, {0, 2}, {1, 2}};
  s.split = s.num_e;
  return s;
}
MC_SCENARIO(MatrixDeep, .split = 8, .no_skip_throw = true, .weight = 5) {
  const int which = mc::Choose(kNumMatrixOps, "operation");
  const SchurShape s = Fixed(mc::Pick(mc::Thorough() ? vector<int>{0, 1, 2} : vector<int>{0, 2}, "structure"));
  Setup su = ChooseSetup(mc::Thorough() ? 3 : 2, 2);
  if (mc::Thorough() && (which < kViewRight || which > kViewDiagonals)) su.preemptions = 3;
  if (mc::Skipping()) return;
  Compare(su, [&](int t, ci::ContextImpl* c) { return RunMatrixOp(which, s, t, c); }, which >= kBlockJacobi ? 1e-12 : 0, "operation " + std::to_string(which) + " " + s.Str());
}

// ---- Schur complement ---------------------------------------------------------
enum SchurOp { kDense, kSparse, kDiagonal, kBack, kImplicit, kSchurJacobi, kSeries, kNumSchurOps };
Values RunSchurOp(int which, const SchurShape& s, bool detect, int threads, ci::ContextImpl* context) {
  Values out;
  auto m = MakeInts(s, 3, nullptr);
  m->AddTransposeBlockStructure();
  const Values b = Ints(s.Rows(), 4), d = NonZero(s.Cols(), 1);
  const auto blocks = FBlocks(s);
  const int nf = blocks.size(), cf = s.Cols() - s.ColPos(s.num_e);
  auto o = Options(s, threads, *m, detect);
  o.context = context;
  auto elim = [&](ci::BlockRandomAccessMatrix* lhs) {
    auto e = ci::SchurEliminatorBase::Create(o);
    e->Init(s.num_e, true, m->block_structure());
    Values rhs(cf, 55.0);
    for (int i = 0; i < 2; ++i) e->Eliminate(ci::BlockSparseMatrixData(*m), b.data(), d.data(), lhs, P(rhs));
    Put(&out, rhs);
  };
  switch (which) {
    case kDense: {
      ci::BlockRandomAccessDenseMatrix lhs(blocks, context, threads);
      elim(&lhs);
      for (int i = 0; i < cf * cf; ++i) out.push_back(lhs.values()[i]);
      break;
    }
    case kSparse: {
      absl::btree_set<std::pair<int, int>> set;
      for (int i = 0; i < nf; ++i) for (int j = i; j < nf; ++j) set.insert({i, j});
      ci::BlockRandomAccessSparseMatrix lhs(blocks, set, context, threads);
      elim(&lhs);
      Put(&out, lhs.matrix()->values(), lhs.matrix()->num_nonzeros());
      break;
    }
    case kDiagonal: {
      ci::BlockRandomAccessDiagonalMatrix lhs(blocks, context, threads);
      elim(&lhs);
      Put(&out, lhs.matrix()->values(), lhs.matrix()->num_nonzeros());
      break;
    }
    case kBack: {
      auto e = ci::SchurEliminatorBase::Create(o);
      e->Init(s.num_e, true, m->block_structure());
      Values y(s.ColPos(s.num_e), 0.0);
      const Values z = Ints(cf, 3);
      e->BackSubstitute(ci::BlockSparseMatrixData(*m), b.data(), d.data(), P(z), y.data());
      Put(&out, y);
      break;
    }
    case kImplicit:
    case kSeries: {
      o.preconditioner_type = which == kSeries ? ceres::SCHUR_POWER_SERIES_EXPANSION : ceres::JACOBI;
      ci::ImplicitSchurComplement isc(o);
      isc.Init(*m, d.data(), b.data());
      Put(&out, isc.rhs().data(), isc.rhs().size());
      const Values x = Ints(cf, 3);
      Values y(cf, 0.0), z(s.Cols(), 0.0);
      if (which == kSeries) {
        ci::PowerSeriesExpansionPreconditioner p(&isc, 2, 0, ci::Preconditioner::Options(o));
        p.Update(*m, d.data());
        p.RightMultiplyAndAccumulate(P(x), P(y));
      } else {
        isc.RightMultiplyAndAccumulate(P(x), P(y));
        isc.BackSubstitute(P(x), z.data());
      }
      Put(&out, y);
      Put(&out, z);
      break;
    }
    case kSchurJacobi: {
      ci::Preconditioner::Options po(o);
      po.type = ceres::SCHUR_JACOBI;
      po.context = context;
      ci::SchurJacobiPreconditioner p(*m->block_structure(), po);
      out.push_back(p.Update(*m, d.data()));
      const Values x = Ints(cf, 3);
      Values y(cf, 0.0);
      p.RightMultiplyAndAccumulate(P(x), P(y));
      Put(&out, y);
      break;
    }
  }
  return out;
}
MC_SCENARIO(Schur, .split = 6, .no_skip_throw = true, .weight = 5) {
  const int which = mc::Choose(kNumSchurOps, "operation");
  const bool detect = mc::Choose(2, "template") == 0;
  const SchurShape s = ChooseShape(mc::Bound(2, 3), mc::Bound(1, 2));
  const Setup su = ChooseSetup(mc::Bound(2, 3), 1);
  if (mc::Skipping()) return;
  Compare(su, [&](int t, ci::ContextImpl* c) { return RunSchurOp(which, s, detect, t, c); }, 1e-12, "Schur operation " + std::to_string(which) + " " + s.Str());
}
MC_SCENARIO(SchurDeep, .split = 8, .no_skip_throw = true, .weight = 6) {
  const int which = mc::Choose(kNumSchurOps, "operation");
  const SchurShape s = Fixed(mc::Choose(3, "structure"));
  const Setup su = ChooseSetup(3, mc::Bound(1, 2));
  if (mc::Skipping()) return;
  Compare(su, [&](int t, ci::ContextImpl* c) { return RunSchurOp(which, s, true, t, c); }, 1e-12, "Schur operation " + std::to_string(which) + " " + s.Str());
}

// ---- vectors ------------------------------------------------------------------
// Long enough to be split.
MC_SCENARIO(Vectors, .split = 4, .no_skip_throw = true, .weight = 2) {
  const int which = mc::Choose(5, "operation");
  const int extra = mc::Pick(mc::Thorough() ? vector<int>{0, 1, 65535} : vector<int>{0, 1}, "length");
  const Setup su = ChooseSetup(mc::Bound(2, 3), 1);
  if (mc::Skipping()) return;
  const int n = 2 * 65536 + extra;
  Compare(su, [&](int t, ci::ContextImpl* c) {
    ceres::Vector x(n), y(n);
    {
      sched::Untracked quiet;
      for (int i = 0; i < n; ++i) x[i] = i % 7 - 3, y[i] = i % 5 - 2;
    }
    Values out;
    if (which == 0) ci::ParallelSetZero(c, t, x);
    if (which == 1) ci::ParallelAssign(c, t, x, 2 * y);
    if (which == 2) ci::Axpby(2, x, 3, y, x, c, t);
    if (which == 3) out.push_back(ci::Dot(x, y, c, t)), out.push_back(ci::Norm(x, c, t));
    if (which == 4) ci::Copy(y, x, c, t);
    // Keep it short: sums and both ends of every piece.
    double sum = 0;
    sched::Untracked quiet;
    for (int i = 0; i < n; ++i) sum += x[i] * (i % 11);
    out.push_back(sum);
    for (int i = 0; i < n; i += 127) out.push_back(x[i]);
    out.push_back(x[n - 1]);
    return out;
  }, 0, "vector operation " + std::to_string(which) + " of " + std::to_string(n));
}

// ---- evaluation -----------------------------------------------------------------
nls::Model BaseModel(int structure, int kinds) {
  nls::Model m;
  for (int s : {2, 1, 2}) {
    nls::Block b;
    b.size = s;
    m.blocks.push_back(b);
  }
  int c = 0;
  for (auto& b : m.blocks)
    for (int j = 0; j < b.size; ++j, ++c) b.x.push_back(((c * 5 + structure) % 7) - 3);
  if (structure == 0) m.res = {{{0, 1}, 2}, {{1}, 1}, {{2, 0}, 2}};
  if (structure == 1) m.res = {{{0}, 1}, {{0}, 1}};
  if (structure == 2) m.res = {{{0, 1, 2}, 1}, {{2, 0}, 1}, {{1, 2}, 2}, {{0}, 3}};
  for (size_t i = 0; i < m.res.size(); ++i) m.res[i].salt = static_cast<int>(i) + structure, m.res[i].loss = i == 1 ? nls::kFour : nls::kNull;
  if (kinds == 1) m.blocks[1].manifold = nls::kTwisted, m.blocks[2].constant = true;
  if (kinds == 2) m.blocks[0].manifold = nls::kFixFirst, m.blocks[2].manifold = nls::kTwisted;
  return m;
}
struct Called {
  vector<std::unique_ptr<int>> n;
};
// Evaluates at three points; a fault at `who` (or nowhere) the second time.
Values RunEvaluation(const nls::Model& m, int type, int mask, int who, int fault, int threads, ci::ContextImpl* context) {
  using namespace ceres::internal;
  Values out;
  ceres::Problem::Options po;
  po.context = context;
  nls::World w(m, po);
  vector<int> calls(w.costs.size(), 0);  // written while evaluating: detects overlapping calls
  for (size_t i = 0; i < w.costs.size(); ++i)
    w.costs[i]->hook = [&calls, i](double const* const*, double*, double**) {
      ++calls[i];
      return -1;
    };
  vector<double*> removed;
  double fixed = 0;
  std::string error;
  std::unique_ptr<Program> reduced;
  std::unique_ptr<Evaluator> evaluator;
  std::unique_ptr<SparseMatrix> jac;
  Values start;
  if (type > 0) {
    reduced = w.problem->mutable_impl()->mutable_program()->CreateReducedProgram(&removed, &fixed, &error);
    Evaluator::Options o;
    o.num_threads = threads;
    o.context = context;
    o.num_eliminate_blocks = 0;
    static const ceres::LinearSolverType types[] = {ceres::DENSE_QR, ceres::DENSE_QR, ceres::SPARSE_NORMAL_CHOLESKY, ceres::CGNR, ceres::SPARSE_NORMAL_CHOLESKY};
    o.linear_solver_type = types[type];
    o.dynamic_sparsity = type == 4;
    evaluator = Evaluator::Create(o, reduced.get(), &error);
    jac = evaluator->CreateJacobian();
    reduced->SetParameterBlockStatePtrsToUserStatePtrs();
    start.resize(evaluator->NumParameters());
    reduced->ParameterBlocksToStateVector(start.data());
  }
  for (int round = 0; round < 3; ++round) {
    if (who >= 0) w.costs[who]->fault.kind = round == 1 ? fault : 0;
    std::fill(calls.begin(), calls.end(), 0);
    double cost = -1;
    bool ok;
    Values r, g, j;
    if (type == 0) {
      if (round) for (auto& b : w.x) for (auto& v : b) v += v > 0 ? -1 : 1;
      ceres::Problem::EvaluateOptions eo;
      eo.num_threads = threads;
      ceres::CRSMatrix crs;
      ok = w.problem->Evaluate(eo, &cost, mask & 1 ? &r : nullptr, mask & 2 ? &g : nullptr, mask & 4 ? &crs : nullptr);
      if (ok && mask & 4) j = crs.values;
    } else {
      Values state(start), delta(evaluator->NumEffectiveParameters()), next(state);
      for (auto& v : state) v += v > 0 ? -round : round;
      r.resize(evaluator->NumResiduals());
      g.resize(evaluator->NumEffectiveParameters());
      ok = evaluator->Evaluate(Evaluator::EvaluateOptions(), state.data(), &cost, mask & 1 ? r.data() : nullptr, mask & 2 ? g.data() : nullptr, mask & 4 ? jac.get() : nullptr);
      if (ok && mask & 4) {
        ceres::Matrix dense;
        jac->ToDenseMatrix(&dense);
        Put(&j, dense.data(), dense.size());
      }
      for (size_t i = 0; i < delta.size(); ++i) delta[i] = 1 + i % 3;
      out.push_back(evaluator->Plus(state.data(), delta.data(), next.data()));
      Put(&out, next);
    }
    out.push_back(ok);
    if (!ok) continue;
    out.push_back(cost);
    Put(&out, r);
    Put(&out, g);
    Put(&out, j);
    for (size_t i = 0; i < calls.size(); ++i) out.push_back(calls[i]);
  }
  return out;
}
MC_SCENARIO(Evaluation, .split = 6, .no_skip_throw = true, .weight = 5) {
  const int structure = mc::Choose(3, "structure"), kinds = structure == 1 ? 0 : mc::Choose(3, "kinds");
  const int type = mc::Choose(5, "evaluator");
  const int mask = mc::Pick({7, 0, 2}, "outputs");
  const auto m = BaseModel(structure, kinds);
  const int who = mc::Range(-1, static_cast<int>(m.res.size()) - 1, "failing block");
  const int fault = who < 0 ? 0 : mc::Pick({nls::kReturnFalse, nls::kNanResidual}, "fault");
  const Setup su = ChooseSetup(mc::Bound(2, 3), mc::Thorough() || (mask == 7 && (type == 1 || type == 3)) ? 1 : 0);
  if (mc::Skipping()) return;
  Compare(su, [&](int t, ci::ContextImpl* c) { return RunEvaluation(m, type, mask, who, fault, t, c); }, 0,
          "structure " + std::to_string(structure) + " kinds " + std::to_string(kinds) + " evaluator " + std::to_string(type) + " fault " + std::to_string(fault));
}
MC_SCENARIO(EvaluationDeep, .split = 8, .no_skip_throw = true, .weight = 6) {
  const int structure = mc::Thorough() ? mc::Pick({1, 0}, "structure") : 1;
  const int type = mc::Pick({0, 1, 4}, "evaluator");
  const auto m = BaseModel(structure, 0);
  const int who = mc::Pick({-1, 1}, "failing block");
  const int fault = who < 0 ? 0 : nls::kReturnFalse;
  const Setup su = ChooseSetup(mc::Bound(2, 3), 2);
  if (mc::Skipping()) return;
  Compare(su, [&](int t, ci::ContextImpl* c) { return RunEvaluation(m, type, 7, who, fault, t, c); }, 0,
          "structure " + std::to_string(structure) + " evaluator " + std::to_string(type) + " fault " + std::to_string(fault));
}

// ---- covariance -------------------------------------------------------------------
MC_SCENARIO(CovarianceBlocks, .split = 6, .no_skip_throw = true, .weight = 4) {
  const bool missing = mc::Flip("also blocks not computed");
  const bool lift = mc::Flip("ambient");
  const bool qr = mc::Flip("QR");
  const Setup su = ChooseSetup(3, mc::Bound(1, 2));
  if (mc::Skipping()) return;
  auto m = BaseModel(2, 0);
  m.res.push_back({{1, 0}, 4});
  m.res.back().salt = 9;
  for (auto& r : m.res) r.linear = true;
  Compare(su, [&](int t, ci::ContextImpl* c) {
    ceres::Problem::Options po;
    po.context = c;
    nls::World w(m, po);
    ceres::Covariance::Options co;
    co.algorithm_type = qr ? ceres::SPARSE_QR : ceres::DENSE_SVD;
    co.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    co.num_threads = t;
    ceres::Covariance cov(co);
    Values out;
    vector<const double*> all = {w.x[0].data(), w.x[1].data(), w.x[2].data()};
    const bool ok = missing ? cov.Compute(vector<const double*>{all[0], all[1]}, w.problem.get()) : cov.Compute(all, w.problem.get());
    out.push_back(ok);
    if (!ok) return out;
    Values v(25, 0.0);
    const bool got = lift ? cov.GetCovarianceMatrix(all, v.data()) : cov.GetCovarianceMatrixInTangentSpace(all, v.data());
    out.push_back(got);
    if (got) Put(&out, v);
    return out;
  }, 1e-9, "covariance");
}
}  // namespace
