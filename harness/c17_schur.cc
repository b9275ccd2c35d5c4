// C17: Schur elimination, back substitution, the implicit Schur complement and
// the preconditioners, against dense elimination of our own.
#include <set>

#include "absl/container/btree_set.h"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/detect_structure.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/linear_solver.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/preconditioner.h"
#include "ceres/schur_eliminator.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "ceres/subset_preconditioner.h"
#include "ceres/visibility_based_preconditioner.h"
#include "linref.h"

namespace {
using namespace lin;
using ci::BlockSparseMatrixData;

// ---- explicit elimination ----------------------------------------------------
void CheckEliminator(const SchurShape& s, BlockSparseMatrix& m, D a, ci::SchurEliminatorBase& elim, bool full_rank, bool with_d, int threads, bool one_f,
                     const std::string& at0) {
  const auto blocks = FBlocks(s);
  const int nf = blocks.size();
  vector<double> b = Ints(a.r, 4);
  vector<double> d = with_d ? NonZero(a.c, 1) : vector<double>();
  elim.Init(s.num_e, full_rank, m.block_structure());
  for (int round = 0; round < 2; ++round) {
    const std::string at = at0 + " round " + std::to_string(round);
    if (round == 1) {
      a = Refill(s, &m, 6);
      b = Ints(a.r, 9);
      if (with_d) d = NonZero(a.c, 3);
    }
    const Ref ref = MakeRef(s, a, b, d, !full_rank);
    if (!ref.ok) return;
    mc::Step();
    const double* dp = with_d ? d.data() : nullptr;
    const double scale = Scale(ref.ftf), rscale = Scale(Mul(ref.F.T(), Column(b)));
    // Dense.
    {
      ci::BlockRandomAccessDenseMatrix lhs(blocks, Context(), threads);
      for (int i = 0; i < ref.cf * ref.cf; ++i) lhs.mutable_values()[i] = 77;
      vector<double> rhs(ref.cf, 55.0);
      elim.Eliminate(BlockSparseMatrixData(m), b.data(), dp, &lhs, P(rhs));
      D got(ref.cf, ref.cf);
      for (size_t i = 0; i < got.v.size(); ++i) got.v[i] = lhs.values()[i];
      if (one_f) {
        CLOSE(got, ref.S, scale, "Schur complement (dense)");
      } else {
        CLOSE(got, UpperBlocks(ref.S, blocks), scale, "Schur complement (dense)");
      }
      CLOSE(Column(rhs), ref.rhs, rscale, "right hand side (dense)");
    }
    // Back substitution.
    for (int k = 0; k < 2; ++k) {
      const vector<double> z = k == 0 ? vector<double>(ref.cf, 0.0) : Ints(ref.cf, 3);
      vector<double> y(ref.ce, one_f ? 33.0 : 0.0);  // the general eliminator adds to y
      elim.BackSubstitute(BlockSparseMatrixData(m), b.data(), dp, P(z), P(y));
      const D want = BackSubstitution(ref, z);
      CLOSE(Column(y), want, Scale(want), "back substitution");
    }
    if (one_f) continue;
    // Sparse with all cells or any subset of them: the cells that exist get the
    // blocks of S.
    std::vector<std::pair<int, int>> pairs;
    for (int i = 0; i < nf; ++i) for (int j = i; j < nf; ++j) pairs.emplace_back(i, j);
    for (int mask = 0; mask < (1 << pairs.size()); ++mask) {
      if (nf > 2 && __builtin_popcount(mask) % 3 != 0) continue;
      absl::btree_set<std::pair<int, int>> set;
      for (size_t k = 0; k < pairs.size(); ++k) if (mask >> k & 1) set.insert(pairs[k]);
      ci::BlockRandomAccessSparseMatrix lhs(blocks, set, Context(), threads);
      vector<double> rhs(ref.cf, 55.0);
      const bool with_rhs = mask % 2 == 1;
      elim.Eliminate(BlockSparseMatrixData(m), with_rhs ? b.data() : nullptr, dp, &lhs, with_rhs ? P(rhs) : nullptr);
      D want(ref.cf, ref.cf);
      for (auto& p : set)
        for (int i = 0; i < blocks[p.first].size; ++i)
          for (int j = 0; j < blocks[p.second].size; ++j) {
            const int ii = blocks[p.first].position + i, jj = blocks[p.second].position + j;
            want(ii, jj) = ref.S(ii, jj);
          }
      ceres::Matrix got;
      lhs.matrix()->ToDenseMatrix(&got);
      CLOSE(FromEigen(got), want, scale, "Schur complement (sparse " + std::to_string(mask) + ")");
      if (with_rhs) CLOSE(Column(rhs), ref.rhs, rscale, "right hand side (sparse)");
      // y += S x for the matrix whose upper half is stored.
      const auto x = Ints(ref.cf, 2), y0 = Ints(ref.cf, 8);
      auto y = y0;
      lhs.SymmetricRightMultiplyAndAccumulate(P(x), P(y));
      D full = want;
      for (auto& p : set)
        if (p.first != p.second)
          for (int i = 0; i < blocks[p.first].size; ++i)
            for (int j = 0; j < blocks[p.second].size; ++j) {
              const int ii = blocks[p.first].position + i, jj = blocks[p.second].position + j;
              full(jj, ii) = want(ii, jj);
            }
      CLOSE(Column(y), Sum(Column(y0), Mul(full, Column(x))), 40 * scale, "symmetric product");
    }
    // Block diagonal.
    if (nf > 0) {
      ci::BlockRandomAccessDiagonalMatrix lhs(blocks, Context(), threads);
      elim.Eliminate(BlockSparseMatrixData(m), nullptr, dp, &lhs, nullptr);
      D want(ref.cf, ref.cf);
      for (auto& k : blocks)
        for (int i = 0; i < k.size; ++i) for (int j = 0; j < k.size; ++j) want(k.position + i, k.position + j) = ref.S(k.position + i, k.position + j);
      CLOSE(CrsDense(*lhs.matrix()), want, scale, "block diagonal of the Schur complement");
    }
  }
  mc::Outcome(mc::H()(a.v).h);
}
MC_SCENARIO(Eliminate, .split = 4, .weight = 6) {
  FreshContext();
  const bool deep = !mc::Light() && mc::Flip("deep");
  SchurShape s = deep ? ChooseSchur({{2, 2, 3}}, 2, 2, 2, 1) : mc::Light() ? ChooseSchur({{2, 2, 2}, {2, 3, 6}, {1, 1, 1}}, 2, 1, 1, 1) : ChooseSchur(Specialised(), 2, 2, mc::Bound(1, 2), 1);
  const bool detect = mc::Choose(2, "template") == 0;
  const bool with_d = mc::Flip("regularised");
  const bool full_rank = with_d || mc::Choose(2, "rank") == 0;
  if (mc::Skipping()) return;
  D a;
  auto m = MakeInts(s, 2, &a);
  for (int threads : {1, 2}) {
    if (threads > 1 && mc::PrefixHash() % 4 != 0 && !mc::Thorough()) continue;
    auto o = Options(s, threads, *m, detect);
    auto elim = ci::SchurEliminatorBase::Create(o);
    D copy = Refill(s, m.get(), 2);
    CheckEliminator(s, *m, copy, *elim, full_rank, with_d, threads, false,
                    s.Str() + (detect ? " detected " : " dynamic ") + std::to_string(with_d) + std::to_string(full_rank) + " threads " + std::to_string(threads));
  }
}

// More eliminated blocks, more rows and wider supports with one size.
MC_SCENARIO(EliminateWide, .split = 4, .weight = 4) {
  FreshContext();
  SchurShape s = ChooseSchur({{2, 2, 2}, {1, 1, 1}}, 3, 3, mc::Bound(1, 2), mc::Bound(1, 2));
  const bool with_d = mc::Flip("regularised");
  if (mc::Skipping()) return;
  D a;
  auto m = MakeInts(s, 5, &a);
  for (int threads : {1, 3}) {
    if (threads > 1 && mc::PrefixHash() % 8 != 0) continue;
    auto o = Options(s, threads, *m, true);
    auto elim = ci::SchurEliminatorBase::Create(o);
    D copy = Refill(s, m.get(), 5);
    CheckEliminator(s, *m, copy, *elim, true, with_d, threads, false, s.Str() + " " + std::to_string(with_d) + " threads " + std::to_string(threads));
  }
}

template <int R, int E, int F>
void OneF(SchurShape& s, bool with_d) {
  D a;
  auto m = MakeInts(s, 2, &a);
  ci::SchurEliminatorForOneFBlock<R, E, F> elim;
  CheckEliminator(s, *m, a, elim, true, with_d, 1, true, s.Str() + " one f " + std::to_string(with_d));
}
MC_SCENARIO(OneFBlock, .split = 4, .weight = 2) {
  FreshContext();
  const Sizes z = mc::Pick(vector<Sizes>{{2, 3, 6}, {1, 1, 1}, {2, 2, 2}, {3, 2, 1}, {2, 3, 4}, {2, 4, 3}}, "sizes");
  SchurShape s;
  s.num_e = mc::Range(1, mc::Bound(3, 4), "eliminated blocks");
  for (int i = 0; i < s.num_e; ++i) s.cols.push_back(z.e);
  s.cols.push_back(z.f);
  for (int e = 0; e < s.num_e; ++e) {
    const int n = mc::Range(1, 3, "rows");
    for (int r = 0; r < n; ++r) {
      s.rows.push_back(z.row);
      if (mc::Flip("f block")) s.cells.push_back({e, s.num_e}); else s.cells.push_back({e});
    }
  }
  const int tail = mc::Range(0, 2, "tail");
  for (int i = 0; i < tail; ++i) {
    s.rows.push_back(1 + mc::Choose(3, "tail size"));
    s.cells.push_back({s.num_e});
  }
  s.split = mc::Choose(2, "layout") ? s.num_e : 0;
  const bool with_d = mc::Flip("regularised");
  if (mc::Skipping()) return;
  if (z.f == 6) OneF<2, 3, 6>(s, with_d);
  else if (z.row == 1) OneF<1, 1, 1>(s, with_d);
  else if (z.row == 3) OneF<3, 2, 1>(s, with_d);
  else if (z.e == 2) OneF<2, 2, 2>(s, with_d);
  else if (z.e == 3) OneF<2, 3, 4>(s, with_d);
  else OneF<2, 4, 3>(s, with_d);
}

// ---- implicit Schur complement ------------------------------------------------
D Dense(const std::function<void(const double*, double*)>& f, int n) {
  D o(n, n);
  for (int j = 0; j < n; ++j) {
    vector<double> x(n, 0.0), y(n, 0.0);
    x[j] = 1;
    f(P(x), P(y));
    for (int i = 0; i < n; ++i) o(i, j) = y[i];
  }
  return o;
}
D BlockDiag(const D& g, const vector<ci::Block>& blocks) {
  D o(g.r, g.c);
  for (auto& k : blocks)
    for (int i = 0; i < k.size; ++i) for (int j = 0; j < k.size; ++j) o(k.position + i, k.position + j) = g(k.position + i, k.position + j);
  return o;
}
// Inverse of a block diagonal matrix; false if a block is near singular.
bool InvertBlocks(const D& g, const vector<ci::Block>& blocks, D* out, double floor = 0) {
  *out = D(g.r, g.c);
  for (auto& k : blocks) {
    D inv;
    if (!Solve(Part(g, k.position, k.position + k.size, k.position, k.position + k.size), Identity(k.size), &inv, 1e-3)) return false;
    if (floor > 0 && Scale(inv) * floor > 1e4) return false;
    for (int i = 0; i < k.size; ++i) for (int j = 0; j < k.size; ++j) (*out)(k.position + i, k.position + j) = inv(i, j);
  }
  return true;
}
D BsmDense(const BlockSparseMatrix& m) {
  ceres::Matrix e;
  m.ToDenseMatrix(&e);
  return FromEigen(e);
}
MC_SCENARIO(Implicit, .split = 4, .weight = 5) {
  FreshContext();
  const bool deep = mc::Flip("deep");
  SchurShape s = deep ? ChooseSchur({{2, 2, 3}}, 2, 2, 2, 1) : ChooseSchur(Specialised(), 2, 2, mc::Bound(1, 2), 1);
  const bool with_d = mc::Choose(2, "regularised") == 0;
  const auto pre = mc::Pick({ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION}, "preconditioner");
  const bool spse = pre == ceres::SCHUR_JACOBI && mc::Flip("spse");
  const bool detect = mc::Choose(2, "template") == 0;
  if (mc::Skipping()) return;
  D a;
  auto m = MakeInts(s, 2, &a);
  const bool inverse = spse || pre != ceres::SCHUR_JACOBI;
  const auto blocks = FBlocks(s);
  for (int threads : {1, 2}) {
    if (threads > 1 && mc::PrefixHash() % 4 != 0) continue;
    auto o = Options(s, threads, *m, detect);
    o.preconditioner_type = pre;
    o.use_spse_initialization = spse;
    ci::ImplicitSchurComplement isc(o);
    for (int round = 0; round < 2; ++round) {
      a = Refill(s, m.get(), round == 0 ? 2 : 6);
      const vector<double> b = Ints(a.r, 4 + round), d = with_d ? NonZero(a.c, 1 + round) : vector<double>();
      const std::string at = s.Str() + " d " + std::to_string(with_d) + " type " + std::to_string(pre) + " round " + std::to_string(round) + " threads " +
                             std::to_string(threads);
      const Ref ref = MakeRef(s, a, b, d, false);
      D fi;
      if (!ref.ok || !InvertBlocks(BlockDiag(ref.ftf, blocks), blocks, &fi)) return;
      isc.Init(*m, with_d ? d.data() : nullptr, b.data());
      mc::Step();
      MC_REQUIRE(isc.num_rows() == ref.cf && isc.num_cols() == ref.cf) << at;
      const double scale = Scale(ref.ftf);
      vector<double> rhs(isc.rhs().data(), isc.rhs().data() + isc.rhs().size());
      CLOSE(Column(rhs), ref.rhs, Scale(Mul(ref.F.T(), Column(b))), "right hand side");
      CLOSE(BsmDense(*isc.block_diagonal_EtE_inverse()), ref.ete_inv, Scale(ref.ete_inv), "inverse of E'E");
      if (ref.cf > 0) {
        CLOSE(Dense([&](const double* x, double* y) { isc.RightMultiplyAndAccumulate(x, y); }, ref.cf), ref.S, scale, "Schur complement");
        CLOSE(Dense([&](const double* x, double* y) { isc.LeftMultiplyAndAccumulate(x, y); }, ref.cf), ref.S, scale, "Schur complement (left)");
      }
      if (inverse) {
        CLOSE(BsmDense(*isc.block_diagonal_FtF_inverse()), fi, Scale(fi), "inverse of the block diagonal of F'F");
        if (ref.cf > 0) {
          // (F'F + D)^-1 is approximated by its block diagonal.
          const D z = Mul(fi, Minus(ref.ftf, ref.S));
          CLOSE(Dense([&](const double* x, double* y) { isc.InversePowerSeriesOperatorRightMultiplyAccumulate(x, y); }, ref.cf), z, Scale(z), "power series operator");
          // The power series itself.
          for (int terms = 1; terms <= 3; ++terms) {
            ci::PowerSeriesExpansionPreconditioner pse(&isc, terms, 0, ci::Preconditioner::Options(o));
            MC_REQUIRE(pse.Update(*m, with_d ? d.data() : nullptr) && pse.num_rows() == ref.cf) << at;
            D want = fi, term = fi;
            for (int k = 0; k < terms; ++k) {
              term = Mul(z, term);
              want = Sum(want, term);
            }
            CLOSE(Dense([&](const double* x, double* y) { pse.RightMultiplyAndAccumulate(x, y); }, ref.cf), want, Scale(want), "power series");
          }
        }
      }
      for (int k = 0; k < 2; ++k) {
        const vector<double> z = k == 0 ? vector<double>(ref.cf, 0.0) : Ints(ref.cf, 3);
        vector<double> y(a.c, 33.0);
        isc.BackSubstitute(ref.cf == 0 && k == 0 ? nullptr : P(z), P(y));
        D want = BackSubstitution(ref, z);
        want.v.insert(want.v.end(), z.begin(), z.end());
        want.r += ref.cf;
        CLOSE(Column(y), want, Scale(want), "back substitution");
      }
    }
  }
  mc::Outcome(mc::H()(a.v).h);
}

// ---- preconditioners for the Schur complement ----------------------------------
bool PositiveDefinite(D a, double tol) {
  const double top = Scale(a);
  for (int k = 0; k < a.r; ++k) {
    if (!(a(k, k) > tol * top)) return false;
    for (int i = k + 1; i < a.r; ++i) {
      const double f = a(i, k) / a(k, k);
      for (int j = k; j < a.r; ++j) a(i, j) -= f * a(k, j);
    }
  }
  return true;
}
MC_SCENARIO(SchurJacobi, .split = 3, .weight = 3) {
  FreshContext();
  SchurShape s = ChooseSchur(Specialised(), 2, 2, 2, 1, 1);
  const bool with_d = mc::Choose(2, "regularised") == 0;
  if (mc::Skipping()) return;
  D a;
  auto m = MakeInts(s, 2, &a);
  const auto blocks = FBlocks(s);
  for (int threads : {1, 2}) {
    if (threads > 1 && mc::PrefixHash() % 4 != 0) continue;
    const auto o = Options(s, threads, *m, true);
    ci::Preconditioner::Options po(o);
    po.type = ceres::SCHUR_JACOBI;
    ci::SchurJacobiPreconditioner pre(*m->block_structure(), po);
    for (int round = 0; round < 2; ++round) {
      a = Refill(s, m.get(), round == 0 ? 2 : 6);
      const vector<double> d = with_d ? NonZero(a.c, 1 + round) : vector<double>();
      const std::string at = s.Str() + " d " + std::to_string(with_d) + " round " + std::to_string(round) + " threads " + std::to_string(threads);
      const Ref ref = MakeRef(s, a, Ints(a.r, 1), d, false);
      D want;
      if (!ref.ok || !InvertBlocks(BlockDiag(ref.S, blocks), blocks, &want, Scale(ref.ftf))) return;
      mc::Step();
      MC_REQUIRE(pre.Update(*m, with_d ? d.data() : nullptr) && pre.num_rows() == ref.cf && pre.num_cols() == ref.cf) << at;
      CLOSE(Dense([&](const double* x, double* y) { pre.RightMultiplyAndAccumulate(x, y); }, ref.cf), want, Scale(want), "inverse of the block diagonal of S");
      CLOSE(Dense([&](const double* x, double* y) { pre.LeftMultiplyAndAccumulate(x, y); }, ref.cf), want, Scale(want), "left product");
    }
  }
  mc::Outcome(mc::H()(a.v).h);
}

// The visibility based preconditioners factor a matrix that has the diagonal
// blocks of S, and off the diagonal either blocks of S, zero, or (if clusters
// are joined and the result was not positive definite) halved blocks.
MC_SCENARIO(Visibility, .split = 3, .weight = 4) {
  FreshContext();
  const int ne = mc::Range(1, mc::Bound(3, 4), "eliminated blocks"), nf = mc::Range(1, mc::Bound(3, 4), "other blocks");
  SchurShape s;
  s.num_e = ne;
  const int f = mc::Range(1, 2, "f size");
  for (int i = 0; i < ne; ++i) s.cols.push_back(1);
  for (int i = 0; i < nf; ++i) s.cols.push_back(f);
  vector<vector<int>> seen(ne);
  for (int e = 0; e < ne; ++e) {
    const int mask = 1 + mc::Choose((1 << nf) - 1, "visible");
    for (int i = 0; i < nf; ++i) if (mask >> i & 1) {
      s.rows.push_back(2);
      s.cells.push_back({e, ne + i});
      seen[e].push_back(i);
    }
  }
  const int tail = mc::Choose(3, "tail");
  if (tail >= 1) {
    s.rows.push_back(1);
    vector<int> c;
    for (int i = tail == 1 ? nf - 1 : 0; i < nf; ++i) c.push_back(ne + i);
    s.cells.push_back(c);
  }
  const auto type = mc::Pick({ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL}, "type");
  const auto clustering = mc::Pick({ceres::CANONICAL_VIEWS, ceres::SINGLE_LINKAGE}, "clustering");
  const int values = mc::Choose(3, "values");
  if (mc::Skipping()) return;
  auto m = MakeInts(s, 2, nullptr);
  D a;
  auto o = Options(s, 1, *m, true);
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.preconditioner_type = type;
  o.visibility_clustering_type = clustering;
  ci::Preconditioner::Options po(o);
  ci::VisibilityBasedPreconditioner pre(*m->block_structure(), po);
  const auto blocks = FBlocks(s);
  std::set<std::pair<int, int>> pattern[2];
  for (int round = 0; round < 2; ++round) {
    a = Refill(s, m.get(), round == 0 ? 2 + values : 6 + values);
    const vector<double> d(a.c, values == 1 ? 0.5 : round == 0 ? 1.0 : 3.0);
    const std::string at = s.Str() + " type " + std::to_string(type) + " clustering " + std::to_string(clustering) + " values " + std::to_string(values) +
                           " round " + std::to_string(round);
    const Ref ref = MakeRef(s, a, Ints(a.r, 1), d, false);
    if (!ref.ok) return;
    mc::Step();
    MC_REQUIRE(pre.Update(*m, d.data())) << "update fails " << at;
    MC_REQUIRE(pre.num_rows() == ref.cf) << at;
    const D inv = Dense([&](const double* x, double* y) { pre.RightMultiplyAndAccumulate(x, y); }, ref.cf);
    D got;
    MC_REQUIRE(Solve(inv, Identity(ref.cf), &got, 1e-9)) << "singular preconditioner " << at;
    const double tol = 1e-6 * Scale(ref.ftf);
    MC_REQUIRE(PositiveDefinite(got, 1e-9)) << "indefinite preconditioner " << Str(got) << " for S = " << Str(ref.S) << " " << at;
    for (int i = 0; i < nf; ++i)
      for (int j = i; j < nf; ++j) {
        bool same = true, zero = true, half = true, s_zero = true;
        for (int x = 0; x < f; ++x)
          for (int y = 0; y < f; ++y) {
            const double g = got(i * f + x, j * f + y), w = ref.S(i * f + x, j * f + y);
            same &= std::abs(g - w) <= tol;
            zero &= std::abs(g) <= tol;
            half &= std::abs(2 * g - w) <= tol;
            s_zero &= std::abs(w) <= tol;
            MC_REQUIRE(std::abs(g - got(j * f + y, i * f + x)) <= tol) << "not symmetric " << at;
          }
        if (i == j) {
          MC_REQUIRE(same) << "diagonal block " << i << " of the preconditioner " << Str(got) << " S " << Str(ref.S) << at;
        } else {
          MC_REQUIRE(same || zero || (half && type == ceres::CLUSTER_TRIDIAGONAL))
              << "block " << i << "," << j << " of the preconditioner " << Str(got) << " S " << Str(ref.S) << at;
          if (!s_zero && !zero) pattern[round].insert({i, j});
          if (half && !zero && !same) mc::Cover("halved");
          if (same && !zero) mc::Cover("off-diagonal");
          if (zero && !s_zero) mc::Cover("dropped");
        }
      }
  }
  mc::Outcome(mc::H()(a.v).h);
}

// ---- preconditioners for the whole problem --------------------------------------
MC_SCENARIO(BlockJacobi, .split = 3, .weight = 2) {
  FreshContext();
  Shape s;
  const int nc = mc::Range(1, 3, "columns"), nr = mc::Range(1, mc::Bound(2, 3), "rows");
  for (int i = 0; i < nc; ++i) s.cols.push_back(mc::Range(1, i == 0 ? 3 : 2, "column size"));
  for (int i = 0; i < nr; ++i) s.rows.push_back(mc::Range(1, i == 0 ? 3 : 2, "row size"));
  for (int i = 0; i < nr; ++i) s.cells.push_back(Subset(nc, "cells"));
  const bool crs = mc::Flip("compressed row");
  if (mc::Skipping()) return;
  vector<ci::Block> blocks;
  for (int i = 0; i < nc; ++i) blocks.emplace_back(s.cols[i], s.ColPos(i));
  for (int threads : {1, 2}) {
    if (threads > 1 && mc::PrefixHash() % 4 != 0) continue;
    ci::Preconditioner::Options po;
    po.type = ceres::JACOBI;
    po.num_threads = threads;
    po.context = Context();
    D a;
    auto m = MakeInts(s, 2, &a);
    std::unique_ptr<ci::CompressedRowSparseMatrix> cm = m->ToCompressedRowSparseMatrix();
    std::unique_ptr<ci::Preconditioner> pre;
    if (crs) pre = std::make_unique<ci::BlockCRSJacobiPreconditioner>(po, *cm);
    else pre = std::make_unique<ci::BlockSparseJacobiPreconditioner>(po, *m);
    for (int round = 0; round < 3; ++round) {
      m = MakeInts(s, 2 + round, &a);
      m->UpdateCompressedRowSparseMatrix(cm.get());
      const bool with_d = round != 2;
      vector<double> d = NonZero(a.c, round + 1);
      const std::string at = s.Str() + " crs " + std::to_string(crs) + " round " + std::to_string(round) + " threads " + std::to_string(threads);
      D want;
      if (!InvertBlocks(BlockDiag(Gram(a, with_d ? d : vector<double>(), 0), blocks), blocks, &want)) continue;
      mc::Step();
      const ci::LinearOperator& op = crs ? static_cast<const ci::LinearOperator&>(*cm) : *m;
      MC_REQUIRE(pre->Update(op, with_d ? d.data() : nullptr) && pre->num_rows() == a.c && pre->num_cols() == a.c) << at;
      CLOSE(Dense([&](const double* x, double* y) { pre->RightMultiplyAndAccumulate(x, y); }, a.c), want, Scale(want), "inverse block diagonal");
      vector<double> x = Ints(a.c, 3), y = Ints(a.c, 6);
      const D w2 = Sum(Column(y), Mul(want, Column(x)));
      pre->LeftMultiplyAndAccumulate(x.data(), y.data());
      CLOSE(Column(y), w2, Scale(w2), "accumulated product");
    }
  }
  mc::Outcome(mc::H()(s.Str()).h);
}

MC_SCENARIO(SubsetPre, .split = 3, .weight = 2) {
  FreshContext();
  Shape s;
  const int nc = mc::Range(1, 3, "columns"), nr = mc::Range(1, mc::Bound(3, 4, 2), "rows");
  for (int i = 0; i < nc; ++i) s.cols.push_back(mc::Range(1, 2, "column size"));
  for (int i = 0; i < nr; ++i) s.rows.push_back(i == 0 ? mc::Range(1, 2, "row size") : 1 + i % 2);
  for (int i = 0; i < nr; ++i) s.cells.push_back(Subset(nc, "cells"));
  const int start = mc::Choose(nr + 1, "first row block of the subset");
  const auto ordering = mc::Pick({ci::OrderingType::NATURAL, ci::OrderingType::AMD}, "ordering");
  if (mc::Skipping()) return;
  D a;
  auto m = MakeInts(s, 2, &a);
  ci::Preconditioner::Options po;
  po.type = ceres::SUBSET;
  po.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  po.ordering_type = ordering;
  po.subset_preconditioner_start_row_block = start;
  po.context = Context();
  ci::SubsetPreconditioner pre(po, *m);
  for (int round = 0; round < 3; ++round) {
    if (round == 1) {
      for (int k = 0; k < m->num_nonzeros(); ++k) m->mutable_values()[k] = vu::Cell(k, 6);
      a = BsmDense(*m);
    }
    const auto d = NonZero(a.c, 1 + round);
    const std::string at = s.Str() + " start " + std::to_string(start) + " round " + std::to_string(round);
    int first = 0;
    for (int i = 0; i < start; ++i) first += s.rows[i];
    const D g = Gram(Part(a, first, a.r, 0, a.c), d, 0);
    D want;
    MC_REQUIRE(Solve(g, Identity(a.c), &want, 1e-7)) << at;
    mc::Step();
    MC_REQUIRE(pre.Update(*m, d.data()) && pre.num_rows() == a.c && pre.num_cols() == a.c) << "update " << at;
    CLOSE(Dense([&](const double* x, double* y) { pre.RightMultiplyAndAccumulate(x, y); }, a.c), want, Scale(want), "inverse of the subset's normal equations");
    MC_REQUIRE(BsmDense(*m) == a && m->num_rows() == a.r && static_cast<int>(m->block_structure()->rows.size()) == nr) << "the Jacobian was changed " << at;
  }
  mc::Outcome(mc::H()(s.Str()).h);
}

MC_SCENARIO(OtherPreconditioners, .split = 1, .single = true) {
  FreshContext();
  const int n = mc::Range(1, 4, "size");
  Shape s;
  s.cols = {n};
  s.rows = {n};
  s.cells = {{0}};
  D a;
  auto m = MakeInts(s, mc::Choose(5, "values"), &a);
  ci::Preconditioner::Options po;
  po.type = ceres::IDENTITY;
  po.context = Context();
  po.num_threads = mc::Range(1, 2, "threads");
  const std::string at = "size " + std::to_string(n);
  ci::IdentityPreconditioner id(n);
  ci::SparseMatrixPreconditionerWrapper wrapper(m.get(), po);
  for (int k = 0; k < 2; ++k) {
    ci::Preconditioner& p = k == 0 ? static_cast<ci::Preconditioner&>(id) : wrapper;
    MC_REQUIRE(p.Update(*m, nullptr) && p.num_rows() == n && p.num_cols() == n) << at;
    const D want = k == 0 ? Identity(n) : a;
    CLOSE(Dense([&](const double* x, double* y) { p.RightMultiplyAndAccumulate(x, y); }, n), want, 1, "product");
    vector<double> x = Ints(n, 3), y = Ints(n, 6);
    const D w2 = Sum(Column(y), Mul(want, Column(x)));
    p.LeftMultiplyAndAccumulate(x.data(), y.data());
    CLOSE(Column(y), w2, 1, "accumulated product");
  }
  // Which preconditioner is used when nothing is left to eliminate.
  using ceres::PreconditionerType;
  const std::pair<PreconditionerType, PreconditionerType> table[] = {
      {ceres::IDENTITY, ceres::IDENTITY}, {ceres::JACOBI, ceres::JACOBI},         {ceres::SCHUR_JACOBI, ceres::JACOBI},
      {ceres::CLUSTER_JACOBI, ceres::JACOBI}, {ceres::CLUSTER_TRIDIAGONAL, ceres::JACOBI}, {ceres::SUBSET, ceres::SUBSET}};
  for (auto& t : table) {
    MC_REQUIRE(ci::Preconditioner::PreconditionerForZeroEBlocks(t.first) == t.second) << "without eliminated blocks: " << t.first;
  }
  mc::Outcome(mc::H()(a.v).h);
}
}  // namespace
