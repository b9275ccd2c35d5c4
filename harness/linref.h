// Dense reference elimination for systems in Schur form.
#ifndef VERIF_HARNESS_LINREF_H_
#define VERIF_HARNESS_LINREF_H_
#include <Eigen/Eigenvalues>

#include "ceres/detect_structure.h"
#include "ceres/linear_solver.h"
#include "lin.h"

namespace lin {
using ci::BlockSparseMatrix;
namespace {
double dummy[64];
double* P(vector<double>& v) { return v.empty() ? dummy : v.data(); }
const double* P(const vector<double>& v) { return v.empty() ? dummy : v.data(); }

// ---- dense reference --------------------------------------------------------
// Solves a x = b by elimination with complete pivoting; false if a is (nearly)
// singular.
bool Solve(D a, D b, D* x, double tol = 1e-6) {
  const int n = a.r;
  vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  double biggest = 0;
  for (double v : a.v) biggest = std::max(biggest, std::abs(v));
  for (int k = 0; k < n; ++k) {
    int pi = k, pj = k;
    for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::abs(a(i, j)) > std::abs(a(pi, pj))) pi = i, pj = j;
    if (!(std::abs(a(pi, pj)) > tol * biggest)) return false;
    for (int j = 0; j < n; ++j) std::swap(a(k, j), a(pi, j));
    for (int j = 0; j < b.c; ++j) std::swap(b(k, j), b(pi, j));
    for (int i = 0; i < n; ++i) std::swap(a(i, k), a(i, pj));
    std::swap(perm[k], perm[pj]);
    for (int i = k + 1; i < n; ++i) {
      const double m = a(i, k) / a(k, k);
      for (int j = k; j < n; ++j) a(i, j) -= m * a(k, j);
      for (int j = 0; j < b.c; ++j) b(i, j) -= m * b(k, j);
    }
  }
  D y(n, b.c);
  for (int c = 0; c < b.c; ++c)
    for (int k = n - 1; k >= 0; --k) {
      double v = b(k, c);
      for (int j = k + 1; j < n; ++j) v -= a(k, j) * y(j, c);
      y(k, c) = v / a(k, k);
    }
  *x = D(n, b.c);
  for (int k = 0; k < n; ++k) for (int c = 0; c < b.c; ++c) (*x)(perm[k], c) = y(k, c);
  return true;
}
D Identity(int n) {
  D d(n, n);
  for (int i = 0; i < n; ++i) d(i, i) = 1;
  return d;
}
D Part(const D& d, int r0, int r1, int c0, int c1) {
  D o(r1 - r0, c1 - c0);
  for (int i = r0; i < r1; ++i) for (int j = c0; j < c1; ++j) o(i - r0, j - c0) = d(i, j);
  return o;
}
D Column(const vector<double>& v) {
  D d(v.size(), 1);
  d.v = v;
  return d;
}
D Minus(D a, const D& b) {
  for (size_t i = 0; i < a.v.size(); ++i) a.v[i] -= b.v[i];
  return a;
}
D Sum(D a, const D& b) {
  for (size_t i = 0; i < a.v.size(); ++i) a.v[i] += b.v[i];
  return a;
}
// Pseudo inverse of a symmetric positive semidefinite matrix.
D PseudoInverse(const D& a) {
  Eigen::MatrixXd m(a.r, a.r);
  for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.r; ++j) m(i, j) = a(i, j);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s(m);
  const double top = a.r > 0 ? s.eigenvalues().cwiseAbs().maxCoeff() : 0;
  D o(a.r, a.r);
  for (int k = 0; k < a.r; ++k) {
    const double l = s.eigenvalues()(k);
    if (l <= 1e-9 * top) continue;
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.r; ++j) o(i, j) += s.eigenvectors()(i, k) * s.eigenvectors()(j, k) / l;
  }
  return o;
}
// Everything that can be said about one system.
struct Ref {
  D A, E, F, ete, ete_inv, ftf, S, rhs;
  vector<double> b, d;
  int ce, cf;
  bool ok = true;  // E'E + D is safely invertible
};
D Gram(const D& m, const vector<double>& d, int from) {
  D g = Mul(m.T(), m);
  if (!d.empty()) for (int i = 0; i < g.r; ++i) g(i, i) += d[from + i] * d[from + i];
  return g;
}
Ref MakeRef(const SchurShape& s, const D& a, const vector<double>& b, const vector<double>& d, bool pseudo) {
  Ref r;
  r.A = a;
  r.b = b;
  r.d = d;
  r.ce = s.ColPos(s.num_e);
  r.cf = a.c - r.ce;
  r.E = Part(a, 0, a.r, 0, r.ce);
  r.F = Part(a, 0, a.r, r.ce, a.c);
  r.ete = Gram(r.E, d, 0);
  r.ftf = Gram(r.F, d, r.ce);
  r.ete_inv = D(r.ce, r.ce);
  for (int e = 0; e < s.num_e; ++e) {
    const int p = s.ColPos(e), q = p + s.cols[e];
    const D block = Part(r.ete, p, q, p, q);
    D inv;
    if (pseudo) inv = PseudoInverse(block);
    else if (!Solve(block, Identity(q - p), &inv, 1e-4)) r.ok = false;
    if (!r.ok) return r;
    for (int i = p; i < q; ++i) for (int j = p; j < q; ++j) r.ete_inv(i, j) = inv(i - p, j - p);
  }
  const D etf = Mul(r.E.T(), r.F), etb = Mul(r.E.T(), Column(b));
  r.S = Minus(r.ftf, Mul(etf.T(), Mul(r.ete_inv, etf)));
  r.rhs = Minus(Mul(r.F.T(), Column(b)), Mul(etf.T(), Mul(r.ete_inv, etb)));
  return r;
}
D BackSubstitution(const Ref& r, const vector<double>& z) {
  const D rest = Minus(Column(r.b), Mul(r.F, Column(z)));
  return Mul(r.ete_inv, Mul(r.E.T(), rest));
}
double Scale(const D& m) {
  double s = 1;
  for (double v : m.v) s = std::max(s, std::abs(v));
  return s;
}
bool Close(const D& a, const D& b, double scale, double tol = 1e-8) {
  if (a.r != b.r || a.c != b.c) return false;
  for (size_t i = 0; i < a.v.size(); ++i) if (!(std::abs(a.v[i] - b.v[i]) <= tol * std::max(1.0, scale))) return false;
  return true;
}
#define CLOSE(got, want, scale, what) MC_REQUIRE(Close(got, want, scale)) << what << " gives " << Str(got) << ", expected " << Str(want) << " " << at

vector<double> NonZero(int n, int salt) {
  vector<double> v(n);
  for (int i = 0; i < n; ++i) v[i] = 2 + (i * 7 + salt) % 5;
  return v;
}
ci::LinearSolver::Options Options(const SchurShape& s, int threads, const BlockSparseMatrix& m, bool detect) {
  ci::LinearSolver::Options o;
  o.elimination_groups = {s.num_e, static_cast<int>(s.cols.size()) - s.num_e};
  o.num_threads = threads;
  o.context = Context();
  o.row_block_size = o.e_block_size = o.f_block_size = Eigen::Dynamic;
  if (detect) ci::DetectStructure(*m.block_structure(), s.num_e, &o.row_block_size, &o.e_block_size, &o.f_block_size);
  return o;
}
vector<ci::Block> FBlocks(const SchurShape& s) {
  vector<ci::Block> v;
  int pos = 0;
  for (size_t i = s.num_e; i < s.cols.size(); ++i) {
    v.emplace_back(s.cols[i], pos);
    pos += s.cols[i];
  }
  return v;
}
D UpperBlocks(const D& m, const vector<ci::Block>& blocks) {
  D o(m.r, m.c);
  for (size_t a = 0; a < blocks.size(); ++a)
    for (size_t b = a; b < blocks.size(); ++b)
      for (int i = 0; i < blocks[a].size; ++i)
        for (int j = 0; j < blocks[b].size; ++j)
          o(blocks[a].position + i, blocks[b].position + j) = m(blocks[a].position + i, blocks[b].position + j);
  return o;
}
D CrsDense(const ci::CompressedRowSparseMatrix& m) {
  D o(m.num_rows(), m.num_cols());
  for (int i = 0; i < o.r; ++i) for (int k = m.rows()[i]; k < m.rows()[i + 1]; ++k) o(i, m.cols()[k]) += m.values()[k];
  return o;
}
// New values in the matrix; returns the dense copy.
D Refill(const SchurShape& s, BlockSparseMatrix* m, int salt) {
  D d(s.Rows(), s.Cols());
  const auto* bs = m->block_structure();
  for (size_t r = 0; r < s.rows.size(); ++r)
    for (const auto& cell : bs->rows[r].cells)
      for (int i = 0; i < s.rows[r]; ++i)
        for (int j = 0; j < s.cols[cell.block_id]; ++j) {
          const int ii = s.RowPos(r) + i, jj = s.ColPos(cell.block_id) + j;
          m->mutable_values()[cell.position + i * s.cols[cell.block_id] + j] = d(ii, jj) = vu::Cell(ii * 13 + jj, salt);
        }
  return d;
}
}  // namespace
}  // namespace lin
#endif
