// Small block-sparse structures shared by the linear algebra harnesses, with a
// dense matrix of its own next to every one.
#ifndef VERIF_HARNESS_LIN_H_
#define VERIF_HARNESS_LIN_H_
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/internal/eigen.h"
#include "mc.h"
#include "util.h"

namespace lin {
namespace ci = ceres::internal;
using std::vector;

// A context without pool threads: helpers are queued but never start, and the
// calling thread does all the work.  Fresh() drops what has been queued.
inline std::unique_ptr<ci::ContextImpl>& ContextHolder() {
  static std::unique_ptr<ci::ContextImpl> c = std::make_unique<ci::ContextImpl>();
  return c;
}
inline ci::ContextImpl* Context() { return ContextHolder().get(); }
inline void FreshContext() {
  static int n = 0;
  if (++n % 64 == 0) ContextHolder() = std::make_unique<ci::ContextImpl>();
}

// Dense matrix, row by row; the reference everything is compared with.
struct D {
  int r = 0, c = 0;
  vector<double> v;
  D() = default;
  D(int r, int c) : r(r), c(c), v(r * c, 0.0) {}
  double& operator()(int i, int j) { return v[i * c + j]; }
  double operator()(int i, int j) const { return v[i * c + j]; }
  D T() const {
    D t(c, r);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t(j, i) = (*this)(i, j);
    return t;
  }
  void Append(const D& m) {
    v.insert(v.end(), m.v.begin(), m.v.end());
    r += m.r;
  }
  void Cut(int rows) { r = rows; v.resize(r * c); }
  void AppendCols(const D& m) {
    D o(r, c + m.c);
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < c; ++j) o(i, j) = (*this)(i, j);
      for (int j = 0; j < m.c; ++j) o(i, c + j) = m(i, j);
    }
    *this = o;
  }
  bool operator==(const D& o) const { return r == o.r && c == o.c && v == o.v; }
};
inline D Mul(const D& a, const D& b) {
  D o(a.r, b.c);
  for (int i = 0; i < a.r; ++i)
    for (int k = 0; k < a.c; ++k)
      for (int j = 0; j < b.c; ++j) o(i, j) += a(i, k) * b(k, j);
  return o;
}
inline vector<double> Mul(const D& a, const vector<double>& x) {
  vector<double> y(a.r, 0.0);
  for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) y[i] += a(i, j) * x[j];
  return y;
}
inline vector<double> Plus(vector<double> a, const vector<double>& b) {
  for (size_t i = 0; i < a.size(); ++i) a[i] += b[i];
  return a;
}
inline D FromEigen(const ceres::Matrix& m) {
  D d(m.rows(), m.cols());
  for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) d(i, j) = m(i, j);
  return d;
}
inline std::string Str(const D& d) {
  std::ostringstream s;
  s << d.r << "x" << d.c << "[";
  for (int i = 0; i < d.r; ++i) {
    for (int j = 0; j < d.c; ++j) s << (j ? " " : i ? "; " : "") << d(i, j);
  }
  s << "]";
  return s.str();
}
inline std::string Str(const vector<double>& v) { return vu::Str(v, v.size()); }
inline vector<double> Ints(int n, int salt) {
  vector<double> v(n);
  for (int i = 0; i < n; ++i) v[i] = vu::Cell(i, salt);
  return v;
}

// A block structure: sizes of the column and row blocks and the (sorted)
// column blocks present in each row block.
struct Shape {
  vector<int> cols, rows;
  vector<vector<int>> cells;
  int split = 0;  // > 0: values of cells in the first `split` column blocks are
                  // stored before all others (as the evaluator does for Schur)
  int Rows() const { int n = 0; for (int r : rows) n += r; return n; }
  int Cols() const { int n = 0; for (int c : cols) n += c; return n; }
  int Nnz() const {
    int n = 0;
    for (size_t r = 0; r < rows.size(); ++r) for (int c : cells[r]) n += rows[r] * cols[c];
    return n;
  }
  int ColPos(int b) const { int n = 0; for (int i = 0; i < b; ++i) n += cols[i]; return n; }
  int RowPos(int b) const { int n = 0; for (int i = 0; i < b; ++i) n += rows[i]; return n; }
  std::string Str() const {
    std::ostringstream s;
    s << "cols[";
    for (int c : cols) s << c << " ";
    s << "] rows[";
    for (size_t r = 0; r < rows.size(); ++r) {
      s << rows[r] << ":";
      for (int c : cells[r]) s << c << ",";
      s << " ";
    }
    s << "] split " << split;
    return s.str();
  }
  ci::CompressedRowBlockStructure* Build() const {
    auto* bs = new ci::CompressedRowBlockStructure;
    int pos = 0;
    for (int c : cols) {
      bs->cols.emplace_back(c, pos);
      pos += c;
    }
    int row = 0, first = 0, second = 0;
    for (size_t r = 0; r < rows.size(); ++r)
      for (int c : cells[r]) if (c < split) second += rows[r] * cols[c];
    for (size_t r = 0; r < rows.size(); ++r) {
      bs->rows.emplace_back();
      auto& out = bs->rows.back();
      out.block.size = rows[r];
      out.block.position = row;
      row += rows[r];
      for (int c : cells[r]) {
        int& cursor = c < split ? first : second;
        out.cells.emplace_back(c, cursor);
        cursor += rows[r] * cols[c];
      }
    }
    return bs;
  }
};

// Matrix of the given shape with value f(i, j) at scalar position (i, j).
template <typename F>
std::unique_ptr<ci::BlockSparseMatrix> Make(const Shape& s, const F& f, D* dense) {
  auto m = std::make_unique<ci::BlockSparseMatrix>(s.Build());
  D d(s.Rows(), s.Cols());
  const auto* bs = m->block_structure();
  for (size_t r = 0; r < s.rows.size(); ++r)
    for (const auto& cell : bs->rows[r].cells) {
      const int w = s.cols[cell.block_id], i0 = s.RowPos(r), j0 = s.ColPos(cell.block_id);
      for (int i = 0; i < s.rows[r]; ++i)
        for (int j = 0; j < w; ++j)
          m->mutable_values()[cell.position + i * w + j] = d(i0 + i, j0 + j) = f(i0 + i, j0 + j);
    }
  if (dense != nullptr) *dense = d;
  return m;
}
inline std::unique_ptr<ci::BlockSparseMatrix> MakeInts(const Shape& s, int salt, D* dense) {
  return Make(s, [salt](int i, int j) { return vu::Cell(i * 11 + j, salt); }, dense);
}

// Text dump of `m` parsed back.
template <typename M>
D Dump(const M& m, int* entries = nullptr) {
  char* text = nullptr;
  size_t len = 0;
  FILE* f = open_memstream(&text, &len);
  m.ToTextFile(f);
  fclose(f);
  D d(m.num_rows(), m.num_cols());
  int n = 0;
  char* p = text;
  while (true) {
    char* e;
    const long i = strtol(p, &e, 10);
    if (e == p) break;
    p = e;
    const long j = strtol(p, &e, 10);
    p = e;
    const double v = strtod(p, &e);
    p = e;
    ++n;
    if (i >= 0 && i < d.r && j >= 0 && j < d.c) d(i, j) += v; else n += 1000000;
  }
  free(text);
  if (entries != nullptr) *entries = n;
  return d;
}

// Bottom-most of the choices: which subset of 0..n-1.
inline vector<int> Subset(int n, const char* what, int from = 0) {
  const int mask = mc::Choose(1 << (n - from), what);
  vector<int> v;
  for (int i = from; i < n; ++i) if (mask >> (i - from) & 1) v.push_back(i);
  return v;
}
// Structures as the Schur complement solvers expect them: rows with exactly one
// eliminated block first, grouped by that block, then the remaining rows.
struct Sizes { int row, e, f; };
inline vector<Sizes> Specialised() {
  return {{2, 2, 2}, {2, 2, 3}, {2, 2, 4}, {2, 2, 5}, {2, 3, 3}, {2, 3, 4}, {2, 3, 6}, {2, 3, 9}, {2, 3, 5}, {2, 4, 3}, {2, 4, 4},
          {2, 4, 6}, {2, 4, 8}, {2, 4, 9}, {2, 4, 5}, {2, 5, 3}, {3, 3, 3}, {4, 4, 2}, {4, 4, 3}, {4, 4, 4}, {4, 4, 5}, {1, 1, 1}, {3, 1, 2}};
}
struct SchurShape : Shape {
  int num_e = 0;
};
inline SchurShape ChooseSchur(const vector<Sizes>& sizes, int max_e, int max_f, int max_rows_per_e, int max_tail, int min_f = 0) {
  SchurShape s;
  const Sizes z = mc::Pick(sizes, "block sizes");
  const int odd = mc::Choose(4, "odd one out");  // 1: last e block, 2: last f block, 3: last e row
  s.num_e = mc::Range(1, max_e, "eliminated blocks");
  const int nf = mc::Range(min_f, max_f, "other blocks");
  for (int i = 0; i < s.num_e; ++i) s.cols.push_back(z.e + (odd == 1 && i == s.num_e - 1));
  for (int i = 0; i < nf; ++i) s.cols.push_back(z.f + (odd == 2 && i == nf - 1));
  for (int e = 0; e < s.num_e; ++e) {
    const int n = mc::Range(1, max_rows_per_e, "rows of the eliminated block");
    for (int r = 0; r < n; ++r) {
      s.rows.push_back(z.row + (odd == 3 && e == s.num_e - 1 && r == n - 1));
      auto c = Subset(s.num_e + nf, "cells", s.num_e);
      c.insert(c.begin(), e);
      s.cells.push_back(c);
    }
  }
  if (nf > 0) {
    const int tail = mc::Range(0, max_tail, "rows without eliminated block");
    for (int r = 0; r < tail; ++r) {
      s.rows.push_back(z.row + r);
      const int mask = 1 + mc::Choose((1 << nf) - 1, "cells");
      vector<int> c;
      for (int i = 0; i < nf; ++i) if (mask >> i & 1) c.push_back(s.num_e + i);
      s.cells.push_back(c);
    }
  }
  s.split = mc::Choose(2, "layout") ? s.num_e : 0;
  return s;
}
}  // namespace lin
#endif
