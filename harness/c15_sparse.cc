// C15: every operation of the sparse matrix classes against a dense matrix.
#include <set>

#include "ceres/compressed_col_sparse_matrix_utils.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/inner_product_computer.h"
#include "ceres/triplet_sparse_matrix.h"
#include "lin.h"

namespace {
using namespace lin;
using ci::Block;
using ci::BlockSparseMatrix;
using CRS = ci::CompressedRowSparseMatrix;
using Storage = CRS::StorageType;

// Non-null even when empty.
double dummy;
double* P(vector<double>& v) { return v.empty() ? &dummy : v.data(); }
const double* P(const vector<double>& v) { return v.empty() ? &dummy : v.data(); }
#define SAME_D(got, want, what) \
  MC_REQUIRE((got) == (want)) << what << " gives " << Str(got) << ", expected " << Str(want)

// y (+)= op(x) for a matrix whose dense value is `d`.
template <typename M>
void Products(const M& m, const D& d, const std::string& at) {
  const auto x = Ints(d.c, 3), xt = Ints(d.r, 5), y0 = Ints(d.r, 8), yt0 = Ints(d.c, 2);
  auto y = y0;
  m.RightMultiplyAndAccumulate(P(x), P(y));
  SAME_D(y, Plus(y0, Mul(d, x)), "product " + at);
  y = yt0;
  m.LeftMultiplyAndAccumulate(P(xt), P(y));
  SAME_D(y, Plus(yt0, Mul(d.T(), xt)), "transposed product " + at);
}
template <typename M>
void ProductsThreads(const M& matrix, const D& d, const std::string& at) {
  const ci::LinearOperator& m = matrix;
  const auto x = Ints(d.c, 3), xt = Ints(d.r, 5), y0 = Ints(d.r, 8), yt0 = Ints(d.c, 2);
  for (int t = 1; t <= 3; ++t) {
    auto y = y0;
    m.RightMultiplyAndAccumulate(P(x), P(y), Context(), t);
    SAME_D(y, Plus(y0, Mul(d, x)), "threaded product " + at);
    y = yt0;
    m.LeftMultiplyAndAccumulate(P(xt), P(y), Context(), t);
    SAME_D(y, Plus(yt0, Mul(d.T(), xt)), "threaded transposed product " + at);
  }
}
vector<double> Norms(const D& d) {
  vector<double> n(d.c, 0.0);
  for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) n[j] += d(i, j) * d(i, j);
  return n;
}
D Scaled(D d, const vector<double>& s) {
  for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) d(i, j) *= s[j];
  return d;
}
template <typename M>
void Common(const M& m, const D& d, const std::string& at, bool norms = true) {
  MC_REQUIRE(m.num_rows() == d.r && m.num_cols() == d.c) << at << " has " << m.num_rows() << "x" << m.num_cols();
  ceres::Matrix e;
  m.ToDenseMatrix(&e);
  SAME_D(FromEigen(e), d, "dense form of " + at);
  Products(m, d, at);
  if (norms) {
    vector<double> n(d.c, 77);
    m.SquaredColumnNorm(P(n));
    SAME_D(n, Norms(d), "column norms of " + at);
  }
  SAME_D(Dump(m), d, "text of " + at);
}
// Structure of a CRS matrix: rows sorted and without duplicates, storage in range.
void CrsStructure(const CRS& m, int nnz, const std::string& at) {
  MC_REQUIRE(m.num_nonzeros() == nnz) << at << " nonzeros " << m.num_nonzeros() << " expected " << nnz;
  MC_REQUIRE(m.rows()[0] == 0) << at;
  for (int r = 0; r < m.num_rows(); ++r)
    for (int k = m.rows()[r]; k < m.rows()[r + 1]; ++k)
      MC_REQUIRE(m.cols()[k] >= 0 && m.cols()[k] < m.num_cols() && (k == m.rows()[r] || m.cols()[k - 1] < m.cols()[k]))
          << at << " row " << r << " has columns out of order";
}
void Blocks(const vector<Block>& got, const vector<int>& want, const std::string& at) {
  MC_REQUIRE(got.size() == want.size()) << at << ": " << got.size() << " blocks";
  int pos = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    MC_REQUIRE(got[i].size == want[i] && got[i].position == pos) << at << " block " << i << " is " << got[i].size << "@" << got[i].position;
    pos += want[i];
  }
}
// The transposed structure describes the same cells column by column.
void Transposed(const ci::CompressedRowBlockStructure& t, const ci::CompressedRowBlockStructure& bs, const Shape& s, const std::string& at) {
  MC_REQUIRE(t.rows.size() == s.cols.size() && t.cols.size() == s.rows.size()) << at;
  int cumulative = 0;
  for (size_t c = 0; c < s.cols.size(); ++c) {
    MC_REQUIRE(t.rows[c].block.size == s.cols[c] && t.rows[c].block.position == s.ColPos(c)) << at;
    size_t k = 0;
    int nnz = 0;
    for (size_t r = 0; r < s.rows.size(); ++r)
      for (const auto& cell : bs.rows[r].cells)
        if (cell.block_id == static_cast<int>(c)) {
          MC_REQUIRE(k < t.rows[c].cells.size() && t.rows[c].cells[k].block_id == static_cast<int>(r) && t.rows[c].cells[k].position == cell.position)
              << at << " transposed block row " << c;
          ++k;
          nnz += s.rows[r] * s.cols[c];
        }
    cumulative += nnz;
    MC_REQUIRE(k == t.rows[c].cells.size()) << at << " transposed block row " << c << " has too many cells";
    MC_REQUIRE(t.rows[c].nnz == nnz && t.rows[c].cumulative_nnz == cumulative)
        << at << " transposed block row " << c << " counts " << t.rows[c].nnz << "/" << t.rows[c].cumulative_nnz << " expected " << nnz << "/" << cumulative;
  }
  for (size_t r = 0; r < s.rows.size(); ++r)
    MC_REQUIRE(t.cols[r].size == s.rows[r] && t.cols[r].position == s.RowPos(r)) << at;
}
// Everything a block-sparse matrix can say about itself.
void CheckBlock(BlockSparseMatrix& m, const Shape& s, const D& d, const std::string& at) {
  Common(m, d, at);
  if (mc::Failed()) return;
  ProductsThreads(m, d, at);
  if (mc::Failed()) return;
  MC_REQUIRE(m.num_nonzeros() == s.Nnz()) << at << " nonzeros " << m.num_nonzeros();
  for (int t = 1; t <= 3; ++t) {
    vector<double> n(d.c, 77);
    m.SquaredColumnNorm(P(n), Context(), t);
    SAME_D(n, Norms(d), "threaded column norms of " + at);
  }
  const auto* bs = m.block_structure();
  MC_REQUIRE(bs->rows.size() == s.rows.size() && bs->cols.size() == s.cols.size()) << at;
  for (size_t r = 0; r < s.rows.size(); ++r) {
    MC_REQUIRE(bs->rows[r].block.size == s.rows[r] && bs->rows[r].block.position == s.RowPos(r) && bs->rows[r].cells.size() == s.cells[r].size()) << at << " row block " << r;
    for (size_t k = 0; k < s.cells[r].size(); ++k) MC_REQUIRE(bs->rows[r].cells[k].block_id == s.cells[r][k]) << at << " row block " << r;
  }
  Transposed(*m.transpose_block_structure(), *bs, s, at);
  Transposed(*ci::CreateTranspose(*bs), *bs, s, at);
  if (mc::Failed()) return;
  const auto crs = m.ToCompressedRowSparseMatrix();
  Common(*crs, d, "row-compressed form of " + at);
  CrsStructure(*crs, s.Nnz(), "row-compressed form of " + at);
  Blocks(crs->row_blocks(), s.rows, "row blocks of " + at);
  Blocks(crs->col_blocks(), s.cols, "column blocks of " + at);
  const auto crst = m.ToCompressedRowSparseMatrixTranspose();
  Common(*crst, d.T(), "transposed row-compressed form of " + at);
  CrsStructure(*crst, s.Nnz(), "transposed row-compressed form of " + at);
  Blocks(crst->row_blocks(), s.cols, "row blocks of transposed " + at);
  Blocks(crst->col_blocks(), s.rows, "column blocks of transposed " + at);
  ci::TripletSparseMatrix tr;
  m.ToTripletSparseMatrix(&tr);
  Common(tr, d, "triplet form of " + at);
  MC_REQUIRE(tr.num_nonzeros() == s.Nnz() && tr.IsValid()) << at;
  // New values of the same structure are copied completely.
  D d2 = d;
  const vector<double> old(m.values(), m.values() + m.num_nonzeros());
  for (int k = 0; k < m.num_nonzeros(); ++k) m.mutable_values()[k] = 2 * old[k] + 1;
  for (size_t r = 0; r < s.rows.size(); ++r)
    for (int c : s.cells[r])
      for (int i = 0; i < s.rows[r]; ++i)
        for (int j = 0; j < s.cols[c]; ++j) { double& v = d2(s.RowPos(r) + i, s.ColPos(c) + j); v = 2 * v + 1; }
  m.UpdateCompressedRowSparseMatrix(crs.get());
  m.UpdateCompressedRowSparseMatrixTranspose(crst.get());
  Common(*crs, d2, "updated row-compressed form of " + at);
  Common(*crst, d2.T(), "updated transposed row-compressed form of " + at);
  std::copy(old.begin(), old.end(), m.mutable_values());
}

Shape ChooseShape(int max_cols, int max_rows, int max_col_size, int max_row_size) {
  Shape s;
  const int nc = mc::Range(1, max_cols, "column blocks");
  for (int i = 0; i < nc; ++i) s.cols.push_back(mc::Range(1, max_col_size, "column block size"));
  const int nr = mc::Range(0, max_rows, "row blocks");
  for (int i = 0; i < nr; ++i) {
    s.rows.push_back(mc::Range(1, max_row_size, "row block size"));
    s.cells.push_back(Subset(nc, "cells"));
  }
  s.split = mc::Choose(2, "layout") ? std::max(1, nc - 1) : 0;
  return s;
}

void Outcome(const D& d) {
  mc::H h;
  h(d.r)(d.c)(d.v);
  mc::Outcome(h.h);
}

void TestBlock(int max_cols, int max_rows, int col_size, int row_size) {
  const Shape s = ChooseShape(max_cols, max_rows, col_size, row_size);
  if (mc::Skipping()) return;
  D d;
  auto m = MakeInts(s, 1, &d);
  mc::Step();
  const std::string at = s.Str();
  CheckBlock(*m, s, d, at);
  if (mc::Failed()) return;
  const auto scale = Ints(d.c, 4);
  for (int t = 0; t <= 3; ++t) {
    if (t == 0) m->ScaleColumns(P(scale)); else m->ScaleColumns(P(scale), Context(), t);
    d = Scaled(d, scale);
    ceres::Matrix e;
    m->ToDenseMatrix(&e);
    SAME_D(FromEigen(e), d, "scaled columns of " + at);
  }
  Outcome(d);
  for (int t = 0; t <= 3; ++t) {
    for (int k = 0; k < m->num_nonzeros(); ++k) m->mutable_values()[k] = k + 1;
    if (t == 0) m->SetZero(); else m->SetZero(Context(), t);
    ceres::Matrix e;
    m->ToDenseMatrix(&e);
    SAME_D(FromEigen(e), D(d.r, d.c), "zeroed " + at);
    MC_REQUIRE(m->num_nonzeros() == s.Nnz()) << "zeroing changed the structure of " << at;
  }
}
MC_SCENARIO(Block, .split = 6, .weight = 6) { TestBlock(3, 3, mc::Bound(2, 3), 2); }
MC_SCENARIO(BlockWide, .split = 5, .weight = 2) { TestBlock(2, 2, 4, mc::Bound(3, 5)); }

// Histories of appending, deleting, scaling and zeroing.
MC_SCENARIO(BlockHistory, .split = 4, .weight = 3) {
  FreshContext();
  Shape s;
  const int kind = mc::Choose(3, "base");
  if (kind == 0) s = Shape{{2, 1}, {2, 1}, {{0, 1}, {1}}, 0};
  else if (kind == 1) s = Shape{{1, 2, 1}, {1, 2}, {{0, 2}, {0, 1}}, 1};
  else s = Shape{{1, 1}, {}, {}, 0};
  const int original = s.split ? s.rows.size() : 0;
  D d;
  auto m = MakeInts(s, 1, &d);
  std::string at = s.Str();
  const int nc = s.cols.size();
  const int depth = mc::Bound(4, 5);
  for (int step = 0; step < depth; ++step) {
    const int op = mc::Choose(8, "operation");
    if (op <= 2) {  // append a matrix
      Shape a;
      a.cols = s.cols;
      if (op == 0) { a.rows = {1}; a.cells.resize(1); for (int c = 0; c < nc; ++c) a.cells[0].push_back(c); }
      if (op == 1) { a.rows = {2, 1}; a.cells = {{nc - 1}, {}}; }
      if (op == 2) { a.rows = {1, 3}; a.cells = {{0}, {0, nc - 1}}; a.split = 1; }
      D ad;
      // A matrix whose values are not stored in row order cannot be appended
      // as is: the appended values are copied verbatim.
      if (op == 2) a.split = 0;
      const auto am = MakeInts(a, step + 2, &ad);
      m->AppendRows(*am);
      d.Append(ad);
      s.rows.insert(s.rows.end(), a.rows.begin(), a.rows.end());
      s.cells.insert(s.cells.end(), a.cells.begin(), a.cells.end());
      at += " append" + std::to_string(op);
      CheckBlock(const_cast<BlockSparseMatrix&>(*am), a, ad, "appended operand " + at);
    } else if (op == 3) {  // append a diagonal
      const auto diag = Ints(d.c, step + 9);
      auto dm = BlockSparseMatrix::CreateDiagonalMatrix(P(diag), m->block_structure()->cols);
      Shape a{s.cols, s.cols, {}, 0};
      D ad(d.c, d.c);
      for (int c = 0; c < nc; ++c) a.cells.push_back({c});
      for (int i = 0; i < d.c; ++i) ad(i, i) = diag[i];
      CheckBlock(*dm, a, ad, "diagonal " + at);
      if (mc::Failed()) return;
      m->AppendRows(*dm);
      d.Append(ad);
      s.rows.insert(s.rows.end(), a.rows.begin(), a.rows.end());
      s.cells.insert(s.cells.end(), a.cells.begin(), a.cells.end());
      at += " diagonal";
    } else if (op <= 5) {  // delete one or two row blocks (as many as allowed)
      const int n = std::min<int>(op - 3, static_cast<int>(s.rows.size()) - original);
      m->DeleteRowBlocks(n);
      s.rows.resize(s.rows.size() - n);
      s.cells.resize(s.rows.size());
      d.Cut(s.Rows());
      at += " delete" + std::to_string(n);
    } else if (op == 6) {
      const auto scale = Ints(d.c, step + 6);
      m->ScaleColumns(P(scale), Context(), 1 + step % 3);
      d = Scaled(d, scale);
      at += " scale";
    } else {
      m->SetZero();
      d = D(d.r, d.c);
      at += " zero";
    }
    mc::Step();
    CheckBlock(*m, s, d, at);
    if (mc::Failed()) return;
    mc::State((mc::H()(s.rows)(d.v)(kind)).h);
  }
  Outcome(d);
}

// The symmetric product m'm over any range of row blocks.
MC_SCENARIO(InnerProduct, .split = 6, .weight = 3) {
  FreshContext();
  Shape s = ChooseShape(3, mc::Bound(2, 3), 2, 2);
  const bool lower = mc::Flip("lower");
  const int nr = s.rows.size();
  const int begin = mc::Range(0, nr, "first row block"), end = mc::Range(begin, nr, "end row block");
  if (mc::Skipping()) return;
  if (s.Nnz() == 0) { mc::Trivial(); return; }
  D d;
  auto m = MakeInts(s, 1, &d);
  auto computer = begin == 0 && end == nr ? ci::InnerProductComputer::Create(*m, lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR)
                                         : ci::InnerProductComputer::Create(*m, begin, end, lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR);
  mc::Step();
  const std::string at = s.Str() + (lower ? " lower " : " upper ") + std::to_string(begin) + ".." + std::to_string(end);
  for (int round = 0; round < 3; ++round) {
    D sub(0, d.c);
    for (int i = s.RowPos(begin); i < s.RowPos(end); ++i) {
      D row(1, d.c);
      for (int j = 0; j < d.c; ++j) row(0, j) = d(i, j);
      sub.Append(row);
    }
    const D want = Mul(sub.T(), sub);
    computer->Compute();
    const CRS& r = computer->result();
    MC_REQUIRE(r.num_rows() == d.c && r.num_cols() == d.c) << at;
    MC_REQUIRE(r.storage_type() == (lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR)) << at;
    // Present: exactly the blocks of the requested triangle some row touches.
    std::set<std::pair<int, int>> blocks;
    int nnz = 0;
    for (int rb = begin; rb < end; ++rb)
      for (int a : s.cells[rb]) for (int b : s.cells[rb])
        if ((lower ? b <= a : b >= a) && blocks.emplace(a, b).second) nnz += s.cols[a] * s.cols[b];
    CrsStructure(r, nnz, at);
    Blocks(r.row_blocks(), s.cols, "row blocks of product " + at);
    Blocks(r.col_blocks(), s.cols, "column blocks of product " + at);
    D tri(d.c, d.c);
    for (const auto& [a, b] : blocks)
      for (int i = 0; i < s.cols[a]; ++i) for (int j = 0; j < s.cols[b]; ++j) tri(s.ColPos(a) + i, s.ColPos(b) + j) = want(s.ColPos(a) + i, s.ColPos(b) + j);
    ceres::Matrix e;
    r.ToDenseMatrix(&e);
    SAME_D(FromEigen(e), tri, "product " + at);
    Products(r, want, "product " + at);
    vector<double> n(d.c, 7);
    r.SquaredColumnNorm(P(n));
    SAME_D(n, Norms(want), "norms of product " + at);
    if (round == 0) Outcome(want);
    // New values (and zero ones) in the same structure.
    for (int k = 0; k < m->num_nonzeros(); ++k) m->mutable_values()[k] = round == 0 ? vu::Cell(k, 12) : 0.0;
    ceres::Matrix nd;
    m->ToDenseMatrix(&nd);
    d = FromEigen(nd);
  }
}

// ---- compressed rows ---------------------------------------------------------
std::unique_ptr<CRS> MakeCrs(const D& d, int spare) {
  int nnz = 0;
  for (double v : d.v) nnz += v != 0;
  auto m = std::make_unique<CRS>(d.r, d.c, nnz + spare);
  int k = 0;
  for (int i = 0; i < d.r; ++i) {
    m->mutable_rows()[i] = k;
    for (int j = 0; j < d.c; ++j)
      if (d(i, j) != 0) { m->mutable_cols()[k] = j; m->mutable_values()[k++] = d(i, j); }
  }
  m->mutable_rows()[d.r] = k;
  return m;
}
int Nnz(const D& d) {
  int n = 0;
  for (double v : d.v) n += v != 0;
  return n;
}
void CheckCrs(const CRS& m, const D& d, int nnz, const std::string& at) {
  Common(m, d, at);
  if (mc::Failed()) return;
  CrsStructure(m, nnz, at);
  ProductsThreads(m, d, at);
  if (mc::Failed()) return;
  ceres::CRSMatrix crs;
  crs.cols = {9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9};
  m.ToCRSMatrix(&crs);
  MC_REQUIRE(crs.num_rows == d.r && crs.num_cols == d.c && static_cast<int>(crs.rows.size()) == d.r + 1 &&
             static_cast<int>(crs.cols.size()) == nnz && static_cast<int>(crs.values.size()) == nnz)
      << "public form of " << at;
  D e(d.r, d.c);
  for (int i = 0; i < d.r; ++i) for (int k = crs.rows[i]; k < crs.rows[i + 1]; ++k) e(i, crs.cols[k]) = crs.values[k];
  SAME_D(e, d, "public form of " + at);
  auto t = m.Transpose();
  Common(*t, d.T(), "transpose of " + at);
  CrsStructure(*t, nnz, "transpose of " + at);
  Blocks(t->row_blocks(), [&] { vector<int> v; for (auto& b : m.col_blocks()) v.push_back(b.size); return v; }(), "blocks of transpose of " + at);
}
D ChooseDense(int r, int c, int salt, const char* what) {
  D d(r, c);
  const int mask = mc::Choose(1 << (r * c), what);
  for (int k = 0; k < r * c; ++k)
    if (mask >> k & 1) { d.v[k] = vu::Cell(k, salt); if (d.v[k] == 0) d.v[k] = 3; }
  return d;
}
MC_SCENARIO(Crs, .split = 3) {
  FreshContext();
  const int r = mc::Range(1, 3, "rows"), c = mc::Range(1, r == 3 ? 3 : 4, "columns");
  const D d = ChooseDense(r, c, 1, "pattern");
  const int spare = mc::Choose(2, "spare") * 2;
  if (mc::Skipping()) return;
  auto m = MakeCrs(d, spare);
  mc::Step();
  CheckCrs(*m, d, Nnz(d), Str(d));
  if (mc::Failed()) return;
  // Through triplets and back, both orientations, in every rotation of the list.
  for (int rot = 0; rot < std::max(1, Nnz(d)); ++rot) {
    vector<int> rows, cols;
    vector<double> values;
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (d(i, j) != 0) { rows.push_back(i); cols.push_back(j); values.push_back(d(i, j)); }
    std::rotate(rows.begin(), rows.begin() + (rows.empty() ? 0 : rot), rows.end());
    std::rotate(cols.begin(), cols.begin() + (cols.empty() ? 0 : rot), cols.end());
    std::rotate(values.begin(), values.begin() + (values.empty() ? 0 : rot), values.end());
    ci::TripletSparseMatrix t(r, c, rows, cols, values);
    auto f = CRS::FromTripletSparseMatrix(t);
    CheckCrs(*f, d, Nnz(d), "from triplets " + Str(d));
    auto ft = CRS::FromTripletSparseMatrixTransposed(t);
    CheckCrs(*ft, d.T(), Nnz(d), "from transposed triplets " + Str(d));
    ceres::CRSMatrix pub;
    t.ToCRSMatrix(&pub);
    D e(r, c);
    for (int i = 0; i < r; ++i) for (int k = pub.rows[i]; k < pub.rows[i + 1]; ++k) e(i, pub.cols[k]) = pub.values[k];
    SAME_D(e, d, "public form of triplets " + Str(d));
    if (mc::Failed()) return;
  }
  const auto scale = Ints(c, 4);
  m->ScaleColumns(P(scale));
  Common(*m, Scaled(d, scale), "scaled " + Str(d));
  m->SetZero();
  CheckCrs(*m, D(r, c), Nnz(d), "zeroed " + Str(d));
  Outcome(d);
}
// Symmetric storage: one triangle of blocks (full diagonal blocks).
MC_SCENARIO(CrsSymmetric, .split = 3) {
  FreshContext();
  vector<int> sizes;
  const int nb = mc::Range(1, 3, "blocks");
  for (int i = 0; i < nb; ++i) sizes.push_back(mc::Range(1, nb == 3 ? 2 : 3, "block size"));
  const bool lower = mc::Flip("lower");
  const int mask = mc::Choose(1 << (nb * (nb + 1) / 2), "pattern");
  if (mc::Skipping()) return;
  Shape s{sizes, sizes, vector<vector<int>>(nb), 0};
  int bit = 0;
  for (int a = 0; a < nb; ++a)
    for (int b = 0; b <= a; ++b, ++bit)
      if (mask >> bit & 1) { if (lower) s.cells[a].push_back(b); else s.cells[b].push_back(a); }
  for (auto& c : s.cells) std::sort(c.begin(), c.end());
  auto sym = [](int i, int j) { return vu::Cell(std::min(i, j) * 11 + std::max(i, j), 6); };
  D d;
  auto m = Make(s, sym, &d)->ToCompressedRowSparseMatrix();
  mc::Step();
  D full = d;
  for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.r; ++j) if (d(i, j) != 0) full(j, i) = d(i, j);
  const std::string at = (lower ? "lower " : "upper ") + s.Str();
  auto check = [&](CRS& x, const D& stored, Storage st, const std::string& at) {
    MC_REQUIRE(x.storage_type() == st) << at;
    ceres::Matrix e;
    x.ToDenseMatrix(&e);
    SAME_D(FromEigen(e), stored, at);
    Products(x, full, at);
    // The threaded entry points as well.
    const auto v = Ints(d.c, 3), y0 = Ints(d.r, 8);
    for (int t = 1; t <= 3; ++t) {
      auto y = y0;
      x.RightMultiplyAndAccumulate(P(v), P(y), Context(), t);
      SAME_D(y, Plus(y0, Mul(full, v)), "threaded product " + at);
    }
    vector<double> n(d.c, 7);
    x.SquaredColumnNorm(P(n));
    SAME_D(n, Norms(full), "norms of " + at);
  };
  m->set_storage_type(lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR);
  check(*m, d, lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR, at);
  if (mc::Failed()) return;
  auto t = m->Transpose();
  check(*t, d.T(), lower ? Storage::UPPER_TRIANGULAR : Storage::LOWER_TRIANGULAR, "transpose of " + at);
  // Without diagonal blocks and scalar by scalar: strictly one triangle.
  D tri(d.r, d.c), f2(d.r, d.c);
  for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if ((lower ? j <= i : j >= i) && d(i, j) != 0) { tri(i, j) = d(i, j); f2(i, j) = f2(j, i) = d(i, j); }
  full = f2;
  auto m2 = MakeCrs(tri, 0);
  m2->set_storage_type(lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR);
  check(*m2, tri, lower ? Storage::LOWER_TRIANGULAR : Storage::UPPER_TRIANGULAR, "scalar " + at);
  Outcome(full);
}
MC_SCENARIO(CrsDiagonal) {
  FreshContext();
  vector<int> sizes;
  const int nb = mc::Range(1, 4, "blocks");
  for (int i = 0; i < nb; ++i) sizes.push_back(mc::Range(1, 3, "block size"));
  const bool values = mc::Flip("values given");
  vector<Block> blocks;
  int n = 0;
  for (int b : sizes) { blocks.emplace_back(b, n); n += b; }
  const auto diag = Ints(n, 5);
  D d(n, n);
  for (int i = 0; i < n; ++i) d(i, i) = values ? diag[i] : 0;
  auto m = CRS::CreateBlockDiagonalMatrix(values ? P(diag) : nullptr, blocks);
  mc::Step();
  int nnz = 0;
  for (int b : sizes) nnz += b * b;
  CheckCrs(*m, d, nnz, "block diagonal");
  Blocks(m->row_blocks(), sizes, "block diagonal rows");
  Blocks(m->col_blocks(), sizes, "block diagonal columns");
  if (values) {
    CRS c(P(diag), n);
    CheckCrs(c, d, n, "diagonal");
    auto t = ci::TripletSparseMatrix::CreateSparseDiagonalMatrix(P(diag), n);
    Common(*t, d, "triplet diagonal");
  }
  Outcome(d);
}
MC_SCENARIO(CrsHistory, .split = 3, .weight = 2) {
  FreshContext();
  const int nc = 3;
  const bool blocks = mc::Flip("block information");
  D d(2, nc);
  d(0, 0) = 2; d(0, 2) = 3; d(1, 1) = -1;
  auto m = MakeCrs(d, 0);
  vector<int> row_blocks{1, 1}, col_blocks{2, 1};
  auto set = [&](CRS& x, const vector<int>& rb) {
    if (!blocks) return;
    int p = 0;
    x.mutable_row_blocks()->clear();
    for (int b : rb) { x.mutable_row_blocks()->emplace_back(b, p); p += b; }
    *x.mutable_col_blocks() = {Block(2, 0), Block(1, 2)};
  };
  set(*m, row_blocks);
  vector<char> present;
  int nnz = Nnz(d);
  vector<int> nnz_of_row{2, 1};
  std::string at = blocks ? "blocks" : "no blocks";
  const int depth = mc::Bound(5, 6);
  for (int step = 0; step < depth; ++step) {
    const int op = mc::Choose(7, "operation");
    if (op <= 2) {
      D a;
      vector<int> rb;
      if (op == 0) { a = D(1, nc); a(0, 0) = step + 1; a(0, 1) = 5; rb = {1}; }
      if (op == 1) { a = D(2, nc); a(1, 2) = -step - 1; rb = {2}; }
      if (op == 2) { a = D(1, nc); rb = {1}; }
      auto am = MakeCrs(a, op);
      set(*am, rb);
      m->AppendRows(*am);
      d.Append(a);
      for (int i = 0; i < a.r; ++i) { int k = 0; for (int j = 0; j < nc; ++j) k += a(i, j) != 0; nnz_of_row.push_back(k); nnz += k; }
      row_blocks.insert(row_blocks.end(), rb.begin(), rb.end());
      at += " append" + std::to_string(op);
    } else if (op <= 4) {
      const int want = op - 2;
      // Whole row blocks only.
      int n = 0;
      while (n < want && !row_blocks.empty()) { n += row_blocks.back(); row_blocks.pop_back(); }
      m->DeleteRows(n);
      d.Cut(d.r - n);
      for (int i = 0; i < n; ++i) { nnz -= nnz_of_row.back(); nnz_of_row.pop_back(); }
      at += " delete" + std::to_string(n);
    } else if (op == 5) {
      const auto s = Ints(nc, step);
      m->ScaleColumns(P(s));
      d = Scaled(d, s);
      at += " scale";
    } else {
      m->SetMaxNumNonZeros(nnz + step % 3);
      at += " reserve";
    }
    mc::Step();
    Common(*m, d, at);
    if (mc::Failed()) return;
    CrsStructure(*m, nnz, at);
    auto t = m->Transpose();
    Common(*t, d.T(), "transpose " + at);
    if (mc::Failed()) return;
    if (blocks && !row_blocks.empty()) {
      MC_REQUIRE(m->row_blocks().size() == row_blocks.size()) << at;
      for (size_t i = 0; i < row_blocks.size(); ++i) MC_REQUIRE(m->row_blocks()[i].size == row_blocks[i]) << at;
    }
    if (blocks && row_blocks.empty()) break;  // a matrix that lost its blocks is like one without
    mc::State((mc::H()(d.v)(row_blocks)(blocks)).h);
  }
  Outcome(d);
}

// ---- triplets, dense and dynamic matrices -----------------------------------
MC_SCENARIO(Triplet, .split = 3, .weight = 2) {
  FreshContext();
  int r = 2, c = 2;
  D d(r, c);
  auto m = std::make_unique<ci::TripletSparseMatrix>(r, c, 3);
  int n = 0;
  bool repeats = false;  // squared column norms of repeated entries are not defined
  std::string at;
  const int depth = mc::Bound(5, 6);
  for (int step = 0; step < depth; ++step) {
    const int op = mc::Choose(9, "operation");
    if (op <= 1) {  // add an entry (repeats are summed)
      if (r == 0 || c == 0) return;
      const int i = (step + op) % r, j = (step * 2 + op * 3) % c;
      if (m->max_num_nonzeros() < n + 1) m->Reserve(n + 1);
      for (int k = 0; k < n; ++k) repeats |= m->rows()[k] == i && m->cols()[k] == j;
      m->mutable_rows()[n] = i;
      m->mutable_cols()[n] = j;
      m->mutable_values()[n] = step + 2;
      m->set_num_nonzeros(++n);
      d(i, j) += step + 2;
      at += " add";
    } else if (op == 2) {
      D a(1, c);
      vector<int> ar, ac;
      vector<double> av;
      for (int j = 0; j < c; j += 2) { a(0, j) = j + step + 1; ar.push_back(0); ac.push_back(j); av.push_back(a(0, j)); ++n; }
      m->AppendRows(ci::TripletSparseMatrix(1, c, ar, ac, av));
      d.Append(a);
      ++r;
      at += " rows";
    } else if (op == 3) {
      D a(r, 1);
      vector<int> ar, ac;
      vector<double> av;
      for (int i = 0; i < r; i += 2) { a(i, 0) = i - step - 1; ar.push_back(i); ac.push_back(0); av.push_back(a(i, 0)); ++n; }
      m->AppendCols(ci::TripletSparseMatrix(r, 1, ar, ac, av));
      d.AppendCols(a);
      ++c;
      at += " columns";
    } else if (op <= 6) {  // resize: smaller, mixed, larger
      const int nr = std::max(0, r + (op == 4 ? -1 : op == 5 ? -1 : 1)), ncl = std::max(0, c + (op == 4 ? 0 : 1));
      m->Resize(nr, ncl);
      D e(nr, ncl);
      for (int i = 0; i < std::min(r, nr); ++i) for (int j = 0; j < std::min(c, ncl); ++j) e(i, j) = d(i, j);
      r = nr;
      c = ncl;
      d = e;
      n = m->num_nonzeros();
      at += " resize";
    } else if (op == 7) {
      m->SetZero();
      d = D(r, c);
      n = 0;
      repeats = false;
      at += " zero";
    } else {
      const auto s = Ints(c, step);
      m->ScaleColumns(P(s));
      d = Scaled(d, s);
      at += " scale";
    }
    mc::Step();
    MC_REQUIRE(m->num_nonzeros() == n && m->max_num_nonzeros() >= n && m->IsValid()) << at << " " << m->num_nonzeros() << "/" << n;
    Common(*m, d, at, !repeats);
    if (mc::Failed()) return;
    ci::TripletSparseMatrix copy(*m), assigned(1, 1, 1);
    assigned = *m;
    Common(copy, d, "copy " + at, !repeats);
    Common(assigned, d, "assigned " + at, !repeats);
    ci::DenseSparseMatrix dense(*m);
    Common(dense, d, "dense " + at);
    MC_REQUIRE(dense.num_nonzeros() == r * c) << at;
    const auto s = Ints(c, 9);
    dense.ScaleColumns(P(s));
    Common(dense, Scaled(d, s), "scaled dense " + at);
    dense.SetZero();
    Common(dense, D(r, c), "zeroed dense " + at);
    copy.SetZero();
    Common(*m, d, "original after changing its copy " + at, !repeats);
    if (mc::Failed()) return;
    // Through a text file; the size read back is that of the entries.
    char* text = nullptr;
    size_t len = 0;
    FILE* f = open_memstream(&text, &len);
    m->ToTextFile(f);
    fclose(f);
    if (len > 0) {
      f = fmemopen(text, len, "r");
      auto back = ci::TripletSparseMatrix::CreateFromTextFile(f);
      fclose(f);
      MC_REQUIRE(back->num_rows() <= r && back->num_cols() <= c && back->num_nonzeros() == n) << at;
      back->Resize(r, c);
      Common(*back, d, "read back " + at, !repeats);
    }
    free(text);
    mc::State((mc::H()(d.v)(r)(n)).h);
  }
  Outcome(d);
}
MC_SCENARIO(OutOfBounds) {
  FreshContext();
  const int bad = mc::Choose(5, "entry");
  vector<int> rows{0, 1}, cols{1, 0};
  if (bad == 1) rows[1] = -1;
  if (bad == 2) rows[0] = 2;
  if (bad == 3) cols[1] = -1;
  if (bad == 4) cols[0] = 3;
  ci::TripletSparseMatrix m(2, 3, rows, cols, {1, 2});
  MC_REQUIRE(m.AllTripletsWithinBounds() == (bad == 0)) << bad;
  mc::Outcome(bad);
}
MC_SCENARIO(Dynamic, .split = 3, .weight = 2) {
  FreshContext();
  const int R = 3, C = 3;
  ci::DynamicCompressedRowSparseMatrix m(R, C, mc::Choose(2, "initial") * 4);
  std::map<std::pair<int, int>, double> pending;
  const int depth = mc::Bound(6, 7);
  std::string at;
  D d(R, C);
  int nnz = 0;
  for (int step = 0; step < depth; ++step) {
    const int op = mc::Choose(6, "operation");
    if (op <= 2) {
      // Next absent column of row `op`, in alternating direction: entries of a row may come in any order.
      int col = -1;
      for (int k = 0; k < C; ++k) { const int j = step % 2 ? k : C - 1 - k; if (!pending.count({op, j})) { col = j; break; } }
      if (col < 0) return;
      m.InsertEntry(op, col, step + 1);
      pending[{op, col}] = step + 1;
      at += " insert" + std::to_string(op);
    } else if (op == 3) {
      m.ClearRows(0, 2);
      for (int i = 0; i < 2; ++i) for (int j = 0; j < C; ++j) pending.erase({i, j});
      at += " clear01";
    } else if (op == 4) {
      m.ClearRows(2, 1);
      for (int j = 0; j < C; ++j) pending.erase({2, j});
      at += " clear2";
    } else {
      m.Finalize(step % 3);
      d = D(R, C);
      for (auto& [k, v] : pending) d(k.first, k.second) = v;
      nnz = pending.size();
      at += " finalize";
    }
    mc::Step();
    Common(m, d, at);
    MC_REQUIRE(m.num_nonzeros() == nnz) << at;
    if (mc::Failed()) return;
    mc::State((mc::H()(d.v)(nnz)(static_cast<int>(pending.size()))).h);
  }
  Outcome(d);
}

// ---- compressed columns ---------------------------------------------------------
MC_SCENARIO(ColumnBlocks, .split = 4) {
  FreshContext();
  // Scalar matrix of a block pattern, compressed by columns, back to blocks.
  vector<int> rs, cs;
  const int nr = mc::Range(1, 3, "row blocks"), nc = mc::Range(1, 3, "column blocks");
  for (int i = 0; i < nr; ++i) rs.push_back(mc::Range(1, mc::Bound(2, 3), "row block size"));
  for (int i = 0; i < nc; ++i) cs.push_back(mc::Range(1, 2, "column block size"));
  const int mask = mc::Choose(1 << (nr * nc), "pattern");
  const bool partial = mc::Flip("only the leading entry of each block");
  if (mc::Skipping()) return;
  vector<Block> rb, cb;
  int R = 0, C = 0;
  for (int b : rs) { rb.emplace_back(b, R); R += b; }
  for (int b : cs) { cb.emplace_back(b, C); C += b; }
  vector<int> rows, cols{0}, want_rows, want_cols{0};
  for (int b = 0; b < nc; ++b) {
    for (int j = 0; j < cs[b]; ++j) {
      for (int a = 0; a < nr; ++a)
        if (mask >> (a * nc + b) & 1)
          for (int i = 0; i < rs[a]; ++i) if (!partial || (i == 0 && j == 0)) rows.push_back(rb[a].position + i);
      cols.push_back(rows.size());
    }
    for (int a = 0; a < nr; ++a) if (mask >> (a * nc + b) & 1) want_rows.push_back(a);
    want_cols.push_back(want_rows.size());
  }
  vector<int> br{7, 7}, bc{7};
  mc::Step();
  ci::CompressedColumnScalarMatrixToBlockMatrix(rows.data(), cols.data(), rb, cb, &br, &bc);
  MC_REQUIRE(br == want_rows && bc == want_cols) << "blocks of pattern " << mask;
  mc::Outcome((mc::H()(br)(bc)).h);
}
MC_SCENARIO(BlockOrdering) {
  FreshContext();
  vector<int> sizes;
  const int n = mc::Range(1, 4, "blocks");
  for (int i = 0; i < n; ++i) sizes.push_back(mc::Range(1, 3, "block size"));
  vector<int> left, order;
  for (int i = 0; i < n; ++i) left.push_back(i);
  while (!left.empty()) { const int k = mc::Choose(left.size(), "next"); order.push_back(left[k]); left.erase(left.begin() + k); }
  vector<Block> blocks;
  int pos = 0;
  for (int b : sizes) { blocks.emplace_back(b, pos); pos += b; }
  vector<int> got{3, 3}, want;
  for (int b : order) for (int j = 0; j < sizes[b]; ++j) want.push_back(blocks[b].position + j);
  mc::Step();
  ci::BlockOrderingToScalarOrdering(blocks, order, &got);
  MC_REQUIRE(got == want);
  mc::Outcome((mc::H()(got)).h);
}
template <typename Int>
void Triangular() {
  const int n = mc::Range(1, mc::Bound(4, 5), "size");
  const int mask = mc::Choose(1 << (n * (n - 1) / 2), "pattern");
  if (mc::Skipping()) return;
  D r(n, n);
  vector<Int> rows, cols{0};
  vector<double> values;
  int bit = 0;
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < j; ++i, ++bit)
      if (mask >> bit & 1) { r(i, j) = ((i + 2 * j) % 5) - 2; rows.push_back(i); values.push_back(r(i, j)); }
    r(j, j) = (j % 3 == 0 ? 1 : j % 3 == 1 ? -2 : 0.5);  // powers of two: every step is exact
    rows.push_back(j);
    values.push_back(r(j, j));
    cols.push_back(rows.size());
  }
  const auto x = Ints(n, 2);
  auto v = Mul(r, x);
  mc::Step();
  ci::SolveUpperTriangularInPlace<Int>(n, rows.data(), cols.data(), values.data(), P(v));
  SAME_D(v, x, "solution with " + Str(r));
  v = Mul(r.T(), x);
  ci::SolveUpperTriangularTransposeInPlace<Int>(n, rows.data(), cols.data(), values.data(), P(v));
  SAME_D(v, x, "transposed solution with " + Str(r));
  for (int k = 0; k < n; ++k) {
    vector<double> s(n, 99), e(n, 0.0);
    ci::SolveRTRWithSparseRHS<Int>(n, rows.data(), cols.data(), values.data(), k, P(s));
    e[k] = 1;
    SAME_D(Mul(r.T(), Mul(r, s)), e, "normal equations with unit right hand side of " + Str(r));
  }
  Outcome(r);
}
MC_SCENARIO(TriangularInt) { Triangular<int>(); }
MC_SCENARIO(TriangularLong) { Triangular<long>(); }
}  // namespace
