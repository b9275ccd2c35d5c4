// C15 (continued): partitioned views and structure detection.
#include "ceres/detect_structure.h"
#include "ceres/linear_solver.h"
#include "ceres/partitioned_matrix_view.h"
#include "lin.h"

namespace {
using namespace lin;
using ci::BlockSparseMatrix;

double dummy;
double* P(vector<double>& v) { return v.empty() ? &dummy : v.data(); }
const double* P(const vector<double>& v) { return v.empty() ? &dummy : v.data(); }

int Common(const vector<int>& v) {
  if (v.empty()) return 0;
  for (int x : v) if (x != v[0]) return Eigen::Dynamic;
  return v[0];
}
void Detected(const SchurShape& s, int* r, int* e, int* f) {
  vector<int> vr, ve, vf;
  for (size_t i = 0; i < s.rows.size(); ++i) {
    if (s.cells[i][0] >= s.num_e) continue;
    vr.push_back(s.rows[i]);
    ve.push_back(s.cols[s.cells[i][0]]);
    for (size_t k = 1; k < s.cells[i].size(); ++k) vf.push_back(s.cols[s.cells[i][k]]);
  }
  *r = Common(vr);
  *e = Common(ve);
  *f = Common(vf);
}
bool CheckDetect(const SchurShape& s, const BlockSparseMatrix& m, int* r, int* e, int* f) {
  int wr, we, wf;
  Detected(s, &wr, &we, &wf);
  *r = *e = *f = 77;
  ci::DetectStructure(*m.block_structure(), s.num_e, r, e, f);
  if (*r != wr || *e != we || *f != wf) {
    MC_FAIL() << "detected " << *r << "," << *e << "," << *f << " expected " << wr << "," << we << "," << wf << " for " << s.Str() << " e " << s.num_e;
    return false;
  }
  return true;
}
D Part(const D& d, int r0, int r1, int c0, int c1) {
  D o(r1 - r0, c1 - c0);
  for (int i = r0; i < r1; ++i) for (int j = c0; j < c1; ++j) o(i - r0, j - c0) = d(i, j);
  return o;
}
#define SAME(got, want, what) MC_REQUIRE((got) == (want)) << what << " gives " << Str(got) << ", expected " << Str(want) << " " << at

// Block diagonal of m'm with the given block sizes.
D BlockDiagonal(const D& m, const vector<int>& sizes) {
  const D g = Mul(m.T(), m);
  D o(g.r, g.c);
  int pos = 0;
  for (int b : sizes) {
    for (int i = pos; i < pos + b; ++i) for (int j = pos; j < pos + b; ++j) o(i, j) = g(i, j);
    pos += b;
  }
  return o;
}
void CheckDiagonal(const BlockSparseMatrix& b, const vector<int>& sizes, const D& want, const std::string& at, const char* what) {
  const auto* bs = b.block_structure();
  MC_REQUIRE(bs->rows.size() == sizes.size() && bs->cols.size() == sizes.size()) << what << at;
  int pos = 0;
  for (size_t i = 0; i < sizes.size(); ++i) {
    MC_REQUIRE(bs->rows[i].block.size == sizes[i] && bs->rows[i].block.position == pos && bs->cols[i] == bs->rows[i].block &&
               bs->rows[i].cells.size() == 1 && bs->rows[i].cells[0].block_id == static_cast<int>(i))
        << what << " block " << i << at;
    pos += sizes[i];
  }
  ceres::Matrix e;
  b.ToDenseMatrix(&e);
  SAME(FromEigen(e), want, what);
}
void CheckPartition(const vector<int>& p, int begin, int end, int threads, const std::string& at) {
  if (begin == end) return;
  MC_REQUIRE(p.size() >= 2 && p.front() == begin && p.back() == end) << "partition " << at;
  for (size_t i = 1; i < p.size(); ++i) MC_REQUIRE(p[i - 1] < p[i]) << "partition " << at;
}

void CheckView(const SchurShape& s, BlockSparseMatrix& m, D d, int threads, int r, int e, int f) {
  const std::string at = " for " + s.Str() + " e " + std::to_string(s.num_e) + " threads " + std::to_string(threads) + " template " +
                         std::to_string(r) + "," + std::to_string(e) + "," + std::to_string(f);
  ci::LinearSolver::Options o;
  o.elimination_groups = {s.num_e};
  o.num_threads = threads;
  o.context = Context();
  o.row_block_size = r;
  o.e_block_size = e;
  o.f_block_size = f;
  auto view = ci::PartitionedMatrixViewBase::Create(o, m);
  mc::Step();
  const vector<int> es(s.cols.begin(), s.cols.begin() + s.num_e), fs(s.cols.begin() + s.num_e, s.cols.end());
  int ce = 0;
  for (int x : es) ce += x;
  const int cf = d.c - ce, nf = fs.size();
  MC_REQUIRE(view->num_col_blocks_e() == s.num_e && view->num_col_blocks_f() == nf && view->num_cols_e() == ce && view->num_cols_f() == cf &&
             view->num_rows() == d.r && view->num_cols() == d.c)
      << at;
  if (threads > 1) {
    CheckPartition(view->e_cols_partition(), 0, s.num_e, threads, at);
    CheckPartition(view->f_cols_partition(), s.num_e, s.num_e + nf, threads, at);
  }
  auto ete = view->CreateBlockDiagonalEtE(), ftf = view->CreateBlockDiagonalFtF();
  for (int round = 0; round < 2; ++round) {
    if (round == 1) {
      for (int k = 0; k < m.num_nonzeros(); ++k) m.mutable_values()[k] = vu::Cell(k, 6);
      ceres::Matrix em;
      m.ToDenseMatrix(&em);
      d = FromEigen(em);
      view->UpdateBlockDiagonalEtE(ete.get());
      view->UpdateBlockDiagonalFtF(ftf.get());
    }
    const D E = Part(d, 0, d.r, 0, ce), F = Part(d, 0, d.r, ce, d.c);
    CheckDiagonal(*ete, es, BlockDiagonal(E, es), at, "block diagonal of E'E");
    CheckDiagonal(*ftf, fs, BlockDiagonal(F, fs), at, "block diagonal of F'F");
    const auto x = Ints(d.r, 4), y0 = Ints(d.r, 2), xe = Ints(ce, 7), xf = Ints(cf, 8), ye = Ints(ce, 1), yf = Ints(cf, 3);
    auto y = y0;
    view->RightMultiplyAndAccumulateE(P(xe), P(y));
    SAME(y, Plus(y0, Mul(E, xe)), "E x");
    y = y0;
    view->RightMultiplyAndAccumulateF(P(xf), P(y));
    SAME(y, Plus(y0, Mul(F, xf)), "F x");
    const auto we = Plus(ye, Mul(E.T(), x)), wf = Plus(yf, Mul(F.T(), x));
    y = ye;
    view->LeftMultiplyAndAccumulateE(P(x), P(y));
    SAME(y, we, "E'x");
    y = ye;
    view->LeftMultiplyAndAccumulateESingleThreaded(P(x), P(y));
    SAME(y, we, "E'x (one thread)");
    y = yf;
    view->LeftMultiplyAndAccumulateF(P(x), P(y));
    SAME(y, wf, "F'x");
    y = yf;
    view->LeftMultiplyAndAccumulateFSingleThreaded(P(x), P(y));
    SAME(y, wf, "F'x (one thread)");
    if (threads > 1) {
      y = ye;
      view->LeftMultiplyAndAccumulateEMultiThreaded(P(x), P(y));
      SAME(y, we, "E'x (threads)");
      if (nf > 0) {
        y = yf;
        view->LeftMultiplyAndAccumulateFMultiThreaded(P(x), P(y));
        SAME(y, wf, "F'x (threads)");
      }
    }
  }
  mc::H h;
  h(d.v)(ce);
  mc::Outcome(h.h);
}
void TestView(const SchurShape& s, int threads, bool generic) {
  D d;
  auto m = MakeInts(s, 1, &d);
  int r, e, f;
  if (!CheckDetect(s, *m, &r, &e, &f)) return;
  if (generic) CheckView(s, *m, d, threads, Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic);
  else CheckView(s, *m, d, threads, r, e, f);
}
// Every specialisation on small structures.
MC_SCENARIO(ViewSpecialised, .split = 5, .weight = 3) {
  FreshContext();
  const SchurShape s = ChooseSchur(Specialised(), 2, 2, mc::Bound(1, 2), 1);
  const int threads = mc::Range(1, mc::Bound(2, 3), "threads");
  if (mc::Skipping()) return;
  TestView(s, threads, false);
}
// More structures with few sizes.
MC_SCENARIO(ViewStructures, .split = 6, .weight = 3) {
  FreshContext();
  const SchurShape s = ChooseSchur({{2, 2, 2}, {1, 2, 1}}, mc::Bound(2, 3), mc::Bound(2, 3), 2, mc::Bound(1, 2));
  const int threads = mc::Pick({1, 2, 4}, "threads");
  const bool generic = mc::Flip("generic template");
  if (mc::Skipping()) return;
  TestView(s, threads, generic);
}
// Detection over all size assignments, not just one odd block.
MC_SCENARIO(Detect, .split = 6) {
  FreshContext();
  SchurShape s;
  s.num_e = mc::Range(1, 2, "eliminated blocks");
  const int nf = mc::Range(0, 2, "other blocks"), top = mc::Bound(2, 3);
  for (int i = 0; i < s.num_e + nf; ++i) s.cols.push_back(mc::Range(1, top, "column block size"));
  for (int e = 0; e < s.num_e; ++e) {
    const int n = mc::Range(1, 2, "rows of the eliminated block");
    for (int r = 0; r < n; ++r) {
      s.rows.push_back(mc::Range(1, 2, "row block size"));
      auto c = Subset(s.num_e + nf, "cells", s.num_e);
      c.insert(c.begin(), e);
      s.cells.push_back(c);
    }
  }
  if (nf > 0 && mc::Flip("tail row")) {
    s.rows.push_back(3);
    s.cells.push_back({s.num_e});
    if (nf > 1 && mc::Flip("both")) s.cells.back().push_back(s.num_e + 1);
  }
  if (mc::Skipping()) return;
  D d;
  auto m = MakeInts(s, 1, &d);
  mc::Step();
  int r, e, f;
  CheckDetect(s, *m, &r, &e, &f);
  mc::Outcome((mc::H()(r)(e)(f)(s.cols)(s.rows)).h);
}
// Nothing eliminated in any row, or no rows: refused, not misreported.
MC_SCENARIO(DetectNothing) {
  FreshContext();
  SchurShape s;
  s.cols = {2, 3};
  s.num_e = mc::Choose(2, "eliminated blocks");
  const int rows = mc::Choose(3, "rows");
  for (int i = 0; i < rows; ++i) { s.rows.push_back(2); s.cells.push_back({1}); }
  auto m = MakeInts(s, 1, nullptr);
  int r, e, f;
  MC_REQUIRE(mc::Dies([&] { ci::DetectStructure(*m->block_structure(), s.num_e, &r, &e, &f); })) << s.Str();
  mc::Outcome(rows);
}
}  // namespace
