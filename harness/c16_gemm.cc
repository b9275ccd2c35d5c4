// C16: small dense kernels, against triple loops over exact integers.
#include <array>

#include "ceres/small_blas.h"
#include "util.h"

using namespace ceres;
using namespace ceres::internal;
using vu::Buf;
using vu::Guarded;

namespace {
constexpr int D = Eigen::Dynamic;
using Gemm = void (*)(const double*, int, int, const double*, int, int, double*, int, int, int, int);
using Gemv = void (*)(const double*, int, int, const double*, double*);

struct GemmEntry {
  const char* name;
  bool transpose;
  int op;
  int r, c, b;  // fixed sizes of A (r x c) and the other dimension of B, or D
  Gemm f;
};
std::vector<GemmEntry>& Gemms() {
  static std::vector<GemmEntry> v;
  return v;
}
template <int R, int C, int B, int OP>
void AddGemm(bool naive_too) {
  Gemms().push_back({"MatrixMatrixMultiply", false, OP, R, C, B, &MatrixMatrixMultiply<R, C, C, B, OP>});
  Gemms().push_back({"MatrixTransposeMatrixMultiply", true, OP, R, C, B, &MatrixTransposeMatrixMultiply<R, C, R, B, OP>});
  if (naive_too) {
    Gemms().push_back({"MatrixMatrixMultiplyNaive", false, OP, R, C, B, &MatrixMatrixMultiplyNaive<R, C, C, B, OP>});
    Gemms().push_back({"MatrixTransposeMatrixMultiplyNaive", true, OP, R, C, B, &MatrixTransposeMatrixMultiplyNaive<R, C, R, B, OP>});
  }
}
template <int R, int C, int B>
void AddOps(bool naive_too = false) {
  AddGemm<R, C, B, -1>(naive_too);
  AddGemm<R, C, B, 0>(naive_too);
  AddGemm<R, C, B, 1>(naive_too);
}
const bool init_gemm = [] {
  AddOps<D, D, D>();
  Gemms().push_back({"MatrixMatrixMultiplyEigen", false, -1, D, D, D, &MatrixMatrixMultiplyEigen<D, D, D, D, -1>});
  Gemms().push_back({"MatrixMatrixMultiplyEigen", false, 0, D, D, D, &MatrixMatrixMultiplyEigen<D, D, D, D, 0>});
  Gemms().push_back({"MatrixMatrixMultiplyEigen", false, 1, D, D, D, &MatrixMatrixMultiplyEigen<D, D, D, D, 1>});
  Gemms().push_back({"MatrixTransposeMatrixMultiplyEigen", true, -1, D, D, D, &MatrixTransposeMatrixMultiplyEigen<D, D, D, D, -1>});
  Gemms().push_back({"MatrixTransposeMatrixMultiplyEigen", true, 0, D, D, D, &MatrixTransposeMatrixMultiplyEigen<D, D, D, D, 0>});
  Gemms().push_back({"MatrixTransposeMatrixMultiplyEigen", true, 1, D, D, D, &MatrixTransposeMatrixMultiplyEigen<D, D, D, D, 1>});
  AddOps<2, 3, 4>(); 
  AddOps<2, 3, 9>(true); AddOps<3, 3, 3>(true); AddOps<2, 6, 7>(true);
  AddOps<D, 3, D>(); AddOps<2, D, D>(); AddOps<2, 3, D>();
 AddOps<D, 9, 9>();
  return true;
}();

int Dim(int fixed, int max, const char* what) {
  return fixed == D ? mc::Range(1, max, what) : fixed;
}
}  // namespace

MC_SCENARIO(gemm, .split = 3, .weight = 3) {
  const GemmEntry& e = Gemms()[mc::Choose(Gemms().size(), "kernel")];
  const bool dyn = e.r == D && e.c == D && e.b == D;
  const int cap = dyn ? mc::Bound(7, 9) : 9;
  const int r = Dim(e.r, dyn ? cap : 5, "rows_a"), c = Dim(e.c, dyn ? cap : 6, "cols_a");
  const int b = Dim(e.b, 9, "cols_b");
  const int cr = e.transpose ? c : r, inner = e.transpose ? r : c;
  const int top = mc::Pick({0, 1, 3}, "start_row"), left = mc::Pick({0, 1, 2, 5}, "start_col");
  const int below = mc::Choose(2, "rows_below"), right = mc::Choose(3, "cols_right");
  const int fill = mc::Choose(e.op == 0 ? 3 : 2, "fill");
  const int rows = top + cr + below, cols = left + b + right;
  Guarded A(0, r * c), B(1, inner * b), C(2, rows * cols);
  Buf<> want(rows * cols);
  for (int i = 0; i < A.n; ++i) A[i] = vu::Cell(i, 1 + fill);
  for (int i = 0; i < B.n; ++i) B[i] = fill == 1 ? (i % 3 == 0 ? 0.0 : vu::Cell(i, 7)) : vu::Cell(i, 4);
  for (int i = 0; i < C.n; ++i) want[i] = C[i] = fill == 2 ? vu::NaN() : vu::Cell(i, 9);
  for (int i = 0; i < cr; ++i)
    for (int j = 0; j < b; ++j) {
      double s = 0;
      for (int k = 0; k < inner; ++k) s += (e.transpose ? A[k * c + i] : A[i * c + k]) * B[k * b + j];
      double& w = want[(top + i) * cols + left + j];
      w = e.op > 0 ? w + s : e.op < 0 ? w - s : s;
    }
  e.f(A, r, c, B, inner, b, C, top, left, rows, cols);
  mc::Step();
  mc::H h;
  MC_REQUIRE(A.Intact() && B.Intact() && C.Intact()) << e.name << " wrote before the start of an array";
  for (int i = 0; i < C.n; ++i) {
    h(C[i]);
    MC_REQUIRE(vu::Same(C[i], want[i])) << e.name << "<" << e.r << "," << e.c << "," << e.b << "> op " << e.op << " A " << r << "x" << c
        << " B cols " << b << " at (" << top << "," << left << ") in " << rows << "x" << cols << ": element " << i << " is " << C[i] << ", expected " << want[i];
  }
  mc::Outcome(h.h);
}

