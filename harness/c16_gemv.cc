// C16: small dense kernels, against triple loops over exact integers.
#include <array>

#include "ceres/small_blas.h"
#include "util.h"

using namespace ceres;
using namespace ceres::internal;
using vu::Buf;
using vu::Guarded;

namespace {
constexpr int D = Eigen::Dynamic;
using Gemm = void (*)(const double*, int, int, const double*, int, int, double*, int, int, int, int);
using Gemv = void (*)(const double*, int, int, const double*, double*);

struct GemvEntry {
  bool transpose;
  int op, r, c;
  Gemv f;
};
std::vector<GemvEntry>& Gemvs() {
  static std::vector<GemvEntry> v;
  return v;
}
template <int R, int C>
void AddV() {
  Gemvs().push_back({false, -1, R, C, &MatrixVectorMultiply<R, C, -1>});
  Gemvs().push_back({false, 0, R, C, &MatrixVectorMultiply<R, C, 0>});
  Gemvs().push_back({false, 1, R, C, &MatrixVectorMultiply<R, C, 1>});
  Gemvs().push_back({true, -1, R, C, &MatrixTransposeVectorMultiply<R, C, -1>});
  Gemvs().push_back({true, 0, R, C, &MatrixTransposeVectorMultiply<R, C, 0>});
  Gemvs().push_back({true, 1, R, C, &MatrixTransposeVectorMultiply<R, C, 1>});
}
const bool init_gemv = [] {
  AddV<D, D>();
  AddV<D, 1>(); AddV<D, 2>(); AddV<D, 3>(); AddV<D, 4>(); AddV<D, 7>(); AddV<D, 9>();
  AddV<1, D>(); AddV<2, D>(); AddV<3, D>(); AddV<4, D>(); AddV<6, D>();
  AddV<1, 1>(); AddV<1, 5>(); AddV<2, 1>(); AddV<2, 2>(); AddV<2, 3>(); AddV<2, 4>(); AddV<2, 6>(); AddV<2, 7>(); AddV<2, 9>();
  AddV<3, 3>(); AddV<4, 4>(); AddV<4, 5>(); AddV<5, 3>(); AddV<6, 8>(); AddV<7, 7>();
  return true;
}();

int Dim(int fixed, int max, const char* what) {
  return fixed == D ? mc::Range(1, max, what) : fixed;
}
}  // namespace

MC_SCENARIO(gemv, .split = 2) {
  const GemvEntry& e = Gemvs()[mc::Choose(Gemvs().size(), "kernel")];
  const int r = Dim(e.r, mc::Bound(11, 17), "rows"), c = Dim(e.c, mc::Bound(11, 17), "cols");
  const int fill = mc::Choose(e.op == 0 ? 3 : 2, "fill");
  const int nb = e.transpose ? r : c, nc = e.transpose ? c : r;
  Guarded A(0, r * c), b(1, nb), C(2, nc);
  Buf<> want(nc);
  for (int i = 0; i < A.n; ++i) A[i] = vu::Cell(i, 2 + fill);
  for (int i = 0; i < nb; ++i) b[i] = vu::Cell(i, 5);
  for (int i = 0; i < nc; ++i) want[i] = C[i] = fill == 2 ? vu::NaN() : vu::Cell(i, 8);
  for (int i = 0; i < nc; ++i) {
    double s = 0;
    for (int k = 0; k < nb; ++k) s += (e.transpose ? A[k * c + i] : A[i * c + k]) * b[k];
    want[i] = e.op > 0 ? want[i] + s : e.op < 0 ? want[i] - s : s;
  }
  e.f(A, r, c, b, C);
  mc::Step();
  mc::H h;
  MC_REQUIRE(A.Intact() && b.Intact() && C.Intact()) << "wrote before the start of an array";
  for (int i = 0; i < nc; ++i) {
    h(C[i]);
    MC_REQUIRE(vu::Same(C[i], want[i])) << (e.transpose ? "MatrixTransposeVectorMultiply" : "MatrixVectorMultiply") << "<" << e.r << "," << e.c
        << "," << e.op << "> " << r << "x" << c << " element " << i << " is " << C[i] << ", expected " << want[i];
  }
  mc::Outcome(h.h);
}

