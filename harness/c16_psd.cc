// C16: inverse of small PSD matrices, triangular index.
#include "ceres/invert_psd_matrix.h"
#include "ceres/parallel_utils.h"
#include "util.h"

using namespace ceres;
using namespace ceres::internal;

namespace {
constexpr int D = Eigen::Dynamic;
using Mat = Eigen::MatrixXd;
template <int N>
Mat Invert(bool full, const Mat& m) {
  if constexpr (N == D) {
    return InvertPSDMatrix<D>(full, m);
  } else {
    typename EigenTypes<N, N>::Matrix f(m);
    return InvertPSDMatrix<N>(full, f);
  }
}
Mat InvertDispatch(bool fixed, bool full, const Mat& m) {
  if (!fixed) return Invert<D>(full, m);
  switch (m.rows()) {
    case 1: return Invert<1>(full, m);
    case 2: return Invert<2>(full, m);
    case 3: return Invert<3>(full, m);
    case 4: return Invert<4>(full, m);
    case 6: return Invert<6>(full, m);
    default: return Invert<D>(full, m);
  }
}
void CheckInverse(const Mat& g, double scale) {
  const Mat m = scale * (g.transpose() * g);
  Eigen::FullPivLU<Mat> lu(g);
  const bool full_rank = lu.rank() == g.cols();
  const bool fixed = mc::Flip("fixed_size"), assume = full_rank && mc::Flip("assume_full_rank");
  const Mat inv = InvertDispatch(fixed, assume, m);
  mc::Step();
  const double tol = 1e-9;
  MC_REQUIRE(inv.rows() == m.rows() && inv.cols() == m.cols()) << "wrong size";
  mc::H h;
  for (int i = 0; i < inv.size(); ++i) h(std::round(inv.data()[i] * scale * 1e6));
  mc::Outcome(h.h);
  mc::Cover(full_rank ? (assume ? "cholesky_or_inverse" : "svd_full_rank") : "pseudo_inverse");
  // The four Moore-Penrose conditions (inverse: M*inv == I follows).
  const double ms = std::max(m.norm(), 1e-300), is = std::max(inv.norm(), 1e-300);
  MC_REQUIRE((m * inv * m - m).norm() <= tol * ms) << "M X M != M for M =\n" << m << "\nX =\n" << inv;
  MC_REQUIRE((inv * m * inv - inv).norm() <= tol * is) << "X M X != X for M =\n" << m << "\nX =\n" << inv;
  const Mat p = m * inv, q = inv * m;
  MC_REQUIRE((p - p.transpose()).norm() <= tol && (q - q.transpose()).norm() <= tol) << "M X not symmetric for M =\n" << m;
  if (full_rank) MC_REQUIRE((p - Mat::Identity(m.rows(), m.cols())).norm() <= tol) << "M X != I for M =\n" << m << "\nX =\n" << inv;
}
}  // namespace

// All Gram matrices of integer matrices with entries in {-1,0,1,(2)}.
MC_SCENARIO(invert_small, .split = 3) {
  const int n = mc::Range(1, 3, "n");
  const double scale = mc::Pick({1.0, 1e-6, 1e8}, "scale");
  Mat g(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (n == 3 && !mc::Thorough() && i > j) { g(i, j) = mc::Pick({0.0, 1.0}, "g"); continue; }
      g(i, j) = n < 3 ? mc::Pick({0.0, 1.0, -1.0, 2.0}, "g") : mc::Pick({0.0, 1.0, -1.0}, "g");
    }
  CheckInverse(g, scale);
}
// Larger sizes: Gram matrices of bidiagonal factors, any rank pattern.
MC_SCENARIO(invert_larger, .split = 3) {
  const int n = mc::Range(4, mc::Bound(6, 8), "n");
  Mat g = Mat::Zero(n, n);
  for (int i = 0; i < n; ++i) g(i, i) = mc::Pick({1.0, 0.0, 2.0}, "diag");
  for (int i = 0; i + 1 < n; ++i) g(i, i + 1) = (n <= 6 || i % 2) ? mc::Pick({0.0, 1.0}, "off") : -1.0;
  if (n > 6) {
    const Mat m = g.transpose() * g;
    Eigen::FullPivLU<Mat> lu(g);
    const bool full = lu.rank() == n;
    const Mat inv = InvertPSDMatrix<D>(full, m);
    mc::Step();
    MC_REQUIRE((m * inv * m - m).norm() <= 1e-8 * m.norm()) << "M X M != M for M =\n" << m;
    MC_REQUIRE((inv * m * inv - inv).norm() <= 1e-8 * std::max(1.0, inv.norm())) << "X M X != X for M =\n" << m;
    mc::Outcome(mc::H()(inv.norm()).h);
    return;
  }
  CheckInverse(g, 1.0);
}
// Only the upper triangle may matter to the factorisation used for full rank
// matrices of size five and more? No: the argument is symmetric by contract.

// Every (k, n) up to the bound: a bijection onto {0 <= i <= j < n}.
MC_SCENARIO(triangular_index, .split = 1) {
  const int n = 1 + mc::Choose(mc::Bound(180, 700), "n");
  const int items = n * (n + 1) / 2;
  std::vector<char> seen(n * n, 0);
  for (int k = 0; k < items; ++k) {
    int i = -7, j = -7;
    LinearIndexToUpperTriangularIndex(k, n, &i, &j);
    mc::Step();
    MC_REQUIRE(0 <= i && i <= j && j < n) << "k=" << k << " n=" << n << " -> (" << i << "," << j << ")";
    MC_REQUIRE(!seen[i * n + j]) << "pair (" << i << "," << j << ") produced twice, n=" << n << " k=" << k;
    seen[i * n + j] = 1;
    mc::State(mc::H()(k)(n).h);
  }
  mc::Outcome(n);
}
// Sizes at which the number of items approaches the range of int.
MC_SCENARIO(triangular_index_large, .split = 1, .exec_timeout = 200) {
  const int n = mc::Thorough() ? mc::Pick({46341, 46342, 65534, 65535}, "n") : mc::Pick({20001, 46342}, "n");
  const int64_t items = int64_t{n} * (n + 1) / 2;
  std::vector<uint64_t> seen((int64_t{n} * n + 63) / 64, 0);
  for (int64_t k = 0; k < items; ++k) {
    int i = -7, j = -7;
    LinearIndexToUpperTriangularIndex(static_cast<int>(k), n, &i, &j);
    MC_REQUIRE(0 <= i && i <= j && j < n) << "k=" << k << " n=" << n << " -> (" << i << "," << j << ")";
    const int64_t bit = int64_t{i} * n + j;
    MC_REQUIRE(!(seen[bit >> 6] >> (bit & 63) & 1)) << "pair (" << i << "," << j << ") produced twice, n=" << n << " k=" << k;
    seen[bit >> 6] |= uint64_t{1} << (bit & 63);
  }
  mc::Step(static_cast<int>(items & 0x7fffffff));
  mc::Outcome(n);
}
