// C24: cubic interpolation against the Catmull-Rom kernel, on every small grid.
#include <algorithm>
#include <array>
#include <cstdint>

#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
#include "util.h"
namespace {
using L = long double;
// Keys' kernel with a = -1/2: weight of the sample at distance t, and its derivative.
L K(L t) { const L s = std::abs(t); return s <= 1 ? (1.5L * s - 2.5L) * s * s + 1 : s < 2 ? ((-0.5L * s + 2.5L) * s - 4) * s + 2 : 0; }
L dK(L t) { const L s = std::abs(t), g = t < 0 ? -1 : 1; return g * (s <= 1 ? (4.5L * s - 5) * s : s < 2 ? (-1.5L * s + 5) * s - 4 : 0); }
int Clamp(long long i, int lo, int hi) { return i < lo ? lo : i >= hi ? hi - 1 : static_cast<int>(i); }

template <typename T>
struct Mem {  // element array whose end touches an inaccessible page
  vu::Guarded g;
  int n;
  T* p;
  explicit Mem(int n) : g(0, static_cast<int>((n * sizeof(T) + 7) / 8)), n(n) {
    p = reinterpret_cast<T*>(reinterpret_cast<char*>(g.p + g.n) - n * sizeof(T));
  }
};
template <typename T>
T Sample(int i) { return static_cast<T>((i * 37 + 11 + (i * i) % 7) % 101); }

double Query(int begin, int end) {
  const int k = mc::Choose((end - begin + 5) * 8 + 6, "position");
  const double lattice = begin - 3 + k / 8.0;
  const int far = k - (end - begin + 5) * 8;
  if (far < 0) return lattice;
  const double f[6] = {1e9, -1e9, std::nextafter(begin, -1e9), std::nextafter(end - 1, 1e9), 3e9, -1e30};
  return f[far];
}
bool Agree(double got, L want, bool exact) { return exact ? got == static_cast<double>(want) : std::abs(got - want) <= 1e-11; }

template <typename T, int D, bool I>
void One1D() {
  const int n = mc::Range(1, mc::Bound(5, 7), "size"), begin = mc::Pick({0, -3, 2, 1000}, "begin");
  Mem<T> m(n * D);
  for (int i = 0; i < n * D; ++i) m.p[i] = Sample<T>(i);
  const auto at = [&](long long i, int d) -> L { const int c = Clamp(i, begin, begin + n) - begin; return m.p[I ? c * D + d : d * n + c]; };
  using G = ceres::Grid1D<T, D, I>;
  const G grid(m.p, begin, begin + n);
  const ceres::CubicInterpolator<G> s(grid);
  const double x = Query(begin, begin + n);
  const bool exact = x * 8 == std::floor(x * 8);
  mc::Step();
  const L fl = std::floor(L(x));
  L want[D] = {}, dwant[D] = {};
  for (int d = 0; d < D; ++d) {
    // Far outside every sample is the border.
    if (x < begin - 2 || x > begin + n + 1) { want[d] = at(x < begin ? INT64_MIN : INT64_MAX, d); continue; }
    for (int j = -1; j <= 2; ++j) {
      const long long i = static_cast<long long>(fl) + j;
      want[d] += at(i, d) * K(x - L(i));
      dwant[d] += at(i, d) * dK(x - L(i));
    }
    // The kernel is C1: at samples its one-sided derivatives agree.
  }
  double f[D], df[D], g[D];
  s.Evaluate(x, f, df);
  s.Evaluate(x, g);
  for (int d = 0; d < D; ++d) {
    MC_EXPECT(Agree(f[d], want[d], exact)) << "f(" << x << ")[" << d << "] = " << f[d] << " want " << static_cast<double>(want[d]) << " n " << n << " begin " << begin;
    MC_EXPECT(Agree(df[d], dwant[d], exact)) << "f'(" << x << ")[" << d << "] = " << df[d] << " want " << static_cast<double>(dwant[d]);
    MC_EXPECT(g[d] == f[d]);
    if (x == std::floor(x) && x >= begin && x < begin + n) MC_EXPECT(f[d] == static_cast<double>(at(static_cast<int>(x), d))) << "sample not reproduced";
  }
  double only[D];
  s.Evaluate(x, nullptr, only);
  for (int d = 0; d < D; ++d) MC_EXPECT(only[d] == df[d]) << "derivative alone";
  using J = ceres::Jet<double, 2>;
  J xj(x), fj[D];
  xj.v[0] = 3; xj.v[1] = -0.5;
  s.Evaluate(xj, fj);
  for (int d = 0; d < D; ++d) MC_EXPECT(fj[d].a == f[d] && fj[d].v[0] == df[d] * 3 && fj[d].v[1] == df[d] * -0.5) << "dual number";
  MC_EXPECT(m.g.Intact()) << "data overwritten";
  mc::Outcome(mc::H()(n)(begin).D(f, D).D(df, D).h);
}
template <typename T, int D, bool R, bool I>
void One2D() {
  const int nr = mc::Range(1, mc::Bound(3, 5), "rows"), nc = mc::Range(1, mc::Bound(4, 5), "cols");
  const int o = mc::Choose(3, "origin");
  const int rb = o == 0 ? 0 : o == 1 ? -2 : 5, cb = o == 0 ? 0 : o == 1 ? 3 : -7;
  Mem<T> m(nr * nc * D);
  for (int i = 0; i < nr * nc * D; ++i) m.p[i] = Sample<T>(i);
  const auto at = [&](long long r, long long c, int d) -> L {
    const int i = Clamp(r, rb, rb + nr) - rb, j = Clamp(c, cb, cb + nc) - cb, k = R ? i * nc + j : j * nr + i;
    return m.p[I ? k * D + d : d * nr * nc + k];
  };
  using G = ceres::Grid2D<T, D, R, I>;
  const G grid(m.p, rb, rb + nr, cb, cb + nc);
  const ceres::BiCubicInterpolator<G> s(grid);
  // Positions in steps of a quarter (a half off the diagonal of detail) from two cells outside to two outside.
  const auto pos = [](int b, int n, const char* what) {
    const int k = mc::Choose((n + 4) * 4 + 2, what);
    return k < (n + 4) * 4 ? b - 2.5 + k / 4.0 : k == (n + 4) * 4 ? 4e9 : -1e9;
  };
  const double r = pos(rb, nr, "row"), c = pos(cb, nc, "col");
  mc::Step();
  L want[D] = {}, wr[D] = {}, wc[D] = {};
  const bool rfar = std::abs(r) > 1e6, cfar = std::abs(c) > 1e6;
  const double re = rfar ? (r > 0 ? rb + nr + 3 : rb - 3) : r, ce = cfar ? (c > 0 ? cb + nc + 3 : cb - 3) : c;
  const long long fr = static_cast<long long>(std::floor(re)), fc = static_cast<long long>(std::floor(ce));
  for (int d = 0; d < D; ++d)
    for (int i = -1; i <= 2; ++i)
      for (int j = -1; j <= 2; ++j) {
        const L v = at(fr + i, fc + j, d);
        const L tr = re - L(fr + i), tc = ce - L(fc + j);
        want[d] += v * K(tr) * K(tc);
        wr[d] += v * dK(tr) * K(tc);
        wc[d] += v * K(tr) * dK(tc);
      }
  double f[D], dr[D], dc[D];
  s.Evaluate(r, c, f, dr, dc);
  for (int d = 0; d < D; ++d) {
    MC_EXPECT(Agree(f[d], want[d], true)) << "f(" << r << "," << c << ")[" << d << "] = " << f[d] << " want " << static_cast<double>(want[d]) << " rows " << nr << " cols " << nc << " row major " << R << " interleaved " << I;
    MC_EXPECT(Agree(dr[d], wr[d], true)) << "df/dr(" << r << "," << c << ")[" << d << "] = " << dr[d] << " want " << static_cast<double>(wr[d]);
    MC_EXPECT(Agree(dc[d], wc[d], true)) << "df/dc(" << r << "," << c << ")[" << d << "] = " << dc[d] << " want " << static_cast<double>(wc[d]);
  }
  for (int mask = 0; mask < 8; ++mask) {
    double a[D], b[D], e[D];
    s.Evaluate(r, c, mask & 1 ? a : nullptr, mask & 2 ? b : nullptr, mask & 4 ? e : nullptr);
    for (int d = 0; d < D; ++d) {
      if (mask & 1) MC_EXPECT(a[d] == f[d]);
      if (mask & 2) MC_EXPECT(b[d] == dr[d]);
      if (mask & 4) MC_EXPECT(e[d] == dc[d]);
    }
  }
  using J = ceres::Jet<double, 3>;
  J rj(r), cj(c), fj[D];
  rj.v << 1, -2, 0.5;
  cj.v << 3, 0, -1;
  s.Evaluate(rj, cj, fj);
  for (int d = 0; d < D; ++d) {
    MC_EXPECT(fj[d].a == f[d]);
    for (int k = 0; k < 3; ++k) MC_EXPECT(fj[d].v[k] == dr[d] * rj.v[k] + dc[d] * cj.v[k]) << "dual number";
  }
  double g[D];
  s.Evaluate(r, c, g);
  for (int d = 0; d < D; ++d) MC_EXPECT(g[d] == f[d]);
  MC_EXPECT(m.g.Intact());
  mc::Outcome(mc::H()(nr)(nc)(o).D(f, D).D(dr, D).D(dc, D).h);
}
}  // namespace

MC_SCENARIO(grid1d, .split = 3) {
  switch (mc::Choose(10, "type")) {
    case 0: return One1D<double, 1, true>();
    case 1: return One1D<double, 1, false>();
    case 2: return One1D<double, 2, true>();
    case 3: return One1D<double, 2, false>();
    case 4: return One1D<double, 3, true>();
    case 5: return One1D<double, 3, false>();
    case 6: return One1D<float, 2, true>();
    case 7: return One1D<float, 2, false>();
    case 8: return One1D<int, 3, false>();
    case 9: return One1D<unsigned char, 3, true>();
  }
}
MC_SCENARIO(grid2d, .split = 4, .weight = 4) {
  switch (mc::Choose(14, "type")) {
    case 0: return One2D<double, 1, true, true>();
    case 1: return One2D<double, 1, false, true>();
    case 2: return One2D<double, 1, true, false>();
    case 3: return One2D<double, 1, false, false>();
    case 4: return One2D<double, 2, true, true>();
    case 5: return One2D<double, 2, false, true>();
    case 6: return One2D<double, 2, true, false>();
    case 7: return One2D<double, 2, false, false>();
    case 8: return One2D<double, 3, true, true>();
    case 9: return One2D<double, 3, false, false>();
    case 10: return One2D<unsigned char, 3, true, true>();
    case 11: return One2D<float, 2, false, true>();
    case 12: return One2D<int, 2, true, false>();
    case 13: return One2D<float, 1, false, false>();
  }
}
// Polynomials of degree two are reproduced away from the border, and the result
// is linear in the data (checked on the impulse response).
MC_SCENARIO(polynomials, .split = 3) {
  const int deg = mc::Choose(3, "degree"), begin = mc::Pick({0, -4, 11}, "begin");
  double v[7], w[49];
  const auto p = [&](double x) { return deg == 0 ? 3 : deg == 1 ? 2 * x - 5 : x * x - 3 * x + 1; };
  const auto dp = [&](double x) { return deg == 0 ? 0 : deg == 1 ? 2 : 2 * x - 3; };
  const auto q = [&](double r, double c) { return p(r) * (2 * c * c - c) + c; };
  for (int i = 0; i < 7; ++i) { v[i] = p(begin + i); for (int j = 0; j < 7; ++j) w[i * 7 + j] = q(begin + i, j - 2); }
  const ceres::Grid1D<double> g(v, begin, begin + 7);
  const ceres::CubicInterpolator s(g);
  const ceres::Grid2D<double> g2(w, begin, begin + 7, -2, 5);
  const ceres::BiCubicInterpolator s2(g2);
  const double x = begin + 1 + mc::Choose(33, "x") / 8.0, y = -1 + mc::Choose(33, "y") / 8.0;
  mc::Step();
  double f, df, dc;
  s.Evaluate(x, &f, &df);
  MC_EXPECT(f == p(x) && df == dp(x)) << "x " << x << " f " << f << " f' " << df;
  s2.Evaluate(x, y, &f, &df, &dc);
  MC_EXPECT(std::abs(f - q(x, y)) <= 1e-9 && std::abs(df - dp(x) * (2 * y * y - y)) <= 1e-9 && std::abs(dc - (p(x) * (4 * y - 1) + 1)) <= 1e-9);
  mc::Outcome(mc::H()(f)(df)(dc).h);
}
// The kernel itself, for static and dynamic requests.
MC_SCENARIO(spline, .split = 3) {
  Eigen::Matrix<double, 2, 1> p[4];
  for (auto& v : p) { const int a = mc::Choose(3, "sample"); v << a - 1, (a * 5) % 3 + 1; }
  const double x = mc::Choose(17, "x") / 16.0;
  const int want = mc::Choose(4, "request");
  double f[2], d[2], f0[2], d0[2];
  ceres::CubicHermiteSpline<2>(p[0], p[1], p[2], p[3], x, f0, d0);
  ceres::CubicHermiteSpline<2>(p[0], p[1], p[2], p[3], x, want & 1 ? f : nullptr, want & 2 ? d : nullptr);
  mc::Step();
  for (int i = 0; i < 2; ++i) {
    L s = 0, ds = 0;
    for (int j = 0; j < 4; ++j) { s += p[j][i] * K(x - (j - 1)); ds += p[j][i] * dK(x - (j - 1)); }
    MC_EXPECT(f0[i] == static_cast<double>(s) && d0[i] == static_cast<double>(ds)) << "spline at " << x;
    if (want & 1) MC_EXPECT(f[i] == f0[i]);
    if (want & 2) MC_EXPECT(d[i] == d0[i]);
  }
  mc::Outcome(mc::H().D(f0, 2).D(d0, 2).h);
}
MC_SCENARIO(misuse, .single = true) {
  static const double v[4] = {1, 2, 3, 4};
  switch (mc::Choose(5, "case")) {
    case 4: {  // reads stay inside the grid whatever the query is
      Mem<double> m(4);
      for (int i = 0; i < 4; ++i) m.p[i] = i;
      const ceres::Grid1D<double> g(m.p, 1, 5);
      const ceres::Grid2D<double> g2(m.p, 0, 2, -5, -3);
      const double q[8] = {vu::Inf(), -vu::Inf(), vu::NaN(), 2147483647.0, -2147483648.0, 2147483646.0, 1e300, -2147483647.5};
      for (double x : q) {
        double f, d, e;
        ceres::CubicInterpolator(g).Evaluate(x, &f, &d);
        if (std::isfinite(x)) MC_EXPECT(f == (x > 0 ? 3 : 0) && d == 0) << x << " " << f;
        for (double y : q) {
          ceres::BiCubicInterpolator(g2).Evaluate(x, y, &f, &d, &e);
          if (std::isfinite(x) && std::isfinite(y)) MC_EXPECT(f == (x > 0 ? 2 : 0) + (y > 0 ? 1 : 0) && d == 0 && e == 0) << x << " " << y << " " << f;
        }
      }
      break;
    }
    case 0: MC_EXPECT(mc::Dies([] { ceres::Grid1D<double> g(v, 2, 2); })); break;
    case 1: MC_EXPECT(mc::Dies([] { ceres::Grid1D<double> g(v, 3, 1); })); break;
    case 2: MC_EXPECT(mc::Dies([] { ceres::Grid2D<double> g(v, 0, 0, 0, 2); })); break;
    case 3: MC_EXPECT(mc::Dies([] { ceres::Grid2D<double> g(v, 0, 2, 2, 1); })); break;
  }
}
