// C18: Jets against an independent forward differentiation.
#include <cstdint>

#include "Eigen/Dense"
#include "ceres/jet.h"
#include "refdual.h"
#include "util.h"

using ceres::Jet;
using ref::Ref;
using LD = long double;

namespace {
constexpr double kNan = std::numeric_limits<double>::quiet_NaN();
constexpr double kInf = std::numeric_limits<double>::infinity();
constexpr double kMin = std::numeric_limits<double>::min();
constexpr double kDen = std::numeric_limits<double>::denorm_min();
constexpr double kMax = std::numeric_limits<double>::max();

// ---- operations ----------------------------------------------------------
enum Op {
  // unary
  kNeg, kPlus, kAbs, kLog, kLog10, kLog1p, kExp, kExpm1, kSqrt, kCos, kAcos, kSin, kAsin, kTan, kAtan, kSinh, kCosh,
  kTanh, kFloor, kCeil, kCbrt, kExp2, kLog2, kErf, kErfc, kNorm, kJ0, kJ1, kJ2, kJ3, kJ15, kUnaryEnd,
  // unary with a scalar
  kAddJS = kUnaryEnd, kAddSJ, kSubJS, kSubSJ, kMulJS, kMulSJ, kDivJS, kDivSJ, kPowJS, kPowSJ, kAddEqS, kSubEqS, kMulEqS,
  kDivEqS, kMixedEnd,
  // binary
  kAdd = kMixedEnd, kSub, kMul, kDiv, kAddEq, kSubEq, kMulEq, kDivEq, kHypot, kAtan2, kPow, kFmax, kFmin, kFdim, kCopysign,
  kBinaryEnd
};
const char* kOpName[] = {"neg", "plus", "abs", "log", "log10", "log1p", "exp", "expm1", "sqrt", "cos", "acos", "sin", "asin",
                         "tan", "atan", "sinh", "cosh", "tanh", "floor", "ceil", "cbrt", "exp2", "log2", "erf", "erfc", "norm",
                         "J0", "J1", "J2", "J3", "J1.5", "x+s", "s+x", "x-s", "s-x", "x*s", "s*x", "x/s", "s/x", "pow(x,s)",
                         "pow(s,x)", "x+=s", "x-=s", "x*=s", "x/=s", "x+y", "x-y", "x*y", "x/y", "x+=y", "x-=y", "x*=y", "x/=y",
                         "hypot", "atan2", "pow", "fmax", "fmin", "fdim", "copysign"};

template <typename T> struct BaseOf { using type = T; };
template <typename T, int N> struct BaseOf<Jet<T, N>> { using type = T; };

double Val(double x) { return x; }
template <typename T, int N> double Val(const Jet<T, N>& x) { return Val(x.a); }

// The same call syntax for jets and for plain doubles (the value oracle).
template <typename J, typename S>
J Real(int op, const J& x, const J& y, const S& s) {
  using namespace ceres;
  switch (op) {
    case kNeg: return -x;
    case kPlus: return +x;
    case kAbs: return abs(x);
    case kLog: return log(x);
    case kLog10: return log10(x);
    case kLog1p: return log1p(x);
    case kExp: return exp(x);
    case kExpm1: return expm1(x);
    case kSqrt: return sqrt(x);
    case kCos: return cos(x);
    case kAcos: return acos(x);
    case kSin: return sin(x);
    case kAsin: return asin(x);
    case kTan: return tan(x);
    case kAtan: return atan(x);
    case kSinh: return sinh(x);
    case kCosh: return cosh(x);
    case kTanh: return tanh(x);
    case kFloor: return floor(x);
    case kCeil: return ceil(x);
    case kCbrt: return cbrt(x);
    case kExp2: return exp2(x);
    case kLog2: return log2(x);
    case kErf: return erf(x);
    case kErfc: return erfc(x);
    case kNorm: return norm(x);
    case kJ0: return BesselJ0(x);
    case kJ1: return BesselJ1(x);
    case kJ2: return BesselJn(2, x);
    case kJ3: return BesselJn(3, x);
    case kJ15: return cyl_bessel_j(1.5, x);
    case kAddJS: return x + s;
    case kAddSJ: return s + x;
    case kSubJS: return x - s;
    case kSubSJ: return s - x;
    case kMulJS: return x * s;
    case kMulSJ: return s * x;
    case kDivJS: return x / s;
    case kDivSJ: return s / x;
    case kPowJS: return pow(x, Val(s));
    case kPowSJ: return pow(s, x);
    case kAddEqS: { J r = x; r += s; return r; }
    case kSubEqS: { J r = x; r -= s; return r; }
    case kMulEqS: { J r = x; r *= s; return r; }
    case kDivEqS: { J r = x; r /= s; return r; }
    case kAdd: return x + y;
    case kSub: return x - y;
    case kMul: return x * y;
    case kDiv: return x / y;
    case kAddEq: { J r = x; r += y; return r; }
    case kSubEq: { J r = x; r -= y; return r; }
    case kMulEq: { J r = x; r *= y; return r; }
    case kDivEq: { J r = x; r /= y; return r; }
    case kHypot: return hypot(x, y);
    case kAtan2: return atan2(x, y);
    case kPow: return pow(x, y);
    case kFmax: return fmax(x, y);
    case kFmin: return fmin(x, y);
    case kFdim: return fdim(x, y);
    case kCopysign: return copysign(x, y);
  }
  abort();
}
double Plain(int op, double x, double y, double s) { return Real<double, double>(op, x, y, s); }

template <typename R>
R Model(int op, const R& x, const R& y, double s) {
  const R c(s);
  switch (op) {
    case kNeg: return -x;
    case kPlus: return x;
    case kAbs: return ref::abs(x);
    case kLog: return ref::log(x);
    case kLog10: return ref::log10(x);
    case kLog1p: return ref::log1p(x);
    case kExp: return ref::exp(x);
    case kExpm1: return ref::expm1(x);
    case kSqrt: return ref::sqrt(x);
    case kCos: return ref::cos(x);
    case kAcos: return ref::acos(x);
    case kSin: return ref::sin(x);
    case kAsin: return ref::asin(x);
    case kTan: return ref::tan(x);
    case kAtan: return ref::atan(x);
    case kSinh: return ref::sinh(x);
    case kCosh: return ref::cosh(x);
    case kTanh: return ref::tanh(x);
    case kFloor: return ref::floor(x);
    case kCeil: return ref::ceil(x);
    case kCbrt: return ref::cbrt(x);
    case kExp2: return ref::exp2(x);
    case kLog2: return ref::log2(x);
    case kErf: return ref::erf(x);
    case kErfc: return ref::erfc(x);
    case kNorm: return x * x;
    case kJ0: return ref::J(0, x);
    case kJ1: return ref::J(1, x);
    case kJ2: return ref::J(2, x);
    case kJ3: return ref::J(3, x);
    case kJ15: return ref::J(1.5, x);
    case kAddJS: case kAddSJ: case kAddEqS: return x + c;
    case kSubJS: case kSubEqS: return x - c;
    case kSubSJ: return c - x;
    case kMulJS: case kMulSJ: case kMulEqS: return x * c;
    case kDivJS: case kDivEqS: return x / c;
    case kDivSJ: return c / x;
    case kPowJS: return ref::pow(x, c);
    case kPowSJ: return ref::pow(c, x);
    case kAdd: case kAddEq: return x + y;
    case kSub: case kSubEq: return x - y;
    case kMul: case kMulEq: return x * y;
    case kDiv: case kDivEq: return x / y;
    case kHypot: return ref::hypot(x, y);
    case kAtan2: return ref::atan2(x, y);
    case kPow: return ref::pow(x, y);
    case kFmax: return ref::fmax(x, y);
    case kFmin: return ref::fmin(x, y);
    case kFdim: return ref::fdim(x, y);
    case kCopysign: return ref::copysign(x, y);
  }
  abort();
}
bool NeedsNonNegative(int op) { return op >= kJ0 && op <= kJ15; }

template <int N>
Jet<double, N> MakeJet(double a, const double* v) {
  Jet<double, N> j(a);
  for (int i = 0; i < N; ++i) j.v[i] = v[i];
  return j;
}
template <typename T, int N>
Ref<T, N> MakeRef(double a, const double* v) {
  Ref<T, N> j(a);
  for (int i = 0; i < N; ++i) j.v[i] = v[i];
  return j;
}
bool Ulps(double a, double b, double n) {
  if (vu::Same(a, b)) return true;
  return std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= n * 2.3e-16 * std::max(std::abs(a), std::abs(b)) + 2 * kDen;
}

// One operation on jets of N derivatives.  `extreme`: arguments whose squares
// or inverses leave the double range; derivatives are then only compared where
// both are finite.
template <int N>
void OneOp(int op, double x, double y, double s, const double* dx, const double* dy, bool both_exist) {
  const auto jx = MakeJet<N>(x, dx), jy = MakeJet<N>(y, dy);
  const Jet<double, N> r = Real<Jet<double, N>, double>(op, jx, jy, s);
  mc::Step();
  const double plain = Plain(op, x, y, s);
  MC_REQUIRE(Ulps(r.a, plain, 4)) << kOpName[op] << " value " << r.a << " expected " << plain << " x=" << x << " y=" << y << " s=" << s;
  mc::Outcome(mc::H()(r.a).h);
  if (!both_exist) return;
  const auto mx = MakeRef<LD, N>(x, dx), my = MakeRef<LD, N>(y, dy);
  const Ref<LD, N> m = Model(op, mx, my, s);
  const Ref<double, N> md = Model(op, MakeRef<double, N>(x, dx), MakeRef<double, N>(y, dy), s);
  const double zero[8] = {};
  const Ref<LD, N> p = Model(op, mx, MakeRef<LD, N>(y, zero), s), q = Model(op, MakeRef<LD, N>(x, zero), my, s);
  if (!std::isfinite(ref::Sc(m.a))) return;
  for (int i = 0; i < N; ++i) {
    const double e = static_cast<double>(m.v[i]);
    if (!std::isfinite(e)) continue;
    mc::Cover("derivatives");
    double tol = 1e-13 * static_cast<double>(std::abs(p.v[i]) + std::abs(q.v[i])) + 10 * std::abs(e - md.v[i]);
    const double dsum = std::abs(dx[i]) + std::abs(dy[i]);
    if (op == kTanh) tol += 1e-15 * dsum;
    if (op == kTan || op == kAcos || op == kAsin || op == kExpm1) tol += 1e-14 * (1 + dsum) * (1 + std::abs(e * e * e));
    if (op >= kJ0 && op <= kJ15) tol += 1e-12 * (1 + dsum);
    MC_REQUIRE(std::abs(r.v[i] - e) <= tol) << kOpName[op] << " d[" << i << "]=" << r.v[i] << " expected " << e << " at x=" << x
                                            << " y=" << y << " s=" << s << " dx=" << vu::Str(dx, N) << " dy=" << vu::Str(dy, N) << " N=" << N;
    mc::Outcome(mc::H()(i)(e).h);
  }
}
void OneOpN(int n, int op, double x, double y, double s, const double* dx, const double* dy, bool ex) {
  switch (n) {
    case 1: return OneOp<1>(op, x, y, s, dx, dy, ex);
    case 2: return OneOp<2>(op, x, y, s, dx, dy, ex);
    case 3: return OneOp<3>(op, x, y, s, dx, dy, ex);
    case 4: return OneOp<4>(op, x, y, s, dx, dy, ex);
    case 5: return OneOp<5>(op, x, y, s, dx, dy, ex);
    case 8: return OneOp<8>(op, x, y, s, dx, dy, ex);
  }
}
const std::vector<double> kMild = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 0.3, -0.7, 1e-3, -1e-3, 1e-8, -1e-8, 0.99, -0.99,
                                   7.25, -7.25, 20.0, -20.0, 1e5, -1e5, 1e-60, -1e-60, 1e60, -1e60, M_PI, M_PI / 2, M_PI / 4};
const std::vector<double> kWild = {1e-300, -1e-300, 1e300, -1e300, kMin, kMax, -kMax, kDen, -kDen, kInf, -kInf, kNan, 710.0, -746.0};
const double kDeriv[6][8] = {{1, 0, -2, 0.5, 3, -1, 0.25, 7}, {0, 0, 0, 0, 0, 0, 0, 0}, {-0.75, 1, 0, 2, -3, 0.125, 5, -6},
                             {1, 1, 1, 1, 1, 1, 1, 1}, {1e-9, 1e9, -1, 0, 2, -2, 4, 8}, {0, 1, 0, 0, 0, 0, 0, 0}};

}  // namespace

MC_SCENARIO(unary_operations, .split = 2) {
  const int op = mc::Choose(kUnaryEnd, "op");
  const bool wild = mc::Flip("wild");
  const double x = mc::Pick(wild ? kWild : kMild, "x");
  const int n = mc::Pick({1, 2, 3, 4, 5, 8}, "N");
  if (NeedsNonNegative(op) && !(x >= 0 && x < 1e4)) return mc::Trivial();
  for (int d = 0; d < 6; ++d) OneOpN(n, op, x, 0, 0, kDeriv[d], kDeriv[1], !wild);
}
MC_SCENARIO(binary_operations, .split = 2) {
  const int op = kUnaryEnd + mc::Choose(kBinaryEnd - kUnaryEnd, "op");
  const bool mixed = op < kMixedEnd;
  const double x = mc::Pick(kMild, "x"), y = mc::Pick(kMild, "y");
  const int n = mc::Pick({1, 2, 3, 4, 5}, "N");
  // Where no derivative exists the reference says so; the documented choices
  // for pow and copysign are checked below.
  bool exist = true;
  if (op == kPow || op == kPowSJ || op == kPowJS) exist = false;
  if (op == kCopysign && (x == 0 || y == 0)) exist = false;
  if ((op == kHypot || op == kAtan2) && x == 0 && y == 0) exist = false;
  const auto range = [](double v) { return v == 0 || (std::abs(v) > 1e-50 && std::abs(v) < 1e50); };
  if (op == kAtan2 && (!range(x) || !range(y))) exist = false;
  for (int d = 0; d < 6; ++d)
    for (int e = 0; e < (mixed ? 1 : 6); ++e) OneOpN(n, op, x, y, y, kDeriv[d], kDeriv[e], exist);
}
MC_SCENARIO(binary_extreme_values, .split = 2) {
  const int op = mc::Pick({kAdd, kSub, kMul, kHypot, kAtan2, kPow, kFmax, kFmin, kFdim, kCopysign, kAddEq, kSubEq, kMulEq, kAddJS, kSubJS,
                           kSubSJ, kMulJS, kMulSJ, kPowJS, kPowSJ}, "op");
  std::vector<double> all = kMild;
  all.insert(all.end(), kWild.begin(), kWild.end());
  const double x = mc::Pick(all, "x"), y = mc::Pick(all, "y");
  if (op == kFdim && x == y && std::isinf(x)) return mc::Trivial();
  if ((op == kFmax || op == kFmin) && x == y && std::isfinite(x) && !std::isfinite(x + y)) {
    const auto r = Real<Jet<double, 3>, double>(op, MakeJet<3>(x, kDeriv[0]), MakeJet<3>(y, kDeriv[2]), 0);
    if (!std::isfinite(r.a)) return mc::Cover("known_minmax_tie_overflow");
  }
  OneOpN(3, op, x, y, y, kDeriv[0], kDeriv[2], false);
  // The derivative of these does not suffer from intermediate overflow.
  if (op == kFmax || op == kFmin || op == kFdim || op == kAdd || op == kSub || op == kAddEq || op == kSubEq || op == kMul || op == kMulEq) {
    if (std::isnan(x) || std::isnan(y)) {
      if (op == kFmax || op == kFmin) {
        const auto r = Real<Jet<double, 3>, double>(op, MakeJet<3>(x, kDeriv[0]), MakeJet<3>(y, kDeriv[2]), 0);
        const double* d = std::isnan(x) ? kDeriv[2] : kDeriv[0];
        for (int i = 0; i < 3; ++i) MC_REQUIRE(r.v[i] == d[i]) << "NaN is not treated as missing in " << kOpName[op];
      }
      return;
    }
    OneOpN(3, op, x, y, y, kDeriv[0], kDeriv[2], true);
  }
  if (op == kHypot && std::isfinite(x) && std::isfinite(y) && (std::abs(x) >= kMin || std::abs(y) >= kMin) && std::isfinite(std::hypot(x, y)))
    OneOpN(3, op, x, y, y, kDeriv[0], kDeriv[2], true);
}

// The documented table of pow for all combinations of base, exponent and
// derivative presence.
MC_SCENARIO(pow_cases, .split = 2) {
  const std::vector<double> base = {0.0, -0.0, 1e-99, 0.3, 1.0, 2.5, 1e20, -1e-9, -0.5, -1.0, -2.0, -3.5};
  const std::vector<double> expo = {0.0, 1.0, 2.0, 3.0, 4.0, -1.0, -2.0, -3.0, 0.5, 1.5, 0.25, -0.5, 1.0000001, 0.9999999, 7.0, 2.5};
  const double f = mc::Pick(base, "f"), g = mc::Pick(expo, "g");
  const int df = mc::Choose(3, "df"), dg = mc::Choose(3, "dg"), form = mc::Choose(3, "form");
  const double dv[3][2] = {{0, 0}, {1, 0}, {-2, 3}};
  const Jet<double, 2> jf = MakeJet<2>(f, dv[df]), jg = MakeJet<2>(g, dv[dg]);
  const Jet<double, 2> r = form == 0 ? pow(jf, jg) : form == 1 ? pow(jf, g) : pow(f, jg);
  const double* a = form == 2 ? dv[0] : dv[df];
  const double* b = form == 1 ? dv[0] : dv[dg];
  mc::Step();
  const double val = std::pow(f, g);
  MC_REQUIRE(Ulps(r.a, val, 4)) << "value " << r.a << " expected " << val << " f=" << f << " g=" << g << " form=" << form;
  const bool integer = g == std::floor(g);
  for (int i = 0; i < 2; ++i) {
    const double got = r.v[i];
    mc::H h; h(r.a)(got)(i); mc::Outcome(h.h);
    const auto where = [&] { std::ostringstream s; s << " f=" << f << " g=" << g << " df=" << a[i] << " dg=" << b[i] << " form=" << form << " d=" << got; return s.str(); };
    if (!std::isfinite(val) && f > 0 || !std::isfinite(std::pow(f, g - 1)) && f != 0) continue;
    const double d1 = g == 0 ? 0 : g * std::pow(f, g - 1) * a[i];
    if (f > 0) {  // case 1
      const double e = d1 + std::log(f) * val * b[i];
      MC_REQUIRE(vu::Near(got, e, 1e-12)) << "case 1: expected " << e << where();
    } else if (f == 0 && g > 1) {  // case 2
      MC_REQUIRE(got == 0) << "case 2" << where();
    } else if (f == 0 && g == 1) {  // case 3
      MC_REQUIRE(got == a[i]) << "case 3" << where();
    } else if (f == 0 && form == 2 && g > 0) {
      MC_REQUIRE(got == 0) << "constant zero base" << where();
    } else if (f == 0) {  // cases 4, 5, 6
      if (a[i] != 0 && g != 0) MC_REQUIRE(!std::isfinite(got)) << "case 4/5" << where();
    } else if (integer) {  // cases 7, 8
      if (b[i] == 0) MC_REQUIRE(vu::Near(got, d1, 1e-12)) << "case 7: expected " << d1 << where();
      else MC_REQUIRE(!std::isfinite(got)) << "case 8" << where();
    } else {
      MC_REQUIRE(!std::isfinite(r.a)) << "case 9" << where();
      if (a[i] != 0 || b[i] != 0) MC_REQUIRE(!std::isfinite(got)) << "case 9" << where();
    }
  }
}

MC_SCENARIO(copysign_cases, .split = 2) {
  const std::vector<double> vals = {0.0, -0.0, 1.5, -2.5, 1e-300, -kDen, 1e300, kInf, -kInf};
  const double x = mc::Pick(vals, "x"), y = mc::Pick(vals, "y");
  const double dx = mc::Pick({0.0, 1.0, -2.0}, "dx"), dy = mc::Pick({0.0, 1.0, -3.0}, "dy");
  const double vx[1] = {dx}, vy[1] = {dy};
  const auto r = copysign(MakeJet<1>(x, vx), MakeJet<1>(y, vy));
  mc::Step();
  MC_REQUIRE(r.a == std::copysign(x, y) && std::signbit(r.a) == std::signbit(y)) << "copysign(" << x << "," << y << ")=" << r.a;
  if (y == 0) MC_REQUIRE(!std::isfinite(r.v[0])) << "copysign is not differentiable in a zero sign argument, got " << r.v[0];
  else if (std::isfinite(x)) MC_REQUIRE(r.v[0] == (std::signbit(x) == std::signbit(y) ? dx : -dx)) << "copysign derivative " << r.v[0] << " at " << x << "," << y;
  mc::Outcome(mc::H()(r.a)(r.v[0]).h);
}
MC_SCENARIO(ternary_operations, .split = 2) {
  const int op = mc::Choose(2, "op");
  const std::vector<double> vals = {0.0, 1.0, -2.0, 0.5, -3.25, 1e100, -1e-100, 1e-8};
  const double x = mc::Pick(vals, "x"), y = mc::Pick(vals, "y"), z = mc::Pick(vals, "z");
  const int d = mc::Choose(6, "dx"), e = mc::Choose(6, "dy"), f = mc::Choose(6, "dz");
  const auto jx = MakeJet<3>(x, kDeriv[d]), jy = MakeJet<3>(y, kDeriv[e]), jz = MakeJet<3>(z, kDeriv[f]);
  if (op == 1 && x == 0 && y == 0 && z == 0) return mc::Trivial();
  const auto r = op == 0 ? fma(jx, jy, jz) : hypot(jx, jy, jz);
  mc::Step();
  const double val = op == 0 ? std::fma(x, y, z) : std::hypot(x, y, z);
  MC_REQUIRE(Ulps(r.a, val, 4)) << (op ? "hypot" : "fma") << " " << r.a << " expected " << val << " at " << x << " " << y << " " << z;
  for (int i = 0; i < 3; ++i) {
    const LD hyp = hypotl(hypotl(x, y), z);
    const LD e2 = op == 0 ? LD(y) * kDeriv[d][i] + LD(x) * kDeriv[e][i] + kDeriv[f][i]
                          : (x / hyp) * kDeriv[d][i] + (y / hyp) * kDeriv[e][i] + (z / hyp) * kDeriv[f][i];
    const double mag = op == 0 ? std::abs(y * kDeriv[d][i]) + std::abs(x * kDeriv[e][i]) + std::abs(kDeriv[f][i])
                               : std::abs(kDeriv[d][i]) + std::abs(kDeriv[e][i]) + std::abs(kDeriv[f][i]);
    MC_REQUIRE(std::abs(static_cast<double>(r.v[i] - e2)) <= 1e-14 * mag) << (op ? "hypot" : "fma") << " derivative " << r.v[i] << " expected " << static_cast<double>(e2);
    mc::Outcome(mc::H()(r.v[i])(i).h);
  }
}

// ---- all expression trees -------------------------------------------------
namespace {
struct Node { int op, l, r; };
struct Tree {
  std::vector<Node> n;
  int Leaf(int k) { n.push_back({-1 - k, -1, -1}); return static_cast<int>(n.size()) - 1; }
  int Build(int depth) {
    // leaf | op
    if (depth == 1) return Leaf(mc::Choose(3, "leaf"));
    const int pick = mc::Choose(3 + kBinaryEnd, "op");
    if (pick < 3) return Leaf(pick);
    const int op = pick - 3;
    const int l = Build(depth - 1);
    int r = -1;
    if (op >= kMixedEnd) r = Build(depth - 1);
    n.push_back({op, l, r});
    return static_cast<int>(n.size()) - 1;
  }
  std::string Str(int i) const {
    const Node& k = n[i];
    if (k.op < 0) return k.op == -1 ? "x0" : k.op == -2 ? "x1" : "c";
    return std::string(kOpName[k.op]) + "{" + Str(k.l) + (k.r >= 0 ? "," + Str(k.r) : "") + "}";
  }
};
constexpr double kConst = 1.25, kScalar = 0.75;
template <typename J, typename F>
J EvalTree(const Tree& t, const J& x0, const J& x1, const J& c, const F& f, bool* dom) {
  J v[16];
  for (size_t i = 0; i < t.n.size(); ++i) {
    const Node& k = t.n[i];
    if (k.op == -1) v[i] = x0;
    else if (k.op == -2) v[i] = x1;
    else if (k.op == -3) v[i] = c;
    else {
      if (NeedsNonNegative(k.op) && !(ref::Sc(v[k.l].a) >= 0 && ref::Sc(v[k.l].a) < 1e3)) { *dom = false; return v[i]; }
      // Singular points reached through rounding are not judged here.
      const double p = ref::Sc(v[k.l].a), q = k.r >= 0 ? ref::Sc(v[k.r].a) : 0;
      bool near = false;
      switch (k.op) {
        case kAcos: case kAsin: near = std::abs(p) > 1 - 1e-6; break;
        case kLog: case kLog10: case kLog2: case kSqrt: case kCbrt: case kDivSJ: near = std::abs(p) < 1e-9; break;
        case kLog1p: near = std::abs(1 + p) < 1e-9; break;
        case kDiv: case kDivEq: near = std::abs(q) < 1e-9; break;
        case kHypot: case kAtan2: near = std::abs(p) + std::abs(q) < 1e-9; break;
      }
      if (near) { *dom = false; return v[i]; }
      v[i] = f(k.op, v[k.l], k.r >= 0 ? v[k.r] : v[k.l]);
    }
    // Judge only expressions all of whose intermediate results are tame.
    const double a = ref::Sc(v[i].a);
    if (!(std::abs(a) < 1e8)) *dom = false;
    if (!*dom) return v[i];
  }
  return v[t.n.size() - 1];
}
void CheckTree(const Tree& t) {
  const double pts[5] = {0.6, -0.45, 1.7, -2.3, 0.0};
  bool any = false;
  for (double p0 : pts)
    for (double p1 : pts) {
      const double d0[2] = {1, 0.5}, d1[2] = {-0.25, 1}, dc[2] = {0, 0};
      bool dom = true;
      ref::kink = false;
      const auto model = [](int op, const auto& a, const auto& b) { return Model(op, a, b, kScalar); };
      const auto m = EvalTree(t, MakeRef<LD, 2>(p0, d0), MakeRef<LD, 2>(p1, d1), MakeRef<LD, 2>(kConst, dc), model, &dom);
      if (!dom || ref::kink) continue;
      const double e[3] = {(double)m.a, (double)m.v[0], (double)m.v[1]};
      if (!std::isfinite(e[1]) || !std::isfinite(e[2]) || std::abs(e[1]) > 1e8 || std::abs(e[2]) > 1e8) continue;
      const auto q = EvalTree(t, MakeRef<double, 2>(p0, d0), MakeRef<double, 2>(p1, d1), MakeRef<double, 2>(kConst, dc), model, &dom);
      if (!dom || ref::kink) continue;
      bool jdom = true;
      const auto r = EvalTree(t, MakeJet<2>(p0, d0), MakeJet<2>(p1, d1), MakeJet<2>(kConst, dc),
                              [](int op, const auto& a, const auto& b) { return Real<Jet<double, 2>, double>(op, a, b, kScalar); }, &jdom);
      mc::Step();
      any = true;
      const double g[3] = {r.a, r.v[0], r.v[1]}, w[3] = {q.a, q.v[0], q.v[1]};
      for (int i = 0; i < 3; ++i) {
        const double tol = 1e-9 * (1 + std::abs(e[i])) + 1e3 * std::abs(e[i] - w[i]);
        MC_REQUIRE(std::abs(g[i] - e[i]) <= tol) << (i ? "derivative " : "value ") << t.Str(t.n.size() - 1) << " x0=" << p0 << " x1=" << p1
                                                 << " got " << g[i] << " expected " << e[i];
        mc::Outcome(mc::HashD(e[i], i));
      }
    }
  if (!any) mc::Trivial();
}
}  // namespace
MC_SCENARIO(expression_trees, .split = 2, .weight = 3) {
  Tree t;
  const int op = mc::Choose(kBinaryEnd, "root");
  const int l = t.Build(op >= kMixedEnd ? 2 : mc::Bound(2, 3));
  int r = -1;
  if (op >= kMixedEnd) r = t.Build(2);
  t.n.push_back({op, l, r});
  CheckTree(t);
}
MC_SCENARIO(deeper_trees, .split = 3, .thorough_only = true, .weight = 3) {
  Tree t;
  const int op = mc::Choose(kBinaryEnd, "root");
  const int l = t.Build(3);
  int r = -1;
  if (op >= kMixedEnd) r = t.Leaf(mc::Choose(3, "leaf"));
  t.n.push_back({op, l, r});
  CheckTree(t);
}

// ---- nested jets: second derivatives ----------------------------------------
MC_SCENARIO(nested_jets, .split = 2) {
  using J1 = Jet<double, 2>;
  using J2 = Jet<J1, 2>;
  using R1 = Ref<LD, 2>;
  using R2 = Ref<R1, 2>;
  const int op = mc::Choose(kBinaryEnd, "op");
  const std::vector<double> pts = {0.6, -0.45, 1.7, -2.3, 0.3};
  const double p0 = mc::Pick(pts, "x"), p1 = mc::Pick(pts, "y");
  if (NeedsNonNegative(op) && p0 < 0) return mc::Trivial();
  if (op == kJ15 || op == kFmax || op == kFmin || op == kFdim) {
    if (op == kJ15) return mc::Trivial();  // its derivative needs order -1/2... not defined
  }
  const auto mk = [](double p, double a, double b) {
    J2 x;
    x.a = J1(p); x.a.v[0] = a; x.a.v[1] = b;
    x.v[0] = J1(a); x.v[1] = J1(b);
    return x;
  };
  const auto mr = [](double p, double a, double b) {
    R2 x;
    x.a = R1(p); x.a.v[0] = a; x.a.v[1] = b;
    x.v[0] = R1(a); x.v[1] = R1(b);
    return x;
  };
  // s is a scalar of the jet's own scalar type.
  const J2 r = Real<J2, J1>(op, mk(p0, 1, 0.5), mk(p1, -0.25, 1), J1(kScalar));
  R2 s2(kScalar);
  const R2 m = Model(op, mr(p0, 1, 0.5), mr(p1, -0.25, 1), kScalar);
  mc::Step();
  const auto cmp = [&](double got, LD want, const char* what) {
    if (!std::isfinite((double)want)) return true;
    MC_EXPECT(vu::Near(got, (double)want, 1e-10)) << kOpName[op] << " nested " << what << " got " << got << " expected " << (double)want << " at x=" << p0 << " y=" << p1;
    mc::Outcome(mc::H()(got).h);
    return true;
  };
  if (!std::isfinite((double)m.a.a)) return mc::Trivial();
  cmp(r.a.a, m.a.a, "value");
  for (int i = 0; i < 2; ++i) {
    cmp(r.a.v[i], m.a.v[i], "inner derivative");
    cmp(r.v[i].a, m.v[i].a, "outer derivative");
    for (int j = 0; j < 2; ++j) cmp(r.v[i].v[j], m.v[i].v[j], "second derivative");
  }
}

// ---- comparison and classification -----------------------------------------
namespace {
template <typename A, typename B>
void Compare(const A& a, const B& b, double x, double y) {
  MC_REQUIRE((a < b) == (x < y)) << "< " << x << " " << y;
  MC_REQUIRE((a <= b) == (x <= y)) << "<= " << x << " " << y;
  MC_REQUIRE((a > b) == (x > y)) << "> " << x << " " << y;
  MC_REQUIRE((a >= b) == (x >= y)) << ">= " << x << " " << y;
  MC_REQUIRE((a == b) == (x == y)) << "== " << x << " " << y;
  MC_REQUIRE((a != b) == (x != y)) << "!= " << x << " " << y;
  mc::Step(6);
}
template <typename A, typename B>
void CompareFn(const A& a, const B& b, double x, double y) {
  MC_REQUIRE(isless(a, b) == std::isless(x, y)) << "isless " << x << " " << y;
  MC_REQUIRE(isgreater(a, b) == std::isgreater(x, y)) << "isgreater " << x << " " << y;
  MC_REQUIRE(islessequal(a, b) == std::islessequal(x, y)) << "islessequal " << x << " " << y;
  MC_REQUIRE(isgreaterequal(a, b) == std::isgreaterequal(x, y)) << "isgreaterequal " << x << " " << y;
  MC_REQUIRE(islessgreater(a, b) == std::islessgreater(x, y)) << "islessgreater " << x << " " << y;
  MC_REQUIRE(isunordered(a, b) == std::isunordered(x, y)) << "isunordered " << x << " " << y;
  mc::Step(6);
}
template <typename A>
void Classify(const A& a, double x) {
  MC_REQUIRE(isfinite(a) == std::isfinite(x)) << "isfinite " << x;
  MC_REQUIRE(isinf(a) == std::isinf(x)) << "isinf " << x;
  MC_REQUIRE(isnan(a) == std::isnan(x)) << "isnan " << x;
  MC_REQUIRE(isnormal(a) == std::isnormal(x)) << "isnormal " << x;
  MC_REQUIRE(signbit(a) == std::signbit(x)) << "signbit " << x;
  MC_REQUIRE(fpclassify(a) == std::fpclassify(x)) << "fpclassify " << x;
  MC_REQUIRE(IsFinite(a) == std::isfinite(x) && IsInfinite(a) == std::isinf(x) && IsNaN(a) == std::isnan(x) && IsNormal(a) == std::isnormal(x)) << "legacy names " << x;
  mc::Step(10);
}
}  // namespace
MC_SCENARIO(comparison_classification, .split = 2) {
  const std::vector<double> all = {0.0, -0.0, 1.0, -1.0, 1.0 + 1e-15, 2.5, -2.5, kDen, -kDen, kMin, kMax, -kMax, kInf, -kInf, kNan};
  const double x = mc::Pick(all, "x"), y = mc::Pick(all, "y");
  const double dx = mc::Pick({0.0, 1.0, kNan, kInf, -1.0}, "dx"), dy = mc::Pick({0.0, -1.0, kNan, 2.0}, "dy");
  const double vx[2] = {dx, -dx}, vy[2] = {dy, 1};
  using J = Jet<double, 2>;
  using JJ = Jet<J, 2>;
  const J a = MakeJet<2>(x, vx), b = MakeJet<2>(y, vy);
  JJ na(a), nb(b);
  na.v[0] = b; nb.v[1] = a;
  Compare(a, b, x, y);
  Compare(a, y, x, y);
  Compare(x, b, x, y);
  Compare(na, nb, x, y);
  Compare(na, y, x, y);
  Compare(x, nb, x, y);
  CompareFn(a, b, x, y);
  CompareFn(a, y, x, y);
  CompareFn(x, b, x, y);
  CompareFn(na, nb, x, y);
  if (y == std::floor(y) && std::abs(y) < 100) { Compare(a, static_cast<int>(y), x, y); Compare(static_cast<int>(y), a, y, x); }
  Compare(a, static_cast<float>(y), x, static_cast<float>(y));
  Classify(a, x);
  Classify(na, x);
  // Mixed jet and scalar min/max behave as if the scalar were a constant jet.
  for (int k = 0; k < 3; ++k) {
    const J c(y);
    const J l = k == 0 ? J(fmax(a, y)) : k == 1 ? J(fmin(a, y)) : J(fdim(a, y)), r = k == 0 ? J(fmax(a, c)) : k == 1 ? J(fmin(a, c)) : J(fdim(a, c));
    const J l2 = k == 0 ? J(fmax(y, a)) : k == 1 ? J(fmin(y, a)) : J(fdim(y, a)), r2 = k == 0 ? J(fmax(c, a)) : k == 1 ? J(fmin(c, a)) : J(fdim(c, a));
    MC_REQUIRE(vu::Same(l.a, r.a) && vu::Same(l.v[0], r.v[0]) && vu::Same(l.v[1], r.v[1])) << "mixed min/max/dim " << k << " of " << x << "," << y;
    MC_REQUIRE(vu::Same(l2.a, r2.a) && vu::Same(l2.v[0], r2.v[0]) && vu::Same(l2.v[1], r2.v[1])) << "mixed min/max/dim (swapped) " << k << " of " << y << "," << x;
    mc::Outcome(mc::H()(l.a)(l.v[0])(k).h);
  }
}

// ---- aliasing and in-place forms ---------------------------------------------
MC_SCENARIO(aliasing, .split = 1) {
  using J = Jet<double, 3>;
  const int op = mc::Choose(4, "op"), alias = mc::Choose(4, "alias");
  const double x = mc::Pick({2.0, -0.5, 3.0, 1.0}, "x");
  const int d = mc::Choose(6, "d"), len = mc::Range(1, 3, "repeat");
  J j = MakeJet<3>(x, kDeriv[d]);
  Ref<LD, 3> m = MakeRef<LD, 3>(x, kDeriv[d]);
  for (int k = 0; k < len; ++k) {
    Ref<LD, 3> o;
    if (alias == 0) o = m;                            // the object itself
    else if (alias == 1) o = Ref<LD, 3>((double)m.a); // its own value as a scalar
    else if (alias == 2) o = Ref<LD, 3>((double)m.v[1]);
    else o = m;
    if (op == 3 && ref::Sc(o.a) == 0) return mc::Trivial();
    if (alias == 3) {  // expression assigned to an operand
      if (op == 0) j = j + j; else if (op == 1) j = j - j; else if (op == 2) j = j * j; else j = j / j;
    } else if (alias == 0) {
      if (op == 0) j += j; else if (op == 1) j -= j; else if (op == 2) j *= j; else j /= j;
    } else if (alias == 1) {
      if (op == 0) j += j.a; else if (op == 1) j -= j.a; else if (op == 2) j *= j.a; else j /= j.a;
    } else {
      if (op == 0) j += j.v[1]; else if (op == 1) j -= j.v[1]; else if (op == 2) j *= j.v[1]; else j /= j.v[1];
    }
    m = op == 0 ? m + o : op == 1 ? m - o : op == 2 ? m * o : m / o;
    mc::Step();
    for (int i = 0; i < 3; ++i)
      MC_REQUIRE(vu::Near(j.v[i], (double)m.v[i], 1e-13)) << "derivative " << i << " " << j.v[i] << " expected " << (double)m.v[i] << " op=" << op << " alias=" << alias;
    MC_REQUIRE(vu::Near(j.a, (double)m.a, 1e-13)) << "value " << j.a << " expected " << (double)m.a << " op=" << op << " alias=" << alias;
    mc::Outcome(mc::H()(j.a).D(&j.v[0], 3).h);
    if (std::abs(j.a) < 1e-300 && op == 3) return;
  }
}

// ---- constructors, limits and Eigen -------------------------------------------
namespace {
template <typename T, int N>
void Limits() {
  using J = Jet<T, N>;
  using L = std::numeric_limits<J>;
  using B = std::numeric_limits<T>;
  MC_EXPECT(L::is_specialized && L::is_signed == B::is_signed && L::is_integer == B::is_integer && L::is_exact == B::is_exact) << "kind";
  MC_EXPECT(L::has_infinity == B::has_infinity && L::has_quiet_NaN == B::has_quiet_NaN && L::has_signaling_NaN == B::has_signaling_NaN) << "specials";
  MC_EXPECT(L::digits == B::digits && L::digits10 == B::digits10 && L::max_digits10 == B::max_digits10 && L::radix == B::radix) << "digits";
  MC_EXPECT(L::min_exponent == B::min_exponent && L::max_exponent == B::max_exponent) << "exponents";
  MC_EXPECT(L::min_exponent10 == B::min_exponent10 && L::max_exponent10 == B::max_exponent10) << "decimal exponents " << L::min_exponent10 << " expected " << B::min_exponent10;
  MC_EXPECT(L::is_iec559 == B::is_iec559 && L::is_bounded == B::is_bounded && L::is_modulo == B::is_modulo && L::traps == B::traps && L::tinyness_before == B::tinyness_before && L::round_style == B::round_style) << "traits";
  const J v[] = {L::min(), L::lowest(), L::max(), L::epsilon(), L::round_error(), L::infinity(), L::denorm_min(), L::quiet_NaN()};
  const T w[] = {B::min(), B::lowest(), B::max(), B::epsilon(), B::round_error(), B::infinity(), B::denorm_min(), B::quiet_NaN()};
  for (int i = 0; i < 8; ++i) {
    MC_EXPECT(v[i].a == w[i] || (v[i].a != v[i].a && w[i] != w[i])) << "limit " << i;
    for (int k = 0; k < N; ++k) MC_EXPECT(v[i].v[k] == 0) << "limit derivative " << i;
  }
  mc::Step(8);
}
}  // namespace
MC_SCENARIO(limits_and_eigen, .split = 1) {
  const int part = mc::Choose(5, "part");
  using J = Jet<double, 3>;
  if (part == 0) { Limits<double, 1>(); Limits<double, 4>(); Limits<float, 3>(); mc::Outcome(part); return; }
  const double p = mc::Pick({0.5, -1.5, 2.0}, "p"), q = mc::Pick({1.25, -0.75}, "q");
  J x(p, 0), y(q, 1), c(3.0);
  MC_EXPECT(x.a == p && x.v[0] == 1 && x.v[1] == 0 && x.v[2] == 0 && y.v[1] == 1 && c.v.isZero() && J().a == 0 && J().v.isZero()) << "constructors";
  using M2 = Eigen::Matrix<J, 2, 2>;
  using V2 = Eigen::Matrix<J, 2, 1>;
  M2 m;
  m << x, y, y * x, x + 2.0;
  V2 v(x * y, y);
  const auto eq = [](const J& a, const J& b) { bool r = vu::Near(a.a, b.a, 1e-13); for (int i = 0; i < 3; ++i) r &= vu::Near(a.v[i], b.v[i], 1e-13); return r; };
  mc::Step();
  if (part == 1) {
    const V2 r = m * v;
    for (int i = 0; i < 2; ++i) MC_EXPECT(eq(r(i), m(i, 0) * v(0) + m(i, 1) * v(1))) << "matrix product of jets";
    MC_EXPECT(eq(v.dot(v), v(0) * v(0) + v(1) * v(1)) && eq(v.squaredNorm(), v.dot(v)) && eq(v.sum(), v(0) + v(1))) << "dot/squaredNorm/sum of jets";
    MC_EXPECT(eq(v.norm(), sqrt(v(0) * v(0) + v(1) * v(1)))) << "norm of jets";
    mc::Outcome(mc::H()(r(0).a)(r(1).v[0]).h);
  } else if (part == 2) {
    Eigen::Matrix2d s;
    s << 1, 2, -3, 0.5;
    const V2 r = s * v;
    const M2 t = m * 2.0, u = 2.0 * m, w = m / 2.0;
    for (int i = 0; i < 2; ++i) {
      MC_EXPECT(eq(r(i), v(0) * s(i, 0) + v(1) * s(i, 1))) << "double matrix times jet vector";
      for (int k = 0; k < 2; ++k) MC_EXPECT(eq(t(i, k), m(i, k) + m(i, k)) && eq(u(i, k), t(i, k)) && eq(w(i, k), m(i, k) * J(0.5))) << "scalar times jet matrix";
    }
    mc::Outcome(mc::H()(r(0).a)(r(1).v[0]).h);
  } else if (part == 3) {
    const J det = m.determinant();
    MC_EXPECT(eq(det, m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0))) << "determinant";
    if (std::abs(det.a) > 1e-6) {
      const M2 id = m * m.inverse();
      for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 2; ++k) MC_EXPECT(eq(id(i, k), J(i == k ? 1.0 : 0.0))) << "inverse of a jet matrix";
    }
    mc::Outcome(mc::H()(det.a)(det.v[1]).h);
  } else {
    Eigen::Matrix<J, 3, 1> t(x, y, x * y), u(y, x - y, J(1.0));
    const Eigen::Matrix<J, 3, 1> cr = t.cross(u);
    MC_EXPECT(eq(cr(0), t(1) * u(2) - t(2) * u(1)) && eq(cr(1), t(2) * u(0) - t(0) * u(2)) && eq(cr(2), t(0) * u(1) - t(1) * u(0))) << "cross";
    J mx = t.maxCoeff();
    J want = t(0);
    for (int i = 1; i < 3; ++i) if (t(i) > want) want = t(i);
    MC_EXPECT(eq(mx, want)) << "maxCoeff";
    std::ostringstream os, os2;
    os << x;
    os2 << "[" << p << " ; 1, 0, 0]";
    MC_EXPECT(os.str() == os2.str()) << "printed form " << os.str();
    mc::Outcome(mc::H()(cr(0).a)(mx.a).h);
  }
}
