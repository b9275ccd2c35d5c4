// Reference forward differentiation, written independently of ceres/jet.h:
// every derivative is typed in from a table in a different algebraic form.
// Works for double, long double and (nested) Ref<> scalars.
#ifndef VERIF_HARNESS_REFDUAL_H_
#define VERIF_HARNESS_REFDUAL_H_
#include <cmath>
#include <limits>

namespace ref {
// Set when an operation was evaluated where rounding may pick the other branch.
inline bool kink = false;
inline void NearTie(double p, double q) { if (std::abs(p - q) <= 1e-7 * (1 + std::abs(p))) kink = true; }
template <typename T, int N>
struct Ref {
  T a{};
  T v[N] = {};
  Ref() = default;
  Ref(double x) : a(x) {}
};
template <typename T> struct IsRef { static constexpr bool value = false; };
template <typename T, int N> struct IsRef<Ref<T, N>> { static constexpr bool value = true; };

inline double Sc(double x) { return x; }
inline double Sc(long double x) { return static_cast<double>(x); }
template <typename T, int N> double Sc(const Ref<T, N>& x) { return Sc(x.a); }

#define REF_R template <typename T, int N> Ref<T, N>
REF_R operator+(const Ref<T, N>& x, const Ref<T, N>& y) { Ref<T, N> r; r.a = x.a + y.a; for (int i = 0; i < N; ++i) r.v[i] = x.v[i] + y.v[i]; return r; }
REF_R operator-(const Ref<T, N>& x, const Ref<T, N>& y) { Ref<T, N> r; r.a = x.a - y.a; for (int i = 0; i < N; ++i) r.v[i] = x.v[i] - y.v[i]; return r; }
REF_R operator-(const Ref<T, N>& x) { Ref<T, N> r; r.a = -x.a; for (int i = 0; i < N; ++i) r.v[i] = -x.v[i]; return r; }
REF_R operator*(const Ref<T, N>& x, const Ref<T, N>& y) { Ref<T, N> r; r.a = x.a * y.a; for (int i = 0; i < N; ++i) r.v[i] = x.v[i] * y.a + x.a * y.v[i]; return r; }
REF_R operator/(const Ref<T, N>& x, const Ref<T, N>& y) { Ref<T, N> r; r.a = x.a / y.a; for (int i = 0; i < N; ++i) r.v[i] = x.v[i] / y.a - x.a / y.a * (y.v[i] / y.a); return r; }
#undef REF_R

// Applies value f and derivative d to x.
template <typename T, int N>
Ref<T, N> Chain(const T& f, const T& d, const Ref<T, N>& x) {
  Ref<T, N> r;
  r.a = f;
  for (int i = 0; i < N; ++i) r.v[i] = d * x.v[i];
  return r;
}
template <typename T, int N>
Ref<T, N> Chain(const T& f, const T& d, const Ref<T, N>& x, const T& e, const Ref<T, N>& y) {
  const Ref<T, N> p = Chain(f, d, x), q = Chain(f, e, y);
  Ref<T, N> r;
  r.a = f;
  for (int i = 0; i < N; ++i) r.v[i] = p.v[i] + q.v[i];
  return r;
}
using std::abs; using std::log; using std::log10; using std::log1p; using std::exp; using std::expm1; using std::sqrt;
using std::cos; using std::acos; using std::sin; using std::asin; using std::tan; using std::atan; using std::sinh;
using std::cosh; using std::tanh; using std::floor; using std::ceil; using std::cbrt; using std::exp2; using std::log2;
using std::erf; using std::erfc; using std::pow; using std::hypot; using std::atan2; using std::copysign; using std::cyl_bessel_j;

// name, derivative as a function of x (type T)
#define REF_UNARY(X)                                       \
  X(abs, T(Sc(x) < 0 || (Sc(x) == 0 && std::signbit(Sc(x))) ? -1.0 : 1.0)) \
  X(log, T(1.0) / x)                                       \
  X(log10, T(1.0) / (x * T(2.302585092994045684017991454684L))) \
  X(log1p, T(1.0) / (x + T(1.0)))                          \
  X(exp, exp(x))                                           \
  X(expm1, exp(x))                                         \
  X(sqrt, T(0.5) / sqrt(x))                                \
  X(cos, -sin(x))                                          \
  X(acos, T(-1.0) / sqrt((T(1.0) - x) * (T(1.0) + x)))     \
  X(sin, cos(x))                                           \
  X(asin, T(1.0) / sqrt((T(1.0) - x) * (T(1.0) + x)))      \
  X(tan, T(1.0) / (cos(x) * cos(x)))                       \
  X(atan, T(1.0) / (T(1.0) + x * x))                       \
  X(sinh, cosh(x))                                         \
  X(cosh, sinh(x))                                         \
  X(tanh, T(1.0) / (cosh(x) * cosh(x)))                    \
  X(floor, T(0.0))                                         \
  X(ceil, T(0.0))                                          \
  X(cbrt, T(1.0) / (T(3.0) * cbrt(x) * cbrt(x)))           \
  X(exp2, exp2(x) * T(0.693147180559945309417232121458L))  \
  X(log2, T(1.0) / (x * T(0.693147180559945309417232121458L))) \
  X(erf, T(1.128379167095512573896158903122L) * exp(-(x * x))) \
  X(erfc, T(-1.128379167095512573896158903122L) * exp(-(x * x)))

// Forward declarations first: derivatives of one function use others, and two
// phase lookup finds them through Ref's namespace.
#define REF_DECL(name, d)                                        \
  template <typename T, int N> Ref<T, N> name(const Ref<T, N>&);
REF_UNARY(REF_DECL)
#undef REF_DECL
inline void KinkCheck(const char* name, double x);
#define REF_DEF(name, d)                                         \
  template <typename T> T D_##name(const T& x) { return d; }     \
  template <typename T, int N> Ref<T, N> name(const Ref<T, N>& x) { KinkCheck(#name, Sc(x)); return Chain(T(name(x.a)), T(D_##name(x.a)), x); }
REF_UNARY(REF_DEF)
inline void KinkCheck(const char* name, double x) {
  if (name[0] == 'f' || (name[0] == 'c' && name[1] == 'e')) NearTie(x, std::round(x));
  if (name[0] == 'a' && name[1] == 'b') NearTie(x, 0);
}
#undef REF_DEF
template <typename T, int N> Ref<T, N> norm(const Ref<T, N>& x) { return x * x; }
inline long double norm(long double x) { return x * x; }
inline double norm(double x) { return x * x; }

// Bessel function of the first kind of order nu >= 1 or nu == 0, argument >= 0.
template <typename T> T JD(double nu, const T& x);
template <typename T, int N> Ref<T, N> J(double nu, const Ref<T, N>& x);
inline double J(double nu, double x) { return std::cyl_bessel_j(nu, x); }
inline long double J(double nu, long double x) { return std::cyl_bessel_j(static_cast<long double>(nu), x); }
template <typename T> T JD(double nu, const T& x) {
  if (nu == 0) return -J(1.0, x);
  if (Sc(x) == 0) return T(nu == 1 ? 0.5 : 0.0);
  return T(nu) / x * J(nu, x) - J(nu + 1, x);
}
template <typename T, int N> Ref<T, N> J(double nu, const Ref<T, N>& x) { return Chain(T(J(nu, x.a)), T(JD(nu, x.a)), x); }

template <typename T, int N> Ref<T, N> hypot(const Ref<T, N>& x, const Ref<T, N>& y) {
  const T h = hypot(x.a, y.a);
  return Chain(h, T(x.a / h), x, T(y.a / h), y);
}
template <typename T, int N> Ref<T, N> atan2(const Ref<T, N>& y, const Ref<T, N>& x) {
  const T h = hypot(x.a, y.a);
  return Chain(T(atan2(y.a, x.a)), T(x.a / h / h), y, T(-(y.a / h / h)), x);
}
// x^y for x > 0, or x <= 0 with the cases of the documentation that have a
// derivative; everything else is judged by the caller.
template <typename T, int N> Ref<T, N> pow(const Ref<T, N>& x, const Ref<T, N>& y) {
  const double xs = Sc(x.a), ys = Sc(y.a);
  bool yconst = true;
  if (xs <= 1e-9) kink = true;
  for (int i = 0; i < N; ++i) yconst &= Sc(y.v[i]) == 0;
  if (xs == 0 && ys == 1) return x;
  if (xs == 0 && ys > 1) return Ref<T, N>(0.0);
  const T p = pow(x.a, y.a);
  const T dx = ys == 0 ? T(0.0) : T(y.a * pow(x.a, T(y.a - T(1.0))));
  if (yconst) return Chain(p, dx, x);
  if (xs < 0 || (xs == 0 && ys == 0)) {  // derivative with respect to y does not exist
    Ref<T, N> r = Chain(p, dx, x);
    for (int i = 0; i < N; ++i) if (Sc(y.v[i]) != 0) r.v[i] = T(std::numeric_limits<double>::quiet_NaN());
    return r;
  }
  return Chain(p, dx, x, T(log(x.a) * p), y);
}
template <typename T, int N> Ref<T, N> copysign(const Ref<T, N>& x, const Ref<T, N>& y) {
  NearTie(Sc(y), 0); NearTie(Sc(x), 0);
  const bool flip = std::signbit(Sc(x)) != std::signbit(Sc(y));
  return flip ? -x : x;
}
template <typename T, int N> Ref<T, N> fmax(const Ref<T, N>& x, const Ref<T, N>& y) {
  const double p = Sc(x), q = Sc(y);
  NearTie(p, q);
  if (p != p) return y;
  if (q != q) return x;
  if (p != q) return p > q ? x : y;
  Ref<T, N> r;
  r.a = x.a * T(0.5) + y.a * T(0.5);
  for (int i = 0; i < N; ++i) r.v[i] = (x.v[i] + y.v[i]) * T(0.5);
  return r;
}
template <typename T, int N> Ref<T, N> fmin(const Ref<T, N>& x, const Ref<T, N>& y) { return -fmax(-x, -y); }
template <typename T, int N> Ref<T, N> fdim(const Ref<T, N>& x, const Ref<T, N>& y) {
  const double p = Sc(x), q = Sc(y);
  NearTie(p, q);
  if (p != p || q != q) { Ref<T, N> r(std::numeric_limits<double>::quiet_NaN()); return r; }
  return p > q ? x - y : Ref<T, N>(0.0);
}
}  // namespace ref
#endif
