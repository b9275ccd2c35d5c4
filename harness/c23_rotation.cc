// C23: every representation of a rotation describes the same rotation.
#include <algorithm>
#include <array>

#include "ceres/jet.h"
#include "ceres/rotation.h"
#include "util.h"
namespace {
using L = long double;
using V3 = std::array<L, 3>;
using Q4 = std::array<L, 4>;  // w x y z
using M3 = std::array<std::array<L, 3>, 3>;
constexpr L kPi = 3.14159265358979323846264338327950288L;

M3 Mul(const M3& a, const M3& b) {
  M3 c{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) c[i][j] += a[i][k] * b[k][j];
  return c;
}
Q4 Mul(const Q4& z, const Q4& w) {
  // Scalar and vector parts.
  Q4 r;
  r[0] = z[0] * w[0];
  for (int i = 1; i < 4; ++i) r[0] -= z[i] * w[i];
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    r[i + 1] = z[0] * w[i + 1] + w[0] * z[i + 1] + z[j + 1] * w[k + 1] - z[k + 1] * w[j + 1];
  }
  return r;
}
// sin(t)/t, (1-cos t)/t^2
L SinC(L t2) { if (t2 < 1e-8L) return 1 - t2 / 6 + t2 * t2 / 120; const L t = std::sqrt(t2); return std::sin(t) / t; }
L CosC(L t2) { if (t2 < 1e-8L) return 0.5L - t2 / 24 + t2 * t2 / 720; const L s = std::sin(std::sqrt(t2) / 2); return 2 * s * s / t2; }
M3 FromAA(const V3& a) {
  const L t2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2], s = SinC(t2), c = CosC(t2);
  M3 R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = c * a[i] * a[j] + (i == j ? 1 - c * t2 : 0);
  for (int i = 0; i < 3; ++i) { const int j = (i + 1) % 3, k = (i + 2) % 3; R[j][i] += s * a[k]; R[i][j] -= s * a[k]; }
  return R;
}
Q4 QFromAA(const V3& a) {
  const L t2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2], s = SinC(t2 / 4) / 2;
  return {std::cos(std::sqrt(t2) / 2), s * a[0], s * a[1], s * a[2]};
}
// Rotation by a quaternion of any norm: v -> q v q* / |q|^2.
M3 FromQ(const Q4& q) {
  const L n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
  M3 R;
  for (int c = 0; c < 3; ++c) {
    Q4 e{};
    e[c + 1] = 1;
    const Q4 r = Mul(Mul(q, e), Q4{q[0], -q[1], -q[2], -q[3]});
    for (int i = 0; i < 3; ++i) R[i][c] = r[i + 1] / n;
  }
  return R;
}
V3 AAFromQ(const Q4& p) {  // shortest
  Q4 q = p;
  if (q[0] < 0) for (L& v : q) v = -v;
  const L n = std::sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  const L k = n < 1e-5L * q[0] ? 2 / q[0] * (1 - n * n / (q[0] * q[0]) / 3 + std::pow(n / q[0], 4) / 5) : 2 * std::atan2(n, q[0]) / n;
  return {k * q[1], k * q[2], k * q[3]};
}
template <typename P>
bool CloseV(const P& got, const V3& want, L tol) { for (int i = 0; i < 3; ++i) if (!(std::abs(got[i] - want[i]) <= tol)) return false; return true; }
bool CloseM(const M3& a, const M3& b, L tol) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::abs(a[i][j] - b[i][j]) <= tol)) return false; return true; }
std::string Str(const M3& m) { std::ostringstream s; s.precision(10); for (auto& r : m) for (L v : r) s << static_cast<double>(v) << " "; return s.str(); }
M3 RowM(const double* R, int rs = 3, int cs = 1) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = R[i * rs + j * cs]; return m; }

using CQ = ceres::CeresQuaternionOrder;
using EQ = ceres::EigenQuaternionOrder;
using J3 = ceres::Jet<double, 3>;
using J4 = ceres::Jet<double, 4>;

// Directions of the {-1,0,1} lattice, some skewed ones, and angles hugging every special one.
V3 Axis() {
  const int k = mc::Choose(28, "axis");
  V3 a;
  if (k < 27) a = {L(k % 3 - 1), L(k / 3 % 3 - 1), L(k / 9 - 1)};
  else a = {0.3L, -1e-9L, 2};
  const L n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  if (n > 0) for (L& v : a) v /= n;
  return a;
}
const std::vector<L> kAngles = {0, 1e-320L, 1e-300L, 1e-170L, 1e-155L, 1e-100L, 1e-20L, 1e-9L, 1e-7L, 1e-4L, 0.3L, 1.0L, kPi / 2, 2.5L, kPi - 1e-4L, kPi - 1e-9L, kPi - 1e-15L,
                                kPi, kPi + 1e-9L, 4, 3 * kPi / 2, 2 * kPi - 1e-9L, 2 * kPi, 2 * kPi + 1e-3L, 100};
std::vector<std::array<double, 3>> Points() { return {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {0, 0, 0}, {1e10, 1, -1e-10}}; }
V3 Apply(const M3& R, const double* p) { V3 r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i] += R[i][j] * p[j]; return r; }
L Scale(const double* p) { return std::abs(p[0]) + std::abs(p[1]) + std::abs(p[2]); }

template <typename Order>
Q4 FromArr(const double* q) { return {q[Order::kW], q[Order::kX], q[Order::kY], q[Order::kZ]}; }
template <typename Order, typename T>
void ToArr(const Q4& q, T* out) { const int at[4] = {Order::kW, Order::kX, Order::kY, Order::kZ}; for (int i = 0; i < 4; ++i) out[at[i]] = T(static_cast<double>(q[i])); }

// Rotation of points by quaternions in one storage order.
template <typename Order>
void PointsByQuaternion(const Q4& unit, const M3& R) {
  double q[4], q2[4];
  ToArr<Order>(unit, q);
  for (int i = 0; i < 4; ++i) q2[i] = q[i] * -3.0;
  for (const auto& p : Points()) {
    const V3 want = Apply(R, p.data());
    double out[3];
    ceres::UnitQuaternionRotatePoint<Order>(q, p.data(), out);
    MC_EXPECT(CloseV(out, want, 2e-15 * Scale(p.data()))) << "UnitQuaternionRotatePoint " << vu::Str(out, 3);
    ceres::QuaternionRotatePoint<Order>(q2, p.data(), out);
    MC_EXPECT(CloseV(out, want, 4e-15 * Scale(p.data()))) << "QuaternionRotatePoint " << vu::Str(out, 3);
  }
  double M[9], S[9];
  ceres::QuaternionToRotation<Order>(q2, M);
  MC_EXPECT(CloseM(RowM(M), R, 4e-15)) << "QuaternionToRotation " << Str(RowM(M)) << " want " << Str(R);
  ceres::QuaternionToScaledRotation<Order>(q2, S);
  for (double& v : S) v /= 9;
  MC_EXPECT(CloseM(RowM(S), R, 4e-15)) << "QuaternionToScaledRotation";
  double E[16];
  std::fill(E, E + 16, 77);
  ceres::QuaternionToRotation<Order>(q2, ceres::MatrixAdapter<double, 1, 4>(E));
  MC_EXPECT(CloseM(RowM(E, 1, 4), R, 4e-15)) << "QuaternionToRotation, column major";
  MC_EXPECT(E[3] == 77 && E[7] == 77 && E[11] == 77 && E[12] == 77) << "padding overwritten";
}
template <typename Order>
void MatrixToQuaternion(const M3& R, L tol) {
  double C[9], E[12];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C[i + 3 * j] = E[4 * i + j] = static_cast<double>(R[i][j]);
  E[3] = E[7] = E[11] = 55;
  double q[4], p[4];
  ceres::RotationMatrixToQuaternion<Order>(C, q);
  ceres::RotationMatrixToQuaternion<Order>(ceres::MatrixAdapter<const double, 4, 1>(E), p);
  for (int i = 0; i < 4; ++i) MC_EXPECT(q[i] == p[i]) << "storage order changes the quaternion";
  const Q4 u = FromArr<Order>(q);
  MC_EXPECT(std::abs(u[0] * u[0] + u[1] * u[1] + u[2] * u[2] + u[3] * u[3] - 1) <= tol) << "RotationMatrixToQuaternion: not unit " << vu::Str(q, 4);
  MC_EXPECT(CloseM(FromQ(u), R, tol)) << "RotationMatrixToQuaternion of " << Str(R) << " = " << vu::Str(q, 4);
  mc::Outcome(mc::H().D(q, 4).h);
}
void FromMatrix(const M3& R, L tol) {
  MatrixToQuaternion<CQ>(R, tol);
  MatrixToQuaternion<EQ>(R, tol);
  double C[9], E[9], a[3], b[3];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C[i + 3 * j] = E[3 * i + j] = static_cast<double>(R[i][j]);
  ceres::RotationMatrixToAngleAxis(C, a);
  ceres::RotationMatrixToAngleAxis(ceres::RowMajorAdapter3x3<const double>(E), b);
  for (int i = 0; i < 3; ++i) MC_EXPECT(a[i] == b[i]) << "storage order changes the angle axis";
  const V3 v = {a[0], a[1], a[2]};
  MC_EXPECT(CloseM(FromAA(v), R, 2 * tol)) << "RotationMatrixToAngleAxis of " << Str(R) << " = " << vu::Str(a, 3);
  MC_EXPECT(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) <= kPi + 1e-14L) << "angle beyond pi";
}
// d f(a) / d a by extrapolated differences in extended precision.
template <typename F>
auto Diff(F f, V3 a, int k, L h = 1e-3L) {
  const auto d = [&](L s) { V3 p = a, q = a; p[k] += s; q[k] -= s; auto u = f(p), v = f(q); for (size_t i = 0; i < u.size(); ++i) u[i] = (u[i] - v[i]) / (2 * s); return u; };
  auto a0 = d(h), a1 = d(h / 2), a2 = d(h / 4);
  for (size_t i = 0; i < a0.size(); ++i) {
    const L b0 = (4 * a1[i] - a0[i]) / 3, b1 = (4 * a2[i] - a1[i]) / 3;
    a0[i] = (16 * b1 - b0) / 15;
  }
  return a0;
}
}  // namespace

MC_SCENARIO(angle_axis, .split = 2, .weight = 2) {
  const V3 axis = Axis();
  const L angle = mc::Pick(kAngles, "angle");
  double a[3];
  V3 al;
  for (int i = 0; i < 3; ++i) { a[i] = static_cast<double>(axis[i] * angle); al[i] = a[i]; }
  const M3 R = FromAA(al);
  const Q4 Q = QFromAA(al);
  const L tol = angle > 10 ? 1e-13L : 3e-15L;
  mc::Step();
  // Quaternion, both orders.
  double q[4], e[4];
  ceres::AngleAxisToQuaternion(a, q);
  ceres::AngleAxisToQuaternion<EQ>(a, e);
  for (int i = 0; i < 4; ++i) {
    MC_EXPECT(std::abs(q[i] - Q[i]) <= tol) << "AngleAxisToQuaternion[" << i << "] = " << q[i] << " for " << vu::Str(a, 3);
    MC_EXPECT(q[i] == e[(i + 3) % 4]) << "Eigen order";
  }
  // The vector part keeps its relative accuracy however small the angle is.
  if (angle <= 1e-7L && angle >= 1e-300L)
    for (int i = 0; i < 3; ++i) MC_EXPECT(std::abs(q[i + 1] - Q[i + 1]) <= 1e-15 * std::abs(Q[i + 1]) + 1e-315L) << "small angle";
  // Matrix, four layouts.
  double Rc[9], Rr[9], P[12];
  std::fill(P, P + 12, 66);
  ceres::AngleAxisToRotationMatrix(a, Rc);
  ceres::AngleAxisToRotationMatrix(a, ceres::RowMajorAdapter3x3(Rr));
  ceres::AngleAxisToRotationMatrix(a, ceres::MatrixAdapter<double, 4, 1>(P));
  MC_EXPECT(CloseM(RowM(Rc, 1, 3), R, tol)) << "AngleAxisToRotationMatrix of " << vu::Str(a, 3) << " = " << Str(RowM(Rc, 1, 3)) << " want " << Str(R);
  MC_EXPECT(CloseM(RowM(Rr), RowM(Rc, 1, 3), 0) && CloseM(RowM(P, 4, 1), RowM(Rr), 0)) << "layouts disagree";
  MC_EXPECT(P[3] == 66 && P[7] == 66 && P[11] == 66) << "padding overwritten";
  // Points, also in place.
  for (auto p : Points()) {
    const V3 want = Apply(R, p.data());
    double out[3];
    ceres::AngleAxisRotatePoint(a, p.data(), out);
    MC_EXPECT(CloseV(out, want, 2 * tol * Scale(p.data()))) << "AngleAxisRotatePoint";
    double in[3] = {p[0], p[1], p[2]};
    ceres::AngleAxisRotatePoint(a, in, in);
    for (int i = 0; i < 3; ++i) MC_EXPECT(in[i] == out[i]) << "in place rotation differs";
    double aa[3] = {a[0], a[1], a[2]};  // rotating the axis by itself, in place
    ceres::AngleAxisRotatePoint(aa, aa, aa);
    if (angle >= 1e-150L || angle == 0) MC_EXPECT(CloseV(aa, al, 4 * tol * angle)) << "axis moved";
  }
  PointsByQuaternion<CQ>(Q, R);
  PointsByQuaternion<EQ>(Q, R);
  FromMatrix(R, 4 * tol);
  // Back to angle axis from either sign.
  for (int s = 0; s < 2; ++s) {
    Q4 u = Q;
    if (s) for (L& v : u) v = -v;
    double in[4], b[3], c[3];
    ToArr<CQ>(u, in);
    ceres::QuaternionToAngleAxis(in, b);
    ToArr<EQ>(u, in);
    ceres::QuaternionToAngleAxis<EQ>(in, c);
    for (int i = 0; i < 3; ++i) MC_EXPECT(b[i] == c[i]) << "order changes the angle axis";
    const V3 v = {b[0], b[1], b[2]};
    MC_EXPECT(CloseM(FromAA(v), R, 2 * tol)) << "QuaternionToAngleAxis " << vu::Str(b, 3) << " for " << vu::Str(a, 3);
    MC_EXPECT(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) <= kPi + 1e-14L) << "angle beyond pi";
    if (angle < kPi - 1e-12L && angle >= 1e-300L) for (int i = 0; i < 3; ++i) MC_EXPECT(std::abs(b[i] - al[i]) <= 1e-14 * angle) << "round trip " << b[i] << " " << a[i];
  }
  mc::Outcome(mc::H().D(q, 4).D(Rc, 9).h);
}

// First derivatives, including at and around zero.
MC_SCENARIO(angle_axis_derivatives, .split = 2, .weight = 2) {
  const V3 axis = Axis();
  const L angle = mc::Pick(kAngles, "angle");
  V3 al;
  J3 a[3];
  for (int i = 0; i < 3; ++i) { a[i] = J3(static_cast<double>(axis[i] * angle), i); al[i] = a[i].a; }
  if (angle == 1e-320L) return mc::Trivial();  // products of such numbers have no accuracy
  const L tol = angle > 10 ? 1e-12L : 1e-13L;
  // 1 - cos(angle) is rounded to a multiple of 1e-16 and divided by the angle.
  const L rtol = angle < 1e-2L && angle > 1e-11L ? tol + 1e-15L / angle : tol;
  mc::Step();
  J3 q[4], e[4], R[9], pt[3], out[3];
  ceres::AngleAxisToQuaternion(a, q);
  ceres::AngleAxisToQuaternion<EQ>(a, e);
  ceres::AngleAxisToRotationMatrix(a, ceres::RowMajorAdapter3x3(R));
  for (int i = 0; i < 3; ++i) pt[i] = J3(2.0 * i - 1.5);
  ceres::AngleAxisRotatePoint(a, pt, out);
  J3 in[3] = {pt[0], pt[1], pt[2]};
  ceres::AngleAxisRotatePoint(a, in, in);
  const double p[3] = {pt[0].a, pt[1].a, pt[2].a};
  for (int k = 0; k < 3; ++k) {
    const Q4 dq = Diff([](const V3& v) { return QFromAA(v); }, al, k);
    for (int i = 0; i < 4; ++i) {
      MC_EXPECT(std::abs(q[i].v[k] - dq[i]) <= tol) << "d quaternion[" << i << "]/d angle axis[" << k << "] = " << q[i].v[k] << " want " << static_cast<double>(dq[i]) << " angle " << static_cast<double>(angle);
      MC_EXPECT(q[i].v[k] == e[(i + 3) % 4].v[k]);
    }
    const auto dR = Diff([](const V3& v) { const M3 m = FromAA(v); std::array<L, 9> r; for (int i = 0; i < 9; ++i) r[i] = m[i / 3][i % 3]; return r; }, al, k);
    for (int i = 0; i < 9; ++i) MC_EXPECT(std::abs(R[i].v[k] - dR[i]) <= rtol) << "d R[" << i << "]/d angle axis[" << k << "] = " << R[i].v[k] << " want " << static_cast<double>(dR[i]) << " angle " << static_cast<double>(angle);
    const auto dp = Diff([&](const V3& v) { return Apply(FromAA(v), p); }, al, k);
    for (int i = 0; i < 3; ++i) {
      MC_EXPECT(std::abs(out[i].v[k] - dp[i]) <= 6 * rtol) << "d AngleAxisRotatePoint[" << i << "]/d angle axis[" << k << "] = " << out[i].v[k] << " want " << static_cast<double>(dp[i]) << " angle " << static_cast<double>(angle);
      MC_EXPECT(in[i].v[k] == out[i].v[k]) << "in place derivative";
    }
  }
  // Round trips through the inverse conversions are the identity below pi.
  if (angle < kPi - 1e-6L) {
    J3 back[3], viaR[3], C[9], neg[4];
    ceres::QuaternionToAngleAxis(q, back);
    ceres::AngleAxisToRotationMatrix(a, C);
    ceres::RotationMatrixToAngleAxis(C, viaR);
    for (int i = 0; i < 4; ++i) neg[i] = -q[i];
    J3 fromneg[3];
    ceres::QuaternionToAngleAxis(neg, fromneg);
    for (int i = 0; i < 3; ++i)
      for (int k = 0; k < 3; ++k) {
        // Near pi the map from the matrix is ill conditioned only through rounding of R.
        MC_EXPECT(std::abs(back[i].v[k] - (i == k)) <= 1e-12) << "d (angle axis -> quaternion -> angle axis) " << back[i].v[k] << " angle " << static_cast<double>(angle);
        MC_EXPECT(std::abs(fromneg[i].v[k] - (i == k)) <= 1e-12) << "d (angle axis -> -quaternion -> angle axis) = " << fromneg[i].v[k] << " (" << i << "," << k << ") angle " << static_cast<double>(angle);
        MC_EXPECT(std::abs(viaR[i].v[k] - (i == k)) <= 1e-11) << "d (angle axis -> matrix -> angle axis) = " << viaR[i].v[k] << " angle " << static_cast<double>(angle);
      }
  }
  mc::Outcome(mc::H()(q[0].v[0])(q[1].v[1])(R[1].v[0])(R[2].v[2]).h);
}

// Exact rotation matrices of small integer quaternions: every half turn about a
// lattice axis, every branch of the matrix to quaternion conversion.
MC_SCENARIO(integer_quaternions, .split = 3, .weight = 2) {
  Q4 q;
  L n = 0;
  const int B = mc::Bound(2, 3);
  for (L& v : q) { v = mc::Choose(2 * B + 1, "q") - B; n += v * v; }
  if (n == 0) return mc::Trivial();
  mc::Step();
  const M3 R = FromQ(q);
  Q4 u = q;
  for (L& v : u) v /= std::sqrt(n);
  PointsByQuaternion<CQ>(u, R);
  PointsByQuaternion<EQ>(u, R);
  FromMatrix(R, 1e-14L);
  // Derivatives of quaternion functions with respect to the quaternion.
  J4 qj[4], M[9], S[9], aa[3], pt[3] = {J4(1.0), J4(-2.0), J4(3.0)}, out[3];
  const bool eig = mc::Flip("eigen order");
  const int at[4] = {eig ? 3 : 0, eig ? 0 : 1, eig ? 1 : 2, eig ? 2 : 3};
  for (int i = 0; i < 4; ++i) qj[at[i]] = J4(static_cast<double>(u[i]), i);
  if (eig) { ceres::QuaternionToRotation<EQ>(qj, M); ceres::QuaternionToScaledRotation<EQ>(qj, S); ceres::QuaternionToAngleAxis<EQ>(qj, aa); ceres::QuaternionRotatePoint<EQ>(qj, pt, out); }
  else { ceres::QuaternionToRotation<CQ>(qj, M); ceres::QuaternionToScaledRotation<CQ>(qj, S); ceres::QuaternionToAngleAxis<CQ>(qj, aa); ceres::QuaternionRotatePoint<CQ>(qj, pt, out); }
  for (int k = 0; k < 4; ++k) {
    Q4 p = u, m = u;
    const L h = 1e-4L;
    p[k] += h; m[k] -= h;
    Q4 p2 = u, m2 = u;
    p2[k] += h / 2; m2[k] -= h / 2;
    const auto ex = [&](L a, L b, L c, L d) { return (4 * (c - d) / h - (a - b) / (2 * h)) / 3; };
    const M3 Rp = FromQ(p), Rm = FromQ(m), Rp2 = FromQ(p2), Rm2 = FromQ(m2);
    const auto nn = [](const Q4& z) { return z[0] * z[0] + z[1] * z[1] + z[2] * z[2] + z[3] * z[3]; };
    for (int i = 0; i < 9; ++i) {
      const int r = i / 3, c = i % 3;
      MC_EXPECT(std::abs(M[i].v[k] - ex(Rp[r][c], Rm[r][c], Rp2[r][c], Rm2[r][c])) <= 1e-12L) << "d QuaternionToRotation";
      MC_EXPECT(std::abs(S[i].v[k] - ex(Rp[r][c] * nn(p), Rm[r][c] * nn(m), Rp2[r][c] * nn(p2), Rm2[r][c] * nn(m2))) <= 1e-12L) << "d QuaternionToScaledRotation";
    }
    const double pd[3] = {1, -2, 3};
    const V3 op = Apply(Rp, pd), om = Apply(Rm, pd), op2 = Apply(Rp2, pd), om2 = Apply(Rm2, pd);
    for (int i = 0; i < 3; ++i) MC_EXPECT(std::abs(out[i].v[k] - ex(op[i], om[i], op2[i], om2[i])) <= 1e-11L) << "d QuaternionRotatePoint";
    // The angle axis of a unit quaternion; at w = 0 two are equally short.  As in
    // the conversion, the direction along q itself is not meaningful, so compare along the tangent.
    if (std::abs(u[0]) > 1e-3L) {
      // tangent direction: e_k minus its component along u
      L dot[3] = {};
      Q4 t;
      for (int i = 0; i < 4; ++i) t[i] = (i == k) - u[k] * u[i];
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) dot[i] += aa[i].v[j] * t[j];
      const auto at2 = [&](L s) { Q4 z = u; for (int i = 0; i < 4; ++i) z[i] += s * t[i]; return AAFromQ(z); };
      const V3 a1 = at2(h), a2 = at2(-h), a3 = at2(h / 2), a4 = at2(-h / 2);
      for (int i = 0; i < 3; ++i) MC_EXPECT(std::abs(dot[i] - ex(a1[i], a2[i], a3[i], a4[i])) <= 1e-11L) << "d QuaternionToAngleAxis at w=" << static_cast<double>(u[0]) << ": " << static_cast<double>(dot[i]) << " want " << static_cast<double>(ex(a1[i], a2[i], a3[i], a4[i]));
    }
  }
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 4; ++k) MC_EXPECT(std::isfinite(aa[i].v[k])) << "non-finite derivative";
  mc::Outcome(mc::H()(M[1].a)(M[5].a)(aa[0].a)(aa[2].v[1]).h);
}

// Components of very different sizes: rotations next to the identity, to half
// turns and to the axes, where the conversions choose between formulas.
MC_SCENARIO(magnitudes, .split = 3, .weight = 2) {
  static const L kSizes[] = {0, 1e-160L, 1e-16L, 3e-9L, 1e-7L, 1e-4L, 0.1L, 1};
  Q4 u;
  L n = 0;
  for (L& v : u) {
    v = kSizes[mc::Choose(8, "size")];
    if (v != 0 && mc::Flip("negative")) v = -v;
    n += v * v;
  }
  if (n < 0.5L) return mc::Trivial();
  mc::Step();
  for (L& v : u) v /= std::sqrt(n);
  const M3 R = FromQ(u);
  FromMatrix(R, 1e-14L);
  PointsByQuaternion<CQ>(u, R);
  double in[4], b[3];
  ToArr<CQ>(u, in);
  ceres::QuaternionToAngleAxis(in, b);
  const V3 v = {b[0], b[1], b[2]};
  MC_EXPECT(CloseM(FromAA(v), R, 1e-14L)) << "QuaternionToAngleAxis " << vu::Str(b, 3) << " for " << vu::Str(in, 4);
  MC_EXPECT(std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) <= kPi + 1e-14L) << "angle beyond pi";
  double back[4];
  ceres::AngleAxisToQuaternion(b, back);
  const L sign = u[0] < 0 ? -1 : 1;  // the shorter way round
  for (int i = 0; i < 4; ++i)
    MC_EXPECT(std::abs(back[i] - sign * in[i]) <= 1e-14L || (std::abs(u[0]) < 1e-14L && std::abs(back[i] + sign * in[i]) <= 1e-14L)) << "round trip of a quaternion";
  mc::Outcome(mc::H().D(b, 3).h);
}

// Products, conjugates and cross products are exact on integers.
MC_SCENARIO(products, .split = 3) {
  double z[4], w[4], zw[4], ez[4], ew[4], ezw[4];
  Q4 zl, wl;
  for (int i = 0; i < 4; ++i) zl[i] = mc::Choose(3, "z") - 1;
  for (int i = 0; i < 4; ++i) wl[i] = (mc::Choose(3, "w") - 1) * (i == 1 ? 5 : 2);
  ToArr<CQ>(zl, z); ToArr<CQ>(wl, w); ToArr<EQ>(zl, ez); ToArr<EQ>(wl, ew);
  ceres::QuaternionProduct(z, w, zw);
  ceres::QuaternionProduct<EQ>(ez, ew, ezw);
  const Q4 want = Mul(zl, wl);
  mc::Step();
  for (int i = 0; i < 4; ++i) MC_EXPECT(zw[i] == want[i] && ezw[(i + 3) % 4] == want[i]) << "QuaternionProduct[" << i << "] " << vu::Str(zw, 4);
  double c[4];
  ceres::QuaternionConjugate(z, c);
  for (int i = 0; i < 4; ++i) MC_EXPECT(c[i] == (i ? -z[i] : z[i]));
  ceres::QuaternionConjugate(z, z);
  for (int i = 0; i < 4; ++i) MC_EXPECT(z[i] == c[i]) << "in place conjugate";
  ceres::QuaternionConjugate<EQ>(ez, ez);
  for (int i = 0; i < 4; ++i) MC_EXPECT(ez[(i + 3) % 4] == c[i]) << "in place conjugate, Eigen order";
  const std::array<double, 4> arr = {w[0], w[1], w[2], w[3]};
  const auto conv = ceres::ConvertQuaternion<EQ, CQ>(arr);
  for (int i = 0; i < 4; ++i) MC_EXPECT(conv[i] == ew[i]);
  MC_EXPECT((ceres::ConvertQuaternion<CQ, EQ>(conv) == arr) && (ceres::ConvertQuaternion<CQ, CQ>(arr) == arr) && (ceres::ConvertQuaternion<EQ, EQ>(arr) == arr));
  const double x[3] = {c[1], c[2], c[3]}, y[3] = {w[1], w[2], w[3]};
  double xy[3];
  ceres::CrossProduct(x, y, xy);
  for (int i = 0; i < 3; ++i) MC_EXPECT(xy[i] == x[(i + 1) % 3] * y[(i + 2) % 3] - x[(i + 2) % 3] * y[(i + 1) % 3]) << "CrossProduct";
  MC_EXPECT(ceres::DotProduct(x, y) == x[0] * y[0] + x[1] * y[1] + x[2] * y[2]);
  mc::Outcome(mc::H().D(zw, 4).h);
}

namespace {
M3 AboutAxis(int axis, L t) {
  M3 R{};
  const int j = (axis + 1) % 3, k = (axis + 2) % 3;
  R[axis][axis] = 1;
  R[j][j] = R[k][k] = std::cos(t);
  R[k][j] = std::sin(t);
  R[j][k] = -std::sin(t);
  return R;
}
template <typename Sys>
void EulerOne(const char* axes, bool intrinsic, const double* e) {
  M3 R = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
  for (int i = 0; i < 3; ++i) {
    const M3 S = AboutAxis(axes[i] - 'X', e[i]);
    R = intrinsic ? Mul(R, S) : Mul(S, R);
  }
  double M[9], P[12];
  ceres::EulerAnglesToRotation<Sys>(e, M);
  MC_EXPECT(CloseM(RowM(M), R, 2e-15L)) << "EulerAnglesToRotation " << (intrinsic ? "intrinsic " : "extrinsic ") << axes << " of " << vu::Str(e, 3) << " = " << Str(RowM(M)) << " want " << Str(R);
  std::fill(P, P + 12, 33);
  ceres::EulerAnglesToRotation<Sys>(e, ceres::MatrixAdapter<double, 1, 4>(P));
  MC_EXPECT(CloseM(RowM(P, 1, 4), RowM(M), 0) && P[3] == 33 && P[7] == 33 && P[11] == 33) << "column major layout";
  const bool proper = axes[0] == axes[2];
  // Where are we relative to gimbal lock?
  const L lock = proper ? std::abs(std::sin(L(e[1]))) : std::abs(std::cos(L(e[1])));
  // Matrices of three origins: made from these angles; the correctly rounded rotation; from a quaternion.
  for (int src = 0; src < 3; ++src) {
    double in[9], back[3], B[9], back2[3];
    if (src == 0) std::copy(M, M + 9, in);
    if (src == 1) for (int i = 0; i < 9; ++i) in[i] = static_cast<double>(R[i / 3][i % 3]);
    if (src == 2) {
      double C[9], q[4];
      for (int i = 0; i < 9; ++i) C[(i % 3) * 3 + i / 3] = static_cast<double>(R[i / 3][i % 3]);
      ceres::RotationMatrixToQuaternion(C, q);
      ceres::QuaternionToRotation(q, in);
    }
    ceres::RotationMatrixToEulerAngles<Sys>(in, back);
    ceres::EulerAnglesToRotation<Sys>(back, B);
    // The first and last angle are computed independently of each other, so close to
    // gimbal lock the rounding of the matrix is amplified (a known finding).
    const int A = axes[intrinsic ? 2 : 0] - 'X', K = proper ? A : axes[intrinsic ? 0 : 2] - 'X';
    L cy = 0;
    for (int i = 0; i < 3; ++i) if (i != A && proper) cy += L(in[A * 3 + i]) * in[A * 3 + i];
    for (int i = 0; i < 3; ++i) if (i != K && !proper) cy += L(in[i * 3 + A]) * in[i * 3 + A];
    cy = std::sqrt(cy);
    const L amplified = cy == 0 ? 0 : std::min<L>(4, 4e-15L / cy);
    if (amplified > 1e-14L && !CloseM(RowM(B), R, 2e-14L)) mc::Cover("known_gimbal_lock");
    MC_EXPECT(CloseM(RowM(B), R, 2e-14L + amplified)) << "RotationMatrixToEulerAngles " << (intrinsic ? "intrinsic " : "extrinsic ") << axes << " of " << vu::Str(e, 3) << " (source " << src << ") = " << vu::Str(back, 3) << " which is " << Str(RowM(B)) << " want " << Str(R);
    double T[9];
    for (int i = 0; i < 9; ++i) T[(i % 3) * 3 + i / 3] = in[i];
    ceres::RotationMatrixToEulerAngles<Sys>(ceres::MatrixAdapter<const double, 1, 3>(T), back2);
    for (int i = 0; i < 3; ++i) MC_EXPECT(back[i] == back2[i]) << "storage order changes the Euler angles";
    // Documented ranges.
    MC_EXPECT(std::abs(back[0]) <= kPi + 1e-15L && std::abs(back[2]) <= kPi + 1e-15L);
    if (proper) MC_EXPECT(back[1] >= 0 && back[1] <= kPi + 1e-15L) << "second angle " << back[1];
    else MC_EXPECT(std::abs(back[1]) <= kPi / 2 + 1e-15L) << "second angle " << back[1];
    mc::Outcome(mc::H().D(back, 3).h);
  }
  // Away from gimbal lock the round trip is differentiable and the identity up
  // to whole turns.
  if (lock > 1e-3L) {
    J3 ej[3], Rj[9], bj[3], B2[9];
    for (int i = 0; i < 3; ++i) ej[i] = J3(e[i], i);
    ceres::EulerAnglesToRotation<Sys>(ej, Rj);
    ceres::RotationMatrixToEulerAngles<Sys>(Rj, bj);
    ceres::EulerAnglesToRotation<Sys>(bj, B2);
    for (int k = 0; k < 3; ++k) {
      M3 D;
      {
        // derivative of the product: replace one factor by its derivative
        D = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
        for (int i = 0; i < 3; ++i) {
          M3 S = AboutAxis(axes[i] - 'X', e[i]);
          if (i == k) {
            const int a = axes[i] - 'X';
            S = AboutAxis(a, e[i] + kPi / 2);
            S[a][a] = 0;
          }
          D = intrinsic ? Mul(D, S) : Mul(S, D);
        }
      }
      for (int i = 0; i < 9; ++i) {
        MC_EXPECT(std::abs(Rj[i].v[k] - D[i / 3][i % 3]) <= 2e-15L) << "d EulerAnglesToRotation " << axes;
        MC_EXPECT(std::abs(B2[i].v[k] - D[i / 3][i % 3]) <= 1e-11L) << "d RotationMatrixToEulerAngles " << axes << " " << vu::Str(e, 3);
      }
    }
  }
}
using namespace ceres;
using EulerFn = void (*)(const char*, bool, const double*);
struct Row { const char* axes; bool intrinsic; EulerFn fn; };
const Row kRows[] = {
    {"XYZ", false, &EulerOne<ExtrinsicXYZ>}, {"XYX", false, &EulerOne<ExtrinsicXYX>}, {"XZY", false, &EulerOne<ExtrinsicXZY>}, {"XZX", false, &EulerOne<ExtrinsicXZX>},
    {"YZX", false, &EulerOne<ExtrinsicYZX>}, {"YZY", false, &EulerOne<ExtrinsicYZY>}, {"YXZ", false, &EulerOne<ExtrinsicYXZ>}, {"YXY", false, &EulerOne<ExtrinsicYXY>},
    {"ZXY", false, &EulerOne<ExtrinsicZXY>}, {"ZXZ", false, &EulerOne<ExtrinsicZXZ>}, {"ZYX", false, &EulerOne<ExtrinsicZYX>}, {"ZYZ", false, &EulerOne<ExtrinsicZYZ>},
    {"ZYX", true, &EulerOne<IntrinsicZYX>}, {"XYX", true, &EulerOne<IntrinsicXYX>}, {"YZX", true, &EulerOne<IntrinsicYZX>}, {"XZX", true, &EulerOne<IntrinsicXZX>},
    {"XZY", true, &EulerOne<IntrinsicXZY>}, {"YZY", true, &EulerOne<IntrinsicYZY>}, {"ZXY", true, &EulerOne<IntrinsicZXY>}, {"YXY", true, &EulerOne<IntrinsicYXY>},
    {"YXZ", true, &EulerOne<IntrinsicYXZ>}, {"ZXZ", true, &EulerOne<IntrinsicZXZ>}, {"XYZ", true, &EulerOne<IntrinsicXYZ>}, {"ZYZ", true, &EulerOne<IntrinsicZYZ>}};
double EulerAngle(const char* what) {
  const int k = mc::Choose(mc::Bound(12, 16), what);
  const double h = static_cast<double>(kPi);
  const double v[16] = {0, h / 2, h, -h / 2, -h, h / 4, -3 * h / 4, 0.3, -2.0, h / 2 - 1e-9, 3 * h / 2, 1e-12, 1e-5, h - 1e-8, -h / 3, 2 * h};
  return v[k];
}
}  // namespace
MC_SCENARIO(euler, .split = 2, .weight = 3) {
  const Row& r = kRows[mc::Choose(24, "system")];
  double e[3];
  for (double& v : e) v = EulerAngle("angle");
  mc::Step();
  r.fn(r.axes, r.intrinsic, e);
}
MC_SCENARIO(euler_degrees, .split = 2) {
  double e[3], R[9], C[9];
  for (double& v : e) v = mc::Pick({0.0, 90.0, -90.0, 180.0, 30.0, -12.5, 720.0, 1e-9}, "angle");
  M3 want = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
  for (int i = 0; i < 3; ++i) want = Mul(AboutAxis(i, e[i] * kPi / 180), want);
  mc::Step();
  ceres::EulerAnglesToRotationMatrix(e, 3, R);
  ceres::EulerAnglesToRotationMatrix(e, ceres::ColumnMajorAdapter3x3(C));
  MC_EXPECT(CloseM(RowM(R), want, 4e-15L)) << vu::Str(e, 3) << " = " << Str(RowM(R)) << " want " << Str(want);
  MC_EXPECT(CloseM(RowM(C, 1, 3), RowM(R), 0)) << "storage order";
  const int stride = mc::Range(4, 6, "row stride");
  double P[18];
  std::fill(P, P + 18, 44);
  ceres::EulerAnglesToRotationMatrix(e, stride, P);
  for (int i = 0; i < 3 * stride; ++i) MC_EXPECT(P[i] == (i % stride < 3 ? R[i / stride * 3 + i % stride] : 44)) << "row stride " << stride << " entry " << i;
  mc::Outcome(mc::H().D(R, 9).h);
}
// Forbidden aliasing is detected.
MC_SCENARIO(aliasing, .single = true) {
  double q[4] = {0.5, 0.5, 0.5, 0.5}, p[4] = {1, 2, 3, 4};
  double* volatile out = p;
  switch (mc::Choose(6, "call")) {
    case 0: MC_EXPECT(mc::Dies([&] { ceres::UnitQuaternionRotatePoint(q, p, out); })); break;
    case 1: MC_EXPECT(mc::Dies([&] { ceres::QuaternionRotatePoint(q, p, out); })); break;
    case 2: MC_EXPECT(mc::Dies([&] { ceres::QuaternionProduct(p, q, out); })); break;
    case 3: MC_EXPECT(mc::Dies([&] { ceres::QuaternionProduct(q, p, out); })); break;
    case 4: MC_EXPECT(mc::Dies([&] { ceres::CrossProduct(p, q, out); })); break;
    case 5: MC_EXPECT(mc::Dies([&] { ceres::CrossProduct(q, p, out); })); break;
  }
}
