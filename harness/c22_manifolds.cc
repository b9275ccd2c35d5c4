// C22: manifold axioms at every point of a small lattice and beyond.
#include <algorithm>
#include <functional>

#include "ceres/line_manifold.h"
#include "ceres/manifold.h"
#include "ceres/product_manifold.h"
#include "ceres/sphere_manifold.h"
#include "util.h"
namespace {
using ceres::Manifold;
using Vec = std::vector<double>;
using RowMat = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>;

Vec Plus(const Manifold& m, const Vec& x, const Vec& d, bool* ok = nullptr) {
  vu::Buf<double> xb(x.size()), db(d.size()), y(m.AmbientSize());
  std::copy(x.begin(), x.end(), xb.data());
  std::copy(d.begin(), d.end(), db.data());
  const bool r = m.Plus(xb, db, y);
  if (ok) *ok = r; else MC_EXPECT(r) << "Plus failed";
  return Vec(y.data(), y.data() + m.AmbientSize());
}
Vec Minus(const Manifold& m, const Vec& y, const Vec& x) {
  vu::Buf<double> xb(x.size()), yb(y.size()), d(m.TangentSize());
  std::copy(x.begin(), x.end(), xb.data());
  std::copy(y.begin(), y.end(), yb.data());
  MC_EXPECT(m.Minus(yb, xb, d)) << "Minus failed";
  return Vec(d.data(), d.data() + m.TangentSize());
}
RowMat PlusJ(const Manifold& m, const Vec& x) {
  vu::Buf<double> j(m.AmbientSize() * m.TangentSize());
  for (int i = 0; i < j.n; ++i) j[i] = vu::NaN();
  MC_EXPECT(m.PlusJacobian(x.data(), j)) << "PlusJacobian failed";
  return Eigen::Map<RowMat>(j.data(), m.AmbientSize(), m.TangentSize());
}
RowMat MinusJ(const Manifold& m, const Vec& x) {
  vu::Buf<double> j(m.AmbientSize() * m.TangentSize());
  for (int i = 0; i < j.n; ++i) j[i] = vu::NaN();
  MC_EXPECT(m.MinusJacobian(x.data(), j)) << "MinusJacobian failed";
  return Eigen::Map<RowMat>(j.data(), m.TangentSize(), m.AmbientSize());
}
bool Close(const Vec& a, const Vec& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(std::abs(a[i] - b[i]) <= tol)) return false;
  return true;
}
double Norm(const Vec& v, int from, int to) { double s = 0; for (int i = from; i < to; ++i) s += v[i] * v[i]; return std::sqrt(s); }

struct Kit {
  std::unique_ptr<Manifold> m;
  std::string name;
  // A point of the manifold; `tol` is set to the accuracy promised there.
  std::function<Vec(double* tol)> point;
  double radius = 1e300;  // injectivity radius of Plus
  // Norm-preserved ranges [from,to) of the ambient vector.
  std::vector<std::pair<int, int>> norms;
  bool pairs = true;  // any two points are reachable
  bool cover = false; // x and -x are the same point (quaternions)
};
// All {-1,0,1}^n patterns except zero, scaled; plus points hugging +-e_last.
Vec Direction(int n, int last, double scale, double* tol) {
  Vec v(n, 0.0);
  double norm = 0;
  if (mc::Flip("near pole")) {
    const double t = mc::Pick({1e-5, 1e-7, 2e-8, 1e-8, 1e-9, 1e-150}, "offset");
    v[last] = mc::Flip("negative") ? -1 : 1;
    const int other = (last + 1 + mc::Choose(n - 1, "axis")) % n;
    v[other] = mc::Flip("sign") ? -t : t;
    if (t <= 2e-8) *tol = std::max(*tol, 1e-7);
  } else {
    bool any = false;
    for (int i = 0; i < n; ++i) { v[i] = mc::Choose(3, "x") - 1; any |= v[i] != 0; }
    if (!any) v[last] = 1;  // duplicate of another pattern
  }
  for (double c : v) norm += c * c;
  for (double& c : v) c = c / std::sqrt(norm) * scale;
  return v;
}
Kit Make(int kind) {
  Kit k;
  const auto sphere = [&](int n, std::unique_ptr<Manifold> m) {
    k.m = std::move(m);
    k.name = "sphere" + std::to_string(n);
    k.point = [n](double* tol) { const double s = mc::Pick({1.0, 3.0, 0.25}, "scale"); Vec v = Direction(n, n - 1, s, tol); *tol *= s > 1 ? s : 1 / s; return v; };
    k.radius = 3.14159;
    k.norms = {{0, n}};
    k.pairs = false;  // only points of one radius; see spheres_pairs
  };
  const auto line = [&](int n, std::unique_ptr<Manifold> m) {
    k.m = std::move(m);
    k.name = "line" + std::to_string(n);
    k.point = [n](double* tol) {
      const double s = mc::Pick({1.0, 2.0}, "scale");
      const Vec d = Direction(n, n - 1, s, tol);
      const int o = mc::Choose(3, "origin");
      Vec x;
      for (int i = 0; i < n; ++i) x.push_back(o == 0 ? 0 : o == 1 ? i + 1 : -3.5 * i + 2);
      x.insert(x.end(), d.begin(), d.end());
      *tol *= 4;
      return x;
    };
    k.radius = 3.14159;
    k.norms = {{n, 2 * n}};
    k.pairs = false;
  };
  const auto flat = [&](int n, std::unique_ptr<Manifold> m) {
    k.m = std::move(m);
    k.name = "flat" + std::to_string(n);
    k.point = [n](double*) { const int o = mc::Choose(3, "point"); Vec x; for (int i = 0; i < n; ++i) x.push_back(o == 0 ? 0 : o == 1 ? i + 1 : -2.5 * i + 1e3); return x; };
  };
  const auto quat = [&](int w, std::unique_ptr<Manifold> m) {
    k.m = std::move(m);
    k.name = w == 0 ? "quaternion" : "eigen_quaternion";
    k.point = [w](double* tol) { return Direction(4, w, 1, tol); };
    k.radius = 3.14159;
    k.norms = {{0, 4}};
    k.cover = true;
  };
  switch (kind) {
    case 0: quat(0, std::make_unique<ceres::QuaternionManifold>()); break;
    case 1: quat(3, std::make_unique<ceres::EigenQuaternionManifold>()); break;
    case 2: sphere(2, std::make_unique<ceres::SphereManifold<2>>()); break;
    case 3: sphere(3, std::make_unique<ceres::SphereManifold<3>>()); break;
    case 4: sphere(4, std::make_unique<ceres::SphereManifold<ceres::DYNAMIC>>(4)); break;
    case 5: sphere(2, std::make_unique<ceres::SphereManifold<ceres::DYNAMIC>>(2)); break;
    case 6: line(2, std::make_unique<ceres::LineManifold<2>>()); break;
    case 7: line(3, std::make_unique<ceres::LineManifold<3>>()); break;
    case 8: line(3, std::make_unique<ceres::LineManifold<ceres::DYNAMIC>>(3)); break;
    case 9: flat(3, std::make_unique<ceres::EuclideanManifold<3>>()); break;
    case 10: flat(2, std::make_unique<ceres::EuclideanManifold<ceres::DYNAMIC>>(2)); break;
    case 11: line(2, std::make_unique<ceres::LineManifold<ceres::DYNAMIC>>(2)); break;
    case 12: sphere(5, std::make_unique<ceres::SphereManifold<5>>()); break;
    case 13: flat(1, std::make_unique<ceres::EuclideanManifold<1>>()); break;
  }
  return k;
}
constexpr int kKits = 14;

Vec Delta(const Kit& k) {
  const int t = k.m->TangentSize();
  Vec d(t, 0.0);
  double n = 0;
  for (int i = 0; i < t; ++i) { d[i] = t <= 3 ? mc::Choose(3, "delta") - 1 : (i == 0 ? 1 : mc::Choose(2, "delta") * (i % 2 ? -1 : 1)); n += d[i] * d[i]; }
  const double s = mc::Pick({0.5, 1e-9, 2.0, 3.1, 1e-170}, "length");
  if (n > 0) for (double& v : d) v = v / std::sqrt(n) * s;
  return d;
}

void Axioms(const Kit& k) {
  const Manifold& m = *k.m;
  double tol = 1e-13;
  const Vec x = k.point(&tol);
  const int a = m.AmbientSize(), t = m.TangentSize();
  MC_REQUIRE(static_cast<int>(x.size()) == a);
  const Vec d = Delta(k);
  mc::Step();
  const Vec zero(t, 0.0);
  MC_EXPECT(Plus(m, x, zero) == x) << k.name << " moving by zero changed " << vu::Str(x, a);
  MC_EXPECT(Close(Minus(m, x, x), zero, tol)) << k.name << " x - x = " << vu::Str(Minus(m, x, x), t) << " at " << vu::Str(x, a);
  const Vec y = Plus(m, x, d);
  for (auto [from, to] : k.norms)
    MC_EXPECT(std::abs(Norm(y, from, to) - Norm(x, from, to)) <= tol * Norm(x, from, to)) << k.name << " left the manifold: " << Norm(y, from, to) << " vs " << Norm(x, from, to);
  if (Norm(d, 0, t) < k.radius) {
    const Vec back = Minus(m, y, x);
    // Near the far side the angle loses accuracy.
    const double f = Norm(d, 0, t) > 3 ? 100 : 1;
    MC_EXPECT(Close(back, d, f * tol * (1 + Norm(d, 0, t)))) << k.name << " (x+d)-x = " << vu::Str(back, t) << " d = " << vu::Str(d, t) << " x " << vu::Str(x, a);
    MC_EXPECT(Close(Plus(m, x, back), y, f * tol * (1 + Norm(x, 0, a)))) << k.name << " x+(y-x) is not y";
  }
  const RowMat P = PlusJ(m, x), M = MinusJ(m, x);
  mc::Outcome(mc::H().D(y.data(), a).D(P.data(), a * t).h);
  const RowMat I = M * P;
  for (int i = 0; i < t; ++i)
    for (int j = 0; j < t; ++j) MC_EXPECT(std::abs(I(i, j) - (i == j)) <= tol) << k.name << " minus Jacobian times plus Jacobian is not the identity at " << vu::Str(x, a);
  // Derivatives by central differences with Richardson extrapolation.
  const double big = 1 + Norm(x, 0, a);
  for (int c = 0; c < t; ++c) {
    Vec dd[2];
    for (int lvl = 0; lvl < 2; ++lvl) {
      const double h = lvl ? 5e-4 : 1e-3;
      Vec p = zero, q = zero;
      p[c] = h; q[c] = -h;
      const Vec yp = Plus(m, x, p), yq = Plus(m, x, q);
      for (int i = 0; i < a; ++i) dd[lvl].push_back((yp[i] - yq[i]) / (2 * h));
    }
    for (int i = 0; i < a; ++i) {
      const double num = (4 * dd[1][i] - dd[0][i]) / 3;
      MC_EXPECT(std::abs(num - P(i, c)) <= 1e-9 * big) << k.name << " PlusJacobian(" << i << "," << c << ") = " << P(i, c) << ", derivative is " << num << " at " << vu::Str(x, a);
    }
  }
  for (int c = 0; c < a; ++c) {
    Vec dd[2];
    for (int lvl = 0; lvl < 2; ++lvl) {
      const double h = (lvl ? 5e-4 : 1e-3) * Norm(x, k.norms.empty() ? 0 : k.norms[0].first, a) + (k.norms.empty() ? 1e-3 : 0);
      Vec p = x, q = x;
      p[c] += h; q[c] -= h;
      const Vec yp = Minus(m, p, x), yq = Minus(m, q, x);
      for (int i = 0; i < t; ++i) dd[lvl].push_back((yp[i] - yq[i]) / (p[c] - q[c]));
    }
    for (int i = 0; i < t; ++i) {
      const double num = (4 * dd[1][i] - dd[0][i]) / 3;
      MC_EXPECT(std::abs(num - M(i, c)) <= 1e-9 * big * 4 + (tol > 1e-8 ? 1e-6 : 0)) << k.name << " MinusJacobian(" << i << "," << c << ") = " << M(i, c) << ", derivative is " << num << " at " << vu::Str(x, a);
    }
  }
  // Product with the plus Jacobian.
  const int rows = mc::Pick({0, 1, 3}, "rows");
  RowMat A(rows, a);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < a; ++j) A(i, j) = vu::Cell(i * a + j, 2);
  vu::Buf<double> out(rows * t);
  MC_EXPECT(m.RightMultiplyByPlusJacobian(x.data(), rows, A.data(), out.data()));
  const RowMat want = A * P;
  for (int i = 0; i < rows * t; ++i) MC_EXPECT(vu::Near(out[i], want.data()[i], 1e-12)) << k.name << " product with plus Jacobian";
}
}  // namespace

MC_SCENARIO(axioms, .split = 4, .weight = 4) { Axioms(Make(mc::Choose(kKits, "manifold"))); }

// Any two unit quaternions, any two points of a sphere.
MC_SCENARIO(pairs, .split = 4, .weight = 2) {
  const int kind = mc::Choose(6, "manifold");
  const Kit k = Make(kind);
  const Manifold& m = *k.m;
  const int a = m.AmbientSize();
  double tol = 1e-13;
  const int w = kind == 0 ? 0 : a - 1;
  const double s = kind < 2 ? 1 : mc::Pick({1.0, 2.5}, "scale");
  const Vec x = Direction(a, w, s, &tol), y = Direction(a, w, s, &tol);
  mc::Step();
  const Vec d = Minus(m, y, x);
  for (double v : d) MC_EXPECT(std::isfinite(v));
  MC_EXPECT(Norm(d, 0, m.TangentSize()) <= 3.1415926536);
  const Vec z = Plus(m, x, d);
  Vec ny = y;
  for (double& v : ny) v = -v;
  // For antipodal quaternions zero is as good as a full turn.
  MC_EXPECT(Close(z, y, 1e2 * tol * s) || (k.cover && Close(ny, x, 1e-7) && Close(z, ny, 1e-7))) << k.name << " x+(y-x) = " << vu::Str(z, a) << " y = " << vu::Str(y, a) << " x = " << vu::Str(x, a);
  mc::Outcome(mc::H().D(d.data(), m.TangentSize()).h);
}

MC_SCENARIO(subset, .split = 3) {
  const int n = mc::Range(1, mc::Bound(5, 6), "size");
  std::vector<int> fixed;
  const int mask = mc::Choose(1 << n, "fixed");
  for (int i = 0; i < n; ++i) if (mask >> i & 1) fixed.push_back(i);
  if (mc::Flip("reversed")) std::reverse(fixed.begin(), fixed.end());
  ceres::SubsetManifold m(n, fixed);
  const int t = n - static_cast<int>(fixed.size());
  MC_REQUIRE(m.AmbientSize() == n && m.TangentSize() == t);
  const int style = mc::Choose(3, "values");
  Vec x, y;
  for (int i = 0; i < n; ++i) {
    x.push_back(style == 0 ? i - 2 : style == 1 ? 1e300 * (i % 2 ? 1 : -1) : i % 3 == 0 ? -0.0 : i % 3 == 1 ? 5e-324 : vu::Inf());
    y.push_back(i * i - 3);
  }
  Vec d;
  for (int i = 0; i < t; ++i) d.push_back(i * 0.5 + 1);
  const Vec z = Plus(m, x, d);
  mc::Step();
  for (int i = 0, j = 0; i < n; ++i) {
    if (mask >> i & 1) MC_EXPECT(std::memcmp(&z[i], &x[i], 8) == 0) << "fixed coordinate " << i << " changed";
    else { MC_EXPECT(z[i] == x[i] + d[j]) << "coordinate " << i; ++j; }
  }
  const Vec q = Minus(m, y, Vec(n, 1.0));
  const RowMat P = PlusJ(m, x), M = MinusJ(m, x);
  RowMat A(2, n);
  for (int i = 0; i < 2 * n; ++i) A.data()[i] = vu::Cell(i, 3);
  vu::Buf<double> out(2 * t);
  MC_EXPECT(m.RightMultiplyByPlusJacobian(x.data(), 2, A.data(), out));
  for (int i = 0, j = 0; i < n; ++i) {
    const bool f = mask >> i & 1;
    for (int c = 0; c < t; ++c) {
      MC_EXPECT(P(i, c) == (!f && c == j)) << "plus Jacobian";
      MC_EXPECT(M(c, i) == (!f && c == j)) << "minus Jacobian";
    }
    if (!f) { MC_EXPECT(q[j] == y[i] - 1); MC_EXPECT(out[j] == A(0, i) && out[t + j] == A(1, i)); ++j; }
  }
  mc::Outcome(mc::H()(mask)(n)(style).h);
}
MC_SCENARIO(misuse, .single = true) {
  switch (mc::Choose(11, "case")) {
    case 0: MC_EXPECT(mc::Dies([] { ceres::SubsetManifold m(3, {1, 1}); })); break;
    case 1: MC_EXPECT(mc::Dies([] { ceres::SubsetManifold m(3, {-1}); })); break;
    case 2: MC_EXPECT(mc::Dies([] { ceres::SubsetManifold m(3, {3}); })); break;
    case 3: MC_EXPECT(mc::Dies([] { ceres::SubsetManifold m(2, {1, 0, 1}); })); break;
    case 4: MC_EXPECT(mc::Dies([] { ceres::EuclideanManifold<3> m(2); })); break;
    case 5: MC_EXPECT(mc::Dies([] { ceres::EuclideanManifold<ceres::DYNAMIC> m(-1); })); break;
    case 6: MC_EXPECT(mc::Dies([] { ceres::SphereManifold<3> m(2); })); break;
    case 7: MC_EXPECT(mc::Dies([] { ceres::SphereManifold<ceres::DYNAMIC> m(1); })); break;
    case 8: MC_EXPECT(mc::Dies([] { ceres::LineManifold<3> m(2); })); break;
    case 9: MC_EXPECT(mc::Dies([] { ceres::LineManifold<ceres::DYNAMIC> m(1); })); break;
    case 10: {
      ceres::EuclideanManifold<0> a;
      ceres::EuclideanManifold<ceres::DYNAMIC> b(0);
      MC_EXPECT(a.AmbientSize() == 0 && b.TangentSize() == 0);
      MC_EXPECT(a.Plus(nullptr, nullptr, nullptr) && b.Minus(nullptr, nullptr, nullptr));
      ceres::SubsetManifold c(2, {0, 1});
      const double x[2] = {1, 2}; double y[2];
      MC_EXPECT(c.TangentSize() == 0 && c.Plus(x, nullptr, y) && y[0] == 1 && y[1] == 2);
    }
  }
}

namespace {
// Refuses every request of the kinds in `fail`.
class Refusing : public Manifold {
 public:
  explicit Refusing(int fail) : fail(fail) {}
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 1; }
  bool Plus(const double* x, const double* d, double* y) const override { y[0] = x[0] + d[0]; y[1] = x[1] - d[0]; return !(fail & 1); }
  bool PlusJacobian(const double*, double* j) const override { j[0] = 1; j[1] = -1; return !(fail & 2); }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = (y[0] - x[0] - y[1] + x[1]) / 2; return !(fail & 4); }
  bool MinusJacobian(const double*, double* j) const override { j[0] = 0.5; j[1] = -0.5; return !(fail & 8); }
  int fail;
};
using Ptr = std::unique_ptr<Manifold>;
Ptr Part(int kind) {
  switch (kind) {
    case 0: return std::make_unique<ceres::QuaternionManifold>();
    case 1: return std::make_unique<ceres::SphereManifold<3>>();
    case 2: return std::make_unique<ceres::SubsetManifold>(3, std::vector<int>{1});
    case 3: return std::make_unique<ceres::EuclideanManifold<2>>();
    case 4: return std::make_unique<ceres::SubsetManifold>(2, std::vector<int>{0, 1});
    case 5: return std::make_unique<ceres::LineManifold<2>>();
    case 6: return std::make_unique<ceres::EuclideanManifold<0>>();
    case 7: return std::make_unique<ceres::EigenQuaternionManifold>();
    case 8: return std::make_unique<ceres::SphereManifold<ceres::DYNAMIC>>(2);
  }
  return nullptr;
}
constexpr int kParts = 9;
void CheckProduct(const Manifold& m, const std::vector<const Manifold*>& parts, int salt) {
  int a = 0, t = 0;
  for (auto* p : parts) { a += p->AmbientSize(); t += p->TangentSize(); }
  MC_REQUIRE(m.AmbientSize() == a && m.TangentSize() == t) << m.AmbientSize() << "," << m.TangentSize();
  Vec x, y, d;
  for (int i = 0; i < a; ++i) { x.push_back(((i * 7 + salt) % 5) - 1.75); y.push_back(((i * 3 + salt) % 7) - 2.5); }
  for (int i = 0; i < t; ++i) d.push_back(((i * 5 + salt) % 6) * 0.25 - 0.5);
  const Vec z = Plus(m, x, d), e = Minus(m, y, x);
  const RowMat P = PlusJ(m, x), M = MinusJ(m, x);
  RowMat A(2, a);
  for (int i = 0; i < 2 * a; ++i) A.data()[i] = vu::Cell(i, 4);
  vu::Buf<double> out(2 * t);
  MC_EXPECT(m.RightMultiplyByPlusJacobian(x.data(), 2, A.data(), out));
  const RowMat AP = A * P;
  for (int i = 0; i < 2 * t; ++i) MC_EXPECT(vu::Near(out[i], AP.data()[i], 1e-12));
  mc::Step();
  mc::Outcome(mc::H()(a)(t).D(z.data(), a).D(e.data(), t).h);
  RowMat eP = RowMat::Zero(a, t), eM = RowMat::Zero(t, a);
  int ao = 0, to = 0;
  for (size_t n = 0; n < parts.size(); ++n) {
    const Manifold& p = *parts[n];
    const int pa = p.AmbientSize(), pt = p.TangentSize();
    const Vec px(x.begin() + ao, x.begin() + ao + pa), py(y.begin() + ao, y.begin() + ao + pa), pd(d.begin() + to, d.begin() + to + pt);
    MC_EXPECT(Plus(p, px, pd) == Vec(z.begin() + ao, z.begin() + ao + pa)) << "product Plus, part " << n;
    MC_EXPECT(Minus(p, py, px) == Vec(e.begin() + to, e.begin() + to + pt)) << "product Minus, part " << n;
    if (pt > 0) { eP.block(ao, to, pa, pt) = PlusJ(p, px); eM.block(to, ao, pt, pa) = MinusJ(p, px); }
    ao += pa; to += pt;
  }
  MC_EXPECT(eP == P) << "product plus Jacobian";
  MC_EXPECT(eM == M) << "product minus Jacobian";
}
}  // namespace
MC_SCENARIO(products, .split = 3, .weight = 2) {
  const int shape = mc::Choose(5, "shape");
  const int salt = mc::Choose(3, "salt");
  const auto part = [&] { return Part(mc::Choose(kParts, "part")); };
  Ptr a = part(), b = part();
  const Manifold *pa = a.get(), *pb = b.get();
  using P2 = ceres::ProductManifold<Ptr, Ptr>;
  using P3 = ceres::ProductManifold<Ptr, Ptr, Ptr>;
  using P4 = ceres::ProductManifold<Ptr, Ptr, Ptr, Ptr>;
  if (shape == 0) { P2 m(std::move(a), std::move(b)); return CheckProduct(m, {pa, pb}, salt); }
  Ptr c = part();
  const Manifold* pc = c.get();
  if (shape == 1) { P3 m(std::move(a), std::move(b), std::move(c)); return CheckProduct(m, {pa, pb, pc}, salt); }
  if (shape == 2) {  // nested on the left
    Ptr in = std::make_unique<P2>(std::move(a), std::move(b));
    P2 m(std::move(in), std::move(c));
    return CheckProduct(m, {pa, pb, pc}, salt);
  }
  if (shape == 3) {  // nested on the right
    Ptr in = std::make_unique<P2>(std::move(b), std::move(c));
    P2 m(std::move(a), std::move(in));
    return CheckProduct(m, {pa, pb, pc}, salt);
  }
  Ptr d = Part(mc::Choose(mc::Bound(3, kParts), "part"));
  const Manifold* pd = d.get();
  P4 m(std::move(a), std::move(b), std::move(c), std::move(d));
  CheckProduct(m, {pa, pb, pc, pd}, salt);
}
MC_SCENARIO(product_values, .split = 2) {
  ceres::QuaternionManifold q;
  ceres::EuclideanManifold<3> e;
  ceres::SphereManifold<ceres::DYNAMIC> s(3);
  ceres::SubsetManifold u(4, {2, 0});
  const int salt = mc::Choose(4, "salt");
  switch (mc::Choose(5, "type")) {
    case 0: { ceres::ProductManifold<ceres::QuaternionManifold, ceres::EuclideanManifold<3>> m; return CheckProduct(m, {&q, &e}, salt); }
    case 1: { ceres::ProductManifold m(ceres::SphereManifold<ceres::DYNAMIC>(3), ceres::QuaternionManifold{}); return CheckProduct(m, {&s, &q}, salt); }
    case 2: { ceres::ProductManifold m(ceres::SubsetManifold(4, {2, 0}), &s, ceres::EuclideanManifold<3>{}); return CheckProduct(m, {&u, &s, &e}, salt); }
    case 3: { ceres::ProductManifold m(std::make_shared<ceres::SubsetManifold>(4, std::vector<int>{0, 2}), ceres::ProductManifold<ceres::EuclideanManifold<3>, ceres::QuaternionManifold>{}); return CheckProduct(m, {&u, &e, &q}, salt); }
    case 4: { ceres::ProductManifold<ceres::EuclideanManifold<3>, ceres::QuaternionManifold, ceres::EuclideanManifold<3>> m; return CheckProduct(m, {&e, &q, &e}, salt); }
  }
}
// A part that refuses makes the product refuse.
MC_SCENARIO(product_failure, .split = 2) {
  const int fa = mc::Choose(16, "first refuses"), fb = mc::Choose(16, "second refuses");
  ceres::ProductManifold<Refusing, Refusing, ceres::EuclideanManifold<1>> m(Refusing{fa}, Refusing{fb}, ceres::EuclideanManifold<1>{});
  const int f = fa | fb;
  const double x[5] = {1, 2, 3, 4, 5}, y[5] = {2, 1, 5, 2, 0}, d[3] = {1, 2, 3};
  double z[5], e[3], j[15], out[3];
  MC_EXPECT(m.Plus(x, d, z) == !(f & 1));
  MC_EXPECT(m.PlusJacobian(x, j) == !(f & 2));
  MC_EXPECT(m.Minus(y, x, e) == !(f & 4));
  MC_EXPECT(m.MinusJacobian(x, j) == !(f & 8));
  MC_EXPECT(m.RightMultiplyByPlusJacobian(x, 1, y, out) == !(f & 2));
  mc::Outcome(mc::H()(f).h);
}
