// C21: loss functions, their combinations, and robust correction.
#include <array>
#include <functional>

#include "ceres/corrector.h"
#include "ceres/loss_function.h"
#include "util.h"

using LD = long double;
using ceres::LossFunction;

namespace {
struct Rho {
  LD v, d, dd;
  LD ev = 0, ed = 0, edd = 0;  // allowance for rounding, absolute
};
// A loss function together with its definition.
struct Loss {
  std::shared_ptr<LossFunction> impl;  // null: trivial by convention
  std::function<Rho(LD)> ref;
  std::string name;
  bool unscaled = true;  // slope one at zero expected
};
constexpr LD kEps = 4e-16L;
Rho WithEps(LD v, LD d, LD dd, LD scale_v) { return {v, d, dd, kEps * (std::abs(v) + scale_v), 4 * kEps * std::abs(d), 8 * kEps * std::abs(dd)}; }

Loss Basic(int kind, double a) {
  const LD A = a, b = A * A;
  switch (kind) {
    case 0: return {std::make_shared<ceres::TrivialLoss>(), [](LD s) { return Rho{s, 1, 0}; }, "trivial"};
    case 1: return {std::make_shared<ceres::HuberLoss>(a), [A, b](LD s) {
                      Rho r;
                      if (s <= b) r = WithEps(s, 1, 0, 0);
                      else r = WithEps(2 * A * sqrtl(s) - b, A / sqrtl(s), -A / (2 * s * sqrtl(s)), 2 * A * sqrtl(s));
                      // Either branch is right at the transition itself.
                      if (std::abs(s - b) <= 1e-15L * b) { r.edd = 1 / b; r.ed = 1e-14L; }
                      return r;
                    }, "huber"};
    case 2: return {std::make_shared<ceres::SoftLOneLoss>(a), [b](LD s) {
                      const LD t = sqrtl(1 + s / b);
                      return WithEps(2 * b * (t - 1), 1 / t, -1 / (2 * b * t * t * t), 2 * b * t);
                    }, "softl1"};
    case 3: return {std::make_shared<ceres::CauchyLoss>(a), [b](LD s) {
                      const LD t = 1 + s / b;
                      return WithEps(b * logl(t), 1 / t, -1 / (b * t * t), b * (1 + logl(t)));
                    }, "cauchy"};
    case 4: return {std::make_shared<ceres::ArctanLoss>(a), [A, b](LD s) {
                      const LD t = 1 + s * s / b;
                      return WithEps(A * atanl(s / A), 1 / t, -2 * s / b / (t * t), 0);
                    }, "arctan"};
    case 5: return {std::make_shared<ceres::TukeyLoss>(a), [b](LD s) {
                      if (s > b) return WithEps(b / 3, 0, 0, 0);
                      const LD t = 1 - s / b;
                      Rho r = WithEps(b / 3 * (1 - t * t * t), t * t, -2 / b * t, b);
                      r.ed = 1e-15; r.edd = 2e-15 / b;
                      return r;
                    }, "tukey"};
    default: {  // tolerant, with two transition widths
      const LD B = kind == 6 ? A / 4 : kind == 7 ? A * 2 : A / 1000;
      return {std::make_shared<ceres::TolerantLoss>(a, static_cast<double>(B)), [A, B](LD s) {
                const LD x = (s - A) / B;
                const LD softplus = x > 0 ? x + log1pl(expl(-x)) : log1pl(expl(x));
                const LD c0 = log1pl(expl(-A / B));
                const LD sig = x > 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x));
                Rho r{B * (softplus - c0), sig, sig * (1 - sig) / B};
                // x itself carries the rounding of (s - a) / b.
                r.ev = 1e-15L * B * (1 + std::abs(x)) + kEps * std::abs(r.v);
                r.ed = 4e-16L * (1 + std::abs(x)) * sig + 1e-16L;
                r.edd = 4e-16L * (2 + std::abs(x)) * (sig + 1e-16L) / B;
                return r;
              }, "tolerant", false};
    }
  }
}
constexpr int kBasics = 9;

// f(g(s)), with the rounding allowance propagated.
Loss Compose(const Loss& f, const Loss& g) {
  auto F = f.ref, G = g.ref;
  return {std::make_shared<ceres::ComposedLoss>(f.impl.get(), ceres::DO_NOT_TAKE_OWNERSHIP, g.impl.get(), ceres::DO_NOT_TAKE_OWNERSHIP),
          [F, G](LD s) {
            const Rho q = G(s), p = F(q.v);
            // g's rounding also moves the argument of f (across a kink at worst).
            const Rho lo = F(q.v - q.ev), hi = F(q.v + q.ev);
            Rho r{p.v, p.d * q.d, p.dd * q.d * q.d + p.d * q.dd};
            const LD dv = std::max(std::abs(hi.v - p.v), std::abs(lo.v - p.v)), dd = std::max(std::abs(hi.d - p.d), std::abs(lo.d - p.d)),
                     d2 = std::max(std::abs(hi.dd - p.dd), std::abs(lo.dd - p.dd));
            r.ev = p.ev + dv;
            r.ed = (p.ed + dd) * std::abs(q.d) + std::abs(p.d) * q.ed + kEps * std::abs(r.d);
            r.edd = (p.edd + d2) * q.d * q.d + 2 * std::abs(p.dd * q.d) * q.ed + (p.ed + dd) * std::abs(q.dd) + std::abs(p.d) * q.edd +
                    kEps * (std::abs(p.dd * q.d * q.d) + std::abs(p.d * q.dd));
            return r;
          },
          f.name + "(" + g.name + ")", f.unscaled && g.unscaled};
}
Loss Scale(const Loss* f, double a) {
  const LossFunction* impl = f ? f->impl.get() : nullptr;
  std::function<Rho(LD)> F = f ? f->ref : [](LD s) { return Rho{s, 1, 0}; };
  return {std::make_shared<ceres::ScaledLoss>(impl, a, ceres::DO_NOT_TAKE_OWNERSHIP), [F, a](LD s) {
            Rho r = F(s);
            const LD c = std::abs(static_cast<LD>(a));
            r.v *= a; r.d *= a; r.dd *= a;
            r.ev = r.ev * c + kEps * std::abs(r.v); r.ed = r.ed * c + kEps * std::abs(r.d); r.edd = r.edd * c + kEps * std::abs(r.dd);
            return r;
          }, "scaled", false};
}

void CheckAt(const Loss& l, double s, double slack = 4) {
  double rho[3] = {-7, -7, -7};
  l.impl->Evaluate(s, rho);
  mc::Step();
  const Rho r = l.ref(s);
  const double floor = std::numeric_limits<double>::min();
  MC_REQUIRE(std::isfinite(rho[0]) && std::isfinite(rho[1]) && std::isfinite(rho[2])) << l.name << " at s=" << s << ": " << vu::Str(rho, 3);
  MC_REQUIRE(std::abs(rho[0] - r.v) <= slack * r.ev + floor) << l.name << " rho(" << s << ")=" << rho[0] << " expected " << (double)r.v;
  MC_REQUIRE(std::abs(rho[1] - r.d) <= slack * r.ed + 2 * floor) << l.name << " rho'(" << s << ")=" << rho[1] << " expected " << (double)r.d;
  MC_REQUIRE(std::abs(rho[2] - r.dd) <= slack * r.edd + 1e-250) << l.name << " rho''(" << s << ")=" << rho[2] << " expected " << (double)r.dd;
  if (s == 0) MC_REQUIRE(std::abs(rho[0]) <= 4 * r.ev && (!l.unscaled || rho[1] == 1)) << l.name << " at zero: " << vu::Str(rho, 3);
  mc::Outcome(mc::H()(rho[0])(rho[1])(rho[2]).h);
}
// Sample points: everywhere, and hugging every transition point.
std::vector<double> Arguments(double a) {
  std::vector<double> r = {0, 1e-300, 1e-30, 1e-12, 1e-6, 0.01, 0.3, 1, 1.5, 3, 10, 47, 1e3, 1e6, 1e12, 1e30, 1e100};
  for (double t : {a * a, a, a + 36.7 * a / 4, a + 36.7 * 2 * a, a * a * 3}) {
    r.push_back(t);
    r.push_back(std::nextafter(t, 0));
    r.push_back(std::nextafter(t, 1e300));
    r.push_back(t * (1 - 1e-6));
    r.push_back(t * (1 + 1e-6));
    r.push_back(t * 0.5);
    r.push_back(t * 2);
  }
  for (double b : {a / 4, a * 2, a / 1000})
    for (double x : {-900.0, -720.0, -709.0, -100.0, -40.0, -10.0, -2.0, 5.0, 12.0, 20.0, 28.0, 33.0, 36.0, 38.0, 60.0, 690.0, 709.0, 712.0, 800.0})
      if (a + x * b >= 0) r.push_back(a + x * b);
  return r;
}
const std::vector<double> kScales = {1.0, 0.5, 2.0, 1e-3, 50.0, 0.3};
}  // namespace

MC_SCENARIO(basic_losses, .split = 2) {
  const int kind = mc::Choose(kBasics, "kind");
  const double a = mc::Pick(kScales, "a");
  const double s = mc::Pick(Arguments(a), "s");
  const Loss l = Basic(kind, a);
  if (kind >= 6) {
    if (a <= 0) return mc::Trivial();
  }
  CheckAt(l, s, 8);
}
MC_SCENARIO(composed_losses, .split = 2) {
  const int f = mc::Choose(kBasics, "f"), g = mc::Choose(kBasics, "g");
  const double fa = mc::Pick({1.0, 0.5, 3.0}, "fa"), ga = mc::Pick({1.0, 0.3, 2.0}, "ga");
  const Loss F = Basic(f, fa), G = Basic(g, ga), c = Compose(F, G);
  for (double s : Arguments(ga)) if (s < 1e13) CheckAt(c, s, 32);
  for (double s : Arguments(fa)) if (s < 1e13) CheckAt(c, s, 32);
}
MC_SCENARIO(nested_losses, .split = 3) {
  // composition and scaling in every arrangement of depth three
  const int f = mc::Choose(kBasics, "f"), g = mc::Choose(kBasics, "g"), h = mc::Choose(mc::Bound(4, kBasics), "h"), shape = mc::Choose(5, "shape");
  const double scale = mc::Pick({0.25, 3.0}, "scale");
  const Loss F = Basic(f, 0.7), G = Basic(g, 1.5), Hh = Basic(h, 2.0);
  const Loss fg = Compose(F, G), gh = Compose(G, Hh), sf = Scale(&F, scale), sg = Scale(&G, scale), sn = Scale(nullptr, scale);
  Loss l;
  switch (shape) {
    case 0: l = Compose(fg, Hh); break;
    case 1: l = Compose(F, gh); break;
    case 2: l = Compose(sf, gh); break;
    case 3: l = Compose(F, sg); break;
    default: l = Compose(F, sn); break;
  }
  for (double s : {0.0, 1e-6, 0.2, 0.49, 0.7, 1.0, 1.9, 2.25, 4.0, 7.0, 30.0, 1e4}) CheckAt(l, s, 1e3);
}
MC_SCENARIO(scaled_losses, .split = 2) {
  const int f = mc::Choose(kBasics + 1, "f");
  const double fa = mc::Pick({1.0, 0.5}, "fa"), a = mc::Pick({1.0, 0.0, 2.5, 1e-8, 1e8, -1.0}, "a");
  const Loss F = Basic(f % kBasics, fa), l = Scale(f == kBasics ? nullptr : &F, a);
  for (double s : Arguments(fa)) if (s < 1e13) CheckAt(l, s, 32);
}
// Every sequence of swaps of a wrapper, interleaved with evaluations.
MC_SCENARIO(wrapper_history, .split = 2) {
  struct Counting : LossFunction {
    int* live;
    Loss l;
    Counting(int* c, Loss l) : live(c), l(l) { ++*live; }
    ~Counting() override { --*live; }
    void Evaluate(double s, double* o) const override { l.impl->Evaluate(s, o); }
  };
  int live = 0;
  const Loss pool[2] = {Basic(1, 0.5), Basic(3, 2.0)};
  Counting a(&live, pool[0]), b(&live, pool[1]);
  {
    // state of the model: which definition is wrapped, and what is owned
    int cur = mc::Choose(5, "initial");  // 0 null, 1/2 borrowed a/b, 3/4 owned
    const auto make = [&](int k) -> LossFunction* { return k == 0 ? nullptr : k == 1 ? &a : k == 2 ? &b : new Counting(&live, pool[k - 3]); };
    const auto own = [](int k) { return k >= 3 ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP; };
    const bool own_null = mc::Flip("own_null");
    const auto own2 = [&](int k) { return k == 0 && own_null ? ceres::TAKE_OWNERSHIP : own(k); };
    ceres::LossFunctionWrapper w(make(cur), own2(cur));
    const int len = mc::Range(0, mc::Bound(4, 6), "length");
    for (int i = 0; i <= len; ++i) {
      const int want = 2 + (cur >= 3);
      MC_REQUIRE(live == want) << "live wrapped objects " << live << " expected " << want << " after " << i << " swaps";
      for (double s : {0.0, 0.2, 0.25, 0.3, 5.0}) {
        double rho[3], e[3] = {s, 1, 0};
        w.Evaluate(s, rho);
        if (cur) pool[(cur - 1) % 2].impl->Evaluate(s, e);
        MC_REQUIRE(rho[0] == e[0] && rho[1] == e[1] && rho[2] == e[2]) << "wrapper evaluates " << vu::Str(rho, 3) << " expected " << vu::Str(e, 3);
        mc::Outcome(mc::H()(rho[0])(cur).h);
      }
      if (i == len) break;
      cur = mc::Choose(5, "reset");
      w.Reset(make(cur), own2(cur));
      mc::Step();
    }
  }
  MC_REQUIRE(live == 2) << "live objects after destruction " << live;
}
MC_SCENARIO(tolerant_arguments, .split = 1) {
  const double a = mc::Pick({-1.0, 0.0, 1.0}, "a"), b = mc::Pick({-1.0, 0.0, 1.0}, "b");
  const bool died = mc::Dies([&] { ceres::TolerantLoss l(a, b); });
  mc::Step();
  MC_REQUIRE(died == (a < 0 || b <= 0)) << "a=" << a << " b=" << b << (died ? " rejected" : " accepted");
  mc::Outcome(died);
}

// ---- robust correction -----------------------------------------------------
namespace {
void CheckCorrection(int rows, int cols, const double* r, const double* jac, const double rho[3]) {
  double sq = 0;
  for (int i = 0; i < rows; ++i) sq += r[i] * r[i];
  vu::Guarded rc(0, rows), jc(1, rows * cols);
  for (int i = 0; i < rows; ++i) rc[i] = r[i];
  for (int i = 0; i < rows * cols; ++i) jc[i] = jac[i];
  ceres::internal::Corrector corrector(sq, rho);
  corrector.CorrectJacobian(rows, cols, rc, jc);
  for (int i = 0; i < rows; ++i) MC_REQUIRE(rc[i] == r[i]) << "CorrectJacobian changed the residual";
  corrector.CorrectResiduals(rows, rc);
  mc::Step(3);
  MC_REQUIRE(rc.Intact() && jc.Intact()) << "write before the buffer";
  for (int i = 0; i < rows; ++i) MC_REQUIRE(std::isfinite(rc[i])) << "residual " << i << " is " << rc[i];
  for (int i = 0; i < rows * cols; ++i) MC_REQUIRE(std::isfinite(jc[i])) << "jacobian " << i << " is " << jc[i];
  const double curv = rho[2] > 0 && sq > 0 ? rho[2] : 0;
  for (int c = 0; c < cols; ++c) {
    double got = 0, want = 0, mag = 0, rj = 0;
    for (int i = 0; i < rows; ++i) {
      got += jc[i * cols + c] * rc[i];
      want += rho[1] * jac[i * cols + c] * r[i];
      rj += jac[i * cols + c] * r[i];
      mag += std::abs(rho[1] * jac[i * cols + c] * r[i]);
    }
    MC_REQUIRE(std::abs(got - want) <= 1e-12 * mag + 1e-300) << "gradient " << got << " expected " << want << " rho=" << vu::Str(rho, 3) << " r=" << vu::Str(r, rows);
    for (int d = 0; d < cols; ++d) {
      double h = 0, e = 0, m = 0, rd = 0;
      for (int i = 0; i < rows; ++i) {
        h += jc[i * cols + c] * jc[i * cols + d];
        e += rho[1] * jac[i * cols + c] * jac[i * cols + d];
        m += std::abs(rho[1] * jac[i * cols + c] * jac[i * cols + d]);
        rd += jac[i * cols + d] * r[i];
      }
      e += 2 * curv * rj * rd;
      double mr = 0, md = 0;
      for (int i = 0; i < rows; ++i) { mr += std::abs(jac[i * cols + c] * r[i]); md += std::abs(jac[i * cols + d] * r[i]); }
      m += 2 * curv * mr * md;
      MC_REQUIRE(std::abs(h - e) <= 1e-11 * m + 1e-300) << "Hessian(" << c << "," << d << ")=" << h << " expected " << e << " rho=" << vu::Str(rho, 3) << " r=" << vu::Str(r, rows);
      mc::Outcome(mc::H()(h)(c)(d).h);
    }
  }
}
}  // namespace
MC_SCENARIO(corrector, .split = 3) {
  const int rows = mc::Range(1, 4, "rows"), cols = mc::Range(1, mc::Bound(3, 4), "cols");
  const double rho1 = mc::Pick({1.0, 0.25, 4.0, 1e-6, std::numeric_limits<double>::min()}, "rho1");
  const double rho2 = mc::Pick({0.0, -1.0, -1e6, 0.5, 3.0, 1e-9, 100.0}, "rho2");
  const double size = mc::Pick({1.0, 0.0, 1e-8, 1e4, 1e-150}, "size");
  const int salt = mc::Choose(3, "values"), zero = mc::Choose(rows + 1, "zero_residual");
  if (rho2 > 0 && rho1 < 1e-8) return mc::Trivial();
  double r[4], j[16];
  for (int i = 0; i < rows; ++i) r[i] = i == zero ? 0 : size * vu::Cell(i, salt + 3) / 8;
  for (int i = 0; i < rows * cols; ++i) j[i] = vu::Cell(i, salt) / 4;
  const double rho[3] = {1, rho1, rho2};
  CheckCorrection(rows, cols, r, j, rho);
}
// Correction driven by the real losses, at the scale of their transitions.
MC_SCENARIO(corrector_with_losses, .split = 2) {
  const int kind = mc::Choose(kBasics, "kind");
  const double a = mc::Pick({1.0, 0.5, 2.0}, "a");
  const int rows = mc::Range(1, 3, "rows"), salt = mc::Choose(2, "values");
  const Loss l = Basic(kind, a);
  double j[9];
  for (int i = 0; i < rows * 2; ++i) j[i] = vu::Cell(i, salt) / 4;
  for (double s : Arguments(a)) {
    if (s > 1e13) continue;
    double r[3], sq = 0;
    for (int i = 0; i < rows; ++i) r[i] = std::sqrt(s / rows) * (i % 2 ? -1 : 1);
    for (int i = 0; i < rows; ++i) sq += r[i] * r[i];
    double rho[3];
    l.impl->Evaluate(sq, rho);
    if (rho[1] < 1e-250 && rho[2] > 0) continue;
    CheckCorrection(rows, 2, r, j, rho);
  }
}
