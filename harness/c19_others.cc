// C19: first order functions, manifolds, tiny solver functions, wrapped cost
// functions, conditioned cost functions and priors.
#include "c19_autodiff.h"
#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/normal_prior.h"
#include "ceres/tiny_solver_autodiff_function.h"
namespace {
struct First {
  poly::Poly p;
  bool fail = false;
  template <typename T>
  bool operator()(const T* x, T* cost) const { p.Eval(&x, cost); return !fail; }
};
template <int N>
void RunFirst() {
  const int salt = mc::Choose(4, "salt");
  const bool fail = mc::Flip("fail");
  First f{{{N}, 1, salt}, fail};
  ceres::AutoDiffFirstOrderFunction<First, N> c(new First(f));
  MC_EXPECT(c.NumParameters() == N);
  const auto v = poly::Values({N}, mc::Choose(4, "point"));
  const double* xp = v[0].data();
  double cost = vu::NaN();
  vu::Buf<double> g(N);
  const bool want = mc::Flip("gradient");
  for (int i = 0; i < N; ++i) g[i] = vu::NaN();
  const bool ok = c.Evaluate(xp, &cost, want ? g.data() : nullptr);
  mc::Step();
  MC_REQUIRE(ok == !f.fail) << "Evaluate returned " << ok;
  if (!ok) return;
  double e;
  f.p.Eval(&xp, &e);
  MC_EXPECT(e == cost) << cost;
  const auto J = f.p.Jacobian(&xp);
  for (int i = 0; i < N; ++i) MC_EXPECT(want ? g[i] == J[i] : g[i] != g[i]) << "gradient " << i << " " << g[i] << " vs " << J[i];
  mc::Outcome(mc::H()(N)(e)(J).h);
}
// A "manifold" that is just a pair of smooth maps; what matters is which
// derivative is reported and how it is laid out.
template <int A, int Tn>
struct Maps {
  bool fail_plus = false, fail_minus = false;
  template <typename T>
  bool Plus(const T* x, const T* d, T* y) const {
    for (int i = 0; i < A; ++i) {
      y[i] = x[i];
      for (int k = 0; k < Tn; ++k) y[i] = y[i] + d[k] * double(i * 3 + k + 1) + d[k] * x[(i + k) % A] * 2.0 + d[k] * d[k] * 5.0;
    }
    return !fail_plus;
  }
  template <typename T>
  bool Minus(const T* y, const T* x, T* d) const {
    for (int k = 0; k < Tn; ++k) {
      d[k] = T(0.0);
      for (int i = 0; i < A; ++i) d[k] = d[k] + (y[i] - x[i]) * double(k * 4 + i + 1) + (y[i] - x[i]) * x[(i + k) % A] * 3.0 + y[i] * 0.0;
    }
    return !fail_minus;
  }
};
template <int A, int Tn>
void RunManifold() {
  Maps<A, Tn> f;
  f.fail_plus = mc::Flip("fail plus");
  f.fail_minus = mc::Flip("fail minus");
  ceres::AutoDiffManifold<Maps<A, Tn>, A, Tn> m(new Maps<A, Tn>(f));
  MC_EXPECT(m.AmbientSize() == A && m.TangentSize() == Tn);
  const auto v = poly::Values({A, Tn, A}, mc::Choose(5, "point"));
  vu::Buf<double> pj(A * Tn), mj(A * Tn), y(A), d(Tn);
  MC_EXPECT(m.PlusJacobian(v[0].data(), pj) == !f.fail_plus);
  MC_EXPECT(m.MinusJacobian(v[0].data(), mj) == !f.fail_minus);
  MC_EXPECT(m.Plus(v[0].data(), v[1].data(), y) == !f.fail_plus);
  MC_EXPECT(m.Minus(v[2].data(), v[0].data(), d) == !f.fail_minus);
  mc::Step(4);
  const double* x = v[0].data();
  double ey[A], ed[Tn];
  Maps<A, Tn>().Plus(x, v[1].data(), ey);
  Maps<A, Tn>().Minus(v[2].data(), x, ed);
  if (!f.fail_plus) for (int i = 0; i < A; ++i) {
    MC_EXPECT(y[i] == ey[i]);
    for (int k = 0; k < Tn; ++k) MC_EXPECT(pj[i * Tn + k] == i * 3 + k + 1 + 2 * x[(i + k) % A]) << "plus Jacobian " << i << "," << k << " " << pj[i * Tn + k];
  }
  if (!f.fail_minus) for (int k = 0; k < Tn; ++k) {
    MC_EXPECT(d[k] == ed[k]);
    for (int i = 0; i < A; ++i) MC_EXPECT(mj[k * A + i] == k * 4 + i + 1 + 3 * x[(i + k) % A]) << "minus Jacobian " << k << "," << i << " " << mj[k * A + i];
  }
  mc::Outcome(mc::H()(A)(Tn).D(ey, A).D(ed, Tn).h);
}
struct TinyFunctor {
  poly::Poly p;
  bool fail = false;
  int NumResiduals() const { return p.m; }
  template <typename T>
  bool operator()(const T* x, T* r) const { p.Eval(&x, r); return !fail; }
};
template <int R, int N, int Max = R>
void RunTiny(int m) {
  const int salt = mc::Choose(3, "salt");
  const bool fail = mc::Flip("fail");
  TinyFunctor f{{{N}, m, salt}, fail};
  ceres::TinySolverAutoDiffFunction<TinyFunctor, R, N, double, Max> t(f);
  MC_EXPECT(t.NumResiduals() == m);
  for (int round = 0; round < 2; ++round) {
    const auto v = poly::Values({N}, mc::Choose(3, "point"));
    const double* xp = v[0].data();
    const bool want = mc::Flip("jacobian");
    vu::Buf<double> r(m), j(m * N);
    for (int i = 0; i < m * N; ++i) j[i] = vu::NaN();
    const bool ok = t(xp, r, want ? j.data() : nullptr);
    mc::Step();
    MC_REQUIRE(ok == !f.fail);
    if (!ok) return;
    std::vector<double> e(m);
    f.p.Eval(&xp, e.data());
    const auto J = f.p.Jacobian(&xp);
    for (int k = 0; k < m; ++k) {
      MC_EXPECT(r[k] == e[k]);
      for (int i = 0; i < N; ++i) MC_EXPECT(want ? j[i * m + k] == J[k * N + i] : j[i * m + k] != j[i * m + k]) << "jacobian " << k << "," << i << " " << j[i * m + k];
    }
    mc::Outcome(mc::H()(m)(N)(e)(J).h);
  }
}
}  // namespace
MC_SCENARIO(first_order, .split = 3) {
  switch (mc::Choose(6, "n")) {
    case 0: return RunFirst<1>();
    case 1: return RunFirst<2>();
    case 2: return RunFirst<3>();
    case 3: return RunFirst<5>();
    case 4: return RunFirst<8>();
    case 5: return RunFirst<40>();
  }
}
MC_SCENARIO(autodiff_manifold, .split = 2) {
  switch (mc::Choose(7, "shape")) {
    case 0: return RunManifold<1, 1>();
    case 1: return RunManifold<2, 1>();
    case 2: return RunManifold<3, 2>();
    case 3: return RunManifold<4, 3>();
    case 4: return RunManifold<3, 3>();
    case 5: return RunManifold<5, 1>();
    case 6: return RunManifold<2, 3>();
  }
}
MC_SCENARIO(tiny_autodiff, .split = 3) {
  switch (mc::Choose(8, "shape")) {
    case 0: return RunTiny<1, 1>(1);
    case 1: return RunTiny<2, 2>(2);
    case 2: return RunTiny<3, 2>(3);
    case 3: return RunTiny<2, 3>(2);
    case 4: return RunTiny<Eigen::Dynamic, 3>(1);
    case 5: return RunTiny<Eigen::Dynamic, 2>(4);
    case 6: return RunTiny<Eigen::Dynamic, 2, 6>(5);
    case 7: return RunTiny<4, 1>(4);
  }
}

namespace {
// Wraps a cost function whose blocks are functions of other parameters:
// u = A x (block wise mixing), r = poly(u).  Exact chain rule by hand.
struct Mixer {
  std::vector<int> sizes;  // of the wrapped function
  template <typename T>
  std::vector<std::vector<T>> Mix(T const* const* x, int nx) const {
    std::vector<std::vector<T>> u;
    int c = 0;
    for (int s : sizes) {
      u.emplace_back(s, T(1.0));
      for (int j = 0; j < s; ++j, ++c) {
        T t = T(double(c % 3));
        for (int b = 0; b < nx; ++b) t = t + x[b][0] * double((c + b) % 4 - 1) + x[b][0] * x[b][1] * double((c * b) % 3);
        u.back()[j] = t;
      }
    }
    return u;
  }
};
class FailingCost : public poly::Cost {
 public:
  FailingCost(const poly::Poly& p, bool fail) : poly::Cost(p), fail_(fail) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override { return poly::Cost::Evaluate(x, r, j) && !fail_; }
 private:
  bool fail_;
};
struct ViaDynamic {
  Mixer mix;
  int nx;
  std::shared_ptr<ceres::DynamicCostFunctionToFunctor> g;
  template <typename T>
  bool operator()(T const* const* x, T* r) const {
    const auto u = mix.Mix(x, nx);
    std::vector<const T*> p;
    for (auto& b : u) p.push_back(b.data());
    return (*g)(p.data(), r);
  }
};
template <int M, int... Ns>
struct ViaStatic {
  Mixer mix;
  int nx;
  std::shared_ptr<ceres::CostFunctionToFunctor<M, Ns...>> g;
  template <typename T, size_t... I>
  bool Call(const std::vector<std::vector<T>>& u, T* r, std::index_sequence<I...>) const { return (*g)(u[I].data()..., r); }
  template <typename T>
  bool operator()(T const* const* x, T* r) const { return Call(mix.Mix(x, nx), r, std::make_index_sequence<sizeof...(Ns)>{}); }
};
// Reference: r and exact Jacobian of poly(mix(x)).
template <typename C>
void CheckComposite(const C& c, const poly::Poly& p, const Mixer& mix, int nx, bool fail) {
  const auto v = poly::Values(std::vector<int>(nx, 2), mc::Choose(3, "point"));
  std::vector<const double*> xp;
  for (auto& b : v) xp.push_back(b.data());
  const int mask = mc::Choose((1 << nx) + 1, "mask") - 1;
  std::vector<std::vector<double>> j(nx, std::vector<double>(2 * p.m, vu::NaN()));
  std::vector<double*> jp;
  for (int b = 0; b < nx; ++b) jp.push_back(mask >= 0 && (mask >> b & 1) ? j[b].data() : nullptr);
  std::vector<double> r(p.m), e(p.m);
  const bool ok = c.Evaluate(xp.data(), r.data(), mask < 0 ? nullptr : jp.data());
  mc::Step();
  MC_REQUIRE(ok == !fail);
  if (!ok) return;
  const auto u = mix.Mix(xp.data(), nx);
  std::vector<const double*> up;
  for (auto& b : u) up.push_back(b.data());
  p.Eval(up.data(), e.data());
  const auto J = p.Jacobian(up.data());
  for (int k = 0; k < p.m; ++k) {
    MC_EXPECT(r[k] == e[k]) << "residual " << r[k] << " vs " << e[k];
    for (int b = 0; b < nx; ++b)
      for (int i = 0; i < 2; ++i) {
        double d = 0;
        for (int q = 0; q < p.n(); ++q) d += J[k * p.n() + q] * (i == 0 ? ((q + b) % 4 - 1) + xp[b][1] * ((q * b) % 3) : xp[b][0] * ((q * b) % 3));
        MC_EXPECT(jp[b] ? j[b][k * 2 + i] == d : j[b][k * 2 + i] != j[b][k * 2 + i]) << "d r" << k << "/d x" << b << "," << i << " = " << j[b][k * 2 + i] << " vs " << d;
      }
  }
  mc::Outcome(mc::H()(mask)(e)(J).h);
}
template <int Stride>
void RunDynamicWrap() {
  const int nb = mc::Range(1, 3, "blocks");
  poly::Poly p;
  for (int b = 0; b < nb; ++b) p.sizes.push_back(mc::Range(1, 3, "size"));
  p.m = mc::Range(1, 3, "residuals");
  p.salt = mc::Choose(2, "salt");
  const bool fail = mc::Flip("fail");
  const int nx = mc::Range(1, 2, "outer blocks");
  ViaDynamic f{{p.sizes}, nx, std::make_shared<ceres::DynamicCostFunctionToFunctor>(new FailingCost(p, fail))};
  ceres::DynamicAutoDiffCostFunction<ViaDynamic, Stride> c(new ViaDynamic(f));
  for (int b = 0; b < nx; ++b) c.AddParameterBlock(2);
  c.SetNumResiduals(p.m);
  CheckComposite(c, p, f.mix, nx, fail);
}
template <int M, int... Ns>
void RunStaticWrap() {
  const int salt = mc::Choose(2, "salt");
  poly::Poly p{{Ns...}, M, salt};
  const bool fail = mc::Flip("fail");
  const int nx = mc::Range(1, 2, "outer blocks");
  ViaStatic<M, Ns...> f{{p.sizes}, nx, std::make_shared<ceres::CostFunctionToFunctor<M, Ns...>>(new FailingCost(p, fail))};
  ceres::DynamicAutoDiffCostFunction<ViaStatic<M, Ns...>, 3> c(new ViaStatic<M, Ns...>(f));
  for (int b = 0; b < nx; ++b) c.AddParameterBlock(2);
  c.SetNumResiduals(p.m);
  CheckComposite(c, p, f.mix, nx, fail);
}
}  // namespace
MC_SCENARIO(wrapped_dynamic, .split = 4) {
  switch (mc::Choose(3, "stride")) {
    case 0: return RunDynamicWrap<1>();
    case 1: return RunDynamicWrap<2>();
    case 2: return RunDynamicWrap<4>();
  }
}
MC_SCENARIO(wrapped_static, .split = 3) {
  switch (mc::Choose(6, "shape")) {
    case 0: return RunStaticWrap<1, 1>();
    case 1: return RunStaticWrap<2, 2, 1>();
    case 2: return RunStaticWrap<3, 1, 2, 3>();
    case 3: return RunStaticWrap<2, 1, 1, 1, 1>();
    case 4: return RunStaticWrap<1, 2, 2, 1, 2, 1>();
    case 5: return RunStaticWrap<2, 1, 2, 1, 2, 1, 2>();
  }
}
MC_SCENARIO(wrapped_misuse, .single = true) {
  const int n = mc::Choose(5, "declared");
  const poly::Poly p{{2, 1}, 2, 0};
  bool died = false;
  std::string msg;
  switch (n) {
    case 0: died = mc::Dies([&] { ceres::CostFunctionToFunctor<2, 2, 1> g(new poly::Cost(p)); }); break;
    case 1: died = mc::Dies([&] { ceres::CostFunctionToFunctor<2, 1, 2> g(new poly::Cost(p)); }); break;
    case 2: died = mc::Dies([&] { ceres::CostFunctionToFunctor<2, 3> g(new poly::Cost(p)); }); break;
    case 3: died = mc::Dies([&] { ceres::CostFunctionToFunctor<2, 2, 1, 1> g(new poly::Cost(p)); }); break;
    case 4: died = mc::Dies([&] { ceres::CostFunctionToFunctor<2, 2, 2> g(new poly::Cost(p)); }); break;
  }
  MC_EXPECT(died == (n != 0)) << "declared shape " << n;
}

namespace {
// y = a t^2 + b t + c with derivative.
class Conditioner : public ceres::SizedCostFunction<1, 1> {
 public:
  Conditioner(double a, double b, double c, bool fail) : a(a), b(b), c(c), fail(fail) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    const double t = x[0][0];
    r[0] = a * t * t + b * t + c;
    if (j && j[0]) j[0][0] = 2 * a * t + b;
    return !fail;
  }
  double a, b, c;
  bool fail;
};
}  // namespace
MC_SCENARIO(conditioned, .split = 4) {
  poly::Poly p;
  const int nb = mc::Range(1, 3, "blocks");
  for (int b = 0; b < nb; ++b) p.sizes.push_back(mc::Range(1, 2, "size"));
  p.m = mc::Range(1, 3, "residuals");
  // Per residual: none, A, B, failing, or shared with the first.
  std::vector<std::unique_ptr<Conditioner>> own;
  std::vector<ceres::CostFunction*> cond;
  bool fail = false;
  for (int k = 0; k < p.m; ++k) {
    const int kind = mc::Choose(k ? 5 : 4, "conditioner");
    if (kind == 0) { cond.push_back(nullptr); continue; }
    if (kind == 4) { cond.push_back(cond[0]); continue; }
    own.push_back(std::make_unique<Conditioner>(kind == 1 ? 2 : 0, kind - 3.0, 1 + k, kind == 3));
    fail |= kind == 3;
    cond.push_back(own.back().get());
  }
  const bool inner_fail = mc::Flip("inner fails");
  auto inner = std::make_unique<FailingCost>(p, inner_fail);
  const bool own_it = mc::Flip("ownership");
  ceres::ConditionedCostFunction c(inner.get(), cond, own_it ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
  std::vector<Conditioner*> raw;
  for (auto* q : cond) raw.push_back(static_cast<Conditioner*>(q));
  if (own_it) { inner.release(); for (auto& o : own) o.release(); }
  const auto v = poly::Values(p.sizes, 1);
  std::vector<const double*> xp;
  for (auto& b : v) xp.push_back(b.data());
  const int mask = mc::Choose((1 << nb) + 1, "mask") - 1;
  std::vector<std::vector<double>> j;
  std::vector<double*> jp;
  for (int b = 0; b < nb; ++b) {
    j.emplace_back(p.sizes[b] * p.m, vu::NaN());
  }
  for (int b = 0; b < nb; ++b) jp.push_back(mask >= 0 && (mask >> b & 1) ? j[b].data() : nullptr);
  std::vector<double> r(p.m), e(p.m);
  const bool ok = c.Evaluate(xp.data(), r.data(), mask < 0 ? nullptr : jp.data());
  mc::Step();
  MC_REQUIRE(ok == !(fail || inner_fail));
  if (!ok) return;
  p.Eval(xp.data(), e.data());
  const auto J = p.Jacobian(xp.data());
  for (int k = 0; k < p.m; ++k) {
    const double t = e[k];
    double y = t, d = 1;
    if (raw[k]) { y = raw[k]->a * t * t + raw[k]->b * t + raw[k]->c; d = 2 * raw[k]->a * t + raw[k]->b; }
    MC_EXPECT(r[k] == y) << r[k] << " vs " << y;
    for (int b = 0; b < nb; ++b)
      for (int i = 0; i < p.sizes[b]; ++i) {
        const double g = j[b][k * p.sizes[b] + i];
        MC_EXPECT(jp[b] ? g == d * J[k * p.n() + p.Offset(b) + i] : g != g) << "jacobian " << k << " " << b << " " << i << " " << g;
      }
  }
  mc::Outcome(mc::H()(mask)(e)(r).h);
}
MC_SCENARIO(normal_prior, .split = 2) {
  const int rows = mc::Range(1, 4, "rows"), cols = mc::Range(1, 4, "cols");
  const bool bad = mc::Flip("mismatched b");
  ceres::Matrix A(rows, cols);
  for (int i = 0; i < rows; ++i) for (int k = 0; k < cols; ++k) A(i, k) = vu::Cell(i * 4 + k, 1);
  ceres::Vector b(cols + bad);
  for (int k = 0; k < cols + bad; ++k) b[k] = k * 2 - 3;
  if (bad) { MC_EXPECT(mc::Dies([&] { ceres::NormalPrior q(A, b); })); return; }
  ceres::NormalPrior q(A, b);
  MC_EXPECT(q.num_residuals() == rows && q.parameter_block_sizes() == std::vector<int>{cols});
  const auto v = poly::Values({cols}, 1);
  const double* xp = v[0].data();
  vu::Buf<double> r(rows), j(rows * cols);
  double* jp[] = {nullptr};
  const int want = mc::Choose(3, "jacobian");
  if (want == 2) jp[0] = j.data();
  MC_EXPECT(q.Evaluate(&xp, r, want == 0 ? nullptr : jp));
  for (int i = 0; i < rows; ++i) {
    double e = 0;
    for (int k = 0; k < cols; ++k) { e += A(i, k) * (xp[k] - b[k]); if (want == 2) MC_EXPECT(j[i * cols + k] == A(i, k)); }
    MC_EXPECT(r[i] == e) << r[i] << " vs " << e;
  }
  mc::Outcome(mc::H()(rows)(cols)(want).D(r.data(), rows).h);
}
