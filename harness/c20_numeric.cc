// C20: numeric differentiation.
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
#include "polyfun.h"
namespace {
using ceres::CENTRAL;
using ceres::DYNAMIC;
using ceres::FORWARD;
using ceres::RIDDERS;
// Watches every call: only the point itself and single-coordinate
// perturbations of it are legal.
struct Monitor {
  poly::Poly p;
  std::vector<std::vector<double>> x;  // the point
  int fail_at = -1;
  int calls = 0;
  int mask = -1;  // blocks that may be perturbed
  bool failed = false;
  std::vector<double> h;     // last step per coordinate
  std::vector<int> touched;  // per coordinate: bit 0 above, bit 1 below
  std::string bad;
  double cubic = 0;  // adds cubic * x_0^power to residual 0
  int power = 3;
  bool Call(double const* const* q, double* r) {
    int moved = 0, c = 0;
    if (touched.empty()) { touched.assign(p.n(), 0); h.assign(p.n(), 0); }
    for (size_t b = 0; b < x.size(); ++b)
      for (size_t i = 0; i < x[b].size(); ++i, ++c)
        if (q[b][i] != x[b][i]) {
          ++moved;
          if (!(mask >= 0 && (mask >> b & 1))) bad = "perturbed a block whose Jacobian was not requested";
          if (!(std::isfinite(q[b][i]))) bad = "evaluated at a non-finite point";
          const double step = std::abs(q[b][i] - x[b][i]);
          h[c] = step;
          touched[c] |= q[b][i] > x[b][i] ? 1 : 2;
        }
    if (moved > 1) bad = "more than one coordinate differs from the given point";
    p.Eval(q, r);
    r[0] += cubic * std::pow(q[0][0], power);
    if (calls++ == fail_at) failed = true;
    return calls - 1 != fail_at;
  }
};
struct Functor {
  Monitor* m;
  bool operator()(double const* const* q, double* r) const { return m->Call(q, r); }
  template <typename... Rest>
  bool operator()(const double* x0, Rest*... rest) const {
    const double* all[] = {x0, rest...};
    return m->Call(all, const_cast<double*>(all[sizeof...(Rest)]));
  }
};
// The same as a cost function (Evaluate instead of operator()).
struct Wrapped : ceres::CostFunction {
  Monitor* m;
  explicit Wrapped(Monitor* m) : m(m) {}
  bool Evaluate(double const* const* q, double* r, double** j) const override { return j == nullptr && m->Call(q, r); }
};
const double kSqrtEps = std::sqrt(std::numeric_limits<double>::epsilon());

void Prepare(Monitor* m, ceres::NumericDiffMethodType method, int point, int values) {
  m->p.linear = method == FORWARD;
  m->x = poly::Values(m->p.sizes, point);
  const double scale = values == 0 ? 1 : values == 1 ? 1e5 : values == 2 ? 1e-12 : 0.37;
  for (auto& b : m->x) for (auto& v : b) v *= scale;
}
template <typename C>
void Check(const C& cost, Monitor* m, ceres::NumericDiffMethodType method, const ceres::NumericDiffOptions& o, int mask) {
  const poly::Poly& p = m->p;
  const int nb = static_cast<int>(p.sizes.size());
  m->mask = mask;
  std::vector<std::vector<double>> x = m->x, j(nb);
  std::vector<const double*> xp;
  std::vector<double*> jp;
  for (int b = 0; b < nb; ++b) {
    xp.push_back(x[b].data());
    j[b].assign(p.m * p.sizes[b] + 1, vu::NaN());
    jp.push_back(mask >= 0 && (mask >> b & 1) ? j[b].data() : nullptr);
  }
  vu::Buf<double> r(p.m);
  for (int k = 0; k < p.m; ++k) r[k] = vu::NaN();
  const bool ok = cost.Evaluate(xp.data(), r, mask < 0 ? nullptr : jp.data());
  mc::Step(m->calls);
  MC_EXPECT(m->bad.empty()) << m->bad;
  MC_EXPECT(x == m->x) << "parameters not restored";
  MC_REQUIRE(ok == !m->failed) << "functor failed at call " << m->fail_at << " of " << m->calls << " but Evaluate returned " << ok << " sizes " << vu::Str(p.sizes, nb) << " mask " << mask;
  mc::Outcome(mc::H()(ok)(m->calls)(mask)(p.sizes)(p.m).h);
  if (!ok) { mc::Cover("failure_reported"); return; }
  std::vector<double> e(p.m);
  p.Eval(xp.data(), e.data());
  if (m->cubic) e[0] += m->cubic * std::pow(x[0][0], m->power);
  for (int k = 0; k < p.m; ++k) MC_EXPECT(r[k] == e[k]) << "residual " << k << " " << r[k] << " vs " << e[k];
  auto J = p.Jacobian(xp.data());
  if (m->cubic) J[0] += m->power * m->cubic * std::pow(x[0][0], m->power - 1);
  double top = 1;
  for (auto& b : x) for (double v : b) top = std::max(top, std::abs(v));
  int c = 0;
  for (int b = 0; b < nb; ++b)
    for (int i = 0; i < p.sizes[b]; ++i, ++c) {
      if (jp[b]) {
        if (method != FORWARD) MC_EXPECT(m->touched[c] == 3) << "coordinate " << c << " not evaluated on both sides";
        else MC_EXPECT(m->touched[c] != 0) << "coordinate " << c << " was never perturbed";
      }
      const double rel = method == RIDDERS ? o.ridders_relative_initial_step_size : o.relative_step_size;
      const double h = method == RIDDERS ? std::max(std::abs(x[b][i]) * rel, std::max(kSqrtEps, rel)) / 1e3 : std::max(std::abs(x[b][i]) * rel, kSqrtEps);
      for (int k = 0; k < p.m; ++k) {
        const double got = j[b][k * p.sizes[b] + i];
        if (jp[b] && method != RIDDERS) MC_EXPECT(m->h[c] >= 0.5 * h && m->h[c] <= 2 * h) << "step " << m->h[c] << " instead of " << h << " at " << x[b][i];
        if (!jp[b]) { MC_EXPECT(got != got) << "unrequested Jacobian written"; continue; }
        const double want = J[k * p.n() + p.Offset(b) + i];
        // Rounding of the values and of the perturbed coordinate, over the step.
        const double fscale = 200 * top * (p.linear ? 1 : top) + (m->cubic ? 100 * std::pow(top + 1, m->power) : 0), tol = m->cubic ? 1e-8 * (1 + std::abs(want)) : 2.3e-16 * 4 * (fscale / (m->cubic ? h * 1e3 : h) + std::abs(want) * std::max(1.0, std::abs(x[b][i]) / h)) + 1e-12 * std::abs(want);
        MC_EXPECT(std::abs(got - want) <= tol) << "d r" << k << "/d x" << b << "[" << i << "] = " << got << " instead of " << want << " (tolerance " << tol << ") x " << x[b][i];
      }
    }
  for (int b = 0; b < nb; ++b) MC_EXPECT(j[b].back() != j[b].back()) << "wrote past the Jacobian";
}
ceres::NumericDiffOptions Options(int k) {
  ceres::NumericDiffOptions o;
  if (k == 1) { o.relative_step_size = 1e-4; o.ridders_relative_initial_step_size = 1e-1; o.max_num_ridders_extrapolations = 4; }
  if (k == 2) { o.relative_step_size = 1e-9; o.ridders_step_shrink_factor = 1.5; o.ridders_epsilon = 1e-15; }
  return o;
}

template <ceres::NumericDiffMethodType kM, int R, int... Ns>
void Static(int residuals) {
  const int point = mc::Choose(2, "point"), values = mc::Choose(4, "values"), ok = mc::Choose(3, "options");
  const int nb = sizeof...(Ns);
  const int mask = mc::Choose((1 << nb) + 1, "mask") - 1;
  const int fail = values == 0 && ok == 0 ? mc::Choose(12, "fail at") - 1 : -1;
  Monitor m;
  m.p.sizes = {Ns...};
  m.p.m = residuals;
  m.fail_at = fail;
  Prepare(&m, kM, point, values);
  const auto o = Options(ok);
  using Cost = ceres::NumericDiffCostFunction<Functor, kM, R, Ns...>;
  Cost c(std::make_unique<Functor>(Functor{&m}), residuals, o);
  MC_EXPECT(c.num_residuals() == residuals && c.parameter_block_sizes() == std::vector<int>({Ns...}));
  Check(c, &m, kM, o, mask);
}
template <ceres::NumericDiffMethodType kM>
void StaticShapes() {
  switch (mc::Choose(7, "shape")) {
    case 0: return Static<kM, 1, 1>(1);
    case 1: return Static<kM, 2, 3>(2);
    case 2: return Static<kM, DYNAMIC, 2, 1>(3);
    case 3: return Static<kM, 3, 1, 2>(3);
    case 4: return Static<kM, 2, 1, 3, 1>(2);
    case 5: return Static<kM, DYNAMIC, 1, 1, 1, 2>(1);
    case 6: return Static<kM, 1, 2, 1, 1, 1, 1>(1);
  }
}
template <ceres::NumericDiffMethodType kM>
void Dynamic() {
  Monitor m;
  const int nb = mc::Range(1, 3, "blocks");
  for (int b = 0; b < nb; ++b) m.p.sizes.push_back(mc::Range(1, 3, "size"));
  m.p.m = mc::Range(1, 2, "residuals");
  const int values = mc::Choose(4, "values"), ok = mc::Choose(3, "options");
  const int mask = mc::Choose((1 << nb) + 1, "mask") - 1;
  m.fail_at = values == 0 && ok == 0 ? mc::Choose(12, "fail at") - 1 : -1;
  Prepare(&m, kM, 1, values);
  const auto o = Options(ok);
  if (mc::Flip("functor is a cost function")) {
    auto* w = new Wrapped(&m);
    ceres::DynamicNumericDiffCostFunction<ceres::CostFunction, kM> c(w, ceres::TAKE_OWNERSHIP, o);
    for (int s : m.p.sizes) c.AddParameterBlock(s);
    c.SetNumResiduals(m.p.m);
    Check(c, &m, kM, o, mask);
  } else {
    ceres::DynamicNumericDiffCostFunction<Functor, kM> c(new Functor{&m}, ceres::TAKE_OWNERSHIP, o);
    for (int s : m.p.sizes) c.AddParameterBlock(s);
    c.SetNumResiduals(m.p.m);
    Check(c, &m, kM, o, mask);
  }
}
struct FirstFunctor {
  Monitor* m;
  bool operator()(const double* x, double* cost) const { return m->Call(&x, cost); }
};
// Adapts a first order function to the interface Check() expects.
struct FirstAsCost {
  const ceres::FirstOrderFunction& f;
  bool Evaluate(double const* const* x, double* r, double** j) const { return f.Evaluate(x[0], r, j ? j[0] : nullptr); }
};
template <ceres::NumericDiffMethodType kM, int N>
void First() {
  const int point = mc::Choose(2, "point"), values = mc::Choose(4, "values"), ok = mc::Choose(3, "options");
  const int mask = mc::Choose(3, "mask") - 1;
  const bool dynamic = mc::Flip("dynamic size");
  const int fail = values == 0 && ok == 0 ? mc::Choose(12, "fail at") - 1 : -1;
  Monitor m;
  m.p.sizes = {N};
  m.fail_at = fail;
  Prepare(&m, kM, point, values);
  const auto o = Options(ok);
  if (dynamic) {
    ceres::NumericDiffFirstOrderFunction<FirstFunctor, kM, DYNAMIC> f(std::make_unique<FirstFunctor>(FirstFunctor{&m}), N, ceres::TAKE_OWNERSHIP, o);
    MC_EXPECT(f.NumParameters() == N);
    Check(FirstAsCost{f}, &m, kM, o, mask);
  } else {
    ceres::NumericDiffFirstOrderFunction<FirstFunctor, kM, N> f(std::make_unique<FirstFunctor>(FirstFunctor{&m}), o);
    MC_EXPECT(f.NumParameters() == N);
    Check(FirstAsCost{f}, &m, kM, o, mask);
  }
}
template <ceres::NumericDiffMethodType kM>
void FirstSizes() {
  switch (mc::Choose(3, "n")) {
    case 0: return First<kM, 1>();
    case 1: return First<kM, 2>();
    case 2: return First<kM, 4>();
  }
}
}  // namespace
MC_SCENARIO(numeric_static, .split = 4) {
  switch (mc::Choose(3, "method")) {
    case 0: return StaticShapes<FORWARD>();
    case 1: return StaticShapes<CENTRAL>();
    case 2: return StaticShapes<RIDDERS>();
  }
}
MC_SCENARIO(numeric_dynamic, .split = 4) {
  switch (mc::Choose(3, "method")) {
    case 0: return Dynamic<FORWARD>();
    case 1: return Dynamic<CENTRAL>();
    case 2: return Dynamic<RIDDERS>();
  }
}
MC_SCENARIO(numeric_first_order, .split = 3) {
  switch (mc::Choose(3, "method")) {
    case 0: return FirstSizes<FORWARD>();
    case 1: return FirstSizes<CENTRAL>();
    case 2: return FirstSizes<RIDDERS>();
  }
}
// Ridders' extrapolation removes the cubic term.
MC_SCENARIO(ridders_cubic, .split = 2) {
  Monitor m;
  m.p.sizes = {2, 1};
  m.p.m = mc::Range(1, 2, "residuals");
  m.cubic = mc::Pick({1.0, -3.0}, "cubic");
  m.power = mc::Pick({3, 5, 7}, "power");  // needs 1, 2, 3 levels
  const int ok = mc::Choose(3, "options");
  Prepare(&m, RIDDERS, mc::Choose(4, "point"), mc::Pick({0, 3}, "values"));
  // Away from zero all error terms are present and extrapolation proceeds in
  // order; at zero the method may legitimately stop early.
  if (m.power > 3 && (m.x[0][0] == 0 || ok == 1)) { mc::Trivial(); return; }
  const auto o = Options(ok);
  ceres::DynamicNumericDiffCostFunction<Functor, RIDDERS> c(new Functor{&m}, ceres::TAKE_OWNERSHIP, o);
  for (int s : m.p.sizes) c.AddParameterBlock(s);
  c.SetNumResiduals(m.p.m);
  Check(c, &m, RIDDERS, o, mc::Choose(5, "mask") - 1);
}
