// C19: DynamicAutoDiffCostFunction: every block structure x request x stride.
#include "c19_autodiff.h"
#include "ceres/dynamic_autodiff_cost_function.h"
namespace {
template <int Stride>
void Run() {
  const int maxb = mc::Bound(4, 5);
  const int nb = mc::Range(1, maxb, "blocks");
  std::vector<int> sizes;
  for (int b = 0; b < nb; ++b) sizes.push_back(mc::Range(1, nb <= 3 ? 4 : 3, "size"));
  const int m = mc::Pick({1, 3}, "residuals");
  poly::Functor f;
  f.p = {sizes, m, 1};
  const int mask = mc::Choose(1 << nb, "mask");
  const int what = mc::Choose(3, "what");
  if (what < 2) {
    auto* g = new poly::Functor(f);
    ceres::DynamicAutoDiffCostFunction<poly::Functor, Stride> c(g);
    for (int s : sizes) c.AddParameterBlock(s);
    c.SetNumResiduals(m);
    c19::CheckRequest(c, f.p, 1, mask);
    c19::CheckRequest(c, f.p, 2, what == 0 ? -1 : (1 << nb) - 1 - mask);
  } else {
    f.fail_at = mc::Choose(6, "fail at");
    auto* g = new poly::Functor(f);
    ceres::DynamicAutoDiffCostFunction<poly::Functor, Stride> c(g);
    for (int s : sizes) c.AddParameterBlock(s);
    c.SetNumResiduals(m);
    c19::CheckFailure(c, *g, f.p, mask);
  }
}
}  // namespace
MC_SCENARIO(dynamic_shapes, .split = 4, .weight = 4) {
  switch (mc::Choose(7, "stride")) {
    case 0: return Run<1>();
    case 1: return Run<2>();
    case 2: return Run<3>();
    case 3: return Run<4>();
    case 4: return Run<5>();
    case 5: return Run<7>();
    case 6: return Run<12>();
  }
}
MC_SCENARIO(dynamic_misuse, .single = true) {
  poly::Functor f;
  f.p = {{2}, 1, 0};
  ceres::DynamicAutoDiffCostFunction<poly::Functor, 2> c(new poly::Functor(f));
  c.AddParameterBlock(2);
  double x[2] = {1, 2}, r[1];
  const double* p[] = {x};
  MC_EXPECT(mc::Dies([&] { c.Evaluate(p, r, nullptr); })) << "evaluation without a number of residuals was accepted";
}
