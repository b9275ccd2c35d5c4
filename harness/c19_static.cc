// C19: AutoDiffCostFunction, all request patterns of many fixed shapes.
#include "c19_autodiff.h"
#include "ceres/autodiff_cost_function.h"
namespace {
using ceres::DYNAMIC;
template <int R, int... Ns>
void Shape(int residuals) {
  const int nb = sizeof...(Ns);
  const int what = mc::Choose(3, "what");
  const int salt = mc::Choose(nb <= 4 ? 3 : 1, "salt");
  poly::Functor f;
  f.p = {{Ns...}, residuals, salt};
  const auto make = [&](poly::Functor* g) {
    if constexpr (R == DYNAMIC) return std::make_unique<ceres::AutoDiffCostFunction<poly::Functor, R, Ns...>>(g, residuals);
    else return std::make_unique<ceres::AutoDiffCostFunction<poly::Functor, R, Ns...>>(g);
  };
  const int masks = nb <= 6 ? (1 << nb) : 14;
  const auto mask = [&](int i) { return nb <= 6 ? i : (i < 10 ? 1 << i : i == 10 ? 0 : i == 11 ? 0x3ff : i == 12 ? 0x155 : 0x2aa); };
  if (what == 0) {  // one object, two requests in a row
    auto c = make(new poly::Functor(f));
    MC_EXPECT(c->num_residuals() == residuals && c->parameter_block_sizes() == std::vector<int>({Ns...}));
    c19::CheckRequest(*c, f.p, mc::Choose(4, "point"), mask(mc::Choose(masks, "first")));
    c19::CheckRequest(*c, f.p, mc::Choose(2, "point2"), nb <= 3 ? mask(mc::Choose(masks, "second")) : mc::Flip("second") ? -1 : mask(masks - 1));
  } else if (what == 1) {
    auto c = make(new poly::Functor(f));
    c19::CheckRequest(*c, f.p, mc::Choose(4, "point"), -1);
    c19::CheckRequest(*c, f.p, 2, mask(mc::Choose(masks, "mask")));
  } else {
    f.fail_at = 0;
    auto* g = new poly::Functor(f);
    auto c = make(g);
    c19::CheckFailure(*c, *g, f.p, mc::Flip("null") ? -1 : mask(mc::Choose(masks, "mask")));
  }
}
}  // namespace
MC_SCENARIO(static_shapes, .split = 3) {
  switch (mc::Choose(18, "shape")) {
    case 0: return Shape<1, 1>(1);
    case 1: return Shape<2, 3>(2);
    case 2: return Shape<DYNAMIC, 2>(3);
    case 3: return Shape<3, 1, 2>(3);
    case 4: return Shape<1, 2, 1, 3>(1);
    case 5: return Shape<DYNAMIC, 3, 1, 2>(4);
    case 6: return Shape<2, 1, 1, 1, 1>(2);
    case 7: return Shape<5, 3, 2, 1, 2>(5);
    case 8: return Shape<2, 1, 2, 1, 2, 1>(2);
    case 9: return Shape<DYNAMIC, 1, 1, 1, 1, 1, 1>(2);
    case 10: return Shape<2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>(2);
    case 11: return Shape<3, 4, 4>(3);
    case 12: return Shape<2, 30, 25>(2);          // jets on the heap
    case 13: return Shape<22, 2, 1>(22);          // residuals on the heap
    case 14: return Shape<DYNAMIC, 1, 3>(25);
    case 15: return Shape<DYNAMIC, 50>(20);       // exactly at the limits
    case 16: return Shape<20, 51>(20);
    case 17: return Shape<21, 49, 1>(21);
  }
}
