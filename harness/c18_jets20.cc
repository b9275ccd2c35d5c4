// C18: the functions that exist under C++20 only, and the ones that switch
// implementation there.
#include "ceres/jet.h"
#include "util.h"

using J = ceres::Jet<double, 3>;
namespace {
J Make(double a, int k) {
  static const double d[4][3] = {{0, 0, 0}, {1, 0, -2}, {0.5, 3, 1}, {-1, -1, 4}};
  J j(a);
  for (int i = 0; i < 3; ++i) j.v[i] = d[k][i];
  return j;
}
const std::vector<double> kVals = {0.0, 1.0, -2.0, 0.25, 3.5, 1e100, -1e-100};
}  // namespace
#ifndef CERES_HAS_CPP20
#error "this harness is compiled as C++20"
#endif
MC_SCENARIO(lerp_midpoint, .split = 2) {
  const double a = mc::Pick(kVals, "a"), b = mc::Pick(kVals, "b"), t = mc::Pick({0.0, 0.25, 0.5, 1.0, -1.0, 2.0}, "t");
  const int da = mc::Choose(4), db = mc::Choose(4), dt = mc::Choose(4);
  const J ja = Make(a, da), jb = Make(b, db), jt = Make(t, dt);
  const J r = lerp(ja, jb, jt), m = midpoint(ja, jb);
  mc::Step(2);
  MC_REQUIRE(vu::Near(r.a, std::lerp(a, b, t), 1e-14) && vu::Near(m.a, std::midpoint(a, b), 1e-14)) << "value";
  for (int i = 0; i < 3; ++i) {
    const double e = (1 - t) * ja.v[i] + t * jb.v[i] + (b - a) * jt.v[i];
    MC_REQUIRE(vu::Near(r.v[i], e, 1e-13)) << "lerp derivative " << r.v[i] << " expected " << e << " a=" << a << " b=" << b << " t=" << t;
    MC_REQUIRE(vu::Near(m.v[i], 0.5 * (ja.v[i] + jb.v[i]), 1e-14)) << "midpoint derivative";
    mc::Outcome(mc::H()(r.v[i])(m.v[i])(i).h);
  }
}
MC_SCENARIO(minmax_ties, .split = 1) {
  const double a = mc::Pick(kVals, "a"), b = mc::Pick(kVals, "b");
  const int da = mc::Choose(4), db = mc::Choose(4);
  const J x = Make(a, da), y = Make(b, db), hi = fmax(x, y), lo = fmin(x, y);
  mc::Step(2);
  MC_REQUIRE(hi.a == std::max(a, b) && lo.a == std::min(a, b)) << "value";
  for (int i = 0; i < 3; ++i) {
    const double avg = 0.5 * (x.v[i] + y.v[i]);
    MC_REQUIRE(vu::Near(hi.v[i], a > b ? x.v[i] : a < b ? y.v[i] : avg, 1e-14)) << "fmax derivative";
    MC_REQUIRE(vu::Near(lo.v[i], a < b ? x.v[i] : a > b ? y.v[i] : avg, 1e-14)) << "fmin derivative";
    mc::Outcome(mc::H()(hi.v[i])(lo.v[i])(i).h);
  }
}
