// Shared by the C19 sources.
#ifndef VERIF_C19_H_
#define VERIF_C19_H_
#include "polyfun.h"
namespace c19 {
// Evaluates `cost` at the integer point `salt` with the given request (mask <0:
// null array) and compares everything with the polynomial `p`.
template <typename C>
void CheckRequest(const C& cost, const poly::Poly& p, int salt, int mask) {
  const auto values = poly::Values(p.sizes, salt);
  const int nb = static_cast<int>(p.sizes.size());
  std::vector<std::unique_ptr<vu::Buf<double>>> x, j;
  std::vector<const double*> xp;
  std::vector<double*> jp;
  for (int b = 0; b < nb; ++b) {
    x.push_back(std::make_unique<vu::Buf<double>>(p.sizes[b]));
    for (int i = 0; i < p.sizes[b]; ++i) (*x[b])[i] = values[b][i];
    xp.push_back(x[b]->data());
    j.push_back(std::make_unique<vu::Buf<double>>(p.sizes[b] * p.m));
    for (int i = 0; i < p.sizes[b] * p.m; ++i) (*j[b])[i] = vu::NaN();
    jp.push_back(mask >= 0 && (mask >> b & 1) ? j[b]->data() : nullptr);
  }
  vu::Buf<double> r(p.m);
  for (int k = 0; k < p.m; ++k) r[k] = vu::NaN();
  std::vector<double> er(p.m);
  p.Eval(xp.data(), er.data());
  const auto J = p.Jacobian(xp.data());
  mc::Step();
  const bool ok = cost.Evaluate(xp.data(), r.data(), mask < 0 ? nullptr : jp.data());
  MC_EXPECT(ok) << "sizes " << vu::Str(p.sizes, nb) << " mask " << mask;
  for (int k = 0; k < p.m; ++k) MC_EXPECT(r[k] == er[k]) << "residual " << k << " " << r[k] << " instead of " << er[k] << " sizes " << vu::Str(p.sizes, nb) << " mask " << mask;
  for (int b = 0; b < nb; ++b) {
    for (int i = 0; i < p.sizes[b]; ++i) MC_EXPECT((*x[b])[i] == values[b][i]) << "parameter changed";
    for (int k = 0; k < p.m; ++k)
      for (int i = 0; i < p.sizes[b]; ++i) {
        const double got = (*j[b])[k * p.sizes[b] + i];
        if (jp[b])
          MC_EXPECT(got == J[k * p.n() + p.Offset(b) + i]) << "d r" << k << " / d x" << b << "[" << i << "] = " << got << " instead of "
                                                          << J[k * p.n() + p.Offset(b) + i] << " sizes " << vu::Str(p.sizes, nb) << " mask " << mask;
        else
          MC_EXPECT(got != got) << "unrequested block " << b << " written, mask " << mask;
      }
  }
  mc::Outcome(mc::H()(salt)(mask)(p.salt)(p.m)(p.sizes)(er).h);
}
// Same with a functor that fails at call `n`: evaluation must report failure
// whenever the functor was called that often.
template <typename C, typename F>
void CheckFailure(const C& cost, const F& functor, const poly::Poly& p, int mask) {
  const auto values = poly::Values(p.sizes, 1);
  std::vector<const double*> xp;
  std::vector<std::vector<double>> j(p.sizes.size());
  std::vector<double*> jp;
  for (size_t b = 0; b < p.sizes.size(); ++b) {
    xp.push_back(values[b].data());
    j[b].assign(p.sizes[b] * p.m, 0);
    jp.push_back(mask >= 0 && (mask >> b & 1) ? j[b].data() : nullptr);
  }
  std::vector<double> r(p.m);
  const bool ok = cost.Evaluate(xp.data(), r.data(), mask < 0 ? nullptr : jp.data());
  MC_EXPECT(ok == (functor.calls <= functor.fail_at)) << "functor failed at call " << functor.fail_at << " of " << functor.calls << ", Evaluate returned " << ok;
  if (!ok) mc::Cover("failure_reported");
}
}  // namespace c19
#endif
