// Integer-valued polynomial test functions with hand-written Jacobians: with
// small integer arguments every value is exact, so results compare exactly.
#ifndef VERIF_HARNESS_POLYFUN_H_
#define VERIF_HARNESS_POLYFUN_H_
#include <tuple>
#include <type_traits>
#include <vector>

#include "ceres/cost_function.h"
#include "util.h"

namespace poly {
// r_k = b_k + sum_i c_ki x_i + sum_i q_ki x_i x_{i+1+k mod n}
struct Poly {
  std::vector<int> sizes;
  int m = 1;
  int salt = 0;
  bool linear = false;
  int n() const { int s = 0; for (int v : sizes) s += v; return s; }
  int B(int k) const { return (k * 5 + salt * 3) % 7 - 3; }
  int C(int k, int i) const { return (k * 7 + i * 11 + salt * 13 + (i * k) % 3) % 9 - 4; }
  int Q(int k, int i) const { return linear ? 0 : (k * 3 + i * 5 + salt * 7) % 5 - 2; }
  int Other(int k, int i, int n) const { return (i + 1 + k) % n; }

  template <typename T>
  void Eval(T const* const* p, T* r) const {
    const int N = n();
    std::vector<const T*> x;
    for (size_t b = 0; b < sizes.size(); ++b)
      for (int j = 0; j < sizes[b]; ++j) x.push_back(p[b] + j);
    for (int k = 0; k < m; ++k) {
      T s = T(static_cast<double>(B(k)));
      for (int i = 0; i < N; ++i) {
        s = s + *x[i] * static_cast<double>(C(k, i));
        if (!linear) s = s + *x[i] * *x[Other(k, i, N)] * static_cast<double>(Q(k, i));
      }
      r[k] = s;
    }
  }
  // Row major m x n, all blocks side by side.
  std::vector<double> Jacobian(double const* const* p) const {
    const int N = n();
    std::vector<double> x, J(m * N, 0.0);
    for (size_t b = 0; b < sizes.size(); ++b) x.insert(x.end(), p[b], p[b] + sizes[b]);
    for (int k = 0; k < m; ++k)
      for (int i = 0; i < N; ++i) {
        const int o = Other(k, i, N);
        J[k * N + i] += C(k, i) + Q(k, i) * x[o];
        J[k * N + o] += Q(k, i) * x[i];
      }
    return J;
  }
  int Offset(int b) const { int s = 0; for (int i = 0; i < b; ++i) s += sizes[i]; return s; }
};

// The polynomial as an ordinary cost function.
class Cost : public ceres::CostFunction {
 public:
  explicit Cost(const Poly& p) : p_(p) {
    set_num_residuals(p.m);
    for (int s : p.sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    p_.Eval(x, r);
    if (j) {
      const auto J = p_.Jacobian(x);
      const int N = p_.n();
      for (size_t b = 0; b < p_.sizes.size(); ++b) {
        if (!j[b]) continue;
        for (int k = 0; k < p_.m; ++k)
          for (int i = 0; i < p_.sizes[b]; ++i) j[b][k * p_.sizes[b] + i] = J[k * N + p_.Offset(b) + i];
      }
    }
    return true;
  }
  const Poly& poly() const { return p_; }

 private:
  Poly p_;
};

// The polynomial as a templated functor, in both calling conventions.  `calls`
// counts invocations; the one numbered `fail_at` reports failure.
struct Functor {
  Poly p;
  int fail_at = -1;
  mutable int calls = 0;
  template <typename T>
  bool Run(T const* const* x, T* r) const {
    const bool fail = calls++ == fail_at;
    p.Eval(x, r);
    return !fail;
  }
  template <typename T>
  bool operator()(T const* const* x, T* r) const { return Run(x, r); }
  template <typename T, typename... Rest, typename = std::enable_if_t<!std::is_pointer_v<T>>>
  bool operator()(const T* x0, Rest*... rest) const {
    const T* all[] = {x0, rest...};
    T* out = const_cast<T*>(all[sizeof...(Rest)]);
    return Run<T>(all, out);
  }
};

// Parameter values: distinct small integers.
inline std::vector<std::vector<double>> Values(const std::vector<int>& sizes, int salt) {
  std::vector<std::vector<double>> v;
  int c = 0;
  for (int s : sizes) {
    v.emplace_back(s);
    for (int j = 0; j < s; ++j, ++c) v.back()[j] = ((c * 5 + salt * 3) % 7) - 3;
  }
  return v;
}
}  // namespace poly
#endif
