// Small nonlinear least squares problems with an independent dense reference
// model: polynomial residuals with integer coefficients, exact and curved losses,
// integer manifolds, bounds and constant blocks.
#ifndef VERIF_HARNESS_NLS_H_
#define VERIF_HARNESS_NLS_H_
#include <algorithm>
#include <functional>
#include <map>

#include "ceres/crs_matrix.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/problem.h"
#include "polyfun.h"

namespace nls {
constexpr double kMax = std::numeric_limits<double>::max();

struct Dense {
  int rows = 0, cols = 0;
  std::vector<double> v;
  Dense() = default;
  Dense(int r, int c) : rows(r), cols(c), v(static_cast<size_t>(r) * c, 0.0) {}
  double& operator()(int r, int c) { return v[static_cast<size_t>(r) * cols + c]; }
  double operator()(int r, int c) const { return v[static_cast<size_t>(r) * cols + c]; }
};
inline Dense FromCRS(const ceres::CRSMatrix& m) {
  Dense d(m.num_rows, m.num_cols);
  for (int r = 0; r < m.num_rows; ++r)
    for (int k = m.rows[r]; k < m.rows[r + 1]; ++k) d(r, m.cols[k]) += m.values[k];
  return d;
}
template <typename M>
Dense FromEigen(const M& m) {
  Dense d(m.rows(), m.cols());
  for (int r = 0; r < d.rows; ++r) for (int c = 0; c < d.cols; ++c) d(r, c) = m(r, c);
  return d;
}
inline std::string Diff(const Dense& a, const Dense& b, double tol) {
  std::ostringstream s;
  s.precision(17);
  if (a.rows != b.rows || a.cols != b.cols) {
    s << "shape " << a.rows << "x" << a.cols << " instead of " << b.rows << "x" << b.cols;
    return s.str();
  }
  for (int r = 0; r < a.rows; ++r)
    for (int c = 0; c < a.cols; ++c)
      if (!(tol == 0 ? a(r, c) == b(r, c) : vu::Near(a(r, c), b(r, c), tol))) {
        s << "(" << r << "," << c << ") " << a(r, c) << " instead of " << b(r, c);
        return s.str();
      }
  return "";
}
inline std::string Diff(const std::vector<double>& a, const std::vector<double>& b, double tol) {
  Dense x(static_cast<int>(a.size()), 1), y(static_cast<int>(b.size()), 1);
  x.v = a;
  y.v = b;
  return Diff(x, y, tol);
}

// ---- losses ----------------------------------------------------------------
enum { kNull, kFour, kConcave, kConvex, kNumLosses };
inline void Rho(int kind, double s, double r[3]) {
  switch (kind) {
    case kNull: r[0] = s; r[1] = 1; r[2] = 0; break;
    case kFour: r[0] = 4 * s; r[1] = 4; r[2] = 0; break;  // sqrt is exact
    case kConcave: { const double q = std::sqrt(1 + s / 4); r[0] = 8 * (q - 1); r[1] = 1 / q; r[2] = -1 / (8 * q * q * q); break; }
    default: r[0] = s + s * s / 64; r[1] = 1 + s / 32; r[2] = 1.0 / 32; break;
  }
}
struct Loss : ceres::LossFunction {
  int kind;
  explicit Loss(int k) : kind(k) {}
  void Evaluate(double s, double r[3]) const override { Rho(kind, s, r); }
};

// ---- manifolds -------------------------------------------------------------
enum { kNoManifold, kFixFirst, kFixAll, kTwisted, kNumManifolds };
// x + A(x) d with small integer A and one tangent dimension less (if possible).
struct Twisted : ceres::Manifold {
  int n, t;
  explicit Twisted(int n) : n(n), t(std::max(1, n - 1)) {}
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return t; }
  double A(const double* x, int i, int j) const { return (i == j ? 2 : 0) + (i + 2 * j + n) % 3 - 1 + (i == n - 1 && j == 0 ? x[0] : 0); }
  bool Plus(const double* x, const double* d, double* y) const override {
    std::vector<double> o(n);
    for (int i = 0; i < n; ++i) { o[i] = x[i]; for (int j = 0; j < t; ++j) o[i] += A(x, i, j) * d[j]; }
    std::copy(o.begin(), o.end(), y);
    return true;
  }
  bool PlusJacobian(const double* x, double* J) const override {
    for (int i = 0; i < n; ++i) for (int j = 0; j < t; ++j) J[i * t + j] = A(x, i, j);
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};

struct Block {
  int size = 1;
  bool constant = false;
  int manifold = kNoManifold;
  std::vector<double> x;         // start value
  std::vector<double> lo, hi;    // empty: unbounded
  int Tangent() const {
    switch (manifold) {
      case kFixFirst: return size - 1;
      case kFixAll: return 0;
      case kTwisted: return std::max(1, size - 1);
      default: return size;
    }
  }
  bool Fixed() const { return constant || Tangent() == 0; }
  // Ambient x tangent.
  Dense PlusJacobian(const double* p) const {
    Dense J(size, Tangent());
    if (manifold == kNoManifold) { for (int i = 0; i < size; ++i) J(i, i) = 1; }
    if (manifold == kFixFirst) { for (int i = 1; i < size; ++i) J(i, i - 1) = 1; }
    if (manifold == kTwisted) Twisted(size).PlusJacobian(p, J.v.data());
    return J;
  }
  std::vector<double> Plus(const double* p, const double* d, bool project) const {
    std::vector<double> y(p, p + size);
    const Dense J = PlusJacobian(p);
    for (int i = 0; i < size; ++i) for (int j = 0; j < J.cols; ++j) y[i] += J(i, j) * d[j];
    if (project)
      for (int i = 0; i < size; ++i) {
        if (!lo.empty()) y[i] = std::max(y[i], lo[i]);
        if (!hi.empty()) y[i] = std::min(y[i], hi[i]);
      }
    return y;
  }
};
struct Res {
  std::vector<int> blocks;
  int m = 1;
  int salt = 0;
  bool linear = false;
  int loss = kNull;
};

// Polynomial cost that can be told to misbehave.
struct Fault {
  int kind = 0;  // 0 none, else see Apply
  int pos = 0;   // which residual or Jacobian entry
};
enum { kOk, kReturnFalse, kNanResidual, kInfResidual, kUnsetResidual, kHugeResidual, kNanJacobian, kInfJacobian, kUnsetJacobian, kNumFaults };
class FCost : public poly::Cost {
 public:
  explicit FCost(const poly::Poly& p) : poly::Cost(p) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    if (hook) { const int h = hook(x, r, j); if (h >= 0) return h; }
    const double keep_r = r[fault.pos % num_residuals()];
    double keep_j = 0, *pj = nullptr;
    if (j && fault.kind >= kNanJacobian) {
      int pos = fault.pos;
      for (size_t b = 0; b < parameter_block_sizes().size(); ++b) {
        const int n = num_residuals() * parameter_block_sizes()[b];
        if (pos < n) { pj = j[b] ? j[b] + pos : nullptr; break; }
        pos -= n;
      }
      if (pj) keep_j = *pj;
    }
    const bool ok = poly::Cost::Evaluate(x, r, j);
    double& rk = r[fault.pos % num_residuals()];
    switch (fault.kind) {
      case kReturnFalse: return false;
      case kNanResidual: rk = vu::NaN(); break;
      case kInfResidual: rk = -vu::Inf(); break;
      case kUnsetResidual: rk = keep_r; break;
      case kHugeResidual: rk = 1e200; break;
      case kNanJacobian: if (pj) *pj = vu::NaN(); break;
      case kInfJacobian: if (pj) *pj = vu::Inf(); break;
      case kUnsetJacobian: if (pj) *pj = keep_j; break;
    }
    return ok;
  }
  mutable Fault fault;
  // Called first; a result >= 0 replaces the evaluation.
  std::function<int(double const* const*, double*, double**)> hook;
};

struct Eval {
  double cost = 0;
  std::vector<double> r, g;
  Dense J;
};

// The problem as plain data, with the dense reference evaluation.
struct Model {
  std::vector<Block> blocks;
  std::vector<Res> res;
  poly::Poly PolyOf(int i) const {
    poly::Poly p;
    for (int b : res[i].blocks) p.sizes.push_back(blocks[b].size);
    p.m = res[i].m;
    p.salt = res[i].salt;
    p.linear = res[i].linear;
    return p;
  }
  std::vector<std::vector<double>> Start() const {
    std::vector<std::vector<double>> v;
    for (auto& b : blocks) v.push_back(b.x);
    return v;
  }
  double CostOf(int i, const std::vector<std::vector<double>>& x, bool loss) const {
    const poly::Poly p = PolyOf(i);
    std::vector<const double*> ptr;
    for (int b : res[i].blocks) ptr.push_back(x[b].data());
    std::vector<double> r(p.m);
    p.Eval(ptr.data(), r.data());
    double s = 0, rho[3];
    for (double v : r) s += v * v;
    Rho(loss ? res[i].loss : kNull, s, rho);
    return rho[0] / 2;
  }
  // `columns`: parameter blocks given columns, in order; `rows`: residual blocks
  // in order.  Fixed blocks keep zero columns.
  Eval Evaluate(const std::vector<std::vector<double>>& x, const std::vector<int>& rows, const std::vector<int>& columns, bool loss) const {
    Eval e;
    int nr = 0, nc = 0;
    std::map<int, int> col;
    for (int b : columns) { col[b] = nc; nc += blocks[b].Tangent(); }
    for (int i : rows) nr += res[i].m;
    e.r.resize(nr);
    e.g.assign(nc, 0.0);
    e.J = Dense(nr, nc);
    int row = 0;
    for (int i : rows) {
      const poly::Poly p = PolyOf(i);
      std::vector<const double*> ptr;
      for (int b : res[i].blocks) ptr.push_back(x[b].data());
      std::vector<double> r(p.m);
      p.Eval(ptr.data(), r.data());
      const auto J = p.Jacobian(ptr.data());
      double s = 0, rho[3];
      for (double v : r) s += v * v;
      Rho(loss ? res[i].loss : kNull, s, rho);
      e.cost += rho[0] / 2;
      const double sq = std::sqrt(rho[1]);
      double alpha = 0;
      if (s > 0 && rho[2] > 0) alpha = 1 - std::sqrt(1 + 2 * s * rho[2] / rho[1]);
      for (size_t k = 0; k < res[i].blocks.size(); ++k) {
        const int b = res[i].blocks[k];
        if (!col.count(b) || blocks[b].Fixed()) continue;
        const Dense P = blocks[b].PlusJacobian(x[b].data());
        Dense L(p.m, P.cols);
        for (int a = 0; a < p.m; ++a)
          for (int c = 0; c < P.cols; ++c)
            for (int q = 0; q < P.rows; ++q) L(a, c) += J[a * p.n() + p.Offset(static_cast<int>(k)) + q] * P(q, c);
        for (int c = 0; c < P.cols; ++c) {
          double rj = 0;
          for (int a = 0; a < p.m; ++a) rj += r[a] * L(a, c);
          e.g[col[b] + c] += rho[1] * rj;
          for (int a = 0; a < p.m; ++a) e.J(row + a, col[b] + c) += sq * (L(a, c) - (alpha == 0 ? 0 : alpha / s * r[a] * rj));
        }
      }
      for (int a = 0; a < p.m; ++a) e.r[row + a] = sq / (1 - alpha) * r[a];
      row += p.m;
    }
    return e;
  }
  std::vector<int> AllRows() const { std::vector<int> v; for (size_t i = 0; i < res.size(); ++i) v.push_back(static_cast<int>(i)); return v; }
  std::vector<int> AllCols() const { std::vector<int> v; for (size_t i = 0; i < blocks.size(); ++i) v.push_back(static_cast<int>(i)); return v; }
  bool Exact() const { for (auto& r : res) if (r.loss >= kConcave) return false; return true; }
};

// The same problem built with the library.
struct World {
  Model m;
  std::vector<std::vector<double>> x;  // user memory
  std::vector<FCost*> costs;
  std::vector<std::unique_ptr<ceres::CostFunction>> own_costs;
  std::vector<std::unique_ptr<ceres::LossFunction>> own_losses;
  std::vector<std::unique_ptr<ceres::Manifold>> own_manifolds;
  std::vector<ceres::ResidualBlockId> ids;
  std::unique_ptr<ceres::Problem> problem;

  explicit World(const Model& model, ceres::Problem::Options o = {}) : m(model), x(model.Start()) {
    o.cost_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    o.loss_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    o.manifold_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    problem = std::make_unique<ceres::Problem>(o);
    for (size_t b = 0; b < m.blocks.size(); ++b) {
      const Block& k = m.blocks[b];
      ceres::Manifold* man = nullptr;
      std::vector<int> all;
      for (int i = 0; i < k.size; ++i) all.push_back(i);
      if (k.manifold == kFixFirst) man = new ceres::SubsetManifold(k.size, {0});
      if (k.manifold == kFixAll) man = new ceres::SubsetManifold(k.size, all);
      if (k.manifold == kTwisted) man = new Twisted(k.size);
      own_manifolds.emplace_back(man);
      problem->AddParameterBlock(x[b].data(), k.size, man);
      if (k.constant) problem->SetParameterBlockConstant(x[b].data());
      for (size_t i = 0; i < k.lo.size(); ++i) problem->SetParameterLowerBound(x[b].data(), static_cast<int>(i), k.lo[i]);
      for (size_t i = 0; i < k.hi.size(); ++i) problem->SetParameterUpperBound(x[b].data(), static_cast<int>(i), k.hi[i]);
    }
    for (size_t i = 0; i < m.res.size(); ++i) {
      auto* c = new FCost(m.PolyOf(static_cast<int>(i)));
      own_costs.emplace_back(c);
      costs.push_back(c);
      own_losses.emplace_back(m.res[i].loss == kNull ? nullptr : new Loss(m.res[i].loss));
      std::vector<double*> p;
      for (int b : m.res[i].blocks) p.push_back(x[b].data());
      ids.push_back(problem->AddResidualBlock(c, own_losses.back().get(), p.data(), static_cast<int>(p.size())));
    }
  }
};

// Every ordered selection without repetition of {0..n-1}, the empty one first.
inline std::vector<std::vector<int>> OrderedSublists(int n) {
  std::vector<std::vector<int>> out = {{}};
  for (size_t k = 0; k < out.size(); ++k)
    for (int i = 0; i < n; ++i)
      if (std::find(out[k].begin(), out[k].end(), i) == out[k].end()) {
        auto v = out[k];
        v.push_back(i);
        out.push_back(v);
      }
  return out;
}
}  // namespace nls
#endif
