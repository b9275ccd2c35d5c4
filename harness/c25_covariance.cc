// C25: covariance blocks against the definition, for every small problem
// structure, request, memory order and query.
#include "ceres/covariance.h"
#include "ceres/cost_function.h"
#include "ceres/covariance_impl.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/parallel_utils.h"
#include "ceres/problem.h"
#include "linref.h"

namespace {
using namespace lin;
using ceres::Covariance;
using ceres::Problem;

// r = J x - b with any of a failure or a bad value.
struct LinearCost : ceres::CostFunction {
  D j;
  vector<int> sizes;
  vector<double> b;
  int fault = 0;  // 1: returns false, 2: NaN in the Jacobian
  bool curved = false;  // the Jacobian depends on the point
  LinearCost(const D& j, vector<int> sizes, vector<double> b) : j(j), sizes(sizes), b(b) {
    set_num_residuals(j.r);
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* x, double* r, double** jac) const override {
    if (fault == 1) return false;
    for (int i = 0; i < j.r; ++i) {
      r[i] = -b[i];
      int c = 0;
      for (size_t k = 0; k < sizes.size(); ++k)
        for (int q = 0; q < sizes[k]; ++q, ++c) {
          r[i] += j(i, c) * x[k][q];
          if (jac != nullptr && jac[k] != nullptr) jac[k][i * sizes[k] + q] = fault == 2 && i == 0 && c == 0 ? vu::NaN() : j(i, c) * (curved ? 1 + 0.5 * x[k][q] : 1);
        }
    }
    return true;
  }
};
// Two dimensions moved along a line, or all of them scaled and mixed.
struct Scaled : ceres::Manifold {
  D p;
  explicit Scaled(const D& p) : p(p) {}
  int AmbientSize() const override { return p.r; }
  int TangentSize() const override { return p.c; }
  bool Plus(const double* x, const double* d, double* y) const override {
    for (int i = 0; i < p.r; ++i) {
      double v = x[i];
      for (int j = 0; j < p.c; ++j) v += p(i, j) * d[j];
      y[i] = v;
    }
    return true;
  }
  bool PlusJacobian(const double*, double* j) const override {
    std::copy(p.v.begin(), p.v.end(), j);
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};
// The tangent turns with the point; one object serves many blocks.
struct Turning : ceres::Manifold {
  static D At(const double* x) {
    D p(2, 1);
    p(0, 0) = 2 + x[0];
    p(1, 0) = x[1] - 3;
    return p;
  }
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 1; }
  bool Plus(const double* x, const double* d, double* y) const override {
    const D p = At(x);
    for (int i = 0; i < 2; ++i) y[i] = x[i] + p(i, 0) * d[0];
    return true;
  }
  bool PlusJacobian(const double* x, double* j) const override {
    const D p = At(x);
    std::copy(p.v.begin(), p.v.end(), j);
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};
D M(int r, int c, vector<double> v) {
  D d(r, c);
  d.v = v;
  return d;
}
enum Kind { FREE, CONSTANT, FIX_FIRST, SCALED, UNUSED, FIX_ALL };
struct Prob {
  vector<int> sizes, kinds;
  vector<double> memory;
  vector<double*> x;
  std::unique_ptr<Problem> problem;
  vector<LinearCost*> costs;
  vector<D> plus;         // ambient x tangent
  vector<int> offset;     // tangent offset, -1: not varying
  D j;                    // tangent Jacobian, loss applied or not
  ceres::Manifold* turning = nullptr;
  bool curved = false;
  int n = 0;
  Prob(vector<int> sizes, vector<int> kinds, vector<int> memory_order, const vector<double>* values = nullptr) : sizes(sizes), kinds(kinds) {
    int total = 0;
    for (int s : sizes) total += s;
    memory.resize(total);
    for (int i = 0; i < total; ++i) memory[i] = values ? (*values)[i] : i % 3 - 1;
    x.resize(sizes.size());
    int at = 0;
    for (int b : memory_order) {
      x[b] = memory.data() + at;
      at += sizes[b];
    }
    Problem::Options po;
    problem = std::make_unique<Problem>(po);
    for (size_t b = 0; b < sizes.size(); ++b) {
      problem->AddParameterBlock(x[b], sizes[b]);
      const int s = sizes[b];
      D p = Identity(s);
      if (kinds[b] == CONSTANT) {
        problem->SetParameterBlockConstant(x[b]);
      } else if (kinds[b] == FIX_FIRST && s > 1) {
        problem->SetManifold(x[b], new ceres::SubsetManifold(s, {0}));
        p = D(s, s - 1);
        for (int i = 1; i < s; ++i) p(i, i - 1) = 1;
      } else if (kinds[b] == SCALED) {
        p = s == 1 ? M(1, 1, {3}) : s == 2 ? Turning::At(x[b]) : M(3, 2, {1, 2, 0, 1, -1, 1});
        if (s == 2 && turning == nullptr) turning = new Turning;
        problem->SetManifold(x[b], s == 2 ? turning : static_cast<ceres::Manifold*>(new Scaled(p)));
      } else if (kinds[b] == FIX_ALL) {
        vector<int> all;
        for (int i = 0; i < s; ++i) all.push_back(i);
        problem->SetManifold(x[b], new ceres::SubsetManifold(s, all));
        p = D(s, 0);
      }
      const bool varies = kinds[b] != CONSTANT && kinds[b] != UNUSED && kinds[b] != FIX_ALL;
      offset.push_back(varies ? n : -1);
      plus.push_back(p);
      if (varies) n += p.c;
    }
    j = D(0, n);
  }
  void Add(const D& a, const vector<int>& blocks, double weight = 1, bool applied = true) {
    vector<int> s;
    vector<double*> p;
    for (int b : blocks) s.push_back(sizes[b]), p.push_back(x[b]);
    auto* c = new LinearCost(a, s, Ints(a.r, 3));
    c->curved = curved;
    costs.push_back(c);
    ceres::LossFunction* loss = weight == 1 ? nullptr : new ceres::ScaledLoss(nullptr, weight * weight, ceres::TAKE_OWNERSHIP);
    problem->AddResidualBlock(c, loss, p);
    D rows(a.r, n);
    int col = 0;
    for (int b : blocks) {
      D part = Part(a, 0, a.r, col, col + sizes[b]);
      if (curved) for (int i = 0; i < part.r; ++i) for (int q = 0; q < part.c; ++q) part(i, q) *= 1 + 0.5 * x[b][q];
      col += sizes[b];
      if (offset[b] < 0) continue;
      const D t = Mul(part, plus[b]);
      for (int i = 0; i < t.r; ++i) for (int k = 0; k < t.c; ++k) rows(i, offset[b] + k) += t(i, k) * (applied ? weight : 1);
    }
    j.Append(rows);
  }
  bool Varies(int b) const { return offset[b] >= 0; }
  // The block of the reference covariance.
  D Block(const D& cov, int a, int b, bool ambient) const {
    if (!Varies(a) || !Varies(b)) return ambient ? D(sizes[a], sizes[b]) : D(plus[a].c, plus[b].c);
    const D t = Part(cov, offset[a], offset[a] + plus[a].c, offset[b], offset[b] + plus[b].c);
    return ambient ? Mul(plus[a], Mul(t, plus[b].T())) : t;
  }
};
D Random(int r, int c, int salt) {
  D d(r, c);
  for (size_t i = 0; i < d.v.size(); ++i) d.v[i] = static_cast<double>((i * 7 + i * i * 3 + salt * 5) % 11) - 5;
  return d;
}
const char* kKinds = "free, constant, first fixed, scaled, unused, all fixed";

struct Request {
  vector<std::pair<int, int>> pairs;
  bool Has(int a, int b) const {
    for (auto& p : pairs) if ((p.first == a && p.second == b) || (p.first == b && p.second == a)) return true;
    return false;
  }
};
void CheckQueries(const Prob& p, const Covariance& c, const D& cov, const Request& rq, const std::string& at) {
  const int nb = p.sizes.size();
  for (int a = 0; a < nb; ++a)
    for (int b = 0; b < nb; ++b)
      for (const bool ambient : {true, false}) {
        const D want = p.Block(cov, a, b, ambient);
        vu::Buf<double> got(want.r * want.c + 1);
        for (int i = 0; i <= want.r * want.c; ++i) got[i] = 4242;
        const bool ok = ambient ? c.GetCovarianceBlock(p.x[a], p.x[b], got) : c.GetCovarianceBlockInTangentSpace(p.x[a], p.x[b], got);
        const bool zero = !p.Varies(a) || !p.Varies(b);
        const std::string where = " block " + std::to_string(a) + "," + std::to_string(b) + (ambient ? " ambient " : " tangent ") + at;
        MC_REQUIRE(ok == (zero || rq.Has(a, b))) << (ok ? "query of something not computed succeeds" : "query refused") << where;
        MC_REQUIRE(got[want.r * want.c] == 4242) << "writes behind the block" << where;
        if (!ok) {
          for (int i = 0; i < want.r * want.c; ++i) MC_REQUIRE(got[i] == 4242) << "a refused query wrote something" << where;
          continue;
        }
        D g(want.r, want.c);
        for (size_t i = 0; i < g.v.size(); ++i) g.v[i] = got[i];
        MC_REQUIRE(Close(g, want, Scale(want), 1e-8)) << "covariance " << Str(g) << ", expected " << Str(want) << where;
      }
}
void CheckMatrix(const Prob& p, const Covariance& c, const D& cov, const Request& rq, const vector<int>& list, const std::string& at) {
  vector<const double*> ptr;
  bool all = true;
  for (int a : list) ptr.push_back(p.x[a]);
  for (int a : list) for (int b : list) all &= rq.Has(a, b) || !p.Varies(a) || !p.Varies(b);
  for (const bool ambient : {true, false}) {
    int n = 0;
    vector<int> first;
    for (int a : list) first.push_back(n), n += ambient ? p.sizes[a] : p.plus[a].c;
    D got(n, n), want(n, n);
    got.v.push_back(4242);
    const bool ok = ambient ? c.GetCovarianceMatrix(ptr, got.v.data()) : c.GetCovarianceMatrixInTangentSpace(ptr, got.v.data());
    MC_REQUIRE(ok == all) << "matrix of " << list.size() << " blocks " << (ok ? "given although not computed " : "refused ") << at;
    MC_REQUIRE(got.v.back() == 4242) << "writes behind the matrix " << at;
    if (!ok) continue;
    got.v.pop_back();
    for (size_t i = 0; i < list.size(); ++i)
      for (size_t k = 0; k < list.size(); ++k) {
        const D b = p.Block(cov, list[i], list[k], ambient);
        for (int r = 0; r < b.r; ++r) for (int q = 0; q < b.c; ++q) want(first[i] + r, first[k] + q) = b(r, q);
      }
    MC_REQUIRE(Close(got, want, Scale(want), 1e-8)) << (ambient ? "ambient" : "tangent") << " matrix " << Str(got) << ", expected " << Str(want) << " " << at;
  }
}
const vector<vector<int>>& Orders() {
  static const vector<vector<int>> o = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  return o;
}
Covariance::Options COptions(int which) {
  Covariance::Options o;
  o.algorithm_type = which == 0 ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  return o;
}
void FillProblem(Prob* p, int structure, bool loss, bool apply) {
  p->curved = true;
  auto used = [&](int b) { return p->kinds[b] != UNUSED; };
  auto add = [&](vector<int> blocks, int rows, int salt, double w) {
    vector<int> keep;
    int cols = 0;
    for (int b : blocks) if (used(b)) keep.push_back(b), cols += p->sizes[b];
    if (!keep.empty()) p->Add(Random(rows, cols, salt), keep, loss ? w : 1, apply);
  };
  if (structure == 0) {  // chain
    add({0, 1}, 3, 1, 2);
    add({1, 2}, 3, 2, 1);
    add({2}, 3, 4, 3);
  } else if (structure == 1) {  // block diagonal
    add({2}, 4, 3, 1);
    add({0}, 3, 5, 2);
    add({1}, 4, 2, 0.5);
  } else {  // all together, blocks in another order
    add({2, 0, 1}, 7, 1, 2);
    add({1}, 1, 0, 1);
  }
}
void CheckProblem(const Prob& p, const vector<double>& before, const std::string& at) {
  MC_REQUIRE(p.memory == before) << "parameters changed " << at;
  for (size_t b = 0; b < p.sizes.size(); ++b) {
    MC_REQUIRE(p.problem->IsParameterBlockConstant(p.x[b]) == (p.kinds[b] == CONSTANT || p.kinds[b] == FIX_ALL)) << "constancy of block " << b << " " << at;
    MC_REQUIRE(p.problem->ParameterBlockTangentSize(p.x[b]) == p.plus[b].c) << at;
  }
}

// Every request of pairs (absent, either orientation, both), in two orders.
MC_SCENARIO(Requests, .split = 4, .weight = 4) {
  const vector<int> sizes = {2, 1, 3};
  const int structure = mc::Choose(3, "structure");
  const auto order = mc::Light() ? Orders()[3] : mc::Pick(Orders(), "memory order");
  vector<int> kinds(3, FREE);
  const int special = mc::Choose(mc::Bound(4, 4), "special block");
  if (special < 3) kinds[special] = mc::Pick({CONSTANT, FIX_FIRST, SCALED, UNUSED}, kKinds);
  Request rq;
  for (int a = 0; a < 3; ++a)
    for (int b = a; b < 3; ++b) {
      const int k = mc::Choose(a == b ? 2 : 4, "requested");
      if (a == b) {
        if (k) rq.pairs.emplace_back(a, a);
      } else {
        if (k & 1) rq.pairs.emplace_back(a, b);
        if (k & 2) rq.pairs.emplace_back(b, a);
      }
    }
  if (mc::Flip("reversed")) std::reverse(rq.pairs.begin(), rq.pairs.end());
  if (mc::Skipping()) return;
  Prob p(sizes, kinds, order);
  FillProblem(&p, structure, false, true);
  D cov;
  const std::string at = "structure " + std::to_string(structure) + " special " + std::to_string(special) + " kind " + std::to_string(special < 3 ? kinds[special] : 0);
  MC_REQUIRE(Solve(Gram(p.j, {}, 0), Identity(p.n), &cov, 1e-7)) << at;
  const auto before = p.memory;
  for (int which = 0; which < 2; ++which) {
    auto o = COptions(which);
    o.num_threads = 1;
    Covariance c(o);
    vector<std::pair<const double*, const double*>> pairs;
    for (auto& q : rq.pairs) pairs.emplace_back(p.x[q.first], p.x[q.second]);
    mc::Step();
    MC_REQUIRE(c.Compute(pairs, p.problem.get())) << "computation fails " << at;
    CheckQueries(p, c, cov, rq, at + (which ? " QR" : " SVD"));
    if (mc::PrefixHash() % 4 == 0) CheckMatrix(p, c, cov, rq, {0, 1, 2}, at), CheckMatrix(p, c, cov, rq, {2, 1}, at);
    CheckProblem(p, before, at);
  }
  mc::Outcome(mc::H()(p.j.v).h);
}

// Every combination of kinds, losses and lists of blocks.
MC_SCENARIO(Kinds, .split = 4, .weight = 4) {
  const vector<int> sizes = mc::Pick(vector<vector<int>>{{2, 1, 3}, {2, 3, 2}}, "sizes");
  const int structure = mc::Choose(3, "structure");
  vector<int> kinds;
  for (int b = 0; b < 3; ++b) kinds.push_back(mc::Choose(6, kKinds));
  const int loss = mc::Choose(3, "loss");  // none, applied, ignored
  const auto order = mc::Pick(Orders(), "memory order");
  vector<int> list;
  {
    const auto l = mc::Pick(vector<vector<int>>{{0, 1, 2}, {2, 1, 0}, {1, 0}, {2}, {2, 0}, {0}, {1, 2, 0}}, "list");
    list = l;
  }
  if (mc::Skipping()) return;
  Prob p(sizes, kinds, order);
  FillProblem(&p, structure, loss > 0, loss != 2);
  const std::string at = "structure " + std::to_string(structure) + " kinds " + std::to_string(kinds[0]) + std::to_string(kinds[1]) + std::to_string(kinds[2]) + " loss " + std::to_string(loss);
  D cov(0, 0);
  if (p.n > 0) MC_REQUIRE(Solve(Gram(p.j, {}, 0), Identity(p.n), &cov, 1e-7)) << at;
  const auto before = p.memory;
  Request rq;
  vector<const double*> ptr;
  for (size_t i = 0; i < list.size(); ++i) {
    ptr.push_back(p.x[list[i]]);
    for (size_t k = i; k < list.size(); ++k) rq.pairs.emplace_back(list[i], list[k]);
  }
  for (int which = 0; which < 2; ++which) {
    auto o = COptions(which);
    o.apply_loss_function = loss != 2;
    o.num_threads = 1 + (mc::PrefixHash() >> 8) % 16 / 15;
    Covariance c(o);
    mc::Step();
    MC_REQUIRE(c.Compute(ptr, p.problem.get())) << "computation fails " << at;
    CheckQueries(p, c, cov, rq, at);
    CheckMatrix(p, c, cov, rq, list, at);
    CheckMatrix(p, c, cov, rq, {}, at);
    // Again for other blocks: what was computed before is gone.
    Request second;
    second.pairs = {{list[0], list[0]}};
    MC_REQUIRE(c.Compute(vector<const double*>{p.x[list[0]]}, p.problem.get())) << "second computation fails " << at;
    CheckQueries(p, c, cov, second, "second " + at);
    CheckProblem(p, before, at);
  }
  mc::Outcome(mc::H()(p.j.v).h);
}

// One Covariance object over the life of a problem that changes.
MC_SCENARIO(Reuse, .split = 4, .weight = 3) {
  const vector<int> sizes = {2, 1, 3};
  const int structure = mc::Choose(3, "structure");
  const auto order = mc::Pick(vector<vector<int>>{{0, 1, 2}, {2, 0, 1}}, "memory order");
  const bool qr = mc::Flip("QR");
  struct Change { int block, kind, list; };
  vector<Change> changes;
  for (int k = 0; k < mc::Bound(3, 4); ++k) {
    Change c;
    c.block = k == 0 ? 3 : mc::Choose(5, "changed block, nothing, values");
    c.kind = c.block >= 3 ? FREE : mc::Pick({FREE, CONSTANT, FIX_FIRST, SCALED, FIX_ALL}, kKinds);
    c.list = mc::Choose(4, "list");
    changes.push_back(c);
  }
  if (mc::Skipping()) return;
  static const vector<vector<int>> lists = {{0, 1, 2}, {2, 1}, {0}, {1, 0}};
  Prob p(sizes, {FREE, FREE, FREE}, order);
  FillProblem(&p, structure, false, true);
  auto o = COptions(qr);
  o.num_threads = 1;
  Covariance c(o);
  vector<int> kinds = p.kinds;
  std::string at = "structure " + std::to_string(structure) + (qr ? " QR" : " SVD");
  for (const auto& change : changes) {
    if (change.block < 3) {
      const int b = change.block, s = sizes[b];
      kinds[b] = change.kind;
      // Each kind is set from whatever was there.
      if (change.kind == CONSTANT) {
        p.problem->SetParameterBlockConstant(p.x[b]);
      } else {
        p.problem->SetParameterBlockVariable(p.x[b]);
      }
      ceres::Manifold* m = nullptr;
      if (change.kind == FIX_FIRST && s > 1) m = new ceres::SubsetManifold(s, {0});
      if (change.kind == SCALED) m = s == 2 ? new Turning : static_cast<ceres::Manifold*>(new Scaled(s == 1 ? M(1, 1, {3}) : M(3, 2, {1, 2, 0, 1, -1, 1})));
      if (change.kind == FIX_ALL) {
        vector<int> all;
        for (int i = 0; i < s; ++i) all.push_back(i);
        m = new ceres::SubsetManifold(s, all);
      }
      p.problem->SetManifold(p.x[b], m);
      at += " then block " + std::to_string(b) + " kind " + std::to_string(change.kind);
    }
    if (change.block == 4) {
      std::rotate(p.memory.begin(), p.memory.begin() + 1, p.memory.end());
      at += " then values";
    }
    Prob now(sizes, kinds, order, &p.memory);
    FillProblem(&now, structure, false, true);
    p.kinds = now.kinds;
    p.plus = now.plus;
    p.offset = now.offset;
    p.n = now.n;
    D cov(0, 0);
    if (now.n > 0) MC_REQUIRE(Solve(Gram(now.j, {}, 0), Identity(now.n), &cov, 1e-7)) << at;
    const auto& list = lists[change.list];
    at += " list " + std::to_string(change.list);
    Request rq;
    vector<const double*> ptr;
    for (size_t i = 0; i < list.size(); ++i) {
      ptr.push_back(p.x[list[i]]);
      for (size_t k = i; k < list.size(); ++k) rq.pairs.emplace_back(list[i], list[k]);
    }
    mc::Step();
    const auto before = p.memory;
    MC_REQUIRE(c.Compute(ptr, p.problem.get())) << "computation fails " << at;
    CheckQueries(p, c, cov, rq, at);
    CheckMatrix(p, c, cov, rq, list, at);
    CheckProblem(p, before, at);
  }
  mc::Outcome(mc::H()(p.kinds)(p.n).h);
}

// Exact rank of an integer matrix.
int Rank(D a) {
  int rank = 0;
  for (int c = 0; c < a.c && rank < a.r; ++c) {
    int p = -1;
    for (int i = rank; i < a.r; ++i) if (a(i, c) != 0) p = i;
    if (p < 0) continue;
    for (int j = 0; j < a.c; ++j) std::swap(a(rank, j), a(p, j));
    for (int i = rank + 1; i < a.r; ++i) {
      const double f = a(i, c), g = a(rank, c);
      for (int j = 0; j < a.c; ++j) a(i, j) = a(i, j) * g - a(rank, j) * f;  // small integers
    }
    ++rank;
  }
  return rank;
}
// Every small integer Jacobian, of any rank and shape.
MC_SCENARIO(RankDeficiency, .split = 4, .weight = 3) {
  const int rows = mc::Range(1, 3, "rows"), cols = mc::Range(1, 3, "columns");
  const bool big = rows * cols > 6;
  D a(rows, cols);
  for (auto& v : a.v) v = mc::Pick(big && !mc::Thorough() ? vector<double>{0, 1} : rows * cols == 6 ? vector<double>{0, 1, -2} : vector<double>{0, 1, -2, 3}, "entry");
  const bool qr = mc::Flip("QR");
  const int null_rank = qr ? 0 : mc::Range(-1, 3, "null space rank");
  const double rcond = qr ? 1e-14 : mc::Pick({1e-14, 0.1}, "reciprocal condition number");
  const int split = cols == 1 ? 1 : mc::Range(1, 2, "blocks");
  if (mc::Skipping()) return;
  Prob p(split == 1 ? vector<int>{cols} : vector<int>{1, cols - 1}, vector<int>(split, FREE), split == 1 ? vector<int>{0} : vector<int>{1, 0});
  p.Add(a, split == 1 ? vector<int>{0} : vector<int>{0, 1});
  auto o = COptions(qr);
  o.null_space_rank = null_rank;
  o.min_reciprocal_condition_number = rcond;
  Covariance c(o);
  vector<const double*> ptr(p.x.begin(), p.x.end());
  std::ostringstream os;
  os << "J " << Str(a) << (qr ? " QR" : " SVD") << " null space rank " << null_rank << " minimum reciprocal condition " << rcond;
  const std::string at = os.str();
  mc::Step();
  const bool ok = c.Compute(ptr, p.problem.get());
  const int rank = Rank(a);
  Request rq;
  for (int i = 0; i < split; ++i) for (int k = i; k < split; ++k) rq.pairs.emplace_back(i, k);
  if (qr) {
    MC_REQUIRE(ok == (rank == cols)) << (ok ? "accepts" : "refuses") << " a Jacobian of rank " << rank << " " << at;
  }
  // Eigenvalues of J'J in increasing order.
  Eigen::MatrixXd g(cols, cols);
  const D gram = Gram(a, {}, 0);
  for (int i = 0; i < cols; ++i) for (int j = 0; j < cols; ++j) g(i, j) = gram(i, j);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(g);
  const double top = es.eigenvalues()(cols - 1);
  vector<bool> use(cols, true);
  bool expect = true, unclear = false;
  if (null_rank < 0) {
    for (int k = 0; k < cols; ++k) {
      const bool zero = k < cols - rank;
      const double ratio = rank == 0 ? 0 : es.eigenvalues()(k) / top;
      use[k] = !zero && ratio >= rcond;
      unclear |= !zero && std::abs(ratio - rcond) < 1e-6 * rcond;
    }
  } else {
    for (int k = 0; k < cols; ++k) {
      const bool zero = k < cols - rank;
      const double ratio = rank == 0 ? 0 : es.eigenvalues()(k) / top;
      use[k] = k >= null_rank;
      if (use[k]) expect = expect && !zero && ratio >= rcond;
      unclear |= use[k] && !zero && std::abs(ratio - rcond) < 1e-6 * rcond;
    }
    // Equal eigenvalues with only some of them dropped: not determined.
    if (null_rank > 0 && null_rank < cols) unclear |= std::abs(es.eigenvalues()(null_rank) - es.eigenvalues()(null_rank - 1)) < 1e-6 * std::max(1.0, top);
  }
  if (unclear) return;
  MC_REQUIRE(ok == expect) << (ok ? "accepts" : "refuses") << " a Jacobian of rank " << rank << " " << at;
  if (!ok) {
    mc::Cover("refused");
    return;
  }
  D cov(cols, cols);
  for (int k = 0; k < cols; ++k) {
    if (!use[k]) continue;
    for (int i = 0; i < cols; ++i)
      for (int j = 0; j < cols; ++j) cov(i, j) += es.eigenvectors()(i, k) * es.eigenvectors()(j, k) / es.eigenvalues()(k);
  }
  CheckQueries(p, c, cov, rq, at);
  if (rank < cols) mc::Cover("pseudo inverse");
  mc::Outcome(mc::H()(a.v).h);
}

// An evaluation that fails makes the computation fail, and nothing else.
MC_SCENARIO(Failures, .split = 2, .weight = 1) {
  const int structure = mc::Choose(3, "structure");
  const bool qr = mc::Flip("QR");
  const int which = mc::Choose(structure == 2 ? 2 : 3, "failing residual block");
  const int fault = 1 + mc::Choose(2, "false, NaN");
  const int a = mc::Choose(3, "block"), b = mc::Choose(3, "block");
  const int history = mc::Choose(3, "bad first, good first, only bad");
  if (mc::Skipping()) return;
  Prob p({2, 1, 3}, {FREE, FREE, FREE}, {1, 0, 2});
  FillProblem(&p, structure, false, true);
  D cov;
  MC_REQUIRE(Solve(Gram(p.j, {}, 0), Identity(p.n), &cov, 1e-7));
  auto o = COptions(qr);
  Covariance c(o);
  const vector<std::pair<const double*, const double*>> pairs = {{p.x[a], p.x[b]}};
  Request rq;
  rq.pairs = {{a, b}};
  const auto before = p.memory;
  auto good = [&] {
    p.costs[which]->fault = 0;
    MC_REQUIRE(c.Compute(pairs, p.problem.get())) << "fails on a good problem";
    CheckQueries(p, c, cov, rq, "good");
  };
  auto bad = [&] {
    p.costs[which]->fault = fault;
    MC_REQUIRE(!c.Compute(pairs, p.problem.get())) << (qr ? "QR" : "SVD") << " succeeds although residual block " << which << (fault == 1 ? " fails" : " is not finite");
    p.costs[which]->fault = 0;
  };
  mc::Step();
  if (history == 0) bad(), good();
  if (history == 1) good(), bad(), good();
  if (history == 2) bad();
  CheckProblem(p, before, "after failures");
  mc::Outcome(mc::H()(structure)(which)(fault).h);
}

// Every pair of blocks is met exactly once.
MC_SCENARIO(TriangularIndex, .split = 1, .single = true) {
  const int n = mc::Range(1, mc::Bound(120, 600), "size");
  vector<char> met(n * n);
  for (int k = 0; k < n * (n + 1) / 2; ++k) {
    int i = -1, j = -1;
    ci::LinearIndexToUpperTriangularIndex(k, n, &i, &j);
    MC_REQUIRE(0 <= i && i <= j && j < n) << "entry " << k << " of " << n << " is " << i << "," << j;
    MC_REQUIRE(!met[i * n + j]) << "entry " << i << "," << j << " of " << n << " twice";
    met[i * n + j] = 1;
    mc::Step();
  }
  mc::Outcome(n);
}
}  // namespace
