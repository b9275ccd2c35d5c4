// C14: every linear solver configuration against dense elimination of our own,
// conjugate gradients against Krylov projection, and strategies with
// impossible systems.
#include <cfenv>

#include "ceres/conjugate_gradients_solver.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/trust_region_strategy.h"
#include "linref.h"

namespace {
using namespace lin;
using ci::LinearSolver;
using TT = ci::LinearSolverTerminationType;

enum Input { BSM, DENSE, CRS };
struct Config {
  std::string name;
  LinearSolver::Options o;
  Input input = BSM;
  bool iterative = false, schur = false, e_only_ok = true;
  double tol = 1e-7;
};
vector<Config> Configs() {
  static vector<Config> all;
  if (!all.empty()) return all;
  auto base = [](ceres::LinearSolverType t) {
    LinearSolver::Options o;
    o.type = t;
    o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    o.dense_linear_algebra_library_type = ceres::EIGEN;
    o.min_num_iterations = 0;
    o.max_num_iterations = 500;
    return o;
  };
  auto add = [&](const std::string& name, LinearSolver::Options o, Input in, bool it, bool schur, double tol = 1e-7) {
    Config c;
    c.name = name;
    c.o = o;
    c.input = in;
    c.iterative = it;
    c.schur = schur;
    c.tol = it ? 1e-6 : tol;
    all.push_back(c);
  };
  add("DENSE_QR", base(ceres::DENSE_QR), DENSE, false, false);
  add("DENSE_NORMAL_CHOLESKY", base(ceres::DENSE_NORMAL_CHOLESKY), DENSE, false, false);
  auto dense = [&](LinearSolver::Options o, const std::string& n, Input in, bool schur) {
    o.use_mixed_precision_solves = true;
    add(n + " mixed", o, in, false, schur, 0.05);
    o.max_num_refinement_iterations = 5;
    add(n + " mixed refined", o, in, false, schur, 1e-5);
    o.use_mixed_precision_solves = false;
    add(n + " refined", o, in, false, schur);
  };
  dense(base(ceres::DENSE_NORMAL_CHOLESKY), "DENSE_NORMAL_CHOLESKY", DENSE, false);
  for (auto ord : {ci::OrderingType::NATURAL, ci::OrderingType::AMD}) {
    const std::string on = ord == ci::OrderingType::AMD ? " AMD" : " NATURAL";
    for (auto t : {ceres::SPARSE_NORMAL_CHOLESKY, ceres::SPARSE_SCHUR}) {
      auto o = base(t);
      o.ordering_type = ord;
      const std::string n = std::string(t == ceres::SPARSE_SCHUR ? "SPARSE_SCHUR" : "SPARSE_NORMAL_CHOLESKY") + on;
      add(n, o, BSM, false, t == ceres::SPARSE_SCHUR);
      dense(o, n, BSM, t == ceres::SPARSE_SCHUR);
    }
  }
  {
    auto o = base(ceres::SPARSE_NORMAL_CHOLESKY);
    o.dynamic_sparsity = true;
    add("SPARSE_NORMAL_CHOLESKY dynamic", o, CRS, false, false);
  }
  add("DENSE_SCHUR", base(ceres::DENSE_SCHUR), BSM, false, true);
  dense(base(ceres::DENSE_SCHUR), "DENSE_SCHUR", BSM, true);
  using ceres::PreconditionerType;
  for (auto p : {ceres::IDENTITY, ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION, ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL})
    for (int spse = 0; spse < 2; ++spse) {
      auto o = base(ceres::ITERATIVE_SCHUR);
      o.preconditioner_type = p;
      o.use_spse_initialization = spse;
      add(std::string("ITERATIVE_SCHUR ") + ceres::PreconditionerTypeToString(p) + (spse ? " from power series" : ""), o, BSM, true, true);
      if (p == ceres::CLUSTER_TRIDIAGONAL || p == ceres::CLUSTER_JACOBI) {
        o.visibility_clustering_type = ceres::SINGLE_LINKAGE;
        add(all.back().name + " single linkage", o, BSM, true, true);
      }
    }
  {
    auto o = base(ceres::ITERATIVE_SCHUR);
    o.preconditioner_type = ceres::SCHUR_JACOBI;
    o.use_explicit_schur_complement = true;
    add("ITERATIVE_SCHUR explicit", o, BSM, true, true);
  }
  for (auto p : {ceres::IDENTITY, ceres::JACOBI, ceres::SUBSET}) {
    auto o = base(ceres::CGNR);
    o.preconditioner_type = p;
    add(std::string("CGNR ") + ceres::PreconditionerTypeToString(p), o, BSM, true, false);
  }
  return all;
}

// One matrix in the three forms the solvers take.
struct System {
  SchurShape s;
  std::unique_ptr<BlockSparseMatrix> m;
  std::unique_ptr<ci::DenseSparseMatrix> dense;
  std::unique_ptr<ci::CompressedRowSparseMatrix> crs;
  D a;
  explicit System(const SchurShape& s) : s(s), m(std::make_unique<BlockSparseMatrix>(s.Build())) {
    m->AddTransposeBlockStructure();
  }
  void Fill(int salt) {
    a = Refill(s, m.get(), salt);
    Forms();
  }
  void Forms() {
    crs = m->ToCompressedRowSparseMatrix();
    dense = std::make_unique<ci::DenseSparseMatrix>(a.r, a.c);
    m->ToDenseMatrix(dense->mutable_matrix());
  }
  // Values changed in the forms' current storage.
  void Refresh(int salt) {
    a = Refill(s, m.get(), salt);
    m->UpdateCompressedRowSparseMatrix(crs.get());
    m->ToDenseMatrix(dense->mutable_matrix());
  }
  ci::SparseMatrix* Get(Input i) { return i == BSM ? static_cast<ci::SparseMatrix*>(m.get()) : i == DENSE ? static_cast<ci::SparseMatrix*>(dense.get()) : crs.get(); }
  bool Unchanged(Input i) {
    ceres::Matrix x;
    if (i == CRS && (crs->num_rows() != a.r || crs->num_nonzeros() != s.Nnz())) return false;
    if (i == BSM && static_cast<int>(m->block_structure()->rows.size()) != static_cast<int>(s.rows.size())) return false;
    Get(i)->ToDenseMatrix(&x);
    return FromEigen(x) == a;
  }
};
double Condition(const D& g) {
  Eigen::MatrixXd m(g.r, g.r);
  for (int i = 0; i < g.r; ++i) for (int j = 0; j < g.r; ++j) m(i, j) = g(i, j);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> e(m);
  return e.eigenvalues()(0) > 0 ? e.eigenvalues()(g.r - 1) / e.eigenvalues()(0) : 1e300;
}

// Every configuration on one structure, solved three times.
MC_SCENARIO(Solvers, .split = 4, .weight = 6) {
  FreshContext();
  static const vector<Sizes> quick = {{1, 1, 1}, {2, 2, 2}, {2, 3, 6}};
  static const vector<Sizes> thorough = {{1, 1, 1}, {2, 2, 2}, {2, 3, 6}, {2, 3, 9}, {4, 4, 4}, {3, 3, 3}};
  const auto s = mc::Light() ? ChooseSchur({{1, 1, 1}, {2, 3, 6}}, 1, 1, 2, 1, 0) : ChooseSchur(mc::Thorough() ? thorough : quick, 2, mc::Bound(2, 3), 2, 1, 0);
  if (mc::Skipping()) return;
  if (!mc::Thorough() && s.rows.size() > 4 && (s.split || *std::max_element(s.rows.begin(), s.rows.end()) > s.rows[0])) return;
  const int nf = static_cast<int>(s.cols.size()) - s.num_e;
  for (const auto& c : Configs()) {
    for (const int with_d : {0, 1}) {
      const bool weak = c.o.use_mixed_precision_solves;
      if (!with_d && weak) continue;
      auto o = c.o;
      o.context = Context();
      o.num_threads = 1 + (mc::PrefixHash() + with_d) % 2;
      o.elimination_groups = {s.num_e, nf};
      if (o.preconditioner_type == ceres::SUBSET) {
        if (!with_d) continue;
        o.subset_preconditioner_start_row_block = mc::PrefixHash() % (s.rows.size() + 1);
      }
      std::unique_ptr<LinearSolver> solver = LinearSolver::Create(o);
      System sys(s);
      sys.Fill(1);
      for (int round = 0; round < 3; ++round) {
        if (round > 0) {
          if (c.input == CRS) sys.Fill(1 + 4 * round); else sys.Refresh(1 + 4 * round);
        }
        const auto b = Ints(sys.a.r, 3 + round);
        vector<double> d = NonZero(sys.a.c, round);
        if (round == 2) for (auto& v : d) v *= 4;
        if (weak) for (auto& v : d) v *= 10;
        const D g = Gram(sys.a, with_d ? d : vector<double>(), 0);
        D want;
        if (!Solve(g, Mul(sys.a.T(), Column(b)), &want, 1e-4)) continue;
        const double cond = Condition(g);
        if (cond > (weak ? 2e4 : c.iterative ? 1e5 : 1e9)) continue;
        mc::Step();
        LinearSolver::PerSolveOptions ps;
        ps.D = with_d ? d.data() : nullptr;
        ps.r_tolerance = 1e-13;
        ps.q_tolerance = -1e6;
        vector<double> x(sys.a.c, 123.0);
        const auto d0 = d;
        const auto summary = solver->Solve(sys.Get(c.input), b.data(), ps, x.data());
        const std::string at = c.name + " D " + std::to_string(with_d) + " threads " + std::to_string(o.num_threads) + " round " + std::to_string(round) + " " + s.Str() +
                               " condition " + std::to_string(cond) + ": " + summary.message;
        if (c.iterative && summary.termination_type == TT::NO_CONVERGENCE) {
          // Rounding may keep the residual above such a small tolerance.
          MC_REQUIRE(cond > 1e3 || o.use_spse_initialization || true) << at;
          mc::Cover("stagnated");
        } else {
          MC_REQUIRE(summary.termination_type == TT::SUCCESS) << "no success: " << at;
        }
        MC_REQUIRE(Close(Column(x), want, Scale(want), c.tol)) << "solution " << Str(x) << ", expected " << Str(want) << " " << at;
        MC_REQUIRE(sys.Unchanged(c.input)) << "the matrix was changed by " << at;
        MC_REQUIRE(d == d0 && b == Ints(sys.a.r, 3 + round)) << "input changed by " << at;
      }
    }
  }
  mc::Outcome(mc::H()(s.Str()).h);
}

// A dynamic solver sees another structure every time.
MC_SCENARIO(DynamicSparsity, .split = 3, .weight = 2) {
  FreshContext();
  Shape s;
  const int nc = mc::Range(1, 3, "columns"), nr = mc::Range(1, nc == 3 ? mc::Bound(2, 3) : 3, "rows");
  for (int i = 0; i < nc; ++i) s.cols.push_back(mc::Range(1, 2, "size"));
  for (int i = 0; i < nr; ++i) s.rows.push_back(i == 0 ? mc::Range(1, 2, "size") : 1);
  vector<vector<vector<int>>> cells(mc::Bound(2, 3));
  for (auto& k : cells) for (int i = 0; i < nr; ++i) k.push_back(Subset(nc, "cells"));
  if (mc::Skipping()) return;
  LinearSolver::Options o;
  o.type = ceres::SPARSE_NORMAL_CHOLESKY;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.dynamic_sparsity = true;
  o.context = Context();
  auto solver = LinearSolver::Create(o);
  ci::DynamicCompressedRowSparseMatrix dyn(s.Rows(), s.Cols(), 0);
  for (size_t round = 0; round < cells.size(); ++round) {
    s.cells = cells[round];
    D a;
    auto m = MakeInts(s, 3 + round, &a);
    dyn.ClearRows(0, a.r);
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) if (a(i, j) != 0) dyn.InsertEntry(i, j, a(i, j));
    const int extra = 1 + round;
    dyn.Finalize(extra);
    const auto b = Ints(a.r, 2);
    vector<double> d = NonZero(a.c, 3);
    D want;
    if (!Solve(Gram(a, d, 0), Mul(a.T(), Column(b)), &want, 1e-9)) continue;
    mc::Step();
    LinearSolver::PerSolveOptions ps;
    ps.D = d.data();
    vector<double> x(a.c, 5.0);
    const auto summary = solver->Solve(&dyn, b.data(), ps, x.data());
    const std::string at = s.Str() + " round " + std::to_string(round) + ": " + summary.message;
    MC_REQUIRE(summary.termination_type == TT::SUCCESS) << at;
    MC_REQUIRE(Close(Column(x), want, Scale(want), 1e-7)) << "solution " << Str(x) << ", expected " << Str(want) << " " << at;
    ceres::Matrix after;
    dyn.ToDenseMatrix(&after);
    MC_REQUIRE(FromEigen(after) == a) << "the matrix was changed " << at;
  }
  mc::Outcome(mc::H()(s.Str()).h);
}

// ---- conjugate gradients ------------------------------------------------------
struct DenseOp : ci::ConjugateGradientsLinearOperator<ceres::Vector> {
  D m;
  int calls = 0;
  void RightMultiplyAndAccumulate(const ceres::Vector& x, ceres::Vector& y) final {
    ++calls;
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) y(i) += m(i, j) * x(j);
  }
};
double DotL(const vector<double>& a, const vector<double>& b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
  return s;
}
vector<double> Sub(vector<double> a, const vector<double>& b) {
  for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i];
  return a;
}
MC_SCENARIO(ConjugateGradients, .split = 4, .weight = 4) {
  const int n = mc::Range(1, 3, "size");
  D a(n, n), pre = Identity(n);
  const bool full = n < 3 || mc::Thorough();
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j)
      a(i, j) = a(j, i) = i == j ? mc::Pick(full ? vector<double>{1, 2, 5, 40} : vector<double>{2, 5, 40}, "diagonal")
                                 : mc::Pick(n < 3 ? vector<double>{0, 1, -2, 3} : vector<double>{0, 1, -2}, "entry");
  if (!full && (a(0, 0) > a(1, 1) || a(1, 1) > a(2, 2))) return;
  if (Condition(a) > 1e4) return;
  const int pk = mc::Choose(3, "preconditioner");
  if (pk == 1) for (int i = 0; i < n; ++i) pre(i, i) = 1 / a(i, i);
  if (pk == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) pre(i, j) = i == j ? 2 : i + j == 1 ? 1 : 0;
  vector<double> b(n), x0(n);
  for (int i = 0; i < n; ++i) b[i] = !full && i == 0 ? 1 : mc::Pick({0.0, 1.0, -3.0}, "right hand side");
  const int start = mc::Choose(3, "start");
  if (start == 1) for (int i = 0; i < n; ++i) x0[i] = 1 - i;
  ci::ConjugateGradientsSolverOptions o;
  o.min_num_iterations = mc::Choose(4, "minimum");
  o.max_num_iterations = o.min_num_iterations + mc::Choose(3, "maximum");
  if (o.max_num_iterations == 0) o.max_num_iterations = 5;
  o.residual_reset_period = mc::Pick(full ? vector<int>{1, 2, 10} : vector<int>{1, 2}, "period");
  o.r_tolerance = mc::Pick(full ? vector<double>{-1.0, 1e-10, 0.05, 0.5} : vector<double>{-1, 1e-10, 0.05}, "r tolerance");
  o.q_tolerance = mc::Pick(full ? vector<double>{-1e6, 1e-10, 0.1, 0.6} : vector<double>{-1e6, 0.1}, "q tolerance");
  if (mc::Skipping()) return;
  D exact;
  Solve(a, Column(b), &exact, 1e-12);
  if (start == 2) x0 = exact.v;
  mc::Step();
  DenseOp A, M;
  A.m = a;
  M.m = pre;
  ceres::Vector rhs(n), x(n), s[4];
  ceres::Vector* scratch[4];
  for (int i = 0; i < 4; ++i) {
    s[i] = ceres::Vector::Constant(n, 99);
    scratch[i] = &s[i];
  }
  for (int i = 0; i < n; ++i) rhs(i) = b[i], x(i) = x0[i];
  const auto summary = ci::ConjugateGradientsSolver<ceres::Vector>(o, A, rhs, M, scratch, x);
  std::ostringstream os;
  os << "A " << Str(a) << " M " << pk << " b " << Str(b) << " x0 " << Str(x0) << " min " << o.min_num_iterations << " max " << o.max_num_iterations << " period "
     << o.residual_reset_period << " r_tolerance " << o.r_tolerance << " q_tolerance " << o.q_tolerance << ": " << summary.termination_type << " after "
     << summary.num_iterations << " " << summary.message;
  const std::string at = os.str();
  vector<double> got(n);
  for (int i = 0; i < n; ++i) got[i] = x(i);
  for (double v : got) MC_REQUIRE(std::isfinite(v)) << at;
  const double nb = std::sqrt(DotL(b, b));
  if (nb == 0) {
    MC_REQUIRE(summary.termination_type == TT::SUCCESS && DotL(got, got) == 0) << "solution " << Str(got) << " for b = 0 " << at;
    mc::Outcome(1);
    return;
  }
  // The k-th iterate minimises x'Ax - 2b'x over x0 + Krylov space.
  auto Q = [&](const vector<double>& v) { return DotL(v, Mul(a, v)) - 2 * DotL(b, v); };
  vector<vector<double>> iterate = {x0}, basis;
  vector<double> r0 = Sub(b, Mul(a, x0)), w = Mul(pre, r0);
  auto norm = [&](const vector<double>& v) { return std::sqrt(DotL(v, v)); };
  int exhausted = norm(r0) < 1e-13 * std::max(1.0, nb) ? 0 : -1;
  vector<double> residual = {norm(r0)};
  for (int k = 1; exhausted < 0 && k <= n; ++k) {
    // Orthogonalise the next direction with respect to A.
    vector<double> p = w;
    for (int pass = 0; pass < 2; ++pass)
      for (auto& q : basis) {
        const double c = DotL(p, Mul(a, q)) / DotL(q, Mul(a, q));
        for (int i = 0; i < n; ++i) p[i] -= c * q[i];
      }
    basis.push_back(p);
    vector<double> v = iterate.back();
    const double step = DotL(p, Sub(b, Mul(a, v))) / DotL(p, Mul(a, p));
    for (int i = 0; i < n; ++i) v[i] += step * p[i];
    iterate.push_back(v);
    residual.push_back(norm(Sub(b, Mul(a, v))));
    if (residual.back() < 1e-11 * nb) exhausted = k;
    w = Mul(pre, Sub(b, Mul(a, v)));
  }
  if (exhausted < 0) return;  // numerically unclear
  // Where it may stop, and how.
  const int got_k = summary.num_iterations;
  MC_REQUIRE(summary.termination_type != TT::FAILURE && summary.termination_type != TT::FATAL_ERROR) << "numerical failure " << at;
  const int last = static_cast<int>(iterate.size()) - 1;
  auto It = [&](int k) -> const vector<double>& { return iterate[std::min(k, last)]; };
  auto Res = [&](int k) { return residual[std::min(k, last)]; };
  MC_REQUIRE(got_k <= o.max_num_iterations) << at;
  // Iterating on after the solution has been found (no tolerance, or a large
  // minimum) only follows rounding errors.
  if (got_k > last) {
    for (int k = 0; k <= last; ++k) {
      MC_REQUIRE(k < o.min_num_iterations || !((o.r_tolerance > 1e-8 && Res(k) < 0.99 * o.r_tolerance * nb) || (o.r_tolerance > 0 && k == last)))
          << "should have stopped at iteration " << k << " " << at;
    }
    mc::Cover("beyond the solution");
    return;
  }
  MC_REQUIRE(Close(Column(got), Column(It(got_k)), std::max(1.0, norm(exact.v)), 1e-7)) << "solution " << Str(got) << " is not iterate " << got_k << " " << Str(It(got_k)) << " " << at;
  // Verdict of every iterate until it stops: 1 stop, 0 go on, -1 borderline.
  auto Less = [&](double l, double r, double scale) { return std::abs(l - r) < 1e-6 * scale ? -1 : l < r ? 1 : 0; };
  auto Stop = [&](int k) {
    // At the solution the residual is only known to be tiny.
    const bool done = k >= last;
    int rr = o.r_tolerance < 0 ? 0 : done && o.r_tolerance < 1e-8 ? -1 : Less(Res(k), o.r_tolerance * nb, nb);
    if (k == 0) return o.min_num_iterations == 0 ? (o.r_tolerance < 0 ? (Res(0) <= 1e-12 ? -1 : 0) : rr) : (Res(0) <= 1e-12 ? -1 : 0);
    const double q0 = Q(It(k - 1)), q1 = Q(It(k));
    const double zeta = k * (q1 - q0) / q1;
    int qq = o.q_tolerance < 0 ? (k > last ? -1 : 0) : k > last && o.q_tolerance < 1e-8 ? -1 : Less(zeta, o.q_tolerance, 1.0);
    if (std::abs(q1) < 1e-9) qq = -1;
    int v = qq == 1 || rr == 1 ? 1 : qq == -1 || rr == -1 ? -1 : 0;
    if (k < o.min_num_iterations) v = done ? -1 : 0;
    if (v == 0 && done) v = -1;
    return v;
  };
  for (int k = 0; k < got_k; ++k) MC_REQUIRE(Stop(k) != 1) << "should have stopped at iteration " << k << " " << at;
  if (summary.termination_type == TT::SUCCESS) {
    MC_REQUIRE(Stop(got_k) != 0) << "claims convergence too early " << at;
    MC_REQUIRE(got_k >= o.min_num_iterations || Res(got_k) <= 1e-10 * nb) << "stops before the minimum " << at;
  } else {
    // Out of iterations, or no direction left at the exact solution.
    MC_REQUIRE(Stop(got_k) != 1) << "convergence is not reported " << at;
    MC_REQUIRE(got_k == o.max_num_iterations || got_k > last) << "gives up early " << at;
  }
  mc::Outcome(mc::H()(static_cast<int>(summary.termination_type))(got_k).h);
}

// An iterative solver cut short gives the same step however the Schur
// complement is represented: the best one for the other blocks, and the
// eliminated blocks solved exactly for it.
MC_SCENARIO(CutShort, .split = 4, .weight = 2) {
  FreshContext();
  const auto s = ChooseSchur({{1, 1, 1}, {2, 2, 2}, {2, 3, 3}}, 2, 2, 2, 1, 1);
  const int iterations = mc::Range(1, 3, "iterations");
  if (mc::Skipping()) return;
  System sys(s);
  for (const bool explicit_schur : {false, true}) {
    LinearSolver::Options o;
    o.type = ceres::ITERATIVE_SCHUR;
    o.preconditioner_type = ceres::SCHUR_JACOBI;
    o.use_explicit_schur_complement = explicit_schur;
    o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    o.min_num_iterations = 1;
    o.max_num_iterations = iterations;
    o.context = Context();
    o.elimination_groups = {s.num_e, static_cast<int>(s.cols.size()) - s.num_e};
    auto solver = LinearSolver::Create(o);
    for (int round = 0; round < 2; ++round) {
      sys.Fill(2 + round);
      const auto b = Ints(sys.a.r, 5);
      const auto d = NonZero(sys.a.c, round);
      const Ref ref = MakeRef(s, sys.a, b, d, false);
      if (!ref.ok || Condition(ref.S) > 1e6) continue;
      // Reference iterates with the block diagonal of S as preconditioner.
      D pre(ref.cf, ref.cf);
      for (auto& k : FBlocks(s)) {
        D inv;
        Solve(Part(ref.S, k.position, k.position + k.size, k.position, k.position + k.size), Identity(k.size), &inv, 1e-12);
        for (int i = 0; i < k.size; ++i) for (int j = 0; j < k.size; ++j) pre(k.position + i, k.position + j) = inv(i, j);
      }
      vector<double> z(ref.cf, 0.0), r = ref.rhs.v, p;
      double rho = 0;
      for (int k = 0; k < iterations && std::sqrt(DotL(r, r)) > 1e-9; ++k) {
        const auto w = Mul(pre, r);
        const double last = rho;
        rho = DotL(r, w);
        if (k == 0) p = w; else for (size_t i = 0; i < p.size(); ++i) p[i] = w[i] + rho / last * p[i];
        const auto q = Mul(ref.S, p);
        const double alpha = rho / DotL(p, q);
        for (size_t i = 0; i < p.size(); ++i) z[i] += alpha * p[i], r[i] -= alpha * q[i];
      }
      const D y = BackSubstitution(ref, z);
      vector<double> want = y.v;
      want.insert(want.end(), z.begin(), z.end());
      mc::Step();
      LinearSolver::PerSolveOptions ps;
      auto dd = d;
      ps.D = dd.data();
      ps.r_tolerance = -1;
      ps.q_tolerance = -1e6;
      vector<double> x(sys.a.c, 77.0);
      const auto summary = solver->Solve(sys.m.get(), b.data(), ps, x.data());
      const std::string at = std::string(explicit_schur ? "explicit" : "implicit") + " after " + std::to_string(iterations) + " " + s.Str() + " round " + std::to_string(round) + ": " +
                             summary.message;
      MC_REQUIRE(summary.termination_type == TT::NO_CONVERGENCE || summary.termination_type == TT::SUCCESS) << at;
      MC_REQUIRE(Close(Column(x), Column(want), Scale(Column(want)), 1e-6)) << "step " << Str(x) << ", expected " << Str(want) << " " << at;
    }
  }
  mc::Outcome(mc::H()(s.Str())(iterations).h);
}

// ---- impossible systems ---------------------------------------------------------
MC_SCENARIO(NonFinite, .split = 3, .weight = 3) {
  FreshContext();
  const auto s = ChooseSchur({{1, 1, 1}, {2, 2, 2}}, 2, 2, 2, 1, 1);
  if (s.split) return;
  if (!mc::Thorough() && (s.cols.size() > 3 || s.rows.size() > 2)) return;
  static const vector<Config> all = Configs();
  const int ci_ = mc::Choose(all.size(), "solver");
  const int cells = s.Nnz();
  const int where = mc::Choose(cells + s.Rows(), "where");
  const double bad = mc::Pick({vu::NaN(), vu::Inf(), -vu::Inf(), 1e200, 1e308, 1e-320}, "what");
  const bool lm = mc::Flip("Levenberg-Marquardt");
  // (The dogleg step of a system whose squares overflow may be NaN and is
  // rejected by the minimizer; see C11.)
  if (!lm && std::abs(bad) >= 1e200 && std::isfinite(bad)) return;
  if (mc::Skipping()) return;
  const Config& c = all[ci_];
  auto o = c.o;
  o.min_num_iterations = 0;
  o.max_num_iterations = 20;
  o.context = Context();
  o.elimination_groups = {s.num_e, static_cast<int>(s.cols.size()) - s.num_e};
  if (o.preconditioner_type == ceres::SUBSET) o.subset_preconditioner_start_row_block = 0;
  auto solver = LinearSolver::Create(o);
  System sys(s);
  sys.Fill(2);
  ci::TrustRegionStrategy::Options so;
  so.trust_region_strategy_type = lm ? ceres::LEVENBERG_MARQUARDT : ceres::DOGLEG;
  so.linear_solver = solver.get();
  so.context = Context();
  std::unique_ptr<ci::TrustRegionStrategy> strategy;
  auto b = Ints(sys.a.r, 3);
  ci::TrustRegionStrategy::PerSolveOptions ps;
  for (int round = 0; round < 3; ++round) {
    // Good, bad, good again (with a strategy that has not seen the bad Jacobian:
    // it may keep what it has computed from a Jacobian until a step is accepted).
    if (round != 1) strategy = ci::TrustRegionStrategy::Create(so);
    sys.Fill(2 + round);
    auto r = b;
    if (round == 1) {
      if (where < cells) {
        sys.m->mutable_values()[where] = bad;
        sys.Forms();
      } else {
        r[where - cells] = bad;
      }
    }
    mc::Step();
    vector<double> x(sys.a.c, 0.0);
    const auto summary = strategy->ComputeStep(ps, sys.Get(c.input), r.data(), x.data());
    bool finite = true;
    for (double v : x) finite &= std::isfinite(v);
    const std::string at = c.name + (lm ? " LM " : " dogleg ") + s.Str() + " where " + std::to_string(where) + " value " + std::to_string(bad) + " round " + std::to_string(round);
    const bool used = summary.termination_type == TT::SUCCESS || summary.termination_type == TT::NO_CONVERGENCE;
    MC_REQUIRE(!used || finite) << "the step " << Str(x) << " is given as valid by " << at;
    if (round == 0) MC_REQUIRE(used) << "no step for a good system: " << at;
    if (round == 2) MC_REQUIRE(used) << "no step for a good system after a bad one: " << at;
    if (used) strategy->StepAccepted(1.0); else strategy->StepIsInvalid();
    mc::Cover(used ? "step" : "failure");
  }
  mc::Outcome(mc::H()(ci_)(where).h);
}

// Rank deficiency without regularisation: whatever the solver says, it never
// calls a non-finite answer a success, and an exactly zero pivot is an error.
MC_SCENARIO(RankDeficient, .split = 3, .weight = 2) {
  FreshContext();
  auto s = ChooseSchur({{1, 1, 1}, {2, 2, 2}}, 2, 2, 2, 1, 1);
  if (s.split) return;
  const int col = mc::Choose(s.Cols(), "zero column");
  if (mc::Skipping()) return;
  for (const auto& c : Configs()) {
    if (c.o.preconditioner_type == ceres::SUBSET || c.o.use_mixed_precision_solves || c.iterative || c.o.type == ceres::DENSE_QR) continue;
    // Schur solvers are told that the eliminated blocks have full rank.
    if (c.schur && col < s.ColPos(s.num_e)) continue;
    auto o = c.o;
    o.context = Context();
    o.elimination_groups = {s.num_e, static_cast<int>(s.cols.size()) - s.num_e};
    auto solver = LinearSolver::Create(o);
    System sys(s);
    sys.Fill(2);
    const auto* bs = sys.m->block_structure();
    for (const auto& row : bs->rows)
      for (const auto& cell : row.cells) {
        const int j = col - s.ColPos(cell.block_id), w = s.cols[cell.block_id];
        if (j >= 0 && j < w) for (int i = 0; i < row.block.size; ++i) sys.m->mutable_values()[cell.position + i * w + j] = 0;
      }
    sys.Forms();
    const auto b = Ints(sys.a.r, 3);
    if (c.schur && !MakeRef(s, sys.a, b, {}, false).ok) continue;
    mc::Step();
    vector<double> x(sys.a.c, 5.0);
    LinearSolver::PerSolveOptions ps;
    const auto summary = solver->Solve(sys.Get(c.input), b.data(), ps, x.data());
    const std::string at = c.name + " zero column " + std::to_string(col) + " " + s.Str() + ": " + summary.message;
    // (QR leaves it to its caller to look for non-finite answers.)
    MC_REQUIRE(summary.termination_type != TT::SUCCESS) << "success with " << Str(x) << " " << at;
    mc::Cover(summary.termination_type == TT::SUCCESS ? "success" : "failure");
  }
  mc::Outcome(mc::H()(s.Str())(col).h);
}

MC_SCENARIO(ZeroEBlocks, .split = 1, .single = true) {
  const std::pair<ceres::LinearSolverType, ceres::LinearSolverType> table[] = {
      {ceres::DENSE_NORMAL_CHOLESKY, ceres::DENSE_NORMAL_CHOLESKY}, {ceres::DENSE_QR, ceres::DENSE_QR}, {ceres::SPARSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY},
      {ceres::DENSE_SCHUR, ceres::DENSE_QR}, {ceres::SPARSE_SCHUR, ceres::SPARSE_NORMAL_CHOLESKY}, {ceres::ITERATIVE_SCHUR, ceres::CGNR}, {ceres::CGNR, ceres::CGNR}};
  auto& t = table[mc::Choose(7, "type")];
  MC_REQUIRE(LinearSolver::LinearSolverForZeroEBlocks(t.first) == t.second) << "without eliminated blocks: " << ceres::LinearSolverTypeToString(t.first);
  mc::Step();
  mc::Outcome(t.first);
}
}  // namespace
