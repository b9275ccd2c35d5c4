// C30: what an operation on a Problem does depends on the content of the problem
// and on nothing else: not on what was solved, evaluated, aborted or changed before,
// not on options or orderings having been used before, not on other problems.
// Every history of operations is executed; after each operation a problem is built
// afresh with the same content, given the same operation, and compared bit by bit.
#include <cstdio>

#include "ceres/covariance.h"
#include "ceres/evaluation_callback.h"
#include "ceres/iteration_callback.h"
#include "ceres/ordered_groups.h"
#include "ceres/solver.h"
#include "nls.h"

namespace {
using ceres::Problem;
using ceres::Solver;
using nls::FCost;
using std::string;
using std::vector;

constexpr int kBlocks = 3;
const int kSizes[kBlocks] = {2, 3, 1};
const int kOffset[kBlocks] = {0, 2, 5};
constexpr int kMemory = 6;
const double kStart[kMemory] = {1, -0.5, 0.25, 1.5, -1, 0.75};
struct ResDef { vector<int> blocks; int m, salt, loss; };
const ResDef kRes[] = {{{0}, 2, 1, nls::kNull}, {{0, 1}, 3, 2, nls::kConcave}, {{1, 2}, 3, 3, nls::kNull}, {{2}, 1, 4, nls::kConvex}, {{1}, 3, 5, nls::kNull}, {{0, 2}, 2, 6, nls::kFour}};
constexpr int kNumRes = 6;
constexpr int kInitialRes = 5;

// Objects every problem shares; they have no state of their own.
struct Shared {
  vector<std::unique_ptr<FCost>> costs;
  vector<std::unique_ptr<nls::Loss>> losses;
  std::unique_ptr<nls::Twisted> twisted;
  int fail_at = 0, calls = 0;
  Shared() {
    for (auto& r : kRes) {
      poly::Poly p;
      for (int b : r.blocks) p.sizes.push_back(kSizes[b]);
      p.m = r.m;
      p.salt = r.salt;
      costs.push_back(std::make_unique<FCost>(p));
      costs.back()->hook = [this](double const* const*, double*, double**) { return ++calls == fail_at ? 0 : -1; };
      losses.emplace_back(r.loss == nls::kNull ? nullptr : new nls::Loss(r.loss));
    }
    twisted = std::make_unique<nls::Twisted>(3);
  }
};
// The content of a problem, in its order.
struct Content {
  vector<int> blocks, res;
  bool constant[kBlocks] = {}, manifold[kBlocks] = {}, bound[kBlocks] = {};
};
struct Stop : ceres::IterationCallback {
  ceres::CallbackReturnType answer = ceres::SOLVER_CONTINUE;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override { return s.iteration >= 1 ? answer : ceres::SOLVER_CONTINUE; }
};
struct Prepare : ceres::EvaluationCallback {
  int jacobians = 0, points = 0;
  void PrepareForEvaluation(bool j, bool p) override { jacobians += j; points += p; }
};
enum Op {
  kDenseQr, kSparseDogleg, kDenseSchur, kSparseSchurInner, kIterativeSchur, kSubset, kLbfgs, kDynamic, kNoIterations, kInner, kAbort, kStopEarly, kFail, kGradients, kInvalid, kNumSolves,
  kEvaluate = kNumSolves, kEvaluatePart, kEvaluateOne, kCovariance, kNumCompared,
  kConstant0 = kNumCompared, kConstant1, kManifold1, kBound0, kBound2, kRemoveRes1, kAddRes5, kResetValues, kRemoveBlock0, kMove, kNumOps
};
const char* const kOpName[] = {"DENSE_QR", "dogleg", "DENSE_SCHUR", "SPARSE_SCHUR+inner", "ITERATIVE_SCHUR", "SUBSET", "LBFGS", "dynamic sparsity", "no iterations", "inner", "abort",
  "stop", "fail", "check gradients", "invalid options", "Evaluate", "Evaluate part", "EvaluateResidualBlock", "Covariance",
  "toggle constant 0", "toggle constant 1", "toggle manifold 1", "toggle bound 0", "toggle bound 2", "remove residual 1", "add residual 5", "reset values", "remove or add block 0", "move problem"};

struct World {
  Shared& sh;
  double* mem;
  std::unique_ptr<Problem> problem;
  std::map<ceres::ResidualBlockId, int> index;
  Solver::Options options[kNumSolves];
  Stop abort, stop;
  std::unique_ptr<ceres::Covariance> covariance;
  bool fast;
  ceres::Context* context;
  Prepare prepare;
  double* Ptr(int b) { return mem + kOffset[b]; }
  World(Shared& sh, double* mem, bool fast, bool callback, ceres::Context* context, const Content& c) : sh(sh), mem(mem), fast(fast), context(context) {
    Problem::Options o;
    o.cost_function_ownership = o.loss_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    o.manifold_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    o.enable_fast_removal = fast;
    o.context = context;
    if (callback) o.evaluation_callback = &prepare;
    problem = std::make_unique<Problem>(o);
    for (int b : c.blocks) AddBlock(b);
    for (int r : c.res) AddRes(r);
    for (int b : c.blocks) Apply(b, c);
    abort.answer = ceres::SOLVER_ABORT;
    stop.answer = ceres::SOLVER_TERMINATE_SUCCESSFULLY;
    for (int k = 0; k < kNumSolves; ++k) {
      Solver::Options& s = options[k];
      s.logging_type = ceres::SILENT;
      s.max_num_iterations = 4;
      s.linear_solver_type = ceres::DENSE_QR;
      s.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
      auto ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      ordering->AddElementToGroup(Ptr(1), 3);
      ordering->AddElementToGroup(Ptr(0), 7);
      ordering->AddElementToGroup(Ptr(2), 7);
      switch (k) {
        case kSparseDogleg:
          s.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY;
          s.trust_region_strategy_type = ceres::DOGLEG;
          s.dogleg_type = ceres::SUBSPACE_DOGLEG;
          s.linear_solver_ordering = ordering;
          break;
        case kDenseSchur: s.linear_solver_type = ceres::DENSE_SCHUR; s.linear_solver_ordering = ordering; s.use_nonmonotonic_steps = true; break;
        case kSparseSchurInner: s.linear_solver_type = ceres::SPARSE_SCHUR; s.use_inner_iterations = true; break;
        case kIterativeSchur: s.linear_solver_type = ceres::ITERATIVE_SCHUR; s.preconditioner_type = ceres::CLUSTER_TRIDIAGONAL; s.linear_solver_ordering = ordering; break;
        case kSubset: s.linear_solver_type = ceres::CGNR; s.preconditioner_type = ceres::SUBSET; s.linear_solver_ordering = ordering; break;
        case kLbfgs: s.minimizer_type = ceres::LINE_SEARCH; break;
        case kDynamic: s.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY; s.dynamic_sparsity = true; break;
        case kNoIterations: s.max_num_iterations = 0; s.linear_solver_type = ceres::CGNR; break;
        case kInner: s.use_inner_iterations = true; s.inner_iteration_ordering = ordering; s.linear_solver_type = ceres::DENSE_NORMAL_CHOLESKY; break;
        case kAbort: s.callbacks.push_back(&abort); break;
        case kStopEarly: s.callbacks.push_back(&stop); s.update_state_every_iteration = true; break;
        case kFail: s.minimizer_type = ceres::TRUST_REGION; break;
        case kGradients: s.check_gradients = true; s.gradient_check_relative_precision = 1e-3; break;
        case kInvalid: s.max_num_iterations = -1; break;
        default: break;
      }
    }
  }
  void AddBlock(int b) { problem->AddParameterBlock(Ptr(b), kSizes[b]); }
  void AddRes(int r) {
    vector<double*> p;
    for (int b : kRes[r].blocks) p.push_back(Ptr(b));
    index[problem->AddResidualBlock(sh.costs[r].get(), sh.losses[r].get(), p)] = r;
  }
  void Apply(int b, const Content& c) {
    if (c.constant[b]) problem->SetParameterBlockConstant(Ptr(b)); else problem->SetParameterBlockVariable(Ptr(b));
    if (b == 1) problem->SetManifold(Ptr(b), c.manifold[b] ? sh.twisted.get() : nullptr);
    if (b != 1) problem->SetParameterUpperBound(Ptr(b), 0, c.bound[b] ? 1.25 : nls::kMax);
  }
  vector<int> Blocks() {
    vector<double*> p;
    problem->GetParameterBlocks(&p);
    vector<int> out;
    for (double* q : p) for (int b = 0; b < kBlocks; ++b) if (q == Ptr(b)) out.push_back(b);
    return out;
  }
  vector<int> Residuals(vector<ceres::ResidualBlockId>* ids = nullptr) {
    vector<ceres::ResidualBlockId> p;
    problem->GetResidualBlocks(&p);
    vector<int> out;
    for (auto q : p) out.push_back(index.count(q) ? index[q] : -1);
    if (ids) *ids = p;
    return out;
  }
};
// What an operation returned, except for times and addresses.
struct Result {
  vector<std::pair<const char*, double>> v;
  string text;
  void operator()(const char* n, double d) { v.emplace_back(n, d); }
  void operator()(const char* n, const vector<double>& d) { (*this)(n, static_cast<double>(d.size())); for (double x : d) (*this)(n, x); }
  void operator()(const char* n, const vector<int>& d) { (*this)(n, static_cast<double>(d.size())); for (int x : d) (*this)(n, x); }
  string Diff(const Result& o) const {
    std::ostringstream s;
    s.precision(17);
    for (size_t i = 0; i < v.size() && i < o.v.size(); ++i)
      if (string(v[i].first) != o.v[i].first || !vu::Same(v[i].second, o.v[i].second)) {
        s << v[i].first << " " << v[i].second << ", afresh " << o.v[i].first << " " << o.v[i].second;
        return s.str();
      }
    if (v.size() != o.v.size()) return "a different number of results";
    if (text != o.text) return "'" + text + "', afresh '" + o.text + "'";
    return "";
  }
};
void Record(const Solver::Summary& s, Result* r) {
  Result& q = *r;
  q("termination", s.termination_type);
  q("initial cost", s.initial_cost);
  q("final cost", s.final_cost);
  q("fixed cost", s.fixed_cost);
  q("successful", s.num_successful_steps);
  q("unsuccessful", s.num_unsuccessful_steps);
  q("inner steps", s.num_inner_iteration_steps);
  q("line search steps", s.num_line_search_steps);
  q("linear solves", s.num_linear_solves);
  q("residual evaluations", s.num_residual_evaluations);
  q("jacobian evaluations", s.num_jacobian_evaluations);
  q("parameter blocks", s.num_parameter_blocks);
  q("parameters", s.num_parameters);
  q("effective parameters", s.num_effective_parameters);
  q("residual blocks", s.num_residual_blocks);
  q("residuals", s.num_residuals);
  q("parameter blocks reduced", s.num_parameter_blocks_reduced);
  q("parameters reduced", s.num_parameters_reduced);
  q("effective parameters reduced", s.num_effective_parameters_reduced);
  q("residual blocks reduced", s.num_residual_blocks_reduced);
  q("residuals reduced", s.num_residuals_reduced);
  q("constrained", s.is_constrained);
  q("threads", s.num_threads_used);
  q("solver", s.linear_solver_type_used);
  q("preconditioner", s.preconditioner_type_used);
  q("ordering given", s.linear_solver_ordering_given);
  q("ordering used", s.linear_solver_ordering_used);
  q("inner ordering given", s.inner_iteration_ordering_given);
  q("inner ordering used", s.inner_iteration_ordering_used);
  for (auto& i : s.iterations) {
    q("cost", i.cost);
    q("cost change", i.cost_change);
    q("gradient", i.gradient_max_norm);
    q("gradient norm", i.gradient_norm);
    q("step", i.step_norm);
    q("ratio", i.relative_decrease);
    q("radius", i.trust_region_radius);
    q("eta", i.eta);
    q("step size", i.step_size);
    q("valid", i.step_is_valid);
    q("successful step", i.step_is_successful);
    q("nonmonotonic", i.step_is_nonmonotonic);
    q("linear iterations", i.linear_solver_iterations);
    q("function evaluations", i.line_search_function_evaluations);
  }
  q.text = s.message + "|" + s.schur_structure_given + "|" + s.schur_structure_used;
}
void RecordJacobian(const ceres::CRSMatrix& m, Result* q) {
  (*q)("rows", m.num_rows);
  (*q)("cols", m.num_cols);
  (*q)("row", m.rows);
  (*q)("col", m.cols);
  (*q)("value", m.values);
}
// One of the operations that do not change the content.
void Do(World& w, int op, Result* q) {
  w.sh.calls = 0;
  w.sh.fail_at = 0;
  w.prepare.jacobians = w.prepare.points = 0;
  Problem& p = *w.problem;
  vector<ceres::ResidualBlockId> ids;
  const auto res = w.Residuals(&ids);
  const auto blocks = w.Blocks();
  if (op < kNumSolves) {
    if (op == kFail) w.sh.fail_at = 12;
    if (op == kSubset) {
      auto& set = w.options[op].residual_blocks_for_subset_preconditioner;
      set.clear();
      if (!ids.empty()) set.insert(ids.begin(), ids.begin() + (ids.size() + 1) / 2);
    }
    Solver::Summary s;
    ceres::Solve(w.options[op], &p, &s);
    Record(s, q);
    if (s.IsSolutionUsable()) mc::Cover("usable"); else mc::Cover("not usable");
    for (const auto* o : {w.options[op].linear_solver_ordering.get(), w.options[op].inner_iteration_ordering.get()}) {
      if (o == nullptr) continue;
      (*q)("groups of the user", o->NumGroups());
      for (int b = 0; b < kBlocks; ++b) (*q)("group of the user", o->GroupId(w.Ptr(b)));
    }
  } else if (op == kEvaluate || op == kEvaluatePart) {
    Problem::EvaluateOptions o;
    if (op == kEvaluatePart) {
      for (size_t i = ids.size(); i-- > 0;) if (res[i] != 2) o.residual_blocks.push_back(ids[i]);
      for (size_t i = blocks.size(); i-- > 0;) if (blocks[i] != 2) o.parameter_blocks.push_back(w.Ptr(blocks[i]));
      o.apply_loss_function = false;
    }
    double c = -1;
    vector<double> r, g;
    ceres::CRSMatrix j;
    (*q)("ok", p.Evaluate(o, &c, &r, &g, &j));
    (*q)("cost", c);
    (*q)("residual", r);
    (*q)("gradient", g);
    RecordJacobian(j, q);
  } else if (op == kEvaluateOne) {
    for (size_t i = 0; i < ids.size(); ++i) {
      const ResDef& d = kRes[res[i]];
      double c = -1;
      vector<double> r(d.m);
      vector<vector<double>> j;
      vector<double*> jp;
      // One column per tangent dimension; kept from the run's own rows.
      for (int b : d.blocks) j.emplace_back(d.m * kSizes[b], 0.0);
      for (size_t k = 0; k < j.size(); ++k) jp.push_back(p.IsParameterBlockConstant(w.Ptr(d.blocks[k])) ? nullptr : j[k].data());
      (*q)("ok", p.EvaluateResidualBlock(ids[i], true, &c, r.data(), jp.data()));
      (*q)("cost", c);
      (*q)("residual", r);
      for (auto& v : j) (*q)("jacobian", v);
    }
  } else {
    ceres::Covariance::Options o;
    o.algorithm_type = ceres::DENSE_SVD;
    o.null_space_rank = -1;
    if (!w.covariance) w.covariance = std::make_unique<ceres::Covariance>(o);
    vector<std::pair<const double*, const double*>> pairs;
    for (int b : blocks) if (b > 0) pairs.emplace_back(w.Ptr(b), w.Ptr(b));
    const bool ok = w.covariance->Compute(pairs, &p);
    (*q)("ok", ok);
    if (ok)
      for (auto& pr : pairs) {
        vector<double> v(9, -1);
        (*q)("ok", w.covariance->GetCovarianceBlock(pr.first, pr.second, v.data()));
        (*q)("covariance", v);
      }
  }
  w.sh.fail_at = 0;
  (*q)("calls", w.sh.calls);
  (*q)("callback for jacobians", w.prepare.jacobians);
  (*q)("callback for points", w.prepare.points);
  (*q)("values", vector<double>(w.mem, w.mem + kMemory));
  // The content must be as it was.
  (*q)("blocks", w.Blocks());
  (*q)("residual blocks", w.Residuals());
  for (int b : blocks) {
    (*q)("constant", p.IsParameterBlockConstant(w.Ptr(b)));
    (*q)("manifold", p.GetManifold(w.Ptr(b)) != nullptr);
    (*q)("tangent", p.ParameterBlockTangentSize(w.Ptr(b)));
    (*q)("bound", p.GetParameterUpperBound(w.Ptr(b), 0));
  }
}
void Mutate(World& w, int op, Content* c) {
  auto has = [&](int b) { return std::count(c->blocks.begin(), c->blocks.end(), b) > 0; };
  auto toggle = [&](bool* flag, int b) { if (has(b)) { *flag = !*flag; w.Apply(b, *c); } };
  switch (op) {
    case kConstant0: toggle(&c->constant[0], 0); break;
    case kConstant1: toggle(&c->constant[1], 1); break;
    case kManifold1: toggle(&c->manifold[1], 1); break;
    case kBound0: toggle(&c->bound[0], 0); break;
    case kBound2: toggle(&c->bound[2], 2); break;
    case kRemoveRes1:
      for (auto& kv : w.index) if (kv.second == 1) { w.problem->RemoveResidualBlock(kv.first); w.index.erase(kv.first); break; }
      break;
    case kAddRes5: if (has(0) && has(2)) w.AddRes(5); break;
    case kResetValues: std::copy(kStart, kStart + kMemory, w.mem); break;
    case kRemoveBlock0:
      if (has(0)) {
        w.problem->RemoveParameterBlock(w.Ptr(0));
        for (auto it = w.index.begin(); it != w.index.end();)
          if (kRes[it->second].blocks[0] == 0) it = w.index.erase(it); else ++it;
        c->constant[0] = c->bound[0] = false;
        // The last one takes the place of the one removed.
        std::replace(c->blocks.begin(), c->blocks.end(), 0, c->blocks.back());
        c->blocks.pop_back();
      } else {
        w.AddBlock(0);
        c->blocks.push_back(0);
        w.AddRes(1);
      }
      break;
    case kMove: {
      Problem other(std::move(*w.problem));
      *w.problem = std::move(other);
      break;
    }
  }
  c->res = w.Residuals();
}
Content Initial(int kind) {
  Content c;
  c.blocks = {0, 1, 2};
  for (int r = 0; r < kInitialRes; ++r) c.res.push_back(r);
  if (kind == 1) { c.constant[2] = true; c.manifold[1] = true; }
  return c;
}
uint64_t Hash(const Result& r) {
  mc::H h;
  for (auto& e : r.v) h(e.second);
  return h.h;
}
string Compare(World& w, const Content& c, int op, bool callback) {
  // The same content afresh, in memory of its own that is laid out in the same way.
  vector<double> mem(w.mem, w.mem + kMemory);
  World fresh(w.sh, mem.data(), w.fast, callback, nullptr, c);
  Result got, want;
  Do(w, op, &got);
  Do(fresh, op, &want);
  mc::State(Hash(got));
  return got.Diff(want);
}
void History(int depth, const vector<int>& ops, bool fast, bool callback, int kind) {
  Shared sh;
  Content c = Initial(kind);
  vector<double> mem(kStart, kStart + kMemory);
  World w(sh, mem.data(), fast, callback, nullptr, c);
  string trace;
  uint64_t h = 0;
  for (int i = 0; i < depth; ++i) {
    const int op = mc::Pick(ops, "operation");
    if (mc::Skipping()) return;
    if (mc::Tracing()) mc::Note(kOpName[op]);
    mc::Step();
    if (op >= kNumCompared) { Mutate(w, op, &c); h = mc::Mix(h, op); continue; }
    const string d = Compare(w, c, op, callback);
    MC_REQUIRE(d.empty()) << kOpName[op] << " as operation " << i + 1 << " of a history: " << d;
    for (double v : mem) h = mc::HashD(v, h);
  }
  mc::Outcome(h);
}
vector<int> AllOps() { vector<int> v; for (int i = 0; i < kNumOps; ++i) v.push_back(i); return v; }
MC_SCENARIO(histories, .split = 3, .weight = 4) {
  const bool fast = mc::Flip("fast removal");
  const int kind = mc::Choose(2, "content");
  History(mc::Bound(3, 4, 2), AllOps(), fast, false, kind);
}
MC_SCENARIO(with_evaluation_callback, .split = 2) { History(mc::Bound(2, 3), AllOps(), false, true, mc::Choose(2, "content")); }
MC_SCENARIO(deep, .split = 3, .weight = 2) {
  History(mc::Bound(5, 6, 3), {kDenseSchur, kFail, kEvaluatePart, kConstant1, kManifold1, kRemoveBlock0, kInner}, mc::Flip("fast removal"), false, 0);
}
// Several problems over the same memory, with the same cost functions and one
// context; an operation on one of them must not depend on the others.
MC_SCENARIO(interleaved, .split = 3, .weight = 2) {
  Shared sh;
  const bool share = mc::Flip("context");
  std::unique_ptr<ceres::Context> context(ceres::Context::Create());
  vector<double> mem(kStart, kStart + kMemory);
  Content c[2] = {Initial(0), Initial(1)};
  c[1].res = {3, 1, 2};
  c[1].blocks = {2, 1, 0};
  World a(sh, mem.data(), false, false, share ? context.get() : nullptr, c[0]);
  World b(sh, mem.data(), true, false, share ? context.get() : nullptr, c[1]);
  const vector<int> ops = {kDenseQr, kDenseSchur, kIterativeSchur, kInner, kLbfgs, kAbort, kFail, kEvaluatePart, kCovariance, kConstant0, kManifold1, kBound0, kRemoveRes1, kResetValues};
  uint64_t h = 0;
  const int depth = mc::Bound(3, 4, 2);
  for (int i = 0; i < depth; ++i) {
    const int which = mc::Choose(2, "problem");
    const int op = mc::Pick(ops, "operation");
    if (mc::Skipping()) return;
    World& w = which ? b : a;
    mc::Step();
    if (op >= kNumCompared) { Mutate(w, op, &c[which]); h = mc::Mix(h, op); continue; }
    const string d = Compare(w, c[which], op, false);
    MC_REQUIRE(d.empty()) << kOpName[op] << " on problem " << which << " as operation " << i + 1 << ": " << d;
    for (double v : mem) h = mc::HashD(v, h);
  }
  mc::Outcome(h);
}
}  // namespace
