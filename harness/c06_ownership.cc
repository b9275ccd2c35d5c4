// C06: objects handed to a problem or to a wrapper die exactly once, exactly when due.
#include <algorithm>
#include <cstdlib>
#include <new>

#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/c_api.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/context.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/evaluation_callback.h"
#include "ceres/gradient_problem.h"
#include "ceres/iteration_callback.h"
#include "ceres/line_manifold.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
#include "ceres/problem.h"
#include "ceres/product_manifold.h"
#include "ceres/solver.h"
#include "ceres/sphere_manifold.h"
#include "polyfun.h"

// ---- allocation balance, double free and use-after-free detection ----------
namespace {
constexpr uint64_t kLive = 0x11fe11fe11fe11feull, kDead = 0xdeaddeaddeaddeadull;
long live_bytes = 0;
struct Header { uint64_t magic; uint64_t size; };
void* Take(size_t n) {
  auto* h = static_cast<Header*>(std::malloc(n + sizeof(Header)));
  if (!h) abort();
  h->magic = kLive;
  h->size = mc::in_explorer ? 0 : n;  // what the explorer keeps is not the code's
  n = h->size;
  __atomic_add_fetch(&live_bytes, static_cast<long>(n), __ATOMIC_RELAXED);
  return h + 1;
}
void Give(void* p) {
  if (!p) return;
  auto* h = static_cast<Header*>(p) - 1;
  if (h->magic != kLive) {
    fprintf(stderr, "released twice (or not allocated)\n");
    abort();
  }
  h->magic = kDead;
  __atomic_sub_fetch(&live_bytes, static_cast<long>(h->size), __ATOMIC_RELAXED);
  std::memset(p, 0xEF, h->size);
  // A short quarantine keeps the poison in place for a while.
  static void* ring[64];
  static unsigned at;
  const unsigned i = __atomic_fetch_add(&at, 1u, __ATOMIC_RELAXED) % 64;
  std::free(__atomic_exchange_n(&ring[i], static_cast<void*>(h), __ATOMIC_RELAXED));
}
}  // namespace
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }

namespace {
using ceres::DO_NOT_TAKE_OWNERSHIP;
using ceres::Ownership;
using ceres::Problem;
using ceres::ResidualBlockId;
using ceres::TAKE_OWNERSHIP;

// A registry of objects that count their destruction.
struct Tracker {
  int deaths[64] = {};
  int next = 0;
  int New() { return next++; }
};
Tracker* tracker;
struct Tracked {
  int id;
  Tracked() : id(tracker->New()) {}
  Tracked(const Tracked&) = delete;
  ~Tracked() {
    ++tracker->deaths[id];
    id = -1;
  }
  void Alive() const { if (id < 0 || id >= 64) MC_FAIL() << "object used after its destruction"; }
};

struct TCost : ceres::CostFunction {
  Tracked t;
  poly::Poly p;
  explicit TCost(std::vector<int> sizes, int m = 1) {
    p.sizes = sizes;
    p.m = m;
    p.linear = true;
    set_num_residuals(m);
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    t.Alive();
    return poly::Cost(p).Evaluate(x, r, j);
  }
};
struct TLoss : ceres::LossFunction {
  Tracked t;
  void Evaluate(double s, double* rho) const override { t.Alive(); rho[0] = 2 * s; rho[1] = 2; rho[2] = 0; }
};
struct TManifold : ceres::Manifold {
  Tracked t;
  ceres::SubsetManifold m{2, {1}};
  int AmbientSize() const override { t.Alive(); return 2; }
  int TangentSize() const override { t.Alive(); return 1; }
  bool Plus(const double* x, const double* d, double* y) const override { t.Alive(); return m.Plus(x, d, y); }
  bool PlusJacobian(const double* x, double* J) const override { t.Alive(); return m.PlusJacobian(x, J); }
  bool Minus(const double* y, const double* x, double* d) const override { t.Alive(); return m.Minus(y, x, d); }
  bool MinusJacobian(const double* x, double* J) const override { t.Alive(); return m.MinusJacobian(x, J); }
};

// A slot of one kind of object: recreated when the current one has died.
template <typename T>
struct Slot {
  T* obj = nullptr;
  int id = -1;
  int users = 0;
  bool given = false;
};

struct World {
  Tracker tr;
  double x[3][2] = {{1, 2}, {3, 4}, {5, 6}};
  Ownership own_c, own_l, own_m;
  bool fast;
  std::unique_ptr<Problem> problem;
  std::vector<Slot<TCost>> costs{3};
  std::vector<Slot<TLoss>> losses{2};
  std::vector<Slot<TManifold>> manifolds{2};
  std::vector<bool> must_be_dead = std::vector<bool>(64, false);
  struct R { ResidualBlockId id; int c, l; std::vector<int> blocks; };
  std::vector<R> res;
  bool have[3] = {};
  int man[3] = {-1, -1, -1};

  World(bool fast, int own) : fast(fast) {
    tracker = &tr;
    own_c = (own & 1) ? DO_NOT_TAKE_OWNERSHIP : TAKE_OWNERSHIP;
    own_l = (own & 2) ? DO_NOT_TAKE_OWNERSHIP : TAKE_OWNERSHIP;
    own_m = (own & 4) ? DO_NOT_TAKE_OWNERSHIP : TAKE_OWNERSHIP;
    problem = std::make_unique<Problem>(Opt());
  }
  Problem::Options Opt() {
    Problem::Options o;
    o.cost_function_ownership = own_c;
    o.loss_function_ownership = own_l;
    o.manifold_ownership = own_m;
    o.enable_fast_removal = fast;
    return o;
  }
  template <typename T, typename F>
  T* Get(Slot<T>& s, F make) {
    if (!s.obj) { s.obj = make(); s.id = s.obj->t.id; s.given = false; s.users = 0; }
    return s.obj;
  }
  static std::vector<int> CostBlocks(int c) { return c == 0 ? std::vector<int>{2} : c == 1 ? std::vector<int>{2, 2} : std::vector<int>{2}; }
  TCost* C(int c) { return Get(costs[c], [&] { return new TCost(CostBlocks(c)); }); }
  TLoss* L(int l) { return Get(losses[l], [&] { return new TLoss; }); }
  TManifold* M(int m) { return Get(manifolds[m], [&] { return new TManifold; }); }

  void Add(int c, int l, std::vector<int> b) {
    std::vector<double*> p;
    for (int i : b) { p.push_back(x[i]); have[i] = true; }
    TCost* cf = C(c);
    TLoss* lf = l < 0 ? nullptr : L(l);
    auto id = problem->AddResidualBlock(cf, lf, p);
    costs[c].given = true;
    ++costs[c].users;
    if (l >= 0) { losses[l].given = true; ++losses[l].users; }
    res.push_back({id, c, l, b});
  }
  template <typename T>
  void Drop(Slot<T>& s, Ownership own) {
    if (--s.users == 0 && own == TAKE_OWNERSHIP) {
      must_be_dead[s.id] = true;
      s = Slot<T>();
    }
  }
  void Forget(size_t i) {
    Drop(costs[res[i].c], own_c);
    if (res[i].l >= 0) Drop(losses[res[i].l], own_l);
    res.erase(res.begin() + i);
  }
  void RemoveBlock(int b) {
    problem->RemoveParameterBlock(x[b]);
    have[b] = false;
    man[b] = -1;
    for (size_t i = res.size(); i-- > 0;)
      if (std::find(res[i].blocks.begin(), res[i].blocks.end(), b) != res[i].blocks.end()) Forget(i);
  }
  void Check(const char* when) {
    for (int i = 0; i < tr.next; ++i)
      MC_EXPECT(tr.deaths[i] == (must_be_dead[i] ? 1 : 0)) << "object " << i << " died " << tr.deaths[i] << " times, " << when;
  }
  // The problem is gone: what it owned must be gone too.
  void Gone(const char* when) {
    for (size_t i = res.size(); i-- > 0;) Forget(i);
    if (own_m == TAKE_OWNERSHIP)
      for (auto& m : manifolds)
        if (m.given) { must_be_dead[m.id] = true; m = Slot<TManifold>(); }
    Check(when);
  }
  void Cleanup() {
    for (auto& s : costs) if (s.obj) { must_be_dead[s.id] = true; delete s.obj; }
    for (auto& s : losses) if (s.obj) { must_be_dead[s.id] = true; delete s.obj; }
    for (auto& s : manifolds) if (s.obj) { must_be_dead[s.id] = true; delete s.obj; }
    Check("after the user released what was his");
  }
  uint64_t Hash() const {
    mc::H h;
    h(fast)(own_c)(own_l)(own_m);
    for (auto& r : res) { h(r.c)(r.l); for (int b : r.blocks) h(b); h(-1); }
    for (int b = 0; b < 3; ++b) h(have[b])(man[b]);
    for (auto& s : costs) h(s.obj != nullptr)(s.users);
    for (auto& s : losses) h(s.obj != nullptr)(s.users);
    for (auto& s : manifolds) h(s.given);
    return h.h;
  }
};

bool Act(World& w, bool full) {
  std::vector<std::function<void()>> acts;
  std::vector<std::string> names;
  auto A = [&](std::string n, std::function<void()> f) { names.push_back(n); acts.push_back(std::move(f)); };
  if (w.res.size() < 4) {
    for (int c = 0; c < (full ? 3 : 2); ++c)
      for (int l = -1; l < (full ? 2 : 1); ++l) {
        const std::vector<int> b = c == 1 ? std::vector<int>{0, 1} : std::vector<int>{c == 0 ? 0 : 1};
        A("add cost " + std::to_string(c) + " loss " + std::to_string(l), [&w, c, l, b] { w.Add(c, l, b); });
      }
    A("add cost 0 on another block", [&w] { w.Add(0, 0, {1}); });
  }
  for (size_t i = 0; i < w.res.size(); ++i)
    A("remove residual #" + std::to_string(i), [&w, i] { w.problem->RemoveResidualBlock(w.res[i].id); w.Forget(i); });
  for (int b = 0; b < 2; ++b) {
    for (int m = 0; m < (full ? 2 : 1) && !w.have[b]; ++m)
      A("add block with manifold", [&w, b, m] { w.problem->AddParameterBlock(w.x[b], 2, w.M(m)); w.manifolds[m].given = true; w.have[b] = true; w.man[b] = m; });
    if (!w.have[b]) continue;
    A("remove block " + std::to_string(b), [&w, b] { w.RemoveBlock(b); });
    for (int m = 0; m < 2; ++m)
      A("manifold " + std::to_string(b) + " " + std::to_string(m), [&w, b, m] { w.problem->SetManifold(w.x[b], w.M(m)); w.manifolds[m].given = true; w.man[b] = m; });
    if (w.man[b] >= 0) A("no manifold " + std::to_string(b), [&w, b] { w.problem->SetManifold(w.x[b], nullptr); w.man[b] = -1; });
  }
  if (full && !w.res.empty()) {
    A("evaluate", [&w] { double c; MC_EXPECT(w.problem->Evaluate({}, &c, nullptr, nullptr, nullptr)); });
    for (int g = 0; g < 2; ++g)
      A(g ? "solve checking gradients" : "solve", [&w, g] {
        ceres::Solver::Options o;
        o.linear_solver_type = g ? ceres::DENSE_QR : ceres::DENSE_SCHUR;
        o.max_num_iterations = 1;
        o.logging_type = ceres::SILENT;
        o.check_gradients = g;
        ceres::Solver::Summary s;
        ceres::Solve(o, w.problem.get(), &s);
      });
  }
  const int k = mc::Choose(static_cast<int>(acts.size()), "operation");
  if (mc::Skipping()) return false;
  if (mc::Tracing()) mc::Note(names[k]);
  acts[k]();
  mc::Step();
  w.Check(mc::Tracing() ? names[k].c_str() : "");
  mc::State(w.Hash());
  return true;
}

// What is allocated once per process is not a leak.
void WarmUp() {
  static bool done = false;
  if (done) return;
  done = true;
  for (bool check : {false, true}) {
    World w(check, 0);
    w.Add(1, 0, {0, 1});
    w.problem->SetManifold(w.x[0], w.M(0));
    w.manifolds[0].given = true;
    std::vector<double> r, g;
    double c;
    w.problem->Evaluate({}, &c, &r, &g, nullptr);
    for (auto type : {ceres::DENSE_QR, ceres::DENSE_SCHUR}) {
      ceres::Solver::Options o;
      o.linear_solver_type = type;
      o.max_num_iterations = 2;
      o.logging_type = ceres::SILENT;
      o.check_gradients = check;
      ceres::Solver::Summary s;
      ceres::Solve(o, w.problem.get(), &s);
    }
    w.RemoveBlock(0);
    w.problem.reset();
    w.Gone("after warming up");
    w.Cleanup();
  }
}
// Runs `body` and checks that it returns every byte it allocated.
template <typename F>
void Balanced(F body) {
  WarmUp();
  const long before = __atomic_load_n(&live_bytes, __ATOMIC_RELAXED);
  body();
  const long after = __atomic_load_n(&live_bytes, __ATOMIC_RELAXED);
  if (!mc::Failed() && !mc::Skipping()) MC_EXPECT(after == before) << after - before << " bytes leaked";
}

void Finish(World& w, bool choose = true) {
  const int end = choose ? mc::Choose(3, "end") : 0;
  if (mc::Skipping()) return;
  switch (end) {
    case 0: w.problem.reset(); break;
    case 1: {  // moved, then destroyed
      auto q = std::make_unique<Problem>(std::move(*w.problem));
      w.Check("after moving the problem");
      w.problem.reset();
      w.Check("after destroying the moved-from problem");
      q.reset();
      break;
    }
    case 2: {  // overwritten by another problem
      *w.problem = Problem(w.Opt());
      w.Gone("after overwriting the problem");
      w.problem.reset();
      break;
    }
  }
  w.Gone("after destroying the problem");
  w.Cleanup();
}

void Run(bool full, int depth, bool prune) {
  Balanced([&] {
    const bool fast = mc::Flip("fast removal");
    const int own = mc::Choose(8, "ownership");
    World w(fast, own);
    bool stop = false;
    for (int d = 0; d < depth && !stop; ++d) {
      if (!Act(w, full)) return;
      if (mc::Failed()) { w.problem.release(); return; }
      if (prune && mc::Seen(w.Hash(), depth - d - 1)) stop = true;
    }
    if (stop) mc::Trivial();
    mc::Outcome(w.Hash());
    Finish(w, !stop);
  });
}
MC_SCENARIO(histories, .split = 3, .weight = 3) { Run(true, mc::Bound(3, 4), false); }
MC_SCENARIO(deep_histories, .split = 4, .weight = 3) { Run(false, mc::Bound(6, 8), true); }

// Populated problems in every sharing pattern, destroyed in every way.
MC_SCENARIO(sharing, .split = 3, .weight = 2) {
  Balanced([&] {
    const bool fast = mc::Flip("fast removal");
    const int own = mc::Choose(8, "ownership");
    World w(fast, own);
    const int n = mc::Bound(3, 4);
    for (int i = 0; i < n; ++i) {
      const int c = mc::Choose(3, "cost");
      const int l = mc::Choose(3, "loss") - 1;
      if (mc::Skipping()) return;
      w.Add(c, l, c == 1 ? std::vector<int>{i % 2, 2} : std::vector<int>{i % 3});
    }
    const int m0 = mc::Choose(3, "manifold of 0") - 1, m1 = mc::Choose(3, "manifold of 1") - 1;
    if (mc::Skipping()) return;
    for (int b = 0; b < 2; ++b) {
      const int m = b ? m1 : m0;
      if (m < 0 || !w.have[b]) continue;
      w.problem->SetManifold(w.x[b], w.M(m));
      w.manifolds[m].given = true;
    }
    const int drop = mc::Choose(4, "drop");
    if (mc::Skipping()) return;
    if (drop < 3 && w.have[drop]) w.RemoveBlock(drop);
    w.Check("after removing a block");
    mc::Step();
    mc::Outcome(w.Hash());
    Finish(w);
  });
}

// ---- wrappers ---------------------------------------------------------------
struct TFunctor {
  Tracked t;
  template <typename T>
  bool operator()(const T* a, T* r) const { t.Alive(); r[0] = a[0] + a[1]; return true; }
};
struct TDynFunctor {
  Tracked t;
  template <typename T>
  bool operator()(T const* const* a, T* r) const { t.Alive(); r[0] = a[0][0] + a[0][1]; return true; }
};
struct TManFunctor {
  Tracked t;
  template <typename T>
  bool Plus(const T* x, const T* d, T* y) const { t.Alive(); y[0] = x[0] + d[0]; y[1] = x[1] + d[1]; return true; }
  template <typename T>
  bool Minus(const T* y, const T* x, T* d) const { t.Alive(); d[0] = y[0] - x[0]; d[1] = y[1] - x[1]; return true; }
};
struct TFirstOrder : ceres::FirstOrderFunction {
  Tracked t;
  bool Evaluate(const double* x, double* c, double* g) const override { t.Alive(); *c = x[0]; if (g) { g[0] = 1; g[1] = 0; } return true; }
  int NumParameters() const override { return 2; }
};

// Each maker returns an object built around tracked parts, the parts that it
// owns and those it does not.
struct Made {
  ceres::CostFunction* cost = nullptr;
  ceres::LossFunction* loss = nullptr;
  ceres::Manifold* manifold = nullptr;
  ceres::FirstOrderFunction* fof = nullptr;
  std::vector<int> owned;
  std::vector<std::pair<int, std::function<void()>>> mine;
};
template <typename T>
T* Part(Made& m, T* p, Ownership o) {
  if (o == TAKE_OWNERSHIP) m.owned.push_back(p->t.id);
  else m.mine.push_back({p->t.id, [p] { delete p; }});
  return p;
}
constexpr int kWrappers = 34;
template <typename W, typename P>
Made Functored(P* p, Ownership o, int how) {
  Made m;
  Part(m, p, o);
  if (how == 0) m.cost = new W(p, o);
  else if constexpr (std::is_constructible_v<W, std::unique_ptr<P>>) m.cost = new W(std::unique_ptr<P>(p));
  return m;
}
using AD = ceres::AutoDiffCostFunction<TFunctor, 1, 2>;
using ADD = ceres::AutoDiffCostFunction<TFunctor, ceres::DYNAMIC, 2>;
using ND = ceres::NumericDiffCostFunction<TFunctor, ceres::CENTRAL, 1, 2>;
using DAD = ceres::DynamicAutoDiffCostFunction<TDynFunctor, 4>;
using DND = ceres::DynamicNumericDiffCostFunction<TDynFunctor, ceres::CENTRAL>;
using ADF = ceres::AutoDiffFirstOrderFunction<TFunctor, 2>;
using NDF = ceres::NumericDiffFirstOrderFunction<TFunctor, ceres::CENTRAL, 2>;
using NDFD = ceres::NumericDiffFirstOrderFunction<TFunctor, ceres::CENTRAL>;

struct F1 {
  ceres::CostFunctionToFunctor<1, 2> f;
  explicit F1(ceres::CostFunction* c) : f(c) {}
  template <typename U> bool operator()(const U* a, U* r) const { return f(a, r); }
};
struct F2 {
  ceres::DynamicCostFunctionToFunctor f;
  explicit F2(ceres::CostFunction* c) : f(c) {}
  template <typename U> bool operator()(const U* a, U* r) const { return f(&a, r); }
};
template <typename W>
void Sizes(W* w) { w->AddParameterBlock(2); w->SetNumResiduals(1); }

Made Make(int k) {
  const Ownership T = TAKE_OWNERSHIP, N = DO_NOT_TAKE_OWNERSHIP;
  Made m;
  switch (k) {
    case 0: return Functored<AD>(new TFunctor, T, 0);
    case 1: return Functored<AD>(new TFunctor, N, 0);
    case 2: return Functored<AD>(new TFunctor, T, 1);
    case 3: { auto* f = Part(m, new TFunctor, T); m.cost = new ADD(f, 1, T); return m; }
    case 4: { auto* f = Part(m, new TFunctor, N); m.cost = new ADD(f, 1, N); return m; }
    case 5: return Functored<ND>(new TFunctor, T, 0);
    case 6: return Functored<ND>(new TFunctor, N, 0);
    case 7: return Functored<ND>(new TFunctor, T, 1);
    case 8: m = Functored<DAD>(new TDynFunctor, T, 0); Sizes(static_cast<DAD*>(m.cost)); return m;
    case 9: m = Functored<DAD>(new TDynFunctor, N, 0); Sizes(static_cast<DAD*>(m.cost)); return m;
    case 10: m = Functored<DAD>(new TDynFunctor, T, 1); Sizes(static_cast<DAD*>(m.cost)); return m;
    case 11: m = Functored<DND>(new TDynFunctor, T, 0); Sizes(static_cast<DND*>(m.cost)); return m;
    case 12: m = Functored<DND>(new TDynFunctor, N, 0); Sizes(static_cast<DND*>(m.cost)); return m;
    case 13: m = Functored<DND>(new TDynFunctor, T, 1); Sizes(static_cast<DND*>(m.cost)); return m;
    case 14: { auto* f = Part(m, new TFunctor, T); m.fof = new ADF(f); return m; }
    case 15: { auto* f = Part(m, new TFunctor, N); m.fof = new ADF(f, N); return m; }
    case 16: { auto* f = Part(m, new TFunctor, T); m.fof = new NDF(std::unique_ptr<TFunctor>(f)); return m; }
    case 17: { auto* f = Part(m, new TFunctor, N); m.fof = new NDFD(std::unique_ptr<TFunctor>(f), 2, N); return m; }
    case 18: { auto* f = Part(m, new TFunctor, T); m.fof = new NDFD(std::unique_ptr<TFunctor>(f), 2); return m; }
    case 19: { auto* f = Part(m, new TManFunctor, T); m.manifold = new ceres::AutoDiffManifold<TManFunctor, 2, 2>(f); return m; }
    case 20: case 21: case 22: case 23: {
      const Ownership of = (k & 1) ? N : T, og = (k & 2) ? N : T;
      auto* f = Part(m, new TLoss, of);
      auto* g = Part(m, new TLoss, og);
      m.loss = new ceres::ComposedLoss(f, of, g, og);
      return m;
    }
    case 24: case 25: {
      const Ownership o = k == 24 ? T : N;
      auto* f = Part(m, new TLoss, o);
      m.loss = new ceres::ScaledLoss(f, 3.0, o);
      return m;
    }
    case 26: case 27: {  // conditioners: repeated, missing, distinct
      const Ownership o = k == 26 ? T : N;
      auto* inner = Part(m, new TCost({2}, 4), o);
      auto* a = Part(m, new TCost({1}), o);
      auto* b = Part(m, new TCost({1}), o);
      m.cost = new ceres::ConditionedCostFunction(inner, {a, nullptr, b, a}, o);
      return m;
    }
    case 28: {  // a functor that owns a cost function, inside an autodiff cost
      auto* c = Part(m, new TCost({2}), T);
      m.cost = new ceres::AutoDiffCostFunction<F1, 1, 2>(new F1(c));
      return m;
    }
    case 29: {
      auto* c = Part(m, new TCost({2}), T);
      m.cost = new ceres::AutoDiffCostFunction<F2, 1, 2>(new F2(c));
      return m;
    }
    case 30: {
      auto* a = Part(m, new TManifold, T);
      m.manifold = new ceres::ProductManifold<std::unique_ptr<TManifold>, ceres::EuclideanManifold<1>>(std::unique_ptr<TManifold>(a), ceres::EuclideanManifold<1>{});
      return m;
    }
    case 31: {
      auto* a = Part(m, new TManifold, T);
      auto* b = Part(m, new TManifold, T);
      m.manifold = new ceres::ProductManifold<std::unique_ptr<TManifold>, std::unique_ptr<TManifold>>(std::unique_ptr<TManifold>(a), std::unique_ptr<TManifold>(b));
      return m;
    }
    case 32: {
      auto* a = Part(m, new TManifold, N);
      m.manifold = new ceres::ProductManifold<TManifold*, ceres::EuclideanManifold<1>>(a, ceres::EuclideanManifold<1>{});
      return m;
    }
    default: {
      auto* f = Part(m, new TLoss, T);
      m.loss = new ceres::ScaledLoss(new ceres::ScaledLoss(f, 2.0, T), 3.0, T);
      return m;
    }
  }
}
void Touch(const Made& m) {
  double x[4] = {1, 2, 3, 4}, y[4], d[4] = {}, J[16], r[4];
  if (m.cost) {
    const double* p[] = {x};
    double* j[] = {J};
    m.cost->Evaluate(p, r, j);
  }
  if (m.loss) m.loss->Evaluate(1.0, r);
  if (m.manifold) { m.manifold->Plus(x, d, y); m.manifold->PlusJacobian(x, J); }
  if (m.fof) m.fof->Evaluate(x, r, J);
}

MC_SCENARIO(wrappers, .split = 1, .weight = 1) {
  Balanced([] {
    const int k = mc::Choose(kWrappers, "wrapper");
    const int holder = mc::Choose(5, "holder");
    if (mc::Skipping()) return;
    Tracker tr;
    tracker = &tr;
    Made m = Make(k);
    Touch(m);
    auto None = [&](const char* when) {
      for (int i = 0; i < tr.next; ++i) MC_EXPECT(tr.deaths[i] == 0) << "wrapper " << k << " part " << i << " " << when;
    };
    None("died while in use");
    double x[4] = {1, 2, 3, 4}, z[2] = {0, 0};
    switch (holder) {
      case 0: delete m.cost; delete m.loss; delete m.manifold; delete m.fof; break;
      case 1: case 2: case 3: {  // inside a problem: removed residual / removed block / destroyed
        if (m.fof) { ceres::GradientProblem g{std::unique_ptr<ceres::FirstOrderFunction>(m.fof)}; double c; g.Evaluate(x, &c, nullptr); None("died while held"); break; }
        Problem p;
        ceres::CostFunction* cf = m.cost ? m.cost : new poly::Cost([] { poly::Poly q; q.sizes = {2}; return q; }());
        const int size = m.manifold ? m.manifold->AmbientSize() : 2;
        if (m.manifold) p.AddParameterBlock(x, size, m.manifold);
        auto id = p.AddResidualBlock(cf, m.loss, m.manifold ? z : x);
        None("died while held");
        if (holder == 1) p.RemoveResidualBlock(id);
        if (holder == 2) p.RemoveParameterBlock(m.manifold ? z : x);
        const bool now = holder != 3 && !m.manifold;
        for (int i : m.owned) MC_EXPECT(tr.deaths[i] == (now ? 1 : 0)) << "wrapper " << k << " part " << i << " after removal";
        break;
      }
      case 4: {  // solved with and without gradient checking
        if (m.fof) { delete m.fof; break; }
        Problem p;
        ceres::CostFunction* cf = m.cost ? m.cost : new poly::Cost([] { poly::Poly q; q.sizes = {2}; q.linear = true; return q; }());
        if (m.manifold) p.AddParameterBlock(x, m.manifold->AmbientSize(), m.manifold);
        p.AddResidualBlock(cf, m.loss, m.manifold ? z : x);
        for (bool check : {false, true}) {
          ceres::Solver::Options o;
          o.check_gradients = check;
          o.max_num_iterations = 1;
          o.linear_solver_type = ceres::DENSE_QR;
          o.logging_type = ceres::SILENT;
          ceres::Solver::Summary s;
          ceres::Solve(o, &p, &s);
        }
        None("died during a solve");
        break;
      }
    }
    for (int i : m.owned) MC_EXPECT(tr.deaths[i] == 1) << "wrapper " << k << " part " << i << " died " << tr.deaths[i] << " times";
    for (auto& [i, release] : m.mine) {
      MC_EXPECT(tr.deaths[i] == 0) << "wrapper " << k << " deleted a part it does not own";
      if (tr.deaths[i] == 0) release();
    }
    mc::Step();
    mc::Outcome(mc::H()(k)(holder).h);
  });
}

// Wrappers with move operations: every history of moves keeps the balance.
template <typename W, typename F>
void MoveHistory(F make) {
  Tracker tr;
  tracker = &tr;
  // Three holders, each with its own part, ownership chosen per holder.
  std::vector<std::unique_ptr<W>> w;
  std::vector<bool> owned;
  std::vector<std::function<void()>> release;
  for (int i = 0; i < 2; ++i) {
    const bool own = mc::Flip("owned");
    if (mc::Skipping()) return;
    owned.push_back(own);
    auto [obj, rel] = make(own);
    w.push_back(std::move(obj));
    release.push_back(rel);
  }
  const int ops = mc::Choose(4, "moves");
  if (mc::Skipping()) return;
  switch (ops) {
    case 0: *w[0] = std::move(*w[1]); break;
    case 1: w.push_back(std::make_unique<W>(std::move(*w[0]))); break;
    case 2: w.push_back(std::make_unique<W>(std::move(*w[0]))); *w[0] = std::move(*w[1]); break;
    case 3: w.push_back(std::make_unique<W>(std::move(*w[0]))); *w[1] = std::move(*w[2]); break;
  }
  mc::Step();
  for (int i = 0; i < 2; ++i)
    if (!owned[i]) MC_EXPECT(tr.deaths[i] == 0) << "moving deleted a part that is not owned";
  w.clear();
  for (int i = 0; i < 2; ++i) {
    MC_EXPECT(tr.deaths[i] == (owned[i] ? 1 : 0)) << "part " << i << " owned " << owned[i] << " died " << tr.deaths[i] << " times";
    if (!owned[i] && tr.deaths[i] == 0) release[i]();
  }
  mc::Outcome(mc::H()(ops)(owned[0])(owned[1]).h);
}
MC_SCENARIO(moves, .split = 1) {
  Balanced([] {
    const int kind = mc::Choose(7, "class");
    if (mc::Skipping()) return;
    auto o = [](bool own) { return own ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP; };
    using V = std::function<void()>;
    switch (kind) {
      case 0: MoveHistory<AD>([&](bool own) { auto* f = new TFunctor; return std::pair(std::make_unique<AD>(f, o(own)), V([f] { delete f; })); }); break;
      case 1: MoveHistory<ND>([&](bool own) { auto* f = new TFunctor; return std::pair(std::make_unique<ND>(f, o(own)), V([f] { delete f; })); }); break;
      case 2: MoveHistory<DAD>([&](bool own) { auto* f = new TDynFunctor; return std::pair(std::make_unique<DAD>(f, o(own)), V([f] { delete f; })); }); break;
      case 3: MoveHistory<DND>([&](bool own) { auto* f = new TDynFunctor; return std::pair(std::make_unique<DND>(f, o(own)), V([f] { delete f; })); }); break;
      case 4: MoveHistory<ADF>([&](bool own) { auto* f = new TFunctor; return std::pair(std::make_unique<ADF>(f, o(own)), V([f] { delete f; })); }); break;
      case 5: MoveHistory<NDFD>([&](bool own) { auto* f = new TFunctor; return std::pair(std::make_unique<NDFD>(std::unique_ptr<TFunctor>(f), 2, o(own)), V([f] { delete f; })); }); break;
      case 6: MoveHistory<ADD>([&](bool own) { auto* f = new TFunctor; return std::pair(std::make_unique<ADD>(f, 1, o(own)), V([f] { delete f; })); }); break;
    }
  });
}

// Swapping the loss inside a LossFunctionWrapper: every history of resets.
MC_SCENARIO(loss_wrapper, .split = 2) {
  Balanced([] {
    Tracker tr;
    tracker = &tr;
    std::vector<std::pair<TLoss*, bool>> made;
    std::vector<bool> dead(16, false);
    auto New = [&](bool own) { auto* l = new TLoss; made.push_back({l, own}); return l; };
    const int n = mc::Bound(4, 6);
    bool own = mc::Flip("owned");
    bool null = mc::Flip("null");
    auto w = std::make_unique<ceres::LossFunctionWrapper>(null ? nullptr : New(own), own ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP);
    for (int i = 0; i < n; ++i) {
      if (!null && own) dead[made.size() - 1] = true;
      own = mc::Flip("owned");
      null = mc::Flip("null");
      if (mc::Skipping()) return;
      w->Reset(null ? nullptr : New(own), own ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP);
      for (int k = 0; k < tr.next; ++k) MC_EXPECT(tr.deaths[k] == (dead[k] ? 1 : 0)) << "loss " << k << " died " << tr.deaths[k] << " times";
      double rho[3];
      w->Evaluate(1, rho);
      mc::Step();
    }
    if (!null && own) dead[made.size() - 1] = true;
    w.reset();
    for (int k = 0; k < tr.next; ++k) MC_EXPECT(tr.deaths[k] == (dead[k] ? 1 : 0)) << "loss " << k << " died " << tr.deaths[k] << " times";
    for (auto& [l, o] : made) if (!o) delete l;
    mc::H h;
    for (int k = 0; k < tr.next; ++k) h(static_cast<bool>(dead[k]));
    mc::Outcome(h.h);
  });
}

// Things never owned: context, evaluation callback, iteration callbacks; things
// owned by the C interface and by gradient problems.
int CCost(void* user, double** p, double* r, double** j) {
  static_cast<Tracked*>(user)->Alive();
  r[0] = p[0][0] - 1;
  if (j && j[0]) { j[0][0] = 1; j[0][1] = 0; }
  return 1;
}
MC_SCENARIO(others, .split = 1) {
  Balanced([] {
    const int kind = mc::Choose(4, "kind");
    const int times = mc::Range(1, 3, "times");
    if (mc::Skipping()) return;
    Tracker tr;
    tracker = &tr;
    struct Cb : ceres::EvaluationCallback { Tracked t; void PrepareForEvaluation(bool, bool) override { t.Alive(); } };
    struct It : ceres::IterationCallback { Tracked t; ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override { t.Alive(); return ceres::SOLVER_CONTINUE; } };
    double x[2] = {5, 6};
    switch (kind) {
      case 0: case 1: {
        std::unique_ptr<ceres::Context> context(ceres::Context::Create());
        Cb cb;
        It it;
        for (int i = 0; i < times; ++i) {
          Problem::Options o;
          o.context = kind ? context.get() : nullptr;
          o.evaluation_callback = &cb;
          Problem p(o);
          p.AddResidualBlock(new poly::Cost([] { poly::Poly q; q.sizes = {2}; q.linear = true; return q; }()), nullptr, x);
          ceres::Solver::Options so;
          so.linear_solver_type = ceres::DENSE_QR;
          so.max_num_iterations = 2;
          so.logging_type = ceres::SILENT;
          so.callbacks.push_back(&it);
          so.update_state_every_iteration = i % 2;
          ceres::Solver::Summary s;
          ceres::Solve(so, &p, &s);
          MC_EXPECT(so.callbacks.size() == 1);
        }
        MC_EXPECT(tr.deaths[0] == 0 && tr.deaths[1] == 0);
        break;
      }
      case 2: {
        auto* p = ceres_create_problem();
        Tracked user;
        int sizes[] = {2};
        double* params[] = {x};
        void* loss = ceres_create_cauchy_loss_function_data(1.0);
        for (int i = 0; i < times; ++i)
          ceres_problem_add_residual_block(p, &CCost, &user, i % 2 ? ceres_stock_loss_function : nullptr, i % 2 ? loss : nullptr, 1, 1, sizes, params);
        ceres_free_problem(p);
        double rho[3];
        ceres_stock_loss_function(loss, 1.0, rho);
        ceres_free_stock_loss_function_data(loss);
        MC_EXPECT(tr.deaths[0] == 0);
        break;
      }
      case 3: {
        auto* f = new TFirstOrder;
        auto* m = times > 1 ? new TManifold : nullptr;
        {
          std::unique_ptr<ceres::GradientProblem> g = m ? std::make_unique<ceres::GradientProblem>(std::unique_ptr<ceres::FirstOrderFunction>(f), std::unique_ptr<ceres::Manifold>(m))
                                                        : std::make_unique<ceres::GradientProblem>(std::unique_ptr<ceres::FirstOrderFunction>(f));
          double c, gr[2];
          g->Evaluate(x, &c, gr);
          MC_EXPECT(tr.deaths[0] == 0 && tr.deaths[1] == 0);
        }
        MC_EXPECT(tr.deaths[0] == 1 && tr.deaths[1] == (m ? 1 : 0));
        break;
      }
    }
    mc::Step();
    mc::Outcome(mc::H()(kind)(times).h);
  });
}
}  // namespace
