// C28: programs through the C interface behave as the same C++ programs.
#include <iostream>
#include <sstream>

#include "ceres/c_api.h"
#include "ceres/loss_function.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
#include "nls.h"

namespace {
using nls::Model;
using Point = std::vector<double>;

// What a C cost function gets as its data.
struct Data {
  const poly::Poly* poly;
  int calls = 0, with_jacobians = 0;
  int fail_at = -1;
  int success = 1;  // what is returned if all is well
};
int CFunction(void* user, double** x, double* r, double** j) {
  Data& d = *static_cast<Data*>(user);
  if (d.calls++ == d.fail_at) return 0;
  const auto& p = *d.poly;
  p.Eval(x, r);
  if (j) {
    ++d.with_jacobians;
    const auto J = p.Jacobian(x);
    for (size_t b = 0; b < p.sizes.size(); ++b)
      if (j[b])
        for (int k = 0; k < p.m; ++k)
          for (int i = 0; i < p.sizes[b]; ++i) j[b][k * p.sizes[b] + i] = J[k * p.n() + p.Offset(static_cast<int>(b)) + i];
  }
  return d.success;
}
void UserLoss(void* user, double s, double out[3]) { nls::Rho(*static_cast<int*>(user), s, out); }
enum { kNone, kUser, kHuber, kSoftL1, kCauchy, kArctan, kTolerant, kLosses };
void* Stock(int kind, double a) {
  switch (kind) {
    case kHuber: return ceres_create_huber_loss_function_data(a);
    case kSoftL1: return ceres_create_softl1_loss_function_data(a);
    case kCauchy: return ceres_create_cauchy_loss_function_data(a);
    case kArctan: return ceres_create_arctan_loss_function_data(a);
    default: return ceres_create_tolerant_loss_function_data(a, 0.25);
  }
}
// Written out, not the library's.
void Expected(int kind, double a, double s, double r[3]) {
  switch (kind) {
    case kHuber:
      if (s > a * a) { const double q = std::sqrt(s); r[0] = 2 * a * q - a * a; r[1] = a / q; r[2] = -a / (2 * s * q); }
      else { r[0] = s; r[1] = 1; r[2] = 0; }
      break;
    case kSoftL1: { const double q = std::sqrt(1 + s / (a * a)); r[0] = 2 * a * a * (q - 1); r[1] = 1 / q; r[2] = -1 / (2 * a * a * q * q * q); break; }
    case kCauchy: { const double q = 1 + s / (a * a); r[0] = a * a * std::log(q); r[1] = 1 / q; r[2] = -1 / (a * a * q * q); break; }
    case kArctan: { const double q = 1 + s * s / (a * a); r[0] = a * std::atan2(s, a); r[1] = 1 / q; r[2] = -2 * s / (a * a) / (q * q); break; }
    default: {
      const double b = 0.25, x = (s - a) / b, e = std::exp(x);
      r[0] = (x > 36 ? s - a : b * std::log1p(e)) - b * std::log1p(std::exp(-a / b));
      r[1] = 1 / (1 + 1 / e);
      r[2] = 1 / (b * (e + 2 + 1 / e));
    }
  }
}
// Quiet standard output, and what was printed.
struct Quiet {
  std::ostringstream text;
  std::streambuf* keep = std::cout.rdbuf(text.rdbuf());
  ~Quiet() { std::cout.rdbuf(keep); }
};

MC_SCENARIO(StockLosses, .split = 2) {
  const int kind = mc::Range(kHuber, kTolerant, "loss");
  const double a = mc::Pick({0.5, 1.0, 2.0, 3.0}, "a");
  const int step = mc::Choose(65, "argument");
  if (mc::Skipping()) return;
  const double s = step / 8.0;
  void* data = Stock(kind, a);
  double out[4] = {-7, -7, -7, -7}, want[3];
  ceres_stock_loss_function(data, s, out);
  Expected(kind, a, s, want);
  for (int k = 0; k < 3; ++k) MC_EXPECT(vu::Near(out[k], want[k], 1e-10)) << "loss " << kind << " a " << a << " at " << s << ": derivative " << k << " is " << out[k] << " instead of " << want[k];
  MC_EXPECT(out[3] == -7);
  ceres_free_stock_loss_function_data(data);
  mc::Step();
  mc::Outcome(mc::H()(kind)(want[0]).h);
}

MC_SCENARIO(Programs, .split = 5, .weight = 3) {
  // Residual blocks over four parameter blocks, of which any may repeat nothing.
  static const std::vector<Point> start = {{1, -2}, {0.5}, {2, 1, -1}, {-1}};
  static const std::vector<std::vector<int>> uses = {{0}, {1, 0}, {2, 1}, {3}, {0, 2, 3}};
  ceres_init();
  struct Call {
    int use, m, loss;
    double a;
  };
  std::vector<Call> calls;
  std::vector<Point> x = start, y = start;
  std::vector<std::unique_ptr<poly::Poly>> polys;
  std::vector<std::unique_ptr<Data>> data, data2;
  std::vector<std::unique_ptr<int>> kinds;
  std::vector<void*> stock;
  ceres_problem_t* c = ceres_create_problem();
  MC_REQUIRE(c != nullptr);
  auto* c_problem = reinterpret_cast<ceres::Problem*>(c);
  ceres::Problem problem;  // the same in C++
  struct UserCpp : ceres::LossFunction {
    void Evaluate(double s, double r[3]) const override { nls::Rho(nls::kConcave, s, r); }
  };
  // StockLosses compares the C ones to their definitions; here the values have
  // to agree to the last bit for the two solves to take the same path.
  auto cpp_loss = [](int kind, double a) -> ceres::LossFunction* {
    switch (kind) {
      case kNone: return nullptr;
      case kUser: return new UserCpp;
      case kHuber: return new ceres::HuberLoss(a);
      case kSoftL1: return new ceres::SoftLOneLoss(a);
      case kCauchy: return new ceres::CauchyLoss(a);
      case kArctan: return new ceres::ArctanLoss(a);
      default: return new ceres::TolerantLoss(a, 0.25);
    }
  };
  struct Cost : ceres::CostFunction {
    Data* d;
    explicit Cost(Data* d) : d(d) {
      set_num_residuals(d->poly->m);
      for (int s : d->poly->sizes) mutable_parameter_block_sizes()->push_back(s);
    }
    bool Evaluate(double const* const* p, double* r, double** j) const override { return CFunction(d, const_cast<double**>(p), r, j); }
  };
  int solves = 0;
  const int depth = mc::Bound(4, 5, 2);
  for (int k = 0; k < depth; ++k) {
    const int op = mc::Choose(2, "add or solve");
    if (op == 0) {
      Call call;
      call.use = mc::Choose(static_cast<int>(uses.size()), "parameter blocks");
      call.loss = mc::Choose(kLosses, "loss");
      call.m = 1 + call.use % 3;
      call.a = call.loss == kTolerant ? 1 : 0.5 + 0.5 * (k % 2);
      auto p = std::make_unique<poly::Poly>();
      for (int b : uses[call.use]) p->sizes.push_back(static_cast<int>(start[b].size()));
      p->m = call.m;
      p->salt = k + call.use;
      p->linear = k % 2 == 0;
      for (auto* d : {&data, &data2}) {
        d->push_back(std::make_unique<Data>());
        d->back()->poly = p.get();
        d->back()->success = k == 1 ? 2 : 1;  // anything but zero
      }
      std::vector<double*> px, py;
      std::vector<int> sizes = p->sizes;
      for (int b : uses[call.use]) px.push_back(x[b].data()), py.push_back(y[b].data());
      void* loss_data = nullptr;
      if (call.loss == kUser) { kinds.push_back(std::make_unique<int>(nls::kConcave)); loss_data = kinds.back().get(); }
      if (call.loss >= kHuber) stock.push_back(loss_data = Stock(call.loss, call.a));
      auto* id = ceres_problem_add_residual_block(c, &CFunction, data.back().get(), call.loss == kNone ? nullptr : call.loss == kUser ? &UserLoss : &ceres_stock_loss_function, loss_data, call.m,
                                                  static_cast<int>(px.size()), sizes.data(), px.data());
      // The arrays are no longer needed.
      std::fill(sizes.begin(), sizes.end(), -1);
      std::fill(px.begin(), px.end(), nullptr);
      problem.AddResidualBlock(new Cost(data2.back().get()), cpp_loss(call.loss, call.a), py);
      polys.push_back(std::move(p));
      calls.push_back(call);
      // The block is there, last, and as declared.
      std::vector<ceres::ResidualBlockId> ids;
      c_problem->GetResidualBlocks(&ids);
      MC_EXPECT(ids.size() == calls.size() && reinterpret_cast<ceres_residual_block_id_t*>(ids.back()) == id) << "the residual block identifier is another one";
      std::vector<double*> in;
      c_problem->GetParameterBlocksForResidualBlock(ids.back(), &in);
      bool same = in.size() == uses[call.use].size();
      for (size_t i = 0; i < in.size() && same; ++i) same = in[i] == x[uses[call.use][i]].data() && c_problem->ParameterBlockSize(in[i]) == static_cast<int>(start[uses[call.use][i]].size());
      MC_EXPECT(same) << "parameter blocks of the residual block";
      MC_EXPECT(c_problem->GetCostFunctionForResidualBlock(ids.back())->num_residuals() == call.m);
      MC_EXPECT((c_problem->GetLossFunctionForResidualBlock(ids.back()) == nullptr) == (call.loss == kNone));
      double cost, cost2;
      MC_EXPECT(c_problem->EvaluateResidualBlock(ids.back(), true, &cost, nullptr, nullptr));
      ids.clear();
      problem.GetResidualBlocks(&ids);
      MC_EXPECT(problem.EvaluateResidualBlock(ids.back(), true, &cost2, nullptr, nullptr) && vu::Near(cost, cost2, 1e-10)) << "cost " << cost << " instead of " << cost2;
    } else {
      if (!calls.empty()) {
        const int failing = mc::Choose(3, "no failure, first, later");
        const int who = static_cast<int>(calls.size()) - 1;
        data[who]->fail_at = failing ? data[who]->calls + (failing == 2 ? 3 : 0) : -1;
        data2[who]->fail_at = failing ? data2[who]->calls + (failing == 2 ? 3 : 0) : -1;
      }
      ++solves;
      const auto before = x;
      std::vector<int> jacobians;
      for (auto& d : data) jacobians.push_back(d->with_jacobians);
      ceres::Solver::Options o;
      o.max_num_iterations = 100;
      o.linear_solver_type = ceres::DENSE_QR;
      o.logging_type = ceres::SILENT;
      ceres::Solver::Summary s;
      ceres::Solve(o, &problem, &s);
      std::string text;
      {
        Quiet q;
        ceres_solve(c);
        text = q.text.str();
      }
      mc::Step();
      MC_EXPECT(text.find("Solver Summary") != std::string::npos && text.find(ceres::TerminationTypeToString(s.termination_type)) != std::string::npos) << "the report does not say " << ceres::TerminationTypeToString(s.termination_type) << ": " << text;
      for (size_t b = 0; b < x.size(); ++b)
        for (size_t i = 0; i < x[b].size(); ++i) MC_EXPECT(vu::Near(x[b][i], y[b][i], 1e-5)) << "parameter " << b << "," << i << " becomes " << x[b][i] << " instead of " << y[b][i] << " " << s.message;
      if (!s.IsSolutionUsable()) MC_EXPECT(x == before) << "a failed solve moves the parameters";
      for (size_t i = 0; i < data.size(); ++i)
        MC_EXPECT(data[i]->calls == data2[i]->calls && data[i]->with_jacobians == data2[i]->with_jacobians) << "cost function " << i << " is called " << data[i]->calls << " times instead of " << data2[i]->calls;
      y = x;
      // `y` keeps its memory, so the blocks of `problem` stay valid.
    }
  }
  ceres_free_problem(c);
  // The stock loss functions belong to the caller.
  for (void* s : stock) {
    double out[3];
    ceres_stock_loss_function(s, 1.0, out);
    MC_EXPECT(std::isfinite(out[0]));
    ceres_free_stock_loss_function_data(s);
  }
  mc::H h;
  for (auto& call : calls) h(call.use)(call.loss);
  h(solves)(x);
  mc::State(h.h);
  mc::Outcome(h.h);
}
}  // namespace
