// C16: whatever is asked in whatever order, the answer is for the controls just supplied.
#include "Timeevolver.hpp"
#include "Wrapper.hpp"
#include "opt.hpp"
#include <set>
// a simulation that fails for some controls
struct Failing final : Optimization::StateCache {
  Setup::Recursion inner;
  bool *fail;
  Failing(Setup &s, bool *f) : inner(s), fail(f) {}
  bool refresh_cache(Model::Controlcomponent &p, Aux::InterpolatingVector_Base const &c, Eigen::Ref<VectorXd const> const &t, Eigen::Ref<VectorXd const> const &i) override {
    if (*fail) { ++inner.S.calls; return false; }
    return inner.refresh_cache(p, c, t, i);
  }
  Aux::InterpolatingVector_Base const &get_cached_states() override { return inner.get_cached_states(); }
};
static void history() {
  bool singular = false; // whether the equations have a singular derivative for the controls
  int length = sx_param("length", 3);
  Setup s(list({0, 1, 3}), list({0, 3}), length <= 3 && sx_bool("all") ? list({1, 3}) : list({3}), 1, 1, 1);
  bool failing = false, real = sx_bool("simulated");
  auto problem = s.problem();
  if (real) {
    length = sx_param("simulated_length", 2);
    auto e = problem->e;
    problem->e = [&failing, e](Eigen::Ref<VectorXd> y, double lt, double nt, In l, In n, In u) { e(y, lt, nt, l, n, u); if (failing && nt > 2) y[0] = 1e3; };
  }
  std::unique_ptr<Optimization::StateCache> cache;
  if (real) cache = std::make_unique<Optimization::ControlStateCache>(Model::Timeevolver::make_pointer_instance(
      {{"tolerance", 1e-9}, {"maximal_number_of_newton_iterations", 2}, {"retries", 0}, {"use_simplified_newton", false}}));
  else cache = std::make_unique<Failing>(s, &failing);
  if (!real) {
    auto en = problem->en;
    problem->en = [&singular, en](Aux::Matrixhandler &m, double lt, double nt, In l, In n, In u) {
      if (singular && nt < 2) m.add_to_coefficient(0, 0, 0); else en(m, lt, nt, l, n, u);
    };
  }
  InterpolatingVector c(s.tu, 1), k(s.tc, 1);
  c.setZero(); k.setZero();
  auto o = std::make_unique<Optimization::ImplicitOptimizer>(std::move(problem), std::move(cache), s.ts, s.tu, s.tc, s.x0, c, c, c, k, k);
  Optimization::IpoptWrapper w(std::move(o));
  Ipopt::Index n, m, nnz, hess;
  Ipopt::TNLP::IndexStyleEnum style;
  sx_assert(w.get_nlp_info(n, m, nnz, hess, style) && n == 2 && m == (int)s.tc.size() && style == Ipopt::TNLP::C_STYLE, "sizes");
  std::vector<int> row((size_t)nnz), col((size_t)nnz);
  sx_assert(w.eval_jac_g(n, nullptr, false, m, nnz, row.data(), col.data(), nullptr), "structure");
  MatrixXd u, good;
  std::string name;
  for (int step = 0; step < length; ++step) {
    bool fresh = step == 0 || sx_bool(S("new", step));
    if (fresh) {
      name = S("u", step, 0);
      u.resize(1, 2);
      for (Index j = 0; j < 2; ++j) u(0, j) = real ? 1.0 + (3 * step + 2 * (double)j) / 8 : sx_double(name + S("_", j), -10, 10);
      int fails = sx_int(S("fails", step), 0, real ? 1 : 2);
      failing = fails == 1;
      singular = fails == 2;
      if (!failing && !singular && (good.size() == 0 || length > 3 || sx_bool(S("better", step)))) good = u;
    }
    VectorXd x = flat(u);
    auto derivative = [&](double y, Index j) { return sx_d(y, name + S("_", j)); };
    bool ok = false;
    int call = sx_int(S("call", step), 0, 3);
    bool failure = failing || (singular && (call == 1 || call == 3));
    switch (call) {
    case 0: {
      double f = 12345;
      ok = w.eval_f(n, x.data(), fresh, f);
      if (ok && !failing) sx_eq(f, s.objective(u), "objective");
      break;
    }
    case 1: {
      VectorXd g(n);
      g.setConstant(12345);
      ok = w.eval_grad_f(n, x.data(), fresh, g.data());
      if (ok && !failure && !real) for (Index j = 0; j < 2; ++j) sx_eq(g[j], derivative(s.objective(u), j), "gradient");
      if (ok && !failing && real) { // the objective is a polynomial of degree at most four in each control: exact difference quotient
        for (Index j = 0; j < 2; ++j) {
          auto at = [&](double h) { MatrixXd v = u; v(0, j) += h; return s.objective(v); };
          sx_eq(g[j], (8 * (at(0.5) - at(-0.5)) - (at(1) - at(-1))) / 6, "gradient");
        }
      }
      break;
    }
    case 2: {
      VectorXd g(m), e = s.constraints(u);
      g.setConstant(12345);
      ok = w.eval_g(n, x.data(), fresh, m, g.data());
      if (ok && !failing) for (Index i = 0; i < m; ++i) sx_eq(g[i], e[i], "constraint");
      break;
    }
    default: {
      VectorXd v(nnz), e = s.constraints(u);
      v.setConstant(12345);
      ok = w.eval_jac_g(n, x.data(), fresh, m, nnz, nullptr, nullptr, v.data());
      if (ok && !failure && !real) for (int k = 0; k < nnz; ++k) sx_eq(v[k], derivative(e[row[(size_t)k]], col[(size_t)k]), "Jacobian");
      if (ok && !failing && real) for (int k = 0; k < nnz; ++k) {
        auto at = [&](double h) { MatrixXd b = u; b(0, col[(size_t)k]) += h; return s.constraints(b)[row[(size_t)k]]; };
        sx_eq(v[k], (8 * (at(0.5) - at(-0.5)) - (at(1) - at(-1))) / 6, "Jacobian");
      }
    }
    }
    sx_assert(ok == !failure, failure ? "a failed evaluation is reported" : "an evaluation succeeds when the simulation does");
    sx_reach(failure ? "failed" : "answered");
  }
  // the solution need not be what was evaluated last
  if (good.size() && sx_bool("finish")) {
    failing = singular = false;
    VectorXd x = flat(good), g = s.constraints(good);
    double f = s.objective(good);
    w.finalize_solution(Ipopt::SUCCESS, n, x.data(), nullptr, nullptr, m, g.data(), nullptr, f, nullptr, nullptr);
    sx_eq(w.get_best_cost_value(), s.total_cost(good), "cost of the solution");
    sx_eq(w.get_best_penalty_value(), s.total_penalty(good), "penalty of the solution");
    sx_eq(w.get_best_objective_value(), f, "objective of the solution");
    for (Index j = 0; j < n; ++j) sx_eq(w.get_best_solution()[j], x[j], "the solution");
    sx_assert(w.get_best_constraints().size() == m, "constraints of the solution");
    for (Index i = 0; i < m; ++i) sx_eq(w.get_best_constraints()[i], g[i], "constraints of the solution");
    sx_reach("finished");
  }
  sx_reach(real ? "simulated" : "exact");
}
// the cache that compares its arguments
static void lookup() {
  Setup s(list({0, 1, 3}), list({0, 3}), list({3}), 1, 1, 1);
  bool failing = false;
  auto problem = s.problem();
  auto e = problem->e;
  int runs = 0;
  problem->prepare = [&](double lt, double, In, In) { if (lt == s.ts[0]) ++runs; };
  problem->e = [&failing, e](Eigen::Ref<VectorXd> y, double lt, double nt, In l, In n, In u) { e(y, lt, nt, l, n, u); if (failing && nt > 2) y[0] = 1e3; };
  Optimization::ControlStateCache cache(Model::Timeevolver::make_pointer_instance(
      {{"tolerance", 1e-9}, {"maximal_number_of_newton_iterations", 2}, {"retries", 0}, {"use_simplified_newton", false}}));
  int length = sx_param("lookups", 3);
  std::set<int> fails;
  bool close = sx_bool("close"), f1 = !close && sx_bool("fails0"), f2 = !close && sx_bool("fails1");
  if (close) sx_tolerance(1e-12, 1e-12);
  for (int step = 0; step < length; ++step) {
    int which = sx_int(S("control", step), 0, 1), start = sx_int(S("start", step), 0, 1);
    failing = which ? f2 : f1;
    MatrixXd u(1, 2);
    if (close) u << 1 + which * 1e-9, 2 - which * 1e-9; // different, but barely
    else u << 1 + which / 4.0, 2 - which / 8.0;
    InterpolatingVector c(s.tu, 1);
    for (Index j = 0; j < 2; ++j) c.mut_timestep(j) = u.col(j);
    VectorXd x0 = list({1.0 + (close ? start * 1e-9 : start / 2.0)});
    bool refresh = sx_bool(S("refresh", step));
    Aux::InterpolatingVector_Base const *r = nullptr;
    if (refresh) r = cache.refresh_cache(*problem, c, s.ts, x0) ? &cache.get_cached_states() : nullptr;
    else r = cache.check_and_supply_states(*problem, c, s.ts, x0);
    sx_assert((r == nullptr) == failing, "states are supplied exactly when the simulation works");
    if (r) {
      s.x0 = x0;
      auto x = s.trajectory(u);
      sx_assert(r->size() == 3, "number of states");
      for (Index i = 0; i < 3; ++i) sx_eq(r->vector_at_index(i)[0], x[(size_t)i][0], "state for these controls");
    }
  }
  sx_reach("lookup");
}
void harness() {
  if (sx_bool("cache")) lookup(); else history();
  sx_reach("end");
}
