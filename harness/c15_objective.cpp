// C15: objective, constraints, bounds and the lookup between grids.
#include "Optimization_helpers.hpp"
#include "opt.hpp"
static double const eps = 1e-10; // tolerance of the interpolation at the ends
static void values() {
  int n = sx_param("steps", 2), m = sx_param("controltimes", 3);
  Index nc = sx_int("nc", 1, 2), nk = sx_int("nk", 0, 2);
  VectorXd ts(n + 1), tu(m);
  bool fixed = sx_bool("fixed");
  if (fixed) { ts = state_grid(); tu = control_grid(sx_int("grid", 0, control_grids() - 1)); }
  else {
    ts[0] = sx_double("t0", -10, 10);
    for (int i = 1; i <= n; ++i) ts[i] = ts[i - 1] + sx_double(S("dt", i), 0.1, 10);
    tu[0] = sx_double("s0", -10, 10);
    for (int i = 1; i < m; ++i) tu[i] = tu[i - 1] + sx_double(S("ds", i), 0.1, 10);
    sx_assume(tu[0] <= ts[0] && ts[n] <= tu[m - 1]);
  }
  Setup s(ts, tu, constraint_grid(ts), fixed ? 2 : 1, nc, nk);
  if (!fixed) s.mixed = 0;
  MatrixXd u = s.controls();
  // bounds on grids of their own
  VectorXd tb(3), kb(2);
  tb << tu[0] - 1, (tu[0] + tu[tu.size() - 1]) / 2, tu[tu.size() - 1] + 2;
  kb << s.tc[0] - 1, s.tc[s.tc.size() - 1] + 3;
  auto bound = [&](std::string name, VectorXd const &t, Index k) {
    MatrixXd v(k, t.size());
    for (Index j = 0; j < t.size(); ++j) for (Index i = 0; i < k; ++i) v(i, j) = sx_double(S(name, j, i), -10, 10);
    return v;
  };
  bool bounds = sx_bool("bounds");
  MatrixXd ini(nc, 3), lo(nc, 3), up(nc, 3), klo(nk, 2), kup(nk, 2);
  if (bounds) { ini = bound("ini", tb, nc); lo = bound("lo", tb, nc); up = bound("up", tb, nc); klo = bound("klo", kb, nk); kup = bound("kup", kb, nk); }
  else for (MatrixXd *x : {&ini, &lo, &up, &klo, &kup}) x->setZero();
  auto iv = [](VectorXd const &t, MatrixXd const &v) { InterpolatingVector r(t, v.rows()); for (Index j = 0; j < t.size(); ++j) r.mut_timestep(j) = v.col(j); return r; };
  Optimization::ImplicitOptimizer o(s.problem(), std::make_unique<Setup::Recursion>(s), s.ts, s.tu, s.tc, s.x0, iv(tb, ini), iv(tb, lo), iv(tb, up), iv(kb, klo), iv(kb, kup));
  if (bounds) {
    auto same = [&](VectorXd const &got, VectorXd const &times, VectorXd const &t, MatrixXd const &v, std::string what) {
      sx_assert(got.size() == times.size() * v.rows(), what + ": number of values");
      for (Index j = 0; j < times.size(); ++j) {
        VectorXd e = interpolate(t, v, times[j]);
        for (Index k = 0; k < v.rows(); ++k) sx_eq(got[j * v.rows() + k], e[k], what);
      }
    };
    same(o.get_initial_controls(), s.tu, tb, ini, "initial controls");
    same(o.get_lower_bounds(), s.tu, tb, lo, "lower bounds");
    same(o.get_upper_bounds(), s.tu, tb, up, "upper bounds");
    same(o.get_constraint_lower_bounds(), s.tc, kb, klo, "lower bounds of constraints");
    same(o.get_constraint_upper_bounds(), s.tc, kb, kup, "upper bounds of constraints");
    VectorXd i = o.get_initial_state();
    sx_assert(i == s.x0, "initial state");
    sx_reach("bounds");
    return;
  }
  VectorXd x = flat(u), k(nk * s.tc.size());
  o.new_x();
  double f = 7, c = 7, p = 7;
  k.setConstant(7);
  sx_assert(o.evaluate_objective(x, f), "objective computed");
  sx_assert(o.evaluate_cost(x, c), "cost computed");
  sx_assert(o.evaluate_penalty(x, p), "penalty computed");
  sx_assert(o.evaluate_constraints(x, k), "constraints computed");
  sx_assert(s.calls == 1, "one simulation suffices");
  sx_eq(c, s.total_cost(u), "cost");
  sx_eq(p, s.total_penalty(u), "penalty");
  sx_eq(f, c + p, "objective");
  VectorXd g = s.constraints(u);
  for (Index i = 0; i < g.size(); ++i) sx_eq(k[i], g[i], S("constraint", i));
  sx_reach(fixed ? "fixed" : "arbitrary");
}
// interpolation weights between grids
static void lookup() {
  int m = sx_int("points", 1, sx_param("lookup", 4));
  VectorXd g(m);
  g[0] = sx_double("g0", -10, 10);
  for (int i = 1; i < m; ++i) g[i] = g[i - 1] + sx_double(S("dg", i), 0.01, 10);
  VectorXd t(1);
  t[0] = sx_double("t", -10, 100);
  sx_assume(t[0] >= g[0] && t[0] <= g[m - 1] + eps);
  auto r = Optimization::compute_index_lambda_vector(g, t);
  sx_assert(r.size() == 1, "one result per time");
  Index i = r[0].first;
  double w = r[0].second;
  sx_assert(i >= 0 && i < m, "index of a point");
  sx_assert(w >= 0 && w <= 1, "convex combination");
  if (t[0] >= g[m - 1]) { sx_assert(i == m - 1, "last point"); sx_eq(w, 1, "at the end"); sx_reach("end of the grid"); return; }
  if (i == 0) { sx_eq(t[0], g[0], "at the start"); sx_eq(w, 1, "at the start"); return; }
  sx_eq(w * g[i] + (1 - w) * g[i - 1], t[0], "interpolates the time");
  sx_reach("lookup");
}
// grids that do not fit are rejected
static void rejection() {
  VectorXd ts = list({0, 1, 2}), tu(2), tc(1);
  tu << sx_double("first", -3, 3), 0;
  tu[1] = tu[0] + sx_double("length", 0.1, 6);
  tc[0] = sx_double("constraint", -1, 3);
  int wrong = sx_int("wrong", 0, 5);
  Setup s(ts, tu, tc, 1, 1, 1);
  auto vec = [&](VectorXd const &t, Index k) { InterpolatingVector v(t, k); v.setZero(); return v; };
  VectorXd x0 = wrong == 1 ? list({0, 0}) : list({0});
  if (tu[0] <= 0 && tu[1] >= 0) { // otherwise the lookup between the grids stops with an assertion
    bool ok = tu[1] >= 2 && (tc[0] == 1 || tc[0] == 2) && wrong == 0;
    sx_assume(tu[1] >= 2);
    bool thrown = throws([&] {
      Optimization::ImplicitOptimizer o(s.problem(), std::make_unique<Setup::Recursion>(s), ts, tu, tc, x0, vec(tu, wrong == 2 ? 2 : 1), vec(tu, wrong == 3 ? 2 : 1),
          vec(tu, 1), vec(tc, wrong == 4 ? 2 : 1), vec(tc, wrong == 5 ? 2 : 1));
    });
    sx_assert(thrown == !ok, "mismatching grids or sizes are rejected");
    sx_reach(ok ? "accepted" : "rejected");
  }
}
void harness() {
  switch (sx_int("mode", 0, 2)) { case 0: values(); break; case 1: lookup(); break; default: rejection(); }
  sx_reach("end");
}
