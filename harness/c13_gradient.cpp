// C13: the gradient of the objective.
#include "opt.hpp"
static void compare(Setup &s, MatrixXd const &u) {
  auto o = s.optimizer();
  VectorXd x = flat(u), g(x.size());
  for (Index i = 0; i < g.size(); ++i) g[i] = 7;
  o->new_x();
  sx_assert(o->evaluate_objective_gradient(x, g), "gradient computed");
  double J = s.objective(u);
  for (Index j = 0; j < s.tu.size(); ++j)
    for (Index k = 0; k < s.nc; ++k) sx_eq(g[j * s.nc + k], sx_d(J, S("u", j, k)), S("dJ/du", j, k));
}
// arbitrary coefficients
static void scalar() {
  VectorXd ts = state_grid(), tu = control_grid(sx_int("grid", 0, control_grids() - 1));
  bool constrained = sx_bool("constrained");
  Setup s(ts, tu, constrained ? constraint_grid(ts) : ts.tail(ts.size() - 1), 1, 1, constrained ? 1 : 0);
  for (Index i = 1; i <= s.N; ++i) {
    s.A[i](0, 0) = sx_double(S("A", i), 0.1, 10); s.B[i](0, 0) = sx_double(S("B", i), -10, 10); s.C[i](0, 0) = sx_double(S("C", i), -10, 10);
    s.f[i][0] = sx_double(S("f", i), -10, 10); s.h[i][0] = sx_double(S("h", i), -10, 10); s.p[i][0] = sx_double(S("p", i), -10, 10);
  }
  s.x0[0] = sx_double("x0", -10, 10);
  compare(s, s.controls());
  sx_reach("scalar");
}
// several states and controls
static void vector() {
  VectorXd ts = state_grid(), tu = control_grid(sx_int("grid", 0, control_grids() - 1));
  bool constrained = sx_bool("constrained");
  Setup s(ts, tu, ts.tail(ts.size() - 1), 2, sx_int("nc", 1, sx_param("controls", 2)), constrained ? 2 : 0);
  compare(s, s.controls());
  sx_reach("vector");
}
// arbitrary times
static void grids() {
  int n = sx_param("steps", 2), m = sx_param("controltimes", 3);
  VectorXd ts(n + 1), tu(m);
  ts[0] = sx_double("t0", -10, 10);
  for (int i = 1; i <= n; ++i) ts[i] = ts[i - 1] + sx_double(S("dt", i), 0.1, 10);
  tu[0] = sx_double("s0", -10, 10);
  for (int i = 1; i < m; ++i) tu[i] = tu[i - 1] + sx_double(S("ds", i), 0.1, 10);
  sx_assume(tu[0] <= ts[0] && ts[n] <= tu[m - 1]);
  Setup s(ts, tu, ts.tail(1), 1, 1, 0);
  s.mixed = 0;
  compare(s, s.controls());
  sx_reach("grids");
}
void harness() {
  switch (sx_int("mode", 0, 2)) { case 0: scalar(); break; case 1: vector(); break; default: grids(); }
  sx_reach("end");
}
