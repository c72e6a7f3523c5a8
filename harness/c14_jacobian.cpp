// C14: the Jacobian of the constraints and its structure.
#include "opt.hpp"
#include <set>
static void compare(Setup &s, MatrixXd const &u) {
  auto o = s.optimizer();
  Index n = o->get_no_nnz_in_jacobian(), rows = s.nk * s.tc.size(), cols = s.nc * s.tu.size();
  sx_assert(o->get_total_no_constraints() == rows && o->get_total_no_controls() == cols, "numbers of constraints and controls");
  Eigen::VectorX<Ipopt::Index> r(n), c(n);
  r.setConstant(-1); c.setConstant(-1);
  sx_assert(o->supply_constraint_jacobian_indices(r, c), "indices supplied");
  VectorXd x = flat(u), v(n);
  v.setConstant(7);
  o->new_x();
  if (sx_bool("after_gradient")) { VectorXd g(cols); sx_assert(o->evaluate_objective_gradient(x, g), "gradient computed"); }
  sx_assert(o->evaluate_constraint_jacobian(x, v), "Jacobian computed");
  VectorXd g = s.constraints(u);
  std::set<std::pair<Index, Index>> seen;
  for (Index k = 0; k < n; ++k) {
    bool inside = r[k] >= 0 && r[k] < rows && c[k] >= 0 && c[k] < cols;
    sx_assert(inside, "index inside the matrix");
    sx_assert(seen.insert({r[k], c[k]}).second, "one entry per position");
    sx_eq(v[k], sx_d(g[r[k]], S("u", c[k] / s.nc, c[k] % s.nc)), S("dg/du", r[k], c[k]));
  }
  for (Index i = 0; i < rows; ++i)
    for (Index j = 0; j < cols; ++j)
      if (!seen.count({i, j})) sx_eq(sx_d(g[i], S("u", j / s.nc, j % s.nc)), 0, "derivative without entry");
  MatrixXd whole = o->get_constraint_jacobian().whole_matrix();
  sx_assert(whole.rows() == rows && whole.cols() == cols, "size of the matrix");
  for (Index k = 0; k < n; ++k) sx_eq(whole(r[k], c[k]), v[k], "entry of the full matrix");
}
static void scalar() {
  VectorXd ts = state_grid(), tu = control_grid(sx_int("grid", 0, control_grids() - 1));
  Setup s(ts, tu, constraint_grid(ts), 1, 1, 1);
  for (Index i = 1; i <= s.N; ++i) {
    s.A[i](0, 0) = sx_double(S("A", i), 0.1, 10); s.B[i](0, 0) = sx_double(S("B", i), -10, 10); s.C[i](0, 0) = sx_double(S("C", i), -10, 10);
    s.G[i](0, 0) = sx_double(S("G", i), -10, 10); s.H[i](0, 0) = sx_double(S("H", i), -10, 10);
  }
  s.x0[0] = sx_double("x0", -10, 10);
  compare(s, s.controls());
  sx_reach("scalar");
}
static void vector() {
  VectorXd ts = state_grid(), tu = control_grid(sx_int("grid", 0, control_grids() - 1));
  Setup s(ts, tu, constraint_grid(ts), 2, sx_int("nc", 1, sx_param("size", 2)), sx_int("nk", 1, sx_param("size", 2)));
  compare(s, s.controls());
  sx_reach("vector");
}
static void grids() {
  int n = sx_param("steps", 2), m = sx_param("controltimes", 3);
  VectorXd ts(n + 1), tu(m);
  ts[0] = sx_double("t0", -10, 10);
  for (int i = 1; i <= n; ++i) ts[i] = ts[i - 1] + sx_double(S("dt", i), 0.1, 10);
  tu[0] = sx_double("s0", -10, 10);
  for (int i = 1; i < m; ++i) tu[i] = tu[i - 1] + sx_double(S("ds", i), 0.1, 10);
  sx_assume(tu[0] <= ts[0] && ts[n] <= tu[m - 1]);
  Setup s(ts, tu, constraint_grid(ts), 1, 1, 1);
  s.mixed = 0;
  compare(s, s.controls());
  sx_reach("grids");
}
void harness() {
  switch (sx_int("mode", 0, 2)) { case 0: scalar(); break; case 1: vector(); break; default: grids(); }
  sx_reach("end");
}
