// C11: the Newton solver against residuals that take arbitrary values at each evaluation.
#include <cmath>
#include <limits>
#include "Exception.hpp"
#include "Newtonsolver.hpp"
#include "toy.hpp"
struct Eval { VectorXd x, r; bool finite; };
// residual = whatever the solver of the check chooses, but the same at the same point
struct Wild {
  Toy toy;
  std::vector<Eval> evals;
  int n, jac = 0, limit, bad = -1;
  double badvalue = 0;
  bool concretejac = false;
  VectorXd last, control;
  double from = 0, to = 1;
  // the equations of the step that was asked for
  void asked(double a, double b, In l, In u) {
    sx_eq(a, from, "last time of the equations");
    sx_eq(b, to, "new time of the equations");
    for (int i = 0; i < n; ++i) sx_eq(l[i], last[i], "last state of the equations");
    sx_eq(u[0], control[0], "control of the equations");
  }
  Wild(int n, int limit) : toy(n, 1, 0), n(n), limit(limit), last(n), control(1) {
    for (int i = 0; i < n; ++i) last[i] = sx_double(S("l", i), -100, 100);
    control[0] = sx_double("u", -100, 100);
    from = sx_double("from", -100, 100);
    to = sx_double("to", -100, 100);
    toy.e = [this](Eigen::Ref<VectorXd> r, double a, double b, In l, In x, In u) {
      asked(a, b, l, u);
      for (auto const &e : evals) {
        bool same = true;
        for (int i = 0; i < this->n; ++i) same = same && e.x[i] == x[i];
        if (same) { r = e.r; return; }
      }
      int k = (int)evals.size();
      sx_assume(k < this->limit);
      bool finite = k != bad;
      for (int i = 0; i < this->n; ++i) r[i] = finite || i ? sx_double(S("r", k, i), -100, 100) : badvalue;
      evals.push_back({x, r, finite});
    };
    toy.en = [this](Aux::Matrixhandler &h, double a, double b, In l, In, In u) {
      asked(a, b, l, u);
      for (int i = 0; i < this->n; ++i) {
        double d = concretejac ? 2.0 + jac : sx_double(S("d", jac, i), -10, 10);
        sx_assume(d > 0.1 || d < -0.1);
        h.add_to_coefficient(i, i, d);
      }
      ++jac;
    };
  }
};
static double norm2(VectorXd const &v) { double s = 0; for (Eigen::Index i = 0; i < v.size(); ++i) s += v[i] * v[i]; return s; }
static void wild(bool special) {
  int n = special ? 1 : sx_int("n", 1, sx_param("dim", 1)), max = sx_int("max", 0, sx_param("iterations", 2)), limit = sx_param("evaluations", 4);
  bool full = sx_bool("full"), newjac = sx_bool("newjac");
  double tol = sx_double("tol", 1e-3, 1);
  Wild w(n, limit);
  if (special) {
    w.bad = sx_int("bad", 0, 2);
    w.concretejac = sx_bool("inf"); // infinity times a symbolic slope is outside the encoding
    w.badvalue = w.concretejac ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
  }
  Solver::Newtonsolver s(tol, max);
  VectorXd x0(n), x;
  for (int i = 0; i < n; ++i) x0[i] = sx_double(S("x", i), -100, 100);
  x = x0;
  if (!newjac) s.evaluate_state_derivative_triplets(w.toy, w.from, w.to, w.last, x, w.control);
  Solver::Solutionstruct r;
  try {
    r = s.solve(x, w.toy, newjac, full, w.from, w.to, w.last, w.control);
  } catch (Solver::SolverNumericalProblem &) {
    sx_reach("gave up");
    return;
  }
  // the returned state is one that was evaluated, with the reported residual
  Eval const *e = nullptr;
  for (auto const &v : w.evals) {
    bool same = true;
    for (int i = 0; i < n; ++i) same = same && v.x[i] == x[i];
    if (same) e = &v;
  }
  sx_assert(r.used_iterations >= 0 && r.used_iterations <= max, "number of iterations within the limit");
  if (special && (!e || !e->finite || !(r.residual == r.residual) || r.residual > 1e300)) {
    sx_assert(!r.success, "no success without a finite residual");
    sx_reach("not finite");
    return;
  }
  sx_assert(e != nullptr, "the returned state was evaluated");
  if (!e) return;
  double q = norm2(e->r);
  if (r.success) { sx_le(q, tol * tol, "success only within the tolerance"); sx_reach(r.used_iterations ? "success" : "already solved"); }
  else { sx_assert(r.used_iterations == max, "failure only after all iterations"); sx_lt(tol * tol, q, "failure only above the tolerance"); sx_reach("failure"); }
  if (r.used_iterations > 0 || r.success) sx_eq(r.residual * r.residual, q, "reported residual");
  double q0 = norm2(w.evals[0].r);
  if (q0 <= tol * tol) {
    sx_assert(r.success && r.used_iterations == 0, "a solved state needs no step");
    for (int i = 0; i < n; ++i) sx_eq(x[i], x0[i], "a solved state is left unchanged");
  }
}
// affine systems are solved by the first full step
static void affine() {
  int n = sx_int("n", 1, 2), shape = n == 2 ? sx_int("shape", 0, 2) : 0;
  bool full = sx_bool("full"), newjac = sx_bool("newjac");
  MatrixXd A(n, n);
  VectorXd b(n), x(n), last = VectorXd::Zero(n), u(0);
  for (int i = 0; i < n; ++i) {
    b[i] = sx_double(S("b", i), -10, 10);
    x[i] = sx_double(S("x", i), -10, 10);
    for (int j = 0; j < n; ++j) A(i, j) = sx_double(S("a", i, j), -10, 10);
  }
  if (shape == 1) A(1, 0) = 0;
  if (shape == 2) A(0, 0) = 0;
  double det = n == 1 ? A(0, 0) : A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
  sx_assume(det > 0.1 || det < -0.1);
  Toy toy(n, 0, 0);
  toy.e = [&](Eigen::Ref<VectorXd> r, double, double, In, In y, In) { r = A * y - b; };
  toy.en = [&](Aux::Matrixhandler &h, double, double, In, In, In) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h.add_to_coefficient(i, j, A(i, j)); };
  VectorXd r0 = A * x - b;
  Solver::Newtonsolver s(1e-6, 3);
  if (!newjac) s.evaluate_state_derivative_triplets(toy, 0, 1, last, x, u);
  auto r = s.solve(x, toy, newjac, full, 0, 1, last, u);
  sx_assert(r.success && r.used_iterations <= 1, "solved in one step");
  if (r.used_iterations == 1) {
    VectorXd q = A * x - b;
    for (int i = 0; i < n; ++i) sx_eq(q[i], 0, "solution of the affine system");
    sx_reach("affine");
  }
}
// a scalar equation with a changing slope: the updated Jacobian is that of the current iterate, the simplified one that of the start
static void curved() {
  bool full = sx_bool("full");
  double a = sx_double("a", 0.5, 10), x0 = sx_double("x", 0.5, 10);
  std::vector<double> at;
  Toy toy(1, 0, 0);
  toy.e = [&](Eigen::Ref<VectorXd> r, double, double, In, In y, In) { r[0] = y[0] * y[0] - a; };
  toy.en = [&](Aux::Matrixhandler &h, double, double, In, In y, In) { at.push_back(y[0]); h.add_to_coefficient(0, 0, 2 * y[0]); };
  Solver::Newtonsolver s(1e-9, 1);
  VectorXd x(1), last = VectorXd::Zero(1), u(0), y(1);
  x[0] = x0; y[0] = x0 + 1;
  s.evaluate_state_derivative_triplets(toy, 0, 1, last, y, u);
  sx_assume(x0 * x0 - a > 0.1); // convex side: the full step is taken
  auto r = s.solve(x, toy, false, full, 0, 1, last, u);
  sx_eq(x[0], x0 - (x0 * x0 - a) / (2 * x0), "first Newton iterate");
  double res = x[0] * x[0] - a;
  sx_assert(r.success == (res <= 1e-9 && res >= -1e-9), "success of one step");
  sx_reach("curved");
}
void harness() {
  switch (sx_int("part", 0, 3)) {
    case 0: wild(false); break;
    case 1: wild(true); break;
    case 2: affine(); break;
    default: curved();
  }
  sx_reach("end");
}
