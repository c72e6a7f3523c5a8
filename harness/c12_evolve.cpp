// C12: time evolution.
#include "Exception.hpp"
#include "InterpolatingVector.hpp"
#include "Timeevolver.hpp"
#include "toy.hpp"
using Aux::InterpolatingVector;
static json settings(double tol, int max, int retries, bool simple) {
  return {{"tolerance", tol}, {"maximal_number_of_newton_iterations", max}, {"retries", retries}, {"use_simplified_newton", simple}};
}
static VectorXd times(std::string name, int n, double gap) {
  VectorXd t(n);
  t[0] = sx_double(S(name, 0), -1e9, 1e9);
  for (int i = 1; i < n; ++i) t[i] = t[i - 1] + sx_double(S(name, i), gap, 1e9);
  return t;
}
// value of a piecewise linear function
static double at(VectorXd const &t, VectorXd const &v, double x) {
  if (x >= t[t.size() - 1]) return v[v.size() - 1];
  for (Eigen::Index i = t.size() - 2; i >= 0; --i)
    if (x >= t[i]) return v[i] + (v[i + 1] - v[i]) * ((x - t[i]) / (t[i + 1] - t[i]));
  return v[0];
}
// an affine equation with coefficients that differ from step to step
static void affine() {
  int nc = sx_int("nc", 0, 1);
  bool simple = sx_bool("simple"), arbitrary = sx_bool("arbitrary"); // arbitrary times for one step, or several steps
  int steps = arbitrary ? 1 : sx_param("steps", 2);
  VectorXd t(steps + 1), ct(2), cv(2);
  if (arbitrary) {
    t = times("t", 2, 1e-3);
    ct << t[0] - sx_double("before", 0, 5), t[steps] + sx_double("after", 0, 5);
  } else {
    for (int i = 0; i <= steps; ++i) t[i] = i * (2 + i);
    ct << -1, t[steps] + 3;
  }
  cv << sx_double("c0", -10, 10), sx_double("c1", -10, 10);
  double p = sx_double("p", 0.1, 2), q = sx_double("q", -3, 3), r = sx_double("r", -3, 3), s = sx_double("s", -3, 3);
  // residual as a function of everything the step depends on
  auto residual = [&](double lt, double nt, double l, double n, double u) { return (nt - lt) * p * n + q * l - r * nt - s * u; };
  Toy toy(1, nc, 0);
  int evaluations = 0;
  toy.e = [&](Eigen::Ref<VectorXd> y, double lt, double nt, In l, In n, In u) {
    sx_assert(u.size() == nc, "number of controls handed to the equations");
    y[0] = residual(lt, nt, l[0], n[0], nc ? u[0] : 0);
    if (evaluations++ % 2 == 0) sx_assume(y[0] > 2e-3 || y[0] < -2e-3); // steps that are solved from the start: see schedule()
  };
  toy.en = [&](Aux::Matrixhandler &h, double lt, double nt, In, In, In) { h.add_to_coefficient(0, 0, (nt - lt) * p); };
  std::vector<double> prepared;
  toy.prepare = [&](double lt, double nt, In l, In u) { prepared.insert(prepared.end(), {lt, nt, l[0], nc ? u[0] : 0}); };
  InterpolatingVector c(ct, nc), saved(t, 1);
  if (nc) c.set_values_in_bulk(cv);
  saved.setZero();
  VectorXd x0(1);
  x0[0] = sx_double("x0", -10, 10);
  double const tol = 1e-3;
  auto ev = Model::Timeevolver::make_instance(settings(tol, 1, 0, simple));
  ev.simulate(x0, c, toy, saved);
  sx_eq(saved.vector_at_index(0)[0], x0[0], "initial state comes first");
  sx_assert(prepared.size() == 4 * (size_t)steps, "each step is prepared once");
  for (int i = 1; i <= steps; ++i) {
    double u = nc ? at(ct, cv, t[i]) : 0, l = saved.vector_at_index(i - 1)[0];
    double e = residual(t[i - 1], t[i], l, saved.vector_at_index(i)[0], u);
    sx_eq(e, 0, "residual of the stored state");
    size_t k = 4 * (size_t)(i - 1);
    if (prepared.size() > k + 3) {
      sx_eq(prepared[k], t[i - 1], "prepared: last time"); sx_eq(prepared[k + 1], t[i], "prepared: new time");
      sx_eq(prepared[k + 2], l, "prepared: last state"); sx_eq(prepared[k + 3], u, "prepared: control");
    }
  }
  sx_reach(nc ? "controlled" : "uncontrolled");
}
// every pattern of failing attempts
static void schedule() {
  int steps = sx_param("failsteps", 2), retries = sx_int("retries", 0, sx_param("retries", 1));
  bool simple = sx_bool("simple");
  VectorXd t(steps + 1), x0(1);
  for (int i = 0; i <= steps; ++i) t[i] = 10 * i;
  x0[0] = sx_double("x0", -10, 10);
  double const tol = 1e-3;
  Toy toy(1, 0, 0);
  int evals = 0, tries = 0, attempts = 0, step = 1, exceptional = 0, asked = 0;
  bool singular = false;
  double last = x0[0], candidate = 0; // state before the step, end of the attempt
  bool solved = true;
  std::vector<double> expected{x0[0]};
  toy.prepare = [&](double lt, double nt, In l, In) {
    if (solved) {
      if (attempts) { expected.push_back(candidate); last = candidate; ++step; }
      tries = 0; solved = false;
    }
    ++tries; ++attempts; evals = 0;
    sx_assert(step <= steps, "no more steps than times");
    sx_assert(lt == t[step - 1] && nt == t[step], "times of the attempt");
    sx_eq(l[0], last, "last state of the attempt");
    sx_assert(tries <= 2 * retries + 2, "attempts are bounded");
  };
  toy.e = [&](Eigen::Ref<VectorXd> y, double lt, double nt, In l, In n, In) {
    sx_assert(lt == t[step - 1] && nt == t[step], "times of the evaluation");
    sx_eq(l[0], last, "last state of the evaluation");
    if (evals++ == 0) { sx_eq(n[0], last, "each attempt starts from the last solution"); 
      bool already = sx_bool(S("already", attempts));
      candidate = n[0];
      y[0] = already ? 0 : 1;
      solved = already;
      return;
    }
    double v = sx_double(S("v", attempts, evals), -0.4, 0.4); // small enough for the line search to accept the step
    candidate = n[0];
    y[0] = v;
    solved = v <= tol && v >= -tol;
  };
  toy.en = [&](Aux::Matrixhandler &h, double, double, In, In, In) {
    if (attempts != asked) { // one choice per attempt, however often the derivative is evaluated
      asked = attempts;
      singular = sx_bool(S("singular", attempts));
      if (singular) exceptional = attempts;
    }
    h.add_to_coefficient(0, 0, singular ? 0.0 : 1.5);
  };
  InterpolatingVector c, saved(t, 1);
  for (int i = 0; i <= steps; ++i) saved.mut_timestep(i)[0] = 12345;
  auto ev = Model::Timeevolver::make_instance(settings(tol, 1, retries, simple));
  sx_assume(x0[0] > -9.5);
  bool thrown = throws([&] { ev.simulate(x0, c, toy, saved); });
  if (!thrown) { sx_assert(solved && !exceptional && step == steps, "all steps were solved"); if (solved) expected.push_back(candidate); }
  else sx_assert(exceptional || (!solved && tries >= retries + 1), "failure only after the retries");
  for (size_t i = 0; i <= (size_t)steps; ++i) {
    double v = saved.vector_at_index((Eigen::Index)i)[0];
    if (i < expected.size()) sx_eq(v, expected[i], "stored state is the solved one");
    else sx_assert(v == 12345, "no unsolved state is stored");
  }
  sx_reach(thrown ? exceptional ? "singular" : "gave up" : attempts > steps ? "retried" : "solved");
}
void harness() {
  if (sx_bool("schedule")) schedule(); else affine();
  sx_reach("end");
}
