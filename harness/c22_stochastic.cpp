// C22: Ornstein-Uhlenbeck demand: update, cut-off, number of sub-steps, rejected parameters; the node's use of it.
#include <vector>
#include <cmath>
#include "Normaldistribution.hpp"
#include "Stochastic.hpp"
#include "StochasticPQnode.hpp"
#include "netkit.hpp"
#include "stubs/noise.hpp"
using Model::Power::StochasticPQnode;
struct Draws { // an adversarial source of noise
  std::vector<double> z, sd;
  double get_sample(double deviation) {
    sd.push_back(deviation);
    z.push_back(deviation * sx_double(S("z", long(z.size())), -1e3, 1e3));
    return z.back();
  }
};
static double cut(double x, double mu, double c) {
  if (mu > 0) { if (x < (1 - c) * mu) return (1 - c) * mu; if (x > (1 + c) * mu) return (1 + c) * mu; }
  if (mu < 0) { if (x > (1 - c) * mu) return (1 - c) * mu; if (x < (1 + c) * mu) return (1 + c) * mu; }
  return x;
}
static void process() {
  int max = sx_param("steps", 2);
  // theta * dt = ratio * stability: every drift up to the bound on the number of sub-steps
  double stab = sx_double("stability", 0.01, 1.99), dt = sx_double("dt", 0.001, 1e4), ratio = sx_double("ratio", 0, max - 1), theta = ratio * stab / dt;
  double c = sx_double("cut", 0, 3), mu = sx_double("mu", -1e3, 1e3), sigma = sx_double("sigma", 0, 100), x = sx_double("last", -1e4, 1e4);
  int n = sx_int("n", 1, max);
  Draws d;
  double y = Aux::euler_maruyama_oup(stab, c, x, theta, mu, dt, sigma, d, n);
  int m = int(d.z.size());
  sx_assert(m >= n, "at least the requested number of sub-steps");
  sx_lt(theta * dt, stab * m, "stable number of sub-steps");
  if (theta * dt < stab * n) { sx_assert(m == n, "stable parameters keep the number of sub-steps"); sx_reach("kept"); }
  else sx_reach("raised");
  double h = dt / m;
  for (int i = 0; i < m; ++i) {
    sx_lt(0, d.sd[i], "deviation positive");
    sx_eq(d.sd[i] * d.sd[i], h, "variance of the increments is the sub-step");
    x = cut(x + theta * (mu - x) * h + sigma * d.z[i], mu, c);
  }
  sx_eq(y, x, "Ornstein-Uhlenbeck update");
  double r = mu < 0 ? -mu : mu;
  if (mu != 0) { sx_le(y - mu, c * r, "within the cut-off above"); sx_le(mu - y, c * r, "within the cut-off below"); sx_reach("cut-off"); }
  else sx_reach("zero demand");
}
static void rejected() {
  double stab = sx_double("stability", -3, 5), dt = sx_double("dt", 0.001, 10), theta = sx_double("ratio", -3, 3) * stab / dt;
  int n = sx_int("n", -2, 2);
  if (n == 0) { dt = 0.5; stab = sx_bool("unstable") ? 2.5 : 0.25; theta = sx_bool("negative") ? -1 : 3; }
  bool good = stab > 0 && stab < 2 && theta >= 0 && n >= 0;
  int m = 0;
  bool threw = throws([&] { m = Aux::compute_stable_number_of_oup_steps(stab, theta, dt, n); });
  sx_assert(threw == !good, good ? "admissible parameters are accepted" : "inadmissible parameters are rejected");
  if (good) { sx_lt(theta * dt, stab * m, "stable"); sx_reach("accepted"); }
  else {
    Draws d;
    sx_assert(throws([&] { Aux::euler_maruyama_oup(stab, 0.5, 1, theta, 2, dt, 1, d, n); }) && d.z.empty(), "rejected before anything is drawn");
    sx_reach("rejected");
  }
}
static std::vector<double> zvalues;
static double znode(int k) { return zvalues[k]; }
static void node() {
  noise_reset();
  noise_source = znode;
  double t0 = sx_double("t0", -5, 5), dt = sx_double("dt", 0.01, 0.4), t1 = t0 + dt;
  double cutoff = sx_double("cut", 0.01, 2), sP = sx_double("sP", 0, 5), sQ = sx_double("sQ", 0, 5), tP = sx_double("tP", 0, 2), tQ = sx_double("tQ", 0, 2);
  bool neg = sx_bool("neg");
  std::vector<double> mu = {neg ? sx_double("P", -9, -0.1) : sx_double("P", 0.1, 9), neg ? sx_double("Q", 0.1, 9) : sx_double("Q", -9, -0.1)};
  double sl[2] = {sx_double("slopeP", -1, 1), sx_double("slopeQ", -1, 1)};
  int n = sx_int("n", 1, sx_param("nodesteps", 1));
  for (int j = 0; j < 2 * n; ++j) zvalues.push_back(sx_double(S("z", j), -50, 50));
  Kit k;
  json data = json::array({Kit::datum(t1 - 3, {mu[0] - 3 * sl[0], mu[1] - 3 * sl[1]}), Kit::datum(t1 + 2, {mu[0] + 2 * sl[0], mu[1] + 2 * sl[1]})});
  k.node("Vphinode", "V", {{"G", 0.5}, {"B", -1.5}}).bound("Vphinode", "V", json::array({Kit::datum(-100, {1, 0}), Kit::datum(100, {1, 0})}));
  k.node("StochasticPQnode", "st", {{"G", 1.25}, {"B", -2.0}, {"stability_parameter", 1.5}, {"cut_off_factor", cutoff}, {"sigma_P", sP}, {"theta_P", tP}, {"sigma_Q", sQ}, {"theta_Q", tQ}, {"number_of_stochastic_steps", n}});
  k.bound("StochasticPQnode", "st", data).line("l", "st", "V", 0.75, 3.0);
  k.build();
  auto *st = k.nodep<StochasticPQnode>("st");
  auto *v = k.nodep<Model::Power::Powernode>("V");
  auto i = st->get_state_startindex();
  // the state before the step: equal angles, so that the power before is a polynomial in the voltages
  VectorXd l(k.ns);
  l[i] = sx_double("V", 0.5, 2); l[i + 1] = 0.25;
  l[v->get_state_startindex()] = sx_double("W", 0.5, 2); l[v->get_state_startindex() + 1] = 0.25;
  double f = l[i] * l[v->get_state_startindex()];
  double x[2] = {1.25 * l[i] * l[i] + 0.75 * f, 2.0 * l[i] * l[i] - 3.0 * f};
  VectorXd u(0), nw = vec("n", k.ns, 0.5, 2), r1(k.ns), r2(k.ns), r3(k.ns), other = vec("o", k.ns, 0.5, 2);
  k.problem->prepare_timestep(t0, t1, l, u);
  sx_assert(int(noise_deviations.size()) == 2 * n, "one draw per sub-step and power");
  double theta[2] = {tP, tQ}, sigma[2] = {sP, sQ}, h = dt / n, r = 0;
  for (int p = 0; p < 2; ++p) {
    for (int s = 0; s < n; ++s) {
      double sd = noise_deviations[p * n + s];
      sx_eq(sd * sd, h, "variance of the increments");
      x[p] = cut(x[p] + theta[p] * (mu[p] - x[p]) * h + sigma[p] * sd * znode(p * n + s), mu[p], cutoff);
    }
    r = (p ? st->Q(nw) : st->P(nw)) - x[p];
    if (p == 0) k.problem->evaluate(r1, t0, t1, l, nw, u);
    sx_eq(r1[i + p], r, p ? "realised reactive power" : "realised active power");
  }
  sx_eq(st->get_current_P(), x[0], "reported active power");
  sx_eq(st->get_current_Q(), x[1], "reported reactive power");
  // the same realisation for every evaluation of the step
  k.problem->evaluate(r3, t0, t1, l, other, u);
  k.problem->evaluate(r2, t0, t1, l, nw, u);
  for (int p = 0; p < 2; ++p) sx_eq(r1[i + p], r2[i + p], "evaluations of one step agree");
  sx_assert(int(noise_deviations.size()) == 2 * n, "no further draws");
  sx_reach("node");
}
void harness() {
  int part = sx_int("part", 0, 2);
  if (part == 0) process();
  else if (part == 1) rejected();
  else node();
}
