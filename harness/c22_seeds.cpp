// C22: the realisation depends on the seed and the parameters only; truncated samples are the first ones within the bounds.
#include <vector>
#include <memory>
#include "Normaldistribution.hpp"
#include "StochasticPQnode.hpp"
#include "netkit.hpp"
typedef std::array<uint32_t, Aux::pcg_seed_count> Seed;
using Model::Power::StochasticPQnode;
static Seed seed(int kind) {
  Seed s;
  for (unsigned i = 0; i < s.size(); ++i) s[i] = kind == 0 ? i : kind == 1 ? 4294967295u - 17 * i : 1u << (4 * i);
  return s;
}
static Kit make(json s, double sigma, double theta, double mu) {
  Kit k;
  k.node("Vphinode", "V", {{"G", 0.5}, {"B", -1.5}}).bound("Vphinode", "V", json::array({Kit::datum(-100, {1, 0}), Kit::datum(100, {1, 0})}));
  k.node("StochasticPQnode", "st", {{"G", 1.25}, {"B", -2.0}, {"stability_parameter", 1.5}, {"cut_off_factor", 1e9}, {"sigma_P", sigma}, {"theta_P", theta}, {"sigma_Q", sigma}, {"theta_Q", theta}, {"number_of_stochastic_steps", 2}});
  json b = {{"id", "st"}, {"data", json::array({Kit::datum(-100, {mu, -mu}), Kit::datum(100, {mu, -mu})})}};
  if (!s.is_null()) b["seed"] = s;
  k.bnd["nodes"]["StochasticPQnode"].push_back(b);
  k.line("l", "st", "V", 0.75, 3.0);
  k.build();
  return k;
}
static json saved(Kit &k) {
  json out;
  k.problem->add_results_to_json(out);
  return out["nodes"]["StochasticPQnode"][0]["seed"];
}
static std::vector<double> run(Kit &k, int steps) {
  std::vector<double> v;
  VectorXd l = VectorXd::Constant(k.ns, 0.5), u(0);
  for (int i = 0; i < steps; ++i) {
    k.problem->prepare_timestep(i, i + 1, l, u);
    auto *st = k.nodep<StochasticPQnode>("st");
    v.push_back(st->get_current_P()); v.push_back(st->get_current_Q());
  }
  return v;
}
static void reproducible() {
  double sigma = sx_double("sigma", 0.01, 100), theta = sx_double("theta", 0, 0.7), mu = sx_double("mu", 1, 100);
  int kind = sx_int("seed", 0, 3);
  json s = kind == 3 ? json() : json(seed(kind));
  Kit a = make(s, sigma, theta, mu);
  json used = saved(a);
  sx_assert(used.is_array() && used.size() == Aux::pcg_seed_count, "the used seed is saved");
  if (kind < 3) sx_assert(used == s, "the given seed is used");
  Kit b = make(used, sigma, theta, mu);
  auto x = run(a, 2), y = run(b, 2);
  for (size_t i = 0; i < x.size(); ++i) sx_eq(x[i] - y[i], 0, "same seed and parameters, same realisation");
  sx_reach(kind == 3 ? "random seed" : "given seed");
}
static void truncated() {
  int kind = sx_int("seed", 0, 2), form = sx_int("form", 0, 4), within = sx_int("within", 0, sx_param("trials", 3) - 1);
  Seed used, used2;
  Aux::Truncatednormaldist t(used, seed(kind));
  Aux::Normaldistribution n(used2, seed(kind));
  sx_assert(used == seed(kind) && used2 == seed(kind), "the given seed is used");
  double mean = form == 0 || form == 1 ? sx_double("mean", -100, 100) : 0, sd = sx_double("sd", 0.001, 50), lo, hi, x = 0;
  bool wide = form == 1 || form == 3;
  if (wide) { lo = mean - 2 * sd; hi = mean + 2 * sd; }
  else { lo = sx_double("lo", -300, 300); hi = sx_double("hi", -300, 300); }
  if (form == 4) { // no sample can fit
    sx_assert(throws([&] { t.get_sample(0, 1, 1, -1); }), "empty interval is reported");
    sx_reach("empty");
    return;
  }
  for (int i = 0; ; ++i) { // the first sample of the same stream within the bounds
    x = n.get_sample(mean, sd);
    bool in = x >= lo && x <= hi;
    if (wide && in) break;
    if (!wide) { sx_assume(in == (i == within)); if (i == within) break; }
  }
  double y = form == 0 ? t.get_sample(mean, sd, lo, hi) : form == 1 ? t.get_sample(mean, sd) : form == 2 ? t.get_sample(sd, lo, hi) : t.get_sample(sd);
  sx_le(lo, y, "sample not below the lower bound");
  sx_le(y, hi, "sample not above the upper bound");
  sx_eq(y, x, "first sample of the stream within the bounds");
  sx_reach("truncated");
}
static void linear() { // a normal sample is mean + deviation * (a draw that depends on the seed only)
  int kind = sx_int("seed", 0, 2);
  Seed u;
  Aux::Normaldistribution a(u, seed(kind)), b(u, seed(kind)), c(u, seed(kind));
  double mean = sx_double("mean", -100, 100), sd = sx_double("sd", 0.001, 50);
  double last = 0;
  bool differ = false;
  for (int i = 0; i < 4; ++i) {
    double z = c.get_sample(0, 1);
    sx_eq(a.get_sample(mean, sd), mean + sd * z, "sample scales with mean and deviation");
    sx_eq(b.get_sample(sd), sd * z, "sample scales with deviation");
    if (i && z != last) differ = true;
    last = z;
  }
  sx_assert(differ, "draws differ");
  sx_reach("normal");
}
void harness() {
  int part = sx_int("part", 0, 2);
  if (part == 0) reproducible();
  else if (part == 1) truncated();
  else linear();
}
