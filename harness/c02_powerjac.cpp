// C02: Jacobians of the power components and of the gas-power connection.
#include <vector>
#include "netkit.hpp"
static json bv(std::vector<double> v) { return json::array({Kit::datum(0, v), Kit::datum(100, v)}); }
static json gb(double g, double b) { return {{"G", g}, {"B", b}}; }
static char const *types[5] = {"PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant"};
static void addnode(Kit &k, int type, std::string id, std::string in) {
  json j = gb(sx_double("G" + in, -100, 100), sx_double("B" + in, -100, 100));
  if (type == 3) j.update({{"stability_parameter", 0.5}, {"cut_off_factor", 0.3}, {"sigma_P", 0.4}, {"theta_P", 3.0}, {"sigma_Q", 0.5}, {"theta_Q", 2.0}, {"number_of_stochastic_steps", 2}});
  k.node(types[type], id, j);
  json b = {{"id", id}, {"data", bv({sx_double("b" + in, -100, 100), sx_double("c" + in, -100, 100)})}};
  if (type == 3) b["seed"] = std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8};
  if (type == 3) b["data"] = bv({-2, -3});
  k.bnd["nodes"][types[type]].push_back(b);
}
void harness() {
  int type = sx_int("type", 0, 4);
  int lines = sx_int("lines", 0, sx_param("lines", 3));
  int dirs = sx_int("dirs", 0, (1 << lines) - 1);
  bool parallel = lines >= 2 && sx_bool("parallel"); // the last two lines go to the same neighbour
  Kit k;
  addnode(k, type, "M", "M");
  for (int i = 0; i < lines; ++i) {
    int other = parallel && i == lines - 1 ? i - 1 : i;
    std::string o = S("N", other);
    if (other == i) addnode(k, (type + i) % 4, o, S("", i));
    bool out = dirs >> i & 1;
    k.line(S("l", i), out ? "M" : o, out ? o : "M", sx_double(S("lG", i), -100, 100), sx_double(S("lB", i), -100, 100));
  }
  if (type == 4) {
    k.node("Innode", "I").node("Source", "S").bound("Source", "S", bv({sx_double("s", -100, 100)}));
    k.edge("Shortpipe", "sp", "S", "I");
    k.edge("Gaspowerconnection", "gp", "I", "M", {{"gas2power_q_coeff", sx_double("g2p", 0.01, 50)}, {"power2gas_q_coeff", sx_double("p2g", 0.01, 50)}});
    sx_reach("plant");
  }
  k.build();
  VectorXd l(k.ns), u(k.nc), lsym = states("l", k.ns, 0.1, 100, -100, 100);
  for (Eigen::Index i = 0; i < k.ns; ++i) l[i] = 1 + 0.25 * double(i);
  k.problem->prepare_timestep(0, 1, l, u); // the stochastic nodes draw their values here
  VectorXd n = states("n", k.ns, 0.1, 100, -100, 100);
  jacobians(k, 1, 2, lsym, n, u);
  sx_reach(types[type]);
  if (parallel) sx_reach("parallel");
  sx_reach("end");
}
