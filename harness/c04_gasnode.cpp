// C04: gas nodes couple the attached edges.
#include <vector>
#include "Gasedge.hpp"
#include "Isothermaleulerequation.hpp"
#include "netkit.hpp"
using Model::Gas::Gasedge;
static double density(double p) {
  double const c2 = 1.01325e5 * 283.15 / (1.005 * 273.15 * 0.785), alpha = 0.257 / 46.4512e5 - 0.533 * 192.033 / (46.4512e5 * 283.15);
  return p / (c2 * (1 + alpha * p));
}
double const day = 86400;
static json bv2(double a, double b) { return json::array({Kit::datum(0, {a}), Kit::datum(day, {b})}); }
void harness() {
  static char const *types[5] = {"Innode", "Source", "Sink", "ConstraintSink", "Pressureboundarynode"};
  int type = sx_int("type", 0, 4);
  int edges = sx_int("edges", 1, sx_param("edges", 3));
  int dirs = sx_int("dirs", 0, (1 << edges) - 1);
  int rot = sx_int("kinds", 0, sx_param("kinds", 2));
  bool para = edges >= 2 && sx_bool("parallel"); // the last two edges connect to the same neighbour
  double t0 = day / 3, t1 = sx_double("t1", t0, day), low = type == 4 ? 1 : -100, b0 = sx_double("b0", low, 100), b1 = sx_double("b1", low, 100);
  Kit k;
  k.node(types[type], "M");
  if (type) k.bound(types[type], "M", bv2(b0, b1));
  std::vector<std::string> ids(edges);
  std::vector<int> kinds(edges);
  for (int i = 0; i < edges; ++i) {
    std::string o = S("E", para && i == edges - 1 ? i - 1 : i);
    bool out = dirs >> i & 1;
    int kind = (i + 2 * rot) % 5;
    if (kind == 4 && !out) kind = 2; // a gas-power connection can only start at a gas node
    if (kind == 4 && para) kind = 0;
    if (kind == 4) {
      if (!(para && i == edges - 1)) k.node("ExternalPowerplant", o, {{"G", 1.0}, {"B", 2.0}}).bound("ExternalPowerplant", o, json::array({Kit::datum(0, {1, 0}), Kit::datum(day, {1, 0})}));
    } else if (!(para && i == edges - 1)) k.node("Pressureboundarynode", o).bound("Pressureboundarynode", o, bv2(50, 50));
    std::string f = out ? "M" : o, t = out ? o : "M", id = S("e", i);
    ids[i] = id; kinds[i] = kind;
    if (kind == 0) k.pipe(id, f, t, 2000, 1000, 0.5, 1e-5);
    else if (kind == 1) k.edge("Compressorstation", id, f, t);
    else if (kind == 2) k.edge("Shortpipe", id, f, t);
    else if (kind == 3) k.edge("Controlvalve", id, f, t);
    else { k.edge("Gaspowerconnection", id, f, t, {{"gas2power_q_coeff", 2.0}, {"power2gas_q_coeff", 3.0}}); sx_reach("connection"); }
  }
  k.build();
  VectorXd l = VectorXd::Constant(k.ns, 50), n = states("n", k.ns, 0.1, 200, 10, 500), u = vec("u", k.nc, -50, 50);
  // where the edges meet the node
  std::vector<Eigen::Index> at(edges), row(edges);
  std::vector<int> dir(edges);
  for (int i = 0; i < edges; ++i) {
    auto *e = k.edgep<Gasedge>(ids[i]);
    bool out = dirs >> i & 1;
    dir[i] = out ? 1 : -1; // outgoing edges take gas away from the node
    at[i] = out ? e->get_state_startindex() : e->get_state_afterindex() - 2;
    row[i] = out ? e->get_state_startindex() : e->get_state_afterindex() - 1;
  }
  auto pressure = [&](int i, VectorXd const &s) {
    double rho = s[at[i]];
    if (kinds[i] != 0) return rho;
    double const c2 = 1.01325e5 * 283.15 / (1.005 * 273.15 * 0.785), alpha = 0.257 / 46.4512e5 - 0.533 * 192.033 / (46.4512e5 * 283.15);
    return 1e-5 * (c2 * rho / (1 - alpha * c2 * rho));
  };
  double prescribed = b0 + (b1 - b0) * t1 / day;
  double feed = type == 0 ? 0 : type == 1 ? prescribed : -prescribed; // what the node adds to the network
  {
    // a state that fulfils the conditions satisfies the node equations
    VectorXd s = n;
    double p = type == 4 ? prescribed : sx_double("p", 1, 150), sum = 0;
    for (int i = 0; i < edges; ++i) {
      if (kinds[i] == 0) s[at[i]] = density(1e5 * p);
      else s[at[i]] = p;
      sum += dir[i] * s[at[i] + 1];
    }
    // gas fed in leaves through the outgoing edges
    if (type != 4) s[at[edges - 1] + 1] += dir[edges - 1] * (feed - sum);
    VectorXd r = residual(k, t0, t1, l, s, u);
    for (int i = 0; i < edges; ++i) sx_eq(r[row[i]], 0, S("valid state solves node equation ", i));
  }
  VectorXd r = residual(k, t0, t1, l, n, u);
  // a state that solves the node equations fulfils the conditions
  if (sx_bool("converse")) {
    double slack = sx_symbolic() ? 1 : 2;
    for (int i = 0; i < edges; ++i) sx_assume(r[row[i]] <= slack * 1e-6 && r[row[i]] >= -slack * 1e-6);
    double sum = 0;
    for (int i = 0; i < edges; ++i) {
      sum += dir[i] * n[at[i] + 1];
      double d = pressure(i, n) - (type == 4 ? prescribed : pressure(0, n));
      sx_le(d, 1e-4, S("pressures agree (a) ", i));
      sx_le(-d, 1e-4, S("pressures agree (b) ", i));
    }
    if (type != 4) { sx_le(sum - feed, 1e-4, "flow balance (a)"); sx_le(feed - sum, 1e-4, "flow balance (b)"); }
    sx_reach("converse");
  }
  // square: as many equations as edge ends, each at its own edge
  for (int i = 0; i < edges; ++i)
    for (int j = 0; j < i; ++j) sx_assert(row[i] != row[j], "node equations have rows of their own");
  sx_reach(types[type]);
  sx_reach("end");
}
