// C06: power nodes realise the AC power-flow equations.
#include <vector>
#include "Powernode.hpp"
#include "netkit.hpp"
static char const *types[5] = {"PQnode", "PVnode", "Vphinode", "ExternalPowerplant"};
void harness() {
  int type = sx_int("type", 0, 3);
  int lines = sx_int("lines", 0, sx_param("lines", 3));
  int dirs = sx_int("dirs", 0, (1 << lines) - 1);
  bool parallel = lines >= 2 && sx_bool("parallel");
  double t1 = sx_double("t1", 0, 100);
  double v0 = sx_double("v0", -50, 50), w0 = sx_double("w0", -50, 50), v1 = sx_double("v1", -50, 50), w1 = sx_double("w1", -50, 50);
  double G = sx_double("G", -100, 100), B = sx_double("B", -100, 100);
  Kit k;
  k.node(types[type], "M", {{"G", G}, {"B", B}}).bound(types[type], "M", json::array({Kit::datum(0, {v0, w0}), Kit::datum(100, {v1, w1})}));
  std::vector<double> lG(lines), lB(lines);
  std::vector<std::string> others(lines);
  for (int i = 0; i < lines; ++i) {
    int o = parallel && i == lines - 1 ? i - 1 : i;
    others[i] = S("N", o);
    char const *ty = types[(type + i) % 3];
    if (o == i) k.node(ty, others[i], {{"G", sx_double(S("G", i), -100, 100)}, {"B", sx_double(S("B", i), -100, 100)}}).bound(ty, others[i], json::array({Kit::datum(0, {1, 2}), Kit::datum(100, {1, 2})}));
    bool out = dirs >> i & 1;
    lG[i] = sx_double(S("lG", i), -100, 100);
    lB[i] = sx_double(S("lB", i), -100, 100);
    k.line(S("l", i), out ? "M" : others[i], out ? others[i] : "M", lG[i], lB[i]);
  }
  if (type == 3) {
    k.node("Source", "S").bound("Source", "S", json::array({Kit::datum(0, {1}), Kit::datum(100, {1})}));
    k.edge("Gaspowerconnection", "gp", "S", "M", {{"gas2power_q_coeff", 2.0}, {"power2gas_q_coeff", 3.0}});
    sx_reach("plant");
  }
  k.build();
  VectorXd n = states("n", k.ns, 0.1, 100, -10, 10), l = VectorXd::Zero(k.ns), u(k.nc);
  auto *m = k.nodep<Model::Power::Powernode>("M");
  sx_assert(m != nullptr, "is a power node");
  auto vi = m->get_state_startindex();
  sx_assert(m->get_number_of_states() == 2, "two unknowns");
  double V = n[vi], phi = n[vi + 1], P = G * V * V, Q = -B * V * V;
  for (int i = 0; i < lines; ++i) {
    auto j = k.nodep<Model::Power::Powernode>(others[i])->get_state_startindex();
    double Vk = n[j], d = phi - n[j + 1];
    P += V * Vk * (lG[i] * std::cos(d) + lB[i] * std::sin(d));
    Q += V * Vk * (lG[i] * std::sin(d) - lB[i] * std::cos(d));
  }
  sx_eq(m->P(n), P, "active power");
  sx_eq(m->Q(n), Q, "reactive power");
  double a = v0 + (v1 - v0) * t1 / 100, b = w0 + (w1 - w0) * t1 / 100;
  VectorXd r = residual(k, 0, t1, l, n, u);
  double r0 = r[vi], r1 = r[vi + 1];
  // the two equations are the documented ones (in either order)
  if (type == 0) { sx_eq(r0, P - a, "PQ node: active power"); sx_eq(r1, Q - b, "PQ node: reactive power"); }
  else if (type == 1) { sx_eq(r0, P - a, "PV node: active power"); sx_eq(r1, V - b, "PV node: voltage"); }
  else { sx_eq(r0, V - a, "V-phi node: voltage"); sx_eq(r1, phi - b, "V-phi node: angle"); }
  sx_reach(types[type]);
  if (parallel) sx_reach("parallel");
  sx_reach("end");
}
