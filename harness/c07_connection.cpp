// C07: the gas-power connection.
#include <vector>
#include "Gasedge.hpp"
#include "Powernode.hpp"
#include "netkit.hpp"
using Model::Gas::Gasedge;
static json bv(std::vector<double> a) { return json::array({Kit::datum(0, a), Kit::datum(100, a)}); }
void harness() {
  double g2p = sx_double("g2p", 0.01, 50), p2g = sx_double("p2g", 0.01, 50);
  int part = sx_int("part", 0, 3);
  bool line = sx_bool("line");
  Kit k;
  k.node("Source", "S").bound("Source", "S", bv({3})).node("Innode", "I").edge("Shortpipe", "sp", "S", "I");
  double G = sx_double("G", -10, 10), B = sx_double("B", -10, 10);
  k.node("ExternalPowerplant", "M", {{"G", G}, {"B", B}}).bound("ExternalPowerplant", "M", bv({1, 0}));
  if (line) k.node("PQnode", "N", {{"G", 2.0}, {"B", 3.0}}).bound("PQnode", "N", bv({1, 0})).line("l", "M", "N", sx_double("lG", -10, 10), sx_double("lB", -10, 10));
  k.edge("Gaspowerconnection", "gp", "I", "M", {{"gas2power_q_coeff", g2p}, {"power2gas_q_coeff", p2g}});
  k.build();
  auto *e = k.edgep<Gasedge>("gp");
  auto *m = k.nodep<Model::Power::Powernode>("M");
  auto s = e->get_state_startindex();
  sx_assert(e->get_number_of_states() == 2, "two unknowns");
  VectorXd n = states("n", k.ns, 0.1, 100, -300, 300), l = VectorXd::Zero(k.ns), u(k.nc);
  double q = n[s + 1];
  double const kappa = 60;
  // the equation of the connection: power of the plant minus generated power
  auto curve = [&](VectorXd const &x) { VectorXd r = residual(k, 0, 1, l, x, u); return m->P(x) - r[s + 1]; };
  auto slope = [&](VectorXd const &x) { MatrixXd J = assemble(k.ns, k.ns, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_d_new_state(h, 0, 1, l, x, u); }); return -J(s + 1, s + 1); };
  if (part == 0) {
    double c = curve(n);
    if (q > kappa) { sx_eq(c, g2p * q, "gas to power"); sx_reach("gas to power"); }
    else if (q < -kappa) { sx_eq(c, p2g * q, "power to gas"); sx_reach("power to gas"); }
    else sx_reach("smoothed");
    if (q == 0) sx_eq(c, 0, "no flow, no power");
    // the curve depends on the flow only
    for (Eigen::Index j = 0; j < k.ns; ++j)
      if (j != s + 1) sx_eq(sx_d(c, S("n", j)), 0, S("curve independent of state ", j));
    sx_eq(slope(n), sx_d(c, S("n", s + 1)), "slope of the curve");
  } else if (part == 1) { // seams
    bool neg = sx_bool("neg");
    double q2 = sx_double("q2", -300, 300), q0 = neg ? -kappa : kappa;
    VectorXd n2 = n;
    n2[s + 1] = q2;
    std::string qn = S("n", s + 1);
    // q inside, q2 outside of the smoothing interval
    if (neg) sx_assume(q > -kappa && q < 0 && q2 < -kappa); else sx_assume(q < kappa && q > 0 && q2 > kappa);
    sx_eq(sx_limit(curve(n), qn.c_str(), q0), sx_limit(curve(n2), "q2", q0), "curve continuous");
    sx_eq(sx_limit(slope(n), qn.c_str(), q0), sx_limit(slope(n2), "q2", q0), "slope continuous");
    sx_reach("seam");
  } else if (part == 2) { // monotone
    sx_assume(g2p <= 5 * p2g && p2g <= 5 * g2p);
    double sl = slope(n);
    sx_lt(0, sl, "more gas, more power");
    sx_reach("monotone");
  } else { // the gas node sees the flow and shares its pressure with the connection
    auto *sp = k.edgep<Gasedge>("sp");
    auto in = sp->get_state_afterindex() - 2;
    VectorXd v = n;
    v[s] = v[in];
    v[s + 1] = v[in + 1];
    VectorXd r = residual(k, 0, 1, l, v, u);
    sx_eq(r[s], 0, "node equation (a)");
    sx_eq(r[sp->get_state_afterindex() - 1], 0, "node equation (b)");
    r = residual(k, 0, 1, l, n, u);
    double slack = sx_symbolic() ? 1 : 2, ra = r[s], rb = r[sp->get_state_afterindex() - 1];
    sx_assume(ra <= slack * 1e-6 && ra >= -slack * 1e-6 && rb <= slack * 1e-6 && rb >= -slack * 1e-6);
    double dq = n[in + 1] - q, dp = n[in] - n[s];
    sx_le(dq, 1e-4, "flow seen by the node (a)"); sx_le(-dq, 1e-4, "flow seen by the node (b)");
    sx_le(dp, 1e-4, "pressure shared with the node (a)"); sx_le(-dp, 1e-4, "pressure shared with the node (b)");
    sx_reach("node");
  }
  sx_reach("end");
}
