// C03: the balance law.
#include "Isothermaleulerequation.hpp"
#include "common.hpp"
using Model::Balancelaw::Isothermaleulerequation;
static double ref_area(double d) { return 3.141592653589793 * d * d / 4; }
void harness() {
  int part = sx_int("part", 0, 6);
  double d = sx_double("d", 0.05, 2), k = sx_double("k", 1e-7, 1e-3);
  nlohmann::json t = {{"diameter", val(d)}, {"roughness", val(k)}};
  Isothermaleulerequation law(t);
  double rho = sx_double("rho", 0.01, 300), q = sx_double("q", -2000, 2000);
  Eigen::Vector2d s(rho, q);
  double const rho0 = 0.785, eta = 1e-5;
  double A = ref_area(d);
  double c2 = 1.01325e5 * 283.15 / (1.005 * 273.15 * 0.785);
  double alpha = 0.257 / 46.4512e5 - 0.533 * 192.033 / (46.4512e5 * 283.15);
  if (part == 0) { // values and derivatives
    auto f = law.flux(s);
    auto df = law.dflux_dstate(s);
    sx_eq(f[0], rho0 / A * q, "flux density");
    sx_eq(f[1], A / rho0 * (c2 * rho / (1 - alpha * c2 * rho)) + rho0 / A * q * q / rho, "flux momentum");
    sx_eq(df(0, 0), sx_d(f[0], "rho"), "dflux00");
    sx_eq(df(0, 1), sx_d(f[0], "q"), "dflux01");
    sx_eq(df(1, 0), sx_d(f[1], "rho"), "dflux10");
    sx_eq(df(1, 1), sx_d(f[1], "q"), "dflux11");
    sx_reach("flux");
  } else if (part == 1) {
    double Re = d / (A * eta) * rho0 * (q < 0 ? -q : q);
    auto g = law.source(s);
    sx_eq(g[0], 0, "no mass source");
    // friction formula away from the transition
    if (Re < 2000) { sx_eq(g[1], -rho0 / (2 * A * d) * (64 * A * eta / (d * rho0)) * q / rho, "laminar friction"); sx_reach("laminar"); }
    else if (Re > 4000) {
      double aux = std::log10(k / (3.7 * d) + 5.74 / std::pow(Re, 0.9));
      sx_eq(g[1], -rho0 / (2 * A * d) * (0.25 / (aux * aux)) * (q < 0 ? -q : q) * q / rho, "turbulent friction");
      sx_reach("turbulent");
    } else sx_reach("transitional");
    auto dg = law.dsource_dstate(s);
    sx_eq(dg(0, 0), 0, "dsource00");
    sx_eq(dg(0, 1), 0, "dsource01");
    sx_eq(dg(1, 0), sx_d(g[1], "rho"), "dsource10");
    sx_eq(dg(1, 1), sx_d(g[1], "q"), "dsource11");
    Eigen::Vector2d m(rho, -q);
    sx_eq(law.source(m)[1], -g[1], "friction is odd in the flow");
    sx_reach("source");
  } else if (part == 2 || part == 3) { // seams of the friction law: laminar/transitional and transitional/turbulent
    double border = part == 2 ? 2000 : 4000;
    double q2 = sx_double("q2", -2000, 2000);
    double sign = sx_bool("negative") ? -1 : 1;
    double q0 = sign * border * A * eta / (d * rho0);
    double c = d / (A * eta) * rho0;
    // q on the lower, q2 on the upper side of the border, both with the same sign and next to it
    sx_assume(c * sign * q > border - 1000 && c * sign * q < border && c * sign * q2 > border && c * sign * q2 < border + 1000);
    Eigen::Vector2d lo(rho, q), hi(rho, q2);
    sx_tolerance(1e-5, 1e-9);
    double sl = law.source(lo)[1], sh = law.source(hi)[1];
    auto dl = law.dsource_dstate(lo), dh = law.dsource_dstate(hi);
    // both sides of lambda
    double Rel = Isothermaleulerequation::Reynolds(q, d), Reh = Isothermaleulerequation::Reynolds(q2, d);
    sx_eq(Rel, c * sign * q, "Reynolds number");
    if (part == 3) {
      double ll = Isothermaleulerequation::lambda_non_laminar(Rel, d, k), lh = Isothermaleulerequation::lambda_non_laminar(Reh, d, k);
      sx_eq(sx_limit(ll, "q", q0), sx_limit(lh, "q2", q0), "friction coefficient continuous at the turbulent border");
      double dll = Isothermaleulerequation::dlambda_non_laminar_dRe(Rel, d, k), dlh = Isothermaleulerequation::dlambda_non_laminar_dRe(Reh, d, k);
      sx_eq(4000 * sx_limit(dll, "q", q0), 4000 * sx_limit(dlh, "q2", q0), "slope of the friction coefficient continuous at the turbulent border");
    } else {
      double lh = Isothermaleulerequation::lambda_non_laminar(Reh, d, k);
      double dlh = Isothermaleulerequation::dlambda_non_laminar_dRe(Reh, d, k);
      sx_eq(sx_limit(lh, "q2", q0), 64.0 / 2000, "friction coefficient continuous at the laminar border");
      sx_eq(2000 * sx_limit(dlh, "q2", q0), -64.0 / 2000, "slope of the friction coefficient continuous at the laminar border");
    }
    double w = 2 * A * d / rho0 * rho / q0 / q0; // normalises the source to the friction coefficient
    sx_eq(w * sx_limit(sl, "q", q0), w * sx_limit(sh, "q2", q0), "friction continuous");
    sx_eq(w * rho * sx_limit(dl(1, 0), "q", q0), w * rho * sx_limit(dh(1, 0), "q2", q0), "d friction / d density continuous");
    sx_eq(w * q0 * sx_limit(dl(1, 1), "q", q0), w * q0 * sx_limit(dh(1, 1), "q2", q0), "d friction / d flow continuous");
    sx_reach(part == 2 ? "seam laminar" : "seam turbulent");
  } else if (part == 4) { // friction opposes the flow
    double Re = d / (A * eta) * rho0 * (q < 0 ? -q : q);
    sx_assume(Re < 2000 || Re > 4000);
    double g = law.source(s)[1];
    if (q > 0) sx_lt(g, 0, "friction opposes positive flow");
    if (q < 0) sx_lt(0, g, "friction opposes negative flow");
    if (q == 0) sx_eq(g, 0, "no friction without flow");
    sx_reach("opposes");
  } else if (part == 5) { // pressure and density
    double rho2 = sx_double("rho2", 0.01, 300);
    double p = law.p(rho);
    sx_eq(law.rho(p), rho, "rho(p(rho)) = rho");
    sx_eq(law.dp_drho(rho), sx_d(p, "rho"), "dp/drho");
    sx_eq(p, c2 * rho / (1 - alpha * c2 * rho), "pressure law");
    sx_lt(0, p, "pressure positive");
    if (rho < rho2) sx_lt(law.p(rho), law.p(rho2), "pressure strictly increasing");
    auto pq = law.p_qvol(s);
    auto dpq = law.dp_qvol_dstate(s);
    sx_eq(pq[0], p, "p_qvol pressure");
    sx_eq(pq[1], q, "p_qvol flow");
    for (int i = 0; i < 2; ++i) { sx_eq(dpq(i, 0), sx_d(pq[i], "rho"), S("dp_qvol_drho ", i)); sx_eq(dpq(i, 1), sx_d(pq[i], "q"), S("dp_qvol_dq ", i)); }
    auto back = law.state(pq);
    sx_eq(back[0], rho, "state from p_qvol: density");
    sx_eq(back[1], q, "state from p_qvol: flow");
    sx_reach("pressure");
  } else { // bar and Pa
    double p = sx_double("p", 1, 1e7);
    sx_eq(law.p_pascal_from_p_bar(p), 1e5 * p, "bar to Pa");
    sx_eq(law.p_bar_from_p_pascal(p), p / 1e5, "Pa to bar");
    sx_eq(law.p_bar_from_p_pascal(law.p_pascal_from_p_bar(p)), p, "bar/Pa inverse");
    sx_eq(law.dp_bar_from_p_pascal_dp_pascal(p), sx_d(law.p_bar_from_p_pascal(p), "p"), "derivative of Pa to bar");
    Eigen::Vector2d v(p, q);
    auto a = law.p_qvol_bar_from_p_qvol(v);
    auto b = law.p_qvol_from_p_qvol_bar(a);
    sx_eq(a[0], p / 1e5, "vector to bar"); sx_eq(a[1], q, "vector flow unchanged");
    sx_eq(b[0], p, "vector back"); sx_eq(b[1], q, "vector flow back");
    auto m = law.dp_qvol_bar_from_p_qvold_p_qvol(v);
    for (int i = 0; i < 2; ++i) { sx_eq(m(i, 0), sx_d(a[i], "p"), S("dbar_dp ", i)); sx_eq(m(i, 1), sx_d(a[i], "q"), S("dbar_dq ", i)); }
    double pp = sx_double("pp", 1, 2e7);
    sx_eq(law.p(law.rho(pp)), pp, "p(rho(p)) = p");
    sx_reach("bar");
  }
  sx_reach("end");
}
