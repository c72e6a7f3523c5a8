// C05: gas edges realise their physical model.
#include <vector>
#include "Gasedge.hpp"
#include "Isothermaleulerequation.hpp"
#include "Pipe.hpp"
#include "netkit.hpp"
using Model::Gas::Gasedge;
using Model::Gas::Pipe;
static double density(double p) {
  double const c2 = 1.01325e5 * 283.15 / (1.005 * 273.15 * 0.785), alpha = 0.257 / 46.4512e5 - 0.533 * 192.033 / (46.4512e5 * 283.15);
  return p / (c2 * (1 + alpha * p));
}
static json bv(double a) { return json::array({Kit::datum(0, {a}), Kit::datum(100, {a})}); }
void harness() {
  int part = sx_int("part", 0, 3);
  Kit k;
  double t0 = sx_double("t0", 0, 20), dt = sx_double("dt", 0.5, 50), t1 = t0 + dt;
  if (part == 0) { // short components
    static char const *types[3] = {"Shortpipe", "Compressorstation", "Controlvalve"};
    int type = sx_int("type", 0, 2);
    bool second = sx_bool("second"); // another controlled edge next to it
    k.node("Source", "A").bound("Source", "A", bv(3)).node("Pressureboundarynode", "B").bound("Pressureboundarynode", "B", bv(60));
    k.edge(types[type], "e", "A", "B");
    if (second) k.edge("Compressorstation", "a", "A", "B").edge("Controlvalve", "z", "B", "A");
    k.build();
    auto *e = k.edgep<Gasedge>("e");
    auto s = e->get_state_startindex(), a = e->get_state_afterindex();
    sx_assert(a - s == 4, "four unknowns");
    VectorXd l = vec("l", k.ns, 0, 100), n = vec("n", k.ns, 0, 100), u = vec("u", k.nc, -50, 50);
    double c = 0;
    if (type) {
      auto *cc = k.edgep<Model::Controlcomponent>("e");
      sx_assert(cc->get_control_afterindex() - cc->get_control_startindex() == 1, "one control");
      c = u[cc->get_control_startindex()];
    }
    VectorXd v = n;
    v[s + 2] = v[s] + (type == 1 ? c : type == 2 ? -c : 0); // compressor raises, valve lowers the pressure
    v[s + 3] = v[s + 1];
    VectorXd r = residual(k, t0, t1, l, v, u);
    sx_eq(r[s + 1], 0, "valid state solves the pressure equation");
    sx_eq(r[s + 2], 0, "valid state solves the flow equation");
    r = residual(k, t0, t1, l, n, u);
    // sensitivities of the equations: each combination of the two is a valid description only if it can be solved back
    double slack = sx_symbolic() ? 1 : 2;
    sx_assume(r[s + 1] <= slack * 1e-6 && r[s + 1] >= -slack * 1e-6 && r[s + 2] <= slack * 1e-6 && r[s + 2] >= -slack * 1e-6);
    double dp = n[s + 2] - v[s + 2], dq = n[s + 3] - n[s + 1];
    sx_le(dp, 1e-4, "pressure relation (a)"); sx_le(-dp, 1e-4, "pressure relation (b)");
    sx_le(dq, 1e-4, "flow conserved (a)"); sx_le(-dq, 1e-4, "flow conserved (b)");
    auto ps = e->get_boundary_p_qvol_bar(Model::Gas::start, n), pe = e->get_boundary_p_qvol_bar(Model::Gas::end, n);
    sx_eq(ps[0], n[s], "pressure handed out at start"); sx_eq(ps[1], n[s + 1], "flow handed out at start");
    sx_eq(pe[0], n[s + 2], "pressure handed out at end"); sx_eq(pe[1], n[s + 3], "flow handed out at end");
    sx_reach(types[type]);
  } else if (part == 1) { // grid of the pipe
    double len = sx_double("len", 10, 5000), dx = sx_double("dx", 1, 5000);
    int maxcells = sx_param("gridcells", 6);
    sx_assume(len <= maxcells * dx);
    k.node("Source", "A").bound("Source", "A", bv(3)).node("Pressureboundarynode", "B").bound("Pressureboundarynode", "B", bv(60));
    k.pipe("e", "A", "B", len, dx, 0.5, 1e-5).build();
    auto *e = k.edgep<Pipe>("e");
    int cells = e->get_number_of_points() - 1;
    sx_assert(cells >= 1, "at least one cell");
    sx_eq(e->get_Delta_x() * cells, len, "cells fill the pipe");
    sx_le(e->get_Delta_x(), dx, "cells not longer than desired");
    if (cells > 1) sx_lt(dx * (cells - 1), len, "no more cells than needed");
    sx_assert(e->get_number_of_states() == 2 * (cells + 1), "two unknowns per point");
    if (cells > 3) sx_reach("many cells");
    sx_reach("grid");
  } else if (part == 2) { // cells satisfy the box scheme
    int cells = sx_int("cells", 1, sx_param("cells", 3));
    double dx = sx_double("dx", 100, 2000), d = sx_double("d", 0.3, 1.2), rough = 1e-5;
    bool neg = sx_bool("negative");
    k.node("Source", "A").bound("Source", "A", bv(3)).node("Pressureboundarynode", "B").bound("Pressureboundarynode", "B", bv(60));
    k.pipe("e", "A", "B", cells * dx, dx * 1.0000001, d, rough).build();
    auto *e = k.edgep<Pipe>("e");
    sx_assert(e->get_number_of_points() == cells + 1, "number of points");
    VectorXd l = states("l", k.ns, 0.1, 200, -500, 500), n = states("n", k.ns, 0.1, 200, neg ? -500 : 10, neg ? -10 : 500), u(0);
    VectorXd r = residual(k, t0, t1, l, n, u);
    auto s = e->get_state_startindex();
    Model::Balancelaw::Isothermaleulerequation const &law = e->get_balancelaw();
    for (int c = 0; c < cells; ++c) {
      Eigen::Vector2d nl = n.segment<2>(s + 2 * c), nr = n.segment<2>(s + 2 * c + 2), ll = l.segment<2>(s + 2 * c), lr = l.segment<2>(s + 2 * c + 2);
      Eigen::Vector2d fl = law.flux(nl), fr = law.flux(nr), sl = law.source(nl), sr = law.source(nr);
      for (int j = 0; j < 2; ++j)
        sx_eq(r[s + 1 + 2 * c + j], 0.5 * (nl[j] + nr[j]) - 0.5 * (ll[j] + lr[j]) - dt / dx * (fl[j] - fr[j]) - 0.5 * dt * (sl[j] + sr[j]), S("box scheme ", c, j));
    }
    sx_reach("box");
  } else { // what a pipe and the sink constraint hand out
    bool pipe = sx_bool("pipe"), out = sx_bool("out");
    int extra = sx_int("extra", 0, 1);
    k.node("ConstraintSink", "M").bound("ConstraintSink", "M", bv(3)).node("Pressureboundarynode", "B").bound("Pressureboundarynode", "B", bv(60));
    std::string f = out ? "M" : "B", t = out ? "B" : "M";
    if (pipe) k.pipe("e", f, t, 2000, 1000, 0.5, 1e-5); else k.edge("Shortpipe", "e", f, t);
    if (extra) k.edge("Compressorstation", "f", "M", "B");
    k.build();
    VectorXd n = states("n", k.ns, 0.1, 200, 10, 500), u = vec("u", k.nc, -50, 50);
    auto *e = k.edgep<Gasedge>("e");
    auto law = [](double rho) {
      double const c2 = 1.01325e5 * 283.15 / (1.005 * 273.15 * 0.785), alpha = 0.257 / 46.4512e5 - 0.533 * 192.033 / (46.4512e5 * 283.15);
      return 1e-5 * (c2 * rho / (1 - alpha * c2 * rho));
    };
    for (auto dir : {Model::Gas::start, Model::Gas::end}) {
      auto at = dir == Model::Gas::start ? e->get_state_startindex() : e->get_state_afterindex() - 2;
      auto pq = e->get_boundary_p_qvol_bar(dir, n);
      sx_eq(pq[0], pipe ? law(n[at]) : n[at], "pressure in bar handed to the node");
      sx_eq(pq[1], n[at + 1], "flow handed to the node");
    }
    // the constraint of the sink is the pressure of one of its edge ends, in bar
    VectorXd g = VectorXd::Zero(k.nk);
    sx_assert(k.nk == 1, "one constraint");
    k.problem->evaluate_constraint(g, t1, n, u);
    // at a state that solves the node equations all edge ends have the same pressure
    VectorXd s = n;
    double p = sx_double("p", 1, 150);
    auto at = out ? e->get_state_startindex() : e->get_state_afterindex() - 2;
    s[at] = pipe ? density(1e5 * p) : p;
    if (extra) s[k.edgep<Gasedge>("f")->get_state_startindex()] = p;
    k.problem->evaluate_constraint(g, t1, s, u);
    sx_eq(g[0], p, "sink constraint is the node pressure in bar");
    sx_reach(pipe ? "constraint at pipe" : "constraint at short pipe");
  }
  sx_reach("end");
}
