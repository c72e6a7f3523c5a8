// C01: Jacobians of the gas components.
#include "netkit.hpp"
static json bv(std::vector<double> v) { return json::array({Kit::datum(0, v), Kit::datum(100, v)}); }
void harness() {
  int part = sx_int("part", 0, 2);
  double t0 = sx_double("t0", 0, 10), dt = sx_double("dt", 0.5, 50), t1 = t0 + dt;
  double b0 = sx_double("b0", -100, 100), b1 = sx_double("b1", 1, 100), b2 = sx_double("b2", -100, 100);
  Kit k;
  if (part == 0) { // one cell, all flow regimes and directions
    double d = sx_double("d", 0.1, 1.5), r = sx_double("r", 1e-6, 1e-4), len = sx_double("len", 100, 9000);
    k.node("Source", "A").bound("Source", "A", bv({b0}));
    k.node("Pressureboundarynode", "B").bound("Pressureboundarynode", "B", bv({b1}));
    k.pipe("p", "A", "B", len, 10000, d, r).build();
    VectorXd l = states("l", k.ns, 0.1, 200, -1000, 1000), n = states("n", k.ns, 0.1, 200, -1000, 1000), u(0);
    sx_assert(k.ns == 4, "one cell");
    jacobians(k, t0, t1, l, n, u);
    sx_reach("regimes");
  } else if (part == 1) { // several cells
    int cells = sx_int("cells", 2, sx_param("cells", 3));
    k.node("Sink", "A").bound("Sink", "A", bv({b0}));
    k.node("Pressureboundarynode", "B").bound("Pressureboundarynode", "B", bv({b1}));
    bool flip = sx_bool("flip");
    k.pipe("p", flip ? "B" : "A", flip ? "A" : "B", cells * 1000.0, 1000, 0.5, 1e-5).build();
    bool back = sx_bool("back"); // turbulent flow, one direction
    double a = back ? -500 : 10, b = back ? -10 : 500;
    VectorXd l = states("l", k.ns, 0.1, 200, -500, 500), n = states("n", k.ns, 0.1, 200, a, b), u(0);
    sx_assert(k.ns == 2 * (cells + 1), "number of states");
    jacobians(k, t0, t1, l, n, u);
    sx_reach("cells");
  } else { // a node with several edges of different kinds
    int type = sx_int("type", 0, 4);
    std::string names[5] = {"Innode", "Source", "Sink", "ConstraintSink", "Pressureboundarynode"};
    int edges = sx_int("edges", 1, sx_param("edges", 4));
    int dirs = sx_int("dirs", 0, (1 << edges) - 1);
    bool pipefirst = sx_bool("pipe");
    k.node(names[type], "M");
    if (type) k.bound(names[type], "M", bv({b0}));
    for (int i = 0; i < edges; ++i) {
      std::string o = S("E", i);
      k.node(i % 2 ? "Pressureboundarynode" : "Source", o).bound(i % 2 ? "Pressureboundarynode" : "Source", o, bv({i % 2 ? b1 : b2}));
      bool out = dirs >> i & 1;
      std::string f = out ? "M" : o, t = out ? o : "M", id = S("e", i);
      int kind = (i + (pipefirst ? 0 : 1)) % 4;
      if (kind == 0) k.pipe(id, f, t, 1000, 1000, 0.5, 1e-5);
      else if (kind == 1) k.edge("Compressorstation", id, f, t);
      else if (kind == 2) k.edge("Shortpipe", id, f, t);
      else k.edge("Controlvalve", id, f, t);
    }
    k.build();
    VectorXd l = states("l", k.ns, 0.1, 200, 10, 500), n = states("n", k.ns, 0.1, 200, 10, 500), u = vec("u", k.nc, -50, 50);
    jacobians(k, t0, t1, l, n, u);
    // costs
    double wc = sx_double("wc", 0, 10), wp = sx_double("wp", 0, 10);
    (void)wc; (void)wp;
    VectorXd c(1), p(1);
    c[0] = k.problem->evaluate_cost(t1, n, u);
    p[0] = k.problem->evaluate_penalty(t1, n, u);
    if (k.nc) derivatives(assemble(1, k.nc, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_cost_d_control(h, t1, n, u); }), c, "u", "d cost / d control");
    if (k.nc) derivatives(assemble(1, k.nc, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_penalty_d_control(h, t1, n, u); }), p, "u", "d penalty / d control");
    derivatives(assemble(1, k.ns, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_cost_d_state(h, t1, n, u); }), c, "n", "d cost / d state");
    derivatives(assemble(1, k.ns, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_penalty_d_state(h, t1, n, u); }), p, "n", "d penalty / d state");
    sx_assert(k.nk == (type == 3 ? 1 : 0), "number of constraints");
    if (k.nk) {
      VectorXd g = VectorXd::Zero(k.nk);
      k.problem->evaluate_constraint(g, t1, n, u);
      derivatives(assemble(k.nk, k.ns, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_constraint_d_state(h, t1, n, u); }), g, "n", "d constraint / d state");
      if (k.nc) derivatives(assemble(k.nk, k.nc, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_constraint_d_control(h, t1, n, u); }), g, "u", "d constraint / d control");
      sx_reach("constraint");
    }
    sx_reach("node");
  }
  sx_reach("end");
}
