// C17: index ranges of all components, and independence of the residual from fill and declaration order.
#include <vector>
#include "Constraintcomponent.hpp"
#include "Controlcomponent.hpp"
#include "Costcomponent.hpp"
#include "Statecomponent.hpp"
#include "zoo.hpp"
typedef Eigen::Index I;
struct Range { I b, e; };
static void partition(std::vector<Range> r, I begin, I end, std::string what) {
  I total = 0;
  for (auto &x : r) {
    sx_assert(x.b >= begin && x.e <= end && x.b <= x.e, what + ": range within the total range");
    total += x.e - x.b;
    for (auto &y : r) sx_assert(&x == &y || x.e <= y.b || y.e <= x.b || x.b == x.e || y.b == y.e, what + ": ranges are disjoint");
  }
  sx_assert(total == end - begin, what + ": ranges cover everything");
}
template <class T, class A, class B> std::vector<Range> ranges(Zoo &z, A a, B b) {
  std::vector<Range> r;
  for (auto *x : z.problem->get_network().get_nodes()) if (auto *c = dynamic_cast<T const *>(x)) r.push_back({a(c), b(c)});
  for (auto *x : z.problem->get_network().get_edges()) if (auto *c = dynamic_cast<T const *>(x)) r.push_back({a(c), b(c)});
  return r;
}
static VectorXd eval(Zoo &z, VectorXd const &l, VectorXd const &n, VectorXd const &u, VectorXd fill) {
  z.problem->evaluate(fill, 3, 4, l, n, u);
  return fill;
}
void harness() {
  Zoo::Part p = Zoo::parts();
  I so = sx_int("stateoffset", 0, 1) * 3, co = so ? 2 : 0, ko = so ? 1 : 0;
  auto b = [](std::string name, double) { return sx_double("b_" + name, -10, 10); };
  Zoo z;
  z.make(p, b);
  json top = z.top, bnd = z.bnd;
  z.problem = std::make_unique<Model::Networkproblem>(z.net());
  z.problem->init(so, co, ko);
  I ns = z.problem->get_number_of_states(), nc = z.problem->get_number_of_controls_per_timepoint(), nk = z.problem->get_number_of_constraints_per_timepoint();
  sx_assert(z.problem->get_state_startindex() == so && z.problem->get_state_afterindex() == so + ns, "states start at the offset");
  sx_assert(z.problem->get_control_startindex() == co && z.problem->get_control_afterindex() == co + nc, "controls start at the offset");
  sx_assert(z.problem->get_constraint_startindex() == ko && z.problem->get_constraint_afterindex() == ko + nk, "constraints start at the offset");
  // what each component needs
  I want = 0;
  if (p.gas) want += 4 * (2 + p.compressors + p.valves + p.constraints + (!p.pipes && !p.valves ? 1 : 0));
  for (int c : z.cells) want += 2 * (c + 1);
  if (p.power) want += 6;
  if (p.gas && p.power && p.plant) want += 2 + 2; // power plant, gas power connection
  sx_assert(ns == want, "number of states");
  sx_assert(nc == p.compressors + p.valves, "number of controls");
  sx_assert(nk == p.constraints, "number of constraints");
  partition(ranges<Model::Statecomponent>(z, [](auto *c) { return c->get_state_startindex(); }, [](auto *c) { return c->get_state_afterindex(); }), so, so + ns, "states");
  partition(ranges<Model::Controlcomponent>(z, [](auto *c) { return c->get_control_startindex(); }, [](auto *c) { return c->get_control_afterindex(); }), co, co + nc, "controls");
  partition(ranges<Model::Constraintcomponent>(z, [](auto *c) { return c->get_constraint_startindex(); }, [](auto *c) { return c->get_constraint_afterindex(); }), ko, ko + nk, "constraints");
  // residual: independent of the previous content, nothing outside the own rows
  I rows = so + ns + 2, cols = co + nc + 1;
  VectorXd n(rows), l(rows), u(cols), f(rows), g(rows);
  for (I i = 0; i < rows; ++i) {
    n[i] = (i - so) % 2 ? sx_double(S("n", i), 10, 500) : sx_double(S("n", i), 20, 100);
    l[i] = (i - so) % 2 ? sx_double(S("l", i), 10, 500) : sx_double(S("l", i), 20, 100);
    f[i] = sx_double(S("f", i), -1000, 1000);
    g[i] = sx_double(S("g", i), -1000, 1000);
  }
  for (I i = 0; i < cols; ++i) u[i] = sx_double(S("u", i), -50, 50);
  VectorXd r = eval(z, l, n, u, f), r2 = eval(z, l, n, u, g);
  for (I i = 0; i < rows; ++i)
    if (i >= so && i < so + ns) sx_eq(r[i], r2[i], S("residual row does not depend on the previous content ", i));
    else sx_eq(r[i], f[i], S("row outside the network is left alone ", i));
  VectorXd c = VectorXd::Zero(ko + nk + 1), c2 = c;
  for (I i = 0; i < c.size(); ++i) { c[i] = f[i]; c2[i] = g[i]; }
  z.problem->evaluate_constraint(c, 4, n, u);
  z.problem->evaluate_constraint(c2, 4, n, u);
  for (I i = 0; i < c.size(); ++i)
    if (i >= ko && i < ko + nk) sx_eq(c[i], c2[i], "constraint row does not depend on the previous content");
    else sx_eq(c[i], f[i], "constraint row outside the network is left alone");
  double cost = 0, penalty = 0;
  for (auto *x : z.problem->get_network().get_edges())
    if (auto *q = dynamic_cast<Model::Costcomponent const *>(x)) { cost += q->evaluate_cost(4, n, u); penalty += q->evaluate_penalty(4, n, u); }
  sx_eq(z.problem->evaluate_cost(4, n, u), z.problem->get_cost_weight() * cost, "the cost is the sum over the components");
  sx_eq(z.problem->evaluate_penalty(4, n, u), z.problem->get_penalty_weight() * penalty, "the penalty is the sum over the components");
  // Jacobian entries lie in the rows and columns of the network
  MatrixXd J = assemble(rows, rows, [&](Aux::Matrixhandler &h) { z.problem->d_evaluate_d_new_state(h, 3, 4, l, n, u); });
  for (I i = 0; i < rows; ++i)
    for (I j = 0; j < rows; ++j)
      if (i < so || j < so || i >= so + ns || j >= so + ns) sx_eq(J(i, j), 0, "no Jacobian entry outside the network");
  if (so) sx_reach("offset");
  // other declaration order
  int order = sx_int("order", 1, 2);
  Zoo y;
  y.top = top; y.bnd = bnd;
  Zoo::reorder(y.top, order);
  if (sx_bool("boundarytoo")) Zoo::reorder(y.bnd, order);
  y.problem = std::make_unique<Model::Networkproblem>(y.net());
  y.problem->init(so, co, ko);
  sx_assert(y.problem->get_number_of_states() == ns && y.problem->get_number_of_controls_per_timepoint() == nc && y.problem->get_number_of_constraints_per_timepoint() == nk, "totals do not depend on the order");
  VectorXd yn = n, yl = l, yu = u;
  std::vector<I> map(rows);
  for (I i = 0; i < rows; ++i) map[i] = i;
  auto permute = [&](std::string id) {
    if (auto *a = z.any<Model::Statecomponent>(id)) {
      auto *d = y.any<Model::Statecomponent>(id);
      sx_assert(d && d->get_state_afterindex() - d->get_state_startindex() == a->get_state_afterindex() - a->get_state_startindex(), "same component");
      for (I i = a->get_state_startindex(); i < a->get_state_afterindex(); ++i) {
        I o = i - a->get_state_startindex() + d->get_state_startindex();
        map[i] = o; yn[o] = n[i]; yl[o] = l[i];
      }
    }
    if (auto *a = z.any<Model::Controlcomponent>(id)) yu[y.any<Model::Controlcomponent>(id)->get_control_startindex()] = u[a->get_control_startindex()];
  };
  for (auto &id : z.nodes) permute(id);
  for (auto &id : z.edges) permute(id);
  VectorXd ry = eval(y, yl, yn, yu, f);
  for (I i = so; i < so + ns; ++i) sx_eq(ry[map[i]], r[i], "residual does not depend on the declaration order");
  MatrixXd K = assemble(rows, rows, [&](Aux::Matrixhandler &h) { y.problem->d_evaluate_d_new_state(h, 3, 4, yl, yn, yu); });
  for (I i = so; i < so + ns; ++i)
    for (I j = so; j < so + ns; ++j) sx_eq(K(map[i], map[j]), J(i, j), "Jacobian does not depend on the declaration order");
  sx_reach(p.gas && p.power ? "mixed" : p.gas ? "gas" : "power");
  if (p.plant) sx_reach("plant");
  if (p.constraints > 2) sx_reach("large");
  sx_reach("end");
}
