// Builds networks from JSON through the real factories, with symbolic parameters, and compares Jacobians with derivatives.
#pragma once
#include "Componentfactory.hpp"
#include "Edge.hpp"
#include "Full_factory.hpp"
#include "Matrixhandler.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Node.hpp"
#include "common.hpp"
#include <memory>
using nlohmann::json;
using Eigen::VectorXd;
using Eigen::MatrixXd;
struct Kit {
  json top = {{"nodes", json::object()}, {"connections", json::object()}};
  json bnd = {{"nodes", json::object()}, {"connections", json::object()}};
  std::unique_ptr<Model::Networkproblem> problem;
  Eigen::Index ns = 0, nc = 0, nk = 0;
  Kit &node(std::string type, std::string id, json extra = json::object()) {
    extra["id"] = id;
    top["nodes"][type].push_back(extra);
    return *this;
  }
  // boundary values at the given times
  Kit &bound(std::string type, std::string id, json data) {
    bnd["nodes"][type].push_back({{"id", id}, {"data", data}});
    return *this;
  }
  Kit &edge(std::string type, std::string id, std::string from, std::string to, json extra = json::object()) {
    extra["id"] = id; extra["from"] = from; extra["to"] = to;
    top["connections"][type].push_back(extra);
    return *this;
  }
  Kit &pipe(std::string id, std::string from, std::string to, double length, double dx, double diameter, double roughness) {
    return edge("Pipe", id, from, to, {{"length", val(length)}, {"diameter", val(diameter)}, {"roughness", val(roughness)},
      {"desired_delta_x", dx}, {"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}});
  }
  Kit &line(std::string id, std::string from, std::string to, double G, double B) {
    return edge("Transmissionline", id, from, to, {{"G", G}, {"B", B}});
  }
  static json datum(double t, std::vector<double> v) { return {{"time", t}, {"values", v}}; }
  std::unique_ptr<Network::Net> net() {
    Model::Componentfactory::Full_factory factory(json::object());
    json full = {{"topology_json", top}, {"boundary_json", bnd}};
    return Model::build_net(full, factory);
  }
  Kit &build() {
    problem = std::make_unique<Model::Networkproblem>(net());
    problem->init();
    ns = problem->get_number_of_states();
    nc = problem->get_number_of_controls_per_timepoint();
    nk = problem->get_number_of_constraints_per_timepoint();
    return *this;
  }
  template <class T> T *nodep(std::string id) { return dynamic_cast<T *>(problem->get_network().get_node_by_id(id)); }
  template <class T> T *edgep(std::string id) { return dynamic_cast<T *>(problem->get_network().get_edge_by_id(id)); }
};
// every state comes in pairs: gas (pressure or density, flow), power (voltage, angle)
inline VectorXd states(std::string name, Eigen::Index n, double lo0, double hi0, double lo1, double hi1) {
  VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i) v[i] = i % 2 ? sx_double(S(name, i), lo1, hi1) : sx_double(S(name, i), lo0, hi0);
  return v;
}
inline VectorXd vec(std::string name, Eigen::Index n, double lo, double hi) {
  VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i) v[i] = sx_double(S(name, i), lo, hi);
  return v;
}
template <class F> MatrixXd assemble(Eigen::Index r, Eigen::Index c, F f) {
  Eigen::SparseMatrix<double> m(r, c);
  Aux::Triplethandler<> h(m);
  f(h);
  h.set_matrix();
  MatrixXd d = MatrixXd::Zero(r, c);
  for (Eigen::Index k = 0; k < m.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) d(it.row(), it.col()) += it.value();
  return d;
}
// every entry of J is the derivative of y with respect to the inputs called name0, name1, ...
inline void derivatives(MatrixXd const &J, VectorXd const &y, std::string name, std::string what) {
  for (Eigen::Index i = 0; i < J.rows(); ++i)
    for (Eigen::Index j = 0; j < J.cols(); ++j) sx_eq(J(i, j), sx_d(y[i], S(name, j)), S(what + " ", i, j));
}
// residual and all three Jacobians of a problem at symbolic states "n", "l" and controls "u"
inline VectorXd residual(Kit &k, double t0, double t1, VectorXd const &l, VectorXd const &n, VectorXd const &u, double fill = 0) {
  VectorXd root = VectorXd::Constant(k.ns, fill);
  k.problem->evaluate(root, t0, t1, l, n, u);
  return root;
}
inline void jacobians(Kit &k, double t0, double t1, VectorXd const &l, VectorXd const &n, VectorXd const &u) {
  VectorXd root = residual(k, t0, t1, l, n, u);
  derivatives(assemble(k.ns, k.ns, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_d_new_state(h, t0, t1, l, n, u); }), root, "n", "d residual / d new state");
  derivatives(assemble(k.ns, k.ns, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_d_last_state(h, t0, t1, l, n, u); }), root, "l", "d residual / d last state");
  if (k.nc) derivatives(assemble(k.ns, k.nc, [&](Aux::Matrixhandler &h) { k.problem->d_evaluate_d_control(h, t0, t1, l, n, u); }), root, "u", "d residual / d control");
}
