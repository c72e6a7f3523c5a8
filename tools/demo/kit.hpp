// Small helpers for the demonstrations: networks from JSON, numerical derivatives.
#pragma once
#include "Componentfactory.hpp"
#include "Edge.hpp"
#include "Full_factory.hpp"
#include "Matrixhandler.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Node.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
using nlohmann::json;
using Eigen::MatrixXd;
using Eigen::VectorXd;
static int failures = 0;
inline void check(bool ok, std::string const &what) {
  if (!ok) { ++failures; std::cout << "FAILED: " << what << std::endl; }
}
inline bool near(double a, double b, double rel = 1e-6, double abs = 1e-9) { return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
inline void same(double a, double b, std::string const &what, double rel = 1e-6, double abs = 1e-9) {
  if (!near(a, b, rel, abs)) { ++failures; std::cout << "FAILED: " << what << ": " << a << " instead of " << b << std::endl; }
}
template <class F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
struct Kit {
  json top = {{"nodes", json::object()}, {"connections", json::object()}};
  json bnd = {{"nodes", json::object()}, {"connections", json::object()}};
  std::unique_ptr<Model::Networkproblem> problem;
  Eigen::Index ns = 0, nc = 0, nk = 0;
  Kit &node(std::string type, std::string id, json extra = json::object()) { extra["id"] = id; top["nodes"][type].push_back(extra); return *this; }
  Kit &bound(std::string type, std::string id, json data) { bnd["nodes"][type].push_back({{"id", id}, {"data", data}}); return *this; }
  Kit &edge(std::string type, std::string id, std::string from, std::string to, json extra = json::object()) {
    extra["id"] = id; extra["from"] = from; extra["to"] = to; top["connections"][type].push_back(extra); return *this;
  }
  Kit &pipe(std::string id, std::string from, std::string to, double length, double dx, double diameter, double roughness) {
    return edge("Pipe", id, from, to, {{"length", {{"value", length}, {"unit", "m"}}}, {"diameter", {{"value", diameter}, {"unit", "m"}}}, {"roughness", {{"value", roughness}, {"unit", "m"}}},
      {"desired_delta_x", dx}, {"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}});
  }
  Kit &line(std::string id, std::string from, std::string to, double G, double B) { return edge("Transmissionline", id, from, to, {{"G", G}, {"B", B}}); }
  static json datum(double t, std::vector<double> v) { return {{"time", t}, {"values", v}}; }
  static json constant(std::vector<double> v) { return json::array({datum(0, v), datum(1000000, v)}); }
  std::unique_ptr<Network::Net> net() {
    Model::Componentfactory::Full_factory factory(json::object());
    json full = {{"topology_json", top}, {"boundary_json", bnd}};
    return Model::build_net(full, factory);
  }
  Kit &build() {
    problem = std::make_unique<Model::Networkproblem>(net());
    problem->init();
    ns = problem->get_number_of_states(); nc = problem->get_number_of_controls_per_timepoint(); nk = problem->get_number_of_constraints_per_timepoint();
    return *this;
  }
};
template <class F> MatrixXd assemble(Eigen::Index r, Eigen::Index c, F f) {
  Eigen::SparseMatrix<double> m(r, c);
  Aux::Triplethandler<> h(m);
  f(h);
  h.set_matrix();
  return MatrixXd(m);
}
// central differences
inline MatrixXd numerical(std::function<VectorXd(VectorXd const &)> f, VectorXd const &x, double h = 1e-5) {
  VectorXd y = f(x);
  MatrixXd J(y.size(), x.size());
  for (Eigen::Index j = 0; j < x.size(); ++j) {
    VectorXd a = x, b = x;
    double s = h * std::max(1.0, std::fabs(x[j]));
    a[j] -= s; b[j] += s;
    J.col(j) = (f(b) - f(a)) / (2 * s);
  }
  return J;
}
inline void compare(MatrixXd const &A, MatrixXd const &B, std::string const &what, double rel = 1e-4) {
  double scale = std::max(1e-300, B.cwiseAbs().maxCoeff());
  for (Eigen::Index i = 0; i < A.rows(); ++i)
    for (Eigen::Index j = 0; j < A.cols(); ++j)
      if (!(std::fabs(A(i, j) - B(i, j)) <= rel * std::max(std::fabs(B(i, j)), 1e-4 * scale))) {
        ++failures;
        std::cout << "FAILED: " << what << " (" << i << "," << j << "): " << A(i, j) << " instead of " << B(i, j) << std::endl;
      }
}
inline int done() { std::cout << (failures ? "broken" : "ok") << std::endl; return failures != 0; }
