// An optimizable problem whose functions are supplied by the harness.  The class name is the one the sources befriend for tests.
#pragma once
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "OptimizableObject.hpp"
#include "common.hpp"
#include <functional>
#include <memory>
using Eigen::VectorXd;
using Eigen::MatrixXd;
using nlohmann::json;
typedef Eigen::Ref<VectorXd const> const &In;
class Mock_OptimizableObject : public Model::OptimizableObject {
public:
  typedef std::function<void(Eigen::Ref<VectorXd>, double, double, In, In, In)> Eq;
  typedef std::function<void(Aux::Matrixhandler &, double, double, In, In, In)> DEq;
  typedef std::function<void(Eigen::Ref<VectorXd>, double, In, In)> Con;
  typedef std::function<double(double, In, In)> Cost;
  typedef std::function<void(Aux::Matrixhandler &, double, In, In)> D;
  Eq e; DEq en, el, ec;
  std::function<void(double, double, In, In)> prepare;
  Con g; D gs, gc;
  Cost f, p; D fs, fc, ps, pc;
  Mock_OptimizableObject(Eigen::Index ns, Eigen::Index nc, Eigen::Index nk) {
    state_startindex = 0; state_afterindex = ns;
    control_startindex = 0; control_afterindex = nc;
    constraint_startindex = 0; constraint_afterindex = nk;
  }
  void setup() override {}
  void evaluate(Eigen::Ref<VectorXd> r, double lt, double nt, In l, In n, In u) const override { e(r, lt, nt, l, n, u); }
  void prepare_timestep(double lt, double nt, In l, In u) override { if (prepare) prepare(lt, nt, l, u); }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double lt, double nt, In l, In n, In u) const override { if (en) en(h, lt, nt, l, n, u); }
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double lt, double nt, In l, In n, In u) const override { if (el) el(h, lt, nt, l, n, u); }
  void d_evaluate_d_control(Aux::Matrixhandler &h, double lt, double nt, In l, In n, In u) const override { if (ec) ec(h, lt, nt, l, n, u); }
  Eigen::Index set_control_indices(Eigen::Index i) override { return i; }
  Eigen::Index set_state_indices(Eigen::Index i) override { return i; }
  Eigen::Index set_constraint_indices(Eigen::Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &v, json const &j) const override { if (controls) controls(v, j); }
  void set_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, json &) const override {}
  std::string componentclass() const override { return "toy"; }
  std::string componenttype() const override { return "toy"; }
  std::string id() const override { return "toy"; }
  void add_results_to_json(json &) override {}
  void json_save(double, In) override {}
  void set_initial_values(Eigen::Ref<VectorXd>, json const &) const override {}
  void evaluate_constraint(Eigen::Ref<VectorXd> v, double t, In s, In u) const override { if (g) g(v, t, s, u); }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &h, double t, In s, In u) const override { if (gs) gs(h, t, s, u); }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &h, double t, In s, In u) const override { if (gc) gc(h, t, s, u); }
  double evaluate_cost(double t, In s, In u) const override { return f ? f(t, s, u) : 0; }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &h, double t, In s, In u) const override { if (fs) fs(h, t, s, u); }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &h, double t, In s, In u) const override { if (fc) fc(h, t, s, u); }
  double evaluate_penalty(double t, In s, In u) const override { return p ? p(t, s, u) : 0; }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &h, double t, In s, In u) const override { if (ps) ps(h, t, s, u); }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &h, double t, In s, In u) const override { if (pc) pc(h, t, s, u); }
  std::function<void(Aux::InterpolatingVector_Base &, json const &)> controls;
};
typedef Mock_OptimizableObject Toy;
