// A network in which every component type of the factory occurs, with optional parts, in a chosen declaration order.
#pragma once
#include <vector>
#include "netkit.hpp"
struct Zoo : Kit {
  struct Part { bool gas = true, power = true, stochastic = false, plant = true; int pipes = 1, cells = 2, compressors = 1, valves = 1, constraints = 1; };
  Part part;
  std::vector<std::string> nodes, edges, controls, constraints; // ids
  std::vector<int> cells; // per pipe
  static json bv(std::vector<double> v) { return json::array({datum(0, v), datum(100, v)}); }
  void n(std::string type, std::string id, json extra = json::object()) { node(type, id, extra); nodes.push_back(id); }
  void e(std::string type, std::string id, std::string from, std::string to, json extra = json::object()) { edge(type, id, from, to, extra); edges.push_back(id); }
  // b(name) supplies a boundary value
  template <class B> Zoo &make(Part p, B b) {
    part = p;
    auto gb = [&](std::string i, double x) { return json{{"G", b("G" + i, 1 + x)}, {"B", b("B" + i, -2 - x)}}; };
    if (p.gas) {
      n("Source", "src"); bound("Source", "src", bv({b("src", 30)}));
      n("Innode", "in1"); n("Innode", "in0");
      n("Sink", "snk"); bound("Sink", "snk", bv({b("snk", 20)}));
      n("Pressureboundarynode", "prs"); bound("Pressureboundarynode", "prs", bv({b("prs", 60)}));
      e("Shortpipe", "sp", "src", "in1");
      e("Shortpipe", "sq", "in0", "snk");
      std::string names[5] = {"pm", "pa", "pz", "pc", "pk"};
      for (int i = 0; i < p.pipes; ++i) {
        pipe(names[i], i % 2 ? "in0" : "in1", i % 2 ? "in1" : "in0", (p.cells + i) * 1000.0, 1000, 0.5, 1e-5);
        edges.push_back(names[i]); cells.push_back(p.cells + i);
      }
      std::string cn[5] = {"cm", "ca", "cz", "cc", "ck"};
      for (int i = 0; i < p.compressors; ++i) { e("Compressorstation", cn[i], i % 2 ? "in0" : "prs", i % 2 ? "prs" : "in1"); controls.push_back(cn[i]); }
      std::string vn[5] = {"vm", "va", "vz", "vc", "vk"};
      for (int i = 0; i < p.valves; ++i) { e("Controlvalve", vn[i], "in1", "in0"); controls.push_back(vn[i]); }
      if (!p.pipes && !p.valves) e("Shortpipe", "sr", "in1", "in0");
      std::string kn[6] = {"km", "ka", "kz", "kc", "kk", "kb"};
      for (int i = 0; i < p.constraints; ++i) {
        n("ConstraintSink", kn[i]); bound("ConstraintSink", kn[i], bv({b(kn[i], 5)})); constraints.push_back(kn[i]);
        e("Shortpipe", "s" + kn[i], i % 2 ? kn[i] : "in0", i % 2 ? "in1" : kn[i]);
      }
    }
    if (p.power) {
      n("Vphinode", "v", gb("v", 0)); bound("Vphinode", "v", bv({b("v0", 1), b("v1", 0.25)}));
      n("PQnode", "w", gb("w", 1)); bound("PQnode", "w", bv({b("w0", -2), b("w1", -3)}));
      n("PVnode", "u", gb("u", 2)); bound("PVnode", "u", bv({b("u0", 2), b("u1", 1)}));
      line("lb", "w", "v", 0.5, 3); edges.push_back("lb");
      line("la", "w", "u", 0.25, 2); edges.push_back("la");
      if (p.stochastic) {
        json j = gb("st", 3);
        j.update({{"stability_parameter", 0.5}, {"cut_off_factor", 0.3}, {"sigma_P", 0.4}, {"theta_P", 3.0}, {"sigma_Q", 0.5}, {"theta_Q", 2.0}, {"number_of_stochastic_steps", 2}});
        n("StochasticPQnode", "st", j);
        bound("StochasticPQnode", "st", bv({-2, -3}));
        bnd["nodes"]["StochasticPQnode"].back()["seed"] = std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8};
        line("lc", "u", "st", 0.75, 1); edges.push_back("lc");
      }
      if (p.gas && p.plant) {
        n("ExternalPowerplant", "ep", gb("ep", 4)); bound("ExternalPowerplant", "ep", bv({b("e0", 1), b("e1", 0.125)}));
        line("ld", "ep", "v", 1, 1.5); edges.push_back("ld");
        e("Gaspowerconnection", "gp", "in1", "ep", {{"gas2power_q_coeff", 2.0}, {"power2gas_q_coeff", 3.0}});
      }
    }
    return *this;
  }
  static Part parts() { // symbolic choice of the parts
    Part p;
    int kind = sx_int("kind", 0, 3);
    if (kind == 3) { // one large network
      p.pipes = 4; p.cells = sx_param("largecells", 3); p.compressors = 4; p.valves = 4; p.constraints = 5; p.plant = true;
      return p;
    }
    p.gas = kind != 1; p.power = kind != 0;
    p.pipes = p.gas ? sx_int("pipes", 0, sx_param("pipes", 2)) : 0;
    p.cells = p.pipes ? sx_int("cells", 1, sx_param("cells", 2)) : 1;
    p.compressors = p.gas ? sx_int("compressors", 0, 2) : 0;
    p.valves = p.gas ? sx_int("valves", 0, 1) : 0;
    p.constraints = p.gas ? sx_int("constraints", 0, 2) : 0;
    p.plant = kind == 2 && sx_bool("plant");
    return p;
  }
  // order 0: as declared; 1: every list reversed; 2: rotated by one
  static void reorder(json &j, int order) {
    for (auto const &c : {"nodes", "connections"})
      for (auto &list : j[c]) {
        if (order == 1) std::reverse(list.begin(), list.end());
        if (order == 2 && list.size() > 1) std::rotate(list.begin(), list.begin() + 1, list.end());
      }
  }
  template <class T> T const *any(std::string const &id) {
    for (auto *x : problem->get_network().get_nodes()) if (x->get_id() == id) return dynamic_cast<T const *>(x);
    for (auto *x : problem->get_network().get_edges()) if (x->get_id() == id) return dynamic_cast<T const *>(x);
    return nullptr;
  }
};
