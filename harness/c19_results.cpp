// C19: the written results are the states handed in, per component and time.
#include <vector>
#include <map>
#include "Isothermaleulerequation.hpp"
#include "Pipe.hpp"
#include "Statecomponent.hpp"
#include "zoo.hpp"
typedef Eigen::Index I;
static double num(json const &j) { return j.is_number() ? j.get<double>() : (sx_fail("a saved value is a number"), 0.0); }
static std::string typeof_(Zoo &z, std::string const &cls, std::string const &id) {
  for (auto &item : z.top[cls].items()) for (auto &c : item.value()) if (c["id"] == id) return item.key();
  return "";
}
void harness() {
  Zoo::Part p;
  int kind = sx_int("kind", 0, 2), times = sx_int("times", 1, sx_param("times", 3));
  p.gas = kind != 1; p.power = kind != 0;
  p.plant = p.gas && p.power; p.stochastic = p.power;
  p.pipes = p.gas ? sx_int("pipes", 1, sx_param("pipes", 2)) : 0;
  p.cells = p.gas ? sx_int("cells", 1, sx_param("cells", 2)) : 1;
  p.compressors = p.gas ? sx_int("compressors", 1, 2) : 0;
  Zoo z;
  z.make(p, [](std::string, double d) { return d; });
  // times and power states, the boundary values are the power flow of these states
  std::vector<double> t(times);
  t[0] = sx_double("t0", -10, 10);
  for (int k = 1; k < times; ++k) t[k] = t[k - 1] + sx_double(S("dt", k), 0.5, 10);
  struct Line { std::string a, b; double G, B; };
  std::vector<Line> lines = {{"w", "v", 0.5, 3}, {"w", "u", 0.25, 2}, {"u", "st", 0.75, 1}};
  std::vector<std::string> pn = {"v", "w", "u", "st"};
  if (p.plant) { lines.push_back({"ep", "v", 1, 1.5}); pn.push_back("ep"); }
  std::map<std::string, std::vector<double>> V, phi, P, Q;
  if (p.power) {
    for (auto &i : pn) for (int k = 0; k < times; ++k) {
      V[i].push_back(sx_double(S("V" + i, k), 0.5, 2));
      phi[i].push_back(sx_double(S("phi" + i, k), -1, 1));
    }
    for (auto &i : pn) {
      json node;
      for (auto &list : z.top["nodes"]) for (auto &c : list) if (c["id"] == i) node = c;
      for (int k = 0; k < times; ++k) {
        double G = node["G"], B = node["B"], a = V[i][k], x = G * a * a, y = -B * a * a;
        for (auto &l : lines) {
          if (l.a != i && l.b != i) continue;
          std::string o = l.a == i ? l.b : l.a;
          double d = phi[i][k] - phi[o][k], f = a * V[o][k];
          x += f * (l.G * std::cos(d) + l.B * std::sin(d));
          y += f * (l.G * std::sin(d) - l.B * std::cos(d));
        }
        P[i].push_back(x); Q[i].push_back(y);
      }
      std::string type = typeof_(z, "nodes", i);
      for (auto &c : z.bnd["nodes"][type])
        if (c["id"] == i && times > 1) {
          c["data"] = json::array();
          for (int k = 0; k < times; ++k)
            c["data"].push_back(Kit::datum(t[k], type == "PVnode" ? std::vector<double>{P[i][k], V[i][k]} : type == "Vphinode" || type == "ExternalPowerplant" ? std::vector<double>{V[i][k], phi[i][k]} : type == "StochasticPQnode" ? std::vector<double>{-2.0 - k, -3.0} : std::vector<double>{P[i][k], Q[i][k]}));
        } else if (c["id"] == i) {
          std::vector<double> v = type == "PVnode" ? std::vector<double>{P[i][0], V[i][0]} : type == "PQnode" ? std::vector<double>{P[i][0], Q[i][0]} : std::vector<double>{-2, -3};
          c["data"] = json::array({Kit::datum(t[0], v), Kit::datum(t[0] + 1, v)});
        }
    }
  }
  z.build();
  std::vector<VectorXd> s(times);
  for (int k = 0; k < times; ++k) {
    s[k] = VectorXd(z.ns);
    for (I i = 0; i < z.ns; ++i) s[k][i] = sx_double(S("s", k, i), i % 2 ? -500 : 20, i % 2 ? 500 : 100);
    if (p.power) for (auto &i : pn) {
      I j = z.any<Model::Statecomponent>(i)->get_state_startindex();
      s[k][j] = V[i][k]; s[k][j + 1] = phi[i][k];
    }
  }
  VectorXd u = VectorXd::Zero(z.nc);
  for (int k = 1; k < times; ++k) { VectorXd last = VectorXd::Constant(z.ns, 1.0 + k); z.problem->prepare_timestep(t[k] - 1, t[k], last, u); } // as the simulation does (the realisations are not those of the saved states)
  for (int k = 0; k < times; ++k) z.problem->json_save(t[k], s[k]);
  json out;
  z.problem->add_results_to_json(out);
  size_t entries = 0;
  for (auto const &cls : out) for (auto const &list : cls) entries += list.size();
  size_t components = 0;
  for (auto const &cls : {"nodes", "connections"})
    for (auto &id : std::string(cls) == "nodes" ? z.nodes : z.edges) {
      auto *c = z.any<Model::Statecomponent>(id);
      if (!c) continue;
      ++components;
      std::string type = typeof_(z, cls, id);
      json found;
      int count = 0;
      sx_assert(out.contains(cls) && out[cls].contains(type), "results of the type are written");
      for (auto &r : out[cls][type]) if (r["id"] == id) { found = r; ++count; }
      sx_assert(count == 1, "one result entry per component");
      sx_assert(int(found["data"].size()) == times, "one entry per saved time");
      I a = c->get_state_startindex(), n = c->get_state_afterindex() - a;
      for (int k = 0; k < times; ++k) {
        json const &d = found["data"][k];
        sx_eq(num(d["time"]), t[k], "saved time");
        if (std::string(cls) == "nodes") {
          sx_eq(num(d["V"]), V[id][k], "voltage");
          sx_eq(num(d["phi"]), phi[id][k], "phase");
          sx_eq(num(d["P"]), P[id][k], "active power of the state");
          sx_eq(num(d["Q"]), Q[id][k], "reactive power of the state");
          if (type == "StochasticPQnode") {
            sx_eq(num(d["P_deviation"]), P[id][k] - (times > 1 ? -2.0 - k : -2.0), "deviation of the active power");
            sx_eq(num(d["Q_deviation"]), Q[id][k] + 3.0, "deviation of the reactive power");
            sx_assert(found["seed"] == json(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8}), "seed");
            sx_reach("stochastic");
          }
          continue;
        }
        auto const *pipe = dynamic_cast<Model::Gas::Pipe const *>(c);
        int points = type == "Gaspowerconnection" ? 1 : int(n / 2);
        sx_assert(int(d["pressure"].size()) == points && int(d["flow"].size()) == points, "number of points");
        json top;
        if (pipe) for (auto &x : z.top["connections"]["Pipe"]) if (x["id"] == id) top = x;
        for (int i = 0; i < points; ++i) {
          double x = pipe ? 1000.0 * i : i, want = s[k][a + 2 * i];
          if (pipe) { // density to pressure in bar
            Model::Balancelaw::Isothermaleulerequation law(top);
            want = law.p(want) / 1e5;
          }
          sx_eq(num(d["pressure"][i]["x"]), x, "position");
          sx_eq(num(d["flow"][i]["x"]), x, "position");
          sx_eq(num(d["pressure"][i]["value"]), want, "pressure in bar");
          sx_eq(num(d["flow"][i]["value"]), s[k][a + 2 * i + 1], "flow");
        }
        sx_reach(type == "Pipe" ? "pipe" : type == "Gaspowerconnection" ? "connection" : "short");
      }
    }
  sx_assert(entries == components, "no other entries");
  sx_reach("end");
}
