// C18: initial states, controls and bounds reach exactly the component that carries the id.
#include <vector>
#include "Constraintcomponent.hpp"
#include "Controlcomponent.hpp"
#include "InterpolatingVector.hpp"
#include "Isothermaleulerequation.hpp"
#include "Pipe.hpp"
#include "Statecomponent.hpp"
#include "zoo.hpp"
typedef Eigen::Index I;
static bool large = false; // one larger network, data points at fixed places
enum Variant { plain, missing, unknown, noid, toomany, toofew };
// entries: class, type, json
struct Entry { std::string cls, type; json j; };
static json document(std::vector<Entry> const &v) {
  json d = {{"nodes", json::object()}, {"connections", json::object()}};
  for (auto &e : v) d[e.cls][e.type].push_back(e.j);
  return d;
}
// applies the variant to the document; true if the document must be rejected
static bool spoil(std::vector<Entry> &v, int variant, std::string name) {
  if (variant == plain) return false;
  if (variant == unknown) {
    std::string ids[3] = {"aaa", "nnn", "zzz"};
    Entry e = v[sx_int(name + "copied", 0, int(v.size()) - 1)];
    e.j["id"] = ids[sx_int(name + "unknownid", 0, 2)];
    v.push_back(e);
    sx_reach("unknown id");
    return false;
  }
  int k = sx_int(name + "which", 0, int(v.size()) - 1);
  if (variant == missing) v.erase(v.begin() + k);
  else if (variant == noid) v[k].j.erase("id");
  else if (variant == toomany) v[k].j["data"].back()["values"].push_back(1.0);
  else v[k].j["data"].back()["values"].erase(0);
  sx_reach("rejected");
  return true;
}
static std::string typeof_(Zoo &z, std::string const &cls, std::string const &id) {
  for (auto &item : z.top[cls].items()) for (auto &c : item.value()) if (c["id"] == id) return item.key();
  return "";
}
static void initial(Zoo &z, int variant) {
  std::vector<Entry> v;
  VectorXd want(z.ns);
  for (I i = 0; i < z.ns; ++i) want[i] = 0;
  std::vector<char> known(z.ns, 0);
  auto set = [&](I i, double x) { sx_assert(i >= 0 && i < z.ns && !known[i], "every slot belongs to one component"); known[i] = 1; want[i] = x; };
  for (auto const &cls : {"nodes", "connections"})
    for (auto &id : std::string(cls) == "nodes" ? z.nodes : z.edges) {
      auto *c = z.any<Model::Statecomponent>(id);
      if (!c) continue;
      I s = c->get_state_startindex(), e = c->get_state_afterindex();
      json data = json::array();
      std::string type = typeof_(z, cls, id);
      auto row = [&](int k, double x, double lo, double hi, double lo1, double hi1) {
        double a = sx_double(id + "_a" + std::to_string(k), lo, hi), b = sx_double(id + "_b" + std::to_string(k), lo1, hi1);
        data.push_back({{"x", x}, {"values", {a, b}}});
        return std::make_pair(a, b);
      };
      if (type == "Pipe") { // given at 0, somewhere inside and at the end
        int cells = int(e - s) / 2 - 1;
        double len = cells * 1000.0, mid = large ? 1250 : sx_double(id + "_x", 100, len - 100);
        std::vector<double> x = {0, mid, len};
        std::vector<std::pair<double, double>> y;
        for (int k = 0; k < 3; ++k) y.push_back(row(k, x[k], 10, 100, -500, 500));
        for (int k = 0; k <= cells; ++k) {
          double at = k * 1000.0;
          int r = at < mid ? 0 : 1;
          double w = (at - x[r]) / (x[r + 1] - x[r]);
          double pbar = y[r].first + w * (y[r + 1].first - y[r].first), q = y[r].second + w * (y[r + 1].second - y[r].second);
          set(s + 2 * k, pbar); // pressure in bar, compared after conversion
          set(s + 2 * k + 1, q);
        }
      } else if (e - s == 4) {
        auto a = row(0, 0, -100, 100, -100, 100), b = row(1, 1, -100, 100, -100, 100);
        set(s, a.first); set(s + 1, a.second); set(s + 2, b.first); set(s + 3, b.second);
      } else {
        auto a = row(0, 0, -100, 100, -100, 100);
        set(s, a.first); set(s + 1, a.second);
      }
      v.push_back({cls, type, {{"id", id}, {"data", data}}});
    }
  for (char c : known) sx_assert(c, "every slot belongs to some component");
  bool bad = spoil(v, variant, "initial");
  json doc = document(v);
  Zoo::reorder(doc, variant == plain ? sx_int("order", 0, 2) : variant == unknown ? 1 : 0);
  VectorXd state(z.ns);
  for (I i = 0; i < z.ns; ++i) state[i] = sx_double(S("old", i), -10, 10);
  VectorXd got = state;
  bool threw = throws([&] { z.problem->set_initial_values(got, doc); });
  sx_assert(threw == bad, bad ? "initial values that do not fit are rejected" : "initial values that fit are accepted");
  if (threw) return;
  // pipes hold densities: compare the pressure the pipe reports
  for (auto &id : z.edges) {
    auto *pipe = z.any<Model::Gas::Pipe>(id);
    if (!pipe) continue;
    json top;
    for (auto &c : z.top["connections"]["Pipe"]) if (c["id"] == id) top = c;
    Model::Balancelaw::Isothermaleulerequation law(top);
    for (I i = pipe->get_state_startindex(); i < pipe->get_state_afterindex(); i += 2) got[i] = law.p_bar_from_p_pascal(law.p(got[i]));
  }
  for (I i = 0; i < z.ns; ++i) sx_eq(got[i], want[i], "initial value");
  sx_reach("initial");
}
// per component of T: rows at times t; fills 'want' (size x points) at the grid points
template <class T, class Start> std::vector<Entry> series(Zoo &z, std::string name, std::vector<std::string> const &ids, Start start, std::vector<double> const &grid, MatrixXd &want) {
  std::vector<Entry> v;
  for (auto &id : ids) {
    auto *c = z.any<T>(id);
    std::string cls = "nodes", type = typeof_(z, "nodes", id);
    if (type.empty()) { cls = "connections"; type = typeof_(z, "connections", id); }
    double mid = large ? 1 + double(v.size()) : sx_double(name + id + "_t", 0.5, 9.5);
    std::vector<double> t = {0, mid, 10}, y;
    json data = json::array();
    for (int k = 0; k < 3; ++k) {
      y.push_back(sx_double(name + id + "_y" + std::to_string(k), -100, 100));
      data.push_back(Kit::datum(t[k], {y[k]}));
    }
    for (size_t g = 0; g < grid.size(); ++g) {
      int r = grid[g] < mid ? 0 : 1;
      want(start(c), I(g)) = y[r] + (grid[g] - t[r]) / (t[r + 1] - t[r]) * (y[r + 1] - y[r]);
    }
    v.push_back({cls, type, {{"id", id}, {"data", data}}});
  }
  return v;
}
template <class F> bool place(std::vector<Entry> v, int variant, std::vector<double> const &grid, MatrixXd const &want, Aux::InterpolatingVector &iv, F f) {
  bool bad = spoil(v, variant, "series");
  json doc = document(v);
  Zoo::reorder(doc, variant == plain ? sx_int("order", 0, 2) : variant == unknown ? 1 : 0);
  bool threw = throws([&] { f(iv, doc); });
  sx_assert(threw == bad, bad ? "values that do not fit are rejected" : "values that fit are accepted");
  if (threw) return false;
  for (size_t g = 0; g < grid.size(); ++g)
    for (I i = 0; i < want.rows(); ++i) sx_eq(iv.vector_at_index(I(g))[i], want(i, I(g)), "value of the component at the time");
  return true;
}
void harness() {
  Zoo::Part p;
  int part = sx_int("part", 0, 5);
  int variant = sx_int("variant", 0, 5);
  bool full = part == 0 && variant == plain;
  p.power = part == 0 && (!full || sx_bool("power"));
  p.plant = p.power; p.stochastic = p.power;
  large = variant == plain && sx_bool("large");
  p.pipes = full ? sx_int("pipes", 1, sx_param("pipes", 2)) : 1;
  p.cells = full ? sx_int("cells", 1, sx_param("cells", 2)) : 1;
  p.compressors = part == 0 && !full ? 1 : sx_int("compressors", part == 0 ? 1 : 0, sx_param("compressors", 2));
  p.valves = part == 0 ? 1 : sx_int("valves", 0, sx_param("valves", 2));
  p.constraints = part >= 4 ? sx_int("constraints", 1, sx_param("constraints", 2)) : 1;
  if (large) { p.cells = sx_param("largecells", 5); p.pipes = 2; p.compressors = 4; p.valves = 3; p.constraints = 5; sx_reach("large"); }
  Zoo z;
  z.make(p, [](std::string, double d) { return d; }).build();
  if (part == 0) { initial(z, variant); sx_reach("end"); return; }
  if (z.nc == 0 && part < 4) { sx_reach("end"); return; }
  std::vector<double> grid = {0, large ? 4.5 : sx_double("g", 1, 9), 10};
  VectorXd gridv(3);
  for (int i = 0; i < 3; ++i) gridv[i] = grid[i];
  MatrixXd want(part < 4 ? z.nc : z.nk, 3);
  Aux::InterpolatingVector iv(gridv, want.rows());
  auto cstart = [](auto *c) { return c->get_control_startindex(); };
  auto kstart = [](auto *c) { return c->get_constraint_startindex(); };
  auto &pr = *z.problem;
  if (part < 4) {
    auto v = series<Model::Controlcomponent>(z, "c", z.controls, cstart, grid, want);
    bool ok = place(v, variant, grid, want, iv, [&](auto &x, json const &d) {
      if (part == 1) pr.set_initial_controls(x, d);
      else if (part == 2) pr.set_lower_bounds(x, d);
      else pr.set_upper_bounds(x, d);
    });
    if (ok && part == 1) { // written back: same values at the same times for the same ids
      json out;
      pr.save_controls_to_json(iv, out);
      I total = 0;
      for (auto const &cls : out) for (auto const &list : cls) total += I(list.size());
      sx_assert(total == z.nc, "one entry per control component");
      Aux::InterpolatingVector back(gridv, z.nc);
      for (auto &id : z.controls) {
        std::string type = typeof_(z, "connections", id);
        int found = 0;
        for (auto const &c : out["connections"][type])
          if (c["id"] == id) {
            ++found;
            sx_assert(c["data"].size() == 3, "one entry per time");
            for (int g = 0; g < 3; ++g) {
              sx_eq(c["data"][g]["time"].get<double>(), grid[g], "saved time");
              sx_assert(c["data"][g]["values"].size() == 1, "number of saved values");
              sx_eq(c["data"][g]["values"][0].get<double>(), want(z.any<Model::Controlcomponent>(id)->get_control_startindex(), g), "saved control");
            }
          }
        sx_assert(found == 1, "saved under its id and type");
      }
      pr.set_initial_controls(back, out);
      for (int g = 0; g < 3; ++g)
        for (I i = 0; i < z.nc; ++i) sx_eq(back.vector_at_index(g)[i], want(i, g), "control read back");
      sx_reach("saved");
    }
    if (ok) sx_reach(part == 1 ? "controls" : "bounds");
  } else {
    auto v = series<Model::Constraintcomponent>(z, "k", z.constraints, kstart, grid, want);
    if (place(v, variant, grid, want, iv, [&](auto &x, json const &d) {
      if (part == 4) pr.set_constraint_lower_bounds(x, d);
      else pr.set_constraint_upper_bounds(x, d);
    })) sx_reach("constraint bounds");
  }
  sx_reach("end");
}
