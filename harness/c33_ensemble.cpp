// C33: statistics over several result files are those of the values in them.
#include "tools.hpp"
TOOL(get_mean_sigma);
TOOL(get_quantiles);
TOOL(compute_reference_discrepance);
// one place in the results: a number at one time of a power node, or at one point and time of a gas edge
struct Place {
  char const *cls, *type, *id;
  int time;
  char const *key;
  int point; // -1: a power node
};
static Place const places[] = {{"nodes", "PQnode", "a", 0, "V", -1}, {"nodes", "PQnode", "b", 1, "phi", -1}, {"nodes", "StochasticPQnode", "s", 0, "P", -1}, {"nodes", "ExternalPowerplant", "e", 1, "Q", -1},
                               {"connections", "Pipe", "p", 1, "pressure", 1}, {"connections", "Pipe", "q", 0, "flow", 0}, {"connections", "Gaspowerconnection", "g", 1, "flow", 0}, {"connections", "Compressorstation", "c", 0, "pressure", 1}};
static int const nplaces = 8;
static double position(int i) { return i == 2 ? 0.75 : 0.4 * i; }
// number at a place: arbitrary at the place of interest, else different everywhere
static double number(Place const &p, int run) { return 1 + 7 * p.time + 3 * p.point + 11 * p.type[0] + p.id[0] + 2 * p.key[1] + 5 * ((run * 3) % 7); }
static json results(int run, Place const &special, double v) {
  json j;
  auto val = [&](Place const &p) { return p.cls == std::string(special.cls) && p.type == std::string(special.type) && p.id == std::string(special.id) && p.time == special.time && p.key == std::string(special.key) && p.point == special.point ? v : number(p, run); };
  struct C { char const *cls, *type, *id; int points; };
  for (C c : {C{"nodes", "PQnode", "a", 0}, C{"nodes", "PQnode", "b", 0}, C{"nodes", "StochasticPQnode", "s", 0}, C{"nodes", "ExternalPowerplant", "e", 0}, C{"connections", "Pipe", "p", 3}, C{"connections", "Pipe", "q", 2}, C{"connections", "Gaspowerconnection", "g", 1}, C{"connections", "Compressorstation", "c", 2}}) {
    json data = json::array();
    for (int t = 0; t < 2; ++t) {
      json d;
      d["time"] = 10.5 + 0.25 * t;
      if (!c.points) for (auto k : {"P", "Q", "V", "phi"}) d[k] = val({c.cls, c.type, c.id, t, k, -1});
      for (int i = 0; i < c.points; ++i) for (auto k : {"pressure", "flow"}) d[k].push_back({{"x", position(i)}, {"value", val({c.cls, c.type, c.id, t, k, i})}});
      data.push_back(d);
    }
    j[c.cls][c.type].push_back(entry(c.id, data));
  }
  return j;
}
static json const &at(json const &j, Place const &p, std::string suffix) {
  json const &d = of(j.at(p.cls).at(p.type), p.id)["data"].at(p.time).at(p.key + suffix);
  return p.point < 0 ? d : d.at(p.point)["value"];
}
// every number of the special run set is compared at the special place and at all the listed ones
struct Ensemble {
  int n;
  Place special;
  std::vector<double> v;
  void make(int most) {
    n = sx_int("runs", 1, most);
    special = places[sx_int("place", 0, nplaces - 1)];
    for (int k = 0; k < n; ++k) v.push_back(sx_double(S("v", k), -100, 100));
    for (int k = 0; k < n; ++k) spill(fs::path("output") / ("output" + std::to_string((k * 5) % 7) + ".json"), results(k, special, v[k]).dump(1));
    spill("output/.hidden", "not json");
  }
  // values of a place in all runs
  std::vector<double> values(Place const &p) {
    if (&p == &special) return v;
    std::vector<double> w;
    for (int k = 0; k < n; ++k) w.push_back(number(p, k));
    return w;
  }
  template <class F> void each(F f) {
    f(special, v);
    for (auto &p : places) if (std::string(p.type) != special.type) f(p, values(p));
  }
  void frame(json const &j, json const &shape) { // the same components, times and points
    for (auto &c : shape.items()) for (auto &t : c.value().items()) {
      sx_assert(j.at(c.key()).at(t.key()).size() == t.value().size(), "the same components");
      for (auto &e : t.value()) {
        json const &o = of(j.at(c.key()).at(t.key()), e["id"]);
        sx_assert(o["data"].size() == e["data"].size(), "the same times");
        for (size_t k = 0; k < e["data"].size(); ++k) {
          sx_eq(num(o["data"][k]["time"]), num(e["data"][k]["time"]), "time");
          for (auto &q : o["data"][k].items()) if (q.value().is_array())
            for (size_t i = 0; i < q.value().size(); ++i) sx_eq(num(q.value()[i]["x"]), position(int(i)), "position");
        }
      }
    }
  }
};
static json read(std::string f) {
  json j = json::parse(slurp(f), nullptr, false);
  sx_assert(!j.is_discarded(), "a complete file");
  return j;
}
static void mean() {
  Ensemble e;
  e.make(sx_param("runs", 3));
  bool named = sx_bool("named");
  if (named) spill("output/other.json", "not json");
  int rc = use(tool_get_mean_sigma, named ? std::vector<std::string>{"output", "m.json"} : std::vector<std::string>{"output"});
  sx_assert(rc == 0, "succeeds");
  json j = read(named ? "m.json" : "mean_and_sigma.json");
  e.frame(j, results(0, e.special, 0));
  e.each([&](Place const &p, std::vector<double> const &w) {
    double m = 0, s = 0;
    for (double x : w) m += x / e.n;
    for (double x : w) s += (x - m) * (x - m);
    sx_eq(num(at(j, p, "_mean")), m, "mean");
    double sd = num(at(j, p, "_sigma"));
    sx_le(0, sd, "standard deviation is not negative");
    if (e.n > 1) sx_eq(sd * sd, s / (e.n - 1), "variance"); else sx_eq(sd, 0, "no spread");
  });
  sx_reach(e.n > 1 ? "mean" : "mean of one");
}
static void quantiles() {
  Ensemble e;
  e.make(sx_param("sorted", 3));
  int rc = use(tool_get_quantiles, {"output", "q.json"});
  sx_assert(rc == 0, "succeeds");
  json j = read("q.json");
  e.frame(j, results(0, e.special, 0));
  e.each([&](Place const &p, std::vector<double> const &w) {
    double med = num(at(j, p, "_median"));
    auto count = [&](double lo, double hi) { int c = 0; for (double x : w) if (lo <= x && x <= hi) ++c; return c; };
    sx_assert(2 * count(-1e9, med) >= e.n && 2 * count(med, 1e9) >= e.n, "a median");
    double lo = med, hi = med, part[3] = {0.5, 0.75, 0.9};
    char const *names[3] = {"one", "two", "three"};
    auto member = [&](double q) { for (double x : w) if (x == q) return true; return false; };
    sx_assert(member(med), "a value of some run");
    for (int k = 0; k < 3; ++k) {
      double l = num(at(j, p, std::string("_q_") + names[k] + "_low")), h = num(at(j, p, std::string("_q_") + names[k] + "_high"));
      sx_assert(member(l) && member(h), "a value of some run");
      sx_le(l, lo, "nested"); sx_le(hi, h, "nested");
      sx_assert(count(l, h) >= part[k] * e.n, "the interval holds its part of the values");
      lo = l; hi = h;
    }
  });
  sx_reach("quantiles");
}
// many runs, one value of which is anywhere
static void many() {
  int n = sx_int("runs", 4, sx_param("many", 12)), which = sx_int("which", 0, 3), k0 = which == 0 ? 0 : which == 1 ? n / 2 : which == 2 ? n - 1 : n / 3;
  Place p = places[sx_bool("gas") ? 4 : 0];
  double x = sx_double("x", 0.25, n + 0.25);
  std::vector<double> w;
  for (int k = 0; k < n; ++k) w.push_back(k == k0 ? x : 1 + (k * 7) % n);
  for (int k = 0; k < n; ++k) spill("output/run" + std::to_string(k), results(k, p, w[k]).dump());
  int rc = use(tool_get_quantiles, {"output"});
  sx_assert(rc == 0, "succeeds");
  json j = read("quantiles.json");
  double med = num(at(j, p, "_median"));
  auto count = [&](double lo, double hi) { int c = 0; for (double v : w) if (lo <= v && v <= hi) ++c; return c; };
  sx_assert(2 * count(-1e9, med) >= n && 2 * count(med, 1e9) >= n, "a median");
  double part[3] = {0.5, 0.75, 0.9};
  char const *names[3] = {"one", "two", "three"};
  for (int k = 0; k < 3; ++k) {
    double l = num(at(j, p, std::string("_q_") + names[k] + "_low")), h = num(at(j, p, std::string("_q_") + names[k] + "_high"));
    int c = count(l, h);
    sx_assert(c >= part[k] * n, "the interval holds its part of the values");
    int inside = 0;
    for (double v : w) if (l < v && v < h) ++inside;
    sx_assert(inside <= part[k] * n + 0.5, "the interval holds not much more than its part");
  }
  sx_reach("many");
}
static void discrepance() {
  Ensemble e;
  e.make(sx_param("compared", 2));
  double r = sx_double("reference", -100, 100);
  bool lacks = sx_bool("lacks");
  json ref = results(5, e.special, r);
  if (lacks) { // the reference does not know the component
    json &l = ref[e.special.cls][e.special.type];
    for (size_t i = 0; i < l.size(); ++i) if (l[i]["id"] == e.special.id) { l.erase(i); break; }
  }
  spill("ref.json", ref.dump());
  int rc = use(tool_compute_reference_discrepance, {"ref.json", "output", "d.json"});
  if (lacks) {
    sx_assert(rc != 0 && !fs::exists("d.json"), "components without reference are refused");
    sx_reach("no reference");
    return;
  }
  sx_assert(rc == 0, "succeeds");
  json j = read("d.json");
  e.frame(j, results(0, e.special, 0));
  e.each([&](Place const &p, std::vector<double> const &w) {
    double reference = &p == &e.special ? r : number(p, 5), most = 0;
    for (double x : w) most = std::max(most, std::fabs(x - reference));
    sx_eq(num(at(j, p, "")), most, "largest difference");
  });
  sx_reach("discrepance");
}
void harness() {
  sx_private_dir();
  switch (sx_int("part", sx_param("from", 0), sx_param("to", 3))) {
  case 0: mean(); break;
  case 1: quantiles(); break;
  case 2: many(); break;
  case 3: discrepance(); break;
  }
}
