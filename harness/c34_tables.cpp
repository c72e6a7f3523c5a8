// C34: the tables for plots hold exactly the saved numbers.
#include "Statecomponent.hpp"
#include "zoo.hpp"
#include "tools.hpp"
TOOL(generate_printing_csv);
TOOL(generate_control_printing_csv);
typedef std::vector<std::vector<std::string>> Table;
static Table table(fs::path p) {
  Table t;
  std::istringstream f(slurp(p));
  std::string line, cell;
  while (std::getline(f, line)) {
    t.emplace_back();
    std::istringstream l(line);
    while (std::getline(l, cell, ',')) {
      size_t a = cell.find_first_not_of(' '), b = cell.find_last_not_of(' ');
      t.back().push_back(a == std::string::npos ? "" : cell.substr(a, b + 1 - a));
    }
  }
  return t;
}
static double cell(std::string const &s) {
  json j = json::parse(s, nullptr, false);
  return j.is_number() ? j.get<double>() : (sx_fail("a cell holds a number"), 0.0);
}
static std::vector<std::string> files() { // but the input
  std::vector<std::string> v;
  for (auto &e : fs::recursive_directory_iterator(".")) if (e.path().filename() != "in.json") v.push_back(e.path().lexically_relative(".").string());
  std::sort(v.begin(), v.end());
  return v;
}
// a number of many digits
static double digits(std::string n, double lo, double hi) { return sx_double(n, lo, hi) + 0.00123456789; }
static void states() {
  Zoo::Part p;
  int kind = sx_int("kind", 0, 2), times = sx_int("times", 1, sx_param("times", 3));
  p.gas = kind != 1; p.power = kind != 0;
  p.plant = p.gas && p.power; p.stochastic = p.power;
  p.pipes = p.gas ? 2 : 0;
  p.cells = p.gas ? sx_int("cells", 1, sx_param("cells", 2)) : 1;
  p.compressors = 2; p.constraints = 1;
  Zoo z;
  z.make(p, [](std::string, double d) { return d; });
  Zoo::reorder(z.top, sx_int("order", 0, 2));
  z.build();
  std::vector<std::string> ids;
  for (auto *l : {&z.nodes, &z.edges}) for (auto &id : *l) if (z.any<Model::Statecomponent>(id)) ids.push_back(id);
  std::string id = ids[sx_int("id", 0, int(ids.size()) - 1)];
  bool node = std::find(z.nodes.begin(), z.nodes.end(), id) != z.nodes.end();
  auto const *me = z.any<Model::Statecomponent>(id);
  double t = digits("t0", 0, 10);
  for (int k = 0; k < times; ++k) {
    VectorXd s(z.ns);
    for (Eigen::Index i = 0; i < z.ns; ++i) s[i] = 40.0 + i + k;
    for (Eigen::Index i = me->get_state_startindex(); i < me->get_state_afterindex(); ++i) s[i] = node ? digits(S("s", k, i), 0.5, 2) : digits(S("s", k, i), 20, 100);
    z.problem->json_save(t, s);
    t += sx_double(S("dt", k), 0.5, 10);
  }
  json out;
  z.problem->add_results_to_json(out);
  spill("in.json", out.dump(1));
  json data;
  for (auto &c : out) for (auto &ty : c) for (auto &e : ty) if (e["id"] == id) data = e["data"];
  bool old = sx_bool("old");
  if (old) for (auto &n : {id + ".csv", id + "_pressure.csv"}) spill(n, "old,\ncontents that are longer,\nthan the new ones\n");
  int rc = use(tool_generate_printing_csv, {"in.json", id});
  sx_assert(rc == 0, "succeeds");
  sx_assert(slurp("in.json") == out.dump(1), "the results are left alone");
  if (node) {
    Table tab = table(id + ".csv");
    sx_assert(int(tab.size()) == times + 1, "one row per time");
    std::vector<std::string> head = tab[0];
    sx_assert(head.size() == data[0].size() && head[0] == "time", "a column per quantity");
    for (int k = 0; k < times; ++k) {
      sx_assert(tab[k + 1].size() == head.size(), "a cell per quantity");
      for (size_t i = 0; i < head.size(); ++i) {
        sx_assert(data[k].contains(head[i]), "a saved quantity");
        for (size_t j = 0; j < i; ++j) sx_assert(head[i] != head[j], "every quantity once");
        sx_eq(cell(tab[k + 1][i]), num(data[k][head[i]]), "saved number");
      }
    }
    if (!old) sx_assert(files() == std::vector<std::string>{id + ".csv"}, "one table");
    sx_reach("power");
  } else {
    for (std::string q : {"flow", "pressure"}) {
      Table tab = table(id + "_" + q + ".csv");
      size_t n = data[0][q].size();
      sx_assert(int(tab.size()) == times + 1, "one row per time");
      for (auto &r : tab) sx_assert(r.size() == n + 1, "one column per point");
      for (size_t i = 0; i < n; ++i) sx_eq(cell(tab[0][i + 1]), num(data[0][q][i]["x"]), "position");
      for (int k = 0; k < times; ++k) {
        sx_eq(cell(tab[k + 1][0]), num(data[k]["time"]), "time");
        for (size_t i = 0; i < n; ++i) sx_eq(cell(tab[k + 1][i + 1]), num(data[k][q][i]["value"]), "saved number");
      }
    }
    if (!old) sx_assert(files() == std::vector<std::string>({id + "_flow.csv", id + "_pressure.csv"}), "two tables");
    sx_reach("gas");
  }
}
static json controls(int times, int n) {
  json j;
  for (auto &id : {"a", "b", "c"}) {
    json d = json::array();
    double t = digits(S(std::string("t") + id, 0), -10, 10);
    for (int k = 0; k < times; ++k) {
      json v = json::array();
      for (int i = 0; i < n; ++i) v.push_back(digits(S(id, k, i), -100, 100));
      d.push_back({{"time", t}, {"values", v}});
      t += sx_double(S(std::string("d") + id, k), 0.5, 10);
    }
    j["connections"][id == std::string("b") ? "Controlvalve" : "Compressorstation"].push_back(entry(id, d));
  }
  return j;
}
static void control() {
  int times = sx_int("times", 1, sx_param("times", 3)), n = sx_int("controls", 1, 2);
  json in = controls(times, n);
  spill("in.json", in.dump());
  char const *ids[3] = {"a", "b", "c"};
  std::string id = ids[sx_int("id", 0, 2)];
  bool old = sx_bool("old");
  if (old) spill(id + ".csv", "old,\ncontents that are longer,\nthan the new ones\n\n\n\n\n\n\n");
  int rc = use(tool_generate_control_printing_csv, {"in.json", id});
  sx_assert(rc == 0, "succeeds");
  json const &data = of(in["connections"][id == "b" ? "Controlvalve" : "Compressorstation"], id)["data"];
  Table tab = table(id + ".csv");
  sx_assert(int(tab.size()) == times + 1, "one row per time");
  for (auto &r : tab) sx_assert(int(r.size()) == n + 1, "one column per control");
  sx_assert(tab[0][0] == "time", "time column");
  for (int k = 0; k < times; ++k) {
    sx_eq(cell(tab[k + 1][0]), num(data[k]["time"]), "time");
    for (int i = 0; i < n; ++i) sx_eq(cell(tab[k + 1][i + 1]), num(data[k]["values"][i]), "control");
  }
  sx_assert(files() == std::vector<std::string>{id + ".csv"}, "one table");
  sx_reach("controls");
}
static void misuse() {
  bool control = sx_bool("control");
  int k = sx_int("misuse", 0, 6);
  fs::create_directory("work");
  fs::current_path("work");
  json in = controls(1, 1);
  std::string id = "a";
  if (!control) for (auto &e : in["connections"]["Compressorstation"]) { // as states
    e["data"] = json::array({{{"time", 0}, {"pressure", {{{"x", 0}, {"value", 1}}}}, {"flow", {{{"x", 0}, {"value", 2}}}}}});
  }
  if (k == 2) id = "nowhere";
  if (k == 3) in["connections"]["Compressorstation"][0]["id"] = id = "../outside";
  if (k == 4) { in["nodes"]["Unknowntype"] = json::array({entry("u", json::array())}); id = "u"; }
  if (k == 5 && control) in["connections"]["Compressorstation"][0]["data"][0]["values"] = 3.5;
  if (k == 6 && control) in["connections"]["Compressorstation"][0]["data"][0]["values"][0] = "x";
  if (k >= 5 && !control) in["connections"]["PQnode"] = json::array({entry("n", json::array({{{"time", 0}, {"V", k == 5 ? json("x") : json::array({1})}}}))}), id = "n";
  spill("in.json", in.dump());
  int rc = use(control ? tool_generate_control_printing_csv : tool_generate_printing_csv, k == 0 ? std::vector<std::string>{"in.json"} : k == 1 ? std::vector<std::string>{"missing.json", id} : std::vector<std::string>{"in.json", id});
  sx_assert(rc != 0, "misuse is refused");
  sx_assert(files().empty(), "no table is left");
  for (auto &e : fs::directory_iterator("..")) sx_assert(e.path().filename() == "work", "nothing outside the directory");
  fs::current_path("..");
  sx_reach("misuse");
}
void harness() {
  sx_private_dir();
  switch (sx_int("part", sx_param("from", 0), sx_param("to", 2))) {
  case 0: states(); break;
  case 1: control(); break;
  case 2: misuse(); break;
  }
}
