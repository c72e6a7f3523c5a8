// C20: topology and boundary json become exactly the described network, or are rejected.
#include <vector>
#include <map>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include "Powernode.hpp"
#include "zoo.hpp"
typedef Eigen::Index I;
static char const *nodetypes[5] = {"Vphinode", "PQnode", "Innode", "Source", "PVnode"};
static bool needs(int type) { return type != 2; }
static json nodejson(std::string id, int type) {
  json j = {{"id", id}};
  if (type == 0 || type == 1 || type == 4) { j["G"] = 1.5; j["B"] = -2.5; }
  return j;
}
static json bvalue(int type, double a, double b) {
  std::vector<double> v = type == 3 ? std::vector<double>{a} : std::vector<double>{a, b};
  return json::array({Kit::datum(0, v), Kit::datum(10, v)});
}
static std::unique_ptr<Network::Net> attempt(json top, json bnd) {
  Model::Componentfactory::Full_factory factory(json::object());
  json full = {{"topology_json", top}, {"boundary_json", bnd}};
  try { return Model::build_net(full, factory); } catch (std::exception &) { return nullptr; }
}
static json empty() { return {{"nodes", json::object()}, {"connections", json::object()}}; }
// edges: any ends, including missing nodes and self loops, in any order
static void attachment() {
  int n = sx_int("n", 1, sx_param("nodes", 3)), m = sx_int("m", 0, sx_param("edges", 2));
  std::vector<std::string> names = {"B", "A", "C", "D"};
  json top = empty(), bnd = empty();
  std::map<std::string, std::string> type;
  for (int i = 0; i < n; ++i) {
    int t = i % 2 ? 0 : 2;
    type[names[i]] = nodetypes[t];
    top["nodes"][nodetypes[t]].push_back(nodejson(names[i], t));
    if (needs(t)) bnd["nodes"][nodetypes[t]].push_back({{"id", names[i]}, {"data", bvalue(t, 1, 2)}});
  }
  std::vector<std::string> enames = {"y", "x", "z"}, from(m), to(m);
  bool good = true;
  char const *et[3] = {"Shortpipe", "Transmissionline", "Compressorstation"};
  int shift = m ? sx_int("shift", 0, 1) : 0;
  for (int i = 0; i < m; ++i) {
    int f = sx_int(S("from", i), 0, n), t = sx_int(S("to", i), 0, n); // n: no such node
    from[i] = f == n ? "missing" : names[f];
    to[i] = t == n ? "missing" : names[t];
    if (f == n || t == n || f == t) good = false;
    json e = {{"id", enames[i]}, {"from", from[i]}, {"to", to[i]}};
    int kind = (i + shift) % 2;
    if (kind == 1) { e["G"] = 1.0; e["B"] = 2.0; }
    top["connections"][et[kind]].push_back(e);
  }
  if (sx_bool("reversed")) { Zoo::reorder(top, 1); Zoo::reorder(bnd, 1); }
  auto net = attempt(top, bnd);
  if (good) sx_assert(net != nullptr, "a valid topology is accepted");
  else sx_assert(net == nullptr, "edges to missing nodes and self loops are rejected");
  if (!good) { sx_reach("bad edge"); return; }
  sx_assert(int(net->get_nodes().size()) == n && int(net->get_edges().size()) == m, "one component per entry");
  for (int i = 0; i < n; ++i) {
    auto *node = net->get_node_by_id(names[i]);
    sx_assert(node && node->get_id() == names[i], "node under its id");
    std::vector<std::string> out, in, wout, win;
    for (auto *e : node->get_starting_edges()) out.push_back(e->get_id());
    for (auto *e : node->get_ending_edges()) in.push_back(e->get_id());
    for (int k = 0; k < m; ++k) { if (from[k] == names[i]) wout.push_back(enames[k]); if (to[k] == names[i]) win.push_back(enames[k]); }
    for (auto *v : {&out, &in, &wout, &win}) std::sort(v->begin(), v->end());
    sx_assert(out == wout && in == win, "edges attached at the named nodes");
  }
  for (int k = 0; k < m; ++k) {
    auto *e = net->get_edge_by_id(enames[k]);
    sx_assert(e && e->get_id() == enames[k], "edge under its id");
    sx_assert(e->get_starting_node() == net->get_node_by_id(from[k]), "starts at the named node");
    sx_assert(e->get_ending_node() == net->get_node_by_id(to[k]), "ends at the named node");
    sx_assert(net->exists_edge_between(from[k], to[k]) && net->exists_edge_between(to[k], from[k]), "edge between its nodes");
    auto *b = net->get_edge_by_node_ids(from[k], to[k]);
    sx_assert(b && b->get_starting_node()->get_id() == from[k] && b->get_ending_node()->get_id() == to[k], "edge by its nodes");
  }
  sx_assert(net->get_node_by_id("missing") == nullptr && net->get_edge_by_id("missing") == nullptr, "unknown ids are not found");
  sx_reach("attached");
}
// boundary values: every presence pattern, additional and misplaced entries, any order
static void boundary() {
  int n = sx_int("n", 1, sx_param("boundarynodes", 3));
  std::vector<std::string> names = {"nb", "na", "nd", "nc"};
  json top = empty(), bnd = empty();
  std::vector<int> type(n);
  std::vector<double> a(n), b(n);
  bool good = true;
  for (int i = 0; i < n; ++i) {
    type[i] = sx_int(S("type", i), 0, 3);
    top["nodes"][nodetypes[type[i]]].push_back(nodejson(names[i], type[i]));
    a[i] = sx_double(S("a", i), -10, 10); b[i] = sx_double(S("b", i), -10, 10);
    if (!needs(type[i])) continue;
    int where = sx_int(S("where", i), 0, 2); // present, absent, under another type
    if (where != 0) good = false;
    if (where != 1) {
      int at = where == 2 ? 4 : type[i];
      bnd["nodes"][nodetypes[at]].push_back({{"id", names[i]}, {"data", bvalue(type[i], a[i], b[i])}});
    }
  }
  int extra = sx_int("extra", 0, 3);
  if (extra) { // an entry nobody asked for
    char const *ids[3] = {"n0", "nbb", "zz"};
    int t = extra == 3 ? 4 : type[0];
    if (needs(t)) bnd["nodes"][nodetypes[t]].push_back({{"id", ids[extra - 1]}, {"data", bvalue(t, 77, 78)}});
  }
  int order = n > 1 ? sx_int("order", 0, 2) : 0;
  Zoo::reorder(top, order);
  Zoo::reorder(bnd, (order + 1) % 3);
  auto net = attempt(top, bnd);
  sx_assert((net != nullptr) == good, good ? "complete boundary values are accepted" : "a missing boundary value is rejected");
  if (!good) { sx_reach("missing boundary"); return; }
  bool edgeless = true;
  for (int i = 0; i < n; ++i) if (type[i] == 3) edgeless = false; // a source needs an edge to be evaluated
  if (!edgeless) return;
  Zoo z;
  z.problem = std::make_unique<Model::Networkproblem>(std::move(net));
  z.problem->init();
  I ns = z.problem->get_number_of_states();
  VectorXd s = vec("s", ns, 0.5, 2), u(0), r(ns);
  z.problem->evaluate(r, 3, 4, s, s, u);
  for (int i = 0; i < n; ++i) {
    auto *p = z.any<Model::Power::Powernode>(names[i]);
    if (!p) { sx_assert(!needs(type[i]), "node of its type"); continue; }
    I k = p->get_state_startindex();
    double x = type[i] == 0 ? s[k] : 1.5 * s[k] * s[k], y = type[i] == 0 ? s[k + 1] : 2.5 * s[k] * s[k];
    sx_eq(r[k], x - a[i], "first boundary value belongs to the id");
    sx_eq(r[k + 1], y - b[i], "second boundary value belongs to the id");
  }
  sx_reach("boundary");
}
// duplicates, missing ids, unknown types
static void malformed() {
  std::vector<std::string> ids = {"b", "a", "d", "c"};
  json top = empty(), bnd = empty();
  int type[4] = {0, 0, 1, 2};
  for (int i = 0; i < 4; ++i) {
    top["nodes"][nodetypes[type[i]]].push_back(nodejson(ids[i], type[i]));
    if (needs(type[i])) bnd["nodes"][nodetypes[type[i]]].push_back({{"id", ids[i]}, {"data", bvalue(type[i], 1, 2)}});
  }
  auto line = [](std::string id, std::string f, std::string t) { return json{{"id", id}, {"from", f}, {"to", t}, {"G", 1.0}, {"B", 2.0}}; };
  top["connections"]["Transmissionline"] = json::array({line("l2", "a", "b"), line("l1", "d", "b")});
  top["connections"]["Shortpipe"] = json::array({{{"id", "s1"}, {"from", "a"}, {"to", "c"}}});
  sx_assert(attempt(top, bnd) != nullptr, "the undamaged documents are accepted");
  int damage = sx_int("damage", 0, 9), k = 0;
  std::string all[7] = {"a", "b", "c", "d", "l1", "l2", "s1"};
  switch (damage) {
  case 0: case 1: case 2: case 3: { // an id occurs twice, in the same or another list
    std::string id = all[k = sx_int("which", 0, 6)];
    if (damage == 0) { top["nodes"]["Vphinode"].push_back(nodejson(id, 0)); if (id != "a" && id != "b") bnd["nodes"]["Vphinode"].push_back({{"id", id}, {"data", bvalue(0, 1, 2)}}); }
    if (damage == 1) top["nodes"]["Innode"].push_back(nodejson(id, 2));
    if (damage == 2) top["connections"]["Transmissionline"].push_back(line(id, "a", "d"));
    if (damage == 3) top["connections"]["Compressorstation"] = json::array({{{"id", id}, {"from", "a"}, {"to", "c"}}});
    sx_reach("duplicate");
    break;
  }
  case 4: { // a boundary id occurs twice
    std::string types[2] = {"Vphinode", "PQnode"};
    k = sx_int("which", 0, 3);
    bnd["nodes"][types[k / 2]].push_back({{"id", k % 2 ? "a" : "d"}, {"data", bvalue(0, 5, 6)}});
    break;
  }
  case 5: { k = sx_int("which", 0, 1); top["nodes"]["Vphinode"][k].erase("id"); break; }
  case 6: { k = sx_int("which", 0, 1); top["connections"]["Transmissionline"][k].erase("id"); break; }
  case 7: { k = sx_int("which", 0, 1); bnd["nodes"]["Vphinode"][k].erase("id"); break; }
  case 8: { bool e = sx_bool("edge"); top[e ? "connections" : "nodes"]["Nosuchtype"] = json::array({e ? line("q", "a", "b") : nodejson("q", 0)}); sx_reach("unknown type"); break; }
  case 9: { k = sx_int("which", 0, 1); top["connections"]["Transmissionline"][k].erase(sx_bool("to") ? "to" : "from"); break; }
  }
  Zoo::reorder(top, sx_int("order", 0, 2));
  sx_assert(attempt(top, bnd) == nullptr, "a malformed topology is rejected");
  sx_reach("malformed");
}
// topology and boundary given as file names
static void files() {
  namespace fs = std::filesystem;
  int t = sx_int("top", 0, 4), b = sx_int("bnd", 0, 4);
  fs::path dir = fs::current_path() / ("files" + std::to_string(getpid())); // no choices from here on
  fs::create_directories(dir);
  json top = empty(), bnd = empty();
  top["nodes"]["Vphinode"] = json::array({nodejson("b", 0), nodejson("a", 0)});
  bnd["nodes"]["Vphinode"] = json::array({{{"id", "a"}, {"data", bvalue(0, 1, 2)}}, {{"id", "b"}, {"data", bvalue(0, 3, 4)}}});
  std::ofstream(dir / "topology.json") << top.dump();
  std::ofstream(dir / "boundary.json") << bnd.dump();
  auto entry = [&](int k, json inl, std::string name) -> json {
    if (k == 0) return inl;
    if (k == 1) return name;
    if (k == 2) return (dir / name).string();
    if (k == 3) return "absent.json";
    return 5; // neither an object nor a file name
  };
  json full = {{"topology_json", entry(t, top, "topology.json")}, {"boundary_json", entry(b, bnd, "boundary.json")}, {"GRAZER_file_directory", dir.string()}};
  Model::Componentfactory::Full_factory factory(json::object());
  std::unique_ptr<Network::Net> net;
  bool threw = throws([&] { net = Model::build_net(full, factory); });
  bool good = t < 3 && b < 3;
  sx_assert(threw != good, good ? "files and objects are accepted" : "absent files and wrong values are rejected");
  if (good) sx_assert(net->get_nodes().size() == 2 && net->get_node_by_id("a") && net->get_node_by_id("b"), "network of the file");
  fs::remove(dir / "topology.json"); fs::remove(dir / "boundary.json"); fs::remove(dir);
  sx_reach("files");
}
void harness() {
  int part = sx_int("part", 0, 3);
  if (part == 0) attachment();
  else if (part == 1) boundary();
  else if (part == 2) malformed();
  else files();
  sx_reach("end");
}
