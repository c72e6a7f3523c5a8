// C26: defaults, required keys, sorting, schema keys and generated schemas.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <unistd.h>
#include "netkit.hpp"
#include "Aux_json.hpp"
#include "ComponentJsonHelpers.hpp"
#include "Gas_factory.hpp"
#include "Power_factory.hpp"
#include "make_schema.hpp"
#include "schema_generation.hpp"
#include "schema_key_insertion.hpp"
#include "schema_validation.hpp"
namespace fs = std::filesystem;
using nlohmann::ordered_json;
namespace sc = Aux::schema;
// same structure, numbers equal for all values
static void same(json const &a, json const &b, std::string const &what) {
  if (a.is_number() && b.is_number()) { sx_eq(a.get<double>(), b.get<double>(), what); return; }
  sx_assert(a.type() == b.type(), what);
  if (a.is_object()) {
    sx_assert(a.size() == b.size(), what);
    for (auto &e : a.items()) { bool has = b.contains(e.key()); sx_assert(has, what); if (has) same(e.value(), b[e.key()], what); }
  } else if (a.is_array()) {
    sx_assert(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) same(a[i], b[i], what);
  } else sx_assert(a == b, what);
}
// ---- defaults: every subset of user values and defaults in a nested schema
static json object_schema() { json s; s["type"] = "object"; return s; }
static void defaults() {
  json inner = object_schema(), deep = object_schema(), schema = object_schema();
  sc::add_required(deep, "z", sc::type::number());
  int shape = sx_int("shape", 0, 2); // flat, deep, or nothing required inside
  if (shape < 2) sc::add_required(inner, "p", sc::type::number("an inner number"));
  else sc::add_property(inner, "p", sc::type::number("an inner number"));
  sc::add_property(inner, "r", sc::type::number());
  if (shape == 1) sc::add_required(inner, "q", deep);
  bool isdeep = shape == 1;
  auto required = [](json const &s) { return s.contains("required") ? s["required"] : json::array(); };
  sc::add_required(schema, "a", sc::type::number());
  sc::add_property(schema, "b", sc::type::number());
  sc::add_required(schema, "o", inner);
  static char const *keys[3] = {"a", "b", "o"};
  auto value = [&](std::string pre, json const &s) { // some of the keys, any numbers
    json v = json::object();
    for (auto k : {"a", "b"}) if (sx_bool(pre + k)) v[k] = sx_double(pre + "v" + k, -10, 10);
    if (sx_bool(pre + "o")) {
      v["o"] = json::object();
      for (auto k : {"p", "r"}) if (sx_bool(pre + "o" + k)) v["o"][k] = sx_double(pre + "vo" + k, -10, 10);
      if (isdeep && sx_bool(pre + "oq")) { v["o"]["q"] = json::object(); if (sx_bool(pre + "oqz")) v["o"]["q"]["z"] = sx_double(pre + "voqz", -10, 10); }
    }
    (void)s; (void)keys;
    return v;
  };
  json d = value("d", schema), u = value("u", schema);
  u["extra"] = "kept"; // not in the schema
  json const original = schema, user = u;
  sx_assert(!throws([&] { sc::add_defaults(schema, d); }), "defaults of known keys are accepted");
  std::function<json(json const &, json const &)> merged = [&](json const &x, json const &y) { // user x over defaults y
    json r = x;
    for (auto &e : y.items())
      if (!r.contains(e.key())) r[e.key()] = e.value();
      else if (r[e.key()].is_object() && e.value().is_object()) r[e.key()] = merged(r[e.key()], e.value());
    return r;
  };
  json got = u;
  sx_assert(!throws([&] { sc::apply_defaults(got, schema); }), "defaults are applied");
  same(got, merged(user, d), "user values kept, absent values from the defaults, nothing else");
  std::function<bool(json const &, json const &)> complete = [&](json const &v, json const &s) {
    for (auto &k : required(s)) if (!v.contains(k.get<std::string>())) return false;
    for (auto &e : s["properties"].items()) if (v.contains(e.key()) && e.value()["type"] == "object" && !complete(v[e.key()], e.value())) return false;
    return true;
  };
  bool good = complete(merged(user, d), original);
  sx_assert(throws([&] { sc::validate_json(got, schema); }) == !good, good ? "complete after the defaults" : "a missing required value is reported");
  // the schema shown to the user does not require what has a default
  json relaxed = schema;
  sc::remove_defaults_from_required(relaxed);
  std::function<bool(json const &, json const &, json const &)> enough = [&](json const &v, json const &y, json const &s) {
    for (auto &k : required(s)) { auto n = k.get<std::string>(); if (!v.contains(n) && !y.contains(n)) return false; }
    for (auto &e : s["properties"].items())
      if (v.contains(e.key()) && e.value()["type"] == "object" && !enough(v[e.key()], y.contains(e.key()) ? y[e.key()] : json::object(), e.value())) return false;
    return true;
  };
  bool suffices = enough(user, d, original);
  sx_assert(throws([&] { sc::validate_json(user, relaxed); }) == !suffices, suffices ? "keys with a default are optional for the user" : "keys without a default stay required");
  relaxed["required"] = schema["required"];
  std::function<void(json &, json const &)> restore = [&](json &r, json const &s) {
    if (s.contains("required")) r["required"] = s["required"];
    if (s.contains("properties")) for (auto &e : s["properties"].items()) restore(r["properties"][e.key()], e.value());
  };
  restore(relaxed, schema);
  same(relaxed, schema, "only the lists of required keys change");
  sx_reach("defaults");
  sx_reach(good ? "complete" : "incomplete");
}
static void misuse() {
  json schema = object_schema(), inner = object_schema();
  sc::add_required(inner, "p", sc::type::number());
  sc::add_required(schema, "a", sc::type::number());
  sc::add_property(schema, "o", inner);
  json s = schema, d = {{"a", 1}}, u = {{"a", 2}};
  int kind = sx_int("kind", 0, 9);
  bool t = false;
  switch (kind) {
  case 0: t = throws([&] { sc::add_defaults(s, {{"nokey", 1}}); }); break;
  case 1: t = throws([&] { sc::add_defaults(s, {{"o", {{"nokey", 1}}}}); }); break;
  case 2: t = throws([&] { sc::add_defaults(s, {{"o", 3}}); }); break;
  case 3: s.erase("properties"); t = throws([&] { sc::add_defaults(s, d); }); break;
  case 4: s["type"] = "array"; t = throws([&] { sc::add_defaults(s, d); }); break;
  case 5: t = throws([&] { sc::add_defaults(s, json::array({1})); }); break;
  case 6: s["properties"]["a"].erase("type"); t = throws([&] { sc::add_defaults(s, d); }); break;
  case 7: u["o"] = 5; t = throws([&] { sc::apply_defaults(u, s); }); break;
  case 8: s["type"] = "string"; t = throws([&] { sc::apply_defaults(u, s); }); break;
  case 9: s.erase("properties"); t = throws([&] { sc::apply_defaults(u, s); }); break;
  }
  sx_assert(t, "misuse of defaults is reported");
  sx_reach("misuse");
}
// ---- lists sorted by id
static void sorting() {
  static char const *ids[5] = {"b", "a", "B", "ab", ""};
  int n = sx_int("n", 0, sx_param("entries", 4));
  json j = json::object();
  bool hasnodes = sx_bool("nodes");
  if (hasnodes) j["nodes"] = json::object();
  json lists = json::object();
  std::vector<std::string> used;
  int lost = sx_int("lost", -1, n ? 0 : -1);
  for (int i = 0; i < n; ++i) {
    std::string id = ids[sx_int(S("id", i), 0, 4)];
    int place = sx_int(S("place", i), hasnodes ? 0 : 1, 2);
    json e = {{"id", id}, {"payload", sx_double(S("v", i), -1, 1)}, {"more", {{"id", "x"}}}};
    if (i == lost) e.erase("id"); else used.push_back(id);
    j[place == 0 ? "nodes" : "connections"][place == 2 ? "T2" : "T1"].push_back(e);
  }
  if (sx_bool("other")) j["other"] = json::array({{{"id", "z"}}, {{"id", "a"}}});
  json const before = j;
  std::sort(used.begin(), used.end());
  bool good = lost < 0 && std::adjacent_find(used.begin(), used.end()) == used.end();
  bool t = throws([&] { Aux::sort_json_vectors_by_id(j, "name"); });
  sx_assert(t == !good, good ? "lists with distinct ids are accepted" : "duplicate or missing ids are reported");
  if (!good) { sx_reach("bad ids"); return; }
  json want = before;
  for (auto c : {"nodes", "connections"})
    if (want.contains(c)) for (auto &l : want[c]) std::stable_sort(l.begin(), l.end(), [](json const &a, json const &b) { return a["id"].get<std::string>() < b["id"].get<std::string>(); });
  same(j, want, "lists sorted by id, nothing lost, nothing else changed");
  sx_assert(Aux::get_sorted_ids_of_json(before, "name") == used, "all ids, sorted");
  sx_reach("sorted");
}
// ---- component entries: what is required, what defaults supply, and the generated schemas agree
struct Type { char const *name; bool node, boundary; int values; std::vector<std::pair<std::string, json>> keys; };
static std::vector<Type> types() {
  std::vector<Type> t;
  std::vector<std::pair<std::string, json>> id = {{"id", "x"}}, power = {{"id", "x"}, {"B", 1.5}, {"G", -2.5}}, edge = {{"id", "x"}, {"from", "p"}, {"to", "q"}};
  auto plus = [](auto a, std::vector<std::pair<std::string, json>> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  for (auto n : {"Vphinode", "PQnode", "PVnode", "ExternalPowerplant"}) t.push_back({n, true, true, 2, power});
  t.push_back({"StochasticPQnode", true, true, 2, plus(power, {{"stability_parameter", 0.5}, {"cut_off_factor", 0.3}, {"sigma_P", 0.4}, {"theta_P", 3.0}, {"sigma_Q", 0.5}, {"theta_Q", 2.0}, {"number_of_stochastic_steps", 2}})});
  t.push_back({"Innode", true, false, 0, id});
  for (auto n : {"Source", "Sink", "ConstraintSink", "Pressureboundarynode"}) t.push_back({n, true, true, 1, id});
  for (auto n : {"Shortpipe", "Compressorstation", "Controlvalve"}) t.push_back({n, false, false, 0, edge});
  t.push_back({"Transmissionline", false, false, 0, plus(edge, {{"B", 1.5}, {"G", -2.5}})});
  t.push_back({"Pipe", false, false, 0, plus(edge, {{"length", val(1, "km")}, {"diameter", val(0.5)}, {"roughness", val(1e-5)}, {"balancelaw", "Isothermaleulerequation"}, {"desired_delta_x", 500.0}, {"scheme", "Implicitboxscheme"}})});
  t.push_back({"Gaspowerconnection", false, false, 0, plus(edge, {{"gas2power_q_coeff", 2.0}, {"power2gas_q_coeff", 3.0}})});
  return t;
}
static json points(int values, int count = 2) {
  json a = json::array();
  for (int i = 0; i < count; ++i) a.push_back(Kit::datum(10 * i, std::vector<double>(values, 1.0 + i)));
  return a;
}
static std::vector<std::unique_ptr<Network::Node>> ends(Model::Componentfactory::Componentfactory const &f, bool power) {
  std::vector<std::unique_ptr<Network::Node>> v;
  json p = {{"id", "p"}}, q = {{"id", "q"}};
  if (power) { q["B"] = 1; q["G"] = 1; q["boundary_values"] = {{"id", "q"}, {"data", points(2)}}; }
  v.push_back(f.node_type_map.at("Innode")->make_instance(p));
  v.push_back(f.node_type_map.at(power ? "ExternalPowerplant" : "Innode")->make_instance(q));
  return v;
}
static bool accepted(Model::Componentfactory::Componentfactory const &f, Type const &t, json &e) {
  return !throws([&] {
    if (t.node) { auto n = f.node_type_map.at(t.name)->make_instance(e); sx_assert(n->get_id() == e["id"].get<std::string>(), "component under its id"); }
    else { auto v = ends(f, t.name == std::string("Gaspowerconnection")); auto c = f.edge_type_map.at(t.name)->make_instance(e, v); sx_assert(c->get_id() == e["id"].get<std::string>(), "component under its id"); }
  });
}
static bool shown(json const &schema, Type const &t, json const &e) { // does the generated schema accept a document with this entry
  json doc = {{"nodes", json::object()}, {"connections", json::object()}};
  doc[t.node ? "nodes" : "connections"][t.name] = json::array({e});
  return !throws([&] { sc::validate_json(doc, schema); });
}
static void components() {
  auto all = types();
  Type const &t = all[sx_int("type", 0, int(all.size()) - 1)];
  int n = int(t.keys.size()), missing = sx_int("missing", -1, n - 1), given = sx_int("given", -1, n - 1), wrong = sx_int("wrong", -1, n - 1);
  if (wrong >= 0 && (wrong == missing || given >= 0)) return;
  bool noboundary = t.boundary && sx_bool("noboundary");
  json e = json::object(), dflt = json::object();
  for (int i = 0; i < n; ++i) {
    json v = t.keys[i].second;
    bool free = v.is_number() && t.keys[i].first != "desired_delta_x" && t.keys[i].first != "number_of_stochastic_steps";
    json d = v;
    if (free) { v = sx_double("user" + t.keys[i].first, 0.1, 1.5); d = 1.75; }
    else if (v.is_object()) d = val(2, "km");
    else if (i == 0) d = "other";
    if (i == wrong) v = v.is_string() ? json(5) : v.is_object() ? json("1 km") : json("text");
    if (i != missing) e[t.keys[i].first] = v;
    if (i == given) dflt[t.keys[i].first] = d;
  }
  Model::Componentfactory::Full_factory f(json{{t.name, dflt}, {"Othertype", {{"B", 7}}}});
  json entry = e;
  if (t.boundary && !noboundary) entry["boundary_values"] = {{"id", "x"}, {"data", points(t.values)}};
  json const before = entry;
  bool keys = (missing < 0 || missing == given) && wrong < 0, good = keys && !noboundary;
  bool ok = accepted(f, t, entry);
  sx_assert(ok == good, good ? "a complete entry is accepted" : "an incomplete or wrong entry is rejected");
  if (ok) {
    json want = before;
    if (missing >= 0) want[t.keys[missing].first] = dflt[t.keys[missing].first];
    same(entry, want, "user values win over defaults, absent values are supplied");
    sx_reach(missing >= 0 ? "supplied" : "complete entry");
  } else sx_reach("bad entry");
  // the schema written for the user agrees (boundary values are in another document)
  sx_assert(shown(f.get_topology_schema(false, false), t, e) == keys, keys ? "the generated schema accepts what the program accepts" : "the generated schema rejects what the program rejects");
  sx_assert(!shown(f.get_topology_schema(false, false), Type{"Nosuchtype", t.node, false, 0, {}}, e), "unknown types are rejected by the schema");
}
static void boundaries() {
  auto all = types();
  Type const &t = all[sx_int("type", 0, int(all.size()) - 1)];
  if (!t.boundary) return;
  int values = sx_int("values", 0, 4), damage = sx_int("damage", 0, 5);
  if (damage && values != t.values) return;
  Model::Componentfactory::Full_factory f(json::object());
  json e = json::object();
  for (auto &k : t.keys) e[k.first] = k.second;
  json b = {{"id", "x"}, {"data", points(values)}};
  if (damage == 1) b.erase("data");
  if (damage == 2) b["data"] = 5;
  if (damage == 3) b["data"][1]["values"] = "text";
  if (damage == 4) b["data"][0]["time"] = "zero";
  if (damage == 5) b.erase("id");
  e["boundary_values"] = b;
  bool good = values == t.values && !damage;
  sx_assert(accepted(f, t, e) == good, good ? "boundary values of the right size are accepted" : "wrong boundary values are rejected");
  sx_assert(shown(f.get_boundary_schema(false), t, b) == good, good ? "the boundary schema accepts what the program accepts" : "the boundary schema rejects what the program rejects");
  sx_reach(good ? "boundary" : "bad boundary");
}
// initial and control schemas
static void shapes() {
  auto all = types();
  Type const &t = all[sx_int("type", 0, int(all.size()) - 1)];
  std::string name = t.name;
  bool power = t.node && t.values == 2, control = name == "Compressorstation" || name == "Controlvalve";
  bool state = power || name == "Shortpipe" || name == "Compressorstation" || name == "Controlvalve" || name == "Pipe" || name == "Gaspowerconnection";
  bool pipe = name == "Pipe";
  bool two = name == "Shortpipe" || name == "Compressorstation" || name == "Controlvalve"; // a state at either end
  int count = sx_int("points", 0, 3), values = sx_int("values", 0, 3), base = sx_int("base", 0, 1);
  Model::Componentfactory::Full_factory f(json::object());
  json e = {{"id", "x"}, {"data", json::array()}};
  for (int i = 0; i < count; ++i) e["data"].push_back({{"x", base + i}, {"values", std::vector<double>(values, 1.0)}});
  bool good = state && values == 2 && base == 0 && (pipe ? count >= 1 : count == (two ? 2 : 1));
  bool ok = shown(f.get_initial_schema(false), t, e);
  sx_assert(ok == good, good ? "the initial schema accepts the needed points with two values" : "the initial schema rejects other shapes");
  json c = {{"id", "x"}, {"data", points(values)}};
  sx_assert(shown(f.get_control_schema(false), t, c) == (control && values == 1), "the control schema accepts one value per time for controlled components");
  sx_reach(ok ? "initial shape" : "other shape");
}
static void factories() {
  std::vector<std::string> want[2], gas[2], power[2];
  for (auto &t : types()) {
    want[!t.node].push_back(t.name);
    std::string n = t.name;
    if (n == "ExternalPowerplant" || n == "Gaspowerconnection") continue;
    (t.node ? t.values == 2 : n == "Transmissionline") ? power[!t.node].push_back(n) : gas[!t.node].push_back(n);
  }
  auto names = [](Model::Componentfactory::Componentfactory const &f, int edge) { std::vector<std::string> v; if (edge) for (auto &e : f.edge_type_map) v.push_back(e.first); else for (auto &e : f.node_type_map) v.push_back(e.first); return v; };
  Model::Componentfactory::Full_factory f(json::object());
  Model::Componentfactory::Gas_factory g(json::object());
  Model::Componentfactory::Power_factory p(json::object());
  for (int i = 0; i < 2; ++i) {
    for (auto v : {&want[i], &gas[i], &power[i]}) std::sort(v->begin(), v->end());
    for (auto &x : want[i]) { auto n = names(f, i); sx_assert(std::find(n.begin(), n.end(), x) != n.end(), "every component type is known"); }
    for (auto &x : names(g, i)) sx_assert(std::find(power[i].begin(), power[i].end(), x) == power[i].end(), "gas factory has gas components only");
    for (auto &x : names(p, i)) sx_assert(std::find(gas[i].begin(), gas[i].end(), x) == gas[i].end(), "power factory has power components only");
  }
  sx_reach("factories");
}
// ---- files
static std::string slurp(fs::path const &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spill(fs::path const &p, std::string const &s) { std::ofstream f(p, std::ios::binary); f << s; }
static std::map<std::string, std::string> tree(fs::path const &d) {
  std::map<std::string, std::string> m;
  for (auto &e : fs::recursive_directory_iterator(d)) m[e.path().lexically_relative(d).string()] = e.is_directory() ? "directory" : "file " + slurp(e.path());
  return m;
}
static void insertion() {
  static char const *names[5] = {"boundary", "control", "initial", "topology", "problem_data"};
  int files = sx_int("files", 0, 31), schemas = sx_int("schemas", 0, 31), problem = sx_int("problem", 0, 2);
  bool keyed = sx_bool("keyed"), twice = keyed;
  if (problem && files) return;
  fs::path dir = fs::current_path() / ("ins" + std::to_string(getpid()));
  fs::remove_all(dir);
  fs::create_directories(dir / "schemas");
  if (problem == 0) fs::create_directories(dir / "problem");
  if (problem == 2) spill(dir / "problem", "a file");
  ordered_json doc[5];
  for (int i = 0; i < 5; ++i) {
    if (schemas >> i & 1) spill(dir / "schemas" / (std::string(names[i]) + "_schema.json"), "{}");
    doc[i]["zeta"] = {3, 2, 1};
    if (keyed && i == 1) doc[i]["$schema"] = "old.json";
    doc[i]["alpha"] = {{"y", i}, {"x", nullptr}};
    if (files >> i & 1) spill(dir / "problem" / (std::string(names[i]) + ".json"), doc[i].dump());
  }
  if (problem == 0) spill(dir / "problem" / "unrelated.json", "precious");
  auto before = tree(dir);
  bool t = throws([&] { for (int k = 0; k < (twice ? 2 : 1); ++k) Aux::schema::insert_schema_key_into_data_jsons(dir); });
  sx_assert(t == (problem == 2), problem == 2 ? "a file instead of the directory is reported" : "keys are inserted");
  auto after = tree(dir);
  size_t created = problem == 1;
  for (int i = 0; i < 5 && !t; ++i) {
    std::string n = "problem/" + std::string(names[i]) + ".json";
    if (!(schemas >> i & 1)) { sx_assert(after.count(n) == before.count(n) && (!before.count(n) || after[n] == before[n]), "files without a schema are left alone"); continue; }
    if (!before.count(n)) ++created;
    auto got = ordered_json::parse(after[n].substr(std::min<size_t>(5, after[n].size())), nullptr, false);
    sx_assert(!got.is_discarded() && got.is_object() && got.size() >= 1, "still a json document");
    if (got.is_discarded() || !got.is_object()) continue;
    sx_assert(got.begin().key() == "$schema", "the schema key comes first");
    bool own = keyed && i == 1 && before.count(n); // a document that names its schema already
    if (!own) sx_assert(got["$schema"] == "../schemas/" + std::string(names[i]) + "_schema.json", "the schema key names the schema");
    got.erase("$schema");
    ordered_json want = before.count(n) ? doc[i] : ordered_json::object();
    want.erase("$schema");
    sx_assert(got.dump() == want.dump(), "all other entries unchanged, in their order");
  }
  sx_assert(after.size() == before.size() + created, "no other file appears");
  for (auto &b : before) if (b.first.compare(0, 8, "problem/") || b.first == "problem/unrelated.json") sx_assert(after.count(b.first) && after[b.first] == b.second, "other files are left alone");
  fs::remove_all(dir);
  sx_reach("inserted");
}
static void generation() {
  int state = sx_int("state", 0, 4), data = sx_int("data", 0, 3);
  fs::path dir = fs::current_path() / ("gen" + std::to_string(getpid())), sd = dir / "schemas";
  fs::remove_all(dir);
  fs::create_directories(dir / "problem");
  if (state) fs::create_directories(sd);
  if (state == 2) spill(sd / "topology_schema.json", "old");
  if (state == 3) spill(sd / "diary.txt", "precious");
  if (state == 4) fs::create_directories(sd / "topology_schema.json.d");
  json d = {{"Pipe", {{"scheme", "Implicitboxscheme"}, {"desired_delta_x", 500}}}, {"PQnode", {{"B", 2.5}}}};
  json pd = {{"simulation_settings", {{"use_simplified_newton", true}, {"maximal_number_of_newton_iterations", 10}, {"tolerance", 1e-8}, {"retries", 0}, {"start_time", 0}, {"end_time", 10}, {"desired_delta_t", 1}}},
             {"problem_data", {{"topology_json", "topology.json"}, {"boundary_json", "boundary.json"}}}};
  if (data == 1) pd["problem_data"]["defaults"] = d;
  if (data) spill(dir / "problem" / "problem_data.json", data == 3 ? "{}" : pd.dump());
  auto before = tree(dir);
  bool t = throws([&] { Aux::schema::make_full_factory_schemas(dir); });
  auto after = tree(dir);
  sx_assert(t == (state > 2), state > 2 ? "a directory with other content is refused" : "schemas are written");
  if (t) sx_assert(after == before, "nothing is written into a directory with other content");
  else {
    Model::Componentfactory::Full_factory f(data == 1 ? d : json::object());
    auto get = [&](std::string n) { return json::parse(slurp(sd / (n + "_schema.json")), nullptr, false); };
    sx_assert(get("topology") == f.get_topology_schema(false, false), "topology schema of the components and defaults");
    sx_assert(get("boundary") == f.get_boundary_schema(false), "boundary schema of the components and defaults");
    sx_assert(get("initial") == f.get_initial_schema(false), "initial schema of the components and defaults");
    sx_assert(get("control") == f.get_control_schema(false), "control schema of the components and defaults");
    json p = get("problem_data");
    sx_assert(p.is_object() && !throws([&] { sc::validate_json(pd, p); }), "the problem data schema accepts problem data");
    for (auto k : {"simulation_settings", "problem_data"}) { json q = pd; q.erase(k); sx_assert(throws([&] { sc::validate_json(q, p); }), "the problem data schema requires its parts"); }
    sx_assert(after.size() == before.size() + 5 + !state - (state == 2), "five schemas and nothing else");
  }
  fs::remove_all(dir);
  sx_reach(t ? "refused" : "generated");
}
void harness() {
  switch (sx_int("part", 0, 8)) {
  case 0: defaults(); break;
  case 1: misuse(); break;
  case 2: sorting(); break;
  case 3: components(); break;
  case 4: boundaries(); break;
  case 5: shapes(); break;
  case 6: factories(); break;
  case 7: insertion(); break;
  case 8: generation(); break;
  }
}
