// C35: the editing programs change exactly what they are for, or fail and leave every file as it was.
#include "tools.hpp"
TOOL(change_inflow);
TOOL(increase_pressure);
TOOL(include_seed_in_boundaryvalues);
TOOL(remove_seed_from_boundaryvalues);
TOOL(move_to_category);
TOOL(normalize_jsons);
TOOL(insert_positions);
TOOL(construct_gaspowerconnection);
TOOL(stringify_value_json);
typedef nlohmann::ordered_json ojson;
static ojson parsed(fs::path p) {
  ojson j = ojson::parse(slurp(p), nullptr, false);
  sx_assert(!j.is_discarded(), "a complete file");
  return j;
}
// equal in structure, order and numbers
static void same(ojson const &a, ojson const &b, std::string where) {
  if (a.is_number_float() || b.is_number_float()) {
    sx_assert(a.is_number() && b.is_number(), where + ": a number");
    if (a.is_number() && b.is_number()) sx_eq(a.get<double>(), b.get<double>(), where);
  } else if (a.is_structured() && a.type() == b.type()) {
    sx_assert(a.size() == b.size(), where + ": as many entries");
    if (a.size() != b.size()) return;
    auto i = a.begin();
    auto k = b.begin();
    for (; i != a.end(); ++i, ++k) {
      if (a.is_object()) sx_assert(i.key() == k.key(), where + ": the same keys in order");
      same(*i, *k, where);
    }
  } else
    sx_assert(a == b, where);
}
static ojson otop(std::string id) { return ojson{{"id", id}}; }
static ojson odata(std::string id, std::vector<std::pair<ojson, std::vector<double>>> v, char const *at = "time") {
  ojson d = ojson::array();
  for (auto &p : v) d.push_back({{at, p.first}, {"values", p.second}});
  return ojson{{"id", id}, {"data", d}};
}
static int refused(Tool t, std::vector<std::string> args) { // and nothing changes
  Tree before = tree(".");
  int rc = use(t, args);
  sx_assert(rc != 0, "refused");
  sx_assert(tree(".") == before, "nothing changes");
  return rc;
}
static void inflow() {
  int n = sx_int("sources", 0, sx_param("sources", 3)), wrong = sx_int("wrong", 0, 4);
  double total = sx_double("total", -500, 500), sum = 0;
  ojson b;
  b["$schema"] = "x";
  b["nodes"]["Sink"] = ojson::array({odata("k", {{0, {sx_double("sink", -9, 9)}}, {1, {2.0}}})});
  if (n) b["nodes"]["Source"] = ojson::array();
  std::vector<double> q;
  for (int i = 0; i < n; ++i) {
    q.push_back(sx_double(S("q", i), -100, 100));
    b["nodes"]["Source"].push_back(odata(S("s", i), {{-1.5, {q[i]}}, {sx_double(S("t", i), 1, 10), {wrong == 1 && i == n - 1 ? q[i] + sx_double("jump", 1e-3, 5) : q[i]}}}));
    sum += q[i];
  }
  b["connections"] = ojson::object();
  if (wrong == 2 && n) b["nodes"]["Source"][n - 1]["data"][0]["values"][0] = "x";
  spill("problem/boundary.json", wrong == 4 ? b.dump().substr(0, 30) : b.dump());
  if (wrong == 3) { refused(tool_change_inflow, {}); fs::remove("problem/boundary.json"); }
  if (wrong || !n) { refused(tool_change_inflow, {text(total)}); sx_reach("inflow refused"); return; }
  Tree before = tree(".");
  int rc = use(tool_change_inflow, {text(total)});
  if (sum == 0) { // nothing to scale
    sx_assert(rc != 0 && tree(".") == before, "no inflow to scale");
    sx_reach("no inflow");
    return;
  }
  sx_assert(rc == 0, "succeeds");
  ojson got = parsed("problem/boundary.json");
  double all = 0;
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 2; ++k) {
      ojson &v = got["nodes"]["Source"][i]["data"][k]["values"];
      double now = v[0].is_number() ? v[0].get<double>() : (sx_fail("an inflow is a number"), 0.0);
      sx_eq(now * sum, q[i] * total, "scaled inflow");
      if (k == 0) all += now;
      v[0] = q[i]; // the rest is unchanged
    }
  sx_eq(all, total, "total inflow");
  same(got, b, "everything else");
  sx_reach("inflow");
}
static void pressure() {
  static char const *types[] = {"Pipe", "Controlvalve", "Compressorstation", "Shortpipe", "Gaspowerconnection"};
  int which = sx_int("type", 0, 4), wrong = sx_int("wrong", 0, 4);
  double by = sx_double("by", -60, 60);
  ojson b, want;
  if (wrong != 4) b["connections"] = ojson::object();
  b["nodes"]["PQnode"] = ojson::array({odata("n", {{0, {sx_double("V", 0, 2), 0.5}}}, "x")});
  auto put = [&](char const *ty, std::string id, double p, double q) { b["connections"][ty].push_back(odata(id, {{-2.5, {p, q}}, {sx_double("x" + id, 1, 9), {p + 1, q}}, {9.5, {p - 0.25, q + 1}}, {10, {p, 0}}}, "x")); };
  if (wrong != 4) {
    put(types[which], "a", sx_double("pa", 1, 90), sx_double("qa", -90, 90));
    put(types[(which + 1) % 5], "b", sx_double("pb", 1, 90), sx_double("qb", -90, 90));
    put(types[which], "c", sx_double("pc", 1, 90), sx_double("qc", -90, 90));
  }
  want = b;
  if (wrong != 4) for (auto &ty : want["connections"]) for (auto &c : ty) for (auto &d : c["data"]) d["values"][0] = d["values"][0].get<double>() + by;
  if (wrong == 1) b["connections"][types[which]][1]["data"][1]["values"][0] = "x";
  spill("dir/problem/initial.json", wrong == 3 ? b.dump().substr(0, 50) : b.dump());
  if (wrong == 2) { refused(tool_increase_pressure, {"dir"}); refused(tool_increase_pressure, {"nowhere", text(by)}); }
  if (wrong == 1 || wrong == 3) { refused(tool_increase_pressure, {"dir", text(by)}); sx_reach("pressure refused"); return; }
  int rc = use(tool_increase_pressure, {"dir", text(by)});
  sx_assert(rc == 0, "succeeds");
  same(parsed("dir/problem/initial.json"), want, "pressures");
  sx_reach("pressure");
}
// seeds: taken over from results, removed
static void seeds() {
  int wrong = sx_int("wrong", 0, 5), n = sx_int("nodes", 0, sx_param("nodes", 3)), order = sx_int("order", 0, 1), had = sx_int("had", 0, 2);
  ojson b, bare, res, want;
  b["nodes"]["PQnode"] = ojson::array({odata("x", {{0, {sx_double("P", -9, 9), 1.5}}})});
  if (n || wrong == 5) { b["nodes"]["StochasticPQnode"] = ojson::array(); res["nodes"]["StochasticPQnode"] = ojson::array(); }
  std::vector<ojson> seed;
  for (int i = 0; i < n; ++i) {
    ojson s = ojson::array();
    for (int k = 0; k < 8; ++k) s.push_back(sx_int(S("seed", i, k), 0, i == 0 && k == 0 ? 2 : 0) + 4294967293u - 1000 * i - k);
    seed.push_back(s);
    ojson c = odata(S("n", i), {{0, {sx_double(S("P", i), -9, 9), sx_double(S("Q", i), -9, 9)}}});
    if (had == 1 || (had == 2 && i % 2)) c["seed"] = {1, 2, 3};
    b["nodes"]["StochasticPQnode"].push_back(c);
  }
  b["connections"]["Sometype"] = ojson::array({odata("y", {{0, {1.0}}})});
  for (int i = 0; i < n; ++i) {
    int k = order ? n - 1 - i : i;
    ojson c = otop(S("n", k));
    c["seed"] = seed[k];
    c["data"] = ojson::array();
    res["nodes"]["StochasticPQnode"].push_back(c);
  }
  bare = want = b;
  for (int i = 0; i < n; ++i) { bare["nodes"]["StochasticPQnode"][i].erase("seed"); want["nodes"]["StochasticPQnode"][i]["seed"] = seed[i]; }
  if (wrong == 1 && n) res["nodes"]["StochasticPQnode"][n - 1].erase("seed");
  if (wrong == 2 && n) res["nodes"]["StochasticPQnode"][n - 1]["id"] = "other";
  if (wrong == 3) b["nodes"].erase("StochasticPQnode");
  spill("d/problem/boundary.json", b.dump());
  spill("states.json", wrong == 4 ? res.dump().substr(0, res.dump().size() - 1) : res.dump());
  std::string results = res.dump();
  bool bad = wrong && wrong != 5 && (n || wrong == 4);
  if (bad) {
    refused(tool_include_seed_in_boundaryvalues, {"d", "states.json"});
    sx_reach("seeds refused");
    return;
  }
  if (wrong == 3) return; // no stochastic nodes at all
  refused(tool_include_seed_in_boundaryvalues, {"d"});
  refused(tool_include_seed_in_boundaryvalues, {"d", "nowhere.json"});
  refused(tool_remove_seed_from_boundaryvalues, {"e"});
  sx_assert(use(tool_include_seed_in_boundaryvalues, {"d", "states.json"}) == 0, "succeeds");
  ojson got = parsed("d/problem/boundary.json");
  same(got, want, "seeds");
  for (int i = 0; i < n; ++i) sx_assert(got["nodes"]["StochasticPQnode"][i]["seed"] == seed[i], "the whole seed");
  if (wrong != 4) sx_assert(slurp("states.json") == results, "the results are left alone");
  sx_assert(use(tool_remove_seed_from_boundaryvalues, {"d"}) == 0, "succeeds");
  same(parsed("d/problem/boundary.json"), bare, "seeds removed");
  sx_reach("seeds");
}
static char const *names[4] = {"topology.json", "boundary.json", "initial.json", "control.json"};
static void moving() {
  int in = sx_int("in", 0, 15), n = sx_int("components", 1, sx_param("components", 3)), k = sx_int("which", 0, n - 1);
  bool target = sx_bool("target"), cls = sx_bool("connection"), same_id = sx_bool("clash");
  auto name = [](int i) { return std::string(1, "mcxbzay"[i]) + "1"; }; // in no order
  std::string from = "Oldtype", to = "Newtype", c = cls ? "connections" : "nodes", o = cls ? "nodes" : "connections";
  ojson was[4], want[4];
  for (int f = 0; f < 4; ++f) {
    ojson &j = was[f];
    j["$schema"] = "../schemas/x.json";
    j[o] = ojson::object();
    if (target) j[c][to] = ojson::array({odata("t", {{0, {sx_double(S("t", f), -9, 9)}}})});
    j[c][from] = ojson::array();
    for (int i = 0; i < n; ++i) if (i != k || (in >> f & 1)) j[c][from].push_back(odata(name(i), {{sx_double(S("time", f, i), -9, 9), {sx_double(S("v", f, i), -9, 9), 2.0}}}));
    j[c]["Third"] = ojson::array({odata(same_id ? name(k) : std::string("q"), {{0, {3.5}}})});
    want[f] = j;
    if (in >> f & 1) {
      ojson moved = j[c][from][k];
      want[f][c][from].erase(k);
      want[f][c][to].push_back(moved);
    }
    spill(names[f], j.dump());
  }
  refused(tool_move_to_category, {from, to});
  Tree before = tree(".");
  int rc = use(tool_move_to_category, {from, to, name(k)});
  sx_assert(rc == 0, "succeeds");
  Tree after = tree(".");
  sx_assert(after.size() == 4, "no other files");
  for (int f = 0; f < 4; ++f) {
    if (in >> f & 1) same(parsed(names[f]), want[f], "moved component"); else sx_assert(after[names[f]] == before[names[f]], "a file without the component stays");
  }
  sx_reach("moved");
}
static void normalizing() {
  ojson was[4];
  for (int f = 0; f < 4; ++f) {
    was[f] = {{"z", ojson::array({sx_double(S("a", f), -9, 9), 1, -7, 4294967295u, true, nullptr, "text \"\\ \u00fc", ojson::object(), ojson::array()})}, {"a", {{"y", 2.5}, {"b", ojson::array({ojson::array({1e-300}), ojson::array()})}}}, {"n", 18446744073709551615ull}};
    spill(names[f], was[f].dump(f));
  }
  spill("other.json", "[1,   2]");
  sx_assert(use(tool_normalize_jsons, {}) == 0, "succeeds");
  for (int f = 0; f < 4; ++f) { ojson g = parsed(names[f]); same(g, was[f], "contents"); sx_assert(slurp(names[f]) == was[f].dump(1, '\t'), "one form"); }
  sx_assert(slurp("other.json") == "[1,   2]" && tree(".").size() == 5, "no other files");
  Tree once = tree(".");
  sx_assert(use(tool_normalize_jsons, {}) == 0 && tree(".") == once, "normal is normal");
  sx_reach("normalized");
}
static void positions() {
  int n = sx_int("components", 0, sx_param("components", 3)), perm = sx_int("order", 0, 2), extra = sx_int("extra", 0, 3), old = sx_int("old", 0, 1);
  ojson top, pos;
  top["$schema"] = "s";
  top["nodes"]["Innode"] = ojson::array();
  top["connections"]["Pipe"] = ojson::array({ojson{{"id", "p"}, {"from", "n0"}, {"to", "n1"}}});
  pos["nodes"]["Innode"] = ojson::array();
  if (extra == 1) pos["nodes"]["Sink"] = ojson::array({ojson{{"id", "k"}, {"x", 1}, {"y", 2}}});
  std::vector<double> x, y;
  for (int i = 0; i < n; ++i) {
    x.push_back(sx_double(S("x", i), -9, 9)); y.push_back(sx_double(S("y", i), -9, 9));
    ojson c = otop(S("n", i));
    if (old) { c["y"] = 1; c["x"] = 7.5; }
    c["length"] = sx_double(S("l", i), 1, 9);
    top["nodes"]["Innode"].push_back(c);
    pos["nodes"]["Innode"].push_back(ojson{{"id", S("n", i)}, {"color", "red"}, {"x", x[i]}, {"y", y[i]}});
  }
  ojson want = top;
  for (int i = 0; i < n; ++i) { want["nodes"]["Innode"][i]["x"] = x[i]; want["nodes"]["Innode"][i]["y"] = y[i]; }
  if (extra == 2) pos["nodes"]["Innode"].push_back(ojson{{"id", sx_bool("before") ? "m" : "o"}, {"x", 3}, {"y", 4}});
  if (extra == 3 && n) { // a component without a position, before another one with
    pos["nodes"]["Innode"].erase(0);
    if (n == 1) pos["nodes"]["Innode"].push_back(ojson{{"id", "zz"}, {"x", 1}, {"y", 1}});
  }
  for (auto *j : {&top, &pos}) { auto &l = (*j)["nodes"]["Innode"]; if (perm == 1) std::reverse(l.begin(), l.end()); if (perm == 2 && l.size() > 1) std::rotate(l.begin(), l.begin() + 1, l.end()); }
  spill("t.json", top.dump()); spill("p.json", pos.dump());
  refused(tool_insert_positions, {"t.json", "p.json"});
  if (extra == 3 && n) { refused(tool_insert_positions, {"t.json", "p.json", "o.json"}); sx_reach("positions refused"); return; }
  Tree before = tree(".");
  sx_assert(use(tool_insert_positions, {"t.json", "p.json", "o.json"}) == 0, "succeeds");
  Tree after = tree(".");
  after.erase("o.json");
  sx_assert(after == before, "the inputs are left alone");
  same(parsed("o.json"), want, "positions");
  sx_reach("positions");
}
static void connecting() {
  int n = sx_int("there", 1, 2), exists = sx_int("exists", 0, 2);
  bool boundary = sx_bool("boundary");
  std::string id = "g2p_7_ep";
  ojson was[4], want[4];
  for (int f = 0; f < 4; ++f) {
    ojson &j = was[f];
    j["nodes"]["Innode"] = ojson::array({otop("node_7")});
    j["connections"]["Pipe"] = ojson::array();
    if (f == 1 && !boundary) { want[f] = j; spill(names[f], j.dump()); continue; }
    auto &l = j["connections"]["Gaspowerconnection"] = ojson::array();
    for (int i = 0; i < n; ++i) {
      std::string me = exists && i == exists - 1 ? id : S("g", i);
      l.push_back(f == 0 ? ojson{{"id", me}, {"from", S("n", i)}, {"to", "e"}, {"gas2power_q_coeff", sx_double(S("c", i), 1, 9)}} : odata(me, {{0, {sx_double(S("v", f, i), -9, 9)}}}));
    }
    want[f] = j;
    ojson fresh = l[0];
    fresh["id"] = id;
    if (f == 0) { fresh["from"] = "node_7"; fresh["to"] = "ep"; }
    auto &w = want[f]["connections"]["Gaspowerconnection"];
    w.insert(w.begin(), fresh);
    spill(names[f], j.dump());
  }
  for (int f = 0; f < 4; ++f) spill(names[f], was[f].dump());
  refused(tool_construct_gaspowerconnection, {"7"});
  if (exists && exists <= n) { refused(tool_construct_gaspowerconnection, {"7", "ep"}); sx_reach("connected before"); return; }
  sx_assert(use(tool_construct_gaspowerconnection, {"7", "ep"}) == 0, "succeeds");
  for (int f = 0; f < 4; ++f) same(parsed(names[f]), want[f], "new connection");
  sx_reach("connected");
}
static void stringifying() {
  int n = sx_int("values", 1, 3), there = sx_int("there", 0, 6), wrong = sx_int("wrong", 0, 3);
  bool cls = sx_bool("connection");
  ojson j, want;
  for (int c = 0; c < 2; ++c) {
    std::vector<double> v;
    for (int i = 0; i < n; ++i) v.push_back(sx_double(S("v", c, i), -1e6, 1e6));
    j[cls ? "connections" : "nodes"]["Type"].push_back(odata(S("c", c), {{0, v}, {1.5, {2.0, sx_double(S("w", c), 1e-9, 1e-3), 0.1}}}));
  }
  j["other"] = {1, 2.5};
  want = j;
  if (wrong == 1) j[cls ? "connections" : "nodes"]["Type"][1]["data"][1]["values"][1] = "x";
  spill("in.json", wrong == 2 ? j.dump().substr(0, 60) : j.dump());
  char const *answers[6] = {"y", "yes", "n", "no", "perhaps", ""};
  if (there) spill("out.json", "old contents");
  Tree before = tree(".");
  if (wrong == 3) { refused(tool_stringify_value_json, {"in.json"}); return; }
  std::istringstream answer(there ? answers[there - 1] : "y");
  auto *old = std::cin.rdbuf(answer.rdbuf());
  std::cin.clear();
  int rc = use(tool_stringify_value_json, {"in.json", "out.json"});
  std::cin.rdbuf(old);
  if (there > 2) {
    sx_assert((rc == 0) == (there <= 4), "the answer decides");
    sx_assert(tree(".") == before, "nothing is overwritten without consent");
    sx_reach("kept");
    return;
  }
  if (wrong) {
    sx_assert(rc != 0 && tree(".") == before, "unsuitable files are refused");
    sx_reach("unsuitable");
    return;
  }
  sx_assert(rc == 0, "succeeds");
  sx_assert(slurp("in.json") == j.dump(), "the input is left alone");
  ojson got = parsed("out.json");
  for (auto &c : got[cls ? "connections" : "nodes"]["Type"]) for (auto &d : c["data"]) for (auto &v : d["values"]) {
    sx_assert(v.is_string(), "a string");
    std::string s = v.get<std::string>();
    char *end = nullptr;
    double x = std::strtod(s.c_str(), &end);
    sx_assert(!s.empty() && *end == 0, "the string is a number");
    v = x;
  }
  for (int c = 0; c < 2; ++c) // numbers of nine decimals
    for (int d = 0; d < 2; ++d) {
      auto &w = want[cls ? "connections" : "nodes"]["Type"][c]["data"][d]["values"], &g = got[cls ? "connections" : "nodes"]["Type"][c]["data"][d]["values"];
      sx_assert(w.size() == g.size(), "as many numbers");
      for (size_t i = 0; i < w.size(); ++i) {
        sx_le(std::fabs(w[i].get<double>() - g[i].get<double>()), 1e-9, "the same number");
        g[i] = w[i];
      }
    }
  same(got, want, "everything else");
  sx_reach("strings");
}
void harness() {
  sx_private_dir();
  switch (sx_int("part", sx_param("from", 0), sx_param("to", 7))) {
  case 0: inflow(); break;
  case 1: pressure(); break;
  case 2: seeds(); break;
  case 3: moving(); break;
  case 4: normalizing(); break;
  case 5: positions(); break;
  case 6: connecting(); break;
  case 7: stringifying(); break;
  }
}
