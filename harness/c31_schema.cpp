// C31: the schema commands of the program.
#include "smallnet.hpp"
#include "schema_validation.hpp"
#include <nlohmann/json-schema.hpp>
static char const *const types[5] = {"boundary", "control", "initial", "problem_data", "topology"};
static bool accepts(json const &schema, json const &data) {
  struct Handler : nlohmann::json_schema::error_handler {
    void error(json::json_pointer const &, json const &instance, std::string const &message) override {
      if (getenv("SX_SHOW")) fprintf(stderr, "rejected %s: %s\n", instance.dump().c_str(), message.c_str());
      throw std::invalid_argument("rejected"); }
  } h;
  nlohmann::json_schema::json_validator v;
  v.set_root_schema(schema);
  try { v.validate(data, h); return true; } catch (std::invalid_argument const &) { return false; }
}
// the plain problem with arbitrary numbers
static void numbers(Problem &r, bool boundaries_only = false) {
  r.p0 = sx_double("p0", 40, 50); r.p1 = sx_double("p1", 70, 80);
  if (boundaries_only) return;
  r.start = sx_double("start", -10, 10);
  r.dt = sx_double("dt", 0.5, 2);
  r.q0 = sx_double("q0", -50, 50); r.q1 = sx_double("q1", -50, 50);
  r.u0 = sx_double("u0", 0, 5); r.u1 = sx_double("u1", 0, 5);
}
static void pipes(Problem &r) { // components with parameters, defaults for some of them
  r.files["topology.json"]["connections"]["Pipe"].push_back({{"id", "pipe"}, {"from", "m"}, {"to", "k"}, {"length", {{"value", 10}, {"unit", "km"}}}, {"diameter", {{"value", 1}, {"unit", "m"}}}, {"roughness", {{"value", 0.1}, {"unit", "mm"}}}, {"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}, {"desired_delta_x", 20000}});
}
static std::string schema_name(int t) { return std::string(types[t]) + "_schema.json"; }
static json schema(Run const &r, int t) {
  json j = json::parse(slurp(r.dir / "schemas" / schema_name(t)), nullptr, false);
  sx_assert(!j.is_discarded() && j.is_object(), "a schema is a complete JSON document");
  return j;
}
static int command(Run &r, std::string what) { return call({"schema", what, r.dir.string()}); }
// the schemas as they have to be
static void all_schemas(Run const &r) {
  for (int t = 0; t < 5; ++t) sx_assert(fs::is_regular_file(r.dir / "schemas" / schema_name(t)), "every schema is written");
}
static void make() {
  Problem r("mak");
  r.compressor = sx_bool("compressor");
  int before = sx_int("before", 0, 5), data = sx_int("data", 0, 5);
  bool gas = data != 1 && sx_bool("pipes");
  numbers(r);
  r.fill();
  if (gas) pipes(r);
  json &pd = r.files["problem_data.json"];
  if (data >= 2) pd["problem_data"]["defaults"] = {{"Pipe", {{"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}, {"desired_delta_x", 20000}}}};
  if (data == 2 && gas) for (auto k : {"balancelaw", "scheme", "desired_delta_x"}) r.files["topology.json"]["connections"]["Pipe"][0].erase(k); // the defaults are there
  r.write();
  if (data == 3) spill(r.dir / "problem/problem_data.json", "{\"problem_data\": ");
  if (data == 4) fs::remove(r.dir / "problem/problem_data.json");
  if (data == 5) { pd.erase("problem_data"); r.write(); }
  Tree was = tree(r.dir / "problem");
  if (before == 1) fs::create_directory(r.dir / "schemas");
  if (before == 2) for (int t = 0; t < 5; ++t) spill(r.dir / "schemas" / schema_name(t), "an older and much longer schema that is not even json" + std::string(20000, '!'));
  if (before == 3) spill(r.dir / "schemas/thesis.tex", "important");
  if (before == 4) spill(r.dir / "schemas/folder/thesis.tex", "important");
  if (before == 5) spill(r.dir / "schemas", "a file");
  Tree old = tree(r.dir / "schemas");
  int rc = command(r, "make-full-factory");
  sx_assert(tree(r.dir / "problem") == was, "the problem is left alone");
  if (before >= 3 || data == 3) {
    sx_assert(rc != 0, "refused");
    if (before == 5) sx_assert(slurp(r.dir / "schemas") == "a file", "files of others are left alone");
    else sx_assert(tree(r.dir / "schemas") == old, "a refused command changes nothing");
    sx_reach("refused");
    return;
  }
  sx_assert(rc == 0, "the schemas are generated");
  all_schemas(r);
  Tree now = tree(r.dir / "schemas");
  sx_assert(now.size() == 5, "nothing but the schemas");
  if (!r.compressor) r.files["control.json"] = json::object();
  bool fits = data != 4 && data != 5; // the defaults were known
  for (int t = 0; t < 5; ++t) {
    json const s = schema(r, t);
    json &doc = r.files[std::string(types[t]) + ".json"];
    if (t != 3) for (auto section : {"nodes", "connections"}) if (!doc.contains(section)) doc[section] = json::object(); // the schemas insist on both sections
    if (fits || t != 3) sx_assert(accepts(s, doc), "the schemas accept a problem that can be run");
    sx_assert(!accepts(s, json::object()), "the schemas reject a file without its sections");
    for (std::string kind : {"nodes", "connections"}) if (doc.contains(kind) && !doc[kind].empty()) {
      json odd = doc;
      for (auto &list : odd[kind].items()) for (auto &e : list.value()) e.erase("id");
      sx_assert(!accepts(s, odd), "a component needs an id");
      odd = doc;
      for (auto &list : odd[kind].items()) list.value() = 7;
      sx_assert(!accepts(s, odd), "components come in lists");
      if (t == 4) for (auto key : {"from", "to"}) if (kind == "connections") {
        odd = doc;
        for (auto &list : odd[kind].items()) list.value()[0].erase(key);
        sx_assert(!accepts(s, odd), "an edge needs its ends");
      }
      if (t < 3) {
        odd = doc;
        for (auto &list : odd[kind].items()) for (auto &e : list.value()) e.erase("data");
        sx_assert(!accepts(s, odd), "a component needs its data");
        odd = doc;
        for (auto &list : odd[kind].items()) for (auto &e : list.value()) for (auto &p : e["data"]) p["values"][0] = "many";
        sx_assert(!accepts(s, odd), "values are numbers");
        odd = doc;
        for (auto &list : odd[kind].items()) for (auto &e : list.value()) for (auto &p : e["data"]) p["values"].push_back(1);
        sx_assert(!accepts(s, odd), "there are as many values as needed");
      }
    }
  }
  if (gas) { // parameters without a default are required
    json odd = r.files["topology.json"];
    for (auto key : {"length", "diameter", "roughness"}) { odd = r.files["topology.json"]; odd["connections"]["Pipe"][0].erase(key); sx_assert(!accepts(schema(r, 4), odd), "a pipe needs its parameters"); }
    odd = r.files["topology.json"];
    odd["connections"]["Pipe"][0].erase("scheme");
    sx_assert(accepts(schema(r, 4), odd) == (data == 2 || data == 3), "a parameter without a default is required");
  }
  sx_assert(command(r, "make-full-factory") == 0 && tree(r.dir / "schemas") == now, "generating them again gives the same schemas");
  sx_reach("generated");
}
// the keys point to the schemas, everything else stays, and the problem still runs
static void insert() {
  Problem r("ins");
  r.steps = sx_int("steps", 1, 2);
  r.compressor = sx_bool("compressor");
  int which = sx_int("absent", -1, 4), missing = sx_int("missing", -1, 4);
  sx_assume(which < 0 || missing < 0);
  numbers(r);
  r.fill();
  r.write();
  sx_assert(command(r, "make-full-factory") == 0, "the schemas are generated");
  if (which >= 0) fs::remove(r.dir / "schemas" / schema_name(which));
  if (missing >= 0) { fs::remove(r.dir / "problem" / (std::string(types[missing]) + ".json")); r.files.erase(std::string(types[missing]) + ".json"); }
  Tree schemas = tree(r.dir / "schemas"), was = tree(r.dir / "problem");
  sx_assert(command(r, "insert-key") == 0, "the keys are inserted");
  sx_assert(tree(r.dir / "schemas") == schemas, "the schemas are left alone");
  Tree now = tree(r.dir / "problem");
  for (int t = 0; t < 5; ++t) {
    std::string f = std::string(types[t]) + ".json";
    if (t == which) { sx_assert(now.count(f) == was.count(f) && (!now.count(f) || now[f] == was[f]), "a file without a schema is left alone"); continue; }
    sx_assert(now.count(f) == 1, "every file with a schema has a key");
    json j = json::parse(now[f].substr(5), nullptr, false);
    sx_assert(!j.is_discarded() && j.contains("$schema"), "the file has a key");
    sx_assert(fs::is_regular_file(r.dir / "problem" / j["$schema"].get<std::string>()) && fs::equivalent(r.dir / "problem" / j["$schema"].get<std::string>(), r.dir / "schemas" / schema_name(t)), "the key leads to the schema");
    j.erase("$schema");
    json before = was.count(f) ? json::parse(was[f].substr(5)) : json::object();
    sx_assert(j == before, "nothing but the key changes");
  }
  for (auto &f : now) sx_assert(was.count(f.first) || f.first == "control.json" || (missing >= 0 && f.first == std::string(types[missing]) + ".json"), "no other files appear");
  sx_assert(command(r, "insert-key") == 0 && tree(r.dir / "problem") == now, "inserting the keys again changes nothing");
  sx_reach(missing >= 0 ? "new file" : "inserted");
  if (missing >= 0) return;
  fs::rename(r.dir / "schemas", r.dir.string() + ".schemas"); // a run is only expected to create output
  r.go();
  r.check();
  sx_reach("still runs");
}
static void faults(fs::path scratch) {
  static fsfault::Kind kinds[] = {fsfault::fail, fsfault::partial, fsfault::die_before, fsfault::die_within};
  int at = sx_int("operation", 0, sx_param("operations", 20)), kind = sx_int("kind", 0, 3), old = sx_int("old", 0, 2);
  Problem r("flt");
  r.fill(); r.write();
  sx_assert(command(r, "make-full-factory") == 0, "the schemas are generated");
  Tree want = tree(r.dir / "schemas"), was = tree(r.dir / "problem");
  if (old == 0) fs::remove_all(r.dir / "schemas");
  if (old == 1) for (int t = 0; t < 5; ++t) spill(r.dir / "schemas" / schema_name(t), "old");
  int res = with_fault(scratch.string(), at, kinds[kind], [&] { if (command(r, "make-full-factory")) throw std::runtime_error("failed"); });
  sx_assert(tree(r.dir / "problem") == was, "the problem is left alone");
  if (res == 0) {
    sx_assert(tree(r.dir / "schemas") == want, "success means complete schemas");
    sx_reach(fsfault::st.count > at ? "survived" : "complete");
  } else {
    sx_assert(res <= 2, "ends as expected");
    sx_reach(res == 1 ? "reported" : "died");
  }
}
static void misuse() {
  int k = sx_int("misuse", 0, 5);
  Problem r("mis");
  r.fill(); r.write();
  std::string d = r.dir.string();
  Tree was = tree(r.dir);
  std::vector<std::string> args[6] = {{"schema"}, {"schema", "make-full-factory"}, {"schema", "insert-key"}, {"schema", "destroy", d}, {"schema", "make-full-factory", d + "/nowhere"}, {"schema", "insert-key", d + "/problem/topology.json"}};
  sx_assert(call(args[k]) != 0, "misuse is refused");
  sx_assert(tree(r.dir) == was, "misuse changes nothing");
  sx_reach("misuse");
}
void harness() {
  fs::path scratch = fs::absolute(fs::current_path());
  sx_private_dir();
  switch (sx_int("part", sx_param("from", 0), sx_param("to", 3))) {
  case 0: make(); break;
  case 1: insert(); break;
  case 2: misuse(); break;
  case 3: faults(scratch); break;
  }
}
