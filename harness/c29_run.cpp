// C29: a run writes what it computed, or fails.
#include "smallnet.hpp"
static json earlier() { return {{"connections", {{"Shortpipe", {entry("old", json::array())}}}}}; }
static void simulate() {
  Problem r("sim");
  r.steps = sx_int("steps", 1, sx_param("steps", 2));
  r.compressor = sx_bool("compressor");
  bool simplified = sx_bool("simplified");
  // one thing at a time differs from the plain run
  int variant = sx_int("variant", 0, 10), optimize = variant == 1 || variant == 2 ? variant : 0, grid = variant == 3 || variant == 4 ? variant - 2 : 0, old = variant == 5 || variant == 6 ? variant - 4 : 0;
  bool trailing = variant == 7, initial = variant == 8;
  if (variant == 9) sx_assume(r.steps > 1);
  if (variant == 10) { sx_assume(r.compressor && r.steps % 2 == 0); r.kinked = true; grid = sx_int("grid", 0, 3); }
  if (grid) sx_assume(r.compressor);
  r.start = sx_double("start", -10, 10);
  r.dt = sx_double("dt", 0.5, 2);
  r.p0 = sx_double("p0", 40, 50); r.p1 = sx_double("p1", 70, 80); // never at rest: every step has something to solve
  r.q0 = sx_double("q0", -50, 50); r.q1 = sx_double("q1", -50, 50);
  if (r.compressor) { r.u0 = sx_double("u0", 0, 5); r.u1 = sx_double("u1", 0, 5); }
  if (initial) for (int c = 0; c < 2; ++c) for (int i = 0; i < 4; ++i) r.init[c][i] = sx_double(S("i", c, i), i % 2 ? -50 : 1, i % 2 ? 50 : 30);
  if (r.kinked) r.um = sx_double("um", 0, 5);
  if (grid >= 2) r.points = grid;
  if (variant == 9) r.desired = r.dt * sx_double("longer", 1.001, 1 + 0.9 / (r.steps - 1));
  r.fill();
  json &pd = r.files["problem_data.json"];
  pd["simulation_settings"]["use_simplified_newton"] = simplified;
  if (optimize == 1) pd["optimize"] = false;
  if (optimize == 2) pd["optimize"] = "yes"; // not a truth value
  if (grid == 1) pd["control_settings"]["desired_delta_t"] = r.dt;
  if (grid == 2) pd["control_settings"]["number_of_steps"] = 2;
  if (grid == 3) pd["control_settings"]["number_of_steps"] = 3;
  r.write();
  if (old == 1) fs::create_directory(r.dir / "output");
  if (old == 2) spill(r.dir / "output/earlier/states.json", earlier().dump());
  r.go({"run", r.dir.string() + (trailing ? "/" : "")});
  r.check();
  sx_reach(r.compressor ? "controlled" : "uncontrolled");
}
// something is missing or wrong: the run fails and leaves everything else alone
static void broken() {
  static char const *names[5] = {"topology.json", "boundary.json", "initial.json", "control.json", "problem_data.json"};
  static char const *sections[9] = {"simulation_settings", "problem_data", "tolerance", "retries", "use_simplified_newton", "maximal_number_of_newton_iterations", "start_time", "end_time", "desired_delta_t"};
  Problem r("bro");
  int what = sx_int("what", 0, 2);
  r.steps = 2;
  r.p0 = sx_double("p0", 40, 50);
  bool old = sx_bool("old");
  r.fill();
  if (what == 0) {
    int f = sx_int("file", 0, 4), how = sx_int("how", 0, 3);
    r.write();
    fs::path p = r.dir / "problem" / names[f];
    std::string text = slurp(p);
    if (how == 0) fs::remove(p); else spill(p, how == 1 ? "" : how == 2 ? text.substr(0, text.size() / 2) : "[" + text + ",]");
    sx_reach("unreadable");
  } else if (what == 1) {
    int k = sx_int("section", 0, 8);
    json &pd = r.files["problem_data.json"];
    if (k < 2) pd.erase(sections[k]); else pd["simulation_settings"].erase(sections[k]);
    r.write();
    sx_reach("incomplete");
  } else { // a step that cannot be solved: too few iterations for the tolerance, or the boundary values end too early
    int how = sx_int("unsolvable", 0, 3);
    json &ss = r.files["problem_data.json"]["simulation_settings"];
    if (how == 0) ss["maximal_number_of_newton_iterations"] = 0;
    if (how == 1) r.files["initial.json"]["connections"].erase("Shortpipe");
    if (how == 2) r.files["control.json"]["connections"]["Compressorstation"][0]["id"] = "other";
    if (how == 3) ss["desired_delta_t"] = -1;
    r.write();
    sx_reach("unsolvable");
  }
  if (old) spill(r.dir / "output/earlier/states.json", earlier().dump());
  r.go();
  sx_assert(r.rc != 0, "the run fails");
  for (auto &c : r.created) for (auto &e : fs::recursive_directory_iterator(c)) sx_assert(e.path().filename() != "states.json" && e.path().filename() != "controls.json", "no results of a failed run");
}
static void misuse() {
  int k = sx_int("misuse", 0, 5);
  Problem r("mis");
  r.fill(); r.write();
  std::string d = r.dir.string();
  std::vector<std::string> args[6] = {{}, {"run"}, {"walk", d}, {"run", d + "/nowhere"}, {"run", d, "more"}, {"run", d + "/problem/topology.json"}};
  r.snapshot();
  r.rc = call(args[k]);
  r.finish();
  sx_assert(r.rc != 0, "misuse is refused");
  sx_assert(r.created.empty() && !fs::exists(r.dir / "nowhere"), "nothing is created");
  int v = call({"--version"}), h = call({"run", "--help"});
  sx_assert(v == 0 && h == 0, "asking for help is fine");
  sx_reach("misuse");
}
static void faults(fs::path scratch) {
  static fsfault::Kind kinds[] = {fsfault::fail, fsfault::partial, fsfault::die_before, fsfault::die_within};
  int at = sx_int("operation", 0, sx_param("operations", 30)), kind = sx_int("kind", 0, 3);
  bool old = sx_bool("old");
  Problem r("flt");
  r.steps = 2;
  r.p0 = sx_double("p0", 40, 50);
  r.fill(); r.write();
  if (old) spill(r.dir / "output/earlier/states.json", earlier().dump());
  r.snapshot();
  int res = with_fault(scratch.string(), at, kinds[kind], [&] { if (call({"run", r.dir.string()})) throw std::runtime_error("failed"); });
  r.finish();
  r.rc = res;
  if (res == 0) {
    if (kinds[kind] < fsfault::die_before) r.check(); // in this process: the symbolic values are known
    sx_reach(fsfault::st.count > at ? "survived" : "complete");
  } else {
    sx_assert(res <= 2, "ends as expected");
    sx_assert(res == 2 || fsfault::st.count > at, "fails only if something failed");
    sx_reach(res == 1 ? "reported" : "died");
  }
}
void harness() {
  fs::path scratch = fs::absolute(fs::current_path());
  sx_private_dir();
  switch (sx_int("part", sx_param("from", 0), sx_param("to", 3))) {
  case 0: simulate(); break;
  case 1: broken(); break;
  case 2: misuse(); break;
  case 3: faults(scratch); break;
  }
}
