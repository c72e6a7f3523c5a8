// C32: a state extracted from results is an initial value file for that state.
#include "Statecomponent.hpp"
#include "zoo.hpp"
#include "tools.hpp"
TOOL(extract_new_initial_condition);
typedef Eigen::Index I;
static int extract(std::vector<std::string> args) { return use(tool_extract_new_initial_condition, args); }
// position of the state that is wanted, times ascending
static int wanted(std::vector<double> const &t, double T) {
  for (size_t k = 0; k < t.size(); ++k) if (t[k] >= T) return int(k);
  return int(t.size()) - 1;
}
static void restart() {
  Zoo::Part p;
  int kind = sx_int("kind", 0, 2), times = sx_int("times", 1, sx_param("times", 3));
  p.gas = kind != 1; p.power = kind != 0;
  p.plant = p.gas && p.power; p.stochastic = p.power;
  p.pipes = p.gas ? sx_int("pipes", 0, sx_param("pipes", 2)) : 0;
  p.cells = p.pipes ? sx_int("cells", 1, sx_param("cells", 2)) : 1;
  p.constraints = 0;
  Zoo z;
  z.make(p, [](std::string, double d) { return d; });
  z.build();
  std::vector<double> t(times);
  t[0] = sx_double("t0", 0, 10);
  for (int k = 1; k < times; ++k) t[k] = t[k - 1] + sx_double(S("dt", k), 0.5, 10);
  // a time that appears, or any
  int exact = sx_int("exact", 0, times);
  double T = exact < times ? t[exact] : sx_double("T", -30, 60);
  std::vector<VectorXd> s(times);
  for (int k = 0; k < times; ++k) {
    s[k] = VectorXd(z.ns);
    for (int node = 0; node < 2; ++node)
      for (auto &id : node ? z.nodes : z.edges) {
        auto *c = z.any<Model::Statecomponent>(id);
        if (!c) continue;
        for (I i = c->get_state_startindex(); i < c->get_state_afterindex(); ++i)
          s[k][i] = node ? sx_double(S("s", k, i), i % 2 ? -1 : 0.5, i % 2 ? 1 : 2) : sx_double(S("s", k, i), i % 2 ? -500 : 20, i % 2 ? 500 : 100);
      }
  }
  VectorXd u = VectorXd::Zero(z.nc);
  for (int k = 0; k < times; ++k) z.problem->json_save(t[k], s[k]);
  json out;
  z.problem->add_results_to_json(out);
  spill("results.json", out.dump(1));
  bool old = sx_bool("old");
  if (old) spill("new.json", "something else");
  int rc = extract({"results.json", "new.json", text(T)});
  sx_assert(rc == 0, "the extraction succeeds");
  sx_assert(slurp("results.json") == out.dump(1), "the results are left alone");
  json init = json::parse(slurp("new.json"), nullptr, false);
  sx_assert(!init.is_discarded(), "a complete initial value file");
  int k = wanted(t, T);
  VectorXd got = VectorXd::Constant(z.ns, 1234.5);
  z.problem->set_initial_values(got, init);
  for (I i = 0; i < z.ns; ++i) sx_eq(got[i], s[k][i], "restarted state");
  sx_reach(exact < times ? "exact" : k + 1 < times ? "between" : "last");
  sx_reach(kind == 0 ? "gas" : kind == 1 ? "power" : "both");
}
static void misuse() {
  int k = sx_int("misuse", 0, 5);
  json out = {{"nodes", {{k == 3 ? "Unknowntype" : "PQnode", {entry("a", {{{"time", 0.0}, {"V", 1.0}, {"phi", sx_double("phi", -1, 1)}, {"P", 0.0}, {"Q", 0.0}}})}}}}};
  spill("results.json", k == 4 ? out.dump().substr(0, 20) : out.dump());
  spill("new.json", "untouched");
  std::vector<std::string> args[6] = {{}, {"results.json", "new.json"}, {"nowhere.json", "new.json", "0"}, {"results.json", "new.json", "0"}, {"results.json", "new.json", "0"}, {"results.json", "new.json", "later"}};
  int rc = extract(args[k]);
  sx_assert(rc != 0, "misuse is refused");
  sx_assert(slurp("new.json") == "untouched", "nothing is written");
  sx_reach("misuse");
}
void harness() {
  sx_private_dir();
  if (sx_bool("use")) restart(); else misuse();
}
