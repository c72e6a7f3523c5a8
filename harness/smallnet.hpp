#pragma once
#include "wholerun.hpp"
// Net: boundary pressure P -- compressor cs -- innode m -- short pipe sp -- sink k.  Its states are known in closed form.
struct Problem : Run {
  int steps = 1;
  double start = 0, dt = 1, p0 = 60, p1 = 61, q0 = 20, q1 = 21, u0 = 1, u1 = 2;
  double init[2][4] = {{50, 1, 51, 2}, {52, 3, 53, 4}};
  bool compressor = true, kinked = false; // a control that has the value um in the middle
  double um = 0, desired = 0; // desired step, if it is not the step
  int points = 0; // number of control times, if it is not that of the simulation
  double share(double w) const { return !kinked || points == 2 ? u0 + w * (u1 - u0) : w <= 0.5 ? u0 + 2 * w * (um - u0) : um + (2 * w - 1) * (u1 - um); }
  using Run::Run;
  void fill() {
    double end = start + steps * dt;
    files["topology.json"] = {{"nodes", {{"Pressureboundarynode", {{{"id", "P"}}}}, {"Innode", {{{"id", "m"}}}}, {"Sink", {{{"id", "k"}}}}}},
                              {"connections", {{"Shortpipe", {{{"id", "sp"}, {"from", "m"}, {"to", "k"}}}}}}};
    files["topology.json"]["connections"][compressor ? "Compressorstation" : "Shortpipe"].push_back({{"id", "cs"}, {"from", "P"}, {"to", "m"}});
    files["boundary.json"] = {{"nodes", {{"Pressureboundarynode", {entry("P", series({{start, p0}, {end, p1}}))}}, {"Sink", {entry("k", series({{start, q0}, {end, q1}}))}}}}};
    files["initial.json"]["connections"][compressor ? "Compressorstation" : "Shortpipe"].push_back(initial_short("cs", init[0][0], init[0][1], init[0][2], init[0][3]));
    files["initial.json"]["connections"]["Shortpipe"].push_back(initial_short("sp", init[1][0], init[1][1], init[1][2], init[1][3]));
    if (compressor) files["control.json"] = {{"connections", {{"Compressorstation", {entry("cs", kinked ? series({{start, u0}, {start + (end - start) / 2, um}, {end, u1}}) : series({{start, u0}, {end, u1}}))}}}}};
    files["problem_data.json"] = {{"simulation_settings", {{"use_simplified_newton", true}, {"maximal_number_of_newton_iterations", 10}, {"tolerance", 1e-8}, {"retries", 0}, {"start_time", start}, {"end_time", end}, {"desired_delta_t", desired > 0 ? desired : dt}}},
                                  {"problem_data", {{"topology_json", "topology.json"}, {"boundary_json", "boundary.json"}}}};
  }
  void check() {
    sx_assert(rc == 0, "the run succeeds");
    sx_assert(created.size() == 1, "one new output directory");
    sx_assert(tree(created[0] / "problem") == problem, "the output holds a copy of the problem");
    int entries = 0;
    for (auto &e : fs::directory_iterator(created[0])) { sx_assert(e.path().filename() == "problem" || e.path().filename() == "states.json", "nothing else in the output"); ++entries; }
    sx_assert(entries == 2, "copy and states in the output");
    json s = read("states.json");
    json const &cs = of(s["connections"][compressor ? "Compressorstation" : "Shortpipe"], "cs")["data"], &sp = of(s["connections"]["Shortpipe"], "sp")["data"];
    sx_assert(int(cs.size()) == steps + 1 && int(sp.size()) == steps + 1, "one entry per time");
    for (int k = 0; k <= steps; ++k) {
      double w = double(k) / steps, p = p0 + w * (p1 - p0), q = q0 + w * (q1 - q0), u = compressor ? share(w) : 0.0;
      sx_eq(num(cs[k]["time"]), start + k * dt, "time");
      sx_eq(num(sp[k]["time"]), start + k * dt, "time");
      double want[2][4] = {{p, q, p + u, q}, {p + u, q, p + u, q}};
      if (k == 0) std::copy(&init[0][0], &init[0][0] + 8, &want[0][0]);
      for (int c = 0; c < 2; ++c) {
        json const &d = (c ? sp : cs)[k];
        sx_assert(d["pressure"].size() == 2 && d["flow"].size() == 2, "two points");
        for (int i = 0; i < 2; ++i) {
          sx_eq(num(d["pressure"][i]["value"]), want[c][2 * i], k ? "computed pressure" : "initial pressure");
          sx_eq(num(d["flow"][i]["value"]), want[c][2 * i + 1], k ? "computed flow" : "initial flow");
        }
      }
    }
  }
};
