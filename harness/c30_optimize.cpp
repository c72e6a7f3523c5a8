// C30: an optimization run poses the configured problem, answers the optimizer's questions about it and saves its answer.
#include "IpIpoptApplication.hpp"
#include "wholerun.hpp"
typedef std::vector<double> Row;
// Net: boundary pressure P -- compressor a -- innode m -- compressor b or short pipe b -- (constraint) sink k.
// The pressure at k is the boundary pressure plus the controls, so the states, the objective and the constraints are known.
struct Optimum : Run {
  int steps = 2, grid = 0, points = 2, every = 1, controls = 1;
  bool constrained = true, unsolvable = false;
  json every_json;
  double start = 0, dt = 1, p0 = 60, p1 = 61, q0 = 20, q1 = 21, cu0 = 1000, cu1 = 3000;
  double init[2][4] = {{50, 1, 51, 2}, {52, 3, 53, 4}};
  double initial[2][2] = {{1, 2}, {2, 1}}, low[2][2] = {{0, 0}, {0, 0}}, up[2][2] = {{5, 6}, {6, 5}};
  using Run::Run;
  int ncontrol() const { return grid == 0 ? steps + 1 : points; }
  double share(int i) const { return double(i) / (ncontrol() - 1); } // of the time span, at control time i
  std::string of_edge(int e) const { return e == 0 || controls == 2 ? "Compressorstation" : "Shortpipe"; }
  json control_file(double v[2][2]) const {
    json j = json::object();
    double end = start + steps * dt;
    for (int e = controls - 1; e >= 0; --e) j["connections"]["Compressorstation"].push_back(entry(e ? "b" : "a", series({{start, v[e][0]}, {end, v[e][1]}})));
    return j;
  }
  void fill() {
    double end = start + steps * dt;
    std::string sink = constrained ? "ConstraintSink" : "Sink";
    files["topology.json"] = {{"nodes", {{"Pressureboundarynode", {{{"id", "P"}}}}, {"Innode", {{{"id", "m"}}}}, {sink, {{{"id", "k"}}}}}}};
    files["topology.json"]["connections"][of_edge(1)].push_back({{"id", "b"}, {"from", "m"}, {"to", "k"}});
    files["topology.json"]["connections"][of_edge(0)].push_back({{"id", "a"}, {"from", "P"}, {"to", "m"}});
    files["boundary.json"] = {{"nodes", {{"Pressureboundarynode", {entry("P", series({{start, p0}, {end, p1}}))}}, {sink, {entry("k", series({{start, q0}, {end, q1}}))}}}}};
    for (int e = 0; e < 2; ++e) files["initial.json"]["connections"][of_edge(e)].push_back(initial_short(e ? "b" : "a", init[e][0], init[e][1], init[e][2], init[e][3]));
    files["control.json"] = control_file(initial);
    files["lower_bounds.json"] = control_file(low);
    files["upper_bounds.json"] = control_file(up);
    files["constraint_lower_bounds.json"] = json::object();
    files["constraint_upper_bounds.json"] = json::object();
    if (constrained) {
      files["constraint_lower_bounds.json"] = {{"nodes", {{sink, {entry("k", series({{start, 0.0}, {end, -1000.0}}))}}}}}; // tells the time; far from active
      files["constraint_upper_bounds.json"] = {{"nodes", {{sink, {entry("k", series({{start, cu0}, {end, cu1}}))}}}}};
    }
    files["problem_data.json"] = {{"optimize", true},
                                  {"simulation_settings", {{"use_simplified_newton", true}, {"maximal_number_of_newton_iterations", unsolvable ? 0 : 10}, {"tolerance", 1e-8}, {"retries", 0}, {"start_time", start}, {"end_time", end}, {"desired_delta_t", dt}}},
                                  {"problem_data", {{"topology_json", "topology.json"}, {"boundary_json", "boundary.json"}}}};
    json &pd = files["problem_data.json"];
    if (grid == 1) pd["control_settings"]["number_of_steps"] = points;
    if (grid == 2) pd["control_settings"]["desired_delta_t"] = steps * dt / (points - 1);
    if (!every_json.is_null()) pd["constraint_settings"]["evaluate_constraints_every_n"] = every_json;
  }
  // the control e for the coefficients x at the share w of the time span: hat functions
  double hat(int j, double w) const {
    double at = w * (ncontrol() - 1) - j;
    if (at < 0) at = -at;
    return at >= 1 ? 0 : 1 - at;
  }
  double control(Row const &x, int e, int k) const {
    double u = 0;
    for (int j = 0; j < ncontrol(); ++j) { double h = hat(j, double(k) / steps); if (h > 0) u += h * x[size_t(controls * j + e)]; }
    return u;
  }
  double all_controls(Row const &x, int k) const { double u = 0; for (int e = 0; e < controls; ++e) u += control(x, e, k); return u; }
  double pressure(int k) const { return p0 + (p1 - p0) * k / steps; }
  double weight(int k) const { return k == steps ? 0.5 * dt : dt; } // of the trapezoidal rule
  std::vector<int> at; // state time of every constraint time
  void questions(Ipopt::TNLP &p, Row const &x, int first = 0) { // what the optimizer asks before it moves and at the controls x, beginning with any of four questions
    int n = -1, m = -1, nnz = -1, hess = -1;
    Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
    sx_assert(p.get_nlp_info(n, m, nnz, hess, style), "sizes are told");
    sx_assert(n == controls * ncontrol(), "one unknown per control and control time");
    int times = constrained ? (steps + every - 1) / every : 0;
    sx_assert(m == times, "one constraint per constraint time");
    Row xl(size_t(n), 0), xu(size_t(n), 0), x0(size_t(n), 0), gl(size_t(m) + 1, 0), gu(size_t(m) + 1, 0);
    sx_assert(p.get_bounds_info(n, xl.data(), xu.data(), m, gl.data(), gu.data()), "bounds are told");
    sx_assert(p.get_starting_point(n, true, x0.data(), false, nullptr, nullptr, m, false, nullptr), "starting point is told");
    for (int j = 0; j < ncontrol(); ++j) for (int e = 0; e < controls; ++e) {
      double w = share(j);
      size_t i = size_t(controls * j + e);
      sx_eq(xl[i], low[e][0] + w * (low[e][1] - low[e][0]), "lower bound of a control");
      sx_eq(xu[i], up[e][0] + w * (up[e][1] - up[e][0]), "upper bound of a control");
      sx_eq(x0[i], initial[e][0] + w * (initial[e][1] - initial[e][0]), "start value of a control");
    }
    at.clear();
    for (int i = 0; i < m; ++i) {
      int found = -1;
      for (int k = 1; k <= steps; ++k) { double d = gl[size_t(i)] / -1000 - double(k) / steps; if (d < 1e-7 && d > -1e-7) found = k; }
      sx_assert(found > 0, "a constraint time is a state time after the start");
      int regular = 1 + i * every;
      sx_assert(found == regular || (i == m - 1 && found == steps), "constraints at every n-th time");
      sx_eq(gu[size_t(i)], cu0 + (cu1 - cu0) * found / steps, "upper bound of a constraint");
      at.push_back(found);
    }
    double f = -1;
    Row grad(size_t(n), 0), g(size_t(m) + 1, 0), val(size_t(nnz) + 1, 0);
    std::vector<int> row(size_t(nnz) + 1, -1), col(size_t(nnz) + 1, -1);
    sx_assert(p.eval_jac_g(n, nullptr, true, m, nnz, row.data(), col.data(), nullptr), "structure is told");
    for (int k = 0; k < 4; ++k) switch ((first + k) % 4) {
    case 0: sx_assert(p.eval_f(n, x.data(), k == 0, f), "objective is told"); break;
    case 1: sx_assert(p.eval_grad_f(n, x.data(), k == 0, grad.data()), "gradient is told"); break;
    case 2: sx_assert(p.eval_g(n, x.data(), k == 0, m, g.data()), "constraints are told"); break;
    case 3: sx_assert(p.eval_jac_g(n, x.data(), k == 0, m, nnz, nullptr, nullptr, val.data()), "Jacobian is told"); break;
    }
    double want = 0;
    for (int k = 1; k <= steps; ++k) for (int e = 0; e < controls; ++e) { double u = control(x, e, k); want += weight(k) * u * u; }
    sx_eq(f, want, "objective");
    for (int j = 0; j < ncontrol(); ++j) for (int e = 0; e < controls; ++e) {
      double d = 0;
      for (int k = 1; k <= steps; ++k) d += weight(k) * 2 * control(x, e, k) * hat(j, double(k) / steps);
      sx_eq(grad[size_t(controls * j + e)], d, "gradient");
    }
    for (int i = 0; i < m; ++i) sx_eq(g[size_t(i)], pressure(at[size_t(i)]) + all_controls(x, at[size_t(i)]), "constraint");
    std::map<std::pair<int, int>, double> jac;
    for (int z = 0; z < nnz; ++z) {
      sx_assert(row[size_t(z)] >= 0 && row[size_t(z)] < m && col[size_t(z)] >= 0 && col[size_t(z)] < n, "entry inside the Jacobian");
      sx_assert(jac.emplace(std::make_pair(row[size_t(z)], col[size_t(z)]), val[size_t(z)]).second, "entries are told once");
    }
    for (int i = 0; i < m; ++i) for (int c = 0; c < n; ++c) {
      double h = hat(c / controls, double(at[size_t(i)]) / steps);
      auto e = jac.find({i, c});
      sx_eq(e == jac.end() ? 0.0 : e->second, h, "constraint Jacobian");
    }
  }
  void finalize(Ipopt::TNLP &p, Row const &x, Ipopt::SolverReturn status) {
    Row g;
    double f = 0;
    for (int k : at) g.push_back(pressure(k) + all_controls(x, k));
    for (int k = 1; k <= steps; ++k) for (int e = 0; e < controls; ++e) { double u = control(x, e, k); f += weight(k) * u * u; }
    g.push_back(0);
    Row zl(x.size(), 0), lambda(g.size(), 0);
    p.finalize_solution(status, int(x.size()), x.data(), zl.data(), zl.data(), int(at.size()), g.data(), lambda.data(), f, nullptr, nullptr);
  }
  void check(Row const &x) { // the solution that was returned has been saved
    sx_assert(created.size() == 1, "one new output directory");
    sx_assert(tree(created[0] / "problem") == problem, "the output holds a copy of the problem");
    for (auto &e : fs::directory_iterator(created[0])) { auto f = e.path().filename(); sx_assert(f == "problem" || f == "states.json" || f == "controls.json", "nothing else in the output"); }
    json s = read("states.json"), c = read("controls.json");
    for (int e = 0; e < controls; ++e) {
      json const &d = of(c["connections"]["Compressorstation"], e ? "b" : "a")["data"];
      sx_assert(int(d.size()) == ncontrol(), "one entry per control time");
      for (int j = 0; j < ncontrol(); ++j) {
        sx_eq(num(d[size_t(j)]["time"]), start + share(j) * steps * dt, "control time");
        sx_assert(d[size_t(j)]["values"].size() == 1, "one value per control");
        sx_eq(num(d[size_t(j)]["values"][0]), x[size_t(controls * j + e)], "saved control");
      }
    }
    for (int e = 0; e < 2; ++e) {
      json const &d = of(s["connections"][of_edge(e)], e ? "b" : "a")["data"];
      sx_assert(int(d.size()) == steps + 1, "one entry per time");
      for (int k = 0; k <= steps; ++k) {
        double p = pressure(k), q = q0 + (q1 - q0) * k / steps, u = control(x, 0, k), v = controls == 2 ? control(x, 1, k) : 0.0;
        double want[2][4] = {{p, q, p + u, q}, {p + u, q, p + u + v, q}};
        if (k == 0) std::copy(&init[0][0], &init[0][0] + 8, &want[0][0]);
        sx_eq(num(d[size_t(k)]["time"]), start + k * dt, "time");
        for (int i = 0; i < 2; ++i) {
          sx_eq(num(d[size_t(k)]["pressure"][size_t(i)]["value"]), want[e][2 * i], "saved pressure");
          sx_eq(num(d[size_t(k)]["flow"][size_t(i)]["value"]), want[e][2 * i + 1], "saved flow");
        }
      }
    }
  }
  void no_results() {
    sx_assert(rc != 0, "the run fails");
    for (auto &c : created) for (auto &e : fs::recursive_directory_iterator(c)) sx_assert(e.path().filename() != "states.json" && e.path().filename() != "controls.json", "no results of a failed run");
  }
};
static Ipopt::ApplicationReturnStatus ok(Ipopt::IpoptApplication &) { return Ipopt::Solve_Succeeded; }
static void symbols(Optimum &r) {
  r.start = sx_double("start", -10, 10);
  r.dt = sx_double("dt", 0.5, 2);
  r.p0 = sx_double("p0", 40, 50); r.p1 = sx_double("p1", 70, 80); // never at rest
  r.q0 = sx_double("q0", -50, 50); r.q1 = sx_double("q1", -50, 50);
  r.cu0 = sx_double("cu0", 1000, 1001); r.cu1 = sx_double("cu1", 3000, 3001);
  for (int e = 0; e < r.controls; ++e) for (int i = 0; i < 2; ++i) {
    r.initial[e][i] = sx_double(S("initial", e, i), 0, 5);
    r.low[e][i] = sx_double(S("low", e, i), -1, 0);
    r.up[e][i] = sx_double(S("up", e, i), 5, 6);
  }
}
static Row row(Optimum &r, char const *name) { Row x; for (int i = 0; i < r.controls * r.ncontrol(); ++i) x.push_back(sx_double(S(name, i), 0, 5)); return x; }
// the posed problem, the answers and the saved solution
static void optimize() {
  Optimum r("opt");
  r.steps = sx_int("steps", 1, sx_param("steps", 3));
  r.controls = sx_int("controls", 1, 2);
  r.grid = sx_int("grid", 0, 2);
  r.points = r.grid ? sx_int("points", 2, 3) : 2;
  int every = r.controls == 1 ? sx_int("every", 0, 7) : sx_int("every", 0, 1);
  static json const everys[8] = {nullptr, 2, 1, 3, 0, -2, "two", 1.5};
  r.every_json = everys[every];
  r.every = every == 1 ? 2 : every == 3 ? 3 : 1;
  symbols(r);
  r.fill(); r.write();
  Row x = row(r, "x"), y = row(r, "y"), z;
  int asked = 0, first = r.steps <= 2 && every == 0 ? sx_int("first", 0, 3) : 0;
  if (first) z = row(r, "z");
  Ipopt::ipopt_stand_in().initialize = ok;
  Ipopt::ipopt_stand_in().optimize = [&](Ipopt::IpoptApplication &app, Ipopt::TNLP &p) {
    sx_assert(app.Options()->set["hessian_approximation"] == "limited-memory", "no second derivatives are asked for");
    r.questions(p, x, first);
    if (first) r.questions(p, z, first % 3 + 1);
    ++asked;
    r.finalize(p, y, Ipopt::SUCCESS);
    return Ipopt::Solve_Succeeded;
  };
  r.go();
  sx_assert(r.rc == 0, "the run succeeds");
  sx_assert(asked == 1, "the optimizer is asked once");
  r.check(y);
  sx_reach(r.every > 1 && r.at.back() == r.steps ? "sparse constraints" : "optimized");
}
// ends of the optimizer other than success, and problems without constraints
static void endings() {
  Optimum r("end");
  int how = sx_int("ending", 0, 6);
  r.constrained = !sx_bool("free") ;
  r.unsolvable = how == 6;
  r.p0 = sx_double("p0", 40, 50);
  r.fill(); r.write();
  Row y = row(r, "y");
  static Ipopt::SolverReturn const st[4] = {Ipopt::SUCCESS, Ipopt::MAXITER_EXCEEDED, Ipopt::LOCAL_INFEASIBILITY, Ipopt::STOP_AT_ACCEPTABLE_POINT};
  static Ipopt::ApplicationReturnStatus const rt[4] = {Ipopt::Solve_Succeeded, Ipopt::Maximum_Iterations_Exceeded, Ipopt::Infeasible_Problem_Detected, Ipopt::Solved_To_Acceptable_Level};
  Ipopt::ipopt_stand_in().initialize = [&](Ipopt::IpoptApplication &) { return how == 4 ? Ipopt::Invalid_Option : Ipopt::Solve_Succeeded; };
  Ipopt::ipopt_stand_in().optimize = [&](Ipopt::IpoptApplication &, Ipopt::TNLP &p) {
    if (how == 5) return Ipopt::Invalid_Problem_Definition; // ended before there was any solution
    if (how == 6) { // the simulation fails for every control
      Row x0(y.size(), 1), g(10, 0);
      int n = 0, m = 0, nnz = 0, hess = 0;
      Ipopt::TNLP::IndexStyleEnum style;
      double f = 0;
      p.get_nlp_info(n, m, nnz, hess, style);
      sx_assert(!p.eval_f(n, x0.data(), true, f), "no objective without a simulation");
      sx_assert(!p.eval_g(n, x0.data(), false, m, g.data()), "no constraints without a simulation");
      p.finalize_solution(Ipopt::INVALID_NUMBER_DETECTED, n, x0.data(), x0.data(), x0.data(), m, g.data(), g.data(), 0, nullptr, nullptr);
      return Ipopt::Invalid_Number_Detected;
    }
    r.questions(p, y);
    r.finalize(p, y, st[how]);
    return rt[how];
  };
  r.go();
  if (how >= 4) { r.no_results(); sx_reach(how == 6 ? "no simulation" : "no solution"); }
  else if (how == 0) { sx_assert(r.rc == 0, "the run succeeds"); r.check(y); sx_reach(r.constrained ? "solved" : "free"); }
  else { // not optimal: either refused or what the optimizer returned
    if (r.rc) r.no_results(); else r.check(y);
    sx_reach("not optimal");
  }
}
// files of the optimization are missing or wrong
static void broken() {
  static char const *names[4] = {"lower_bounds.json", "upper_bounds.json", "constraint_lower_bounds.json", "constraint_upper_bounds.json"};
  Optimum r("bro");
  int f = sx_int("file", 0, 4), how = sx_int("how", 0, 2);
  r.fill(); r.write();
  if (f == 4) { // nothing to control
    r.controls = 0;
    for (auto &n : {"topology.json", "initial.json"}) {
      json &c = r.files[n]["connections"];
      c["Shortpipe"].push_back(c["Compressorstation"][0]);
      c.erase("Compressorstation");
    }
    for (auto &n : {"control.json", "lower_bounds.json", "upper_bounds.json"}) r.files[n] = json::object();
    r.write();
  } else {
    fs::path p = r.dir / "problem" / names[f];
    if (how == 0) fs::remove(p); else spill(p, how == 1 ? "" : "{}");
  }
  Ipopt::ipopt_stand_in().initialize = ok;
  Ipopt::ipopt_stand_in().optimize = [&](Ipopt::IpoptApplication &, Ipopt::TNLP &) { return Ipopt::Invalid_Problem_Definition; };
  r.go();
  r.no_results();
  sx_reach(f == 4 ? "nothing to control" : "bad bounds");
}
void harness() {
  sx_private_dir();
  sx_quiet_lost(1); // the program prints the objective
  switch (sx_int("part", sx_param("from", 0), sx_param("to", 2))) {
  case 0: optimize(); break;
  case 1: endings(); break;
  case 2: broken(); break;
  }
}
