// The program on a small problem: boundary pressure P -- compressor cs -- innode m -- short pipe sp -- (constraint) sink k.
#pragma once
#include "IpIpoptApplication.hpp"
#define main grazer_main
#include "Grazer/grazer.cpp"
#undef main
#include <nlohmann/json.hpp>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
namespace fs = std::filesystem;
using nlohmann::json;
inline int grazer_call(std::vector<std::string> args) {
  args.insert(args.begin(), "grazer");
  std::vector<char *> v;
  for (auto &a : args) v.push_back(&a[0]);
  v.push_back(nullptr);
  return grazer_main(int(args.size()), v.data());
}
inline std::string slurp(fs::path p) { std::ifstream f(p); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline json load(fs::path p) { return json::parse(slurp(p)); }
inline void must(bool c, std::string what) { if (!c) { std::cout << "FAIL " << what << std::endl; exit(1); } }
inline void near(double a, double b, std::string what) { if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)))) { std::cout << "FAIL " << what << ": " << a << " instead of " << b << std::endl; exit(1); } }
inline json series(std::vector<std::pair<double, double>> v) { json j = json::array(); for (auto &p : v) j.push_back({{"time", p.first}, {"values", {p.second}}}); return j; }
inline json one(std::string id, json data) { return json::array({{{"id", id}, {"data", data}}}); }
struct Problem {
  fs::path dir;
  std::map<std::string, json> files;
  double start = 0, dt = 1;
  int steps = 4;
  std::vector<std::pair<double, double>> pressure{{-100, 60}, {100, 60}}, flow{{-100, 20}, {100, 20}}, control{{-100, 2}, {100, 2}};
  bool constrained = false;
  Problem(std::string name) : dir(name) {}
  void fill() {
    double end = start + steps * dt;
    std::string sink = constrained ? "ConstraintSink" : "Sink";
    files["topology.json"] = {{"nodes", {{"Pressureboundarynode", {{{"id", "P"}}}}, {"Innode", {{{"id", "m"}}}}, {sink, {{{"id", "k"}}}}}}, {"connections", {{"Shortpipe", {{{"id", "sp"}, {"from", "m"}, {"to", "k"}}}}, {"Compressorstation", {{{"id", "cs"}, {"from", "P"}, {"to", "m"}}}}}}};
    files["boundary.json"] = {{"nodes", {{"Pressureboundarynode", one("P", series(pressure))}, {sink, one("k", series(flow))}}}};
    json init = json::array({{{"x", 0}, {"values", {50, 1}}}, {{"x", 1}, {"values", {51, 2}}}});
    files["initial.json"] = {{"connections", {{"Shortpipe", one("sp", init)}, {"Compressorstation", one("cs", init)}}}};
    files["control.json"] = {{"connections", {{"Compressorstation", one("cs", series(control))}}}};
    for (auto b : {0, 1}) {
      files[b ? "upper_bounds.json" : "lower_bounds.json"] = {{"connections", {{"Compressorstation", one("cs", series({{start, b * 9}, {end, b * 9}}))}}}};
      files[b ? "constraint_upper_bounds.json" : "constraint_lower_bounds.json"] = constrained ? json{{"nodes", {{sink, one("k", series({{start, b * 2000 - 1000}, {end, b * 2000 - 1000}}))}}}} : json::object();
    }
    files["problem_data.json"] = {{"simulation_settings", {{"use_simplified_newton", true}, {"maximal_number_of_newton_iterations", 10}, {"tolerance", 1e-8}, {"retries", 0}, {"start_time", start}, {"end_time", end}, {"desired_delta_t", dt}}}, {"problem_data", {{"topology_json", "topology.json"}, {"boundary_json", "boundary.json"}}}};
  }
  void write(int indent = 1) { fs::create_directories(dir / "problem"); for (auto &f : files) std::ofstream(dir / "problem" / f.first) << f.second.dump(indent); }
  fs::path output() { for (auto &e : fs::directory_iterator(dir / "output")) return e.path(); return {}; }
  int run() { return grazer_call({"run", dir.string()}); }
};
