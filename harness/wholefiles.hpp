// Files and directories of a run, and the JSON pieces in them.
#pragma once
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include "common.hpp"
namespace fs = std::filesystem;
using nlohmann::json;
static std::string slurp(fs::path const &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spill(fs::path const &p, std::string const &s) { if (p.has_parent_path()) fs::create_directories(p.parent_path()); std::ofstream f(p, std::ios::binary); f << s; }
typedef std::map<std::string, std::string> Tree;
static Tree tree(fs::path const &d) {
  Tree m;
  if (!fs::is_directory(d)) return m;
  for (auto &e : fs::recursive_directory_iterator(d)) {
    std::string k = e.path().lexically_relative(d).string();
    m[k] = e.is_symlink() ? "link " + fs::read_symlink(e.path()).string() : e.is_directory() ? "directory" : "file " + slurp(e.path());
  }
  return m;
}
struct Quiet { // the program's messages
  std::ostringstream text;
  std::streambuf *old, *olderr;
  Quiet() : old(std::cout.rdbuf(text.rdbuf())), olderr(std::cerr.rdbuf(text.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); std::cerr.rdbuf(olderr); }
};
inline json series(std::vector<std::pair<double, double>> v) {
  json j = json::array();
  for (auto &p : v) j.push_back({{"time", p.first}, {"values", {p.second}}});
  return j;
}
inline json entry(std::string id, json data) { return json{{"id", id}, {"data", data}}; }
inline json initial_short(std::string id, double p0, double q0, double p1, double q1) {
  return entry(id, json::array({{{"x", 0}, {"values", {p0, q0}}}, {{"x", 1}, {"values", {p1, q1}}}}));
}
inline json const &of(json const &list, std::string id) {
  static json none;
  json const *f = &none;
  int n = 0;
  for (auto &e : list) if (e["id"] == id) { f = &e; ++n; }
  sx_assert(n == 1, "one entry per component");
  return *f;
}
inline double num(json const &j) { return j.is_number() ? j.get<double>() : (sx_fail("a saved value is a number"), 0.0); }
