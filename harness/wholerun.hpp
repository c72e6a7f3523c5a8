// A problem directory, a run of the program on it, and what it left behind.
#pragma once
#include "fsfault.hpp"
#include "wholefiles.hpp"
#define main grazer_main
#include SX_MAIN
#undef main
inline int call(std::vector<std::string> args) {
  Quiet q;
  args.insert(args.begin(), "grazer");
  std::vector<char *> v;
  for (auto &a : args) v.push_back(&a[0]);
  v.push_back(nullptr);
  int rc = grazer_main(int(args.size()), v.data());
  if (getenv("SX_SHOW")) fprintf(stderr, "%s\n[exit %d]\n", q.text.str().c_str(), rc);
  return rc;
}
struct Run {
  fs::path dir;
  std::map<std::string, json> files; // of the problem directory
  Tree problem, outputs;
  int rc = -1;
  explicit Run(std::string name) : dir(name) { fs::create_directories(dir / "problem"); }
  ~Run() { std::error_code e; fs::remove_all(dir, e); }
  void write() { for (auto &f : files) spill(dir / "problem" / f.first, f.second.dump(1)); }
  void snapshot() { problem = tree(dir / "problem"); outputs = tree(dir / "output"); }
  std::vector<fs::path> created; // output directories that were not there before
  void finish() {
    sx_assert(tree(dir / "problem") == problem, "the problem directory is left alone");
    Tree after = tree(dir / "output");
    for (auto &b : outputs) sx_assert(after.count(b.first) && after[b.first] == b.second, "earlier output is left alone");
    created.clear();
    if (fs::is_directory(dir / "output"))
      for (auto &e : fs::directory_iterator(dir / "output")) if (!outputs.count(e.path().filename().string())) created.push_back(e.path());
    for (auto &e : fs::directory_iterator(dir)) sx_assert(e.path().filename() == "problem" || e.path().filename() == "output", "nothing else is created");
  }
  void go(std::vector<std::string> args = {}) {
    snapshot();
    if (args.empty()) args = {"run", dir.string()};
    rc = call(args);
    finish();
  }
  json read(std::string name) {
    json j = json::parse(slurp(created.at(0) / name), nullptr, false);
    sx_assert(!j.is_discarded(), "the results are complete");
    return j;
  }
};
