// C25: output goes to names that did not exist before.
#include <algorithm>
#include <chrono>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "common.hpp"
#include "fsfault.hpp"
#include "Input_output.hpp"
namespace fs = std::filesystem;
static long now_ms = 0, now_step = 0; // the clock
extern "C" std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  auto t = std::chrono::system_clock::time_point(std::chrono::milliseconds(now_ms));
  now_ms += now_step;
  return t;
}
static std::string slurp(fs::path const &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spill(fs::path const &p, std::string const &s) { std::ofstream f(p, std::ios::binary); f << s; }
static std::map<std::string, std::string> tree(fs::path const &d) {
  std::map<std::string, std::string> m;
  for (auto &e : fs::recursive_directory_iterator(d)) {
    std::string k = e.path().lexically_relative(d).string();
    m[k] = e.is_symlink() ? "link " + fs::read_symlink(e.path()).string() : e.is_directory() ? "directory" : "file " + slurp(e.path());
  }
  return m;
}
static void untouched(std::map<std::string, std::string> const &before, std::map<std::string, std::string> const &after) {
  for (auto &b : before) sx_assert(after.count(b.first) && after.at(b.first) == b.second, "what existed before is left alone");
}
static fs::path scratch(std::string name) {
  fs::path d = fs::current_path() / (name + std::to_string(getpid()));
  fs::remove_all(d);
  fs::create_directories(d);
  return d;
}
// what is in the way of candidate k: 0 nothing, 1 directory, 2 file, 3 dangling link, 4 a rival creates it in the last moment
static std::vector<int> way;
static int asked;
static fs::path where;
static std::string rival_at;
static std::vector<std::string> rivals;
static std::string name(int k) { return "name" + std::to_string(k); }
static bool directory_wanted;
static void obstacle(int k) {
  fs::path p = where / name(k);
  switch (k < int(way.size()) ? way[k] : 0) {
  case 1: fs::create_directory(p); spill(p / "data", "old"); break;
  case 2: spill(p, "old"); break;
  case 3: fs::create_symlink(where / ("target" + std::to_string(k)), p); break;
  }
}
static std::string next_name() { return name(asked++); }
static fs::path next_file(fs::path const &) { return where / name(asked++); }
static void rival(std::string const &op) {
  for (int k = 0; k < int(way.size()); ++k)
    if (way[k] == 4 && op.find((where / name(k)).string()) != std::string::npos && !fs::exists(where / name(k))) {
      if (directory_wanted) { fs::create_directory(where / name(k)); spill(where / name(k) / "theirs", "theirs"); } else spill(where / name(k), "theirs");
      rivals.push_back(name(k));
    }
}
static void unique(bool dir) {
  directory_wanted = dir;
  int tries = dir ? 20 : 10;
  // a number of taken candidates, the kinds of the first few are arbitrary
  int deep = sx_param("kinds", 3), taken = sx_int("taken", 0, tries);
  way.assign(taken, 1);
  for (int i = 0; i < deep && i < taken; ++i) way[i] = sx_int(S("kind", i), 1, 4);
  if (taken > deep) way[taken - 1] = sx_int("lastkind", 1, 4);
  where = scratch(dir ? "ud" : "uf");
  for (int k = 0; k < taken; ++k) obstacle(k);
  auto before = tree(where);
  asked = 0;
  fsfault::arm(where.string(), -1, fsfault::none);
  fsfault::st.rival = rival;
  fs::path got;
  bool threw = throws([&] { got = dir ? io::unique_output_directory(where, next_name) : io::create_new_output_file("file.json", next_file); });
  fsfault::disarm();
  auto after = tree(where);
  untouched(before, after);
  for (auto &r : rivals) { sx_assert(slurp(dir ? where / r / "theirs" : where / r) == "theirs", "a rival's output is left alone"); sx_reach("rival"); }
  bool odd = false; // a file in the way of a directory may be reported instead of skipped
  for (int k : way) odd = odd || (dir && k > 1 && k < 4);
  sx_assert(asked >= 1 && asked <= 100, "bounded number of attempts");
  if (!threw) {
    std::string n = got.filename().string();
    sx_assert(got == where / n, "created where it was asked for");
    sx_assert(!before.count(n) && std::find(rivals.begin(), rivals.end(), n) == rivals.end(), "the name did not exist before");
    sx_assert(n == name(asked - 1), "the candidate tried last");
    sx_assert(dir ? fs::is_directory(got) && fs::is_empty(got) : fs::is_regular_file(got) && fs::file_size(got) == 0, "created and empty");
    sx_assert(after.size() == before.size() + (dir ? 2 : 1) * rivals.size() + 1, "nothing else is created");
    sx_reach(dir ? "directory" : "file");
  } else {
    sx_assert(odd || taken >= tries, "gives up only after the number of attempts");
    sx_assert(after.size() == before.size() + (dir ? 2 : 1) * rivals.size(), "nothing is created");
    sx_reach("gave up");
  }
  if (taken >= tries) sx_assert(threw, "gives up when every candidate exists");
  fs::remove_all(where);
}
// the default name generators: the name depends on the time to the millisecond
static void timed() {
  static long const base[4] = {0, 1650000000000L, 1700003599000L, 4102444799000L};
  static int const milli[6] = {0, 5, 50, 99, 500, 999};
  long t = base[sx_int("second", 0, 3)] + milli[sx_int("ms", 0, 5)], step = sx_int("step", 0, 1);
  int kind = sx_int("function", 0, 3), taken = sx_int("taken", 0, 2), outstate = sx_int("output", 0, 2);
  fs::path dir = scratch("pt");
  now_ms = t; now_step = 0;
  auto stamp = [](long ms) { time_t s = ms / 1000; char b[64]; strftime(b, sizeof b, "%Y.%m.%d_%H:%M:%S", localtime(&s)); char r[80]; snprintf(r, sizeof r, "%s.%03d", b, int(ms % 1000)); return std::string(r); };
  if (kind == 0) {
    sx_assert(io::millisecond_datetime_timestamp() == stamp(t), "date, time and three digits of milliseconds");
    sx_reach("timestamp");
  } else if (kind == 1) {
    char const *in[4] = {"a/b/output.json", "/x/out", "o.tar.gz", "../q.json"};
    fs::path p = in[outstate + (taken > 0)], q = io::attach_epoch_count(p);
    sx_assert(q == p.parent_path() / (p.stem().string() + "_" + std::to_string(t) + p.extension().string()), "epoch count attached to the name");
    sx_reach("epoch");
  } else if (kind == 2) { // prepare_output_file
    fs::path out = dir / "output";
    if (outstate == 2) spill(out, "a file");
    if (outstate == 1) { fs::create_directory(out); for (int i = 0; i < taken; ++i) spill(out / ("output_" + std::to_string(t + i) + ".json"), "old"); }
    auto before = tree(dir);
    now_step = step;
    fs::path got;
    bool threw = throws([&] { got = io::prepare_output_file(dir); });
    auto after = tree(dir);
    untouched(before, after);
    if (outstate == 2) sx_assert(threw, "a file named output is reported");
    if (outstate == 0 || taken == 0 || step) if (outstate != 2) sx_assert(!threw, "a free name is found");
    if (!threw) {
      sx_assert(got.is_absolute() && fs::is_regular_file(got) && fs::file_size(got) == 0 && fs::equivalent(got.parent_path(), out), "new empty file in the output directory");
      std::string n = "output/" + got.filename().string();
      sx_assert(!before.count(n), "the name did not exist before");
      sx_reach("output file");
    }
  } else {
    if (outstate) for (int i = 0; i < taken; ++i) { fs::create_directory(dir / stamp(t + i)); spill(dir / stamp(t + i) / "f", "old"); }
    auto before = tree(dir);
    now_step = step;
    fs::path got;
    bool threw = throws([&] { got = io::unique_output_directory(dir); });
    untouched(before, tree(dir));
    if (taken == 0 || !outstate || step) sx_assert(!threw, "a free directory is found");
    else sx_assert(threw, "gives up when the clock stands still");
    if (!threw) { sx_assert(fs::is_directory(got) && fs::is_empty(got) && got.parent_path() == dir && !before.count(got.filename().string()), "new empty directory"); sx_reach("default name"); }
  }
  fs::remove_all(dir);
}
// input files are copied, output files created
static void fill() {
  int problem = sx_int("problem", 0, 2), names = sx_int("names", 0, 3), out = sx_int("out", 0, 4);
  fs::path dir = scratch("fl"), p = dir / "problem", o = dir / "out";
  fs::create_directories(o);
  if (problem > 0) { fs::create_directory(p); spill(p / "topology.json", "{\"a\": 1}"); spill(p / "empty", ""); }
  if (problem > 1) { fs::create_directories(p / "sub" / "deep"); spill(p / "sub" / "deep" / "x.json", std::string(100000, 'x')); }
  std::vector<std::string> files = {"states.json", "controls.json", "more.json"};
  files.resize(names);
  if (out == 1) spill(o / "states.json", "old");
  if (out == 2) spill(o / "controls.json", "old");
  if (out == 3) { fs::create_directory(o / "problem"); spill(o / "problem" / "topology.json", "old"); }
  if (out == 4) spill(o / "else", "old");
  auto before = tree(dir);
  bool defaulted = names == 0;
  bool threw = throws([&] { if (defaulted) io::prepare_output_directory(o, p); else io::prepare_output_directory(o, p, files); });
  auto after = tree(dir);
  untouched(before, after);
  bool clash = problem == 0 || (out == 1 && names > 0) || (out == 2 && names > 1) || (out == 3);
  sx_assert(threw == clash, clash ? "an existing output file or a missing input is reported" : "an empty output directory is filled");
  if (!threw) {
    for (auto &b : before) if (b.first.compare(0, 8, "problem/") == 0) sx_assert(after.count("out/" + b.first) && after["out/" + b.first] == b.second, "input files are copied");
    for (auto &f : files) sx_assert(after.count("out/" + f) && after["out/" + f] == "file ", "output files are created");
    size_t copied = 0;
    for (auto &b : before) copied += b.first.compare(0, 7, "problem") == 0;
    sx_assert(after.size() == before.size() + copied + files.size(), "nothing else is created");
    sx_reach("filled");
  } else sx_reach("clash");
  fs::remove_all(dir);
}
// is a path below the root
static void below() {
  static char const *parts[5] = {"..", "a", "b", ".", "ab"};
  int r = sx_int("root", 0, 3), n = sx_int("n", 0, sx_param("components", 4));
  char const *roots[4] = {"/a", "/a/b", "a/b", "a"};
  bool absolute = sx_bool("absolute");
  std::string f = absolute ? "/" : "";
  std::vector<std::string> comp, base;
  for (int i = 0; i < n; ++i) { comp.push_back(parts[sx_int(S("c", i), 0, 4)]); f += (i ? "/" : "") + comp.back(); }
  { std::stringstream s(roots[r]); std::string x; while (std::getline(s, x, '/')) if (!x.empty()) base.push_back(x); }
  bool rooted = absolute || roots[r][0] == '/';
  std::vector<std::string> at;
  if (!absolute) at = base;
  for (auto &c : comp) {
    if (c == ".") continue;
    if (c != "..") at.push_back(c);
    else if (!at.empty() && at.back() != "..") at.pop_back();
    else if (!rooted) at.push_back("..");
  }
  bool want = rooted == (roots[r][0] == '/') && at.size() >= base.size() && std::equal(base.begin(), base.end(), at.begin());
  sx_assert(io::absolute_file_path_in_root(roots[r], f) == want, want ? "a path below the root is accepted" : "a path that leaves the root is noticed");
  sx_reach(want ? "inside" : "outside");
}
void harness() {
  int part = sx_int("part", 0, 4);
  if (part == 0) unique(true);
  else if (part == 1) unique(false);
  else if (part == 2) timed();
  else if (part == 3) fill();
  else below();
}
