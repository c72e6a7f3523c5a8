// C24: overwriting a json file: one operation fails, is cut short, or the process dies there.
#include <filesystem>
#include <fstream>
#include <sstream>
#include "common.hpp"
#include "fsfault.hpp"
#include "Aux_json.hpp"
#include "schema_key_insertion.hpp"
namespace fs = std::filesystem;
using nlohmann::ordered_json;
static std::string slurp(fs::path const &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
static void spill(fs::path const &p, std::string const &s) { std::ofstream f(p, std::ios::binary); f << s; }
static std::map<std::string, std::string> tree(fs::path const &d) {
  std::map<std::string, std::string> m;
  for (auto &e : fs::recursive_directory_iterator(d)) if (e.is_regular_file()) m[e.path().lexically_relative(d).string()] = slurp(e.path());
  return m;
}
static bool present(std::map<std::string, std::string> const &t, ordered_json const &a) {
  for (auto &e : t) { auto j = ordered_json::parse(e.second, nullptr, false); if (!j.is_discarded() && j == a) return true; }
  return false;
}
static bool is(fs::path const &p, ordered_json const &a) {
  if (!fs::is_regular_file(p)) return false;
  auto j = ordered_json::parse(slurp(p), nullptr, false);
  return !j.is_discarded() && j == a;
}
static ordered_json content(int size, int salt) {
  ordered_json j;
  j["$schema"] = "../schemas/x_schema.json";
  j["salt"] = salt;
  for (int i = 0; i < size; ++i) j["key" + std::to_string(i * 7 % (size + 1))] = {i, "text \\ \" \n \u00e4", 1.5 * i, nullptr, {{"b", salt}, {"a", i}}};
  return j;
}
static fsfault::Kind kinds[] = {fsfault::fail, fsfault::partial, fsfault::die_before, fsfault::die_after, fsfault::die_within};
static void single() {
  bool existed = sx_bool("existed"), again = sx_bool("again"), relative = sx_bool("relative");
  int sizes[3] = {0, 3, 300}, o = sx_int("old", 0, 2), n = sx_int("new", 0, 2);
  int kind = sx_int("kind", 0, 4), at = sx_int("operation", 0, sx_param("operations", 6));
  int stale = sx_int("bystanders", 0, 2);
  bool broken = sx_bool("broken");
  if (broken && !existed) return;
  // no choices from here on
  fs::path dir = fs::current_path() / ("ow" + std::to_string(getpid())), file = dir / "data.json";
  fs::remove_all(dir);
  fs::create_directories(dir);
  ordered_json oj = content(sizes[o], 1), nj = content(sizes[n], 2), other = content(2, 3);
  if (broken) nj["bad"] = std::string("\xff\xfe"); // cannot be written as json
  std::string old = oj.dump(2);
  if (existed) spill(file, old);
  std::vector<std::string> names = {"other.json"};
  if (stale) for (auto s : {"tmp_backup", "data.json.tmp", "data.json.bak", "data.json~", "data.json.new", "data.tmp", "backup"}) names.push_back(s);
  if (stale == 2) names.push_back("data.json.new1");
  for (auto &s : names) spill(dir / s, s == "other.json" ? other.dump() : "precious " + s);
  auto before = tree(dir);
  fs::path used = file;
  fs::path cwd = fs::current_path();
  if (relative) { fs::current_path(dir); used = "data.json"; }
  int r = with_fault(dir.string(), at, kinds[kind], [&] { aux_json::overwrite_json(used, nj); });
  if (relative) fs::current_path(cwd);
  bool hit = kinds[kind] >= fsfault::die_before ? r == 2 : fsfault::st.count > at;
  auto after = tree(dir);
  for (auto &b : before) if (b.first != "data.json") sx_assert(after.count(b.first) && after[b.first] == b.second, "other files are left alone");
  if (r == 0) {
    sx_assert(is(file, nj), "success: the file holds the new content");
    if (!hit) { sx_assert(after.size() == before.size() + !existed, "success: no stray file"); sx_reach("success"); }
  } else if (r == 1) {
    if (existed) sx_assert(after.count("data.json") && (after["data.json"] == old || is(file, nj)), "failure: old or new content in place");
    else if (after.count("data.json")) sx_assert(is(file, nj), "failure: no half-written file");
    bool removal = hit && fsfault::st.log[at].compare(0, 6, "remove") == 0; // tidying up itself failed
    if (!removal) sx_assert(after.size() <= before.size() + !existed, "failure: no stray file");
    sx_assert(hit || broken, "a failure is reported only if there was one");
    sx_reach(broken ? "cannot be written" : "failure reported");
  } else {
    sx_assert(r == 2, "ends as expected");
    if (existed) sx_assert(present(after, oj) || present(after, nj), "crash: old or new content on disk");
    sx_reach("crash");
    if (again) { // the next run overwrites another file of the directory, then this one
      ordered_json first = fs::exists(file) ? oj : ordered_json();
      bool t = throws([&] { aux_json::overwrite_json(dir / "other.json", content(1, 4)); });
      auto later = tree(dir);
      sx_assert(!t && is(dir / "other.json", content(1, 4)), "another file can be overwritten after the crash");
      if (existed) sx_assert(present(later, oj) || present(later, nj), "crash: content survives the next overwriting");
      sx_reach("next run");
    }
  }
  fs::remove_all(dir);
}
// all problem files of a directory get their schema key
static void directory() {
  static char const *types[5] = {"boundary", "control", "initial", "topology", "problem_data"};
  int files = sx_int("files", 0, sx_param("files", 3)), kind = sx_int("kind", 0, 4), at = sx_int("operation", 0, sx_param("directory_operations", 13));
  int first = files ? sx_int("first", -1, files == 1 ? 4 : 1) : -1; // proper, missing, unusable
  fs::path dir = fs::current_path() / ("dir" + std::to_string(getpid()));
  fs::remove_all(dir);
  fs::create_directories(dir / "schemas");
  fs::create_directories(dir / "problem");
  std::vector<ordered_json> oj, nj;
  // the first file may be missing or something that cannot be parsed, which must not be replaced
  static char const *bad[4] = {"", "{\"nodes\": {\"a\": 1,}}", "{\"precious\": 1", "[1, 2"};
  for (int i = 0; i < files; ++i) {
    spill(dir / "schemas" / (std::string(types[i]) + "_schema.json"), "{}");
    ordered_json j = content(i == 1 ? 300 : 2, 10 + i), m;
    j.erase("$schema");
    if (i == 0 && first == 0) j = ordered_json::object();
    else spill(dir / "problem" / (std::string(types[i]) + ".json"), i == 0 && first > 0 ? bad[first - 1] : j.dump());
    m["$schema"] = "../schemas/" + std::string(types[i]) + "_schema.json";
    for (auto &e : j.items()) m[e.key()] = e.value();
    oj.push_back(j); nj.push_back(m);
  }
  int r = with_fault(dir.string(), at, kinds[kind], [&] { Aux::schema::insert_schema_key_into_data_jsons(dir); });
  bool hit = kinds[kind] >= fsfault::die_before ? r == 2 : fsfault::st.count > at;
  auto after = tree(dir / "problem");
  bool complete = true;
  if (first > 0) {
    std::string name = std::string(types[0]) + ".json";
    sx_assert(r == 1 || r == 2, "a file that cannot be parsed is reported");
    sx_assert(after.count(name) && after[name] == bad[first - 1], "a file that cannot be parsed is left alone");
    for (int i = 1; i < files; ++i) sx_assert(present(after, oj[i]) || present(after, nj[i]), "every other file's data is still there");
    sx_reach("unusable");
    fs::remove_all(dir);
    return;
  }
  for (int i = 0; i < files; ++i) {
    if (i == 0 && first == 0) { if (r == 0) complete = is(dir / "problem" / (std::string(types[0]) + ".json"), nj[0]); continue; }
    sx_assert(present(after, oj[i]) || present(after, nj[i]), "every file's data is still there");
    complete = complete && is(dir / "problem" / (std::string(types[i]) + ".json"), nj[i]);
  }
  if (r == 0) { sx_assert(complete, "success: every file has its key and its data"); if (!hit) sx_assert(int(after.size()) == files, "no stray file"); }
  if (r == 1) { sx_assert(hit, "a failure is reported only if there was one"); sx_reach("directory failure"); }
  if (r == 2) { // run again
    bool t = throws([&] { Aux::schema::insert_schema_key_into_data_jsons(dir); });
    auto later = tree(dir / "problem");
    for (int i = first == 0; i < files; ++i) sx_assert(present(later, oj[i]) || present(later, nj[i]), "data survives a second run after the crash");
    if (!t) for (int i = 0; i < files; ++i) sx_assert(is(dir / "problem" / (std::string(types[i]) + ".json"), nj[i]), "the second run finishes the work");
    sx_reach("second run");
  }
  fs::remove_all(dir);
}
void harness() {
  if (sx_bool("directory")) directory(); else single();
}
