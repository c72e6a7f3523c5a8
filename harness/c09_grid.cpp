// C09: grids of times.  The desired step is a symbolic fraction of a symbolic interval, so that every ratio is covered.
#include "InterpolatingVector.hpp"
#include "Timedata.hpp"
#include "helpers.hpp"
#include "toy.hpp"
using namespace Aux;
static json control_file;
// stands in for reading control.json
extern "C" json __wrap__ZN8aux_json23get_json_from_file_pathERKNSt10filesystem7__cxx114pathE(std::filesystem::path const &) { return control_file; }
static void hits(InterpolatingVector_Base const &v, double start, double end, long n, std::string what) {
  sx_assert(v.size() == n, what + ": number of points");
  auto p = v.get_interpolation_points();
  double step = (end - start) / (double)(n - 1);
  for (long i = 0; i < n; ++i) sx_eq(p[i], start + (double)i * step, what + ": equidistant points");
}
// smallest number of steps that are no longer than the desired one
static void minimal(long steps, double len, double desired, std::string what) {
  sx_assert(steps >= 1, what + ": at least one step");
  sx_le(len, (double)steps * desired, what + ": no step longer than desired");
  sx_lt((double)(steps - 1) * desired, len, (what + ": no more steps than needed").c_str());
}
static void delta_end(int maxn) {
  double start = sx_double("start", -1000, 1000), len = sx_double("length", -100, 1000), d = sx_double("desired", -1, 2000);
  sx_assume(d <= 0 || len <= 0 || len < maxn * d);
  Interpolation_data r{};
  bool thrown = throws([&] { r = make_from_start_delta_end(start, d, start + len); });
  sx_assert(thrown == (len <= 0 || d <= 0), "empty interval or step is rejected");
  if (thrown) { sx_reach("rejected"); return; }
  long n = (long)r.number_of_entries;
  minimal(n - 1, len, d, "grid");
  sx_eq(r.first_point, start, "first point");
  InterpolatingVector v(r, sx_int("inner", 0, 2));
  hits(v, start, start + len, n, "grid");
  sx_reach("delta end");
}
static void number_end(int maxn) {
  double start = sx_double("start", -1000, 1000), len = sx_double("length", -100, 1000);
  int n = sx_int("n", -1, maxn);
  Interpolation_data r{};
  bool thrown = throws([&] { r = make_from_start_number_end(start, start + len, n); });
  sx_assert(thrown == (n < 2 || len <= 0), "too few points or an empty interval is rejected");
  if (thrown) return;
  hits(InterpolatingVector(r, 1), start, start + len, n, "grid from number");
  sx_reach("number end");
}
static void delta_number(int maxn) {
  double start = sx_double("start", -1000, 1000), d = sx_double("delta", -1, 1000);
  int n = sx_int("n", -1, maxn);
  Interpolation_data r{};
  bool thrown = throws([&] { r = make_from_start_delta_number(start, d, n); });
  sx_assert(thrown == (n < 1 || d <= 0), "no points or an empty step is rejected");
  if (thrown) return;
  InterpolatingVector v(r, 1);
  sx_assert(v.size() == n, "number of points");
  for (int i = 0; i < n; ++i) sx_eq(v.interpolation_point_at_index(i), start + i * d, "point is start plus index times step");
  sx_reach("delta number");
}
static void timedata(int maxn) {
  double start = sx_double("start", -1000, 1000), len = sx_double("length", 0.01, 1000), d = sx_double("desired", 0.001, 2000);
  sx_assume(len < maxn * d);
  Model::Timedata t(json{{"start_time", start}, {"end_time", start + len}, {"desired_delta_t", d}});
  sx_eq(t.get_starttime(), start, "start"); sx_eq(t.get_endtime(), start + len, "end"); sx_eq(t.get_timeinterval(), len, "interval");
  long n = t.get_number_of_time_points();
  minimal(n - 1, len, d, "times");
  sx_eq(t.get_delta_t() * (double)(n - 1), len, "step times number of steps");
  // the grid of the states, as the program builds it
  auto r = make_from_start_delta_end(t.get_starttime(), t.get_delta_t(), t.get_endtime());
  hits(InterpolatingVector(r, 1), start, start + len, n, "state times");
  sx_reach("timedata");
}
// the grid of the controls, as the program builds it from the settings
static void controls(int maxn) {
  double start = sx_double("start", -1000, 1000), len = sx_double("length", 0.01, 1000), d = sx_double("desired", 0.001, 2000);
  sx_assume(len < maxn * d);
  Model::Timedata t(json{{"start_time", start}, {"end_time", start + len}, {"desired_delta_t", d}});
  json all = json::object();
  bool settings = sx_bool("settings"), hasd = settings && sx_bool("hasdelta"), hasn = settings && sx_bool("hasnumber");
  double cd = sx_double("controldelta", 0.001, 2000);
  int n = hasn ? sx_int("n", 1, maxn) : 0, nc = sx_int("controls", 0, 2);
  if (hasd) sx_assume(len < maxn * cd);
  if (settings) all["control_settings"] = json::object();
  if (hasd) all["control_settings"]["desired_delta_t"] = cd;
  if (hasn) all["control_settings"]["number_of_steps"] = n;
  Toy toy(1, nc, 0);
  control_file = {{"file", "control"}};
  bool called = false, right = false;
  toy.controls = [&](InterpolatingVector_Base &, json const &j) { called = true; right = j == control_file; };
  InterpolatingVector v;
  bool thrown = throws([&] { setup_controls(v, toy, t, all, "nowhere"); });
  if (!nc) { sx_assert(!thrown && !called && v.size() == 0, "no controls, no grid"); return; }
  bool bad = settings && (hasd == hasn || (hasn && n < 2));
  sx_assert(thrown == bad, "contradicting or missing settings are rejected");
  if (thrown) { sx_reach("bad settings"); return; }
  sx_assert(called && right, "initial controls come from the control file");
  sx_assert(v.get_inner_length() == nc, "controls per time");
  long m = hasn ? n : settings ? v.size() : t.get_number_of_time_points();
  if (hasd) minimal(m - 1, len, cd, "control times");
  hits(v, start, start + len, m, "control times");
  sx_reach(hasn ? "controls number" : hasd ? "controls delta" : "controls default");
}
// concrete grids with many steps: rounding must not push the last point off the end
static void many() {
  int k = sx_int("case", 0, 2);
  double end = k == 0 ? 8640 : k == 1 ? 1000 : 3600, d = k == 0 ? 0.1 : k == 1 ? 0.07 : 0.3;
  auto r = make_from_start_delta_end(0, d, end);
  InterpolatingVector v(r, 1);
  double last = v.interpolation_point_at_index(v.size() - 1);
  sx_assert(last > end - 1e-10 && last < end + 1e-10, "last point of a fine grid");
  sx_reach("many");
}
void harness() {
  int maxn = sx_param("steps", 5);
  switch (sx_int("part", 0, 5)) {
    case 0: delta_end(maxn); break;
    case 1: number_end(maxn); break;
    case 2: delta_number(maxn); break;
    case 3: timedata(maxn); break;
    case 4: controls(maxn); break;
    default: many();
  }
  sx_reach("end");
}
