// The programs of helper_functions, each linked with its main renamed to tool_<name>, and numbers on their command line.
#pragma once
#include <cmath>
#include "wholefiles.hpp"
#define TOOL(name) extern "C++" int tool_##name(int, char **) __asm__("tool_" #name)
extern "C" double __real_strtod(char const *, char **);
extern "C" double __wrap_strtod(char const *s, char **end) {
  if (strncmp(s, "1.25e1000", 9) == 0) {
    size_t k = strtoul(s + 9, end, 10);
    if (k < sx_dumped().size()) return sx_dumped()[k];
  }
  return __real_strtod(s, end);
}
// the text of a number, as JSON writes it
inline std::string text(double v) { return json(v).dump(); }
// numbers that the programs print: a symbolic one as the token that the parser knows, rounded to the digits of the stream
extern "C" std::ostream &__real__ZNSo9_M_insertIdEERSoT_(std::ostream &, double);
extern "C" std::ostream &__wrap__ZNSo9_M_insertIdEERSoT_(std::ostream &o, double v) {
  static int rounded = 0;
  if (!sx_identity(v)) return __real__ZNSo9_M_insertIdEERSoT_(o, v);
  if (o.precision() < 17) {
    double e = o.flags() & std::ios_base::fixed ? 0.5 : 5;
    for (int i = 0; i < o.precision(); ++i) e /= 10;
    double r = sx_double(S("rounding", rounded++), -e, e);
    v += o.flags() & std::ios_base::fixed ? r : r * v;
  }
  return o << text(v);
}
typedef int (*Tool)(int, char **);
inline int use(Tool tool, std::vector<std::string> args, std::string *out = nullptr) {
  Quiet q;
  args.insert(args.begin(), "tool");
  std::vector<char *> v;
  for (auto &a : args) v.push_back(&a[0]);
  v.push_back(nullptr);
  int rc;
  try {
    rc = tool(int(args.size()), v.data());
  } catch (std::exception &e) { // a program ends with a failure then
    q.text << e.what();
    rc = 134;
  }
  if (out) *out = q.text.str();
  if (getenv("SX_SHOW")) fprintf(stderr, "%s\n[exit %d]\n", q.text.str().c_str(), rc);
  return rc;
}
