#include <sys/stat.h>
// Replay of a witness file on the un-instrumented build.  Derivatives (sx_d) are obtained by re-running the harness in a
// child process with the input changed and taking central differences, so they do not depend on the symbolic engine.
#include "../include/sx.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

static std::map<std::string, double> in;
static std::string file, self;
static int probe = -1, callno = 0;
static bool used_d = false;
static std::map<double, double> fd_error; // error estimates of the derivatives computed by finite differences
static double tr = 1e-7, ta = 1e-10;
static int out = 1;
static std::string label = "start";

static void say(std::string const &s) { std::string t = s + "\n"; ssize_t r = write(out, t.data(), t.size()); (void)r; }
static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
[[noreturn]] static void fail(std::string const &l, std::string const &d) {
  if (probe >= 0) _exit(9);
  say("FAIL " + l + " :: " + d);
  _exit(1);
}
static double get(std::string const &n) {
  auto it = in.find(n);
  if (it == in.end()) { say("MISSING " + n); _exit(8); }
  return it->second;
}
static double rerun(int k, std::string const &x, double v) {
  int p[2];
  if (pipe(p)) _exit(8);
  pid_t c = fork();
  if (c == 0) {
    dup2(p[1], 1);
    std::string a = std::to_string(k), b = num(v);
    execl(self.c_str(), self.c_str(), file.c_str(), "--probe", a.c_str(), x.c_str(), b.c_str(), (char *)nullptr);
    _exit(8);
  }
  close(p[1]);
  std::string s; char buf[256]; ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, n);
  close(p[0]);
  int st; waitpid(c, &st, 0);
  size_t q = s.find("PROBE ");
  if (q == std::string::npos) return NAN;
  return strtod(s.c_str() + q + 6, nullptr);
}
extern "C" {
double sx_double(const char *n, double, double) { return get(n); }
double sx_real(const char *n) { return get(n); }
int sx_int(const char *n, int, int) { return (int)std::lround(get(n)); }
bool sx_bool(const char *n) { return get(n) != 0; }
void sx_assume(bool c) { if (!c) { say("ASSUME-VIOLATED"); _exit(7); } }
void sx_assert(bool c, const char *l) { label = l; if (probe >= 0) return; if (!c) fail(l, "condition is false"); }
static void obs(const char *l, double a, double b) { if (probe < 0) say("OBS2 " + num(a) + " " + num(b) + " " + l); }
void sx_eq(double a, double b, const char *l) {
  label = l;
  if (probe >= 0) return;
  obs(l, a, b);
  double t = used_d ? std::max(tr, 2e-5) : tr, ab = used_d ? std::max(ta, 1e-8) : ta;
  for (double v : {a, b, -a, -b}) { auto it = fd_error.find(v); if (it != fd_error.end()) ab = std::max(ab, it->second); }
  bool bad = std::isnan(a) || std::isnan(b) ? true : std::isinf(a) || std::isinf(b) ? a != b : std::fabs(a - b) > ab + t * (std::fabs(a) + std::fabs(b));
  if (bad) fail(l, num(a) + " differs from " + num(b));
}
void sx_le(double a, double b, const char *l) {
  label = l;
  if (probe >= 0) return;
  obs(l, a, b);
  if (!(a <= b + ta + tr * (std::fabs(a) + std::fabs(b)))) fail(l, num(a) + " is larger than " + num(b));
}
void sx_lt(double a, double b, const char *l) {
  label = l;
  if (probe >= 0) return;
  obs(l, a, b);
  if (!(a < b)) fail(l, num(a) + " is not less than " + num(b));
}
void sx_fail(const char *l) { if (probe >= 0) return; fail(l, "reached"); }
double sx_d(double y, const char *x) {
  int k = callno++;
  used_d = true;
  if (probe >= 0) { if (probe == k) { say("PROBE " + num(y)); _exit(0); } return 0; }
  double x0 = get(x), h = 1e-4 * std::max(std::fabs(x0), 1e-3);
  double big = std::fabs(y);
  auto cd = [&](double s) { double a = rerun(k, x, x0 + s), b = rerun(k, x, x0 - s); big = std::max(big, std::max(std::fabs(a), std::fabs(b))); return (a - b) / (2 * s); };
  double d1 = cd(h), d2 = cd(h / 2), d = (4 * d2 - d1) / 3;
  double e = 1e-14 * big / h + std::fabs(d1 - d2) * 1e-3; // rounding and truncation
  auto &slot = fd_error[d];
  slot = std::max(slot, e);
  return d;
}
double sx_limit(double y, const char *x, double x0) {
  int k = callno++;
  if (probe >= 0) { if (probe == k) { say("PROBE " + num(y)); _exit(0); } return y; }
  double v = get(x);
  double h = v - x0;
  if (x0 && std::fabs(h) > std::fabs(x0)) h = std::copysign(x0, h); // close in the scale of the limit point
  return rerun(k, x, x0 + h * 1e-9);
}
int sx_symbolic(void) { return 0; }
void sx_reach(const char *l) { if (probe < 0) say(std::string("REACH ") + l); }
void sx_observe(const char *n, double v) { if (probe < 0) say("OBS1 " + num(v) + " " + n); }
void sx_private_dir() {
  static int n = 0;
  std::string d = "native" + std::to_string(getpid()) + "-" + std::to_string(n++);
  if (mkdir(d.c_str(), 0777) || chdir(d.c_str())) {}
}
void sx_note(const char *) {}
void sx_tolerance(double r, double a) { tr = r; ta = a; }
int sx_is_concrete(double) { return 1; }
unsigned sx_identity(double) { return 0; }
int sx_param(const char *n, int d) { auto it = in.find(std::string("param:") + n); std::string k = std::string("SXP_") + n; const char *e = getenv(k.c_str()); return e ? atoi(e) : d; }
void sx_quiet_lost(int) {}
}
static void crash(int s) { fail("crash after " + label, "signal " + std::to_string(s)); }
int main(int c, char **v) {
  if (c < 2) return 8;
  file = v[1];
  char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); self = n > 0 ? std::string(b, n) : v[0];
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) { std::istringstream s(line); std::string k, nm; double val; s >> k; if (k == "var" || k == "choice") { s >> nm; std::string t; s >> t; val = strtod(t.c_str(), nullptr); in[nm] = val; } }
  if (c >= 6 && !strcmp(v[2], "--probe")) { probe = atoi(v[3]); in[v[4]] = strtod(v[5], nullptr); }
  out = dup(1);
  if (!freopen("/dev/null", "w", stdout)) return 8;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, crash);
  try { harness(); }
  catch (std::exception &e) { fail("uncaught exception", std::string(typeid(e).name()) + ": " + e.what()); }
  catch (...) { fail("uncaught exception", "unknown"); }
  say("DONE");
  return 0;
}
