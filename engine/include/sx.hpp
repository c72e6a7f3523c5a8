// Harness API.  The same harness is compiled twice: once through SxPass and linked with the symbolic runtime, and once
// without any instrumentation and linked with native.cpp, which replays concrete values from a witness file.
#pragma once
#include <string>
#include <vector>
extern "C" {
double sx_double(const char *name, double lo, double hi); // fresh symbolic real in [lo,hi]
double sx_real(const char *name);                         // fresh unbounded symbolic real
int sx_int(const char *name, int lo, int hi);             // symbolic integer, forked on its value
bool sx_bool(const char *name);                           // symbolic choice
void sx_assume(bool c);                                   // drop the path unless c
// assertions. The solver searches for values on this path that break them.
void sx_assert(bool c, const char *label);
void sx_eq(double a, double b, const char *label);        // a == b
void sx_le(double a, double b, const char *label);        // a <= b (up to tolerance on replay)
void sx_lt(double a, double b, const char *label);        // a < b
void sx_fail(const char *label);                          // reached => violation
double sx_d(double y, const char *x);                     // exact partial derivative dy/dx; x names a symbolic input
double sx_limit(double y, const char *x, double x0);      // limit of y (as computed on this path) for input x -> x0
int sx_symbolic(void);                                    // 1 in the symbolic build
void sx_reach(const char *label);                         // reachability witness: must be reached by some path
void sx_observe(const char *name, double v);              // value compared between encoding and native replay
void sx_private_dir(); // from here on every path has a working directory of its own
void sx_note(const char *text);                           // recorded in the evidence (bounds)
void sx_tolerance(double rel, double abs);                // replay tolerance
int sx_is_concrete(double v);                             // 1 if v does not depend on symbolic input
int sx_param(const char *name, int dflt);                 // bound chosen by the driver (tier dependent)
void sx_quiet_lost(int on);                               // formatting region: symbolic values may be concretised
}
inline void sx_eq(double a, double b, std::string const &l) { sx_eq(a, b, l.c_str()); }
inline void sx_assert(bool c, std::string const &l) { sx_assert(c, l.c_str()); }
inline void sx_le(double a, double b, std::string const &l) { sx_le(a, b, l.c_str()); }
inline double sx_double(std::string const &n, double lo, double hi) { return sx_double(n.c_str(), lo, hi); }
inline double sx_d(double y, std::string const &x) { return sx_d(y, x.c_str()); }
inline int sx_int(std::string const &n, int lo, int hi) { return sx_int(n.c_str(), lo, hi); }
inline bool sx_bool(std::string const &n) { return sx_bool(n.c_str()); }
// Every harness defines this.
void harness();
