// What toy.hpp and opt.hpp need when they are used with ordinary numbers.
#pragma once
#include "kit.hpp"
#include <sstream>
#include <string>
template <class... A> std::string S(A const &...a) { std::ostringstream o; int n = 0; ((o << (n++ > 1 ? "_" : "") << a), ...); return o.str(); }
inline bool sx_is_concrete(double) { return true; }
inline void sx_fail(std::string const &w) { check(false, w); throw std::runtime_error(w); }
inline void sx_assert(bool b, std::string const &w) { check(b, w); }
inline double sx_number() { static unsigned long s = 12345; s = s * 6364136223846793005UL + 1442695040888963407UL; return (double)(s >> 40) / (double)(1UL << 24); }
inline double sx_double(std::string const &, double lo, double hi) { return lo + (hi - lo) * sx_number(); }
inline int sx_int(std::string const &, int lo, int hi) { return lo + (int)(sx_number() * (hi - lo + 1)) % (hi - lo + 1); }
inline bool sx_bool(std::string const &) { return sx_number() < 0.5; }
inline void sx_assume(bool) {}
