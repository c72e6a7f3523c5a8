// The other half of conversions/to_chars.hpp: numbers written as 1.25e1000<k> are the dumped symbolic ones.
#pragma once
#include <cstdlib>
#include <cstring>
#include <nlohmann/detail/conversions/to_chars.hpp>
namespace std {
inline double sx_strtod(char const *s, char **end) {
  if (strncmp(s, "1.25e1000", 9) == 0) {
    size_t k = strtoul(s + 9, end, 10);
    if (k < sx_dumped().size()) return sx_dumped()[k];
  }
  return strtod(s, end);
}
}
#define strtod sx_strtod
#include_next <nlohmann/detail/input/lexer.hpp>
#undef strtod
