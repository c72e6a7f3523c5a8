// Symbolic numbers have no decimal expansion: dumping one writes a number no program means, 1.25e1000<k>, which the parser
// (see ../input/lexer.hpp) turns into the same symbolic number again.
#pragma once
#include <cstdio>
#include <map>
#include <vector>
extern "C" unsigned sx_identity(double v);
inline std::vector<double> &sx_dumped() { static std::vector<double> v; return v; }
#define to_chars original_to_chars
#include_next <nlohmann/detail/conversions/to_chars.hpp>
#undef to_chars
NLOHMANN_JSON_NAMESPACE_BEGIN
namespace detail {
template <typename F> char *to_chars(char *first, const char *last, F value) {
  if (unsigned id = sx_identity(double(value))) {
    static std::map<unsigned, size_t> known; // the same number is written in the same way
    auto k = known.emplace(id, sx_dumped().size());
    if (k.second) sx_dumped().push_back(double(value));
    return first + snprintf(first, last - first, "1.25e1000%zu", k.first->second);
  }
  return original_to_chars(first, last, value);
}
}
NLOHMANN_JSON_NAMESPACE_END
