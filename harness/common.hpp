#pragma once
#include "sx.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>
inline std::string S(std::string a, long i) { return a + std::to_string(i); }
inline std::string S(std::string a, long i, long j) { return a + std::to_string(i) + "_" + std::to_string(j); }
inline nlohmann::json val(double v, std::string unit = "m") { return {{"value", v}, {"unit", unit}}; }
template <class F> bool throws(F f) {
  try { f(); } catch (std::exception &) { return true; }
  return false;
}
