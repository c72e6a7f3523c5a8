// C23: conversion of measured values to the base unit.
#include <map>
#include <cctype>
#include <cmath>
#include "common.hpp"
#include "unit_conversion.hpp"
using nlohmann::json;
using namespace Aux::unit;
struct Unit { std::string name; double factor, offset; int power; };
struct Spec { Measure const *measure; std::vector<Unit> units; };
static std::vector<Spec> specs() {
  return {
    {&length, {{"m", 1, 0, 1}, {"in", 0.0254, 0, 1}, {"ft", 0.3048, 0, 1}, {"yd", 0.9144, 0, 1}, {"mi", 1609.344, 0, 1}}},
    {&pressure, {{"Pa", 1, 0, 1}, {"bar", 100000, 0, 1}, {"atm", 101325, 0, 1}, {"psi", 6894.757, 0, 1}}},
    {&temperature, {{"K", 1, 0, 1}, {"C", 1, 273.15, 1}, {"Celsius", 1, 273.15, 1}, {"F", 5.0 / 9.0, 459.67 * 5.0 / 9.0, 1}}},
    {&mass, {{"g", 0.001, 0, 1}, {"t", 1000, 0, 1}, {"oz", 0.028349523125, 0, 1}, {"lb", 0.45359237, 0, 1}}},
    {&frequency, {{"Hz", 1, 0, 1}, {"per_min", 1.0 / 60, 0, 1}, {"per_minute", 1.0 / 60, 0, 1}}},
    {&power, {{"W", 1, 0, 1}, {"PS", 735.49875, 0, 1}}},
    {&force, {{"N", 1, 0, 1}}},
    {&volume_flux, {{"m_cube_per_s", 1, 0, 1}, {"1000m_cube_per_hour", 1000.0 / 3600, 0, 1}}},
    {&area, {{"m^2", 1, 0, 2}, {"ac", 4046.9, 0, 1}, {"acre", 4046.9, 0, 1}}},
    {&volume, {{"m^3", 1, 0, 3}, {"L", 0.001, 0, 1}, {"l", 0.001, 0, 1}}},
  };
}
static std::vector<std::pair<std::string, double>> const prefixes = {{"", 1}, {"k", 1e3}, {"m", 1e-3}, {"da", 10}, {"M", 1e6}, {"c", 1e-2}, {"mu", 1e-6}, {"h", 100}, {"d", 0.1}, {"G", 1e9}, {"n", 1e-9},
  {"T", 1e12}, {"p", 1e-12}, {"P", 1e15}, {"f", 1e-15}, {"E", 1e18}, {"a", 1e-18}, {"Z", 1e21}, {"z", 1e-21}, {"Y", 1e24}, {"y", 1e-24}};
static double expected(double v, double number, double prefix, Unit const &u) {
  for (int i = 0; i < u.power; ++i) number *= prefix;
  return v * number * u.factor + u.offset;
}
static bool number(std::string const &s, double &v) { // digits* [. digits+] [e [-] digits+], with some digit before the exponent
  size_t i = 0, d = 0;
  auto digits = [&] { size_t k = 0; while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i, ++k; return k; };
  d = digits();
  if (i < s.size() && s[i] == '.') { ++i; size_t k = digits(); if (!k) return false; d += k; }
  if (!d) return false;
  if (i < s.size() && s[i] == 'e') { ++i; if (i < s.size() && s[i] == '-') ++i; if (!digits()) return false; }
  if (i != s.size()) return false;
  v = strtod(s.c_str(), nullptr);
  return true;
}
// every prefix, unit and form of the leading number; any value
static void table() {
  auto sp = specs();
  int m = sx_int("measure", 0, int(sp.size()) - 1), u = sx_int("unit", 0, int(sp[m].units.size()) - 1), p = sx_int("prefix", 0, int(prefixes.size()) - 1);
  int f = sx_int("form", 0, sx_param("forms", 3));
  std::vector<std::pair<std::string, double>> forms = {{"", 1}, {"10 ", 10}, {"2.5 ", 2.5}, {"4e-2 ", 0.04}, {"0 ", 0}, {".5e3 ", 500}, {"123456 ", 123456}};
  double v = sx_double("v", -1e6, 1e6);
  Unit const &unit = sp[m].units[u];
  json j = {{"value", v}, {"unit", forms[f].first + prefixes[p].first + unit.name}};
  double scale = std::pow(10, std::round(std::log10(std::pow(prefixes[p].second, unit.power))));
  double got = 0;
  bool threw = throws([&] { got = sp[m].measure->parse_to_si(j); });
  sx_assert(!threw, "a value with a supported prefix and unit is accepted");
  if (unit.offset == 0) sx_eq(got / scale, expected(v / scale, forms[f].second, prefixes[p].second, unit), "converted by prefix and unit");
  else sx_eq(got, expected(v, forms[f].second, prefixes[p].second, unit), "converted by prefix, unit and offset");
  sx_reach("converted");
}
// every short string
static void strings() {
  auto sp = specs();
  int m = sx_int("measure", 0, sx_param("measures", 1)), n = sx_int("n", 0, sx_param("length", 3));
  static char const alphabet[] = "mPakbr1 .e-dinxC";
  int letters = sx_param("letters", 11);
  std::string s;
  for (int i = 0; i < n; ++i) s += alphabet[sx_int(S("c", i), 0, letters - 1)];
  double v = sx_double("v", -100, 100), num = 1;
  size_t sep = s.rfind(' ');
  bool good = sep == std::string::npos || number(s.substr(0, sep), num);
  std::string rest = sep == std::string::npos ? s : s.substr(sep + 1);
  int found = 0;
  double want = 0;
  if (good) for (auto &u : sp[m].units) for (auto &p : prefixes) if (p.first + u.name == rest) { ++found; want = expected(v, num, p.second, u); }
  double got = 0;
  bool threw = throws([&] { got = sp[m].measure->parse_to_si({{"value", v}, {"unit", s}}); });
  sx_assert(found <= 1, "one meaning");
  sx_assert(threw == !found, found ? "a supported unit is accepted" : "an unknown unit is rejected");
  if (found) { sx_eq(got, want, "value of the short string"); sx_reach("short unit"); } else sx_reach("unknown unit");
}
static void malformed() {
  auto sp = specs();
  int m = sx_int("measure", 0, int(sp.size()) - 1), kind = sx_int("kind", 0, 7);
  double v = sx_double("v", -100, 100);
  std::string u = sp[m].units[0].name;
  json bad[8] = {{{"unit", u}}, {{"value", v}}, {{"value", "3"}, {"unit", u}}, {{"value", v}, {"unit", 5}}, {{"value", v}, {"unit", u}, {"more", 1}}, json::array({v, u}), v, {{"value", nullptr}, {"unit", u}}};
  sx_assert(throws([&] { sp[m].measure->parse_to_si(bad[kind]); }), "a malformed measurement is rejected");
  sx_reach("malformed");
}
// units of one measure are not accepted by another
static void foreign() {
  auto sp = specs();
  int m = sx_int("measure", 0, int(sp.size()) - 1), o = sx_int("other", 0, int(sp.size()) - 1);
  for (auto &u : sp[o].units) {
    bool known = false;
    for (auto &w : sp[m].units) for (auto &p : prefixes) known = known || p.first + w.name == u.name;
    if (known) continue;
    sx_assert(throws([&] { sp[m].measure->parse_to_si({{"value", 1.5}, {"unit", u.name}}); }), "a unit of another measure is rejected");
    sx_reach("foreign");
  }
}
void harness() {
  int part = sx_int("part", 0, 3);
  if (part == 0) table();
  else if (part == 1) strings();
  else if (part == 2) malformed();
  else foreign();
}
