// Stand-in for the third-party json-schema-validator (not installed here).  It checks the keywords that grazer's schemas use
// (type, required, properties, additionalProperties, items, minItems, maxItems, minimum, exclusiveMinimum, maximum, enum, const,
// contains, allOf, oneOf, pattern, patternProperties) with their standard meaning and accepts everything else.
#pragma once
#include <nlohmann/json.hpp>
#include <regex>
#include <string>
namespace nlohmann::json_schema {
  class error_handler {
  public:
    virtual ~error_handler() {}
    virtual void error(nlohmann::json::json_pointer const &, nlohmann::json const &, std::string const &) = 0;
  };
  class json_validator {
    nlohmann::json root;
    static bool has_type(nlohmann::json const &d, std::string const &t) {
      if (t == "object") return d.is_object();
      if (t == "array") return d.is_array();
      if (t == "string") return d.is_string();
      if (t == "number") return d.is_number();
      if (t == "integer") return d.is_number_integer();
      if (t == "boolean") return d.is_boolean();
      if (t == "null") return d.is_null();
      return true;
    }
    static std::string check(nlohmann::json const &d, nlohmann::json const &s) {
      if (!s.is_object()) return "";
      if (s.contains("type")) {
        auto const &t = s["type"];
        bool ok = false;
        if (t.is_string()) ok = has_type(d, t.get<std::string>());
        else for (auto const &x : t) ok = ok || has_type(d, x.get<std::string>());
        if (!ok) return "unexpected instance type";
      }
      if (s.contains("allOf"))
        for (auto const &x : s["allOf"]) if (auto e = check(d, x); !e.empty()) return e;
      if (s.contains("oneOf")) {
        int n = 0;
        for (auto const &x : s["oneOf"]) n += check(d, x).empty();
        if (n != 1) return "case exactly one subschema has succeeded, but " + std::to_string(n) + " did";
      }
      if (s.contains("pattern") && d.is_string() && !std::regex_search(d.get<std::string>(), std::regex(s["pattern"].get<std::string>(), std::regex::ECMAScript)))
        return "instance does not match regex pattern: " + s["pattern"].get<std::string>();
      if (s.contains("enum")) {
        bool ok = false;
        for (auto const &x : s["enum"]) ok = ok || x == d;
        if (!ok) return "instance not found in required enum";
      }
      if (s.contains("const") && !(s["const"] == d)) return "instance not const";
      if (d.is_object()) {
        if (s.contains("required"))
          for (auto const &x : s["required"]) if (!d.contains(x.get<std::string>())) return "required property '" + x.get<std::string>() + "' not found in object";
        if (s.contains("patternProperties"))
          for (auto const &item : d.items())
            for (auto const &q : s["patternProperties"].items())
              if (std::regex_search(item.key(), std::regex(q.key(), std::regex::ECMAScript)))
                if (auto e = check(item.value(), q.value()); !e.empty()) return e;
        for (auto const &item : d.items())
          if (s.contains("properties") && s["properties"].contains(item.key())) { if (auto e = check(item.value(), s["properties"][item.key()]); !e.empty()) return e; }
          else if (s.contains("additionalProperties")) {
            auto const &a = s["additionalProperties"];
            if (a.is_boolean() && !a.get<bool>()) return "validation failed for additional property '" + item.key() + "'";
            if (auto e = check(item.value(), a); !e.empty()) return e;
          }
      }
      if (d.is_array()) {
        if (s.contains("minItems") && d.size() < s["minItems"].get<size_t>()) return "array has too few items";
        if (s.contains("maxItems") && d.size() > s["maxItems"].get<size_t>()) return "array has too many items";
        if (s.contains("items"))
          for (auto const &x : d) if (auto e = check(x, s["items"]); !e.empty()) return e;
        if (s.contains("contains")) {
          bool ok = false;
          for (auto const &x : d) ok = ok || check(x, s["contains"]).empty();
          if (!ok) return "array does not contain required element as per 'contains'";
        }
      }
      if (d.is_number()) {
        if (s.contains("minimum") && d.get<double>() < s["minimum"].get<double>()) return "instance is below minimum";
        if (s.contains("exclusiveMinimum") && d.get<double>() <= s["exclusiveMinimum"].get<double>()) return "instance is below minimum";
        if (s.contains("maximum") && d.get<double>() > s["maximum"].get<double>()) return "instance exceeds maximum";
      }
      return "";
    }
  public:
    void set_root_schema(nlohmann::json const &s) { root = s; }
    nlohmann::json validate(nlohmann::json const &d, error_handler &h) const {
      if (auto e = check(d, root); !e.empty()) h.error(nlohmann::json::json_pointer(), d, e);
      return {};
    }
    nlohmann::json validate(nlohmann::json const &d) const {
      if (auto e = check(d, root); !e.empty()) throw std::invalid_argument(e);
      return {};
    }
  };
}
