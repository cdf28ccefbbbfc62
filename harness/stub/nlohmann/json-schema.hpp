// Stand-in for pboettch/json-schema-validator (not available offline): the part of JSON schema
// that the schemas of rtbot use.
#pragma once
#include <cmath>
#include <functional>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>

namespace nlohmann {
namespace json_schema {
inline void default_string_format_check(const std::string& format, const std::string& value) {
  if (format == "date" && !std::regex_match(value, std::regex("\\d{4}-\\d{2}-\\d{2}")))
    throw std::invalid_argument(value + " is not a date string");
}
class json_validator {
  json root;
  std::function<void(const std::string&, const std::string&)> format;
  static bool is(const std::string& t, const json& v) {
    if (t == "object") return v.is_object();
    if (t == "array") return v.is_array();
    if (t == "string") return v.is_string();
    if (t == "number") return v.is_number();
    if (t == "integer") return v.is_number_integer() || (v.is_number_float() && std::floor(v.get<double>()) == v.get<double>());
    if (t == "boolean") return v.is_boolean();
    if (t == "null") return v.is_null();
    return true;
  }
  void check(const json& s, const json& v, const std::string& at) const {
    auto fail = [&](const std::string& w) { throw std::invalid_argument("At " + at + " of " + v.dump() + " - " + w); };
    if (s.contains("type") && !is(s["type"].get<std::string>(), v)) fail("unexpected instance type");
    if (s.contains("enum")) {
      bool in = false;
      for (auto& e : s["enum"]) in = in || e == v;
      if (!in) fail("instance not found in required enum");
    }
    if (v.is_number()) {
      double d = v.get<double>();
      if (s.contains("minimum") && d < s["minimum"].get<double>()) fail("instance is below minimum");
      if (s.contains("exclusiveMinimum") && d <= s["exclusiveMinimum"].get<double>()) fail("instance is below minimum");
      if (s.contains("maximum") && d > s["maximum"].get<double>()) fail("instance exceeds maximum");
    }
    if (v.is_string() && s.contains("format") && format) format(s["format"].get<std::string>(), v.get<std::string>());
    if (v.is_array()) {
      if (s.contains("minItems") && v.size() < s["minItems"].get<size_t>()) fail("array has too few items");
      if (s.contains("maxItems") && v.size() > s["maxItems"].get<size_t>()) fail("array has too many items");
      if (s.contains("items"))
        for (size_t i = 0; i < v.size(); i++) check(s["items"], v[i], at + "/" + std::to_string(i));
    }
    if (v.is_object()) {
      if (s.contains("required"))
        for (auto& r : s["required"])
          if (!v.contains(r.get<std::string>())) fail("required property '" + r.get<std::string>() + "' not found in object");
      for (auto it = v.begin(); it != v.end(); ++it) {
        bool known = false;
        if (s.contains("properties") && s["properties"].contains(it.key())) {
          known = true;
          check(s["properties"][it.key()], it.value(), at + "/" + it.key());
        }
        if (s.contains("patternProperties"))
          for (auto p = s["patternProperties"].begin(); p != s["patternProperties"].end(); ++p)
            if (std::regex_search(it.key(), std::regex(p.key()))) { known = true; check(p.value(), it.value(), at + "/" + it.key()); }
        if (!known && s.contains("additionalProperties") && s["additionalProperties"].is_boolean() && !s["additionalProperties"].get<bool>())
          fail("additional property '" + it.key() + "' not allowed");
      }
    }
    if (s.contains("oneOf")) {
      int n = 0;
      std::string why;
      for (auto& o : s["oneOf"]) {
        try { check(o, v, at); n++; } catch (const std::exception& e) { why = e.what(); }
      }
      if (n == 0) fail("no subschema has succeeded, but one of them is required to validate");
      if (n > 1) fail("more than one subschema has succeeded, but exactly one of them is required to validate");
    }
  }

 public:
  json_validator(std::nullptr_t, std::function<void(const std::string&, const std::string&)> f) : format(f) {}
  void set_root_schema(const json& s) { root = s; }
  json validate(const json& v) const { check(root, v, ""); return json(nullptr); }
};
}  // namespace json_schema
}  // namespace nlohmann
