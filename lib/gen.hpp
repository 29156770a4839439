// Generators shared by the harnesses that deal with OpenTracing values.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <opentracing/value.h>
#include <cmath>
#include <limits>
#include "common/utility.h"
#include "json.hpp"
#include "pbt.hpp"

namespace gen {
// Valid UTF-8: ASCII, controls, quotes, NUL and multi-byte characters.
inline std::string utf8(pbt::Case& c, size_t max) {
  size_t n = c.size(max);
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    switch (c.weighted({6, 2, 1, 1, 1})) {
      case 0: s += static_cast<char>(c.range('a', 'z')); break;
      case 1: s += c.over("\"\\/<>'%,;: \x7f{}[]", 1); break;
      case 2: s += static_cast<char>(c.range(0, 31)); break;
      case 3: {
        unsigned u = c.range(0x80, 0x7ff);
        s += static_cast<char>(0xc0 | u >> 6);
        s += static_cast<char>(0x80 | (u & 63));
        break;
      }
      default:
        if (c.boolean()) {
          s += "\xe2\x82\xac";
        } else {
          s += "\xf0\x9f\x98\x80";
        }
    }
  }
  return s;
}

inline double number(pbt::Case& c) {
  switch (c.draw(5)) {
    case 0: return c.range(-1000, 1000) / 8.0;
    case 1: return static_cast<double>(c.i64());
    case 2: {
      uint64_t b = c.u64();
      double d;
      memcpy(&d, &b, sizeof d);
      return d;
    }
    case 3: return c.range(-100000, 100000) / 1000.0;
    case 4: {
      static const double specials[] = {0.0, -0.0,
          std::numeric_limits<double>::infinity(),
          -std::numeric_limits<double>::infinity(),
          std::numeric_limits<double>::quiet_NaN(),
          std::numeric_limits<double>::max(),
          std::numeric_limits<double>::min(),
          std::numeric_limits<double>::denorm_min(),
          std::numeric_limits<double>::epsilon(), 1e21, 123456789.125};
      return c.pick(specials);
    }
    default: return std::ldexp(static_cast<double>(c.draw(~0ull)),
                               static_cast<int>(c.range(-200, 200)));
  }
}

// const char* values refer to storage kept by the holder.
struct Holder {
  std::vector<std::unique_ptr<std::string>> strings;
  const char* keep(std::string s) {
    s = s.c_str();
    strings.emplace_back(new std::string(s));
    return strings.back()->c_str();
  }
};

inline opentracing::Value value(pbt::Case& c, Holder& h, int depth) {
  using opentracing::Value;
  switch (c.weighted({2, 2, 2, 2, 3, 2, 1, depth > 0 ? 2u : 0u,
                      depth > 0 ? 2u : 0u})) {
    case 0: return Value{c.boolean()};
    case 1: return Value{number(c)};
    case 2: return Value{static_cast<int64_t>(c.i64())};
    case 3: return Value{static_cast<uint64_t>(c.u64())};
    case 4: return Value{utf8(c, 40)};
    case 5: return Value{h.keep(utf8(c, 30))};
    case 6: return Value{nullptr};
    case 7: {
      opentracing::Values vs;
      int n = c.range(0, 4);
      for (int i = 0; i < n; ++i) vs.push_back(value(c, h, depth - 1));
      return Value{vs};
    }
    default: {
      opentracing::Dictionary d;
      int n = c.range(0, 4);
      for (int i = 0; i < n; ++i) d[utf8(c, 8)] = value(c, h, depth - 1);
      return Value{d};
    }
  }
}

// Does the JSON value say what the OpenTracing value says?  Empty when it does.
inline std::string json_mismatch(const json::Value& j,
                                 const opentracing::Value& v);
namespace detail {
struct Compare {
  const json::Value& j;
  typedef json::Value V;
  std::string operator()(bool b) const {
    return j.kind == V::Bool && j.boolean == b ? "" : "boolean differs";
  }
  std::string operator()(double d) const {
    if (std::isnan(d) || std::isinf(d)) {
      std::string want = std::isnan(d) ? "NaN" : d < 0 ? "-Inf" : "+Inf";
      return j.kind == V::String && j.text == want ? "" : "special double";
    }
    if (j.kind != V::Number) return "double is no number";
    double got = strtod(j.text.c_str(), nullptr);
    return got == d ? "" : "double differs: " + j.text;
  }
  std::string operator()(int64_t x) const {
    return j.kind == V::Number && j.text == std::to_string(x)
               ? "" : "integer differs: " + j.text + " for " + std::to_string(x);
  }
  std::string operator()(uint64_t x) const {
    return j.kind == V::Number && j.text == std::to_string(x)
               ? "" : "integer differs: " + j.text + " for " + std::to_string(x);
  }
  std::string operator()(const std::string& s) const {
    return j.kind == V::String && j.text == s ? "" : "string differs";
  }
  std::string operator()(std::nullptr_t) const {
    return j.kind == V::Null ? "" : "null differs";
  }
  std::string operator()(const char* s) const {
    return j.kind == V::String && j.text == s ? "" : "string differs";
  }
  std::string operator()(const opentracing::Values& vs) const {
    if (j.kind != V::Array || j.items.size() != vs.size()) return "array size";
    for (size_t i = 0; i < vs.size(); ++i) {
      std::string r = json_mismatch(j.items[i], vs[i]);
      if (!r.empty()) return r;
    }
    return "";
  }
  std::string operator()(const opentracing::Dictionary& d) const {
    if (j.kind != V::Object || j.members.size() != d.size()) return "object size";
    for (auto& m : j.members) {
      auto it = d.find(m.first);
      if (it == d.end()) return "unknown member";
      std::string r = json_mismatch(m.second, it->second);
      if (!r.empty()) return r;
    }
    return "";
  }
};
}  // namespace detail
inline std::string json_mismatch(const json::Value& j,
                                 const opentracing::Value& v) {
  return apply_visitor(detail::Compare{j}, v);
}

// The same for a protobuf key-value; empty when it says what v says.
namespace detail {
struct CompareKv {
  const lightstep::collector::KeyValue& kv;
  const opentracing::Value& original;
  typedef lightstep::collector::KeyValue K;
  std::string operator()(bool b) const {
    return kv.value_case() == K::kBoolValue && kv.bool_value() == b
               ? "" : "boolean differs";
  }
  std::string operator()(double d) const {
    uint64_t a, b;
    double got = kv.double_value();
    memcpy(&a, &got, 8);
    memcpy(&b, &d, 8);
    return kv.value_case() == K::kDoubleValue && a == b ? "" : "double differs";
  }
  std::string operator()(int64_t x) const {
    return kv.value_case() == K::kIntValue && kv.int_value() == x
               ? "" : "integer differs";
  }
  std::string operator()(uint64_t x) const {
    return kv.value_case() == K::kIntValue &&
                   kv.int_value() == static_cast<int64_t>(x)
               ? "" : "unsigned integer differs";
  }
  std::string operator()(const std::string& s) const {
    return kv.value_case() == K::kStringValue && kv.string_value() == s
               ? "" : "string differs";
  }
  std::string operator()(std::nullptr_t) const {
    return kv.value_case() == K::kBoolValue && !kv.bool_value()
               ? "" : "null differs";
  }
  std::string operator()(const char* s) const {
    return kv.value_case() == K::kStringValue && kv.string_value() == s
               ? "" : "string differs";
  }
  std::string operator()(const opentracing::Values&) const { return json(); }
  std::string operator()(const opentracing::Dictionary&) const { return json(); }
  std::string json() const {
    if (kv.value_case() != K::kJsonValue) return "no JSON value";
    try {
      return json_mismatch(json::parse(kv.json_value()), original);
    } catch (const std::exception& e) {
      return std::string("bad JSON: ") + e.what() + ": " + kv.json_value();
    }
  }
};
}  // namespace detail
inline std::string kv_mismatch(const lightstep::collector::KeyValue& kv,
                               const std::string& key,
                               const opentracing::Value& v) {
  if (kv.key() != key) return "key differs";
  return apply_visitor(detail::CompareKv{kv, v}, v);
}
}  // namespace gen
#endif
