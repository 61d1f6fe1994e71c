// Canonical JSON of a YAML file: scalars as strings, maps as objects, sequences as arrays.
#pragma once
#include <yaml-cpp/yaml.h>
#include "common.h"
namespace vp {
inline std::string yj(const YAML::Node& n) {
  if (!n.IsDefined() || n.IsNull()) return "\"\"";
  if (n.IsScalar()) return esc(n.Scalar());
  std::string s;
  if (n.IsSequence()) {
    s = "[";
    for (std::size_t i = 0; i < n.size(); i++) { if (i) s += ","; s += yj(n[i]); }
    return s + "]";
  }
  s = "{";
  bool first = true;
  for (auto it = n.begin(); it != n.end(); ++it) { if (!first) s += ","; first = false; s += esc(it->first.Scalar()) + ":" + yj(it->second); }
  return s + "}";
}
}
