// What a module definition records, shared by the stand-in for pybind11 and the driver.
#pragma once
#include <eigen3/Eigen/Dense>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace vp_py {
// a Python value
struct Value {
  enum K { none, boolean, integer, real, text, array } k = none;
  bool b = false;
  long i = 0;
  double d = 0;
  std::string s;
  Eigen::MatrixXd m;
};
struct Param { std::string name; bool named = false, hasdef = false; Value def; };
struct Method {
  std::string name;
  std::vector<Param> params;
  bool is_static = false;
  std::function<Value(void*, const std::vector<Value>&)> call;
};
struct Class {
  std::string name;
  bool init0 = false;
  std::vector<Method> methods;
  std::function<std::shared_ptr<void>()> make;
};
struct Module { std::string name; std::vector<std::shared_ptr<Class>> classes; };
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
// a call with Python's rules for positional and keyword arguments; tries the definitions in order
inline Value call(Class& c, void* self, const std::string& name, const std::vector<Value>& pos, const std::vector<std::pair<std::string, Value>>& kw) {
  bool any = false;
  for (auto& m : c.methods) {
    if (m.name != name) continue;
    any = true;
    if (pos.size() > m.params.size()) continue;
    std::vector<Value> a(m.params.size());
    std::vector<bool> have(m.params.size());
    bool ok = true;
    for (std::size_t i = 0; i < pos.size(); i++) { a[i] = pos[i]; have[i] = true; }
    for (auto& k : kw) {
      bool found = false;
      for (std::size_t i = 0; i < m.params.size(); i++)
        if (m.params[i].named && m.params[i].name == k.first && !have[i]) { a[i] = k.second; have[i] = found = true; }
      ok = ok && found;
    }
    for (std::size_t i = 0; i < m.params.size(); i++)
      if (!have[i]) { if (m.params[i].hasdef) a[i] = m.params[i].def; else ok = false; }
    if (!ok) continue;
    try { return m.call(self, a); }
    catch (const TypeError&) { continue; }
  }
  throw TypeError((any ? "TypeError: " : "AttributeError: ") + name);
}
}  // namespace vp_py
