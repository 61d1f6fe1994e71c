// An object made through a Python module definition (see pybind_stub).
#pragma once
#include "common.h"
#include "objface.h"
#include "pybind_stub/include/vp_pyrec.h"
#include <dlfcn.h>
namespace vp {
struct PyObj : Obj {
  using Val = vp_py::Value;
  using Kw = std::vector<std::pair<std::string, Val>>;
  vp_py::Module* mod;
  std::shared_ptr<vp_py::Class> c;
  std::shared_ptr<void> self;
  unsigned turn = 0;
  // import of module NAME from NAME.so, then NAME.CLS()
  PyObj(const std::string& file, const std::string& cls) {
    void* h = dlopen(file.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) throw std::runtime_error(std::string("ImportError: ") + dlerror());
    std::string n = file.substr(file.rfind('/') + 1);
    n = n.substr(0, n.find('.'));
    auto in = (void* (*)())dlsym(h, ("PyInit_" + n).c_str());
    if (!in) throw std::runtime_error("ImportError: no PyInit_" + n);
    mod = (vp_py::Module*)in();
    for (auto& k : mod->classes) if (k->name == cls) c = k;
    if (!c) throw std::runtime_error("AttributeError: no class " + cls);
    if (!c->init0) throw std::runtime_error("TypeError: no constructor without arguments");
    self = c->make();
  }
  static Val v(const V& x) { Val r; r.k = Val::array; r.m = x; return r; }
  static Val v(const std::string& x) { Val r; r.k = Val::text; r.s = x; return r; }
  static Val v(bool x) { Val r; r.k = Val::boolean; r.b = x; return r; }
  // arguments by position, by keyword, or the first by position and the others by keyword
  Val call(const std::string& n, Kw kw) {
    std::vector<Val> pos;
    int style = kw.empty() ? 0 : turn++ % 3;
    if (style == 1) { std::reverse(kw.begin(), kw.end()); return vp_py::call(*c, self.get(), n, pos, kw); }
    for (std::size_t i = 0; i < kw.size(); i++) if (style == 0 || i == 0) pos.push_back(kw[i].second);
    if (style == 0) kw.clear();
    else kw.erase(kw.begin());
    return vp_py::call(*c, self.get(), n, pos, kw);
  }
  // a flag that is true: given or left to its default, in turn
  Kw flag(Kw k, const char* n, bool u) { if (!u || (turn / 3) % 2) k.push_back({n, v(u)}); return k; }
  static Eigen::MatrixXd mat_of(const Val& x) {
    if (x.k == Val::array) return x.m;
    if (x.k == Val::integer) return Eigen::MatrixXd::Constant(1, 1, x.i);
    throw vp_py::TypeError("result is not an array");
  }
  std::unique_ptr<Obj> clone(bool) const override { throw std::runtime_error("no copies of Python objects"); }
  void set(const std::string& a, const V& x, bool u) override {
    static const std::string par[] = {"REG", "DYN", "K", "D", "Dm", "Mm", "Dl", "DHtable", "gravity", "world2L0", "Ln2EE"};
    for (auto& p : par)
      if (a == p) {
        Kw k{{"par", v(x)}};
        if (a == "REG") k = flag(k, "update_DYN", u);
        if (a == "DYN") k = flag(k, "update_REG", u);
        call("set_par_" + a, k);
        return;
      }
    call("set_" + a, {{a, v(x)}});
  }
  void setall(const V& a, const V& b, const V& d, const V& e) override { call("setArguments", {{"q", v(a)}, {"dq", v(b)}, {"dqr", v(d)}, {"ddqr", v(e)}}); }
  void resize() override { call("resizeVariables", {}); }
  V get(const std::string& a) override {
    Eigen::MatrixXd m = mat_of(call("get_par_" + a, {}));
    return V(Eigen::Map<const V>(m.data(), m.size()));
  }
  Eigen::MatrixXd eval(const std::string& f) override { return mat_of(call("get_" + f, {})); }
  std::string info() override {
    auto n = [&](const char* f) { return std::to_string((long)mat_of(call(f, {}))(0, 0)); };
    return "\"nj\":" + n("get_numJoints") + ",\"npd\":" + n("get_numParDYN") + ",\"npr\":" + n("get_numParREG");
  }
  std::vector<std::string> fns() override { std::vector<std::string> r; for (auto& m : c->methods) r.push_back(m.name); return r; }
  void load_conf(const std::string& f, bool u) override { call("load_conf", flag({{"file_path", v(f)}}, "update_REG", u)); }
  V load_reg(const std::string& f, bool u) override { return mat_of(call("load_par_REG", flag({{"file_path", v(f)}}, "update_DYN", u))); }
  void save(const std::string& k, const std::string& f) override { call(k == "reg" ? "save_par_REG" : "save_par_DYN", {{"file_path", v(f)}}); }
  int save_par(const std::string& f) override { return (int)mat_of(call("save_par", {{"file_path", v(f)}}))(0, 0); }
  // the definition of the module
  std::string definition() {
    std::string s = "\"mod\":" + esc(mod->name) + ",\"classes\":[";
    for (std::size_t i = 0; i < mod->classes.size(); i++) s += (i ? "," : "") + esc(mod->classes[i]->name);
    s += "],\"defs\":[";
    for (std::size_t i = 0; i < c->methods.size(); i++) {
      auto& m = c->methods[i];
      s += std::string(i ? "," : "") + "{\"n\":" + esc(m.name) + ",\"args\":[";
      for (std::size_t j = 0; j < m.params.size(); j++) {
        auto& p = m.params[j];
        std::string d = !p.hasdef ? "" : p.def.k == Val::boolean ? (p.def.b ? "True" : "False") : "other";
        s += std::string(j ? "," : "") + "{\"n\":" + esc(p.name) + ",\"d\":" + esc(d) + "}";
      }
      s += "]}";
    }
    return s + "]";
  }
};
}  // namespace vp
