// Compiled once per generated robot, together with the generated wrapper:
//   -DCLS=thunder_<n>  -DWRAPPER="thunder_<n>.cpp"  -DFNS="names.inc" (F(<function>) per line,
//   W(<symbol>) per line with -DVP_GATE: calls of the generated C functions pass a gate)
#include WRAPPER
#include "objface.h"
#include "common.h"
#include <functional>
#include <map>
#include <stdexcept>
#ifdef VP_GATE
static void (*vp_gate)() = nullptr;
extern "C" __attribute__((visibility("default"))) void vp_set_gate(void (*g)()) { vp_gate = g; }
#define F(n)
#define W(s)                                                                                              \
  extern "C" int __real_##s(const double** a, double** r, long long* iw, double* w, int m);               \
  extern "C" int __wrap_##s(const double** a, double** r, long long* iw, double* w, int m) {              \
    if (vp_gate) vp_gate();                                                                               \
    int x = __real_##s(a, r, iw, w, m);                                                                   \
    if (vp_gate) vp_gate();                                                                               \
    return x;                                                                                             \
  }
#include FNS
#undef F
#undef W
#endif
#define W(s)
#ifndef VP_MAKE
#define VP_MAKE vp_make
#endif
namespace {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using Fn = M (*)(CLS&);
#define F(n)                                                                                              \
  template <class T> auto has_##n(int) -> decltype(std::declval<T&>().get_##n(), true) { return true; }   \
  template <class T> bool has_##n(long) { return false; }                                                 \
  template <class T> auto ev_##n(T& o, int) -> decltype(o.get_##n(), M()) { return o.get_##n(); }         \
  template <class T> M ev_##n(T&, long) { throw std::runtime_error("no get_" #n); }
#include FNS
#undef F
const std::map<std::string, Fn>& table() {
  static const std::map<std::string, Fn> t = [] {
    std::map<std::string, Fn> r;
#define F(n) if (has_##n<CLS>(0)) r[#n] = [](CLS& o) { return ev_##n<CLS>(o, 0); };
#include FNS
#undef F
    return r;
  }();
  return t;
}
// the public name member (the generator renames it with the class)
template <class T> auto rname(T& o, int) -> decltype(std::string(o.NAMEFIELD)) { return o.NAMEFIELD; }
template <class T> std::string rname(T& o, long) { return o.robotName; }
struct A : vp::Obj {
  CLS o;
  unsigned turn = 0;
  A() {}
  A(const A& b) : o(b.o), turn(b.turn) {}
  // update flag true: given explicitly or left to the default, in turn
  bool dflt(bool u) { return u && (turn++ % 2); }
  A(A&& b) : o(std::move(b.o)), turn(b.turn) {}
  std::unique_ptr<vp::Obj> clone(bool moved) const override {
    if (!moved) return std::unique_ptr<vp::Obj>(new A(*this));
    A t(*this);
    return std::unique_ptr<vp::Obj>(new A(std::move(t)));
  }
  bool assign(const vp::Obj& x, bool moved) override {
    auto b = dynamic_cast<const A*>(&x);
    if (!b) return false;
    return put(o, b->o, moved, 0);
  }
  // when the class can be assigned
  template <class T> static auto put(T& a, const T& b, bool moved, int) -> decltype(a = b, true) {
    if (moved) { T t(b); a = std::move(t); }
    else a = b;
    return true;
  }
  template <class T> static bool put(T&, const T&, bool, long) { return false; }
  void set(const std::string& a, const V& v, bool u) override {
    if (a == "q") o.set_q(v); else if (a == "dq") o.set_dq(v); else if (a == "ddq") o.set_ddq(v); else if (a == "d3q") o.set_d3q(v);
    else if (a == "d4q") o.set_d4q(v); else if (a == "dqr") o.set_dqr(v); else if (a == "ddqr") o.set_ddqr(v); else if (a == "x") o.set_x(v);
    else if (a == "dx") o.set_dx(v); else if (a == "ddx") o.set_ddx(v); else if (a == "ddxr") o.set_ddxr(v); else if (a == "w") o.set_w(v);
    else if (a == "REG") { if (dflt(u)) o.set_par_REG(v); else o.set_par_REG(v, u); }
    else if (a == "DYN") { if (dflt(u)) o.set_par_DYN(v); else o.set_par_DYN(v, u); }
    else if (a == "K") o.set_par_K(v); else if (a == "D") o.set_par_D(v); else if (a == "Dm") o.set_par_Dm(v); else if (a == "Mm") o.set_par_Mm(v);
    else if (a == "Dl") o.set_par_Dl(v); else if (a == "DHtable") o.set_par_DHtable(v); else if (a == "gravity") o.set_par_gravity(v);
    else if (a == "world2L0") o.set_par_world2L0(v); else if (a == "Ln2EE") o.set_par_Ln2EE(v);
    else throw std::runtime_error("no argument " + a);
  }
  void setall(const V& a, const V& b, const V& c, const V& d) override { o.setArguments(a, b, c, d); }
  void resize() override { o.resizeVariables(); }
  V get(const std::string& a) override {
    auto flat = [](const M& m) { return V(Eigen::Map<const V>(m.data(), m.size())); };
    if (a == "REG") return o.get_par_REG();
    if (a == "DYN") return o.get_par_DYN();
    if (a == "K") return o.get_par_K();
    if (a == "D") return o.get_par_D();
    if (a == "Dm") return o.get_par_Dm();
    if (a == "Mm") return o.get_par_Mm();
    if (a == "Dl") return o.get_par_Dl();
    if (a == "DHtable") return flat(o.get_par_DHtable());
    if (a == "gravity") return o.get_par_gravity();
    if (a == "world2L0") return o.get_par_world2L0();
    if (a == "Ln2EE") return o.get_par_Ln2EE();
    throw std::runtime_error("no argument " + a);
  }
  M eval(const std::string& f) override {
    auto it = table().find(f);
    if (it == table().end()) throw std::runtime_error("no get_" + f);
    return it->second(o);
  }
  std::vector<std::string> fns() override { std::vector<std::string> r; for (auto& x : table()) r.push_back(x.first); return r; }
  std::string info() override {
    std::string s = "\"nj\":" + std::to_string(o.get_numJoints()) + ",\"nj2\":" + std::to_string(o.n_joints) + ",\"npd\":" + std::to_string(o.get_numParDYN()) +
                    ",\"npr\":" + std::to_string(o.get_numParREG()) + ",\"npd2\":" + std::to_string(o.numParDYN) + ",\"npr2\":" + std::to_string(o.numParREG) +
                    ",\"ela\":" + std::to_string((int)o.ELASTIC) + ",\"ne\":" + std::to_string(o.numElasticJoints) + ",\"ko\":" + std::to_string(o.K_order) +
                    ",\"do\":" + std::to_string(o.D_order) + ",\"dlo\":" + std::to_string(o.Dl_order) + ",\"dmo\":" + std::to_string(o.Dm_order) + ",\"isel\":[";
    for (int i = 0; i < o.n_joints; i++) s += (i ? "," : "") + std::to_string((int)o.isElasticJoint[i]);
    return s + "],\"name\":" + vp::esc(rname(o, 0));
  }
  void load_conf(const std::string& f, bool u) override { if (dflt(u)) o.load_conf(f); else o.load_conf(f, u); }
  V load_reg(const std::string& f, bool u) override { return dflt(u) ? o.load_par_REG(f) : o.load_par_REG(f, u); }
  void save(const std::string& k, const std::string& f) override { if (k == "reg") o.save_par_REG(f); else o.save_par_DYN(f); }
  int save_par(const std::string& f) override { return o.save_par(f); }
};
}  // namespace
extern "C" __attribute__((visibility("default"))) vp::Obj* VP_MAKE() { return new A(); }
