// Drives the in-memory model (class thunder_ns::Robot and the library's free functions)
// from a script of calls and records every result.  usage: libdrv SCRIPT OUTDIR JOBS
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "userDefined.h"
#include "utils.h"
#include "genYaml.h"
#include "FrameOffset.h"
#include "common.h"
#include "objops.h"
#include "yamljson.h"
#include "userexpr.h"
#include <memory>
using namespace thunder_ns;
using namespace vp;

static std::string ret(int r) { return "\"ret\":" + std::to_string(r); }
static std::string strs(const std::vector<std::string>& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += esc(v[i]); }
  return s + "]";
}
static std::string ints(const std::vector<int>& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
  return s + "]";
}
static std::vector<double> sv(const Vec& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
static Eigen::MatrixXd dense(const casadi::SX& m) {
  Eigen::MatrixXd r(m.size1(), m.size2());
  for (int i = 0; i < m.size1(); i++) for (int j = 0; j < m.size2(); j++) r(i, j) = (double)m(i, j);
  return r;
}
static LinkProp body(Script& s) {
  Vec v = s.v();  // m, c(3), I(6), rpy(3)
  LinkProp b;
  b.name = "body";
  b.mass = v(0);
  b.xyz = {v(1), v(2), v(3)};
  b.parI = {v(4), v(5), v(6), v(7), v(8), v(9)};
  b.rpy = {v(10), v(11), v(12)};
  return b;
}
static std::string bodyout(const LinkProp& b, const std::string& n = "v") {
  Vec v(10);
  v << b.mass, b.xyz[0], b.xyz[1], b.xyz[2], b.parI[0], b.parI[1], b.parI[2], b.parI[3], b.parI[4], b.parI[5];
  return "\"" + n + "\":" + vec(v);
}

static Runner make() {
  auto R = std::make_shared<std::map<int, Robot>>();
  auto P = std::make_shared<std::map<int, bool>>();  // between init_symb_parameters and update_symb_parameters
  auto F = std::make_shared<std::map<int, FrameOffset>>();
  auto O = std::make_shared<Objects>();
  begin_thread() = &Objects::thread_begin;
  end_thread() = &Objects::thread_end;
  return [R, O, F, P](const std::string& op, Script& s) -> std::string {
    std::string ores;
    if (O->run(op, s, ores)) return ores;
    auto put = [&](int k, const Robot& r) { (*P)[k] = false; R->erase(k); R->insert({k, r}); };
    if (op == "new") { int k = s.i(); std::string n = s.w(), f = s.w(); put(k, robot_from_file(n, f, 1)); return ""; }
    if (op == "newf") { int k = s.i(); std::string n = s.w(), f = s.w(); put(k, robot_from_file(n, f, 0)); return ""; }
    if (op == "newb") { int k = s.i(); std::string n = s.w(), f = s.w(); if (k % 2) put(k, Robot(YAML::LoadFile(f))); else put(k, Robot(f)); return ""; }
    if (op == "copy") { int k = s.i(), j = s.i(); 
      // by construction, by assignment (also of itself) or by move, in turn
      static thread_local unsigned turn = 0;
      unsigned t = turn++;
      Robot r = R->at(j);
      auto it = R->find(k);
      if (it == R->end() || t % 3 == 0) put(k, r);
      else if (t % 3 == 1) { it->second = r; it->second = *&it->second; }
      else it->second = std::move(r);
      (*P)[k] = (*P)[j];
      return "";
    }
    if (op == "del") { int k = s.i(); R->erase(k); return ""; }
    if (op == "rpy") { Vec v = s.v(); return "\"out\":[" + mat("R", Eigen::MatrixXd(rpyRot(sv(v)))) + "]"; }
    if (op == "createI") { Vec v = s.v(); return "\"out\":[" + mat("I", Eigen::MatrixXd(createI(sv(v)))) + "]"; }
    if (op == "hat") {
      Vec v = s.v();
      Eigen::Vector3d e(v(0), v(1), v(2));
      casadi::SX c(3, 1);
      for (int i = 0; i < 3; i++) c(i) = v(i);
      FrameOffset fo;
      return "\"out\":[" + mat("E", Eigen::MatrixXd(thunder_ns::hat(e))) + "," + mat("S", dense(thunder_ns::hat(c))) + "," + mat("F", dense(fo.hat(sv(v)))) + "]";
    }
    if (op == "frame") {
      Vec t = s.v(), y = s.v();
      FrameOffset fo(sv(y), sv(t));
      FrameOffset f2;
      f2.set_translation(sv(t));
      f2.set_ypr(sv(y));
      return "\"out\":[" + mat("R", dense(fo.get_rotation())) + "," + mat("p", dense(fo.get_translation())) + "," + mat("T", dense(fo.get_transform())) +
             "," + mat("T2", dense(f2.get_transform())) + "," + mat("R2", dense(f2.get_rotation())) + "]";
    }
    if (op == "fcon") {  // frame objects: constructors, setters, copies and the bare getters
      int o = s.i();
      std::string how = s.w();
      Vec y = s.v(), t = s.v(), g = s.v();
      if (how == "0") (*F)[o] = FrameOffset();
      else if (how == "2") (*F)[o] = FrameOffset(sv(y), sv(t));
      else (*F)[o] = FrameOffset(sv(y), sv(t), sv(g));
      return "";
    }
    if (op == "fbad") {
      std::string how = s.w();
      Vec y = s.v(), t = s.v(), g = s.v();
      try { if (how == "2") FrameOffset(sv(y), sv(t)); else FrameOffset(sv(y), sv(t), sv(g)); } catch (const std::exception&) { return ret(0); }
      return ret(1);
    }
    if (op == "fcopy") { int o = s.i(), f = s.i(); (*F)[o] = F->at(f); return ""; }
    if (op == "fset") {
      FrameOffset& f = F->at(s.i());
      std::string a = s.w();
      Vec v = s.v();
      if (a == "ypr") f.set_ypr(sv(v)); else if (a == "tr") f.set_translation(sv(v)); else f.set_gravity(sv(v));
      return "";
    }
    if (op == "fget") {
      FrameOffset& f = F->at(s.i());
      std::vector<double> y = f.get_ypr();
      return "\"out\":[" + mat("R", dense(f.get_rotation())) + "," + mat("p", dense(f.get_translation())) + "," + mat("T", dense(f.get_transform())) +
             "," + mat("g", dense(f.get_gravity())) + "," + mat("y", Eigen::MatrixXd(Eigen::Map<Vec>(y.data(), y.size()))) + "]";
    }
    if (op == "transform") {
      Vec d = s.v(), rpy = s.v();
      LinkProp b = body(s), o;
      transformBodyInertial(sv(d), sv(rpy), b, o);
      std::string r1 = bodyout(o);
      transformBodyInertial(sv(d), sv(rpy), b, b);  // in place
      return r1 + "," + bodyout(b, "v2");
    }
    if (op == "merge") {
      LinkProp a = body(s), b = body(s), o;
      mergeBodyInertial(a, b, o);
      std::string r1 = bodyout(o);
      mergeBodyInertial(a, b, a);  // in place
      return r1 + "," + bodyout(a, "v2");
    }
    if (op == "geninertial") {
      std::string n = s.w(); int nj = s.i(); std::string f = s.w(), d = s.w(), r = s.w();
      return ret(genInertial_files(n, nj, f, d, r));
    }
    if (op == "yaml") { std::string f = s.w(); return "\"y\":" + yj(YAML::LoadFile(f)); }
    if (op == "cas") {  // a saved casadi function applied to numbers
      std::string name = s.w(), file = s.w();
      int n = s.i();
      std::vector<casadi::DM> in;
      for (int k = 0; k < n; k++) { Vec v = s.v(); in.push_back(casadi::DM(sv(v))); }
      casadi::Function f = casadi::Function::load(file);
      std::vector<casadi::DM> out = f(in);
      casadi::DM o = casadi::DM::densify(out[0]);
      Eigen::MatrixXd m(o.size1(), o.size2());
      for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = (double)o(i, j);
      return "\"out\":[" + mat(name, m) + "]";
    }
    int k = s.i();
    Robot& r = R->at(k);
    if (op == "fns") {
      std::string o = "\"fns\":[";
      auto fs = r.get_functions();
      for (std::size_t i = 0; i < fs.size(); i++)
        o += std::string(i ? "," : "") + "{\"n\":" + esc(fs[i].name) + ",\"r\":" + std::to_string(fs[i].out_size[0]) + ",\"c\":" + std::to_string(fs[i].out_size[1]) + ",\"args\":" + strs(fs[i].args) + "}";
      // the complete form: the same list, with functions that can be called on their own
      auto gs = r.get_functions(false);
      bool same = gs.size() == fs.size();
      for (std::size_t i = 0; same && i < fs.size(); i++) {
        same = gs[i].name == fs[i].name && gs[i].args == fs[i].args && gs[i].out_size == fs[i].out_size && gs[i].expr.size1() == fs[i].out_size[0] && gs[i].expr.size2() == fs[i].out_size[1];
        if (!same || (*P)[k] || (fs.size() > 60 && i % 5)) continue;
        std::vector<casadi::DM> in;
        for (auto& a : gs[i].args) { Vec v = r.get_arg(a); in.push_back(casadi::DM(std::vector<double>(v.data(), v.data() + v.size()))); }
        casadi::DM y = gs[i].fun(in)[0];
        Eigen::MatrixXd w = r.get(gs[i].name);
        same = y.size1() == w.rows() && y.size2() == w.cols();
        for (int a = 0; same && a < w.rows(); a++) for (int b = 0; same && b < w.cols(); b++) {
          double u = (double)y(a, b), z = w(a, b);
          same = std::abs(u - z) <= 1e-9 * (1 + std::abs(u)) || (u != u && z != z);
        }
      }
      return o + "],\"same\":" + (same ? "1" : "0");
    }
    if (op == "info") {
      return "\"nj\":" + std::to_string(r.get_numJoints()) + ",\"types\":" + strs(r.get_jointsType()) + ",\"ela\":" + std::to_string((int)r.get_ELASTIC()) +
             ",\"ko\":" + std::to_string(r.get_K_order()) + ",\"do\":" + std::to_string(r.get_D_order()) + ",\"dlo\":" + std::to_string(r.get_Dl_order()) +
             ",\"dmo\":" + std::to_string(r.get_Dm_order()) + ",\"ne\":" + std::to_string(r.get_numElasticJoints()) + ",\"isel\":" + ints(r.get_isElasticJoint()) +
             ",\"npd\":" + std::to_string(r.get_numParDYN()) + ",\"npr\":" + std::to_string(r.get_numParREG());
    }
    if (op == "eval") {
      std::string o = "\"out\":[";
      auto fs = s.ws();
      for (std::size_t i = 0; i < fs.size(); i++) o += std::string(i ? "," : "") + mat(fs[i], r.get(fs[i]));
      return o + "]";
    }
    if (op == "set") {
      std::string a = s.w();
      Vec v = s.v();
      int x = a == "q" ? r.set_q(v) : a == "dq" ? r.set_dq(v) : a == "dqr" ? r.set_dqr(v) : a == "ddqr" ? r.set_ddqr(v) : a == "x" ? r.set_x(v) :
              a == "dx" ? r.set_dx(v) : a == "ddx" ? r.set_ddx(v) : a == "ddxr" ? r.set_ddxr(v) : a == "par_DYN" ? r.set_par_DYN(v) : a == "par_REG" ? r.set_par_REG(v) : -99;
      return ret(x);
    }
    if (op == "setarg") { std::string a = s.w(); Vec v = s.v(); return ret(r.set_arg(a, v)); }
    if (op == "getarg") { std::string a = s.w(); return "\"v\":" + vec(r.get_arg(a)); }
    if (op == "getargs") {
      auto as = s.ws();
      std::string o = "\"vs\":[";
      for (std::size_t i = 0; i < as.size(); i++) o += std::string(i ? "," : "") + vec(as[i] == "DYN!" ? r.get_par_DYN() : as[i] == "REG!" ? r.get_par_REG() : r.get_arg(as[i]));
      return o + "]";
    }
    if (op == "mod") {  // one step of computing a model
      static const std::map<std::string, std::function<void(Robot&)>> M = {
          {"select", [](Robot& r) { r.init_symb_parameters(); }}, {"update", [](Robot& r) { r.update_symb_parameters(); }},
          {"user", [](Robot& r) { compute_userDefined(r); }},
          {"chain", [](Robot& r) { compute_chain(r); }}, {"jac", [](Robot& r) { compute_jacobians(r); }}, {"kin_adv", [](Robot& r) { compute_kin_adv(r); }},
          {"kin0", [](Robot& r) { compute_kinematics(r, false); }}, {"kin1", [](Robot& r) { compute_kinematics(r, true); }},
          {"MCG", [](Robot& r) { compute_MCG(r); }}, {"Dl", [](Robot& r) { compute_Dl(r); }}, {"elastic", [](Robot& r) { compute_elastic(r); }},
          {"dyn_adv", [](Robot& r) { compute_dyn_derivatives(r); }}, {"dyn0", [](Robot& r) { compute_dynamics(r, false); }}, {"dyn1", [](Robot& r) { compute_dynamics(r, true); }},
          {"Yr", [](Robot& r) { compute_Yr(r); }}, {"reg_J", [](Robot& r) { compute_reg_J(r); }}, {"reg_Dl", [](Robot& r) { compute_reg_Dl(r); }},
          {"reg_elastic", [](Robot& r) { compute_reg_elastic(r); }}, {"reg0", [](Robot& r) { compute_regressors(r, false); }}, {"reg1", [](Robot& r) { compute_regressors(r, true); }}};
      std::string m = s.w();
      M.at(m)(r);
      if (m == "select") (*P)[k] = true;
      if (m == "update") (*P)[k] = false;
      return "";
    }
    if (op == "loadconf") { std::string f = s.w(); int u = s.i(); return ret(r.load_conf_par(f, u)); }
    if (op == "loadreg") { std::string f = s.w(); int u = s.i(); r.load_par_REG(f, u); return ""; }
    if (op == "loadpar") { std::string f = s.w(); return ret(r.load_par(f, s.ws())); }
    if (op == "savepar") { std::string f = s.w(); return ret(r.save_par(f, s.ws())); }
    if (op == "savereg") { std::string f = s.w(); return ret(r.save_par_REG(f)); }
    if (op == "saveconf") { std::string f = s.w(); return ret(r.save_conf(f)); }
    if (op == "addfn") {
      std::string n = s.w(), x = s.w();
      int ow = s.i();
      auto args = s.ws();
      return ret(r.add_function(n, vp_user_expr(r, x, args), args, "user function", ow));
    }
    throw std::runtime_error("unknown op " + op);
  };
}
int main(int, char** a) { return run_all(a[1], a[2], atoi(a[3]), make); }
