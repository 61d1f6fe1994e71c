// What the driver needs from an object of a generated class.
#pragma once
#include <eigen3/Eigen/Dense>
#include <memory>
#include <string>
#include <vector>
namespace vp {
struct Obj {
  using V = Eigen::VectorXd;
  virtual ~Obj() {}
  virtual std::unique_ptr<Obj> clone(bool moved = false) const = 0;
  virtual bool assign(const Obj&, bool moved) { return false; }  // false: cannot
  virtual void set(const std::string& a, const V& v, bool upd) = 0;
  virtual void setall(const V& q, const V& dq, const V& dqr, const V& ddqr) = 0;
  virtual void resize() = 0;
  virtual V get(const std::string& a) = 0;
  virtual Eigen::MatrixXd eval(const std::string& f) = 0;
  virtual std::string info() = 0;
  virtual std::vector<std::string> fns() = 0;
  virtual void load_conf(const std::string& f, bool upd) = 0;
  virtual V load_reg(const std::string& f, bool upd) = 0;
  virtual void save(const std::string& k, const std::string& f) = 0;
  virtual int save_par(const std::string& f) = 0;
};
}
extern "C" {
typedef vp::Obj* (*vp_make_t)();
typedef void (*vp_gate_t)();
}
