// Operations of the driver on objects of generated classes.
#pragma once
#include <algorithm>
#include "common.h"
#include "objface.h"
#include "pyobj.h"
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <set>
#include <thread>
namespace vp {
struct Objects {
  std::mutex mx;
  std::map<int, std::shared_ptr<Obj>> m;
  std::map<int, std::string> lib;
  std::shared_ptr<Obj> at(int k) {
    std::lock_guard<std::mutex> g(mx);
    auto it = m.find(k);
    if (it == m.end()) throw std::runtime_error("no object");
    return it->second;
  }
  void put(int k, Obj* o, const std::string& l) {
    std::shared_ptr<Obj> old, p(o);
    std::lock_guard<std::mutex> g(mx);
    old = m[k];
    m[k] = p;
    lib[k] = l;
  }
  std::string lib_of(int k) { std::lock_guard<std::mutex> g(mx); return lib[k]; }
  // returns false when op is not an operation on objects
  bool run(const std::string& op, Script& s, std::string& res) {
    res.clear();
    if (op == "onew") {
      int k = s.i();
      std::string l = s.w();
      void* h = dlopen(l.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) throw std::runtime_error(std::string("dlopen ") + dlerror());
      std::string sym = s.w();  // several robots in one library: the name of the maker
      auto mk = (vp_make_t)dlsym(h, sym.empty() ? "vp_make" : sym.c_str());
      if (!mk) throw std::runtime_error("no " + sym);
      {
        std::lock_guard<std::mutex> g(mx);
        static std::set<void*> seen;
        if (seen.insert(h).second)
          if (auto sg = (void (*)(void (*)()))dlsym(h, "vp_set_gate")) sg(&gate_point);
      }
      put(k, mk(), l);
      return true;
    }
    if (op == "pynew") { int k = s.i(); std::string f = s.w(), cl = s.w(); put(k, new PyObj(f, cl), f); return true; }
    if (op == "ocopy") { int k = s.i(), j = s.i(); 
      // by construction, by move construction, by assignment or by move assignment, in turn
      static thread_local unsigned turn = 0;
      unsigned t = turn++;
      std::shared_ptr<Obj> old;
      {
        std::lock_guard<std::mutex> g(mx);
        auto it = m.find(k);
        if (it != m.end() && lib[k] == lib[j]) old = it->second;
      }
      if (t % 2 == 0 || !old || !old->assign(*at(j), t % 4 == 3)) put(k, at(j)->clone(t % 4 == 2).release(), lib_of(j));
      return true;
    }
    if (op == "odel") { int k = s.i(); std::lock_guard<std::mutex> g(mx); m.erase(k); return true; }
    if (op == "sched") { sched_set(s); return true; }
    if (op == "genfiles") return true;
    if (op[0] != 'o' && op != "teval" && op != "tset" && op != "pyinfo" && op != "pymod") return false;
    int k = s.i();
    auto p = at(k);
    Obj& o = *p;
    if (op == "pyinfo") res = o.info();
    else if (op == "pymod") res = dynamic_cast<PyObj&>(o).definition();
    else if (op == "oset") { std::string a = s.w(); int u = s.i(); Vec v = s.v(); o.set(a, v, u); }
    else if (op == "osetall") { Vec a = s.v(), b = s.v(), c = s.v(), d = s.v(); o.setall(a, b, c, d); }
    else if (op == "tset") {  // set, then read the inertial sets, again and again: every distinct result
      int reps = s.i();
      std::string a = s.w();
      int u = s.i();
      Vec v = s.v();
      auto as = s.ws();
      std::vector<std::string> seen;
      for (int r = 0; r < reps; r++) {
        o.set(a, v, u);
        std::string t = "[";
        for (std::size_t i = 0; i < as.size(); i++) t += std::string(i ? "," : "") + vec(o.get(as[i]));
        t += "]";
        if (std::find(seen.begin(), seen.end(), t) == seen.end() && seen.size() < 4) seen.push_back(t);
      }
      res = "\"vss\":[";
      for (std::size_t i = 0; i < seen.size(); i++) res += std::string(i ? "," : "") + seen[i];
      res += "]";
    } else if (op == "oresize") o.resize();
    else if (op == "oget") {
      auto as = s.ws();
      res = "\"vs\":[";
      for (std::size_t i = 0; i < as.size(); i++) res += std::string(i ? "," : "") + vec(o.get(as[i]));
      res += "]";
    } else if (op == "oeval") {
      auto fs = s.ws();
      res = "\"out\":[";
      for (std::size_t i = 0; i < fs.size(); i++) res += std::string(i ? "," : "") + mat(fs[i], o.eval(fs[i]));
      res += "]";
    } else if (op == "teval") {  // every distinct result of repeated evaluations
      int reps = s.i();
      auto fs = s.ws();
      std::vector<Eigen::MatrixXd> seen;
      res = "\"out\":[";
      bool first = true;
      for (auto& f : fs) {
        std::vector<Eigen::MatrixXd> d;
        for (int r = 0; r < reps; r++) {
          Eigen::MatrixXd x = o.eval(f);
          bool dup = false;
          for (auto& y : d) if (y.rows() == x.rows() && y.cols() == x.cols() && std::equal(x.data(), x.data() + x.size(), y.data())) dup = true;
          if (!dup && d.size() < 4) d.push_back(x);
        }
        for (auto& x : d) { res += std::string(first ? "" : ",") + mat(f, x); first = false; }
      }
      res += "]";
    } else if (op == "ofns") {
      std::set<std::string> n;
      for (auto& f : o.fns()) n.insert(f);
      std::ifstream in(lib_of(k) + ".fns");
      std::string w;
      while (in >> w) n.insert(w);
      res = "\"fns\":[";
      bool first = true;
      for (auto& f : n) { res += std::string(first ? "" : ",") + esc(f); first = false; }
      res += "]";
    } else if (op == "oinfo") res = o.info();
    else if (op == "oloadconf") { std::string f = s.w(); int u = s.i(); o.load_conf(f, u); }
    else if (op == "oloadreg") { std::string f = s.w(); int u = s.i(); res = "\"v\":" + vec(o.load_reg(f, u)); }
    else if (op == "osavereg") o.save("reg", s.w());
    else if (op == "osavedyn") o.save("dyn", s.w());
    else if (op == "osavepar") res = "\"ret\":" + std::to_string(o.save_par(s.w()));
    else return false;
    return true;
  }
  // a schedule: the order in which threads pass the gates around generated C functions
  static void sched_set(Script& s) {
    auto& g = G();
    g.order.clear();
    for (auto& w : s.ws()) g.order.push_back(atoi(w.c_str()));
    g.pos = 0;
    g.holder = -1;
    g.free_run = false;
    g.done.clear();
  }
  struct Gate { std::mutex mx; std::condition_variable cv; std::vector<int> order; std::size_t pos = 0; std::set<int> done; int holder = -1; bool free_run = false; };
  static Gate& G() { static Gate g; return g; }
  static int& tid() { static thread_local int t = -1; return t; }
  static void skip(Gate& g) { while (g.pos < g.order.size() && g.done.count(g.order[g.pos])) g.pos++; }
  // a thread keeps its turn from one gate to the next (or to its end)
  static void release(Gate& g) {
    if (g.holder == tid()) { g.pos++; g.holder = -1; }
    skip(g);
    g.cv.notify_all();
  }
  static void gate_point() {
    auto& g = G();
    if (tid() < 0 || g.order.empty()) return;
    std::unique_lock<std::mutex> l(g.mx);
    release(g);
    if (!g.cv.wait_for(l, std::chrono::seconds(20), [&] { return g.free_run || g.pos >= g.order.size() || (g.holder < 0 && g.order[g.pos] == tid()); })) g.free_run = true;
    if (!g.free_run && g.pos < g.order.size()) g.holder = tid();
    g.cv.notify_all();
  }
  static void thread_begin(int t) { tid() = t; }
  static void thread_end() {
    auto& g = G();
    std::unique_lock<std::mutex> l(g.mx);
    g.done.insert(tid());
    release(g);
  }
};
}
