// Shared by the drivers: script reading, JSON output, forking one child per scenario.
#pragma once
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <eigen3/Eigen/Dense>

namespace vp {
using Vec = Eigen::VectorXd;
inline std::string num(double d) {
  if (std::isnan(d)) return "\"nan\"";
  if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  snprintf(b, sizeof b, "\"%.17g\"", d);
  return b;
}
template <class M> std::string vec(const M& m) {
  std::string s = "[";
  for (long i = 0; i < m.size(); i++) { if (i) s += ","; s += num(m.data()[i]); }
  return s + "]";
}
template <class M> std::string mat(const std::string& f, const M& m0) {
  Eigen::MatrixXd m = m0;
  return "{\"f\":\"" + f + "\",\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) + ",\"v\":" + vec(m) + "}";
}
inline std::string esc(const std::string& t) {
  std::string s = "\"";
  for (unsigned char c : t) {
    if (c == '"' || c == '\\') { s += '\\'; s += c; }
    else if (c < 32 || c > 126) s += '?';
    else s += c;
  }
  return s + "\"";
}
struct Script {
  std::istringstream in;
  std::string w() { std::string t; in >> t; return t; }
  int i() { int v = 0; in >> v; return v; }
  double d() { std::string t = w(); return strtod(t.c_str(), nullptr); }
  Vec v() { int n = i(); Vec r(n); for (int k = 0; k < n; k++) r(k) = d(); return r; }
  std::vector<std::string> ws() { int n = i(); std::vector<std::string> r; for (int k = 0; k < n; k++) r.push_back(w()); return r; }
};
// A scenario: id, lines. run(op, script) returns the JSON body of the result (without braces).
using Runner = std::function<std::string(const std::string&, Script&)>;
struct Scenario { std::string id; std::vector<std::string> lines; };
inline std::vector<Scenario> read_script(const char* file) {
  std::vector<Scenario> r;
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("scenario ", 0) == 0) r.push_back({line.substr(9), {}});
    else if (!line.empty()) r.back().lines.push_back(line);
  }
  return r;
}
inline std::function<void(int)>& begin_thread() { static std::function<void(int)> f; return f; }
inline std::function<void()>& end_thread() { static std::function<void()> f; return f; }
inline void run_one(const Scenario& s, const std::string& outdir, std::function<Runner()> make) {
  std::string path = outdir + "/" + s.id + ".out";
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  dup2(nul, 2);
  alarm(120);
  Runner run = make();
  auto one = [&](const std::string& l) {
    Script sc;
    sc.in.str(l);
    std::string op = sc.w(), body;
    try { body = run(op, sc); if (!body.empty()) body = "," + body; return "{\"exc\":\"\",\"crash\":0" + body + "}\n"; }
    catch (const std::exception& e) { return "{\"exc\":" + esc(std::string("exception ") + std::string(e.what()).substr(0, 200)) + ",\"crash\":0}\n"; }
  };
  for (std::size_t i = 0; i < s.lines.size();) {
    std::string body;
    if (s.lines[i][0] != '@') body = one(s.lines[i++]);
    else {  // lines "@t call": one thread per t, all at once
      std::size_t j = i;
      std::map<int, std::vector<std::size_t>> th;
      std::vector<std::string> out(s.lines.size());
      for (; j < s.lines.size() && s.lines[j][0] == '@'; j++) th[atoi(s.lines[j].c_str() + 1)].push_back(j);
      std::atomic<int> ready{0};
      std::vector<std::thread> ts;
      for (auto& t : th)
        ts.emplace_back([&, t]() {
          ready++;
          while (ready < (int)th.size()) std::this_thread::yield();
          if (begin_thread()) begin_thread()(t.first);
          for (auto k : t.second) out[k] = one(s.lines[k].substr(s.lines[k].find(' ') + 1));
          if (end_thread()) end_thread()();
        });
      for (auto& t : ts) t.join();
      for (; i < j; i++) body += out[i];
    }
    if (write(fd, body.data(), body.size()) < 0) _exit(3);
  }
  fsync(fd);
  _exit(0);
}
// children write ID.out; a child that dies leaves a short file plus the line {"crash":signal}
inline int run_all(const char* script, const std::string& outdir, int jobs, std::function<Runner()> make) {
  auto all = read_script(script);
  std::map<pid_t, std::string> live;
  auto reap = [&]() {
    int st = 0;
    pid_t p = wait(&st);
    if (p <= 0) return;
    std::string id = live[p];
    live.erase(p);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    int code = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
    std::ofstream f(outdir + "/" + id + ".out", std::ios::app);
    f << "{\"crash\":" << code << ",\"exc\":\"\"}\n";
  };
  for (auto& s : all) {
    while ((int)live.size() >= jobs) reap();
    pid_t p = fork();
    if (p == 0) { run_one(s, outdir, make); _exit(0); }
    live[p] = s.id;
  }
  while (!live.empty()) reap();
  return 0;
}
}  // namespace vp
