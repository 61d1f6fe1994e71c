#pragma once
#include "robot.h"
inline casadi::SX vp_user_expr(thunder_ns::Robot& robot, const std::string& x, const std::vector<std::string>& args) {
  if (x == "cst") return casadi::SX::horzcat({casadi::SX(3.0), casadi::SX(6.0)});
  casadi::SX s = 0, sq = 0;
  for (std::size_t a = 0; a < args.size(); a++) {
    casadi::SX v = robot.model[args[a]];
    for (int j = 0; j < v.size1(); j++) {
      s += (double)((a + 1) * (j + 1)) * v(j);
      if (a == 0) sq += v(j) * v(j);
    }
  }
  return casadi::SX::vertcat({s, sq});
}
