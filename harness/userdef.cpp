// The documented extension point compute_userDefined(Robot&), filled in by the harness: it
// adds the functions listed under `vp_user` in the configuration file
//   vp_user: [{name: f, x: lin|cst, args: [q, par_K]}]
// and, if the file has q0, the example function the repository ships.
// "lin": with S_a = sum_j j*arg_a[j], the column << sum_a a*S_a, sum_j arg_1[j]^2 >>
#include "userDefined.h"
#include "robot.h"
#include "utils.h"
#include <yaml-cpp/yaml.h>
#include "userexpr.h"

namespace thunder_ns {
int compute_userDefined(Robot& robot) {
  YAML::Node list = robot.config_yaml["vp_user"];
  bool example = (bool)robot.config_yaml["q0"];
  if (!list && !example) return 0;
  for (std::size_t k = 0; k < (list ? list.size() : 0); k++) {
    auto args = list[k]["args"].as<std::vector<std::string>>();
    robot.add_function(list[k]["name"].as<std::string>(), vp_user_expr(robot, list[k]["x"].as<std::string>(), args), args, "user function");
  }
  if (example) compute_example_fun(robot);   // the shipped example
  return 1;
}
}
