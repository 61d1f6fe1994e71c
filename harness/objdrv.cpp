// Driver for objects of generated classes alone (no library robot); also built with -fsanitize=thread.
#include "objops.h"
#include "yamljson.h"
using namespace vp;
static std::atomic<int> races{0};
extern "C" void __tsan_on_report(void*) { races++; }
static Runner make() {
  auto O = std::make_shared<Objects>();
  begin_thread() = Objects::thread_begin;
  end_thread() = Objects::thread_end;
  return [O](const std::string& op, Script& s) -> std::string {
    std::string r;
    if (op == "races") return "\"n\":" + std::to_string(races.exchange(0));
    if (O->run(op, s, r)) return r;
    if (op == "yamls") {
      int n = s.i();
      std::string o = "\"ys\":[";
      for (int k = 0; k < n; k++) o += (k ? "," : "") + yj(YAML::LoadFile(s.w()));
      return o + "]";
    }
    if (op == "yaml") return "\"y\":" + yj(YAML::LoadFile(s.w()));
    throw std::runtime_error("unknown op " + op);
  };
}
int main(int, char** a) { return run_all(a[1], a[2], atoi(a[3]), make); }
