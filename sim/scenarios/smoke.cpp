// Self-test of the runtime (not a property): used by `check.py selftest`.
#include "sim.hpp"
#include <fstream>
#include <mutex>
using namespace sim;
static thread_local int g_own = 5; static thread_local std::string g_text;
static void gen(Rng &r, Plan &p) { for (int i = 0; i < 4; ++i) p.op(i % 2, "w", {r.range(1, 100)}); }
static void exec(Plan &p) {
  fs::mkdirs("/sim/a");
  setSchedule(1, 0.3);
  std::mutex m;
  auto body = [&](int t) { for (auto &o : p.ops) if (o.task == t) { std::lock_guard<std::mutex> l(m); if (g_own++ < 5 || (int)g_text.size() != g_own - 6) fail("tls", "tasks share thread-local variables"); g_text += 'x'; std::fstream f("/sim/a/x", std::ios::in | std::ios::out | std::ios::app); f << o.arg(0) << ' '; } };
  runTasks({[&] { body(0); }, [&] { body(1); }});
  trace("content %s", fs::read("/sim/a/x").c_str());
}
static Registrar reg("smoke", gen, exec);
