// Deterministic simulation runtime: one process, one OS thread, one seed.
//  * threads of the system under test are fibers; every pthread/atomic/IO/callback
//    (and, in the "mt" build, every instrumented memory access to shared data) is a
//    point at which the seeded scheduler decides who runs next;
//  * files are an in-memory simulated file system reached through the libc entry
//    points libstdc++ and C stdio use (link-time --wrap);
//  * randomness (std::random_device), clocks and allocation are wrapped as well.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x123456789ABCDEFull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long long below(long long n) { return n <= 0 ? 0 : (long long)(next() % (uint64_t)n); }
  long long range(long long a, long long b) { return a + below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template<class T> const T &pick(const std::vector<T> &v) { return v[(size_t)below((long long)v.size())]; }
};

struct Op { int task; std::string kind; std::vector<long long> a;
  long long arg(size_t i, long long d = 0) const { return i < a.size() ? a[i] : d; } };
struct Fault { std::string kind; long long at; long long len; long long arg; };
struct Preempt { int task; long long step; int to; };

struct Plan {
  std::string scenario;
  uint64_t seed = 0;
  bool recorded = false;                 // schedule is taken from `pre` instead of the rng
  std::map<std::string, long long> par;
  std::vector<Op> ops;
  std::vector<Fault> faults;
  std::vector<Preempt> pre;
  long long p(const std::string &k, long long d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
  Op &op(int task, const std::string &kind, std::vector<long long> a = {}) { ops.push_back({task, kind, std::move(a)}); return ops.back(); }
  std::string text() const;
  static Plan parse(const std::string &text);
};

struct Scenario {
  const char *name;
  void (*gen)(Rng &, Plan &);
  void (*exec)(Plan &);
};
void registerScenario(const Scenario &);
struct Registrar { Registrar(const char *n, void (*g)(Rng &, Plan &), void (*e)(Plan &)) { registerScenario({n, g, e}); } };

// ---- run state -----------------------------------------------------------------
extern Plan *g_plan;                     // the plan being executed
[[noreturn]] void fail(const std::string &cls, const std::string &msg);   // property violated: ends the run
[[noreturn]] void harnessError(const std::string &msg);                   // broken harness: ends the run
void known(const std::string &sig, const std::string &msg);               // noteworthy observation, no violation
void count(const char *key, long long n = 1);                             // coverage / fault counters
const std::map<std::string, long long> &counters();
void cover(uint64_t h);                                                   // state reached (distinct states measure)
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // event log; hashed
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
extern long long g_events;               // number of logged events = simulated time
extern long long g_stepLimit;
void quiet(bool q);                      // stop logging/faulting/scheduling (harness internal work)
struct Quiet { bool prev; Quiet(); ~Quiet(); };

// ---- scheduler -----------------------------------------------------------------
// Runs the bodies as interleaved tasks. Returns false if a simulated crash ended the run of the "process".
bool runTasks(std::vector<std::function<void()>> bodies);
int currentTask();                       // -1 outside of tasks
void schedPoint(const char *kind, const void *obj);
// Tasks started and not finished yet.
bool inTasks();
[[noreturn]] void crashProcess(const char *where); // kill -9 of the simulated process
bool crashed();
void setSchedule(int strategy, double p);  // 0 run to completion, 1 random switch with p, 2 few random change points
extern std::function<void(const char *kind)> g_onStep; // called at every sched point (fault decisions by scenario)

// ---- synchronisation edges for harness-made ordering (used by the race detector) ---
void hbRelease(const void *obj);
void hbAcquire(const void *obj);

// ---- file system ---------------------------------------------------------------
namespace fs {
bool exists(const std::string &path);
std::string read(const std::string &path);
void write(const std::string &path, const std::string &data);   // harness side: no faults, no events
void mkdirs(const std::string &path);
void remove(const std::string &path);
std::vector<std::string> list(const std::string &prefix = "");
int openHandles();                       // handles opened by code under test which are not closed
int openHandles(const std::string &infix);
int maxOpenHandles();
void dropHandles();                      // after a crash: kernel closes everything
void reset();
std::map<std::string, std::string> snapshot();
void restore(const std::map<std::string, std::string> &);
void importReal(const std::string &realPath, const std::string &simPath);
extern std::function<void(const char *op, const std::string &path)> g_onIo; // observer, before the event takes effect
extern bool g_faultsOn;                  // master switch for plan faults
long long ioCount(const char *cls);      // events of class so far: open read write unlink close any
}

// ---- randomness ----------------------------------------------------------------
void seedRandomDevice(uint64_t s);

// ---- allocation ----------------------------------------------------------------
namespace alloc {
void failAt(long long n);                // n-th allocation from now throws std::bad_alloc; <=0: off
long long fired();
long long count();                       // allocations in tasks so far
}

// ---- data races (mt build only) ------------------------------------------------
namespace race {
bool available();
void enable(bool on);
void reset();
// If set, races are passed here instead of being a violation. Return true if handled.
extern std::function<bool(const std::string &sig, const std::string &msg)> g_handler;
}
}
#endif
