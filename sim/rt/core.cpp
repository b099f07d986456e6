#include <malloc.h>
#include "internal.hpp"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/single_threaded.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>
#include <execinfo.h>

extern "C" { ssize_t __real_write(int, const void *, size_t); ssize_t __real_read(int, void *, size_t); int __real_close(int); 
  int __real_clock_gettime(clockid_t, struct timespec *); }

namespace sim {
Plan *g_plan = nullptr;
bool g_quiet = true;
bool g_running = false;
long long g_events = 0;
long long g_stepLimit = 4000000;
static uint64_t g_hash = 1469598103934665603ull;
static std::map<std::string, long long> *g_counters;
static std::set<uint64_t> *g_cover;
static std::vector<std::string> *g_known;
static int g_resultFd = 1;
static bool g_traceOut = false;

static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void registerScenario(const Scenario &s) { scenarios().push_back(s); }

std::string Plan::text() const {
  std::ostringstream o;
  o << "scenario " << scenario << "\nseed " << seed << "\nrecorded " << (recorded ? 1 : 0) << "\n";
  for (auto &x : par) o << "par " << x.first << " " << x.second << "\n";
  for (auto &x : ops) { o << "op " << x.task << " " << x.kind; for (auto v : x.a) o << " " << v; o << "\n"; }
  for (auto &x : faults) o << "fault " << x.kind << " " << x.at << " " << x.len << " " << x.arg << "\n";
  for (auto &x : pre) o << "pre " << x.task << " " << x.step << " " << x.to << "\n";
  return o.str();
}
Plan Plan::parse(const std::string &text) {
  Plan p; std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string w; l >> w;
    if (w == "scenario") l >> p.scenario;
    else if (w == "seed") l >> p.seed;
    else if (w == "recorded") { int r = 0; l >> r; p.recorded = r; }
    else if (w == "par") { std::string k; long long v; l >> k >> v; p.par[k] = v; }
    else if (w == "op") { Op o; l >> o.task >> o.kind; long long v; while (l >> v) o.a.push_back(v); p.ops.push_back(o); }
    else if (w == "fault") { Fault f{}; l >> f.kind >> f.at >> f.len >> f.arg; p.faults.push_back(f); }
    else if (w == "pre") { Preempt q{}; l >> q.task >> q.step >> q.to; p.pre.push_back(q); }
  }
  return p;
}

uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
  auto c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

Quiet::Quiet() : prev(g_quiet) { g_quiet = true; }
Quiet::~Quiet() { g_quiet = prev; }
void quiet(bool q) { g_quiet = q; }

void count(const char *key, long long n) { Quiet q; (*g_counters)[key] += n; }
const std::map<std::string, long long> &counters() { return *g_counters; }
void cover(uint64_t h) { Quiet q; g_cover->insert(h); }
void known(const std::string &sig, const std::string &msg) { Quiet q; g_known->push_back(sig + "\t" + msg); }

void trace(const char *fmt, ...) {
  if (!g_running) return;
  Quiet q;
  char buf[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  g_hash = hashBytes(buf, n, g_hash); g_hash = hashBytes("\n", 1, g_hash);
  ++g_events;
  if (g_traceOut) { fprintf(stderr, "[%lld t%d] %s\n", g_events, g_cur, buf); }
}

static void jsonStr(std::ostringstream &o, const std::string &s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c == '\n') o << "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o << b; }
    else o << c;
  }
  o << '"';
}

static void writeAll(int fd, const std::string &s) {
  size_t off = 0;
  while (off < s.size()) { ssize_t r = __real_write(fd, s.data() + off, s.size() - off); if (r <= 0) return; off += r; }
}

void emitResult(const char *status, const std::string &cls, const std::string &msg) {
  Quiet q;
  std::ostringstream o;
  char hb[64];
  snprintf(hb, sizeof hb, "%016llx", (unsigned long long)g_hash);
  o << "{\"seed\":" << (g_plan ? (long long)g_plan->seed : -1) << ",\"status\":\"" << status << "\",\"cls\":"; jsonStr(o, cls);
  o << ",\"msg\":"; jsonStr(o, msg);
  o << ",\"hash\":\"" << hb << "\"";
  snprintf(hb, sizeof hb, "%016llx", (unsigned long long)schedFingerprint());
  o << ",\"fp\":\"" << hb << "\",\"events\":" << g_events << ",\"switches\":" << schedSwitches();
  o << ",\"counters\":{"; bool f = true;
  for (auto &c : *g_counters) { if (!f) o << ","; f = false; jsonStr(o, c.first); o << ":" << c.second; }
  o << "},\"cover\":["; f = true; int lim = 400;
  for (auto c : *g_cover) { if (!lim--) break; if (!f) o << ","; f = false; snprintf(hb, sizeof hb, "\"%llx\"", (unsigned long long)c); o << hb; }
  o << "],\"known\":["; f = true;
  for (auto &c : *g_known) { if (!f) o << ","; f = false; jsonStr(o, c); }
  o << "]";
  if (strcmp(status, "ok") != 0 || getenv("SIM_PLAN")) {
    Plan p = *g_plan; p.recorded = true;
    o << ",\"plan\":"; jsonStr(o, p.text());
  }
  o << "}\n";
  writeAll(g_resultFd, o.str());
}

void fail(const std::string &cls, const std::string &msg) {
  g_quiet = true;
  emitResult("violation", cls, msg);
  _exit(0);
}
void harnessError(const std::string &msg) {
  g_quiet = true;
  emitResult("error", "harness", msg);
  _exit(0);
}

static const char *signalName(int sig) { return sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal"; }
static volatile int g_inSignal = 0, g_signal = 0;
static void onSignal(int sig) {
  if (g_inSignal) { signal(sig, SIG_DFL); raise(sig); _exit(3); }
  g_inSignal = 1;
  // the heap may be locked or broken: do not wait for the report for ever
  g_signal = sig; signal(SIGALRM, [](int) { signal(g_signal, SIG_DFL); raise(g_signal); }); sigset_t all; sigemptyset(&all); sigaddset(&all, g_signal); sigprocmask(SIG_UNBLOCK, &all, nullptr); alarm(3);
  const char *n = signalName(sig);
  fail(std::string("crash:") + n, "the engine crashed");
}
static void onTerminate() {
  std::string what = "uncaught exception";
  if (auto t = abi::__cxa_current_exception_type()) what += std::string(" of type ") + t->name();
  fail("crash:terminate", what);
}

static void runChild(Plan &plan, const Scenario &sc, int fd, bool traceOut) {
  g_resultFd = fd; g_traceOut = traceOut;
  g_counters = new std::map<std::string, long long>; g_cover = new std::set<uint64_t>; g_known = new std::vector<std::string>;
  static char alt[65536 * 4];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  g_plan = &plan;
  g_running = true; g_quiet = true; g_events = 0;
  schedInit();
  seedRandomDevice(plan.seed);
  g_quiet = false;
  sc.exec(plan);
  g_quiet = true;
  emitResult("ok", "", "");
  fflush(stderr);
  _exit(0);
}

static const Scenario *find(const std::string &n) { for (auto &s : scenarios()) if (n == s.name) return &s; return nullptr; }

static double nowS() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Runs a plan in a child of its own; prints the child's result line on stdout.
static void runOne(Plan plan, const Scenario &sc, bool traceOut, double wallLimit) {
  int fds[2]; if (pipe(fds)) _exit(4);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    __real_close(fds[0]);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); struct rlimit as{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &as);
    runChild(plan, sc, fds[1], traceOut);
    _exit(0);
  }
  __real_close(fds[1]);
  std::string out; char buf[65536]; bool hang = false; double t0 = nowS();
  for (;;) {
    struct pollfd pf{fds[0], POLLIN, 0};
    int left = (int)((wallLimit - (nowS() - t0)) * 1000);
    if (left <= 0) { hang = true; break; }
    int r = poll(&pf, 1, left);
    if (r == 0) { hang = true; break; }
    ssize_t n = __real_read(fds[0], buf, sizeof buf);
    if (n <= 0) break;
    out.append(buf, n);
  }
  if (hang) kill(pid, SIGKILL);
  __real_close(fds[0]);
  int st = 0; waitpid(pid, &st, 0);
  if (out.empty() || out.back() != '\n') {
    std::ostringstream o;
    std::string cls = hang ? "hang" : WIFSIGNALED(st) ? std::string("crash:") + signalName(WTERMSIG(st)) : "crash:exit" + std::to_string(WEXITSTATUS(st));
    o << "{\"seed\":" << plan.seed << ",\"status\":\"violation\",\"cls\":\"" << cls << "\",\"msg\":\"process ended without a result\",\"hash\":\"0\",\"fp\":\"0\",\"events\":0,\"switches\":0,\"counters\":{},\"cover\":[],\"known\":[],\"plan\":";
    jsonStr(o, plan.text()); o << "}\n";
    out = o.str();
  }
  writeAll(1, out);
}

static Plan generate(const Scenario &sc, uint64_t seed, const std::map<std::string, long long> &over) {
  Plan p; p.scenario = sc.name; p.seed = seed;
  Rng r(seed * 2654435761u + 17);
  p.par = over;
  sc.gen(r, p);
  for (auto &o : over) p.par[o.first] = o.second;
  return p;
}
}

namespace sim { char *g_tlsLo, *g_tlsHi; }

int main(int argc, char **argv) {
  mallopt(M_MMAP_THRESHOLD, 32 << 20); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 8 << 20); // fewer page faults
  using namespace sim;
  __libc_single_threaded = 0;  // reference counts must be the atomic ones, as in a threaded program
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1); setenv("GLIBC_TUNABLES", "glibc.malloc.hugetlb=1", 1); // far fewer page faults
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  tlsInit(g_tlsLo, g_tlsHi);
  // usage: list | range SCENARIO START STRIDE COUNT BUDGET_S [k=v..] | plan SCENARIO SEED | replay FILE [trace]
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (auto &s : scenarios()) printf("%s\n", s.name); return 0; }
  double wall = getenv("SIM_WALL") ? atof(getenv("SIM_WALL")) : 60;
  if (cmd == "range" && argc >= 7) {
    const Scenario *sc = find(argv[2]); if (!sc) { fprintf(stderr, "no scenario\n"); return 2; }
    uint64_t start = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10); long n = atol(argv[5]); double budget = atof(argv[6]);
    std::map<std::string, long long> over;
    for (int i = 7; i < argc; ++i) { std::string a = argv[i]; auto e = a.find('='); if (e != std::string::npos) over[a.substr(0, e)] = atoll(a.c_str() + e + 1); }
    double t0 = nowS();
    for (long i = 0; i < n; ++i) {
      if (budget > 0 && nowS() - t0 > budget) break;
      runOne(generate(*sc, start + i * stride, over), *sc, false, wall);
    }
    return 0;
  }
  if (cmd == "plan" && argc >= 4) {
    const Scenario *sc = find(argv[2]); if (!sc) return 2;
    printf("%s", generate(*sc, strtoull(argv[3], 0, 10), {}).text().c_str());
    return 0;
  }
  if (cmd == "replay" && argc >= 3) {
    FILE *f = fopen(argv[2], "rb"); if (!f) { perror("open"); return 2; }
    std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    Plan p = Plan::parse(t);
    const Scenario *sc = find(p.scenario); if (!sc) { fprintf(stderr, "no scenario %s\n", p.scenario.c_str()); return 2; }
    runOne(p, *sc, argc > 3, wall);
    return 0;
  }
  // replay many plans from stdin, separated by lines "---"
  if (cmd == "batch") {
    std::string t; char b[65536]; ssize_t n; while ((n = __real_read(0, b, sizeof b)) > 0) t.append(b, n);
    size_t pos = 0;
    while (pos < t.size()) {
      size_t e = t.find("\n---\n", pos); std::string one = t.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
      pos = e == std::string::npos ? t.size() : e + 5;
      if (one.find("scenario") == std::string::npos) continue;
      Plan p = Plan::parse(one); const Scenario *sc = find(p.scenario); if (!sc) return 2;
      runOne(p, *sc, false, wall);
    }
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
