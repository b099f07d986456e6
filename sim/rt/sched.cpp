// Cooperative scheduler: tasks are fibers; pthread primitives of the code under test are
// simulated. The only source of interleaving is the seeded policy (or the recorded list).
#include "internal.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <elf.h>
#include <algorithm>
#include <unordered_map>
#include <deque>
#include <set>
#include <cxxabi.h>
#include <time.h>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
pthread_t __real_pthread_self();
int __real_sched_yield();
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
}

namespace sim {
int g_cur = -1;
Rng g_schedRng;
std::function<void(const char *)> g_onStep;

namespace {
const size_t StackSize = 8u << 20;
struct Task {
  ucontext_t ctx; void *stack = nullptr; std::function<void()> body;
  bool done = false; bool started = false; const void *waiting = nullptr; const char *waitKind = "";
  long long steps = 0;
  std::string tls;
  void *(*entry)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr; // pthread_create'd
  int parent = -1;
  long long stalledUntil = 0;
};
std::deque<Task> *tasks;
ucontext_t mainCtx; std::string mainTls;
bool isCrashed = false;
uint64_t fp = 1469598103934665603ull;
long long switches = 0, totalSteps = 0;
int strategy = 0; double switchP = 0;
std::set<long long> changePoints;
std::map<std::pair<int, long long>, int> recordedPre;
std::map<const void *, struct MutexState> *mutexes;
struct MutexState { int owner = -1; bool harnessOwner = false; int count = 0; };
struct RwState { int writer = -1; std::map<int, int> readers; };
std::map<const void *, RwState> *rws;
std::map<const void *, int> *guards;   // in-progress static initialisations
std::map<const void *, int> *onces;
struct CondState { long long gen = 0; std::vector<std::pair<int, bool *>> waiters; };
std::map<const void *, CondState> *conds;

extern "C" void *__cxa_get_globals();
// Fibers have thread-local variables of their own (libc's are shared: allocator caches, locale).
struct Tls {
  std::vector<std::pair<size_t, size_t>> vars; std::string initial; char *base = nullptr; size_t size = 0;
  Tls() {
    FILE *f = fopen("/proc/self/exe", "rb"); if (!f) harnessError("cannot read own symbols");
    auto at = [&](long o, void *p, size_t n) { if (fseek(f, o, SEEK_SET) || fread(p, 1, n, f) != n) harnessError("cannot read own symbols"); };
    Elf64_Ehdr h; at(0, &h, sizeof h); std::string image;
    for (int i = 0; i < h.e_phnum; ++i) { Elf64_Phdr p; at(h.e_phoff + i * sizeof p, &p, sizeof p); if (p.p_type != PT_TLS) continue;
      size = (p.p_memsz + p.p_align - 1) / p.p_align * p.p_align; base = (char *)__builtin_thread_pointer() - size; image.resize(p.p_memsz); if (p.p_filesz) at(p.p_offset, &image[0], p.p_filesz); }
    std::vector<Elf64_Shdr> sh(h.e_shnum); at(h.e_shoff, sh.data(), sizeof(Elf64_Shdr) * sh.size());
    for (auto &s : sh) if (s.sh_type == SHT_SYMTAB) {
      std::vector<Elf64_Sym> sy(s.sh_size / sizeof(Elf64_Sym)); at(s.sh_offset, sy.data(), s.sh_size);
      std::string names(sh[s.sh_link].sh_size, 0); at(sh[s.sh_link].sh_offset, &names[0], names.size());
      for (auto &y : sy) if (ELF64_ST_TYPE(y.st_info) == STT_TLS && y.st_size && y.st_shndx != SHN_UNDEF) { std::string n = &names[y.st_name];
        bool libc = n.compare(0, 7, "__libc_") == 0 || n.compare(0, 4, "_nl_") == 0; for (auto x : {"tcache", "tcache_shutting_down", "thread_arena", "current", "__resp"}) if (n == x) libc = true;
        if (!libc) vars.push_back({y.st_value, y.st_size}); } }
    fclose(f); std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (auto &v : vars) initial += image.substr(v.first, v.second);
  }
  void save(std::string &b) { b.clear(); for (auto &v : vars) b.append(base + v.first, v.second); }
  void load(const std::string &b) { size_t o = 0; for (auto &v : vars) { memcpy(base + v.first, &b[o], v.second); o += v.second; } }
};
Tls &tls() { static Tls *t = nullptr; if (!t) { Quiet q; t = new Tls; } return *t; }
void saveTls(std::string &b) { Quiet q; tls().save(b); }
void loadTls(const std::string &b) { tls().load(b); }

void trampoline() {
  int me = g_cur;
  Task &t = (*tasks)[me];
  raceTaskStart(me, t.parent);
  t.body();
  { Quiet q; t.body = nullptr; }
  raceTaskEnd(me, t.parent);
  t.done = true;
  // wake joiners
  { Quiet q; for (auto &o : *tasks) if (o.waiting == &t) o.waiting = nullptr; }
  saveTls(t.tls);
  int save = g_cur; (void)save;
  g_cur = -1; loadTls(mainTls); raceSwitch(-1);
  setcontext(&mainCtx);
}

std::vector<int> runnable() {
  std::vector<int> r;
  for (size_t i = 0; i < tasks->size(); ++i) if (!(*tasks)[i].done && !(*tasks)[i].waiting) r.push_back((int)i);
  return r;
}

void switchTo(int to) {
  Task &t = (*tasks)[to];
  g_cur = to;
  if (!t.started) {
    t.started = true;
    t.stack = mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t.stack == MAP_FAILED) harnessError("mmap stack");
    getcontext(&t.ctx);
    t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = StackSize; t.ctx.uc_link = nullptr;
    makecontext(&t.ctx, trampoline, 0);
    { Quiet q; t.tls = tls().initial; }
  }
  raceSwitch(to);
  loadTls(t.tls);
}

// Leaves the current task (which stays in `tasks`) and resumes `to`.
void swapFromTo(int from, int to) {
  { Quiet q; uint64_t h[2] = {(uint64_t)to, (uint64_t)(*tasks)[from].steps}; fp = hashBytes(h, sizeof h, fp); ++switches; }
  saveTls((*tasks)[from].tls);
  bool q = g_quiet; g_quiet = false;
  switchTo(to);
  swapcontext(&(*tasks)[from].ctx, &(*tasks)[to].ctx);
  g_quiet = q;
}

void toMain(int from) {
  saveTls((*tasks)[from].tls);
  g_cur = -1; loadTls(mainTls); raceSwitch(-1);
  swapcontext(&(*tasks)[from].ctx, &mainCtx);
}

std::string describeBlocked() {
  std::string s;
  for (size_t i = 0; i < tasks->size(); ++i) if (!(*tasks)[i].done) s += " task" + std::to_string(i) + " waits in " + (*tasks)[i].waitKind;
  return s;
}

// Current task cannot continue: block until woken.
void block(const void *obj, const char *kind) {
  int me = g_cur;
  Task &t = (*tasks)[me];
  t.waiting = obj; t.waitKind = kind;
  std::vector<int> r; { Quiet q; r = runnable(); }
  if (r.empty()) fail("deadlock", "no task can make progress:" + describeBlocked());
  int to = r[0];
  { Quiet q; if (g_plan && g_plan->recorded) {
      auto i = recordedPre.find({me, -(++t.steps)});
      if (i != recordedPre.end()) for (int x : r) if (x == i->second) to = x;
    } else {
      to = r[(size_t)g_schedRng.below((long long)r.size())];
      g_plan->pre.push_back({me, -(++t.steps), to});
    } }
  swapFromTo(me, to);
}
void wakeAll(const void *obj) { Quiet q; for (auto &t : *tasks) if (!t.done && t.waiting == obj) t.waiting = nullptr; }
} // namespace

void schedInit() {
  tasks = new std::deque<Task>; mutexes = new std::map<const void *, MutexState>; guards = new std::map<const void *, int>;
  onces = new std::map<const void *, int>; conds = new std::map<const void *, CondState>; rws = new std::map<const void *, RwState>;
  g_schedRng = Rng(g_plan->seed ^ 0x5bd1e995ull);
  for (auto &p : g_plan->pre) recordedPre[{p.task, p.step}] = p.to;
  if (!g_plan->recorded) g_plan->pre.clear();
}
void taskStack(int t, uint64_t &lo, uint64_t &hi) { lo = (uint64_t)(*tasks)[t].stack; hi = lo ? lo + StackSize : 0; }
uint64_t schedFingerprint() { return fp; }
long long schedSwitches() { return switches; }
int currentTask() { return g_cur; }
bool inTasks() { return g_cur >= 0; }
bool crashed() { return isCrashed; }

void setSchedule(int s, double p) {
  Quiet q;
  strategy = s; switchP = p; changePoints.clear();
  if (s == 2) { int n = (int)g_schedRng.range(1, 4); for (int i = 0; i < n; ++i) changePoints.insert(totalSteps + 1 + g_schedRng.below((long long)p)); }
}

void schedPoint(const char *kind, const void *) {
  if (g_quiet || g_cur < 0) return;
  Task &t = (*tasks)[g_cur];
  ++t.steps; ++totalSteps;
  if (totalSteps > g_stepLimit) fail("livelock", "step limit reached: no progress");
  if (g_onStep) { Quiet q; auto f = g_onStep; f(kind); }
  int to = -1;
  if (g_plan->recorded) {
    Quiet q;
    auto i = recordedPre.find({g_cur, t.steps});
    if (i != recordedPre.end()) to = i->second;
    if (to >= 0 && (to >= (int)tasks->size() || (*tasks)[to].done || (*tasks)[to].waiting || to == g_cur)) to = -1;
  } else if (strategy) {
    bool sw = strategy == 1 ? g_schedRng.chance(switchP) : changePoints.count(totalSteps) > 0;
    if (sw) {
      Quiet q;
      auto r = runnable();
      std::vector<int> o; for (int x : r) if (x != g_cur) o.push_back(x);
      if (!o.empty()) { to = o[(size_t)g_schedRng.below((long long)o.size())]; g_plan->pre.push_back({g_cur, t.steps, to}); }
    }
  }
  if (to >= 0) { count("sched.preempt"); swapFromTo(g_cur, to); }
}

void tlsInit(char *&lo, char *&hi) { lo = tls().base; hi = lo + tls().size; }

bool runTasks(std::vector<std::function<void()>> bodies) {
  if (g_cur >= 0) harnessError("nested runTasks");
  bool q0 = g_quiet;
  g_quiet = true;
  tasks->clear(); isCrashed = false;
  for (auto &b : bodies) { tasks->emplace_back(); tasks->back().body = std::move(b); }
  saveTls(mainTls);
  for (;;) {
    auto r = runnable();
    if (isCrashed) break;
    if (r.empty()) {
      bool all = true; for (auto &t : *tasks) if (!t.done) all = false;
      if (all) break;
      fail("deadlock", "no task can make progress:" + describeBlocked());
    }
    int to = r[0];
    if (r.size() > 1) {
      if (g_plan->recorded) { auto i = recordedPre.find({-1, (long long)switches}); if (i != recordedPre.end()) for (int x : r) if (x == i->second) to = x; }
      else if (strategy) { to = r[(size_t)g_schedRng.below((long long)r.size())]; g_plan->pre.push_back({-1, (long long)switches, to}); }
    }
    uint64_t h[2] = {(uint64_t)to, 77}; fp = hashBytes(h, sizeof h, fp); ++switches;
    switchTo(to);
    g_quiet = false;
    swapcontext(&mainCtx, &(*tasks)[to].ctx);
    g_quiet = true;
    g_cur = -1;
  }
  bool ok = !isCrashed;
  if (ok) for (auto &t : *tasks) if (t.stack) munmap(t.stack, StackSize);
  if (isCrashed) { // the fibers and everything they own are abandoned, like memory of a killed process
    tasks = new std::deque<Task>; mutexes->clear(); rws->clear(); conds->clear();
    // static initialisations in progress are forgotten by a new process too
    guards->clear(); onces->clear();
  }
  g_quiet = q0;
  return ok;
}

void crashProcess(const char *where) {
  trace("CRASH %s", where);
  count("fault.crash");
  isCrashed = true;
  toMain(g_cur);
  abort();
}
} // namespace sim

using namespace sim;

extern "C" {
// Simulated only inside tasks; harness internals (quiet) never contend.
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (g_cur < 0 || g_quiet) return g_running ? 0 : __real_pthread_mutex_lock(m);
  schedPoint("lock", m);
  for (;;) {
    MutexState *s; { Quiet q; s = &(*mutexes)[m]; }
    if (s->owner < 0) { s->owner = g_cur; s->count = 1; break; }
    if (s->owner == g_cur) {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->count; return 0; }
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
      fail("deadlock", "a task locks a mutex it already holds");
    }
    count("sched.contended");
    block(m, "mutex");
  }
  hbAcquire(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (g_cur < 0 || g_quiet) return g_running ? 0 : __real_pthread_mutex_trylock(m);
  schedPoint("trylock", m);
  MutexState *s; { Quiet q; s = &(*mutexes)[m]; }
  if (s->owner >= 0) { if (s->owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->count; return 0; } return EBUSY; }
  s->owner = g_cur; s->count = 1; hbAcquire(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (g_cur < 0 || g_quiet) return g_running ? 0 : __real_pthread_mutex_unlock(m);
  MutexState *s; { Quiet q; s = &(*mutexes)[m]; }
  if (s->owner == g_cur && --s->count > 0) return 0;
  hbRelease(m);
  s->owner = -1; wakeAll(m);
  schedPoint("unlock", m);
  return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (g_cur < 0 || g_quiet) return __real_pthread_once(o, f);
  for (;;) {
    int *s; { Quiet q; s = &(*onces)[o]; }
    if (*s == 2) { hbAcquire(o); return 0; }
    if (*s == 0) { *s = 1; try { __real_pthread_once(o, f); } catch (...) { *s = 0; wakeAll(o); throw; } *s = 2; hbRelease(o); wakeAll(o); return 0; }
    block(o, "once");
  }
}
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (g_cur < 0 || g_quiet) return __real___cxa_guard_acquire(g);
  for (;;) {
    if (*(char *)g) { hbAcquire(g); return 0; }
    int *s; { Quiet q; s = &(*guards)[g]; }
    if (!*s) { *s = 1; schedPoint("guard", g); return 1; }
    block(g, "static init");
  }
}
void __wrap___cxa_guard_release(uint64_t *g) {
  if (g_cur < 0 || g_quiet) {
    bool mine = false; if (guards) { Quiet q; mine = guards->count(g); }
    if (!mine) { __real___cxa_guard_release(g); return; }
  }
  *(char *)g = 1;
  { Quiet q; guards->erase(g); }
  hbRelease(g); wakeAll(g);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  if (g_cur < 0 || g_quiet) { __real___cxa_guard_abort(g); return; }
  { Quiet q; guards->erase(g); }
  wakeAll(g);
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (g_cur < 0) return 0;
  bool woken = false; { Quiet q; (*conds)[c].waiters.push_back({g_cur, &woken}); }
  MutexState *s; { Quiet q; s = &(*mutexes)[m]; }
  hbRelease(m); s->owner = -1; s->count = 0; wakeAll(m);
  while (!woken) block(c, "condition variable");
  hbAcquire(c);
  return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
  // simulated time: the timeout may always elapse first
  (void)c; if (g_cur < 0) return ETIMEDOUT;
  __wrap_pthread_mutex_unlock(m); schedPoint("timedwait", m); __wrap_pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return __wrap_pthread_cond_timedwait(c, m, t); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  if (g_cur < 0) return 0;
  hbRelease(c);
  { Quiet q; auto &s = (*conds)[c]; if (!s.waiters.empty()) { *s.waiters.front().second = true; int t = s.waiters.front().first; s.waiters.erase(s.waiters.begin()); (*tasks)[t].waiting = nullptr; } }
  schedPoint("signal", c);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  if (g_cur < 0) return 0;
  hbRelease(c);
  { Quiet q; auto &s = (*conds)[c]; for (auto &w : s.waiters) { *w.second = true; (*tasks)[w.first].waiting = nullptr; } s.waiters.clear(); }
  schedPoint("broadcast", c);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (g_cur < 0 || g_quiet) return 0;
  schedPoint("rdlock", l);
  for (;;) { RwState *s; { Quiet q; s = &(*rws)[l]; }
    if (s->writer < 0) { Quiet q; ++s->readers[g_cur]; break; }
    block(l, "rwlock"); }
  hbAcquire(l); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (g_cur < 0 || g_quiet) return 0;
  schedPoint("wrlock", l);
  for (;;) { RwState *s; { Quiet q; s = &(*rws)[l]; }
    if (s->writer == g_cur) fail("deadlock", "a task locks a rwlock it already holds");
    if (s->writer < 0 && s->readers.empty()) { s->writer = g_cur; break; }
    block(l, "rwlock"); }
  hbAcquire(l); hbAcquire((char *)l + 1); return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (g_cur < 0 || g_quiet) return 0;
  RwState *s; { Quiet q; s = &(*rws)[l]; }
  if (s->writer >= 0) return EBUSY;
  { Quiet q; ++s->readers[g_cur]; } hbAcquire(l); return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (g_cur < 0 || g_quiet) return 0;
  RwState *s; { Quiet q; s = &(*rws)[l]; }
  if (s->writer >= 0 || !s->readers.empty()) return EBUSY;
  s->writer = g_cur; hbAcquire(l); hbAcquire((char *)l + 1); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (g_cur < 0 || g_quiet) return 0;
  RwState *s; { Quiet q; s = &(*rws)[l]; }
  if (s->writer == g_cur) { hbRelease(l); s->writer = -1; }
  else { hbRelease((char *)l + 1); Quiet q; auto i = s->readers.find(g_cur); if (i != s->readers.end() && --i->second == 0) s->readers.erase(i); }
  wakeAll(l); schedPoint("rwunlock", l);
  return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (g_cur < 0) return __real_pthread_create(t, a, f, arg);
  int id;
  { Quiet q; id = (int)tasks->size(); tasks->emplace_back(); Task &n = tasks->back(); n.parent = g_cur; n.body = [id, f, arg] { void *r = f(arg); (*tasks)[id].ret = r; }; }
  hbRelease(&(*tasks)[id]);
  *t = (pthread_t)(0x51000000u + id);
  schedPoint("create", t);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
  if (g_cur < 0) return __real_pthread_join(t, ret);
  int id = (int)(t - 0x51000000u);
  Task &o = (*tasks)[id];
  while (!o.done) block(&o, "join");
  hbAcquire(&o);
  if (ret) *ret = o.ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t t) { if (g_cur < 0) return __real_pthread_detach(t); return 0; }
pthread_t __wrap_pthread_self() { if (g_cur < 0) return __real_pthread_self(); return (pthread_t)(0x51000000u + g_cur); }
int __wrap_sched_yield() { if (g_cur < 0) return __real_sched_yield(); schedPoint("yield", nullptr); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (g_cur < 0) return __real_nanosleep(a, b); schedPoint("sleep", nullptr); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (g_cur < 0) return __real_clock_nanosleep(c, f, a, b); schedPoint("sleep", nullptr); return 0; }
}
