#include "internal.hpp"
#ifndef SIM_MT
namespace sim {
void raceTaskStart(int, int) {} void raceTaskEnd(int, int) {} void raceAccess(const void *, size_t, bool, const void *) {}
void raceAlloc(void *, size_t) {} void raceFree(void *, size_t) {} void raceSwitch(int) {}
void hbRelease(const void *) {} void hbAcquire(const void *) {}
namespace race { bool available() { return false; } void enable(bool) {} void reset() {} std::function<bool(const std::string &, const std::string &)> g_handler; }
}
#endif
#ifdef SIM_MT
// Happens-before data race detection over the simulated schedule (vector clocks), fed by the
// compiler's memory access instrumentation (-fsanitize=thread without its runtime).
// Only real synchronisation of the engine (mutex, once, static init, atomics, create/join)
// orders tasks, so what is reported is a race whatever the schedule, and one seed always
// reports the same one.
#include <cstring>
#include <malloc.h>
#include <sstream>
#include <unordered_map>
#include <list>
extern "C" { void *__real_malloc(size_t); void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t); }
namespace sim {
namespace race { std::function<bool(const std::string &, const std::string &)> g_handler; }
namespace {
const int N = 20;
struct VC { uint32_t c[N]; };
VC vcs[N];
std::unordered_map<const void *, VC> *syncs;
bool on = false; bool busy = false; int live = 0;
struct Cell { uint32_t clk; uint8_t tid, mask, write, freed; uint32_t node; uint32_t pc; };
const int K = 4;
struct Page { Cell cells[512][K]; };
std::unordered_map<uint64_t, Page *> *pages;
struct PC { uint64_t key; Page *page; }; PC cache[1024];
uint64_t stackLo = 0, stackHi = 0;
struct Node { uint32_t parent, pc; };
std::vector<Node> *nodes; std::unordered_map<uint64_t, uint32_t> *children;
uint32_t curNode[N];

Page *page(uint64_t a, bool create) {
  uint64_t k = a >> 12; PC &c = cache[k & 1023];
  if (c.key == k && c.page) return c.page;
  auto i = pages->find(k);
  Page *p;
  if (i == pages->end()) { if (!create) return nullptr; p = (Page *)calloc(1, sizeof(Page)); (*pages)[k] = p; }
  else p = i->second;
  c.key = k; c.page = p;
  return p;
}
std::string stackOf(uint32_t node, uint32_t pc) {
  std::ostringstream o; char b[32]; snprintf(b, sizeof b, "%x", pc); o << b; int d = 0;
  while (node && d++ < 24) { snprintf(b, sizeof b, ",%x", (*nodes)[node].pc); o << b; node = (*nodes)[node].parent; }
  return o.str();
}
void report(const Cell &c, int tid, uint32_t pc, bool write) {
  busy = true; bool q = g_quiet; g_quiet = true;
  // raw pcs: the driver symbolises them ("pc:" marks the lists)
  std::string a = stackOf(c.node, c.pc), b = stackOf(curNode[tid], pc);
  std::string msg = std::string(c.freed ? "free" : c.write ? "write" : "read") + " by task " + std::to_string(c.tid - 1) + " pc:" + a + " ; " + (write ? "write" : "read") + " by task " + std::to_string(tid - 1) + " pc:" + b;
  std::string sig = std::string("race:pc:") + a + "|pc:" + b;
  if (race::g_handler && race::g_handler(sig, msg)) { g_quiet = q; busy = false; return; }
  fail("race", msg);
}
inline void one(uint64_t word, uint8_t mask, int tid, bool write, uint32_t pc) {
  Page *p = page(word << 3, true);
  Cell *cs = p->cells[word & 511];
  uint32_t clk = vcs[tid].c[tid];
  Cell *slot = nullptr; bool shared = false;
  for (int i = 0; i < K; ++i) {
    Cell &c = cs[i];
    if (!c.mask) { if (!slot) slot = &c; continue; }
    if (c.tid == tid && c.mask == mask && (c.write == (uint8_t)write || (c.write && !write)) && !c.freed) {
      if (c.clk == clk) return;
      if (c.write == (uint8_t)write) { slot = &c; continue; }
    }
    if (c.tid != tid && (c.mask & mask) && (c.write || write)) {
      shared = true;
      if (c.clk > vcs[tid].c[c.tid]) { report(c, tid, pc, write); c.mask = 0; if (!slot) slot = &c; }
      else if (write) { c.mask = 0; if (!slot) slot = &c; } // ordered before this write: superseded
    }
  }
  if (!slot) slot = &cs[(clk + pc) % K];
  slot->clk = clk; slot->tid = tid; slot->mask = mask; slot->write = write; slot->freed = 0; slot->node = curNode[tid]; slot->pc = pc;
}
void range(uint64_t a, size_t n, int tid, bool w, uint32_t pc) {
  if (n > 65536) n = 65536;
  uint64_t e = a + n;
  while (a < e) { uint64_t word = a >> 3; unsigned off = a & 7, k = 8 - off; if (k > e - a) k = e - a; one(word, (uint8_t)(((1u << k) - 1) << off), tid, w, pc); a += k; }
}
void ensure() { if (!pages) { pages = new std::unordered_map<uint64_t, Page *>; syncs = new std::unordered_map<const void *, VC>; nodes = new std::vector<Node>(1); children = new std::unordered_map<uint64_t, uint32_t>; for (int i = 0; i < N; ++i) vcs[i].c[i] = 1; } }
} // namespace

inline void access(const void *p, size_t n, bool w, const void *pc) {
  if (!on || g_cur < 0 || g_quiet || busy) return;
  uint64_t a = (uint64_t)p;
  if ((a >= stackLo && a < stackHi) || (a >= (uint64_t)g_tlsLo && a < (uint64_t)g_tlsHi)) return;
  busy = true; range(a, n, g_cur + 1, w, (uint32_t)(uintptr_t)pc); busy = false;
}
void raceAccess(const void *p, size_t n, bool w, const void *pc) { access(p, n, w, pc); }
void raceAlloc(void *p, size_t n) {
  if (!on || !pages || busy || n == 0) return;
  busy = true;
  // fresh memory: forget its history
  uint64_t a = (uint64_t)p, e = a + n;
  for (uint64_t w = a >> 3; w <= (e - 1) >> 3; ++w) { Page *pg = page(w << 3, false); if (pg) memset(pg->cells[w & 511], 0, sizeof(Cell) * K); else { w |= 511; } }
  busy = false;
}
void raceFree(void *p, size_t n) {
  if (!on || g_cur < 0 || g_quiet || busy) { if (on && pages && !busy) raceAlloc(p, n); return; }
  if (n > 4096) n = 4096;
  access(p, n, true, __builtin_return_address(0));
}
void raceTaskStart(int t, int parent) {
  if (!on) return;
  int i = t + 1, j = parent + 1; if (i >= N) return;
  for (int k = 0; k < N; ++k) if (vcs[j].c[k] > vcs[i].c[k] && k != i) vcs[i].c[k] = vcs[j].c[k];
  ++vcs[i].c[i]; ++vcs[j].c[j]; curNode[i] = 0;
}
void raceTaskEnd(int t, int joiner) {
  if (!on) return;
  int i = t + 1, j = 0; (void)joiner; if (i >= N) return;
  for (int k = 0; k < N; ++k) if (vcs[i].c[k] > vcs[j].c[k]) vcs[j].c[k] = vcs[i].c[k];
  ++vcs[i].c[i];
}
extern void currentStack(uint64_t &lo, uint64_t &hi);
void raceSwitch(int t) { if (t < 0) { stackLo = stackHi = 0; return; } extern void taskStack(int, uint64_t &, uint64_t &); taskStack(t, stackLo, stackHi); }
void hbRelease(const void *o) { if (!on || g_cur < 0) return; busy = true; VC &v = (*syncs)[o]; int t = g_cur + 1; for (int k = 0; k < N; ++k) if (vcs[t].c[k] > v.c[k]) v.c[k] = vcs[t].c[k]; ++vcs[t].c[t]; busy = false; }
void hbAcquire(const void *o) { if (!on || g_cur < 0) return; busy = true; auto i = syncs->find(o); if (i != syncs->end()) { int t = g_cur + 1; for (int k = 0; k < N; ++k) if (i->second.c[k] > vcs[t].c[k]) vcs[t].c[k] = i->second.c[k]; } busy = false; }
namespace race {
bool available() { return true; }
void enable(bool e) { Quiet q; ensure(); on = e; }
void reset() { Quiet q; ensure(); for (auto &p : *pages) free(p.second); pages->clear(); memset(cache, 0, sizeof cache); syncs->clear(); }
}
static inline void atomicSync(const void *a) { hbAcquire(a); hbRelease(a); }
} // namespace sim
using namespace sim;
#define PCR __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_read1(void *p) { access(p, 1, false, PCR); } void __tsan_read2(void *p) { access(p, 2, false, PCR); }
void __tsan_read4(void *p) { access(p, 4, false, PCR); } void __tsan_read8(void *p) { access(p, 8, false, PCR); }
void __tsan_read16(void *p) { access(p, 16, false, PCR); }
void __tsan_write1(void *p) { access(p, 1, true, PCR); } void __tsan_write2(void *p) { access(p, 2, true, PCR); }
void __tsan_write4(void *p) { access(p, 4, true, PCR); } void __tsan_write8(void *p) { access(p, 8, true, PCR); }
void __tsan_write16(void *p) { access(p, 16, true, PCR); }
void __tsan_unaligned_read2(void *p) { access(p, 2, false, PCR); } void __tsan_unaligned_read4(void *p) { access(p, 4, false, PCR); }
void __tsan_unaligned_read8(void *p) { access(p, 8, false, PCR); } void __tsan_unaligned_read16(void *p) { access(p, 16, false, PCR); }
void __tsan_unaligned_write2(void *p) { access(p, 2, true, PCR); } void __tsan_unaligned_write4(void *p) { access(p, 4, true, PCR); }
void __tsan_unaligned_write8(void *p) { access(p, 8, true, PCR); } void __tsan_unaligned_write16(void *p) { access(p, 16, true, PCR); }
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PCR); } void __tsan_write_range(void *p, size_t n) { access(p, n, true, PCR); }
// the cancellation token is the only volatile of the engine: a flag polled by design
void __tsan_volatile_read1(void *) {} void __tsan_volatile_read2(void *) {} void __tsan_volatile_read4(void *p) { schedPoint("poll", p); } void __tsan_volatile_read8(void *) {} void __tsan_volatile_read16(void *) {}
void __tsan_volatile_write1(void *) {} void __tsan_volatile_write2(void *) {} void __tsan_volatile_write4(void *) {} void __tsan_volatile_write8(void *) {} void __tsan_volatile_write16(void *) {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PCR); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PCR); }
void __tsan_func_entry(void *pc) {
  if (!on || g_cur < 0 || busy) return;
  busy = true; int t = g_cur + 1; uint64_t k = ((uint64_t)curNode[t] << 32) | (uint32_t)(uintptr_t)pc;
  auto i = children->find(k);
  if (i == children->end()) { nodes->push_back({curNode[t], (uint32_t)(uintptr_t)pc}); i = children->emplace(k, (uint32_t)nodes->size() - 1).first; }
  curNode[t] = i->second; busy = false;
}
void __tsan_func_exit() { if (!on || g_cur < 0 || busy) return; int t = g_cur + 1; curNode[t] = (*nodes)[curNode[t]].parent; }
#define ATOMICS(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { atomicSync((void *)a); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomicSync((void *)a); __atomic_store_n(a, v, 5); schedPoint("atomic", (void *)a); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomicSync((void *)a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomicSync((void *)a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomicSync((void *)a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomicSync((void *)a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomicSync((void *)a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomicSync((void *)a); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomicSync((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atomicSync((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomicSync((void *)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on && n) { access(s, n, false, PCR); access(d, n, true, PCR); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on && n) { access(s, n, false, PCR); access(d, n, true, PCR); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on && n) access(d, n, true, PCR); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (on && n) { access(a, n, false, PCR); access(b, n, false, PCR); } return __real_memcmp(a, b, n); }
// libstdc++'s out-of-line (uninstrumented) tree and list surgery
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void *, void *, void *);
void *__real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *, void *);
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void *, void *);
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(void *);
void __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void *, void *, void *);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void *x, void *p, void *h) {
  access((char *)p + 16, 16, true, PCR); access((char *)h + 8, 24, true, PCR);
  __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void *__wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *z, void *h) {
  access(z, 32, true, PCR); access((char *)h + 8, 24, true, PCR);
  return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void *self, void *pos) { access((char *)pos + 8, 8, true, PCR); access(*(char **)((char *)pos + 8), 8, true, PCR); __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(self, pos); }
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(void *self) { access(self, 16, true, PCR); __real__ZNSt8__detail15_List_node_base9_M_unhookEv(self); }
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void *self, void *a, void *b) { access(self, 16, true, PCR); access(a, 16, true, PCR); __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(self, a, b); }
// libstdc++ streams are uninstrumented: a stream used by two tasks is an access to one object
#define STREAM(R, NAME, ARGS, CALL) R __real_##NAME ARGS; R __wrap_##NAME ARGS { access(self, 8, true, PCR); schedPoint("stream", self); return __real_##NAME CALL; }
STREAM(void *, _ZNSi4readEPcl, (void *self, char *p, long n), (self, p, n))
STREAM(void *, _ZNSi5seekgElSt12_Ios_Seekdir, (void *self, long o, int d), (self, o, d))
STREAM(void *, _ZNSi5seekgESt4fposI11__mbstate_tE, (void *self, long a, long b), (self, a, b))
STREAM(int, _ZNSi3getEv, (void *self), (self))
STREAM(void *, _ZNSo5writeEPKcl, (void *self, const char *p, long n), (self, p, n))
STREAM(void *, _ZNSo5seekpElSt12_Ios_Seekdir, (void *self, long o, int d), (self, o, d))
STREAM(void *, _ZNSo5seekpESt4fposI11__mbstate_tE, (void *self, long a, long b), (self, a, b))
STREAM(void *, _ZNSo5flushEv, (void *self), (self))
}
#endif
