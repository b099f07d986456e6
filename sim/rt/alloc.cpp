// Allocation seam: operator new can be told to fail; freed memory is poisoned.
#include "internal.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
#include <random>
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
  int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *); int __real_gettimeofday(struct timeval *, void *); }
#include <time.h>
#include <sys/time.h>
namespace sim { namespace alloc {
long long armed = 0; static long long nFired = 0, nCount = 0;
void failAt(long long n) { armed = n; }
long long fired() { return nFired; }
long long count() { return nCount; }
}
static uint64_t devState = 1;
void seedRandomDevice(uint64_t s) { devState = s; }
}
#ifdef SIM_MT
extern "C" { void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t); }
#else
#define __real_memset memset
#define __real_memcpy memcpy
#endif
using namespace sim;
// Guarded blocks: the tail is filled, the last word holds the size asked for. A damaged tail is an overrun.
static const size_t Guard = 16; static const uint64_t Mark = 0xB10C5AFEull << 32;
static bool guarding() { return g_running && g_cur >= 0; }
static void guard(void *p, size_t n) {
  size_t u = malloc_usable_size(p); if (u < n + Guard || n >> 32) return;
  __real_memset((char *)p + n, 0xFD, u - n - 8); uint64_t w = Mark | n; __real_memcpy((char *)p + u - 8, &w, 8);
}
static size_t guarded(void *p) { // size asked for, or 0
  size_t u = malloc_usable_size(p); if (u < Guard) return 0; uint64_t w; __real_memcpy(&w, (char *)p + u - 8, 8);
  if ((w & 0xFFFFFFFF00000000ull) != Mark) return 0; size_t n = (uint32_t)w;
  bool bad = n + Guard > u; for (size_t i = n; !bad && i < u - 8; ++i) bad = ((unsigned char *)p)[i] != 0xFD;
  if (bad) { g_quiet = true; fail("heap-overrun", "a block of " + std::to_string(n) + " bytes was written beyond its end"); }
  w = 0; __real_memcpy((char *)p + u - 8, &w, 8); return n;
}
static void *doNew(size_t n) {
  if (!g_quiet && g_cur >= 0) {
    ++sim::alloc::nCount;
    if (sim::alloc::armed > 0 && --sim::alloc::armed == 0) { ++sim::alloc::nFired; sim::count("fault.bad_alloc"); trace("FAULT bad_alloc"); throw std::bad_alloc(); }
  }
  bool g = guarding(); void *p = __real_malloc(g ? n + Guard : n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g) guard(p, n);
  if (g_running) { raceAlloc(p, malloc_usable_size(p)); __real_memset(p, 0xCD, n); }
  return p;
}
static void doDelete(void *p) {
  if (!p) return;
  if (g_running) { guarded(p); size_t n = malloc_usable_size(p); raceFree(p, n); __real_memset(p, 0xDD, n); }
  __real_free(p);
}
void *operator new(size_t n) { return doNew(n); }
void *operator new[](size_t n) { return doNew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return doNew(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return doNew(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { doDelete(p); }
void operator delete[](void *p) noexcept { doDelete(p); }
void operator delete(void *p, size_t) noexcept { doDelete(p); }
void operator delete[](void *p, size_t) noexcept { doDelete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { doDelete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { doDelete(p); }
extern "C" {
void *__wrap_malloc(size_t n) { bool g = guarding(); void *p = __real_malloc(g ? n + Guard : n); if (p && g) guard(p, n); if (p && g_running) raceAlloc(p, malloc_usable_size(p)); return p; }
void __wrap_free(void *p) { if (p && g_running) guarded(p); if (p && g_running) raceFree(p, malloc_usable_size(p)); __real_free(p); }
// not the ones of libc: they clear and copy with the wrapped functions before the memory is known to be new
void *__wrap_calloc(size_t a, size_t b) { size_t n = a * b; if (b && n / b != a) return nullptr; void *p = __wrap_malloc(n); if (p) __real_memset(p, 0, n); return p; }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!g_running) return __real_realloc(p, n);
  size_t had = guarded(p); if (!had) had = malloc_usable_size(p);
  void *q = __wrap_malloc(n); if (!q) return nullptr; __real_memcpy(q, p, had < n ? had : n); __wrap_free(p); return q;
}
// std::random_device is seeded randomness here
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) {
  uint64_t z = (devState += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27;
  if (!g_quiet) sim::count("seam.random_device");
  return (unsigned)z;
}
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
void __wrap__ZNSt13random_device7_M_finiEv(void *) {}
// simulated clock: one event = one microsecond
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!g_running) return __real_clock_gettime(c, t); t->tv_sec = 1000000000 + g_events / 1000000; t->tv_nsec = (g_events % 1000000) * 1000; return 0; }
time_t __wrap_time(time_t *t) { if (!g_running) return __real_time(t); time_t v = 1000000000 + g_events / 1000000; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!g_running) return __real_gettimeofday(t, z); t->tv_sec = 1000000000 + g_events / 1000000; t->tv_usec = g_events % 1000000; return 0; }
}
