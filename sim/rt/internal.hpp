#ifndef VERIF_SIM_INTERNAL_HPP
#define VERIF_SIM_INTERNAL_HPP
#include "sim.hpp"
namespace sim {
extern bool g_quiet;            // harness-internal work in progress
extern bool g_running;          // a run is in progress (child process)
extern Rng g_schedRng;
void emitResult(const char *status, const std::string &cls, const std::string &msg);
void schedInit();
void tlsInit(char *&lo, char *&hi);
extern char *g_tlsLo, *g_tlsHi;    // thread-local variables: no task shares them
uint64_t schedFingerprint();
long long schedSwitches();
// race detector, strong in race.cpp (mt build), weak stubs otherwise
void raceTaskStart(int task, int parent);
void raceTaskEnd(int task, int joiner);
void raceAccess(const void *addr, size_t n, bool write, const void *pc);
void raceAlloc(void *p, size_t n);
void raceFree(void *p, size_t n);
void raceSwitch(int task);
namespace alloc { extern long long armed; struct Pause { long long a; Pause() : a(armed) { armed = 0; } ~Pause() { if (!armed) armed = a; } }; } // the simulator's own memory does not run out
extern int g_cur;               // current task, -1 outside
}
#endif
