// The exported C API of the engine, compiled from /repo, with access to its only global.
#include <string>
#include <sstream>
#include "ExportLib.cpp"
extern "C" void sim_forget_application() { applicationPtr = nullptr; }   // a killed process does not run destructors
extern "C" int sim_has_application() { return applicationPtr != nullptr; }
extern "C" void *sim_swap_application(void *a) { void *old = applicationPtr; applicationPtr = static_cast<Application *>(a); return old; }
