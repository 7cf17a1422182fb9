// Simulated threads: real threads of which exactly one runs at a time. The code under test is compiled with
// -fsanitize=thread instrumentation but linked with this runtime instead of libtsan, so every memory access,
// atomic operation, lock and once-initialisation is a point where the seeded scheduler may switch threads
// or interrupt the running thread with nested work.
#pragma once
#include "core.h"
namespace sim {
enum SchedMode : u32 { ModeNone = 0, ModeAny, ModeShared, ModePriorities, ModeLockstep };
constexpr u32 SchedMaxThreads = 12;
struct Sched {
    u64 steps, sharedSteps, switches, interleaving, nested;   // filled by a run
    u64 maxSteps; bool races;                                    // bounds; whether unordered conflicting accesses are violations
};
extern Sched sched;
// Runs body(0..n-1) as n simulated threads. expected: about how many points each mode will meet (from a solo run).
void schedRun(u32 n, void (*body)(u32, void*), void* arg, u32 mode, u64 expectedSteps, u64 expectedShared);
// Runs body alone on one simulated thread, counting points only.
void schedSolo(void (*body)(u32, void*), void* arg, u32 tid);
// The running simulated thread calls cb(arg, i) before its k[i]-th point (counted over shared points only if sharedOnly).
void schedNest(void (*cb)(void*, u32), void* arg, const u64* k, u32 n, bool sharedOnly);
void schedPoint(const void* addr, u32 size);              // an atomic device operation
bool schedQuiet(bool q);                                       // stop counting and switching (harness work); returns the old value
void copyOut(void* to, const void* from, size_t n);            // uninstrumented copy
}
