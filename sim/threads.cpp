#undef _FORTIFY_SOURCE
#define _GNU_SOURCE 1
#include "threads.h"
#include <pthread.h>
#include <semaphore.h>
#include <link.h>
#include <dlfcn.h>
#include <malloc.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>

namespace sim {
Sched sched;
constexpr u32 MaxT = SchedMaxThreads; constexpr size_t StackSize = 1 << 20;
struct Clock { u32 c[MaxT]; };
static inline void joinClock(Clock& a, const Clock& b) { for (u32 i = 0; i < MaxT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct Thread { pthread_t p; sem_t sem; uintptr_t lo, hi; bool done; const void* waits; u64 budget; int prio; u32 spins; Clock vc; };
static Thread th[MaxT]; static u32 nT = 0, cur = 0, mode = ModeNone; static bool active = false; static u64 scale = 1; static u64 changePoints[8]; static u32 nChange = 0, nextChange = 0; static int lowest = 0;
static __thread int self = -1; static __thread int quiet = 0;
alignas(4096) static unsigned char stacks[MaxT][StackSize];
static void (*bodyFn)(u32, void*) = nullptr; static void* bodyArg = nullptr; static sem_t finishedSem;
static struct { uintptr_t lo, hi; } libs[128]; static u32 nLibs = 0;
static int onObject(struct dl_phdr_info* i, size_t, void* first) {
    int& k = *static_cast<int*>(first); if (k++ == 0) return 0;              // the executable itself
    for (int s = 0; s < i->dlpi_phnum; ++s) if (i->dlpi_phdr[s].p_type == PT_LOAD && nLibs < 128) { libs[nLibs].lo = i->dlpi_addr + i->dlpi_phdr[s].p_vaddr; libs[nLibs].hi = libs[nLibs].lo + i->dlpi_phdr[s].p_memsz; ++nLibs; } return 0; }
static bool inLibrary(uintptr_t a) { for (u32 i = 0; i < nLibs; ++i) if (a >= libs[i].lo && a < libs[i].hi) return true; return false; }

// ---- choosing who runs ----------------------------------------------------------------------------
static u32 lockstep = 1;
static u64 newBudget() { if (mode == ModeLockstep) return lockstep; if (shm->tapeLen > TAPE_MAX - 8192) return ~0ull; u64 s = scale; switch (below(4)) { case 0: s = scale / 8 + 1; break; case 1: s = scale / 2 + 1; break; default: break; } return 1 + below(static_cast<u32>(s)); }
static u32 pickReady(u32 except, bool mayExcept) {
    u32 ready[MaxT], n = 0; for (u32 i = 0; i < nT; ++i) if (!th[i].done && !th[i].waits && (mayExcept || i != except)) ready[n++] = i;
    if (!n) return ~0u;
    if (mode == ModePriorities) { u32 best = ready[0]; for (u32 i = 1; i < n; ++i) if (th[ready[i]].prio > th[best].prio) best = ready[i]; return best; }
    if (mode == ModeLockstep) { for (u32 i = 0; i < n; ++i) if (ready[i] > except) return ready[i]; return ready[0]; }
    return ready[below(n)];
}
static void handOver(u32 to) {      // the caller is thread `self`
    const u32 me = static_cast<u32>(self); if (to == me) return;
    ++sched.switches; sched.interleaving = mix(sched.interleaving ^ (static_cast<u64>(me) << 60) ^ sched.sharedSteps << 8 ^ to); ev("switch", me, to, sched.steps);
    cur = to; th[to].budget = newBudget(); sem_post(&th[to].sem);
    while (sem_wait(&th[me].sem) && errno == EINTR) ;
}
static void maybeSwitch(bool shared) {
    Thread& t = th[self];
    if (mode == ModePriorities) { bool change = nextChange < nChange && sched.sharedSteps >= changePoints[nextChange]; if (change) { ++nextChange; t.prio = --lowest; u32 to = pickReady(0, true); if (to != static_cast<u32>(self)) handOver(to); } return; }
    if ((mode == ModeShared || mode == ModeLockstep) && !shared) return;
    if (t.budget && --t.budget) return;
    t.budget = newBudget(); u32 to = pickReady(static_cast<u32>(self), true); handOver(to);
}
static void block(const void* on) {
    Thread& t = th[self]; t.waits = on; u32 to = pickReady(static_cast<u32>(self), false);
    if (to == ~0u) violation("deadlock", "no thread can go on: thread %d waits for a lock at its point %llu", self, static_cast<unsigned long long>(sched.steps));
    handOver(to);
}
static void wake(const void* on) { for (u32 i = 0; i < nT; ++i) if (th[i].waits == on) th[i].waits = nullptr; }

// ---- data races --------------------------------------------------------------------------------
struct Cell { uintptr_t key; u32 wTid, wClk; unsigned char wMask, wAtomic; unsigned char rMask[MaxT], rAtomic[MaxT]; u32 rClk[MaxT]; };
constexpr u32 Cells = 1 << 16; static Cell cells[Cells]; static u32 usedCells = 0;
static Cell* cellOf(uintptr_t k) { u32 h = static_cast<u32>(mix(k)) & (Cells - 1); while (cells[h].key && cells[h].key != k) h = (h + 1) & (Cells - 1); if (!cells[h].key) { if (++usedCells > Cells / 2) return nullptr; cells[h].key = k; cells[h].wTid = ~0u; } return &cells[h]; }
static void raceCheck(uintptr_t a, size_t n, bool write, bool atomic) {
    const u32 me = static_cast<u32>(self); Clock& vc = th[me].vc;
    for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
        unsigned char m = 0xff; if (k == a >> 3) m = static_cast<unsigned char>(m & (0xff << (a & 7))); if (k == (a + n - 1) >> 3) m = static_cast<unsigned char>(m & (0xff >> (7 - ((a + n - 1) & 7))));
        Cell* c = cellOf(k); if (!c) { stat("race_detector_full"); return; }
        bool bad = c->wTid != ~0u && c->wTid != me && (c->wMask & m) && !(atomic && c->wAtomic) && c->wClk > vc.c[c->wTid]; u32 other = c->wTid; bool otherWrite = true;
        if (!bad && write) for (u32 i = 0; i < nT && !bad; ++i) if (i != me && (c->rMask[i] & m) && !(atomic && c->rAtomic[i]) && c->rClk[i] > vc.c[i]) { bad = true; other = i; otherWrite = false; }
        if (bad) violation("data-race", "threads %u and %u access the same memory without synchronisation (%s after %s)", me, other, write ? "write" : "read", otherWrite ? "write" : "read");
        if (write) { if (c->wTid == me && c->wClk == vc.c[me]) c->wMask |= m; else c->wMask = m; c->wTid = me; c->wClk = vc.c[me]; c->wAtomic = atomic; }
        else { if (c->rClk[me] == vc.c[me]) c->rMask[me] |= m; else c->rMask[me] = m; c->rClk[me] = vc.c[me]; c->rAtomic[me] = atomic; }
    }
}
static void forget(void* p, size_t n) { if (!active || self < 0) return; uintptr_t a = reinterpret_cast<uintptr_t>(p); for (uintptr_t k = a >> 3; n && k <= (a + n - 1) >> 3; ++k) { u32 h = static_cast<u32>(mix(k)) & (Cells - 1); while (cells[h].key && cells[h].key != k) h = (h + 1) & (Cells - 1); if (cells[h].key) { uintptr_t key = cells[h].key; memset(&cells[h], 0, sizeof(Cell)); cells[h].key = key; cells[h].wTid = ~0u; } } }
struct Sync { const void* key; Clock vc; int owner; u32 depth, readers; }; constexpr u32 Syncs = 1 << 10; static Sync syncs[Syncs];
static Sync& syncOf(const void* k) { u32 h = static_cast<u32>(mix(reinterpret_cast<uintptr_t>(k))) & (Syncs - 1); u32 g = 0; while (syncs[h].key && syncs[h].key != k) { h = (h + 1) & (Syncs - 1); if (++g > Syncs - 2) harnessError("too many synchronisation objects"); } if (!syncs[h].key) { syncs[h].key = k; syncs[h].owner = -1; } return syncs[h]; }
static void acquire(const void* k) { joinClock(th[self].vc, syncOf(k).vc); }
static void release(const void* k) { joinClock(syncOf(k).vc, th[self].vc); ++th[self].vc.c[self]; }

// ---- interrupting the running thread ----------------------------------------------------------------
static void (*nestCb)(void*, u32) = nullptr; static void* nestArg = nullptr; static u64 nestAt[4]; static u32 nestN = 0, nestNext = 0, nestDepth = 0; static bool nestShared = false;
void schedNest(void (*cb)(void*, u32), void* arg, const u64* k, u32 n, bool sharedOnly) { nestCb = cb; nestArg = arg; nestN = n < 4 ? n : 4; for (u32 i = 0; i < nestN; ++i) nestAt[i] = k[i]; nestNext = 0; nestShared = sharedOnly; nestDepth = 0; }

static inline void point(const void* p, size_t n, bool write, bool atomic) {
    if (!active || self < 0 || quiet) return;
    const uintptr_t a = reinterpret_cast<uintptr_t>(p); Thread& t = th[self]; const bool shared = (a < t.lo || a >= t.hi) && !inLibrary(a);
    ++sched.steps; if (shared) ++sched.sharedSteps;
    if (sched.steps > sched.maxSteps) violation("no-progress", "%llu steps without finishing", static_cast<unsigned long long>(sched.steps));
    if (nestCb && nestNext < nestN && (nestShared ? shared && sched.sharedSteps >= nestAt[nestNext] : sched.steps >= nestAt[nestNext])) { u32 i = nestNext++; ++sched.nested; ++nestDepth; nestCb(nestArg, i); --nestDepth; }
    if (mode != ModeNone) { maybeSwitch(shared); if (shared && sched.races && n) raceCheck(a, n, write, atomic); }
}
void schedPoint(const void* addr, u32 size) { point(addr, size, true, true); }
bool schedQuiet(bool q) { bool o = quiet; quiet = q; return o; }
void copyOut(void* to, const void* from, size_t n) { unsigned char* t = static_cast<unsigned char*>(to); const unsigned char* f = static_cast<const unsigned char*>(from); for (size_t i = 0; i < n; ++i) t[i] = f[i]; }

static void* threadMain(void* p) {
    const u32 me = static_cast<u32>(reinterpret_cast<uintptr_t>(p)); while (sem_wait(&th[me].sem) && errno == EINTR) ;
    self = static_cast<int>(me); bodyFn(me, bodyArg); self = -1;
    th[me].done = true; u32 to = ~0u; u32 left = 0; for (u32 i = 0; i < nT; ++i) if (!th[i].done) ++left;
    if (left) { u32 ready[MaxT], n = 0; for (u32 i = 0; i < nT; ++i) if (!th[i].done && !th[i].waits) ready[n++] = i;
        if (!n) violation("deadlock", "a thread ended and the others wait for locks");
        if (mode == ModePriorities) { to = ready[0]; for (u32 i = 1; i < n; ++i) if (th[ready[i]].prio > th[to].prio) to = ready[i]; } else to = pickReady(me, false);
        ev("ended", me, to); cur = to; th[to].budget = newBudget(); sem_post(&th[to].sem); }
    else sem_post(&finishedSem);
    return nullptr;
}
static void start(u32 n, u32 onlyTid) {
    if (!nLibs) { int k = 0; dl_iterate_phdr(onObject, &k); }
    sem_init(&finishedSem, 0, 0); nT = n;
    for (u32 i = 0; i < n; ++i) { Thread& t = th[i]; t.done = onlyTid != ~0u && i != onlyTid; t.waits = nullptr; t.spins = 0; sem_init(&t.sem, 0, 0); t.lo = reinterpret_cast<uintptr_t>(stacks[i]); t.hi = t.lo + StackSize; memset(&t.vc, 0, sizeof t.vc); t.vc.c[i] = 1; t.prio = 0; t.budget = 0; }
    for (u32 i = 0; i < n; ++i) if (!th[i].done) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks[i], StackSize); if (pthread_create(&th[i].p, &a, threadMain, reinterpret_cast<void*>(static_cast<uintptr_t>(i)))) harnessError("pthread_create"); }
}
void schedRun(u32 n, void (*body)(u32, void*), void* arg, u32 m, u64 expectedSteps, u64 expectedShared) {
    bodyFn = body; bodyArg = arg; mode = m; sched.steps = sched.sharedSteps = sched.switches = sched.nested = 0; sched.interleaving = m; start(n, ~0u);
    if (m == ModeLockstep) lockstep = 1u << below(6);
    u64 span = m == ModeAny ? expectedSteps : expectedShared; if (span > 1u << 22) span = 1u << 22; if (span < 4) span = 4;
    static const u32 div[] = {4, 16, 64, 1024, 1u << 30}; scale = span / div[below(5)]; if (scale < 2) scale = 2;
    if (m == ModePriorities) { nChange = range(1, 6); nextChange = 0; for (u32 i = 0; i < nChange; ++i) changePoints[i] = below(static_cast<u32>(expectedShared ? (expectedShared < 1u << 30 ? expectedShared : 1u << 30) : 1)); for (u32 i = 1; i < nChange; ++i) for (u32 j = i; j && changePoints[j] < changePoints[j - 1]; --j) { u64 x = changePoints[j]; changePoints[j] = changePoints[j - 1]; changePoints[j - 1] = x; } for (u32 i = 0; i < n; ++i) th[i].prio = static_cast<int>(below(1000)); lowest = -1; }
    u32 first = below(n); if (m == ModePriorities) for (u32 i = 0; i < n; ++i) if (th[i].prio > th[first].prio) first = i;
    cur = first; th[first].budget = newBudget(); active = true; sem_post(&th[first].sem);
    while (sem_wait(&finishedSem) && errno == EINTR) ;
    active = false; for (u32 i = 0; i < n; ++i) pthread_join(th[i].p, nullptr);
    ev("all threads done", sched.steps, sched.sharedSteps, sched.switches);
}
void schedSolo(void (*body)(u32, void*), void* arg, u32 tid) {
    bodyFn = body; bodyArg = arg; mode = ModeNone; sched.steps = sched.sharedSteps = sched.nested = 0; start(tid + 1, tid); active = true; sem_post(&th[tid].sem);
    while (sem_wait(&finishedSem) && errno == EINTR) ; active = false; pthread_join(th[tid].p, nullptr);
}
static bool simulated() { return active && self >= 0; }
template <class F> static F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static void lockSim(const void* m, bool recursive) { point(m, 0, true, true); Sync& s = syncOf(m); for (;;) { if (s.owner < 0 && !s.readers) break; if (s.owner == self) { if (recursive) { ++s.depth; return; } violation("deadlock", "a thread waits for a lock it holds itself"); } block(m); } s.owner = self; s.depth = 1; joinClock(th[self].vc, s.vc); }
static void unlockSim(const void* m) { Sync& s = syncOf(m); if (s.owner == self && --s.depth) return; if (s.owner == self) s.owner = -1; else if (s.readers) --s.readers; release(m); wake(m); point(m, 0, true, true); }
static void spinCheck() { if (mode == ModePriorities && ++th[self].spins > 200) { th[self].spins = 0; th[self].prio = --lowest; u32 to = pickReady(0, true); if (to != static_cast<u32>(self)) handOver(to); } }
}
using namespace sim;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define ACC(n) \
  void __tsan_read##n(void* p) { point(p, n, false, false); } void __tsan_write##n(void* p) { point(p, n, true, false); } \
  void __tsan_unaligned_read##n(void* p) { point(p, n, false, false); } void __tsan_unaligned_write##n(void* p) { point(p, n, true, false); } \
  void __tsan_volatile_read##n(void* p) { point(p, n, false, false); } void __tsan_volatile_write##n(void* p) { point(p, n, true, false); } \
  void __tsan_unaligned_volatile_read##n(void* p) { point(p, n, false, false); } void __tsan_unaligned_volatile_write##n(void* p) { point(p, n, true, false); } \
  void __tsan_read_write##n(void* p) { point(p, n, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) point(p, n, false, false); } void __tsan_write_range(void* p, unsigned long n) { if (n) point(p, n, true, false); }
void __tsan_vptr_update(void** p, void*) { point(p, 8, true, false); } void __tsan_vptr_read(void** p) { point(p, 8, false, false); }
// memory_order: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define REL(mo) ((mo) == 3 || (mo) >= 4)
#define BEFORE(p, T, w) if (simulated() && !quiet) { point((const void*)(p), sizeof(T), w, true); spinCheck(); }
#define AFTER(p, mo, acq, rel) if (simulated() && !quiet) { if ((acq) && ACQ(mo)) acquire((const void*)(p)); if ((rel) && REL(mo)) release((const void*)(p)); }
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { BEFORE(a, T, false) T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); AFTER(a, mo, true, false) return r; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, false, true) __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { BEFORE(a, T, true) AFTER(a, mo, true, true) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { BEFORE(a, T, true) AFTER(a, mo, true, true) __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
static char fenceObject;
void __tsan_atomic_thread_fence(int mo) { if (simulated() && !quiet) { point(&fenceObject, 0, true, true); if (ACQ(mo)) acquire(&fenceObject); if (REL(mo)) release(&fenceObject); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
// locks and once-initialisation, whoever uses them
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock")(m); lockSim(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m); point(m, 0, true, true); Sync& s = syncOf(m); if (s.owner >= 0 || s.readers) return EBUSY; lockSim(m, false); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m); unlockSim(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock")(m); lockSim(m, false); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock")(m); point(m, 0, true, true); Sync& s = syncOf(m); while (s.owner >= 0) { if (s.owner == self) violation("deadlock", "a thread waits for a lock it holds itself"); block(m); } ++s.readers; joinClock(th[self].vc, s.vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock")(m); unlockSim(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_spinlock_t*)>("pthread_spin_lock")(m); lockSim(const_cast<int*>(m), false); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { if (!simulated()) return next<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock")(m); unlockSim(const_cast<int*>(m)); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 2) { if (simulated()) acquire(o); return 0; } if (!simulated()) return next<int (*)(pthread_once_t*, void (*)())>("pthread_once")(o, f);
    lockSim(o, false); if (*o != 2) { f(); *o = 2; } unlockSim(o); return 0; }
int __cxa_guard_acquire(unsigned char* g) { if (!simulated()) { if (g[0]) return 0; return 1; }
    lockSim(g, false); if (g[0]) { unlockSim(g); return 0; } return 1; }
void __cxa_guard_release(unsigned char* g) { if (simulated()) { release(g); g[0] = 1; unlockSim(g); } else g[0] = 1; }
void __cxa_guard_abort(unsigned char* g) { if (simulated()) unlockSim(g); }
int sched_yield() noexcept { if (simulated()) { u32 to = pickReady(static_cast<u32>(self), false); if (mode != ModeNone && to != ~0u) { if (mode == ModePriorities) th[self].prio = --lowest; handOver(to); } } return 0; }
// allocation: recycled memory starts a new life for the race detector
extern void* __libc_malloc(size_t); extern void __libc_free(void*);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && active) forget(p, malloc_usable_size(p)); return p; }
void free(void* p) { if (p && active) forget(p, malloc_usable_size(p)); __libc_free(p); }
// copies the compiler left as calls
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && simulated() && !quiet) { point(s, n, false, false); point(d, n, true, false); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && simulated() && !quiet) { point(s, n, false, false); point(d, n, true, false); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n && simulated() && !quiet) point(d, n, true, false); return __real_memset(d, c, n); }
}
