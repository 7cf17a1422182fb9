// Simulation core: one seed -> one tape of choices -> one exactly repeatable run.
// A run executes in a forked child (fresh library state); results travel through shared memory.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <type_traits>

#if defined(__GNUC__)
#define SIM_NOINSTR __attribute__((no_sanitize("thread")))
#endif

namespace sim {
typedef uint32_t u32; typedef uint64_t u64;

constexpr u32 TAPE_MAX = 1u << 16, TRACE_MAX = 1u << 20, SIGS_MAX = 4096, STATS_MAX = 400;
enum State : u32 { Running = 0, Ok = 1, Violation = 2, Discard = 3, HarnessError = 4 };

struct Stat { char name[56]; u64 count; };
struct Shm {
    u32 state; u32 hits;
    char cls[160]; char msg[3000];
    u64 rng; u32 replayPos; u32 tapeLen; u32 tape[TAPE_MAX];      // choices may be drawn by whichever process of the run is at work
    u64 hash; u64 events; u64 nontrivial; u64 simTime;
    u32 traceLen; char trace[TRACE_MAX];
    u32 nSigs; u64 sigs[SIGS_MAX];
    u32 nStats; Stat stats[STATS_MAX];
    unsigned char scratch[1 << 20];
};
extern Shm* shm;
extern bool tracing;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 hstr(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull; return h; }
inline u64 hbytes(const void* p, size_t n, u64 h = 1469598103934665603ull) { const unsigned char* s = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 1099511628211ull; return h; }

// ---- choices -------------------------------------------------------------------------------
u32 draw32(u32 n);                       // uniform in [0,n), n >= 1; 0 is always the simplest choice
inline u32 below(u32 n) { return n <= 1 ? 0u : draw32(n); }
inline bool chance(u32 num, u32 den) { return below(den) >= den - num; }     // minimises to false
inline u32 range(u32 lo, u32 hi) { return lo + below(hi - lo + 1); }         // minimises to lo
u32 word();                                                               // random 32 bits, minimises to 0

// ---- log, statistics, coverage -----------------------------------------------------------------
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // text only in trace mode
void event(u64 h);
template <class... A> inline void ev(const char* tag, A... a) {            // hashed always, text in trace mode
    u64 h = hstr(tag); ((h = mix(h ^ static_cast<u64>(a))), ...); event(h);
    if (tracing) { tracef("%s", tag); ((tracef(" %lld", static_cast<long long>(a))), ...); tracef("\n"); }
}
void evs(const char* tag, const char* text);
void stat(const char* name, u64 n = 1);
void sig(u64 h);                         // one more case of the distinctness measure
inline void nontrivial() { shm->nontrivial++; }

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char* why);
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- sub-runs: run f in a fresh forked process; returns false if it crashed ----------------------------
struct SubResult { int status; size_t len; };
// f writes up to cap bytes into out and returns the length. The parent waits, so choices may be drawn inside.
bool isolated(size_t (*f)(void* arg, unsigned char* out, size_t cap), void* arg, unsigned char* out, size_t cap, size_t& len, int& status);

// ---- scenario entry: defined by each property ---------------------------------------------------
struct Entry { const char* name; void (*run)(); u32 weight; };
void addEntry(const char* name, void (*run)(), u32 weight);     // from static initialisers, one per precision
extern const char* PROPERTY;
struct Register { Register(const char* n, void (*f)(), u32 w) { addEntry(n, f, w); } };
u32 entryCount(); const Entry& entry(u32 i);
}
