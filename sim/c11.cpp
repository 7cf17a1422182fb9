// C11: simulated GPU threads calling the atomic set and exchange on one shared number; every block checked as an atomic register.
#ifdef DEVICE
#include "cuda_shim.h"
#endif
#include "values.h"
#include "threads.h"
#include <set>
#include <vector>
using namespace sim;
#ifndef DEVICE
namespace { bool instantiate() { Num<BITS> v{}; return makeAeu(v).isZero() && makeAesi(v).isZero(); } volatile bool used = instantiate(); }   // the host build must compile
#else
namespace {
constexpr u32 MaxThreads = 6, MaxCalls = 4, B = BITS / 32, MaxOps = MaxThreads * MaxCalls;
enum Kind : u32 { Set, Exchange, Read };
struct Call { Kind kind; u32 pos; bool fresh; Num<BITS> v; u32 in[B], out[B]; u64 inv, res;};
template <class T> T make(const Num<BITS>& v); template <> Aeu<BITS> make<Aeu<BITS>>(const Num<BITS>& v) { return makeAeu(v); } template <> Aesi<BITS> make<Aesi<BITS>>(const Num<BITS>& v) { return makeAesi(v); }
bool same(const Aeu<BITS>& a, const Num<BITS>& v) { return sameBlocks(a, v); } bool same(const Aesi<BITS>& a, const Num<BITS>& v) { return sameSigned(a, v); }
static Call calls[MaxThreads][MaxCalls]; static u32 nCalls[MaxThreads], nThreads; static u64 clockNow;
template <class T> struct World { static T shared, own[MaxThreads], given[MaxThreads][MaxCalls]; };
template <class T> T World<T>::shared; template <class T> T World<T>::own[MaxThreads]; template <class T> T World<T>::given[MaxThreads][MaxCalls];
template <class T> void blocksOf(const T& x, u32* to) { bool q = schedQuiet(true); for (u32 i = 0; i < B; ++i) to[i] = x.getBlock(i); schedQuiet(q); }
SIM_NOINSTR void stamp(u64& s) { s = ++clockNow; }
template <class T> void body(u32 t, void*) {
    typedef World<T> W;
    for (u32 c = 0; c < nCalls[t]; ++c) { Call& k = calls[t][c];
        if (k.kind == Exchange && k.fresh) { bool q = schedQuiet(true); W::own[t] = W::given[t][c]; schedQuiet(q); }
        const T& given = W::given[t][c]; blocksOf(k.kind == Exchange ? W::own[t] : given, k.in); stamp(k.inv);
        if (k.kind == Set) W::shared.tryAtomicSet(given); else if (k.kind == Exchange) W::shared.tryAtomicExchange(W::own[t]); else k.out[k.pos] = W::shared.getBlock(k.pos);
        stamp(k.res); if (k.kind == Exchange) blocksOf(W::own[t], k.out); else if (k.kind == Set) { u32 after[B]; blocksOf(given, after); if (memcmp(after, k.in, sizeof after)) violation("argument-changed", "atomic set changed its argument"); } }
}
// One block as an atomic register: is there an order of the calls, consistent with their real-time order, that explains everything seen?
struct Op { u32 kind, in, out; u64 inv, res; };
struct Search { std::vector<Op> ops; u32 last; std::set<std::pair<u32, u32>> seen;
    bool go(u32 done, u32 value) { const u32 n = static_cast<u32>(ops.size()); if (done == (n == 32 ? ~0u : (1u << n) - 1)) return value == last; if (!seen.insert({done, value}).second) return false;
        u64 firstRes = ~0ull; for (u32 i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].res < firstRes) firstRes = ops[i].res;
        for (u32 i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].inv < firstRes) { const Op& o = ops[i]; if (o.kind != Set && o.out != value) continue; if (go(done | 1u << i, o.kind == Read ? value : o.in)) return true; }
        return false; } };
struct Solo { u64 steps, sharedSteps; };
template <class T> size_t alone(void* arg, unsigned char* out, size_t) { schedSolo(body<T>, nullptr, *static_cast<u32*>(arg)); Solo& s = *reinterpret_cast<Solo*>(out); s.steps = sched.steps; s.sharedSteps = sched.sharedSteps; return sizeof(Solo); }
Num<BITS> genValue(u32 style, u32 id) { Num<BITS> v{}; if (style == 0) { for (u32 i = 0; i < B; ++i) v.b[i] = (id + 1) << 16 | (i + 1) << 8 | below(256); v.neg = below(2); } else if (style == 1) v = genSigned<BITS>(); else { for (u32 i = 0; i < B; ++i) { static const u32 s[] = {0, 1, 0xffffffffu, 0x80000000u}; v.b[i] = s[below(style == 2 ? 2 : 4)]; } v.neg = below(2) && !v.zero(); } return v; }
template <class T> void scenario(const char* type) {
    typedef World<T> W; const u32 style = below(4); const bool exchangeOnly = chance(1, 3); nThreads = range(2, MaxThreads); const u32 maxCalls = style >= 2 ? 2 : MaxCalls; u32 id = 0;
    Num<BITS> initial = genValue(style, id++); W::shared = make<T>(initial); u32 start[MaxThreads + 1][B]; blocksOf(W::shared, start[MaxThreads]); evs("type", type);
    for (u32 t = 0; t < nThreads; ++t) { W::own[t] = make<T>(genValue(style, id++)); blocksOf(W::own[t], start[t]); nCalls[t] = range(1, maxCalls);
        for (u32 c = 0; c < nCalls[t]; ++c) { Call& k = calls[t][c]; k.kind = exchangeOnly ? Exchange : static_cast<Kind>(below(3)); k.pos = below(B); k.fresh = !exchangeOnly && below(2); k.v = genValue(style, id++); W::given[t][c] = make<T>(k.v); ev("call", t, c, k.kind, k.pos, k.fresh); } }
    u64 steps = 0, sharedSteps = 0; Solo s; size_t len; int status; sched.races = false;
    for (u32 t = 0; t < nThreads; ++t) { sched.maxSteps = 10000000; if (!isolated(alone<T>, &t, reinterpret_cast<unsigned char*>(&s), sizeof s, len, status)) violation("crash", "a thread alone died (status %d)", status); steps += s.steps; sharedSteps += s.sharedSteps; }
    const u32 mode = 1 + below(4); sched.maxSteps = steps * 100 + 100000; clockNow = 0; schedRun(nThreads, body<T>, nullptr, mode, steps, sharedSteps);
    u32 final[B]; blocksOf(W::shared, final); u32 overlaps = 0, nOps = 0; for (u32 i = 0; i < B; ++i) event(final[i]);
    for (u32 t = 0; t < nThreads; ++t) for (u32 c = 0; c < nCalls[t]; ++c) { ++nOps; for (u32 u = 0; u < t; ++u) for (u32 d = 0; d < nCalls[u]; ++d) overlaps += calls[u][d].inv < calls[t][c].res && calls[t][c].inv < calls[u][d].res; }
    if (exchangeOnly) for (u32 i = 0; i < B; ++i) { std::multiset<u32> a, b; a.insert(start[MaxThreads][i]); b.insert(final[i]); for (u32 t = 0; t < nThreads; ++t) { a.insert(start[t][i]); b.insert(W::own[t].getBlock(i)); } if (a != b) violation("not-a-permutation", "%s: exchanges lost or repeated block %u", type, i); }
    for (u32 i = 0; i < B; ++i) { Search q; q.last = final[i]; for (u32 t = 0; t < nThreads; ++t) for (u32 c = 0; c < nCalls[t]; ++c) { const Call& k = calls[t][c]; if (k.kind == Read && k.pos != i) continue; q.ops.push_back({k.kind, k.in[i], k.kind == Set ? 0 : k.out[i], k.inv, k.res}); }
        if (!q.go(0, start[MaxThreads][i])) violation("not-atomic", "%s: no order of the calls explains what block %u held", type, i); }
    // calls that run alone
    const Num<BITS> a = genValue(below(4), id++), b = genValue(below(4), id++); W::given[0][0] = make<T>(a); W::own[0] = make<T>(b);
    W::shared.tryAtomicSet(W::given[0][0]); if (!same(W::shared, a)) violation("alone-set", "%s: an atomic set that ran alone did not set the whole number", type); if (!same(W::given[0][0], a)) violation("argument-changed", "%s: atomic set changed its argument", type);
    W::shared.tryAtomicExchange(W::own[0]); if (!same(W::shared, b) || !same(W::own[0], a)) violation("alone-exchange", "%s: an atomic exchange that ran alone did not swap the whole numbers", type);
    stat("calls", nOps + 2); stat("overlapping_pairs", overlaps); stat("fault.preemption", sched.switches); stat(mode == ModeAny ? "schedule.any_access" : mode == ModeShared ? "schedule.shared_access" : mode == ModeLockstep ? "schedule.lockstep" : "schedule.priorities"); shm->simTime += sched.steps; stat("accesses", sched.steps);
    if (overlaps) { nontrivial(); u64 h = sched.interleaving; for (u32 t = 0; t < nThreads; ++t) for (u32 c = 0; c < nCalls[t]; ++c) h = mix(h ^ calls[t][c].kind); sig(mix(h ^ BITS) ^ hstr(type)); }
}
void run() { if (below(2)) scenario<Aesi<BITS>>("Aesi"); else scenario<Aeu<BITS>>("Aeu"); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
#endif
