// C12: a grid of simulated GPU threads computes in a device build of the library; the host build computes the same.
// This file is compiled three times per precision: as it is (host), with -DDEVICE, and with -DDEVICE -DPLAIN (a device
// build without the scheduler's instrumentation, for grids of one thread: many more operands in the same time).
#ifdef DEVICE
#include "cuda_shim.h"
#endif
#define OPS_NO_STREAM
#include "ops.h"
#include "threads.h"
using namespace sim;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
struct Step { u32 op; u64 p; };
struct Job { u32 nSteps, nInPlace; Step step[3]; u32 inPlace[8]; };
constexpr u32 InPlaceOps = 16;
// One element: numbers of its own in the array, worked on in place.
template <size_t N> struct Element { Aeu<N> u; Aesi<N> s; };
template <size_t N> __attribute__((noinline)) void inPlace(u32 op, Element<N>& e, const Operands<N>& o) {
    switch (op) {
        case 0: e.u += o.a; break; case 1: e.u *= o.b; break; case 2: e.u -= o.a; break; case 3: e.u ^= o.s; break; case 4: e.u <<= o.sh % 40u; break; case 5: e.u >>= o.idx % 40u; break; case 6: ++e.u; break; case 7: e.u %= o.m; break;
        case 8: e.s += o.ss; break; case 9: e.s -= o.ss; break; case 10: e.s.inverse(); break; case 11: ++e.s; break; case 12: if (e.u < o.a) e.u += e.u; else --e.u; break; case 13: if (e.s < o.ss || e.s != o.sb) --e.s; break;
        case 14: e.u.setBit(o.idx, true); e.u.setBlock(o.sh % (N / 32), static_cast<u32>(o.k)); break; default: { Element<N> t = e; t.u.swap(e.u); e.s = t.s; e.s %= o.ss; break; } }
}
template <size_t N> void initElement(Element<N>& e, u32 i, const Operands<N>& o) { e.u = o.b; e.u += i; e.s = o.ss; for (u32 k = 0; k < i; ++k) ++e.s; }
template <size_t N> void element(u32 i, const Job& j, Element<N>& e, const Operands<N>& o, Out& out) {
    for (u32 k = 0; k < j.nInPlace; ++k) inPlace<N>(j.inPlace[k], e, o);
    for (u32 k = 0; k < j.nSteps; ++k) runOp<N>(j.step[k].op, o, mix(j.step[k].p + i), out);
}
void CAT(hostElement, BITS)(const RawOperands<BITS>* raw, const Job* j, u32 i, Out* out);
void CAT(plainElement, BITS)(const RawOperands<BITS>* raw, const Job* j, u32 i, Out* out);
#if defined PLAIN
void CAT(plainElement, BITS)(const RawOperands<BITS>* raw, const Job* j, u32 i, Out* out) { static Operands<BITS> o; buildOperands(o, *raw); Element<BITS> e; initElement(e, i, o); element<BITS>(i, *j, e, o, *out); out->num(e.u); out->num(e.s); }
#elif !defined DEVICE
void CAT(hostElement, BITS)(const RawOperands<BITS>* raw, const Job* j, u32 i, Out* out) { static Operands<BITS> o; buildOperands(o, *raw); Element<BITS> e; initElement(e, i, o); element<BITS>(i, *j, e, o, *out); out->num(e.u); out->num(e.s); }
#else
namespace {
constexpr u32 MaxElements = 24;
static RawOperands<BITS> raw; static Operands<BITS> shared; static Job job; static Element<BITS> elements[MaxElements]; static Out results[MaxElements], expected; static u32 nElements, nBlocks, nThreads;
static u32 waveBlock[SchedMaxThreads];     // of each resident thread
static u32 waveThread[SchedMaxThreads];
static bool sparse;                         // the threads simulated are some of a larger grid's, one element each; the others have ended or not begun
static DeviceIndex blockIdOf[8], threadIdOf[5][10], dims, gridDims;
void kernel() {
    const u32 first = blockIdx.x * blockDim.x + threadIdx.x, stride = gridDim.x * blockDim.x;
    for (u32 i = first; i < nElements; i += stride) { Out o; element<BITS>(i, job, elements[i], shared, o); copyOut(&results[i], &o, sizeof(Out)); }
}
void body(u32 t, void*) {
    if (sparse) { const u32 b = waveBlock[t], i = b * nThreads + waveThread[t]; threadIdx = threadIdOf[b][waveThread[t]]; blockIdx = blockIdOf[b]; blockDim = dims; gridDim = gridDims; Out o; element<BITS>(i, job, elements[i], shared, o); copyOut(&results[i], &o, sizeof(Out)); return; }
    threadIdx.x = waveThread[t]; blockIdx.x = waveBlock[t]; blockDim.x = nThreads; gridDim.x = nBlocks; kernel(); }
u32 pickLinear(u32 size, u32 last, bool any) { static const u32 steps[] = {1, 4, 8, 16, 32, 64, 128, 256, 512, 10, 100, 1000, 48}; if (!any || below(4) == 0) return below(size); return (last + steps[below(13)] * (1 + below(2))) % size; }
DeviceIndex unfold(u32 linear, const DeviceIndex& d) { return DeviceIndex{linear % d.x, linear / d.x % d.y, linear / d.x / d.y}; }
void drawGrid() {
    static const u32 extents[] = {32, 64, 1, 2, 8, 16, 33, 100, 128, 256, 512, 1024};
    auto shape = [&](u32 most) { DeviceIndex d{extents[below(12)], 1, 1}; if (below(3) == 0) d.y = extents[below(12)]; if (below(6) == 0) d.z = extents[2 + below(4)]; while (d.x * d.y * d.z > most) { if (d.z > 1) d.z /= 2; else if (d.y > 1) d.y /= 2; else d.x /= 2; } return d; };
    dims = shape(1024); gridDims = shape(100000); while (dims.x * dims.y * dims.z < nThreads) dims.x *= 2; while (gridDims.x * gridDims.y * gridDims.z < nBlocks) gridDims.x *= 2;
    const u32 tTotal = dims.x * dims.y * dims.z, bTotal = gridDims.x * gridDims.y * gridDims.z; u32 chosen[8], last = 0;
    for (u32 b = 0; b < nBlocks; ++b) { u32 k = pickLinear(bTotal, last, b); for (bool again = true; again;) { again = false; for (u32 c = 0; c < b; ++c) if (chosen[c] == k) { k = (k + 1) % bTotal; again = true; } } chosen[b] = last = k; blockIdOf[b] = unfold(k, gridDims); }
    for (u32 b = 0; b < nBlocks; ++b) { u32 ids[10]; last = 0; for (u32 t = 0; t < nThreads; ++t) { u32 k = b && below(2) ? (threadIdOf[b - 1][t].z * dims.y + threadIdOf[b - 1][t].y) * dims.x + threadIdOf[b - 1][t].x : pickLinear(tTotal, last, t); for (bool again = true; again;) { again = false; for (u32 c = 0; c < t; ++c) if (ids[c] == k) { k = (k + 1) % tTotal; again = true; } } ids[t] = last = k; threadIdOf[b][t] = unfold(k, dims); if (tracing) tracef("thread %u of block %u: threadIdx %u,%u,%u blockIdx %u,%u,%u\n", t, b, threadIdOf[b][t].x, threadIdOf[b][t].y, threadIdOf[b][t].z, blockIdOf[b].x, blockIdOf[b].y, blockIdOf[b].z); } }
    ev("large grid", tTotal, bTotal, nBlocks * nThreads); stat("large_grids");
}
struct Solo { u64 steps, sharedSteps; };
size_t alone(void*, unsigned char* out, size_t) { schedSolo(body, nullptr, 0); Solo& s = *reinterpret_cast<Solo*>(out); s.steps = sched.steps; s.sharedSteps = sched.sharedSteps; return sizeof(Solo); }
u64 digest() { return operandDigest(shared); }
// Many grids of a single thread, one after the other.
void singles() {
    static Out got; const u32 rounds = range(2, 12); ev("single threads", rounds);
    for (u32 r = 0; r < rounds; ++r) {
        genRaw(raw); const u32 jobs = range(1, 8);
        for (u32 k = 0; k < jobs; ++k) {
            job.nSteps = below(3); job.nInPlace = below(9); if (!job.nSteps && !job.nInPlace) job.nSteps = 1;
            for (u32 i = 0; i < job.nSteps; ++i) { job.step[i].op = pickOp(opCount()); job.step[i].p = static_cast<u64>(word()) << 32 | word(); if (tracing) tracef("step: %s\n", opName(job.step[i].op)); }
            for (u32 i = 0; i < job.nInPlace; ++i) { job.inPlace[i] = below(InPlaceOps); if (tracing) tracef("in place: %u\n", job.inPlace[i]); }
            const u32 i = below(9); expected.n = got.n = 0; CAT(hostElement, BITS)(&raw, &job, i, &expected); CAT(plainElement, BITS)(&raw, &job, i, &got); event(hbytes(expected.v, expected.n * 4)); stat("single_elements"); ++shm->simTime;
            if (!(got == expected)) { u32 w = 0; while (w < expected.n && w < got.n && expected.v[w] == got.v[w]) ++w; violation("result-differs", "a kernel of one thread gives another result than the host (word %u of %u)", w, expected.n); } } }
}
void run() {
    if (below(3) == 2) return singles();
    genRaw(raw); buildOperands(shared, raw); job.nSteps = below(3); job.nInPlace = below(9); if (!job.nSteps && !job.nInPlace) job.nSteps = 1;
    for (u32 k = 0; k < job.nSteps; ++k) { job.step[k].op = chance(1, 6) ? 74 + below(2) : pickOp(opCount()); job.step[k].p = static_cast<u64>(word()) << 32 | word(); if (tracing) tracef("step: %s\n", opName(job.step[k].op)); }
    for (u32 k = 0; k < job.nInPlace; ++k) { job.inPlace[k] = below(InPlaceOps); if (tracing) tracef("in place: %u\n", job.inPlace[k]); }
    nBlocks = range(1, 5); nThreads = range(1, nBlocks == 1 ? 10 : 6); nElements = chance(1, 2) ? nBlocks * nThreads : 1 + below(MaxElements); if (nElements > MaxElements) nElements = MaxElements;
    for (u32 i = 0; i < nElements; ++i) { initElement(elements[i], i, shared); results[i].n = 0; }
    sparse = below(3) == 2; if (sparse) { while (nBlocks * nThreads > MaxElements) --nBlocks; nElements = nBlocks * nThreads; drawGrid(); for (u32 i = 0; i < nElements; ++i) { initElement(elements[i], i, shared); results[i].n = 0; } }
    ev("grid", nBlocks, nThreads, nElements); const u64 before = digest();
    u32 order[8]; for (u32 b = 0; b < nBlocks; ++b) order[b] = b; for (u32 b = nBlocks; b > 1; --b) { u32 k = b - 1 - below(b); u32 x = order[b - 1]; order[b - 1] = order[k]; order[k] = x; }
    waveThread[0] = 0; waveBlock[0] = 0; Solo s; size_t len; int status; sched.maxSteps = 50000000; sched.races = false; if (!isolated(alone, nullptr, reinterpret_cast<unsigned char*>(&s), sizeof s, len, status)) violation("crash", "a kernel thread alone died (status %d)", status);
    u64 switches = 0, inter = 0; sched.races = true;
    for (u32 done = 0; done < nBlocks;) {
        u32 fit = SchedMaxThreads / nThreads; if (!fit) fit = 1; u32 now = 1 + below(fit); if (now > nBlocks - done) now = nBlocks - done; const u32 n = now * nThreads;
        for (u32 b = 0; b < now; ++b) for (u32 t = 0; t < nThreads; ++t) { waveBlock[b * nThreads + t] = order[done + b]; waveThread[b * nThreads + t] = t; }
        const u32 mode = 1 + below(4); sched.maxSteps = s.steps * 100 * n + 2000000 + 60ull * BITS * BITS; ev("wave", done, now, mode); schedRun(n, body, nullptr, mode, s.steps * n, s.sharedSteps * n); done += now;
        switches += sched.switches; inter = mix(inter ^ sched.interleaving); stat(mode == ModeAny ? "schedule.any_access" : mode == ModeShared ? "schedule.shared_access" : mode == ModeLockstep ? "schedule.lockstep" : "schedule.priorities"); stat("waves"); shm->simTime += sched.steps; stat("accesses", sched.steps);
    }
    for (u32 i = 0; i < nElements; ++i) {
        expected.n = 0; CAT(hostElement, BITS)(&raw, &job, i, &expected); results[i].num(elements[i].u); results[i].num(elements[i].s); event(hbytes(expected.v, expected.n * 4));
        if (!(results[i] == expected)) { u32 k = 0; while (k < expected.n && k < results[i].n && expected.v[k] == results[i].v[k]) ++k; violation("result-differs", "element %u of %u differs from the host's (word %u of %u)", i, nElements, k, expected.n); } }
    if (digest() != before) violation("operand-changed", "a shared operand changed");
    stat("fault.preemption", switches); stat("elements", nElements); stat("gpu_threads", nBlocks * nThreads); if (nBlocks * nThreads > 1) { nontrivial(); u64 h = inter; for (u32 k = 0; k < job.nSteps; ++k) h = mix(h ^ job.step[k].op); for (u32 k = 0; k < job.nInPlace; ++k) h = mix(h ^ job.inPlace[k]); sig(h ^ BITS); }
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
#endif
