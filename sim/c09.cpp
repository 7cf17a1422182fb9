// C09: an operation interrupted at a seeded point (a memory access, or a call of its stream buffer) by other operations on the same thread.
#include "ops.h"
#include "threads.h"
using namespace sim;
namespace {
constexpr u32 MaxInner = 4;
struct Task { u32 op; u64 p; bool own; };       // own: on its own operands instead of the outer operation's
static Operands<BITS> operands[2]; static Task outer, inner[MaxInner]; static u32 nInner; static Out outerOut, innerOut[MaxInner], soloOuter, soloInner[MaxInner];
static bool ran[MaxInner]; static u32 deviceCalls, deviceAt[2], nDevice; static bool interrupting;
void interrupt(void*, u32 i) { if (i >= nInner || ran[i]) return; ran[i] = true; ev("interrupted", i, inner[i].op, static_cast<u64>(sched.sharedSteps)); Out o; runOp<BITS>(inner[i].op, operands[inner[i].own], inner[i].p, o); copyOut(&innerOut[i], &o, sizeof(Out)); ev("resumed", i); }
void device(void*) { ++deviceCalls; if (interrupting) for (u32 j = 0; j < nDevice; ++j) if (deviceAt[j] == deviceCalls) { u32 i = nInner - 1 - j; if (!ran[i]) { ev("stream buffer works", deviceCalls); interrupt(nullptr, i); } } }
void body(u32, void*) { Out o; deviceCalls = 0; Hook h; h.cb = device; runOp<BITS>(outer.op, operands[0], outer.p, o, h); copyOut(&outerOut, &o, sizeof(Out)); }
void bodyInner(u32, void* arg) { const u32 i = *static_cast<u32*>(arg); Out o; runOp<BITS>(inner[i].op, operands[inner[i].own], inner[i].p, o); copyOut(&innerOut[i], &o, sizeof(Out)); }
struct Solo { u64 steps, sharedSteps; u32 deviceCalls; Out out; };
size_t alone(void* arg, unsigned char* out, size_t) { const u32 i = *static_cast<u32*>(arg); Solo& s = *reinterpret_cast<Solo*>(out); if (i == ~0u) schedSolo(body, nullptr, 0); else schedSolo(bodyInner, arg, 0); s.steps = sched.steps; s.sharedSteps = sched.sharedSteps; s.deviceCalls = deviceCalls; memcpy(&s.out, i == ~0u ? &outerOut : &innerOut[i], sizeof(Out)); return sizeof(Solo); }
u64 operandHash() { u64 h = 0; for (auto& d : operands) h = mix(h ^ operandDigest(d)); return h; }
void run() {
    genOperands(operands[0]); genOperands(operands[1]); nInner = range(1, MaxInner); static Solo s; size_t len; int status; sched.maxSteps = 50000000; sched.races = false;
    outer.op = chance(1, 5) ? OP_FIRST_STREAM + below(OP_FIRST_GMP - OP_FIRST_STREAM) : pickOp(opCount()); outer.p = static_cast<u64>(word()) << 32 | word(); const u32 kin = below(3);
    for (u32 i = 0; i < nInner; ++i) { inner[i].op = kin ? outer.op : pickOp(opCount()); if (kin == 2 && below(2)) inner[i].op = pickOp(opCount()); inner[i].p = static_cast<u64>(word()) << 32 | word(); inner[i].own = !chance(1, 4); ran[i] = false; }
    if (tracing) { tracef("outer: %s\n", opName(outer.op)); for (u32 i = 0; i < nInner; ++i) tracef("inner %u: %s\n", i, opName(inner[i].op)); }
    u32 who = ~0u; if (!isolated(alone, &who, reinterpret_cast<unsigned char*>(&s), sizeof s, len, status)) violation("crash", "\"%s\" alone died (status %d)", opName(outer.op), status);
    memcpy(&soloOuter, &s.out, sizeof(Out)); const u64 steps = s.steps, sharedSteps = s.sharedSteps; const u32 calls = s.deviceCalls; u64 budget = steps;
    for (u32 i = 0; i < nInner; ++i) { if (!isolated(alone, &i, reinterpret_cast<unsigned char*>(&s), sizeof s, len, status)) violation("crash", "\"%s\" alone died (status %d)", opName(inner[i].op), status); memcpy(&soloInner[i], &s.out, sizeof(Out)); budget += s.steps; }
    const bool sharedOnly = chance(3, 5) && sharedSteps; nDevice = calls && chance(1, 2) ? range(1, nInner < 2 ? nInner : 2) : 0; for (u32 j = 0; j < nDevice; ++j) deviceAt[j] = 1 + below(calls);
    const u32 atPoints = nInner - nDevice; u64 k[MaxInner]; const u64 span = sharedOnly ? sharedSteps : steps;
    for (u32 i = 0; i < atPoints; ++i) k[i] = 1 + below(static_cast<u32>(span < 1u << 30 ? (span ? span : 1) : 1u << 30));
    for (u32 i = 1; i < atPoints; ++i) for (u32 j = i; j && k[j] < k[j - 1]; --j) { u64 x = k[j]; k[j] = k[j - 1]; k[j - 1] = x; }
    const u64 before = operandHash(); interrupting = true; sched.maxSteps = budget * 20 + 200000; schedNest(interrupt, nullptr, k, atPoints, sharedOnly); schedSolo(body, nullptr, 0); schedNest(nullptr, nullptr, nullptr, 0, false); interrupting = false;
    u32 done = 0; event(hbytes(outerOut.v, outerOut.n * 4)); if (!(outerOut == soloOuter)) violation("result-differs", "interrupted \"%s\" gave another result than on its own", opName(outer.op));
    for (u32 i = 0; i < nInner; ++i) if (ran[i]) { ++done; event(hbytes(innerOut[i].v, innerOut[i].n * 4)); if (!(innerOut[i] == soloInner[i])) violation("result-differs", "interrupting \"%s\" gave another result than on its own (it interrupted \"%s\")", opName(inner[i].op), opName(outer.op)); nontrivial(); sig(mix(mix(mix(BITS * 1000003ull + outer.op) ^ inner[i].op) ^ (i < atPoints ? k[i] * 2 + sharedOnly : 1ull << 40 | deviceAt[nInner - 1 - i]))); }
    if (operandHash() != before) violation("operand-changed", "an operand changed");
    stat("fault.interruption_at_access", sched.nested); u32 dev = 0; for (u32 i = atPoints; i < nInner; ++i) dev += ran[i]; stat("fault.reentrant_stream_buffer", dev); stat("accesses", sched.steps); stat("interrupting_operations", done); shm->simTime += sched.steps;
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
