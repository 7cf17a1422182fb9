// C08: threads with their own objects and shared read-only operands, every interleaving decided by the seeded scheduler.
#include "ops.h"
#include "threads.h"
using namespace sim;
namespace {
constexpr u32 MaxThreads = 4, MaxOps = 3;
struct Program { u32 n; u32 op[MaxOps]; u64 p[MaxOps]; };
static Operands<BITS> shared; static Program prog[MaxThreads]; static Out result[MaxThreads][MaxOps], solo[MaxThreads][MaxOps];
void body(u32 t, void*) { for (u32 i = 0; i < prog[t].n; ++i) { Out o; runOp<BITS>(prog[t].op[i], shared, prog[t].p[i], o); copyOut(&result[t][i], &o, sizeof(Out)); } }
struct Solo { u64 steps, sharedSteps; Out out[MaxOps]; };
size_t alone(void* arg, unsigned char* out, size_t) { const u32 t = *static_cast<u32*>(arg); schedSolo(body, nullptr, t); Solo& s = *reinterpret_cast<Solo*>(out); s.steps = sched.steps; s.sharedSteps = sched.sharedSteps; memcpy(s.out, result[t], sizeof s.out); return sizeof(Solo); }
u64 digest() { return operandDigest(shared); }
void run() {
    genOperands(shared); const u32 n = range(2, MaxThreads); const u32 same = below(5) < 3 ? pickOp(opCount()) + 1 : 0; u64 steps = 0, sharedSteps = 0; static Solo s;
    for (u32 t = 0; t < n; ++t) { prog[t].n = range(1, MaxOps); for (u32 i = 0; i < prog[t].n; ++i) { prog[t].op[i] = same ? same - 1 : pickOp(opCount()); prog[t].p[i] = word(); ev("program", t, prog[t].op[i]); if (tracing) tracef("   thread %u: %s\n", t, opName(prog[t].op[i])); } }
    for (u32 t = 0; t < n; ++t) { size_t len; int status; sched.maxSteps = 50000000; if (!isolated(alone, &t, reinterpret_cast<unsigned char*>(&s), sizeof s, len, status)) violation("crash", "a thread alone died (status %d)", status); memcpy(solo[t], s.out, sizeof s.out); steps += s.steps; sharedSteps += s.sharedSteps; }
    const u32 mode = 1 + below(3); const u64 before = digest(); sched.races = true; sched.maxSteps = steps * 50 + 200000;
    schedRun(n, body, nullptr, mode, steps, sharedSteps);
    for (u32 t = 0; t < n; ++t) for (u32 i = 0; i < prog[t].n; ++i) { event(hbytes(result[t][i].v, result[t][i].n * 4)); if (!(result[t][i] == solo[t][i])) violation("result-differs", "\"%s\" in thread %u gave another result than alone", opName(prog[t].op[i]), t); }
    if (digest() != before) violation("operand-changed", "a shared operand changed");
    stat(mode == ModeAny ? "schedule.any_access" : mode == ModeShared ? "schedule.shared_access" : "schedule.priorities"); stat("fault.preemption", sched.switches); stat("threads", n); stat("accesses", sched.steps); stat("shared_accesses", sched.sharedSteps);
    shm->simTime += sched.steps; if (sched.switches >= n) nontrivial(); for (u32 t = 0; t < n; ++t) for (u32 i = 0; i < prog[t].n; ++i) sched.interleaving = mix(sched.interleaving ^ prog[t].op[i]); if (sched.switches >= n) sig(sched.interleaving ^ BITS);
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
