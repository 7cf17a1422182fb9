// C10: operations under a failing allocator.
#define OPS_GMP
#define OPS_LONG 6
#include "ops.h"
#include "alloc.h"
#include <exception>
using namespace sim;
namespace {
static const char* const modeName[] = {"fault.every_allocation_refused", "fault.nth_allocation_refused", "fault.all_from_nth_refused", "fault.seeded_allocations_refused"};
enum How { Done, OutOfMemory, Foreign };
How step(u32 op, const Operands<BITS>& w, u64 p, Out& o) { try { runOp<BITS>(op, w, p, o); return Done; } catch (const std::bad_alloc&) { return OutOfMemory; } catch (...) { return Foreign; } }
// Assignment into objects that exist: they keep their value if the construction fails.
// (both by a plain assignment and through a temporary, which an assignment operator may come to replace)
How assign(u32 kind, Aeu<BITS>& u, Aesi<BITS>& s, const mpz_class& z) { try { switch (kind) { case 0: u = z; break; case 1: s = z; break; case 2: u = Aeu<BITS>(z); break; default: s = Aesi<BITS>(z); } return Done; } catch (const std::bad_alloc&) { return OutOfMemory; } catch (...) { return Foreign; } }
u64 digest(const Operands<BITS>& w) { return operandDigest(w); }
void run() {
    allocInit();
    static Operands<BITS> w; genOperands(w);
    const u32 steps = range(1, 5); const u64 before = digest(w);
    for (u32 i = 0; i < steps; ++i) {
        const bool gmp = below(3) == 0; const bool asg = gmp && below(3) == 0; const u32 op = asg ? 200 : gmp ? OP_FIRST_GMP + below(OP_ALL - OP_FIRST_GMP) : pickOp(OP_FIRST_GMP); const u64 p = word();
        const char* name = asg ? "assignment from mpz" : opName(op); const u32 kind = below(4);
        allocs.mode = below(4); allocs.nth = below(4); allocs.mask = static_cast<u64>(word()) << 32 | word(); allocs.seen = allocs.refused = 0;
        evs("operation", name); ev("allocator", allocs.mode, allocs.nth);
        if (tracing) tracef("   %s under %s\n", name, modeName[allocs.mode]);
        static Out o, again; o.n = again.n = 0; Aeu<BITS> u = w.b; Aesi<BITS> s = w.sb; How how, how2;
        snprintf(shm->msg, sizeof shm->msg, "%s while %s (n=%lu)", name, modeName[allocs.mode] + 6, allocs.nth);
        allocs.live = 0; allocs.tracking = true; allocs.armed = true;
        how = asg ? assign(kind, u, s, w.z) : step(op, w, p, o);
        allocs.armed = false; const long live = allocs.live; allocs.tracking = false; const unsigned long seen = allocs.seen, refused = allocs.refused;
        ev("came back", how, seen, refused, live);
        if (how == Foreign) violation("foreign-exception", "%s let an exception other than bad_alloc out when an allocation failed", name);
        if (how == OutOfMemory && !gmp) violation("needs-memory", "%s needs memory from the heap: it threw bad_alloc", name);
        if (how == OutOfMemory && !refused) violation("spurious-bad-alloc", "%s threw bad_alloc though no allocation failed", name);
        if (asg && how == OutOfMemory) { Out x, y; x.num(u); x.num(s); y.num(w.b); y.num(w.sb); if (!(x == y)) violation("object-changed", "a number changed though its assignment from a GMP integer ran out of memory"); }
        if (live > 0) violation("leak", "%s left %ld blocks allocated", name, live);
        if (digest(w) != before) violation("operand-changed", "%s changed an operand", name);
        // with memory available again the same operation must give its result
        if (asg) { Aeu<BITS> u2 = w.b; Aesi<BITS> s2 = w.sb; how2 = assign(kind, u2, s2, w.z); if (how == Done) { o.num(u); o.num(s); } again.num(u2); again.num(s2);
            mpz_t m; mpz_init(m); mpz_abs(m, w.z.get_mpz_t()); mpz_fdiv_r_2exp(m, m, BITS); Num<BITS> want{}; size_t cnt = 0; mpz_export(want.b, &cnt, -1, 4, 0, 0, m); mpz_clear(m); want.neg = w.z < 0;
            if (kind & 1 ? !sameSigned(s2, want) : !sameBlocks(u2, want)) violation("retry-wrong", "assignment from a GMP integer with memory available gives another value"); }
        else how2 = step(op, w, p, again);
        if (how2 != Done) violation("retry-failed", "%s fails although memory is available again", name);
        if (how == Done && !(o == again)) violation("result-differs", "%s gave another result while allocations failed", name);
        stat(gmp ? "ops.gmp" : "ops.others"); if (refused) stat(modeName[allocs.mode], refused); if (how == OutOfMemory) { stat("outcome.bad_alloc"); stat("recovery.retry_succeeded"); }
        if (seen || !gmp) { nontrivial(); sig(mix(op * 4096 + BITS) ^ mix(allocs.mode * 8 + (allocs.mode == 1 || allocs.mode == 2 ? allocs.nth : 0)) ^ mix(how * 64 + refused % 16)); }
    }
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
