// C25: the same operation in two processes that differ in everything but its operands.
#define OPS_PLACED
#define OPS_GMP
#include "ops.h"
#include <sys/mman.h>
#include <fenv.h>
#include <malloc.h>
#include <errno.h>
#include <locale.h>
#include <locale>
#include <new>
#if defined __SSE__
#include <xmmintrin.h>
#endif
using namespace sim;
namespace {
using U = Aeu<BITS>; using S = Aesi<BITS>; constexpr size_t W = Operands<BITS>::W;
constexpr size_t PAGE = 4096; enum Slot : u32 { A, B, Sm, T, M, G, H, SA, SB, SS, SG, Wd, SW, Text, WText, D1, D2, DS1, DS2, DText, Slots };
unsigned char* area() { static unsigned char* a = nullptr;
    if (!a) { a = static_cast<unsigned char*>(mmap(nullptr, (2 * Slots + 1) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (a == MAP_FAILED) harnessError("mmap"); }
    return a; }
unsigned char* page(u32 slot) { return area() + (2 * slot + 1) * PAGE; }
void protect(u32 from, u32 to, int how) { for (u32 i = from; i < to; ++i) if (mprotect(page(i), PAGE, how)) harnessError("mprotect"); }
// What a call may find around itself.
struct Environment { u32 stack, stackWord, place, offset, around, readOnly, rounding, flush, clocale, cpplocale, errnoV, heap, before; };
static const char* const envName[] = {"fault.stack_contents", "fault.operand_at_end_of_memory", "fault.operand_at_start_of_memory", "fault.odd_alignment", "fault.contents_around_operands", "fault.read_only_operands", "fault.rounding_mode", "fault.denormals_flushed", "fault.c_locale", "fault.cpp_locale", "fault.errno", "fault.heap_contents", "fault.operations_before"};
Environment genEnvironment() { Environment e{}; e.stack = below(6); e.stackWord = word(); e.place = below(3); e.offset = 4 * below(64); e.around = below(4) ? below(256) : 0; e.readOnly = below(2); e.rounding = below(4); e.flush = below(4) == 3; e.clocale = below(4) == 3; e.cpplocale = below(3) == 2; e.errnoV = below(3) == 2 ? 34 : 0; e.heap = below(256); e.before = below(4) == 3 ? range(1, 3) : 0; return e; }
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '1'; } std::string do_grouping() const override { return "\1"; } char do_decimal_point() const override { return '2'; } std::string do_truename() const override { return "0"; } };
struct WGrouping : std::numpunct<wchar_t> { wchar_t do_thousands_sep() const override { return L'1'; } std::string do_grouping() const override { return "\1"; } wchar_t do_decimal_point() const override { return L'2'; } };
__attribute__((noinline)) void paint(u32 how, u32 w) { volatile u32 room[24 * 1024]; for (u32 i = 0; i < 24 * 1024; ++i) room[i] = how == 1 ? 0xffffffffu : how == 2 ? 0xa5a5a5a5u : how == 3 ? w : how == 4 ? w * (i + 1) : how == 5 ? i + 1 : 0; }
static unsigned char copy[Slots][PAGE]; static size_t at[Slots], sizeOf[Slots];
template <class T> T* place(u32 slot, const Environment& e) { constexpr size_t n = sizeof(T); size_t o = e.place == 1 ? PAGE - n : e.place == 2 ? 0 : 1024 + e.offset / alignof(T) * alignof(T); at[slot] = o; sizeOf[slot] = n; return reinterpret_cast<T*>(page(slot) + o); }
template <class Char> Char* placeText(u32 slot, size_t len, const Environment& e) { size_t n = len * sizeof(Char), o = e.place == 1 ? PAGE - n : e.place == 2 ? 0 : 1024 + e.offset / sizeof(Char) * sizeof(Char); if (n > PAGE - 1300) harnessError("text"); at[slot] = o; sizeOf[slot] = n; return reinterpret_cast<Char*>(page(slot) + o); }
template <size_t N> const Aeu<N>& put(u32 slot, const Num<N>& v, const Environment& e) { Aeu<N>* p = place<Aeu<N>>(slot, e); new (p) Aeu<N>(makeAeu(v)); return *p; }
template <size_t N> const Aesi<N>& putS(u32 slot, const Num<N>& v, const Environment& e) { Aesi<N>* p = place<Aesi<N>>(slot, e); new (p) Aesi<N>(makeAesi(v)); return *p; }
constexpr u32 Own = 24;       // operations with destinations of the caller's
static const char* const ownName[Own] = {"divide into objects", "signed divide into objects", "gcd with coefficients into objects", "readBinary into an object", "copy assignment", "integer assignment", "signed integer assignment", "getString into a buffer", "wide getString into a buffer", "signed getString into a buffer", "+= in place", "-= in place", "*= in place", "<<= >>= in place", "/= %= in place", "++ -- in place", "setBit setByte setBlock in place", "swap", "signed += in place", "signed -= *= in place", "text assignment", "integer += -= *= in place", "signed ++ -- inverse in place", "&= |= ^= in place"};
// which destinations (x, y, v, z) an operation writes; it does not matter what they held before, and the others stay as they were
static const u32 ownWrites[Own] = {3, 12, 3, 1, 5, 3, 12, 0, 0, 0, 3, 3, 3, 3, 3, 3, 3, 15, 12, 12, 5, 3, 12, 3};
static char* textOut; static wchar_t* wtextOut; static size_t textRoom;
__attribute__((noinline)) void ownOp(u32 op, const Operands<BITS>& w, u64 p, U& x, U& y, S& v, S& z, Out& o) {
    const u32 i32 = static_cast<u32>(w.k) | 1u; const u64 i64 = w.k | 1u;
    switch (op) {
        case 0: U::divide(w.a, w.b, x, y); break; case 1: S::divide(w.sa, w.sb, v, z); break; case 2: o.num(U::gcd(w.s, w.t, x, y)); break;
        case 3: { Source<char> s; s.n = BITS / 8 - (p & 1 ? p >> 8 & 7 : 0); for (size_t i = 0; i < s.n; ++i) s.b[i] = static_cast<char>(w.a.getByte(i)); std::istream is(&s); x.readBinary(is, p & 2); o.put(static_cast<u32>(is.rdstate())); break; }
        case 4: x = w.a; v = w.sa; break; case 5: if (p & 1) x = i32; else x = i64; y = static_cast<uint8_t>(p); break; case 6: v = static_cast<int>(p >> 1) * (p & 1 ? -1 : 1); z = static_cast<int64_t>(w.k); break;
        case 7: { const size_t r = p & 1 ? w.a.template getString<16>(textOut, textRoom, p & 2) : w.s.template getString<10>(textOut, textRoom); o.text(textOut, r); break; }
        case 8: { const size_t r = p & 1 ? w.a.template getString<16, true>(wtextOut, textRoom / sizeof(wchar_t), p & 2) : w.s.template getString<8>(wtextOut, textRoom / sizeof(wchar_t), p & 2); o.text(wtextOut, r); break; }
        case 9: { const size_t r = p & 1 ? w.sa.template getString<16>(textOut, textRoom, p & 2) : w.ss.template getString<2>(textOut, textRoom, p & 2); o.text(textOut, r); break; }
        case 10: x = w.a; x += w.b; y = w.b; y += y; break; case 11: x = w.a; x -= w.b; y = w.b; y -= w.a; break; case 12: x = w.a; x *= w.b; y = w.s; y *= w.t; break;
        case 13: x = w.a; x <<= w.sh; y = w.b; y >>= w.idx; break; case 14: x = w.a; x /= w.b; y = w.a; y %= w.b; break; case 15: x = w.a; ++x; y = w.b; --y; o.num(x++); o.num(y--); break;
        case 16: x = w.a; y = w.b; x.setBit(w.idx, p & 1); x.setByte(w.sh / 8, static_cast<uint8_t>(p)); y.setBlock(w.idx / 32, static_cast<u32>(p)); y.setByte(w.idx / 8, static_cast<uint8_t>(p >> 8)); break;
        case 17: x = w.a; y = w.b; x.swap(y); v = w.sa; z = w.sb; v.swap(z); break; case 18: v = w.sa; v += w.sb; z = w.ss; z += static_cast<int>(i32 >> 1); break; case 19: v = w.sa; v -= w.sb; z = w.sb; z *= w.ss; break;
        case 20: x = U(w.text, w.textLen); v = S(w.wtext, w.textLen); break; case 21: x = w.a; x += i64; x *= i32; x -= i64; y = w.b; y *= i64; y += static_cast<uint16_t>(p); break;
        case 22: v = w.sa; ++v; z = w.sb; --z; z.inverse(); o.num(v--); break; default: x = w.a; x &= w.b; y = w.a; y |= w.s; y ^= w.b; break; }
}
void setEnvironment(const Environment& e) {
    static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; fesetround(modes[e.rounding]);
#if defined __SSE__
    _mm_setcsr((_mm_getcsr() & ~0x8040u) | (e.flush ? 0x8040u : 0u));
#endif
    setlocale(LC_ALL, e.clocale ? "C.UTF-8" : "C"); if (e.cpplocale) std::locale::global(std::locale(std::locale(std::locale::classic(), new Grouping), new WGrouping)); else std::locale::global(std::locale::classic());
    mallopt(M_PERTURB, static_cast<int>(e.heap)); errno = static_cast<int>(e.errnoV);
}
const char* nameOf(u32 op) { return op < OP_ALL ? opName(op) : ownName[op - OP_ALL]; }
__attribute__((noinline)) void call(u32 op, const Operands<BITS>& w, u64 p, U& x, U& y, S& v, S& z, Out& o) { if (op < OP_ALL) runOp<BITS>(op, w, p, o); else ownOp(op - OP_ALL, w, p, x, y, v, z, o); }
struct Before { u32 op; u64 p; };
void inEnvironment(const RawOperands<BITS>& r, const mpz_class& z, const mpz_class& za, const Environment& e, u32 op, u64 p, const Num<BITS>* garbage, const Before* before, const RawOperands<BITS>* others, size_t room, Out& o) {
    const bool dest = op >= OP_ALL;
    protect(0, Slots, PROT_READ | PROT_WRITE); for (u32 i = 0; i < Slots; ++i) memset(page(i), static_cast<int>(e.around), PAGE);
    const auto lay = [&](const RawOperands<BITS>& r) {
    char* const text = placeText<char>(Text, r.textLen, e); wchar_t* const wtext = placeText<wchar_t>(WText, r.textLen, e); for (u32 i = 0; i < r.textLen; ++i) { text[i] = r.text[i]; wtext[i] = static_cast<wchar_t>(r.text[i]); }
    return Operands<BITS>{put(A, r.a, e), put(B, r.b, e), put(Sm, r.s, e), put(T, r.t, e), put(M, r.m, e), put(G, r.g, e), put(H, r.h, e), putS(SA, r.sa, e), putS(SB, r.sb, e), putS(SS, r.ss, e), putS(SG, r.sg, e), put(Wd, r.w, e), putS(SW, r.sw, e), r.k, r.sh, r.idx, text, wtext, r.textLen, z, za};
    };
    static Out other;   // operations before, on other numbers at the same addresses
    if (others) { const Operands<BITS> w = lay(*others); for (u32 i = 0; i < e.before; ++i) { other.n = 0; runOp<BITS>(before[i].op, w, before[i].p, other); } }
    const Operands<BITS> w = lay(r);
    U* const x = place<U>(D1, e); U* const y = place<U>(D2, e); S* const v = place<S>(DS1, e); S* const q = place<S>(DS2, e); new (x) U(makeAeu(garbage[0])); new (y) U(makeAeu(garbage[1])); new (v) S(makeAesi(garbage[2])); new (q) S(makeAesi(garbage[3]));
    textRoom = room * 4; textOut = placeText<char>(DText, textRoom, e); wtextOut = reinterpret_cast<wchar_t*>(textOut);
    for (u32 i = 0; i < Slots; ++i) memcpy(copy[i], page(i), PAGE);
    protect(0, D1, e.readOnly ? PROT_READ : PROT_READ | PROT_WRITE); if (!dest && e.readOnly) protect(D1, Slots, PROT_NONE);
    setEnvironment(e); if (!others) for (u32 i = 0; i < e.before; ++i) { other.n = 0; runOp<BITS>(before[i].op, w, before[i].p, other); }
    o.n = 0; paint(e.stack, e.stackWord); call(op, w, p, *x, *y, *v, *q, o);
    Environment plain{}; setEnvironment(plain); protect(0, Slots, PROT_READ | PROT_WRITE);
    const u32 writes = dest ? ownWrites[op - OP_ALL] : 0; if (writes & 1) o.num(*x); if (writes & 2) o.num(*y); if (writes & 4) o.num(*v); if (writes & 8) o.num(*q);
    for (u32 i = 0; i < Slots; ++i) { const bool own = i == DText ? dest : i >= D1 && writes >> (i - D1) & 1; for (size_t k = 0; k < PAGE; ++k) if (page(i)[k] != copy[i][k] && !(own && k >= at[i] && k < at[i] + sizeOf[i])) violation(k >= at[i] && k < at[i] + sizeOf[i] ? "operand-changed" : "memory-changed", "%s changed the byte %ld after the start of an object of %zu bytes", nameOf(op), static_cast<long>(k) - static_cast<long>(at[i]), sizeOf[i]); }
}
// The same numbers but for a part of them.
void alter(Num<BITS>& n) { if (below(3) == 2) return; const u32 keep = below(3); for (u32 i = 0; i < BITS / 32; ++i) if (keep == 0 ? i : keep == 1 ? i + 1 < BITS / 32 : below(2)) n.b[i] = n.b[i] && below(4) == 3 ? n.b[i] ^ 1u << below(31) : n.b[i] ? word() >> (below(2) ? 1 : below(31)) | 1u : 0; }
void nearby(RawOperands<BITS>& r) { Num<BITS>* const all[] = {&r.a, &r.b, &r.s, &r.t, &r.m, &r.g, &r.h, &r.sa, &r.sb, &r.ss, &r.sg}; for (Num<BITS>* n : all) { const u32 low = n->b[0]; alter(*n); if (n == &r.m) { n->b[0] |= 1u; if (n->b[0] == 1) n->b[0] = 7; } else if (n->zero()) n->b[0] = low ? low : 1; } r.sa.b[BITS / 32 - 1] &= 0x7fffffffu; r.sb.b[BITS / 32 - 1] &= 0x7fffffffu; r.ss.b[BITS / 32 - 1] &= 0x7fffffffu; r.sg.b[BITS / 32 - 1] &= 0x7fffffffu; if (r.textLen) r.text[below(r.textLen)] = static_cast<char>('0' + below(10)); if (below(2)) r.k ^= 1ull << below(64); }
void run() {
    static RawOperands<BITS> r; genRaw(r);
    switch (below(16)) { case 9: r.b = r.a; break; case 10: r.sb = r.sa; r.sb.neg = below(2); if (r.sb.zero()) { r.sb.b[0] = 5; } break; case 11: r.t = r.s; r.h = r.g; break; case 12: r.a = Num<BITS>{}; r.sa = Num<BITS>{}; break; case 13: r.sg = r.sa; r.ss.neg = !r.ss.neg; if (below(2)) { r.sa = r.ss; r.sa.neg = below(2); } break; case 14: r.s = r.b; r.b = Num<BITS>{}; r.b.b[0] = 1; break; default: break; }
    mpz_t zz; mpz_init(zz); (below(3) == 0 ? r.a : r.sa).toMpz(zz); const mpz_class za(zz); genSigned<BITS>().toMpz(zz); const mpz_class z(zz); mpz_clear(zz);
    const u32 steps = range(1, 4); static Out plainOut, o;
    for (u32 i = 0; i < steps; ++i) {
        const u32 op = below(4) == 3 ? OP_ALL + below(Own) : pickOp(OP_ALL); const u64 p = static_cast<u64>(word()) << 32 | word(); Environment plain{}; const Num<BITS> zero[4] = {}; const size_t room = range(1, 200);
        if (tracing) tracef("   %s\n", nameOf(op)); snprintf(shm->msg, sizeof shm->msg, "%s in a plain process", nameOf(op));
        inEnvironment(r, z, za, plain, op, p, zero, nullptr, nullptr, room, plainOut); evs("operation", nameOf(op)); event(hbytes(plainOut.v, plainOut.n * 4));
        const u32 others = range(1, 2);
        for (u32 k = 0; k < others; ++k) {
            const Environment e = genEnvironment(); Num<BITS> garbage[4] = {genNum<BITS>(), genNum<BITS>(), genSigned<BITS>(), genSigned<BITS>()}; Before before[3]; for (u32 j = 0; j < e.before; ++j) before[j] = {op < OP_ALL && below(2) ? op : pickOp(OP_ALL), below(2) ? p : word()};
            static RawOperands<BITS> near; const bool elsewhere = e.before && below(3); if (elsewhere) { near = r; nearby(near); }
            const u32 on[] = {e.stack, e.place == 1, e.place == 2, e.place == 0 && e.offset & 4, e.around, e.readOnly, e.rounding, e.flush, e.clocale, e.cpplocale, e.errnoV, e.heap, e.before}; u64 set = 0;
            for (u32 j = 0; j < 13; ++j) if (on[j]) { stat(envName[j]); set |= 1ull << j; if (tracing) tracef("     %s %u\n", envName[j] + 6, on[j]); }
            snprintf(shm->msg, sizeof shm->msg, "%s, where in a plain process it did not die", nameOf(op));
            inEnvironment(r, z, za, e, op, p, garbage, before, elsewhere ? &near : nullptr, room, o); event(hbytes(o.v, o.n * 4));
            if (!(o == plainOut)) violation("result-differs", "%s gives another result in another environment", nameOf(op));
            stat(op >= OP_ALL ? "ops.into_destinations" : "ops.others"); if (set) { nontrivial(); sig(mix(op * 8192 + BITS) ^ mix(set)); }
        }
    }
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
