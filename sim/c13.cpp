// C13: processes that save their numbers, are killed, and restart from the last complete save,
// against the same computation in a process that is never stopped.
#define OPS_GMP
#include "ops.h"
#include "codec.h"
using namespace sim;
namespace {
constexpr u32 MaxSteps = 16, Vars = 10, Groups = 14, PairItems = 12, Derived = 2, Items = Vars * Groups + PairItems + Derived;
struct Step { u32 kind, x, y; u64 k; u32 derived[Derived]; u64 p[Derived]; u32 base; u32 pick; bool save; u32 codec[Vars], how[Vars]; };
struct Snapshot { u32 len; unsigned char data[24000]; };
struct Plan { Num<BITS> a, b, s, t, m, sa, sb, ss, full; u32 n; Step st[MaxSteps]; };
static Plan plan;
struct Life { u32 first, last; bool restore; u32 crashAt; u64 tear; Snapshot* from; };     // runs steps first..last-1; crashAt: dies in that step's save after `tear` bytes (or, if it saves nothing, after the step)
struct Report { u32 observed, lastSaveStep; u64 item[MaxSteps + 1][Items]; Snapshot save; u32 bad; };   // item[i]: observations before step i

using U = Aeu<BITS>; using S = Aesi<BITS>; using Op = Operands<BITS>; using UW = Aeu<Op::W>; using SW = Aesi<Op::W>;

// ---- what the processes compute ------------------------------------------------------------------
void shrink(S& v, u32 bits, const S& m) { if (v.bitCount() > bits) v %= m; }
void shrink(U& v, u32 bits) { if (v.bitCount() > bits) v >>= static_cast<u32>(v.bitCount()) - bits; }
void stepOn(Op& w, const Step& s) {
    const int32_t i32 = static_cast<int32_t>(s.k & 0x7fffffff) * (s.x & 1 ? -1 : 1); const int small = static_cast<int>(s.k % 5) - 2; const U one = 1u; const S mid("0x3fffffffdd"), big("0x7ffffffb123");
    switch (s.kind) {
        case 0: switch (s.x % 9) { case 0: w.a += w.b; break; case 1: w.a -= w.b; break; case 2: w.a *= w.b; break; case 3: w.a &= w.b; break; case 4: w.a |= w.b; break; case 5: w.a ^= w.b; break; case 6: if (!w.b.isZero()) w.a /= w.b; break; case 7: if (!w.b.isZero()) w.a %= w.b; break; default: w.a -= w.a; } break;
        case 1: switch (s.x % 8) { case 0: w.b += w.a; break; case 1: w.b -= w.s; break; case 2: w.b *= static_cast<u32>(s.k); break; case 3: w.b = ~w.b; break; case 4: w.b = -w.b; break; case 5: w.b += static_cast<uint64_t>(s.k); break; case 6: ++w.b; break; default: w.b--; } break;
        case 2: switch (s.x % 4) { case 0: w.a <<= s.y % BITS; break; case 1: w.a >>= s.y % BITS; break; case 2: w.a.setBit(s.y % BITS, s.k & 1); break; default: w.a.setBlock(s.y % (BITS / 32), static_cast<u32>(s.k)); } break;
        case 3: switch (s.x % 5) { case 0: w.s += w.t; break; case 1: w.s = U::gcd(w.s + one, w.t + one); break; case 2: w.s *= static_cast<u32>(s.k & 0xffff); break; case 3: if (!w.t.isZero()) w.s %= w.t; break; default: w.s = static_cast<u32>(s.k); } shrink(w.s, 40); break;
        case 4: switch (s.x % 4) { case 0: w.t -= w.s; break; case 1: w.t = w.t.squareRoot(); break; case 2: w.t *= w.s; break; default: w.t ^= w.m; } shrink(w.t, 60); break;
        case 5: shrink(w.sa, BITS - 3, big); switch (s.x % 8) { case 0: w.sa += w.sb; break; case 1: w.sa -= w.sb; break; case 2: w.sa = w.sb - w.sb; break; case 3: if (!w.sb.isZero()) w.sa /= w.sb; break; case 4: if (!w.sb.isZero()) w.sa %= w.sb; break; case 5: w.sa = w.sb * w.ss; break; case 6: w.sa.inverse(); break; default: w.sa = -w.sa; } shrink(w.sa, BITS - 3, big); break;
        case 6: switch (s.x % 12) { case 0: w.sb += w.ss; break; case 1: w.sb -= w.ss; break; case 2: w.sb *= w.ss; break; case 3: w.sb *= i32; break; case 4: if (!w.ss.isZero()) w.sb /= w.ss; break; case 5: w.sb = w.sb + -w.sb; break; case 6: w.sb *= 0; break; case 7: w.sb /= static_cast<int>(s.k & 0xffff) + 1; break; case 8: w.sb %= static_cast<int>(s.k & 7) + 1; break; case 9: w.sb = w.ss; break; case 10: { w.sb = w.ss; S q, r; if (!w.sa.isZero()) { S::divide(w.sb, w.sa, q, r); w.sb = s.k & 1 ? q : r; } break; } default: w.sb = w.sb * S(0); } shrink(w.sb, BITS / 2 - 1, mid); break;
        case 7: switch (s.x % 9) { case 0: ++w.ss; break; case 1: --w.ss; break; case 2: w.ss++; break; case 3: w.ss--; break; case 4: w.ss = small; break; case 5: w.ss += S(small); break; case 6: w.ss *= small; break; case 7: w.ss = w.ss.isNegative() ? -w.ss : w.ss.squareRoot(); break; default: w.ss -= w.ss; } shrink(w.ss, 40, mid); break;
        case 8: switch (s.x % 4) { case 0: w.w = w.a.template precisionCast<Op::W>(); break; case 1: w.w += w.s.template precisionCast<Op::W>(); break; case 2: w.w *= w.w; break; default: w.w -= w.w; } break;
        case 9: switch (s.x % 4) { case 0: w.sw = w.ss.template precisionCast<Op::W>(); break; case 1: w.sw = w.sw - w.sw; break; case 2: w.sw = -w.sw; break; default: w.sw = SW(small); } break;
        case 10: switch (s.x % 4) { case 0: w.a = w.sa.unsignedCast(); break; case 1: w.a.swap(w.b); break; case 2: { S x = w.sb; w.sb = w.ss; w.ss = x; shrink(w.ss, 40, mid); break; } default: w.ss = S(w.s); } break;
        case 12: switch (s.x % 8) {       // numbers that come from text, GMP, casts there and back, and bits set in a signed number (documented not to affect its sign)
            case 0: { static const char* const t[] = {"-0", "--7", "-0x0", "0", "-000", "---0x10", "-0b0", "0x-5", "-", "-1", "0xffffffff", "-0o17"}; const char* c = t[s.y % 12]; w.ss = S(std::string_view(c)); break; }
            case 1: { static const wchar_t* const t[] = {L"-0", L"--7", L"-0x0", L"-0o0", L"-5", L"---1"}; w.ss = S(std::wstring_view(t[s.y % 6])); break; }
            case 2: w.ss = S(mpz_class(small)) * w.ss; break;
            case 3: w.ss = w.sw.template precisionCast<BITS>(); shrink(w.ss, 40, mid); break;
            case 4: w.sb = w.sa.template precisionCast<BITS == 96 ? 64 : 96>().template precisionCast<BITS>(); shrink(w.sb, BITS / 2 - 1, mid); break;
            case 5: { S t = w.sb; t.setBit(s.y % (BITS / 2 - 1), s.k & 1); t.setByte(s.k % (BITS / 16 - 1), static_cast<uint8_t>(s.k >> 8)); if (!t.isZero() && !t.unsignedCast().isZero()) w.sb = t; break; }
            case 6: switch (s.y % 5) { case 0: w.ss = static_cast<int8_t>(s.k); break; case 1: w.ss = static_cast<int16_t>(s.k); break; case 2: w.ss = S(static_cast<uint8_t>(s.k % 3)); break; case 3: w.ss = S(false); break; default: w.ss = static_cast<int32_t>(s.k & 1 ? 0x80000000u : 0u); } shrink(w.ss, 40, mid); break;
            default: w.ss = s.y & 1 ? S(w.ss.unsignedCast()) : S::power2(s.k % 39); if (s.y & 2) w.ss = w.ss / S(-100000); break;
        } break;
        case 11: w.sa = makeAesi(plan.full); if (s.y & 1) w.sa.inverse(); break;
        default: switch (s.x % 3) { case 0: w.sa = w.ss - S(small); break; case 1: w.ss = w.sb - w.sb; w.sb = w.ss; break; default: w.sa = w.sb; w.sa -= w.sb; } break;
    }
}
// ---- what is observed ------------------------------------------------------------------------------
u64 digestOf(const Out& o) { return hbytes(o.v, o.n * sizeof o.v[0]) ^ mix(o.n); }
template <size_t N> void rawBlocks(Out& o, const Aeu<N>& v) { for (size_t i = 0; i < N / 32 + 2; ++i) o.put(v.getBlock(i)); }
template <size_t N> void rawBlocks(Out& o, const Aesi<N>& v) { for (size_t i = 0; i < N / 32 + 2; ++i) o.put(v.getBlock(i)); }
template <class T, size_t N> void observe(const T& v, u64* out, const Step& s, bool small) {
    constexpr bool sg = isSigned<T>; static Out o; u32 g = 0; auto next = [&] { out[g++] = digestOf(o); o.n = 0; }; o.n = 0;
    rawBlocks(o, v); next();                                                                                            // 0 value
    o.put(v.isZero()); if constexpr (sg) { o.put(v.isPositive()); o.put(v.isNegative()); } next();                       // 1 sign, zero test
    o.put(v.isOdd()); o.put(v.isEven()); next();                                                                         // 2 parity
    for (u32 i = 0; i < 8; ++i) { o.put(v.getBit((s.y + i * 37) % (N + 2))); o.put(v.getByte((s.y + i * 5) % (N / 8 + 2))); } next();   // 3 bits, bytes
    o.put64(v.bitCount()); o.put64(v.byteCount()); o.put64(v.filledBlocksNumber()); next();                              // 4 counts
    o.put64(v.template integralCast<uint64_t>()); o.put64(static_cast<u64>(v.template integralCast<int64_t>())); o.put(v.template integralCast<uint8_t>()); o.put(static_cast<u32>(v.template integralCast<int16_t>())); o.put(v.template integralCast<bool>()); next();  // 5 casts
    { auto n = v.template precisionCast<(N == 96 ? 160 : 96)>(); rawBlocks(o, n); o.put(n.isZero()); auto b = v.template precisionCast<N + 64>(); rawBlocks(o, b); o.put(b.isZero()); if constexpr (sg) { o.put(n.isNegative()); o.put(b.isNegative()); o.put(b.isPositive()); rawBlocks(o, v.unsignedCast()); } next(); }   // 6 precision casts
    o.put(v == 0); o.put(v == 1); o.put(v == -0); o.put(v != 0); o.put(v < 0); o.put(v <= 0); o.put(v > 0); o.put(v >= 0); o.put(static_cast<u32>(v.compareTo(0))); o.put(static_cast<u32>(v.compareTo(1))); o.put(static_cast<u32>(v.compareTo(7ull))); if constexpr (sg) { o.put(v == -1); o.put(v < -1); o.put(static_cast<u32>(v.compareTo(-1))); } next();   // 7 comparisons with integers
    { const T z(0); o.put(v == z); o.put(v < z); o.put(v > z); o.put(z < v); o.put(z == v); o.put(static_cast<u32>(v.compareTo(z))); o.put(static_cast<u32>(z.compareTo(v))); T c = v; o.put(c == v); o.put(c < v); next(); }          // 8 comparisons with zero
    { T x = v; ++x; rawBlocks(o, x); o.put(x.isZero()); x = v; --x; rawBlocks(o, x); o.put(x.isZero()); x = v; rawBlocks(o, -x); rawBlocks(o, +x); if constexpr (sg) { o.put((-x).isNegative()); x.inverse(); o.put(x.isZero()); o.put(x.isPositive()); } next(); }              // 9 steps and negation
    { static char t[N + 8]; size_t r = v.template getString<16>(t, sizeof t, s.base & 1); o.text(t, r); next(); }          // 10 hexadecimal text
    { static char t[N + 8]; size_t r = 0; if (N <= 256 || small) switch (s.base % 3) { case 0: r = v.template getString<10>(t, sizeof t); break; case 1: r = v.template getString<8>(t, sizeof t, true); break; default: r = v.template getString<2>(t, sizeof t); } o.text(t, r); next(); }   // 11 text in another notation
    { static Sink<char> k; k.n = 0; std::ostream os(&k); os << std::hex << std::showbase << v; if (N <= 256 || small) os << ' ' << std::dec << v; o.text(k.b, k.n); next(); }    // 12 inserted text
    { T x = v; x += T(1); x *= T(2); rawBlocks(o, x); if constexpr (sg) o.put(x.isNegative()); x = v; x -= v; rawBlocks(o, x); o.put(x.isZero()); if constexpr (sg) { o.put(x.isNegative()); o.put(x.isPositive()); } next(); }                      // 13 arithmetic
}
const char* const groupName[Groups] = {"value", "sign and zero test", "parity", "bits and bytes", "counts", "casts to integers", "casts to other precisions", "comparisons with integers", "comparisons with zero", "increment, decrement, negation", "hexadecimal text", "text", "inserted text", "arithmetic"};
const char* const varName[Vars] = {"unsigned a", "unsigned b", "unsigned s", "unsigned t", "unsigned m", "signed a", "signed b", "signed s", "unsigned w", "signed w"};
void observeAll(const Op& w, u64* it, const Step& s) {
    u32 i = 0; auto at = [&] { return it + Groups * i++; };
    observe<U, BITS>(w.a, at(), s, false); observe<U, BITS>(w.b, at(), s, false); observe<U, BITS>(w.s, at(), s, true); observe<U, BITS>(w.t, at(), s, true); observe<U, BITS>(w.m, at(), s, true);
    observe<S, BITS>(w.sa, at(), s, false); observe<S, BITS>(w.sb, at(), s, false); observe<S, BITS>(w.ss, at(), s, true); observe<UW, Op::W>(w.w, at(), s, false); observe<SW, Op::W>(w.sw, at(), s, true);
    u64* q = it + Vars * Groups; const U* us[3] = {&w.a, &w.b, &w.s}; const S* ss[3] = {&w.sa, &w.sb, &w.ss}; static Out o;
    auto cmp = [&](const auto& x, const auto& y) { o.n = 0; o.put(x == y); o.put(x != y); o.put(x < y); o.put(x <= y); o.put(x > y); o.put(x >= y); o.put(static_cast<u32>(x.compareTo(y))); o.put(static_cast<u32>(y.compareTo(x))); *q++ = digestOf(o); };
    for (u32 a = 0; a < 3; ++a) for (u32 b = a; b < 3; ++b) { cmp(*us[a], *us[b]); cmp(*ss[a], *ss[b]); }
    static Op c; c = w; if (c.a.isZero()) c.a = 3u; if (c.b.isZero()) c.b = 3u; if (c.s.isZero()) c.s = 12u; if (c.t.isZero()) c.t = 30u; if (c.sb.isZero()) c.sb = 5; if (c.ss.isZero()) c.ss = 7;
    c.g = c.a; c.h = c.b; c.sg = c.sb; if constexpr (BITS > 256) { for (size_t k = 7; k < BITS / 32; ++k) { c.g.setBlock(k, 0u); c.h.setBlock(k, 0u); c.sg.setBlock(k, 0u); } if (c.g.isZero()) c.g = 77u; if (c.h.isZero()) c.h = 9u; if (c.sg.unsignedCast().isZero()) c.sg = -11; }
    for (u32 d = 0; d < Derived; ++d) { o.n = 0; runOp<BITS>(s.derived[d], c, s.p[d], o); *q++ = digestOf(o); }
}
template <class F> void eachVar(Op& w, F&& f) { f(0, w.a, false); f(1, w.b, false); f(2, w.s, true); f(3, w.t, true); f(4, w.m, true); f(5, w.sa, false); f(6, w.sb, false); f(7, w.ss, true); f(8, w.w, false); f(9, w.sw, true); }
template <size_t N> constexpr size_t bitsOf(const Aeu<N>*) { return N; } template <size_t N> constexpr size_t bitsOf(const Aesi<N>*) { return N; }
void save(Op& w, const Step& s, Snapshot& to) {
    to.len = 0; eachVar(w, [&](u32 i, auto& v, bool cheap) { using T = std::remove_reference_t<decltype(v)>; constexpr size_t N = bitsOf(static_cast<T*>(nullptr)); bool carry = true; for (size_t k = 0; k < N / 32; ++k) if (v.getBlock(k) == 0xffffffffu) carry = false;
        to.len += encode<T, N>(v, effective(s.codec[i], cheap, carry, N), s.how[i], to.data + to.len); });
}
void restore(Op& w, const Step& s, const Snapshot& from) { u32 at = 0; eachVar(w, [&](u32 i, auto& v, bool) { using T = std::remove_reference_t<decltype(v)>; constexpr size_t N = bitsOf(static_cast<T*>(nullptr)); at += decode<T, N>(v, s.how[i] >> 1, from.data + at); }); }

// One process. Its whole output: what it observed, and its last complete save.
size_t life(void* arg, unsigned char* out, size_t) {
    const Life& l = *static_cast<Life*>(arg); Report& r = *reinterpret_cast<Report*>(out); static Op w; r.observed = 0; r.lastSaveStep = ~0u; r.bad = 0;
    if (l.restore) restore(w, plan.st[l.first - 1], *l.from);
    else { w.a = makeAeu(plan.a); w.b = makeAeu(plan.b); w.s = makeAeu(plan.s); w.t = makeAeu(plan.t); w.m = makeAeu(plan.m); w.sa = makeAesi(plan.sa); w.sb = makeAesi(plan.sb); w.ss = makeAesi(plan.ss); w.w = w.a.template precisionCast<Op::W>(); w.sw = w.ss.template precisionCast<Op::W>(); }
    w.z = 17; w.za = -5; w.textLen = 0; w.wtext[0] = 0;
    static Snapshot tmp;
    for (u32 i = l.first;; ++i) {
        const Step& s = plan.st[i < plan.n ? i : plan.n - 1]; w.k = s.k; w.sh = s.y % BITS; w.idx = (s.y * 7) % BITS;
        observeAll(w, r.item[i], s); ++r.observed;
        if (i == l.last) break;
        stepOn(w, s);
        if (s.save) { save(w, s, tmp); if (i == l.crashAt && l.tear < tmp.len) break; r.save = tmp; r.lastSaveStep = i; }
        if (i == l.crashAt) break;
    }
    return sizeof(Report);
}
void run() {
    Num<BITS> t; (void)t;
    plan.a = genNum<BITS>(); plan.b = genNum<BITS>(); if (chance(1, 4)) relate(plan.b, plan.a); plan.s = genNum<BITS>(40); plan.t = genNum<BITS>(60); plan.m = genNum<BITS>(32); plan.m.b[0] |= 1; if (plan.m.b[0] == 1) plan.m.b[0] = 7; plan.sa = genSigned<BITS>(BITS - 3); plan.full = genSigned<BITS>(); if (below(2)) plan.full.b[BITS / 32 - 1] |= 1u << range(28, 31); plan.sb = genSigned<BITS>(BITS / 2 - 1); plan.ss = genSigned<BITS>(40);
    plan.n = range(2, MaxSteps);
    for (u32 i = 0; i < plan.n; ++i) { Step& s = plan.st[i]; s.kind = below(14); s.x = word() >> 8; s.y = word() >> 8; s.k = below(3) == 0 ? below(9) : static_cast<u64>(word()) << 32 | word(); s.base = below(12); s.pick = 0;
        for (u32 d = 0; d < Derived; ++d) { s.derived[d] = pickOp(OP_FIRST_STREAM); s.p[d] = word(); }
        s.save = below(3) != 0; const u32 uni = below(Codecs + 6); for (u32 v = 0; v < Vars; ++v) { s.codec[v] = uni < Codecs ? uni : below(Codecs); s.how[v] = below(16); } }
    // the computation that is never stopped
    static Report whole, part; size_t len; int status; Life l{0, plan.n, false, ~0u, 0, nullptr};
    if (!isolated(life, &l, reinterpret_cast<unsigned char*>(&whole), sizeof whole, len, status)) violation("crash", "the process that is never stopped died (wait status %d)", status);
    stat("processes"); ev("uninterrupted", whole.observed);
    // the same computation, killed and restarted
    u32 first = 0; bool restored = false; static Snapshot snap; u32 crashes = range(1, 3), next = 0;
    for (u32 c = 0; c <= crashes; ++c) {
        Life p{first, plan.n, restored, ~0u, 0, &snap};
        if (c < crashes && first < plan.n) { p.crashAt = first + below(plan.n - first); p.tear = below(3) ? ~0ull : below(1500); }
        next = p.crashAt;
        if (!isolated(life, &p, reinterpret_cast<unsigned char*>(&part), sizeof part, len, status)) violation("crash", "a restarted process died (wait status %d)", status);
        stat("processes"); ev("life", first, restored, p.crashAt, p.tear, part.observed, part.lastSaveStep);
        if (tracing) { tracef("   process %u: steps %u.. %s%s\n", c, first, restored ? "restored from the last complete save" : "from the start", p.crashAt == ~0u ? ", to the end" : p.tear == ~0ull ? ", killed" : ", killed while saving"); }
        if (p.crashAt != ~0u) stat(plan.st[p.crashAt].save && p.tear != ~0ull ? "fault.killed_while_saving" : "fault.killed"); if (restored) { stat("recovery.restarts"); nontrivial(); for (u32 v = 0; v < Vars; ++v) { stat(codecName[plan.st[first - 1].codec[v]]); } }
        for (u32 i = first; i < first + part.observed; ++i) for (u32 k = 0; k < Items; ++k) if (part.item[i][k] != whole.item[i][k]) {
            const Step& s = plan.st[i < plan.n ? i : plan.n - 1];
            if (k < Vars * Groups) violation("restart-visible", "after a restart (%s), %s of %s before step %u differs from the process that was never stopped", restored ? codecName[plan.st[first - 1].codec[k / Groups]] : "none", groupName[k % Groups], varName[k / Groups], i);
            else if (k < Vars * Groups + PairItems) violation("restart-visible", "after a restart, the comparison of a pair of %s numbers before step %u differs from the process that was never stopped", k & 1 ? "signed" : "unsigned", i);
            else violation("restart-visible", "after a restart, \"%s\" before step %u differs from the process that was never stopped", opName(s.derived[k - Vars * Groups - PairItems]), i); }
        shm->simTime += part.observed; event(hbytes(part.item[first], sizeof part.item[0]));
        if (restored) for (u32 v = 0; v < Vars; ++v) sig(mix(BITS * 64 + plan.st[first - 1].codec[v]) ^ mix(plan.st[first].kind * 16 + v) ^ mix(plan.st[first - 1].how[v]));
        if (next == ~0u) break;
        if (part.lastSaveStep != ~0u) { first = part.lastSaveStep + 1; snap = part.save; restored = true; }   // else: restart from the save before, or from nothing
    }
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
