// C24: replicas apply one ordered log of commands to numbers they hold, over a faulty network, crashing and restoring serialised snapshots
// (their own, or another replica's); state and answers after every command are those of a small reference model on GMP integers.
#include "codec.h"
#include <vector>
#include <map>
#include <algorithm>
using namespace sim;
namespace {
constexpr size_t WIDE = BITS <= 256 ? BITS * 2 : BITS + 96, NARROW = BITS == 64 ? 96 : BITS <= 128 ? 64 : BITS <= 192 ? 96 : BITS / 64 * 32, EXP = BITS <= 128 ? 160 : 96;   // 96 is wider than 64: there is nothing narrower
using U = Aeu<BITS>; using S = Aesi<BITS>; using UW = Aeu<WIDE>; using UN = Aeu<NARROW>; using SW = Aesi<WIDE>; using SN = Aesi<NARROW>;
struct Z { mpz_t v; Z() { mpz_init(v); } Z(const Z& o) { mpz_init_set(v, o.v); } Z& operator=(const Z& o) { mpz_set(v, o.v); return *this; } ~Z() { mpz_clear(v); } operator mpz_ptr() { return v; } operator mpz_srcptr() const { return v; }
    bool zero() const { return mpz_sgn(v) == 0; } size_t bits() const { return zero() ? 0 : mpz_sizeinbase(v, 2); } };
template <size_t N = BITS> Num<N> num(mpz_srcptr z) { Num<N> v{}; size_t n = 0; Z t; mpz_abs(t, z); if (mpz_sizeinbase(t, 2) > N) harnessError("number too long"); mpz_export(v.b, &n, -1, 4, 0, 0, t); v.neg = mpz_sgn(z) < 0; return v; }
template <size_t N> Z toZ(const Num<N>& v) { Z z; v.toMpz(z); return z; }
std::string textZ(mpz_srcptr z, int base = 16) { char* t = mpz_get_str(nullptr, base, z); std::string r = t; free(t); return r; }

enum Op : u32 { UCopy, UAdd, USub, UMul, UDiv, UMod, UAnd, UOr, UXor, UNot, UNeg, UInc, UDec, UShl, UShr, UBit, UByte, UBlock, USwap, USqrt, UGcd, UBezout, ULcm, UPowm, UIntAdd, UIntSub, UIntRsub, UIntMul, UIntDiv, UIntRdiv, UIntMod, UIntRmod, UIntAnd, UIntOr, UIntXor, UInt, UText, UCast, UFromS, UPower2, USelf,
    QU, QUInt, QUOther, QUCounts, QUParts, QUIntegral, QUText, UOps,
    SCopy = UOps, SAdd, SSub, SMul, SDiv, SMod, SNeg, SInverse, SInc, SDec, SBit, SByte, SBlock, SSwap, SSqrt, SIntAdd, SIntSub, SIntRsub, SIntMul, SIntDiv, SIntRdiv, SIntMod, SIntRmod, SInt, SText, SCast, SFromU, SPower2, SSelf,
    QS, QSInt, QSOther, QSCounts, QSParts, QSIntegral, QSText, Ops };
const char* const opName[Ops] = {"u copy", "u + u", "u - u", "u * u", "u / u", "u % u", "u & u", "u | u", "u ^ u", "~u", "-u", "++u", "--u", "u << k", "u >> k", "u set bit", "u set byte", "u set block", "u swap", "u square root", "gcd", "gcd with coefficients", "lcm", "powm", "u + int", "u - int", "int - u", "u * int", "u / int", "int / u", "u % int", "int % u", "u & int", "u | int", "u ^ int", "u from int", "u from text", "u precision cast", "u from s", "u power2", "u with itself",
    "compare u u", "compare u int", "compare u other precision", "u counts", "u parts", "u integral cast", "u text",
    "s copy", "s + s", "s - s", "s * s", "s / s", "s % s", "-s", "s inverse", "++s", "--s", "s set bit", "s set byte", "s set block", "s swap", "s square root", "s + int", "s - int", "int - s", "s * int", "s / int", "int / s", "s % int", "int % s", "s from int", "s from text", "s precision cast", "s from u", "s power2", "s with itself",
    "compare s s", "compare s int", "compare s other precision", "s counts", "s parts", "s integral cast", "s text"};
constexpr u32 NU = 4, NS = 3, LIT = 9;
struct Model { Z u[NU], s[NS]; };
struct Cmd { u32 op = 0, d = 0, s = 0, t = 0, k = 0, type = 0, base = 16; u64 raw = 0; Z lit, lit2, e, m; std::string text; std::vector<u64> want; bool known = false; Num<WIDE> other{}; };
struct Packed { std::vector<unsigned char> bytes; u32 how = 0; };
static u32 codecPlan;
template <class T> Packed pack(const T& v) {
    bool carry = true, cheap = true; for (size_t k = 0; k < BITS / 32; ++k) { if (v.getBlock(k) == 0xffffffffu) carry = false; if (k > 7 && v.getBlock(k)) cheap = false; }
    const u32 c = effective(codecPlan < Codecs ? codecPlan : below(Codecs), cheap, carry, BITS); Packed p; p.how = below(16); static unsigned char buf[9 * BITS]; const u32 n = encode<T, BITS>(v, c, p.how, buf); p.bytes.assign(buf, buf + n); stat(codecName[c]); return p; }
template <class T> T unpack(const Packed& p) { T v = 99u; decode<T, BITS>(v, p.how >> 1, p.bytes.data()); return v; }

void intZ(mpz_ptr z, u32 type, u64 raw) { switch (type) { case 0: mpz_set_ui(z, static_cast<uint8_t>(raw)); break; case 1: mpz_set_ui(z, static_cast<uint16_t>(raw)); break; case 2: mpz_set_ui(z, static_cast<uint32_t>(raw)); break; case 3: mpz_set_ui(z, raw); break;
    case 4: mpz_set_si(z, static_cast<int8_t>(raw)); break; case 5: mpz_set_si(z, static_cast<int16_t>(raw)); break; case 6: mpz_set_si(z, static_cast<int32_t>(raw)); break; default: mpz_set_si(z, static_cast<int64_t>(raw)); } }
template <class F> void withUnsigned(u32 type, u64 raw, F&& f) { switch (type & 3) { case 0: f(static_cast<uint8_t>(raw)); break; case 1: f(static_cast<uint16_t>(raw)); break; case 2: f(static_cast<uint32_t>(raw)); break; default: f(static_cast<uint64_t>(raw)); } }
template <class F> void withInt(u32 type, u64 raw, F&& f) { switch (type) { case 4: f(static_cast<int8_t>(raw)); break; case 5: f(static_cast<int16_t>(raw)); break; case 6: f(static_cast<int32_t>(raw)); break; case 7: f(static_cast<int64_t>(raw)); break; default: withUnsigned(type, raw, f); } }
u32 edgeWord() { switch (below(6)) { case 0: return 0; case 1: return ~0u; case 2: return below(4); case 3: return 1u << below(32); case 4: return ~0u - below(3); default: return word(); } }
u64 genRaw(u32 type) {
    const u64 lo = word(), hi = word(); u64 r;
    switch (below(10)) { case 0: r = below(9); break; case 1: r = lo; break; case 2: r = hi << 32; break; case 3: r = hi << 32 | 0xffffffffu; break; case 4: r = 0xffffffff00000000ull | lo; break; case 5: r = 1ull << below(64); break; case 6: r = (1ull << below(64)) - 1; break; case 7: r = ~0ull - below(3); break; case 8: r = 1ull << (type == 4 ? 7 : type == 5 ? 15 : type == 6 ? 31 : 63); break; default: r = hi << 32 | lo; }
    return r; }
u64 lowBits(mpz_srcptr z) { Z t; mpz_abs(t, z); mpz_fdiv_r_2exp(t, t, 64); return mpz_get_ui(t); }

// ---- the model: applies a command to integers and fills in what it must answer; false if the command has no defined meaning here --------
bool wrapU(Z& r) { mpz_fdiv_r_2exp(r, r, BITS); return true; }
bool fitsS(const Z& r) { return r.bits() <= BITS; }
u64 order3(int c) { return c < 0 ? 0 : c == 0 ? 1 : 2; }
bool model(Model& M, Cmd& c) {
    const bool sg = c.op >= UOps; Z* reg = sg ? M.s : M.u; Z a = reg[c.s], b = c.t == LIT ? c.lit : reg[c.t], r, i; intZ(i, c.type, c.raw); c.want.clear();
    switch (c.op) {
        case UCopy: case SCopy: r = b; break;
        case UAdd: mpz_add(r, a, b); wrapU(r); break; case USub: mpz_sub(r, a, b); wrapU(r); break; case UMul: mpz_mul(r, a, b); wrapU(r); break;
        case UDiv: if (b.zero()) return false; mpz_fdiv_q(r, a, b); break; case UMod: if (b.zero()) return false; mpz_fdiv_r(r, a, b); break;
        case UAnd: mpz_and(r, a, b); break; case UOr: mpz_ior(r, a, b); break; case UXor: mpz_xor(r, a, b); break;
        case UNot: mpz_com(r, b); wrapU(r); break; case UNeg: mpz_neg(r, b); wrapU(r); break;
        case UInc: mpz_add_ui(r, reg[c.d], 1); wrapU(r); break; case UDec: mpz_sub_ui(r, reg[c.d], 1); wrapU(r); break;
        case UShl: if (c.k >= BITS) return false; mpz_mul_2exp(r, a, c.k); wrapU(r); break; case UShr: if (c.k >= BITS) return false; mpz_fdiv_q_2exp(r, a, c.k); break;
        case UBit: case SBit: r = reg[c.d]; { Z t; mpz_abs(t, r); if (c.k < BITS) { if (c.raw & 1) mpz_setbit(t, c.k); else mpz_clrbit(t, c.k); } if (sg && (r.zero() || t.zero())) return false; if (mpz_sgn(r.v) < 0) mpz_neg(t, t); r = t; } break;
        case UByte: case SByte: case UBlock: case SBlock: { const u32 w = c.op == UByte || c.op == SByte ? 8 : 32; r = reg[c.d]; Z t; mpz_abs(t, r); if (c.k < BITS / w) for (u32 k = 0; k < w; ++k) { if (c.raw >> k & 1) mpz_setbit(t, c.k * w + k); else mpz_clrbit(t, c.k * w + k); } if (sg && (r.zero() || t.zero())) return false; if (mpz_sgn(r.v) < 0) mpz_neg(t, t); r = t; break; }
        case USwap: case SSwap: { const Z t = reg[c.d]; reg[c.d] = reg[c.s]; reg[c.s] = t; return true; }
        case USqrt: mpz_sqrt(r, b); break; case SSqrt: if (mpz_sgn(b.v) > 0) mpz_sqrt(r, b); break;
        case UGcd: case UBezout: case ULcm: if (a.zero() || b.zero() || a.bits() > 200 || b.bits() > 200) return false; if (c.op == ULcm) { mpz_lcm(r, a, b); if (r.bits() > BITS) return false; } else { if (c.op == UBezout && (a.bits() > BITS - 2 || b.bits() > BITS - 2)) return false; mpz_gcd(r, a, b); } break;
        case UPowm: if (mpz_cmp_ui(c.m.v, 1) <= 0) return false; mpz_powm(r, a, c.e, c.m); break;
        case UIntAdd: mpz_add(r, a, i); wrapU(r); break; case UIntSub: mpz_sub(r, a, i); wrapU(r); break; case UIntMul: mpz_mul(r, a, i); wrapU(r); break;
        case UIntRsub: case UIntRdiv: case UIntRmod: case SIntRsub: case SIntRdiv: case SIntRmod: if (i.bits() > BITS) return false; if (c.op == UIntRsub || c.op == SIntRsub) { mpz_sub(r, i, a); if (sg) { if (!fitsS(r)) return false; } else wrapU(r); } else { if (a.zero()) return false; if (c.op == UIntRdiv || c.op == SIntRdiv) mpz_tdiv_q(r, i, a); else mpz_tdiv_r(r, i, a); } break;
        case UIntDiv: case SIntDiv: if (i.zero()) return false; mpz_tdiv_q(r, a, i); break; case UIntMod: case SIntMod: if (i.zero()) return false; mpz_tdiv_r(r, a, i); break;
        case UIntAnd: mpz_and(r, a, i); break; case UIntOr: mpz_ior(r, a, i); wrapU(r); break; case UIntXor: mpz_xor(r, a, i); wrapU(r); break;
        case UInt: case SInt: r = i; break;
        case UText: case SText: r = c.lit; break;
        case UCast: case SCast: { r = b; if (c.k && NARROW < BITS) { mpz_abs(r, r); mpz_fdiv_r_2exp(r, r, NARROW); if (mpz_sgn(b.v) < 0) mpz_neg(r, r); } break; }
        case UFromS: mpz_abs(r, M.s[c.s % NS]); break; case SFromU: r = M.u[c.s]; break;
        case UPower2: case SPower2: if (c.k < BITS) mpz_setbit(r, c.k); break;
        case USelf: case SSelf: r = reg[c.d]; switch (c.k % 6) { case 0: mpz_add(r, r, r); break; case 1: mpz_sub(r, r, r); break; case 2: mpz_mul(r, r, r); break; case 3: if (r.zero()) return false; mpz_set_ui(r, 1); break; case 4: if (r.zero()) return false; mpz_set_ui(r, 0); break; default: if (sg) return false; if (c.k % 12 == 5) mpz_set_ui(r, 0); } if (sg) { if (!fitsS(r)) return false; } else wrapU(r); break;
        case SAdd: mpz_add(r, a, b); break; case SSub: mpz_sub(r, a, b); break; case SMul: mpz_mul(r, a, b); break; case SDiv: if (b.zero()) return false; mpz_tdiv_q(r, a, b); break; case SMod: if (b.zero()) return false; mpz_tdiv_r(r, a, b); break;
        case SNeg: mpz_neg(r, b); break; case SInverse: mpz_neg(r, reg[c.d]); break; case SInc: mpz_add_ui(r, reg[c.d], 1); break; case SDec: mpz_sub_ui(r, reg[c.d], 1); break;
        case SIntAdd: mpz_add(r, a, i); break; case SIntSub: mpz_sub(r, a, i); break; case SIntMul: mpz_mul(r, a, i); break;
        case QU: case QS: c.want.push_back(order3(mpz_cmp(a, b))); return true;
        case QUInt: case QSInt: c.want.push_back(order3(mpz_cmp(b, i))); return true;
        case QUOther: case QSOther: c.want.push_back(order3(mpz_cmp(a, toZ(c.other)))); return true;
        case QUCounts: case QSCounts: c.want = {a.bits(), (a.bits() + 7) / 8, (a.bits() + 31) / 32, mpz_odd_p(a.v) ? 1ull : 0ull, a.zero() ? 1ull : 0ull, order3(mpz_sgn(a.v))}; c.known = a.bits() > 0; return true;
        case QUParts: case QSParts: { Z t; mpz_abs(t, a); c.want.push_back(c.k < BITS ? static_cast<u64>(mpz_tstbit(t, c.k)) : 0); mpz_fdiv_q_2exp(r, t, c.k * 8ull < BITS ? c.k * 8 : BITS); c.want.push_back(mpz_get_ui(r) & 255); mpz_fdiv_q_2exp(r, t, c.k * 32ull < BITS ? c.k * 32 : BITS); c.want.push_back(mpz_get_ui(r) & 0xffffffffu); return true; }
        case QUIntegral: case QSIntegral: { const u64 m = lowBits(a), v = mpz_sgn(a.v) < 0 ? 0ull - m : m; c.want = {m, v}; return true; }
        case QUText: case QSText: c.text = textZ(a, static_cast<int>(c.base)); return true;
        default: return false; }
    if (sg && !fitsS(r)) return false; if (!sg && (mpz_sgn(r.v) < 0 || r.bits() > BITS)) return false;
    reg[c.d] = r; return true;
}
// ---- a replica -------------------------------------------------------------------------------------------
struct Registers { U u[NU]; S s[NS]; };
template <class T> T fromText(const std::string& t, u32 style) {
    switch (style % 6) { case 0: return T(t); case 1: return T(std::string_view(t)); case 2: return T(t.data(), t.size()); case 3: { std::wstring w(t.begin(), t.end()); return T(w); } case 4: { std::wstring w(t.begin(), t.end()); return T(w.data(), w.size()); } default: { std::wstring w(t.begin(), t.end()); return T(std::wstring_view(w)); } } }
template <class A, class B> u64 compareAll(const A& a, const B& b, u32 style) {
    if (style == 0) switch (a.compareTo(b)) { case Comparison::less: return 0; case Comparison::equal: return 1; case Comparison::greater: return 2; default: return 9; }
    const bool lt = a < b, gt = a > b, eq = a == b; if (lt + gt + eq != 1 || (a != b) == eq || (a <= b) == gt || (a >= b) == lt) return 8; return lt ? 0 : eq ? 1 : 2;
}
template <class T> std::string toText(const T& v, u32 base, u32 style) {
    static char buf[BITS + 80]; static wchar_t wb[BITS + 80]; size_t n = 0; const bool wide = style & 1, up = base == 16 && style & 2;
    if (style & 4 && base != 2) { if (wide) { Mem<wchar_t> m(wb, BITS + 80); std::wostream os(&m); if (base == 8) os << std::oct; if (base == 16) os << std::hex; if (up) os << std::uppercase; os << v; n = m.n; } else { Mem<char> m(buf, BITS + 80); std::ostream os(&m); if (base == 8) os << std::oct; if (base == 16) os << std::hex; if (up) os << std::uppercase; os << v; n = m.n; } }
    else if (wide) n = base == 2 ? v.template getString<2>(wb, BITS + 80) : base == 8 ? v.template getString<8>(wb, BITS + 80) : base == 10 ? v.template getString<10>(wb, BITS + 80) : up ? v.template getString<16, true>(wb, BITS + 80) : v.template getString<16>(wb, BITS + 80);
    else n = base == 2 ? v.template getString<2>(buf, BITS + 80) : base == 8 ? v.template getString<8>(buf, BITS + 80) : base == 10 ? v.template getString<10>(buf, BITS + 80) : up ? v.template getString<16, true>(buf, BITS + 80) : v.template getString<16>(buf, BITS + 80);
    std::string r; for (size_t i = 0; i < n; ++i) r += wide ? static_cast<char>(wb[i]) : buf[i]; while (!r.empty() && r.back() == 0) r.pop_back(); if (up) for (char& ch : r) if (ch >= 'A' && ch <= 'F') ch += 32; else if (ch >= 'a' && ch <= 'f') ch = '?'; return r;
}
static const Cmd* cur; static u32 curIndex;
[[noreturn]] void wrong(const char* what, const std::string& got, const std::string& want) { violation("replica-differs", "after command %u (%s), %s is %s, it should be %s", curIndex, opName[cur->op], what, got.c_str(), want.c_str()); }
void answer(u64 got, u64 want, const char* what) { if (got != want) violation("wrong-answer", "command %u (%s): %s is %llu, it should be %llu", curIndex, opName[cur->op], what, static_cast<unsigned long long>(got), static_cast<unsigned long long>(want)); }
void check(const U& v, const Num<BITS>& n, const char* what) { if (!sameBlocks(v, n)) { static char t[BITS / 4 + 8]; v.template getString<16>(t, sizeof t, true); wrong(what, t, hexOf(n)); } }
void check(const S& v, const Num<BITS>& n, const char* what) { if (!sameSigned(v, n)) { static char t[BITS / 4 + 8]; v.template getString<16>(t, sizeof t, true); wrong(what, std::string(t) + (v.isZero() ? " (zero)" : v.isNegative() ? " (negative)" : " (positive)"), hexOf(n)); } }
template <class T> void assignCopy(T& d, const T& v, u32 st) { if (st & 1) d = v; else { T t(v); d = t; } }

void applyU(Registers& R, const Cmd& c, const U& lit, u32 st) {
    U& d = R.u[c.d]; const U& a = R.u[c.s]; const U& b = c.t == LIT ? lit : R.u[c.t]; U r = 5u;
    switch (c.op) {
        case UCopy: assignCopy(d, b, st); return;
        case UAdd: switch (st % 4) { case 0: d = a + b; break; case 1: r = a; r += b; d = r; break; case 2: d = b + a; break; default: d = a - -b; } return;
        case USub: switch (st % 3) { case 0: d = a - b; break; case 1: r = a; r -= b; d = r; break; default: d = a + -b; } return;
        case UMul: switch (st % 3) { case 0: d = a * b; break; case 1: r = a; r *= b; d = r; break; default: d = b * a; } return;
        case UDiv: switch (st % 4) { case 0: d = a / b; break; case 1: r = a; r /= b; d = r; break; case 2: { U q, m; U::divide(a, b, q, m); d = q; break; } default: { const auto p = U::divide(a, b); d = p.first; } } return;
        case UMod: switch (st % 4) { case 0: d = a % b; break; case 1: r = a; r %= b; d = r; break; case 2: { U q = 3u, m = 4u; U::divide(a, b, q, m); d = m; break; } default: { const auto p = U::divide(a, b); d = p.second; } } return;
        case UAnd: if (st & 1) d = a & b; else { r = a; r &= b; d = r; } return;
        case UOr: if (st & 1) d = a | b; else { r = a; r |= b; d = r; } return;
        case UXor: if (st & 1) d = a ^ b; else { r = a; r ^= b; d = r; } return;
        case UNot: d = ~b; return;
        case UNeg: switch (st % 3) { case 0: d = -b; break; case 1: d = ~b + 1u; break; default: d = U(0u) - b; } return;
        case UInc: { const U old = d; if (st & 1) { const U v = d++; if (!(v == old)) answer(0, 1, "the value of the postfix form"); } else { const U& v = ++d; if (&v != &d) answer(0, 1, "the object returned"); } return; }
        case UDec: { const U old = d; if (st & 1) { const U v = d--; if (!(v == old)) answer(0, 1, "the value of the postfix form"); } else { const U& v = --d; if (&v != &d) answer(0, 1, "the object returned"); } return; }
        case UShl: case UShr: withUnsigned(c.k < 256 ? st : st | 1, c.k, [&](auto k) { if (c.op == UShl) { if (st & 4) d = a << k; else { r = a; r <<= k; d = r; } } else { if (st & 4) d = a >> k; else { r = a; r >>= k; d = r; } } }); return;
        case UBit: d.setBit(c.k, c.raw & 1); return; case UByte: d.setByte(c.k, static_cast<uint8_t>(c.raw)); return; case UBlock: d.setBlock(c.k, static_cast<u32>(c.raw)); return;
        case USwap: if (st & 1) d.swap(R.u[c.s]); else R.u[c.s].swap(d); return;
        case USqrt: d = b.squareRoot(); return;
        case UGcd: d = st & 1 ? U::gcd(a, b) : U::gcd(b, a); return;
        case UBezout: { U x = 8u, y = 9u; r = U::gcd(a, b, x, y); if (!(a * x + b * y == r)) answer(0, 1, "the identity of the coefficients"); d = r; return; }
        case ULcm: d = st & 1 ? U::lcm(a, b) : U::lcm(b, a); return;
        case UPowm: { const U m = makeAeu(num(c.m)); if (c.e.bits() <= BITS && st & 1) d = U::powm(a, makeAeu(num(c.e)), m); else d = U::template powm<EXP>(a, makeAeu(num<EXP>(c.e)), m); return; }
        case UIntAdd: withUnsigned(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: d = a + v; break; case 1: r = a; r += v; d = r; break; default: d = v + a; } }); return;
        case UIntSub: withUnsigned(c.type, c.raw, [&](auto v) { if (st & 1) d = a - v; else { r = a; r -= v; d = r; } }); return;
        case UIntRsub: withUnsigned(c.type, c.raw, [&](auto v) { d = v - a; }); return;
        case UIntMul: withUnsigned(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: r = a; d = r * v; break; case 1: r = a; r *= v; d = r; break; default: d = v * a; } }); return;
        case UIntDiv: withUnsigned(c.type, c.raw, [&](auto v) { if (st & 1) d = a / v; else { r = a; r /= v; d = r; } }); return;
        case UIntRdiv: withUnsigned(c.type, c.raw, [&](auto v) { d = v / a; }); return;
        case UIntMod: withUnsigned(c.type, c.raw, [&](auto v) { if (st & 1) d = a % v; else { r = a; r %= v; d = r; } }); return;
        case UIntRmod: withUnsigned(c.type, c.raw, [&](auto v) { d = v % a; }); return;
        case UIntAnd: withUnsigned(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: d = a & v; break; case 1: r = a; r &= v; d = r; break; default: d = v & a; } }); return;
        case UIntOr: withUnsigned(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: d = a | v; break; case 1: r = a; r |= v; d = r; break; default: d = v | a; } }); return;
        case UIntXor: withUnsigned(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: d = a ^ v; break; case 1: r = a; r ^= v; d = r; break; default: d = v ^ a; } }); return;
        case UInt: withUnsigned(c.type, c.raw, [&](auto v) { if (st & 1) d = v; else { const U t(v); d = t; } }); return;
        case UText: d = fromText<U>(c.text, st); return;
        case UCast: if (c.k) d = b.template precisionCast<NARROW>().template precisionCast<BITS>(); else d = b.template precisionCast<WIDE>().template precisionCast<BITS>(); return;
        case UFromS: d = R.s[c.s % NS].unsignedCast(); return;
        case UPower2: d = U::power2(c.k); return;
        case USelf: switch (c.k % 12) { case 0: case 6: d += d; break; case 1: case 7: d -= d; break; case 2: case 8: d *= d; break; case 3: case 9: d /= d; break; case 4: case 10: d %= d; break; case 5: d ^= d; break; default: if (st & 1) d &= d; else d |= d; } return;
        case QU: answer(compareAll(a, b, st % 3), c.want[0], "the order of the numbers"); return;
        case QUInt: withUnsigned(c.type, c.raw, [&](auto v) { answer(compareAll(b, v, st % 3), c.want[0], "the order of the numbers"); }); return;
        case QUOther: if (c.k & 1) answer(compareAll(a, makeAeu(c.other), st % 3), c.want[0], "the order of the numbers"); else { Num<NARROW> n{}; for (u32 k = 0; k < NARROW / 32; ++k) n.b[k] = c.other.b[k]; if (st & 4) answer(2 - compareAll(makeAeu(n), a, st % 3), c.want[0], "the order of the numbers, the other way round"); else answer(compareAll(a, makeAeu(n), st % 3), c.want[0], "the order of the numbers"); } return;
        case QUCounts: if (c.known) { answer(a.bitCount(), c.want[0], "the number of bits"); answer(a.byteCount(), c.want[1], "the number of bytes"); } answer(a.filledBlocksNumber(), c.want[2], "the number of blocks"); answer(a.isOdd(), c.want[3], "isOdd"); answer(a.isEven(), 1 - c.want[3], "isEven"); answer(a.isZero(), c.want[4], "isZero"); return;
        case QUParts: answer(a.getBit(c.k), c.want[0], "a bit"); answer(a.getByte(c.k), c.want[1], "a byte"); answer(a.getBlock(c.k), c.want[2], "a block"); return;
        case QUIntegral: withInt(c.type, 0, [&](auto v) { using I = decltype(v); answer(static_cast<u64>(a.template integralCast<I>()), static_cast<u64>(static_cast<I>(c.want[0])), "the integer"); }); return;
        case QUText: { const std::string t = toText(a, c.base, st); if (t != c.text) wrong("the text", t, c.text); return; }
        default: harnessError("op"); }
}
void applyS(Registers& R, const Cmd& c, const S& lit, u32 st) {
    S& d = R.s[c.d]; const S& a = R.s[c.s]; const S& b = c.t == LIT ? lit : R.s[c.t]; S r = 5;
    switch (c.op) {
        case SCopy: assignCopy(d, b, st); return;
        case SAdd: switch (st % 4) { case 0: d = a + b; break; case 1: r = a; r += b; d = r; break; case 2: d = b + a; break; default: d = a - -b; } return;
        case SSub: switch (st % 4) { case 0: d = a - b; break; case 1: r = a; r -= b; d = r; break; case 2: d = -(b - a); break; default: d = a + -b; } return;
        case SMul: switch (st % 4) { case 0: d = a * b; break; case 1: r = a; r *= b; d = r; break; case 2: d = b * a; break; default: d = -a * -b; } return;
        case SDiv: switch (st % 3) { case 0: d = a / b; break; case 1: r = a; r /= b; d = r; break; default: { S q = 3, m = -4; S::divide(a, b, q, m); d = q; } } return;
        case SMod: switch (st % 4) { case 0: d = a % b; break; case 1: r = a; r %= b; d = r; break; case 2: d = a - a / b * b; break; default: { S q = 3, m = -4; S::divide(a, b, q, m); d = m; } } return;
        case SNeg: switch (st % 3) { case 0: d = -b; break; case 1: d = S(0) - b; break; default: r = b; r.inverse(); d = r; } return;
        case SInverse: d.inverse(); return;
        case SInc: { const S old = d; if (st & 1) { const S v = d++; if (!(v == old)) answer(0, 1, "the value of the postfix form"); } else { const S& v = ++d; if (&v != &d) answer(0, 1, "the object returned"); } return; }
        case SDec: { const S old = d; if (st & 1) { const S v = d--; if (!(v == old)) answer(0, 1, "the value of the postfix form"); } else { const S& v = --d; if (&v != &d) answer(0, 1, "the object returned"); } return; }
        case SBit: d.setBit(c.k, c.raw & 1); return; case SByte: d.setByte(c.k, static_cast<uint8_t>(c.raw)); return; case SBlock: d.setBlock(c.k, static_cast<u32>(c.raw)); return;
        case SSwap: if (st & 1) d.swap(R.s[c.s]); else R.s[c.s].swap(d); return;
        case SSqrt: d = b.squareRoot(); return;
        case SIntAdd: withInt(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: d = a + v; break; case 1: r = a; r += v; d = r; break; default: d = v + a; } }); return;
        case SIntSub: withInt(c.type, c.raw, [&](auto v) { if (st & 1) d = a - v; else { r = a; r -= v; d = r; } }); return;
        case SIntRsub: withInt(c.type, c.raw, [&](auto v) { d = v - a; }); return;
        case SIntMul: withInt(c.type, c.raw, [&](auto v) { switch (st % 3) { case 0: d = a * v; break; case 1: r = a; r *= v; d = r; break; default: d = v * a; } }); return;
        case SIntDiv: withInt(c.type, c.raw, [&](auto v) { if (st & 1) d = a / v; else { r = a; r /= v; d = r; } }); return;
        case SIntRdiv: withInt(c.type, c.raw, [&](auto v) { d = v / a; }); return;
        case SIntMod: withInt(c.type, c.raw, [&](auto v) { if (st & 1) d = a % v; else { r = a; r %= v; d = r; } }); return;
        case SIntRmod: withInt(c.type, c.raw, [&](auto v) { d = v % a; }); return;
        case SInt: withInt(c.type, c.raw, [&](auto v) { if (st & 1) d = v; else { const S t(v); d = t; } }); return;
        case SText: d = fromText<S>(c.text, st); return;
        case SCast: if (c.k) d = b.template precisionCast<NARROW>().template precisionCast<BITS>(); else d = b.template precisionCast<WIDE>().template precisionCast<BITS>(); return;
        case SFromU: d = S(R.u[c.s]); return;
        case SPower2: d = S::power2(c.k); return;
        case SSelf: switch (c.k % 6) { case 0: d += d; break; case 1: d -= d; break; case 2: d *= d; break; case 3: d /= d; break; default: d %= d; } return;
        case QS: answer(compareAll(a, b, st % 3), c.want[0], "the order of the numbers"); return;
        case QSInt: withInt(c.type, c.raw, [&](auto v) { answer(compareAll(b, v, st % 3), c.want[0], "the order of the numbers"); }); return;
        case QSOther: if (c.k & 1) answer(compareAll(a, makeAesi(c.other), st % 3), c.want[0], "the order of the numbers"); else { Num<NARROW> n{}; for (u32 k = 0; k < NARROW / 32; ++k) n.b[k] = c.other.b[k]; n.neg = c.other.neg; if (st & 4) answer(2 - compareAll(makeAesi(n), a, st % 3), c.want[0], "the order of the numbers, the other way round"); else answer(compareAll(a, makeAesi(n), st % 3), c.want[0], "the order of the numbers"); } return;
        case QSCounts: if (c.known) { answer(a.bitCount(), c.want[0], "the number of bits"); answer(a.byteCount(), c.want[1], "the number of bytes"); } answer(a.filledBlocksNumber(), c.want[2], "the number of blocks"); answer(a.isOdd(), c.want[3], "isOdd"); answer(a.isEven(), 1 - c.want[3], "isEven"); answer(a.isZero(), c.want[4], "isZero"); answer(a.isPositive(), c.want[5] == 2, "isPositive"); answer(a.isNegative(), c.want[5] == 0, "isNegative"); return;
        case QSParts: answer(a.getBit(c.k), c.want[0], "a bit"); answer(a.getByte(c.k), c.want[1], "a byte"); answer(a.getBlock(c.k), c.want[2], "a block"); return;
        case QSIntegral: withInt(c.type, 0, [&](auto v) { using I = decltype(v); answer(static_cast<u64>(a.template integralCast<I>()), static_cast<u64>(static_cast<I>(c.want[std::is_signed_v<I> ? 1 : 0])), "the integer"); }); return;
        case QSText: { const std::string t = toText(a, c.base, st); if (t != c.text) wrong("the text", t, c.text); return; }
        default: harnessError("op"); }
}
// ---- the system --------------------------------------------------------------------------------------------
struct Snapshot { u32 at = 0; std::vector<Packed> load; };
struct Replica { bool up = true; u64 back = 0, stalled = 0; u32 applied = 0; Registers r; std::map<u32, Packed> waiting; Snapshot disk; u32 every = 1; u64 fetch = 0, beat = 0; };
struct Message { u64 at = 0; u32 to = 0, from = 0, kind = 0, index = 0; Packed lit; Snapshot snap; };      // 0 entry, 1 acknowledgement, 2 wants a snapshot, 3 snapshot
constexpr u32 LEADER = 99;
static std::vector<Cmd> cmds; static std::vector<Model> states; static u64 order;
void compareState(const Registers& r, u32 at) { static const char* const names[] = {"unsigned register 0", "unsigned register 1", "unsigned register 2", "unsigned register 3", "signed register 0", "signed register 1", "signed register 2"};
    for (u32 i = 0; i < NU; ++i) check(r.u[i], num(states[at].u[i]), names[i]); for (u32 i = 0; i < NS; ++i) check(r.s[i], num(states[at].s[i]), names[NU + i]); }
Snapshot save(const Replica& p) { Snapshot s; s.at = p.applied; for (const U& v : p.r.u) s.load.push_back(pack(v)); for (const S& v : p.r.s) s.load.push_back(pack(v)); return s; }
void restore(Replica& p, const Snapshot& s) { for (u32 i = 0; i < NU; ++i) p.r.u[i] = unpack<U>(s.load[i]); for (u32 i = 0; i < NS; ++i) p.r.s[i] = unpack<S>(s.load[NU + i]); p.applied = s.at; }
Z litLike(const Z& like, bool sg) { Num<BITS> v{}; const Num<BITS> w = num(like);
    static const u32 sizes[] = {BITS, BITS / 2, 66, 33}; switch (below(4)) { case 0: v = w; relate(v, w); break; case 1: v = w; break; default: { u32 s = sizes[below(4)]; v = genNum<BITS>(s > BITS ? BITS : s); } }
    v.neg = false; if (sg) v.neg = below(2) && !v.zero(); return toZ(v); }
void genCmd(const Model& M, Cmd& c) {
    c.op = below(Ops); const bool sg = c.op >= UOps; const u32 n = sg ? NS : NU; const Z* reg = sg ? M.s : M.u;
    c.d = below(n); c.s = below(n); c.t = below(2) ? LIT : below(n); c.type = below(sg ? 8 : 4); c.raw = genRaw(c.type); c.k = below(4) ? below(BITS) : below(2) ? 32 * below(BITS / 32 + 3) : BITS - 1 + below(4);
    if (c.t == LIT) c.lit = litLike(reg[c.s], sg);
    switch (c.op) {
        case UText: case SText: { c.lit = litLike(reg[c.s], sg); static const u32 bases[] = {16, 10, 8, 2}; c.base = bases[below(4)]; if (BITS > 256 && c.base != 16 && c.lit.bits() > 200) c.base = 16; const bool upper = below(2); Num<BITS> v = num(c.lit); c.text = v.neg ? "-" : ""; c.text += c.base == 16 ? "0x" : c.base == 8 ? "0o" : c.base == 2 ? "0b" : ""; if (below(6) == 0) c.text.append(range(1, 9), '0'); c.text += digits(v, static_cast<int>(c.base), upper); break; }
        case QUText: case QSText: { static const u32 bases[] = {16, 10, 8, 2}; c.base = bases[below(4)]; if (BITS > 256 && c.base != 16 && reg[c.s].bits() > 200) c.base = 16; break; }
        case UPowm: c.e = toZ(genNum<EXP>(BITS > 256 ? 14 : below(4) ? 20 : below(3) ? 60 : EXP)); c.m = toZ(genNum<BITS>(BITS / 2)); break;
        case UBit: case SBit: case QUParts: case QSParts: if (below(3) == 0) c.k = static_cast<u32>(reg[c.d].bits()) - below(2); break;
        case UByte: case SByte: if (below(4)) c.k = below(BITS / 8 + 3); break; case UBlock: case SBlock: if (below(4)) c.k = below(BITS / 32 + 2); break;
        case UCast: case SCast: c.k = below(2); break;
        case UGcd: case UBezout: case ULcm: if (c.t == LIT && below(3)) c.lit = toZ(genNum<BITS>(below(2) ? 60 : BITS > 200 ? 190 : BITS - 3)); break;
        case QUOther: case QSOther: { c.k = below(2); const u32 bits = c.k ? WIDE : NARROW; Z z = reg[c.s]; mpz_abs(z, z); if (!c.k) mpz_fdiv_r_2exp(z, z, NARROW); switch (below(5)) { case 0: break; case 1: mpz_setbit(z, below(bits)); break; case 2: mpz_clrbit(z, below(bits)); break; case 3: mpz_combit(z, below(32)); break; default: z = toZ(genNum<BITS>(bits < BITS ? bits : BITS)); }
            c.other = num<WIDE>(z); if (sg) c.other.neg = !z.zero() && (below(4) ? mpz_sgn(reg[c.s].v) < 0 : mpz_sgn(reg[c.s].v) >= 0); break; }
        default: break; }
    if (c.op == QUInt || c.op == QSInt) {
        if (c.t == LIT && below(2)) {       // both numbers in the same few blocks
            Num<BITS> v{}; v.b[0] = edgeWord(); v.b[1] = edgeWord(); if (BITS > 64 && below(8) == 0) v.b[2] = edgeWord(); v.neg = sg && !v.zero() && below(2); c.lit = toZ(v); if (below(3)) c.type |= 3; }
        const Z& x = c.t == LIT ? c.lit : reg[c.t];
        if (below(4)) { u64 w = lowBits(x); switch (below(6)) { case 0: ++w; break; case 1: w = (w >> 32 << 32) | edgeWord(); break; case 2: w = (w & 0xffffffffu) | static_cast<u64>(edgeWord()) << 32; break; default: break; } if (sg && mpz_sgn(x.v) < 0) w = 0 - w; c.raw = w; } }
}
void run() {
    codecPlan = below(Codecs * 2); cmds.clear(); states.clear(); order = BITS;
    const u32 R = range(2, 4), n = below(4) ? range(4, 40) : range(1, 6);
    Model m; for (u32 i = 0; i < NU; ++i) m.u[i] = toZ(genNum<BITS>(below(3) ? BITS : 64)); for (u32 i = 0; i < NS; ++i) m.s[i] = toZ(genSigned<BITS>(below(2) ? BITS - 2 : below(2) ? BITS / 2 : 64)); states.push_back(m);
    for (u32 i = 0; i < n; ++i) { for (u32 tries = 0; tries < 6; ++tries) { Cmd c; genCmd(m, c); Model next = m; if (!model(next, c)) continue; m = next; cmds.push_back(c); states.push_back(m); break; } }
    if (cmds.empty()) discard("no commands"); const u32 total = static_cast<u32>(cmds.size());
    if (tracing) { for (u32 i = 0; i < NU; ++i) tracef("   u%u = 0x%s\n", i, textZ(states[0].u[i]).c_str()); for (u32 i = 0; i < NS; ++i) tracef("   s%u = 0x%s\n", i, textZ(states[0].s[i]).c_str());
        for (u32 i = 0; i < total; ++i) { const Cmd& c = cmds[i]; tracef("   command %u: %s, d %u, s %u, t %u, k %u, int type %u 0x%llx, literal 0x%s %s\n", i, opName[c.op], c.d, c.s, c.t, c.k, c.type, static_cast<unsigned long long>(c.raw), textZ(c.lit).c_str(), c.text.c_str()); } }
    std::vector<Replica> rep(R); static const u32 rates[] = {0, 8, 25}; const u32 loss = rates[below(3)], dup = rates[below(3)], crash = rates[below(3)], stall = rates[below(3)], wipe = below(3) == 0; const u32 maxDelay = 1 + (below(3) == 0 ? 25 : below(6)); const u64 quiet = below(3) ? below(400) : 0, timeout = range(8, 50); u32 faults = 0;
    for (Replica& p : rep) { for (u32 i = 0; i < NU; ++i) p.r.u[i] = makeAeu(num(states[0].u[i])); for (u32 i = 0; i < NS; ++i) p.r.s[i] = makeAesi(num(states[0].s[i])); p.disk = save(p); p.every = range(1, 12); }
    std::vector<Message> net; std::vector<u32> acked(R, 0), sent(R, 0); std::vector<u64> retry(R, 0); u64 now = 0; const u32 window = range(1, 8); const u64 bound = quiet + 30000; auto faulty = [&] { return now < quiet; };
    auto send = [&](Message x) { if (faulty() && below(100) < loss) { stat("fault.message_lost"); ev("lost", x.to, x.kind, x.index); ++faults; return; } u32 copies = 1; if (faulty() && below(100) < dup) { copies = 2; stat("fault.message_duplicated"); ++faults; } for (u32 k = 0; k < copies; ++k) { x.at = now + 1 + below(maxDelay); if (x.at > now + 1) stat("fault.message_delayed"); net.push_back(x); } };
    for (;;) {
        bool done = true; for (u32 i = 0; i < R; ++i) if (acked[i] < total || !rep[i].up || rep[i].applied < total) done = false; if (done) break;
        if (++now > bound) violation("no-progress", "the replicas did not catch up within 30000 steps after the faults had stopped");
        std::vector<Message> due; for (size_t i = 0; i < net.size();) if (net[i].at <= now) { due.push_back(std::move(net[i])); net.erase(net.begin() + static_cast<long>(i)); } else ++i;
        while (!due.empty()) { const u32 k = below(static_cast<u32>(due.size())); Message x = std::move(due[k]); due.erase(due.begin() + k);
            if (x.to == LEADER) { acked[x.from] = x.index; if (sent[x.from] < x.index) sent[x.from] = x.index; continue; }
            Replica& p = rep[x.to]; if (!p.up || now < p.stalled) { stat(p.up ? "fault.message_to_stalled_replica" : "fault.message_to_dead_replica"); continue; }
            if (x.kind == 2) { if (p.fetch) continue; Message y; y.kind = 3; y.to = x.from; y.from = x.to; y.snap = save(p); send(y); continue; }
            if (x.kind == 3) { if (p.fetch && x.snap.at >= p.applied) { restore(p, x.snap); p.fetch = 0; stat("recovery.snapshot_from_another_replica"); ev("transferred", x.to, p.applied); compareState(p.r, p.applied); p.disk = save(p); } continue; }
            if (x.index >= p.applied && !p.waiting.count(x.index)) { if (x.index > p.applied) stat("entries_ahead_of_their_turn"); p.waiting[x.index] = x.lit; } else stat("duplicates_recognised"); }
        for (u32 i = 0; i < R; ++i) { Replica& p = rep[i];
            if (!p.up) { if (now >= p.back || !faulty()) { p.up = true; if (!p.disk.load.empty()) { restore(p, p.disk); stat("recovery.replica_restarted"); ev("restart", i, p.applied); compareState(p.r, p.applied); } else { p.applied = 0; p.fetch = now; ev("empty", i); } } continue; }
            if (faulty() && crash && below(1000) < crash) { stat("fault.replica_crashed"); ev("crash", i); ++faults; p.up = false; p.back = now + 1 + below(25); p.waiting.clear(); for (U& v : p.r.u) v = 7u; for (S& v : p.r.s) v = -7; if (wipe && below(2)) { bool other = false; for (u32 j = 0; j < R; ++j) if (j != i && !rep[j].disk.load.empty()) other = true; if (other) { stat("fault.disk_lost"); p.disk = Snapshot(); } } continue; }
            if (faulty() && stall && below(1000) < stall) { stat("fault.replica_stalled"); p.stalled = now + 1 + below(30); ++faults; }
            if (now < p.stalled) continue;
            if (p.fetch) { if (now >= p.fetch) { u32 j = below(R - 1); if (j >= i) ++j; if (!rep[j].fetch) { Message x; x.kind = 2; x.to = j; x.from = i; send(x); } p.fetch = now + timeout; } continue; }
            for (u32 budget = 1 + below(3); budget > 0; --budget) { const auto it = p.waiting.find(p.applied); if (it == p.waiting.end()) break;
                cur = &cmds[p.applied]; curIndex = p.applied; const u32 st = below(64); ev("apply", i, p.applied, cur->op, st); stat("commands_applied"); order = mix(order ^ (i * 128 + p.applied));
                if (cur->op >= UOps) { const S lit = cur->t == LIT ? unpack<S>(it->second) : S(0); applyS(p.r, *cur, lit, st); } else { const U lit = cur->t == LIT ? unpack<U>(it->second) : U(0u); applyU(p.r, *cur, lit, st); }
                p.waiting.erase(it); ++p.applied; compareState(p.r, p.applied); sig(mix(cur->op * 64 + st) ^ mix(BITS));
                if (p.applied % p.every == 0) { p.disk = save(p); stat("snapshots"); }
                Message a; a.kind = 1; a.to = LEADER; a.from = i; a.index = p.applied; send(a); }
            if (now >= p.beat) { p.beat = now + timeout; Message a; a.kind = 1; a.to = LEADER; a.from = i; a.index = p.applied; send(a); } }
        for (u32 i = 0; i < R; ++i) { if (now >= retry[i]) { if (acked[i] < total && sent[i] > acked[i]) stat("recovery.resend"); sent[i] = acked[i]; retry[i] = now + timeout + 2 * maxDelay; }
            while (sent[i] < total && sent[i] < acked[i] + window) { Message x; x.to = i; x.index = sent[i]; const Cmd& c = cmds[sent[i]]; if (c.t == LIT) { if (c.op >= UOps) x.lit = pack(S(makeAesi(num(c.lit)))); else x.lit = pack(U(makeAeu(num(c.lit)))); } send(x); ++sent[i]; } }
    }
    shm->simTime += now; ev("finished", now, total); if (faults || R > 2) nontrivial(); sig(order);
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
