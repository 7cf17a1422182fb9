// The public operations of the library as numbered steps on shared read-only operands and own objects.
// Results go to a fixed array: nothing here allocates.
#pragma once
#include "values.h"
#include <ostream>
#include <istream>
#include <streambuf>
#include <string_view>

namespace sim {
struct Out { static constexpr u32 CAP = 2600; u32 v[CAP]; u32 n = 0;
    void put(u32 x) { if (n < CAP) v[n++] = x; }
    void put64(u64 x) { put(static_cast<u32>(x)); put(static_cast<u32>(x >> 32)); }
    template <size_t N> void num(const Aeu<N>& a) { for (size_t i = 0; i < N / 32; ++i) put(a.getBlock(i)); }
#ifdef OPS_PLACED   // all that can be read of a number, also of a zero
    template <size_t N> void num(const Aesi<N>& a) { put(a.isZero() ? 0u : a.isNegative() ? 2u : 1u); for (size_t i = 0; i < N / 32; ++i) put(a.getBlock(i)); }
#else
    template <size_t N> void num(const Aesi<N>& a) { put(a.isZero() ? 0u : a.isNegative() ? 2u : 1u); if (!a.isZero()) for (size_t i = 0; i < N / 32; ++i) put(a.getBlock(i)); }
#endif
    template <class Char> void text(const Char* s, size_t len) { put(static_cast<u32>(len)); for (size_t i = 0; i < len; ++i) put(static_cast<u32>(s[i])); }
    bool operator==(const Out& o) const { if (n != o.n) return false; for (u32 i = 0; i < n; ++i) if (v[i] != o.v[i]) return false; return true; } };

template <class Char> struct Sink final : std::basic_streambuf<Char> { Char b[2400]; void (*cb)(void*) = nullptr; void* arg = nullptr; size_t n = 0;
    typename std::basic_streambuf<Char>::int_type overflow(typename std::basic_streambuf<Char>::int_type c) override { if (cb) cb(arg); if (n < 2400) b[n++] = static_cast<Char>(c); return c; }
    std::streamsize xsputn(const Char* s, std::streamsize k) override { if (cb) cb(arg); for (std::streamsize i = 0; i < k && n < 2400; ++i) b[n++] = s[i]; return k; } };
template <class Char> struct Source final : std::basic_streambuf<Char> { Char b[600]; void (*cb)(void*) = nullptr; void* arg = nullptr; size_t n = 0, at = 0;
    typename std::basic_streambuf<Char>::int_type underflow() override { if (cb) cb(arg); if (at >= n) return std::char_traits<Char>::eof(); size_t k = n - at < 5 ? n - at : 5; this->setg(b + at, b + at, b + at + k); at += k; return std::char_traits<Char>::to_int_type(*this->gptr()); } };

constexpr u32 TextCap = 560;
// Numerals as users type them: any notation and case, leading zeros, more digits than fit, separators and stray characters, nothing but a prefix.
template <size_t N> std::string genNumeral() {
    int base = below(2) ? 16 : below(2) ? 10 : below(2) ? 8 : 2; const bool long_ = chance(1, 6); Num<N> tx = genNum<N>(base == 2 ? (long_ ? 540 : 60) : N < 200 ? N : !long_ ? 200 : base == 10 ? 600 : base == 8 ? 1500 : 2000); bool upper = below(2); std::string d = digits(tx, base, upper);
    std::string full = (below(3) == 2 ? "-" : ""); full += base == 16 ? "0x" : base == 8 ? "0o" : base == 2 ? "0b" : "";
    switch (below(12)) {
        case 7: full.append(1 + below(below(3) ? 20 : 220), '0'); break;
        case 8: { u32 k = below(below(3) ? 60 : below(3) ? 200 : TextCap - 6); static const char set[] = "0123456789abcdefABCDEF"; d.clear(); for (u32 i = 0; i < k; ++i) d += set[below(base == 16 ? 22 : static_cast<u32>(base))]; break; }
        case 9: { u32 k = range(1, 4); static const char odd[] = "'_ ,.-+gGxo~"; for (u32 i = 0; i < k; ++i) d.insert(below(static_cast<u32>(d.size()) + 1), 1, odd[below(12)]); break; }
        case 10: d.clear(); if (below(2)) full.clear(); break;
        default: break; }
    full += d; if (full.size() > TextCap - 1) full.resize(TextCap - 1); return full;
}
// Operands. W is another precision.
#ifdef OPS_PLACED   // the operands lie wherever the world has put them
template <size_t N> struct Operands {
    static constexpr size_t W = N < 256 ? 256 : N == 256 ? 160 : 128;
    const Aeu<N> &a, &b, &s, &t, &m, &g, &h; const Aesi<N> &sa, &sb, &ss, &sg; const Aeu<W>& w; const Aesi<W>& sw; u64 k; u32 sh, idx; const char* text; const wchar_t* wtext; u32 textLen;
#ifdef OPS_GMP
    mpz_class z, za;
#endif
};
#else
template <size_t N> struct Operands {
    static constexpr size_t W = N < 256 ? 256 : N == 256 ? 160 : 128;
    Aeu<N> a, b, s, t, m, g, h; Aesi<N> sa, sb, ss, sg; Aeu<W> w; Aesi<W> sw; u64 k; u32 sh, idx; char text[TextCap]; wchar_t wtext[TextCap]; u32 textLen;
#ifdef OPS_GMP
    mpz_class z, za;
#endif
};
#endif
// The same as plain data, so that two builds of the library can be given equal operands.
// One set of operands in this many has numbers of full length for number theory and decimal text above 256 bits.
#ifndef OPS_LONG
#define OPS_LONG 40
#endif
template <size_t N> struct RawOperands { Num<N> a, b, s, t, m, g, h, sa, sb, ss, sg; Num<Operands<N>::W> w, sw; u64 k; u32 sh, idx; char text[TextCap]; u32 textLen; };
template <size_t N> void genRaw(RawOperands<N>& o) {
    Num<N> a = genNum<N>(), b = genNum<N>(), s = genNum<N>(40), t = genNum<N>(60), m = genNum<N>(32), sa = genSigned<N>(N - 1), sb = genSigned<N>(N / 2 - 1), ss = genSigned<N>(40); Num<Operands<N>::W> w = genNum<Operands<N>::W>(), sw = genSigned<Operands<N>::W>(Operands<N>::W - 1);
    if (chance(1, 4)) relate(b, a);
    if (chance(1, 6)) { relate(sb, sa); sb.b[N / 32 - 1] &= 0x7fffffffu; if (sb.zero()) sb.neg = false; }
    if (b.zero()) b.b[0] = 3; if (s.zero()) s.b[0] = 12; if (t.zero()) t.b[0] = 30; m.b[0] |= 1; m.b[0] += m.b[0] == 1 ? 6 : 0; if (sb.zero()) sb.b[0] = 5; if (ss.zero()) ss.b[0] = 7;
    const u32 mid = N <= 256 || (N <= 1024 && chance(1, OPS_LONG * (N <= 512 ? 1 : 3))) ? N : 200; Num<N> g = genNum<N>(mid), h = genNum<N>(mid), sg = genSigned<N>(mid - 1); if (chance(1, 4)) { relate(h, g); for (u32 i = mid / 32; i < N / 32; ++i) h.b[i] = 0; } if (g.zero()) g.b[0] = 77; if (h.zero()) h.b[1] = 9; o.g = g; o.h = h; o.sg = sg;
    o.a = a; o.b = b; o.s = s; o.t = t; o.m = m; o.sa = sa; o.sb = sb; o.ss = ss; o.w = w; o.sw = sw;
    o.k = below(4) ? static_cast<u64>(word()) << 32 | word() : word(); o.sh = below(N + 3); o.idx = below(N + 9); if (below(4) == 3) { o.sh &= ~31u; if (below(2)) o.idx &= ~31u; }
    std::string full = genNumeral<N>(); o.textLen = static_cast<u32>(full.size()); for (u32 i = 0; i < TextCap; ++i) o.text[i] = i < full.size() ? full[i] : 0;
}
#ifndef OPS_PLACED
template <size_t N> void buildOperands(Operands<N>& o, const RawOperands<N>& r) {
    o.a = makeAeu(r.a); o.b = makeAeu(r.b); o.s = makeAeu(r.s); o.t = makeAeu(r.t); o.m = makeAeu(r.m); o.g = makeAeu(r.g); o.h = makeAeu(r.h); o.sg = makeAesi(r.sg); o.sa = makeAesi(r.sa); o.sb = makeAesi(r.sb); o.ss = makeAesi(r.ss); o.w = makeAeu(r.w); o.sw = makeAesi(r.sw);
    // last, a block is set again: whatever a number may keep about itself is not yet known to it when it is shared
    o.sa.setBlock(0, r.sa.b[0]); o.sb.setBlock(0, r.sb.b[0]); o.ss.setBlock(0, r.ss.b[0]); o.sg.setBlock(0, r.sg.b[0]); o.sw.setBlock(0, r.sw.b[0]);
    o.k = r.k; o.sh = r.sh; o.idx = r.idx; o.textLen = r.textLen; for (u32 i = 0; i < TextCap; ++i) { o.text[i] = r.text[i]; o.wtext[i] = r.text[i]; }
}
template <size_t N> void genOperands(Operands<N>& o) {
    RawOperands<N> r; genRaw(r); buildOperands(o, r);
#ifdef OPS_GMP
    mpz_t zz; mpz_init(zz); (below(3) == 0 ? r.a : r.sa).toMpz(zz); o.za = mpz_class(zz); genSigned<N>().toMpz(zz); o.z = mpz_class(zz); mpz_clear(zz);
#endif
}

template <size_t N> u64 operandDigest(const Operands<N>& w) { static Out o; o.n = 0; const auto put = [](auto copy) { o.num(copy); }; put(w.a); put(w.b); put(w.s); put(w.t); put(w.m); put(w.g); put(w.h); put(w.sa); put(w.sb); put(w.ss); put(w.sg); put(w.w); put(w.sw); return hbytes(o.v, o.n * 4); }
#endif

// A hook for the stream operations (a stream buffer that itself does work).
struct Hook { void (*cb)(void*) = nullptr; void* arg = nullptr; };

constexpr u32 OP_FIRST_STREAM = 94, OP_FIRST_GMP = 105, OP_ALL = 109;
inline u32 opCount() {
#if defined OPS_NO_STREAM
    return OP_FIRST_STREAM;
#elif defined OPS_GMP
    return OP_ALL;
#else
    return OP_FIRST_GMP;
#endif
}
inline bool opHeavy(u32 op) { return op >= 82 && op <= 93 && op != 89 && op != 90 && op != 91; }
inline u32 pickOp(u32 limit) { u32 op = below(limit); return opHeavy(op) && below(3) ? below(limit) : op; }
inline const char* opName(u32 op) { static const char* const n[] = {
    "u+u", "u-u", "u*u", "u/u", "u%u", "u+=int", "u-=u", "u*=int", "u*=u64", "u/=int", "u%=int", "++--", "-u +u ~u", "u&|^u", "u<<k", "u>>k", "u==u u<u", "u cmp int", "u cmp other precision", "setBit getBit", "setByte getByte", "setBlock getBlock", "counts parity", "u swap", "u divide out", "gcd bezout", "gcd", "lcm", "powm", "powm other precision", "power2", "u squareRoot", "getString<16>", "getString<10>", "getString<8>", "getString<2>", "wide getString<16>", "wide getString<10>", "u from text", "u from wide text", "u from string_view", "u integralCast", "u precisionCast", "int op u", "s+s", "s-s", "s*s", "s/s", "s%s", "s+=s alias", "s*=int", "s/=int", "s%=int", "s++ s--", "-s +s inverse", "s==s s<s", "s cmp int", "s cmp other precision", "s bits", "s counts parity sign", "s swap", "s divide out", "s squareRoot power2", "s integralCast", "s precisionCast unsignedCast", "s from text", "s from wide text", "s from string_view", "s getString<16>", "s getString<10>", "wide s getString<8>", "u from literal", "s from int", "copy chain", "u relational operators", "s relational operators",
    "u+int u*int", "s op int", "int op s", "u alias", "s alias", "s*=s s/=s s%=s", "gcd of long numbers", "gcd bezout of long numbers", "lcm of long numbers", "squareRoot of long numbers", "powm of long numbers", "getString of long numbers", "wide getString of long numbers", "getString into short buffers", "integralCast, all types", "from int, all types", "u chain", "s chain",
    "u insert hex", "u insert dec", "s insert oct", "wide s insert dec", "writeBinary", "readBinary", "wide writeBinary", "wide readBinary", "insert long numbers", "wide insert long numbers", "readBinary twice",
    "u from mpz", "s from mpz", "u==mpz", "s==mpz"}; return op < sizeof n / sizeof *n ? n[op] : "?"; }

// Exponents: mostly short, one in eight of two blocks or three.
template <size_t E, size_t N> Aeu<E> exponent(u64 p, u32 mask, const Operands<N>& w) {
    Aeu<E> e = static_cast<uint32_t>(p & mask); if ((p >> 12 & 7) != 7) return e;
    e.setBlock(0, static_cast<uint32_t>(w.k)); if constexpr (E > 32) e.setBlock(1, static_cast<uint32_t>(p >> 8 & 0xff) + 1); if constexpr (E > 64) if (N <= 256 && (p & 3) == 3) e.setBlock(2, static_cast<uint32_t>(w.k >> 32)); return e;
}
template <size_t N> __attribute__((noinline)) void runOp(u32 op, const Operands<N>& w, u64 p, Out& o, const Hook& hook = {}) {
    constexpr size_t W = Operands<N>::W; (void)hook;
    const Aeu<N>& a = w.a; const Aeu<N>& b = w.b; const Aesi<N>& sa = w.sa; const Aesi<N>& sb = w.sb;
    const uint32_t k32 = static_cast<uint32_t>(w.k) | 1u; const uint64_t k64 = w.k | 1u; const uint16_t k16 = static_cast<uint16_t>(w.k | 1u); const uint8_t k8 = static_cast<uint8_t>(w.k | 1u);
    switch (op) {
        case 0: o.num(a + b); break;
        case 1: o.num(a - b); break;
        case 2: o.num(a * b); break;
        case 3: o.num(a / b); break;
        case 4: o.num(a % b); break;
        case 5: { Aeu<N> x = a; switch (p % 4) { case 0: x += k32; break; case 1: x += k64; break; case 2: x += k16; break; default: x += k8; } o.num(x); break; }
        case 6: { Aeu<N> x = a; x -= b; if (p & 1) x -= x; o.num(x); break; }
        case 7: { Aeu<N> x = a; if (p & 1) x *= k32; else x *= k16; o.num(x); break; }
        case 8: { Aeu<N> x = a; x *= k64; o.num(x); break; }
        case 9: { Aeu<N> x = a; if (p & 1) x /= Aeu<N>(k32); else x /= Aeu<N>(k64); o.num(x); break; }
        case 10: { Aeu<N> x = a; if (p & 1) x %= Aeu<N>(k32); else x %= Aeu<N>(k64); o.num(x); break; }
        case 11: { Aeu<N> x = a; o.num(x++); o.num(++x); o.num(x--); o.num(--x); if (p & 1) { Aeu<N> y = 0u; --y; o.num(y); ++y; o.num(y); } break; }
        case 12: o.num(-a); o.num(+a); o.num(~a); break;
        case 13: { o.num(a & b); o.num(a | b); o.num(a ^ b); Aeu<N> x = a; x &= b; x |= w.s; x ^= b; o.num(x); break; }
        case 14: { o.num(a << w.sh); Aeu<N> x = b; x <<= w.idx; o.num(x); break; }
        case 15: { o.num(a >> w.sh); Aeu<N> x = b; x >>= w.idx; o.num(x); break; }
        case 16: o.put(a == b); o.put(a != b); o.put(a < b); o.put(a <= b); o.put(a > b); o.put(a >= b); o.put(a == a); o.put(static_cast<u32>(a.compareTo(b))); break;
        case 17: o.put(w.s == k32); o.put(w.s == k64); o.put(w.s == k16); o.put(static_cast<u32>(w.s.compareTo(k32))); o.put(static_cast<u32>(w.t.compareTo(k64))); o.put(static_cast<u32>(w.s.compareTo(k8))); break;
        case 18: o.put(a == w.w); o.put(static_cast<u32>(a.compareTo(w.w))); o.put(w.w == a); o.put(static_cast<u32>(w.w.compareTo(a))); break;
        case 19: { Aeu<N> x = a; x.setBit(w.idx, p & 1); o.num(x); o.put(a.getBit(w.idx)); o.put(a.getBit(w.sh)); break; }
        case 20: { Aeu<N> x = a; x.setByte(w.idx / 8, static_cast<uint8_t>(p)); o.num(x); o.put(a.getByte(w.sh / 8)); break; }
        case 21: { Aeu<N> x = a; x.setBlock(w.idx / 32, static_cast<u32>(p)); o.num(x); o.put(a.getBlock(w.sh / 32)); break; }
        case 22: o.put64(a.bitCount()); o.put64(a.byteCount()); o.put64(a.filledBlocksNumber()); o.put(a.isOdd()); o.put(a.isEven()); o.put(a.isZero()); o.put64(a.totalBlocksNumber()); o.put64(a.getBitness()); break;
        case 23: { Aeu<N> x = a, y = b; x.swap(y); o.num(x); o.num(y); break; }
        case 24: { Aeu<N> q, r; Aeu<N>::divide(a, b, q, r); o.num(q); o.num(r); auto pr = Aeu<N>::divide(w.t, w.s); o.num(pr.first); o.num(pr.second); break; }
        case 25: { Aeu<N> x, y; o.num(Aeu<N>::gcd(w.s, w.t, x, y)); o.num(x); o.num(y); break; }
        case 26: o.num(Aeu<N>::gcd(w.t, w.s)); break;
        case 27: o.num(Aeu<N>::lcm(w.s, w.m)); break;
        case 28: { const Aeu<N> e = exponent<N>(p, 0xff, w); o.num(Aeu<N>::powm(w.s, e, w.m)); break; }
        case 29: { const Aeu<W> e = exponent<W>(p, 0xff, w); o.num(Aeu<N>::powm(w.s, e, w.m)); break; }
        case 30: o.num(Aeu<N>::power2(w.sh)); o.num(Aeu<N>::power2(w.idx)); break;
        case 31: o.num(w.t.squareRoot()); break;
        case 32: { char t[N / 4 + 4]; size_t r = a.template getString<16>(t, sizeof t, p & 1); o.text(t, r); break; }
        case 33: { char t[40]; size_t r = w.s.template getString<10>(t, sizeof t); o.text(t, r); break; }
        case 34: { char t[40]; size_t r = w.s.template getString<8>(t, sizeof t, p & 1); o.text(t, r); break; }
        case 35: { char t[70]; size_t r = w.m.template getString<2>(t, sizeof t, p & 1); o.text(t, r); break; }
        case 36: { wchar_t t[N / 4 + 4]; size_t r = a.template getString<16, true>(t, N / 4 + 4, p & 1); o.text(t, r); break; }
        case 37: { wchar_t t[40]; size_t r = w.s.template getString<10>(t, 40); o.text(t, r); break; }
        case 38: o.num(Aeu<N>(w.text, w.textLen)); break;
        case 39: o.num(Aeu<N>(w.wtext, w.textLen)); break;
        case 40: { std::string_view v(w.text, w.textLen); o.num(Aeu<N>(v)); std::wstring_view wv(w.wtext, w.textLen); o.num(Aeu<N>(wv)); break; }
        case 41: o.put64(a.template integralCast<uint64_t>()); o.put(a.template integralCast<uint8_t>()); o.put(static_cast<u32>(a.template integralCast<int>())); break;
        case 42: o.num(a.template precisionCast<W>()); o.num(w.w.template precisionCast<N>()); break;
        case 43: o.num(k32 + a); o.num(k32 - a); o.num(k32 * a); o.num(k64 / w.s); o.num(k64 % w.s); o.num(k32 ^ a); o.num(k32 & a); o.num(k32 | a); break;
        case 44: o.num(sa + sb); break;
        case 45: o.num(sa - sb); o.num(sb - sa); break;
        case 46: o.num(sb * w.ss); break;
        case 47: o.num(sa / sb); break;
        case 48: o.num(sa % sb); break;
        case 49: { Aesi<N> x = sb; x += sb; o.num(x); x -= sb; x += w.ss; o.num(x); break; }
        case 50: { Aesi<N> x = w.ss; if (p & 1) x *= static_cast<int32_t>(k32 >> 1); else x *= -static_cast<int64_t>(k64 >> 1 & 0xffffffffffffull); o.num(x); break; }
        case 51: { Aesi<N> x = sa; if (p & 1) x /= static_cast<int32_t>(k32 >> 1 | 1); else x /= -static_cast<int64_t>(k64 >> 1 | 1); o.num(x); break; }
        case 52: { Aesi<N> x = sa; x %= static_cast<int32_t>(k32 >> 1 | 1); o.num(x); break; }
        case 53: { Aesi<N> x = sb; o.num(x++); o.num(++x); o.num(x--); o.num(--x); if (p & 1) { Aesi<N> y = 0; --y; o.num(y); ++y; o.num(y); ++y; o.num(y); } break; }
        case 54: { o.num(-sa); o.num(+sa); Aesi<N> x = sa; x.inverse(); o.num(x); break; }
        case 55: o.put(sa == sb); o.put(sa != sb); o.put(sa < sb); o.put(sa <= sb); o.put(sa > sb); o.put(sa >= sb); o.put(sa == sa); o.put(static_cast<u32>(sa.compareTo(sb))); break;
        case 56: { const int64_t i = static_cast<int64_t>(k64 >> 1) * (p & 1 ? 1 : -1); o.put(w.ss == i); o.put(static_cast<u32>(w.ss.compareTo(i))); o.put(static_cast<u32>(w.ss.compareTo(0))); o.put(sa == 0); break; }
        case 57: o.put(w.ss.template precisionCast<W>() == w.sw); o.put(static_cast<u32>(w.ss.compareTo(w.ss.template precisionCast<W>()))); o.put(w.ss == w.sw); break;
        case 58: { Aesi<N> x = sb; x.setBit(N - 1, true); o.num(x); x.setByte(1, static_cast<uint8_t>(p)); o.num(x); x.setBlock(N / 32 - 1, static_cast<u32>(p) | 1); o.num(x); o.put(sb.getBit(w.sh)); o.put(sb.getByte(w.idx / 8)); o.put(sb.getBlock(w.idx / 32)); break; }
        case 59: o.put64(sa.bitCount()); o.put64(sa.byteCount()); o.put64(sa.filledBlocksNumber()); o.put(sa.isOdd()); o.put(sa.isEven()); o.put(sa.isZero()); o.put(sa.isPositive()); o.put(sa.isNegative()); break;
        case 60: { Aesi<N> x = sa, y = sb; x.swap(y); o.num(x); o.num(y); break; }
        case 61: { Aesi<N> q, r; Aesi<N>::divide(sa, sb, q, r); o.num(q); o.num(r); break; }
        case 62: o.num(w.ss.squareRoot()); o.num(Aesi<N>::power2(w.sh)); break;
        case 63: o.put64(static_cast<u64>(sa.template integralCast<int64_t>())); o.put(sa.template integralCast<uint16_t>()); break;
        case 64: o.num(sa.template precisionCast<W>()); o.num(sa.unsignedCast()); o.num(Aesi<N>(a)); break;
        case 65: o.num(Aesi<N>(w.text, w.textLen)); break;
        case 66: o.num(Aesi<N>(w.wtext, w.textLen)); break;
        case 67: { std::string_view v(w.text, w.textLen); o.num(Aesi<N>(v)); std::wstring_view wv(w.wtext, w.textLen); o.num(Aesi<N>(wv)); break; }
        case 68: { char t[N / 4 + 5]; size_t r = sa.template getString<16>(t, sizeof t, p & 1); o.text(t, r); break; }
        case 69: { char t[40]; size_t r = w.ss.template getString<10>(t, sizeof t); o.text(t, r); break; }
        case 70: { wchar_t t[40]; size_t r = w.ss.template getString<8>(t, 40, p & 1); o.text(t, r); break; }
        case 71: o.num(Aeu<N>("0xdeadbeefcafe")); o.num(Aeu<N>(L"123456789012345678")); o.num(Aesi<N>("-0b1011")); o.num(Aesi<N>(L"-7654321")); break;
        case 72: { o.num(Aesi<N>(static_cast<int>(k32 >> 1))); o.num(Aesi<N>(-static_cast<long long>(k64 >> 1))); Aesi<N> x = sa; x = 5; o.num(x); o.num(Aeu<N>(k64)); o.num(Aeu<N>(k8)); break; }
        case 73: { Aeu<N> x = a; Aeu<N> y = x; y += b; x = y; Aesi<N> u = sa; Aesi<N> v = u; v = sb; u = v; o.num(x); o.num(u); break; }
        case 74: { const Aeu<W> aw = w.w; const auto all = [&o](const auto& x, const auto& y) { o.put((x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); };
            all(a, b); all(a, a); all(w.s, w.t); all(a, aw); all(aw, a); all(w.s, w.s.template precisionCast<W>()); all(w.s, k32); all(w.s, k64); all(w.s, k16); all(w.t, k8); all(Aeu<N>(k32), k32); all(Aeu<N>(k64), k64); break; }
        case 75: { const auto all = [&o](const auto& x, const auto& y) { o.put((x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5); }; const int64_t i = static_cast<int64_t>(k64 >> 1) * (p & 1 ? 1 : -1);
            all(sa, sb); all(sa, sa); all(sb, sa); all(w.ss, w.ss.template precisionCast<W>()); all(w.ss.template precisionCast<W>(), w.ss); all(w.ss, i); all(w.ss, static_cast<int>(k16)); all(sa, 0); all(Aesi<N>(i), i); break; }
        case 76: { Aeu<N> x = a; o.num(a + k32); o.num(a + k64); o.num(a + k8); o.num(x * k32); o.num(x * k64); o.num(x * k16); break; }
        case 77: { const int64_t i = static_cast<int64_t>(k64 >> 1) * (p & 1 ? 1 : -1); const int32_t j = static_cast<int32_t>(k32 >> 1 | 1) * (p & 2 ? 1 : -1); const int8_t c = static_cast<int8_t>(k8 | 1); if (p & 4) { o.num(w.ss * i); o.num(w.ss * j); o.num(w.ss * c); o.num(w.ss * k16); } else { o.num(sa / i); o.num(sa / j); o.num(sa / c); o.num(sa % k32); o.num(sa % k64); o.num(sa % static_cast<int64_t>(k64 >> 1 | 1)); } break; }
        case 78: { const int64_t i = static_cast<int64_t>(k64 >> 1) * (p & 1 ? 1 : -1); const int16_t j = static_cast<int16_t>(k16); o.num(i + w.ss); o.num(j - w.ss); o.num(j * w.ss); o.num(i / w.ss); o.num(i % w.ss); o.num(k64 + w.ss); o.num(k8 - w.ss); break; }
        case 79: { Aeu<N> x = a; x += x; o.num(x); x *= x; o.num(x); x = b; x /= x; o.num(x); x = b; x %= x; o.num(x); x = a; x &= x; x |= x; o.num(x); x ^= x; o.num(x); x = b; x.swap(x); x = static_cast<const Aeu<N>&>(x); o.num(x); x -= x; o.num(x); break; }
        case 80: { Aesi<N> x = sb; x += x; o.num(x); x = sb; x -= x; o.num(x); x = sb; x *= x; o.num(x); x = sb; x /= x; o.num(x); x = sb; x %= x; o.num(x); x = sb; x.swap(x); x = static_cast<const Aesi<N>&>(x); o.num(x); break; }
        case 81: { Aesi<N> x = sb; x *= w.ss; o.num(x); x = sa; x /= w.ss; o.num(x); x = sa; x %= w.ss; o.num(x); x = w.ss; x /= sa.isZero() ? sb : sa; o.num(x); x = w.ss; x %= sa.isZero() ? sb : sa; o.num(x); x -= sb; o.num(x); break; }
        case 82: o.num(Aeu<N>::gcd(w.g, w.h)); break;
        case 83: { Aeu<N> x, y; o.num(Aeu<N>::gcd(w.g, w.h, x, y)); o.num(x); o.num(y); break; }
        case 84: o.num(Aeu<N>::lcm(w.g, p & 1 ? w.s : w.h)); break;
        case 85: o.num((p & 1 ? a : w.g).squareRoot()); o.num(w.sg.squareRoot()); break;
        case 86: { Aeu<N> mod = w.h; mod.setBit(0, true); mod.setBit(3, true); const Aeu<N> e = exponent<N>(p, 0x3ff, w); o.num(Aeu<N>::powm(w.g, e, mod)); break; }
        case 87: { constexpr size_t C = N + 8; char t[C]; switch (p & 3) { case 0: { size_t r = w.g.template getString<10>(t, C); o.text(t, r); break; } case 1: { size_t r = w.g.template getString<8>(t, C, p & 4); o.text(t, r); break; } case 2: { size_t r = w.g.template getString<2>(t, C, p & 4); o.text(t, r); break; } default: { size_t r = w.sg.template getString<10>(t, C); o.text(t, r); } } break; }
        case 88: { constexpr size_t C = N + 8; wchar_t t[C]; switch (p & 3) { case 0: { size_t r = w.g.template getString<10>(t, C); o.text(t, r); break; } case 1: { size_t r = w.g.template getString<8>(t, C, p & 4); o.text(t, r); break; } case 2: { size_t r = w.sg.template getString<2>(t, C, p & 4); o.text(t, r); break; } default: { size_t r = w.sg.template getString<16, true>(t, C, p & 4); o.text(t, r); } } break; }
        case 89: { char t[N / 3 + 12]; const size_t cap = p >> 4 & 31; size_t r = (p & 1 ? a : w.g).template getString<16>(t, cap, p & 2); o.text(t, r); r = w.sg.template getString<10>(t, cap); o.text(t, r); break; }
        case 90: o.put(a.template integralCast<bool>()); o.put(static_cast<u32>(a.template integralCast<short>())); o.put64(static_cast<u64>(a.template integralCast<long long>())); o.put(static_cast<u32>(sa.template integralCast<int>())); o.put(static_cast<u32>(w.ss.template integralCast<signed char>())); o.put64(sa.template integralCast<uint64_t>()); break;
        case 91: { o.num(Aeu<N>(static_cast<unsigned char>(p))); o.num(Aeu<N>(static_cast<unsigned short>(p))); o.num(Aeu<N>(p & 1 ? true : false)); o.num(Aeu<N>(static_cast<unsigned long long>(k64))); o.num(Aesi<N>(k64)); o.num(Aesi<N>(static_cast<signed char>(p))); o.num(Aesi<N>(static_cast<short>(p))); Aeu<N> x = a; x = k32; o.num(x); Aesi<N> y = sa; y = static_cast<long long>(k64) * -1; o.num(y); break; }
        case 92: { Aeu<N> x = w.h; for (u32 i = 0; i < 4; ++i) { x *= w.g; x ^= a; x = x << (p >> i & 15); x %= b; x += k32; } o.num(x); break; }
        case 93: { Aesi<N> x = w.ss; for (u32 i = 0; i < 4; ++i) { x += w.sg; x *= static_cast<int>(3); x %= sb; x -= w.ss; x = -x; } o.num(x); break; }
#if !defined OPS_NO_STREAM
        case 94: { Sink<char> s; s.cb = hook.cb; s.arg = hook.arg; std::ostream os(&s); os << std::hex << std::showbase << a << ' ' << std::uppercase << b; o.text(s.b, s.n); break; }
        case 95: { Sink<char> s; s.cb = hook.cb; s.arg = hook.arg; std::ostream os(&s); os << w.s << '|' << w.t; o.text(s.b, s.n); break; }
        case 96: { Sink<char> s; s.cb = hook.cb; s.arg = hook.arg; std::ostream os(&s); os << std::oct << std::showbase << w.ss; o.text(s.b, s.n); break; }
        case 97: { Sink<wchar_t> s; s.cb = hook.cb; s.arg = hook.arg; std::wostream os(&s); os << w.ss << L'|' << std::hex << sa; o.text(s.b, s.n); break; }
        case 98: { Sink<char> s; s.cb = hook.cb; s.arg = hook.arg; std::ostream os(&s); a.writeBinary(os, p & 1); o.text(s.b, s.n); break; }
        case 99: { Source<char> s; s.cb = hook.cb; s.arg = hook.arg; s.n = N / 8 - (p >> 8 & 1) * (p % 7); for (size_t i = 0; i < s.n; ++i) s.b[i] = static_cast<char>(a.getByte(i)); std::istream is(&s); Aeu<N> x = b; x.readBinary(is, p & 1); o.num(x); o.put(is.good()); break; }
        case 100: { Sink<wchar_t> s; s.cb = hook.cb; s.arg = hook.arg; std::wostream os(&s); a.writeBinary(os, p & 1); o.text(s.b, s.n); break; }
        case 101: { Source<wchar_t> s; s.cb = hook.cb; s.arg = hook.arg; s.n = N / 32; for (size_t i = 0; i < s.n; ++i) s.b[i] = static_cast<wchar_t>(a.getBlock(i) & 0x7fffffff); std::wistream is(&s); Aeu<N> x = b; x.readBinary(is, p & 1); o.num(x); break; }
        case 102: { Sink<char> s; s.cb = hook.cb; s.arg = hook.arg; std::ostream os(&s); if (p & 1) os << std::oct; if (p & 2) os << std::showbase; os << w.g << ' ' << w.sg; o.text(s.b, s.n); o.put(static_cast<u32>(os.flags())); break; }
        case 103: { Sink<wchar_t> s; s.cb = hook.cb; s.arg = hook.arg; std::wostream os(&s); if (p & 1) os << std::oct; if (p & 2) os << std::showbase << std::uppercase; os << w.h << L' ' << w.sg; if (p & 4) os << std::hex << a; o.text(s.b, s.n); break; }
        case 104: { Source<char> s; s.cb = hook.cb; s.arg = hook.arg; s.n = 2 * (N / 8) <= 600 ? 2 * (N / 8) : N / 8; for (size_t i = 0; i < s.n; ++i) s.b[i] = static_cast<char>((i < N / 8 ? a : b).getByte(i % (N / 8))); std::istream is(&s); Aeu<N> x = b, y = a; x.readBinary(is, p & 1); y.readBinary(is, p & 2); o.num(x); o.num(y); o.put(is.rdstate()); break; }
#endif
#if defined OPS_GMP
        case 105: o.num(Aeu<N>(w.z)); break;
        case 106: o.num(Aesi<N>(w.z)); break;
        case 107: o.put(a == w.za); o.put(a == w.z); o.put(a == w.z + w.za); break;
        case 108: o.put(sa == w.za); o.put(sa == w.z); o.put(sa == w.za - w.z); break;
#endif
        default: break;
    }
}
}
