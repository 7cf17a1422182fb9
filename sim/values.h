// Generated numbers and the reference view of them (GMP).
#pragma once
#include "core.h"
#include <gmp.h>
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <string>

namespace sim {
// Fills n 32-bit blocks, least significant first. bitsMax limits the magnitude. Choice 0 everywhere gives 0.
inline void genBlocks(u32* b, u32 n, u32 bitsMax) {
    for (u32 i = 0; i < n; ++i) b[i] = 0;
    if (bitsMax > n * 32) bitsMax = n * 32;
    auto setBit = [&](u32 k) { if (k < bitsMax) b[k / 32] |= 1u << (k % 32); };
    auto times = [&](u32 f, u32 plus) { u64 c = plus; for (u32 i = 0; i < n; ++i) { c += static_cast<u64>(b[i]) * f; b[i] = static_cast<u32>(c); c >>= 32; } };
    switch (below(14)) {
        case 0: b[0] = below(17); break;
        case 1: b[0] = word(); break;
        case 2: b[0] = word(); if (n > 1) b[1] = word(); break;
        case 3: { u32 len = below(bitsMax + 1); for (u32 i = 0; i < (len + 31) / 32; ++i) b[i] = word(); if (len % 32 && len) b[len / 32] &= (1u << (len % 32)) - 1; if (len) setBit(len - 1); break; }
        case 4: { u32 len = below(bitsMax + 1); for (u32 i = 0; i < len; ++i) setBit(i); break; }               // 2^k - 1
        case 5: setBit(below(bitsMax)); break;                                                                   // 2^k
        case 6: { setBit(below(bitsMax)); b[0] |= 1; break; }                                                    // 2^k + 1
        case 7: { u32 c = range(1, 6); for (u32 i = 0; i < c; ++i) setBit(below(bitsMax)); break; }               // sparse
        case 8: { for (u32 i = 0; i < (bitsMax + 31) / 32; ++i) switch (below(4)) { case 0: b[i] = 0; break; case 1: b[i] = 0xffffffffu; break; case 2: b[i] = word(); break; default: b[i] = below(2) ? 0x80000000u : 1u; } break; }
        case 9: { const u32 x = below(3) ? word() : below(2) ? 0xffffffffu : 1u << below(32); for (u32 i = 0; i < (bitsMax + 31) / 32; ++i) b[i] = x; break; }   // one block over and over
        case 10: {                                                                                              // decimal digits with runs of zeros and nines: d000...0d, 10^k - 1
            const u32 len = below(bitsMax * 3 / 10 + 1); u32 left = len; while (left > 0) { u32 run = 1 + below(below(3) ? 4 : left < 24 ? left : 24); if (run > left) run = left; const u32 kind = below(4); left -= run; for (; run > 0; --run) times(10, kind == 0 ? 0 : kind == 1 ? 9 : kind == 2 ? 1 : below(10)); } break; }
        case 11: { const u32 base = below(2) ? 10 : range(3, 15); b[0] = below(3) ? 1 : range(1, 9); const u32 most = base == 10 ? bitsMax * 3 / 10 : bitsMax / 4; u32 k = below(most + 1); for (; k > 0; --k) times(base, 0); if (below(3) == 2) { if (below(2)) { for (u32 i = 0; i < n && b[i]-- == 0; ++i) ; } else times(1, 1); } break; }   // d * m^k, and its neighbours
        case 12: {                                                                                              // bytes that mean something in text: ends of lines, blanks, NUL, signs, digits
            static const unsigned char marks[] = {0x0a, 0x0d, 0x20, 0x09, 0x00, 0xff, 0x1a, 0x2d, 0x30, 0x31, 0x78, 0x0b}; const u32 mode = below(3);
            for (u32 i = 0; i < (bitsMax + 31) / 32; ++i) { b[i] = 0; if (mode == 2) { b[i] = marks[below(12)]; continue; } for (u32 k = 0; k < 4; ++k) b[i] |= static_cast<u32>(mode == 0 || below(2) ? marks[below(12)] : below(256)) << 8 * k; } break; }
        default: { for (u32 i = 0; i < (bitsMax + 31) / 32; ++i) b[i] = word(); }
    }
    for (u32 i = 0; i < n; ++i) if (i * 32 >= bitsMax) b[i] = 0; else if (bitsMax - i * 32 < 32) b[i] &= (1u << (bitsMax - i * 32)) - 1;
}
template <size_t N> struct Num { u32 b[N / 32]; bool neg = false;
    bool zero() const { for (u32 x : b) if (x) return false; return true; }
    void toMpz(mpz_t z) const { mpz_import(z, N / 32, -1, 4, 0, 0, b); if (neg) mpz_neg(z, z); } };
template <size_t N> Num<N> genNum(u32 bitsMax = N) { Num<N> v{}; genBlocks(v.b, N / 32, bitsMax); return v; }
// v, made into a near relation of w: equal, a neighbour, another in one block, its complement, shifted, halved, short of its top.
template <size_t N> void relate(Num<N>& v, const Num<N>& w) {
    constexpr u32 n = N / 32; const bool neg = v.neg; v = w; v.neg = neg;
    switch (below(8)) {
        case 0: break;
        case 1: for (u32 i = 0; i < n && ++v.b[i] == 0; ++i) ; break;
        case 2: for (u32 i = 0; i < n && v.b[i]-- == 0; ++i) ; break;
        case 3: v.b[below(n)] = below(2) ? word() : below(3); break;
        case 4: for (u32 i = 0; i < n; ++i) v.b[i] = ~v.b[i]; break;
        case 5: { const u32 k = below(n); for (u32 i = 0; i < n; ++i) v.b[i] = i + k < n ? v.b[i + k] : 0; break; }
        case 6: { for (u32 i = 0; i < n; ++i) v.b[i] = v.b[i] >> 1 | (i + 1 < n ? v.b[i + 1] << 31 : 0); break; }
        default: for (u32 i = n - below(n); i < n; ++i) v.b[i] = 0; }
    if (v.zero()) v.neg = false;
}
template <size_t N> Num<N> genSigned(u32 bitsMax = N) { Num<N> v{}; genBlocks(v.b, N / 32, bitsMax); v.neg = below(2) && !v.zero(); return v; }
// Text in other notations than hexadecimal costs the library a long division per digit: large numbers are mostly short then.
template <size_t N> u32 textBits(bool cheap) { return cheap || N <= 256 ? N : chance(1, N <= 512 ? 8 : 24) ? N : 192; }
template <size_t N> Aeu<N> makeAeu(const Num<N>& v) { Aeu<N> a = 0u; for (size_t i = 0; i < N / 32; ++i) a.setBlock(i, v.b[i]); return a; }
template <size_t N> Aesi<N> makeAesi(const Num<N>& v) { if (v.zero()) return Aesi<N>(0); Aesi<N> s(makeAeu(v)); if (v.neg) s.inverse(); return s; }
template <size_t N> bool sameBlocks(const Aeu<N>& a, const Num<N>& v) { for (size_t i = 0; i < N / 32; ++i) if (a.getBlock(i) != v.b[i]) return false; return true; }
template <size_t N> bool sameSigned(const Aesi<N>& a, const Num<N>& v) {
    if (v.zero()) return a.isZero() && !a.isPositive() && !a.isNegative();
    if (a.isZero() || a.isNegative() != v.neg || a.isPositive() == v.neg) return false;
    for (size_t i = 0; i < N / 32; ++i) if (a.getBlock(i) != v.b[i]) return false; return true; }
template <size_t N> u64 hashAeu(const Aeu<N>& a) { u64 h = 7; for (size_t i = 0; i < N / 32; ++i) h = mix(h ^ a.getBlock(i)); return h; }

// digits of |v| in the notation, lower or upper case, no prefix, no sign
template <size_t N> std::string digits(const Num<N>& v, int base, bool upper) {
    mpz_t z; mpz_init(z); Num<N> t = v; t.neg = false; t.toMpz(z); char* s = mpz_get_str(nullptr, upper ? -base : base, z); std::string r = s; void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(s, r.size() + 1); mpz_clear(z); return r;
}
template <size_t N> std::string hexOf(const Num<N>& v) { return (v.neg ? "-0x" : "0x") + digits(v, 16, false); }
}
