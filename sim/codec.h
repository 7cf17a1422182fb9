// Every way the library offers to turn a number into characters and back.
#pragma once
#include "values.h"
#include <gmpxx.h>
#include <ostream>
#include <istream>
#include <streambuf>
#include <string>
#include <string_view>

namespace sim {
template <class T> constexpr bool isSigned = false; template <size_t N> constexpr bool isSigned<Aesi<N>> = true;
constexpr u32 Codecs = 19;
const char* const codecName[Codecs] = {"codec.binary_big", "codec.binary_little", "codec.wide_binary_big", "codec.wide_binary_little", "codec.stream_dec", "codec.stream_oct", "codec.stream_hex", "codec.wide_stream_dec", "codec.wide_stream_oct", "codec.wide_stream_hex", "codec.buffer_bin", "codec.buffer_oct", "codec.buffer_dec", "codec.buffer_hex", "codec.wide_buffer_bin", "codec.wide_buffer_oct", "codec.wide_buffer_dec", "codec.wide_buffer_hex", "codec.gmp"};
template <class Char> struct Mem final : std::basic_streambuf<Char> { Char* b; size_t n = 0, cap; Mem(Char* p, size_t c) : b(p), cap(c) {}
    std::streamsize xsputn(const Char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k && n < cap; ++i) b[n++] = s[i]; return k; }
    typename std::basic_streambuf<Char>::int_type overflow(typename std::basic_streambuf<Char>::int_type c) override { if (n < cap) b[n++] = static_cast<Char>(c); return c; } };
template <class Char> struct MemIn final : std::basic_streambuf<Char> { MemIn(Char* p, size_t n) { this->setg(p, p, p + n); } };
inline u32 effective(u32 codec, bool cheap, bool carriable, u32 bits) { if (bits > 256 && !cheap) { switch (codec) { case 4: case 5: codec = 6; break; case 7: case 8: codec = 9; break; case 10: case 11: case 12: codec = 13; break; case 14: case 15: case 16: codec = 17; break; default: break; } } if (!carriable && (codec == 2 || codec == 3)) codec -= 2; return codec; }
template <size_t N> const Aeu<N>& magnitude(const Aeu<N>& v) { return v; }
template <size_t N> Aeu<N> magnitude(const Aesi<N>& v) { return v.unsignedCast(); }
template <class T, size_t N> u32 encode(const T& v, u32 codec, u32 how, unsigned char* out) {    // codec byte, sign byte, payload
    static char cb[4 * N]; static wchar_t wb[4 * N]; size_t n = 0; bool wide = false; constexpr bool sg = isSigned<T>; unsigned char sign = 0;
    if constexpr (sg) sign = v.isZero() ? 0 : v.isNegative() ? 2 : 1;
    if (codec < 4) { const auto m = magnitude(v); if (codec < 2) { Mem<char> b(cb, sizeof cb); std::ostream os(&b); m.writeBinary(os, codec == 0); n = b.n; } else { wide = true; Mem<wchar_t> b(wb, 4 * N); std::wostream os(&b); m.writeBinary(os, codec == 2); n = b.n; } }
    else if (codec < 7) { Mem<char> b(cb, sizeof cb); std::ostream os(&b); if (how & 1) os << std::uppercase; os << std::showbase; if (codec == 5) os << std::oct; else if (codec == 6) os << std::hex; os << v; n = b.n; }
    else if (codec < 10) { wide = true; Mem<wchar_t> b(wb, 4 * N); std::wostream os(&b); if (how & 1) os << std::uppercase; os << std::showbase; if (codec == 8) os << std::oct; else if (codec == 9) os << std::hex; os << v; n = b.n; }
    else if (codec < 14) { switch (codec) { case 10: n = v.template getString<2>(cb, sizeof cb, true); break; case 11: n = v.template getString<8>(cb, sizeof cb, true); break; case 12: n = v.template getString<10>(cb, sizeof cb); break; default: n = how & 1 ? v.template getString<16, true>(cb, sizeof cb, true) : v.template getString<16>(cb, sizeof cb, true); } }
    else if (codec < 18) { wide = true; switch (codec) { case 14: n = v.template getString<2>(wb, 4 * N, true); break; case 15: n = v.template getString<8>(wb, 4 * N, true); break; case 16: n = v.template getString<10>(wb, 4 * N); break; default: n = how & 1 ? v.template getString<16, true>(wb, 4 * N, true) : v.template getString<16>(wb, 4 * N, true); } }
    else { n = v.template getString<16>(cb, sizeof cb, true); }
    if (codec >= 10 && n && (wide ? wb[n - 1] == 0 : cb[n - 1] == 0) && (codec == 18 || (how & 8) == 0)) --n;      // the buffer forms count their terminator; a program may save it along with the digits
    out[0] = static_cast<unsigned char>(codec); out[1] = sign; u32 bytes = static_cast<u32>(wide ? n * sizeof(wchar_t) : n); memcpy(out + 2, &bytes, 4); memcpy(out + 6, wide ? static_cast<void*>(wb) : cb, bytes); return 6 + bytes;
}
template <class T, class Char> T fromText(const Char* p, size_t n, u32 how) { switch (how >> 1 & 3) { case 0: { std::basic_string<Char> s(p, n); return T(s); } case 1: { std::basic_string_view<Char> s(p, n); return T(s); } case 2: return T(p, n); default: { static Char array[4200]; for (size_t i = 0; i < 4200; ++i) array[i] = i < n ? p[i] : Char(0); if (n > 4200) return T(p, n); if (n < 90) { Char small[90]; memcpy(small, array, sizeof small); return T(small); } return T(array); } } }   // an array: the number, then zeros
template <class T, size_t N> u32 decode(T& v, u32 how, const unsigned char* in) {
    const u32 codec = in[0], sign = in[1]; u32 bytes; memcpy(&bytes, in + 2, 4); static char cb[8 * N]; static wchar_t wb[4 * N]; if (bytes > 8 * N) violation("save-too-long", "a save of a %zu-bit number takes %u bytes", N, bytes); memcpy(cb, in + 6, bytes); memcpy(wb, in + 6, bytes); const size_t wn = bytes / sizeof(wchar_t);
    if (codec < 4) { Aeu<N> m; if (codec < 2) { MemIn<char> b(cb, bytes); std::istream is(&b); m.readBinary(is, codec == 0); } else { MemIn<wchar_t> b(wb, wn); std::wistream is(&b); m.readBinary(is, codec == 2); }
        if constexpr (isSigned<T>) { v = T(m); if (sign == 2) v.inverse(); } else v = m; }
    else if (codec == 18) { std::string t(cb, bytes); const bool neg = !t.empty() && t[0] == '-'; mpz_class z(t.substr((neg ? 1 : 0) + (t.find("0x") != std::string::npos ? 2 : 0)), 16); if (neg) z = -z; v = T(z); }
    else if (codec < 7 || (codec >= 10 && codec < 14)) v = fromText<T>(cb, bytes, how); else v = fromText<T>(wb, wn, how);
    return 6 + bytes;
}
}
