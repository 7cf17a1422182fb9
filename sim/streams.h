// Shared by the stream worlds: text oracle, output-step oracle.
#pragma once
#include "values.h"
#include "device.h"
#include <ostream>
#include <istream>
#include <sstream>
#include <locale>
#include <string>
#include <exception>

namespace sim {
template <class Char> std::basic_string<Char> widenText(const std::string& s) { return std::basic_string<Char>(s.begin(), s.end()); }
template <class Char> std::string narrow(const Char* s, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) { u32 c = static_cast<u32>(s[i]); if (c < 128 && c >= 32) r += static_cast<char>(c); else { char b[16]; snprintf(b, sizeof b, "\\x%x", c); r += b; } } return r; }

// The text the documentation promises for a number under these format flags.
template <size_t N> std::string textOf(const Num<N>& v, std::ios_base::fmtflags f) {
    auto bf = f & std::ios_base::basefield; int base = bf == std::ios_base::hex ? 16 : bf == std::ios_base::oct ? 8 : 10;
    std::string s; if (v.neg) s += '-'; if ((f & std::ios_base::showbase) && base != 10) s += base == 8 ? "0o" : "0x";
    return s + digits(v, base, (f & std::ios_base::uppercase) != 0);
}

template <class Char> struct GroupPunct final : std::numpunct<Char> {
    std::string g; Char sep; GroupPunct(std::string gr, Char s) : g(std::move(gr)), sep(s) {}
    std::string do_grouping() const override { return g; } Char do_thousands_sep() const override { return sep; } Char do_decimal_point() const override { return Char(','); }
};
template <class Char> std::locale genLocale() {
    static const char* const groups[] = {"\3", "\1", "\4", "\2\3", "\7"}; static const char seps[] = {',', '.', '\'', '0', '-'};
    u32 k = below(8); if (k == 0) return std::locale::classic(); if (k == 1) { try { return std::locale("C.utf8"); } catch (const std::runtime_error&) { return std::locale::classic(); } }
    u32 g = below(5), s = below(5); return std::locale(std::locale::classic(), new GroupPunct<Char>(groups[g], Char(seps[s])));
}
inline std::ios_base::fmtflags genFlags() {
    using I = std::ios_base; I::fmtflags f = I::skipws;
    switch (below(6)) { case 0: f |= I::dec; break; case 1: case 2: f |= I::hex; break; case 3: f |= I::oct; break; case 4: f |= I::hex | I::uppercase; break; default: if (below(4) == 0) f |= I::hex | I::dec; break; }
    if (below(2)) f |= I::showbase; if (chance(1, 4)) f |= I::uppercase; if (chance(1, 6)) f |= I::showpos; if (chance(1, 6)) f |= I::boolalpha; if (chance(1, 8)) f |= I::unitbuf;
    switch (below(5)) { case 1: f |= I::left; break; case 2: f |= I::right; break; case 3: f |= I::internal; break; default: break; }
    if (chance(1, 8)) f |= I::scientific; if (chance(1, 8)) f |= I::showpoint;
    return f;
}
inline std::ios_base::iostate genMask() { switch (below(8)) { case 4: return std::ios_base::badbit; case 5: return std::ios_base::failbit; case 6: return std::ios_base::badbit | std::ios_base::failbit; case 7: return std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit; default: return std::ios_base::goodbit; } }

// A wide stream cannot carry the character that equals its end-of-file value.
template <class Char, size_t N> Num<N> carriable(Num<N> v) { if (sizeof(Char) == 4) for (u32& x : v.b) if (x == 0xffffffffu) x = 0xfffffffeu; return v; }

// How an operation came back.
enum Back : u32 { Returned = 0, OwnRuntime, OwnInt, IosFailure, BadAlloc, Other };
inline const char* backName(u32 b) { static const char* n[] = {"returned", "device error", "int", "ios_base::failure", "bad_alloc", "another exception"}; return n[b]; }
template <class F> Back attempt(F&& f) {
    try { f(); return Returned; } catch (const DeviceError&) { return OwnRuntime; } catch (int v) { return v == 77 ? OwnInt : Other; }
    catch (const std::ios_base::failure&) { return IosFailure; } catch (const std::bad_alloc&) { return BadAlloc; } catch (...) { return Other; }
}

// One output step against the device; pad: the fill character if a field width is set. want is the complete text.
template <class Char> struct OutStep { bool goodBefore, complete; size_t got; Back back; u64 failures; };
template <class Char, class F> OutStep<Char> outStep(std::basic_ostream<Char>& os, OutDevice<Char>& dev, const std::basic_string<Char>& want, const char* what, F&& op, Char pad = Char()) {
    OutStep<Char> r; r.goodBefore = os.good(); const size_t a0 = dev.accepted(); const u64 c0 = dev.calls, f0 = dev.failures; dev.failures = 0; (void)f0;
    r.back = attempt(op);
    const size_t a1 = dev.accepted(); r.got = a1 - a0; r.failures = dev.failures;
    ev(what, r.goodBefore, r.got, want.size(), r.back, os.rdstate(), r.failures);
    if (tracing) tracef("   wanted \"%s\" device got \"%s\"\n", narrow(want.data(), want.size()).c_str(), narrow(dev.store + a0, r.got).c_str());
    if (!r.goodBefore) {
        if (r.got) violation("sent-on-failed-stream", "%s: %zu characters reached the device of a stream that was not good", what, r.got);
        if (os.good()) violation("failure-forgotten", "%s: a stream that was not good became good", what);
        r.complete = false; return r;
    }
    // Padding up to a field width the user had set does not count as text: where it goes is the stream's business.
    std::basic_string<Char> text(dev.store + a0, r.got); if (pad != Char()) { text.clear(); for (size_t i = 0; i < r.got; ++i) if (dev.store[a0 + i] != pad) text += dev.store[a0 + i]; }
    auto prefix = [&](const std::basic_string<Char>& t) { return text.size() <= t.size() && t.compare(0, text.size(), text) == 0; };
    const bool pw = prefix(want);
    if (!pw) violation("wrong-characters", "%s: device got \"%s\", which is not a prefix of \"%s\"", what, narrow(dev.store + a0, r.got).c_str(), narrow(want.data(), want.size()).c_str());
    r.complete = text.size() == want.size();
    if (os.good() && !r.complete) violation("good-but-incomplete", "%s: the stream is good but only \"%s\" of \"%s\" arrived", what, narrow(dev.store + a0, r.got).c_str(), narrow(want.data(), want.size()).c_str());
    if (r.failures == 0) {
        if (!r.complete) violation("incomplete", "%s: no device failure, but only \"%s\" of \"%s\" arrived", what, narrow(dev.store + a0, r.got).c_str(), narrow(want.data(), want.size()).c_str());
        if (!os.good()) violation("spurious-failure", "%s: no device failure, but the stream state is %d", what, static_cast<int>(os.rdstate()));
        if (r.back != Returned) violation("spurious-exception", "%s: no device failure, but it ended with %s", what, backName(r.back));
    } else if (a1 != dev.acceptedAtFailure) violation("sent-after-failure", "%s: %zu more characters were sent after the device had failed", what, a1 - dev.acceptedAtFailure);
    if (dev.calls - c0 > 16 * want.size() + 256) violation("no-progress", "%s: %llu device calls for %zu characters", what, static_cast<unsigned long long>(dev.calls - c0), want.size());
    return r;
}
template <class Char> void armOut(OutDevice<Char>& dev, size_t around, size_t spread) {
    // Fault points near what the next operations will write. Sorted by construction.
    u32 n = below(4); size_t at = around; 
    for (u32 i = 0; i < n; ++i) { at += below(static_cast<u32>(spread) + 1); u32 k = below(FaultKinds); dev.arm(at, k); ev("arm", at, k); ++at; }
}
}
