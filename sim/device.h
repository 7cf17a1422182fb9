// Simulated devices behind std::basic_streambuf: the "disk and network" of stream operations.
// Nothing here allocates, so the same devices serve the out-of-memory world.
#pragma once
#include "core.h"
#include <streambuf>
#include <ios>
#include <new>
#include <stdexcept>

namespace sim {
enum Fault : u32 { Refuse = 0, RefuseForever, ThrowRuntime, ThrowInt, ThrowFailure, ThrowBadAlloc, FaultKinds };
inline const char* faultName(u32 k) { static const char* n[] = {"refuse_once", "refuse_until_healed", "throw_runtime_error", "throw_int", "throw_ios_failure", "throw_bad_alloc"}; return n[k]; }
struct DeviceError : std::runtime_error { DeviceError() : std::runtime_error("simulated device") {} };
[[noreturn]] inline void throwFault(u32 k) { switch (k) { case ThrowRuntime: throw DeviceError(); case ThrowInt: throw 77; case ThrowFailure: throw std::ios_base::failure("simulated"); default: throw std::bad_alloc(); } }

struct FaultPoint { size_t at; u32 kind; };

// Output: characters accepted so far are store[0..accepted()). The put area never reaches past the next fault point.
template <class Char> struct OutDevice final : std::basic_streambuf<Char> {
    using B = std::basic_streambuf<Char>; using Tr = std::char_traits<Char>; using I = typename B::int_type;
    static constexpr size_t CAP = 1 << 15;
    Char store[CAP]; size_t base = 0; FaultPoint fp[8]; u32 nfp = 0, cur = 0; u32 chunkMax = 0; bool whole = false;
    u64 calls = 0, failures = 0, syncs = 0; size_t acceptedAtFailure = 0; u32 lastKind = 0; u64 failSyncAt = ~0ull; bool stuck = false;
    void (*callback)(void*) = nullptr; void* cbArg = nullptr;        // a stream buffer that itself does work
    OutDevice() { this->setp(store, store); }
    void armNext(size_t from, u32 kind) { nfp = cur = 0; size_t a = accepted(); this->setp(store + a, store + a); arm(a + from, kind); }       // forgets the points passed
    size_t accepted() const { return static_cast<size_t>(this->pptr() - store); }
    size_t limit() const { return cur < nfp ? fp[cur].at : CAP; }
    void arm(size_t at, u32 kind) { if (nfp < 8) { fp[nfp].at = at; fp[nfp].kind = kind; ++nfp; } }
    void heal() { cur = nfp; stuck = false; failSyncAt = ~0ull; size_t a = accepted(); this->setp(store + a, store + a); }
    void note(u32 k) { if (!failures) acceptedAtFailure = accepted(); ++failures; lastKind = k; stat(faultStat(k)); }
    static const char* faultStat(u32 k) { static const char* n[] = {"fault.refuse_once", "fault.refuse_until_healed", "fault.throw_runtime_error", "fault.throw_int", "fault.throw_ios_failure", "fault.throw_bad_alloc"}; return n[k]; }
    // true: room for at least one more character
    bool room() {
        ++calls; if (callback) callback(cbArg);
        if (calls > (1u << 20)) violation("no-progress", "device called more than 2^20 times by one run");
        size_t a = accepted();
        if (a >= CAP) harnessError("device store exhausted");
        if (a == limit()) { u32 k = fp[cur].kind; if (k != RefuseForever) ++cur; note(k); ev("device-fault", k, a); if (k > RefuseForever) throwFault(k); return false; }
        size_t end = a + 1 + (chunkMax ? below(chunkMax) : 0); if (end > limit()) end = limit(); if (end > CAP) end = CAP;
        this->setp(store + a, store + end); return true;
    }
    I overflow(I c) override {
        if (this->pptr() < this->epptr()) { if (!Tr::eq_int_type(c, Tr::eof())) { *this->pptr() = Tr::to_char_type(c); this->pbump(1); } return Tr::not_eof(c); }
        if (!room()) return Tr::eof();
        if (!Tr::eq_int_type(c, Tr::eof())) { *this->pptr() = Tr::to_char_type(c); this->pbump(1); }
        return Tr::not_eof(c);
    }
    std::streamsize xsputn(const Char* s, std::streamsize n) override {
        std::streamsize done = 0;
        while (done < n) { size_t r = static_cast<size_t>(this->epptr() - this->pptr()); if (!r) { if (!room()) break; continue; } size_t k = static_cast<size_t>(n - done) < r ? static_cast<size_t>(n - done) : r; for (size_t i = 0; i < k; ++i) this->pptr()[i] = s[done + static_cast<std::streamsize>(i)]; this->pbump(static_cast<int>(k)); done += static_cast<std::streamsize>(k); }
        return done;
    }
    int sync() override { ++calls; if (callback) callback(cbArg); if (++syncs == failSyncAt) { if (!failures) acceptedAtFailure = accepted(); ++failures; lastKind = Refuse; stat("fault.sync_failed"); ev("device-sync-fault", accepted()); return -1; } return 0; }
};

// Input: src[0..len) delivered in chunks; at a fault point the device ends (once or for good) or throws.
template <class Char> struct InDevice final : std::basic_streambuf<Char> {
    using B = std::basic_streambuf<Char>; using Tr = std::char_traits<Char>; using I = typename B::int_type;
    static constexpr size_t CAP = 1 << 15;
    Char src[CAP]; size_t len = 0; FaultPoint fp[8]; u32 nfp = 0, cur = 0; u32 chunkMax = 0; u64 calls = 0, failures = 0; u32 lastKind = 0; bool threw = false;
    void (*callback)(void*) = nullptr; void* cbArg = nullptr; u32 promise = 0;     // what the device says it has: nothing known, none, the truth, or more than it will deliver
    InDevice() { this->setg(src, src, src); }
    size_t pos() const { return static_cast<size_t>(this->gptr() - src); }
    size_t limit() const { return cur < nfp && fp[cur].at < len ? fp[cur].at : len; }
    void arm(size_t at, u32 kind) { if (nfp < 8) { fp[nfp].at = at; fp[nfp].kind = kind; ++nfp; } }
    void rewindTo(size_t p) { cur = nfp; this->setg(src, src + p, src + p); }
    std::streamsize showmanyc() override { ++calls; switch (promise) { case 0: return 0; case 1: return -1; case 2: return static_cast<std::streamsize>(limit() - pos()); case 3: return static_cast<std::streamsize>(len - pos()); default: return 1 << 16; } }
    bool fill() {
        ++calls; if (callback) callback(cbArg);
        if (calls > (1u << 20)) violation("no-progress", "device called more than 2^20 times by one run");
        size_t p = pos();
        if (p == limit()) {
            u32 k = RefuseForever; if (cur < nfp && fp[cur].at == p) { k = fp[cur].kind; if (k != RefuseForever) ++cur; }
            ++failures; lastKind = k; stat(k == Refuse ? "fault.eof_once" : k == RefuseForever ? "fault.eof" : OutDevice<Char>::faultStat(k)); ev("device-in-fault", k, p);
            if (k > RefuseForever) { threw = true; throwFault(k); } return false; }
        size_t end = p + 1 + (chunkMax ? below(chunkMax) : 0); if (end > limit()) end = limit();
        this->setg(src, src + p, src + end); return true;
    }
    I underflow() override { if (this->gptr() < this->egptr()) return Tr::to_int_type(*this->gptr()); return fill() ? Tr::to_int_type(*this->gptr()) : Tr::eof(); }
};
}
