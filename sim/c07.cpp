// C07: conversion into a character buffer whose room runs out anywhere. Buffers end (or begin) at a guard page.
#include "streams.h"
#include <sys/mman.h>
#include <wchar.h>
using namespace sim;
namespace {
constexpr size_t PAGE = 4096, PAGES = 8;
unsigned char* area() {
    static unsigned char* a = nullptr;
    if (!a) { a = static_cast<unsigned char*>(mmap(nullptr, (PAGES + 2) * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (a == MAP_FAILED) harnessError("mmap"); mprotect(a, PAGE, PROT_NONE); mprotect(a + (PAGES + 1) * PAGE, PAGE, PROT_NONE); a += PAGE; }
    return a;
}
template <u32 NOTATION, bool UPPER, class Char, class Number> void convert(const Number& n, const std::string& text, u32 capacity, bool base, bool front, const char* what) {
    unsigned char* const lo = area(); unsigned char* const hi = lo + PAGES * PAGE; const size_t bytes = capacity * sizeof(Char);
    if (bytes + 64 > PAGES * PAGE) harnessError("capacity");
    unsigned char* const buf = front ? lo : hi - bytes;
    memset(lo, 0xA5, PAGES * PAGE);
    shm->msg[0] = 0; snprintf(shm->msg, sizeof shm->msg, "writing %s into %u characters%s (text \"%s\")", what, capacity, base ? " with base" : "", text.c_str());
    Char* const b = reinterpret_cast<Char*>(buf);
    const size_t ret = n.template getString<NOTATION, UPPER>(b, static_cast<size_t>(capacity), base);
    ev("getString", capacity, ret);
    for (unsigned char* p = front ? buf + bytes : lo; p != (front ? hi : buf); ++p) if (*p != 0xA5) violation("outside-buffer", "%s with capacity %u wrote %ld bytes %s its buffer", what, capacity, front ? static_cast<long>(p - (buf + bytes)) + 1 : static_cast<long>(buf - p), front ? "behind" : "before");
    if (ret > capacity) violation("count-exceeds-capacity", "%s with capacity %u returned %zu", what, capacity, ret);
    if (capacity >= 4) {
        size_t len = 0; while (len < capacity && b[len] != Char()) ++len;
        if (len == capacity) violation("not-terminated", "%s with capacity %u: no terminator in \"%s\"", what, capacity, narrow(b, len).c_str());
        bool prefix = len <= text.size(); for (size_t i = 0; prefix && i < len; ++i) prefix = b[i] == static_cast<Char>(text[i]);
        if (!prefix) violation("not-a-prefix", "%s with capacity %u gave \"%s\", which is not a prefix of \"%s\"", what, capacity, narrow(b, len).c_str(), text.c_str());
        if (capacity > text.size() && len != text.size()) violation("cut-though-it-fits", "%s with capacity %u gave \"%s\" instead of \"%s\"", what, capacity, narrow(b, len).c_str(), text.c_str());
        if (capacity <= text.size()) { nontrivial(); stat("fault.buffer_too_small"); } else stat("ops.fits");
    } else { nontrivial(); stat("fault.buffer_tiny"); }
    sig(mix(BITS * 64 + NOTATION) ^ mix(UPPER * 4 + (sizeof(Char) == 4) * 2 + base + 8 * front) ^ mix(capacity * 2000 + text.size()));
}
// A buffer far larger than any text (its pages are never touched): capacities around the limits of narrower counters.
template <u32 NOTATION, bool UPPER, class Char, class Number> void convertVast(const Number& n, const std::string& text, bool base, const char* what) {
    static const u64 limits[] = {1ull << 8, 1ull << 15, 1ull << 16, 1ull << 31, 1ull << 32}; const u64 most = (1ull << 32) + 5000;
    const u64 limit = limits[below(5)]; u64 capacity = limit; switch (below(4)) { case 0: capacity = limit + below(static_cast<u32>(text.size()) + 4); break; case 1: capacity = limit - 1 - below(4); break; case 2: capacity = limit + text.size() + below(3); break; default: break; }
    if (capacity <= text.size() || capacity > most) discard("no such capacity");
    const u64 bytes = (capacity * sizeof(Char) + PAGE - 1) / PAGE * PAGE;
    unsigned char* a = static_cast<unsigned char*>(mmap(nullptr, bytes + 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (a == MAP_FAILED) discard("no address space for a vast buffer");
    mprotect(a, PAGE, PROT_NONE); mprotect(a + PAGE + bytes, PAGE, PROT_NONE);
    Char* const b = reinterpret_cast<Char*>(a + PAGE); memset(b, 0xA5, PAGE);
    snprintf(shm->msg, sizeof shm->msg, "writing %s into %llu characters (text \"%s\")", what, static_cast<unsigned long long>(capacity), text.c_str());
    const size_t ret = n.template getString<NOTATION, UPPER>(b, static_cast<size_t>(capacity), base); ev("getString", capacity, ret);
    if (ret > capacity) violation("count-exceeds-capacity", "%s with capacity %llu returned %zu", what, static_cast<unsigned long long>(capacity), ret);
    size_t len = 0; while (len < text.size() + 8 && len < capacity && b[len] != Char()) ++len;
    bool same = len == text.size(); for (size_t i = 0; same && i < len; ++i) same = b[i] == static_cast<Char>(text[i]);
    if (!same) violation("cut-though-it-fits", "%s with capacity %llu gave \"%s\" instead of \"%s\"", what, static_cast<unsigned long long>(capacity), narrow(b, len).c_str(), text.c_str());
    munmap(a, bytes + 2 * PAGE); stat("ops.vast_buffers"); sig(mix(BITS * 64 + NOTATION) ^ mix(UPPER * 4 + (sizeof(Char) == 4) * 2 + base) ^ mix(capacity));
}
template <u32 NOTATION, bool UPPER, class Char> void world() {
    const bool isSigned = below(2), base = below(2); const u32 bits = textBits<BITS>(NOTATION == 16);
    const Num<BITS> v = isSigned ? genSigned<BITS>(bits) : genNum<BITS>(bits);
    std::string text = v.neg ? "-" : ""; if (base && NOTATION != 10) text += NOTATION == 2 ? "0b" : NOTATION == 8 ? "0o" : "0x"; text += digits(v, NOTATION, UPPER);
    char what[96]; snprintf(what, sizeof what, "getString<%u%s> of %s<%u> to %s", NOTATION, UPPER ? ", true" : "", isSigned ? "Aesi" : "Aeu", static_cast<unsigned>(BITS), sizeof(Char) == 4 ? "wchar_t" : "char");
    if (tracing) tracef("%s: %s, text \"%s\"\n", what, hexOf(v).c_str(), text.c_str());
    const u32 full = static_cast<u32>(text.size()); const Aeu<BITS> n = makeAeu(v); const Aesi<BITS> sn = makeAesi(v);
    auto one = [&](u32 capacity, bool front) { if (isSigned) convert<NOTATION, UPPER, Char>(sn, text, capacity, base, front, what); else convert<NOTATION, UPPER, Char>(n, text, capacity, base, front, what);
        if (!sameBlocks(n, v) || !sameSigned(sn, v)) violation("number-changed", "%s changed the number", what); };
    if (chance(1, 12)) { if (isSigned) convertVast<NOTATION, UPPER, Char>(sn, text, base, what); else convertVast<NOTATION, UPPER, Char>(n, text, base, what); return; }
    if ((full <= 24 || NOTATION == 16) && full < 80) { stat("sweeps.every_capacity"); const bool front = below(2); for (u32 c = 0; c <= full + 3; ++c) one(c, front); }
    else { u32 k = range(1, 6); if (BITS > 2000 && NOTATION != 16 && bits > 192 && k > 2) k = 2;      // such conversions take seconds
        for (u32 i = 0; i < k; ++i) { u32 c = below(3) == 0 ? full + below(4) - 1 : below(5) == 0 ? below(6) : below(full + 3); one(c, below(2)); } }
}
template <u32 NOTATION, class Char> void notation() { if (below(4) == 3) world<NOTATION, true, Char>(); else world<NOTATION, false, Char>(); }
template <class Char> void width() { switch (below(4)) { case 0: notation<16, Char>(); break; case 1: notation<10, Char>(); break; case 2: notation<8, Char>(); break; default: notation<2, Char>(); } }
void run() { if (below(2)) width<wchar_t>(); else width<char>(); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
