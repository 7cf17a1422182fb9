// C02: binary input under chunking, early end and device errors.
#include "streams.h"
using namespace sim;
namespace {
template <class Char> void world() {
    const size_t units = BITS / 8 / sizeof(Char);
    static InDevice<Char> dev; std::basic_istream<Char> is(&dev);
    const u32 steps = range(1, 6);
    // The device holds what a writer of these numbers produced, possibly cut short, followed by other data.
    u32 held = range(1, steps); size_t total = 0; std::basic_string<Char> content;
    for (u32 i = 0; i < held; ++i) { Num<BITS> v = carriable<Char>(genNum<BITS>()); std::basic_string<Char> t(units, Char()); memcpy(t.data(), v.b, BITS / 8); content += t; }
    if (chance(1, 2)) content.resize(below(static_cast<u32>(content.size()) + 1));
    if (chance(1, 2)) { u32 extra = below(40); for (u32 i = 0; i < extra; ++i) content += static_cast<Char>(word() & 0x7fffffffu); }
    total = content.size(); memcpy(dev.src, content.data(), total * sizeof(Char)); dev.len = total;
    dev.chunkMax = below(3) ? range(1, 9) : 4096;
    dev.promise = below(5);
    { u32 n = below(4); size_t at = 0; for (u32 i = 0; i < n; ++i) { at += below(static_cast<u32>(total) + 1); u32 k = below(FaultKinds); dev.arm(at, k); ev("arm", at, k); ++at; } }
    try { is.exceptions(genMask()); } catch (const std::ios_base::failure&) {}
    ev("mask", is.exceptions(), dev.chunkMax, total);
    if (chance(1, 12)) { try { is.setstate(below(2) ? std::ios_base::failbit : std::ios_base::eofbit); } catch (const std::ios_base::failure&) {} }
    for (u32 s = 0; s < steps; ++s) {
        const bool be = !below(2); const Num<BITS> old = genNum<BITS>(); Aeu<BITS> n = makeAeu(old);
        const bool good = is.good(); const size_t p0 = dev.pos(); const u64 c0 = dev.calls; dev.failures = 0; dev.threw = false;
        const bool defaulted = be && chance(1, 3);
        const Back back = attempt([&] { if (defaulted) n.readBinary(is); else n.readBinary(is, be); });
        const size_t got = dev.pos() - p0;
        ev("readBinary", be, good, p0, got, back, is.rdstate(), dev.failures); stat("ops.readBinary");
        auto valueFor = [&](size_t delivered) { Num<BITS> w{}; unsigned char raw[BITS / 8] = {}; memcpy(raw, dev.src + p0, delivered * sizeof(Char)); for (size_t i = 0; i < BITS / 32; ++i) memcpy(&w.b[be ? BITS / 32 - 1 - i : i], raw + i * 4, 4); return w; };
        if (tracing) { std::string now; for (size_t i = BITS / 32; i-- > 0;) { char b[12]; snprintf(b, sizeof b, "%08x", n.getBlock(i)); now += b; } tracef("   object held %s, now %s\n", hexOf(old).c_str(), now.c_str()); }
        if (got > units) violation("took-too-much", "%zu characters consumed for a number of %zu", got, units);
        if (!good) {
            if (got) violation("took-from-failed-stream", "%zu characters consumed from a stream that was not good", got);
            if (is.good()) violation("failure-forgotten", "a stream that was not good became good");
            if (!sameBlocks(n, valueFor(0))) violation("not-zero-filled", "nothing was delivered, but the number is not zero");
        } else if (!dev.failures) {
            if (got != units) violation("consumed-wrong", "%zu of %zu characters consumed though the device had not failed", got, units);
            if (!is.good() || back != Returned) violation("spurious-failure", "the device delivered everything, but the stream state is %d and the call %s", static_cast<int>(is.rdstate()), backName(back));
            if (!sameBlocks(n, valueFor(units))) violation("wrong-value", "the number is not the bytes delivered");
        } else {
            if (is.good()) violation("failure-unreported", "the device failed after %zu of %zu characters but the stream is good", got, units);
            if (!dev.threw && !is.fail()) violation("failure-unreported", "the device ended after %zu of %zu characters but fail() is false", got, units);
            if (!dev.threw) { if (!sameBlocks(n, valueFor(got))) violation("wrong-partial-value", "%zu of %zu characters were delivered, but the number is not those followed by zeros", got, units); }
            else { bool ok = false; for (size_t d = 0; d <= got && !ok; ++d) ok = sameBlocks(n, valueFor(d)); if (!ok) violation("wrong-partial-value", "the device threw after %zu of %zu characters, but the number is no prefix of those followed by zeros", got, units); }
        }
        if (dev.calls - c0 > 16 * units + 256) violation("no-progress", "%llu device calls for one number", static_cast<unsigned long long>(dev.calls - c0));
        if (dev.failures) { stat("ops.interrupted"); nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(be * 97 + dev.lastKind) ^ mix(got * 131 + (dev.chunkMax < 10 ? dev.chunkMax : 10))); }
        else if (!good) { nontrivial(); stat("ops.on_failed_stream"); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(991 + be)); }
        else if (dev.chunkMax < 10) { nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(555 + be * 16 + dev.chunkMax)); }
        if (!is.good()) { u32 k = below(4); if (k == 1 || k == 2) { ev("clear"); stat("recovery.clear"); is.clear(); } else if (k == 3) { size_t p = below(static_cast<u32>(dev.pos()) + 1); ev("rewind", p); stat("recovery.rewind"); dev.rewindTo(p); is.clear(); } }
    }
}
void run() { if (below(4) == 3) world<wchar_t>(); else world<char>(); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("Aeu" STR(BITS), run, WEIGHT);
}
