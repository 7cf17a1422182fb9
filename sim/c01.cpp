// C01: binary output under device faults.
#include "streams.h"
using namespace sim;
namespace {
template <class Char> void world() {
    const size_t units = BITS / 8 / sizeof(Char);
    static OutDevice<Char> dev; std::basic_ostream<Char> os(&dev);
    dev.chunkMax = below(3) ? range(1, 9) : 4096;
    os.exceptions(genMask()); ev("mask", os.exceptions(), dev.chunkMax);
    if (chance(1, 6)) { os.flags(std::ios_base::unitbuf | genFlags()); if (below(2) && os.exceptions() == std::ios_base::goodbit) dev.failSyncAt = range(1, 3); }
    const u32 steps = range(1, 6); armOut(dev, 0, units * steps);
    if (chance(1, 12)) { try { os.setstate(below(2) ? std::ios_base::failbit : std::ios_base::eofbit); } catch (const std::ios_base::failure&) {} }
    for (u32 s = 0; s < steps; ++s) {
        const bool be = !below(2); const Num<BITS> v = carriable<Char>(genNum<BITS>()); const Aeu<BITS> n = makeAeu(v);
        std::basic_string<Char> want(units, Char());
        for (size_t i = 0; i < BITS / 32; ++i) memcpy(reinterpret_cast<char*>(want.data()) + i * 4, &v.b[be ? BITS / 32 - 1 - i : i], 4);
        const size_t a0 = dev.accepted(); const u32 chunk = dev.chunkMax;
        if (tracing) tracef("write %s %s-endian\n", hexOf(v).c_str(), be ? "big" : "little");
        const bool defaulted = be && chance(1, 3);
        auto r = outStep<Char>(os, dev, want, "writeBinary", [&] { if (defaulted) n.writeBinary(os); else n.writeBinary(os, be); });
        if (!sameBlocks(n, v)) violation("number-changed", "the number that was written has changed");
        stat("ops.writeBinary"); if (r.failures) { stat("ops.interrupted"); nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(be * 97 + dev.lastKind) ^ mix(r.got * 131 + (chunk < 10 ? chunk : 10))); }
        else if (!r.goodBefore) { stat("ops.on_failed_stream"); nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(991 + be)); }
        else if (chunk < 10) { nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(555 + be * 16 + chunk) ^ mix(a0 % 4)); }
        if (!os.good()) switch (below(3)) { case 0: break; case 1: ev("clear"); stat("recovery.clear"); os.clear(); break; default: ev("heal"); stat("recovery.heal_and_clear"); dev.heal(); os.clear(); break; }
    }
}
void run() { if (below(4) == 3) world<wchar_t>(); else world<char>(); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("Aeu" STR(BITS), run, WEIGHT);
}
