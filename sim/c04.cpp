// C04: text output under device faults, any locale.
#include "streams.h"
using namespace sim;
namespace {
template <class Char> void world() {
    static OutDevice<Char> dev; std::basic_ostream<Char> os(&dev);
    dev.chunkMax = below(3) ? range(1, 9) : 4096;
    os.exceptions(genMask()); if (below(2)) os.imbue(genLocale<Char>());
    const u32 steps = range(1, 6); armOut(dev, 0, BITS / 8 * steps); if (chance(1, 10) && os.exceptions() == std::ios_base::goodbit) dev.failSyncAt = range(1, 6);
    ev("mask", os.exceptions(), dev.chunkMax);
    if (chance(1, 12)) { try { os.setstate(below(2) ? std::ios_base::failbit : std::ios_base::eofbit); } catch (const std::ios_base::failure&) {} }
    for (u32 s = 0; s < steps; ++s) {
        const bool isSigned = below(2);
        if (s == 0 || below(2)) { os.flags(genFlags()); if (chance(1, 4)) os.fill(Char("*0 -x"[below(5)])); if (chance(1, 8)) os.precision(range(0, 9)); if (chance(1, 8)) os.imbue(genLocale<Char>()); }
        const auto f = os.flags(); const u32 bits = textBits<BITS>((f & std::ios_base::basefield) == std::ios_base::hex); const Num<BITS> v = chance(1, 12) ? Num<BITS>{} : isSigned ? genSigned<BITS>(bits) : genNum<BITS>(bits); const std::basic_string<Char> want = widenText<Char>(textOf(v, f));
        const u32 chunk = dev.chunkMax; Char pad = Char(); os.width(0); if (chance(1, 5)) { pad = Char("*_ "[below(3)]); os.fill(pad); os.width(range(1, 40)); stat("ops.insert_with_width"); }
        ev("insert", isSigned, static_cast<u64>(f), pad ? static_cast<u64>(os.width()) : 0); if (tracing) tracef("   insert %s %s flags %x\n", isSigned ? "Aesi" : "Aeu", hexOf(v).c_str(), static_cast<unsigned>(f));
        OutStep<Char> r;
        if (isSigned) { const Aesi<BITS> n = makeAesi(v); r = outStep<Char>(os, dev, want, "insertion of a signed number", [&] { os << n; }, pad); if (!sameSigned(n, v)) violation("number-changed", "the inserted number has changed"); }
        else { const Aeu<BITS> n = makeAeu(v); r = outStep<Char>(os, dev, want, "insertion of an unsigned number", [&] { os << n; }, pad); if (!sameBlocks(n, v)) violation("number-changed", "the inserted number has changed"); }
        stat("ops.insert"); const u64 fs = static_cast<u64>(f & (std::ios_base::basefield | std::ios_base::showbase | std::ios_base::uppercase)) * 2 + isSigned;
        if (r.failures) { stat("ops.interrupted"); nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(fs * 8 + dev.lastKind) ^ mix(r.got)); }
        else if (!r.goodBefore) { stat("ops.on_failed_stream"); nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(991 + fs)); }
        else if (chunk < 10) { nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(fs * 16 + chunk) ^ mix(want.size() * 7)); }
        if (!os.good()) switch (below(3)) { case 0: break; case 1: ev("clear"); stat("recovery.clear"); os.clear(); break; default: ev("heal"); stat("recovery.heal_and_clear"); dev.heal(); os.clear(); break; }
    }
}
void run() { if (below(2)) world<wchar_t>(); else world<char>(); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
