// C05: formatting state of a stream over histories of insertions, manipulators, failures and clears.
#include "streams.h"
#include <iomanip>
using namespace sim;
namespace {
template <class Char> struct User { std::ios_base::fmtflags flags; Char fill; std::streamsize precision, width; std::locale loc; std::ios_base::iostate mask; };
template <class Char> void world() {
    static OutDevice<Char> dev; static OutDevice<Char> tiedDev; std::basic_ostream<Char> tied(&tiedDev); std::basic_ostream<Char> os(&dev);
    dev.chunkMax = below(3) ? range(1, 9) : 4096; const bool tie = chance(1, 5); if (tie) os.tie(&tied);
    os.exceptions(genMask()); const u32 steps = range(2, 24); armOut(dev, 0, 40 * steps); if (chance(1, 10) && os.exceptions() == std::ios_base::goodbit) dev.failSyncAt = range(1, 6);
    User<Char> u{os.flags(), os.fill(), os.precision(), 0, os.getloc(), os.exceptions()};
    ev("start", u.mask, dev.chunkMax, steps); u32 numbers = 0, faults = 0;
    for (u32 s = 0; s < steps; ++s) {
        switch (below(5)) {
        case 0: {        // the user formats
            switch (below(9)) {
                case 0: u.flags = genFlags(); os.flags(u.flags); ev("flags", static_cast<u64>(u.flags)); break;
                case 1: u.fill = Char("*0 -x#"[below(6)]); os.fill(u.fill); ev("fill", u.fill); break;
                case 2: u.precision = range(0, 12); os.precision(u.precision); ev("precision", u.precision); break;
                case 3: u.loc = genLocale<Char>(); os.imbue(u.loc); ev("imbue"); break;
                case 4: u.width = range(1, 40); os.width(u.width); ev("width", u.width); break;
                case 5: os << std::hex << std::showbase; u.flags = (u.flags & ~std::ios_base::basefield) | std::ios_base::hex | std::ios_base::showbase; ev("hex showbase"); break;
                case 6: os << std::oct << std::uppercase; u.flags = (u.flags & ~std::ios_base::basefield) | std::ios_base::oct | std::ios_base::uppercase; ev("oct uppercase"); break;
                case 7: os << std::left; u.flags = (u.flags & ~std::ios_base::adjustfield) | std::ios_base::left; ev("left"); break;
                default: os << std::dec << std::internal; u.flags = (u.flags & ~(std::ios_base::basefield | std::ios_base::adjustfield)) | std::ios_base::dec | std::ios_base::internal; ev("dec internal"); break;
            } break; }
        case 1: {        // the user prints something else: it must look as the user's settings say
            std::basic_ostringstream<Char> ref; ref.flags(u.flags); ref.fill(u.fill); ref.precision(u.precision); ref.width(u.width); ref.imbue(u.loc);
            const bool good = os.good(); const size_t a0 = dev.accepted(); dev.failures = 0; u32 kind = below(3); long iv = static_cast<long>(word()) - 1000; double dv = static_cast<double>(below(100000)) / 8.0;
            auto put = [&](std::basic_ostream<Char>& o) { if (kind == 0) o << iv; else if (kind == 1) o << dv; else o << Char('s'); };
            put(ref); Back back = attempt([&] { put(os); });
            ev("other", kind, good, back, os.rdstate()); stat("ops.other_insert");
            if (good && !dev.failures) {
                const std::basic_string<Char> want = ref.str(); const size_t got = dev.accepted() - a0;
                if (got != want.size() || want.compare(0, got, dev.store + a0, got) != 0) violation("later-value-wrong", "a later value printed as \"%s\" instead of \"%s\"", narrow(dev.store + a0, got).c_str(), narrow(want.data(), want.size()).c_str());
            }
            u.width = os.width();   // whatever the standard inserter left
            if (numbers && good) { nontrivial(); sig(mix(kind + 7) ^ mix(static_cast<u64>(u.flags)) ^ mix(BITS + sizeof(Char))); }
            break; }
        default: {       // a number
            const bool isSigned = below(2); const u32 bits = textBits<BITS>((u.flags & std::ios_base::basefield) == std::ios_base::hex); const Num<BITS> v = chance(1, 6) ? Num<BITS>{} : isSigned ? genSigned<BITS>(bits) : genNum<BITS>(bits); const bool good = os.good(); dev.failures = 0; const size_t a0 = dev.accepted();
            if (good && dev.cur == dev.nfp && chance(1, 4)) { u32 at = below(6) ? below(8) : below(BITS / 3); u32 k = below(FaultKinds); dev.armNext(at, k); ev("arm", at, k); }
            Back back; if (isSigned) { const Aesi<BITS> n = makeAesi(v); back = attempt([&] { os << n; }); } else { const Aeu<BITS> n = makeAeu(v); back = attempt([&] { os << n; }); }
            ++numbers; stat("ops.number_insert"); if (dev.failures) { ++faults; stat("ops.interrupted"); }
            ev("number", isSigned, good, back, os.rdstate(), dev.accepted() - a0, dev.failures); if (tracing) tracef("   %s %s flags %x -> flags %x fill %x width %lld\n", isSigned ? "Aesi" : "Aeu", hexOf(v).c_str(), static_cast<unsigned>(u.flags), static_cast<unsigned>(os.flags()), static_cast<unsigned>(os.fill()), static_cast<long long>(os.width()));
            const char* how = dev.failures ? "an insertion the device cut short" : good ? "an insertion" : "an insertion into a failed stream";
            if (os.flags() != u.flags) violation("flags-changed", "%s changed the format flags from %x to %x", how, static_cast<unsigned>(u.flags), static_cast<unsigned>(os.flags()));
            if (os.fill() != u.fill) violation("fill-changed", "%s changed the fill character from %x to %x", how, static_cast<unsigned>(u.fill), static_cast<unsigned>(os.fill()));
            if (os.precision() != u.precision) violation("precision-changed", "%s changed the precision", how);
            if (os.getloc() != u.loc) violation("locale-changed", "%s changed the locale", how);
            if (os.exceptions() != u.mask) violation("mask-changed", "%s changed the exception mask", how);
            if (os.tie() != (tie ? &tied : nullptr)) violation("tie-changed", "%s changed the tied stream", how);
            if (os.width() != 0 && (os.width() != u.width || (good && !dev.failures))) violation("width-pending", "%s left the width %lld pending (the user had set %lld)", how, static_cast<long long>(os.width()), static_cast<long long>(u.width));
            nontrivial(); sig(mix(static_cast<u64>(u.flags)) ^ mix(BITS * 8 + sizeof(Char)) ^ mix((dev.failures ? 2 : good) * 64 + dev.lastKind * (dev.failures ? 1 : 0)) ^ mix(isSigned * 2 + (u.width != 0)));
            u.width = os.width();
            break; }
        }
        if (!os.good()) switch (below(4)) { case 0: break; case 1: ev("clear"); stat("recovery.clear"); os.clear(); break; default: ev("heal"); stat("recovery.heal_and_clear"); dev.heal(); os.clear(); break; }
        if (dev.accepted() > OutDevice<Char>::CAP - 4096) break;
    }
}
void run() { if (below(2)) world<wchar_t>(); else world<char>(); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
