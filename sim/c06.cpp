// C06: a failing device is reported through the stream, the process lives on and the retry succeeds.
#include "streams.h"
using namespace sim;
namespace {
template <class Char> void checkBack(const std::basic_ios<Char>& st, std::ios_base::iostate mask, Back back, u64 failures, bool wasGood, u32 kind, const char* what) {
    const auto state = st.rdstate();          // mask: what the user had asked for
    if (st.exceptions() != mask) violation("exceptions-changed", "%s: the stream's exception mask was %d and is %d", what, static_cast<int>(mask), static_cast<int>(st.exceptions()));
    if (back == Other) violation("foreign-exception", "%s ended with an exception that is neither the stream's nor the device's", what);
    if (mask == std::ios_base::goodbit && back != Returned) violation("exception-though-off", "%s: the stream's exceptions are off, but %s escaped", what, backName(back));
    if ((state & mask) != 0 && back == Returned && failures) violation("exception-missing", "%s: the stream is in state %d under exception mask %d, but nothing was thrown", what, static_cast<int>(state), static_cast<int>(mask));
    if (back != Returned && (state & mask) == 0) violation("exception-without-state", "%s threw (%s), but the stream state %d has no bit of the mask %d", what, backName(back), static_cast<int>(state), static_cast<int>(mask));
    if (failures && st.good()) violation("failure-unreported", "%s: the device failed (%s), but the stream is good", what, faultName(kind));
    if (!failures && wasGood && (back != Returned || !st.good())) violation("spurious-failure", "%s: the device worked, but the stream state is %d", what, static_cast<int>(state));
    if (back == OwnRuntime && kind != ThrowRuntime) violation("wrong-exception", "%s threw the wrong exception", what);
}
template <class Char> void output() {
    static OutDevice<Char> dev; std::basic_ostream<Char> os(&dev); dev.chunkMax = below(3) ? range(1, 9) : 4096; const auto mask = genMask(); os.exceptions(mask); os.flags(genFlags()); if (chance(1, 4)) os.imbue(genLocale<Char>());
    const u32 op = below(3); const bool be = !below(2); const u32 bits = textBits<BITS>((os.flags() & std::ios_base::basefield) == std::ios_base::hex); const Num<BITS> v = op == 1 ? genSigned<BITS>(bits) : op == 2 ? carriable<Char>(genNum<BITS>()) : genNum<BITS>(bits);
    const Aeu<BITS> n = makeAeu(v); const Aesi<BITS> sn = makeAesi(v);
    std::basic_string<Char> want;
    if (op == 2) { want.resize(BITS / 8 / sizeof(Char)); for (size_t i = 0; i < BITS / 32; ++i) memcpy(reinterpret_cast<char*>(want.data()) + i * 4, &v.b[be ? BITS / 32 - 1 - i : i], 4); } else want = widenText<Char>(textOf(v, os.flags()));
    u32 nf = range(1, 3); size_t at = 0; for (u32 i = 0; i < nf; ++i) { at += below(static_cast<u32>(want.size()) + 1); u32 k = below(FaultKinds); dev.arm(at, k); ev("arm", at, k); ++at; }
    if (chance(1, 10) && os.exceptions() == std::ios_base::goodbit) dev.failSyncAt = range(1, 3);
    const char* what = op == 0 ? "insertion of an unsigned number" : op == 1 ? "insertion of a signed number" : "binary writing";
    if (tracing) tracef("%s of %s, exception mask %d\n", what, hexOf(v).c_str(), static_cast<int>(os.exceptions()));
    auto doit = [&] { if (op == 0) os << n; else if (op == 1) os << sn; else n.writeBinary(os, be); };
    for (u32 round = 0; round < 4; ++round) {      // repeat until the device is good for it
        const bool good = os.good(); dev.failures = 0; const size_t a0 = dev.accepted();
        const Back back = attempt(doit); const size_t got = dev.accepted() - a0; const bool last = round == 3;
        ev(what, os.exceptions(), good, back, os.rdstate(), dev.failures, got); stat(op == 0 ? "ops.insert_unsigned" : op == 1 ? "ops.insert_signed" : "ops.writeBinary");
        checkBack<Char>(os, mask, back, dev.failures, good, dev.lastKind, what);
        if (!sameBlocks(n, v) || !sameSigned(sn, v)) violation("number-changed", "%s changed the number", what);
        if (dev.failures) { nontrivial(); stat("ops.interrupted"); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(op * 64 + dev.lastKind * 8 + static_cast<u32>(os.exceptions())) ^ mix(got)); }
        if (good && !dev.failures) {
            auto is = [&](const std::basic_string<Char>& t) { return got == t.size() && t.compare(0, got, dev.store + a0, got) == 0; };
            if (!is(want)) violation("retry-incomplete", "%s on a working device gave \"%s\" instead of \"%s\"", what, narrow(dev.store + a0, got).c_str(), narrow(want.data(), want.size()).c_str());
            if (round) stat("recovery.retry_succeeded"); break;
        }
        if (last) violation("retry-failed", "%s does not succeed although the fault is gone and the stream cleared", what);
        if (round == 2 || below(2)) { ev("heal"); dev.heal(); }
        os.clear(); stat("recovery.clear");
    }
}
template <class Char> void input() {
    static InDevice<Char> dev; std::basic_istream<Char> is(&dev); dev.chunkMax = below(3) ? range(1, 9) : 4096; dev.promise = below(5); const auto mask = genMask(); is.exceptions(mask);
    const bool be = !below(2); const Num<BITS> v = carriable<Char>(genNum<BITS>()), old = genNum<BITS>(); Aeu<BITS> n = makeAeu(old); const size_t units = BITS / 8 / sizeof(Char);
    for (size_t i = 0; i < BITS / 32; ++i) memcpy(reinterpret_cast<char*>(dev.src) + i * 4, &v.b[be ? BITS / 32 - 1 - i : i], 4); dev.len = units;
    u32 nf = range(1, 3); size_t at = 0; for (u32 i = 0; i < nf; ++i) { at += below(static_cast<u32>(units)); if (at >= units) break; u32 k = below(FaultKinds); dev.arm(at, k); ev("arm", at, k); ++at; }
    for (u32 round = 0; round < 4; ++round) {
        const bool good = is.good(); dev.failures = 0; dev.threw = false;
        const Back back = attempt([&] { n.readBinary(is, be); });
        ev("readBinary", mask, good, back, is.rdstate(), dev.failures); stat("ops.readBinary");
        checkBack<Char>(is, mask, back, dev.failures, good, dev.lastKind, "binary reading");
        if (dev.failures) { nontrivial(); stat("ops.interrupted"); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(3 * 64 + dev.lastKind * 8 + static_cast<u32>(mask)) ^ mix(dev.pos())); }
        if (good && !dev.failures) { if (!sameBlocks(n, v)) violation("retry-incomplete", "binary reading from a working device gave another number"); if (round) stat("recovery.retry_succeeded"); break; }
        if (round == 3) violation("retry-failed", "binary reading does not succeed although the fault is gone and the stream cleared");
        if (round == 2 || below(2)) { ev("heal"); dev.rewindTo(0); } else { const u32 c = dev.cur; dev.rewindTo(0); dev.cur = c; }
        is.clear(); stat("recovery.clear");
    }
}
// A stream that has no device at all.
template <class Char> void noDevice() {
    std::basic_ostream<Char> os(nullptr); std::basic_istream<Char> is(nullptr); const auto mask = genMask(); try { os.exceptions(mask); } catch (const std::ios_base::failure&) {} try { is.exceptions(mask); } catch (const std::ios_base::failure&) {}
    os.flags(genFlags()); const u32 op = below(4); const bool be = !below(2); const Num<BITS> v = genSigned<BITS>(textBits<BITS>(false)); Aeu<BITS> n = makeAeu(v); const Aesi<BITS> sn = makeAesi(v);
    ev("no device", op, mask); stat("ops.without_device"); const char* const what = "an operation on a stream without a device";
    const Back back = attempt([&] { switch (op) { case 0: os << n; break; case 1: os << sn; break; case 2: n.writeBinary(os, be); break; default: n.readBinary(is, be); } });
    const auto& st = op == 3 ? static_cast<const std::basic_ios<Char>&>(is) : os; ev("back", back, st.rdstate());
    if (st.good()) violation("failure-unreported", "%s left the stream good", what);
    if (st.exceptions() != mask) violation("exceptions-changed", "%s changed the stream's exception mask", what);
    if (back != Returned && back != IosFailure) violation("foreign-exception", "%s ended with %s", what, backName(back));
    if (back != Returned && mask == std::ios_base::goodbit) violation("exception-though-off", "%s: the stream's exceptions are off, but %s escaped", what, backName(back));
    if (op == 3 ? !n.isZero() : !sameBlocks(n, v) || !sameSigned(sn, v)) violation("number-changed", "%s left a wrong number", what);
    nontrivial(); sig(mix(BITS * 8 + sizeof(Char)) ^ mix(7777 + op * 8 + static_cast<u32>(mask)));
}
void run() { if (chance(1, 40)) { if (below(2)) noDevice<wchar_t>(); else noDevice<char>(); return; } switch (below(6)) { case 0: case 1: output<char>(); break; case 2: case 3: output<wchar_t>(); break; case 4: input<char>(); break; default: input<wchar_t>(); } }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
