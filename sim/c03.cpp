// C03: an append-only log of numbers in real std::fstream objects over a simulated disk; machines crash, recovery reads with the library.
#include "values.h"
#include "disk.h"
#include <fstream>
#include <sstream>
#include <string>
#include <stdlib.h>
using namespace sim;
namespace {
enum Form : u32 { BinBig, BinLittle, Dec, Oct, Hex, Buffer10, Buffer16, WideDec, WideOct, WideHex, SignedDec, SignedHex, SignedOct, WideSignedDec, SignedBinary, Forms };
const char* const formName[Forms] = {"log.binary_big", "log.binary_little", "log.decimal", "log.octal", "log.hexadecimal", "log.buffer_decimal", "log.buffer_hexadecimal", "log.wide_decimal", "log.wide_octal", "log.wide_hexadecimal", "log.signed_decimal", "log.signed_hexadecimal", "log.signed_octal", "log.wide_signed_decimal", "log.signed_binary"};
constexpr u32 MaxRecords = 40;
struct World { u32 form, ending; bool framed; u32 acked, attempted; Num<BITS> want[MaxRecords]; u32 bufSize; u32 recoveries, recovered; };       // in shared memory: the observer's knowledge
World& world() { return *reinterpret_cast<World*>(shm->scratch); }
using U = Aeu<BITS>; using S = Aesi<BITS>;
bool isSignedForm(u32 f) { return f >= SignedDec; } bool isWide(u32 f) { return (f >= WideDec && f <= WideHex) || f == WideSignedDec; } bool isBinary(u32 f) { return f <= BinLittle || f == SignedBinary; }

template <class Char> void base(std::basic_ostream<Char>& os, u32 f) { os << std::showbase; switch (f) { case Oct: case WideOct: case SignedOct: os << std::oct; break; case Hex: case WideHex: case SignedHex: os << std::hex; break; default: os << std::dec; } }
// what ends a line of text: a line feed; a carriage return before it (the reader does not remove it); the terminator of the buffer; a space
template <class Char> void ending(std::basic_ostream<Char>& os) { switch (world().ending) { case 1: os.put(Char('\r')); break; case 3: os.put(Char(' ')); break; default: break; } os.put(Char('\n')); }
// one record, through the library, into a stream
template <class Char> void put(std::basic_ostream<Char>& os, u32 form, const Num<BITS>& v) {
    const U u = makeAeu(v);
    if constexpr (sizeof(Char) == 1) switch (form) {
        case BinBig: u.writeBinary(os, true); return; case BinLittle: u.writeBinary(os, false); return;
        case SignedBinary: { const S s = makeAesi(v); os.put(s.isZero() ? '0' : s.isNegative() ? '-' : '+'); s.unsignedCast().writeBinary(os); return; }
        case Buffer10: case Buffer16: { char t[BITS + 4]; size_t n = form == Buffer10 ? u.template getString<10>(t, sizeof t) : u.template getString<16>(t, sizeof t, true); os.write(t, static_cast<std::streamsize>(n && (t[n - 1] != 0 || world().ending != 2) ? n - 1 : n)); ending(os); return; }
        default: break; }
    base(os, form); if (isSignedForm(form)) os << makeAesi(v); else os << u; ending(os);
}
// the next record; 0: one was read; 1: no complete record; 2: the device failed
template <class Char> int get(std::basic_istream<Char>& is, u32 form, U& u, S& s, u32& bytes) {
    if constexpr (sizeof(Char) == 1) if (isBinary(form)) {
        char sign = '+'; if (form == SignedBinary) { if (!is.get(sign)) return is.bad() ? 2 : 1; }
        u.readBinary(is, form != BinLittle); if (is.bad()) return 2; if (!is) return 1;
        s = S(u); if (sign == '-') s.inverse(); bytes += BITS / 8 + (form == SignedBinary); return 0; }
    std::basic_string<Char> line; std::getline(is, line); if (is.bad()) return 2; if (!is || is.eof()) return 1;
    bytes += static_cast<u32>(line.size()) + 1; if (isSignedForm(form)) s = S(line); else u = U(line); return 0;
}
int getFramed(std::istream& is, u32 form, U& u, S& s, u32& bytes) {
    char h[12]; if (!is.read(h, 12)) return is.bad() ? 2 : 1; u32 n; u64 sum; memcpy(&n, h, 4); memcpy(&sum, h + 4, 8); if (n == 0 || n > 4 * BITS) return 1;
    std::string p(n, '\0'); if (!is.read(p.data(), n)) return is.bad() ? 2 : 1; if (hbytes(p.data(), n) != sum) return 1;
    u32 b = 0; int r; if (isWide(form)) { std::wstring w(p.begin(), p.end()); std::wistringstream ws(w); r = get<wchar_t>(ws, form, u, s, b); } else { std::istringstream ns(p); r = get<char>(ns, form, u, s, b); }
    if (r) violation("complete-record-rejected", "a %s record whose bytes are complete could not be read back", formName[form] + 4);
    bytes += 12 + n; return 0;
}
void putFramed(std::ostream& os, u32 form, const Num<BITS>& v) {
    std::string p; if (isWide(form)) { std::wostringstream ws; put<wchar_t>(ws, form, v); const std::wstring w = ws.str(); p.assign(w.begin(), w.end()); } else { std::ostringstream ns; put<char>(ns, form, v); p = ns.str(); }
    char h[12]; u32 n = static_cast<u32>(p.size()); u64 sum = hbytes(p.data(), n); memcpy(h, &n, 4); memcpy(h + 4, &sum, 8); os.write(h, 12); os.write(p.data(), n);
}
// Recovery: reads the log from its beginning. Returns false if the device failed.
template <class Char> bool readLog(u32& count, u32& bytes) {
    World& w = world(); std::basic_ifstream<Char> f; Char buf[300]; if (w.bufSize < 300) f.rdbuf()->pubsetbuf(w.bufSize ? buf : nullptr, w.bufSize); f.open("/sim/log", std::ios::binary | std::ios::in); if (!f.is_open()) return false;
    count = bytes = 0; U u = 77u; S s = -99;                    // the objects have held other values before
    for (;;) { u32 before = bytes; int r; if constexpr (sizeof(Char) == 1) r = w.framed ? getFramed(f, w.form, u, s, bytes) : get<Char>(f, w.form, u, s, bytes); else r = get<Char>(f, w.form, u, s, bytes);
        (void)before; if (r == 2) return false; if (r == 1) return true;
        ev("recovered", count);
        if (count >= w.attempted) violation("invented-record", "recovery read a %u. %s record though only %u were ever appended", count + 1, formName[w.form] + 4, w.attempted);
        if (isSignedForm(w.form) ? !sameSigned(s, w.want[count]) : !sameBlocks(u, w.want[count])) { static char t[BITS / 4 + 8]; if (isSignedForm(w.form)) s.template getString<16>(t, sizeof t, true); else u.template getString<16>(t, sizeof t, true);
            violation(count < w.acked ? "acknowledged-number-changed" : "unacknowledged-number-changed", "record %u of the %s log was %s and came back as %s", count, formName[w.form] + 4, hexOf(w.want[count]).c_str(), t); }
        ++count; }
}
bool recover(u32& count) {
    World& w = world(); ++w.recoveries; 
    for (u32 attempt = 0; attempt < 4; ++attempt) { u32 bytes = 0; const bool ok = isWide(w.form) && !w.framed ? readLog<wchar_t>(count, bytes) : readLog<char>(count, bytes); if (!ok) { stat("recovery.read_again_after_error"); continue; }
        ev("log read", count, bytes, w.acked);
        if (count < w.acked) violation("acknowledged-number-lost", "recovery of the %s log found %u complete numbers, %u had been acknowledged", formName[w.form] + 4, count, w.acked);
        if (count > w.acked) stat("recovered_beyond_acknowledged"); w.recovered += count; if (bytes < disk->size) stat("recovery.incomplete_tail_cut");
        diskTruncate(bytes); w.attempted = count; return true; }
    return false;
}
template <class Char> bool appendSome(u32& count, u32 howMany) {      // false: the stream failed
    // A file buffer that failed would send its whole buffer again when closed: a writer whose stream failed abandons it.
    World& w = world(); auto& f = *new std::basic_ofstream<Char>; Char* buf = new Char[300]; if (w.bufSize < 300) f.rdbuf()->pubsetbuf(w.bufSize ? buf : nullptr, w.bufSize); f.open("/sim/log", std::ios::binary | std::ios::app); if (!f.is_open()) return false;
    u32 pending = 0;
    for (u32 i = 0; i < howMany && count < MaxRecords; ++i) {
        const bool cheap = isBinary(w.form) || w.form == Hex || w.form == WideHex || w.form == Buffer16 || w.form == SignedHex; const u32 bits = isSignedForm(w.form) ? BITS - 1 : BITS, cap = textBits<BITS>(cheap) < bits ? textBits<BITS>(cheap) : bits;
        w.want[count] = isSignedForm(w.form) ? genSigned<BITS>(cap) : genNum<BITS>(cap); w.attempted = ++count; ev("append", count);
        if constexpr (sizeof(Char) == 1) { if (w.framed) putFramed(f, w.form, w.want[count - 1]); else put<Char>(f, w.form, w.want[count - 1]); } else put<Char>(f, w.form, w.want[count - 1]);
        ++pending; if (!f.good()) { stat("append_failed"); return false; }
        if (below(3) == 0) continue;
        f.flush(); if (!f.good()) { stat("append_failed"); return false; }
        if (below(4) == 0) continue;
        if (!diskSync()) { ev("sync failed: the process gives up"); _Exit(CRASHED); }
        w.acked = count; ev("acknowledged", count); stat("records_acknowledged", pending); pending = 0;
    }
    if (below(2)) _Exit(CRASHED);             // dies without closing
    f.close(); const bool closed = !f.fail(); if (closed) { delete &f; delete[] buf; } return closed;
}
size_t life(void*, unsigned char*, size_t) {
    World& w = world(); u32 count = 0; u32 rounds = 1 + below(3);
    for (u32 i = 0; i < rounds; ++i) { if (!recover(count)) return 0; u32 n = 1 + below(5); if (isWide(w.form) && !w.framed) appendSome<wchar_t>(count, n); else appendSome<char>(count, n); }
    return 0;
}
size_t lastLife(void*, unsigned char*, size_t) { u32 count = 0; if (!recover(count)) violation("recovery-fails", "the log cannot be read although the device works"); return 0; }
void run() {
    diskInit(); World& w = world(); memset(&w, 0, sizeof w); w.form = below(Forms); w.framed = below(3) == 0; w.ending = below(2) ? 0 : 1 + below(3);
    switch (below(4)) { case 0: w.bufSize = 0; break; case 1: w.bufSize = 1 + below(40); break; case 2: w.bufSize = 64 + below(200); break; default: w.bufSize = 100000; }
    evs("log", formName[w.form]); ev("world", w.framed, w.bufSize); stat(formName[w.form]); stat(w.framed ? "log.framed" : "log.raw");
    const u32 lives = range(1, 4); unsigned char out[16]; size_t len; int status;
    for (u32 i = 0; i < lives; ++i) {
        disk->active = true; disk->calls = 0; disk->crashAt = below(4) ? 1 + below(60) : ~0ull; disk->faultsLeft = below(3) == 0 ? 1 + below(4) : 0; disk->faultRate = 4 + below(20); disk->capacity = below(3) == 0 ? disk->size + below(below(2) ? 500 : BITS / 2) : Disk::CAP;
        if (tracing) tracef("   process %u starts; log has %u bytes\n", i, disk->size);
        const bool ok = isolated(life, nullptr, out, sizeof out, len, status); disk->active = false;
        if (!ok && !(status == CRASHED << 8)) violation("crash", "the writer died (wait status %d)", status);
        stat("processes"); ev("process over", ok); if (!ok || below(2)) { const bool unsynced = disk->nWrites != 0; diskCrash(w.framed); if (unsynced) nontrivial(); } else { diskSync(); stat("clean_exit"); }
        sig(mix(BITS * 64 + w.form * 2 + w.framed) ^ mix(disk->calls * 512 + (w.attempted - w.acked) * 8 + (ok ? 1 : 0)) ^ mix(w.bufSize < 300 ? w.bufSize / 8 : 99));
    }
    disk->capacity = Disk::CAP; disk->faultsLeft = 0; disk->calls = 0;
    if (!isolated(lastLife, nullptr, out, sizeof out, len, status)) violation("crash", "recovery died (wait status %d)", status);
    stat("recovery.logs_recovered"); stat("recovery.numbers_recovered", w.recovered);
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
