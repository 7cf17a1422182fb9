// C26: numerals that a channel has damaged, read by every constructor from characters.
#include "values.h"
#include <sys/mman.h>
#include <locale.h>
#include <new>
#include <string_view>
#include <vector>
using namespace sim;
namespace {
using U = Aeu<BITS>; using S = Aesi<BITS>; constexpr size_t PAGE = 4096; constexpr u32 Cap = 900;
unsigned char* area() { static unsigned char* a = nullptr; if (!a) { a = static_cast<unsigned char*>(mmap(nullptr, 3 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (a == MAP_FAILED) harnessError("mmap"); mprotect(a, PAGE, PROT_NONE); mprotect(a + 2 * PAGE, PAGE, PROT_NONE); a += PAGE; } return a; }
struct Reading { u32 u[BITS / 32], s[BITS / 32]; u32 sign; bool operator==(const Reading& o) const { return !memcmp(u, o.u, sizeof u) && !memcmp(s, o.s, sizeof s) && sign == o.sign; } };
static char shown[3 * Cap];
const char* show(const std::wstring& t) { size_t n = 0; for (wchar_t c : t) if (n < sizeof shown - 12) n += c >= 32 && c < 127 ? snprintf(shown + n, 12, "%c", static_cast<char>(c)) : snprintf(shown + n, 12, "\\%x", static_cast<unsigned>(c)); shown[n] = 0; return shown; }
enum Form { Pointer, String, View, ConstString, Array24, Array80, Forms };
static const char* const formName[] = {"pointer and length", "string", "string view", "const string", "array of 24", "array of 80"};
// Reads the text in one form; the characters lie against inaccessible memory on one side and `around` on the other, the object in memory full of `dirt`.
template <class Char> Reading read(const std::wstring& t, u32 form, bool front, u32 around, u32 dirt) {
    unsigned char* const a = area(); const size_t len = form == Array24 ? 24 : form == Array80 ? 80 : t.size(), bytes = len * sizeof(Char);
    for (size_t i = 0; i < PAGE / sizeof(Char); ++i) reinterpret_cast<Char*>(a)[i] = static_cast<Char>(around);
    Char* const p = reinterpret_cast<Char*>(front ? a : a + PAGE - bytes); for (size_t i = 0; i < len; ++i) p[i] = i < t.size() ? static_cast<Char>(t[i]) : Char();
    alignas(16) static unsigned char mu[sizeof(U)], ms[sizeof(S)]; memset(mu, static_cast<int>(dirt), sizeof mu); memset(ms, static_cast<int>(dirt), sizeof ms); U* u; S* s;
    auto construct = [&](auto&& x) { u = new (mu) U(x); s = new (ms) S(x); };
    if (mprotect(a, PAGE, PROT_READ)) harnessError("mprotect");
    switch (form) {
        case Pointer: u = new (mu) U(static_cast<const Char*>(p), len); s = new (ms) S(static_cast<const Char*>(p), len); break;
        case String: { std::basic_string<Char> x(p, len), y(p, len); u = new (mu) U(std::move(x)); s = new (ms) S(std::move(y)); break; }
        case View: construct(std::basic_string_view<Char>(p, len)); break;
        case ConstString: { const std::basic_string<Char> x(p, len); construct(x); break; }
        case Array24: construct(*reinterpret_cast<const Char(*)[24]>(p)); break;
        default: construct(*reinterpret_cast<const Char(*)[80]>(p)); break; }
    mprotect(a, PAGE, PROT_READ | PROT_WRITE);
    Reading r; for (size_t i = 0; i < BITS / 32; ++i) { r.u[i] = u->getBlock(i); r.s[i] = s->getBlock(i); } r.sign = s->isZero() ? 0 : s->isNegative() ? 2 : s->isPositive() ? 1 : 3;
    bool zero = true; for (u32 x : r.s) zero = zero && !x; if (zero != (r.sign == 0) || r.sign == 3) violation("sign-wrong", "the signed number read from \"%s\" is %s but has sign %u", show(t), zero ? "zero" : "not zero", r.sign);
    if (memcmp(r.u, r.s, sizeof r.u)) violation("magnitude-differs", "the signed and the unsigned number read from \"%s\" differ in magnitude", show(t));
    return r;
}
bool digitIn(wchar_t c, u32 base, u32& d) { d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return d < base; }
bool letterOrDigit(wchar_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
// If the text is a numeral among characters that are neither letters nor digits, its value.
bool numeral(const std::wstring& t, Num<BITS>& v) {
    size_t i = 0; u32 dashes = 0, d, base = 10; mpz_t z; mpz_init(z); for (wchar_t c : t) dashes += c == L'-';
    while (i < t.size() && !letterOrDigit(t[i])) ++i; const bool none = i == t.size();
    if (i + 1 < t.size() && t[i] == '0') { const wchar_t c = t[i + 1]; const u32 b = c == 'x' || c == 'X' ? 16 : c == 'o' || c == 'O' ? 8 : c == 'b' || c == 'B' ? 2 : 10; if (b != 10) { base = b; i += 2; } }
    u32 n = 0; for (; i < t.size(); ++i) if (digitIn(t[i], base, d)) { mpz_mul_ui(z, z, base); mpz_add_ui(z, z, d); ++n; } else if (letterOrDigit(t[i])) { mpz_clear(z); return false; }
    if (!none && !n) { mpz_clear(z); return false; }
    mpz_fdiv_r_2exp(z, z, BITS); memset(v.b, 0, sizeof v.b); size_t cnt; mpz_export(v.b, &cnt, -1, 4, 0, 0, z); v.neg = (dashes & 1) && mpz_sgn(z) != 0; mpz_clear(z); return true;
}
static const char* const damageName[] = {"fault.cut_at_end", "fault.cut_at_start", "fault.separator_inserted", "fault.character_replaced", "fault.bit_flipped", "fault.span_lost", "fault.span_repeated", "fault.texts_spliced", "fault.arbitrary_bytes", "fault.run_of_one_character", "fault.digit_replaced", "fault.terminator_inside"};
wchar_t anyChar(bool wide) { switch (below(8)) { case 0: return static_cast<wchar_t>(' ' + below(95)); case 1: return static_cast<wchar_t>(below(128)); case 2: return static_cast<wchar_t>("0123456789abcdefABCDEFxXoObB-"[below(29)]); case 3: return static_cast<wchar_t>("'_ ,.-+\n\r\t#:/@`{[g"[below(19)]); case 4: return static_cast<wchar_t>(128 + below(128)); case 5: return wide ? static_cast<wchar_t>(word()) : static_cast<wchar_t>(below(256)); case 6: return wide ? static_cast<wchar_t>((1 + below(0x10ff)) << 8 | '0' | below(16)) : L'-'; default: return static_cast<wchar_t>('0' + below(10)); } }
std::wstring sent() {
    static const u32 bases[] = {16, 10, 8, 2}; const u32 base = bases[below(4)]; const bool upper = below(2), up = below(4) == 3; const u32 bits = base == 16 || BITS <= 256 ? BITS : 200; Num<BITS> v = genSigned<BITS>(base == 2 ? (bits < 250 ? bits : 250) : bits);
    std::string t = v.neg ? "-" : ""; t += base == 16 ? up ? "0X" : "0x" : base == 8 ? up ? "0O" : "0o" : base == 2 ? up ? "0B" : "0b" : ""; if (below(8) == 7) t.append(range(1, 40), '0'); t += digits(v, static_cast<int>(base), upper);
    return std::wstring(t.begin(), t.end());
}
void damage(std::wstring& t, u32 kind, bool wide) {
    const u32 n = static_cast<u32>(t.size());
    switch (kind) {
        case 0: t.resize(below(n + 1)); break; case 1: t.erase(0, below(n + 1)); break;
        case 2: { u32 k = range(1, 5); for (u32 i = 0; i < k; ++i) { const u32 at = below(static_cast<u32>(t.size()) + 1); t.insert(at, below(4) ? 1 : range(1, 12), static_cast<wchar_t>("'_ ,.-+\n\r\t#:/@`{[~"[below(19)])); } break; }
        case 3: if (n) t[below(n)] = anyChar(wide); break; case 4: if (n) t[below(n)] ^= static_cast<wchar_t>(1u << below(wide ? 21 : 8)); break;
        case 5: if (n) { const u32 a = below(n); t.erase(a, 1 + below(n - a)); } break;
        case 6: if (n) { const u32 a = below(n); const std::wstring s = t.substr(a, 1 + below(n - a)); t.insert(below(n + 1), s); } break;
        case 7: { const std::wstring o = sent(); t = t.substr(0, below(n + 1)) + o.substr(below(static_cast<u32>(o.size()))); break; }
        case 8: { const u32 k = range(1, 8); for (u32 i = 0; i < k; ++i) t.insert(below(static_cast<u32>(t.size()) + 1), 1, anyChar(wide)); break; }
        case 9: t.insert(below(n + 1), range(1, below(3) ? 30 : 300), anyChar(wide)); break;
        case 10: { const u32 k = range(1, 4); for (u32 i = 0; i < k && n; ++i) t[below(n)] = static_cast<wchar_t>("0123456789abcdefABCDEF"[below(22)]); break; }
        default: t.insert(below(n + 1), range(1, 3), L'\0'); break; }
    if (t.size() > Cap) t.resize(Cap);
}
template <class Char> void receive(const std::wstring& t, const Num<BITS>* want, Reading& first, bool& have, bool narrowToo) {
    const u32 readers = range(2, 4); (void)narrowToo;
    for (u32 i = 0; i < readers; ++i) {
        u32 form = i ? below(Forms) : Pointer; if ((form == Array24 && t.size() > 24) || (form == Array80 && t.size() > 80)) form = below(4);
        const bool front = below(2); const u32 around = static_cast<u32>("7f0-x1 "[below(7)]), dirt = below(256); bool ascii = true; for (wchar_t c : t) ascii = ascii && c >= 0 && c < 128;
        const bool locale = ascii && below(4) == 3; if (locale) { setlocale(LC_ALL, "C.UTF-8"); stat("fault.other_locale"); }
        snprintf(shm->msg, sizeof shm->msg, "reading \"%s\" (%s, %s)", show(t), formName[form], sizeof(Char) == 1 ? "char" : "wchar_t");
        const Reading r = read<Char>(t, form, front, around, dirt); if (locale) setlocale(LC_ALL, "C");
        ev("read", form, sizeof(Char), front, r.sign); event(hbytes(r.u, sizeof r.u)); stat(sizeof(Char) == 1 ? "readings.narrow" : "readings.wide");
        if (want) { Num<BITS> w = *want; if (memcmp(r.u, w.b, sizeof r.u) || r.sign != (w.zero() ? 0u : w.neg ? 2u : 1u)) violation("wrong-value", "\"%s\" (%s, %s) should be %s", show(t), formName[form], sizeof(Char) == 1 ? "char" : "wchar_t", hexOf(w).c_str()); }
        if (have && !(r == first)) violation("readings-differ", "\"%s\" read as %s of %s gives another number than before", show(t), formName[form], sizeof(Char) == 1 ? "char" : "wchar_t");
        first = r; have = true;
    }
}
void run() {
    const u32 messages = range(1, 4); const bool wideChannel = below(2); std::wstring t;
    for (u32 m = 0; m < messages; ++m) {
        if (m == 0 || below(3)) t = sent(); u32 kinds = 0; const u32 n = below(5);          // a text may be damaged again on its next hop
        for (u32 i = 0; i < n; ++i) { const u32 kind = below(12); damage(t, kind, wideChannel); stat(damageName[kind]); kinds |= 1u << kind; }
        bool ascii = true; for (wchar_t c : t) ascii = ascii && c >= 0 && c < 128;
        Num<BITS> v{}; const bool known = numeral(t, v); if (tracing) tracef("   received \"%s\"%s\n", show(t), known ? ", a numeral" : ""); stat(known ? "texts.numerals" : "texts.no_numerals");
        Reading first; bool have = false; if (wideChannel) receive<wchar_t>(t, known ? &v : nullptr, first, have, ascii); else receive<char>(t, known ? &v : nullptr, first, have, ascii);
        if (ascii && below(2)) { if (wideChannel) receive<char>(t, known ? &v : nullptr, first, have, ascii); else receive<wchar_t>(t, known ? &v : nullptr, first, have, ascii); }
        // what was read is a number like any other: its own text reads as itself
        char text[BITS / 4 + 8]; U u(t.data(), 0); u32 k = 0; for (u32 b : first.u) u.setBlock(k++, b); const size_t len = u.template getString<16>(text, sizeof text, true); if (!(U(text, len) == u)) violation("unusable", "the number read from \"%s\" does not survive its own text", show(t));
        if (n) { nontrivial(); sig(mix(BITS * 8192 + kinds) ^ mix(known * 2 + wideChannel) ^ mix(t.size())); }
    }
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
