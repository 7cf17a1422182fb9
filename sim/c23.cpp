// C23: peers carry out a computation that needs all of them (key agreement, commutative encryption, split exponents, shared secrets,
// Chinese remainders, norms) over a faulty network; every number travels and is saved in serialised form; peers crash and go on from what they saved.
#include "codec.h"
#include <vector>
#include <set>
using namespace sim;
namespace {
constexpr size_t WIDE = BITS <= 256 ? BITS * 2 : BITS + 96, POWER = BITS <= 128 ? 160 : 96;
using U = Aeu<BITS>; using S = Aesi<BITS>; using UW = Aeu<WIDE>; using UP = Aeu<POWER>;
enum Kind : u32 { Agreement, Commutative, SplitExponent, Sharing, Remainders, Norm, Kinds };
const char* const kindName[Kinds] = {"protocols.key_agreement", "protocols.commutative_encryption", "protocols.split_exponent", "protocols.secret_sharing", "protocols.chinese_remainders", "protocols.norm"};
struct Z { mpz_t v; Z() { mpz_init(v); } Z(const Z& o) { mpz_init_set(v, o.v); } Z& operator=(const Z& o) { mpz_set(v, o.v); return *this; } ~Z() { mpz_clear(v); } operator mpz_ptr() { return v; } operator mpz_srcptr() const { return v; } };
int cmpu(mpz_srcptr a, unsigned long b) { return mpz_cmp_ui(a, b); }
template <size_t N = BITS> Num<N> num(mpz_srcptr z) { Num<N> v{}; size_t n = 0; Z t; mpz_abs(t, z); if (mpz_sizeinbase(t, 2) > N) harnessError("number too long"); mpz_export(v.b, &n, -1, 4, 0, 0, t); v.neg = mpz_sgn(z) < 0; return v; }
template <size_t N> Z toZ(const Num<N>& v) { Z z; v.toMpz(z); return z; }
std::string textZ(mpz_srcptr z) { char* t = mpz_get_str(nullptr, 16, z); std::string r = t; free(t); return r; }
void mustBe(const U& v, mpz_srcptr z, const char* what) { if (!sameBlocks(v, num(z))) { static char t[BITS / 4 + 8]; v.template getString<16>(t, sizeof t, true); violation("wrong-number", "%s is %s, it should be 0x%s", what, t, textZ(z).c_str()); } }

static u32 kind, codecPlan;
struct Packed { std::vector<unsigned char> bytes; u32 how = 0; };
template <class T, size_t N = BITS> Packed pack(const T& v) {
    bool carry = true, cheap = true; for (size_t k = 0; k < N / 32; ++k) { if (v.getBlock(k) == 0xffffffffu) carry = false; if (k > 7 && v.getBlock(k)) cheap = false; }
    const u32 c = effective(codecPlan < Codecs ? codecPlan : below(Codecs), cheap, carry, N); Packed p; p.how = below(16); static unsigned char buf[9 * N]; const u32 n = encode<T, N>(v, c, p.how, buf); p.bytes.assign(buf, buf + n); stat(codecName[c]); return p; }
template <class T, size_t N = BITS> T unpack(const Packed& p) { T v = 99u; decode<T, N>(v, p.how >> 1, p.bytes.data()); return v; }

// ---- what the peers compute --------------------------------------------------------------------------
U power(const U& base, const U& e, const U& m, u32 style) {
    switch (style % 4) {
        case 0: return U::powm(base, e, m);
        case 1: if (e.bitCount() <= POWER) return U::template powm<POWER>(base, e.template precisionCast<POWER>(), m); return U::powm(base, e, m);
        case 2: if (BITS <= 256 || e.bitCount() < 20) return UW::powm(base.template precisionCast<WIDE>(), e.template precisionCast<WIDE>(), m.template precisionCast<WIDE>()).template precisionCast<BITS>(); return U::powm(base, e, m);
        default: return UW::template powm<BITS>(base.template precisionCast<WIDE>(), e, m.template precisionCast<WIDE>()).template precisionCast<BITS>(); }
}
U times(const U& a, const U& b, const U& m, u32 style) {
    switch (style % 5) { case 0: return a * b % m; case 1: { U r = a; r *= b; r %= m; return r; } case 2: { U q, r; U::divide(b * a, m, q, r); return r; } case 3: { const auto [q, r] = U::divide(a * b, m); return r; } default: return (a.template precisionCast<WIDE>() * b.template precisionCast<WIDE>() % m.template precisionCast<WIDE>()).template precisionCast<BITS>(); }
}
// the inverse of a modulo m (m > 1, gcd 1, both below 2^(BITS - 2)), by Bezout's coefficients
U inverseOf(const U& a, const U& m, u32 style) {
    U x, y, g; if (style & 1) g = U::gcd(a, m, x, y); else g = U::gcd(m, a, y, x);
    if (!(g == 1u) || !(x * a + y * m == g)) violation("wrong-bezout", "the coefficients of gcd do not give it");
    if (x.getBit(BITS - 1)) x += m;
    if (!(x < m)) x %= m;
    return x;
}
U positive(const S& v, const U& m) { return v < S(0) ? (v + S(m)).unsignedCast() : v.unsignedCast(); }
U minus(const U& a, const U& b, const U& m, u32 style) {       // a, b < m < 2^(BITS - 1)
    switch (style % 3) { case 0: return a < b ? a + m - b : a - b; case 1: return positive(S(a) - S(b), m); default: { S s(a); s -= S(b); s %= S(m); return positive(s, m); } }
}
// ---- the system ---------------------------------------------------------------------------------------
struct Message { u64 at = 0; u32 from = 0, to = 0, id = 0; bool ack = false; u32 tag = 0, mask = 0, phase = 0; std::vector<Packed> load; };
struct Sent { Message m; u64 retry; };
struct Peer {
    std::set<u32> seen; std::vector<Sent> outbox; Packed e, d; std::vector<Packed> saved; u32 have = 0;   // on disk
    bool up = true; u64 back = 0, stalled = 0; U ve, vd; std::vector<U> state; bool stale = false;          // in memory
};
static bool wideExponents; static u32 K; static Z zm, zg; static std::vector<Z> ze, zd, zin; static U m, g; static u32 threshold;
static std::vector<Peer>* peers; static u32 nextId, finished, wanted; static u64 now; static u64 order;
struct Piece { u32 from; Z want; };
void post(u32 from, u32 to, u32 tag, u32 mask, u32 phase, std::vector<Packed> load) { Message x; x.from = from; x.to = to; x.id = ++nextId; x.tag = tag; x.mask = mask; x.phase = phase; x.load = std::move(load); (*peers)[from].outbox.push_back(Sent{x, now}); }
Z modelToken(u32 mask, u32 gone) { Z v = zg; if (kind == Agreement) mpz_fdiv_r(v, v, zm); for (u32 i = 0; i < K; ++i) { if (mask >> i & 1) mpz_powm(v, v, ze[i], zm); if (gone >> i & 1) mpz_powm(v, v, zd[i], zm); } return v; }
u32 pickMissing(u32 mask) { u32 n = 0; for (u32 i = 0; i < K; ++i) n += !(mask >> i & 1); u32 k = below(n); for (u32 i = 0;; ++i) if (!(mask >> i & 1) && k-- == 0) return i; }
void saveState(Peer& p) { p.saved.clear(); for (const U& v : p.state) p.saved.push_back(pack(v)); }
void recover(Peer& p) { p.state.clear(); for (const Packed& s : p.saved) p.state.push_back(unpack<U>(s)); if (!p.e.bytes.empty()) p.ve = unpack<U>(p.e); if (!p.d.bytes.empty()) p.vd = unpack<U>(p.d); }

void handleToken(u32 me, const Message& x) {
    Peer& p = (*peers)[me]; U v = unpack<U>(x.load[0]); u32 mask = x.mask, gone = x.phase; const u32 all = (1u << K) - 1;
    if (!(mask >> me & 1)) { v = power(v, p.ve, m, below(8)); mask |= 1u << me; } else { v = power(v, p.vd, m, below(8)); gone |= 1u << me; }
    ev("token", x.tag, me, mask, gone); order = mix(order ^ (x.tag * 64 + me));
    mustBe(v, modelToken(mask, gone), kind == Agreement ? "a public value of the key agreement" : "a value encrypted by some of the peers");
    if (mask != all) { post(me, pickMissing(mask), x.tag, mask, 0, {pack(v)}); return; }
    if (kind == Commutative && gone != all) { post(me, pickMissing(gone), x.tag, mask, gone, {pack(v)}); return; }
    if (kind == Commutative) mustBe(v, zg, "the decrypted value");
    ++finished;
}
void handleWork(u32 me, const Message& x) {         // a part of a gathered computation
    U r; const u32 st = below(8);
    switch (kind) {
        case SplitExponent: if (wideExponents) { const UP e = unpack<UP, POWER>(x.load[1]); const U base = unpack<U>(x.load[0]); r = st & 1 ? U::template powm<POWER>(base, e, m) : UW::template powm<POWER>(base.template precisionCast<WIDE>(), e, m.template precisionCast<WIDE>()).template precisionCast<BITS>(); } else r = power(unpack<U>(x.load[0]), unpack<U>(x.load[1]), m, st); break;
        case Sharing: { const U at = unpack<U>(x.load[0]); r = 0u; for (size_t i = x.load.size(); i-- > 1;) { r = times(r, at, m, st); r += unpack<U>(x.load[i]); if (st & 1) r %= m; else if (r >= m) r -= m; } break; }
        case Remainders: { const U q = unpack<U>(x.load[1]); const U a = unpack<U>(x.load[0]); if (st & 1) r = a % q; else { U t; U::divide(a, q, t, r); } break; }
        default: { const S s = unpack<S>(x.load[0]); if (st & 1) r = (s * s).unsignedCast(); else { S t = s; t *= s; r = t.unsignedCast(); } } }
    mustBe(r, zin[x.tag], "a worker's part"); ev("part", x.tag, me); post(me, 0, x.tag, 0, 1, {pack(r)});
}
static std::vector<U> points, moduli;               // known to everyone
void handlePart(const Message& x) {                  // at peer 0
    Peer& p = (*peers)[0]; const U r = unpack<U>(x.load[0]); const u32 st = below(24); ++p.have; order = mix(order ^ (x.tag + 1)); ev("collected", x.tag, p.have);
    switch (kind) {
        case SplitExponent: if (p.state.empty()) p.state.push_back(U(1u) % m); p.state[0] = times(p.state[0], r, m, st); break;
        case Norm: if (p.state.empty()) p.state.push_back(0u); if (st & 1) p.state[0] += r; else p.state[0] = r + p.state[0]; break;
        case Sharing: if (p.state.size() < 2 * threshold) { p.state.push_back(points[x.tag]); p.state.push_back(r); } break;
        default: { // x mod M and the new residue: the number mod lcm(M, q)
            const U& q = moduli[x.tag]; if (p.state.empty()) { p.state = {r, q}; break; }
            U& X = p.state[0]; U& M = p.state[1]; U gcd = st & 1 ? U::gcd(M, q) : U::gcd(q, M); const U n = q / gcd;
            if (n != 1u) { S t = S(r) - S(X % q); t /= S(gcd); t %= S(n); U f = times(positive(t, n), inverseOf(M / gcd % n, n, st), n, st); X += M * f; }
            M = st & 2 ? U::lcm(M, q) : U::lcm(q, M); } }
    saveState(p);
}
void finish() {
    Peer& p = (*peers)[0]; const u32 st = below(24);
    switch (kind) {
        case SplitExponent: mustBe(p.state[0], zg, "the power put together from its parts"); break;
        case Norm: { Z s, r; for (const Z& z : zin) mpz_add(s, s, z); mustBe(p.state[0], s, "the sum of squares"); mpz_sqrt(r, s); mustBe(p.state[0].squareRoot(), r, "the norm"); if (mpz_sizeinbase(s, 2) < BITS) { const S root = S(p.state[0]).squareRoot(); if (!sameSigned(root, num(r))) violation("wrong-number", "the signed norm differs"); } break; }
        case Sharing: { U secret = 0u; for (u32 i = 0; i < threshold; ++i) { U a = p.state[2 * i + 1], b = 1u; const U& xi = p.state[2 * i];
                for (u32 j = 0; j < threshold; ++j) if (j != i) { const U& xj = p.state[2 * j]; a = times(a, st & 1 ? minus(U(0u), xj, m, st) : xj, m, st); b = times(b, st & 1 ? minus(xi, xj, m, st) : minus(xj, xi, m, st), m, st); }
                secret += times(a, b == 1u ? b : inverseOf(b, m, st), m, st); if (secret >= m) secret -= m; }
            mustBe(secret, zg, "the secret put together from its shares"); break; }
        default: { Z l, q, r; mpz_set_ui(l, 1); for (const U& v : moduli) { Num<BITS> n{}; for (size_t k = 0; k < BITS / 32; ++k) n.b[k] = v.getBlock(k); n.toMpz(q); mpz_lcm(l, l, q); } mustBe(p.state[1], l, "the common multiple of the moduli"); mpz_fdiv_r(r, zg, l); mustBe(p.state[0], r, "the number put together from its remainders"); } }
    ++finished;
}
Z genPrime(u32 bits) { for (u32 tries = 0;; ++tries) { Z z = toZ(genNum<BITS>(bits)); if (tries > 8 || cmpu(z, 3) < 0) mpz_set_ui(z, 5 + below(1000)); mpz_sub_ui(z, z, 1); mpz_nextprime(z, z); if (cmpu(z, 3) > 0 && mpz_sizeinbase(z, 2) <= bits) return z; } }
u32 exponentBits() { return BITS > 512 ? below(8) ? 12 : 40 : BITS > 256 ? below(8) ? 20 : 70 : below(6) ? 40 : BITS / 2; }
void run() {
    kind = below(Kinds); codecPlan = below(Codecs * 2); K = range(2, kind == Remainders ? 7 : 5); nextId = finished = 0; now = 0; order = kind; ze.clear(); zd.clear(); zin.clear(); points.clear(); moduli.clear(); evs("protocol", kindName[kind]); stat(kindName[kind]);
    std::vector<Peer> all(K); peers = &all; wanted = 1; const u32 half = BITS / 2;
    switch (kind) {
        case Agreement: { Num<BITS> v = genNum<BITS>(half); zm = toZ(v); if (below(12) == 11) { mpz_set_ui(zm, 1); mpz_mul_2exp(zm, zm, half); } if (cmpu(zm, 2) < 0) mpz_set_ui(zm, 2 + below(9)); zg = toZ(genNum<BITS>(below(2) ? half : BITS)); wanted = K;
            for (u32 i = 0; i < K; ++i) ze.push_back(toZ(genNum<BITS>(exponentBits()))); break; }
        case Commutative: { zm = genPrime(BITS > 256 ? below(4) ? 24 : 60 : below(3) && half > 40 ? 40 : half); Z phi, t; mpz_sub_ui(phi, zm, 1); zg = toZ(genNum<BITS>(half)); mpz_fdiv_r(zg, zg, zm); wanted = range(1, 2);
            for (u32 i = 0; i < K; ++i) { Z e = toZ(genNum<BITS>(half)); mpz_fdiv_r(e, e, phi); do { mpz_add_ui(e, e, 1); mpz_gcd(t, e, phi); } while (cmpu(t, 1)); if (mpz_cmp(e, phi) >= 0) mpz_set_ui(e, 1); ze.push_back(e); mpz_invert(t, e, phi); zd.push_back(t); } break; }
        case SplitExponent: { wideExponents = BITS <= 256 && below(3) == 0; Num<BITS> v = genNum<BITS>(half); zm = toZ(v); if (cmpu(zm, 2) < 0) mpz_set_ui(zm, 2 + below(9)); Z base = toZ(genNum<BITS>(below(2) ? half : BITS)), sum, r; mpz_set_ui(r, 1); ze.push_back(base);
            for (u32 i = 0; i < K; ++i) { Z e = wideExponents ? toZ(genNum<POWER>(below(2) ? POWER : 40)) : toZ(genNum<BITS>(exponentBits())); mpz_add(sum, sum, e); ze.push_back(e); mpz_powm(r, base, e, zm); zin.push_back(r); } mpz_powm(zg, base, sum, zm); break; }
        case Sharing: { zm = genPrime(half - 1); threshold = range(1, K < 4 ? K : 4); Z t; for (u32 i = 0; i < threshold; ++i) { Z c = toZ(genNum<BITS>(half)); mpz_fdiv_r(c, c, zm); ze.push_back(c); } zg = ze[0];
            for (u32 i = 0; i < K; ++i) { Z x; if (cmpu(zm, 7) <= 0) { mpz_set_ui(x, 1 + i); if (mpz_cmp(x, zm) >= 0) { K = i; break; } } else for (u32 tries = 0;; ++tries) { if (tries < 4) { x = toZ(genNum<BITS>(half)); mpz_fdiv_r(x, x, zm); } else mpz_set_ui(x, 1 + below(tries < 60 ? 1000 : 6)); mpz_fdiv_r(x, x, zm); bool ok = mpz_sgn(x.v) != 0; for (const Z& o : zd) if (!mpz_cmp(o, x)) ok = false; if (ok) break; if (tries > 400) discard("no more points"); }
                zd.push_back(x); points.push_back(makeAeu(num(x))); Z r; for (u32 k = threshold; k-- > 0;) { mpz_mul(r, r, x); mpz_add(r, r, ze[k]); mpz_fdiv_r(r, r, zm); } zin.push_back(r); }
            if (K < threshold) threshold = K; if (K < threshold || zin.size() < threshold || ze.size() != threshold) discard("too few points"); break; }
        case Remainders: { Z l, t; mpz_set_ui(l, 1); u32 n = 0; for (u32 tries = 0; n < K && tries < 30; ++tries) { Z q = toZ(genNum<BITS>(below(3) ? half / 2 : half - 2)); if (n && below(3) == 0) { Num<BITS> f = genNum<BITS>(10); Z a = toZ(f); mpz_gcd(t, l, q); mpz_add_ui(a, a, 1); mpz_mul(q, t, a); } if (cmpu(q, 1) <= 0) mpz_set_ui(q, 2 + below(30)); if (mpz_sizeinbase(q, 2) > half - 2) continue; mpz_lcm(t, l, q); if (mpz_sizeinbase(t, 2) > BITS - 3) continue; l = t; moduli.push_back(makeAeu(num(q))); ze.push_back(q); ++n; }
            if (n < 2) discard("no moduli"); K = n; zg = toZ(genNum<BITS>()); for (u32 i = 0; i < n; ++i) { mpz_fdiv_r(t, zg, ze[i]); zin.push_back(t); } mpz_set_ui(zm, 1); break; }
        default: mpz_set_ui(zm, 1); for (u32 i = 0; i < K; ++i) { Z v = toZ(genSigned<BITS>(half - 2)); ze.push_back(v); Z s; mpz_mul(s, v, v); zin.push_back(s); } }
    m = makeAeu(num(zm)); g = makeAeu(num(zg)); if (tracing) { tracef("   modulus 0x%s, base/secret 0x%s\n", textZ(zm).c_str(), textZ(zg).c_str()); for (const Z& z : ze) tracef("   input 0x%s\n", textZ(z).c_str()); }
    all.resize(K);
    static const u32 rates[] = {0, 10, 30}; const u32 loss = rates[below(3)], dup = rates[below(3)], crash = rates[below(3)], stall = rates[below(3)], maxDelay = 1 + (below(3) == 0 ? 40 : below(8)); const u64 quiet = below(3) ? below(600) : 0, timeout = range(10, 80); u32 faults = 0; auto faulty = [&] { return now < quiet; };
    // who starts with what
    if (kind <= Commutative) {
        for (u32 i = 0; i < K; ++i) { Peer& p = all[i]; p.ve = makeAeu(num(ze[i])); p.e = pack(p.ve); if (kind == Commutative) { Z phi; mpz_sub_ui(phi, zm, 1); p.vd = cmpu(ze[i], 1) ? inverseOf(p.ve, m - 1u, below(2)) : U(1u); mustBe(p.vd, zd[i], "the inverse of an exponent"); p.d = pack(p.vd); } }
        for (u32 t = 0; t < wanted; ++t) post(t % K, kind == Agreement ? t : below(K), t, 0, 0, {pack(g)});
    } else for (u32 i = 0; i < K; ++i) { std::vector<Packed> load; switch (kind) { case SplitExponent: load = {pack(U(makeAeu(num(ze[0])))), wideExponents ? pack<UP, POWER>(makeAeu(num<POWER>(ze[i + 1]))) : pack(U(makeAeu(num(ze[i + 1]))))}; break; case Sharing: load.push_back(pack(points[i])); for (u32 k = 0; k < threshold; ++k) load.push_back(pack(U(makeAeu(num(ze[k]))))); break; case Remainders: load = {pack(g), pack(moduli[i])}; break; default: load = {pack(S(makeAesi(num(ze[i]))))}; } post(0, i, i, 0, 0, load); }
    std::vector<Message> net; const u64 bound = quiet + 30000; const u32 need = kind == Sharing ? threshold : K;
    while (finished < wanted) {
        if (++now > bound) violation("no-progress", "the protocol did not finish within 30000 steps after the faults had stopped");
        auto send = [&](const Message& x) { if (faulty() && below(100) < loss) { stat("fault.message_lost"); ev("lost", x.id, x.ack); ++faults; return; } u32 copies = 1; if (faulty() && below(100) < dup) { copies = 2; stat("fault.message_duplicated"); ++faults; }
            for (u32 c = 0; c < copies; ++c) { Message y = x; y.at = now + 1 + below(maxDelay); if (y.at > now + 1) stat("fault.message_delayed"); net.push_back(y); } };
        std::vector<Message> due; for (size_t i = 0; i < net.size();) if (net[i].at <= now) { due.push_back(std::move(net[i])); net.erase(net.begin() + static_cast<long>(i)); } else ++i;
        while (!due.empty()) { const u32 k = below(static_cast<u32>(due.size())); Message x = std::move(due[k]); due.erase(due.begin() + k); Peer& p = all[x.to];
            if (!p.up || now < p.stalled) { stat(p.up ? "fault.message_to_stalled_peer" : "fault.message_to_dead_peer"); continue; }
            if (x.ack) { for (size_t i = 0; i < p.outbox.size(); ++i) if (p.outbox[i].m.id == x.id) { p.outbox.erase(p.outbox.begin() + static_cast<long>(i)); break; } continue; }
            if (p.seen.count(x.id)) stat("duplicates_recognised");
            else { p.seen.insert(x.id); if (kind <= Commutative) handleToken(x.to, x); else if (x.phase == 0) handleWork(x.to, x); else { handlePart(x); if (p.have == need) finish(); } }
            if (faulty() && crash && below(100) < crash / 3) { stat("fault.crashed_before_acknowledging"); ev("crash", x.to); ++faults; p.up = false; p.back = now + 1 + below(30); continue; }
            Message a; a.ack = true; a.id = x.id; a.from = x.to; a.to = x.from; send(a); if (finished >= wanted) break; }
        for (u32 i = 0; i < K; ++i) { Peer& p = all[i];
            if (!p.up) { if (now >= p.back || !faulty()) { p.up = true; recover(p); stat("recovery.peer_restarted"); ev("restart", i); for (Sent& s : p.outbox) s.retry = now; } continue; }
            if (faulty() && crash && below(1000) < crash) { stat("fault.peer_crashed"); ev("crash", i); ++faults; p.up = false; p.ve = 7u; p.vd = 9u; p.state.clear(); p.back = now + 1 + below(30); continue; }
            if (faulty() && stall && below(1000) < stall) { stat("fault.peer_stalled"); p.stalled = now + 1 + below(40); ++faults; }
            if (now >= p.stalled) for (Sent& s : p.outbox) if (now >= s.retry) { if (s.retry > s.m.at + 1 && s.m.at) stat("recovery.message_resent"); s.m.at = now; s.retry = now + timeout + 2 * maxDelay; send(s.m); } }
    }
    shm->simTime += now; ev("finished", now, nextId); if (faults || K > 2) nontrivial(); sig(mix(order) ^ mix(BITS * 8 + kind));
}
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
