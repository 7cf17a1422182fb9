// C14: a coordinator splits a fold among workers over a faulty network; operands and partial results travel serialised.
#include "codec.h"
#include <vector>
#include <algorithm>
#include <map>
using namespace sim;
namespace {
using U = Aeu<BITS>; using S = Aesi<BITS>;
enum Kind : u32 { Sum, Product, And, Or, Xor, Gcd, Lcm, Min, Max, ModProduct, IntSum, IntProduct, SignedSum, SignedIntProduct, SignedMin, SignedMax, Kinds };
const char* const kindName[Kinds] = {"jobs.sum", "jobs.product", "jobs.and", "jobs.or", "jobs.xor", "jobs.gcd", "jobs.lcm", "jobs.minimum", "jobs.maximum", "jobs.modular_product", "jobs.integer_additions", "jobs.integer_multiplications", "jobs.signed_sum", "jobs.signed_integer_multiplications", "jobs.signed_minimum", "jobs.signed_maximum"};
template <class T> constexpr bool sgn = isSigned<T>;

struct Operand { bool isInt = false; u32 type = 0; u64 raw = 0; Num<BITS> num{}; };            // an input of the job
struct Packet { bool isInt = false; u32 type = 0; u64 raw = 0; std::vector<unsigned char> bytes; u32 how = 0; };   // as it travels
static u32 kind; static Num<BITS> modulus; static U libModulus; static u32 codecPlan;

void gmpInt(mpz_t z, u32 type, u64 raw) { switch (type) { case 0: mpz_set_ui(z, static_cast<uint8_t>(raw)); break; case 1: mpz_set_ui(z, static_cast<uint16_t>(raw)); break; case 2: mpz_set_ui(z, static_cast<uint32_t>(raw)); break; case 3: mpz_set_ui(z, raw); break;
    case 4: mpz_set_si(z, static_cast<int8_t>(raw)); break; case 5: mpz_set_si(z, static_cast<int16_t>(raw)); break; case 6: mpz_set_si(z, static_cast<int32_t>(raw)); break; default: mpz_set_si(z, static_cast<int64_t>(raw)); } }
template <class F> void withInt(u32 type, u64 raw, bool sg, F&& f) { switch (sg ? type : type & 3) { case 0: f(static_cast<uint8_t>(raw)); break; case 1: f(static_cast<uint16_t>(raw)); break; case 2: f(static_cast<uint32_t>(raw)); break; case 3: f(static_cast<uint64_t>(raw)); break;
    case 4: f(static_cast<int8_t>(raw)); break; case 5: f(static_cast<int16_t>(raw)); break; case 6: f(static_cast<int32_t>(raw)); break; default: f(static_cast<int64_t>(raw)); } }

// acc := acc * x in one of the ways the library offers
template <class T> bool same(const T& a, const T& b) { if constexpr (sgn<T>) if ((a < T(0u)) != (b < T(0u))) return false; for (u32 k = 0; k < BITS / 32; ++k) if (a.getBlock(k) != b.getBlock(k)) return false; return true; }
void join(U& acc, const U& operand, u32 style) {
    const U& x = style >= 15 && same(acc, operand) ? acc : operand;       // equal numbers may be one object
    switch (kind) {
        case Sum: case IntSum: switch (style % 5) { case 0: acc += x; break; case 1: acc = acc + x; break; case 2: acc = x + acc; break; case 3: acc -= -x; break; default: acc = acc - -x; } break;
        case Product: case IntProduct: switch (style % 3) { case 0: acc *= x; break; case 1: acc = acc * x; break; default: acc = x * acc; } break;
        case And: switch (style % 3) { case 0: acc &= x; break; case 1: acc = acc & x; break; default: acc = ~(~acc | ~x); } break;
        case Or: switch (style % 3) { case 0: acc |= x; break; case 1: acc = x | acc; break; default: acc = ~(~acc & ~x); } break;
        case Xor: switch (style % 2) { case 0: acc ^= x; break; default: acc = x ^ acc; } break;
        case Gcd: switch (style % 3) { case 0: acc = U::gcd(acc, x); break; case 1: acc = U::gcd(x, acc); break; default: { U p, q; acc = U::gcd(acc, x, p, q); } } break;
        case Lcm: acc = style & 1 ? U::lcm(acc, x) : U::lcm(x, acc); break;
        case Min: switch (style % 5) { case 0: if (x < acc) acc = x; break; case 1: if (acc > x) acc = x; break; case 2: acc = x.compareTo(acc) == Comparison::less ? x : acc; break; case 3: acc = acc <= x ? acc : x; break; default: acc = std::min(acc, x); } break;
        case Max: switch (style % 5) { case 0: if (x > acc) acc = x; break; case 1: if (acc < x) acc = x; break; case 2: acc = x.compareTo(acc) == Comparison::greater ? x : acc; break; case 3: acc = acc >= x ? acc : x; break; default: acc = std::max(acc, x); } break;
        default: switch (style % 3) { case 0: acc *= x; acc %= libModulus; break; case 1: acc = acc * x % libModulus; break; default: { U q, r; U::divide(x * acc, libModulus, q, r); acc = r; } }
    }
}
void join(S& acc, const S& operand, u32 style) {
    const S& x = style >= 15 && same(acc, operand) ? acc : operand;
    switch (kind) {
        case SignedSum: switch (style % 4) { case 0: acc += x; break; case 1: acc = x + acc; break; case 2: acc -= -x; break; default: acc = acc - -x; } break;
        case SignedIntProduct: switch (style % 2) { case 0: acc *= x; break; default: acc = x * acc; } break;
        case SignedMin: switch (style % 4) { case 0: if (x < acc) acc = x; break; case 1: if (acc > x) acc = x; break; case 2: acc = acc <= x ? acc : x; break; default: acc = x.compareTo(acc) == Comparison::less ? x : acc; } break;
        default: switch (style % 4) { case 0: if (x > acc) acc = x; break; case 1: if (acc < x) acc = x; break; case 2: acc = acc >= x ? acc : x; break; default: acc = x.compareTo(acc) == Comparison::greater ? x : acc; }
    }
}
void joinInt(U& acc, u32 type, u64 raw, u32 style) { withInt(type, raw, false, [&](auto v) { if constexpr (std::is_unsigned_v<decltype(v)>) { if (kind == IntSum) switch (style % 3) { case 0: acc += v; break; case 1: acc = acc + v; break; default: acc = v + acc; } else switch (style % 3) { case 0: acc *= v; break; case 1: acc = acc * v; break; default: acc = v * acc; } } }); }
void joinInt(S& acc, u32 type, u64 raw, u32 style) { withInt(type, raw, true, [&](auto v) { if (kind == SignedSum) switch (style % 3) { case 0: acc += v; break; case 1: acc = acc + v; break; default: acc = v + acc; } else switch (style % 3) { case 0: acc *= v; break; case 1: acc = acc * v; break; default: acc = v * acc; } }); }
void make(U& v, const Num<BITS>& n) { v = makeAeu(n); } void make(S& v, const Num<BITS>& n) { v = makeAesi(n); }

template <class T> Packet packNumber(const T& v) {
    bool carry = true, cheap = true; for (size_t k = 0; k < BITS / 32; ++k) { if (v.getBlock(k) == 0xffffffffu) carry = false; if (k > 7 && v.getBlock(k)) cheap = false; }
    const u32 c = effective(codecPlan < Codecs ? codecPlan : below(Codecs), cheap, carry, BITS); Packet p; p.how = below(16); static unsigned char buf[9 * BITS]; u32 n = encode<T, BITS>(v, c, p.how, buf); p.bytes.assign(buf, buf + n); stat(codecName[c]); return p; }
template <class T> void unpack(T& v, const Packet& p) { decode<T, BITS>(v, p.how >> 1, p.bytes.data()); }

template <class T> struct Task { u32 id; std::vector<u32> inputs; std::vector<T> parts; bool open = true; u64 deadline = 0; u32 sends = 0; T answer; };
struct Message { u64 at, seq; u32 to; u32 task; bool result; std::vector<Packet> load; };
template <class T> struct Work { u32 task; std::vector<Packet> load; };
template <class T> struct Worker { bool up = true; u64 back = 0, stalled = 0; u32 life = 0; std::vector<Work<T>> queue; size_t done = 0; u32 style = 0; bool reverse = false; T acc; };

template <class T> void applyPacket(T& acc, bool first, const Packet& p, u32 style) {
    if (p.isInt) { if (first) acc = kind == IntProduct || kind == SignedIntProduct ? T(1u) : T(0u); joinInt(acc, p.type, p.raw, style); return; }
    T x; unpack(x, p); if (first) { acc = x; if (kind == ModProduct) { if constexpr (!sgn<T>) acc %= libModulus; } } else join(acc, x, style);
}
void fromMpz(Num<BITS>& v, const mpz_t z) { v = Num<BITS>{}; mpz_t t; mpz_init(t); mpz_abs(t, z); size_t n = 0; mpz_export(v.b, &n, -1, 4, 0, 0, t); v.neg = mpz_sgn(z) < 0; mpz_clear(t); }
u64 special64() { const u64 lo = word(), hi = word(); switch (below(8)) { case 0: return hi << 32; case 1: return hi << 32 | 0xffffffffu; case 2: return 0xffffffff00000000ull | lo; case 3: return 0xffffffff00000000ull; case 4: return 1ull << below(64); case 5: return (1ull << below(64)) - 1; case 6: return 0x100000000ull; default: return below(9); } }
template <class T> void job() {
    const u32 n = below(4) ? range(2, 20) : range(2, 3), W = range(1, 5), P = n < 4 && below(2) ? 1 : range(1, n < 8 ? n : 8);
    static const u32 rates[] = {0, 8, 25}; const u32 loss = rates[below(3)], dup = rates[below(3)], crash = rates[below(3)], stall = rates[below(3)], maxDelay = 1 + (below(3) == 0 ? 40 : below(8)); const u64 quiet = below(2) ? below(400) : 0; const u64 timeout = range(20, 120); codecPlan = below(Codecs * 2);
    // the job
    std::vector<Operand> in(n); u32 budget = BITS - 2;
    const bool lcmShared = kind == Lcm && below(2); Num<BITS> lcmFactor{}; if (lcmShared) { lcmFactor = genNum<BITS>(below(3) && BITS > 136 ? 100 : BITS - 36); if (lcmFactor.zero()) lcmFactor.b[0] = 30; }
    auto carryMul = [](Num<BITS>& v, u32 f) { u64 c = 0; for (u32& b : v.b) { u64 x = static_cast<u64>(b) * f + c; b = static_cast<u32>(x); c = x >> 32; } };
    const bool gcdPair = kind == Gcd && below(n < 4 ? 4 : 2) != 1; Num<BITS> euclidA{}, euclidB{};
    if (gcdPair) {    // two numbers whose divisions of each other leave quotients and remainders of interest, down to their gcd
        mpz_t a, b, q; mpz_inits(a, b, q, nullptr); const u32 most = BITS > 200 ? 200 : BITS - 4; Num<BITS> g = genNum<BITS>(below(3) ? 34 : most / 2); if (g.zero()) g.b[0] = 1; g.toMpz(a);
        for (u32 c = range(1, 12); c > 0; --c) { Num<BITS> f = genNum<BITS>(below(2) ? 33 : below(2) ? 4 : 70); if (f.zero()) f.b[0] = 1 + below(3); f.toMpz(q); if (below(5) == 0) mpz_mul_2exp(q, q, 32 * range(1, 2)); mpz_mul(q, q, a); mpz_add(q, q, b); if (mpz_sizeinbase(q, 2) > most) break; mpz_set(b, a); mpz_set(a, q); }
        if (mpz_sgn(b) == 0) mpz_set(b, a); fromMpz(euclidA, a); fromMpz(euclidB, b); if (below(2)) std::swap(euclidA, euclidB); mpz_clears(a, b, q, nullptr); }
    const bool power = kind == Product && below(3) == 0;      // (almost) all the factors are the same: equal partial results meet
    for (u32 i = 0; i < n; ++i) { Operand& o = in[i];
        switch (kind) {
            case Gcd: if (gcdPair && i < 2) { o.num = i ? euclidB : euclidA; break; } else { o.num = genNum<BITS>(below(4) ? 60 : 100); if (below(2)) { u32 c = range(1, 30) * 6; u64 carryOut = 0; for (u32& b : o.num.b) { u64 x = static_cast<u64>(b) * c + carryOut; b = static_cast<u32>(x); carryOut = x >> 32; } } if (o.num.zero()) o.num.b[0] = 6; break; }
            case Lcm: if (lcmShared) { // large shared factor, small own ones: products overflow the precision, their lcm does not
                u64 f = 1 + below(below(2) ? 5 : 24); carryMul(o.num = lcmFactor, static_cast<u32>(f)); } else { u32 bits = (BITS - 2) / n; if (bits > 50) bits = 50; o.num = genNum<BITS>(bits); if (o.num.zero()) o.num.b[0] = 1; } break;
            case ModProduct: o.num = genNum<BITS>(BITS / 2); break;
            case IntSum: case IntProduct: if (below(4)) { o.isInt = true; o.type = below(4); o.raw = below(3) ? static_cast<u64>(word()) << 32 | word() : ~0ull - below(3); if (below(5) == 0) o.raw = special64(); else if (kind == IntProduct && below(3)) o.raw |= 1; } else { o.num = genNum<BITS>(); if (kind == IntProduct && below(8)) o.num.b[0] |= 1; } break;
            case Product: o.num = power && i ? in[below(4) ? 0 : i - 1].num : genNum<BITS>(power && below(2) ? 40 + below(BITS - 40) : BITS); if (i && !power && chance(1, 6)) relate(o.num, in[i - 1].num); if (!power && below(2)) o.num.b[0] |= 1; break;
            case SignedSum: if (i && below(n < 4 ? 2 : 4) == 0) {       // what takes the operand before, or all of them, to a number of interest
                mpz_t z, t; mpz_inits(z, t, nullptr); for (u32 k = below(3) ? i - 1 : 0; k < i; ++k) { if (in[k].isInt) gmpInt(t, in[k].type, in[k].raw); else in[k].num.toMpz(t); mpz_add(z, z, t); }
                genSigned<BITS>(below(3) ? 66 : BITS - 7).toMpz(t); mpz_sub(t, t, z); if (mpz_sizeinbase(t, 2) <= BITS - 6) { fromMpz(o.num, t); o.isInt = false; } mpz_clears(z, t, nullptr); }
                else if (below(3) == 0) { o.isInt = true; o.type = below(8); if (BITS < 70 && (o.type & 3) == 3) --o.type;     /* 64-bit integers do not leave room for sums in 64 bits */
                    o.raw = below(3) ? static_cast<u64>(word()) << 32 | word() : below(2) ? ~0ull - below(3) : 1ull << (o.type == 4 ? 7 : o.type == 5 ? 15 : o.type == 6 ? 31 : 63); } else { o.num = genSigned<BITS>(BITS - 6); if (i && below(5) == 0 && !in[i - 1].isInt) { o.num = in[i - 1].num; o.num.neg = !o.num.neg && !o.num.zero(); } else if (i && chance(1, 5) && !in[i - 1].isInt) { relate(o.num, in[i - 1].num); for (u32 k = BITS - 6; k < BITS; ++k) o.num.b[k / 32] &= ~(1u << k % 32); if (o.num.zero()) o.num.neg = false; } } break;
            case SignedIntProduct: { u32 b = budget < 66 ? (budget > 4 ? 3 : 1) : 64; if (below(5) == 0) { o.num = genSigned<BITS>(b); } else { o.isInt = true; o.type = below(8); o.raw = static_cast<u64>(word()) << 32 | word(); if (below(3) == 0) o.raw = 1ull << (o.type == 4 ? 7 : o.type == 5 ? 15 : o.type == 6 ? 31 : 63); if (b < 64) { o.raw = b == 1 ? 1 : below(6); } if (below(8) == 0) o.raw = below(2) ? ~0ull : 0; }
                mpz_t z; mpz_init(z); if (o.isInt) gmpInt(z, o.type, o.raw); else o.num.toMpz(z); u32 sz = mpz_sgn(z) ? static_cast<u32>(mpz_sizeinbase(z, 2)) : 1; if (o.isInt && sz > budget) { o.raw = 1; sz = 1; } if (mpz_cmpabs_ui(z, 1) <= 0) sz = 0; if (sz > budget) { o = Operand(); o.num.b[0] = 1; sz = 0; } budget -= sz; mpz_clear(z); break; }
            case SignedMin: case SignedMax: o.num = i && below(3) == 0 ? in[i - 1].num : genSigned<BITS>(BITS - 1); if (i && below(3) == 0) { o.num.b[below(BITS / 32)] ^= 1u << below(31); if (o.num.zero()) o.num.neg = false; } break;
            case Min: case Max: o.num = i && below(3) == 0 ? in[i - 1].num : genNum<BITS>(); if (i && below(3) == 0) o.num.b[below(BITS / 32)] ^= 1u << below(32); break;
            default: o.num = genNum<BITS>(); if (i && chance(1, 5)) relate(o.num, in[i - 1].num);
        }
        if (kind == SignedIntProduct && o.isInt && o.raw == 1 && false) break;
    }
    if (kind == ModProduct) { modulus = genNum<BITS>(BITS / 2); if (modulus.zero() || (modulus.b[0] == 1)) modulus.b[0] |= 6; libModulus = makeAeu(modulus); }
    evs("job", kindName[kind]); stat(kindName[kind]);
    // the answer, by GMP
    mpz_t want, z, m; mpz_inits(want, z, m, nullptr); if (kind == ModProduct) modulus.toMpz(m);
    for (u32 i = 0; i < n; ++i) { if (in[i].isInt) gmpInt(z, in[i].type, in[i].raw); else in[i].num.toMpz(z);
        if (tracing) { char* t = mpz_get_str(nullptr, 16, z); tracef("   operand %u: 0x%s%s\n", i, t, in[i].isInt ? " (built-in integer)" : ""); free(t); }
        if (!i) { mpz_set(want, z); } else switch (kind) { case Sum: case IntSum: case SignedSum: mpz_add(want, want, z); break; case Product: case IntProduct: case SignedIntProduct: case ModProduct: mpz_mul(want, want, z); break; case And: mpz_and(want, want, z); break; case Or: mpz_ior(want, want, z); break; case Xor: mpz_xor(want, want, z); break;
            case Gcd: mpz_gcd(want, want, z); break; case Lcm: mpz_lcm(want, want, z); break; case Min: case SignedMin: if (mpz_cmp(z, want) < 0) mpz_set(want, z); break; default: if (mpz_cmp(z, want) > 0) mpz_set(want, z); }
        if (kind == ModProduct) mpz_fdiv_r(want, want, m); else if (kind == Sum || kind == Product || kind == IntSum || kind == IntProduct) mpz_fdiv_r_2exp(want, want, BITS); }
    if (kind >= SignedSum && mpz_sizeinbase(want, 2) >= BITS) discard("signed result does not fit");
    // the system
    std::vector<Task<T>> tasks; std::vector<T> pool; std::vector<Worker<T>> workers(W); std::vector<Message> net; u64 now = 0, seq = 0, order = kind; u32 openTasks = 0; u32 faultsSeen = 0;
    { std::vector<u32> idx(n); for (u32 i = 0; i < n; ++i) idx[i] = i; for (u32 i = n; i > 1; --i) std::swap(idx[i - 1], idx[below(i)]);
      for (u32 p = 0, at = 0; p < P; ++p) { u32 len = p + 1 == P ? n - at : 1 + below(n - at - (P - p - 1)); Task<T> t; t.id = static_cast<u32>(tasks.size()); t.inputs.assign(idx.begin() + at, idx.begin() + at + len); at += len; tasks.push_back(t); ++openTasks; } }
    auto faulty = [&] { return now < quiet; };
    auto send = [&](u32 to, u32 task, bool result, const std::vector<Packet>& load) {
        if (faulty() && below(100) < loss) { stat("fault.message_lost"); ev("lost", to, task, result); ++faultsSeen; return; }
        u32 copies = 1; if (faulty() && below(100) < dup) { copies = 2; stat("fault.message_duplicated"); ++faultsSeen; }
        for (u32 c = 0; c < copies; ++c) { Message x{now + 1 + below(maxDelay), seq++, to, task, result, load}; if (x.at > now + 1) stat("fault.message_delayed"); net.push_back(x); }
    };
    auto dispatch = [&](Task<T>& t) {
        std::vector<Packet> load; for (u32 i : t.inputs) { const Operand& o = in[i]; if (o.isInt) { Packet p; p.isInt = true; p.type = o.type; p.raw = o.raw; load.push_back(p); } else { T v; make(v, o.num); load.push_back(packNumber(v)); } }
        for (const T& v : t.parts) load.push_back(packNumber(v));
        u32 w = below(W); if (t.sends++) stat("recovery.task_resent"); t.deadline = now + timeout + 4 * maxDelay; ev("task", t.id, w, load.size()); send(1 + w, t.id, false, load);
    };
    auto mergeLocally = [&](u32 a, u32 b) { u32 st = below(30); join(pool[a], pool[b], st); pool.erase(pool.begin() + b); order = mix(order ^ (a * 31 + b)); stat("merges_by_coordinator"); };
    for (Task<T>& t : tasks) dispatch(t);
    const u64 bound = quiet + 30000;
    while (openTasks || pool.size() > 1) {
        if (++now > bound) violation("no-progress", "the job did not finish within 30000 steps after the faults had stopped");
        // deliveries due now, in an order of the scheduler's choosing
        std::vector<Message> due; for (size_t i = 0; i < net.size();) if (net[i].at <= now) { due.push_back(std::move(net[i])); net.erase(net.begin() + static_cast<long>(i)); } else ++i;
        while (!due.empty()) { u32 k = below(static_cast<u32>(due.size())); Message x = std::move(due[k]); due.erase(due.begin() + k);
            if (x.to) { Worker<T>& w = workers[x.to - 1]; if (!w.up) { stat("fault.message_to_dead_worker"); continue; } w.queue.push_back(Work<T>{x.task, std::move(x.load)}); }
            else { T v; unpack(v, x.load[0]); Task<T>& t = tasks[x.task];
                if (!t.open) { stat("duplicate_results"); if (!(v == t.answer)) violation("workers-disagree", "two answers to the same part of a %s differ", kindName[kind] + 5); continue; }
                t.open = false; t.answer = v; --openTasks; pool.push_back(v); order = mix(order ^ (x.task + 1)); ev("answer", x.task, openTasks, pool.size()); } }
        // workers
        for (u32 i = 0; i < W; ++i) { Worker<T>& w = workers[i];
            if (!w.up) { if (now >= w.back || !faulty()) { w.up = true; ++w.life; stat("recovery.worker_replaced"); } continue; }
            if (faulty() && crash && below(1000) < crash) { stat("fault.worker_crashed"); ev("crash", i); ++faultsSeen; u32 life = w.life; w = Worker<T>(); w.life = life; w.up = false; w.back = now + 1 + below(30); continue; }
            if (faulty() && stall && below(1000) < stall) { stat("fault.worker_stalled"); w.stalled = now + 1 + below(60); ++faultsSeen; }
            if (now < w.stalled || w.queue.empty()) continue;
            Work<T>& k = w.queue.front(); if (w.done == 0) { w.style = below(30); w.reverse = below(2); }
            const size_t len = k.load.size(); applyPacket(w.acc, w.done == 0, k.load[w.reverse ? len - 1 - w.done : w.done], w.style);
            if (++w.done == len) { std::vector<Packet> r{packNumber(w.acc)}; send(0, k.task, true, r); w.queue.erase(w.queue.begin()); w.done = 0; } }
        // coordinator
        for (size_t i = 0; i < tasks.size(); ++i) if (tasks[i].open && now >= tasks[i].deadline) dispatch(tasks[i]);
        if (pool.size() > 1 && (below(3) == 0 || !openTasks)) { u32 a = below(static_cast<u32>(pool.size())), b = below(static_cast<u32>(pool.size()) - 1); if (b >= a) ++b;
            if (below(2)) mergeLocally(a, b);
            else { Task<T> t; t.id = static_cast<u32>(tasks.size()); t.parts = {pool[a], pool[b]}; pool.erase(pool.begin() + std::max(a, b)); pool.erase(pool.begin() + std::min(a, b)); tasks.push_back(t); ++openTasks; dispatch(tasks.back()); stat("merges_by_workers"); } }
    }
    shm->simTime += now; ev("finished", now, tasks.size());
    // the final number
    Num<BITS> w{}; w.neg = mpz_sgn(want) < 0; size_t cnt = 0; mpz_abs(z, want); mpz_export(w.b, &cnt, -1, 4, 0, 0, z);
    bool same; if constexpr (sgn<T>) same = sameSigned(pool[0], w); else same = sameBlocks(pool[0], w);
    if (!same) { static char t[BITS / 4 + 8]; pool[0].template getString<16>(t, sizeof t, true); violation("wrong-answer", "the %s came out as %s, the answer is %s", kindName[kind] + 5, t, hexOf(w).c_str()); }
    sig(mix(order) ^ mix(BITS)); if (faultsSeen || P > 1) nontrivial();
    mpz_clears(want, z, m, nullptr);
}
void run() { kind = below(Kinds); if (kind >= SignedSum) job<S>(); else job<U>(); }
#define STR2(x) #x
#define STR(x) STR2(x)
Register reg("num" STR(BITS), run, WEIGHT);
}
