// Driver of the runs: explore / replay / hashes. Compiled without instrumentation.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <vector>
#include <string>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <cstdlib>
#include <cerrno>

namespace sim {
Shm* shm = nullptr; bool tracing = false; const char* PROPERTY = PROP_NAME;

static bool replaying = false;
static const u32* replayTape = nullptr; static u32 replayLen = 0;

static u64 nextRng() { shm->rng += 0x9e3779b97f4a7c15ull; u64 x = shm->rng; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static u32 record(u32 v) { if (shm->tapeLen >= TAPE_MAX) discard("tape full"); shm->tape[shm->tapeLen++] = v; return v; }
u32 draw32(u32 n) {
    if (replaying) { u32 v = shm->replayPos < replayLen ? replayTape[shm->replayPos] : 0; ++shm->replayPos; return record(v % n); }
    return record(static_cast<u32>(((nextRng() >> 32) * n) >> 32));
}
u32 word() {
    if (replaying) { u32 v = shm->replayPos < replayLen ? replayTape[shm->replayPos] : 0; ++shm->replayPos; return record(v); }
    return record(static_cast<u32>(nextRng() >> 32));
}
void tracef(const char* fmt, ...) {
    if (!tracing || shm->traceLen + 512 >= TRACE_MAX) return;
    va_list ap; va_start(ap, fmt); int n = vsnprintf(shm->trace + shm->traceLen, TRACE_MAX - shm->traceLen, fmt, ap); va_end(ap);
    if (n > 0) { shm->traceLen += static_cast<u32>(n); if (shm->traceLen >= TRACE_MAX) shm->traceLen = TRACE_MAX - 1; }
}
void event(u64 h) { shm->hash = mix(shm->hash ^ h); ++shm->events; }
void evs(const char* tag, const char* text) { event(mix(hstr(tag)) ^ hstr(text)); if (tracing) tracef("%s %s\n", tag, text); }
void stat(const char* name, u64 n) {
    for (u32 i = 0; i < shm->nStats; ++i) if (!strcmp(shm->stats[i].name, name)) { shm->stats[i].count += n; return; }
    if (shm->nStats < STATS_MAX) { Stat& s = shm->stats[shm->nStats++]; snprintf(s.name, sizeof s.name, "%s", name); s.count = n; }
}
void sig(u64 h) { if (shm->nSigs < SIGS_MAX) shm->sigs[shm->nSigs++] = h; }
static void finish(u32 st) { shm->state = st; _exit(0); }
void violation(const char* cls, const char* fmt, ...) {
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
    finish(Violation); __builtin_unreachable();
}
void discard(const char* why) { snprintf(shm->msg, sizeof shm->msg, "%s", why); finish(Discard); __builtin_unreachable(); }
void harnessError(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
    finish(HarnessError); __builtin_unreachable();
}

static Entry entries[64]; static u32 nEntries = 0;
void addEntry(const char* name, void (*run)(), u32 weight) { if (nEntries < 64) entries[nEntries++] = Entry{name, run, weight}; }
u32 entryCount() { return nEntries; }
const Entry& entry(u32 i) { return entries[i]; }

static u32 cpuLimit = 10;
bool isolated(size_t (*f)(void*, unsigned char*, size_t), void* arg, unsigned char* out, size_t cap, size_t& len, int& status) {
    unsigned char* m = static_cast<unsigned char*>(mmap(nullptr, cap + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) harnessError("mmap");
    pid_t pid = fork();
    if (pid < 0) harnessError("fork");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);          // nothing outlives the worker
        struct itimerval tv {}; tv.it_value.tv_sec = cpuLimit; setitimer(ITIMER_PROF, &tv, nullptr);
        size_t n = f(arg, m + 16, cap); memcpy(m, &n, sizeof n); m[8] = 1; _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (shm->state != Running) _exit(0);          // the child found a violation (or gave up) itself
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) violation("hang", "no result within the CPU bound of a process");
    status = st; bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && m[8] == 1;
    len = 0; if (ok) { memcpy(&len, m, sizeof len); memcpy(out, m + 16, len); }
    munmap(m, cap + 16); return ok;
}

struct Result { u32 state; std::string cls, msg; std::vector<u32> tape; u64 hash; };

static int devnull = -1;
static void runOne() {
    u32 total = 0; for (u32 i = 0; i < nEntries; ++i) total += entries[i].weight;
    u32 pick = below(total), i = 0; while (pick >= entries[i].weight) pick -= entries[i++].weight;
    evs("entry", entries[i].name); entries[i].run(); finish(Ok);
}
static Result execute(u64 seed, const std::vector<u32>* tape, bool trace) {
    shm->state = Running; shm->cls[0] = shm->msg[0] = 0; shm->tapeLen = 0; shm->hash = 0; shm->events = 0; shm->traceLen = 0; shm->nSigs = 0; shm->simTime = 0; shm->nontrivial = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(devnull, 2); dup2(devnull, 1);
        struct itimerval tv {}; tv.it_value.tv_sec = cpuLimit; setitimer(ITIMER_PROF, &tv, nullptr);
        struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        alarm(400);
        tracing = trace; shm->rng = seed; shm->replayPos = 0;
        if (tape) { replaying = true; replayTape = tape->data(); replayLen = static_cast<u32>(tape->size()); }
        runOne();
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    Result r; r.state = shm->state; r.hash = shm->hash;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGKILL || s == SIGALRM) { r.state = HarnessError; r.msg = "child killed by signal " + std::to_string(s); }
        else if (s == SIGPROF) { r.state = Violation; r.cls = "hang"; r.msg = "no result within the CPU bound of a run"; }
        else { r.state = Violation; r.cls = std::string("crash:") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : std::to_string(s).c_str()); r.msg = "process died; last: "; r.msg += shm->msg; }
    } else if (r.state == Running) { r.state = Violation; r.cls = "crash:exit"; r.msg = "process exited by itself"; }
    else { r.cls = shm->cls; r.msg = shm->msg; }
    r.tape.assign(shm->tape, shm->tape + shm->tapeLen);
    return r;
}

// Another worker may have found a violation: this one then stops at the first run that comes after it.
static std::string stopFile; static u64 currentRun = 0;
static bool stopped() { if (stopFile.empty()) return false; FILE* f = fopen(stopFile.c_str(), "r"); if (!f) return false; unsigned long long n = 0; const bool got = fscanf(f, "%llu", &n) == 1; fclose(f); return got && currentRun > n; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }

// A run that met the CPU bound is given four times as much before it is called hung: how fast the machine is decides nothing.
static Result executeFully(u64 seed, const std::vector<u32>* tape, bool trace) {
    Result r = execute(seed, tape, trace);
    if (r.state == Violation && r.cls == "hang") { const u32 keep = cpuLimit; cpuLimit *= 4; r = execute(seed, tape, trace); cpuLimit = keep; if (r.cls != "hang") stat("slow_runs_repeated"); }
    return r;
}
static bool still(const std::vector<u32>& t, const std::string& cls, Result& out) { out = execute(0, &t, false); return out.state == Violation && out.cls == cls; }
static std::vector<u32> minimise(std::vector<u32> best, const std::string& cls, u32& attempts, double budget) {
    const double t0 = now(); Result r; u32 maxAttempts = 6000; attempts = 0;
    auto attempt = [&](const std::vector<u32>& t) { if (attempts >= maxAttempts || now() - t0 > budget) return false; if (++attempts % 8 == 0 && stopped()) { attempts = maxAttempts; return false; } if (!still(t, cls, r)) return false;
        // keep the tape actually consumed if it is no longer
        best = r.tape.size() <= t.size() ? r.tape : t; return true; };
    bool progress = true;
    while (progress && attempts < maxAttempts && now() - t0 < budget) {
        progress = false;
        for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) { while (best.size() > cut) { std::vector<u32> t(best.begin(), best.end() - static_cast<long>(cut)); if (attempt(t)) progress = true; else break; } if (cut == 1) break; }
        for (size_t chunk = std::min<size_t>(64, best.size()); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size();) { std::vector<u32> t = best; t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + chunk)); size_t before = best.size(); if (attempt(t) && best.size() < before) progress = true; else i += chunk; if (attempts >= maxAttempts) break; }
            if (chunk == 1) break;
        }
        for (size_t chunk = std::min<size_t>(32, best.size()); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size(); i += chunk) { bool any = false; std::vector<u32> t = best; for (size_t k = i; k < i + chunk; ++k) { if (t[k]) any = true; t[k] = 0; } if (any && attempt(t)) progress = true; }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size(); ++i) { u32 lo = 0, hi = best[i]; u32 guard = 0; while (lo < hi && guard++ < 34) { u32 mid = lo + (hi - lo) / 2; std::vector<u32> t = best; t[i] = mid; size_t n = best.size(); if (attempt(t)) { if (best.size() != n || i >= best.size()) break; hi = best[i] < mid ? best[i] : mid; if (mid) progress = true; } else lo = mid + 1; } }
    }
    return best;
}

static std::string jsonEsc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c)); o += b; } else o += c; } return o; }

static bool readTape(const char* path, std::vector<u32>& tape, std::string& cls) {
    FILE* f = fopen(path, "r"); if (!f) return false; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
    size_t p = s.find("\"tape\""); if (p == std::string::npos) return false; p = s.find('[', p); if (p == std::string::npos) return false; ++p;
    while (p < s.size() && s[p] != ']') { if (s[p] >= '0' && s[p] <= '9') { char* e; tape.push_back(static_cast<u32>(strtoull(s.c_str() + p, &e, 10))); p = static_cast<size_t>(e - s.c_str()); } else ++p; }
    size_t q = s.find("\"class\": \""); if (q != std::string::npos) { q += 10; size_t e = s.find('"', q); cls = s.substr(q, e - q); }
    return true;
}
}

using namespace sim;
int main(int argc, char** argv) {
    if (!getenv("SIM_REEXEC")) {      // fixed address space and environment: the run must not depend on them
        personality(ADDR_NO_RANDOMIZE);
        char* envp[] = { const_cast<char*>("SIM_REEXEC=1"), const_cast<char*>("LC_ALL=C"), const_cast<char*>("PATH=/usr/bin:/bin"), nullptr };
        char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n > 0) { self[n] = 0; execve(self, argv, envp); }
    }
    std::string mode = argc > 1 ? argv[1] : "help", out, file; u64 seed = 1, start = 0, count = 100, stride = 1; double deadline = 1e9; double minBudget = 60; bool printHashes = false; std::vector<std::string> known; std::vector<u64> knownHits(64);
    for (int i = 2; i < argc; ++i) { std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10); else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10); else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--deadline") deadline = strtod(val().c_str(), nullptr); else if (a == "--out") out = val(); else if (a == "--cpu") cpuLimit = static_cast<u32>(atoi(val().c_str()));
        else if (a == "--stop") stopFile = val(); else if (a == "--minimise") minBudget = strtod(val().c_str(), nullptr); else if (a == "--hashes") printHashes = true; else if (a == "--known") known.push_back(val()); else file = a; }
    devnull = open("/dev/null", O_RDWR);
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED) return 3;
    const double t0 = now();

    if (mode == "replay") {
        std::vector<u32> tape; std::string cls; if (!readTape(file.c_str(), tape, cls)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
        Result r = executeFully(0, &tape, true);
        fwrite(shm->trace, 1, shm->traceLen, stdout);
        printf("RESULT state=%u class=%s hash=%016llx expected=%s\nMESSAGE %s\n", r.state, r.cls.c_str(), static_cast<unsigned long long>(r.hash), cls.c_str(), r.msg.c_str());
        return r.state == Violation ? 1 : r.state == HarnessError ? 3 : 0;
    }
    if (mode == "explore") {
        u64 done = 0, discards = 0, events = 0, simTime = 0, nontriv = 0, nontrivRuns = 0; std::unordered_set<u64> sigs, hashes; FILE* hf = printHashes ? fopen((out + ".hashes").c_str(), "w") : nullptr;
        std::string violationJson; int rc = 0; std::string harness; u64 dblChecked = 0; u32 unstable = 0; std::string sample;
        for (u64 i = 0; i < count; ++i) {
            if (now() - t0 > deadline) break;
            u64 run = start + i * stride; currentRun = run; if (stopped()) break; u64 s = mix(mix(seed) ^ mix(run + 0x5151));
            Result r = executeFully(s, nullptr, false);
            if (hf) fprintf(hf, "%llu %u %016llx %zu\n", static_cast<unsigned long long>(run), r.state, static_cast<unsigned long long>(r.hash), r.tape.size());
            if (r.state == HarnessError) { harness = r.msg; rc = 3; break; }
            if (r.state == Discard) { ++discards; continue; }
            ++done; events += shm->events; simTime += shm->simTime; nontriv += shm->nontrivial; if (shm->nontrivial) { ++nontrivRuns; hashes.insert(r.hash); for (u32 k = 0; k < shm->nSigs; ++k) sigs.insert(shm->sigs[k]); }
            if (r.state == Ok && (i % 64 == 7)) {   // continuous determinism self-check
                u64 h = r.hash; u32 n = shm->nStats; Stat keep[STATS_MAX]; memcpy(keep, shm->stats, sizeof keep); Result r2 = executeFully(s, nullptr, false); shm->nStats = n; memcpy(shm->stats, keep, sizeof keep); ++dblChecked;
                if (r2.hash != h || r2.state != Ok) { char b[200]; snprintf(b, sizeof b, "run %llu is not deterministic", static_cast<unsigned long long>(run)); harness = b; rc = 3; if (++unstable > 20) break; }
            }
            if (r.state == Violation) {
                bool isKnown = false;
                for (size_t k = 0; k < known.size() && k < 64; ++k) { size_t c = known[k].find('\x01'); if (r.cls == known[k].substr(0, c) && r.msg.find(known[k].substr(c + 1)) != std::string::npos) { ++knownHits[k]; isKnown = true; } }
                if (isKnown) continue;
                u32 n = shm->nStats; static Stat keep[STATS_MAX]; memcpy(keep, shm->stats, sizeof keep);
                Result again = r.cls == "hang" ? r : execute(s, nullptr, false);
                bool same = again.state == Violation && again.cls == r.cls && again.hash == r.hash;
                u32 attempts = 0; std::vector<u32> best = r.tape;
                if (same) { Result rr; if (still(r.tape, r.cls, rr)) best = minimise(r.tape, r.cls, attempts, minBudget); else same = false; }
                if (!same && ++unstable <= 20) { harness = "the violation of run " + std::to_string(run) + " did not repeat: " + r.cls; rc = 3; shm->nStats = n; memcpy(shm->stats, keep, sizeof keep); continue; }
                Result fin = executeFully(0, &best, true); if (r.cls == "hang" && fin.cls != "hang") { best = r.tape; fin = executeFully(0, &best, true); } std::string trace(shm->trace, shm->traceLen);
                if (trace.size() > 60000) trace = trace.substr(0, 30000) + "\n...\n" + trace.substr(trace.size() - 30000);
                shm->nStats = n; memcpy(shm->stats, keep, sizeof keep);
                char b[512]; snprintf(b, sizeof b, "{\"property\": \"%s\", \"seed\": %llu, \"run\": %llu, \"reproduced\": %s, \"minimise_attempts\": %u, \"original_tape\": %zu, ", PROPERTY, static_cast<unsigned long long>(seed), static_cast<unsigned long long>(run), same ? "true" : "false", attempts, r.tape.size());
                violationJson = b; violationJson += "\"class\": \"" + jsonEsc(r.cls) + "\", \"message\": \"" + jsonEsc(same ? fin.msg : r.msg) + "\", \"tape\": [";
                for (size_t k = 0; k < best.size(); ++k) violationJson += (k ? "," : "") + std::to_string(best[k]);
                violationJson += "], \"trace\": \"" + jsonEsc(trace) + "\"}"; rc = 1; break;
            }
            if (r.state == Ok && sample.empty() && nontriv && done > 3) { u32 n = shm->nStats; static Stat keep[STATS_MAX]; memcpy(keep, shm->stats, sizeof keep); execute(s, nullptr, true); shm->nStats = n; memcpy(shm->stats, keep, sizeof keep); sample.assign(shm->trace, std::min<u32>(shm->traceLen, 1500)); sample = "run " + std::to_string(run) + ": " + sample; }
        }
        if (hf) fclose(hf);
        std::string j = "{\"done\": " + std::to_string(done) + ", \"discards\": " + std::to_string(discards) + ", \"events\": " + std::to_string(events) + ", \"sim_time\": " + std::to_string(simTime) + ", \"nontrivial\": " + std::to_string(nontriv) + ", \"nontrivial_runs\": " + std::to_string(nontrivRuns) + ", \"determinism_rechecks\": " + std::to_string(dblChecked) + ", \"wall\": " + std::to_string(now() - t0) + ", \"harness\": \"" + jsonEsc(harness) + "\", \"sample\": \"" + jsonEsc(sample) + "\", \"stats\": {";
        for (u32 k = 0; k < shm->nStats; ++k) j += std::string(k ? ", " : "") + "\"" + jsonEsc(shm->stats[k].name) + "\": " + std::to_string(shm->stats[k].count);
        j += "}, \"known\": {"; for (size_t k = 0; k < known.size() && k < 64; ++k) j += std::string(k ? ", " : "") + "\"" + jsonEsc(known[k]) + "\": " + std::to_string(knownHits[k]);
        j += "}, \"violation\": " + (violationJson.empty() ? std::string("null") : violationJson) + "}";
        if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fwrite(j.data(), 1, j.size(), f); fclose(f);
            f = fopen((out + ".sigs").c_str(), "w"); for (u64 h : (sigs.empty() ? hashes : sigs)) fwrite(&h, 8, 1, f); fclose(f); }
        else printf("%s\n", j.c_str());
        return rc;
    }
    fprintf(stderr, "usage: %s explore|replay ...\n", argv[0]); return 3;
}
