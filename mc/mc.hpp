// mc.hpp - bounded-exhaustive stateless explorer for C++ implementations.
//
// A section is a function run(Exec&).  Every nondeterministic decision goes through Exec::choose(n); the engine
// enumerates every path of the resulting choice tree (depth first, no sampling), sharded over forked workers.
// See DESIGN.md for the execution model.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <exception>
#include <algorithm>
#include <array>
#include <climits>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>

namespace mc {

// ------------------------------------------------------------------ allocation accounting
struct AllocStats { long long live; long long live_bytes; unsigned long long total, total_bytes; };
extern AllocStats g_alloc;
extern bool g_alloc_fail_big;
struct AllocFault { unsigned long long at; bool persist; unsigned long long seen, fired; bool armed; unsigned long long at2; };   // while armed, allocation number `at` (and all later ones) fails
extern AllocFault g_alloc_fault;

// ------------------------------------------------------------------ hashing
struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& u(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return *this; }
    Hash& s(const std::string& x) { u(x.size()); for (size_t i = 0; i < x.size(); ++i) { h ^= (unsigned char)x[i]; h *= 1099511628211ull; } h ^= h >> 29; return *this; }
    template <class C> Hash& seq(const C& c) { u(c.size()); for (auto& x : c) u((uint64_t)x); return *this; }
    operator uint64_t() const { uint64_t x = h; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x ? x : 1; }
};

constexpr int kMaxDepth = 16384;
constexpr int kRing = 32;
constexpr int kRingDepth = 600;
constexpr int kMaxWorkers = 16;
constexpr int kMaxKnown = 256;
constexpr int kSamples = 6;

struct Slot {
    volatile uint64_t execs, skipped, transitions, beat;
    volatile uint32_t depth;              // choices taken so far in the running execution
    uint32_t choice[kMaxDepth], arity[kMaxDepth];
    volatile int in_exec, done, has_violation;
    char op[160];                          // label of the operation being executed
    char sig[256];
    char msg[4096];
    uint32_t ring_pos;
    uint32_t ring_len[kRing];
    uint32_t ring[kRing][kRingDepth];
    int nsamples;
    uint32_t sample_len[kSamples];
    uint32_t sample[kSamples][kRingDepth];
    uint64_t next_sample;
};

struct Shared {
    volatile int stop;
    volatile int timed_out;
    volatile uint64_t states, outcomes, state_overflow, claim_overflow;
    volatile uint64_t known_count[kMaxKnown];
    volatile uint64_t unreproduced;
    Slot slot[kMaxWorkers];
};

struct HashSet {
    uint64_t* t = nullptr; uint64_t mask = 0; volatile uint64_t* used = nullptr;
    void init(int bits);
    void clear();
    // 1 = newly inserted, 0 = present, -1 = full
    int insert(uint64_t h);
};

struct Skip {};
struct Violated {};

class Exec {
public:
    Slot* s = nullptr;
    const uint32_t* prefix = nullptr; uint32_t prefix_len = 0; const uint32_t* prefix_arity = nullptr;
    bool tracing = false, replay = false, throwing = true, skip = false, failed = false;
    uint64_t prod = 1; bool sharded = false; uint64_t path_hash = 0x1234567;
    int logfd = -1;

    unsigned choose(unsigned n);
    // large flat domains: two level choice so that sharding stays cheap
    unsigned range(unsigned n) {
        if (n <= 2048) return choose(n);
        unsigned b = choose((n + 1023) / 1024);
        unsigned left = n - b * 1024; if (left > 1024) left = 1024;
        return b * 1024 + choose(left);
    }
    bool flag() { return choose(2) != 0; }
    template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[choose((unsigned)N)]; }
    template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[choose((unsigned)c.size())]; }

    void op(const char* label) { strncpy(s->op, label, sizeof s->op - 1); s->beat = s->beat + 1; }
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void transition(uint64_t n = 1) { s->transitions = s->transitions + n; }
    void beat() { s->beat = s->beat + 1; }
    void state(uint64_t h);
    void outcome(uint64_t h);
    // report a violation. In throwing mode unwinds; otherwise terminates the worker.
    void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void check(bool ok, const char* sig, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
};

struct Section {
    const char* name;
    void (*run)(Exec&);
    bool leak_check;
    int shard;                // shard once the arity product reaches this (0: default)
    bool thorough_only;
    bool throwing;
    double hang_s;
};
std::vector<Section>& sections();
struct Register {
    Register(const char* n, void (*f)(Exec&), bool leak = true, bool thorough_only = false, int shard = 0, bool throwing = true, double hang_s = 15) {
        sections().push_back(Section{n, f, leak, shard, thorough_only, throwing, hang_s});
    }
};
bool thorough();
// pick the bound for the tier
template <class T> T tier(T quick, T deep) { return thorough() ? deep : quick; }

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(fn, ...) static void fn(mc::Exec& e); static mc::Register MC_CAT(mc_reg_, __LINE__)(#fn, fn, ##__VA_ARGS__); static void fn(mc::Exec& e)
#define MC_LOG(e, ...) do { if ((e).tracing) (e).log(__VA_ARGS__); } while (0)

// directory private to this process, inside the directory run.py creates and removes
std::string scratch();
std::string hex(const std::string& s);
std::string quote(const std::string& s);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
} // namespace mc

#ifdef MC_MAIN
#include <algorithm>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>

namespace mc {
std::string scratch() {
    static pid_t owner = 0; static char dir[300];
    if (owner != getpid()) {
        owner = getpid(); const char* b = getenv("MC_SCRATCH");
        if (!b || !*b) { fprintf(stderr, "MC_SCRATCH is not set\n"); abort(); }
        snprintf(dir, sizeof dir, "%s/%d", b, (int)owner); mkdir(dir, 0700);
    }
    return dir;
}

AllocStats g_alloc = {0, 0, 0, 0};
bool g_alloc_fail_big = true;
AllocFault g_alloc_fault = {0, false, 0, 0, false, 0};
static Shared* g_sh;
static HashSet g_states, g_outcomes, g_claims;
static bool g_thorough = false;
static std::vector<std::string> g_known;      // known signatures
static int g_worker = 0;

bool thorough() { return g_thorough; }
std::vector<Section>& sections() { static std::vector<Section> v; return v; }

std::string strf(const char* fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
std::string hex(const std::string& s) { std::string r; for (unsigned char c : s) r += strf("%02x", c); return r; }
std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) r += strf("\\x%02x", c); else r += (char)c; }
    return r + "\"";
}

void HashSet::init(int bits) {
    size_t n = (size_t)1 << bits;
    t = (uint64_t*)mmap(nullptr, n * 8 + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) { perror("mmap"); exit(3); }
    mask = n - 1; used = t + n;
}
void HashSet::clear() { madvise(t, (mask + 1) * 8 + 4096, MADV_REMOVE); if (*used) { memset(t, 0, (mask + 1) * 8); *used = 0; } }
int HashSet::insert(uint64_t h) {
    if (!h) h = 1;
    uint64_t i = h & mask;
    for (int k = 0; k < 4096; ++k, i = (i + 1) & mask) {
        uint64_t v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
        if (v == h) return 0;
        if (v == 0) {
            if (*used > mask / 10 * 8) return -1;
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(used, 1, __ATOMIC_RELAXED); return 1; }
            if (z == h) return 0;
        }
    }
    return -1;
}

// claim table: entry = hash with low 4 bits replaced by worker id + 1
static int claim(uint64_t h, int w) {
    h &= ~(uint64_t)31; if (!h) h = 32;
    uint64_t me = h | (uint64_t)(w + 1);
    uint64_t i = (h >> 5) & g_claims.mask;
    for (int k = 0; k < 100000; ++k, i = (i + 1) & g_claims.mask) {
        uint64_t v = __atomic_load_n(&g_claims.t[i], __ATOMIC_ACQUIRE);
        if ((v & ~(uint64_t)31) == h) return v == me;
        if (v == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&g_claims.t[i], &z, me, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { __atomic_fetch_add(g_claims.used, 1, __ATOMIC_RELAXED); return 1; }
            if ((z & ~(uint64_t)31) == h) return z == me;
        }
    }
    return 1;
}

static uint64_t g_shard_at = 1024;

unsigned Exec::choose(unsigned n) {
    if (n <= 1) return 0;
    if (skip) return 0;
    uint32_t d = s->depth;
    if (d >= kMaxDepth) { fail("engine:depth", "choice depth exceeded"); return 0; }
    unsigned c = 0;
    if (d < prefix_len) {
        c = prefix[d];
        if (prefix_arity && prefix_arity[d] != n) { prefix_len = d; fail("nondeterminism", "arity at choice %u was %u and is now %u: the same history behaved differently twice", d, prefix_arity[d], n); return 0; }
        if (c >= n) { fail("nondeterminism", "choice %u out of range (%u >= %u)", d, c, n); return 0; }
    }
    s->choice[d] = c; s->arity[d] = n; s->depth = d + 1;
    path_hash ^= (uint64_t)(c + 1) + 0x9e3779b97f4a7c15ull + (path_hash << 7) + (path_hash >> 3); path_hash *= 0xff51afd7ed558ccdull; path_hash ^= path_hash >> 31;
    prod = prod * n; if (prod > (1ull << 40)) prod = 1ull << 40;
    if (!sharded && prod >= g_shard_at) {
        sharded = true;
        if (!replay && !claim(path_hash, g_worker)) { skip = true; if (throwing) throw Skip(); return c; }
    }
    return c;
}

void Exec::log(const char* fmt, ...) {
    if (!tracing) return;
    char b[8192]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, a); va_end(a);
    if (n > (int)sizeof b - 3) n = sizeof b - 3;
    b[n] = '\n';
    if (logfd >= 0) { ssize_t r = write(logfd, b, n + 1); (void)r; }
}
void Exec::state(uint64_t h) {
    if (skip) return;
    int r = g_states.insert(h);
    if (r == 1) __atomic_fetch_add(&g_sh->states, 1, __ATOMIC_RELAXED); else if (r < 0) g_sh->state_overflow = 1;
}
void Exec::outcome(uint64_t h) { if (!skip && g_outcomes.insert(h) == 1) __atomic_fetch_add(&g_sh->outcomes, 1, __ATOMIC_RELAXED); }

static void vfail(Exec& e, const char* sig, const char* fmt, va_list a) {
    if (e.skip && strncmp(sig, "nondet", 6)) { if (e.throwing) throw Skip(); return; }
    if (!e.failed) {
        e.failed = true;
        strncpy(e.s->sig, sig, sizeof e.s->sig - 1);
        vsnprintf(e.s->msg, sizeof e.s->msg, fmt, a);
        if (e.tracing) e.log("VIOLATED [%s] %s", e.s->sig, e.s->msg);
        e.s->has_violation = 1;
    }
    if (e.throwing) throw Violated();
    _exit(77);
}
void Exec::fail(const char* sg, const char* fmt, ...) { va_list a; va_start(a, fmt); vfail(*this, sg, fmt, a); va_end(a); }
void Exec::check(bool ok, const char* sg, const char* fmt, ...) { if (ok) return; va_list a; va_start(a, fmt); vfail(*this, sg, fmt, a); va_end(a); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// run one execution; returns true if violated
static bool run_body(Exec& e, const Section& sec) {
    try { sec.run(e); }
    catch (const Skip&) { e.skip = true; }
    catch (const Violated&) {}
    catch (const std::exception& x) { if (!e.skip && !e.failed) { e.failed = true; strncpy(e.s->sig, (std::string("escaped-exception:") + e.s->op).substr(0, 250).c_str(), 255); snprintf(e.s->msg, sizeof e.s->msg, "unexpected exception escaped from [%s]: %s", e.s->op, x.what()); if (e.tracing) e.log("VIOLATED [%s] %s", e.s->sig, e.s->msg); } }
    catch (...) { if (!e.skip && !e.failed) { e.failed = true; strncpy(e.s->sig, (std::string("escaped-exception:") + e.s->op).substr(0, 250).c_str(), 255); snprintf(e.s->msg, sizeof e.s->msg, "unexpected non-standard exception escaped from [%s]", e.s->op); if (e.tracing) e.log("VIOLATED [%s] %s", e.s->sig, e.s->msg); } }
    return e.failed;
}
static bool run_one(Slot* s, const Section& sec, const uint32_t* pfx, const uint32_t* par, uint32_t plen, bool replay, int logfd, bool& skipped) {
    s->sig[0] = 0; s->msg[0] = 0; s->has_violation = 0; s->depth = 0; s->op[0] = 0; s->in_exec = 1; s->beat = s->beat + 1;
    bool bad; long long before = g_alloc.live;
    { Exec e; e.s = s; e.prefix = pfx; e.prefix_arity = par; e.prefix_len = plen; e.replay = replay; e.tracing = logfd >= 0; e.logfd = logfd; e.throwing = sec.throwing;
      bad = run_body(e, sec); skipped = e.skip && !bad;
      if (!bad && !e.skip && !e.sharded && !replay && !claim(e.path_hash, g_worker)) skipped = true; }
    if (!bad && !skipped && sec.leak_check && g_alloc.live != before) {
        // discount one-time initialisation: run the very same path again
        static std::vector<uint32_t> c, a; uint32_t d = s->depth; c.assign(s->choice, s->choice + d); a.assign(s->arity, s->arity + d);
        c.reserve(kMaxDepth); a.reserve(kMaxDepth);
        long long b2 = g_alloc.live; bool bad2;
        { Exec e; e.s = s; s->depth = 0; e.prefix = c.data(); e.prefix_arity = a.data(); e.prefix_len = d; e.replay = true; e.throwing = sec.throwing; e.tracing = logfd >= 0; e.logfd = logfd;
          bad2 = run_body(e, sec); }
        if (bad2) bad = true;
        else if (g_alloc.live != b2) {
            snprintf(s->sig, sizeof s->sig, "leak"); bad = true;
            snprintf(s->msg, sizeof s->msg, "the history leaves %lld live allocation(s) behind after everything was destroyed (memory not released exactly once)", g_alloc.live - b2);
            if (logfd >= 0) { Exec e; e.s = s; e.tracing = true; e.logfd = logfd; e.log("VIOLATED [leak] %s", s->msg); }
        }
    }
    s->in_exec = 0;
    return bad;
}

static int known_index(const char* sig) { for (size_t i = 0; i < g_known.size(); ++i) if (g_known[i] == sig) return (int)i; return -1; }

static bool next_path(Slot* s, std::vector<uint32_t>& c, std::vector<uint32_t>& a) {
    uint32_t d = s->depth;
    c.assign(s->choice, s->choice + d); a.assign(s->arity, s->arity + d);
    while (!c.empty() && c.back() + 1 >= a.back()) { c.pop_back(); a.pop_back(); }
    if (c.empty()) return false;
    c.back()++;
    return true;
}

static void worker(int w, const Section& sec, std::vector<uint32_t> c, std::vector<uint32_t> a) {
    g_worker = w; Slot* s = &g_sh->slot[w];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    c.reserve(kMaxDepth); a.reserve(kMaxDepth);
    std::vector<uint32_t> pc, pa; pc.reserve(kMaxDepth); pa.reserve(kMaxDepth);
    while (!g_sh->stop) {
        bool skipped = false;
        pc = c; pa = a;
        bool bad = run_one(s, sec, pc.data(), pa.data(), (uint32_t)pc.size(), false, -1, skipped);
        if (skipped) s->skipped = s->skipped + 1;
        else {
            s->execs = s->execs + 1;
            uint32_t d = s->depth;
            if (d <= kRingDepth) { uint32_t p = s->ring_pos % kRing; s->ring_len[p] = d; memcpy(s->ring[p], s->choice, d * 4); s->ring_pos++; }
            if (s->execs >= s->next_sample && d <= kRingDepth && !bad) {
                int k = s->nsamples % kSamples; s->sample_len[k] = d; memcpy(s->sample[k], s->choice, d * 4); s->nsamples++;
                s->next_sample = s->next_sample * 7 + 3;
            }
        }
        if (bad) {
            int k = known_index(s->sig);
            if (k >= 0) __atomic_fetch_add(&g_sh->known_count[k], 1, __ATOMIC_RELAXED);
            else { s->has_violation = 1; _exit(77); }
        }
        if (!next_path(s, c, a)) break;
    }
    s->done = 1;
    _exit(0);
}

struct Replay { std::string section; std::vector<std::vector<uint32_t>> paths; };

// replay a sequence of paths in a fresh process. 0 ok, 1 violated, 2 crashed, 3 hung.
static int replay_child(const Section& sec, const Replay& r, const std::string& logpath, const std::string& errpath, double limit, Slot* s) {
    s->sig[0] = 0; s->msg[0] = 0; s->has_violation = 0; s->op[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int lf = open(logpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        int ef = open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(ef, 2);
        bool bad = false, sk = false;
        for (size_t i = 0; i < r.paths.size() && !bad; ++i) {
            bool last = i + 1 == r.paths.size();
            std::vector<uint32_t> c = r.paths[i];
            bad = run_one(s, sec, c.data(), nullptr, (uint32_t)c.size(), true, (last || r.paths.size() < 4) ? lf : -1, sk);
        }
        if (bad) s->has_violation = 1;
        _exit(bad ? 77 : 0);
    }
    double t0 = now(); int st = 0;
    for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 3; }
        usleep(2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && s->sig[0]) return 1;
    return 2;
}

static std::string slurp(const std::string& p, size_t max = 200000) { std::ifstream f(p); std::stringstream b; b << f.rdbuf(); std::string r = b.str(); if (r.size() > max) r.resize(max); return r; }
static std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c == 127) r += strf("\\u%04x", c); else if (c >= 128) r += strf("\\u%04x", c); else r += (char)c; }
    return r + "\"";
}

struct SectionStats { std::string name; uint64_t execs, states, transitions, outcomes, skipped; bool exhaustive, overflow; double wall; std::vector<std::string> samples; };
struct Found { bool any = false; std::string section, sig, msg, kind, log, err; Replay rep; };

static std::string crash_kind(const std::string& err) {
    size_t p;
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) { std::string k = err.substr(p + 25); size_t q = k.find_first_of(" \n"); return "asan-" + k.substr(0, q); }
    if ((p = err.find("runtime error: ")) != std::string::npos) { std::string k = err.substr(p + 15); size_t q = k.find('\n'); k = k.substr(0, q); std::string o; for (char c : k) { if (o.size() > 60) break; o += (isalpha((unsigned char)c) ? c : '-'); } return "ubsan-" + o; }
    if (err.find("Assertion '") != std::string::npos) return "glibcxx-assertion";
    return "crash";
}

static std::string g_tmp;

static Found explore(const Section& sec, double deadline, int nw, SectionStats& st) {
    Found f; double t0 = now();
    g_shard_at = sec.shard ? sec.shard : 1024;
    g_states.clear(); g_outcomes.clear(); g_claims.clear();
    g_sh->stop = 0; g_sh->timed_out = 0; g_sh->states = g_sh->outcomes = g_sh->state_overflow = 0;
    for (int i = 0; i < nw; ++i) { Slot* s = &g_sh->slot[i]; s->execs = s->skipped = s->transitions = s->beat = 0; s->depth = 0; s->done = 0; s->has_violation = 0; s->ring_pos = 0; s->nsamples = 0; s->next_sample = 1; }
    std::vector<pid_t> pid(nw, 0); std::vector<uint64_t> beat(nw, 0); std::vector<double> beat_t(nw, now());
    std::vector<int> retries(nw, 0);
    for (int i = 0; i < nw; ++i) { fflush(nullptr); pid_t p = fork(); if (p == 0) worker(i, sec, {}, {}); pid[i] = p; }
    int alive = nw; std::map<std::string, int> crash_seen;
    while (alive > 0) {
        int status; pid_t p = waitpid(-1, &status, WNOHANG);
        if (p <= 0) {
            double t = now();
            if (t > deadline && !g_sh->stop) { g_sh->timed_out = 1; g_sh->stop = 1; }
            for (int i = 0; i < nw; ++i) if (pid[i]) {
                uint64_t b = g_sh->slot[i].beat;
                if (b != beat[i]) { beat[i] = b; beat_t[i] = t; }
                else if (t - beat_t[i] > sec.hang_s) { kill(pid[i], SIGKILL); beat_t[i] = t + 1e9; }
            }
            usleep(3000); continue;
        }
        int w = -1; for (int i = 0; i < nw; ++i) if (pid[i] == p) w = i;
        if (w < 0) continue;
        pid[w] = 0; alive--;
        Slot* s = &g_sh->slot[w];
        if (s->done) continue;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        bool hang = beat_t[w] > 1e8 && WIFSIGNALED(status);
        // the worker died inside an execution
        Replay r; r.section = sec.name; uint32_t d = s->depth; r.paths.push_back(std::vector<uint32_t>(s->choice, s->choice + d));
        std::vector<uint32_t> vc(s->choice, s->choice + d), va(s->arity, s->arity + d);
        std::string wsig = s->sig, wmsg = s->msg, wop = s->op; int whas = s->has_violation;
        if (!f.any && !(g_sh->stop && !g_sh->timed_out)) {
            Slot* rs = &g_sh->slot[kMaxWorkers - 1];
            std::string lp = g_tmp + "/log", ep = g_tmp + "/err";
            int res = 0;
            for (int k = 0; k < 2 && res == 0; ++k) res = replay_child(sec, r, lp, ep, hang ? 60 : 60, rs);
            if (res == 0 && !hang) {
                // depends on earlier executions in the same process (hidden shared state): replay a longer history
                for (int n : {1, 4, kRing}) {
                    Replay r2; r2.section = sec.name; uint32_t have = s->ring_pos < kRing ? s->ring_pos : kRing;
                    for (uint32_t i = have < (uint32_t)n ? 0 : have - n; i < have; ++i) { uint32_t q = (s->ring_pos - have + i) % kRing; r2.paths.push_back(std::vector<uint32_t>(s->ring[q], s->ring[q] + s->ring_len[q])); }
                    r2.paths.push_back(r.paths[0]);
                    res = replay_child(sec, r2, lp, ep, 120, rs);
                    if (res) { r = r2; break; }
                }
            }
            if (res == 0 && whas) { res = 4; rs->sig[0] = 0; strncpy(rs->sig, wsig.c_str(), 255); strncpy(rs->msg, (wmsg + " (seen by a worker after many executions in one process; not reproduced by its last 32 executions alone)").c_str(), sizeof rs->msg - 1); }
            if (res) {
                std::string err = slurp(ep), sig, msg;
                if (res == 1 || res == 4) { sig = rs->sig; msg = rs->msg; }
                else if (res == 3) { sig = std::string("hang:") + rs->op; msg = std::string("the operation [") + rs->op + "] does not terminate"; }
                else { std::string k = crash_kind(err); sig = k + ":" + rs->op; msg = "undefined behaviour / crash (" + k + ") in [" + rs->op + "]"; }
                int ki = known_index(sig.c_str());
                if (ki >= 0) __atomic_fetch_add(&g_sh->known_count[ki], 1, __ATOMIC_RELAXED);
                else { f.any = true; f.section = sec.name; f.sig = sig; f.msg = msg; f.rep = r; f.log = slurp(lp, 60000); f.err = err.substr(0, 20000); g_sh->stop = 1; continue; }
            } else g_sh->unreproduced = g_sh->unreproduced + 1;
        }
        if (g_sh->stop) continue;
        // resume after the failing path
        bool more = true;
        while (!vc.empty() && vc.back() + 1 >= va.back()) { vc.pop_back(); va.pop_back(); }
        if (vc.empty()) more = false; else vc.back()++;
        s->execs = s->execs + 1;
        if (more && ++retries[w] < 200000) {
            fflush(nullptr); beat_t[w] = now(); s->has_violation = 0; s->done = 0;
            pid_t q = fork(); if (q == 0) worker(w, sec, vc, va); pid[w] = q; alive++;
        }
    }
    st.name = sec.name; st.execs = st.transitions = st.skipped = 0;
    for (int i = 0; i < nw; ++i) { st.execs += g_sh->slot[i].execs; st.transitions += g_sh->slot[i].transitions; st.skipped += g_sh->slot[i].skipped; }
    st.states = g_sh->states; st.outcomes = g_sh->outcomes; st.overflow = g_sh->state_overflow; st.exhaustive = !g_sh->timed_out && !f.any; st.wall = now() - t0;
    // sample traces
    if (!f.any) {
        int got = 0;
        for (int i = 0; i < nw && got < 2; ++i) {
            Slot* s = &g_sh->slot[i]; int n = s->nsamples < kSamples ? s->nsamples : kSamples;
            if (!n) continue;
            int k = (s->nsamples - 1) % kSamples;
            Replay r; r.section = sec.name; r.paths.push_back(std::vector<uint32_t>(s->sample[k], s->sample[k] + s->sample_len[k]));
            Slot* rs = &g_sh->slot[kMaxWorkers - 1];
            int res = replay_child(sec, r, g_tmp + "/log", g_tmp + "/err", 30, rs);
            if (res == 0) { std::string l = slurp(g_tmp + "/log", 1500); if (l.size()) { st.samples.push_back(l); got++; } }
        }
    }
    return f;
}

static std::string path_text(const Replay& r) {
    std::string o = "section " + r.section + "\n";
    for (auto& p : r.paths) { o += "path"; for (auto c : p) o += strf(" %u", c); o += "\n"; }
    return o;
}

int main_impl(int argc, char** argv) {
    std::string prop = "C00", out, replay_file, replay_dir = "replays", only; double budget = 300; int nw = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") g_thorough = nx() == "thorough"; else if (a == "--out") out = nx(); else if (a == "--replay") replay_file = nx();
        else if (a == "--property") prop = nx(); else if (a == "--replay-dir") replay_dir = nx(); else if (a == "--only") only = nx();
        else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--workers") nw = atoi(nx().c_str()); else if (a == "--known") g_known.push_back(nx());
        else if (a == "--list") { for (auto& s : sections()) printf("%s\n", s.name); return 0; }
    }
    if (nw > kMaxWorkers - 2) nw = kMaxWorkers - 2;
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_sh == MAP_FAILED) { perror("mmap"); return 3; }
    g_states.init(26); g_outcomes.init(22); g_claims.init(24);
    char tmpl[] = "/tmp/mcXXXXXX"; g_tmp = mkdtemp(tmpl);
    auto cleanup = [&]() { unlink((g_tmp + "/log").c_str()); unlink((g_tmp + "/err").c_str()); rmdir(g_tmp.c_str()); };
    if (replay_file.size()) {
        std::ifstream f(replay_file); std::string line; Replay r;
        while (std::getline(f, line)) {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "section") is >> r.section;
            else if (k == "path") { std::vector<uint32_t> p; uint32_t c; while (is >> c) p.push_back(c); r.paths.push_back(p); }
            else if (k == "---") break;
        }
        for (auto& s : sections()) if (r.section == s.name) {
            Slot* rs = &g_sh->slot[kMaxWorkers - 1];
            int res = replay_child(s, r, g_tmp + "/log", g_tmp + "/err", 120, rs);
            std::cout << slurp(g_tmp + "/log") << slurp(g_tmp + "/err") << "replay result: " << (res == 0 ? "held" : res == 1 ? "violated" : res == 2 ? "crashed" : "hung") << std::endl;
            cleanup(); return res == 0 ? 0 : 1;
        }
        std::cout << "no such section " << r.section << std::endl; cleanup(); return 2;
    }
    double t0 = now(), deadline = t0 + budget;
    std::vector<SectionStats> all; Found f;
    std::vector<const Section*> todo; for (auto& s : sections()) { if (only.size() && only != s.name) continue; if (s.thorough_only && !g_thorough) continue; todo.push_back(&s); }
    for (size_t i = 0; i < todo.size(); ++i) {
        SectionStats st; double t = now();
        // a section may use what earlier ones left over, but always keeps a fair share for the later ones
        double share = t + (deadline - t) * (i + 1 == todo.size() ? 1.0 : 0.7);
        f = explore(*todo[i], share, nw, st); all.push_back(st);
        printf("[%s] %-28s executions=%llu states=%llu transitions=%llu outcomes=%llu exhaustive=%d %.1fs\n", prop.c_str(), st.name.c_str(), (unsigned long long)st.execs, (unsigned long long)st.states, (unsigned long long)st.transitions, (unsigned long long)st.outcomes, (int)st.exhaustive, st.wall);
        fflush(stdout);
        if (f.any) break;
    }
    if (f.any) {
        mkdir(replay_dir.c_str(), 0755);
        std::string rp = replay_dir + "/" + prop + "." + f.section + ".txt";
        std::ofstream o(rp); o << path_text(f.rep) << "---\nproperty " << prop << "\nsignature " << f.sig << "\nmessage " << f.msg << "\nhistory:\n" << f.log << "\nstderr:\n" << f.err << "\n"; o.close();
        printf("signature: %s\n%s\nhistory:\n%s\n%s\n", f.sig.c_str(), f.msg.c_str(), f.log.substr(0, 3000).c_str(), f.err.substr(0, 1500).c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
        fflush(stdout);
    }
    if (out.size()) {
        std::ofstream o(out); uint64_t ex = 0, sta = 0, tr = 0, oc = 0; bool exh = true;
        for (auto& s : all) { ex += s.execs; sta += s.states; tr += s.transitions; oc += s.outcomes; exh = exh && s.exhaustive; }
        o << "{\"executions\":" << ex << ",\"states\":" << sta << ",\"transitions\":" << tr << ",\"outcomes\":" << oc << ",\"exhaustive\":" << (exh ? "true" : "false") << ",\"violations\":" << (f.any ? 1 : 0) << ",\"unreproduced\":" << g_sh->unreproduced << ",\"wall\":" << (now() - t0) << ",\"known\":{";
        for (size_t i = 0; i < g_known.size(); ++i) o << (i ? "," : "") << json_str(g_known[i]) << ":" << g_sh->known_count[i];
        o << "},\"sections\":[";
        for (size_t i = 0; i < all.size(); ++i) { auto& s = all[i]; o << (i ? "," : "") << "{\"name\":" << json_str(s.name) << ",\"executions\":" << s.execs << ",\"states\":" << s.states << ",\"transitions\":" << s.transitions << ",\"outcomes\":" << s.outcomes << ",\"exhaustive\":" << (s.exhaustive ? "true" : "false") << ",\"state_set_overflow\":" << (s.overflow ? "true" : "false") << ",\"wall_s\":" << s.wall << ",\"samples\":["; for (size_t k = 0; k < s.samples.size(); ++k) o << (k ? "," : "") << json_str(s.samples[k]); o << "]}"; }
        o << "]}\n";
    }
    cleanup();
    return f.any ? 1 : 0;
}
} // namespace mc

#ifndef MC_NO_ALLOC_HOOK
static inline void* mc_alloc(std::size_t n) {
    if (mc::g_alloc_fail_big && n > ((std::size_t)1 << 28)) throw std::bad_alloc();
    if (mc::g_alloc_fault.armed) { auto& f = mc::g_alloc_fault; ++f.seen; if (f.at && (f.seen == f.at || (f.at2 && f.seen == f.at2) || (f.persist && f.seen > f.at))) { ++f.fired; throw std::bad_alloc(); } }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    mc::g_alloc.live++; mc::g_alloc.total++; mc::g_alloc.total_bytes += n; mc::g_alloc.live_bytes += (long long)malloc_usable_size(p);
    if (mc::g_alloc.live_bytes > (1ll << 30)) { fprintf(stderr, "runaway allocation: more than 1 GiB live\n"); abort(); }
    return p;
}
static inline void mc_free(void* p) noexcept { if (!p) return; mc::g_alloc.live--; mc::g_alloc.live_bytes -= (long long)malloc_usable_size(p); std::free(p); }
void* operator new(std::size_t n) { return mc_alloc(n); }
void* operator new[](std::size_t n) { return mc_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return mc_alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return mc_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { mc_free(p); }
void operator delete[](void* p) noexcept { mc_free(p); }
void operator delete(void* p, std::size_t) noexcept { mc_free(p); }
void operator delete[](void* p, std::size_t) noexcept { mc_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc_free(p); }
#endif

int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
#endif
