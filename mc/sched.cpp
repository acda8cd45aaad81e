// Implementation of sched.hpp.  Compiled without instrumentation; uses no library templates, so that none of its
// (uninstrumented) code can be picked by the linker in place of instrumented code.
#include "sched.hpp"
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>

#define K sched::kThreads
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;

extern "C" {
void* __real_malloc(size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)()); int __real_sched_yield();
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); void* __real_memchr(const void*, int, size_t);
}

namespace {
struct VC { u32 c[K]; void join(const VC& o) { for (int i = 0; i < K; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum State { Unused, Ready, Blocked, Done };
struct Th { State st; VC vc, acq, relf; bool has_relf, sc_fenced; const void* wait; void (*fn)(void*); void* arg; int spin, in_guard; char op[80]; };
int turn[K]; bool pooled[K]; pid_t pool_pid; Th T[K]; int nth, cur; bool g_active; mc::Exec* E; unsigned pre_left, stale_left, spur_left; u64 npoints, shash; VC sc_vc;
__thread int t_id = -1; __thread int t_rt = 0;
bool g_pinned; u32 gen = 1;

struct Rt { Rt() { ++t_rt; } ~Rt() { --t_rt; } };
inline bool on() { return g_active && !t_rt && t_id >= 0; }

// ------------------------------------------------------------------ hand-over
void wake(int t) { __atomic_store_n(&turn[t], 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &turn[t], FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void await(int t) { while (!__atomic_load_n(&turn[t], __ATOMIC_SEQ_CST)) syscall(SYS_futex, &turn[t], FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(&turn[t], 0, __ATOMIC_SEQ_CST); }
void vf(const char* sig, const char* fmt, va_list a) { char b[2000]; vsnprintf(b, sizeof b, fmt, a); E->skip = false; E->fail(sig, "%s", b); }
void fail(const char* sig, const char* fmt, ...) { Rt r; va_list a; va_start(a, fmt); vf(sig, fmt, a); va_end(a); _exit(77); }
void tlog(const char* fmt, ...) { if (!E->tracing) return; char b[600]; int n = snprintf(b, 100, "  T%d (%s): ", t_id, T[t_id].op); va_list a; va_start(a, fmt); vsnprintf(b + n, sizeof b - n, fmt, a); va_end(a); E->log("%s", b); }
void transfer(int to) { int me = t_id; if (to == me) return; cur = to; wake(to); await(me); }
int pick_enabled(bool with_me) {
    int c[K], n = 0, me = t_id;
    if (with_me) c[n++] = me;
    for (int i = 0; i < nth; ++i) if (i != me && T[i].st == Ready) c[n++] = i;
    if (!n) return -1;
    return c[n == 1 ? 0 : E->choose(n)];
}
void deadlock() {
    char b[400]; int n = 0; b[0] = 0;
    for (int i = 0; i < nth; ++i) if (T[i].st == Blocked && i) n += snprintf(b + n, sizeof b - n, " T%d in %s;", i, T[i].op);
    fail("deadlock", "no thread can go on:%s", b);
}
void point() {
    if (++npoints > 20000) fail("livelock", "20000 synchronisation operations without an end; T%d in %s", t_id, T[t_id].op);
    E->beat();
    if (nth <= 1 || t_id == 0) return;
    Th& me = T[t_id];
    bool force = ++me.spin > 24; int n = 0;
    for (int i = 1; i < nth; ++i) n += i != t_id && T[i].st == Ready;
    if (!n) return;
    if (force) { me.spin = 0; transfer(pick_enabled(false)); return; }
    if (!pre_left) return;
    int to = pick_enabled(true);
    if (to != t_id) { --pre_left; transfer(to); }
}
void yield_now() { T[t_id].spin = 1000; point(); }
void block(const void* on) { T[t_id].st = Blocked; T[t_id].wait = on; int to = pick_enabled(false); if (to < 0) deadlock(); transfer(to); }
void unblock(const void* on) { for (int i = 0; i < nth; ++i) if (T[i].st == Blocked && T[i].wait == on) T[i].st = Ready; }
void wrote() { for (int i = 0; i < nth; ++i) T[i].spin = 0; }
void mark(u64 v) { shash = (shash ^ (v + (u64)t_id * 0x9e3779b97f4a7c15ull)) * 0xff51afd7ed558ccdull; shash ^= shash >> 29; }

// ------------------------------------------------------------------ arena
const size_t kArena = 64u << 20, kHead = 32;
struct Head { u64 size; u32 magic; u8 freed, immortal, tid; };
char* arena; u8* gran; size_t top;
inline bool in_arena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + kArena && arena; }
void map_all();
void* arena_alloc(size_t n) {
    size_t need = kHead + ((n + 15) & ~(size_t)15) + 16;
    if (top + need > kArena) fail("engine:arena", "more than %zu bytes allocated in one execution", kArena);
    Head* h = (Head*)(arena + top); h->size = n; h->magic = 0xC0DEB10C; h->freed = 0; h->immortal = T[t_id].in_guard > 0; h->tid = (u8)t_id;
    char* p = (char*)h + kHead; size_t g = (p - arena) >> 4;
    for (size_t left = n; left; ++g) { gran[g] = left >= 16 ? 16 : (u8)left; left -= left >= 16 ? 16 : left; }
    top += need; memset(p, 0xA5, n); return p;
}
void where(const void* p, char* b, size_t n) {
    if (in_arena(p)) {
        size_t o = 0; int k = 0;
        while (o < top) { Head* h = (Head*)(arena + o); size_t need = kHead + ((h->size + 15) & ~(size_t)15) + 16; if ((const char*)p < arena + o + need) { snprintf(b, n, "byte %ld of heap block #%d (%llu bytes)", (long)((const char*)p - (arena + o + kHead)), k, (unsigned long long)h->size); return; } o += need; ++k; }
    }
    snprintf(b, n, "%p", p);
}
void check_addr(const void* p, size_t n, const char* what) {
    if (!in_arena(p)) return;
    size_t o = (const char*)p - arena;
    for (size_t i = o; i < o + n;) {
        size_t g = i >> 4, off = i & 15, len = 16 - off; if (len > o + n - i) len = o + n - i;
        if (gran[g] < off + len || gran[g] > 16) { char b[120]; where(p, b, sizeof b); fail(gran[g] == 0xFD ? "use-after-free" : "out-of-bounds", "T%d in %s %s %zu bytes at %s, which %s", t_id, T[t_id].op, what, n, b, gran[g] == 0xFD ? "was freed before" : "is outside of any block"); }
        i += len;
    }
}

// ------------------------------------------------------------------ shadow memory
struct Byte { u32 w; u32 r[K]; u32 at; };
struct Cell { u64 key; u32 gen; Byte b[8]; };
const u32 kCells = 1u << 17; Cell* cells; u32 ncells;
Cell* cell(u64 key) {
    u32 i = (u32)(key + ((key >> 14) * 0x9e3779b97f4a7c15ull >> 47 << 6)) & (kCells - 1);     // neighbouring cells share pages
    for (;;) { Cell& c = cells[i]; if (c.gen != gen) { if (++ncells > kCells * 3 / 4) fail("engine:shadow", "too much memory touched in one execution"); memset(&c, 0, sizeof c); c.key = key; c.gen = gen; return &c; } if (c.key == key) return &c; i = (i + 1) & (kCells - 1); }
}
struct St { u64 v; u8 tid; bool has_rel; u32 clk; VC rel; };
const int kHist = 24, kReads = 48, kAtoms = 512;
struct Atom { u64 addr; int size, n, base; bool frozen, guard; St h[kHist]; u32 aw[K], ar[K]; struct { u32 clk; int idx; } rd[K][kReads]; int nrd[K]; };
Atom* atoms; int natoms;

void race(const void* p, size_t n, const char* what, int other, const char* owhat) {
    char b[120]; where(p, b, sizeof b);
    fail("data-race", "T%d in %s %s %s (%zu bytes) while nothing orders this after T%d (now in %s) %s it", t_id, T[t_id].op, what, b, n, other, T[other].op, owhat);
}
inline bool before(u32 clk, int t) { return clk <= T[t_id].vc.c[t]; }
void plain(const void* p, size_t n, bool write, const char* what) {
    const int me = t_id; const u32 epoch = (u32)me << 24 | T[me].vc.c[me];
    u64 a = (u64)p; Cell* c = nullptr; u64 ck = ~0ull;
    for (size_t i = 0; i < n; ++i) {
        u64 k = (a + i) >> 3; if (k != ck) { c = cell(k); ck = k; }
        Byte& b = c->b[(a + i) & 7];
        if (b.w && (int)(b.w >> 24) != me && !before(b.w & 0xffffff, b.w >> 24)) race((char*)p + i, n, what, b.w >> 24, "writing");
        if (b.at) {
            Atom& t = atoms[b.at - 1];
            for (int u = 0; u < nth; ++u) if (u != me) { if (!before(t.aw[u], u)) race((char*)p + i, n, what, u, "atomically writing"); if (write && !before(t.ar[u], u)) race((char*)p + i, n, what, u, "atomically reading"); }
            if (write) { t.n = 0; t.addr = 0; b.at = 0; }
        }
        if (write) { for (int u = 0; u < nth; ++u) if (u != me && !before(b.r[u], u)) race((char*)p + i, n, what, u, "reading"); b.w = epoch; }
        else b.r[me] = T[me].vc.c[me];
    }
}
void access(const void* p, size_t n, bool write) { Rt r; check_addr(p, n, write ? "writes" : "reads"); plain(p, n, write, write ? "writes" : "reads"); }

// ------------------------------------------------------------------ atomics
u64 rawload(const void* p, int n) { switch (n) { case 1: return *(const u8*)p; case 2: return *(const uint16_t*)p; case 4: return *(const u32*)p; default: return *(const u64*)p; } }
void rawstore(void* p, int n, u64 v) { switch (n) { case 1: *(u8*)p = (u8)v; break; case 2: *(uint16_t*)p = (uint16_t)v; break; case 4: *(u32*)p = (u32)v; break; default: *(u64*)p = v; } }
bool acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }    // consume, acquire, acq_rel, seq_cst
bool rel(int mo) { return mo >= 3; }                          // release, acq_rel, seq_cst
Atom& atom(const void* p, int n, bool write) {
    check_addr(p, n, "atomically accesses");
    const int me = t_id; u64 a = (u64)p; int idx = 0; Cell* c = cell(a >> 3);
    idx = c->b[a & 7].at; if (idx && (atoms[idx - 1].addr != a || atoms[idx - 1].size != n)) idx = 0;
    for (int i = 0; i < n; ++i) {
        Byte& b = c->b[(a + i) & 7];
        if (b.w && (int)(b.w >> 24) != me && !before(b.w & 0xffffff, b.w >> 24)) race((char*)p + i, n, "atomically accesses", b.w >> 24, "writing");
        if (write) for (int u = 0; u < nth; ++u) if (u != me && !before(b.r[u], u)) race((char*)p + i, n, "atomically writes", u, "reading");
    }
    if (!idx) {
        if (natoms >= kAtoms) fail("engine:atoms", "too many atomics");
        Atom& t = atoms[natoms]; memset(&t, 0, sizeof t); t.addr = a; t.size = n; t.n = 1; t.h[0].v = rawload(p, n); idx = ++natoms;
        for (int i = 0; i < n; ++i) c->b[(a + i) & 7].at = idx;
    }
    Atom& t = atoms[idx - 1];
    if (write) t.aw[me] = T[me].vc.c[me]; else t.ar[me] = T[me].vc.c[me];
    return t;
}
void took(Atom& a, int i, int mo) {
    Th& me = T[t_id]; const St& s = a.h[i];
    if (s.has_rel) { if (acq(mo)) me.vc.join(s.rel); me.acq.join(s.rel); }
    int& n = a.nrd[t_id];
    if (n && a.rd[t_id][n - 1].idx == a.base + i) return;
    if (n == kReads) { a.frozen = true; return; }
    a.rd[t_id][n].clk = me.vc.c[t_id]; a.rd[t_id][n].idx = a.base + i; ++n;
}
void put(Atom& a, u64 v, int mo, const St* prev) {
    Th& me = T[t_id]; St s; memset(&s, 0, sizeof s); s.v = v; s.tid = (u8)t_id; s.clk = me.vc.c[t_id];
    if (rel(mo)) { s.has_rel = true; s.rel = me.vc; } else if (me.has_relf) { s.has_rel = true; s.rel = me.relf; }
    if (prev && prev->has_rel) { s.has_rel = true; s.rel.join(prev->rel); }
    if (a.n == kHist) { memmove(a.h, a.h + 1, sizeof(St) * (kHist - 1)); --a.n; ++a.base; }
    a.h[a.n++] = s; me.vc.c[t_id]++; wrote();
}
const char* mos(int mo) { static const char* n[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"}; return n[mo < 0 || mo > 5 ? 5 : mo]; }
// the engine's own atomics (shared between processes) are compiled into the instrumented objects as well
bool real_cas(void* p, u64* ex, int n, u64 v) {
#define RC(t) { t x = (t)*ex; bool ok = __atomic_compare_exchange_n((t*)p, &x, (t)v, false, 5, 5); *ex = x; return ok; }
    switch (n) { case 1: RC(u8) case 2: RC(uint16_t) case 4: RC(u32) default: RC(u64) }
}
// an initialised guard is never written again: reading it commutes with everything
bool done_guard(const void* p) { Cell* c = cell((u64)p >> 3); int i = c->b[(u64)p & 7].at; return i && atoms[i - 1].addr == (u64)p && atoms[i - 1].guard; }
u64 a_load(const void* p, int n, int mo) {
    if (!on()) { switch (n) { case 1: return __atomic_load_n((const u8*)p, 5); case 2: return __atomic_load_n((const uint16_t*)p, 5); case 4: return __atomic_load_n((const u32*)p, 5); default: return __atomic_load_n((const u64*)p, 5); } }
    Rt r; if (!done_guard(p)) point(); Atom& a = atom(p, n, false); Th& me = T[t_id];
    int lo = a.n - 1;
    if (mo != 5 && stale_left && !a.frozen && !me.sc_fenced && nth > 1 && t_id) {
        for (lo = a.n - 1; lo > 0; --lo) if (before(a.h[lo].clk, a.h[lo].tid)) break;
        for (int u = 0; u < nth; ++u) for (int k = 0; k < a.nrd[u]; ++k) if (before(a.rd[u][k].clk, u) && a.rd[u][k].idx - a.base > lo) lo = a.rd[u][k].idx - a.base;
    }
    int i = a.n - 1;
    if (lo < i) { int c = E->choose(i - lo + 1); if (c) { --stale_left; i -= c; } }
    took(a, i, mo); mark((u64)a.h[i].v * 8 + 1);
    if (E->tracing) { char b[120]; where(p, b, sizeof b); tlog("load %s of %s gives %llu%s", mos(mo), b, (unsigned long long)a.h[i].v, i < a.n - 1 ? " (an older value)" : ""); }
    return a.h[i].v;
}
void a_store(void* p, int n, u64 v, int mo) {
    if (!on()) { switch (n) { case 1: __atomic_store_n((u8*)p, (u8)v, 5); break; case 2: __atomic_store_n((uint16_t*)p, (uint16_t)v, 5); break; case 4: __atomic_store_n((u32*)p, (u32)v, 5); break; default: __atomic_store_n((u64*)p, v, 5); } return; }
    Rt r; point(); Atom& a = atom(p, n, true);
    St prev = a.h[a.n - 1]; put(a, v, mo, a.n > 0 && a.h[a.n - 1].tid == t_id ? &prev : nullptr); rawstore(p, n, v); mark(v * 8 + 2);
    if (E->tracing) { char b[120]; where(p, b, sizeof b); tlog("store %s of %llu to %s", mos(mo), (unsigned long long)v, b); }
}
enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand };
u64 a_rmw(void* p, int n, u64 v, int mo, Rmw op) {
    auto f = [&](u64 o) -> u64 { switch (op) { case Xchg: return v; case Add: return o + v; case Sub: return o - v; case And: return o & v; case Or: return o | v; case Xor: return o ^ v; default: return ~(o & v); } };
    if (!on()) { u64 o = rawload(p, n); while (!real_cas(p, &o, n, f(o))) {} return o; }
    Rt r; point(); Atom& a = atom(p, n, true); St prev = a.h[a.n - 1]; u64 o = prev.v, w = f(o); if (n < 8) w &= (1ull << (n * 8)) - 1;
    took(a, a.n - 1, mo); put(a, w, mo, &prev); rawstore(p, n, w); mark(w * 8 + 3);
    static const char* nm[] = {"exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "fetch_nand"};
    if (E->tracing) { char b[120]; where(p, b, sizeof b); tlog("%s %s at %s: %llu becomes %llu", nm[op], mos(mo), b, (unsigned long long)o, (unsigned long long)w); }
    return o;
}
int a_cas(void* p, void* expected, int n, u64 v, int mo, int fmo, bool weak) {
    u64 ex = rawload(expected, n);
    if (!on()) { if (real_cas(p, &ex, n, v)) return 1; rawstore(expected, n, ex); return 0; }
    Rt r; point(); Atom* a = &atom(p, n, false); u64 o = a->h[a->n - 1].v;
    bool ok = o == ex; if (ok && weak && spur_left && nth > 1 && E->choose(2)) { --spur_left; ok = false; }
    if (ok) { a = &atom(p, n, true); St prev = a->h[a->n - 1]; took(*a, a->n - 1, mo); put(*a, v, mo, &prev); rawstore(p, n, v); mark(v * 8 + 4); }
    else { took(*a, a->n - 1, fmo); rawstore(expected, n, o); mark(o * 8 + 5); }
    if (E->tracing) { char b[120]; where(p, b, sizeof b); tlog("compare_exchange %s at %s: %llu -> %llu %s", mos(mo), b, (unsigned long long)ex, (unsigned long long)v, ok ? "succeeds" : "fails"); }
    return ok;
}
void fence(int mo) {
    if (!on()) return;
    Th& me = T[t_id]; if (acq(mo)) me.vc.join(me.acq);
    if (mo == 5) { me.vc.join(sc_vc); sc_vc = me.vc; me.sc_fenced = true; }
    if (rel(mo)) { me.relf = me.vc; me.has_relf = true; me.vc.c[t_id]++; }
}

// ------------------------------------------------------------------ locks
struct Lock { const void* p; int owner, count, readers; VC rel, rrel; };
const int kLocks = 128; Lock locks[kLocks]; int nlocks;
Lock& lock_of(const void* p) { for (int i = 0; i < nlocks; ++i) if (locks[i].p == p) return locks[i]; if (nlocks == kLocks) fail("engine:locks", "too many locks"); Lock& l = locks[nlocks++]; memset(&l, 0, sizeof l); l.p = p; l.owner = -1; return l; }
int lk(const void* p, bool shared, bool tryit, bool recursive) {
    Rt r; point(); Lock& l = lock_of(p);
    for (;;) {
        if (l.owner == t_id && recursive) { l.count++; return 0; }
        if (l.owner < 0 && (shared || l.readers == 0)) break;
        if (tryit) return EBUSY;
        if (l.owner == t_id) fail("deadlock", "T%d in %s locks a mutex it holds", t_id, T[t_id].op);
        block(p);
    }
    T[t_id].vc.join(l.rel); if (!shared) T[t_id].vc.join(l.rrel);
    if (shared) l.readers++; else { l.owner = t_id; l.count = 1; }
    mark((u64)shared * 8 + 6); return 0;
}
int ul(const void* p) {
    Rt r; Lock& l = lock_of(p); Th& me = T[t_id];
    if (l.owner == t_id) { if (--l.count) return 0; l.rel.join(me.vc); l.owner = -1; }
    else if (l.readers) { l.readers--; l.rrel.join(me.vc); }
    else fail("unlock", "T%d in %s unlocks a mutex it does not hold", t_id, T[t_id].op);
    me.vc.c[t_id]++; unblock(p); wrote(); mark(7); point(); return 0;
}

// ------------------------------------------------------------------ threads
void finished() {
    ++t_rt; int me = t_id; T[me].st = Done; mark(99);
    int to = -1, c[K], n = 0; bool blocked = false;
    for (int i = 1; i < nth; ++i) { if (T[i].st == Ready) c[n++] = i; if (T[i].st == Blocked) blocked = true; }
    if (n) to = c[n == 1 ? 0 : E->choose(n)]; else if (blocked) deadlock(); else { to = 0; T[0].st = Ready; }
    t_id = -1; cur = to; --t_rt; wake(to);
}
// Threads are kept between executions: creating and reaping tens of thousands per second exhausts kernel memory.
void* entry(void* a) {
    int me = (int)(long)a;
    for (;;) {
        await(me); t_id = me;
        try { T[me].fn(T[me].arg); } catch (...) { fail("escaped-exception", "T%d in %s: an exception left the thread", me, T[me].op); }
        finished();
    }
    return nullptr;
}
void* big(size_t n, void* at) { void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }
void map_all() {
    arena = (char*)big(kArena, (void*)0x210000000000ull); gran = (u8*)big(kArena / 16, nullptr); cells = (Cell*)big(sizeof(Cell) * kCells, nullptr); atoms = (Atom*)big(sizeof(Atom) * kAtoms, nullptr);
}
} // namespace

namespace {
// all threads of one worker share one processor: handing over is cheapest there
void pin(mc::Exec& e) {
    if (!g_pinned) { g_pinned = true; cpu_set_t s; if (!sched_getaffinity(0, sizeof s, &s)) { int n = CPU_COUNT(&s), want = (int)(((u64)e.s / sizeof(mc::Slot)) % (n ? n : 1)); for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s) && want-- == 0) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); break; } } }
}
}
namespace sched {
void begin(mc::Exec& e, unsigned p, unsigned st, unsigned sp) {
    Rt r; E = &e;
    if (!arena) { map_all(); }
    pin(e);
    memset(gran, 0, (top >> 4) + 1); top = 0; ++gen; ncells = 0; natoms = 0; nlocks = 0; memset(T, 0, sizeof T); nth = 1; cur = 0; npoints = 0; shash = 0; memset(&sc_vc, 0, sizeof sc_vc);
    pre_left = p; stale_left = st; spur_left = sp; t_id = 0; T[0].st = Ready; T[0].vc.c[0] = 1; strcpy(T[0].op, "setup"); g_active = true;
}
void spawn(void (*fn)(void*), void* arg) {
    Rt r; int t = nth++; if (t >= K) { fprintf(stderr, "too many threads\n"); abort(); }
    Th& n = T[t]; n.st = Ready; n.fn = fn; n.arg = arg; n.vc = T[0].vc; n.vc.c[t] = 1; T[0].vc.c[0]++; strcpy(n.op, "start");
    if (pool_pid != getpid()) { pool_pid = getpid(); memset(pooled, 0, sizeof pooled); memset(turn, 0, sizeof turn); }
    if (!pooled[t]) {
        pooled[t] = true; pthread_t h; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
        if (pthread_create(&h, &at, entry, (void*)(long)t)) { perror("pthread_create"); _exit(3); }
        pthread_attr_destroy(&at);
    }
}
void join() {
    Rt r; if (nth == 1) return;
    T[0].st = Blocked; T[0].wait = &T; int to = pick_enabled(false); transfer(to);
    for (int i = 1; i < nth; ++i) T[0].vc.join(T[i].vc);
    T[0].st = Ready; T[0].vc.c[0]++; strcpy(T[0].op, "after join");
}
void end(bool leak) {
    ++t_rt;
    if (leak) {
        int n = 0; u64 sz = 0; for (size_t o = 0; o < top;) { Head* h = (Head*)(arena + o); if (!h->freed && !h->immortal) { ++n; sz = h->size; } o += kHead + ((h->size + 15) & ~(size_t)15) + 16; }
        if (n) fail("leak", "%d block(s) are never freed, the last of %llu bytes", n, (unsigned long long)sz);
    }
    g_active = false; t_id = -1; --t_rt;
}
void op(const char* l) { Rt r; if (t_id >= 0) { strncpy(T[t_id].op, l, sizeof T[0].op - 1); T[t_id].op[sizeof T[0].op - 1] = 0; E->op(l); if (t_id) tlog("begins"); } }
void fail(const char* sig, const char* fmt, ...) { Rt r; va_list a; va_start(a, fmt); vf(sig, fmt, a); va_end(a); _exit(77); }
void log(const char* fmt, ...) { Rt r; if (!E->tracing) return; char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); E->log("%s", b); }
unsigned long long points() { return npoints; }
uint64_t schedule_hash() { return shash; }
Quiet::Quiet() { ++t_rt; }
Quiet::~Quiet() { --t_rt; }
void isolated(mc::Exec& e, void (*body)(mc::Exec&, void*), void* ctx) {
    struct Page { u64 prod, path_hash; bool sharded, skip, failed; }; static Page* pg;
    if (!pg) pg = (Page*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pin(e); pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); pg = (Page*)pg;
        body(e, ctx);
        pg->prod = e.prod; pg->path_hash = e.path_hash; pg->sharded = e.sharded; pg->skip = e.skip; pg->failed = e.failed; _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(78); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    e.prod = pg->prod; e.path_hash = pg->path_hash; e.sharded = pg->sharded; e.skip = pg->skip; e.failed = pg->failed;
}
}

// ------------------------------------------------------------------ heap
static void* s_new(size_t n) { if (on()) { Rt r; return arena_alloc(n); } void* p = std::malloc(n ? n : 1); if (!p) { fprintf(stderr, "out of memory\n"); abort(); } return p; }
static void s_free(void* p) {
    if (!p) return;
    if (!in_arena(p)) { if (on()) { Rt r; plain(p, malloc_usable_size(p), true, "frees"); } std::free(p); return; }
    if (!on()) return;
    Rt r; Head* h = (Head*)((char*)p - kHead);
    if ((char*)p < arena + kHead || ((u64)p & 15) || h->magic != 0xC0DEB10C) { char b[120]; where(p, b, sizeof b); fail("invalid-free", "T%d in %s frees %s, which no allocation returned", t_id, T[t_id].op, b); }
    char b[120]; where(p, b, sizeof b);
    if (h->freed) fail("double-free", "T%d in %s frees %s a second time", t_id, T[t_id].op, b);
    plain(p, h->size, true, "frees"); h->freed = 1;
    for (size_t g = ((char*)p - arena) >> 4, l = 0; l < h->size; l += 16, ++g) gran[g] = 0xFD;
    memset(p, 0xDD, h->size);
}
void* operator new(std::size_t n) { return s_new(n); }
void* operator new[](std::size_t n) { return s_new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return s_new(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return s_new(n); }
void operator delete(void* p) noexcept { s_free(p); }
void operator delete[](void* p) noexcept { s_free(p); }
void operator delete(void* p, std::size_t) noexcept { s_free(p); }
void operator delete[](void* p, std::size_t) noexcept { s_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { s_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { s_free(p); }

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { if (on()) access(p, n, false); } void __tsan_write##n(void* p) { if (on()) access(p, n, true); } \
              void __tsan_unaligned_read##n(void* p) { if (on()) access(p, n, false); } void __tsan_unaligned_write##n(void* p) { if (on()) access(p, n, true); } \
              void __tsan_read_write##n(void* p) { if (on()) access(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { if (on()) access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (on()) access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (on()) access(p, n, true); }
void __tsan_vptr_read(void** p) { if (on()) access(p, 8, false); }
void __tsan_vptr_update(void** p, void* v) { if (on() && *p != v) access(p, 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n && on()) { access(s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n && on()) { access(s, n, false); access(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n && on()) access(d, n, true); return memset(d, c, n); }
#define AT(b, t) \
    t __tsan_atomic##b##_load(const volatile t* a, int mo) { return (t)a_load((const void*)a, b / 8, mo); } \
    void __tsan_atomic##b##_store(volatile t* a, t v, int mo) { a_store((void*)a, b / 8, v, mo); } \
    t __tsan_atomic##b##_exchange(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, Xchg); } \
    t __tsan_atomic##b##_fetch_add(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, Add); } \
    t __tsan_atomic##b##_fetch_sub(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, Sub); } \
    t __tsan_atomic##b##_fetch_and(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, And); } \
    t __tsan_atomic##b##_fetch_or(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, Or); } \
    t __tsan_atomic##b##_fetch_xor(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, Xor); } \
    t __tsan_atomic##b##_fetch_nand(volatile t* a, t v, int mo) { return (t)a_rmw((void*)a, b / 8, v, mo, Nand); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t* a, t* c, t v, int mo, int fmo) { return a_cas((void*)a, c, b / 8, v, mo, fmo, false); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t* a, t* c, t v, int mo, int fmo) { return a_cas((void*)a, c, b / 8, v, mo, fmo, true); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t* a, t c, t v, int mo, int fmo) { a_cas((void*)a, &c, b / 8, v, mo, fmo, false); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return on() ? lk(m, false, false, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return on() ? lk(m, false, true, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return on() ? ul(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return on() ? lk(m, true, false, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return on() ? lk(m, false, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return on() ? lk(m, true, true, false) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return on() ? lk(m, false, true, false) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return on() ? ul(m) : __real_pthread_rwlock_unlock(m); }
int __wrap_sched_yield() { if (on()) { Rt r; yield_now(); return 0; } return __real_sched_yield(); }
// static initialisation: first byte of the guard says "done"
int __wrap___cxa_guard_acquire(u64* g) {
    if (!on()) return __real___cxa_guard_acquire(g);
    { Rt r; point(); }
    for (;;) {
        if (*(u8*)g) { Rt r; Atom& a = atom(g, 1, false); took(a, a.n - 1, 2); return 0; }
        Rt r; Lock& l = lock_of(g);
        if (l.owner < 0) { l.owner = t_id; T[t_id].vc.join(l.rel); T[t_id].in_guard++; tlog("starts initialising a static"); return 1; }
        if (l.owner == t_id) fail("deadlock", "T%d in %s: recursive initialisation of a static", t_id, T[t_id].op);
        block(g);
    }
}
void __wrap___cxa_guard_release(u64* g) {
    if (!on()) { __real___cxa_guard_release(g); return; }
    a_store(g, 1, 1, 3); Rt r; atom(g, 1, false).guard = true; lock_of(g).owner = -1; T[t_id].in_guard--; unblock(g);
}
void __wrap___cxa_guard_abort(u64* g) {
    if (!on()) { __real___cxa_guard_abort(g); return; }
    Rt r; Lock& l = lock_of(g); l.owner = -1; l.rel.join(T[t_id].vc); T[t_id].vc.c[t_id]++; T[t_id].in_guard--; unblock(g); point();
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!on()) return __real_pthread_once(o, f);
    { Rt r; point(); }
    for (;;) {
        if (*(int*)o == 2) { Rt r; Atom& a = atom(o, 4, false); took(a, a.n - 1, 2); return 0; }
        bool mine = false;
        { Rt r; Lock& l = lock_of(o); if (l.owner < 0) { l.owner = t_id; T[t_id].vc.join(l.rel); T[t_id].in_guard++; mine = true; } else if (l.owner == t_id) fail("deadlock", "recursive pthread_once"); else block(o); }
        if (mine) {
            try { f(); } catch (...) { Rt r; Lock& l = lock_of(o); l.owner = -1; l.rel.join(T[t_id].vc); T[t_id].vc.c[t_id]++; T[t_id].in_guard--; unblock(o); throw; }
            a_store(o, 4, 2, 3); Rt r; lock_of(o).owner = -1; T[t_id].in_guard--; unblock(o); return 0;
        }
    }
}
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n && on()) { access(a, n, false); access(b, n, false); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (on()) access(s, n + 1, false); return n; }
void* __wrap_memchr(const void* s, int c, size_t n) { void* r = __real_memchr(s, c, n); size_t l = r ? (size_t)((char*)r - (const char*)s) + 1 : n; if (l && on()) access(s, l, false); return r; }
}
