#include "mc.hpp"
#include "sched.hpp"
#include "Caitlyn/__Core/Memory.h"
using namespace Caitlyn;
namespace hx {
static int destroyed, created, owners;             // bookkeeping: touched only while Quiet or by a single thread
static int lock_min[sched::kThreads]; static bool locking[sched::kThreads];
static void gain(int n) { sched::Quiet q; owners += n; }
static void lose(int n) { if (!n) return; sched::Quiet q; owners -= n; for (int i = 0; i < sched::kThreads; ++i) if (locking[i] && owners < lock_min[i]) lock_min[i] = owners; }
struct Obj {
    unsigned canary; int slot[sched::kThreads]; bool common;
    explicit Obj(bool c) : canary(0xA11CE), slot(), common(c) { sched::Quiet q; ++created; }
    ~Obj() { int sum = 0; for (int s : slot) sum += s; if (canary != 0xA11CE || sum < 0) sched::fail("corrupt", "the object is destroyed a second time or overwritten"); canary = 0xDEAD; sched::Quiet q; if (common) { ++destroyed; if (owners) sched::fail("early", "the object is destroyed while %d owner(s) still hold it", owners); } else --created; }
};
typedef SharedPtr<Obj> S; typedef WeakPtr<Obj> W;
struct Ctx { int id; S a, b; W w; const S* root; const W* wroot; int av, bv, wv; bool wheld; unsigned script[4]; unsigned len; };   // av/bv: 0 nothing, 1 the common object, 2 another one
static Obj* common;
static void use(Ctx& c, const S& p, int v, const char* who) {
    Obj* o = p.Get(); if ((o == common) != (v == 1) || (o == nullptr) != (v == 0)) sched::fail("value", "%s does not hold what it should", who);
    if (o) { if (p->canary != 0xA11CE) sched::fail("dead", "%s refers to a destroyed object", who); (*p).slot[c.id]++; }
}
static const char* const kOps[] = {"b = a", "copy of a, used and dropped", "a.Reset()", "b = move(a)", "use a", "b = w.lock(), used", "copy of w, dropped", "w = a", "w.expired()", "lock of a copy of w, dropped", "a = shared const owner", "a = new object", "b = shared const observer.lock()", "swap(a, b); use b"};
enum { kN = sizeof kOps / sizeof *kOps };
static bool must_lock(Ctx& c) { sched::Quiet q; locking[c.id] = true; lock_min[c.id] = owners; return true; }
static void locked(Ctx& c, bool got, bool observing, const char* who) {
    sched::Quiet q; locking[c.id] = false;
    if (!got && observing && lock_min[c.id] > 0) sched::fail("lock-failed", "%s says the object is gone although %d owner(s) held it all the time", who, lock_min[c.id]);
    if (got && !observing) sched::fail("lock-value", "%s of an empty observer gave an object", who);
    if (got && destroyed) sched::fail("lock-dead", "%s gave an object that is destroyed", who);
}
static void step(Ctx& c, unsigned op) {
    sched::op(kOps[op]);
    switch (op) {
    case 0: lose(c.bv == 1 && c.av != 1); c.b = c.a; gain(c.av == 1 && c.bv != 1); c.bv = c.av == 2 ? 3 : c.av; if (c.av == 2) c.bv = 2; break;
    case 1: { S t(c.a); gain(c.av == 1); use(c, t, c.av, "the copy"); lose(c.av == 1); break; }
    case 2: lose(c.av == 1); c.av = 0; c.a.Reset(); use(c, c.a, 0, "a"); break;
    case 3: lose(c.bv == 1); c.bv = c.av; c.av = 0; c.b = std::move(c.a); use(c, c.b, c.bv, "b"); use(c, c.a, 0, "moved-from a"); break;
    case 4: use(c, c.a, c.av, "a"); use(c, c.b, c.bv, "b"); break;
    case 5: { must_lock(c); S t = c.w.lock(); bool g = t.Get() != nullptr; locked(c, g, c.wv == 1, "lock"); if (c.wv == 2) g = false; if (c.wv != 2) gain(g); lose(c.bv == 1); c.bv = c.wv == 2 ? (t.Get() ? 2 : 0) : g; c.b = std::move(t); use(c, c.b, c.bv, "b"); break; }
    case 6: { W t(c.w); W u; u = t; W v(std::move(t)); break; }
    case 7: c.w = c.a; c.wv = c.av; break;
    case 8: { must_lock(c); bool x = c.w.expired(); if (c.wv != 2) locked(c, !x, c.wv == 1, "expired"); else { sched::Quiet q; locking[c.id] = false; } break; }
    case 9: { W t(c.w); must_lock(c); S s = t.lock(); bool g = s.Get() != nullptr; if (c.wv != 2) { locked(c, g, c.wv == 1, "lock"); gain(g); use(c, s, g, "the locked owner"); lose(g); } else { sched::Quiet q; locking[c.id] = false; } break; }
    case 10: { lose(c.av == 1 && c.root->Get() == nullptr); int was = c.av; c.a = *c.root; c.av = c.root->Get() ? 1 : 0; gain(c.av == 1 && was != 1); use(c, c.a, c.av, "a"); break; }
    case 11: lose(c.av == 1); c.av = 2; c.a = new Obj(false); use(c, c.a, 2, "a"); break;
    case 12: { must_lock(c); S t = c.wroot->lock(); bool g = t.Get() != nullptr; locked(c, g, c.wheld, "lock"); gain(g); lose(c.bv == 1); c.bv = g; c.b = std::move(t); use(c, c.b, c.bv, "b"); break; }
    case 13: { std::swap(c.a, c.b); std::swap(c.av, c.bv); use(c, c.b, c.bv, "b"); break; }
    }
}
static void body(void* p) {
    Ctx& c = *(Ctx*)p;
    for (unsigned i = 0; i < c.len; ++i) step(c, c.script[i]);
    sched::op("dropping a"); lose(c.av == 1); c.a.Reset();
    sched::op("dropping b"); lose(c.bv == 1); c.b = S();
    sched::op("dropping w"); c.w = W();
}
static void run(mc::Exec& e, unsigned threads, unsigned len, unsigned pre, unsigned stale, unsigned spur, unsigned roots) {
    Ctx* c[sched::kThreads]; unsigned root = e.choose(roots), lo = 0, total = 1; for (unsigned i = 0; i < len; ++i) total *= kN;
    unsigned script[sched::kThreads];
    for (unsigned t = 0; t < threads; ++t) { script[t] = lo + e.range(total - lo); lo = script[t]; }     // threads are interchangeable
    sched::begin(e, pre, stale, spur); destroyed = created = owners = 0; for (auto& l : locking) l = false;
    {
        common = new Obj(true); S r(common); gain(1); W wr(r);
        for (unsigned t = 0; t < threads; ++t) {
            Ctx* n = new Ctx(); n->id = t + 1; n->a = r; n->w = r; n->root = &r; n->wroot = &wr; n->av = n->wv = 1; n->bv = 0; n->len = len; n->wheld = root != 2; unsigned s = script[t]; for (unsigned i = 0; i < len; ++i) { n->script[i] = s % kN; s /= kN; } c[t] = n; gain(1);
            if (e.tracing) { std::string d; for (unsigned i = 0; i < len; ++i) d += std::string(i ? "; " : "") + kOps[n->script[i]]; e.log("thread %u: %s; drop everything", t + 1, d.c_str()); }
        }
        if (root != 1) { lose(1); r.Reset(); } if (root == 2) wr = W();
        if (e.tracing) e.log("the shared const owner is %s, the shared const observer is %s", root == 1 ? "set" : "empty", root == 2 ? "empty" : "set");
        for (unsigned t = 0; t < threads; ++t) sched::spawn(body, c[t]);
        sched::join(); sched::op("after join");
        if (root == 1) { if (destroyed) e.fail("early", "destroyed although an owner is left"); if (r->canary != 0xA11CE) e.fail("dead", "the object is dead"); lose(1); r.Reset(); }
        if (destroyed != 1) e.fail("count", "the object was destroyed %d times", destroyed);
        if (created != 1) e.fail("count-other", "%d further objects were not destroyed", created - 1);
        if (!wr.expired() || wr.lock().Get() != nullptr) e.fail("expired", "the observer does not notice that the object is gone");
        for (unsigned t = 0; t < threads; ++t) delete c[t];
    }
    unsigned long long pts = sched::points(); uint64_t h = sched::schedule_hash();
    sched::end(true); e.transition(pts); mc::Hash x; for (unsigned t = 0; t < threads; ++t) x.u(script[t]); x.u(root); x.u(h); e.state(x); e.outcome(mc::Hash().u(h).u(pts));
}
MC_SECTION(two_threads_one_step, false, false, 0, false) { run(e, 2, 1, mc::tier(4u, 20u), mc::tier(1u, 2u), 1, 3); }
MC_SECTION(two_threads_two_steps, false, false, 0, false) { run(e, 2, 2, mc::tier(2u, 3u), mc::tier(0u, 1u), mc::tier(0u, 1u), 3); }
MC_SECTION(three_threads_one_step, false, false, 0, false) { run(e, 3, 1, mc::tier(2u, 4u), mc::tier(0u, 1u), mc::tier(0u, 1u), 3); }
MC_SECTION(three_threads_two_steps, false, true, 0, false) { run(e, 3, 2, 2, 0, 0, 3); }
} // namespace hx
