#include "ptrh.hpp"
#include "sizes.hpp"
namespace hx {
template <class T> struct NoWeak {};
template <class T> using StdU = std::unique_ptr<T>;
typedef Node<0, SharedPtr, NoWeak> A; typedef Node<1, std::shared_ptr, NoWeak> B;
typedef Node<0, UniquePtr, NoWeak> UA; typedef Node<1, StdU, NoWeak> UB;
template <class P, class Q> static void same(mc::Exec& e, const P& p, const Q& q, const char* who, const char* op) {
    bool t1 = false, t2 = false; int x = -1, y = -1, z = q ? q->id : -1;
    try { x = (*p).id; } catch (const std::runtime_error&) { t1 = true; }
    try { y = p->id; } catch (const std::runtime_error&) { t2 = true; }
    if (t1 != !q || t2 != !q) e.fail("deref", "[%s] %s: dereferencing %s %s", op, who, q ? "an object" : "an empty pointer", t1 ? "throws" : "returns");
    if (x != z || y != z) e.fail("points-to", "[%s] %s points to %d instead of %d", op, who, x, z);
    if ((p.Get() == nullptr) != !q || (p == nullptr) != !q || (p != nullptr) == !q) e.fail("null", "[%s] %s: comparison with null", op, who);
    if (p.Get() && p.Get()->id != z) e.fail("get", "[%s] %s: Get", op, who);
}
static void alive(mc::Exec& e, const char* op) {
    if (!live(0).bad.empty()) e.fail("lifetime", "[%s] %s", op, live(0).bad.c_str());
    if (live(0).ids != live(1).ids) e.fail("alive", "after [%s] the living objects are %s", op, ids().c_str());
}
template <class Q> static bool reaches(Q* from, Q* to) { for (int n = 0; from && n < 50; ++n) { if (from == to) return true; from = from->next.get(); } return false; }
static void clear() { live(0) = Live(); live(1) = Live(); }
static void shared(mc::Exec& e, unsigned depth, unsigned vars) {
    typedef SharedPtr<A> P; typedef std::shared_ptr<B> Q; clear(); int id = 1;
    {
        P p[3]; Q q[3]; p[0] = P(new A(id)); q[0] = Q(new B(id)); ++id; MC_LOG(e, "p0 = new 1");
        for (unsigned d = 0; d < depth; ++d) {
            unsigned op = e.choose(18), i = e.choose(vars), j = 0x1BE0Cu >> op & 1 ? e.choose(vars) : i;
            static const char* nm[] = {"p = SharedPtr(new)", "p = new", "p = r", "p = move(r)", "p.Reset()", "p.Reset(new)", "p.Reset(p.Get())", "p = p->next", "p = move(p->next)", "p->next = r", "p->next = move(r)", "t(p); r = t", "t(move(p)); r = move(t)", "swap(p, r)", "p = nullptr", "vector of copies", "p = r->next", "p->next.Reset()"};
            const char* n = nm[op]; e.op(n); MC_LOG(e, "%s  (p=p%u r=p%u)", n, i, j);
            switch (op) {
            case 0: p[i] = P(new A(id)); q[i] = Q(new B(id)); ++id; break;
            case 1: p[i] = new A(id); q[i].reset(new B(id)); ++id; break;
            case 2: p[i] = static_cast<const P&>(p[j]); q[i] = static_cast<const Q&>(q[j]); break;
            case 3: { P& x = p[j]; p[i] = std::move(x); if (i != j) q[i] = std::move(q[j]); break; }
            case 4: p[i].Reset(); q[i].reset(); break;
            case 5: p[i].Reset(new A(id)); q[i].reset(new B(id)); ++id; break;
            case 6: p[i].Reset(p[i].Get()); break;
            case 7: if (q[i]) { p[i] = p[i]->next; Q t = q[i]->next; q[i] = t; } break;
            case 8: if (q[i]) { p[i] = std::move(p[i]->next); Q t = std::move(q[i]->next); q[i] = t; } break;
            case 9: if (q[i] && !reaches(q[j].get(), q[i].get())) { p[i]->next = p[j]; q[i]->next = q[j]; } break;
            case 10: if (q[i] && !reaches(q[j].get(), q[i].get())) { p[i]->next = std::move(p[j]); q[i]->next = std::move(q[j]); } break;
            case 11: { P t(static_cast<const P&>(p[i])); Q u(q[i]); p[j] = t; q[j] = u; same(e, t, u, "t", n); break; }
            case 12: { P t(std::move(p[i])); Q u(std::move(q[i])); same(e, t, u, "t", n); p[j] = std::move(t); q[j] = std::move(u); same(e, t, u, "moved-from t", n); break; }
            case 13: std::swap(p[i], p[j]); std::swap(q[i], q[j]); break;
            case 14: p[i] = nullptr; q[i] = nullptr; break;
            case 15: { std::vector<P> v(3, p[i]); std::vector<Q> w(3, q[i]); v.insert(v.begin(), p[j]); w.insert(w.begin(), q[j]); p[i] = P(); q[i] = Q(); alive(e, n); p[i] = v[1]; q[i] = w[1]; v.erase(v.begin()); w.erase(w.begin()); break; }
            case 16: if (q[j]) { p[i] = p[j]->next; Q t = q[j]->next; q[i] = t; } break;
            case 17: if (q[i]) { p[i]->next.Reset(); q[i]->next.reset(); } break;
            }
            e.transition(); alive(e, n);
            for (unsigned k = 0; k < vars; ++k) { same(e, p[k], q[k], "p", n); for (unsigned l = 0; l < vars; ++l) if ((p[k] == p[l]) != (q[k] == q[l]) || (p[k] != p[l]) == (q[k] == q[l])) e.fail("compare", "after [%s] p%u == p%u is wrong", n, k, l); }
            mc::Hash h; for (unsigned k = 0; k < vars; ++k) { h.u(q[k] ? q[k]->id : 0); h.u((uint64_t)q[k].use_count()); h.u(q[k] && q[k]->next ? q[k]->next->id : 0); } e.state(h);
        }
    }
    alive(e, "end"); if (!live(0).ids.empty()) e.fail("leak", "objects outlive every pointer: %s", ids().c_str());
    e.outcome((uint64_t)id);
}
#ifndef REUSE
MC_SECTION(shared_two, true) { shared(e, mc::tier(3u, 4u), 2); }
MC_SECTION(shared_three, true) { shared(e, 3, 3); }
#endif
static void unique(mc::Exec& e, unsigned depth, unsigned vars) {
    typedef UniquePtr<UA> P; typedef std::unique_ptr<UB> Q; clear(); int id = 1;
    {
        P p[3]; Q q[3]; p[0] = P(new UA(id)); q[0] = Q(new UB(id)); ++id; MC_LOG(e, "p0 = new 1");
        for (unsigned d = 0; d < depth; ++d) {
            unsigned op = e.choose(14), i = e.choose(vars), j = 0x1704u >> op & 1 ? e.choose(vars) : i;
            static const char* nm[] = {"p = UniquePtr(new)", "p = new", "p = move(r)", "p.Reset()", "p.Reset(new)", "p.Reset(p.Get())", "delete p.Release()", "p = move(p->next)", "p->next = move(r)", "t(move(p)); r = move(t)", "swap(p, r)", "p = nullptr", "p.Reset(r.Release())", "p->next = new"};
            const char* n = nm[op]; e.op(n); MC_LOG(e, "%s  (p=p%u r=p%u)", n, i, j);
            switch (op) {
            case 0: p[i] = P(new UA(id)); q[i] = Q(new UB(id)); ++id; break;
            case 1: p[i] = new UA(id); q[i].reset(new UB(id)); ++id; break;
            case 2: { P& x = p[j]; p[i] = std::move(x); if (i != j) q[i] = std::move(q[j]); break; }
            case 3: p[i].Reset(); q[i].reset(); break;
            case 4: p[i].Reset(new UA(id)); q[i].reset(new UB(id)); ++id; break;
            case 5: p[i].Reset(p[i].Get()); break;
            case 6: { UA* a = p[i].Release(); UB* b = q[i].release(); if ((a ? a->id : -1) != (b ? b->id : -1)) e.fail("release", "Release gave the wrong object"); alive(e, n); same(e, p[i], q[i], "p", n); delete a; delete b; break; }
            case 7: if (q[i]) { p[i] = std::move(p[i]->next); Q t = std::move(q[i]->next); q[i] = std::move(t); } break;
            case 8: if (q[i] && i != j) { p[i]->next = std::move(p[j]); q[i]->next = std::move(q[j]); } break;
            case 9: { P t(std::move(p[i])); Q u(std::move(q[i])); same(e, t, u, "t", n); p[j] = std::move(t); q[j] = std::move(u); same(e, t, u, "moved-from t", n); break; }
            case 10: std::swap(p[i], p[j]); if (i != j) std::swap(q[i], q[j]); break;
            case 11: p[i] = nullptr; q[i] = nullptr; break;
            case 12: p[i].Reset(p[j].Release()); q[i].reset(q[j].release()); break;
            case 13: if (q[i]) { p[i]->next = new UA(id); q[i]->next.reset(new UB(id)); ++id; } break;
            }
            e.transition(); alive(e, n);
            mc::Hash h;
            for (unsigned k = 0; k < vars; ++k) { same(e, p[k], q[k], "p", n); for (unsigned l = 0; l < vars; ++l) if ((p[k] == p[l]) != (q[k] == q[l]) || (p[k] != p[l]) == (q[k] == q[l])) e.fail("compare", "after [%s] p%u == p%u is wrong", n, k, l); h.u(q[k] ? q[k]->id : 0).u(q[k] && q[k]->next ? q[k]->next->id : 0); }
            e.state(h);
        }
    }
    alive(e, "end"); if (!live(0).ids.empty()) e.fail("leak", "objects outlive every pointer: %s", ids().c_str());
}
#ifdef REUSE   // memory is handed out again at once: new objects and counts lie where old ones did
MC_SECTION(shared_reused, true) { shared(e, mc::tier(3u, 4u), 2); }
MC_SECTION(unique_reused, true) { unique(e, mc::tier(4u, 5u), 2); }
#else
MC_SECTION(unique_two, true) { unique(e, mc::tier(4u, 5u), 2); }
MC_SECTION(unique_three, true) { unique(e, mc::tier(3u, 4u), 3); }
// an owner that is used, copied or assigned by its own object's destructor
MC_SECTION(reentrant, true) {
    typedef SharedPtr<A> P; typedef std::shared_ptr<B> Q; clear(); unsigned kind = e.choose(5), act = e.choose(4); e.op("re-entrant destruction"); MC_LOG(e, "way of letting go %u, what the destructor does %u", kind, act);
    {
        P p(new A(1)), r(new A(2)); Q q(new B(1)), s(new B(2)); P other; Q oth; bool sawp = false, sawq = false; (void)sawp; (void)sawq;
        p->last = [&] { switch (act) { case 0: break; case 1: other = r; break; case 2: r.Reset(); break; case 3: r = new A(5); break; } };
        q->last = [&] { switch (act) { case 0: break; case 1: oth = s; break; case 2: s.reset(); break; case 3: s.reset(new B(5)); break; } };
        switch (kind) { case 0: p.Reset(); q.reset(); break; case 1: p = nullptr; q = nullptr; break; case 2: p = P(new A(3)); q = Q(new B(3)); break; case 3: p.Reset(new A(4)); q.reset(new B(4)); break; case 4: { p = P(); q = Q(); break; } }
        e.transition(); alive(e, "re-entrant"); same(e, p, q, "p", "re-entrant"); same(e, r, s, "r", "re-entrant"); same(e, other, oth, "other", "re-entrant");
    }
    alive(e, "end"); if (!live(0).ids.empty()) e.fail("leak", "objects outlive every pointer: %s", ids().c_str());
}
// many owners of one object
MC_SECTION(many_owners, true) {
    clear(); unsigned n = 1 + e.choose(mc::tier(40u, 300u)), order = e.choose(3); e.op("many owners");
    { std::vector<SharedPtr<A>> v; { SharedPtr<A> first(new A(1)); for (unsigned i = 0; i < n; ++i) v.push_back(i % 2 && i > 1 ? v[i / 2] : first); }
      for (unsigned i = 0; i < n; ++i) { if (live(0).ids.size() != 1) e.fail("alive", "object gone with %u of %u owners left", n - i, n); unsigned k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n; if (order == 2 && v[k] == nullptr) for (k = 0; v[k] == nullptr;) ++k; v[k].Reset(); e.transition(); }
      if (!live(0).ids.empty()) e.fail("alive", "object lives after all %u owners let go", n); }
    if (!live(0).bad.empty()) e.fail("lifetime", "%s", live(0).bad.c_str());
}
// Ptr does not own: copies share, nothing is destroyed implicitly, Destroy and Reset destroy the pointee once
MC_SECTION(raw, true) {
    typedef Ptr<UA> P; clear(); int id = 0; UA* obj[3] = {new UA(101), new UA(102), new UA(103)}; std::set<int> want = {101, 102, 103};
    {
        P p[2]; int m[2] = {0, 0}; unsigned n = mc::tier(4u, 6u);
        for (unsigned d = 0; d < n; ++d) {
            unsigned op = e.choose(7), i = e.choose(2), j = 1 - i; const char* nm[] = {"p = object", "p = r", "t(p); r = t", "p.Destroy()", "p.Reset()", "p.Reset(object)", "p = nullptr"}; e.op(nm[op]); MC_LOG(e, "%s (p=p%u)", nm[op], i); (void)id;
            auto fresh = [&] { for (int k = 0; k < 3; ++k) if (want.count(101 + k) && m[0] != 101 + k && m[1] != 101 + k) return k; return -1; };
            switch (op) {
            case 0: { int k = fresh(); if (k >= 0) { p[i] = obj[k]; m[i] = 101 + k; } break; }
            case 1: p[i] = p[j]; m[i] = m[j]; break;
            case 2: { P t(p[i]); p[j] = t; m[j] = m[i]; break; }
            case 3: if (m[i] && m[j] == m[i]) { p[j] = nullptr; m[j] = 0; } p[i].Destroy(); want.erase(m[i]); m[i] = 0; break;
            case 4: if (m[i] && m[j] == m[i]) { p[j] = nullptr; m[j] = 0; } p[i].Reset(); want.erase(m[i]); m[i] = 0; break;
            case 5: { int k = fresh(); if (k < 0) break; if (m[i] && m[j] == m[i]) { p[j] = nullptr; m[j] = 0; } p[i].Reset(obj[k]); want.erase(m[i]); m[i] = 101 + k; break; }
            case 6: p[i] = nullptr; m[i] = 0; break;
            }
            e.transition(); if (!live(0).bad.empty()) e.fail("lifetime", "[%s] %s", nm[op], live(0).bad.c_str());
            live(1).ids = want; alive(e, nm[op]);
            for (int k = 0; k < 2; ++k) { bool t = false; int x = 0; try { x = p[k]->id; if ((*p[k]).id != x) t = true; } catch (const std::runtime_error&) { t = true; } if (t != !m[k] || x != m[k] || (p[k] == nullptr) != !m[k] || (p[k] != nullptr) != !!m[k]) e.fail("points-to", "after [%s] p%d is wrong", nm[op], k); }
            if ((p[0] == p[1]) != (m[0] == m[1]) || (p[0] != p[1]) == (m[0] == m[1])) e.fail("compare", "comparison of p0 and p1");
            e.state(mc::Hash().u(m[0]).u(m[1]).seq(want));
        }
    }
    live(1).ids = want; alive(e, "end"); for (int k = 0; k < 3; ++k) if (want.count(101 + k)) delete obj[k];
}
MC_SECTION(owner_counts, true, false, 0, true, 60) {     // as many owners as a narrow count could not hold
    clear(); unsigned n = e.pick(kScale), order = e.choose(3); e.op("many owners"); MC_LOG(e, "%u owners, released in order %u", n, order); e.state(mc::Hash().u(n).u(order));
    { std::vector<SharedPtr<A>> v; v.reserve(n); v.push_back(SharedPtr<A>(new A(1))); for (unsigned i = 1; i < n; ++i) v.push_back(order == 2 ? v.back() : v.front()); e.check(live(0).ids.size() == 1 && v.back()->id == 1 && v.front() == v.back(), "alive", "object gone with %u owners", n);
      for (unsigned i = 0; i < n; ++i) { if (live(0).ids.size() != 1) e.fail("alive", "object gone with %u of %u owners left", n - i, n); if (order == 1) v[n - 1 - i].Reset(); else v[i] = nullptr; }
      if (!live(0).ids.empty()) e.fail("alive", "object lives after all %u owners let go", n); e.transition(2 * n); }
    if (!live(0).bad.empty()) e.fail("lifetime", "%s", live(0).bad.c_str());
}
#endif
}
