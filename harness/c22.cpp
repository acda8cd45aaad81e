#include "ptrh.hpp"
#include "sizes.hpp"
namespace hx {
typedef Node<0, SharedPtr, WeakPtr> A; typedef Node<1, std::shared_ptr, std::weak_ptr> B;
static void alive(mc::Exec& e, const char* op) {
    if (!live(0).bad.empty()) e.fail("lifetime", "[%s] %s", op, live(0).bad.c_str());
    if (live(0).ids != live(1).ids) e.fail("alive", "after [%s] the living objects are %s", op, ids().c_str());
}
static void weak(mc::Exec& e, const WeakPtr<A>& w, const std::weak_ptr<B>& v, const char* who, const char* op) {
    std::shared_ptr<B> s = v.lock(); int z = s ? s->id : -1;
    if (w.expired() != v.expired()) e.fail("expired", "[%s] %s: expired() is %d", op, who, w.expired());
    if ((w == nullptr) != v.expired() || (w != nullptr) == v.expired()) e.fail("null", "[%s] %s: comparison with null", op, who);
    { SharedPtr<A> l = w.lock(); int x = l.Get() ? l.Get()->id : -1; if (x != z) e.fail("lock", "[%s] %s: lock gives %d instead of %d", op, who, x, z); }
    int x = -1, y = -1; bool t1 = false, t2 = false;
    try { x = (*w).id; } catch (const std::runtime_error&) { t1 = true; }
    try { y = w->id; } catch (const std::runtime_error&) { t2 = true; }
    if (x != z || y != z || t1 != !s || t2 != !s) e.fail("deref", "[%s] %s: dereferencing gives %d instead of %d", op, who, x, z);
}
static void history(mc::Exec& e, unsigned depth, bool few = false) {
    typedef SharedPtr<A> P; typedef std::shared_ptr<B> Q; typedef WeakPtr<A> W; typedef std::weak_ptr<B> V; live(0) = Live(); live(1) = Live(); int id = 2;
    {
        P p[2]; Q q[2]; W w[2]; V v[2]; p[0] = P(new A(1)); q[0] = Q(new B(1)); MC_LOG(e, "p0 = new 1");
        for (unsigned d = 0; d < depth; ++d) {
            unsigned op, i, j; if (few) { unsigned c = e.choose(12); op = c < 2 ? 0 : c < 4 ? 3 : c < 8 ? 4 : 7; i = c & 1; j = c < 4 ? 0 : c >> 1 & 1; } else { op = e.choose(20); i = e.choose(2); j = e.choose(2); }
            static const char* nm[] = {"p = new", "p = r", "p = move(r)", "p.Reset()", "w = p", "w = x", "w = move(x)", "p = w.lock()", "t(w); x = t", "t(move(w)); x = move(t)", "w = WeakPtr()", "W t(p); w = t", "lock held while p.Reset()", "p->back = p", "p->back = x", "w = p->back", "p = p->back.lock()", "swap(w, x)", "vector of copies", "p->next = r; p->next->back = p"};
            const char* n = nm[op]; e.op(n); MC_LOG(e, "%s  (p=p%u r=p%u w=w%u x=w%u)", n, i, j, i, j);
            switch (op) {
            case 0: p[i] = P(new A(id)); q[i] = Q(new B(id)); ++id; break;
            case 1: p[i] = p[j]; q[i] = q[j]; break;
            case 2: if (i != j) { p[i] = std::move(p[j]); q[i] = std::move(q[j]); } break;
            case 3: p[i].Reset(); q[i].reset(); break;
            case 4: w[i] = p[j]; v[i] = q[j]; break;
            case 5: w[i] = static_cast<const W&>(w[j]); v[i] = static_cast<const V&>(v[j]); break;
            case 6: { W& x = w[j]; w[i] = std::move(x); if (i != j) v[i] = std::move(v[j]); break; }
            case 7: p[i] = w[j].lock(); q[i] = v[j].lock(); break;
            case 8: { W t(static_cast<const W&>(w[i])); V u(v[i]); weak(e, t, u, "t", n); w[j] = t; v[j] = u; break; }
            case 9: { W t(std::move(w[i])); V u(std::move(v[i])); weak(e, t, u, "t", n); w[j] = std::move(t); v[j] = std::move(u); break; }
            case 10: w[i] = W(); v[i] = V(); break;
            case 11: { W t(p[j]); V u(q[j]); w[i] = t; v[i] = u; break; }
            case 12: { P l = w[i].lock(); Q m = v[i].lock(); p[0].Reset(); p[1].Reset(); q[0].reset(); q[1].reset(); alive(e, n); weak(e, w[0], v[0], "w0", n); weak(e, w[1], v[1], "w1", n); p[j] = l; q[j] = m; break; }
            case 13: if (q[i]) { p[i]->back = p[i]; q[i]->back = q[i]; } break;
            case 14: if (q[i]) { p[i]->back = w[j]; q[i]->back = v[j]; } break;
            case 15: if (q[j]) { w[i] = p[j]->back; v[i] = q[j]->back; } break;
            case 16: if (q[i]) { P t = p[i]->back.lock(); Q u = q[i]->back.lock(); p[i] = t; q[i] = u; } break;
            case 17: std::swap(w[i], w[j]); if (i != j) std::swap(v[i], v[j]); break;
            case 18: { std::vector<W> a(3, w[i]); std::vector<V> b(3, v[i]); a.push_back(w[j]); b.push_back(v[j]); w[i] = a[3]; v[i] = b[3]; break; }
            case 19: if (q[i] && q[j] && i != j && q[i] != q[j] && !q[j]->next) { p[i]->next = p[j]; q[i]->next = q[j]; p[i]->next->back = p[i]; q[i]->next->back = q[i]; } break;
            }
            e.transition(); alive(e, n); mc::Hash h;
            for (int k = 0; k < 2; ++k) {
                int x = p[k].Get() ? p[k].Get()->id : -1, y = q[k] ? q[k]->id : -1; if (x != y) e.fail("points-to", "after [%s] p%d points to %d instead of %d", n, k, x, y);
                weak(e, w[k], v[k], k ? "w1" : "w0", n); if (q[k]) weak(e, p[k]->back, q[k]->back, "p->back", n);
                h.u(y).u(q[k] ? q[k].use_count() : 0).u(v[k].expired() ? 0 : v[k].lock()->id).u(q[k] && !q[k]->back.expired() ? q[k]->back.lock()->id : 0);
            }
            if (!v[0].expired() && !v[1].expired()) { bool eq = v[0].lock() == v[1].lock(); if ((w[0] == w[1]) != eq || (w[0] != w[1]) == eq) e.fail("compare", "after [%s] w0 == w1 is wrong", n); }
            e.state(h);
            // no cycles of owners: nodes at most point forward from p0/p1, and are dropped at the end
        }
        for (int k = 0; k < 2; ++k) if (q[k]) { p[k]->next.Reset(); q[k]->next.reset(); }
    }
    alive(e, "end"); if (!live(0).ids.empty()) { live(1).ids.clear(); e.fail("leak", "objects outlive every owner: %s", ids().c_str()); }
}
#ifdef REUSE   // memory is handed out again at once: new objects and counts lie where old ones did
MC_SECTION(histories_reused, true) { history(e, mc::tier(3u, 4u)); }
MC_SECTION(few_reused, true) { history(e, mc::tier(5u, 6u), true); }
#else
MC_SECTION(histories, true) { history(e, mc::tier(3u, 4u)); }
MC_SECTION(self_reference, true) {   // an object that watches itself, or its owner list, goes when its last owner goes
    live(0) = Live(); live(1) = Live(); unsigned n = 1 + e.choose(6), drop = e.choose(3); e.op("list with back pointers"); MC_LOG(e, "%u nodes, dropped by way %u", n, drop);
    WeakPtr<A> w; std::weak_ptr<B> v;
    {
        SharedPtr<A> head; for (unsigned i = 1; i <= n; ++i) { SharedPtr<A> x(new A((int)i)); x->next = head; if (head != nullptr) head->back = x; head = x; }
        w = head->back != nullptr ? head->back : WeakPtr<A>(head); SharedPtr<A> it = head; for (unsigned i = n; i > 1; --i) { it = it->next; SharedPtr<A> b = it->back.lock(); if (b == nullptr || b->id != (int)i) e.fail("lock", "back pointer of node %u", i - 1); }
        if (drop == 0) { head.Reset(); it.Reset(); } else if (drop == 1) { it = SharedPtr<A>(); while (head != nullptr) head = head->next; } e.transition(n);
        if (drop < 2 && !live(0).ids.empty()) e.fail("alive", "%zu objects outlive their owners", live(0).ids.size());
    }
    if (!live(0).ids.empty() || !live(0).bad.empty()) e.fail("alive", "%zu objects outlive their owners %s", live(0).ids.size(), live(0).bad.c_str());
    e.check(w.expired() && w.lock() == nullptr, "expired", "the observer does not see that all owners are gone");
}
MC_SECTION(observer_counts, true, false, 0, true, 60) {  // as many owners and observers as a narrow count could not hold
    live(0) = Live(); live(1) = Live(); unsigned n = e.pick(kScale), k = e.choose(4); e.op("many observers"); MC_LOG(e, "%u, kind %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(2 * n);
    {
        SharedPtr<A> p(new A(1)); std::vector<WeakPtr<A>> w; w.reserve(n); for (unsigned i = 0; i < n; ++i) { if (i % 3 == 2) w.push_back(w.back()); else w.push_back(WeakPtr<A>(p)); }
        e.check(!w.front().expired() && w.back()->id == 1, "expired", "%u observers of a living object: expired", n);
        if (k == 0) { p.Reset(); e.check(live(0).ids.empty(), "alive", "object lives with %u observers and no owner", n); for (auto& x : w) if (!x.expired() || x.lock().Get()) e.fail("expired", "one of %u observers of a dead object does not say so", n); while (!w.empty()) w.pop_back(); }
        if (k == 1) { std::vector<SharedPtr<A>> v; v.reserve(n); for (auto& x : w) v.push_back(x.lock()); p.Reset(); e.check(live(0).ids.size() == 1 && !w[n / 2].expired(), "alive", "object gone with %u owners", n); w.erase(w.begin() + 1, w.end()); while (v.size() > 1) { v.pop_back(); if (live(0).ids.size() != 1) e.fail("alive", "object gone with %zu owners left", v.size()); } e.check(w[0].lock().Get() == v[0].Get(), "lock", "lock fails with one owner"); v.clear(); e.check(w[0].expired() && live(0).ids.empty(), "alive", "object lives after %u owners let go", n); }
        if (k == 2) { w.clear(); e.check(live(0).ids.size() == 1 && p->id == 1, "alive", "object gone with its %u observers", n); WeakPtr<A> x(p); p = nullptr; e.check(x.expired() && live(0).ids.empty(), "expired", "an observer after %u others", n); }
        if (k == 3) { for (unsigned i = 0; i < n; ++i) { SharedPtr<A> l = w[i].lock(); if (!l.Get()) e.fail("lock", "lock %u fails", i); w[i] = WeakPtr<A>(); } p.Reset(); e.check(live(0).ids.empty(), "alive", "object lives after %u locks", n); }
    }
    if (!live(0).bad.empty()) e.fail("lifetime", "%s", live(0).bad.c_str()); e.check(live(0).ids.empty(), "leak", "objects outlive every pointer");
}
#endif
}
