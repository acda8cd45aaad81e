// Expected<T, E> against a plain sum type; shared by c18 and c19.
#pragma once
#include "tracked.hpp"
#include "Caitlyn/__Core/Error/Expected.h"
using namespace Caitlyn;
namespace hx {
using namespace tk;
struct M { bool ok, unk; int v; };                     // unk: moved from, content unspecified
struct Cb { int n = 0; int last = -1; };
template <class T, class E> struct Box {
    typedef Expected<T, E> X; typedef Unexpected<E> U;
    static X val(int i) { return X(P<T>::make(i)); }
    static X err(int i) { return X(U(P<E>::make(i))); }
    static int f(int v) { return (v * 2 + 1) % 97; }
    // the value functions given to combinators: each call is counted, its argument recorded
    static void calls(mc::Exec& e, const Cb& c, bool should, int arg, const char* who) {
        if (c.n != (should ? 1 : 0)) e.fail("calls", "%s: the callback ran %d times instead of %d", who, c.n, should ? 1 : 0);
        if (should && c.last != arg) e.fail("argument", "%s: the callback was given %d instead of %d", who, c.last, arg);
    }
    static void look(mc::Exec& e, const X& x, const M& m, const char* who) {
        if (m.unk) return;
        if (x.HasValue() != m.ok || x.HasError() == m.ok || static_cast<bool>(x) != m.ok) e.fail("side", "%s: HasValue=%d HasError=%d bool=%d, expected a %s", who, x.HasValue(), x.HasError(), (bool)x, m.ok ? "value" : "error");
        bool t1 = false, t2 = false; int g = -1, h = -1;
        try { g = P<T>::get(x.Get()); } catch (const std::logic_error&) { t1 = true; }
        try { h = P<E>::get(x.GetError()); } catch (const std::logic_error&) { t2 = true; }
        if (t1 == m.ok || t2 != m.ok) e.fail("absent", "%s: Get %s, GetError %s on %s", who, t1 ? "throws" : "returns", t2 ? "throws" : "returns", m.ok ? "a value" : "an error");
        if ((m.ok ? g : h) != m.v) e.fail("content", "%s holds %s %d instead of %d", who, m.ok ? "value" : "error", m.ok ? g : h, m.v);
    }
    static void observe(mc::Exec& e, const X& x, const M& m, const char* who) {
        if (m.unk) return;
        look(e, x, m, who);
        T d = P<T>::make(55);
        int r = P<T>::get(x.UnwrapOr(d)); if (r != (m.ok ? m.v : 55)) e.fail("unwrap-or", "%s: UnwrapOr gives %d", who, r);
        Cb c; auto uf = [&](const E& q) -> T { c.n++; c.last = P<E>::get(q); return P<T>::make(f(c.last)); };
        r = P<T>::get(x.UnwrapOrElse(uf)); calls(e, c, !m.ok, m.v, "UnwrapOrElse"); if (r != (m.ok ? m.v : f(m.v))) e.fail("unwrap-or-else", "%s: UnwrapOrElse gives %d", who, r);
        r = P<T>::get(x.UnwrapOrDefault(d)); if (r != (m.ok ? m.v : 55)) e.fail("unwrap-or-default", "%s: UnwrapOrDefault(d) gives %d", who, r);
        bool t = false; r = m.v; try { r = P<T>::get(x.Expect(String("no value"))); } catch (const std::runtime_error& q) { t = true; if (std::string(q.what()) != "no value") e.fail("expect-message", "Expect throws '%s'", q.what()); }
        if (t == m.ok || (m.ok && r != m.v)) e.fail("expect", "%s: Expect", who);
        t = false; r = m.v; try { r = P<E>::get(x.ExpectError(std::string("no error"))); } catch (const std::runtime_error& q) { t = true; if (std::string(q.what()) != "no error") e.fail("expect-message", "ExpectError throws '%s'", q.what()); }
        if (t != m.ok || (!m.ok && r != m.v)) e.fail("expect-error", "%s: ExpectError", who);
        c = Cb(); r = x.Fold(1000, [&](int i, const T& q) { c.n++; c.last = P<T>::get(q); return i + c.last; }); calls(e, c, m.ok, m.v, "Fold"); if (r != (m.ok ? 1000 + m.v : 1000)) e.fail("fold", "%s: Fold gives %d", who, r);
        c = Cb(); Cb c2; r = x.Inspect([&](const T& q, int k) { c.n++; c.last = P<T>::get(q); return c.last + k; }, [&](const E& q, int k) { c2.n++; c2.last = P<E>::get(q); return -c2.last - k; }, 300);
        calls(e, c, m.ok, m.v, "Inspect value side"); calls(e, c2, !m.ok, m.v, "Inspect error side"); if (r != (m.ok ? m.v + 300 : -m.v - 300)) e.fail("inspect", "%s: Inspect gives %d", who, r);
        c = Cb(); c2 = Cb(); r = x.Inspect([&](const T& q) { c.n++; c.last = P<T>::get(q); return c.last; }, [&](const E& q) { c2.n++; c2.last = P<E>::get(q); return -c2.last; });
        calls(e, c, m.ok, m.v, "Inspect() value side"); calls(e, c2, !m.ok, m.v, "Inspect() error side"); if (r != (m.ok ? m.v : -m.v)) e.fail("inspect", "%s: Inspect without arguments gives %d", who, r);
        c = Cb(); c2 = Cb(); std::string st("s"); r = x.Inspect([&](const T& q, int k, std::string& l) { c.n++; c.last = P<T>::get(q); l += "v"; return c.last + k; }, [&](const E& q, int k, std::string& l) { c2.n++; c2.last = P<E>::get(q); l += "e"; return -c2.last - k; }, 300, st);
        calls(e, c, m.ok, m.v, "Inspect(2) value side"); calls(e, c2, !m.ok, m.v, "Inspect(2) error side"); if (r != (m.ok ? m.v + 300 : -m.v - 300) || st != (m.ok ? "sv" : "se")) e.fail("inspect", "%s: Inspect with two arguments gives %d and %s", who, r, st.c_str());
        c = Cb(); c2 = Cb(); r = x.Inspect([&](const T& q, int k, const char* l, std::unique_ptr<int> u) { c.n++; c.last = P<T>::get(q); return c.last + k + l[0] + *u; }, [&](const E& q, int k, const char* l, std::unique_ptr<int> u) { c2.n++; c2.last = P<E>::get(q); return -c2.last - k - l[0] - *u; }, 300, "A", std::unique_ptr<int>(new int(7)));
        calls(e, c, m.ok, m.v, "Inspect(3) value side"); calls(e, c2, !m.ok, m.v, "Inspect(3) error side"); if (r != (m.ok ? m.v + 372 : -m.v - 372)) e.fail("inspect", "%s: Inspect with three arguments gives %d", who, r);
        { std::string init("i"); c = Cb(); std::string o = x.Fold(init, [&](const std::string& i, const T& q) -> std::string { c.n++; c.last = P<T>::get(q); return i + "+"; }); calls(e, c, m.ok, m.v, "Fold of text"); if (o != (m.ok ? "i+" : "i") || init != "i") e.fail("fold", "%s: Fold of text gives %s", who, o.c_str()); }
        int n = 0; r = x.Customize([&](const X& q) { n++; return &q == &x ? 5 : 6; }); if (n != 1 || r != 5) e.fail("customize", "%s: Customize gives %d after %d calls", who, r, n);
        c = Cb(); auto y = x.Map([&](const T& q) -> long { c.n++; c.last = P<T>::get(q); return c.last + 5L; }); calls(e, c, m.ok, m.v, "Map to another type");
        if (y.HasValue() != m.ok || (m.ok ? y.Get() != m.v + 5 : P<E>::get(y.GetError()) != m.v)) e.fail("map-type", "%s: Map to another type", who);
        c = Cb(); auto z = x.MapError([&](const E& q) -> std::string { c.n++; c.last = P<E>::get(q); return std::to_string(c.last); }); calls(e, c, !m.ok, m.v, "MapError to another type");
        if (z.HasValue() != m.ok || (m.ok ? P<T>::get(z.Get()) != m.v : z.GetError() != std::to_string(m.v))) e.fail("map-error-type", "%s: MapError to another type", who);
    }
    static constexpr unsigned nops = 26;
    // one operation on a; b is the other Expected; may throw tk::Fault
    static const char* name(unsigned op) {
        static const char* n[nops] = {"a = value", "a = error", "a = b", "a = move(b); b = value", "t(a); b = t", "t(move(a)); b = move(t); a = error", "a = a", "swap(a, b)", "a = b.Map", "a = b.MapError", "a = b.AndThen(value)", "a = b.AndThen(error)",
            "a = b.OrElse(value)", "a = b.OrElse(error)", "a = b.Filter(true)", "a = b.Filter(false)", "a = b.Then(value)", "a = b.Then(error)", "a = b.CatchError(value)", "a = b.CatchError(error)", "a = b.OnError", "a = X(value copied)", "a = X(error copied)", "b = MakeCorrect; a = MakeError",
            "a = a.Map.MapError chain", "a = move(b)"};
        return n[op];
    }
    static void step(mc::Exec& e, unsigned op, int k, X& a, X& b, M& ma, M& mb) {
        Cb c; auto vf = [&](const T& q) { reg().point("callback"); c.n++; c.last = P<T>::get(q); return P<T>::make(f(c.last)); };
        auto ef = [&](const E& q) { reg().point("callback"); c.n++; c.last = P<E>::get(q); return P<E>::make(f(c.last)); };
        auto v2v = [&](const T& q) -> X { reg().point("callback"); c.n++; c.last = P<T>::get(q); return val(f(c.last)); };
        auto v2e = [&](const T& q) -> X { reg().point("callback"); c.n++; c.last = P<T>::get(q); return err(f(c.last)); };
        auto e2v = [&](const E& q) -> X { reg().point("callback"); c.n++; c.last = P<E>::get(q); return val(f(c.last)); };
        auto e2e = [&](const E& q) -> X { reg().point("callback"); c.n++; c.last = P<E>::get(q); return err(f(c.last)); };
        bool on_v = false, on_e = false; M r = mb; const char* w = name(op);
        switch (op) {
        case 0: a = val(k); ma = {true, false, k}; return;
        case 1: a = err(k); ma = {false, false, k}; return;
        case 2: a = static_cast<const X&>(b); ma = mb; return;
        case 3: a = std::move(b); ma = mb; mb.unk = true; b = val(k); mb = {true, false, k}; return;
        case 4: { X t(static_cast<const X&>(a)); b = static_cast<const X&>(t); look(e, t, ma, "t"); mb = ma; return; }
        case 5: { X t(std::move(a)); M mt = ma; ma.unk = true; look(e, t, mt, "t"); b = std::move(t); mb = mt; a = err(k); ma = {false, false, k}; return; }
        case 6: { X& s = a; a = s; return; }
        case 7: std::swap(a, b); std::swap(ma, mb); return;
        case 8: a = b.Map(vf); on_v = true; if (mb.ok) r.v = f(mb.v); break;
        case 9: a = b.MapError(ef); on_e = true; if (!mb.ok) r.v = f(mb.v); break;
        case 10: a = b.AndThen(v2v); on_v = true; if (mb.ok) r.v = f(mb.v); break;
        case 11: a = b.AndThen(v2e); on_v = true; if (mb.ok) r = {false, false, f(mb.v)}; break;
        case 12: a = b.OrElse(e2v); on_e = true; if (!mb.ok) r = {true, false, f(mb.v)}; break;
        case 13: a = b.OrElse(e2e); on_e = true; if (!mb.ok) r.v = f(mb.v); break;
        case 14: a = b.Filter([&](const T& q) { reg().point("callback"); c.n++; c.last = P<T>::get(q); return true; }); on_v = true; break;
        case 15: a = b.Filter([&](const T& q) { reg().point("callback"); c.n++; c.last = P<T>::get(q); return false; }); on_v = true; if (mb.ok) r = {false, false, 0}; break;
        case 16: a = b.Then(v2v); on_v = true; if (mb.ok) r.v = f(mb.v); break;
        case 17: a = b.Then(v2e); on_v = true; if (mb.ok) r = {false, false, f(mb.v)}; break;
        case 18: a = b.CatchError(e2v); on_e = true; if (!mb.ok) r = {true, false, f(mb.v)}; break;
        case 19: a = b.CatchError(e2e); on_e = true; if (!mb.ok) r.v = f(mb.v); break;
        case 20: a = b.OnError([&](const E& q) { reg().point("callback"); c.n++; c.last = P<E>::get(q); }); on_e = true; break;
        case 21: { T t = P<T>::make(k); const T& ct = t; X x(ct); a = x; ma = {true, false, k}; return; }
        case 22: { U t(P<E>::make(k)); const U& ct = t; X x(ct); a = x; ma = {false, false, k}; return; }
        case 23: b = MakeCorrect<T, E>(P<T>::make(k)); mb = {true, false, k}; a = MakeError(P<E>::make(k + 1)); ma = {false, false, k + 1}; return;
        case 24: { a = a.Map(vf).MapError(ef); calls(e, c, true, ma.v, w); ma.v = f(ma.v); return; }
        case 25: a = std::move(b); ma = mb; mb.unk = true; b = static_cast<const X&>(a); mb = ma; return;
        }
        calls(e, c, on_v ? mb.ok : !mb.ok, mb.v, w); (void)on_e; ma = r;
    }
};
}
