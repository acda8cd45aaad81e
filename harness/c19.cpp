#include "exph.hpp"
namespace hx {
// every payload copy and every callback of every operation may throw (at most `faults` times per history)
template <class T, class E> static void history(mc::Exec& e, unsigned depth, unsigned faults, bool counted, bool swaps = false) {   // swaps: std::swap can fail half way
    typedef Box<T, E> B; typedef typename B::X X; reg().reset(&e);
    {
        X a = B::val(3); X b = B::err(4); M ma{true, false, 3}, mb{false, false, 4}; MC_LOG(e, "a = value 3, b = error 4");
        reg().faults = faults;
        for (unsigned i = 0; i < depth; ++i) {
            unsigned op = e.choose(B::nops); e.op(B::name(op)); MC_LOG(e, "%s", B::name(op)); M na = ma, nb = mb; int f0 = reg().fired; bool threw = false;
            reg().armed = true;
            try { B::step(e, op, 10 + (int)i, a, b, na, nb); } catch (const Fault&) { threw = true; }
            reg().armed = false; e.transition();
            if ((reg().fired != f0) != threw) e.fail("swallowed", "[%s]: an exception %s", B::name(op), threw ? "came from nowhere" : "was swallowed");
            if (counted && reg().live.size() != 2) e.fail("live", "after [%s] %zu payload objects live instead of 2", B::name(op), reg().live.size());
            if (!reg().bad.empty()) e.fail("lifetime", "[%s]: %s", B::name(op), reg().bad.c_str());
            if (!threw) { ma = na; mb = nb; B::look(e, a, ma, "a"); B::look(e, b, mb, "b"); }
            else {   // whichever side each is on, it holds one live object there; what it was given before or was to be given
                const M oa = ma, ob = mb;
                for (int j = 0; j < 2; ++j) {
                    const X& x = j ? b : a; M& m = j ? mb : ma; const M& n = j ? nb : na; bool side = x.HasValue();
                    if (x.HasError() == side) e.fail("side", "after a failed [%s] both or neither side", B::name(op));
                    int v = side ? P<T>::get(x.Get()) : P<E>::get(x.GetError());
                    if (!reg().bad.empty()) e.fail("lifetime", "after a failed [%s]: %s", B::name(op), reg().bad.c_str());
                    bool old = side == m.ok && v == m.v, nw = side == n.ok && v == n.v;
                    if (n.unk || m.unk || v == kMoved) { m = {side, v == kMoved, v}; continue; }
                    if (swaps) nw = nw || (side == oa.ok && v == oa.v) || (side == ob.ok && v == ob.v);
                    if (!old && !nw) e.fail("content", "after a failed [%s] %s holds %s %d", B::name(op), j ? "b" : "a", side ? "value" : "error", v);
                    m = {side, false, v};
                }
                if (!reg().bad.empty()) e.fail("lifetime", "after a failed [%s]: %s", B::name(op), reg().bad.c_str());
            }
            if (ma.unk) { a = B::val(1); ma = {true, false, 1}; }
            if (mb.unk) { b = B::err(2); mb = {false, false, 2}; }
            e.state(mc::Hash().u(ma.ok).u(ma.v).u(mb.ok).u(mb.v).u(reg().faults));
        }
        reg().armed = false; B::observe(e, a, ma, "a"); B::observe(e, b, mb, "b");
        e.outcome(mc::Hash().u(ma.ok).u(ma.v).u(mb.ok).u(mb.v));
    }
    if (!reg().live.empty()) e.fail("live", "%zu payload objects outlive their Expected", reg().live.size());
    if (!reg().bad.empty()) e.fail("lifetime", "%s", reg().bad.c_str());
}
MC_SECTION(tracked, true) { history<Tr<1>, Tr<2>>(e, mc::tier(3u, 4u), 2, true); }
MC_SECTION(same_type, true) { history<Tr<1>, Tr<1>>(e, mc::tier(3u, 4u), 1, true); }
MC_SECTION(tracked_int, true) { history<Tr<1>, int>(e, mc::tier(3u, 4u), 1, false); }
MC_SECTION(int_tracked, true) { history<int, Tr<2>>(e, mc::tier(3u, 4u), 1, false); }
// payloads that can only be copied: moving an Expected may throw as well
MC_SECTION(copy_only, true) { if (e.flag()) history<Co<1>, Tr<2>>(e, mc::tier(3u, 4u), 2, true, true); else history<Tr<1>, Co<2>>(e, mc::tier(3u, 4u), 2, true, true); }
MC_SECTION(copy_only_int, true) { if (e.flag()) history<Co<1>, int>(e, mc::tier(3u, 4u), 1, false, true); else history<int, Co<2>>(e, mc::tier(3u, 4u), 1, false, true); }
// a fault inside an observer leaves everything as it was
template <class T, class E> static void observers(mc::Exec& e) {
    typedef Box<T, E> B; typedef typename B::X X; reg().reset(&e);
    {
        bool ok = e.flag(); X x = ok ? B::val(3) : B::err(4); M m{ok, false, ok ? 3 : 4}; T d = P<T>::make(5); size_t base = reg().live.size(); unsigned op = e.choose(9); bool threw = false; reg().faults = 1; reg().armed = true; e.op("observer with a fault"); MC_LOG(e, "observer %u of %s", op, ok ? "a value" : "an error");
        auto pt = [] { reg().point("callback"); };
        try {
            switch (op) {
            case 0: { T r = x.UnwrapOr(d); break; }
            case 1: { T r = x.UnwrapOrElse([&](const E&) -> T { pt(); return P<T>::make(1); }); break; }
            case 2: { T r = x.UnwrapOrDefault(d); break; }
            case 3: x.Fold(0, [&](int, const T& q) { pt(); T c(q); return P<T>::get(c); }); break;
            case 4: x.Inspect([&](const T& q) { pt(); T c(q); return 1; }, [&](const E& q) { pt(); E c(q); return 2; }); break;
            case 5: x.Customize([&](const X& q) { pt(); X c(q); return 1; }); break;
            case 6: { auto y = x.Map([&](const T& q) { pt(); return T(q); }); X z(y); break; }
            case 7: { auto y = x.MapError([&](const E& q) { pt(); return E(q); }); X z(y); break; }
            case 8: { X z = x.Map([&](const T& q) { pt(); return T(q); }).Then([&](const T& q) -> X { pt(); return X(q); }).CatchError([&](const E& q) -> X { pt(); return X(Unexpected<E>(q)); }).Filter([&](const T&) { pt(); return false; }); break; }
            }
        } catch (const Fault&) { threw = true; }
        reg().armed = false; e.transition(); if (threw != (reg().fired > 0)) e.fail("swallowed", "observer %u swallowed an exception", op);
        if (reg().live.size() != base) e.fail("live", "observer %u: %zu objects live instead of %zu", op, reg().live.size(), base);
        B::observe(e, x, m, "x"); if (!reg().bad.empty()) e.fail("lifetime", "observer %u: %s", op, reg().bad.c_str());
    }
    if (!reg().live.empty()) e.fail("live", "%zu payload objects outlive their Expected", reg().live.size());
}
MC_SECTION(observer_faults, true) { switch (e.choose(4)) { case 0: observers<Tr<1>, Tr<2>>(e); break; case 1: observers<Tr<1>, Tr<1>>(e); break; case 2: observers<Co<1>, Tr<2>>(e); break; case 3: observers<Co<1>, Co<2>>(e); } }
}
