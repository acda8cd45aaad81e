#include "exph.hpp"
namespace hx {
template <class T, class E> static void history(mc::Exec& e, unsigned depth, bool counted) {
    typedef Box<T, E> B; typedef typename B::X X; reg().reset(&e);
    {
        X a = B::val(3); X b = B::err(4); M ma{true, false, 3}, mb{false, false, 4}; MC_LOG(e, "a = value 3, b = error 4");
        for (unsigned i = 0; i < depth; ++i) {
            unsigned op = e.choose(B::nops); e.op(B::name(op)); MC_LOG(e, "%s", B::name(op));
            B::step(e, op, 10 + (int)i, a, b, ma, mb); e.transition();
            if (counted && reg().live.size() != 2) e.fail("live", "after [%s] %zu payload objects live instead of 2", B::name(op), reg().live.size());
            B::look(e, a, ma, "a"); B::look(e, b, mb, "b");
            if (!reg().bad.empty()) e.fail("lifetime", "[%s]: %s", B::name(op), reg().bad.c_str());
            e.state(mc::Hash().u(ma.ok).u(ma.v).u(mb.ok).u(mb.v));
        }
        B::observe(e, a, ma, "a"); B::observe(e, b, mb, "b");
        e.outcome(mc::Hash().u(ma.ok).u(ma.v).u(mb.ok).u(mb.v));
        if (counted && reg().live.size() != 2) e.fail("live", "after observing %zu payload objects live instead of 2", reg().live.size());
    }
    if (!reg().live.empty()) e.fail("live", "%zu payload objects outlive their Expected", reg().live.size());
    if (!reg().bad.empty()) e.fail("lifetime", "%s", reg().bad.c_str());
}
MC_SECTION(tracked, true) { history<Tr<1>, Tr<2>>(e, mc::tier(4u, 5u), true); }
MC_SECTION(same_type, true) { history<Tr<1>, Tr<1>>(e, mc::tier(3u, 4u), true); }
MC_SECTION(int_string, true) { history<int, std::string>(e, mc::tier(3u, 4u), false); }
MC_SECTION(string_int, true) { history<std::string, int>(e, mc::tier(3u, 4u), false); }
MC_SECTION(trivial, true) { history<int, int>(e, mc::tier(3u, 4u), false); }
MC_SECTION(tracked_int, true) { history<Tr<1>, int>(e, mc::tier(3u, 4u), false); }
MC_SECTION(int_tracked, true) { history<int, Tr<2>>(e, mc::tier(3u, 4u), false); }
MC_SECTION(shared, true) { history<std::shared_ptr<int>, std::string>(e, mc::tier(3u, 4u), false); }
// UnwrapOrDefault() keeps one default object per type for ever: no leak check, and only types that do not count objects
template <class T, class E> static void defaults(mc::Exec& e) {
    typedef Box<T, E> B; e.op("UnwrapOrDefault()"); typename B::X a = B::val(3), b = B::err(4);
    int x = P<T>::get(a.UnwrapOrDefault()), y = P<T>::get(b.UnwrapOrDefault()); const T* p = &b.UnwrapOrDefault(); const T* q = &a.UnwrapOrDefault();
    e.check(x == 3 && y == 0, "default", "UnwrapOrDefault gives %d for value 3 and %d for an error", x, y); e.check(P<T>::get(*p) == 0 && P<T>::get(*q) == 3, "default", "references from UnwrapOrDefault do not last"); e.transition(4);
}
MC_SECTION(unwrap_default, false) { switch (e.choose(3)) { case 0: defaults<int, int>(e); break; case 1: defaults<std::string, int>(e); break; case 2: defaults<std::shared_ptr<int>, std::string>(e); } }
// payloads that can only be moved
MC_SECTION(move_only, true) {
    typedef std::unique_ptr<int> Q; typedef Expected<Q, Q> X; auto mk = [](int i) { return Q(new int(i)); };
    X a(mk(1)); X b(Unexpected<Q>(mk(2))); bool ok[2] = {true, false}; int v[2] = {1, 2}; unsigned n = mc::tier(5u, 7u);
    for (unsigned i = 0; i < n; ++i) {
        unsigned op = e.choose(6); e.op("move only payload"); MC_LOG(e, "operation %u", op); int k = 10 + (int)i;
        switch (op) {
        case 0: a = X(mk(k)); ok[0] = true; v[0] = k; break;
        case 1: a = X(Unexpected<Q>(mk(k))); ok[0] = false; v[0] = k; break;
        case 2: a = std::move(b); ok[0] = ok[1]; v[0] = v[1]; b = X(mk(k)); ok[1] = true; v[1] = k; break;
        case 3: { X t(std::move(a)); a = X(Unexpected<Q>(mk(k))); b = std::move(t); ok[1] = ok[0]; v[1] = v[0]; ok[0] = false; v[0] = k; break; }
        case 4: std::swap(a, b); std::swap(ok[0], ok[1]); std::swap(v[0], v[1]); break;
        case 5: { int g = b.Fold(0, [](int s, const Q& q) { return s + *q; }); if (g != (ok[1] ? v[1] : 0)) e.fail("fold", "Fold gives %d", g); break; }
        }
        e.transition(); const X* x[2] = {&a, &b};
        for (int j = 0; j < 2; ++j) { if (x[j]->HasValue() != ok[j]) e.fail("side", "x%d is on the wrong side", j); int g = ok[j] ? *x[j]->Get() : *x[j]->GetError(); if (g != v[j]) e.fail("content", "x%d holds %d instead of %d", j, g, v[j]); }
        e.state(mc::Hash().u(ok[0]).u(v[0]).u(ok[1]).u(v[1]));
    }
}
MC_SECTION(unexpected, true) {
    int i = (int)e.choose(4), j = (int)e.choose(4); e.op("Unexpected"); Unexpected<int> x(i), y(j); e.check((x == y) == (i == j) && (x != y) == (i != j) && x.Get() == i, "unexpected", "comparison of Unexpected %d and %d", i, j);
    auto s = MakeError("text"); auto t = MakeError(String("text")); e.check(s == t && s.Get() == String("text"), "unexpected", "MakeError from text"); Expected<int, String> q = s; e.check(q.HasError() && q.GetError() == String("text"), "unexpected", "Expected from MakeError"); e.transition(4);
}
// alternatives of another type than the payload
MC_SECTION(conversions, true) {
    bool ok = e.flag(); e.op("UnwrapOr and friends with converted alternatives"); unsigned k = e.choose(5); MC_LOG(e, "%s, payload kind %u", ok ? "value" : "error", k); e.transition(3);
    switch (k) {
    case 0: { typedef Expected<std::string, int> X; X x = ok ? X(std::string("v")) : X(Unexpected<int>(4)); std::string r = x.UnwrapOr("alternative"); e.check(r == (ok ? "v" : "alternative"), "convert", "UnwrapOr(literal) gives %s", r.c_str()); r = x.UnwrapOrElse([](int i) { return std::string(1, (char)('0' + i)); }); e.check(r == (ok ? "v" : "4"), "convert", "UnwrapOrElse gives %s", r.c_str()); break; }
    case 1: { typedef Expected<long long, std::string> X; X x = ok ? X(1LL << 40) : X(Unexpected<std::string>(std::string("bad"))); long long r = x.UnwrapOr(7); e.check(r == (ok ? 1LL << 40 : 7), "convert", "UnwrapOr(int) gives %lld", r); auto m = x.Map([](long long v) { return v == (1LL << 40); }); e.check(m.HasValue() == ok && (!ok || m.Get()), "convert", "Map to bool"); break; }
    case 2: { typedef Expected<double, int> X; X x = ok ? X(2.5) : X(Unexpected<int>(4)); double r = x.UnwrapOr(7); e.check(r == (ok ? 2.5 : 7), "convert", "UnwrapOr(int) of a double gives %f", r); r = x.UnwrapOrElse([](int i) { return i + 0.25; }); e.check(r == (ok ? 2.5 : 4.25), "convert", "UnwrapOrElse gives %f", r); break; }
    case 3: { typedef Expected<bool, bool> X; bool v = e.flag(); X x = ok ? X(v) : X(Unexpected<bool>(v)); e.check(x.HasValue() == ok && static_cast<bool>(x) == ok, "side", "an Expected<bool> tests for its content"); e.check((ok ? x.Get() : x.GetError()) == v, "content", "Expected<bool>"); e.check(x.UnwrapOr(!v) == (ok ? v : !v), "convert", "UnwrapOr of Expected<bool>"); break; }
    case 4: { typedef Expected<Expected<int, int>, int> X; unsigned in = e.choose(2); Expected<int, int> i = in ? Expected<int, int>(3) : Expected<int, int>(Unexpected<int>(5)); X x = ok ? X(i) : X(Unexpected<int>(4)); e.check(x.HasValue() == ok, "side", "nested"); if (ok) e.check(x.Get().HasValue() == (in == 1) && (in ? x.Get().Get() == 3 : x.Get().GetError() == 5), "content", "nested content"); else e.check(x.GetError() == 4, "content", "nested error"); break; }
    }
}
}
