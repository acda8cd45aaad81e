// Payload types with every combination of the liberties a type may take, and what is done with them.
#pragma once
#include "mc.hpp"
#include <initializer_list>
#include <memory>
#include <new>
#include <vector>
#include <map>
#include <Caitlyn/Collections>
#include <Caitlyn/Error>
#include <Caitlyn/Memory>
#include <Caitlyn/String>
#include <Caitlyn/Utility>
namespace user {
enum { NODEFAULT = 1, MOVEONLY = 2, THROWS = 4, LIST = 8 };                       // what the type can do
enum { PLAIN, AMPERSAND, OPNEW, COMMA, ALIGNED, TRUTH, NHYG };                    // what it does to operators
template <bool> struct D {}; template <> struct D<true> { D() = delete; explicit D(int) {} D(const D&) = default; D(D&&) = default; D& operator=(const D&) = default; D& operator=(D&&) = default; };
template <bool> struct C {}; template <> struct C<true> { C() = default; C(C&&) = default; C& operator=(C&&) = default; C(const C&) = delete; C& operator=(const C&) = delete; };
template <bool> struct M {}; template <> struct M<true> { M() = default; M(const M&) = default; M& operator=(const M&) = default; M(M&&) noexcept(false) {} M& operator=(M&&) noexcept(false) { return *this; } };
template <unsigned> struct H {};
template <> struct H<AMPERSAND> { void operator&() const {} };
extern int g_new; template <> struct H<OPNEW> { static void* operator new(size_t n) { ++g_new; return ::operator new(n); } static void operator delete(void* p) { --g_new; ::operator delete(p); } };
template <> struct H<COMMA> { template <class T> void operator,(T&&) const = delete; };
template <> struct alignas(64) H<ALIGNED> {};
template <> struct H<TRUTH> { bool operator!() const = delete; explicit operator bool() const = delete; template <class T> bool operator&&(T&&) const = delete; template <class T> bool operator||(T&&) const = delete; };
// the value, counted and with a self reference that shows copies made behind the type's back
struct Token { static int& live() { static int n = 0; return n; } int v; const Token* me; explicit Token(int x = 0) : v(x), me(this) { ++live(); } Token(const Token& o) : v(o.v), me(this) { ++live(); } Token(Token&& o) noexcept : v(o.v), me(this) { o.v = -1; ++live(); } Token& operator=(const Token& o) { v = o.v; return *this; } Token& operator=(Token&& o) noexcept { if (this != std::addressof(o)) { v = o.v; o.v = -1; } return *this; } ~Token() { --live(); me = nullptr; } };
template <unsigned B, unsigned Y> struct P : D<(B & NODEFAULT) != 0>, C<(B & MOVEONLY) != 0>, M<(B & THROWS) != 0>, H<Y> {
    Token t; P() = default; explicit P(int v) : P(v, std::integral_constant<bool, (B & NODEFAULT) != 0>()) {}
    template <unsigned X = B, typename std::enable_if<(X & LIST) != 0, int>::type = 0> P(std::initializer_list<P> l) : P(1000 + (int)l.size()) {}
    int value() const { return t.me == &t ? t.v : -2; }
private:
    P(int v, std::true_type) : D<true>(0), t(v) {} P(int v, std::false_type) : t(v) {}
};
// names a library may use unqualified by mistake: an unqualified call becomes ambiguous or is taken over
template <class T> void move(T&&); template <class T> void forward(T&&); template <class T, class U> void swap(T&&, U&&); template <class T> void addressof(T&&); template <class T> void Move(T&&); template <class T> void Forward(T&&); template <class T, class U> void Swap(T&&, U&&); template <class T> void Construct(T&&); template <class T, class U> void Construct(T&&, U&&); template <class T> void Destroy(T&&); template <class T> void Release(T&&); template <class T> void MakeError(T&&); template <class T> void ToString(T&&); template <class T> void begin(T&&); template <class T> void end(T&&); template <class T> void distance(T&&, T&&); template <class F, class T> void invoke(F&&, T&&); template <class T> void get(T&&); template <class T> void Replace(T&&); template <class T, class U> void Replace(T&&, U&&); template <class T, class U> void Renew(T&&, U&&);
}
namespace hx {
using namespace Caitlyn;
template <class X> static void same(mc::Exec& e, const char* type, const char* op, const X& x, bool has, int v) {
    int got = x.HasValue() ? x.Get().value() : x.GetError().value(); if (x.HasValue() != has || x.HasError() == has || (bool)x != has || got != v) e.fail("expected", "%s: after %s it holds %s %d instead of %s %d", type, op, x.HasValue() ? "value" : "error", got, has ? "value" : "error", v);
    const void* at = x.HasValue() ? (const void*)std::addressof(x.Get()) : (const void*)std::addressof(x.GetError()); if ((size_t)at % (x.HasValue() ? alignof(typename X::ValueType) : alignof(typename X::ErrorType))) e.fail("alignment", "%s: after %s the content lies at %p", type, op, at);
}
template <class V, class E> static Expected<V, E> make(bool has, int v) { if (has) return Expected<V, E>(V(v)); return Expected<V, E>(Unexpected<E>(E(v))); }
// what only types that can be copied can do
template <class V, class E, bool Copy> struct Copies { static void run(mc::Exec&, const char*, unsigned, bool, bool) {} };
template <class V, class E> struct Copies<V, E, true> { static void run(mc::Exec& e, const char* type, unsigned op, bool ha, bool hb) {
    if (op >= 8 && (alignof(V) > 16 || alignof(E) > 16)) return; typedef Expected<V, E> X; X a(make<V, E>(ha, 1)), b(make<V, E>(hb, 2));
    switch (op) {
    case 0: { X c(static_cast<const X&>(a)); same(e, type, "a copy", c, ha, 1); same(e, type, "being copied", a, ha, 1); break; }
    case 1: a = static_cast<const X&>(b); same(e, type, "copy assignment", a, hb, 2); same(e, type, "being copied", b, hb, 2); break;
    case 2: { const V v(7); X c(v); same(e, type, "a copy of a value", c, true, 7); const Unexpected<E> u(E(8)); X d(u); same(e, type, "a copy of an error", d, false, 8); break; }
    case 3: same(e, type, "AndThen", a.AndThen([](const V& v) { return X(V(v.value() + 10)); }), ha, ha ? 11 : 1); same(e, type, "Then", a.Then([](const V& v) { return X(V(v.value() + 10)); }), ha, ha ? 11 : 1); break;
    case 4: same(e, type, "OrElse", a.OrElse([](const E& v) { return X(Unexpected<E>(E(v.value() + 10))); }), ha, ha ? 1 : 11); same(e, type, "CatchError", a.CatchError([](const E& v) { return X(V(v.value() + 10)); }), true, ha ? 1 : 11); break;
    case 5: { int seen = 0; same(e, type, "OnError", a.OnError([&](const E& v) { seen = v.value(); }), ha, 1); if (seen != (ha ? 0 : 1)) e.fail("expected", "%s: OnError saw %d", type, seen); break; }
    case 6: { V r = a.UnwrapOr(V(9)); if (r.value() != (ha ? 1 : 9)) e.fail("expected", "%s: UnwrapOr gives %d", type, r.value()); break; }
    case 7: { auto r = a.MapError([](const E& v) { return user::P<0, 0>(v.value() + 20); }); same(e, type, "MapError", r, ha, ha ? 1 : 21); auto q = a.Map([](const V& v) { return user::P<user::MOVEONLY, user::AMPERSAND>(v.value() + 20); }); same(e, type, "Map", q, ha, ha ? 21 : 1); break; }
    case 8: { std::vector<X> v; for (int i = 0; i < 5; ++i) { v.push_back(a); v.push_back(b); } for (int i = 0; i < 10; ++i) same(e, type, "growing a vector", v[(size_t)i], i % 2 ? hb : ha, i % 2 ? 2 : 1); break; }
    default: { std::map<int, V> m; m.emplace(1, V(3)); m.emplace(2, V(4)); auto k = GetMapValues(m); if (k.size() != 2 || k[0].value() != 3 || k[1].value() != 4) e.fail("map", "%s: the values of the map are %d %d", type, k.size() ? k[0].value() : -9, k.size() > 1 ? k[1].value() : -9); }
    } } };
template <class V, class E, bool Def> struct Defaults { static void run(mc::Exec&, const char*, bool) {} };
template <class V, class E> struct Defaults<V, E, true> { static void run(mc::Exec& e, const char* type, bool ha) { auto a = make<V, E>(ha, 1); const V& r = a.UnwrapOrDefault(); int v = r.value(); if (v != (ha ? 1 : 0) && !(!ha && v == 1000)) e.fail("expected", "%s: UnwrapOrDefault gives %d", type, v); if ((size_t)std::addressof(r) % alignof(V)) e.fail("alignment", "%s: the default lies at %p", type, (const void*)std::addressof(r)); } };
template <class V, class E, bool Copy, bool Def> static void expected(mc::Exec& e, const char* type) {
    typedef Expected<V, E> X; bool ha = e.flag(), hb = e.flag(); unsigned op = e.choose(10 + (Copy ? 10 : 0)); Defaults<V, E, Def>::run(e, type, ha); int live = user::Token::live(), news = user::g_new; e.op("Expected"); MC_LOG(e, "%s: operation %u, %s and %s", type, op, ha ? "value" : "error", hb ? "value" : "error"); e.transition(); e.state(mc::Hash().s(type).u(op));
    { X a(make<V, E>(ha, 1)), b(make<V, E>(hb, 2)); same(e, type, "construction", a, ha, 1); same(e, type, "construction", b, hb, 2);
      switch (op) {
      case 0: { X c(std::move(a)); same(e, type, "a move", c, ha, 1); break; }
      case 1: a = std::move(b); same(e, type, "move assignment", a, hb, 2); break;
      case 2: std::swap(a, b); same(e, type, "swap", a, hb, 2); same(e, type, "swap", b, ha, 1); break;
      case 3: { auto r = a.Map([](const V& v) { return v.value() * 3; }); if (ha ? !r.HasValue() || r.Get() != 3 : r.HasValue() || r.GetError().value() != 1) e.fail("expected", "%s: Map", type); break; }
      case 4: { int r = a.Fold(5, [](int s, const V& v) { return s + v.value(); }); if (r != (ha ? 6 : 5)) e.fail("expected", "%s: Fold gives %d", type, r); r = a.Inspect([](const V& v, int k) { return v.value() + k; }, [](const E& v, int k) { return v.value() - k; }, 100); if (r != (ha ? 101 : -99)) e.fail("expected", "%s: Inspect gives %d", type, r); r = a.Customize([](const X& x) { return x.HasValue() ? 1 : 2; }); if (r != (ha ? 1 : 2)) e.fail("expected", "%s: Customize gives %d", type, r); break; }
      case 5: { int r = 0; try { r = a.Expect("none").value(); } catch (const std::runtime_error&) { r = 50; } if (r != (ha ? 1 : 50)) e.fail("expected", "%s: Expect gives %d", type, r); try { r = a.ExpectError("none").value(); } catch (const std::runtime_error&) { r = 50; } if (r != (ha ? 50 : 1)) e.fail("expected", "%s: ExpectError gives %d", type, r); break; }
      case 6: { V d(9); const V& r = a.UnwrapOrDefault(d); if (std::addressof(r) != (ha ? std::addressof(a.Get()) : std::addressof(d))) e.fail("expected", "%s: UnwrapOrDefault(value) is another object", type); break; }
      case 7: a = V(11); same(e, type, "assignment of a value", a, true, 11); a = Unexpected<E>(E(12)); same(e, type, "assignment of an error", a, false, 12); break;
      case 8: { auto f = [](X x) { return x; }; X c(f(std::move(a))); same(e, type, "passing by value", c, ha, 1); b = f(f(std::move(c))); same(e, type, "passing by value", b, ha, 1); break; }
      default: if (op >= 10) Copies<V, E, Copy>::run(e, type, op - 10, ha, hb); } }
    if (user::Token::live() != live || user::g_new != news) e.fail("leak", "%s: operation %u leaves %d objects behind", type, op, user::Token::live() - live);
}
template <class V> static void pointers(mc::Exec& e, const char* type) {
    unsigned op = e.choose(6); int live = user::Token::live(), news = user::g_new; e.op("pointers"); MC_LOG(e, "%s: operation %u", type, op); e.transition(); auto is = [&](const char* what, bool ok) { if (!ok) e.fail("pointer", "%s: %s", type, what); };
    switch (op) {
    case 0: { UniquePtr<V> a(new V(1)), b; is("UniquePtr", (*a).value() == 1 && a->value() == 1 && a != nullptr && b == nullptr); b = std::move(a); is("UniquePtr moved", a == nullptr && b->value() == 1); b.Reset(new V(2)); is("UniquePtr reset", b->value() == 2); V* raw = b.Release(); is("UniquePtr released", b == nullptr && raw->value() == 2); delete raw; break; }
    case 1: { SharedPtr<V> a(new V(1)), b(a), c; c = b; is("SharedPtr", a == b && c->value() == 1 && (*b).value() == 1); a.Reset(new V(2)); is("SharedPtr reset", a->value() == 2 && b->value() == 1 && a != b); std::swap(a, b); is("SharedPtr swapped", b->value() == 2 && a->value() == 1); SharedPtr<V> d(std::move(a)); is("SharedPtr moved", a == nullptr && d == c); break; }
    case 2: { WeakPtr<V> w; is("WeakPtr", w.expired()); { SharedPtr<V> a(new V(1)); w = a; WeakPtr<V> w2(w), w3(a); is("WeakPtr", !w.expired() && w->value() == 1 && (*w2).value() == 1 && w.lock()->value() == 1 && w2 == w3); } is("WeakPtr expired", w.expired() && w.lock() == nullptr); break; }
    case 3: { V v(3); Ptr<V> a(std::addressof(v)), b(a), c; c = a; is("Ptr", a->value() == 3 && (*b).value() == 3 && c == a && c != nullptr); a = nullptr; is("Ptr of nothing", a == nullptr); Ptr<V> d(new V(4)); d.Destroy(); break; }
    case 4: { UniquePtr<const V> a(new V(1)); is("UniquePtr of const", a->value() == 1 && (*a).value() == 1); SharedPtr<const V> b(new V(2)), c(b); WeakPtr<const V> w(c); is("SharedPtr of const", c->value() == 2 && w.lock()->value() == 2); const V v(3); Ptr<const V> p(std::addressof(v)); is("Ptr to const", p->value() == 3); break; }
    default: { std::vector<SharedPtr<V>> v; std::vector<UniquePtr<V>> u; for (int i = 0; i < 9; ++i) { v.push_back(SharedPtr<V>(new V(i))); u.push_back(UniquePtr<V>(new V(i))); } for (int i = 0; i < 9; ++i) is("a pointer in a growing vector", v[(size_t)i]->value() == i && u[(size_t)i]->value() == i); }
    }
    if (user::Token::live() != live || user::g_new != news) e.fail("leak", "%s: operation %u on pointers leaves %d objects behind", type, op, user::Token::live() - live);
}
template <unsigned B, unsigned Y> static void payload(mc::Exec& e) {
    typedef user::P<B, Y> V; typedef user::P<(B & ~user::MOVEONLY) | user::LIST, (Y + 1) % user::NHYG> E; static const char* const H[] = {"", ", its own operator&", ", its own operator new", ", a deleted comma", ", an alignment of 64", ", no truth value"};
    std::string s = mc::strf("a type that %s, %s, moves %s%s%s", B & user::NODEFAULT ? "has no default" : "has a default", B & user::MOVEONLY ? "is only moved" : "is copied", B & user::THROWS ? "with noexcept(false)" : "without exceptions", B & user::LIST ? ", takes lists of itself" : "", H[Y]);
    switch (e.choose(3)) { case 0: expected<V, E, !(B & user::MOVEONLY), !(B & user::NODEFAULT)>(e, s.c_str()); break; case 1: expected<user::P<0, 0>, user::P<B & ~(unsigned)user::MOVEONLY, Y>, false, true>(e, ("as error, " + s).c_str()); break; default: if (Y == user::ALIGNED) return; pointers<V>(e, s.c_str()); }
}
template <unsigned B> static void payloads(mc::Exec& e) { switch (e.choose(6)) { case 0: payload<B, 0>(e); break; case 1: payload<B, 1>(e); break; case 2: payload<B, 2>(e); break; case 3: payload<B, 3>(e); break; case 4: payload<B, 4>(e); break; default: payload<B, 5>(e); } }
}
