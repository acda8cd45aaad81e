// An argument that is the object itself, or a part of it, counts with the value it had when the operation began.
#include "mc.hpp"
#include <memory>
#include <vector>
#include <Caitlyn/Char>
#include <Caitlyn/Error>
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Utility>
using namespace Caitlyn;
namespace hx {
typedef JsonDocument::DataType Data;
static const char* const ALPHA[] = {"a", "\xC3\xA9", "\xF0\x9F\x98\x80"};
// ---- texts: the same operation on a twin, with an argument of its own ----
static std::string text(mc::Exec& e, unsigned len) { std::string r; unsigned n = e.choose(len + 1); for (unsigned i = 0; i < n; ++i) r += ALPHA[e.choose(3)]; return r; }
static String made(const std::string& t, unsigned room) { if (room == 0) return String(t); String s; { String src(t); for (auto& c : src) s.PushBack(c); } if (room == 2) { for (int i = 0; i < 40; ++i) s.PushBack(Char('x')); String keep = s.Substring(0, s.size() - 40); s.Clear(); s += keep; } return s; }
struct Str { const String* s; Char c; std::string b; };
static const char* const SOPS[] = {"s += s", "s = s + s", "PushBack(s[i])", "Append(s[i].c_str())", "Append(n, s[i])", "Append(n, s[i].c_str())", "Insert(p, s)", "Insert(p, s[i].c_str())", "Insert(p, n, s[i])", "s[p] = s[i]", "s[i] = s[i].c_str()", "s = String(n, s[i])", "s = Format(s, s[i])", "s = s", "s = s.Substring(p)", "s = MakeText(s, s[i])", "Append(s.At(i).data())", "searches", "comparisons", "swap(s[p], s[i])", "s = s[i].c_str()", "s = s.ToUppercase()"};
static const unsigned NSOPS = sizeof SOPS / sizeof *SOPS;
static std::string sop(String& s, unsigned op, size_t i, size_t p, size_t n, bool alias) {
    const String whole(s); const Char one = i < s.size() ? Char(s[i]) : Char('?'); const String& S = alias ? s : whole; std::string out; const size_t z = s.size();
#define C (alias ? s[i] : one)
    switch (op) {
    case 0: s += S; break; case 1: s = S + S; break; case 2: s.PushBack(C); break; case 3: s.Append(C.c_str()); break; case 4: s.Append(n, C); break; case 5: s.Append(n, C.c_str()); break;
    case 6: s.Insert(p, S); break; case 7: s.Insert(p, C.c_str()); break; case 8: s.Insert(p, n, C); break; case 9: if (p < z) s[p] = C; break; case 10: s[i] = C.c_str(); break; case 11: s = String(n, C); break;
    case 12: s = String::Format(S + "{}|{}", S, C); break; case 13: s = S; break; case 14: s = S.Substring(p); break; case 15: s = MakeText("{}/{}", S, C).str(); break; case 16: s.Append((alias ? s.At(i) : one).data()); break;
    case 17: out = mc::strf("%zd %zd %d %d %d %zd", (ssize_t)s.Find(S), (ssize_t)s.ReverseFind(S), s.StartsWith(S), s.EndsWith(S), s.Contains(S), (ssize_t)s.Find(String(1, C))); break;
    case 18: out = mc::strf("%d %d %d %d %d %d", s == S, s != S, s < S, s > S, s <= S, s >= S); break;
    case 19: if (p < z) { if (alias) std::swap(s[p], s[i]); else { Char x = s[p], y = s[i]; s[p] = y; s[i] = x; } } break;
    case 20: s = C.c_str(); break; default: s = S.ToUppercase(); }
#undef C
    return out;
}
MC_SECTION(texts, true) {
    std::string t = text(e, mc::tier(3u, 5u)); unsigned room = e.choose(3); String s = made(t, room), twin(t); unsigned depth = mc::tier(2u, 2u);
    for (unsigned d = 0; d < depth; ++d) {
        unsigned op = e.choose(NSOPS); bool needs = (op >= 2 && op <= 5) || (op >= 7 && op <= 12) || op == 15 || op == 16 || op >= 17 ? op != 18 && op != 13 && op != 21 : false; size_t z = s.size(), i = 0, p = 0, n = 1; if (z > 8) return;
        if (needs) { if (z == 0) return; i = e.choose((unsigned)z); } if (op == 6 || op == 7 || op == 8 || op == 9 || op == 14 || op == 19) p = e.choose((unsigned)z + 1); if (op == 4 || op == 5 || op == 8 || op == 11) n = e.choose(4);
        e.op(SOPS[op]); MC_LOG(e, "%s on %s i=%zu p=%zu n=%zu", SOPS[op], mc::quote(s.str()).c_str(), i, p, n); e.transition(); std::string was = s.str(), a = sop(s, op, i, p, n, true), b = sop(twin, op, i, p, n, false);
        if (s.str() != twin.str() || a != b) { e.fail("text", "%s on %s (i=%zu p=%zu n=%zu): %s%s; with a copy of the argument: %s%s", SOPS[op], mc::quote(was).c_str(), i, p, n, mc::quote(s.str()).c_str(), a.c_str(), mc::quote(twin.str()).c_str(), b.c_str()); return; }
        e.state(mc::Hash().s(s.str())); e.outcome(mc::Hash().s(a)); }
}
// at the sizes where the text has to move to a larger place
MC_SECTION(growth, true) {
    unsigned n = e.choose(mc::tier(70u, 300u)) + 1, op = e.choose(17), at = e.choose(3); String s, twin; for (unsigned k = 0; k < n; ++k) s.PushBack(Char(ALPHA[k % 3])); twin = String(s.str()); size_t i = at == 0 ? 0 : at == 1 ? n / 2 : n - 1, p = e.choose(3) * (n / 2); if (p > n) p = n;
    size_t cnt = op == 4 || op == 5 || op == 8 || op == 11 ? e.choose(3) * n : 1; e.op(SOPS[op]); MC_LOG(e, "%s on %u characters i=%zu p=%zu n=%zu", SOPS[op], n, i, p, cnt); e.transition(); sop(s, op, i, p, cnt, true); sop(twin, op, i, p, cnt, false); e.state(mc::Hash().s(s.str()));
    e.check(s == twin && s.str() == twin.str(), "text", "%s on %u characters (i=%zu p=%zu n=%zu) differs from the same with a copy of the argument", SOPS[op], n, i, p, cnt);
}
// ---- numbers ----
template <class N> struct Num; 
template <> struct Num<BigInteger> { static const char* name() { return "BigInteger"; } static const char* const* all(unsigned& n) { static const char* const v[] = {"0", "1", "-1", "2", "7", "-10", "99", "-100", "4294967296", "99999999999999999999", "-123456789012345678901234567890", "1000000000000000000000000000000000001"}; n = sizeof v / sizeof *v; return v; } static BigInteger extra(const BigInteger& a, const BigInteger& b) { return a % b; } };
template <> struct Num<BigFloat> { static const char* name() { return "BigFloat"; } static const char* const* all(unsigned& n) { static const char* const v[] = {"0", "1", "-1", "0.5", "-2.25", "10.010", "0.0001", "99999999999.999999999", "-123456789.0123456789", "3"}; n = sizeof v / sizeof *v; return v; } static BigFloat extra(const BigFloat& a, const BigFloat& b) { return a.Add(b).Sqr(); } };
template <class N> static std::string shown(const N& n) { return n.ToString().str(); }
template <class N> static void nop(N& x, N& y, unsigned op, bool alias) {      // the target is always x; copies are made first unless the argument may be the object itself
    N cx(x), cy(y); const N& X = alias ? x : cx; const N& Y = alias ? y : cy;
    switch (op) { case 0: x = X + X; break; case 1: x = X - X; break; case 2: x = X * X; break; case 3: x = X / X; break; case 4: x = Num<N>::extra(X, X); break; case 5: x = X + Y; break; case 6: x = Y - X; break; case 7: x = X * Y; break; case 8: x = Y / X; break; case 9: x = Num<N>::extra(Y, X); break;
    case 10: x = X; break; case 11: x = X.Abs(); break; case 12: x = X.Pow(3); break; case 13: x = X.Sqr(); break; case 14: x = X.Sqrt(); break; case 15: std::swap(x, alias ? y : cy); if (!alias) y = cx; break; case 16: x = (X < X || X > X || X != X || !(X <= X) || !(X >= X) || !(X == X)) ? N("5") : N("6"); break; default: x = X.Add(Y).Subtract(X); }
}
static const char* const NOPS[] = {"x = x + x", "x = x - x", "x = x * x", "x = x / x", "x = x % x", "x = x + y", "x = y - x", "x = x * y", "x = y / x", "x = y % x", "x = x", "x = |x|", "x = x^3", "x = x^2", "x = sqrt x", "swap", "comparisons", "x = x + y - x"};
template <class N> static void numbers(mc::Exec& e) {
    unsigned n; const char* const* v = Num<N>::all(n); unsigned a = e.choose(n), b = e.choose(n + 1); N x(v[a]), y(v[b < n ? b : 0]), tx(v[a]), ty(v[b < n ? b : 0]); bool same = b == n; std::string said;   // b == n: both names mean the same object
    for (unsigned d = 0; d < mc::tier(2u, 3u); ++d) {
        unsigned op = e.choose(18); if (same && op == 15) return; if (shown(x).size() > 60) return; std::string was = shown(x) + ", " + (same ? "itself" : shown(y)); e.op(NOPS[op]); MC_LOG(e, "%s with %s", NOPS[op], was.c_str()); e.transition(); std::string r, t;
        try { nop(x, same ? x : y, op, true); } catch (const std::exception& q) { r = q.what(); } try { nop(tx, same ? tx : ty, op, false); } catch (const std::exception& q) { t = q.what(); }
        if (r != t || shown(x) != shown(tx) || shown(y) != shown(ty) || (r.empty() && !(x == tx))) { e.fail("number", "%s: %s with %s: %s %s, %s; with copies of the arguments: %s %s, %s", Num<N>::name(), NOPS[op], was.c_str(), shown(x).c_str(), shown(y).c_str(), r.c_str(), shown(tx).c_str(), shown(ty).c_str(), t.c_str()); return; }
        e.state(mc::Hash().s(shown(x)).s(shown(y))); if (!r.empty()) return; }
}
MC_SECTION(integers, true) { numbers<BigInteger>(e); }
MC_SECTION(decimals, true) { numbers<BigFloat>(e); }
// ---- JSON values ----
static const char* const DOCS[] = {"{\"a\":{\"b\":{\"c\":\"a text too long for any small buffer\"}},\"k\":\"a\"}", "{\"a\":[1,[2,{\"k\":\"a\"}],\"k\"],\"k\":null}", "{\"a\":\"k\",\"k\":\"b\"}", "{\"a\":[[[]],{}],\"b\":{\"k\":1.5,\"a\":true}}", "{\"k\":[\"a\",\"b\",\"c\",\"d\",\"e\",\"f\",\"g\",\"h\"]}"};
typedef std::vector<std::pair<std::string, int>> Path; // member name, or index
static void paths(const Data& d, const Path& at, std::vector<Path>& out) {
    out.push_back(at); if (d.IsObject()) { Data copy(d); for (auto& m : copy.GetData()) { Path p = at; p.push_back({m.first.str(), -1}); paths(*m.second, p, out); } } else if (d.IsArray()) for (size_t i = 0; i < d.Size(); ++i) { Path p = at; p.push_back({"", (int)i}); paths(d.At(i), p, out); }
}
static Data& go(Data& d, const Path& p) { Data* x = &d; for (auto& s : p) x = s.second < 0 ? &(*x)[String(s.first)] : &(*x)[(size_t)s.second]; return *x; }
static std::string name(const Path& p) { std::string r = "d"; for (auto& s : p) r += s.second < 0 ? "[" + s.first + "]" : mc::strf("[%d]", s.second); return r; }
static bool within(const Path& in, const Path& outer) { return in.size() >= outer.size() && std::equal(outer.begin(), outer.end(), in.begin()); }
static std::string show(const Data& d) { return mc::strf("%d ", (int)d.GetType()) + d.ToString().str() + d.GetString().str(); }
static const char* const JOPS[] = {"dst = src", "dst = move(src)", "dst[new] = src", "dst[index] = src", "dst.Append(src)", "dst[text of src]", "swap(dst, src)", "dst = Data(src)", "dst.HasMember(text of src)", "dst[a key inside src]", "dst = {src, src}"};
static std::string jop(Data& d, unsigned op, const Path& pd, const Path& ps, bool alias) {
    Data& dst = go(d, pd); Data& src = go(d, ps);
    switch (op) {
    case 0: if (alias) { const Data& s = src; dst = s; } else { Data c(src); dst = c; } break;
    case 1: if (alias) dst = std::move(src); else { Data c(src); if (!within(pd, ps) && !within(ps, pd)) src = nullptr; dst = c; } break;
    case 2: { Data& slot = dst["new"]; if (alias) { const Data& s = src; slot = s; } else { Data c(src); slot = c; } break; }
    case 3: { Data& slot = dst[dst.IsArray() ? dst.Size() + 3 : (size_t)2]; if (alias) { const Data& s = src; slot = s; } else { Data c(src); slot = c; } break; }
    case 4: if (alias) dst.Append(src); else { Data c(src); dst.Append(c); } break;
    case 5: { const String k = src.GetString(); Data& slot = dst[k]; slot = "set"; break; }
    case 6: if (alias) std::swap(dst, src); else { Data a(dst), b(src); dst = b; src = a; } break;
    case 7: if (alias) dst = Data(src); else { Data c(src); dst = c; } break;
    case 8: return dst.HasMember(src.GetString()) ? "has" : "has not";
    case 9: { if (!src.IsObject() || src.Size() == 0) return "no key"; const String copy = src.GetData().begin()->first; const String& k = alias ? src.GetData().begin()->first : copy; dst[k] = "set"; break; }
    default: if (alias) { Data list; list.Append(src, src); dst = std::move(list); } else { Data c(src), c2(src), list; list.Append(c); list.Append(c2); dst = list; } }
    return "";
}
static void json(mc::Exec& e, unsigned depth) {
    unsigned doc = e.choose(sizeof DOCS / sizeof *DOCS); JsonDocument src; src.Parse(DOCS[doc]); JsonDocument two; two.Parse(DOCS[doc]); Data d, twin; d["d"] = src["a"]; d["k"] = src["k"]; if (src.HasMember("b")) d["b"] = src["b"]; twin = d;
    for (unsigned k = 0; k < depth; ++k) {
        std::vector<Path> all; paths(d, Path(), all); e.beat(); if (all.size() > (k ? mc::tier(7u, 14u) : 24u)) return; unsigned op = e.choose(sizeof JOPS / sizeof *JOPS); Path pd = all[e.choose((unsigned)all.size())], ps = all[e.choose((unsigned)all.size())]; bool up = within(ps, pd), down = within(pd, ps);
        // a value moved into a part of itself, or moved onto itself, means nothing; nor does a value whose holder the operation turned into something else
        if ((op == 1 && down) || (op == 6 && (up || down))) return; bool shape = op == 2 || op == 3 || op == 4 || op == 5; { const Data& t = go(d, pd); bool object = op == 2 || op == 5, kept = object ? t.IsObject() : t.IsArray(); if (shape && op != 4 && op != 5 && up && !kept && ps.size() > pd.size()) return; }
        e.op(JOPS[op]); std::string was = d.ToString().str(); MC_LOG(e, "%s with dst=%s src=%s in %s", JOPS[op], name(pd).c_str(), name(ps).c_str(), was.c_str()); e.transition(); std::string a = jop(d, op, pd, ps, true), b = jop(twin, op, pd, ps, false);
        if (op == 1 && !up) go(d, ps) = nullptr, go(twin, ps) = nullptr;   // what is left behind by a move is not looked at
        if (a != b || show(d) != show(twin)) { e.fail("json", "%s with dst=%s src=%s in %s: %s%s; with a copy of the argument: %s%s", JOPS[op], name(pd).c_str(), name(ps).c_str(), was.c_str(), d.ToString().str().c_str(), a.c_str(), twin.ToString().str().c_str(), b.c_str()); return; }
        e.state(mc::Hash().s(show(d))); }
}
MC_SECTION(json_values, true) { json(e, mc::tier(2u, 2u)); }
static const char* const DOPS[] = {"Parse(text in it)", "AddMember(new, member)", "AddMember(key, itself)", "RemoveMember(text in it)", "HasMember(text in it)", "doc[text in it] = member", "doc = doc", "doc = text in it", "AddMember(key inside, member)", "member = member", "Parse(its own text)", "member = its own text"};
static std::string dop(JsonDocument& d, unsigned op, const char* k, const char* m, bool alias) {
    Data copy(d[m]); const Data& M = alias ? d[m] : copy; const String txt = d[m].GetString(), own = d.ToString();
    switch (op) { case 0: d.Parse(alias ? d[m].GetString() : txt); break; case 1: d.AddMember("new", M); break; case 2: d.AddMember(k, M); break; case 3: d.RemoveMember(alias ? d[m].GetString() : txt); break; case 4: return d.HasMember(alias ? d[m].GetString() : txt) ? "has" : "has not"; case 5: { Data& slot = d[txt]; slot = M; break; }
    case 6: { JsonDocument other(d); const JsonDocument& s = alias ? d : other; d = s; break; } case 7: d = alias ? d[m].GetString() : txt; break; case 8: { if (!M.IsObject() || d[m].Size() == 0) return "no key"; const String kc = d[m].GetData().begin()->first; d.AddMember(alias ? d[m].GetData().begin()->first : kc, M); break; }
    case 9: d[k] = M; break; case 10: d.Parse(alias ? d.ToString() : own); break; default: d[k] = (alias ? d.ToString() : own).str(); }
    return "";
}
MC_SECTION(documents, true) {
    static const char* const T[] = {"{\"a\":{\"b\":[1,\"x\"]},\"k\":\"a\"}", "{\"a\":\"{\\\"k\\\":[1,2]}\",\"k\":[true]}", "{\"a\":\"k\",\"k\":\"a\"}", "{\"a\":null,\"k\":{\"k\":{\"a\":1.5}}}", "{\"k\":\"not JSON {\",\"a\":[]}"};
    unsigned t = e.choose(sizeof T / sizeof *T); JsonDocument d, twin; d.Parse(T[t]); twin.Parse(T[t]);
    for (unsigned n = 0; n < mc::tier(2u, 3u); ++n) { static const char* const K[] = {"a", "k"}; unsigned op = e.choose(sizeof DOPS / sizeof *DOPS), k = e.choose(2), m = e.choose(2); e.op(DOPS[op]); std::string was = d.ToString().str(); MC_LOG(e, "%s key %s member %s in %s", DOPS[op], K[k], K[m], was.c_str()); e.transition(); std::string a, b; try { a = dop(d, op, K[k], K[m], true); } catch (const std::exception& x) { a = x.what(); } try { b = dop(twin, op, K[k], K[m], false); } catch (const std::exception& x) { b = x.what(); }
        if (a != b || d.ToString() != twin.ToString() || d.GetError() != twin.GetError()) { e.fail("document", "%s key %s member %s in %s: %s %s; with a copy of the argument: %s %s", DOPS[op], K[k], K[m], was.c_str(), d.ToString().str().c_str(), a.c_str(), twin.ToString().str().c_str(), b.c_str()); return; } e.state(mc::Hash().s(d.ToString().str())); }
}
// ---- Expected that hold more of their kind ----
struct Err { int code; std::string why; Err(int c = 0) : code(c), why("an explanation too long for any small buffer " + std::to_string(c)) {} };
template <template <class> class P, class E> struct Node { Expected<P<Node>, E> next; int id; Node(int i, const Expected<P<Node>, E>& n) : next(n), id(i) {} };
template <class T> using Std = std::shared_ptr<T>; template <class T> using Own = SharedPtr<T>; template <class T> struct Slow { std::shared_ptr<T> p; explicit Slow(T* t) : p(t) {} Slow(const Slow& o) : p(o.p) {} Slow(Slow&& o) noexcept(false) : p(std::move(o.p)) {} Slow& operator=(const Slow& o) { p = o.p; return *this; } Slow& operator=(Slow&& o) noexcept(false) { std::shared_ptr<T> k(std::move(o.p)); p = std::move(k); return *this; } T* operator->() const { return p.get(); } };
template <class T> struct Vec { std::vector<T> v; explicit Vec(T* t) { std::unique_ptr<T> own(t); v.push_back(std::move(*own)); } const T* operator->() const { return v.data(); } T* operator->() { return v.data(); } };
template <template <class> class P, class E> static void chain(mc::Exec& e, const char* what) {
    typedef Node<P, E> N; typedef Expected<P<N>, E> X; unsigned len = e.choose(4); auto build = [&](unsigned from, unsigned n) { X x{Unexpected<E>(E(int(100 + from + n)))}; for (unsigned i = n; i-- > 0;) x = X(P<N>(new N(int(from + i), x))); return x; };
    std::vector<int> model; for (unsigned i = 0; i < len; ++i) model.push_back((int)i); int err = 100 + (int)len; X x = build(0, len); auto spell = [&]() { std::string r; X* p = &x; while (p->HasValue()) { r += mc::strf("%d ", const_cast<P<N>&>(p->Get())->id); p = &const_cast<P<N>&>(p->Get())->next; } return r + mc::strf("error %d", E(p->GetError()).code) + (E(p->GetError()).why == E(E(p->GetError()).code).why ? "" : " garbled"); };
    auto want = [&] { std::string r; for (int i : model) r += mc::strf("%d ", i); return r + mc::strf("error %d", err); };
    auto at = [&](unsigned i) -> X* { X* p = &x; while (i--) p = &const_cast<P<N>&>(p->Get())->next; return p; };
    for (unsigned d = 0; d < mc::tier(3u, 4u); ++d) {
        unsigned op = e.choose(8), i = e.choose((unsigned)model.size() + 1), j = e.choose((unsigned)model.size() + 1); static const char* const OP[] = {"copy assignment of a later part", "move assignment of a later part", "value of a later part", "moved value of a later part", "error of the last part", "itself", "UnwrapOr of itself", "copy through a function"};
        e.op(OP[op]); MC_LOG(e, "%s: %s from %u to %u in %s", what, OP[op], j, i, want().c_str()); e.transition(); X& dst = *at(i); 
        switch (op) {
        case 0: if (j < i) return; dst = *static_cast<const X*>(at(j)); model.erase(model.begin() + i, model.begin() + j); break;
        case 1: if (j <= i) return; dst = std::move(*at(j)); model.erase(model.begin() + i, model.begin() + j); break;
        case 2: if (j < i || j >= model.size()) return; dst = at(j)->Get(); model.erase(model.begin() + i, model.begin() + j); break;
        case 3: if (j <= i || j >= model.size()) return; dst = X(std::move(const_cast<P<N>&>(at(j)->Get()))); model.erase(model.begin() + i, model.begin() + j); break;
        case 4: if (j != model.size() || i >= j) return; dst = Unexpected<E>(at(j)->GetError()); model.erase(model.begin() + i, model.end()); break;
        case 5: { const X& s = dst; dst = s; break; }
        case 6: if (i >= model.size()) return; { const P<N>& v = dst.UnwrapOrDefault(dst.Get()); if (&v != &dst.Get()) e.fail("expected", "%s: UnwrapOrDefault of its own value is another object", what); break; }
        default: if (j < i) return; { auto f = [](X v) { return v; }; dst = f(*at(j)); } model.erase(model.begin() + i, model.begin() + j); }
        if (spell() != want()) { e.fail("expected", "%s: after %s from %u to %u the chain is %s instead of %s", what, OP[op], j, i, spell().c_str(), want().c_str()); return; } e.state(mc::Hash().s(want())); }
}
MC_SECTION(expected_chains, true) { switch (e.choose(4)) { case 0: chain<Std, Err>(e, "std::shared_ptr"); break; case 1: chain<Own, Err>(e, "SharedPtr"); break; case 2: chain<Slow, Err>(e, "a pointer whose move may throw"); break; default: chain<Vec, Err>(e, "a vector"); } }
}
