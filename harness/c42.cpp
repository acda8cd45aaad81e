// Objects of every value type: copies are equal and independent, moves hand over the value, whatever the history.
#include "mc.hpp"
#include <map>
#include <memory>
#include <unordered_map>
#include <vector>
#include <Caitlyn/Char>
#include <Caitlyn/Error>
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Testing>
using namespace Caitlyn;
namespace hx {
typedef JsonDocument::DataType Data;
static const char* const LONG = "a text that does not fit any small buffer \xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80";
// how to make the k-th value of a type, change it in the m-th way and see all of it
template <class T> struct V;
template <> struct V<Char> { static const unsigned NV = 3, NM = 2; static Char make(unsigned k) { return k == 0 ? Char() : k == 1 ? Char('x') : Char("\xF0\x9F\x98\x80"); } static void mut(Char& c, unsigned m) { if (m) c = CodePoint(0xE9); else c = 'q'; } static std::string show(const Char& c) { return c.str() + mc::strf(" %zu", (size_t)c.size()); } };
template <> struct V<String> { static const unsigned NV = 3, NM = 4; static String make(unsigned k) { return k == 0 ? String() : k == 1 ? String("k\xC3\xA9") : String(LONG); } static void mut(String& s, unsigned m) { switch (m) { case 0: s += "+"; break; case 1: s.Insert(0, "\xE2\x82\xAC"); break; case 2: if (s.NotEmpty()) s[s.size() - 1] = 'z'; break; default: s.Clear(); } } static std::string show(const String& s) { std::string r = mc::strf("%zu ", (size_t)s.size()); for (auto& c : s) { r += c.str(); r += '|'; } return r + s.str(); } };
template <> struct V<StringBuilder> { static const unsigned NV = 3, NM = 2; static StringBuilder make(unsigned k) { return k == 0 ? StringBuilder() : k == 1 ? StringBuilder("b\xC3\xA9") : StringBuilder(String(LONG)); } static void mut(StringBuilder& s, unsigned m) { if (m) s.AppendLine(String(LONG)); else s.Append("{}-", 7); } static std::string show(const StringBuilder& s) { return s.str().str(); } };
template <> struct V<BigInteger> { static const unsigned NV = 3, NM = 3; static BigInteger make(unsigned k) { return k == 0 ? BigInteger() : k == 1 ? BigInteger("-7") : BigInteger("123456789012345678901234567890123456789"); } static void mut(BigInteger& b, unsigned m) { if (m == 0) b = b + BigInteger("1"); else if (m == 1) b = BigInteger("0") - b; else b = b * b; } static std::string show(const BigInteger& b) { std::string r = b.ToString().str(); r += b == BigInteger(r) ? " =" : " !"; return r; } };
template <> struct V<BigFloat> { static const unsigned NV = 3, NM = 3; static BigFloat make(unsigned k) { return k == 0 ? BigFloat() : k == 1 ? BigFloat("-7.25") : BigFloat("1234567890123456789.012345678901234567895"); } static void mut(BigFloat& b, unsigned m) { if (m == 0) b = b + BigFloat("0.5"); else if (m == 1) b = BigFloat("0") - b; else b = b * b; } static std::string show(const BigFloat& b) { return b.ToString().str(); } };
template <> struct V<Data> { static const unsigned NV = 4, NM = 4;
    static Data make(unsigned k) { Data d; switch (k) { case 0: break; case 1: d["a"]["b"] = LONG; d["n"] = (Int64)5; break; case 2: d[(size_t)0] = 1.5; d[(size_t)1][(size_t)0]["deep"] = true; d[(size_t)2] = LONG; break; default: d = LONG; } return d; }
    static void mut(Data& d, unsigned m) { switch (m) { case 0: d = (Int64)9; break; case 1: if (d.IsObject()) d["a"]["c"] = nullptr; else if (d.IsArray()) d[(size_t)1] = "changed"; else if (d.IsNull()) d["x"] = 1.25; else d = false; break; case 2: if (d.IsObject()) d["n"] = d["a"]; else if (d.IsArray()) d[(size_t)3] = d[(size_t)1]; else d = LONG; break; default: d = nullptr; } }
    static std::string show(const Data& d) { return mc::strf("%d ", (int)d.GetType()) + d.ToString().str() + d.GetString().str(); } };
template <> struct V<JsonDocument> { static const unsigned NV = 4, NM = 3; static JsonDocument make(unsigned k) { static const char* const T[] = {"", "{\"a\": [1, {\"b\": \"long enough for the heap, surely\"}]}", "{\"a\": }", "{}"}; JsonDocument d; if (k) d.Parse(String(T[k])); return d; } static void mut(JsonDocument& d, unsigned m) { switch (m) { case 0: d.Parse(String("{\"z\": 1.5}")); break; case 1: d.Parse(String("[")); break; default: d["w"]["v"] = LONG; } } static std::string show(const JsonDocument& d) { return mc::strf("%d %d %d ", (int)d.HasError(), (int)d.GetError(), (int)d.GetType()) + d.GetErrorString().str() + d.ToString().str(); } };
template <class A, class B> struct V<Expected<A, B>> { typedef Expected<A, B> E; static const unsigned NV = 4, NM = 2; static E make(unsigned k) { if (k % 2 == 0) return E(V<A>::make(k / 2 + 1)); return E(Unexpected<B>(V<B>::make(k / 2 + 1))); } static void mut(E& x, unsigned m) { if (m) x = E(V<A>::make(1)); else x = E(Unexpected<B>(V<B>::make(2))); } static std::string show(const E& x) { return (x.HasValue() ? "value " + V<A>::show(x.Get()) : "error " + V<B>::show(x.GetError())) + mc::strf("%d%d", (int)x.HasError(), (int)(bool)x); } };
template <> struct V<int> { static const unsigned NV = 3, NM = 1; static int make(unsigned k) { return (int)k; } static void mut(int& i, unsigned) { ++i; } static std::string show(int i) { return mc::strf("%d", i); } };
template <class A> struct V<Unexpected<A>> { static const unsigned NV = 3, NM = 1; static Unexpected<A> make(unsigned k) { return Unexpected<A>(V<A>::make(k)); } static void mut(Unexpected<A>& x, unsigned) { x = Unexpected<A>(V<A>::make(1)); } static std::string show(const Unexpected<A>& x) { return V<A>::show(x.Get()); } };
template <class A> struct V<std::vector<A>> { typedef std::vector<A> C; static const unsigned NV = 3, NM = 3; static C make(unsigned k) { C c; for (unsigned i = 0; i < k * 2; ++i) c.push_back(V<A>::make(i % V<A>::NV)); return c; } static void mut(C& c, unsigned m) { if (m == 0) c.insert(c.begin(), V<A>::make(1)); else if (m == 1) { if (!c.empty()) c.erase(c.begin()); } else { if (c.size() > 1) std::swap(c.front(), c.back()); if (!c.empty()) V<A>::mut(c.back(), 0); } } static std::string show(const C& c) { std::string r; for (auto& x : c) { r += V<A>::show(x); r += ';'; } return r; } };
template <> struct V<std::map<String, Data>> { typedef std::map<String, Data> C; static const unsigned NV = 3, NM = 3; static C make(unsigned k) { C c; for (unsigned i = 0; i < k * 2; ++i) c[V<String>::make(i % 3)] = V<Data>::make(i % 4); return c; } static void mut(C& c, unsigned m) { if (m == 0) c["new"] = 1.5; else if (m == 1) { if (!c.empty()) c.erase(c.begin()); } else if (!c.empty()) V<Data>::mut(c.begin()->second, 1); } static std::string show(const C& c) { std::string r; for (auto& x : c) { r += V<String>::show(x.first) + "=" + V<Data>::show(x.second) + ";"; } return r; } };
template <> struct V<Test::TestCase> { typedef Test::TestCase C; static void f() {} static const unsigned NV = 3, NM = 2; static C make(unsigned k) { C c(V<String>::make(k), V<String>::make(2 - k), &f); c.passed = k == 1; return c; } static void mut(C& c, unsigned m) { if (m) c.passed = !c.passed; else V<String>::mut(c.suite_name, 0); } static std::string show(const C& c) { return V<String>::show(c.suite_name) + V<String>::show(c.test_name) + mc::strf("%d%d", (int)c.passed, c.function != nullptr); } };

template <class T> struct Slot { std::unique_ptr<T> p; bool moved = false; std::string rec; };
template <class T> static T through(T x) { return x; }
template <class T, bool CA, bool MA> struct Ops;
template <class T> static const std::string& want(const std::string& rec) {   // a fresh object with the same recipe
    static std::unordered_map<std::string, std::string> memo; auto it = memo.find(rec); if (it != memo.end()) return it->second;
    T t = V<T>::make((unsigned)(rec[0] - '0')); for (size_t i = 1; i < rec.size(); ++i) V<T>::mut(t, (unsigned)(rec[i] - '0')); return memo.emplace(rec, V<T>::show(t)).first->second;
}
template <class T> static typename std::enable_if<std::is_copy_assignable<T>::value>::type cassign(T& a, const T& b) { a = b; } template <class T> static typename std::enable_if<!std::is_copy_assignable<T>::value>::type cassign(T&, const T&) {}
template <class T> static typename std::enable_if<std::is_move_assignable<T>::value>::type massign(T& a, T& b) { a = std::move(b); } template <class T> static typename std::enable_if<!std::is_move_assignable<T>::value>::type massign(T&, T&) {}
template <class T> static typename std::enable_if<std::is_move_assignable<T>::value>::type swapped(T& a, T& b) { using std::swap; swap(a, b); } template <class T> static typename std::enable_if<!std::is_move_assignable<T>::value>::type swapped(T&, T&) {}
template <class T> static void history(mc::Exec& e, const char* type, unsigned depth, unsigned ns) {
    const bool CA = std::is_copy_assignable<T>::value, MA = std::is_move_assignable<T>::value; Slot<T> s[3]; auto name = [&](unsigned i) { return "abc"[i]; };
    auto check = [&](const char* what) { for (unsigned i = 0; i < ns; ++i) if (s[i].p && !s[i].moved) { std::string g = V<T>::show(*s[i].p); const std::string& w = want<T>(s[i].rec); if (g != w) e.fail("value", "%s: after %s object %c is %s, an object made the same way is %s", type, what, name(i), mc::quote(g.substr(0, 200)).c_str(), mc::quote(w.substr(0, 200)).c_str()); } };
    unsigned k0 = e.choose(V<T>::NV), k1 = mc::thorough() ? e.choose(V<T>::NV) : (k0 + 1) % V<T>::NV; e.op("start"); MC_LOG(e, "%s: a = value %u, b = value %u", type, k0, k1); s[0].p.reset(new T(V<T>::make(k0))); s[0].rec = std::string(1, (char)('0' + k0)); s[1].p.reset(new T(V<T>::make(k1))); s[1].rec = std::string(1, (char)('0' + k1)); check("the start");
    for (unsigned d = 0; d < depth; ++d) {
        unsigned kind = e.choose(9), i = e.choose(ns), j = 0; static const char* const N[] = {"copy construction", "move construction", "copy assignment", "move assignment", "swap", "a change", "destruction", "growing a vector", "passing by value"}; std::string w = N[kind];
        if (kind < 5) j = e.choose(ns); unsigned m = kind == 5 ? e.choose(V<T>::NM) : 0; e.op(N[kind]); MC_LOG(e, "%s: %c %c %u", N[kind], name(i), name(j), m); e.transition(); Slot<T>&a = s[i], &b = s[j]; bool live = a.p && !a.moved, src = b.p && !b.moved;
        switch (kind) {
        case 0: if (i == j || !src) return; a.p.reset(new T(*static_cast<const T*>(b.p.get()))); a.rec = b.rec; a.moved = false; break;
        case 1: if (i == j || !src) return; a.p.reset(new T(std::move(*b.p))); a.rec = b.rec; a.moved = false; b.moved = true; break;
        case 2: if (!CA || !a.p || !src) return; cassign(*a.p, *static_cast<const T*>(b.p.get())); a.rec = b.rec; a.moved = false; break;
        case 3: if (!MA || !a.p || !src) return; massign(*a.p, *b.p); if (i != j) { a.rec = b.rec; a.moved = false; } b.moved = true; break;
        case 4: if (!MA || i >= j || !live || !src) return; swapped(*a.p, *b.p); std::swap(a.rec, b.rec); break;
        case 5: if (!live || a.rec.size() > 4) return; V<T>::mut(*a.p, m); a.rec += (char)('0' + m); break;
        case 6: if (!a.p) return; a.p.reset(); a.moved = false; break;
        case 7: { if (!live) return; std::vector<T> v; v.push_back(*a.p); for (unsigned q = 0; q < 4; ++q) { v.push_back(v[0]); } for (auto& x : v) if (V<T>::show(x) != want<T>(a.rec)) e.fail("value", "%s: an element of a growing vector is %s instead of %s", type, mc::quote(V<T>::show(x).substr(0, 200)).c_str(), mc::quote(want<T>(a.rec).substr(0, 200)).c_str()); a.p.reset(new T(std::move(v[3]))); std::string keep = V<T>::show(v[2]); if (keep != want<T>(a.rec)) e.fail("value", "%s: moving one element changes another", type); break; }
        default: { if (!live) return; T c = through<T>(*a.p); T f = through<T>(std::move(c)); if (V<T>::show(f) != want<T>(a.rec)) e.fail("value", "%s: passed and returned by value it is %s", type, mc::quote(V<T>::show(f).substr(0, 200)).c_str()); V<T>::mut(f, 0); }
        }
        check(N[kind]); mc::Hash h; for (unsigned q = 0; q < ns; ++q) h.s(s[q].p ? s[q].moved ? "moved" : s[q].rec : ""); e.state(h);
    }
}
#define TYPE(n, d, D, ...) MC_SECTION(n, true) { typedef __VA_ARGS__ X; if (e.choose(2)) history<X>(e, #__VA_ARGS__, mc::tier(d, D), 2); else history<X>(e, #__VA_ARGS__, mc::tier(d, D) - 1, 3); }
TYPE(chars, 3u, 4u, Char)
TYPE(strings, 3u, 4u, String)
TYPE(builders, 3u, 4u, StringBuilder)
TYPE(integers, 3u, 4u, BigInteger)
TYPE(floats, 3u, 4u, BigFloat)
TYPE(json_values, 3u, 4u, Data)
TYPE(documents, 3u, 4u, JsonDocument)
TYPE(expected_texts, 3u, 4u, Expected<String, String>)
TYPE(expected_documents, 3u, 4u, Expected<JsonDocument, BigInteger>)
TYPE(expected_data, 3u, 4u, Expected<BigFloat, Data>)
TYPE(expected_nested, 3u, 4u, Expected<Expected<String, int>, Char>)
TYPE(errors, 3u, 4u, Unexpected<String>)
TYPE(text_lists, 3u, 4u, std::vector<String>)
TYPE(json_lists, 3u, 4u, std::vector<Data>)
TYPE(number_lists, 3u, 4u, std::vector<BigFloat>)
TYPE(json_maps, 3u, 4u, std::map<String, Data>)
TYPE(test_cases, 3u, 4u, Test::TestCase)
}
