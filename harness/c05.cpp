#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include <map>
#include <set>
#include <algorithm>
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
namespace hx {
typedef std::vector<unsigned> V;
static const unsigned kCp[] = {1, 'A', 'z', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xFFFF, 0x10000, 0x10FFFF};
static std::string txt(const V& v) { std::string s; for (auto c : v) s += ref::enc(c); return s; }
static int cmp(const V& a, const V& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()) ? -1 : a == b ? 0 : 1; }
template <class A, class B> static void rel(mc::Exec& e, const A& a, const B& b, int c, const char* kind, const std::string& x, const std::string& y) {
    e.transition(6);
    if ((a == b) != (c == 0)) e.fail("eq", "%s: %s == %s is wrong", kind, mc::quote(x).c_str(), mc::quote(y).c_str());
    if ((a != b) != (c != 0)) e.fail("ne", "%s: %s != %s is wrong", kind, mc::quote(x).c_str(), mc::quote(y).c_str());
    if ((a < b) != (c < 0)) e.fail("lt", "%s: %s < %s is wrong", kind, mc::quote(x).c_str(), mc::quote(y).c_str());
    if ((a <= b) != (c <= 0)) e.fail("le", "%s: %s <= %s is wrong", kind, mc::quote(x).c_str(), mc::quote(y).c_str());
    if ((a > b) != (c > 0)) e.fail("gt", "%s: %s > %s is wrong", kind, mc::quote(x).c_str(), mc::quote(y).c_str());
    if ((a >= b) != (c >= 0)) e.fail("ge", "%s: %s >= %s is wrong", kind, mc::quote(x).c_str(), mc::quote(y).c_str());
}
static std::vector<V> words(const V& al, unsigned n) { std::vector<V> r(1); size_t b = 0; for (unsigned l = 0; l < n; ++l) { size_t en = r.size(); for (size_t i = b; i < en; ++i) for (auto c : al) { V v = r[i]; v.push_back(c); r.push_back(v); } b = en; } return r; }
static void pairs(mc::Exec& e, const std::vector<V>& ws) {
    unsigned i = e.range(ws.size()); const V& a = ws[i]; std::string x = txt(a); String A(x.c_str());
    MC_LOG(e, "left operand %s against every word", mc::quote(x).c_str()); e.op("compare"); e.state(mc::Hash().s(x));
    for (auto& b : ws) {
        std::string y = txt(b); int c = cmp(a, b); e.beat();
        MC_LOG(e, "  right operand %s", mc::quote(y).c_str());
        rel(e, A, String(y.c_str()), c, "String/String", x, y);
        rel(e, A, y.c_str(), c, "String/C string", x, y);
        rel(e, A, y, c, "String/std::string", x, y);
    }
}
MC_SECTION(wide_alphabet) { static const std::vector<V> ws = words(V(kCp, kCp + 11), mc::tier(2u, 3u)); pairs(e, ws); }
MC_SECTION(prefixes) { static const std::vector<V> ws = words(V{'A', 0x80, 0x10000}, mc::tier(4u, 6u)); pairs(e, ws); }
MC_SECTION(chars) {             // every code point against its neighbour and against the encoding boundaries
    unsigned blk = e.range(0x110000 / 64); e.op("Char compare");
    static const unsigned bnd[] = {1, 'A', 'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF};
    for (unsigned k = 0; k < 64; ++k) {
        unsigned c = blk * 64 + k; if (!c) continue; e.state(c); Char x{CodePoint(c)}; MC_LOG(e, "Char U+%X", c);
        for (unsigned b : bnd) { if (mc::tier(k % 8, 0u) && b != 1) continue; rel(e, x, Char{CodePoint(b)}, c < b ? -1 : c > b, "Char/Char", ref::enc(c), ref::enc(b)); }
        if (c < 0x10FFFF) rel(e, x, Char{CodePoint(c + 1)}, -1, "Char/Char", ref::enc(c), ref::enc(c + 1));
        rel(e, x, Char{CodePoint(c)}, 0, "Char/Char", ref::enc(c), ref::enc(c));
    }
}
MC_SECTION(ordered_containers) {    // every insertion order of every small set of words
    static const std::vector<V> ws = words(V{'A', 0x7FF, 0x800, 0x10000}, 2);
    unsigned n = 2 + e.choose(mc::tier(3u, 4u) - 1); std::map<String, int> real; std::set<Char> rc; std::map<V, int> model; std::set<unsigned> mcx; e.op("std::map<String>");
    unsigned stepw = mc::tier(2u, 1u);
    for (unsigned i = 0; i < n; ++i) {
        const V& w = ws[e.choose(ws.size() / stepw) * stepw]; real[String(txt(w).c_str())] = i; model[w] = i; if (w.size() == 1) { rc.insert(Char{CodePoint(w[0])}); mcx.insert(w[0]); }
        MC_LOG(e, "insert %s", mc::quote(txt(w)).c_str());
    }
    e.check(real.size() == model.size() && rc.size() == mcx.size(), "map-size", "map holds %zu keys instead of %zu", real.size(), model.size());
    auto it = real.begin(); mc::Hash h;
    for (auto& p : model) { e.check(it->first.str() == txt(p.first) && it->second == p.second, "map-order", "iteration yields %s where %s is due", mc::quote(it->first.str()).c_str(), mc::quote(txt(p.first)).c_str()); h.s(txt(p.first)); auto f = real.find(String(txt(p.first).c_str())); e.check(f == it, "map-find", "lookup of %s failed", mc::quote(txt(p.first)).c_str()); ++it; e.transition(2); }
    auto ic = rc.begin(); for (unsigned c : mcx) { e.check(ic->GetCodePoint() == c, "set-order", "set<Char> order"); ++ic; }
    e.state(h);
}
MC_SECTION(scale, true, false, 0, true, 60) {       // long texts that differ only at, or after, a position next to a power of two
    unsigned n = e.pick(kScale), k = e.choose(6); V a(n, 'a'), b; if (k & 1) for (unsigned i = 0; i < n; ++i) a[i] = i % 2 ? 0x80 : 'a'; b = a; e.op("compare long texts");
    switch (k / 2) { case 0: a.push_back('a'); b.push_back('b'); a.push_back('z'); break; case 1: b.push_back(1); break; case 2: a.push_back('c'); b.push_back('c'); break; }
    std::string x = txt(a), y = txt(b); int c = cmp(a, b); String X(x.c_str()), Y(y.c_str()); MC_LOG(e, "texts of %zu and %zu characters with a common start of %u", a.size(), b.size(), n); e.state(mc::Hash().u(n).u(k)); e.outcome(c + 1);
    std::string sx = mc::strf("(%zu characters)", a.size()), sy = mc::strf("(%zu characters)", b.size());
    rel(e, X, Y, c, "String/String", sx, sy); rel(e, Y, X, -c, "String/String", sy, sx); rel(e, X, y.c_str(), c, "String/C string", sx, sy); rel(e, Y, x, -c, "String/std::string", sy, sx); rel(e, X, X, 0, "String/itself", sx, sx);
}
} // namespace hx
