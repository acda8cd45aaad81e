#include "jref.hpp"
#include "sizes.hpp"
using namespace Caitlyn;
namespace hx {
using namespace jr;
static void round_trip(mc::Exec& e, const V& v) {
    e.state(vh(v)); MC_LOG(e, "document %s", show(v).c_str()); e.transition(6); Doc d = document(v);
    std::string r = diff(d, v); if (!r.empty()) e.fail("build", "document built as %s: %s", show(v).c_str(), r.c_str());
    std::string t = d.ToString().str(); V w; Verdict q = parse(t, w);
    if (q == INVALID) e.fail("invalid-json", "%s prints %s, which is not JSON", show(v).c_str(), mc::quote(t).c_str());
    r = diff(d, w); if (q == VALID && !r.empty()) e.fail("text-value", "%s prints %s, which denotes something else: %s", show(v).c_str(), mc::quote(t).c_str(), r.c_str());
    Doc p{String(t.c_str())}; if (p.HasError()) e.fail("reparse", "%s prints %s, which is rejected: %s", show(v).c_str(), mc::quote(t).c_str(), p.GetErrorString().str().c_str());
    r = diff(p, v); if (!r.empty()) e.fail("round-trip", "%s printed and parsed again: %s", show(v).c_str(), r.c_str());
    if (p.ToString().str() != t) e.fail("reprint", "%s prints %s and after a round trip %s", show(v).c_str(), mc::quote(t).c_str(), mc::quote(p.ToString().str()).c_str());
    std::ostringstream os; os << d; if (os.str() != t) e.fail("stream", "operator<< gives %s and ToString %s", mc::quote(os.str()).c_str(), mc::quote(t).c_str());
    std::istringstream is(t); Doc s; is >> s; if (s.HasError() || s.ToString().str() != t) e.fail("stream", "operator>> of %s gives %s", mc::quote(t).c_str(), mc::quote(s.ToString().str()).c_str());
    Doc y{d.ToString(true)}; if (y.HasError() || y.ToString().str() != t) e.fail("pretty", "the indented text of %s reads back as %s", mc::quote(t).c_str(), mc::quote(y.ToString().str()).c_str());
    e.outcome(t.size());
}
static V doc1(const char* k, const V& x) { V v = V::obj(); v.o.emplace_back(k, x); return v; }
MC_SECTION(trees) { std::vector<V> lv = {V(), V::boolean(true), V::boolean(false), V::num(-70), V::real(0.1f), V::str("q\"\\"), V::str("")}; e.op("document"); round_trip(e, gendoc(e, mc::tier(5u, 6u), lv, {"a", "\"\n", "\xF0\x9F\x99\x82"}, 3)); }
MC_SECTION(strings) {
    static const char* const al[] = {"a", "\"", "\\", "/", "\n", "\x01", "\x1f", "\x7f", "\xC3\xA9", "\xF0\x9F\x99\x82", "u", " "}; std::string s; unsigned n = e.choose(mc::tier(5u, 6u)); for (unsigned i = 0; i < n; ++i) s += e.pick(al); e.op("string");
    V v = V::obj(); v.o.emplace_back(s.empty() ? "" : s, V::str(s)); round_trip(e, v);
}
MC_SECTION(characters) { unsigned c = 1 + e.choose(mc::tier(0x3000, 0x10FFFF)); if (c >= 0xD800 && c < 0xE000) return; e.op("character"); V v = doc1("k", V::str("<" + ref::enc(c) + ">")); v.mem("c" + ref::enc(c)) = V::num(c); round_trip(e, v); }
MC_SECTION(integers) { static const long long b[] = {0, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 999999999999999999LL, 1000000000000000000LL, 9223372036854775805LL, 4611686018427387904LL}; long long x = e.pick(b) + (long long)e.choose(3); if (e.flag()) x = -x; e.op("integer"); round_trip(e, doc1("k", V::num(x))); if (e.flag()) round_trip(e, doc1("k", V::num(LLONG_MIN))); }
MC_SECTION(reals_grid) {           // every exponent of the 32-bit type with chosen mantissas
    static const uint32_t man[] = {0, 1, 2, 0x7FFFFF, 0x7FFFFE, 0x400000, 0x3FFFFF, 0x555555, 0x2AAAAA, 0x4CCCCD, 0x666666, 0x199999, 0x0AAAAB, 0x5DFA28, 0x123456, 0x7A1200}; uint32_t ex = 1 + e.choose(254), m = man[e.choose(16)]; unsigned dm = e.choose(mc::tier(1u, 32u)); uint32_t u = ex << 23 | ((m + dm * 0x10123u) & 0x7FFFFF); if (e.flag()) u |= 0x80000000u; float f; memcpy(&f, &u, 4); e.op("real");
    V v = doc1("k", V::real(f)); round_trip(e, v); Doc p{document(v).ToString()}; if ((float)p["k"].GetFloating() != f) e.fail("real", "%.9g reads back as %.9g", (double)f, (double)p["k"].GetFloating());
}
MC_SECTION(reals_decimal) { long n = (long)e.range(mc::tier(20001u, 400001u)) - mc::tier(10000, 200000); static const double sc[] = {1, 10, 100, 1000, 0.001}; float f = (float)(n / e.pick(sc)); e.op("real"); V v = doc1("k", V::real(f)); round_trip(e, v); Doc p{document(v).ToString()}; if ((float)p["k"].GetFloating() != f) e.fail("real", "%.9g reads back as %.9g", (double)f, (double)p["k"].GetFloating()); }
MC_SECTION(non_finite) { static const float fs[] = {INFINITY, -INFINITY, NAN, -0.0f, 1e-45f, 1e-39f, 3.40282347e38f, 1.17549435e-38f}; float f = e.pick(fs); e.op("real"); MC_LOG(e, "%g", f); e.state(mc::Hash().s(mc::strf("%g", f))); Doc d; d["k"] = f; d["l"].Append(f); std::string t = d.ToString().str(); V w; e.transition(); e.check(parse(t, w) != INVALID, "invalid-json", "%g prints %s, which is not JSON", f, mc::quote(t).c_str()); Doc p{String(t.c_str())}; e.check(!p.HasError() || std::fabs(f) < 1e-37f, "reparse", "%s is rejected", t.c_str()); e.outcome(p.HasError()); }
MC_SECTION(wide_and_deep) { static const unsigned ns[] = {1, 2, 7, 8, 9, 16, 17, 33, 64, 65, 128, 200}; unsigned n = e.pick(ns), k = e.choose(4); V v = V::obj(); e.op("scaled document"); if (k == 0) for (unsigned i = 0; i < n; ++i) v.mem("k" + std::to_string(i)) = V::num(i); else if (k == 1) for (unsigned i = 0; i < n; ++i) v.mem("r").push(i % 2 ? V::str(std::string(i, 'x')) : V::real(i + 0.5)); else { V x = V::num(1); for (unsigned i = 0; i < n; ++i) { V y = (k == 2 || i % 2) ? V::arr() : V::obj(); if (y.k == K::Array) y.a.push_back(x); else y.o.emplace_back("d", x); x = y; } v.mem("r") = x; } round_trip(e, v); }
MC_SECTION(scale, true, false, 0, true, 60) {
    unsigned n = e.pick(kScale), k = e.choose(5); if (n > mc::tier(k == 1 ? 600u : 5000u, k == 1 ? 5000u : 200000u) && !(mc::tier(1, 0) && k != 1 && k != 4 && (n == 32768 || n == 65536 || n == 65537))) return; V v = V::obj(); e.op("long document"); MC_LOG(e, "size %u, kind %u", n, k);
    switch (k) {
    case 0: v.mem("l") = V::arr(); for (unsigned i = 0; i < n; ++i) v.o[0].second.push(V::num(i % 10)); break;
    case 1: for (unsigned i = 0; i < n; ++i) v.mem("k" + std::to_string(i)) = V::num(i); break;
    case 2: { std::string s; for (unsigned i = 0; i < n; ++i) s += i % 3 == 0 ? "a" : i % 3 == 1 ? "\"" : "\xC3\xA9"; v.mem("s") = V::str(s); break; }
    case 3: v.mem(std::string(n, 'k')) = V::str(std::string(n, '\\')); break;
    case 4: v.mem("l") = V::arr(); for (unsigned i = 0; i < n; ++i) v.o[0].second.push(i % 2 ? V::str("\xE4\xB8\x96") : V()); v.mem("z") = V::num(-1); break;
    }
    round_trip(e, v);
}
}
