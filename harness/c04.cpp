#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/Algorithms.h"
using namespace Caitlyn;
namespace hx {
typedef std::vector<unsigned char> V;      // letters as small numbers
static const size_t NP = String::NPosition;
static const char* L[] = {"a", "\xC3\xA9", "\xF0\x9F\x99\x82"};
static std::string txt(const V& v) { std::string s; for (auto c : v) s += L[c]; return s; }
static bool at(const V& h, const V& n, size_t i) { if (i + n.size() > h.size()) return false; for (size_t k = 0; k < n.size(); ++k) if (h[i + k] != n[k]) return false; return true; }
static size_t nfind(const V& h, const V& n, size_t p) { for (size_t i = p; i <= h.size(); ++i) if (at(h, n, i)) return i; return NP; }
static size_t nrfind(const V& h, const V& n, size_t p) {
    if (n.empty()) return std::min(p, h.size());
    if (h.empty()) return NP;
    if (p >= h.size()) p = h.size() - 1;
    for (size_t i = h.size(); i-- > 0;) if (i + n.size() - 1 <= p && at(h, n, i)) return i;
    return NP;
}
static void pair(mc::Exec& e, const V& h, const V& n, const String& H, const String& N, const std::vector<size_t>& ps) {
    MC_LOG(e, "haystack %s needle %s", mc::quote(txt(h)).c_str(), mc::quote(txt(n)).c_str());
    e.state(mc::Hash().seq(h).seq(n));
    e.op("Find"); size_t r = H.Find(N), w = nfind(h, n, 0); e.transition(5);
    if (r != w) e.fail("find", "Find(%s in %s) = %zd instead of %zd", mc::quote(txt(n)).c_str(), mc::quote(txt(h)).c_str(), (ssize_t)r, (ssize_t)w);
    e.op("ReverseFind"); r = H.ReverseFind(N); size_t wr = nrfind(h, n, NP);
    if (r != wr) e.fail("rfind", "ReverseFind(%s in %s) = %zd instead of %zd", mc::quote(txt(n)).c_str(), mc::quote(txt(h)).c_str(), (ssize_t)r, (ssize_t)wr);
    e.outcome(mc::Hash().u(w).u(wr));
    for (size_t p : ps) {
        e.transition(2);
        e.op("Find(pos)"); r = H.Find(N, p); w = nfind(h, n, p);
        if (r != w) e.fail("find-pos", "Find(%s in %s, %zd) = %zd instead of %zd", mc::quote(txt(n)).c_str(), mc::quote(txt(h)).c_str(), (ssize_t)p, (ssize_t)r, (ssize_t)w);
        e.op("ReverseFind(pos)"); r = H.ReverseFind(N, p); w = nrfind(h, n, p);
        if (r != w) e.fail("rfind-pos", "ReverseFind(%s in %s, %zd) = %zd instead of %zd", mc::quote(txt(n)).c_str(), mc::quote(txt(h)).c_str(), (ssize_t)p, (ssize_t)r, (ssize_t)w);
    }
    e.op("Contains/StartsWith/EndsWith");
    if (H.Contains(N) != (nfind(h, n, 0) != NP)) e.fail("contains", "%s.Contains(%s) wrong", mc::quote(txt(h)).c_str(), mc::quote(txt(n)).c_str());
    if (H.StartsWith(N) != at(h, n, 0)) e.fail("starts", "%s.StartsWith(%s) wrong", mc::quote(txt(h)).c_str(), mc::quote(txt(n)).c_str());
    if (H.EndsWith(N) != (n.size() <= h.size() && at(h, n, h.size() - n.size()))) e.fail("ends", "%s.EndsWith(%s) wrong", mc::quote(txt(h)).c_str(), mc::quote(txt(n)).c_str());
}
static std::vector<V> all(unsigned letters, unsigned maxlen) {
    std::vector<V> r(1); size_t b = 0;
    for (unsigned l = 0; l < maxlen; ++l) { size_t en = r.size(); for (size_t i = b; i < en; ++i) for (unsigned c = 0; c < letters; ++c) { V v = r[i]; v.push_back(c); r.push_back(v); } b = en; }
    return r;
}
static V word(mc::Exec& e, unsigned letters, unsigned maxlen) { V v; unsigned n = e.choose(maxlen + 1); for (unsigned i = 0; i < n; ++i) v.push_back(e.choose(letters)); return v; }
static void grid(mc::Exec& e, unsigned letters, unsigned hmax, const std::vector<V>& needles) {
    V h = word(e, letters, hmax); String H(txt(h).c_str());
    std::vector<size_t> ps; for (size_t p = 0; p <= h.size() + 2; ++p) ps.push_back(p); ps.push_back(NP); ps.push_back(NP - 1);
    for (auto& n : needles) { e.beat(); pair(e, h, n, H, String(txt(n).c_str()), ps); }
    if (H.str() != txt(h)) e.fail("const", "searching changed the string");
}
MC_SECTION(two_letters) { static const std::vector<V> ns = all(2, 5); grid(e, 2, mc::tier(10u, 12u), ns); }
MC_SECTION(three_letters) { static const std::vector<V> ns = all(3, 3); grid(e, 3, mc::tier(6u, 8u), ns); }
MC_SECTION(periodic) {          // long, highly repetitive haystacks and needles
    unsigned per = e.choose(4), hl = e.choose(mc::tier(40u, 70u)), nl = e.choose(mc::tier(20u, 34u)), brk = e.choose(4), shift = e.choose(3);
    auto gen = [&](size_t i) -> unsigned char { return per == 0 ? 0 : per == 1 ? i % 2 : per == 2 ? (i % 3 == 2) : (i % 5 == 4) + (i % 7 == 6 ? 1 : 0); };
    V h, n; for (size_t i = 0; i < hl; ++i) h.push_back(gen(i)); for (size_t i = 0; i < nl; ++i) n.push_back(gen(i + shift));
    if (brk == 1 && hl) h[hl / 2] = 2; if (brk == 2 && nl) n[nl - 1] = 2; if (brk == 3 && nl && hl) { n[nl - 1] = 1; h[hl - 1] = 1; }
    pair(e, h, n, String(txt(h).c_str()), String(txt(n).c_str()), {0, 1, hl / 2, hl, hl + 1, NP});
    std::string ht, nt; for (auto c : h) ht += "abc"[c]; for (auto c : n) nt += "abc"[c];
    e.op("kmp"); if (kmp(nt, ht) != (ht.find(nt) != std::string::npos)) e.fail("kmp", "kmp(%s, %s) wrong", nt.c_str(), ht.c_str());
}
MC_SECTION(kmp_all) {
    static const std::vector<V> ts = all(2, mc::tier(9u, 12u));
    V p = word(e, 2, mc::tier(7u, 9u)); std::string ps; for (auto c : p) ps += "ab"[c];
    MC_LOG(e, "pattern %s against all texts", ps.c_str()); e.op("kmp"); e.state(mc::Hash().s(ps));
    std::string t;
    for (auto& v : ts) { t.clear(); for (auto c : v) t += "ab"[c]; e.transition(); bool w = t.find(ps) != std::string::npos; if (kmp(ps, t) != w) e.fail("kmp", "kmp(%s, %s) = %d", mc::quote(ps).c_str(), mc::quote(t).c_str(), !w); }
}
MC_SECTION(find_if) {
    V h = word(e, 3, mc::tier(7u, 8u)); String H(txt(h).c_str()); unsigned set = e.choose(8);
    MC_LOG(e, "FindIf in %s, set %u", mc::quote(txt(h)).c_str(), set); e.state(mc::Hash().seq(h).u(set));
    auto pred = [&](const Char& c) { for (unsigned k = 0; k < 3; ++k) if ((set >> k & 1) && c.str() == L[k]) return true; return false; };
    std::vector<size_t> ps; for (size_t p = 0; p <= h.size() + 2; ++p) ps.push_back(p); ps.push_back(NP);
    for (size_t p : ps) {
        size_t w1 = NP, w2 = NP; for (size_t i = p; i < h.size(); ++i) { bool in = set >> h[i] & 1; if (in && w1 == NP) w1 = i; if (!in && w2 == NP) w2 = i; }
        e.op("FindIf"); size_t r = H.FindIf(pred, p); if (r != w1) e.fail("findif", "FindIf from %zd = %zd instead of %zd", (ssize_t)p, (ssize_t)r, (ssize_t)w1);
        e.op("FindIfNot"); r = H.FindIfNot(pred, p); if (r != w2) e.fail("findifnot", "FindIfNot from %zd = %zd instead of %zd", (ssize_t)p, (ssize_t)r, (ssize_t)w2);
        if (p == 0) { if (H.FindIf(pred) != w1 || H.FindIfNot(pred) != w2) e.fail("findif", "default start position"); }
        e.transition(2);
    }
}
MC_SECTION(substring) {
    V h = word(e, 3, 6); String H(txt(h).c_str());
    for (size_t p = 0; p <= h.size() + 2; ++p) for (size_t c = 0; c <= h.size() + 6; ++c) {
        size_t cnt = c == h.size() + 3 ? NP : c == h.size() + 4 ? NP - 1 : c == h.size() + 5 ? NP / 2 + 1 : c == h.size() + 6 ? NP - h.size() : c; e.op("Substring"); e.transition(); bool threw = false; e.state(mc::Hash().seq(h).u(p).u(cnt));
        MC_LOG(e, "%s.Substring(%zu, %zd)", mc::quote(txt(h)).c_str(), p, (ssize_t)cnt);
        try { String s = c == h.size() + 3 && p % 2 == 0 ? H.Substring(p) : H.Substring(p, cnt); V w; for (size_t i = p; i < h.size() && i - p < cnt; ++i) w.push_back(h[i]);
            if (s.str() != txt(w) || s.size() != w.size()) e.fail("substring", "%s.Substring(%zu, %zd) = %s", mc::quote(txt(h)).c_str(), p, (ssize_t)cnt, mc::quote(s.str()).c_str()); }
        catch (const std::out_of_range&) { threw = true; }
        if (threw != (p > h.size())) e.fail("substring-throw", "Substring(%zu) of %zu characters %s", p, h.size(), threw ? "threw" : "did not throw");
    }
}
MC_SECTION(scale, true, false, 0, true, 60) {       // searches whose positions and lengths lie next to a power of two
    unsigned n = e.pick(kScale), kind = e.choose(5); V h(n, 0), nd; e.op("search a long text"); if (kind == 3 && n > 2000) return;
    if (kind == 0) { nd = V{1}; h.push_back(1); h.push_back(0); }                    // the needle begins at n
    else if (kind == 1) { nd = V{0, 1, 0}; h.push_back(1); h.push_back(0); }         // ... at n - 1
    else if (kind == 2) { nd = V{2}; }                                                // absent
    else if (kind == 3) { nd = V(h.begin(), h.end()); h.insert(h.begin(), 1); h.push_back(1); }      // as long as n
    else { nd = V(h.begin(), h.end()); nd.front() = nd.back() = 1; h = nd; h.insert(h.begin(), 2, 0); h.push_back(0); }     // as long as n, with one place to begin
    std::string ht = txt(h), nt = txt(nd); String H(ht.c_str()), N(nt.c_str()); size_t at1 = kind == 0 ? n : kind == 1 ? n - 1 : kind == 2 ? NP : kind == 3 ? 1 : 2;
    MC_LOG(e, "%zu characters, needle of %zu characters, kind %u", h.size(), nd.size(), kind); e.state(mc::Hash().u(n).u(kind)); e.outcome(at1);
    e.check(H.Find(N) == at1, "find", "Find gives %zd instead of %zd in %zu characters", (ssize_t)H.Find(N), (ssize_t)at1, h.size());
    e.check(H.ReverseFind(N) == at1, "rfind", "ReverseFind gives %zd instead of %zd in %zu characters", (ssize_t)H.ReverseFind(N), (ssize_t)at1, h.size());
    if (at1 != NP) {
        size_t last = at1 + nd.size() - 1;
        e.check(H.Find(N, at1) == at1 && H.Find(N, at1 + 1) == NP && H.Find(N, at1 - 1) == at1, "find-pos", "Find from around %zu is wrong in %zu characters", at1, h.size());
        e.check(H.ReverseFind(N, last) == at1 && H.ReverseFind(N, last - 1) == NP && H.ReverseFind(N, last + 1) == at1, "rfind-pos", "ReverseFind from around %zu is wrong in %zu characters", last, h.size());
    }
    e.check(H.Contains(N) == (at1 != NP) && H.StartsWith(N) == false && H.EndsWith(N) == (kind == 1), "contains", "Contains/StartsWith/EndsWith wrong in %zu characters", h.size());
    String P = H.Substring(0, at1 == NP ? n : at1), S = H.Substring(at1 == NP ? 0 : at1);
    e.check(P.size() == (at1 == NP ? n : at1) && H.StartsWith(P) && H.EndsWith(S) && S.StartsWith(N) == (at1 != NP), "parts", "StartsWith/EndsWith wrong for parts of %zu characters", h.size());
    auto pred = [&](const Char& c) { return c.str() == L[1]; }; size_t w1 = kind == 2 ? NP : kind == 3 ? 0 : kind == 4 ? 2 : n, w2 = kind == 3 ? 1 : 0;
    e.check(H.FindIf(pred) == w1 && H.FindIfNot(pred) == w2, "findif", "FindIf/FindIfNot give %zd/%zd in %zu characters", (ssize_t)H.FindIf(pred), (ssize_t)H.FindIfNot(pred), h.size());
    if (kind < 2) e.check(H.FindIf(pred, n) == n && H.FindIf(pred, n + 1) == NP && H.FindIfNot(pred, n) == n + 1, "findif", "FindIf/FindIfNot from %u wrong", n);
    if (kind == 3) e.check(H.FindIf(pred, 1) == n + 1 && H.FindIfNot(pred, n + 1) == NP, "findif", "FindIf/FindIfNot from 1 wrong in %zu characters", h.size());
    e.transition(12);
}
MC_SECTION(kmp_scale, true, false, 0, true, 60) {   // patterns whose failure lengths reach past each power of two
    unsigned m = e.pick(kScale), kind = e.choose(6); std::string p, t; e.op("kmp"); if (kind >= 4 && m < 4) return;
    auto word = [](unsigned n, unsigned per) { std::string s; for (unsigned i = 0; i < n; ++i) s += "ab"[i % per == per - 1]; return s; };
    switch (kind) {
    case 0: p = std::string(m, 'a'); t = std::string(m - 1, 'a') + "b" + p; break;               // present at the very end
    case 1: p = std::string(m, 'a'); t = std::string(m - 1, 'a') + "b" + std::string(m - 1, 'a'); break;   // absent
    case 2: p = std::string(m, 'a') + "b"; t = std::string(m + 3, 'a') + "b"; break;               // every mismatch falls back by one
    case 3: p = std::string(m, 'a') + "b" + std::string(m, 'a') + "c"; t = std::string(m, 'a') + "b" + p; break;
    case 4: p = word(m, 3); t = word(m - 1, 3) + p; break;
    case 5: p = word(m, 5) + "c"; t = word(m + 5, 5) + "b" + p; break;
    }
    MC_LOG(e, "kmp with a pattern of %zu and a text of %zu characters, kind %u", p.size(), t.size(), kind); e.state(mc::Hash().u(m).u(kind)); e.transition();
    bool w = kind != 1; e.outcome(w); e.check(kmp(p, t) == w, "kmp", "kmp gives %d for a pattern of %zu and a text of %zu characters (kind %u)", !w, p.size(), t.size(), kind);
}
} // namespace hx
