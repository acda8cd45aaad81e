#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include <algorithm>
#include <utility>
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
namespace hx {
typedef std::vector<std::string> M;

static M m_of(const std::string& s) { M m; ref::split(s, m); return m; }
static void light(mc::Exec& e, const String& x, const M& m, const char* who) {
    e.transition();
    if (x.size() != m.size()) e.fail("size", "%s has %zu characters, model has %zu", who, (size_t)x.size(), m.size());
    std::string a = x.str(), b = ref::join(m);
    if (a != b) e.fail("value", "%s is %s, model is %s", who, mc::quote(a).c_str(), mc::quote(b).c_str());
}
static void full(mc::Exec& e, String& x, const M& m, const char* who) {
    light(e, x, m, who);
    const String& c = x; size_t i = 0;
    if (c.Length() != m.size() || c.IsEmpty() != m.empty() || c.NotEmpty() == m.empty() || c.ByteCount() != ref::join(m).size()) e.fail("queries", "%s: length/emptiness/byte count disagree with the model", who);
    for (auto it = c.begin(); it != c.end(); ++it, ++i) if (it->str() != m[i]) e.fail("iterate", "%s: forward iteration", who);
    if (i != m.size()) e.fail("iterate", "%s: forward iteration stops early", who);
    i = 0; for (auto it = c.cbegin(); it != c.cend(); ++it, ++i) if (it->str() != m[i]) e.fail("iterate", "%s: const iteration", who);
    i = 0; for (auto& ch : x) if (ch.str() != m[i++]) e.fail("iterate", "%s: range iteration", who);
    i = m.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) if (it->str() != m[--i]) e.fail("iterate", "%s: reverse iteration", who);
    i = m.size(); for (auto it = x.rbegin(); it != x.rend(); ++it) if (it->str() != m[--i]) e.fail("iterate", "%s: reverse iteration", who);
    i = m.size(); for (auto it = c.crbegin(); it != c.crend(); ++it) if (it->str() != m[--i]) e.fail("iterate", "%s: const reverse iteration", who);
    for (i = 0; i < m.size(); ++i) if (c[i].str() != m[i] || x[i].str() != m[i] || c.At(i).str() != m[i] || x.At(i).str() != m[i]) e.fail("index", "%s: character %zu", who, i);
    auto d = c.data(); if (d.size() != m.size()) e.fail("data", "%s: data()", who);
    bool t = false; try { c.At(m.size()); } catch (const std::out_of_range&) { t = true; } if (!t) e.fail("at", "%s: At(size) did not throw", who);
    t = false; try { x.At((SizeType)-1); } catch (const std::out_of_range&) { t = true; } if (!t) e.fail("at", "%s: At(-1) did not throw", who);
}
static const char* kCh[] = {"b", "\xC3\xA9", "\xF0\x9F\x99\x82"};
static const char* kStr[] = {"", "xy", "\xE4\xB8\x96" "z"};

static void history(mc::Exec& e, unsigned depth, unsigned starts, bool wide) {
    String s[2]; M m[2];
    static const unsigned big[] = {0, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100};
    unsigned st = e.choose(starts);
    std::string init; for (unsigned i = 0; i < big[st]; ++i) init += i % 3 == 0 ? "a" : i % 3 == 1 ? "\xC3\xA9" : "\xE4\xB8\x96";
    s[0] = String(init.c_str()); m[0] = m_of(init); s[1] = String("k\xC3\xB6"); m[1] = m_of("k\xC3\xB6");
    MC_LOG(e, "a = %s; b = %s", mc::quote(init).c_str(), mc::quote(s[1].str()).c_str());
    if (st >= 1) { size_t cap = e.choose(wide ? 2 : 1); if (cap) { for (size_t k = 0; k < 3; ++k) { s[0].PushBack(Char("p")); m[0].push_back("p"); } } }
    for (unsigned step = 0; step < depth; ++step) {
        unsigned op = e.choose(26); String& a = s[0]; String& b = s[1]; M& A = m[0]; M& B = m[1];
        auto posn = [&]() -> size_t { unsigned k = e.choose(4); return k == 0 ? 0 : k == 1 ? A.size() / 2 : k == 2 ? A.size() : A.size() + 1; };
        bool threw = false, want = false; std::string label;
#define OP(...) do { label = mc::strf(__VA_ARGS__); e.op(label.c_str()); MC_LOG(e, "%s", label.c_str()); } while (0)
#define TRY(x) do { try { x; } catch (const std::exception& ex) { threw = true; } } while (0)
        switch (op) {
        case 0: OP("a = b"); a = b; A = B; break;
        case 1: OP("b = a"); b = a; B = A; break;
        case 2: { OP("a = a"); String& r = a; a = r; break; }
        case 3: { OP("a = move(b); b = \"n\""); a = std::move(b); A = B; b = String("n"); B = m_of("n"); break; }
        case 4: { OP("b = String(a) copy-construct"); String t(a); b = t; B = A; break; }
        case 5: { OP("b = String(move(a)); a = \"\""); String t(std::move(a)); a = String(); b = t; B = A; A.clear(); break; }
        case 6: OP("a += b"); a += b; A.insert(A.end(), B.begin(), B.end()); break;
        case 7: { OP("a += a"); String& r = a; a += r; M t = A; A.insert(A.end(), t.begin(), t.end()); break; }
        case 8: { OP("a = b + a"); a = b + a; A.insert(A.begin(), B.begin(), B.end()); break; }
        case 9: { unsigned c = e.choose(3); OP("a.PushBack(%s)", kCh[c]); a.PushBack(Char(kCh[c])); A.push_back(kCh[c]); break; }
        case 10: { if (A.empty()) { OP("a.PushBack(b)"); a.PushBack(Char("b")); A.push_back("b"); } else { OP("a.PushBack(a[0])"); a.PushBack(a[0]); A.push_back(std::string(A[0])); } break; }
        case 11: { unsigned k = e.choose(3); OP("a.Append(%s)", kStr[k]); a.Append(kStr[k]); M t = m_of(kStr[k]); A.insert(A.end(), t.begin(), t.end()); break; }
        case 12: { unsigned n = e.choose(4); OP("a.Append(%u, Char)", n); a.Append(n, Char(kCh[1])); A.insert(A.end(), n, kCh[1]); break; }
        case 13: { unsigned n = e.choose(4); if (A.empty()) { OP("skip"); break; } OP("a.Append(%u, a[last])", n); std::string t = A.back(); a.Append(n, a[A.size() - 1]); A.insert(A.end(), n, t); break; }
        case 14: { unsigned n = e.choose(3); OP("a.Append(%u, cstr)", n); a.Append(n, "\xE4\xB8\x96"); A.insert(A.end(), n, "\xE4\xB8\x96"); break; }
        case 15: { size_t p = posn(); unsigned k = e.choose(3); OP("a.Insert(%zu, %s)", p, kStr[k]); want = p > A.size(); TRY(a.Insert(p, kStr[k])); if (!want) { M t = m_of(kStr[k]); A.insert(A.begin() + p, t.begin(), t.end()); } break; }
        case 16: { size_t p = posn(); OP("a.Insert(%zu, b)", p); want = p > A.size(); TRY(a.Insert(p, b)); if (!want) A.insert(A.begin() + p, B.begin(), B.end()); break; }
        case 17: { size_t p = posn(); OP("a.Insert(%zu, a)", p); want = p > A.size(); TRY(a.Insert(p, a)); if (!want) { M t = A; A.insert(A.begin() + p, t.begin(), t.end()); } break; }
        case 18: { size_t p = posn(); unsigned n = e.choose(3); OP("a.Insert(%zu, %u, Char)", p, n); want = p > A.size(); TRY(a.Insert(p, n, Char(kCh[0]))); if (!want) A.insert(A.begin() + p, n, kCh[0]); break; }
        case 19: { size_t p = posn(); if (A.empty()) { OP("skip"); break; } std::string t = A.back(); OP("a.Insert(%zu, 2, a[last])", p); want = p > A.size(); TRY(a.Insert(p, 2, a[A.size() - 1])); if (!want) A.insert(A.begin() + p, 2, t); break; }
        case 20: OP("a.Clear()"); a.Clear(); A.clear(); break;
        case 21: { size_t p = posn(); if (p < A.size()) { OP("a[%zu] = Char", p); a[p] = Char(kCh[2]); A[p] = kCh[2]; } else { OP("a.At(%zu) = Char", p); want = true; TRY(a.At(p) = Char("b")); } break; }
        case 22: { size_t p = posn(), n = e.choose(5); size_t cnt = n == 3 ? String::NPosition : n == 4 ? String::NPosition - 1 : n; OP("a = a.Substring(%zu, %zd)", p, (ssize_t)cnt); want = p > A.size(); TRY(a = a.Substring(p, cnt)); if (!want) { size_t q = std::min(cnt, A.size() - p); A = M(A.begin() + p, A.begin() + p + q); } break; }
        case 23: OP("std::swap(a, b)"); std::swap(a, b); std::swap(A, B); break;
        case 24: { unsigned n = e.choose(3); if (n == 2) { OP("a = String(3, Char)"); a = String(3, Char(kCh[1])); A = M(3, kCh[1]); } else { OP("a = String(%u, 'c')", n * 2); a = String(n * 2, 'c'); A = M(n * 2, "c"); } break; }
        case 25: { if (A.empty()) { OP("a = String(b.data())"); a = String(b.data()); A = B; } else { OP("*a.begin() = Char; *a.rbegin() = Char"); *a.begin() = Char(kCh[0]); A.front() = kCh[0]; *a.rbegin() = Char(kCh[1]); A.back() = kCh[1]; } break; }
        }
        if (threw != want) e.fail(threw ? "unexpected-throw" : "missing-throw", "%s %s", label.c_str(), threw ? "threw" : "did not throw");
        light(e, a, A, "a"); light(e, b, B, "b");
        e.state(mc::Hash().s(ref::join(A)).s(ref::join(B)).u(step));
    }
    full(e, s[0], m[0], "a"); full(e, s[1], m[1], "b");
    e.outcome(mc::Hash().s(ref::join(m[0])));
}
MC_SECTION(short_histories) { history(e, mc::tier(3u, 4u), 3, false); }
MC_SECTION(growth_boundaries) { history(e, mc::tier(2u, 3u), 11, true); }
MC_SECTION(scale, true, false, 0, true, 60) {       // one operation on a text whose length is next to a power of two, checked character by character
    unsigned n = e.pick(kScale), op = e.choose(13), mixed = e.choose(2); if (mixed && n > 60000 && n != 65536 && mc::tier(1, 0)) return;
    std::string init; for (unsigned i = 0; i < n; ++i) init += !mixed ? "a" : i % 3 == 0 ? "a" : i % 3 == 1 ? "\xC3\xA9" : "\xE4\xB8\x96";
    String a(init.c_str()), b; M A = m_of(init), B; MC_LOG(e, "a text of %u characters, operation %u", n, op); e.op(mc::strf("operation %u on a text of %u characters", op, n).c_str()); e.state(mc::Hash().u(n).u(op).u(mixed));
    static const char* X = "x\xC3\xA9y";
    switch (op) {
    case 0: a.PushBack(Char("\xC3\xA9")); A.push_back("\xC3\xA9"); break;
    case 1: a.Append(X); { M t = m_of(X); A.insert(A.end(), t.begin(), t.end()); } break;
    case 2: a += a; { M t = A; A.insert(A.end(), t.begin(), t.end()); } break;
    case 3: b = String("q"); b.Append((SizeType)n, Char("\xC3\xA9")); a = b; A.assign(n + 1, "\xC3\xA9"); A[0] = "q"; break;
    case 4: b = String("q"); b.Append((SizeType)n, "\xE4\xB8\x96"); a = b; A.assign(n + 1, "\xE4\xB8\x96"); A[0] = "q"; break;
    case 5: a.Insert(n, X); { M t = m_of(X); A.insert(A.end(), t.begin(), t.end()); } break;
    case 6: a.Insert(n - 1, (SizeType)2, Char("b")); A.insert(A.end() - 1, 2, "b"); break;
    case 7: b = String("qr"); b.Insert(1, a); a = b; A.insert(A.begin(), "q"); A.push_back("r"); break;
    case 8: b = String("qr"); b.Insert(1, (SizeType)n, Char("\xC3\xA9")); a = b; A.assign(n + 2, "\xC3\xA9"); A.front() = "q"; A.back() = "r"; break;
    case 9: a = a.Substring(n - 3, 2); A = M(A.end() - 3, A.end() - 1); break;
    case 10: a = a.Substring(1, n - 2); A = M(A.begin() + 1, A.end() - 1); break;
    case 11: a[n - 1] = Char("\xF0\x9F\x99\x82"); A.back() = "\xF0\x9F\x99\x82"; a.At(n / 2) = Char("z"); A[n / 2] = "z"; break;
    case 12: a = String((SizeType)n, Char("\xC3\xA9")) + a; A.insert(A.begin(), n, "\xC3\xA9"); break;
    }
    light(e, a, A, "the text"); if (n < 2000 || op == 1) full(e, a, A, "the text"); e.outcome(A.size());
}

// the standard algorithms through a text's iterators do what they do on a vector of characters
template <class S, class Str> static std::string algo(S& s, const S& c, unsigned op, size_t i, size_t j, Str str) {
    typedef decltype(*s.begin()) R; typedef typename std::decay<R>::type X; auto less = [&](const X& a, const X& b) { return str(a) < str(b); }; auto eq = [&](const X& a, const X& b) { return str(a) == str(b); }; auto at = [&](size_t k) { return s.begin() + (std::ptrdiff_t)k; };
    auto cat = [&](size_t k) { return c.begin() + (std::ptrdiff_t)k; }; std::string o; auto num = [&](std::ptrdiff_t n) { o += mc::strf("%td ", n); };
    switch (op) {
    case 0: std::sort(at(i), at(j), less); break; case 1: std::reverse(at(i), at(j)); break; case 2: std::rotate(s.begin(), at(i), at(j)); break; case 3: num(std::unique(s.begin(), at(j), eq) - s.begin()); break;
    case 4: std::stable_partition(at(i), at(j), [&](const X& x) { return str(x).size() > 1; }); break; case 5: std::next_permutation(at(i), at(j), less); break; case 6: if (i < j) std::iter_swap(at(i), at(j) - 1); break; case 7: if (i < j) { const X x = *at(i); std::fill(at(i), at(j), x); } break;
    case 8: std::copy(cat(i), cat(j), s.begin()); break; case 9: std::copy_backward(cat(i), cat(j), s.end()); break; case 10: { std::vector<X> v(c.rbegin(), c.rend()); for (auto& x : v) o += str(x); break; } case 11: std::sort(s.rbegin(), s.rend(), less); break;
    case 12: num(std::max_element(c.begin(), c.end(), less) - c.begin()); num(std::min_element(c.begin(), c.end(), less) - c.begin()); break; case 13: num(std::search(c.begin(), c.end(), cat(i), cat(j), eq) - c.begin()); num(std::distance(c.begin(), cat(j))); break;
    case 14: for (size_t k = 0; k < c.size(); ++k) { o += str(c.begin()[(std::ptrdiff_t)k]); o += str(*(c.end() - 1 - (std::ptrdiff_t)k)); } num(s.begin() < s.end()); num(c.cend() - c.cbegin()); num(c.crend() - c.crbegin()); break; case 15: num(std::is_permutation(cat(i), cat(j), c.begin(), eq)); num(std::lexicographical_compare(cat(i), c.end(), c.begin(), cat(j), less)); break;
    case 16: std::nth_element(s.begin(), at(i), s.end(), less); o += i < s.size() ? str(*at(i)) : ""; std::sort(s.begin(), s.end(), less); break; case 17: std::make_heap(at(i), at(j), less); std::sort_heap(at(i), at(j), less); break; case 18: std::inplace_merge(s.begin(), at(i), at(j), less); break; default: std::swap_ranges(s.begin(), s.begin() + (std::ptrdiff_t)std::min(i, s.size() / 2), s.end() - (std::ptrdiff_t)(s.size() / 2)); }
    for (auto& x : s) o += str(x); return o;
}
MC_SECTION(algorithms, true) {
    static const char* const A[] = {"a", "\xC3\xA9", "\xF0\x9F\x98\x80", "z"}; std::string t; unsigned n = e.choose(mc::tier(5u, 7u)); for (unsigned k = 0; k < n; ++k) t += A[e.choose(4)]; unsigned op = e.choose(20), i = e.choose(n + 1), j = i + e.choose(n + 1 - i);
    if (op == 18) { i = std::min(i, 1u); } e.op("algorithm"); MC_LOG(e, "algorithm %u on %s from %u to %u", op, mc::quote(t).c_str(), i, j); e.transition(); String s(t); const String c(s); M m = m_of(t), mc_ = m; e.state(mc::Hash().s(t).u(op));
    std::string got = algo(s, c, op, i, j, [](const Char& x) { return x.str(); }), want = algo(m, mc_, op, i, j, [](const std::string& x) { return x; }); e.outcome(mc::Hash().s(got)); if (got != want) e.fail("algorithm", "standard algorithm %u on %s from %u to %u gives %s instead of %s", op, mc::quote(t).c_str(), i, j, mc::quote(got).c_str(), mc::quote(want).c_str()); full(e, s, m, "the text");
}
} // namespace hx
