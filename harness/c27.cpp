#include "mc.hpp"
#include <Caitlyn/Testing>
#include "Caitlyn/__Numeric/Types/BigInteger.h"
using namespace Caitlyn;
using namespace Caitlyn::Test;
namespace hx {
// "after" shows whether the test goes on behind the assertion
struct R { bool threw = false, after = false; std::string what; };
template <class F> static R attempt(F f) { R r; try { f(r); } catch (const std::runtime_error& x) { r.threw = true; r.what = x.what(); } return r; }
static void judge(mc::Exec& e, const char* macro, bool holds, const R& r, const std::string& a, const std::string& b) {
    e.transition(); if (holds ? (r.threw || !r.after) : (!r.threw || r.after)) e.fail("wrong-verdict", "%s(%s, %s) %s although the relation %s", macro, a.c_str(), b.c_str(), r.threw ? "fails" : "passes", holds ? "holds" : "does not hold");
    if (!holds && r.what.empty()) e.fail("no-message", "%s fails without a message", macro);
}
struct Count { int a = 0, b = 0; };
#define REL(MACRO, OP) { Count c; bool h = x OP y; auto f = [&](R& r) { MACRO((c.a++, x), (c.b++, y)); r.after = true; }; R r = attempt(f); judge(e, #MACRO, h, r, sa, sb); if (h && (c.a != 1 || c.b != 1)) e.fail("evaluated", #MACRO " evaluates its operands %d and %d times", c.a, c.b); }
#define ALL_REL REL(ASSERT_EQ, ==) REL(ASSERT_NE, !=) REL(ASSERT_LT, <) REL(ASSERT_LE, <=) REL(ASSERT_GT, >) REL(ASSERT_GE, >=)
template <class T> static std::string show(const T& t) { std::ostringstream o; o << t; return o.str(); }
// (the library's own types have their stream operators in the global namespace, where this macro's static_assert does not see all of them)
template <class T> static void printable(mc::Exec& e, const T& x, const T& y, const std::string& sa, const std::string& sb, std::true_type) { const T& p = x; const T& q = y; bool h = x == y; R r = attempt([&](R& r) { ASSERT_EQ_PRINTABLE(p, q); r.after = true; }); judge(e, "ASSERT_EQ_PRINTABLE", h, r, sa, sb); }
template <class T> static void printable(mc::Exec&, const T&, const T&, const std::string&, const std::string&, std::false_type) {}
template <class T> static void pairs(mc::Exec& e, const std::vector<T>& v) {
    const T x = v[e.choose((unsigned)v.size())], y = v[e.choose((unsigned)v.size())]; std::string sa = show(x), sb = show(y); e.op("relations"); MC_LOG(e, "%s and %s", sa.c_str(), sb.c_str());
    ALL_REL
    printable<T>(e, x, y, sa, sb, std::integral_constant<bool, std::is_arithmetic<T>::value || std::is_same<T, std::string>::value>());
}
template <class T> static std::vector<T> ints() { typedef std::numeric_limits<T> L; return {L::min(), (T)(L::min() + 1), (T)0, (T)1, (T)7, (T)(L::max() / 2), (T)(L::max() - 1), L::max()}; }
MC_SECTION(integers, true) { switch (e.choose(8)) { case 0: pairs<int>(e, ints<int>()); break; case 1: pairs<unsigned>(e, ints<unsigned>()); break; case 2: pairs<long long>(e, ints<long long>()); break; case 3: pairs<unsigned long long>(e, ints<unsigned long long>()); break; case 4: pairs<short>(e, ints<short>()); break; case 5: pairs<unsigned char>(e, ints<unsigned char>()); break; case 6: pairs<char>(e, {'a', 'b', 'z', 'A'}); break; case 7: pairs<bool>(e, {false, true}); break; } }
MC_SECTION(reals, true) { double i = std::numeric_limits<double>::infinity(), n = std::numeric_limits<double>::quiet_NaN(); if (e.flag()) pairs<double>(e, {-i, -1.5, -0.0, 0.0, 1e-300, 1.5, 1e300, i, n}); else pairs<float>(e, {(float)-i, -1.5f, -0.0f, 0.0f, 1e-30f, 1.5f, (float)i, (float)n}); }
MC_SECTION(texts, true) { switch (e.choose(3)) { case 0: pairs<std::string>(e, {"", "a", "ab", "b", "A", "\xC3\xA9"}); break; case 1: pairs<String>(e, {String(""), String("a"), String("ab"), String("b"), String("\xC3\xA9"), String("\xF0\x9F\x98\x80")}); break; case 2: pairs<BigInteger>(e, {BigInteger("0"), BigInteger("-1"), BigInteger("1"), BigInteger("100000000000000000000"), BigInteger("-100000000000000000000")}); break; } }
struct Bare { int v; bool operator==(const Bare& o) const { return v == o.v; } };
MC_SECTION(conditions, true) {
    int k = (int)e.choose(3) - 1; bool c = k != 0; int n = 0; std::string s = mc::strf("%d", k); e.op("ASSERT_TRUE / ASSERT_FALSE"); MC_LOG(e, "condition %d", k);
    R r = attempt([&](R& r) { ASSERT_TRUE((n++, k)); r.after = true; }); judge(e, "ASSERT_TRUE", c, r, s, ""); e.check(n == 1, "evaluated", "ASSERT_TRUE evaluates %d times", n); n = 0;
    r = attempt([&](R& r) { ASSERT_FALSE((n++, k)); r.after = true; }); judge(e, "ASSERT_FALSE", !c, r, s, ""); e.check(n == 1, "evaluated", "ASSERT_FALSE evaluates %d times", n);
    int v = 0; int* p = k ? &v : nullptr; r = attempt([&](R& r) { ASSERT_TRUE(p); r.after = true; }); judge(e, "ASSERT_TRUE", p, r, "pointer", ""); r = attempt([&](R& r) { ASSERT_FALSE(p); r.after = true; }); judge(e, "ASSERT_FALSE", !p, r, "pointer", "");
    r = attempt([&](R& r) { ASSERT_TRUE(k == 0 || k == 1); r.after = true; }); judge(e, "ASSERT_TRUE", k >= 0, r, s, "or"); r = attempt([&](R& r) { ASSERT_FALSE(k == 0 || k == 1); r.after = true; }); judge(e, "ASSERT_FALSE", k < 0, r, s, "or");
    r = attempt([&](R& r) { PASS(); r.after = true; }); judge(e, "PASS", true, r, "", ""); r = attempt([&](R& r) { FAIL(); r.after = true; }); judge(e, "FAIL", false, r, "", "");
    r = attempt([&](R& r) { FAIL_MESSAGE() << "why " << 3; r.after = true; }); judge(e, "FAIL_MESSAGE", false, r, "", ""); e.check(r.what.find("why") != std::string::npos, "message", "FAIL_MESSAGE drops its text: %s", r.what.c_str());
    // operands with operators of lower precedence
    int a = 6, b = 3; r = attempt([&](R& r) { ASSERT_EQ(a & b, 2); r.after = true; }); judge(e, "ASSERT_EQ", true, r, "a & b", "2"); 
    r = attempt([&](R& r) { ASSERT_LT(k ? a : b, 5); r.after = true; }); judge(e, "ASSERT_LT", !c, r, "k ? 6 : 3", "5"); r = attempt([&](R& r) { ASSERT_NE(k ? a : b, k ? 6 : 4); r.after = true; }); judge(e, "ASSERT_NE", !c, r, "conditional", "conditional");
}
// an assertion is one statement
MC_SECTION(statements, true) {
    bool a = e.flag(), b = e.flag(); e.op("assertion below an if"); MC_LOG(e, "if (%d) ASSERT_TRUE(%d); else ...", a, b); int els = 0;
    R r = attempt([&](R& r) { if (a) ASSERT_TRUE(b); else els++; r.after = true; }); judge(e, "if (a) ASSERT_TRUE(b); else ...", !a || b, r, "", ""); e.check(els == !a, "else", "the else branch ran %d times", els); els = 0;
    r = attempt([&](R& r) { if (a) ASSERT_FALSE(b); else els++; r.after = true; }); judge(e, "if (a) ASSERT_FALSE(b); else ...", !a || !b, r, "", ""); e.check(els == !a, "else", "the else branch ran %d times", els); els = 0;
    r = attempt([&](R& r) { if (a) ASSERT_STREQ("x", b ? "x" : "y"); else els++; r.after = true; }); judge(e, "if (a) ASSERT_STREQ; else ...", !a || b, r, "", ""); e.check(els == !a, "else", "the else branch ran %d times", els);
    int n = 0; r = attempt([&](R& r) { for (int i = 0; i < 5; ++i) { ASSERT_LE(i, a ? 9 : 2); n++; } r.after = true; }); judge(e, "ASSERT_LE in a loop", a, r, "", ""); e.check(n == (a ? 5 : 3), "stop", "the loop ran %d times", n);
    n = 0; r = attempt([&](R& r) { for (int i = 0; i < 5; ++i) ASSERT_TRUE((n++, i < (b ? 9 : 2))); r.after = true; }); judge(e, "ASSERT_TRUE in a loop", b, r, "", ""); e.check(n == (b ? 5 : 3), "stop", "the loop ran %d times", n);
}
MC_SECTION(c_strings, true) {
    static const char* S[] = {nullptr, "", "a", "ab", "b", "A", "\xFF", "a longer text of some length"}; char buf[2][64]; const char* p[2]; unsigned k[2]; for (int i = 0; i < 2; ++i) { k[i] = e.choose(8); p[i] = S[k[i]]; if (p[i]) { strcpy(buf[i], p[i]); p[i] = buf[i]; } }
    Count c; e.op("ASSERT_STREQ"); MC_LOG(e, "texts %u and %u", k[0], k[1]); R r = attempt([&](R& r) { ASSERT_STREQ((c.a++, p[0]), (c.b++, p[1])); r.after = true; }); judge(e, "ASSERT_STREQ", k[0] == k[1], r, mc::strf("#%u", k[0]), mc::strf("#%u", k[1])); if (k[0] == k[1] && (c.a != 1 || c.b != 1)) e.fail("evaluated", "ASSERT_STREQ evaluates its operands %d and %d times", c.a, c.b);
}
// a failing assertion ends its own test only
static int g_bits, g_ran; template <int I> static void t() { g_ran |= 1 << (2 * I); ASSERT_EQ(g_bits >> I & 1, 0); ASSERT_STREQ(g_bits >> (I + 4) & 1 ? "x" : "y", "y"); ASSERT_TRUE(!(g_bits >> I & 1)); g_ran |= 2 << (2 * I); }
MC_SECTION(in_tests, false) {
    g_bits = (int)e.choose(256); g_ran = 0; e.op("RunAll"); MC_LOG(e, "failing mask %d", g_bits); static bool once = [] { TestFunction f[] = {t<0>, t<1>, t<2>, t<3>}; for (int i = 0; i < 4; ++i) TestRegistry::Instance().AddTest("S", String(mc::strf("t%d", i).c_str()), f[i]); return true; }(); (void)once;
    std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); int rc = 9; try { rc = TestRegistry::Instance().RunAll(); } catch (...) {} std::cout.rdbuf(old); e.transition(4);
    int want = 0, bad = 0; for (int i = 0; i < 4; ++i) { want |= 1 << (2 * i); if ((g_bits >> i & 1) || (g_bits >> (i + 4) & 1)) bad++; else want |= 2 << (2 * i); }
    e.check(rc == (bad ? 1 : 0) && g_ran == want, "in-tests", "mask %d: RunAll returns %d, progress %x instead of %x", g_bits, rc, g_ran, want); e.check(os.str().find(mc::strf("\n%d FAILED TEST", bad)) != std::string::npos, "in-tests", "mask %d: the report does not say %d failed", g_bits, bad);
}
}
