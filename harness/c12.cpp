#include "mc.hpp"
#include "sizes.hpp"
#include <sstream>
#include <boost/multiprecision/cpp_int.hpp>
#include "Caitlyn/__Numeric/Types.h"
using namespace Caitlyn;
typedef boost::multiprecision::cpp_int Z;
namespace hx {
static Z p10(unsigned k) { Z z = 1; while (k--) z *= 10; return z; }
struct D { Z v; unsigned s; };                                      // v / 10^s
static D norm(D d) { while (d.s && d.v % 10 == 0) { d.v /= 10; --d.s; } return d; }
static bool dparse(const std::string& t, D& d) {                    // [sign] digits [. digits]
    std::string g; bool neg = false, dot = false; size_t i = 0; d.s = 0; if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    for (; i < t.size(); ++i) { if (t[i] == '.') { if (dot) return false; dot = true; } else if (t[i] >= '0' && t[i] <= '9') { g += t[i]; if (dot) ++d.s; } else return false; }
    size_t z = g.find_first_not_of('0'); if (g.empty()) return false; d.v = z == std::string::npos ? Z(0) : Z(g.substr(z)); if (neg) d.v = -d.v; d = norm(d); return true;
}
static std::string dstr(const D& d) { return (d.v < 0 ? "-" : "") + [&] { std::string s = Z(abs(d.v)).str(); if (d.s) { while (s.size() <= d.s) s.insert(0, "0"); s.insert(s.size() - d.s, "."); } return s; }(); }
static Z at(const D& d, unsigned s) { return d.v * p10(s - d.s); }
static int cmp(const D& a, const D& b) { unsigned s = std::max(a.s, b.s); return at(a, s).compare(at(b, s)); }
static D add(const D& a, const D& b, int sg) { unsigned s = std::max(a.s, b.s); return norm(D{at(a, s) + sg * at(b, s), s}); }
static D mul(const D& a, const D& b) { return norm(D{a.v * b.v, a.s + b.s}); }
static void same(mc::Exec& e, const char* sig, const BigFloat& r, const D& d, const std::string& what) {
    e.transition(); std::string a = r.ToString().str(); D g; if (!dparse(a, g) || cmp(g, d)) e.fail(sig, "%s gives %s instead of %s", what.c_str(), a.c_str(), dstr(d).c_str());
    BigFloat again(a.c_str()); { size_t i = a[0] == '-'; if ((a[i] == '0' && i + 1 < a.size() && a[i + 1] != '.') || a[i] == '.' || (a.find('.') != std::string::npos && (a.back() == '0' || a.back() == '.'))) e.fail("shortest", "%s prints %s", what.c_str(), a.c_str()); } if (again != r || again.ToString().str() != a) e.fail("reparse", "%s prints %s, which does not read back as itself", what.c_str(), a.c_str());
}
static void pair(mc::Exec& e, const std::string& sx, const std::string& sy) {
    D x, y; dparse(sx, x); dparse(sy, y); MC_LOG(e, "x = %s; y = %s", sx.c_str(), sy.c_str()); e.state(mc::Hash().s(sx).s(sy)); const BigFloat a(sx.c_str()), b(sy.c_str());
    e.op("parse"); same(e, "parse", a, x, "parsing " + sx); same(e, "parse", b, y, "parsing " + sy);
    e.op("+"); same(e, "add", a + b, add(x, y, 1), sx + " + " + sy); e.op("-"); same(e, "sub", a - b, add(x, y, -1), sx + " - " + sy); e.op("*"); same(e, "mul", a * b, mul(x, y), sx + " * " + sy);
    e.op("compare"); int c = cmp(x, y); e.transition(8); if ((a < b) != (c < 0) || (a > b) != (c > 0) || (a <= b) != (c <= 0) || (a >= b) != (c >= 0) || (a == b) != (c == 0) || (a != b) != (c != 0)) e.fail("order", "comparison of %s and %s", sx.c_str(), sy.c_str());
    e.op("Abs"); same(e, "abs", a.Abs(), D{abs(x.v), x.s}, "Abs(" + sx + ")"); same(e, "chain", (a + b) - b, x, "(x + y) - y"); same(e, "chain", (a - b) + b, x, "(x - y) + y"); same(e, "operand-changed", a, x, "left operand afterwards"); e.outcome(mc::Hash().u(c + 1).u(x.s).u(y.s).u(x.v < 0).u(y.v < 0));
}
static std::string dec(mc::Exec& e, int lim) { int v = (int)e.choose(2 * lim + 1) - lim; std::string s = std::to_string(std::abs(v)); while (s.size() < 3) s.insert(0, "0"); s.insert(s.size() - 2, "."); return (v < 0 ? "-" : "") + s; }
MC_SECTION(dense) { int n = mc::tier(125, 330); std::string x = dec(e, n), y = dec(e, n); pair(e, x, y); }                          // hundredths
static std::string shaped(mc::Exec& e, unsigned ni, unsigned nf) { static const char* const in[] = {"0", "9", "10", "7", "99", "100", "1234567890123456789", "", "00", "5"}; static const char* const fr[] = {"", ".5", ".05", ".50", ".99", ".001", ".95", ".000000001", ".9999999999", ".123456789012345678901", ".0", "."}; std::string i = in[e.choose(ni)], f = fr[e.choose(nf)]; if (i.empty() && f.size() < 2) i = "0"; static const char* const sg[] = {"", "-"}; return e.pick(sg) + i + f; }
MC_SECTION(shapes) { unsigned i = mc::tier(7u, 10u), f = mc::tier(9u, 12u); std::string x = shaped(e, i, f), y = shaped(e, i, f); pair(e, x, y); }
MC_SECTION(text) {
    static const char* const al[] = {"0", "5", ".", "-", "+", "a", " ", "\xD9\xA3"}; std::string s; unsigned n = e.choose(mc::tier(6u, 7u)); for (unsigned i = 0; i < n; ++i) s += e.pick(al);
    D d; size_t dot = s.find('.'); bool ok = dparse(s, d), open = dot != std::string::npos && ((dot == 0 || (dot == 1 && !isdigit((unsigned char)s[0])))); if (s == "." || s == "-." || s == "+.") open = true;
    e.op("parse"); MC_LOG(e, "BigFloat(%s)", mc::quote(s).c_str()); e.state(mc::Hash().s(s)); e.outcome(ok); bool threw = false; std::string r; e.transition(); try { r = BigFloat(s.c_str()).ToString().str(); } catch (const std::exception&) { threw = true; }
    if (!ok && !open) e.check(threw, "accept", "BigFloat(%s) is accepted as %s", mc::quote(s).c_str(), r.c_str());
    if (ok && threw && !open) e.fail("reject", "BigFloat(%s) is rejected", mc::quote(s).c_str());
    if (ok && !threw) { D g; e.check(dparse(r, g) && cmp(g, d) == 0, "parse", "BigFloat(%s) prints %s", mc::quote(s).c_str(), r.c_str()); }
}
MC_SECTION(native) { int k = (int)e.choose(513) - 256; double v = k / 64.0; D d{Z(k) * 15625, 6}; d = norm(d); e.op("from double"); MC_LOG(e, "%g", v); e.state(k); same(e, "double", BigFloat(v), d, "BigFloat(" + dstr(d) + ")"); std::ostringstream o; o << BigFloat(v); D g; e.check(dparse(o.str(), g) && cmp(g, d) == 0, "stream", "operator<< gives %s", o.str().c_str()); same(e, "literal", "-1.05"_bigfloat, D{-105, 2}, "literal"); BigFloat z; e.check(z == BigFloat("0") && z == BigFloat("-0.00") && z + BigFloat(v) == BigFloat(v) && !(z < BigFloat("0.0")), "default", "default constructed number is not zero"); e.outcome(k < 0); }
MC_SECTION(histories) {
    BigFloat a("1.05"), b("-0.9"); D x{105, 2}, y{-9, 1};
    for (unsigned i = 0, n = mc::tier(4u, 5u); i < n; ++i) {
        static const char* const nm[] = {"a=a+b", "a=a-b", "a=b-a", "a=a*b", "b=b+b", "b=b-b", "swap", "a=Abs(a)", "b=a", "b=move(a);a=1", "a=a(self)", "a=a+0.1", "b=b*-0.5"}; unsigned k = e.choose(13); e.op(nm[k]); MC_LOG(e, "%s", nm[k]);
        switch (k) { case 0: a = a + b; x = add(x, y, 1); break; case 1: a = a - b; x = add(x, y, -1); break; case 2: a = b - a; x = add(y, x, -1); break; case 3: a = a * b; x = mul(x, y); break; case 4: b = b + b; y = add(y, y, 1); break; case 5: b = b - b; y = D{0, 0}; break; case 6: { BigFloat t(std::move(a)); a = std::move(b); b = std::move(t); std::swap(x, y); break; }
        case 7: a = a.Abs(); x.v = abs(x.v); break; case 8: b = a; y = x; break; case 9: b = std::move(a); a = BigFloat("1"); y = x; x = D{1, 0}; break; case 10: { BigFloat& r = a; a = r; break; } case 11: a = a + BigFloat("0.1"); x = add(x, D{1, 1}, 1); break; case 12: b = b * BigFloat("-0.5"); y = mul(y, D{-5, 1}); break; }
        same(e, "history", a, x, "a after the history"); same(e, "history", b, y, "b after the history"); int c = cmp(x, y); if ((a < b) != (c < 0) || (a == b) != (c == 0)) e.fail("history", "comparison of a and b after the history"); e.state(mc::Hash().s(dstr(x)).s(dstr(y)));
    }
    e.outcome(mc::Hash().s(dstr(x)));
}
static void quot(mc::Exec& e, const std::string& sx, const std::string& sy) {      // truncated towards zero, at least integer precision
    D x, y; dparse(sx, x); dparse(sy, y); e.op("/"); MC_LOG(e, "%s / %s", sx.c_str(), sy.c_str()); e.state(mc::Hash().s(sx).s(sy)); e.transition(); BigFloat a(sx.c_str()), b(sy.c_str());
    if (y.v == 0) { bool t = false; try { (void)(a / b); } catch (const std::exception&) { t = true; } e.check(t, "divide-by-zero", "%s / %s does not throw", sx.c_str(), sy.c_str()); return; }
    std::string r = (a / b).ToString().str(); D q; bool ok = dparse(r, q); D back = mul(q, y), rest = add(x, back, -1);
    e.check(ok && (rest.v == 0 || (rest.v < 0) == (x.v < 0)) && cmp(D{abs(rest.v), rest.s}, D{abs(y.v), y.s}) < 0 && (q.v == 0 || (q.v < 0) == ((x.v < 0) != (y.v < 0))), "div", "%s / %s gives %s", sx.c_str(), sy.c_str(), r.c_str()); e.outcome(rest.v == 0);
}
MC_SECTION(division) { int n = mc::tier(30, 90); static const int sc[] = {1, 7, 25}; auto f = [&](int v, int k) { D d = norm(D{Z(v) * k, 2}); return dstr(d); }; int x = (int)e.choose(2 * n + 1) - n, y = (int)e.choose(2 * n + 1) - n; int k = e.pick(sc); quot(e, f(x, k), f(y, 5)); }
MC_SECTION(division_shapes) { std::string x = shaped(e, 7, 9), y = shaped(e, 6, 7); quot(e, x, y); }
MC_SECTION(power) { std::string s = dec(e, 30); int k = e.choose(7); D x, z{1, 0}; dparse(s, x); for (int i = 0; i < k; ++i) z = mul(z, x); e.op("Pow"); MC_LOG(e, "Pow(%s,%d)", s.c_str(), k); e.state(mc::Hash().s(s).u(k)); same(e, "pow", BigFloat(s.c_str()).Pow(k), z, s + " to the power " + std::to_string(k)); if (k == 2) same(e, "sqr", BigFloat(s.c_str()).Sqr(), z, s + " squared"); bool t = false; try { (void)BigFloat(s.c_str()).Pow(-1); } catch (const std::exception&) { t = true; } e.check(t, "pow-negative", "negative exponent does not throw"); e.outcome(k); }
MC_SECTION(roots) {
    unsigned n = e.choose(mc::tier(420u, 1300u)); D x = norm(D{n, 2}); std::string s = dstr(x); e.op("Sqrt"); MC_LOG(e, "Sqrt(%s)", s.c_str()); e.state(n); e.transition(); std::string r = BigFloat(s.c_str()).Sqrt().ToString().str(); D q; bool ok = dparse(r, q) && q.v >= 0; D q1 = add(q, D{1, 0}, 1); e.check(ok && cmp(mul(q, q), x) <= 0 && cmp(x, mul(q1, q1)) < 0, "sqrt", "Sqrt(%s) gives %s", s.c_str(), r.c_str());
    unsigned w = 0; while (w * w < n) ++w; if (w * w == n) e.check(cmp(mul(q, q), x) == 0, "sqrt-exact", "Sqrt(%s) gives %s", s.c_str(), r.c_str()); bool t = false; try { (void)BigFloat("-0.25").Sqrt(); } catch (const std::exception&) { t = true; } e.check(t, "sqrt-negative", "root of a negative number does not throw"); e.outcome(w * w == n);
}
MC_SECTION(long_numbers, true, false, 0, true, 60) {     // as many digits before and after the point as a narrow count could not hold
    static const unsigned len[] = {1, 127, 128, 129, 254, 255, 256, 257, 300, 1000}; unsigned i = e.pick(len), f = e.pick(len), k = e.choose(4), n = e.choose(2); if (i == 1000 && f == 1000 && mc::tier(1, 0)) return;
    std::string x = std::string(i, '9') + "." + std::string(f - 1, k & 1 ? '0' : '9') + "5"; std::string y = k < 2 ? "0." + std::string(f - 1, '0') + "5" : k == 2 ? "7.5" : std::string(i, '1'); if (n) y = "-" + y; pair(e, x, y);
}
MC_SECTION(scale, true, false, 0, true, 60) {            // carries over the decimal point and through n decimals
    unsigned n = e.pick(kScale), k = e.choose(5); if (n > mc::tier(5000u, 200000u)) return; std::string nines(n, '9'), zeros(n, '0'); BigFloat a(("0." + nines).c_str()), u(("0." + zeros.substr(1) + "1").c_str()), r; e.op("long decimals"); MC_LOG(e, "%u decimals, kind %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(); std::string w;
    switch (k) { case 0: r = a + u; w = "1"; break; case 1: r = BigFloat("1") - u; w = "0." + nines; break; case 2: r = a * BigFloat("2"); w = "1." + nines.substr(1) + "8"; break; case 3: r = u * BigFloat("0.01"); w = "0.00" + zeros.substr(1) + "1"; break; case 4: r = a - BigFloat("1"); w = "-0." + zeros.substr(1) + "1"; break; }
    std::string g = r.ToString().str(); e.check(g == w, "long-decimals", "operation %u on numbers with %u decimals gives %zu characters instead of %zu, or other digits: %s", k, n, g.size(), w.size(), g.substr(0, 40).c_str());
    e.check(a < BigFloat("1") && BigFloat("1") > a && u > BigFloat("0") && u < a && a != u && BigFloat(("3." + zeros).c_str()) == BigFloat("3"), "order", "ordering of numbers with %u decimals", n);
}
}
