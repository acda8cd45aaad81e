#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include <sstream>
#include <boost/multiprecision/cpp_int.hpp>
#include "Caitlyn/__Numeric/Types.h"
using namespace Caitlyn;
typedef boost::multiprecision::cpp_int Z;
namespace hx {
static std::string zs(const Z& z) { return z.str(); }
static void same(mc::Exec& e, const char* sig, const BigInteger& r, const Z& z, const std::string& what) {
    e.transition(); std::string a = r.ToString().str(), b = zs(z);
    if (a != b) e.fail(sig, "%s gives %s instead of %s", what.c_str(), a.c_str(), b.c_str());
    if (r.Size() != (z == 0 ? 0 : b.size() - (b[0] == '-'))) e.fail("size", "%s: Size() is %zu", what.c_str(), (size_t)r.Size());
}
static void pair(mc::Exec& e, const Z& x, const Z& y) {
    std::string sx = zs(x), sy = zs(y); MC_LOG(e, "x = %s; y = %s", sx.c_str(), sy.c_str()); e.state(mc::Hash().s(sx).s(sy));
    const BigInteger a(sx.c_str()), b(sy.c_str()); same(e, "parse", a, x, "parsing " + sx); same(e, "parse", b, y, "parsing " + sy);
    e.op("+"); same(e, "add", a + b, x + y, sx + " + " + sy); same(e, "add", a.Add(b), x + y, sx + ".Add(" + sy + ")");
    e.op("-"); same(e, "sub", a - b, x - y, sx + " - " + sy); same(e, "sub", a.Subtract(b), x - y, sx + ".Subtract(" + sy + ")");
    e.op("*"); same(e, "mul", a * b, x * y, sx + " * " + sy); same(e, "mul", a.Multiply(b), x * y, sx + ".Multiply(" + sy + ")");
    e.op("compare"); int c = x.compare(y); e.transition(9);
    if ((a < b) != (c < 0) || a.LessThan(b) != (c < 0) || (a > b) != (c > 0) || a.GreaterThan(b) != (c > 0)) e.fail("order", "ordering of %s and %s", sx.c_str(), sy.c_str());
    if ((a <= b) != (c <= 0) || (a >= b) != (c >= 0) || (a == b) != (c == 0) || (a != b) != (c != 0) || a.Equal(b) != (c == 0)) e.fail("order", "comparison operators on %s and %s", sx.c_str(), sy.c_str());
    e.op("Abs"); same(e, "abs", a.Abs(), abs(x), "Abs of " + sx);
    e.op("operands"); same(e, "operand-changed", a, x, "the left operand after the operations"); same(e, "operand-changed", b, y, "the right operand after the operations");
    // results are ordinary values: use them again
    e.op("reuse"); BigInteger s = a + b, d = a - b, p = a * b;
    if ((s == d) != (x + y == x - y) || (s < p) != (x + y < x * y) || (d == BigInteger("0")) != (x == y) || (p == BigInteger("0")) != (x * y == 0)) e.fail("canonical", "results of operations on %s and %s do not compare as values", sx.c_str(), sy.c_str());
    same(e, "chain", s - b, x, "(" + sx + " + " + sy + ") - " + sy); same(e, "chain", d + b, x, "(" + sx + " - " + sy + ") + " + sy);
    e.outcome(mc::Hash().u(c + 1).u(x < 0).u(y < 0).u(x + y == 0).u(zs(x + y).size() > std::max(sx.size(), sy.size())));
}
MC_SECTION(dense) { int n = mc::tier(105, 350); Z x = e.choose(2 * n + 1), y = e.choose(2 * n + 1); pair(e, x - n, y - n); }
static Z p10(unsigned k) { Z z = 1; while (k--) z *= 10; return z; }
MC_SECTION(boundaries) {          // around powers of ten: carries and borrows across the whole number
    unsigned ks = mc::tier(7u, 12u); static const unsigned kk[] = {1, 2, 3, 5, 9, 18, 30, 4, 7, 10, 19, 20};
    Z x = p10(kk[e.choose(ks)]) + (int)e.choose(5) - 2, y = p10(kk[e.choose(ks)]) + (int)e.choose(5) - 2; if (e.flag()) x = -x; if (e.flag()) y = -y; pair(e, x, y);
}
static Z pattern(mc::Exec& e) {   // repeated digit patterns of many lengths
    static const char* const pat[] = {"9", "1", "10", "90", "5", "49", "100", "8", "7", "123456789"}; static const unsigned len[] = {1, 2, 8, 9, 10, 17, 40, 64, 3, 5, 16, 18, 19, 20, 33};
    std::string p = pat[e.choose(mc::tier(6u, 10u))]; unsigned n = len[e.choose(mc::tier(7u, 15u))]; std::string s; while (s.size() < n) s += p; s.resize(n); Z z(s); return e.flag() ? Z(-z) : z;
}
MC_SECTION(patterns) { Z x = pattern(e), y = pattern(e); pair(e, x, y); }
MC_SECTION(digits) {              // every pair of numbers over the digits 0, 5 and 9
    unsigned len = mc::tier(4u, 5u); auto num = [&]() { static const char d[] = {'0', '5', '9'}; std::string s; for (unsigned i = 0; i < len; ++i) s += e.pick(d); size_t i = s.find_first_not_of('0'); return Z(i == std::string::npos ? std::string("0") : s.substr(i)); };
    Z x = num(), y = num(); if (e.flag()) y = -y; pair(e, x, y);
}
MC_SECTION(text) {                // which texts are numbers, and what they denote
    static const char* const al[] = {"0", "1", "9", "-", "+", " ", ".", "a", "/", ":", "\xD9\xA3", "\xEF\xBC\x93", "\xF0\x9D\x9F\x8E"};
    std::string s; unsigned n = e.choose(mc::tier(5u, 6u)); std::vector<std::string> c; for (unsigned i = 0; i < n; ++i) { c.push_back(e.pick(al)); s += c.back(); }
    size_t i = 0; if (!c.empty() && (c[0] == "-" || c[0] == "+")) i = 1; bool ok = i < c.size(); for (size_t k = i; k < c.size(); ++k) ok = ok && c[k].size() == 1 && c[k][0] >= '0' && c[k][0] <= '9';
    e.op("parse"); MC_LOG(e, "BigInteger(%s)", mc::quote(s).c_str()); e.state(mc::Hash().s(s)); e.outcome(ok);
    for (int k = 0; k < 2; ++k) {
        bool threw = false; std::string r; e.transition();
        try { BigInteger b = k ? BigInteger(String(s.c_str())) : BigInteger(s.c_str()); r = b.ToString().str(); } catch (const std::exception&) { threw = true; }
        if (threw == ok) e.fail("accept", "BigInteger(%s) %s", mc::quote(s).c_str(), ok ? "is rejected" : ("is accepted as " + r).c_str());
        if (ok) { size_t z = s.find_first_not_of('0', i); std::string d = z == std::string::npos ? "0" : s.substr(z); if (s[0] == '-' && d != "0") d = "-" + d; if (r != d) e.fail("parse", "BigInteger(%s) prints %s instead of %s", mc::quote(s).c_str(), r.c_str(), d.c_str()); }
    }
}
MC_SECTION(native) {              // construction from machine integers, literals, default, streams
    static const int64_t v[] = {0, 1, -1, 9, 10, -10, 99, 100, 255, 256, 65535, 65536, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, 999999999999999999LL, 1000000000000000000LL, INT64_MAX, INT64_MIN, INT64_MIN + 1};
    int64_t x = e.pick(v); e.op("from integer"); MC_LOG(e, "%lld", (long long)x); e.state(x); same(e, "int64", BigInteger(x), Z(x), "BigInteger(int64_t)"); same(e, "uint64", BigInteger((uint64_t)x), Z((uint64_t)x), "BigInteger(uint64_t)");
    std::ostringstream o; o << BigInteger(x) << '|' << std::setw(3) << BigInteger(x); e.check(o.str().find(zs(x)) == 0, "stream", "operator<< gives %s", o.str().c_str());
    same(e, "literal", "-120"_bigint, Z(-120), "literal"); BigInteger d; same(e, "default", d, Z(0), "default"); e.check(d == BigInteger("0") && d == BigInteger("-0") && !(d < BigInteger("0")) && d.Add(BigInteger(x)) == BigInteger(x) && BigInteger(x) * d == d && d.Subtract(BigInteger(x)) == BigInteger(x) * BigInteger("-1"), "default", "default constructed number is not zero");
    e.outcome(x < 0);
}
static void chain(mc::Exec& e, unsigned depth) {   // histories over two numbers with copies, moves and self reference
    BigInteger a("7"), b("-3"); Z x = 7, y = -3; std::string log;
    for (unsigned i = 0; i < depth; ++i) {
        static const char* const nm[] = {"a=a+b", "a=a-b", "a=b-a", "a=a*b", "b=b+b", "b=b-b", "a=a*a", "swap", "a=Abs(a)", "b=a", "b=move(a);a=1", "a=a(self)", "a=a+99", "b=b*-1", "b=copy(a)-1", "a=10^k"}; unsigned k = e.choose(16); e.op(nm[k]); MC_LOG(e, "%s", nm[k]);
        switch (k) {
        case 0: a = a + b; x += y; break; case 1: a = a - b; x -= y; break; case 2: a = b - a; x = y - x; break; case 3: a = a * b; x *= y; break;
        case 4: b = b + b; y += Z(y); break; case 5: b = b - b; y = 0; break; case 6: a = a * a; x = x * x; break; case 7: { BigInteger t(std::move(a)); a = std::move(b); b = std::move(t); swap(x, y); break; }
        case 8: a = a.Abs(); x = abs(x); break; case 9: b = a; y = x; break; case 10: b = std::move(a); a = BigInteger("1"); y = x; x = 1; break; case 11: { BigInteger& r = a; a = r; break; }
        case 12: a = a + BigInteger("99"); x += 99; break; case 13: b = b * BigInteger("-1"); y = -y; break; case 14: { BigInteger t(a); b = t - BigInteger("1"); y = x - 1; break; } case 15: a = BigInteger("1000") * a; x *= 1000; break;
        }
        same(e, "history", a, x, "a after the history"); same(e, "history", b, y, "b after the history"); int c = x.compare(y); if ((a < b) != (c < 0) || (a == b) != (c == 0) || (a > b) != (c > 0)) e.fail("history", "comparison of a and b after the history");
        e.state(mc::Hash().s(zs(x)).s(zs(y)));
    }
    e.outcome(mc::Hash().s(zs(x)));
}
MC_SECTION(histories) { chain(e, mc::tier(4u, 5u)); }
static std::string rep(const char* p, unsigned n) { std::string s; for (size_t l = strlen(p), i = 0; i < n; ++i) s += p[i % l]; return s; }
MC_SECTION(long_numbers, true, false, 0, true, 60) {     // numbers with as many digits as a narrow count could not hold
    static const unsigned len[] = {127, 128, 129, 254, 255, 256, 257, 258, 300, 1000}; static const char* const pat[] = {"9", "10", "1234567890"}; unsigned n = e.pick(len), m = e.choose(2) ? n : e.choose(2) ? 3 : e.pick(len); unsigned p = e.choose(3), q = e.choose(3);
    Z x(rep(pat[p], n)), y(rep(pat[q], m)); if (e.flag()) y = -y; if (n == 1000 && m == 1000 && p != q && mc::tier(1, 0)) return; pair(e, x, y);
}
MC_SECTION(scale, true, false, 0, true, 60) {            // carries and borrows through every digit of a number of n digits
    unsigned n = e.pick(kScale), k = e.choose(7); std::string nines(n, '9'), ten = "1" + std::string(n, '0'); BigInteger a(nines.c_str()), b(ten.c_str()), one("1"); e.op("long carries"); MC_LOG(e, "%u digits, kind %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(); BigInteger r; std::string w;
    switch (k) { case 0: r = a + one; w = ten; break; case 1: r = b - one; w = nines; break; case 2: r = one - b; w = "-" + nines; break; case 3: r = a * BigInteger("8"); w = "7" + std::string(n - 1, '9') + "2"; break; case 4: r = a + a; w = "1" + std::string(n - 1, '9') + "8"; break; case 5: r = b - a; w = "1"; break; case 6: r = BigInteger(("000-" + nines).c_str() + 3).Abs(); w = nines; break; }
    std::string g = r.ToString().str(); e.check(g == w, "long-carry", "operation %u on numbers of %u digits gives %zu characters instead of %zu, or other digits", k, n, g.size(), w.size()); e.check(a.Size() == n && b.Size() == n + 1u && r.Size() == w.size() - (w[0] == '-'), "size", "Size() of numbers of about %u digits is wrong", n);
    e.check(a < b && b > a && a <= b && b >= a && !(a == b) && a != b && a == BigInteger(nines.c_str()) && one - b < one - a, "order", "ordering of numbers of %u and %u digits", n, n + 1); std::string c = nines; c.back() = '8'; BigInteger d(c.c_str()); e.check(d < a && a > d && d != a && a - d == one, "order", "ordering of numbers of %u digits that differ in the last one", n);
    e.check(BigInteger((std::string(n, '0') + "7").c_str()) == BigInteger("7"), "parse", "%u leading zeros change a number", n);
}
}
