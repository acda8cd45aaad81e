#include "mc.hpp"
#include "sizes.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include "Caitlyn/__Numeric/Types.h"
using namespace Caitlyn;
typedef boost::multiprecision::cpp_int Z;
namespace hx {
static std::string zs(const Z& z) { return z.str(); }
static void same(mc::Exec& e, const char* sig, const BigInteger& r, const Z& z, const std::string& what) { e.transition(); std::string a = r.ToString().str(), b = zs(z); if (a != b) e.fail(sig, "%s gives %s instead of %s", what.c_str(), a.c_str(), b.c_str()); if (r != BigInteger(b.c_str())) e.fail(sig, "%s prints %s but does not compare equal to it", what.c_str(), a.c_str()); }
static void pair(mc::Exec& e, const Z& x, const Z& y) {
    std::string sx = zs(x), sy = zs(y); MC_LOG(e, "x = %s; y = %s", sx.c_str(), sy.c_str()); e.state(mc::Hash().s(sx).s(sy)); const BigInteger a(sx.c_str()), b(sy.c_str());
    if (y == 0) {
        int t = 0; e.transition(4); try { (void)(a / b); } catch (const std::exception&) { ++t; } try { (void)(a % b); } catch (const std::exception&) { ++t; } try { (void)a.Divide(b); } catch (const std::exception&) { ++t; } try { (void)a.Modulo(b); } catch (const std::exception&) { ++t; }
        if (t != 4) e.fail("divide-by-zero", "%s / 0 does not throw", sx.c_str()); e.outcome(9); return;
    }
    e.op("/"); same(e, "div", a / b, x / y, sx + " / " + sy); same(e, "div", a.Divide(b), x / y, sx + ".Divide(" + sy + ")");
    e.op("%"); same(e, "mod", a % b, x % y, sx + " % " + sy); same(e, "mod", a.Modulo(b), x % y, sx + ".Modulo(" + sy + ")");
    same(e, "operand-changed", a, x, "left operand afterwards"); same(e, "operand-changed", b, y, "right operand afterwards"); e.outcome(mc::Hash().u(x < 0).u(y < 0).u(x % y == 0).u(x / y == 0));
}
static Z p10(unsigned k) { Z z = 1; while (k--) z *= 10; return z; }
MC_SECTION(dense) { int n = mc::tier(60, 250); Z x = e.choose(2 * n + 1), y = e.choose(2 * n + 1); pair(e, x - n, y - n); }
MC_SECTION(wide_by_digit) { Z x = e.choose(mc::tier(2100u, 30000u)), y = e.choose(23); pair(e, x, y - 11); }   // every quotient digit
MC_SECTION(boundaries) {
    unsigned ks = mc::tier(6u, 10u); static const unsigned kk[] = {1, 2, 3, 6, 12, 20, 4, 5, 9, 30};
    Z x = p10(kk[e.choose(ks)]) + (int)e.choose(5) - 2, y = p10(kk[e.choose(ks)]) + (int)e.choose(5) - 2; if (e.flag()) x = -x; if (e.flag()) y = -y; pair(e, x, y);
}
static Z pattern(mc::Exec& e, unsigned lens) {
    static const char* const pat[] = {"9", "1", "10", "90", "49", "5", "100", "8", "7", "123456789"}; static const unsigned len[] = {1, 2, 8, 9, 19, 33, 3, 5, 10, 16, 18, 20, 40, 60};
    std::string p = pat[e.choose(mc::tier(5u, 10u))]; unsigned n = len[e.choose(lens)]; std::string s; while (s.size() < n) s += p; s.resize(n); return Z(s);
}
MC_SECTION(patterns) { Z x = pattern(e, mc::tier(6u, 14u)), y = pattern(e, mc::tier(6u, 14u)); if (e.flag()) x = -x; if (e.flag()) y = -y; pair(e, x, y); }
MC_SECTION(exact_multiples) {     // q*y + r for small q, r: quotient digit selection at its boundary
    static const char* const ys[] = {"7", "19", "99", "101", "999", "1001", "123456789", "9999999999", "10000000001"}; Z y(e.pick(ys)), q = e.choose(mc::tier(45u, 220u)); static const int rr[] = {-1, 0, 1}; Z x = q * y + e.pick(rr); if (e.flag()) x = -x; pair(e, x, y);
}
MC_SECTION(power) {
    int n = (int)e.choose(mc::tier(65u, 261u)) - mc::tier(32, 130), k = e.choose(mc::tier(13u, 26u)); std::string sx = zs(n); e.op("Pow"); MC_LOG(e, "Pow(%d, %d)", n, k); e.state(mc::Hash().u(n).u(k)); Z z = 1; for (int i = 0; i < k; ++i) z *= n;
    same(e, "pow", BigInteger(sx.c_str()).Pow(k), z, sx + " to the power " + std::to_string(k)); e.outcome(mc::Hash().u(n < 0).u(k % 2));
    if (k == 2) { e.op("Sqr"); same(e, "sqr", BigInteger(sx.c_str()).Sqr(), z, sx + " squared"); }
}
MC_SECTION(power_large) {
    static const char* const b[] = {"0", "1", "-1", "2", "-2", "10", "-10", "99", "12345678901234567890", "-99999999999"}; static const int k[] = {0, 1, 2, 3, 5, 16, 17, 31, 33, 64, 100, 127}; std::string s = e.pick(b); int n = e.pick(k);
    if (s.size() > 5 && n > 17) return; e.op("Pow"); MC_LOG(e, "Pow(%s, %d)", s.c_str(), n); e.state(mc::Hash().s(s).u(n)); Z z = 1; for (int i = 0; i < n; ++i) z *= Z(s); same(e, "pow", BigInteger(s.c_str()).Pow(n), z, s + " to the power " + std::to_string(n));
    bool t = false; try { (void)BigInteger(s.c_str()).Pow(-n - 1); } catch (const std::exception&) { t = true; } e.check(t, "pow-negative", "negative exponent does not throw"); e.outcome(n);
}
static void root(mc::Exec& e, const Z& x) {
    std::string s = zs(x); e.op("Sqrt"); MC_LOG(e, "Sqrt(%s)", s.c_str()); e.state(mc::Hash().s(s)); e.beat();
    if (x < 0) { bool t = false; try { (void)BigInteger(s.c_str()).Sqrt(); } catch (const std::exception&) { t = true; } e.check(t, "sqrt-negative", "Sqrt(%s) does not throw", s.c_str()); e.outcome(2); return; }
    Z r = sqrt(x); same(e, "sqrt", BigInteger(s.c_str()).Sqrt(), r, "Sqrt(" + s + ")"); e.outcome(r * r == x);
}
MC_SECTION(roots) { root(e, Z((int)e.choose(mc::tier(1225u, 12000u))) - 20); }
MC_SECTION(roots_near_squares) { static const char* const b[] = {"31", "99", "100", "101", "316", "999", "1000", "3162", "65535", "65536", "99999"}; Z z(b[e.choose(mc::tier(8u, 11u))]); root(e, z * z + (int)e.choose(5) - 2); }
static std::string rep(const char* p, unsigned n) { std::string s; for (size_t l = strlen(p), i = 0; i < n; ++i) s += p[i % l]; return s; }
MC_SECTION(long_numbers, true, false, 0, true, 60) {
    static const unsigned len[] = {127, 128, 129, 254, 255, 256, 257, 258, 300}; static const char* const pat[] = {"9", "10", "1234567890"}; unsigned n = e.pick(len), k = e.choose(4), p = e.choose(3); Z x(rep(pat[p], n)), y(k == 0 ? std::string("7") : k == 1 ? rep("98", n / 2) : k == 2 ? rep("31", n - 1) : rep("9", n)); if (e.flag()) y = -y; pair(e, x, y);
}
MC_SECTION(long_quotients, true, false, 0, true, 60) { unsigned n = e.pick(kScale), k = e.choose(4); if (n > mc::tier(1000u, 5000u)) return; static const char* const d[] = {"1", "3", "9", "11"}; Z x(std::string(n, '9')), y(d[k]); pair(e, x, y); }
MC_SECTION(long_powers, true, false, 0, true, 60) {      // exponents next to the powers of two, of bases whose powers are short
    static const int k[] = {126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512}; static const char* const b[] = {"1", "-1", "0", "2", "-2", "10"}; int n = e.pick(k); std::string s = e.pick(b); e.op("Pow"); MC_LOG(e, "Pow(%s, %d)", s.c_str(), n); e.state(mc::Hash().s(s).u(n)); Z z = 1; for (int i = 0; i < n; ++i) z *= Z(s); same(e, "pow", BigInteger(s.c_str()).Pow(n), z, s + " to the power " + std::to_string(n)); e.outcome(n);
}
MC_SECTION(unit_powers) { static const int k[] = {1000, 32767, 32768, 65535, 65536, 65537, 1000000, 16777216, 16777217, 2147483646, 2147483647}; int n = e.pick(k); unsigned b = e.choose(3); e.op("Pow"); MC_LOG(e, "power %d of %d", n, (int)b - 1); e.state(mc::Hash().u(n).u(b)); same(e, "pow", BigInteger(zs(Z((int)b - 1)).c_str()).Pow(n), b == 0 ? Z(n % 2 ? -1 : 1) : Z(b == 2), "a unit to the power " + std::to_string(n)); }
MC_SECTION(long_roots, true, false, 0, true, 60) { static const unsigned len[] = {10, 20, 40, 64, 65, 100}; unsigned n = e.pick(len); if (n > mc::tier(20u, 65u)) return; Z z(rep("73", n)); root(e, z * z + (int)e.choose(3) - 1); }
}
