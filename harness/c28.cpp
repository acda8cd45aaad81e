#include <chrono>
#include <cmath>
#include "mc.hpp"
#include <Caitlyn/Utility>
// the clock is an input: while g_fake is set every question is answered with the enumerated value
static bool g_fake; static long long g_clock; static unsigned g_asked;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { if (g_fake) { g_asked++; return time_point(duration(g_clock)); } struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec)); } } } }
using namespace Caitlyn;
namespace hx {
// seeds whose first draw lies closest to either end of the engine's range, found by searching all seeds below 2^28
static const long long EXTREME[] = {156055679, 134316199, 128490876, 202146547, 7326889, 36899063, 39837749, 5322908, 59189728, 138998913, 224345317, 240845163, 198092958, 262899519, 168208965, 58050496};
static const unsigned NX = 16 + 8;
static long long special(unsigned i) { static const long long M[] = {0, 1, -1, LLONG_MIN, LLONG_MAX, 1LL << 32, (1LL << 31) - 1, 1LL << 53}; return i < 16 ? EXTREME[i] : M[i - 16]; }
template <class T> static T at(long long clock, T a, T b) { g_clock = clock; g_fake = true; T r; try { r = Random<T>(a, b); } catch (...) { g_fake = false; throw; } g_fake = false; return r; }
template <class T> static std::string sh(T v) { std::ostringstream o; o << std::setprecision(21) << v; return o.str(); }
template <class T> static void one(mc::Exec& e, const char* ty, long long clock, T a, T b, T* out = nullptr) { T r = at<T>(clock, a, b); e.transition(); if (!(r >= a && r <= b)) e.fail("out-of-range", "Random<%s>(%s, %s) with the clock at %lld gives %s", ty, sh(a).c_str(), sh(b).c_str(), clock, sh(r).c_str()); if (out) *out = r; }
// all ranges of up to 9 values around the ends and the middle of the type; every value has to come up
template <class T> static void small(mc::Exec& e, const char* ty) {
    typedef std::numeric_limits<T> L; static const int W = 9; unsigned w = e.choose(W), c = e.choose(5), o = e.choose(9); const T base = c == 0 ? L::min() : c == 1 ? (T)(L::max() - W - 8) : c == 2 ? (T)(L::max() / 2 - 4) : c == 3 ? (T)((T)0 - (L::is_signed ? 8 : 0)) : (T)(L::min() / 2 + 4);
    const T a = (T)(base + (T)o), b = (T)(a + (T)w); e.op("Random"); MC_LOG(e, "%s %s..%s", ty, sh(a).c_str(), sh(b).c_str()); std::vector<unsigned> seen(w + 1); const int N = mc::tier(600, 20000);
    for (int k = 0; k < N; ++k) { T r; one<T>(e, ty, k < (int)NX ? special((unsigned)k) : (long long)k * 1000003 + 12345, a, b, &r); seen[(size_t)(r - a)]++; if ((k & 1023) == 0) e.beat(); }
    for (unsigned i = 0; i <= w; ++i) if (!seen[i]) e.fail("unreachable", "Random<%s>(%s, %s): %s never comes up with %d clock answers", ty, sh(a).c_str(), sh(b).c_str(), sh((T)(a + (T)i)).c_str(), N);
}
template <class T> static void wide(mc::Exec& e, const char* ty, const std::vector<T>& v) {
    unsigned i = e.choose((unsigned)v.size()), j = e.choose((unsigned)v.size()); if (!(v[i] <= v[j])) return; e.op("Random"); MC_LOG(e, "%s %s..%s", ty, sh(v[i]).c_str(), sh(v[j]).c_str()); const int N = mc::tier(300, 20000); T r; std::set<T> seen;
    for (int k = 0; k < N; ++k) { one<T>(e, ty, k < (int)NX ? special((unsigned)k) : (long long)k * 1000003 + 7, v[i], v[j], &r); seen.insert(r); if ((k & 1023) == 0) e.beat(); } 
    if (v[i] != v[j] && seen.size() < 2) e.fail("constant", "Random<%s>(%s, %s) is always %s", ty, sh(v[i]).c_str(), sh(v[j]).c_str(), sh(r).c_str());
}
template <class T> static std::vector<T> iset() { typedef std::numeric_limits<T> L; std::vector<T> v = {L::min(), (T)(L::min() + 1), (T)(L::min() / 2), (T)0, (T)1, (T)100, (T)(L::max() / 2), (T)(L::max() / 2 + 1), (T)(L::max() - 1), L::max()}; if (L::is_signed) { v.push_back((T)-1); v.push_back((T)-100); } for (unsigned s = 7; s < sizeof(T) * 8 - 1; s += 8) v.push_back((T)((T)1 << s)); return v; }
template <class T> static std::vector<T> rset() { typedef std::numeric_limits<T> L; std::vector<T> v = {(T)0, L::denorm_min(), L::min(), L::epsilon(), (T)1e-9L, (T)0.1L, (T)0.5L, (T)1, std::nextafter((T)1, (T)2), (T)1.5L, (T)3, (T)1e9L, (T)123456789, L::max() / 4, L::max() / 2, L::max()}; for (size_t n = v.size(), i = 0; i < n; ++i) v.push_back(-v[i]); return v; }
#define T16(X) X(Int16) X(UInt16) X(Int32) X(UInt32) X(Int64) X(UInt64)
MC_SECTION(small_ranges, true, false, true) { unsigned k = e.choose(6), i = 0; 
#define X(t) if (k == i++) small<t>(e, #t);
    T16(X)
#undef X
}
MC_SECTION(wide_ranges, true, false, true) { unsigned k = e.choose(6), i = 0;
#define X(t) if (k == i++) wide<t>(e, #t, iset<t>());
    T16(X)
#undef X
}
MC_SECTION(reals, true, false, true) { switch (e.choose(3)) { case 0: wide<Float>(e, "Float", rset<Float>()); break; case 1: wide<Double>(e, "Double", rset<Double>()); break; case 2: wide<Decimal>(e, "Decimal", rset<Decimal>()); break; } }
template <class T> static void defaults(mc::Exec& e, const char* ty) { typedef std::numeric_limits<T> L; std::set<T> seen; for (unsigned k = 0; k < NX + 200; ++k) { g_clock = k < NX ? special(k) : k * 7919; g_fake = true; T r = Random<T>(); T s = Random<T>((T)5); g_fake = false; e.transition(2); if (!(r >= L::min() && r <= L::max())) e.fail("out-of-range", "Random<%s>() gives %s", ty, sh(r).c_str()); if (!(s >= (T)5 && s <= L::max())) e.fail("out-of-range", "Random<%s>(5) gives %s", ty, sh(s).c_str()); seen.insert(r); } if (seen.size() < 100) e.fail("constant", "Random<%s>() gives only %zu values", ty, seen.size()); }
MC_SECTION(default_bounds, true) { e.op("Random()"); unsigned k = e.choose(9), i = 0;
#define X(t) if (k == i++) defaults<t>(e, #t);
    T16(X) X(Float) X(Double) X(Decimal)
#undef X
}
MC_SECTION(booleans, true) {
    const double I = std::numeric_limits<double>::infinity(), N = std::numeric_limits<double>::quiet_NaN(); const double P[] = {0, 1, 0.5, 0.1, 0.9, -0.0, 1e-300, std::nextafter(1.0, 0.0), -1e-300, std::nextafter(1.0, 2.0), -1, 2, 50, 100, I, -I, N, -N}; double p = P[e.choose(sizeof P / sizeof *P)]; bool ok = p >= 0 && p <= 1; e.op("RandomBoolean"); MC_LOG(e, "%g", p); unsigned t = 0, f = 0;
    for (unsigned k = 0; k < NX + 2000; ++k) { g_clock = k < NX ? special(k) : k * 1000003LL; g_fake = true; int threw = 0; bool r = false; try { r = RandomBoolean(p); } catch (const std::invalid_argument&) { threw = 1; } catch (...) { threw = 2; } g_fake = false; e.transition(); if (ok ? threw : threw != 1) e.fail("rejection", "RandomBoolean(%g) %s", p, threw ? "throws" : "does not throw invalid_argument"); if (!threw) (r ? t : f)++; }
    if (!ok) return; if (p == 0 && t) e.fail("boolean", "RandomBoolean(0) gives true"); if (p == 1 && f) e.fail("boolean", "RandomBoolean(1) gives false"); if (p >= 0.1 && p <= 0.9 && (!t || !f)) e.fail("boolean", "RandomBoolean(%g) always gives %d", p, !!t);
    if (p == 0.5) { if (t < 700 || f < 700) e.fail("bias", "RandomBoolean(0.5): %u true, %u false", t, f); g_fake = true; g_clock = 1; RandomBoolean(); g_fake = false; }
    if ((p == 0.1 && t > f) || (p == 0.9 && f > t)) e.fail("bias", "RandomBoolean(%g): %u true, %u false", p, t, f);
}
}
