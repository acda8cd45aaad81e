#include "mc.hpp"
#include <Caitlyn/Utility>
using namespace Caitlyn;
namespace hx {
typedef __int128 W;
template <class T, class U> static void judge(mc::Exec& e, const char* tn, const char* un, T a, U b) {
    const W x = (W)a, y = (W)b; e.transition(6);
    struct { const char* n; bool got, want; } r[] = {{"cmp_eq", cmp_eq(a, b), x == y}, {"cmp_ne", cmp_ne(a, b), x != y}, {"cmp_less", cmp_less(a, b), x < y}, {"cmp_greater", cmp_greater(a, b), x > y}, {"cmp_le", cmp_le(a, b), x <= y}, {"cmp_ge", cmp_ge(a, b), x >= y}};
    for (auto& k : r) if (k.got != k.want) e.fail(k.n, "%s(%s %s, %s %s) is %d", k.n, tn, std::to_string(a).c_str(), un, std::to_string(b).c_str(), k.got);
}
// boundary values of every integer type, cut to T; near 0, near every power of two of both signs, near the limits
template <class T> static std::vector<T> values() {
    std::set<T> s; typedef std::numeric_limits<T> L; for (unsigned p = 0; p < sizeof(T) * 8; ++p) for (int d = -2; d <= 2; ++d) { unsigned long long v = (1ULL << p) + (unsigned long long)(long long)d; s.insert((T)v); s.insert((T)(0ULL - v)); } for (int d = 0; d <= 3; ++d) { s.insert((T)(L::max() - (T)d)); s.insert((T)(L::min() + (T)d)); s.insert((T)d); } 
    return std::vector<T>(s.begin(), s.end());
}
#define TYPES(X) X(signed char) X(unsigned char) X(char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long)
template <class T, class U> static void cross(mc::Exec& e, const char* tn, const char* un) {
    e.op("boundary pairs"); MC_LOG(e, "%s with %s", tn, un); static const std::vector<T> a = values<T>(); static const std::vector<U> b = values<U>(); const T x = a[e.choose((unsigned)a.size())]; for (const U& y : b) judge<T, U>(e, tn, un, x, y);
}
template <class T> static void row(mc::Exec& e, const char* tn) { unsigned k = e.choose(11), i = 0;
#define X(u) if (k == i++) cross<T, u>(e, tn, #u);
    TYPES(X)
#undef X
}
MC_SECTION(boundaries, true, false, true) { unsigned k = e.choose(11), i = 0;
#define X(t) if (k == i++) row<t>(e, #t);
    TYPES(X)
#undef X
}
template <class T, class U> static void all(mc::Exec& e, const char* tn, const char* un) { e.op("all pairs"); T a = (T)(std::numeric_limits<T>::min() + (T)e.choose(256)); for (int j = 0; j < 256; ++j) judge<T, U>(e, tn, un, a, (U)(std::numeric_limits<U>::min() + j)); }
MC_SECTION(bytes, true) { switch (e.choose(9)) { case 0: all<signed char, signed char>(e, "schar", "schar"); break; case 1: all<signed char, unsigned char>(e, "schar", "uchar"); break; case 2: all<unsigned char, signed char>(e, "uchar", "schar"); break; case 3: all<unsigned char, unsigned char>(e, "uchar", "uchar"); break; case 4: all<char, unsigned char>(e, "char", "uchar"); break; case 5: all<unsigned char, char>(e, "uchar", "char"); break; case 6: all<char, char>(e, "char", "char"); break; case 7: all<char, signed char>(e, "char", "schar"); break; case 8: all<signed char, char>(e, "schar", "char"); break; } }
// 8-bit against 16-bit and 16-bit against 16-bit, completely
template <class T, class U> static void all16(mc::Exec& e, const char* tn, const char* un) { e.op("all pairs"); const long n = (long)std::numeric_limits<T>::max() - std::numeric_limits<T>::min() + 1; unsigned blk = e.choose(256); for (long i = n / 256 * blk; i < n / 256 * (blk + 1); ++i) { T a = (T)(std::numeric_limits<T>::min() + i); for (long j = 0; j < 65536; ++j) judge<T, U>(e, tn, un, a, (U)(std::numeric_limits<U>::min() + j)); e.beat(); } }
MC_SECTION(byte_word, true, false, true) { switch (e.choose(4)) { case 0: all16<signed char, unsigned short>(e, "schar", "ushort"); break; case 1: all16<unsigned char, short>(e, "uchar", "short"); break; case 2: all16<signed char, short>(e, "schar", "short"); break; case 3: all16<unsigned char, unsigned short>(e, "uchar", "ushort"); break; } }
MC_SECTION(word_word, true, true, true) { switch (e.choose(4)) { case 0: all16<short, unsigned short>(e, "short", "ushort"); break; case 1: all16<unsigned short, short>(e, "ushort", "short"); break; case 2: all16<short, short>(e, "short", "short"); break; case 3: all16<unsigned short, unsigned short>(e, "ushort", "ushort"); break; } }
}
