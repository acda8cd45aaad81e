#include "c30.hpp"
namespace hx {
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace {
template <int N, class T> struct Take { static void go(const char*) {} }; template <class T> struct Take<PART, T> { static void go(const char* n) { Walk<T, DEPTH>::go(n); } };
template <int N, class T> struct TakeP { static void go(const char*) {} }; template <class T> struct TakeP<PART, T> { static void go(const char* n) { prow<T>(n); } };
}
enum { kBase = __COUNTER__ };
void CAT(part, PART)() {
#define X(t) Take<(__COUNTER__ - kBase - 1) % 8, t>::go(#t);
    BASES(X)
#undef X
    if (DEPTH > 2) return;
#define X(t) TakeP<(__COUNTER__ - kBase - 1) % 8, t>::go(#t);
    PAIRS(X)
#undef X
}
}
