// Sizes, limits and the names of the fundamental types, for every type the library names.
#include "mc.hpp"
#include "Caitlyn/__Caitlyn.h"
#include "Caitlyn/__Core/Memory.h"
#include "Caitlyn/__Core/Numeric.h"
#include <climits>
#include "targets.hpp"
using namespace Caitlyn;
namespace hx {
struct Empty { }; struct Odd { char c[3]; }; struct alignas(32) Wide { char c; }; struct Virt { virtual ~Virt() { } long n; }; struct Big { char c[9001]; }; union Un { char c; double d; }; enum class En : unsigned char { A };
template <class T> static void sizes(mc::Exec& e, const char* n) {
    alignas(T) static char raw[sizeof(T)] = {}; const T& v = *reinterpret_cast<const T*>(raw); const size_t w = sizeof(T); e.op("SizeOf"); MC_LOG(e, "%s", n); e.transition(6); e.state(mc::Hash().s(n)); e.outcome(mc::Hash().u(w));
    e.check(SizeOf<T>() == w && SizeOf<T>(MemoryFormat::Byte) == w, "bytes", "SizeOf<%s>() is %zu instead of %zu", n, (size_t)SizeOf<T>(), w); e.check(SizeOf<T>(MemoryFormat::Bit) == w * CHAR_BIT, "bits", "SizeOf<%s>(Bit) is %zu", n, (size_t)SizeOf<T>(MemoryFormat::Bit));
    e.check(SizeOf(v, MemoryFormat::Byte) == w && SizeOf<T>(v) == w, "bytes", "SizeOf(value of %s) is %zu", n, (size_t)SizeOf(v, MemoryFormat::Byte)); e.check(SizeOf(v, MemoryFormat::Bit) == w * CHAR_BIT, "bits", "SizeOf(value of %s, Bit)", n);
    static_assert(SizeOf<T>() == sizeof(T), "a constant"); constexpr SizeType c = SizeOf<T>(MemoryFormat::Bit); e.check(c == w * CHAR_BIT, "constant", "SizeOf<%s>(Bit) as a constant", n);
}
template <class T> static void limits(mc::Exec& e, const char* n) {
    typedef std::numeric_limits<T> L; e.op("limits"); MC_LOG(e, "%s", n); e.transition(4); constexpr T lo = MinValue<T>(), hi = MaxValue<T>();
    e.check(lo == L::min(), "min", "MinValue<%s>", n); e.check(hi == L::max(), "max", "MaxValue<%s>", n); auto r = ValueRange<T>(); e.check(r.first == L::min() && r.second == L::max(), "range", "ValueRange<%s>", n);
}
template <class T> static void fixed(mc::Exec& e, const char* n, unsigned bits, bool sign) {
    e.op("fixed width"); MC_LOG(e, "%s", n); e.transition(4); e.check(sizeof(T) * CHAR_BIT == bits, "width", "%s has %zu bits instead of %u", n, sizeof(T) * CHAR_BIT, bits); e.check(std::is_signed<T>::value == sign, "sign", "%s is %ssigned", n, sign ? "not " : "");
    T all = static_cast<T>(~static_cast<T>(0)); e.check(sign ? all == static_cast<T>(-1) && all < T(1) : all == std::numeric_limits<T>::max(), "two's complement", "%s", n); sizes<T>(e, n); limits<T>(e, n);
}
#define F(T, b, s) fixed<T>(e, #T, b, s); break;
MC_SECTION(integers, true) {
    const unsigned P = sizeof(void*) * CHAR_BIT;
    switch (e.choose(20)) { case 0: F(SByte, 8, true) case 1: F(Byte, 8, false) case 2: F(Int8, 8, true) case 3: F(UInt8, 8, false) case 4: F(Int16, 16, true) case 5: F(UInt16, 16, false) case 6: F(Int32, 32, true) case 7: F(UInt32, 32, false) case 8: F(Int64, 64, true) case 9: F(UInt64, 64, false)
        case 10: F(Int, 32, true) case 11: F(UInt, 32, false) case 12: F(IntMax, 64, true) case 13: F(UIntMax, 64, false) case 14: F(IntPtr, P, true) case 15: F(UIntPtr, P, false) case 16: F(SSizeType, P, true) case 17: F(SizeType, P, false) case 18: F(PtrDiff, P, true) case 19: F(CodePoint, 32, false) }
}
#define S(T) sizes<T>(e, #T); break;
#define L(T) sizes<T>(e, #T); limits<T>(e, #T); break;
MC_SECTION(others, true) {
    switch (e.choose(28)) { case 0: L(Float) case 1: L(Double) case 2: L(Decimal) case 3: L(Bool) case 4: L(StdChar) case 5: L(WChar) case 6: L(Char16) case 7: L(Char32) case 8: S(NullPtr) case 9: S(Empty) case 10: S(Odd) case 11: S(Wide) case 12: S(Virt) case 13: S(Un) case 14: S(En) case 15: S(int*) case 16: S(char[1]) case 17: S(int[7]) case 18: S(Odd[2][5]) case 19: S(char[4096]) case 20: S(int Odd::*) case 21: S(void (*)(int)) case 22: S(char[8191]) case 23: S(char[8192]) case 24: S(Big) case 25: S(char[65535]) case 26: S(Wide[4097]) case 27: S(char[0x20000001]) }
}
// the same names on every platform the library knows, asked of the compilers for those platforms
static std::string facts() {
    std::string p = "#include <Caitlyn/__Caitlyn/Types.h>\nusing namespace Caitlyn;\n#define W(T, n) static_assert(sizeof(T) == (n), #T \" has the wrong width\");\n#define S(T) static_assert(T(-1) < T(0), #T \" is not signed\"); static_assert((T(-1) & T(3)) == T(3), \"two's complement\");\n#define U(T) static_assert(T(-1) > T(0), #T \" is signed\");\n#define P __SIZEOF_POINTER__\n";
    static const char* const n[] = {"SByte", "Byte", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Int", "UInt", "IntMax", "UIntMax", "IntPtr", "UIntPtr", "SSizeType", "SizeType", "PtrDiff"};
    static const char* const w[] = {"1", "1", "1", "1", "2", "2", "4", "4", "8", "8", "4", "4", "8", "8", "P", "P", "P", "P", "P"};
    for (unsigned i = 0; i < 19; ++i) p += mc::strf("W(%s, %s) %s(%s)\n", n[i], w[i], (i < 18 && i % 2) ? "U" : "S", n[i]);
    return p + "W(CodePoint, 4) U(CodePoint) W(StdChar, 1) W(Char8, 1) W(Char16, 2) W(Char32, 4) W(WChar, sizeof(L' ')) W(Float, 4) W(Double, 8) static_assert(sizeof(Decimal) >= sizeof(Double), \"Decimal\"); W(Bool, sizeof(bool)) W(NullPtr, P) W(SizeType, sizeof(sizeof(0)))\n"
               "static_assert(sizeof(PtrDiff) == sizeof((char*)0 - (char*)0), \"PtrDiff\"); int main() { void* v = nullptr; UIntPtr u = reinterpret_cast<UIntPtr>(v); return reinterpret_cast<void*>(u) == v ? 0 : 1; }\n";
}
static void compile(mc::Exec& e, const std::string& cmd, const char* what, const char* std) {
    for (const char* h : STUB) inc::file(h, ""); MC_LOG(e, "%s", cmd.c_str()); std::string o; e.transition(45);
    if (inc::run(e, cmd + inc::file("p.cpp", facts()), o) != 0) e.fail("platform", "%s -std=%s: %s", what, std, o.substr(0, 700).c_str());
}
MC_SECTION(platforms, false, false, true, false, 120) {
    unsigned t = e.choose(NT), s = e.choose(5); e.op("types of a platform"); e.state(mc::Hash().u(t).u(s));
    compile(e, mc::strf("clang++ -fsyntax-only -w -fno-caret-diagnostics -nostdinc -nostdinc++ -isystem %s --target=%s -std=%s -I%s ", mc::scratch().c_str(), T[t].triple, STD[s], inc::dir()), T[t].triple, STD[s]); e.outcome(mc::Hash().s(T[t].os).u(T[t].bits));
}
MC_SECTION(gcc_platforms, false, false, true, false, 120) {
    unsigned t = e.choose(3), s = e.choose(5); static const char* const f[] = {"-m64", "-m32", "-mx32"}; e.op("types of a mode"); e.state(mc::Hash().u(t).u(s));
    compile(e, mc::strf("g++ -fsyntax-only -w -nostdinc -nostdinc++ -isystem %s %s -std=%s -I%s ", mc::scratch().c_str(), f[t], STD[s], inc::dir()), f[t], STD[s]);
}
}
