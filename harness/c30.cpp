#include "c30.hpp"
using namespace Caitlyn;
namespace hx {
std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
std::vector<PairEntry>& pair_table() { static std::vector<PairEntry> t; return t; }
void part0(); void part1(); void part2(); void part3(); void part4(); void part5(); void part6(); void part7();
static const bool g_filled = (part0(), part1(), part2(), part3(), part4(), part5(), part6(), part7(), true);
#define N(n, s) #n,
static const char* const N0[] = {B1(N)}; static const char* const N1[] = {B2(N) B3(N) B4(N)}; static const char* const NP[] = {PB(N) "IsSameType", "!Different"};
MC_SECTION(generated_types, false) {
    (void)g_filled; const Entry& t = table()[e.choose((unsigned)table().size())]; e.op("type"); MC_LOG(e, "%s", t.name.c_str()); e.state(mc::Hash().s(t.name)); const size_t c[2] = {sizeof N0 / sizeof *N0, sizeof N1 / sizeof *N1}; e.transition(c[0] + c[1] + 3);
    for (int k = 0; k < 2; ++k) for (size_t i = 0; i < c[k]; ++i) { unsigned s = (unsigned)(c[k] - 1 - i); if ((t.got[k] >> s & 1) != (t.want[k] >> s & 1)) e.fail((k ? N1 : N0)[i], "%s of  %s  %s, the standard library %s", (k ? N1 : N0)[i], t.name.c_str(), t.got[k] >> s & 1 ? "is true" : "is false or another type", t.want[k] >> s & 1 ? "agrees not: true" : "says false"); }
    static const char* const Q[] = {"AlignmentOf", "Rank", "Extent"}; for (int k = 0; k < 3; ++k) if (t.ng[k] != t.nw[k]) e.fail(Q[k], "%s of  %s  is %zu, not %zu", Q[k], t.name.c_str(), t.ng[k], t.nw[k]);
}
MC_SECTION(pairs, false) {
    if (pair_table().empty()) return; const PairEntry& t = pair_table()[e.choose((unsigned)pair_table().size())]; e.op("pair"); MC_LOG(e, "%s, %s", t.a.c_str(), t.b.c_str()); e.state(mc::Hash().s(t.a).s(t.b)); const size_t c = sizeof NP / sizeof *NP; e.transition(c);
    for (size_t i = 0; i < c; ++i) { unsigned s = (unsigned)(c - 1 - i); if ((t.got >> s & 1) != (t.want >> s & 1)) e.fail(NP[i], "%s<%s, %s> is %u, the standard library says %u", NP[i], t.a.c_str(), t.b.c_str(), t.got >> s & 1, t.want >> s & 1); }
}
template <class T, class S, class V> static void sign(mc::Exec& e, const char* n) { e.transition(2); if (!std::is_same<MakeSignedType<T>, S>::value || !std::is_same<S, typename std::make_signed<T>::type>::value) e.fail("MakeSignedType", "MakeSignedType<%s>", n); if (!std::is_same<MakeUnsignedType<T>, V>::value || !std::is_same<V, typename std::make_unsigned<T>::type>::value) e.fail("MakeUnsignedType", "MakeUnsignedType<%s>", n); }
MC_SECTION(sign_modifiers, false) { e.op("MakeSigned / MakeUnsigned"); unsigned k = e.choose(11), i = 0;
#define X(t, s, u) if (k == i++) sign<t, s, u>(e, #t);
    X(char, signed char, unsigned char) X(signed char, signed char, unsigned char) X(unsigned char, signed char, unsigned char) X(short, short, unsigned short) X(unsigned short, short, unsigned short) X(int, int, unsigned) X(unsigned, int, unsigned) X(long, long, unsigned long) X(unsigned long, long, unsigned long) X(long long, long long, unsigned long long) X(unsigned long long, long long, unsigned long long)
#undef X
}
// operator detection: for each operator a type that has only this one as a member, as a friend, inherited, deleted or private
#define OPS(X) X(Less, <) X(Greater, >) X(Add, +) X(Subtract, -) X(Multyply, *) X(Divide, /) X(Modulus, %) X(Equal, ==) X(NotEqual, !=) X(BitwiseAnd, &) X(BitwiseOr, |) X(BitwiseXor, ^) X(LeftShift, <<) X(RightShift, >>)
#define X(n, o) struct M##n { int operator o(const M##n&) const; }; struct Fr##n { friend int operator o(const Fr##n&, const Fr##n&) { return 0; } }; struct In##n : M##n {}; struct De##n { int operator o(const De##n&) const = delete; }; struct Pr##n { private: int operator o(const Pr##n&) const; }; struct Ot##n { int operator o(const char*) const; };
OPS(X)
#undef X
struct MIncrement { MIncrement& operator++(); }; struct FrIncrement { friend FrIncrement& operator++(FrIncrement& x) { return x; } }; struct InIncrement : MIncrement {}; struct DeIncrement { DeIncrement& operator++() = delete; }; struct PrIncrement { private: PrIncrement& operator++(); }; struct OtIncrement { OtIncrement operator++(int); };
struct MDecrement { MDecrement& operator--(); }; struct FrDecrement { friend FrDecrement& operator--(FrDecrement& x) { return x; } }; struct InDecrement : MDecrement {}; struct DeDecrement { DeDecrement& operator--() = delete; }; struct PrDecrement { private: PrDecrement& operator--(); }; struct OtDecrement { OtDecrement operator--(int); };
struct MSubscript { int operator[](const MSubscript&) const; }; struct FrSubscript { int operator[](FrSubscript) const; }; struct InSubscript : MSubscript {}; struct DeSubscript { int operator[](const DeSubscript&) const = delete; }; struct PrSubscript { private: int operator[](const PrSubscript&) const; }; struct OtSubscript { int operator[](const char*) const; };
struct MOStream {}; inline std::ostream& operator<<(std::ostream& o, const MOStream&) { return o; } struct FrOStream { friend std::ostream& operator<<(std::ostream& o, FrOStream) { return o; } }; struct InOStream : MOStream {}; struct DeOStream { friend std::ostream& operator<<(std::ostream&, const DeOStream&) = delete; }; struct PrOStream { private: std::ostream& operator<<(std::ostream&) const; }; struct OtOStream { std::ostream& operator<<(std::ostream&) const; };
struct MIStream {}; inline std::istream& operator>>(std::istream& i, MIStream&) { return i; } struct FrIStream { friend std::istream& operator>>(std::istream& i, FrIStream&) { return i; } }; struct InIStream : MIStream {}; struct DeIStream { friend std::istream& operator>>(std::istream&, DeIStream&) = delete; }; struct PrIStream { private: std::istream& operator>>(std::istream&); }; struct OtIStream { std::istream& operator>>(std::istream&); };
#define ALLOPS(X) X(Less) X(Greater) X(Add) X(Subtract) X(Multyply) X(Divide) X(Modulus) X(Equal) X(NotEqual) X(BitwiseAnd) X(BitwiseOr) X(BitwiseXor) X(LeftShift) X(RightShift) X(Increment) X(Decrement) X(Subscript) X(OStream) X(IStream)
template <class T> static void ops(mc::Exec& e, const char* name, const char* has) {
#define X(n) { e.transition(); bool g = Has##n##OperatorType<T>::Value, w = has && !strcmp(has, #n); if (g != w) e.fail("Has" #n "OperatorType", "Has" #n "OperatorType of a type with %s%s is %d", has ? "only " : "no usable operator: ", name, g); }
    ALLOPS(X)
#undef X
}
MC_SECTION(operators, false) { e.op("operator detection"); unsigned k = e.choose(19), v = e.choose(6), i = 0; MC_LOG(e, "operator %u, variant %u", k, v);
#define X(n) if (k == i++) switch (v) { case 0: ops<M##n>(e, "member " #n, #n); break; case 1: ops<Fr##n>(e, "friend " #n, #n); break; case 2: ops<In##n>(e, "inherited " #n, #n); break; case 3: ops<De##n>(e, "deleted " #n, nullptr); break; case 4: ops<Pr##n>(e, "private " #n, nullptr); break; case 5: ops<Ot##n>(e, "another overload of " #n, nullptr); break; }
    ALLOPS(X)
#undef X
}
struct V_ {};
// built-in types: the answers of the language, in the order of ALLOPS
template <class T> static void builtin(mc::Exec& e, const char* name, const char* want) { unsigned i = 0; (void)i;
#define X(n) { e.transition(); bool g = Has##n##OperatorType<T>::Value, w = want[i++] == '1'; if (g != w) e.fail("Has" #n "OperatorType", "Has" #n "OperatorType<%s> is %d", name, g); }
    ALLOPS(X)
#undef X
}
MC_SECTION(builtin_operators, false) { e.op("operator detection"); unsigned k = e.choose(14), i = 0;
    //                                        < > + - * / % = ! & | ^ l r + - [ o i
#define X(t, w) if (k == i++) builtin<t>(e, #t, w);
    X(int, "1111111111111111011") X(unsigned char, "1111111111111111011") X(unsigned long long, "1111111111111111011") X(char, "1111111111111111011") X(double, "1111110110000011011") X(long double, "1111110110000011011") X(const int, "1111111111111100010") X(V_, "0000000000000000000") X(int*, "1101000110000011010") X(const char*, "1101000110000011010") X(std::string, "1110000110000000011") X(void, "0000000000000000000") X(std::vector<int>, "1100000110000000000") X(EC, "1100000110000000000")
#undef X
}
struct S0 {}; struct S1 { std::string to_string() const; }; struct S2 { std::string str() const; }; struct S3 { const char* c_str() const; }; struct S4 { String ToString() const; }; struct S5 : S1, S2, S3, S4 {}; struct S6 { private: std::string to_string() const; std::string str() const; const char* c_str() const; String ToString() const; }; struct S7 { int to_string, str, c_str, ToString; }; struct S8 { static int to_string(); static int str(); static int c_str(); static int ToString(); }; struct S9 { int to_string(int); int str(int); int c_str(int); int ToString(int); };
template <class T> static void str4(mc::Exec& e, const char* n, int w) { e.transition(4); int g = HasToString<T>() * 1 + HasStr<T>() * 2 + HasCStr<T>() * 4 + ConvertibleToString<T>() * 8; if (g != w) e.fail("string-traits", "HasToString, HasStr, HasCStr, ConvertibleToString of %s give %d, not %d", n, g, w); }
MC_SECTION(string_traits, false) { e.op("string detection"); unsigned k = e.choose(18), i = 0;
#define X(t, w) if (k == i++) str4<t>(e, #t, w);
    X(S0, 0) X(S1, 1) X(S2, 2) X(S3, 4) X(S4, 8) X(S5, 15) X(S6, 0) X(S7, 0) X(S8, 15) X(S9, 0) X(int, 0) X(void, 0) X(std::string, 4) X(std::ostringstream, 2) X(const S5, 15) X(S1&, 1) X(S1*, 0) X(const S4&, 8)
#undef X
}
// Required and Indicator
template <class T> static Required<IsIntegral<T>(), int> kind(const T&) { return 1; } template <class T> static Required<IsFloating<T>(), int> kind(const T&) { return 2; } template <class T> static Required<IsClass<T>() || IsPointer<T>(), int> kind(const T&) { return 3; }
MC_SECTION(required, false) { e.op("Required"); MC_LOG(e, "overloads selected by Required"); int g[] = {kind(1), kind('c'), kind(true), kind(1ull), kind(1.0f), kind(1.0), kind(1.0L), kind(std::string()), kind((int*)nullptr)}; int w[] = {1, 1, 1, 1, 2, 2, 2, 3, 3}; for (int i = 0; i < 9; ++i) { e.transition(); e.check(g[i] == w[i], "Required", "case %d selects overload %d", i, g[i]); } e.check(std::is_same<Required<true>, void>::value, "Required", "Required<true> is not void"); }
// Forward and MakeMovable: the same type, the same object, as std::forward and std::move
template <class T> static void fwd(mc::Exec& e, const char* n) {
    typedef typename std::remove_reference<T>::type U; e.transition(3); typedef decltype(MakeMovable(std::declval<U&>())) M; typedef decltype(Caitlyn::Forward<T>(std::declval<U&>())) F; typedef decltype(Caitlyn::Forward<T>(std::declval<typename std::conditional<std::is_lvalue_reference<T>::value, U&, U>::type>())) G;
    if (!std::is_same<M, decltype(std::move(std::declval<U&>()))>::value) e.fail("MakeMovable", "MakeMovable of %s has another type than std::move", n);
    if (!std::is_same<F, decltype(std::forward<T>(std::declval<U&>()))>::value || !std::is_same<G, F>::value) e.fail("Forward", "Forward<%s> has another type than std::forward", n);
}
MC_SECTION(forwarding, false) {
    e.op("Forward / MakeMovable"); unsigned k = e.choose(14), i = 0; struct Sx { int a; ~Sx() {} }; e.state(k); MC_LOG(e, "type %u", k);
#define X(...) if (k == i++) fwd<__VA_ARGS__>(e, #__VA_ARGS__);
    X(int) X(const int) X(volatile int) X(int&) X(const int&) X(int&&) X(const int&&) X(int*) X(int* const&) X(Sx) X(Sx&) X(const Sx&&) X(int[3]) X(int (&)[3])
#undef X
    int v = 1; Sx s; s.a = 5; const Sx& c = s; if (&(int&)(Caitlyn::Forward<int&>(v)) != &v) e.fail("Forward", "another object"); int&& r = MakeMovable(v); if (&r != &v) e.fail("MakeMovable", "another object"); const Sx&& q = MakeMovable(c); if (&q != &s) e.fail("MakeMovable", "another object"); Sx&& t = Caitlyn::Forward<Sx>(s); if (&t != &s) e.fail("Forward", "another object");
}
}
