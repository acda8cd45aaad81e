// Every type that the constructors below build from the base types up to DEPTH steps is judged at compile time; the verdicts are constants in a table.
#pragma once
#include "mc.hpp"
#include <Caitlyn/Traits>
#include <Caitlyn/String>
#include <Caitlyn/Error>
namespace hx {
struct Entry { std::string name; uint64_t got[2], want[2]; size_t ng[3], nw[3]; };
std::vector<Entry>& table();
struct PairEntry { std::string a, b; unsigned got, want; };
std::vector<PairEntry>& pair_table();
struct Bad {};
// base types
enum E { e0, e1 }; enum class EC : unsigned char { x }; union U { int i; float f; };
struct Empty {}; struct Pod { int a; double b; }; struct NonTriv { NonTriv(); NonTriv(const NonTriv&); NonTriv& operator=(const NonTriv&); ~NonTriv(); int x; };
struct Fixed { Fixed() = default; Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; }; struct MoveOnly { MoveOnly() noexcept; MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&); };
struct Abstract { virtual void f() = 0; }; struct Poly { virtual ~Poly(); int x; }; struct Derived final : Poly, Empty { int y; }; struct NoDtor { ~NoDtor() = delete; }; struct FromInt { FromInt(int); operator const char*() const; }; struct Priv : private Empty { private: int z; Priv(const Priv&); public: Priv(); }; struct alignas(32) Wide { char c[7]; };
struct NoDefault { explicit NoDefault(int) noexcept; }; template <class T> struct Tpl { T t; };
typedef void F0(); typedef int F1(int, ...); typedef void F2() const; typedef int F3(double) volatile; typedef int Pod::*MO; typedef void (Pod::*MF)() const;
// type constructors; Bad when the type does not exist
template <class T> struct Okay { typedef T type; };
template <class T, class = void> struct CRef { typedef Bad type; }; template <class T> struct CRef<T, decltype((void)(T & (*)())0)> { typedef T& type; };
template <class T, class = void> struct CRRef { typedef Bad type; }; template <class T> struct CRRef<T, decltype((void)(T && (*)())0)> { typedef T&& type; };
template <class T, class = void> struct CPtr { typedef Bad type; }; template <class T> struct CPtr<T, decltype((void)(T*)0)> { typedef T* type; };
template <class T, bool = std::is_object<T>::value && !std::is_abstract<T>::value> struct CArr { typedef Bad type; }; template <class T> struct CArr<T, true> { typedef T type[3]; }; template <class T> struct CArr<T[], true> { typedef Bad type; };
template <class T, bool = std::is_object<T>::value && !std::is_abstract<T>::value> struct CInf { typedef Bad type; }; template <class T> struct CInf<T, true> { typedef T type[]; }; template <class T> struct CInf<T[], true> { typedef Bad type; };
template <class T, bool = !std::is_array<T>::value && !std::is_function<T>::value && !std::is_abstract<T>::value> struct CFun { typedef Bad type; }; template <class T> struct CFun<T, true> { typedef T type(); };
template <class T, bool = !std::is_void<T>::value && !std::is_reference<T>::value> struct CMem { typedef Bad type; }; template <class T> struct CMem<T, true> { typedef T Pod::*type; };
template <class T> struct CConst { typedef const T type; }; template <class T> struct CVol { typedef volatile T type; }; template <class T> struct CCV { typedef const volatile T type; };
template <class T, bool = std::is_object<T>::value && !std::is_array<T>::value && !std::is_abstract<T>::value> struct CTpl { typedef Bad type; }; template <class T> struct CTpl<T, true> { typedef Tpl<T> type; };
// helpers: the standard's answer, spelled with std only
template <class T, class... L> struct In : std::false_type {}; template <class T, class H, class... L> struct In<T, H, L...> : std::integral_constant<bool, std::is_same<T, H>::value || In<T, L...>::value> {};
template <class T> struct Bare { typedef typename std::remove_cv<T>::type type; };
#if __cplusplus >= 202002L
#define C8 , char8_t
#else
#define C8
#endif
template <class T> struct IsChar : In<typename std::remove_cv<T>::type, char, signed char, unsigned char, wchar_t, char16_t, char32_t C8> {}; 
template <class T> struct IsInt : In<typename std::remove_cv<T>::type, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long> {};
#define B1(X) X(IsVoid, std::is_void) X(IsBoolean, IsBoolStd) X(IsNullPointer, IsNullStd) X(IsCharacter, IsChar) X(IsInteger, IsInt) X(IsIntegral, std::is_integral) X(IsFloating, std::is_floating_point) X(IsArray, std::is_array) X(IsEnum, std::is_enum) X(IsUnion, std::is_union) X(IsClass, std::is_class) X(IsFunction, std::is_function) X(IsPointer, std::is_pointer) X(IsLValueReference, std::is_lvalue_reference) X(IsRValueReference, std::is_rvalue_reference) X(IsMemberObjectPointer, std::is_member_object_pointer) X(IsMemberFunctionPointer, std::is_member_function_pointer) \
    X(IsFundamental, std::is_fundamental) X(IsArithmetic, std::is_arithmetic) X(IsScalar, std::is_scalar) X(IsObject, std::is_object) X(IsCompound, std::is_compound) X(IsReference, std::is_reference) X(IsMemberPointer, std::is_member_pointer) X(IsConst, std::is_const) X(IsVolatile, std::is_volatile) X(IsTrivial, std::is_trivial) X(IsTriviallyCopyable, std::is_trivially_copyable) X(IsStandardLayout, std::is_standard_layout) X(IsEmpty, std::is_empty) X(IsPolymorphic, std::is_polymorphic) X(IsAbstract, std::is_abstract) X(IsSigned, std::is_signed) X(IsUnsigned, std::is_unsigned)
#define B2(X) X(Constructible, std::is_constructible) X(TriviallyConstructible, std::is_trivially_constructible) X(NothrowConstructible, std::is_nothrow_constructible) X(DefaultConstructible, std::is_default_constructible) X(TriviallyDefaultConstructible, std::is_trivially_default_constructible) X(NothrowDefaultConstructible, std::is_nothrow_default_constructible) X(CopyConstructible, std::is_copy_constructible) X(TriviallyCopyConstructible, std::is_trivially_copy_constructible) X(NothrowCopyConstructible, std::is_nothrow_copy_constructible) X(MoveConstructible, std::is_move_constructible) X(TriviallyMoveConstructible, std::is_trivially_move_constructible) X(NothrowMoveConstructible, std::is_nothrow_move_constructible) \
    X(CopyAssignable, std::is_copy_assignable) X(TriviallyCopyAssignable, std::is_trivially_copy_assignable) X(NothrowCopyAssignable, std::is_nothrow_copy_assignable) X(MoveAssignable, std::is_move_assignable) X(TriviallyMoveAssignable, std::is_trivially_move_assignable) X(NothrowMoveAssignable, std::is_nothrow_move_assignable) X(Destructible, std::is_destructible) X(TriviallyDestructible, std::is_trivially_destructible) X(NothrowDestructible, std::is_nothrow_destructible) X(HasVirtualDestructor, std::has_virtual_destructor)
#define B3(X) X(AddConstType, std::add_const) X(AddVolatileType, std::add_volatile) X(AddCVType, std::add_cv) X(RemoveConstType, std::remove_const) X(RemoveVolatileType, std::remove_volatile) X(RemoveCVType, std::remove_cv) X(AddPointerType, std::add_pointer) X(RemovePointerType, std::remove_pointer) X(AddLValueReferenceType, std::add_lvalue_reference) X(AddRValueReferenceType, std::add_rvalue_reference) X(RemoveReferenceType, std::remove_reference)
#define B4(X) X(IsVoidType, std::is_void) X(IsBooleanType, IsBoolStd) X(IsNullPointerType, IsNullStd)
template <class T> struct IsBoolStd : std::is_same<typename std::remove_cv<T>::type, bool> {}; template <class T> struct IsNullStd : std::is_same<typename std::remove_cv<T>::type, std::nullptr_t> {};
template <uint64_t A> struct K { static constexpr uint64_t value = A; };
template <class T> struct J {
#define G(n, s) << 1 | (uint64_t)Caitlyn::n<T>()
#define W(n, s) << 1 | (uint64_t)s<T>::value
#define P(n, s) (
#define Q(n, s) )
    template <class X> static constexpr uint64_t bit(X x) { return x ? 1 : 0; }
    static constexpr uint64_t fold(uint64_t a) { return a; }
    template <class... R> static constexpr uint64_t fold(uint64_t a, bool b, R... r) { return fold(a << 1 | (b ? 1 : 0), r...); }
#undef G
#undef W
#define G(n, s) , Caitlyn::n<T>()
#define W(n, s) , s<T>::value
#define H(n, s) , std::is_same<Caitlyn::n<T>, typename s<T>::type>::value
#define V(n, s) , true
#define S(n, s) , Caitlyn::n<T>::Value
    static constexpr uint64_t g0 = fold(0 B1(G)), w0 = fold(0 B1(W)), g1 = fold(0 B2(G) B3(H) B4(S)), w1 = fold(0 B2(W) B3(V) B4(W));
};
template <class T, bool = std::is_object<typename std::remove_all_extents<typename std::remove_reference<T>::type>::type>::value> struct Num { static void f(Entry& e) { e.ng[0] = e.nw[0] = 0; } }; template <class T> struct Num<T, true> { static void f(Entry& e) { e.ng[0] = Caitlyn::AlignmentOf<T>(); e.nw[0] = std::alignment_of<T>::value; } };
template <class T> static void add(const std::string& n) { Entry e; e.name = n; e.got[0] = K<J<T>::g0>::value; e.want[0] = K<J<T>::w0>::value; e.got[1] = K<J<T>::g1>::value; e.want[1] = K<J<T>::w1>::value; Num<T>::f(e); e.ng[1] = Caitlyn::Rank<T>(); e.nw[1] = std::rank<T>::value; e.ng[2] = Caitlyn::Extent<T>(); e.nw[2] = std::extent<T>::value; table().push_back(e); }
#ifndef DEPTH
#define DEPTH 2
#endif
template <class T, int D> struct Walk;
template <int D> struct Walk<Bad, D> { static void go(const std::string&) {} };
template <class T> struct Walk<T, 0> { static void go(const std::string& n) { add<T>(n); } };
template <> struct Walk<Bad, 0> { static void go(const std::string&) {} };
template <class T, int D> struct Walk { static void go(const std::string& n) { add<T>(n);
    Walk<typename CConst<T>::type, std::is_same<T, typename CConst<T>::type>::value ? 0 : D - 1>::go(n + " const"); Walk<typename CVol<T>::type, std::is_same<T, typename CVol<T>::type>::value ? 0 : D - 1>::go(n + " volatile"); Walk<typename CRef<T>::type, D - 1>::go(n + " &"); Walk<typename CRRef<T>::type, D - 1>::go(n + " &&"); Walk<typename CPtr<T>::type, D - 1>::go(n + " *"); Walk<typename CArr<T>::type, D - 1>::go(n + " [3]"); Walk<typename CInf<T>::type, D - 1>::go(n + " []"); Walk<typename CFun<T>::type, D - 1>::go(n + " ()"); Walk<typename CMem<T>::type, D - 1>::go(n + " Pod::*"); Walk<typename CTpl<T>::type, D - 1>::go("Tpl<" + n + ">"); } };
#define BASES(X) X(void) X(std::nullptr_t) X(bool) X(char) X(signed char) X(unsigned char) X(wchar_t) X(char16_t) X(char32_t) X(short) X(unsigned) X(long long) X(float) X(long double) X(E) X(EC) X(U) X(Empty) X(Pod) X(NonTriv) X(Fixed) X(MoveOnly) X(Abstract) X(Poly) X(Derived) X(NoDtor) X(FromInt) X(Priv) X(Wide) X(NoDefault) X(std::string) X(Caitlyn::String) X(F0) X(F1) X(F2) X(F3) X(MO) X(MF) X(int) X(unsigned char *)
// pairs
#define PB(X) X(BaseOf, std::is_base_of) X(Convertible, std::is_convertible) X(Assignable, std::is_assignable) X(TriviallyAssignable, std::is_trivially_assignable) X(NothrowAssignable, std::is_nothrow_assignable) X(Same, std::is_same)
template <class T, class V> static void pr(const std::string& a, const std::string& b) {
#define G2(n, s) , Caitlyn::n<T, V>()
#define W2(n, s) , s<T, V>::value
    PairEntry p; p.a = a; p.b = b; p.got = (unsigned)K<J<int>::fold(0 PB(G2), Caitlyn::IsSameType<T, V>::Value, !Caitlyn::Different<T, V>())>::value; p.want = (unsigned)K<J<int>::fold(0 PB(W2), std::is_same<T, V>::value, std::is_same<T, V>::value)>::value; pair_table().push_back(p);
}
template <class T, class V> static void prv(const std::string& a, const std::string& b) { pr<T, V>(a, b); pr<T&, V>(a + "&", b); pr<T, const V&>(a, "const " + b + "&"); pr<T*, V*>(a + "*", b + "*"); pr<T&, V&&>(a + "&", b + "&&"); pr<const T*, V*>("const " + a + "*", b + "*"); pr<T*, const V*>(a + "*", "const " + b + "*"); pr<const T, V>("const " + a, b); }
#define PAIRS(X) X(bool) X(char) X(int) X(unsigned long) X(double) X(E) X(EC) X(U) X(Empty) X(Pod) X(NonTriv) X(Fixed) X(MoveOnly) X(Poly) X(Derived) X(FromInt) X(Priv) X(NoDefault) X(std::string) X(Caitlyn::String) X(const char*) X(std::nullptr_t)
template <class T> static void prow(const std::string& a) {
#define X(t) prv<T, t>(a, #t);
    PAIRS(X)
#undef X
}
template <int N> struct Part { static void go(); };
}
