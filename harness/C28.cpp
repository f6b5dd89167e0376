// Type queries and transformations against the language's own, over a generated space of types
#include "support.h"
#include <type_traits>
#include <array>
#include "core_types.h"
#include "templates/base.h"
#include "templates/types.h"
#include "templates/enable_if.h"
#include "templates/utility.h"
namespace pbt {
const char * PROPERTY = "C28";
const char * RULE = "a case is a type made by up to three layers of qualifiers, pointers, references and arrays over one of 33 base types (or a pair of such types), whose answers to every query and transformation are compared with those of the language; non-trivial: at least one layer, or for pairs two types that are not the same";
}
enum Plain { A, B }; enum class Scoped : short { X }; union Un { int i; float f; }; struct Empty {}; struct Abstract { virtual void f() = 0; }; struct Member { int m; int f(int); };
// Compile-time results as bits: one word per type
static const char * const QUERY[] = {"IsVoid", "IsPointer", "IsReference", "IsVolatile", "IsIntegral", "IsArray", "IsCFunction", "IsVoidPointer", "IsSameType with itself", "IsSameType with int", "RemovePointer", "RemoveAllPointers", "RemoveReference", "RemoveVolatile", "RemoveConst", "RemoveConstVolatile", "RemoveArray", "AddPointer", "NakedType", "DecayType", "TypeIdentity", "move", "forward of a name", "forward of a temporary", "ChooseType", "EnableIf"};
template<typename T> struct AllPointers { using type = T; };
template<typename T> struct AllPointers<T*> : AllPointers<T> {}; template<typename T> struct AllPointers<T* const> : AllPointers<T> {}; template<typename T> struct AllPointers<T* volatile> : AllPointers<T> {}; template<typename T> struct AllPointers<T* const volatile> : AllPointers<T> {};
template<typename X, typename Y> constexpr bool is = std::is_same<X, Y>::value;
template<typename T, bool b, typename = void> struct Enabled { static constexpr bool v = false; };
template<typename T, bool b> struct Enabled<T, b, std::void_t<typename EnableIf<b, T>::Type>> { static constexpr bool v = is<typename EnableIf<b, T>::Type, T> && is<EnableIfT<b, T>, T>; };
template<typename T, bool referable> struct Values { static constexpr bool mv = true, fn = true, ft = true; };
template<typename T> struct Values<T, true>
{
	using U = std::remove_reference_t<T>; static constexpr bool mv = is<decltype(::move(std::declval<T>())), decltype(std::move(std::declval<T>()))>, fn = is<decltype(::forward<T>(std::declval<U&>())), decltype(std::forward<T>(std::declval<U&>()))>;
	template<typename Q> static constexpr bool rv() { if constexpr (std::is_lvalue_reference<Q>::value) return true; else return is<decltype(::forward<Q>(std::declval<U&&>())), decltype(std::forward<Q>(std::declval<U&&>()))>; } static constexpr bool ft = rv<T>();
};
struct Bits { uint32_t got, want; };
enum { NQ = 26 };
template<typename T> struct Answers
{
	using V = Values<T, !std::is_void<T>::value>;
	static constexpr uint32_t got = (uint32_t)(IsVoid<T>::value) << 0 | (uint32_t)(IsPointer<T>::value) << 1 | (uint32_t)(IsReference<T>::value) << 2 | (uint32_t)(IsVolatile<T>::value) << 3 | (uint32_t)(IsIntegral<T>::value) << 4 | (uint32_t)(IsArray<T>::value) << 5 | (uint32_t)(IsCFunction<T>::value) << 6 | (uint32_t)(IsVoidPointer<T>::value) << 7 | (uint32_t)(IsSameType<T, T>::value) << 8 | (uint32_t)(IsSameType<T, int>::value) << 9 | (uint32_t)(is<typename RemovePointer<T>::Type, std::remove_pointer_t<T>>) << 10 | (uint32_t)(is<typename RemoveAllPointers<T>::Type, typename AllPointers<T>::type>) << 11 | (uint32_t)(is<typename RemoveReference<T>::Type, std::remove_reference_t<T>>) << 12 | (uint32_t)(is<typename RemoveVolatile<T>::Type, std::remove_volatile_t<T>>) << 13 | (uint32_t)(is<typename RemoveConst<T>::Type, std::remove_const_t<T>>) << 14 | (uint32_t)(is<typename RemoveConstVolatile<T>::Type, std::remove_cv_t<T>>) << 15 | (uint32_t)(is<typename RemoveArray<T>::Type, std::remove_extent_t<T>>) << 16 | (uint32_t)(is<typename AddPointer<T>::Type, std::add_pointer_t<T>>) << 17 | (uint32_t)(is<typename NakedType<T>::Type, std::remove_const_t<std::remove_reference_t<T>>>) << 18 | (uint32_t)(is<typename DecayType<T>::Type, std::decay_t<T>>) << 19 | (uint32_t)(is<typename TypeIdentity<T>::Type, T>) << 20 | (uint32_t)(V::mv) << 21 | (uint32_t)(V::fn) << 22 | (uint32_t)(V::ft) << 23 | (uint32_t)(is<typename ChooseType<true, T, Empty>::Type, T> && is<typename ChooseType<false, Empty, T>::Type, T>) << 24 | (uint32_t)(Enabled<T, true>::v && !Enabled<T, false>::v) << 25;
	static constexpr uint32_t want = 67108096u | (uint32_t)(is<T, void>) << 0 | (uint32_t)(std::is_pointer<T>::value) << 1 | (uint32_t)(std::is_reference<T>::value) << 2 | (uint32_t)(std::is_volatile<T>::value) << 3 | (uint32_t)(std::is_integral<T>::value) << 4 | (uint32_t)(std::is_array<T>::value) << 5 | (uint32_t)(std::is_function<T>::value) << 6 | (uint32_t)(std::is_pointer<T>::value && std::is_void<std::remove_pointer_t<T>>::value) << 7 | (uint32_t)(is<T, int>) << 9;
};
template<typename T> struct Wrap { using type = T; };
template<typename T> constexpr bool elem = !std::is_void<T>::value && !std::is_function<T>::value && !std::is_reference<T>::value && !is<std::remove_cv_t<T>, Abstract>; template<typename T> struct Unb { static constexpr bool v = false; }; template<typename T> struct Unb<T[]> { static constexpr bool v = true; };
template<typename T, bool ok> struct Arr { using n = T[4]; using u = T[]; }; template<typename T> struct Arr<T, false> { using n = T; using u = T; };
// layers
template<typename T, int k> struct Layer { using type = T; };
template<typename T> struct Layer<T, 1> { using type = std::add_const_t<T>; }; template<typename T> struct Layer<T, 2> { using type = std::add_volatile_t<T>; }; template<typename T> struct Layer<T, 3> { using type = std::add_cv_t<T>; }; template<typename T> struct Layer<T, 4> { using type = std::add_pointer_t<T>; };
template<typename T> struct Layer<T, 5> { using type = std::add_lvalue_reference_t<T>; }; template<typename T> struct Layer<T, 6> { using type = std::add_rvalue_reference_t<T>; }; template<typename T> struct Layer<T, 7> { using type = typename Arr<T, elem<T> && !Unb<T>::v>::n; }; template<typename T> struct Layer<T, 8> { using type = typename Arr<T, elem<T> && !Unb<T>::v>::u; };
static const char * const LAYER[] = {"", " const", " volatile", " const volatile", " *", " &", " &&", " [4]", " []"};
template<typename T, int a, int b, int c> using Made = typename Layer<typename Layer<typename Layer<T, a>::type, b>::type, c>::type;
using Bases = std::tuple<Wrap<int>, Wrap<char>, Wrap<signed char>, Wrap<unsigned char>, Wrap<short>, Wrap<unsigned short>, Wrap<unsigned>, Wrap<long>, Wrap<unsigned long>, Wrap<long long>, Wrap<unsigned long long>, Wrap<bool>, Wrap<wchar_t>, Wrap<float>, Wrap<double>, Wrap<long double>, Wrap<Plain>, Wrap<Scoped>, Wrap<Un>, Wrap<Empty>, Wrap<Obj>, Wrap<Abstract>, Wrap<void>, Wrap<std::nullptr_t>, Wrap<int()>, Wrap<void(int, char*)>, Wrap<int(int) noexcept>, Wrap<int(const char*, ...)>, Wrap<int Member::*>, Wrap<int (Member::*)(int)>, Wrap<char16_t>, Wrap<char32_t>, Wrap<int (*)(double)>>;
static const char * const BASE[] = {"int", "char", "signed char", "unsigned char", "short", "unsigned short", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "bool", "wchar_t", "float", "double", "long double", "enum", "enum class", "union", "empty struct", "class", "abstract class", "void", "nullptr_t", "int()", "void(int, char*)", "int(int) noexcept", "int(const char*, ...)", "int Member::*", "int (Member::*)(int)", "char16_t", "char32_t", "int (*)(double)"};
enum { NB = std::tuple_size<Bases>::value, NT = 6, C2 = 81, C3 = 81 * 3 };   // two layers over every base, a third one (const, * or &) over six of them
constexpr int third[3] = {1, 4, 5}; constexpr int deep[NT] = {0, 2, 20, 22, 25, 32};
template<typename T, size_t ... k> static void two(std::vector<Bits> & v, std::index_sequence<k...>) { static const Bits b[] = {{Answers<Made<T, k / 9, k % 9, 0>>::got, Answers<Made<T, k / 9, k % 9, 0>>::want}...}; v.insert(v.end(), b, b + sizeof...(k)); }
template<typename T, size_t ... k> static void three(std::vector<Bits> & v, std::index_sequence<k...>) { static const Bits b[] = {{Answers<Made<T, k / 27, k / 3 % 9, third[k % 3]>>::got, Answers<Made<T, k / 27, k / 3 % 9, third[k % 3]>>::want}...}; v.insert(v.end(), b, b + sizeof...(k)); }
template<size_t ... b> static std::vector<Bits> table2(std::index_sequence<b...>) { std::vector<Bits> v; (two<typename std::tuple_element_t<b, Bases>::type>(v, std::make_index_sequence<C2>()), ...); return v; }
template<size_t ... b> static std::vector<Bits> table3(std::index_sequence<b...>) { std::vector<Bits> v; (three<typename std::tuple_element_t<deep[b], Bases>::type>(v, std::make_index_sequence<C3>()), ...); return v; }
static void single(Src & s)
{
	static const std::vector<Bits> t2 = table2(std::make_index_sequence<NB>()), t3 = table3(std::make_index_sequence<NT>()); int l[3] = {0, 0, 0}; size_t b; Bits r;
	if (s.coin()) { size_t d = s.below(NT), k = s.below(C3); b = deep[d]; l[0] = k / 27; l[1] = k / 3 % 9; l[2] = third[k % 3]; r = t3[d * C3 + k]; } else { size_t k = s.below(C2); b = s.below(NB); l[0] = k / 9; l[1] = k % 9; r = t2[b * C2 + k]; }
	std::string n = std::string(BASE[b]) + LAYER[l[0]] + LAYER[l[1]] + LAYER[l[2]]; note("%s", n.c_str());
	for (int i = 0; i < NQ; ++i) REQUIRE(((r.got ^ r.want) >> i & 1) == 0, "%s of %s %s", QUERY[i], n.c_str(), i < 10 ? (r.got >> i & 1 ? "is true" : "is false") : "is another type");
	if (l[0] || l[1]) nontrivial(); label(l[0] && l[1] && l[2] ? "three layers" : "fewer layers");
}
// Pairs
template<typename T, typename U> struct PairQ { static constexpr uint8_t bits = (IsSameType<T, U>::value ? 1 : 0) | (IsPointerOf<T, U>::value ? 2 : 0) | (is<typename ChooseType<true, T, U>::Type, T> && is<typename ChooseType<false, T, U>::Type, U> ? 4 : 0); static constexpr bool ptr = std::is_pointer<T>::value && is<std::remove_cv_t<std::remove_pointer_t<T>>, std::remove_cv_t<U>> && is<U, std::remove_cv_t<U>>; static constexpr uint8_t want = (is<T, U> ? 1 : 0) | (ptr ? 2 : 0) | 4; };
using Firsts = std::tuple<int, const int, volatile int, int *, const int *, volatile int *, const volatile int *, int * const, const int * const, int **, int &, const int &, int &&, int[3], void, void *, const void *, void * volatile, char, const char *, char *, Empty, Empty *, const Empty *, Obj *, int(), int (*)(), long, long *, unsigned *>;
using Seconds = std::tuple<int, void, char, Empty, Obj, int *, int(), long, unsigned, int &, int[3], const char *>;
template<size_t ... k> static std::array<std::array<uint8_t, 2>, sizeof...(k)> pair_table(std::index_sequence<k...>) { constexpr size_t M = std::tuple_size<Seconds>::value; return {{{{PairQ<std::tuple_element_t<k / M, Firsts>, std::tuple_element_t<k % M, Seconds>>::bits, PairQ<std::tuple_element_t<k / M, Firsts>, std::tuple_element_t<k % M, Seconds>>::want}}...}}; }
// Base classes
struct X {}; struct Y : X {}; struct Z : Y {}; class P : X {}; struct Q : virtual X, virtual Empty {};
using Classes = std::tuple<X, Y, Z, P, Q, Empty, Abstract, Un, int>;
template<size_t ... k> static std::array<std::array<bool, 2>, sizeof...(k)> base_table(std::index_sequence<k...>) { constexpr size_t M = std::tuple_size<Classes>::value; return {{{{(bool)IsBaseOf<std::tuple_element_t<k / M, Classes>, std::tuple_element_t<k % M, Classes>>::value, std::is_base_of<std::tuple_element_t<k / M, Classes>, std::tuple_element_t<k % M, Classes>>::value}}...}}; }
static void pairs(Src & s)
{
	constexpr size_t N = std::tuple_size<Firsts>::value, M = std::tuple_size<Seconds>::value, K = std::tuple_size<Classes>::value; static const auto t = pair_table(std::make_index_sequence<N * M>()); static const auto c = base_table(std::make_index_sequence<K * K>());
	size_t a = s.below(N), b = s.below(M); auto r = t[a * M + b]; note("types %zu and %zu", a, b); REQUIRE((r[0] & 1) == (r[1] & 1), "IsSameType of types %zu and %zu", a, b); REQUIRE((r[0] & 2) == (r[1] & 2), "IsPointerOf types %zu and %zu", a, b); REQUIRE((r[0] & 4) == (r[1] & 4), "ChooseType of types %zu and %zu", a, b); if (!(r[1] & 1)) nontrivial();
	size_t x = s.below(K), y = s.below(K); REQUIRE(c[x * K + y][0] == c[x * K + y][1], "IsBaseOf of classes %zu and %zu is %d", x, y, c[x * K + y][0]);
}
// Triviality, by what the class declares
struct T0 { int a; }; struct T1 { int a = 1; }; struct T2 { T2() {} int a; }; struct T3 { ~T3() {} int a; }; struct T4 { T4(const T4 &) {} T4 & operator=(const T4 &) = default; int a; }; struct T5 { T5() = default; T5(const T5 &) = default; T5 & operator=(const T5 &) { return *this; } int a; }; struct T6 { virtual void f() {} int a; }; struct T7 { T0 a; T3 b; }; struct T8 { T8() = default; T8(T8 &&) {} T8(const T8 &) = delete; T8 & operator=(const T8 &) = delete; int a; }; struct T9 : T0 { int b; }; struct T10 { private: int a; public: int b; }; struct T11 { int * p; const int c; }; struct T12 { T12(int) {} int a; }; struct T13 { T13() = default; T13(const T13 &) = default; T13 & operator=(T13 &&) { return *this; } T13 & operator=(const T13 &) = default; int a; };
struct Triv { const char * name; bool got[6], want[6]; };   // trivial, POD, constructor, destructor, copyable, assignable
template<typename T> static Triv triv(const char * n, bool t, bool p, bool c, bool d, bool y, bool a) { return {n, {IsTrivial<T>::value, IsPOD<T>::value, IsTriviallyConstructible<T>::value, IsTriviallyDestructible<T>::value, IsTriviallyCopyable<T>::value, IsTriviallyAssignable<T>::value}, {t, p, c, d, y, a}}; }
static void triviality(Src & s)
{
	static const std::vector<Triv> v = {
		triv<int>("int", 1, 1, 1, 1, 1, 1), triv<double *>("pointer", 1, 1, 1, 1, 1, 1), triv<Plain>("enum", 1, 1, 1, 1, 1, 1), triv<int[3]>("array", 1, 1, 1, 1, 1, 1), triv<Un>("union", 1, 1, 1, 1, 1, 1), triv<Empty>("empty struct", 1, 1, 1, 1, 1, 1),
		triv<T0>("plain struct", 1, 1, 1, 1, 1, 1), triv<T1>("with initial value", 0, 0, 0, 1, 1, 1), triv<T2>("with constructor", 0, 0, 0, 1, 1, 1), triv<T3>("with destructor", 0, 0, 1, 0, 0, 1), triv<T4>("with copy constructor", 0, 0, 0, 1, 0, 1), triv<T5>("with assignment", 0, 0, 1, 1, 0, 0), triv<T6>("with virtual function", 0, 0, 0, 1, 0, 0), triv<T7>("with a member that has a destructor", 0, 0, 1, 0, 0, 1), triv<T9>("derived with own data", 1, 0, 1, 1, 1, 1), triv<T10>("with private data", 1, 0, 1, 1, 1, 1), triv<T12>("without default constructor", 0, 0, 0, 1, 1, 1), triv<Obj>("owning object", 0, 0, 0, 0, 0, 0), triv<Pod>("pod", 1, 1, 1, 1, 1, 1), triv<std::string>("string", 0, 0, 0, 0, 0, 0)};
	static const char * const WHAT[] = {"IsTrivial", "IsPOD", "IsTriviallyConstructible", "IsTriviallyDestructible", "IsTriviallyCopyable", "IsTriviallyAssignable"};
	auto & t = v[s.below(v.size())]; size_t q = s.below(6); note("%s of %s", WHAT[q], t.name); REQUIRE(t.got[q] == t.want[q], "%s of %s is %d", WHAT[q], t.name, t.got[q]); nontrivial();
	REQUIRE(!IsTriviallyCopyable<T8>::value && !IsTriviallyCopyable<T13>::value, "a class with a move of its own is copied as plain memory"); REQ(IsTriviallyCopyable<T11>::value);
	// base classes that forbid copies and moves
	struct NC : NonCopyable { int a; }; struct NM : NonMovable { int a; }; REQ(std::is_default_constructible<NC>::value && std::is_default_constructible<NM>::value); REQUIRE(!std::is_copy_constructible<NC>::value && !std::is_copy_assignable<NC>::value, "NonCopyable can be copied"); REQUIRE(!std::is_move_constructible<NM>::value && !std::is_move_assignable<NM>::value, "NonMovable can be moved");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"single", single, 60000, 600000, "one type: 18 queries and transformations, move, forward, EnableIf, ChooseType"},
	{"pairs", pairs, 20000, 100000, "pairs of types: sameness, pointer to, choice, base of"},
	{"triviality", triviality, 4000, 20000, "which special members are trivial, by what the class declares"},
};
}
