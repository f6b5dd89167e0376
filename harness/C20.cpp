#include "support.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "containers/array.h"
#include "containers/string.h"
#include "templates/array.h"
#include "templates/name.h"
#include "templates/type_info.h"
#include "templates/functional.h"
#include <tuple>
#include <array>
#include <utility>
namespace pbt {
const char * PROPERTY = "C20";
const char * RULE = "a case is a history of writes, reads, copies and moves of tuples (shapes of 1 to 6 component types), static arrays and pairs compared component by component with ideal ones after every step, or of names and joined names compared with their texts; non-trivial: at least 4 writes, or for pairs and names every case";
}
// value of any component type from an int
template<typename T> struct V { static T make(int v) { return Elem<T>::make(v); } static int read(const T & t) { return Elem<T>::read(t); } };
template<> struct V<String> { static String make(int v) { return String(("text " + std::to_string(v)).c_str()); } static int read(const String & t) { std::string s(*t, t.getLength()); REQUIRE(s.substr(0, 5) == "text ", "string component is \"%s\"", s.c_str()); return atoi(s.c_str() + 5); } };
template<> struct V<bool> { static bool make(int v) { return v & 1; } static int read(const bool & b) { return b; } };
template<> struct V<short> { static short make(int v) { return (short)v; } static int read(const short & b) { return b; } };
template<> struct V<float> { static float make(int v) { return v + 0.25f; } static int read(const float & b) { return (int)b; } };
template<> struct V<uint64> { static uint64 make(int v) { return (uint64)v << 40 | v; } static int read(const uint64 & b) { REQ((b >> 40) == (b & 0xffff)); return (int)(b & 0xffff); } };
template<typename T> static int norm(int v) { return std::is_same<T, bool>::value ? v & 1 : v; }
template<typename ... Ts> struct TupleShape
{
	using Tup = Tuple<Ts...>; static constexpr size_t N = sizeof...(Ts); using M = std::array<int, N>;
	template<size_t i> using At = typename std::tuple_element<i, std::tuple<Ts...>>::type;
	template<size_t i> static void check(const Tup & c, Tup & t, const M & m, const char * what)
	{
		REQUIRE(V<At<i>>::read(c.template get<i>()) == m[i], "%s: component %zu of %zu is %d, expected %d", what, i, N, V<At<i>>::read(c.template get<i>()), m[i]);
		REQ(V<At<i>>::read(t.template get<i>()) == m[i]); REQ((const void*)&t.template get<i>() == (const void*)&c.template get<i>());
		// by type: the first component of that type
		const size_t first = index_of<At<i>>(); REQUIRE((const void*)&c.template get<At<i>>() == (const void*)&c.template get<first>(), "get by the type of component %zu is not the first component of that type", i); REQ((const void*)&t.template get<At<i>>() == (const void*)&c.template get<first>());
	}
	template<typename T> static constexpr size_t index_of() { bool same[] = {std::is_same<T, Ts>::value...}; for (size_t i = 0; i < N; ++i) if (same[i]) return i; return N; }
	template<size_t ... i> static void all(Tup & t, const M & m, const char * what, std::index_sequence<i...>) { const Tup & c = t; (check<i>(c, t, m, what), ...); std::set<const void*> a; (a.insert(&t.template get<i>()), ...); REQUIRE(a.size() == N, "components share storage"); REQ(t.getCount() == N && t.getLength() == N && t.getSize() == N); }
	static void verify(Tup & t, const M & m, const char * what) { all(t, m, what, std::make_index_sequence<N>()); }
	template<size_t i> static void set(Tup & t, M & m, size_t k, int v, bool type) { if (i != k) return; if (type && index_of<At<i>>() == i) t.template get<At<i>>() = V<At<i>>::make(v); else t.template get<i>() = V<At<i>>::make(v); m[i] = norm<At<i>>(v); }
	template<size_t ... i> static void write(Tup & t, M & m, size_t k, int v, bool type, std::index_sequence<i...>) { (set<i>(t, m, k, v, type), ...); }
	template<size_t ... i> static Tup build(const M & m, bool lv, std::index_sequence<i...>) { if (lv) { std::tuple<Ts...> x{V<At<i>>::make(m[i])...}; return Tup{std::get<i>(x)...}; } return Tup{V<At<i>>::make(m[i])...}; }
	template<size_t ... i> static void normalise(M & m, std::index_sequence<i...>) { ((m[i] = norm<At<i>>(m[i])), ...); }
	static void run(Src & s)
	{
		auto seq = std::make_index_sequence<N>(); M m, n; for (size_t i = 0; i < N; ++i) { m[i] = s.below(100); n[i] = s.below(100); } normalise(m, seq); normalise(n, seq);
		Tup a(build(m, s.coin(), seq)), b(build(n, s.coin(), seq)); verify(a, m, "construction"); verify(b, n, "construction"); size_t ops = 4 + s.length(20), writes = 0; note("tuple of %zu", N);
		for (size_t k = 0; k < ops; ++k)
		{
			switch (s.weighted({8, 2, 2, 1, 1}))
			{
			case 0: { size_t i = s.below(N); int v = s.below(100); bool f = s.coin(), ty = s.coin(); note("%s[%zu] = %d%s", f ? "a" : "b", i, v, ty ? " (by type)" : ""); write(f ? a : b, f ? m : n, i, v, ty, seq); ++writes; break; }
			case 1: { note("b = a"); b = static_cast<const Tup&>(a); n = m; break; }
			case 2: { note("c(a), b = move(c)"); Tup c(static_cast<const Tup&>(a)); Tup d(a); verify(c, m, "copy"); verify(d, m, "copy"); b = std::move(c); n = m; break; }
			case 3: { note("c(move(a)), a = c"); Tup c(std::move(a)); verify(c, m, "move"); a = static_cast<const Tup&>(c); break; }
			case 4: { note("swap"); Tup c(static_cast<const Tup&>(a)); a = static_cast<const Tup&>(b); b = std::move(c); std::swap(m, n); break; }
			}
			verify(a, m, "a"); verify(b, n, "b");
		}
		if (writes >= 4) nontrivial();
	}
};
static void tuples(Src & s)
{
	objs().reset();
	switch (s.below(12))
	{
	case 0: TupleShape<int>::run(s); break; case 1: TupleShape<Obj>::run(s); break; case 2: TupleShape<int, char>::run(s); break; case 3: TupleShape<char, double, char>::run(s); break; case 4: TupleShape<Obj, int, String>::run(s); break; case 5: TupleShape<bool, Pod, short, int>::run(s); break; case 6: TupleShape<String, String>::run(s); break;
	case 7: TupleShape<int, int, int, int>::run(s); break; case 8: TupleShape<char, uint64, short, double, bool>::run(s); break; case 9: TupleShape<Obj, Obj, char, Obj, String, int>::run(s); break; case 10: TupleShape<float, long, float, long, char>::run(s); break; default: TupleShape<bool, bool, Obj>::run(s); break;
	}
	REQUIRE(objs().live.empty(), "%zu components still alive", objs().live.size());
}
template<typename T, size_t N> static void static_array(Src & s)
{
	objs().reset();
	{
		using A = StaticArray<T, N>; std::vector<int> m, n; for (size_t i = 0; i < N; ++i) { m.push_back(s.below(100)); n.push_back(s.below(100)); } note("static array of %zu", N);
		std::vector<T> raw; for (int v : m) raw.push_back(Elem<T>::make(v));
		A a(static_cast<const T*>(raw.data())), b(static_cast<const T*>(raw.data())); n = m; if constexpr (!std::is_same<T, Pod>::value) { A e; for (size_t i = 0; i < N; ++i) REQUIRE(Elem<T>::read(e[i]) == Elem<T>::read(T{}), "item %zu of a new array is not the default", i); }
		auto verify = [&](A & x, const std::vector<int> & v) { const A & c = x; REQ(c.getCount() == N); for (size_t i = 0; i < N; ++i) { REQUIRE(Elem<T>::read(c[i]) == v[i], "item %zu is %d, expected %d", i, Elem<T>::read(c[i]), v[i]); REQ(&c[i] == *c + i && &x[i] == *x + i && &x[i] == &c[i]); } };
		verify(a, m); verify(b, n); size_t ops = 4 + s.length(20), writes = 0;
		for (size_t k = 0; k < ops; ++k)
		{
			switch (s.weighted({8, 2, 1, 1}))
			{
			case 0: { size_t i = s.below(N); int v = s.below(100); bool f = s.coin(); note("%s[%zu] = %d", f ? "a" : "b", i, v); (f ? a : b)[i] = Elem<T>::make(v); (f ? m : n)[i] = v; ++writes; break; }
			case 1: note("b = a"); b = static_cast<const A&>(a); n = m; break;
			case 2: { note("copies"); A c(a), d(static_cast<const A&>(a)); verify(c, m); verify(d, m); A e(std::move(c)); verify(e, m); b = std::move(e); n = m; break; }
			case 3: { note("to a dynamic array"); Array<T> d(a); REQ(d.getCount() == N); for (size_t i = 0; i < N; ++i) REQ(Elem<T>::read(d[i]) == m[i]); break; }
			}
			verify(a, m); verify(b, n);
		}
		if (writes >= 4) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu items still alive", objs().live.size());
}
// More items than fit a narrow index
template<typename T, size_t N> static void large_array(Src & s)
{
	using A = StaticArray<T, N>; int b = s.below(100); auto val = [b](size_t i) { return (int)((i * 31 + b + i / 256) % 100); }; note("static array of %zu", N);
	std::vector<T> raw; for (size_t i = 0; i < N; ++i) raw.push_back(Elem<T>::make(val(i))); std::unique_ptr<A> a(new A(static_cast<const T*>(raw.data()))), c(new A(static_cast<const A&>(*a)));
	auto verify = [&](const A & x, size_t w, int v) { REQUIRE(x.getCount() == N, "count is %llu, expected %zu", (unsigned long long)x.getCount(), N); for (size_t i = 0; i < N; ++i) REQUIRE(Elem<T>::read(x[i]) == (i == w ? v : val(i)), "item %zu of %zu is %d, expected %d", i, N, Elem<T>::read(x[i]), i == w ? v : val(i)); REQ(&x[N - 1] == *x + (N - 1)); };
	verify(*a, N, 0); verify(*c, N, 0); size_t w = s.coin() ? N - 1 - s.below(3) : s.below(N); (*a)[w] = Elem<T>::make(77); verify(*a, w, 77); verify(*c, N, 0); *c = *a; verify(*c, w, 77); Array<T> d(*a); REQ(d.getCount() == N); for (size_t i = 0; i < N; ++i) REQ(Elem<T>::read(d[i]) == Elem<T>::read((*a)[i])); A e; REQ(e.getCount() == N); for (size_t i = 0; i < N; ++i) REQ(Elem<T>::read(e[i]) == 0); nontrivial();
}
static void arrays(Src & s)
{
	if (s.chance(1, 40)) { switch (s.below(5)) { case 3: large_array<short, 64>(s); break; case 4: large_array<int, 1024>(s); break; case 0: large_array<int, 300>(s); break; case 1: large_array<char, 70000>(s); break; default: large_array<long, 257>(s); } return; }
	switch (s.below(11)) { case 7: static_array<int, 8>(s); break; case 8: static_array<Obj, 16>(s); break; case 9: static_array<char, 2>(s); break; case 10: static_array<long, 6>(s); break; case 0: static_array<int, 1>(s); break; case 1: static_array<int, 7>(s); break; case 2: static_array<char, 5>(s); break; case 3: static_array<Obj, 4>(s); break; case 4: static_array<Pod, 3>(s); break; case 5: static_array<double, 33>(s); break;
	default: { int a = s.below(100), b = s.below(100), c = s.below(100); note("items %d %d %d", a, b, c); StaticArray<int, 3> x(a, b, c); REQ(x[0] == a && x[1] == b && x[2] == c && x.getCount() == 3); StaticArray<int, 5> p(a, b); REQ(p[0] == a && p[1] == b && p[2] == 0 && p[4] == 0); objs().reset(); { Obj o(a); StaticArray<Obj, 2> y(o, Obj(b)); REQ(y[0].get() == a && y[1].get() == b && o.get() == a); } REQ(objs().live.empty()); int raw[4] = {a, b, c, a}; auto z = makeStaticArray(raw); REQ(z.getCount() == 4 && z[0] == a && z[1] == b && z[2] == c && z[3] == a); raw[0] = -1; REQ(z[0] == a); nontrivial(); } }
}
// Pairs: comparison by key with the given comparison
struct Mod { int32 operator()(int a, int b) const { return a % 7 - b % 7; } };
template<typename C, typename K> static void pair_order(Src & s, const std::function<int(const K&, const K&)> & order, K (*key)(Src &))
{
	using P = Pair<K, Obj, C>; std::vector<P> v; for (int i = 0; i < 3; ++i) { K k = key(s); v.emplace_back(k, Obj(s.below(4))); }
	for (auto & x : v) for (auto & y : v)
	{
		int o = order(x.first, y.first); REQUIRE((x == y) == (o == 0), "== of pairs whose keys compare %d", o); REQUIRE((x != y) == (o != 0), "!= of pairs whose keys compare %d", o); REQUIRE((x < y) == (o < 0), "< of pairs whose keys compare %d", o); REQUIRE((x > y) == (o > 0), "> of pairs whose keys compare %d", o); REQUIRE((x <= y) == (o <= 0), "<= of pairs whose keys compare %d", o); REQUIRE((x >= y) == (o >= 0), ">= of pairs whose keys compare %d", o);
		typename P::FindPair f; auto sg = [](int z) { return (z > 0) - (z < 0); }; REQUIRE(sg(f(x, y)) == sg(o), "pairs compare %d, keys %d", f(x, y), o); REQ(sg(f(x, y.first)) == sg(o) && sg(f(x.first, y)) == sg(o));
	}
}
template<typename T> static int cmp3(const T & a, const T & b) { return a < b ? -1 : b < a ? 1 : 0; }
static void pairs(Src & s)
{
	objs().reset();
	{
		int a = s.below(100), b = s.below(100), c = s.below(100); note("pairs of %d %d %d", a, b, c);
		{ Obj o(b); Pair<Obj, Obj> p(Obj(a), o); REQ(p.first.get() == a && p.second.get() == b && o.get() == b); REQ(&p.getKey() == &p.first && &p.getVal() == &p.second); p.getVal() = Obj(c); REQ(p.first.get() == a && p.second.get() == c); p.first = Obj(b); REQ(p.first.get() == b && p.second.get() == c); Pair<Obj, Obj> q(static_cast<const Pair<Obj, Obj>&>(p)), r(p); q.second.set(5); REQ(p.second.get() == c && r.second.get() == c && r.first.get() == b && q.first.get() == b); p = q; REQ(p.second.get() == 5); Pair<Obj, Obj> m(std::move(q)); REQ(m.first.get() == b && m.second.get() == 5); const auto & k = m; REQ(k.getVal().get() == 5 && k.getKey().get() == b); }
		{ Pair<String, int> p("key", a); REQ(p.second == a && std::string(*p.first) == "key"); }
		switch (s.below(5))
		{
		case 0: pair_order<ThreeWayCompare, int>(s, cmp3<int>, [](Src & q) { return q.coin() ? (int)q.below(4) : q.integer<int>(); }); break;
		case 1: pair_order<ThreeWayCompare, double>(s, cmp3<double>, [](Src & q) { return q.pick<double>({0.0, -0.0, 1.5, -1e300, 1e300, 0.1, 0.2, 0.30000000000000004, 0.3}); }); break;
		case 2: pair_order<Mod, int>(s, [](const int & x, const int & y) { return x % 7 - y % 7; }, [](Src & q) { return (int)q.below(20); }); break;
		case 3: pair_order<NullCompare, int>(s, [](const int &, const int &) { return 0; }, [](Src & q) { return (int)q.below(20); }); break;
		default: pair_order<ThreeWayCompare, uint64>(s, cmp3<uint64>, [](Src & q) { return q.coin() ? (uint64)q.below(4) : q.integer<uint64>(); }); break;
		}
	}
	REQ(objs().live.empty()); nontrivial();
}
static constexpr Name nA = "Array", nB = "", nC = "<", nD = "int32", nE = ">", nF = "a longer name, with spaces and 0123456789";
static constexpr Name nZ{"ab\0cd"}, nL{"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789"};
static constexpr Name nP{"prefix and more", 6}, nE0{"unused", (sizet)0};
static void names(Src & s)
{
	std::string t; size_t n = s.length(60); for (size_t i = 0; i < n; ++i) t += (char)s.below(256); note("name %s", pbt::show(t).c_str());
	// exact-size heap copy, so that reads outside are seen
	char * raw = (char*)malloc(n ? n : 1); memcpy(raw, t.data(), n); { Name x(raw, n); REQUIRE(x.getLength() == n, "length %zu, expected %zu", (size_t)x.getLength(), n); REQ(*x == raw); for (size_t i = 0; i < n; ++i) REQUIRE(x[i] == t[i], "character %zu", i); Name y(x); REQ(y.getLength() == n && *y == raw); } free(raw);
	auto same = [](const Name & x, const std::string & e) { REQUIRE(x.getLength() == e.size() && std::string(*x, x.getLength()) == e, "name is \"%.*s\" (%zu), expected \"%s\"", (int)x.getLength(), *x, (size_t)x.getLength(), e.c_str()); REQUIRE((*x)[x.getLength()] == 0, "joined name is not terminated"); };
	same(JOIN_NAME(nA, nC, nD, nE), "Array<int32>"); same(JOIN_NAME(nB), ""); same(JOIN_NAME(nB, nA), "Array"); same(JOIN_NAME(nA, nB, nA), "ArrayArray"); same(JOIN_NAME(nF, nF, nC), std::string(*nF) + *nF + "<"); same(JOIN_NAME(nC), "<"); same(nA, "Array"); same(nB, "");
	same(nZ, std::string("ab\0cd", 5)); same(JOIN_NAME(nZ, nA, nZ), std::string("ab\0cdArrayab\0cd", 15)); same(JOIN_NAME(nP, nE0, nP), "prefixprefix"); { std::string l; for (int i = 0; i < 17; ++i) l += "0123456789abcdef"; l += "0123456789"; same(nL, l); same(JOIN_NAME(nL, nA), l + "Array"); same(JOIN_NAME(nC, nL, nL, nE), "<" + l + l + ">"); }
	same(TypeDebugInfo<void>::debugName, "void"); same(TypeDebugInfo<int8>::debugName, "int8"); same(TypeDebugInfo<int16>::debugName, "int16"); same(TypeDebugInfo<int32>::debugName, "int32"); same(TypeDebugInfo<int64>::debugName, "int64"); same(TypeDebugInfo<uint8>::debugName, "uint8"); same(TypeDebugInfo<uint16>::debugName, "uint16"); same(TypeDebugInfo<uint32>::debugName, "uint32"); same(TypeDebugInfo<uint64>::debugName, "uint64");
	char lit[8] = "sixteen"; Name l(lit); REQ(l.getLength() == 7); StaticArray<char, 4> sa('a', 'b', 'c'); Name m(sa); REQ(m.getLength() == 3 && std::string(*m) == "abc"); nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"tuples", tuples, 300000, 1200000, "tuples of 12 shapes"},
	{"arrays", arrays, 200000, 800000, "static arrays"},
	{"pairs", pairs, 200000, 800000, "pairs and their order"},
	{"names", names, 100000, 400000, "names"},
};
}
