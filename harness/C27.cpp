// Comparisons against the mathematical order, and containers that rely on them
#include "support.h"
#include "templates/functional.h"
#include "containers/pair.h"
#include "containers/string.h"
#include "containers/set.h"
#include "containers/map.h"
#include "containers/tree.h"
static int sg(int64_t v) { return (v > 0) - (v < 0); }
// Types under comparison: model value M with a total order, and how to make and read a T
struct Version { int major, minor; bool operator<(const Version & o) const { return major != o.major ? major < o.major : minor < o.minor; } bool operator>(const Version & o) const { return o < *this; } };
template<typename T> struct K { using M = T; static M gen(Src & s) { if constexpr (std::is_same<T, bool>::value) return s.coin(); else return s.integer<T>(); } static T make(const M & m) { return m; } static M read(const T & t) { return t; } static std::string str(const M & m) { return std::to_string(m); } static constexpr bool rel = true; };
template<typename T> struct KF { using M = T; static M gen(Src & s) { switch (s.below(7)) { case 0: return (T)((int)s.below(7) - 3); case 1: return s.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); case 2: return s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); case 3: return (s.coin() ? 1 : -1) * std::numeric_limits<T>::denorm_min() * (T)s.below(3); case 4: return std::nextafter((T)((int)s.below(5) - 2), (T)(s.coin() ? 9 : -9)); case 5: return ((int)s.below(100) - 50) / (T)100; default: return std::ldexp((T)((int)s.below(2001) - 1000), (int)s.below(120) - 60); } } static T make(const M & m) { return m; } static M read(const T & t) { return t; } static std::string str(const M & m) { char b[48]; snprintf(b, 48, "%.17g", (double)m); return b; } static constexpr bool rel = true; };
template<> struct K<float32> : KF<float32> {}; template<> struct K<float64> : KF<float64> {};
struct Bytes { std::string t; bool operator<(const Bytes & o) const { return t < o.t; } };    // std::string orders bytes as unsigned
template<> struct K<String>
{
	using M = Bytes; static M gen(Src & s) { M m; size_t n = s.coin() ? s.below(4) : s.length(40); unsigned k = s.below(3); for (size_t i = 0; i < n; ++i) m.t += k == 0 ? s.pick<char>({'a', 'b'}) : k == 1 ? s.pick<char>({'\x01', '\x7f', '\x80', '\xff', 'A', 'a'}) : (char)(1 + s.below(255)); return m; }
	static String make(const M & m) { return String(m.t.c_str()); } static M read(const String & t) { return {std::string(*t, t.getLength())}; } static std::string str(const M & m) { return pbt::show(m.t); } static constexpr bool rel = true;
};
template<> struct K<Version> { struct M { int a, b; bool operator<(const M & o) const { return a != o.a ? a < o.a : b < o.b; } }; static M gen(Src & s) { return {s.coin() ? (int)s.below(3) : s.integer<int>(), (int)s.below(3)}; } static Version make(const M & m) { return {m.a, m.b}; } static M read(const Version & v) { return {v.major, v.minor}; } static std::string str(const M & m) { return std::to_string(m.a) + "." + std::to_string(m.b); } static constexpr bool rel = false; };
template<> struct K<Obj> { using M = int; static M gen(Src & s) { return s.coin() ? (int)s.below(8) : s.integer<int>(); } static Obj make(int v) { return Obj(v); } static int read(const Obj & o) { return o.get(); } static std::string str(int v) { return std::to_string(v); } static constexpr bool rel = true; };
template<typename A, typename B> struct K<Pair<A, B, ThreeWayCompare>> { using P = Pair<A, B, ThreeWayCompare>; struct M { typename K<A>::M k; bool operator<(const M & o) const { return k < o.k; } }; static M gen(Src & s) { return {K<A>::gen(s)}; } static P make(const M & m) { return P(K<A>::make(m.k), B()); } static M read(const P & p) { return {K<A>::read(p.first)}; } static std::string str(const M & m) { return "pair of " + K<A>::str(m.k); } static constexpr bool rel = true; };

// A value close to another one, so that equal and adjacent ones are common
template<typename T> static typename K<T>::M similar(Src & s, const std::vector<typename K<T>::M> & v)
{
	using M = typename K<T>::M; if (v.empty() || s.coin()) return K<T>::gen(s); M m = v[s.below(v.size())];
	if constexpr (std::is_integral<M>::value && !std::is_same<M, bool>::value) { switch (s.below(4)) { case 0: return m; case 1: return m == std::numeric_limits<M>::max() ? m : (M)(m + 1); case 2: return (M)~m; default: return (M)(m ^ (M)((M)1 << s.below(8 * sizeof(M) - 1))); } }
	else if constexpr (std::is_same<M, Bytes>::value) { switch (s.below(5)) { case 0: return m; case 1: m.t += (char)(1 + s.below(255)); return m; case 2: if (m.t.size()) m.t.pop_back(); return m; default: if (m.t.size()) { auto & c = m.t[s.below(m.t.size())]; c = (char)(s.coin() ? c ^ 0x80 : c ^ 0x20); if (!c) c = 1; } return m; } }
	else return m;
}
template<typename M> static int order(const M & a, const M & b) { return a < b ? -1 : b < a ? 1 : 0; }
template<typename T> static void triple(Src & s)
{
	using M = typename K<T>::M; objs().reset();
	{
		std::vector<M> m; for (int i = 0; i < 4; ++i) { m.push_back(similar<T>(s, m)); note("%s", K<T>::str(m[i]).c_str()); } std::vector<T> v; v.reserve(4); for (auto & x : m) v.push_back(K<T>::make(x)); ThreeWayCompare cmp; int c[4][4], diff = 0;
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
		{
			const T & a = v[i], & b = v[j]; int e = order(m[i], m[j]); diff += e != 0; c[i][j] = sg(cmp(a, b)); auto nm = [&] { return K<T>::str(m[i]) + " and " + K<T>::str(m[j]); };
			REQUIRE(c[i][j] == e, "three-way comparison of %s is %d, expected %d", nm().c_str(), cmp(a, b), e); REQUIRE(sg(cmp(v[i], v[j])) == e && sg(cmp(T(a), T(b))) == e && sg(cmp(a, v[j])) == e, "three-way comparison of %s depends on how they are passed", nm().c_str());
			{ const T * p = &a, * q = &b; REQUIRE(sg(cmp(static_cast<const T*>(p), static_cast<const T*>(q))) == e, "comparison of pointers to constants %s", nm().c_str()); }
			REQUIRE((a < b) == (e < 0) && (a > b) == (e > 0), "< and > of %s are %d and %d, three-way %d", nm().c_str(), a < b, a > b, e); if constexpr (K<T>::rel) { REQUIRE((a <= b) == (e <= 0) && (a >= b) == (e >= 0), "<= and >= of %s are %d and %d, three-way %d", nm().c_str(), a <= b, a >= b, e); REQUIRE((a == b) == (e == 0) && (a != b) == (e != 0), "== and != of %s are %d and %d, three-way %d", nm().c_str(), a == b, a != b, e); }
			REQUIRE(NullCompare()(a, b) == 0, "null comparison is not null");
			if constexpr (std::is_same<T, String>::value)
			{
				const char * z = m[j].t.c_str(); REQUIRE(sg(a.cmp(b)) == e && sg(a.cmp(z)) == e, "cmp of %s is %d / %d, expected sign %d", nm().c_str(), a.cmp(b), a.cmp(z), e); REQUIRE((a == z) == (e == 0) && (a != z) == (e != 0) && (a < z) == (e < 0) && (a > z) == (e > 0) && (a <= z) == (e <= 0) && (a >= z) == (e >= 0), "comparison of %s as a literal", nm().c_str());
				auto low = [](std::string x) { for (auto & ch : x) if (ch >= 'A' && ch <= 'Z') ch += 32; return x; }; std::string la = low(m[i].t), lb = low(m[j].t); int ie = order(Bytes{la}, Bytes{lb}); REQUIRE(sg(a.icmp(b)) == ie && sg(a.icmp(z)) == ie && sg(b.icmp(a)) == -ie, "icmp of %s is %d, expected sign %d", nm().c_str(), a.icmp(b), ie); if (e == 0) REQ(ie == 0);
			}
		}
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { REQ(c[i][j] == -c[j][i]); for (int k = 0; k < 4; ++k) if (c[i][j] <= 0 && c[j][k] <= 0) REQ(c[i][k] <= 0 && (c[i][k] == 0) == (c[i][j] == 0 && c[j][k] == 0)); }
		if (diff >= 2 && diff < 16) nontrivial();
	}
	REQ(objs().live.empty());
}
template<typename T> static void contained(Src & s)
{
	using M = typename K<T>::M; objs().reset();
	{
		Set<T> set; Map<T, int> map; BinaryTree<T> tree; std::map<M, int> m; std::vector<M> pool; size_t n = 4 + s.length(60);
		for (size_t k = 0; k < n; ++k)
		{
			M x = similar<T>(s, pool); pool.push_back(x); T t(K<T>::make(x)); auto w = K<T>::str(x); bool was = m.count(x);
			switch (s.weighted({6, 2, 2}))
			{
			case 0: note("add %s", w.c_str()); label(was ? "present" : "new"); set.set(t); map.insert(t, (int)k); tree.insertUnique(t); m[x] = (int)k; break;
			case 1: note("remove %s", w.c_str()); REQUIRE(set.remove(t) == was, "set.remove(%s) is %d", w.c_str(), !was); REQUIRE(map.remove(t) == was, "map.remove(%s) is %d", w.c_str(), !was); { auto it = tree.find(t); REQUIRE((it != tree.end()) == was, "tree finds %s: %d", w.c_str(), !was); if (was) tree.remove(it); } m.erase(x); break;
			default: { note("look for %s", w.c_str()); const auto & cs = set; REQUIRE(cs.get(t) == was && cs.any(t) == was, "set.get(%s) is %d", w.c_str(), !was); REQUIRE(map.has(t) == was, "map.has(%s) is %d", w.c_str(), !was); if (was) REQUIRE(map[t] == m[x], "map[%s]", w.c_str()); }
			}
			REQUIRE(set.getSize() == m.size() && map.getSize() == m.size() && tree.getNumNodes() == m.size(), "%zu distinct values, but set, map and tree hold %llu, %llu and %llu", m.size(), (unsigned long long)set.getSize(), (unsigned long long)map.getSize(), (unsigned long long)tree.getNumNodes());
			auto it = m.begin(); for (auto & e : static_cast<const Set<T>&>(set)) { REQUIRE(it != m.end() && order(K<T>::read(e), it->first) == 0, "set yields %s", K<T>::str(K<T>::read(e)).c_str()); ++it; } REQ(it == m.end());
			it = m.begin(); for (auto & e : map) { REQUIRE(it != m.end() && order(K<T>::read(e.first), it->first) == 0 && e.second == it->second, "map yields %s -> %d", K<T>::str(K<T>::read(e.first)).c_str(), e.second); ++it; } REQ(it == m.end());
			it = m.begin(); for (auto & e : tree) { REQUIRE(it != m.end() && order(K<T>::read(e), it->first) == 0, "tree yields %s", K<T>::str(K<T>::read(e)).c_str()); ++it; } REQ(it == m.end());
		}
		if (m.size() >= 4) nontrivial();
	}
	REQ(objs().live.empty());
}
// Sets whose items are compared through pointers to constants
static void pointers(Src & s)
{
	std::deque<int> store; Set<const int*> set; std::set<int> m; size_t n = 3 + s.length(30); for (size_t i = 0; i < n; ++i) { int v = s.coin() ? (int)s.below(12) : s.integer<int>(); note("add pointer to %d", v); store.push_back(v); const int * p = &store.back(); set.set(p); m.insert(v); REQUIRE(set.getSize() == m.size(), "%zu distinct values, set holds %llu", m.size(), (unsigned long long)set.getSize()); auto it = m.begin(); for (auto & e : set) { REQ(it != m.end() && *e == *it); ++it; } }
	if (m.size() >= 3) nontrivial();
}
#define EACH(F) switch (s.below(16)) { case 0: F<int8>(s); break; case 1: F<uint8>(s); break; case 2: F<int16>(s); break; case 3: F<uint16>(s); break; case 4: F<int32>(s); break; case 5: F<uint32>(s); break; case 6: F<int64>(s); break; case 7: F<uint64>(s); break; case 8: F<char>(s); break; case 9: F<float32>(s); break; case 10: F<float64>(s); break; case 11: case 12: F<String>(s); break; case 13: F<Version>(s); break; case 14: F<Obj>(s); break; default: if (s.coin()) F<Pair<int64, int, ThreeWayCompare>>(s); else F<Pair<String, int, ThreeWayCompare>>(s); }
static void triples(Src & s) { EACH(triple) }
static void containers(Src & s) { switch (s.below(14)) { case 0: contained<int8>(s); break; case 1: contained<uint8>(s); break; case 2: contained<int16>(s); break; case 3: contained<uint16>(s); break; case 4: contained<int32>(s); break; case 5: contained<uint32>(s); break; case 6: contained<int64>(s); break; case 7: contained<uint64>(s); break; case 8: contained<float32>(s); break; case 9: contained<float64>(s); break; case 10: case 11: contained<String>(s); break; case 12: contained<Version>(s); break; default: contained<Obj>(s); } }
// Different types, where both can hold the value
static void mixed(Src & s)
{
	ThreeWayCompare c; int64 a = s.integer<int64>(); int32 b = s.integer<int32>(); int16 d = s.integer<int16>(); uint8 u = s.integer<uint8>(); uint64 w = s.integer<uint64>(); uint32 x = s.integer<uint32>(); if (s.chance(1, 3)) a = b; if (s.chance(1, 3)) b = d; if (s.chance(1, 3)) w = x; note("%lld %d %d %u %llu %u", (long long)a, b, d, u, (unsigned long long)w, x);
	auto o = [](__int128 p, __int128 q) { return p < q ? -1 : p > q; }; REQ(sg(c(a, b)) == o(a, b) && sg(c(b, a)) == o(b, a)); REQ(sg(c(b, d)) == o(b, d) && sg(c(d, u)) == o(d, u) && sg(c(u, a)) == o(u, a)); REQ(sg(c(w, x)) == o(w, x) && sg(c(x, u)) == o(x, u) && sg(c(u, w)) == o(u, w)); double f = d + 0.5; REQ(sg(c(f, d)) == 1 && sg(c(d, f)) == -1 && sg(c((double)b, b)) == 0); nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"triples", triples, 1200000, 4800000, "at least two of the four values differ and not all pairs do"},
	{"containers", containers, 120000, 480000, "four or more distinct values held at the end"},
	{"pointers", pointers, 120000, 480000, "three or more distinct values"},
	{"mixed", mixed, 600000, 2400000, "every case"},
};
const char * PROPERTY = "C27";
const char * RULE = "values of which some are equal and some differ; containers with at least four distinct values at the end";
}
