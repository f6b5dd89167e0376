#include "support.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "algorithm/sort.h"
#include "templates/functional.h"
namespace pbt {
const char * PROPERTY = "C11";
const char * RULE = "a generated range (length, distribution, item type, iterator, ordering) is sorted and checked to be ordered, to be a permutation of what it was, and to leave guard items on both sides alone; non-trivial: at least 4 items, not already in order";
}
enum Shape { RANDOM, FEW, SORTED, REVERSED, EQUAL, ALMOST, PIPE };
static std::vector<int> data(Src & s, size_t max)
{
	size_t n = s.below(3) == 0 ? s.below(6) : s.length(max); std::vector<int> v; unsigned sh = s.below(7); int span = 1 + s.below(900);
	for (size_t i = 0; i < n; ++i) switch (sh) { case FEW: v.push_back(s.below(4) * 10); break; case SORTED: v.push_back((int)i * 3); break; case REVERSED: v.push_back(1000000 - (int)i * 3); break; case EQUAL: v.push_back(42); break; case ALMOST: v.push_back(s.chance(1, 10) ? s.below(span) : i); break; case PIPE: v.push_back(i < n / 2 ? i : n - i); break; default: v.push_back(s.below(span)); }
	static const char * nm[] = {"random", "few distinct", "sorted", "reversed", "all equal", "almost sorted", "organ pipe"}; label(nm[sh]); note("%s, %zu items: %s", nm[sh], n, str(v).c_str());
	return v;
}
// Forward iterator that only offers what the algorithm is documented to need, and watches the bounds
template<typename T> struct Fwd
{
	T * p; T * b; T * e;
	T & operator*() const { REQUIRE(p >= b && p < e, "item %ld of a range of %ld accessed", (long)(p - b), (long)(e - b)); return *p; }
	Fwd & operator++() { REQUIRE(p < e, "advanced past the end"); ++p; return *this; }
	Fwd operator++(int) { Fwd f(*this); ++*this; return f; }
	bool operator==(const Fwd & o) const { return p == o.p; } bool operator!=(const Fwd & o) const { return p != o.p; }
};
struct Ord { int kind; int32 operator()(int a, int b) const { switch (kind) { case 0: return a < b ? -1 : a > b; case 1: return b - a; case 2: return a / 10 - b / 10; case 3: return (a % 7) * 1000 - (b % 7) * 1000; case 4: return a < b ? INT32_MIN : a > b ? INT32_MAX : 0; default: return 0; } } };
static const char * ordName[] = {"ascending", "descending", "by tens", "by remainder", "extreme results", "all equivalent"};
static void ordered(const std::vector<int> & v, const Ord & o) { for (size_t i = 1; i < v.size(); ++i) REQUIRE(o(v[i - 1], v[i]) <= 0, "out of order at %zu: %s", i, str(v).c_str()); }
static void perm(std::vector<int> a, std::vector<int> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE(a == b, "items changed: %s, were %s", str(b).c_str(), str(a).c_str()); }
static bool interesting(const std::vector<int> & v, const Ord & o) { if (v.size() < 4) return false; for (size_t i = 1; i < v.size(); ++i) if (o(v[i - 1], v[i]) > 0) return true; return false; }
template<typename T> struct Buf { std::vector<T> b; Buf(const std::vector<int> & v) { b.push_back(Elem<T>::make(-5)); b.push_back(Elem<T>::make(-6)); for (int x : v) b.push_back(Elem<T>::make(x)); b.push_back(Elem<T>::make(-7)); b.push_back(Elem<T>::make(-8)); }
	T * begin() { return b.data() + 2; } T * end() { return b.data() + b.size() - 2; }
	std::vector<int> read() { size_t n = b.size(); REQUIRE(Elem<T>::read(b[0]) == -5 && Elem<T>::read(b[1]) == -6 && Elem<T>::read(b[n - 2]) == -7 && Elem<T>::read(b[n - 1]) == -8, "items outside the range changed"); std::vector<int> v; for (size_t i = 2; i + 2 < n; ++i) v.push_back(Elem<T>::read(b[i])); return v; } };

template<typename T> static void sorting(Src & s)
{
	objs().reset();
	{
		std::vector<int> v = data(s, 150); Ord o{(int)s.below(6)}; label(ordName[o.kind]); note("order: %s", ordName[o.kind]);
		auto cmp = [&o](const T & a, const T & b) -> int32 { return o(Elem<T>::read(a), Elem<T>::read(b)); };
		if (interesting(v, o)) nontrivial();
		unsigned how = s.below(5); std::vector<int> r;
		switch (how)
		{
		case 0: { Buf<T> b(v); Sort::quicksort(b.begin(), b.end(), cmp); r = b.read(); label("pointers"); break; }
		case 1: { Buf<T> b(v); Fwd<T> x{b.begin(), b.begin(), b.end()}, y{b.end(), b.begin(), b.end()}; Sort::quicksort(x, y, cmp); r = b.read(); label("forward iterators"); break; }
		case 2: { Array<T> a; for (int x : v) a.add(Elem<T>::make(x)); Sort::quicksort(*a, *a + a.getCount(), cmp); REQ(a.getCount() == v.size()); for (size_t i = 0; i < v.size(); ++i) r.push_back(Elem<T>::read(a[i])); label("array"); break; }
		case 3: { List<T> l; for (int x : v) l.pushBack(Elem<T>::make(x)); Sort::quicksort(l.begin(), l.end(), cmp); REQ(l.getLength() == v.size()); for (auto & x : l) r.push_back(Elem<T>::read(x)); label("list"); break; }
		case 4: { Buf<T> b(v); size_t n = v.size(), p = s.below(n + 1), q = p + s.below(n - p + 1); note("sub-range %zu..%zu", p, q); Fwd<T> x{b.begin() + p, b.begin() + p, b.begin() + q}, y{b.begin() + q, b.begin() + p, b.begin() + q}; Sort::quicksort(x, y, cmp); auto w = b.read(); for (size_t i = 0; i < n; ++i) if (i < p || i >= q) REQUIRE(w[i] == v[i], "item %zu outside the range changed", i); r.assign(w.begin() + p, w.begin() + q); v = std::vector<int>(v.begin() + p, v.begin() + q); label("sub-range"); break; }
		}
		ordered(r, o); perm(v, r);
	}
	REQUIRE(objs().live.empty(), "%zu elements left alive", objs().live.size());
}
template<typename T> static void arguments(Src & s)
{
	objs().reset();
	{
		std::vector<int> v = data(s, 120), pos; for (size_t i = 0; i < v.size(); ++i) pos.push_back((int)i); Ord o{(int)s.below(6)}; note("order: %s", ordName[o.kind]);
		auto cmp = [&o](const T & a, const T & b) -> int32 { return o(Elem<T>::read(a), Elem<T>::read(b)); };
		if (interesting(v, o)) nontrivial();
		Buf<T> b(v); Buf<int> a(pos);
		if (s.coin()) Sort::argquicksort(b.begin(), b.end(), a.begin(), cmp); else { Fwd<T> x{b.begin(), b.begin(), b.end()}, y{b.end(), b.begin(), b.end()}; Fwd<int> z{a.begin(), a.begin(), a.end()}; Sort::argquicksort(x, y, z, cmp); }
		auto r = b.read(), q = a.read(); ordered(r, o); perm(v, r); perm(pos, q);
		for (size_t i = 0; i < r.size(); ++i) REQUIRE(v[q[i]] == r[i], "argument %zu does not follow its item", i);
		label("with arguments");
	}
	REQUIRE(objs().live.empty(), "%zu elements left alive", objs().live.size());
}
template<typename T> static void partitioning(Src & s)
{
	objs().reset();
	{
		std::vector<int> v = data(s, 60); size_t at = v.size(); int pv = v.empty() || s.coin() ? (int)s.below(900) : v[at = s.below(v.size())]; bool inside = at < v.size() && s.coin(); Ord o{(int)s.below(5)}; note("partition around %d%s, %s", pv, inside ? " (an item of the range itself)" : "", ordName[o.kind]); if (inside) label("pivot inside the range");
		auto cmp = [&o](const T & a, const T & b) -> int32 { return o(Elem<T>::read(a), Elem<T>::read(b)); };
		Buf<T> b(v); Fwd<T> x{b.begin(), b.begin(), b.end()}, y{b.end(), b.begin(), b.end()};
		Fwd<T> j = inside ? Sort::partition(x, y, b.begin()[at], cmp) : Sort::partition(x, y, Elem<T>::make(pv), cmp); auto r = b.read(); perm(v, r); size_t k = j.p - b.begin(); REQ(k <= r.size());
		for (size_t i = 0; i < r.size(); ++i) REQUIRE((o(r[i], pv) < 0) == (i < k), "item %zu on the wrong side of the partition point %zu", i, k);
		if (k && k < r.size() && interesting(v, o)) nontrivial(); label("partition");
	}
	REQUIRE(objs().live.empty(), "%zu elements left alive", objs().live.size());
}
// Natural order through the library's comparison; long ranges
static void natural(Src & s)
{
	std::vector<int> v = data(s, s.below(40) == 0 ? 2500 : 200); for (int & x : v) if (s.below(5) == 0) x = s.integer<int>(); Buf<int> b(v); Sort::quicksort(b.begin(), b.end(), ThreeWayCompare()); std::vector<int> r = b.read(), w = v; std::sort(w.begin(), w.end()); REQUIRE(r == w, "sorted %s, expected %s", str(r).c_str(), str(w).c_str()); if (w != v && v.size() > 3) nontrivial(); label("natural order");
}
// Ranges of up to tens of thousands of items, in random order (the only one that keeps the recursion shallow)
static void large(Src & s)
{
	size_t n = s.large(); uint64_t k = s.below(1000); std::vector<int> v; unsigned span = s.coin() ? 1u << 31 : (unsigned)(4 * n + 5); for (size_t i = 0; i < n; ++i) { k = k * 6364136223846793005ull + 1442695040888963407ull; v.push_back((int)((k >> 33) % span)); } note("%zu random items", n); if (n > 255) nontrivial();
	Ord o{(int)s.below(2)}; if (o.kind == 1) for (int & x : v) x >>= 1; Buf<int> b(v); auto cmp = [&o](int x, int y) -> int32 { return o(x, y); };
	if (s.coin()) { Sort::quicksort(b.begin(), b.end(), cmp); auto r = b.read(); ordered(r, o); perm(v, r); label(n > 65536 ? "more than 65536 items" : n > 255 ? "256..65536 items" : "few items"); }
	else { std::vector<int> pos; for (size_t i = 0; i < n; ++i) pos.push_back((int)i); Buf<int> a(pos); Sort::argquicksort(b.begin(), b.end(), a.begin(), cmp); auto r = b.read(), q = a.read(); ordered(r, o); perm(v, r); perm(pos, q); for (size_t i = 0; i < n; ++i) REQUIRE(v[q[i]] == r[i], "argument %zu does not follow its item", i); label("large with arguments"); }
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"int", sorting<int>, 120000, 2000000, "quicksort of int"},
	{"object", sorting<Obj>, 60000, 1000000, "quicksort of owning elements"},
	{"pod", sorting<Pod>, 40000, 1000000, "quicksort of a plain struct"},
	{"args_int", arguments<int>, 60000, 1000000, "argquicksort"},
	{"args_object", arguments<Obj>, 30000, 600000, "argquicksort of owning elements"},
	{"partition", partitioning<int>, 60000, 1000000, "partition"},
	{"partition_object", partitioning<Obj>, 30000, 600000, "partition of owning elements"},
	{"large", large, 300, 8000, "ranges of up to tens of thousands of items"},
	{"natural", natural, 60000, 1000000, "default ordering"},
};
}
