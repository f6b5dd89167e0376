#include "m_text.h"
#include "m_set.h"
namespace pbt {
const char * PROPERTY = "C06";
const char * RULE = "a case is a random history building two sets followed by all set operations and relations between them, compared with mathematical sets; non-trivial: both sets non-empty, not disjoint and not equal";
}
template<typename M> static void relations(M & x, M & y)
{
	using SetT = decltype(x.a); const SetT & a = x.a; const SetT & b = y.a;
	bool sub = std::includes(y.m.begin(), y.m.end(), x.m.begin(), x.m.end(), typename M::Less()), sup = std::includes(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), typename M::Less()), eq = sub && sup;
	std::string d = str(M::read(a, x.m.size() + 1)) + " and " + str(M::read(b, y.m.size() + 1));
	REQUIRE((a == b) == eq, "== of %s", d.c_str()); REQUIRE((a != b) == !eq, "!= of %s", d.c_str());
	REQUIRE((a <= b) == sub, "<= of %s", d.c_str()); REQUIRE((a >= b) == sup, ">= of %s", d.c_str());
	REQUIRE((a < b) == (sub && !eq), "< of %s", d.c_str()); REQUIRE((a > b) == (sup && !eq), "> of %s", d.c_str());
	REQUIRE((b <= a) == sup && (b >= a) == sub && (b < a) == (sup && !eq) && (b > a) == (sub && !eq), "converse relations of %s", d.c_str());
	REQ(a == a); REQ(!(a != a)); REQ(a <= a && a >= a); REQ(!(a < a) && !(a > a));
	label(eq ? "equal" : sub ? "subset" : sup ? "superset" : "incomparable");
}
template<typename M> static void algebra(M & x, M & y)
{
	using Mo = typename M::Model; const auto & a = x.a; const auto & b = y.a;
	Mo u(x.m), i, d; u.insert(y.m.begin(), y.m.end()); for (int v : x.m) (y.m.count(v) ? i : d).insert(v);
	M::same(a + b, u, "a + b"); M::same(a * b, i, "a * b"); M::same(a - b, d, "a - b");
	x.verify(); y.verify();
	{ auto c = a; auto & r = (c += b); REQ(&r == &c); M::same(c, u, "a += b"); relations_ok(c, a); }
	{ auto c = a; auto & r = (c *= b); REQ(&r == &c); M::same(c, i, "a *= b"); }
	{ auto c = a; auto & r = (c -= b); REQ(&r == &c); M::same(c, d, "a -= b"); }
	y.verify();
	{ auto c = a; c += c; M::same(c, x.m, "c += c"); } { auto c = a; c *= c; M::same(c, x.m, "c *= c"); } { auto c = a; c -= c; M::same(c, Mo(), "c -= c"); c.set(M::mk(3)); REQ(c.getSize() == 1); }
	M::same(a + a, x.m, "a + a"); M::same(a * a, x.m, "a * a"); M::same(a - a, Mo(), "a - a");
}
template<typename S> void relations_ok(const S & c, const S & a) { REQ(c >= a); REQ(a <= c); }
template<typename T, typename C> static void pairs(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		SetM<T, C> x, y; x.span = y.span = s.pick({5, 12, 30, 100}); note("%s, values below %d", x.kind().c_str(), x.span);
		size_t n = s.length(60);
		for (size_t i = 0; i < n; ++i) { x.step(s); x.verify(); }
		switch (s.below(5))
		{
		case 0: case 1: { size_t k = s.length(60); note("--- second set"); for (size_t i = 0; i < k; ++i) { y.step(s); y.verify(); } break; }
		case 2: { note("--- second set: the first plus some"); y.a = x.a; y.m = x.m; size_t k = s.below(3); for (size_t i = 0; i < k; ++i) { int v = s.below(x.span); note("set %d", v); y.a.set(Elem<T>::make(v)); y.m.insert(v); } break; }
		case 3: { note("--- second set: the first minus some"); y.a = x.a; y.m = x.m; size_t k = s.below(3); for (size_t i = 0; i < k && !y.m.empty(); ++i) { auto e = y.m.begin(); std::advance(e, s.coin() ? y.m.size() - 1 : s.below(y.m.size())); note("remove %d", *e); REQ(y.a.remove(Elem<T>::make(*e))); y.m.erase(e); } break; }
		case 4: { note("--- second set: shifted past the first"); int hi = x.m.empty() ? 0 : *x.m.rbegin(); for (size_t k = s.below(6); k > 0; --k) { y.a.set(Elem<T>::make(hi + k)); y.m.insert(hi + k); } break; }
		}
		y.verify(); x.verify(); relations(x, y); algebra(x, y); relations(y, x);
		// in place on the original objects, then continue the history
		switch (s.below(4)) { case 0: note("x += y"); x.a += y.a; x.m.insert(y.m.begin(), y.m.end()); break; case 1: note("x *= y"); { x.a *= y.a; auto k = x.m; for (int v : k) if (!y.m.count(v)) x.m.erase(v); } break; case 2: note("x -= y"); x.a -= y.a; for (int v : y.m) x.m.erase(v); break; default: break; }
		x.verify(); y.verify(); for (int k = s.below(8); k > 0; --k) { x.step(s); x.verify(); }
		for (int v = 0; v < std::min(x.span, 40); ++v) { x.verify_key(v); y.verify_key(v); }
		relations(x, y);
		size_t common = 0; for (int v : x.m) common += y.m.count(v);
		if (common && (common != x.m.size() || common != y.m.size())) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the sets", objs().live.size());
	g.expect_empty("set history");
}
// Every pair of subsets of a six-item universe (bounded-exhaustive by mask)
static void subsets(Src & s)
{
	GlobalAudit g;
	{
		unsigned p = s.below(64), q = s.below(64); SetM<int> x, y; note("masks %u %u", p, q);
		for (int i = 0; i < 6; ++i) { if (p >> i & 1) { x.a.set(i); x.m.insert(i); } if (q >> (5 - i) & 1) { y.a.set(5 - i); y.m.insert(5 - i); } }
		x.verify(); y.verify(); relations(x, y); algebra(x, y); if ((p & q) && p != q) nontrivial();
	}
	g.expect_empty("subsets");
}
// Every size up to 300 meets every operation; one set often extends the other at one of its ends
static void sized(Src & s)
{
	GlobalAudit g;
	{
		SetM<int> x, y; x.span = y.span = 1000; size_t n = s.coin() ? s.below(70) : s.below(300); uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 16) % 1000; }; for (size_t i = 0; i < n * 20 && x.m.size() < n; ++i) { int v = next(); x.a.set(v); x.m.insert(v); } n = x.m.size(); note("set of %zu", n); x.verify();
		size_t q = 1 + s.below(3); for (size_t i = 0; i < q; ++i) { x.step(s); x.verify(); }
		unsigned how = s.below(4); size_t d = 1 + s.below(3); note("related to one that lacks %zu items %s", d, how == 0 ? "at the end" : how == 1 ? "at the beginning" : how == 2 ? "somewhere" : "and has others"); y.a = x.a; y.m = x.m;
		for (; d && !y.m.empty(); --d) { auto f = how == 0 ? --y.m.end() : how == 1 ? y.m.begin() : std::next(y.m.begin(), s.below(y.m.size())); int v = *f; REQ(y.a.remove(v)); y.m.erase(f); if (how == 3) { int w = next(); y.a.set(w); y.m.insert(w); } }
		y.verify(); relations(x, y); relations(y, x); algebra(x, y); algebra(y, x); label(n > 256 ? "257..299 items at first" : n > 64 ? "65..256 items at first" : n > 16 ? "17..64 items at first" : "0..16 items at first"); if (n > 2 && q > 1) nontrivial();
	}
	g.expect_empty("sized");
}
// Sizes up to tens of thousands
static void large(Src & s)
{
	GlobalAudit g;
	{
		SetM<int> x, y; x.span = y.span = 1 << 20; uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 12) % x.span; };
		size_t cap = s.chance(1, 6) ? 70000 : 5000, n = s.large(cap), l = s.coin() ? s.large(cap) : s.below(300); unsigned how = s.below(3); note("sets of %zu and %zu", n, l); for (size_t i = 0; i < n; ++i) { int v = how == 0 ? (int)i * 3 : next(); x.a.set(v); x.m.insert(v); } std::vector<int> own(x.m.begin(), x.m.end());
		for (size_t i = 0; i < l; ++i) { int v = how == 0 ? (int)i * 2 : i & 1 ? own[(size_t)next() % own.size()] : next(); y.a.set(v); y.m.insert(v); } if (s.below(5) == 0) { y.a = x.a; y.m = x.m; }
		x.verify(); y.verify(); relations(x, y); algebra(x, y); relations(y, x);
		switch (s.below(3)) { case 0: note("x += y"); x.a += y.a; x.m.insert(y.m.begin(), y.m.end()); break; case 1: note("x *= y"); { x.a *= y.a; auto q = x.m; for (int v : q) if (!y.m.count(v)) x.m.erase(v); } break; default: note("x -= y"); x.a -= y.a; for (int v : y.m) x.m.erase(v); }
		x.verify(); y.verify(); for (int i = 0; i < 6; ++i) { x.step(s, 1 << 20); } x.verify(); if (n > 255) nontrivial(); label(n > 65536 ? "more than 65536 items" : n > 4096 ? "4097..65536 items" : n > 255 ? "256..4096 items" : "few items");
	}
	g.expect_empty("large sets");
}
namespace pbt { std::vector<Suite> SUITES = {
	{"int", pairs<int, PlainCompare<int>>, 40000, 800000, "Set<int>"},
	{"tens", pairs<int, TensCompare<int>>, 20000, 300000, "values equivalent by tens: the first one set is kept"},
	{"reverse", pairs<int, ReverseCompare<int>>, 10000, 200000, "reversed comparison"},
	{"object", pairs<Obj, PlainCompare<Obj>>, 15000, 300000, "instance-counted owning item"},
	{"lined", pairs<Lined, PlainCompare<Lined>>, 2500, 50000, "items aligned to 64"},
	{"text", pairs<String, PlainCompare<String>>, 4000, 80000, "texts"},
	{"sized", sized, 6000, 100000, "sets of every size up to 300"},
	{"large", large, 60, 1500, "hundreds to tens of thousands of items"},
	{"subsets", subsets, 30000, 100000, "pairs of subsets of a six-item universe"},
}; }
