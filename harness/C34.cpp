#include "support.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "templates/optional.h"
namespace pbt {
const char * PROPERTY = "C34";
const char * RULE = "a case is a history over one container during which references and iterators to items are kept; after every step each kept one must still denote its item, and iterators go on to its neighbours; non-trivial: at least four were kept over at least four steps that changed the container";
}
// What is kept: a place and what is there
template<typename It> struct Held { const void * at; int id; It it; };
static int idOf(const Obj & o) { return o.get(); }
static int idOf(int o) { return o; }
static int idOf(const String & t) { return atoi(*t); }
template<typename T> T make(int v);
template<> Obj make<Obj>(int v) { return Obj(v); }
template<> int make<int>(int v) { return v; }
template<> String make<String>(int v) { String t; t += v; return t; }
#define STILL(h, T) do { REQUIRE(idOf(*(const T*)(h).at) == (h).id, "the reference kept to item %d now denotes %d", (h).id, idOf(*(const T*)(h).at)); } while (0)
// ---- lists
template<typename T> static void list(Src & s)
{
	GlobalAudit g; objs().reset(); size_t kept = 0, steps = 0;
	{
		typedef List<T> L; typedef decltype(L().begin()) It; L a; std::vector<int> m; std::vector<Held<It>> held; int next = 1; bool other = false;
		auto hold = [&](size_t i) { auto it = a.begin(); for (size_t k = 0; k < i; ++k) ++it; REQUIRE(idOf(*it) == m[i], "item %zu", i); held.push_back({&*it, m[i], it}); ++kept; };
		auto drop = [&](int id) { for (size_t i = 0; i < held.size();) if (held[i].id == id) held.erase(held.begin() + i); else ++i; };
		auto at = [&](int id) { for (auto & h : held) if (h.id == id) return h.at; return (const void*)nullptr; }; (void)at;
		for (size_t k = 8 + s.length(100); k; --k)
		{
			size_t n = m.size();
			switch (s.weighted({6, 4, 2, 2, 4, 6, 1, 1, 1}))
			{
			case 0: { note("push back %d", next); T & r = a.pushBack(make<T>(next)); m.push_back(next); held.push_back({&r, next, It(a.getTail())}); ++kept; ++next; break; }
			case 1: { note("push front %d", next); T & r = a.pushFront(make<T>(next)); m.insert(m.begin(), next); held.push_back({&r, next, a.begin()}); ++kept; ++next; break; }
			case 2: if (n) { note("remove back"); drop(m.back()); if (s.coin()) a.removeBack(); else { T x(make<T>(0)); a.popBack(x); REQ(idOf(x) == m.back()); } m.pop_back(); } break;
			case 3: if (n) { note("remove front"); drop(m[0]); if (s.coin()) a.removeFront(); else { T x(make<T>(0)); a.popFront(x); REQ(idOf(x) == m[0]); } m.erase(m.begin()); } break;
			case 4: if (n) { size_t i = s.below(n); note("remove %d in the middle", m[i]); if (s.coin()) for (auto & h : held) if (h.id == m[i]) { auto it = h.it; drop(m[i]); a.remove(it); goto gone; } { drop(m[i]); auto it = a.begin(); for (size_t q = 0; q < i; ++q) ++it; a.remove(it); } gone: m.erase(m.begin() + i); } break;
			case 5: if (n) { size_t i = s.below(n); note("keep %d", m[i]); hold(i); } break;
			case 6: { note("moved away and back"); label("moved"); L b(std::move(a)); if (s.coin()) { L c; if (s.coin()) c.pushBack(make<T>(999999)); c = std::move(b); a = std::move(c); } else a = std::move(b); other = true; break; }
			case 7: { note("a copy is changed"); label("copied"); L b(static_cast<const L&>(a)); b.removeFront(); b.pushBack(make<T>(5)); for (auto & x : b) x = make<T>(77); break; }
			case 8: if (!held.empty()) { auto & h = held[s.below(held.size())]; note("write through the reference to %d", h.id); int id = next++; for (auto & x : m) if (x == h.id) x = id; int old = h.id; *(T*)h.at = make<T>(id); for (auto & x : held) if (x.id == old) x.id = id; } break;
			}
			++steps;
			for (auto & h : held)
			{
				STILL(h, T); REQUIRE(&*h.it == h.at, "the iterator kept to item %d moved", h.id); size_t i = std::find(m.begin(), m.end(), h.id) - m.begin(); REQ(i < m.size());
				if (i + 1 < m.size()) { auto j = h.it; ++j; REQUIRE(idOf(*j) == m[i + 1], "after item %d comes %d, expected %d", h.id, idOf(*j), m[i + 1]); } else { auto j = h.it; ++j; REQUIRE(j == a.end(), "item %d is the last one", h.id); }
				if (i) { auto j = h.it; --j; REQUIRE(idOf(*j) == m[i - 1], "before item %d comes %d, expected %d", h.id, idOf(*j), m[i - 1]); }
			}
		}
		label(other ? "list moved" : "list stays");
	}
	REQUIRE(objs().live.empty(), "%zu items alive", objs().live.size()); g.expect_empty("list"); if (kept >= 4 && steps >= 8) nontrivial();
}
// ---- trees, sets and maps: insertion disturbs nothing; removal only the item removed and the one after it
template<typename T, typename C> struct RefTree
{
	typedef BinaryTree<T, C> A; typedef T Stored; A a;
	const T * insert(Src & s, int v) { const T x(make<T>(v)); switch (s.below(3)) { case 0: return &a.insert(x); case 1: return &a.insertUnique(make<T>(v)); default: return &a.replace(make<T>(v)); } }
	const T * again(Src & s, int v) { return s.coin() ? &a.insertUnique(make<T>(v)) : &a.replace(make<T>(v)); }
	auto find(int v) { return a.find(make<T>(v)); }
	template<typename I> void remove(Src & s, int v, I it) { if (s.coin()) a.remove(it); else a.remove(make<T>(v)); }
	static int key(const T & x) { return idOf(x); }
	static const char * name() { return "tree"; }
};
template<typename T, typename C> struct RefSet
{
	typedef Set<T, C> A; typedef T Stored; A a;
	const T * insert(Src & s, int v) { const T x(make<T>(v)); return s.coin() ? &a.set(x) : &a.set(make<T>(v)); }
	const T * again(Src &, int v) { return &a.set(make<T>(v)); }
	auto find(int v) { return a.begin(make<T>(v)); }
	template<typename I> void remove(Src & s, int v, I) { if (s.coin()) a.remove(make<T>(v)); else { T x(make<T>(0)); a.remove(make<T>(v), x); REQ(idOf(x) == v); } }
	static int key(const T & x) { return idOf(x); }
	static const char * name() { return "set"; }
};
template<typename T, typename C> struct RefMap
{
	typedef Map<T, Obj, C> A; typedef Pair<T, Obj, C> Stored; A a;
	const Stored * insert(Src & s, int v) { if (s.coin()) a.insert(make<T>(v), Obj(v + 1)); else a[make<T>(v)] = Obj(v + 1); return &*a.find(make<T>(v)); }
	const Stored * again(Src & s, int v) { Obj & r = s.coin() ? a.insert(make<T>(v), Obj(v + 1)) : a[make<T>(v)]; const Stored * p = &*a.find(make<T>(v)); REQUIRE(&r == &p->second, "the reference given is not that to the value"); return p; }
	auto find(int v) { return a.find(make<T>(v)); }
	template<typename I> void remove(Src & s, int v, I it) { switch (s.below(3)) { case 0: a.remove(it); break; case 1: REQ(a.remove(make<T>(v))); break; default: { Obj x(0); REQ(a.pop(make<T>(v), x)); REQ(x.get() == v + 1); } } }
	static int key(const Stored & x) { REQUIRE(x.second.get() == idOf(x.first) + 1, "value of key %d is %d", idOf(x.first), x.second.get()); return idOf(x.first); }
	static const char * name() { return "map"; }
};
struct Numbers { template<typename X> int32 operator()(const X & a, const X & b) const { int x = idOf(a), y = idOf(b); return x < y ? -1 : x > y; } };
template<typename M> static void ordered(Src & s)
{
	GlobalAudit g; objs().reset(); size_t kept = 0, steps = 0;
	{
		M m; typedef typename M::Stored S; typedef decltype(m.find(1)) It; std::vector<Held<It>> held; std::set<int> e; int span = s.coin() ? 40 : 2000; bool bulk = s.chance(1, 4);
		auto drop = [&](int id) { for (size_t i = 0; i < held.size();) if (held[i].id == id) held.erase(held.begin() + i); else ++i; };
		auto hold = [&](int id) { for (auto & h : held) if (h.id == id) return; It it = m.find(id); REQUIRE(it != m.a.end(), "item %d is not found", id); held.push_back({&*it, id, it}); ++kept; };
		for (size_t k = 8 + s.length(bulk ? 300 : 100); k; --k)
		{
			int v = 1 + s.below(span); bool in = e.count(v);
			switch (s.weighted({9, 4, 4, 4, 1, 1, 1}))
			{
			case 0: case 1: if (in) { note("insert %d again", v); const S * p = m.again(s, v); for (auto & h : held) if (h.id == v) REQUIRE(p == h.at, "insertion of a present item gives another place"); } else { note("insert %d", v); const S * p = m.insert(s, v); e.insert(v); REQUIRE(M::key(*p) == v, "inserted item reads %d", M::key(*p)); if (s.coin()) { hold(v); REQUIRE(held.back().at == p, "the reference returned is not that to the item"); } } break;
			case 2: { if (e.empty()) break; auto i = e.lower_bound(v); if (i == e.end()) i = e.begin(); v = *i; note("remove %d", v); auto n = std::next(i); if (n != e.end()) drop(*n); drop(v); e.erase(i); m.remove(s, v, m.find(v)); break; }
			case 3: { if (e.empty()) break; auto i = e.lower_bound(v); if (i == e.end()) i = e.begin(); note("keep %d", *i); hold(*i); break; }
			case 4: { note("moved away and back"); label("moved"); typedef typename M::A A; A b(std::move(m.a)); if (s.coin()) { A c; c = std::move(b); m.a = std::move(c); } else m.a = std::move(b); break; }
			case 5: { note("a copy is emptied"); label("copied"); typedef typename M::A A; A b(static_cast<const A&>(m.a)); b = A{}; break; }
			case 6: if constexpr (std::is_same<M, RefSet<Obj, Numbers>>::value) { note("union with another set"); label("union"); Set<Obj, Numbers> o; for (int i = s.below(12); i; --i) { int w = 1 + s.below(span); o.set(Obj(w)); e.insert(w); } m.a += o; } break;
			}
			++steps; bool all = k % 8 == 0 || held.size() < 12;
			for (size_t i = 0; i < held.size(); ++i)
			{
				if (!all && (i + k) % 5) continue;
				auto & h = held[i]; int now = M::key(*(const S*)h.at); REQUIRE(now == h.id, "the reference kept to item %d now denotes %d", h.id, now); REQUIRE(&*h.it == h.at, "the iterator kept to item %d moved", h.id);
				auto q = e.find(h.id), n = std::next(q); auto j = h.it; ++j; if (n == e.end()) REQUIRE(j == m.a.end(), "item %d is the last one", h.id); else REQUIRE(M::key(*j) == *n, "after item %d comes %d, expected %d", h.id, M::key(*j), *n);
				if (q != e.begin()) { auto b = h.it; --b; REQUIRE(M::key(*b) == *std::prev(q), "before item %d comes %d, expected %d", h.id, M::key(*b), *std::prev(q)); }
			}
			if (all) for (auto & h : held) REQUIRE(&*m.find(h.id) == h.at, "item %d is found at another place than where it is kept", h.id);
		}
		label(e.size() > 60 ? "more than 60 items" : e.size() > 12 ? "13..60 items" : "up to 12 items"); label(M::name());
	}
	REQUIRE(objs().live.empty(), "%zu items alive", objs().live.size()); g.expect_empty("container"); if (kept >= 4 && steps >= 8) nontrivial();
}
// ---- arrays: items stay where they are while there is room, and when the array moves
template<typename T> static void array(Src & s)
{
	GlobalAudit g; objs().reset(); size_t kept = 0, steps = 0;
	{
		size_t room = 1 + s.length(200); Array<T> a(room); std::vector<int> m; size_t known = 0; const T * base = nullptr; int next = 1;    // items below `known` have been where they are since then
		for (size_t k = 8 + s.length(80); k; --k)
		{
			size_t n = m.size();
			switch (s.weighted({8, 3, 2, 3, 3, 1, 1, 2}))
			{
			case 0: { note("push %d", next); T & r = a.insertLast(make<T>(next)); REQ(&r == a.getData() + n); m.push_back(next++); break; }
			case 1: { if (!n) break; note("pop"); a.removeLast(); m.pop_back(); break; }
			case 2: { if (!n) break; note("pop several"); for (size_t c = s.below(n); c; --c) { a.removeLast(); m.pop_back(); } break; }
			case 3: { if (!n || n >= room) break; size_t i = s.below(n + 1); note("insert %d at %zu", next, i); T & r = a.insertAt(i, make<T>(next)); REQ(&r == a.getData() + i); m.insert(m.begin() + i, next++); break; }
			case 4: { if (!n) break; size_t i = s.below(n), c = 1 + s.below(std::min<size_t>(n - i, 3)); note("remove %zu at %zu", c, i); a.removeAt(i, c); m.erase(m.begin() + i, m.begin() + i + c); break; }
			case 5: { note("moved away and back"); label("moved"); Array<T> b(std::move(a)); if (s.coin()) { Array<T> c; c = std::move(b); a = std::move(c); } else a = std::move(b); break; }
			case 6: { note("emptied"); a.empty(); m.clear(); break; }
			case 7: { note("a copy is changed"); Array<T> b(static_cast<const Array<T>&>(a)); b.insertFirst(make<T>(1)); b.empty(); break; }
			}
			++steps;
			if (m.size() > room) { room = 0; break; }                              // the storage had to grow, anything may have moved
			if (base && !m.empty()) { REQUIRE(a.getData() == base, "an array with room for %zu items moved its %zu items", room, m.size()); kept += m.size() > 2; }
			if (!m.empty()) base = a.getData();
			for (size_t i = 0; i < m.size(); ++i) REQUIRE(idOf(base[i]) == m[i], "item %zu is %d, expected %d", i, idOf(base[i]), m[i]);
			(void)known;
		}
		label(room ? "within the room given" : "outgrew it");
		if (!room && !m.empty()) { base = a.getData(); for (size_t i = 0; i < m.size(); ++i) REQUIRE(idOf(base[i]) == m[i], "item %zu after growth", i); }
	}
	REQUIRE(objs().live.empty(), "%zu items alive", objs().live.size()); g.expect_empty("array"); if (kept >= 4 && steps >= 8) nontrivial();
}
namespace pbt { std::vector<Suite> SUITES = {
	{"list", list<int>, 20000, 400000, "lists of numbers"},
	{"list_object", list<Obj>, 15000, 300000, "lists of owning items"},
	{"list_text", list<String>, 4000, 80000, "lists of texts"},
	{"tree", ordered<RefTree<Obj, Numbers>>, 12000, 240000, "trees"},
	{"tree_number", ordered<RefTree<int, ThreeWayCompare>>, 12000, 240000, "trees of numbers"},
	{"set", ordered<RefSet<Obj, Numbers>>, 12000, 240000, "sets, also united in place"},
	{"set_text", ordered<RefSet<String, Numbers>>, 3000, 60000, "sets of texts"},
	{"map", ordered<RefMap<Obj, Numbers>>, 12000, 240000, "maps"},
	{"map_number", ordered<RefMap<int, ThreeWayCompare>>, 12000, 240000, "maps with numbers as keys"},
	{"array", array<Obj>, 15000, 300000, "arrays with room given"},
	{"array_number", array<int>, 15000, 300000, "arrays of numbers with room given"},
}; }
