#include "support.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/tuple.h"
#include "templates/optional.h"
#include "templates/function.h"
#include "algorithm/sort.h"
namespace pbt {
const char * PROPERTY = "C33";
const char * RULE = "a case is a history of phases over one container (or object), each phase many operations of one kind; constructions, copies, moves, assignments, destructions and comparisons of items and requests to the allocator are counted and held against the growth the data structure promises; non-trivial: the container held at least 256 items at some time (wrappers: at least three operations)";
}
// ---- what is counted
struct Work { uint64_t ops = 0, copies = 0, compares = 0, allocs = 0, bytes = 0; };
static Work W;
struct Item
{
	int v;
	Item(int v = 0) : v(v) { ++W.ops; }
	Item(const Item & o) : v(o.v) { ++W.ops; ++W.copies; }
	Item(Item && o) : v(o.v) { ++W.ops; o.v = -1; }
	Item & operator=(const Item & o) { v = o.v; ++W.ops; ++W.copies; return *this; }
	Item & operator=(Item && o) { int w = o.v; o.v = -1; v = w; ++W.ops; return *this; }
	~Item() { ++W.ops; v = -2; }
	bool operator<(const Item & o) const { ++W.compares; return v < o.v; }
	bool operator>(const Item & o) const { ++W.compares; return v > o.v; }
	bool operator<=(const Item & o) const { ++W.compares; return v <= o.v; }
	bool operator>=(const Item & o) const { ++W.compares; return v >= o.v; }
	bool operator==(const Item & o) const { ++W.compares; return v == o.v; }
	bool operator!=(const Item & o) const { ++W.compares; return v != o.v; }
};
struct Order { int32 operator()(const Item & a, const Item & b) const { ++W.compares; return a.v < b.v ? -1 : a.v > b.v; } };
struct Counting : public MallocBase
{
	MallocBase * saved; size_t live = 0;
	Counting() : saved(gMalloc) { gMalloc = this; W = Work(); }
	~Counting() { gMalloc = saved; }
	void * alloc(sizet size, sizet alignment = DEFAULT_ALIGNMENT) override { ++W.allocs; W.bytes += size; ++live; void * p = nullptr; if (::posix_memalign(&p, alignment < 8 ? 8 : alignment, size ? size : 1)) return nullptr; return p; }
	void * realloc(void * p, sizet size, sizet alignment = DEFAULT_ALIGNMENT) override { (void)alignment; ++W.allocs; W.bytes += size; return ::realloc(p, size); }
	void free(void * p) override { if (p) --live; ::free(p); }
};
static double lg(double n) { return std::log2(n + 2); }
// difference to an earlier count
struct Since
{
	Work w = W; const char * what;
	Since(const char * what) : what(what) {}
	uint64_t ops() const { return W.ops - w.ops; } uint64_t copies() const { return W.copies - w.copies; } uint64_t compares() const { return W.compares - w.compares; } uint64_t allocs() const { return W.allocs - w.allocs; } uint64_t bytes() const { return W.bytes - w.bytes; }
	void atMost(double o, double c, double a, size_t n) const
	{
		REQUIRE(ops() <= o, "%s with %zu items: items were made, assigned or destroyed %llu times, at most %.0f expected", what, n, (unsigned long long)ops(), o);
		REQUIRE(compares() <= c, "%s with %zu items: %llu comparisons, at most %.0f expected", what, n, (unsigned long long)compares(), c);
		REQUIRE(allocs() <= a, "%s with %zu items: %llu requests to the allocator, at most %.0f expected", what, n, (unsigned long long)allocs(), a);
	}
	void copied(double k, size_t n) const { REQUIRE(copies() <= k, "%s with %zu items: %llu items copied, at most %.0f expected", what, n, (unsigned long long)copies(), k); }
};
static size_t many(Src & s) { return s.chance(1, 3) ? s.below(60) : s.chance(1, 6) ? s.large() / 4 : s.below(4000); }
// ---- arrays
template<typename T> static T mk(int v) { return T(v); }
template<typename T> static void array(Src & s)
{
	Counting g;
	{
		Array<T> a; size_t n = 0, top = 0; double budget = 256, bytes = 4096; bool big = false;
		for (size_t k = 1 + s.length(12); k; --k)
		{
			Since t("array");
			switch (s.weighted({6, 3, 3, 3, 4, 2, 2, 2, 2}))
			{
			case 0: case 1:
			{
				size_t c = many(s); bool first = s.chance(1, 4); size_t m = first ? 1 + s.below(4) : 1; t.what = "pushing to an array"; note("push %zu", c); label("op push");
				for (size_t i = 0; i < c; ++i) { if (m > 1) { a.insertLast(mk<T>(i), mk<T>(i), mk<T>(i)); n += 3; } else { if (i & 1) a.insertLast(mk<T>(i)); else a.push(mk<T>(i)); ++n; } }
				budget += 48. * c; bytes += 64. * sizeof(T) * c; if (n > top) top = n; REQUIRE(a.getCount() == n, "count"); t.atMost(1e18, 0, 4 * lg(n) + 8, n); t.copied(0, n); break;
			}
			case 2: { size_t c = std::min(many(s), n); t.what = "popping from an array"; note("pop %zu", c); label("op pop"); for (size_t i = 0; i < c; ++i) { if (i % 3 == 2) { T x(mk<T>(0)); a.popLast(x); } else a.removeLast(); } n -= c; budget += 48. * c; bytes += 64. * sizeof(T) * c; t.atMost(1e18, 0, 4 * lg(n + c) + 8, n); t.copied(0, n); break; }
			case 3: // back and forth around one size
			{
				size_t c = 1 + s.below(400), d = 1 + s.below(3); t.what = "pushing and popping in turn"; note("%zu times push %zu, pop %zu", c, d, d); label("op back and forth"); if (s.coin()) { size_t p = 1; while (p < n) p *= 2; p += s.below(3); while (n < p && n < 9000) { a.insertLast(mk<T>(1)); ++n; budget += 48; bytes += 64 * sizeof(T); } }
				for (size_t i = 0; i < c; ++i) { for (size_t j = 0; j < d; ++j) a.insertLast(mk<T>(j)); for (size_t j = 0; j < d; ++j) a.removeLast(); } budget += 96. * c * d; bytes += 128. * sizeof(T) * c * d; t.copied(0, n); break;
			}
			case 4: // in the middle: only what follows moves
			{
				for (size_t c = 1 + s.below(12); c; --c)
				{
					Since u("insertion into an array"); size_t i = n ? s.chance(1, 2) ? n - s.below(std::min<size_t>(n, 5)) : s.below(n) : 0; if (i > n) i = n; size_t tail = n - i;
					if (s.coin() || !tail) { note("insert at %zu of %zu", i, n); if (s.coin()) { a.insertAt(i, mk<T>(3)); ++n; } else { a.insertAt(i, mk<T>(3), mk<T>(4)); n += 2; } label("op insert"); budget += 48. + 8. * tail; bytes += 64. * sizeof(T); if (!u.allocs()) u.atMost(8. * tail + 48, 0, 0, n); u.copied(0, n); }
					else { size_t q = 1 + s.below(std::min<size_t>(tail, 4)); u.what = "removal from an array"; note("remove %zu at %zu of %zu", q, i, n); label("op remove"); a.removeAt(i, q); n -= q; budget += 48. + 8. * tail; bytes += 64. * sizeof(T); u.atMost(8. * tail + 48 + (u.allocs() ? 8. * n : 0), 0, 4, n); u.copied(0, n); }
				}
				if (n > top) top = n; break;
			}
			case 5: { t.what = "copying an array"; note("copy %zu", n); label("op copy"); { Array<T> b(static_cast<const Array<T>&>(a)); REQUIRE(b.getCount() == n, "count of the copy"); t.copied(n, n); t.atMost(2. * n + 8, 0, 3, n); if (s.coin()) { Since u("assigning an array"); a = static_cast<const Array<T>&>(b); u.atMost(4. * n + 8, 0, 3, n); u.copied(n, n); } } budget += 16. * n + 64; bytes += 8. * sizeof(T) * n + 64; break; }
			case 6: { t.what = "moving an array"; note("move %zu", n); label("op move"); Array<T> b(std::move(a)); if (s.coin()) { Array<T> c; c = std::move(b); a = std::move(c); } else a = std::move(b); REQUIRE(a.getCount() == n, "count"); t.atMost(8, 0, 2, n); t.copied(0, n); budget += 8; bytes += 64; break; }
			case 7: { t.what = "reading an array"; label("op read"); uint64_t sum = 0; const Array<T> & c = a; for (const auto & x : c) sum += (uintptr_t)&x; for (auto & x : a) sum += (uintptr_t)&x; for (int i = 0; i < 20 && n; ++i) sum += (uintptr_t)&c[s.below(n)]; sum += (uintptr_t)c.getData() + c.getCount() + c.isEmpty(); volatile uint64_t keep = sum; (void)keep; t.atMost(0, 0, 0, n); break; }
			case 8: { t.what = "emptying an array"; if (s.coin()) { note("empty"); a.empty(); } else { note("reset"); a.reset(); } label("op empty"); t.atMost(2. * n + 8, 0, 1, n); t.copied(0, n); budget += 2. * n + 8; n = 0; break; }
			}
			if (n >= 256) big = true;
			REQUIRE(W.ops <= budget, "an array of up to %zu items, now %zu: items were made, assigned or destroyed %llu times, at most %.0f expected", top, n, (unsigned long long)W.ops, budget);
			REQUIRE(W.bytes <= bytes, "an array of up to %zu items, now %zu: %llu bytes requested in all, at most %.0f expected", top, n, (unsigned long long)W.bytes, bytes);
		}
		if (big) nontrivial(); label(big ? "256 items or more" : "less than 256 items");
	}
	REQUIRE(!g.live, "blocks kept");
}
// ---- texts
static void text(Src & s)
{
	Counting g;
	{
		String a; size_t n = 0; double bytes = 4096;
		for (size_t k = 1 + s.length(10); k; --k)
		{
			size_t c = many(s); Since t("appending to a text"); size_t w = 0; unsigned kind = s.below(4); std::string piece(1 + s.below(40), 'x'); note("append %zu times (%u)", c, kind); label("op append");
			String other = piece.c_str(); char one = 'c'; W.allocs = t.w.allocs; W.bytes = t.w.bytes;
			for (size_t i = 0; i < c; ++i) switch (kind) { case 0: a += one; ++w; break; case 1: a += piece.c_str(); w += piece.size(); break; case 2: a += other; w += piece.size(); break; default: a += (int32)1234567; w += 7; }
			n += w; bytes += 64. * w + 256; REQUIRE(a.getLength() == n, "length"); t.atMost(1e18, 1e18, 4 * lg(n) + 8, n);
			REQUIRE(W.bytes <= bytes, "a text of %zu characters: %llu bytes requested in all, at most %.0f expected", n, (unsigned long long)W.bytes, bytes);
			{ Since r("reading a text"); const String & ca = a; String b; uint64_t before = W.allocs; (void)before; Since q("reading a text"); volatile long keep = (long)ca.getLength() + (*ca)[n ? n - 1 : 0] + (ca == "abc") + ca.cmp("x") + (n ? ca[n / 2] : 0) + (ca < "y") + (ca != b); (void)keep; q.atMost(0, 0, 0, n); }
			{ size_t was = W.bytes; String b(std::move(a)); a = std::move(b); REQUIRE(a.getLength() == n, "length"); REQUIRE(W.bytes - was <= 16. * n + 512, "moving a text of %zu characters requests %zu bytes", n, (size_t)(W.bytes - was)); bytes += 16. * n + 512; }
			{ size_t was = W.bytes; String b(static_cast<const String&>(a)); REQUIRE(W.bytes - was <= 8. * n + 256, "copying a text of %zu characters requests %zu bytes", n, (size_t)(W.bytes - was)); bytes += 8. * n + 512; }
			if (n >= 256) nontrivial();
		}
		label(n > 4096 ? "more than 4096 characters" : n >= 256 ? "256..4096 characters" : "short");
	}
}
// ---- lists
static void list(Src & s)
{
	Counting g;
	{
		List<Item> a; size_t n = 0; bool big = false; volatile long keep = 0;
		for (size_t k = 1 + s.length(10); k; --k)
		{
			unsigned kind = s.below(8); size_t c = kind < 4 ? many(s) : 1; note("phase %u x %zu on %zu", kind, c, n);
			switch (kind)
			{
			case 0: case 1: case 2: label("op push"); for (size_t i = 0; i < c; ++i) { Since t("pushing to a list"); if (kind == 2 ? i & 1 : kind) a.pushBack(Item((int)i)); else a.pushFront(Item((int)i)); ++n; t.atMost(8, 0, 2, n); t.copied(0, n); } break;
			case 3: label("op pop"); for (size_t i = 0; i < c && n; ++i) { Since t("removing from a list"); switch (i % 4) { case 0: a.removeBack(); break; case 1: a.removeFront(); break; case 2: { Item x; a.popBack(x); break; } default: { Item x; a.popFront(x); } } --n; t.atMost(8, 0, 0, n); t.copied(0, n); } break;
			case 4: if (n) { label("op remove"); size_t i = s.below(n); auto it = a.begin(); while (i--) ++it; Since t("removing from the middle of a list"); a.remove(it); --n; t.atMost(4, 0, 0, n); } break;
			case 5: { label("op copy"); Since t("copying a list"); List<Item> b(static_cast<const List<Item>&>(a)); t.atMost(4. * n + 8, 0, 2. * n + 4, n); t.copied(n, n); for (size_t i = s.below(50); i; --i) b.removeBack(); Since u("assigning a list"); if (s.coin()) { b = static_cast<const List<Item>&>(a); u.atMost(6. * n + 8, 0, 2. * n + 4, n); u.copied(n, n); } break; }
			case 6: { label("op move"); Since t("moving a list"); List<Item> b(std::move(a)); a = std::move(b); t.atMost(0, 0, 2, n); break; }
			default: { label("op read"); Since t("traversing a list"); const List<Item> & ca = a; size_t q = 0; for (const auto & x : ca) { keep = keep + x.v; ++q; } for (auto & x : a) keep = keep + x.v; for (auto * l = ca.getTail(); l; l = l->prev) keep = keep + l->data.v; REQUIRE(q == n && ca.getLength() == n, "length"); t.atMost(0, 0, 0, n); }
			}
			if (n >= 256) big = true;
		}
		if (big) nontrivial(); label(big ? "256 items or more" : "less than 256 items");
		Since t("destroying a list"); a.empty(); t.atMost(2. * n, 0, 0, n);
	}
	REQUIRE(!g.live, "blocks kept");
}
// ---- trees, sets and maps
template<typename C> struct OfTree
{
	BinaryTree<Item, C> a; using A = BinaryTree<Item, C>;
	void insert(Src &, int v, bool) { switch (v % 3) { case 0: a.insert(Item(v)); break; case 1: a.insertUnique(Item(v)); break; default: a.replace(Item(v)); } }
	bool find(int v, const Item & x) { switch (v % 3) { case 0: return a.find(x) != a.end(); case 1: return a.findNode(x); default: { const A & c = a; return c.begin(x) != c.end(); } } }
	bool remove(int v, const Item & x) { if (v & 1) return a.remove(x); auto it = a.find(x); if (it == a.end()) return false; a.remove(it); return true; }
	size_t count() { return a.getNumNodes(); }
	template<typename F> void each(F f) { const A & c = a; for (const auto & x : c) f(x.v); }
	static const char * name() { return "tree"; }
};
template<typename C> struct OfSet
{
	Set<Item, C> a; using A = Set<Item, C>;
	void insert(Src &, int v, bool) { a.set(Item(v)); }
	bool find(int v, const Item & x) { switch (v % 4) { case 0: return a.get(x); case 1: return a.any(x); case 2: { Item o; const A & c = a; return c.get(x, o); } default: return a.begin(x) != a.end(); } }
	bool remove(int v, const Item & x) { if (v & 1) return a.remove(x); Item o; return a.remove(x, o); }
	size_t count() { return a.getSize(); }
	template<typename F> void each(F f) { const A & c = a; for (const auto & x : c) f(x.v); }
	static const char * name() { return "set"; }
};
template<typename C> struct OfMap
{
	Map<Item, Item, C> a; using A = Map<Item, Item, C>;
	void insert(Src &, int v, bool) { if (v & 1) a.insert(Item(v), Item(7)); else a[Item(v)] = Item(7); }
	bool find(int v, const Item & x) { switch (v % 4) { case 0: return a.has(x); case 1: return a.find(x) != a.end(); case 2: { Item o; const A & c = a; return c.find(x, o); } default: return a.begin(x) != a.end(); } }
	bool remove(int v, const Item & x) { switch (v % 3) { case 0: return a.remove(x); case 1: { Item o; return a.pop(x, o); } default: { auto it = a.find(x); if (it == a.end()) return false; a.remove(it); return true; } } }
	size_t count() { return a.getCount(); }
	template<typename F> void each(F f) { const A & c = a; for (const auto & x : c) f(x.first.v); }
	static const char * name() { return "map"; }
};
template<typename M> static void ordered(Src & s)
{
	Counting g;
	{
		M m; std::set<int> e; int next = 0, low = 0; bool big = false; uint32_t rnd = s.below(60000); static char what[4][60]; for (int i = 0; i < 4; ++i) { static const char * const W4[] = {"inserting into a", "looking up in a", "removing from a", "copying or moving a"}; snprintf(what[i], 60, "%s %s", W4[i], M::name()); }
		for (size_t k = 1 + s.length(10); k; --k)
		{
			unsigned kind = s.below(9); size_t c = kind < 6 ? many(s) / 3 : 1; note("phase %u x %zu on %zu", kind, c, e.size());
			double cmp = 6 * lg(e.size() + c) + 16;
			switch (kind)
			{
			case 0: case 1: case 2: case 3:
				label(kind == 0 ? "op ascending" : kind == 1 ? "op descending" : "op insert anywhere");
				for (size_t i = 0; i < c; ++i)
				{
					int v; rnd = rnd * 1664525u + 1013904223u; switch (kind) { case 0: v = next++; break; case 1: v = --low; break; default: v = (int)(rnd >> 8) % 40000 - 20000; } if (kind >= 2) { if (v >= next) next = v + 1; if (v < low) low = v; } v = std::abs(v) * 2 + (v < 0);   // no negative values for the choice of operation
					if (kind == 1) v = 1000000 - v; if (v < 0) v = 0; if (kind >= 2) v += 200000;
					if (e.count(v)) continue; Since t(what[0]); m.insert(s, v, false); e.insert(v); t.atMost(40, cmp, 2, e.size()); t.copied(0, e.size());
				}
				break;
			case 4: label("op look up"); for (size_t i = 0; i < c; ++i) { rnd = rnd * 1664525u + 1013904223u; int v; bool in = (rnd & 64) && !e.empty(); if (in) { auto it = e.lower_bound((int)(rnd >> 12)); v = it == e.end() ? *e.begin() : *it; } else v = (int)(rnd >> 12); const Item x(v); Since t(what[1]); bool r = m.find(v, x); REQUIRE(r == (e.count(v) > 0), "find %d", v); t.atMost(4, cmp, 0, e.size()); t.copied(r, e.size()); } break;
			case 5: label("op remove"); for (size_t i = 0; i < c && !e.empty(); ++i) { rnd = rnd * 1664525u + 1013904223u; auto it = i % 3 == 0 ? e.begin() : i % 3 == 1 ? std::prev(e.end()) : e.lower_bound((int)(rnd >> 12)); if (it == e.end()) it = e.begin(); int v = *it; const Item x(v); Since t(what[2]); REQUIRE(m.remove(v, x), "remove %d", v); e.erase(it); t.atMost(40, cmp, 0, e.size()); t.copied(0, e.size()); } break;
			case 6: { label("op copy"); size_t n = e.size(); typedef typename M::A A; { Since t(what[3]); A b(static_cast<const A&>(m.a)); t.atMost(12. * n + 16, n * cmp, 2. * n + 8, n); t.copied(2. * n, n); if (s.coin()) { Since u(what[3]); b = static_cast<const A&>(m.a); u.atMost(16. * n + 16, n * cmp, 2. * n + 8, n); u.copied(2. * n, n); } } break; }
			case 7: { label("op move"); typedef typename M::A A; Since t(what[3]); A b(std::move(m.a)); m.a = std::move(b); t.atMost(0, 0, 2, e.size()); break; }
			default: { label("op traverse"); Since t(what[1]); size_t q = 0; auto it = e.begin(); m.each([&](int v) { REQUIRE(it != e.end() && *it == v, "traversal"); ++it; ++q; }); REQUIRE(q == e.size(), "traversal ends early"); t.atMost(0, 0, 0, q); }
			}
			REQUIRE(m.count() == e.size(), "count %zu, expected %zu", m.count(), e.size()); if (e.size() >= 256) big = true;
		}
		if (big) nontrivial(); label(big ? "256 items or more" : "less than 256 items");
	}
	REQUIRE(!g.live, "blocks kept");
}
// Operators over two sets
static void sets(Src & s)
{
	Counting g;
	{
		size_t n = many(s), m = many(s); Set<Item, Order> a, b; uint32_t rnd = s.below(60000); int span = 1 + s.below(12000); unsigned shape = s.below(3); std::set<int> x, y; note("%zu and %zu items below %d", n, m, span);
		auto fill = [&](Set<Item, Order> & t, std::set<int> & e, size_t c, int from) { for (size_t i = 0; i < c; ++i) { rnd = rnd * 1664525u + 1013904223u; int v = shape == 1 ? from + (int)i : (int)((rnd >> 8) % span); t.set(Item(v)); e.insert(v); } };
		fill(a, x, n, 0); fill(b, y, m, shape == 1 ? s.below(n + 1) : 0); if (shape == 2) { b = static_cast<const Set<Item, Order>&>(a); y = x; }
		double all = x.size() + y.size(), cmp = 4 * all * (lg(all) + 4) + 32; const Set<Item, Order> & ca = a, & cb = b;
		for (int k = 1 + s.below(6); k; --k) switch (s.below(7))
		{
		case 0: { Since t("comparing sets"); volatile int keep = (ca == cb) + (ca != cb); (void)keep; t.atMost(0, 2 * cmp, 0, all); label("op =="); break; }
		case 1: { Since t("comparing sets"); volatile int keep = (ca <= cb) + (ca >= cb); (void)keep; t.atMost(0, 2 * cmp, 0, all); label("op <="); break; }
		case 2: { Since t("comparing sets"); volatile int keep = (ca < cb) + (ca > cb); (void)keep; t.atMost(0, 2 * cmp, 0, all); label("op <"); break; }
		case 3: { Since t("union of sets"); Set<Item, Order> c = ca + cb; t.atMost(16 * all + 64, 2 * cmp, 2 * all + 16, all); t.copied(2 * all + 4, all); label("op union"); break; }
		case 4: { Since t("intersection of sets"); Set<Item, Order> c = ca * cb; t.atMost(16 * all + 64, 2 * cmp, 2 * all + 16, all); label("op intersection"); break; }
		case 5: { Since t("difference of sets"); Set<Item, Order> c = ca - cb; t.atMost(16 * all + 64, 2 * cmp, 2 * all + 16, all); label("op difference"); break; }
		default: { Set<Item, Order> c(ca); Since t("operators in place"); c += cb; c -= ca; c *= cb; t.atMost(32 * all + 64, 4 * cmp, 2 * all + 16, all); label("op in place"); }
		}
		if (all >= 256) nontrivial();
	}
	REQUIRE(!g.live, "blocks kept");
}
// ---- sorting what is in random order
static void sorting(Src & s)
{
	Counting g; size_t n = many(s); uint32_t rnd = s.below(60000); std::vector<Item> v; v.reserve(n + 1); std::vector<int> p(n); for (size_t i = 0; i < n; ++i) p[i] = (int)i; for (size_t i = n; i > 1; --i) { rnd = rnd * 1664525u + 1013904223u; std::swap(p[i - 1], p[(rnd >> 8) % i]); }
	for (int x : p) v.emplace_back(x); std::vector<Item> w(v); double bound = 16. * n * lg(n) + 64; note("%zu items in random order", n);
	if (s.coin()) { Since t("sorting"); Sort::quicksort(v.data(), v.data() + n, Order()); t.atMost(12 * bound, bound, 0, n); t.copied(0, n); label("op sort"); }
	else { Since t("sorting with a companion"); Sort::argquicksort(v.data(), v.data() + n, w.data(), Order()); t.atMost(24 * bound, bound, 0, n); t.copied(0, n); label("op sort with a companion"); }
	for (size_t i = 0; i < n; ++i) REQUIRE(v[i].v == (int)i, "order at %zu", i);
	if (n > 3) { Item pivot((int)(n / 2)); Since t("partition"); Sort::partition(v.data(), v.data() + n, static_cast<const Item&>(pivot), Order()); t.atMost(12. * n + 16, 4. * n + 8, 0, n); t.copied(4, n); label("op partition"); }
	if (n >= 256) nontrivial();
}
// ---- wrappers: nothing is copied that could be moved, nothing is copied to be read or called
struct Adder { Item i; int k; int operator()(int x) const { return i.v + k + x; } };
struct Eater { int k; int operator()(Item x) const { return x.v + k; } };
struct Looker { int k; int operator()(const Item & x) const { return x.v + k; } };
struct Giver { int k; Item operator()(int x) const { return Item(k + x); } };
static void wrappers(Src & s)
{
	Counting g; size_t done = 0; volatile long keep = 0;
	for (size_t k = 1 + s.length(20); k; --k, ++done)
	{
		int v = s.below(1000); note("%d", v);
		switch (s.below(12))
		{
		case 0: { label("optional of a temporary"); Since t("an optional made of a temporary"); Optional<Item> o(Item{v}); REQUIRE(o->v == v, "value"); t.copied(0, 1); Since u("reading an optional"); const Optional<Item> & c = o; keep = keep + (*c).v + c->v + (*o).v + o.hasValue(); u.atMost(0, 0, 0, 1); Since w("assigning a temporary to an optional"); o = Item(v + 1); w.copied(0, 1); o.emplace(Item(v + 2)); w.copied(0, 1); REQUIRE(o->v == v + 2, "value"); break; }
		case 1: { label("optional moved"); Optional<Item> o(Item{v}); Since t("moving an optional"); Optional<Item> p(std::move(o)); Optional<Item> q; q = std::move(p); q = Optional<Item>(Item(v + 1)); t.copied(0, 1); REQUIRE(q->v == v + 1, "value"); Item x(*std::move(q)); t.copied(0, 1); REQUIRE(x.v == v + 1, "value"); break; }
		case 2: { label("optional copied"); Optional<Item> o(Item{v}); const Optional<Item> & c = o; Since t("copying an optional"); Optional<Item> p(c); t.copied(1, 1); p = c; t.copied(2, 1); REQUIRE(p->v == v, "value"); break; }
		case 3: { label("function of a temporary"); Since t("a function made of a temporary"); Function<int(int)> f(Adder{Item(v), 3}); t.copied(0, 1); Since u("calling a function"); REQUIRE(f(5) == v + 8, "result"); REQUIRE(f(5) == v + 8, "result"); u.atMost(0, 0, 0, 1); Since w("moving a function"); Function<int(int)> h(std::move(f)); Function<int(int)> i; i = std::move(h); w.copied(0, 1); REQUIRE(i(1) == v + 4, "result"); break; }
		case 4: { label("function copied"); Adder a{Item(v), 3}; Since t("a function made of a named object"); Function<int(int)> f(a); t.copied(1, 1); const Function<int(int)> & c = f; Since u("copying a function"); Function<int(int)> h(c); u.copied(1, 1); REQUIRE(h(0) == v + 3 && f(0) == v + 3, "result"); break; }
		case 5: { label("function taking an item"); Function<int(Item)> f(Eater{2}); Since t("calling with a temporary"); REQUIRE(f(Item(v)) == v + 2, "result"); t.copied(0, 1); t.atMost(12, 0, 0, 1); Item x(v); Since u("calling with a named object"); REQUIRE(f(x) == v + 2 && x.v == v, "result"); u.copied(1, 1); int got = 0; Function<void(Item)> q([&got](Item x) { got = x.v; }); Since w("calling a function without a result with a temporary"); q(Item(v + 3)); w.copied(0, 1); REQUIRE(got == v + 3, "argument"); break; }
		case 6: { label("function looking at an item"); Function<int(const Item &)> f(Looker{2}); Item x(v); Since t("calling with a reference"); REQUIRE(f(x) == v + 2, "result"); t.atMost(0, 0, 0, 1); break; }
		case 7: { label("function giving an item"); Function<Item(int)> f(Giver{2}); Since t("a result"); Item x(f(v)); REQUIRE(x.v == v + 2, "result"); t.copied(0, 1); t.atMost(8, 0, 0, 1); break; }
		case 8: { label("tuple"); Since t("a tuple made of temporaries"); Tuple<Item, int, Item> u(Item(v), 3, Item(v + 1)); t.copied(0, 1); t.atMost(12, 0, 0, 1); Since r("reading a tuple"); const auto & c = u; keep = keep + c.template get<0>().v + u.template get<2>().v + c.template get<1>(); r.atMost(0, 0, 0, 1); Since m("moving a tuple"); Tuple<Item, int, Item> w(std::move(u)); m.copied(0, 1); REQUIRE(w.template get<2>().v == v + 1, "item"); break; }
		case 9: { label("pair"); Since t("a pair made of temporaries"); Pair<Item, Item> u{Item(v), Item(v + 1)}; t.copied(0, 1); Since m("moving a pair"); Pair<Item, Item> w(std::move(u)); m.copied(0, 1); REQUIRE(w.second.v == v + 1, "item"); break; }
		case 10: { label("swap"); Item x(v), y(v + 1); Since t("swapping"); swap(x, y); t.copied(0, 1); t.atMost(8, 0, 0, 1); REQUIRE(x.v == v + 1 && y.v == v, "swap"); break; }
		default: { label("containers in containers"); Array<Array<Item>> o; Since t("pushing arrays"); for (int i = 0; i < 20; ++i) { Array<Item> in; in.insertLast(Item(i)); in.insertLast(Item(i)); Since u("pushing an array into an array"); o.insertLast(std::move(in)); u.atMost(0, 0, 1, 1); } Since r("removing arrays"); o.removeAt(0); o.insertFirst(Array<Item>()); r.atMost(8, 0, 1, 20); REQUIRE(o[19][1].v == 19, "item"); break; }
		}
	}
	if (done >= 3) nontrivial();
	REQUIRE(!g.live || keep == 0x7fffffff, "blocks kept");
}
namespace pbt { std::vector<Suite> SUITES = {
	{"array", array<Item>, 1500, 60000, "arrays of counted items"},
	{"array_plain", array<int>, 600, 20000, "arrays of numbers: requests to the allocator"},
	{"text", text, 800, 20000, "texts"},
	{"list", list, 500, 20000, "lists"},
	{"tree", ordered<OfTree<Order>>, 300, 12000, "trees"},
	{"tree_default", ordered<OfTree<ThreeWayCompare>>, 150, 6000, "trees ordered by the operators of the items"},
	{"set", ordered<OfSet<Order>>, 300, 12000, "sets"},
	{"map", ordered<OfMap<Order>>, 300, 12000, "maps"},
	{"map_default", ordered<OfMap<ThreeWayCompare>>, 150, 6000, "maps ordered by the operators of the keys"},
	{"sets", sets, 300, 12000, "operators over two sets"},
	{"sort", sorting, 300, 12000, "sorting items in random order"},
	{"wrappers", wrappers, 20000, 400000, "optionals, functions, tuples, pairs, swaps"},
}; }
