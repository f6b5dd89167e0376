#include "m_text.h"
#include "m_list.h"
namespace pbt {
const char * PROPERTY = "C03";
const char * RULE = "a case is a random history of list operations, including assignments between two lists, compared after each step with an ideal sequence in both directions; non-trivial: the list held at least 3 items at some time and at least one removal and one insertion happened after that";
}
template<typename T> static void history(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ListM<T> x, y; note("%s", x.kind().c_str()); size_t n = 3 + s.length(80), big = 0, sz; bool grew = false, shrank = false;
		for (size_t i = 0; i < n; ++i)
		{
			sz = x.m.size();
			switch (s.weighted({30, 8, 2, 1, 1, 1, 1, 1}))
			{
			case 0: x.step(s); break;
			case 1: y.step(s); y.verify(); break;
			case 2: note("x = y  (%zu <- %zu)", x.m.size(), y.m.size()); label("op copy-assign"); { auto & r = (x.a = y.a); REQ(&r == &x.a); } x.m = y.m; y.verify(); break;
			case 3: note("x = move(y)  (%zu <- %zu)", x.m.size(), y.m.size()); label("op move-assign"); { auto & r = (x.a = std::move(y.a)); REQ(&r == &x.a); } x.m = y.m; y.m.clear(); y.a = List<T>{}; y.verify(); break;
			case 4: { note("x = copy of x"); label("op copy"); List<T> c(x.a); REQ(c.getLength() == x.m.size()); x.a = c; break; }
			case 5: { note("x built from range of y"); label("op range"); const List<T> & cy = y.a; List<T> c(cy.begin(), cy.end()); x.a = std::move(c); x.m = y.m; break; }
			case 6: { note("x moved through a temporary"); List<T> c(std::move(x.a)); x.a = std::move(c); break; }
			case 7: { note("x = x"); List<T> & r = x.a; x.a = r; break; }
			}
			x.verify();
			if (x.m.size() >= 3) big = 1;
			if (big && x.m.size() > sz) grew = true;
			if (big && x.m.size() < sz) shrank = true;
		}
		y.verify(); x.verify_iteration(s);
		if (big && grew && shrank) nontrivial();
		label(x.m.size() > 16 ? "final size >16" : x.m.size() > 2 ? "final size 3..16" : "final size 0..2");
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the list", objs().live.size());
	g.expect_empty("list history");
}
// Every size up to 300 meets every operation
template<typename T> static void sized(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ListM<T> x; size_t n = s.coin() ? s.below(70) : s.below(300); uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 16) % 1000; }; for (size_t i = 0; i < n; ++i) { int v = next(); x.a.pushBack(Elem<T>::make(v)); x.m.push_back(v); } note("%s of %zu", x.kind().c_str(), n); x.verify();
		size_t q = 1 + s.below(4); for (size_t i = 0; i < q; ++i) { x.step(s); x.verify(); } x.verify_iteration(s); label(n > 256 ? "257..299 items at first" : n > 64 ? "65..256 items at first" : n > 16 ? "17..64 items at first" : "0..16 items at first"); if (n > 2 && q > 1) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after it", objs().live.size());
	g.expect_empty("sized");
}
// Sizes up to tens of thousands
template<typename T> static void large(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ListM<T> x, y; size_t n = s.large(); uint32_t k = s.below(1000); note("%s of %zu", x.kind().c_str(), n); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 12); };
		if (s.coin()) for (size_t i = 0; i < n; ++i) { int v = next(); x.a.pushBack(Elem<T>::make(v)); x.m.push_back(v); } else { for (size_t i = 0; i < n; ++i) { int v = next(); x.a.pushFront(Elem<T>::make(v)); x.m.push_back(v); } std::reverse(x.m.begin(), x.m.end()); }
		x.verify(); for (int i = 1 + s.below(4); i; --i) x.step(s, 1 << 20); x.verify();
		switch (s.below(3)) { case 0: y.a = x.a; break; case 1: { size_t o = s.large(); note("assigned over %zu", o); for (size_t i = 0; i < o; ++i) y.a.pushBack(Elem<T>::make(5)); y.a = x.a; break; } default: { List<T> c(static_cast<const List<T>&>(x.a)); y.a = std::move(c); } }
		y.m = x.m; y.verify(); for (int i = 1 + s.below(3); i; --i) y.step(s, 1 << 20); y.verify(); x.verify(); x.verify_iteration(s); if (n > 255) nontrivial(); label(n > 65536 ? "more than 65536 items" : n > 4096 ? "4097..65536 items" : n > 255 ? "256..4096 items" : "few items");
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the list", objs().live.size());
	g.expect_empty("large list");
}
namespace pbt { std::vector<Suite> SUITES = {
	{"int", history<int>, 80000, 1500000, "List<int>"},
	{"pod", history<Pod>, 30000, 500000, "12-byte plain struct"},
	{"lined", history<Lined>, 8000, 150000, "elements aligned to 64"},
	{"big", history<Big>, 2000, 40000, "elements of 6000 bytes"},
	{"text", history<String>, 12000, 200000, "texts"},
	{"large", large<int>, 120, 3000, "hundreds to tens of thousands of items"},
	{"large_object", large<Obj>, 40, 1000, "the same of owning elements"},
	{"sized_int", sized<int>, 15000, 250000, "containers of every size up to 300"},
	{"sized_object", sized<Obj>, 8000, 120000, "containers of every size up to 300"},
	{"object", history<Obj>, 60000, 1000000, "instance-counted owning element"},
}; }
