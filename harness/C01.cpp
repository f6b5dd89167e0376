#include "m_text.h"
#include "m_array.h"
namespace pbt {
const char * PROPERTY = "C01";
const char * RULE = "a case is a random history of array operations compared after each step with an ideal sequence; non-trivial: at least 5 operations, at least 3 of which changed the size while two or more items were held";
}
template<typename T> static void history(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ArrayM<T> x; note("%s", x.kind().c_str());
		// different ways to begin
		switch (s.below(6))
		{
		case 0: case 1: break;
		case 2: { size_t c = s.below(9); note("Array(capacity %zu)", c); x.a = Array<T>(c); break; }
		case 3: { std::vector<T> src; size_t c = s.below(9), slack = s.below(5); src.reserve(c + 1); for (size_t i = 0; i < c; ++i) { src.push_back(Elem<T>::make(i * 3)); x.m.push_back(i * 3); } note("Array(buffer of %zu, slack %zu)", c, slack); x.a = Array<T>(src.data(), c, slack); break; }
		case 4: { size_t c = s.below(7); note("Array(capacity %zu, count %zu)", c + 1, c); x.a = Array<T>(c + 1, c); for (size_t i = 0; i < c; ++i) { if (!Elem<T>::counted) x.a[i] = Elem<T>::make(0); x.m.push_back(0); } break; }
		case 5: { size_t c = s.below(7), slack = s.below(5); note("Array(no buffer, count %zu, slack %zu)", c, slack); x.a = Array<T>(nullptr, c, slack); for (size_t i = 0; i < c; ++i) { if (!Elem<T>::counted) x.a[i] = Elem<T>::make(0); x.m.push_back(0); } break; }
		}
		x.verify();
		size_t n = 3 + s.length(90), mid = 0; size_t before = 0;
		for (size_t i = 0; i < n; ++i)
		{
			before = x.m.size(); x.step(s); x.verify();
			if (x.m.size() != before && before > 1) ++mid;
		}
		x.verify_iteration(s);
		if (n >= 5 && mid >= 3) nontrivial();
		label(x.m.size() > 64 ? "final size >64" : x.m.size() > 16 ? "final size 17..64" : x.m.size() > 2 ? "final size 3..16" : "final size 0..2");
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the array", objs().live.size());
	g.expect_empty("array history");
}
// Long histories: growth across many doublings, bulk shifts
template<typename T> static void bulk(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ArrayM<T> x; note("%s (bulk)", x.kind().c_str()); size_t target = 100 + s.below(1500);
		while (x.m.size() < target) { unsigned how = s.below(4); int v = s.below(1000); if (how < 3) { x.a.add(Elem<T>::make(v)); x.m.push_back(v); } else { size_t i = s.below(x.m.size() + 1); x.a.insertAt(i, Elem<T>::make(v)); x.m.insert(x.m.begin() + i, v); } }
		x.verify();
		for (int k = 0; k < 5 && !x.m.empty(); ++k) { size_t i = s.below(x.m.size()), c = s.below(x.m.size() - i + 1); note("removeAt %zu x%zu of %zu", i, c, x.m.size()); x.a.removeAt(i, c); x.m.erase(x.m.begin() + i, x.m.begin() + i + c); x.verify(); for (int q = 0; q < 20; ++q) x.step(s, 5000); x.verify(); }
		x.verify_iteration(s); nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the array", objs().live.size());
	g.expect_empty("array bulk");
}
// Every size up to 300 meets every operation
template<typename T> static void sized(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ArrayM<T> x; size_t n = s.coin() ? s.below(70) : s.below(300); uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 16) % 1000; }; for (size_t i = 0; i < n; ++i) { int v = next(); x.a.add(Elem<T>::make(v)); x.m.push_back(v); } note("%s of %zu", x.kind().c_str(), n); x.verify();
		size_t q = 1 + s.below(4); for (size_t i = 0; i < q; ++i) { x.step(s); x.verify(); } x.verify_iteration(s); label(n > 256 ? "257..299 items at first" : n > 64 ? "65..256 items at first" : n > 16 ? "17..64 items at first" : "0..16 items at first"); if (n > 2 && q > 1) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after it", objs().live.size());
	g.expect_empty("sized");
}
// Sizes up to tens of thousands
template<typename T> static void large(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		ArrayM<T> x; size_t n = s.large(); uint32_t k = s.below(1000); note("%s of %zu", x.kind().c_str(), n); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 12); };
		switch (s.below(3))
		{
		case 0: note("filled one by one"); for (size_t i = 0; i < n; ++i) { int v = next(); x.a.add(Elem<T>::make(v)); x.m.push_back(v); } break;
		case 1: { note("from a buffer"); std::vector<T> src; src.reserve(n); for (size_t i = 0; i < n; ++i) { int v = next(); src.push_back(Elem<T>::make(v)); x.m.push_back(v); } x.a = Array<T>(src.data(), n); break; }
		default: { note("capacity first"); x.a = Array<T>(s.coin() ? n : n / 2); for (size_t i = 0; i < n; ++i) { int v = next(); x.a.insertLast(Elem<T>::make(v)); x.m.push_back(v); } }
		}
		x.verify();
		for (int i = 1 + s.below(5); i; --i) { x.step(s, 1 << 20); if (s.coin()) x.verify(); }
		x.verify(); { Array<T> c(static_cast<const Array<T>&>(x.a)); ArrayM<T> y; y.a = c; y.m = x.m; y.verify(); y.step(s, 1 << 20); y.verify(); x.a = std::move(y.a); x.m = y.m; }
		if (!x.m.empty()) { size_t i = s.below(x.m.size()), c = s.below(x.m.size() - i + 1); note("removeAt %zu x%zu", i, c); x.a.removeAt(i, c); x.m.erase(x.m.begin() + i, x.m.begin() + i + c); }
		x.verify(); x.verify_iteration(s); if (n > 255) nontrivial(); label(n > 65536 ? "more than 65536 items" : n > 4096 ? "4097..65536 items" : n > 255 ? "256..4096 items" : "few items");
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the array", objs().live.size());
	g.expect_empty("large array");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"int", history<int>, 60000, 1000000, "Array<int>"},
	{"self", history<Self>, 30000, 500000, "elements which know their own address, trivially constructed and destroyed"},
	{"pod", history<Pod>, 30000, 500000, "12-byte plain struct"},
	{"double", history<double>, 20000, 300000, "double"},
	{"sized_int", sized<int>, 15000, 250000, "containers of every size up to 300"},
	{"sized_object", sized<Obj>, 8000, 120000, "containers of every size up to 300"},
	{"object", history<Obj>, 40000, 800000, "instance-counted owning element"},
	{"wideobject", history<ObjT<40>>, 10000, 300000, "larger owning element"},
	{"lined", history<Lined>, 8000, 150000, "elements aligned to 64"},
	{"big", history<Big>, 2000, 40000, "elements of 6000 bytes"},
	{"short", history<short>, 10000, 150000, "short"},
	{"text", history<String>, 12000, 200000, "texts"},
	{"bulk_int", bulk<int>, 300, 6000, "growth over many doublings"},
	{"large_int", large<int>, 240, 6000, "hundreds to tens of thousands of items"},
	{"large_object", large<Obj>, 64, 1500, "the same of owning elements"},
	{"bulk_object", bulk<Obj>, 200, 4000, "growth over many doublings, owning element"},
};
}
