#include "m_text.h"
#include "m_map.h"
namespace pbt {
const char * PROPERTY = "C05";
const char * RULE = "a case is a random history of map operations compared after each step with a reference map; non-trivial: at least one value was overwritten and at least one present key removed while 3 or more keys were held";
}
template<typename K, typename V, typename C> static void history(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		MapM<K, V, C> x, y; x.span = s.pick({6, 40, 150}); y.span = x.span; note("%s, keys below %d", x.kind().c_str(), x.span); size_t n = 4 + s.length(150); bool over = false, rem = false;
		for (size_t i = 0; i < n; ++i)
		{
			auto before = x.m;
			switch (s.weighted({50, 5, 1, 1, 1}))
			{
			case 0: if constexpr (std::is_same<K, String>::value && std::is_same<V, String>::value) if (s.chance(1, 4)) { lookup_by_c_string(s, x); break; } x.step(s); break;
			case 1: y.step(s); y.verify(); break;
			case 2: note("x = y"); label("op copy-assign"); x.a = y.a; x.m = y.m; y.verify(); break;
			case 3: note("x = move(y)"); label("op move-assign"); x.a = std::move(y.a); x.m = y.m; y.m.clear(); y.a = decltype(y.a){}; y.verify(); break;
			case 4: { note("x = x"); auto & r = x.a; x.a = r; break; }
			}
			x.verify();
			if (before.size() >= 3) { if (x.m.size() + 1 == before.size()) rem = true; if (x.m.size() == before.size() && x.m != before) over = true; }
		}
		x.verify_all_keys(); y.verify_all_keys();
		if (over && rem) nontrivial();
		label(x.m.size() > 16 ? "final size >16" : "final size 0..16");
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the map", objs().live.size());
	g.expect_empty("map history");
}
// Sizes up to tens of thousands
// Every size up to 300 meets every operation
static void sized(Src & s)
{
	GlobalAudit g;
	{
		MapM<int, int, ThreeWayCompare> x; x.span = s.pick({30, 300, 1000}); size_t n = s.coin() ? s.below(70) : s.below(300); uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 16) % 1000; }; for (size_t i = 0; i < n * 20 && x.m.size() < n; ++i) { int v = next() % x.span; x.a.insert(v, (int)i); x.m[v] = (int)i; } n = x.m.size(); note("map of %zu", n); x.verify();
		size_t q = 1 + s.below(4); for (size_t i = 0; i < q; ++i) { x.step(s); x.verify(); } label(n > 256 ? "257..299 items at first" : n > 64 ? "65..256 items at first" : n > 16 ? "17..64 items at first" : "0..16 items at first"); if (n > 2 && q > 1) nontrivial();
	}
	g.expect_empty("sized");
}
static void large(Src & s)
{
	GlobalAudit g;
	{
		MapM<int, int, ThreeWayCompare> x; size_t n = s.large(); uint32_t k = s.below(1000); x.span = 1 << 20; bool desc = s.coin(), rnd = s.coin(); note("map of %zu", n); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 12) % x.span; };
		for (size_t i = 0; i < n; ++i) { int v = rnd ? next() : desc ? (int)(n - i) : (int)i, w = (int)i; if (i & 1) x.a.insert(v, w); else x.a[v] = w; x.m[v] = w; } x.verify();
		for (int i = 2 + s.below(6); i; --i) x.step(s, 1 << 20); x.verify(); { Map<int, int> c(static_cast<const Map<int, int>&>(x.a)); REQ(c.getCount() == x.m.size()); x.a = static_cast<const Map<int, int>&>(c); }
		std::vector<int> keys; for (auto & p : x.m) keys.push_back(p.first); size_t q = 0; for (int v : keys) if (q++ % 3) { int o = -1; if (q & 1) REQ(x.a.remove(v)); else { REQ(x.a.pop(v, o)); REQ(o == x.m[v]); } x.m.erase(v); }
		x.verify(); for (int i = 0; i < 20; ++i) x.verify_key(s.coin() && !keys.empty() ? keys[s.below(keys.size())] : (int)s.below(x.span)); if (n > 255) nontrivial(); label(n > 65536 ? "more than 65536 keys" : n > 4096 ? "4097..65536 keys" : n > 255 ? "256..4096 keys" : "few keys");
	}
	g.expect_empty("large map");
}
namespace pbt { std::vector<Suite> SUITES = {
	{"int_int", history<int, int, ThreeWayCompare>, 30000, 600000, "int to int, default comparison"},
	{"int_obj", history<int, Obj, ThreeWayCompare>, 15000, 300000, "int to owning object"},
	{"lined", history<int, Lined, ThreeWayCompare>, 3000, 60000, "int to values aligned to 64"},
	{"lined_key", history<Lined, short, ThreeWayCompare>, 3000, 60000, "keys aligned to 64"},
	{"text", history<String, String, ThreeWayCompare>, 8000, 150000, "text to text, also used through C strings"},
	{"text_int", history<String, int, ThreeWayCompare>, 4000, 80000, "text to int"},
	{"sized", sized, 8000, 150000, "maps of every size up to 300"},
	{"large", large, 120, 3000, "hundreds to tens of thousands of keys"},
	{"obj_obj", history<Obj, Obj, ThreeWayCompare>, 15000, 300000, "owning keys and values"},
	{"long_pod", history<long, double, ThreeWayCompare>, 15000, 200000, "long to double"},
}; }
