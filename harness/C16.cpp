// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=aligned_alloc -Wl,--wrap=memalign -Wl,--wrap=realloc
#include "sysmem.h"
#include "m_array.h"
#include "m_list.h"
#include "m_tree.h"
#include "m_map.h"
#include "m_set.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
namespace pbt {
const char * PROPERTY = "C16";
const char * RULE = "a case is one history of operations on one or two containers using an allocator given to them or owned by type, compared with the ideal container after each operation and with the blocks the allocator has handed out; non-trivial: at least 5 operations, at least 3 items held at some time, at least 3 blocks taken from the allocator";
}
// An allocator of the library that records what goes through it
template<typename B> struct Spy : public B
{
	using B::B;
	std::unordered_map<void*, size_t> live; uint64_t total = 0; static Spy * & last() { static Spy * s = nullptr; return s; }
	template<typename ... X> Spy(int, X && ... x) : B(std::forward<X>(x)...) { last() = this; }
	Spy() { last() = this; }
	Spy(const Spy &) = delete;
	~Spy() { REQUIRE(live.empty(), "the allocator goes away while %zu blocks taken from it were never given back", live.size()); last() = nullptr; }
	void * alloc(sizet n, sizet a = DEFAULT_ALIGNMENT) override { void * p = B::alloc(n, a); if (p) { REQUIRE(!live.count(p), "block handed out twice"); live[p] = n; ++total; } return p; }
	void * realloc(void * q, sizet n, sizet a = DEFAULT_ALIGNMENT) override { if (q) REQUIRE(live.count(q), "resize of a block of another allocator"); void * p = B::realloc(q, n, a); if (q && (p || !n)) live.erase(q); if (p) { live[p] = n; ++total; } return p; }
	void free(void * p) override { if (p) { auto i = live.find(p); REQUIRE(i != live.end(), "given back a block this allocator did not hand out (or twice)"); live.erase(i); } B::free(p); }
	bool owns(const void * p) const { for (auto & b : live) if ((const char*)p >= (const char*)b.first && (const char*)p < (const char*)b.first + b.second) return true; return false; }
};
// where the items are
template<typename M> static std::vector<const void*> places(const M & x) { std::vector<const void*> v; for (auto & e : x.a) v.push_back(&e); return v; }
template<typename T> struct IsArrayM { static constexpr bool value = false; };
template<typename T, typename A> struct IsArrayM<ArrayM<T, A>> { static constexpr bool value = true; };
template<typename M> struct NoCopy { static constexpr bool value = false; };
template<typename M> static void inside(const M & x, const std::function<bool(const void*)> & owns) { for (const void * p : places(x)) REQUIRE(owns(p), "an item lies outside the memory of the container's allocator"); }

template<typename M> static void history(Src & s, M & x, GlobalAudit & g, const std::function<bool(const void*)> & owns, const std::function<uint64_t()> & taken)
{
	size_t ops = 5 + s.length(60), most = 0;
	for (size_t i = 0; i < ops; ++i)
	{
		x.step(s, 90); x.verify(); most = std::max(most, (size_t)x.m.size());
		REQUIRE(g.audit.total == 0, "%llu requests to the global allocator by a container with another allocator", (unsigned long long)g.audit.total);
		if (i % 4 == 3) inside(x, owns);
	}
	inside(x, owns); if (most >= 3 && taken() >= 3) nontrivial();
}
// assignment between two containers with allocators of their own
template<typename M, typename A> static void pair_history(Src & s, A & la, A & lb, GlobalAudit & g)
{
	M x(0, (MallocBase*)&la), y(0, (MallocBase*)&lb); A * ax = &la, * ay = &lb; size_t ops = 6 + s.length(50), copies = 0, most = 0;
	for (size_t i = 0; i < ops; ++i)
	{
		bool fx = s.coin(); M & p = fx ? x : y; M & q = fx ? y : x; A * & ap = fx ? ax : ay; A * & aq = fx ? ay : ax;
		switch (s.weighted({8, 3, 1, 1, 1}))
		{
		case 0: note("#%d", !fx); p.step(s, 90); break;
		case 1: note("#%d = #%d (%zu <- %zu)", !fx, fx, (size_t)p.m.size(), (size_t)q.m.size()); label("copy-assign between allocators"); p.a = static_cast<const M&>(q).a; p.m = q.m; ++copies; break;
		case 2: { note("#%d = move(#%d), which gets a new content", !fx, fx); label("move-assign between allocators"); p.a = std::move(q.a); p.m = q.m; q.m.clear(); ap = aq; 
			// the source is usable as an empty container
			q.verify(); break; }
		case 3: { note("#%d moved to a new one, which changes, and is moved back", !fx); label("move-construct with an allocator"); M t(std::move(p)); p.m.clear(); p.verify(); t.verify(); for (int k = s.below(4); k; --k) { t.step(s, 90); t.verify(); } inside(t, [&](const void * b) { return ap->owns(b); }); if (s.coin()) { p.step(s, 90); p.verify(); inside(p, [&](const void * b) { return ap->owns(b); }); } p.a = std::move(t.a); p.m = t.m; t.m.clear(); break; }
		case 4: { note("#%d and #%d swapped", !fx, fx); label("swap between allocators"); ::swap(p.a, q.a); std::swap(p.m, q.m); std::swap(ap, aq); break; }
		}
		x.verify(); y.verify(); most = std::max({most, (size_t)x.m.size(), (size_t)y.m.size()});
		REQUIRE(g.audit.total == 0, "requests to the global allocator by containers with other allocators");
		if (i % 4 == 3) { inside(x, [&](const void * p) { return ax->owns(p); }); inside(y, [&](const void * p) { return ay->owns(p); }); }
	}
	inside(x, [&](const void * p) { return ax->owns(p); }); inside(y, [&](const void * p) { return ay->owns(p); });
	if (copies && most >= 3 && la.total + lb.total >= 3) nontrivial();
}
template<typename M> struct Sizes { static constexpr uint32 blocks = 400; static constexpr sizet size = 128; };
template<typename T, typename A> struct Sizes<ArrayM<T, A>> { static constexpr uint32 blocks = 6; static constexpr sizet size = 1 << 15; };

// M: machine over a container that accepts an allocator
template<typename M> static void given(Src & s)
{
	objs().reset(); sysmem::begin();
	{
		GlobalAudit g;
		switch (s.below(6))
		{
		case 0: { note("given allocator"); label("given: audited"); AuditMalloc a("given allocator"); { M x(0, (MallocBase*)&a); history(s, x, g, [&](const void * p) { return a.owns(p); }, [&] { return a.total; }); } REQUIRE(a.live.empty(), "%zu blocks never given back to the given allocator", a.live.size()); break; }
		case 1: { note("given fixed pool"); label("given: fixed pool"); Spy<MallocPool> a(0, Sizes<M>::blocks, Sizes<M>::size, sizet(16)); { M x(0, (MallocBase*)&a); history(s, x, g, [&](const void * p) { return a.owns(p); }, [&] { return a.total; }); } break; }
		case 2: { uint32 N = 1 + s.below(8); note("given growing pool of %u blocks", N); label("given: growing pool"); Spy<MallocPooled> a(0, N, Sizes<M>::size, sizet(16), uint32(1 + s.below(3))); { M x(0, (MallocBase*)&a); history(s, x, g, [&](const void * p) { return a.owns(p); }, [&] { return a.total; }); } break; }
		case 3: { note("given size-class"); label("given: size classes"); Spy<MallocBinned> a(0); { M x(0, (MallocBase*)&a); g.audit.total = 0; history(s, x, g, [&](const void * p) { return a.owns(p); }, [&] { return a.total; }); } break; }
		case 4: { note("two given allocators"); label("given: two audited"); AuditMalloc a("first allocator"), b("second allocator"); pair_history<M>(s, a, b, g); REQUIRE(a.live.empty() && b.live.empty(), "%zu blocks never given back", a.live.size() + b.live.size()); break; }
		case 5: { note("two given growing pools"); label("given: two growing pools"); Spy<MallocPooled> a(0, 3u, Sizes<M>::size, sizet(16), 1u), b(0, 5u, Sizes<M>::size, sizet(16), 1u); pair_history<M>(s, a, b, g); break; }
		}
		REQUIRE(g.audit.live.empty(), "blocks left in the global allocator");
	}
	REQUIRE(objs().live.empty(), "%zu elements still alive", objs().live.size());
	sysmem::end("containers");
}
template<typename M, typename B, typename ... X> static void owned_by(Src & s, GlobalAudit & g, X ... x)
{
	{ std::unique_ptr<M> m; if constexpr (sizeof...(X) == 0) m.reset(new M); else m.reset(new M(0, 0, x...)); Spy<B> * l = Spy<B>::last(); REQ(l != nullptr); g.audit.total = 0; history(s, *m, g, [&](const void * p) { return l->owns(p); }, [&] { return l->total; }); }
	REQUIRE(Spy<B>::last() == nullptr, "the allocator owned by the container was never destroyed");
}
template<template<typename> class MF> static void owned(Src & s)
{
	objs().reset(); sysmem::begin();
	{
		GlobalAudit g;
		switch (s.below(4))
		{
		case 0: note("owns system allocator"); label("owned: system"); owned_by<MF<Spy<MallocAnsi>>, MallocAnsi>(s, g); break;
		case 1: { uint32 N = 1 + s.below(8); note("owns growing pool of %u", N); label("owned: growing pool"); owned_by<MF<Spy<MallocPooled>>, MallocPooled>(s, g, N, sizet(1 << 15), sizet(16), uint32(1)); break; }
		case 2: note("owns size-class"); label("owned: size classes"); owned_by<MF<Spy<MallocBinned>>, MallocBinned>(s, g); break;
		case 3: note("owns fixed pool"); label("owned: fixed pool"); owned_by<MF<Spy<MallocPoolInline<256, 8192>>>, MallocPoolInline<256, 8192>>(s, g); break;
		}
		REQUIRE(g.audit.live.empty(), "blocks left in the global allocator");
	}
	REQUIRE(objs().live.empty(), "%zu elements still alive", objs().live.size());
	sysmem::end("containers");
}
template<template<typename> class MF> static void owned_default(Src & s)
{
	objs().reset(); sysmem::begin();
	{
		GlobalAudit g;
		switch (s.below(4))
		{
		case 0: note("owns system allocator"); label("owned: system"); owned_by<MF<Spy<MallocAnsi>>, MallocAnsi>(s, g); break;
		case 1: note("owns growing pool"); label("owned: growing pool"); owned_by<MF<Spy<MallocPooled>>, MallocPooled>(s, g); break;
		case 2: note("owns size-class"); label("owned: size classes"); owned_by<MF<Spy<MallocBinned>>, MallocBinned>(s, g); break;
		case 3: note("owns fixed pool"); label("owned: fixed pool"); owned_by<MF<Spy<MallocPoolInline<256, 512>>>, MallocPoolInline<256, 512>>(s, g); break;
		}
		REQUIRE(g.audit.live.empty(), "blocks left in the global allocator");
	}
	REQUIRE(objs().live.empty(), "%zu elements still alive", objs().live.size());
	sysmem::end("containers");
}
template<typename B> using ArrI = ArrayM<int, Array<int, B>>; template<typename B> using ArrO = ArrayM<Obj, Array<Obj, B>>;
template<typename B> using LisI = ListM<long, List<long, B>>; template<typename B> using LisO = ListM<Obj, List<Obj, B>>;
template<typename B> using TreI = TreeM<int, PlainCompare<int>, BinaryTree<int, PlainCompare<int>, B>>; template<typename B> using TreO = TreeM<Obj, TensCompare<Obj>, BinaryTree<Obj, TensCompare<Obj>, B>>;
template<typename B> using MapI = MapM<int, long, ThreeWayCompare, Map<int, long, ThreeWayCompare, B>, true>; template<typename B> using MapO = MapM<Obj, Obj, PlainCompare<Obj>, Map<Obj, Obj, PlainCompare<Obj>, B>, true>;
template<typename B> using SetI = SetM<int, PlainCompare<int>, Set<int, PlainCompare<int>, B>, true>; template<typename B> using SetO = SetM<Obj, TensCompare<Obj>, Set<Obj, TensCompare<Obj>, B>, true>;
using MapG = MapM<int, Obj, ThreeWayCompare, Map<int, Obj, ThreeWayCompare>, true>;
namespace pbt {
std::vector<Suite> SUITES = {
	{"array-given", [](Src & s) { s.coin() ? given<ArrayM<int>>(s) : given<ArrayM<Obj>>(s); }, 18000, 200000, "array with a given allocator"},
	{"list-given", [](Src & s) { s.coin() ? given<ListM<long>>(s) : given<ListM<Obj>>(s); }, 18000, 200000, "list with a given allocator"},
	{"tree-given", [](Src & s) { s.coin() ? given<TreeM<int, PlainCompare<int>>>(s) : given<TreeM<Obj, TensCompare<Obj>>>(s); }, 15000, 150000, "tree with a given allocator"},
	{"map-given", [](Src & s) { given<MapG>(s); }, 15000, 150000, "map with a given allocator"},
	{"array-owned", [](Src & s) { s.coin() ? owned<ArrI>(s) : owned<ArrO>(s); }, 18000, 200000, "array owning its allocator"},
	{"list-owned", [](Src & s) { s.coin() ? owned<LisI>(s) : owned<LisO>(s); }, 18000, 200000, "list owning its allocator"},
	{"tree-owned", [](Src & s) { s.coin() ? owned<TreI>(s) : owned<TreO>(s); }, 15000, 150000, "tree owning its allocator"},
	{"map-owned", [](Src & s) { s.coin() ? owned_default<MapI>(s) : owned_default<MapO>(s); }, 12000, 120000, "map owning its allocator"},
	{"set-owned", [](Src & s) { s.coin() ? owned_default<SetI>(s) : owned_default<SetO>(s); }, 12000, 120000, "set owning its allocator"},
};
}
