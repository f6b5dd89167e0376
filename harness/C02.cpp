#include "m_world.h"
#include "m_array.h"
#include "m_list.h"
#include "m_tree.h"
#include "m_map.h"
#include "m_set.h"
#include "m_nested.h"
#include "m_only.h"
namespace pbt {
const char * PROPERTY = "C02";
const char * RULE = "a case is a history over three instances of a container (operations, copies, assignments, moves, destructions) with elements that report construction, use and destruction and an allocator that audits its blocks; non-trivial: at least 15 steps during which at least 12 elements were constructed and 3 removed before the end, with at least one copy or move between containers";
}
template<typename M> static void run(Src & s, bool counted)
{
	GlobalAudit g; objs().reset();
	uint64_t died = 0; int cm = 0; size_t n = 0;
	{
		World<M> w(3); note("%s", M::kind().c_str());
		n = 5 + s.length(60);
		for (size_t i = 0; i < n; ++i) { w.step(s, 14); w.verify_objects(); if (i % 8 == 7) w.verify(); }
		w.verify(); w.verify_objects(); died = objs().destroyed; cm = w.copies + w.moves;
		if (n >= 15 && objs().constructed >= 12 && died >= 3 && cm) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after their containers", objs().live.size());
	REQUIRE(objs().constructed == objs().destroyed, "%llu constructed, %llu destroyed", (unsigned long long)objs().constructed, (unsigned long long)objs().destroyed);
	g.expect_empty("history");
}
template<typename M> static void history(Src & s) { run<M>(s, true); }

// Containers bound to an allocator of the caller: everything comes from it and goes back to it
template<typename M> static void bound(Src & s)
{
	GlobalAudit g; objs().reset(); uint64_t c = 0, d = 0; size_t n = 10 + s.length(80);
	{
		AuditMalloc mine("the container's allocator");
		{
			M x(0, &mine); note("%s with its own allocator", M::kind().c_str());
			for (size_t i = 0; i < n; ++i) { x.step(s); REQUIRE(objs().live.size() == x.objects(), "%zu elements alive, container holds %zu", objs().live.size(), x.objects()); }
			x.verify(); if constexpr (std::is_same<M, ArrayM<Obj>>::value) if (s.coin()) { note("reset"); x.a.reset(); x.m.clear(); x.verify(); REQUIRE(mine.live.empty(), "%zu blocks held by an array that was reset", mine.live.size()); x.a.add(Obj(3)); x.m.push_back(3); x.verify(); label("reset gives storage back"); }
			c = objs().constructed; d = objs().destroyed;
		}
		REQUIRE(mine.live.empty(), "%zu blocks never returned to the container's allocator", mine.live.size());
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after their container", objs().live.size());
	g.expect_empty("history with own allocator");
	if (n >= 15 && c >= 12 && d >= 3) nontrivial();
}
using TreeTens = TreeM<Obj, TensCompare<Obj>>;
namespace pbt {
std::vector<Suite> SUITES = {
	{"array", history<ArrayM<Obj>>, 60000, 400000, "Array"},
	{"array_wide", history<ArrayM<ObjT<40>>>, 24000, 200000, "Array, larger element"},
	{"list", history<ListM<Obj>>, 36000, 300000, "List"},
	{"tree", history<TreeM<Obj, PlainCompare<Obj>>>, 30000, 300000, "BinaryTree"},
	{"tree_tens", history<TreeTens>, 18000, 200000, "BinaryTree with equivalent, distinguishable items"},
	{"map", history<MapM<Obj, Obj>>, 24000, 200000, "Map of owning keys and values"},
	{"set", history<SetM<Obj>>, 24000, 200000, "Set"},
	{"nested_array", history<ArrayOfArrays>, 36000, 300000, "Array of arrays"},
	{"nested_map", history<MapOfLists>, 24000, 200000, "Map of lists"},
	{"move_only_array", only_history<OnlyArray<Unique>>, 24000, 200000, "Array of elements that can be moved but not copied"},
	{"move_only_list", only_history<OnlyList<Unique>>, 15000, 120000, "List of elements that can be moved but not copied"},
	{"move_only_tree", only_history<OnlyTree<Unique>>, 15000, 120000, "BinaryTree of elements that can be moved but not copied"},
	{"bound_array", bound<ArrayM<Obj>>, 24000, 200000, "Array with a caller's allocator"},
	{"bound_list", bound<ListM<Obj>>, 24000, 200000, "List with a caller's allocator"},
	{"bound_tree", bound<TreeM<Obj, PlainCompare<Obj>>>, 24000, 200000, "BinaryTree with a caller's allocator"},
};
}
