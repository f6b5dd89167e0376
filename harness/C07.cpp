#include "m_world.h"
#include "m_optional.h"
#include "m_function.h"
#include "m_array.h"
#include "m_list.h"
#include "m_tree.h"
#include "m_map.h"
#include "m_set.h"
#include "m_string.h"
#include "m_nested.h"
#include "m_branches.h"
namespace pbt {
const char * PROPERTY = "C07";
const char * RULE = "a case is a history over four instances of one type: operations on each, copy and move construction and assignment between them (over empty, smaller, larger and moved-from destinations), self-assignment, destruction; all instances are compared with their own model after every step; non-trivial: at least 3 operations were made after a copy or move";
}
template<typename M> static void history(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		World<M> w(4); note("%s", M::kind().c_str()); size_t n = 6 + s.length(60);
		// give them different contents
		for (auto & sl : w.xs) { size_t k = s.below(12); for (size_t i = 0; i < k; ++i) sl.x->step(s); }
		w.verify();
		for (size_t i = 0; i < n; ++i) { w.step(s, 8); w.verify(); }
		if (w.after >= 3) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after their containers", objs().live.size());
	g.expect_empty("history");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"optional_int", history<OptionalM<int>>, 10000, 100000, "Optional<int>"},
	{"optional_obj", history<OptionalM<Obj>>, 16000, 200000, "Optional of an owning element"},
	{"function", [](Src & s) { FunctionM::begin(); history<FunctionM>(s); }, 24000, 200000, "Function<int(int)>"},
	{"array_int", history<ArrayM<int>>, 24000, 300000, "Array<int>"},
	{"array_obj", history<ArrayM<Obj>>, 20000, 300000, "Array of owning elements"},
	{"list_int", history<ListM<int>>, 20000, 300000, "List<int>"},
	{"list_obj", history<ListM<Obj>>, 20000, 300000, "List of owning elements"},
	{"tree_int", history<TreeM<int, PlainCompare<int>>>, 12000, 200000, "BinaryTree<int>"},
	{"tree_obj", history<TreeM<Obj, TensCompare<Obj>>>, 12000, 200000, "BinaryTree of owning elements"},
	{"map_int", history<MapM<int, int>>, 12000, 200000, "Map<int, int>"},
	{"map_obj", history<MapM<Obj, Obj>>, 10000, 150000, "Map of owning elements"},
	{"set_int", history<SetM<int>>, 16000, 200000, "Set<int>"},
	{"set_obj", history<SetM<Obj>>, 12000, 150000, "Set of owning elements"},
	{"string", history<StringM>, 40000, 500000, "String"},
	{"nested_array", history<ArrayOfArrays>, 16000, 200000, "Array of arrays"},
	{"nested_map", history<MapOfLists>, 12000, 150000, "Map of lists"},
	{"branches", branches, 12000, 150000, "arrays which take over a part of one of their own items"},
	{"branches_map", other_branches<MapBranch>, 3000, 60000, "the same through a map"},
	{"branches_list", other_branches<ListBranch>, 3000, 60000, "the same through a list"},
	{"branches_optional", maybe_branches, 3000, 60000, "optionals which take over one inside them"},
};
}
