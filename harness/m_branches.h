// Arrays of nodes which hold arrays of such nodes: taking over a part of oneself
#pragma once
#include "support.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "templates/optional.h"

struct Branch { Obj value; Array<Branch> kids; Branch(int v = 0) : value(v) {} };
struct BranchModel { int value = 0; std::vector<BranchModel> kids; size_t size() const { size_t n = 1; for (auto & k : kids) n += k.size(); return n; } };
static void same_branch(const Branch & b, const BranchModel & m) { REQUIRE(b.value.get() == m.value, "a node holds %d, expected %d", b.value.get(), m.value); REQUIRE(b.kids.getCount() == m.kids.size(), "node %d has %llu children, expected %zu", m.value, (unsigned long long)b.kids.getCount(), m.kids.size()); for (size_t i = 0; i < m.kids.size(); ++i) same_branch(b.kids[i], m.kids[i]); }
static void grow_branch(Src & s, Branch & b, BranchModel & m, int depth) { m.value = s.below(100); b.value = Obj(m.value); size_t n = depth ? s.below(4) : 0; for (size_t i = 0; i < n; ++i) { b.kids.add(Branch()); m.kids.emplace_back(); } for (size_t i = 0; i < n; ++i) grow_branch(s, b.kids[i], m.kids[i], depth - 1); }
// The same hidden in other containers: nodes whose children are held by position in a map, a list or an optional
struct MapBranch { Obj value; Map<int, Array<MapBranch>> kids; MapBranch(int v = 0) : value(v) {} };
struct ListBranch { Obj value; List<Array<ListBranch>> kids; ListBranch(int v = 0) : value(v) {} };
struct MaybeBranch { Obj value; Array<Optional<MaybeBranch>> kids; MaybeBranch(int v = 0) : value(v) {} };
static void put(MapBranch & b, MapBranch && k) { int at = (int)b.kids.getCount(); Array<MapBranch> a; a.add(std::move(k)); b.kids.insert(at, std::move(a)); }
static MapBranch * kid(MapBranch & b, size_t i) { return b.kids.has((int)i) ? &b.kids[(int)i][0] : nullptr; }
static size_t count(const MapBranch & b) { return b.kids.getCount(); }
static void put(ListBranch & b, ListBranch && k) { Array<ListBranch> a; a.add(std::move(k)); b.kids.pushBack(std::move(a)); }
static ListBranch * kid(ListBranch & b, size_t i) { for (auto & a : b.kids) if (!i--) return &a[0]; return nullptr; }
static size_t count(const ListBranch & b) { return b.kids.getLength(); }
template<typename B> static void same_any(B & b, const BranchModel & m) { REQUIRE(b.value.get() == m.value, "a node holds %d, expected %d", b.value.get(), m.value); REQUIRE(count(b) == m.kids.size(), "node %d has %zu children, expected %zu", m.value, count(b), m.kids.size()); for (size_t i = 0; i < m.kids.size(); ++i) { B * k = kid(b, i); REQ(k); same_any(*k, m.kids[i]); } }
template<typename B> static void grow_any(Src & s, B & b, BranchModel & m, int depth) { m.value = s.below(100); b.value = Obj(m.value); size_t n = depth ? s.below(4) : 0; for (size_t i = 0; i < n; ++i) { B k; BranchModel mk; grow_any(s, k, mk, depth - 1); put(b, std::move(k)); m.kids.push_back(mk); } }
template<typename B> static void other_branches(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		unsigned taken = 0; size_t n = 3 + s.length(12); B root; BranchModel model;
		for (size_t i = 0; i < n; ++i)
		{
			if (model.kids.empty()) { root = B(); model = BranchModel(); grow_any(s, root, model, 3); note("a tree of %zu nodes", model.size()); }
			if (model.kids.empty()) continue;
			B * a = &root; BranchModel * ma = &model; while (s.coin()) { if (ma->kids.empty()) break; size_t k = s.below(ma->kids.size()); if (ma->kids[k].kids.empty()) break; a = kid(*a, k); ma = &ma->kids[k]; }
			size_t k = s.below(ma->kids.size()); B * b = kid(*a, k); BranchModel t = ma->kids[k]; if (!t.kids.empty() && s.coin()) { k = s.below(t.kids.size()); b = kid(*b, k); BranchModel u = t.kids[k]; t = u; }
			if (s.coin()) { note("node = move(node below it)"); *a = std::move(*b); *ma = t; } else { note("children = move(children of a node below)"); a->kids = std::move(b->kids); ma->kids = t.kids; }
			++taken; same_any(root, model); REQUIRE(objs().live.size() == model.size(), "%zu elements alive, the tree has %zu", objs().live.size(), model.size());
		}
		if (taken >= 2) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the tree", objs().live.size()); g.expect_empty("branches");
}
// An optional which takes over one of the optionals inside it
static void maybe_branches(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		Optional<MaybeBranch> o; std::function<MaybeBranch(int, BranchModel &)> make = [&](int d, BranchModel & m) { MaybeBranch b(m.value = s.below(100)); size_t n = d ? s.below(4) : 0; for (size_t i = 0; i < n; ++i) { m.kids.emplace_back(); if (s.chance(1, 4)) { m.kids.back().value = -1; b.kids.add(Optional<MaybeBranch>()); } else b.kids.add(Optional<MaybeBranch>(make(d - 1, m.kids.back()))); } return b; };
		std::function<void(const Optional<MaybeBranch> &, const BranchModel &)> same = [&](const Optional<MaybeBranch> & x, const BranchModel & m) { REQ(!!x == (m.value >= 0)); if (!x) return; REQ(x->value.get() == m.value && x->kids.getCount() == m.kids.size()); for (size_t i = 0; i < m.kids.size(); ++i) same(x->kids[i], m.kids[i]); };
		std::function<size_t(const BranchModel &)> held = [&](const BranchModel & m) { size_t c = m.value >= 0; for (auto & k : m.kids) c += held(k); return c; };
		BranchModel m; m.value = -1; unsigned taken = 0; size_t n = 3 + s.length(12);
		for (size_t i = 0; i < n; ++i)
		{
			if (m.kids.empty()) { m = BranchModel(); o = make(3, m); note("a tree of %zu nodes", held(m)); }
			else { size_t k = s.below(m.kids.size()); Optional<MaybeBranch> * x = &o->kids[k]; BranchModel t = m.kids[k]; if (t.kids.size() && s.coin()) { k = s.below(t.kids.size()); x = &(*x)->kids[k]; BranchModel u = t.kids[k]; t = u; } bool v = t.value >= 0 && s.chance(1, 3); note("becomes %s inside it%s", t.value < 0 ? "an empty one" : "one", v ? " (by value)" : ""); if (v) o = std::move(**x); else o = std::move(*x); m = t; ++taken; }
			same(o, m); REQUIRE(objs().live.size() == held(m), "%zu elements alive, the tree has %zu", objs().live.size(), held(m));
		}
		if (taken >= 2) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the tree", objs().live.size()); g.expect_empty("branches");
}
// A random node below (or the same)
static void pick_branch(Src & s, Branch *& b, BranchModel *& m, bool down) { while (m->kids.size() && (down || s.coin())) { size_t i = s.below(m->kids.size()); b = &b->kids[i]; m = &m->kids[i]; down = false; } }
static void branches(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		Branch root; BranchModel model; grow_branch(s, root, model, 3); size_t n = 4 + s.length(30), taken = 0; note("a tree of %zu nodes", model.size());
		for (size_t i = 0; i < n; ++i)
		{
			if (model.size() > 300 || model.size() < 2) { model = BranchModel(); root = Branch(); grow_branch(s, root, model, 3); note("new tree"); }
			Branch * a = &root; BranchModel * ma = &model; pick_branch(s, a, ma, false); Branch * b = a; BranchModel * mb = ma; pick_branch(s, b, mb, true);
			switch (s.below(7))
			{
			case 0: if (a == b) break; note("node = move(node below it)"); label("node becomes one of its descendants"); ++taken; { BranchModel t = *mb; *a = std::move(*b); *ma = t; } break;
			case 1: if (a == b) break; note("children = move(children of a node below)"); label("children become those of a descendant"); ++taken; { auto t = mb->kids; a->kids = std::move(b->kids); ma->kids = t; } break;
			case 2: if (a == b) break; note("node = copy of a node below it"); label("node becomes a copy of a descendant"); { BranchModel t = *mb; *a = Branch(*b); *ma = t; } break;
			case 3: if (a == b || ma->size() > 100) break; { size_t k = s.below(ma->kids.size() + 1); note("insert a copy of a node below at %zu", k); label("copy of a descendant as child"); BranchModel t = *mb; a->kids.insertAt(k, *b); ma->kids.insert(ma->kids.begin() + k, t); } break;
			case 4: if (ma->size() > 100) break; { size_t k = s.below(ma->kids.size() + 1); note("insert a copy of the node itself at %zu", k); label("copy of itself as child"); BranchModel t = *ma; a->kids.insertAt(k, *a); ma->kids.insert(ma->kids.begin() + k, t); } break;
			case 5: { BranchModel t; Branch x; grow_branch(s, x, t, 2); note("a new branch of %zu", t.size()); b->kids.add(std::move(x)); mb->kids.push_back(t); break; }
			default: if (ma->kids.empty()) break; { size_t k = s.below(ma->kids.size()); note("remove child %zu", k); a->kids.removeAt(k); ma->kids.erase(ma->kids.begin() + k); } break;
			}
			same_branch(root, model); REQUIRE(objs().live.size() == model.size(), "%zu elements alive, the tree has %zu", objs().live.size(), model.size());
		}
		if (taken >= 2) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the tree", objs().live.size()); g.expect_empty("branches");
}
