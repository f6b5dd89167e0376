#include "m_text.h"
#include "m_tree.h"
namespace pbt {
const char * PROPERTY = "C04";
const char * RULE = "a case is a random history of tree insertions, removals and lookups compared after each step with a reference multiset (order both ways, lookups, successor of removals, depth bound); non-trivial: the tree held at least 7 items at some time and at least 3 items were removed after that";
}
template<typename T, typename C> static void history(Src & s)
{
	GlobalAudit g; objs().reset();
	{
		TreeM<T, C> x, y; x.span = s.pick({12, 60, 300}); y.span = x.span; note("%s, values below %d", x.kind().c_str(), x.span); size_t n = 4 + s.length(160), rem = 0, big = 0, sz;
		for (size_t i = 0; i < n; ++i)
		{
			sz = x.m.size();
			switch (s.weighted({60, 4, 1, 1, 1, 1}))
			{
			case 0: x.step(s); break;
			case 1: y.step(s); y.verify(); break;
			case 2: note("x = y (%zu <- %zu)", x.m.size(), y.m.size()); label("op copy-assign"); x.a = y.a; x.m = y.m; y.verify(); x.verify_all_lookups(); break;
			case 3: { note("x copied"); label("op copy"); BinaryTree<T, C> c(x.a); x.a = std::move(c); break; }
			case 4: note("x = move(y)"); label("op move-assign"); x.a = std::move(y.a); x.m = y.m; y.m.clear(); y.a = decltype(y.a){}; y.verify(); break;
			case 5: { note("x = x"); auto & r = x.a; x.a = r; break; }
			}
			x.verify();
			if (x.m.size() >= 7) big = 1;
			if (big && x.m.size() < sz) rem += sz - x.m.size();
		}
		x.verify_all_lookups();
		if (big && rem >= 3) nontrivial();
		label(x.m.size() > 64 ? "final size >64" : x.m.size() > 16 ? "final size 17..64" : "final size 0..16");
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the tree", objs().live.size());
	g.expect_empty("tree history");
}
// Orders which stress balancing: runs of ascending/descending insertions and one-sided removals
static void patterns(Src & s)
{
	GlobalAudit g;
	{
		TreeM<int, PlainCompare<int>> x; int phases = 2 + s.below(7); size_t removed = 0; int base = 0;
		for (int p = 0; p < phases; ++p)
		{
			size_t n = s.chance(1, 6) ? 60 + s.below(200) : 1 + s.below(60); unsigned kind = s.below(9);
			switch (kind)
			{
			case 0: case 1: case 2: note("insert run of %zu %s", n, kind == 0 ? "ascending" : kind == 1 ? "descending" : "zigzag");
				for (size_t i = 0; i < n; ++i) { int v = kind == 0 ? base + (int)i : kind == 1 ? base - (int)i : base + ((i & 1) ? (int)i : -(int)i); x.a.insert(v); x.m.insert(v); if (i % 8 == 0) x.verify(); } base += 7; break;
			case 3: note("insert %zu random", n); for (size_t i = 0; i < n; ++i) { int v = s.below(1000); x.a.insert(v); x.m.insert(v); } break;
			case 4: note("remove %zu smallest", n); for (size_t i = 0; i < n && !x.m.empty(); ++i) { REQ(x.a.remove(*x.m.begin())); x.m.erase(x.m.begin()); ++removed; if (i % 8 == 0) x.verify(); } break;
			case 5: note("remove %zu largest", n); for (size_t i = 0; i < n && !x.m.empty(); ++i) { auto l = --x.m.end(); REQ(x.a.remove(*l)); x.m.erase(l); ++removed; if (i % 8 == 0) x.verify(); } break;
			case 6: note("remove %zu at the root", n); for (size_t i = 0; i < n && !x.m.empty(); ++i) { int v = x.a.getRoot()->data; REQ(x.a.remove(v)); x.m.erase(x.m.find(v)); ++removed; if (i % 8 == 0) x.verify(); } break;
			case 7: { unsigned k = 2 + s.below(3); note("remove all but every %u-th", k); size_t i = 0; std::vector<int> v = x.values(); for (int q : v) if (i++ % k) { REQ(x.a.remove(q)); x.m.erase(x.m.find(q)); ++removed; if (i % 16 == 0) x.verify(); } break; }
			case 8: { // remove a leaf of the short side, to unbalance
				note("remove %zu from the shallow side", n); for (size_t i = 0; i < n && !x.m.empty(); ++i) { auto * t = x.a.getRoot(); while (t->left || t->right) { int l = t->left ? tree_height(t->left) : 99, r = t->right ? tree_height(t->right) : 99; t = l <= r ? t->left : t->right; } int v = t->data; REQ(x.a.remove(v)); x.m.erase(x.m.find(v)); ++removed; if (i % 8 == 0) x.verify(); } break; }
			}
			x.verify();
		}
		x.verify_all_lookups(); if (removed >= 3) nontrivial();
		label(x.m.size() > 64 ? "pattern: final size >64" : "pattern: final size <=64");
	}
	g.expect_empty("tree patterns");
}
// All insertion orders of a few items, then all choices of removal: bounded-exhaustive by case number
static void small(Src & s)
{
	GlobalAudit g;
	{
		TreeM<int, PlainCompare<int>> x; int n = 1 + s.below(9); std::vector<int> p; for (int i = 0; i < n; ++i) p.insert(p.begin() + s.below(p.size() + 1), i);
		for (int v : p) { x.a.insert(v); x.m.insert(v); x.verify(); }
		note("inserted %s", str(p).c_str());
		if (n >= 7) nontrivial();
		while (!x.m.empty()) { size_t i = s.below(x.m.size()); note("remove position %zu", i); x.removeIndex(i); x.verify(); x.verify_all_lookups(); }
	}
	g.expect_empty("small tree");
}
// Sizes up to tens of thousands
// Every size up to 300 meets every operation
static void sized(Src & s)
{
	GlobalAudit g;
	{
		TreeM<int, PlainCompare<int>> x; x.span = s.pick({30, 300, 1000}); size_t n = s.coin() ? s.below(70) : s.below(300); uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 16) % 1000; }; for (size_t i = 0; i < n; ++i) { int v = next() % x.span; x.a.insert(v); x.m.insert(v); } note("tree of %zu", n); x.verify();
		size_t q = 1 + s.below(4); for (size_t i = 0; i < q; ++i) { x.step(s); x.verify(); } label(n > 256 ? "257..299 items at first" : n > 64 ? "65..256 items at first" : n > 16 ? "17..64 items at first" : "0..16 items at first"); if (n > 2 && q > 1) nontrivial();
	}
	g.expect_empty("sized");
}
static void large(Src & s)
{
	GlobalAudit g;
	{
		TreeM<int, PlainCompare<int>> x; size_t n = s.large(); uint32_t k = s.below(1000); x.span = s.coin() ? 1 << 20 : 1000; unsigned how = s.below(4); note("tree of %zu, %s", n, how == 0 ? "ascending" : how == 1 ? "descending" : "random"); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 12) % x.span; };
		for (size_t i = 0; i < n; ++i) { int v = how == 0 ? (int)i : how == 1 ? (int)(n - i) : next(); x.a.insert(v); x.m.insert(v); } x.verify();
		for (int i = s.below(3); i; --i) x.step(s, 1 << 20); x.verify();
		BinaryTree<int, PlainCompare<int>> c(x.a); REQ(c.getNumNodes() == x.m.size());
		size_t take = s.coin() ? x.m.size() / 2 : s.below(x.m.size() + 1); unsigned from = s.below(4); note("%zu removed %s", take, from == 0 ? "from the front" : from == 1 ? "from the back" : from == 2 ? "at the root" : "at random");
		for (size_t i = 0; i < take; ++i) { int v; switch (from) { case 0: v = *x.m.begin(); break; case 1: v = *--x.m.end(); break; case 2: v = x.a.getRoot()->data; break; default: { auto f = x.m.lower_bound(next()); if (f == x.m.end()) --f; v = *f; } } REQ(x.a.remove(v)); x.m.erase(x.m.find(v)); }
		x.verify(); for (int i = 0; i < 5; ++i) x.verify_lookup(x.val(s)); if (n > 255) nontrivial(); label(n > 65536 ? "more than 65536 items" : n > 4096 ? "4097..65536 items" : n > 255 ? "256..4096 items" : "few items");
	}
	g.expect_empty("large tree");
}
// Nodes used without a tree around them, as the pooled allocator does: the caller owns them and keeps the root
template<typename T, typename C> static void nodes(Src & s)
{
	using E = Elem<T>; using N = BinaryNode<T, C>; GlobalAudit g; objs().reset();
	{
		N * root = nullptr; std::vector<int> m; std::set<N*> mine; int span = s.pick({12, 60, 300}); size_t n = 4 + s.length(120), rem = 0; auto K = [](int v) { return C::keyOf(v); }; note("nodes below %d", span);
		struct Free { std::set<N*> & x; ~Free() { for (N * p : x) delete p; } } fr{mine};
		auto values = [&] { std::vector<int> v; size_t c = 0; for (N * i = root ? root->getMin() : nullptr; i; i = i->next) { REQUIRE(c++ < mine.size(), "following next does not end"); REQUIRE(mine.count(i), "a node nobody inserted"); v.push_back(E::read(i->data)); } return v; };
		auto verify = [&]
		{
			std::vector<int> v = values(), w(v); REQUIRE(v.size() == m.size(), "%zu of %zu nodes reached", v.size(), m.size()); for (size_t i = 1; i < v.size(); ++i) REQUIRE(K(v[i - 1]) <= K(v[i]), "out of order at %zu: %s", i, str(v).c_str());
			std::vector<int> e(m); std::sort(w.begin(), w.end()); std::sort(e.begin(), e.end()); REQUIRE(w == e, "contents %s, expected %s", str(w).c_str(), str(e).c_str());
			size_t i = v.size(); for (const N * x = root ? static_cast<const N*>(root)->getMax() : nullptr; x; x = x->prev) { REQ(i > 0); --i; REQUIRE(E::read(x->data) == v[i], "backwards differs at %zu", i); } REQUIRE(i == 0, "backwards misses %zu nodes", i);
			REQ(N::getTreeSize(root) == m.size()); if (!root) return; REQ(root->getNumNodes() == m.size() && root->parent == nullptr); const N * cr = root; REQ(cr->getMin() == root->getMin() && cr->getMax() == root->getMax());
			int h = tree_height(root); REQUIRE(h <= 2 * std::log2((double)m.size() + 1) + 1, "depth %d for %zu nodes", h, m.size());
			for (N * x : mine) { REQ(x->getRoot() == root && static_cast<const N*>(x)->getRoot() == root); REQ(N::isRed(x) != N::isBlack(x)); if (x->left) REQ(x->left->parent == x); if (x->right) REQ(x->right->parent == x); } REQ(N::isBlack(nullptr) && !N::isRed(nullptr));
		};
		auto fresh = [&](int v) { N * x = s.coin() ? new N(E::make(v)) : [&] { T t(E::make(v)); return new N(t); }(); return x; };
		for (size_t i = 0; i < n; ++i)
		{
			int v = s.below(span); size_t eq = 0; for (int x : m) eq += K(x) == K(v);
			switch (s.weighted({10, 4, 8, 3}))
			{
			case 0: case 1: case 3: if (!root || m.size() < 150)
			{
				bool uniq = s.chance(1, 3); note("%s %d", uniq ? "insertUnique" : "insert", v); N * x = fresh(v); if (!root) { root = x; x->color = BinaryNodeColor::BLACK; mine.insert(x); m.push_back(v); break; }
				N * r = uniq ? root->insertUnique(x) : root->insert(x); if (uniq && eq) { label("insertUnique of a present value"); REQUIRE(r != x && mine.count(r) && K(E::read(r->data)) == K(v), "insertUnique %d did not return the node which is there", v); delete x; } else { REQUIRE(r == x, "insertion returned another node"); REQ(E::read(x->data) == v); mine.insert(x); m.push_back(v); }
				root = root->getRoot(); REQ(mine.count(root));
			} break;
			case 2: if (root)
			{
				std::vector<int> b = values(); size_t at = s.coin() && eq ? b.size() : s.below(b.size()); N * x = root->getMin(); if (at == b.size()) { x = root->find(E::make(v)); REQ(x); at = 0; for (N * y = root->getMin(); y != x; y = y->next) ++at; } else for (size_t q = 0; q < at; ++q) x = x->next;
				bool form = s.coin(); note("remove node at %zu%s", at, form ? "" : " (no next asked for)"); label(x->left && x->right ? "remove a node with two children" : "remove a node with less than two children"); N * keep = x, * nx = nullptr, * ev = form ? x->remove(nx) : x->remove();
				REQUIRE(mine.count(ev), "the removed node is not one of ours"); REQUIRE(E::read(ev->data) == b[at], "the node taken out holds %d, not %d", E::read(ev->data), b[at]); mine.erase(ev);
				if (form) { if (at + 1 == b.size()) REQUIRE(nx == nullptr, "a next node after the last"); else { REQUIRE(nx && nx != ev && mine.count(nx), "no valid next node"); REQUIRE(E::read(nx->data) == b[at + 1], "next is %d, not %d", E::read(nx->data), b[at + 1]); } }
				if (mine.empty()) root = nullptr; else { N * any = ev == root ? (root->left ? root->left : root->right) : root; REQ(any && any != ev); root = any->getRoot(); }
				(void)keep; delete ev; m.erase(std::find(m.begin(), m.end(), b[at])); b.erase(b.begin() + at); REQUIRE(values() == b, "the others changed order: %s, expected %s", str(values()).c_str(), str(b).c_str()); ++rem;
			} break;
			}
			verify();
			{ int q = s.below(span + 2); size_t c = 0; for (int x : m) c += K(x) == K(q); if (root) { const N * cr = root; T t(E::make(q)); N * f = root->find(t), * lo = root->findMin(t), * hi = root->findMax(t); REQUIRE((f != nullptr) == (c > 0) && (lo != nullptr) == (c > 0) && (hi != nullptr) == (c > 0), "lookups of %d", q); REQ(cr->findMin(t) == lo && cr->findMax(t) == hi && (cr->find(t) != nullptr) == (c > 0)); if (c) { REQ(K(E::read(f->data)) == K(q)); size_t k = 1; for (N * x = lo; x != hi; x = x->next) { REQ(x && k <= c); ++k; } REQUIRE(k == c, "%zu of %zu nodes equal to %d", k, c, q); REQ(!lo->prev || K(E::read(lo->prev->data)) != K(q)); REQ(!hi->next || K(E::read(hi->next->data)) != K(q)); } } }
		}
		if (m.size() >= 5 && rem >= 3) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after the nodes", objs().live.size()); g.expect_empty("nodes");
}
namespace pbt { std::vector<Suite> SUITES = {
	{"int", history<int, PlainCompare<int>>, 16000, 400000, "int, default comparison"},
	{"tens", history<int, TensCompare<int>>, 16000, 400000, "distinguishable duplicates (comparison by tens)"},
	{"reverse", history<int, ReverseCompare<int>>, 6000, 100000, "reversed comparison with values beyond -1/0/1"},
	{"object", history<Obj, TensCompare<Obj>>, 8000, 200000, "instance-counted owning element"},
	{"lined", history<Lined, PlainCompare<Lined>>, 3000, 60000, "elements aligned to 64"},
	{"big", history<Big, TensCompare<Big>>, 800, 20000, "elements of 6000 bytes"},
	{"text", history<String, PlainCompare<String>>, 4000, 80000, "texts"},
	{"patterns", patterns, 4000, 100000, "orders which stress balancing"},
	{"sized", sized, 8000, 150000, "trees of every size up to 300"},
	{"large", large, 120, 3000, "hundreds to tens of thousands of items"},
	{"nodes", nodes<int, TensCompare<int>>, 6000, 200000, "nodes without a tree, the caller keeps the root"},
	{"nodes-object", nodes<Obj, TensCompare<Obj>>, 3000, 100000, "nodes of instance-counted elements"},
	{"nodes-reverse", nodes<int, ReverseCompare<int>>, 2000, 50000, "nodes under a reversed comparison"},
	{"small", small, 30000, 400000, "permutations of up to 9 items, removed one by one"},
}; }
