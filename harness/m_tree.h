// BinaryTree under a model: a multiset of values ordered by a key of the value
#pragma once
#include "support.h"
#include "containers/tree.h"
#include "templates/functional.h"

// Orders by value / 10: values of the same tens are equivalent but distinguishable
template<typename T> struct TensCompare
{
	static int key(const T & t) { return Elem<T>::read(t) / 10; }
	int32 operator()(const T & a, const T & b) const { return key(a) - key(b); }
	int32 operator()(const T & a, const std::pair<int,int> & k) const { return key(a) - k.first; }   // lookup by something else than an item
	int32 operator()(const std::pair<int,int> & k, const T & a) const { return k.first - key(a); }
	static int keyOf(int v) { return v / 10; }
};
template<typename T> struct PlainCompare : ThreeWayCompare { static int keyOf(int v) { return v; } };
template<typename T> struct ReverseCompare
{
	int32 operator()(const T & a, const T & b) const { int x = Elem<T>::read(a), y = Elem<T>::read(b); return x < y ? 5 : x > y ? -7 : 0; }
	static int keyOf(int v) { return -v; }
};

template<typename N> int tree_height(const N * n) { return n ? 1 + std::max(tree_height(n->left), tree_height(n->right)) : 0; }

template<typename T, typename C, typename TreeT = BinaryTree<T, C>>
struct TreeM
{
	using E = Elem<T>; using Node = typename TreeT::NodeT;
	TreeT a; std::multiset<int> m; int span = 60;
	static std::string kind() { return std::string("BinaryTree<") + E::name() + ">"; }
	TreeM() {}
	template<typename ... X> explicit TreeM(int, X && ... x) : a(std::forward<X>(x)...) {}
	int val(Src & s) { return (int)s.below(span); }
	static T mk(int v) { return E::make(v); }
	static int K(int v) { return C::keyOf(v); }
	size_t objects() const { return E::counted ? m.size() : 0; }
	size_t present(int v) const { size_t n = 0; for (int x : m) n += K(x) == K(v); return n; }
	std::vector<int> values() const { std::vector<int> v; for (auto it = a.begin(); it != a.end(); ++it) { REQUIRE(v.size() <= m.size() + 1, "forward iteration does not end"); v.push_back(E::read(*it)); } return v; }

	void verify()
	{
		const TreeT & ca = a;
		REQUIRE(a.getNumNodes() == m.size(), "count %llu, expected %zu", (unsigned long long)a.getNumNodes(), m.size());
		REQ(a.getCount() == m.size() && ca.getSize() == m.size());
		std::vector<int> v = values();
		REQUIRE(v.size() == m.size(), "iteration visits %zu of %zu items", v.size(), m.size());
		for (size_t i = 1; i < v.size(); ++i) REQUIRE(K(v[i - 1]) <= K(v[i]), "out of order at %zu: %s", i, str(v).c_str());
		std::vector<int> w(v); std::sort(w.begin(), w.end()); std::vector<int> mm(m.begin(), m.end());
		REQUIRE(w == mm, "contents %s, expected %s", str(w).c_str(), str(mm).c_str());
		// backwards: reverse of forwards
		size_t i = v.size();
		const auto * last = ca.getMax();
		for (const auto * n = last; n; n = n->prev) { REQUIRE(i > 0, "backward iteration does not end"); --i; REQUIRE(E::read(n->data) == v[i], "backward iteration differs at %zu", i); }
		REQUIRE(i == 0, "backward iteration misses %zu items", i);
		REQ((ca.getRoot() == nullptr) == m.empty() && (ca.getMin() == nullptr) == m.empty() && (last == nullptr) == m.empty());
		if (!v.empty()) { REQ(E::read(ca.getMin()->data) == v[0]); REQ(E::read(a.getMax()->data) == v.back()); REQ(&a.getMin()->data == &*a.begin()); }
		int h = tree_height(ca.getRoot()); double bound = 2 * std::log2((double)m.size() + 1) + 1;
		REQUIRE(h <= bound, "depth %d for %zu items", h, m.size());
		REQ(Node::getTreeSize(a.getRoot()) == m.size());
		if (ca.getRoot()) { REQ(ca.getRoot()->getNumNodes() == m.size()); REQ(ca.getRoot()->getRoot() == ca.getRoot()); REQ(ca.getMin()->getRoot() == ca.getRoot()); REQ(ca.getMax()->getRoot() == ca.getRoot()); }
	}
	void verify_lookup(int v)
	{
		const TreeT & ca = a; T t(mk(v)); size_t n = present(v);
		auto it = a.find(t); auto cit = ca.find(t); auto * node = a.findNode(t);
		REQUIRE((it != a.end()) == (n > 0), "find %d: %s, but it is %s", v, it != a.end() ? "found" : "absent", n ? "present" : "not present");
		REQ((cit != ca.end()) == (n > 0)); REQ((node != nullptr) == (n > 0)); REQ((ca.findNode(t) != nullptr) == (n > 0));
		if (n) { REQ(K(E::read(*it)) == K(v) && K(E::read(*cit)) == K(v) && K(E::read(node->data)) == K(v)); REQ(it.operator->() == &*it); }
		auto b = a.begin(t), e = a.end(t); auto cb = ca.begin(t), ce = ca.end(t);
		if (!n) { REQ(b == a.end() && e == a.end() && cb == ca.end() && ce == ca.end()); return; }
		size_t c = 0; for (auto x = b; x != e; x++) { REQUIRE(x != a.end() && c <= n, "range of items equal to %d does not end", v); REQ(K(E::read(*x)) == K(v)); ++c; }
		REQUIRE(c == n, "range of items equal to %d has %zu of %zu items", v, c, n);
		c = 0; for (auto x = cb; x != ce; ++x) { REQ(x != ca.end() && c <= n); REQ(K(E::read(*x)) == K(v)); ++c; }
		REQ(c == n);
	}
	void verify_all_lookups() { std::set<int> s(m.begin(), m.end()); for (int v : s) verify_lookup(v); }
	void erase_one(const std::vector<int> & before, int v) // exactly one item equivalent to v is gone
	{
		std::vector<int> after = values(); REQUIRE(after.size() + 1 == before.size(), "removal of %d changed the number of items by %ld", v, (long)before.size() - (long)after.size());
		std::multiset<int> left(before.begin(), before.end()); for (int x : after) { auto f = left.find(x); REQUIRE(f != left.end(), "removal of %d made item %d appear", v, x); left.erase(f); }
		REQ(left.size() == 1); REQUIRE(K(*left.begin()) == K(v), "removal of %d took item %d", v, *left.begin()); m.erase(m.find(*left.begin()));
	}
	void removeIndex(size_t i)
	{
		std::vector<int> v = values(); auto it = a.begin(); for (size_t k = 0; k < i; ++k) ++it;
		auto r = a.remove(it);
		std::vector<int> w = values(); std::vector<int> x = v; x.erase(x.begin() + i);
		REQUIRE(w == x, "removing position %zu of %s left %s", i, str(v).c_str(), str(w).c_str());
		if (i < x.size()) { REQUIRE(r != a.end(), "removal at %zu returned the end", i); auto p = a.begin(); for (size_t k = 0; k < i; ++k) ++p; REQUIRE(p == r, "removal at %zu did not return the position of the successor", i); }
		else REQUIRE(r == a.end(), "removal of the last item returned a position");
		m.erase(m.find(v[i]));
	}
	void step(Src & s, size_t cap = 500)
	{
		if (m.size() > cap) { note("empty"); a.empty(); m.clear(); return; }
		size_t n = m.size();
		switch (s.weighted({10, 2, 4, 4, 7, 6, 4, 1, 2, 1, 3}))
		{
		case 0: { int v = val(s); note("insert %d", v); label("op insert"); T t(mk(v)); T & r = s.coin() ? a.insert(t) : a.insert(mk(v)); REQ(E::read(r) == v); m.insert(v); break; }
		case 1: { int v = val(s), w = val(s), x = val(s); note("insert %d %d %d", v, w, x); label("op insert several"); T t(mk(v)); a.insert(t, mk(w), mk(x)); REQ(E::read(t) == v); m.insert(v); m.insert(w); m.insert(x); break; }
		case 2: { int v = val(s); note("insertUnique %d", v); label("op insertUnique"); bool p = present(v); T & r = a.insertUnique(mk(v)); if (p) REQ(K(E::read(r)) == K(v)); else { REQ(E::read(r) == v); m.insert(v); } break; }
		case 3: { int v = val(s); note("replace %d", v); label("op replace"); std::vector<int> before = values(); bool p = present(v); T & r = a.replace(mk(v)); REQ(E::read(r) == v);
			if (!p) m.insert(v); else { // exactly one equivalent item now is v
				std::multiset<int> left(before.begin(), before.end()); bool found = false; std::vector<int> after = values(); REQ(after.size() == before.size());
				for (int x : after) { auto f = left.find(x); if (f != left.end()) left.erase(f); else { REQ(x == v && !found); found = true; } }
				if (found) { REQ(left.size() == 1); REQUIRE(K(*left.begin()) == K(v), "replace %d overwrote %d", v, *left.begin()); m.erase(m.find(*left.begin())); m.insert(v); }
			} break; }
		case 4: { int v = val(s); note("remove value %d", v); label("op remove value"); std::vector<int> before = values(); size_t p = present(v); bool r = a.remove(mk(v)); REQUIRE(r == (p > 0), "remove %d returned %d", v, r); if (p) erase_one(before, v); break; }
		case 5: if (n) { size_t i = s.below(n); note("remove position %zu", i); label("op remove position"); removeIndex(i); } break;
		case 6: { int v = val(s); label("op lookup"); verify_lookup(v); break; }
		case 7: note("empty"); label("op empty"); a.empty(); m.clear(); break;
		case 8: if (n) { // remove while iterating
			unsigned k = 2 + s.below(3), r0 = s.below(k); note("remove during iteration every %u", k); label("op remove while iterating"); std::vector<int> v = values(), keep; size_t c = 0; for (auto it = a.begin(); it != a.end(); ++c) { REQ(c < v.size()); REQUIRE(E::read(*it) == v[c], "iteration with removals meets %d, expected %d", E::read(*it), v[c]); if (c % k == r0) { m.erase(m.find(v[c])); it = a.remove(it); } else { keep.push_back(v[c]); ++it; } } REQ(values() == keep); } break;
		case 9: if (n) { note("remove(end)"); auto r = a.remove(a.end()); REQ(r == a.end()); } break;
		case 10: if (n)
		{	// the argument is an item of the tree itself
			std::vector<int> before = values(); size_t i = s.below(n); auto it = a.begin(); for (size_t q = 0; q < i; ++q) ++it; int v = before[i]; label("op on own item");
			switch (s.below(4))
			{
			case 0: { note("remove own item %d", v); REQ(a.remove(*it)); erase_one(before, v); break; }
			case 1: { note("insert own item %d", v); T & r = a.insert(static_cast<const T&>(*it)); REQ(E::read(r) == v && &r != &*it); m.insert(v); break; }
			case 2: { note("insertUnique own item %d", v); T & r = a.insertUnique(static_cast<const T&>(*it)); REQ(K(E::read(r)) == K(v)); break; }
			default: { note("find own item %d", v); auto f = a.find(static_cast<const T&>(*it)); REQ(f != a.end() && K(E::read(*f)) == K(v)); break; }
			}
		} break;
		}
	}
};
