// List under a model: an ideal double-ended sequence
#pragma once
#include "support.h"
#include "containers/list.h"

template<typename T, typename L = List<T>>
struct ListM
{
	using E = Elem<T>;
	L a; std::vector<int> m;
	static std::string kind() { return std::string("List<") + E::name() + ">"; }
	ListM() {}
	template<typename ... X> explicit ListM(int, X && ... x) : a(std::forward<X>(x)...) {}
	static int val(Src & s) { return (int)s.below(100); }
	static T mk(int v) { return E::make(v); }
	size_t objects() const { return E::counted ? m.size() : 0; }

	void verify()
	{
		const L & ca = a;
		REQUIRE(a.getLength() == m.size(), "length %llu, expected %zu", (unsigned long long)a.getLength(), m.size());
		size_t i = 0;
		for (auto it = a.begin(); it != a.end(); ++it, ++i) { REQUIRE(i < m.size(), "forward traversal longer than %zu", m.size()); REQUIRE(E::read(*it) == m[i], "item %zu is %d, expected %d of %s", i, E::read(*it), m[i], str(m).c_str()); }
		REQUIRE(i == m.size(), "forward traversal has %zu of %zu items", i, m.size());
		i = 0; for (const auto & x : ca) { REQ(i < m.size()); REQ(E::read(x) == m[i]); ++i; }
		REQ(i == m.size());
		// backward along the links
		i = m.size();
		for (auto * l = ca.getTail(); l; l = l->prev) { REQUIRE(i > 0, "backward traversal longer than %zu", m.size()); --i; REQUIRE(E::read(l->data) == m[i], "backward: item %zu is %d, expected %d", i, E::read(l->data), m[i]); REQUIRE(l->next ? l->next->prev == l : l == ca.getTail(), "link %zu not mirrored by its successor", i); }
		REQUIRE(i == 0, "backward traversal misses %zu items", i);
		REQUIRE((a.getHead() == nullptr) == m.empty() && (a.getTail() == nullptr) == m.empty(), "head/tail of a list of %zu", m.size());
		if (!m.empty()) { REQ(a.getHead()->prev == nullptr); REQ(a.getTail()->next == nullptr); REQ(ca.getHead() == a.getHead()); }
	}
	void verify_iteration(Src & s)
	{
		if (m.empty()) return;
		size_t p = s.below(m.size()); auto it = a.begin(); for (size_t k = 0; k < p; ++k) { auto o = it++; REQ(o != it); REQ(E::read(*o) == m[k]); }
		REQ(E::read(*it) == m[p]); REQ(&*it == it.operator->());
		auto b = it; for (size_t k = p; k > 0; --k) { if (k & 1) { auto o = b--; REQ(E::read(*o) == m[k]); } else REQ(E::read(*--b) == m[k - 1]); }
		REQ(b == a.begin());
	}
	void step(Src & s, size_t cap = 300)
	{
		if (m.size() > cap) { note("empty"); label("op empty"); a.empty(); m.clear(); return; }
		size_t n = m.size();
		switch (s.weighted({7, 5, 2, 2, 3, 3, 3, 3, 6, 1, 2, 2, 2, 1}))
		{
		case 0: { int v = val(s); note("pushBack %d", v); label("op pushBack"); T & r = s.coin() ? a.pushBack(mk(v)) : pushB(v); REQ(&r == &a.getTail()->data); m.push_back(v); break; }
		case 1: { int v = val(s); note("pushFront %d", v); label("op pushFront"); T & r = s.coin() ? a.pushFront(mk(v)) : pushF(v); REQ(&r == &a.getHead()->data); m.insert(m.begin(), v); break; }
		case 2: { int v = val(s), w = val(s); bool lv = s.coin(); note("pushBack [%d %d]%s", v, w, lv ? " (named objects)" : ""); label("op pushBack several"); if (lv) { T x(mk(v)), y(mk(w)); a.pushBack(x, y); REQUIRE(E::read(x) == v && E::read(y) == w, "arguments of pushBack changed"); } else a.pushBack(mk(v), mk(w)); m.insert(m.end(), {v, w}); break; }
		case 3: { int v = val(s), w = val(s), z = val(s); bool lv = s.coin(); note("pushFront [%d %d %d]%s", v, w, z, lv ? " (named objects)" : ""); label("op pushFront several"); if (lv) { T x(mk(v)), y(mk(w)); const T k(mk(z)); a.pushFront(x, y, k); REQUIRE(E::read(x) == v && E::read(y) == w && E::read(k) == z, "arguments of pushFront changed"); } else a.pushFront(mk(v), mk(w), mk(z)); m.insert(m.begin(), {z, w, v}); break; }
		case 4: { note("removeBack"); label("op removeBack"); bool r = a.removeBack(); REQ(r == (n > 0)); if (n) m.pop_back(); break; }
		case 5: { note("removeFront"); label("op removeFront"); bool r = a.removeFront(); REQ(r == (n > 0)); if (n) m.erase(m.begin()); break; }
		case 6: { note("popBack"); label("op popBack"); T t(mk(55)); bool r = a.popBack(t); REQ(r == (n > 0)); REQUIRE(E::read(t) == (n ? m[n - 1] : 55), "popped %d", E::read(t)); if (n) m.pop_back(); break; }
		case 7: { note("popFront"); label("op popFront"); T t(mk(55)); bool r = a.popFront(t); REQ(r == (n > 0)); REQUIRE(E::read(t) == (n ? m[0] : 55), "popped %d", E::read(t)); if (n) m.erase(m.begin()); break; }
		case 8: if (n) { size_t i = s.chance(1, 3) ? (s.coin() ? 0 : n - 1) : s.below(n); bool link = s.coin(); note("remove at %zu", i); label("op remove at position"); if (link) { auto * l = a.getHead(); for (size_t k = 0; k < i; ++k) l = l->next; a.remove(l); } else { auto it = a.begin(); for (size_t k = 0; k < i; ++k) ++it; a.remove(it); } m.erase(m.begin() + i); } break;
		case 9: note("remove at end()"); a.remove(a.end()); break;
		case 10: if (n) { size_t i = s.below(n); int v = val(s); note("item %zu = %d", i, v); label("op write"); auto it = a.begin(); for (size_t k = 0; k < i; ++k) ++it; *it = mk(v); m[i] = v; } break;
		case 11: if (n) { size_t i = s.below(n); note("pushBack own item %zu", i); label("op push own item"); auto it = a.begin(); for (size_t k = 0; k < i; ++k) ++it; if (s.coin()) { a.pushBack(*it); m.push_back(m[i]); } else { a.pushFront(*it); m.insert(m.begin(), m[i]); } } break;
		case 12: label("op iterate"); verify_iteration(s); break;
		case 13: note("empty"); label("op empty"); a.empty(); m.clear(); break;
		}
	}
	T & pushB(int v) { T t(mk(v)); const T u(mk(v)); if (v & 1) return a.pushBack(t); return a.pushBack(u); }
	T & pushF(int v) { T t(mk(v)); const T u(mk(v)); if (v & 1) return a.pushFront(t); return a.pushFront(u); }
};
