// Set under a model: std::set (ordered by the comparison's key)
#pragma once
#include "support.h"
#include "containers/set.h"
#include "m_tree.h"

template<typename T, typename C = PlainCompare<T>, typename SetT = Set<T, C>, bool KeepAlloc = false>
struct SetM
{
	using E = Elem<T>;
	struct Less { bool operator()(int x, int y) const { return C::keyOf(x) < C::keyOf(y); } };
	using Model = std::set<int, Less>;
	SetT a; Model m; int span = 24;
	static std::string kind() { return std::string("Set<") + E::name() + ">"; }
	SetM() {}
	template<typename ... X> explicit SetM(int, X && ... x) : a(std::forward<X>(x)...) {}
	static T mk(int v) { return E::make(v); }
	size_t objects() const { return E::counted ? m.size() : 0; }
	static std::vector<int> read(const SetT & x, size_t limit) { std::vector<int> v; for (auto it = x.begin(); it != x.end(); ++it) { REQUIRE(v.size() <= limit, "iteration does not end"); v.push_back(E::read(*it)); } return v; }
	static void same(const SetT & x, const Model & mm, const char * what)
	{
		std::vector<int> v = read(x, mm.size() + 1), w(mm.begin(), mm.end());
		REQUIRE(v == w, "%s: %s, expected %s", what, str(v).c_str(), str(w).c_str());
		REQUIRE(x.getSize() == mm.size() && x.getCount() == mm.size() && x.getNumItems() == mm.size(), "%s: size %llu, expected %zu", what, (unsigned long long)x.getSize(), mm.size());
	}
	void verify() { same(a, m, "contents"); size_t n = 0; for (auto & x : a) { (void)x; ++n; } REQ(n == m.size()); }
	void verify_key(int v)
	{
		const SetT & ca = a; auto e = m.find(v); bool p = e != m.end(); T t(mk(v));
		REQUIRE(ca.get(t) == p, "get(%d) is %d", v, !p); T out(mk(99)); REQ(a.get(t, out) == p); REQUIRE(E::read(out) == (p ? *e : 99), "get(%d) yields %d", v, E::read(out)); T o2(mk(99)); REQ(ca.get(t, o2) == p); REQ(E::read(o2) == (p ? *e : 99));
		REQ(ca.any(t) == p); REQ(ca.all(t) == p);
		auto b = a.begin(t), n = a.end(t); auto cb = ca.begin(t), cn = ca.end(t); if (p) { REQ(E::read(*b) == *e); ++b; REQ(b == n); REQ(E::read(*cb) == *e); ++cb; REQ(cb == cn); } else { REQ(b == a.end() && n == a.end() && cb == ca.end() && cn == ca.end()); }
	}
	void verify_multi(Src & s)
	{
		const SetT & ca = a; int v[3]; bool p[3]; for (int i = 0; i < 3; ++i) { v[i] = s.below(span); p[i] = m.count(v[i]); }
		T x(mk(v[0])), y(mk(v[1])), z(mk(v[2]));
		REQUIRE(ca.any(x, y) == (p[0] || p[1]), "any(%d, %d) on %s", v[0], v[1], str(read(a, m.size() + 1)).c_str()); REQUIRE(ca.any(x, y, z) == (p[0] || p[1] || p[2]), "any of three");
		REQUIRE(ca.all(x, y) == (p[0] && p[1]), "all(%d, %d)", v[0], v[1]); REQUIRE(ca.all(x, y, z) == (p[0] && p[1] && p[2]), "all of three"); REQ(ca.all());
	}
	void clear() { note("clear"); label("op clear"); if constexpr (KeepAlloc) { while (!m.empty()) { REQ(a.remove(mk(*m.begin()))); m.erase(m.begin()); } } else a = SetT{}; m.clear(); }
	void step(Src & s, size_t cap = 300)
	{
		if (m.size() > cap) { clear(); return; }
		int v = s.below(span); bool p = m.count(v);
		switch (s.weighted({10, 2, 5, 3, 4, 3, 1, 1, 3}))
		{
		case 0: { note("set %d", v); label(p ? "op set present" : "op set new"); T t(mk(v)); T & r = s.coin() ? a.set(t) : a.set(mk(v)); REQ(E::read(t) == v); m.insert(v); REQ(E::read(r) == *m.find(v)); break; }
		case 1: { int w = s.below(span), x = s.below(span); note("set %d %d %d", v, w, x); label("op set several"); T t(mk(v)); a.set(t, mk(w), mk(x)); REQ(E::read(t) == v); m.insert(v); m.insert(w); m.insert(x); break; }
		case 2: { note("remove %d", v); label(p ? "op remove present" : "op remove absent"); REQUIRE(a.remove(mk(v)) == p, "remove(%d)", v); m.erase(v); break; }
		case 3: { note("remove %d with value", v); T out(mk(99)); bool r = a.remove(mk(v), out); REQ(r == p); REQ(E::read(out) == (p ? *m.find(v) : 99)); m.erase(v); break; }
		case 4: verify_key(v); break;
		case 5: label("op any/all"); verify_multi(s); break;
		case 6: if constexpr (!KeepAlloc) { note("x = copy of x"); SetT c(static_cast<const SetT&>(a)); a = static_cast<const SetT&>(c); } break;
		case 7: clear(); break;
		case 8: if (!m.empty())
		{	// the argument is an item of the set itself
			size_t i = s.below(m.size()); auto it = a.begin(); for (size_t q = 0; q < i; ++q) ++it; auto e = m.begin(); std::advance(e, i); int x = *e; label("op on own item");
			switch (s.below(4))
			{
			case 0: { note("remove own item %d", x); REQUIRE(a.remove(*it), "removal of an item of the set fails"); m.erase(e); break; }
			case 1: { note("remove own item %d with value", x); T out(mk(99)); REQ(a.remove(*it, out)); REQUIRE(E::read(out) == x, "removal yields %d, expected %d", E::read(out), x); m.erase(e); break; }
			case 2: { note("set own item %d", x); T & r = a.set(static_cast<const T&>(*it)); REQ(E::read(r) == x && &r == &*it); break; }
			default: { note("query own item %d", x); REQ(a.get(*it) && a.any(*it) && a.all(*it)); auto f = a.begin(*it); REQ(&*f == &*it); break; }
			}
		} break;
		}
	}
};
