// Array under a model: an ideal sequence. Model items of INT_MIN are positions
// whose content is unspecified (gaps left by write-past-the-end).
#pragma once
#include "support.h"
#include "containers/array.h"
#include <climits>

template<typename T, typename A = Array<T>>
struct ArrayM
{
	using E = Elem<T>;
	enum : int { ANY = INT_MIN };
	A a; std::vector<int> m;
	static std::string kind() { return std::string("Array<") + E::name() + ">"; }
	ArrayM() {}
	template<typename ... X> explicit ArrayM(int, X && ... x) : a(std::forward<X>(x)...) {}
	static int val(Src & s) { return (int)s.below(100); }
	static T mk(int v) { return E::make(v); }
	size_t objects() const { return E::counted ? m.size() : 0; }

	void verify()
	{
		const A & ca = a;
		REQUIRE(a.getCount() == m.size(), "count %llu, expected %zu", (unsigned long long)a.getCount(), m.size());
		REQ(a.getSize() == m.size() && ca.getNum() == m.size() && a.isEmpty() == m.empty());
		REQUIRE(a.getBytes() == m.size() * sizeof(T), "byte size %llu for %zu items", (unsigned long long)a.getBytes(), m.size());
		for (size_t i = 0; i < m.size(); ++i) if (m[i] != ANY) REQUIRE(E::read(a[i]) == m[i], "item %zu is %d, expected %d of %s", i, E::read(ca[i]), m[i], str(m).c_str());
	}
	void verify_iteration(Src & s)
	{
		const A & ca = a; size_t i = 0;
		for (auto & x : a) { REQUIRE(i < m.size(), "iterates past the end"); if (m[i] != ANY) REQ(E::read(x) == m[i]); ++i; }
		REQUIRE(i == m.size(), "iteration visits %zu of %zu items", i, m.size());
		i = 0; for (auto it = ca.begin(); it != ca.end(); it++, ++i) { REQUIRE(i < m.size(), "iterates past the end"); if (m[i] != ANY) REQ(E::read(*it) == m[i]); }
		REQ(i == m.size());
		i = m.size(); auto b = a.begin(); auto it = a.end(); while (it != b) { --it; REQ(i > 0); --i; if (m[i] != ANY) REQ(E::read(*it) == m[i]); }
		REQ(i == 0);
		if (m.empty()) return;
		size_t p = s.below(m.size()), q = s.below(m.size());
		auto ip = a.begin() + p, iq = a.end() - (m.size() - q);
		if (m[p] != ANY) { REQ(E::read(*ip) == m[p]); REQ(E::read(a.begin()[p]) == m[p]); REQ(E::read(ca.begin()[p]) == m[p]); }
		if (m[q] != ANY) REQ(E::read(*iq) == m[q]);
		REQ((ip == iq) == (p == q)); REQ((ip != iq) == (p != q)); REQ((ip < iq) == (p < q)); REQ((ip > iq) == (p > q)); REQ((ip <= iq) == (p <= q)); REQ((ip >= iq) == (p >= q));
		if (p <= q) { auto c = ip; c += q - p; REQ(c == iq); c -= q - p; REQ(c == ip); auto d = c++; REQ(d == ip && c == ip + 1); auto e = c--; REQ(e == ip + 1 && c == ip); REQ((++c) == ip + 1); REQ((--c) == ip); REQ(&*c == &a[p] && c.operator->() == &a[p]); }
	}
	// One random operation
	void step(Src & s, size_t cap = 400)
	{
		if (m.size() > cap) { note("clear"); label("op clear"); a.empty(); m.clear(); return; }
		unsigned op = s.weighted({8, 3, 5, 3, 3, 2, 3, 2, 5, 2, 4, 2, 2, 2, 4, 2, 3, 1, 1, 3});
		size_t n = m.size();
		switch (op)
		{
		case 0: { int v = val(s); note("add %d", v); label("op add"); T & r = pushOne(s, v); m.push_back(v); REQUIRE(&r == &a[a.getCount() - 1], "returned reference is not the inserted item"); break; }
		case 1: { int v = val(s), w = val(s), x = val(s); bool three = s.coin(); note("add %d %d%s", v, w, three ? " +1" : ""); label("op add several"); if (three) { a.insertLast(mk(v), mk(w), mk(x)); m.insert(m.end(), {v, w, x}); } else { a.add(mk(v), mk(w)); m.insert(m.end(), {v, w}); } break; }
		case 2: { size_t i = s.below(n + 1); int v = val(s); note("insertAt %zu %d", i, v); label("op insertAt"); T t(mk(v)); T & r = s.coin() ? a.insertAt(i, t) : a.insertAt(i, mk(v)); m.insert(m.begin() + i, v); REQ(&r == &a[i]); break; }
		case 3: { size_t i = s.below(n + 1); int v = val(s), w = val(s), x = val(s); bool three = s.coin(); note("insertAt %zu [%d %d%s]", i, v, w, three ? " +1" : ""); label("op insertAt several"); if (three) { a.insertAt(i, mk(v), mk(w), mk(x)); m.insert(m.begin() + i, {v, w, x}); } else { a.insertAt(i, mk(v), mk(w)); m.insert(m.begin() + i, {v, w}); } break; }
		case 4: { int v = val(s); note("insertFirst %d", v); label("op insertFirst"); T & r = a.insertFirst(mk(v)); m.insert(m.begin(), v); REQ(&r == &a[0]); break; }
		case 5: { int v = val(s), w = val(s); note("insertFirst [%d %d]", v, w); label("op insertFirst several"); a.insertFirst(mk(v), mk(w)); m.insert(m.begin(), {v, w}); break; }
		case 6: if (n) { size_t j = s.below(n); if (m[j] == ANY) break; note("add self[%zu]", j); label("op add own item"); const A & ca = a; if (s.coin()) a.add(a[j]); else a.insertLast(ca[j]); int v = m[j]; m.push_back(v); } break;
		case 7: if (n && s.coin()) { // several items, some of them its own
			size_t k[3]; bool own[3]; int v[3]; int many = 2 + s.below(2); for (int c = 0; c < many; ++c) { k[c] = s.below(n); own[c] = s.below(3) != 0 && m[k[c]] != ANY; v[c] = own[c] ? m[k[c]] : val(s); } if (!own[0] && !own[1]) break;
			size_t i = s.below(n + 1); int where = s.below(3); if (where == 1) i = 0; if (where == 2) i = n; note("%s %zu %d items: %s%d %s%d", where == 0 ? "insertAt" : where == 1 ? "insertFirst" : "insertLast", i, many, own[0] ? "own " : "", v[0], own[1] ? "own " : "", v[1]); label("op insert several, own items");
			T f0(mk(v[0])), f1(mk(v[1])), f2(mk(many == 3 ? v[2] : 0)); const A & ca = a; const T & x = own[0] ? ca[k[0]] : f0; T & y = own[1] ? a[k[1]] : f1; const T & z = many == 3 && own[2] ? ca[k[2]] : f2;
			if (many == 2) switch (where) { case 0: a.insertAt(i, x, y); break; case 1: a.insertFirst(x, y); break; default: a.insertLast(x, y); } else switch (where) { case 0: a.insertAt(i, x, y, z); break; case 1: a.insertFirst(x, y, z); break; default: a.add(x, y, z); }
			m.insert(m.begin() + i, v, v + many); break; }
			if (n) { size_t i = s.below(n + 1), j = s.below(n); if (m[j] == ANY) break; note("insertAt %zu self[%zu]", i, j); label("op insert own item"); if (i == 0 && s.coin()) a.insertFirst(a[j]); else a.insertAt(i, a[j]); int v = m[j]; m.insert(m.begin() + i, v); } break;
		case 8: if (n) { size_t i = s.below(n); note("removeAt %zu", i); label("op removeAt"); a.removeAt(i); m.erase(m.begin() + i); } break;
		case 9: if (n) { size_t i = s.below(n), k = s.below(n - i + 1); note("removeAt %zu x%zu", i, k); label("op removeAt several"); a.removeAt(i, k); m.erase(m.begin() + i, m.begin() + i + k); } break;
		case 10: if (n) { note("removeLast"); label("op removeLast"); a.removeLast(); m.pop_back(); } break;
		case 11: if (n) { note("removeFirst"); label("op removeFirst"); a.removeFirst(); m.erase(m.begin()); } break;
		case 12: if (n) { size_t i = s.below(n); note("popAt %zu", i); label("op popAt"); T t(mk(7)); a.popAt(i, t); if (m[i] != ANY) REQ(E::read(t) == m[i]); m.erase(m.begin() + i); } break;
		case 13: if (n) { bool f = s.coin(); note(f ? "popFirst" : "popLast"); label("op popFirst/popLast"); T t(mk(7)); size_t i = f ? 0 : n - 1; if (f) a.popFirst(t); else a.popLast(t); if (m[i] != ANY) REQ(E::read(t) == m[i]); m.erase(m.begin() + i); } break;
		case 14: if (n) { size_t i = s.below(n); int v = val(s); note("[%zu] = %d", i, v); label("op write"); if (s.coin()) a[i] = mk(v); else *(a.begin() + i) = mk(v); m[i] = v; } break;
		case 15: { size_t i = s.below(n + 1); int v = val(s); if (n && s.chance(1, 3)) { size_t k = s.below(n); if (m[k] != ANY) { note("(%zu, self[%zu])", i, k); label("op get-or-init with own item"); T & r = a(i, a[k]); REQ(&r == &a[i]); if (i >= n) m.push_back(m[k]); break; } } note("(%zu, %d)", i, v); label("op get-or-init"); T & r = a(i, mk(v)); REQ(&r == &a[i]); if (i >= n) m.push_back(v); break; }
		case 16: { // access past the end (plain items only: it leaves unspecified items between)
			if (E::counted || !std::is_trivially_destructible<T>::value) { if (n) { size_t i = s.below(n); note("(%zu)", i); T & r = a(i); REQ(&r == &a[i]); } break; }
			size_t i = n + s.below(12); int v = val(s); note("(%zu) = %d (count %zu)", i, v, n); label("op write past end");
			switch (s.below(4)) { case 0: a(i) = mk(v); break; case 1: a(i, mk(v)); break; case 2: { T & r = a.insertAt(i, mk(v)); REQ(&r == &a[i]); break; } default: a.insertAt(i, mk(v), mk(v + 1)); m.resize(i, (int)ANY); m.push_back(v); m.push_back(v + 1); return; }
			m.resize(i, (int)ANY); m.push_back(v); break; }
		case 17: note("clear"); label("op clear"); switch (s.below(3)) { case 0: a.empty(); break; case 1: a.clear(); break; default: a.wipe(); } m.clear(); break;
		case 18: note("reset"); label("op reset"); a.reset(); m.clear(); break;
		case 19: note("iterate"); label("op iterate"); verify_iteration(s); break;
		}
	}
	T & pushOne(Src & s, int v)
	{
		switch (s.below(3)) { case 0: return a.add(mk(v)); case 1: { T t(mk(v)); return a.insertLast(t); } default: { const T t(mk(v)); return a.push(t); } }
	}
};
