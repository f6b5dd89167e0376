// Map under a model: std::map
#pragma once
#include "support.h"
#include "containers/map.h"
#include "m_tree.h"

template<typename K, typename V, typename C = ThreeWayCompare, typename MapT = Map<K, V, C>, bool KeepAlloc = false>
struct MapM
{
	using EK = Elem<K>; using EV = Elem<V>;
	MapT a; std::map<int, int> m; int span = 40;
	static std::string kind() { return std::string("Map<") + EK::name() + ", " + EV::name() + ">"; }
	MapM() {}
	template<typename ... X> explicit MapM(int, X && ... x) : a(std::forward<X>(x)...) {}
	static K mk(int k) { return EK::make(k); }
	static V mv(int v) { return EV::make(v); }
	size_t objects() const { return (EK::counted ? m.size() : 0) + (EV::counted ? m.size() : 0); }

	void verify()
	{
		const MapT & ca = a;
		REQUIRE(a.getCount() == m.size(), "count %llu, expected %zu", (unsigned long long)a.getCount(), m.size());
		REQ(ca.getSize() == m.size() && ca.getNumNodes() == m.size());
		auto e = m.begin(); size_t n = 0;
		for (auto it = ca.begin(); it != ca.end(); ++it, ++e, ++n) { REQUIRE(n < m.size(), "iteration visits more than %zu pairs", m.size()); REQUIRE(EK::read(it->first) == e->first, "pair %zu has key %d, expected %d", n, EK::read(it->first), e->first); REQUIRE(EV::read(it->second) == e->second, "key %d has value %d, expected %d", e->first, EV::read(it->second), e->second); REQ(&it->getKey() == &it->first && &it->getVal() == &it->second); }
		REQUIRE(n == m.size(), "iteration visits %zu of %zu pairs", n, m.size());
		n = 0; for (auto & p : a) { (void)p; ++n; } REQ(n == m.size());
		// backwards
		if (!m.empty()) { auto it = ca.begin(); for (size_t i = 1; i < m.size(); ++i) it++; auto r = m.rbegin(); for (size_t i = 1; i < m.size(); ++i, ++r) { REQ(EK::read(it->first) == r->first); it--; } REQ(it == ca.begin()); }
	}
	void verify_key(int k)
	{
		const MapT & ca = a; auto e = m.find(k); bool p = e != m.end(); const K key(mk(k));
		REQUIRE(a.has(key) == p, "has(%d) is %d", k, a.has(key)); REQ(ca.has(key) == p);
		auto it = a.find(key); auto ci = ca.find(key); REQUIRE((it != a.end()) == p, "find(%d)", k); REQ((ci != ca.end()) == p);
		V out(mv(1234)); REQ(ca.find(key, out) == p); REQUIRE(EV::read(out) == (p ? e->second : 1234), "find(%d) yields %d", k, EV::read(out));
		if (p) { REQ(EV::read(it->second) == e->second && EK::read(ci->first) == k); auto b = a.begin(key), n = a.end(key); REQ(b == it); ++b; REQ(b == n); auto cb = ca.begin(key), cn = ca.end(key); REQ(++cb == cn); }
		else { REQ(a.begin(key) == a.end() && a.end(key) == a.end()); REQ(ca.begin(key) == ca.end()); }
		REQUIRE(a.getCount() == m.size(), "lookup of %d changed the count", k);
	}
	void verify_all_keys() { for (int k = -1; k <= span; ++k) verify_key(k); }
	void clear() { note("clear"); label("op clear"); if constexpr (KeepAlloc) { while (a.begin() != a.end()) a.remove(a.begin()); } else a = MapT{}; m.clear(); }
	void step(Src & s, size_t cap = 400)
	{
		if (m.size() > cap) { clear(); return; }
		int k = s.below(span), v = 100 + s.below(100); bool p = m.count(k);
		switch (s.weighted({8, 6, 3, 6, 3, 3, 4, 1, 2, 1, 4}))
		{
		case 0: { note("insert %d -> %d%s", k, v, p ? " (overwrites)" : ""); label(p ? "op insert over" : "op insert new"); K key(mk(k)); V val(mv(v)); V & r = s.coin() ? a.insert(key, val) : a.insert(mk(k), mv(v)); REQ(EV::read(r) == v); REQ(EK::read(key) == k && EV::read(val) == v); m[k] = v; break; }
		case 1: { note("[%d] = %d", k, v); label(p ? "op subscript existing" : "op subscript new"); K key(mk(k)); V & r = s.coin() ? a[key] : a[mk(k)]; REQ(EK::read(key) == k); if (p) REQUIRE(EV::read(r) == m[k], "[%d] is %d, expected %d", k, EV::read(r), m[k]); else REQUIRE(EV::read(r) == EV::read(V{}), "new value under [%d] is %d", k, EV::read(r)); r = mv(v); m[k] = v; break; }
		case 2: { note("[%d]", k); V & r = a[mk(k)]; if (p) REQ(EV::read(r) == m[k]); else { REQUIRE(EV::read(r) == EV::read(V{}), "new value under [%d] is %d", k, EV::read(r)); m[k] = EV::read(V{}); } break; }
		case 3: { note("remove key %d%s", k, p ? "" : " (absent)"); label(p ? "op remove present" : "op remove absent"); bool r = a.remove(mk(k)); REQ(r == p); m.erase(k); break; }
		case 4: { note("pop %d%s", k, p ? "" : " (absent)"); label("op pop"); V out(mv(1234)); bool r = a.pop(mk(k), out); REQ(r == p); REQUIRE(EV::read(out) == (p ? m[k] : 1234), "pop(%d) yields %d", k, EV::read(out)); m.erase(k); break; }
		case 5: if (!m.empty()) { size_t i = s.below(m.size()); note("remove position %zu", i); label("op remove position"); auto it = a.begin(); auto e = m.begin(); for (size_t q = 0; q < i; ++q) { ++it; ++e; } auto r = a.remove(it); e = m.erase(e); REQ((r == a.end()) == (e == m.end())); if (e != m.end()) REQUIRE(EK::read(r->first) == e->first, "removal returned key %d, expected %d", EK::read(r->first), e->first); } break;
		case 6: label("op lookup"); verify_key(k); break;
		case 7: if constexpr (!KeepAlloc) { note("x = copy of x"); label("op copy"); MapT c(static_cast<const MapT&>(a)); a = static_cast<const MapT&>(c); } break;
		case 8: if (p) { note("find(%d)->second = %d", k, v); label("op write through position"); a.find(mk(k))->second = mv(v); m[k] = v; } break;
		case 9: clear(); break;
		case 10: if (!m.empty())
		{	// arguments that are keys and values of the map itself
			auto at = [&](size_t i) { auto it = a.begin(); while (i--) ++it; return it; }; auto me = [&](size_t i) { auto e = m.begin(); std::advance(e, i); return e; };
			size_t i = s.below(m.size()), j = s.below(m.size()); auto it = at(i), jt = at(j); int ki = me(i)->first, vj = me(j)->second; label("op on own key or value");
			switch (s.below(6))
			{
			case 0: { note("remove own key %d", ki); bool r = a.remove(it->first); REQ(r); m.erase(ki); break; }
			case 1: { note("pop own key %d", ki); V out(mv(1234)); bool r = a.pop(it->first, out); REQ(r); REQUIRE(EV::read(out) == m[ki], "pop yields %d, expected %d", EV::read(out), m[ki]); m.erase(ki); break; }
			case 2: { note("insert %d -> own value %d", k, vj); V & r = a.insert(mk(k), static_cast<const V&>(jt->second)); REQ(EV::read(r) == vj); m[k] = vj; break; }
			case 3: { note("insert own key %d -> own value %d", ki, vj); V & r = a.insert(static_cast<const K&>(it->first), jt->second); REQ(EV::read(r) == vj); m[ki] = vj; break; }
			case 4: { note("[own key %d] = own value %d", ki, vj); a[static_cast<const K&>(it->first)] = static_cast<const V&>(jt->second); m[ki] = vj; break; }
			default: { note("[%d] = own value %d", k, vj); V & r = a[mk(k)]; r = static_cast<const V&>(jt->second); m[k] = vj; break; }
			}
		} break;
		}
	}
};
