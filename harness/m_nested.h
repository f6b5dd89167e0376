// Containers whose items are containers of owning elements
#pragma once
#include "support.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"

struct ArrayOfArrays
{
	using A = Array<Array<Obj>>;
	A a; std::vector<std::vector<int>> m;
	static std::string kind() { return "Array<Array<owning object>>"; }
	size_t objects() const { size_t n = 0; for (auto & v : m) n += v.size(); return n; }
	static void same(const Array<Obj> & x, const std::vector<int> & v) { REQUIRE(x.getCount() == v.size(), "inner array holds %llu of %zu items", (unsigned long long)x.getCount(), v.size()); for (size_t i = 0; i < v.size(); ++i) REQ(x[i].get() == v[i]); }
	void verify() { REQUIRE(a.getCount() == m.size(), "%llu inner arrays of %zu", (unsigned long long)a.getCount(), m.size()); for (size_t i = 0; i < m.size(); ++i) same(a[i], m[i]); }
	static Array<Obj> fresh(Src & s, std::vector<int> & v) { Array<Obj> x; size_t n = s.below(5); for (size_t i = 0; i < n; ++i) { v.push_back(s.below(50)); x.add(Obj(v.back())); } return x; }
	void step(Src & s)
	{
		size_t n = m.size();
		if (n > 40) { note("clear"); a.empty(); m.clear(); return; }
		switch (s.weighted({5, 3, 3, 4, 3, 2, 3, 2, 1, 2}))
		{
		case 0: { std::vector<int> v; Array<Obj> x(fresh(s, v)); bool mv = s.coin(); note("add %s of %zu", mv ? "moved" : "copied", v.size()); if (mv) a.add(std::move(x)); else a.add(x); m.push_back(v); break; }
		case 1: { size_t i = s.below(n + 1); std::vector<int> v; Array<Obj> x(fresh(s, v)); note("insertAt %zu of %zu", i, v.size()); if (s.coin()) a.insertAt(i, x); else a.insertAt(i, std::move(x)); m.insert(m.begin() + i, v); break; }
		case 2: if (n) { size_t i = s.below(n); note("removeAt %zu", i); a.removeAt(i); m.erase(m.begin() + i); } break;
		case 3: if (n) { size_t i = s.below(n); int v = s.below(50); note("[%zu] add %d", i, v); a[i].add(Obj(v)); m[i].push_back(v); } break;
		case 4: if (n) { size_t i = s.below(n); if (m[i].empty()) break; size_t j = s.below(m[i].size()); note("[%zu] removeAt %zu", i, j); a[i].removeAt(j); m[i].erase(m[i].begin() + j); } break;
		case 5: if (n > 1) { size_t i = s.below(n), j = s.below(n); note("[%zu] = [%zu]", i, j); a[i] = static_cast<const Array<Obj>&>(a[j]); if (i != j) m[i] = m[j]; } break;
		case 6: if (n) { size_t j = s.below(n), i = s.below(n + 1); note("insertAt %zu own item %zu", i, j); a.insertAt(i, a[j]); auto v = m[j]; m.insert(m.begin() + i, v); } break;
		case 7: if (n) { size_t i = s.below(n); note("popAt %zu", i); Array<Obj> x; x.add(Obj(3)); a.popAt(i, x); same(x, m[i]); m.erase(m.begin() + i); } break;
		case 8: note("clear"); a.empty(); m.clear(); break;
		case 9: if (n) { bool f = s.coin(); note(f ? "removeFirst" : "removeLast"); if (f) { a.removeFirst(); m.erase(m.begin()); } else { a.removeLast(); m.pop_back(); } } break;
		}
	}
};

struct MapOfLists
{
	using A = Map<int, List<Obj>>;
	A a; std::map<int, std::vector<int>> m;
	static std::string kind() { return "Map<int, List<owning object>>"; }
	size_t objects() const { size_t n = 0; for (auto & v : m) n += v.second.size(); return n; }
	static void same(const List<Obj> & x, const std::vector<int> & v) { REQ(x.getLength() == v.size()); size_t i = 0; for (auto it = x.begin(); it != x.end(); ++it, ++i) { REQ(i < v.size()); REQ((*it).get() == v[i]); } REQ(i == v.size()); }
	void verify() { REQ(a.getCount() == m.size()); auto e = m.begin(); for (auto it = a.begin(); it != a.end(); ++it, ++e) { REQ(e != m.end()); REQ(it->first == e->first); same(it->second, e->second); } REQ(e == m.end()); }
	void step(Src & s)
	{
		int k = s.below(12);
		switch (s.weighted({4, 4, 2, 2, 3, 1, 1}))
		{
		case 0: { List<Obj> l; std::vector<int> v; size_t n = s.below(4); for (size_t i = 0; i < n; ++i) { v.push_back(s.below(50)); l.pushBack(Obj(v.back())); } note("insert %d -> %zu items%s", k, n, m.count(k) ? " (overwrites)" : ""); if (s.coin()) a.insert(k, l); else a.insert(int(k), std::move(l)); m[k] = v; break; }
		case 1: { int v = s.below(50); note("[%d].pushBack %d", k, v); a[k].pushBack(Obj(v)); m[k].push_back(v); break; }
		case 2: { note("[%d].pushFront", k); a[k].pushFront(Obj(1)); auto & v = m[k]; v.insert(v.begin(), 1); break; }
		case 3: if (m.count(k) && !m[k].empty()) { note("[%d].popBack", k); Obj o(9); a[k].popBack(o); REQ(o.get() == m[k].back()); m[k].pop_back(); } break;
		case 4: { note("remove %d", k); bool p = m.erase(k); REQ(a.remove(k) == p); break; }
		case 5: { int j = s.below(12); if (m.count(k) && m.count(j)) { note("[%d] = [%d]", k, j); List<Obj> & x = a[k]; const List<Obj> & y = a[j]; x = y; if (k != j) m[k] = m[j]; } break; }
		case 6: { note("pop %d", k); List<Obj> out; out.pushBack(Obj(5)); bool p = m.count(k); REQ(a.pop(k, out) == p); if (p) { same(out, m[k]); m.erase(k); } else same(out, {5}); break; }
		}
	}
};
