// Elements that can be moved but not copied, or that combine trivial and non-trivial special members
#pragma once
#include "support.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"

// Owner that moves only: no member of it has a copy constructor of its own
struct Unique
{
	int value; const Unique * self;
	void born(int v) { auto & l = objs().live; REQUIRE(!l.count(this), "element constructed over a live element"); l[this] = v; ++objs().constructed; self = this; value = v; }
	void check(const char * what) const { REQUIRE(objs().live.count(this), "%s of an element that is not alive (destroyed or never constructed)", what); REQUIRE(self == this, "%s of an element that was moved bitwise", what); }
	Unique(int v = 0) { born(v); } Unique(Unique && x) { x.check("move"); born(x.value); x.value = -1; } Unique & operator=(Unique && x) { check("assignment"); x.check("move-assignment from"); int v = x.value; x.value = -1; value = v; return *this; } Unique(const Unique &) = delete; Unique & operator=(const Unique &) = delete;
	~Unique() { check("destruction"); objs().live.erase(this); ++objs().destroyed; self = nullptr; }
	int get() const { check("read"); return value; } bool operator<(const Unique & u) const { return get() < u.get(); } bool operator>(const Unique & u) const { return get() > u.get(); } bool operator<=(const Unique & u) const { return get() <= u.get(); } bool operator>=(const Unique & u) const { return get() >= u.get(); } bool operator==(const Unique & u) const { return get() == u.get(); } bool operator!=(const Unique & u) const { return get() != u.get(); }
};
template<> struct Elem<Unique> { static Unique make(int v) { return Unique(v); } static int read(const Unique & t) { return t.get(); } static const char * name() { return "object that can only be moved"; } static constexpr bool counted = true; };
// Copied as bytes when constructed, assigned by a function of its own: the home does not change
struct Homed
{
	int value; int home; static int & next() { static int n = 0; return n; }
	Homed(int v = 0) : value(v), home(++next()) {} Homed(const Homed &) = default; Homed & operator=(const Homed & h) { value = h.value; return *this; } int get() const { return value; }
};
template<> struct Elem<Homed> { static Homed make(int v) { return Homed(v); } static int read(const Homed & t) { return t.get(); } static const char * name() { return "object assigned by a function of its own"; } static constexpr bool counted = false; };

template<typename T> struct OnlyArray
{
	using E = Elem<T>; Array<T> a; std::vector<int> m;
	static std::string kind() { return std::string("Array<") + E::name() + ">"; }
	void verify() { const Array<T> & c = a; REQUIRE(c.getCount() == m.size(), "count %llu, expected %zu", (unsigned long long)c.getCount(), m.size()); for (size_t i = 0; i < m.size(); ++i) REQUIRE(E::read(c[i]) == m[i], "item %zu is %d, expected %d of %s", i, E::read(c[i]), m[i], str(m).c_str()); }
	void step(Src & s)
	{
		size_t n = m.size(); int v = s.below(100), w = s.below(100), z = s.below(100);
		switch (s.weighted({8, 3, 2, 2, 2, 4, 2, 3, 1, 3, 1, 1, 2}))
		{
		case 0: note("add %d", v); if (s.coin()) { T & r = a.add(E::make(v)); REQ(&r == &a[n]); } else a.add(v); m.push_back(v); break;
		case 1: { size_t i = s.below(n + 1); note("insert %d at %zu", v, i); if (s.coin()) a.insertAt(i, E::make(v)); else a.insertAt(i, v); m.insert(m.begin() + i, v); break; }
		case 2: { size_t i = s.below(n + 1); note("insert [%d %d %d] at %zu", v, w, z, i); a.insertAt(i, E::make(v), w, E::make(z)); m.insert(m.begin() + i, {v, w, z}); break; }
		case 3: note("insert [%d %d] first", v, w); a.insertFirst(E::make(v), E::make(w)); m.insert(m.begin(), {v, w}); break;
		case 4: note("add [%d %d %d]", v, w, z); a.add(E::make(v), E::make(w), z); m.insert(m.end(), {v, w, z}); break;
		case 5: if (n) { size_t i = s.below(n), k = 1 + s.below(std::min<size_t>(3, n - i)); note("remove %zu at %zu", k, i); a.removeAt(i, k); m.erase(m.begin() + i, m.begin() + i + k); } break;
		case 6: if (n) { note("remove first"); a.removeFirst(); m.erase(m.begin()); } break;
		case 7: if (n) { note("remove last"); a.removeLast(); m.pop_back(); } break;
		case 8: note("insert %d first", v); a.insertFirst(E::make(v)); m.insert(m.begin(), v); break;
		case 9: if (n) { size_t i = s.below(n); T out(E::make(55)); note("pop %zu", i); if (i == n - 1 && s.coin()) a.popLast(out); else if (i == 0 && s.coin()) a.popFirst(out); else a.popAt(i, out); REQUIRE(E::read(out) == m[i], "popped %d, expected %d", E::read(out), m[i]); m.erase(m.begin() + i); } break;
		case 10: note("empty"); a.empty(); m.clear(); break;
		case 11: note("reset"); a.reset(); m.clear(); break;
		default: if (n) { size_t i = s.below(n); note("item %zu = %d", i, v); if (s.coin()) a[i] = E::make(v); else a(i) = E::make(v); m[i] = v; } break;
		}
	}
};
template<typename T> struct OnlyList
{
	using E = Elem<T>; List<T> a; std::vector<int> m;
	static std::string kind() { return std::string("List<") + E::name() + ">"; }
	void verify() { REQUIRE(a.getLength() == m.size(), "length %llu, expected %zu", (unsigned long long)a.getLength(), m.size()); size_t i = 0; for (auto & x : a) { REQ(i < m.size()); REQUIRE(E::read(x) == m[i], "item %zu is %d, expected %d", i, E::read(x), m[i]); ++i; } REQ(i == m.size()); }
	void step(Src & s)
	{
		size_t n = m.size(); int v = s.below(100), w = s.below(100);
		switch (s.weighted({6, 4, 2, 2, 3, 3, 3, 3, 3, 1}))
		{
		case 0: note("pushBack %d", v); if (s.coin()) a.pushBack(E::make(v)); else a.pushBack(v); m.push_back(v); break;
		case 1: note("pushFront %d", v); if (s.coin()) a.pushFront(E::make(v)); else a.pushFront(v); m.insert(m.begin(), v); break;
		case 2: note("pushBack [%d %d]", v, w); a.pushBack(E::make(v), E::make(w)); m.insert(m.end(), {v, w}); break;
		case 3: note("pushFront [%d %d]", v, w); a.pushFront(E::make(v), E::make(w)); m.insert(m.begin(), {w, v}); break;
		case 4: note("removeBack"); REQ(a.removeBack() == (n > 0)); if (n) m.pop_back(); break;
		case 5: note("removeFront"); REQ(a.removeFront() == (n > 0)); if (n) m.erase(m.begin()); break;
		case 6: { note("popBack"); T o(E::make(55)); REQ(a.popBack(o) == (n > 0)); REQUIRE(E::read(o) == (n ? m[n - 1] : 55), "popped %d", E::read(o)); if (n) m.pop_back(); break; }
		case 7: { note("popFront"); T o(E::make(55)); REQ(a.popFront(o) == (n > 0)); REQUIRE(E::read(o) == (n ? m[0] : 55), "popped %d", E::read(o)); if (n) m.erase(m.begin()); break; }
		case 8: if (n) { size_t i = s.below(n); note("remove at %zu", i); auto it = a.begin(); for (size_t k = 0; k < i; ++k) ++it; a.remove(it); m.erase(m.begin() + i); } break;
		default: note("empty"); a.empty(); m.clear(); break;
		}
	}
};
struct UniqueCompare { int32 operator()(const Unique & a, const Unique & b) const { return a.get() - b.get(); } int32 operator()(const Unique & a, int b) const { return a.get() - b; } int32 operator()(int a, const Unique & b) const { return a - b.get(); } };
template<typename T> struct OnlyTree
{
	using E = Elem<T>; BinaryTree<T, UniqueCompare> a; std::vector<int> m;
	static std::string kind() { return std::string("BinaryTree<") + E::name() + ">"; }
	void verify() { REQUIRE(a.getCount() == m.size(), "count %llu, expected %zu", (unsigned long long)a.getCount(), m.size()); size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it) { REQ(i < m.size()); REQUIRE(E::read(*it) == m[i], "item %zu is %d, expected %d", i, E::read(*it), m[i]); ++i; } REQ(i == m.size()); }
	void step(Src & s)
	{
		int v = s.below(30); auto lo = std::lower_bound(m.begin(), m.end(), v); bool in = lo != m.end() && *lo == v;
		switch (s.weighted({5, 3, 2, 5, 1}))
		{
		case 0: note("insert %d", v); a.insert(E::make(v)); m.insert(lo, v); break;
		case 1: note("insert unique %d", v); REQ(E::read(a.insertUnique(E::make(v))) == v); if (!in) m.insert(lo, v); break;
		case 2: note("replace %d", v); REQ(E::read(a.replace(E::make(v))) == v); if (!in) m.insert(lo, v); break;
		case 3: { note("remove %d", v); T k(E::make(v)); REQ(a.remove(k) == in); if (in) m.erase(lo); break; }
		default: note("empty"); a.empty(); m.clear(); break;
		}
	}
};
template<typename C> static void only_history(Src & s)
{
	GlobalAudit g; objs().reset(); uint64_t died = 0; size_t n = 5 + s.length(60), moves = 0;
	{
		std::unique_ptr<C> x[2] = {std::unique_ptr<C>(new C), std::unique_ptr<C>(new C)}; note("%s", C::kind().c_str());
		auto live = [&] { if (Elem<Unique>::counted) { size_t k = x[0]->m.size() + x[1]->m.size(); REQUIRE(objs().live.size() == k, "%zu elements alive, containers hold %zu", objs().live.size(), k); } };
		for (size_t i = 0; i < n; ++i)
		{
			size_t k = s.below(2);
			switch (s.weighted({14, 1, 1, 1}))
			{
			case 0: x[k]->step(s); break;
			case 1: { note("x%zu = move(x%zu)", k, 1 - k); x[k]->a = std::move(x[1 - k]->a); x[k]->m = x[1 - k]->m; x[1 - k]->m.clear(); x[1 - k].reset(new C); ++moves; break; }
			case 2: { note("x%zu moved into a new one", k); std::unique_ptr<C> y(new C); decltype(y->a) t(std::move(x[k]->a)); y->a = std::move(t); y->m = x[k]->m; x[k] = std::move(y); ++moves; break; }
			default: note("x%zu destroyed", k); x[k].reset(new C); break;
			}
			x[0]->verify(); x[1]->verify(); live();
		}
		died = objs().destroyed; if (n >= 15 && objs().constructed >= 12 && died >= 3 && moves) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu elements alive after their containers", objs().live.size()); g.expect_empty("history");
}
