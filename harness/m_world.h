// Several instances of one machine, copied, assigned, moved and destroyed.
#pragma once
#include "support.h"

template<typename M>
struct World
{
	struct Slot { std::unique_ptr<M> x; bool moved = false; };
	std::vector<Slot> xs; int copies = 0, moves = 0, after = 0; bool rel = false;
	static decltype(std::declval<M>().a) & A(Slot & s) { return s.x->a; }
	World(size_t n = 3) { for (size_t i = 0; i < n; ++i) { xs.emplace_back(); xs.back().x.reset(new M); } }
	size_t usable(Src & s, bool want_moved_ok = false) { for (int k = 0; k < 8; ++k) { size_t i = s.below(xs.size()); if (want_moved_ok || !xs[i].moved) return i; } for (size_t i = 0; i < xs.size(); ++i) if (!xs[i].moved) return i; xs[0].x.reset(new M); xs[0].moved = false; return 0; }
	void verify() { for (auto & sl : xs) if (!sl.moved) sl.x->verify(); }
	size_t objects() { size_t n = 0; for (auto & sl : xs) if (!sl.moved) n += sl.x->objects(); return n; }
	bool any_moved() { for (auto & sl : xs) if (sl.moved) return true; return false; }
	void verify_objects()
	{
		size_t n = objects();
		if (any_moved()) REQUIRE(objs().live.size() >= n, "%zu elements alive, containers hold at least %zu", objs().live.size(), n);
		else REQUIRE(objs().live.size() == n, "%zu elements alive, containers hold %zu", objs().live.size(), n);
	}
	// returns the index of the instance acted on
	void step(Src & s, unsigned w_mutate = 10)
	{
		switch (s.weighted({w_mutate, 2, 3, 1, 1, 2, 2, 1}))
		{
		case 0: { size_t i = usable(s); note("#%zu:", i); xs[i].x->step(s); if (copies + moves) ++after; break; }
		case 1: { size_t j = usable(s), i = s.below(xs.size()); if (i == j) break; note("#%zu(copy of #%zu)%s", i, j, xs[j].x->m.empty() ? " empty" : ""); label(xs[j].x->m.empty() ? "copy-construct from empty" : "copy-construct"); auto c = std::unique_ptr<M>(new M(static_cast<const M&>(*xs[j].x))); xs[i].x = std::move(c); xs[i].moved = false; ++copies; break; }
		case 2: { size_t j = usable(s), i = s.below(xs.size()); if (i == j) break; size_t a = xs[i].moved ? 0 : xs[i].x->m.size(), b = xs[j].x->m.size(); note("#%zu = #%zu (%zu <- %zu)%s", i, j, a, b, xs[i].moved ? " after move" : ""); label(xs[i].moved ? "copy-assign over moved-from" : a > b ? "copy-assign shrinking" : a < b ? "copy-assign growing" : "copy-assign same size"); *xs[i].x = static_cast<const M&>(*xs[j].x); xs[i].moved = false; ++copies; break; }
		case 3: { size_t i = usable(s); note("#%zu = itself", i); label("self copy-assign"); auto keep = xs[i].x->m; const auto & alias = A(xs[i]); A(xs[i]) = alias; xs[i].x->m = keep; break; }
		case 4: { size_t i = usable(s); note("#%zu = move(itself)", i); label("self move-assign"); auto & alias = A(xs[i]); A(xs[i]) = std::move(alias); xs[i].moved = true; break; }   // content unspecified, still destroyable and assignable
		case 5: { size_t j = usable(s), i = s.below(xs.size()); if (i == j) break; note("#%zu(move of #%zu)", i, j); label("move-construct"); auto c = std::unique_ptr<M>(new M(std::move(*xs[j].x))); xs[j].moved = true; xs[i].x = std::move(c); xs[i].moved = false; ++moves; break; }
		case 6: { size_t j = usable(s), i = s.below(xs.size()); if (i == j) break; note("#%zu = move(#%zu)%s", i, j, xs[i].moved ? " after move" : ""); label(xs[i].moved ? "move-assign over moved-from" : "move-assign"); *xs[i].x = std::move(*xs[j].x); xs[j].moved = true; xs[i].moved = false; ++moves; break; }
		case 7: { size_t i = s.below(xs.size()); note("#%zu: destroyed, fresh", i); label(xs[i].moved ? "destroy moved-from" : "destroy"); xs[i].x.reset(); xs[i].x.reset(new M); xs[i].moved = false; break; }
		}
	}
};

