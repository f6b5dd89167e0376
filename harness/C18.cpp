#include "m_world.h"
#include "m_optional.h"
#include "m_array.h"
namespace pbt {
const char * PROPERTY = "C18";
const char * RULE = "a case is a history of emplacements, assignments, resets, copies, moves and destructions over several optionals compared with ideal ones after each step, counting every contained object; non-trivial: at least 6 operations, among them a replacement or reset of a present value and a copy or a move";
}
// a value that cannot be copied
struct Only { Obj o; Only(int v) : o(v) {} Only(Only && x) : o(std::move(x.o)) {} Only & operator=(Only && x) { o = std::move(x.o); return *this; } Only(const Only&) = delete; };
template<typename T> static void history(Src & s)
{
	objs().reset(); 
	{
		GlobalAudit g; size_t n = 2 + s.below(2); World<OptionalM<T>> w(n); size_t ops = 6 + s.length(40); bool lost = false; note("%s", OptionalM<T>::kind().c_str());
		for (size_t i = 0; i < ops; ++i) { size_t before = 0; for (auto & sl : w.xs) if (!sl.moved) before += sl.x->m.size(); w.step(s); size_t after = 0; for (auto & sl : w.xs) if (!sl.moved) after += sl.x->m.size(); lost |= before > 0 && after > 0; w.verify(); if (Elem<T>::counted) w.verify_objects(); 
			// every live object is inside one of the optionals, at most one per optional
			if (Elem<T>::counted) { REQUIRE(objs().live.size() <= w.xs.size(), "%zu objects alive in %zu optionals", objs().live.size(), w.xs.size()); size_t k = 0; for (auto & sl : w.xs) k += sl.x->a.hasValue(); REQUIRE(objs().live.size() == k, "%zu objects alive, %zu optionals have a value", objs().live.size(), k); } }
		if (lost && w.copies + w.moves) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu objects still alive after the optionals", objs().live.size());
}
static void construction(Src & s)
{
	objs().reset(); int v = s.below(100), w = s.below(100); note("construction forms with %d, %d", v, w);
	{
		Optional<Obj> e; REQ(!e.hasValue() && objs().live.empty());
		Obj src(v); Optional<Obj> a(src), b(Obj{w}), c(v); REQ(a->get() == v && b->get() == w && c->get() == v && src.get() == v); REQ(objs().live.size() == 4);
		Optional<Obj> d(static_cast<const Optional<Obj>&>(a)), f(b), g(static_cast<const Optional<Obj>&>(e)), h(e); REQ(d->get() == v && f->get() == w && !g && !h); d->set(1); REQUIRE(a->get() == v, "change of a copy shows in the original");
		Optional<Obj> m(std::move(a)); REQ(m->get() == v); a = Obj(w); REQ(a->get() == w); Optional<Obj> n(std::move(e)); REQ(!n); e.emplace(v); REQ(e->get() == v);
		Optional<Only> o(v), p; o.emplace(w); REQ(o->o.get() == w); p = std::move(o); REQ(p && p->o.get() == w); Optional<Only> q(std::move(p)); REQ(q->o.get() == w); o = Only(v); REQ(o->o.get() == v); q.reset(); REQ(!q); q = std::move(o); REQ(q->o.get() == v); Only out(*std::move(q)); REQ(out.o.get() == v);
		Optional<std::pair<int, long>> pr(v, (long)w); REQ(pr->first == v && pr->second == w); pr.emplace(w, (long)v); REQ(pr->first == w && pr->second == v);
		Optional<Optional<Obj>> nn; nn.emplace(c); REQ(nn && (*nn)->get() == v); nn->reset(); REQ(nn && !*nn); nn.reset(); REQ(!nn);
		const Optional<Obj> k(v); REQ(k && (*k).get() == v && k->get() == v);
		struct alignas(32) W { char x[32]; }; struct H { char c; Optional<W> w; char d; } al{}; al.c = 7; al.d = 9; al.w.emplace(); memset(al.w->x, s.below(256), 32); REQ(((uintptr_t)&*al.w & 31) == 0 && al.c == 7 && al.d == 9 && al.w.hasValue());
		Optional<char> ch('x'); *ch = (char)s.below(256); REQ(ch.hasValue()); ch.reset(); REQ(!ch); bool z = s.coin(); Optional<bool> bo(z); REQ(*bo == z && bo.hasValue()); bo = !z; REQ(*bo == !z); int * np = nullptr; Optional<int*> po(np); REQ(po.hasValue() && *po == nullptr);
	}
	REQUIRE(objs().live.empty(), "%zu objects still alive", objs().live.size()); nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"object", history<Obj>, 360000, 1500000, "optional of an owning object"},
	{"padded", history<ObjT<40>>, 120000, 500000, "optional of a larger owning object"},
	{"plain", [](Src & s) { switch (s.below(4)) { case 0: history<int>(s); break; case 1: history<char>(s); break; case 2: history<double>(s); break; default: history<Pod>(s); } }, 120000, 800000, "optional of plain values"},
	{"construction", construction, 30000, 120000, "construction forms, move-only, aligned and nested values"},
};
}
