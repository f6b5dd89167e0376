// Optional under a model: at most one value
#pragma once
#include "support.h"
#include "templates/optional.h"
template<typename T>
struct OptionalM
{
	using E = Elem<T>; using A = Optional<T>;
	A a; std::vector<int> m;      // zero or one item
	static std::string kind() { return std::string("Optional<") + E::name() + ">"; }
	static int val(Src & s) { return (int)s.below(100); }
	static T mk(int v) { return E::make(v); }
	size_t objects() const { return E::counted ? m.size() : 0; }
	void verify()
	{
		const A & ca = a; REQUIRE(a.hasValue() == !m.empty(), "hasValue() is %d, expected %d", a.hasValue(), !m.empty()); REQ((bool)ca == !m.empty() && ca.hasValue() == a.hasValue());
		if (!m.empty()) { REQUIRE(E::read(*a) == m[0], "value %d, expected %d", E::read(*a), m[0]); REQ(E::read(*ca) == m[0]); REQ(&*a == a.operator->() && &*ca == ca.operator->() && &*ca == &*a); REQUIRE((const char*)&*a >= (const char*)&a && (const char*)(&*a + 1) <= (const char*)(&a + 1), "the value lies outside the optional"); REQ(((uintptr_t)&*a % alignof(T)) == 0); }
	}
	void step(Src & s)
	{
		int v = val(s); bool had = !m.empty();
		switch (s.weighted({4, 4, 4, 3, 3, 2, 2, 1}))
		{
		case 0: note("emplace %d%s", v, had ? " over a value" : ""); label(had ? "op emplace over" : "op emplace"); if (s.coin()) a.emplace(mk(v)); else { T t(mk(v)); a.emplace(t); } m = {v}; break;
		case 1: { note("= %d%s", v, had ? " over a value" : ""); label(had ? "op assign over" : "op assign"); T t(mk(v)); A & r = (a = t); REQ(&r == &a); REQ(E::read(t) == v); m = {v}; break; }
		case 2: { note("= %d (temporary)%s", v, had ? " over a value" : ""); A & r = (a = mk(v)); REQ(&r == &a); m = {v}; break; }
		case 3: note("reset"); label(had ? "op reset" : "op reset empty"); a.reset(); m.clear(); break;
		case 4: if (had) { note("*x = %d", v); label("op write"); if (s.coin()) *a = mk(v); else *a.operator->() = mk(v); m = {v}; } break;
		case 5: { note("x = copy of x"); label("op copy and back"); A c(static_cast<const A&>(a)); REQ(c.hasValue() == had); if (had) REQ(E::read(*c) == m[0]); A d(a); REQ(d.hasValue() == had); a.reset(); a = static_cast<const A&>(c); break; }
		case 6: if (had) { note("move the value out and put it back"); label("op move value out"); T t(*std::move(a)); REQ(E::read(t) == m[0]); REQ(a.hasValue()); a = std::move(t); } break;
		case 7: { note("= own value"); if (had) { label("op assign own value"); a = static_cast<const T&>(*a); } break; }
		}
	}
};
