// Function objects under a model: a target with captured state
#pragma once
#include "support.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
namespace fn {
inline long effects = 0;                     // what the targets do besides returning
inline int plain(int x) { effects += 3; return 2 * x + 1; }
inline int other(int x) { effects += 5; return 7 - x; }
struct Acc { int base; int method(int x) { base += x; return base * 2; } int cmethod(int x) const { return base - x; } };
struct Functor { Obj o; int k; int operator()(int x) const { effects += k; return o.get() * 3 + x; } };
struct Both { Obj o; int operator()(int x) { o.set(o.get() + 1); return o.get() + x; } };
// the ideal
struct Model
{
	int kind = -1, p = 0, state = 0; Acc * acc = nullptr; const std::vector<int> * shared = nullptr;
	bool bound() const { return kind >= 0; }
	size_t objects() const { switch (kind) { case 2: case 5: case 6: case 8: return 1; case 9: return 2; default: return 0; } }
	int call(int x, long & eff, std::map<Acc*, int> & accs)
	{
		switch (kind)
		{
		case 0: eff += 3; return 2 * x + 1;
		case 1: eff += 5; return 7 - x;
		case 2: return p + x;
		case 3: { int r = state * 10 + p + x; ++state; return r; }
		case 4: { int r = 0; for (int i = 0; i < 100; ++i) r += (p + i) ^ x; return r; }
		case 5: eff += p; return p * 3 + x;
		case 6: ++state; return p + state + x;
		case 7: { accs[acc] += x; return accs[acc] * 2; }
		case 8: return 1000 + (p + x);
		case 9: { ++state; return p * 2 + x + state; }
		case 10: return (int)(x * 11);
		default: return 0;
		}
	}
};
}
struct FunctionM
{
	using A = Function<int(int)>;
	A a;
	// shaped like the other machines: m is what is held
	struct View { fn::Model x; size_t size() const { return x.bound(); } bool empty() const { return !x.bound(); } } m;
	static std::string kind() { return "Function<int(int)>"; }
	size_t objects() const { return m.x.objects(); }
	static fn::Acc & acc(int i) { static fn::Acc x[2]; return x[i]; }
	static std::map<fn::Acc*, int> & accs() { static std::map<fn::Acc*, int> & x = *new std::map<fn::Acc*, int>; return x; }
	static long & effects() { static long e; return e; }
	static void begin() { fn::effects = 0; effects() = 0; accs().clear(); for (int i = 0; i < 2; ++i) { acc(i).base = i * 50; accs()[&acc(i)] = i * 50; } }
	static A build(fn::Model & m, Src & s)
	{
		using namespace fn; m = Model(); m.kind = s.below(11); int p = m.p = s.below(100);
		switch (m.kind)
		{
		case 0: if (s.coin()) return A(plain); else return A(&plain);
		case 1: { int (*q)(int) = other; return A(q); }
		case 2: { Obj o(p); if (s.coin()) return A([o](int x) { return o.get() + x; }); auto l = [o](int x) { return o.get() + x; }; return A(l); }
		case 3: { int n = 0; auto l = [n, p](int x) mutable { return n++ * 10 + p + x; }; if (s.coin()) return A(l); return A(std::move(l)); }
		case 4: { struct { int v[100]; } big; for (int i = 0; i < 100; ++i) big.v[i] = p + i; return A([big](int x) { int r = 0; for (int i = 0; i < 100; ++i) r += big.v[i] ^ x; return r; }); }
		case 5: { Functor f{Obj(p), p}; if (s.coin()) return A(f); const Functor g(f); if (s.coin()) return A(g); return A(std::move(f)); }
		case 6: { Both b{Obj(p)}; if (s.coin()) return A(b); return A(std::move(b)); }
		case 7: { Acc * q = &acc(s.below(2)); m.acc = q; return A([q](int x) { return q->method(x); }); }
		case 8: { Obj o(p); A inner([o](int x) { return o.get() + x; }); return A([inner](int x) { return 1000 + inner(x); }); }
		case 9: { Obj o(p), r(p); int n = 0; return A([o, r, n](int x) mutable { return o.get() + r.get() + x + ++n; }); }
		default: return A([](long x) { return (short)(x * 11); });   // converted arguments and result
		}
	}
	void call(int x)
	{
		REQUIRE(m.x.bound(), "harness"); fn::Model & k = m.x; bool c = k.kind != 3 && k.kind != 6 && k.kind != 9; int e = k.call(x, effects(), accs()); int r = (c && (x & 1)) ? static_cast<const A&>(a)(x) : a(x);
		REQUIRE(r == e, "target %d(%d) called with %d returns %d, expected %d", k.kind, k.p, x, r, e); REQUIRE(fn::effects == effects(), "the target's effects did not happen once"); for (int i = 0; i < 2; ++i) REQUIRE(acc(i).base == accs()[&acc(i)], "the bound object was not the one called");
	}
	void verify() { const A & ca = a; REQUIRE((bool)a == m.x.bound(), "reports bound %d, expected %d", (bool)a, m.x.bound()); REQ((bool)ca == m.x.bound()); }
	void step(Src & s)
	{
		switch (s.weighted({4, 8, 2, 2, 1}))
		{
		case 0: { fn::Model k; A f(build(k, s)); note("= target %d(%d)%s", k.kind, k.p, m.x.bound() ? " over another" : ""); label(m.x.bound() ? "op rebind" : "op bind"); a = std::move(f); m.x = k; break; }
		case 1: if (m.x.bound()) { int x = (int)s.below(200) - 100; note("call(%d)", x); label("op call"); call(x); } break;
		case 2: { note("x = copy of x"); label("op copy and back"); A c(a); REQ((bool)c == m.x.bound()); if (m.x.bound() && s.coin()) { int x = s.below(50); call(x); a = static_cast<const A&>(c); if (m.x.kind == 3 || m.x.kind == 6 || m.x.kind == 9) --m.x.state; } else a = static_cast<const A&>(c); break; }
		case 3: { note("= {}"); label("op unbind"); a = A(); m.x = fn::Model(); break; }
		case 4: { fn::Model k; note("= functor"); a = [](int x) { return fn::plain(x); }; m.x = k; m.x.kind = 0; break; }
		}
	}
};
