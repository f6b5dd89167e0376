// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=aligned_alloc -Wl,--wrap=memalign -Wl,--wrap=realloc
#include <stdarg.h>
#include "templates/function.h" // on its own, before anything else
#include "sysmem.h"
#include "m_world.h"
#include "m_function.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/string.h"
#include "templates/optional.h"
namespace pbt {
const char * PROPERTY = "C19";
const char * RULE = "a case is a history of binding, calling, copying, moving, assigning, unbinding and destroying several function objects (free-standing or in containers), compared with ideal closures that keep their own state, or one round of calls over the supported signatures; non-trivial: at least 3 calls and at least one copy or move (signatures: every case)";
}
static void history(Src & s)
{
	objs().reset(); FunctionM::begin(); sysmem::begin();
	{
		World<FunctionM> w(3); size_t ops = 6 + s.length(50), calls = 0;
		for (size_t i = 0; i < ops; ++i) { w.step(s, 12); w.verify(); w.verify_objects(); }
		for (auto & sl : w.xs) if (!sl.moved && sl.x->m.x.bound()) for (int k = 0; k < 2; ++k) { sl.x->call((int)s.below(100)); ++calls; }
		if (calls >= 3 && w.copies + w.moves) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu captured objects still alive after the functions", objs().live.size()); sysmem::end("function objects");
}
// Functions kept in containers
static void stored(Src & s)
{
	objs().reset(); FunctionM::begin(); sysmem::begin();
	using F = FunctionM::A;
	{
		Array<F> arr; List<F> lst; Map<int, F> map; Optional<F> opt; std::vector<fn::Model> ma; std::deque<fn::Model> ml; std::map<int, fn::Model> mm; bool has = false; fn::Model mo; size_t ops = 6 + s.length(40), calls = 0, copies = 0;
		auto call = [&](F & f, fn::Model & m, const char * where) { int x = (int)s.below(200) - 100; REQUIRE((bool)f == m.bound(), "%s: bound %d, expected %d", where, (bool)f, m.bound()); if (!m.bound()) return; int e = m.call(x, FunctionM::effects(), FunctionM::accs()); int r = f(x); note("%s: call(%d)", where, x); REQUIRE(r == e, "%s: target %d(%d) called with %d returns %d, expected %d", where, m.kind, m.p, x, r, e); REQ(fn::effects == FunctionM::effects()); ++calls; };
		for (size_t i = 0; i < ops; ++i)
		{
			fn::Model k; 
			switch (s.below(12))
			{
			case 0: case 1: { F f(FunctionM::build(k, s)); note("array add target %d(%d)", k.kind, k.p); if (s.coin()) { arr.add(f); ++copies; } else arr.add(std::move(f)); ma.push_back(k); break; }
			case 2: { size_t j = s.below(ma.size() + 1); F f(FunctionM::build(k, s)); note("array insertAt %zu target %d(%d)", j, k.kind, k.p); arr.insertAt(j, f); ++copies; ma.insert(ma.begin() + j, k); break; }
			case 3: if (!ma.empty()) { size_t j = s.below(ma.size()); note("array removeAt %zu", j); arr.removeAt(j); ma.erase(ma.begin() + j); } break;
			case 4: if (!ma.empty()) { size_t j = s.below(ma.size()), l = s.below(ma.size()); note("array [%zu] = [%zu]", j, l); arr[j] = static_cast<const F&>(arr[l]); ma[j] = fn::Model(ma[l]); ++copies; } break;
			case 5: { F f(FunctionM::build(k, s)); note("list push target %d(%d)", k.kind, k.p); if (s.coin()) { lst.pushBack(f); ml.push_back(k); } else { lst.pushFront(std::move(f)); ml.push_front(k); } ++copies; break; }
			case 6: if (!ml.empty()) { F f; note("list pop"); bool b = s.coin(); if (b) { lst.popBack(f); k = ml.back(); ml.pop_back(); } else { lst.popFront(f); k = ml.front(); ml.pop_front(); } call(f, k, "popped"); } break;
			case 7: { int key = s.below(6); F f(FunctionM::build(k, s)); note("map[%d] = target %d(%d)", key, k.kind, k.p); if (s.coin()) { map.insert(key, f); ++copies; } else map[key] = std::move(f); mm[key] = k; break; }
			case 8: if (!ma.empty()) { note("copy of the array"); Array<F> c(static_cast<const Array<F>&>(arr)); ++copies; size_t j = s.below(ma.size()); fn::Model x = ma[j]; call(c[j], x, "copied array"); if (s.coin()) { arr = std::move(c); ma[j] = x; } } break;
			case 9: { F f(FunctionM::build(k, s)); note("optional = target %d(%d)", k.kind, k.p); if (s.coin()) opt = f; else opt.emplace(std::move(f)); has = true; mo = k; ++copies; break; }
			case 10: if (has) { if (s.below(3) == 0) { note("optional reset"); opt.reset(); has = false; } else call(*opt, mo, "optional"); } break;
			case 11: if (!ma.empty()) { size_t j = s.below(ma.size()); call(arr[j], ma[j], "array"); } break;
			}
			REQ(arr.getCount() == ma.size() && lst.getLength() == ml.size() && map.getCount() == mm.size() && opt.hasValue() == has);
			size_t n = 0; for (auto & x : ma) n += x.objects(); for (auto & x : ml) n += x.objects(); for (auto & x : mm) n += x.second.objects(); if (has) n += mo.objects(); REQUIRE(objs().live.size() == n, "%zu captured objects alive, expected %zu", objs().live.size(), n);
		}
		for (size_t j = 0; j < ma.size(); ++j) call(arr[j], ma[j], "array"); size_t j = 0; for (auto & f : lst) call(f, ml[j++], "list"); for (auto & e : mm) call(map.find(e.first)->second, e.second, "map"); if (has) call(*opt, mo, "optional");
		if (calls >= 3 && copies) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu captured objects still alive", objs().live.size()); sysmem::end("stored function objects");
}
// Signatures
static int & pickref(int & a, int & b) { return a < b ? b : a; }
static void setref(int & x, const int & y) { x = y * 2; }
struct Only { Obj o; Only(int v) : o(v) {} Only(Only && x) : o(std::move(x.o)) {} Only(const Only &) = delete; };
static int eight(int a, long b, char c, double d, const Obj & e, Obj f, Obj * g, Obj && h) { f.set(f.get() + 1); int r = a + (int)b + c + (int)d + e.get() + f.get() + g->get() + h.get(); g->set(r); Obj taken(std::move(h)); return r; }
// Where a captured object really is: the compiler may not assume that it is where it should be
static uintptr_t real_address(const void * p) { static const void * volatile at; at = p; return (uintptr_t)at; }
template<size_t A> static void aligned_capture(int v, size_t size)
{
	struct alignas(A) Wide { int v; char c[A - sizeof(int)]; Wide(int v) : v(v) {} int operator()(int x) { REQUIRE(real_address(this) % A == 0, "captured state that must be aligned to %zu is at %p", A, (void*)this); return v += x; } };
	std::vector<void*> gaps; std::vector<std::unique_ptr<Function<int(int)>>> fs; Array<Function<int(int)>> arr; note("captures aligned to %zu", A);
	for (int i = 0; i < 6; ++i) { gaps.push_back(::malloc(8 + (size * 8 + i * 24) % 200)); fs.emplace_back(new Function<int(int)>(Wide(v + i))); REQ((*fs.back())(1) == v + i + 1); if (i & 1) { fs.emplace_back(new Function<int(int)>(static_cast<const Function<int(int)>&>(*fs.back()))); REQ((*fs.back())(1) == v + i + 2); } Wide named(v); Function<int(int)> g(named); REQ(g(2) == v + 2 && named.v == v); arr.add(g); }
	for (int i = 0; i < 6; ++i) REQ(arr[i](1) == v + 3); for (void * p : gaps) ::free(p);
}
static int quiet(int x) noexcept { return x * 3 + 1; }
static int sum_all(int n, ...) { va_list l; va_start(l, n); int r = 0; while (n--) r += va_arg(l, int); va_end(l); return r; }
static void signatures(Src & s)
{
	objs().reset(); sysmem::begin(); int a = s.below(100), b = s.below(100); note("signatures with %d, %d", a, b);
	{
		{ Function<int&(int&, int&)> f(pickref); int x = a, y = b; int & r = f(x, y); REQ(&r == (x < y ? &y : &x)); r = 1000; REQ((a < b ? y : x) == 1000); Function<int&(int&, int&)> g(f); REQ(&g(x, y) == (x < y ? &y : &x)); }
		{ Function<void(int&, const int&)> f(setref); int x = a; f(x, b); REQ(x == b * 2); bool hit = false; Function<void()> h([&hit] { hit = true; }); h(); REQ(hit); Function<void(int)> drop([&x](int y) { x = y; return y; }); drop(a); REQ(x == a); }
		{ Function<int(Only)> f([](Only o) { return o.o.get(); }); REQ(f(Only(a)) == a); Function<int(Only&&)> g([](Only && o) { Only t(std::move(o)); return t.o.get(); }); Only x(b); REQ(g(std::move(x)) == b); REQ(x.o.get() == -1); Function<Only(int)> mk([](int v) { return Only(v); }); REQ(mk(a).o.get() == a); int got = 0; Function<void(Only)> e([&got](Only o) { got = o.o.get(); }); e(Only(a)); REQ(got == a); Function<void(Only, int, Only)> e2([&got](Only o, int k, Only p) { got = o.o.get() + k * p.o.get(); }); e2(Only(a), 3, Only(b)); REQ(got == a + 3 * b); Function<void(Only&&)> e3([&got](Only && o) { Only t(std::move(o)); got = t.o.get(); }); Only y(b); e3(std::move(y)); REQ(got == b && y.o.get() == -1); Function<void(Obj)> e4([&got](Obj o) { got = o.get(); o.set(-5); }); Obj named(a); e4(named); REQ(got == a && named.get() == a); }
		{ Function<int(int, long, char, double, const Obj&, Obj, Obj*, Obj&&)> f(eight); Obj e(a), fo(b), go(3), h(4); int r = f(a, b, 'c', 2.0, e, fo, &go, std::move(h)); REQ(r == a + b + 'c' + 2 + a + b + 1 + 3 + 4); REQUIRE(fo.get() == b, "an argument passed by value was changed in the caller"); REQ(e.get() == a && go.get() == r && h.get() == -1); }
		{ Function<String(const String&, String)> f([](const String & x, String y) { String r(x); r += y; return r; }); std::string x((size_t)a, 'x'), y((size_t)b, 'y'); String sx(x.c_str()), sy(y.c_str()), r = f(sx, sy); REQ(std::string(*r, r.getLength()) == x + y); REQ(sx.getLength() == x.size() && sy.getLength() == y.size()); }
		{ Obj o(a); Function<int()> f; REQ(!f); { Obj tmp(b); f = [tmp, o] { return tmp.get() * 1000 + o.get(); }; } REQ(f && f() == b * 1000 + a); Function<int()> g(std::move(f)); REQUIRE(!f, "a function moved from by construction still reports itself bound"); REQ(g() == b * 1000 + a); f = [] { return 5; }; REQ(f() == 5); f = g; REQ(f() == b * 1000 + a && g() == f()); }
		{ Function<int()> f([p = Only(a)] { return p.o.get(); }); REQ(f() == a); Function<int()> g(std::move(f)); REQ(g() == a); f = std::move(g); REQ(f() == a); }
		{ struct alignas(64) Wide { char c[64]; int v; } w; w.v = a; Function<int()> f([w] { REQUIRE(real_address(&w) % 64 == 0, "captured state is misaligned"); return w.v; }); REQ(f() == a); Function<int()> g(f); REQ(g() == a); }
		switch (s.below(5)) { case 0: aligned_capture<16>(a, b); break; case 1: aligned_capture<32>(a, b); break; case 2: aligned_capture<64>(a, b); break; case 3: aligned_capture<128>(a, b); break; default: aligned_capture<1024>(a, b); }
		{ int n = 0; auto l = [n]() mutable { return ++n; }; Function<int()> f(l), g(f); REQ(f() == 1 && f() == 2); REQUIRE(g() == 1, "a copy shares the state of the original"); Function<int()> h(f); REQUIRE(h() == 3, "a copy does not have the state of the original"); REQ(f() == 3 && g() == 2); REQUIRE(l() == 1, "calling the function changed the functor it was built from"); }
		{ Function<int(int)> f(quiet), g(&quiet), h([](int x) noexcept { return x - 1; }); REQ(f(a) == a * 3 + 1 && g(b) == b * 3 + 1 && h(a) == a - 1); h = quiet; REQ(h(a) == a * 3 + 1); f = h; REQ(f(b) == g(b)); Function<int(int, int, int)> v(sum_all); REQ(v(2, a, b) == a + b); v = &sum_all; REQ(v(1, b, a) == b); }
		{ Function<int(int)> fact; fact = [&fact](int k) { return k <= 1 ? 1 : k * fact(k - 1); }; REQ(fact(a % 8) == [](int k) { int r = 1; while (k > 1) r *= k--; return r; }(a % 8)); }
		REQ(invoke([](int x, int & y) { y = x; return x + 1; }, a, b) == a + 1 && b == a);
	}
	REQUIRE(objs().live.empty(), "%zu objects still alive", objs().live.size()); sysmem::end("signatures"); nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"history", history, 240000, 1500000, "free-standing function objects"},
	{"stored", stored, 120000, 800000, "function objects in containers"},
	{"signatures", signatures, 20000, 80000, "argument and result kinds"},
};
}
