// REPLACE_SAN: -fsanitize=thread -fno-omit-frame-pointer
// NOFUZZ
#include <thread>
#include <atomic>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include "m_array.h"
#include "m_list.h"
#include "m_map.h"
#include "m_set.h"
#include "m_string.h"
#include "m_text.h"
#include "m_optional.h"
#include "m_nested.h"
#include "m_regex.h"
#include "templates/function.h"
#include "templates/atomic.h"
#include "algorithm/sort.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"
#include "math/math.h"
namespace pbt {
const char * PROPERTY = "C30";
const char * RULE = "a case is a set of threads, each with its own program: either every thread works on objects of its own (containers, texts, expressions, allocators, numbers) against its own model, or several threads read one object that none of them changes; the debug build runs under a race detector, which judges the accesses whatever the order they happened to run in; non-trivial: at least two threads with at least eight steps each";
}
// ---- what a thread does with an object of its own
struct Actor { virtual ~Actor() {} virtual void step(Src & s) = 0; virtual void verify() = 0; };
template<typename M> struct Machine : Actor { M x; void step(Src & s) override { x.step(s); } void verify() override { x.verify(); } };
struct Texts : Actor
{
	std::string m = "seed"; String a{"seed"};
	static std::string ref(const char * f, ...) { char b[700]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
	static std::string fold(std::string t) { for (char & c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
	static int sgn(int v) { return (v > 0) - (v < 0); }
	void step(Src & s) override
	{
		std::string t = gen_text(s, 80); int iv = s.integer<int>(); double dv = (double)s.range(-100000, 100000) / (1 + s.below(300));
		switch (s.below(8))
		{
		case 0: a = String::format("%s|%d|%g", t.c_str(), iv, dv); m = ref("%s|%d|%g", t.c_str(), iv, dv); break;
		case 1: { String x("a"); x += iv; x += ":"; x += dv; StringM::same(x, ref("a%d:%f", iv, dv), "numbers"); break; }
		case 2: { const String x(t.c_str()); int64 r = x.findIndex("ab"); size_t e = t.find("ab"); REQ(r == (e == std::string::npos ? -1 : (int64)e)); auto v = x.findAll('a'); REQ(v.getCount() == (size_t)std::count(t.begin(), t.end(), 'a')); break; }
		case 3: { String x(t.c_str()), u(x.toUpper()), l(x.toLower()); StringM::same(l, fold(t), "lower case"); REQ(u.icmp(l) == 0); REQ((u.cmp(l) == 0) == (std_of(u) == std_of(l))); break; }
		case 4: { String x(t.c_str()); x.replaceAll("a", "xyz"); std::string e = t; StringM::naive_replace(e, "a", "xyz"); StringM::same(x, e, "replaceAll"); break; }
		case 5: { std::string u = gen_text(s, 20); REQ(sgn(PlatformStrings::cmp(t.c_str(), u.c_str())) == sgn(::strcmp(t.c_str(), u.c_str()))); REQ(PlatformStrings::getLength(t.c_str()) == t.size()); break; }
		case 6: { a = String(t.c_str()); m = t; a += a; m += m; break; }
		default: { String x; x <<= iv; StringM::same(x, ref("%d", iv), "printed number"); x <<= dv; StringM::same(x, ref("%f", dv), "printed number"); break; }
		}
	}
	void verify() override { StringM::same(a, m, "text"); }
};
struct Sorting : Actor
{
	std::vector<int> v; Array<int> a;
	void step(Src & s) override
	{
		size_t n = s.length(60); v.clear(); a.clear(); for (size_t i = 0; i < n; ++i) { int x = s.below(50); v.push_back(x); a.add(x); }
		if (s.coin()) { Sort::quicksort(*a, *a + a.getCount(), ThreeWayCompare()); std::sort(v.begin(), v.end()); }
		else { auto c = [](int x, int y) { return (y > x) - (y < x); }; Sort::quicksort(*a, *a + a.getCount(), c); std::sort(v.begin(), v.end(), [](int x, int y) { return x > y; }); }
	}
	void verify() override { REQ(a.getCount() == v.size()); for (size_t i = 0; i < v.size(); ++i) REQUIRE(a[i] == v[i], "sorted item %zu is %d, expected %d", i, a[i], v[i]); }
};
struct Expressions : Actor
{
	std::unique_ptr<Re::Regex> re; Rx rx{Rx::Seq}; std::string pat;
	void step(Src & s) override
	{
		if (!re || s.below(4) == 0) { RxGen g(s, false); g.budget = 60; rx = g.expression(); pat = RxGen::render(rx); re.reset(); re.reset(new Re::Regex{String(pat.c_str())}); }
		RxGen g(s, false); std::string t = g.text(rx); bool e = RxMatcher(t).accepts(rx), r = re->accept((const ansichar*)t.c_str());
		REQUIRE(r == e, "/%s/ %s %s", pbt::show(pat).c_str(), r ? "accepts" : "rejects", pbt::show(t).c_str());
		if (s.below(6) == 0) { String P(pat.c_str()), T(t.c_str()); REQ(Re::accept(P, T) == e); }
	}
	void verify() override {}
};
struct Calls : Actor
{
	Function<int(int)> f; int k = 0, n = 0, kind = 0;
	void step(Src & s) override
	{
		int x = s.below(100);
		switch (s.below(4))
		{
		case 0: k = s.below(50); kind = 1; n = 0; { int p = k; f = [p](int y) { return p + y; }; } break;
		case 1: k = s.below(50); kind = 2; n = 0; { int p = k, c = 0; std::string text(40, 'x'); f = [p, c, text](int y) mutable { return p + y + c++ + (int)text.size(); }; } break;
		case 2: { Function<int(int)> g(f); f = g; break; }
		default: if (kind) { int e = kind == 1 ? k + x : k + x + n++ + 40; REQ(f(x) == e); }
		}
	}
	void verify() override { REQ((bool)f == (kind != 0)); }
};
// Allocators of its own
template<typename M> struct Blocks : Actor
{
	M m; std::map<char*, std::pair<size_t, char>> live;
	template<typename ... X> Blocks(X && ... x) : m(std::forward<X>(x)...) {}
	void step(Src & s) override
	{
		if (live.size() < 30 && s.below(3))
		{
			size_t n = 1 + s.below(24); char * p = (char*)m.alloc(n, 8); REQUIRE(p, "no block of %zu bytes", n); auto i = live.upper_bound(p);
			if (i != live.end()) REQ(p + n <= i->first); if (i != live.begin()) { --i; REQ(i->first + i->second.first <= p); }
			char c = s.below(256); ::memset(p, c, n); live[p] = {n, c};
		}
		else if (!live.empty()) { auto i = live.begin(); std::advance(i, s.below(live.size())); m.free(i->first); live.erase(i); }
	}
	void verify() override { for (auto & b : live) for (size_t i = 0; i < b.second.first; ++i) REQUIRE(b.first[i] == b.second.second, "a block changed"); }
	~Blocks() { for (auto & b : live) m.free(b.first); }
};
struct SizeClasses : Blocks<MallocBinned> { static const MallocBinned::BucketInfo & info() { static const MallocBinned::BucketInfo i{4096, 8, 256, 2}; return i; } SizeClasses() : Blocks<MallocBinned>(info(), 16) {} };
struct Growing : Blocks<MallocPooled> { Growing() : Blocks<MallocPooled>(8u, 24u, 8u, 1u) {} };
struct Numbers : Actor
{
	void step(Src & s) override
	{
		float a = s.range(-50, 50), b = 1 + s.below(20), c = s.range(-9, 9), d = 1 + s.below(9); Vec3<float32> x(a, b, c), y(d, a, b); Vec4<float32> u(a, b, c, d), v(d, c, b, a);
		REQ((x + y).y == b + a && (x - y).x == a - d && (x * 2.f).z == c * 2); REQ((u + v).w == d + a && (u * v).y == b * c);
		float n = x.getSquaredSize(); REQ(n == a * a + b * b + c * c); REQ(std::fabs(x.getNormal().getSize() - 1) < 1e-4);
		Quat q(c, y.getNormal()); Vec3<float32> z = q * x; REQUIRE(std::fabs(z.getSquaredSize() - n) <= 1e-3f * n, "a rotation changed a length");
		unsigned w = s.integer<unsigned>() | 1; REQ(PlatformMath::log2((uint64)w) == (uint32)(63 - __builtin_clzll(w))); REQ(PlatformMath::max((int)a, (int)b) == std::max((int)a, (int)b));
	}
	void verify() override {}
};
static const struct { const char * name; Actor * (*make)(); } KINDS[] = {
	{"String", [] { return (Actor*)new Machine<StringM>; }}, {"texts", [] { return (Actor*)new Texts; }},
	{"Array<int>", [] { return (Actor*)new Machine<ArrayM<int>>; }}, {"Array of objects", [] { return (Actor*)new Machine<ArrayM<Obj>>; }}, {"Array<char>", [] { return (Actor*)new Machine<ArrayM<char>>; }},
	{"List", [] { return (Actor*)new Machine<ListM<int>>; }}, {"List of objects", [] { return (Actor*)new Machine<ListM<Obj>>; }},
	{"Map", [] { return (Actor*)new Machine<MapM<int, int>>; }}, {"Map of objects", [] { return (Actor*)new Machine<MapM<Obj, Obj>>; }}, {"Map of texts", [] { return (Actor*)new Machine<MapM<String, String>>; }},
	{"Set", [] { return (Actor*)new Machine<SetM<int>>; }}, {"Set of texts", [] { return (Actor*)new Machine<SetM<String>>; }},
	{"Tree", [] { return (Actor*)new Machine<TreeM<int, TensCompare<int>>>; }}, {"Optional", [] { return (Actor*)new Machine<OptionalM<Obj>>; }},
	{"arrays in an array", [] { return (Actor*)new Machine<ArrayOfArrays>; }}, {"lists in a map", [] { return (Actor*)new Machine<MapOfLists>; }},
	{"sorting", [] { return (Actor*)new Sorting; }}, {"expressions", [] { return (Actor*)new Expressions; }}, {"functions", [] { return (Actor*)new Calls; }},
	{"size-class allocator", [] { return (Actor*)new SizeClasses; }}, {"growing pool", [] { return (Actor*)new Growing; }}, {"numbers", [] { return (Actor*)new Numbers; }},
};
static constexpr size_t NKINDS = sizeof KINDS / sizeof *KINDS;

struct Gate { std::atomic<int> waiting; Gate(int n) : waiting(n) {} void pass() { --waiting; while (waiting.load() > 0) sched_yield(); } };
static std::vector<uint32_t> program(Src & s, size_t max) { std::vector<uint32_t> c; size_t n = 8 + s.below(max); for (size_t i = 0; i < n; ++i) c.push_back(s.below(65536)); return c; }
template<typename F> static void threads(size_t n, F && body)
{
	Gate g((int)n); std::vector<std::thread> t;
	for (size_t i = 0; i < n; ++i) t.emplace_back([&, i] { pbt::quiet = true; g.pass(); body(i); });
	for (auto & x : t) x.join();
}
// Every thread has objects of its own
static void separate(Src & s)
{
	size_t n = 2 + s.below(3), same = s.below(2), first = s.below(NKINDS); std::vector<std::vector<uint32_t>> prog; std::vector<size_t> kind; 
	for (size_t i = 0; i < n; ++i) { kind.push_back(same ? first : i ? s.below(NKINDS) : first); prog.push_back(program(s, 150)); note("thread %zu: %s, %zu choices", i, KINDS[kind[i]].name, prog[i].size()); label(KINDS[kind[i]].name); }
	std::vector<size_t> steps(n);
	threads(n, [&](size_t i) {
		Src own(prog[i].data(), prog[i].size()); std::unique_ptr<Actor> a(KINDS[kind[i]].make());
		while (!own.spent()) { a->step(own); a->verify(); ++steps[i]; }
		a.reset(); REQUIRE(objs().live.empty(), "%zu elements alive after the thread's objects", objs().live.size());
	});
	bool enough = true; for (size_t k : steps) if (k < 8) enough = false; if (enough) nontrivial();
}
// Several threads read an object which nobody changes
template<typename T> static void read_array(Src & s)
{
	using E = Elem<T>; ArrayM<T> x; size_t n = s.length(60); for (size_t i = 0; i < n; ++i) { x.m.push_back(s.below(100)); x.a.add(E::make(x.m.back())); } if (s.coin()) { Array<T> c(x.a); x.a = c; }
	const Array<T> & a = x.a; const std::vector<int> & m = x.m; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 40)); note("%s of %zu, %zu readers", x.kind().c_str(), m.size(), k); label("Array");
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size());
		while (!r.spent()) switch (r.below(5))
		{
		case 0: REQ(a.getCount() == m.size() && a.isEmpty() == m.empty()); break;
		case 1: if (!m.empty()) { size_t i = r.below(m.size()); REQ(E::read(a[i]) == m[i]); } break;
		case 2: { size_t i = 0; for (const auto & y : a) { REQ(E::read(y) == m[i]); ++i; } REQ(i == m.size()); break; }
		case 3: { Array<T> c(a); c.add(E::make(7)); for (size_t i = 0; i < m.size(); ++i) REQ(E::read(c[i]) == m[i]); break; }
		default: { Array<T> c; c = a; REQ(c.getCount() == m.size()); if (!m.empty()) { c.removeAt(0); c.insertAt(0, a[0]); REQ(E::read(c[0]) == m[0]); } }
		}
	});
	nontrivial();
}
template<typename T> static void read_list(Src & s)
{
	using E = Elem<T>; List<T> l; std::vector<int> m; size_t n = s.length(40); for (size_t i = 0; i < n; ++i) { m.push_back(s.below(100)); l.pushBack(E::make(m.back())); }
	const List<T> & a = l; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 40)); note("list of %zu, %zu readers", m.size(), k); label("List");
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size());
		while (!r.spent()) switch (r.below(3))
		{
		case 0: REQ(a.getLength() == m.size()); break;
		case 1: { size_t i = 0; for (const auto & y : a) { REQ(E::read(y) == m[i]); ++i; } REQ(i == m.size()); break; }
		default: { List<T> c(a); c.pushFront(E::make(7)); REQ(c.getLength() == m.size() + 1); size_t i = 0; for (auto & y : c) { if (i) REQ(E::read(y) == m[i - 1]); ++i; } }
		}
	});
	nontrivial();
}
template<typename K, typename V> static void read_map(Src & s)
{
	using EK = Elem<K>; using EV = Elem<V>; Map<K, V> x; std::map<int, int> m; size_t n = s.length(40); for (size_t i = 0; i < n; ++i) { int q = s.below(50), v = s.below(90); x.insert(EK::make(q), EV::make(v)); m[q] = v; }
	const Map<K, V> & a = x; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 40)); note("map of %zu, %zu readers", m.size(), k); label("Map");
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size());
		while (!r.spent()) switch (r.below(4))
		{
		case 0: { int q = r.below(50); REQ(a.has(EK::make(q)) == (bool)m.count(q)); V out(EV::make(1)); bool f = a.find(EK::make(q), out); REQ(f == (bool)m.count(q)); if (f) REQ(EV::read(out) == m.at(q)); break; }
		case 1: { int q = r.below(50); auto it = a.find(EK::make(q)); REQ((it != a.end()) == (bool)m.count(q)); if (it != a.end()) REQ(EV::read(it->second) == m.at(q)); break; }
		case 2: { auto e = m.begin(); for (auto it = a.begin(); it != a.end(); ++it, ++e) { REQ(e != m.end()); REQ(EK::read(it->first) == e->first && EV::read(it->second) == e->second); } REQ(e == m.end()); REQ(a.getCount() == m.size()); break; }
		default: { Map<K, V> c(a); c.insert(EK::make(99), EV::make(1)); REQ(c.getCount() == m.size() + 1 && a.getCount() == m.size()); }
		}
	});
	nontrivial();
}
template<typename T> static void read_set(Src & s)
{
	using E = Elem<T>; SetM<T> x, y; size_t n = s.length(30); for (size_t i = 0; i < n; ++i) { int v = s.below(24); x.a.set(E::make(v)); x.m.insert(v); } n = s.length(20); for (size_t i = 0; i < n; ++i) { int v = s.below(24); y.a.set(E::make(v)); y.m.insert(v); }
	const auto & a = x.a; const auto & b = y.a; const auto & m = x.m; const auto & o = y.m; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 40)); note("sets of %zu and %zu, %zu readers", m.size(), o.size(), k); label("Set");
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size()); using Mo = typename SetM<T>::Model;
		while (!r.spent()) switch (r.below(4))
		{
		case 0: { int v = r.below(24); REQ(a.get(E::make(v)) == (bool)m.count(v)); T out(E::make(1)); REQ(a.get(E::make(v), out) == (bool)m.count(v)); break; }
		case 1: SetM<T>::same(a, m, "read set"); break;
		case 2: { Mo u(m), i, d; u.insert(o.begin(), o.end()); for (int v : m) (o.count(v) ? i : d).insert(v); SetM<T>::same(a + b, u, "union"); SetM<T>::same(a * b, i, "intersection"); SetM<T>::same(a - b, d, "difference"); break; }
		default: REQ((a <= b) == std::includes(o.begin(), o.end(), m.begin(), m.end())); REQ((a == b) == (m == o)); REQ((a != b) == (m != o));
		}
	});
	nontrivial();
}
static void read_text(Src & s)
{
	std::string m = gen_text(s, 200), w = gen_text(s, 60); String x(m.c_str()), y(w.c_str()); if (s.coin()) { x += y; m += w; }
	const String & a = x; const String & b = y; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 40)); note("text of %zu, %zu readers", m.size(), k); label("String");
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size());
		while (!r.spent()) switch (r.below(9))
		{
		case 0: StringM::same(a, m, "read text"); break;
		case 1: { size_t q = r.below(m.size() + 1), l = r.below(m.size() - q + 1); StringM::same(a.substr(l, q), m.substr(q, l), "substring"); break; }
		case 2: { String c(a); c += '!'; StringM::same(c, m + "!", "copy"); break; }
		case 3: StringM::same(a + b, m + w, "sum"); break;
		case 4: { REQ(Texts::sgn(a.cmp(b)) == Texts::sgn(::strcmp(m.c_str(), w.c_str()))); REQ((a == b) == (m == w)); break; }
		case 5: { REQ(a.findIndex(b) == (m.find(w) == std::string::npos ? -1 : (int64)m.find(w))); REQ(a.findAll('a').getCount() == (size_t)std::count(m.begin(), m.end(), 'a')); break; }
		case 6: { StringM::same(a.toLower(), Texts::fold(m), "lower case"); REQ(a.toUpper().icmp(a) == 0); break; }
		case 7: { String c(String::format("%s-%s", *a, *b)); StringM::same(c, m + "-" + w, "format"); break; }
		default: { String c(w.c_str()); c.splice(0, c.getLength(), a); StringM::same(c, m, "spliced text"); c.replaceAll(a, b); if (!m.empty()) StringM::same(c, w, "replaced text"); }
		}
	});
	nontrivial();
}
static void read_expression(Src & s)
{
	RxGen g(s, false); g.budget = 80; Rx rx = g.expression(); std::string pat = RxGen::render(rx); std::vector<std::string> texts; for (int i = 0; i < 6; ++i) texts.push_back(g.text(rx));
	const String P(pat.c_str()); const Re::Regex re{P}; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 30)); note("/%s/, %zu readers", pbt::show(pat).c_str(), k); label("Regex");
	std::vector<String> T; for (auto & t : texts) T.push_back(String(t.c_str()));
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size());
		while (!r.spent())
		{
			size_t i = r.below(texts.size()); bool e = RxMatcher(texts[i]).accepts(rx), v = r.below(8) == 0 ? Re::accept(P, T[i]) : r.coin() ? re.accept((const ansichar*)texts[i].c_str()) : re.accept(T[i]);
			REQUIRE(v == e, "/%s/ %s %s", pbt::show(pat).c_str(), v ? "accepts" : "rejects", pbt::show(texts[i]).c_str());
		}
	});
	nontrivial();
}
static void read_function(Src & s)
{
	int c = s.below(50); std::string text(s.below(60), 'x'); Function<int(int)> x([c, text](int y) { return c + y + (int)text.size(); }); Optional<String> v; if (s.coin()) v = String(text.c_str());
	const auto & f = x; const auto & o = v; size_t k = 2 + s.below(3); auto p = std::vector<std::vector<uint32_t>>(); for (size_t i = 0; i < k; ++i) p.push_back(program(s, 30)); note("a function and an optional, %zu readers", k); label("Function, Optional");
	threads(k, [&](size_t t) {
		Src r(p[t].data(), p[t].size());
		while (!r.spent()) switch (r.below(3))
		{
		case 0: { int y = r.below(100); REQ(f(y) == c + y + (int)text.size()); break; }
		case 1: { Function<int(int)> g(f); REQ(g(1) == c + 1 + (int)text.size()); break; }
		default: if (o.hasValue()) { StringM::same(*o, text, "optional text"); Optional<String> q(o); *q += "!"; StringM::same(*q, text + "!", "copied optional text"); }
		}
	});
	nontrivial();
}
static void readers(Src & s)
{
	switch (s.below(12))
	{
	case 0: return read_text(s); case 1: return read_array<int>(s); case 2: return read_array<String>(s); case 3: return read_array<char>(s); case 4: return read_list<int>(s); case 5: return read_list<String>(s);
	case 6: return read_map<int, int>(s); case 7: return read_map<String, String>(s); case 8: return read_set<int>(s); case 9: return read_set<String>(s); case 10: return read_expression(s); default: return read_function(s);
	}
}
// The library's very first use in a process, by several threads: whatever is made on first use
static void fresh(Src & s)
{
	bool own = s.chance(2, 3); std::vector<uint32_t> v; for (size_t n = 60 + s.below(600); n; --n) v.push_back(s.below(65536));
	fflush(stdout); fflush(stderr); pid_t p = fork(); REQUIRE(p >= 0, "harness: fork");
	if (!p) { Src r(v.data(), v.size()); (own ? separate : readers)(r); _exit(0); }
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(98); }
	if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
	label("new processes"); nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"fresh", fresh, 2500, 60000, "the first use of the library in a process is made by several threads", true},
	{"separate", separate, 5000, 100000, "every thread has objects of its own", true},
	{"readers", readers, 4000, 80000, "several threads read one object", true},
};
}
