// Memory and C-string primitives against byte-by-byte definitions, on buffers of exact size
#include "support.h"
#include "hal/platform_strings.h"
#include "templates/types.h"
#include "templates/utility.h"
#include "m_only.h"
using PM = PlatformMemory; using PS = PlatformStrings;
static int sg(int64_t v) { return (v > 0) - (v < 0); }
struct Buf { unsigned char * p; size_t n; Buf(size_t n) : p((unsigned char*)malloc(n ? n : 1)), n(n) {} Buf(const std::vector<unsigned char> & v) : Buf(v.size()) { if (n) memcpy(p, v.data(), n); } ~Buf() { free(p); } Buf(const Buf &) = delete; bool is(const std::vector<unsigned char> & v) const { return v.size() == n && (!n || !::memcmp(p, v.data(), n)); } };
static std::vector<unsigned char> bytes(Src & s, size_t n) { std::vector<unsigned char> v(n); unsigned k = s.pick<unsigned>({2, 256}); for (auto & b : v) b = (unsigned char)(s.below(k) * (k == 2 ? 0x80 : 1)); return v; }
static void raw(Src & s)
{
	size_t n = s.length(300); auto v = bytes(s, n), w = bytes(s, n); note("%zu bytes", n);
	{ size_t k = s.below(n + 1), a = s.below(n - k + 1), b = s.below(n - k + 1); note("copy %zu bytes from %zu to %zu", k, a, b); Buf x(v), y(w); void * r = PM::memcpy(y.p + b, x.p + a, k); auto e = w; std::copy(v.begin() + a, v.begin() + a + k, e.begin() + b); REQUIRE(y.is(e), "copying %zu bytes", k); REQ(x.is(v)); REQ(r == y.p + b); if (k > 2 && a != b) nontrivial(); }
	{ size_t k = s.below(n + 1), a = s.below(n - k + 1), b = s.coin() ? s.below(n - k + 1) : std::min(n - k, a + s.below(8)); note("move %zu bytes from %zu to %zu", k, a, b); Buf x(v); void * r = PM::memmov(x.p + b, x.p + a, k); auto e = v; std::vector<unsigned char> t(v.begin() + a, v.begin() + a + k); std::copy(t.begin(), t.end(), e.begin() + b); REQUIRE(x.is(e), "moving %zu bytes from %zu to %zu, overlapping", k, a, b); REQ(r == x.p + b); if (k > 2 && a != b) nontrivial(); }
	{ auto u = v; size_t d = n ? s.below(n) : 0; if (n && s.coin()) u[d] = (unsigned char)s.below(256); if (n && s.chance(1, 3)) u[s.below(n)] ^= 0x80; size_t k = s.below(n + 1); Buf x(std::vector<unsigned char>(v.begin(), v.begin() + k)), y(std::vector<unsigned char>(u.begin(), u.begin() + k)); int e = 0; for (size_t i = 0; i < k && !e; ++i) e = (int)v[i] - (int)u[i]; int g = PM::memcmp(x.p, y.p, k), h = PM::memcmp(y.p, x.p, k); REQUIRE(sg(g) == sg(e), "comparison of %zu bytes is %d, first difference %d", k, g, e); REQUIRE(sg(h) == -sg(e), "comparison the other way round is %d, first difference %d", h, e); REQ(PM::memcmp(x.p, x.p, k) == 0); }
}
// Slots of raw memory, some of which hold elements
template<typename T> struct Slots
{
	T * p; size_t n; Slots(size_t n) : p((T*)malloc(n ? n * sizeof(T) : 1)), n(n) { memset((void*)p, 0xA5, n * sizeof(T)); } ~Slots() { ::free((void*)p); } Slots(const Slots &) = delete;
	void put(size_t i, int v) { new (p + i) T(Elem<T>::make(v)); } void drop(size_t i) { p[i].~T(); } bool raw(size_t i) const { for (size_t k = 0; k < sizeof(T); ++k) if (((unsigned char*)(p + i))[k] != 0xA5) return false; return true; }
	bool alive(size_t i) const { return objs().live.count(p + i); }
};
// Copied and destroyed trivially, but not constructed trivially
struct Init { int a = 5; short b = 6; bool operator==(const Init & o) const { return a == o.a && b == o.b; } };
template<> struct Elem<Init> { static Init make(int v) { Init i; i.a = v; return i; } static int read(const Init & t) { REQUIRE(t.b == 6, "torn element"); return t.a; } static const char * name() { return "plain object with initial values"; } static constexpr bool counted = false; };
template<typename T> static void elements(Src & s)
{
	constexpr bool C = Elem<T>::counted; objs().reset();
	{
		size_t n = 1 + s.length(60), k = s.below(n + 1), at = s.below(n - k + 1), from = s.below(n - k + 1); std::vector<int> v(n), w(n); for (auto & x : v) x = 1 + s.below(100); for (auto & x : w) x = 1 + s.below(100);
		Slots<T> a(n), b(n); for (size_t i = 0; i < n; ++i) a.put(i, v[i]);
		auto whole = [&](const Slots<T> & x, const std::vector<int> & e, const char * what) { for (size_t i = 0; i < n; ++i) REQUIRE(Elem<T>::read(x.p[i]) == e[i], "%s: item %zu is %d, expected %d", what, i, Elem<T>::read(x.p[i]), e[i]); };
		int op = s.below(6); static const char * OP[] = {"constructDefaultElements", "constructCopyElements", "copyElements", "moveElements", "relocateElements", "destroyElements"}; note("%s of %s: %zu of %zu items from %zu to %zu", OP[op], Elem<T>::name(), k, n, from, at);
		switch (op)
		{
		case 0: PM::constructDefaultElements(b.p + at, b.p + at + k); for (size_t i = 0; i < n; ++i) { bool in = i >= at && i < at + k; if (!in) REQUIRE(b.raw(i), "slot %zu outside of the range was touched", i); else if constexpr (C) { REQUIRE(b.alive(i) && b.p[i].get() == 0, "item %zu not constructed", i); b.drop(i); } else if constexpr (std::is_same<T, Init>::value) REQUIRE(b.p[i] == Init(), "item %zu is not initialised", i); } break;
		case 1: if constexpr (std::is_copy_constructible<T>::value) { PM::constructCopyElements(b.p + at, static_cast<const T*>(a.p + from), k); whole(a, v, "source"); for (size_t i = 0; i < n; ++i) { if (i >= at && i < at + k) { REQUIRE(Elem<T>::read(b.p[i]) == v[from + i - at], "item %zu is %d, expected %d", i, Elem<T>::read(b.p[i]), v[from + i - at]); b.drop(i); } else REQUIRE(b.raw(i), "slot %zu outside of the range was touched", i); } } break;
		case 2: if constexpr (std::is_copy_constructible<T>::value) { for (size_t i = 0; i < n; ++i) b.put(i, w[i]); PM::copyElements(b.p + at, static_cast<const T*>(a.p + from), k); whole(a, v, "source"); for (size_t i = 0; i < k; ++i) w[at + i] = v[from + i]; whole(b, w, "destination"); for (size_t i = 0; i < n; ++i) b.drop(i); } break;
		case 3:
		{	// within one buffer, overlapping
			auto e = v; for (size_t i = 0; i < k; ++i) e[at + i] = v[from + i]; PM::moveElements(a.p + at, a.p + from, k);
			for (size_t i = 0; i < n; ++i) { bool dst = i >= at && i < at + k, src = i >= from && i < from + k; if (dst || !src) REQUIRE(Elem<T>::read(a.p[i]) == e[i], "item %zu is %d, expected %d", i, Elem<T>::read(a.p[i]), e[i]); else if constexpr (C) a.p[i].get(); } break;
		}
		case 4:
		{
			if (s.coin()) { PM::relocateElements(b.p + at, a.p + from, k); for (size_t i = 0; i < n; ++i) { bool in = i >= at && i < at + k; if (in) REQUIRE(Elem<T>::read(b.p[i]) == v[from + i - at], "item %zu is %d, expected %d", i, Elem<T>::read(b.p[i]), v[from + i - at]); else REQUIRE(b.raw(i), "slot %zu outside of the range was touched", i); bool gone = i >= from && i < from + k; if constexpr (C) REQUIRE(a.alive(i) == !gone, "source item %zu is %s", i, gone ? "still alive" : "gone"); if (!gone) REQUIRE(Elem<T>::read(a.p[i]) == v[i], "source item %zu outside of the range changed", i); else a.put(i, 1); if (in) { /* dropped below */ } } for (size_t i = at; i < at + k; ++i) b.drop(i); break; }
			// overlapping: everything but the moved items is raw memory
			for (size_t i = 0; i < n; ++i) if (i < from || i >= from + k) a.drop(i);
			PM::relocateElements(a.p + at, a.p + from, k);
			for (size_t i = 0; i < n; ++i) { bool in = i >= at && i < at + k; if constexpr (C) REQUIRE(a.alive(i) == in, "slot %zu %s", i, in ? "not constructed" : "still holds an item"); if (in) REQUIRE(Elem<T>::read(a.p[i]) == v[from + i - at], "item %zu is %d, expected %d", i, Elem<T>::read(a.p[i]), v[from + i - at]); else a.put(i, 1); } break;
		}
		default: PM::destroyElements(a.p + at, a.p + at + k); for (size_t i = 0; i < n; ++i) { bool gone = i >= at && i < at + k; if constexpr (C) REQUIRE(a.alive(i) == !gone, "item %zu is %s", i, gone ? "still alive" : "gone"); if (!gone) REQUIRE(Elem<T>::read(a.p[i]) == v[i], "item %zu outside of the range changed", i); else a.put(i, 1); } break;
		}
		for (size_t i = 0; i < n; ++i) a.drop(i); if (k >= 2 && (op < 3 || at != from)) nontrivial();
	}
	REQUIRE(objs().live.empty(), "%zu items still alive", objs().live.size());
}
// Constructed as bytes, but assigned by a function of its own
static void assigned(Src & s)
{
	size_t n = 1 + s.length(40), k = s.below(n + 1), at = s.below(n - k + 1), from = s.below(n - k + 1); bool mv = s.coin(); std::vector<Homed> a, b; for (size_t i = 0; i < n; ++i) { a.emplace_back((int)s.below(100)); b.emplace_back((int)s.below(100)); } auto x = a, y = b; note("%s of objects assigned by a function of their own: %zu of %zu from %zu to %zu", mv ? "moveElements" : "copyElements", k, n, from, at);
	if (mv) { PM::moveElements(a.data() + at, a.data() + from, k); for (size_t i = 0; i < n; ++i) { int e = i >= at && i < at + k ? x[from + i - at].value : x[i].value; REQUIRE(a[i].value == e, "item %zu is %d, expected %d", i, a[i].value, e); REQUIRE(a[i].home == x[i].home, "item %zu was not assigned but overwritten", i); } }
	else { PM::copyElements(b.data() + at, static_cast<const Homed*>(a.data() + from), k); for (size_t i = 0; i < n; ++i) { int e = i >= at && i < at + k ? x[from + i - at].value : y[i].value; REQUIRE(b[i].value == e, "item %zu is %d, expected %d", i, b[i].value, e); REQUIRE(b[i].home == y[i].home, "item %zu was not assigned but overwritten", i); REQ(a[i].value == x[i].value); } }
	if (k >= 2) nontrivial();
}
static void all_elements(Src & s) { switch (s.below(11)) { case 8: elements<Init>(s); break; case 7: elements<Self>(s); break; case 0: elements<int>(s); break; case 1: elements<char>(s); break; case 2: elements<Pod>(s); break; case 3: elements<double>(s); break; case 4: elements<ObjT<40>>(s); break; case 9: elements<Unique>(s); break; case 10: assigned(s); break; default: elements<Obj>(s); } }
// NUL-free texts that share prefixes, differ in case or in the sign bit
static std::string text(Src & s, const std::string * like)
{
	std::string t; if (like && s.chance(4, 5)) { t = *like; if (t.size() && s.coin()) t.resize(s.below(t.size() + 1)); if (t.size() && s.coin()) { size_t i = s.below(t.size()); char c = t[i]; switch (s.below(4)) { case 0: t[i] = (char)(1 + s.below(255)); break; case 1: t[i] = (char)(c ^ 0x20); if (!t[i]) t[i] = 1; break; case 2: t[i] = (char)(c ^ 0x80); if (!t[i]) t[i] = 1; break; default: for (auto & d : t) if (s.coin()) { if (d >= 'a' && d <= 'z') d -= 32; else if (d >= 'A' && d <= 'Z') d += 32; } } } if (s.chance(1, 4)) t += (char)(1 + s.below(255)); return t; }
	size_t n = s.length(80); unsigned k = s.below(4); for (size_t i = 0; i < n; ++i) t += k == 0 ? (char)(1 + s.below(255)) : k == 1 ? s.pick<char>({'a', 'A', 'b', 'B'}) : k == 2 ? s.pick<char>({'z', 'Z', '{', '[', '@', '`', '\x7f', '\x80', '\xff', '_'}) : (char)('0' + s.below(75)); return t;
}
struct CStr { char * p; CStr(const std::string & t) : p((char*)malloc(t.size() + 1)) { memcpy(p, t.c_str(), t.size() + 1); } ~CStr() { free(p); } CStr(const CStr &) = delete; };
static std::string lower(std::string t) { for (auto & c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static int order(const std::string & a, const std::string & b) { size_t i = 0; for (; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
static void strings(Src & s)
{
	std::string t[3]; t[0] = text(s, nullptr); t[1] = text(s, &t[0]); t[2] = text(s, s.coin() ? &t[0] : &t[1]); for (auto & x : t) note("%s", pbt::show(x).c_str());
	CStr p[3] = {t[0], t[1], t[2]}; for (int i = 0; i < 3; ++i) REQUIRE(PS::getLength(p[i].p) == t[i].size(), "length is %zu, expected %zu", (size_t)PS::getLength(p[i].p), t[i].size());
	int c[3][3], ic[3][3];
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
	{
		int e = order(t[i], t[j]), ie = order(lower(t[i]), lower(t[j])); c[i][j] = sg(PS::cmp(p[i].p, p[j].p)); ic[i][j] = sg(PS::icmp(p[i].p, p[j].p));
		REQUIRE(c[i][j] == e, "cmp(%s, %s) has sign %d, expected %d", pbt::show(t[i]).c_str(), pbt::show(t[j]).c_str(), c[i][j], e); REQUIRE(ic[i][j] == ie, "icmp(%s, %s) has sign %d, expected %d", pbt::show(t[i]).c_str(), pbt::show(t[j]).c_str(), ic[i][j], ie);
		// bounded: not further than the terminators; a bound beyond a difference is not reached
		size_t shorter = std::min(t[i].size(), t[j].size()), start = s.below(shorter + 1), len = s.below(shorter + 2 - start); std::string a = t[i].substr(start, len), b = t[j].substr(start, len); e = order(a, b); ie = order(lower(a), lower(b));
		int g = sg(PS::cmpn(p[i].p, p[j].p, len, start)), h = sg(PS::icmpn(p[i].p, p[j].p, len, start));
		REQUIRE(g == e, "cmpn(%s, %s, %zu, %zu) has sign %d, expected %d", pbt::show(t[i]).c_str(), pbt::show(t[j]).c_str(), len, start, g, e); REQUIRE(h == ie, "icmpn(%s, %s, %zu, %zu) has sign %d, expected %d", pbt::show(t[i]).c_str(), pbt::show(t[j]).c_str(), len, start, h, ie);
		if (start == 0) REQ(sg(PS::cmpn(p[i].p, p[j].p, len)) == g && sg(PS::icmpn(p[i].p, p[j].p, len)) == h);
		// exact heap copies without terminator: the bound is all that may be read
		{ std::vector<unsigned char> x(t[i].begin(), t[i].begin() + std::min(start + len, t[i].size())), y(t[j].begin(), t[j].begin() + std::min(start + len, t[j].size())); if (x.size() == start + len && y.size() == start + len) { Buf q(x), r(y); REQ(sg(PS::cmpn((char*)q.p, (char*)r.p, len, start)) == g && sg(PS::icmpn((char*)q.p, (char*)r.p, len, start)) == h); } }
		if (a != b || (len > shorter - start && t[i].size() != t[j].size())) { size_t far = len + s.below(100); int z = order(t[i].substr(start), t[j].substr(start)); (void)z; int u = sg(PS::cmpn(p[i].p, p[j].p, far, start)); REQUIRE(u == order(t[i].substr(start, far), t[j].substr(start, far)), "cmpn with a bound beyond the difference"); }
		if (i != j && shorter >= 2 && t[i][0] == t[j][0] && e != 0) nontrivial();
	}
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { REQ(c[i][j] == -c[j][i] && ic[i][j] == -ic[j][i]); if (c[i][j] == 0) REQ(ic[i][j] == 0); for (int k = 0; k < 3; ++k) { if (c[i][j] <= 0 && c[j][k] <= 0) REQ(c[i][k] <= 0); if (ic[i][j] <= 0 && ic[j][k] <= 0) REQ(ic[i][k] <= 0); } }
}
// every pair of characters
static void characters(Src & s)
{
	unsigned a = 1 + s.below(255); std::string pre = s.coin() ? "x" : ""; note("character %#x against all others", a); for (unsigned b = 1; b < 256; ++b) { std::string x = pre + (char)a, y = pre + (char)b; CStr p(x), q(y); int e = order(x, y), ie = order(lower(x), lower(y)); REQUIRE(sg(PS::cmp(p.p, q.p)) == e && sg(PS::cmpn(p.p, q.p, x.size())) == e, "comparison of %#x and %#x", a, b); REQUIRE(sg(PS::icmp(p.p, q.p)) == ie && sg(PS::icmpn(p.p, q.p, x.size())) == ie, "comparison of %#x and %#x regardless of case", a, b); } nontrivial();
}
// Up to tens of thousands of bytes
static void large(Src & s)
{
	size_t n = s.large(); uint32_t seed = s.below(1000); auto fill = [&](size_t n) { std::vector<unsigned char> v(n); for (auto & b : v) { seed = seed * 1664525u + 1013904223u; b = (unsigned char)(seed >> 23); } return v; }; auto v = fill(n), w = fill(n); note("%zu bytes", n); if (n > 255) nontrivial(); label(n > 65535 ? "more than 65535 bytes" : n > 255 ? "256..65535 bytes" : "few bytes");
	auto span = [&](size_t & k, size_t & a, size_t & b) { k = s.coin() ? n - s.below(std::min<size_t>(n + 1, 9)) : s.below(n + 1); a = s.below(n - k + 1); b = s.coin() ? s.below(n - k + 1) : std::min(n - k, a + s.below(70)); }; size_t k, a, b; auto check = [&](Buf & x, std::vector<unsigned char> & e, const char * what) { REQUIRE(!n || !memcmp(x.p, e.data(), n), "%s of %zu bytes from %zu to %zu", what, k, a, b); };
	{ span(k, a, b); Buf x(v), y(w); PM::memcpy(y.p + b, x.p + a, k); auto e = w; std::copy(v.begin() + a, v.begin() + a + k, e.begin() + b); check(y, e, "copy"); check(x, v, "copy (source)"); }
	for (int i = 0; i < 3; ++i) { span(k, a, b); if (i == 2) std::swap(a, b); Buf x(v); PM::memmov(x.p + b, x.p + a, k); auto e = v; std::vector<unsigned char> t(v.begin() + a, v.begin() + a + k); std::copy(t.begin(), t.end(), e.begin() + b); check(x, e, "move"); }
	{ auto u = v; if (n && s.coin()) u[s.coin() ? n - 1 : s.below(n)] ^= 1 + s.below(255); Buf x(v), y(u); int e = n ? sg(memcmp(v.data(), u.data(), n)) : 0; REQUIRE(sg(PM::memcmp(x.p, y.p, n)) == e, "comparison of %zu bytes", n); }
	objs().reset();
	{ size_t c = std::min<size_t>(n, 9000); Slots<Obj> x(c + 1), y(c); for (size_t i = 0; i < c; ++i) x.put(i, (int)i); PM::constructCopyElements(y.p, static_cast<const Obj*>(x.p), c); for (size_t i = 0; i < c; ++i) REQUIRE(y.p[i].get() == (int)i && x.p[i].get() == (int)i, "item %zu", i); PM::relocateElements(x.p + 1, x.p, c); for (size_t i = 0; i < c; ++i) REQUIRE(x.p[i + 1].get() == (int)i, "item %zu after relocation", i); REQ(!c || !x.alive(0)); PM::destroyElements(x.p + 1, x.p + 1 + c); PM::destroyElements(y.p, y.p + c); REQUIRE(objs().live.empty(), "%zu items still alive", objs().live.size()); }
	// assigned to living items: between two buffers and within one, either way
	{ std::vector<Obj> x, y; x.reserve(n); y.reserve(n); for (size_t i = 0; i < n; ++i) { x.emplace_back((int)i); y.emplace_back((int)(n + i)); } span(k, a, b); PM::copyElements(y.data() + b, static_cast<const Obj*>(x.data() + a), k); for (size_t i = 0; i < n; ++i) { int e = i >= b && i < b + k ? (int)(i - b + a) : (int)(n + i); REQUIRE(y[i].get() == e, "item %zu of %zu is %d, expected %d: copy of %zu from %zu to %zu", i, n, y[i].get(), e, k, a, b); REQUIRE(x[i].get() == (int)i, "source item %zu", i); }
	  if (s.coin()) std::swap(a, b); PM::moveElements(x.data() + b, x.data() + a, k); for (size_t i = b; i < b + k; ++i) REQUIRE(x[i].get() == (int)(i - b + a), "item %zu of %zu is %d, expected %d: move of %zu from %zu to %zu", i, n, x[i].get(), (int)(i - b + a), k, a, b); for (size_t i = 0; i < n; ++i) if ((i < b || i >= b + k) && (i < a || i >= a + k)) REQUIRE(x[i].get() == (int)i, "item %zu changed", i); }
	REQUIRE(objs().live.empty(), "%zu items still alive", objs().live.size());
	std::string t(n, 'a'); { CStr p(t); REQ(PS::getLength(p.p) == n); std::string u = t; if (n) u[n - 1] = 'A'; CStr q(u); REQ(sg(PS::cmp(p.p, q.p)) == (n ? 1 : 0)); REQ(PS::icmp(p.p, q.p) == 0); if (n) { REQ(PS::cmpn(p.p, q.p, n - 1) == 0); REQ(sg(PS::cmpn(q.p, p.p, n)) == -1); REQ(PS::icmpn(p.p, q.p, n) == 0); }
	  // one difference near the end, seen from a far start
	  if (n > 1) { size_t at = s.coin() ? n - 1 : s.below(n), start = s.coin() ? n - 1 - s.below(std::min<size_t>(n, 9)) : s.below(n), len = s.coin() ? n - start : s.below(n - start + 1); std::string w = t; w[at] = 'b'; CStr r(w); int e = at >= start && at < start + len ? -1 : 0; for (int i = 0; i < 2; ++i) { int c = sg(i ? PS::icmpn(p.p, r.p, len, start) : PS::cmpn(p.p, r.p, len, start)); REQUIRE(c == e, "%scomparison of %zu characters from %zu, texts of %zu that differ at %zu: sign %d, expected %d", i ? "caseless " : "", len, start, n, at, c, e); } } }
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"raw", raw, 240000, 2000000, "three or more bytes to another offset"},
	{"elements", all_elements, 450000, 3000000, "two or more items, moved to another place if within one buffer"},
	{"large", large, 1500, 20000, "more than 255 bytes"},
	{"strings", strings, 300000, 2000000, "a common prefix and a difference after it"},
	{"characters", characters, 6000, 24000, "every case: one character against all 255"},
};
const char * PROPERTY = "C24";
const char * RULE = "two or more items or three or more bytes at different offsets; texts with a common prefix that differ later";
}
