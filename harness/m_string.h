// String under a model: std::string without null characters
#pragma once
#include "support.h"
#include "containers/string.h"

inline std::string gen_text(Src & s, size_t maxlen, int alphabet = 0)
{
	size_t n = s.length(maxlen); std::string t; unsigned k = alphabet ? alphabet : s.below(4);
	for (size_t i = 0; i < n; ++i) switch (k) { case 0: t += "ab"[s.below(2)]; break; case 1: t += "aAbBzZ[`{@_"[s.below(11)]; break; case 2: t += (char)(1 + s.below(255)); break; default: t += (char)('a' + s.below(5)); }
	return t;
}
inline std::string std_of(const String & x) { return std::string(*x, x.getLength()); }

struct StringM
{
	using A = String;
	A a; std::string m;
	static std::string kind() { return "String"; }
	size_t objects() const { return 0; }
	static void same(const String & x, const std::string & e, const char * what)
	{
		REQUIRE(x.getLength() == e.size(), "%s: length %llu, expected %zu", what, (unsigned long long)x.getLength(), e.size());
		REQ(x.getSize() == e.size() && x.getLen() == e.size());
		REQUIRE(!::memcmp(*x, e.data(), e.size()), "%s: %s, expected %s", what, pbt::show(std_of(x)).c_str(), pbt::show(e).c_str());
		REQUIRE((*x)[e.size()] == '\0', "%s: not terminated", what);
	}
	void verify() { same(a, m, "content"); const A & ca = a; for (size_t i = 0; i < m.size(); i += 1 + m.size() / 8) { REQ(ca[i] == m[i] && a[i] == m[i] && ca.getAt(i) == m[i]); } REQ(a.getData() == ca.getBuffer()); REQ(a == m.c_str()); REQ(!(a != m.c_str())); }
	static std::string fmt(const char * f, ...) { char b[600]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
	static void naive_replace(std::string & t, const std::string & p, const std::string & r) { std::string out; for (size_t i = 0; i < t.size();) if (!t.compare(i, p.size(), p)) { out += r; i += p.size(); } else out += t[i++]; t = out; }

	// a number in either its appended or printed form
	template<typename F> void number(Src & s, F && put)
	{
		switch (s.below(6))
		{
		case 0: { int32 v = s.integer<int32>(); put(v, fmt("%d", v)); break; }
		case 1: { int64 v = s.integer<int64>(); put(v, fmt("%lld", (long long)v)); break; }
		case 2: { uint32 v = s.integer<uint32>(); put(v, fmt("%u", v)); break; }
		case 3: { uint64 v = s.integer<uint64>(); put(v, fmt("%llu", (unsigned long long)v)); break; }
		case 4: { float v = (float)((double)s.range(-1000000, 1000000) / (1 + s.below(1000))); if (s.chance(1, 8)) v *= 1e30f; put(v, fmt("%f", v)); break; }
		case 5: { double v = (double)s.range(-1000000, 1000000) / (1 + s.below(1000)); if (s.chance(1, 4)) v *= s.pick({1e15, 1e100, 1e300, 1e-8}); put(v, fmt("%f", v)); break; }
		}
	}
	void step(Src & s)
	{
		size_t n = m.size();
		if (n > 3000) { note("= \"\""); a = ""; m.clear(); return; }
		switch (s.weighted({20, 20, 20, 8, 10, 12, 28, 8, 10, 4, 3, 2, 12, 8, 8, 1, 2}))
		{
		case 0: { char c = (char)(1 + s.below(255)); note("+= char %d", c); label("op += char"); A & r = (a += c); REQ(&r == &a); m += c; break; }
		case 1: { std::string t = gen_text(s, 60); note("+= text of %zu", t.size()); label("op += text"); A & r = (a += t.c_str()); REQ(&r == &a); m += t; break; }
		case 2: { std::string t = gen_text(s, 60); note("+= string of %zu", t.size()); label("op += string"); A x(t.c_str()); a += x; same(x, t, "appended string"); m += t; break; }
		case 3: note("+= itself"); label("op += itself"); a += a; m += std::string(m); break;
		case 4: { size_t p = s.below(n + 1); note("+= own characters from %zu", p); label("op += own characters"); a += (static_cast<const A&>(a).getData() + p); m += m.substr(p); break; }
		case 5: label("op += number"); number(s, [&](auto v, const std::string & e) { note("+= %s", e.c_str()); a += v; m += e; }); break;
		case 6: { size_t p = s.below(n + 1), l = s.below(n - p + 1); unsigned how = s.below(5); std::string t; if (how < 2) t = gen_text(s, 60); label("op splice"); if (p + l == n) label("splice at end"); if (p == 0) label("splice at start");
			switch (how) {
			case 0: { note("splice %zu %zu text of %zu", p, l, t.size()); A & r = a.splice(p, l, t.c_str()); REQ(&r == &a); break; }
			case 1: { note("splice %zu %zu string of %zu", p, l, t.size()); A x(t.c_str()); a.splice(p, l, x); same(x, t, "replacement"); break; }
			case 2: note("splice %zu %zu itself", p, l); label("op splice itself"); t = m; a.splice(p, l, a); break;
			case 3: { size_t q = s.below(n + 1); note("splice %zu %zu own characters from %zu", p, l, q); label("op splice itself"); t = m.substr(q); a.splice(p, l, static_cast<const A&>(a).getData() + q); break; }
			default: note("splice %zu %zu", p, l); a.splice(p, l); }
			m.replace(p, l, t); break; }
		case 7: { size_t p = s.below(n + 1), l = s.below(n - p + 1); note("substr %zu from %zu", l, p); label("op substr"); const A & ca = a; A x(p == 0 && s.coin() ? ca.substr(l) : ca.substr(l, p)); same(x, m.substr(p, l), "substring"); if (s.chance(1, 4)) { a = static_cast<const A&>(x); m = m.substr(p, l); } break; }
		case 8: { std::string p, r; unsigned how = s.below(6); if (n > 1000) how = 0; p = n && s.coin() ? m.substr(s.below(n), 1 + s.below(3)) : gen_text(s, 4); r = gen_text(s, 6); if (p.empty()) p = "a"; label("op replaceAll");
			if (how == 4) { note("replaceAll(itself, %s)", pbt::show(r).c_str()); if (!n) break; label("op replaceAll itself"); A x(r.c_str()); a.replaceAll(a, x); m = r; }
			else if (how == 5) { note("replaceAll(%s, itself)", pbt::show(p).c_str()); if (n > 60) break; label("op replaceAll itself"); A x(p.c_str()); a.replaceAll(x, a); std::string o = m; naive_replace(m, p, o); }
			else { note("replaceAll(%s, %s)", pbt::show(p).c_str(), pbt::show(r).c_str()); A x(p.c_str()), y(r.c_str()); A & q = a.replaceAll(x, y); REQ(&q == &a); naive_replace(m, p, r); same(x, p, "pattern"); same(y, r, "replacement"); } break; }
		case 9: label("op <<= number"); number(s, [&](auto v, const std::string & e) { note("<<= %s (was %zu long)", e.c_str(), n); A & r = (a <<= v); REQ(&r == &a); m = e; }); break;
		case 10: { std::string t = gen_text(s, 80); note("= text of %zu", t.size()); label("op build"); switch (s.below(4)) { case 0: a = t.c_str(); break; case 1: a = A(t.data(), t.size()); break; case 2: { A x{t.c_str()}; a = x; break; } default: a = A(Name(t.data(), t.size())); } m = t; break; }
		case 11: { size_t k = s.below(40); char c = 'a' + s.below(26); note("= %zu times '%c'", k, c); label("op build"); a = A(sizet(k), c); m = std::string(k, c); break; }
		case 12: if (n) { size_t i = s.below(n); char c = (char)(1 + s.below(255)); note("[%zu] = %d", i, c); label("op write"); a[i] = c; m[i] = c; } break;
		case 13: { std::string t = gen_text(s, 40); note("x + text of %zu", t.size()); label("op +"); const A & ca = a; if (s.coin()) { A x(ca + t.c_str()); same(x, m + t, "sum"); a = x; } else { A y(t.c_str()), x(ca + y); same(x, m + t, "sum"); a = x; } m += t; break; }
		case 14: { bool up = s.coin(); note(up ? "toUpper" : "toLower"); label("op case"); const A & ca = a; std::string t = m; for (char & c : t) { if (up && c >= 'a' && c <= 'z') c -= 32; if (!up && c >= 'A' && c <= 'Z') c += 32; } A x(up ? ca.toUpper() : ca.toLower()); same(x, t, "case conversion"); same(a, m, "source of case conversion"); a = x; m = t; break; }
		case 15: { size_t c = s.below(50); note("= String(capacity %zu)", c); label("op capacity"); a = A(sizet(c)); m.clear(); break; }
		case 16: { std::string t = gen_text(s, 20); size_t c = s.below(50); note("String(capacity %zu) then += text of %zu", c, t.size()); label("op capacity"); A x{sizet(c)}; same(x, "", "string of a capacity"); x += t.c_str(); same(x, t, "string of a capacity"); a = x; m = t; break; }
		}
	}
};
