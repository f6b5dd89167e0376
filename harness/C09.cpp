#include "m_string.h"
namespace pbt {
const char * PROPERTY = "C09";
const char * RULE = "find/replace: a generated text, pattern and start position, against a naive scan; non-trivial: the pattern is not empty and occurs at least once in the text. compare: three related texts; non-trivial: they share a non-empty prefix or differ only in letter case";
}
static int64 naive_find(const std::string & t, const std::string & p, size_t from) { if (from > t.size()) return -1; for (size_t i = from; i + p.size() <= t.size(); ++i) if (!t.compare(i, p.size(), p)) return (int64)i; return -1; }
static std::string text(Src & s, size_t max) { std::string t; unsigned k = s.below(4); size_t n = s.coin() ? s.below(8) : s.length(max); for (size_t i = 0; i < n; ++i) switch (k) { case 0: t += "ab"[s.below(2)]; break; case 1: t += "aAbB"[s.below(4)]; break; case 2: t += (char)(1 + s.below(255)); break; default: t += "aab"[s.below(3)]; } return t; }
static std::string pattern(Src & s, const std::string & t)
{
	switch (s.below(6))
	{
	case 0: return text(s, 6);
	case 1: { std::string p = t; p += text(s, 3); return p; }                                           // longer than the text
	case 2: { size_t l = s.below(t.size() + 1); return t.substr(t.size() - l); }                        // suffix
	case 3: { size_t l = s.below(t.size() + 1); std::string p = t.substr(t.size() - l); if (!p.empty()) p.back() = (char)(p.back() == 'a' ? 'b' : 'a'); return p; }
	case 4: { if (t.empty()) return "a"; size_t b = s.below(t.size()); std::string p = t.substr(b, 1 + s.below(4)); if (s.chance(1, 4)) p += 'b'; return p; }
	default: return std::string(1 + s.below(3), s.coin() ? 'a' : 'b');
	}
}
static std::vector<int> idx(const Array<sizet> & a) { std::vector<int> v; for (size_t i = 0; i < a.getCount(); ++i) v.push_back((int)a[i]); return v; }
static void find(Src & s)
{
	GlobalAudit g;
	{
		std::string t = text(s, 80), p = pattern(s, t); note("text %s pattern %s", pbt::show(t).c_str(), pbt::show(p).c_str());
		String S(t.c_str()), P(p.c_str()); const String & T = S;
		std::vector<int> all; for (int64 i = 0; (i = naive_find(t, p, i)) != -1; ++i) all.push_back((int)i);
		for (size_t k = 0; k < 4; ++k)
		{
			size_t from = k == 0 ? 0 : s.chance(1, 6) ? t.size() + s.below(6) : s.below(t.size() + 1); if (k == 3 && s.chance(1, 4)) from = ~(size_t)0 - s.below(4);
			int64 e = naive_find(t, p, from); label(from > t.size() ? "find from past the end" : e == -1 ? "find absent" : "find present");
			int64 r = T.findIndex(P, from); REQUIRE(r == e, "findIndex(string, %zu) is %lld, expected %lld", from, (long long)r, (long long)e);
			r = T.findIndex(p.c_str(), from); REQUIRE(r == e, "findIndex(text, %zu) is %lld, expected %lld", from, (long long)r, (long long)e);
			r = T.findIndex((p + "ab").c_str(), from, p.size()); if (!p.empty()) REQUIRE(r == e, "findIndex(text, %zu, length) is %lld, expected %lld", from, (long long)r, (long long)e);
			char c = s.coin() && t.size() ? t[s.below(t.size())] : 'b'; e = naive_find(t, std::string(1, c), from); r = T.findIndex(c, from); REQUIRE(r == e, "findIndex('%c', %zu) is %lld, expected %lld", c, from, (long long)r, (long long)e);
		}
		REQ(T.findIndex(P) == naive_find(t, p, 0)); REQ(T.findIndex(p.c_str()) == naive_find(t, p, 0));
		{ auto v = idx(T.findAll(P)); REQUIRE(v == all, "findAll(string) is %s, expected %s", str(v).c_str(), str(all).c_str()); v = idx(T.findAll(p.c_str())); REQUIRE(v == all, "findAll(text) is %s, expected %s", str(v).c_str(), str(all).c_str()); v = idx(T.findAll(String(p.c_str()))); REQUIRE(v == all, "findAll(temporary) is %s, expected %s", str(v).c_str(), str(all).c_str()); }
		{ char c = t.empty() ? 'a' : t[s.below(t.size())]; std::vector<int> w; for (size_t i = 0; i < t.size(); ++i) if (t[i] == c) w.push_back(i); auto v = idx(T.findAll(c)); REQUIRE(v == w, "findAll(char) is %s, expected %s", str(v).c_str(), str(w).c_str()); }
		StringM::same(S, t, "searched text"); StringM::same(P, p, "pattern");
		std::string r = s.below(3) == 0 ? p + text(s, 3) : s.coin() ? text(s, 5) : ""; note("replacement %s", pbt::show(r).c_str());
		String R(r.c_str()); String & q = S.replaceAll(P, R); REQ(&q == &S); std::string o = t;
		if (!p.empty()) { StringM::naive_replace(o, p, r); StringM::same(S, o, "replaceAll"); } else { label("empty pattern"); REQ((*S)[S.getLength()] == 0); }
		StringM::same(R, r, "replacement"); StringM::same(P, p, "pattern");
		if (!p.empty() && !all.empty()) { nontrivial(); if (all.size() > 1) label("several occurrences"); for (size_t i = 1; i < all.size(); ++i) if (all[i] - all[i - 1] < (int)p.size()) { label("overlapping occurrences"); break; } if (all.back() + p.size() == t.size()) label("occurs at the very end"); }
	}
	g.expect_empty("search");
}
static char swapcase(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c; }
static std::string fold(std::string t) { for (char & c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static int sgn(int v) { return (v > 0) - (v < 0); }
static std::string variant(Src & s, const std::string & t)
{
	std::string u = t;
	switch (s.below(6)) { case 0: break; case 1: for (char & c : u) if (s.coin()) c = swapcase(c); break; case 2: u = u.substr(0, s.below(u.size() + 1)); break; case 3: u += text(s, 4); break; case 4: if (!u.empty()) { size_t i = s.below(u.size()); u[i] = s.coin() ? (char)(u[i] ^ 32) : (char)(1 + s.below(255)); if (!u[i]) u[i] = '@'; } break; case 5: u = text(s, 10); break; }
	return u;
}
static void compare(Src & s)
{
	GlobalAudit g;
	{
		std::string t[3]; t[0] = gen_text(s, 30); t[1] = variant(s, t[0]); t[2] = variant(s, s.coin() ? t[0] : t[1]);
		note("%s %s %s", pbt::show(t[0]).c_str(), pbt::show(t[1]).c_str(), pbt::show(t[2]).c_str());
		String x[3] = {String(t[0].c_str()), String(t[1].c_str()), String(t[2].c_str())}; int c[3][3], ic[3][3];
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
		{
			const String & a = x[i]; const String & b = x[j]; const char * w = t[j].c_str();
			c[i][j] = sgn(a.cmp(b)); ic[i][j] = sgn(a.icmp(b)); bool eq = t[i] == t[j], ieq = fold(t[i]) == fold(t[j]);
			REQUIRE((c[i][j] == 0) == eq, "cmp(%d, %d) is %d", i, j, c[i][j]); REQUIRE((ic[i][j] == 0) == ieq, "icmp(%d, %d) is %d", i, j, ic[i][j]);
			REQ(sgn(a.cmp(w)) == c[i][j]); REQ(sgn(a.icmp(w)) == ic[i][j]);
			REQ((a == b) == eq && (a == w) == eq && (a != b) == !eq && (a != w) == !eq);
			REQ((a < b) == (c[i][j] < 0) && (a > b) == (c[i][j] > 0) && (a <= b) == (c[i][j] <= 0) && (a >= b) == (c[i][j] >= 0));
			REQ((a < w) == (c[i][j] < 0) && (a > w) == (c[i][j] > 0) && (a <= w) == (c[i][j] <= 0) && (a >= w) == (c[i][j] >= 0));
			// lexicographic: a text comes before its extensions; otherwise the first difference decides
			size_t k = 0; while (k < t[i].size() && k < t[j].size() && t[i][k] == t[j][k]) ++k;
			if (k == t[i].size() && k < t[j].size()) REQUIRE(c[i][j] < 0, "a text does not come before its extension");
			else if (k < t[i].size() && k < t[j].size() && t[i][k] > 0 && t[j][k] > 0) REQUIRE(c[i][j] == sgn(t[i][k] - t[j][k]), "first difference %d/%d, comparison %d", t[i][k], t[j][k], c[i][j]);
			std::string fi = fold(t[i]), fj = fold(t[j]); k = 0; while (k < fi.size() && k < fj.size() && fi[k] == fj[k]) ++k;
			if (k == fi.size() && k < fj.size()) REQUIRE(ic[i][j] < 0, "a text does not come before its extension (ignoring case)");
			// invariance under letter case
			if (i < 2) { std::string v = t[i]; for (char & ch : v) if (s.coin()) ch = swapcase(ch); String V(v.c_str()); REQUIRE(sgn(V.icmp(b)) == ic[i][j], "icmp depends on letter case: %s against %s", pbt::show(v).c_str(), pbt::show(t[j]).c_str()); REQ(V.icmp(a) == 0); }
			if (i != j && k) nontrivial();
			label(eq ? "equal" : ieq ? "equal but for case" : k == fi.size() || k == fj.size() ? "prefix" : "different");
		}
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
		{
			REQ(c[i][j] == -c[j][i]); REQUIRE(ic[i][j] == -ic[j][i], "icmp not antisymmetric");
			for (int k = 0; k < 3; ++k) { if (c[i][j] <= 0 && c[j][k] <= 0) REQUIRE(c[i][k] <= 0, "cmp not transitive"); if (ic[i][j] <= 0 && ic[j][k] <= 0) REQUIRE(ic[i][k] <= 0, "icmp not transitive"); }
		}
		// casing
		for (int i = 0; i < 3; ++i) { std::string u = t[i], l = fold(t[i]); for (char & ch : u) if (ch >= 'a' && ch <= 'z') ch -= 32; StringM::same(x[i].toLower(), l, "toLower"); StringM::same(x[i].toUpper(), u, "toUpper"); REQ(x[i].toLower().icmp(x[i]) == 0 && x[i].toUpper().icmp(x[i].toLower()) == 0); StringM::same(x[i], t[i], "source"); }
	}
	g.expect_empty("comparison");
}
// Long texts: a difference or an occurrence far from the start
static void large(Src & s)
{
	GlobalAudit g;
	{
		size_t n = s.large(); uint32_t k = s.below(1000); unsigned span = 1 + s.below(3); auto fill = [&](size_t n) { std::string t; for (size_t i = 0; i < n; ++i) { k = k * 1664525u + 1013904223u; t += (char)('a' + (k >> 24) % span); } return t; };
		std::string t = fill(n), p = fill(1 + s.below(40)), u; size_t at = s.below(n + 1); if (s.coin()) { p += 'Q'; t.insert(at, p); } else if (s.coin()) p = t.substr(at); if (p.empty()) p = "z"; note("text of %zu, pattern of %zu", t.size(), p.size());
		String T(t.c_str()), P(p.c_str()); size_t from = s.coin() ? 0 : s.below(t.size() + 1); int64 e = t.find(p, from); if ((size_t)e == std::string::npos) e = -1;
		REQUIRE(T.findIndex(P, from) == e && T.findIndex(p.c_str(), from) == e, "findIndex from %zu is %lld, expected %lld", from, (long long)T.findIndex(P, from), (long long)e); { size_t c = t.find(p[0], from); REQ(T.findIndex(p[0], from) == (c == std::string::npos ? -1 : (int64)c)); }
		std::vector<int> all; for (size_t i = t.find(p); i != std::string::npos; i = t.find(p, i + 1)) all.push_back((int)i); REQUIRE(idx(T.findAll(P)) == all, "findAll yields %zu positions, expected %zu", (size_t)T.findAll(P).getCount(), all.size());
		std::string r = fill(s.below(5)), o = t; String R(r.c_str()), Z(T); Z.replaceAll(P, R); StringM::naive_replace(o, p, r); StringM::same(Z, o, "replaceAll");
		u = t; if (!u.empty()) { size_t i = s.coin() ? u.size() - 1 - s.below(std::min<size_t>(u.size(), 4)) : s.below(u.size()); switch (s.below(4)) { case 0: u[i] = u[i] == 'a' ? 'A' : '~'; break; case 1: u.resize(i); break; case 2: u += 'b'; break; default: break; } } String U(u.c_str());
		int c = sgn(T.cmp(U)), ec = t < u ? -1 : t > u; REQUIRE(c == ec, "cmp is %d, expected %d", c, ec); REQ(sgn(U.cmp(T)) == -ec && (T == U) == !ec && (T < U) == (ec < 0) && (T >= U) == (ec >= 0) && sgn(T.cmp(u.c_str())) == ec);
		std::string ft = fold(t), fu = fold(u); int ei = ft < fu ? -1 : ft > fu; REQUIRE(sgn(T.icmp(U)) == ei && sgn(U.icmp(T)) == -ei, "icmp is %d, expected %d", sgn(T.icmp(U)), ei);
		if (n > 255) nontrivial(); label(n > 65535 ? "more than 65535 characters" : n > 255 ? "256..65535 characters" : "few characters");
	}
	g.expect_empty("large text");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"find", find, 200000, 5000000, "findIndex, findAll, replaceAll"},
	{"large", large, 600, 20000, "texts of up to tens of thousands of characters"},
	{"compare", compare, 150000, 4000000, "cmp, icmp, relational operators, casing"},
};
}
