#include "m_string.h"
#include "m_world.h"
namespace pbt {
const char * PROPERTY = "C08";
const char * RULE = "a case is a random history of edits on a string (or on three strings copied and moved between each other), compared after each edit with an ideal text: characters, length, terminator; non-trivial: at least 6 edits of which one at least changed a non-empty text";
}
static void history(Src & s)
{
	GlobalAudit g;
	{
		StringM x; size_t n = 4 + s.length(50), edits = 0; x.verify();
		for (size_t i = 0; i < n; ++i) { std::string before = x.m; x.step(s); x.verify(); if (!before.empty() && before != x.m) ++edits; }
		if (n >= 6 && edits) nontrivial();
		label(x.m.size() > 500 ? "final length >500" : x.m.size() > 32 ? "final length 33..500" : x.m.size() ? "final length 1..32" : "final length 0");
	}
	g.expect_empty("string history");
}
static void several(Src & s)
{
	GlobalAudit g;
	{
		World<StringM> w(3); size_t n = 4 + s.length(50);
		for (size_t i = 0; i < n; ++i) { w.step(s, 14); w.verify(); }
		if (n >= 6 && w.after) nontrivial();
	}
	g.expect_empty("string histories");
}
// Every length up to 300 meets every edit
static void sized(Src & s)
{
	GlobalAudit g;
	{
		StringM x; size_t n = s.coin() ? s.below(70) : s.below(300); uint32_t k = s.below(1000); auto next = [&] { k = k * 1664525u + 1013904223u; return (int)(k >> 16) % 1000; }; for (size_t i = 0; i < n; ++i) x.m += (char)('a' + next() % 26); x.a = x.m.c_str(); note("text of %zu", n); x.verify();
		size_t q = 1 + s.below(4); for (size_t i = 0; i < q; ++i) { x.step(s); x.verify(); } label(n > 256 ? "257..299 characters at first" : n > 64 ? "65..256 characters at first" : n > 16 ? "17..64 characters at first" : "0..16 characters at first"); if (n > 2 && q > 1) nontrivial();
	}
	g.expect_empty("sized");
}
// Texts of up to tens of thousands of characters
static void large(Src & s)
{
	GlobalAudit g;
	{
		StringM x; size_t n = s.large(); note("text of %zu", n); uint32_t k = s.below(1000); auto fill = [&](size_t n) { std::string t; for (size_t i = 0; i < n; ++i) { k = k * 1664525u + 1013904223u; t += (char)('a' + (k >> 24) % 5); } return t; };
		x.m = fill(n); switch (s.below(4)) { case 0: x.a = x.m.c_str(); break; case 1: x.a = String(x.m.data(), x.m.size()); break; case 2: { std::string h = x.m.substr(0, n / 2); x.a = h.c_str(); String r(x.m.c_str() + n / 2); x.a += r; break; } default: x.a = ""; for (char c : x.m) x.a += c; } x.verify();
		for (int i = 2 + s.below(6); i; --i)
		{
			size_t l = x.m.size(), p = s.below(l + 1), q = s.below(l - p + 1);
			switch (s.below(9))
			{
			case 0: { std::string t = fill(s.large(30000)); note("splice %zu %zu text of %zu", p, q, t.size()); x.a.splice(p, q, t.c_str()); x.m.replace(p, q, t); break; }
			case 1: { std::string t = fill(s.below(20)); note("splice %zu %zu text of %zu", p, q, t.size()); x.a.splice(p, q, String(t.c_str())); x.m.replace(p, q, t); break; }
			case 2: { note("splice %zu %zu", p, q); x.a.splice(p, q); x.m.erase(p, q); break; }
			case 3: if (l < 100000) { note("+= itself"); x.a += x.a; x.m += std::string(x.m); } break;
			case 4: { note("substr"); x.a = static_cast<const String&>(x.a).substr(q, p); x.m = x.m.substr(p, q); break; }
			case 5: if (l) { std::string pat = x.m.substr(s.below(l), 1 + s.below(3)), r = fill(s.below(6)); note("replaceAll %s by %s", pat.c_str(), r.c_str()); String P(pat.c_str()), R(r.c_str()); x.a.replaceAll(P, R); StringM::naive_replace(x.m, pat, r); } break;
			case 6: { bool up = s.coin(); note(up ? "toUpper" : "toLower"); x.a = up ? x.a.toUpper() : x.a.toLower(); for (char & c : x.m) { if (up && c >= 'a' && c <= 'z') c -= 32; if (!up && c >= 'A' && c <= 'Z') c += 32; } break; }
			case 7: { note("= copy"); String c(static_cast<const String&>(x.a)); String d("x"); d = c; x.a = std::move(d); break; }
			default: { std::string t = fill(s.large(30000)); note("x + text of %zu", t.size()); x.a = static_cast<const String&>(x.a) + t.c_str(); x.m += t; } 
			}
			x.verify();
		}
		if (n > 255) nontrivial(); label(n > 65535 ? "more than 65535 characters" : n > 4096 ? "4097..65535 characters" : n > 255 ? "256..4096 characters" : "few characters");
	}
	g.expect_empty("large string");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"edits", history, 300000, 2000000, "one string"},
	{"sized", sized, 30000, 300000, "texts of every length up to 300"},
	{"large", large, 6000, 30000, "texts of up to tens of thousands of characters"},
	{"copies", several, 100000, 600000, "three strings copied, assigned and moved"},
};
}
