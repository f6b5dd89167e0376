// FLAGS: -fsanitize=null,signed-integer-overflow
#include "m_regex.h"
namespace pbt {
const char * PROPERTY = "C26";
const char * RULE = "a pattern (rendered from a tree, mutated, or an arbitrary byte string; product of repetition counts bounded) is compiled from and matched against heap blocks of exactly their size under address checking, with every allocation of the library audited and a time limit; non-trivial: the pattern has at least one operator and one text has at least 3 characters";
}
// The number of states a pattern can unfold to grows with the product of its
// repetition counts: keep it small, the rest of the pattern is arbitrary
static std::string tame(const std::string & p)
{
	std::string o; double product = 1;
	for (size_t i = 0; i < p.size(); ++i)
	{
		o += p[i]; if (p[i] != '{') continue;
		// counts of a (possible) quantifier: at most 2 digits, and a bounded product overall
		size_t j = i + 1; long best = 1; std::string q;
		while (j < p.size() && p[j] != '}')
		{
			if (p[j] >= '0' && p[j] <= '9') { std::string d; while (j < p.size() && p[j] >= '0' && p[j] <= '9') d += p[j++]; if (d.size() > 2) d = d.substr(0, 2); long v = atol(d.c_str()); if (v > best) best = v; q += d; }
			else { if (p[j] == '{') break; q += p[j++]; }
		}
		if (product * best > 200) { continue; }   // digits copied as they are are a problem: see below
		product *= best; o += q; i = j - 1;
	}
	return o;
}
static bool too_big(const std::string & p)
{
	double product = 1; size_t i = 0;
	while (i < p.size()) { if (p[i] != '{') { ++i; continue; } ++i; double best = 1; while (i < p.size() && p[i] != '{') { if (p[i] >= '0' && p[i] <= '9') { double v = 0; while (i < p.size() && p[i] >= '0' && p[i] <= '9') v = v * 10 + (p[i++] - '0'); if (v > best) best = v; } else ++i; } product *= best; }
	return product * (p.size() + 1) > 6000;
}
static std::string soup(Src & s)
{
	static const char * bits[] = {"a", "b", "(", ")", "[", "]", "{", "}", "*", "+", "?", "|", "\\", ".", "^", "$", "-", ",", "0", "1", "2", "3", "{2}", "{0}", "{1,}", "{,2}", "{0,3}", "[^", "[^]", "\\d", "\\b", "\\B", "\\W", "(?", "a-z", "z-a", "[]", "()", "(|", "|)", "\xff", "\x80", "\x01", " ", "\\]", "\\\\", "\\["};
	std::string p; unsigned n = s.below(4) ? s.below(12) : s.below(60); for (unsigned i = 0; i < n; ++i) p += s.chance(1, 12) ? std::string(1, (char)(1 + s.below(255))) : std::string(bits[s.below(sizeof bits / sizeof *bits)]);
	return p;
}
static std::string mutate(Src & s, std::string p)
{
	for (unsigned n = 1 + s.below(4); n; --n)
		switch (s.below(6))
		{
		case 0: if (!p.empty()) p.erase(s.below(p.size()), 1 + s.below(3)); break;
		case 1: p.insert(s.below(p.size() + 1), 1, "()[]{}*+?|\\.^$-,12"[s.below(18)]); break;
		case 2: p.resize(s.below(p.size() + 1)); break;
		case 3: if (!p.empty()) { size_t a = s.below(p.size()), l = 1 + s.below(6); p.insert(s.below(p.size() + 1), p.substr(a, l)); } break;
		case 4: if (!p.empty()) p[s.below(p.size())] = (char)(1 + s.below(255)); break;
		default: p += "\\([{*?+|-"[s.below(9)]; break;
		}
	return p;
}
static bool has_operator(const std::string & p) { return p.find_first_of("()[]{}*+?|\\.^$") != std::string::npos; }
static std::string anytext(Src & s, const std::string & p)
{
	std::string t; unsigned n = s.below(4) ? s.below(10) : s.below(50), k = s.below(4);
	for (unsigned i = 0; i < n; ++i) switch (k) { case 0: t += 'a'; break; case 1: t += "ab"[s.below(2)]; break; case 2: t += (char)(1 + s.below(255)); break; default: t += p.empty() ? 'a' : p[s.below(p.size())]; }
	return t;
}
static void exercise(Src & s, const std::string & pat, const std::vector<std::string> & texts, bool graph)
{
	GlobalAudit g; size_t before;
	note("pattern /%s/", pbt::show(pat).c_str());
	{
		Exact xp(pat); String P(xp.p); Re::Regex re{P};
		before = g.audit.live.size(); std::vector<bool> verdicts;
		for (auto & t : texts) { note("text %s", pbt::show(t).c_str()); Exact x(t); bool r = re.accept((const ansichar*)x.p); verdicts.push_back(r); label(r ? "accepted" : "rejected"); REQUIRE(g.audit.live.size() == before, "matching kept %zu blocks", g.audit.live.size() - before); }
		for (size_t i = 0; i < texts.size(); ++i) { String T(texts[i].c_str()); REQUIRE(re.accept(T) == verdicts[i], "/%s/ on %s: the verdict changed", pbt::show(pat).c_str(), pbt::show(texts[i]).c_str()); }
		if (graph) { label("state graph printed"); String d = re.getAutomaton().toString(); unsigned sum = 0; for (size_t i = 0; i < d.getLength(); ++i) sum += (unsigned char)(*d)[i]; REQ(sum && (*d)[d.getLength()] == 0); }
		if (texts.size()) { String T(texts[0].c_str()); REQ(Re::accept(P, T) == verdicts[0]); }
		bool lng = false; for (auto & t : texts) if (t.size() >= 3) lng = true;
		if (has_operator(pat) && lng) nontrivial();
	}
	g.expect_empty("regular expression");
}
static void wellformed(Src & s)
{
	RxGen gen(s, s.chance(1, 4)); Rx rx = gen.expression(); std::string pat = RxGen::render(rx);
	std::vector<std::string> texts; for (int i = 0; i < 5; ++i) texts.push_back(s.below(3) ? gen.text(rx) : anytext(s, pat));
	exercise(s, pat, texts, s.chance(1, 8));
}
static void malformed(Src & s)
{
	std::string pat;
	if (s.coin()) { RxGen gen(s, s.chance(1, 4)); gen.budget = 60; Rx rx = gen.expression(); pat = mutate(s, RxGen::render(rx)); label("mutated pattern"); } else { pat = soup(s); label("arbitrary pattern"); }
	for (char & c : pat) if (!c) c = 'a';
	pat = tame(pat); if (too_big(pat)) { label("repetition counts too large, digits dropped"); std::string q; for (char c : pat) if (c < '0' || c > '9') q += c; pat = q; }
	std::vector<std::string> texts; for (int i = 0; i < 4; ++i) texts.push_back(anytext(s, pat));
	exercise(s, pat, texts, s.chance(1, 8));
}
// Things that make naive matchers explode, and long or deep patterns
static std::string rep(const std::string & t, unsigned n) { std::string o; while (n--) o += t; return o; }
static void stress(Src & s)
{
	std::string a(1, "ab."[s.below(3)]), pat; unsigned n; std::vector<std::string> texts;
	switch (s.below(8))
	{
	case 0: pat = "(" + a + "*)*"; n = s.below(3); while (n--) pat = "(" + pat + "|" + a + ")*"; if (s.coin()) pat += "c"; label("nested stars"); break;
	case 1: n = s.length(60); pat = rep(a + "?", n) + rep(a, n); label("optional cascade"); break;
	case 2: n = s.length(400); pat = rep("(", n) + a + rep(")", n); label("deep nesting"); if (s.coin()) { n = s.below(200); pat = rep("(", n) + pat + rep("?)", n); } break;
	case 3: n = s.length(60); pat = "(" + a + "|" + a + a + ")*" + rep(a, n) + "$"; label("ambiguous"); break;
	case 4: n = s.length(300); pat = rep(a + "|", n) + "b"; label("many alternatives"); break;
	case 5: n = s.length(120); pat = rep(s.coin() ? "[^b]" : "[abc]", n) + "*"; label("many classes"); break;
	case 6: n = 1 + s.below(5); pat = a; while (n--) pat = "(" + pat + s.pick<const char*>({"?", "*", "+", "{2}", "{0,2}", "{1,}", "|", "{0}"}) + ")" + s.pick<const char*>({"?", "*", "+", "{2}", "{0,2}", "{1,}", "", "{0}"}); label("stacked quantifiers"); break;
	default: n = s.length(400); pat = rep(s.pick<const char*>({"(", "[", "[^", "{", "\\", "|", "(|", "*", ")", "(?", "[a-"}), n); label("unbalanced"); break;
	}
	for (int i = 0; i < 3; ++i) { std::string t(s.length(70), a == "." ? 'a' : a[0]); if (s.coin()) t += "ab!"[s.below(3)]; texts.push_back(t); }
	exercise(s, pat, texts, pat.size() < 40 && s.coin());
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"wellformed", wellformed, 12000, 400000, "patterns rendered from trees"},
	{"malformed", malformed, 20000, 800000, "mutated and arbitrary patterns"},
	{"stress", stress, 4000, 100000, "ambiguous, deep, long and unbalanced patterns"},
};
}
