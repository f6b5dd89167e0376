#include <climits>
#include <memory>
#include "m_regex.h"
namespace pbt {
const char * PROPERTY = "C25";
const char * RULE = "a generated syntax tree is written as a pattern and compiled; texts sampled from its language, mutations of them and unrelated texts are matched, and every verdict is compared with a set-of-positions matcher run on the tree; non-trivial: the pattern uses alternation, a quantifier, a class or an anchor, and at least one of its texts is accepted and one rejected";
}
static void classify(const RxGen & g, const char * where)
{
	if (g.seen & RxGen::ALT) label("alternation"); if (g.seen & RxGen::QUANT) label("quantifier"); if (g.seen & RxGen::NESTEDQ) label("quantifier over a quantified group");
	if (g.seen & RxGen::CLASS) label("character class"); if (g.seen & RxGen::ANCHOR) label("anchor or boundary"); if (g.seen & RxGen::EMPTY) label("empty alternative"); if (g.seen & RxGen::BRACE) label("brace that is no quantifier"); if (g.seen & RxGen::LOOK) label("lookahed");
}
static void verdict(const Re::Regex & re, const Rx & rx, const std::string & pat, const std::string & t, unsigned & yes, unsigned & no, const char * how)
{
	bool e = RxMatcher(t).accepts(rx); Exact x(t); bool r = re.accept((const ansichar*)x.p);
	REQUIRE(r == e, "/%s/ %s %s, it should %s (%s)", pbt::show(pat).c_str(), r ? "accepts" : "rejects", pbt::show(t).c_str(), e ? "accept" : "reject", how);
	(e ? yes : no)++;
}
static void general(Src & s)
{
	GlobalAudit g;
	{
		RxGen gen(s, false); Rx rx = gen.expression(); std::string pat = RxGen::render(rx); note("pattern /%s/", pbt::show(pat).c_str());
		std::vector<std::string> texts; for (unsigned i = 0; i < 10; ++i) texts.push_back(gen.text(rx));
		Exact xp(pat); Re::Regex re{String(xp.p)}; unsigned yes = 0, no = 0;
		for (auto & t : texts) verdict(re, rx, pat, t, yes, no, "first");
		// other expressions compiled and used meanwhile
		{
			RxGen other(s, false); Rx r2 = other.expression(); std::string p2 = RxGen::render(r2); note("other pattern /%s/", pbt::show(p2).c_str());
			Re::Regex re2{String(p2.c_str())}; unsigned a = 0, b = 0;
			for (auto & t : texts) verdict(re2, r2, p2, t, a, b, "second expression");
			for (auto & t : texts) { unsigned c = 0, d = 0; verdict(re, rx, pat, t, c, d, "with a second expression alive"); }
		}
		const std::string & t = texts[s.below(texts.size())]; bool e = RxMatcher(t).accepts(rx); String T(t.c_str());
		REQ(re.accept(T) == e); REQUIRE(Re::accept(String(pat.c_str()), T) == e, "Re::accept(/%s/, %s)", pat.c_str(), t.c_str()); REQ(re.accept(T) == e);
		// step by step, and again after a reset
		{
			const auto & am = re.getAutomaton(); Exact xt(t), x0(texts[0]); auto ex = am.createExecutor(x0.p);
			auto run = [&](const std::string & w, const char * p, bool want, const char * how)
			{
				const auto & cx = ex; REQ(am.isStartState(cx.getCurrentState()) && cx.getCurrentState() == am.getStartState() && cx.getNumRead() == 0); bool acc = true;
				for (;;) { bool done = ex.step(acc); REQUIRE(cx.getNumRead() >= 0 && (size_t)cx.getNumRead() <= w.size() && cx.getCurrentInput() == p + cx.getNumRead(), "%d characters read of %zu, but not there (%s)", cx.getNumRead(), w.size(), how); REQ(am.isAcceptedState(cx.getCurrentState()) == ex.isAcceptedState() && !(am.isStartState(cx.getCurrentState()) && ex.isAcceptedState())); if (acc) REQ(done && ex.isAcceptedState() && (size_t)cx.getNumRead() == w.size()); if (done) break; acc = true; }
				REQUIRE(acc == want, "step by step, %s: /%s/ on %s", how, pat.c_str(), w.c_str());
			};
			run(texts[0], x0.p, RxMatcher(texts[0]).accepts(rx), "first"); ex.reset(); run(texts[0], x0.p, RxMatcher(texts[0]).accepts(rx), "after reset()"); ex.reset(xt.p); run(t, xt.p, e, "after reset(text)");
		}
		classify(gen, "general"); if (yes) label("accepted texts", yes); if (no) label("rejected texts", no);
		if (yes && no && (gen.seen & (RxGen::ALT | RxGen::QUANT | RxGen::CLASS | RxGen::ANCHOR))) nontrivial();
	}
	g.expect_empty("regular expression");
}
static void exhaustive(Src & s)
{
	GlobalAudit g;
	{
		RxGen gen(s, true); Rx rx = gen.expression(); std::string pat = RxGen::render(rx); note("pattern /%s/, all texts over ab up to length 5", pat.c_str());
		Re::Regex re{String(pat.c_str())}; unsigned yes = 0, no = 0;
		for (unsigned l = 0; l <= 5; ++l) for (unsigned k = 0; k < 1u << l; ++k) { std::string t; for (unsigned i = 0; i < l; ++i) t += (k >> i & 1) ? 'b' : 'a'; verdict(re, rx, pat, t, yes, no, "exhaustive"); }
		classify(gen, "exhaustive"); if (yes && no && (gen.seen & (RxGen::ALT | RxGen::QUANT | RxGen::CLASS | RxGen::ANCHOR))) nontrivial();
	}
	g.expect_empty("regular expression");
}
// A class, alone or next to another one, against every character
static void classes(Src & s)
{
	GlobalAudit g;
	{
		RxGen gen(s, false); gen.punct = true; Rx rx(Rx::Seq); unsigned n = s.chance(1, 4) ? 2 : 1; for (unsigned i = 0; i < n; ++i) rx.kids.push_back(gen.clazz());
		std::string pat = RxGen::render(rx); note("pattern /%s/, all characters", pbt::show(pat).c_str()); Exact xp(pat); Re::Regex re{String(xp.p)}; unsigned yes = 0, no = 0;
		std::string fill; if (n == 2) gen.sample(rx.kids[1], fill); verdict(re, rx, pat, "", yes, no, "classes");
		for (int c = 1; c < 256; ++c) verdict(re, rx, pat, std::string(1, (char)c) + fill, yes, no, "classes");
		if (n == 2) { fill.clear(); gen.sample(rx.kids[0], fill); for (int c = 1; c < 256; ++c) verdict(re, rx, pat, fill + (char)c, yes, no, "classes"); }
		classify(gen, "classes"); if (yes && no) nontrivial();
	}
	g.expect_empty("regular expression");
}
// Counts of two and three digits, texts of up to thousands of characters
static void longs(Src & s)
{
	GlobalAudit g;
	{
		RxGen gen(s, s.coin()); gen.budget = 8; int cost = 0; Rx unit = gen.atom(s.coin() ? 1 : 0, cost), rep(Rx::Rep); rep.kids.push_back(unit); int n = s.pick({9, 10, 11, 12, 19, 20, 30, 99, 100, 101, 127, 128, 200, 255, 256, 260}); n = std::min(n, std::max(9, 1200 / std::max(cost, 1)));
		switch (s.below(6)) { case 0: rep.min = rep.max = n; rep.src = "{" + std::to_string(n) + "}"; break; case 1: rep.min = n; rep.src = "{" + std::to_string(n) + ",}"; break; case 2: rep.min = s.below(n + 1); rep.max = n; rep.src = "{" + std::to_string(rep.min) + "," + std::to_string(n) + "}"; break; case 3: rep.min = 0; rep.src = "*"; break; case 4: rep.min = 1; rep.src = "+"; break; default: rep.min = n - 1; rep.max = n + s.below(3); rep.src = "{" + std::to_string(rep.min) + "," + std::to_string(rep.max) + "}"; }
		Rx rx(Rx::Seq); RxGen small(s, true); if (s.chance(1, 3)) rx.kids.push_back(small.symbol(small.ch())); rx.kids.push_back(rep); if (s.chance(1, 3)) rx.kids.push_back(small.symbol(small.ch())); std::string pat = RxGen::render(rx); note("pattern /%s/", pbt::show(pat).c_str());
		Re::Regex re{String(pat.c_str())}; unsigned yes = 0, no = 0; std::string one; gen.sample(unit, one);
		auto times = [&](int k, bool same) { std::string t; if (rx.kids[0].kind == Rx::Chars && &rx.kids[0] != &rx.kids.back() && rx.kids[0].src.size() == 1 && rx.kids.size() > 1) gen.sample(rx.kids[0], t); for (int i = 0; i < k; ++i) { std::string u; if (same) u = one; else gen.sample(unit, u); t += u; } if (rx.kids.back().kind == Rx::Chars) gen.sample(rx.kids.back(), t); return t; };
		int hi = rep.max < 0 ? (int)s.below(rep.src.size() > 1 ? n + 40 : 2500) : rep.max; for (int k : {rep.min - 1, rep.min, rep.min + 1, hi - 1, hi, hi + 1, (int)s.below(hi + 1)}) if (k >= 0) { std::string t = times(k, s.coin()); if (s.chance(1, 4) && !t.empty()) t[s.below(t.size())] = (char)gen.ch(); if (t.size() < 3000) verdict(re, rx, pat, t, yes, no, "long"); }
		if (yes && no) nontrivial(); label(n > 99 ? "count of three digits" : "count of two digits");
	}
	g.expect_empty("regular expression");
}
// Patterns of hundreds of characters: many small parts one after the other, or many alternatives
static void many(Src & s)
{
	GlobalAudit g;
	{
		RxGen gen(s, s.chance(1, 4)); bool alts = s.chance(1, 3); size_t n = s.coin() ? 10 + s.below(50) : 10 + s.below(alts ? 150 : 300); Rx top(Rx::Alt), seq(Rx::Seq); std::vector<Rx> parts;
		for (size_t i = 0; i < n; ++i) { gen.budget = 6; int c = 0; if (alts) { Rx q(Rx::Seq); for (size_t k = 1 + s.below(4); k; --k) q.kids.push_back(gen.atom(0, c)); parts.push_back(q); } else { Rx it = gen.atom(s.chance(1, 8) ? 1 : 0, c); if (s.chance(1, 6)) { Rx r(Rx::Rep); r.kids.push_back(it); switch (s.below(4)) { case 0: r.min = 0; r.max = 1; r.src = "?"; break; case 1: r.min = 0; r.src = "*"; break; case 2: r.min = 1; r.src = "+"; break; default: r.min = 1; r.max = 2; r.src = "{1,2}"; } it = r; } parts.push_back(it); } }
		if (alts) top.kids = parts; else { seq.kids = parts; top.kids.push_back(seq); }
		std::string pat = RxGen::render(top); note("pattern of %zu parts /%s/", n, pbt::show(pat).c_str()); Exact xp(pat); Re::Regex re{String(xp.p)}; unsigned yes = 0, no = 0;
		for (int i = 0; i < 8; ++i)
		{
			std::string t; if (alts) gen.sample(parts[i < 2 ? i ? n - 1 : 0 : s.below(n)], t); else for (auto & k : parts) { std::string u; gen.sample(k, u); t += u; }
			if (i & 1) switch (s.below(4)) { case 0: if (!t.empty()) t[s.coin() ? t.size() - 1 : s.below(t.size())] = (char)gen.ch(); break; case 1: if (!t.empty()) t.erase(s.coin() ? t.size() - 1 : s.below(t.size()), 1); break; case 2: t.insert(s.coin() ? t.size() : s.below(t.size() + 1), 1, (char)gen.ch()); break; default: if (t.size() > 1) { size_t k = s.below(t.size() - 1); std::swap(t[k], t[k + 1]); } }
			verdict(re, top, pat, t, yes, no, "many parts");
		}
		if (yes && no) nontrivial(); label(pat.size() > 600 ? "more than 600 characters" : pat.size() > 256 ? "257..600 characters" : pat.size() > 64 ? "65..256 characters" : "at most 64 characters"); label(alts ? "alternatives" : "sequence");
	}
	g.expect_empty("regular expression");
}
// The same trees (and lookaheds, which have no notation) through the builder
// An alphabet of numbers: the caller says how its texts are read
namespace Re
{
template<> inline const int * AlphabetTraits<int>::consumeInput(const StringT & in, int32 n) { return in + n; }
template<> inline bool AlphabetTraits<int>::isEOF(const StringT & in) { return !*in; }
template<> inline const unsigned * AlphabetTraits<unsigned>::consumeInput(const StringT & in, int32 n) { return in + n; }
template<> inline bool AlphabetTraits<unsigned>::isEOF(const StringT & in) { return !*in; }
}
template<typename A> struct Sym { static A of(int c) { return (A)(c ? c * 250 + 7 : 0); } static int back(A a) { return a ? ((int)a - 7) / 250 : 0; } };
template<> struct Sym<char> { static char of(int c) { return (char)c; } static int back(char c) { return (unsigned char)c; } };
template<> struct Sym<int> { static int of(int c) { return c ? (c - 128) * 1000003 + 500 : 0; } static int back(int a) { return a ? (a - 500) / 1000003 + 128 : 0; } };
template<typename A> static void build(Re::AutomatonBuilder<A> & b, const Rx & r, Src & s)
{
	switch (r.kind)
	{
	case Rx::Chars:
	{
		int lo = 1; while (lo < 256 && !r.set[lo]) ++lo; int hi = 255; while (hi > lo && !r.set[hi]) --hi;
		if (r.set.count() == 1) { b.template pushState<Re::StateSymbol<A>>(Sym<A>::of(lo)); return; }
		if (r.set.count() == 255) { b.template pushState<Re::StateAny<A>>(); return; }
		bool range = !std::is_same<A, char>::value || hi < 128; for (int i = lo; range && i <= hi; ++i) range = r.set[i];
		if (range && lo <= hi) { b.template pushState<Re::StateRange<A>>(Sym<A>::of(lo), Sym<A>::of(hi)); return; }
		std::bitset<256> set = r.set;
		b.template pushState<Re::StateLambda<A>>([set](const A * const & in, int32 & n, int32) -> bool { n = 0; if (!*in || !set[Sym<A>::back(*in)]) return false; n = 1; return true; }, "set"); return;
	}
	case Rx::Begin: b.template pushState<Re::StateLambda<A>>([](const A * const &, int32 & n, int32 at) -> bool { n = 0; return at == 0; }); return;
	case Rx::End: b.template pushState<Re::StateLambda<A>>([](const A * const & in, int32 & n, int32) -> bool { n = 0; return !*in; }); return;
	case Rx::Bound: case Rx::NotBound: { bool want = r.kind == Rx::Bound; b.template pushState<Re::StateLambda<A>>([want](const A * const & in, int32 & n, int32 at) -> bool { n = 0; return ((at > 0 && RxMatcher::word(Sym<A>::back(in[-1]))) != RxMatcher::word(Sym<A>::back(*in))) == want; }); return; }
	case Rx::Seq: for (auto & k : r.kids) build(b, k, s); return;
	case Rx::Alt:
		if (r.group) b.beginGroup();
		for (size_t i = 0; i < r.kids.size(); ++i) { if (i) b.pushBranch(); build(b, r.kids[i], s); }
		if (r.group) b.endGroup(); return;
	case Rx::Rep:
		build(b, r.kids[0], s);
		if (r.max == 0) b.pushNone(); else if (r.min == 0 && r.max == 1 && s.coin()) b.pushSkip(); else if (r.min == 1 && r.max < 0 && s.coin()) b.pushJump();
		else if (r.min == 0 && r.max < 0 && s.coin()) { if (s.coin()) { b.pushSkip(); b.pushJump(); } else { b.pushJump(); b.pushSkip(); } }
		else b.pushRepeat(r.min, r.max < 0 ? 0 : r.max);
		return;
	case Rx::Ahead: b.template beginMacro<Re::StatePositiveLookahed<A>>(); build(b, r.kids[0], s); b.endMacro(); return;
	case Rx::NotAhead: b.template beginMacro<Re::StateNegativeLookahed<A>>(); build(b, r.kids[0], s); b.endMacro(); return;
	default: return;
	}
}
template<typename A> static void builder(Src & s)
{
	GlobalAudit g;
	{
		RxGen gen(s, s.coin()); gen.look = true; Rx rx = gen.expression(); std::string pat = RxGen::render(rx); note("tree /%s/", pbt::show(pat).c_str());
		Re::Automaton<A> a; { Re::AutomatonBuilder<A> b = a.createBuilder(); build(b, rx, s); b.endGroup(); }
		std::vector<std::string> texts; for (unsigned i = 0; i < 10; ++i) texts.push_back(gen.text(rx));
		unsigned yes = 0, no = 0;
		for (int round = 0; round < 2; ++round)
		{
			for (auto & t : texts) { bool e = RxMatcher(t).accepts(rx); std::unique_ptr<A[]> x(new A[t.size() + 1]); for (size_t i = 0; i <= t.size(); ++i) x[i] = Sym<A>::of(i < t.size() ? (unsigned char)t[i] : 0); bool r = a.acceptString(x.get()); REQUIRE(r == e, "automaton of /%s/ %s %s, it should %s (%s)", pbt::show(pat).c_str(), r ? "accepts" : "rejects", pbt::show(t).c_str(), e ? "accept" : "reject", round ? "after removing the epsilon states" : "as built"); (e ? yes : no)++; }
			if (!round) a.createOptimizer().removeEpsilons();
		}
		classify(gen, "builder"); if (yes && no && (gen.seen & (RxGen::ALT | RxGen::QUANT | RxGen::CLASS | RxGen::ANCHOR | RxGen::LOOK))) nontrivial();
	}
	g.expect_empty("automaton");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"general", general, 6000, 600000, "patterns over the whole notation"},
	{"exhaustive", exhaustive, 3000, 400000, "small patterns over {a,b}, against all 63 texts up to length 5"},
	{"classes", classes, 1500, 150000, "one or two classes, full of the characters that mean something there, against every character"},
	{"many", many, 400, 30000, "patterns of hundreds of characters"},
	{"long", longs, 240, 20000, "counts of two and three digits, texts of up to thousands of characters"},
	{"builder-unsigned", builder<unsigned>, 1000, 100000, "the same over an alphabet of unsigned numbers"},
	{"builder-int", builder<int>, 1000, 100000, "the same over an alphabet of numbers of either sign"},
	{"builder", builder<char>, 3500, 400000, "automata built with the builder, including lookaheds, before and after removing epsilon states"},
};
}
