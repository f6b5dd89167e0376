// Regular expressions: syntax trees, a rendering, and an independent matcher
// working on sets of positions (no automaton, no backtracking).
#pragma once
#include <bitset>
#include "support.h"
#include "regex/regex.h"

struct Rx
{
	enum Kind { Chars, Begin, End, Bound, NotBound, Seq, Alt, Rep, Ahead, NotAhead, Literal } kind;
	std::bitset<256> set; std::string src;            // Chars: the set and how it is written; Literal: text that stands for itself
	int min = 0, max = -1; bool group = false;        // Rep bounds; Alt written within parentheses
	std::vector<Rx> kids;
	Rx(Kind k = Seq) : kind(k) {}
};
using Pos = std::vector<bool>;

struct RxMatcher
{
	const std::string & t;
	RxMatcher(const std::string & s) : t(s) {}
	static bool word(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
	bool boundary(size_t i) const { return (i > 0 && word(t[i - 1])) != (i < t.size() && word(t[i])); }
	Pos none() const { return Pos(t.size() + 1, false); }
	static bool any(const Pos & p) { for (bool b : p) if (b) return true; return false; }
	static bool merge(Pos & a, const Pos & b) { bool grown = false; for (size_t i = 0; i < a.size(); ++i) if (b[i] && !a[i]) { a[i] = true; grown = true; } return grown; }
	// Where can a match end, given where it may start
	Pos ends(const Rx & r, const Pos & from) const
	{
		Pos out = none();
		switch (r.kind)
		{
		case Rx::Chars: for (size_t i = 0; i < t.size(); ++i) if (from[i] && r.set[(unsigned char)t[i]]) out[i + 1] = true; return out;
		case Rx::Literal: for (size_t i = 0; i + r.src.size() <= t.size(); ++i) if (from[i] && !t.compare(i, r.src.size(), r.src)) out[i + r.src.size()] = true; return out;
		case Rx::Begin: out[0] = from[0]; return out;
		case Rx::End: out[t.size()] = from[t.size()]; return out;
		case Rx::Bound: for (size_t i = 0; i <= t.size(); ++i) out[i] = from[i] && boundary(i); return out;
		case Rx::NotBound: for (size_t i = 0; i <= t.size(); ++i) out[i] = from[i] && !boundary(i); return out;
		case Rx::Seq: { Pos p = from; for (const Rx & k : r.kids) p = ends(k, p); return p; }
		case Rx::Alt: for (const Rx & k : r.kids) merge(out, ends(k, from)); return out;
		case Rx::Rep:
		{
			Pos p = from; for (int i = 0; i < r.min; ++i) p = ends(r.kids[0], p);
			out = p;
			if (r.max < 0) { for (;;) { p = ends(r.kids[0], p); if (!merge(out, p)) break; } }
			else for (int i = r.min; i < r.max; ++i) { p = ends(r.kids[0], p); merge(out, p); }
			return out;
		}
		case Rx::Ahead: case Rx::NotAhead:
			for (size_t i = 0; i <= t.size(); ++i) if (from[i]) { Pos p = none(); p[i] = true; out[i] = any(ends(r.kids[0], p)) == (r.kind == Rx::Ahead); }
			return out;
		}
		return out;
	}
	bool accepts(const Rx & r) const { Pos p = none(); p[0] = true; return ends(r, p)[t.size()]; }
};

struct RxGen
{
	bool punct = false;                                          // classes dwell on the characters that mean something there
	Src & s; unsigned alphabet; bool small; unsigned seen = 0;   // seen: features
	int budget;                                                  // states the expression may unfold to
	enum { ALT = 1, QUANT = 2, CLASS = 4, ANCHOR = 8, GROUP = 16, EMPTY = 32, NESTEDQ = 64, BRACE = 128, LOOK = 256 };
	RxGen(Src & src, bool sm) : s(src), alphabet(sm ? 0 : src.below(3)), small(sm), budget(small ? 40 : 250) {}

	// A character of the working alphabet
	unsigned char ch()
	{
		if (small) return "ab"[s.below(2)];
		if (punct && s.coin()) return "^-]\\[^"[s.below(6)];
		switch (alphabet)
		{
		case 0: return "abc"[s.below(3)];
		case 1: return "ab01_ -.A\n"[s.below(10)];
		default: return s.chance(1, 8) ? (unsigned char)(128 + s.below(128)) : s.chance(1, 3) ? "^$\\.*+?()[]{}|/-,:=!"[s.below(20)] : (unsigned char)(32 + s.below(95));
		}
	}
	static bool special(unsigned char c) { return c && strchr("^$\\.*+?()[]{}|", c); }
	static bool alnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
	static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
	static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
	static std::bitset<256> named(char c)
	{
		std::bitset<256> b; for (int i = 1; i < 256; ++i) { bool in = false; switch (c | 32) { case 'd': in = digit(i); break; case 's': in = space(i); break; case 'w': in = alnum(i); break; } b[i] = in == (c >= 'a'); } return b;
	}
	Rx symbol(unsigned char c)
	{
		Rx r(Rx::Chars); r.set[c] = true;
		if (special(c) && !((c == ']' || c == '}') && s.coin())) r.src = "\\";
		else if (c < 128 && c > 32 && !alnum(c) && s.chance(1, 6)) r.src = "\\";
		r.src += (char)c; return r;
	}
	Rx clazz()
	{
		Rx r(Rx::Chars); seen |= CLASS; bool neg = s.chance(1, 3); std::string body; unsigned n = 1 + s.below(4);
		if (!small && s.chance(1, 20)) { r.src = "[^]"; for (int i = 1; i < 256; ++i) r.set[i] = true; return r; }
		if (!small && s.chance(1, 8)) { body += '-'; r.set['-'] = true; }
		// a caret only negates in the first place
		if (!small && s.chance(1, punct ? 3 : 12)) { if (body.empty() && !neg) body += '\\'; body += '^'; r.set['^'] = true; }
		for (unsigned i = 0; i < n; ++i)
			switch (small ? s.below(2) : s.below(8))
			{
			case 0: case 2: case 3:
			{
				unsigned char c = ch();
				if (c == ']' || c == '\\' || c == '-' || (c == '^' && body.empty() && (!neg || s.coin())) || (c < 128 && !alnum(c) && c > 32 && s.chance(1, 4))) body += '\\';
				body += (char)c; r.set[c] = true; break;
			}
			case 1: case 4: case 5:
			{
				unsigned char a = ch(), b = ch(); if (s.coin() && !small) b = a + s.below(12);
				if ((a < 128) != (b < 128)) b = a; if (a > b) std::swap(a, b);
				auto bad = [&](unsigned char c) { return c == ']' || c == '\\' || c == '-' || c == '^' || c == '['; };
				if (bad(a) || s.chance(1, 12)) body += a < 128 && !alnum(a) && a > 32 ? "\\" : "";
				body += (char)a; body += '-';
				if (bad(b) || s.chance(1, 12)) body += b < 128 && !alnum(b) && b > 32 ? "\\" : "";
				body += (char)b; for (int x = a; x <= b; ++x) r.set[x] = true; break;
			}
			default: { char c = "dswDSW"[s.below(6)]; body += '\\'; body += c; r.set |= named(c); break; }
			}
		if (!small && s.chance(1, 8)) { body += '-'; r.set['-'] = true; }
		if (neg) { r.set.flip(); r.set[0] = false; }
		r.src = std::string(neg ? "[^" : "[") + body + "]"; return r;
	}
	Rx atom(int depth, int & cost)
	{
		switch (s.weighted({10, 2, 3, 2, (unsigned)(depth > 0 ? 6 : 0)}))
		{
		case 1: { Rx r(Rx::Chars); r.src = "."; for (int i = 1; i < 256; ++i) r.set[i] = true; cost = 1; return r; }
		case 2: cost = 3; return clazz();
		case 3: if (!small) { Rx r(Rx::Chars); char c = "dswDSW"[s.below(6)]; r.src = std::string("\\") + c; r.set = named(c); cost = 1; return r; }
			cost = 1; return symbol(ch());
		case 4: { seen |= GROUP; Rx r = alt(depth - 1, cost); r.group = true; cost += 2; return r; }
		default: cost = 1; return symbol(ch());
		}
	}
	bool look = false;   // lookaheds can only be written with the builder
	Rx item(int depth, int & cost)
	{
		if (s.chance(1, 9)) { seen |= ANCHOR; cost = 1; Rx r(s.pick({Rx::Begin, Rx::End, Rx::Bound, Rx::NotBound})); return r; }
		if (look && depth > 0 && s.chance(1, 5)) { seen |= LOOK; Rx r(s.coin() ? Rx::Ahead : Rx::NotAhead); r.kids.push_back(alt(depth - 1, cost)); cost += 3; return r; }
		if (!small && !look && s.chance(1, 40)) { seen |= BRACE; Rx r(Rx::Literal); r.src = s.pick<const char*>({"{}", "{x}", "{,2}", "{a,b}", "{2x}", "{1,b}"}); cost = 3; return r; }
		Rx a = atom(depth, cost);
		if (!s.chance(2, 5)) return a;
		Rx r(Rx::Rep);
		switch (s.below(7))
		{
		case 0: r.min = 0; r.max = 1; r.src = "?"; break;
		case 1: r.min = 0; r.max = -1; r.src = "*"; break;
		case 2: r.min = 1; r.max = -1; r.src = "+"; break;
		case 3: r.min = r.max = s.below(4); r.src = "{" + std::to_string(r.min) + "}"; break;
		case 4: r.min = s.below(4); r.max = -1; r.src = "{" + std::to_string(r.min) + ",}"; break;
		case 5: r.min = s.below(3); r.max = r.min + s.below(4); r.src = "{" + std::to_string(r.min) + "," + std::to_string(r.max) + "}"; break;
		default: if (small) { r.min = 0; r.max = 1; r.src = "?"; } else { r.min = s.below(12); r.max = r.min + s.below(6); r.src = "{" + std::to_string(r.min) + "," + std::to_string(r.max) + "}"; }
		}
		int n = r.max > r.min ? r.max : r.min; if (n < 1) n = 1;
		if (cost * n > budget) return a;
		cost = cost * n + 1; seen |= QUANT; if (a.group && contains(a, Rx::Rep)) seen |= NESTEDQ;
		r.kids.push_back(a); return r;
	}
	static bool contains(const Rx & r, Rx::Kind k) { if (r.kind == k) return true; for (auto & c : r.kids) if (contains(c, k)) return true; return false; }
	Rx seq(int depth, int & cost)
	{
		Rx r(Rx::Seq); unsigned n = s.chance(1, 10) ? 0 : 1 + s.below(small ? 3 : 4); cost = 0;
		if (!n) seen |= EMPTY;
		for (unsigned i = 0; i < n; ++i) { int c = 0; Rx k = item(depth, c); if (cost + c > budget) break; cost += c; r.kids.push_back(k); }
		return r;
	}
	Rx alt(int depth, int & cost)
	{
		Rx r(Rx::Alt); unsigned n = s.chance(2, 5) ? 2 + s.below(2) : 1; cost = 0;
		if (n > 1) seen |= ALT;
		for (unsigned i = 0; i < n; ++i) { int c = 0; Rx k = seq(depth, c); if (i && cost + c > budget) break; cost += c + 1; r.kids.push_back(k); }
		return r;
	}
	Rx expression() { int cost; return alt(small ? 2 : 3, cost); }

	static std::string render(const Rx & r)
	{
		std::string o;
		switch (r.kind)
		{
		case Rx::Chars: case Rx::Literal: return r.src;
		case Rx::Begin: return "^"; case Rx::End: return "$"; case Rx::Bound: return "\\b"; case Rx::NotBound: return "\\B";
		case Rx::Seq: for (auto & k : r.kids) o += render(k); return o;
		case Rx::Alt: for (size_t i = 0; i < r.kids.size(); ++i) { if (i) o += '|'; o += render(r.kids[i]); } return r.group ? "(" + o + ")" : o;
		case Rx::Rep: return render(r.kids[0]) + r.src;
		case Rx::Ahead: return "(?=" + render(r.kids[0]) + ")";
		case Rx::NotAhead: return "(?!" + render(r.kids[0]) + ")";
		}
		return o;
	}
	// A text the expression is likely to accept (anchors may still forbid it)
	void sample(const Rx & r, std::string & o)
	{
		if (o.size() > 60) return;
		switch (r.kind)
		{
		case Rx::Chars:
			if (r.set.none()) return;
			for (int i = 0; i < 3; ++i) { unsigned char c = ch(); if (r.set[c]) { o += (char)c; return; } }
			for (unsigned c = s.below(256), i = 0; i < 256; ++i, c = (c + 1) & 255) if (r.set[c]) { o += (char)c; return; }
			return;
		case Rx::Literal: o += r.src; return;
		case Rx::Seq: for (auto & k : r.kids) sample(k, o); return;
		case Rx::Alt: sample(r.kids[s.below(r.kids.size())], o); return;
		case Rx::Rep: { int n = r.min + s.below(r.max < 0 ? 4 : r.max - r.min + 1); for (int i = 0; i < n; ++i) sample(r.kids[0], o); return; }
		default: return;
		}
	}
	static void chars(const Rx & r, std::vector<const Rx*> & out) { if (r.kind == Rx::Chars && r.src.size() > 1) out.push_back(&r); for (auto & k : r.kids) chars(k, out); }
	// A character at the border of a class (or one of those written in it)
	char edge(const Rx & r)
	{
		if (s.coin()) return r.src[s.below(r.src.size())];
		std::vector<int> e; for (int c = 2; c < 256; ++c) if (r.set[c] != r.set[c - 1]) { e.push_back(c); e.push_back(c - 1); } return e.empty() ? 0 : (char)e[s.below(e.size())];
	}
	std::string text(const Rx & r)
	{
		std::string t;
		switch (s.below(8))
		{
		case 0: { unsigned n = s.below(8); for (unsigned i = 0; i < n; ++i) t += (char)ch(); return t; }
		case 1: return "";
		default: sample(r, t);
		}
		if (s.coin())
			for (unsigned i = 1 + s.below(2); i; --i)
				switch (s.below(6))
				{
				case 5: { std::vector<const Rx*> cs; chars(r, cs); if (cs.empty() || t.empty()) break; char c = edge(*cs[s.below(cs.size())]); if (c) t[s.below(t.size())] = c; break; }
				case 0: if (!t.empty()) t.erase(s.below(t.size()), 1); break;
				case 1: t.insert(s.below(t.size() + 1), 1, (char)ch()); break;
				case 2: if (!t.empty()) t[s.below(t.size())] = (char)ch(); break;
				case 3: t.resize(s.below(t.size() + 1)); break;
				default: { std::string u; sample(r, u); t += u; }
				}
		return t;
	}
};

// A text in a heap block of exactly its size: reading past its terminator is an overflow
struct Exact
{
	char * p;
	Exact(const std::string & t) { p = (char*)::malloc(t.size() + 1); ::memcpy(p, t.c_str(), t.size() + 1); }
	~Exact() { ::free(p); }
	Exact(const Exact &) = delete;
};
