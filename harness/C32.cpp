// NOSAN
// NOFUZZ
#include "m_compiler.h"
#include <limits>
#include <algorithm>
#include <cctype>
namespace pbt {
const char * PROPERTY = "C32";
const char * RULE = "a case writes a source file of generated constant expressions over what the library declares constexpr (number helpers, static arrays, names, tuples, vectors, matrices, type names, moves), each asserted (static_assert) to have the value a model outside the library gives it, or used where the language wants a constant (array bound, template argument, enumerator, constant initialiser), and has the compiler judge it; non-trivial: at least eight expressions";
}
using i128 = __int128;
struct Type { const char * name; int bits; bool is_signed; };
static const Type INT[] = {{"int8", 8, true}, {"int16", 16, true}, {"int32", 32, true}, {"int64", 64, true}, {"uint8", 8, false}, {"uint16", 16, false}, {"uint32", 32, false}, {"uint64", 64, false}};
static string num(i128 v) { if (v == 0) return "0"; bool n = v < 0; string t; while (v) { int d = (int)(v % 10); t += (char)('0' + (d < 0 ? -d : d)); v /= 10; } if (n) t += '-'; std::reverse(t.begin(), t.end()); return t; }
static i128 low(const Type & t) { return t.is_signed ? -((i128)1 << (t.bits - 1)) : 0; }
static i128 high(const Type & t) { return ((i128)1 << (t.bits - t.is_signed)) - 1; }
static i128 value(Src & s, const Type & t) { if (s.chance(1, 8)) return high(t); if (s.chance(1, 8)) return low(t); i128 v = (i128)s.bits(t.bits); if (t.is_signed && v > high(t)) v -= (i128)1 << t.bits; return v; }
// a literal of the type, exactly
static string lit(const Type & t, i128 v)
{
	if (t.bits < 64) return string("(") + t.name + ")(" + num(v) + "ll)";
	if (!t.is_signed) return string("(uint64)") + num(v) + "ull";
	return v == low(t) ? string("(int64)(-9223372036854775807ll - 1)") : "(int64)(" + num(v) + "ll)";
}
static const char LETTER[] = "abcXYZ 09_<>,:.-";
struct Program
{
	Src & s; string text; int n = 0, count = 0;
	Program(Src & s) : s(s) {}
	string id(const char * p) { return p + std::to_string(n++); }
	void line(const string & l) { text += l + "\n"; note("%s", l.c_str()); }
	void holds(const string & e) { ++count; switch (s.below(6)) { case 0: line("enum { " + id("e") + " = 1 / (int)(" + e + ") };"); break; case 1: line("extern char " + id("a") + "[(" + e + ") ? 1 : -1];"); break; case 2: line("static_assert(Only<(" + e + ")>::value, \"as computed at run time\");"); break; default: line("static_assert(" + e + ", \"as computed at run time\");"); } }
	void is(const string & e, const Type & t, i128 v) { holds("(" + e + ") == " + lit(t, v)); }
	const Type & type() { return INT[s.below(8)]; }
	// ---- numbers
	void numbers()
	{
		const Type & t = type(); string T = t.name;
		switch (s.below(8))
		{
		case 0: { i128 v = value(s, t); if (v == low(t) && t.is_signed) ++v; is("PlatformMath::abs(" + lit(t, v) + ")", t, v < 0 ? -v : v); break; }
		case 1: { i128 v = value(s, t); if (v < 0) v = -(v + 1); int e = 0; while (((i128)1 << (e + 1)) <= v) ++e; is("PlatformMath::log2(" + lit(t, v) + ")", t, e); break; }
		case 2: case 3: case 4: { bool lo = s.coin(); size_t k = 2 + s.below(5); string a; i128 r = 0; for (size_t i = 0; i < k; ++i) { i128 v = value(s, t); if (!i || (lo ? v < r : v > r)) r = v; a += (i ? ", " : "") + lit(t, v); } is(string("PlatformMath::") + (lo ? "min(" : "max(") + a + ")", t, r); break; }
		case 5: { i128 v = value(s, t); if (v < 0) v = -(v + 1); i128 a = (i128)1 << s.below(t.bits - 1); i128 down = v / a * a; is("PlatformMath::align2Down(" + lit(t, v) + ", (sizet)" + num(a) + "ull)", t, down); break; }
		case 6: { i128 v = value(s, t) / 4; if (v < 0) v = -(v + 1); i128 a = (i128)1 << s.below(t.bits - 2); i128 up = (v / a + 1) * a; if (up <= high(t)) is("PlatformMath::align2Up(" + lit(t, v) + ", (sizet)" + num(a) + "ull)", t, up); break; }
		default: { double v[3]; for (auto & x : v) x = ((int)s.below(4001) - 2000) / 8.0; auto f = [](double d) { char b[40]; snprintf(b, sizeof b, "(%.4f)", d); return string(b); }; string a = f(v[0]) + ", " + f(v[1]) + ", " + f(v[2]); holds("PlatformMath::min(" + a + ") == " + f(std::min({v[0], v[1], v[2]}))); holds("PlatformMath::max(" + a + ") == " + f(std::max({v[0], v[1], v[2]}))); holds("PlatformMath::abs" + f(v[0]) + " == " + f(v[0] < 0 ? -v[0] : v[0])); }
		}
	}
	// ---- static arrays
	void arrays()
	{
		const Type & t = type(); size_t k = 1 + s.below(s.chance(1, 6) ? 40 : 8); vector<i128> m; string l; for (size_t i = 0; i < k; ++i) { m.push_back(value(s, t)); l += (i ? ", " : "") + lit(t, m[i]); }
		string S = string("StaticArray<") + t.name + ", " + std::to_string(k) + ">", x = id("x"), at = std::to_string(s.below(k)); size_t i = atoi(at.c_str());
		switch (s.below(6))
		{
		case 0: if (k > 1) line("constexpr " + S + " " + x + "{" + l + "};"); else { line(string("constexpr ") + t.name + " " + x + "l[1] = {" + l + "};"); line("constexpr " + S + " " + x + "(" + x + "l);"); } break;
		case 1: line(string("constexpr ") + t.name + " " + x + "l[" + std::to_string(k) + "] = {" + l + "};"); line("constexpr " + S + " " + x + "(" + x + "l);"); break;
		case 2: line(string("constexpr ") + t.name + " " + x + "l[" + std::to_string(k) + "] = {" + l + "};"); line("constexpr auto " + x + " = makeStaticArray(" + x + "l);"); break;
		case 3: line("constexpr " + S + " " + x + ";"); m.assign(k, 0); break;
		case 4: { string b = id("f"); string body; m.assign(k, 0); for (size_t c = 1 + s.below(6); c; --c) { size_t j = s.below(k); i128 v = value(s, t); m[j] = v; body += (s.coin() ? "a[" + std::to_string(j) + "]" : "*(*a + " + std::to_string(j) + ")") + " = " + lit(t, v) + "; "; } line("constexpr " + S + " " + b + "() { " + S + " a; " + body + S + " b(a), c; c = b; " + S + " d(static_cast<" + S + "&&>(c)); return d; }"); line("constexpr auto " + x + " = " + b + "();"); break; }
		default: { line(string("constexpr ") + t.name + " " + x + "l[" + std::to_string(k) + "] = {" + l + "};"); line("constexpr " + S + " " + x + "o(" + x + "l);"); line("constexpr " + S + " " + x + " = " + x + "o;"); }
		}
		holds(x + ".getCount() == " + std::to_string(k)); is(x + "[" + at + "]", t, m[i]); is("*(*" + x + " + " + std::to_string(k - 1) + ")", t, m[k - 1]); if (s.coin()) line("extern char " + id("a") + "[" + x + ".getCount()];");
	}
	// ---- names
	void names()
	{
		size_t k = 1 + s.below(5); string whole, list; vector<string> parts, ids;
		for (size_t i = 0; i < k; ++i) { string t; for (size_t c = s.below(s.chance(1, 8) ? 80 : 9); c; --c) t += LETTER[s.below(sizeof LETTER - 1)]; string x = id("n"); if (s.chance(1, 4)) { size_t cut = s.below(t.size() + 1); line("static constexpr Name " + x + "(\"" + t + "\", " + std::to_string(cut) + ");"); t.resize(cut); } else line("static constexpr Name " + x + " = \"" + t + "\";"); parts.push_back(t); ids.push_back(x); }
		for (size_t i = 0; i < k; ++i) one(ids[i], parts[i]);
		if (k > 1) { for (size_t i = 0; i < k; ++i) { size_t j = s.chance(1, 5) ? 0 : i; whole += parts[j]; list += (i ? ", " : "") + ids[j]; } string x = id("n"); line("static constexpr Name " + x + " = JOIN_NAME(" + list + ");"); one(x, whole); holds("(*" + x + ")[" + std::to_string(whole.size()) + "] == '\\0'"); }
	}
	void one(const string & x, const string & t) { holds(x + ".getLength() == " + std::to_string(t.size())); if (!t.empty()) { size_t i = s.below(t.size()); holds(x + "[" + std::to_string(i) + "] == '" + t[i] + "'"); holds("(*" + x + ")[" + std::to_string(t.size() - 1) + "] == '" + t.back() + "'"); } }
	void types()
	{
		const Type & t = type(); string want = t.name; size_t i = s.below(want.size()); string e = string("TypeDebugInfo<") + t.name + ">::debugName"; holds(e + ".getLength() == " + std::to_string(want.size())); holds("(*" + e + ")[" + std::to_string(i) + "] == '" + want[i] + "'");
		if (s.coin()) { string x = id("n"); line("static constexpr Name " + x + " = \"Array<\"; static constexpr Name " + x + "e = \">\";"); line("static constexpr Name " + x + "j = JOIN_NAME(" + x + ", " + e + ", " + x + "e);"); one(x + "j", "Array<" + want + ">"); }
	}
	// ---- tuples
	void tuples()
	{
		size_t k = 1 + s.below(6); vector<const Type *> ts; vector<i128> m; string T, A; for (size_t i = 0; i < k; ++i) { ts.push_back(&type()); m.push_back(value(s, *ts[i])); T += string(i ? ", " : "") + ts[i]->name; A += (i ? ", " : "") + lit(*ts[i], m[i]); }
		string x = id("t");
		if (s.coin()) line("constexpr Tuple<" + T + "> " + x + "(" + A + ");");
		else { string f = id("f"), body; for (size_t c = s.below(4); c; --c) { size_t j = s.below(k); m[j] = value(s, *ts[j]); body += "t.get<" + std::to_string(j) + ">() = " + lit(*ts[j], m[j]) + "; "; } line("constexpr Tuple<" + T + "> " + f + "() { Tuple<" + T + "> t(" + A + "); " + body + "Tuple<" + T + "> u(t), v(static_cast<Tuple<" + T + ">&&>(u)); return v; }"); line("constexpr Tuple<" + T + "> " + x + " = " + f + "();"); }
		holds(x + ".getCount() == " + std::to_string(k)); for (size_t i = 0; i < k; ++i) { is(x + ".get<" + std::to_string(i) + ">()", *ts[i], m[i]); size_t first = 0; while (ts[first] != ts[i]) ++first; if (s.chance(1, 3)) is(x + string(".get<") + ts[i]->name + ">()", *ts[first], m[first]); }
	}
	// ---- vectors and matrices
	void vectors()
	{
		size_t d = 2 + s.below(3); const Type & t = INT[s.coin() ? 2 : 6]; string V = "Vec" + std::to_string(d) + "<" + t.name + ">", x = id("v"), y = id("v"), a, b; vector<i128> m, w;
		for (size_t i = 0; i < d; ++i) { m.push_back(value(s, t)); w.push_back(s.chance(1, 2) ? m[i] : value(s, t)); a += (i ? ", " : "") + lit(t, m[i]); b += (i ? ", " : "") + lit(t, w[i]); }
		switch (s.below(4)) { case 0: line("constexpr " + V + " " + x + ";"); m.assign(d, 0); break; case 1: line("constexpr " + V + " " + x + "(" + lit(t, m[0]) + ");"); m.assign(d, m[0]); break; default: line("constexpr " + V + " " + x + "(" + a + ");"); }
		line("constexpr " + V + " " + y + "(" + b + ");");
		for (size_t i = 0; i < d; ++i) is(x + ".array[" + std::to_string(i) + "]", t, m[i]);
		if (d == 3)
		{
			static const char * const NAME[] = {"eq", "ne", "lt", "gt", "le", "ge"}, * const OP[] = {"==", "!=", "<", ">", "<=", ">="}; int k = s.below(6), mask = 0; for (int i = 0; i < 3; ++i) { bool r[] = {m[i] == w[i], m[i] != w[i], m[i] < w[i], m[i] > w[i], m[i] <= w[i], m[i] >= w[i]}; mask |= r[k] << i; }
			holds(x + ".cmp" + NAME[k] + "(" + y + ") == " + std::to_string(mask)); holds("(" + x + " " + OP[k] + " " + y + ") == " + (mask == 7 ? "true" : "false"));
		}
	}
	void matrices()
	{
		const Type & t = INT[s.coin() ? 2 : 3]; string x = id("m"), a; vector<i128> m; for (int i = 0; i < 16; ++i) { m.push_back(value(s, t)); a += (i ? ", " : "") + lit(t, m[i]); }
		switch (s.below(3)) { case 0: line(string("constexpr Mat4<") + t.name + "> " + x + "(" + lit(t, m[0]) + ");"); m.assign(16, m[0]); break; default: line(string("constexpr Mat4<") + t.name + "> " + x + "(" + a + ");"); }
		for (int k = 0; k < 3; ++k) { int i = s.below(16); is(x + ".vec[" + std::to_string(i) + "]", t, m[i]); }
	}
	// ---- moves, and objects initialised before anything runs
	void moves() { const Type & t = type(); i128 v = value(s, t); string f = id("f"); line(string("constexpr ") + t.name + " " + f + "(" + t.name + " x) { " + t.name + " y = ::move(x); return ::forward<" + t.name + "&>(y); }"); is(f + "(" + lit(t, v) + ")", t, v); }
	void constants()
	{
		const Type & t = type(); i128 v = value(s, t); string x = id("g"); ++count;
		switch (s.below(5))
		{
		case 0: line(string("__constinit Atomic<") + t.name + "> " + x + "(" + lit(t, v) + ");"); break;
		case 1: line("__constinit Atomic<bool> " + x + (s.coin() ? "(true);" : "(false);")); break;
		case 2: line(string("__constinit Tuple<") + t.name + ", char> " + x + "(" + lit(t, v) + ", 'c');"); break;
		case 3: line(string("__constinit StaticArray<") + t.name + ", 4> " + x + ";"); break;
		default: line("__constinit Vec4<float32> " + x + "(1.f, 2.f, 3.f, 4.f);");
		}
	}
};
static void constant(Src & s)
{
	static const char * const H[] = {"math/math.h", "math/mat4.h", "templates/array.h", "templates/name.h", "containers/tuple.h", "templates/atomic.h", "hal/platform_math.h", "templates/type_info.h", "templates/utility.h"};
	Program p(s); string top; size_t first = s.below(9); for (size_t i = 0; i < 9; ++i) top += string("#include \"") + H[(i + first) % 9] + "\"\n"; top += "template<bool b> struct Only { static constexpr bool value = false; }; template<> struct Only<true> { static constexpr bool value = true; };\n";
	for (size_t k = 1 + s.below(40); k; --k) switch (s.below(10)) { case 0: case 1: p.numbers(); label("numbers"); break; case 2: p.arrays(); label("static arrays"); break; case 3: p.names(); label("names"); break; case 4: p.tuples(); label("tuples"); break; case 5: case 6: p.vectors(); label("vectors"); break; case 7: p.matrices(); label("matrices"); break; case 8: if (s.coin()) { p.types(); label("type names"); } else { p.moves(); label("moves"); } break; default: p.constants(); label("constant initialisers"); }
	Dir d; d.write("constant.cpp", top + p.text); vector<string> c = compiler("-O0"); c.push_back("-fsyntax-only"); c.push_back("constant.cpp"); int rc = finish(start(d, c, "constant.log", 60));
	if (rc) { compileFailed(d, "constant.log", rc, "not a constant of the expected value"); return; }
	label("expressions", p.count); if (p.count >= 8) nontrivial();
}
std::vector<pbt::Suite> pbt::SUITES = {
	{"constant", constant, 240, 6000, "source files of constant expressions"},
};
