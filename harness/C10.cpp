#include "m_string.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
namespace pbt {
const char * PROPERTY = "C10";
const char * RULE = "format: a format string with generated arguments against snprintf with an ample buffer; convert: numbers appended to or printed over a generated text; containers: generated containers rendered and compared with a reference rendering; non-trivial: the result is longer than 20 characters";
}
static std::string ref(const char * f, ...) { char * p = nullptr; va_list v; va_start(v, f); int n = vasprintf(&p, f, v); va_end(v); std::string r(p, n); free(p); return r; }
static void format(Src & s)
{
	GlobalAudit g;
	{
		// lengths around the sizes of likely buffers
		size_t n; switch (s.below(5)) { case 0: n = s.below(20); break; case 1: n = s.below(300); break; case 2: { static const size_t b[] = {255, 256, 511, 512, 1000, 1022, 1023, 1024, 1025, 1030, 2047, 2048, 4095, 4096}; n = b[s.below(14)]; n = n + s.below(5) - 2; break; } case 3: n = 1000 + s.below(100); break; default: n = s.below(6000); }
		std::string t; char c = 'a' + s.below(26); for (size_t i = 0; i < n; ++i) t += i % 97 == 5 ? '-' : c;
		int iv = s.integer<int>(); unsigned uv = s.integer<unsigned>(); long long lv = s.integer<long long>(); double dv = (double)s.range(-100000, 100000) / (1 + s.below(300)); if (s.chance(1, 6)) dv *= 1e200; int w = s.below(60);
		std::string e; unsigned how = s.below(9); String x("seed");
		switch (how)
		{
		case 0: x = String::format("%s", t.c_str()); e = t; break;
		case 1: x = String::format("%s|%d", t.c_str(), iv); e = ref("%s|%d", t.c_str(), iv); break;
		case 2: x = String::format("<%u %s %f>", uv, t.c_str(), dv); e = ref("<%u %s %f>", uv, t.c_str(), dv); break;
		case 3: x = String::format("%*d%%%lld", w, iv, lv); e = ref("%*d%%%lld", w, iv, lv); break;
		case 4: x = String::format("%.*s%c", w, t.c_str(), c); e = ref("%.*s%c", w, t.c_str(), c); break;
		case 5: { const String y(t.c_str()); x = String::format("[%s][%s]", *y, y.getData()); e = "[" + t + "][" + t + "]"; break; }
		case 6: x = String::format("%0*d%x%g", (int)(n % 3000), iv, uv, dv); e = ref("%0*d%x%g", (int)(n % 3000), iv, uv, dv); break;
		case 7: x = String::format(""); e = ""; break;
		default: { const int k = iv; const char * const p = t.c_str(); x = String::format("%d%s", k, p); e = ref("%d%s", iv, t.c_str()); break; }
		}
		note("format kind %u, %zu characters", how, e.size()); label(e.size() > 1023 ? "format longer than 1023" : e.size() > 200 ? "format 201..1023" : "format short");
		StringM::same(x, e, "format"); if (e.size() > 20) nontrivial();
	}
	g.expect_empty("format");
}
static void convert(Src & s)
{
	GlobalAudit g;
	{
		std::string m = gen_text(s, 400); String a(m.c_str()); StringM h;
		for (int k = 0; k < 6; ++k)
		{
			unsigned how = s.below(3);
			h.number(s, [&](auto v, const std::string & e) {
				note("%s %s on %zu characters", how == 0 ? "+=" : how == 1 ? "<<=" : "+", e.c_str(), m.size());
				if (how == 0) { a += v; m += e; } else if (how == 1) { label(e.size() < m.size() ? "printed over a longer text" : "printed over a shorter text"); a <<= v; m = e; } else { String b(static_cast<const String&>(a) + v); StringM::same(b, m + e, "sum"); a = b; m += e; }
			});
			StringM::same(a, m, "number"); if (m.size() > 20) nontrivial();
			if (s.below(3) == 0) { m = gen_text(s, 300); a = m.c_str(); }
		}
	}
	g.expect_empty("conversion");
}
// Reference renderings
static std::string rnd(int v) { return ref("%d", v); }
static std::string rnd(long long v) { return ref("%lld", v); }
static std::string rnd(unsigned v) { return ref("%u", v); }
static std::string rnd(double v) { return ref("%f", v); }
static std::string rnd(float v) { return ref("%f", v); }
static std::string rnd(char v) { return std::string(1, v); }
static std::string rnd(const std::string & v) { return v; }
template<typename V> static std::string rnd(const std::vector<V> & v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ", "; o += rnd(v[i]); } return o + "]"; }
template<typename V> static std::string rnd_list(const std::vector<V> & v) { if (v.empty()) return "[]"; std::string o = "[ "; for (size_t i = 0; i < v.size(); ++i) { if (i) o += "-> "; o += rnd(v[i]); } return o + " ]"; }

static void gen(Src & s, int & r, int & k) { r = k = s.integer<int>(); }
static void gen(Src & s, long long & r, int64 & k) { r = k = s.integer<long long>(); }
static void gen(Src & s, unsigned & r, uint32 & k) { r = k = s.integer<unsigned>(); }
static void gen(Src & s, double & r, float64 & k) { r = k = (double)s.range(-100000, 100000) / (1 + s.below(50)); }
static void gen(Src & s, float & r, float32 & k) { r = k = (float)s.range(-1000, 1000) / 8; }
static void gen(Src & s, char & r, char & k) { r = k = 'a' + s.below(26); }
static void gen(Src & s, std::string & r, String & k) { r = gen_text(s, 30); k = r.c_str(); }
template<typename RV, typename KV> static void gen(Src & s, std::vector<RV> & r, Array<KV> & k) { size_t n = s.below(6); for (size_t i = 0; i < n; ++i) { RV a{}; KV b{}; gen(s, a, b); r.push_back(a); k.add(b); } }

template<typename R, typename K> static void one(Src & s)
{
	std::vector<R> r; Array<K> k; List<K> l; size_t n = s.coin() ? s.below(4) : s.length(60);
	for (size_t i = 0; i < n; ++i) { R a{}; K b{}; gen(s, a, b); r.push_back(a); k.add(b); l.pushBack(b); }
	std::string e = rnd(r), el = rnd_list(r); const Array<K> & ck = k; const List<K> & cl = l;
	note("%zu items: %s", n, pbt::show(e).substr(0, 200).c_str()); label(n == 0 ? "container empty" : n == 1 ? "container of one" : "container of several");
	StringM::same(ck.toString(), e, "array"); StringM::same(cl.toString(), el, "list");
	std::string m = gen_text(s, 60); String x(m.c_str()); x += ck; StringM::same(x, m + e, "text += array"); x <<= ck; StringM::same(x, e, "text <<= array"); x += cl; StringM::same(x, e + el, "text += list"); x <<= cl; StringM::same(x, el, "text <<= list");
	if (n) { BinaryTree<K> * t = nullptr; (void)t; R a{}; K b{}; gen(s, a, b); BinaryNode<K> node(b); StringM::same(static_cast<const BinaryNode<K>&>(node).toString(), "Node<" + rnd(a) + ">", "node"); }
	if (e.size() > 20) nontrivial();
}
static void containers(Src & s)
{
	GlobalAudit g;
	switch (s.below(8)) { case 0: one<int, int>(s); break; case 1: one<long long, int64>(s); break; case 2: one<unsigned, uint32>(s); break; case 3: one<double, float64>(s); break; case 4: one<float, float32>(s); break; case 5: one<char, char>(s); break; case 6: one<std::string, String>(s); break; case 7: one<std::vector<int>, Array<int>>(s); break; }
	g.expect_empty("containers");
}
// Results of up to tens of thousands of characters
static void large(Src & s)
{
	GlobalAudit g;
	{
		size_t n = s.large(); std::string t(n, 'a' + s.below(26)); if (n) t[s.below(n)] = '#'; int v = s.integer<int>(); String x("seed"); std::string e; note("%zu characters", n);
		switch (s.below(4)) { case 0: x = String::format("%s", t.c_str()); e = t; break; case 1: x = String::format("%d %s %u", v, t.c_str(), (unsigned)v); e = ref("%d %s %u", v, t.c_str(), (unsigned)v); break; case 2: x = String::format("%*d", (int)n, v); e = ref("%*d", (int)n, v); break;
		default: { Array<int> a; std::vector<int> m; for (size_t i = 0; i < n / 4; ++i) { a.add((int)i * 7); m.push_back((int)i * 7); } x = a.toString(); e = rnd(m); } }
		StringM::same(x, e, "text"); x += v; e += ref("%d", v); StringM::same(x, e, "text += number"); if (n > 255) nontrivial(); label(n > 65535 ? "more than 65535 characters" : n > 255 ? "256..65535 characters" : "few characters");
	}
	g.expect_empty("large text");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"format", format, 200000, 3000000, "String::format"},
	{"large", large, 2000, 30000, "results of up to tens of thousands of characters"},
	{"convert", convert, 160000, 3000000, "+=, <<=, + of numbers"},
	{"containers", containers, 120000, 2000000, "toString of arrays, lists, nodes"},
};
}
