// Vectors against scalar arithmetic on their components
#include "support.h"
#include "core_types.h"
#include "misc/assert.h"
#include "hal/platform_math.h"
#include "math/math.h"
#include "math/simd.h"
template<typename V> struct VT;
template<typename U> struct VT<Vec2<U>> { using T = U; static constexpr int N = 2; template<typename W> using R = Vec2<W>; };
template<typename U> struct VT<Vec3<U>> { using T = U; static constexpr int N = 3; template<typename W> using R = Vec3<W>; };
template<typename U> struct VT<Vec4<U>> { using T = U; static constexpr int N = 4; template<typename W> using R = Vec4<W>; };

// Component within a magnitude such that products and their sums stay finite / do not overflow
template<typename T> static T comp(Src & s)
{
	if constexpr (std::is_floating_point<T>::value)
	{
		T v; bool neg = s.coin();
		switch (s.below(6))
		{
		case 0: v = (T)s.below(8); break;
		case 1: v = (T)s.below(1000) / 8; break;
		case 2: v = (T)(s.below(1u << 24)) / (T)(1u << 24); break;
		case 3: v = std::ldexp((T)1 + (T)s.below(1u << 20) / (T)(1u << 20), (int)s.below(81) - 40); break;
		case 4: v = std::ldexp((T)1, (int)s.below(61) - 30); break;
		default: v = (T)s.u32() / 997; break;
		}
		return neg ? -v : v;
	}
	else if constexpr (std::is_signed<T>::value) { int64_t lim = sizeof(T) == 4 ? 20000 : 1000000000; switch (s.below(3)) { case 0: return (T)((int64_t)s.below(9) - 4); case 1: return (T)((int64_t)s.below(200) - 100); default: return (T)((int64_t)s.below(2 * lim + 1) - lim); } }
	else return s.coin() ? (T)s.below(10) : s.integer<T>();
}
template<typename T> static T nonzero(Src & s) { T v = comp<T>(s); return v == T(0) ? T(1) : v; }
template<typename T> static std::string str(T v) { char b[64]; if constexpr (std::is_floating_point<T>::value) snprintf(b, 64, "%.9g", (double)v); else snprintf(b, 64, "%lld", (long long)v); return b; }
// Equal up to the rounding of one operation
template<typename T> static bool same(T a, T b)
{
	if constexpr (std::is_floating_point<T>::value) { if (a == b || (std::isnan(a) && std::isnan(b))) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs((double)a - (double)b) <= 2 * (double)std::numeric_limits<T>::epsilon() * std::fabs((double)b) + (double)std::numeric_limits<T>::denorm_min(); }
	else return a == b;
}
template<typename V> static void equal(const V & v, const std::vector<typename VT<V>::T> & e, const char * what)
{
	for (int i = 0; i < VT<V>::N; ++i) REQUIRE(same(v.array[i], e[i]), "component %d of %s is %s, expected %s", i, what, str(v.array[i]).c_str(), str(e[i]).c_str());
}
template<typename V> static V make(const std::vector<typename VT<V>::T> & c) { if constexpr (VT<V>::N == 2) return V(c[0], c[1]); else if constexpr (VT<V>::N == 3) return V(c[0], c[1], c[2]); else return V(c[0], c[1], c[2], c[3]); }
template<typename T> static std::string list(const std::vector<T> & v) { std::string r = "("; for (auto & x : v) r += str(x) + " "; r.back() = ')'; return r; }

template<typename V> static void arith(Src & s)
{
	using T = typename VT<V>::T; constexpr int N = VT<V>::N;
	std::vector<T> a(N), b(N), e(N); T k; int op = s.below(4); static const char * OP = "+-*/";
	for (auto & x : a) x = comp<T>(s); for (auto & x : b) x = op == 3 ? nonzero<T>(s) : comp<T>(s); k = op == 3 ? nonzero<T>(s) : comp<T>(s);
	auto f = [&](T x, T y) -> T { switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return y == T(0) ? T(0) : x / y; } };
	note("%s %c %s, scalar %s", list(a).c_str(), OP[op], list(b).c_str(), str(k).c_str());
	V x = make<V>(a), y = make<V>(b); const V & cx = x, & cy = y; equal(x, a, "a new vector");
	for (int i = 0; i < N; ++i) e[i] = f(a[i], b[i]);
#define ALL(EXPR_ADD, EXPR_SUB, EXPR_MUL, EXPR_DIV) (op == 0 ? (EXPR_ADD) : op == 1 ? (EXPR_SUB) : op == 2 ? (EXPR_MUL) : (EXPR_DIV))
	equal(ALL(cx + cy, cx - cy, cx * cy, cx / cy), e, "vector op vector"); equal(x, a, "the left operand afterwards"); equal(y, b, "the right operand afterwards");
	{ V z = x; V & r = ALL(z += y, z -= y, z *= y, z /= y); REQUIRE(&r == &z, "compound assignment does not return its left operand"); equal(z, e, "vector op= vector"); equal(y, b, "the right operand afterwards"); }
	for (int i = 0; i < N; ++i) e[i] = f(a[i], k);
	equal(ALL(cx + k, cx - k, cx * k, cx / k), e, "vector op scalar"); { V z = x; V & r = ALL(z += k, z -= k, z *= k, z /= k); REQ(&r == &z); equal(z, e, "vector op= scalar"); }
	{ V z = x, w(k); equal(w, std::vector<T>(N, k), "a vector made of a scalar"); equal(ALL(z + w, z - w, z * w, z / w), e, "vector op broadcast scalar"); }
	// operand of its own
	{ int j = s.below(N); T q = a[j]; if (op != 3 || q != T(0)) { for (int i = 0; i < N; ++i) e[i] = f(a[i], q); V z = x; ALL(z += z[j], z -= z[j], z *= z[j], z /= z[j]); equal(z, e, "vector op= its own component"); } }
	bool zeros = false; for (auto & q : a) zeros |= q == T(0);
	if (op != 3 || !zeros) { for (int i = 0; i < N; ++i) e[i] = f(a[i], a[i]); V z = x; ALL(z += z, z -= z, z *= z, z /= z); equal(z, e, "vector op= itself"); }
	if (op != 3 || !zeros) { for (int i = 0; i < N; ++i) e[i] = f(k, a[i]); equal(ALL(k + cx, k - cx, k * cx, k / cx), e, "scalar op vector"); equal(x, a, "the right operand afterwards"); }
#undef ALL
	for (int i = 0; i < N; ++i) e[i] = -a[i]; equal(-cx, e, "negation"); equal(x, a, "the negated vector afterwards");
	bool distinct = true; for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) if (a[i] == a[j]) distinct = false; if (distinct) nontrivial();
}
template<typename V> static void products(Src & s)
{
	using T = typename VT<V>::T; constexpr int N = VT<V>::N;
	std::vector<T> a(N), b(N); for (auto & x : a) x = comp<T>(s); for (auto & x : b) x = comp<T>(s); note("%s and %s", list(a).c_str(), list(b).c_str());
	V x = make<V>(a), y = make<V>(b); const V & cx = x, & cy = y;
	auto term = [](T p, T q) { if constexpr (std::is_floating_point<T>::value) return (long double)p * q; else return p * q; };
	using W = decltype(term(T(), T())); W dot = 0, sq = 0; long double mag = 0, sqmag = 0;
	for (int i = 0; i < N; ++i) { dot += term(a[i], b[i]); sq += term(a[i], a[i]); if constexpr (std::is_floating_point<T>::value) { mag += std::fabs(term(a[i], b[i])); sqmag += term(a[i], a[i]); } }
	auto close = [](T got, W want, long double m) { if constexpr (std::is_floating_point<T>::value) return std::fabs((long double)got - want) <= 6 * (long double)std::numeric_limits<T>::epsilon() * m + 1e-40L; else return got == want; };
	REQUIRE(close(cx & cy, dot, mag), "dot product is %s, expected %s", str(cx & cy).c_str(), str((T)dot).c_str());
	REQUIRE(close(cx & cx, sq, sqmag), "dot product with itself is %s, expected %s", str(cx & cx).c_str(), str((T)sq).c_str());
	REQUIRE(close(cx.getSquaredSize(), sq, sqmag), "squared size is %s, expected %s", str(cx.getSquaredSize()).c_str(), str((T)sq).c_str());
	if constexpr (N == 2) { auto c = cx ^ cy; W e = term(a[0], b[1]) - term(a[1], b[0]); REQ(c.x == T(0) && c.y == T(0)); REQUIRE(close(c.z, e, 2 * mag + (std::is_floating_point<T>::value ? std::fabs((long double)term(a[0], b[1])) + std::fabs((long double)term(a[1], b[0])) : 0)), "cross product is %s, expected %s", str(c.z).c_str(), str((T)e).c_str()); }
	if constexpr (N == 3) { V c = cx ^ cy; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; W e = term(a[j], b[k]) - term(a[k], b[j]); long double m = std::is_floating_point<T>::value ? std::fabs((long double)term(a[j], b[k])) + std::fabs((long double)term(a[k], b[j])) : 0; REQUIRE(close(c.array[i], e, m), "component %d of the cross product is %s, expected %s", i, str(c.array[i]).c_str(), str((T)e).c_str()); } }
	if constexpr (std::is_same<T, float32>::value)
	{
		double len = std::sqrt((double)sq); REQUIRE(std::fabs(cx.getSize() - len) <= 1e-6 * len, "size is %.9g, expected %.9g", cx.getSize(), len);
		if (len > 0) { V n = cx.getNormal(), m = x; V & r = m.normalize(); REQ(&r == &m); for (int i = 0; i < N; ++i) { double e = a[i] / len; REQUIRE(std::fabs(n.array[i] - e) <= 2e-6 && std::fabs(m.array[i] - e) <= 2e-6, "component %d of the normal is %.9g (in place %.9g), expected %.9g", i, n.array[i], m.array[i], e); } }
		if constexpr (N == 3) { double q = (double)sq, t = 4 * FLT_EPSILON; if (q < t * 0.99) REQUIRE(cx.isNearlyZero(), "vector of squared size %g is not nearly zero", q); if (q > t * 1.01) REQUIRE(!cx.isNearlyZero(), "vector of squared size %g is nearly zero", q); }
	}
	equal(x, a, "the left operand afterwards"); equal(y, b, "the right operand afterwards");
	int nz = 0; for (int i = 0; i < N; ++i) nz += a[i] != T(0) && b[i] != T(0); if (nz >= 2) nontrivial();
}
template<typename V> static void compare(Src & s)
{
	using T = typename VT<V>::T; constexpr int N = VT<V>::N; std::vector<T> a(N), b(N);
	int eq = 0;
	for (int i = 0; i < N; ++i)
	{
		a[i] = s.coin() ? comp<T>(s) : s.integer<int32>(); if constexpr (std::is_floating_point<T>::value) { if (s.chance(1, 12)) a[i] = std::numeric_limits<T>::infinity(); if (s.chance(1, 20)) a[i] = std::numeric_limits<T>::quiet_NaN(); }
		switch (s.below(4)) { case 0: b[i] = a[i]; ++eq; break; case 1: if constexpr (std::is_floating_point<T>::value) b[i] = std::nextafter(a[i], (T)(s.coin() ? 1e30 : -1e30)); else b[i] = s.coin() ? (a[i] == std::numeric_limits<T>::max() ? a[i] : a[i] + 1) : (a[i] == std::numeric_limits<T>::min() ? a[i] : a[i] - 1); break; case 2: b[i] = comp<T>(s); break; default: b[i] = a[i] == T(0) || a[i] == std::numeric_limits<T>::min() ? a[i] : (T)-a[i]; }
	}
	note("%s and %s", list(a).c_str(), list(b).c_str());
	V x = make<V>(a), y = make<V>(b); const V & cx = x, & cy = y; int m[6] = {};
	for (int i = 0; i < N; ++i) { m[0] |= (a[i] == b[i]) << i; m[1] |= (a[i] != b[i]) << i; m[2] |= (a[i] < b[i]) << i; m[3] |= (a[i] > b[i]) << i; m[4] |= (a[i] <= b[i]) << i; m[5] |= (a[i] >= b[i]) << i; }
	int full = (1 << N) - 1; int got[6] = {cx.cmpeq(cy), cx.cmpne(cy), cx.cmplt(cy), cx.cmpgt(cy), cx.cmple(cy), cx.cmpge(cy)}; bool op[6] = {cx == cy, cx != cy, cx < cy, cx > cy, cx <= cy, cx >= cy}; static const char * W[6] = {"==", "!=", "<", ">", "<=", ">="};
	for (int i = 0; i < 6; ++i) { REQUIRE(got[i] == m[i], "mask of %s is %#x, expected %#x", W[i], got[i], m[i]); REQUIRE(op[i] == (m[i] == full), "%s is %d, expected %d", W[i], op[i], m[i] == full); }
	if (eq > 0 && eq < N) nontrivial();
}
template<typename V> static void access(Src & s)
{
	using T = typename VT<V>::T; constexpr int N = VT<V>::N; std::vector<T> a(N); for (auto & x : a) x = comp<T>(s); note("%s", list(a).c_str());
	V x = make<V>(a); const V & c = x; V z; equal(z, std::vector<T>(N, T(0)), "a default vector");
	size_t ops = 1 + s.below(6); for (size_t q = 0; q < ops; ++q)
	{
		int i = s.below(N); T v = comp<T>(s); note("component %d = %s", i, str(v).c_str()); switch (s.below(3)) { case 0: x[i] = v; break; case 1: x.array[i] = v; break; default: if (i == 0) x.x = v; else if (i == 1) x.y = v; else if constexpr (N > 2) { if (i == 2) x.z = v; else if constexpr (N > 3) x.w = v; } } a[i] = v; equal(x, a, "the vector");
		for (int j = 0; j < N; ++j) REQ(&c[j] == &x.array[j] && &x[j] == &c[j]); REQ(&x.x == &x.array[0] && &x.y == &x.array[1]);
		if constexpr (N > 2) REQ(&x.z == &x.array[2]); if constexpr (N > 3) REQ(&x.w == &x.array[3]);
		if constexpr (N == 2) REQ(&x.u == &x.x && &x.v == &x.y); if constexpr (N == 3) REQ(&x.r == &x.x && &x.g == &x.y && &x.b == &x.z);
	}
	// conversions
	{ bool fits = true; for (auto & q : a) if ((double)q > 2e9 || (double)q < -2e9) fits = false; if (std::is_unsigned<T>::value) fits = false; if (fits) { std::vector<int32> e; for (auto & q : a) e.push_back((int32)q); typename VT<V>::template R<int32> w = x; equal(w, e, "the integer vector"); } std::vector<double> d; for (auto & q : a) d.push_back((double)q); typename VT<V>::template R<double> w = x; equal(w, d, "the double vector"); std::vector<float> fl; for (auto & q : a) fl.push_back((float)q); typename VT<V>::template R<float> wf = x; equal(wf, fl, "the float vector"); }
	T k = comp<T>(s);
	if constexpr (N == 2) { Vec3<T> w(x, k); equal(w, {a[0], a[1], k}, "vector extended to three components"); }
	if constexpr (N == 3) { Vec4<T> w(x, k), u(x); equal(w, {a[0], a[1], a[2], k}, "vector extended to four components"); equal(u, {a[0], a[1], a[2], T(0)}, "vector extended with nothing"); }
	if constexpr (N == 4) { Vec3<T> w = x; equal(w, {a[0], a[1], a[2]}, "vector without its last component"); }
	V copy(x), as; as = x; equal(copy, a, "a copy"); equal(as, a, "an assigned vector"); nontrivial();
}
#define EACH(F) switch (s.below(14)) { case 0: F<Vec2<float32>>(s); break; case 1: F<Vec3<float32>>(s); break; case 2: F<Vec4<float32>>(s); break; case 3: F<Vec2<int32>>(s); break; case 4: F<Vec3<int32>>(s); break; case 5: F<Vec4<int32>>(s); break; case 6: F<Vec2<uint32>>(s); break; case 7: F<Vec3<uint32>>(s); break; case 8: F<Vec4<uint32>>(s); break; case 9: F<Vec2<float64>>(s); break; case 10: F<Vec3<float64>>(s); break; case 11: F<Vec4<float64>>(s); break; case 12: F<Vec3<int64>>(s); break; default: F<Vec4<int64>>(s); }
static void all_arith(Src & s) { EACH(arith) }
static void all_products(Src & s) { EACH(products) }
static void all_compare(Src & s) { EACH(compare) }
static void all_access(Src & s) { EACH(access) }
static void simd(Src & s)
{
#if PLATFORM_USE_SIMD
	using S = Vector4<float32>; std::vector<float> a(4), b(4); int op = s.below(4); for (auto & x : a) x = comp<float>(s); for (auto & x : b) x = op == 3 ? nonzero<float>(s) : comp<float>(s); note("lanes %s %c %s", list(a).c_str(), "+-*/"[op], list(b).c_str());
	alignas(16) float pa[4], out[9]; std::copy(a.begin(), a.end(), pa); float un[5]; size_t off = s.below(2); std::copy(b.begin(), b.end(), un + off);
	auto x = s.coin() ? S::load((const float*)pa) : S::load(a[0], a[1], a[2], a[3]); auto y = S::loadu(un + off);
	auto r = op == 0 ? S::add(x, y) : op == 1 ? S::sub(x, y) : op == 2 ? S::mul(x, y) : S::div(x, y);
	Vec4<float> va = make<Vec4<float>>(a), vb = make<Vec4<float>>(b), vr = op == 0 ? va + vb : op == 1 ? va - vb : op == 2 ? va * vb : va / vb;
	for (auto & q : out) q = 77; size_t o = s.below(4); S::store(out + 1 + o, r); for (int i = 0; i < 4; ++i) REQUIRE(same(out[1 + o + i], vr.array[i]), "lane %d is %g, scalar result %g", i, out[1 + o + i], vr.array[i]); for (size_t i = 0; i < 9; ++i) if (i < 1 + o || i >= 5 + o) REQUIRE(out[i] == 77, "store wrote outside of the four lanes");
	S::store(out + o, S::load(a[2])); for (int i = 0; i < 4; ++i) REQUIRE(out[o + i] == a[2], "lane %d of a broadcast", i);
#endif
	nontrivial();
}
static void constants(Src & s)
{
	using V = Vec3<float32>; float a = comp<float>(s), b = comp<float>(s), c = comp<float>(s); note("%g %g %g", a, b, c);
	// the named directions are the axes of a right-handed frame
	equal(V::right * a + V::up * b + V::forward * c, {a, b, c}, "combination of right, up and forward"); equal(V::left * a + V::down * b + V::backward * c, {-a, -b, -c}, "combination of left, down and backward"); equal(V::right ^ V::up, {0, 0, 1}, "right ^ up"); equal(V::zero, {0, 0, 0}, "zero"); if (a != 0) nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"arithmetic", all_arith, 1200000, 6000000, "components of the left operand all different"},
	{"products", all_products, 1200000, 6000000, "at least two components non-zero in both operands"},
	{"comparison", all_compare, 800000, 4000000, "some components equal and some not"},
	{"access", all_access, 400000, 2000000, "every case: written through every name, converted"},
	{"simd", simd, 400000, 2000000, "every case: four lanes through load, operation and store"},
	{"constants", constants, 80000, 320000, "first coefficient not zero"},
};
const char * PROPERTY = "C21";
const char * RULE = "distinct components (arithmetic), two or more products that matter (products), mixed masks (comparison)";
}
