// Rotations against Rodrigues' formula in double precision; matrices against plain arrays
#include "support.h"
#include "core_types.h"
#include "misc/assert.h"
#include "hal/platform_math.h"
#include "math/math.h"
#include "math/mat4.h"
using v3 = Vec3<float32>;
struct D3 { double v[3]; double & operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; } };
static D3 cross(const D3 & a, const D3 & b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double dot(const D3 & a, const D3 & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double len(const D3 & a) { return std::sqrt(dot(a, a)); }
static D3 rotate(const D3 & k, double t, const D3 & v) { D3 c = cross(k, v); double d = dot(k, v), co = std::cos(t), si = std::sin(t); D3 r; for (int i = 0; i < 3; ++i) r[i] = v[i] * co + c[i] * si + k[i] * d * (1 - co); return r; }
struct Rot { D3 m[3]; D3 operator()(const D3 & v) const { return {dot(m[0], v), dot(m[1], v), dot(m[2], v)}; } };
static Rot of(const D3 & k, double t) { Rot r; for (int j = 0; j < 3; ++j) { D3 e = {0, 0, 0}; e[j] = 1; D3 c = rotate(k, t, e); for (int i = 0; i < 3; ++i) r.m[i][j] = c[i]; } return r; }
static Rot times(const Rot & a, const Rot & b) { Rot r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static Rot inverse(const Rot & a) { Rot r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
static D3 d(const v3 & v) { return {v.x, v.y, v.z}; }
static v3 f(const D3 & v) { return v3((float)v[0], (float)v[1], (float)v[2]); }
static void near(const v3 & g, const D3 & e, double tol, const char * what) { for (int i = 0; i < 3; ++i) REQUIRE(std::fabs(g.array[i] - e[i]) <= tol, "%s: component %d is %.8g, expected %.8g (tolerance %.2g)", what, i, g.array[i], e[i], tol); }

static D3 axis(Src & s)
{
	D3 a;
	switch (s.below(4))
	{
	case 0: { a = {0, 0, 0}; a[s.below(3)] = s.coin() ? -1 : 1; return a; }
	case 1: for (int i = 0; i < 3; ++i) a[i] = (int)s.below(5) - 2; break;
	case 2: { for (int i = 0; i < 3; ++i) a[i] = ((int)s.below(2001) - 1000) / 1e6; a[s.below(3)] += s.coin() ? 1 : -1; break; }
	default: for (int i = 0; i < 3; ++i) a[i] = ((int)s.below(200001) - 100000) / 1e5;
	}
	double l = len(a); if (l < 1e-3) return {0, 0, 1}; for (int i = 0; i < 3; ++i) a[i] /= l; return a;
}
static double angle(Src & s)
{
	static const double P = 3.14159265358979323846; double t;
	switch (s.below(6)) { case 0: t = P / 12 * s.below(49); break; case 1: t = P * s.below(5) / 2; break; case 2: t = std::pow(10, -1.0 * s.below(8)); break; case 3: t = P - std::pow(10, -1.0 - s.below(6)); break; case 4: t = 2 * P - std::pow(10, -1.0 - s.below(6)); break; default: t = s.below(1000001) / 1e6 * 4 * P; }
	return s.chance(1, 3) ? -t : t;
}
static D3 vector(Src & s) { D3 a; double m = std::pow(10, (int)s.below(7) - 3); switch (s.below(3)) { case 0: a = {0, 0, 0}; a[s.below(3)] = 1; break; case 1: for (int i = 0; i < 3; ++i) a[i] = (int)s.below(11) - 5; break; default: for (int i = 0; i < 3; ++i) a[i] = (((int)s.below(20001) - 10000) / 1e4) * m; } return d(f(a)); }
static double size(const D3 & v) { return len(v) + 1e-30; }

// What q does, read back in every way the class offers, against the rotation r
static void describes(const Quat & q, const Rot & r, Src & s, double tol, int vectors = 3)
{
	for (int i = 0; i < vectors; ++i) { D3 v = vector(s); v3 g = q * f(v); near(g, r(v), tol * size(v), "rotated vector"); REQUIRE(std::fabs((double)g.getSize() - len(v)) <= tol * size(v), "length changed from %g to %g", len(v), g.getSize()); }
	D3 e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, n[3] = {{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
	near(q.getRight(), r(e[0]), tol, "right"); near(q.getUp(), r(e[1]), tol, "up"); near(q.getForward(), r(e[2]), tol, "forward"); near(q.getLeft(), r(n[0]), tol, "left"); near(q.getDown(), r(n[1]), tol, "down"); near(q.getBackward(), r(n[2]), tol, "backward");
	auto ax = q.getAxes(); near(ax[0], r(e[0]), 3 * tol, "first axis"); near(ax[1], r(e[1]), 3 * tol, "second axis"); near(ax[2], r(e[2]), 3 * tol, "third axis");
	float t = 0; v3 k(9.f, 9.f, 9.f); q.getAngleAndAxis(t, k); REQUIRE(std::isfinite(t) && std::isfinite(k.x) && std::isfinite(k.y) && std::isfinite(k.z), "angle %g and axis (%g %g %g) read back", t, k.x, k.y, k.z);
	REQUIRE(std::fabs(k.getSize() - 1) < 1e-4, "axis read back has length %g", k.getSize()); REQUIRE(q.getAngle() == t || std::fabs(q.getAngle() - t) < 1e-5, "getAngle() is %g, getAngleAndAxis() gives %g", q.getAngle(), t);
	// the arc cosine of a single-precision number near one is only good to its square root
	double sn = 1 - (double)q.w * q.w, rt = sn > 1e-2 ? 20 * tol : 5e-3; Rot b = of(d(k), t); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(std::fabs(b.m[i][j] - r.m[i][j]) <= rt, "angle %g and axis (%g %g %g) read back describe another rotation", t, k.x, k.y, k.z);
}
static void single(Src & s)
{
	D3 k = axis(s); double t = angle(s); v3 kf = f(k); k = d(kf); { double l = len(k); for (int i = 0; i < 3; ++i) k[i] /= l; } t = (float)t; note("angle %.8g axis (%g %g %g)", t, k[0], k[1], k[2]);
	Rot r = of(k, t); Quat q((float)t, kf); describes(q, r, s, 4e-6); describes(-q, inverse(r), s, 4e-6); describes(Quat(q), r, s, 4e-6, 1);
	D3 v = vector(s); near(-q * (q * f(v)), v, 1e-5 * size(v), "rotated there and back"); near((q * -q) * f(v), v, 1e-5 * size(v), "rotated by the product with the inverse");
	{ D3 w = vector(s); v3 a = q * f(v), b = q * f(w); double e = dot(v, w); REQUIRE(std::fabs((a & b) - e) <= 1e-5 * size(v) * size(w), "dot product changed from %g to %g", e, a & b); D3 cr = cross(v, w); near(a ^ b, r(cr), 2e-5 * size(v) * size(w), "cross product of rotated vectors"); }
	{ Quat i; Rot id = of({0, 0, 1}, 0); describes(i, id, s, 1e-6, 1); describes(i * q, r, s, 4e-6, 1); describes(q * i, r, s, 4e-6, 1); }
	int moved = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) moved += i != j && std::fabs(r.m[i][j]) > 1e-3; if (moved >= 4) nontrivial();
}
static void rotation_vector(Src & s)
{
	D3 k = axis(s); double t = std::fabs(angle(s)); v3 w = f({k[0] * t, k[1] * t, k[2] * t}); D3 wd = d(w); double l = len(wd); note("rotation vector (%g %g %g)", w.x, w.y, w.z);
	Rot r = l > 0 ? of({wd[0] / l, wd[1] / l, wd[2] / l}, l) : of({0, 0, 1}, 0); describes(Quat(w), r, s, 8e-6); if (l > 0.01) nontrivial();
}
static void compose(Src & s)
{
	size_t n = 2 + s.below(6); Rot r = of({0, 0, 1}, 0); Quat q; std::vector<Quat> parts; double tol = 4e-6; int k = 0;
	for (size_t i = 0; i < n; ++i)
	{
		D3 a = axis(s); double t = (float)angle(s); v3 af = f(a); a = d(af); double l = len(a); for (int j = 0; j < 3; ++j) a[j] /= l; bool inv = s.chance(1, 4), left = s.coin(); note("%s by %s%.6g about (%g %g %g)", left ? "then" : "first", inv ? "the inverse of " : "", t, a[0], a[1], a[2]);
		Quat p((float)t, af); Rot m = of(a, t); if (inv) { p = -p; m = inverse(m); }
		q = left ? p * q : q * p; r = left ? times(m, r) : times(r, m); tol += 4e-6; describes(q, r, s, tol, 1); ++k;
		// (q p) v = q (p v)
		D3 v = vector(s); v3 x = (q * p) * f(v), y = q * (p * f(v)); near(x, d(y), 3 * tol * size(v), "product against one rotation after the other"); near(x, r(m(v)), 3 * tol * size(v), "rotated by the product");
		parts.push_back(p);
	}
	if (n >= 3) { Quat a = parts[0], b = parts[1], c = parts[2]; Quat x = (a * b) * c, y = a * (b * c); for (int i = 0; i < 4; ++i) REQUIRE(std::fabs(x.array[i] - y.array[i]) < 1e-5, "component %d of the product depends on the grouping: %g and %g", i, x.array[i], y.array[i]); }
	nontrivial();
}
template<typename T> static void matrix(Src & s)
{
	T m[16], o[16]; for (int i = 0; i < 16; ++i) { m[i] = (T)((int)s.below(1000) - 500) / (T)(std::is_floating_point<T>::value ? 8 : 1); o[i] = s.coin() ? m[i] : (T)(int)s.below(1000); }
	using M = Mat4<T>; M a((const T*)m), b(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], o[12], o[13], o[14], o[15]); size_t ops = 1 + s.below(14); int writes = 0;
	auto same = [](const M & x, const T * e, const char * w)
	{
		M y = x; T * n[16] = {&y.a, &y.b, &y.c, &y.d, &y.e, &y.f, &y.g, &y.h, &y.i, &y.j, &y.k, &y.l, &y.m, &y.n, &y.o, &y.p};
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { T v = e[4 * i + j]; REQUIRE(x(i, j) == v, "(%d, %d) of %s is %g, expected %g", i, j, w, (double)x(i, j), (double)v); REQUIRE(x[i][j] == v && x(4 * i + j) == v && (*x)[4 * i + j] == v && x.vec[4 * i + j] == v && x.mat[i][j] == v, "element (%d, %d) of %s differs between ways of reading it", i, j, w); REQUIRE(y[i][j] == v && y(i, j) == v && y(4 * i + j) == v && (*y)[4 * i + j] == v && *n[4 * i + j] == v, "element (%d, %d) of a copy of %s", i, j, w); }
	};
	same(a, m, "the matrix made from a buffer"); same(b, o, "the matrix made from a list");
	for (size_t k = 0; k < ops; ++k)
	{
		M & x = s.coin() ? a : b; T * e = &x == &a ? m : o;
		switch (s.below(7))
		{
		case 0: { int i = s.below(4), j = s.below(4); T v = (T)(int)s.below(100); note("%s(%d, %d) = %g", &x == &a ? "a" : "b", i, j, (double)v); switch (s.below(4)) { case 0: x(i, j) = v; break; case 1: x[i][j] = v; break; case 2: x(4 * i + j) = v; break; default: (*x)[4 * i + j] = v; } e[4 * i + j] = v; ++writes; break; }
		case 1: { note("transpose"); M & r = x.transpose(); REQ(&r == &x); T t[16]; for (int i = 0; i < 16; ++i) t[i] = e[(i % 4) * 4 + i / 4]; memcpy(e, t, sizeof t); ++writes; break; }
		case 2: { note("transpose twice"); M y = x; y.transpose().transpose(); same(y, e, "a matrix transposed twice"); break; }
		case 3: { note("copy"); M y(x); M z(T(3)); T three[16]; for (auto & q : three) q = 3; same(z, three, "a matrix made of a scalar"); z = x; x(s.below(16)) = T(7); same(y, e, "a copy"); same(z, e, "an assigned matrix"); x = y; break; }
		case 4: { note("a = b"); a = b; memcpy(m, o, sizeof m); break; }
		case 5: { int i = s.below(16); note("element %d of b as in a", i); b(i) = a(i); o[i] = m[i]; ++writes; break; }
		default: { note("make equal but one"); b = a; memcpy(o, m, sizeof m); int i = s.below(16); REQ(a == b && !(a != b)); o[i] = m[i] + 1; b(i) = o[i]; REQUIRE(a != b && !(a == b), "matrices that differ in element %d only are equal", i); ++writes; }
		}
		same(a, m, "a"); same(b, o, "b"); unsigned want = 0; for (int i = 0; i < 16; ++i) want = want << 1 | (m[i] == o[i]); REQUIRE(a.cmp(b) == want, "comparison mask is %#x, expected %#x", a.cmp(b), want); REQUIRE((a == b) == (want == 0xffff) && (a != b) == (want != 0xffff), "== or != contradict the elements");
	}
	if (writes >= 2) nontrivial();
}
static void matrices(Src & s) { switch (s.below(4)) { case 0: matrix<float32>(s); break; case 1: matrix<float64>(s); break; case 2: matrix<int32>(s); break; default: matrix<int64>(s); } }
namespace pbt {
std::vector<Suite> SUITES = {
	{"rotation", single, 600000, 2400000, "rotation moves at least two axes"},
	{"rotation-vector", rotation_vector, 400000, 1600000, "rotation of more than 0.01 radians"},
	{"composition", compose, 250000, 1000000, "two or more rotations composed"},
	{"matrix", matrices, 600000, 2400000, "at least two elements or the layout changed"},
};
const char * PROPERTY = "C22";
const char * RULE = "a rotation that moves at least two axes, a composition of two or more, or a matrix changed at least twice";
}
