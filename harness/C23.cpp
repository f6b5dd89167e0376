// Scalar helpers against arithmetic on wider integers
#include "support.h"
#include "core_types.h"
#include "misc/assert.h"
#include "hal/platform_math.h"
using i128 = __int128;
static std::string str(i128 v) { if (v < 0) return "-" + str(-v); std::string r; do { r.insert(r.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return r; }
#define IS(GOT, WANT, ...) do { i128 _g = (i128)(GOT), _w = (i128)(WANT); if (_g != _w) { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); ::pbt::fail("%s is %s, expected %s", _b, str(_g).c_str(), str(_w).c_str()); } } while (0)
template<typename T> static bool fits(i128 v) { return v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max(); }
template<typename T> static const char * S(T v) { static char b[4][48]; static int k; k = (k + 1) & 3; snprintf(b[k], 48, "%s", str((i128)v).c_str()); return b[k]; }

template<typename T> static void unary(T n)
{
	if (n >= 0) { int e = 0; while (e < 63 && ((i128)1 << (e + 1)) <= (i128)n) ++e; IS(PlatformMath::log2(n), n == 0 ? 0 : e, "log2(%s)", S(n)); }
	if (fits<T>(n < 0 ? -(i128)n : (i128)n)) IS(PlatformMath::abs(n), n < 0 ? -(i128)n : (i128)n, "abs(%s)", S(n));
	for (unsigned k = 0; k < 8 * sizeof(T); ++k)
	{
		i128 a = (i128)1 << k, down = (i128)n - (((i128)n % a) + a) % a, up = down + a;
		if (fits<T>(down)) IS(PlatformMath::align2Down(n, (sizet)a), down, "align2Down(%s, %s)", S(n), str(a).c_str());
		if (fits<T>(up)) IS(PlatformMath::align2Up(n, (sizet)a), up, "align2Up(%s, %s)", S(n), str(a).c_str());
	}
}
template<typename T> static void binary(T a, T b) { IS(PlatformMath::min(a, b), a < b ? a : b, "min(%s, %s)", S(a), S(b)); IS(PlatformMath::max(a, b), a > b ? a : b, "max(%s, %s)", S(a), S(b)); }
// sweeps of narrow types: the low byte is exhausted in each case
template<typename T> static void sweep(Src & s)
{
	unsigned hi = sizeof(T) == 1 ? 0 : s.below(256); T o = s.integer<T>(); note("%zu-bit values %#x00.. against %s", 8 * sizeof(T), hi, S(o));
	for (unsigned lo = 0; lo < 256; ++lo) { T v = (T)(hi << 8 | lo); unary(v); binary(v, o); binary(o, v); binary(v, v); }
	nontrivial();
}
static void narrow(Src & s) { switch (s.below(4)) { case 0: sweep<int8>(s); break; case 1: sweep<uint8>(s); break; case 2: sweep<int16>(s); break; default: sweep<uint16>(s); } }
template<typename T> static void one(Src & s)
{
	T v[6]; bool extreme = false; for (auto & x : v) { x = s.integer<T>(); if (s.chance(1, 10)) x = s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); extreme |= x == std::numeric_limits<T>::max() || x == std::numeric_limits<T>::min() || x < 0; } if (s.chance(1, 4)) v[1] = v[0]; if (s.chance(1, 4)) v[2] = (T)((typename std::make_unsigned<T>::type)v[0] + 1);
	note("%s %s %s %s %s %s", S(v[0]), S(v[1]), S(v[2]), S(v[3]), S(v[0]), S(v[1])); for (auto & x : v) unary(x); for (auto & x : v) for (auto & y : v) binary(x, y);
	T lo = v[0], hi = v[0]; for (int i = 1; i < 6; ++i) { lo = v[i] < lo ? v[i] : lo; hi = v[i] > hi ? v[i] : hi; if (i == 2) { IS(PlatformMath::min(v[0], v[1], v[2]), lo, "min of three"); IS(PlatformMath::max(v[0], v[1], v[2]), hi, "max of three"); } if (i == 3) { IS(PlatformMath::min(v[0], v[1], v[2], v[3]), lo, "min of four"); IS(PlatformMath::max(v[0], v[1], v[2], v[3]), hi, "max of four"); } }
	IS(PlatformMath::min(v[0], v[1], v[2], v[3], v[4], v[5]), lo, "min of six"); IS(PlatformMath::max(v[0], v[1], v[2], v[3], v[4], v[5]), hi, "max of six");
	if (extreme || sizeof(T) < 8) nontrivial();
}
static void wide(Src & s) { switch (s.below(8)) { case 6: one<long>(s); break; case 7: one<unsigned long>(s); break; case 0: one<int32>(s); break; case 1: one<uint32>(s); break; case 2: one<int64>(s); break; case 3: one<uint64>(s); break; case 4: one<int16>(s); break; default: one<sizet>(s); } }
template<typename T, typename U> static void ipow(Src & s)
{
	U e = (U)s.below(s.coin() ? 8 : 8 * sizeof(T)); T b;
	if constexpr (std::is_unsigned<T>::value && sizeof(T) >= 4)
	{	// modulo 2^w
		b = s.integer<T>(); T r = 1; for (U i = 0; i < e; ++i) r *= b; note("pow(%s, %d)", S(b), (int)e); IS(PlatformMath::pow(b, e), r, "pow(%s, %d)", S(b), (int)e);
	}
	else
	{
		int64_t lim = 2; switch (e) { case 0: case 1: lim = std::numeric_limits<T>::max(); break; case 2: lim = sizeof(T) == 8 ? 3000000000ll : sizeof(T) == 4 ? 46000 : 181; break; case 3: lim = sizeof(T) == 8 ? 2000000 : sizeof(T) == 4 ? 1290 : 31; break; case 4: case 5: lim = sizeof(T) == 8 ? 6000 : 73; break; default: lim = 12; } if (lim > std::numeric_limits<T>::max()) lim = std::numeric_limits<T>::max(); b = (T)s.range(-lim, lim); if (std::is_unsigned<T>::value && (int64_t)b < 0) b = 1;
		i128 r = 1; bool ok = true; for (U i = 0; i < e && ok; ++i) { r *= b; ok = r <= (i128)1 << 64 && r >= -((i128)1 << 64); } note("pow(%s, %d)", S(b), (int)e); if (ok && fits<T>(r)) IS(PlatformMath::pow(b, e), r, "pow(%s, %d)", S(b), (int)e); else { label("overflow, not computed"); return; }
	}
	if (e >= 2 && b != 0 && b != 1) nontrivial();
}
static void power(Src & s)
{
	switch (s.below(9))
	{
	case 8: if (s.coin()) ipow<long, unsigned long>(s); else ipow<unsigned long, long>(s); break;
	case 0: ipow<int32, int32>(s); break; case 1: ipow<uint32, uint32>(s); break; case 2: ipow<int64, int32>(s); break; case 3: ipow<uint64, uint64>(s); break; case 4: ipow<int32, uint8>(s); break; case 5: ipow<int16, uint16>(s); break;
	case 6: { double b = (int)s.below(41) / 8.0 - 2.5; unsigned e = s.below(20); double r = 1; for (unsigned i = 0; i < e; ++i) r *= b; note("pow(%g, %u)", b, e); double g = PlatformMath::pow(b, e); REQUIRE(std::fabs(g - r) <= 1e-13 * std::fabs(r), "pow(%g, %u) is %.17g, expected %.17g", b, e, g, r); if (e > 1) nontrivial(); break; }
	default: { float b = (int)s.below(41) / 8.0f - 2.5f; int e = s.below(12); double r = 1; for (int i = 0; i < e; ++i) r *= b; note("pow(%gf, %d)", b, e); float g = PlatformMath::pow(b, e); REQUIRE(std::fabs(g - r) <= 4e-6 * std::fabs(r), "pow(%gf, %d) is %.9g, expected %.9g", b, e, g, r); if (e > 1) nontrivial(); }
	}
}
static float flt(Src & s) { switch (s.below(5)) { case 0: return (float)(int)(s.below(9)) - 4; case 1: return s.coin() ? INFINITY : -INFINITY; case 2: return s.coin() ? 0.f : -0.f; case 3: { uint32_t u = (uint32_t)s.u32(); float f; memcpy(&f, &u, 4); return std::isnan(f) ? 1.f : f; } default: return std::ldexp(1.f + s.below(1000) / 1000.f, (int)s.below(40) - 20) * (s.coin() ? 1 : -1); } }
static void floats(Src & s)
{
	float a = flt(s), b = flt(s), c = flt(s), d = flt(s); note("%.9g %.9g %.9g %.9g", a, b, c, d);
	REQ(PlatformMath::min(a, b) == std::min(a, b) && PlatformMath::max(a, b) == std::max(a, b)); REQ(PlatformMath::min(a, b, c) == std::min({a, b, c}) && PlatformMath::max(a, b, c) == std::max({a, b, c})); REQ(PlatformMath::min(a, b, c, d) == std::min({a, b, c, d}) && PlatformMath::max(a, b, c, d) == std::max({a, b, c, d}));
	REQUIRE(PlatformMath::abs(a) == std::fabs(a) && !std::signbit(PlatformMath::abs(a)), "abs(%g) is %g", a, PlatformMath::abs(a)); double e = b; REQ(PlatformMath::abs(e) == std::fabs(e)); REQ(PlatformMath::min((double)a, e) == std::min((double)a, e) && PlatformMath::max((double)a, e) == std::max((double)a, e));
	auto near = [](float g, double e, const char * w, float x) { if (std::isnan(e)) { REQUIRE(std::isnan(g), "%s(%g) is %g, expected none", w, x, g); return; } REQUIRE(g == (float)e || std::fabs(g - e) <= 4e-7 * std::fabs(e) + 1e-44, "%s(%.9g) is %.9g, expected %.9g", w, x, g, e); };
	near(PlatformMath::sqrt(a), std::sqrt((double)a), "sqrt", a); if (std::fabs(a) < 1e5) { near(PlatformMath::sin(a), std::sin((double)a), "sin", a); near(PlatformMath::cos(a), std::cos((double)a), "cos", a); near(PlatformMath::tan(a), std::tan((double)a), "tan", a); }
	float u = std::fmod(b, 1.f); if (std::isnan(u)) u = 0.5f; near(PlatformMath::asin(u), std::asin((double)u), "asin", u); near(PlatformMath::acos(u), std::acos((double)u), "acos", u); near(PlatformMath::atan(b), std::atan((double)b), "atan", b);
	float base = std::fabs(u) + 0.01f, ex = std::fmod(c, 8.f); if (!std::isnan(ex)) { double w = std::pow((double)base, (double)ex); float g = PlatformMath::pow(base, ex); REQUIRE(std::fabs(g - w) <= 1e-6 * std::fabs(w) + 1e-40, "pow(%.9g, %.9g) is %.9g, expected %.9g", base, ex, g, w); }
	nontrivial();
}
// usable in constant expressions, with the same results
static void constants(Src & s)
{
	static_assert(PlatformMath::log2(1u) == 0 && PlatformMath::log2(1024) == 10 && PlatformMath::log2(~0ull) == 63 && PlatformMath::align2Down(37, 8) == 32 && PlatformMath::align2Up(37ull, 8) == 40 && PlatformMath::min(3, 1, 2) == 1 && PlatformMath::max(1, 3, 2) == 3 && PlatformMath::abs(-5) == 5, "");
	// mixed widths, values that both types can hold
	int64 a = s.below(1000000); uint8 b = s.below(256); int16 c = (int16)s.below(30000); note("%d %d %d", (int)a, b, c);
	IS(PlatformMath::min(a, b), std::min<i128>(a, b), "mixed min"); IS(PlatformMath::max(a, c), std::max<i128>(a, c), "mixed max"); IS(PlatformMath::max(a, c, b), std::max<i128>(a, std::max<i128>(b, c)), "mixed max of three"); IS(PlatformMath::min(a, c, b), std::min<i128>(a, std::min<i128>(b, c)), "mixed min of three"); nontrivial();
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"narrow", narrow, 80000, 320000, "every case: 256 values, every alignment"},
	{"wide", wide, 600000, 2400000, "an extreme or negative value, or a narrow type"},
	{"power", power, 2000000, 8000000, "exponent at least two, base neither zero nor one"},
	{"floats", floats, 1500000, 6000000, "every case"},
	{"constants", constants, 500000, 2000000, "every case"},
};
const char * PROPERTY = "C23";
const char * RULE = "extreme, negative or narrow values; powers with an exponent of at least two";
}
