// P29: rounding, classification and exact decomposition of floating-point numbers, with the compiler's builtins and with the library's own code.
// VP-ONLY: builtin -DSPROUT_HAS_CONSTEXPR_CMATH_FUNCTION=1 -DVP_BI -Wno-invalid-constexpr
// VP-VARIANT: own -DSPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
// VP-STD: 17
#include "vpu.hpp"
#include <cmath>
#include <cstring>
#include <climits>
#ifdef VP_SYM
// models of the C library's exact functions (the native replays use the real ones)
extern "C" long lround(double x) noexcept { return (long)__builtin_round(x); }
extern "C" long lroundf(float x) noexcept { return (long)__builtin_roundf(x); }
extern "C" long long llround(double x) noexcept { return (long long)__builtin_round(x); }
extern "C" long long llroundf(float x) noexcept { return (long long)__builtin_roundf(x); }
extern "C" double fdim(double x, double y) noexcept { return x != x || y != y ? x + y : x > y ? x - y : 0.; }
extern "C" float fdimf(float x, float y) noexcept { return x != x || y != y ? x + y : x > y ? x - y : 0.f; }
// scaling by 2^n, here only where the result is a normal number (a product of powers of two, as in the portable C libraries)
static double p2(int n) { std::uint64_t b = (std::uint64_t)(1023 + n) << 52; double r; std::memcpy(&r, &b, 8); return r; }
static float p2f(int n) { std::uint32_t b = (std::uint32_t)(127 + n) << 23; float r; std::memcpy(&r, &b, 4); return r; }
extern "C" double scalbn(double x, int n) noexcept { return x * p2(n / 2) * p2(n - n / 2); }
extern "C" float scalbnf(float x, int n) noexcept { return x * p2f(n / 2) * p2f(n - n / 2); }
extern "C" double scalbln(double x, long n) noexcept { return scalbn(x, (int)n); }
extern "C" float scalblnf(float x, long n) noexcept { return scalbnf(x, (int)n); }
extern "C" double ldexp(double x, int n) noexcept { return scalbn(x, n); }
extern "C" float ldexpf(float x, int n) noexcept { return scalbnf(x, n); }
extern "C" int ilogb(double x) noexcept { std::uint64_t b; std::memcpy(&b, &x, 8); b &= ~0ull >> 1; int e = (int)(b >> 52); if (e == 2047) return b << 12 ? FP_ILOGBNAN : INT_MAX; if (e) return e - 1023; if (!b) return FP_ILOGB0; int l = 0; for (int i = 0; i < 52; i++) if (b >> i & 1) l = i; return l - 1074; }
extern "C" int ilogbf(float x) noexcept { std::uint32_t b; std::memcpy(&b, &x, 4); b &= ~0u >> 1; int e = (int)(b >> 23); if (e == 255) return b << 9 ? FP_ILOGBNAN : INT_MAX; if (e) return e - 127; if (!b) return FP_ILOGB0; int l = 0; for (int i = 0; i < 23; i++) if (b >> i & 1) l = i; return l - 149; }
extern "C" double logb(double x) noexcept { return x != x ? x : x == 0 ? -__builtin_inf() : x - x != 0 ? __builtin_inf() : ilogb(x); }
extern "C" float logbf(float x) noexcept { return x != x ? x : x == 0 ? -__builtin_inff() : x - x != 0 ? __builtin_inff() : ilogbf(x); }
#endif
#include <sprout/math/fmod.hpp>
#include <sprout/math/rem_quo.hpp>
#include <sprout/math/quotient.hpp>
#include <sprout/math/is_even.hpp>
#include <sprout/math/is_odd.hpp>
#include <sprout/math/ldexp.hpp>
#include <sprout/math/scalbn.hpp>
#include <sprout/math/scalbln.hpp>
#include <sprout/math/ilogb.hpp>
#include <sprout/math/ilogb2.hpp>
#include <sprout/math/logb.hpp>
#include <sprout/math/float_sig_exp.hpp>
#include <sprout/math/float2_sig_exp.hpp>
#include <sprout/math/float_exponent.hpp>
#include <sprout/math/float2_exponent.hpp>
#include <sprout/math/float_significand.hpp>
#include <sprout/math/float2_significand.hpp>
#include <sprout/math/floor.hpp>
#include <sprout/math/ceil.hpp>
#include <sprout/math/trunc.hpp>
#include <sprout/math/round.hpp>
#include <sprout/math/ifloor.hpp>
#include <sprout/math/iceil.hpp>
#include <sprout/math/itrunc.hpp>
#include <sprout/math/iround.hpp>
#include <sprout/math/lround.hpp>
#include <sprout/math/llround.hpp>
#include <sprout/math/classifications.hpp>
#include <sprout/math/comparisons.hpp>
#include <sprout/math/fabs.hpp>
#include <sprout/math/fmax.hpp>
#include <sprout/math/fmin.hpp>
#include <sprout/math/fdim.hpp>
#include <sprout/math/copysign.hpp>
#include <sprout/math/signbit.hpp>
#include <sprout/math/integer_part.hpp>
#include <sprout/math/fractional_part.hpp>
#include <sprout/math/frac_int.hpp>
#include <sprout/math/is_integer.hpp>
namespace m = sprout::math;
static float as_f(std::uint32_t b) { float f; std::memcpy(&f, &b, 4); return f; }
static double as_d(std::uint64_t b) { double f; std::memcpy(&f, &b, 8); return f; }
static std::uint32_t bits(float f) { std::uint32_t b; std::memcpy(&b, &f, 4); return b; }
static std::uint64_t bits(double f) { std::uint64_t b; std::memcpy(&b, &f, 8); return b; }
static float nd_x(float) { return as_f(vp::nd<std::uint32_t>()); }
static double nd_x(double) { return as_d(vp::nd<std::uint64_t>()); }
template<class T> struct fmt;
template<> struct fmt<float> { typedef std::uint32_t U; typedef std::int32_t I; static const int W = 32, M = 23, B = 127; };
template<> struct fmt<double> { typedef std::uint64_t U; typedef std::int64_t I; static const int W = 64, M = 52, B = 1023; };
template<class T> static bool neg(T x) { return bits(x) >> (fmt<T>::W - 1); }
template<class T> static int expo(T x) { return (int)(bits(x) >> fmt<T>::M) & (2 * fmt<T>::B + 1); }
template<class T> static typename fmt<T>::U mant(T x) { typedef typename fmt<T>::U U; return bits(x) & ((U(1) << fmt<T>::M) - 1); }
template<class T> static bool nan_(T x) { return expo(x) == 2 * fmt<T>::B + 1 && mant(x) != 0; }
template<class T> static bool inf_(T x) { return expo(x) == 2 * fmt<T>::B + 1 && mant(x) == 0; }
template<class T> static bool fin_(T x) { return expo(x) != 2 * fmt<T>::B + 1; }
template<class T> static bool zero_(T x) { return expo(x) == 0 && mant(x) == 0; }
template<class T> static bool sub_(T x) { return expo(x) == 0 && mant(x) != 0; }
// an order-preserving integer key of the non-NaN values
template<class T> static typename fmt<T>::I key(T x) { typedef typename fmt<T>::U U; typedef typename fmt<T>::I I; U a = bits(x) & ~(U(1) << (fmt<T>::W - 1)); return neg(x) ? -(I)a : (I)a; }
// every value, one exponent at a time where fraction bits and integer bits meet (the mantissa stays symbolic)
template<class T> static T nd_e(int top) {
	typedef typename fmt<T>::U U; U b = vp::nd<U>(); int e = (int)(b >> fmt<T>::M) & (2 * fmt<T>::B + 1); int k = vp::pick<int>(-2, top + 1);
	if (k == -2) ASSUME(e < fmt<T>::B - 1); else if (k == top + 1) ASSUME(e >= fmt<T>::B + top + 1); else { ASSUME(e == fmt<T>::B + k); b = (b & ~(U(2 * fmt<T>::B + 1) << fmt<T>::M)) | (U(fmt<T>::B + k) << fmt<T>::M); }
	T f; std::memcpy(&f, &b, sizeof(T)); return f;
}
// the integer obtained by dropping the fraction bits, and how large the dropped part is (0 none, 1 below half, 2 half, 3 above half)
template<class T> static T cut(T x, int& rest) {
	typedef typename fmt<T>::U U; int e = expo(x) - fmt<T>::B; U b = bits(x);
	if (zero_(x) || e >= fmt<T>::M) { rest = 0; return x; }
	if (e < 0) { rest = e < -1 ? 1 : mant(x) == 0 ? 2 : 3; return neg(x) ? T(-0.) : T(0); }
	int k = fmt<T>::M - e; U mask = (U(1) << k) - 1, r = b & mask, half = U(1) << (k - 1);
	rest = r == 0 ? 0 : r < half ? 1 : r == half ? 2 : 3; U t = b & ~mask; T f; std::memcpy(&f, &t, sizeof(T)); return f;
}
template<class T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
template<class T> static void fl() { T x = nd_e<T>(fmt<T>::M); if (!fin_(x)) { CHECK(same(m::floor(x), x)); return; } int r; T c = cut(x, r); CHECK(m::floor(x) == (r && neg(x) ? c - T(1) : c)); }
template<class T> static void ce() { T x = nd_e<T>(fmt<T>::M); if (!fin_(x)) { CHECK(same(m::ceil(x), x)); return; } int r; T c = cut(x, r); CHECK(m::ceil(x) == (r && !neg(x) ? c + T(1) : c)); }
template<class T> static void tr() { T x = nd_e<T>(fmt<T>::M); if (!fin_(x)) { CHECK(same(m::trunc(x), x)); return; } int r; T c = cut(x, r); CHECK(m::trunc(x) == c); }
template<class T> static void ro() { T x = nd_e<T>(fmt<T>::M); if (!fin_(x)) { CHECK(same(m::round(x), x)); return; } int r; T c = cut(x, r); CHECK(m::round(x) == (r >= 2 ? neg(x) ? c - T(1) : c + T(1) : c)); }
HARNESS(floor_f) { fl<float>(); }
HARNESS(floor_d) { fl<double>(); }
HARNESS(ceil_f) { ce<float>(); }
HARNESS(ceil_d) { ce<double>(); }
HARNESS(trunc_f) { tr<float>(); }
HARNESS(trunc_d) { tr<double>(); }
HARNESS(round_f) { ro<float>(); }
HARNESS(round_d) { ro<double>(); }
// conversion to an integer type, for the values whose result the type holds
template<class T, class To> static bool small(T x) { return fin_(x) && x < T(std::numeric_limits<To>::max() / 2) && x > T(std::numeric_limits<To>::min() / 2); }
template<class T, class To> static void ints() {
	T x = nd_e<T>(sizeof(To) * 8 - 1); if (!fin_(x)) { To z = std::numeric_limits<To>::min(); CHECK(m::ifloor<To>(x) == z && m::iceil<To>(x) == z && m::itrunc<To>(x) == z && m::iround<To>(x) == z); return; }
	ASSUME(small<T, To>(x)); int r; To c = (To)cut(x, r); To s = neg(x) ? -1 : 1;
	CHECK(m::itrunc<To>(x) == c); CHECK(m::ifloor<To>(x) == (r && neg(x) ? c - 1 : c)); CHECK(m::iceil<To>(x) == (r && !neg(x) ? c + 1 : c)); CHECK(m::iround<To>(x) == (r >= 2 ? c + s : c));
}
HARNESS(ints_f) { ints<float, int>(); }
HARNESS(ints_d) { ints<double, int>(); }
HARNESS(ints_dl) { ints<double, long>(); }
HARNESS(ints_fs) { ints<float, short>(); }
template<class T> static void lr() { T x = nd_e<T>(63); ASSUME((small<T, long>(x))); int r; long c = (long)cut(x, r); if (r >= 2) c += neg(x) ? -1 : 1; CHECK(m::lround(x) == c); CHECK(m::llround(x) == c); }
HARNESS(lround_f) { lr<float>(); }
HARNESS(lround_d) { lr<double>(); }
HARNESS(of_int) { int i = vp::nd<int>(); CHECK(m::floor(i) == double(i) && m::ceil(i) == double(i) && m::trunc(i) == double(i) && m::round(i) == double(i)); CHECK(m::ifloor(i) == i && m::iceil(i) == i && m::itrunc(i) == i && m::iround(i) == i); CHECK(m::lround(i) == i && m::llround(i) == i); CHECK(m::fabs(i) == (i < 0 ? -double(i) : double(i))); }
template<class T> static void cls() {
	T x = nd_x(T()); CHECK(m::isnan(x) == nan_(x)); CHECK(m::isinf(x) == inf_(x)); CHECK(m::isfinite(x) == fin_(x)); CHECK(m::iszero(x) == zero_(x)); CHECK((m::issubnormal)(x) == sub_(x)); CHECK(m::isnormal(x) == (fin_(x) && expo(x) != 0));
	int c = m::fpclassify(x); CHECK(c == (nan_(x) ? FP_NAN : inf_(x) ? FP_INFINITE : zero_(x) ? FP_ZERO : sub_(x) ? FP_SUBNORMAL : FP_NORMAL));
}
HARNESS(classify_f) { cls<float>(); }
HARNESS(classify_d) { cls<double>(); }
template<class T> static void sgn() {
	T x = nd_x(T()), y = nd_x(T()); T a = m::fabs(x); CHECK(nan_(x) ? nan_(a) : key(a) == (key(x) < 0 ? -key(x) : key(x)));
#ifndef VP_BI
	ASSUME(!nan_(x) && !nan_(y) && !zero_(y) && !zero_(x)); // documented: without the builtins the sign of zero and of NaN is not known
#endif
	T c = m::copysign(x, y); CHECK(nan_(x) ? nan_(c) : m::fabs(c) == m::fabs(x)); CHECK(neg(c) == neg(y)); CHECK(m::signbit(x) == neg(x));
}
HARNESS(sign_f) { sgn<float>(); }
HARNESS(sign_d) { sgn<double>(); }
template<class T> static void mm() {
	T x = nd_x(T()), y = nd_x(T()); T a = m::fmax(x, y), b = m::fmin(x, y);
	if (nan_(x)) { CHECK(same(a, y) && same(b, y)); return; } if (nan_(y)) { CHECK(same(a, x) && same(b, x)); return; }
	CHECK(key(a) == (key(x) < key(y) ? key(y) : key(x))); CHECK(key(b) == (key(x) < key(y) ? key(x) : key(y)));
}
HARNESS(minmax_f) { mm<float>(); }
HARNESS(minmax_d) { mm<double>(); }
template<class T> static void dim() { T x = nd_x(T()), y = nd_x(T()); T d = m::fdim(x, y); if (nan_(x) || nan_(y)) { CHECK(nan_(d)); return; } CHECK(key(x) > key(y) ? d == x - y : zero_(d)); }
HARNESS(fdim_f) { dim<float>(); }
HARNESS(fdim_d) { dim<double>(); }
template<class T> static void cmp() {
	T x = nd_x(T()), y = nd_x(T()); bool u = nan_(x) || nan_(y); typename fmt<T>::I a = key(x), b = key(y);
	CHECK(m::isunordered(x, y) == u); CHECK(m::isgreater(x, y) == (!u && a > b)); CHECK(m::isgreaterequal(x, y) == (!u && a >= b)); CHECK(m::isless(x, y) == (!u && a < b)); CHECK(m::islessequal(x, y) == (!u && a <= b)); CHECK(m::islessgreater(x, y) == (!u && a != b));
}
HARNESS(compare_f) { cmp<float>(); }
HARNESS(compare_d) { cmp<double>(); }
template<class T> static void parts() {
	T x = nd_e<T>(fmt<T>::M); T i = m::integer_part(x), f = m::fractional_part(x); auto p = m::frac_int(x); CHECK(same(p.first, f) && same(p.second, i));
	if (nan_(x)) { CHECK(nan_(i) && nan_(f)); return; } if (inf_(x)) { CHECK(i == x && zero_(f)); CHECK(!m::is_integer(x)); return; }
	int r; T c = cut(x, r); CHECK(i == c); CHECK(f == x - c); CHECK(m::is_integer(x) == (r == 0));
}
HARNESS(parts_f) { parts<float>(); }
HARNESS(parts_d) { parts<double>(); }
HARNESS(mixed) { float x = nd_x(float()); int i = vp::range<int>(-100, 100); ASSUME(!nan_(x) && !inf_(x)); double dx = x, di = i; CHECK(m::fmax(x, i) == (dx < di ? di : dx)); CHECK(m::fmin(i, x) == (dx < di ? dx : di)); CHECK(m::isless(x, i) == (dx < di)); CHECK(m::isgreaterequal(i, x) == (di >= dx)); if (i && x != 0) CHECK(m::copysign(i, x) == (x < 0 ? -1. : 1.) * (i < 0 ? -di : di)); CHECK(!m::isnan(i) && !m::isinf(i) && m::isfinite(i) && m::iszero(i) == (i == 0) && m::isnormal(i) == (i != 0) && m::signbit(i) == (i < 0)); }
// exact scaling and decomposition: the exponent field is concrete, sign and mantissa are symbolic
template<class T> static T nd_exact(bool& sub) {
	typedef typename fmt<T>::U U; static const int M = fmt<T>::M, B = fmt<T>::B; static const int es[] = {0, 1, 2, B / 2, B - 2, B - 1, B, B + 1, B + M, B + B / 2, 2 * B - 1, 2 * B}; int e = es[vp::pick<int>(0, 11)]; U b = vp::nd<U>(); sub = e == 0;
	if (sub) { static const int ls[] = {0, 1, M / 2, M - 1}; int l = ls[vp::pick<int>(0, 3)]; b = (b & ((U(1) << (fmt<T>::W - 1)) | ((U(1) << l) - 1))) | (U(1) << l); }
	else b = (b & ~(U(2 * B + 1) << M)) | (U(e) << M);
	T f; std::memcpy(&f, &b, sizeof(T)); return f;
}
template<class T> static int lead(T x) { typedef typename fmt<T>::U U; int n = 0; for (int i = 0; i < fmt<T>::M; i++) if (mant(x) >> i & 1) n = i; return n; }
// x = f * 2^e with f in [1/2, 1)
template<class T> static void split(T x, T& f, int& e) {
	typedef typename fmt<T>::U U; static const int M = fmt<T>::M; U m = mant(x); int ex = expo(x); if (ex == 0) { int l = lead(x); m = (m << (M - l)) & ((U(1) << M) - 1); ex = 1 - (M - l); }
	U b = (bits(x) & (U(1) << (fmt<T>::W - 1))) | (U(fmt<T>::B - 1) << M) | m; std::memcpy(&f, &b, sizeof(T)); e = ex - fmt<T>::B + 1;
}
#ifdef VP_BI
template<class T> static void decompose() {
	bool sub; T x = nd_exact<T>(sub); T f; int e; split(x, f, e); auto p = m::float2_sig_exp(x); auto q = m::float_sig_exp(x); CHECK(p.second == e && q.second == e); CHECK(p.first == f && q.first == f);
	CHECK(m::float2_exponent(x) == e && m::float_exponent(x) == e); CHECK(m::float2_significand(x) == f && m::float_significand(x) == f); CHECK(m::ilogb(x) == e - 1 && m::ilogb2(x) == e - 1); CHECK(m::logb(x) == T(e - 1));
}
HARNESS(decompose_f) { decompose<float>(); }
HARNESS(decompose_d) { decompose<double>(); }
template<class T> static void decompose_special() { T x = nd_x(T()); ASSUME(!fin_(x) || zero_(x)); auto p = m::float2_sig_exp(x); CHECK(same(p.first, x) && p.second == 0); CHECK(same(m::float2_significand(x), x) && m::float2_exponent(x) == 0); CHECK(m::ilogb(x) == (zero_(x) ? FP_ILOGB0 : inf_(x) ? INT_MAX : FP_ILOGBNAN)); CHECK(nan_(x) ? nan_(m::logb(x)) : zero_(x) ? inf_(m::logb(x)) && neg(m::logb(x)) : inf_(m::logb(x)) && !neg(m::logb(x))); }
HARNESS(decompose_special_f) { decompose_special<float>(); }
HARNESS(decompose_special_d) { decompose_special<double>(); }
#endif
// scaling by a power of two that leaves the result a normal number is exact
template<class T> static void scale() {
	bool sub; T x = nd_exact<T>(sub); static const int B = fmt<T>::B; static const int ns[] = {-B, -B / 2, -fmt<T>::M, -2, -1, 0, 1, 3, fmt<T>::M, B / 2, B}; int n = ns[vp::pick<int>(0, 10)]; T f; int e; split(x, f, e); int r = e - 1 + n; ASSUME(r >= 1 - B && r <= B);
	typedef typename fmt<T>::U U; U w = (bits(f) & ~(U(2 * B + 1) << fmt<T>::M)) | (U(r + B) << fmt<T>::M); CHECK(bits(m::ldexp(x, n)) == w); CHECK(bits(m::scalbn(x, n)) == w); CHECK(bits(m::scalbln(x, (long)n)) == w);
}
HARNESS(scale_f) { scale<float>(); }
HARNESS(scale_d) { scale<double>(); }
#ifdef VP_BI
// remainders: the divisor is one of a few numbers, the dividend has up to 8 bits more than it above the point and a symbolic mantissa of 10 bits
template<class T> static void rem() {
	typedef typename fmt<T>::U U; static const int M = fmt<T>::M, B = fmt<T>::B; static const T ys[] = {T(2), T(3), T(0.75), T(-2.5), T(10)}; T y = ys[vp::pick<int>(0, VP_THOROUGH ? 4 : 2)]; int ey = expo(y); int d = vp::pick<int>(-2, VP_THOROUGH ? 7 : 3);
	U b = vp::nd<U>(); b = (b & ((U(1) << (fmt<T>::W - 1)) | ((U(1) << M) - (U(1) << (M - (VP_THOROUGH ? 14 : 10)))))) | (U(ey + d) << M); T x; std::memcpy(&x, &b, sizeof(T));
	U one = U(1) << M; std::uint64_t X = (std::uint64_t)(mant(x) | one) << (d + 2), Y = (std::uint64_t)(mant(y) | one) << 2; // both scaled by the same power of two
	std::uint64_t R = X, Q = 0; for (int i = 8; i >= 0; i--) if (R >= Y << i) { R -= Y << i; Q |= std::uint64_t(1) << i; }
	T r = m::fmod(x, y); CHECK(neg(r) == neg(x)); T sc; U sb = U(ey - M - 2) << M; std::memcpy(&sc, &sb, sizeof(T)); CHECK(m::fabs(r) == T((std::uint64_t)R) * sc);
	auto p = m::rem_quo(x, y); bool up = 2 * R > Y || (2 * R == Y && (Q & 1)); std::uint64_t R2 = up ? Y - R : R; CHECK(m::fabs(p.first) == T((std::uint64_t)R2) * sc); if (R2) CHECK(neg(p.first) == (neg(x) != up)); int q = (int)((Q + up) & 7); CHECK(p.second == (neg(x) != neg(y) ? -q : q)); CHECK(m::quotient(x, y) == p.second);
	if (y == T(2)) { CHECK(m::is_even(x) == (R == 0)); CHECK(m::is_odd(x) == (2 * R == Y)); }
}
HARNESS_T(rem_f) { rem<float>(); }
HARNESS_T(rem_d) { rem<double>(); }
#endif
