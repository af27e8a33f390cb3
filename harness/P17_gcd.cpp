// P17: gcd, lcm
#include "vpu.hpp"
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
// VP-ONLY: gcc -DVP_GCC
// VP-VARIANT: clang -DVP_CLANG
// VP-OPT: * max-instr=200000000
// ---- gcd and lcm: the greatest common divisor is nonnegative, divides both, and every common divisor divides it
template <class T> static long ref_gcd(T a0, T b0) { long a = a0 < 0 ? -(long)a0 : (long)a0, b = b0 < 0 ? -(long)b0 : (long)b0; while (b) { long t = a % b; a = b; b = t; } return a; }
template <class T> void g_all(T a, T b) { T g = sprout::gcd(a, b); if (a == 0 && b == 0) { CHECK(g == 0); return; } CHECK(g > 0); CHECK(a % g == 0 && b % g == 0); unsigned char d = vp::nd<unsigned char>(); ASSUME(d != 0); if (a % (int)d == 0 && b % (int)d == 0) CHECK(g % (int)d == 0); CHECK(sprout::math::gcd_evaluator<T>()(a, b) == g); CHECK(sprout::math::gcd_evaluator<>()(a, b) == g); }
template <class T> void gcd_sym() { T a = vp::nd<T>(), b = vp::nd<T>(); if (!VP_THOROUGH) ASSUME(b <= 5 && b >= (T)-3); ASSUME(a != std::numeric_limits<T>::min() || std::numeric_limits<T>::min() == 0); ASSUME(b != std::numeric_limits<T>::min() || std::numeric_limits<T>::min() == 0); g_all(a, b); CHECK(sprout::gcd(a, b) == sprout::gcd(b, a)); }
HARNESS(gcd_sc) { gcd_sym<signed char>(); }
HARNESS(gcd_uc) { unsigned char a = vp::nd<unsigned char>(), b = vp::nd<unsigned char>(); if (!VP_THOROUGH) ASSUME(a <= 63 && b <= 7); g_all(a, b); }
template <class T> void gcd_wide() { T a = vp::range<T>(std::is_signed<T>::value ? (T)-20 : (T)0, VP_THOROUGH ? 40 : 21), b = vp::range<T>(std::is_signed<T>::value ? (T)-4 : (T)0, VP_THOROUGH ? 40 : 7); T g = sprout::gcd(a, b); CHECK((long)g == ref_gcd(a, b)); }
HARNESS(gcd_short) { gcd_wide<short>(); }
HARNESS(gcd_int) { gcd_wide<int>(); }
HARNESS(gcd_uint) { gcd_wide<unsigned>(); }
HARNESS(gcd_ll) { gcd_wide<long long>(); }
HARNESS(gcd_ull) { gcd_wide<unsigned long long>(); }
// large values: common factor 2^k * 3 found again
HARNESS(gcd_scaled) { unsigned long long a = vp::range<unsigned>(1, 6), b = vp::range<unsigned>(1, 6); int k = vp::pick<int>(0, 60); unsigned long long g = sprout::gcd(a << k, b << k); CHECK(g == ((unsigned long long)ref_gcd((int)a, (int)b) << k)); long long h = sprout::gcd(-(long long)(a << k), (long long)(b << k)); CHECK(h == (long long)g); }
template <class T> void lcm_small() { T a = vp::range<T>(std::is_signed<T>::value ? (T)-7 : (T)0, 16), b = vp::range<T>(std::is_signed<T>::value ? (T)-5 : (T)0, VP_THOROUGH ? 16 : 9); T m = sprout::lcm(a, b); if (a == 0 || b == 0) { CHECK(m == 0); return; } CHECK(m > 0); CHECK(m % a == 0 && m % b == 0); long p = (long)a * (long)b; CHECK((long)m * ref_gcd(a, b) == (p < 0 ? -p : p)); CHECK(sprout::math::lcm_evaluator<T>()(a, b) == m); CHECK(sprout::math::lcm_evaluator<>()(a, b) == m); }
HARNESS(lcm_int) { lcm_small<int>(); }
HARNESS(lcm_uint) { lcm_small<unsigned>(); }
HARNESS(lcm_ll) { lcm_small<long long>(); }
// lcm does not overflow where the result fits
HARNESS(lcm_large) { int k = vp::pick<int>(0, 27); unsigned a = vp::range<unsigned>(1, 4), b = vp::range<unsigned>(1, 4); unsigned m = sprout::lcm(a << k, b << k); CHECK(m == (unsigned)(a * b / ref_gcd((int)a, (int)b)) << k); }
