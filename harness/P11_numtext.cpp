// P11: text to integer, integer to text, and the C integer arithmetic functions
#include "vpu.hpp"
#include <limits>
#include <sprout/string.hpp>
#include <sprout/cstdlib.hpp>
#include <sprout/cinttypes.hpp>
#ifndef CH
#define CH char
#endif
// VP-ONLY: char -DCH=char
// VP-VARIANT: char16 -DCH=char16_t
// VP-VARIANT: ptr -DCH=char -DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION
static bool space(CH c) { return c == 32 || (c >= 9 && c <= 13); }
static int digit(CH c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
// C11 7.22.1.4: the value of the longest prefix of the expected form, saturated
template <class T> T want(CH const* s, int base) {
  typedef std::numeric_limits<T> L; int i = 0; while (vp::fork(space(s[i]))) ++i;
  bool neg = false; if (vp::fork(s[i] == '-')) { neg = true; ++i; } else if (vp::fork(s[i] == '+')) ++i;
  if ((base == 0 || base == 16) && vp::fork(s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2]) < 16)) { base = 16; i += 2; }
  if (base == 0) base = vp::fork(s[i] == '0') ? 8 : 10;
  typedef typename std::make_unsigned<T>::type U; typedef typename std::conditional<sizeof(T) < 8, ull, unsigned __int128>::type W;
  W lim = (W)L::max() + (L::is_signed && neg ? 1 : 0); U v = 0;
  for (; vp::fork(digit(s[i]) < base); ++i) { W t = (W)v * (W)base + (W)digit(s[i]); if (vp::fork(t > lim)) return L::is_signed && neg ? L::min() : L::max(); v = (U)t; }
  return neg ? (T)(U)(0 - v) : (T)v;
}
template <int M> struct Text { CH b[M + 1]; explicit Text() { int n = vp::pick<int>(0, M); for (int i = 0; i <= M; ++i) { b[i] = vp::nd<CH>(); if (i < n) ASSUME(b[i] != 0); else if (i == n) b[i] = 0; } } };
// a sign or nothing, then n digits below the base
template <int M> struct Digits { CH b[M + 2]; Digits(int base, int lo) { int n = vp::pick<int>(lo, M), k = 0; int s = vp::pick<int>(0, 1); if (s) b[k++] = '-'; for (int i = 0; i < n; ++i) { int d = vp::range<int>(0, 35); ASSUME(d < base); b[k++] = (CH)(d < 10 ? '0' + d : 'a' + d - 10); } b[k] = 0; } };
template <class T, int M> void any_text(int base) { Text<M> t; T w = want<T>(t.b, base); CHECK(sprout::str_to_int<T>((CH const*)t.b, base) == w); CHECK(sprout::str_to_int<T>((CH const*)t.b, nullptr, base) == w); CHECK(sprout::string_to_int<T>(sprout::basic_string<CH, M>((CH const*)t.b), base) == w); }
static const int TM = VP_THOROUGH ? 5 : 4;
HARNESS(text_s8_10) { any_text<signed char, TM>(10); }
HARNESS(text_s8_16) { any_text<signed char, TM>(16); }
HARNESS(text_s8_0) { any_text<signed char, TM>(0); }
HARNESS(text_u8_0) { any_text<unsigned char, TM>(0); }
HARNESS(text_u8_36) { any_text<unsigned char, TM - 1>(36); }
HARNESS(text_int_0) { any_text<int, TM>(0); }
HARNESS(text_ul_10) { any_text<unsigned long, TM>(10); }
HARNESS_T(text_bases) { int b = vp::pick<int>(2, 36); any_text<short, 3>(b); any_text<unsigned short, 3>(b); }
template <class T, int M> void digits(int base, int lo) { Digits<M> t(base, lo); T w = want<T>(t.b, base); CHECK(sprout::str_to_int<T>((CH const*)t.b, base) == w); }
HARNESS(digits_s16) { digits<short, 6>(10, 1); }
HARNESS(digits_u16) { digits<unsigned short, 6>(10, 1); }
HARNESS(digits_s16_16) { digits<short, 5>(16, 1); }
// a sign or nothing, the leading digits of the limit (or those plus or minus one in the last place), then up to K free digits
template <int K> struct Near { CH b[48]; Near(ull limit, int base, int drop) { int k = 0; if (vp::pick<int>(0, 1)) b[k++] = '-'; for (int i = 0; i < drop; ++i) limit /= base; CH r[48]; int n = 0; limit += vp::pick<int>(0, 2); limit -= 1; while (limit) { int d = (int)(limit % base); r[n++] = (CH)(d < 10 ? '0' + d : 'a' + d - 10); limit /= base; } while (n) b[k++] = r[--n]; int m = vp::pick<int>(K - 1, K); for (int i = 0; i < m; ++i) { int d = vp::range<int>(0, 35); ASSUME(d < base); b[k++] = (CH)(d < 10 ? '0' + d : 'a' + d - 10); } b[k] = 0; } };
template <class T> void near(int base) { Near<3> t((ull)std::numeric_limits<T>::max(), base, 2); T w = want<T>(t.b, base); CHECK(sprout::str_to_int<T>((CH const*)t.b, base) == w); if (base == 10 && (std::numeric_limits<T>::is_signed || t.b[0] != '-')) CHECK(sprout::ascii_to_int<T>((CH const*)t.b) == w); }
HARNESS(near_int) { near<int>(10); }
HARNESS(near_uint) { near<unsigned>(10); }
HARNESS(near_long) { near<long>(10); }
HARNESS(near_ull) { near<ull>(10); }
HARNESS(near_ull_16) { near<ull>(16); near<long long>(16); }
HARNESS(near_int_8) { near<int>(8); near<unsigned>(2); }
HARNESS(names) {
  Digits<3> t(10, 0); CH const* s = t.b; sprout::basic_string<CH, 4> z(s);
  CHECK(sprout::strtol(s) == want<long>(s, 10)); CHECK(sprout::strtoll(s, nullptr, 8) == want<long long>(s, 8)); CHECK(sprout::strtoul(s) == want<unsigned long>(s, 10)); CHECK(sprout::strtoull(s, nullptr, 10) == want<ull>(s, 10)); CHECK(sprout::strtoul(s, nullptr, 16) == want<unsigned long>(s, 16));
  CHECK(sprout::strtoimax(s, nullptr, 10) == want<std::intmax_t>(s, 10)); CHECK(sprout::strtoumax(s, nullptr, 10) == want<std::uintmax_t>(s, 10));
  CHECK(sprout::stoi(z) == want<int>(s, 10)); CHECK(sprout::stol(z, 16) == want<long>(s, 16)); CHECK(sprout::stoul(z) == want<unsigned long>(s, 10)); CHECK(sprout::stoll(z) == want<long long>(s, 10)); CHECK(sprout::stoull(z) == want<ull>(s, 10));
  CHECK(sprout::from_string<int>(z) == want<int>(s, 0));
}
template <class T, int M> void ascii(int lo) { Digits<M> t(10, lo); ASSUME(std::numeric_limits<T>::is_signed || t.b[0] != '-'); CHECK(sprout::ascii_to_int<T>((CH const*)t.b) == want<T>(t.b, 10)); }
HARNESS(ascii_s8) { ascii<signed char, 4>(0); }
HARNESS(ascii_text) { Text<TM> t; CH const* s = t.b; CHECK(sprout::atoi(s) == want<int>(s, 10)); CHECK(sprout::atol(s) == want<long>(s, 10)); CHECK(sprout::atoll(s) == want<long long>(s, 10)); }
// ---- integer to text: the text has no superfluous digit and denotes the value
template <int B, class T> void printed(T v) {
  auto s = sprout::int_to_string<CH, B>(v); int n = vp::concrete((int)s.size()); CHECK(n >= 1 && n <= (int)s.max_size()); int i = 0; bool neg = v < 0;
  if (neg) { CHECK(s[0] == '-'); i = 1; } CHECK(n > i); CHECK(n == i + 1 || s[i] != '0'); CHECK(s.c_str()[n] == 0);
  unsigned __int128 u = 0; for (; i < n; ++i) { CH c = s[i]; CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')); CHECK(digit(c) < B); u = u * B + digit(c); }
  CHECK(u == (neg ? -(unsigned __int128)(__int128)v : (unsigned __int128)v));
}
HARNESS(print_s8) { signed char v = vp::nd<signed char>(); printed<10>(v); printed<2>(v); printed<16>(v); printed<8>(v); printed<3>(v); printed<7>(v); }
HARNESS(print_u8) { uc v = vp::nd<uc>(); printed<10>(v); printed<2>(v); printed<16>(v); printed<4>(v); printed<5>(v); printed<13>(v); }
HARNESS(print_s16) { short v = vp::nd<short>(); printed<10>(v); printed<16>(v); printed<8>(v); }
HARNESS(print_u16) { unsigned short v = vp::nd<unsigned short>(); printed<10>(v); printed<16>(v); printed<2>(v); }
HARNESS(print_int_pow2) { unsigned v = vp::nd<unsigned short>(); printed<16>((int)(v << 16)); printed<8>((int)(v << 16)); printed<16>((int)v); printed<2>((int)((v & 15) << 28)); }
HARNESS(print_long_pow2) { ull v = vp::nd<unsigned short>(); printed<16>((long)(v << 48)); printed<16>((unsigned long)(v << 48)); printed<8>((long long)(v << 48)); }
HARNESS(print_int_edge) { int d = vp::nd<signed char>(); printed<10>((int)(2147483647 - (d & 127))); printed<10>((int)(-2147483647 - 1 + (d & 127))); printed<10>((unsigned)(4294967295u - (unsigned)(d & 127))); }
HARNESS(print_long_edge) { int d = vp::nd<signed char>() & 127; printed<10>(std::numeric_limits<long long>::max() - d); printed<10>(std::numeric_limits<long long>::min() + d); printed<10>(std::numeric_limits<ull>::max() - (ull)d); }
HARNESS(print_names) { short v = vp::nd<short>(); auto s = sprout::to_string_of<CH>(v); auto t = sprout::int_to_string<CH, 10>(v); CHECK(s == t); auto a = sprout::to_string(v); auto w = sprout::to_wstring(v); auto u = sprout::to_u16string(v); auto q = sprout::to_u32string(v); int n = vp::concrete((int)t.size()); CHECK((int)a.size() == n && (int)w.size() == n && (int)u.size() == n && (int)q.size() == n); for (int i = 0; i < n; ++i) CHECK(a[i] == (char)t[i] && w[i] == (wchar_t)t[i] && u[i] == (char16_t)t[i] && q[i] == (char32_t)t[i]); }
HARNESS(round_trip) { signed char v = vp::nd<signed char>(); CHECK(sprout::string_to_int<signed char>(sprout::int_to_string<CH, 10>(v), 10) == v); CHECK(sprout::string_to_int<signed char>(sprout::int_to_string<CH, 16>(v), 16) == v); uc u = vp::nd<uc>(); CHECK(sprout::string_to_int<uc>(sprout::int_to_string<CH, 10>(u), 10) == u); }
// ---- abs and div
template <class T> void absval() { T v = vp::nd<T>(); ASSUME(v != std::numeric_limits<T>::min() || !std::numeric_limits<T>::is_signed); T r = sprout::abs(v); CHECK(r >= 0); CHECK(r == v || r == -v); }
HARNESS(abs) { absval<int>(); absval<long>(); absval<long long>(); long a = vp::nd<long>(); ASSUME(a != std::numeric_limits<long>::min()); CHECK(sprout::labs(a) == (a < 0 ? -a : a)); CHECK(sprout::llabs(a) == (a < 0 ? -a : a)); CHECK(sprout::imaxabs(a) == (a < 0 ? -a : a)); }
HARNESS(div) { int a = vp::nd<short>(), b = vp::nd<signed char>(); ASSUME(b != 0); auto d = sprout::div(a, b); auto l = sprout::ldiv((long)a, (long)b); auto q = sprout::lldiv((long long)a, (long long)b); auto m = sprout::imaxdiv(a, b);
  CHECK(d.quot * b + d.rem == a); CHECK((d.rem < 0 ? -d.rem : d.rem) < (b < 0 ? -b : b)); CHECK(d.rem == 0 || (d.rem < 0) == (a < 0));
  CHECK(l.quot == d.quot && l.rem == d.rem && q.quot == d.quot && q.rem == d.rem && m.quot == d.quot && m.rem == d.rem); auto e = sprout::div((long)a, (long)b); CHECK(e.quot == l.quot && e.rem == l.rem); auto f = sprout::div((long long)a, (long long)b); CHECK(f.quot == l.quot && f.rem == l.rem); }
