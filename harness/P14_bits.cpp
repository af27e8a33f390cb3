// P14: bit operations on every integer type
#include "vpu.hpp"
#include <climits>
#include <sprout/bit/operation.hpp>
#include <sprout/bit/rightmost.hpp>
#include <sprout/bit/single.hpp>
#include <sprout/bit/range.hpp>
#include <sprout/bit/shift.hpp>
#include <sprout/bit/count.hpp>
#include <sprout/bit/length.hpp>
#include <sprout/bit/reverse.hpp>
// VP-ONLY: gcc -DVP_GCC -DSPROUT_HAS_CONSTEXPR_BIT_OPERATION=1
// VP-VARIANT: clang -DVP_CLANG
template <class T> struct U { typedef typename std::make_unsigned<T>::type type; static const int W = sizeof(T) * CHAR_BIT; };
template <class T> ull raw(T x) { return (ull)(typename U<T>::type)x; }
template <class T> ull all() { return raw((typename U<T>::type)~(typename U<T>::type)0); }
template <class T> T cut(ull v) { return (T)(typename U<T>::type)v; }
// ---- counting
template <class T> void counts() {
  const int W = U<T>::W; T x = vp::nd<T>(); ull r = raw(x); int l0 = 0, l1 = 0, t0 = 0, t1 = 0, pop = 0; bool a = true, b = true, c = true, d = true;
  for (int i = 0; i < W; ++i) { bool lo = (r >> i) & 1, hi = (r >> (W - 1 - i)) & 1; a &= !hi; b &= hi; c &= !lo; d &= lo; l0 += a; l1 += b; t0 += c; t1 += d; pop += lo; }
  CHECK(sprout::clz(x) == l0); CHECK(sprout::cntl0(x) == l0); CHECK(sprout::cntl1(x) == l1); CHECK(sprout::ctz(x) == t0); CHECK(sprout::cntt0(x) == t0); CHECK(sprout::cntt1(x) == t1);
  CHECK(sprout::parity(x) == (pop & 1)); CHECK((int)sprout::bit_length(x) == W - l0); int s = (l0 ? l0 : l1) - 1; CHECK(sprout::clrsb(x) == s);
}
template <class T> void pop() { T x = vp::nd<T>(); ull r = raw(x);
#ifdef VP_CLANG   // clears one bit after the other: at most ten bits set in the wide types
  if (sizeof(T) > 2) ASSUME((r & ~0x8001800108008181ull) == 0);
#endif
  int n = 0; for (int i = 0; i < U<T>::W; ++i) n += (r >> i) & 1; CHECK(sprout::popcount(x) == n); }
template <class T> void reverse() { const int W = U<T>::W; T x = vp::nd<T>(); ull r = raw(x), w = 0; for (int i = 0; i < W; ++i) w |= ((r >> i) & 1) << (W - 1 - i); CHECK(raw(sprout::bit_reverse(x)) == w); int n = vp::pick<int>(0, 3); int len = n == 0 ? 1 : n == 1 ? W / 2 : n == 2 ? W - 1 : W; ull low = len == 64 ? r : r & ((1ull << len) - 1), v = 0; for (int i = 0; i < len; ++i) v |= ((low >> i) & 1) << (len - 1 - i); CHECK(raw(sprout::bit_reverse_in(x, len)) == v); }
// ---- shifts and rotations, every distance below the width
template <class T> void shifts() { const int W = U<T>::W; T x = vp::nd<T>(); int s = vp::range<int>(0, W - 1); ull r = raw(x); CHECK(sprout::shll(x, s) == cut<T>(r << s)); CHECK(sprout::shal(x, s) == cut<T>(r << s)); CHECK(sprout::shlr(x, s) == cut<T>(r >> s)); bool neg = (r >> (W - 1)) & 1; ull fill = neg && s ? (~0ull << (W - s)) & all<T>() : 0; CHECK(sprout::shar(x, s) == cut<T>((r >> s) | fill));
  ull rl = s ? ((r << s) | (r >> (W - s))) & all<T>() : r, rr = s ? ((r >> s) | (r << (W - s))) & all<T>() : r; CHECK(sprout::rotl(x, s) == cut<T>(rl)); CHECK(sprout::rotr(x, s) == cut<T>(rr)); CHECK(sprout::rotr(sprout::rotl(x, s), s) == x); }
// ---- one bit and ranges of bits
template <class T> void single() { const int W = U<T>::W; T x = vp::nd<T>(); int b = vp::range<int>(0, W - 1); ull r = raw(x), m = 1ull << b, le = ((m - 1) << 1) | 1, ge = all<T>() & ~(m - 1);
  CHECK(sprout::testbit(x, b) == (bool)((r >> b) & 1)); CHECK(sprout::setbit(x, b) == cut<T>(r | m)); CHECK(sprout::rstbit(x, b) == cut<T>(r & ~m)); CHECK(sprout::flipbit(x, b) == cut<T>(r ^ m));
  CHECK(sprout::setbitsle(x, b) == cut<T>(r | le)); CHECK(sprout::rstbitsle(x, b) == cut<T>(r & ~le)); CHECK(sprout::flipbitsle(x, b) == cut<T>(r ^ le)); CHECK(sprout::setbitsge(x, b) == cut<T>(r | ge)); CHECK(sprout::rstbitsge(x, b) == cut<T>(r & ~ge)); CHECK(sprout::flipbitsge(x, b) == cut<T>(r ^ ge)); }
// ---- the rightmost run of zeros or ones, described bit by bit
template <class T> void rightmost() { const int W = U<T>::W; T x = vp::nd<T>(); ull r = raw(x), t0 = 0, t1 = 0; bool c = true, d = true; for (int i = 0; i < W; ++i) { bool v = (r >> i) & 1; c &= !v; d &= v; t0 |= (ull)c << i; t1 |= (ull)d << i; }
  ull ls1 = (t0 + 1) & all<T>() & r, ls0 = (t1 + 1) & all<T>() & ~r;   // the lowest one and the lowest zero
  CHECK(sprout::isols1b(x) == cut<T>(ls1)); CHECK(sprout::isols0b(x) == cut<T>(ls0)); CHECK(sprout::rstls1b(x) == cut<T>(r & ~ls1)); CHECK(sprout::setls0b(x) == cut<T>(r | ls0)); CHECK(sprout::maskt0(x) == cut<T>(t0)); CHECK(sprout::maskt1(x) == cut<T>(t1)); CHECK(sprout::maskt0ls1b(x) == cut<T>(t0 | ls1)); CHECK(sprout::maskt1ls0b(x) == cut<T>(t1 | ls0)); CHECK(sprout::sett0(x) == cut<T>(r | t0)); CHECK(sprout::rstt1(x) == cut<T>(r & ~t1)); }
#define ALL(n, ...) HARNESS(counts_##n) { counts<__VA_ARGS__>(); } HARNESS(pop_##n) { pop<__VA_ARGS__>(); } HARNESS(reverse_##n) { reverse<__VA_ARGS__>(); } HARNESS(shifts_##n) { shifts<__VA_ARGS__>(); } HARNESS(single_##n) { single<__VA_ARGS__>(); } HARNESS(rightmost_##n) { rightmost<__VA_ARGS__>(); }
ALL(u8, unsigned char)
ALL(s8, signed char)
ALL(u16, unsigned short)
ALL(s16, short)
ALL(u32, unsigned)
ALL(s32, int)
ALL(u64, unsigned long)
ALL(s64, long)
ALL(ull, unsigned long long)
ALL(sll, long long)
