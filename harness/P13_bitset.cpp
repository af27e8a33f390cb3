// P13: bitset<N> is the set of its N bits
#include "vpu.hpp"
#include <stdexcept>
#include <string>
#include <sprout/bitset.hpp>
// VP-ONLY: gcc -DVP_GCC -DSPROUT_HAS_CONSTEXPR_BIT_OPERATION=1
// VP-VARIANT: clang -DVP_CLANG
#ifndef VP_WIDE
typedef unsigned __int128 W;
#endif
typedef std::size_t sz;
template <int N> W mask() { W m = 0; for (sz i = 0; i < (sz)N; ++i) m = m | ((W)1 << i); return m; }
// the bits of a bitset, read one by one
template <int N> bool holds(sprout::bitset<N> const& b, W w) { bool ok = true; for (int i = 0; i < N; ++i) ok &= b[i] == (bool)((w >> (sz)i) & (W)1); return ok; }
template <int N> struct B { W w; sprout::bitset<N> b; B() { w = 0; for (sz k = 0; k < (sz)N; k += 64) { ull x = vp::nd<ull>(); w = w | ((W)x << k); sprout::bitset<N> h(x); b = k ? b | (h << k) : h; } w = w & mask<N>(); } };
template <class F> int thrown(F f) { try { f(); return 0; } catch (std::out_of_range const&) { return 1; } catch (std::overflow_error const&) { return 2; } catch (std::invalid_argument const&) { return 3; } }
template <int N> void construct() { ull x = vp::nd<ull>(); sprout::bitset<N> b(x); CHECK(holds<N>(b, (W)x & mask<N>())); sprout::bitset<N> z; CHECK(holds<N>(z, 0)); CHECK(b.size() == (sz)N); B<N> t; CHECK(holds<N>(t.b, t.w)); sprout::bitset<N> c(t.b); CHECK(holds<N>(c, t.w)); z = t.b; CHECK(holds<N>(z, t.w)); }
template <int N> void logic() { B<N> x, y; sprout::bitset<N> const& a = x.b; sprout::bitset<N> const& b = y.b; CHECK(holds<N>(a & b, x.w & y.w)); CHECK(holds<N>(a | b, x.w | y.w)); CHECK(holds<N>(a ^ b, x.w ^ y.w)); CHECK(holds<N>(~a, ~x.w & mask<N>()));
  sprout::bitset<N> c(a); c &= b; CHECK(holds<N>(c, x.w & y.w)); c = a; c |= b; CHECK(holds<N>(c, x.w | y.w)); c = a; c ^= b; CHECK(holds<N>(c, x.w ^ y.w)); CHECK((a == b) == (x.w == y.w)); CHECK((a != b) == (x.w != y.w)); CHECK(a == sprout::bitset<N>(a)); CHECK(holds<N>(a, x.w) && holds<N>(b, y.w)); }
template <int N> W shl(W w, sz p) { return p >= (sz)N ? 0 : (w << p) & mask<N>(); }
template <int N> W shr(W w, sz p) { return p >= (sz)N ? 0 : w >> p; }
template <int N> void shift() { B<N> x; static const int ps[] = {0, 1, 7, 31, 33, 63, 64, 65, 70, 127, N - 1, N, N + 1, 200}; sz p = (sz)ps[vp::pick<int>(0, 13)]; sprout::bitset<N> const& a = x.b; CHECK(holds<N>(a << p, shl<N>(x.w, p))); CHECK(holds<N>(a >> p, shr<N>(x.w, p))); sprout::bitset<N> c(a); c <<= p; CHECK(holds<N>(c, shl<N>(x.w, p))); c = a; c >>= p; CHECK(holds<N>(c, shr<N>(x.w, p))); CHECK(holds<N>(a, x.w)); }
template <int N> void shift_far() { B<N> x; sz p = vp::nd<sz>(); ASSUME(p >= (sz)N); sprout::bitset<N> const& a = x.b; CHECK(holds<N>(a << p, 0)); CHECK(holds<N>(a >> p, 0)); sprout::bitset<N> c(a); c <<= p; CHECK(holds<N>(c, 0)); c = a; c >>= p; CHECK(holds<N>(c, 0)); }
template <int N> void one_bit() { B<N> x; sz p = vp::nd<sz>(); ASSUME(p < (sz)N); bool v = vp::flag(); W m = (W)1 << p; sprout::bitset<N> const& a = x.b; W on = x.w | m, off = x.w & ~m, fl = x.w ^ m;
  CHECK(a.test(p) == (bool)((x.w >> p) & (W)1)); CHECK(a[p] == a.test(p)); CHECK(holds<N>(a.set(p), on)); CHECK(holds<N>(a.set(p, v), v ? on : off)); CHECK(holds<N>(a.reset(p), off)); CHECK(holds<N>(a.flip(p), fl));
  sprout::bitset<N> c(a); CHECK(&c.set(p) == &c); CHECK(holds<N>(c, on)); c = a; c.set(p, v); CHECK(holds<N>(c, v ? on : off)); c = a; c.reset(p); CHECK(holds<N>(c, off)); c = a; c.flip(p); CHECK(holds<N>(c, fl));
  c = a; c[p] = v; CHECK(holds<N>(c, v ? on : off)); c = a; c[p].flip(); CHECK(holds<N>(c, fl)); CHECK(~c[p] == !c.test(p)); sz q = vp::nd<sz>(); ASSUME(q < (sz)N); c = a; c[p] = c[q]; CHECK(holds<N>(c, (x.w >> q) & (W)1 ? on : off)); }
template <int N> void bad_bit() { B<N> x; sz p = vp::nd<sz>(); ASSUME(p >= (sz)N); sprout::bitset<N> const& a = x.b; sprout::bitset<N> c(a); CHECK(thrown([&] { a.test(p); }) == 1); CHECK(thrown([&] { a.set(p); }) == 1); CHECK(thrown([&] { a.reset(p); }) == 1); CHECK(thrown([&] { a.flip(p); }) == 1); CHECK(thrown([&] { c.set(p, false); }) == 1); CHECK(thrown([&] { c.reset(p); }) == 1); CHECK(thrown([&] { c.flip(p); }) == 1); CHECK(holds<N>(c, x.w)); }
template <int N> void whole() { B<N> x; sprout::bitset<N> const& a = x.b; CHECK(holds<N>(a.set(), mask<N>())); CHECK(holds<N>(a.reset(), 0)); CHECK(holds<N>(a.flip(), ~x.w & mask<N>())); sprout::bitset<N> c(a); c.set(); CHECK(holds<N>(c, mask<N>())); CHECK(c.all() && c.any() && !c.none()); c.flip(); CHECK(holds<N>(c, 0)); CHECK(c.none() && !c.any()); c = a; c.flip(); CHECK(holds<N>(c, ~x.w & mask<N>())); c.reset(); CHECK(holds<N>(c, 0));
  CHECK(a.all() == (x.w == mask<N>())); CHECK(a.any() == (x.w != (W)0)); CHECK(a.none() == (x.w == (W)0)); }
template <int N> void count() { B<N> x;
#ifdef VP_CLANG   // popcount by clearing one bit after the other: at most ten bits set
  if (N > 9) { W keep = 0; static const int ps[] = {0, 1, 31, 32, 62, 63, 64, 65, 69, 127}; for (int p : ps) if (p < N) keep = keep | ((W)1 << (sz)p); ASSUME((x.w & ~keep) == 0); }
#endif
  sz n = 0; for (int i = 0; i < N; ++i) n += (sz)(bool)((x.w >> (sz)i) & (W)1); CHECK(x.b.count() == n); }
template <int N> void find() { B<N> x; sz f = N; for (int i = N; i-- > 0;) f = (x.w >> (sz)i) & (W)1 ? (sz)i : f; CHECK(x.b.find_first() == f); static const int ps[] = {0, 1, 62, 63, 64, 65, N - 2, N - 1, N / 2}; sz p = (sz)ps[vp::pick<int>(0, 8)]; if (p < (sz)N) { sz g = N; for (int i = N; i-- > (int)p + 1;) g = (x.w >> (sz)i) & (W)1 ? (sz)i : g; CHECK(x.b.find_next(p) == g); } }
template <int N> void to_num() { B<N> x; bool over = (x.w >> (sz)64) != (W)0; unsigned long l = 0; ull q = 0; CHECK(thrown([&] { l = x.b.to_ulong(); }) == (over ? 2 : 0)); CHECK(thrown([&] { q = x.b.to_ullong(); }) == (over ? 2 : 0)); if (!over) { CHECK(l == (ull)x.w); CHECK(q == (ull)x.w); } }
#define ALL(n) HARNESS(construct_##n) { construct<n>(); } HARNESS(logic_##n) { logic<n>(); } HARNESS(shift_##n) { shift<n>(); } HARNESS(shift_far_##n) { shift_far<n>(); } HARNESS(one_bit_##n) { one_bit<n>(); } HARNESS(bad_bit_##n) { bad_bit<n>(); } HARNESS(whole_##n) { whole<n>(); } HARNESS(to_num_##n) { to_num<n>(); } HARNESS(find_##n) { find<n>(); } HARNESS(count_##n) { count<n>(); }
#ifndef VP_WIDE
ALL(1)
ALL(9)
ALL(64)
ALL(70)
ALL(128)
// ---- text: the first character is the highest bit
template <int N, int M> void from_text() { char b[M + 1]; int n = vp::pick<int>(0, M); for (int i = 0; i < M; ++i) b[i] = i < n ? vp::nd<char>() : 0; b[M] = 0; bool bad = false; W w = 0; int k = n < N ? n : N; for (int i = 0; i < n; ++i) { ASSUME(b[i] != 0); bool one = b[i] == '1', zero = b[i] == '0'; if (i < k) { bad |= !one && !zero; w = (w << 1) | one; } } sprout::bitset<N> c; int r = thrown([&] { c = sprout::bitset<N>((char const*)b, (sz)n); }); CHECK(r == (bad ? 3 : 0)); if (!bad) CHECK(holds<N>(c, w)); }
HARNESS(from_text_4) { from_text<4, 6>(); }
HARNESS(from_text_2) { from_text<2, 3>(); }
HARNESS(from_text_own) { char b[4]; char z = vp::nd<char>(), o = vp::nd<char>(); ASSUME(z != o && z != 0 && o != 0); W w = 0; for (int i = 0; i < 3; ++i) { bool v = vp::flag(); b[i] = v ? o : z; w = (w << 1) | v; } b[3] = 0; sprout::bitset<5> c((char const*)b, 3, z, o); CHECK(holds<5>(c, w)); }
#endif
