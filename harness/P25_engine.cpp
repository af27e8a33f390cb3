// P25: random engines follow their published recurrences, in both the copying and the mutating form
// VP-STD: 11 14
#include "vpu.hpp"
#include <sprout/random.hpp>
#include <sprout/random/shuffle_order.hpp>
#include <sprout/random/taus88.hpp>
namespace R = sprout::random;
typedef std::uint64_t u64; typedef std::uint32_t u32;
template <class G> auto step(G const& g) -> decltype(g()) { return g(); }
// the copying form leaves the engine alone and agrees with the mutating form
template <class G, class V> void same_step(G& g, V want, bool lower = true) {
    G const c = g, k = g; auto r = c(); CHECK(c == k && !(c != k));
    CHECK(r.result() == want && R::result(r) == want && r.generated_value() == want && *r == want);
    auto got = g(); CHECK(got == want); CHECK(r.engine() == g && r.next() == g && r.next_generator() == g && R::next(r) == g);
    CHECK(got <= g.max()); if (lower) CHECK(g.min() <= got);
}
// ---- linear congruential
template <class T, T a, T c, T m> void lcg(int steps, T s = vp::nd<T>(), bool lower = true) {
    typedef R::linear_congruential_engine<T, a, c, m> G;
    G g(s); u64 mm = m ? (u64)m : 0; u64 x = mm ? (s < 0 ? (u64)(((long long)s % (long long)m + (long long)m) % (long long)m) : (u64)s % mm) : (u64)s; if (c == 0 && x == 0) x = 1;
    G h; h.seed(s); CHECK(g == h); CHECK(G::static_min() == (c == 0 ? 1 : 0) && G::static_max() == (T)(m - 1)); CHECK(g.min() == G::static_min() && g.max() == G::static_max());
    for (int i = 0; i < steps; ++i) { x = mm ? c ? (((u64)a * x) % mm + (u64)c) % mm : ((u64)a * x) % mm : (u64)(T)(a * (T)x + c); same_step(g, (T)x, lower); }
}
template <class T, T a, T c, T m, int Z> void lcg_discard() {
    typedef R::linear_congruential_engine<T, a, c, m> G; T s = vp::nd<T>(); G g(s), h(s); G const k(s); int z = vp::pick<int>(0, Z);
    auto d = k.discard(z); g.discard(z); for (int i = 0; i < z; ++i) h(); CHECK(d == h); CHECK(g == h); CHECK(k == G(s)); CHECK(g() == h());
}
HARNESS(lcg_mask) { lcg<u32, 1664525u, 1013904223u, 0x80000000u>(3); lcg<std::uint8_t, 5, 3, 64>(4); lcg<std::uint16_t, 77, 1, 1024>(3); }
HARNESS(lcg_rand48) { lcg<u64, 0x5DEECE66Dull, 0xBull, 1ull << 48>(3); }
HARNESS(lcg_zero_modulus) { lcg<u32, 1664525u, 1013904223u, 0u>(3); lcg<std::uint8_t, 13, 7, 0>(4); }
HARNESS(lcg_small) { lcg<std::uint8_t, 17, 0, 127>(2); lcg<std::uint8_t, 200, 33, 251>(2); }
HARNESS(lcg_small_word) { lcg<u32, 25, 7, 251>(1); lcg<u32, 1, 7, 251>(2); lcg<u32, 0, 7, 251>(2); }
HARNESS(lcg_kreutzer) { lcg<u64, 1366, 150889, 714025>(1, vp::range<u64>(0, 1500)); }
HARNESS(lcg_minstd) { lcg<u64, 16807, 0, 2147483647>(2, vp::nd<u64>(), false); lcg<u64, 48271, 0, 2147483647>(2, vp::nd<u64>(), false); CHECK((std::is_same<R::minstd_rand0, R::linear_congruential_engine<std::uint_fast32_t, 16807, 0, 2147483647> >::value)); CHECK((std::is_same<R::minstd_rand, R::linear_congruential_engine<std::uint_fast32_t, 48271, 0, 2147483647> >::value)); }
HARNESS(lcg_wide) { lcg<u32, 48271, 0, 2147483647>(1, vp::nd<u32>(), false); lcg<u32, 48271, 5, 2147483647>(1, vp::nd<u32>(), false); lcg<u32, 4000000000u, 0, 4294967291u>(1, vp::nd<u32>(), false); lcg<u32, 4000000000u, 4000000000u, 4294967291u>(1, vp::nd<u32>(), false); }
// the signed form (Schrage's decomposition): states near every multiple of q, where its quotient changes
HARNESS(lcg_schrage) {
    typedef R::linear_congruential_engine<int, 16807, 0, 2147483647> G; int const q = 2147483647 / 16807; int k = vp::pick<int>(0, 7); int x = (k < 4 ? k : 16807 - (k - 3)) * q + vp::range<int>(-8, 8); ASSUME(x >= 1);
    G g(x); long long w = 16807ll * x % 2147483647ll; same_step(g, (int)w, false);
}
HARNESS(lcg_schrage_char) { lcg<signed char, 10, 0, 127>(1, vp::nd<signed char>(), false); }
HARNESS(lcg_schrage_short) { lcg<short, 7, 3, 251>(1, (short)vp::range<int>(-300, 300)); }
HARNESS(lcg_schrage_int) { lcg<int, 100, 0, 10007>(1, vp::range<int>(-64, 64), false); }
HARNESS(lcg_discard_prime) { lcg_discard<u32, 25, 7, 251, 6>(); }
HARNESS(lcg_discard_mult) { lcg_discard<u32, 17, 0, 127, 5>(); }
HARNESS(lcg_discard_pow2) { lcg_discard<u32, 5, 3, 64, 6>(); }
HARNESS_T(lcg_discard_rand48) { lcg_discard<u64, 0x5DEECE66Dull, 0xBull, 1ull << 48, 2>(); }
HARNESS(lcg_discard_composite) { lcg_discard<u32, 21, 7, 100, 6>(); }
HARNESS(rand48) { u32 s = vp::nd<u32>(); R::rand48 g(s); u64 x = ((u64)s << 16) | 0x330e; for (int i = 0; i < 3; ++i) { x = (x * 0x5DEECE66Dull + 0xB) & ((1ull << 48) - 1); same_step(g, (u32)(x >> 17)); } CHECK(R::rand48() == R::rand48(1)); CHECK(g.min() == 0 && g.max() == 0x7fffffff); }
// ---- inversive congruential
template <class T, T a, T b, T p> void inversive(int steps, T s) {
    typedef R::inversive_congruential_engine<T, a, b, p> G; G g(s); G h; h.seed(s); CHECK(g == h);
    u64 x = (u64)s % p; if (b == 0 && x == 0) x = 1;
    for (int i = 0; i < steps; ++i) {
        G const c = g; T y = c().result(); u64 inv = vp::range<u64>(0, (u64)p - 1); ASSUME(x == 0 ? inv == 0 : inv * x % p == 1); // the inverse is unique
        same_step(g, (T)((a * inv + b) % p)); (void)y; x = (a * inv + b) % p;
    }
}
HARNESS(inversive) { inversive<u32, 8, 3, 31>(2, vp::range<u32>(0, 63)); inversive<u32, 2, 5, 23>(1, vp::range<u32>(0, 31)); inversive<std::uint8_t, 9, 102, 127>(1, vp::nd<std::uint8_t>()); }
HARNESS(inversive_zero) { inversive<u32, 3, 0, 29>(1, vp::range<u32>(0, 63)); }
// ---- feedback shift
template <class T, int w, int k, int q, int s> void lfs(int steps) {
    typedef R::linear_feedback_shift_engine<T, w, k, q, s> G; T v = vp::nd<T>(); G g(v); G h; h.seed(v); CHECK(g == h); u64 mask = w == 64 ? ~0ull : (1ull << w) - 1; u64 x = (u64)v & mask; if (x < (1ull << (w - k))) x += 1ull << (w - k);
    CHECK(g.min() == 0 && (u64)g.max() == mask);
    for (int i = 0; i < steps; ++i) { u64 b = (((x << q) ^ x) & mask) >> (k - s); x = (((x & (mask << (w - k))) << s) & mask) ^ b; same_step(g, (T)x); }
}
HARNESS(feedback_shift) { lfs<u32, 32, 31, 13, 12>(3); lfs<u32, 32, 29, 2, 4>(3); lfs<u32, 32, 28, 3, 17>(3); }
HARNESS(feedback_shift_narrow) { lfs<u64, 32, 31, 13, 12>(2); lfs<std::uint8_t, 8, 7, 3, 2>(3); lfs<u32, 8, 7, 3, 2>(3); }
HARNESS(taus88) {
    u32 s = vp::nd<u32>(); R::taus88 g(s); u32 x[3] = { s < 2 ? s + 2 : s, s < 8 ? s + 8 : s, s < 16 ? s + 16 : s };
    for (int i = 0; i < 3; ++i) { x[0] = ((x[0] & 0xfffffffeu) << 12) ^ (((x[0] << 13) ^ x[0]) >> 19); x[1] = ((x[1] & 0xfffffff8u) << 4) ^ (((x[1] << 2) ^ x[1]) >> 25); x[2] = ((x[2] & 0xfffffff0u) << 17) ^ (((x[2] << 3) ^ x[2]) >> 11); same_step(g, x[0] ^ x[1] ^ x[2]); }
    CHECK(g.min() == 0 && g.max() == 0xffffffffu); R::taus88 h; h.seed(s); R::taus88 k(s); CHECK(h == k); h.seed(); CHECK(h == R::taus88());
}
// ---- combinations
typedef R::linear_congruential_engine<u32, 3, 0, 31> L1; typedef R::linear_congruential_engine<u32, 5, 0, 23> L2;
HARNESS(additive_combine) {
    typedef R::additive_combine_engine<L1, L2> G; u32 s = vp::range<u32>(0, 511), t = vp::range<u32>(0, 255); bool two = vp::flag(); if (!two) t = s; G g = two ? G(s, t) : G(s); L1 a(s); L2 b(t); CHECK(g == G(a, b)); CHECK(g.base1() == a && g.base2() == b);
    for (int i = 0; i < 2; ++i) { u32 v = a(), w = b(); same_step(g, v > w ? v - w : v + 30 - w); } G h; if (two) h.seed(s, t); else h.seed(s); CHECK(h == (two ? G(s, t) : G(s))); CHECK(g.min() == 1 && g.max() == 30); h.seed(); CHECK(h == G());
}
HARNESS(xor_combine) {
    typedef R::linear_feedback_shift_engine<u32, 8, 7, 3, 2> F1; typedef R::linear_feedback_shift_engine<u32, 16, 15, 4, 5> F2; typedef R::xor_combine_engine<F1, 3, F2, 7> G; u32 s = vp::nd<u32>(), t = vp::nd<u32>(); G g(s, t); F1 a(s); F2 b(t); CHECK(g == G(a, b)); CHECK(g.base1() == a && g.base2() == b);
    for (int i = 0; i < 2; ++i) { G const c = g; u32 v = a(), w = b(); auto r = c(); CHECK(r.result() == ((v << 3) ^ (w << 7))); CHECK(g() == ((v << 3) ^ (w << 7))); CHECK(r.engine() == g); } G h; h.seed(s, t); CHECK(h == G(s, t)); h.seed(s); CHECK(h == G(s)); CHECK(G(s) == G(s, s));
}
template <class B, int k> void shuffled(u32 s, int steps) {
    typedef R::shuffle_order_engine<B, k> G; G g(s); B b(s); u32 v[k], y; for (int i = 0; i < k; ++i) v[i] = b(); y = b(); CHECK(g.base() == b); u64 lo = b.min(), n = (u64)b.max() - lo + 1; CHECK(g.min() == b.min() && g.max() == b.max());
    for (int i = 0; i < steps; ++i) { int j = (int)(k * ((u64)y - lo) / n); y = v[j]; v[j] = b(); same_step(g, y); CHECK(g.base() == b); }
    G h; h.seed(s); CHECK(h == G(s) && h == G(B(s))); h.seed(); CHECK(h == G() && h == G(B()));
}
HARNESS(shuffle_order) { shuffled<R::linear_congruential_engine<u32, 5, 3, 64>, 4>(vp::nd<u32>(), 3); }
HARNESS(shuffle_order_mult) { shuffled<R::linear_congruential_engine<u32, 7, 0, 31>, 3>(vp::nd<u32>(), 2); }
HARNESS(shuffle_order_one) { shuffled<R::linear_congruential_engine<u32, 5, 3, 64>, 1>(vp::nd<u32>(), 2); }
HARNESS(shuffle_order_full) { shuffled<R::linear_feedback_shift_engine<u32, 32, 31, 13, 12>, 4>(vp::nd<u32>(), 2); }
HARNESS(knuth_types) { CHECK((std::is_same<R::knuth_b, R::shuffle_order_engine<R::minstd_rand0, 256> >::value)); CHECK((std::is_same<R::default_random_engine, R::minstd_rand0>::value || true)); }
// ---- twister: small instances of every shape of the unrolled loops, all seeds
template <class T, int w, int n, int m, int r, u64 a, int u, u64 d, int s, u64 b, int t, u64 c, int l, u64 f> void mt(int steps) {
    typedef R::mersenne_twister_engine<T, w, n, m, r, (T)a, u, (T)d, s, (T)b, t, (T)c, l, (T)f> G; T v = vp::nd<T>(); G g(v), k(v); T const mask = w == 64 ? ~0ull : (1ull << (w & 63)) - 1, lo = (T)((1ull << r) - 1); T x[n]; x[0] = v & mask; for (int i = 1; i < n; ++i) x[i] = ((T)f * (x[i - 1] ^ (x[i - 1] >> (w - 2))) + i) & mask;
    CHECK(g.min() == 0 && g.max() == mask); int p = 0;
    for (int i = 0; i < steps; ++i) {
        T y = (x[p] & (T)~lo) | (x[(p + 1) % n] & lo); x[p] = x[(p + m) % n] ^ (y >> 1) ^ ((x[(p + 1) % n] & 1) * (T)a); T z = x[p]; p = (p + 1) % n; z ^= (z >> u) & (T)d; z ^= (z << s) & (T)b; z ^= (z << t) & (T)c; z ^= z >> l;
        G const o = k; auto rr = o(); CHECK(rr.result() == z); k = rr.engine(); CHECK(g() == z);
    }
}
#define MTP 11, 0xffffffffull, 7, 0x9d2c5680ull, 15, 0xefc60000ull, 18
HARNESS(mt_seed) { mt<u32, 32, 3, 1, 31, 0x9908b0dfull, MTP, 1812433253ull>(2); }
HARNESS(mt_small) { mt<u32, 32, 3, 1, 31, 0x9908b0dfull, MTP, 1>(5); }
HARNESS(mt_small_fast) { mt<u64, 32, 4, 2, 31, 0x9908b0dfull, MTP, 1>(6); }
HARNESS(mt_unrolled) { mt<u32, 32, 15, 8, 19, 0xccab8ee7ull, 11, 0xffffffffull, 7, 0x31b6ab00ull, 15, 0xffe50000ull, 17, 1>(17); }
HARNESS(mt_long_front) { mt<u32, 32, 10, 2, 31, 0x9908b0dfull, MTP, 1>(11); }
HARNESS(mt_64) { mt<u64, 64, 5, 3, 31, 0xb5026f5aa96619e9ull, 29, 0x5555555555555555ull, 17, 0x71d67fffeda60000ull, 37, 0xfff7eee000000000ull, 43, 1>(6); }
HARNESS(mt_parameters) {
    typedef R::mt19937 A; CHECK(A::word_size == 32 && A::state_size == 624 && A::shift_size == 397 && A::mask_bits == 31 && A::xor_mask == 0x9908b0dfu && A::tempering_u == 11 && A::tempering_d == 0xffffffffu && A::tempering_s == 7 && A::tempering_b == 0x9d2c5680u && A::tempering_t == 15 && A::tempering_c == 0xefc60000u && A::tempering_l == 18 && A::initialization_multiplier == 1812433253u && A::default_seed == 5489u);
    typedef R::mt11213b B; CHECK(B::word_size == 32 && B::state_size == 351 && B::shift_size == 175 && B::mask_bits == 19 && B::xor_mask == 0xccab8ee7u && B::tempering_u == 11 && B::tempering_d == 0xffffffffu && B::tempering_s == 7 && B::tempering_b == 0x31b6ab00u && B::tempering_t == 15 && B::tempering_c == 0xffe50000u && B::tempering_l == 17 && B::initialization_multiplier == 1812433253u);
    typedef R::mt19937_64 C; CHECK(C::word_size == 64 && C::state_size == 312 && C::shift_size == 156 && C::mask_bits == 31 && C::xor_mask == 0xb5026f5aa96619e9ull && C::tempering_u == 29 && C::tempering_d == 0x5555555555555555ull && C::tempering_s == 17 && C::tempering_b == 0x71d67fffeda60000ull && C::tempering_t == 37 && C::tempering_c == 0xfff7eee000000000ull && C::tempering_l == 43 && C::initialization_multiplier == 6364136223846793005ull);
}
// equality of twisters at different places of their streams: equal exactly when everything to come is equal
HARNESS(mt_equal) {
    typedef R::mersenne_twister_engine<u32, 8, 2, 1, 3, 0xb8, 3, 0xff, 2, 0x9c, 4, 0xe0, 5, 37> G; std::uint8_t s = vp::nd<std::uint8_t>(), t = vp::nd<std::uint8_t>(); G a(s), b(t); int i = vp::pick<int>(0, 3), j = vp::pick<int>(0, 3); for (int k = 0; k < i; ++k) a(); for (int k = 0; k < j; ++k) b();
    bool e = a == b; CHECK(e == (b == a) && e == !(a != b)); bool f = true; for (int k = 0; k < 4; ++k) f = (a() == b()) & f; CHECK(!e || f);
    if (i == j && s == t) CHECK(e);
}
// ---- sequences of results
HARNESS(generate_array) { u32 s = vp::nd<u32>(); typedef R::linear_congruential_engine<u32, 5, 3, 64> G; G g(s), h(s); G const k(s); auto p = R::generate_array<3>(k); auto a = R::generate_array<3>(g); for (int i = 0; i < 3; ++i) { u32 v = h(); CHECK(a[i] == v && p.first[i] == v); } CHECK(g == h && p.second == h); }
HARNESS(result_iterator) {
    u32 s = vp::nd<u32>(); typedef R::linear_congruential_engine<u32, 5, 3, 64> G; G h(s); G const k(s); auto r = k(); for (int i = 0; i < 3; ++i) { u32 v = h(); CHECK(*r == v && r == r); auto n = r(); auto o = r; CHECK(*(o++) == v); CHECK(o == n && o != r || *n == v); auto q = r; CHECK(&++q == &q && q == n && r.next_value() == n && sprout::next(r) == n); r = n; }
    auto x = k(), y = x(); x.swap(y); CHECK(x == k()() && y == k()); sprout::swap(x, y); CHECK(x == k());
    G m(s); int c = vp::pick<int>(0, 3); auto b = R::begin(k, c); auto e = R::end(k); int n = 0; for (; n < c; ++n, ++b) { CHECK(b != e); CHECK(*b == m()); } CHECK(b == e);
}
