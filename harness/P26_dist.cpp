// P26: seed sequences, integer distributions and generators: the published algorithms, for every draw of the engine
// VP-STD: 11 14
// the form clang++ takes (a recursion depth in every template) multiplies the instantiations: it gets fewer pairs of types
// VP-ONLY: gcc -DVP_GCC
// VP-VARIANT: clang -DVP_CLANG
#include "vpu.hpp"
#include <sprout/random.hpp>
#include <sprout/random/seed_array.hpp>
#include <sprout/random/uniform_int_distribution.hpp>
#include <sprout/random/uniform_smallint.hpp>
#include <sprout/random/bernoulli_distribution.hpp>
#include <sprout/random/uniform_01.hpp>
#include <sprout/random/generate_canonical.hpp>
#include <sprout/random/variate_generator.hpp>
#include <sprout/random/linear_feedback_shift.hpp>
namespace R = sprout::random;
typedef std::uint64_t u64; typedef std::uint32_t u32;
// an engine that plays back a tape of symbolic draws; asking for more than the tape has ends the path
template <class T, T lo, T hi, int N> struct Tape {
    typedef T result_type; T v[N]; int i;
    static constexpr T static_min() { return lo; } static constexpr T static_max() { return hi; }
    constexpr T min() const { return lo; } constexpr T max() const { return hi; }
    static T at(Tape const& t, int k) { ASSUME(k < N); return t.v[k]; }
    T operator()() { return at(*this, i++); }
    R::random_result<Tape> const operator()() const { Tape t(*this); t.i = i + 1; return R::random_result<Tape>(at(*this, i), t); }
    friend bool operator==(Tape const& a, Tape const& b) { return a.i == b.i; } friend bool operator!=(Tape const& a, Tape const& b) { return a.i != b.i; }
};
template <class E> E tape() { E e; e.i = 0; for (auto& x : e.v) { x = vp::nd<typename E::result_type>(); ASSUME(e.min() <= x && x <= e.max()); } return e; }
// the same answer and the same number of draws in the copying and in the mutating form, with the distribution's own or given parameters
template <class D, class E, class V> void drawn(D const& d, E const& e0, V want, int used) {
    E const c = e0; auto r = d(c); CHECK(r.result() == want); CHECK(r.engine().i == used); CHECK(r.distribution() == d); CHECK(R::result(r) == want && R::next(r).engine().i == used);
    E m = e0; auto got = d(m); CHECK(got == want); CHECK(m.i == used);
    D const other; auto r2 = other(c, d.param()); CHECK(r2.result() == want && r2.engine().i == used);
    E m2 = e0; CHECK(other(m2, d.param()) == want && m2.i == used);
}
// ---- uniform_int_distribution
// one draw per attempt: the engine's values are cut into buckets of equal size, one for each value of the range, and the rest is drawn again
template <class T, class E> void uniform_one(T lo, T hi) {
    ASSUME(lo <= hi); typedef unsigned long long W; E e = tape<E>(); R::uniform_int_distribution<T> d(lo, hi); CHECK(d.a() == lo && d.b() == hi && d.min() == lo && d.max() == hi);
    W range = (W)((long long)hi - (long long)lo), br = (W)((long long)e.max() - (long long)e.min()); ASSUME(range <= br);
    if (range == 0) { drawn(d, e, lo, 0); return; }
    W bucket = (br + 1) / (range + 1); int used = 0; W q = 0;
    for (;;) { q = (W)((long long)E::at(e, used) - (long long)e.min()) / bucket; ++used; if (q <= range) break; }
    drawn(d, e, (T)((long long)lo + (long long)q), used);
}
#ifndef VP_CLANG
HARNESS(uniform_uc_uc) { uc a = vp::nd<uc>(), b = vp::nd<uc>(); uniform_one<uc, Tape<uc, 0, 255, 2> >(a, b); }
#endif
HARNESS(uniform_sc_uc) { sc a = vp::nd<sc>(), b = vp::nd<sc>(); uniform_one<sc, Tape<uc, 3, 250, 2> >(a, b); }
#ifndef VP_CLANG
HARNESS(uniform_uc_sc) { uc a = vp::nd<uc>(), b = vp::nd<uc>(); uniform_one<uc, Tape<sc, -120, 100, 2> >(a, b); }
HARNESS(uniform_sc_sc) { sc a = vp::nd<sc>(), b = vp::nd<sc>(); uniform_one<sc, Tape<sc, -128, 127, 2> >(a, b); }
HARNESS(uniform_narrow) { int a = vp::nd<sc>(); uniform_one<int, Tape<uc, 1, 6, 3> >(a, a + vp::pick<int>(0, 5)); }
HARNESS(uniform_int_short) { int a = vp::range<int>(-30000, 30000); uniform_one<int, Tape<std::uint16_t, 0, 65535, 2> >(a, a + 5); uniform_one<int, Tape<std::uint16_t, 0, 65535, 2> >(a, a + 255); uniform_one<int, Tape<std::uint16_t, 0, 65535, 2> >(a, a + 65535); }
HARNESS(uniform_int_full) { int a = vp::nd<int>(); ASSUME(a <= 2147483647 - 6); uniform_one<int, Tape<u32, 0, 0xffffffffu, 2> >(a, a + 5); uniform_one<int, Tape<u32, 0, 0xffffffffu, 2> >(a & 3, (a & 3) + 9); }
HARNESS(uniform_int_whole) { uniform_one<int, Tape<u32, 0, 0xffffffffu, 2> >(-2147483647 - 1, 2147483647); uniform_one<u32, Tape<u32, 0, 0xffffffffu, 2> >(0, 0xffffffffu); uniform_one<int, Tape<u32, 1, 2147483646, 2> >(-1000, 1000); uniform_one<long long, Tape<u32, 1, 2147483646, 2> >(-1000, 1000); uniform_one<int, Tape<u32, 0, 0xffffffffu, 2> >(-2147483647, 2147483647); }
HARNESS(uniform_default) { typedef Tape<u32, 0, 0x7fffffffu, 1> E; E e = tape<E>(); R::uniform_int_distribution<> d; CHECK(d.a() == 0 && d.b() == 2147483647); drawn(d, e, (int)e.v[0], 1); R::uniform_int_distribution<> k(7); CHECK(k.a() == 7 && k.b() == 2147483647); CHECK(d != k && d == R::uniform_int_distribution<>(d.param()) && !(d == k)); d.param(k.param()); d.reset(); CHECK(d == k); }
#endif
// several draws: digits in the base of the engine's range, least significant first, as long as they fit; then a uniform top part; too large a sum starts again
template <class E> bool big(E const& e, int& used, u64 range, u64& out);
template <class E> bool attempt(E const& e, int& used, u64 range, u64& out) {
    u64 base = (u64)((long long)e.max() - (long long)e.min()) + 1; u64 r = 0, mult = 1, limit = (range + 1) / base;
    while (mult <= limit) { r += (u64)((long long)E::at(e, used) - (long long)e.min()) * mult; ++used; if (mult * base == range + 1) { out = r; return true; } mult *= base; }
    u64 top; big(e, used, range / mult, top); r += top * mult; if (r > range) return false; out = r; return true;
}
template <class E> bool big(E const& e, int& used, u64 range, u64& out) {
    u64 br = (u64)((long long)e.max() - (long long)e.min()); if (range == 0) { out = 0; return true; }
    if (range <= br) { u64 bucket = (br + 1) / (range + 1); for (;;) { out = (u64)((long long)E::at(e, used) - (long long)e.min()) / bucket; ++used; if (out <= range) return true; } }
    while (!attempt(e, used, range, out)) {} return true;
}
template <class T, class E> void uniform_many(T lo, T hi) {
    ASSUME(lo <= hi); E e = tape<E>(); R::uniform_int_distribution<T> d(lo, hi); int used = 0; u64 q; big(e, used, (u64)((long long)hi - (long long)lo), q);
    drawn(d, e, (T)((long long)lo + (long long)q), used);
}
#ifndef VP_CLANG
HARNESS(many_bits_uc) { uc lo = vp::nd<uc>(); int w[] = {1, 2, 3, 4, 6, 7, 8, 12, 15, 100}; int k = w[vp::pick<int>(0, 9)]; ASSUME(lo + k <= 255); uniform_many<uc, Tape<uc, 0, 1, 8> >(lo, (uc)(lo + k)); }
#endif
HARNESS(many_bits_sc) { sc lo = vp::nd<sc>(); int w[] = {1, 2, 3, 4, 6, 7, 8, 12, 15, 100}; int k = w[vp::pick<int>(0, 9)]; ASSUME(lo + k <= 127); uniform_many<sc, Tape<sc, -1, 0, 8> >(lo, (sc)(lo + k)); }
#ifndef VP_CLANG
HARNESS(many_wrap) { uniform_many<uc, Tape<uc, 0, 9, 6> >(0, 255); }
HARNESS(many_wrap_signed) { uniform_many<sc, Tape<uc, 0, 99, 4> >(-128, 127); }
HARNESS(many_wrap_ternary) { uniform_many<uc, Tape<uc, 1, 3, 6> >(0, 255); }
HARNESS(many_tens) { int lo = vp::nd<int>(); int w[] = {9, 10, 99, 100, 250, 999, 5000}; int k = w[vp::pick<int>(0, 6)]; ASSUME(lo <= 2147483647 - k); uniform_many<int, Tape<uc, 1, 10, 5> >(lo, lo + k); }
HARNESS(many_bytes) { typedef Tape<uc, 0, 255, 5> E; int lo = vp::nd<int>(); int w[] = {256, 1000, 65535, 65536, 0xffffff}; int k = w[vp::pick<int>(0, 4)]; ASSUME(lo <= 2147483647 - k); uniform_many<int, E>(lo, lo + k); }
HARNESS(many_whole) { uniform_many<int, Tape<uc, 0, 255, 5> >(-2147483647 - 1, 2147483647); uniform_many<u32, Tape<uc, 0, 255, 5> >(0, 0xffffffffu); uniform_many<std::uint16_t, Tape<uc, 0, 15, 5> >(0, 65535); uniform_many<short, Tape<uc, 0, 15, 5> >(-32768, 32767); uniform_many<sc, Tape<uc, 0, 15, 3> >(-128, 127); uniform_many<uc, Tape<uc, 0, 9, 6> >(0, 255); }
HARNESS(many_word) { typedef Tape<u32, 0, 0xffffffffu, 3> E; E e = tape<E>(); R::uniform_int_distribution<u64> d(0, ~0ull); drawn(d, e, e.v[0] + ((u64)e.v[1] << 32), 2); R::uniform_int_distribution<long long> s(-5, 0xfffffffffll - 5); u64 q; int used = 0; big(e, used, 0xfffffffffull, q); drawn(s, e, (long long)q - 5, used); }
#endif
// ---- uniform_smallint
template <class T, class E> void small(T lo, T hi) {
    ASSUME(lo <= hi); E e = tape<E>(); R::uniform_smallint<T> d(lo, hi); CHECK(d.a() == lo && d.b() == hi && d.min() == lo && d.max() == hi); long long n = (long long)hi - lo + 1, v = (long long)e.v[0] - (long long)e.min();
    drawn(d, e, (T)(lo + v % n), 1);
}
HARNESS(small_uc_uc) { uc a = vp::nd<uc>(), b = vp::nd<uc>(); small<uc, Tape<uc, 0, 255, 1> >(a, b); }
HARNESS(small_sc_uc) { sc a = vp::nd<sc>(), b = vp::nd<sc>(); small<sc, Tape<uc, 3, 250, 1> >(a, b); }
HARNESS(small_uc_sc) { uc a = vp::nd<uc>(), b = vp::nd<uc>(); small<uc, Tape<sc, -120, 100, 1> >(a, b); }
HARNESS(small_sc_sc) { sc a = vp::nd<sc>(), b = vp::nd<sc>(); small<sc, Tape<sc, -128, 127, 1> >(a, b); }
HARNESS(small_sc_short) { sc a = vp::nd<sc>(), b = vp::nd<sc>(); small<sc, Tape<std::uint16_t, 0, 256, 1> >(a, b); }
HARNESS(small_int) { int a = vp::range<int>(-100000, 100000); small<int, Tape<std::uint16_t, 0, 65535, 1> >(a, a + 6); small<int, Tape<std::uint16_t, 5, 100, 1> >(a, a + 9); small<int, Tape<std::uint16_t, 5, 100, 1> >(a, a + 1000); small<int, Tape<u32, 0, 0xffffffffu, 1> >(a, a + 255); small<sc, Tape<u32, 0, 0xffffffffu, 1> >(-128, 127); }
// ---- seed sequences: the algorithm of [rand.util.seedseq]
template <int S, int N> void seedseq(u32 const* v, u32* b) {
    for (int i = 0; i < N; ++i) b[i] = 0x8b8b8b8bu;
    int const t = N >= 623 ? 11 : N >= 68 ? 7 : N >= 39 ? 5 : N >= 7 ? 3 : (N - 1) / 2, p = (N - t) / 2, q = p + t, m = S + 1 > N ? S + 1 : N;
    for (int k = 0; k < m; ++k) { u32 x = b[k % N] ^ b[(k + p) % N] ^ b[(k + N - 1) % N]; u32 r1 = 1664525u * (x ^ (x >> 27)); u32 r2 = r1 + (k == 0 ? (u32)S : k <= S ? (u32)(k % N) + v[k - 1] : (u32)(k % N)); b[(k + p) % N] += r1; b[(k + q) % N] += r2; b[k % N] = r2; }
    for (int k = m; k < m + N; ++k) { u32 x = b[k % N] + b[(k + p) % N] + b[(k + N - 1) % N]; u32 r3 = 1566083941u * (x ^ (x >> 27)); u32 r4 = r3 - (u32)(k % N); b[(k + p) % N] ^= r3; b[(k + q) % N] ^= r4; b[k % N] = r4; }
}
template <int S> R::seed_array<S> seeds(u32* v) { sprout::array<u32, S> a{{}}; for (int i = 0; i < S; ++i) a[i] = v[i] = vp::nd<u32>(); return R::seed_array<S>(a.begin(), a.end()); }
template <int S, int N> void seed_gen() {
    u32 v[S + 1]; R::seed_array<S> const s = seeds<S>(v); u32 w[N]; seedseq<S, N>(v, w); CHECK(s.size() == (std::size_t)S); for (int i = 0; i < S; ++i) CHECK(s.param()[i] == v[i]);
    u32 m[N]; s.generate(m + 0, m + N); for (int i = 0; i < N; ++i) CHECK(m[i] == w[i]);
    auto f = s.template generate<sprout::array<u32, N> >(); for (int i = 0; i < N; ++i) CHECK(f[i] == w[i]);
    auto g = s.generate(sprout::array<u32, N>{{}}); for (int i = 0; i < N; ++i) CHECK(g[i] == w[i]);
}
HARNESS(seed_one) { seed_gen<1, 1>(); seed_gen<1, 2>(); seed_gen<1, 4>(); }
HARNESS(seed_two) { seed_gen<2, 1>(); seed_gen<2, 3>(); seed_gen<2, 5>(); }
HARNESS(seed_many) { seed_gen<5, 1>(); seed_gen<5, 3>(); seed_gen<8, 4>(); }
HARNESS(seed_long) { seed_gen<1, 8>(); seed_gen<3, 10>(); seed_gen<9, 7>(); }
HARNESS(seed_steps) { seed_gen<1, 38>(); seed_gen<2, 39>(); }
HARNESS_T(seed_big) { seed_gen<1, 67>(); seed_gen<1, 68>(); }
HARNESS(seed_values) {
    long long x = vp::nd<long long>(); int y = vp::nd<int>(); R::seed_array<2> s{x, (long long)y}; CHECK(s.param()[0] == (u32)x && s.param()[1] == (u32)y);
    auto k = R::make_seed_array(y, x); CHECK(k.size() == 2 && k.param()[0] == (u32)y && k.param()[1] == (u32)x);
    sprout::array<int, 2> r{{y, (int)x}}; R::seed_array<2> t(r); CHECK(t.param()[0] == (u32)y && t.param()[1] == (u32)x); R::seed_array<3> pad(r.begin(), r.end()); CHECK(pad.param()[2] == 0);
    u32 out[2]; s.param(out + 0); CHECK(out[0] == (u32)x && out[1] == (u32)y); auto c = s.param<sprout::array<u32, 2> >(); CHECK(c[0] == (u32)x && c[1] == (u32)y); CHECK(R::seed_array<2>().param()[1] == 0);
    s.generate(out + 1, out + 1); CHECK(out[1] == (u32)y);
}
// engines seeded from a seed sequence (the words from the fourth on) and from a pair of iterators (the words as they are)
template <class T, T a, T c, T m, int K> void lcg_seeded() {
    typedef R::linear_congruential_engine<T, a, c, m> G; u32 v[3]; R::seed_array<2> s = seeds<2>(v); R::seed_array<2> const& cs = s; u32 w[K + 3]; seedseq<2, K + 3>(v, w);
    u64 x = w[3] | (K > 1 ? (u64)w[K > 1 ? 4 : 3] << 32 : 0); if (m) x %= m; if (c == 0 && x == 0) x = 1; G const want((T)x); G g(s), h(cs), k, l; k.seed(s); l.seed(cs); CHECK(g == want); CHECK(h == want); CHECK(k == want && l == want);
    u32 d[3] = {vp::nd<u32>(), vp::nd<u32>(), 0}; x = d[0] | (K > 1 ? (u64)d[1] << 32 : 0); if (m) x %= m; if (c == 0 && x == 0) x = 1; G i(d + 0, d + K), j; j.seed(d + 0, d + 3); CHECK(i == G((T)x) && j == G((T)x));
}
HARNESS(lcg_seed_pow2) { lcg_seeded<u32, 5, 3, 64, 1>(); lcg_seeded<u32, 1664525u, 1013904223u, 0x80000000u, 1>(); }
HARNESS(lcg_seed_zero) { lcg_seeded<u32, 1664525u, 1013904223u, 0u, 1>(); }
HARNESS(lcg_seed_rand48) { lcg_seeded<u64, 0x5DEECE66Dull, 0xBull, 1ull << 48, 2>(); }
HARNESS(lcg_seed_word) { lcg_seeded<u64, 6364136223846793005ull, 1, 0, 2>(); }
HARNESS(lcg_seed_prime) { lcg_seeded<u32, 17, 0, 127, 1>(); lcg_seeded<u32, 25, 7, 251, 1>(); }
HARNESS(lcg_seed_minstd) { lcg_seeded<u64, 16807, 0, 2147483647, 1>(); }
// ---- variate_generator
template <class D, class E> void variate(D const& d, E const& e) {
    E const c = e; auto const want = d(c); auto const want2 = d(want.engine());
    auto vc = R::combine_copy(e, d); auto const r = vc(); CHECK(r.result() == want.result() && r.engine() == want.engine()); CHECK(vc.min() == d.min() && vc.max() == d.max()); CHECK(vc.engine() == e && vc.distribution() == d); auto r2 = r(); CHECK(r2.result() == want2.result() && r2.engine() == want2.engine()); CHECK(r.next_value().result() == want2.result());
    auto cc = R::ccombine(c, d); CHECK(cc().result() == want.result()); CHECK(vc == R::combine_copy(e, d) && !(vc != R::combine_copy(e, d)));
    E m = e; D dd = d; auto vr = R::combine(m, dd); auto q = vr(); CHECK(q.result() == want.result()); CHECK(m == want.engine()); CHECK(&vr.engine() == &m); auto q2 = vr(); CHECK(q2.result() == want2.result() && m == want2.engine());
}
#ifndef VP_CLANG
HARNESS(variate_uniform) { typedef Tape<uc, 0, 255, 4> E; E e = tape<E>(); int lo = vp::nd<sc>(); variate(R::uniform_int_distribution<int>(lo, lo + 5), e); variate(R::uniform_smallint<int>(lo, lo + 5), e); }
#endif
// ---- bernoulli and uniform_01
HARNESS(bernoulli_edges) { typedef Tape<uc, 3, 200, 1> E; E e = tape<E>(); drawn(R::bernoulli_distribution<double>(0.0), e, false, 0); drawn(R::bernoulli_distribution<double>(1.0), e, true, 1); drawn(R::bernoulli_distribution<float>(1.0f), e, true, 1); CHECK(R::bernoulli_distribution<double>().p() == 0.5); }
HARNESS(bernoulli) { typedef Tape<uc, 3, 200, 1> E; E e = tape<E>(); int n = vp::range<int>(1, 256); double p = n / 256.0; drawn(R::bernoulli_distribution<double>(p), e, (double)(e.v[0] - 3) <= p * 197.0, 1); }
HARNESS(real_01) { typedef Tape<std::uint16_t, 0, 65535, 1> E; E e = tape<E>(); drawn(R::uniform_01<double>(), e, e.v[0] / 65536.0, 1); drawn(R::uniform_01<float>(), e, (float)e.v[0] / 65536.0f, 1); }
HARNESS(real_01_word) { typedef Tape<u32, 0, 0xffffffffu, 1> E; E e = tape<E>(); drawn(R::uniform_01<double>(), e, e.v[0] / 4294967296.0, 1); }
template <class T, std::size_t B, class E> void canonical(E const& e, T want, int used) { E const c = e; auto r = R::generate_canonical<T, B>(c); CHECK(r.first == want && r.second.i == used); E m = e; T g = R::generate_canonical<T, B>(m); CHECK(g == want && m.i == used); CHECK(0 <= g && g < 1); }
HARNESS(canonical_one) { typedef Tape<u32, 0, 0xffffffffu, 1> E; E e = tape<E>(); canonical<double, 32>(e, e.v[0] / 4294967296.0, 1); canonical<double, 10>(e, e.v[0] / 4294967296.0, 1); }
HARNESS(canonical_float) { typedef Tape<u32, 0, 0xffffffffu, 1> E; E e = tape<E>(); float w = (float)e.v[0] / 4294967296.0f; canonical<float, 24>(e, w == 1 ? 0.99999994f : w, 1); }
