// P07: numeric algorithms equal their left-to-right definitions, in every form (value, output iterator, container-returning, fit)
#include "vpu.hpp"
#include <sprout/numeric.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/functional.hpp>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef KIn K; typedef KFwd KF;
#elif KIND == 1
typedef KRa K; typedef KRa KF;
#else
typedef KPtr K; typedef KPtr KF;
#endif
// VP-ONLY: input -DKIND=0
// VP-VARIANT: ra -DKIND=1
// VP-VARIANT: ptr -DKIND=2
typedef unsigned El;
static const int N = VP_THOROUGH ? 6 : 5, W = 6;
typedef Seq<El, N> S;
// neither commutative nor associative
struct Op { template <class T, class U> El operator()(T x, U y) const { return (El)(((El)x << 1 | (El)x >> 31) ^ ((El)y + 3)); } };
struct Op2 { template <class T, class U> El operator()(T x, U y) const { return (El)(x - (El)(y << 1)); } };
struct Un { template <class T> El operator()(T x) const { return (El)(x ^ 0x2d); } };
struct Plus { template <class T, class U> El operator()(T x, U y) const { return (El)(x + y); } };
HARNESS(accumulate) { S s; El i = vp::nd<El>(), e = i; for (int k = 0; k < s.n; ++k) e = Op()(e, s[k]); CHECK(sprout::accumulate(s.b<K>(), s.e<K>(), i, Op()) == e); CHECK(sprout::reduce(s.b<K>(), s.e<K>(), i, Op()) == e); }
HARNESS(accumulate_plus) { S s; unsigned long long i = vp::nd<El>(), e = i; for (int k = 0; k < s.n; ++k) e = e + s[k]; CHECK(sprout::accumulate(s.b<K>(), s.e<K>(), i) == e); CHECK(sprout::reduce(s.b<K>(), s.e<K>(), i) == e); El z = 0; for (int k = 0; k < s.n; ++k) z = (El)(z + s[k]); CHECK(sprout::reduce(s.b<K>(), s.e<K>()) == z); }
HARNESS(inner_product) { S s; Seq<El, N> t(N); El i = vp::nd<El>(), e = i; for (int k = 0; k < s.n; ++k) e = Op()(e, Op2()(s[k], t[k])); CHECK(sprout::inner_product(s.b<K>(), s.e<K>(), t.b<K>(), i, Op(), Op2()) == e); CHECK(sprout::transform_reduce(s.b<K>(), s.e<K>(), t.b<K>(), i, Op(), Op2()) == e); }
HARNESS(inner_product_plain) { Seq<sc, 4> s, t(4); uint16_t e = 7; for (int k = 0; k < s.n; ++k) e = (uint16_t)(e + (uint16_t)(s[k] * t[k])); CHECK((uint16_t)sprout::inner_product(s.b<K>(), s.e<K>(), t.b<K>(), 7) == e); CHECK((uint16_t)sprout::transform_reduce(s.b<K>(), s.e<K>(), t.b<K>(), 7) == e); }
HARNESS(transform_reduce) { S s; El i = vp::nd<El>(), e = i; for (int k = 0; k < s.n; ++k) e = Op()(e, Un()(s[k])); CHECK(sprout::transform_reduce(s.b<K>(), s.e<K>(), i, Op(), Un()) == e); }
HARNESS(iota_it) { S s; S o = s; El v = vp::nd<El>(); sprout::iota(s.mb<KF>(), s.me<KF>(), v); for (int i = 0; i < N; ++i) CHECK(s[i] == (i < s.n ? (El)(v + i) : o[i])); }
// ---- sequences of results
template <class A, class R> void placed(A const& a, R const& r, int Z, int off, int size, El const* e, int k) { bool ok = true; for (int i = 0; i < Z; ++i) { int j = i - off; ok &= a[i] == (j >= 0 && j < size && j < k ? e[j < 0 ? 0 : j] : r[i]); } CHECK(ok); }
template <class F> void to_out(F const& f) { S s(F::lo); El e[N + 2]; int k = f.exp(s, s.n, e); El o[N + 2]; for (int i = 0; i < N + 2; ++i) o[i] = 55; El* r = f.template it<K>(s, o + 0); CHECK(r == o + k); for (int i = 0; i < N + 2; ++i) CHECK(o[i] == (i < k ? e[i] : 55)); }
template <class F, int Z> void to_array(F const& f) { S s(F::lo); auto r = nd_array<El, Z>(); El e[N + 2]; int k = f.exp(s, s.n, e); auto o = f.template fx<K>(s, r); CHECK(o.size() == Z); placed(o, r, Z, 0, Z, e, k); }
template <class F> void to_window(F const& f) { S s(F::lo); auto r = nd_array<El, W>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, W); auto w = sprout::sub_copy(r, b, l); El e[N + 2]; int k = f.exp(s, s.n, e); auto o = f.template fx<K>(s, w); CHECK((int)o.size() == l - b); placed(o.get_array(), r, W, b, l - b, e, k); }
template <class F, int Z> void to_fit(F const& f) { S s(F::lo); auto r = nd_array<El, Z>(); El e[N + 2]; int k = f.exp(s, s.n, e); auto o = f.template ft<KF>(s, r); int m = k < Z ? k : Z; CHECK((int)o.size() == m); placed(o.get_array(), r, Z, 0, Z, e, k); for (int i = 0; i < m; ++i) CHECK(o[i] == e[i]); }
template <class F, int Z> void to_fresh(F const& f) { S s(F::lo); sprout::array<El, Z> z{{}}; El e[N + 2]; int k = f.exp(s, s.n, e); auto o = f.template fy<K, sprout::array<El, Z> >(s); placed(o, z, Z, 0, Z, e, k); }
#define COMMA ,
#define SQ(NAME, FN, LO, MEM, EXP, ...) struct F_##NAME { enum { lo = LO }; MEM template <class Q> int exp(Q const& s, int n, El* e) const { int k = 0; EXP; return k; } \
  template <class KK> El* it(S const& s, El* o) const { return sprout::FN(s.b<KK>(), s.e<KK>(), o __VA_ARGS__); } \
  template <class KK, class R> auto fx(S const& s, R const& r) const -> decltype(sprout::fixed::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__)) { return sprout::fixed::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__); } \
  template <class KK, class T> T fy(S const& s) const { return sprout::fixed::FN<T>(s.b<KK>(), s.e<KK>() __VA_ARGS__); } \
  template <class KK, class R> auto ft(S const& s, R const& r) const -> decltype(sprout::fit::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__)) { return sprout::fit::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__); } }; \
  HARNESS(NAME##_out) { to_out(F_##NAME()); } HARNESS(NAME##_array) { to_array<F_##NAME, N + 1>(F_##NAME()); } HARNESS(NAME##_cut) { to_array<F_##NAME, 2>(F_##NAME()); } HARNESS(NAME##_one) { to_array<F_##NAME, 1>(F_##NAME()); } HARNESS(NAME##_window) { to_window(F_##NAME()); } HARNESS(NAME##_fit) { to_fit<F_##NAME, 3>(F_##NAME()); } HARNESS(NAME##_fresh) { to_fresh<F_##NAME, N>(F_##NAME()); }
#define FORI for (int i = 0; i < n; ++i)
SQ(partial_sum, partial_sum, 0, , FORI { e[k] = i ? (El)(e[k - 1] + s[i]) : s[i]; ++k; }, )
SQ(partial_sum_op, partial_sum, 0, , FORI { e[k] = i ? Op()(e[k - 1], s[i]) : s[i]; ++k; }, COMMA Op())
SQ(inclusive_scan, inclusive_scan, 0, , FORI { e[k] = i ? (El)(e[k - 1] + s[i]) : s[i]; ++k; }, )
SQ(inclusive_scan_op, inclusive_scan, 0, , FORI { e[k] = i ? Op()(e[k - 1], s[i]) : s[i]; ++k; }, COMMA Op())
SQ(adjacent_difference, adjacent_difference, 0, , FORI e[k++] = i ? (El)(s[i] - s[i - 1]) : s[i], )
SQ(adjacent_difference_op, adjacent_difference, 0, , FORI e[k++] = i ? Op()(s[i], s[i - 1]) : s[i], COMMA Op())
SQ(exclusive_scan, exclusive_scan, 1, El v = vp::nd<El>();, FORI { e[k] = i ? (El)(e[k - 1] + s[i - 1]) : v; ++k; }, COMMA v)
SQ(exclusive_scan_op, exclusive_scan, 1, El v = vp::nd<El>();, FORI { e[k] = i ? Op()(e[k - 1], s[i - 1]) : v; ++k; }, COMMA v COMMA Op())
SQ(transform_exclusive_scan, transform_exclusive_scan, 1, El v = vp::nd<El>();, FORI { e[k] = i ? Op()(e[k - 1], Un()(s[i - 1])) : v; ++k; }, COMMA v COMMA Op() COMMA Un())
SQ(transform_inclusive_scan, transform_inclusive_scan, 0, , FORI { e[k] = i ? Op()(e[k - 1], Un()(s[i])) : Un()(s[i]); ++k; }, COMMA Op() COMMA Un())
HARNESS(iota_fixed) { auto r = nd_array<El, N>(); El v = vp::nd<El>(); auto o = sprout::fixed::iota(r, v); auto f = sprout::fit::iota(r, v); auto y = sprout::fixed::iota<sprout::array<El, N> >(v); CHECK(f.size() == N); for (int i = 0; i < N; ++i) CHECK(o[i] == (El)(v + i) && f[i] == o[i] && y[i] == o[i]); }
HARNESS(iota_window) { auto r = nd_array<El, W>(); El v = vp::nd<El>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, W); auto w = sprout::sub_copy(r, b, l); El e[W]; for (int i = 0; i < W; ++i) e[i] = (El)(v + i); auto o = sprout::fixed::iota(w, v); placed(o.get_array(), r, W, b, l - b, e, l - b); auto f = sprout::fit::iota(w, v); CHECK((int)f.size() == l - b); placed(f.get_array(), r, W, b, l - b, e, l - b); }
// with an initial value, Sprout's inclusive scans list the initial value first and then one element per source element
SQ(inclusive_scan_init, inclusive_scan, 0, El v = vp::nd<El>();, e[k++] = v; FORI { e[k] = Op()(e[k - 1], s[i]); ++k; }, COMMA Op() COMMA v)
SQ(transform_inclusive_scan_init, transform_inclusive_scan, 0, El v = vp::nd<El>();, e[k++] = v; FORI { e[k] = Op()(e[k - 1], Un()(s[i])); ++k; }, COMMA Op() COMMA Un() COMMA v)
// a user type whose +, - and * neither commute nor associate: the operands' order is part of the contract
struct Nc { El v; Nc(El x = 0) : v(x) {} Nc operator+(Nc const& o) const { return Nc(Op()(v, o.v)); } Nc operator-(Nc const& o) const { return Nc(Op2()(v, o.v)); } Nc operator*(Nc const& o) const { return Nc((v << 3 | v >> 29) ^ (o.v + 77)); } bool operator==(Nc const& o) const { return v == o.v; } };
template <class R> struct NcIn { Nc a[4]; int n; NcIn(int f = 0) { for (int i = 0; i < 4; ++i) a[i].v = vp::nd<El>(); n = vp::pick<int>(f, 4); } auto b() const -> decltype(R::make((Nc const*)0, (Nc const*)0, (Nc const*)0)) { return R::make((Nc const*)a, (Nc const*)a + n, (Nc const*)a); } auto e() const -> decltype(R::make((Nc const*)0, (Nc const*)0, (Nc const*)0)) { return R::make((Nc const*)a, (Nc const*)a + n, (Nc const*)a + n); } };
template <class O> void ncs(O const& o, int Z, Nc const* e, int k) { for (int i = 0; i < Z; ++i) { if (i < k) CHECK(o[i] == e[i]); else CHECK(o[i] == Nc(5)); } }
template <int Z> sprout::array<Nc, Z> nc5() { sprout::array<Nc, Z> r; for (int i = 0; i < Z; ++i) r[i] = Nc(5); return r; }
#define NCS(FN, LO, EXPR, ...) HARNESS(order_##FN) { NcIn<K> s(LO); Nc v(vp::nd<El>()); Nc e[6]; int k = 0; (void)v; for (int i = 0; i < s.n; ++i) { e[k] = EXPR; ++k; } ncs(sprout::fixed::FN(s.b(), s.e(), nc5<5>() __VA_ARGS__), 5, e, k); ncs(sprout::fixed::FN(s.b(), s.e(), nc5<2>() __VA_ARGS__), 2, e, k); Nc o[6]; for (int i = 0; i < 6; ++i) o[i] = Nc(5); CHECK(sprout::FN(s.b(), s.e(), o + 0 __VA_ARGS__) == o + k); ncs(o, 6, e, k); }
NCS(partial_sum, 0, i ? e[i - 1] + s.a[i] : s.a[0], )
NCS(inclusive_scan, 0, i ? e[i - 1] + s.a[i] : s.a[0], )
NCS(exclusive_scan, 1, i ? e[i - 1] + s.a[i - 1] : v, COMMA v)
NCS(adjacent_difference, 0, i ? s.a[i] - s.a[i - 1] : s.a[0], )
HARNESS(order_folds) { NcIn<K> s; NcIn<K> t(4); Nc v(vp::nd<El>()); Nc e = v, p = v; for (int i = 0; i < s.n; ++i) { e = e + s.a[i]; p = p + s.a[i] * t.a[i]; } CHECK(sprout::accumulate(s.b(), s.e(), v) == e); CHECK(sprout::reduce(s.b(), s.e(), v) == e); CHECK(sprout::inner_product(s.b(), s.e(), t.b(), v) == p); CHECK(sprout::transform_reduce(s.b(), s.e(), t.b(), v) == p); }
