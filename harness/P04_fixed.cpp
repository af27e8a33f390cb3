// P04: the container-returning (sprout::fixed) and window-returning (sprout::fit) transforming algorithms: the result holds exactly the
// prescribed elements from the start of the result container (or window), as many as fit; every other element is the result container's own.
#include "vpu.hpp"
#include <sprout/algorithm.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/functional.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/tuple.hpp>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef KIn K; typedef KFwd KF; typedef KBi KB;
#elif KIND == 1
typedef KRa K; typedef KRa KF; typedef KRa KB;
#else
typedef KPtr K; typedef KPtr KF; typedef KPtr KB;
#endif
// VP-ONLY: input -DKIND=0
// VP-VARIANT: ra -DKIND=1
// VP-VARIANT: ptr -DKIND=2
static const int N = VP_THOROUGH ? 5 : 4, W = 6;
typedef Seq<sc, N> S;
template <class T> sc at0(T const& a, int i) { return a[i]; }
// the elements e[0, k) must be where they belong in the internal container a of the result, the others must come from r
template <class A, class R> void placed(A const& a, R const& r, int Z, int off, int size, sc const* e, int k) { bool ok = true; for (int i = 0; i < Z; ++i) { int j = i - off; ok &= a[i] == (j >= 0 && j < size && j < k ? e[j < 0 ? 0 : j] : r[i]); } CHECK(ok); }
template <class F, int Z> void to_array(F const& f) { S s; auto r = nd_array<sc, Z>(); sc e[2 * N + W]; int k = f.exp(s, s.n, e); auto o = f.template fx<typename F::Kin>(s, r); CHECK(o.size() == Z); placed(o, r, Z, 0, Z, e, k); }
template <class F, int Z> void to_fresh(F const& f) { S s; sprout::array<sc, Z> z{{}}; sc e[2 * N + W]; int k = f.exp(s, s.n, e); auto o = f.template fy<typename F::Kin, sprout::array<sc, Z> >(s); placed(o, z, Z, 0, Z, e, k); }
template <class F> void to_window(F const& f) { S s; auto r = nd_array<sc, W>(); int b = vp::pick<int>(0, 3), l = vp::pick<int>(3, W); auto w = sprout::sub_copy(r, b, l); sc e[2 * N + W]; int k = f.exp(s, s.n, e); auto o = f.template fx<typename F::Kin>(s, w); CHECK((int)o.size() == l - b); placed(o.get_array(), r, W, b, l - b, e, k); for (int i = 0; i < l - b; ++i) CHECK(o[i] == o.get_array()[b + i]); }
template <class F, int Z> void to_fit(F const& f) { S s; auto r = nd_array<sc, Z>(); sc e[2 * N + W]; int k = f.exp(s, s.n, e); auto o = f.template ft<typename F::Kfit>(s, r); int m = k < Z ? k : Z; CHECK((int)o.size() == m); placed(o.get_array(), r, Z, 0, Z, e, k); bool ok = true; for (int i = 0; i < m; ++i) ok &= o[i] == e[i]; CHECK(ok); }
template <class F> void to_fitw(F const& f) { S s; auto r = nd_array<sc, W>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, 4); auto w = sprout::sub_copy(r, b, l); sc e[2 * N + W]; int k = f.exp(s, s.n, e); auto o = f.template ft<typename F::Kfit>(s, w); int m = k < l - b ? k : l - b; CHECK((int)o.size() == m); placed(o.get_array(), r, W, b, l - b, e, k); bool ok = true; for (int i = 0; i < m; ++i) ok &= o[i] == e[i]; CHECK(ok); }
#define COMMA ,
#define CPOP(NAME, FN, KI, KT, MEM, EXP, ...) struct NAME { typedef KI Kin; typedef KT Kfit; MEM \
  template <class Q> int exp(Q const& s, int n, sc* e) const { int k = 0; EXP; return k; } \
  template <class KK, class R> auto fx(S const& s, R const& r) const -> decltype(sprout::fixed::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__)) { return sprout::fixed::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__); } \
  template <class KK, class T> T fy(S const& s) const { return sprout::fixed::FN<T>(s.b<KK>(), s.e<KK>() __VA_ARGS__); } \
  template <class KK, class R> auto ft(S const& s, R const& r) const -> decltype(sprout::fit::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__)) { return sprout::fit::FN(s.b<KK>(), s.e<KK>(), r __VA_ARGS__); } };
#define CP(FN, KI, KT, MEM, EXP, ...) CPOP(F_##FN, FN, KI, KT, MEM, EXP, __VA_ARGS__) \
  HARNESS(FN##_array) { to_array<F_##FN, N + 1>(F_##FN()); } HARNESS(FN##_cut) { to_array<F_##FN, 2>(F_##FN()); } HARNESS(FN##_fresh) { to_fresh<F_##FN, N>(F_##FN()); } HARNESS(FN##_window) { to_window(F_##FN()); } \
  HARNESS(FN##_fit) { to_fit<F_##FN, 3>(F_##FN()); } HARNESS(FN##_fitw) { to_fitw(F_##FN()); }
#define FORI for (int i = 0; i < n; ++i)
CP(copy, K, KF, , FORI e[k++] = s[i], )
CP(copy_if, K, KF, Below q = {vp::nd<sc>()};, FORI if (q(s[i])) e[k++] = s[i], COMMA q)
CP(copy_while, K, KF, Below q = {vp::nd<sc>()};, while (k < n && q(s[k])) { e[k] = s[k]; ++k; }, COMMA q)
CP(copy_until, K, KF, Below q = {vp::nd<sc>()};, while (k < n && !q(s[k])) { e[k] = s[k]; ++k; }, COMMA q)
CP(remove_copy, K, KF, sc v = vp::nd<sc>();, FORI if (s[i] != v) e[k++] = s[i], COMMA v)
CP(remove_copy_if, K, KF, Below q = {vp::nd<sc>()};, FORI if (!q(s[i])) e[k++] = s[i], COMMA q)
CP(replace_copy, K, KF, sc v = vp::nd<sc>(); sc w = vp::nd<sc>();, FORI e[k++] = s[i] == v ? w : s[i], COMMA v COMMA w)
CP(replace_copy_if, K, KF, Below q = {vp::nd<sc>()}; sc w = vp::nd<sc>();, FORI e[k++] = q(s[i]) ? w : s[i], COMMA q COMMA w)
CP(reverse_copy, KB, KB, , FORI e[k++] = s[n - 1 - i], )
CP(unique_copy, K, KF, , FORI if (i == 0 || s[i] != s[i - 1]) e[k++] = s[i], )
struct F_unique_copy_p; CPOP(F_unique_copy_p, unique_copy, K, KF, , FORI if (k == 0 || !HalfEq()(e[k - 1], s[i])) e[k++] = s[i], COMMA HalfEq())
HARNESS(unique_copy_pred_array) { to_array<F_unique_copy_p, N + 1>(F_unique_copy_p()); } HARNESS(unique_copy_pred_cut) { to_array<F_unique_copy_p, 2>(F_unique_copy_p()); } HARNESS(unique_copy_pred_fresh) { to_fresh<F_unique_copy_p, N>(F_unique_copy_p()); } HARNESS(unique_copy_pred_fit) { to_fit<F_unique_copy_p, 3>(F_unique_copy_p()); } HARNESS(unique_copy_pred_window) { to_window(F_unique_copy_p()); }
struct F_spc; CPOP(F_spc, stable_partition_copy, KB, KB, Below q = {vp::nd<sc>()};, FORI if (q(s[i])) e[k++] = s[i]; FORI if (!q(s[i])) e[k++] = s[i], COMMA q)
HARNESS(stable_partition_copy_array) { to_array<F_spc, N + 1>(F_spc()); } HARNESS(stable_partition_copy_cut) { to_array<F_spc, 2>(F_spc()); } HARNESS(stable_partition_copy_fresh) { to_fresh<F_spc, N>(F_spc()); } HARNESS(stable_partition_copy_window) { to_window(F_spc()); }
// the fit window holds the satisfying elements
HARNESS(stable_partition_copy_fit) { S s; F_spc f; auto r = nd_array<sc, 3>(); sc e[2 * N + W]; int k = f.exp(s, s.n, e), c = 0; for (int i = 0; i < s.n; ++i) c += f.q(s[i]); auto o = sprout::fit::stable_partition_copy(s.b<KB>(), s.e<KB>(), r, f.q); int m = c < 3 ? c : 3; CHECK((int)o.size() == m); for (int i = 0; i < m; ++i) CHECK(o[i] == e[i]); placed(o.get_array(), r, 3, 0, 3, e, k); }
struct Neg { sc operator()(sc x) const { return (sc)~x; } };
CP(transform, K, KF, , FORI e[k++] = (sc)~s[i], COMMA Neg())
struct Mix { sc operator()(sc x, sc y) const { return (sc)(x ^ (y << 1)); } };
struct T2 { typedef K Kin; typedef KF Kfit; Seq<sc, N> t = Seq<sc, N>(N); template <class Q> int exp(Q const& s, int n, sc* e) const { FORI e[i] = Mix()(s[i], t[i]); return n; }
  template <class KK, class R> auto fx(S const& s, R const& r) const -> decltype(sprout::fixed::transform(s.b<KK>(), s.e<KK>(), t.b<KK>(), r, Mix())) { return sprout::fixed::transform(s.b<KK>(), s.e<KK>(), t.b<KK>(), r, Mix()); }
  template <class KK, class T> T fy(S const& s) const { return sprout::fixed::transform<T>(s.b<KK>(), s.e<KK>(), t.b<KK>(), Mix()); }
  template <class KK, class R> auto ft(S const& s, R const& r) const -> decltype(sprout::fit::transform(s.b<KK>(), s.e<KK>(), t.b<KK>(), r, Mix())) { return sprout::fit::transform(s.b<KK>(), s.e<KK>(), t.b<KK>(), r, Mix()); } };
HARNESS(transform2_array) { to_array<T2, N + 1>(T2()); } HARNESS(transform2_cut) { to_array<T2, 2>(T2()); } HARNESS(transform2_fresh) { to_fresh<T2, N>(T2()); } HARNESS(transform2_window) { to_window(T2()); } HARNESS(transform2_fit) { to_fit<T2, 3>(T2()); }
struct CR { sc lo, hi; CR() { lo = vp::nd<sc>(); hi = vp::nd<sc>(); ASSUME(lo <= hi); } sc cl(sc x) const { return x < lo ? lo : hi < x ? hi : x; } };
CP(clamp_range_copy, K, KF, CR c;, FORI e[k++] = c.cl(s[i]), COMMA c.lo COMMA c.hi)
struct RC { sc lo, hi; RC() { lo = vp::nd<sc>(); hi = vp::nd<sc>(); ASSUME(lo >= hi); } sc cl(sc x) const { return x > lo ? lo : hi > x ? hi : x; } };
CPOP(F_clampg, clamp_range_copy, K, KF, RC c;, FORI e[k++] = c.cl(s[i]), COMMA c.lo COMMA c.hi COMMA Greater())
HARNESS(clamp_range_copy_comp) { to_array<F_clampg, N + 1>(F_clampg()); } HARNESS(clamp_range_copy_comp_fit) { to_fit<F_clampg, 3>(F_clampg()); }
// copy_n, rotate_copy, swap_element_copy: positions
HARNESS(copy_n_array) { S s; int c = vp::pick<int>(0, s.n); auto r = nd_array<sc, 3>(); placed(sprout::fixed::copy_n(s.b<K>(), c, r), r, 3, 0, 3, s.v, c); sprout::array<sc, 3> z{{}}; placed(sprout::fixed::copy_n<sprout::array<sc, 3> >(s.b<K>(), c), z, 3, 0, 3, s.v, c); auto f = sprout::fit::copy_n(s.b<KF>(), c, r); CHECK((int)f.size() == (c < 3 ? c : 3)); placed(f.get_array(), r, 3, 0, 3, s.v, c); }
HARNESS(copy_n_window) { S s; int c = vp::pick<int>(0, s.n); auto r = nd_array<sc, W>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, 5); placed(sprout::fixed::copy_n(s.b<K>(), c, sprout::sub_copy(r, b, l)).get_array(), r, W, b, l - b, s.v, c); }
template <class Q> void rot(S const& s, Q q) { int m = vp::pick<int>(0, s.n); sc e[N]; for (int i = 0; i < s.n; ++i) e[i] = s[(i + m) % s.n]; q(m, e); }
HARNESS(rotate_copy_array) { S s; rot(s, [&](int m, sc* e) { auto r = nd_array<sc, N + 1>(); placed(sprout::fixed::rotate_copy(s.b<KF>(), s.cp<KF>(m), s.e<KF>(), r), r, N + 1, 0, N + 1, e, s.n); auto c = nd_array<sc, 2>(); placed(sprout::fixed::rotate_copy(s.b<KF>(), s.cp<KF>(m), s.e<KF>(), c), c, 2, 0, 2, e, s.n); sprout::array<sc, 3> z{{}}; placed(sprout::fixed::rotate_copy<sprout::array<sc, 3> >(s.b<KF>(), s.cp<KF>(m), s.e<KF>()), z, 3, 0, 3, e, s.n); }); }
HARNESS(rotate_copy_window) { S s; rot(s, [&](int m, sc* e) { auto r = nd_array<sc, W>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, 5); auto o = sprout::fixed::rotate_copy(s.b<KF>(), s.cp<KF>(m), s.e<KF>(), sprout::sub_copy(r, b, l)); placed(o.get_array(), r, W, b, l - b, e, s.n); auto f = sprout::fit::rotate_copy(s.b<KF>(), s.cp<KF>(m), s.e<KF>(), sprout::sub_copy(r, b, l)); placed(f.get_array(), r, W, b, l - b, e, s.n); CHECK((int)f.size() == (s.n < l - b ? s.n : l - b)); }); }
HARNESS(swap_element_copy) { S s; if (!s.n) return; int p = vp::pick<int>(0, s.n - 1), q = vp::pick<int>(0, s.n - 1); sc e[N]; for (int i = 0; i < s.n; ++i) e[i] = i == p ? s[q] : i == q ? s[p] : s[i]; auto r = nd_array<sc, N + 1>(); placed(sprout::fixed::swap_element_copy(s.b<KF>(), s.e<KF>(), r, s.cp<KF>(p), s.cp<KF>(q)), r, N + 1, 0, N + 1, e, s.n);
  auto c = nd_array<sc, 2>(); placed(sprout::fixed::swap_element_copy(s.b<KF>(), s.e<KF>(), c, s.cp<KF>(p), s.cp<KF>(q)), c, 2, 0, 2, e, s.n); auto f = sprout::fit::swap_element_copy(s.b<KF>(), s.e<KF>(), r, s.cp<KF>(p), s.cp<KF>(q)); CHECK((int)f.size() == s.n); placed(f.get_array(), r, N + 1, 0, N + 1, e, s.n);
  auto y = sprout::fixed::swap_element_copy<sprout::array<sc, N> >(s.b<KF>(), s.e<KF>(), s.cp<KF>(p), s.cp<KF>(q)); sprout::array<sc, N> z{{}}; placed(y, z, N, 0, N, e, s.n); }
HARNESS(copy_backward) { S s; auto r = nd_array<sc, N + 1>(); auto o = sprout::fixed::copy_backward(s.b<KB>(), s.e<KB>(), r); for (int i = 0; i <= N; ++i) CHECK(o[i] == (i > N - s.n ? s[s.n - 1 - (N - i)] : r[i]));
  auto c = nd_array<sc, 2>(); auto d = sprout::fixed::copy_backward(s.b<KB>(), s.e<KB>(), c); for (int i = 0; i < 2; ++i) CHECK(d[i] == (i > 1 - s.n ? s[s.n - 1 - (1 - i)] : c[i]));
  auto f = sprout::fit::copy_backward(s.b<KB>(), s.e<KB>(), r); CHECK((int)f.size() == s.n); for (int i = 0; i < s.n; ++i) CHECK(f[i] == s[i]); }
HARNESS(copy_backward_window) { S s; auto r = nd_array<sc, W>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, 6); auto o = sprout::fixed::copy_backward(s.b<KB>(), s.e<KB>(), sprout::sub_copy(r, b, l)); for (int i = 0; i < W; ++i) CHECK(o.get_array()[i] == (i >= b && i < l && l - i <= s.n ? s[s.n - (l - i)] : r[i]));
  auto f = sprout::fit::copy_backward(s.b<KB>(), s.e<KB>(), sprout::sub_copy(r, b, l)); int m = s.n < l - b ? s.n : l - b; CHECK((int)f.size() == m); for (int i = 0; i < m; ++i) CHECK(f[i] == s[s.n - m + i]); }
template <class O, class R> void parted(O const& o, S const& s, Below q, R const& r, int Z) { int c = 0; for (int i = 0; i < s.n; ++i) c += q(s[i]); for (int i = 0; i < s.n; ++i) CHECK(q(o[i]) == (i < c)); CHECK(is_perm(o, s.v, s.n)); for (int i = s.n; i < Z; ++i) CHECK(o[i] == r[i]); }
HARNESS(partition_copy) { S s; Below q = {vp::nd<sc>()}; auto r = nd_array<sc, N + 1>(); parted(sprout::fixed::partition_copy(s.b<K>(), s.e<K>(), r, q), s, q, r, N + 1); sprout::array<sc, N> z{{}}; parted(sprout::fixed::partition_copy<sprout::array<sc, N> >(s.b<K>(), s.e<K>(), q), s, q, z, N); auto f = sprout::fit::partition_copy(s.b<KF>(), s.e<KF>(), r, q); int c = 0; for (int i = 0; i < s.n; ++i) c += q(s[i]); CHECK((int)f.size() == c); for (int i = 0; i < c; ++i) CHECK(q(f[i])); parted(f.get_array(), s, q, r, N + 1); }
// elements that compare equal without being the same: which one of a group is kept is part of the contract
struct Tw { sc k, id; bool operator==(Tw const& o) const { return k == o.k; } bool operator!=(Tw const& o) const { return k != o.k; } bool same(Tw const& o) const { return k == o.k && id == o.id; } };
template <class R> struct TwIn { Tw a[5]; int n; TwIn() { for (int i = 0; i < 5; ++i) { a[i].k = (sc)(vp::nd<sc>() & 1); a[i].id = (sc)i; } n = vp::pick<int>(0, 5); } auto b() const -> decltype(R::make((Tw const*)0, (Tw const*)0, (Tw const*)0)) { return R::make((Tw const*)a, (Tw const*)a + n, (Tw const*)a); } auto e() const -> decltype(R::make((Tw const*)0, (Tw const*)0, (Tw const*)0)) { return R::make((Tw const*)a, (Tw const*)a + n, (Tw const*)a + n); } };
template <class O> void tw(O const& o, int Z, Tw const* e, int k) { for (int i = 0; i < Z; ++i) { if (i < k) CHECK(o[i].same(e[i])); else CHECK(o[i].k == 9); } }
template <int Z> sprout::array<Tw, Z> tw9() { sprout::array<Tw, Z> r; for (int i = 0; i < Z; ++i) { r[i].k = 9; r[i].id = 9; } return r; }
HARNESS(unique_copy_which) { TwIn<K> s; Tw e[6]; int k = 0; for (int i = 0; i < s.n; ++i) if (i == 0 || !(s.a[i] == s.a[i - 1])) e[k++] = s.a[i]; tw(sprout::fixed::unique_copy(s.b(), s.e(), tw9<6>()), 6, e, k); tw(sprout::fixed::unique_copy(s.b(), s.e(), tw9<2>()), 2, e, k); }
HARNESS(unique_copy_which_pred) { TwIn<K> s; Tw e[6]; int k = 0; for (int i = 0; i < s.n; ++i) if (i == 0 || !(s.a[i] == s.a[i - 1])) e[k++] = s.a[i]; tw(sprout::fixed::unique_copy(s.b(), s.e(), tw9<6>(), sprout::equal_to<Tw>()), 6, e, k); tw(sprout::fixed::unique_copy(s.b(), s.e(), tw9<2>(), sprout::equal_to<Tw>()), 2, e, k); }
HARNESS(unique_which) { TwIn<K> s; Tw e[6]; int k = 0; auto c = tw9<5>(); for (int i = 0; i < 5; ++i) c[i] = s.a[i]; for (int i = 0; i < 5; ++i) if (i == 0 || !(s.a[i] == s.a[i - 1])) e[k++] = s.a[i]; auto f = sprout::fit::unique(c); CHECK((int)f.size() == k); for (int i = 0; i < k; ++i) CHECK(f[i].same(e[i])); auto g = sprout::fit::unique(c, sprout::equal_to<Tw>()); CHECK((int)g.size() == k); for (int i = 0; i < k; ++i) CHECK(g[i].same(e[i])); }
HARNESS(replace_copy_which) { TwIn<K> s; Tw v = {(sc)(vp::nd<sc>() & 1), 77}, w = {5, 66}; Tw e[6]; for (int i = 0; i < s.n; ++i) e[i] = s.a[i] == v ? w : s.a[i]; tw(sprout::fixed::replace_copy(s.b(), s.e(), tw9<6>(), v, w), 6, e, s.n); Tw f[6]; int k = 0; for (int i = 0; i < s.n; ++i) if (!(s.a[i] == v)) f[k++] = s.a[i]; tw(sprout::fixed::remove_copy(s.b(), s.e(), tw9<6>(), v), 6, f, k); }
