// P03: merging and set operations on sorted ranges (multiset semantics, stability, counts), their searching and stepping
// counterparts, includes and inplace_merge - for every iterator category, in the in-place/output form, the container-returning
// form (which truncates to, or is completed by, the result container) and the fit form.
#include "vpu.hpp"
#include <sprout/algorithm.hpp>
#include <sprout/functional.hpp>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef KIn K; typedef KFwd KO; typedef KBi KM;
#elif KIND == 1
typedef KRa K; typedef KRa KO; typedef KRa KM;
#else
typedef KPtr K; typedef KPtr KO; typedef KPtr KM;
#endif
// VP-ONLY: input -DKIND=0
// VP-VARIANT: ra -DKIND=1
// VP-VARIANT: ptr -DKIND=2
static const int N1 = VP_THOROUGH ? 4 : 3, N2 = VP_THOROUGH ? 4 : 3, R = N1 + N2;
typedef KeyLess L;
template <int N> struct Sorted : Seq<uc, N> { Sorted(int src) { for (int i = 0; i < this->n; ++i) this->v[i] = (uc)((this->v[i] << 3) | (src + i)); for (int i = 1; i < this->n; ++i) ASSUME(!L()(this->v[i], this->v[i - 1])); } };
struct In { Sorted<N1> a; Sorted<N2> b; In() : a(0), b(4) {} };
enum Op { MERGE, UNION, INTER, DIFF, SYM };
// which elements are taken and where they go, by counting
struct Exp { uc e[R]; int pos[R]; int take[R]; int n, total; };
static Exp expect(In const& x, Op op) {
  Exp r; r.n = 0; r.total = 0;
  for (int i = 0; i < x.a.n; ++i) { int rk = 0, n2 = 0; for (int j = 0; j < i; ++j) rk += x.a[j] >> 3 == x.a[i] >> 3; for (int j = 0; j < x.b.n; ++j) n2 += x.b[j] >> 3 == x.a[i] >> 3;
    r.e[r.n] = x.a[i]; r.take[r.n++] = (op == MERGE) | (op == UNION) | ((op == INTER) & (rk < n2)) | (((op == DIFF) | (op == SYM)) & (rk >= n2)); }
  for (int i = 0; i < x.b.n; ++i) { int rk = 0, m = 0; for (int j = 0; j < i; ++j) rk += x.b[j] >> 3 == x.b[i] >> 3; for (int j = 0; j < x.a.n; ++j) m += x.b[i] >> 3 == x.a[j] >> 3;
    r.e[r.n] = x.b[i]; r.take[r.n++] = (op == MERGE) | (((op == UNION) | (op == SYM)) & (rk >= m)); }
  for (int i = 0; i < r.n; ++i) { int p = 0; for (int j = 0; j < r.n; ++j) p += r.take[j] & (((r.e[j] >> 3) < (r.e[i] >> 3)) | (((r.e[j] >> 3) == (r.e[i] >> 3)) & (j < i))); r.pos[i] = p; r.total += r.take[i]; }
  return r;
}
template <class O> void matches(Exp const& x, O const& o, int m) { bool ok = true; for (int i = 0; i < x.n; ++i) for (int k = 0; k < m; ++k) ok &= !(x.take[i] && x.pos[i] == k) || o[k] == x.e[i]; CHECK(ok); }
struct FM { static const Op op = MERGE; template <class... A> static auto go(A... a) -> decltype(sprout::merge(a...)) { return sprout::merge(a...); } template <class... A> static auto fx(A const&... a) -> decltype(sprout::fixed::merge(a...)) { return sprout::fixed::merge(a...); } template <class T, class... A> static T fy(A const&... a) { return sprout::fixed::merge<T>(a...); } template <class... A> static auto ft(A const&... a) -> decltype(sprout::fit::merge(a...)) { return sprout::fit::merge(a...); } };
#define SETOP(NAME, OP, F) struct NAME { static const Op op = OP; template <class... A> static auto go(A... a) -> decltype(sprout::F(a...)) { return sprout::F(a...); } template <class... A> static auto fx(A const&... a) -> decltype(sprout::fixed::F(a...)) { return sprout::fixed::F(a...); } template <class T, class... A> static T fy(A const&... a) { return sprout::fixed::F<T>(a...); } template <class... A> static auto ft(A const&... a) -> decltype(sprout::fit::F(a...)) { return sprout::fit::F(a...); } };
SETOP(FU, UNION, set_union) SETOP(FI, INTER, set_intersection) SETOP(FD, DIFF, set_difference) SETOP(FS, SYM, set_symmetric_difference)
template <class F> void t_out() {
  In x; Seq<uc, R> d(R); uc d0[R]; for (int i = 0; i < R; ++i) d0[i] = d[i]; Exp e = expect(x, F::op);
  int r = mat<KO>(d, F::go(x.a.template b<K>(), x.a.template e<K>(), x.b.template b<K>(), x.b.template e<K>(), d.template mb<KO>(), L()));
  CHECK(r == e.total); matches(e, d.v, R); for (int i = 0; i < R; ++i) CHECK(i < e.total || d[i] == d0[i]);
}
HARNESS(merge) { t_out<FM>(); } HARNESS(set_union) { t_out<FU>(); } HARNESS(set_intersection) { t_out<FI>(); } HARNESS(set_difference) { t_out<FD>(); } HARNESS(set_symmetric_difference) { t_out<FS>(); }
// default order: elements compared whole (all distinct through their tags within one range, so compare with a plain value order)
template <class F> void t_def() {
  Seq<sc, 3> a, b; ASSUME(a.sorted()); ASSUME(b.sorted()); Seq<sc, 6> d(6); sc k = vp::nd<sc>(); int m = occ(a.v, a.n, k), n = occ(b.v, b.n, k);
  int r = mat<KO>(d, F::go(a.template b<K>(), a.template e<K>(), b.template b<K>(), b.template e<K>(), d.template mb<KO>()));
  int w = F::op == MERGE ? m + n : F::op == UNION ? (m > n ? m : n) : F::op == INTER ? (m < n ? m : n) : F::op == DIFF ? (m > n ? m - n : 0) : (m > n ? m - n : n - m);
  CHECK(occ(d.v, r, k) == w); CHECK(ordered(d.v, 0, r, [](sc p, sc q) { return p < q; }));
}
HARNESS(merge_def) { t_def<FM>(); } HARNESS(set_union_def) { t_def<FU>(); } HARNESS(set_intersection_def) { t_def<FI>(); } HARNESS(set_difference_def) { t_def<FD>(); } HARNESS(set_symmetric_difference_def) { t_def<FS>(); }
template <class F, int Z> void t_fixed() {
  In x; auto res = nd_array<uc, Z>(); Exp e = expect(x, F::op);
  auto o = F::fx(x.a.template b<K>(), x.a.template e<K>(), x.b.template b<K>(), x.b.template e<K>(), res, L()); CHECK(o.size() == Z); matches(e, o, Z); for (int i = 0; i < Z; ++i) CHECK(i < e.total || o[i] == res[i]);
}
HARNESS(fixed_merge) { t_fixed<FM, 6>(); } HARNESS(fixed_set_union) { t_fixed<FU, 6>(); } HARNESS(fixed_set_intersection) { t_fixed<FI, 3>(); } HARNESS(fixed_set_difference) { t_fixed<FD, 3>(); } HARNESS(fixed_set_symmetric_difference) { t_fixed<FS, 6>(); }
HARNESS(cut_merge) { t_fixed<FM, 3>(); } HARNESS(cut_set_union) { t_fixed<FU, 2>(); } HARNESS(cut_set_intersection) { t_fixed<FI, 1>(); } HARNESS(cut_set_difference) { t_fixed<FD, 2>(); } HARNESS(cut_set_symmetric_difference) { t_fixed<FS, 3>(); }
template <class F, int Z> void t_fresh() { In x; Exp e = expect(x, F::op); auto o = F::template fy<sprout::array<uc, Z>>(x.a.template b<K>(), x.a.template e<K>(), x.b.template b<K>(), x.b.template e<K>(), L()); matches(e, o, Z); for (int i = 0; i < Z; ++i) CHECK(i < e.total || o[i] == 0); }
HARNESS(fresh_merge) { t_fresh<FM, 6>(); } HARNESS(fresh_set_union) { t_fresh<FU, 6>(); } HARNESS(fresh_set_intersection) { t_fresh<FI, 3>(); } HARNESS(fresh_set_difference) { t_fresh<FD, 3>(); } HARNESS(fresh_set_symmetric_difference) { t_fresh<FS, 6>(); }
template <class F, int Z> void t_fit() {
  In x; auto res = nd_array<uc, Z>(); Exp e = expect(x, F::op); auto o = F::ft(x.a.template b<KO>(), x.a.template e<KO>(), x.b.template b<KO>(), x.b.template e<KO>(), res, L());
  int w = e.total < Z ? e.total : Z; CHECK((int)o.size() == w); auto const& k = o.get_array(); matches(e, k, Z); for (int i = 0; i < Z; ++i) CHECK(i < e.total || k[i] == res[i]); CHECK(o.begin() == k.begin() || w == 0);
}
HARNESS(fit_merge) { t_fit<FM, 4>(); } HARNESS(fit_set_union) { t_fit<FU, 4>(); } HARNESS(fit_set_intersection) { t_fit<FI, 2>(); } HARNESS(fit_set_difference) { t_fit<FD, 2>(); } HARNESS(fit_set_symmetric_difference) { t_fit<FS, 4>(); }
HARNESS(includes) {
  In x; bool inc = true; for (int i = 0; i < x.b.n; ++i) { int m = 0, n = 0; for (int j = 0; j < x.b.n; ++j) n += x.b[j] >> 3 == x.b[i] >> 3; for (int j = 0; j < x.a.n; ++j) m += x.b[i] >> 3 == x.a[j] >> 3; inc &= n <= m; }
  CHECK(sprout::includes(x.a.b<K>(), x.a.e<K>(), x.b.b<K>(), x.b.e<K>(), L()) == inc);
}
HARNESS(includes_def) {
  Seq<sc, 4> a; Seq<sc, 3> b; ASSUME(a.sorted()); ASSUME(b.sorted()); bool inc = true; for (int i = 0; i < b.n; ++i) inc &= occ(b.v, b.n, b[i]) <= occ(a.v, a.n, b[i]);
  CHECK(sprout::includes(a.b<K>(), a.e<K>(), b.b<K>(), b.e<K>()) == inc);
}
// walking with find_X / next_X visits exactly the result of set_X
template <class P, class X> int at1(X const& x, P p) { return at<K>(x.a, p.first); }
template <class P, class X> int at2(X const& x, P p) { return at<K>(x.b, p.second); }
#define WALK(NAME, OP, FIND, NEXT) HARNESS(NAME) { \
  In x; Exp e = expect(x, OP); auto e1 = x.a.e<K>(); auto e2 = x.b.e<K>(); auto p = FIND(x.a.b<K>(), e1, x.b.b<K>(), e2, L()); uc got[R]; int n = 0; \
  for (;;) { int i = at1(x, p), j = at2(x, p); bool d1 = i == x.a.n, d2 = j == x.b.n; if (OP == INTER ? d1 || d2 : OP == DIFF ? d1 : d1 && d2) break; CHECK(n < R); if (n >= R) return; \
    got[n++] = OP == INTER || OP == DIFF ? x.a[i] : !d1 && (d2 || !L()(x.b[j], x.a[i])) ? x.a[i] : x.b[j]; p = NEXT(p.first, e1, p.second, e2, L()); } \
  CHECK(at1(x, p) == x.a.n && at2(x, p) == x.b.n); CHECK(n == e.total); matches(e, got, n); }
template <class I, class J, class Q> sprout::pair<I, J> start(I a, I, J b, J, Q) { return sprout::pair<I, J>(a, b); }
WALK(walk_union, UNION, start, sprout::next_union) WALK(walk_intersection, INTER, sprout::find_intersection, sprout::next_intersection)
WALK(walk_difference, DIFF, sprout::find_difference, sprout::next_difference) WALK(walk_symmetric_difference, SYM, sprout::find_symmetric_difference, sprout::next_symmetric_difference)
HARNESS(find_def) {   // default order agrees with an explicit one
  Seq<sc, 3> a, b; ASSUME(a.sorted()); ASSUME(b.sorted()); auto q = [](sc x, sc y) { return x < y; }; auto a1 = a.b<K>(), a2 = a.e<K>(), b1 = b.b<K>(), b2 = b.e<K>();
  CHECK(sprout::find_intersection(a1, a2, b1, b2) == sprout::find_intersection(a1, a2, b1, b2, q)); CHECK(sprout::find_difference(a1, a2, b1, b2) == sprout::find_difference(a1, a2, b1, b2, q)); CHECK(sprout::find_symmetric_difference(a1, a2, b1, b2) == sprout::find_symmetric_difference(a1, a2, b1, b2, q));
}
HARNESS(inplace_merge) {
  Seq<uc, 6> s; tag(s, s.n); int m = vp::pick<int>(0, s.n); for (int i = 1; i < s.n; ++i) if (i != m) ASSUME(!L()(s[i], s[i - 1])); uc o[6]; for (int i = 0; i < s.n; ++i) o[i] = s[i];
  sprout::inplace_merge(s.mb<KM>(), s.mp<KM>(m), s.me<KM>(), L()); CHECK(tagged_perm(s.v, o, s.n)); for (int i = 1; i < s.n; ++i) CHECK(s[i - 1] < s[i]);
}
HARNESS(inplace_merge_def) { Seq<sc, 4> s; int m = vp::pick<int>(0, s.n); for (int i = 1; i < s.n; ++i) if (i != m) ASSUME(s[i] >= s[i - 1]); Seq<sc, 4> t = s; sprout::inplace_merge(s.mb<KM>(), s.mp<KM>(m), s.me<KM>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(s.sorted()); }
template <int N> void t_fixed_inplace() {
  sprout::array<uc, N> a{{}}; tag(a, N); int m = vp::pick<int>(0, N); for (int i = 1; i < N; ++i) if (i != m) ASSUME(!L()(a[i], a[i - 1]));
  auto o = sprout::fixed::inplace_merge(a, a.cbegin() + m, L()); CHECK(tagged_perm(o, a, N)); for (int i = 1; i < N; ++i) CHECK(o[i - 1] < o[i]);
  auto w = sprout::fit::inplace_merge(a, a.cbegin() + m, L()); CHECK(w.size() == N); for (int i = 0; i < N; ++i) CHECK(w[i] == o[i]);
}
HARNESS(fixed_inplace_merge) { t_fixed_inplace<4>(); } HARNESS(fixed_inplace_merge5) { t_fixed_inplace<5>(); }
