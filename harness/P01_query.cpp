// P01: queries over a range (searching, counting, comparing, classifying) give the answer of a direct linear reading of the
// range, for every content, length and iterator category, and touch nothing outside it.
#include "vpu.hpp"
#include <sprout/algorithm.hpp>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef KIn K; typedef KFwd KF;
#elif KIND == 1
typedef KRa K; typedef KRa KF;
#elif KIND == 2
typedef KPtr K; typedef KPtr KF;
#else
typedef KBi K; typedef KBi KF;
#endif
// VP-ONLY: input -DKIND=0
// VP-VARIANT: ra -DKIND=1
// VP-VARIANT: ptr -DKIND=2
// VP-VARIANT: bidi -DKIND=3
static const int N = VP_THOROUGH ? 9 : 7;
typedef Seq<sc, N> S; typedef Seq<sc, 5> S5; typedef Seq<sc, 4> S4; typedef Seq<sc, 3> S3;

HARNESS(find) {
  S s; sc k = vp::nd<sc>(); int e = 0; while (e < s.n && s[e] != k) ++e;
  CHECK(at<K>(s, sprout::find(s.b<K>(), s.e<K>(), k)) == e);
}
HARNESS(find_if) {
  S s; Below p = {vp::nd<sc>()}; int e = 0; while (e < s.n && !p(s[e])) ++e; int f = 0; while (f < s.n && p(s[f])) ++f;
  CHECK(at<K>(s, sprout::find_if(s.b<K>(), s.e<K>(), p)) == e);
  CHECK(at<K>(s, sprout::find_if_not(s.b<K>(), s.e<K>(), p)) == f);
}
HARNESS(count) {
  S s; sc k = vp::nd<sc>(); int c = 0; for (int i = 0; i < s.n; ++i) c += s[i] == k;
  CHECK(sprout::count(s.b<K>(), s.e<K>(), k) == c);
}
HARNESS(count_if) {
  Seq<sc, 6> s; Odd p; int c = 0; for (int i = 0; i < s.n; ++i) c += p(s[i]);
  CHECK(sprout::count_if(s.b<K>(), s.e<K>(), p) == c);
}
HARNESS(quantifiers) {
  Seq<sc, 6> s; Below p = {vp::nd<sc>()}; int c = 0; for (int i = 0; i < s.n; ++i) c += p(s[i]);
  CHECK(sprout::all_of(s.b<K>(), s.e<K>(), p) == (c == s.n));
  CHECK(sprout::any_of(s.b<K>(), s.e<K>(), p) == (c != 0));
  CHECK(sprout::none_of(s.b<K>(), s.e<K>(), p) == (c == 0));
  CHECK(sprout::one_of(s.b<K>(), s.e<K>(), p) == (c == 1));
}
HARNESS(quantifiers_equal) {
  Seq<sc, 6> s; sc k = vp::nd<sc>(); int c = 0; for (int i = 0; i < s.n; ++i) c += s[i] == k;
  CHECK(sprout::all_of_equal(s.b<K>(), s.e<K>(), k) == (c == s.n));
  CHECK(sprout::any_of_equal(s.b<K>(), s.e<K>(), k) == (c != 0));
  CHECK(sprout::none_of_equal(s.b<K>(), s.e<K>(), k) == (c == 0));
  CHECK(sprout::one_of_equal(s.b<K>(), s.e<K>(), k) == (c == 1));
}
HARNESS(adjacent_find) {
  S s; int e = s.n; for (int i = s.n - 1; i-- > 0;) if (s[i] == s[i + 1]) e = i;
  CHECK(at<KF>(s, sprout::adjacent_find(s.b<KF>(), s.e<KF>())) == e);
}
HARNESS(adjacent_find_pred) {
  S s; HalfLess q; int f = s.n; for (int i = s.n - 1; i-- > 0;) if (q(s[i], s[i + 1])) f = i;
  CHECK(at<KF>(s, sprout::adjacent_find(s.b<KF>(), s.e<KF>(), q)) == f);
}
HARNESS(find_first_of) {
  S5 s; S3 t; int e = s.n; for (int i = s.n; i-- > 0;) for (int j = 0; j < t.n; ++j) if (s[i] == t[j]) e = i;
  CHECK(at<K>(s, sprout::find_first_of(s.b<K>(), s.e<K>(), t.b<KF>(), t.e<KF>())) == e);
}
HARNESS(find_first_of_pred) {
  S4 s; S3 t; HalfLess q; int f = s.n; for (int i = s.n; i-- > 0;) for (int j = 0; j < t.n; ++j) if (q(s[i], t[j])) f = i;
  CHECK(at<K>(s, sprout::find_first_of(s.b<K>(), s.e<K>(), t.b<KF>(), t.e<KF>(), q)) == f);
}
template <class A, class B, class Q> int ref_search(A const& s, B const& t, Q q, bool last) {
  if (last && t.n == 0) return s.n;
  int r = s.n;
  for (int i = 0; i + t.n <= s.n; ++i) { bool m = true; for (int j = 0; j < t.n; ++j) m = m && q(s[i + j], t[j]); if (m) { r = i; if (!last) break; } }
  return r;
}
struct Eq { bool operator()(sc a, sc b) const { return a == b; } };
HARNESS(search) { Seq<sc, 6> s; S3 t; CHECK(at<KF>(s, sprout::search(s.b<KF>(), s.e<KF>(), t.b<KF>(), t.e<KF>())) == ref_search(s, t, Eq(), false)); }
HARNESS(search_pred) { S5 s; S3 t; CHECK(at<KF>(s, sprout::search(s.b<KF>(), s.e<KF>(), t.b<KF>(), t.e<KF>(), HalfEq())) == ref_search(s, t, HalfEq(), false)); }
HARNESS(find_end) { S5 s; S3 t; CHECK(at<KF>(s, sprout::find_end(s.b<KF>(), s.e<KF>(), t.b<KF>(), t.e<KF>())) == ref_search(s, t, Eq(), true)); }
HARNESS(find_end_pred) { S5 s; S3 t; CHECK(at<KF>(s, sprout::find_end(s.b<KF>(), s.e<KF>(), t.b<KF>(), t.e<KF>(), HalfEq())) == ref_search(s, t, HalfEq(), true)); }
HARNESS(search_n) {
  Seq<sc, 6> s; sc k = vp::nd<sc>(); int c = vp::pick<int>(1, 4); int r = s.n;
  for (int i = 0; i + c <= s.n; ++i) { bool m = true; for (int j = 0; j < c; ++j) m = m && s[i + j] == k; if (m) { r = i; break; } }
  CHECK(at<KF>(s, sprout::search_n(s.b<KF>(), s.e<KF>(), c, k)) == r);
}
HARNESS(search_n_pred) {
  S5 s; sc k = vp::nd<sc>(); int c = vp::pick<int>(1, 3); int r = s.n; HalfLess q;
  for (int i = 0; i + c <= s.n; ++i) { bool m = true; for (int j = 0; j < c; ++j) m = m && q(s[i + j], k); if (m) { r = i; break; } }
  CHECK(at<KF>(s, sprout::search_n(s.b<KF>(), s.e<KF>(), c, k, q)) == r);
}
HARNESS(equal3) {
  Seq<sc, 6> s; Seq<sc, 6> t(6); int n = s.n; t.n = n; bool e = true; for (int i = 0; i < n; ++i) e = e && s[i] == t[i];
  CHECK(sprout::equal(s.b<K>(), s.e<K>(), t.b<K>()) == e);
}
HARNESS(equal4) {
  S5 s; S5 t; bool e = s.n == t.n; for (int i = 0; i < s.n && e; ++i) e = s[i] == t[i];
  CHECK(sprout::equal(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>()) == e);
}
HARNESS(equal_pred) {
  S4 s; S4 t; HalfEq q; bool f = s.n == t.n; for (int i = 0; i < s.n && f; ++i) f = q(s[i], t[i]);
  CHECK(sprout::equal(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>(), q) == f);
  if (s.n <= t.n) { bool g = true; for (int i = 0; i < s.n && g; ++i) g = q(s[i], t[i]); CHECK(sprout::equal(s.b<K>(), s.e<K>(), t.b<K>(), q) == g); }
}
HARNESS(mismatch3) {
  Seq<sc, 6> s; Seq<sc, 6> t(6); t.n = s.n; int e = 0; while (e < s.n && s[e] == t[e]) ++e;
  auto r = sprout::mismatch(s.b<K>(), s.e<K>(), t.b<K>()); CHECK(at<K>(s, r.first) == e && at<K>(t, r.second) == e);
}
HARNESS(mismatch4) {
  S5 s; S5 t; int e = 0; while (e < s.n && e < t.n && s[e] == t[e]) ++e;
  auto r = sprout::mismatch(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>()); CHECK(at<K>(s, r.first) == e && at<K>(t, r.second) == e);
}
HARNESS(mismatch_pred) {
  S4 s; S4 t; HalfEq q; int e = 0; while (e < s.n && e < t.n && q(s[e], t[e])) ++e;
  auto r = sprout::mismatch(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>(), q); CHECK(at<K>(s, r.first) == e && at<K>(t, r.second) == e);
  if (s.n <= t.n) { auto r2 = sprout::mismatch(s.b<K>(), s.e<K>(), t.b<K>(), q); CHECK(at<K>(s, r2.first) == e && at<K>(t, r2.second) == e); }
}
template <class A, class B, class L> int ref_tri(A const& s, B const& t, L l) {
  int i = 0; for (; i < s.n && i < t.n; ++i) { if (l(s[i], t[i])) return -1; if (l(t[i], s[i])) return 1; }
  return s.n == t.n ? 0 : s.n < t.n ? -1 : 1;
}
struct Lt { bool operator()(sc a, sc b) const { return a < b; } };
HARNESS(lexicographical) {
  S5 s; S5 t; int r = ref_tri(s, t, Lt());
  CHECK(sprout::lexicographical_compare(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>()) == (r < 0));
}
HARNESS(lexicographical_pred) { S4 s; S4 t; CHECK(sprout::lexicographical_compare(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>(), HalfLess()) == (ref_tri(s, t, HalfLess()) < 0)); }
HARNESS(tristate) {
  S4 s; S4 t; int r = ref_tri(s, t, Lt()); int g = sprout::tristate_lexicographical_compare(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>());
  CHECK((g < 0) == (r < 0)); CHECK((g > 0) == (r > 0));
}
HARNESS(tristate_pred) {
  S4 s; S4 t; int r = ref_tri(s, t, HalfLess()); int g = sprout::tristate_lexicographical_compare(s.b<K>(), s.e<K>(), t.b<K>(), t.e<K>(), HalfLess());
  CHECK((g < 0) == (r < 0)); CHECK((g > 0) == (r > 0));
}
HARNESS(is_sorted_until) {
  S s; int e = s.n; for (int i = s.n; i-- > 1;) if (s[i] < s[i - 1]) e = i;
  CHECK(at<KF>(s, sprout::is_sorted_until(s.b<KF>(), s.e<KF>())) == e);
  CHECK(sprout::is_sorted(s.b<KF>(), s.e<KF>()) == (e == s.n));
}
HARNESS(is_sorted_comp) {
  Seq<sc, 6> s; int e = s.n; HalfLess l; for (int i = s.n; i-- > 1;) if (l(s[i], s[i - 1])) e = i;
  CHECK(at<KF>(s, sprout::is_sorted_until(s.b<KF>(), s.e<KF>(), l)) == e);
  CHECK(sprout::is_sorted(s.b<KF>(), s.e<KF>(), l) == (e == s.n));
}
HARNESS(monotone) {
  S5 s; bool i = true, d = true, si = true, sd = true;
  for (int k = 1; k < s.n; ++k) { i &= s[k - 1] <= s[k]; d &= s[k - 1] >= s[k]; si &= s[k - 1] < s[k]; sd &= s[k - 1] > s[k]; }
  CHECK(sprout::is_increasing(s.b<KF>(), s.e<KF>()) == i); CHECK(sprout::is_decreasing(s.b<KF>(), s.e<KF>()) == d);
  CHECK(sprout::is_strictly_increasing(s.b<KF>(), s.e<KF>()) == si); CHECK(sprout::is_strictly_decreasing(s.b<KF>(), s.e<KF>()) == sd);
}
HARNESS(is_partitioned) {
  S s; Below p = {vp::nd<sc>()}; int f = 0; while (f < s.n && p(s[f])) ++f; bool r = true; for (int i = f; i < s.n; ++i) r = r && !p(s[i]);
  CHECK(sprout::is_partitioned(s.b<K>(), s.e<K>(), p) == r);
  if (r) CHECK(at<KF>(s, sprout::partition_point(s.b<KF>(), s.e<KF>(), p)) == f);
}
HARNESS(is_permutation) {
  S4 s; Seq<sc, 4> t(4); t.n = s.n; bool r = true; for (int i = 0; i < s.n; ++i) r &= occ(s, s.n, s[i]) == occ(t, s.n, s[i]);
  CHECK(sprout::is_permutation(s.b<KF>(), s.e<KF>(), t.b<KF>()) == r);
}
HARNESS(is_permutation4) {
  S3 s; S3 t; bool r = s.n == t.n; for (int i = 0; i < s.n; ++i) r &= occ(s, s.n, s[i]) == occ(t, t.n, s[i]);
  CHECK(sprout::is_permutation(s.b<KF>(), s.e<KF>(), t.b<KF>(), t.e<KF>()) == r);
  bool h = s.n == t.n; for (int i = 0; i < s.n; ++i) { int a = 0, b = 0; for (int j = 0; j < s.n; ++j) a += HalfEq()(s[i], s[j]); for (int j = 0; j < t.n; ++j) b += HalfEq()(s[i], t[j]); h &= a == b; }
  CHECK(sprout::is_permutation(s.b<KF>(), s.e<KF>(), t.b<KF>(), t.e<KF>(), HalfEq()) == h);
}
HARNESS(min_max_element) {
  Seq<sc, 6> s; int lo = 0, hi = 0, hl = 0; for (int i = 1; i < s.n; ++i) { if (s[i] < s[lo]) lo = i; if (s[hi] < s[i]) hi = i; if (!(s[i] < s[hl])) hl = i; }
  CHECK(at<KF>(s, sprout::min_element(s.b<KF>(), s.e<KF>())) == lo); CHECK(at<KF>(s, sprout::max_element(s.b<KF>(), s.e<KF>())) == hi);
}
HARNESS(minmax_element) {
  S5 s; int lo = 0, hl = 0; for (int i = 1; i < s.n; ++i) { if (s[i] < s[lo]) lo = i; if (!(s[i] < s[hl])) hl = i; }
  auto r = sprout::minmax_element(s.b<KF>(), s.e<KF>()); CHECK(at<KF>(s, r.first) == lo); CHECK(at<KF>(s, r.second) == hl);
}
HARNESS(min_max_element_comp) {
  S5 s; HalfLess l; int lo = 0, hi = 0, hl = 0; for (int i = 1; i < s.n; ++i) { if (l(s[i], s[lo])) lo = i; if (l(s[hi], s[i])) hi = i; if (!l(s[i], s[hl])) hl = i; }
  CHECK(at<KF>(s, sprout::min_element(s.b<KF>(), s.e<KF>(), l)) == lo); CHECK(at<KF>(s, sprout::max_element(s.b<KF>(), s.e<KF>(), l)) == hi);
  auto r = sprout::minmax_element(s.b<KF>(), s.e<KF>(), l); CHECK(at<KF>(s, r.first) == lo); CHECK(at<KF>(s, r.second) == hl);
}
HARNESS(bounds) {
  S s; sc k = vp::nd<sc>(); ASSUME(s.sorted()); int lo = 0, up = 0; while (lo < s.n && s[lo] < k) ++lo; while (up < s.n && !(k < s[up])) ++up;
  CHECK(at<KF>(s, sprout::lower_bound(s.b<KF>(), s.e<KF>(), k)) == lo); CHECK(at<KF>(s, sprout::upper_bound(s.b<KF>(), s.e<KF>(), k)) == up);
  auto r = sprout::equal_range(s.b<KF>(), s.e<KF>(), k); CHECK(at<KF>(s, r.first) == lo); CHECK(at<KF>(s, r.second) == up);
  CHECK(sprout::binary_search(s.b<KF>(), s.e<KF>(), k) == (lo != up));
}
HARNESS(bounds_comp) {
  Seq<sc, 6> s; sc k = vp::nd<sc>(); HalfLess l; bool ok = true; for (int i = 1; i < s.n; ++i) ok &= !l(s[i], s[i - 1]); ASSUME(ok);
  int lo = 0, up = 0; while (lo < s.n && l(s[lo], k)) ++lo; while (up < s.n && !l(k, s[up])) ++up;
  CHECK(at<KF>(s, sprout::lower_bound(s.b<KF>(), s.e<KF>(), k, l)) == lo); CHECK(at<KF>(s, sprout::upper_bound(s.b<KF>(), s.e<KF>(), k, l)) == up);
  auto r = sprout::equal_range(s.b<KF>(), s.e<KF>(), k, l); CHECK(at<KF>(s, r.first) == lo); CHECK(at<KF>(s, r.second) == up);
  CHECK(sprout::binary_search(s.b<KF>(), s.e<KF>(), k, l) == (lo != up));
}
struct Weigh { int operator()(int a, sc b) const { return a * 3 + b; } };
struct BelowI { int k; bool operator()(int x) const { return x < k; } };
#if KIND == 1 || KIND == 2
template <class L> void heap_t(L l) {
  S s; int e = s.n; for (int i = s.n; i-- > 1;) if (l(s[(i - 1) / 2], s[i])) e = i;
  CHECK(at<KF>(s, sprout::is_heap_until(s.b<KF>(), s.e<KF>(), l)) == e); CHECK(sprout::is_heap(s.b<KF>(), s.e<KF>(), l) == (e == s.n));
}
HARNESS(is_heap) { S s; int e = s.n; for (int i = s.n; i-- > 1;) if (s[(i - 1) / 2] < s[i]) e = i;
  CHECK(at<KF>(s, sprout::is_heap_until(s.b<KF>(), s.e<KF>())) == e); CHECK(sprout::is_heap(s.b<KF>(), s.e<KF>()) == (e == s.n)); }
HARNESS(is_heap_comp) { heap_t(HalfLess()); }
#endif
#if KIND == 0
HARNESS(values) {
  sc a = vp::nd<sc>(), b = vp::nd<sc>(), c = vp::nd<sc>(); HalfLess l;
  CHECK(&sprout::min(a, b) == (b < a ? &b : &a)); CHECK(&sprout::max(a, b) == (a < b ? &b : &a));
  CHECK(&sprout::min(a, b, l) == (l(b, a) ? &b : &a)); CHECK(&sprout::max(a, b, l) == (l(a, b) ? &b : &a));
  auto m = sprout::minmax(a, b); CHECK(&m.first == (b < a ? &b : &a) && &m.second == (b < a ? &a : &b));
  auto h = sprout::minmax(a, b, l); CHECK(&h.first == (l(b, a) ? &b : &a) && &h.second == (l(b, a) ? &a : &b));
  ASSUME(!(c < b)); CHECK(&sprout::clamp(a, b, c) == (a < b ? &b : c < a ? &c : &a)); CHECK(&sprout::clamp(a, b, c, l) == (l(a, b) ? &b : l(c, a) ? &c : &a));
  int x = a, y = b; CHECK(sprout::abs_diff(x, y) == (x < y ? y - x : x - y));
}
HARNESS(values_list) {
  sc a = vp::nd<sc>(), b = vp::nd<sc>(), c = vp::nd<sc>(), d = vp::nd<sc>(); sc lo = a, hi = a; for (sc z : {b, c, d}) { if (z < lo) lo = z; if (hi < z) hi = z; }
  CHECK(sprout::min({a, b, c, d}) == lo); CHECK(sprout::max({a, b, c, d}) == hi); auto m = sprout::minmax({a, b, c, d}); CHECK(m.first == lo && m.second == hi);
}
#endif
HARNESS(folds) {
  Seq<sc, 4> s; int init = vp::range<int>(-100, 100); BelowI p = {vp::nd<int>()}; Weigh w;
  // fold_while: goes on while pred(accumulated); fold_until: goes on until pred(accumulated)
  int a = init; for (int i = 0; i < s.n && p(a); ++i) a = w(a, s[i]);
  int u = init; for (int i = 0; i < s.n && !p(u); ++i) u = w(u, s[i]);
  CHECK(sprout::fold_while(s.b<K>(), s.e<K>(), init, w, p) == a);
  CHECK(sprout::fold_until(s.b<K>(), s.e<K>(), init, w, p) == u);
}
