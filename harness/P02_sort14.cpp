// P02: the in-place (C++14) sorting, selection and heap algorithms
#include "vpu.hpp"
#include <sprout/algorithm.hpp>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef KRa K;
#else
typedef KPtr K;
#endif
// VP-ONLY: ra -DKIND=0
// VP-VARIANT: ptr -DKIND=1
static const int M = VP_THOROUGH ? 7 : 6;
template <int N> struct T : Seq<uc, N> { uc o[N]; explicit T(int lo = 0) : Seq<uc, N>(lo) { tag(this->v, this->n); for (int i = 0; i < this->n; ++i) o[i] = this->v[i]; } };
typedef T<5> T5; typedef T<M> TM; typedef KeyLess L;
HARNESS(sort) { T5 s; sprout::sort(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(ordered(s.v, 0, s.n, L())); }
HARNESS(sort6) { TM s(M); sprout::sort(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(ordered(s.v, 0, s.n, L())); }
HARNESS(sort_default) { Seq<sc, 4> s; Seq<sc, 4> t = s; sprout::sort(s.mb<K>(), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(s.sorted()); }
HARNESS(stable_sort) { T5 s; sprout::stable_sort(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); for (int i = 1; i < s.n; ++i) CHECK(s.v[i - 1] < s.v[i]); }
HARNESS(stable_sort6) { TM s(M); sprout::stable_sort(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); for (int i = 1; i < s.n; ++i) CHECK(s.v[i - 1] < s.v[i]); }
HARNESS(stable_sort_default) { Seq<sc, 4> s; Seq<sc, 4> t = s; sprout::stable_sort(s.mb<K>(), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(s.sorted()); }
HARNESS(partial_sort) { T5 s; int m = vp::pick<int>(0, s.n); sprout::partial_sort(s.mb<K>(), s.mp<K>(m), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(ordered(s.v, 0, m, L())); if (m) for (int i = m; i < s.n; ++i) CHECK(!L()(s.v[i], s.v[m - 1])); }
HARNESS(partial_sort_default) { Seq<sc, 4> s; Seq<sc, 4> t = s; int m = vp::pick<int>(0, s.n); sprout::partial_sort(s.mb<K>(), s.mp<K>(m), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); for (int i = 1; i < m; ++i) CHECK(s[i - 1] <= s[i]); if (m) for (int i = m; i < s.n; ++i) CHECK(s[i] >= s[m - 1]); }
HARNESS(nth_element) { T5 s; if (!s.n) return; int m = vp::pick<int>(0, s.n - 1); sprout::nth_element(s.mb<K>(), s.mp<K>(m), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); for (int i = 0; i < m; ++i) CHECK(!L()(s.v[m], s.v[i])); for (int i = m; i < s.n; ++i) CHECK(!L()(s.v[i], s.v[m])); }
HARNESS(nth_element6) { TM s(M); int m = vp::pick<int>(0, s.n - 1); sprout::nth_element(s.mb<K>(), s.mp<K>(m), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); for (int i = 0; i < m; ++i) CHECK(!L()(s.v[m], s.v[i])); for (int i = m; i < s.n; ++i) CHECK(!L()(s.v[i], s.v[m])); }
HARNESS(nth_element_default) { Seq<sc, 4> s(1); Seq<sc, 4> t = s; int m = vp::pick<int>(0, s.n - 1); sprout::nth_element(s.mb<K>(), s.mp<K>(m), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); for (int i = 0; i < m; ++i) CHECK(s[i] <= s[m]); for (int i = m; i < s.n; ++i) CHECK(s[i] >= s[m]); }
HARNESS(nth_element_end) { T5 s; sprout::nth_element(s.mb<K>(), s.me<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); }
HARNESS(make_heap) { TM s; sprout::make_heap(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(heap(s.v, s.n, L())); }
HARNESS(make_heap_default) { Seq<sc, 5> s; Seq<sc, 5> t = s; sprout::make_heap(s.mb<K>(), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(heap(s.v, s.n, [](sc a, sc b) { return a < b; })); }
HARNESS(push_heap) { T<7> s(1); ASSUME(heap(s.v, s.n - 1, L())); sprout::push_heap(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(heap(s.v, s.n, L())); }
HARNESS(push_heap_default) { Seq<sc, 6> s(1); Seq<sc, 6> t = s; auto q = [](sc a, sc b) { return a < b; }; ASSUME(heap(s.v, s.n - 1, q)); sprout::push_heap(s.mb<K>(), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(heap(s.v, s.n, q)); }
HARNESS(pop_heap) { T<8> s(1); ASSUME(heap(s.v, s.n, L())); sprout::pop_heap(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(heap(s.v, s.n - 1, L())); CHECK(s.v[s.n - 1] == s.o[0]); }
HARNESS(pop_heap_default) { Seq<sc, 6> s(1); Seq<sc, 6> t = s; auto q = [](sc a, sc b) { return a < b; }; ASSUME(heap(s.v, s.n, q)); sprout::pop_heap(s.mb<K>(), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(heap(s.v, s.n - 1, q)); CHECK(s[s.n - 1] == t[0]); }
HARNESS(sort_heap) { T<6> s; ASSUME(heap(s.v, s.n, L())); sprout::sort_heap(s.mb<K>(), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); CHECK(ordered(s.v, 0, s.n, L())); }
HARNESS(sort_heap_default) { Seq<sc, 5> s; Seq<sc, 5> t = s; ASSUME(heap(s.v, s.n, [](sc a, sc b) { return a < b; })); sprout::sort_heap(s.mb<K>(), s.me<K>()); CHECK(is_perm(s.v, t.v, s.n)); CHECK(s.sorted()); }
HARNESS(partial_sort_copy) { T<4> s; Seq<uc, 3> d; int k = s.n < d.n ? s.n : d.n; uc d0[3] = {d.v[0], d.v[1], d.v[2]};
  int r = mat<K>(d, sprout::partial_sort_copy(s.b<K>(), s.e<K>(), d.mb<K>(), d.me<K>(), L())); CHECK(r == k); CHECK(same(s.v, s.o, 0, s.n)); CHECK(ordered(d.v, 0, k, L()));
  unsigned seen = 0; for (int i = 0; i < k; ++i) { CHECK(occ(s.v, s.n, d[i]) == 1); seen |= 1u << (d[i] & 7); }
  int c = 0; for (int i = 0; i < s.n; ++i) { c += (seen >> i) & 1; if (!((seen >> i) & 1) && k) CHECK(!L()(s.v[i], d[k - 1])); } CHECK(c == k); for (int i = k; i < d.n; ++i) CHECK(d[i] == d0[i]); }
HARNESS(partial_sort_copy_default) { Seq<sc, 4> s; Seq<sc, 3> d; int k = s.n < d.n ? s.n : d.n; int r = mat<K>(d, sprout::partial_sort_copy(s.b<K>(), s.e<K>(), d.mb<K>(), d.me<K>())); CHECK(r == k);
  for (int i = 1; i < k; ++i) CHECK(d[i - 1] <= d[i]); for (int i = 0; i < k; ++i) { int less = 0, le = 0; for (int j = 0; j < s.n; ++j) { less += s[j] < d[i]; le += s[j] <= d[i]; } CHECK(less <= i && i < le); } }
// sizes beyond the insertion-sort limit: most elements fixed, a few arbitrary
template <int N> struct Big { uc v[N]; uc o[N]; explicit Big(int pat) { for (int i = 0; i < N; ++i) v[i] = (uc)(pat == 0 ? i * 37 % N * 5 : pat == 1 ? (N - i) * 5 : pat == 2 ? i * 5 : (i % 3) * 40); }
  void sym(int i) { v[i] = vp::nd<uc>(); } void fix() { for (int i = 0; i < N; ++i) o[i] = v[i]; }
  typename std::remove_reference<decltype(K::make((uc*)0, (uc*)0, (uc*)0))>::type b() { return K::make(v, v + N, v); } typename std::remove_reference<decltype(K::make((uc*)0, (uc*)0, (uc*)0))>::type e() { return K::make(v, v + N, v + N); } typename std::remove_reference<decltype(K::make((uc*)0, (uc*)0, (uc*)0))>::type p(int i) { return K::make(v, v + N, v + i); } };
template <int N> bool bigperm(Big<N> const& x) { bool ok = true; uc k = vp::nd<uc>(); return occ(x.v, N, k) == occ(x.o, N, k); }
struct KL { bool operator()(uc a, uc b) const { return a < b; } };
template <int N> void t_big_sort(int pat, int i) { Big<N> x(pat); x.sym(i); x.fix(); sprout::sort(x.b(), x.e(), KL()); CHECK(bigperm(x)); CHECK(ordered(x.v, 0, N, KL())); }
HARNESS(sort_big0) { t_big_sort<33>(0, 0); } HARNESS(sort_big1) { t_big_sort<33>(1, 16); } HARNESS(sort_big2) { t_big_sort<33>(2, 5); } HARNESS(sort_big3) { t_big_sort<33>(3, 16); } HARNESS(sort_big4) { t_big_sort<33>(3, 32); } HARNESS(sort_big5) { t_big_sort<33>(2, 16); } HARNESS(sort_big6) { t_big_sort<33>(1, 31); }
// elements with a copy constructor of their own: the quicksort part starts at 7 elements
struct Own { uc x; Own(uc x = 0) : x(x) {} Own(Own const& o) : x(o.x) {} Own& operator=(Own const& o) { x = o.x; return *this; } };
struct OL { bool operator()(Own const& a, Own const& b) const { return (a.x >> 3) < (b.x >> 3); } };
template <int N, class F> void t_own(F f, int lo, int hi) { Own v[N]; uc o[N], r[N]; for (int i = 0; i < N; ++i) { v[i].x = (i >= lo && i < hi) ? (uc)((vp::nd<uc>() << 3) | i) : (uc)((i * 5 % N * 8) | i); o[i] = v[i].x; } f(v, v + N); for (int i = 0; i < N; ++i) r[i] = v[i].x; CHECK(tagged_perm(r, o, N)); for (int i = 1; i < N; ++i) CHECK(!OL()(v[i], v[i - 1])); }
struct SortOwn { void operator()(Own* b, Own* e) const { sprout::sort(b, e, OL()); } };
HARNESS(sort_own7) { t_own<7>(SortOwn(), 0, 5); } HARNESS(sort_own8) { t_own<8>(SortOwn(), 3, 8); } HARNESS_T(sort_own8t) { t_own<8>(SortOwn(), 0, 7); }
template <int N> void t_big_stable(int pat, int i, int j, int k) { Big<N> x(pat); for (int q = 0; q < N; ++q) x.v[q] = (uc)((x.v[q] & 0xe0)); x.v[i] = vp::nd<uc>() & 0xe0; x.v[j] = vp::nd<uc>() & 0xe0; x.v[k] = vp::nd<uc>() & 0xe0; for (int q = 0; q < N; ++q) x.v[q] |= q; x.fix();
  sprout::stable_sort(x.b(), x.e(), [](uc a, uc b) { return (a >> 5) < (b >> 5); }); CHECK(bigperm(x)); for (int q = 1; q < N; ++q) CHECK(x.v[q - 1] < x.v[q]); }
HARNESS(stable_big0) { t_big_stable<17>(0, 1, 9, 16); } HARNESS(stable_big1) { t_big_stable<17>(1, 0, 7, 8); } HARNESS(stable_big2) { t_big_stable<31>(3, 3, 15, 30); } HARNESS(stable_big3) { t_big_stable<30>(0, 14, 15, 15); }
template <int N> void t_big_nth(int pat, int n, int i, int j) { Big<N> x(pat); x.sym(i); x.sym(j); x.fix(); sprout::nth_element(x.b(), x.p(n), x.e(), KL()); CHECK(bigperm(x)); for (int q = 0; q < n; ++q) CHECK(!(x.v[n] < x.v[q])); for (int q = n; q < N; ++q) CHECK(!(x.v[q] < x.v[n])); }
HARNESS(nth_big0) { t_big_nth<16>(0, vp::pick<int>(0, 15), 0, 8); } HARNESS(nth_big1) { t_big_nth<16>(1, vp::pick<int>(0, 15), 8, 15); } HARNESS(nth_big2) { t_big_nth<16>(3, vp::pick<int>(0, 15), 3, 12); }
HARNESS(nth_element8) { T<8> s(8); for (int i = 5; i < 8; ++i) { s.v[i] = s.o[i] = (uc)(i * 24 % 56 | i); } int m = vp::pick<int>(0, s.n - 1); sprout::nth_element(s.mb<K>(), s.mp<K>(m), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, s.n)); for (int i = 0; i < m; ++i) CHECK(!L()(s.v[m], s.v[i])); for (int i = m; i < s.n; ++i) CHECK(!L()(s.v[i], s.v[m])); }
// quickselect passes: the three elements the pivot is chosen from are fixed, the other five arbitrary
static void t_nth8(uc a, uc b, uc c, int lo, int hi) { T<8> s(8); s.v[0] = (uc)(a << 3); s.v[4] = (uc)(b << 3 | 4); s.v[7] = (uc)(c << 3 | 7); for (int i = 0; i < 8; ++i) s.o[i] = s.v[i]; int m = vp::pick<int>(lo, hi);
  sprout::nth_element(s.mb<K>(), s.mp<K>(m), s.me<K>(), L()); CHECK(tagged_perm(s.v, s.o, 8)); bool ok = true; for (int i = 0; i < m; ++i) ok &= !L()(s.v[m], s.v[i]); for (int i = m; i < 8; ++i) ok &= !L()(s.v[i], s.v[m]); CHECK(ok); }
HARNESS(nth_q0) { t_nth8(0, 30, 31, 0, 3); } HARNESS(nth_q1) { t_nth8(0, 30, 31, 4, 7); } HARNESS(nth_q2) { t_nth8(0, 15, 31, 0, 3); } HARNESS(nth_q3) { t_nth8(0, 15, 31, 4, 7); } HARNESS(nth_q4) { t_nth8(3, 3, 3, 0, 3); } HARNESS(nth_q5) { t_nth8(3, 3, 3, 4, 7); } HARNESS(nth_q6) { t_nth8(31, 10, 0, 0, 7); } HARNESS(nth_q7) { t_nth8(0, 0, 20, 0, 7); }
