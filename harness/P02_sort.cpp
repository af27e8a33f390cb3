// P02: sorting, selection and heap algorithms (container-returning and in-place) permute their elements into the promised order.
#include "vpu.hpp"
// VP-ONLY: gcc -DVP_GCC
// VP-VARIANT: clang -DVP_CLANG
#include <sprout/algorithm.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/functional.hpp>
static const int M = VP_THOROUGH ? 6 : 5;
template <int N> sprout::array<uc, N> tarr() { sprout::array<uc, N> a{{}}; tag(a, N); return a; }
template <class C> int len(C const& c) { return (int)c.size(); }
template <class Q> struct Less : Q {};

template <int N, class Q> void t_sort(Q q) {
  auto a = tarr<N>(); auto o = sprout::fixed::sort(a, q); CHECK(len(o) == N); CHECK(tagged_perm(o, a, N)); CHECK(ordered(o, 0, N, q));
}
template <int N, class Q> void t_stable(Q q) {
  auto a = tarr<N>(); auto o = sprout::fixed::stable_sort(a, q); CHECK(tagged_perm(o, a, N)); CHECK(ordered(o, 0, N, q));
  for (int i = 1; i < N; ++i) CHECK(q(o[i - 1], o[i]) || (o[i - 1] & 7) < (o[i] & 7));
}
HARNESS(sort) { t_sort<1>(KeyLess()); t_sort<2>(KeyGreater()); t_sort<3>(KeyLess()); }
HARNESS(sort4) { t_sort<4>(KeyGreater()); }
HARNESS(sort5) { t_sort<M>(KeyLess()); }
HARNESS(sort_default) { auto a = nd_array<sc, 4>(); auto o = sprout::fixed::sort(a); CHECK(is_perm(o, a, 4)); CHECK(ordered(o, 0, 4, sprout::less<>())); }
HARNESS(stable_sort) { t_stable<2>(KeyLess()); t_stable<3>(KeyGreater()); }
HARNESS(stable_sort4) { t_stable<4>(KeyGreater()); }
HARNESS(stable_sort5) { t_stable<M>(KeyLess()); }
HARNESS(stable_sort_default) { auto a = nd_array<sc, 4>(); auto o = sprout::fixed::stable_sort(a); CHECK(is_perm(o, a, 4)); CHECK(ordered(o, 0, 4, sprout::less<>())); }

template <int N> void t_partial() {
  auto a = tarr<N>(); int m = vp::pick<int>(0, N); auto o = sprout::fixed::partial_sort(a, a.cbegin() + m, KeyLess());
  CHECK(tagged_perm(o, a, N)); CHECK(ordered(o, 0, m, KeyLess()));
  if (m > 0) for (int i = m; i < N; ++i) CHECK(!KeyLess()(o[i], o[m - 1]));
}
HARNESS(partial_sort) { t_partial<4>(); }
HARNESS(partial_sort5) { t_partial<M>(); }
HARNESS(partial_sort_default) { auto a = nd_array<sc, 4>(); int m = vp::pick<int>(0, 4); auto o = sprout::fixed::partial_sort(a, a.cbegin() + m); CHECK(is_perm(o, a, 4)); CHECK(ordered(o, 0, m, sprout::less<>())); if (m > 0) for (int i = m; i < 4; ++i) CHECK(o[i] >= o[m - 1]); }
template <int N> void t_nth() {
  auto a = tarr<N>(); int m = vp::pick<int>(0, N - 1); auto o = sprout::fixed::nth_element(a, a.cbegin() + m, KeyLess());
  CHECK(tagged_perm(o, a, N)); for (int i = 0; i < m; ++i) CHECK(!KeyLess()(o[m], o[i])); for (int i = m; i < N; ++i) CHECK(!KeyLess()(o[i], o[m]));
}
HARNESS(nth_element) { t_nth<4>(); }
HARNESS(nth_element5) { t_nth<M>(); }
HARNESS(nth_element_default) { auto a = nd_array<sc, 4>(); int m = vp::pick<int>(0, 3); auto o = sprout::fixed::nth_element(a, a.cbegin() + m); CHECK(is_perm(o, a, 4)); for (int i = 0; i < m; ++i) CHECK(o[i] <= o[m]); for (int i = m; i < 4; ++i) CHECK(o[i] >= o[m]); }
template <int N> void t_make_heap() { auto a = tarr<N>(); auto o = sprout::fixed::make_heap(a, KeyLess()); CHECK(tagged_perm(o, a, N)); CHECK(heap(o, N, KeyLess())); }
HARNESS(make_heap) { t_make_heap<1>(); t_make_heap<3>(); }
HARNESS(make_heap4) { t_make_heap<4>(); }
HARNESS(make_heap5) { t_make_heap<M>(); }
HARNESS(make_heap6) { t_make_heap<6>(); }
HARNESS(make_heap_default) { auto a = nd_array<sc, 5>(); auto o = sprout::fixed::make_heap(a); CHECK(is_perm(o, a, 5)); CHECK(heap(o, 5, sprout::less<>())); }
template <int N> void t_partial_heap() {
  auto a = tarr<N>(); int m = vp::pick<int>(1, N); auto o = sprout::fixed::make_partial_heap(a, a.cbegin() + m, KeyLess());
  CHECK(tagged_perm(o, a, N)); CHECK(heap(o, m, KeyLess())); for (int i = m; i < N; ++i) CHECK(!KeyLess()(o[i], o[0]));
}
HARNESS(make_partial_heap) { t_partial_heap<4>(); t_partial_heap<2>(); }
HARNESS(make_partial_heap5) { t_partial_heap<M>(); }
template <int N> void t_push() { auto a = tarr<N>(); ASSUME(heap(a, N - 1, KeyLess())); auto o = sprout::fixed::push_heap(a, KeyLess()); CHECK(tagged_perm(o, a, N)); CHECK(heap(o, N, KeyLess())); }
HARNESS(push_heap) { t_push<2>(); t_push<5>(); }
HARNESS(push_heap7) { t_push<7>(); }
HARNESS(push_heap_default) { auto a = nd_array<sc, 6>(); ASSUME(heap(a, 5, sprout::less<>())); auto o = sprout::fixed::push_heap(a); CHECK(is_perm(o, a, 6)); CHECK(heap(o, 6, sprout::less<>())); }
template <int N> void t_pop() { auto a = tarr<N>(); ASSUME(heap(a, N, KeyLess())); auto o = sprout::fixed::pop_heap(a, KeyLess()); CHECK(tagged_perm(o, a, N)); CHECK(heap(o, N - 1, KeyLess())); CHECK(o[N - 1] == a[0]); }
HARNESS(pop_heap) { t_pop<2>(); t_pop<3>(); t_pop<5>(); }
HARNESS(pop_heap7) { t_pop<7>(); }
HARNESS(pop_heap8) { t_pop<8>(); }
HARNESS(pop_heap_default) { auto a = nd_array<sc, 6>(); ASSUME(heap(a, 6, sprout::less<>())); auto o = sprout::fixed::pop_heap(a); CHECK(is_perm(o, a, 6)); CHECK(heap(o, 5, sprout::less<>())); CHECK(o[5] == a[0]); }
template <int N> void t_sort_heap() { auto a = tarr<N>(); ASSUME(heap(a, N, KeyLess())); auto o = sprout::fixed::sort_heap(a, KeyLess()); CHECK(tagged_perm(o, a, N)); CHECK(ordered(o, 0, N, KeyLess())); }
HARNESS(sort_heap) { t_sort_heap<1>(); t_sort_heap<3>(); }
HARNESS(sort_heap5) { t_sort_heap<5>(); }
HARNESS(sort_heap6) { t_sort_heap<6>(); }
HARNESS(sort_heap_default) { auto a = nd_array<sc, 5>(); ASSUME(heap(a, 5, sprout::less<>())); auto o = sprout::fixed::sort_heap(a); CHECK(is_perm(o, a, 5)); CHECK(ordered(o, 0, 5, sprout::less<>())); }

// windows: elements outside the window keep their places, those inside are treated as the range; fit:: returns the window
template <class F> void window(F f) {
  auto a = tarr<6>(); int b = vp::pick<int>(0, 3), e = vp::pick<int>(3, 6); ASSUME(b < e);
  auto s = sprout::sub_copy(a, b, e); CHECK(len(s) == e - b); f(a, s, b, e);
}
template <class W, class A> void inside(W const& w, A const& a, int b, int e) { CHECK(len(w) == e - b); auto i = w.begin(); sprout::array<uc, 6> o{{}}, x{{}}; for (int k = 0; k < e - b; ++k, ++i) { o[k] = *i; x[k] = a[b + k]; }
  bool ok = true; for (int k = 0; k < e - b; ++k) ok &= occ(o, e - b, o[k]) == 1 && occ(x, e - b, o[k]) == 1; CHECK(ok); CHECK(i == w.end()); }
template <class W, class A> void outside(W const& w, A const& a, int b, int e) { auto const& k = w.get_array(); for (int i = 0; i < 6; ++i) if (i < b || i >= e) CHECK(k[i] == a[i]); }
struct WMakeHeap { template <class A, class S> void operator()(A const& a, S const& s, int b, int e) const { auto w = sprout::fixed::make_heap(s, KeyLess()); inside(w, a, b, e); outside(w, a, b, e); CHECK(heap(w, e - b, KeyLess())); } };
struct WSortHeap { template <class A, class S> void operator()(A const& a, S const& s, int b, int e) const { ASSUME(heap(s, e - b, KeyLess())); auto w = sprout::fixed::sort_heap(s, KeyLess()); inside(w, a, b, e); outside(w, a, b, e); CHECK(ordered(w, 0, e - b, KeyLess())); } };
struct WPop { template <class A, class S> void operator()(A const& a, S const& s, int b, int e) const { ASSUME(heap(s, e - b, KeyLess())); auto w = sprout::fixed::pop_heap(s, KeyLess()); inside(w, a, b, e); outside(w, a, b, e); CHECK(heap(w, e - b - 1, KeyLess())); CHECK(w[e - b - 1] == a[b]); } };
struct WPush { template <class A, class S> void operator()(A const& a, S const& s, int b, int e) const { ASSUME(heap(s, e - b - 1, KeyLess())); auto w = sprout::fixed::push_heap(s, KeyLess()); inside(w, a, b, e); outside(w, a, b, e); CHECK(heap(w, e - b, KeyLess())); } };
struct WPartial { template <class A, class S> void operator()(A const& a, S const& s, int b, int e) const { int m = vp::pick<int>(0, e - b); auto w = sprout::fixed::partial_sort(s, s.cbegin() + m, KeyLess()); inside(w, a, b, e); outside(w, a, b, e); CHECK(ordered(w, 0, m, KeyLess())); if (m) for (int i = m; i < e - b; ++i) CHECK(!KeyLess()(w[i], w[m - 1])); } };
struct WNth { template <class A, class S> void operator()(A const& a, S const& s, int b, int e) const { int m = vp::pick<int>(0, e - b - 1); auto w = sprout::fixed::nth_element(s, s.cbegin() + m, KeyLess()); inside(w, a, b, e); outside(w, a, b, e); for (int i = 0; i < m; ++i) CHECK(!KeyLess()(w[m], w[i])); for (int i = m; i < e - b; ++i) CHECK(!KeyLess()(w[i], w[m])); } };
HARNESS(window_make_heap) { window(WMakeHeap()); }
HARNESS(window_sort_heap) { window(WSortHeap()); }
HARNESS(window_pop_heap) { window(WPop()); }
HARNESS(window_push_heap) { window(WPush()); }
HARNESS(window_partial_sort) { window(WPartial()); }
HARNESS(window_nth) { window(WNth()); }
template <class W, class A> void whole(W const& w, A const& a, int n) { CHECK(len(w) == n); CHECK(is_perm(w, a, n)); }
HARNESS(fit_sort) { auto a = tarr<4>(); auto w = sprout::fit::sort(a, KeyLess()); whole(w, a, 4); CHECK(ordered(w, 0, 4, KeyLess())); }
HARNESS(fit_stable_sort) { auto a = tarr<4>(); auto w = sprout::fit::stable_sort(a, KeyLess()); whole(w, a, 4); CHECK(ordered(w, 0, 4, KeyLess())); for (int i = 1; i < 4; ++i) CHECK(KeyLess()(w[i - 1], w[i]) || (w[i - 1] & 7) < (w[i] & 7)); }
template <class W, class F> void fitted(W const& w, F const& f, int n) { CHECK(len(w) == n); for (int i = 0; i < n; ++i) CHECK(w[i] == f[i]); auto const& k = w.get_array(); for (int i = 0; i < (int)f.size(); ++i) CHECK(k[i] == f[i]); }
// fit:: leaves in the window the part of the result the algorithm is about, and the whole result underneath
HARNESS(fit_partial_sort) { auto a = tarr<4>(); int m = vp::pick<int>(0, 4); fitted(sprout::fit::partial_sort(a, a.cbegin() + m, KeyLess()), sprout::fixed::partial_sort(a, a.cbegin() + m, KeyLess()), m); fitted(sprout::fit::partial_sort(a, a.cbegin() + m), sprout::fixed::partial_sort(a, a.cbegin() + m), m); }
HARNESS(fit_nth_element) { auto a = tarr<4>(); int m = vp::pick<int>(0, 3); fitted(sprout::fit::nth_element(a, a.cbegin() + m, KeyLess()), sprout::fixed::nth_element(a, a.cbegin() + m, KeyLess()), m + 1); fitted(sprout::fit::nth_element(a, a.cbegin() + m), sprout::fixed::nth_element(a, a.cbegin() + m), m + 1); }
HARNESS(fit_heaps) { auto a = tarr<4>(); fitted(sprout::fit::make_heap(a, KeyLess()), sprout::fixed::make_heap(a, KeyLess()), 4); fitted(sprout::fit::make_heap(a), sprout::fixed::make_heap(a), 4); }
HARNESS(fit_pop_heap) { auto a = tarr<4>(); ASSUME(heap(a, 4, KeyLess())); fitted(sprout::fit::pop_heap(a, KeyLess()), sprout::fixed::pop_heap(a, KeyLess()), 3); }
HARNESS(fit_push_heap) { auto a = tarr<4>(); ASSUME(heap(a, 3, KeyLess())); fitted(sprout::fit::push_heap(a, KeyLess()), sprout::fixed::push_heap(a, KeyLess()), 4); }
HARNESS(fit_sort_heap) { auto a = tarr<4>(); ASSUME(heap(a, 4, KeyLess())); fitted(sprout::fit::sort_heap(a, KeyLess()), sprout::fixed::sort_heap(a, KeyLess()), 4); }
HARNESS(fit_partial_heap) { auto a = tarr<4>(); int m = vp::pick<int>(1, 4); fitted(sprout::fit::make_partial_heap(a, a.cbegin() + m, KeyLess()), sprout::fixed::make_partial_heap(a, a.cbegin() + m, KeyLess()), m); }
HARNESS(fit_window) { auto a = tarr<5>(); auto s = sprout::sub_copy(a, 1, 4); auto w = sprout::fit::partial_sort(s, s.cbegin() + 2, KeyLess()); CHECK(len(w) == 2); CHECK(!KeyLess()(w[1], w[0])); auto const& k = w.get_array(); CHECK(k[0] == a[0] && k[4] == a[4] && k[1] == w[0] && k[2] == w[1]); CHECK(!KeyLess()(k[3], w[1])); CHECK(occ(k, 5, a[1]) == 1 && occ(k, 5, a[2]) == 1 && occ(k, 5, a[3]) == 1); }
// sort and stable_sort do not support windows: their element-by-element construction starts from the whole container's size
