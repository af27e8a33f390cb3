// P24: algorithms over ranges do what the forms over iterators do to the range's elements
// VP-STD: 14 17
#include "vpu.hpp"
#include <sprout/range/algorithm.hpp>
#include <sprout/range/numeric.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/numeric.hpp>
#include <sprout/range/algorithm/cxx14.hpp>
#include <sprout/range/numeric/cxx14.hpp>
#include <sprout/algorithm/cxx14.hpp>
#include <sprout/numeric/cxx14.hpp>
#include <sprout/range/algorithm/string.hpp>
#include <sprout/range/ptr_range.hpp>
#include <sprout/sub_array.hpp>
namespace R = sprout::range;
typedef Seq<sc, 4> S; typedef Seq<sc, 3> S3; typedef sprout::array<sc, 4> A4; typedef sprout::array<sc, 6> A6;
template <class K, class Q> auto rg(Q const& s) -> R::range_container<decltype(s.template b<K>())> { return R::range_container<decltype(s.template b<K>())>(s.template b<K>(), s.template e<K>()); }
struct P3 { sc k; bool operator()(sc x) const { return ((x ^ k) & 2) != 0; } };
struct Add3 { typedef sc result_type; sc operator()(sc x, sc y) const { return x * 3 + y; } };
struct Mul { typedef sc result_type; sc operator()(sc x, sc y) const { return x ^ (y + 1); } };
struct Un { typedef sc result_type; sc operator()(sc x) const { return x * 5 + 1; } };
// ---- queries of one range: a value
#define SC1(F, ...) { CHECK(R::F(g __VA_ARGS__) == sprout::F(b, e __VA_ARGS__)); }
#define ONE(F) HARNESS(F) { S s; auto const g = rg<KRa>(s); auto b = g.begin(), e = g.end(); sc v = vp::nd<sc>(); P3 p = { vp::nd<sc>() }; (void)v; (void)p;
ONE(all_any_none) SC1(all_of, , p) SC1(any_of, , p) SC1(none_of, , p) SC1(one_of, , p) }
ONE(all_any_none_equal) SC1(all_of_equal, , v) SC1(any_of_equal, , v) SC1(none_of_equal, , v) SC1(one_of_equal, , v) }
ONE(count) SC1(count, , v) SC1(count_if, , p) }
ONE(binary_search) for (int i = 1; i < s.n; ++i) ASSUME(s[i - 1] <= s[i]); SC1(binary_search, , v) SC1(binary_search, , v, NS_SSCRISK_CEL_OR_SPROUT::less<>()) SC1(binary_search, , v, HalfLess()) }
ONE(is_ordered) SC1(is_sorted) SC1(is_sorted, , Greater()) SC1(is_decreasing) SC1(is_increasing) SC1(is_strictly_decreasing) SC1(is_strictly_increasing) SC1(is_partitioned, , p) }
ONE(is_heap) SC1(is_heap) SC1(is_heap, , Greater()) }
// ---- a position: as an iterator, or as the range before or behind it
template <class It> void pos(It x, It y) { CHECK(x == y); }
template <class Rg, class It> void par(Rg const& r, It f, It l) { CHECK(r.begin() == f); CHECK(r.end() == l); }
#define IT1(F, ...) { auto w = sprout::F(b, e __VA_ARGS__); pos(R::F(g __VA_ARGS__), w); pos(R::F<R::return_found>(g __VA_ARGS__), w); par(R::F<R::return_found_end>(g __VA_ARGS__), w, e); par(R::F<R::return_begin_found>(g __VA_ARGS__), b, w); }
ONE(find) IT1(find, , v) IT1(find_if, , p) IT1(find_if_not, , p) }
ONE(adjacent_find) IT1(adjacent_find) IT1(adjacent_find, , HalfEq()) }
ONE(bounds) for (int i = 1; i < s.n; ++i) ASSUME(s[i - 1] <= s[i]); IT1(lower_bound, , v) IT1(lower_bound, , v, HalfLess()) IT1(upper_bound, , v) IT1(upper_bound, , v, HalfLess()) auto w = sprout::equal_range(b, e, v); par(R::equal_range(g, v), w.first, w.second); auto x = sprout::equal_range(b, e, v, HalfLess()); par(R::equal_range(g, v, HalfLess()), x.first, x.second); }
ONE(is_until) IT1(is_heap_until) IT1(is_heap_until, , Greater()) IT1(is_sorted_until) IT1(is_sorted_until, , Greater()) }
ONE(minmax) IT1(min_element) IT1(min_element, , HalfLess()) IT1(max_element) IT1(max_element, , HalfLess()) auto w = sprout::minmax_element(b, e); auto x = R::minmax_element(g); CHECK(x.first == w.first && x.second == w.second); w = sprout::minmax_element(b, e, HalfLess()); auto y = R::minmax_element(g, HalfLess()); CHECK(y.first == w.first && y.second == w.second); auto z = R::minmax_element<R::return_begin_found>(g, HalfLess()); par(z.first, b, w.first); par(z.second, b, w.second); }
ONE(partition_point) for (int i = 1; i < s.n; ++i) ASSUME(p(s[i - 1]) || !p(s[i])); CHECK(R::partition_point(g, p) == sprout::partition_point(b, e, p)); }
ONE(search_n) int n = vp::pick<int>(1, 3); IT1(search_n, , n, v) IT1(search_n, , n, v, HalfEq()) }
// ---- queries of two ranges
#define TWO(F) HARNESS(F) { S s; S3 t; auto const g = rg<KRa>(s); auto const h = rg<KRa>(t); auto b = g.begin(), e = g.end(), c = h.begin(), d = h.end(); (void)d;
#define SC2(F, ...) { CHECK(R::F(g, h __VA_ARGS__) == sprout::F(b, e, c, d __VA_ARGS__)); }
#define SC3(F, ...) { CHECK(R::F(g, h __VA_ARGS__) == sprout::F(b, e, c __VA_ARGS__)); }
#define IT2(F, ...) { auto w = sprout::F(b, e, c, d __VA_ARGS__); pos(R::F(g, h __VA_ARGS__), w); par(R::F<R::return_found_end>(g, h __VA_ARGS__), w, e); par(R::F<R::return_begin_found>(g, h __VA_ARGS__), b, w); }
#define PA2(F, ...) { auto w = sprout::F(b, e, c, d __VA_ARGS__); auto x = R::F(g, h __VA_ARGS__); CHECK(x.first == w.first); CHECK(x.second == w.second); }
TWO(equal) ASSUME(s.n <= t.n); SC3(equal) SC3(equal, , HalfEq()) auto w = sprout::mismatch(b, e, c); auto x = R::mismatch(g, h); CHECK(x.first == w.first && x.second == w.second); w = sprout::mismatch(b, e, c, HalfEq()); auto y = R::mismatch(g, h, HalfEq()); CHECK(y.first == w.first && y.second == w.second); }
TWO(is_permutation) ASSUME(s.n == t.n); SC3(is_permutation) SC3(is_permutation, , HalfEq()) }
TWO(lexicographical) SC2(lexicographical_compare) SC2(lexicographical_compare, , Greater()) SC2(tristate_lexicographical_compare) SC2(tristate_lexicographical_compare, , Greater()) }
TWO(search) IT2(search) IT2(search, , HalfEq()) IT2(find_end) IT2(find_end, , HalfEq()) }
TWO(find_first_of) IT2(find_first_of) IT2(find_first_of, , HalfEq()) }
#define SRT for (int i = 1; i < s.n; ++i) ASSUME(s[i - 1] <= s[i]); for (int i = 1; i < t.n; ++i) ASSUME(t[i - 1] <= t[i]);
TWO(includes) SRT SC2(includes) SC2(includes, , HalfLess()) }
TWO(find_difference) SRT PA2(find_difference) PA2(find_difference, , HalfLess()) PA2(find_intersection) PA2(find_intersection, , HalfLess()) PA2(find_symmetric_difference) PA2(find_symmetric_difference, , HalfLess()) }
#define TR2(F, ...) { auto w = sprout::F(b, e, c, d __VA_ARGS__); auto x = R::F(g, h __VA_ARGS__); CHECK(x == w); }
TWO(next_set) SRT TR2(next_difference) TR2(next_difference, , HalfLess()) TR2(next_intersection) TR2(next_intersection, , HalfLess()) TR2(next_symmetric_difference) TR2(next_symmetric_difference, , HalfLess()) TR2(next_union) TR2(next_union, , HalfLess()) }
// ---- numeric
ONE(accumulate) SC1(accumulate, , v) SC1(accumulate, , v, Add3()) SC1(accumulate, , 1000) SC1(reduce) SC1(reduce, , v) SC1(reduce, , v, Add3()) SC1(reduce, , 1000) SC1(transform_reduce, , v, Add3(), Un()) }
TWO(inner_product) ASSUME(s.n <= t.n); sc v = vp::nd<sc>(); SC3(inner_product, , v) SC3(inner_product, , v, Add3(), Mul()) SC3(transform_reduce, , v) SC3(transform_reduce, , v, Add3(), Mul()) }
// ---- copying forms: a container of the same size with the result in it; as a window of exactly the result
template <class X, class Y> void eqa(X const& x, Y const& y) { auto i = x.begin(); auto j = y.begin(); for (; i != x.end() && j != y.end(); ++i, ++j) CHECK(*i == *j); CHECK(i == x.end() && j == y.end()); }
#define CP1(F, ...) { eqa(R::fixed::F(g, o __VA_ARGS__), sprout::fixed::F(b, e, o __VA_ARGS__)); eqa(R::fixed::F<A4>(g __VA_ARGS__), sprout::fixed::F<A4>(b, e __VA_ARGS__)); auto x = R::fit::F(g, o __VA_ARGS__); auto y = sprout::fit::F(b, e, o __VA_ARGS__); eqa(x, y); CHECK(x.to_first() == y.to_first()); CHECK(x.to_last() == y.to_last()); }
#define CPY(F) HARNESS(F) { S s; auto const g = rg<KRa>(s); auto b = g.begin(), e = g.end(); A4 const o = nd_array<sc, 4>(); sc v = vp::nd<sc>(), w = vp::nd<sc>(); P3 p = { vp::nd<sc>() }; (void)v; (void)w; (void)p;
CPY(c_copy) CP1(copy) CP1(copy_backward) CP1(reverse_copy) }
CPY(c_copy_if) CP1(copy_if, , p) CP1(copy_while, , p) CP1(copy_until, , p) }
CPY(c_remove) CP1(remove_copy, , v) CP1(remove_copy_if, , p) }
CPY(c_replace) CP1(replace_copy, , v, w) CP1(replace_copy_if, , p, w) }
CPY(c_clamp) ASSUME(v <= w); CP1(clamp_range_copy, , v, w) CP1(clamp_range_copy, , w, v, Greater()) }
CPY(c_partition) CP1(partition_copy, , p) CP1(stable_partition_copy, , p) }
CPY(c_unique) CP1(unique_copy) CP1(unique_copy, , HalfEq()) }
CPY(c_transform) CP1(transform, , Un()) }
typedef sprout::array<unsigned, 4> U4;
#define CU1(F, ...) { eqa(R::fixed::F(g, o __VA_ARGS__), sprout::fixed::F(b, e, o __VA_ARGS__)); eqa(R::fixed::F<U4>(g __VA_ARGS__), sprout::fixed::F<U4>(b, e __VA_ARGS__)); eqa(R::fit::F(g, o __VA_ARGS__), sprout::fit::F(b, e, o __VA_ARGS__)); }
struct UAdd { typedef unsigned result_type; unsigned operator()(unsigned x, unsigned y) const { return x * 3 + y; } };
struct UUn { typedef unsigned result_type; unsigned operator()(unsigned x) const { return x * 5 + 1; } };
#define CPU(F) HARNESS(F) { Seq<unsigned, 4> s; auto const g = rg<KRa>(s); auto b = g.begin(), e = g.end(); U4 const o = nd_array<unsigned, 4>(); unsigned v = vp::nd<unsigned>(); (void)v;
CPU(c_scan) CU1(adjacent_difference) CU1(adjacent_difference, , UAdd()) CU1(partial_sum) CU1(partial_sum, , UAdd()) CU1(inclusive_scan) CU1(inclusive_scan, , UAdd()) CU1(inclusive_scan, , UAdd(), v) CU1(exclusive_scan, , v) CU1(exclusive_scan, , v, UAdd()) }
CPU(c_transform_scan) CU1(transform_exclusive_scan, , v, UAdd(), UUn()) CU1(transform_inclusive_scan, , UAdd(), UUn()) CU1(transform_inclusive_scan, , UAdd(), UUn(), v) }
CPY(c_rotate) auto m = b + vp::pick<int>(0, s.n); eqa(R::fixed::rotate_copy(g, m, o), sprout::fixed::rotate_copy(b, m, e, o)); eqa(R::fixed::rotate_copy<A4>(g, m), sprout::fixed::rotate_copy<A4>(b, m, e)); eqa(R::fit::rotate_copy(g, m, o), sprout::fit::rotate_copy(b, m, e, o)); if (!s.n) return; auto i = b + vp::pick<int>(0, s.n - 1), j = b + vp::pick<int>(0, s.n - 1); eqa(R::fixed::swap_element_copy(g, o, i, j), sprout::fixed::swap_element_copy(b, e, o, i, j)); eqa(R::fixed::swap_element_copy<A4>(g, i, j), sprout::fixed::swap_element_copy<A4>(b, e, i, j)); eqa(R::fit::swap_element_copy(g, o, i, j), sprout::fit::swap_element_copy(b, e, o, i, j)); }
#define CP2(F, ...) { eqa(R::fixed::F(g, h, o __VA_ARGS__), sprout::fixed::F(b, e, c, d, o __VA_ARGS__)); eqa(R::fixed::F<A6>(g, h __VA_ARGS__), sprout::fixed::F<A6>(b, e, c, d __VA_ARGS__)); auto x = R::fit::F(g, h, o __VA_ARGS__); auto y = sprout::fit::F(b, e, c, d, o __VA_ARGS__); eqa(x, y); }
#define CPT(F) HARNESS(F) { S3 s, t; auto const g = rg<KRa>(s); auto const h = rg<KRa>(t); auto b = g.begin(), e = g.end(), c = h.begin(), d = h.end(); A6 const o = nd_array<sc, 6>(); (void)d; SRT
CPT(c_merge) CP2(merge) CP2(merge, , HalfLess()) }
CPT(c_union) CP2(set_union) CP2(set_union, , HalfLess()) }
CPT(c_intersection) CP2(set_intersection) CP2(set_intersection, , HalfLess()) }
CPT(c_difference) CP2(set_difference) CP2(set_difference, , HalfLess()) }
CPT(c_symmetric) CP2(set_symmetric_difference) CP2(set_symmetric_difference, , HalfLess()) }
CPT(c_transform2) ASSUME(s.n <= t.n); eqa(R::fixed::transform(g, h, o, Mul()), sprout::fixed::transform(b, e, c, o, Mul())); eqa(R::fixed::transform<A6>(g, h, Mul()), sprout::fixed::transform<A6>(b, e, c, Mul())); eqa(R::fit::transform(g, h, o, Mul()), sprout::fit::transform(b, e, c, o, Mul())); }
// the container forms of the modifying algorithms (copying, on a whole container)
HARNESS(whole) { A4 a = nd_array<sc, 4>(); sc v = vp::nd<sc>(), w = vp::nd<sc>(); P3 p = { vp::nd<sc>() }; eqa(R::fixed::copy(a, A6{{}}), sprout::fixed::copy(a.begin(), a.end(), A6{{}})); sc q[3] = { vp::nd<sc>(), vp::nd<sc>(), vp::nd<sc>() }; eqa(R::fixed::copy(q, a), sprout::fixed::copy(q + 0, q + 3, a)); CHECK(R::count(q, v) == (q[0] == v) + (q[1] == v) + (q[2] == v)); CHECK(R::find(a, v) == sprout::find(a.begin(), a.end(), v)); A4 const& ca = a; CHECK(R::find(ca, v) == sprout::find(ca.begin(), ca.end(), v)); CHECK(R::find_if(q, p) == sprout::find_if(q + 0, q + 3, p)); auto u = sprout::fixed::copy_if(a.begin(), a.end(), a, p); (void)u; eqa(R::fixed::replace_copy(a, a, v, w), sprout::fixed::replace_copy(a.begin(), a.end(), a, v, w)); }
// ---- in place
#define MUT(F) HARNESS(F) { A4 a = nd_array<sc, 4>(), z = a; sc v = vp::nd<sc>(), w = vp::nd<sc>(); P3 p = { vp::nd<sc>() }; (void)v; (void)w; (void)p;
#define MU0(F, ...) { R::F(a __VA_ARGS__); sprout::F(z.begin(), z.end() __VA_ARGS__); eqa(a, z); }
#define MU1(F, ...) { A4 y = a; auto r = R::F(a __VA_ARGS__); auto q = sprout::F(z.begin(), z.end() __VA_ARGS__); CHECK(r - a.begin() == q - z.begin()); eqa(a, z); A4 x = y; auto k = R::F<R::return_begin_found>(x __VA_ARGS__); CHECK(k.begin() == x.begin()); CHECK(k.end() - x.begin() == q - z.begin()); eqa(x, z); x = y; auto l = R::F<R::return_found_end>(x __VA_ARGS__); CHECK(l.end() == x.end()); CHECK(l.begin() - x.begin() == q - z.begin()); }
MUT(m_fill) R::fill(a, v); for (int i = 0; i < 4; ++i) CHECK(a[i] == v); int n = 0; struct G { int* n; sc v; sc operator()() const { return v + 3 * (*n)++; } }; G f = { &n, v }; R::generate(a, f); for (int i = 0; i < 4; ++i) CHECK(a[i] == (sc)(v + 3 * i)); CHECK(n == 4); R::iota(a, v); for (int i = 0; i < 4; ++i) CHECK(a[i] == (sc)(v + i)); }
MUT(m_replace) MU0(replace, , v, w) MU0(replace_if, , p, w) }
MUT(m_reverse) MU0(reverse) int k = vp::pick<int>(0, 4); A4 y = a, x = a; auto r = R::rotate(a, a.begin() + k); auto q = sprout::rotate(z.begin(), z.begin() + k, z.end()); CHECK(r - a.begin() == q - z.begin()); eqa(a, z); auto m = R::rotate<R::return_found_end>(x, x.begin() + k); CHECK(m.begin() - x.begin() == q - z.begin() && m.end() == x.end()); eqa(x, z); }
MUT(m_remove) MU1(remove, , v) }
MUT(m_remove_if) MU1(remove_if, , p) }
MUT(m_unique) MU1(unique) MU1(unique, , HalfEq()) }
MUT(m_partition) MU1(partition, , p) }
MUT(m_stable_partition) MU1(stable_partition, , p) }
MUT(m_sort) MU0(sort, , HalfLess()) MU0(sort) }
MUT(m_stable_sort) MU0(stable_sort, , HalfLess()) MU0(stable_sort) }
MUT(m_heap) MU0(make_heap) MU0(pop_heap) MU0(push_heap) MU0(sort_heap) MU0(make_heap, , Greater()) MU0(pop_heap, , Greater()) MU0(push_heap, , Greater()) MU0(sort_heap, , Greater()) }
MUT(m_nth) int k = vp::pick<int>(0, 4); if (vp::flag()) { R::nth_element(a, a.begin() + k); sprout::nth_element(z.begin(), z.begin() + k, z.end()); eqa(a, z); R::nth_element(a, a.begin() + k, Greater()); sprout::nth_element(z.begin(), z.begin() + k, z.end(), Greater()); } else { R::partial_sort(a, a.begin() + k); sprout::partial_sort(z.begin(), z.begin() + k, z.end()); eqa(a, z); R::partial_sort(a, a.begin() + k, Greater()); sprout::partial_sort(z.begin(), z.begin() + k, z.end(), Greater()); } eqa(a, z); }
MUT(m_inplace_merge) int k = vp::pick<int>(0, 4); for (int i = 1; i < 4; ++i) ASSUME(i == k || a[i - 1] <= a[i]); A4 y = a, x = a; R::inplace_merge(a, a.begin() + k); sprout::inplace_merge(z.begin(), z.begin() + k, z.end()); eqa(a, z); R::inplace_merge(x, x.begin() + k, HalfLess()); sprout::inplace_merge(y.begin(), y.begin() + k, y.end(), HalfLess()); eqa(x, y); }
MUT(m_permutation) CHECK(R::next_permutation(a) == sprout::next_permutation(z.begin(), z.end())); eqa(a, z); CHECK(R::next_permutation(a, Greater()) == sprout::next_permutation(z.begin(), z.end(), Greater())); eqa(a, z); CHECK(R::prev_permutation(a) == sprout::prev_permutation(z.begin(), z.end())); eqa(a, z); CHECK(R::prev_permutation(a, Greater()) == sprout::prev_permutation(z.begin(), z.end(), Greater())); eqa(a, z); }
MUT(m_swap_ranges) A4 b = nd_array<sc, 4>(), y = b; auto r = R::swap_ranges(a, b); auto q = sprout::swap_ranges(z.begin(), z.end(), y.begin()); CHECK(r - b.begin() == q - y.begin()); eqa(a, z); eqa(b, y); }
MUT(m_gather) int k = vp::pick<int>(0, 4); auto r = R::gather(a, a.begin() + k, p); auto q = sprout::gather(z.begin(), z.end(), z.begin() + k, p); CHECK(r.first - a.begin() == q.first - z.begin() && r.second - a.begin() == q.second - z.begin()); eqa(a, z); }
MUT(m_partial_sort_copy) S s; auto const g = rg<KRa>(s); auto r = R::partial_sort_copy(g, a); auto q = sprout::partial_sort_copy(g.begin(), g.end(), z.begin(), z.end()); CHECK(r - a.begin() == q - z.begin()); eqa(a, z); auto r2 = R::partial_sort_copy(g, a, Greater()); auto q2 = sprout::partial_sort_copy(g.begin(), g.end(), z.begin(), z.end(), Greater()); CHECK(r2 - a.begin() == q2 - z.begin()); eqa(a, z); }
// ---- copying to an output iterator
#define OU1(F, ...) { sc x[8] = {}, y[8] = {}; auto r = R::F(g, x + 1 __VA_ARGS__); auto q = sprout::F(b, e, y + 1 __VA_ARGS__); CHECK(r - x == q - y); for (int i = 0; i < 8; ++i) CHECK(x[i] == y[i]); }
#define OUP(F, ...) { sc x[8] = {}, y[8] = {}; auto r = R::F(g, x + 1 __VA_ARGS__); auto q = sprout::F(b, e, y + 1 __VA_ARGS__); CHECK(r.first == q.first && r.second - x == q.second - y); for (int i = 0; i < 8; ++i) CHECK(x[i] == y[i]); }
CPY(o_copy) OU1(copy) OU1(move) OU1(reverse_copy) OU1(copy_if, , p) OUP(copy_while, , p) OUP(copy_until, , p) sc x[6] = {}, y[6] = {}; auto r = R::copy_backward(g, x + 5); auto q = sprout::copy_backward(b, e, y + 5); CHECK(r - x == q - y); r = R::move_backward(g, x + 6); q = sprout::move_backward(b, e, y + 6); CHECK(r - x == q - y); for (int i = 0; i < 6; ++i) CHECK(x[i] == y[i]); }
CPY(o_remove) OU1(remove_copy, , v) OU1(remove_copy_if, , p) OU1(replace_copy, , v, w) OU1(replace_copy_if, , p, w) OU1(unique_copy) OU1(unique_copy, , HalfEq()) }
CPY(o_transform) OU1(transform, , Un()) { sc x[6] = {}, y[6] = {}, x2[6] = {}, y2[6] = {}; auto r = R::partition_copy(g, x + 1, x2 + 0, p); auto q = sprout::partition_copy(b, e, y + 1, y2 + 0, p); CHECK(r.first - x == q.first - y && r.second - x2 == q.second - y2); for (int i = 0; i < 6; ++i) CHECK(x[i] == y[i] && x2[i] == y2[i]); } ASSUME(v <= w); OU1(clamp_range, , v, w) OU1(clamp_range, , w, v, Greater()) auto m = b + vp::pick<int>(0, s.n); sc x[4] = {}, y[4] = {}; auto r = R::rotate_copy(g, m, x + 0); auto q = sprout::rotate_copy(b, m, e, y + 0); CHECK(r - x == q - y); for (int i = 0; i < 4; ++i) CHECK(x[i] == y[i]); }
CPY(o_scan) OU1(adjacent_difference) OU1(adjacent_difference, , Add3()) OU1(partial_sum) OU1(partial_sum, , Add3()) OU1(inclusive_scan) OU1(inclusive_scan, , Add3()) OU1(inclusive_scan, , Add3(), v) OU1(exclusive_scan, , v) OU1(exclusive_scan, , v, Add3()) OU1(transform_exclusive_scan, , v, Add3(), Un()) OU1(transform_inclusive_scan, , Add3(), Un()) OU1(transform_inclusive_scan, , Add3(), Un(), v) }
#define OU2(F, ...) { sc x[8] = {}, y[8] = {}; auto r = R::F(g, h, x + 1 __VA_ARGS__); auto q = sprout::F(b, e, c, d, y + 1 __VA_ARGS__); CHECK(r - x == q - y); for (int i = 0; i < 8; ++i) CHECK(x[i] == y[i]); }
CPT(o_merge) OU2(merge) OU2(merge, , HalfLess()) }
CPT(o_set) OU2(set_union) OU2(set_union, , HalfLess()) OU2(set_intersection) OU2(set_intersection, , HalfLess()) }
CPT(o_set2) OU2(set_difference) OU2(set_difference, , HalfLess()) OU2(set_symmetric_difference) OU2(set_symmetric_difference, , HalfLess()) }
CPT(o_transform2) ASSUME(s.n <= t.n); sc x[4] = {}, y[4] = {}; auto r = R::transform(g, h, x + 0, Mul()); auto q = sprout::transform(b, e, c, y + 0, Mul()); CHECK(r - x == q - y); for (int i = 0; i < 4; ++i) CHECK(x[i] == y[i]); }
