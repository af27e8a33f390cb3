// P22: iterator adaptors, each walked in every way its category offers and compared with the plain sequence it stands for
#include "vpu.hpp"
#include "walk.hpp"
#include <sprout/iterator/adaptor.hpp>
#include <sprout/iterator/operation.hpp>
#include <sprout/iterator/clamp_iterator.hpp>
#include <sprout/iterator/counting_iterator.hpp>
#include <sprout/iterator/value_iterator.hpp>
#include <sprout/iterator/bytes_iterator.hpp>
#include <sprout/iterator/ptr_index_iterator.hpp>
#include <sprout/iterator/size_enum_iterator.hpp>
#include <sprout/array.hpp>
#include <climits>
#include <new>
typedef Seq<sc, 4> S;
typedef Seq<sc, 3> S3;
static Ref<sc> all(S const& s) { Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i]); return r; }
#define B(K) s.b<K>()
#define E(K) s.e<K>()
// ---- step: every wid-th element
static Ref<sc> stepped(S const& s, int w) { Ref<sc> r; for (int i = 0; i < s.n; i += w) r.add(s[i]); return r; }
template <class K> void step() { S s; int w = vp::pick<int>(1, 3); auto f = s.b<K>(), l = s.e<K>(); typedef sprout::step_iterator<decltype(f)> I; fwd(I(f, w, l), I(l, w, l), stepped(s, w)); }
HARNESS(step_fwd) { step<KFwd>(); } HARNESS(step_bi) { step<KBi>(); } HARNESS(step_ra) { step<KRa>(); }
HARNESS(step_walk) { S s; int w = vp::pick<int>(1, 3); auto f = B(KRa), l = E(KRa); typedef sprout::step_iterator<decltype(f)> I; Ref<sc> r = stepped(s, w); I b(f, w, l), e = b; for (int i = 0; i < r.n; ++i) ++e; CHECK(e.is_end() || s.n == 0); CHECK(e == I(l, w, l)); ra(b, e, r); CHECK(b.width() == w); CHECK(b.base() == f); CHECK(b.end() == l); if (s.n % w == 0) ra(b, I(l, w, l), r); }
// ---- filter, remove, remove_if
struct P3 { sc k; bool operator()(sc x) const { return ((x ^ k) & 2) != 0; } };
template <class K> void filt() { S s; P3 p = { vp::nd<sc>() }; auto f = s.b<K>(), l = s.e<K>(); Ref<sc> r; for (int i = 0; i < s.n; ++i) if (p(s[i])) r.add(s[i]); fwd(sprout::make_filter_iterator(p, f, l), sprout::make_filter_iterator(p, l, l), r); }
HARNESS(filter_fwd) { filt<KFwd>(); }
HARNESS(filter_bi) { S s; P3 p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (p(s[i])) r.add(s[i]); bid(sprout::make_filter_iterator(p, B(KBi), E(KBi)), sprout::make_filter_iterator(p, E(KBi), E(KBi)), r); }
HARNESS(remove) { S s; sc v = vp::nd<sc>(); Ref<sc> r; for (int i = 0; i < s.n; ++i) if (s[i] != v) r.add(s[i]); bid(sprout::make_remove_iterator(v, B(KBi), E(KBi)), sprout::make_remove_iterator(v, E(KBi), E(KBi)), r); }
HARNESS(remove_if) { S s; P3 p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (!p(s[i])) r.add(s[i]); bid(sprout::make_remove_if_iterator(p, B(KRa), E(KRa)), sprout::make_remove_if_iterator(p, E(KRa), E(KRa)), r); }
// ---- while: the longest prefix
HARNESS(while_) { S s; P3 p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n && p(s[i]); ++i) r.add(s[i]); fwd(sprout::make_while_iterator(p, B(KFwd), E(KFwd)), sprout::make_while_iterator(p, E(KFwd), E(KFwd)), r); }
// ---- adjacent filter, unique: the first element, and every element for which pred(the one before, it) holds
struct Adj { sc k; bool operator()(sc x, sc y) const { return ((x ^ y ^ k) & 1) != 0; } };
HARNESS(unique) { S s; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (i == 0 || s[i] != s[i - 1]) r.add(s[i]); fwd(sprout::make_unique_iterator(B(KFwd), E(KFwd)), sprout::make_unique_iterator(E(KFwd), E(KFwd)), r); }
HARNESS(unique_pred) { S s; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (i == 0 || !HalfEq()(s[i - 1], s[i])) r.add(s[i]); fwd(sprout::make_unique_iterator(HalfEq(), B(KFwd), E(KFwd)), sprout::make_unique_iterator(HalfEq(), E(KFwd), E(KFwd)), r); }
HARNESS(adjacent) { S s; Adj p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (i == 0 || p(s[i - 1], s[i])) r.add(s[i]); fwd(sprout::make_adjacent_filter_iterator(p, B(KFwd), E(KFwd)), sprout::make_adjacent_filter_iterator(p, E(KFwd), E(KFwd)), r); }
// ---- transform, one and two sequences; replace; clamp
struct F1 { sc k; typedef sc result_type; sc operator()(sc x) const { return x * 3 ^ k; } };
struct F2 { typedef sc result_type; sc operator()(sc x, sc y) const { return x - 2 * y; } };
HARNESS(transform) { S s; F1 f = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(f(s[i])); ra(sprout::make_transform_iterator(B(KRa), f), sprout::make_transform_iterator(E(KRa), f), r); }
HARNESS(transform_fwd) { S s; F1 f = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(f(s[i])); fwd(sprout::make_transform_iterator(B(KFwd), f), sprout::make_transform_iterator(E(KFwd), f), r); bid(sprout::make_transform_iterator(B(KBi), f), sprout::make_transform_iterator(E(KBi), f), r); }
HARNESS(transform2) { S s, t; ASSUME(t.n == s.n); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(F2()(s[i], t[i])); ra(sprout::make_transform_iterator(B(KRa), t.b<KRa>(), F2()), sprout::make_transform_iterator(E(KRa), t.e<KRa>(), F2()), r); }
HARNESS(replace) { S s; sc o = vp::nd<sc>(), w = vp::nd<sc>(); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i] == o ? w : s[i]); ra(sprout::make_replace_iterator(B(KRa), o, w), sprout::make_replace_iterator(E(KRa), o, w), r); }
HARNESS(replace_if) { S s; sc w = vp::nd<sc>(); P3 p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(p(s[i]) ? w : s[i]); ra(sprout::make_replace_if_iterator(B(KRa), p, w), sprout::make_replace_if_iterator(E(KRa), p, w), r); }
HARNESS(clamp) { S s; sc lo = vp::nd<sc>(), hi = vp::nd<sc>(); ASSUME(lo <= hi); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i] < lo ? lo : hi < s[i] ? hi : s[i]); ra(sprout::make_clamp_iterator(B(KRa), lo, hi), sprout::make_clamp_iterator(E(KRa), lo, hi), r); Greater g; for (int i = 0; i < s.n; ++i) r.a[i] = s[i] > hi ? hi : s[i] < lo ? lo : s[i]; ra(sprout::make_clamp_iterator(B(KRa), hi, lo, g), sprout::make_clamp_iterator(E(KRa), hi, lo, g), r); }
// ---- indexed, valued, move, counting, value
HARNESS(indexed) { S s; int o = vp::range<int>(-5, 5); auto b = sprout::make_indexed_iterator(B(KRa), o), e = sprout::make_indexed_iterator(E(KRa), o + s.n); ra(b, e, all(s)); int i = 0; for (auto it = b; it != e; ++it, ++i) CHECK(it.index() == o + i); int j = vp::pick<int>(0, s.n), k = vp::pick<int>(0, s.n); CHECK(((b + j) + (k - j)).index() == o + k); CHECK(((b + j) - (j - k)).index() == o + k); auto z = e; for (i = s.n; i > j; --i) { if (i & 1) --z; else z = sprout::prev(z); } CHECK(z.index() == o + j); z += k - j; CHECK(z.index() == o + k); z -= k - j; CHECK(z.index() == o + j); if (!s.n) return; auto w = b; w++; CHECK(w.index() == o + 1); w--; CHECK(w.index() == o); w = sprout::next(b); if (s.n) CHECK(w.index() == o + 1); CHECK(z.base() - s.b<KRa>() == j); w.swap(z); CHECK(w.index() == o + j); }
HARNESS(valued) { S s; int v = vp::nd<int>(); auto b = sprout::make_valued_iterator(B(KRa), v), e = sprout::make_valued_iterator(E(KRa), v); ra(b, e, all(s)); int j = vp::pick<int>(0, s.n); auto z = b + j; CHECK(z.get() == v); CHECK((e - j).get() == v); if (j < s.n) { ++z; CHECK(z.get() == v); z = sprout::prev(z); CHECK(z.get() == v); } z -= j; CHECK(z.get() == v); auto q = sprout::make_valued_iterator(E(KRa), v + 1u > 0u ? 7 : 8); q.swap(z); CHECK(q.get() == v); }
HARNESS(move_) { S s; ra(sprout::make_move_iterator(s.mb<KRa>()), sprout::make_move_iterator(s.me<KRa>()), all(s)); }
HARNESS(counting) { int f = vp::range<int>(-1000, 1000), n = vp::pick<int>(0, 4); Ref<int> r; for (int i = 0; i < n; ++i) r.add(f + i); ra(sprout::make_counting_iterator(f), sprout::make_counting_iterator(f + n), r); }
HARNESS(counting_uc) { int f = vp::range<int>(0, 250), n = vp::pick<int>(0, 4); Ref<uc> r; for (int i = 0; i < n; ++i) r.add((uc)(f + i)); ra(sprout::make_counting_iterator((uc)f), sprout::make_counting_iterator((uc)(f + n)), r); }
HARNESS(counting_ptr) { sc a[4]; int n = vp::pick<int>(0, 4); Ref<sc const*> r; for (int i = 0; i < n; ++i) r.add(a + i); ra(sprout::make_counting_iterator((sc const*)a), sprout::make_counting_iterator((sc const*)a + n), r); }
HARNESS(value) { sc v = vp::nd<sc>(); int n = vp::pick<int>(0, 4); Ref<sc> r; for (int i = 0; i < n; ++i) r.add(v); typedef sprout::value_iterator<sc const&> I; typedef sprout::value_iterator<sc> J; ra(I(v, n), I(v, 0), r); ra(J(v, n), J(v, 0), r); I b(v, n); if (n) CHECK(&*b == &v && b.operator->() == &v); }
HARNESS(ptr_index) { S s; auto b = sprout::ptr_index((sc const*)s.v), e = sprout::ptr_index((sc const*)s.v, s.n); ra(b, e, all(s)); CHECK(b.base() == s.v); }
// ---- two sequences: jointed, alternating, merged, and as sets
HARNESS(joint) { S3 s, t; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i]); for (int i = 0; i < t.n; ++i) r.add(t[i]); ra(sprout::make_joint_iterator(s.b<KRa>(), s.e<KRa>(), t.b<KRa>(), t.b<KRa>()), sprout::make_joint_iterator(s.e<KRa>(), s.e<KRa>(), t.b<KRa>(), t.e<KRa>()), r); }
HARNESS(joint_bi) { S3 s, t; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i]); for (int i = 0; i < t.n; ++i) r.add(t[i]); bid(sprout::make_joint_iterator(s.b<KBi>(), s.e<KBi>(), t.b<KBi>(), t.b<KBi>()), sprout::make_joint_iterator(s.e<KBi>(), s.e<KBi>(), t.b<KBi>(), t.e<KBi>()), r); }
HARNESS(alternate) { S3 s, t; ASSUME(s.n == t.n); Ref<sc> r; for (int i = 0; i < s.n; ++i) { r.add(s[i]); r.add(t[i]); } ra(sprout::make_alternate_iterator(s.b<KRa>(), t.b<KRa>()), sprout::make_alternate_iterator(s.e<KRa>(), t.e<KRa>()), r); }
HARNESS(alternate_bi) { S3 s, t; ASSUME(s.n == t.n); Ref<sc> r; for (int i = 0; i < s.n; ++i) { r.add(s[i]); r.add(t[i]); } bid(sprout::make_alternate_iterator(s.b<KBi>(), t.b<KBi>()), sprout::make_alternate_iterator(s.e<KBi>(), t.e<KBi>()), r); }
static void srt(S3& s) { for (int i = 1; i < s.n; ++i) ASSUME(s[i - 1] <= s[i]); }
#define TWO(MK, CALL) HARNESS(MK) { S3 s, t; srt(s); srt(t); Ref<sc> r; int i = 0, j = 0; while (i < s.n || j < t.n) { int c = i == s.n ? 1 : j == t.n ? -1 : s[i] < t[j] ? -1 : t[j] < s[i] ? 1 : 0; CALL } fwd(sprout::make_##MK##_iterator(s.b<KFwd>(), s.e<KFwd>(), t.b<KFwd>(), t.e<KFwd>()), sprout::make_##MK##_iterator(s.e<KFwd>(), s.e<KFwd>(), t.e<KFwd>(), t.e<KFwd>()), r); }
TWO(merge, if (c <= 0) r.add(s[i++]); else r.add(t[j++]);)
TWO(set_union, if (c < 0) r.add(s[i++]); else if (c > 0) r.add(t[j++]); else { r.add(s[i++]); ++j; })
TWO(set_intersection, if (c < 0) ++i; else if (c > 0) ++j; else { r.add(s[i++]); ++j; })
TWO(set_difference, if (c < 0) r.add(s[i++]); else if (c > 0) ++j; else { ++i; ++j; })
TWO(set_symmetric_difference, if (c < 0) r.add(s[i++]); else if (c > 0) r.add(t[j++]); else { ++i; ++j; })
// a user-supplied order under which different elements are equivalent: the first sequence's come first
HARNESS(merge_comp) { Seq<uc, 3> s, t; for (int i = 1; i < s.n; ++i) ASSUME(!HalfLess()(s[i], s[i - 1])); for (int i = 1; i < t.n; ++i) ASSUME(!HalfLess()(t[i], t[i - 1])); Ref<uc> r; int i = 0, j = 0; while (i < s.n || j < t.n) if (j == t.n || (i < s.n && !HalfLess()(t[j], s[i]))) r.add(s[i++]); else r.add(t[j++]); fwd(sprout::make_merge_iterator(s.b<KFwd>(), s.e<KFwd>(), t.b<KFwd>(), t.e<KFwd>(), HalfLess()), sprout::make_merge_iterator(s.e<KFwd>(), s.e<KFwd>(), t.e<KFwd>(), t.e<KFwd>(), HalfLess()), r); }
HARNESS(union_comp) { Seq<uc, 3> s, t; for (int i = 1; i < s.n; ++i) ASSUME(!HalfLess()(s[i], s[i - 1])); for (int i = 1; i < t.n; ++i) ASSUME(!HalfLess()(t[i], t[i - 1])); Ref<uc> r; int i = 0, j = 0; while (i < s.n || j < t.n) if (j == t.n || (i < s.n && HalfLess()(s[i], t[j]))) r.add(s[i++]); else if (i == s.n || HalfLess()(t[j], s[i])) r.add(t[j++]); else { r.add(s[i++]); ++j; } fwd(sprout::make_set_union_iterator(s.b<KFwd>(), s.e<KFwd>(), t.b<KFwd>(), t.e<KFwd>(), HalfLess()), sprout::make_set_union_iterator(s.e<KFwd>(), s.e<KFwd>(), t.e<KFwd>(), t.e<KFwd>(), HalfLess()), r); }
// ---- a range inserted at a position; a sequence with a window of it replaced
HARNESS(insert_range) { S3 s, t; int p = vp::pick<int>(0, s.n); Ref<sc> r; for (int i = 0; i < p; ++i) r.add(s[i]); for (int i = 0; i < t.n; ++i) r.add(t[i]); for (int i = p; i < s.n; ++i) r.add(s[i]); auto P = s.b<KRa>() + p; ra(sprout::make_insert_range_iterator(s.b<KRa>(), P, t.b<KRa>(), t.b<KRa>(), t.e<KRa>()), sprout::make_insert_range_iterator(s.e<KRa>(), P, t.e<KRa>(), t.b<KRa>(), t.e<KRa>()), r); }
HARNESS(remake) { S s; int o = vp::pick<int>(0, s.n), k = vp::pick<int>(0, s.n - o); Seq<sc, 4> t(0); ASSUME(t.n <= k); Ref<sc> r = all(s); for (int i = 0; i < t.n; ++i) r.a[o + i] = t[i]; bid(sprout::make_remake_iterator(B(KRa), t.b<KRa>(), t.b<KRa>(), t.e<KRa>(), (std::ptrdiff_t)o, (std::ptrdiff_t)(o + k)), sprout::make_remake_iterator(E(KRa), t.e<KRa>(), t.b<KRa>(), t.e<KRa>(), (std::ptrdiff_t)(o - s.n), (std::ptrdiff_t)(o + k - s.n)), r); }
// ---- the bytes of integers, most significant first or last
typedef Seq<unsigned short, 3> B3; static Ref<int> big(B3 const& s) { Ref<int> r; for (int i = 0; i < s.n; ++i) { r.add(s[i] >> 8); r.add(s[i] & 255); } return r; }
HARNESS(bytes_big) { B3 s; ra(sprout::make_big_bytes_iterator(s.b<KRa>()), sprout::make_big_bytes_iterator(s.e<KRa>()), big(s)); }
HARNESS(bytes_default) { B3 s; ra(sprout::make_bytes_iterator(s.b<KRa>()), sprout::make_bytes_iterator(s.e<KRa>()), big(s)); }
HARNESS(bytes_little) { B3 s; Ref<int> q; for (int i = 0; i < s.n; ++i) { q.add(s[i] & 255); q.add(s[i] >> 8); } ra(sprout::make_little_bytes_iterator(s.b<KRa>()), sprout::make_little_bytes_iterator(s.e<KRa>()), q); }
typedef Seq<unsigned, 2> B4;
HARNESS(bytes4_big) { B4 s; Ref<int> r; for (int i = 0; i < s.n; ++i) for (int k = 0; k < 4; ++k) r.add(s[i] >> (24 - 8 * k) & 255); bid(sprout::make_big_bytes_iterator(s.b<KBi>()), sprout::make_big_bytes_iterator(s.e<KBi>()), r); }
HARNESS(bytes4_little) { B4 s; Ref<int> q; for (int i = 0; i < s.n; ++i) for (int k = 0; k < 4; ++k) q.add(s[i] >> 8 * k & 255); bid(sprout::make_little_bytes_iterator(s.b<KBi>()), sprout::make_little_bytes_iterator(s.e<KBi>()), q); }
// ---- the lengths of the words of a sequence of sequences
typedef sprout::array<sc, 3> W3;
HARNESS(size_enum) { W3 a[3]; int n = vp::pick<int>(0, 3); Ref<int> r; for (int i = 0; i < n; ++i) r.add(3); ra(sprout::make_size_enum_iterator((W3 const*)a), sprout::make_size_enum_iterator((W3 const*)a + n), r); }
HARNESS(size_enum_sep) { W3 a[3]; int n = vp::pick<int>(0, 3); Ref<int> q; for (int i = 0; i < n; ++i) { q.add(3); q.add(2); } ra(sprout::make_size_enum_iterator((W3 const*)a, 2), sprout::make_size_enum_iterator((W3 const*)a + n, 2), q); }
// ---- saturating arithmetic of the distances
#include <sprout/utility/limited.hpp>
template <class T> T sat(__int128 x, T lo, T hi) { return x < lo ? lo : x > hi ? hi : (T)x; }
HARNESS(limited_plus) { int a = vp::nd<int>(), b = vp::nd<int>(); CHECK(sprout::limited::plus(a, b) == sat<int>((__int128)a + b, INT_MIN, INT_MAX)); long c = vp::nd<long>(), d = vp::nd<long>(); CHECK(sprout::limited::plus(c, d) == sat<long>((__int128)c + d, LONG_MIN, LONG_MAX)); }
HARNESS(limited_twice) { long c = vp::nd<long>(); CHECK(sprout::limited::multiplies(c, 2) == sat<long>((__int128)c * 2, LONG_MIN, LONG_MAX)); CHECK(sprout::limited::multiplies(2, c) == sat<long>((__int128)c * 2, LONG_MIN, LONG_MAX)); }
HARNESS(limited_minus_once) { long c = vp::nd<long>(); CHECK(sprout::limited::multiplies(c, -1) == sat<long>(-(__int128)c, LONG_MIN, LONG_MAX)); int i = vp::nd<int>(); CHECK(sprout::limited::multiplies(-1, i) == sat<int>(-(__int128)i, INT_MIN, INT_MAX)); }
