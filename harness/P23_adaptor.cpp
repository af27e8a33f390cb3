// P23: range adaptors (r | adaptor): each compared, in every way its iterators can be walked, with the sequence its name stands for
#include "vpu.hpp"
#include "walk.hpp"
#include <sprout/range/adaptor.hpp>
#include <sprout/range/adaptor/string.hpp>
#include <sprout/range/ptr_range.hpp>
#include <sprout/range/range_container.hpp>
namespace A = sprout::adaptors;
typedef Seq<sc, 4> S; typedef Seq<sc, 3> S3;
template <class K, class Q> auto rg(Q const& s) -> sprout::range::range_container<decltype(s.template b<K>())> { return sprout::range::range_container<decltype(s.template b<K>())>(s.template b<K>(), s.template e<K>()); }
#define RA rg<KRa>(s)
#define BI rg<KBi>(s)
#define FW rg<KFwd>(s)
template <class Q> Ref<sc> sub(Q const& s, int f, int l) { Ref<sc> r; for (int i = f; i < l; ++i) r.add(s[i]); return r; }
static int mn(int a, int b) { return a < b ? a : b; }
static int mx(int a, int b) { return a < b ? b : a; }
template <class T> Ref<T> cat(Ref<T> a, Ref<T> const& b) { for (int i = 0; i < b.n; ++i) a.add(b.a[i]); return a; }
// the members of a range; its iterators walked to the end, back again, and jumped over
template <class G, class T> void mem(G const& g, Ref<T> const& r) { CHECK((int)g.size() == r.n); CHECK(g.empty() == (r.n == 0)); CHECK((int)sprout::size(g) == r.n); CHECK(sprout::empty(g) == (r.n == 0)); if (!r.n) return; CHECK(T(g.front()) == r.a[0]); CHECK(T(g.back()) == r.a[r.n - 1]); for (int i = 0; i < r.n; ++i) { CHECK(T(g[i]) == r.a[i]); CHECK(T(g.at(i)) == r.a[i]); } }
template <class G, class T> void gf(G const& g, Ref<T> const& r) { auto it = g.begin(); for (int i = 0; i < r.n; ++i, ++it) { CHECK(it != g.end()); CHECK(T(*it) == r.a[i]); } CHECK(it == g.end()); mem(g, r); }
template <class G, class T> void gb(G const& g, Ref<T> const& r) { gf(g, r); auto it = g.end(); for (int i = r.n; i-- > 0;) { CHECK(it != g.begin()); --it; CHECK(T(*it) == r.a[i]); } CHECK(it == g.begin()); }
template <class G, class T> void gr(G const& g, Ref<T> const& r) { gb(g, r); CHECK(g.end() - g.begin() == r.n); CHECK(g.begin() + r.n == g.end()); CHECK(g.end() - r.n == g.begin()); for (int i = 0; i < r.n; ++i) { CHECK(T(g.begin()[i]) == r.a[i]); CHECK(T(*(g.end() - (r.n - i))) == r.a[i]); CHECK((g.begin() + i) - g.begin() == i); CHECK(g.begin() + i < g.end()); } }
HARNESS(range_container) { S s; auto g = RA; gr(g, sub(s, 0, s.n)); gb(BI, sub(s, 0, s.n)); gf(FW, sub(s, 0, s.n)); gr(sprout::range::make_ptr_range((sc const*)s.v, (sc const*)s.v + s.n), sub(s, 0, s.n)); S3 t; auto h = rg<KRa>(t); g.swap(h); gr(g, sub(t, 0, t.n)); gr(h, sub(s, 0, s.n)); swap(g, h); gr(g, sub(s, 0, s.n)); bool th = false; try { (void)g.at(s.n); } catch (std::out_of_range const&) { th = true; } CHECK(th); }
// ---- parts of a range
HARNESS(taken) { S s; int k = vp::pick<int>(0, 6); gr(RA | A::taken(k), sub(s, 0, mn(k, s.n))); gf(FW | A::taken(k), sub(s, 0, mn(k, s.n))); }
HARNESS(dropped) { S s; int k = vp::pick<int>(0, 6); gr(RA | A::dropped(k), sub(s, mn(k, s.n), s.n)); gf(FW | A::dropped(k), sub(s, mn(k, s.n), s.n)); }
HARNESS(taken_end) { S s; int k = vp::pick<int>(0, 6); gr(RA | A::taken_end(-k), sub(s, s.n - mn(k, s.n), s.n)); gb(BI | A::taken_end(-k), sub(s, s.n - mn(k, s.n), s.n)); }
HARNESS(dropped_end) { S s; int k = vp::pick<int>(0, 6); gr(RA | A::dropped_end(-k), sub(s, 0, s.n - mn(k, s.n))); gb(BI | A::dropped_end(-k), sub(s, 0, s.n - mn(k, s.n))); }
HARNESS(window) { S s; int f = vp::pick<int>(0, 5), l = vp::pick<int>(f, 6); gr(RA | A::window(f, l), sub(s, mn(f, s.n), mn(l, s.n))); gf(FW | A::window(f, l), sub(s, mn(f, s.n), mn(l, s.n))); gr(RA | A::window(f), sub(s, mn(f, s.n), s.n)); }
HARNESS(offset) { S s; int f = vp::pick<int>(0, 5), l = vp::pick<int>(0, 5); int b = mn(f, s.n), e = mx(s.n - l, b); gr(RA | A::offset(f, -l), sub(s, b, e)); gb(BI | A::offset(f, -l), sub(s, b, e)); gr(RA | A::offset(f), sub(s, b, s.n)); }
// ---- an adaptor applied to a part
struct F1 { sc k; typedef sc result_type; sc operator()(sc x) const { return x * 3 ^ k; } };
struct F2 { typedef sc result_type; sc operator()(sc x, sc y) const { return x - 2 * y; } };
struct P3 { sc k; bool operator()(sc x) const { return ((x ^ k) & 2) != 0; } };
static Ref<sc> rev(Ref<sc> r) { for (int i = 0, j = r.n - 1; i < j; ++i, --j) { sc t = r.a[i]; r.a[i] = r.a[j]; r.a[j] = t; } return r; }
static Ref<sc> flt(P3 p, Ref<sc> q) { Ref<sc> r; for (int i = 0; i < q.n; ++i) if (p(q.a[i])) r.add(q.a[i]); return r; }
#define PART(NAME, CALL, f, l) { int b = mn(f, s.n), e = mn(l, s.n); if (e < b) e = b; P3 p = { vp::nd<sc>() }; auto const g = RA; gr(g | A::adapted_##NAME CALL(A::reversed), cat(cat(sub(s, 0, b), rev(sub(s, b, e))), sub(s, e, s.n))); gf(g | A::adapted_##NAME CALL(A::filtered(p)), cat(cat(sub(s, 0, b), flt(p, sub(s, b, e))), sub(s, e, s.n))); }
#define C1(x) (x, k)
#define CN(x) (x, -k)
HARNESS(adapted_taken) { S s; int k = vp::pick<int>(0, 5); PART(taken, C1, 0, k) }
HARNESS(adapted_dropped) { S s; int k = vp::pick<int>(0, 5); PART(dropped, C1, k, 9) }
HARNESS(adapted_taken_end) { S s; int k = vp::pick<int>(0, 5); PART(taken_end, CN, mx(s.n - k, 0), 9) }
HARNESS(adapted_dropped_end) { S s; int k = vp::pick<int>(0, 5); PART(dropped_end, CN, 0, mx(s.n - k, 0)) }
#define C2(x) (x, k, m)
HARNESS(adapted_window) { S s; int k = vp::pick<int>(0, 4), m = vp::pick<int>(k, 5); PART(window, C2, k, m) PART(window, C1, k, 9) }
HARNESS(adapted_offset) { S s; int k = vp::pick<int>(0, 4), m = -vp::pick<int>(0, 4); ASSUME(k <= s.n + m); PART(offset, C2, k, s.n + m) PART(offset, C1, k, 9) }
// ---- two ranges
HARNESS(jointed) { S3 s, t; auto const h = rg<KRa>(t); gr(RA | A::jointed(h), cat(sub(s, 0, s.n), sub(t, 0, t.n))); }
HARNESS(jointed_bi) { S3 s, t; auto const h = rg<KBi>(t); gb(BI | A::jointed(h), cat(sub(s, 0, s.n), sub(t, 0, t.n))); }
HARNESS(alternated) { S3 s, t; auto const h = rg<KRa>(t); Ref<sc> r; for (int i = 0; i < mn(s.n, t.n); ++i) { r.add(s[i]); r.add(t[i]); } gr(RA | A::alternated(h), r); gb(BI | A::alternated(h), r); }
static void srt(S3& s) { for (int i = 1; i < s.n; ++i) ASSUME(s[i - 1] <= s[i]); }
#define TWO(MK, AD, CALL) HARNESS(MK) { S3 s, t; srt(s); srt(t); Ref<sc> r; int i = 0, j = 0; while (i < s.n || j < t.n) { int c = i == s.n ? 1 : j == t.n ? -1 : s[i] < t[j] ? -1 : t[j] < s[i] ? 1 : 0; CALL } auto const h = rg<KFwd>(t); gf(FW | A::AD(h), r); gf(FW | A::AD(h, NS_SSCRISK_CEL_OR_SPROUT::less<>()), r); }
TWO(merged, merged, if (c <= 0) r.add(s[i++]); else r.add(t[j++]);)
TWO(set_union, set_union, if (c < 0) r.add(s[i++]); else if (c > 0) r.add(t[j++]); else { r.add(s[i++]); ++j; })
TWO(set_intersection, set_intersection, if (c < 0) ++i; else if (c > 0) ++j; else { r.add(s[i++]); ++j; })
TWO(set_difference, set_difference, if (c < 0) r.add(s[i++]); else if (c > 0) ++j; else { ++i; ++j; })
TWO(set_symmetric_difference, set_symmetric_difference, if (c < 0) r.add(s[i++]); else if (c > 0) r.add(t[j++]); else { ++i; ++j; })
HARNESS(transformed2) { S3 s, t; ASSUME(s.n == t.n); auto const h = rg<KRa>(t); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(F2()(s[i], t[i])); gr(RA | A::transformed(h, F2()), r); }
// ---- one range
HARNESS(transformed) { S s; F1 f = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(f(s[i])); gr(RA | A::transformed(f), r); gb(BI | A::transformed(f), r); gf(FW | A::transformed(f), r); }
HARNESS(filtered) { S s; P3 p = { vp::nd<sc>() }; gf(FW | A::filtered(p), flt(p, sub(s, 0, s.n))); gb(BI | A::filtered(p), flt(p, sub(s, 0, s.n))); }
HARNESS(removed) { S s; sc v = vp::nd<sc>(); Ref<sc> r; for (int i = 0; i < s.n; ++i) if (s[i] != v) r.add(s[i]); gf(FW | A::removed(v), r); }
HARNESS(removed_if) { S s; P3 p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (!p(s[i])) r.add(s[i]); gf(FW | A::removed_if(p), r); }
HARNESS(replaced) { S s; sc o = vp::nd<sc>(), w = vp::nd<sc>(); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i] == o ? w : s[i]); gr(RA | A::replaced(o, w), r); }
HARNESS(replaced_if) { S s; sc w = vp::nd<sc>(); P3 p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(p(s[i]) ? w : s[i]); gr(RA | A::replaced_if(p, w), r); }
HARNESS(clamped) { S s; sc lo = vp::nd<sc>(), hi = vp::nd<sc>(); ASSUME(lo <= hi); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(s[i] < lo ? lo : hi < s[i] ? hi : s[i]); gr(RA | A::clamped(lo, hi), r); gr(RA | A::clamped(hi, lo, Greater()), r); }
HARNESS(filled) { S s; sc v = vp::nd<sc>(); Ref<sc> r; for (int i = 0; i < s.n; ++i) r.add(v); gr(RA | A::filled(v), r); gr(FW | A::filled(v), r); }
HARNESS(uniqued) { S s; Ref<sc> r, q; for (int i = 0; i < s.n; ++i) { if (i == 0 || s[i] != s[i - 1]) r.add(s[i]); if (i == 0 || !HalfEq()(s[i - 1], s[i])) q.add(s[i]); } gf(FW | A::uniqued, r); gf(FW | A::uniqued(HalfEq()), q); }
struct Adj { sc k; bool operator()(sc x, sc y) const { return ((x ^ y ^ k) & 1) != 0; } };
HARNESS(adjacent_filtered) { S s; Adj p = { vp::nd<sc>() }; Ref<sc> r; for (int i = 0; i < s.n; ++i) if (i == 0 || p(s[i - 1], s[i])) r.add(s[i]); gf(FW | A::adjacent_filtered(p), r); }
HARNESS(reversed) { S s; gr(RA | A::reversed, rev(sub(s, 0, s.n))); gb(BI | A::reversed, rev(sub(s, 0, s.n))); gr(RA | A::reversed | A::reversed, sub(s, 0, s.n)); }
HARNESS(steps) { S s; int w = vp::pick<int>(1, 3), o = vp::pick<int>(0, 5); Ref<sc> r, q; for (int i = 0; i < s.n; i += w) r.add(s[i]); for (int i = o; i < s.n; i += w) q.add(s[i]); gr(RA | A::steps(w), r); gf(FW | A::steps(w), r); gr(RA | A::steps(w, o), q); gf(FW | A::steps(w, o), q); }
HARNESS(indexed) { S s; int o = vp::range<int>(-5, 5); auto g = RA | A::indexed(o); gr(g, sub(s, 0, s.n)); int i = 0; for (auto it = g.begin(); it != g.end(); ++it, ++i) CHECK(it.index() == o + i); auto h = BI | A::indexed; gb(h, sub(s, 0, s.n)); i = 0; for (auto it = h.begin(); it != h.end(); ++it, ++i) CHECK(it.index() == i); }
HARNESS(valued) { S s; int v = vp::nd<int>(); auto g = RA | A::valued(v); gr(g, sub(s, 0, s.n)); for (auto it = g.begin(); it != g.end(); ++it) CHECK(it.get() == v); }
HARNESS(counting) { S s; int f = vp::range<int>(-9, 9), d = vp::pick<int>(0, 5); Ref<int> r, q; for (int i = 0; i < d; ++i) q.add(f + i); for (int i = 0; i < mn(s.n, d); ++i) r.add(f + i); gr(A::counting(f, f + d), q); gr(RA | A::counting(f, f + d), r); gr(FW | A::counting(f, f + d), r); }
HARNESS(counting_open) { S s; unsigned f = vp::range<unsigned>(0, 9); ASSUME(f > 0); Ref<unsigned> r; for (int i = 0; i < s.n; ++i) r.add(f + i); gr(RA | A::counting(f), r); }
HARNESS(counting_open_int) { S s; int f = vp::range<int>(-9, 9); Ref<int> r; for (int i = 0; i < s.n; ++i) r.add(f + i); gr(RA | A::counting(f), r); }
HARNESS(blanked) { S s; sc v = vp::nd<sc>(); int d = vp::pick<int>(0, 5); Ref<sc> r, q; for (int i = 0; i < d; ++i) q.add(v); for (int i = 0; i < mn(s.n, d); ++i) r.add(v); gr(A::blanked(d, v), q); gr(RA | A::blanked(d, v), r); auto g = RA | A::blanked(); CHECK((int)g.size() == s.n); auto h = RA | A::blanked(d); CHECK((int)h.size() == mn(s.n, d)); }
HARNESS(outdirected) { S s; auto const g = RA; auto h = g | A::outdirected; int i = 0; for (auto it = h.begin(); it != h.end(); ++it, ++i) CHECK(*it == g.begin() + i); CHECK(i == s.n); CHECK((int)h.size() == s.n); auto k = h.end(); while (i) { --k; --i; CHECK(**k == s[i]); } }
HARNESS(copied) { S s; auto g = RA | A::copied; gr(g, sub(s, 0, s.n)); sprout::array<sc, 3> a = {{ 7, 7, 7 }}; auto d = RA | A::copied(a); for (int i = 0; i < 3; ++i) CHECK(d[i] == (i < s.n ? s[i] : 7)); sprout::array<sc, 4> b = g; for (int i = 0; i < 4; ++i) CHECK(b[i] == (i < s.n ? s[i] : 0)); }
HARNESS(moved) { S s; typedef decltype(s.mb<KRa>()) I; gr(sprout::range::range_container<I>(s.mb<KRa>(), s.me<KRa>()) | A::moved, sub(s, 0, s.n)); }
HARNESS(deep_copied) { auto a = nd_array<sc, 4>(); auto b = a | A::deep_copied; for (int i = 0; i < 4; ++i) CHECK(b[i] == a[i]); auto c = a | A::reversed | A::deep_copied; for (int i = 0; i < 4; ++i) CHECK(c[i] == a[3 - i]); sprout::array<sc, 4> d = a | A::reversed | A::copied; for (int i = 0; i < 4; ++i) CHECK(d[i] == a[3 - i]); auto e = a | A::steps(2) | A::deep_copied; CHECK(e[0] == a[0] && e[1] == a[2]); }
HARNESS(sized) { S s; auto g = RA | A::sized<3>(); gr(g, sub(s, 0, mn(3, s.n))); auto const a = nd_array<sc, 4>(); auto h = a | A::sized<2>(); CHECK(h.size() == 2 && h[0] == a[0] && h[1] == a[1]); CHECK(sprout::container_traits<decltype(h)>::static_size == 2); auto c = h | A::deep_copied; CHECK(c.size() == 2 && c[0] == a[0] && c[1] == a[1]); }
HARNESS(to_lower) { Seq<char, 4> s; Ref<char> r, q; for (int i = 0; i < s.n; ++i) { r.add(s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]); q.add(s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]); } gr(RA | A::to_lower, r); gr(RA | A::to_upper, q); }
HARNESS(size_enumed) { typedef sprout::array<sc, 3> W; sprout::array<W, 3> a; auto g = a | A::size_enumed; Ref<int> r; for (int i = 0; i < 3; ++i) r.add(3); gr(g, r); Ref<int> q; for (int i = 0; i < 3; ++i) { q.add(3); if (i < 2) q.add(2); } gr(a | A::size_enumed(2, true), q); q.add(2); gr(a | A::size_enumed(2), q); }
// ---- composed
HARNESS(composed) { S s; F1 f = { vp::nd<sc>() }; P3 p = { vp::nd<sc>() }; int k = vp::pick<int>(0, 3); Ref<sc> r; for (int i = s.n - 1 - k; i >= 0; --i) if (p(f(s[i]))) r.add(f(s[i])); gf(RA | A::reversed | A::dropped(k) | A::transformed(f) | A::filtered(p), r); auto const g = RA; gf(A::apply_adaptors(g, A::reversed, A::dropped(k), A::transformed(f), A::filtered(p)), r); gf(g | A::piped(A::reversed, A::dropped(k), A::transformed(f), A::filtered(p)), r); }
