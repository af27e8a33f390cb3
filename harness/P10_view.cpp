// P10: sprout::basic_string_view denotes exactly its [data, data + size) characters; nothing outside is read
#include "vpu.hpp"
#include <stdexcept>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#ifndef CH
#define CH char
#endif
// VP-ONLY: char -DCH=char
// VP-VARIANT: char16 -DCH=char16_t
// VP-VARIANT: ptr -DCH=char -DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION
typedef std::make_unsigned<CH>::type UCH;
typedef std::size_t sz;
typedef sprout::basic_string_view<CH> View;
static const sz NP = (sz)-1;
static const int H = VP_THOROUGH ? 5 : 4, D = 3;
// n characters at the very end of an object: no terminator follows
template <int M> struct Txt { CH buf[M]; CH* b; int n; explicit Txt(int lo = 0) { n = vp::pick<int>(lo, M); b = buf + (M - n); for (int i = 0; i < n; ++i) { b[i] = vp::nd<CH>(); ASSUME(b[i] != 0); } } View view() const { return View(b, (sz)n); } };
template <int M> struct ZTxt { CH b[M + 1]; int n; explicit ZTxt(int lo = 0) { n = vp::pick<int>(lo, M); for (int i = 0; i < n; ++i) { b[i] = vp::nd<CH>(); ASSUME(b[i] != 0); } b[n] = 0; } };
template <class F> int thrown(F f) { try { f(); return 0; } catch (std::length_error const&) { return 1; } catch (std::out_of_range const&) { return 2; } }
void is(View v, CH const* p, sz n) { CHECK(v.data() == p); CHECK(v.size() == n); CHECK(v.length() == n); CHECK(v.empty() == (n == 0)); }
HARNESS(ctor) { Txt<H> t; ZTxt<H> z; is(t.view(), t.b, t.n); is(View((CH const*)z.b), z.b, z.n); View d; CHECK(d.size() == 0); CHECK(d.empty()); View c(t.view()); is(c, t.b, t.n); d = c; is(d, t.b, t.n); is(sprout::to_string_view((CH const*)t.b, (sz)t.n), t.b, t.n); is(sprout::to_string_view(c), t.b, t.n); sprout::basic_string<CH, H> s((CH const*)z.b); is(View(s), s.data(), z.n); is(sprout::to_string_view(s), s.data(), z.n); }
HARNESS(to_string) { ZTxt<H> z; int off = vp::pick<int>(0, H); ASSUME(off <= z.n); View v((CH const*)z.b + off); int r = thrown([&] { auto s = v.to_string<3>(); CHECK((int)s.size() == z.n - off); for (int i = 0; i < z.n - off; ++i) CHECK(s[i] == z.b[off + i]); }); CHECK(r == (z.n - off > 3)); }
HARNESS(to_string_unterminated) { Txt<H> t; int r = thrown([&] { auto s = t.view().to_string<3>(); CHECK((int)s.size() == t.n); for (int i = 0; i < t.n; ++i) CHECK(s[i] == t.b[i]); }); CHECK(r == (t.n > 3)); }
HARNESS(access) { Txt<H> t; View const v = t.view(); sz i = vp::nd<sz>(); int r = thrown([&] { CHECK(&v.at(i) == t.b + i); CHECK(&v[i] == t.b + i); }); CHECK(r == (i >= (sz)t.n ? 2 : 0)); if (t.n) { CHECK(&v.front() == t.b); CHECK(&v.back() == t.b + t.n - 1); }
  int j = 0; for (auto p = v.begin(); p != v.end(); ++p, ++j) CHECK(*p == t.b[j]); CHECK(j == t.n); for (auto p = v.rbegin(); p != v.rend(); ++p) CHECK(*p == t.b[--j]); CHECK(j == 0); for (auto p = v.cbegin(); p != v.cend(); ++p, ++j) CHECK(*p == t.b[j]); for (auto p = v.crbegin(); p != v.crend(); ++p) CHECK(*p == t.b[--j]); CHECK(j == 0); View m = v; for (auto p = m.begin(); p != m.end(); ++p, ++j) CHECK(*p == t.b[j]); CHECK(j == t.n); }
HARNESS(trim) { Txt<H> t; View const v = t.view(); sz k = vp::nd<sz>(); sz m = k < (sz)t.n ? k : (sz)t.n; is(v.remove_prefix(k), t.b + m, t.n - m); is(v.remove_suffix(k), t.b, t.n - m); View a = v, b = v; a.remove_prefix(k); b.remove_suffix(k); is(a, t.b + m, t.n - m); is(b, t.b, t.n - m); a.swap(b); is(b, t.b + m, t.n - m); is(a, t.b, t.n - m); sprout::swap(a, b); is(a, t.b + m, t.n - m); a.clear(); CHECK(a.empty()); is(v, t.b, t.n); }
HARNESS(substr) { Txt<H> t; View const v = t.view(); sz p = vp::nd<sz>(), k = vp::nd<sz>(); int r = thrown([&] { sz m = k < (sz)t.n - p ? k : (sz)t.n - p; is(v.substr(p, k), t.b + p, m); is(v.substr(p), t.b + p, t.n - p); }); CHECK(r == (p > (sz)t.n ? 2 : 0)); is(v.substr(), t.b, t.n); }
HARNESS(copy) { Txt<H> t; View const v = t.view(); int p = vp::pick<int>(0, H + 1); sz k = vp::nd<sz>(); CH o[H + 2]; for (int i = 0; i < H + 2; ++i) o[i] = 7; sz m = p > t.n ? 0 : k < (sz)(t.n - p) ? k : t.n - p; int r = thrown([&] { CHECK(v.copy(o + 0, k, (sz)p) == m); }); CHECK(r == (p > t.n ? 2 : 0)); for (int i = 0; i < H + 2; ++i) CHECK(o[i] == ((sz)i < m ? t.b[p + i] : 7)); }
template <class T> bool match(Txt<H> const& h, int i, T const& d) { bool ok = i + d.n <= h.n; for (int j = 0; j < d.n; ++j) if (i + j < h.n) ok &= h.b[i + j] == d.b[j]; return ok; }
template <class T> bool in(T const& d, CH c) { bool r = false; for (int j = 0; j < d.n; ++j) r |= d.b[j] == c; return r; }
struct Hay { Txt<H> h; View s; sz p; Hay(bool wp = true) : s(h.view()) { int k = wp ? vp::pick<int>(0, H + 1) : 0; if (k <= H) p = (sz)k; else if (sizeof(CH) > 1) p = NP; else { p = vp::nd<sz>(); ASSUME(p > (sz)H); } } sz first(sz best, int i, bool c) const { return c && (sz)i >= p && best == NP ? (sz)i : best; } sz last(sz best, int i, bool c) const { return c && (sz)i <= p ? (sz)i : best; } };
#define FIND(name, upto, dir, cond) \
  HARNESS(name##_str) { Hay q; Txt<D> d; Txt<H> const& h = q.h; sz e = NP; for (int i = 0; i < (upto); ++i) e = q.dir(e, i, cond); CHECK(q.s.name(d.view(), q.p) == e); CHECK(q.s.name((CH const*)d.b, q.p, (sz)d.n) == e); } \
  HARNESS(name##_ptr) { Hay q; ZTxt<2> d; Txt<H> const& h = q.h; sz e = NP; for (int i = 0; i < (upto); ++i) e = q.dir(e, i, cond); CHECK(q.s.name((CH const*)d.b, q.p) == e); }
FIND(find, h.n + 1, first, match(h, i, d))
FIND(rfind, h.n + 1, last, match(h, i, d))
FIND(find_first_of, h.n, first, in(d, h.b[i]))
FIND(find_last_of, h.n, last, in(d, h.b[i]))
FIND(find_first_not_of, h.n, first, !in(d, h.b[i]))
FIND(find_last_not_of, h.n, last, !in(d, h.b[i]))
HARNESS(find_char) { Hay q; CH c = vp::nd<CH>(); ASSUME(c != 0); Txt<H> const& h = q.h; sz f = NP, l = NP, fn = NP, ln = NP; for (int i = 0; i < h.n; ++i) { f = q.first(f, i, h.b[i] == c); l = q.last(l, i, h.b[i] == c); fn = q.first(fn, i, h.b[i] != c); ln = q.last(ln, i, h.b[i] != c); }
  CHECK(q.s.find(c, q.p) == f); CHECK(q.s.find_first_of(c, q.p) == f); CHECK(q.s.rfind(c, q.p) == l); CHECK(q.s.find_last_of(c, q.p) == l); CHECK(q.s.find_first_not_of(c, q.p) == fn); CHECK(q.s.find_last_not_of(c, q.p) == ln); }
HARNESS(find_default) { Hay q(false); ZTxt<2> d; View n((CH const*)d.b); CH c = vp::nd<CH>(); ASSUME(c != 0); CHECK(q.s.find(n) == q.s.find(n, 0)); CHECK(q.s.rfind(n) == q.s.rfind(n, NP)); CHECK(q.s.find_first_of(n) == q.s.find_first_of(n, 0)); CHECK(q.s.find_last_of(n) == q.s.find_last_of(n, NP)); CHECK(q.s.find_first_not_of(n) == q.s.find_first_not_of(n, 0)); CHECK(q.s.find_last_not_of(n) == q.s.find_last_not_of(n, NP));
  CHECK(q.s.find(d.b + 0) == q.s.find(n, 0)); CHECK(q.s.rfind(d.b + 0) == q.s.rfind(n, NP)); CHECK(q.s.find_first_of(d.b + 0) == q.s.find_first_of(n, 0)); CHECK(q.s.find_last_of(d.b + 0) == q.s.find_last_of(n, NP)); CHECK(q.s.find_first_not_of(d.b + 0) == q.s.find_first_not_of(n, 0)); CHECK(q.s.find_last_not_of(d.b + 0) == q.s.find_last_not_of(n, NP));
  CHECK(q.s.find(c) == q.s.find(c, 0)); CHECK(q.s.rfind(c) == q.s.rfind(c, NP)); CHECK(q.s.find_first_of(c) == q.s.find_first_of(c, 0)); CHECK(q.s.find_last_of(c) == q.s.find_last_of(c, NP)); CHECK(q.s.find_first_not_of(c) == q.s.find_first_not_of(c, 0)); CHECK(q.s.find_last_not_of(c) == q.s.find_last_not_of(c, NP)); }
HARNESS(find_iter) { Hay q; ZTxt<2> d; View const n((CH const*)d.b); sz p = q.p; CHECK(q.s.find(n.begin(), p) == q.s.find(n, p)); CHECK(q.s.rfind(n.begin(), p) == q.s.rfind(n, p)); CHECK(q.s.find_first_of(n.begin(), p) == q.s.find_first_of(n, p)); CHECK(q.s.find_last_of(n.begin(), p) == q.s.find_last_of(n, p)); CHECK(q.s.find_first_not_of(n.begin(), p) == q.s.find_first_not_of(n, p)); CHECK(q.s.find_last_not_of(n.begin(), p) == q.s.find_last_not_of(n, p));
  CHECK(q.s.find(n.begin()) == q.s.find(n)); CHECK(q.s.rfind(n.begin()) == q.s.rfind(n)); CHECK(q.s.find_first_of(n.begin()) == q.s.find_first_of(n)); CHECK(q.s.find_last_of(n.begin()) == q.s.find_last_of(n)); CHECK(q.s.find_first_not_of(n.begin()) == q.s.find_first_not_of(n)); CHECK(q.s.find_last_not_of(n.begin()) == q.s.find_last_not_of(n)); CHECK(q.s.compare(n.begin()) == q.s.compare(n)); }
int cmp(CH const* a, int n, CH const* b, int m) { int r = 0; for (int i = 0; i < n && i < m; ++i) if (!r) r = (UCH)a[i] < (UCH)b[i] ? -1 : (UCH)b[i] < (UCH)a[i] ? 1 : 0; return r ? r : n < m ? -1 : n > m ? 1 : 0; }
int sgn(int x) { return x < 0 ? -1 : x > 0; }
HARNESS(compare) { Txt<H> a; ZTxt<D> b; View s = a.view(), t((CH const*)b.b); int e = cmp(a.b, a.n, b.b, b.n); CHECK(sgn(s.compare(t)) == e); CHECK(sgn(s.compare(b.b + 0)) == e); CHECK(sgn(t.compare(s)) == -e); CHECK(s.compare(s) == 0); }
HARNESS(compare_pos) { Txt<H> a; ZTxt<D> b; View s = a.view(), t((CH const*)b.b); int p1 = vp::pick<int>(0, H + 1), p2 = vp::pick<int>(0, D + 1); sz n1 = vp::nd<sz>(), n2 = vp::nd<sz>(); int l1 = p1 > a.n ? 0 : vp::concrete((int)(n1 < (sz)(a.n - p1) ? n1 : a.n - p1)), l2 = p2 > b.n ? 0 : vp::concrete((int)(n2 < (sz)(b.n - p2) ? n2 : b.n - p2));
  int r = thrown([&] { CHECK(sgn(s.compare((sz)p1, n1, t, (sz)p2, n2)) == cmp(a.b + p1, l1, b.b + p2, l2)); }); CHECK(r == (p1 > a.n || p2 > b.n ? 2 : 0)); if (p2 == 0) { r = thrown([&] { CHECK(sgn(s.compare((sz)p1, n1, t)) == cmp(a.b + p1, l1, b.b, b.n)); CHECK(sgn(s.compare((sz)p1, n1, b.b + 0)) == cmp(a.b + p1, l1, b.b, b.n)); CHECK(sgn(s.compare((sz)p1, n1, b.b + 0, (sz)l2)) == cmp(a.b + p1, l1, b.b, l2)); }); CHECK(r == (p1 > a.n ? 2 : 0)); } }
template <class A, class B> void rel(A const& x, B const& y, int e) { CHECK((x == y) == (e == 0)); CHECK((x != y) == (e != 0)); CHECK((x < y) == (e < 0)); CHECK((x > y) == (e > 0)); CHECK((x <= y) == (e <= 0)); CHECK((x >= y) == (e >= 0)); }
HARNESS(relations) { Txt<3> a; ZTxt<2> b; View s = a.view(), t((CH const*)b.b); int e = cmp(a.b, a.n, b.b, b.n); rel(s, t, e); rel(t, s, -e); CH const* p = b.b; rel(s, p, e); rel(p, s, -e); }
HARNESS(prefix_suffix) { Txt<H> a; Txt<D> b; View s = a.view(), t = b.view(); CH c = vp::nd<CH>(); CHECK(s.starts_with(t) == match(a, 0, b)); CHECK(s.ends_with(t) == (a.n >= b.n && match(a, a.n - b.n, b))); CHECK(s.starts_with(c) == (a.n && a.b[0] == c)); CHECK(s.ends_with(c) == (a.n && a.b[a.n - 1] == c)); }
