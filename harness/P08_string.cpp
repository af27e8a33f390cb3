// P08: sprout::basic_string behaves as the sequence of characters it holds
#include "vpu.hpp"
#include <initializer_list>
#include <stdexcept>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#ifndef CH
#define CH char
#endif
// VP-ONLY: char -DCH=char
// VP-VARIANT: char16 -DCH=char16_t
// VP-VARIANT: ptr -DCH=char -DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION
typedef std::make_unsigned<CH>::type UCH;
typedef std::size_t sz;
static const int N = VP_THOROUGH ? 5 : 4;
template <int M> using Str = sprout::basic_string<CH, M>;
static const sz NP = (sz)-1;
// a zero-terminated text of lo..M characters
template <int M> struct Txt {
  CH b[M + 1]; int n;
  explicit Txt(int lo = 0) { n = vp::pick<int>(lo, M); for (int i = 0; i <= M; ++i) { b[i] = vp::nd<CH>(); if (i < n) ASSUME(b[i] != 0); else if (i == n) b[i] = 0; } }
  Str<M> str() const { return Str<M>(b + 0); }
};
// the expected text
struct Ex { CH v[16]; int n; Ex() : n(0) {} void add(CH c) { v[n++] = c; } void add(CH const* s, int k) { for (int i = 0; i < k; ++i) add(s[i]); } };
template <class S> void is(S const& s, Ex const& e) {
  CHECK((int)s.size() == e.n); CHECK(s.length() == s.size()); CHECK(s.empty() == (e.n == 0)); bool ok = s.data()[e.n] == 0;
  for (int i = 0; i < e.n; ++i) { ok &= s[i] == e.v[i]; ok &= s.c_str()[i] == e.v[i]; }
  CHECK(ok);
}
template <class F> int thrown(F f) { try { f(); return 0; } catch (std::length_error const&) { return 1; } catch (std::out_of_range const&) { return 2; } }
// ---- construction
HARNESS(ctor_cstr) { Txt<N + 2> t; Ex e; e.add(t.b, t.n); Str<N> s; int r = thrown([&] { s = Str<N>(t.b + 0); }); CHECK(r == (t.n > N)); if (!r) is(s, e); else CHECK(s.size() == 0); }
HARNESS(ctor_cstr_n) { Txt<N + 2> t; int k = vp::pick<int>(0, N + 3), m = k < t.n ? k : t.n; Ex e; e.add(t.b, m); int r = thrown([&] { Str<N> s(t.b + 0, (sz)k); is(s, e); auto q = sprout::string_from_c_str<N>(t.b + 0, (sz)k); is(q, e); }); CHECK(r == (m > N)); }
HARNESS(ctor_array) { Txt<N> t; Ex e; e.add(t.b, t.n); Str<N> s(t.b); is(s, e); Str<N + 2> u(t.b); is(u, e); is(sprout::to_string(t.b), e); int k = vp::pick<int>(0, N + 1); Ex f; f.add(t.b, k < t.n ? k : t.n); Str<N> w(t.b, (sz)k); is(w, f); }
HARNESS(ctor_fill) { sz k = vp::nd<sz>(); CH c = vp::nd<CH>(); ASSUME(c != 0); Str<N> s; int r = thrown([&] { s = Str<N>(k, c); }); CHECK(r == (k > N)); if (!r) { Ex e; for (int i = 0; i < N; ++i) if ((sz)i < k) e.add(c); e.n = (int)vp::concrete(k); is(s, e); } }
template <class K> void ctor_range() { Txt<N + 2> t; Ex e; e.add(t.b, t.n); int r = thrown([&] { Str<N> s(K::make((CH const*)t.b, (CH const*)t.b + t.n, (CH const*)t.b), K::make((CH const*)t.b, (CH const*)t.b + t.n, (CH const*)t.b + t.n)); is(s, e); }); CHECK(r == (t.n > N)); }
HARNESS(ctor_range_ra) { ctor_range<KRa>(); }
HARNESS(ctor_range_in) { ctor_range<KIn>(); }
HARNESS(ctor_range_ptr) { ctor_range<KPtr>(); }
HARNESS(ctor_wider) { Txt<N> t; Str<N> a = t.str(); Ex e; e.add(t.b, t.n); Str<N + 2> b(a); is(b, e); is(sprout::stretch<N + 3>(a), e); Str<N> c(a); is(c, e); is(a, e); is(sprout::to_string(a), e); }
HARNESS(ctor_sub) { Txt<N> t; Str<N> a = t.str(); int p = vp::pick<int>(0, N); ASSUME(p <= t.n); sz k = vp::nd<sz>(); int m = vp::concrete((int)(k < (sz)(t.n - p) ? k : t.n - p)); Ex e; e.add(t.b + p, m); Str<N> s(a, (sz)p, k); is(s, e); Str<N + 1> w(a, (sz)p, k); is(w, e); Ex f; f.add(t.b + p, t.n - p); Str<N> u(a, (sz)p); is(u, f); }
HARNESS(shrink) { Txt<N> t; Str<N> a = t.str(); Ex e; e.add(t.b, t.n < 2 ? t.n : 2); is(sprout::shrink<2>(a), e); Str<2> s = sprout::shrink(a); is(s, e); Ex f; f.add(t.b, t.n); is(sprout::shrink<N>(a), f); }
HARNESS(make) { CH x = vp::nd<CH>(), y = vp::nd<CH>(), z = vp::nd<CH>(); int k = vp::concrete(x == 0 ? 0 : y == 0 ? 1 : z == 0 ? 2 : 3); CH v[3] = {x, y, z}; Ex e; e.add(v, k); is(sprout::make_string(x, y, z), e); is(sprout::make_string<CH>(x, y, z), e); }
// ---- one step from any content; the expected outcome is computed on a plain array
struct Stepper {
  Str<N>& s; Ex& e; bool ok;
  // the step adds the n characters of add behind (or before) the present ones, or replaces everything
  template <class F> void step(F f, Ex const& want) { bool over = want.n > N; int r = thrown(f); CHECK((r != 0) == over); if (!over) e = want; }
};
template <int M> void do_step(Str<N>& s, Ex& e, int op, Txt<M> const& t, CH c, sz k) {
  Stepper st{s, e, true}; Ex w;
  Str<M> ts = t.str(); sz p = k & 3; sz q = k >> 2;
  int pl = (int)p <= t.n ? t.n - (int)p : 0; int sub = q < (sz)pl ? (int)q : pl;   // length of the substring of t at p of at most q characters
  switch (op) {
  case 0: w = e; w.add(t.b, t.n); st.step([&] { auto& r = s.append(ts); CHECK(&r == &s); }, w); break;
  case 1: if ((int)p >= t.n) { CHECK(thrown([&] { s.append(ts, p, q); }) == ((int)p > t.n ? 2 : 0)); break; } w = e; sub = vp::concrete(sub); w.add(t.b + p, sub); st.step([&] { s.append(ts, p, q); }, w); break;
  case 2: w = e; w.add(t.b, t.n); st.step([&] { s.append(t.b + 0, (sz)t.n); }, w); break;
  case 3: w = e; w.add(t.b, t.n); st.step([&] { s.append(t.b + 0); }, w); break;
  case 4: { int m = vp::concrete((int)(k & 7)); w = e; for (int i = 0; i < m && w.n <= N; ++i) w.add(c); st.step([&] { s.append((sz)m, c); }, w); break; }
  case 5: w = e; w.add(t.b, t.n); st.step([&] { s.append(KFwd::make(t.b + 0, t.b + t.n, t.b + 0), KFwd::make(t.b + 0, t.b + t.n, t.b + t.n)); }, w); break;
  case 6: w = e; w.add(c); st.step([&] { s.push_back(c); }, w); break;
  case 7: if (e.n) { s.pop_back(); --e.n; } break;
  case 8: w.add(t.b, t.n); st.step([&] { auto& r = s.assign(ts); CHECK(&r == &s); }, w); break;
  case 9: if ((int)p >= t.n) { CHECK(thrown([&] { s.assign(ts, p, q); }) == ((int)p > t.n ? 2 : 0)); if ((int)p == t.n) e.n = 0; break; } sub = vp::concrete(sub); w.add(t.b + p, sub); st.step([&] { s.assign(ts, p, q); }, w); break;
  case 10: w.add(t.b, t.n); st.step([&] { s.assign(t.b + 0, (sz)t.n); }, w); break;
  case 11: w.add(t.b, t.n); st.step([&] { s = (CH const*)(t.b + 0); }, w); break;
  case 12: { int m = vp::concrete((int)(k & 7)); for (int i = 0; i < m; ++i) w.add(c); st.step([&] { s.assign((sz)m, c); }, w); break; }
  case 13: w.add(t.b, t.n); st.step([&] { s.assign(KFwd::make(t.b + 0, t.b + t.n, t.b + 0), KFwd::make(t.b + 0, t.b + t.n, t.b + t.n)); }, w); break;
  case 14: { int m = vp::concrete((int)(k & 7)); w = e; for (int i = e.n; i < m; ++i) w.add(c); w.n = m; st.step([&] { s.resize((sz)m, c); }, w); break; }
  case 15: s.clear(); e.n = 0; break;
  case 16: { Str<N> o; if (t.n <= N) { o.assign(t.b + 0, (sz)t.n); Ex was = e; s.swap(o); is(o, was); e = Ex(); e.add(t.b, t.n); sprout::swap(s, o); is(s, was); sprout::swap(s, o); } break; }
  case 17: w = e; w.add(c); st.step([&] { s <<= c; }, w); break;
  case 18: w = e; w.add(t.b, t.n); st.step([&] { s <<= t.b + 0; }, w); break;
  case 19: w = e; w.add(t.b, t.n); st.step([&] { s <<= ts; }, w); break;
  case 20: w.add(c); w.add(e.v, e.n); st.step([&] { s >>= c; }, w); break;
  case 21: w.add(t.b, t.n); w.add(e.v, e.n); st.step([&] { s >>= t.b + 0; }, w); break;
  case 22: w.add(t.b, t.n); w.add(e.v, e.n); st.step([&] { s >>= ts; }, w); break;
  case 23: w.add(t.b, t.n); st.step([&] { s = ts; }, w); break;
  case 24: w.add(c); st.step([&] { s = c; }, w); break;
  case 25: if ((int)p < e.n) { int l = e.n - (int)p; l = vp::concrete(q < (sz)l ? (int)q : l); w.add(e.v + p, l); e = w; s.assign(s, p, q); } break;   // from itself
  case 26: w = e; w.add(e.v, e.n); st.step([&] { s.append(s); }, w); break;
  case 27: w.add(e.v, e.n); w.add(e.v, e.n); st.step([&] { s >>= s; }, w); break;
  case 28: s.resize((sz)e.n); break;
  case 29: { CH a[2] = {c, (CH)(c + 1)}; ASSUME(a[1] != 0); w = e; w.add(a, 2); st.step([&] { s.append({a[0], a[1]}); }, w); w = Ex(); w.add(a, 2); st.step([&] { s = {a[0], a[1]}; }, w); w = Ex(); w.add(a, 2); w.add(e.v, e.n); st.step([&] { s >>= {a[0], a[1]}; }, w); break; }
  case 30: if (e.n) { int i = vp::concrete((int)(k & 3)); if (i < e.n) { s[i] = c; s.at(i); e.v[i] = c; *(s.begin() + i) = c; s.front(); s.back() = s.back(); } } break;
  }
}
static const int OPS = 31;
template <int F, int L> void steps1() { Txt<N> o; Str<N> s = o.str(); Ex e; e.add(o.b, o.n); Txt<3> t; CH c = vp::nd<CH>(); ASSUME(c != 0); sz k = vp::nd<uc>(); do_step(s, e, vp::pick<int>(F, L), t, c, k); is(s, e); }
HARNESS(step_append) { steps1<0, 7>(); }
HARNESS(step_assign) { steps1<8, 14>(); }
HARNESS(step_rest) { steps1<15, 24>(); }
HARNESS(step_self) { steps1<25, OPS - 1>(); }
template <int A> void steps2() { Txt<3> o(2); Str<N> s(o.b + 0); Ex e; e.add(o.b, o.n); Txt<2> t; CH c = vp::nd<CH>(); ASSUME(c != 0); do_step(s, e, A, t, c, 1); is(s, e); do_step(s, e, vp::pick<int>(0, OPS - 1), t, c, 3); is(s, e); }
HARNESS(two_append) { steps2<0>(); }
HARNESS(two_pop) { steps2<7>(); }
HARNESS(two_assign) { steps2<8>(); }
HARNESS(two_fill) { steps2<12>(); }
HARNESS(two_resize) { steps2<14>(); }
HARNESS(two_clear) { steps2<15>(); }
HARNESS(two_front) { steps2<22>(); }
// an input range cannot be measured first: too long a range is still reported, and nothing is written outside the string
HARNESS(input_range) { Txt<N + 2> t; struct { Str<N> s; uc guard[8]; } z = {}; Ex e; e.add(t.b, t.n); bool app = vp::fork(vp::flag()); CH f = vp::nd<CH>(); ASSUME(f != 0); int have = 0; if (app) { z.s.push_back(f); have = 1; }
  auto b = KIn::make((CH const*)t.b, (CH const*)t.b + t.n, (CH const*)t.b), l = KIn::make((CH const*)t.b, (CH const*)t.b + t.n, (CH const*)t.b + t.n);
  int r = thrown([&] { if (app) z.s.append(b, l); else z.s.assign(b, l); }); CHECK((r != 0) == (t.n + have > N)); CHECK(z.s.size() <= N); CHECK(z.s.data()[N] == 0); for (int i = 0; i < 8; ++i) CHECK(z.guard[i] == 0);
  if (!r) { Ex w; if (app) w.add(f); w.add(t.b, t.n); is(z.s, w); } }
HARNESS(huge_counts) { Txt<N> t; Str<N> s = t.str(); Ex e; e.add(t.b, t.n); CH c = vp::nd<CH>(); sz k = vp::nd<sz>(); ASSUME(k > N); CHECK(thrown([&] { s.append(k, c); }) == 1); CHECK(thrown([&] { s.assign(k, c); }) != 0); CHECK(thrown([&] { s.resize(k, c); }) == 1); is(s, e); }
// ---- access
HARNESS(access) { Txt<N> t; Str<N> const s = t.str(); sz i = vp::nd<sz>(); int r = thrown([&] { CHECK(s.at(i) == t.b[i]); }); CHECK(r == (i >= (sz)t.n ? 2 : 0)); Str<N> m = s; r = thrown([&] { CHECK(m.at(i) == t.b[i]); }); CHECK(r == (i >= (sz)t.n ? 2 : 0)); if (t.n) { CHECK(s.front() == t.b[0]); CHECK(s.back() == t.b[t.n - 1]); } CHECK(s.max_size() == N); CHECK(s.capacity() == N);
  int j = 0; for (auto p = s.begin(); p != s.end(); ++p, ++j) CHECK(*p == t.b[j]); CHECK(j == t.n); for (auto p = s.rbegin(); p != s.rend(); ++p) CHECK(*p == t.b[--j]); CHECK(j == 0); for (auto p = s.cbegin(); p != s.cend(); ++p, ++j) CHECK(*p == t.b[j]); for (auto p = s.crbegin(); p != s.crend(); ++p) CHECK(*p == t.b[--j]); for (auto p = m.rbegin(); p != m.rend(); ++p) { CHECK(*p == m[t.n - 1 - j]); ++j; } CHECK(j == t.n); }
HARNESS(nth) { Txt<N> t; Str<N> const s = t.str(); Str<N> m = s; sz i = vp::nd<sz>(); int r = thrown([&] { CHECK(*s.nth(i) == t.b[i]); CHECK(s.index_of(s.nth(i)) == i); }); CHECK(r == (i >= (sz)t.n ? 2 : 0)); r = thrown([&] { CHECK(*m.nth(i) == t.b[i]); CHECK(m.index_of(m.nth(i)) == i); }); CHECK(r == (i >= (sz)t.n ? 2 : 0)); }
HARNESS(substr) { Txt<N> t; Str<N> const s = t.str(); int p = vp::pick<int>(0, N + 1); sz k = vp::nd<sz>(); int r = thrown([&] { int m = vp::concrete((int)(p > t.n ? 0 : k < (sz)(t.n - p) ? k : t.n - p)); Ex e; e.add(t.b + p, m); is(s.substr((sz)p, k), e); }); CHECK(r == (p > t.n ? 2 : 0)); }
HARNESS(copy) { Txt<N> t; Str<N> const s = t.str(); int p = vp::pick<int>(0, N + 1); sz k = vp::nd<sz>(); CH o[N + 2]; for (int i = 0; i < N + 2; ++i) o[i] = 7; sz m = p > t.n ? 0 : k < (sz)(t.n - p) ? k : t.n - p; int r = thrown([&] { CHECK(s.copy(o + 0, k, (sz)p) == m); }); CHECK(r == (p > t.n ? 2 : 0)); for (int i = 0; i < N + 2; ++i) CHECK(o[i] == ((sz)i < m ? t.b[p + i] : 7)); }
HARNESS(to_view) { Txt<N> t; Str<N> const s = t.str(); sprout::basic_string_view<CH> v = s; CHECK(v.data() == s.data()); CHECK(v.size() == s.size()); }
// ---- searching: the definition, by exhaustive scan
static const int H = VP_THOROUGH ? 5 : 4, D = 3;
template <int M> bool match(Txt<H> const& h, int i, Txt<M> const& d) { bool ok = i + d.n <= h.n; for (int j = 0; j < d.n; ++j) if (i + j < h.n) ok &= h.b[i + j] == d.b[j]; return ok; }
template <int M> bool in(Txt<M> const& d, CH c) { bool r = false; for (int j = 0; j < d.n; ++j) r |= d.b[j] == c; return r; }
struct Hay { Txt<H> h; Str<H> s; sz p; Hay(bool wp = true) : s(h.str()) { int k = wp ? vp::pick<int>(0, H + 1) : 0; if (k <= H) p = (sz)k; else if (sizeof(CH) > 1) p = NP; else { p = vp::nd<sz>(); ASSUME(p > (sz)H); } } sz first(sz best, int i, bool c) const { return c && (sz)i >= p && best == NP ? (sz)i : best; } sz last(sz best, int i, bool c) const { return c && (sz)i <= p ? (sz)i : best; } };
#define FIND(name, upto, dir, cond) \
  HARNESS(name##_str) { Hay q; Txt<D> d; Txt<H> const& h = q.h; sz e = NP; for (int i = 0; i < (upto); ++i) e = q.dir(e, i, cond); CHECK(q.s.name(d.str(), q.p) == e); } \
  HARNESS(name##_ptr) { Hay q; Txt<D> d; Txt<H> const& h = q.h; sz e = NP; for (int i = 0; i < (upto); ++i) e = q.dir(e, i, cond); CHECK(q.s.name(d.b + 0, q.p) == e); CHECK(q.s.name(d.b + 0, q.p, (sz)d.n) == e); }
FIND(find, h.n + 1, first, match(h, i, d))
FIND(rfind, h.n + 1, last, match(h, i, d))
FIND(find_first_of, h.n, first, in(d, h.b[i]))
FIND(find_last_of, h.n, last, in(d, h.b[i]))
FIND(find_first_not_of, h.n, first, !in(d, h.b[i]))
FIND(find_last_not_of, h.n, last, !in(d, h.b[i]))
HARNESS(find_char) { Hay q; CH c = vp::nd<CH>(); ASSUME(c != 0); Txt<H> const& h = q.h; sz f = NP, l = NP, fn = NP, ln = NP; for (int i = 0; i < h.n; ++i) { f = q.first(f, i, h.b[i] == c); l = q.last(l, i, h.b[i] == c); fn = q.first(fn, i, h.b[i] != c); ln = q.last(ln, i, h.b[i] != c); }
  CHECK(q.s.find(c, q.p) == f); CHECK(q.s.find_first_of(c, q.p) == f); CHECK(q.s.rfind(c, q.p) == l); CHECK(q.s.find_last_of(c, q.p) == l); CHECK(q.s.find_first_not_of(c, q.p) == fn); CHECK(q.s.find_last_not_of(c, q.p) == ln); }
HARNESS(find_default) { Hay q(false); Txt<2> d; Str<2> n = d.str(); CH c = vp::nd<CH>(); ASSUME(c != 0); CHECK(q.s.find(n) == q.s.find(n, 0)); CHECK(q.s.rfind(n) == q.s.rfind(n, NP)); CHECK(q.s.find_first_of(n) == q.s.find_first_of(n, 0)); CHECK(q.s.find_last_of(n) == q.s.find_last_of(n, NP)); CHECK(q.s.find_first_not_of(n) == q.s.find_first_not_of(n, 0)); CHECK(q.s.find_last_not_of(n) == q.s.find_last_not_of(n, NP));
  CHECK(q.s.find(d.b + 0) == q.s.find(n, 0)); CHECK(q.s.rfind(d.b + 0) == q.s.rfind(n, NP)); CHECK(q.s.find_first_of(d.b + 0) == q.s.find_first_of(n, 0)); CHECK(q.s.find_last_of(d.b + 0) == q.s.find_last_of(n, NP)); CHECK(q.s.find_first_not_of(d.b + 0) == q.s.find_first_not_of(n, 0)); CHECK(q.s.find_last_not_of(d.b + 0) == q.s.find_last_not_of(n, NP));
  CHECK(q.s.find(c) == q.s.find(c, 0)); CHECK(q.s.rfind(c) == q.s.rfind(c, NP)); CHECK(q.s.find_first_of(c) == q.s.find_first_of(c, 0)); CHECK(q.s.find_last_of(c) == q.s.find_last_of(c, NP)); CHECK(q.s.find_first_not_of(c) == q.s.find_first_not_of(c, 0)); CHECK(q.s.find_last_not_of(c) == q.s.find_last_not_of(c, NP)); }
// needles given as iterators of a string
HARNESS(find_iter) { Hay q; Txt<2> d; Str<2> const nn = d.str(); Str<2> const& n = nn; sz p = q.p; CHECK(q.s.find(n.begin(), p) == q.s.find(n, p)); CHECK(q.s.rfind(n.begin(), p) == q.s.rfind(n, p)); CHECK(q.s.find_first_of(n.begin(), p) == q.s.find_first_of(n, p)); CHECK(q.s.find_last_of(n.begin(), p) == q.s.find_last_of(n, p)); CHECK(q.s.find_first_not_of(n.begin(), p) == q.s.find_first_not_of(n, p)); CHECK(q.s.find_last_not_of(n.begin(), p) == q.s.find_last_not_of(n, p));
  CHECK(q.s.find(n.begin()) == q.s.find(n)); CHECK(q.s.rfind(n.begin()) == q.s.rfind(n)); CHECK(q.s.find_first_of(n.begin()) == q.s.find_first_of(n)); CHECK(q.s.find_last_of(n.begin()) == q.s.find_last_of(n)); CHECK(q.s.find_first_not_of(n.begin()) == q.s.find_first_not_of(n)); CHECK(q.s.find_last_not_of(n.begin()) == q.s.find_last_not_of(n)); CHECK(q.s.compare(n.begin()) == q.s.compare(n)); }
// ---- comparing: lexicographic, characters as unsigned values
int cmp(CH const* a, int n, CH const* b, int m) { int r = 0; for (int i = 0; i < n && i < m; ++i) if (!r) r = (UCH)a[i] < (UCH)b[i] ? -1 : (UCH)b[i] < (UCH)a[i] ? 1 : 0; return r ? r : n < m ? -1 : n > m ? 1 : 0; }
int sgn(int x) { return x < 0 ? -1 : x > 0; }
HARNESS(compare) { Txt<H> a; Txt<D> b; auto s = a.str(); auto t = b.str(); int e = cmp(a.b, a.n, b.b, b.n); CHECK(sgn(s.compare(t)) == e); CHECK(sgn(s.compare(b.b + 0)) == e); CHECK(sgn(t.compare(s)) == -e); CHECK(s.compare(s) == 0); }
HARNESS(compare_pos) { Txt<H> a; Txt<D> b; auto s = a.str(); auto t = b.str(); int p1 = vp::pick<int>(0, H + 1), p2 = vp::pick<int>(0, D + 1); sz n1 = vp::nd<sz>(), n2 = vp::nd<sz>(); int l1 = p1 > a.n ? 0 : vp::concrete((int)(n1 < (sz)(a.n - p1) ? n1 : a.n - p1)), l2 = p2 > b.n ? 0 : vp::concrete((int)(n2 < (sz)(b.n - p2) ? n2 : b.n - p2));
  int r = thrown([&] { CHECK(sgn(s.compare((sz)p1, n1, t, (sz)p2, n2)) == cmp(a.b + p1, l1, b.b + p2, l2)); }); CHECK(r == (p1 > a.n || p2 > b.n ? 2 : 0)); if (p2 == 0) { r = thrown([&] { CHECK(sgn(s.compare((sz)p1, n1, t)) == cmp(a.b + p1, l1, b.b, b.n)); CHECK(sgn(s.compare((sz)p1, n1, b.b + 0)) == cmp(a.b + p1, l1, b.b, b.n)); CHECK(sgn(s.compare((sz)p1, n1, b.b + 0, (sz)l2)) == cmp(a.b + p1, l1, b.b, l2)); }); CHECK(r == (p1 > a.n ? 2 : 0)); } }
template <class A, class B> void rel(A const& x, B const& y, int e) { CHECK((x == y) == (e == 0)); CHECK((x != y) == (e != 0)); CHECK((x < y) == (e < 0)); CHECK((x > y) == (e > 0)); CHECK((x <= y) == (e <= 0)); CHECK((x >= y) == (e >= 0)); }
HARNESS(relations) { Txt<3> a; Txt<2> b; auto s = a.str(); auto t = b.str(); int e = cmp(a.b, a.n, b.b, b.n); rel(s, t, e); rel(t, s, -e); CH const* p = b.b; rel(s, p, e); rel(p, s, -e); }
// ---- joining
HARNESS(concat) { Txt<3> a; Txt<2> b; auto s = a.str(); auto t = b.str(); CH c = vp::nd<CH>(); ASSUME(c != 0); Ex e; e.add(a.b, a.n); e.add(b.b, b.n); is(s + t, e); is(s + b.b, e); is(a.b + t, e); Ex f; f.add(a.b, a.n); f.add(c); is(s + c, f); Ex g; g.add(c); g.add(a.b, a.n); is(c + s, g); is(s, [&] { Ex z; z.add(a.b, a.n); return z; }()); }
HARNESS(shift) { Txt<4> a; Txt<2> b; auto s = a.str(); auto t = b.str(); CH c = vp::nd<CH>(); ASSUME(c != 0); CH const* bp = b.b; Ex e, f, g, h; e.add(a.b, a.n); e.add(b.b, b.n); f.add(b.b, b.n); f.add(a.b, a.n); g.add(a.b, a.n); g.add(c); h.add(c); h.add(a.b, a.n);
  bool over = e.n > 4; CHECK(thrown([&] { is(s << t, e); }) == over); CHECK(thrown([&] { is(s << bp, e); }) == over); CHECK(thrown([&] { is(s >> t, f); }) == over); CHECK(thrown([&] { is(s >> bp, f); }) == over); CHECK(thrown([&] { is(s << c, g); }) == (g.n > 4)); CHECK(thrown([&] { is(s >> c, h); }) == (g.n > 4)); }
