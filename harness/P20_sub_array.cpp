// P20: sub_array (owning and referring), the functions that make one, and array
#include "vpu.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/functional/hash.hpp>
#include <array>
typedef sprout::array<sc, 5> A;
typedef sprout::sub_array<A> S;
typedef sprout::sub_array<A&> R;
typedef sprout::sub_array<A const&> C;
static A mk() { A a{{}}; for (int i = 0; i < 5; ++i) a[i] = vp::nd<sc>(); return a; }
struct W { int f, l; };
static W win(int lo = 0, int hi = 5) { W w; w.f = vp::pick<int>(lo, hi); w.l = vp::pick<int>(w.f, hi); return w; }
// the view shows exactly a[f, l)
template <class X> bool views(X const& x, A const& a, int f, int l) {
  bool ok = (int)x.size() == l - f && x.empty() == (f == l) && (int)(x.end() - x.begin()) == l - f && (int)(x.cend() - x.cbegin()) == l - f && x.to_first() == f && x.to_last() == l && x.from_begin() == f && x.from_end() == l - 5 && x.max_size() == x.size() && (int)sprout::size(x) == l - f && sprout::empty(x) == (f == l);
  int k = f; for (auto it = x.begin(); it != x.end(); ++it, ++k) ok &= *it == a[k]; ok &= k == l;
  for (int i = 0; i < l - f; ++i) ok &= x[i] == a[f + i] && x.at(i) == a[f + i] && *x.nth(i) == a[f + i] && (int)x.index_of(x.nth(i)) == i && x.data()[i] == a[f + i] && x.c_array()[i] == a[f + i] && *sprout::nth(x, i) == a[f + i] && sprout::subscript_at(x, i) == a[f + i] && (int)sprout::index_of(x, x.nth(i)) == i;
  if (f != l) ok &= x.front() == a[f] && x.back() == a[l - 1] && sprout::front(x) == a[f] && sprout::back(x) == a[l - 1];
  return ok && x.get_internal() == a && x.get_array() == a && sprout::get_internal(x) == a && sprout::internal_begin_offset(x) == f && sprout::internal_end_offset(x) == l && sprout::internal_begin_offset_backward(x) == 5 - f && sprout::internal_end_offset_backward(x) == 5 - l; }
template <class X> bool refers(X& x, A& a) { return &x.get_internal() == &a && (x.empty() || (&*x.begin() == &a[x.to_first()] && x.data() == &a[x.to_first()])); }
HARNESS(construct) { A a = mk(); W w = win(); S s(a, w.f, w.l), t(a, a.cbegin() + w.f, a.cbegin() + w.l); CHECK(views(s, a, w.f, w.l)); CHECK(views(t, a, w.f, w.l)); R r(a, w.f, w.l), q(a, a.cbegin() + w.f, a.cbegin() + w.l); CHECK(views(r, a, w.f, w.l)); CHECK(views(q, a, w.f, w.l)); CHECK(refers(r, a) && refers(q, a)); C c(a, w.f, w.l); CHECK(views(c, a, w.f, w.l)); CHECK(refers(c, a)); S z; CHECK(z.size() == 0 && z.empty()); S u(s); CHECK(views(u, a, w.f, w.l)); R v(r); CHECK(refers(v, a) && views(v, a, w.f, w.l)); s = S(a, 1, 3); CHECK(views(s, a, 1, 3)); r = R(a, 1, 3); CHECK(views(r, a, 1, 3)); }
HARNESS(of_sub) { A a = mk(); W w = win(), v = win(0, w.l - w.f); S s(a, w.f, w.l); R r(a, w.f, w.l); CHECK(views(S(s, v.f, v.l), a, w.f + v.f, w.f + v.l)); CHECK(views(R(r, v.f, v.l), a, w.f + v.f, w.f + v.l)); S const& s0 = s; R const& r0 = r; CHECK(views(S(s0, s0.begin() + v.f, s0.begin() + v.l), a, w.f + v.f, w.f + v.l)); CHECK(views(R(r0, r0.begin() + v.f, r0.begin() + v.l), a, w.f + v.f, w.f + v.l)); }
HARNESS(make) { A a = mk(); A const& b = a; W w = win(); int f = w.f, l = w.l;
  CHECK(views(sprout::sub(a, f, l), a, f, l)); CHECK(views(sprout::sub(b, f, l), a, f, l)); CHECK(views(sprout::sub(a, a.cbegin() + f, a.cbegin() + l), a, f, l)); CHECK(views(sprout::sub(b, b.begin() + f, b.begin() + l), a, f, l)); CHECK(views(sprout::sub(a, f), a, f, 5)); CHECK(views(sprout::sub(b, f), a, f, 5)); CHECK(views(sprout::sub(b, b.begin() + f), a, f, 5));
  CHECK(views(sprout::csub(a, f, l), a, f, l)); CHECK(views(sprout::csub(a, a.cbegin() + f, a.cbegin() + l), a, f, l)); CHECK(views(sprout::csub(b, f), a, f, 5)); CHECK(views(sprout::sub_copy(a, f, l), a, f, l)); CHECK(views(sprout::sub_copy(a, a.cbegin() + f, a.cbegin() + l), a, f, l)); CHECK(views(sprout::sub_copy(a, f), a, f, 5)); CHECK(views(sprout::sub_copy(a, a.cbegin() + f), a, f, 5));
  CHECK(views(sprout::sub_window(a, f, l), a, f, l)); CHECK(views(sprout::csub_window(a, f, l), a, f, l)); CHECK(views(sprout::sub_window_copy(a, f, l), a, f, l)); CHECK(views(sprout::sub_window(a, f), a, f, 5)); CHECK(views(sprout::csub_window(a, f), a, f, 5)); CHECK(views(sprout::sub_window_copy(a, f), a, f, 5)); CHECK(views(sprout::sub_window(a), a, 0, 5));
  CHECK(views(sprout::sub_offset(a, f, l - 5), a, f, l)); CHECK(views(sprout::csub_offset(a, f, l - 5), a, f, l)); CHECK(views(sprout::sub_offset_copy(a, f, l - 5), a, f, l)); CHECK(views(sprout::sub_offset(a, f), a, f, 5)); CHECK(views(sprout::csub_offset(b), a, 0, 5)); CHECK(views(sprout::sub_offset_copy(b, f), a, f, 5)); auto r = sprout::sub(a, f, l); CHECK(refers(r, a)); auto c = sprout::csub(a, f, l); CHECK(refers(c, a)); }
HARNESS(whole) { A a = mk(); A const& b = a; CHECK(views(sprout::sub(a), a, 0, 5)); CHECK(views(sprout::sub(b), a, 0, 5)); CHECK(views(sprout::csub(b), a, 0, 5)); CHECK(views(sprout::sub_copy(b), a, 0, 5)); }
template <class X> void of(X const& x, A const& a, int o, int n) { W v = win(0, n); int f = v.f, l = v.l; CHECK(views(sprout::sub(x, f, l), a, o + f, o + l)); CHECK(views(sprout::sub(x, x.begin() + f, x.begin() + l), a, o + f, o + l)); CHECK(views(sprout::sub(x, f), a, o + f, o + n)); CHECK(views(sprout::sub(x, x.begin() + f), a, o + f, o + n)); CHECK(views(sprout::csub(x, f, l), a, o + f, o + l)); CHECK(views(sprout::csub(x, x.begin() + f, x.begin() + l), a, o + f, o + l)); CHECK(views(sprout::csub(x, f), a, o + f, o + n)); CHECK(views(sprout::csub(x, x.begin() + f), a, o + f, o + n)); CHECK(views(sprout::sub_copy(x, f, l), a, o + f, o + l)); CHECK(views(sprout::sub_copy(x, x.begin() + f, x.begin() + l), a, o + f, o + l)); CHECK(views(sprout::sub_copy(x, f), a, o + f, o + n)); CHECK(views(sprout::sub_window(x, f, l), a, o + f, o + l)); CHECK(views(sprout::csub_window(x, f), a, o + f, o + n)); CHECK(views(sprout::csub_window(x, f, l), a, o + f, o + l)); CHECK(views(sprout::sub_window_copy(x, f, l), a, o + f, o + l)); CHECK(views(sprout::sub_offset(x, f, l - n), a, o + f, o + l)); CHECK(views(sprout::csub_offset(x, f, l - n), a, o + f, o + l)); CHECK(views(sprout::sub_offset_copy(x, f, l - n), a, o + f, o + l)); }
HARNESS(make_of_sub) { A a = mk(); W w = win(1, 5); of(S(a, w.f, w.l), a, w.f, w.l - w.f); }
HARNESS(make_of_ref) { A a = mk(); W w = win(1, 5); of(C(a, w.f, w.l), a, w.f, w.l - w.f); }
// members that move the window
template <class X> void windows(A const& a, X x, int f, int l) { X const& c = x; W v = win(); CHECK(views(c.window(v.f, v.l), a, v.f, v.l)); CHECK(views(c.cwindow(v.f, v.l), a, v.f, v.l)); CHECK(views(c.offset(v.f - f, v.l - l), a, v.f, v.l)); CHECK(views(c.coffset(v.f - f, v.l - l), a, v.f, v.l)); CHECK(views(x, a, f, l)); X y(x); CHECK(&y.window(v.f, v.l) == &y); CHECK(views(y, a, v.f, v.l)); X z(x); CHECK(&z.offset(v.f - f, v.l - l) == &z); CHECK(views(z, a, v.f, v.l)); if (f < l) { X p(x); p.drop_front(); CHECK(views(p, a, f + 1, l)); p = x; p.drop_back(); CHECK(views(p, a, f, l - 1)); } X q(y); sprout::swap(q, x); CHECK(views(q, a, f, l)); CHECK(views(x, a, v.f, v.l)); }
HARNESS(windows_own) { A a = mk(); W w = win(); windows(a, S(a, w.f, w.l), w.f, w.l); }
HARNESS(windows_ref) { A a = mk(); W w = win(); windows(a, R(a, w.f, w.l), w.f, w.l); }
// members that write
template <class X> void writes(A& a, X x, int f, int l) { sc v = vp::nd<sc>(); A b = a; int k = vp::pick<int>(0, 9), i; switch (k) { case 0: x.fill(v); for (i = f; i < l; ++i) b[i] = v; break; case 1: x.assign(v); for (i = f; i < l; ++i) b[i] = v; break; case 2: if (l == 5) return; x.push_back(v); b[l++] = v; break; case 3: if (l == 5) return; x.push_back(sc(v)); b[l++] = v; break; case 4: if (f == 0) return; x.push_front(v); b[--f] = v; break; case 5: if (f == 0) return; x.push_front(sc(v)); b[--f] = v; break; case 6: if (f == l) return; x.pop_back(); b[--l] = 0; break; case 7: if (f == l) return; x.pop_front(); b[f++] = 0; break; case 8: if (f == l) return; i = vp::pick<int>(0, l - f - 1); x[i] = v; b[f + i] = v; CHECK(views(x, b, f, l)); x.at(i) = 1; *x.nth(i) = 2; x.data()[i] = 3; b[f + i] = 3; break; default: if (f == l) return; x.front() = v; b[f] = v; x.back() = 9; b[l - 1] = 9; } CHECK(views(x, b, f, l)); if (X::is_reference) CHECK(a == b); }
HARNESS(writes_own) { A a = mk(); W w = win(); writes(a, S(a, w.f, w.l), w.f, w.l); }
HARNESS(writes_ref) { A a = mk(); W w = win(); writes(a, R(a, w.f, w.l), w.f, w.l); }
HARNESS(checked) { A a = mk(); W w = win(); S s(a, w.f, w.l); S const& c = s; std::size_t i = vp::nd<std::size_t>(); bool in = i < (std::size_t)(w.l - w.f); int t = 0; try { CHECK(s.at(i) == a[w.f + i]); } catch (std::out_of_range const&) { ++t; } try { CHECK(c.at(i) == a[w.f + i]); } catch (std::out_of_range const&) { ++t; } try { s.nth(i); } catch (std::out_of_range const&) { ++t; } try { c.nth(i); } catch (std::out_of_range const&) { ++t; } try { c.rangecheck(i); } catch (std::out_of_range const&) { ++t; } CHECK(t == (in ? 0 : 5)); }
template <class X> void order(X const& x, X const& y) { bool eq = x.size() == y.size(), lt = false, done = false; for (int i = 0; i < 5; ++i) { if (i < (int)x.size() && i < (int)y.size()) { if (x[i] != y[i]) { eq = false; if (!done) { lt = x[i] < y[i]; done = true; } } } } if (!done) lt = x.size() < y.size(); CHECK((x == y) == eq); CHECK((x != y) == !eq); CHECK((x < y) == lt); CHECK((x > y) == (!lt && !eq)); CHECK((x <= y) == (lt || eq)); CHECK((x >= y) == !lt); if (eq) CHECK(sprout::to_hash(x) == sprout::to_hash(y)); }
HARNESS(order_own) { A a = mk(), b = mk(); W w = win(1, 4), v = win(1, 4); order(S(a, w.f, w.l), S(b, v.f, v.l)); }
HARNESS(order_ref) { A a = mk(); W w = win(), v = win(); order(C(a, w.f, w.l), C(a, v.f, v.l)); }
// C arrays and std::array as underlying container
HARNESS(c_array) { sc a[4]; for (int i = 0; i < 4; ++i) a[i] = vp::nd<sc>(); W w = win(0, 4); sprout::sub_array<sc(&)[4]> r = sprout::sub(a, w.f, w.l); CHECK((int)r.size() == w.l - w.f); int k = w.f; for (sc x : r) { CHECK(x == a[k]); ++k; } CHECK(k == w.l); sprout::sub_array<sc[4]> s = sprout::sub_copy(a, w.f, w.l); CHECK((int)s.size() == w.l - w.f); for (int i = 0; i < w.l - w.f; ++i) CHECK(s[i] == a[w.f + i] && r[i] == a[w.f + i]); if (w.f < w.l) { r[0] = 7; CHECK(a[w.f] == 7); r.fill(5); for (int i = 0; i < 4; ++i) if (i >= w.f && i < w.l) CHECK(a[i] == 5); } }
HARNESS(std_array) { std::array<sc, 4> a; for (int i = 0; i < 4; ++i) a[i] = vp::nd<sc>(); W w = win(0, 4); auto r = sprout::sub(a, w.f, w.l); CHECK((int)r.size() == w.l - w.f); int k = w.f; for (sc x : r) { CHECK(x == a[k]); ++k; } CHECK(k == w.l); auto s = sprout::sub_copy(a, w.f, w.l); for (int i = 0; i < w.l - w.f; ++i) CHECK(s[i] == a[w.f + i] && r[i] == a[w.f + i]); }
