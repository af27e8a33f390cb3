// P18: optional and tribool
#include "vpu.hpp"
#include <sprout/optional.hpp>
#include <sprout/logic/tribool.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/container/functions.hpp>
#include <functional>
typedef sprout::optional<int> O;
// the model: whether there is a value, and which
struct M { bool has; int v; };
static bool is(O const& o, M m) { return o.is_initialized() == m.has && static_cast<bool>(o) == m.has && !o == !m.has && o.empty() == !m.has && o.size() == (m.has ? 1u : 0u) && (m.has ? *o == m.v && o.get() == m.v && o.value() == m.v && *o.operator->() == m.v && *o.get_pointer() == m.v && *o.get_ptr() == m.v : o.get_pointer() == nullptr && o.get_ptr() == nullptr); }
static O mk(M m) { return m.has ? O(m.v) : O(); }
static M ndm() { M m; m.has = vp::nd<bool>(); m.v = vp::nd<int>(); return m; }
HARNESS(construct) { int v = vp::nd<int>(); bool c = vp::nd<bool>(); CHECK(is(O(), {false, 0})); CHECK(is(O(sprout::nullopt), {false, 0})); CHECK(is(O(v), {true, v})); CHECK(is(O(sprout::in_place, v), {true, v})); CHECK(is(O(sprout::in_place), {true, 0})); CHECK(is(O(c, v), {c, v})); CHECK(is(sprout::make_optional(v), {true, v})); CHECK(is(sprout::make_optional(c, v), {c, v})); }
HARNESS(copy) { M m = ndm(); O a = mk(m); O b(a); CHECK(is(b, m)); CHECK(is(a, m)); O c(sprout::move(b)); CHECK(is(c, m)); sprout::optional<short> s = m.has ? sprout::optional<short>((short)m.v) : sprout::optional<short>(); O d(s); CHECK(is(d, {m.has, (short)m.v})); O e{sprout::optional<short>(s)}; CHECK(is(e, {m.has, (short)m.v})); }
// an arbitrary operation on an arbitrary state
HARNESS(modify) { M m = ndm(), n = ndm(); O a = mk(m); O const b = mk(n); int w = vp::nd<int>(); short sh = vp::nd<short>(); sprout::optional<short> s; if (n.has) s = sh; int k = vp::pick<int>(0, 21);
  switch (k) {
  case 0: CHECK(&(a = sprout::nullopt) == &a); CHECK(is(a, {false, 0})); break; case 1: CHECK(&(a = b) == &a); CHECK(is(a, n)); CHECK(is(b, n)); break; case 2: a = O(b); CHECK(is(a, n)); break; case 3: CHECK(&(a = w) == &a); CHECK(is(a, {true, w})); break;
  case 4: a = s; CHECK(is(a, {n.has, sh})); break; case 5: a = sprout::optional<short>(s); CHECK(is(a, {n.has, sh})); break; case 6: a.emplace(w); CHECK(is(a, {true, w})); break; case 7: a.assign(sprout::nullopt); CHECK(is(a, {false, 0})); break;
  case 8: a.assign(b); CHECK(is(a, n)); break; case 9: a.assign(O(b)); CHECK(is(a, n)); break; case 10: a.assign(w); CHECK(is(a, {true, w})); break; case 11: a.assign(s); CHECK(is(a, {n.has, sh})); break; case 12: a.reset(); CHECK(is(a, {false, 0})); break;
  case 13: a.reset(sprout::nullopt); CHECK(is(a, {false, 0})); break; case 14: a.reset(w); CHECK(is(a, {true, w})); break; case 15: { O c(b); a.swap(c); CHECK(is(a, n)); CHECK(is(c, m)); break; } case 16: { O c(b); sprout::swap(a, c); CHECK(is(a, n)); CHECK(is(c, m)); break; }
  case 17: a = a; CHECK(is(a, m)); break; case 18: a.swap(a); CHECK(is(a, m)); break; case 19: if (m.has) { *a = w; CHECK(is(a, {true, w})); } break; case 20: if (m.has) { a.get() = w; CHECK(is(a, {true, w})); a.value() = 3; CHECK(is(a, {true, 3})); *a.get_pointer() = w; CHECK(is(a, {true, w})); *a.operator->() = 4; CHECK(is(a, {true, 4})); } break;
  default: { O c(b); a = c; CHECK(is(a, n)); CHECK(is(c, n)); a = short(sh); CHECK(is(a, {true, sh})); } } }
HARNESS(history) { M m = ndm(); O a = mk(m); for (int i = 0; i < 3; ++i) { int w = vp::nd<int>(); int k = vp::pick<int>(0, 4); if (k == 0) { a = w; m = {true, w}; } else if (k == 1) { a = sprout::nullopt; m.has = false; } else if (k == 2) { O t(a); a.reset(); a = t; } else if (k == 3) { a.emplace(w); m = {true, w}; } else { O t(w); t.swap(a); CHECK(is(t, m)); m = {true, w}; } CHECK(is(a, m)); } }
HARNESS(access_bad) { O a; O const c; int n = 0; try { a.get(); } catch (sprout::bad_optional_access const&) { ++n; } try { c.get(); } catch (sprout::bad_optional_access const&) { ++n; } try { a.value(); } catch (sprout::bad_optional_access const&) { ++n; } try { c.value(); } catch (sprout::bad_optional_access const&) { ++n; } CHECK(n == 4); std::size_t i = vp::nd<std::size_t>(); M m = ndm(); O b = mk(m); O const& d = b; bool thr = false; try { CHECK(b.at(i) == m.v); } catch (std::out_of_range const&) { thr = true; } CHECK(thr == !(m.has && i == 0)); thr = false; try { CHECK(d.at(i) == m.v); } catch (std::out_of_range const&) { thr = true; } CHECK(thr == !(m.has && i == 0)); thr = false; try { d.rangecheck(i); } catch (std::out_of_range const&) { thr = true; } CHECK(thr == !(m.has && i == 0)); }
HARNESS(value_or) { M m = ndm(); O a = mk(m); O const& c = a; int w = vp::nd<int>(); int const cw = w; int want = m.has ? m.v : w; CHECK(c.value_or(cw) == want); CHECK(c.get_value_or(cw) == want); CHECK(a.value_or(w) == want); CHECK(a.get_value_or(w) == want); CHECK(sprout::get_value_or(c, cw) == want); CHECK(sprout::get_value_or(a, w) == want); CHECK(&c.value_or(cw) == (m.has ? &*c : &cw)); if (!m.has) { a.value_or(w) = 7; CHECK(w == 7); } }
HARNESS(free_get) { M m = ndm(); ASSUME(m.has); O a = mk(m); O const& c = a; CHECK(sprout::get(a) == m.v && sprout::get(c) == m.v && sprout::get(O(a)) == m.v); CHECK(*sprout::get(&a) == m.v && *sprout::get(&c) == m.v && *sprout::get_pointer(a) == m.v && *sprout::get_pointer(c) == m.v); sprout::get(a) = 5; CHECK(is(a, {true, 5})); CHECK(a.front() == 5 && a.back() == 5 && a[0] == 5 && c.front() == 5 && c.back() == 5 && c[0] == 5); }
HARNESS(iterate) { M m = ndm(); O a = mk(m); O const& c = a; int n = 0; for (int x : c) { CHECK(x == m.v); ++n; } CHECK(n == (int)m.has); n = 0; for (auto it = a.begin(); it != a.end(); ++it) { CHECK(*it == m.v); ++n; } CHECK(n == (int)m.has); CHECK(c.end() - c.begin() == (int)m.has); CHECK(c.cend() - c.cbegin() == (int)m.has); n = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) { CHECK(*it == m.v); ++n; } CHECK(n == (int)m.has); n = 0; for (auto it = c.crbegin(); it != c.crend(); ++it) { CHECK(*it == m.v); ++n; } CHECK(n == (int)m.has); }
HARNESS(order) { M m = ndm(), n = ndm(); O a = mk(m), b = mk(n); bool eq = m.has == n.has && (!m.has || m.v == n.v); bool lt = n.has && (!m.has || m.v < n.v); bool gt = m.has && (!n.has || n.v < m.v); CHECK((a == b) == eq); CHECK((a != b) == !eq); CHECK((a < b) == lt); CHECK((a > b) == gt); CHECK((a <= b) == !gt); CHECK((a >= b) == !lt);
  CHECK((a == sprout::nullopt) == !m.has); CHECK((sprout::nullopt == a) == !m.has); CHECK((a != sprout::nullopt) == m.has); CHECK((sprout::nullopt != a) == m.has); CHECK(!(a < sprout::nullopt)); CHECK((sprout::nullopt < a) == m.has); CHECK((a > sprout::nullopt) == m.has); CHECK(!(sprout::nullopt > a)); CHECK((a <= sprout::nullopt) == !m.has); CHECK(sprout::nullopt <= a); CHECK(a >= sprout::nullopt); CHECK((sprout::nullopt >= a) == !m.has); }
HARNESS(hash_eq) { M m = ndm(), n = ndm(); O a = mk(m), b = mk(n); if (a == b) { CHECK(sprout::to_hash(a) == sprout::to_hash(b)); CHECK(std::hash<O>()(a) == std::hash<O>()(b)); } }
// optional references: the referred object is shared, assignment rebinds
typedef sprout::optional<int&> OR;
HARNESS(reference) { int x = vp::nd<int>(), y = vp::nd<int>(); OR a(x), b, c(y); CHECK(a && !b && c); CHECK(&*a == &x && &a.get() == &x && a.get_pointer() == &x); CHECK(b.get_pointer() == nullptr); *a = 5; CHECK(x == 5); b = a; CHECK(b && &*b == &x); b = c; CHECK(&*b == &y && &*a == &x); a.swap(c); CHECK(&*a == &y && &*c == &x); CHECK(x == 5); a = sprout::nullopt; CHECK(!a); CHECK(!a.is_initialized()); OR d(c); CHECK(&*d == &x); bool thr = false; try { a.get(); } catch (sprout::bad_optional_access const&) { thr = true; } CHECK(thr); }
// a type with its own copy and move: none is lost or doubled
struct T { int v; bool live; T() : v(-1), live(true) {} T(int x) : v(x), live(true) {} T(int x, int y) : v(x * 2 + y), live(true) {} T(T const& o) : v(o.v), live(o.live) {} T(T&& o) : v(o.v), live(o.live) { o.live = false; } T& operator=(T const& o) { v = o.v; live = o.live; return *this; } T& operator=(T&& o) { if (this != &o) { v = o.v; live = o.live; o.live = false; } return *this; } };
HARNESS(move_only_moves) { int p = vp::range<int>(-9, 9), q = vp::range<int>(-9, 9); typedef sprout::optional<T> OT; OT a{T(p)}; CHECK(a->live && a->v == p); OT b(a); CHECK(a->live && b->live && b->v == p); OT c(sprout::move(a)); CHECK(c->live && c->v == p); b.emplace(p, q); CHECK(b->live && b->v == p * 2 + q); c = b; CHECK(b->live && c->live && c->v == b->v); c = sprout::move(b); CHECK(c->live && c->v == p * 2 + q); T t(q); c = t; CHECK(t.live && c->live && c->v == q); OT d; d.swap(c); CHECK(!c && d && d->live && d->v == q); OT e(sprout::in_place, p, q); CHECK(e->live && e->v == p * 2 + q); swap(d, e); CHECK(d->live && e->live && d->v == p * 2 + q && e->v == q); }
// ---- tribool: Kleene's three-valued logic
typedef sprout::logic::tribool TB;
static int val(TB t) { return t.value == TB::true_value ? 2 : t.value == TB::false_value ? 0 : 1; }
static TB tb(int i) { return i == 2 ? TB(true) : i == 0 ? TB(false) : TB(sprout::logic::indeterminate); }
#define MIN(x, y) ((x) < (y) ? (x) : (y))
#define MAX(x, y) ((x) > (y) ? (x) : (y))
HARNESS(tribool) { int i = vp::pick<int>(0, 2), j = vp::pick<int>(0, 2); bool q = vp::nd<bool>(); int k = q ? 2 : 0; TB a = tb(i), b = tb(j); CHECK(val(a) == i); CHECK(val(TB()) == 0); CHECK((a ? true : false) == (i == 2)); CHECK(sprout::logic::indeterminate(a) == (i == 1)); CHECK(val(!a) == 2 - i); CHECK(val(a && b) == MIN(i, j)); CHECK(val(a || b) == MAX(i, j)); CHECK(val(a && q) == MIN(i, k)); CHECK(val(q && a) == MIN(i, k)); CHECK(val(a || q) == MAX(i, k)); CHECK(val(q || a) == MAX(i, k));
  CHECK(val(a && sprout::logic::indeterminate) == MIN(i, 1)); CHECK(val(sprout::logic::indeterminate && a) == MIN(i, 1)); CHECK(val(a || sprout::logic::indeterminate) == MAX(i, 1)); CHECK(val(sprout::logic::indeterminate || a) == MAX(i, 1));
  int e = i == 1 || j == 1 ? 1 : i == j ? 2 : 0; CHECK(val(a == b) == e); CHECK(val(a != b) == 2 - e); int f = i == 1 ? 1 : i == k ? 2 : 0; CHECK(val(a == q) == f); CHECK(val(q == a) == f); CHECK(val(a != q) == 2 - f); CHECK(val(q != a) == 2 - f); CHECK(val(a == sprout::logic::indeterminate) == 1); CHECK(val(sprout::logic::indeterminate == a) == 1); CHECK(val(a != sprout::logic::indeterminate) == 1); CHECK(val(sprout::logic::indeterminate != a) == 1); }
SPROUT_TRIBOOL_THIRD_STATE(maybe)
HARNESS(tribool_named) { int i = vp::pick<int>(0, 2); CHECK(maybe(tb(i)) == (i == 1)); TB m(maybe); CHECK(val(m) == 1); m = true; CHECK(val(m) == 2); m = tb(i); CHECK(val(m) == i); if (i != 1) CHECK(sprout::to_hash(tb(i)) == sprout::to_hash(TB(i == 2))); }
