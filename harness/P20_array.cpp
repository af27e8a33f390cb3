// P20: array (also of length 0), its iterators, and the container functions over every kind of container
// VP-VARIANT: pointers -DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION
#include "vpu.hpp"
#include <sprout/array.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/pit.hpp>
#include <array>
#include <vector>
typedef sprout::array<sc, 4> A;
typedef sprout::array<sc, 0> Z;
static A mk() { A a{{}}; for (int i = 0; i < 4; ++i) a.elems[i] = vp::nd<sc>(); return a; }
template <class X> bool same(X const& x, sc const* e, int n) {
  bool ok = (int)x.size() == n && x.empty() == (n == 0) && (int)x.max_size() == n && (int)(x.end() - x.begin()) == n && (int)(x.cend() - x.cbegin()) == n && (int)(x.rend() - x.rbegin()) == n && (int)(x.crend() - x.crbegin()) == n;
  int i = 0; for (auto it = x.begin(); it != x.end(); ++it, ++i) ok &= *it == e[i]; ok &= i == n; i = 0; for (auto it = x.cbegin(); it != x.cend(); it++, ++i) ok &= *it == e[i]; for (auto it = x.rbegin(); it != x.rend(); ++it) ok &= *it == e[--i]; i = n; for (auto it = x.crbegin(); it != x.crend(); it++) ok &= *it == e[--i];
  for (i = 0; i < n; ++i) ok &= x[i] == e[i] && x.at(i) == e[i] && *x.nth(i) == e[i] && (int)x.index_of(x.nth(i)) == i && (int)x.index_of(x.begin() + i) == i && x.data()[i] == e[i] && x.c_array()[i] == e[i];
  if (n) ok &= x.front() == e[0] && x.back() == e[n - 1]; return ok; }
HARNESS(access) { A a = mk(); A const& c = a; sc e[4]; for (int i = 0; i < 4; ++i) e[i] = a.elems[i]; CHECK(same(c, e, 4)); int i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) CHECK(&*it == &a.elems[i]); for (auto it = a.rbegin(); it != a.rend(); ++it) CHECK(&*it == &a.elems[--i]); CHECK(&a.front() == a.elems && &a.back() == a.elems + 3 && a.data() == a.elems && a.c_array() == a.elems); Z z{{}}; CHECK(same(z, e, 0)); CHECK(z.begin() == z.end()); CHECK(z == z && !(z < z)); }
HARNESS(writes) { A a = mk(); A const c = a; sc v = vp::nd<sc>(), w = vp::nd<sc>(), e[4]; int i = vp::pick<int>(0, 3); for (int k = 0; k < 4; ++k) e[k] = k == i ? w : v; A f = c.fill(v), g = c.assign(v); A h = a; h.fill(v); a.assign(v); for (int k = 0; k < 4; ++k) CHECK(f[k] == v && g[k] == v && h[k] == v && a[k] == v); switch (vp::pick<int>(0, 5)) { case 0: a[i] = w; break; case 1: a.at(i) = w; break; case 2: *a.nth(i) = w; break; case 3: a.data()[i] = w; break; case 4: *(a.begin() + i) = w; break; default: a.rbegin()[3 - i] = w; } CHECK(same(a, e, 4)); sprout::array<int, 4> t{{}}; t = a; for (int k = 0; k < 4; ++k) CHECK(t[k] == e[k]); A b = c; b.swap(a); CHECK(same(b, e, 4)); CHECK(a == c); sprout::swap(a, b); CHECK(same(a, e, 4)); std::array<sc, 4> s = a; for (int k = 0; k < 4; ++k) CHECK(s[k] == e[k]); A p = sprout::to_array(s); CHECK(p == a); sc r[4] = { e[0], e[1], e[2], e[3] }; CHECK(sprout::to_array(r) == a); CHECK(sprout::to_array(a) == a); CHECK(sprout::make_array<sc>(e[0], e[1], e[2], e[3]) == a); CHECK(sprout::make_array<sc>(e[0], e[1], e[2], e[3]).size() == 4); auto m = sprout::make_common_array(e[0], int(e[1])); CHECK(m.size() == 2 && m[0] == e[0] && m[1] == e[1]); Z z{{}}, y{{}}; z.fill(v); z.swap(y); CHECK(z.empty()); }
HARNESS(checked) { A a = mk(); A const& c = a; std::size_t i = vp::nd<std::size_t>(); bool in = i < 4; int t = 0; try { CHECK(a.at(i) == a.elems[i]); } catch (std::out_of_range const&) { ++t; } try { CHECK(c.at(i) == a.elems[i]); } catch (std::out_of_range const&) { ++t; } try { a.nth(i); } catch (std::out_of_range const&) { ++t; } try { c.nth(i); } catch (std::out_of_range const&) { ++t; } try { c.rangecheck(i); } catch (std::out_of_range const&) { ++t; } CHECK(t == (in ? 0 : 5)); }
HARNESS(order) { A a = mk(), b = mk(); bool eq = true, lt = false; for (int i = 3; i >= 0; --i) if (a[i] != b[i]) { eq = false; lt = a[i] < b[i]; } CHECK((a == b) == eq); CHECK((a != b) == !eq); CHECK((a < b) == lt); CHECK((a > b) == (!lt && !eq)); CHECK((a <= b) == (lt || eq)); CHECK((a >= b) == !lt); if (eq) CHECK(sprout::to_hash(a) == sprout::to_hash(b)); }
// random access iterators: every arithmetic relation agrees with positions
template <class It> void ra(It b, sc const* e) { int i = vp::pick<int>(0, 4), j = vp::pick<int>(0, 4); It x = b + i, y = b + j; CHECK(x - b == i && b + i == i + b && (y - x) == j - i && x + (j - i) == y && y - (j - i) == x); CHECK((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j)); It z = x; z += j - i; CHECK(z == y); z -= j - i; CHECK(z == x); if (i < 4) { CHECK(*x == e[i]); CHECK(b[i] == e[i]); CHECK(x[0] == e[i]); if (j < 4) CHECK(x[j - i] == e[j]); It p = x; CHECK(p++ == x); CHECK(p == b + (i + 1)); CHECK(p-- == b + (i + 1)); CHECK(p == x); CHECK(++p == b + (i + 1)); CHECK(--p == x); CHECK(sprout::next(x) == b + (i + 1)); CHECK(sprout::prev(b + (i + 1)) == x); } if (i <= j) CHECK(sprout::distance(x, y) == j - i); CHECK(sprout::next(x, j - i) == y); CHECK(sprout::prev(x, i - j) == y); It s = x, u = y; using std::swap; swap(s, u); CHECK(s == y && u == x); }
HARNESS(iter) { A a = mk(); ra(a.begin(), a.elems); }
HARNESS(citer) { A a = mk(); ra(a.cbegin(), a.elems); }
HARNESS(riter) { A a = mk(); sc r[4]; for (int i = 0; i < 4; ++i) r[i] = a.elems[3 - i]; ra(a.rbegin(), r); ra(a.crbegin(), r); CHECK(a.rbegin().base() == a.end()); }
// the container functions
template <class X> void fn(X& x, int n, sc const* e) { CHECK((int)sprout::size(x) == n); CHECK(sprout::empty(x) == (n == 0)); int k = 0; for (auto it = sprout::begin(x); it != sprout::end(x); ++it, ++k) CHECK(*it == e[k]); CHECK(k == n); k = 0; for (auto it = sprout::cbegin(x); it != sprout::cend(x); ++it, ++k) CHECK(*it == e[k]); CHECK(k == n); CHECK(sprout::front(x) == e[0] && sprout::back(x) == e[n - 1]); for (int i = 0; i < n; ++i) { CHECK(*sprout::nth(x, i) == e[i] && sprout::at(x, i) == e[i] && sprout::subscript_at(x, i) == e[i] && (int)sprout::index_of(x, sprout::nth(x, i)) == i && *sprout::cnth(x, i) == e[i] && sprout::data(x)[i] == e[i]); } std::size_t j = vp::nd<std::size_t>(); bool t = false; try { CHECK(sprout::at(x, j) == e[j]); } catch (std::out_of_range const&) { t = true; } CHECK(t == (j >= (std::size_t)n)); }
HARNESS(fn_array) { A a = mk(); A const c = a; fn(a, 4, a.elems); fn(c, 4, a.elems); }
HARNESS(fn_c) { sc a[4]; for (int i = 0; i < 4; ++i) a[i] = vp::nd<sc>(); sc const (&c)[4] = a; fn(a, 4, a); fn(c, 4, a); }
HARNESS(fn_std) { std::array<sc, 4> a; sc e[4]; for (int i = 0; i < 4; ++i) a[i] = e[i] = vp::nd<sc>(); std::array<sc, 4> const& c = a; fn(a, 4, e); fn(c, 4, e); }
HARNESS(pit) { sc v = vp::nd<sc>(), w = vp::nd<sc>(); sprout::pit<A> p(v); CHECK(p.size() == 4 && !p.empty()); int n = 0; for (auto it = p.begin(); it != p.end(); ++it, ++n) CHECK(*it == v); CHECK(n == 4); for (int i = 0; i < 4; ++i) CHECK(p[i] == v && p.at(i) == v); p = w; CHECK(p[0] == w && p.front() == w && p.back() == w); sprout::pit<A> q(v); sprout::swap(p, q); CHECK(p[1] == v && q[2] == w); CHECK((p == q) == (v == w)); CHECK((p < q) == (v < w)); std::size_t i = vp::nd<std::size_t>(); bool t = false; try { p.at(i); } catch (std::out_of_range const&) { t = true; } CHECK(t == (i >= 4)); }
