// Walkers: an iterator pair compared, in every way its category offers, with the plain sequence it stands for.
#ifndef WALK_HPP
#define WALK_HPP
#include <sprout/iterator/operation.hpp>
#include <sprout/iterator/distance.hpp>
#include <sprout/iterator/next.hpp>
#include <sprout/iterator/prev.hpp>
template <class T> struct Ref { int n; T a[16]; Ref() : n(0) {} void add(T x) { a[n++] = x; } };
template <class T> void swp(T*& a, T*& b) { T* t = a; a = b; b = t; }
template <class It> void swp(It& a, It& b) { swap(a, b); }
template <class T> void mswp(T*& a, T*& b) { T* t = a; a = b; b = t; }
template <class It> void mswp(It& a, It& b) { a.swap(b); }
template <class It, class T> bool eqv(It it, Ref<T> const& r, int i) { return T(*it) == r.a[i]; }
// forwards: pre and post increment, sprout::next, comparison, distance, copies stay where they are
template <class It, class T> void fwd(It const b, It const e, Ref<T> const& r) {
  int i = 0; for (It it = b; it != e; ++it, ++i) { CHECK(i < r.n); if (i >= r.n) return; CHECK(eqv(it, r, i)); CHECK(!(it == e)); } CHECK(i == r.n);
  It p = b; for (i = 0; i < r.n; ++i) { It q = p++; CHECK(eqv(q, r, i)); CHECK(!(q == p) && q != p); } CHECK(p == e && !(p != e));
  It s = b; for (i = 0; i < r.n; ++i) { It k = s; CHECK(s == k); s = sprout::next(s); CHECK(eqv(k, r, i)); } CHECK(s == e);
  if (r.n > 1) { int k = vp::pick<int>(0, r.n - 1); It x = sprout::next(b, k); CHECK(eqv(x, r, k)); It a = b, c = x; mswp(a, c); CHECK(eqv(a, r, k) && eqv(c, r, 0)); swp(a, c); CHECK(eqv(a, r, 0) && eqv(c, r, k)); CHECK(a == b && c == x); ++a; c = a; CHECK(c == a && eqv(c, r, 1)); }
  CHECK(sprout::distance(b, e) == r.n); }
template <class It, class T> void bid(It const b, It const e, Ref<T> const& r) { fwd(b, e, r); It it = e; for (int i = r.n - 1; i >= 0; --i) { --it; CHECK(eqv(it, r, i)); } CHECK(it == b); it = e; for (int i = r.n - 1; i >= 0; --i) { It q = it--; CHECK(eqv(it, r, i)); if (i < r.n - 1) CHECK(eqv(q, r, i + 1)); else CHECK(q == e); } CHECK(it == b); it = e; for (int i = r.n - 1; i >= 0; --i) { it = sprout::prev(it); CHECK(eqv(it, r, i)); } CHECK(it == b); for (int i = 0; i < r.n; ++i) { ++it; It z = it; --z; CHECK(eqv(z, r, i)); } CHECK(it == e); }
// random access: from any position to any other
template <class It, class T> void ra(It const b, It const e, Ref<T> const& r) { bid(b, e, r); CHECK(e - b == r.n); CHECK(b - e == -r.n); int i = vp::pick<int>(0, r.n), j = vp::pick<int>(0, r.n); It x = b + i, y = b; for (int k = 0; k < j; ++k) ++y; CHECK(x + (j - i) == y); CHECK(x - (i - j) == y); CHECK((j - i) + x == y); CHECK(sprout::next(x, j - i) == y); CHECK(sprout::prev(x, i - j) == y); It z = x; z += j - i; CHECK(z == y); z -= j - i; CHECK(z == x); CHECK(y - x == j - i); CHECK((x == y) == (i == j)); CHECK((x != y) == (i != j)); CHECK((x < y) == (i < j)); CHECK((x > y) == (i > j)); CHECK((x <= y) == (i <= j)); CHECK((x >= y) == (i >= j)); if (j < r.n) { CHECK(T(x[j - i]) == r.a[j]); CHECK(eqv(x + (j - i), r, j)); } z = e; z -= r.n - j; CHECK(z == y); if (j < r.n) CHECK(eqv(z, r, j)); CHECK(e + (i - r.n) == x); z = x; sprout::advance(z, j - i); CHECK(z == y); }
#endif
