// P18: variant
#include "vpu.hpp"
#include <sprout/variant.hpp>
#include <sprout/optional.hpp>
#include <sprout/tuple.hpp>
#include <sprout/functional/hash.hpp>
#include <functional>
struct P { short a; short b; bool operator==(P const& o) const { return a == o.a && b == o.b; } bool operator<(P const& o) const { return a < o.a; } };
typedef sprout::variant<int, uc, P> V;
struct M { int w; int i; uc c; P p; };
static M ndm() { M m; m.w = vp::pick<int>(0, 2); m.i = vp::nd<int>(); m.c = vp::nd<uc>(); m.p.a = vp::nd<short>(); m.p.b = vp::nd<short>(); return m; }
static V mk(M const& m) { return m.w == 0 ? V(m.i) : m.w == 1 ? V(m.c) : V(m.p); }
struct Vis { typedef int result_type; int operator()(int x) const { return x ^ 0x55; } int operator()(uc x) const { return 1000 + x; } int operator()(P const& x) const { return x.a * 3 + x.b; } };
struct Inc { typedef void result_type; void operator()(int& x) const { x = 1; } void operator()(uc& x) const { x = 2; } void operator()(P& x) const { x.a = 3; x.b = 4; } };
struct SV : sprout::static_visitor<int> { template <class T> int operator()(T const&) const { return (int)sizeof(T); } };
static int vis(M const& m) { return m.w == 0 ? m.i ^ 0x55 : m.w == 1 ? 1000 + m.c : m.p.a * 3 + m.p.b; }
static bool is(V const& v, M const& m) { return v.which() == m.w && !v.empty() && (m.w == 0 ? sprout::get<int>(v) == m.i && sprout::tuples::get<0>(v) == m.i && v.get_at<0>() == m.i : m.w == 1 ? sprout::get<uc>(v) == m.c && sprout::tuples::get<1>(v) == m.c && v.get_at<1>() == m.c : sprout::get<P>(v) == m.p && sprout::tuples::get<2>(v) == m.p && v.get<P>() == m.p); }
HARNESS(construct) { M m = ndm(); V v = mk(m); CHECK(is(v, m)); V c(v); CHECK(is(c, m)); V d(sprout::move(c)); CHECK(is(d, m)); V z; CHECK(z.which() == 0 && sprout::get<int>(z) == 0); }
HARNESS(modify) { M m = ndm(), n = ndm(); V a = mk(m), b = mk(n); int k = vp::pick<int>(0, 8);
  switch (k) { case 0: CHECK(&(a = b) == &a); CHECK(is(a, n)); CHECK(is(b, n)); break; case 1: a = V(b); CHECK(is(a, n)); break; case 2: a = n.i; n.w = 0; CHECK(is(a, n)); break; case 3: a = n.c; n.w = 1; CHECK(is(a, n)); break; case 4: a = n.p; n.w = 2; CHECK(is(a, n)); break;
  case 5: a.swap(b); CHECK(is(a, n)); CHECK(is(b, m)); break; case 6: sprout::swap(a, b); CHECK(is(a, n)); CHECK(is(b, m)); break; case 7: { V const c(b); a = c; CHECK(is(a, n)); CHECK(is(c, n)); break; } default: if (m.w == 0) { sprout::get<int>(a) = n.i; m.i = n.i; } else if (m.w == 1) { sprout::tuples::get<1>(a) = n.c; m.c = n.c; } else { a.get<P>() = n.p; m.p = n.p; } CHECK(is(a, m)); } }
HARNESS(self) { M m = ndm(); V a = mk(m); a = a; CHECK(is(a, m)); a.swap(a); CHECK(is(a, m)); }
HARNESS(visit) { M m = ndm(); ASSUME(m.p.a < 100 && m.p.a > -100); V a = mk(m); V const& c = a; CHECK(sprout::apply_visitor(Vis(), a) == vis(m)); CHECK(sprout::apply_visitor(Vis(), c) == vis(m)); CHECK(c.apply_visitor(Vis()) == vis(m)); CHECK(sprout::apply_visitor(Vis(), mk(m)) == vis(m)); CHECK(sprout::apply_visitor(SV(), c) == (m.w == 0 ? 4 : m.w == 1 ? 1 : 4)); sprout::apply_visitor(Inc(), a); m.i = 1; m.c = 2; m.p.a = 3; m.p.b = 4; CHECK(is(a, m)); }
HARNESS(order) { M m = ndm(), n = ndm(); V a = mk(m), b = mk(n); bool same = m.w == n.w; bool eq = same && (m.w == 0 ? m.i == n.i : m.w == 1 ? m.c == n.c : m.p == n.p); bool lt = m.w < n.w || (same && (m.w == 0 ? m.i < n.i : m.w == 1 ? m.c < n.c : m.p < n.p)); bool gt = n.w < m.w || (same && (m.w == 0 ? n.i < m.i : m.w == 1 ? n.c < m.c : n.p < m.p)); CHECK((a == b) == eq); CHECK((a != b) == !eq); CHECK((a < b) == lt); CHECK((a > b) == gt); CHECK((a <= b) == !gt); CHECK((a >= b) == !lt); }
typedef sprout::variant<int, uc, long> H;
HARNESS(hash_eq) { int w = vp::pick<int>(0, 2); uc x = vp::nd<uc>(), y = vp::nd<uc>(); H a = w == 0 ? H((int)x) : w == 1 ? H(x) : H((long)x), b = w == 0 ? H((int)y) : w == 1 ? H(y) : H((long)y); if (a == b) { CHECK(sprout::to_hash(a) == sprout::to_hash(b)); CHECK(std::hash<H>()(a) == sprout::hash_value(b)); } }
HARNESS(one_type) { int x = vp::nd<int>(); sprout::variant<int> v(x); CHECK(v.which() == 0 && sprout::get<int>(v) == x); v = 5; CHECK(sprout::get<int>(v) == 5); }
// the value of another alternative left behind by an earlier assignment does not influence comparison, hash or visit
HARNESS(history) { M m = ndm(), n = ndm(), o = ndm(); V a = mk(m); a = mk(n); V b = mk(o); V c = mk(n); CHECK(a == c); CHECK(!(a < c) && !(c < a)); b = a; b = mk(o); CHECK(is(b, o)); CHECK(is(a, n)); }
