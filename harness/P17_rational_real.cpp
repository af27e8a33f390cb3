// P17: rational numbers with the real gcd (P17_rational.cpp has larger values with the contract of gcd in its place)
#include "vpu.hpp"
#include <sprout/rational.hpp>
// VP-OPT: * max-instr=200000000
typedef sprout::rational<int> R;
static const int LN = VP_THOROUGH ? 4 : 2, LD = VP_THOROUGH ? 4 : 3;
static R nd_r() { int n = vp::pick<int>(-LN, LN), d = vp::pick<int>(1, LD); return R(n, d); }
static bool norm(R const& r) { int d = vp::range<int>(2, 127); return r.denominator() > 0 && !(r.numerator() % d == 0 && r.denominator() % d == 0); }
static bool is(R const& r, int n, int d) { return norm(r) && (long)r.numerator() * d == (long)n * r.denominator(); }
#define AB R a = nd_r(), b = nd_r(); int an = a.numerator(), ad = a.denominator(), bn = b.numerator(), bd = b.denominator(); (void)an; (void)ad; (void)bn; (void)bd;
HARNESS(assign) { AB; R& x = (a = b); CHECK(&x == &a); CHECK(a.numerator() == bn && a.denominator() == bd); CHECK(b.numerator() == bn && b.denominator() == bd); a = a; CHECK(a.numerator() == bn && a.denominator() == bd); R c(3, 7); sprout::swap(a, c); CHECK(c.numerator() == bn && c.denominator() == bd && a.numerator() == 3 && a.denominator() == 7); bool thr = false; try { a.assign(1, 0); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr); CHECK(a.numerator() == 3 && a.denominator() == 7); }
HARNESS(add) { AB; CHECK(is(a + b, an * bd + bn * ad, ad * bd)); R c = a; R& x = (c += b); CHECK(&x == &c); CHECK(c.numerator() == (a + b).numerator() && c.denominator() == (a + b).denominator()); }
HARNESS(sub) { AB; CHECK(is(a - b, an * bd - bn * ad, ad * bd)); R c = a; c -= b; CHECK(c.numerator() == (a - b).numerator() && c.denominator() == (a - b).denominator()); }
HARNESS(mul) { AB; CHECK(is(a * b, an * bn, ad * bd)); R c = a; c *= b; CHECK(c.numerator() == (a * b).numerator() && c.denominator() == (a * b).denominator()); }
HARNESS(div) { AB; bool thr = false; try { R q = a / b; CHECK(bn != 0); CHECK(is(q, an * bd, ad * bn)); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr == (bn == 0)); }
HARNESS(div_eq) { AB; bool thr = false; R c = a; try { c /= b; CHECK(bn != 0); CHECK(is(c, an * bd, ad * bn)); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr == (bn == 0)); if (thr) CHECK(c.numerator() == an && c.denominator() == ad); }
HARNESS(self) { R a = nd_r(); int an = a.numerator(), ad = a.denominator(); R c = a; c += c; CHECK(is(c, 2 * an, ad)); c = a; c -= c; CHECK(is(c, 0, 1)); c = a; c *= c; CHECK(is(c, an * an, ad * ad)); if (an) { c = a; c /= c; CHECK(is(c, 1, 1)); } CHECK(is(a + a, 2 * an, ad) && is(a - a, 0, 1) && is(a * a, an * an, ad * ad)); }
HARNESS(order) { AB; int l = an * bd, r = bn * ad; CHECK((a == b) == (l == r)); CHECK((a != b) == (l != r)); CHECK((a < b) == (l < r)); CHECK((a > b) == (l > r)); CHECK((a <= b) == (l <= r)); CHECK((a >= b) == (l >= r)); }
HARNESS(order_large) { int k = vp::pick<int>(0, 3), d = vp::pick<int>(1, 3); R a(2147483647 - k, 2), b(2147483646, d); long l = (long)a.numerator() * b.denominator(), r = (long)b.numerator() * a.denominator(); CHECK((a < b) == (l < r)); CHECK((b < a) == (r < l)); CHECK((a == b) == (l == r)); R c(-(2147483647 - k), 2), e(-2147483646, d); CHECK((c < e) == (r < l)); CHECK((e < c) == (l < r)); }
HARNESS(parts) { R a = nd_r(); CHECK(sprout::tuples::get<0>(a) == a.numerator() && sprout::tuples::get<1>(a) == a.denominator()); R const& c = a; CHECK(*sprout::begin(c) == a.numerator() && sprout::begin(c)[1] == a.denominator() && sprout::end(c) - sprout::begin(c) == 2 && sprout::size(c) == 2); R b(a.numerator() * 3, a.denominator() * 3); CHECK(b == a); CHECK(sprout::to_hash(a) == sprout::to_hash(b)); CHECK(sprout::hash<R>()(a) == sprout::hash_value(b)); }
typedef sprout::rational<long long> L;
HARNESS(ll_rational) { L a(vp::pick<int>(-4, 4), vp::pick<int>(1, 4)), b(vp::pick<int>(-4, 4), 6); L s = a + b; CHECK(s.numerator() * a.denominator() * b.denominator() == (a.numerator() * b.denominator() + b.numerator() * a.denominator()) * s.denominator()); CHECK(s.denominator() > 0); L c = a; c += c; CHECK(c == a * 2LL); CHECK((a < b) == (a.numerator() * b.denominator() < b.numerator() * a.denominator())); CHECK(sprout::rational_cast<long long>(a) == a.numerator() / a.denominator()); }
// numerator and denominator far from zero: cancelling before multiplying keeps the result in the type
HARNESS(cancel) { int k = vp::pick<int>(0, 28); int u = 1 << k; int x = vp::pick<int>(1, 4), y = vp::pick<int>(1, 4); R a(u, x), b(y, u); R m = a * b; CHECK(is(m, y, x)); R q = a / R(u, y); CHECK(is(q, y, x)); R c(x, u); c += R(y, u); CHECK(is(c, x + y, u)); }
