// P17: rational numbers
#include "vpu.hpp"
#include <sprout/math/gcd.hpp>
// VP-OPT: * max-instr=200000000
// Here gcd<int> stands for any value that has the properties P17_gcd.cpp shows of it: a common divisor that is a linear
// combination of both (so every common divisor divides it), and not negative.
namespace sprout { namespace math { template <> class gcd_evaluator<int> { public: typedef int result_type; int operator()(int const& a, int const& b) const {
  int g = vp::nd<unsigned char>(), x = vp::nd<signed char>(), y = vp::nd<signed char>(), p = vp::nd<signed char>(), q = vp::nd<signed char>();
#ifdef VP_SYM
  if (a == 0 && b == 0) return 0;
  ASSUME(g > 0 && g < 128); ASSUME(a < 128 && a > -128 && b < 128 && b > -128); ASSUME(g * p == a && g * q == b && a * x + b * y == g); return g;
#else // the replay: the draws are only used up; those properties have one solution
  (void)(g + x + y + p + q); int u = a < 0 ? -a : a, v = b < 0 ? -b : b; while (v) { int t = u % v; u = v; v = t; } return u;
#endif
} }; } }
#include <sprout/rational.hpp>
typedef sprout::rational<int> R;
// ---- rational
static const int LN = VP_THOROUGH ? 9 : 5, LD = VP_THOROUGH ? 7 : 4;
static R nd_r() { int n = vp::range<int>(-LN, LN), d = vp::range<int>(1, LD); return R(n, d); }
// in lowest terms, with a positive denominator: no number above 1 divides both
static bool norm(R const& r) { int d = vp::range<int>(2, 127); return r.denominator() > 0 && !(r.numerator() % d == 0 && r.denominator() % d == 0); }
static bool is(R const& r, int n, int d) { return norm(r) && (long)r.numerator() * d == (long)n * r.denominator(); }
#define AB R a = nd_r(), b = nd_r(); int an = a.numerator(), ad = a.denominator(), bn = b.numerator(), bd = b.denominator(); (void)an; (void)ad; (void)bn; (void)bd;
#define AI R a = nd_r(); int an = a.numerator(), ad = a.denominator(); int i = vp::range<int>(-LN, LN);
HARNESS(make) { int n = vp::range<int>(-20, 20), d = vp::range<int>(-12, 12); bool thr = false; try { R r(n, d); CHECK(d != 0); CHECK(is(r, n, d)); R q; q.assign(n, d); CHECK(q.numerator() == r.numerator() && q.denominator() == r.denominator()); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr == (d == 0)); }
HARNESS(make_int) { int n = vp::nd<int>(); R r(n); CHECK(r.numerator() == n && r.denominator() == 1); R z; CHECK(z.numerator() == 0 && z.denominator() == 1); z = n; CHECK(z.numerator() == n && z.denominator() == 1); R c(r); CHECK(c.numerator() == n && c.denominator() == 1); }
HARNESS(assign) { AB; R& x = (a = b); CHECK(&x == &a); CHECK(a.numerator() == bn && a.denominator() == bd); CHECK(b.numerator() == bn && b.denominator() == bd); a = a; CHECK(a.numerator() == bn && a.denominator() == bd); R c(3, 7); sprout::swap(a, c); CHECK(c.numerator() == bn && c.denominator() == bd && a.numerator() == 3 && a.denominator() == 7); bool thr = false; try { a.assign(1, 0); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr); CHECK(a.numerator() == 3 && a.denominator() == 7); }
HARNESS(add) { AB; CHECK(is(a + b, an * bd + bn * ad, ad * bd)); R c = a; R& x = (c += b); CHECK(&x == &c); CHECK(c.numerator() == (a + b).numerator() && c.denominator() == (a + b).denominator()); }
HARNESS(sub) { AB; CHECK(is(a - b, an * bd - bn * ad, ad * bd)); R c = a; c -= b; CHECK(c.numerator() == (a - b).numerator() && c.denominator() == (a - b).denominator()); }
HARNESS(mul) { AB; CHECK(is(a * b, an * bn, ad * bd)); R c = a; c *= b; CHECK(c.numerator() == (a * b).numerator() && c.denominator() == (a * b).denominator()); }
HARNESS(div) { AB; bool thr = false; try { R q = a / b; CHECK(bn != 0); CHECK(is(q, an * bd, ad * bn)); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr == (bn == 0)); }
HARNESS(div_eq) { AB; bool thr = false; R c = a; try { c /= b; CHECK(bn != 0); CHECK(is(c, an * bd, ad * bn)); } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr == (bn == 0)); if (thr) CHECK(c.numerator() == an && c.denominator() == ad); }
HARNESS(self) { R a = nd_r(); int an = a.numerator(), ad = a.denominator(); R c = a; c += c; CHECK(is(c, 2 * an, ad)); c = a; c -= c; CHECK(is(c, 0, 1)); c = a; c *= c; CHECK(is(c, an * an, ad * ad)); if (an) { c = a; c /= c; CHECK(is(c, 1, 1)); } CHECK(is(a + a, 2 * an, ad) && is(a - a, 0, 1) && is(a * a, an * an, ad * ad)); }
HARNESS(add_int) { AI; CHECK(is(a + i, an + i * ad, ad)); CHECK(is(i + a, an + i * ad, ad)); R c = a; c += i; CHECK(is(c, an + i * ad, ad)); CHECK(is(a - i, an - i * ad, ad)); CHECK(is(i - a, i * ad - an, ad)); c = a; c -= i; CHECK(is(c, an - i * ad, ad)); }
HARNESS(mul_int) { AI; CHECK(is(a * i, an * i, ad)); CHECK(is(i * a, an * i, ad)); R c = a; c *= i; CHECK(is(c, an * i, ad)); }
HARNESS(div_int) { AI; if (i) { CHECK(is(a / i, an, ad * i)); R c = a; c /= i; CHECK(is(c, an, ad * i)); } if (an) CHECK(is(i / a, i * ad, an)); bool thr = false; try { a / 0; } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr); thr = false; try { a /= 0; } catch (sprout::bad_rational const&) { thr = true; } CHECK(thr); }
HARNESS(unary) { R a = nd_r(); int an = a.numerator(), ad = a.denominator(); CHECK(is(-a, -an, ad)); CHECK(is(+a, an, ad)); CHECK(is(sprout::abs(a), an < 0 ? -an : an, ad)); CHECK(!a == (an == 0)); CHECK(static_cast<bool>(a) == (an != 0)); R c = a; CHECK(is(++c, an + ad, ad)); CHECK(is(c++, an + ad, ad)); CHECK(is(c, an + 2 * ad, ad)); CHECK(is(--c, an + ad, ad)); CHECK(is(c--, an + ad, ad)); CHECK(is(c, an, ad)); CHECK(sprout::rational_cast<int>(a) == an / ad); }
HARNESS(order) { AB; int l = an * bd, r = bn * ad; CHECK((a == b) == (l == r)); CHECK((a != b) == (l != r)); CHECK((a < b) == (l < r)); CHECK((a > b) == (l > r)); CHECK((a <= b) == (l <= r)); CHECK((a >= b) == (l >= r)); }
HARNESS(order_wide) { R a(vp::range<int>(-40, 40), 7), b(vp::range<int>(-40, 40), 5); int l = a.numerator() * b.denominator(), r = b.numerator() * a.denominator(); CHECK((a < b) == (l < r)); CHECK((b < a) == (r < l)); CHECK((a <= b) == (l <= r)); }
HARNESS(order_int) { AI; int r = i * ad; CHECK((a == i) == (an == r)); CHECK((i == a) == (an == r)); CHECK((a != i) == (an != r)); CHECK((i != a) == (an != r)); CHECK((a < i) == (an < r)); CHECK((i < a) == (r < an)); CHECK((a > i) == (an > r)); CHECK((i > a) == (r > an)); CHECK((a <= i) == (an <= r)); CHECK((i <= a) == (r <= an)); CHECK((a >= i) == (an >= r)); CHECK((i >= a) == (r >= an)); }
HARNESS(parts) { R a = nd_r(); CHECK(sprout::tuples::get<0>(a) == a.numerator() && sprout::tuples::get<1>(a) == a.denominator()); R const& c = a; CHECK(*sprout::begin(c) == a.numerator() && sprout::begin(c)[1] == a.denominator() && sprout::end(c) - sprout::begin(c) == 2 && sprout::size(c) == 2); R b(a.numerator() * 3, a.denominator() * 3); CHECK(b == a); CHECK(sprout::to_hash(a) == sprout::to_hash(b)); CHECK(sprout::hash<R>()(a) == sprout::hash_value(b)); }
