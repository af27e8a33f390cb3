// P12: character classification and case mapping
#include "vpu.hpp"
#include <sprout/ctype.hpp>
#include <sprout/ctype/functor.hpp>
#include <sprout/cctype.hpp>
#include <sprout/cwctype.hpp>
typedef long long ll;
struct Cls { bool alpha, blank, cntrl, digit, graph, lower, print, punct, space, upper, xdigit, alnum; ll lo, up; };
// the classes of ISO C in the "C" locale, for every code point; none above 127
static Cls of(ll c) {
  Cls k; k.upper = c >= 'A' && c <= 'Z'; k.lower = c >= 'a' && c <= 'z'; k.alpha = k.upper || k.lower; k.digit = c >= '0' && c <= '9'; k.alnum = k.alpha || k.digit;
  k.blank = c == ' ' || c == '\t'; k.space = c == ' ' || (c >= 9 && c <= 13); k.cntrl = (c >= 0 && c < 32) || c == 127; k.print = c >= 32 && c < 127; k.graph = c > 32 && c < 127; k.punct = k.graph && !k.alnum; k.xdigit = k.digit || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
  k.lo = k.upper ? c + 32 : c; k.up = k.lower ? c - 32 : c; return k;
}
template <class C> void plain() {
  C c = vp::nd<C>(); Cls k = of((ll)c);
  CHECK(sprout::isalnum(c) == k.alnum); CHECK(sprout::isalpha(c) == k.alpha); CHECK(sprout::isblank(c) == k.blank); CHECK(sprout::iscntrl(c) == k.cntrl); CHECK(sprout::isdigit(c) == k.digit); CHECK(sprout::isgraph(c) == k.graph);
  CHECK(sprout::islower(c) == k.lower); CHECK(sprout::isprint(c) == k.print); CHECK(sprout::ispunct(c) == k.punct); CHECK(sprout::isspace(c) == k.space); CHECK(sprout::isupper(c) == k.upper); CHECK(sprout::isxdigit(c) == k.xdigit);
  CHECK(sprout::tolower(c) == (C)k.lo); CHECK(sprout::toupper(c) == (C)k.up);
}
HARNESS(plain_char) { plain<char>(); }
HARNESS(plain_wchar) { plain<wchar_t>(); }
HARNESS(plain_char16) { plain<char16_t>(); }
HARNESS(plain_char32) { plain<char32_t>(); }
HARNESS(wide) {
  wchar_t c = vp::nd<wchar_t>(); Cls k = of(c);
  CHECK(sprout::iswalnum(c) == k.alnum); CHECK(sprout::iswalpha(c) == k.alpha); CHECK(sprout::iswblank(c) == k.blank); CHECK(sprout::iswcntrl(c) == k.cntrl); CHECK(sprout::iswdigit(c) == k.digit); CHECK(sprout::iswgraph(c) == k.graph);
  CHECK(sprout::iswlower(c) == k.lower); CHECK(sprout::iswprint(c) == k.print); CHECK(sprout::iswpunct(c) == k.punct); CHECK(sprout::iswspace(c) == k.space); CHECK(sprout::iswupper(c) == k.upper); CHECK(sprout::iswxdigit(c) == k.xdigit);
  CHECK(sprout::towlower(c) == (wchar_t)k.lo); CHECK(sprout::towupper(c) == (wchar_t)k.up);
}
namespace ct = sprout::ctypes;
template <class C> void functors() {
  C c = vp::nd<C>(), d = vp::nd<C>(); Cls k = of((ll)c), m = of((ll)d);
#define F(n, f) CHECK(ct::is_##n<C>()(c) == k.f); CHECK(ct::is_##n<>()(c) == k.f);
  F(alnum, alnum) F(alpha, alpha) F(blank, blank) F(cntrl, cntrl) F(digit, digit) F(graph, graph) F(lower, lower) F(print, print) F(punct, punct) F(space, space) F(upper, upper) F(xdigit, xdigit)
#undef F
  CHECK(ct::to_lower<C>()(c) == (C)k.lo); CHECK(ct::to_lower<>()(c) == (C)k.lo); CHECK(ct::to_upper<C>()(c) == (C)k.up); CHECK(ct::to_upper<>()(c) == (C)k.up);
  CHECK(ct::nocase_equal_to<C>()(c, d) == (k.lo == m.lo)); CHECK(ct::nocase_equal_to<>()(c, d) == (k.lo == m.lo)); CHECK(ct::nocase_not_equal_to<C>()(c, d) == (k.lo != m.lo)); CHECK(ct::nocase_not_equal_to<>()(c, d) == (k.lo != m.lo));
}
HARNESS(functors_char) { functors<char>(); }
HARNESS(functors_wchar) { functors<wchar_t>(); }
HARNESS(functors_char16) { functors<char16_t>(); }
// a character is classified by a mask iff it is in one of the classes the mask names
template <class C> void classified() {
  C c = vp::nd<C>(); Cls k = of((ll)c); int w = vp::pick<int>(0, 11), v = vp::pick<int>(0, 11);
  static const ct::mask ms[] = {ct::space, ct::print, ct::cntrl, ct::upper, ct::lower, ct::alpha, ct::digit, ct::punct, ct::xdigit, ct::blank, ct::alnum, ct::graph};
  bool in[] = {k.space, k.print, k.cntrl, k.upper, k.lower, k.alpha, k.digit, k.punct, k.xdigit, k.blank, k.alnum, k.graph};
  bool want = in[w] || in[v]; CHECK(sprout::isclassified(ms[w] | ms[v], c) == want); CHECK(ct::is_classified<C>(ms[w] | ms[v])(c) == want); CHECK(ct::is_classified<>(ms[w] | ms[v])(c) == want);
}
HARNESS(classified_char) { classified<char>(); }
HARNESS(classified_char16) { classified<char16_t>(); }
