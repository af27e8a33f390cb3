// P04: container-to-container transforming algorithms, on whole arrays and on windows of them
#include "vpu.hpp"
#include <sprout/algorithm.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/functional.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/tuple.hpp>
static const int N = VP_THOROUGH ? 6 : 5;
typedef sprout::array<sc, N> A;
template <class O> void placed(O const& a, A const& r, int off, int size, sc const* e, int k) { bool ok = true; for (int i = 0; i < N; ++i) { int j = i - off; ok &= a[i] == (j >= 0 && j < size && j < k ? e[j < 0 ? 0 : j] : r[i]); } CHECK(ok); }
// f(container) transforms; exp(source, n, e) gives the k elements the container must start with; fit gives how many of them the window holds
template <class F> void whole(F const& f) { A a = nd_array<sc, N>(); sc e[N + 2]; int k = f.exp(a, 0, N, e); auto o = f.fx(a); CHECK(o.size() == N); placed(o, a, 0, N, e, k); auto w = f.ft(a); int m = f.fit(k, a, 0, N); CHECK((int)w.size() == m); placed(w.get_array(), a, 0, N, e, k); for (int i = 0; i < m; ++i) CHECK(w[i] == e[i]); }
template <class F> void part(F const& f) { A a = nd_array<sc, N>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); sc e[N + 2]; int k = f.exp(a, b, l - b, e); auto o = f.fx(s); CHECK((int)o.size() == l - b); placed(o.get_array(), a, b, l - b, e, k); auto w = f.ft(s); int m = f.fit(k, a, b, l - b); CHECK((int)w.size() == m); placed(w.get_array(), a, b, l - b, e, k); for (int i = 0; i < m; ++i) CHECK(w[i] == e[i]); }
#define COMMA ,
#define OPF(NAME, FN, MEM, EXP, FIT, ...) struct F_##NAME { MEM template <class Q> int exp(Q const& q, int b, int n, sc* e) const { int k = 0; auto s = [&](int i) { return q[b + i]; }; EXP; return k; } template <class Q> int fit(int k, Q const& q, int b, int n) const { auto s = [&](int i) { return q[b + i]; }; FIT; } \
  template <class C> auto fx(C const& c) const -> decltype(sprout::fixed::FN(c __VA_ARGS__)) { return sprout::fixed::FN(c __VA_ARGS__); } template <class C> auto ft(C const& c) const -> decltype(sprout::fit::FN(c __VA_ARGS__)) { return sprout::fit::FN(c __VA_ARGS__); } }; \
  HARNESS(NAME) { whole(F_##NAME()); } HARNESS(NAME##_window) { part(F_##NAME()); }
#define FORI for (int i = 0; i < n; ++i)
OPF(remove, remove, sc v = vp::nd<sc>();, FORI if (s(i) != v) e[k++] = s(i), return k, COMMA v)
OPF(remove_if, remove_if, Below p = {vp::nd<sc>()};, FORI if (!p(s(i))) e[k++] = s(i), return k, COMMA p)
OPF(replace, replace, sc v = vp::nd<sc>(); sc w = vp::nd<sc>();, FORI e[k++] = s(i) == v ? w : s(i), return n, COMMA v COMMA w)
OPF(replace_if, replace_if, Below p = {vp::nd<sc>()}; sc w = vp::nd<sc>();, FORI e[k++] = p(s(i)) ? w : s(i), return n, COMMA p COMMA w)
OPF(reverse, reverse, , FORI e[k++] = s(n - 1 - i), return n, )
OPF(unique, unique, , FORI if (i == 0 || s(i) != s(i - 1)) e[k++] = s(i), return k, )
OPF(unique_pred, unique, , FORI if (k == 0 || !HalfEq()(e[k - 1], s(i))) e[k++] = s(i), return k, COMMA HalfEq())
OPF(fill, fill, sc v = vp::nd<sc>();, FORI e[k++] = v, return n, COMMA v)
// the _n forms: a count within the container
OPF(fill_n, fill_n, sc v = vp::nd<sc>(); int cn = vp::pick<int>(0 COMMA N);, ASSUME(cn <= n); FORI if (i < cn) e[k++] = v, return k, COMMA cn COMMA v)
struct CR { sc lo, hi; CR() { lo = vp::nd<sc>(); hi = vp::nd<sc>(); ASSUME(lo <= hi); } sc cl(sc x) const { return x < lo ? lo : hi < x ? hi : x; } };
OPF(clamp_range, clamp_range, CR lm;, FORI e[k++] = lm.cl(s(i)), return n, COMMA lm.lo COMMA lm.hi)
struct RC { sc lo, hi; RC() { lo = vp::nd<sc>(); hi = vp::nd<sc>(); ASSUME(lo >= hi); } sc cl(sc x) const { return x > lo ? lo : hi > x ? hi : x; } };
OPF(clamp_range_comp, clamp_range, RC lm;, FORI e[k++] = lm.cl(s(i)), return n, COMMA lm.lo COMMA lm.hi COMMA Greater())
OPF(stable_partition, stable_partition, Below p = {vp::nd<sc>()};, FORI if (p(s(i))) e[k++] = s(i); FORI if (!p(s(i))) e[k++] = s(i), int c = 0; FORI c += p(s(i)); return c, COMMA p)
template <class O> void parted(O const& o, A const& a, int b, int l, Below q) { int c = 0; for (int i = b; i < l; ++i) c += q(a[i]); for (int i = b; i < l; ++i) CHECK(q(o[i]) == (i - b < c)); for (int i = 0; i < N; ++i) if (i < b || i >= l) CHECK(o[i] == a[i]); CHECK(is_perm(o, a, N)); }
HARNESS(partition) { A a = nd_array<sc, N>(); Below q = {vp::nd<sc>()}; int c = 0; for (int i = 0; i < N; ++i) c += q(a[i]); parted(sprout::fixed::partition(a, q), a, 0, N, q); auto w = sprout::fit::partition(a, q); CHECK((int)w.size() == c); parted(w.get_array(), a, 0, N, q); }
HARNESS(partition_window) { A a = nd_array<sc, N>(); Below q = {vp::nd<sc>()}; int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); int c = 0; for (int i = b; i < l; ++i) c += q(a[i]); parted(sprout::fixed::partition(s, q).get_array(), a, b, l, q); auto w = sprout::fit::partition(s, q); CHECK((int)w.size() == c); for (int i = 0; i < c; ++i) CHECK(q(w[i])); parted(w.get_array(), a, b, l, q); }
HARNESS(rotate) { A a = nd_array<sc, N>(); int m = vp::pick<int>(0, N); auto o = sprout::fixed::rotate(a, a.cbegin() + m); auto w = sprout::fit::rotate(a, a.cbegin() + m); CHECK(w.size() == N); for (int i = 0; i < N; ++i) CHECK(o[i] == a[(i + m) % N] && w[i] == o[i]); }
HARNESS(rotate_window) { A a = nd_array<sc, N>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N), n = l - b; auto s = sprout::sub_copy(a, b, l); int m = vp::pick<int>(0, n); auto o = sprout::fixed::rotate(s, s.cbegin() + m); auto w = sprout::fit::rotate(s, s.cbegin() + m); sc e[N]; for (int i = 0; i < n; ++i) e[i] = a[b + (i + m) % n]; placed(o.get_array(), a, b, n, e, n); placed(w.get_array(), a, b, n, e, n); CHECK((int)w.size() == n); }
HARNESS(swap_element) { A a = nd_array<sc, N>(); int p = vp::pick<int>(0, N - 1), q = vp::pick<int>(0, N - 1); auto o = sprout::fixed::swap_element(a, a.cbegin() + p, a.cbegin() + q); auto w = sprout::fit::swap_element(a, a.cbegin() + p, a.cbegin() + q); CHECK(w.size() == N); for (int i = 0; i < N; ++i) CHECK(o[i] == (i == p ? a[q] : i == q ? a[p] : a[i]) && w[i] == o[i]); }
HARNESS(swap_element_window) { A a = nd_array<sc, N>(); int b = vp::pick<int>(0, 2), l = vp::pick<int>(3, N), n = l - b; auto s = sprout::sub_copy(a, b, l); int p = vp::pick<int>(0, n - 1), q = vp::pick<int>(0, n - 1); auto o = sprout::fixed::swap_element(s, s.cbegin() + p, s.cbegin() + q).get_array(); for (int i = 0; i < N; ++i) CHECK(o[i] == (i == b + p ? a[b + q] : i == b + q ? a[b + p] : a[i])); }
// generators: a value and the next generator
struct G; typedef sprout::pair<sc, G> VG; struct G { sc x, m; VG operator()() const; }; inline VG G::operator()() const { return VG(x, G{(sc)((x >> 1) ^ m), m}); }
static void genseq(G g, sc* e, int n) { for (int i = 0; i < n; ++i) { e[i] = g.x; g.x = (sc)((g.x >> 1) ^ g.m); } }
HARNESS(generate) { A a = nd_array<sc, N>(); G g = {vp::nd<sc>(), vp::nd<sc>()}; sc e[N]; genseq(g, e, N); placed(sprout::fixed::generate(a, g), a, 0, N, e, N); placed(sprout::fixed::generate<A>(g), a, 0, N, e, N); auto w = sprout::fit::generate(a, g); CHECK(w.size() == N); placed(w.get_array(), a, 0, N, e, N); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); placed(sprout::fixed::generate(s, g).get_array(), a, b, l - b, e, l - b); }
HARNESS(generate_n) { A a = nd_array<sc, N>(), z{{}}; G g = {vp::nd<sc>(), vp::nd<sc>()}; sc e[N + 1]; genseq(g, e, N + 1); int c = vp::pick<int>(0, N); placed(sprout::fixed::generate_n(a, c, g), a, 0, N, e, c); placed(sprout::fixed::generate_n<A>(c, g), z, 0, N, e, c); auto w = sprout::fit::generate_n(a, c, g); CHECK((int)w.size() == c); placed(w.get_array(), a, 0, N, e, c); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); ASSUME(c <= l - b); placed(sprout::fixed::generate_n(s, c, g).get_array(), a, b, l - b, e, c); }
struct U { sc m; sprout::pair<sc, sc> operator()(sc x) const { return sprout::pair<sc, sc>((sc)(x ^ 5), (sc)((x >> 1) ^ m)); } };
static void unseq(U u, sc x, sc* e, int n) { for (int i = 0; i < n; ++i) { e[i] = (sc)(x ^ 5); x = (sc)((x >> 1) ^ u.m); } }
HARNESS(unfold) { A a = nd_array<sc, N>(); U u = {vp::nd<sc>()}; sc x = vp::nd<sc>(); sc e[N]; unseq(u, x, e, N); placed(sprout::fixed::unfold(a, u, x), a, 0, N, e, N); placed(sprout::fixed::unfold<A>(u, x), a, 0, N, e, N); auto w = sprout::fit::unfold(a, u, x); CHECK(w.size() == N); placed(w.get_array(), a, 0, N, e, N); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); placed(sprout::fixed::unfold(s, u, x).get_array(), a, b, l - b, e, l - b); }
HARNESS(unfold_n) { A a = nd_array<sc, N>(), z{{}}; U u = {vp::nd<sc>()}; sc x = vp::nd<sc>(); sc e[N]; unseq(u, x, e, N); int c = vp::pick<int>(0, N); placed(sprout::fixed::unfold_n(a, c, u, x), a, 0, N, e, c); placed(sprout::fixed::unfold_n<A>(c, u, x), z, 0, N, e, c); auto w = sprout::fit::unfold_n(a, c, u, x); CHECK((int)w.size() == c); placed(w.get_array(), a, 0, N, e, c); int b = vp::pick<int>(0, 2), l = vp::pick<int>(2, N); auto s = sprout::sub_copy(a, b, l); ASSUME(c <= l - b); placed(sprout::fixed::unfold_n(s, c, u, x).get_array(), a, b, l - b, e, c); }
struct R0 { sc v; sc operator()() const { return v; } }; struct R1 { sc m; sc operator()(sc x) const { return (sc)((x >> 1) ^ m); } }; struct R2 { sc m; sc operator()(sc x, sc y) const { return (sc)((x >> 1) ^ y ^ m); } }; struct R3 { sc operator()(sc x, sc y, sc z) const { return (sc)((x >> 2) ^ (y >> 1) ^ z); } };
HARNESS(recurrence) { A a = nd_array<sc, N>(); sc m = vp::nd<sc>(), x = vp::nd<sc>(), y = vp::nd<sc>(), z = vp::nd<sc>(); sc e[N]; for (int i = 0; i < N; ++i) e[i] = m; placed(sprout::fixed::recurrence(a, R0{m}), a, 0, N, e, N);
  e[0] = x; for (int i = 1; i < N; ++i) e[i] = R1{m}(e[i - 1]); placed(sprout::fixed::recurrence(a, R1{m}, x), a, 0, N, e, N); placed(sprout::fixed::recurrence<A>(R1{m}, x), a, 0, N, e, N); auto w = sprout::fit::recurrence(a, R1{m}, x); CHECK(w.size() == N); placed(w.get_array(), a, 0, N, e, N);
  e[0] = x; e[1] = y; for (int i = 2; i < N; ++i) e[i] = R2{m}(e[i - 2], e[i - 1]); placed(sprout::fixed::recurrence(a, R2{m}, x, y), a, 0, N, e, N); int b = vp::pick<int>(0, 2), l = vp::pick<int>(4, N); placed(sprout::fixed::recurrence(sprout::sub_copy(a, b, l), R2{m}, x, y).get_array(), a, b, l - b, e, l - b);
  e[2] = z; for (int i = 3; i < N; ++i) e[i] = R3()(e[i - 3], e[i - 2], e[i - 1]); placed(sprout::fixed::recurrence(a, R3(), x, y, z), a, 0, N, e, N); }
HARNESS(recurrence_n) { A a = nd_array<sc, N>(), zz{{}}; sc m = vp::nd<sc>(), x = vp::nd<sc>(), y = vp::nd<sc>(); sc e[N]; e[0] = x; e[1] = y; for (int i = 2; i < N; ++i) e[i] = R2{m}(e[i - 2], e[i - 1]); int c = vp::pick<int>(2, N); placed(sprout::fixed::recurrence_n(a, c, R2{m}, x, y), a, 0, N, e, c); placed(sprout::fixed::recurrence_n<A>(c, R2{m}, x, y), zz, 0, N, e, c); auto w = sprout::fit::recurrence_n(a, c, R2{m}, x, y); CHECK((int)w.size() == c); placed(w.get_array(), a, 0, N, e, c);
  int b = vp::pick<int>(0, 2), l = vp::pick<int>(4, N); ASSUME(c <= l - b); placed(sprout::fixed::recurrence_n(sprout::sub_copy(a, b, l), c, R2{m}, x, y).get_array(), a, b, l - b, e, c); }
HARNESS(fresh_fill) { sc v = vp::nd<sc>(); int c = vp::pick<int>(0, N); auto o = sprout::fixed::fill<A>(v); auto n = sprout::fixed::fill_n<A>(c, v); for (int i = 0; i < N; ++i) { CHECK(o[i] == v); CHECK(n[i] == (i < c ? v : 0)); } }
