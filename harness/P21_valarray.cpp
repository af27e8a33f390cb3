// P21: valarray and its subsets
#include "vpu.hpp"
#include <sprout/valarray.hpp>
#include <sprout/array.hpp>
#include <array>
typedef sprout::valarray<sc, 5> V;
typedef sprout::valarray<bool, 5> B;
typedef sprout::valarray<std::size_t, 5> I;
struct M { int n; sc e[5]; M() : n(0) { for (int i = 0; i < 5; ++i) e[i] = 0; } };   // the model: n elements
static M md(int lo = 0, int hi = 5) { M m; m.n = vp::pick<int>(lo, hi); for (int i = 0; i < m.n; ++i) m.e[i] = vp::nd<sc>(); return m; }
static V mk(M const& m) { return V(m.e + 0, m.n); }
template <class X> bool is(X const& v, M const& m) { bool ok = (int)v.size() == m.n && v.empty() == (m.n == 0) && (int)(v.end() - v.begin()) == m.n && (int)(v.rend() - v.rbegin()) == m.n; int i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) ok &= *it == m.e[i]; i = m.n; for (auto it = v.rbegin(); it != v.rend(); ++it) ok &= *it == m.e[--i]; for (i = 0; i < m.n; ++i) ok &= v[i] == m.e[i] && v.at(i) == m.e[i] && *v.nth(i) == m.e[i] && (int)v.index_of(v.nth(i)) == i; if (m.n) ok &= v.front() == m.e[0] && v.back() == m.e[m.n - 1]; return ok; }
static bool isb(B const& v, M const& m) { bool ok = (int)v.size() == m.n; for (int i = 0; i < (int)v.size() && i < m.n; ++i) ok &= v[i] == (m.e[i] != 0); return ok; }
HARNESS(construct) { M m = md(); V v = mk(m); CHECK(is(v, m)); V w(v); CHECK(is(w, m)); V x(static_cast<V&&>(w)); CHECK(is(x, m)); sc c = vp::nd<sc>(); V y(c, m.n); M k = m; for (int i = 0; i < k.n; ++i) k.e[i] = c; CHECK(is(y, k)); V z(std::size_t(m.n)); for (int i = 0; i < k.n; ++i) k.e[i] = 0; CHECK(is(z, k)); V d; CHECK(is(d, M())); V il = { m.e[0], m.e[1], c }; CHECK(il.size() == 3 && il[0] == m.e[0] && il[1] == m.e[1] && il[2] == c && il.max_size() == 5); CHECK(v.data() == &v[0] && v.c_array() == &v[0]); }
HARNESS(to_valarray) { M m = md(5, 5); std::array<sc, 5> s; sprout::array<sc, 5> a{{}}; sc c[5]; for (int i = 0; i < 5; ++i) s[i] = a[i] = c[i] = m.e[i]; CHECK(is(sprout::to_valarray(s), m)); CHECK(is(sprout::to_valarray(a), m)); CHECK(is(sprout::to_valarray(c), m)); CHECK(is(sprout::to_valarray(mk(m)), m)); CHECK(is(sprout::make_valarray<sc>(c[0], c[1], c[2], c[3], c[4]), m)); CHECK(is(sprout::make_valarray(c[0], c[1], c[2], c[3], c[4]), m)); CHECK(is(sprout::make_common_valarray(c[0], c[1], c[2], c[3], c[4]), m)); M k = m; k.n = 3; CHECK(is(sprout::make_valarray<sc, 5>(c[0], c[1], c[2]), k)); CHECK(is(sprout::make_valarray<5>(c[0], c[1], c[2]), k)); CHECK(is(sprout::make_common_valarray<5>(c[0], c[1], c[2]), k)); CHECK(is(sprout::make_valarray_without_narrowing<sc, 5>(c[0], c[1], c[2]), k)); }
HARNESS(length) { std::size_t n = vp::nd<std::size_t>(); int t = 0; vp::fork(n > 5 ? 6 : (int)n); if (n <= 5) return; sc b[1] = { 1 }; try { V v(n); } catch (std::length_error const&) { ++t; } try { V v(sc(3), n); } catch (std::length_error const&) { ++t; } V v; try { v.resize(n); } catch (std::length_error const&) { ++t; } (void)b; CHECK(t == 3); CHECK(is(v, M())); }
HARNESS(assign) { M m = md(), k = md(); V v = mk(m), w = mk(k); V& r = (v = w); CHECK(&r == &v); CHECK(is(v, k)); CHECK(is(w, k)); V x = mk(m); w = static_cast<V&&>(x); CHECK(is(w, m)); sc c = vp::nd<sc>(); w = c; M z = m; for (int i = 0; i < z.n; ++i) z.e[i] = c; CHECK(is(w, z)); w = { m.e[0], c }; CHECK(w.size() == 2 && w[0] == m.e[0] && w[1] == c); V p = mk(m), q = mk(k); p.swap(q); CHECK(is(p, k) && is(q, m)); swap(p, q); CHECK(is(p, m) && is(q, k)); int n = vp::pick<int>(0, 5); p.resize(n, c); z.n = n; for (int i = 0; i < n; ++i) z.e[i] = c; CHECK(is(p, z)); q.resize(n); for (int i = 0; i < n; ++i) z.e[i] = 0; CHECK(is(q, z)); }
HARNESS(checked) { M m = md(); V v = mk(m); V const& c = v; std::size_t i = vp::nd<std::size_t>(); bool in = i < (std::size_t)m.n; int t = 0; try { CHECK(v.at(i) == m.e[i]); } catch (std::out_of_range const&) { ++t; } try { CHECK(c.at(i) == m.e[i]); } catch (std::out_of_range const&) { ++t; } try { v.nth(i); } catch (std::out_of_range const&) { ++t; } try { c.nth(i); } catch (std::out_of_range const&) { ++t; } try { v.rangecheck(i); } catch (std::out_of_range const&) { ++t; } CHECK(t == (in ? 0 : 5)); }
HARNESS(unary) { M m = md(); V const v = mk(m); M k = m; CHECK(is(+v, m)); for (int i = 0; i < m.n; ++i) k.e[i] = -m.e[i]; CHECK(is(-v, k)); for (int i = 0; i < m.n; ++i) k.e[i] = ~m.e[i]; CHECK(is(~v, k)); for (int i = 0; i < m.n; ++i) k.e[i] = !m.e[i]; CHECK(isb(!v, k)); }
static sc fval(sc x) { return x * 3 + 1; }
static sc fref(sc const& x) { return x / 2; }
struct Fn { sc k; sc operator()(sc x) const { return x ^ k; } };
HARNESS(apply) { M m = md(), k = m; V const v = mk(m); for (int i = 0; i < m.n; ++i) k.e[i] = fval(m.e[i]); CHECK(is(v.apply(fval), k)); for (int i = 0; i < m.n; ++i) k.e[i] = fref(m.e[i]); CHECK(is(v.apply(fref), k)); Fn f = { vp::nd<sc>() }; for (int i = 0; i < m.n; ++i) k.e[i] = f(m.e[i]); CHECK(is(v.apply(f), k)); }
HARNESS(reduce) { M m = md(1, 5); V const v = mk(m); sc s = 0, a = m.e[0], b = m.e[0]; for (int i = 0; i < m.n; ++i) { s = s + m.e[i]; if (m.e[i] < a) a = m.e[i]; if (b < m.e[i]) b = m.e[i]; } CHECK(v.sum() == s); CHECK(v.min() == a); CHECK(v.max() == b); CHECK(V().sum() == 0); }
HARNESS(shift) { M m = md(), k; V const v = mk(m); int i = vp::pick<int>(-7, 7); k.n = m.n; for (int j = 0; j < m.n; ++j) k.e[j] = j + i >= 0 && j + i < m.n ? m.e[j + i] : 0; CHECK(is(v.shift(i), k)); CHECK(is(v, m)); }
HARNESS(cshift) { M m = md(), k; V const v = mk(m); int i = vp::pick<int>(-12, 12); k.n = m.n; for (int j = 0; j < m.n; ++j) k.e[j] = m.e[(j + i + 60) % m.n]; CHECK(is(v.cshift(i), k)); }
HARNESS(fill) { M m = md(); V v = mk(m); V const& c = v; sc x = vp::nd<sc>(); M k = m; for (int i = 0; i < m.n; ++i) k.e[i] = x; CHECK(is(c.fill(x), k)); CHECK(is(c.assign(x), k)); CHECK(is(v, m)); v.fill(x); CHECK(is(v, k)); v = mk(m); v.assign(x); CHECK(is(v, k)); for (int i = 0; i < m.n; ++i) { v[i] = m.e[i]; CHECK(v[i] == m.e[i]); } CHECK(is(v, m)); }
// element-wise operators, whole arrays and against a scalar on either side
#define BIN(name, op, ok) HARNESS(name) { M m = md(), k = m, r = m; for (int i = 0; i < m.n; ++i) k.e[i] = vp::nd<sc>(); sc c = vp::nd<sc>(); V const v = mk(m), w = mk(k); \
  for (int i = 0; i < m.n; ++i) { ASSUME(ok(k.e[i])); r.e[i] = m.e[i] op k.e[i]; } CHECK(is(v op w, r)); for (int i = 0; i < m.n; ++i) r.e[i] = c op k.e[i]; CHECK(is(c op w, r)); ASSUME(ok(c)); for (int i = 0; i < m.n; ++i) r.e[i] = m.e[i] op c; CHECK(is(v op c, r)); V x = v; V& y = (x op##= c); CHECK(&y == &x); CHECK(is(x, r)); }
#define ANY(x) true
#define NZ(x) ((x) != 0)
#define SH(x) ((x) >= 0 && (x) < 8)
BIN(plus, +, ANY) BIN(minus, -, ANY) BIN(times, *, ANY) BIN(over, /, NZ) BIN(mod, %, NZ) BIN(and_, &, ANY) BIN(or_, |, ANY) BIN(xor_, ^, ANY) BIN(shl, <<, SH) BIN(shr, >>, SH)
#define LOG(name, op) HARNESS(name) { M m = md(), k = m, r = m; for (int i = 0; i < m.n; ++i) k.e[i] = vp::nd<sc>(); sc c = vp::nd<sc>(); V const v = mk(m), w = mk(k); for (int i = 0; i < m.n; ++i) r.e[i] = m.e[i] op k.e[i]; CHECK(isb(v op w, r)); for (int i = 0; i < m.n; ++i) r.e[i] = c op k.e[i]; CHECK(isb(c op w, r)); for (int i = 0; i < m.n; ++i) r.e[i] = m.e[i] op c; CHECK(isb(v op c, r)); }
LOG(eq, ==) LOG(ne, !=) LOG(lt, <) LOG(gt, >) LOG(le, <=) LOG(ge, >=) LOG(land, &&) LOG(lor, ||)
// subsets: idx[0..k) are the positions selected; S is the subset of a mutable array, c of a const one
static M sel(M const& m, int const* idx, int k) { M r; r.n = k; for (int i = 0; i < k; ++i) r.e[i] = m.e[idx[i]]; return r; }
#define SUB(P) \
  { M g = sel(m, idx, k); V v = mk(m); V const c = mk(m); CHECK(is(v[P], g)); CHECK(is(c[P], g)); V t(v[P]); CHECK(is(t, g)); V u; u = v[P]; CHECK(is(u, g)); } \
  { V v = mk(m); M r = m; sc x = vp::nd<sc>(); v[P] = x; for (int i = 0; i < k; ++i) r.e[idx[i]] = x; CHECK(is(v, r)); } \
  { M q; q.n = k; for (int i = 0; i < k; ++i) q.e[i] = vp::nd<sc>(); V w = mk(q); V v = mk(m); M r = m; v[P] = w; for (int i = 0; i < k; ++i) r.e[idx[i]] = q.e[i]; CHECK(is(v, r)); \
    int o = vp::pick<int>(0, 7); if (o > 5) for (int i = 0; i < k; ++i) ASSUME(q.e[i] >= 0 && q.e[i] < 8); v = mk(m); r = m; for (int i = 0; i < k; ++i) { sc& z = r.e[idx[i]]; sc y = q.e[i]; switch (o) { case 0: z += y; break; case 1: z -= y; break; case 2: z *= y; break; case 3: z &= y; break; case 4: z |= y; break; case 5: z ^= y; break; case 6: z <<= y; break; default: z >>= y; } } \
    switch (o) { case 0: v[P] += w; break; case 1: v[P] -= w; break; case 2: v[P] *= w; break; case 3: v[P] &= w; break; case 4: v[P] |= w; break; case 5: v[P] ^= w; break; case 6: v[P] <<= w; break; default: v[P] >>= w; } CHECK(is(v, r)); } \
  { M q = md(m.n, m.n); V w = mk(q), v = mk(m); M r = m; v[P] = w[P]; for (int i = 0; i < k; ++i) r.e[idx[i]] = q.e[idx[i]]; CHECK(is(v, r)); CHECK(is(w, q)); } \
  { M q; q.n = k; for (int i = 0; i < k; ++i) { q.e[i] = vp::nd<sc>(); ASSUME(q.e[i] > 0); } V w = mk(q), v = mk(m); M r = m; v[P] /= w; for (int i = 0; i < k; ++i) r.e[idx[i]] /= q.e[i]; CHECK(is(v, r)); v[P] %= w; for (int i = 0; i < k; ++i) r.e[idx[i]] %= q.e[i]; CHECK(is(v, r)); }
HARNESS(slice) { M m = md(0, 5); int s = vp::pick<int>(0, 4), k = vp::pick<int>(0, 5), d = vp::pick<int>(1, 3); ASSUME(k == 0 || s + (k - 1) * d < m.n); int idx[5] = {}; for (int i = 0; i < k; ++i) idx[i] = s + i * d; sprout::slice p(s, k, d); CHECK((int)p.start() == s && (int)p.size() == k && (int)p.stride() == d); SUB(p) }
HARNESS(mask) { M m = md(0, 4); B b(std::size_t(m.n)); int idx[5] = {}, k = 0; for (int i = 0; i < m.n; ++i) { b[i] = vp::pick<int>(0, 1); if (b[i]) idx[k++] = i; } SUB(b) }
HARNESS(indirect) { M m = md(0, 4); int k = vp::pick<int>(0, 3); ASSUME(k <= m.n); int idx[5] = {}; I p(std::size_t(k + 0)); for (int i = 0; i < k; ++i) { idx[i] = vp::pick<int>(0, m.n - 1); for (int j = 0; j < i; ++j) ASSUME(idx[i] != idx[j]); p[i] = idx[i]; } SUB(p) }
HARNESS(gslice) { typedef sprout::valarray<std::size_t, 2> P2; M m = md(5, 5); int s = vp::pick<int>(0, 1), a = vp::pick<int>(1, 2), b = vp::pick<int>(1, 2), x = vp::pick<int>(1, 3), y = vp::pick<int>(1, 3), idx[5] = {}, k = 0; for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { idx[k] = s + i * x + j * y; ASSUME(idx[k] < 5); for (int l = 0; l < k; ++l) ASSUME(idx[l] != idx[k]); ++k; } std::size_t len[2] = { (std::size_t)a, (std::size_t)b }, str[2] = { (std::size_t)x, (std::size_t)y }; sprout::gslice<2> p(s, P2(len + 0, 2), P2(str + 0, 2)); CHECK((int)p.start() == s && (int)p.size()[0] == a && (int)p.size()[1] == b && (int)p.stride()[1] == y); SUB(p) }
