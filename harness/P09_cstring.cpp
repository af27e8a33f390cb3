// P09: the C string and memory functions (char, wchar_t and any character type) follow the C definitions
#include "vpu.hpp"
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#ifndef CK
#define CK 0
#endif
// VP-ONLY: char -DCK=0
// VP-VARIANT: wchar -DCK=1
// VP-VARIANT: char16 -DCK=2
typedef std::size_t sz;
#if CK == 0
typedef char CH; typedef unsigned char ORD;   // C compares char strings as unsigned char
#define S(n) sprout::str##n
#elif CK == 1
typedef wchar_t CH; typedef wchar_t ORD;
#define S(n) sprout::wcs##n
#else
typedef char16_t CH; typedef char16_t ORD;
#define S(n) sprout::str##n
#endif
static const int N = VP_THOROUGH ? 6 : 5, M = 3;
template <int L> struct Txt { CH b[L + 1]; int n; explicit Txt(int lo = 0) { n = vp::pick<int>(lo, L); for (int i = 0; i <= n; ++i) { b[i] = vp::nd<CH>(); if (i < n) ASSUME(CK == 1 ? b[i] > 0 : b[i] != 0); else b[i] = 0; } CH* q = b; for (int i = n + 1; i <= L; ++i) q[i] = 0x55; } };
int sgn(int x) { return x < 0 ? -1 : x > 0; }
int cmp(CH const* a, CH const* b, int n) { int r = 0; bool end = false; for (int i = 0; i < n; ++i) { if (!r && !end) { r = (ORD)a[i] < (ORD)b[i] ? -1 : (ORD)b[i] < (ORD)a[i] ? 1 : 0; end = a[i] == 0; } if (end) break; } return r; }
// exact-size copy, so that reading one element past the terminator is an error
template <int L> struct Tight { CH* p; CH buf[L + 1]; explicit Tight(Txt<L> const& t) : p(buf + (L - t.n)) { for (int i = 0; i <= t.n; ++i) p[i] = t.b[i]; } };
HARNESS(len) { Txt<8> t; Tight<8> q(t); CHECK(S(len)(q.p) == (sz)t.n); CHECK(S(len)((CH const*)q.p) == (sz)t.n); }
HARNESS(len_n) { Txt<6> t; sz k = vp::nd<sz>(); ASSUME(k <= (sz)t.n + 1); CHECK(S(len)((CH const*)t.b, k) == (k < (sz)t.n ? k : (sz)t.n)); }
HARNESS(chr) { Txt<6> t; Tight<6> q(t); CH c = vp::nd<CH>(); CH* e = nullptr; for (int i = t.n; i >= 0; --i) if (q.p[i] == c) e = q.p + i; CHECK(S(chr)(q.p, c) == e); CHECK(S(chr)((CH const*)q.p, c) == e); }
HARNESS(rchr) { Txt<6> t; Tight<6> q(t); CH c = vp::nd<CH>(); CH* e = nullptr; for (int i = 0; i <= t.n; ++i) if (q.p[i] == c) e = q.p + i; CHECK(S(rchr)(q.p, c) == e); CHECK(S(rchr)((CH const*)q.p, c) == e); }
#if CK == 0
HARNESS(chr_int) { Txt<4> t; int c = vp::nd<int>(); CH* e = nullptr; CH* r = nullptr; for (int i = t.n; i >= 0; --i) if (t.b[i] == (char)c) e = t.b + i; for (int i = 0; i <= t.n; ++i) if (t.b[i] == (char)c) r = t.b + i; CHECK(sprout::strchr(t.b, c) == e); CHECK(sprout::strrchr(t.b, c) == r); }
#endif
HARNESS(cmp) { Txt<N> a; Txt<N> b; Tight<N> p(a), q(b); CHECK(sgn(S(cmp)((CH const*)p.p, (CH const*)q.p)) == cmp(a.b, b.b, N + 1)); CHECK(sgn(S(coll)((CH const*)p.p, (CH const*)q.p)) == cmp(a.b, b.b, N + 1)); }
HARNESS(ncmp) { Txt<4> a; Txt<4> b; int k = vp::pick<int>(0, 6); Tight<4> p(a), q(b); CHECK(sgn(S(ncmp)((CH const*)p.p, (CH const*)q.p, (sz)k)) == cmp(a.b, b.b, k < 5 ? k : 5)); }
bool in(Txt<M> const& s, CH c) { bool r = false; for (int i = 0; i < s.n; ++i) r |= s.b[i] == c; return r; }
HARNESS(spn) { Txt<N> a; Txt<M> s; sz e = 0; bool run = true; for (int i = 0; i < a.n; ++i) { run &= in(s, a.b[i]); e += run; } Tight<N> p(a); CHECK(S(spn)((CH const*)p.p, (CH const*)s.b) == e); }
HARNESS(cspn) { Txt<N> a; Txt<M> s; sz e = 0; bool run = true; for (int i = 0; i < a.n; ++i) { run &= !in(s, a.b[i]); e += run; } Tight<N> p(a); CHECK(S(cspn)((CH const*)p.p, (CH const*)s.b) == e); }
HARNESS(pbrk) { Txt<N> a; Txt<M> s; Tight<N> p(a); CH* e = nullptr; for (int i = a.n - 1; i >= 0; --i) if (in(s, a.b[i])) e = p.p + i; CHECK(S(pbrk)(p.p, (CH const*)s.b) == e); CHECK(S(pbrk)((CH const*)p.p, (CH const*)s.b) == e); }
HARNESS(str) { Txt<N> a; Txt<M> s; Tight<N> p(a); CH* e = nullptr; for (int i = a.n - s.n; i >= 0; --i) { bool ok = true; for (int j = 0; j < s.n; ++j) ok &= a.b[i + j] == s.b[j]; if (ok) e = p.p + i; } CHECK(S(str)(p.p, (CH const*)s.b) == e); CHECK(S(str)((CH const*)p.p, (CH const*)s.b) == e); }
// ---- writing; the destination lies between guards
struct Dst { CH g[16]; CH* p; CH o[16]; explicit Dst(int off) : p(g + off) { for (int i = 0; i < 16; ++i) o[i] = g[i] = vp::nd<CH>(); } template <class F> void is(F want) { bool ok = true; for (int i = 0; i < 16; ++i) ok &= g[i] == want(i); CHECK(ok); } };
HARNESS(cpy) { Txt<5> t; Dst d(4); CHECK(S(cpy)(d.p, (CH const*)t.b) == d.p); d.is([&](int i) { return i >= 4 && i <= 4 + t.n ? t.b[i - 4] : d.o[i]; }); }
HARNESS(ncpy) { Txt<5> t; int k = vp::pick<int>(0, 8); Dst d(4); CHECK(S(ncpy)(d.p, (CH const*)t.b, (sz)k) == d.p); d.is([&](int i) { return i >= 4 && i < 4 + k ? (i - 4 < t.n ? t.b[i - 4] : (CH)0) : d.o[i]; }); }
HARNESS(cat) { Txt<4> t; int h = vp::pick<int>(0, 3); Dst d(4); for (int i = 0; i < h; ++i) ASSUME(d.g[4 + i] != 0); d.g[4 + h] = 0; CHECK(S(cat)(d.p, (CH const*)t.b) == d.p); d.is([&](int i) { return i >= 4 + h && i <= 4 + h + t.n ? t.b[i - 4 - h] : d.o[i]; }); }
HARNESS(ncat) { Txt<4> t; int h = vp::pick<int>(0, 3), k = vp::pick<int>(0, 6); Dst d(4); for (int i = 0; i < h; ++i) ASSUME(d.g[4 + i] != 0); d.g[4 + h] = 0; int m = k < t.n ? k : t.n; CHECK(S(ncat)(d.p, (CH const*)t.b, (sz)k) == d.p); d.is([&](int i) { return i >= 4 + h && i < 4 + h + m ? t.b[i - 4 - h] : i == 4 + h + m ? (CH)0 : d.o[i]; }); }
// ---- memory blocks
#if CK == 0
typedef unsigned char MC;
#define MF(n) sprout::n
#elif CK == 1
typedef wchar_t MC;
#define MF(n) sprout::w##n
#endif
#if CK < 2
static const int B = 7;
struct Blk { MC v[B]; Blk() { for (int i = 0; i < B; ++i) v[i] = vp::nd<MC>(); } };
HARNESS(memcpy) { Blk a, b; Blk o = a; int s = vp::pick<int>(0, 3), d = vp::pick<int>(0, 3), k = vp::pick<int>(0, 4); CHECK((void*)MF(memcpy)(a.v + d, (MC const*)b.v + s, (sz)k) == (void*)(a.v + d)); for (int i = 0; i < B; ++i) CHECK(a.v[i] == (i >= d && i < d + k ? b.v[s + i - d] : o.v[i])); }
HARNESS(memmove) { Blk a; Blk o = a; int s = vp::pick<int>(0, 3), d = vp::pick<int>(0, 3), k = vp::pick<int>(0, 4); CHECK((void*)MF(memmove)(a.v + d, (MC const*)a.v + s, (sz)k) == (void*)(a.v + d)); for (int i = 0; i < B; ++i) CHECK(a.v[i] == (i >= d && i < d + k ? o.v[s + i - d] : o.v[i])); }
HARNESS(memset) { Blk a; Blk o = a; int d = vp::pick<int>(0, 3), k = vp::pick<int>(0, 4); auto c = vp::nd<std::conditional<CK == 0, int, wchar_t>::type>(); CHECK((void*)MF(memset)(a.v + d, c, (sz)k) == (void*)(a.v + d)); for (int i = 0; i < B; ++i) CHECK(a.v[i] == (i >= d && i < d + k ? (MC)c : o.v[i])); }
HARNESS(memcmp) { Blk a, b; int k = vp::pick<int>(0, B); int e = 0; for (int i = 0; i < k; ++i) if (!e) e = a.v[i] < b.v[i] ? -1 : a.v[i] > b.v[i]; CHECK(sgn(MF(memcmp)((MC const*)a.v, (MC const*)b.v, (sz)k)) == e); }
HARNESS(memchr) { Blk a; int k = vp::pick<int>(0, B); auto c = vp::nd<std::conditional<CK == 0, int, wchar_t>::type>(); MC* e = nullptr; for (int i = k - 1; i >= 0; --i) if (a.v[i] == (MC)c) e = a.v + i; CHECK((void*)MF(memchr)(a.v + 0, c, (sz)k) == (void*)e); CHECK((void const*)MF(memchr)((MC const*)a.v, c, (sz)k) == (void const*)e); }
#endif
// ---- long texts: up to L characters, all x but for a y somewhere (the functions halve and double their steps, so length matters)
static const int L = VP_THOROUGH ? 40 : 20;
struct Lng { CH b[L + 1]; int n, p; CH x, y; explicit Lng(int lo = 0) { n = vp::pick<int>(lo, L); p = vp::pick<int>(0, n); x = vp::nd<CH>(); y = vp::nd<CH>(); ASSUME(CK == 1 ? x > 0 && y > 0 : x != 0 && y != 0); ASSUME(x != y); for (int i = 0; i < n; ++i) b[i] = i == p ? y : x; b[n] = 0; } };
HARNESS(long_scan) { Lng t; CH const* q = t.b; bool h = t.p < t.n; CH const* e = q + t.n; CHECK(S(len)(q) == (sz)t.n); CHECK(S(len)(q, (sz)L + 1) == (sz)t.n); CHECK(S(chr)(q, t.y) == (h ? q + t.p : nullptr)); CHECK(S(rchr)(q, t.y) == (h ? q + t.p : nullptr)); CHECK(S(chr)(q, (CH)0) == e); CHECK(S(rchr)(q, (CH)0) == e); CHECK(S(chr)(q, t.x) == (t.n > (int)h ? q + (t.p == 0 && h) : nullptr)); CHECK(S(rchr)(q, t.x) == (t.n > (int)h ? e - 1 - (h && t.p == t.n - 1) : nullptr));
  CH xs[2] = {t.x, 0}, ys[2] = {t.y, 0}, xy[3] = {t.x, t.y, 0}; CHECK(S(spn)(q, (CH const*)xs) == (sz)t.p); CHECK(S(cspn)(q, (CH const*)ys) == (sz)t.p); CHECK(S(spn)(q, (CH const*)xy) == (sz)t.n); CHECK(S(pbrk)(q, (CH const*)ys) == (h ? q + t.p : nullptr)); }
HARNESS(long_str) { Lng t; CH const* q = t.b; bool h = t.p < t.n; int k = vp::pick<int>(0, 3); CH s[6]; for (int i = 0; i < k; ++i) s[i] = t.x; s[k] = t.y; s[k + 1] = 0; CHECK(S(str)(q, (CH const*)s) == (h && t.p >= k ? q + t.p - k : nullptr)); s[k] = 0; int f = h && t.p < k ? t.p + 1 : 0; CHECK(S(str)(q, (CH const*)s) == (k == 0 ? q : f + k <= t.n ? q + f : nullptr)); }
HARNESS(long_in_long) { Lng t(8); int k = vp::pick<int>(8, L); ASSUME(k <= t.n); CH s[L + 1]; for (int i = 0; i < k; ++i) s[i] = t.x; s[k] = 0; CH const* q = t.b; CHECK(S(str)(q, (CH const*)s) == (t.p >= k ? q : t.n - t.p - 1 >= k ? q + t.p + 1 : nullptr)); }
HARNESS(long_cmp) { Lng t; CH a[L + 1], b[L + 2]; for (int i = 0; i < t.n; ++i) a[i] = t.x; a[t.n] = 0; int m = vp::pick<int>(0, 1); for (int i = 0; i < t.n + m; ++i) b[i] = i < t.n ? t.b[i] : t.x; b[t.n + m] = 0; int e = t.p < t.n ? (vp::fork((ORD)t.x < (ORD)t.y) ? -1 : 1) : m ? -1 : 0; CHECK(sgn(S(cmp)((CH const*)a, (CH const*)b)) == e); CHECK(sgn(S(cmp)((CH const*)b, (CH const*)a)) == -e); CHECK(sgn(S(coll)((CH const*)a, (CH const*)b)) == e); for (int k = 0; k <= t.n + 2; ++k) CHECK(sgn(S(ncmp)((CH const*)a, (CH const*)b, (sz)k)) == (k > t.p ? e : 0)); }
HARNESS(long_write) { CH s[L + 1]; int n = vp::pick<int>(0, L); for (int i = 0; i < n; ++i) { s[i] = vp::nd<CH>(); ASSUME(CK == 1 ? s[i] > 0 : s[i] != 0); } s[n] = 0; CH d[2 * L + 4], o[2 * L + 4]; for (int i = 0; i < 2 * L + 4; ++i) o[i] = d[i] = vp::nd<CH>(); int w = vp::pick<int>(0, 3), k = vp::pick<int>(0, L + 2); bool ok = true;
  if (w == 0) { CHECK(S(cpy)(d, (CH const*)s) == d + 0); for (int i = 0; i < 2 * L + 4; ++i) ok &= d[i] == (i <= n ? s[i] : o[i]); } else if (w == 1) { CHECK(S(ncpy)(d, (CH const*)s, (sz)k) == d + 0); for (int i = 0; i < 2 * L + 4; ++i) ok &= d[i] == (i < k ? (i < n ? s[i] : (CH)0) : o[i]); } else if (w == 2) { d[1] = 0; ASSUME(CK == 1 ? d[0] > 0 : d[0] != 0); CHECK(S(cat)(d, (CH const*)s) == d + 0); for (int i = 0; i < 2 * L + 4; ++i) ok &= d[i] == (i && i - 1 <= n ? s[i - 1] : o[i]); } else { d[1] = 0; ASSUME(CK == 1 ? d[0] > 0 : d[0] != 0); int m = k < n ? k : n; CHECK(S(ncat)(d, (CH const*)s, (sz)k) == d + 0); for (int i = 0; i < 2 * L + 4; ++i) ok &= d[i] == (i && i - 1 < m ? s[i - 1] : i - 1 == m ? (CH)0 : o[i]); } CHECK(ok); }
#if CK < 2
HARNESS(long_mem) { MC a[L], b[L + 4], o[L + 4]; int n = vp::pick<int>(0, L); for (int i = 0; i < L; ++i) a[i] = vp::nd<MC>(); for (int i = 0; i < L + 4; ++i) o[i] = b[i] = vp::nd<MC>(); bool ok = true; int w = vp::pick<int>(0, 4); int s = vp::pick<int>(0, 3), d = vp::pick<int>(0, 3); if (s + n > L) return; if (w == 0) { MF(memcpy)(b + d, (MC const*)a + s, (sz)n); for (int i = 0; i < L + 4; ++i) ok &= b[i] == (i >= d && i < d + n ? a[s + i - d] : o[i]); } else if (w == 1) { MF(memmove)(b + d, (MC const*)b + s, (sz)n); for (int i = 0; i < L + 4; ++i) ok &= b[i] == (i >= d && i < d + n ? o[s + i - d] : o[i]); } else if (w == 2) { auto c = vp::nd<std::conditional<CK == 0, int, wchar_t>::type>(); MF(memset)(b + d, c, (sz)n); for (int i = 0; i < L + 4; ++i) ok &= b[i] == (i >= d && i < d + n ? (MC)c : o[i]); }
  else { int p = vp::pick<int>(0, n); MC x = a[0], y = b[0]; ASSUME(x != y); for (int i = 0; i < L; ++i) { a[i] = x; b[i] = i == p ? y : x; } if (w == 3) { int e = p < n ? (x < y ? -1 : 1) : 0; CHECK(sgn(MF(memcmp)((MC const*)a, (MC const*)b, (sz)n)) == e); } else CHECK((void const*)MF(memchr)((MC const*)b, y, (sz)n) == (void const*)(p < n ? b + p : nullptr)); } CHECK(ok); }
#endif
