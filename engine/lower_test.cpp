#include "lower.hpp"
#include <random>
int main() {
  Pool P; Lower L(P); std::mt19937_64 g(1); long n = 0, bad = 0;
  auto rnd = [&](unsigned w) -> u128 { uint64_t r = g(); unsigned m = w == 32 ? 23 : 52, e = w == 32 ? 8 : 11; int B = w == 32 ? 127 : 1023; uint64_t mk = w == 32 ? 0xffffffffu : ~0ull; uint64_t ex; switch (g() % 6) { case 0: ex = g(); break; case 1: ex = 0; break; case 2: ex = (1ull << e) - 1; break; case 3: ex = B + (int)(g() % 70) - 3; break; case 4: ex = g() % 60; break; default: ex = B - 160 + g() % 320; }
    ex &= (1ull << e) - 1; uint64_t mt = g() & ((1ull << m) - 1); switch (g() % 5) { case 0: mt = 0; break; case 1: mt = (1ull << m) - 1; break; case 2: mt &= mt << (g() % m); break; case 3: mt = (1ull << (g() % m)); } mt &= (1ull << m) - 1; return ((((r >> 63) << e | ex) << m) | mt) & mk; };
  for (int it = 0; it < 20000; it++) for (unsigned w : {32u, 64u}) {
    u128 a = rnd(w), b = g() % 8 ? rnd(w) : a ^ (g() % 4); if (g() % 16 == 0) b = a ^ ((u128)1 << (w - 1)); bool ok;
    for (Kind k : {FADD, FSUB, FOEQ, FOLT, FOLE, FUNO}) { u128 x = Pool::ffold(k, w, a, b, 0, 0, ok); Expr* r = L.one(k, k >= FOEQ ? 1 : w, P.cst(w, a), P.cst(w, b), 0); n++; if (!Pool::isC(r) || r->v != x || r->w != (k >= FOEQ ? 1 : w)) { if (bad++ < 10) printf("bad k=%d w=%u %llx %llx -> %llx want %llx\n", k, w, (long long)a, (long long)b, (long long)r->v, (long long)x); } }
    { unsigned m = w == 32 ? 23 : 52; u128 q = (u128)(1 + g() % (w == 32 ? 254 : 2046)) << m | (u128)(g() & 1) << (w - 1); for (Kind k : {FMUL, FDIV}) { u128 x = Pool::ffold(k, w, a, q, 0, 0, ok); Expr* r = L.one(k, w, P.cst(w, a), P.cst(w, q), 0); n++; if (!Pool::isC(r) || r->v != x) if (bad++ < 10) printf("bad scale %d w=%u %llx %llx -> %llx want %llx\n", k, w, (long long)a, (long long)q, (long long)r->v, (long long)x); } }
    for (uint32_t md = 0; md < 5; md++) { u128 x = Pool::ffold(FROUND, w, a, 0, 0, md, ok); Expr* r = L.one(FROUND, w, P.cst(w, a), 0, md); n++; if (!Pool::isC(r) || r->v != x) if (bad++ < 10) printf("bad round %u w=%u %llx -> %llx want %llx\n", md, w, (long long)a, (long long)r->v, (long long)x); }
    for (unsigned t : {8u, 16u, 32u, 64u}) for (Kind k : {F2S, F2U}) { u128 x = Pool::cvt(k, w, t, a, ok) & mask(t); Expr* r = L.one(k, t, P.cst(w, a), 0, 0); n++; if (!Pool::isC(r) || r->v != x) if (bad++ < 10) printf("bad f2i %d t=%u w=%u %llx -> %llx want %llx\n", k, t, w, (long long)a, (long long)r->v, (long long)x); }
    for (unsigned t : {1u, 8u, 16u, 32u, 64u}) for (Kind k : {S2F, U2F}) { u128 v = g() & mask(t); if (g() % 2) v >>= g() % t; u128 x = Pool::cvt(k, t, w, v, ok); Expr* r = L.one(k, w, P.cst(t, v), 0, 0); n++; if (!Pool::isC(r) || r->v != x) if (bad++ < 10) printf("bad i2f %d t=%u w=%u %llx -> %llx want %llx\n", k, t, w, (long long)v, (long long)r->v, (long long)x); }
    { unsigned t = 96 - w; u128 x = Pool::cvt(FCVT, w, t, a, ok); Expr* r = L.one(FCVT, t, P.cst(w, a), 0, 0); n++; if (!Pool::isC(r) || r->v != x) if (bad++ < 10) printf("bad cvt w=%u %llx -> %llx want %llx\n", w, (long long)a, (long long)r->v, (long long)x); }
  }
  printf("%ld comparisons, %ld differ\n", n, bad); return bad != 0;
}
