// IEEE operations (comparison, rounding, conversion, addition) rewritten as bit-vector terms before bit-blasting.  With constant
// operands the rewriting folds to the value itself: engine/lower_test.cpp compares it with the hardware.
#pragma once
#include "expr.hpp"
struct Lower {
  Pool& P; std::vector<Expr*> memo;
  Lower(Pool& p) : P(p) {}
  static bool can(Kind k) { return k == FADD || k == FSUB || (k >= FROUND && k <= U2F); }
  // a product with a power of two, or a quotient by one, only moves the exponent
  static bool pow2(Expr* e) { return e && e->k == CONST && (e->w == 32 || e->w == 64) && (e->v & mask(M(e->w))) == 0 && (e->v >> M(e->w) & mask(E(e->w))) != 0 && (e->v >> M(e->w) & mask(E(e->w))) != mask(E(e->w)); }
  static bool can(Expr* e) { return can(e->k) || (e->k == FMUL && (pow2(e->a) || pow2(e->b))) || (e->k == FDIV && pow2(e->b)); }
  typedef Expr* X;
  static int M(unsigned w) { return w == 32 ? 23 : 52; } static int B(unsigned w) { return w == 32 ? 127 : 1023; } static unsigned E(unsigned w) { return w == 32 ? 8 : 11; }
  X c(unsigned w, u128 v) { return P.cst(w, v); }
  X sign(X a) { return P.extract(a, a->w - 1, 1); } X expo(X a) { return P.extract(a, M(a->w), E(a->w)); } X mant(X a) { return P.extract(a, 0, M(a->w)); } X mag(X a) { return P.extract(a, 0, a->w - 1); }
  u128 infm(unsigned w) { return ((u128)(2 * B(w) + 1)) << M(w); }
  X nan(X a) { return P.bin(ULT, c(a->w - 1, infm(a->w)), mag(a)); } X inf(X a) { return P.bin(EQ, mag(a), c(a->w - 1, infm(a->w))); } X zero(X a) { return P.bin(EQ, mag(a), c(a->w - 1, 0)); }
  X cnan(unsigned w) { return c(w, w == 32 ? (u128)0x7fc00000u : (u128)0x7ff8000000000000ull); }
  X lt(X a, X b) { return P.ite(sign(a), P.ite(sign(b), P.bin(ULT, mag(b), mag(a)), P.notb(P.bin(AND, zero(a), zero(b)))), P.ite(sign(b), P.Fa, P.bin(ULT, mag(a), mag(b)))); }
  X eq(X a, X b) { return P.bin(OR, P.bin(EQ, a, b), P.bin(AND, zero(a), zero(b))); }
  X both(X a, X b) { return P.notb(P.bin(OR, nan(a), nan(b))); }
  X srs(X x, X s) { X h = P.bin(LSHR, x, s); X back = P.bin(SHL, h, s); return P.bin(OR, h, P.zext(P.notb(P.bin(EQ, back, x)), x->w)); } // shift right, sticky
  // shift left until the top bit is set; n counts the shift (16 bits)
  X norm(X x, X& n) { n = c(16, 0); unsigned s = 1; while (s * 2 < x->w) s *= 2; for (; s; s /= 2) { if (s >= x->w) continue; X top = P.bin(EQ, P.extract(x, x->w - s, s), c(s, 0)); x = P.ite(top, P.bin(SHL, x, c(x->w, s)), x); n = P.ite(top, P.bin(ADD, n, c(16, s)), n); } return x; }
  // sign * sig / 2^(W-1) * 2^e, rounded to nearest even; sig normalized or zero
  X pack(X sg, X e, X sig, unsigned w) {
    unsigned W = sig->w; int m = M(w); X be = P.bin(ADD, e, c(16, B(w)));
    X sub = P.bin(SLE, be, c(16, 0)); X sh = P.ite(sub, P.bin(SUB, c(16, 1), be), c(16, 0)); sh = P.ite(P.bin(ULT, c(16, W), sh), c(16, W), sh);
    X s2 = srs(sig, P.zext(sh, W)); X base = P.ite(sub, c(16, 0), P.bin(SUB, be, c(16, 1)));
    X keep = P.extract(s2, W - 1 - m, m + 1); X up = P.Fa;
    if (W - 1 - m >= 1) { X g = P.extract(s2, W - 2 - m, 1); X st = W - 2 - m >= 1 ? P.notb(P.bin(EQ, P.extract(s2, 0, W - 2 - m), c(W - 2 - m, 0))) : P.Fa; up = P.bin(AND, g, P.bin(OR, st, P.extract(keep, 0, 1))); }
    X r = P.bin(ADD, P.bin(ADD, P.bin(SHL, P.zext(base, w - 1 < 16 ? 16 : w - 1), c(w - 1, m)), P.zext(keep, w - 1)), P.zext(up, w - 1));
    r = P.ite(P.bin(SLE, c(16, 2 * B(w) + 1), be), c(w - 1, infm(w)), r); r = P.ite(P.bin(EQ, sig, c(W, 0)), c(w - 1, 0), r);
    return P.concat(sg, r);
  }
  X add(X a, X b) {
    unsigned w = a->w; int m = M(w); unsigned W = m + 5; X sw = P.bin(ULT, mag(a), mag(b)); X x = P.ite(sw, b, a), y = P.ite(sw, a, b);
    auto sig = [&](X v) { X hid = P.notb(P.bin(EQ, expo(v), c(E(w), 0))); return P.bin(SHL, P.zext(P.concat(hid, mant(v)), W), c(W, 3)); };
    auto ex = [&](X v) { X e = P.zext(expo(v), 16); return P.ite(P.bin(EQ, e, c(16, 0)), c(16, 1), e); };
    X ea = ex(x), eb = ex(y); X A = sig(x), Bm = srs(sig(y), P.zext(P.bin(SUB, ea, eb), W)); X same = P.bin(EQ, sign(x), sign(y));
    X s = P.ite(same, P.bin(ADD, A, Bm), P.bin(SUB, A, Bm)); X n; X ns = norm(s, n); X e = P.bin(SUB, P.bin(ADD, P.bin(SUB, ea, c(16, B(w))), c(16, 1)), n);
    X z = P.bin(EQ, s, c(W, 0)); X sg = P.ite(z, P.bin(AND, sign(a), sign(b)), sign(x));
    X r = pack(sg, e, ns, w); r = P.ite(inf(x), x, r);
    return P.ite(P.bin(OR, P.bin(OR, nan(a), nan(b)), P.bin(AND, P.bin(AND, inf(a), inf(b)), P.notb(same))), cnan(w), r);
  }
  X round(X a, uint32_t mode) {
    unsigned w = a->w; int m = M(w), b = B(w); X e = P.zext(expo(a), w), s = sign(a); X k = P.bin(SUB, c(w, b + m), e); // fraction bits when b <= e < b+m
    X one = P.bin(SHL, c(w, 1), k), msk = P.bin(SUB, one, c(w, 1)); X rest = P.bin(AND, a, msk), t = P.bin(SUB, a, rest), half = P.bin(LSHR, one, c(w, 1));
    X nz = P.notb(P.bin(EQ, rest, c(w, 0))), snz = P.notb(zero(a)), ge = P.bin(ULE, half, rest), gt = P.bin(ULT, half, rest), odd = P.notb(P.bin(EQ, P.bin(AND, a, one), c(w, 0)));
    X below = P.bin(EQ, e, c(w, b - 1)); X up, sup;
    switch (mode) { case 0: up = P.bin(AND, nz, s); sup = P.bin(AND, snz, s); break; case 1: up = P.bin(AND, nz, P.notb(s)); sup = P.bin(AND, snz, P.notb(s)); break; case 2: up = sup = P.Fa; break;
      case 3: up = ge; sup = below; break; default: { X o2 = P.ite(P.bin(EQ, e, c(w, b)), P.T, odd); up = P.bin(OR, gt, P.bin(AND, ge, o2)); sup = P.bin(AND, below, P.notb(P.bin(EQ, mant(a), c(m, 0)))); } }
    X mid = P.ite(up, P.bin(ADD, t, one), t); X small = P.concat(s, P.ite(sup, c(w - 1, (u128)b << m), c(w - 1, 0)));
    X r = P.ite(P.bin(ULT, e, c(w, b)), small, P.ite(P.bin(ULT, e, c(w, b + m)), mid, a)); return P.ite(nan(a), cnan(w), r);
  }
  X toInt(X a, unsigned w, bool sgn) {
    unsigned sw = a->w; int m = M(sw), b = B(sw); unsigned W = std::max<unsigned>(w, 64); X hid = P.notb(P.bin(EQ, expo(a), c(E(sw), 0))); X sig = P.zext(P.concat(hid, mant(a)), W); X e = P.zext(expo(a), W);
    X big = P.bin(ULE, c(W, b + m), e); X v = P.ite(big, P.bin(SHL, sig, P.bin(SUB, e, c(W, b + m))), P.bin(LSHR, sig, P.bin(SUB, c(W, b + m), e)));
    X r = P.extract(v, 0, w); u128 lim; if (sw == 32) { float f = (float)1e30; uint32_t u; memcpy(&u, &f, 4); if ((double)f > 1e30) u--; lim = u; } else { double d = 1e30; uint64_t u; memcpy(&u, &d, 8); lim = u; }
    X out = P.bin(ULT, c(sw - 1, lim), mag(a));
    r = sgn ? P.ite(sign(a), P.bin(SUB, c(w, 0), r), r) : P.ite(sign(a), c(w, 0), r); return P.ite(out, c(w, 0), r);
  }
  X fromInt(X a, unsigned w, bool sgn) {
    X sg = sgn ? sign(a) : P.Fa; X v = sgn ? P.ite(sg, P.bin(SUB, c(a->w, 0), a), a) : a; unsigned W = std::max<unsigned>(a->w, M(w) + 3); v = P.zext(v, W);
    X n; v = norm(v, n); return pack(sg, P.bin(SUB, c(16, W - 1), n), v, w);
  }
  X fcvt(X a, unsigned w) {
    unsigned sw = a->w; int m = M(sw); unsigned W = std::max<unsigned>(m + 1, M(w) + 3); X hid = P.notb(P.bin(EQ, expo(a), c(E(sw), 0))); X sig = P.bin(SHL, P.zext(P.concat(hid, mant(a)), W), c(W, W - 1 - m));
    X e = P.zext(expo(a), 16); e = P.ite(P.bin(EQ, e, c(16, 0)), c(16, 1), e); X n; sig = norm(sig, n); e = P.bin(SUB, P.bin(SUB, e, c(16, B(sw))), n);
    X r = pack(sign(a), e, sig, w); r = P.ite(inf(a), P.concat(sign(a), c(w - 1, infm(w))), r); return P.ite(nan(a), cnan(w), r);
  }
  X scale(X a, X p, bool div) {
    unsigned w = a->w; int k = (int)(p->v >> M(w) & mask(E(w))) - B(w); if (div) k = -k; unsigned W = M(w) + 3; X hid = P.notb(P.bin(EQ, expo(a), c(E(w), 0))); X sig = P.bin(SHL, P.zext(P.concat(hid, mant(a)), W), c(W, 2));
    X e = P.zext(expo(a), 16); e = P.ite(P.bin(EQ, e, c(16, 0)), c(16, 1), e); X n; sig = norm(sig, n); e = P.bin(ADD, P.bin(SUB, P.bin(SUB, e, c(16, B(w))), n), c(16, (u128)(s128)k));
    X sg = P.bin(XOR, sign(a), sign(p)); X r = pack(sg, e, sig, w); r = P.ite(inf(a), P.concat(sg, c(w - 1, infm(w))), r); return P.ite(nan(a), cnan(w), r);
  }
  X one(Kind k, unsigned w, X a, X b, uint32_t aux) {
    switch (k) {
      case FADD: return add(a, b); case FSUB: return add(a, P.concat(P.notb(sign(b)), mag(b)));
      case FMUL: return pow2(b) ? scale(a, b, false) : scale(b, a, false); case FDIV: return scale(a, b, true);
      case FROUND: return round(a, aux); case FOEQ: return P.bin(AND, both(a, b), eq(a, b)); case FOLT: return P.bin(AND, both(a, b), lt(a, b)); case FOLE: return P.bin(AND, both(a, b), P.bin(OR, lt(a, b), eq(a, b)));
      case FUNO: return P.bin(OR, nan(a), nan(b)); case FCVT: return a->w == w ? a : fcvt(a, w); case F2S: return toInt(a, w, true); case F2U: return toInt(a, w, false); case S2F: return fromInt(a, w, true); case U2F: return fromInt(a, w, false);
      default: return 0;
    }
  }
  X operator()(X e) {
    if (e->k == CONST || e->k == SYM) return e;
    if (memo.size() <= e->id) memo.resize(e->id * 2 + 64); if (memo[e->id]) return memo[e->id];
    X a = e->a ? (*this)(e->a) : 0, b = e->b ? (*this)(e->b) : 0, cc = e->c ? (*this)(e->c) : 0; X r = 0; unsigned id = e->id;
    if (e->k == TUPLE) r = e; else if (can(e)) r = one(e->k, e->w, a, b, e->aux);
    else if (a == e->a && b == e->b && cc == e->c) r = e;
    else switch (e->k) { case ITE: r = P.ite(a, b, cc); break; case CONCAT: r = P.concat(a, b); break; case EXTRACT: r = P.extract(a, e->aux, e->w); break; case ZEXT: r = P.zext(a, e->w); break; case SEXT: r = P.sext(a, e->w); break; default: r = P.bin(e->k, a, b); }
    if (memo.size() <= id) memo.resize(id * 2 + 64); return memo[id] = r;
  }
};
