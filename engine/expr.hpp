// Hash-consed bit-vector expression DAG with local simplification, model evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <string>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <algorithm>
#include <z3++.h>
typedef unsigned __int128 u128;
typedef __int128 s128;
enum Kind : uint8_t { CONST, SYM, TUPLE, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, SMULO, UMULO,
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FMA, FROUND, FOEQ, FOLT, FOLE, FUNO, FCVT, F2S, F2U, S2F, U2F };
struct Expr { Kind k; uint16_t w; uint32_t aux; uint32_t id; uint32_t size; bool allc; u128 v; Expr* a; Expr* b; Expr* c; std::vector<Expr*>* kids; uint64_t ep; u128 ev; };
static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= mask(w); return (s128)((v ^ m) - m); }

struct Fp { // concrete IEEE helpers for w = 32 / 64
  static double d(u128 v) { uint64_t x = (uint64_t)v; double r; memcpy(&r, &x, 8); return r; }
  static float f(u128 v) { uint32_t x = (uint32_t)v; float r; memcpy(&r, &x, 4); return r; }
  static u128 u(double r) { if (r != r) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &r, 8); return x; }
  static u128 u(float r) { if (r != r) return 0x7fc00000u; uint32_t x; memcpy(&x, &r, 4); return x; }
};

struct Pool {
  std::unordered_map<uint64_t, std::vector<Expr*>> tab;
  std::vector<Expr*> all;
  std::vector<std::string> symNames;
  std::vector<Expr*> syms;
  bool fpUsed = false;
  Expr* T; Expr* Fa;
  Pool() { T = cst(1, 1); Fa = cst(1, 0); }
  static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
  Expr* get(Kind k, unsigned w, u128 v, Expr* a = 0, Expr* b = 0, Expr* c = 0, uint32_t aux = 0) {
    uint64_t h = mix(mix(mix(mix(mix(mix(k, w), (uint64_t)v), (uint64_t)(v >> 64)), a ? a->id + 1 : 0), b ? b->id + 1 : 0), (c ? c->id + 1 : 0) + ((uint64_t)aux << 32));
    auto& bk = tab[h];
    for (auto* e : bk) if (e->k == k && e->w == w && e->v == v && e->a == a && e->b == b && e->c == c && e->aux == aux) return e;
    Expr* e = new Expr();
    e->k = k; e->w = w; e->v = v; e->a = a; e->b = b; e->c = c; e->aux = aux; e->id = all.size(); e->kids = nullptr; e->ep = 0;
    uint64_t sz = 1; for (auto* x : {a, b, c}) if (x) sz += x->size; e->size = sz > 1000000 ? 1000000 : sz;
    e->allc = k == CONST || (k == ITE && b->allc && c->allc && sz < 200);
    all.push_back(e); bk.push_back(e);
    if (k >= FADD) fpUsed = true;
    return e;
  }
  Expr* cst(unsigned w, u128 v) { return get(CONST, w, v & mask(w)); }
  Expr* boolc(bool b) { return b ? T : Fa; }
  Expr* sym(const std::string& n, unsigned w) {
    for (auto* s : syms) if (s->w == w && symNames[s->aux] == n) return s;
    Expr* e = get(SYM, w, 0, 0, 0, 0, (uint32_t)symNames.size());
    symNames.push_back(n); syms.push_back(e); return e;
  }
  Expr* tuple(const std::vector<Expr*>& ks) { // not hash-consed
    Expr* e = new Expr(); e->k = TUPLE; e->w = 0; e->id = 0xffffffff; e->kids = new std::vector<Expr*>(ks); e->size = 1; e->allc = false; e->a = e->b = e->c = 0; return e; }
  static bool isC(Expr* e) { return e->k == CONST; }
  static bool isC(Expr* e, u128 v) { return e->k == CONST && e->v == (v & mask(e->w)); }
  static u128 fold(Kind k, unsigned w, u128 a, u128 b, bool& ok) {
    u128 m = mask(w); ok = true;
    switch (k) {
      case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
      case UDIV: return b == 0 ? m : a / b; case UREM: return b == 0 ? a : a % b;
      case SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u128)(x / y) & m; }
      case SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
      case SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case ASHR: { s128 x = sx128(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
      case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
      case SLT: return sx128(a, w) < sx128(b, w); case SLE: return sx128(a, w) <= sx128(b, w);
      case SMULO: { if (w > 64) { ok = false; return 0; } s128 r = sx128(a, w) * sx128(b, w); return sx128((u128)r & m, w) != r; }
      case UMULO: { if (w > 64) { ok = false; return 0; } u128 r = a * b; return (r & ~m) != 0; }
      default: ok = false; return 0;
    }
  }
  static u128 ffold(Kind k, unsigned w, u128 a, u128 b, u128 c, uint32_t aux, bool& ok) {
    ok = true; bool F = w == 32; // w: operand width
    if (w != 32 && w != 64) { ok = false; return 0; }
    switch (k) {
      case FADD: return F ? Fp::u(Fp::f(a) + Fp::f(b)) : Fp::u(Fp::d(a) + Fp::d(b));
      case FSUB: return F ? Fp::u(Fp::f(a) - Fp::f(b)) : Fp::u(Fp::d(a) - Fp::d(b));
      case FMUL: return F ? Fp::u(Fp::f(a) * Fp::f(b)) : Fp::u(Fp::d(a) * Fp::d(b));
      case FDIV: return F ? Fp::u(Fp::f(a) / Fp::f(b)) : Fp::u(Fp::d(a) / Fp::d(b));
      case FREM: return F ? Fp::u(fmodf(Fp::f(a), Fp::f(b))) : Fp::u(fmod(Fp::d(a), Fp::d(b)));
      case FSQRT: return F ? Fp::u(sqrtf(Fp::f(a))) : Fp::u(sqrt(Fp::d(a)));
      case FMA: return F ? Fp::u(fmaf(Fp::f(a), Fp::f(b), Fp::f(c))) : Fp::u(fma(Fp::d(a), Fp::d(b), Fp::d(c)));
      case FROUND: switch (aux) {
        case 0: return F ? Fp::u(floorf(Fp::f(a))) : Fp::u(floor(Fp::d(a)));
        case 1: return F ? Fp::u(ceilf(Fp::f(a))) : Fp::u(ceil(Fp::d(a)));
        case 2: return F ? Fp::u(truncf(Fp::f(a))) : Fp::u(trunc(Fp::d(a)));
        case 3: return F ? Fp::u(roundf(Fp::f(a))) : Fp::u(round(Fp::d(a)));
        default: return F ? Fp::u(rintf(Fp::f(a))) : Fp::u(rint(Fp::d(a))); }
      case FOEQ: return F ? Fp::f(a) == Fp::f(b) : Fp::d(a) == Fp::d(b);
      case FOLT: return F ? Fp::f(a) < Fp::f(b) : Fp::d(a) < Fp::d(b);
      case FOLE: return F ? Fp::f(a) <= Fp::f(b) : Fp::d(a) <= Fp::d(b);
      case FUNO: return F ? (Fp::f(a) != Fp::f(a) || Fp::f(b) != Fp::f(b)) : (Fp::d(a) != Fp::d(a) || Fp::d(b) != Fp::d(b));
      default: ok = false; return 0;
    }
  }
  Expr* notb(Expr* a) {
    if (isC(a)) return boolc(!a->v);
    if (a->k == XOR && isC(a->b, 1)) return a->a;
    if (a->k == ULT) return bin(ULE, a->b, a->a);
    if (a->k == ULE) return bin(ULT, a->b, a->a);
    if (a->k == SLT) return bin(SLE, a->b, a->a);
    if (a->k == SLE) return bin(SLT, a->b, a->a);
    return get(XOR, 1, 0, a, T);
  }
  // the number of low bits that determine e by sign extension, and whether its sign bit is known to be zero
  std::vector<uint8_t> sbm;
  unsigned sbits(Expr* e) {
    if (e->id < sbm.size() && sbm[e->id]) return sbm[e->id];
    unsigned w = e->w, r = w; auto mx = [](unsigned x, unsigned y) { return x > y ? x : y; };
    if (w > 1 && w <= 128) switch (e->k) {
      case CONST: { s128 v = sx128(e->v, w); r = 1; while (r < w && sx128(e->v & mask(r), r) != v) r++; break; }
      case SEXT: r = sbits(e->a); break;
      case ZEXT: r = nonneg(e->a) ? sbits(e->a) : e->a->w + 1; break;
      case ADD: case SUB: r = mx(sbits(e->a), sbits(e->b)) + 1; break;
      case MUL: r = sbits(e->a) + sbits(e->b); break;
      case SDIV: r = sbits(e->a) + 1; break;
      case SREM: r = sbits(e->a); break;
      case UDIV: case UREM: if (nonneg(e->a)) r = sbits(e->a); break;
      case AND: { unsigned x = sbits(e->a), y = sbits(e->b); r = mx(x, y); if (nonneg(e->a) && x < r) r = x; if (nonneg(e->b) && y < r) r = y; break; }
      case OR: case XOR: r = mx(sbits(e->a), sbits(e->b)); break;
      case ITE: r = mx(sbits(e->b), sbits(e->c)); break;
      case EXTRACT: { unsigned x = sbits(e->a); r = x > e->aux ? x - e->aux : 1; break; }
      case CONCAT: r = sbits(e->a) + e->b->w; break;
      default: break;
    }
    if (r > w) r = w;
    if (sbm.size() <= e->id) sbm.resize(all.size() + 1024);
    sbm[e->id] = (uint8_t)(r ? r : 1); return r ? r : 1;
  }
  bool nonneg(Expr* e, int depth = 0) {
    switch (e->k) {
      case CONST: return !((e->v >> (e->w - 1)) & 1);
      case ZEXT: return true;
      case SEXT: return nonneg(e->a, depth);
      case AND: return depth < 6 && (nonneg(e->a, depth + 1) || nonneg(e->b, depth + 1));
      case OR: case XOR: return depth < 6 && nonneg(e->a, depth + 1) && nonneg(e->b, depth + 1);
      case ITE: return depth < 6 && nonneg(e->b, depth + 1) && nonneg(e->c, depth + 1);
      case UREM: return depth < 6 && nonneg(e->a, depth + 1);
      case ADD: case MUL: return depth < 6 && nonneg(e->a, depth + 1) && nonneg(e->b, depth + 1) && (e->k == ADD ? std::max(sbits(e->a), sbits(e->b)) + 1 : sbits(e->a) + sbits(e->b)) <= e->w;
      case CONCAT: return nonneg(e->a, depth);
      default: return false;
    }
  }
  // the operation at the smallest width that gives the same value
  Expr* narrow(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w; if (w < 12 || w > 128) return nullptr;
    unsigned sa = sbits(a), sb = sbits(b), n = 0;
    switch (k) {
      case MUL: n = sa + sb; break;
      case SDIV: n = std::max(sa + 1, sb); break;
      case SREM: n = std::max(sa, sb); break;
      case UDIV: case UREM: if (!nonneg(a) || !nonneg(b)) return nullptr; n = std::max(sa, sb); break;
      case SMULO: return sa + sb <= w ? Fa : nullptr;
      case UMULO: return nonneg(a) && nonneg(b) && sa + sb <= w + 2 ? Fa : nullptr;
      case EQ: case SLT: case SLE: case ULT: case ULE: n = std::max(sa, sb); if (n + 4 > w) return nullptr; return bin(k, extract(a, 0, n), extract(b, 0, n));
      default: return nullptr;
    }
    if (n >= w) return nullptr;
    return sext(bin(k, extract(a, 0, n), extract(b, 0, n)), w);
  }
  Expr* bin(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w; bool cmp = k == EQ || (k >= ULT && k <= SLE) || k == SMULO || k == UMULO;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) { bool ok; u128 r = fold(k, w, a->v, b->v, ok); if (ok) return cst(rw, r); }
    bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ || k == SMULO || k == UMULO;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    // push constants into ite-of-constants
    if (isC(b) && a->k == ITE && a->allc) { if (!(w == 1)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b)); }
    if (isC(a) && b->k == ITE && b->allc) { if (!(w == 1)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c)); }
    switch (k) {
      case ADD:
        if (isC(b, 0)) return a;
        if (w == 1) return bin(XOR, a, b);
        if (isC(b) && a->k == ADD && isC(a->b)) return bin(ADD, a->a, cst(w, a->b->v + b->v));
        if (isC(b) && a->k == SUB && isC(a->a)) return bin(SUB, cst(w, a->a->v + b->v), a->b);
        if (b->k == SUB && b->b == a) return b->a;
        if (a->k == SUB && a->b == b) return a->a;
        break;
      case SUB:
        if (w == 1) return bin(XOR, a, b);
        if (a == b) return cst(w, 0);
        if (isC(b)) return bin(ADD, a, cst(w, 0 - b->v));
        if (a->k == ADD && a->a == b) return a->b;
        if (a->k == ADD && a->b == b) return a->a;
        if (b->k == ADD && b->a == a) return bin(SUB, cst(w, 0), b->b);
        if (b->k == ADD && b->b == a) return bin(SUB, cst(w, 0), b->a);
        if (a->k == ADD && b->k == ADD && a->a == b->a) return bin(SUB, a->b, b->b);
        if (a->k == ADD && isC(a->b) && b->k == ADD && isC(b->b)) return bin(ADD, bin(SUB, a->a, b->a), cst(w, a->b->v - b->b->v));
        if (b->k == ADD && isC(b->b)) return bin(ADD, bin(SUB, a, b->a), cst(w, 0 - b->b->v));
        if (isC(a, 0) && b->k == SUB) return bin(SUB, b->b, b->a);
        break;
      case MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a; if (w == 1) return bin(AND, a, b);
        if (isC(b) && a->k == MUL && isC(a->b)) return bin(MUL, a->a, cst(w, a->b->v * b->v));
        break;
      case UDIV: if (isC(b, 1)) return a;
        if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return bin(LSHR, a, cst(w, s)); }
        break;
      case SDIV: if (isC(b, 1)) return a; break;
      case UREM: if (isC(b, 1)) return cst(w, 0);
        if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(AND, a, cst(w, b->v - 1));
        break;
      case AND:
        if (isC(b, 0)) return b; if (isC(b, mask(w))) return a; if (a == b) return a;
        if (isC(b) && a->k == AND && isC(a->b)) return bin(AND, a->a, cst(w, a->b->v & b->v));
        if (w == 1 && ((a->k == XOR && isC(a->b, 1) && a->a == b) || (b->k == XOR && isC(b->b, 1) && b->a == a))) return Fa;
        if (isC(b) && a->k == ZEXT) { if ((b->v & mask(a->a->w)) == mask(a->a->w)) return a; return zext(bin(AND, a->a, cst(a->a->w, b->v)), w); }
        if (isC(b)) { // low mask
          u128 m = b->v; if ((m & (m + 1)) == 0) { unsigned n = 0; while ((m >> n) & 1) n++; return zext(extract(a, 0, n), w); } }
        break;
      case OR:
        if (isC(b, 0)) return a; if (isC(b, mask(w))) return b; if (a == b) return a;
        if (w == 1 && ((a->k == XOR && isC(a->b, 1) && a->a == b) || (b->k == XOR && isC(b->b, 1) && b->a == a))) return T;
        break;
      case XOR:
        if (isC(b, 0)) return a; if (a == b) return cst(w, 0);
        if (w == 1 && isC(b, 1)) return notb(a);
        if (isC(b) && a->k == XOR && isC(a->b)) return bin(XOR, a->a, cst(w, a->b->v ^ b->v));
        if (a->k == XOR && a->a == b) return a->b;
        if (a->k == XOR && a->b == b) return a->a;
        if (b->k == XOR && b->a == a) return b->b;
        if (b->k == XOR && b->b == a) return b->a;
        break;
      case SHL: case LSHR:
        if (isC(b, 0)) return a; if (isC(a, 0)) return a; if (w == 1) return bin(AND, a, notb(b));
        if (isC(b) && b->v >= w) return cst(w, 0);
        if (isC(b)) { unsigned s = (unsigned)b->v;
          if (k == LSHR) return zext(extract(a, s, w - s), w);
          return concat(extract(a, 0, w - s), cst(s, 0)); }
        break;
      case ASHR: if (isC(b, 0)) return a; if (w == 1) return a;
        if (isC(b)) { unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return sext(extract(a, s, w - s), w); }
        break;
      case EQ:
        if (a == b) return T;
        if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return notb(a); return notb(get(XOR, 1, 0, a, b)); }
        if (isC(b)) {
          if (a->k == ADD && isC(a->b)) return bin(EQ, a->a, cst(w, b->v - a->b->v));
          if (a->k == SUB && isC(a->a)) return bin(EQ, a->b, cst(w, a->a->v - b->v));
          if (a->k == SUB && b->v == 0) return bin(EQ, a->a, a->b);
          if (a->k == XOR && isC(a->b)) return bin(EQ, a->a, cst(w, b->v ^ a->b->v));
          if (a->k == XOR && b->v == 0) return bin(EQ, a->a, a->b);
          if (a->k == ZEXT) { if (b->v >> a->a->w) return Fa; return bin(EQ, a->a, cst(a->a->w, b->v)); }
          if (a->k == SEXT) { u128 lo = b->v & mask(a->a->w); if (((u128)sx128(lo, a->a->w) & mask(w)) != b->v) return Fa; return bin(EQ, a->a, cst(a->a->w, lo)); }
          if (a->k == CONCAT) return bin(AND, bin(EQ, a->a, cst(a->a->w, b->v >> a->b->w)), bin(EQ, a->b, cst(a->b->w, b->v)));
          if (a->k == ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(EQ, a->b, b), bin(EQ, a->c, b));
        }
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
        if (a->k == ADD && b->k == ADD && isC(a->b) && a->b == b->b) return bin(EQ, a->a, b->a);
        if (b->k == ADD && isC(b->b) && b->a == a) return boolc(b->b->v == 0);
        if (a->k == ADD && isC(a->b) && a->a == b) return boolc(a->b->v == 0);
        break;
      case ULT: if (a == b) return Fa; if (isC(b, 0)) return Fa; if (isC(a, mask(w))) return Fa; if (isC(b, 1)) return bin(EQ, a, cst(w, 0)); if (isC(a, 0)) return notb(bin(EQ, b, a));
        if (w == 1) return bin(AND, notb(a), b);
        if (a->k == ZEXT && isC(b)) { if (b->v > mask(a->a->w)) return T; return bin(ULT, a->a, cst(a->a->w, b->v)); }
        if (b->k == ZEXT && isC(a)) { if (a->v >= mask(b->a->w)) return Fa; return bin(ULT, cst(b->a->w, a->v), b->a); }
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
        break;
      case ULE: if (a == b) return T; if (isC(a, 0)) return T; if (isC(b, mask(w))) return T; if (isC(b, 0)) return bin(EQ, a, b);
        if (w == 1) return bin(OR, notb(a), b);
        if (a->k == ZEXT && isC(b)) { if (b->v >= mask(a->a->w)) return T; return bin(ULE, a->a, cst(a->a->w, b->v)); }
        if (b->k == ZEXT && isC(a)) { if (a->v > mask(b->a->w)) return Fa; return bin(ULE, cst(b->a->w, a->v), b->a); }
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
        break;
      case SLT: if (a == b) return Fa; if (w == 1) return bin(AND, a, notb(b));
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return bin(SLT, a->a, b->a);
        if (a->k == ZEXT && isC(b)) { if (sx128(b->v, w) < 0) return Fa; return bin(ULT, a, b); }
        if (b->k == ZEXT && isC(a)) { if (sx128(a->v, w) < 0) return T; return bin(ULT, a, b); }
        if (isC(b) && a->k == SEXT) { s128 c = sx128(b->v, w), lo = sx128((u128)1 << (a->a->w - 1), a->a->w), hi = -(lo + 1); if (c <= lo) return Fa; if (c > hi) return T; return bin(SLT, a->a, cst(a->a->w, (u128)c)); }
        if (isC(a) && b->k == SEXT) { s128 c = sx128(a->v, w), lo = sx128((u128)1 << (b->a->w - 1), b->a->w), hi = -(lo + 1); if (c < lo) return T; if (c >= hi) return Fa; return bin(SLT, cst(b->a->w, (u128)c), b->a); }
        break;
      case SLE: if (a == b) return T; if (w == 1) return bin(OR, a, notb(b));
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return bin(SLE, a->a, b->a);
        if (a->k == ZEXT && isC(b)) { if (sx128(b->v, w) < 0) return Fa; return bin(ULE, a, b); }
        if (b->k == ZEXT && isC(a)) { if (sx128(a->v, w) < 0) return T; return bin(ULE, a, b); }
        if (isC(b) && a->k == SEXT) { s128 c = sx128(b->v, w), lo = sx128((u128)1 << (a->a->w - 1), a->a->w), hi = -(lo + 1); if (c < lo) return Fa; if (c >= hi) return T; return bin(SLE, a->a, cst(a->a->w, (u128)c)); }
        if (isC(a) && b->k == SEXT) { s128 c = sx128(a->v, w), lo = sx128((u128)1 << (b->a->w - 1), b->a->w), hi = -(lo + 1); if (c <= lo) return T; if (c > hi) return Fa; return bin(SLE, cst(b->a->w, (u128)c), b->a); }
        break;
      case SMULO: case UMULO:
        if (isC(b, 0) || (isC(b, 1) && w > 1)) return Fa; break;
      default: break;
    }
    if ((k >= MUL && k <= SREM) || (k >= EQ && k <= SLE) || k == SMULO || k == UMULO) if (Expr* r = narrow(k, a, b)) return r;
    return get(k, rw, 0, a, b);
  }
  Expr* ite(Expr* c, Expr* x, Expr* y) {
    if (isC(c)) return c->v ? x : y;
    if (x == y) return x;
    if (x->k == TUPLE) { std::vector<Expr*> ks; for (size_t i = 0; i < x->kids->size(); i++) ks.push_back(ite(c, (*x->kids)[i], (*y->kids)[i])); return tuple(ks); }
    if (c->k == XOR && isC(c->b, 1)) return ite(c->a, y, x);
    if (x->w == 1) {
      if (isC(x, 1) && isC(y, 0)) return c;
      if (isC(x, 0) && isC(y, 1)) return notb(c);
      if (isC(x, 1)) return bin(OR, c, y);
      if (isC(x, 0)) return bin(AND, notb(c), y);
      if (isC(y, 1)) return bin(OR, notb(c), x);
      if (isC(y, 0)) return bin(AND, c, x);
    }
    if (x->k == ITE && x->a == c) x = x->b;
    if (y->k == ITE && y->a == c) y = y->c;
    if (x == y) return x;
    if (y->k == ITE && y->b == x) return ite(bin(OR, c, y->a), x, y->c);
    return get(ITE, x->w, 0, c, x, y);
  }
  // the low n bits can be taken at the leaves within a few steps
  static bool narrows(Expr* a, unsigned n, int d) {
    switch (a->k) {
      case CONST: return true;
      case ZEXT: case SEXT: return a->a->w == n || (a->a->w < n);
      case ADD: case SUB: case MUL: return d > 0 && narrows(a->a, n, d - 1) && narrows(a->b, n, d - 1);
      default: return false; }
  }
  Expr* extract(Expr* a, unsigned off, unsigned n) {
    if (off == 0 && n == a->w) return a;
    switch (a->k) {
      case CONST: return cst(n, a->v >> off);
      case EXTRACT: return extract(a->a, a->aux + off, n);
      case CONCAT: if (off + n <= a->b->w) return extract(a->b, off, n); if (off >= a->b->w) return extract(a->a, off - a->b->w, n);
        return concat(extract(a->a, 0, off + n - a->b->w), extract(a->b, off, a->b->w - off));
      case ZEXT: if (off >= a->a->w) return cst(n, 0); if (off + n <= a->a->w) return extract(a->a, off, n); return zext(extract(a->a, off, a->a->w - off), n);
      case SEXT: if (off + n <= a->a->w) return extract(a->a, off, n); if (off == 0) return sext(a->a, n); break;
      case ITE: if (a->allc) return ite(a->a, extract(a->b, off, n), extract(a->c, off, n)); 
        if (n <= 64 && (isC(a->b) || isC(a->c) || a->w > 64)) return ite(a->a, extract(a->b, off, n), extract(a->c, off, n)); break;
      case AND: case OR: case XOR: if (a->size > 256) break; return bin(a->k, extract(a->a, off, n), extract(a->b, off, n));   // large terms stay shared
      case ADD: case SUB: case MUL: if (off == 0 && (a->size <= 256 || narrows(a, n, 4))) return bin(a->k, extract(a->a, 0, n), extract(a->b, 0, n)); break;
      default: break;
    }
    return get(EXTRACT, n, 0, a, 0, 0, off);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst(w, (hi->v << lo->w) | lo->v);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(hi->a, lo->aux, w);
    if (hi->k == EXTRACT && hi->a == lo && hi->aux == lo->w) return extract(lo, 0, w);
    if (lo->k == CONCAT && hi->k == EXTRACT && lo->a->k == EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w) return concat(extract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (hi->k == CONCAT && hi->b->k == EXTRACT && lo->k == EXTRACT && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w) return concat(hi->a, extract(lo->a, lo->aux, hi->b->w + lo->w));
    if (hi->k == ZEXT && hi->a->k == EXTRACT && lo->k == EXTRACT && hi->a->a == lo->a && hi->a->aux == lo->aux + lo->w) return zext(concat(hi->a, lo), w);
    if (hi->k == ZEXT) return zext(concat(hi->a, lo), w);
    if (hi->k == ITE && lo->k == ITE && hi->a == lo->a && hi->allc && lo->allc) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    return get(CONCAT, w, 0, hi, lo);
  }
  Expr* zext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) return extract(a, 0, w);
    if (isC(a)) return cst(w, a->v);
    if (a->k == ZEXT) return zext(a->a, w);
    if (a->k == ITE && a->allc) return ite(a->a, zext(a->b, w), zext(a->c, w));
    return get(ZEXT, w, 0, a);
  }
  Expr* sext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(w, (u128)sx128(a->v, a->w));
    if (a->k == SEXT) return sext(a->a, w);
    if (a->k == ZEXT) return zext(a->a, w);
    if (a->w == 1) return ite(a, cst(w, ~(u128)0), cst(w, 0));
    if (a->k == ITE && a->allc) return ite(a->a, sext(a->b, w), sext(a->c, w));
    return get(SEXT, w, 0, a);
  }
  Expr* fop(Kind k, unsigned w, Expr* a, Expr* b = 0, Expr* c = 0, uint32_t aux = 0) {
    if (isC(a) && (!b || isC(b)) && (!c || isC(c))) {
      bool ok = true; u128 r = 0;
      if (k <= FUNO) r = ffold(k, a->w, a->v, b ? b->v : 0, c ? c->v : 0, aux, ok);
      else r = cvt(k, a->w, w, a->v, ok);
      if (ok) return cst(w, r);
    }
    if (k == FCVT && a->w == 32 && w == 64) { Expr* e = extract(a, 23, 8); if (isC(e) && e->v >= 1 && e->v <= 254) return concat(extract(a, 31, 1), concat(cst(11, e->v + 896), concat(extract(a, 0, 23), cst(29, 0)))); } // a normal number is widened exactly
    return get(k, w, 0, a, b, c, aux);
  }
  static u128 cvt(Kind k, unsigned sw, unsigned w, u128 v, bool& ok) {
    ok = true;
    switch (k) {
      case FCVT: if (sw == 32 && w == 64) return Fp::u((double)Fp::f(v)); if (sw == 64 && w == 32) return Fp::u((float)Fp::d(v)); break;
      case F2S: { double d = sw == 32 ? Fp::f(v) : Fp::d(v); if (d != d || std::fabs(d) > 1e30) { return 0; } return (u128)(s128)d & mask(w); }
      case F2U: { double d = sw == 32 ? Fp::f(v) : Fp::d(v); if (d != d || d < 0 || d > 1e30) { return 0; } return (u128)d & mask(w); }
      case S2F: { s128 s = sx128(v, sw); return w == 32 ? Fp::u((float)s) : Fp::u((double)s); }
      case U2F: return w == 32 ? Fp::u((float)v) : Fp::u((double)v);
      default: break;
    }
    ok = false; return 0;
  }
};

// ---- model evaluation
struct Model { std::vector<u128> v; u128 at(uint32_t i) const { return i < v.size() ? v[i] : 0; } };
struct Evaluator {
  Model m; uint64_t epoch = 1;
  void set(const Model& x) { static uint64_t next = 1; m = x; epoch = ++next; }
  u128 eval(Expr* e) {
    if (e->k == CONST) return e->v;
    if (e->ep == epoch) return e->ev;
    u128 r = 0; bool ok = true;
    switch (e->k) {
      case SYM: r = m.at(e->aux) & mask(e->w); break;
      case ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
      case CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
      case EXTRACT: r = (eval(e->a) >> e->aux) & mask(e->w); break;
      case ZEXT: r = eval(e->a); break;
      case SEXT: r = (u128)sx128(eval(e->a), e->a->w) & mask(e->w); break;
      default:
        if (e->k >= FADD && e->k <= FUNO) r = Pool::ffold(e->k, e->a->w, eval(e->a), e->b ? eval(e->b) : 0, e->c ? eval(e->c) : 0, e->aux, ok);
        else if (e->k >= FCVT) r = Pool::cvt(e->k, e->a->w, e->w, eval(e->a), ok);
        else if (e->k == SMULO && e->a->w > 64) { r = 0; }
        else r = Pool::fold(e->k, e->a->w, eval(e->a), eval(e->b), ok);
    }
    e->ep = epoch; e->ev = r; return r;
  }
};

// ---- translation to Z3
struct ToZ3 {
  z3::context& c; std::vector<Z3_ast> cache;
  ToZ3(z3::context& c) : c(c) {}
  z3::sort fps(unsigned w) { return w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); }
  z3::expr fp(Expr* e) { return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, tr(e), fps(e->w))); }
  z3::expr rm() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
  z3::expr bvOf(z3::expr f, unsigned w) { // canonical NaN
    z3::expr b(c, Z3_mk_fpa_to_ieee_bv(c, f));
    return z3::ite(z3::expr(c, Z3_mk_fpa_is_nan(c, f)), num(w, w == 32 ? (u128)0x7fc00000u : (u128)0x7ff8000000000000ull), b);
  }
  z3::expr num(unsigned w, u128 v) {
    if (w == 1) return c.bool_val(v != 0);
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr bv(Expr* e) { z3::expr x = tr(e); return e->w == 1 ? z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)) : x; }
  z3::expr fin(unsigned w, z3::expr x) { return w == 1 && x.is_bv() ? x == c.bv_val(1, 1) : x; }
  z3::expr tr(Expr* e) {
    if (e->id < cache.size() && cache[e->id]) return z3::expr(c, cache[e->id]);
    // iterative for deep DAGs
    std::vector<Expr*> st{e};
    while (!st.empty()) {
      Expr* x = st.back();
      if (x->id < cache.size() && cache[x->id]) { st.pop_back(); continue; }
      bool ready = true;
      for (Expr* k : {x->a, x->b, x->c}) if (k && !(k->id < cache.size() && cache[k->id])) { st.push_back(k); ready = false; }
      if (!ready) continue;
      z3::expr r = one(x);
      if (x->id >= cache.size()) cache.resize(x->id * 2 + 16, nullptr);
      cache[x->id] = r; Z3_inc_ref(c, r);
      st.pop_back();
    }
    return z3::expr(c, cache[e->id]);
  }
  z3::expr one(Expr* e) {
    switch (e->k) {
      case CONST: return num(e->w, e->v);
      case SYM: return e->w == 1 ? c.bool_const(("s" + std::to_string(e->aux)).c_str()) : c.bv_const(("s" + std::to_string(e->aux)).c_str(), e->w);
      case ADD: return tr(e->a) + tr(e->b);
      case SUB: return tr(e->a) - tr(e->b);
      case MUL: return tr(e->a) * tr(e->b);
      case UDIV: return fin(e->w, z3::udiv(bv(e->a), bv(e->b)));
      case SDIV: return fin(e->w, bv(e->a) / bv(e->b));
      case UREM: return fin(e->w, z3::urem(bv(e->a), bv(e->b)));
      case SREM: return fin(e->w, z3::srem(bv(e->a), bv(e->b)));
      case AND: return e->w == 1 ? tr(e->a) && tr(e->b) : tr(e->a) & tr(e->b);
      case OR: return e->w == 1 ? tr(e->a) || tr(e->b) : tr(e->a) | tr(e->b);
      case XOR: if (e->w == 1) return Pool::isC(e->b, 1) ? !tr(e->a) : tr(e->a) != tr(e->b); return tr(e->a) ^ tr(e->b);
      case SHL: return fin(e->w, z3::shl(bv(e->a), bv(e->b)));
      case LSHR: return fin(e->w, z3::lshr(bv(e->a), bv(e->b)));
      case ASHR: return fin(e->w, z3::ashr(bv(e->a), bv(e->b)));
      case EQ: return tr(e->a) == tr(e->b);
      case ULT: return z3::ult(bv(e->a), bv(e->b));
      case ULE: return z3::ule(bv(e->a), bv(e->b));
      case SLT: return bv(e->a) < bv(e->b);
      case SLE: return bv(e->a) <= bv(e->b);
      case ITE: return z3::ite(tr(e->a), tr(e->b), tr(e->c));
      case CONCAT: return z3::concat(bv(e->a), bv(e->b));
      case EXTRACT: return fin(e->w, bv(e->a).extract(e->aux + e->w - 1, e->aux));
      case ZEXT: if (e->a->w == 1) return z3::ite(tr(e->a), num(e->w, 1), num(e->w, 0)); return z3::zext(bv(e->a), e->w - e->a->w);
      case SEXT: return z3::sext(bv(e->a), e->w - e->a->w);
      case SMULO: return !(z3::bvmul_no_overflow(bv(e->a), bv(e->b), true) && z3::bvmul_no_underflow(bv(e->a), bv(e->b)));
      case UMULO: return !z3::bvmul_no_overflow(bv(e->a), bv(e->b), false);
      case FADD: return bvOf(z3::expr(c, Z3_mk_fpa_add(c, rm(), fp(e->a), fp(e->b))), e->w);
      case FSUB: return bvOf(z3::expr(c, Z3_mk_fpa_sub(c, rm(), fp(e->a), fp(e->b))), e->w);
      case FMUL: return bvOf(z3::expr(c, Z3_mk_fpa_mul(c, rm(), fp(e->a), fp(e->b))), e->w);
      case FDIV: return bvOf(z3::expr(c, Z3_mk_fpa_div(c, rm(), fp(e->a), fp(e->b))), e->w);
      case FSQRT: return bvOf(z3::expr(c, Z3_mk_fpa_sqrt(c, rm(), fp(e->a))), e->w);
      case FMA: return bvOf(z3::expr(c, Z3_mk_fpa_fma(c, rm(), fp(e->a), fp(e->b), fp(e->c))), e->w);
      case FROUND: { Z3_ast r = e->aux == 0 ? Z3_mk_fpa_rtn(c) : e->aux == 1 ? Z3_mk_fpa_rtp(c) : e->aux == 2 ? Z3_mk_fpa_rtz(c) : e->aux == 3 ? Z3_mk_fpa_rna(c) : Z3_mk_fpa_rne(c);
        z3::expr rr(c, r); return bvOf(z3::expr(c, Z3_mk_fpa_round_to_integral(c, rr, fp(e->a))), e->w); }
      case FOEQ: return z3::expr(c, Z3_mk_fpa_eq(c, fp(e->a), fp(e->b)));
      case FOLT: return z3::expr(c, Z3_mk_fpa_lt(c, fp(e->a), fp(e->b)));
      case FOLE: return z3::expr(c, Z3_mk_fpa_leq(c, fp(e->a), fp(e->b)));
      case FUNO: return z3::expr(c, Z3_mk_fpa_is_nan(c, fp(e->a))) || z3::expr(c, Z3_mk_fpa_is_nan(c, fp(e->b)));
      case FCVT: return bvOf(z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm(), fp(e->a), fps(e->w))), e->w);
      case F2S: { z3::expr r(c, Z3_mk_fpa_rtz(c)); return z3::expr(c, Z3_mk_fpa_to_sbv(c, r, fp(e->a), e->w)); }
      case F2U: { z3::expr r(c, Z3_mk_fpa_rtz(c)); return z3::expr(c, Z3_mk_fpa_to_ubv(c, r, fp(e->a), e->w)); }
      case S2F: return bvOf(z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm(), bv(e->a), fps(e->w))), e->w);
      case U2F: return bvOf(z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm(), bv(e->a), fps(e->w))), e->w);
      default: throw z3::exception("an operation without a solver encoding");
    }
  }
};
