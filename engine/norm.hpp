// Normal form of a query: sums become linear combinations over sorted terms, bitwise operations sorted flat lists, so that two terms
// that differ only by association, commutation or by where a truncation was made coincide before the query goes to the solver.
#pragma once
#include "expr.hpp"
#include <map>
struct Norm {
  Pool& P; std::vector<Expr*> memo; size_t work = 0, limit = 0; static constexpr size_t CAP = 24;
  explicit Norm(Pool& p) : P(p) {}
  typedef std::map<uint32_t, std::pair<Expr*, u128>> Lin; // term id -> term, coefficient
  struct L { Lin t; u128 c = 0; };
  void addTerm(L& l, Expr* e, u128 k, unsigned w) { auto& s = l.t[e->id]; s.first = e; s.second = (s.second + k) & mask(w); if (!s.second) l.t.erase(e->id); }
  // e is in normal form; adds k * e to l
  bool lin(Expr* e, u128 k, L& l, int depth) {
    unsigned w = e->w; k &= mask(w);
    if (!k) return true;
    if (e->k == CONST) { l.c = (l.c + k * e->v) & mask(w); return true; }
    if (e->k == ADD && depth) return lin(e->a, k, l, depth - 1) && lin(e->b, k, l, depth - 1) && l.t.size() <= CAP;
    if (e->k == SUB && depth) return lin(e->a, k, l, depth - 1) && lin(e->b, 0 - k, l, depth - 1) && l.t.size() <= CAP;
    if (e->k == MUL && Pool::isC(e->b)) return lin(e->a, k * e->b->v, l, depth);
    if (e->k == CONCAT && Pool::isC(e->b, 0) && depth) { // a sum shifted left: the top bits of its terms do not matter
      L in; unsigned sh = e->b->w; if (!lin(e->a, 1, in, depth - 1)) return false;
      for (auto& x : in.t) { Expr* y = lift(x.second.first, w); if (!lin(y, k * (x.second.second << sh), l, depth - 1)) return false; }
      l.c = (l.c + k * (in.c << sh)) & mask(w); return l.t.size() <= CAP; }
    if ((e->k == SEXT || (e->k == ZEXT && e->a->k != SYM)) && depth && e->a->w <= 60) { // a narrow sum that cannot overflow
      L in; unsigned n = e->a->w; if (!lin(e->a, 1, in, depth - 1)) return false;
      if (in.t.size() > 1 || in.c || (in.t.size() == 1 && in.t.begin()->second.first != e->a)) {
        bool sg = e->k == SEXT, ok = true; u128 B = 0; auto sv = [&](u128 x) { return sg && (x >> (n - 1) & 1) ? ~x + 1 + ((u128)1 << n) : x; }; // magnitude
        auto full = [&](u128 x) { return sg && (x >> (n - 1) & 1) ? x | ~mask(n) : x; };
        for (auto& x : in.t) { Expr* y = x.second.first; unsigned m = y->k == SEXT && sg ? y->a->w - 1 : y->k == ZEXT ? y->a->w : 200; if (m == 200) { ok = false; break; } B += (sv(x.second.second) & mask(n)) << m; }
        B += sv(in.c) & mask(n);
        if (ok && B < ((u128)1 << (sg ? n - 1 : n))) {
          for (auto& x : in.t) { Expr* y = x.second.first; if (!lin(y->k == SEXT ? P.sext(y->a, w) : P.zext(y->a, w), k * full(x.second.second), l, depth - 1)) return false; }
          l.c = (l.c + k * full(in.c)) & mask(w); return l.t.size() <= CAP; } } }
    if (e->k == ZEXT && depth && w > e->a->w && !(k & mask(w - e->a->w))) { // the same, written as a multiple
      L in; if (!lin(e->a, 1, in, depth - 1)) return false;
      if (in.t.size() != 1 || in.c || in.t.begin()->second.first != e->a || lift(e->a, w) != e) {
        for (auto& x : in.t) if (!lin(lift(x.second.first, w), k * x.second.second, l, depth - 1)) return false;
        l.c = (l.c + k * in.c) & mask(w); return l.t.size() <= CAP; } }
    addTerm(l, e, k, w); return l.t.size() <= CAP;
  }
  // a w-bit term with the low bits of the narrower e; what is above is of no account and chosen so that lift(truncation of x) is x
  Expr* lift(Expr* e, unsigned w, int depth = 12) {
    if (++work > limit || !depth) return P.zext(e, w);
    switch (e->k) {
      case EXTRACT: { unsigned n = std::min(w, (unsigned)(e->a->w - e->aux)); return P.zext(ext(e->a, e->aux, n), w); }
      case XOR: case AND: case OR: return bits(e->k, lift(e->a, w, depth - 1), lift(e->b, w, depth - 1));
      case SEXT: return P.sext(e->a, w);
      default: return P.zext(e, w);
    }
  }
  Expr* build(L const& l, unsigned w) {
    Expr* r = nullptr;
    for (auto& x : l.t) { Expr* t = P.bin(MUL, x.second.first, P.cst(w, x.second.second)); r = r ? P.get(ADD, w, 0, r, t) : t; }
    if (!r) return P.cst(w, l.c);
    return l.c ? P.get(ADD, w, 0, r, P.cst(w, l.c)) : r;
  }
  void flat(Kind k, Expr* e, std::vector<Expr*>& o) { if (e->k == k && o.size() < 64) { flat(k, e->a, o); flat(k, e->b, o); } else o.push_back(e); }
  Expr* bits(Kind k, Expr* a, Expr* b) {
    if (k != AND) for (int t = 0; t < 2; t++, std::swap(a, b)) if (a->k == ZEXT && a->w <= 64 && b->k != CONST && Pool::isC(ext(b, 0, a->a->w), 0)) return cat(ext(b, a->a->w, a->w - a->a->w), a->a); // disjoint bits
    std::vector<Expr*> o; flat(k, a, o); flat(k, b, o); unsigned w = a->w;
    if (o.size() > 2 * CAP) return P.bin(k, a, b);
    u128 c = k == AND ? mask(w) : 0; std::vector<Expr*> t;
    for (auto* x : o) if (x->k == CONST) { if (k == AND) c &= x->v; else if (k == OR) c |= x->v; else c ^= x->v; } else t.push_back(x);
    std::sort(t.begin(), t.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
    std::vector<Expr*> u;
    for (size_t i = 0; i < t.size(); i++) { if (!u.empty() && u.back() == t[i]) { if (k == XOR) u.pop_back(); } else u.push_back(t[i]); }
    if (k == AND && !c) return P.cst(w, 0); if (k == OR && c == mask(w)) return P.cst(w, c);
    Expr* r = nullptr; for (auto* x : u) r = r ? P.bin(k, r, x) : x;
    if (!r) return P.cst(w, c);
    if (k == AND && c && !(c & (c + 1)) && c != mask(w)) { unsigned n = 0; while ((c >> n) & 1) n++; return P.zext(ext(r, 0, n), w); }
    return P.bin(k, r, P.cst(w, c));
  }
  std::unordered_map<uint64_t, Expr*> em; // pieces already taken
  Expr* ext(Expr* e, unsigned off, unsigned n) { // e normal
    if (off == 0 && n == e->w) return e;
    if (e->k == CONST || e->k == SYM || e->k == TUPLE || e->w > 128) return P.extract(e, off, n);
    uint64_t key = ((uint64_t)e->id << 16) | (off << 8) | n; auto f = em.find(key); if (f != em.end()) return f->second;
    ++work; Expr* r = ext0(e, off, n); em[key] = r; return r;
  }
  Expr* ext0(Expr* e, unsigned off, unsigned n) {
    if (work > limit) return P.extract(e, off, n);
    switch (e->k) {
      case XOR: case AND: case OR: return bits(e->k, ext(e->a, off, n), ext(e->b, off, n));
      case EXTRACT: return ext(e->a, e->aux + off, n);
      case ZEXT: { unsigned m = e->a->w; if (off >= m) return P.cst(n, 0); if (off + n <= m) return ext(e->a, off, n); return P.zext(ext(e->a, off, m - off), n); }
      case CONCAT: { unsigned m = e->b->w; if (off + n <= m) return ext(e->b, off, n); if (off >= m) return ext(e->a, off - m, n); return cat(ext(e->a, 0, off + n - m), ext(e->b, off, m - off)); }
      case ADD: case SUB: case MUL:
        if (off == 0) return sum(e->k, ext(e->a, 0, n), ext(e->b, 0, n));
        if (e->w <= 64) { // every term is a multiple of 2^off
          L l; u128 m = mask(off); bool ok = lin(e, 1, l, 32) && !(l.c & m); for (auto& x : l.t) ok = ok && !(x.second.second & m);
          if (ok) { unsigned w = e->w - off; L r; r.c = l.c >> off; for (auto& x : l.t) if (!lin(ext(x.second.first, 0, w), x.second.second >> off, r, 32)) ok = false; if (ok) return ext(build(r, w), 0, n); } }
      default: return P.extract(e, off, n);
    }
  }
  Expr* cat(Expr* a, Expr* b) {
    if (a->k == EXTRACT && a->aux == b->w && ext(a->a, 0, b->w) == b) return ext(a->a, 0, a->w + b->w);
    Expr* r = P.concat(a, b);
    if (r->k == CONCAT && r->w <= 64 && Pool::isC(r->b, 0)) { L l; if (lin(r, 1, l, 32)) r = build(l, r->w); }
    return r;
  }
  Expr* sum(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w; if (w == 1 || w > 64) return P.bin(k, a, b);
    if (k == MUL && Pool::isC(a)) std::swap(a, b);
    L l; bool ok = k == MUL ? Pool::isC(b) && lin(a, b->v, l, 32) : lin(a, 1, l, 32) && lin(b, k == ADD ? 1 : ~(u128)0, l, 32);
    return ok ? build(l, w) : P.bin(k, a, b);
  }
  Expr* norm(Expr* e) {
    if (e->k == CONST || e->k == SYM || e->k == TUPLE || e->k >= FADD) return e;
    if (e->id < memo.size() && memo[e->id]) return memo[e->id];
    if (++work > limit) return e;
    Expr* a = e->a ? norm(e->a) : nullptr; Expr* b = e->b ? norm(e->b) : nullptr; Expr* c = e->c ? norm(e->c) : nullptr; Expr* r = e;
    if (work > limit) return e;
    switch (e->k) {
      case ADD: case SUB: case MUL: r = sum(e->k, a, b); break;
      case AND: case OR: case XOR: r = e->w == 1 ? P.bin(e->k, a, b) : bits(e->k, a, b); break;
      case ITE: r = P.ite(a, b, c); break;
      case EXTRACT: r = ext(a, e->aux, e->w); break;
      case CONCAT: r = cat(a, b); break;
      case ZEXT: r = P.zext(a, e->w); break;
      case SEXT: r = P.sext(a, e->w); if (r->k == SEXT && r->w <= 64) { L l; if (lin(r, 1, l, 32)) r = build(l, r->w); } break;
      case EQ: if (a->w > 1 && a->w <= 64) { L l; if (lin(a, 1, l, 32) && lin(b, ~(u128)0, l, 32) && l.t.empty()) { r = P.boolc(l.c == 0); break; } } r = P.bin(EQ, a, b); break;
      default: r = P.bin(e->k, a, b); break;
    }
    if (memo.size() <= e->id) memo.resize(P.all.size() + 4096);
    memo[e->id] = r; return r;
  }
  Expr* operator()(Expr* q) { work = 0; limit = getenv("NL") ? atoi(getenv("NL")) : 20000; Expr* r = norm(q); return work > limit ? q : r; }
};
