// Bit-blasting of the bit-vector part of the expression DAG into a persistent MiniSat instance.  A query is solved under
// assumptions; only the variables in the query's cone of influence are decision variables.
#pragma once
#include "lower.hpp"
#include "expr.hpp"
#define __STDC_FORMAT_MACROS 1
#define __STDC_LIMIT_MACROS 1
#include <minisat/core/Solver.h>
struct Blast {
  typedef Minisat::Lit L;
  Minisat::Solver* s = nullptr; L T, F;
  std::vector<std::vector<L>*> bits;         // by expr id
  std::vector<std::pair<int, int>> vrange;   // by expr id: SAT variables introduced while translating it (excluding children)
  std::vector<int> curCone; uint64_t mark = 0; std::vector<uint64_t> marks;
  std::unordered_map<uint64_t, L> gates;
  size_t nvLimit = 3000000;
  Blast() { reset(); }
  void reset() { delete s; s = new Minisat::Solver(); s->verbosity = 0; for (auto* b : bits) delete b; bits.clear(); vrange.clear(); gates.clear(); curCone.clear(); marks.clear(); T = Minisat::mkLit(s->newVar()); F = ~T; s->addClause(T); }
  L fresh() { return Minisat::mkLit(s->newVar(Minisat::lbool((uint8_t)2), false)); }
  L k(bool b) { return b ? T : F; }
  L and2(L a, L b) {
    if (a == F || b == F || a == ~b) return F; if (a == T || a == b) return b; if (b == T) return a;
    if (b < a) std::swap(a, b); uint64_t key = ((uint64_t)a.x << 32 | (uint32_t)b.x) << 1; auto it = gates.find(key); if (it != gates.end()) { use(it->second); return it->second; }
    L o = fresh(); s->addClause(~o, a); s->addClause(~o, b); s->addClause(o, ~a, ~b); gates[key] = o; return o; }
  L or2(L a, L b) { return ~and2(~a, ~b); }
  L xor2(L a, L b) {
    if (a == F) return b; if (b == F) return a; if (a == T) return ~b; if (b == T) return ~a; if (a == b) return F; if (a == ~b) return T;
    bool n = false; if (Minisat::sign(a)) { a = ~a; n = !n; } if (Minisat::sign(b)) { b = ~b; n = !n; } if (b < a) std::swap(a, b);
    uint64_t key = ((uint64_t)a.x << 32 | (uint32_t)b.x) << 1 | 1; auto it = gates.find(key); L o;
    if (it != gates.end()) { o = it->second; use(o); } else { o = fresh(); s->addClause(~o, a, b); s->addClause(~o, ~a, ~b); s->addClause(o, ~a, b); s->addClause(o, a, ~b); gates[key] = o; }
    return n ? ~o : o; }
  L mux(L c, L a, L b) { if (c == T) return a; if (c == F) return b; if (a == b) return a; if (a == T) return or2(c, b); if (a == F) return and2(~c, b); if (b == T) return or2(~c, a); if (b == F) return and2(c, a); if (a == ~b) return ~xor2(c, a);
    L o = fresh(); s->addClause(~c, ~a, o); s->addClause(~c, a, ~o); s->addClause(c, ~b, o); s->addClause(c, b, ~o); s->addClause(~a, ~b, o); s->addClause(a, b, ~o); return o; }
  L maj(L a, L b, L c) { return or2(and2(a, b), and2(c, or2(a, b))); }
  typedef std::vector<L> V;
  V addv(const V& a, const V& b, L cin, L* cout = nullptr) { V r; L c = cin; for (size_t i = 0; i < a.size(); i++) { L x = xor2(a[i], b[i]); r.push_back(xor2(x, c)); if (i + 1 < a.size() || cout) c = mux(x, c, a[i]); } if (cout) *cout = c; return r; }
  V neg(const V& a) { V n; for (L x : a) n.push_back(~x); return addv(n, V(a.size(), F), T); }
  V inv(const V& a) { V n; for (L x : a) n.push_back(~x); return n; }
  V muxv(L c, const V& a, const V& b) { V r; for (size_t i = 0; i < a.size(); i++) r.push_back(mux(c, a[i], b[i])); return r; }
  V mulv(const V& a, const V& b) { size_t w = a.size(); V r(w, F); 
    size_t ca = 0, cb = 0; for (L x : a) ca += x == F; for (L x : b) cb += x == F; const V &p = ca > cb ? b : a, &q = ca > cb ? a : b; // q has more known zeros
    for (size_t i = 0; i < w; i++) { if (q[i] == F) continue; V t(w, F); for (size_t j = i; j < w; j++) t[j] = and2(p[j - i], q[i]); r = addv(r, t, F); } return r; }
  L ult(const V& a, const V& b) { L r = F; for (size_t i = 0; i < a.size(); i++) { L x = xor2(a[i], b[i]); r = mux(x, b[i], r); } return r; }
  L eq(const V& a, const V& b) { L r = T; for (size_t i = 0; i < a.size(); i++) r = and2(r, ~xor2(a[i], b[i])); return r; }
  void divrem(const V& a, const V& b, V& q, V& r) { // unsigned; SMT-LIB: x/0 = all ones, x%0 = x
    size_t w = a.size(); r = V(w, F); q = V(w, F); 
    for (size_t i = w; i-- > 0;) { L top = r[w - 1]; V t(w, F); t[0] = a[i]; for (size_t j = 1; j < w; j++) t[j] = r[j - 1]; // r' = 2r + a_i  (top: bit w)
      L co; V d = addv(t, inv(b), T, &co); L ge = or2(top, co); q[i] = ge; r = muxv(ge, d, t); } }
  V shift(const V& a, const V& b, int kind) { // 0 shl 1 lshr 2 ashr
    size_t w = a.size(); V r = a; L fill = kind == 2 ? a[w - 1] : F; L big = F;
    for (size_t i = 0; i < b.size(); i++) { if (i >= 31 || ((size_t)1 << i) >= w) { big = or2(big, b[i]); continue; } size_t n = (size_t)1 << i; V t(w);
      for (size_t j = 0; j < w; j++) t[j] = kind == 0 ? (j >= n ? r[j - n] : F) : (j + n < w ? r[j + n] : fill); r = muxv(b[i], t, r); }
    return muxv(big, V(w, fill), r); }
  // ---- cones: which variables belong to which expression
  std::vector<std::vector<int>*> vars; std::vector<int>* curVars = nullptr;
  void use(L l) { if (curVars) curVars->push_back(Minisat::var(l)); }
  V& tr(Expr* e) {
    if (e->id < bits.size() && bits[e->id]) return *bits[e->id];
    std::vector<Expr*> st{e};
    while (!st.empty()) { Expr* x = st.back(); if (x->id < bits.size() && bits[x->id]) { st.pop_back(); continue; } bool ready = true;
      for (Expr* c : {x->a, x->b, x->c}) if (c && !(c->id < bits.size() && bits[c->id])) { st.push_back(c); ready = false; }
      if (!ready) continue;
      if (x->id >= bits.size()) { bits.resize(x->id * 2 + 16, nullptr); vrange.resize(bits.size()); vars.resize(bits.size(), nullptr); }
      std::vector<int> used; curVars = &used; int n0 = s->nVars(); V* r = new V(one(x)); int n1 = s->nVars(); curVars = nullptr;
      bits[x->id] = r; vrange[x->id] = {n0, n1}; delete vars[x->id]; vars[x->id] = used.empty() ? nullptr : new std::vector<int>(used); st.pop_back(); }
    return *bits[e->id];
  }
  V one(Expr* e) {
    auto B = [&](Expr* x) -> const V& { return *bits[x->id]; };
    V r;
    switch (e->k) {
      case CONST: for (unsigned i = 0; i < e->w; i++) r.push_back(k(e->v >> i & 1)); return r;
      case SYM: for (unsigned i = 0; i < e->w; i++) r.push_back(fresh()); return r;
      case ADD: return addv(B(e->a), B(e->b), F);
      case SUB: return addv(B(e->a), inv(B(e->b)), T);
      case MUL: return mulv(B(e->a), B(e->b));
      case UDIV: { V q, m; divrem(B(e->a), B(e->b), q, m); return q; }
      case UREM: { V q, m; divrem(B(e->a), B(e->b), q, m); return m; }
      case SDIV: case SREM: { const V &a = B(e->a), &b = B(e->b); L sa = a.back(), sb = b.back(); V q, m; divrem(muxv(sa, neg(a), a), muxv(sb, neg(b), b), q, m); if (e->k == SREM) return muxv(sa, neg(m), m); return muxv(xor2(sa, sb), neg(q), q); }
      case AND: for (unsigned i = 0; i < e->w; i++) r.push_back(and2(B(e->a)[i], B(e->b)[i])); return r;
      case OR: for (unsigned i = 0; i < e->w; i++) r.push_back(or2(B(e->a)[i], B(e->b)[i])); return r;
      case XOR: for (unsigned i = 0; i < e->w; i++) r.push_back(xor2(B(e->a)[i], B(e->b)[i])); return r;
      case SHL: return shift(B(e->a), B(e->b), 0); case LSHR: return shift(B(e->a), B(e->b), 1); case ASHR: return shift(B(e->a), B(e->b), 2);
      case EQ: r.push_back(eq(B(e->a), B(e->b))); return r;
      case ULT: r.push_back(ult(B(e->a), B(e->b))); return r;
      case ULE: r.push_back(~ult(B(e->b), B(e->a))); return r;
      case SLT: case SLE: { V a = B(e->a), b = B(e->b); a.back() = ~a.back(); b.back() = ~b.back(); r.push_back(e->k == SLT ? ult(a, b) : ~ult(b, a)); return r; }
      case ITE: return muxv(B(e->a)[0], B(e->b), B(e->c));
      case CONCAT: r = B(e->b); r.insert(r.end(), B(e->a).begin(), B(e->a).end()); return r;
      case EXTRACT: r.assign(B(e->a).begin() + e->aux, B(e->a).begin() + e->aux + e->w); return r;
      case ZEXT: r = B(e->a); r.resize(e->w, F); return r;
      case SEXT: { r = B(e->a); L sg = r.back(); r.resize(e->w, sg); return r; }
      case SMULO: case UMULO: { V a = B(e->a), b = B(e->b); size_t w = a.size(); bool sg = e->k == SMULO; L fa = sg ? a.back() : F, fb = sg ? b.back() : F; a.resize(2 * w, fa); b.resize(2 * w, fb); V p = mulv(a, b); L ok = T; for (size_t i = w; i < 2 * w; i++) ok = and2(ok, ~xor2(p[i], sg ? p[w - 1] : F)); r.push_back(~ok); return r; }
      default: throw std::string("not a bit-vector operation");
    }
  }
  static bool hasFp(Expr* e, std::vector<char>& memo) { // 1 no, 2 yes
    if (e->id >= memo.size()) memo.resize(e->id * 2 + 16, 0);
    if (memo[e->id]) return memo[e->id] == 2;
    bool f = e->k >= FADD && !Lower::can(e); for (Expr* c : {e->a, e->b, e->c}) if (c && !f) f = hasFp(c, memo);
    if (e->id >= memo.size()) memo.resize(e->id * 2 + 16, 0);
    memo[e->id] = f ? 2 : 1; return f; }
  void cone(Expr* e, std::vector<int>& out) {
    std::vector<Expr*> st{e};
    while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (x->id >= marks.size()) marks.resize(x->id * 2 + 16, 0); if (marks[x->id] == mark) continue; marks[x->id] = mark;
      for (int v = vrange[x->id].first; v < vrange[x->id].second; v++) out.push_back(v);
      if (vars[x->id]) for (int v : *vars[x->id]) out.push_back(v);
      for (Expr* c : {x->a, x->b, x->c}) if (c) st.push_back(c); } }
  // 1 sat, 0 unsat, -1 unknown
  int solve(const std::vector<Expr*>& as, int64_t conflicts, const std::vector<Expr*>& syms, std::vector<u128>* model) {
    if ((size_t)s->nVars() > nvLimit) { for (auto*& b : vars) { delete b; b = nullptr; } reset(); }
    Minisat::vec<L> a; mark++; std::vector<int> c;
    for (Expr* e : as) { L l = tr(e)[0]; if (l == F) return 0; if (l != T) a.push(l); }
    for (Expr* e : as) cone(e, c);
    for (int v : curCone) s->setDecisionVar(v, false);
    // gates reused from other expressions bring their own inputs with them: close over definitions
    for (int v : c) s->setDecisionVar(v, true);
    curCone.swap(c);
    s->setConfBudget(conflicts);
    Minisat::lbool r = s->solveLimited(a);
    if (r == Minisat::lbool((uint8_t)2)) return -1;
    if (r == Minisat::lbool((uint8_t)1)) return 0;
    if (model) { model->assign(syms.size(), 0); for (Expr* y : syms) if (y->id < bits.size() && bits[y->id]) { u128 x = 0; V& b = *bits[y->id]; for (unsigned i = 0; i < y->w; i++) if (s->modelValue(b[i]) == Minisat::lbool((uint8_t)0)) x |= (u128)1 << i; if (y->aux >= model->size()) model->resize(y->aux + 1); (*model)[y->aux] = x; } }
    return 1;
  }
};
