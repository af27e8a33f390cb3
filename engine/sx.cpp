// sx: path-exploring symbolic executor for LLVM IR with Z3.  Explores every feasible path of one harness function by
// deterministic re-execution; every vp_nd_* value is a symbolic bit-vector; CHECKs, memory accesses and clang's UB traps are
// decided by the solver for all values of the inputs on the path.
// Usage: sx module.ll h_name out.json [--timeout S] [--qtimeout MS] [--max-instr N]
#include <unistd.h>
#include "expr.hpp"
#include "norm.hpp"
#include "blast.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <chrono>
#include <fstream>
#include <sstream>
#include <pthread.h>
using namespace llvm;
using std::string;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Pool P;
static const DataLayout* DL;
static Module* M;
static z3::context* Z;
static std::unique_ptr<ToZ3> TZ;
static Evaluator EV;

struct PathEnd { };                       // the path is finished (violation, infeasible assume)
struct Abort { string why; };             // the exploration cannot go on (unsupported, budget)

// ---------------------------------------------------------------- options and results
static double tStart, tLimit = 60; static unsigned qHard = 60000; static uint64_t maxInstr = 8000000; static uint64_t maxPaths = ~0ull; static unsigned maxTraces = 24;
static uint64_t nPaths, nCompleted, nInstr, nBranchQ, nCheckQ, nForks, nChecks, nChecksConst, nUnknown, pathInstr; static double tSolver;
static uint64_t pathTrace; struct Tr { uint64_t h; std::vector<u128> in; }; static std::vector<Tr> traces;
static std::map<unsigned, uint64_t> checkEvals; static std::set<unsigned> undecided;
static std::set<string> fnsRun; static std::vector<string> incomplete;
struct Viol { string kind; string where; std::vector<std::pair<unsigned, u128>> in; };
static std::vector<Viol> viols; static std::set<string> violKeys;

// ---------------------------------------------------------------- decisions
struct Dec { int kind; /*0 branch 1 fact*/ bool dir; bool hasAlt; Model alt; bool pushed; Expr* cond; };
static std::vector<Dec> decs; static size_t pos;
static std::vector<Expr*> pathC;           // asserted constraints of the current path (parallel to solver pushes)
static std::vector<std::pair<unsigned, Expr*>> pathIn; // nd inputs in call order (width, symbol)
static std::unordered_map<Expr*, Expr*> known; static uint64_t knownVer; static std::unordered_map<Expr*, Expr*> skMemo; static uint64_t skVer;

static Model getModel(z3::model m) {
  Model r; r.v.assign(P.symNames.size(), 0);
  for (auto* s : P.syms) {
    z3::expr v = m.eval(TZ->tr(s), true);
    u128 x = 0;
    if (s->w == 1) x = v.is_true();
    else { string t = v.get_decimal_string(0).empty() ? "" : ""; uint64_t u; if (s->w <= 64 && v.is_numeral_u64(u)) x = u; else { t = Z3_get_numeral_string(*Z, v); x = 0; for (char c : t) if (isdigit((unsigned char)c)) x = x * 10 + (c - '0'); } }
    r.v[s->aux] = x;
  }
  return r;
}
typedef std::vector<uint64_t> Bits;
static std::vector<Bits*> symMemo;
static const Bits& symsOf(Expr* e) {
  if (e->id < symMemo.size() && symMemo[e->id]) return *symMemo[e->id];
  Bits* r = new Bits();
  if (e->k == SYM) { r->resize(e->aux / 64 + 1); (*r)[e->aux / 64] |= 1ull << (e->aux % 64); }
  else for (Expr* k : {e->a, e->b, e->c}) if (k) { const Bits& x = symsOf(k); if (r->size() < x.size()) r->resize(x.size()); for (size_t i = 0; i < x.size(); i++) (*r)[i] |= x[i]; }
  if (e->id >= symMemo.size()) symMemo.resize(e->id * 2 + 16);
  symMemo[e->id] = r; return *r;
}
static std::vector<uint32_t> symList(Expr* e) { std::vector<uint32_t> r; const Bits& b = symsOf(e); for (size_t i = 0; i < b.size() * 64; i++) if (b[i / 64] >> (i % 64) & 1) r.push_back(i); return r; }
static std::vector<char> fpMemo; static std::unique_ptr<Blast> BL; static int64_t qConflicts = 100000; static int crossCheck; static uint64_t nCross, nCrossOk, nZ3, nNormed;
// 1 sat, 0 unsat, -1 unknown.  Checks path constraints && q.
static int check0(Expr* q, Model* out, bool isCheck, const std::vector<Expr*>& slice) {
  double t0 = now();
  if (t0 - tStart > tLimit) throw Abort{"time budget"};
  (isCheck ? nCheckQ : nBranchQ)++;
  int R = -1;
  if (isCheck && q->size > 30) { // two terms that coincide in normal form need no search
    static Norm NM(P); Expr* n = NM(q); if (EV.eval(n) != EV.eval(q)) throw Abort{"internal: the normal form differs from the query"};
    if (Pool::isC(n)) { q = n; nNormed++; }
    static bool dump = getenv("SX_DUMP"); if (dump) { z3::solver s3(*Z); s3.add(TZ->tr(n)); fprintf(stderr, "%s\n", s3.to_smt2().c_str()); } }
  bool fp = Blast::hasFp(q, fpMemo); for (auto* c : slice) fp = fp || Blast::hasFp(c, fpMemo); bool low = false;
  auto z3Check = [&](bool fp, double cap) { // Z3
    int R = -1;
    double left = tLimit - (now() - tStart); if (left < 1) left = 1;
    z3::params p(*Z); p.set("timeout", (unsigned)std::min<double>(cap, left * 1000));
    z3::solver s2 = fp ? (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "fpa2bv") & z3::tactic(*Z, "simplify") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "bit-blast") & z3::tactic(*Z, "sat")).mk_solver()
      : (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "simplify") & z3::tactic(*Z, "bit-blast") & z3::tactic(*Z, "sat")).mk_solver();
    s2.set(p); nZ3++;
    for (auto* c : slice) s2.add(TZ->tr(c));
    s2.add(TZ->tr(q));
    try { auto r = s2.check(); if (r == z3::sat && out) *out = getModel(s2.get_model()); R = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1; } catch (z3::exception& ex) { R = -1; }
    return R; };
  if (!fp) {
    static Lower LW(P); std::vector<Expr*> as(slice), lw; as.push_back(q); for (auto* c : as) { lw.push_back(LW(c)); low = low || lw.back() != c; } std::vector<u128> mv;
    static Blast BF; BF.nvLimit = 4000; Blast& bl = low ? BF : *BL; // the circuits of other paths would only be in the way
    R = bl.solve(lw, low ? std::min<int64_t>(qConflicts, 20000) : qConflicts, P.syms, out ? &mv : nullptr);
    if (R == -1 && low) { R = z3Check(true, 2000); if (R == -1) R = bl.solve(lw, qConflicts, P.syms, out ? &mv : nullptr); else mv.clear(); if (R == -1) { R = z3Check(true, qHard); mv.clear(); } }
    if (R == 1 && out && mv.size()) { out->v = mv;
      static Evaluator E2; Model full = EV.m; const Bits& dummy = symsOf(q); (void)dummy; for (auto* c : as) for (uint32_t i : symList(c)) { if (full.v.size() <= i) full.v.resize(i + 1); full.v[i] = out->at(i); }
      E2.set(full); for (auto* c : as) if (!E2.eval(c)) throw Abort{"internal: the SAT model does not satisfy the query"}; }
    if (R == 0 && crossCheck && (isCheck || crossCheck > 1)) { z3::solver s2(*Z, low ? "QF_FPBV" : "QF_BV"); z3::params p(*Z); p.set("timeout", qHard); s2.set(p); for (auto* c : as) s2.add(TZ->tr(c)); auto zr = s2.check(); nCross++; if (zr == z3::sat) throw Abort{"internal: MiniSat and Z3 disagree"}; if (zr == z3::unsat) nCrossOk++; }
  }
  if (R == -1 && !low) R = z3Check(fp, qHard);
  double dt = now() - t0; tSolver += dt;
  static bool slow = getenv("SX_SLOW"); if (slow && dt > 0.5) fprintf(stderr, "slow query %.2fs %s size=%u\n", dt, isCheck ? "CHECK" : "branch", q->size);
  if (R == -1) nUnknown++;
  return R;
}
static bool meets(const Bits& a, const Bits& b) { for (size_t i = 0, n = std::min(a.size(), b.size()); i < n; i++) if (a[i] & b[i]) return true; return false; }
struct CacheEnt { int r; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<string, CacheEnt> qcache; static uint64_t nCacheHits;
static int check(Expr* q, Model* out, bool isCheck) {
  std::vector<Expr*> slice; Bits s = symsOf(q);
  { std::vector<char> in(pathC.size()); bool ch = true; size_t cnt = 0;
    while (ch && cnt < pathC.size()) { ch = false; for (size_t i = pathC.size(); i-- > 0;) if (!in[i]) { const Bits& x = symsOf(pathC[i]); if (meets(x, s)) { in[i] = 1; cnt++; ch = true; if (s.size() < x.size()) s.resize(x.size()); for (size_t k = 0; k < x.size(); k++) s[k] |= x[k]; } } }
    for (size_t i = 0; i < pathC.size(); i++) if (in[i]) slice.push_back(pathC[i]); }
  std::vector<uint32_t> ids; for (auto* e : slice) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.push_back(q->id);
  string key((const char*)ids.data(), ids.size() * 4);
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    nCacheHits++;
    if (it->second.r == 1 && out) { *out = EV.m; for (auto& p : it->second.m) { if (out->v.size() <= p.first) out->v.resize(p.first + 1); out->v[p.first] = p.second; } }
    return it->second.r;
  }
  Model m; int r = check0(q, &m, isCheck, slice);
  CacheEnt ce; ce.r = r;
  if (r == 1) {
    // inputs outside the slice keep their present values
    for (size_t i = 0; i < P.symNames.size(); i++) if (i / 64 < s.size() && (s[i / 64] >> (i % 64) & 1)) ce.m.push_back({(uint32_t)i, m.at(i)});
    if (out) { *out = EV.m; for (auto& p : ce.m) { if (out->v.size() <= p.first) out->v.resize(p.first + 1); out->v[p.first] = p.second; } }
  }
  if (r != -1) qcache.emplace(key, ce);
  return r;
}
static void learn(Expr* c, bool v) {
  known[c] = P.boolc(v); knownVer++;
  if (c->k == XOR && Pool::isC(c->b, 1)) learn(c->a, !v);
  if (v && c->k == AND && c->w == 1) { learn(c->a, true); learn(c->b, true); }
  if (!v && c->k == OR && c->w == 1) { learn(c->a, false); learn(c->b, false); }
  if (v && c->k == EQ && Pool::isC(c->b)) known[c->a] = c->b;
  // ordering complements
  if (c->k == ULT || c->k == SLT) { Expr* o = P.bin(c->k == ULT ? ULE : SLE, c->b, c->a); known[o] = P.boolc(!v); if (v) { known[P.bin(c->k == ULT ? ULE : SLE, c->a, c->b)] = P.T; known[P.bin(EQ, c->a, c->b)] = P.Fa; } }
  if (c->k == ULE || c->k == SLE) { Expr* o = P.bin(c->k == ULE ? ULT : SLT, c->b, c->a); known[o] = P.boolc(!v); if (!v) { known[P.bin(EQ, c->a, c->b)] = P.Fa; known[P.bin(c->k == ULE ? ULE : SLE, c->b, c->a)] = P.T; } }
}
// rewrite e under the facts known on this path
static int skBudget;
static Expr* sk1(Expr* e) {
  if (e->k == CONST) return e;
  auto kf = known.find(e); if (kf != known.end()) return kf->second;
  if (e->k == SYM || e->k == TUPLE) return e;
  auto it = skMemo.find(e); if (it != skMemo.end()) return it->second;
  if (--skBudget < 0) return e;
  Expr* r = e;
  Expr* a = e->a ? sk1(e->a) : 0;
  if (e->k == ITE && Pool::isC(a)) r = sk1(a->v ? e->b : e->c);
  else {
    Expr* b = e->b ? sk1(e->b) : 0; Expr* c = e->c ? sk1(e->c) : 0;
    if (a != e->a || b != e->b || c != e->c) {
      switch (e->k) {
        case ITE: r = P.ite(a, b, c); break;
        case CONCAT: r = P.concat(a, b); break;
        case EXTRACT: r = P.extract(a, e->aux, e->w); break;
        case ZEXT: r = P.zext(a, e->w); break;
        case SEXT: r = P.sext(a, e->w); break;
        default: if (e->k >= FADD) r = P.fop(e->k, e->w, a, b, c, e->aux); else r = P.bin(e->k, a, b);
      }
      auto k2 = known.find(r); if (k2 != known.end()) r = k2->second;
    }
  }
  skMemo[e] = r;
  return r;
}
static Expr* simp(Expr* e) {
  if (e->k == CONST || known.empty()) return e;
  auto kf = known.find(e); if (kf != known.end()) return kf->second;
  if (e->size > 3000) return e;
  if (skVer != knownVer) { skMemo.clear(); skVer = knownVer; }
  skBudget = 3000;
  return sk1(e);
}
static void pushC(Expr* c) { pathC.push_back(c); }

static bool decide(Expr* c0) {
  Expr* c = simp(c0);
  if (Pool::isC(c)) return c->v;
  if (pos < decs.size()) {
    Dec& d = decs[pos++];
    if (d.cond != c || d.kind != 0) throw Abort{"internal: non-deterministic re-execution"};
    learn(c, d.dir); return d.dir;
  }
  bool v = EV.eval(c) != 0;
  Dec d; d.kind = 0; d.dir = v; d.cond = c; d.pushed = false; d.hasAlt = false;
  Model m;
  int r = check(v ? P.notb(c) : c, &m, false);
  if (r == 1) { d.hasAlt = true; d.alt = m; nForks++; }
  if (r == -1) { incomplete.push_back("a branch condition was not decided by the solver"); }
  if (r != 0) { pushC(v ? c : P.notb(c)); d.pushed = true; }
  decs.push_back(d); pos++;
  learn(c, v);
  return v;
}
// is c true for every input on this path?  (memoised for re-execution)   1 yes, 0 no (model in *out on first evaluation), -1 unknown
static bool mbFresh;   // the last mustBe was decided now, not replayed
static int mustBe(Expr* c, Model* out, bool isCheck) {
  mbFresh = false;
  if (Pool::isC(c)) return c->v ? 1 : 0;
  if (pos < decs.size()) {
    Dec& d = decs[pos++];
    if (d.cond != c || d.kind != 1) throw Abort{"internal: non-deterministic re-execution"};
    return d.hasAlt ? -1 : d.dir;
  }
  Dec d; d.kind = 1; d.cond = c; d.pushed = false; d.hasAlt = false; d.dir = true; mbFresh = true;
  if (!EV.eval(c)) { if (out) *out = EV.m; d.dir = false; }
  else { int r = check(P.notb(c), out, isCheck); if (r == 1) d.dir = false; else if (r == -1) d.hasAlt = true; }
  int res = d.hasAlt ? -1 : d.dir;
  if (d.hasAlt) { d.kind = 1; }
  decs.push_back(d); pos++;
  return res;
}
static string curFn, curWhere; static unsigned curFnDepth;
static void violation(const string& kind, const string& where, const Model& m) {
  string key = kind + "|" + where;
  if (!violKeys.insert(key).second) return;
  Viol v; v.kind = kind; v.where = where;
  for (auto& p : pathIn) v.in.push_back({p.first, m.at(p.second->aux) & mask(p.second->w)});
  viols.push_back(v);
}
static void assume(Expr* c0) {
  Expr* c = simp(c0);
  if (Pool::isC(c)) { if (!c->v) throw PathEnd(); return; }
  if (pos < decs.size()) {
    Dec& d = decs[pos++];
    if (d.cond != c || d.kind != 2) throw Abort{"internal: non-deterministic re-execution"};
    if (!d.dir) throw PathEnd();
    learn(c, true); return;
  }
  Dec d; d.kind = 2; d.cond = c; d.hasAlt = false; d.pushed = false; d.dir = true;
  if (!EV.eval(c)) { Model m; int r = check(c, &m, false); if (r == 1) EV.set(m); else { d.dir = false; if (r == -1) incomplete.push_back("an assumption was not decided by the solver"); } }
  if (d.dir) { pushC(c); d.pushed = true; }
  decs.push_back(d); pos++;
  if (!d.dir) throw PathEnd();
  learn(c, true);
}
// try to move to a model of the path in which c0 is preferred (no constraint) -- unused
static void checkProp(Expr* c0, unsigned line) {
  nChecks++; checkEvals[line]++; if (line < 9000) pathTrace = (pathTrace ^ line) * 1099511628211ULL;
  Expr* c = simp(c0);
  string kind = "CHECK line " + std::to_string(line);
  if (Pool::isC(c)) { nChecksConst++; if (!c->v) { violation(kind, "", EV.m); throw PathEnd(); } return; }
  Model m;
  int r = mustBe(c, &m, true);
  if (r == 1) { learn(c, true); return; }
  if (r == -1) { undecided.insert(line); return; }
  if (mbFresh) violation(kind, "", m);
  // go on with the inputs for which it holds
  assume(c);
}

// ---------------------------------------------------------------- memory
struct Cell { Expr* e = nullptr; unsigned i = 0; };   // byte i of e; e == nullptr: uninitialised
struct Obj { uint64_t base; uint64_t size; std::vector<Cell> c; bool alive = true; bool ro = false; const Value* v = nullptr; };
static const uint64_t BASE0 = 0x100000000ull, STRIDE = 0x1000000ull;
static std::vector<std::unique_ptr<Obj>> objs; static std::map<const GlobalValue*, uint64_t> gaddr; static size_t nGlobalObjs;
static std::map<uint64_t, Function*> fnAt;
static Obj* newObj(uint64_t size, const Value* v) {
  auto o = std::make_unique<Obj>(); o->base = BASE0 + objs.size() * STRIDE; o->size = size; o->c.resize(size); o->v = v;
  if (size > STRIDE / 2) throw Abort{"object too large"};
  objs.push_back(std::move(o)); return objs.back().get();
}
static Obj* findObj(uint64_t a) { if (a < BASE0) return nullptr; uint64_t i = (a - BASE0) / STRIDE; if (i < objs.size()) return objs[i].get(); 
  return nullptr; }
static uint64_t undefCount;
static Expr* undef(unsigned w) { return P.sym("undef" + std::to_string(undefCount++), w); }
static Expr* byteOf(const Cell& c) { if (!c.e) return undef(8); if (c.e->w < 8) return P.zext(c.e, 8); unsigned w = c.e->w - c.i * 8; if (w >= 8) return P.extract(c.e, c.i * 8, 8); return P.zext(P.extract(c.e, c.i * 8, w), 8); }
static Expr* rdBits(Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8; Cell& c0 = o->c[off];
  if (c0.e && c0.i == 0 && c0.e->w == w) { bool same = true; for (unsigned i = 1; i < n; i++) if (o->c[off + i].e != c0.e || o->c[off + i].i != i) { same = false; break; } if (same) return c0.e; }
  bool allU = true; for (unsigned i = 0; i < n; i++) if (o->c[off + i].e) allU = false;
  if (allU) return undef(w);
  Expr* r = byteOf(o->c[off]);
  for (unsigned i = 1; i < n; i++) r = P.concat(byteOf(o->c[off + i]), r);
  return w < r->w ? P.extract(r, 0, w) : r;
}
static void wrBits(Obj* o, uint64_t off, Expr* e) { unsigned n = (e->w + 7) / 8; for (unsigned i = 0; i < n; i++) { o->c[off + i].e = e; o->c[off + i].i = i; } }

static void memError(const string& what) { violation("MEMORY " + what, curWhere, EV.m); throw PathEnd(); }

static unsigned lowZeros(Expr* e) { // number of known zero low bits
  switch (e->k) {
    case CONST: { if (!e->v) return 64; unsigned n = 0; while (!((e->v >> n) & 1)) n++; return n; }
    case CONCAT: { unsigned l = lowZeros(e->b); if (l >= e->b->w) return e->b->w + lowZeros(e->a); return l; }
    case ADD: case SUB: case OR: case XOR: return std::min(lowZeros(e->a), lowZeros(e->b));
    case MUL: return std::min(64u, lowZeros(e->a) + lowZeros(e->b));
    case AND: return std::max(lowZeros(e->a), lowZeros(e->b));
    case ZEXT: case SEXT: return lowZeros(e->a) >= e->a->w ? e->a->w : lowZeros(e->a);
    case ITE: return std::min(lowZeros(e->b), lowZeros(e->c));
    case EXTRACT: { unsigned l = lowZeros(e->a); return l > e->aux ? l - e->aux : 0; }
    default: return 0;
  }
}
// resolve address p for an access of n bytes; returns the object; *off is the (possibly symbolic) offset
static Obj* resolve(Expr*& p, uint64_t n, Expr** off, bool write) {
  for (int iter = 0; iter < 4096; iter++) {
    p = simp(p);
    // an ite of addresses into different objects: fork
    while (p->k == ITE && !p->allc) { p = decide(p->a) ? p->b : p->c; p = simp(p); }
    uint64_t a = (uint64_t)(p->k == CONST ? p->v : EV.eval(p));
    if (pos < decs.size() && p->k != CONST) {
      // re-execution: the object was recorded as a fact on this expression
      Dec& d = decs[pos];
      if (d.kind != 3) { throw Abort{"internal: non-deterministic re-execution (address)"}; }
      a = (uint64_t)d.alt.v[0];
      if (d.cond != p) throw Abort{"internal: non-deterministic re-execution (address)"};
      pos++;
    } else if (p->k != CONST) { Dec d; d.kind = 3; d.cond = p; d.dir = false; d.hasAlt = false; d.pushed = false; d.alt.v.push_back(a); decs.push_back(d); pos++; }
    Obj* o = findObj(a);
    if (!o) { if (p->k == CONST) memError(a < 4096 ? "null dereference" : "wild address"); Expr* bad = P.bin(EQ, p, P.cst(64, a)); if (decide(bad)) memError(a < 4096 ? "null dereference" : "wild address"); continue; }
    if (p->k == CONST) {
      uint64_t k = a - o->base;
      if (k + n > o->size) memError("out of bounds");
      if (!o->alive) memError("use of a dead object");
      if (write && o->ro) memError("write to constant");
      *off = P.cst(64, k); return o;
    }
    Expr* rel = P.bin(SUB, p, P.cst(64, o->base));
    if (o->size < n) { if (decide(P.bin(ULT, rel, P.cst(64, STRIDE)))) memError("out of bounds"); continue; }
    Expr* inb = P.bin(ULE, rel, P.cst(64, o->size - n));
    if (decide(inb)) { if (!o->alive) memError("use of a dead object"); if (write && o->ro) memError("write to constant"); *off = simp(rel); return o; }
    // not in bounds of o: is it in o's zone (a real out-of-bounds access) or in another object?
    if (decide(P.bin(ULT, P.bin(SUB, p, P.cst(64, o->base - STRIDE / 4)), P.cst(64, STRIDE)))) memError("out of bounds");
  }
  throw Abort{"address resolution"};
}
static Expr* loadBits(Expr* p, unsigned w) {
  Expr* off; Obj* o = resolve(p, (w + 7) / 8, &off, false);
  if (Pool::isC(off)) return rdBits(o, (uint64_t)off->v, w);
  unsigned n = (w + 7) / 8; unsigned lz = lowZeros(off); uint64_t step = lz >= 12 ? 4096 : (1u << lz);
  Expr* r = nullptr;
  for (int64_t k = (int64_t)((o->size - n) / step * step); k >= 0; k -= step) { Expr* v = rdBits(o, k, w); r = r ? P.ite(P.bin(EQ, off, P.cst(64, k)), v, r) : v; }
  return r;
}
static void storeBits(Expr* p, Expr* v) {
  unsigned n = (v->w + 7) / 8; Expr* off; Obj* o = resolve(p, n, &off, true);
  if (Pool::isC(off)) { wrBits(o, (uint64_t)off->v, v); return; }
  unsigned lz = lowZeros(off); uint64_t step = lz >= 12 ? 4096 : (1u << lz);
  if (step >= n) { for (uint64_t k = 0; k + n <= o->size; k += step) { Expr* old = rdBits(o, k, v->w); wrBits(o, k, P.ite(P.bin(EQ, off, P.cst(64, k)), v, old)); } return; }
  std::vector<Expr*> nb(o->size);
  for (uint64_t b = 0; b < o->size; b++) { Expr* r = byteOf(o->c[b]);
    for (unsigned i = 0; i < n; i++) if (b >= i && b - i + n <= o->size) r = P.ite(P.bin(EQ, off, P.cst(64, b - i)), P.extract(v, i * 8, 8), r); nb[b] = r; }
  for (uint64_t b = 0; b < o->size; b++) wrBits(o, b, nb[b]);
}
static Expr* constVal(const Constant* c);
static uint64_t addrOf(const GlobalValue* g);
static void initMem(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) { return; }
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { uint64_t n = DL->getTypeStoreSize(t); 
    if (auto* it = dyn_cast<IntegerType>(t)) { wrBits(o, off, P.cst(it->getBitWidth(), 0)); return; }
    if (t->isPointerTy()) { wrBits(o, off, P.cst(64, 0)); return; }
    for (uint64_t i = 0; i < n; i++) wrBits(o, off + i, P.cst(8, 0)); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t s = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initMem(o, off + i * s, c->getAggregateElement(i)); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t s = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) initMem(o, off + i * s, c->getAggregateElement(i)); return; }
  wrBits(o, off, constVal(c));
}
static uint64_t addrOf(const GlobalValue* g0) {
  const GlobalValue* g = g0;
  if (auto* ga = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(ga->getAliasee()->stripPointerCasts());
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  // globals get fixed addresses when the module is loaded (see main)
  throw Abort{"internal: global without an address"};
}
static Expr* constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { const APInt& v = ci->getValue(); if (v.getBitWidth() > 128) throw Abort{"integer wider than 128 bits"}; u128 x = v.getRawData()[0]; if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64; return P.cst(v.getBitWidth(), x); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (c->getType()->isX86_FP80Ty()) throw Abort{"long double"}; APInt b = cf->getValueAPF().bitcastToAPInt(); return P.cst(b.getBitWidth(), b.getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return P.cst(64, 0);
  if (auto* g = dyn_cast<GlobalValue>(c)) return P.cst(64, addrOf(g));
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    std::vector<Expr*> ks; for (unsigned i = 0; i < n; i++) ks.push_back(constVal(c->getAggregateElement(i))); return P.tuple(ks);
  }
  if (isa<UndefValue>(c)) { if (t->isPointerTy()) return P.cst(64, 0); unsigned w = t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0; if (!w) throw Abort{"undef of unsupported type"}; return undef(w); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) throw Abort{"constant gep"}; return P.bin(ADD, constVal(cast<Constant>(gep->getPointerOperand())), P.cst(64, off.getZExtValue())); }
    switch (ce->getOpcode()) {
      case Instruction::PtrToInt: return P.zext(constVal(ce->getOperand(0)), ce->getType()->getIntegerBitWidth());
      case Instruction::IntToPtr: return P.zext(constVal(ce->getOperand(0)), 64);
      case Instruction::BitCast: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return P.extract(constVal(ce->getOperand(0)), 0, ce->getType()->getIntegerBitWidth());
      case Instruction::Add: return P.bin(ADD, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      case Instruction::Sub: return P.bin(SUB, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      case Instruction::ICmp: { Expr* a = constVal(ce->getOperand(0)); Expr* b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return P.bin(EQ, a, b); case CmpInst::ICMP_NE: return P.notb(P.bin(EQ, a, b)); case CmpInst::ICMP_ULT: return P.bin(ULT, a, b); case CmpInst::ICMP_UGT: return P.bin(ULT, b, a); case CmpInst::ICMP_ULE: return P.bin(ULE, a, b); case CmpInst::ICMP_UGE: return P.bin(ULE, b, a); default: break; } break; }
    }
  }
  string s; raw_string_ostream os(s); c->print(os); throw Abort{"constant " + os.str()};
}
static unsigned bitsOf(Type* t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 128) throw Abort{"integer wider than 128 bits"}; return w; }
  if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  string s; raw_string_ostream os(s); t->print(os); throw Abort{"type " + os.str()};
}
static Expr* loadT(Type* t, Expr* p) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); std::vector<Expr*> k; for (unsigned i = 0; i < st->getNumElements(); i++) k.push_back(loadT(st->getElementType(i), P.bin(ADD, p, P.cst(64, sl->getElementOffset(i))))); return P.tuple(k); }
  if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); uint64_t s = DL->getTypeAllocSize(et); std::vector<Expr*> k; for (unsigned i = 0; i < n; i++) k.push_back(loadT(et, P.bin(ADD, p, P.cst(64, i * s)))); return P.tuple(k); }
  unsigned w = bitsOf(t);
  if (w == 1) return P.extract(loadBits(p, 8), 0, 1);
  if (w % 8) return P.extract(loadBits(p, (w + 7) / 8 * 8), 0, w);
  return loadBits(p, w);
}
static void storeT(Type* t, Expr* p, Expr* v) {
  if (v->k == TUPLE) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(st->getElementType(i), P.bin(ADD, p, P.cst(64, sl->getElementOffset(i))), (*v->kids)[i]); return; }
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t s = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < v->kids->size(); i++) storeT(et, P.bin(ADD, p, P.cst(64, i * s)), (*v->kids)[i]); return;
  }
  if (v->w % 8) v = P.zext(v, (v->w + 7) / 8 * 8);
  storeBits(p, v);
}

// ---------------------------------------------------------------- execution
struct FnInfo { std::unordered_map<const Value*, unsigned> slot; unsigned n = 0; };
static std::unordered_map<const Function*, FnInfo> infos;
static FnInfo& info(const Function* f) {
  auto it = infos.find(f); if (it != infos.end()) return it->second;
  FnInfo& i = infos[f]; for (auto& a : f->args()) i.slot[&a] = i.n++; for (auto& b : *f) for (auto& I : b) if (!I.getType()->isVoidTy()) i.slot[&I] = i.n++;
  return i;
}
static bool exc; static Expr* excObj; static const Value* excTI; static string excStd; static Obj* excBuf;
static std::unordered_map<const Constant*, Expr*> constCache;
static std::vector<string> stackNames;
struct Frame { FnInfo* fi; std::vector<Expr*> v; std::vector<Obj*> allocas; };
static Expr* val(Frame& f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) {
    if (isa<UndefValue>(c)) return constVal(c);
    auto it = constCache.find(c); if (it != constCache.end()) return it->second;
    Expr* e = constVal(c); if (e->k != TUPLE) constCache[c] = e; return e;
  }
  return f.v[f.fi->slot.find(v)->second];
}
static int depthNow;
static Expr* run(Function* f, std::vector<Expr*> args);

static string stdName(const string& n) { for (auto* k : {"out_of_range", "invalid_argument", "domain_error", "length_error", "range_error", "overflow_error", "underflow_error", "logic_error", "runtime_error", "bad_cast"}) if (n.find(k) != string::npos) return k; return ""; }
static bool tiMatch(const Value* clause) {
  clause = clause->stripPointerCasts();
  if (isa<ConstantPointerNull>(clause)) return true;
  if (excTI && clause == excTI) return true;
  string c = clause->getName().str(), t = excTI ? excTI->getName().str() : excStd;
  bool stdT = t.rfind("_ZTISt", 0) == 0 || t.rfind("_ZSt", 0) == 0;
  string tn;
  if (!stdT && excTI) { // user type: walk the __si_class_type_info chain in the initialiser
    const Value* cur = excTI;
    for (int i = 0; i < 8; i++) {
      auto* gv = dyn_cast<GlobalVariable>(cur); if (!gv || !gv->hasInitializer() || gv->getInitializer()->getNumOperands() < 3) return c == "_ZTISt9exception" && false;
      cur = gv->getInitializer()->getOperand(2)->stripPointerCasts();
      if (cur == clause) return true;
      if (cur->getName().starts_with("_ZTISt")) { t = cur->getName().str(); stdT = true; if (t == c) return true; break; }
    }
  }
  if (!stdT) return false;
  tn = stdName(t);
  if (c == "_ZTISt9exception") return true;
  string cn = c.rfind("_ZTISt", 0) == 0 ? stdName(c) : "";
  if (!cn.empty() && cn == tn) return true;
  bool logic = tn == "out_of_range" || tn == "invalid_argument" || tn == "domain_error" || tn == "length_error";
  bool rt = tn == "range_error" || tn == "overflow_error" || tn == "underflow_error";
  return (cn == "logic_error" && logic) || (cn == "runtime_error" && rt);
}
static std::map<const Value*, int> tiIds;
static int tiId(const Value* v) { v = v->stripPointerCasts(); auto it = tiIds.find(v); if (it != tiIds.end()) return it->second; int k = tiIds.size() + 1; return tiIds[v] = k; }

static void copyMem(Expr* d, Expr* s, uint64_t n) {
  if (!n) return;
  s = simp(s); d = simp(d);
  Expr *so, *dof; Obj* sob = resolve(s, n, &so, false); Obj* dob = resolve(d, n, &dof, true);
  if (Pool::isC(so) && Pool::isC(dof)) { std::vector<Cell> t(sob->c.begin() + (uint64_t)so->v, sob->c.begin() + (uint64_t)so->v + n); for (uint64_t i = 0; i < n; i++) dob->c[(uint64_t)dof->v + i] = t[i]; return; }
  std::vector<Expr*> t; uint64_t i = 0; std::vector<unsigned> ws;
  unsigned g = 8; while (n % g) g /= 2;
  for (i = 0; i < n; i += g) t.push_back(loadBits(P.bin(ADD, s, P.cst(64, i)), g * 8));
  for (i = 0; i < n; i += g) storeBits(P.bin(ADD, d, P.cst(64, i)), t[i / g]);
}
static uint64_t concretize(Expr* e) { // fork over the feasible values of e
  for (;;) {
    e = simp(e);
    if (Pool::isC(e)) return (uint64_t)e->v;
    u128 v;
    if (pos < decs.size()) { Dec& d = decs[pos++]; if (d.kind != 3 || d.cond != e) throw Abort{"internal: non-deterministic re-execution (value)"}; v = d.alt.v[0]; }
    else { v = EV.eval(e); Dec d; d.kind = 3; d.cond = e; d.dir = false; d.hasAlt = false; d.pushed = false; d.alt.v.push_back(v); decs.push_back(d); pos++; }
    if (decide(P.bin(EQ, e, P.cst(e->w, v)))) return (uint64_t)v;
  }
}
static Expr* vmap(Expr* a, Expr* b, std::function<Expr*(Expr*, Expr*)> f) {
  if (a->k == TUPLE) { std::vector<Expr*> k; for (size_t i = 0; i < a->kids->size(); i++) k.push_back(f((*a->kids)[i], b ? (*b->kids)[i] : nullptr)); return P.tuple(k); }
  return f(a, b);
}
static Expr* popcnt(Expr* a, unsigned w) { Expr* r = P.cst(w, 0); for (unsigned i = 0; i < w; i++) r = P.bin(ADD, r, P.zext(P.extract(a, i, 1), w)); return r; }
static Expr* fcmp(CmpInst::Predicate p, Expr* a, Expr* b) {
  auto lt = [&](Expr* x, Expr* y) { return P.fop(FOLT, 1, x, y); }; auto le = [&](Expr* x, Expr* y) { return P.fop(FOLE, 1, x, y); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return P.Fa; case CmpInst::FCMP_TRUE: return P.T;
    case CmpInst::FCMP_OEQ: return P.fop(FOEQ, 1, a, b); case CmpInst::FCMP_OGT: return lt(b, a); case CmpInst::FCMP_OGE: return le(b, a);
    case CmpInst::FCMP_OLT: return lt(a, b); case CmpInst::FCMP_OLE: return le(a, b);
    case CmpInst::FCMP_ONE: return P.bin(OR, lt(a, b), lt(b, a)); case CmpInst::FCMP_ORD: return P.notb(P.fop(FUNO, 1, a, b)); case CmpInst::FCMP_UNO: return P.fop(FUNO, 1, a, b);
    case CmpInst::FCMP_UEQ: return P.notb(P.bin(OR, lt(a, b), lt(b, a))); case CmpInst::FCMP_UGT: return P.notb(le(a, b)); case CmpInst::FCMP_UGE: return P.notb(lt(a, b));
    case CmpInst::FCMP_ULT: return P.notb(le(b, a)); case CmpInst::FCMP_ULE: return P.notb(lt(b, a)); default: return P.notb(P.fop(FOEQ, 1, a, b));
  }
}
static Expr* icmp(CmpInst::Predicate p, Expr* a, Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return P.bin(EQ, a, b); case CmpInst::ICMP_NE: return P.notb(P.bin(EQ, a, b));
    case CmpInst::ICMP_ULT: return P.bin(ULT, a, b); case CmpInst::ICMP_ULE: return P.bin(ULE, a, b); case CmpInst::ICMP_UGT: return P.bin(ULT, b, a); case CmpInst::ICMP_UGE: return P.bin(ULE, b, a);
    case CmpInst::ICMP_SLT: return P.bin(SLT, a, b); case CmpInst::ICMP_SLE: return P.bin(SLE, a, b); case CmpInst::ICMP_SGT: return P.bin(SLT, b, a); default: return P.bin(SLE, b, a);
  }
}
static Expr* nd(unsigned w) {
  Expr* s = P.sym("in" + std::to_string(pathIn.size()) + "_" + std::to_string(w), w);
  pathIn.push_back({w, s}); return s;
}
static void ubTrap(unsigned k) {
  static const char* names[] = {"add overflow","builtin unreachable","cfi","divrem overflow","dynamic type cache","float cast overflow","function type mismatch","implicit conversion","invalid builtin","invalid objc cast","load invalid value","missing return","mul overflow","negate overflow","nullability arg","nullability return","nonnull arg","nonnull return","out of bounds","pointer overflow","shift out of bounds","sub overflow","type mismatch","alignment","vla bound"};
  violation(string("UB ") + (k < 25 ? names[k] : "trap"), curWhere, EV.m); throw PathEnd();
}
static bool isRound(StringRef n, unsigned& mode) { bool f = n.consume_back("f"); (void)f; if (n == "floor") mode = 0; else if (n == "ceil") mode = 1; else if (n == "trunc") mode = 2; else if (n == "round") mode = 3; else if (n == "rint" || n == "nearbyint") mode = 4; else return false; return true; }

static Expr* call(Frame& fr, const CallBase* cb) {
  const Value* cv = cb->getCalledOperand()->stripPointerCasts();
  if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  const Function* f = dyn_cast<Function>(cv);
  auto A = [&](unsigned i) { return val(fr, cb->getArgOperand(i)); };
  Type* t = cb->getType();
  if (!f) {
    if (isa<InlineAsm>(cv)) { if (t->isVoidTy()) return nullptr; throw Abort{"inline asm"}; }
    uint64_t a = concretize(val(fr, cv));
    auto it = fnAt.find(a); if (it == fnAt.end()) memError("call through a bad function pointer");
    f = it->second;
  }
  if (f->isIntrinsic()) {
    auto id = f->getIntrinsicID();
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
      case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::dbg_label: return nullptr;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: return P.cst(64, 0);
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return A(0);
      case Intrinsic::is_constant: return P.Fa;
      case Intrinsic::objectsize: return P.cst(bitsOf(t), ~(u128)0);
      case Intrinsic::ubsantrap: ubTrap((unsigned)A(0)->v); return nullptr;
      case Intrinsic::trap: case Intrinsic::debugtrap: ubTrap(255); return nullptr;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(A(0), A(1), concretize(A(2))); return nullptr;
      case Intrinsic::memset: case Intrinsic::memset_inline: { Expr* d = A(0); Expr* b = A(1); uint64_t n = concretize(A(2)); for (uint64_t i = 0; i < n; i++) storeBits(P.bin(ADD, d, P.cst(64, i)), b); return nullptr; }
      case Intrinsic::umin: return vmap(A(0), A(1), [](Expr* a, Expr* b) { return P.ite(P.bin(ULT, a, b), a, b); });
      case Intrinsic::umax: return vmap(A(0), A(1), [](Expr* a, Expr* b) { return P.ite(P.bin(ULT, b, a), a, b); });
      case Intrinsic::smin: return vmap(A(0), A(1), [](Expr* a, Expr* b) { return P.ite(P.bin(SLT, a, b), a, b); });
      case Intrinsic::smax: return vmap(A(0), A(1), [](Expr* a, Expr* b) { return P.ite(P.bin(SLT, b, a), a, b); });
      case Intrinsic::abs: { Expr* a = A(0); return P.ite(P.bin(SLT, a, P.cst(a->w, 0)), P.bin(SUB, P.cst(a->w, 0), a), a); }
      case Intrinsic::bswap: { Expr* a = A(0); Expr* r = P.extract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = P.concat(r, P.extract(a, i, 8)); return r; }
      case Intrinsic::bitreverse: { Expr* a = A(0); Expr* r = P.extract(a, 0, 1); for (unsigned i = 1; i < a->w; i++) r = P.concat(r, P.extract(a, i, 1)); return r; }
      case Intrinsic::ctpop: return popcnt(A(0), A(0)->w);
      case Intrinsic::ctlz: { Expr* a = A(0); Expr* r = P.cst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = P.ite(P.extract(a, i, 1), P.cst(a->w, a->w - 1 - i), r); return r; }
      case Intrinsic::cttz: { Expr* a = A(0); Expr* r = P.cst(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = P.ite(P.extract(a, i, 1), P.cst(a->w, i), r); return r; }
      case Intrinsic::fshl: case Intrinsic::fshr: { Expr *a = A(0), *b = A(1), *s = A(2); unsigned w = a->w; Expr* k = P.bin(UREM, s, P.cst(w, w)); Expr* inv = P.bin(SUB, P.cst(w, w), k);
        if (id == Intrinsic::fshl) return P.ite(P.bin(EQ, k, P.cst(w, 0)), a, P.bin(OR, P.bin(SHL, a, k), P.bin(LSHR, b, inv)));
        return P.ite(P.bin(EQ, k, P.cst(w, 0)), b, P.bin(OR, P.bin(SHL, a, inv), P.bin(LSHR, b, k))); }
      case Intrinsic::uadd_sat: { Expr *a = A(0), *b = A(1); Expr* s = P.bin(ADD, a, b); return P.ite(P.bin(ULT, s, a), P.cst(a->w, ~(u128)0), s); }
      case Intrinsic::usub_sat: { Expr *a = A(0), *b = A(1); return P.ite(P.bin(ULT, a, b), P.cst(a->w, 0), P.bin(SUB, a, b)); }
      case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { Expr *a = A(0), *b = A(1); unsigned w = a->w; bool sub = id == Intrinsic::ssub_sat; Expr* r = P.bin(sub ? SUB : ADD, a, b); Expr* o = P.bin(SLT, sub ? P.bin(AND, P.bin(XOR, a, b), P.bin(XOR, a, r)) : P.bin(AND, P.bin(XOR, a, r), P.bin(XOR, b, r)), P.cst(w, 0)); return P.ite(o, P.ite(P.bin(SLT, a, P.cst(w, 0)), P.cst(w, (u128)1 << (w - 1)), P.cst(w, mask(w - 1))), r); }
      case Intrinsic::sadd_with_overflow: { Expr *a = A(0), *b = A(1); Expr* r = P.bin(ADD, a, b); unsigned w = a->w; Expr* o = P.bin(SLT, P.bin(AND, P.bin(XOR, a, r), P.bin(XOR, b, r)), P.cst(w, 0));
        if (Pool::isC(b)) o = sx128(b->v, w) >= 0 ? P.bin(SLT, P.cst(w, mask(w - 1) - b->v), a) : P.bin(SLT, a, P.cst(w, ((u128)1 << (w - 1)) - b->v));
        return P.tuple({r, o}); }
      case Intrinsic::ssub_with_overflow: { Expr *a = A(0), *b = A(1); Expr* r = P.bin(SUB, a, b); unsigned w = a->w; Expr* o = P.bin(SLT, P.bin(AND, P.bin(XOR, a, b), P.bin(XOR, a, r)), P.cst(w, 0)); return P.tuple({r, o}); }
      case Intrinsic::smul_with_overflow: { Expr *a = A(0), *b = A(1); return P.tuple({P.bin(MUL, a, b), P.bin(SMULO, a, b)}); }
      case Intrinsic::uadd_with_overflow: { Expr *a = A(0), *b = A(1); Expr* r = P.bin(ADD, a, b); return P.tuple({r, P.bin(ULT, r, a)}); }
      case Intrinsic::usub_with_overflow: { Expr *a = A(0), *b = A(1); return P.tuple({P.bin(SUB, a, b), P.bin(ULT, a, b)}); }
      case Intrinsic::umul_with_overflow: { Expr *a = A(0), *b = A(1); return P.tuple({P.bin(MUL, a, b), P.bin(UMULO, a, b)}); }
      case Intrinsic::fabs: { return vmap(A(0), nullptr, [](Expr* a, Expr*) { return P.bin(AND, a, P.cst(a->w, mask(a->w - 1))); }); }
      case Intrinsic::copysign: { Expr *a = A(0), *b = A(1); return P.bin(OR, P.bin(AND, a, P.cst(a->w, mask(a->w - 1))), P.bin(AND, b, P.cst(a->w, (u128)1 << (a->w - 1)))); }
      case Intrinsic::sqrt: return P.fop(FSQRT, bitsOf(t), A(0));
      case Intrinsic::fma: return P.fop(FMA, bitsOf(t), A(0), A(1), A(2));
      case Intrinsic::fmuladd: return P.fop(FADD, bitsOf(t), P.fop(FMUL, bitsOf(t), A(0), A(1)), A(2));
      case Intrinsic::floor: return P.fop(FROUND, bitsOf(t), A(0), 0, 0, 0); case Intrinsic::ceil: return P.fop(FROUND, bitsOf(t), A(0), 0, 0, 1); case Intrinsic::trunc: return P.fop(FROUND, bitsOf(t), A(0), 0, 0, 2);
      case Intrinsic::round: return P.fop(FROUND, bitsOf(t), A(0), 0, 0, 3); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return P.fop(FROUND, bitsOf(t), A(0), 0, 0, 4);
      case Intrinsic::minnum: { Expr *a = A(0), *b = A(1); return P.ite(P.fop(FUNO, 1, a, a), b, P.ite(P.fop(FUNO, 1, b, b), a, P.ite(P.fop(FOLT, 1, a, b), a, b))); }
      case Intrinsic::maxnum: { Expr *a = A(0), *b = A(1); return P.ite(P.fop(FUNO, 1, a, a), b, P.ite(P.fop(FUNO, 1, b, b), a, P.ite(P.fop(FOLT, 1, b, a), a, b))); }
      case Intrinsic::is_fpclass: {
        Expr* x = A(0); unsigned w = x->w, mb = w == 32 ? 23 : 52; uint64_t m = (uint64_t)A(1)->v; Expr* s = P.extract(x, w - 1, 1); Expr* e = P.extract(x, mb, w - 1 - mb); Expr* fr2 = P.extract(x, 0, mb); Expr* q = P.extract(x, mb - 1, 1);
        Expr* e1 = P.bin(EQ, e, P.cst(e->w, ~(u128)0)); Expr* e0 = P.bin(EQ, e, P.cst(e->w, 0)); Expr* f0 = P.bin(EQ, fr2, P.cst(mb, 0)); Expr* ns = P.notb(s);
        auto AND3 = [&](Expr* a, Expr* b, Expr* c) { return P.bin(AND, a, P.bin(AND, b, c)); };
        Expr* n = P.bin(AND, P.notb(e1), P.notb(e0));
        Expr* cl[10] = {AND3(e1, P.notb(f0), P.notb(q)), AND3(e1, P.notb(f0), q), AND3(e1, f0, s), P.bin(AND, n, s), AND3(e0, P.notb(f0), s), AND3(e0, f0, s), AND3(e0, f0, ns), AND3(e0, P.notb(f0), ns), P.bin(AND, n, ns), AND3(e1, f0, ns)};
        Expr* r = P.Fa; for (int i = 0; i < 10; i++) if (m >> i & 1) r = P.bin(OR, r, cl[i]); return r; }
      case Intrinsic::eh_typeid_for: return P.cst(32, tiId(cb->getArgOperand(0)));
      default: throw Abort{"intrinsic " + f->getName().str()};
    }
  }
  StringRef n = f->getName();
  if (n.starts_with("vp_")) {
    if (n == "vp_nd_u8") return nd(8); if (n == "vp_nd_u16") return nd(16); if (n == "vp_nd_u32") return nd(32); if (n == "vp_nd_u64") return nd(64);
    if (n == "vp_assume") { Expr* c = A(0); assume(c->w == 1 ? c : P.extract(c, 0, 1)); return nullptr; }
    if (n == "vp_assert") { Expr* c = A(0); checkProp(c->w == 1 ? c : P.extract(c, 0, 1), (unsigned)A(1)->v); return nullptr; }
    if (n == "vp_fork") { Expr* c = A(0); return P.boolc(decide(c->w == 1 ? c : P.extract(c, 0, 1))); }
    if (n == "vp_concrete") { Expr* c = A(0); return P.cst(c->w, concretize(c)); }
  }
  if (!f->isDeclaration()) {
    std::vector<Expr*> args;
    for (unsigned i = 0; i < cb->arg_size(); i++) {
      if (cb->isByValArgument(i)) { Type* bt = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(bt); Obj* o = newObj(sz, nullptr); fr.allocas.push_back(o); copyMem(P.cst(64, o->base), A(i), sz); args.push_back(P.cst(64, o->base)); }
      else args.push_back(A(i));
    }
    return run(const_cast<Function*>(f), args);
  }
  // ---- models of external functions
  string s = n.str();
  auto has = [&](const char* k) { return s.find(k) != string::npos; };
  if (s == "__cxa_throw") { exc = true; excObj = A(0); excTI = cb->getArgOperand(1)->stripPointerCasts(); return nullptr; }
  if (s == "__cxa_rethrow") { exc = true; return nullptr; }
  if (s == "__cxa_allocate_exception") { Obj* o = newObj(512, nullptr); for (unsigned i = 0; i < 512; i++) wrBits(o, i, P.cst(8, 0)); return P.cst(64, o->base); }
  if (s == "__cxa_begin_catch") return A(0);
  if (s == "__cxa_end_catch" || s == "__cxa_free_exception") return nullptr;
  if (s == "_ZSt9terminatev" || s == "__clang_call_terminate" || s == "abort") { violation("TERMINATE", curWhere, EV.m); throw PathEnd(); }
  // SPROUT_ASSERT prints to std::cerr and aborts: the print is reached only on the way to abort (the native replay confirms it)
  if (s.rfind("_ZStls", 0) == 0 || s.rfind("_ZSt16__ostream_insert", 0) == 0) { violation("ASSERT", curWhere, EV.m); throw PathEnd(); }
  if (s == "__assert_fail") { violation("ASSERT", curWhere, EV.m); throw PathEnd(); }
  if (s.rfind("_ZSt", 0) == 0 && has("__throw_")) { exc = true; Obj* o = newObj(64, nullptr); excObj = P.cst(64, o->base); excTI = nullptr; excStd = s; return nullptr; }
  if (t->isVoidTy() && s.rfind("_ZNSt", 0) == 0 && (has("_errorC") || has("_errorD") || has("out_of_rangeC") || has("out_of_rangeD") || has("invalid_argumentC") || has("invalid_argumentD") || has("exceptionC") || has("exceptionD") || has("bad_castC") || has("bad_castD") || has("length_error"))) return nullptr;
  if (s == "memcmp" || s == "bcmp") { uint64_t k = concretize(A(2)); Expr* r = P.cst(32, 0); for (uint64_t i = k; i-- > 0;) { Expr* x = loadBits(P.bin(ADD, A(0), P.cst(64, i)), 8); Expr* y = loadBits(P.bin(ADD, A(1), P.cst(64, i)), 8); r = P.ite(P.bin(EQ, x, y), r, P.ite(P.bin(ULT, x, y), P.cst(32, ~(u128)0), P.cst(32, 1))); } return r; }
  if (s == "memcpy" || s == "memmove") { copyMem(A(0), A(1), concretize(A(2))); return A(0); }
  if (s == "memset") { uint64_t k = concretize(A(2)); for (uint64_t i = 0; i < k; i++) storeBits(P.bin(ADD, A(0), P.cst(64, i)), P.extract(A(1), 0, 8)); return A(0); }
  if (s == "strlen") { for (uint64_t i = 0;; i++) if (decide(P.bin(EQ, loadBits(P.bin(ADD, A(0), P.cst(64, i)), 8), P.cst(8, 0)))) return P.cst(64, i); }
  if (s == "_Znwm" || s == "_Znam" || s == "malloc") { Obj* o = newObj(concretize(A(0)), nullptr); return P.cst(64, o->base); }
  if (s == "_ZdlPv" || s == "_ZdaPv" || s == "_ZdlPvm" || s == "free" || s == "_ZdaPvm") { uint64_t a = concretize(A(0)); if (a) { Obj* o = findObj(a); if (!o || o->base != a || !o->alive) memError("bad free"); o->alive = false; } return nullptr; }
  unsigned mode;
  if (isRound(n, mode)) return P.fop(FROUND, bitsOf(t), A(0), 0, 0, mode);
  if (s == "fabs" || s == "fabsf") return P.bin(AND, A(0), P.cst(A(0)->w, mask(A(0)->w - 1)));
  if (s == "sqrt" || s == "sqrtf") return P.fop(FSQRT, bitsOf(t), A(0));
  if (s == "fmod" || s == "fmodf") return P.fop(FREM, bitsOf(t), A(0), A(1));
  throw Abort{"external function " + s};
}

static Expr* run(Function* f, std::vector<Expr*> args) {
  if (++depthNow > 20000) { violation("NON-TERMINATION (call depth)", f->getName().str(), EV.m); throw PathEnd(); }
  struct DG { ~DG() { depthNow--; } } dg;
  Frame fr; fr.fi = &info(f); fr.v.resize(fr.fi->n);
  struct AG { Frame& f; ~AG() { for (auto* o : f.allocas) o->alive = false; } } ag{fr};
  for (size_t i = 0; i < args.size(); i++) fr.v[i] = args[i];
  fnsRun.insert(f->getName().str());
  const BasicBlock *bb = &f->getEntryBlock(), *prev = nullptr;
  string myName = f->getName().str();
  for (;;) {
    // phis in parallel
    auto it = bb->begin();
    if (isa<PHINode>(*it)) {
      std::vector<std::pair<unsigned, Expr*>> upd;
      for (; auto* p = dyn_cast<PHINode>(&*it); ++it) upd.push_back({fr.fi->slot[p], val(fr, p->getIncomingValueForBlock(prev))});
      for (auto& u : upd) fr.v[u.first] = u.second;
    }
    const BasicBlock* next = nullptr;
    for (; it != bb->end(); ++it) {
      const Instruction& I = *it;
      nInstr++;
      if (++pathInstr > maxInstr) { curWhere = myName; violation("NON-TERMINATION (instruction budget of one path)", myName, EV.m); throw PathEnd(); }
      if ((nInstr & 0xffff) == 0 && now() - tStart > tLimit) throw Abort{"time budget"};
      Type* t = I.getType();
      auto V = [&](unsigned i) { return val(fr, I.getOperand(i)); };
      Expr* r = nullptr;
      switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          Kind k = I.getOpcode() == Instruction::Add ? ADD : I.getOpcode() == Instruction::Sub ? SUB : I.getOpcode() == Instruction::Mul ? MUL : I.getOpcode() == Instruction::And ? AND : I.getOpcode() == Instruction::Or ? OR : I.getOpcode() == Instruction::Xor ? XOR : I.getOpcode() == Instruction::Shl ? SHL : I.getOpcode() == Instruction::LShr ? LSHR : ASHR;
          r = vmap(V(0), V(1), [&](Expr* a, Expr* b) { return P.bin(k, a, b); }); break; }
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
          Kind k = I.getOpcode() == Instruction::UDiv ? UDIV : I.getOpcode() == Instruction::SDiv ? SDIV : I.getOpcode() == Instruction::URem ? UREM : SREM;
          Expr *a = V(0), *b = V(1);
          if (!(Pool::isC(b) && b->v)) { Expr* z = P.bin(EQ, b, P.cst(b->w, 0)); curWhere = myName; if (decide(z)) ubTrap(3); }
          r = P.bin(k, a, b); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
          Kind k = I.getOpcode() == Instruction::FAdd ? FADD : I.getOpcode() == Instruction::FSub ? FSUB : I.getOpcode() == Instruction::FMul ? FMUL : I.getOpcode() == Instruction::FDiv ? FDIV : FREM;
          r = vmap(V(0), V(1), [&](Expr* a, Expr* b) { return P.fop(k, a->w, a, b); }); break; }
        case Instruction::FNeg: r = vmap(V(0), nullptr, [&](Expr* a, Expr*) { return P.bin(XOR, a, P.cst(a->w, (u128)1 << (a->w - 1))); }); break;
        case Instruction::ICmp: r = vmap(V(0), V(1), [&](Expr* a, Expr* b) { return icmp(cast<CmpInst>(I).getPredicate(), a, b); }); break;
        case Instruction::FCmp: r = vmap(V(0), V(1), [&](Expr* a, Expr* b) { return fcmp(cast<CmpInst>(I).getPredicate(), a, b); }); break;
        case Instruction::Trunc: { unsigned w = bitsOf(t->getScalarType()); r = vmap(V(0), nullptr, [&](Expr* a, Expr*) { return P.extract(a, 0, w); }); break; }
        case Instruction::ZExt: { unsigned w = bitsOf(t->getScalarType()); r = vmap(V(0), nullptr, [&](Expr* a, Expr*) { return P.zext(a, w); }); break; }
        case Instruction::SExt: { unsigned w = bitsOf(t->getScalarType()); r = vmap(V(0), nullptr, [&](Expr* a, Expr*) { return P.sext(a, w); }); break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: r = P.zext(V(0), bitsOf(t)); break;
        case Instruction::FPTrunc: case Instruction::FPExt: r = P.fop(FCVT, bitsOf(t), V(0)); break;
        case Instruction::UIToFP: r = P.fop(U2F, bitsOf(t), V(0)); break;
        case Instruction::SIToFP: r = P.fop(S2F, bitsOf(t), V(0)); break;
        case Instruction::FPToUI: r = P.fop(F2U, bitsOf(t), V(0)); break;
        case Instruction::FPToSI: r = P.fop(F2S, bitsOf(t), V(0)); break;
        case Instruction::BitCast: {
          Expr* a = V(0);
          if (a->k == TUPLE && !t->isVectorTy()) { Expr* x = (*a->kids)[0]; for (size_t i = 1; i < a->kids->size(); i++) x = P.concat((*a->kids)[i], x); r = x; }
          else if (t->isVectorTy()) { Expr* x = a; if (a->k == TUPLE) { x = (*a->kids)[0]; for (size_t i = 1; i < a->kids->size(); i++) x = P.concat((*a->kids)[i], x); } unsigned w = bitsOf(t->getScalarType()); std::vector<Expr*> k; for (unsigned i = 0; i < cast<FixedVectorType>(t)->getNumElements(); i++) k.push_back(P.extract(x, i * w, w)); r = P.tuple(k); }
          else r = a; break; }
        case Instruction::Freeze: r = V(0); break;
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a.getAllocatedType()); if (a.isArrayAllocation()) n *= concretize(V(0)); Obj* o = newObj(n, &I); fr.allocas.push_back(o); r = P.cst(64, o->base); break; }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(I); Expr* p = V(0); if (p->k == TUPLE) throw Abort{"vector gep"}; int64_t c = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (auto* st = gi.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            int64_t s = DL->getTypeAllocSize(gi.getIndexedType());
            Expr* ix = val(fr, gi.getOperand());
            if (Pool::isC(ix)) c += (int64_t)sx128(ix->v, ix->w) * s; else p = P.bin(ADD, p, P.bin(MUL, P.sext(ix, 64), P.cst(64, s)));
          }
          r = P.bin(ADD, p, P.cst(64, (u128)c)); break; }
        case Instruction::Load: curWhere = myName; r = loadT(t, V(0)); break;
        case Instruction::Store: curWhere = myName; storeT(I.getOperand(0)->getType(), V(1), V(0)); break;
        case Instruction::Select: { Expr* c = V(0); if (c->k == TUPLE) { std::vector<Expr*> k; Expr *a = V(1), *b = V(2); for (size_t i = 0; i < c->kids->size(); i++) k.push_back(P.ite((*c->kids)[i], (*a->kids)[i], (*b->kids)[i])); r = P.tuple(k); break; }
          if (!Pool::isC(c)) c = simp(c);
          if (Pool::isC(c)) r = c->v ? V(1) : V(2); else r = P.ite(c, V(1), V(2)); break; }
        case Instruction::ExtractValue: { r = V(0); for (unsigned i : cast<ExtractValueInst>(I).indices()) r = (*r->kids)[i]; break; }
        case Instruction::InsertValue: {
          auto& iv = cast<InsertValueInst>(I);
          std::function<Expr*(Expr*, Type*, ArrayRef<unsigned>)> ins = [&](Expr* a, Type* ty, ArrayRef<unsigned> ix) -> Expr* { if (ix.empty()) return V(1); std::vector<Expr*> k = *a->kids; k[ix[0]] = ins(k[ix[0]], nullptr, ix.slice(1)); return P.tuple(k); };
          r = ins(V(0), t, iv.getIndices()); break; }
        case Instruction::ExtractElement: { Expr* a = V(0); r = (*a->kids)[concretize(V(1))]; break; }
        case Instruction::InsertElement: { std::vector<Expr*> k = *V(0)->kids; k[concretize(V(2))] = V(1); r = P.tuple(k); break; }
        case Instruction::ShuffleVector: { auto& sv = cast<ShuffleVectorInst>(I); Expr *a = V(0), *b = V(1); std::vector<Expr*> k; for (int m : sv.getShuffleMask()) { if (m < 0) k.push_back((*a->kids)[0]); else k.push_back((size_t)m < a->kids->size() ? (*a->kids)[m] : (*b->kids)[m - a->kids->size()]); } r = P.tuple(k); break; }
        case Instruction::Call: case Instruction::Invoke: {
          curWhere = myName;
          r = call(fr, cast<CallBase>(&I));
          curWhere = myName;
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { if (exc) next = iv->getUnwindDest(); else next = iv->getNormalDest(); }
          else if (exc) return nullptr;
          break; }
        case Instruction::LandingPad: {
          auto& lp = cast<LandingPadInst>(I); exc = false; int sel = 0; bool any = lp.isCleanup();
          for (unsigned i = 0; i < lp.getNumClauses() && !sel; i++) if (lp.isCatch(i) && tiMatch(lp.getClause(i))) { sel = tiId(lp.getClause(i)); any = true; }
          if (!any) { exc = true; return nullptr; }
          r = P.tuple({excObj, P.cst(32, sel)}); break; }
        case Instruction::Resume: exc = true; return nullptr;
        case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isUnconditional()) next = b.getSuccessor(0); else { curWhere = myName; next = decide(V(0)) ? b.getSuccessor(0) : b.getSuccessor(1); } break; }
        case Instruction::Switch: { auto& s = cast<SwitchInst>(I); Expr* c = simp(V(0)); curWhere = myName; next = nullptr;
          if (Pool::isC(c)) { next = s.getDefaultDest(); for (auto& k : s.cases()) if ((u128)k.getCaseValue()->getZExtValue() == c->v) next = k.getCaseSuccessor(); break; }
          std::vector<const BasicBlock*> order; std::map<const BasicBlock*, Expr*> cond;
          for (auto& k : s.cases()) { auto* d = k.getCaseSuccessor(); Expr* e = P.bin(EQ, c, constVal(k.getCaseValue())); if (!cond.count(d)) { order.push_back(d); cond[d] = e; } else cond[d] = P.bin(OR, cond[d], e); }
          for (auto* d : order) if (decide(cond[d])) { next = d; break; }
          if (!next) next = s.getDefaultDest(); break; }
        case Instruction::Ret: return I.getNumOperands() ? V(0) : nullptr;
        case Instruction::Unreachable: curWhere = myName; violation("UNREACHABLE reached", myName, EV.m); throw PathEnd();
        default: { throw Abort{string("instruction ") + I.getOpcodeName()}; }
      }
      if (r && !t->isVoidTy()) fr.v[fr.fi->slot[&I]] = r;
      if (next) break;
    }
    prev = bb; bb = next;
    if (!bb) throw Abort{"internal: no successor"};
  }
}

// ---------------------------------------------------------------- exploration
static void resetPath() {
  pos = 0; pathTrace = 1469598103934665603ULL; pathIn.clear(); known.clear(); knownVer++; pathInstr = 0; depthNow = 0; exc = false; excTI = nullptr; undefCount = 0;
  objs.resize(nGlobalObjs);
  for (size_t i = 0; i < nGlobalObjs; i++) if (!objs[i]->ro && objs[i]->v) { auto* g = cast<GlobalVariable>(objs[i]->v); std::fill(objs[i]->c.begin(), objs[i]->c.end(), Cell()); if (g->hasInitializer()) initMem(objs[i].get(), 0, g->getInitializer()); }
}
static string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string u128s(u128 v) { if (!v) return "0"; string s; while (v) { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } return s; }
static string gHarness, gOut;

static void explore(Function* H) {
  for (;;) {
    if (nPaths >= maxPaths) throw Abort{"path budget"};
    nPaths++;
    resetPath();
    try { run(H, {}); if (exc) { curWhere = ""; violation("UNCAUGHT exception", excTI ? excTI->getName().str() : excStd, EV.m); } else { nCompleted++; static uint64_t lcg = 12345; lcg = lcg * 6364136223846793005ULL + 1; Tr t; t.h = pathTrace; for (auto& p : pathIn) t.in.push_back(EV.m.at(p.second->aux) & mask(p.second->w)); if (traces.size() < maxTraces) traces.push_back(t); else if ((lcg >> 33) % nCompleted < maxTraces) traces[(lcg >> 20) % maxTraces] = t; } }
    catch (PathEnd&) {}
    if (viols.size() >= 12) throw Abort{"violation limit"};
    // backtrack
    while (!decs.empty() && !(decs.back().kind == 0 && decs.back().hasAlt)) { if (decs.back().pushed) pathC.pop_back(); decs.pop_back(); }
    if (decs.empty()) return;
    Dec& d = decs.back();
    pathC.pop_back();
    d.dir = !d.dir; d.hasAlt = false; EV.set(d.alt);
    pushC(d.dir ? d.cond : P.notb(d.cond));
  }
}
static void report(const string& status, const string& why) {
  std::ofstream o(gOut);
  o << "{\"harness\":\"" << gHarness << "\",\"status\":\"" << status << "\",\"why\":\"" << jesc(why) << "\",\"paths\":" << nPaths << ",\"completed\":" << nCompleted << ",\"instructions\":" << nInstr << ",\"forks\":" << nForks
    << ",\"branch_queries\":" << nBranchQ << ",\"check_queries\":" << nCheckQ << ",\"checks\":" << nChecks << ",\"checks_trivial\":" << nChecksConst << ",\"cache_hits\":" << nCacheHits << ",\"z3_queries\":" << nZ3 << ",\"cross_checked\":" << nCross << ",\"cross_agreed\":" << nCrossOk << ",\"unknown\":" << nUnknown << ",\"solver_s\":" << tSolver << ",\"wall_s\":" << now() - tStart << ",\"exprs\":" << P.all.size();
  o << ",\"check_lines\":{"; bool f = true; for (auto& c : checkEvals) { o << (f ? "" : ",") << "\"" << c.first << "\":" << c.second; f = false; } o << "}";
  o << ",\"undecided\":["; f = true; for (auto u : undecided) { o << (f ? "" : ",") << u; f = false; } o << "]";
  std::set<string> inc(incomplete.begin(), incomplete.end()); o << ",\"incomplete\":["; f = true; for (auto& u : inc) { o << (f ? "" : ",") << "\"" << jesc(u) << "\""; f = false; } o << "]";
  o << ",\"functions\":["; f = true; for (auto& u : fnsRun) { o << (f ? "" : ",") << "\"" << jesc(u) << "\""; f = false; } o << "]";
  o << ",\"violations\":["; f = true;
  for (auto& v : viols) { o << (f ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":["; bool g = true; for (auto& i : v.in) { o << (g ? "" : ",") << "[" << i.first << ",\"" << u128s(i.second) << "\"]"; g = false; } o << "]}"; f = false; }
  o << "],\"traces\":["; f = true; for (auto& t : traces) { o << (f ? "" : ",") << "[\"" << t.h << "\""; for (auto v : t.in) o << ",\"" << u128s(v) << "\""; o << "]"; f = false; }
  o << "]}\n";
}
static int mainThread(int argc, char** argv) {
  LLVMContext C; SMDiagnostic err;
  auto Mo = parseIRFile(argv[1], err, C);
  if (!Mo) { err.print("sx", errs()); return 2; }
  M = Mo.get(); DL = &M->getDataLayout();
  gHarness = argv[2]; gOut = argv[3];
  for (int i = 4; i + 1 < argc; i += 2) { string a = argv[i]; if (a == "--timeout") tLimit = atof(argv[i + 1]); if (a == "--qhard") qHard = atoi(argv[i + 1]); if (a == "--max-instr") maxInstr = strtoull(argv[i + 1], 0, 10); if (a == "--conflicts") qConflicts = atoll(argv[i + 1]); if (a == "--cross") crossCheck = atoi(argv[i + 1]); if (a == "--traces") maxTraces = atoi(argv[i + 1]); if (a == "--max-paths") maxPaths = strtoull(argv[i + 1], 0, 10); }
  Function* H = M->getFunction(gHarness);
  if (!H || H->isDeclaration()) { fprintf(stderr, "sx: no function %s\n", argv[2]); return 2; }
  tStart = now();
  z3::context ctx; Z = &ctx; TZ.reset(new ToZ3(ctx));
  BL.reset(new Blast());
  try {
    // global layout
    for (auto& g : M->globals()) { uint64_t sz = g.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64; Obj* o = newObj(sz, &g); gaddr[&g] = o->base; }
    for (auto& f : *M) { Obj* o = newObj(1, nullptr); gaddr[&f] = o->base; fnAt[o->base] = &f; o->ro = true; }
    nGlobalObjs = objs.size();
    for (auto& g : M->globals()) { Obj* o = findObj(gaddr[&g]); if (g.isConstant() && g.hasInitializer()) { initMem(o, 0, g.getInitializer()); o->ro = true; } else if (!g.hasInitializer()) { for (unsigned i = 0; i < 64; i++) wrBits(o, i, P.cst(8, 0)); o->ro = true; } }
    EV.set(Model());
    explore(H);
    report(!undecided.empty() || !incomplete.empty() ? "incomplete" : nCompleted == 0 && viols.empty() ? "vacuous" : "complete", "");
  } catch (Abort& a) {
    report(a.why == "time budget" || a.why == "path budget" || a.why == "violation limit" ? "incomplete" : "error", a.why);
  } catch (z3::exception& e) { report("error", string("z3: ") + e.msg()); }
  fflush(stdout);
  _exit(0);
}
struct Args { int c; char** v; };
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: sx module.ll h_name out.json [options]\n"); return 2; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)4 << 30);
  Args a{argc, argv}; pthread_t th;
  static int rc;
  if (pthread_create(&th, &at, [](void* p) -> void* { auto* a = (Args*)p; rc = mainThread(a->c, a->v); return nullptr; }, &a)) { fprintf(stderr, "sx: thread\n"); return 2; }
  pthread_join(th, nullptr);
  return rc;
}
