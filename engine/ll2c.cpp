// ll2c: LLVM IR (clang 18) -> C for CBMC.  One C function per IR function, goto per CFG edge.
// Usage: ll2c in.ll out.c
// Integers are emitted as unsigned bit-vectors (wrapping); undefined behaviour is caught by clang's
// -fsanitize=... traps in the IR plus CBMC's own pointer/bounds/division checks.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <fstream>
#include <vector>
#include <functional>
#include <iostream>
using namespace llvm;
using std::string;

static std::ostringstream typeDefs;
static std::map<Type*, string> typeNames;
static std::map<const GlobalValue*, string> gnames;
static std::set<string> usedNames;
static int uniq = 0;
static const DataLayout* DL;
static std::set<string> unsupported;

static string sanitize(StringRef n) {
  string s;
  for (char c : n) s += (isalnum((unsigned char)c) || c == '_') ? c : '_';
  if (s.empty() || isdigit((unsigned char)s[0])) s = "n" + s;
  return s;
}
static std::set<unsigned> seenW;
static string ityU(unsigned w) {
  switch (w) {
    case 1: return "vp_b";
    case 8: return "vp_u8"; case 16: return "vp_u16"; case 32: return "vp_u32"; case 64: return "vp_u64"; case 128: return "vp_u128";
  }
  string n = "vp_u" + std::to_string(w);
  if (seenW.insert(w).second) {
    typeDefs << "#ifdef __CPROVER\ntypedef unsigned __CPROVER_bitvector[" << w << "] " << n << ";\ntypedef __CPROVER_bitvector[" << w << "] vp_s" << w << ";\n#else\n"
             << "typedef unsigned _BitInt(" << w << ") " << n << ";\ntypedef _BitInt(" << w << ") vp_s" << w << ";\n#endif\n";
  }
  return n;
}
static string ityS(unsigned w) { ityU(w); if (w == 1) return "vp_s1"; return "vp_s" + std::to_string(w); }

static string ty(Type* t) {
  if (t->isVoidTy()) return "void";
  if (auto* i = dyn_cast<IntegerType>(t)) return ityU(i->getBitWidth());
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isX86_FP80Ty()) return "long double";
  if (t->isPointerTy()) return "vp_p";
  auto it = typeNames.find(t);
  if (it != typeNames.end()) return it->second;
  if (auto* st = dyn_cast<StructType>(t)) {
    std::vector<string> ft;
    for (auto* e : st->elements()) ft.push_back(ty(e));
    string n = "struct S" + std::to_string(uniq++);
    std::ostringstream o;
    o << n << " {";
    for (size_t i = 0; i < ft.size(); i++) o << " " << ft[i] << " f" << i << ";";
    if (ft.empty()) o << " ";
    o << " }" << (st->isPacked() ? " __attribute__((packed))" : "") << ";\n";
    typeDefs << o.str();
    return typeNames[t] = n;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    string e = ty(at->getElementType());
    string n = "struct A" + std::to_string(uniq++);
    typeDefs << n << " { " << e << " a[" << at->getNumElements() << "]; };\n";
    return typeNames[t] = n;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    string e = ty(vt->getElementType());
    string n = "struct V" + std::to_string(uniq++);
    typeDefs << n << " { " << e << " a[" << vt->getNumElements() << "]; };\n";
    return typeNames[t] = n;
  }
  string s; raw_string_ostream os(s); t->print(os);
  unsupported.insert("type " + os.str());
  return "int";
}

static string gname(const GlobalValue* g) {
  auto it = gnames.find(g);
  if (it != gnames.end()) return it->second;
  string n = sanitize(g->getName());
  if (n.rfind("vp_", 0) != 0 && n.rfind("h_", 0) != 0) n = "g_" + n;
  string b = n;
  while (!usedNames.insert(n).second) n = b + "_" + std::to_string(uniq++);
  return gnames[g] = n;
}

static string hexInt(const APInt& v) {
  unsigned w = v.getBitWidth();
  if (w == 1) return v.isZero() ? "0" : "1";
  SmallString<64> s;
  if (w <= 64) {
    v.toString(s, 10, false);
    string r(s.str());
    return "((" + ityU(w) + ")" + r + (w > 32 ? "ull" : "u") + ")";
  }
  uint64_t lo = v.getRawData()[0], hi = v.getNumWords() > 1 ? v.getRawData()[1] : 0;
  if (v.getActiveBits() > 128) unsupported.insert("int constant wider than 128 bits");
  return "((((" + ityU(w) + ")" + std::to_string(hi) + "ull)<<64)|(" + ityU(w) + ")" + std::to_string(lo) + "ull)";
}

static string fpConst(const ConstantFP* c) {
  const APFloat& f = c->getValueAPF();
  bool isF = c->getType()->isFloatTy(), isD = c->getType()->isDoubleTy();
  if (f.isInfinity()) return string(f.isNegative() ? "(-" : "(") + (isF ? "VP_INFF" : "VP_INF") + ")";
  if (f.isNaN()) {
    return isF ? "VP_NANF" : "VP_NAN";
  }
  if (f.isZero()) return string(f.isNegative() ? "(-0.0" : "(0.0") + (isF ? "f)" : ")");
  if (!isF && !isD) { // long double
    bool li; APFloat g = f; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char buf[64]; snprintf(buf, sizeof buf, "((long double)%a)", g.convertToDouble());
    if (li) unsupported.insert("long double constant not representable as double");
    return buf;
  }
  char buf[64];
  double d = isF ? (double)f.convertToFloat() : f.convertToDouble();
  snprintf(buf, sizeof buf, "(%a%s)", d, isF ? "f" : "");
  return buf;
}

struct FnCtx {
  std::map<const Value*, string> names;
  std::set<const Value*> taken;
  int n = 0;
};
static FnCtx* F = nullptr;
static string val(const Value* v);
static string gepExpr(const GEPOperator* g);

static string zeroInit(Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) return "{0}";
  return "0";
}
// constant as an initializer (brace form for aggregates)
static string initOf(const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    if (auto* st = dyn_cast<StructType>(t)) { if (st->getNumElements() == 0) return "{}";
      string s = "{"; for (unsigned i = 0; i < st->getNumElements(); i++) s += (i ? "," : "") + initOf(Constant::getNullValue(st->getElementType(i))); return s + "}"; }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      if (at->getNumElements() == 0) return "{}";
      string e = initOf(Constant::getNullValue(at->getElementType())); string s = "{{";
      for (unsigned i = 0; i < at->getNumElements(); i++) s += (i ? "," : "") + e; return s + "}}"; }
    if (auto* at = dyn_cast<FixedVectorType>(t)) { string e = initOf(Constant::getNullValue(at->getElementType())); string s = "{{";
      for (unsigned i = 0; i < at->getNumElements(); i++) s += (i ? "," : "") + e; return s + "}}"; }
    if (t->isPointerTy()) return "((vp_p)0)";
    return "0";
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    string s = "{";
    for (unsigned i = 0; i < cs->getNumOperands(); i++) s += (i ? "," : "") + initOf(cs->getOperand(i));
    return s + "}";
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    string s = "{{";
    for (unsigned i = 0; i < c->getNumOperands(); i++) s += (i ? "," : "") + initOf(cast<Constant>(c->getOperand(i)));
    return s + "}}";
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    string s = "{{";
    for (unsigned i = 0; i < cd->getNumElements(); i++) s += (i ? "," : "") + initOf(cd->getElementAsConstant(i));
    return s + "}}";
  }
  return val(c);
}

static string constExpr(const ConstantExpr* ce) {
  switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: return gepExpr(cast<GEPOperator>(ce));
    case Instruction::PtrToInt: return "((" + ty(ce->getType()) + ")" + val(ce->getOperand(0)) + ")";
    case Instruction::IntToPtr: return "((vp_p)(vp_u64)" + val(ce->getOperand(0)) + ")";
    case Instruction::BitCast: if (ce->getType()->isPointerTy()) return val(ce->getOperand(0)); break;
    case Instruction::Sub: return "((" + ty(ce->getType()) + ")(" + val(ce->getOperand(0)) + "-" + val(ce->getOperand(1)) + "))";
    case Instruction::Add: return "((" + ty(ce->getType()) + ")(" + val(ce->getOperand(0)) + "+" + val(ce->getOperand(1)) + "))";
    case Instruction::Trunc: return "((" + ty(ce->getType()) + ")" + val(ce->getOperand(0)) + ")";
    case Instruction::ICmp: {
      auto p = (CmpInst::Predicate)ce->getPredicate();
      if (p == CmpInst::ICMP_EQ) return "((vp_b)(" + val(ce->getOperand(0)) + "==" + val(ce->getOperand(1)) + "))";
      if (p == CmpInst::ICMP_NE) return "((vp_b)(" + val(ce->getOperand(0)) + "!=" + val(ce->getOperand(1)) + "))";
      if (p == CmpInst::ICMP_ULT) return "((vp_b)(" + val(ce->getOperand(0)) + "<" + val(ce->getOperand(1)) + "))";
      if (p == CmpInst::ICMP_UGT) return "((vp_b)(" + val(ce->getOperand(0)) + ">" + val(ce->getOperand(1)) + "))";
      if (p == CmpInst::ICMP_ULE) return "((vp_b)(" + val(ce->getOperand(0)) + "<=" + val(ce->getOperand(1)) + "))";
      if (p == CmpInst::ICMP_UGE) return "((vp_b)(" + val(ce->getOperand(0)) + ">=" + val(ce->getOperand(1)) + "))";
      break;
    }
  }
  string s; raw_string_ostream os(s); ce->print(os);
  unsupported.insert("constexpr " + os.str());
  return "0";
}

static string undefOf(Type* t) {
  if (t->isPointerTy()) return "((vp_p)0)";
  return "vp_undef_" + [&] { string s = ty(t); for (auto& c : s) if (!isalnum((unsigned char)c)) c = '_'; return s; }() + "()";
}
static std::map<string, Type*> undefUsed;

static string val(const Value* v) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) return hexInt(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(v)) return fpConst(cf);
  if (isa<ConstantPointerNull>(v)) return "((vp_p)0)";
  if (isa<UndefValue>(v)) {
    if (v->getType()->isPointerTy()) return "((vp_p)0)";
    undefUsed[undefOf(v->getType())] = v->getType();
    return undefOf(v->getType());
  }
  if (auto* f = dyn_cast<Function>(v)) return "((vp_p)&" + gname(f) + ")";
  if (auto* ga = dyn_cast<GlobalAlias>(v)) return val(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(v)) return "((vp_p)&" + gname(g) + ")";
  if (auto* ce = dyn_cast<ConstantExpr>(v)) return constExpr(ce);
  if (auto* c = dyn_cast<Constant>(v)) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) return "((" + ty(t) + ")" + initOf(c) + ")";
    string s; raw_string_ostream os(s); c->print(os);
    unsupported.insert("constant " + os.str());
    return "0";
  }
  auto it = F->names.find(v);
  if (it != F->names.end()) return it->second;
  string n = (isa<Argument>(v) ? "a" : "v") + std::to_string(F->n++);
  return F->names[v] = n;
}

static string gepExpr(const GEPOperator* g) {
  string base = val(g->getPointerOperand());
  Type* cur = g->getSourceElementType();
  auto idx = g->idx_begin();
  // byte GEP (i8): pointer arithmetic
  string e;
  {
    const Value* i0 = *idx;
    string is = "(vp_s64)";
    if (auto* c = dyn_cast<ConstantInt>(i0)) is = std::to_string(c->getSExtValue());
    else is = "(vp_s64)(" + ityS(i0->getType()->getIntegerBitWidth()) + ")" + val(i0);
    ++idx;
    if (idx == g->idx_end() || is != "0") {
      if (cur->isIntegerTy(8)) e = "(" + base + "+" + is + ")";
      else e = "((" + ty(cur) + "*)" + base + "+" + is + ")";
      if (idx == g->idx_end()) return "((vp_p)" + e + ")";
      e = "(*" + e + ")";
    } else e = "(*(" + ty(cur) + "*)" + base + ")";
  }
  for (; idx != g->idx_end(); ++idx) {
    const Value* i = *idx;
    if (auto* st = dyn_cast<StructType>(cur)) {
      unsigned k = cast<ConstantInt>(i)->getZExtValue();
      e += ".f" + std::to_string(k);
      cur = st->getElementType(k);
    } else {
      string is;
      if (auto* c = dyn_cast<ConstantInt>(i)) is = std::to_string(c->getSExtValue());
      else is = "(vp_s64)(" + ityS(i->getType()->getIntegerBitWidth()) + ")" + val(i);
      // pointer arithmetic form: an address one past the end is fine
      if (auto* at = dyn_cast<ArrayType>(cur)) {
        e = "(*(&" + e + ".a[0]+" + is + "))";
        cur = at->getElementType();
      } else { auto* vt = cast<FixedVectorType>(cur); e = "(*(&" + e + ".a[0]+" + is + "))"; cur = vt->getElementType(); }
    }
  }
  return "((vp_p)&" + e + ")";
}

static unsigned bw(Type* t) { return t->getIntegerBitWidth(); }

static std::ostringstream out;
static std::ostringstream decls;
static std::set<string> externs;
static std::map<string,int> tiIds;
static int tiId(const Value* v) {
  v = v->stripPointerCasts();
  if (isa<ConstantPointerNull>(v)) return 0;
  string n = v->getName().str();
  auto it = tiIds.find(n);
  if (it != tiIds.end()) return it->second;
  int k = tiIds.size() + 1;
  return tiIds[n] = k;
}

static void flatten(Type* t, uint64_t off, std::vector<std::pair<uint64_t, Type*>>& o) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), o);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, o);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, o);
  } else o.push_back({off, t});
}
// the memory layout (from p's offset on) of the object p points into, when statically known
static bool layoutOf(const Value* p, std::vector<std::pair<uint64_t, Type*>>& o) {
  APInt off(64, 0);
  const Value* b = p->stripAndAccumulateConstantOffsets(*DL, off, true);
  Type* t = nullptr;
  if (auto* a = dyn_cast<AllocaInst>(b)) { if (!a->isArrayAllocation()) t = a->getAllocatedType(); }
  else if (auto* g = dyn_cast<GlobalVariable>(b)) t = g->getValueType();
  else if (auto* a = dyn_cast<Argument>(b)) {
    t = a->getPointeeInMemoryValueType();
    if (!t) { // guess from a GEP on the argument
      for (auto* u : a->users()) if (auto* g = dyn_cast<GEPOperator>(u)) { if (!g->getSourceElementType()->isIntegerTy(8)) { t = g->getSourceElementType(); break; } }
    }
  }
  if (!t) for (auto* u : b->users()) if (auto* g = dyn_cast<GEPOperator>(u)) if (g->getPointerOperand() == b && !g->getSourceElementType()->isIntegerTy(8)) { t = g->getSourceElementType(); break; }
  if (!t) return false;
  int64_t k = off.getSExtValue();
  if (k < 0) return false;
  std::vector<std::pair<uint64_t, Type*>> f;
  flatten(t, 0, f);
  for (auto& x : f) if ((int64_t)x.first >= k) o.push_back({x.first - k, x.second});
  return !o.empty();
}

static string noteStr(const Instruction& I) {
  string s; raw_string_ostream os(s); I.print(os); s = os.str();
  string r; for (char c : s) { if (c == '"' || c == '\\') r += '\''; else if (c == '\n') r += ' '; else r += c; }
  if (r.size() > 200) r.resize(200);
  return r;
}
static string curFn;
static void bad(const Instruction& I) {
  unsupported.insert("in " + curFn + ": " + noteStr(I));
  out << "  vp_unmodelled();\n";
}

static string retZero(Type* t) {
  if (t->isVoidTy()) return "return;";
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) return "{ " + ty(t) + " z; return z; }";
  return "return 0;";
}

static string sx(const Value* v) { return "(" + ityS(bw(v->getType())) + ")" + val(v); }
static string promo(unsigned w) { return w < 32 && w > 1 ? "(vp_u32)" : ""; }

static string binop(unsigned op, Type* t, const string& a, const string& b, const Instruction& I) {
  if (t->isFloatingPointTy()) {
    switch (op) {
      case Instruction::FAdd: return "(" + a + "+" + b + ")";
      case Instruction::FSub: return "(" + a + "-" + b + ")";
      case Instruction::FMul: return "(" + a + "*" + b + ")";
      case Instruction::FDiv: return "(" + a + "/" + b + ")";
      case Instruction::FRem: return t->isFloatTy() ? "vp_fmodf(" + a + "," + b + ")" : "vp_fmod(" + a + "," + b + ")";
    }
    return "";
  }
  unsigned w = bw(t);
  string U = ityU(w), S = ityS(w), p = (w < 32 && w > 1 && (w == 8 || w == 16)) ? "(vp_u32)" : "";
  auto c = [&](const string& e) { return "((" + U + ")(" + e + "))"; };
  if (w == 1) {
    switch (op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Xor: return "((vp_b)(" + a + "!=" + b + "))";
      case Instruction::Mul: case Instruction::And: return "((vp_b)(" + a + "&&" + b + "))";
      case Instruction::Or: return "((vp_b)(" + a + "||" + b + "))";
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return a;
      case Instruction::UDiv: case Instruction::SDiv: return a;
      default: return "0";
    }
  }
  switch (op) {
    case Instruction::Add: return c(p + a + "+" + p + b);
    case Instruction::Sub: return c(p + a + "-" + p + b);
    case Instruction::Mul: return c(p + a + "*" + p + b);
    case Instruction::And: return c(a + "&" + b);
    case Instruction::Or: return c(a + "|" + b);
    case Instruction::Xor: return c(a + "^" + b);
    case Instruction::Shl: return c(p + a + "<<" + b);
    case Instruction::LShr: return c(a + ">>" + b);
    case Instruction::AShr: return c("(" + S + ")" + a + ">>" + b);
    case Instruction::UDiv: return c(a + "/" + b);
    case Instruction::URem: return c(a + "%" + b);
    case Instruction::SDiv: return c("(" + S + ")" + a + "/(" + S + ")" + b);
    case Instruction::SRem: return c("(" + S + ")" + a + "%(" + S + ")" + b);
  }
  return "";
}

static bool mayThrow(const CallBase* cb) {
  if (cb->doesNotThrow()) return false;
  const Function* f = cb->getCalledFunction();
  if (f) {
    if (f->isIntrinsic()) return false;
    if (f->getName().starts_with("vp_")) return false;
    if (f->doesNotThrow()) return false;
  }
  return true;
}

static void emitMemcpy(const Value* d, const Value* s, uint64_t n) {
  string D = val(d), S = val(s);
  std::vector<std::pair<uint64_t, Type*>> L, L2;
  auto fits = [&](std::vector<std::pair<uint64_t, Type*>>& l) {
    for (auto& x : l) if (x.first < n && x.first + DL->getTypeStoreSize(x.second) > n) return false;
    return !l.empty();
  };
  bool ok = layoutOf(d, L) && fits(L);
  if (!ok) { L.clear(); ok = layoutOf(s, L) && fits(L); }
  uint64_t pos = 0;
  if (ok) {
    for (auto& x : L) {
      if (x.first >= n) break;
      // padding gaps are skipped
      out << "  *(" << ty(x.second) << "*)(" << D << "+" << x.first << ") = *(" << ty(x.second) << "*)(" << S << "+" << x.first << ");\n";
      pos = x.first + DL->getTypeAllocSize(x.second);
    }
  }
  for (; pos < n;) {
    unsigned k = n - pos >= 8 ? 8 : n - pos >= 4 ? 4 : n - pos >= 2 ? 2 : 1;
    string t = ityU(k * 8);
    if (ok) { k = 1; t = "vp_u8"; }
    if (n > 512 && !ok) { out << "  vp_memcpy(" << D << "," << S << "," << n << ");\n"; return; }
    out << "  *(" << t << "*)(" << D << "+" << pos << ") = *(" << t << "*)(" << S << "+" << pos << ");\n";
    pos += k;
  }
}

static void emitCall(const CallBase* cb) {
  const CallBase& I = *cb;
  const Value* cv = cb->getCalledOperand()->stripPointerCasts();
  if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  const Function* f = dyn_cast<Function>(cv);
  string lhs = cb->getType()->isVoidTy() ? "" : val(cb) + " = ";
  auto A = [&](unsigned i) { return val(cb->getArgOperand(i)); };
  if (f && f->isIntrinsic()) {
    Type* t = cb->getType();
    switch (f->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::assume:
      case Intrinsic::prefetch: case Intrinsic::dbg_label:
        if (!t->isVoidTy()) out << "  " << lhs << "0;\n";
        return;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: out << "  " << lhs << A(0) << ";\n"; return;
      case Intrinsic::is_constant: out << "  " << lhs << "0;\n"; return;
      case Intrinsic::objectsize: out << "  " << lhs << "(" << ty(t) << ")-1;\n"; return;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
        out << "  vp_ubtrap(" << (f->getIntrinsicID() == Intrinsic::ubsantrap ? A(0) : "255") << ");\n"; return;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        auto* n = dyn_cast<ConstantInt>(cb->getArgOperand(2));
        if (n && f->getIntrinsicID() != Intrinsic::memmove) { emitMemcpy(cb->getArgOperand(0), cb->getArgOperand(1), n->getZExtValue()); return; }
        if (n) { uint64_t k = n->getZExtValue(); // memmove: read all, then write all
          if (k <= 64) { out << "  { "; for (uint64_t i = 0; i < k;) { unsigned s = k - i >= 8 ? 8 : k - i >= 4 ? 4 : k - i >= 2 ? 2 : 1; out << ityU(s * 8) << " m" << i << " = *(" << ityU(s * 8) << "*)(" << A(1) << "+" << i << "); "; i += s; }
            for (uint64_t i = 0; i < k;) { unsigned s = k - i >= 8 ? 8 : k - i >= 4 ? 4 : k - i >= 2 ? 2 : 1; out << "*(" << ityU(s * 8) << "*)(" << A(0) << "+" << i << ") = m" << i << "; "; i += s; }
            out << "}\n"; return; } }
        out << "  " << (f->getIntrinsicID() == Intrinsic::memmove ? "vp_memmove(" : "vp_memcpy(") << A(0) << "," << A(1) << "," << A(2) << ");\n"; return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        auto* n = dyn_cast<ConstantInt>(cb->getArgOperand(2));
        auto* b = dyn_cast<ConstantInt>(cb->getArgOperand(1));
        if (n && b) {
          uint64_t N = n->getZExtValue(), pos = 0; uint8_t bv = b->getZExtValue();
          std::vector<std::pair<uint64_t, Type*>> L;
          bool ok = layoutOf(cb->getArgOperand(0), L);
          for (auto& x : L) if (x.first < N && x.first + DL->getTypeStoreSize(x.second) > N) ok = false;
          for (auto& x : L) if (!(x.second->isIntegerTy() || (bv == 0 && (x.second->isPointerTy() || x.second->isFloatingPointTy())))) ok = false;
          if (ok) for (auto& x : L) {
            if (x.first >= N) break;
            if (x.second->isIntegerTy()) { unsigned w = bw(x.second); APInt v(w, 0); for (unsigned i = 0; i < (w + 7) / 8; i++) { APInt q(w, w < 8 ? (bv & 1) : bv); v |= q.shl(8 * i < w ? 8 * i : 0); }
              out << "  *(" << ty(x.second) << "*)(" << A(0) << "+" << x.first << ") = " << hexInt(v) << ";\n"; }
            else out << "  *(" << ty(x.second) << "*)(" << A(0) << "+" << x.first << ") = 0;\n";
            pos = x.first + DL->getTypeAllocSize(x.second);
          }
          if (N - pos <= 256) {
            for (; pos < N; pos++) out << "  *(vp_u8*)(" << A(0) << "+" << pos << ") = " << (unsigned)bv << ";\n";
            return;
          }
        }
        out << "  vp_memset(" << A(0) << "," << A(1) << "," << A(2) << ");\n"; return;
      }
      case Intrinsic::umin: out << "  " << lhs << "(" << A(0) << "<" << A(1) << "?" << A(0) << ":" << A(1) << ");\n"; return;
      case Intrinsic::umax: out << "  " << lhs << "(" << A(0) << ">" << A(1) << "?" << A(0) << ":" << A(1) << ");\n"; return;
      case Intrinsic::smin: out << "  " << lhs << "(" << sx(cb->getArgOperand(0)) << "<" << sx(cb->getArgOperand(1)) << "?" << A(0) << ":" << A(1) << ");\n"; return;
      case Intrinsic::smax: out << "  " << lhs << "(" << sx(cb->getArgOperand(0)) << ">" << sx(cb->getArgOperand(1)) << "?" << A(0) << ":" << A(1) << ");\n"; return;
      case Intrinsic::abs: out << "  " << lhs << "(" << sx(cb->getArgOperand(0)) << "<0?(" << ty(t) << ")(0u-" << A(0) << "):" << A(0) << ");\n"; return;
      case Intrinsic::bswap: out << "  " << lhs << "vp_bswap" << bw(t) << "(" << A(0) << ");\n"; return;
      case Intrinsic::bitreverse: out << "  " << lhs << "vp_bitrev" << bw(t) << "(" << A(0) << ");\n"; return;
      case Intrinsic::ctpop: out << "  " << lhs << "vp_ctpop" << bw(t) << "(" << A(0) << ");\n"; return;
      case Intrinsic::ctlz: out << "  " << lhs << "vp_ctlz" << bw(t) << "(" << A(0) << ");\n"; return;
      case Intrinsic::cttz: out << "  " << lhs << "vp_cttz" << bw(t) << "(" << A(0) << ");\n"; return;
      case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = bw(t); bool l = f->getIntrinsicID() == Intrinsic::fshl;
        string k = "(" + A(2) + "%" + std::to_string(w) + "u)";
        string P = (w == 8 || w == 16) ? "(vp_u32)" : "";
        string ws = "((" + ty(t) + ")" + std::to_string(w) + ")";
        if (l) out << "  " << lhs << "(" << k << "==0?" << A(0) << ":(" << ty(t) << ")((" << P << A(0) << "<<" << k << ")|(" << A(1) << ">>(" << ws << "-" << k << "))));\n";
        else out << "  " << lhs << "(" << k << "==0?" << A(1) << ":(" << ty(t) << ")((" << P << A(0) << "<<(" << ws << "-" << k << "))|(" << A(1) << ">>" << k << ")));\n";
        return;
      }
      case Intrinsic::uadd_sat: out << "  " << lhs << "((" << ty(t) << ")(" << A(0) << "+" << A(1) << ")<" << A(0) << "?(" << ty(t) << ")-1:(" << ty(t) << ")(" << A(0) << "+" << A(1) << "));\n"; return;
      case Intrinsic::usub_sat: out << "  " << lhs << "(" << A(0) << "<" << A(1) << "?(" << ty(t) << ")0:(" << ty(t) << ")(" << A(0) << "-" << A(1) << "));\n"; return;
      case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        unsigned w = bw(t); string S = ityS(w), W = ityS(2 * w), lim = "((" + W + ")1<<" + std::to_string(w - 1) + ")";
        out << "  { " << W << " m = (" << W << ")(" << S << ")" << A(0) << (f->getIntrinsicID() == Intrinsic::ssub_sat ? "-" : "+") << "(" << W << ")(" << S << ")" << A(1) << "; " << lhs << "(" << ty(t) << ")(m<-" << lim << "?-" << lim << ":m>=" << lim << "?" << lim << "-1:m); }\n"; return;
      }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        Type* et = cb->getArgOperand(0)->getType(); unsigned w = bw(et);
        auto id = f->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        string o = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? "+" : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? "-" : "*";
        string X = val(cb), U = ityU(w), S = ityS(w);
        string a = A(0), b = A(1);
        if (o == "+" && sg) out << "  " << X << ".f0=(" << U << ")(" << a << "+" << b << "); " << X << ".f1=(vp_b)(((((" << a << "^" << X << ".f0)&(" << b << "^" << X << ".f0)))>>" << (w - 1) << ")&1);\n";
        else if (o == "-" && sg) out << "  " << X << ".f0=(" << U << ")(" << a << "-" << b << "); " << X << ".f1=(vp_b)(((((" << a << "^" << b << ")&(" << a << "^" << X << ".f0)))>>" << (w - 1) << ")&1);\n";
        else if (o == "+") out << "  " << X << ".f0=(" << U << ")(" << a << "+" << b << "); " << X << ".f1=(vp_b)(" << X << ".f0<" << a << ");\n";
        else if (o == "-") out << "  " << X << ".f0=(" << U << ")(" << a << "-" << b << "); " << X << ".f1=(vp_b)(" << a << "<" << b << ");\n";
        else {
          unsigned w2 = 2 * w; string T2 = sg ? ityS(w2) : ityU(w2);
          string ca = sg ? "(" + T2 + ")(" + S + ")" + a : "(" + T2 + ")" + a, c2 = sg ? "(" + T2 + ")(" + S + ")" + b : "(" + T2 + ")" + b;
          out << "  { " << T2 << " m = " << ca << "*" << c2 << "; " << X << ".f0=(" << U << ")m; " << X << ".f1=(vp_b)(m!=(" << T2 << ")" << (sg ? "(" + S + ")" : "") << X << ".f0); }\n";
        }
        return;
      }
      case Intrinsic::fabs: out << "  " << lhs << (t->isFloatTy() ? "vp_fabsf(" : t->isDoubleTy() ? "vp_fabs(" : "vp_fabsl(") << A(0) << ");\n"; return;
      case Intrinsic::copysign: out << "  " << lhs << (t->isFloatTy() ? "vp_copysignf(" : "vp_copysign(") << A(0) << "," << A(1) << ");\n"; return;
      case Intrinsic::sqrt: out << "  " << lhs << (t->isFloatTy() ? "vp_sqrtf(" : "vp_sqrt(") << A(0) << ");\n"; return;
      case Intrinsic::fma: out << "  " << lhs << (t->isFloatTy() ? "vp_fmaf(" : "vp_fma(") << A(0) << "," << A(1) << "," << A(2) << ");\n"; return;
      case Intrinsic::fmuladd: out << "  " << lhs << "(" << A(0) << "*" << A(1) << "+" << A(2) << ");\n"; return;
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven: {
        const char* nm = ""; switch (f->getIntrinsicID()) { case Intrinsic::floor: nm = "floor"; break; case Intrinsic::ceil: nm = "ceil"; break; case Intrinsic::trunc: nm = "trunc"; break; case Intrinsic::round: nm = "round"; break; default: nm = "rint"; }
        out << "  " << lhs << "vp_" << nm << (t->isFloatTy() ? "f(" : "(") << A(0) << ");\n"; return;
      }
      case Intrinsic::minnum: case Intrinsic::minimum: out << "  " << lhs << (t->isFloatTy() ? "vp_fminf(" : "vp_fmin(") << A(0) << "," << A(1) << ");\n"; return;
      case Intrinsic::maxnum: case Intrinsic::maximum: out << "  " << lhs << (t->isFloatTy() ? "vp_fmaxf(" : "vp_fmax(") << A(0) << "," << A(1) << ");\n"; return;
      case Intrinsic::is_fpclass: out << "  " << lhs << (cb->getArgOperand(0)->getType()->isFloatTy() ? "vp_fpclassf(" : "vp_fpclass(") << A(0) << "," << A(1) << ");\n"; return;
      case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: break;
      case Intrinsic::eh_typeid_for: out << "  " << lhs << tiId(cb->getArgOperand(0)) << ";\n"; return;
      default: break;
    }
    bad(I);
    return;
  }
  if (f) {
    StringRef n = f->getName();
    if (n == "vp_assert") {
      auto* c = dyn_cast<ConstantInt>(cb->getArgOperand(1));
      out << "  __CPROVER_assert(" << A(0) << ", \"VP:" << (c ? std::to_string(c->getZExtValue()) : string("?")) << "\");\n"; return; }
    if (n == "vp_assume") { out << "  __CPROVER_assume(" << A(0) << ");\n"; return; }
    if (n == "__cxa_throw") { out << "  vp_throw(" << A(0) << "," << tiId(cb->getArgOperand(1)) << ");\n"; }
    else {
      string args;
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        args += (i ? "," : "") + A(i);
      }
      if (f->isDeclaration() && !n.starts_with("vp_")) externs.insert(n.str());
      out << "  " << lhs << gname(f) << "(" << args << ");\n";
    }
  } else {
    if (isa<InlineAsm>(cb->getCalledOperand())) { bad(I); return; }
    string args, sig;
    for (unsigned i = 0; i < cb->arg_size(); i++) { args += (i ? "," : "") + A(i); sig += (i ? "," : "") + ty(cb->getArgOperand(i)->getType()); }
    out << "  " << lhs << "((" << ty(cb->getType()) << "(*)(" << (sig.empty() ? "void" : sig) << "))" << val(cb->getCalledOperand()) << ")(" << args << ");\n";
  }
}

static string blockLabel(const BasicBlock* b, std::map<const BasicBlock*, int>& ids) { return "B" + std::to_string(ids[b]); }

static void emitEdge(const BasicBlock* from, const BasicBlock* to, std::map<const BasicBlock*, int>& ids) {
  std::vector<const PHINode*> ph;
  for (auto& p : to->phis()) ph.push_back(&p);
  std::set<const Value*> phset(ph.begin(), ph.end());
  bool conflict = false;
  for (auto* p : ph) { auto* iv = p->getIncomingValueForBlock(from); if (iv != p && phset.count(iv)) conflict = true; }
  if (ph.size() == 1) conflict = false;
  if (conflict) {
    out << " {";
    int k = 0;
    for (auto* p : ph) out << " " << ty(p->getType()) << " t" << k++ << " = " << val(p->getIncomingValueForBlock(from)) << ";";
    k = 0;
    for (auto* p : ph) out << " " << val(p) << " = t" << k++ << ";";
    out << " }";
  } else for (auto* p : ph) {
    auto* iv = p->getIncomingValueForBlock(from);
    if (isa<UndefValue>(iv) ) continue;
    if (iv != p) out << " " << val(p) << " = " << val(iv) << ";";
  }
  out << " goto " << blockLabel(to, ids) << ";";
}

static string fsig(const Function& f, bool names) {
  string s = ty(f.getReturnType()) + " " + gname(&f) + "(";
  unsigned i = 0;
  for (auto& a : f.args()) {
    s += (i ? ", " : "") + ty(a.getType());
    if (names) s += " " + val(&a);
    i++;
  }
  if (f.isVarArg()) s += i ? ", ..." : "";
  if (!i) s += "void";
  return s + ")";
}

static string cmpExpr(CmpInst::Predicate p, const Value* a, const Value* b) {
  string x = val(a), y = val(b);
  Type* t = a->getType();
  if (t->isPointerTy()) {
    switch (p) {
      case CmpInst::ICMP_EQ: return x + "==" + y;
      case CmpInst::ICMP_NE: return x + "!=" + y;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return x + "<" + y;
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return x + "<=" + y;
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return x + ">" + y;
      default: return x + ">=" + y;
    }
  }
  if (t->isIntegerTy()) {
    bool sg = CmpInst::isSigned(p);
    if (sg) { x = sx(a); y = sx(b); }
    switch (p) {
      case CmpInst::ICMP_EQ: return x + "==" + y;
      case CmpInst::ICMP_NE: return x + "!=" + y;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return x + "<" + y;
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return x + "<=" + y;
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return x + ">" + y;
      default: return x + ">=" + y;
    }
  }
  switch (p) {
    case CmpInst::FCMP_FALSE: return "0";
    case CmpInst::FCMP_TRUE: return "1";
    case CmpInst::FCMP_OEQ: return x + "==" + y;
    case CmpInst::FCMP_OGT: return x + ">" + y;
    case CmpInst::FCMP_OGE: return x + ">=" + y;
    case CmpInst::FCMP_OLT: return x + "<" + y;
    case CmpInst::FCMP_OLE: return x + "<=" + y;
    case CmpInst::FCMP_ONE: return x + "<" + y + "||" + x + ">" + y;
    case CmpInst::FCMP_ORD: return x + "==" + x + "&&" + y + "==" + y;
    case CmpInst::FCMP_UNO: return x + "!=" + x + "||" + y + "!=" + y;
    case CmpInst::FCMP_UEQ: return "!(" + x + "<" + y + "||" + x + ">" + y + ")";
    case CmpInst::FCMP_UGT: return "!(" + x + "<=" + y + ")";
    case CmpInst::FCMP_UGE: return "!(" + x + "<" + y + ")";
    case CmpInst::FCMP_ULT: return "!(" + x + ">=" + y + ")";
    case CmpInst::FCMP_ULE: return "!(" + x + ">" + y + ")";
    case CmpInst::FCMP_UNE: return x + "!=" + y;
    default: return "0";
  }
}

static void emitFunction(Function& f) {
  FnCtx ctx; F = &ctx;
  curFn = f.getName().str();
  std::ostringstream saved; saved << out.str(); out.str(""); out.clear();
  string sig = fsig(f, true);
  std::map<const BasicBlock*, int> ids;
  ReversePostOrderTraversal<Function*> rpo(&f);
  std::vector<BasicBlock*> order(rpo.begin(), rpo.end());
  int k = 0;
  for (auto* b : order) ids[b] = k++;
  std::ostringstream localDecls;
  // declare everything
  for (auto& a : f.args()) val(&a);
  for (auto& a : f.args()) if (a.hasByValAttr()) {
    Type* t = a.getParamByValType();
    localDecls << "  " << ty(t) << " bv_" << val(&a) << " = *(" << ty(t) << "*)" << val(&a) << "; " << val(&a) << " = (vp_p)&bv_" << val(&a) << ";\n";
  }
  for (auto* b : order) for (auto& I : *b) {
    if (auto* a = dyn_cast<AllocaInst>(&I)) {
      string n = val(&I);
      Type* t = a->getAllocatedType();
      if (a->isArrayAllocation()) {
        auto* c = dyn_cast<ConstantInt>(a->getArraySize());
        if (!c) { unsupported.insert("dynamic alloca"); continue; }
        localDecls << "  " << ty(t) << " m_" << n << "[" << c->getZExtValue() << "];\n";
      } else localDecls << "  " << ty(t) << " m_" << n << ";\n";
      localDecls << "  vp_p " << n << ";\n";
      continue;
    }
    if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) localDecls << "  " << ty(I.getType()) << " " << val(&I) << ";\n";
  }
  for (auto* b : order) {
    out << " " << blockLabel(b, ids) << ":;\n";
    for (auto& I : *b) {
      if (isa<PHINode>(I)) continue;
      string L = I.getType()->isVoidTy() || I.getType()->isTokenTy() ? "" : val(&I);
      Type* t = I.getType();
      if (isa<AllocaInst>(I)) { out << "  " << L << " = (vp_p)&m_" << L << ";\n"; continue; }
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
          for (unsigned i = 0; i < vt->getNumElements(); i++) {
            string q = ".a[" + std::to_string(i) + "]";
            out << "  " << L << q << " = " << binop(bo->getOpcode(), vt->getElementType(), val(bo->getOperand(0)) + q, val(bo->getOperand(1)) + q, I) << ";\n";
          }
          continue;
        }
        // ptr difference
        if (bo->getOpcode() == Instruction::Sub && bw(t) == 64) {
          auto* p0 = dyn_cast<PtrToIntOperator>(bo->getOperand(0));
          auto* p1 = dyn_cast<PtrToIntOperator>(bo->getOperand(1));
          if (p0 && p1) { out << "  " << L << " = (vp_u64)(" << val(p0->getPointerOperand()) << "-" << val(p1->getPointerOperand()) << ");\n"; continue; }
        }
        out << "  " << L << " = " << binop(bo->getOpcode(), t, val(bo->getOperand(0)), val(bo->getOperand(1)), I) << ";\n";
        continue;
      }
      if (auto* u = dyn_cast<UnaryOperator>(&I)) { // fneg
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
          for (unsigned i = 0; i < vt->getNumElements(); i++) out << "  " << L << ".a[" << i << "] = -" << val(u->getOperand(0)) << ".a[" << i << "];\n";
          continue;
        }
        out << "  " << L << " = -" << val(u->getOperand(0)) << ";\n"; continue;
      }
      if (auto* c = dyn_cast<CmpInst>(&I)) {
        if (t->isVectorTy()) { bad(I); continue; }
        out << "  " << L << " = (vp_b)(" << cmpExpr(c->getPredicate(), c->getOperand(0), c->getOperand(1)) << ");\n"; continue;
      }
      if (auto* c = dyn_cast<CastInst>(&I)) {
        const Value* o = c->getOperand(0);
        Type* s = o->getType();
        if (t->isVectorTy() || s->isVectorTy()) {
          if (c->getOpcode() == Instruction::BitCast) { out << "  { " << ty(s) << " z = " << val(o) << "; " << L << " = *(" << ty(t) << "*)&z; }\n"; continue; }
          if (t->isVectorTy() && s->isVectorTy()) {
            auto* dt = cast<FixedVectorType>(t);
            for (unsigned i = 0; i < dt->getNumElements(); i++) out << "  " << L << ".a[" << i << "] = (" << ty(dt->getElementType()) << ")" << (c->getOpcode()==Instruction::SExt||c->getOpcode()==Instruction::SIToFP? "(" + ityS(bw(s->getScalarType())) + ")" : string()) << val(o) << ".a[" << i << "];\n";
            continue;
          }
          bad(I); continue;
        }
        switch (c->getOpcode()) {
          case Instruction::Trunc:
            if (bw(t) == 1) out << "  " << L << " = (vp_b)(" << val(o) << "&1);\n";
            else out << "  " << L << " = (" << ty(t) << ")" << val(o) << ";\n"; break;
          case Instruction::ZExt: out << "  " << L << " = (" << ty(t) << ")" << val(o) << ";\n"; break;
          case Instruction::SExt:
            if (bw(s) == 1) out << "  " << L << " = " << val(o) << "?(" << ty(t) << ")-1:(" << ty(t) << ")0;\n";
            else out << "  " << L << " = (" << ty(t) << ")(" << ityS(bw(t)) << ")" << sx(o) << ";\n"; break;
          case Instruction::PtrToInt: out << "  " << L << " = (" << ty(t) << ")(vp_u64)" << val(o) << ";\n"; break;
          case Instruction::IntToPtr: out << "  " << L << " = (vp_p)(vp_u64)" << val(o) << ";\n"; break;
          case Instruction::FPTrunc: case Instruction::FPExt: out << "  " << L << " = (" << ty(t) << ")" << val(o) << ";\n"; break;
          case Instruction::UIToFP: out << "  " << L << " = (" << ty(t) << ")" << val(o) << ";\n"; break;
          case Instruction::SIToFP: out << "  " << L << " = (" << ty(t) << ")" << sx(o) << ";\n"; break;
          case Instruction::FPToUI: out << "  " << L << " = (" << ty(t) << ")" << val(o) << ";\n"; break;
          case Instruction::FPToSI: out << "  " << L << " = (" << ty(t) << ")(" << ityS(bw(t)) << ")" << val(o) << ";\n"; break;
          case Instruction::BitCast:
            if (t->isPointerTy()) out << "  " << L << " = " << val(o) << ";\n";
            else if (s->isIntegerTy() || t->isIntegerTy() || s->isFloatingPointTy()) {
              string sn = ty(s), tn = ty(t); out << "  { " << sn << " z = " << val(o) << "; " << L << " = *(" << tn << "*)&z; }\n";
            } else bad(I);
            break;
          default: bad(I);
        }
        continue;
      }
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { if (t->isVectorTy()) { bad(I); continue; } out << "  " << L << " = " << gepExpr(cast<GEPOperator>(g)) << ";\n"; continue; }
      if (auto* l = dyn_cast<LoadInst>(&I)) {
        if (t->isIntegerTy(1)) out << "  " << L << " = (vp_b)(*(vp_u8*)" << val(l->getPointerOperand()) << "&1);\n";
        else out << "  " << L << " = *(" << ty(t) << "*)" << val(l->getPointerOperand()) << ";\n"; continue; }
      if (auto* s = dyn_cast<StoreInst>(&I)) {
        Type* vt = s->getValueOperand()->getType();
        if (isa<UndefValue>(s->getValueOperand())) continue;
        if (vt->isIntegerTy(1)) out << "  *(vp_u8*)" << val(s->getPointerOperand()) << " = (vp_u8)" << val(s->getValueOperand()) << ";\n";
        else out << "  *(" << ty(vt) << "*)" << val(s->getPointerOperand()) << " = " << val(s->getValueOperand()) << ";\n"; continue; }
      if (auto* s = dyn_cast<SelectInst>(&I)) {
        if (s->getCondition()->getType()->isVectorTy()) { bad(I); continue; }
        out << "  " << L << " = " << val(s->getCondition()) << "?" << val(s->getTrueValue()) << ":" << val(s->getFalseValue()) << ";\n"; continue; }
      if (isa<FreezeInst>(I)) { out << "  " << L << " = " << val(I.getOperand(0)) << ";\n"; continue; }
      if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        string e = val(ev->getAggregateOperand()); Type* c = ev->getAggregateOperand()->getType();
        for (unsigned i : ev->indices()) { if (auto* st = dyn_cast<StructType>(c)) { e += ".f" + std::to_string(i); c = st->getElementType(i); } else { e += ".a[" + std::to_string(i) + "]"; c = c->getArrayElementType(); } }
        out << "  " << L << " = " << e << ";\n"; continue; }
      if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        string e = L; Type* c = t;
        if (!isa<UndefValue>(iv->getAggregateOperand())) out << "  " << L << " = " << val(iv->getAggregateOperand()) << ";\n";
        for (unsigned i : iv->indices()) { if (auto* st = dyn_cast<StructType>(c)) { e += ".f" + std::to_string(i); c = st->getElementType(i); } else { e += ".a[" + std::to_string(i) + "]"; c = c->getArrayElementType(); } }
        out << "  " << e << " = " << val(iv->getInsertedValueOperand()) << ";\n"; continue; }
      if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { out << "  " << L << " = " << val(ee->getVectorOperand()) << ".a[" << val(ee->getIndexOperand()) << "];\n"; continue; }
      if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
        if (!isa<UndefValue>(ie->getOperand(0))) out << "  " << L << " = " << val(ie->getOperand(0)) << ";\n";
        out << "  " << L << ".a[" << val(ie->getOperand(2)) << "] = " << val(ie->getOperand(1)) << ";\n"; continue; }
      if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
        unsigned n0 = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
        auto m = sv->getShuffleMask();
        for (unsigned i = 0; i < m.size(); i++) if (m[i] >= 0) { const Value* o = sv->getOperand(m[i] < (int)n0 ? 0 : 1); if (!isa<UndefValue>(o)) out << "  " << L << ".a[" << i << "] = " << val(o) << ".a[" << (m[i] < (int)n0 ? m[i] : m[i] - n0) << "];\n"; }
        continue; }
      if (auto* iv = dyn_cast<InvokeInst>(&I)) {
        emitCall(iv);
        out << "  if (vp_exc) {"; emitEdge(b, iv->getUnwindDest(), ids); out << " } else {"; emitEdge(b, iv->getNormalDest(), ids); out << " }\n";
        continue;
      }
      if (auto* c = dyn_cast<CallInst>(&I)) {
        emitCall(c);
        if (mayThrow(c)) out << "  if (vp_exc) " << retZero(f.getReturnType()) << "\n";
        continue;
      }
      if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
        out << "  vp_exc = 0; " << L << ".f0 = vp_exc_obj; " << L << ".f1 = 0;\n";
        string cond; bool any = lp->isCleanup();
        out << "  ";
        for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) {
          int id = tiId(lp->getClause(i));
          if (id == 0) { any = true; out << "if (" << L << ".f1 == 0) " << L << ".f1 = 0x7fffffff; "; }
          else out << "if (" << L << ".f1 == 0 && vp_ti_match(vp_exc_ti," << id << ")) " << L << ".f1 = " << id << "; ";
        }
        if (!any) out << "if (" << L << ".f1 == 0) { vp_exc = 1; " << retZero(f.getReturnType()) << " }";
        out << "\n";
        continue;
      }
      if (isa<ResumeInst>(I)) { out << "  vp_exc = 1; " << retZero(f.getReturnType()) << "\n"; continue; }
      if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { out << " "; emitEdge(b, br->getSuccessor(0), ids); out << "\n"; }
        else { out << "  if (" << val(br->getCondition()) << ") {"; emitEdge(b, br->getSuccessor(0), ids); out << " } else {"; emitEdge(b, br->getSuccessor(1), ids); out << " }\n"; }
        continue;
      }
      if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        // group cases with the same successor
        std::map<const BasicBlock*, string> conds; std::vector<const BasicBlock*> ord;
        for (auto& cs : sw->cases()) {
          auto* s = cs.getCaseSuccessor();
          if (!conds.count(s)) ord.push_back(s);
          string& c = conds[s];
          c += (c.empty() ? "" : "||") + val(sw->getCondition()) + "==" + hexInt(cs.getCaseValue()->getValue());
        }
        for (auto* s : ord) { out << "  if (" << conds[s] << ") {"; emitEdge(b, s, ids); out << " }\n"; }
        out << " "; emitEdge(b, sw->getDefaultDest(), ids); out << "\n";
        continue;
      }
      if (auto* r = dyn_cast<ReturnInst>(&I)) {
        if (!r->getReturnValue()) out << "  return;\n";
        else if (isa<UndefValue>(r->getReturnValue())) out << "  " << retZero(f.getReturnType()) << "\n";
        else out << "  return " << val(r->getReturnValue()) << ";\n";
        continue;
      }
      if (isa<UnreachableInst>(I)) {
        // after a throwing/trapping call: never reached
        out << "  vp_unreachable();\n  " << retZero(f.getReturnType()) << "\n"; continue; }
      bad(I);
    }
  }
  string body = out.str();
  out.str(""); out.clear();
  out << saved.str() << sig << " {\n" << localDecls.str() << "  goto B0;\n" << body << "}\n\n";
  F = nullptr;
}

static void process(Module* M, Function* H, const string& outdir) {
  typeDefs.str(""); typeDefs.clear(); typeNames.clear(); gnames.clear(); usedNames.clear(); uniq = 0; unsupported.clear(); seenW.clear();
  out.str(""); out.clear(); externs.clear(); tiIds.clear(); undefUsed.clear();
  FnCtx g; F = &g;
  // functions reachable from h_* entry points
  std::set<Function*> reach; std::vector<Function*> wl;
  std::set<GlobalVariable*> greach;
  std::set<const Constant*> cseen;
  std::function<void(const Constant*)> visitC = [&](const Constant* c) {
    if (!cseen.insert(c).second) return;
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { visitC(ga->getAliasee()); return; }
    if (auto* fn = dyn_cast<Function>(c)) { auto* ff = const_cast<Function*>(fn); if (reach.insert(ff).second) wl.push_back(ff); return; }
    if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto* gg = const_cast<GlobalVariable*>(gv); if (greach.insert(gg).second && gg->hasInitializer()) visitC(gg->getInitializer()); return; }
    for (auto& o : c->operands()) if (auto* k = dyn_cast<Constant>(&o)) visitC(k);
  };
  visitC(H);
  while (!wl.empty()) {
    Function* f = wl.back(); wl.pop_back();
    if (f->isDeclaration()) continue;
    for (auto& b : *f) for (auto& I : b) {
      if (isa<LandingPadInst>(I)) continue;
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        auto* cf = cb->getCalledFunction();
        if (cf && (cf->getName() == "__cxa_throw" || cf->getIntrinsicID() == Intrinsic::eh_typeid_for)) {
          if (cf->getName() == "__cxa_throw") visitC(cast<Constant>(cf)); 
          if (cf->getName() == "__cxa_throw") { if (auto* k = dyn_cast<Constant>(cb->getArgOperand(0))) visitC(k); }
          continue;
        }
      }
      for (auto& o : I.operands()) if (auto* k = dyn_cast<Constant>(&o)) visitC(k);
    }
  }
  std::ostringstream gl, protos;
  for (auto& f : *M) if (reach.count(&f) && !f.isIntrinsic()) {
    if (f.getName().starts_with("vp_") && f.isDeclaration()) { gname(&f); continue; }
    if (f.getName() == "__cxa_throw") continue;
    protos << fsig(f, false) << ";\n";
  }
  for (auto& v : M->globals()) if (greach.count(&v)) {
    if (!v.hasInitializer()) { protos << "vp_u8 " << gname(&v) << ";\n"; continue; }
    protos << "static " << ty(v.getValueType()) << " " << gname(&v) << ";\n";
  }
  for (auto& v : M->globals()) if (greach.count(&v) && v.hasInitializer()) {
    gl << "static " << ty(v.getValueType()) << " " << gname(&v) << " = " << initOf(v.getInitializer()) << ";\n";
  }
  std::map<string,string> fnHash;
  for (auto& f : *M) if (reach.count(&f) && !f.isDeclaration()) emitFunction(f);
  F = &g;
  // externs: models are looked up by name in the prelude through VP_HAVE_ macros
  std::ostringstream ex;
  for (auto& f : *M) if (reach.count(&f) && f.isDeclaration() && !f.isIntrinsic() && !f.getName().starts_with("vp_") && f.getName() != "__cxa_throw") {
    string n = f.getName().str();
    string body;
    auto has = [&](const char* s) { return n.find(s) != string::npos; };
    FnCtx c2; F = &c2;
    string sig = fsig(f, true);
    if (n == "__cxa_allocate_exception") body = "return (vp_p)vp_exc_buf;";
    else if (n == "__cxa_begin_catch") body = "return a0;";
    else if (n == "__cxa_end_catch" || n == "__cxa_free_exception") body = "";
    else if (n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "abort") body = "vp_terminate();";
    else if (n.rfind("_ZSt", 0) == 0 && has("__throw_")) { body = "vp_throw((vp_p)vp_exc_buf, " + std::to_string(tiIds.count("std:" + n) ? tiIds["std:" + n] : (tiIds["std:" + n] = tiIds.size() + 1)) + ");"; }
    else if ((has("_errorC") || has("out_of_rangeC") || has("invalid_argumentC") || has("exceptionC") || has("out_of_rangeD") || has("_errorD") || has("invalid_argumentD") || has("exceptionD") || has("bad_castC") || has("bad_castD")) && f.getReturnType()->isVoidTy()) body = "";
    else if (n == "memcmp" || n == "bcmp") body = "return vp_memcmp(a0,a1,a2);";
    else if (n == "memcpy") body = "vp_memcpy(a0,a1,a2); return a0;";
    else if (n == "memmove") body = "vp_memmove(a0,a1,a2); return a0;";
    else if (n == "memset") body = "vp_memset(a0,(vp_u8)a1,a2); return a0;";
    else if (n == "memchr") body = "return vp_memchr(a0,a1,a2);";
    else if (n == "strlen") body = "return vp_strlen(a0);";
    else if (n == "__assert_fail") body = "vp_assert_fail();";
    else {
      static const char* fm[] = {"floor","ceil","trunc","round","rint","nearbyint","fabs","sqrt","copysign","fmin","fmax","fmod","floorf","ceilf","truncf","roundf","rintf","nearbyintf","fabsf","sqrtf","copysignf","fminf","fmaxf","fmodf",0};
      bool done = false;
      for (int i = 0; fm[i]; i++) if (n == fm[i]) { body = string("return vp_") + (n.rfind("nearbyint",0)==0 ? (n.back()=='f' ? "rintf" : "rint") : fm[i]) + "(a0" + (f.arg_size() > 1 ? ",a1" : "") + ");"; done = true; }
      if (!done) {
        body = "vp_unmodelled(); " + retZero(f.getReturnType());
        std::cerr << "ll2c: unmodelled external function " << n << "\n";
      }
    }
    ex << sig << " { " << body << " }\n";
  }
  F = &g;
  std::ostringstream ti;
  // type matching: exact id, plus the standard exception hierarchy
  auto base = [&](const string& n) -> string {
    auto h = [&](const char* s) { return n.find(s) != string::npos; };
    if (h("12out_of_range") || h("__throw_out_of_range") || h("16invalid_argument") || h("__throw_invalid_argument") || h("12domain_error") || h("12length_error")|| h("__throw_length_error")) return "logic";
    if (h("11range_error") || h("14overflow_error") || h("__throw_overflow_error") || h("15underflow_error")) return "runtime";
    return "";
  };
  ti << "static int vp_ti_match(int t, int c) {\n  if (t == c) return 1;\n";
  for (auto& a : tiIds) for (auto& b : tiIds) if (a.second != b.second) {
    string A = a.first, B = b.first; bool m = false;
    auto key = [](const string& s) -> string { for (auto* k : {"out_of_range", "invalid_argument", "domain_error", "length_error", "range_error", "overflow_error", "underflow_error", "logic_error", "runtime_error", "bad_cast"}) { string ks = k; size_t p = s.find(ks); if (p != string::npos && (s.rfind("_ZTISt", 0) == 0 || s.rfind("std:", 0) == 0)) { if (ks == "range_error" && 0) continue; return ks; } } return ""; };
    if (!key(A).empty() && key(A) == key(B)) m = true;
    if (B == "_ZTISt9exception") m = true;
    if (B == "_ZTISt11logic_error" && base(A) == "logic") m = true;
    if (B == "_ZTISt13runtime_error" && base(A) == "runtime") m = true;
    if (m) ti << "  if (t == " << a.second << " && c == " << b.second << ") return 1;\n";
  }
  ti << "  return 0;\n}\n";
  std::ostringstream ud;
  for (auto& u : undefUsed) { string t = ty(u.second); ud << "static " << t << " " << u.first.substr(0, u.first.size() - 2) << "(void) { " << t << " z; return z; }\n"; }
  string hn = H->getName().str();
  std::ofstream of(outdir + "/" + hn + ".c");
  of << "#include \"vp_prelude.h\"\n" << typeDefs.str() << ti.str() << ud.str() << protos.str() << gl.str() << ex.str() << out.str();
  of << "void main_" << hn << "(void) { " << gname(H) << "(); __CPROVER_assert(!vp_exc, \"UNCAUGHT\"); __CPROVER_assert(0, \"REACH\"); }\n";
  of << "//FUNCTIONS";
  for (auto& f : *M) if (reach.count(&f) && !f.isDeclaration()) of << " " << f.getName().str();
  of << "\n";
  for (auto& u : unsupported) { of << "//UNSUPPORTED " << u << "\n"; std::cerr << "ll2c: " << hn << ": unsupported " << u << "\n"; }
}

int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("ll2c", errs()); return 2; }
  DL = &M->getDataLayout();
  for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) process(M.get(), &f, argv[2]);
  return 0;
}
