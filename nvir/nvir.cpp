#include "llvm/Analysis/ValueTracking.h"
#include <unordered_set>
// nvir - static value-flow extraction over LLVM IR.
//
// Abstractly interprets entry functions of an (un-optimised) LLVM module: every scalar value is a hash-consed
// term over the entry's arguments and the initial buffer contents, integers that are constant are folded, so that
// loops whose trip count is fixed by the bound sample count are walked, data-dependent branches are joined with
// select terms at their immediate post-dominator.  No input values are chosen and nothing of the program is run:
// the result is, per output element, the expression DAG of the value stored there, plus the complete list of memory
// accesses, calls, and undefined operations met on the way.
//
// usage: nvir IN.bc JOBS OUT.json
// JOBS: one per line: <function> <n-or-'-'> <elem-size> <flags>
//   n binds the last i32 argument of the function.  flags: r = templates relative to the element index.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/IndVarSimplify.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef uint32_t T;   // term id

enum Ty : uint8_t { TI, TF32, TF64, TP };   // integer (width separate), float, double, pointer
struct TypeL { Ty k; uint16_t w; bool operator==(const TypeL &o) const { return k == o.k && w == o.w; } };
static TypeL IntT(unsigned w) { return {TI, (uint16_t)w}; }
static const TypeL F32{TF32, 32}, F64{TF64, 64}, PTR{TP, 64};

enum Op : uint8_t { OCONST, OUNDEF, OARG, OLD, OPTR, OSYM /*generic named op*/ };

struct Node {
  Op op; TypeL ty; uint32_t sym;       // sym: interned name for OSYM
  uint64_t c0; int64_t c1;             // const bits / (obj, off) / arg idx
  std::vector<T> a;
};

struct Unsupported { std::string why; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

// ------------------------------------------------------------------ term table
struct Table {
  std::vector<Node> n;
  std::unordered_multimap<uint64_t, T> idx;
  std::vector<std::string> syms; std::map<std::string, uint32_t> symid;
  uint32_t sym(const std::string &s) { auto it = symid.find(s); if (it != symid.end()) return it->second;
    uint32_t i = syms.size(); syms.push_back(s); symid[s] = i; return i; }
  T put(Node x) {
    uint64_t h = x.op * 1000003u + x.ty.k * 31 + x.ty.w; h = h * 0x9E3779B97F4A7C15ull + x.sym; h ^= h >> 29;
    h = h * 0xBF58476D1CE4E5B9ull + x.c0; h ^= h >> 31; h = h * 0x94D049BB133111EBull + (uint64_t)x.c1;
    for (T t : x.a) { h ^= h >> 30; h = h * 0x9E3779B97F4A7C15ull + t; }
    auto r = idx.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { const Node &y = n[it->second];
      if (y.op == x.op && y.ty == x.ty && y.sym == x.sym && y.c0 == x.c0 && y.c1 == x.c1 && y.a == x.a) return it->second; }
    T id = n.size(); n.push_back(std::move(x)); idx.emplace(h, id); return id;
  }
  T cst(uint64_t bits, TypeL ty) { if (ty.w < 64) bits &= ((1ull << ty.w) - 1); return put({OCONST, ty, 0, bits, 0, {}}); }
  T undef(TypeL ty) { return put({OUNDEF, ty, 0, 0, 0, {}}); }
  T ptr(uint64_t obj, int64_t off) { return put({OPTR, PTR, 0, obj, off, {}}); }
};
static Table TT;
static inline const Node &N(T t) { return TT.n[t]; }
static inline bool isC(T t) { return N(t).op == OCONST; }
static inline uint64_t cv(T t) { return N(t).c0; }
static inline int64_t scv(T t) { unsigned w = N(t).ty.w; uint64_t v = N(t).c0; if (w < 64 && (v >> (w - 1)) & 1) v |= ~((1ull << w) - 1); return (int64_t)v; }
static inline bool isSym(T t, const char *s) { return N(t).op == OSYM && TT.syms[N(t).sym] == s; }

static bool FOOT = false;   // footprint mode: floating-point values are not tracked
static T raw(const std::string &op, TypeL ty, std::vector<T> a, uint64_t c0 = 0) {
  if (FOOT && (ty.k == TF32 || ty.k == TF64)) return TT.put({OARG, ty, 0, 9999, 0, {}});
  return TT.put({OSYM, ty, TT.sym(op), c0, 0, std::move(a)}); }
static T mkSelect(T c, T a, T b);
static T mkBitcast(T a, TypeL ty);
static T mkBin(const std::string &op, T a, T b);
static T mkConcat(T lo, T hi);
static T mkExtract(T x, unsigned off, unsigned w);

static T mkNot(T c) {
  if (isC(c)) return TT.cst(!cv(c), IntT(1));
  if (isSym(c, "not")) return N(c).a[0];
  return raw("not", IntT(1), {c});
}
static T mkSelect(T c, T a, T b) {
  if (a == b) return a;
  if (isC(c)) return (cv(c) & 1) ? a : b;
  if (isSym(c, "not")) return mkSelect(N(c).a[0], b, a);
  TypeL ty = N(a).ty;
  if (ty == IntT(1)) {
    if (isC(a) && isC(b)) return cv(a) ? c : mkNot(c);
  }
  return raw("select", ty, {c, a, b});
}
static APFloat apf(T t) { TypeL ty = N(t).ty; return ty.k == TF32 ? APFloat(APFloat::IEEEsingle(), APInt(32, cv(t))) : APFloat(APFloat::IEEEdouble(), APInt(64, cv(t))); }
static T fromApf(const APFloat &f, TypeL ty) { return TT.cst(f.bitcastToAPInt().getZExtValue(), ty); }

static T mkBitcast(T a, TypeL ty) {
  if (N(a).ty == ty) return a;
  if (isC(a)) return TT.cst(cv(a), ty);
  if (N(a).op == OUNDEF) return TT.undef(ty);
  if (isSym(a, "bitcast") && N(N(a).a[0]).ty == ty) return N(a).a[0];
  if (isSym(a, "bitcast")) return mkBitcast(N(a).a[0], ty);
  if (isSym(a, "select")) { auto x = N(a).a; return mkSelect(x[0], mkBitcast(x[1], ty), mkBitcast(x[2], ty)); }
  return raw("bitcast", ty, {a});
}
static bool bitwise(const std::string &op) { return op == "and" || op == "or" || op == "xor"; }

static T mkBin(const std::string &op, T a, T b) {
  TypeL ty = N(a).ty;
  if (ty.k == TI) {
    unsigned w = ty.w;
    if (isC(a) && isC(b)) {
      APInt x(w, cv(a)), y(w, cv(b)), r(w, 0); bool ok = true;
      if (op == "add") r = x + y; else if (op == "sub") r = x - y; else if (op == "mul") r = x * y;
      else if (op == "and") r = x & y; else if (op == "or") r = x | y; else if (op == "xor") r = x ^ y;
      else if (op == "shl" && y.ult(w)) r = x.shl(y); else if (op == "lshr" && y.ult(w)) r = x.lshr(y); else if (op == "ashr" && y.ult(w)) r = x.ashr(y);
      else if (op == "udiv" && y != 0) r = x.udiv(y); else if (op == "sdiv" && y != 0) r = x.sdiv(y);
      else if (op == "urem" && y != 0) r = x.urem(y); else if (op == "srem" && y != 0) r = x.srem(y);
      else ok = false;
      if (ok) return TT.cst(r.getZExtValue(), ty);
      return TT.undef(ty);
    }
    if (w == 1 && op == "xor" && isC(b)) return cv(b) ? mkNot(a) : a;
    if (w == 1 && op == "xor" && isC(a)) return cv(a) ? mkNot(b) : b;
    if (w == 1 && (op == "and" || op == "or")) {
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (op == "and") return cv(b) ? a : b; else return cv(b) ? b : a; }
      if (a == b) return a;
    }
    if (op == "sub" && a == b) return TT.cst(0, ty);
    // pointer differences
    if (op == "sub" && isSym(a, "p2i") && isSym(b, "p2i")) { T p = N(a).a[0], q = N(b).a[0];
      if (N(p).op == OPTR && N(q).op == OPTR && N(p).c0 == N(q).c0) return TT.cst((uint64_t)(N(p).c1 - N(q).c1), ty); }
    if (bitwise(op)) {
      bool ca = isSym(a, "concat"), cb = isSym(b, "concat");
      if ((ca && (cb || isC(b))) || (cb && isC(a))) {
        unsigned h = w / 2;
        return mkConcat(mkBin(op, mkExtract(a, 0, h), mkExtract(b, 0, h)), mkBin(op, mkExtract(a, h, h), mkExtract(b, h, h)));
      }
      if (isC(a)) std::swap(a, b);        // constants to the right for commutative bit operations
      if (isC(b)) { uint64_t all = w == 64 ? ~0ull : ((1ull << w) - 1), v = cv(b);
        if (op == "and" && v == all) return a; if (op == "and" && v == 0) return b;
        if (op == "or" && v == 0) return a; if (op == "or" && v == all) return b; if (op == "xor" && v == 0) return a; }
    }
    if ((op == "add" || op == "mul") && isC(a)) std::swap(a, b);
    if (op == "add" && isC(b) && cv(b) == 0) return a;
    return raw(op, ty, {a, b});
  }
  // floating point
  if (isC(a) && isC(b)) {
    APFloat x = apf(a), y = apf(b); auto rm = APFloat::rmNearestTiesToEven; bool ok = true;
    if (op == "fadd") x.add(y, rm); else if (op == "fsub") x.subtract(y, rm); else if (op == "fmul") x.multiply(y, rm); else if (op == "fdiv") x.divide(y, rm); else ok = false;
    if (ok) return fromApf(x, ty);
  }
  return raw(op, ty, {a, b});
}
static T mkConcat(T lo, T hi) {
  unsigned w = N(lo).ty.w;
  if (isC(lo) && isC(hi)) return TT.cst(cv(lo) | (cv(hi) << w), IntT(2 * w));
  if (N(lo).op == OUNDEF && N(hi).op == OUNDEF) return TT.undef(IntT(2 * w));
  // concat(extract(x,0,w), extract(x,w,w)) = x
  if (isSym(lo, "extract") && isSym(hi, "extract") && N(lo).a[0] == N(hi).a[0] && N(lo).c0 == 0 && N(hi).c0 == w && N(N(lo).a[0]).ty.w == 2 * w) return N(lo).a[0];
  return raw("concat", IntT(2 * w), {lo, hi});
}
static T mkSext(T a, unsigned w) {
  if (N(a).ty.w == w) return a;
  if (isC(a)) return TT.cst((uint64_t)scv(a), IntT(w));
  if (N(a).op == OUNDEF) return TT.undef(IntT(w));
  return raw("sext", IntT(w), {a});
}
static T mkZext(T a, unsigned w) {
  if (N(a).ty.w == w) return a;
  if (isC(a)) return TT.cst(cv(a), IntT(w));
  if (N(a).op == OUNDEF) return TT.undef(IntT(w));
  return raw("zext", IntT(w), {a});
}
static T mkExtract(T x, unsigned off, unsigned w) {
  unsigned W = N(x).ty.w;
  if (W == w) return x;
  if (N(x).ty.k != TI) return mkExtract(mkBitcast(x, IntT(W)), off, w);
  if (isC(x)) return TT.cst((cv(x) >> off), IntT(w));
  if (N(x).op == OUNDEF) return TT.undef(IntT(w));
  if (isSym(x, "concat")) { unsigned h = W / 2; T l = N(x).a[0], u = N(x).a[1];
    if (off + w <= h) return mkExtract(l, off, w); if (off >= h) return mkExtract(u, off - h, w); }
  if (isSym(x, "and") || isSym(x, "or") || isSym(x, "xor")) { std::string o = TT.syms[N(x).sym]; auto aa = N(x).a; return mkBin(o, mkExtract(aa[0], off, w), mkExtract(aa[1], off, w)); }
  if (isSym(x, "select")) { auto aa = N(x).a; return mkSelect(aa[0], mkExtract(aa[1], off, w), mkExtract(aa[2], off, w)); }
  if (isSym(x, "sext") && N(N(x).a[0]).ty.w == 1) return mkSext(N(x).a[0], w);
  if (isSym(x, "zext")) { T y = N(x).a[0]; if (N(y).ty.w <= off) return TT.cst(0, IntT(w)); if (off == 0 && N(y).ty.w <= w) return mkZext(y, w); }
  if (isSym(x, "extract")) return mkExtract(N(x).a[0], off + N(x).c0, w);
  return raw("extract", IntT(w), {x}, off);
}
static T mkTrunc(T a, unsigned w) { return mkExtract(a, 0, w); }

static T mkICmp(CmpInst::Predicate p, T a, T b) {
  if (isC(a) && isC(b)) { unsigned w = N(a).ty.w; return TT.cst(ICmpInst::compare(APInt(w, cv(a)), APInt(w, cv(b)), p), IntT(1)); }
  if (N(a).op == OPTR && N(b).op == OPTR) {
    if (N(a).c0 == N(b).c0) return TT.cst(ICmpInst::compare(APInt(64, N(a).c1), APInt(64, N(b).c1), p), IntT(1));
    if (p == CmpInst::ICMP_EQ) return TT.cst(0, IntT(1));
    if (p == CmpInst::ICMP_NE) return TT.cst(1, IntT(1));
  }
  if (a == b && N(a).op != OUNDEF) { bool eq = CmpInst::isTrueWhenEqual(p); return TT.cst(eq, IntT(1)); }
  if (p == CmpInst::ICMP_NE && N(a).ty == IntT(1)) { if (isC(b)) return cv(b) ? mkNot(a) : a; }
  if (p == CmpInst::ICMP_EQ && N(a).ty == IntT(1)) { if (isC(b)) return cv(b) ? a : mkNot(a); }
  // normalise: ne -> not eq, greater -> less
  switch (p) {
    case CmpInst::ICMP_NE: return mkNot(mkICmp(CmpInst::ICMP_EQ, a, b));
    case CmpInst::ICMP_UGT: return mkICmp(CmpInst::ICMP_ULT, b, a);
    case CmpInst::ICMP_SGT: return mkICmp(CmpInst::ICMP_SLT, b, a);
    case CmpInst::ICMP_UGE: return mkNot(mkICmp(CmpInst::ICMP_ULT, a, b));
    case CmpInst::ICMP_SGE: return mkNot(mkICmp(CmpInst::ICMP_SLT, a, b));
    case CmpInst::ICMP_ULE: return mkNot(mkICmp(CmpInst::ICMP_ULT, b, a));
    case CmpInst::ICMP_SLE: return mkNot(mkICmp(CmpInst::ICMP_SLT, b, a));
    default: break;
  }
  if (p == CmpInst::ICMP_EQ) {
    if (isC(a)) std::swap(a, b);
    // (zext i1) == const
    if ((isSym(a, "zext") || isSym(a, "sext")) && N(N(a).a[0]).ty.w == 1 && isC(b)) {
      T c = N(a).a[0]; uint64_t one = isSym(a, "zext") ? 1 : (N(a).ty.w == 64 ? ~0ull : (1ull << N(a).ty.w) - 1);
      if (cv(b) == 0) return mkNot(c); if (cv(b) == one) return c; return TT.cst(0, IntT(1)); }
    return raw("eq", IntT(1), {a, b});
  }
  return raw(p == CmpInst::ICMP_ULT ? "ult" : "slt", IntT(1), {a, b});
}
static T mkFCmp(CmpInst::Predicate p, T a, T b) {
  switch (p) {
    case CmpInst::FCMP_FALSE: return TT.cst(0, IntT(1));
    case CmpInst::FCMP_TRUE: return TT.cst(1, IntT(1));
    case CmpInst::FCMP_OGT: return mkFCmp(CmpInst::FCMP_OLT, b, a);
    case CmpInst::FCMP_OGE: return mkFCmp(CmpInst::FCMP_OLE, b, a);
    case CmpInst::FCMP_UGT: return mkNot(mkFCmp(CmpInst::FCMP_OLE, a, b));
    case CmpInst::FCMP_UGE: return mkNot(mkFCmp(CmpInst::FCMP_OLT, a, b));
    case CmpInst::FCMP_ULT: return mkNot(mkFCmp(CmpInst::FCMP_OLE, b, a));
    case CmpInst::FCMP_ULE: return mkNot(mkFCmp(CmpInst::FCMP_OLT, b, a));
    case CmpInst::FCMP_UNE: return mkNot(mkFCmp(CmpInst::FCMP_OEQ, a, b));
    case CmpInst::FCMP_UEQ: return mkBin("or", mkFCmp(CmpInst::FCMP_OEQ, a, b), mkFCmp(CmpInst::FCMP_UNO, a, b));
    case CmpInst::FCMP_ONE: return mkBin("and", mkNot(mkFCmp(CmpInst::FCMP_OEQ, a, b)), mkFCmp(CmpInst::FCMP_ORD, a, b));
    case CmpInst::FCMP_ORD: return mkNot(mkFCmp(CmpInst::FCMP_UNO, a, b));
    default: break;
  }
  if (isC(a) && isC(b)) {
    auto r = apf(a).compare(apf(b)); bool v = false;
    if (p == CmpInst::FCMP_OLT) v = r == APFloat::cmpLessThan; else if (p == CmpInst::FCMP_OLE) v = r == APFloat::cmpLessThan || r == APFloat::cmpEqual;
    else if (p == CmpInst::FCMP_OEQ) v = r == APFloat::cmpEqual; else if (p == CmpInst::FCMP_UNO) v = r == APFloat::cmpUnordered;
    return TT.cst(v, IntT(1));
  }
  const char *nm = p == CmpInst::FCMP_OLT ? "folt" : p == CmpInst::FCMP_OLE ? "fole" : p == CmpInst::FCMP_OEQ ? "foeq" : "funo";
  if (p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_UNO) if (a > b) std::swap(a, b);
  return raw(nm, IntT(1), {a, b});
}
static T mkUn(const std::string &op, TypeL ty, T a) {
  if (op == "fneg" && isC(a)) return TT.cst(cv(a) ^ (1ull << (ty.w - 1)), ty);
  if (op == "fabs" && isC(a)) return TT.cst(cv(a) & ~(1ull << (ty.w - 1)), ty);
  if (op == "sqrt" && isC(a)) { }
  if ((op == "fpext" || op == "fptrunc") && isC(a)) { APFloat f = apf(a); bool l; f.convert(ty.k == TF32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return fromApf(f, ty); }
  if ((op == "sitofp" || op == "uitofp") && isC(a)) { APFloat f(ty.k == TF32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble()); f.convertFromAPInt(APInt(N(a).ty.w, cv(a)), op == "sitofp", APFloat::rmNearestTiesToEven); return fromApf(f, ty); }
  if ((op == "sitofp" || op == "uitofp") && (isSym(a, "zext") || isSym(a, "sext")) && N(N(a).a[0]).ty.w == 1) { // bool -> float
    T c = N(a).a[0]; bool s = isSym(a, "sext");
    if (op == "sitofp") { double one = s ? -1.0 : 1.0; APFloat f(one); bool l; if (ty.k == TF32) f.convert(APFloat::IEEEsingle(), APFloat::rmNearestTiesToEven, &l);
      return mkSelect(c, fromApf(f, ty), TT.cst(0, ty)); }
  }
  if (op == "uitofp" && N(a).ty.w == 1) { APFloat f(1.0); bool l; if (ty.k == TF32) f.convert(APFloat::IEEEsingle(), APFloat::rmNearestTiesToEven, &l); return mkSelect(a, fromApf(f, ty), TT.cst(0, ty)); }
  if ((op == "fptosi" || op == "fptoui") && isC(a)) { APSInt r(ty.w, op == "fptoui"); bool ex; if (apf(a).convertToInteger(r, APFloat::rmTowardZero, &ex) != APFloat::opInvalidOp) return TT.cst(r.getZExtValue(), ty); return TT.undef(ty); }
  return raw(op, ty, {a});
}

// ------------------------------------------------------------------ memory
typedef std::vector<T> Val;
struct Entry { unsigned size; T t; };
enum ObjKind { KBUF, KALLOCA, KGLOBAL, KFUNC, KNULL };
struct Obj { ObjKind kind; std::string name; unsigned elem; int64_t size; std::map<int64_t, Entry> m; bool constant = false; Function *fn = nullptr; GlobalVariable *gv = nullptr; };
struct Access { char kind; uint32_t obj; int64_t off; uint32_t size; uint32_t align; T cond; std::string loc; std::string fn; T val; };
struct Undo { uint32_t obj; int64_t off; bool had; Entry old; };

struct Interp {
  Module &M; const DataLayout &DL;
  std::vector<Obj> objs; std::map<const Value *, uint32_t> gobj;
  std::vector<Undo> journal; bool journaling = false;
  std::vector<Access> acc;
  std::vector<std::string> calls; std::set<std::string> callset;
  std::vector<std::pair<T, std::string>> asserts;
  std::vector<std::string> ub; std::set<std::string> ubset;
  std::vector<const Instruction *> stack;
  std::vector<uint32_t> locals, freeobjs; std::set<int64_t> cmpc; unsigned brdepth = 0; std::map<std::pair<char, uint32_t>, std::map<int64_t, int64_t>> ranges; // footprint mode
  T pathcond; uint64_t steps = 0, maxsteps = 30000000; unsigned depth = 0; uint64_t symctr = 0; unsigned elemsize = 4;
  std::map<const Function *, std::unique_ptr<PostDominatorTree>> pdts;
  Interp(Module &m) : M(m), DL(m.getDataLayout()) { pathcond = TT.cst(1, IntT(1)); objs.push_back({KNULL, "null", 1, 0, {}}); }

  std::unordered_map<const Instruction *, std::string> lcache;
  const std::string &iloc(const Instruction *I) { auto it = lcache.find(I); if (it != lcache.end()) return it->second; std::string r; const DebugLoc &d = I->getDebugLoc();
    if (d && d.getLine()) { auto *sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str(); if (f.find("/usr/") != 0 && f.find("/lib/clang/") == std::string::npos) r = f + ":" + std::to_string(d.getLine()); }
    return lcache[I] = r; }
  std::string loc() {
    // innermost location inside the analysed headers, and the outermost one below the analysis unit
    std::string in, outer;
    for (auto it = stack.rbegin(); it != stack.rend(); ++it) { const std::string &r = iloc(*it); if (r.empty()) continue; if (in.empty()) in = r; if (it + 1 != stack.rend()) outer = r; }
    if (in.empty()) return "?"; if (outer.empty() || outer == in) return in; return in + " <- " + outer;
  }
  std::string locfn() {
    for (auto it = stack.rbegin(); it != stack.rend(); ++it) { const DebugLoc &d = (*it)->getDebugLoc(); if (!d) continue;
      auto *sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str();
      if (f.find("/usr/") == 0 || f.find("/lib/clang/") != std::string::npos) continue;
      if (auto *sp = cast<DILocalScope>(d.getScope())->getSubprogram()) return sp->getName().str(); }
    return "?";
  }
  TypeL leaf(Type *t) {
    if (t->isFloatTy()) return F32; if (t->isDoubleTy()) return F64; if (t->isPointerTy()) return PTR;
    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return IntT(t->getIntegerBitWidth());
    unsup("type"); }
  struct LeafPos { TypeL ty; uint64_t off; };
  void leaves(Type *t, uint64_t base, std::vector<LeafPos> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), base + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), base + i * sz, out); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { TypeL e = leaf(vt->getElementType()); unsigned bs = e.w < 8 ? 0 : e.w / 8; for (unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back({e, base + i * bs}); return; }
    if (t->isVoidTy()) return;
    out.push_back({leaf(t), base});
  }
  uint64_t nleaves(Type *t) { std::vector<LeafPos> v; leaves(t, 0, v); return v.size(); }

  // -- global objects
  uint32_t globalObj(GlobalVariable *g) {
    auto it = gobj.find(g); if (it != gobj.end()) return it->second;
    Obj o; o.kind = KGLOBAL; o.name = g->getName().str(); o.elem = 1; o.size = DL.getTypeAllocSize(g->getValueType()); o.constant = g->isConstant(); o.gv = g;
    uint32_t id = objs.size(); objs.push_back(o); gobj[g] = id;
    if (g->hasInitializer()) { Val v = constant(g->getInitializer()); std::vector<LeafPos> lp; leaves(g->getValueType(), 0, lp); for (size_t i = 0; i < lp.size(); ++i) objs[id].m[lp[i].off] = {std::max(1u, lp[i].ty.w / 8u), v[i]}; }
    return id;
  }
  uint32_t funcObj(Function *f) { auto it = gobj.find(f); if (it != gobj.end()) return it->second; Obj o; o.kind = KFUNC; o.name = f->getName().str(); o.elem = 1; o.size = 0; o.fn = f; uint32_t id = objs.size(); objs.push_back(o); gobj[f] = id; return id; }

  Val constant(Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) { std::vector<LeafPos> v; leaves(t, 0, v); Val r; for (auto &l : v) r.push_back(TT.undef(l.ty)); return r; }
    if (isa<ConstantAggregateZero>(c)) { std::vector<LeafPos> v; leaves(t, 0, v); Val r; for (auto &l : v) r.push_back(l.ty.k == TP ? TT.ptr(0, 0) : TT.cst(0, l.ty)); return r; }
    if (auto *ci = dyn_cast<ConstantInt>(c)) return {TT.cst(ci->getValue().getZExtValue(), leaf(t))};
    if (auto *cf = dyn_cast<ConstantFP>(c)) return {TT.cst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), leaf(t))};
    if (isa<ConstantPointerNull>(c)) return {TT.ptr(0, 0)};
    if (auto *g = dyn_cast<GlobalVariable>(c)) return {TT.ptr(globalObj(g), 0)};
    if (auto *f = dyn_cast<Function>(c)) return {TT.ptr(funcObj(f), 0)};
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
    if (isa<ConstantAggregate>(c) ) { Val r; for (unsigned i = 0; i < c->getNumOperands(); ++i) { Val x = constant(cast<Constant>(c->getOperand(i))); r.insert(r.end(), x.begin(), x.end()); } return r; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Val r; for (unsigned i = 0; i < cd->getNumElements(); ++i) { Val x = constant(cd->getElementAsConstant(i)); r.insert(r.end(), x.begin(), x.end()); } return r; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); if (gep->accumulateConstantOffset(DL, off)) { Val b = constant(cast<Constant>(gep->getPointerOperand())); if (N(b[0]).op == OPTR) return {TT.ptr(N(b[0]).c0, N(b[0]).c1 + off.getSExtValue())}; } }
      if (ce->getOpcode() == Instruction::BitCast) return bitcast(constant(cast<Constant>(ce->getOperand(0))), ce->getOperand(0)->getType(), t);
      if (ce->getOpcode() == Instruction::PtrToInt) return {raw("p2i", leaf(t), {constant(cast<Constant>(ce->getOperand(0)))[0]})};
    }
    unsup("constant");
  }

  // -- memory access
  void setEntry(uint32_t obj, int64_t off, bool has, Entry e) {
    auto &m = objs[obj].m; auto it = m.find(off);
    if (journaling) journal.push_back({obj, off, it != m.end(), it != m.end() ? it->second : Entry{0, 0}});
    if (has) m[off] = e; else if (it != m.end()) m.erase(it);
  }
  // make [off, off+size) start and end on entry boundaries by splitting
  void splitAt(uint32_t obj, int64_t pos) {
    auto &m = objs[obj].m; auto it = m.lower_bound(pos);
    if (it != m.end() && it->first == pos) return;
    if (it == m.begin()) return; --it;
    int64_t o = it->first; Entry e = it->second; if (o + (int64_t)e.size <= pos) return;
    unsigned k = pos - o;
    if (N(e.t).ty.k == TP) unsup("split pointer");
    setEntry(obj, o, true, {k, mkExtract(e.t, 0, 8 * k)});
    setEntry(obj, pos, true, {e.size - k, mkExtract(e.t, 8 * k, 8 * (e.size - k))});
  }
  T readLeaf(uint32_t obj, int64_t off, TypeL ty) {
    unsigned size = std::max(1u, ty.w / 8u);
    if (ty.w == 1) size = 1;
    Obj &o = objs[obj];
    auto it = o.m.find(off);
    if (it != o.m.end() && it->second.size == size) { T t = it->second.t; return adapt(t, ty); }
    if (o.kind == KBUF) {
      // materialise initial content element-wise
      int64_t e = o.elem, s = off >= 0 ? off / e * e : -((-off + e - 1) / e) * e;
      for (int64_t p = s; p < off + (int64_t)size; p += e) {
        auto lo = o.m.lower_bound(p); bool covered = lo != o.m.end() && lo->first < p + e;
        if (!covered && lo != o.m.begin()) { auto pr = std::prev(lo); if (pr->first + (int64_t)pr->second.size > p) covered = true; }
        if (!covered) { T l = TT.put({OLD, e == 4 ? F32 : e == 8 ? F64 : IntT(8 * e), 0, obj, p, {}}); setEntryNoJournal(obj, p, {(unsigned)e, l}); }
      }
    }
    it = o.m.find(off);
    if (it != o.m.end() && it->second.size == size) return adapt(it->second.t, ty);
    // contained in a larger entry?
    auto ub_ = o.m.upper_bound(off);
    if (ub_ != o.m.begin()) { auto pr = std::prev(ub_); if (pr->first <= off && pr->first + (int64_t)pr->second.size >= off + (int64_t)size) { if (N(pr->second.t).ty.k == TP) unsup("partial pointer read"); return adapt(mkExtract(pr->second.t, 8 * (off - pr->first), 8 * size), ty); } }
    // assembled from smaller entries
    if (size > 1) { bool any = false; for (auto i2 = o.m.lower_bound(off); i2 != o.m.end() && i2->first < off + (int64_t)size; ++i2) any = true;
      if (!any && ub_ != o.m.begin()) { auto pr = std::prev(ub_); if (pr->first + (int64_t)pr->second.size > off) any = true; }
      if (any) { unsigned h = size / 2; T lo = readLeaf(obj, off, IntT(8 * h)), hi = readLeaf(obj, off + h, IntT(8 * h)); return adapt(mkConcat(lo, hi), ty); } }
    if (o.kind == KBUF) unsup("buffer read");
    return ty.k == TP ? TT.undef(PTR) : TT.undef(ty);
  }
  void setEntryNoJournal(uint32_t obj, int64_t off, Entry e) { objs[obj].m[off] = e; }
  T adapt(T t, TypeL ty) {
    TypeL s = N(t).ty; if (s == ty) return t;
    if (N(t).op == OUNDEF) return TT.undef(ty);
    if (s.k == TP && ty.k == TI) return raw("p2i", ty, {t});
    if (s.k == TI && ty.k == TP) { if (isSym(t, "p2i")) return N(t).a[0]; if (isC(t) && cv(t) == 0) return TT.ptr(0, 0); unsup("int as pointer"); }
    if (s.k == TI && ty.k == TI && ty.w == 1) return mkTrunc(t, 1);
    if (s.k == TI && ty.k == TI && s.w == 1) return mkZext(t, ty.w);
    if (s.w == ty.w) return mkBitcast(t, ty);
    unsup("adapt"); }
  void writeLeaf(uint32_t obj, int64_t off, T t) {
    TypeL ty = N(t).ty; unsigned size = std::max(1u, ty.w / 8u); if (ty == IntT(1)) t = mkZext(t, 8);
    auto &m = objs[obj].m; auto it = m.find(off);
    if (it != m.end() && it->second.size == size) { setEntry(obj, off, true, {size, t}); return; }
    splitAt(obj, off); splitAt(obj, off + size);
    std::vector<int64_t> del; for (auto i2 = m.lower_bound(off); i2 != m.end() && i2->first < off + (int64_t)size; ++i2) del.push_back(i2->first);
    for (auto d : del) setEntry(obj, d, false, {});
    setEntry(obj, off, true, {size, t});
  }
  void record(char k, uint32_t obj, int64_t off, uint64_t size, uint64_t align, T val = 0) {
    ObjKind kd = objs[obj].kind;
    if (kd == KALLOCA) { if (off < 0 || off + (int64_t)size > objs[obj].size) addub("out-of-bounds access to local object " + objs[obj].name); return; }
    if (kd == KGLOBAL && (k == 'L') && objs[obj].constant) return;
    if (kd == KNULL) { addub("null dereference"); unsup("null dereference"); }
    if (FOOT) { auto &m = ranges[{k, obj}]; int64_t lo = off, hi = off + (int64_t)size; auto it = m.upper_bound(lo); if (it != m.begin()) { auto p = std::prev(it); if (p->second >= lo) { lo = p->first; hi = std::max(hi, p->second); m.erase(p); } }
      for (it = m.lower_bound(lo); it != m.end() && it->first <= hi;) { hi = std::max(hi, it->second); it = m.erase(it); } m[lo] = hi; if (m.size() > 100000) unsup("scattered footprint"); return; }
    if (acc.size() > 4000000) unsup("access limit");
    acc.push_back({k, obj, off, (uint32_t)size, (uint32_t)align, pathcond, loc(), locfn(), val});
  }
  void addub(const std::string &s) { std::string x = s + " @ " + loc(); if (ubset.insert(x).second) ub.push_back(x); }

  Val loadVal(T p, Type *t, uint64_t align) {
    if (N(p).op == OSYM && isSym(p, "select")) { auto a = N(p).a; T save = pathcond;
      pathcond = mkBin("and", save, a[0]); Val x = loadVal(a[1], t, align); pathcond = mkBin("and", save, mkNot(a[0])); Val y = loadVal(a[2], t, align); pathcond = save;
      Val r; for (size_t i = 0; i < x.size(); ++i) r.push_back(mkSelect(a[0], x[i], y[i])); return r; }
    if (N(p).op != OPTR) unsup("load from unknown address");
    uint32_t obj = N(p).c0; int64_t off = N(p).c1;
    uint64_t size = DL.getTypeStoreSize(t); record('L', obj, off, size, align);
    std::vector<LeafPos> lp; leaves(t, 0, lp); Val r; for (auto &l : lp) r.push_back(readLeaf(obj, off + l.off, l.ty)); return r;
  }
  void storeVal(T p, const Val &v, Type *t, uint64_t align) {
    if (N(p).op == OSYM && isSym(p, "select")) { auto a = N(p).a;
      Val o1 = loadQuiet(a[1], t), o2 = loadQuiet(a[2], t); Val w1, w2; for (size_t i = 0; i < v.size(); ++i) { w1.push_back(mkSelect(a[0], v[i], o1[i])); w2.push_back(mkSelect(a[0], o2[i], v[i])); }
      storeVal(a[1], w1, t, align); storeVal(a[2], w2, t, align); return; }
    if (N(p).op != OPTR) unsup("store to unknown address");
    uint32_t obj = N(p).c0; int64_t off = N(p).c1; uint64_t size = DL.getTypeStoreSize(t); record('S', obj, off, size, align);
    std::vector<LeafPos> lp; leaves(t, 0, lp); for (size_t i = 0; i < lp.size(); ++i) writeLeaf(obj, off + lp[i].off, v[i]);
  }
  Val loadQuiet(T p, Type *t) { if (N(p).op != OPTR) unsup("nested pointer select store"); std::vector<LeafPos> lp; leaves(t, 0, lp); Val r; for (auto &l : lp) r.push_back(readLeaf(N(p).c0, N(p).c1 + l.off, l.ty)); return r; }

  Val bitcast(const Val &v, Type *from, Type *to) {
    std::vector<LeafPos> a, b; leaves(from, 0, a); leaves(to, 0, b);
    if (a.size() == b.size()) { Val r; for (size_t i = 0; i < v.size(); ++i) r.push_back(b[i].ty.k == TP ? v[i] : adaptBits(v[i], b[i].ty)); return r; }
    Val r;
    if (a.size() > b.size()) { unsigned k = a.size() / b.size(); for (size_t i = 0; i < b.size(); ++i) { std::vector<T> parts; for (unsigned j = 0; j < k; ++j) parts.push_back(toInt(v[i * k + j]));
        while (parts.size() > 1) { std::vector<T> q; for (size_t j = 0; j + 1 < parts.size(); j += 2) q.push_back(mkConcat(parts[j], parts[j + 1])); parts = q; if (N(parts[0]).ty.w > 64) unsup("wide bitcast"); }
        r.push_back(adaptBits(parts[0], b[i].ty)); } }
    else { unsigned k = b.size() / a.size(); for (size_t i = 0; i < a.size(); ++i) for (unsigned j = 0; j < k; ++j) r.push_back(adaptBits(mkExtract(toInt(v[i]), j * b[0].ty.w, b[0].ty.w), b[0].ty)); }
    return r;
  }
  T toInt(T t) { TypeL ty = N(t).ty; return ty.k == TI ? t : mkBitcast(t, IntT(ty.w)); }
  T adaptBits(T t, TypeL ty) { if (N(t).ty == ty) return t; return mkBitcast(t, ty); }

  // -- execution
  struct Frame { Function *F; DenseMap<const Value *, Val> regs; };
  enum EndKind { ESTOP, ERET, EDEAD };
  typedef std::vector<std::pair<PHINode *, Val>> PhiVals;
  struct End { EndKind k; BasicBlock *pred; Val ret; bool hasPh = false; PhiVals ph; };

  Val get(Frame &f, Value *v) { if (auto *c = dyn_cast<Constant>(v)) return constant(c); auto it = f.regs.find(v); if (it == f.regs.end()) unsup("undefined register"); return it->second; }

  PostDominatorTree &pdt(Function *F) { auto &p = pdts[F]; if (!p) p = std::make_unique<PostDominatorTree>(*F); return *p; }

  Val callFunc(Function *F, const std::vector<Val> &args) {
    if (++depth > 300) unsup("recursion depth");
    Frame f; f.F = F; unsigned i = 0; for (auto &A : F->args()) f.regs[&A] = args[i++];
    size_t lm = locals.size();
    End e = run(f, &F->getEntryBlock(), nullptr, nullptr, false);
    --depth;
    // objects of the finished activation: recycled unless an enclosing join still refers to them
    if (!journaling) for (size_t k = lm; k < locals.size(); ++k) { objs[locals[k]].m.clear(); freeobjs.push_back(locals[k]); }
    locals.resize(lm);
    if (e.k == EDEAD) { deadEnd = true; return {}; }
    return e.ret;
  }
  bool deadEnd = false;

  // phis of block B when entered from pred
  void phis(Frame &f, BasicBlock *B, BasicBlock *pred) { std::vector<std::pair<PHINode *, Val>> tmp; for (auto &I : *B) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; tmp.push_back({p, get(f, p->getIncomingValueForBlock(pred))}); } for (auto &x : tmp) f.regs[x.first] = x.second; }

  End run(Frame &f, BasicBlock *B, BasicBlock *pred, BasicBlock *stop, bool phisDone) {
    for (;;) {
      if (B == stop) return {ESTOP, pred, {}};
      if (!phisDone && pred) phis(f, B, pred);
      phisDone = false;
      BasicBlock *next = nullptr;
      for (auto &I : *B) {
        if (isa<PHINode>(I)) continue;
        if (++steps > maxsteps) unsup("step limit");
        stack.push_back(&I);
        struct Pop { std::vector<const Instruction *> &s; ~Pop() { s.pop_back(); } } pop{stack};
        if (auto *r = dyn_cast<ReturnInst>(&I)) { Val v; if (r->getReturnValue()) v = get(f, r->getReturnValue()); return {ERET, B, v}; }
        if (isa<UnreachableInst>(I)) return {EDEAD, B, {}};
        if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isUnconditional()) { next = br->getSuccessor(0); break; }
          T c = get(f, br->getCondition())[0];
          if (N(c).op == OUNDEF) { addub("branch on undefined value"); unsup("branch on undef"); }
          if (isC(c)) { next = br->getSuccessor(cv(c) ? 0 : 1); break; }
          // data-dependent branch: join at the immediate post-dominator
          auto *node = pdt(f.F).getNode(B); BasicBlock *ip = nullptr; if (node && node->getIDom()) ip = node->getIDom()->getBlock();
          T saveCond = pathcond; bool saveJ = journaling;
          struct Dep { unsigned &d; Dep(unsigned &x) : d(x) { ++d; } ~Dep() { --d; } } dep(brdepth); if (brdepth > 400) unsup("nesting of data-dependent branches");
          struct Arm { End e; std::map<std::pair<uint32_t, int64_t>, std::pair<bool, Entry>> w; std::vector<std::pair<PHINode *, Val>> ph; } arms[2];
          for (int k = 0; k < 2; ++k) {
            size_t j0 = journal.size(); journaling = true; pathcond = mkBin("and", saveCond, k == 0 ? c : mkNot(c));
            BasicBlock *t = br->getSuccessor(k);
            arms[k].e = (t == ip) ? End{ESTOP, B, {}} : run(f, t, B, ip, false);
            if (arms[k].e.k == ESTOP && arms[k].e.hasPh) arms[k].ph = arms[k].e.ph;
            else if (arms[k].e.k == ESTOP && ip) for (auto &PI : *ip) { auto *p = dyn_cast<PHINode>(&PI); if (!p) break; arms[k].ph.push_back({p, get(f, p->getIncomingValueForBlock(arms[k].e.pred))}); }
            for (size_t j = j0; j < journal.size(); ++j) { auto key = std::make_pair(journal[j].obj, journal[j].off); auto &m = objs[journal[j].obj].m; auto it = m.find(journal[j].off); arms[k].w[key] = {it != m.end(), it != m.end() ? it->second : Entry{0, 0}}; }
            for (size_t j = journal.size(); j-- > j0;) { auto &u = journal[j]; if (u.had) objs[u.obj].m[u.off] = u.old; else objs[u.obj].m.erase(u.off); }
            journal.resize(j0);
          }
          journaling = saveJ; pathcond = saveCond;
          bool d0 = arms[0].e.k == EDEAD, d1 = arms[1].e.k == EDEAD;
          if (d0 && d1) return {EDEAD, B, {}};
          auto apply = [&](Arm &a) { for (auto &x : a.w) setEntry(x.first.first, x.first.second, x.second.first, x.second.second); };
          if (d0 || d1) { Arm &a = d0 ? arms[1] : arms[0]; asserts.push_back({mkBin("and", saveCond, d0 ? c : mkNot(c)), loc()}); apply(a); for (auto &p : a.ph) f.regs[p.first] = p.second;
            if (a.e.k == ERET) return a.e; pred = a.e.pred; next = ip; phisDone = true; break; }
          if (arms[0].e.k != arms[1].e.k) unsup("mixed return");
          // merge memory
          std::set<std::pair<uint32_t, int64_t>> keys; for (auto &a : arms) for (auto &x : a.w) keys.insert(x.first);
          for (auto &k : keys) {
            auto val = [&](Arm &a) -> std::pair<bool, Entry> { auto it = a.w.find(k); if (it != a.w.end()) return it->second; auto &m = objs[k.first].m; auto i2 = m.find(k.second); if (i2 != m.end()) return {true, i2->second}; return {false, Entry{0, 0}}; };
            auto x = val(arms[0]), y = val(arms[1]);
            if (!x.first && !y.first) { setEntry(k.first, k.second, false, {}); continue; }
            if (!x.first || !y.first) { auto &have = x.first ? x : y; 
              if (objs[k.first].kind == KALLOCA) { T u = TT.undef(N(have.second.t).ty); if (x.first) y = {true, {x.second.size, u}}; else x = {true, {y.second.size, u}}; }
              else if (objs[k.first].kind == KBUF) { // the other arm left the initial contents
                 T l = readLeaf(k.first, k.second, N(have.second.t).ty); if (x.first) y = {true, {x.second.size, l}}; else x = {true, {y.second.size, l}}; }
              else unsup("merge"); }
            if (x.second.size != y.second.size) unsup("merge of different sizes");
            T a = x.second.t, b = y.second.t; if (!(N(a).ty == N(b).ty)) { if (N(a).op == OUNDEF) a = TT.undef(N(b).ty); else b = adapt(b, N(a).ty); }
            setEntry(k.first, k.second, true, {x.second.size, mkSelect(c, a, b)});
          }
          if (arms[0].e.k == ERET) { Val r; for (size_t i = 0; i < arms[0].e.ret.size(); ++i) r.push_back(mkSelect(c, arms[0].e.ret[i], arms[1].e.ret[i])); return {ERET, B, r}; }
          for (size_t i = 0; i < arms[0].ph.size(); ++i) { Val r; for (size_t j = 0; j < arms[0].ph[i].second.size(); ++j) r.push_back(mkSelect(c, arms[0].ph[i].second[j], arms[1].ph[i].second[j])); f.regs[arms[0].ph[i].first] = r; }
          pred = arms[0].e.pred; next = ip; phisDone = true;
          // 'pred' is only meaningful for phis, which are done
          break;
        }
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { call(f, iv); if (deadEnd) { deadEnd = false; return {EDEAD, B, {}}; } next = iv->getNormalDest(); break; }
        if (isa<SwitchInst>(I)) unsup("switch");
        inst(f, I);
        if (deadEnd) { deadEnd = false; return {EDEAD, B, {}}; }
      }
      if (!next) unsup("terminator");
      if (phisDone) { if (next == stop) { // the join is also the join of the enclosing branch: hand the merged phi values up
          End e{ESTOP, pred, {}}; e.hasPh = true; for (auto &PI : *next) { auto *p = dyn_cast<PHINode>(&PI); if (!p) break; e.ph.push_back({p, f.regs[p]}); } return e; }
        B = next; continue; }
      pred = B; B = next;
    }
  }
  Val lanesBin(const char *op, const Val &a, const Val &b) { Val r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mkBin(op, a[i], b[i])); return r; }

  std::unordered_set<Instruction *> litSeen;
  // integer literals that may act as thresholds on lengths or indices
  void literals(Instruction &I) {
    if (!litSeen.insert(&I).second) return;
    if (&I == &I.getFunction()->getEntryBlock().front()) for (auto &BB : *I.getFunction()) for (auto &J : BB) if (&J != &I) literals(J);   // also the branches not taken
    if (auto *ic = dyn_cast<ICmpInst>(&I)) { for (int k = 0; k < 2; ++k) if (auto *ci = dyn_cast<ConstantInt>(ic->getOperand(k))) if (ci->getBitWidth() <= 64) { int64_t v = ci->getSExtValue(); if (v > 1 && v < (1 << 20)) cmpc.insert(v); } return; }
    if (auto *cb = dyn_cast<CallBase>(&I)) { auto *cf = cb->getCalledFunction(); if (!cf || cf->isIntrinsic() || cb->doesNotReturn()) return; }
    else if (!(isa<StoreInst>(I) || isa<SelectInst>(I) || isa<PHINode>(I) || isa<ReturnInst>(I) || I.isBinaryOp())) return;
    for (unsigned k = 0; k < I.getNumOperands(); ++k) if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(k))) if (ci->getBitWidth() <= 64 && ci->getBitWidth() >= 8) {
      int64_t v = ci->getSExtValue();
      if (I.getOpcode() == Instruction::LShr || I.getOpcode() == Instruction::AShr || I.getOpcode() == Instruction::Shl) v = v > 0 && v < 20 ? (int64_t)1 << v : 0;
      if (I.getOpcode() == Instruction::And) v = v > 0 ? v + 1 : 0;
      if (v > 16 && v < (1 << 20)) cmpc.insert(v);
    }
  }
  void inst(Frame &f, Instruction &I) {
    Type *ty = I.getType();
    literals(I);
    switch (I.getOpcode()) {
      case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); Obj o; o.kind = KALLOCA; o.name = a->getName().str(); o.elem = 1; auto sz = a->getAllocationSize(DL); o.size = sz ? (int64_t)sz->getFixedValue() : 0; uint32_t id; if (!freeobjs.empty() && !journaling) { id = freeobjs.back(); freeobjs.pop_back(); objs[id] = std::move(o); } else { id = objs.size(); objs.push_back(std::move(o)); } locals.push_back(id); f.regs[&I] = {TT.ptr(id, 0)}; return; }
      case Instruction::Load: { auto *l = cast<LoadInst>(&I); f.regs[&I] = loadVal(get(f, l->getPointerOperand())[0], ty, l->getAlign().value()); return; }
      case Instruction::Store: { auto *s = cast<StoreInst>(&I); storeVal(get(f, s->getPointerOperand())[0], get(f, s->getValueOperand()), s->getValueOperand()->getType(), s->getAlign().value()); return; }
      case Instruction::GetElementPtr: { auto *g = cast<GetElementPtrInst>(&I); f.regs[&I] = {gep(f, g, get(f, g->getPointerOperand())[0])}; return; }
      case Instruction::BitCast: f.regs[&I] = bitcast(get(f, I.getOperand(0)), I.getOperand(0)->getType(), ty); return;
      case Instruction::AddrSpaceCast: f.regs[&I] = get(f, I.getOperand(0)); return;
      case Instruction::Freeze: { Val v = get(f, I.getOperand(0)); f.regs[&I] = v; return; }
      case Instruction::PtrToInt: f.regs[&I] = {adapt(get(f, I.getOperand(0))[0], leaf(ty))}; return;
      case Instruction::IntToPtr: f.regs[&I] = {adapt(get(f, I.getOperand(0))[0], PTR)}; return;
      case Instruction::ICmp: { auto *c = cast<ICmpInst>(&I); Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)), r; for (size_t i = 0; i < a.size(); ++i) { if (N(a[i]).op == OUNDEF || N(b[i]).op == OUNDEF) r.push_back(TT.undef(IntT(1))); else r.push_back(mkICmp(c->getPredicate(), a[i], b[i])); } f.regs[&I] = r; return; }
      case Instruction::FCmp: { auto *c = cast<FCmpInst>(&I); Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mkFCmp(c->getPredicate(), a[i], b[i])); f.regs[&I] = r; return; }
      case Instruction::Select: { Val c = get(f, I.getOperand(0)), a = get(f, I.getOperand(1)), b = get(f, I.getOperand(2)), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mkSelect(c.size() == 1 ? c[0] : c[i], a[i], b[i])); f.regs[&I] = r; return; }
      case Instruction::FNeg: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
        Val a = get(f, I.getOperand(0)), r; Type *et = ty->isVectorTy() ? cast<VectorType>(ty)->getElementType() : ty; for (T t : a) r.push_back(mkUn(I.getOpcodeName(), leaf(et), t)); f.regs[&I] = r; return; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
        Val a = get(f, I.getOperand(0)), r; Type *et = ty->isVectorTy() ? cast<VectorType>(ty)->getElementType() : ty; unsigned w = leaf(et).w;
        if (I.getOpcode() == Instruction::Trunc && (w == 8 || w == 16) && I.getOperand(0)->getType()->isIntegerTy() && isC(a[0])) cmpc.insert(1 << w);
        for (T t : a) r.push_back(I.getOpcode() == Instruction::Trunc ? mkTrunc(t, w) : I.getOpcode() == Instruction::ZExt ? mkZext(t, w) : mkSext(t, w)); f.regs[&I] = r; return; }
      case Instruction::ExtractElement: { Val v = get(f, I.getOperand(0)); T i = get(f, I.getOperand(1))[0]; if (!isC(i)) { // data-dependent lane index
          T r = v[0]; for (size_t k = 1; k < v.size(); ++k) r = mkSelect(mkICmp(CmpInst::ICMP_EQ, i, TT.cst(k, N(i).ty)), v[k], r); f.regs[&I] = {r}; return; }
        if (cv(i) >= v.size()) { addub("lane index out of range"); f.regs[&I] = {TT.undef(N(v[0]).ty)}; return; } f.regs[&I] = {v[cv(i)]}; return; }
      case Instruction::InsertElement: { Val v = get(f, I.getOperand(0)); Val x = get(f, I.getOperand(1)); T i = get(f, I.getOperand(2))[0]; if (!isC(i)) unsup("insert index"); if (cv(i) >= v.size()) { addub("lane index out of range"); } else v[cv(i)] = x[0]; f.regs[&I] = v; return; }
      case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(&I); Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)), r; TypeL e = leaf(cast<VectorType>(ty)->getElementType()); for (int m : s->getShuffleMask()) r.push_back(m < 0 ? TT.undef(e) : m < (int)a.size() ? a[m] : b[m - a.size()]); f.regs[&I] = r; return; }
      case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(&I); Val v = get(f, e->getAggregateOperand()); auto [s, n] = aggRange(e->getAggregateOperand()->getType(), e->getIndices()); f.regs[&I] = Val(v.begin() + s, v.begin() + s + n); return; }
      case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(&I); Val v = get(f, e->getAggregateOperand()), x = get(f, e->getInsertedValueOperand()); auto [s, n] = aggRange(e->getType(), e->getIndices()); for (uint64_t i = 0; i < n; ++i) v[s + i] = x[i]; f.regs[&I] = v; return; }
      case Instruction::Call: call(f, cast<CallBase>(&I)); return;
      default: break;
    }
    if (I.isBinaryOp()) {
      Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)), r; std::string op = I.getOpcodeName();
      for (size_t i = 0; i < a.size(); ++i) {
        if (N(a[i]).ty.k == TI) {
          unsigned w = N(a[i]).ty.w;
          if ((op == "shl" || op == "lshr" || op == "ashr") && isC(b[i]) && cv(b[i]) >= w) addub("shift amount out of range");
          if (isC(a[i]) && isC(b[i])) {
            bool o = false; if (auto *obo = dyn_cast<OverflowingBinaryOperator>(&I)) if (obo->hasNoSignedWrap()) { APInt x(w, cv(a[i])), y(w, cv(b[i])); if (op == "add") (void)x.sadd_ov(y, o); else if (op == "sub") (void)x.ssub_ov(y, o); else if (op == "mul") (void)x.smul_ov(y, o); }
            if (o) addub("signed integer overflow");
            if ((op == "udiv" || op == "sdiv" || op == "urem" || op == "srem") && cv(b[i]) == 0) addub("division by zero");
          }
        }
        r.push_back(mkBin(op, a[i], b[i]));
      }
      f.regs[&I] = r; return;
    }
    unsup(std::string("instruction ") + I.getOpcodeName());
  }
  std::pair<uint64_t, uint64_t> aggRange(Type *t, ArrayRef<unsigned> idx) { uint64_t s = 0; for (unsigned i : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) s += nleaves(st->getElementType(k)); t = st->getElementType(i); } else if (auto *at = dyn_cast<ArrayType>(t)) { s += i * nleaves(at->getElementType()); t = at->getElementType(); } else unsup("agg"); } return {s, nleaves(t)}; }
  T gep(Frame &f, GetElementPtrInst *g, T p) {
    if (isSym(p, "select")) { auto a = N(p).a; return mkSelect(a[0], gep(f, g, a[1]), gep(f, g, a[2])); }
    if (N(p).op != OPTR) unsup("gep on unknown pointer");
    int64_t off = N(p).c1; 
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      T i = get(f, it.getOperand())[0];
      if (auto *st = it.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cv(i)); continue; }
      if (!isC(i)) unsup("data-dependent address");
      off += scv(i) * (int64_t)it.getSequentialElementStride(DL);
    }
    return TT.ptr(N(p).c0, off);
  }

  void extCall(const std::string &n) { if (callset.insert(n + " @ " + loc()).second) calls.push_back(n + " @ " + loc()); }

  void memop(T dst, T src, bool isSet, T len, bool setByteKnown, T byte) {
    if (!isC(len)) unsup("memory block of unknown length");
    if (N(dst).op != OPTR || (!isSet && N(src).op != OPTR)) unsup("memory block of unknown address");
    int64_t L = cv(len); if (L == 0) return;
    uint32_t d = N(dst).c0; int64_t doff = N(dst).c1;
    if (isSet) {
      if (!isC(byte)) unsup("memset value");
      record('S', d, doff, L, 1); unsigned e = objs[d].kind == KBUF ? objs[d].elem : (L % 4 == 0 && doff % 4 == 0 ? 4 : 1);
      if (L % e || doff % e) e = 1;
      uint64_t b = cv(byte) & 255, v = 0; for (unsigned i = 0; i < e; ++i) v |= b << (8 * i);
      for (int64_t o = 0; o < L; o += e) writeLeaf(d, doff + o, TT.cst(v, e == 4 && objs[d].kind == KBUF ? F32 : e == 8 && objs[d].kind == KBUF ? F64 : IntT(8 * e)));
      return;
    }
    uint32_t s = N(src).c0; int64_t soff = N(src).c1;
    record('L', s, soff, L, 1); record('S', d, doff, L, 1);
    // copy the entries of the source range
    std::vector<std::pair<int64_t, T>> cp;
    int64_t o = 0;
    while (o < L) {
      auto &m = objs[s].m; auto it = m.find(soff + o); unsigned sz = 0; T t;
      if (it != m.end() && o + (int64_t)it->second.size <= L) { sz = it->second.size; t = it->second.t; }
      else if (objs[s].kind == KBUF && L - o >= objs[s].elem) { sz = objs[s].elem; t = readLeaf(s, soff + o, sz == 4 ? F32 : F64); }
      else if (objs[s].kind == KALLOCA) { // unknown gap: skip to the next entry
        auto ub_ = m.upper_bound(soff + o); if (it == m.end()) { bool inside = ub_ != m.begin() && std::prev(ub_)->first + (int64_t)std::prev(ub_)->second.size > soff + o; if (!inside) { ++o; continue; } }
        sz = 1; t = readLeaf(s, soff + o, IntT(8)); }
      else { sz = 1; t = readLeaf(s, soff + o, IntT(8)); }
      cp.push_back({doff + o, t}); o += sz;
    }
    for (auto &c : cp) writeLeaf(d, c.first, c.second);
  }

  void call(Frame &f, CallBase *C) {
    Function *F = C->getCalledFunction();
    if (!F) { if (C->isInlineAsm()) { extCall("<inline asm>"); unsup("inline asm"); } Val p = get(f, C->getCalledOperand()); T t = p[0];
      if (isSym(t, "select")) unsup("data-dependent callee");
      if (N(t).op == OPTR && objs[N(t).c0].kind == KFUNC) F = objs[N(t).c0].fn; else unsup("unknown callee"); }
    Type *ty = C->getType();
    if (F->isIntrinsic()) { intrinsic(f, C, F); return; }
    std::vector<Val> args; for (auto &a : C->args()) args.push_back(get(f, a));
    if (!F->isDeclaration()) {
      Val r = callFunc(F, args); if (deadEnd) return; f.regs[C] = r; return; }
    std::string n = F->getName().str();
    if (n == "__assert_fail" || n == "abort") { deadEnd = true; asserts.push_back({pathcond, loc()}); extCall(n); return; }
    if (n == "memset") { memop(args[0][0], 0, true, args[2][0], true, mkTrunc(args[1][0], 8)); f.regs[C] = args[0]; extCall(n); return; }
    if (n == "memcpy" || n == "memmove") { memop(args[0][0], args[1][0], false, args[2][0], false, 0); f.regs[C] = args[0]; extCall(n); return; }
    extCall(n);
    std::vector<T> ta; bool pure = true; for (auto &a : args) for (T t : a) { if (N(t).ty.k == TP) pure = false; ta.push_back(t); }
    if (!pure) { // pointer escapes to unknown code
      unsup("call of unknown function " + n); }
    if (ty->isVoidTy()) return;
    std::vector<LeafPos> lp; leaves(ty, 0, lp); Val r; for (size_t i = 0; i < lp.size(); ++i) r.push_back(raw("call:" + n + (i ? "#" + std::to_string(i) : ""), lp[i].ty, ta));
    f.regs[C] = r;
  }
  void intrinsic(Frame &f, CallBase *C, Function *F) {
    StringRef n = F->getName(); auto id = F->getIntrinsicID(); Type *ty = C->getType();
    if (id == Intrinsic::lifetime_start) { T p = get(f, C->getArgOperand(1))[0]; if (N(p).op == OPTR && objs[N(p).c0].kind == KALLOCA && N(p).c1 == 0) { std::vector<int64_t> ks; for (auto &e : objs[N(p).c0].m) ks.push_back(e.first); for (auto k : ks) setEntry(N(p).c0, k, false, {}); } return; }
    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::stacksave || id == Intrinsic::stackrestore || id == Intrinsic::donothing || id == Intrinsic::prefetch) { if (!ty->isVoidTy()) f.regs[C] = {TT.ptr(0, 0)}; return; }
    if (id == Intrinsic::trap) { deadEnd = true; return; }
    auto A = [&](unsigned i) { return get(f, C->getArgOperand(i)); };
    if (id == Intrinsic::memset || id == Intrinsic::memset_inline) { memop(A(0)[0], 0, true, A(2)[0], true, A(1)[0]); return; }
    if (id == Intrinsic::memcpy || id == Intrinsic::memmove || id == Intrinsic::memcpy_inline) { memop(A(0)[0], A(1)[0], false, A(2)[0], false, 0); return; }
    Type *et = ty->isVectorTy() ? cast<VectorType>(ty)->getElementType() : ty;
    auto un = [&](const char *op) { Val a = A(0), r; for (T t : a) r.push_back(mkUn(op, leaf(et), t)); f.regs[C] = r; };
    auto bin = [&](const char *op) { Val a = A(0), b = A(1), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(raw(op, leaf(et), {a[i], b[i]})); f.regs[C] = r; };
    switch (id) {
      case Intrinsic::fabs: return un("fabs"); case Intrinsic::sqrt: return un("sqrt"); case Intrinsic::floor: return un("floor"); case Intrinsic::ceil: return un("ceil"); case Intrinsic::trunc: return un("ftrunc");
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un("rint"); case Intrinsic::round: return un("round");
      case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: { Val a = A(0), r; std::string nm = n.split('.').second.split('.').first.str(); for (T t : a) r.push_back(raw("call:" + nm, leaf(et), {t})); f.regs[C] = r; return; }
      case Intrinsic::pow: { Val a = A(0), b = A(1), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(raw("call:pow", leaf(et), {a[i], b[i]})); f.regs[C] = r; return; }
      case Intrinsic::copysign: return bin("copysign"); case Intrinsic::minnum: return bin("minnum"); case Intrinsic::maxnum: return bin("maxnum"); case Intrinsic::minimum: return bin("minimum"); case Intrinsic::maximum: return bin("maximum");
      case Intrinsic::fma: { Val a = A(0), b = A(1), c = A(2), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(raw("fma", leaf(et), {a[i], b[i], c[i]})); f.regs[C] = r; return; }
      case Intrinsic::fmuladd: { Val a = A(0), b = A(1), c = A(2), r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mkBin("fadd", mkBin("fmul", a[i], b[i]), c[i])); f.regs[C] = r; return; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Val a = A(0), b = A(1), r; auto p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; for (size_t i = 0; i < a.size(); ++i) r.push_back(mkSelect(mkICmp(p, a[i], b[i]), a[i], b[i])); f.regs[C] = r; return; }
      case Intrinsic::abs: { Val a = A(0), r; for (T t : a) r.push_back(mkSelect(mkICmp(CmpInst::ICMP_SLT, t, TT.cst(0, N(t).ty)), mkBin("sub", TT.cst(0, N(t).ty), t), t)); f.regs[C] = r; return; }
      case Intrinsic::expect: f.regs[C] = A(0); return;
      case Intrinsic::is_constant: f.regs[C] = {TT.cst(0, IntT(1))}; return;
      case Intrinsic::objectsize: f.regs[C] = {TT.cst(~0ull, leaf(ty))}; return;
      case Intrinsic::x86_sse_min_ps: case Intrinsic::x86_sse2_min_pd: case Intrinsic::x86_avx_min_ps_256: case Intrinsic::x86_avx_min_pd_256: return bin("minps");
      case Intrinsic::x86_sse_max_ps: case Intrinsic::x86_sse2_max_pd: case Intrinsic::x86_avx_max_ps_256: case Intrinsic::x86_avx_max_pd_256: return bin("maxps");
      case Intrinsic::x86_sse_min_ss: case Intrinsic::x86_sse2_min_sd: case Intrinsic::x86_sse_max_ss: case Intrinsic::x86_sse2_max_sd: { Val a = A(0), b = A(1); bool mn = id == Intrinsic::x86_sse_min_ss || id == Intrinsic::x86_sse2_min_sd; a[0] = raw(mn ? "minps" : "maxps", leaf(et), {a[0], b[0]}); f.regs[C] = a; return; }
      case Intrinsic::x86_sse_rcp_ps: case Intrinsic::x86_avx_rcp_ps_256: return un("rcp");
      case Intrinsic::x86_sse_rsqrt_ps: case Intrinsic::x86_avx_rsqrt_ps_256: return un("rsqrt");
      case Intrinsic::x86_sse_rcp_ss: case Intrinsic::x86_sse_rsqrt_ss: { Val a = A(0); a[0] = mkUn(id == Intrinsic::x86_sse_rcp_ss ? "rcp" : "rsqrt", leaf(et), a[0]); f.regs[C] = a; return; }
      case Intrinsic::x86_sse2_cvttps2dq: case Intrinsic::x86_avx_cvtt_ps2dq_256: return un("cvtt");
      case Intrinsic::x86_sse2_cvtps2dq: case Intrinsic::x86_avx_cvt_ps2dq_256: return un("cvtn");
      case Intrinsic::x86_sse_cvttss2si: case Intrinsic::x86_sse_cvttss2si64: case Intrinsic::x86_sse2_cvttsd2si: case Intrinsic::x86_sse2_cvttsd2si64: f.regs[C] = {raw("cvtt", leaf(ty), {A(0)[0]})}; return;
      case Intrinsic::x86_sse_cvtss2si: case Intrinsic::x86_sse_cvtss2si64: case Intrinsic::x86_sse2_cvtsd2si: case Intrinsic::x86_sse2_cvtsd2si64: f.regs[C] = {raw("cvtn", leaf(ty), {A(0)[0]})}; return;
      case Intrinsic::x86_sse41_round_ps: case Intrinsic::x86_sse41_round_pd: case Intrinsic::x86_avx_round_ps_256: case Intrinsic::x86_avx_round_pd_256: case Intrinsic::x86_sse41_round_ss: case Intrinsic::x86_sse41_round_sd: {
        bool sc = id == Intrinsic::x86_sse41_round_ss || id == Intrinsic::x86_sse41_round_sd; T im = A(sc ? 2 : 1)[0]; unsigned m = cv(im) & 7; const char *o = m == 0 ? "rint" : m == 1 ? "floor" : m == 2 ? "ceil" : m == 3 ? "ftrunc" : "rint_dyn";
        if (sc) { Val a = A(0), b = A(1); a[0] = mkUn(o, leaf(et), b[0]); f.regs[C] = a; return; } un(o); return; }
      case Intrinsic::x86_sse41_blendvps: case Intrinsic::x86_sse41_blendvpd: case Intrinsic::x86_avx_blendv_ps_256: case Intrinsic::x86_avx_blendv_pd_256: { Val a = A(0), b = A(1), m = A(2), r; for (size_t i = 0; i < a.size(); ++i) { T mi = toInt(m[i]); T c = signbit(mi); r.push_back(mkSelect(c, b[i], a[i])); } f.regs[C] = r; return; }
      case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_psrai_d: case Intrinsic::x86_avx2_pslli_d: case Intrinsic::x86_avx2_psrli_d: case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_avx2_psrai_d: {
        Val a = A(0), r; T k = A(1)[0]; unsigned w = N(a[0]).ty.w; bool left = n.contains("pslli"), ar = n.contains("psrai"); if (!isC(k)) unsup("shift count"); uint64_t kk = cv(k); for (T t : a) { if (kk >= w && !ar) r.push_back(TT.cst(0, N(t).ty)); else { T ks = TT.cst(std::min<uint64_t>(kk, w - 1), N(t).ty); r.push_back(kk == 0 ? t : mkBin(left ? "shl" : ar ? "ashr" : "lshr", t, ks)); } } f.regs[C] = r; return; }
      case Intrinsic::x86_sse3_hadd_ps: case Intrinsic::x86_sse3_hadd_pd: { Val a = A(0), b = A(1), r; for (auto *v : {&a, &b}) for (size_t i = 0; i < v->size(); i += 2) r.push_back(mkBin("fadd", (*v)[i], (*v)[i + 1])); f.regs[C] = r; return; }
      case Intrinsic::x86_avx_hadd_ps_256: case Intrinsic::x86_avx_hadd_pd_256: { Val a = A(0), b = A(1), r; size_t h = a.size() / 2; for (size_t part = 0; part < 2; ++part) for (auto *v : {&a, &b}) for (size_t i = 0; i < h; i += 2) r.push_back(mkBin("fadd", (*v)[part * h + i], (*v)[part * h + i + 1])); f.regs[C] = r; return; }
      case Intrinsic::x86_sse41_insertps: { Val a = A(0), b = A(1); unsigned im = cv(A(2)[0]); a[(im >> 4) & 3] = b[(im >> 6) & 3]; for (int i = 0; i < 4; ++i) if (im >> i & 1) a[i] = TT.cst(0, F32); f.regs[C] = a; return; }
      case Intrinsic::x86_sse_cmp_ps: case Intrinsic::x86_sse2_cmp_pd: case Intrinsic::x86_avx_cmp_ps_256: case Intrinsic::x86_avx_cmp_pd_256: case Intrinsic::x86_sse_cmp_ss: case Intrinsic::x86_sse2_cmp_sd: {
        static const CmpInst::Predicate P[16] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD, CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE};
        Val a = A(0), b = A(1), r; unsigned im = cv(A(2)[0]) & 15; bool sc = id == Intrinsic::x86_sse_cmp_ss || id == Intrinsic::x86_sse2_cmp_sd;
        for (size_t i = 0; i < a.size(); ++i) { if (sc && i) { r.push_back(a[i]); continue; } TypeL t = N(a[i]).ty; r.push_back(mkBitcast(mkSext(mkFCmp(P[im], a[i], b[i]), t.w), t)); } f.regs[C] = r; return; }
      case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_sse2_movmsk_pd: case Intrinsic::x86_avx_movmsk_ps_256: case Intrinsic::x86_avx_movmsk_pd_256: { Val a = A(0); T r = TT.cst(0, IntT(32)); for (size_t i = 0; i < a.size(); ++i) r = mkBin("or", mkBin("shl", mkZext(signbit(toInt(a[i])), 32), TT.cst(i, IntT(32))), r); f.regs[C] = {r}; return; }
      default: break;
    }
    if (n.starts_with("llvm.vector.reduce.fadd")) { Val s = A(0), v = A(1); T r = s[0]; for (T t : v) r = mkBin("fadd", r, t); f.regs[C] = {r}; return; }
    // unknown intrinsic: opaque function of its arguments, when it cannot touch memory
    if (!F->doesNotAccessMemory()) { extCall(n.str()); unsup("intrinsic " + n.str()); }
    std::vector<T> ta; for (auto &a : C->args()) { Val v = get(f, a); for (T t : v) ta.push_back(t); }
    std::vector<LeafPos> lp; leaves(ty, 0, lp); Val r; for (size_t i = 0; i < lp.size(); ++i) r.push_back(raw("opaque:" + n.str() + "#" + std::to_string(i), lp[i].ty, ta)); f.regs[C] = r;
  }
  T signbit(T i) { if (isSym(i, "sext") && N(N(i).a[0]).ty.w == 1) return N(i).a[0];
    if (isSym(i, "bitcast") && isSym(N(i).a[0], "sext")) return signbit(N(i).a[0]);
    if (isSym(i, "select")) { auto a = N(i).a; return mkSelect(a[0], signbit(a[1]), signbit(a[2])); }
    if (N(i).op == OUNDEF) return TT.undef(IntT(1));
    return mkICmp(CmpInst::ICMP_SLT, i, TT.cst(0, N(i).ty)); }
};

// ------------------------------------------------------------------ output
static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static std::string tystr(TypeL t) { if (t.k == TF32) return "f"; if (t.k == TF64) return "d"; if (t.k == TP) return "p"; return "i" + std::to_string(t.w); }

// ------------------------------------------------------------------ loop summaries (scalar evolution) for a given length
// The entry is inlined completely, specialised to the length, and every access to a caller buffer is summarised as
// start + sum of step*iteration over the loops around it, with the exact trip counts derived by scalar evolution.
struct Scev {
  Module &M; PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  Scev(Module &m) : M(m) { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    for (auto &F : M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); if (!F.getName().starts_with("u_")) F.addFnAttr(Attribute::AlwaysInline); }
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::ModifyCFG))); MPM.addPass(AlwaysInlinerPass(false)); MPM.run(M, MAM);
    FunctionPassManager P; P.addPass(SROAPass(SROAOptions::ModifyCFG)); P.addPass(EarlyCSEPass()); for (auto &F : M) if (!F.isDeclaration() && F.getName().starts_with("u_")) P.run(F, FAM);
  }
  std::string job(Function *F0, uint64_t n) {
    ValueToValueMapTy vm; Function *F = CloneFunction(F0, vm); F->setName(F0->getName() + ".nv");
    Argument *last = F->getArg(F->arg_size() - 1); last->replaceAllUsesWith(ConstantInt::get(last->getType(), n));
    auto cleanup = [&](FunctionPassManager &P) { P.addPass(SROAPass(SROAOptions::ModifyCFG)); P.addPass(SCCPPass()); P.addPass(InstCombinePass()); P.addPass(SimplifyCFGPass()); P.addPass(EarlyCSEPass()); };
    FunctionPassManager P; cleanup(P); P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass());
    { LoopPassManager L; L.addPass(LoopRotatePass()); P.addPass(createFunctionToLoopPassAdaptor(std::move(L), false, false)); }
    cleanup(P); P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass());
    { LoopPassManager L; L.addPass(IndVarSimplifyPass()); L.addPass(LoopFullUnrollPass(3, false, true)); P.addPass(createFunctionToLoopPassAdaptor(std::move(L), false, false)); }
    cleanup(P); P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass());
    P.run(*F, FAM); FAM.invalidate(*F, PreservedAnalyses::none());
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(*F); auto &LI = FAM.getResult<LoopAnalysis>(*F); auto &DT = FAM.getResult<DominatorTreeAnalysis>(*F); PostDominatorTree PDT(*F);
    std::string o = "{\"loops\":["; bool q = true; std::string err;
    for (auto *L : LI.getLoopsInPreorder()) { const SCEV *b = SE.getBackedgeTakenCount(L); if (!q) o += ","; q = false; if (auto *c = dyn_cast<SCEVConstant>(b)) o += std::to_string(c->getAPInt().getZExtValue()); else { o += "null"; if (err.empty()) err = "trip count"; } }
    o += "],\"acc\":["; q = true; const DataLayout &DL = M.getDataLayout();
    auto emit = [&](char k, Value *p, const SCEV *lenS, uint64_t size, Instruction &I) {
      const SCEV *s = SE.getSCEV(p); const SCEV *base = SE.getPointerBase(s); auto *u = dyn_cast<SCEVUnknown>(base);
      if (!u) { err = "address"; return; } Value *bv = u->getValue(); if (isa<AllocaInst>(bv) || isa<GlobalVariable>(bv)) return; auto *arg = dyn_cast<Argument>(bv); if (!arg) { err = "address base"; return; }
      const SCEV *off = SE.getMinusSCEV(s, base); std::string st; BasicBlock *B = I.getParent(); Loop *inner = LI.getLoopFor(B); bool un = true;
      while (auto *ar = dyn_cast<SCEVAddRecExpr>(off)) { if (!ar->isAffine()) { err = "non-affine address"; return; } auto *stp = dyn_cast<SCEVConstant>(ar->getStepRecurrence(SE)); auto *bt = dyn_cast<SCEVConstant>(SE.getBackedgeTakenCount(ar->getLoop())); if (!stp || !bt) { err = "stride or trip count"; return; }
        if (!st.empty()) st += ","; st += "[" + std::to_string(stp->getAPInt().getSExtValue()) + "," + std::to_string(bt->getAPInt().getZExtValue() + 1) + "]"; off = ar->getStart(); }
      auto *c = dyn_cast<SCEVConstant>(off); if (!c) { err = "address offset"; return; }
      // executed on every iteration of its loops?
      if (inner) { for (Loop *L = inner; L; L = L->getParentLoop()) { BasicBlock *la = L->getLoopLatch(); if (!la || !DT.dominates(B, la)) un = false; if (L->getExitingBlock() != la) un = false; BasicBlock *ph = L->getLoopPreheader(); if (!ph) un = false; else B = ph; } }
      if (!PDT.dominates(B, &F->getEntryBlock())) un = false;
      std::string lc = "?"; if (auto &d = I.getDebugLoc()) { const DILocation *dl = d.get(); while (dl) { std::string fnm = dl->getFilename().str(); if (fnm.find("/usr/") != 0 && fnm.find("/lib/clang/") == std::string::npos) break; dl = dl->getInlinedAt(); } if (dl) lc = dl->getFilename().str() + ":" + std::to_string(dl->getLine()); }
      if (lenS) { auto *lc2 = dyn_cast<SCEVConstant>(lenS); if (!lc2) { err = "block length"; return; } size = lc2->getAPInt().getZExtValue(); }
      if (!q) o += ","; q = false; o += std::string("[\"") + k + "\",\"A" + std::to_string(arg->getArgNo()) + "\"," + std::to_string(c->getAPInt().getSExtValue()) + "," + std::to_string(size) + ",[" + st + "]," + (un ? "1" : "0") + "," + jstr(lc) + "]"; };
    for (auto &B : *F) for (auto &I : B) {
      if (auto *l = dyn_cast<LoadInst>(&I)) emit('L', l->getPointerOperand(), nullptr, DL.getTypeStoreSize(l->getType()), I);
      else if (auto *s = dyn_cast<StoreInst>(&I)) emit('S', s->getPointerOperand(), nullptr, DL.getTypeStoreSize(s->getValueOperand()->getType()), I);
      else if (auto *ms = dyn_cast<MemSetInst>(&I)) emit('S', ms->getDest(), SE.getSCEV(ms->getLength()), 0, I);
      else if (auto *mt = dyn_cast<MemTransferInst>(&I)) { emit('L', mt->getSource(), SE.getSCEV(mt->getLength()), 0, I); emit('S', mt->getDest(), SE.getSCEV(mt->getLength()), 0, I); }
      else if (auto *cb = dyn_cast<CallBase>(&I)) { Function *cf = cb->getCalledFunction(); if (!cf) err = "indirect call"; else if (cf->getName() == "memset") emit('S', cb->getArgOperand(0), SE.getSCEV(cb->getArgOperand(2)), 0, I); else if (cf->getName() == "memcpy" || cf->getName() == "memmove") { emit('L', cb->getArgOperand(1), SE.getSCEV(cb->getArgOperand(2)), 0, I); emit('S', cb->getArgOperand(0), SE.getSCEV(cb->getArgOperand(2)), 0, I); }
        else if (!cf->isIntrinsic() && cf->getName() != "__assert_fail") for (auto &a : cb->args()) if (a->getType()->isPointerTy()) err = "call " + cf->getName().str(); }
      else if (isa<UnreachableInst>(I) && &B == &F->getEntryBlock()) err = "aborts"; }
    o += "],\"err\":" + (err.empty() ? std::string("null") : jstr(err)) + "}";
    FAM.clear(*F, F->getName()); F->eraseFromParent(); return o;
  }
};

struct Rel { // rewrite loads relative to an element index
  std::unordered_map<T, T> memo; int64_t base; 
  T go(T t) {
    auto it = memo.find(t); if (it != memo.end()) return it->second; T r;
    Node n = N(t);
    if (n.op == OLD) { Node m = n; m.c1 = n.c1 - base; m.sym = 1; r = TT.put(m); }
    else if (n.a.empty()) r = t;
    else { bool ch = false; for (T &x : n.a) { T y = go(x); ch |= y != x; x = y; } r = ch ? TT.put(n) : t; }
    memo[t] = r; return r;
  }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(argv[1], Err, Ctx); if (!M) { Err.print("nvir", errs()); return 2; }
  { // pre-pass: lower switches
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(LowerSwitchPass()); for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);
    // branches into blocks that can only abort: make the surviving side unconditional after noting the condition
  }
  if (argc > 4 && std::string(argv[4]) == "graph") {
    // flow-insensitive effects of everything reachable from each unit, and the linkage of the module
    std::ofstream out(argv[3]); std::ifstream jobs(argv[2]); std::string line; bool first = true;
    auto where = [](const Instruction &I) -> std::string { const DILocation *L = I.getDebugLoc().get(); return L ? (L->getDirectory().empty() || L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str()) + ":" + std::to_string(L->getLine()) : "?"; };
    std::map<Function *, std::vector<std::pair<std::string, std::string>>> eff; std::map<Function *, std::set<Function *>> callees;
    for (auto &F : *M) if (!F.isDeclaration()) for (auto &B : F) for (auto &I : B) {
      auto add = [&](const std::string &k) { eff[&F].push_back({k, where(I)}); };
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (cb->isInlineAsm()) { add("asm"); continue; }
        auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!cf) add("indirect call");
        else if (cf->isIntrinsic()) { std::string n = cf->getName().str(); if (n.find("mxcsr") != n.npos || n.find("rdtsc") != n.npos || n.find("rdrand") != n.npos || n.find("rdseed") != n.npos || n.find("set.rounding") != n.npos || n.find("set.fpenv") != n.npos || n.find("stacksave") != n.npos || n.find("readcyclecounter") != n.npos) add("call " + n); }
        else if (cf->isDeclaration()) add("call " + cf->getName().str());
        else callees[&F].insert(cf);
        for (auto &a : cb->args()) if (auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(a.get()))) if (!g->isConstant()) add("passes mutable global " + g->getName().str());
      }
      for (auto &op : I.operands()) if (auto *rf = dyn_cast<Function>(op.get()->stripPointerCasts())) if (!isa<CallBase>(I) || op.get() != cast<CallBase>(I).getCalledOperand()) { if (rf->isDeclaration()) add("call " + rf->getName().str()); else callees[&F].insert(rf); }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) add("atomic");
      if (isa<FenceInst>(I)) add("fence");
      if (isa<ResumeInst>(I)) continue;
      if (auto *st = dyn_cast<StoreInst>(&I)) { if (st->isAtomic()) add("atomic"); if (auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(st->getPointerOperand()))) add("stores global " + g->getName().str()); }
      if (auto *ld = dyn_cast<LoadInst>(&I)) { if (ld->isAtomic()) add("atomic"); if (auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(ld->getPointerOperand()))) if (!g->isConstant()) add("loads mutable global " + g->getName().str()); }
    }
    out << "{\"units\":{";
    while (std::getline(jobs, line)) { std::istringstream is(line); std::string fn; if (!(is >> fn)) continue; Function *F = M->getFunction(fn); if (!F || F->isDeclaration()) continue;
      std::set<Function *> seen{F}; std::vector<Function *> st{F}; std::set<std::pair<std::string, std::string>> all; size_t ni = 0;
      while (!st.empty()) { Function *f = st.back(); st.pop_back(); ni += f->getInstructionCount(); for (auto &e : eff[f]) all.insert(e); for (auto *c : callees[f]) if (seen.insert(c).second) st.push_back(c); }
      if (!first) out << ",\n"; first = false; out << jstr(fn) << ":{\"fns\":" << seen.size() << ",\"insts\":" << ni << ",\"eff\":["; bool q = true; for (auto &e : all) { if (!q) out << ","; q = false; out << "[" << jstr(e.first) << "," << jstr(e.second) << "]"; } out << "]}"; }
    out << "},\"strong\":["; bool q = true;
    for (auto &F : *M) if (!F.isDeclaration() && F.hasExternalLinkage()) { if (!q) out << ","; q = false; out << jstr(F.getName().str()); }
    for (auto &G : M->globals()) if (!G.isDeclaration() && G.hasExternalLinkage()) { if (!q) out << ","; q = false; out << jstr(G.getName().str()); }
    out << "],\"undefined\":["; q = true;
    for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic() && !F.use_empty()) { if (!q) out << ","; q = false; out << jstr(F.getName().str()); }
    for (auto &G : M->globals()) if (G.isDeclaration() && !G.use_empty()) { if (!q) out << ","; q = false; out << jstr(G.getName().str()); }
    out << "],\"ctors\":" << (M->getGlobalVariable("llvm.global_ctors") ? 1 : 0) << "}\n"; return 0; }
  if (argc > 4 && std::string(argv[4]) == "scev") {
    Scev S(*M); std::ifstream jobs(argv[2]); std::ofstream out(argv[3]); std::string line; bool first = true; out << "[";
    while (std::getline(jobs, line)) { std::istringstream is(line); std::string fn; uint64_t n; if (!(is >> fn >> n)) continue; Function *F = M->getFunction(fn); if (!first) out << ",\n"; first = false;
      out << "{\"fn\":" << jstr(fn) << ",\"n\":" << n << ",\"r\":" << (F && !F->isDeclaration() ? S.job(F, n) : "{\"err\":\"missing\"}") << "}"; }
    out << "]\n"; return 0; }
  std::ifstream jobs(argv[2]); std::ofstream out(argv[3]); std::string line; out << "{\"jobs\":[\n"; bool first = true; std::vector<T> roots; std::set<T> rootset;
  auto root = [&](T t) { if (rootset.insert(t).second) roots.push_back(t); };
  while (std::getline(jobs, line)) {
    std::istringstream is(line); std::string fn, ns, flags; unsigned elem; if (!(is >> fn >> ns >> elem >> flags)) continue;
    Function *F = M->getFunction(fn); if (!first) out << ",\n"; first = false;
    out << "{\"fn\":" << jstr(fn) << ",\"n\":" << (ns == "-" ? "null" : ns);
    if (!F || F->isDeclaration()) { out << ",\"err\":\"missing\"}"; continue; }
    FOOT = flags.find('f') != std::string::npos; Interp in(*M); in.elemsize = elem; in.maxsteps = 2000000; if (ns != "-" && std::stoull(ns) < 1000000) in.maxsteps += 8000 * std::stoull(ns); if (FOOT) in.maxsteps = 200000000; std::string err; Val ret; std::vector<uint32_t> bufs;
    try {
      std::vector<Val> args; unsigned i = 0, na = F->arg_size();
      for (auto &A : F->args()) {
        if (A.getType()->isPointerTy()) { Obj o; o.kind = KBUF; o.name = "A" + std::to_string(i); o.elem = elem; o.size = -1; uint32_t id = in.objs.size(); in.objs.push_back(o); bufs.push_back(id); args.push_back({TT.ptr(id, 0)}); }
        else if (ns != "-" && i + 1 == na) args.push_back({TT.cst(std::stoull(ns), in.leaf(A.getType()))});
        else { std::vector<Interp::LeafPos> lp; in.leaves(A.getType(), 0, lp); Val v; for (size_t k = 0; k < lp.size(); ++k) v.push_back(TT.put({OARG, lp[k].ty, 0, i, (int64_t)k, {}})); args.push_back(v); }
        ++i; }
      ret = in.callFunc(F, args); if (in.deadEnd) err = "aborts";
    } catch (Unsupported &u) { err = u.why + " @ " + in.loc(); }
    out << ",\"err\":" << (err.empty() ? "null" : jstr(err));
    out << ",\"steps\":" << in.steps << ",\"cmpc\":["; { bool q = true; for (auto v : in.cmpc) { if (!q) out << ","; q = false; out << v; } } out << "]";
    if (FOOT) { out << ",\"ranges\":["; bool q = true; for (auto &r : in.ranges) for (auto &iv : r.second) { if (!q) out << ","; q = false; out << "[\"" << r.first.first << "\"," << jstr(in.objs[r.first.second].name) << "," << iv.first << "," << iv.second << "]"; } out << "]"; for (auto &o : in.objs) if (o.kind == KBUF) o.m.clear(); }
    // accesses, merged
    out << ",\"acc\":["; bool f2 = true;
    for (auto &a : in.acc) { if (!f2) out << ","; f2 = false; root(a.cond); out << "[\"" << a.kind << "\"," << jstr(in.objs[a.obj].name) << "," << a.off << "," << a.size << "," << a.align << "," << a.cond << "," << jstr(a.loc) << "," << jstr(a.fn) << "," << (in.objs[a.obj].kind == KGLOBAL ? 1 : 0) << "]"; }
    out << "],\"mem\":{"; f2 = true;
    bool rel = flags.find('r') != std::string::npos;
    for (uint32_t b : bufs) { auto &o = in.objs[b]; if (!f2) out << ","; f2 = false; out << jstr(o.name) << ":["; bool f3 = true;
      for (auto &e : o.m) { T t = e.second.t; if (N(t).op == OLD && N(t).c0 == b && N(t).c1 == e.first) continue; // untouched
        if (rel) { Rel r; r.base = e.first; t = r.go(t); }
        root(t); if (!f3) out << ","; f3 = false; out << "[" << e.first << "," << e.second.size << "," << t << "]"; }
      out << "]"; }
    out << "},\"bufobj\":{"; f2 = true; for (uint32_t b : bufs) { if (!f2) out << ","; f2 = false; out << "\"" << b << "\":" << jstr(in.objs[b].name); }
    out << "},\"ret\":["; f2 = true; for (T t : ret) { root(t); if (!f2) out << ","; f2 = false; out << t; }
    out << "],\"calls\":["; f2 = true; for (auto &s : in.calls) { if (!f2) out << ","; f2 = false; out << jstr(s); }
    out << "],\"asserts\":["; f2 = true; for (auto &s : in.asserts) { root(s.first); if (!f2) out << ","; f2 = false; out << "[" << s.first << "," << jstr(s.second) << "]"; }
    out << "],\"ub\":["; f2 = true; for (auto &s : in.ub) { if (!f2) out << ","; f2 = false; out << jstr(s); }
    out << "]}";
  }
  out << "\n],\"terms\":[\n"; // topological (ids increase from operands to users only partly; emit by DFS)
  std::vector<char> seen(TT.n.size(), 0); std::vector<std::pair<T, size_t>> st; bool f1 = true;
  for (T r : roots) { if (seen[r]) continue; st.push_back({r, 0}); seen[r] = 1;
    while (!st.empty()) { auto &top = st.back(); if (top.second < N(top.first).a.size()) { T c = N(top.first).a[top.second++]; if (!seen[c]) { seen[c] = 1; st.push_back({c, 0}); } continue; }
      T t = top.first; st.pop_back(); const Node &n = N(t); if (!f1) out << ",\n"; f1 = false; out << "[" << t << ",\"";
      switch (n.op) { case OCONST: out << "const\",\"" << tystr(n.ty) << "\"," << n.c0; break; case OUNDEF: out << "undef\",\"" << tystr(n.ty) << "\""; break; case OARG: out << "arg\",\"" << tystr(n.ty) << "\"," << n.c0 << "," << n.c1; break;
        case OLD: out << (n.sym ? "ldr" : "ld") << "\",\"" << tystr(n.ty) << "\"," << n.c0 << "," << n.c1; break; case OPTR: out << "ptr\",\"p\"," << n.c0 << "," << n.c1; break;
        case OSYM: out << TT.syms[n.sym] << "\",\"" << tystr(n.ty) << "\""; if (TT.syms[n.sym] == "extract") out << "," << n.c0; else out << ",0"; out << ",["; for (size_t i = 0; i < n.a.size(); ++i) out << (i ? "," : "") << n.a[i]; out << "]"; break; }
      out << "]"; } }
  out << "\n]}\n"; return 0;
}
