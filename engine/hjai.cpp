// hjai - an abstract interpreter for LLVM IR, specialised to this repository.
//
// One abstract state per program point; states are joined at control-flow
// merges (immediate post-dominators); no path is enumerated, no path condition
// is handed to a solver.  Domains:
//   integers  : constants (or an if-then-else tree of constants)
//   pointers  : (allocation site instance, constant offset)
//   doubles   : value numbers = hash-consed terms over the symbolic inputs
//   memory    : per-region typed cells with an "uninitialised" bottom value
// Nothing of the analysed code is executed natively.
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APInt.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;

// ---------------------------------------------------------------- errors

// The analysis cannot decide: construct outside the abstract domains.
struct Undecided {
  std::string what;
};

// ---------------------------------------------------------------- terms

struct Term {
  int op; // index into opnames
  int a = -1, b = -1, c = -1;
  double k = 0;
  long id = 0;
  int loc = -1;
};

static std::vector<std::string> opnames;
static std::unordered_map<std::string, int> opindex;
static int opid(const std::string &s) {
  auto it = opindex.find(s);
  if (it != opindex.end())
    return it->second;
  int n = (int)opnames.size();
  opnames.push_back(s);
  opindex[s] = n;
  return n;
}

struct TermKey {
  int op, a, b, c;
  uint64_t k;
  long id;
  bool operator==(const TermKey &o) const {
    return op == o.op && a == o.a && b == o.b && c == o.c && k == o.k && id == o.id;
  }
};
struct TermHash {
  size_t operator()(const TermKey &t) const {
    size_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; };
    mix(t.op); mix(t.a + 1); mix(t.b + 1); mix(t.c + 1); mix(t.k); mix(t.id);
    return h;
  }
};
static std::vector<Term> T;
static std::unordered_map<TermKey, int, TermHash> Tmap;
static int curLoc();

static int mk(int op, int a = -1, int b = -1, int c = -1, double k = 0, long id = 0) {
  uint64_t kb;
  memcpy(&kb, &k, 8);
  TermKey key{op, a, b, c, kb, id};
  auto it = Tmap.find(key);
  if (it != Tmap.end())
    return it->second;
  Term t;
  t.op = op; t.a = a; t.b = b; t.c = c; t.k = k; t.id = id; t.loc = curLoc();
  T.push_back(t);
  int n = (int)T.size() - 1;
  Tmap[key] = n;
  return n;
}
static int OP_const, OP_sym, OP_symi, OP_add, OP_sub, OP_mul, OP_div, OP_neg, OP_ite, OP_iteb, OP_not,
    OP_and, OP_or, OP_xor, OP_true, OP_false, OP_f32, OP_i2f;
static int mkConst(double d) { return mk(OP_const, -1, -1, -1, d); }
static bool isConst(int t) { return T[t].op == OP_const; }

// Numeric value of a term without symbolic leaves (needed where the program
// takes an integer or a branch from constant floating-point arithmetic).
static bool evalClosed(int t, double &out) {
  const Term n = T[t];
  if (n.op == OP_const) { out = n.k; return true; }
  if (n.op == OP_sym || n.op == OP_symi) return false;
  double a = 0, b = 0, c = 0;
  if (n.op == OP_ite || n.op == OP_iteb) return false;
  if (n.a >= 0 && !evalClosed(n.a, a)) return false;
  if (n.b >= 0 && !evalClosed(n.b, b)) return false;
  if (n.c >= 0 && !evalClosed(n.c, c)) return false;
  const std::string &o = opnames[n.op];
  if (o == "add") out = a + b;
  else if (o == "sub") out = a - b;
  else if (o == "mul") out = a * b;
  else if (o == "div") out = a / b;
  else if (o == "neg") out = -a;
  else if (o == "f32") out = (float)a;
  else if (o == "sqrt") out = std::sqrt(a);
  else if (o == "cbrt") out = std::cbrt(a);
  else if (o == "fabs") out = std::fabs(a);
  else if (o == "floor") out = std::floor(a);
  else if (o == "ceil") out = std::ceil(a);
  else if (o == "trunc") out = std::trunc(a);
  else if (o == "round") out = std::round(a);
  else if (o == "pow") out = std::pow(a, b);
  else if (o == "log") out = std::log(a);
  else if (o == "log2") out = std::log2(a);
  else if (o == "log10") out = std::log10(a);
  else if (o == "exp") out = std::exp(a);
  else if (o == "sin") out = std::sin(a);
  else if (o == "cos") out = std::cos(a);
  else if (o == "tan") out = std::tan(a);
  else if (o == "fmin") out = std::fmin(a, b);
  else if (o == "fmax") out = std::fmax(a, b);
  else if (o == "hypot") out = std::hypot(a, b);
  else return false;
  return true;
}

static int mkBin(int op, int a, int b) {
  if (isConst(a) && isConst(b)) {
    double x = T[a].k, y = T[b].k, r;
    if (op == OP_add) r = x + y;
    else if (op == OP_sub) r = x - y;
    else if (op == OP_mul) r = x * y;
    else if (op == OP_div) r = x / y;
    else return mk(op, a, b);
    return mkConst(r);
  }
  return mk(op, a, b);
}
static int mkNot(int c) {
  if (T[c].op == OP_true) return mk(OP_false);
  if (T[c].op == OP_false) return mk(OP_true);
  if (T[c].op == OP_not) return T[c].a;
  return mk(OP_not, c);
}
static int mkIte(int c, int a, int b) {
  if (a == b) return a;
  if (T[c].op == OP_not) return mk(OP_ite, T[c].a, b, a);
  return mk(OP_ite, c, a, b);
}

// ---------------------------------------------------------------- values

enum VK : uint8_t { VUndef, VInt, VTerm, VBool, VPtr, VAgg, VIte };
struct Ext;
struct Val {
  VK k = VUndef;
  uint8_t w = 0;  // bit width for VInt
  int32_t r = 0;  // region for VPtr, term for VTerm / VBool
  int64_t i = 0;  // value / offset
  std::shared_ptr<Ext> x;
};
struct Ext {
  std::vector<Val> e; // aggregate elements, or {then, else} of VIte
  int cond = -1;
};

static Val vInt(uint64_t v, unsigned w) {
  Val r;
  r.k = VInt;
  r.w = (uint8_t)w;
  if (w < 64) v &= ((1ull << w) - 1);
  r.i = (int64_t)v;
  return r;
}
static int64_t sx(const Val &v) {
  if (v.w >= 64) return v.i;
  uint64_t m = 1ull << (v.w - 1);
  uint64_t x = (uint64_t)v.i;
  return (int64_t)((x ^ m) - m);
}
static Val vTerm(int t) { Val r; r.k = VTerm; r.r = t; return r; }
static Val vBool(int t) { Val r; r.k = VBool; r.r = t; r.w = 1; return r; }
static Val vPtr(int reg, int64_t off) { Val r; r.k = VPtr; r.r = reg; r.i = off; return r; }
static Val vUndef() { return Val(); }
static Val vIteRaw(int c, const Val &a, const Val &b) {
  Val r;
  r.k = VIte;
  r.x = std::make_shared<Ext>();
  r.x->cond = c;
  r.x->e = {a, b};
  return r;
}
static bool sameVal(const Val &a, const Val &b) {
  if (a.k != b.k) return false;
  switch (a.k) {
  case VUndef: return true;
  case VInt: return a.i == b.i && a.w == b.w;
  case VTerm: case VBool: return a.r == b.r;
  case VPtr: return a.r == b.r && a.i == b.i;
  case VIte:
    return a.x->cond == b.x->cond && sameVal(a.x->e[0], b.x->e[0]) && sameVal(a.x->e[1], b.x->e[1]);
  case VAgg:
    if (a.x->e.size() != b.x->e.size()) return false;
    for (size_t i = 0; i < a.x->e.size(); i++)
      if (!sameVal(a.x->e[i], b.x->e[i])) return false;
    return true;
  }
  return false;
}
static int asBoolTerm(const Val &v);
static Val mergeVal(int c, const Val &a, const Val &b) {
  if (sameVal(a, b)) return a;
  if (a.k == VTerm && b.k == VTerm) return vTerm(mkIte(c, a.r, b.r));
  if ((a.k == VBool || (a.k == VInt && a.w == 1)) && (b.k == VBool || (b.k == VInt && b.w == 1)))
    return vBool(mk(OP_iteb, c, asBoolTerm(a), asBoolTerm(b)));
  if (a.k == VAgg && b.k == VAgg && a.x->e.size() == b.x->e.size()) {
    Val r;
    r.k = VAgg;
    r.x = std::make_shared<Ext>();
    for (size_t i = 0; i < a.x->e.size(); i++) r.x->e.push_back(mergeVal(c, a.x->e[i], b.x->e[i]));
    return r;
  }
  // a term on one side and the bit pattern of a double on the other
  auto toTerm = [](const Val &v, int &t) {
    if (v.k == VTerm) { t = v.r; return true; }
    if (v.k == VInt && v.w == 64) { double d; memcpy(&d, &v.i, 8); t = mkConst(d); return true; }
    return false;
  };
  int ta, tb;
  if ((a.k == VTerm || b.k == VTerm) && toTerm(a, ta) && toTerm(b, tb)) return vTerm(mkIte(c, ta, tb));
  return vIteRaw(c, a, b);
}
static int asBoolTerm(const Val &v) {
  if (v.k == VBool) return v.r;
  if (v.k == VInt) return mk(v.i & 1 ? OP_true : OP_false);
  if (v.k == VIte) return mk(OP_iteb, v.x->cond, asBoolTerm(v.x->e[0]), asBoolTerm(v.x->e[1]));
  throw Undecided{"not a truth value"};
}

// ---------------------------------------------------------------- memory

struct Cell {
  uint32_t size;
  int loc;
  Val v;
};
enum RK : uint8_t { RStack, RHeap, RGlobal, RFunc };
struct Region {
  int64_t size = 0;
  RK kind = RStack;
  bool alive = true;
  bool constant = false;
  std::string name;
  bool tls = false;
  int allocLoc = -1;
  std::map<int64_t, Cell> cells;
  const Function *fn = nullptr;
};
struct Frozen { int r; int64_t lo, hi; long tag; };
struct State {
  std::unordered_map<int, std::shared_ptr<Region>> mem;
  std::vector<Frozen> frozen;
  std::vector<Val> caught; // exceptions being handled
  long failIn = 0; // the n-th allocation from now on fails
};

// ---------------------------------------------------------------- analysis

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;

struct LocNode { const Instruction *I; int parent; };
static std::vector<LocNode> Locs;
static std::map<std::pair<const Instruction *, int>, int> LocMap, LocBase; // LocBase: of the prelude

struct FnInfo {
  std::unordered_map<const Value *, int> slot;
  bool pdomDone = false;
  std::unordered_map<const BasicBlock *, const BasicBlock *> ipdom; // over blocks that reach a return
};
static std::unordered_map<const Function *, std::unique_ptr<FnInfo>> FnInfos;
static FnInfo &fnInfo(const Function *F) {
  auto &p = FnInfos[F];
  if (!p) {
    p = std::make_unique<FnInfo>();
    int n = 0;
    for (auto &A : F->args()) p->slot[&A] = n++;
    for (auto &B : *F)
      for (auto &I : B)
        if (!I.getType()->isVoidTy()) p->slot[&I] = n++;
  }
  return *p;
}

struct Frame {
  const Function *F;
  FnInfo *info;
  std::vector<Val> env;
  std::vector<int> allocas;
  int parentLoc;
  std::vector<Val> varargs;
  // exception in flight for landing pads
  Val excPtr;
};

enum FK { FStop, FRet, FThrow, FDead };
struct Flow {
  FK k = FRet;
  const BasicBlock *pred = nullptr;
  Val v;
  std::string excType;
  std::string excMsg;
  Val excPtr;
};

struct OutRec { long tag; long idx; char kind; int term; int64_t i; int loc; std::string s; };
struct Finding { std::string kind, what; int loc; std::vector<int> guard; };
struct GuardExit { std::string kind, what; int loc; std::vector<int> guard; };

static State S;
static std::vector<int> Guard;
// Trace partitioning: used for an entry when joining the branches loses too
// much; every data-dependent branch then splits the analysis.
static bool Partition = false;
static std::vector<char> Choices;
static size_t ChoicePos = 0;
static bool choose(int cond);
static std::vector<OutRec> Outs;
static std::vector<Finding> Finds;
static std::set<std::string> FindSeen;
static std::vector<GuardExit> Exits;
static std::vector<long> EntryArgs;
static const Instruction *CurI = nullptr;
static int CurParent = -1;
static long Steps = 0, MaxSteps = 400000000;
static int Depth = 0;
static int NextRegion = 1;
static int ForkDepth = 0;
static long Allocs = 0, ForksTotal = 0;
static bool AllocWatch = false, FailMode = false;
static int PrecFloor = 0; // significand bits every value on the data path must keep (0: any)
static std::unordered_map<const GlobalValue *, int> GlobalRegion;
static std::unordered_map<int, const GlobalValue *> RegionGlobal;
static std::set<const Function *> Visited;
static long CallSites = 0;
static std::map<std::string, int> TypeIds;
static std::set<std::string> UnknownExt;

static int curLoc() {
  if (!CurI) return -1;
  auto key = std::make_pair(CurI, CurParent);
  auto it = LocMap.find(key);
  if (it != LocMap.end()) return it->second;
  if (!LocBase.empty() && (it = LocBase.find(key)) != LocBase.end()) return it->second;
  Locs.push_back({CurI, CurParent});
  int n = (int)Locs.size() - 1;
  LocMap[key] = n;
  return n;
}

static std::string fileOf(const Instruction *I, int &line) {
  line = 0;
  if (auto *L = I->getDebugLoc().get()) {
    line = L->getLine();
    std::string f = L->getFilename().str();
    if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
    return f;
  }
  return "";
}
static std::string RepoPrefix = "/repo/";
static std::string locStr(int loc) {
  std::string out;
  int n = 0;
  while (loc >= 0 && n < 6) {
    int line;
    const Instruction *I = Locs[loc].I;
    std::string f = fileOf(I, line);
    if (f.rfind(RepoPrefix, 0) == 0) {
      std::string fn;
      if (auto *SP = I->getFunction()->getSubprogram()) fn = SP->getName().str();
      if (!out.empty()) out += " <- ";
      out += f.substr(RepoPrefix.size()) + ":" + std::to_string(line) + " (" + fn + ")";
      n++;
    }
    loc = Locs[loc].parent;
  }
  if (out.empty()) out = "(outside the repository's sources)";
  return out;
}

static void finding(const std::string &kind, const std::string &what) {
  int l = curLoc();
  std::string key = kind + "|" + what + "|" + std::to_string(l);
  if (!FindSeen.insert(key).second) return;
  Finds.push_back({kind, what, l, Guard});
}

static std::shared_ptr<Region> &regW(int r) {
  auto &p = S.mem[r];
  if (p.use_count() > 1) p = std::make_shared<Region>(*p);
  return p;
}
static Region *regR(int r) {
  auto it = S.mem.find(r);
  return it == S.mem.end() ? nullptr : it->second.get();
}
static int newRegion(int64_t size, RK kind, const std::string &name) {
  int id = NextRegion++;
  auto p = std::make_shared<Region>();
  p->size = size;
  p->kind = kind;
  p->name = name;
  p->allocLoc = curLoc();
  S.mem[id] = p;
  return id;
}

static Val evalConst(const Constant *C);
static void initRegion(Region &R, int64_t off, const Constant *C);

static int globalRegion(const GlobalValue *G) {
  if (auto *GA = dyn_cast<GlobalAlias>(G)) return globalRegion(cast<GlobalValue>(GA->getAliaseeObject()));
  auto it = GlobalRegion.find(G);
  if (it != GlobalRegion.end() && S.mem.count(it->second)) return it->second;
  int id;
  if (it != GlobalRegion.end()) id = it->second;
  else {
    id = NextRegion++;
    GlobalRegion[G] = id;
    RegionGlobal[id] = G;
  }
  auto p = std::make_shared<Region>();
  p->name = G->getName().str();
  S.mem[id] = p;
  if (auto *F = dyn_cast<Function>(G)) {
    p->kind = RFunc;
    p->fn = F;
    p->size = 1;
    p->constant = true;
  } else if (auto *V = dyn_cast<GlobalVariable>(G)) {
    p->kind = RGlobal;
    p->constant = V->isConstant();
    p->tls = V->isThreadLocal();
    p->size = DL->getTypeAllocSize(V->getValueType());
    if (V->hasInitializer()) {
      Region tmp = *p;
      initRegion(tmp, 0, V->getInitializer());
      *S.mem[id] = tmp;
    } else {
      p->size = 1 << 20; // external object, contents unknown
    }
  }
  return id;
}

static void putCell(Region &R, int64_t off, uint32_t size, const Val &v, int loc) {
  // remove or trim overlapping cells
  auto it = R.cells.lower_bound(off);
  if (it != R.cells.begin()) {
    auto p = std::prev(it);
    if (p->first + (int64_t)p->second.size > off) it = p;
  }
  while (it != R.cells.end() && it->first < off + (int64_t)size) {
    int64_t co = it->first;
    Cell c = it->second;
    if (co == off && c.size == size) {
      it->second.v = v;
      it->second.loc = loc;
      return;
    }
    it = R.cells.erase(it);
    // keep the bytes outside the overwritten range when they are known
    auto keep = [&](int64_t lo, int64_t hi) {
      if (lo >= hi) return;
      if (c.v.k == VInt && c.size <= 8) {
        for (int64_t b = lo; b < hi; b++) {
          uint64_t byte = ((uint64_t)c.v.i >> (8 * (b - co))) & 0xff;
          R.cells[b] = Cell{1, c.loc, vInt(byte, 8)};
        }
      }
    };
    keep(co, std::min(off, co + (int64_t)c.size));
    keep(std::max(off + (int64_t)size, co), co + (int64_t)c.size);
    it = R.cells.lower_bound(off);
  }
  R.cells[off] = Cell{size, loc, v};
}

static void initRegion(Region &R, int64_t off, const Constant *C) {
  Type *Ty = C->getType();
  if (isa<UndefValue>(C)) return;
  if (auto *CA = dyn_cast<ConstantAggregateZero>(C)) {
    int64_t n = DL->getTypeAllocSize(Ty);
    int64_t b = 0;
    for (; b + 8 <= n; b += 8) R.cells[off + b] = Cell{8, -1, vInt(0, 64)};
    for (; b < n; b++) R.cells[off + b] = Cell{1, -1, vInt(0, 8)};
    (void)CA;
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) initRegion(R, off + (int64_t)SL->getElementOffset(i), CS->getOperand(i));
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    int64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) initRegion(R, off + es * i, CA->getOperand(i));
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    int64_t es = CD->getElementByteSize();
    for (unsigned i = 0; i < CD->getNumElements(); i++) initRegion(R, off + es * i, CD->getElementAsConstant(i));
    return;
  }
  R.cells[off] = Cell{(uint32_t)DL->getTypeStoreSize(Ty), -1, evalConst(C)};
}

static double apToDouble(const APFloat &f) {
  APFloat g = f;
  bool li;
  g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  return g.convertToDouble();
}

static Val evalConst(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() > 64) {
      if (CI->getValue().getActiveBits() <= 64) { Val v = vInt(CI->getValue().getLoBits(64).getZExtValue(), 64); v.w = 128; return v; }
      throw Undecided{"wide integer"};
    }
    return vInt(CI->getZExtValue(), CI->getBitWidth());
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) return vTerm(mkConst(apToDouble(CF->getValueAPF())));
  if (isa<ConstantPointerNull>(C)) return vPtr(0, 0);
  if (isa<UndefValue>(C)) {
    return vUndef();
  }
  if (auto *G = dyn_cast<GlobalValue>(C)) return vPtr(globalRegion(G), 0);
  if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C) || isa<ConstantVector>(C)) {
    Val r;
    r.k = VAgg;
    r.x = std::make_shared<Ext>();
    unsigned n = 0;
    if (auto *ST = dyn_cast<StructType>(C->getType())) n = ST->getNumElements();
    else if (auto *AT = dyn_cast<ArrayType>(C->getType())) n = AT->getNumElements();
    else if (auto *VT = dyn_cast<FixedVectorType>(C->getType())) n = VT->getNumElements();
    for (unsigned i = 0; i < n; i++) r.x->e.push_back(evalConst(C->getAggregateElement(i)));
    return r;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (!GO->accumulateConstantOffset(*DL, off)) throw Undecided{"constant address"};
      Val b = evalConst(cast<Constant>(GO->getPointerOperand()));
      if (b.k != VPtr) throw Undecided{"constant address"};
      b.i += off.getSExtValue();
      return b;
    }
    switch (CE->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return evalConst(CE->getOperand(0));
    default: break;
    }
    throw Undecided{"constant expression"};
  }
  throw Undecided{"constant kind"};
}

static bool rangeOk(Region *R, int64_t off, int64_t n) { return off >= 0 && off + n <= R->size; }

static const char *kindName(RK k) {
  switch (k) {
  case RStack: return "local object";
  case RHeap: return "heap block";
  case RGlobal: return "global object";
  default: return "function";
  }
}

static bool checkAccess(const Val &p, int64_t n, bool write) {
  const char *rw = write ? "write" : "read";
  if (p.k == VUndef) { finding("uninit-pointer", std::string(rw) + " through an uninitialised pointer"); return false; }
  if (p.k != VPtr) throw Undecided{"access through a computed address"};
  if (p.r == 0) { finding("null", std::string(rw) + " through a null pointer"); return false; }
  Region *R = regR(p.r);
  if (!R || !R->alive) { finding("dead", std::string(rw) + " of storage that is already released"); return false; }
  if (R->kind == RFunc) throw Undecided{"access to code"};
  if (n > 0 && !rangeOk(R, p.i, n)) {
    finding("bounds", std::string(rw) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(p.i) + " of a " +
                          std::to_string(R->size) + "-byte " + kindName(R->kind));
    return false;
  }
  return true;
}

static Val cellToType(const Val &v, Type *Ty, uint32_t size) {
  if (v.k == VIte) {
    return mergeVal(v.x->cond, cellToType(v.x->e[0], Ty, size), cellToType(v.x->e[1], Ty, size));
  }
  if (Ty->isFloatingPointTy()) {
    if (v.k == VInt) {
      if (size == 8) { double d; memcpy(&d, &v.i, 8); return vTerm(mkConst(d)); }
      if (size == 4) { float f; uint32_t u = (uint32_t)v.i; memcpy(&f, &u, 4); return vTerm(mkConst(f)); }
      if (v.i == 0) return vTerm(mkConst(0));
      throw Undecided{"bit pattern"};
    }
    return v;
  }
  if (Ty->isIntegerTy()) {
    unsigned w = Ty->getIntegerBitWidth();
    if (v.k == VInt) return vInt((uint64_t)v.i, w > 64 ? 64 : w);
    if (v.k == VTerm && isConst(v.r) && w == 64) { uint64_t u; memcpy(&u, &T[v.r].k, 8); return vInt(u, 64); }
    if (v.k == VBool) return v; // i8 holding a truth value
    return v;
  }
  if (Ty->isPointerTy()) {
    if (v.k == VInt && v.i == 0) return vPtr(0, 0);
    return v;
  }
  return v;
}

static int LastLoadLoc = -1;
static Val loadScalar(const Val &p, Type *Ty) {
  uint32_t n = (uint32_t)DL->getTypeStoreSize(Ty);
  if (p.k == VIte) {
    Val a = loadScalar(p.x->e[0], Ty);
    Val b = loadScalar(p.x->e[1], Ty);
    return mergeVal(p.x->cond, a, b);
  }
  if (!checkAccess(p, n, false)) return vUndef();
  Region *R = regR(p.r);
  auto it = R->cells.find(p.i);
  if (it != R->cells.end() && it->second.size == n) {
    LastLoadLoc = it->second.loc;
    return cellToType(it->second.v, Ty, n);
  }
  if (R->kind == RGlobal && R->cells.empty() && !R->constant) {
    return vUndef();
  }
  // assemble from constant bytes
  if (n <= 8) {
    uint64_t acc = 0;
    for (uint32_t b = 0; b < n; b++) {
      int64_t o = p.i + b;
      auto jt = R->cells.upper_bound(o);
      if (jt == R->cells.begin()) return vUndef();
      --jt;
      if (o >= jt->first + (int64_t)jt->second.size) return vUndef();
      const Val &cv = jt->second.v;
      uint64_t bits;
      if (cv.k == VInt) bits = (uint64_t)cv.i;
      else if (cv.k == VTerm && isConst(cv.r) && jt->second.size == 8) memcpy(&bits, &T[cv.r].k, 8);
      else if (cv.k == VUndef) return vUndef();
      else throw Undecided{"partial read of a symbolic value"};
      acc |= ((bits >> (8 * (o - jt->first))) & 0xff) << (8 * b);
    }
    return cellToType(vInt(acc, n * 8), Ty, n);
  }
  return vUndef();
}

static Val load(const Val &p, Type *Ty);
static Val addOff(const Val &p, int64_t d) {
  if (p.k == VIte) return mergeVal(p.x->cond, addOff(p.x->e[0], d), addOff(p.x->e[1], d));
  if (p.k == VPtr) { Val r = p; r.i += d; return r; }
  if (p.k == VUndef) return p;
  throw Undecided{"address arithmetic"};
}
static Val load(const Val &p, Type *Ty) {
  if (auto *ST = dyn_cast<StructType>(Ty)) {
    Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) r.x->e.push_back(load(addOff(p, SL->getElementOffset(i)), ST->getElementType(i)));
    return r;
  }
  if (auto *AT = dyn_cast<ArrayType>(Ty)) {
    Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
    int64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++) r.x->e.push_back(load(addOff(p, es * i), AT->getElementType()));
    return r;
  }
  if (auto *VT = dyn_cast<FixedVectorType>(Ty)) {
    Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
    int64_t es = DL->getTypeStoreSize(VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++) r.x->e.push_back(load(addOff(p, es * i), VT->getElementType()));
    return r;
  }
  return loadScalar(p, Ty);
}

// Initialisation of function-local static objects (inside the guard) with a
// value that does not depend on the operands is not shared mutable state.
static int InStaticInit = 0;
static bool closedVal(const Val *v) {
  if (!v) return true;
  double d;
  if (v->k == VTerm) return evalClosed(v->r, d);
  if (v->k == VBool) return T[v->r].op == OP_true || T[v->r].op == OP_false;
  if (v->k == VIte) return false;
  if (v->k == VAgg) { for (auto &e : v->x->e) if (!closedVal(&e)) return false; }
  return true;
}
static void noteWrite(const Val &p, int64_t n, const Val *v = nullptr) {
  Region *R = regR(p.r);
  if (R->kind == RGlobal && R->name.rfind("_ZGV", 0) != 0) {
    if (R->tls) finding("thread-local-write", "write to thread-local object " + R->name);
    else if (!InStaticInit) finding("global-write", "write to global object " + R->name);
    else if (!closedVal(v)) finding("static-from-operand", "static object " + R->name + " is initialised from the operands of the first call");
  }
  for (auto &f : S.frozen)
    if (f.r == p.r && p.i < f.hi && p.i + n > f.lo) finding("operand-write", "write into operand " + std::to_string(f.tag));
}

static void storeScalar(const Val &p, const Val &v, uint32_t n) {
  if (p.k == VIte) {
    // guarded store
    int c = p.x->cond;
    for (int s = 0; s < 2; s++) {
      const Val &q = p.x->e[s];
      if (q.k == VPtr && checkAccess(q, n, true)) {
        noteWrite(q, n, &v);
        auto &R = regW(q.r);
        auto it = R->cells.find(q.i);
        Val old = (it != R->cells.end() && it->second.size == n) ? it->second.v : vUndef();
        putCell(*R, q.i, n, s == 0 ? mergeVal(c, v, old) : mergeVal(c, old, v), curLoc());
      } else if (q.k == VIte) throw Undecided{"nested guarded store"};
    }
    return;
  }
  if (!checkAccess(p, n, true)) return;
  noteWrite(p, n, &v);
  if (regR(p.r)->constant) finding("const-write", "write to constant storage");
  putCell(*regW(p.r), p.i, n, v, curLoc());
}
static void store(const Val &p, const Val &v, Type *Ty) {
  if (auto *ST = dyn_cast<StructType>(Ty)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) store(addOff(p, SL->getElementOffset(i)), v.k == VAgg ? v.x->e[i] : vUndef(), ST->getElementType(i));
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(Ty)) {
    int64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++) store(addOff(p, es * i), v.k == VAgg ? v.x->e[i] : vUndef(), AT->getElementType());
    return;
  }
  if (auto *VT = dyn_cast<FixedVectorType>(Ty)) {
    int64_t es = DL->getTypeStoreSize(VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++) store(addOff(p, es * i), v.k == VAgg ? v.x->e[i] : vUndef(), VT->getElementType());
    return;
  }
  storeScalar(p, v, (uint32_t)DL->getTypeStoreSize(Ty));
}

static void memCopy(const Val &d, const Val &s, int64_t n) {
  if (n == 0) return;
  if (s.k == VIte || d.k == VIte) {
    if (s.k == VIte && d.k == VPtr) {
      // copy word by word through the merge
      Type *I64 = Type::getInt64Ty(Ctx), *I8 = Type::getInt8Ty(Ctx);
      int64_t b = 0;
      for (; b + 8 <= n; b += 8) storeScalar(addOff(d, b), loadScalar(addOff(s, b), I64), 8);
      for (; b < n; b++) storeScalar(addOff(d, b), loadScalar(addOff(s, b), I8), 1);
      return;
    }
    throw Undecided{"guarded block copy"};
  }
  bool so = checkAccess(s, n, false), dok = checkAccess(d, n, true);
  if (!so || !dok) return;
  noteWrite(d, n);
  std::vector<std::pair<int64_t, Cell>> tmp;
  {
    Region *R = regR(s.r);
    auto it = R->cells.lower_bound(s.i);
    if (it != R->cells.begin()) {
      auto p = std::prev(it);
      if (p->first + (int64_t)p->second.size > s.i) it = p;
    }
    for (; it != R->cells.end() && it->first < s.i + n; ++it) {
      int64_t lo = it->first, hi = lo + it->second.size;
      if (lo >= s.i && hi <= s.i + n) tmp.push_back({lo - s.i, it->second});
      else if (it->second.v.k == VInt) {
        for (int64_t b = std::max(lo, s.i); b < std::min(hi, s.i + n); b++)
          tmp.push_back({b - s.i, Cell{1, it->second.loc, vInt(((uint64_t)it->second.v.i >> (8 * (b - lo))) & 0xff, 8)}});
      } else if (it->second.v.k != VUndef) throw Undecided{"partial copy of a symbolic value"};
    }
  }
  Region &D = *regW(d.r);
  // clear the destination range
  {
    auto it = D.cells.lower_bound(d.i);
    if (it != D.cells.begin()) {
      auto p = std::prev(it);
      if (p->first + (int64_t)p->second.size > d.i) {
        Val u = vUndef();
        putCell(D, d.i, 1, u, -1);
        it = D.cells.lower_bound(d.i);
      }
    }
    while (it != D.cells.end() && it->first < d.i + n) {
      if (it->first + (int64_t)it->second.size > d.i + n) {
        int64_t o = d.i + n - 1;
        putCell(D, o, 1, vUndef(), -1);
        it = D.cells.lower_bound(d.i);
        continue;
      }
      it = D.cells.erase(it);
    }
  }
  for (auto &c : tmp) D.cells[d.i + c.first] = c.second;
}
static void memSet(const Val &d, int byte, int64_t n) {
  if (n == 0) return;
  if (!checkAccess(d, n, true)) return;
  noteWrite(d, n);
  Region &D = *regW(d.r);
  int64_t b = 0;
  uint64_t pat = 0;
  for (int i = 0; i < 8; i++) pat |= (uint64_t)(byte & 0xff) << (8 * i);
  for (; b < n && ((d.i + b) & 7); b++) putCell(D, d.i + b, 1, vInt(byte & 0xff, 8), curLoc());
  for (; b + 8 <= n; b += 8) putCell(D, d.i + b, 8, vInt(pat, 64), curLoc());
  for (; b < n; b++) putCell(D, d.i + b, 1, vInt(byte & 0xff, 8), curLoc());
}
static std::string readCStr(const Val &p, int64_t maxn = 100000) {
  std::string s;
  if (p.k != VPtr) throw Undecided{"string pointer"};
  for (int64_t i = 0; i < maxn; i++) {
    Val b = loadScalar(addOff(p, i), Type::getInt8Ty(Ctx));
    if (b.k != VInt) throw Undecided{"string contents"};
    if (b.i == 0) return s;
    s += (char)b.i;
  }
  throw Undecided{"string length"};
}

static void mergeStates(int c, State &A, State &B) {
  if (A.failIn != B.failIn) throw Undecided{"allocations depend on the values"};
  // result into A;  c true -> A
  for (auto &kv : B.mem) {
    auto it = A.mem.find(kv.first);
    if (it == A.mem.end()) { A.mem[kv.first] = kv.second; continue; }
    if (it->second == kv.second) continue;
    auto ra = it->second, rb = kv.second;
    auto m = std::make_shared<Region>(*ra);
    if (ra->alive != rb->alive) m->alive = true; // released on one side only
    std::set<int64_t> offs;
    for (auto &x : ra->cells) offs.insert(x.first);
    for (auto &x : rb->cells) offs.insert(x.first);
    for (int64_t o : offs) {
      auto ia = ra->cells.find(o), ib = rb->cells.find(o);
      bool ha = ia != ra->cells.end(), hb = ib != rb->cells.end();
      if (ha && hb && ia->second.size == ib->second.size) {
        if (!sameVal(ia->second.v, ib->second.v)) {
          m->cells[o].v = mergeVal(c, ia->second.v, ib->second.v);
          m->cells[o].size = ia->second.size;
          m->cells[o].loc = ia->second.loc;
        }
      } else if (ha && !hb) m->cells[o] = Cell{ia->second.size, ia->second.loc, mergeVal(c, ia->second.v, vUndef())};
      else if (hb && !ha) m->cells[o] = Cell{ib->second.size, ib->second.loc, mergeVal(c, vUndef(), ib->second.v)};
      else throw Undecided{"merge of differently shaped memory"};
    }
    it->second = m;
  }
}

// ---------------------------------------------------------------- operations

template <class Fn> static Val lift1(const Val &a, Fn f) {
  if (a.k == VIte) return mergeVal(a.x->cond, lift1(a.x->e[0], f), lift1(a.x->e[1], f));
  return f(a);
}
static Val project(const Val &v, int cond, bool side) {
  if (v.k != VIte) return v;
  if (v.x->cond == cond) return project(v.x->e[side ? 0 : 1], cond, side);
  return vIteRaw(v.x->cond, project(v.x->e[0], cond, side), project(v.x->e[1], cond, side));
}
template <class Fn> static Val lift2(const Val &a, const Val &b, Fn f, int depth = 0) {
  if (depth > 12) throw Undecided{"case distinction too deep"};
  const Val *p = a.k == VIte ? &a : b.k == VIte ? &b : nullptr;
  if (!p) return f(a, b);
  int c = p->x->cond;
  return mergeVal(c, lift2(project(a, c, true), project(b, c, true), f, depth + 1), lift2(project(a, c, false), project(b, c, false), f, depth + 1));
}

static int termOf(const Val &v) {
  if (v.k == VTerm) return v.r;
  if (v.k == VInt && v.w == 64) { double d; memcpy(&d, &v.i, 8); return mkConst(d); }
  throw Undecided{"expected a number"};
}

static Val intBin(unsigned opc, const Val &a0, const Val &b0, unsigned w) {
  return lift2(a0, b0, [&](const Val &a, const Val &b) -> Val {
    if (a.k == VUndef || b.k == VUndef) return vUndef();
    if (w == 1 && (a.k == VBool || b.k == VBool)) {
      int x = asBoolTerm(a), y = asBoolTerm(b);
      auto isC = [](const Val &v, int k) { return v.k == VInt && (v.i & 1) == k; };
      switch (opc) {
      case Instruction::And:
        if (isC(a, 0) || isC(b, 0)) return vInt(0, 1);
        if (isC(a, 1)) return b;
        if (isC(b, 1)) return a;
        return vBool(mk(OP_and, x, y));
      case Instruction::Or:
        if (isC(a, 1) || isC(b, 1)) return vInt(1, 1);
        if (isC(a, 0)) return b;
        if (isC(b, 0)) return a;
        return vBool(mk(OP_or, x, y));
      case Instruction::Xor:
        if (isC(a, 1)) return vBool(mkNot(y));
        if (isC(b, 1)) return vBool(mkNot(x));
        if (isC(a, 0)) return b;
        if (isC(b, 0)) return a;
        return vBool(mk(OP_xor, x, y));
      default: throw Undecided{"truth value arithmetic"};
      }
    }
    if (a.k == VBool && b.k == VInt && opc == Instruction::And && b.i == 1) return a;
    if (a.k == VBool && b.k == VInt && opc == Instruction::Xor && b.i == 1) return vBool(mkNot(a.r));
    // a truth value used as a number: split into its two cases
    if (a.k == VBool) return intBin(opc, vIteRaw(a.r, vInt(1, w), vInt(0, w)), b, w);
    if (b.k == VBool) return intBin(opc, a, vIteRaw(b.r, vInt(1, w), vInt(0, w)), w);
    if (a.k == VPtr || b.k == VPtr) {
      if (opc == Instruction::Sub && a.k == VPtr && b.k == VPtr) {
        if (a.r == b.r) return vInt((uint64_t)(a.i - b.i), w);
        if (a.r != 0 && b.r != 0) { finding("ptr-diff", "difference of pointers into different objects"); }
        return vInt((((uint64_t)a.r << 32) + a.i) - (((uint64_t)b.r << 32) + b.i), w);
      }
      if (opc == Instruction::Add && a.k == VPtr && b.k == VInt) return vPtr(a.r, a.i + sx(b));
      if (opc == Instruction::Add && b.k == VPtr && a.k == VInt) return vPtr(b.r, b.i + sx(a));
      if (opc == Instruction::Sub && a.k == VPtr && b.k == VInt) return vPtr(a.r, a.i - sx(b));
      auto lin = [](const Val &v) -> uint64_t { return v.k == VPtr ? ((uint64_t)v.r << 32) + (uint64_t)v.i : (uint64_t)v.i; };
      uint64_t x = lin(a), y = lin(b);
      switch (opc) {
      case Instruction::And: {
        uint64_t z = x & y;
        if (a.k == VPtr && ((y >> 32) == 0xffffffffull || y > 0xffffffffull)) return vPtr(a.r, (int64_t)((uint64_t)a.i & (y & 0xffffffff)));
        return vInt(z, w);
      }
      case Instruction::URem: if (y) return vInt(x % y, w); break;
      case Instruction::LShr: return vInt(x >> y, w);
      default: break;
      }
      throw Undecided{"address arithmetic"};
    }
    if (a.k == VTerm || b.k == VTerm) {
      auto tt = [&](const Val &v) { return v.k == VTerm ? v.r : mkConst((double)sx(v)); };
      switch (opc) {
      case Instruction::Add: return vTerm(mkBin(OP_add, tt(a), tt(b)));
      case Instruction::Sub: return vTerm(mkBin(OP_sub, tt(a), tt(b)));
      case Instruction::Mul: return vTerm(mkBin(OP_mul, tt(a), tt(b)));
      case Instruction::And:
        // fabs through the bit pattern
        if (b.k == VInt && (uint64_t)b.i == 0x7fffffffffffffffull) return vTerm(mk(opid("fabs"), a.r));
        break;
      case Instruction::Xor:
        if (b.k == VInt && (uint64_t)b.i == 0x8000000000000000ull) return vTerm(mk(OP_neg, a.r));
        break;
      }
      throw Undecided{"symbolic integer arithmetic"};
    }
    if (a.k != VInt || b.k != VInt) throw Undecided{"integer operands"};
    unsigned ww = w > 64 ? 64 : w;
    uint64_t x = (uint64_t)a.i, y = (uint64_t)b.i;
    int64_t sa = sx(a), sb = sx(b);
    switch (opc) {
    case Instruction::Add: return vInt(x + y, ww);
    case Instruction::Sub: return vInt(x - y, ww);
    case Instruction::Mul: return vInt(x * y, ww);
    case Instruction::UDiv: if (!y) { finding("div0", "integer division by zero"); return vUndef(); } return vInt(x / y, ww);
    case Instruction::SDiv: if (!sb) { finding("div0", "integer division by zero"); return vUndef(); } if (sb == -1) return vInt(0 - x, ww); return vInt((uint64_t)(sa / sb), ww);
    case Instruction::URem: if (!y) { finding("div0", "integer division by zero"); return vUndef(); } return vInt(x % y, ww);
    case Instruction::SRem: if (!sb) { finding("div0", "integer division by zero"); return vUndef(); } if (sb == -1) return vInt(0, ww); return vInt((uint64_t)(sa % sb), ww);
    case Instruction::And: return vInt(x & y, ww);
    case Instruction::Or: return vInt(x | y, ww);
    case Instruction::Xor: return vInt(x ^ y, ww);
    case Instruction::Shl: return vInt(y >= ww ? 0 : x << y, ww);
    case Instruction::LShr: return vInt(y >= ww ? 0 : x >> y, ww);
    case Instruction::AShr: return vInt((uint64_t)(sa >> std::min<uint64_t>(y, 63)), ww);
    }
    throw Undecided{"integer operation"};
  });
}

static Val icmp(CmpInst::Predicate P, const Val &a0, const Val &b0) {
  return lift2(a0, b0, [&](const Val &a, const Val &b) -> Val {
    if (a.k == VUndef || b.k == VUndef) return vUndef();
    auto res = [](bool r) { return vInt(r, 1); };
    if (a.k == VBool || b.k == VBool) {
      const Val &t = a.k == VBool ? a : b, &o = a.k == VBool ? b : a;
      if (o.k == VInt) {
        if (P == CmpInst::ICMP_NE && o.i == 0) return vBool(t.r);
        if (P == CmpInst::ICMP_EQ && o.i == 0) return vBool(mkNot(t.r));
        if (P == CmpInst::ICMP_EQ && o.i == 1) return vBool(t.r);
        if (P == CmpInst::ICMP_NE && o.i == 1) return vBool(mkNot(t.r));
        return icmp(P, a.k == VBool ? vIteRaw(a.r, vInt(1, o.w), vInt(0, o.w)) : a, b.k == VBool ? vIteRaw(b.r, vInt(1, o.w), vInt(0, o.w)) : b);
      }
      if (P == CmpInst::ICMP_EQ) return vBool(mkNot(mk(OP_xor, asBoolTerm(a), asBoolTerm(b))));
      if (P == CmpInst::ICMP_NE) return vBool(mk(OP_xor, asBoolTerm(a), asBoolTerm(b)));
    }
    if (a.k == VPtr || b.k == VPtr) {
      auto lin = [](const Val &v) -> uint64_t { return v.k == VPtr ? ((uint64_t)v.r << 32) + (uint64_t)v.i : (uint64_t)v.i; };
      uint64_t x = lin(a), y = lin(b);
      switch (P) {
      case CmpInst::ICMP_EQ: return res(x == y);
      case CmpInst::ICMP_NE: return res(x != y);
      case CmpInst::ICMP_ULT: return res(x < y);
      case CmpInst::ICMP_ULE: return res(x <= y);
      case CmpInst::ICMP_UGT: return res(x > y);
      case CmpInst::ICMP_UGE: return res(x >= y);
      default: throw Undecided{"address comparison"};
      }
    }
    if (a.k == VTerm || b.k == VTerm) {
      auto tt = [&](const Val &v) { return v.k == VTerm ? v.r : mkConst((double)sx(v)); };
      int x = tt(a), y = tt(b);
      const char *n = nullptr;
      switch (P) {
      case CmpInst::ICMP_EQ: return vBool(mk(opid("cmp_oeq"), std::min(x, y), std::max(x, y)));
      case CmpInst::ICMP_NE: return vBool(mkNot(mk(opid("cmp_oeq"), std::min(x, y), std::max(x, y))));
      case CmpInst::ICMP_SLT: n = "cmp_olt"; break;
      case CmpInst::ICMP_SLE: n = "cmp_ole"; break;
      case CmpInst::ICMP_SGT: n = "cmp_olt"; std::swap(x, y); break;
      case CmpInst::ICMP_SGE: n = "cmp_ole"; std::swap(x, y); break;
      default: throw Undecided{"symbolic integer comparison"};
      }
      return vBool(mk(opid(n), x, y));
    }
    if (a.k != VInt || b.k != VInt) throw Undecided{"comparison operands"};
    uint64_t x = (uint64_t)a.i, y = (uint64_t)b.i;
    int64_t sa = sx(a), sb = sx(b);
    switch (P) {
    case CmpInst::ICMP_EQ: return res(x == y);
    case CmpInst::ICMP_NE: return res(x != y);
    case CmpInst::ICMP_ULT: return res(x < y);
    case CmpInst::ICMP_ULE: return res(x <= y);
    case CmpInst::ICMP_UGT: return res(x > y);
    case CmpInst::ICMP_UGE: return res(x >= y);
    case CmpInst::ICMP_SLT: return res(sa < sb);
    case CmpInst::ICMP_SLE: return res(sa <= sb);
    case CmpInst::ICMP_SGT: return res(sa > sb);
    case CmpInst::ICMP_SGE: return res(sa >= sb);
    default: break;
    }
    throw Undecided{"comparison"};
  });
}

static Val fcmp(CmpInst::Predicate P, const Val &a0, const Val &b0) {
  return lift2(a0, b0, [&](const Val &a, const Val &b) -> Val {
    if (a.k == VUndef || b.k == VUndef) return vUndef();
    int x = termOf(a), y = termOf(b);
    double u, v;
    if (P == CmpInst::FCMP_TRUE) return vInt(1, 1);
    if (P == CmpInst::FCMP_FALSE) return vInt(0, 1);
    if (evalClosed(x, u) && evalClosed(y, v)) {
      bool r = false;
      bool un = std::isnan(u) || std::isnan(v);
      switch (P) {
      case CmpInst::FCMP_OEQ: r = u == v; break;
      case CmpInst::FCMP_UEQ: r = un || u == v; break;
      case CmpInst::FCMP_ONE: r = !un && u != v; break;
      case CmpInst::FCMP_UNE: r = u != v; break;
      case CmpInst::FCMP_OLT: r = u < v; break;
      case CmpInst::FCMP_ULT: r = un || u < v; break;
      case CmpInst::FCMP_OLE: r = u <= v; break;
      case CmpInst::FCMP_ULE: r = un || u <= v; break;
      case CmpInst::FCMP_OGT: r = u > v; break;
      case CmpInst::FCMP_UGT: r = un || u > v; break;
      case CmpInst::FCMP_OGE: r = u >= v; break;
      case CmpInst::FCMP_UGE: r = un || u >= v; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      default: throw Undecided{"comparison"};
      }
      return vInt(r, 1);
    }
    auto q = [&](const char *nm, int l, int r) { return mk(opid(nm), l, r); };
    auto sy = [&](const char *nm) { return x <= y ? q(nm, x, y) : q(nm, y, x); };
    switch (P) {
    case CmpInst::FCMP_OEQ: return vBool(sy("cmp_oeq"));
    case CmpInst::FCMP_UNE: return vBool(mkNot(sy("cmp_oeq")));
    case CmpInst::FCMP_ONE: return vBool(sy("cmp_one"));
    case CmpInst::FCMP_UEQ: return vBool(mkNot(sy("cmp_one")));
    case CmpInst::FCMP_ORD: return vBool(sy("cmp_ord"));
    case CmpInst::FCMP_UNO: return vBool(mkNot(sy("cmp_ord")));
    case CmpInst::FCMP_OLT: return vBool(q("cmp_olt", x, y));
    case CmpInst::FCMP_OGT: return vBool(q("cmp_olt", y, x));
    case CmpInst::FCMP_OLE: return vBool(q("cmp_ole", x, y));
    case CmpInst::FCMP_OGE: return vBool(q("cmp_ole", y, x));
    case CmpInst::FCMP_UGE: return vBool(mkNot(q("cmp_olt", x, y)));
    case CmpInst::FCMP_ULE: return vBool(mkNot(q("cmp_olt", y, x)));
    case CmpInst::FCMP_UGT: return vBool(mkNot(q("cmp_ole", x, y)));
    case CmpInst::FCMP_ULT: return vBool(mkNot(q("cmp_ole", y, x)));
    default: throw Undecided{"comparison"};
    }
  });
}

static Val fbin(int op, const Val &a, const Val &b) {
  return lift2(a, b, [&](const Val &x, const Val &y) -> Val {
    if (x.k == VUndef || y.k == VUndef) return vUndef();
    if (x.k == VAgg && y.k == VAgg) {
      Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
      for (size_t i = 0; i < x.x->e.size(); i++) r.x->e.push_back(fbin(op, x.x->e[i], y.x->e[i]));
      return r;
    }
    return vTerm(mkBin(op, termOf(x), termOf(y)));
  });
}
static Val fun1(int op, const Val &a) {
  return lift1(a, [&](const Val &x) -> Val { return x.k == VUndef ? x : vTerm(mk(op, termOf(x))); });
}

// ---------------------------------------------------------------- interpreter

static Flow execFunction(const Function *F, std::vector<Val> args, int parentLoc, const CallBase *CB);
static Val operand(Frame &fr, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return evalConst(C);
  auto it = fr.info->slot.find(V);
  if (it == fr.info->slot.end()) throw Undecided{"operand"};
  return fr.env[it->second];
}
static void setv(Frame &fr, const Instruction *I, const Val &v) { fr.env[fr.info->slot[I]] = v; }

static bool stripPrefix(std::string &s, const std::string &p) {
  if (s.rfind(p, 0) == 0) { s = s.substr(p.size()); return true; }
  return false;
}

static const std::set<std::string> Math1 = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10", "expm1", "log", "log2", "log10", "log1p", "sqrt", "cbrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "erf", "erfc", "tgamma", "lgamma", "logb"};
static const std::set<std::string> Math2 = {"pow", "atan2", "hypot", "fmod", "fmin", "fmax", "copysign", "fdim", "remainder"};

static std::string excName(const Val &ti) {
  if (ti.k == VPtr) {
    if (ti.r == 0) return "...";
    auto it = RegionGlobal.find(ti.r);
    if (it != RegionGlobal.end()) {
      std::string n = it->second->getName().str();
      std::string d = demangle(n);
      stripPrefix(d, "typeinfo for ");
      return d;
    }
  }
  return "?";
}
static bool excMatches(const std::string &thrown, const std::string &handler) {
  if (handler == "..." || handler == thrown) return true;
  static const std::map<std::string, std::string> base = {
      {"std::runtime_error", "std::exception"}, {"std::logic_error", "std::exception"}, {"std::invalid_argument", "std::logic_error"}, {"std::domain_error", "std::logic_error"}, {"std::length_error", "std::logic_error"}, {"std::out_of_range", "std::logic_error"}, {"std::range_error", "std::runtime_error"}, {"std::overflow_error", "std::runtime_error"}, {"std::underflow_error", "std::runtime_error"}, {"std::bad_alloc", "std::exception"}, {"std::bad_array_new_length", "std::bad_alloc"}, {"std::bad_cast", "std::exception"},
      {"pybind11::index_error", "pybind11::builtin_exception"}, {"pybind11::key_error", "pybind11::builtin_exception"}, {"pybind11::attribute_error", "pybind11::builtin_exception"}, {"pybind11::stop_iteration", "pybind11::builtin_exception"}, {"pybind11::import_error", "pybind11::builtin_exception"}, {"pybind11::buffer_error", "pybind11::builtin_exception"}, {"pybind11::reference_cast_error", "pybind11::builtin_exception"}, {"pybind11::value_error", "pybind11::builtin_exception"}, {"pybind11::type_error", "pybind11::builtin_exception"}, {"pybind11::builtin_exception", "std::runtime_error"}, {"pybind11::error_already_set", "pybind11::builtin_exception"}, {"pybind11::cast_error", "pybind11::builtin_exception"}};
  std::string t = thrown;
  for (int i = 0; i < 6; i++) {
    auto it = base.find(t);
    if (it == base.end()) return false;
    t = it->second;
    if (t == handler) return true;
  }
  return false;
}

// --- precision: operations in a type narrower than PrecFloor, narrowing
// conversions and constants that are the rounding of something else to a
// narrower type.  Values that are exact in few bits are the same in any type.
static int fpBits(const Type *t) { return t->isHalfTy() ? 11 : t->isBFloatTy() ? 8 : t->isFloatTy() ? 24 : t->isDoubleTy() ? 53 : t->isX86_FP80Ty() ? 64 : t->isFP128Ty() ? 113 : 0; }
static int sigBits(double d) {
  if (d == 0 || !std::isfinite(d)) return 0;
  int e;
  uint64_t m = (uint64_t)std::ldexp(std::fabs(std::frexp(d, &e)), 53);
  int z = __builtin_ctzll(m);
  return 53 - z;
}
static bool exactVal(const Val &v) {
  double d;
  if (v.k == VTerm && evalClosed(v.r, d)) { return sigBits(d) <= 18 || (d == std::floor(d) && std::fabs(d) < 1e15); }
  if (v.k == VIte) { for (size_t i = 0; i < v.x->e.size(); i++) if (!exactVal(v.x->e[i])) return false; return true; }
  return v.k == VInt || v.k == VUndef;
}
// constants count when they are widened again (or used as they are)
static std::vector<char> FreeOfSyms; // 0: not known, 1: no, 2: yes
static bool symFree(int t) {
  if (t < 0) return true;
  if ((size_t)t >= FreeOfSyms.size()) FreeOfSyms.resize(T.size(), 0);
  if (FreeOfSyms[t]) return FreeOfSyms[t] == 2;
  const Term n = T[t];
  bool r = n.op != OP_sym && n.op != OP_symi && symFree(n.a) && symFree(n.b) && symFree(n.c);
  FreeOfSyms[t] = r ? 2 : 1;
  return r;
}
static bool constVal(const Val &v) {
  if (v.k == VTerm) return symFree(v.r);
  if (v.k == VIte) { for (size_t i = 0; i < v.x->e.size(); i++) if (!constVal(v.x->e[i])) return false; return true; }
  return v.k == VInt || v.k == VUndef || v.k == VBool;
}
static bool inProbe(const Instruction &I) {
  const DILocation *L = I.getDebugLoc().get();
  if (!L) return false;
  std::string f = L->getFilename().str();
  return f.find("hyperjet.h") == std::string::npos && f.rfind("/usr/", 0) != 0;
}
static const char *fpName(const Type *t) { return t->isDoubleTy() ? "double" : t->isFloatTy() ? "float" : t->isX86_FP80Ty() ? "long double" : "a narrower type"; }
static void precisionCheck(const Instruction &I, const Val &result, const std::vector<Val> &ops) {
  if (inProbe(I)) return;
  if (auto *Cb = dyn_cast<CallBase>(&I)) {
    int b = fpBits(I.getType());
    if (!b) return;
    const Function *F = Cb->getCalledFunction();
    if (!F || !F->isDeclaration() || F->getName().starts_with("hj_")) return;
    if (b < PrecFloor && !constVal(result)) finding("narrow", F->getName().str() + " is computed in " + fpName(I.getType()));
  } else if (isa<FPTruncInst>(I)) {
    if (fpBits(I.getType()) < PrecFloor && !constVal(result)) finding("narrow", std::string("conversion to ") + fpName(I.getType()));
  } else if (isa<FPExtInst>(I)) {
    int b = fpBits(I.getOperand(0)->getType());
    if (b < PrecFloor && ops[0].k == VTerm && symFree(ops[0].r) && !exactVal(ops[0])) finding("narrow", std::string("a constant rounded to ") + fpName(I.getOperand(0)->getType()));
  } else if (isa<BinaryOperator>(I)) {
    int b = fpBits(I.getType());
    if (b && b < PrecFloor && !constVal(result)) finding("narrow", std::string("arithmetic in ") + fpName(I.getType()));
  }
  if (isa<BinaryOperator>(I) || isa<CallBase>(I) || isa<StoreInst>(I) || isa<SelectInst>(I) || isa<PHINode>(I) || isa<ReturnInst>(I))
    for (const Use &u : I.operands())
      if (auto *C = dyn_cast<ConstantFP>(u.get())) {
        int b = fpBits(C->getType());
        if (!b || b < PrecFloor) continue;
        const APFloat &f = C->getValueAPF();
        if (!f.isFinite() || f.isZero() || f.isInteger()) continue;
        for (int nb : {24, 53}) {
          if (nb >= PrecFloor) continue;
          bool lost;
          APFloat g(f);
          g.convert(nb == 24 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
          if (!lost && sigBits(g.convertToDouble()) > nb - 8) finding("narrow", std::string("a constant rounded to ") + (nb == 24 ? "float" : "double"));
        }
      }
}

static std::map<int, std::string> ExcMsg; // region of exception object -> message

// External functions and modelled library functions.
// Returns true when handled.
static bool model(const Function *F, std::vector<Val> &a, const CallBase *CB, Flow &fl) {
  std::string n = F->getName().str();
  fl.k = FRet;
  fl.v = vUndef();
  auto ci = [&](int k) -> int64_t {
    if (a[k].k == VUndef) throw Undecided{"uninitialised argument of " + n};
    if (a[k].k != VInt) throw Undecided{"non-constant argument of " + n};
    return sx(a[k]);
  };
  if (n.rfind("llvm.", 0) == 0) {
    if (n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.lifetime.start", 0) == 0 || n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.experimental.noalias", 0) == 0 || n.rfind("llvm.invariant", 0) == 0 || n.rfind("llvm.prefetch", 0) == 0 || n.rfind("llvm.va_end", 0) == 0 || n == "llvm.stackrestore.p0") return true;
    if (n.rfind("llvm.lifetime.end", 0) == 0) {
      if (a[1].k == VPtr && a[1].r && a[1].i == 0 && regR(a[1].r)) regW(a[1].r)->cells.clear();
      return true;
    }
    if (n.rfind("llvm.stacksave", 0) == 0) { fl.v = vPtr(0, 0); return true; }
    if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0) { memCopy(a[0], a[1], ci(2)); return true; }
    if (n.rfind("llvm.memset", 0) == 0) {
      if (a[1].k == VUndef) return true;
      memSet(a[0], (int)ci(1), ci(2));
      return true;
    }
    if (n.rfind("llvm.expect", 0) == 0 || n.rfind("llvm.launder", 0) == 0 || n.rfind("llvm.strip", 0) == 0 || n.rfind("llvm.ssa.copy", 0) == 0 || n.rfind("llvm.threadlocal.address", 0) == 0 || n.rfind("llvm.ptr.annotation",0)==0) { fl.v = a[0]; return true; }
    if (n.rfind("llvm.is.constant", 0) == 0) { fl.v = vInt(0, 1); return true; }
    if (n.rfind("llvm.objectsize", 0) == 0) { fl.v = vInt(~0ull, CB->getType()->getIntegerBitWidth()); return true; }
    if (n.rfind("llvm.trap", 0) == 0 || n.rfind("llvm.ubsantrap", 0) == 0) { Exits.push_back({"trap", "trap", curLoc(), Guard}); fl.k = FDead; return true; }
    if (n.rfind("llvm.eh.typeid.for", 0) == 0) {
      std::string t = excName(a[0]);
      if (!TypeIds.count(t)) { int k = (int)TypeIds.size() + 2; TypeIds[t] = k; }
      fl.v = vInt(TypeIds[t], 32);
      return true;
    }
    if (n.rfind("llvm.fmuladd", 0) == 0 || n.rfind("llvm.fma", 0) == 0) { fl.v = fbin(OP_add, fbin(OP_mul, a[0], a[1]), a[2]); return true; }
    if (n.rfind("llvm.copysign", 0) == 0) { fl.v = lift2(a[0], a[1], [&](const Val &x, const Val &y) { return vTerm(mk(opid("copysign"), termOf(x), termOf(y))); }); return true; }
    if (n.rfind("llvm.powi", 0) == 0) { fl.v = lift2(a[0], a[1], [&](const Val &x, const Val &y) { return vTerm(mk(opid("pow"), termOf(x), mkConst((double)sx(y)))); }); return true; }
    {
      std::string m = n.substr(5);
      auto dot = m.find('.');
      std::string base = m.substr(0, dot);
      if (base == "minnum" || base == "minimum") base = "fmin";
      if (base == "maxnum" || base == "maximum") base = "fmax";
      if (Math1.count(base)) { fl.v = fun1(opid(base), a[0]); return true; }
      if (Math2.count(base)) { fl.v = lift2(a[0], a[1], [&](const Val &x, const Val &y) -> Val { if (x.k == VUndef || y.k == VUndef) return vUndef(); return vTerm(mk(opid(base), termOf(x), termOf(y))); }); return true; }
      if (base == "smax" || base == "smin" || base == "umax" || base == "umin") {
        CmpInst::Predicate P = base == "smax" ? CmpInst::ICMP_SGT : base == "smin" ? CmpInst::ICMP_SLT : base == "umax" ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        Val c = icmp(P, a[0], a[1]);
        if (c.k != VInt) throw Undecided{"min/max"};
        fl.v = c.i ? a[0] : a[1];
        return true;
      }
      if (base == "abs") { if (a[0].k != VInt) throw Undecided{"abs"}; fl.v = sx(a[0]) < 0 ? vInt(-(uint64_t)a[0].i, a[0].w) : a[0]; return true; }
      if (base == "ctpop" || base == "ctlz" || base == "cttz") {
        uint64_t x = (uint64_t)ci(0);
        unsigned w = a[0].w;
        if (w < 64) x &= (1ull << w) - 1;
        uint64_t r = 0;
        if (base == "ctpop") r = __builtin_popcountll(x);
        else if (base == "ctlz") r = x ? __builtin_clzll(x) - (64 - w) : w;
        else r = x ? __builtin_ctzll(x) : w;
        fl.v = vInt(r, w);
        return true;
      }
      if (m.find("with.overflow") != std::string::npos) {
        if (a[0].k != VInt || a[1].k != VInt) throw Undecided{"overflow arithmetic"};
        unsigned w = a[0].w;
        APInt x(w, (uint64_t)a[0].i), y(w, (uint64_t)a[1].i), r;
        bool ov = false;
        if (base == "umul") r = x.umul_ov(y, ov);
        else if (base == "smul") r = x.smul_ov(y, ov);
        else if (base == "uadd") r = x.uadd_ov(y, ov);
        else if (base == "sadd") r = x.sadd_ov(y, ov);
        else if (base == "usub") r = x.usub_ov(y, ov);
        else r = x.ssub_ov(y, ov);
        Val v; v.k = VAgg; v.x = std::make_shared<Ext>();
        v.x->e = {vInt(r.getZExtValue(), w), vInt(ov, 1)};
        fl.v = v;
        return true;
      }
      if (base == "is" && m.rfind("is.fpclass", 0) == 0) {
        fl.v = lift1(a[0], [&](const Val &x) { return vBool(mk(opid("fpclass"), termOf(x), -1, -1, 0, (long)ci(1))); });
        return true;
      }
    }
    throw Undecided{"intrinsic " + n};
  }
  // --- analysis intrinsics of the probes
  if (n.rfind("hj_", 0) == 0) {
    if (n == "hj_sym") { fl.v = vTerm(mk(OP_sym, -1, -1, -1, 0, (long)ci(0))); return true; }
    if (n == "hj_symi") { fl.v = vTerm(mk(OP_symi, -1, -1, -1, 0, (long)ci(0))); return true; }
    if (n == "hj_arg") {
      int64_t k = ci(0);
      if (k >= (int64_t)EntryArgs.size()) throw Undecided{"entry argument"};
      fl.v = vInt((uint64_t)EntryArgs[k], 64);
      return true;
    }
    auto emit = [&](long tag, long idx, const Val &v, int loc) {
      std::function<void(const Val &)> go = [&](const Val &x) {
        if (x.k == VUndef) Outs.push_back({tag, idx, 'u', -1, 0, loc, ""});
        else if (x.k == VTerm) Outs.push_back({tag, idx, 't', x.r, 0, loc, ""});
        else if (x.k == VBool) Outs.push_back({tag, idx, 'b', x.r, 0, loc, ""});
        else if (x.k == VInt) Outs.push_back({tag, idx, 'i', -1, sx(x), loc, ""});
        else if (x.k == VPtr) Outs.push_back({tag, idx, 'p', x.r, x.i, loc, ""});
        else if (x.k == VIte) {
          // an if-then-else of constants: keep it as a term
          std::function<int(const Val &)> tm = [&](const Val &y) -> int {
            if (y.k == VTerm) return y.r;
            if (y.k == VInt) return mkConst((double)sx(y));
            if (y.k == VUndef) return mk(opid("undef"));
            if (y.k == VIte) return mkIte(y.x->cond, tm(y.x->e[0]), tm(y.x->e[1]));
            throw Undecided{"output"};
          };
          Outs.push_back({tag, idx, 't', tm(x), 0, loc, ""});
        } else throw Undecided{"output"};
      };
      go(v);
    };
    if (n == "hj_out") { emit(ci(0), 0, a[1], a[1].k == VTerm ? T[a[1].r].loc : -1); return true; }
    if (n == "hj_outi" || n == "hj_outp") { emit(ci(0), 0, a[1], -1); return true; }
    if (n == "hj_outb") { emit(ci(0), 0, a[1], a[1].k == VBool ? T[a[1].r].loc : -1); return true; }
    if (n == "hj_outv" || n == "hj_outvf") {
      int64_t tag = ci(0), cnt = ci(2);
      Type *D = n == "hj_outv" ? Type::getDoubleTy(Ctx) : Type::getFloatTy(Ctx);
      int es = n == "hj_outv" ? 8 : 4;
      for (int64_t i = 0; i < cnt; i++) {
        LastLoadLoc = -1;
        Val v = loadScalar(addOff(a[1], i * es), D);
        emit(tag, i, v, LastLoadLoc);
      }
      return true;
    }
    if (n == "hj_outs") { Outs.push_back({(long)ci(0), 0, 's', -1, 0, curLoc(), readCStr(a[1])}); return true; }
    if (n == "hj_freeze") { if (a[0].k == VPtr && ci(1) > 0) S.frozen.push_back({a[0].r, a[0].i, a[0].i + ci(1), (long)ci(2)}); return true; }
    if (n == "hj_freeze_heap") { // every live heap block
      for (auto &kv : S.mem) if (kv.second->kind == RHeap && kv.second->alive) S.frozen.push_back({kv.first, 0, kv.second->size, (long)ci(0)});
      return true;
    }
    if (n == "hj_thaw") { S.frozen.clear(); return true; }
    if (n == "hj_precision") { PrecFloor = (int)ci(0); return true; }
    if (n == "hj_fail_alloc") { S.failIn = ci(0); FailMode = true; return true; }
    if (n == "hj_fail_left") { fl.v = vInt((uint64_t)S.failIn, 64); return true; }
    if (n == "hj_watch_alloc") { AllocWatch = ci(0) != 0; return true; }
    if (n == "hj_live") {
      // number of live heap blocks
      int64_t c = 0;
      for (auto &kv : S.mem) if (kv.second->kind == RHeap && kv.second->alive) c++;
      fl.v = vInt((uint64_t)c, 64);
      return true;
    }
    if (n == "hj_undecided") throw Undecided{readCStr(a[0])};
    if (n == "hj_range") { // is [p, p+n) inside live storage?
      bool ok = false;
      if (a[0].k == VPtr && a[0].r) { Region *R = regR(a[0].r); ok = R && R->alive && rangeOk(R, a[0].i, ci(1)); }
      fl.v = vInt(ok, 32);
      return true;
    }
    throw Undecided{"unknown probe intrinsic " + n};
  }
  // --- allocation
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "calloc" || n == "aligned_alloc" || n == "posix_memalign") {
    int64_t sz;
    if (n == "calloc") sz = ci(0) * ci(1);
    else if (n == "aligned_alloc") sz = ci(1);
    else if (n == "posix_memalign") sz = ci(2);
    else sz = ci(0);
    if (sz < 0 || sz > (1ll << 32)) {
      fl.k = FThrow;
      fl.excType = "std::bad_alloc";
      fl.excPtr = vPtr(newRegion(8, RHeap, "exception"), 0);
      return true;
    }
    if (S.failIn > 0 && --S.failIn == 0) {
      if (n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "_ZnwmRKSt9nothrow_t") { fl.v = vPtr(0, 0); return true; }
      if (n == "posix_memalign") { fl.v = vInt(12, 32); return true; }
      fl.k = FThrow;
      fl.excType = "std::bad_alloc";
      fl.excPtr = vPtr(newRegion(8, RHeap, "exception"), 0);
      return true;
    }
    if (AllocWatch) finding("alloc", "heap allocation of " + std::to_string(sz) + " bytes");
    Allocs++;
    int r = newRegion(sz, RHeap, "heap");
    if (n == "posix_memalign") { storeScalar(a[0], vPtr(r, 0), 8); fl.v = vInt(0, 32); return true; }
    fl.v = vPtr(r, 0);
    if (n == "calloc") memSet(fl.v, 0, sz);
    return true;
  }
  if (n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0 || n == "free") {
    std::function<void(const Val &)> fr = [&](const Val &p) {
      if (p.k == VIte) { fr(p.x->e[0]); fr(p.x->e[1]); return; }
      if (p.k == VUndef) { finding("uninit-pointer", "release of an uninitialised pointer"); return; }
      if (p.k != VPtr) throw Undecided{"release of a computed address"};
      if (p.r == 0) return;
      Region *R = regR(p.r);
      if (!R || !R->alive) { finding("double-free", "storage released twice"); return; }
      if (R->kind != RHeap || p.i != 0) { finding("bad-free", "release of storage that was not allocated"); return; }
      for (auto &f : S.frozen) if (f.r == p.r) finding("operand-write", "release of the storage of operand " + std::to_string(f.tag));
      auto &W = regW(p.r);
      W->alive = false;
      W->cells.clear();
    };
    fr(a[0]);
    return true;
  }
  if (n == "memcpy" || n == "memmove") { memCopy(a[0], a[1], ci(2)); fl.v = a[0]; return true; }
  if (n == "memset") { memSet(a[0], (int)ci(1), ci(2)); fl.v = a[0]; return true; }
  if (n == "strlen") { fl.v = vInt(readCStr(a[0]).size(), 64); return true; }
  if (n == "memcmp" || n == "bcmp") {
    int64_t c = ci(2);
    for (int64_t i = 0; i < c; i++) {
      Val x = loadScalar(addOff(a[0], i), Type::getInt8Ty(Ctx)), y = loadScalar(addOff(a[1], i), Type::getInt8Ty(Ctx));
      if (x.k != VInt || y.k != VInt) throw Undecided{"comparison of unknown bytes"};
      if (x.i != y.i) { fl.v = vInt((uint64_t)(int64_t)((x.i & 0xff) < (y.i & 0xff) ? -1 : 1), 32); return true; }
    }
    fl.v = vInt(0, 32);
    return true;
  }
  if (n == "strcmp") {
    int c = readCStr(a[0]).compare(readCStr(a[1]));
    fl.v = vInt((uint64_t)(int64_t)(c < 0 ? -1 : c > 0 ? 1 : 0), 32);
    return true;
  }
  if (n == "memchr") {
    int64_t c = ci(2), what = ci(1) & 0xff;
    for (int64_t i = 0; i < c; i++) {
      Val x = loadScalar(addOff(a[0], i), Type::getInt8Ty(Ctx));
      if (x.k != VInt) throw Undecided{"search in unknown bytes"};
      if ((x.i & 0xff) == what) { fl.v = addOff(a[0], i); return true; }
    }
    fl.v = vPtr(0, 0);
    return true;
  }
  // --- mathematics
  {
    std::string m = n;
    bool isf = false, isl = false;
    auto lookup = [&](const std::string &b) -> std::string {
      if (Math1.count(b) || Math2.count(b)) return b;
      if (b.size() > 1 && b.back() == 'f' && (Math1.count(b.substr(0, b.size() - 1)) || Math2.count(b.substr(0, b.size() - 1)))) { isf = true; return b.substr(0, b.size() - 1); }
      if (b.size() > 1 && b.back() == 'l' && (Math1.count(b.substr(0, b.size() - 1)) || Math2.count(b.substr(0, b.size() - 1)))) { isl = true; return b.substr(0, b.size() - 1); }
      return "";
    };
    if (F->isDeclaration()) {
      if (m.rfind("__", 0) == 0 && m.size() > 9 && m.substr(m.size() - 7) == "_finite") m = m.substr(2, m.size() - 9);
      std::string b = lookup(m);
      if (!b.empty()) {
        // single precision: the operation rounds to float; over the reals it
        // is the same function, so only conversions are recorded (fptrunc)
        (void)isf; (void)isl;
        if (Math1.count(b)) fl.v = fun1(opid(b), a[0]);
        else fl.v = lift2(a[0], a[1], [&](const Val &x, const Val &y) -> Val { if (x.k == VUndef || y.k == VUndef) return vUndef(); return vTerm(mk(opid(b), termOf(x), termOf(y))); });
        return true;
      }
      if (m == "fma" || m == "fmaf") { fl.v = fbin(OP_add, fbin(OP_mul, a[0], a[1]), a[2]); return true; }
      if (m == "ldexp") { fl.v = fbin(OP_mul, a[0], vTerm(mkConst(std::ldexp(1.0, (int)ci(1))))); return true; }
    }
  }
  // --- exceptions
  if (n == "__cxa_allocate_exception") { fl.v = vPtr(newRegion(ci(0), RHeap, "exception"), 0); return true; }
  if (n == "__cxa_free_exception") return true;
  if (n == "__cxa_end_catch") { if (!S.caught.empty()) S.caught.pop_back(); return true; }
  if (n == "__cxa_begin_catch") S.caught.push_back(a[0]);
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { fl.v = a[0]; return true; }
  if (n == "__cxa_throw") {
    fl.k = FThrow;
    fl.excType = excName(a[1]);
    fl.excPtr = a[0];
    if (a[0].k == VPtr && ExcMsg.count(a[0].r)) fl.excMsg = ExcMsg[a[0].r];
    return true;
  }
  if (n == "__cxa_rethrow") {
    fl.k = FThrow;
    fl.excType = "rethrown";
    if (!S.caught.empty() && S.caught.back().k == VPtr) {
      fl.excPtr = S.caught.back();
      if (ExcMsg.count(-fl.excPtr.r)) fl.excType = ExcMsg[-fl.excPtr.r];
      if (ExcMsg.count(fl.excPtr.r)) fl.excMsg = ExcMsg[fl.excPtr.r];
    } else fl.excPtr = vPtr(newRegion(8, RHeap, "exception"), 0);
    return true;
  }
  if (n == "__assert_fail" || n == "__assert_rtn" || n == "__assert") {
    Exits.push_back({"assert", readCStr(a[0]), curLoc(), Guard});
    fl.k = FDead;
    return true;
  }
  if (n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_pure_virtual" || n == "__cxa_throw_bad_array_new_length_") {
    Exits.push_back({"abort", n, curLoc(), Guard});
    fl.k = FDead;
    return true;
  }
  if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) {
    std::string d = demangle(n);
    auto p = d.find("__throw_");
    std::string t = d.substr(p + 8);
    t = t.substr(0, t.find('('));
    if (t == "out_of_range_fmt") t = "out_of_range";
    fl.k = FThrow;
    fl.excType = "std::" + t;
    fl.excPtr = vPtr(newRegion(8, RHeap, "exception"), 0);
    return true;
  }
  if (n == "__cxa_throw_bad_array_new_length") {
    fl.k = FThrow; fl.excType = "std::bad_array_new_length"; fl.excPtr = vPtr(newRegion(8, RHeap, "exception"), 0);
    return true;
  }
  if (F->isDeclaration()) {
    // constructors and destructors of the standard exception classes
    std::string d = demangle(n);
    static const char *excs[] = {"runtime_error", "logic_error", "invalid_argument", "domain_error", "length_error", "out_of_range", "range_error", "overflow_error", "underflow_error", "bad_alloc", "exception"};
    for (auto *e : excs) {
      std::string q = std::string("std::") + e + "::";
      if (d.rfind(q, 0) == 0) {
        if (d.find("::what") != std::string::npos) throw Undecided{"exception text"};
        if (d.find("(char const*)") != std::string::npos && a[0].k == VPtr) {
          try { ExcMsg[a[0].r] = readCStr(a[1]); } catch (Undecided &) {}
        }
        return true;
      }
    }
    if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") { fl.v = vInt(0, 32); return true; }
    if (n == "__cxa_guard_acquire") { InStaticInit++; fl.v = vInt(1, 32); return true; }
    if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") {
      InStaticInit--;
      if (n == "__cxa_guard_release" && a[0].k == VPtr) putCell(*regW(a[0].r), a[0].i, 1, vInt(1, 8), curLoc());
      fl.v = vInt(0, 32);
      return true;
    }
    if (n == "__cxa_demangle" || n == "printf" || n == "puts" || n == "fprintf" || n == "fwrite" || n == "putchar") { finding("io", "call of " + n); fl.v = vInt(0, 32); return true; }
    if (n == "__errno_location") { fl.v = vPtr(newRegion(4, RStack, "errno"), 0); return true; }
    UnknownExt.insert(demangle(n));
    throw Undecided{"call of " + demangle(n)};
  }
  return false;
}

static Flow callValue(Frame &fr, const CallBase *CB) {
  std::vector<Val> args;
  for (unsigned i = 0; i < CB->arg_size(); i++) {
    const Value *A = CB->getArgOperand(i);
    if (A->getType()->isMetadataTy()) { args.push_back(vUndef()); continue; }
    Val v = operand(fr, A);
    if (CB->isByValArgument(i)) {
      Type *Ty = CB->getParamByValType(i);
      int64_t sz = DL->getTypeAllocSize(Ty);
      int r = newRegion(sz, RStack, "byval");
      memCopy(vPtr(r, 0), v, sz);
      v = vPtr(r, 0);
    }
    args.push_back(v);
  }
  const Function *F = CB->getCalledFunction();
  if (!F) {
    if (CB->isInlineAsm()) throw Undecided{"inline assembly"};
    Val c = operand(fr, CB->getCalledOperand());
    if (c.k != VPtr) throw Undecided{"indirect call"};
    Region *R = regR(c.r);
    if (!R || R->kind != RFunc) throw Undecided{"indirect call target"};
    F = R->fn;
  }
  CallSites++;
  const Instruction *saveI = CurI;
  int saveP = CurParent;
  Flow fl;
  if (!model(F, args, CB, fl)) fl = execFunction(F, args, curLoc(), CB);
  CurI = saveI;
  CurParent = saveP;
  return fl;
}

static Flow execFrom(Frame &fr, const BasicBlock *bb, const BasicBlock *pred, const BasicBlock *stop, bool skipPhis);

// Immediate post-dominators with respect to the normal returns only: a side
// that can only throw or abort does not take part in a join.
static void computePostDom(const Function *F, FnInfo &fi) {
  fi.pdomDone = true;
  std::vector<const BasicBlock *> order; // reverse post-order of the reversed graph
  std::unordered_map<const BasicBlock *, int> num;
  std::set<const BasicBlock *> seen;
  std::vector<const BasicBlock *> exits;
  for (auto &B : *F) if (isa<ReturnInst>(B.getTerminator())) exits.push_back(&B);
  std::vector<const BasicBlock *> post;
  for (auto *E : exits) {
    if (!seen.insert(E).second) continue;
    std::vector<std::pair<const BasicBlock *, std::vector<const BasicBlock *>>> st;
    auto push = [&](const BasicBlock *B) {
      std::vector<const BasicBlock *> ps(pred_begin(B), pred_end(B));
      st.push_back({B, ps});
    };
    push(E);
    while (!st.empty()) {
      if (st.back().second.empty()) { post.push_back(st.back().first); st.pop_back(); continue; }
      auto *P = st.back().second.back();
      st.back().second.pop_back();
      if (seen.insert(P).second) push(P);
    }
  }
  int n = (int)post.size();
  for (int i = 0; i < n; i++) num[post[i]] = i; // higher number = nearer to the exit
  // virtual exit has number n
  std::vector<int> idom(n + 1, -1);
  idom[n] = n;
  bool ch = true;
  auto inter = [&](int a, int b) {
    while (a != b) {
      while (a < b) a = idom[a];
      while (b < a) b = idom[b];
    }
    return a;
  };
  while (ch) {
    ch = false;
    for (int i = n - 1; i >= 0; i--) {
      int nd = -1;
      auto consider = [&](int k) { if (idom[k] >= 0) nd = nd < 0 ? k : inter(nd, k); };
      if (isa<ReturnInst>(post[i]->getTerminator())) consider(n);
      for (auto *Sx : successors(post[i])) {
        auto it = num.find(Sx);
        if (it != num.end()) consider(it->second);
      }
      if (nd >= 0 && idom[i] != nd) { idom[i] = nd; ch = true; }
    }
  }
  for (int i = 0; i < n; i++) fi.ipdom[post[i]] = (idom[i] >= 0 && idom[i] < n) ? post[idom[i]] : nullptr;
}

static Val phiIn(Frame &fr, const PHINode &P, const BasicBlock *pred) {
  if (!pred) return fr.env[fr.info->slot[&P]]; // already merged by an inner join
  return operand(fr, P.getIncomingValueForBlock(pred));
}
static void evalPhis(Frame &fr, const BasicBlock *bb, const BasicBlock *pred) {
  if (!pred) return;
  std::vector<std::pair<const Instruction *, Val>> tmp;
  for (auto &P : bb->phis()) tmp.push_back({&P, operand(fr, P.getIncomingValueForBlock(pred))});
  for (auto &t : tmp) setv(fr, t.first, t.second);
}

// Branch on an undecidable condition: interpret both sides up to the
// immediate post-dominator and join the two states there.
static bool choose(int t) {
  for (int g : Guard) {
    if (g == t) return true;
    if (T[g].op == OP_not && T[g].a == t) return false;
    if (T[t].op == OP_not && T[t].a == g) return false;
  }
  if (ChoicePos == Choices.size()) Choices.push_back(1);
  bool b = Choices[ChoicePos++];
  if (ChoicePos > 400) throw Undecided{"too many data-dependent branches"};
  Guard.push_back(b ? t : mkNot(t));
  return b;
}

static Flow forkJoin(Frame &fr, int cond, const BasicBlock *cur, const BasicBlock *bt, const BasicBlock *bf, const BasicBlock *stop, const BasicBlock *&cont, bool &contSkip) {
  if (ForkDepth > 60) throw Undecided{"too many nested data-dependent branches"};
  ForksTotal++;
  if (ForksTotal > 200000) throw Undecided{"too many data-dependent branches"};
  if (!fr.info->pdomDone) computePostDom(fr.F, *fr.info);
  const BasicBlock *join = nullptr;
  {
    auto it = fr.info->ipdom.find(cur);
    if (it != fr.info->ipdom.end()) join = it->second;
  }
  ForkDepth++;
  State S0 = S;
  std::vector<Val> env0 = fr.env;
  auto allocas0 = fr.allocas;
  Guard.push_back(cond);
  Flow ft = execFrom(fr, bt, cur, join, false);
  State St = S;
  std::vector<Val> envT = fr.env;
  auto allocasT = fr.allocas;
  Guard.pop_back();
  S = S0;
  fr.env = env0;
  Guard.push_back(mkNot(cond));
  size_t base = fr.allocas.size();
  Flow ff = execFrom(fr, bf, cur, join, false);
  Guard.pop_back();
  ForkDepth--;
  (void)base; (void)allocas0;
  for (int r : allocasT) if (std::find(fr.allocas.begin(), fr.allocas.end(), r) == fr.allocas.end()) fr.allocas.push_back(r);
  auto gone = [](const Flow &f) { return f.k == FDead || f.k == FThrow; };
  auto noteThrow = [&](const Flow &f, int c) {
    if (f.k == FThrow) {
      if (FailMode && f.excType == "std::bad_alloc") throw Undecided{"allocations depend on the values"};
      auto g = Guard;
      g.push_back(c);
      Exits.push_back({"throw", f.excType + ": " + f.excMsg, curLoc(), g});
    }
  };
  if (gone(ft) && gone(ff)) {
    if (ft.k == FThrow && ff.k == FThrow) { mergeStates(cond, St, S); S = St; return ft; }
    if (ft.k == FThrow) { S = St; return ft; }
    return ff;
  }
  if (gone(ft)) {
    noteThrow(ft, cond);
    if (ff.k == FStop) { evalPhis(fr, join, ff.pred); cont = join; contSkip = true; Flow r; r.k = FStop; r.pred = ff.pred; return r; }
    return ff;
  }
  if (gone(ff)) {
    noteThrow(ff, mkNot(cond));
    S = St;
    fr.env = envT;
    if (ft.k == FStop) { evalPhis(fr, join, ft.pred); cont = join; contSkip = true; Flow r; r.k = FStop; r.pred = ft.pred; return r; }
    return ft;
  }
  if (ft.k == FRet && ff.k == FRet) {
    mergeStates(cond, St, S);
    S = St;
    Flow r;
    r.k = FRet;
    r.v = mergeVal(cond, ft.v, ff.v);
    return r;
  }
  if (ft.k == FStop && ff.k == FStop) {
    std::vector<std::pair<const Instruction *, Val>> ph;
    for (auto &P : join->phis()) {
      std::vector<Val> keep;
      std::swap(fr.env, envT);
      Val a = phiIn(fr, P, ft.pred);
      std::swap(fr.env, envT);
      Val b = phiIn(fr, P, ff.pred);
      ph.push_back({&P, mergeVal(cond, a, b)});
    }
    mergeStates(cond, St, S);
    S = St;
    // values of an enclosing loop that were assigned in another iteration
    for (size_t i = 0; i < fr.env.size() && i < envT.size(); i++) {
      if (!sameVal(fr.env[i], envT[i])) fr.env[i] = mergeVal(cond, envT[i], fr.env[i]);
    }
    for (auto &p : ph) setv(fr, p.first, p.second);
    cont = join;
    contSkip = true;
    Flow r;
    r.k = FStop;
    r.pred = ff.pred;
    return r;
  }
  throw Undecided{"join of different exits"};
}

static Flow execFrom(Frame &fr, const BasicBlock *bb, const BasicBlock *pred, const BasicBlock *stop, bool skipPhis) {
  for (;;) {
    if (bb == stop && !skipPhis) { Flow r; r.k = FStop; r.pred = pred; return r; }
    if (!skipPhis && pred) evalPhis(fr, bb, pred);
    skipPhis = false;
    const BasicBlock *next = nullptr;
    for (auto it = bb->begin(); it != bb->end(); ++it) {
      const Instruction &I = *it;
      if (isa<PHINode>(I)) continue;
      if (++Steps > MaxSteps) throw Undecided{"analysis budget exceeded"};
      CurI = &I;
      CurParent = fr.parentLoc;
      switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        int64_t n = DL->getTypeAllocSize(A.getAllocatedType());
        Val c = operand(fr, A.getArraySize());
        if (c.k != VInt) throw Undecided{"variable-length array"};
        int r = newRegion(n * sx(c), RStack, A.getName().str());
        fr.allocas.push_back(r);
        setv(fr, &I, vPtr(r, 0));
        break;
      }
      case Instruction::Load: {
        auto &L = cast<LoadInst>(I);
        setv(fr, &I, load(operand(fr, L.getPointerOperand()), L.getType()));
        break;
      }
      case Instruction::Store: {
        auto &St = cast<StoreInst>(I);
        store(operand(fr, St.getPointerOperand()), operand(fr, St.getValueOperand()), St.getValueOperand()->getType());
        break;
      }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I);
        Val p = operand(fr, G.getPointerOperand());
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Val ix = operand(fr, gi.getOperand());
          if (auto *ST = gi.getStructTypeOrNull()) {
            p = addOff(p, (int64_t)DL->getStructLayout(ST)->getElementOffset((unsigned)ix.i));
          } else {
            int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            p = lift2(p, ix, [&](const Val &pp, const Val &ii) -> Val {
              if (pp.k == VUndef || ii.k == VUndef) return vUndef();
              if (ii.k != VInt) throw Undecided{"symbolic index"};
              if (pp.k == VInt) return vInt((uint64_t)(pp.i + sx(ii) * es), 64);
              if (pp.k != VPtr) throw Undecided{"address arithmetic"};
              return vPtr(pp.r, pp.i + sx(ii) * es);
            });
          }
        }
        setv(fr, &I, p);
        break;
      }
      case Instruction::FAdd: setv(fr, &I, fbin(OP_add, operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::FSub: setv(fr, &I, fbin(OP_sub, operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::FMul: setv(fr, &I, fbin(OP_mul, operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::FDiv: setv(fr, &I, fbin(OP_div, operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::FRem: setv(fr, &I, fbin(opid("fmod"), operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::FNeg: {
        Val v = operand(fr, I.getOperand(0));
        setv(fr, &I, lift1(v, [&](const Val &x) -> Val {
          if (x.k == VUndef) return x;
          int t = termOf(x);
          if (isConst(t)) return vTerm(mkConst(-T[t].k));
          return vTerm(mk(OP_neg, t));
        }));
        break;
      }
      case Instruction::FCmp: setv(fr, &I, fcmp(cast<FCmpInst>(I).getPredicate(), operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::ICmp: setv(fr, &I, icmp(cast<ICmpInst>(I).getPredicate(), operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)))); break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (I.getType()->isVectorTy()) throw Undecided{"vector arithmetic"};
        setv(fr, &I, intBin(I.getOpcode(), operand(fr, I.getOperand(0)), operand(fr, I.getOperand(1)), I.getType()->getIntegerBitWidth()));
        break;
      case Instruction::Trunc: {
        unsigned w = I.getType()->getIntegerBitWidth();
        setv(fr, &I, lift1(operand(fr, I.getOperand(0)), [&](const Val &x) -> Val {
          if (x.k == VInt) return vInt((uint64_t)x.i, w);
          if (x.k == VUndef || x.k == VBool) return x;
          if (x.k == VTerm) return vTerm(mk(opid("itrunc" + std::to_string(w)), x.r));
          if (x.k == VPtr) return vInt((((uint64_t)x.r << 32) + x.i), w);
          throw Undecided{"truncation"};
        }));
        break;
      }
      case Instruction::ZExt: {
        unsigned w = I.getType()->getIntegerBitWidth();
        setv(fr, &I, lift1(operand(fr, I.getOperand(0)), [&](const Val &x) -> Val {
          if (x.k == VInt) return vInt((uint64_t)x.i, w > 64 ? 64 : w);
          return x;
        }));
        break;
      }
      case Instruction::SExt: {
        unsigned w = I.getType()->getIntegerBitWidth();
        setv(fr, &I, lift1(operand(fr, I.getOperand(0)), [&](const Val &x) -> Val {
          if (x.k == VInt) return vInt((uint64_t)sx(x), w > 64 ? 64 : w);
          if (x.k == VBool) return vIteRaw(x.r, vInt(~0ull, w), vInt(0, w));
          return x;
        }));
        break;
      }
      case Instruction::FPTrunc: {
        bool toF = I.getType()->isFloatTy();
        setv(fr, &I, lift1(operand(fr, I.getOperand(0)), [&](const Val &x) -> Val {
          if (x.k == VUndef || !toF) return x;
          int t = termOf(x);
          if (isConst(t)) return vTerm(mkConst((float)T[t].k));
          return vTerm(mk(OP_f32, t));
        }));
        break;
      }
      case Instruction::FPExt: setv(fr, &I, operand(fr, I.getOperand(0))); break;
      case Instruction::SIToFP: case Instruction::UIToFP: {
        bool sg = I.getOpcode() == Instruction::SIToFP;
        setv(fr, &I, lift1(operand(fr, I.getOperand(0)), [&](const Val &x) -> Val {
          if (x.k == VUndef) return x;
          if (x.k == VInt) return vTerm(mkConst(sg ? (double)sx(x) : (double)(uint64_t)x.i));
          if (x.k == VBool) return vTerm(mkIte(x.r, mkConst(sg && x.w == 1 ? -1 : 1), mkConst(0)));
          if (x.k == VTerm) return x;
          throw Undecided{"integer to floating point"};
        }));
        break;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        unsigned w = I.getType()->getIntegerBitWidth();
        setv(fr, &I, lift1(operand(fr, I.getOperand(0)), [&](const Val &x) -> Val {
          if (x.k == VUndef) return x;
          double d;
          if (evalClosed(termOf(x), d)) return vInt((uint64_t)(int64_t)d, w);
          return vTerm(mk(opid("trunc"), termOf(x)));
        }));
        break;
      }
      case Instruction::BitCast: {
        Val v = operand(fr, I.getOperand(0));
        Type *Ty = I.getType();
        if (Ty->isVectorTy() != I.getOperand(0)->getType()->isVectorTy()) throw Undecided{"vector cast"};
        setv(fr, &I, Ty->isVectorTy() ? v : cellToType(v, Ty, (uint32_t)DL->getTypeStoreSize(Ty)));
        break;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        Val v = operand(fr, I.getOperand(0));
        if (I.getOpcode() == Instruction::IntToPtr && v.k == VInt && v.i == 0) v = vPtr(0, 0);
        setv(fr, &I, v);
        break;
      }
      case Instruction::Select: {
        Val c = operand(fr, I.getOperand(0)), x = operand(fr, I.getOperand(1)), y = operand(fr, I.getOperand(2));
        if (c.k == VIte) c = vBool(asBoolTerm(c));
        if (c.k == VInt) setv(fr, &I, c.i & 1 ? x : y);
        else if (c.k == VBool && Partition && x.k != VTerm && y.k != VTerm && T[c.r].op != OP_true && T[c.r].op != OP_false) setv(fr, &I, choose(c.r) ? x : y);
        else if (c.k == VBool) setv(fr, &I, mergeVal(c.r, x, y));
        else if (c.k == VUndef) { finding("uninit-branch", "selection on an uninitialised value"); setv(fr, &I, vUndef()); }
        else throw Undecided{"selection"};
        break;
      }
      case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I);
        Val v = operand(fr, E.getAggregateOperand());
        for (unsigned ix : E.indices()) {
          if (v.k == VUndef) break;
          if (v.k != VAgg) throw Undecided{"aggregate"};
          Val w = v.x->e[ix];
          v = w;
        }
        setv(fr, &I, v);
        break;
      }
      case Instruction::InsertValue: {
        auto &E = cast<InsertValueInst>(I);
        std::function<Val(const Val &, Type *, ArrayRef<unsigned>)> ins = [&](const Val &v, Type *Ty, ArrayRef<unsigned> ix) -> Val {
          if (ix.empty()) return operand(fr, E.getInsertedValueOperand());
          Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
          unsigned n = isa<StructType>(Ty) ? cast<StructType>(Ty)->getNumElements() : cast<ArrayType>(Ty)->getNumElements();
          if (v.k == VAgg) r.x->e = v.x->e;
          else r.x->e.assign(n, vUndef());
          Type *ET = isa<StructType>(Ty) ? cast<StructType>(Ty)->getElementType(ix[0]) : cast<ArrayType>(Ty)->getElementType();
          r.x->e[ix[0]] = ins(r.x->e[ix[0]], ET, ix.drop_front());
          return r;
        };
        setv(fr, &I, ins(operand(fr, E.getAggregateOperand()), E.getType(), E.getIndices()));
        break;
      }
      case Instruction::ExtractElement: {
        Val v = operand(fr, I.getOperand(0)), ix = operand(fr, I.getOperand(1));
        setv(fr, &I, v.k == VAgg ? v.x->e.at((size_t)ix.i) : vUndef());
        break;
      }
      case Instruction::InsertElement: {
        Val v = operand(fr, I.getOperand(0)), e = operand(fr, I.getOperand(1)), ix = operand(fr, I.getOperand(2));
        Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
        unsigned n = cast<FixedVectorType>(I.getType())->getNumElements();
        if (v.k == VAgg) r.x->e = v.x->e; else r.x->e.assign(n, vUndef());
        r.x->e.at((size_t)ix.i) = e;
        setv(fr, &I, r);
        break;
      }
      case Instruction::Call: {
        if (isa<DbgInfoIntrinsic>(I)) break;
        Flow f = callValue(fr, cast<CallBase>(&I));
        if (f.k == FDead || f.k == FThrow) return f;
        if (!I.getType()->isVoidTy()) setv(fr, &I, f.v);
        break;
      }
      case Instruction::Invoke: {
        auto &V = cast<InvokeInst>(I);
        Flow f = callValue(fr, &V);
        if (f.k == FDead) return f;
        if (f.k == FThrow) {
          // unwind to the landing pad
          const BasicBlock *U = V.getUnwindDest();
          const LandingPadInst *LP = V.getLandingPadInst();
          int sel = 0;
          for (unsigned c = 0; c < LP->getNumClauses(); c++) {
            if (LP->isCatch(c)) {
              std::string h = excName(evalConst(cast<Constant>(LP->getClause(c)->stripPointerCasts())));
              if (excMatches(f.excType, h)) {
                if (!TypeIds.count(h)) { int k = (int)TypeIds.size() + 2; TypeIds[h] = k; }
                sel = TypeIds[h];
                break;
              }
            }
          }
          if (sel == 0 && !LP->isCleanup()) return f;
          Val agg; agg.k = VAgg; agg.x = std::make_shared<Ext>();
          agg.x->e = {f.excPtr, vInt(sel, 32)};
          fr.env[fr.info->slot[LP]] = agg;
          // remember the type for resume
          if (f.excPtr.k == VPtr) {
            TypeIds.count("");
            ExcMsg[-f.excPtr.r] = f.excType;
            if (!f.excMsg.empty()) ExcMsg[f.excPtr.r] = f.excMsg;
          }
          next = U;
          break;
        }
        if (!I.getType()->isVoidTy()) setv(fr, &I, f.v);
        next = V.getNormalDest();
        break;
      }
      case Instruction::LandingPad: break; // set by the invoke
      case Instruction::Resume: {
        Val v = operand(fr, I.getOperand(0));
        Flow f;
        f.k = FThrow;
        if (v.k == VAgg) f.excPtr = v.x->e[0];
        if (f.excPtr.k == VPtr) {
          if (ExcMsg.count(-f.excPtr.r)) f.excType = ExcMsg[-f.excPtr.r];
          if (ExcMsg.count(f.excPtr.r)) f.excMsg = ExcMsg[f.excPtr.r];
        }
        return f;
      }
      case Instruction::Ret: {
        Flow f;
        f.k = FRet;
        if (I.getNumOperands()) f.v = operand(fr, I.getOperand(0));
        return f;
      }
      case Instruction::Unreachable: {
        Exits.push_back({"unreachable", "control reaches a point declared unreachable", curLoc(), Guard});
        Flow f;
        f.k = FDead;
        return f;
      }
      case Instruction::Br: {
        auto &B = cast<BranchInst>(I);
        if (B.isUnconditional()) { next = B.getSuccessor(0); break; }
        Val c = operand(fr, B.getCondition());
        if (c.k == VIte) c = vBool(asBoolTerm(c));
        if (c.k == VInt) { next = B.getSuccessor(c.i & 1 ? 0 : 1); break; }
        if (c.k == VUndef) {
          finding("uninit-branch", "branch on an uninitialised value");
          Flow f; f.k = FDead;
          return f;
        }
        if (c.k != VBool) throw Undecided{"branch condition"};
        {
          int t = c.r;
          const Term tt = T[t];
          if (tt.op == OP_true) { next = B.getSuccessor(0); break; }
          if (tt.op == OP_false) { next = B.getSuccessor(1); break; }
          // a condition already decided by an enclosing join region
          bool known = false, val = false;
          for (int g : Guard) {
            if (g == t) { known = true; val = true; }
            else if (T[g].op == OP_not && T[g].a == t) { known = true; val = false; }
            else if (tt.op == OP_not && tt.a == g) { known = true; val = false; }
          }
          if (known) { next = B.getSuccessor(val ? 0 : 1); break; }
          if (Partition) { next = B.getSuccessor(choose(t) ? 0 : 1); break; }
          const BasicBlock *cont = nullptr;
          bool sk = false;
          Flow f = forkJoin(fr, t, bb, B.getSuccessor(0), B.getSuccessor(1), stop, cont, sk);
          if (f.k != FStop) return f;
          if (!cont) return f;
          if (cont == stop) {
            // the phis of the stop block are merged already: a null predecessor
            Flow r;
            r.k = FStop;
            return r;
          }
          bb = cont;
          pred = f.pred;
          skipPhis = true;
          goto nextBlock;
        }
      }
      case Instruction::Switch: {
        auto &W = cast<SwitchInst>(I);
        Val c = operand(fr, W.getCondition());
        if (c.k == VUndef) { finding("uninit-branch", "branch on an uninitialised value"); Flow f; f.k = FDead; return f; }
        if (c.k == VBool) throw Undecided{"switch on a truth value"};
        if (c.k != VInt) throw Undecided{"switch on a symbolic value"};
        next = W.getDefaultDest();
        for (auto &cs : W.cases())
          if (cs.getCaseValue()->getZExtValue() == (uint64_t)c.i) { next = cs.getCaseSuccessor(); break; }
        break;
      }
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: {
        auto &A = cast<AtomicRMWInst>(I);
        Val p = operand(fr, A.getPointerOperand()), x = operand(fr, A.getValOperand());
        Val old = load(p, A.getType());
        Val nw;
        auto ib = [&](uint64_t (*f)(uint64_t, uint64_t)) -> Val {
          if (old.k != VInt || x.k != VInt) throw Undecided{"atomic update of a symbolic value"};
          return vInt(f((uint64_t)old.i, (uint64_t)x.i), A.getType()->getIntegerBitWidth());
        };
        switch (A.getOperation()) {
        case AtomicRMWInst::Xchg: nw = x; break;
        case AtomicRMWInst::Add: nw = ib([](uint64_t a, uint64_t b) { return a + b; }); break;
        case AtomicRMWInst::Sub: nw = ib([](uint64_t a, uint64_t b) { return a - b; }); break;
        case AtomicRMWInst::And: nw = ib([](uint64_t a, uint64_t b) { return a & b; }); break;
        case AtomicRMWInst::Or: nw = ib([](uint64_t a, uint64_t b) { return a | b; }); break;
        case AtomicRMWInst::Xor: nw = ib([](uint64_t a, uint64_t b) { return a ^ b; }); break;
        case AtomicRMWInst::FAdd: nw = fbin(OP_add, old, x); break;
        case AtomicRMWInst::FSub: nw = fbin(OP_sub, old, x); break;
        default: throw Undecided{"atomic operation"};
        }
        store(p, nw, A.getType());
        setv(fr, &I, old);
        break;
      }
      case Instruction::AtomicCmpXchg: {
        auto &A = cast<AtomicCmpXchgInst>(I);
        Val p = operand(fr, A.getPointerOperand()), c = operand(fr, A.getCompareOperand()), x = operand(fr, A.getNewValOperand());
        Val old = load(p, c.k == VTerm ? Type::getDoubleTy(Ctx) : A.getCompareOperand()->getType());
        if (old.k != VInt || c.k != VInt) throw Undecided{"atomic update of a symbolic value"};
        bool ok = old.i == c.i;
        if (ok) store(p, x, A.getNewValOperand()->getType());
        Val r; r.k = VAgg; r.x = std::make_shared<Ext>();
        r.x->e = {old, vInt(ok, 1)};
        setv(fr, &I, r);
        break;
      }
      default:
        throw Undecided{std::string("instruction ") + I.getOpcodeName()};
      }
      if (PrecFloor) {
        bool val = !I.getType()->isVoidTy() && fr.info->slot.count(&I);
        precisionCheck(I, val ? fr.env[fr.info->slot[&I]] : vUndef(), isa<FPExtInst>(I) ? std::vector<Val>{operand(fr, I.getOperand(0))} : std::vector<Val>());
      }
      if (next) break;
    }
    if (!next) throw Undecided{"block without terminator"};
    pred = bb;
    bb = next;
  nextBlock:;
  }
}

static Flow execFunction(const Function *F, std::vector<Val> args, int parentLoc, const CallBase *) {
  if (F->isDeclaration()) throw Undecided{"call of undefined function " + demangle(F->getName().str())};
  if (++Depth > 400) { Depth--; throw Undecided{"call depth"}; }
  Visited.insert(F);
  Frame fr;
  fr.F = F;
  fr.info = &fnInfo(F);
  fr.env.resize(fr.info->slot.size());
  fr.parentLoc = parentLoc;
  unsigned i = 0;
  for (auto &A : F->args()) {
    if (i < args.size()) fr.env[fr.info->slot[&A]] = args[i];
    i++;
  }
  Flow f = execFrom(fr, &F->getEntryBlock(), nullptr, nullptr, false);
  for (int r : fr.allocas) S.mem.erase(r);
  Depth--;
  return f;
}

// ---------------------------------------------------------------- output

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

int main(int argc, char **argv) {
  OP_const = opid("const"); OP_sym = opid("sym"); OP_symi = opid("symi"); OP_add = opid("add"); OP_sub = opid("sub"); OP_mul = opid("mul"); OP_div = opid("div"); OP_neg = opid("neg"); OP_ite = opid("ite"); OP_iteb = opid("iteb"); OP_not = opid("not"); OP_and = opid("and"); OP_or = opid("or"); OP_xor = opid("xor"); OP_true = opid("true"); OP_false = opid("false"); OP_f32 = opid("f32"); OP_i2f = opid("i2f");
  if (argc < 3) { fprintf(stderr, "usage: hjai FILE.bc RUNS|--list  [repo prefix]\n"); return 2; }
  SMDiagnostic Err;
  M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("hjai", errs()); return 2; }
  DL = &M->getDataLayout();
  if (argc > 3) RepoPrefix = argv[3];
  if (std::string(argv[2]) == "--list") {
    for (auto &F : *M) if (!F.isDeclaration() && F.getName().startswith("P_")) outs() << F.getName() << "\n";
    return 0;
  }
  std::ifstream runs(argv[2]);
  std::string line;
  // dynamic initialisation of namespace-scope objects
  State S0;
  {
    if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) {
      if (GC->hasInitializer())
        if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer()))
          for (auto &O : CA->operands()) {
            auto *CS = cast<ConstantStruct>(O);
            if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) {
              State before = S;
              try { execFunction(F, {}, -1, nullptr); }
              catch (Undecided &) { S = before; Depth = 0; }
            }
          }
    }
    S0 = S;
  }
  std::vector<Term> T0;
  std::unordered_map<TermKey, int, TermHash> Tmap0;
  std::vector<LocNode> Locs0;
  std::set<const Function *> Visited0;
  std::string preludeProblem;
  while (std::getline(runs, line)) {
    if (line.empty()) continue;
    if (line[0] == '!') {
      // a prelude: the state it leaves is where every following entry starts
      T.clear(); Tmap.clear(); Locs.clear(); LocMap.clear(); LocBase.clear(); Visited.clear();
      mk(OP_true); mk(OP_false);
      EntryArgs.clear(); Guard.clear(); Finds.clear(); FindSeen.clear(); Exits.clear(); Outs.clear();
      Steps = 0; Depth = 0; ForkDepth = 0; ForksTotal = 0; CurI = nullptr; CurParent = -1;
      Function *P = M->getFunction(line.substr(1));
      if (!P || P->isDeclaration()) preludeProblem = "no prelude " + line;
      else {
        try {
          Flow f = execFunction(P, {}, -1, nullptr);
          if (f.k == FThrow) preludeProblem = "throws " + f.excType + " " + f.excMsg;
          else if (f.k != FRet) preludeProblem = "does not return";
          else if (ForksTotal) preludeProblem = "branches on unknown values";
        } catch (Undecided &u) { preludeProblem = u.what; }
        for (auto &f : Finds)
          if (f.kind != "alloc" && f.kind != "io" && f.kind != "global-write") preludeProblem = f.kind + " " + f.what + " at " + locStr(f.loc);
      }
      if (!preludeProblem.empty()) fprintf(stderr, "prelude: %s at %s\n", preludeProblem.c_str(), locStr(curLoc()).c_str());
      for (auto it = S.mem.begin(); it != S.mem.end();)
        if (!it->second->alive) it = S.mem.erase(it);
        else ++it;
      S0 = S;
      T0 = T; Tmap0 = Tmap; Locs0 = Locs; LocBase = LocMap; Visited0 = Visited;
      continue;
    }
    if (!preludeProblem.empty()) return 3;
    std::istringstream is(line);
    std::string name;
    is >> name;
    EntryArgs.clear();
    long x;
    while (is >> x) EntryArgs.push_back(x);
    T = T0; Tmap = Tmap0;
    mk(OP_true); mk(OP_false);
    Locs = Locs0; LocMap.clear();
    Visited.clear();
    UnknownExt.clear();
    long totalSteps = 0, totalCalls = 0, totalForks = 0;
    struct Part { std::string status, msg; int exitLoc; std::vector<int> guard; std::vector<OutRec> outs; std::vector<Finding> finds; std::vector<GuardExit> exits; int64_t leaks; long allocs; };
    Function *F = M->getFunction(name);
    auto interpret = [&]() {
      S = S0;
      Guard.clear(); Outs.clear(); Finds.clear(); FindSeen.clear(); Exits.clear();
      Steps = 0; Depth = 0; ForkDepth = 0; InStaticInit = 0; Allocs = 0; AllocWatch = false; FailMode = false; PrecFloor = 0; FreeOfSyms.clear(); ForksTotal = 0; CallSites = 0;
      ExcMsg.clear();
      CurI = nullptr; CurParent = -1;
      ChoicePos = 0;
      Part p;
      p.exitLoc = -1;
      if (!F || F->isDeclaration()) p.status = "missing";
      else {
        try {
          Flow f = execFunction(F, {}, -1, nullptr);
          if (f.k == FRet) p.status = "return";
          else if (f.k == FThrow) { p.status = "throw"; p.msg = f.excType + (f.excMsg.empty() ? "" : ": " + f.excMsg); p.exitLoc = curLoc(); }
          else p.status = "dead";
        } catch (Undecided &u) {
          p.status = "undecided";
          p.msg = u.what;
          p.exitLoc = curLoc();
        }
      }
      p.guard = Guard;
      p.outs = Outs; p.finds = Finds; p.exits = Exits;
      p.leaks = 0;
      for (auto &kv : S.mem) if (kv.second->kind == RHeap && kv.second->alive && kv.second->name == "heap") p.leaks++;
      p.allocs = Allocs;
      totalSteps += Steps; totalCalls += CallSites; totalForks += ForksTotal;
      return p;
    };
    Partition = false;
    Part main = interpret();
    std::vector<Part> parts;
    // after joins, accesses through merged pointers may be spurious: findings
    // and abnormal ends are re-examined without joins
    bool suspicious = main.status == "dead" || main.status == "throw";
    for (auto &f : main.finds) if (f.kind != "alloc" && f.kind != "io" && f.kind != "thread-local-write") suspicious = true;
    long forks0 = ForksTotal;
    if ((main.status == "undecided" || suspicious) && forks0 > 0) {
      std::string st0 = main.status;
      if (main.status != "undecided") { main.status = "undecided"; main.msg = "after joins: " + st0 + " " + main.msg; }
      Partition = true;
      Choices.clear();
      bool ok = true;
      for (;;) {
        Part p = interpret();
        if (p.status == "undecided" || parts.size() >= 128 || totalSteps > MaxSteps) { ok = false; main.msg += " (partitioned: " + p.msg + ")"; break; }
        parts.push_back(p);
        while (!Choices.empty() && !Choices.back()) Choices.pop_back();
        if (Choices.empty()) break;
        Choices.back() = 0;
      }
      Partition = false;
      if (!ok) {
        parts.clear();
        // effects on operands and globals stand without the partitions
        bool mem = false;
        for (auto &f : main.finds) if (f.kind != "operand-write" && f.kind != "global-write" && f.kind != "const-write" && f.kind != "static-from-operand" && f.kind != "alloc" && f.kind != "io" && f.kind != "thread-local-write") mem = true;
        if (st0 == "return" && !mem) main.status = st0;
      }
    }
    if (parts.empty()) parts.push_back(main); else parts.insert(parts.begin(), main);
    std::string o = "{\"entry\":" + jstr(line) + ",\"steps\":" + std::to_string(totalSteps) + ",\"calls\":" + std::to_string(totalCalls) + ",\"joins\":" + std::to_string(totalForks);
    // terms reachable from outputs and guards
    std::vector<char> mark(T.size(), 0);
    std::function<void(int)> reach = [&](int t) {
      std::vector<int> st{t};
      while (!st.empty()) {
        int u = st.back(); st.pop_back();
        if (u < 0 || mark[u]) continue;
        mark[u] = 1;
        st.push_back(T[u].a); st.push_back(T[u].b); st.push_back(T[u].c);
      }
    };
    for (auto &p : parts) {
      for (auto &r : p.outs) if (r.term >= 0 && r.kind != 'p') reach(r.term);
      for (auto &f : p.finds) for (int g : f.guard) reach(g);
      for (auto &f : p.exits) for (int g : f.guard) reach(g);
      for (int g : p.guard) reach(g);
    }
    std::vector<int> ren(T.size(), -1);
    int cnt = 0;
    o += ",\"terms\":[";
    for (size_t t = 0; t < T.size(); t++) {
      if (!mark[t]) continue;
      ren[t] = cnt++;
      if (cnt > 1) o += ",";
      const Term &n = T[t];
      o += "[\"" + opnames[n.op] + "\"";
      if (n.op == OP_const) {
        char b[64];
        if (std::isnan(n.k)) snprintf(b, 64, "\"nan\"");
        else if (std::isinf(n.k)) snprintf(b, 64, n.k > 0 ? "\"inf\"" : "\"-inf\"");
        else snprintf(b, 64, "%.17g", n.k);
        o += std::string(",") + b;
      } else if (n.op == OP_sym || n.op == OP_symi) o += "," + std::to_string(n.id);
      else {
        if (n.a >= 0) o += "," + std::to_string(ren[n.a]);
        if (n.b >= 0) o += "," + std::to_string(ren[n.b]);
        if (n.c >= 0) o += "," + std::to_string(ren[n.c]);
        if (opnames[n.op] == "fpclass") o += "," + std::to_string(n.id);
      }
      o += "]";
    }
    o += "]";
    std::map<int, int> locIds;
    std::vector<std::string> locTab;
    auto L = [&](int l) {
      auto it = locIds.find(l);
      if (it != locIds.end()) return it->second;
      int k = (int)locTab.size();
      locTab.push_back(locStr(l));
      locIds[l] = k;
      return k;
    };
    bool first = true;
    auto guardStr = [&](const std::vector<int> &g0) {
      std::string g = "[";
      for (size_t g1 = 0; g1 < g0.size(); g1++) g += (g1 ? "," : "") + std::to_string(ren[g0[g1]]);
      return g + "]";
    };
    o += ",\"parts\":[";
    for (size_t pi = 0; pi < parts.size(); pi++) {
      const Part &p = parts[pi];
      if (pi) o += ",";
      o += "{\"status\":" + jstr(p.status) + ",\"msg\":" + jstr(p.msg) + ",\"allocs\":" + std::to_string(p.allocs) + ",\"leaks\":" + std::to_string(p.leaks) + ",\"guard\":" + guardStr(p.guard);
      if (p.exitLoc >= 0) o += ",\"at\":" + jstr(locStr(p.exitLoc)) + ",\"atloc\":" + std::to_string(L(p.exitLoc));
      o += ",\"outs\":[";
      first = true;
      for (auto &r : p.outs) {
        if (!first) o += ",";
        first = false;
        o += "[" + std::to_string(r.tag) + "," + std::to_string(r.idx) + ",\"" + r.kind + "\",";
        if (r.kind == 't' || r.kind == 'b') o += std::to_string(ren[r.term]);
        else if (r.kind == 'i') o += std::to_string(r.i);
        else if (r.kind == 'p') o += "\"" + std::to_string(r.term) + "+" + std::to_string(r.i) + "\"";
        else if (r.kind == 's') o += jstr(r.s);
        else o += "null";
        o += "," + std::to_string(L(r.loc)) + "]";
      }
      o += "],\"findings\":[";
      first = true;
      for (auto &f : p.finds) {
        if (!first) o += ",";
        first = false;
        o += "[" + jstr(f.kind) + "," + jstr(f.what) + "," + std::to_string(L(f.loc)) + "," + guardStr(f.guard) + "]";
      }
      o += "],\"exits\":[";
      first = true;
      for (auto &f : p.exits) {
        if (!first) o += ",";
        first = false;
        o += "[" + jstr(f.kind) + "," + jstr(f.what) + "," + std::to_string(L(f.loc)) + "," + guardStr(f.guard) + "]";
      }
      o += "]}";
    }
    first = true;
    o += "],\"locs\":[";
    for (size_t i = 0; i < locTab.size(); i++) o += (i ? "," : "") + jstr(locTab[i]);
    o += "],\"fns\":[";
    first = true;
    for (auto *Fn : Visited) {
      auto *SP = Fn->getSubprogram();
      if (!SP) continue;
      std::string f = SP->getFilename().str();
      if (!f.empty() && f[0] != '/') f = SP->getDirectory().str() + "/" + f;
      if (f.rfind(RepoPrefix, 0) != 0) continue;
      if (!first) o += ",";
      first = false;
      o += jstr(f.substr(RepoPrefix.size()) + ":" + std::to_string(SP->getLine()) + ":" + SP->getName().str());
    }
    o += "]}";
    puts(o.c_str());
  }
  return 0;
}
