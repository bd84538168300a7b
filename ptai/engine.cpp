// ptai: abstract interpretation of LLVM IR with trace partitioning.
#include "state.h"
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
using namespace llvm;
using namespace ex;

static const DataLayout *DL;
static Module *MOD;

// ---------------------------------------------------------------- options
static int optPaths = 256, optOuts = 256, optUnroll = 4;
static int optMul = 1, optUMul = 1; // second attempts
static uint64_t optSteps = 40000000;
static int checkMask = 0;
static bool verbose = false;
enum { CK_NULL = 1, CK_BOUNDS = 2, CK_UAF = 4, CK_DIV = 8, CK_SHIFT = 16, CK_RO = 32, CK_UNINIT = 64, CK_FREE = 128 };
static const uint64_t L_UNINIT = 1ull << 63;

// ---------------------------------------------------------------- function info
struct FnInfo {
  std::unordered_map<const Value *, int> num;
  int n = 0;
  std::unordered_map<const BasicBlock *, int> rpo;
  std::vector<const BasicBlock *> order;
  std::unordered_map<const BasicBlock *, bool> header;
  std::vector<std::vector<int>> exits;   // by rpo: headers of the loops a branch out of this block may leave
  std::vector<std::vector<int>> inLoops; // by rpo: headers of the loops containing the block
  std::unordered_map<const Instruction *, std::vector<int>> liveAfter;
  std::vector<std::vector<int>> liveIn; // by rpo: value numbers live at block entry (after phis)
  std::vector<std::vector<bool>> liveSet;
  bool usesAlloca = false;
};
static std::unordered_map<const Function *, FnInfo *> fninfo;

static FnInfo *getInfo(Function *F) {
  auto it = fninfo.find(F);
  if (it != fninfo.end()) return it->second;
  FnInfo *fi = new FnInfo;
  fninfo[F] = fi;
  for (auto &A : F->args()) fi->num[&A] = fi->n++;
  for (auto &B : *F) for (auto &I : B) { if (!I.getType()->isVoidTy()) fi->num[&I] = fi->n++; if (isa<AllocaInst>(I)) fi->usesAlloca = true; }
  DominatorTree DT(*F);
  LoopInfo LI(DT);
  // DFS visiting loop exits first so that loop bodies come before exits
  std::vector<const BasicBlock *> post;
  std::set<const BasicBlock *> seen;
  std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *B) {
    seen.insert(B);
    std::vector<const BasicBlock *> succ(succ_begin(B), succ_end(B));
    Loop *L = LI.getLoopFor(B);
    auto leaves = [&](const BasicBlock *S) {
      Loop *X = L; int d = 0;
      while (X && !X->contains(S)) { X = X->getParentLoop(); d++; }
      return d;
    };
    std::stable_sort(succ.begin(), succ.end(), [&](auto *a, auto *b) { return leaves(a) > leaves(b); });
    for (auto *S : succ) if (!seen.count(S)) dfs(S);
    post.push_back(B);
  };
  dfs(&F->getEntryBlock());
  std::reverse(post.begin(), post.end());
  fi->order = post;
  for (size_t i = 0; i < post.size(); i++) { fi->rpo[post[i]] = i; fi->header[post[i]] = LI.isLoopHeader(post[i]); }
  fi->exits.resize(post.size()); fi->inLoops.resize(post.size());
  for (size_t i = 0; i < post.size(); i++)
    for (Loop *L = LI.getLoopFor(post[i]); L; L = L->getParentLoop()) {
      fi->inLoops[i].push_back(fi->rpo[L->getHeader()]);
      for (auto *S : successors(post[i])) if (!L->contains(S)) { fi->exits[i].push_back(fi->rpo[L->getHeader()]); break; }
    }
  // liveness
  size_t nb = post.size();
  std::vector<std::vector<bool>> use(nb, std::vector<bool>(fi->n)), def(nb, std::vector<bool>(fi->n)), in(nb, std::vector<bool>(fi->n)), out = in;
  for (size_t b = 0; b < nb; b++) {
    for (auto &I : *post[b]) {
      if (!isa<PHINode>(I))
        for (auto &op : I.operands()) { auto f = fi->num.find(op.get()); if (f != fi->num.end() && !def[b][f->second]) use[b][f->second] = true; }
      auto f = fi->num.find(&I);
      if (f != fi->num.end() && !isa<PHINode>(I)) def[b][f->second] = true;
    }
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t b = nb; b-- > 0;) {
      std::vector<bool> o(fi->n);
      for (auto *S : successors(post[b])) {
        size_t s = fi->rpo[S];
        for (int i = 0; i < fi->n; i++) if (in[s][i]) o[i] = true;
        for (auto &I : *S) {
          auto *P = dyn_cast<PHINode>(&I); if (!P) break;
          o[fi->num[P]] = false;
        }
        for (auto &I : *S) {
          auto *P = dyn_cast<PHINode>(&I); if (!P) break;
          auto f = fi->num.find(P->getIncomingValueForBlock(post[b]));
          if (f != fi->num.end()) o[f->second] = true;
        }
      }
      // phis of b are live-in "after phis" if used
      std::vector<bool> n = o;
      for (int i = 0; i < fi->n; i++) if (def[b][i]) n[i] = false;
      for (int i = 0; i < fi->n; i++) if (use[b][i]) n[i] = true;
      if (n != in[b]) { in[b] = n; ch = true; }
    }
  }
  fi->liveSet = in;
  fi->liveIn.resize(nb);
  for (size_t b = 0; b < nb; b++) for (int i = 0; i < fi->n; i++) if (in[b][i]) fi->liveIn[b].push_back(i);
  return fi;
}

// ---------------------------------------------------------------- frames & reports
struct Frame {
  Function *F; Frame *parent; const Instruction *site; uint64_t ctx; int depth;
 const std::vector<E> *env = nullptr; };
static uint64_t hmix64(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static std::unordered_map<const Value *, uint64_t> valId;
static uint64_t vid(const Value *v) { auto it = valId.find(v); if (it != valId.end()) return it->second; uint64_t n = valId.size() + 1; return valId[v] = n; }

static std::string locStr(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &D = I->getDebugLoc()) {
    auto *S = cast<DIScope>(D.getScope());
    return (S->getFilename() + ":" + Twine(D.getLine())).str();
  }
  return (I->getFunction()->getName() + ":?").str();
}
static std::string fnLoc(const Function *F) {
  if (auto *S = F->getSubprogram()) return (S->getFilename() + ":" + Twine(S->getLine())).str();
  return "";
}
struct Finding { std::string kind, loc, fn, msg; std::vector<std::string> stack; std::vector<std::string> path; std::string rule; };
static std::map<std::string, Finding> findings;
static std::map<std::string, uint64_t> obligations;      // kind -> evaluated instances
static std::map<std::string, std::set<std::string>> oblSites; // kind -> sites
static std::map<std::string, uint64_t> asserts;           // rule -> times checked
static std::set<std::string> reached, fnSeen, unmodelled, notes;
static std::set<std::string> reachWanted;
static uint64_t steps = 0, joins = 0, widenings = 0, forks = 0, statesSeen = 0;
static std::string inconclusive;

static void report(const std::string &kind, const std::string &rule, const State &s, Frame *fr, const Instruction *I, const std::string &msg) {
  static const char *dbgFacts = getenv("PTAI_FACTS");
  if (dbgFacts && (!*dbgFacts || strstr((locStr(I)).c_str(), dbgFacts))) {
    fprintf(stderr, "-- %s %s %s: %s\n", kind.c_str(), rule.c_str(), locStr(I).c_str(), msg.c_str());
    for (auto &l : s.f->lin) { std::string t; for (auto &p : l.t) t += std::to_string((long long)p.second) + "*" + Str(p.first) + " "; fprintf(stderr, "   fact %s + %lld >= 0\n", t.c_str(), (long long)l.c); }
    for (auto &q : s.f->r) fprintf(stderr, "   range %s u[%llx,%llx] s[%lld,%lld]\n", Str(q.first).c_str(), (unsigned long long)q.second.ulo, (unsigned long long)q.second.uhi, (long long)q.second.slo, (long long)q.second.shi);
    for (auto &q : s.f->nowrap) fprintf(stderr, "   nowrap %s\n", Str(q.first).c_str());
  }
  std::string key = kind + "|" + rule + "|" + locStr(I) + "|" + fr->F->getName().str();
  if (findings.count(key)) return;
  Finding f; f.kind = kind; f.rule = rule; f.loc = locStr(I); f.fn = fr->F->getName().str(); f.msg = msg;
  f.stack.push_back(f.fn + " at " + f.loc);
  const Instruction *site = fr->site;
  for (Frame *p = fr->parent; p; p = p->parent) { f.stack.push_back(p->F->getName().str() + " at " + locStr(site)); site = p->site; }
  int n = 0;
  for (auto t = s.trace; t && n < 60; t = t->prev, n++) {
    auto *B = (const Instruction *)t->inst;
    f.path.push_back(locStr(B) + (isa<SwitchInst>(B) ? (t->taken < 0 ? " default" : " case " + std::to_string(t->taken)) : t->taken ? " true" : " false"));
  }
  std::reverse(f.path.begin(), f.path.end());
  findings[key] = f;
}
static void oblig(const char *kind, const Instruction *I) { obligations[kind]++; oblSites[kind].insert(locStr(I)); }

// ---------------------------------------------------------------- objects
static std::unordered_map<const Value *, uint64_t> globalObj;
static std::unordered_map<std::string, uint64_t> namedObj;
static std::unordered_map<E, uint64_t> lazyObj;
static uint64_t newObj(const std::string &name, Obj::K kind, E size) {
  Obj o; o.id = objs.size(); o.name = name; o.kind = kind; o.size = size;
  objs.push_back(o);
  return o.id;
}
static Cell fillCell(uint8_t b) { Cell c; c.k = Cell::F; c.fill = b; return c; }
static Cell initCell(uint32_t tag, int64_t off = 0) { Cell c; c.k = Cell::I; c.tag = tag; c.off = off; return c; }
static E constToE(const Constant *C, State *s);
static uint64_t objForGlobal(const GlobalValue *G) {
  auto it = globalObj.find(G);
  if (it != globalObj.end()) return it->second;
  if (auto *F = dyn_cast<Function>(G)) {
    uint64_t id = newObj(F->getName().str(), Obj::Func, nullptr);
    objs[id].fn = F; globalObj[G] = id; objs[id].def = fillCell(0);
    return id;
  }
  auto *V = cast<GlobalVariable>(G);
  E size = V->getValueType()->isSized() ? Const(DL->getTypeAllocSize(V->getValueType()), 64) : nullptr;
  uint64_t id = newObj(V->getName().str(), Obj::Global, V->hasInitializer() ? size : nullptr);
  objs[id].gv = V;
  if (V->isConstant()) objs[id].ro = true;
  objs[id].def = V->hasInitializer() ? fillCell(0) : initCell(newTag("extern " + V->getName().str(), 0));
  globalObj[G] = id;
  return id;
}
static void initObj(State &s, uint64_t id, const Constant *C, int64_t off, ObjMem &m) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  Type *T = C->getType();
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    unsigned es = DL->getTypeAllocSize(CDS->getElementType());
    for (unsigned i = 0; i < CDS->getNumElements(); i++) initObj(s, id, CDS->getElementAsConstant(i), off + (int64_t)i * es, m);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) initObj(s, id, CS->getOperand(i), off + (int64_t)SL->getElementOffset(i), m);
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    unsigned es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) initObj(s, id, CA->getOperand(i), off + (int64_t)i * es, m);
    return;
  }
  Cell c; c.k = Cell::V; c.size = DL->getTypeStoreSize(T); c.v = constToE(C, &s);
  if (c.v->w < c.size * 8) c.v = ZExt(c.v, c.size * 8);
  if (c.v->k == KConst && c.v->c == 0) return;
  m.cells[off] = c;
}
static std::unordered_map<uint64_t, std::shared_ptr<ObjMem>> globalInit;
static const ObjMem &memOf(State &s, uint64_t id) {
  const ObjMem *m = s.cO(id);
  if (m) return *m;
  auto &gi = globalInit[id];
  if (!gi) {
    gi = std::make_shared<ObjMem>();
    gi->def = objs[id].def;
    if (objs[id].gv) {
      auto *V = (const GlobalVariable *)objs[id].gv;
      if (V->hasInitializer()) { std::shared_ptr<ObjMem> keep = gi; initObj(s, id, V->getInitializer(), 0, *keep); }
    }
  }
  return *globalInit[id];
}
static ObjMem &memOfW(State &s, uint64_t id) {
  if (!s.cO(id)) { memOf(s, id); s.M()[id] = std::make_shared<ObjMem>(*globalInit[id]); }
  return s.O(id);
}

static E undefOf(unsigned w) { return Sym("undef", w, L_UNINIT); }

static unsigned widthOf(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  return 0;
}
static E constToE(const Constant *C, State *s) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) return nullptr; return Const(CI->getZExtValue(), CI->getBitWidth()); }
  if (isa<ConstantPointerNull>(C)) return Const(0, 64);
  if (isa<UndefValue>(C)) { unsigned w = widthOf(C->getType()); return w ? undefOf(w) : nullptr; }
  if (auto *G = dyn_cast<GlobalValue>(C)) {
    if (auto *A = dyn_cast<GlobalAlias>(G)) return constToE(A->getAliasee(), s);
    return Ptr(objForGlobal(G), Const(0, 64));
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) return Add(constToE(CE->getOperand(0), s), Const(off.getZExtValue(), 64));
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      E e = constToE(CE->getOperand(0), s); unsigned w = widthOf(CE->getType());
      if (!e || !w) break;
      return e->w > w ? Trunc(e, w) : ZExt(e, w);
    }
    case Instruction::Trunc: return Trunc(constToE(CE->getOperand(0), s), widthOf(CE->getType()));
    case Instruction::ZExt: return ZExt(constToE(CE->getOperand(0), s), widthOf(CE->getType()));
    case Instruction::SExt: return SExt(constToE(CE->getOperand(0), s), widthOf(CE->getType()));
    case Instruction::Sub: return Sub(constToE(CE->getOperand(0), s), constToE(CE->getOperand(1), s));
    case Instruction::Add: return Add(constToE(CE->getOperand(0), s), constToE(CE->getOperand(1), s));
    default: break;
    }
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { if (CF->getType()->isDoubleTy()) return Const(CF->getValueAPF().bitcastToAPInt().getZExtValue(), 64); }
  unsigned w = widthOf(C->getType());
  return w ? Sym("const?", w) : nullptr;
}

// ---------------------------------------------------------------- memory cells
static E cellSlice(const Cell &c, int64_t from, int64_t n) { // bytes [from, from+n) of cell, n <= 8
  switch (c.k) {
  case Cell::V: return Slice(c.v, from * 8, n * 8);
  case Cell::F: { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)c.fill << (8 * i); return Const(v, n * 8); }
  case Cell::I: return tagSym(c.tag, c.off + from, n);
  }
  return nullptr;
}
static Cell cellPart(const Cell &c, int64_t from, int64_t n) {
  Cell r = c; r.size = n;
  if (c.k == Cell::V) { if (from != 0 || n != c.size) r.v = Slice(c.v, from * 8, n * 8); }
  else if (c.k == Cell::I) r.off = c.off + from;
  return r;
}
static void removeRange(std::map<int64_t, Cell> &m, int64_t lo, int64_t n) {
  int64_t hi = lo + n;
  auto it = m.lower_bound(lo);
  if (it != m.begin()) { auto p = std::prev(it); if (p->first + p->second.size > lo) it = p; }
  std::vector<std::pair<int64_t, Cell>> add;
  while (it != m.end() && it->first < hi) {
    int64_t a = it->first, b = a + it->second.size;
    if (a < lo) add.push_back({a, cellPart(it->second, 0, lo - a)});
    if (b > hi) add.push_back({hi, cellPart(it->second, hi - a, b - hi)});
    it = m.erase(it);
  }
  for (auto &x : add) m[x.first] = x.second;
}
// pieces of [lo,lo+n) incl. default content (def may be null: gaps omitted -> returns false)
static bool pieces(const std::map<int64_t, Cell> &m, const Cell *def, int64_t lo, int64_t n, std::vector<std::pair<int64_t, Cell>> &out) {
  int64_t hi = lo + n, pos = lo;
  auto it = m.lower_bound(lo);
  if (it != m.begin()) { auto p = std::prev(it); if (p->first + p->second.size > lo) it = p; }
  auto gap = [&](int64_t a, int64_t b) {
    if (!def) return false;
    Cell c = *def; c.size = b - a; if (c.k == Cell::I) c.off = def->off + a;
    out.push_back({a, c});
    return true;
  };
  for (; it != m.end() && it->first < hi; ++it) {
    int64_t a = std::max(it->first, lo), b = std::min(it->first + it->second.size, hi);
    if (a > pos) { if (!gap(pos, a)) return false; }
    out.push_back({a, cellPart(it->second, a - it->first, b - a)});
    pos = b;
  }
  if (pos < hi) return gap(pos, hi);
  return true;
}
static E gather(const std::vector<std::pair<int64_t, Cell>> &ps) {
  if (ps.size() == 1 && ps[0].second.size <= 8) return cellSlice(ps[0].second, 0, ps[0].second.size);
  std::vector<E> v;
  for (auto &p : ps) v.push_back(cellSlice(p.second, 0, p.second.size));
  return Concat(v);
}
static uint64_t defLabels(const Cell &c) { return c.k == Cell::I ? tags[c.tag].labels : 0; }
static uint64_t rangeLabels(const ObjMem &m, int64_t lo, int64_t hi) {
  uint64_t l = 0; int64_t cov = lo;
  auto lab = [](const Cell &c) { return c.k == Cell::V ? c.v->labels : defLabels(c); };
  for (auto &g : m.groups) for (auto &c : g.cells) l |= lab(c.second);
  for (auto &c : m.cells) {
    if (c.first + (int64_t)c.second.size <= lo || c.first >= hi) continue;
    if (c.first > cov) l |= defLabels(m.def);
    cov = std::max<int64_t>(cov, c.first + c.second.size);
    l |= lab(c.second);
  }
  return cov < hi ? l | defLabels(m.def) : l;
}
static uint64_t memLabels(const ObjMem &m) {
  uint64_t l = defLabels(m.def);
  for (auto &c : m.cells) l |= c.second.k == Cell::V ? c.second.v->labels : defLabels(c.second);
  return l;
}

struct Addr { uint64_t obj = 0; E base = nullptr; int64_t off = 0; E full = nullptr; };

struct Guard { uint64_t obj; int64_t off, size; E lock; int key; std::string rule; };
static std::vector<Guard> guards;

// resolve a pointer; reports null dereferences. false: state dead
static bool resolveAddr(State &s, E p, Frame *fr, const Instruction *I, Addr &a, const char *what, bool check = true) {
  p = s.resolvePtr(p);
  if (p->k != KPtr && p->k != KConst) {
    E q = s.simp(p);
    if (q->k == KConst) p = q;
  }
  if (p->k == KConst) {
    if (check) {
      oblig("null-deref", I);
      if (checkMask & CK_NULL) report("null-deref", what, s, fr, I, std::string(what) + " through NULL (address " + Str(p) + ")");
    }
    s.bottom = true;
    return false;
  }
  if (p->k != KPtr) {
    E root = p; E off = Const(0, 64);
    if (p->k == KLin) {
      root = nullptr;
      for (auto &q : p->t) if (q.second == 1 && lazyObj.count(q.first)) { root = q.first; break; }
      if (!root) for (auto &q : p->t) if (q.second == 1 && q.first->k == KSym) { root = q.first; break; }
      if (!root) root = p; else off = Sub(p, root);
    }
    if (check) {
      oblig("null-deref", I);
      E ne = Cmp(PNe, root, Const(0, 64));
      if (s.truth(ne) != 1) {
        if (checkMask & CK_NULL) report("null-deref", what, s, fr, I, std::string(what) + " through pointer " + Str(root) + " that may be NULL");
        s.assume(ne, true);
        if (s.bottom) return false;
      }
    }
    auto it = lazyObj.find(root);
    uint64_t id;
    if (it != lazyObj.end()) id = it->second;
    else {
      id = newObj("*" + Str(root, 3), Obj::Lazy, nullptr);
      objs[id].def = initCell(newTag("*" + Str(root, 3), root->labels));
      lazyObj[root] = id;
    }
    p = Ptr(id, off);
  }
  a.obj = p->c;
  E off = p->a;
  a.full = off;
  if (off->k != KConst) { E o2 = s.simp(off); if (o2->k == KConst) off = o2; }
  SplitConst(off, a.base, a.off);
  return true;
}

static bool boundsOk(State &s, const Addr &a, E len) {
  const Obj &o = objs[a.obj];
  if (!o.size) { // unknown extent: only negative offsets are wrong
    return true;
  }
  LinX off;
  if (!s.linP(a.full, off)) return false;
  if (!s.prove(off)) return false;
  LinX e = s.linU(o.size); e.addX(off, -1); e.addX(s.linU(len), -1);
  return s.prove(e);
}
static std::string describe(State &s, const Addr &a, E len) {
  const Obj &o = objs[a.obj];
  return "object '" + o.name + "' (size " + (o.size ? Str(o.size) : "?") + ") at offset " + Str(a.full) + ", " + Str(len) + " bytes";
}
// specifications may look at what they guard; the models in libc.c act for the library
static bool inSpec(const Function *F) {
  static std::unordered_map<const Function *, bool> memo;
  auto it = memo.find(F);
  if (it != memo.end()) return it->second;
  std::string f = F->getSubprogram() ? F->getSubprogram()->getFilename().str() : "";
  bool r = f.find("specs/") != std::string::npos && f.find("specs/libc.c") == std::string::npos;
  return memo[F] = r;
}
static bool checkAccess(State &s, const Addr &a, E len, bool write, Frame *fr, const Instruction *I) {
  const Obj &o = objs[a.obj];
  if (o.kind == Obj::Func) { if (checkMask & CK_BOUNDS) report("bounds", "data access to code", s, fr, I, "access to function"); s.bottom = true; return false; }
  const ObjMem *m = s.cO(a.obj);
  if (m && !m->alive) {
    oblig("use-after-free", I);
    if (checkMask & CK_UAF) report("use-after-free", "use after release", s, fr, I, describe(s, a, len));
    s.bottom = true; return false;
  }
  if (len->k == KConst && len->c == 0) return true;
  oblig(write ? "bounds-write" : "bounds-read", I);
  if (checkMask & CK_BOUNDS) {
    if (s.truth(Cmp(PEq, len, Const(0, len->w))) != 1 && !boundsOk(s, a, len)) {
      report(write ? "bounds-write" : "bounds-read", write ? "write outside object" : "read outside object", s, fr, I, describe(s, a, len));
      if (verbose) { for (auto &l : s.f->lin) { std::string t; for (auto &p : l.t) t += std::to_string((long long)p.second) + "*" + Str(p.first) + " "; fprintf(stderr, "   fact %s + %lld >= 0\n", t.c_str(), (long long)l.c); } }
    }
  }
  if (write && o.ro) {
    oblig("readonly", I);
    if (checkMask & CK_RO) report("readonly", "write to read-only object", s, fr, I, describe(s, a, len));
  }
  if (!guards.empty() && a.obj && !inSpec(fr->F)) {
    for (auto &g : guards) if (g.obj == a.obj) {
      bool ov;
      if (a.base) ov = true;
      else { int64_t n = len->k == KConst ? (int64_t)len->c : INT32_MAX; ov = a.off < g.off + g.size && g.off < a.off + n; }
      if (!ov || ((g.key & 0x100) && !write)) continue;
      oblig("guarded-access", I);
      auto it = s.ghost->find({g.lock, g.key & 0xff});
      E v = it == s.ghost->end() ? Const(0, 64) : it->second;
      if (s.truth(Cmp(PNe, v, Const(0, 64))) != 1)
        report("guarded-access", g.rule, s, fr, I, std::string(write ? "write to " : "read of ") + describe(s, a, len) + " without holding its lock");
    }
  }
  return true;
}

// hull of possible const offsets
static bool offRange(State &s, const Addr &a, int64_t &lo, int64_t &hi) {
  if (!a.base) { lo = hi = a.off; return true; }
  RK r = s.range(a.full);
  if (r.slo < -(1ll << 40) || r.shi > (1ll << 40)) return false;
  lo = r.slo; hi = r.shi;
  return true;
}
static bool disjoint(State &s, E b1, int64_t o1, int64_t n1, E b2, int64_t o2, int64_t n2) {
  E f1 = Add(b1 ? b1 : Const(0, 64), Const(o1, 64)), f2 = Add(b2 ? b2 : Const(0, 64), Const(o2, 64));
  LinX a, b;
  if (!s.linP(f1, a) || !s.linP(f2, b)) return false;
  LinX x = b; x.addX(a, -1); x.c -= n1; // b - a - n1 >= 0
  if (s.prove(x, 3)) return true;
  LinX y = a; y.addX(b, -1); y.c -= n2;
  return s.prove(y, 3);
}
// invalidate everything a write of n bytes at a may hit, apart from the exact location
static void killForStore(State &s, ObjMem &m, const Addr &a, int64_t n) {
  // groups with other bases
  for (size_t gi = 0; gi < m.groups.size();) {
    auto &g = m.groups[gi];
    if (a.base && g.base == a.base) { gi++; continue; }
    for (auto it = g.cells.begin(); it != g.cells.end();) {
      if (disjoint(s, a.base, a.off, n, g.base, it->first, it->second.size)) ++it;
      else it = g.cells.erase(it);
    }
    if (g.cells.empty()) m.groups.erase(m.groups.begin() + gi); else gi++;
  }
  if (a.base) {
    int64_t lo, hi;
    std::string nm = "maybe-overwritten " + objs[a.obj].name;
    if (!offRange(s, a, lo, hi)) {
      uint32_t t = newTag(nm, memLabels(m));
      m.cells.clear(); m.def = initCell(t);
      return;
    }
    hi += n;
    // only the existing (or default) bytes in [lo,hi) become unknown
    uint64_t lab = rangeLabels(m, lo, hi);
    std::vector<std::pair<int64_t, Cell>> keep;
    for (auto it = m.cells.lower_bound(lo - 64); it != m.cells.end() && it->first < hi; ++it)
      if (it->first >= lo && it->first + it->second.size <= hi && disjoint(s, a.base, a.off, n, nullptr, it->first, it->second.size)) keep.push_back(*it);
    // default bytes: if default is unknown content of the same object, it stays unknown
    removeRange(m.cells, lo, hi - lo);
    Cell c = initCell(newTag(nm, lab), 0); c.size = hi - lo;
    m.cells[lo] = c;
    for (auto &k : keep) { removeRange(m.cells, k.first, k.second.size); m.cells[k.first] = k.second; }
  }
}
static bool anyTracked = false;
static SymGroup *findGroup(ObjMem &m, E base, bool create) {
  for (auto &g : m.groups) if (g.base == base) return &g;
  if (!create) return nullptr;
  m.groups.push_back({base, {}});
  return &m.groups.back();
}
// bytes written to a tracked object are remembered in its shadow
static int64_t tracked(const State &s, uint64_t obj) {
  if (!anyTracked) return -1;
  auto it = s.ghost->find({Ptr(obj, Const(0, 64)), -300});
  return it != s.ghost->end() && it->second->k == KConst && it->second->c ? (int64_t)it->second->c : -1;
}
static void noteWrite(State &s, const Addr &a, int64_t n) { // n < 0: unknown extent
  int64_t sh = tracked(s, a.obj);
  if (sh < 0) return;
  ObjMem &m = memOfW(s, sh);
  m.def = n < 0 ? initCell(newTag("j shadow", 0)) : m.def.k == Cell::F ? fillCell(2) : m.def;
  if (n < 0) return;
  Cell c = fillCell(1); c.size = n;
  if (!a.base) { removeRange(m.cells, a.off, n); m.cells[a.off] = c; }
  else { SymGroup *g = findGroup(m, a.base, true); removeRange(g->cells, a.off, n); g->cells[a.off] = c; }
}
static void storeCell(State &s, const Addr &a, const Cell &c) {
  noteWrite(s, a, c.size);
  ObjMem &m = memOfW(s, a.obj);
  killForStore(s, m, a, c.size);
  if (!a.base) { removeRange(m.cells, a.off, c.size); m.cells[a.off] = c; }
  else { SymGroup *g = findGroup(m, a.base, true); removeRange(g->cells, a.off, c.size); g->cells[a.off] = c; }
}
static void storeVal(State &s, const Addr &a, E v) {
  unsigned bytes = (v->w + 7) / 8;
  if (v->w != bytes * 8) v = ZExt(v, bytes * 8);
  Cell c; c.k = Cell::V; c.v = v; c.size = bytes;
  storeCell(s, a, c);
}
static void havocRange(State &s, const Addr &a, int64_t n, uint32_t tag) {
  Cell c = initCell(tag); c.size = n;
  if (n > 0) storeCell(s, a, c);
}

struct Visit { int hdr, count, undec, slot, bounded = 0; };
struct PState { State s; std::vector<E> env; std::vector<Visit> visits; };
struct Out { State s; E ret; };

static std::vector<State> loadSplit(State &s, const Addr &a, unsigned bytes, unsigned w, std::vector<E> &vals) {
  std::vector<State> outs;
  auto fin = [&](State &st, E v) { if (v->w > w) v = Trunc(v, w); outs.push_back(st); vals.push_back(v); };
  if (!a.base) {
    const ObjMem &m = memOf(s, a.obj);
    std::vector<std::pair<int64_t, Cell>> ps;
    pieces(m.cells, &m.def, a.off, bytes, ps);
    bool mat = false;
    for (auto &p : ps) if (p.second.k == Cell::I) mat = true;
    E v = gather(ps);
    if (mat && objs[a.obj].kind != Obj::Func) {
      ObjMem &mw = memOfW(s, a.obj);
      if (ps.size() == 1) { Cell c; c.k = Cell::V; c.v = v; c.size = bytes; removeRange(mw.cells, a.off, bytes); mw.cells[a.off] = c; }
      else for (auto &p : ps) if (p.second.k == Cell::I) { Cell c; c.k = Cell::V; c.size = p.second.size; c.v = cellSlice(p.second, 0, c.size); removeRange(mw.cells, p.first, c.size); mw.cells[p.first] = c; }
    }
    fin(s, v);
    return outs;
  }
  // symbolic offset
  {
    ObjMem &m = memOfW(s, a.obj);
    if (SymGroup *g = findGroup(m, a.base, false)) {
      std::vector<std::pair<int64_t, Cell>> ps;
      if (pieces(g->cells, nullptr, a.off, bytes, ps)) { E v = gather(ps); fin(s, v); return outs; }
    }
  }
  const ObjMem &m = memOf(s, a.obj);
  int64_t lo, hi;
  bool constTable = objs[a.obj].kind == Obj::Global && objs[a.obj].gv && ((const GlobalVariable *)objs[a.obj].gv)->isConstant();
  if (offRange(s, a, lo, hi) && (constTable || (hi - lo) <= 4096)) {
    // enumerate candidate offsets by the stride of the index expression
    int64_t stride = 0;
    if (a.base->k == KLin) { for (auto &t : a.base->t) { int64_t c = sextw(t.second, 64); if (c < 0) c = -c; unsigned k; int64_t sh = 1; if (AsShlZExt(t.first, k)) sh = 1ll << k; c *= sh; stride = stride ? std::__gcd(stride, c) : c; } }
    else { unsigned k; if (AsShlZExt(a.base, k)) stride = 1ll << k; else stride = 1; }
    if (stride <= 0) stride = 1;
    if (objs[a.obj].size && objs[a.obj].size->k == KConst) { hi = std::min<int64_t>(hi, (int64_t)objs[a.obj].size->c - bytes); lo = std::max<int64_t>(lo, 0); }
    // align lo to a.off modulo stride
    int64_t first = lo + (((a.off - lo) % stride) + stride) % stride;
    if ((hi - first) / stride <= 8192 && first <= hi && constTable) {
      std::map<E, std::pair<int64_t, int64_t>, EIdLess> distinct; bool allConst = true; uint64_t vlo = ~0ull, vhi = 0;
      for (int64_t o = first; o <= hi; o += stride) {
        std::vector<std::pair<int64_t, Cell>> ps;
        pieces(m.cells, &m.def, o, bytes, ps);
        E v = gather(ps);
        if (v->k == KConst) { vlo = std::min(vlo, v->c); vhi = std::max(vhi, v->c); } else allConst = false;
        auto it = distinct.find(v);
        if (it == distinct.end()) distinct[v] = {o, o}; else it->second.second = o;
      }
      if (!allConst || distinct.size() <= 24) {
        for (auto &d : distinct) {
          State st = s;
          // narrow the index to the offsets that hold this value
          RK r = st.range(a.full); r.slo = std::max(r.slo, d.second.first); r.shi = std::min(r.shi, d.second.second);
          if (r.slo >= 0) { r.ulo = std::max<uint64_t>(r.ulo, r.slo); r.uhi = std::min<uint64_t>(r.uhi, r.shi); }
          st.refine(a.full, r);
          if (!st.bottom) fin(st, d.first);
        }
        if (outs.empty()) s.bottom = true;
        return outs;
      }
      E v = Sym("tbl " + objs[a.obj].name, bytes * 8, a.base->labels);
      RK r = s.range(v); r.ulo = vlo; r.uhi = vhi;
      s.refine(v, r);
      ObjMem &mw = memOfW(s, a.obj);
      SymGroup *g = findGroup(mw, a.base, true);
      Cell c; c.k = Cell::V; c.v = v; c.size = bytes; removeRange(g->cells, a.off, bytes); g->cells[a.off] = c;
      fin(s, v);
      return outs;
    }
  }
  int64_t olo, ohi; bool bounded = offRange(s, a, olo, ohi);
  E v = Sym(objs[a.obj].name + "[..]", bytes * 8, bounded ? rangeLabels(m, olo, ohi + bytes) : memLabels(m));
  ObjMem &mw = memOfW(s, a.obj);
  // all-zero fill stays zero
  if (m.def.k == Cell::F && m.cells.empty() && m.groups.empty()) { uint64_t x = 0; for (unsigned i = 0; i < bytes; i++) x |= (uint64_t)m.def.fill << (8 * i); fin(s, Const(x, bytes * 8)); return outs; }
  SymGroup *g = findGroup(mw, a.base, true);
  Cell c; c.k = Cell::V; c.v = v; c.size = bytes; removeRange(g->cells, a.off, bytes); g->cells[a.off] = c;
  fin(s, v);
  return outs;
}

// copy n (constant) bytes
static void copyBytes(State &s, const Addr &d, const Addr &src, int64_t n) {
  if (n <= 0) return;
  std::vector<std::pair<int64_t, Cell>> ps;
  bool ok = true;
  if (!src.base) { const ObjMem &m = memOf(s, src.obj); pieces(m.cells, &m.def, src.off, n, ps); }
  else {
    ObjMem &m = memOfW(s, src.obj);
    SymGroup *g = findGroup(m, src.base, false);
    ok = g && pieces(g->cells, nullptr, src.off, n, ps);
  }
  if (!ok) {
    ps.clear();
    // materialize unknown source content so both ranges stay equal
    const ObjMem &m = memOf(s, src.obj);
    Cell c = initCell(newTag(objs[src.obj].name + "[..]", memLabels(m))); c.size = n;
    ObjMem &mw = memOfW(s, src.obj);
    SymGroup *g = findGroup(mw, src.base, true);
    // keep already known parts
    std::map<int64_t, Cell> old = g->cells;
    removeRange(g->cells, src.off, n); g->cells[src.off] = c;
    for (auto &o : old) if (o.first >= src.off && o.first + o.second.size <= src.off + n) { removeRange(g->cells, o.first, o.second.size); g->cells[o.first] = o.second; }
    pieces(g->cells, nullptr, src.off, n, ps);
  }
  std::vector<std::pair<int64_t, Cell>> rel;
  for (auto &p : ps) rel.push_back({p.first - src.off, p.second});
  noteWrite(s, d, n);
  ObjMem &m = memOfW(s, d.obj);
  killForStore(s, m, d, n);
  std::map<int64_t, Cell> *cells;
  if (!d.base) cells = &m.cells; else cells = &findGroup(m, d.base, true)->cells;
  removeRange(*cells, d.off, n);
  for (auto &p : rel) (*cells)[d.off + p.first] = p.second;
}

// ---------------------------------------------------------------- joins
static bool cellEq(const Cell &a, const Cell &b) {
  if (a.k != b.k || a.size != b.size) return false;
  switch (a.k) { case Cell::V: return a.v == b.v; case Cell::F: return a.fill == b.fill; case Cell::I: return a.tag == b.tag && a.off == b.off; }
  return false;
}
static bool cellsEq(const std::map<int64_t, Cell> &a, const std::map<int64_t, Cell> &b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin(), j = b.begin();
  for (; i != a.end(); ++i, ++j) if (i->first != j->first || !cellEq(i->second, j->second)) return false;
  return true;
}
static bool objEq(const ObjMem &a, const ObjMem &b) {
  Cell da = a.def, db = b.def; da.size = db.size = 0;
  if (a.alive != b.alive || !cellEq(da, db) || !cellsEq(a.cells, b.cells) || a.groups.size() != b.groups.size()) return false;
  for (size_t i = 0; i < a.groups.size(); i++) if (a.groups[i].base != b.groups[i].base || !cellsEq(a.groups[i].cells, b.groups[i].cells)) return false;
  return true;
}
// materialized init values equal their default: an I piece loads as tagSym
static bool sameGhost(const State &a, const State &b) { return a.ghost == b.ghost || *a.ghost == *b.ghost; }
static bool sameAlive(const State &a, const State &b) {
  if (a.mem == b.mem) return true;
  for (auto &p : *a.mem) { auto it = b.mem->find(p.first); uint8_t x = p.second->alive, y = it == b.mem->end() ? 1 : it->second->alive; if (x != y) return false; }
  for (auto &p : *b.mem) if (!p.second->alive && !a.mem->count(p.first)) return false;
  return true;
}
static bool sameMem(State &a, State &b) {
  if (a.mem == b.mem) return true;
  for (auto &p : *a.mem) {
    auto it = b.mem->find(p.first);
    if (it == b.mem->end()) { if (!objEq(*p.second, memOf(b, p.first))) return false; }
    else if (it->second != p.second && !objEq(*p.second, *it->second)) return false;
  }
  for (auto &p : *b.mem) if (!a.mem->count(p.first) && !objEq(*p.second, memOf(a, p.first))) return false;
  return true;
}
static bool sameData(PState &a, PState &b, const std::vector<int> &live) {
  static const bool dbg = getenv("PTAI_SAME");
  if (dbg) {
    for (int i : live) if (a.env[i] != b.env[i]) { fprintf(stderr, "differ env %d: %s | %s\n", i, a.env[i] ? Str(a.env[i]).c_str() : "-", b.env[i] ? Str(b.env[i]).c_str() : "-"); }
    if (!sameGhost(a.s, b.s)) fprintf(stderr, "differ ghost\n");
    if (*a.s.cnt != *b.s.cnt) fprintf(stderr, "differ cnt\n");
    if (!sameMem(a.s, b.s)) for (auto &p : *a.s.mem) { auto it = b.s.mem->find(p.first); if (!objEq(*p.second, it == b.s.mem->end() ? memOf(b.s, p.first) : *it->second)) { fprintf(stderr, "differ obj %s groups %zu\n", objs[p.first].name.c_str(), p.second->groups.size()); 
      const ObjMem &x = *p.second, &y = it == b.s.mem->end() ? memOf(b.s, p.first) : *it->second;
      for (auto &c : x.cells) { auto f = y.cells.find(c.first); if (f == y.cells.end() || !cellEq(f->second, c.second)) fprintf(stderr, "    @%lld %s | %s\n", (long long)c.first, c.second.k == Cell::V ? Str(c.second.v).c_str() : "I", f == y.cells.end() ? "none" : f->second.k == Cell::V ? Str(f->second.v).c_str() : "I"); }
      for (auto &g : x.groups) fprintf(stderr, "    base %s\n", Str(g.base).c_str()); } }
  }
  for (int i : live) if (a.env[i] != b.env[i]) return false;
  return sameGhost(a.s, b.s) && sameMem(a.s, b.s) && *a.s.cnt == *b.s.cnt;
}
static RK hull(const RK &a, const RK &b) {
  RK r; r.ulo = std::min(a.ulo, b.ulo); r.uhi = std::max(a.uhi, b.uhi); r.slo = std::min(a.slo, b.slo); r.shi = std::max(a.shi, b.shi); r.kz = a.kz & b.kz; r.ko = a.ko & b.ko;
  return r;
}
static bool isFull(const RK &r, E e) {
  return r.ulo == 0 && r.uhi == maskw(e->w) && r.slo == sextw(1ull << (e->w - 1), e->w) && r.shi == (int64_t)(maskw(e->w) >> 1) && r.kz == ~maskw(e->w) && r.ko == 0;
}

static RK widenRK(const RK &a, const RK &b, unsigned w) {
  RK r; uint64_t m = maskw(w);
  static const uint64_t th[] = {0, 1, 15, 255, 0x7fffffff, 0xffffffff, 0x7fffffffffffffffull};
  r.ulo = b.ulo < a.ulo ? 0 : a.ulo;
  r.uhi = a.uhi;
  if (b.uhi > a.uhi) { r.uhi = m; for (uint64_t t : th) if (t >= b.uhi && t < m) { r.uhi = t; break; } }
  r.slo = b.slo < a.slo ? (b.slo >= -1 ? -1 : sextw(1ull << (w - 1), w)) : a.slo;
  if (b.slo < a.slo && b.slo >= 0) r.slo = 0;
  r.shi = a.shi;
  if (b.shi > a.shi) { r.shi = (int64_t)(m >> 1); if (b.shi >= 0) for (uint64_t t : th) if ((int64_t)t >= b.shi && t < (m >> 1)) { r.shi = t; break; } }
  r.kz = a.kz & b.kz; r.ko = a.ko & b.ko;
  if (r.kz != a.kz) { // lost zero bits do not come back one by one
    unsigned bl = r.uhi ? 64 - __builtin_clzll(r.uhi) : 0;
    uint64_t above = bl >= 64 ? 0 : ~((1ull << bl) - 1);
    uint64_t trail = r.kz == ~0ull ? ~0ull : ((1ull << __builtin_ctzll(~r.kz)) - 1);
    r.kz &= above | trail | ~m;
  }
  return r;
}

struct JoinCtx {
  State &A, &B; // inputs
  std::map<std::pair<E, E>, E> pairs;
  std::vector<std::pair<E, std::pair<E, E>>> syms; // new symbol <- (a,b)
  std::string prefix; int counter = 0; bool ptrMismatch = false; bool force = false;
  JoinCtx(State &a, State &b) : A(a), B(b) {}
  E val(E a, E b) {
    if (a == b) return a;
    if (a->w != b->w) { return Sym("join?", a->w, a->labels | b->labels); }
    auto it = pairs.find({a, b});
    if (it != pairs.end()) return it->second;
    E r = nullptr;
    if (a->w == 64) {
      E ra = A.resolvePtr(a), rb = B.resolvePtr(b);
      if (ra->k == KPtr && rb->k == KPtr && ra->c == rb->c) r = Ptr(ra->c, val(ra->a, rb->a));
      else if (ra->k == KPtr || rb->k == KPtr) { ptrMismatch = true; }
    }
    if (!r) {
      // structured joins keep extension shapes
      E za = AsZExt(a), zb = AsZExt(b);
      if (za && zb && za->w == zb->w) r = ZExt(val(za, zb), a->w);
    }
    if (!r) {
      r = Sym("j", a->w, a->labels | b->labels);
      syms.push_back({r, {a, b}});
    }
    pairs[{a, b}] = r;
    return r;
  }
};

static void joinCells(JoinCtx &J, const std::map<int64_t, Cell> &a, const Cell *da, const std::map<int64_t, Cell> &b, const Cell *db, std::map<int64_t, Cell> &out, const std::string &nm) {
  // collect boundaries
  if (cellsEq(a, b) && ((!da && !db) || cellEq(*da, *db))) { out = a; return; }
  std::set<int64_t> starts;
  std::vector<std::pair<int64_t, int64_t>> iv; // union of intervals
  for (auto &c : a) iv.push_back({c.first, c.first + c.second.size});
  for (auto &c : b) iv.push_back({c.first, c.first + c.second.size});
  std::sort(iv.begin(), iv.end());
  std::vector<std::pair<int64_t, int64_t>> mer;
  for (auto &i : iv) { if (!mer.empty() && i.first < mer.back().second) mer.back().second = std::max(mer.back().second, i.second); else mer.push_back(i); }
  for (auto &i : mer) {
    int64_t lo = i.first, n = i.second - i.first;
    std::vector<std::pair<int64_t, Cell>> pa, pb;
    bool oka = pieces(a, da, lo, n, pa), okb = pieces(b, db, lo, n, pb);
    if (!oka || !okb) continue; // group cells missing on one side: unknown
    bool eq = pa.size() == pb.size();
    for (size_t k = 0; eq && k < pa.size(); k++) eq = pa[k].first == pb[k].first && cellEq(pa[k].second, pb[k].second);
    if (eq) { for (auto &p : pa) out[p.first] = p.second; continue; }
    // common refinement
    std::set<int64_t> cut;
    for (auto &p : pa) cut.insert(p.first);
    for (auto &p : pb) cut.insert(p.first);
    cut.insert(lo + n);
    for (auto it = cut.begin(); std::next(it) != cut.end(); ++it) {
      int64_t x = *it, y = *std::next(it), len = y - x;
      auto part = [&](std::vector<std::pair<int64_t, Cell>> &ps) { for (auto &p : ps) if (p.first <= x && x < p.first + p.second.size) return cellPart(p.second, x - p.first, len); return Cell(); };
      Cell ca = part(pa), cb = part(pb);
      if (cellEq(ca, cb)) { out[x] = ca; continue; }
      if (len <= 8 && !(ca.k == Cell::I && cb.k == Cell::I)) {
        E va = cellSlice(ca, 0, len), vb = cellSlice(cb, 0, len);
        Cell c; c.k = Cell::V; c.size = len; c.v = J.val(va, vb);
        out[x] = c;
      } else if (len <= 64 && ca.k != Cell::V && cb.k != Cell::V && !(ca.k == Cell::I && cb.k == Cell::I)) {
        Cell c = initCell(newTag("j " + nm, defLabels(ca) | defLabels(cb)), x); c.size = len; out[x] = c;
      } else {
        uint64_t l = (ca.k == Cell::V ? ca.v->labels : defLabels(ca)) | (cb.k == Cell::V ? cb.v->labels : defLabels(cb));
        Cell c = initCell(newTag("j " + nm, l), x); c.size = len; out[x] = c;
      }
    }
  }
}

static LinX substLin(State &s, const LinX &g, E from, const LinX &to) {
  LinX r; r.c = g.c;
  for (auto &p : g.t) { if (p.first == from) r.addX(to, p.second); else r.add(p.first, p.second); }
  return r;
}

// joins B into A. live: env indices to keep. Returns false if refused (pointer mismatch and !force).
// range, using linear facts for the sign of sums
static RK tightRange(State &s, E e) {
  RK r = s.range(e);
  if (r.slo < 0 && e->w == 64 && e->k == KLin) {
    LinX x;
    if (s.linP(e, x) && s.prove(x)) { r.slo = 0; r.ulo = 0; r.uhi = std::min<uint64_t>(r.uhi, (uint64_t)std::max<int64_t>(r.shi, 0)); }
  }
  return r;
}
static bool optRel = true; // relations between values are kept by joins
static bool joinStates(PState &PA, PState &PB, const std::vector<int> &live, PState &R, bool force, bool widen = false, std::vector<std::pair<E, std::pair<E, E>>> *symsOut = nullptr, E *retA = nullptr, E *retB = nullptr, E *retR = nullptr) {
  State &A = PA.s, &B = PB.s;
  JoinCtx J(A, B);
  J.force = force;
  R.env.assign(PA.env.size(), nullptr);
  for (int i : live) {
    E a = PA.env[i], b = PB.env[i];
    if (a && b) R.env[i] = J.val(a, b);
  }
  if (retR && *retA && *retB) *retR = J.val(*retA, *retB);
  R.visits = PA.visits;
  for (auto &v : PB.visits) { bool f = false; for (auto &u : R.visits) if (u.hdr == v.hdr) { f = true; u.count = std::max(u.count, v.count); u.undec = std::max(u.undec, v.undec); u.slot = std::max(u.slot, v.slot); u.bounded = std::min(u.bounded, v.bounded); } if (!f) R.visits.push_back(v); }
  if (J.ptrMismatch && !force) return false;
  // memory
  State S;
  S.trace = A.trace;
  auto &M = S.M();
  std::set<uint64_t> ids;
  if (A.mem == B.mem) S.mem = A.mem;
  else {
    for (auto &p : *A.mem) ids.insert(p.first);
    for (auto &p : *B.mem) ids.insert(p.first);
    for (uint64_t id : ids) {
      auto ia = A.mem->find(id), ib = B.mem->find(id);
      if (ia != A.mem->end() && ib != B.mem->end() && ia->second == ib->second) { M[id] = ia->second; continue; }
      // frame-local or heap objects existing on one side only: keep as is
      if ((ia == A.mem->end() || ib == B.mem->end()) && (objs[id].kind == Obj::Alloca || objs[id].kind == Obj::Heap || objs[id].kind == Obj::Region)) {
        M[id] = ia != A.mem->end() ? ia->second : ib->second;
        continue;
      }
      const ObjMem &a = memOf(A, id), &b = memOf(B, id);
      if (objEq(a, b)) { M[id] = ia != A.mem->end() ? ia->second : ib->second; continue; }
      auto o = std::make_shared<ObjMem>();
      o->alive = a.alive && b.alive;
      Cell da = a.def, db = b.def; da.size = db.size = 0;
      if (cellEq(da, db)) o->def = a.def;
      else if (defLabels(da) == 0 && da.k == Cell::I && false) o->def = da;
      else o->def = initCell(newTag("j " + objs[id].name, defLabels(da) | defLabels(db)));
      joinCells(J, a.cells, &a.def, b.cells, &b.def, o->cells, objs[id].name);
      for (auto &ga : a.groups) for (auto &gb : b.groups) if (ga.base == gb.base) {
        SymGroup g; g.base = ga.base;
        joinCells(J, ga.cells, nullptr, gb.cells, nullptr, g.cells, objs[id].name);
        if (!g.cells.empty()) o->groups.push_back(g);
      }
      if (objs[id].kind == Obj::Shadow) { // what was written must not be forgotten
        bool same = objEq(a, *o) && objEq(b, *o);
        if (!same) { o->cells.clear(); o->groups.clear(); o->def = initCell(newTag("j shadow", 0)); }
      }
      M[id] = o;
      if (J.ptrMismatch && !force) return false;
    }
  }
  // ghost
  if (A.ghost == B.ghost) S.ghost = A.ghost;
  else {
    auto &G = S.G();
    for (auto &p : *A.ghost) {
      auto it = B.ghost->find(p.first);
      E vb = it == B.ghost->end() ? Const(0, 64) : it->second;
      G[p.first] = J.val(p.second, vb);
    }
    for (auto &p : *B.ghost) if (!A.ghost->count(p.first)) G[p.first] = J.val(Const(0, 64), p.second);
  }
  if (J.ptrMismatch && !force) return false;
  // counters
  if (A.cnt == B.cnt) S.cnt = A.cnt;
  else { S.cnt = std::make_shared<std::map<uint64_t, int>>(*A.cnt); for (auto &p : *B.cnt) { int &x = (*S.cnt)[p.first]; x = std::max(x, p.second); } }
  // facts
  if (A.f == B.f && J.syms.empty()) { S.f = A.f; R.s = S; return true; }
  Facts &F = S.F();
  for (auto &p : A.cF().r) {
    auto it = B.cF().r.find(p.first);
    RK rb = it != B.cF().r.end() ? it->second : B.range(p.first, 2);
    RK h = widen ? widenRK(p.second, rb, p.first->w) : hull(p.second, rb);
    if (!isFull(h, p.first)) F.r[p.first] = h;
  }
  if (!widen) for (auto &p : B.cF().r) if (!A.cF().r.count(p.first)) {
    RK h = hull(p.second, A.range(p.first, 2));
    if (!isFull(h, p.first)) F.r[p.first] = h;
  }
  for (auto &p : A.cF().alias) { auto it = B.cF().alias.find(p.first); if (it != B.cF().alias.end() && it->second == p.second) F.alias.insert(p); }
  for (auto &p : A.cF().nowrap) { auto it = B.cF().nowrap.find(p.first); if (it != B.cF().nowrap.end() && it->second == p.second) F.nowrap.insert(p); }
  for (auto &p : A.cF().ne) if (B.cF().ne.count(p) || B.truth(Cmp(PNe, p.first, p.second)) == 1) F.ne.insert(p);
  for (auto &p : B.cF().ne) if (!A.cF().ne.count(p) && A.truth(Cmp(PNe, p.first, p.second)) == 1) F.ne.insert(p);
  for (auto &j : J.syms) {
    E a = j.second.first, b = j.second.second;
    RK h = widen ? widenRK(tightRange(A, a), tightRange(B, b), a->w) : hull(tightRange(A, a), tightRange(B, b));
    if (!isFull(h, j.first)) F.r[j.first] = h;
    // known inequalities with constants (notably != 0)
    E z = Const(0, a->w);
    if (A.truth(Cmp(PNe, a, z)) == 1 && B.truth(Cmp(PNe, b, z)) == 1) { auto key = z->id < j.first->id ? std::make_pair(z, j.first) : std::make_pair(j.first, z); F.ne.insert(key); }
  }
  auto addf = [&](const LinX &x) { if (x.t.empty()) return; for (auto &g : F.lin) if (g.t == x.t) { if (x.c < g.c) g.c = x.c; return; } F.lin.push_back(x); };
  for (auto &g : A.cF().lin) {
    bool in = false; for (auto &h : B.cF().lin) if (h == g) { in = true; break; }
    if (in || (optRel && B.prove(g, 2))) addf(g);
  }
  if (!widen && optRel) for (auto &g : B.cF().lin) {
    bool in = false; for (auto &h : A.cF().lin) if (h == g) { in = true; break; }
    if (!in && A.prove(g, 2)) addf(g);
  }
  if (optRel && !J.syms.empty()) {
    // relations of new symbols: renamed facts and difference templates
    ESet anchors;
    for (auto &g : A.cF().lin) for (auto &p : g.t) anchors.insert(p.first);
    for (auto &g : B.cF().lin) for (auto &p : g.t) anchors.insert(p.first);
    struct S2 { E s; LinX a, b; };
    std::vector<S2> ss;
    for (auto &j : J.syms) if (j.first->w >= 8) ss.push_back({j.first, A.linU(j.second.first), B.linU(j.second.second)});
    for (auto &x : ss) {
      if (ss.size() > 60) break;
      // facts mentioning the old value
      auto ren = [&](State &from, const LinX &old, State &other, const LinX &oth) {
        if (old.t.empty()) return;
        E at = old.t.back().first; i128 co = old.t.back().second;
        for (auto &g : from.cF().lin) {
          i128 cg = 0; for (auto &p : g.t) if (p.first == at) cg = p.second;
          if (!cg || cg % co) continue;
          LinX h = g; h.addX(old, -(cg / co)); h.add(x.s, cg / co);
          // express over the other side
          LinX o = substLin(other, h, x.s, oth);
          if (other.prove(o, 3)) addf(h);
        }
      };
      ren(A, x.a, B, x.b); if (!widen) ren(B, x.b, A, x.a);
      for (E t : anchors) {
        for (int sg = 1; sg >= -1; sg -= 2) { // s - t >= 0, t - s >= 0
          LinX g; g.add(x.s, sg); g.add(t, -sg);
          LinX ga = substLin(A, g, x.s, x.a), gb = substLin(B, g, x.s, x.b);
          bool constA = ga.t.empty(), constB = gb.t.empty();
          if (constA && constB) { if (widen && gb.c < ga.c) continue; LinX h = g; h.c -= std::min(ga.c, gb.c); addf(h); }
          else if (A.prove(ga, 3) && B.prove(gb, 3)) addf(g);
        }
      }
    }
    for (size_t i = 0; i < ss.size() && ss.size() <= 40; i++) for (size_t k = i + 1; k < ss.size(); k++) {
      // common linear motion: (b_i - a_i) and (b_k - a_k) constant
      LinX di = ss[i].b; di.addX(ss[i].a, -1);
      LinX dk = ss[k].b; dk.addX(ss[k].a, -1);
      if (di.t.empty() && dk.t.empty() && (di.c || dk.c)) {
        // dk*s_i - di*s_k = dk*a_i - di*a_k
        LinX e; e.add(ss[i].s, dk.c); e.add(ss[k].s, -di.c);
        e.addX(ss[i].a, -dk.c); e.addX(ss[k].a, di.c);
        addf(e); LinX n; n.addX(e, -1); addf(n);
      } else {
        for (int sg = 1; sg >= -1; sg -= 2) {
          LinX g; g.add(ss[i].s, sg); g.add(ss[k].s, -sg);
          LinX ga = ss[i].a; ga.addX(ss[k].a, -1); LinX gb = ss[i].b; gb.addX(ss[k].b, -1);
          LinX xa, xb; xa.addX(ga, sg); xb.addX(gb, sg);
          if (xa.t.empty() && xb.t.empty()) { if (widen && xb.c < xa.c) continue; LinX h = g; h.c -= std::min(xa.c, xb.c); addf(h); }
          else if (A.prove(xa, 2) && B.prove(xb, 2)) addf(g);
        }
      }
    }
    // ranges implied by the relations
    for (auto &x : ss) for (auto &g : F.lin) {
      i128 cj = 0, rest = g.c;
      for (auto &p : g.t) { if (p.first == x.s) { cj = p.second; continue; } RK a = S.range(p.first, 4); rest += p.second > 0 ? p.second * (i128)(u128)a.uhi : p.second * (i128)(u128)a.ulo; }
      if (cj >= 0 || rest < 0) continue;
      i128 b = rest / -cj; RK r = S.range(x.s);
      if (b < (i128)(u128)r.uhi && b >= (i128)(u128)r.ulo) { RK n = r; n.uhi = (uint64_t)b; if (n.uhi <= (maskw(x.s->w) >> 1)) { n.slo = std::max<int64_t>(n.slo, 0); n.shi = std::min<int64_t>(n.shi, (int64_t)n.uhi); } if (!n.empty()) S.F().r[x.s] = n; }
    }
    // motion relative to unchanged constants handled by ranges
  }
  if (symsOut) *symsOut = J.syms;
  R.s = S;
  return true;
}
static void joinFactsOnly(State &A, State &B) {
  PState a, b, r; a.s = A; b.s = B;
  if (A.f == B.f) return;
  std::vector<int> live;
  // data is identical: only facts differ
  auto saveMem = A.mem; b.s.mem = A.mem; b.s.ghost = A.ghost;
  joinStates(a, b, live, r, true);
  A.f = r.s.f;
  A.mem = saveMem;
}
#include "exec.inc"
