// Dataflow queries over a linked LLVM module: globals, input, returns, drops.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <regex>
#include <string>
#include <cstring>
using namespace llvm;

static std::unique_ptr<Module> M;
static json::Array findings;
static json::Object stats;
static json::Array errors;
static std::set<std::string> functions;
static size_t obligations = 0;

static std::string where(const Instruction *I) {
  if (auto &D = I->getDebugLoc()) {
    auto *L = D.get();
    return (L->getDirectory().empty() || L->getFilename().starts_with("/") ? std::string() : L->getDirectory().str() + "/") + L->getFilename().str() + ":" + std::to_string(L->getLine());
  }
  if (auto *S = I->getFunction()->getSubprogram()) return S->getDirectory().str() + "/" + S->getFilename().str() + ":" + std::to_string(S->getLine());
  return "?";
}
static std::string whereF(const Function *F) {
  if (auto *S = F->getSubprogram()) {
    std::string f = S->getFilename().str();
    return (f.size() && f[0] == '/' ? f : S->getDirectory().str() + "/" + f) + ":" + std::to_string(S->getLine());
  }
  return "?";
}
static void report(const std::string &kind, const std::string &rule, const std::string &loc, const std::string &fn, const std::string &msg, json::Array path = {}) {
  json::Array st; st.push_back(fn);
  findings.push_back(json::Object{{"kind", kind}, {"rule", rule}, {"loc", loc}, {"fn", fn}, {"msg", msg}, {"stack", std::move(st)}, {"path", std::move(path)}});
}

static const Value *strip(const Value *V) {
  for (;;) {
    if (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0);
    else if (auto *CE = dyn_cast<ConstantExpr>(V)) { if (CE->isCast() || CE->getOpcode() == Instruction::GetElementPtr) V = CE->getOperand(0); else return V; }
    else if (auto *G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand();
    else return V;
  }
}

// ---- globals: every global variable is constant, or nothing ever writes it or lets its address escape
static void globals() {
  size_t n = 0;
  static const char *bad[] = {"strtok", "localtime", "gmtime", "ctime", "asctime", "strerror", "rand", "srand", "setlocale", "setenv", "putenv", "signal", "tmpnam", "getenv", "random", "srandom", "drand48", "strsignal", "readdir", "gethostbyname", "ttyname", "umask", "chdir", nullptr};
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    n++; obligations++;
    if (G.isConstant() || G.isThreadLocal()) continue;
    if (G.isDeclaration()) continue; // stdin, stdout, ...
    std::set<const Value *> seen; std::deque<const Value *> W{&G};
    auto hit = [&](const Instruction *I, const char *how) {
      report("global-state", "the library keeps no mutable global state", where(I), I->getFunction()->getName().str(), "variable '" + G.getName().str() + "' " + how);
    };
    while (!W.empty()) {
      const Value *V = W.front(); W.pop_front();
      if (!seen.insert(V).second) continue;
      for (auto *U : V->users()) {
        if (auto *S = dyn_cast<StoreInst>(U)) { hit(S, S->getPointerOperand() == V ? "is written" : "has its address stored"); continue; }
        if (isa<LoadInst>(U) || isa<CmpInst>(U)) continue;
        if (isa<DbgInfoIntrinsic>(U)) continue;
        if (auto *MI = dyn_cast<MemIntrinsic>(U)) { if (MI->getRawDest() == V) hit(MI, "is written"); continue; }
        if (auto *C = dyn_cast<CallBase>(U)) { hit(C, "has its address passed on"); continue; }
        if (auto *R = dyn_cast<ReturnInst>(U)) { hit(R, "has its address returned"); continue; }
        if (isa<AtomicRMWInst>(U) || isa<AtomicCmpXchgInst>(U)) { hit(cast<Instruction>(U), "is written"); continue; }
        if (auto *TV = dyn_cast<GlobalVariable>(U)) { // a table of addresses: follow what is loaded from it
          std::set<const Value *> ts; std::deque<const Value *> TW{TV};
          while (!TW.empty()) {
            const Value *t = TW.front(); TW.pop_front(); if (!ts.insert(t).second) continue;
            for (auto *tu : t->users()) {
              if (auto *L = dyn_cast<LoadInst>(tu)) { if (L->getType()->isPointerTy()) W.push_back(L); }
              else if (isa<GEPOperator>(tu) || isa<CastInst>(tu) || isa<PHINode>(tu) || isa<SelectInst>(tu) || isa<ConstantExpr>(tu)) TW.push_back(tu);
            }
          }
          continue;
        }
        W.push_back(U);
      }
    }
  }
  for (auto &F : *M) {
    if (!F.isDeclaration()) { functions.insert(F.getName().str()); continue; }
    for (auto **b = bad; *b; b++) if (F.getName() == *b) for (auto *U : F.users()) if (auto *I = dyn_cast<Instruction>(U)) {
      report("global-state", "the library uses no process-wide state", where(I), I->getFunction()->getName().str(), "calls " + F.getName().str());
    }
  }
  stats["global variables"] = (int64_t)n;
}

// ---- call graph
static std::set<const Function *> reach(const std::vector<const Function *> &roots) {
  std::set<const Function *> seen; std::deque<const Function *> W(roots.begin(), roots.end());
  while (!W.empty()) {
    auto *F = W.front(); W.pop_front();
    if (F->isDeclaration() || !seen.insert(F).second) continue;
    for (auto &I : instructions(*F)) for (auto &O : I.operands()) if (auto *G = dyn_cast<Function>(O->stripPointerCasts())) W.push_back(G);
    // functions referenced from constant tables
    for (auto &I : instructions(*F)) for (auto &O : I.operands()) if (auto *GV = dyn_cast<GlobalVariable>(strip(O))) if (GV->hasInitializer()) {
      std::deque<const Constant *> C{GV->getInitializer()}; std::set<const Constant *> cs;
      while (!C.empty()) { auto *c = C.front(); C.pop_front(); if (!cs.insert(c).second) continue; if (auto *g = dyn_cast<Function>(c)) W.push_back(g); for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o)) C.push_back(oc); }
    }
  }
  return seen;
}

// ---- input: nothing is stored through a pointer into the trace buffer or into the caller's configuration
struct Loc { int kind; std::string key; const Value *v; bool operator<(const Loc &o) const { return std::tie(kind, key, v) < std::tie(o.kind, o.key, o.v); } };
static std::map<std::pair<std::string, std::string>, int> fieldIdx;
static void collectFields() {
  DebugInfoFinder D; D.processModule(*M);
  for (auto *T : D.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_structure_type && !C->getName().empty()) {
    StructType *ST = StructType::getTypeByName(M->getContext(), ("struct." + C->getName()).str());
    if (!ST || ST->isOpaque()) continue;
    const StructLayout *SL = M->getDataLayout().getStructLayout(ST);
    for (auto *E : C->getElements()) if (auto *F = dyn_cast<DIDerivedType>(E)) {
      uint64_t off = F->getOffsetInBits() / 8;
      if (off >= SL->getSizeInBytes()) continue;
      fieldIdx[{C->getName().str(), F->getName().str()}] = SL->getElementContainingOffset(off);
    }
  }
}
static std::string fieldKey(const GEPOperator *G) {
  // innermost struct the address is a member of
  Type *T = G->getSourceElementType(); std::string key; bool first = true;
  for (auto &Ix : G->indices()) {
    if (first) { first = false; continue; }
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *C = dyn_cast<ConstantInt>(Ix); if (!C) return "";
      unsigned i = C->getZExtValue();
      if (S->hasName()) key = (S->getName() + "#" + Twine(i)).str(); else key += "#" + std::to_string(i);
      T = S->getElementType(i);
    } else if (auto *A = dyn_cast<ArrayType>(T)) T = A->getElementType();
    else return key;
  }
  return key;
}
static const Value *base(const Value *V) { // of an address, without changing the object or the member
  for (;;) {
    if (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0);
    else if (auto *G = dyn_cast<GEPOperator>(V)) { if (!fieldKey(G).empty()) return V; V = G->getPointerOperand(); }
    else return V;
  }
}
static Loc locOf(const Value *P) {
  P = base(P);
  if (auto *G = dyn_cast<GEPOperator>(P)) return {1, fieldKey(G), nullptr};
  return {2, "", P};
}
static void input() {
  collectFields();
  std::vector<const Function *> roots;
  auto exported = [&](const Function &F) { return !F.isDeclaration() && !F.hasLocalLinkage() && F.getName().starts_with("pt_"); };
  std::set<const Function *> hidden;
  for (auto &F : *M) if (exported(F) && F.hasDefaultVisibility() && !F.getName().starts_with("pt_enc_") && !F.getName().starts_with("pt_alloc_encoder") && !F.getName().starts_with("pt_encoder_") && !F.getName().starts_with("pt_free_encoder")) roots.push_back(&F);
  auto R = reach(roots);
  for (auto *F : R) functions.insert(F->getName().str());
  std::set<const Value *> T;              // tainted pointers
  std::set<Loc> C;                        // locations that hold tainted pointers
  std::map<const Value *, std::string> why;
  bool ch = true;
  auto taint = [&](const Value *V, const std::string &w) { if ((V->getType()->isPointerTy() || isa<PtrToIntInst>(V) || isa<BinaryOperator>(V)) && !isa<Constant>(V) && T.insert(V).second) { why[V] = w; ch = true; } };
  auto hold = [&](const Loc &L) { if (C.insert(L).second) ch = true; };
  for (const char *f : {"begin", "end"}) {
    auto it = fieldIdx.find({"pt_config", f});
    if (it == fieldIdx.end()) { report("unreachable", "the configuration has the buffer's bounds", "?", "", std::string("struct pt_config has no member ") + f); continue; }
    hold({1, "struct.pt_config#" + std::to_string(it->second), nullptr});
  }
  size_t nsrc = 0;
  for (auto *F : R) if (auto *S = F->getSubprogram()) {
    auto types = S->getType()->getTypeArray();
    for (unsigned i = 0; i < F->arg_size() && i + 1 < types.size(); i++) {
      const DIType *t = types[i + 1]; if (!t) continue;
      auto *P = dyn_cast<DIDerivedType>(t); if (!P || P->getTag() != dwarf::DW_TAG_pointer_type) continue;
      auto *Q = dyn_cast_or_null<DIDerivedType>(P->getBaseType()); if (!Q || Q->getTag() != dwarf::DW_TAG_const_type) continue;
      auto *B = Q->getBaseType(); if (!B) continue;
      if (B->getName() == "pt_config") { taint(F->getArg(i), "the caller's configuration"); nsrc++; }
    }
  }
  while (ch) {
    ch = false;
    for (auto *F : R) for (auto &I : instructions(*F)) {
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->getType()->isPointerTy() && C.count(locOf(L->getPointerOperand()))) taint(L, "the trace buffer"); }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { if (T.count(S->getValueOperand()) && why[S->getValueOperand()] == "the trace buffer") hold(locOf(S->getPointerOperand())); }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { if (T.count(G->getPointerOperand())) taint(G, why[G->getPointerOperand()]); }
      else if (auto *X = dyn_cast<CastInst>(&I)) { if (T.count(X->getOperand(0))) taint(X, why[X->getOperand(0)]); }
      else if (auto *B = dyn_cast<BinaryOperator>(&I)) { for (auto *V : {B->getOperand(0), B->getOperand(1)}) if (T.count(V)) taint(B, why[V]); }
      else if (auto *P = dyn_cast<PHINode>(&I)) { for (auto &V : P->incoming_values()) if (T.count(V)) taint(P, why[V]); for (auto &V : P->incoming_values()) if (P->getType()->isPointerTy() && C.count(locOf(V))) hold(locOf(P)); }
      else if (auto *Se = dyn_cast<SelectInst>(&I)) { for (auto *V : {Se->getTrueValue(), Se->getFalseValue()}) if (T.count(V)) taint(Se, why[V]); }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(CB)) continue;
        std::vector<const Function *> callees;
        if (auto *D = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) callees.push_back(D);
        else for (auto *A : R) if (A->hasAddressTaken() && A->getFunctionType() == CB->getFunctionType()) callees.push_back(A);
        for (auto *D : callees) {
          if (D->isDeclaration() || !R.count(D)) continue;
          for (unsigned i = 0; i < CB->arg_size() && i < D->arg_size(); i++) {
            const Value *A = CB->getArgOperand(i);
            if (T.count(A)) taint(D->getArg(i), why[A]);
            if (A->getType()->isPointerTy()) {
              if (C.count(locOf(A))) hold({2, "", D->getArg(i)});
              if (C.count({2, "", D->getArg(i)})) hold(locOf(A));
            }
          }
          if (CB->getType()->isPointerTy()) for (auto &J : instructions(*D)) if (auto *Re = dyn_cast<ReturnInst>(&J)) if (Re->getReturnValue() && T.count(Re->getReturnValue())) taint(CB, why[Re->getReturnValue()]);
        }
      }
    }
  }
  static const std::map<std::string, unsigned> writers = {{"memcpy", 0}, {"memmove", 0}, {"memset", 0}, {"strcpy", 0}, {"strncpy", 0}, {"strcat", 0}, {"snprintf", 0}, {"sprintf", 0}, {"fread", 0}, {"fgets", 0}, {"read", 1}, {"pread", 1}, {"free", 0}, {"realloc", 0}};
  size_t stores = 0;
  for (auto *F : R) for (auto &I : instructions(*F)) {
    auto bad = [&](const Value *P, const char *how) {
      stores++; obligations++;
      if (T.count(P)) report("input-written", "decoding modifies neither the trace buffer nor the caller's configuration", where(&I), F->getName().str(), std::string(how) + " " + why[P]);
    };
    if (auto *S = dyn_cast<StoreInst>(&I)) bad(S->getPointerOperand(), "stores into");
    else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) bad(MI->getRawDest(), "writes");
    else if (auto *AR = dyn_cast<AtomicRMWInst>(&I)) bad(AR->getPointerOperand(), "updates");
    else if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *D = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (D->isDeclaration()) {
      auto it = writers.find(D->getName().str());
      if (it != writers.end() && it->second < CB->arg_size()) bad(CB->getArgOperand(it->second), "lets the C library modify");
    }
  }
  stats["stores"] = (int64_t)stores; stats["pointers into the input"] = (int64_t)T.size(); stats["configuration parameters"] = (int64_t)nsrc;
  stats["locations holding pointers into the trace buffer"] = (int64_t)C.size();
}

// ---- returns: the constants a function may return
struct VS { std::set<int64_t> c; bool other = false; bool operator!=(const VS &o) const { return c != o.c || other != o.other; } };
static std::map<const Function *, VS> rets;
static std::map<std::string, VS> fieldVals;
// what the branches that lead to the end of @P (and from there to @N) say about the constants @V may have
static bool holds(CmpInst::Predicate P, int64_t x, int64_t y) {
  switch (P) {
  case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
  case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y;
  default: return true;
  }
}
static std::map<const Function *, std::unique_ptr<DominatorTree>> doms;
static void guarded(VS &r, const Value *V, const BasicBlock *P, const BasicBlock *N) {
  auto apply = [&](const BasicBlock *D, const BasicBlock *S) {
    auto *Br = dyn_cast<BranchInst>(D->getTerminator()); if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return;
    auto *C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C) return;
    auto Pr = Br->getSuccessor(0) == S ? C->getPredicate() : C->getInversePredicate();
    const Value *a = C->getOperand(0), *b = C->getOperand(1);
    if (isa<ConstantInt>(a)) { std::swap(a, b); Pr = CmpInst::getSwappedPredicate(Pr); }
    if (a != V) return;
    if (auto *K = dyn_cast<ConstantInt>(b)) for (auto it = r.c.begin(); it != r.c.end();) if (!holds(Pr, *it, K->getSExtValue())) it = r.c.erase(it); else ++it;
    if (auto *K = dyn_cast<ConstantInt>(b)) if ((Pr == CmpInst::ICMP_SLT && !K->isNegative()) && K->isZero()) r.other = false; // negative, whatever it is
  };
  if (N) apply(P, N);
  auto &DT = doms[P->getParent()]; if (!DT) DT = std::make_unique<DominatorTree>(*const_cast<Function *>(P->getParent()));
  // every block that dominates @P and is entered through one edge only
  auto *Nd = DT->getNode(const_cast<BasicBlock *>(P));
  for (; Nd; Nd = Nd->getIDom()) if (auto *D = Nd->getBlock()->getSinglePredecessor()) apply(D, Nd->getBlock());
}
static size_t visits = 0;
static VS eval1(const Value *V, std::set<const Value *> &seen, int depth);
static VS eval(const Value *V, std::set<const Value *> &seen, int depth = 0) { // @seen: being evaluated
  VS r;
  if (depth == 0) visits = 0;
  if (visits++ > 50000) { r.other = true; return r; }
  if (!seen.insert(V).second) return r;
  r = eval1(V, seen, depth + 1);
  seen.erase(V);
  return r;
}
static VS eval1(const Value *V, std::set<const Value *> &seen, int depth) {
  VS r;
  auto join = [&](const VS &o) { r.c.insert(o.c.begin(), o.c.end()); r.other |= o.other; };
  if (auto *C = dyn_cast<ConstantInt>(V)) { r.c.insert(C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue()); return r; }
  if (isa<UndefValue>(V)) return r;
  if (auto *P = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { VS o = eval(P->getIncomingValue(i), seen, depth); guarded(o, P->getIncomingValue(i), P->getIncomingBlock(i), P->getParent()); join(o); } return r; }
  if (auto *S = dyn_cast<SelectInst>(V)) {
    for (bool t : {true, false}) {
      const Value *X = t ? S->getTrueValue() : S->getFalseValue(); VS o = eval(X, seen, depth);
      if (auto *C = dyn_cast<ICmpInst>(S->getCondition())) if (C->getOperand(0) == X) if (auto *K = dyn_cast<ConstantInt>(C->getOperand(1))) {
        auto Pr = t ? C->getPredicate() : C->getInversePredicate();
        for (auto it = o.c.begin(); it != o.c.end();) if (!holds(Pr, *it, K->getSExtValue())) it = o.c.erase(it); else ++it;
      }
      join(o);
    }
    return r;
  }
  if (auto *X = dyn_cast<SExtInst>(V)) return eval(X->getOperand(0), seen, depth);
  if (auto *X = dyn_cast<ZExtInst>(V)) { if (X->getSrcTy()->isIntegerTy(1)) { r.c = {0, 1}; return r; } r.other = true; return r; }
  if (auto *B = dyn_cast<BinaryOperator>(V)) {
    if (B->getOpcode() == Instruction::Sub) if (auto *Z = dyn_cast<ConstantInt>(B->getOperand(0))) if (Z->isZero()) { VS o = eval(B->getOperand(1), seen, depth); for (auto x : o.c) r.c.insert(-x); r.other = o.other; return r; }
    r.other = true; return r;
  }
  if (auto *C = dyn_cast<CallBase>(V)) {
    if (auto *D = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) { if (!D->isDeclaration()) return rets[D]; r.other = true; return r; }
    bool any = false;
    for (auto &F : *M) if (!F.isDeclaration() && F.hasAddressTaken() && F.getFunctionType() == C->getFunctionType()) { any = true; join(rets[&F]); }
    if (!any) r.other = true;
    return r;
  }
  if (auto *L = dyn_cast<LoadInst>(V)) {
    const Value *P = base(L->getPointerOperand());
    if (auto *G = dyn_cast<GEPOperator>(P)) { auto it = fieldVals.find(fieldKey(G)); if (it != fieldVals.end()) return it->second; }
    if (auto *A = dyn_cast<AllocaInst>(P)) { // a local whose address is taken: what is stored directly
      for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == A) join(eval(S->getValueOperand(), seen, depth)); }
      r.other = true; return r;
    }
  }
  r.other = true; return r;
}
static void computeReturns() {
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &F : *M) if (!F.isDeclaration()) {
      for (auto &I : instructions(F)) {
        if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isIntegerTy(32)) if (auto *G = dyn_cast<GEPOperator>(base(S->getPointerOperand()))) {
          std::string k = fieldKey(G); if (k.empty()) continue;
          std::set<const Value *> seen; VS n = eval(S->getValueOperand(), seen); VS &o = fieldVals[k];
          size_t b = o.c.size(); bool bo = o.other; o.c.insert(n.c.begin(), n.c.end()); o.other |= n.other; if (o.c.size() != b || o.other != bo) ch = true;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy()) {
          std::set<const Value *> seen; VS n = eval(R->getReturnValue(), seen); guarded(n, R->getReturnValue(), R->getParent(), nullptr); VS &o = rets[&F];
          size_t b = o.c.size(); bool bo = o.other; o.c.insert(n.c.begin(), n.c.end()); o.other |= n.other; if (o.c.size() != b || o.other != bo) ch = true;
          if (o.c.size() > 5000) { o.other = true; }
        }
      }
    }
  }
}
static std::map<int64_t, std::string> enumOf(const char *name) {
  std::map<int64_t, std::string> r; DebugInfoFinder D; D.processModule(*M);
  for (auto *T : D.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_enumeration_type && C->getName() == name)
    for (auto *E : C->getElements()) if (auto *X = dyn_cast<DIEnumerator>(E)) r[X->getValue().getSExtValue()] = X->getName().str();
  return r;
}
// where in F (or below) the constant comes from
static std::string origin(const Function *F, int64_t c, std::set<const Function *> &seen, std::string &fn) {
  if (!seen.insert(F).second) return "";
  for (auto &I : instructions(*F)) {
    for (auto &O : I.operands()) if (auto *C = dyn_cast<ConstantInt>(O)) if (C->getSExtValue() == c && (isa<ReturnInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<StoreInst>(I))) {
      fn = F->getName().str();
      if (auto *P = dyn_cast<PHINode>(&I)) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (P->getIncomingValue(i) == C) return where(P->getIncomingBlock(i)->getTerminator());
      return where(&I);
    }
  }
  for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *D = C->getCalledFunction()) if (!D->isDeclaration() && rets[D].c.count(c)) { auto s = origin(D, c, seen, fn); if (!s.empty()) return s; }
  return "";
}
static void returns(const std::set<std::string> &zero, const std::set<std::string> &pub, const std::set<std::string> &flags, int64_t maxStatus) {
  auto E = enumOf("pt_error_code");
  if (E.empty()) { report("unreachable", "there are error codes", "?", "", "enum pt_error_code is not there"); return; }
  computeReturns();
  size_t consts = 0;
  for (auto &F : *M) {
    if (F.isDeclaration() || !F.getReturnType()->isIntegerTy(32)) continue;
    std::string n = F.getName().str();
    if (!pub.count(n)) continue;
    functions.insert(n);
    for (auto c : rets[&F].c) {
      consts++; obligations++;
      if (c < 0 && !E.count(-c)) { std::set<const Function *> s; std::string fn = n; auto w = origin(&F, c, s, fn); report("error-code", "a negative result is the negation of a defined error code", w.empty() ? whereF(&F) : w, fn, n + "() may return " + std::to_string(c)); }
      if (c > 0 && zero.count(n)) { std::set<const Function *> s; std::string fn = n; auto w = origin(&F, c, s, fn); report("error-code", "an error is reported as a negative value", w.empty() ? whereF(&F) : w, fn, n + "(), which returns zero on success, may return " + std::to_string(c) + (E.count(c) ? " (" + E[c] + ")" : "")); }
    }
  }
  for (auto &n : flags) if (auto *F = M->getFunction(n)) for (auto c : rets[F].c) {
    obligations++;
    if (c > maxStatus) { std::set<const Function *> s; std::string fn = n; auto w = origin(F, c, s, fn); report("error-code", "a positive result is a combination of status flags", w.empty() ? whereF(F) : w, fn, n + "() may return " + std::to_string(c) + (E.count(c) ? " (" + E[c] + ")" : "")); }
  }
  for (auto &n : pub) if (!functions.count(n)) report("unreachable", "the public function exists", "?", n, "no definition of " + n);
  stats["constants returned"] = (int64_t)consts;
  std::string codes; for (auto &e : E) codes += (codes.empty() ? "" : ",") + std::to_string(e.first);
  stats["error codes"] = codes;
}

// Is @F, or everything that calls it, the function @X (a regular expression)?
static bool ownedBy(const Function *F, const std::regex &X, std::set<const Function *> &seen) {
  if (std::regex_search(F->getName().str(), X)) return true;
  if (!F->hasLocalLinkage() || F->hasAddressTaken() || F->use_empty()) return false;
  if (!seen.insert(F).second) return true;
  for (auto *U : F->users()) { auto *I = dyn_cast<Instruction>(U); if (!I || !ownedBy(I->getFunction(), X, seen)) return false; }
  return true;
}
// What the design absorbs, one rule per line: [owner=REGEX] [callee=REGEX] [codes=-1,-2] [void] [unused] [via=REGEX]
struct Rule { std::string owner, callee, via; std::set<int64_t> codes; bool isVoid = false, unused = false; std::string text; };
static std::vector<Rule> rules(const char *file) {
  std::vector<Rule> r; FILE *f = fopen(file, "r"); if (!f) return r; char b[4096];
  while (fgets(b, sizeof b, f)) {
    Rule x; x.text = b; std::string t; size_t i = 0; std::string l = b; bool any = false;
    while (i < l.size()) {
      while (i < l.size() && isspace(l[i])) i++;
      size_t j = i; while (j < l.size() && !isspace(l[j])) j++;
      t = l.substr(i, j - i); i = j; if (t.empty()) continue; any = true;
      if (t.rfind("owner=", 0) == 0) x.owner = t.substr(6);
      else if (t.rfind("callee=", 0) == 0) x.callee = t.substr(7);
      else if (t.rfind("via=", 0) == 0) x.via = t.substr(4);
      else if (t.rfind("codes=", 0) == 0) { const char *p = t.c_str() + 6; while (*p) { char *e; x.codes.insert(strtoll(p, &e, 10)); if (e == p) break; p = *e == ',' ? e + 1 : e; } }
      else if (t == "void") x.isVoid = true;
      else if (t == "unused") x.unused = true;
    }
    if (any) r.push_back(x);
  }
  fclose(f); return r;
}

// ---- drops: on every path on which a callee reported an error the caller reports one, too
static void drops(const std::vector<Rule> &rs) {
  auto E = enumOf("pt_error_code");
  computeReturns();
  size_t calls = 0, paths = 0; std::map<std::string, int64_t> used;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    bool voidFn = F.getReturnType()->isVoidTy();
    for (auto &I : instructions(F)) {
      const Instruction *C = &I; if (!C->getType()->isIntegerTy(32)) continue;
      VS v; std::string callee;
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *D = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (D) { if (D->isDeclaration()) continue; v = rets[D]; callee = D->getName().str() + "()"; }
        else { std::set<const Value *> s; v = eval(C, s); callee = "a callback"; if (v.other && v.c.empty()) continue; }
      } else continue;
      std::set<int64_t> neg; for (auto c : v.c) if (c < 0) neg.insert(c);
      if (neg.empty()) continue;
      std::set<int64_t> absorbable; bool skip = false, mayFail = false; std::vector<std::regex> via;
      for (auto &r : rs) {
        if (!r.callee.empty() && !std::regex_match(callee.substr(0, callee.find('(')), std::regex(r.callee))) continue;
        std::set<const Function *> os; if (!r.owner.empty() && !ownedBy(&F, std::regex(r.owner), os)) continue;
        if (r.isVoid && !voidFn) continue;
        if (r.unused && (!C->use_empty() || C->isUsedByMetadata())) continue; // not even assigned
        used[r.text]++;
        if (!r.via.empty()) via.push_back(std::regex(r.via));
        else if (r.codes.size()) absorbable.insert(r.codes.begin(), r.codes.end());
        else if (r.unused) mayFail = true;
        else skip = true;
      }
      if (skip) continue;
      functions.insert(F.getName().str()); calls++; obligations++;
      // walk the paths behind the call
      enum K { Err, Const, Other, May, Ali };
      struct A { K k; int64_t c; bool operator<(const A &o) const { return std::tie(k, c) < std::tie(o.k, o.c); } };
      typedef std::map<const Value *, A> Env;
      struct St { const BasicBlock *B; const BasicBlock *from; Env e; std::set<int64_t> codes; bool told; };
      std::deque<St> W; std::set<std::tuple<const BasicBlock *, Env, std::set<int64_t>, bool>> seen;
      bool gaveUp = false; std::set<int64_t> absorbed; const Instruction *at = nullptr; json::Array wit;
      // what is known about the status @V on the edge from @P to @N (or at the end of @P)
      auto status = [&](const Value *V, const BasicBlock *P, const BasicBlock *N) -> A {
        if (!V->getType()->isIntegerTy(32)) return {Other, 0};
        std::set<const Value *> es; VS rv = eval(V, es); guarded(rv, V, P, N);
        bool n = false, nn = rv.other; for (auto c : rv.c) (c < 0 ? n : nn) = true;
        return n ? (nn ? A{May, 0} : A{Const, -1}) : A{Other, 0};
      };
      auto step = [&](St s, BasicBlock::const_iterator it) {
        auto get = [&](const Value *V) -> A { if (auto *K_ = dyn_cast<ConstantInt>(V)) return {Const, K_->getSExtValue()}; if (isa<ConstantPointerNull>(V)) return {Const, -1}; auto f = s.e.find(V); return f == s.e.end() ? A{Other, 0} : f->second; };
        for (; it != s.B->end(); ++it) {
          const Instruction *J = &*it;
          if (isa<PHINode>(J)) continue;
          if (J == C) return; // around the loop: analysed afresh
          if (auto *S = dyn_cast<StoreInst>(J)) { if (get(S->getValueOperand()).k == Err) s.told = true; }
          if (auto *CC = dyn_cast<CallBase>(J)) {
            for (auto &a : CC->args()) if (get(a).k == Err) s.told = true; // handed on
            if (via.size()) if (auto *CD = CC->getCalledFunction()) for (auto &x : via) if (std::regex_match(CD->getName().str(), x)) s.told = true;
          }
          if (auto *X = dyn_cast<CastInst>(J)) { A a = get(X->getOperand(0)); if (a.k == Err) s.e[J] = a; }
          if (auto *Se = dyn_cast<SelectInst>(J)) { A a = get(Se->getTrueValue()), b = get(Se->getFalseValue()); if (a.k == Err && (b.k == Err || (b.k == Const && b.c < 0))) s.e[J] = a; else if (b.k == Err && a.k == Const && a.c < 0) s.e[J] = b; }
          if (auto *B_ = dyn_cast<BinaryOperator>(J)) { if (get(B_->getOperand(0)).k == Err || get(B_->getOperand(1)).k == Err) if (B_->getOpcode() == Instruction::Sub || B_->getOpcode() == Instruction::Add) s.told = true; }
          if (auto *R = dyn_cast<ReturnInst>(J)) {
            paths++;
            if (s.told) return;
            A a = R->getReturnValue() ? get(R->getReturnValue()) : A{Other, 0};
            if (a.k == Err) return;
            if (a.k == Const && a.c < 0) return;
            if (R->getReturnValue() && a.k == Other) a = status(R->getReturnValue(), R->getParent(), nullptr);
            if (C->use_empty() && a.k == Const && a.c < 0) return; // cleanup while another error is reported
            if (mayFail && a.k == May) return;
            for (auto c : s.codes) if (!absorbable.count(c)) { if (!at) at = R; absorbed.insert(c); }
            return;
          }
          if (auto *Br = dyn_cast<BranchInst>(J)) {
            auto go = [&](const BasicBlock *N, std::set<int64_t> codes, Env e) {
              if (codes.empty()) return;
              // phis
              Env ne = e;
              for (auto &P : N->phis()) { auto *V = P.getIncomingValueForBlock(s.B); A a = get(V); auto f = e.find(V); if (f != e.end()) a = f->second;
                auto bl = [&](const Value *V) { auto *Z = isa<ZExtInst>(V) ? cast<CastInst>(V)->getOperand(0) : V; return Z->getType()->isIntegerTy(1) && !isa<Constant>(Z); };
                if (a.k == Other && bl(V)) a = {Ali, (int64_t) V};
                if (a.k == Other && C->use_empty()) a = status(V, s.B, N);
                if (a.k == Other) ne.erase(&P); else ne[&P] = a; }
              if (seen.size() > 20000) { gaveUp = true; return; }
              if (!seen.insert({N, ne, codes, s.told}).second) return;
              W.push_back({N, s.B, ne, codes, s.told});
            };
            if (Br->isUnconditional()) { go(Br->getSuccessor(0), s.codes, s.e); return; }
            std::set<int64_t> t = s.codes, f = s.codes; Env te = s.e, fe = s.e;
            // a condition that was computed earlier: look through booleans
            const Value *cond = Br->getCondition(); bool pol = true;
            for (int n = 0; n < 16; n++) {
              A ca = get(cond);
              if (ca.k == Ali) { cond = (const Value *) ca.c; continue; }
              if (auto *X = dyn_cast<BinaryOperator>(cond)) if (X->getOpcode() == Instruction::Xor) if (auto *K_ = dyn_cast<ConstantInt>(X->getOperand(1))) if (K_->isOne() || K_->isAllOnesValue()) { cond = X->getOperand(0); pol = !pol; continue; }
              if (isa<ZExtInst>(cond) || isa<TruncInst>(cond)) { cond = cast<CastInst>(cond)->getOperand(0); continue; }
              if (auto *IC = dyn_cast<ICmpInst>(cond)) if (auto *Z = dyn_cast<ConstantInt>(IC->getOperand(1))) if (Z->isZero() && IC->isEquality()) {
                const Value *o = IC->getOperand(0); A oa = get(o);
                if (oa.k == Ali || isa<ZExtInst>(o) || (o->getType()->isIntegerTy(1))) { if (IC->getPredicate() == CmpInst::ICMP_EQ) pol = !pol; cond = oa.k == Ali ? (const Value *) oa.c : o; continue; }
              }
              break;
            }
            if (!pol) { std::swap(t, f); std::swap(te, fe); }
            if (cond->getType()->isIntegerTy(1) && get(cond).k == Const) { if (get(cond).c) f.clear(); else t.clear(); }
            else if (auto *IC = dyn_cast<ICmpInst>(cond)) {
              A a = get(IC->getOperand(0)), b = get(IC->getOperand(1)); auto P = IC->getPredicate();
              if (b.k == Err && a.k == Const) { std::swap(a, b); P = IC->getSwappedPredicate(); }
              auto cmp = [&](int64_t x, int64_t y) { switch (P) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y; case CmpInst::ICMP_ULT: return (uint32_t)x < (uint32_t)y; case CmpInst::ICMP_ULE: return (uint32_t)x <= (uint32_t)y; case CmpInst::ICMP_UGT: return (uint32_t)x > (uint32_t)y; case CmpInst::ICMP_UGE: return (uint32_t)x >= (uint32_t)y; default: return true; } };
              if (a.k == Err && b.k == Const) { t.clear(); f.clear(); for (auto x : s.codes) (cmp(x, b.c) ? t : f).insert(x); }
              else if (a.k == Const && b.k == Const) { if (cmp(a.c, b.c)) f.clear(); else t.clear(); }
              else if (b.k == Const && a.k == Other && (isa<CallBase>(IC->getOperand(0)) || isa<PHINode>(IC->getOperand(0)))) {
                // another status turns out to be negative: an error is on its way, too
                if (P == CmpInst::ICMP_SLT && b.c <= 0) te[IC->getOperand(0)] = {Const, -1};
                if (P == CmpInst::ICMP_SGE && b.c <= 0) fe[IC->getOperand(0)] = {Const, -1};
              }
            }
            if (!pol) { std::swap(t, f); std::swap(te, fe); }
            go(Br->getSuccessor(0), t, te); go(Br->getSuccessor(1), f, fe); return;
          }
          if (auto *Sw = dyn_cast<SwitchInst>(J)) {
            A a = get(Sw->getCondition());
            auto go = [&](const BasicBlock *N, std::set<int64_t> codes) {
              if (codes.empty()) return; Env ne = s.e;
              for (auto &P : N->phis()) { A x = get(P.getIncomingValueForBlock(s.B)); if (x.k == Other) ne.erase(&P); else ne[&P] = x; }
              if (seen.size() > 20000) { gaveUp = true; return; }
              if (!seen.insert({N, ne, codes, s.told}).second) return;
              W.push_back({N, s.B, ne, codes, s.told});
            };
            if (a.k == Err) { auto rest = s.codes; for (auto &cs : Sw->cases()) { int64_t c = cs.getCaseValue()->getSExtValue(); if (rest.count(c)) { go(cs.getCaseSuccessor(), {c}); rest.erase(c); } } go(Sw->getDefaultDest(), rest); }
            else { for (auto &cs : Sw->cases()) go(cs.getCaseSuccessor(), s.codes); go(Sw->getDefaultDest(), s.codes); }
            return;
          }
        }
      };
      St s0{C->getParent(), nullptr, {}, neg, false}; s0.e[C] = {Err, 0};
      step(s0, std::next(C->getIterator()));
      while (!W.empty()) { St s = std::move(W.front()); W.pop_front(); auto it = s.B->begin(); step(s, it); }
      if (gaveUp) errors.push_back("too many paths behind the call at " + where(C));
      if (!absorbed.empty()) {
        std::string cs; for (auto c : absorbed) cs += (cs.empty() ? "" : " ") + (E.count(-c) ? "-" + E[-c] : std::to_string(c));
        report("dropped", "no internal failure is dropped", where(C), F.getName().str(), "the errors of " + callee + " (" + cs + ") can be lost on the way to " + (at ? where(at) : "the end"));
      }
    }
  }
  stats["calls that can fail"] = (int64_t)calls; stats["paths"] = (int64_t)paths;
  json::Object us; for (auto &x : rs) us[StringRef(x.text).trim().str()] = used[x.text]; stats["rules applied"] = std::move(us);
}

static std::set<std::string> words(const char *f) {
  std::set<std::string> s; FILE *fp = fopen(f, "r"); if (!fp) return s; char b[512];
  while (fscanf(fp, "%511s", b) == 1) s.insert(b);
  fclose(fp); return s;
}
int main(int argc, char **argv) {
  LLVMContext &X = *new LLVMContext; SMDiagnostic Err;
  if (argc < 4) return 2;
  M = parseIRFile(argv[1], Err, X);
  if (!M) { Err.print("irq", errs()); return 2; }
  std::string mode = argv[2];
  if (mode == "globals") globals();
  else if (mode == "input") input();
  else if (mode == "returns" && argc >= 7) {
    int64_t all = 0; for (auto &e : enumOf("pt_status_flag")) all |= e.first;
    returns(words(argv[5]), words(argv[4]), words(argv[6]), all);
  }
  else if (mode == "enum" && argc >= 5) { for (auto &n : words(argv[4])) { json::Object o; for (auto &e : enumOf(n.c_str())) o[e.second] = e.first; stats[n] = std::move(o); } }
  else if (mode == "drops" && argc >= 5) drops(rules(argv[4]));
  else return 2;
  json::Array fn; for (auto &f : functions) fn.push_back(f);
  json::Object o{{"findings", std::move(findings)}, {"functions", std::move(fn)}, {"obligations", (int64_t)obligations}, {"stats", std::move(stats)}, {"errors", std::move(errors)}};
  std::error_code ec; raw_fd_ostream os(argv[3], ec); if (ec) return 2;
  os << json::Value(std::move(o)) << "\n";
  os.close();
  (void) M.release();
  return 0;
}
