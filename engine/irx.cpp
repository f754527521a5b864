// irx: normalise LLVM IR of the driver instantiations and export it, together
// with scalar-evolution closed forms, as JSON.  No program is executed.
//
// usage: irx in.bc out.json [--opaque=REGEX] [--prefix=drv_]
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
#include <string>

using namespace llvm;

static cl::opt<std::string> GlobalsRe("globals", cl::desc("export initialisers of globals matching"), cl::init(""));
static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out(cl::Positional, cl::Required);
static cl::opt<std::string> Opaque("opaque", cl::init(""));
static cl::opt<std::string> Prefix("prefix", cl::init("drv_"));
static cl::opt<bool> DumpIR("dump-ir", cl::init(false));
static cl::opt<bool> NoOpt("no-opt", cl::init(false));
static cl::opt<bool> KeepTrees("keep-trees", cl::init(false));
static cl::opt<bool> KeepCtors("keep-ctors", cl::init(false));
static cl::opt<unsigned> Words("words", cl::init(96));
static cl::opt<bool> CutThrows("cut-throws", cl::init(false));
static cl::opt<bool> KeepNew("keep-new", cl::desc("never remove or pair up new and delete"), cl::init(false));
static cl::opt<bool> Devirt("devirt", cl::init(false));
static cl::opt<std::string> NoUnwindRe("nounwind", cl::init(""));

static bool prefixed(StringRef n) {
  SmallVector<StringRef, 4> v;
  StringRef(Prefix).split(v, ',', -1, false);
  for (auto p : v) if (n.starts_with(p)) return true;
  return false;
}

// ---------------------------------------------------------------- alias rule
// Matrix *objects* (arguments, locals) never overlap element *buffers*
// (pointers loaded from an object, or results of an allocation).
namespace {
enum class Kind { Obj, Elem, Unknown };

static Kind kindOf(const Value *V) {
  SmallVector<const Value *, 8> Objs;
  getUnderlyingObjects(V, Objs, nullptr, 0);
  Kind K = Kind::Unknown;
  bool First = true;
  for (const Value *O : Objs) {
    Kind k = Kind::Unknown;
    if (auto *A = dyn_cast<Argument>(O)) {
      k = A->getName().starts_with("e_") ? Kind::Elem : Kind::Obj;
    } else if (isa<AllocaInst>(O))
      k = Kind::Obj;
    else if (isa<LoadInst>(O))
      k = Kind::Elem;
    else if (auto *C = dyn_cast<CallBase>(O)) {
      const Function *F = C->getCalledFunction();
      if (F && F->hasFnAttribute("vp-elem-alloc"))
        k = Kind::Elem;
    } else if (isa<ConstantPointerNull>(O) || isa<UndefValue>(O))
      continue;
    if (First) { K = k; First = false; }
    else if (K != k) K = Kind::Unknown;
  }
  return K;
}

struct RegionAAResult : AAResultBase {
  bool invalidate(Function &, const PreservedAnalyses &,
                  FunctionAnalysisManager::Invalidator &) { return false; }
  AliasResult alias(const MemoryLocation &L1, const MemoryLocation &L2,
                    AAQueryInfo &, const Instruction *) {
    Kind a = kindOf(L1.Ptr), b = kindOf(L2.Ptr);
    if ((a == Kind::Obj && b == Kind::Elem) || (a == Kind::Elem && b == Kind::Obj))
      return AliasResult::NoAlias;
    // different allocations, however deep the pointers' phis are nested
    SmallVector<const Value *, 8> x, y;
    getUnderlyingObjects(L1.Ptr, x, nullptr, 0);
    getUnderlyingObjects(L2.Ptr, y, nullptr, 0);
    auto known = [](const Value *O) { return isa<AllocaInst>(O) || isNoAliasCall(O) || (isa<Argument>(O) && cast<Argument>(O)->hasNoAliasAttr()); };
    for (auto *O : x) if (!known(O) || is_contained(y, O)) return AliasResult::MayAlias;
    for (auto *O : y) if (!known(O)) return AliasResult::MayAlias;
    return x.empty() || y.empty() ? AliasResult::MayAlias : AliasResult::NoAlias;
  }
};

struct RegionAA : AnalysisInfoMixin<RegionAA> {
  static AnalysisKey Key;
  using Result = RegionAAResult;
  Result run(Function &, FunctionAnalysisManager &) { return RegionAAResult(); }
};
AnalysisKey RegionAA::Key;
} // namespace

// ---------------------------------------------------------------- numbering
struct Numbering {
  std::map<const Value *, int> id;
  std::map<const BasicBlock *, int> bb;
  std::map<const Loop *, int> loop;
};

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}

static json::Value opnd(const Value *V, Numbering &N) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64)
      return json::Object{{"c", CI->getSExtValue()}, {"w", (int)CI->getBitWidth()}};
    { SmallString<40> bs; CI->getValue().toStringSigned(bs); return json::Object{{"bigc", std::string(bs)}}; }
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    SmallString<32> s; CF->getValueAPF().toString(s, 20);
    return json::Object{{"f", std::string(s)}};
  }
  if (isa<ConstantPointerNull>(V)) return json::Object{{"null", true}};
  if (isa<UndefValue>(V)) return json::Object{{"undef", true}};
  if (isa<ConstantAggregateZero>(V)) return json::Object{{"zeroinit", tyStr(V->getType())}};
  if (auto *F = dyn_cast<Function>(V)) return json::Object{{"fn", F->getName().str()}};
  if (auto *G = dyn_cast<GlobalVariable>(V)) {
    json::Object o{{"g", G->getName().str()}};
    if (G->hasInitializer())
      if (auto *CDA = dyn_cast<ConstantDataArray>(G->getInitializer()))
        if (CDA->isCString()) o["str"] = CDA->getAsCString().str();
    return o;
  }
  if (auto *A = dyn_cast<Argument>(V)) return json::Object{{"a", (int)A->getArgNo()}};
  if (auto *BB = dyn_cast<BasicBlock>(V)) return json::Object{{"bb", N.bb[BB]}};
  if (auto *I = dyn_cast<Instruction>(V)) return json::Object{{"v", N.id[I]}};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      static const DataLayout *DL = nullptr;
      (void)DL;
      json::Object o{{"gepc", opnd(GO->getPointerOperand(), N)}};
      return o;
    }
    std::string s; raw_string_ostream os(s); CE->print(os);
    return json::Object{{"ce", os.str()}};
  }
  std::string s; raw_string_ostream os(s); V->printAsOperand(os, false);
  return json::Object{{"other", os.str()}};
}

static json::Value scevJ(const SCEV *S, Numbering &N, int depth = 0) {
  if (depth > 60) return json::Object{{"k", "deep"}};
  auto nary = [&](const char *k, const SCEVNAryExpr *E) {
    json::Array a;
    for (auto *o : E->operands()) a.push_back(scevJ(o, N, depth + 1));
    return json::Object{{"k", k}, {"ops", std::move(a)}};
  };
  switch (S->getSCEVType()) {
  case scConstant: {
    auto &v = cast<SCEVConstant>(S)->getAPInt();
    if (v.getBitWidth() <= 64) return json::Object{{"k", "const"}, {"v", v.getSExtValue()}};
    return json::Object{{"k", "const"}, {"v", 0}, {"big", true}};
  }
  case scVScale: return json::Object{{"k", "vscale"}};
  case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
    auto *c = cast<SCEVCastExpr>(S);
    const char *nm = S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext"
                   : S->getSCEVType() == scSignExtend ? "sext" : "p2i";
    return json::Object{{"k", "cast"}, {"op", nm}, {"ty", tyStr(S->getType())},
                        {"ops", json::Array{scevJ(c->getOperand(), N, depth + 1)}}};
  }
  case scAddExpr: return nary("add", cast<SCEVNAryExpr>(S));
  case scMulExpr: return nary("mul", cast<SCEVNAryExpr>(S));
  case scUMaxExpr: return nary("umax", cast<SCEVNAryExpr>(S));
  case scSMaxExpr: return nary("smax", cast<SCEVNAryExpr>(S));
  case scUMinExpr: return nary("umin", cast<SCEVNAryExpr>(S));
  case scSMinExpr: return nary("smin", cast<SCEVNAryExpr>(S));
  case scSequentialUMinExpr: return nary("umin", cast<SCEVNAryExpr>(S));
  case scUDivExpr: {
    auto *d = cast<SCEVUDivExpr>(S);
    return json::Object{{"k", "udiv"}, {"ops", json::Array{scevJ(d->getLHS(), N, depth + 1), scevJ(d->getRHS(), N, depth + 1)}}};
  }
  case scAddRecExpr: {
    auto *a = cast<SCEVAddRecExpr>(S);
    auto o = nary("addrec", a);
    o["loop"] = N.loop.count(a->getLoop()) ? N.loop[a->getLoop()] : -1;
    return std::move(o);
  }
  case scUnknown: return json::Object{{"k", "unk"}, {"val", opnd(cast<SCEVUnknown>(S)->getValue(), N)}};
  case scCouldNotCompute: return json::Object{{"k", "cnc"}};
  }
  return json::Object{{"k", "cnc"}};
}

static json::Value locJ(const Instruction &I) {
  json::Array a;
  const DILocation *L = I.getDebugLoc();
  while (L) {
    a.push_back(json::Object{{"file", L->getFilename().str()}, {"line", (int)L->getLine()},
                             {"fn", L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : ""}});
    L = L->getInlinedAt();
  }
  return a;
}

static json::Value dumpFunction(Function &F, FunctionAnalysisManager &FAM) {
  Numbering N;
  int n = 0, b = 0;
  for (auto &BB : F) {
    N.bb[&BB] = b++;
    for (auto &I : BB) N.id[&I] = n++;
  }
  auto &LI = FAM.getResult<LoopAnalysis>(F);
  auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
  const DataLayout &DL = F.getParent()->getDataLayout();
  int l = 0;
  auto Loops = LI.getLoopsInPreorder();
  for (auto *L : Loops) N.loop[L] = l++;

  json::Object jf;
  jf["name"] = F.getName().str();
  json::Array args;
  for (auto &A : F.args())
    args.push_back(json::Object{{"name", A.getName().str()}, {"ty", tyStr(A.getType())},
                                {"sret", A.hasStructRetAttr()}});
  jf["args"] = std::move(args);
  jf["ret"] = tyStr(F.getReturnType());

  json::Array loops;
  for (auto *L : Loops) {
    json::Object o;
    o["id"] = N.loop[L];
    o["header"] = N.bb[L->getHeader()];
    o["parent"] = L->getParentLoop() ? N.loop[L->getParentLoop()] : -1;
    o["btc"] = scevJ(SE.getBackedgeTakenCount(L), N);
    SmallVector<BasicBlock *, 4> ex;
    L->getExitingBlocks(ex);
    json::Array je, jc;
    for (auto *e : ex) {
      je.push_back(N.bb[e]);
      jc.push_back(scevJ(SE.getExitCount(L, e), N));
    }
    o["exiting"] = std::move(je);
    o["exitcounts"] = std::move(jc);
    SmallVector<BasicBlock *, 4> la;
    L->getLoopLatches(la);
    json::Array jl;
    for (auto *e : la) jl.push_back(N.bb[e]);
    o["latches"] = std::move(jl);
    json::Array blocks;
    for (auto *bb : L->blocks()) blocks.push_back(N.bb[bb]);
    o["blocks"] = std::move(blocks);
    loops.push_back(std::move(o));
  }
  jf["loops"] = std::move(loops);

  json::Array blocks;
  for (auto &BB : F) {
    json::Object o;
    o["id"] = N.bb[&BB];
    auto *L = LI.getLoopFor(&BB);
    o["loop"] = L ? N.loop[L] : -1;
    json::Array preds, succs, insts;
    for (auto *P : predecessors(&BB)) preds.push_back(N.bb[P]);
    for (auto *S : successors(&BB)) succs.push_back(N.bb[S]);
    o["preds"] = std::move(preds);
    o["succs"] = std::move(succs);
    for (auto &I : BB) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I))
        if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume ||
            II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)
          continue;
      json::Object j;
      j["id"] = N.id[&I];
      j["op"] = I.getOpcodeName();
      j["ty"] = tyStr(I.getType());
      json::Array ops;
      if (auto *P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
          ops.push_back(json::Array{N.bb[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i), N)});
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        for (auto &A : C->args()) ops.push_back(opnd(A.get(), N));
        const Value *cv = C->getCalledOperand()->stripPointerCasts();
        if (auto *CF = dyn_cast<Function>(cv)) {
          j["callee"] = CF->getName().str();
          j["intrinsic"] = CF->isIntrinsic();
          if (auto *SP = CF->getSubprogram()) j["calleefile"] = SP->getFilename().str();
        } else
          j["calleeval"] = opnd(cv, N);
        if (!C->doesNotThrow()) j["mayunwind"] = true;
        // SCEVs of integer/pointer arguments
        json::Array as;
        for (auto &A : C->args()) {
          if (SE.isSCEVable(A->getType())) as.push_back(scevJ(SE.getSCEVAtScope(A.get(), L), N));
          else as.push_back(nullptr);
        }
        j["argscev"] = std::move(as);
        if (auto *II = dyn_cast<InvokeInst>(&I)) {
          j["normal"] = N.bb[II->getNormalDest()];
          j["unwind"] = N.bb[II->getUnwindDest()];
        }
      } else {
        for (auto &O : I.operands()) ops.push_back(opnd(O.get(), N));
      }
      j["ops"] = std::move(ops);
      if (auto *C = dyn_cast<CmpInst>(&I)) {
        j["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
        json::Array as;
        for (auto &O : I.operands()) {
          if (SE.isSCEVable(O->getType())) as.push_back(scevJ(SE.getSCEVAtScope(O.get(), L), N));
          else as.push_back(nullptr);
        }
        j["opscev"] = std::move(as);
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        j["srcty"] = tyStr(G->getSourceElementType());
        APInt off(64, 0);
        if (G->accumulateConstantOffset(DL, off)) j["off"] = off.getSExtValue();
      }
      if (auto *Ld = dyn_cast<LoadInst>(&I)) {
        j["ptrscev"] = scevJ(SE.getSCEVAtScope(Ld->getPointerOperand(), L), N);
        j["size"] = (int)DL.getTypeStoreSize(Ld->getType());
      }
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        j["ptrscev"] = scevJ(SE.getSCEVAtScope(St->getPointerOperand(), L), N);
        if (SE.isSCEVable(St->getValueOperand()->getType()))
          j["valscev"] = scevJ(SE.getSCEVAtScope(St->getValueOperand(), L), N);
        j["size"] = (int)DL.getTypeStoreSize(St->getValueOperand()->getType());
        j["vty"] = tyStr(St->getValueOperand()->getType());
      }
      if (auto *R = dyn_cast<ReturnInst>(&I))
        if (R->getReturnValue() && SE.isSCEVable(R->getReturnValue()->getType()))
          j["retscev"] = scevJ(SE.getSCEVAtScope(R->getReturnValue(), nullptr), N);
      if (SE.isSCEVable(I.getType())) j["scev"] = scevJ(SE.getSCEVAtScope(&I, L), N);
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        json::Array cs;
        for (auto &c : S->cases())
          cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), N.bb[c.getCaseSuccessor()]});
        j["cases"] = std::move(cs);
        j["default"] = N.bb[S->getDefaultDest()];
      }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
        json::Array a; for (auto i : E->indices()) a.push_back((int)i); j["idx"] = std::move(a);
      }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) {
        json::Array a; for (auto i : E->indices()) a.push_back((int)i); j["idx"] = std::move(a);
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) j["aty"] = tyStr(A->getAllocatedType());
      if (I.getDebugLoc()) j["loc"] = locJ(I);
      insts.push_back(std::move(j));
    }
    o["insts"] = std::move(insts);
    blocks.push_back(std::move(o));
  }
  jf["blocks"] = std::move(blocks);
  return jf;
}

int main(int argc, char **argv) {
  {
    // exit values of inner loops are always rewritten in closed form, so that
    // an iterator continued across loop nests becomes an outer recurrence;
    // linear-function-test replacement is off (it only rewrites exit tests).
    SmallVector<const char *, 16> av(argv, argv + argc);
    av.push_back("--replexitval=always");
    av.push_back("--disable-lftr");
    cl::ParseCommandLineOptions(av.size(), av.data());
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 3; }

  if (!KeepCtors) {
    for (const char *g : {"llvm.global_ctors", "llvm.global_dtors"})
      if (auto *GV = M->getNamedGlobal(g)) GV->eraseFromParent();
    for (auto &F : *M)
      if (!F.isDeclaration() && (F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("_GLOBAL__"))) {
        F.deleteBody(); F.setComdat(nullptr);
      }
  }
  Regex nuw(NoUnwindRe.empty() ? std::string("^$") : std::string(NoUnwindRe));
  for (auto &F : *M)
    if (F.isDeclaration() && nuw.match(F.getName())) F.addFnAttr(Attribute::NoUnwind);
  Regex opaque(Opaque.empty() ? std::string("^$") : std::string(Opaque));
  for (auto &F : *M) {
    StringRef nm = F.getName();
    if (nm == "vp_allocate") { F.addFnAttr("vp-elem-alloc"); F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn); }
    if (nm.starts_with("_Zna") || nm.starts_with("_Znw")) F.addFnAttr("vp-elem-alloc");
    if (nm.starts_with("vp_probe") || nm.starts_with("vp_put") || nm.starts_with("vp_get")) { F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn);}
    // library internals of the norm/occupation caches: they only touch tree nodes
    if (nm.starts_with("_ZNSt8_Rb_tree") && (nm.contains("8_M_eraseEP") || nm.contains("7_M_copyI"))) {
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn);
      F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::OptimizeNone);
      if (!F.isDeclaration()) { F.deleteBody(); }
      // the tree header and the node generator only hand back tree nodes
      if (!KeepTrees)
        for (auto *U : F.users())
          if (auto *CB = dyn_cast<CallBase>(U))
            for (unsigned k = 0; k < CB->arg_size(); ++k)
              if ((k == 0 || nm.contains("7_M_copyI")) && CB->getArgOperand(k)->getType()->isPointerTy()) {
                for (auto At : {Attribute::NonNull, Attribute::NoUndef, Attribute::Dereferenceable}) CB->removeParamAttr(k, At);
                CB->setArgOperand(k, ConstantPointerNull::get(cast<PointerType>(CB->getArgOperand(k)->getType())));
              }
      continue;
    }
    if (nm == "vp_deallocate") { F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn); }
    if (nm.starts_with("_ZdlPv") || nm.starts_with("_ZdaPv")) { F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::WillReturn); }
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (prefixed(nm)) {
      F.removeFnAttr(Attribute::NoInline);
      // distinct arguments are distinct objects
      for (auto &A : F.args()) if (A.getType()->isPointerTy()) A.addAttr(Attribute::NoAlias);
      continue;
    }
    if (!Opaque.empty() && opaque.match(nm)) { F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); continue; }
    bool keep = F.hasFnAttribute("vp-keep");
    if (F.hasFnAttribute(Attribute::NoInline) && keep) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.addFnAttr(Attribute::AlwaysInline);
    if (!F.hasLocalLinkage() && !F.hasAppendingLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
  }

  // where an exception object is created the path leaves by that exception
  if (CutThrows) {
    FunctionCallee Raise = M->getOrInsertFunction("vp_raise", Type::getVoidTy(Ctx));
    cast<Function>(Raise.getCallee())->setDoesNotReturn();
    cast<Function>(Raise.getCallee())->setDoesNotThrow();
    for (auto &F : *M) {
      SmallVector<Instruction *, 8> at;
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (C->getCalledFunction() && (C->getCalledFunction()->getName() == "__cxa_allocate_exception" || C->getCalledFunction()->getName().starts_with("_ZSt20__throw_"))) at.push_back(C);
      for (auto *I : at) {
        IRBuilder<> B(I);
        B.CreateCall(Raise);
        changeToUnreachable(I);
      }
      if (!at.empty()) removeUnreachableBlocks(F);
    }
  }

  if (KeepNew)
    for (auto &F : *M)
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (C->hasFnAttr(Attribute::Builtin)) {
            C->removeFnAttr(Attribute::Builtin); C->addFnAttr(Attribute::NoBuiltin);
            if (auto *G = C->getCalledFunction()) { G->removeFnAttr(Attribute::AllocKind); G->removeFnAttr(Attribute::Builtin); G->addFnAttr(Attribute::NoBuiltin); }
          }

  // small copies between objects become word copies, so that they are seen field by field
  for (auto &F : *M) {
    SmallVector<MemCpyInst *, 8> cpys;
    for (auto &I : instructions(F))
      if (auto *MC = dyn_cast<MemCpyInst>(&I))
        if (auto *L = dyn_cast<ConstantInt>(MC->getLength()))
          if (!MC->isVolatile() && L->getZExtValue() > 8 && L->getZExtValue() <= Words) cpys.push_back(MC);
    for (auto *MC : cpys) {
      IRBuilder<> B(MC);
      uint64_t len = cast<ConstantInt>(MC->getLength())->getZExtValue();
      SmallVector<std::pair<uint64_t, Value *>, 12> vs;
      for (uint64_t k = 0; k < len;) {
        unsigned w = len - k >= 8 ? 8 : len - k >= 4 ? 4 : len - k >= 2 ? 2 : 1;
        vs.push_back({k, B.CreateAlignedLoad(B.getIntNTy(8 * w), B.CreateConstGEP1_64(B.getInt8Ty(), MC->getSource(), k), Align(1))});
        k += w;
      }
      for (auto &v : vs) B.CreateAlignedStore(v.second, B.CreateConstGEP1_64(B.getInt8Ty(), MC->getDest(), v.first), Align(1));
      MC->eraseFromParent();
    }
  }

  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO;
  PassBuilder PB(nullptr, PTO);
  FAM.registerPass([&] { return RegionAA(); });
  FAM.registerPass([&] {
    AAManager AA = PB.buildDefaultAAPipeline();
    AA.registerFunctionAnalysis<RegionAA>();
    return AA;
  });
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  ModulePassManager MPM;
  {
    ModulePassManager Pre;
    cantFail(PB.parsePassPipeline(Pre, "globaldce"));
    Pre.run(*M, MAM);
  }
  const char *pipe = NoOpt ?
    "function(lower-expect,sroa<modify-cfg>,early-cse<memssa>,simplifycfg)" :
    "function(lower-expect,sroa<modify-cfg>,early-cse<memssa>,simplifycfg),"
    "always-inline,globaldce,"
    "function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,"
    "sroa<modify-cfg>,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg,"
    "loop-simplify,lcssa,loop-mssa(licm),"
    "loop(loop-idiom,indvars),"
    "gvn,instcombine<no-verify-fixpoint>,simplifycfg,sroa<modify-cfg>,early-cse<memssa>,dse,"
    "loop-simplify,lcssa,loop-mssa(licm),loop(indvars),gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify)";
  std::string dv = std::string(pipe) + "," + pipe + "," + pipe;
  if (Devirt) pipe = dv.c_str();
  if (auto E = PB.parsePassPipeline(MPM, pipe)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 3; }
  MPM.run(*M, MAM);
  if (DumpIR) M->print(errs(), nullptr);

  json::Array fs;
  for (auto &F : *M) {
    if (F.isDeclaration() || !prefixed(F.getName())) continue;
    fs.push_back(dumpFunction(F, FAM));
  }
  json::Object root;
  root["functions"] = std::move(fs);
  if (!GlobalsRe.empty()) {
    Regex gr{std::string(GlobalsRe)};
    json::Array gs;
    std::function<void(Constant *, uint64_t, json::Array &)> flat = [&](Constant *C, uint64_t off, json::Array &o) {
      const DataLayout &DL = M->getDataLayout();
      Type *T = C->getType();
      if (auto *CI = dyn_cast<ConstantInt>(C)) { o.push_back(json::Array{(int64_t)off, (int64_t)CI->getSExtValue()}); return; }
      if (isa<ConstantPointerNull>(C)) { o.push_back(json::Array{(int64_t)off, 0}); return; }
      if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ST->getNumElements(); ++k) flat(C->getAggregateElement(k), off + DL.getStructLayout(ST)->getElementOffset(k), o); return; }
      if (auto *AT = dyn_cast<ArrayType>(T)) { for (uint64_t k = 0; k < AT->getNumElements() && k < 4096; ++k) flat(C->getAggregateElement(k), off + k * DL.getTypeAllocSize(AT->getElementType()), o); return; }
      if (auto *F = dyn_cast<Function>(C)) { o.push_back(json::Array{(int64_t)off, F->getName().str()}); return; }
      o.push_back(json::Array{(int64_t)off, nullptr});
    };
    for (auto &G : M->globals())
      if (G.hasInitializer() && gr.match(G.getName())) {
        json::Array o; flat(G.getInitializer(), 0, o);
        gs.push_back(json::Object{{"name", G.getName().str()}, {"init", std::move(o)}});
      }
    root["globals"] = std::move(gs);
  }
  json::Array others;
  for (auto &F : *M) if (!F.isDeclaration() && !prefixed(F.getName())) others.push_back(F.getName().str());
  root["others"] = std::move(others);
  std::error_code EC;
  raw_fd_ostream os(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 3; }
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
