// irx: export LLVM bitcode as JSON for the Python analyses in /verif/lib.
// It resolves everything that is tedious to do outside LLVM: constant expressions to (global, byte offset),
// GEPs to (base, constant byte offset, scaled variable offsets, source element type), debug locations
// (innermost scope file:line), struct layouts, global initialisers.
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <string>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;

static std::string esc(StringRef s) {
  std::string r;
  static const char *hex = "0123456789abcdef";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { r += "\\u00"; r += hex[c >> 4]; r += hex[c & 15]; }
    else r += c;
  }
  return r;
}
static std::string q(StringRef s) { return "\"" + esc(s) + "\""; }
static std::string tyname(Type *T) {
  if (T->isPointerTy()) return "ptr";
  if (auto *ST = dyn_cast<StructType>(T)) return ST->hasName() ? ST->getName().str() : "anon";
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}
static std::map<const Value *, int> ids;

static void constant(const Constant *C);
static void operand(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) { O << "[\"a\"," << A->getArgNo() << "]"; return; }
  if (auto *I = dyn_cast<Instruction>(V)) { O << "[\"i\"," << ids[I] << "]"; return; }
  if (auto *B = dyn_cast<BasicBlock>(V)) { O << "[\"b\"," << ids[B] << "]"; return; }
  if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
  O << "[\"?\"]";
}
static void constant(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64) O << "[\"c\"," << CI->getSExtValue() << "," << CI->getBitWidth() << "]";
    else O << "[\"?\"]";
    return;
  }
  if (isa<ConstantPointerNull>(C)) { O << "[\"n\"]"; return; }
  if (isa<UndefValue>(C)) { O << "[\"u\"]"; return; }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    SmallString<32> s; CF->getValueAPF().toString(s); O << "[\"f\"," << q(s) << "]"; return;
  }
  if (C->getType()->isPointerTy()) {
    APInt off(64, 0);
    const Value *B = C->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *GV = dyn_cast<GlobalValue>(B)) {
      O << "[\"g\"," << q(GV->getName()) << "," << off.getSExtValue() << "]"; return;
    }
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    O << "[\"ce\"," << q(CE->getOpcodeName());
    for (auto &U : CE->operands()) { O << ","; operand(U.get()); }
    O << "]"; return;
  }
  O << "[\"?\"]";
}
static void init(const Constant *C) {
  if (C->isNullValue() && !C->getType()->isPointerTy() && !C->getType()->isIntegerTy()) {
    O << "[\"z\"," << DL->getTypeAllocSize(C->getType()) << "]"; return;
  }
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) { O << "[\"s\"," << q(CDS->getAsString()) << "]"; return; }
    O << "[\"l\"";
    for (unsigned i = 0; i < CDS->getNumElements(); i++) { O << ","; init(CDS->getElementAsConstant(i)); }
    O << "]"; return;
  }
  if (isa<ConstantAggregate>(C)) {
    O << (isa<ConstantStruct>(C) ? "[\"t\"" : "[\"l\"");
    for (auto &U : C->operands()) { O << ","; init(cast<Constant>(U.get())); }
    O << "]"; return;
  }
  constant(C);
}
static std::string ditype(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return ditype(D->getBaseType(), depth + 1) + "*";
    if (D->getTag() == dwarf::DW_TAG_const_type) return ditype(D->getBaseType(), depth + 1);
    if (D->getTag() == dwarf::DW_TAG_typedef) {
      if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
        if (B->getName().empty()) return D->getName().str();
      return ditype(D->getBaseType(), depth + 1);
    }
    return depth < 8 ? ditype(D->getBaseType(), depth + 1) : "?";
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static void loc(const Instruction &I) {
  if (auto *L = I.getDebugLoc().get()) {
    O << ",\"l\":[" << q(L->getFilename()) << "," << L->getLine() << "," << q(L->getScope()->getSubprogram()->getName()) << "]";
  }
}
static bool skipBody(const Function &F, const std::vector<std::string> &suf) {
  auto *SP = F.getSubprogram();
  if (!SP) return false;
  for (auto &s : suf) if (SP->getFilename().ends_with(s)) return true;
  return false;
}
// A struct assignment is a block copy whose members clang names in !tbaa.struct: spell it out as member reads and writes.
static void expandCopies(Module &M) {
  for (auto &Fn : M)
    for (auto &B : Fn)
      for (auto &I : make_early_inc_range(B)) {
        auto *C = dyn_cast<MemCpyInst>(&I);
        if (!C || C->isVolatile() || !isa<ConstantInt>(C->getLength())) continue;
        auto *N = C->getMetadata(LLVMContext::MD_tbaa_struct);
        if (!N || N->getNumOperands() % 3 || N->getNumOperands() > 96) continue;
        struct Part { uint64_t off; Type *ty; };
        std::vector<Part> parts; bool ok = N->getNumOperands() > 0;
        for (unsigned k = 0; ok && k < N->getNumOperands(); k += 3) {
          uint64_t off = mdconst::extract<ConstantInt>(N->getOperand(k))->getZExtValue();
          uint64_t sz = mdconst::extract<ConstantInt>(N->getOperand(k + 1))->getZExtValue();
          bool ptr = false;
          if (auto *T = dyn_cast_or_null<MDNode>(N->getOperand(k + 2)))
            if (T->getNumOperands())
              if (auto *A = dyn_cast_or_null<MDNode>(T->getOperand(T->getNumOperands() > 1 && isa<MDNode>(T->getOperand(0)) ? 1 : 0)))
                if (auto *S = dyn_cast_or_null<MDString>(A->getOperand(0))) ptr = S->getString() == "any pointer";
          if (sz == 1 || sz == 2 || sz == 4 || sz == 8)
            parts.push_back({off, ptr && sz == 8 ? (Type *)PointerType::get(M.getContext(), 0) : Type::getIntNTy(M.getContext(), sz * 8)});
          else ok = false;
        }
        if (!ok) continue;
        IRBuilder<> Bd(C);
        std::vector<Value *> vs;
        for (auto &p : parts) vs.push_back(Bd.CreateLoad(p.ty, Bd.CreateConstGEP1_64(Bd.getInt8Ty(), C->getSource(), p.off)));
        for (size_t k = 0; k < parts.size(); k++)
          Bd.CreateStore(vs[k], Bd.CreateConstGEP1_64(Bd.getInt8Ty(), C->getDest(), parts[k].off));
        C->eraseFromParent();
      }
}

// Loops with a small constant number of rounds (tables of cases) are written out, and private tables nobody writes are constants.
struct UnrollTables : PassInfoMixin<UnrollTables> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM) {
    bool any = false;
    for (int n = 0; n < 16; n++) {
      auto &LI = AM.getResult<LoopAnalysis>(F);
      auto &SE = AM.getResult<ScalarEvolutionAnalysis>(F);
      auto &DT = AM.getResult<DominatorTreeAnalysis>(F);
      auto &AC = AM.getResult<AssumptionAnalysis>(F);
      auto &TTI = AM.getResult<TargetIRAnalysis>(F);
      OptimizationRemarkEmitter ORE(&F);
      Loop *todo = nullptr; unsigned trips = 0;
      for (auto *L : LI.getLoopsInPreorder()) {
        unsigned t = 0;
        SmallVector<BasicBlock *> ex; L->getExitingBlocks(ex);
        for (auto *B : ex) if (unsigned k = SE.getSmallConstantTripCount(L, B)) t = t ? std::min(t, k) : k;
        if (t > 1 && t <= 9 && readsTable(L)) { todo = L; trips = t; break; }
      }
      if (!todo) break;
      simplifyLoop(todo, &DT, &LI, &SE, &AC, nullptr, false);
      formLCSSARecursively(*todo, DT, &LI, &SE);
      UnrollLoopOptions O{}; O.Count = trips; O.Force = true; O.Runtime = false; O.AllowExpensiveTripCount = false;
      O.UnrollRemainder = false; O.ForgetAllSCEV = true;
      auto R = UnrollLoop(todo, O, &LI, &SE, &DT, &AC, &TTI, &ORE, true);
      AM.invalidate(F, PreservedAnalyses::none());
      if (R == LoopUnrollResult::Unmodified) break;
      any = true;
    }
    return any ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
  // the loop itself (not one around or inside it) reads a constant table
  static bool readsTable(Loop *L) {
    for (auto *B : L->blocks())
      for (auto &I : *B)
        if (auto *Ld = dyn_cast<LoadInst>(&I))
          if (auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(Ld->getPointerOperand())))
            if (G->isConstant() && G->hasLocalLinkage() && G->hasInitializer() && !L->isLoopInvariant(Ld->getPointerOperand())) return true;
    return false;
  }
};

static bool onlyRead(Value *V) {
  for (auto *U : V->users()) {
    if (auto *L = dyn_cast<LoadInst>(U)) { if (L->isVolatile()) return false; continue; }
    if (isa<GEPOperator>(U)) { if (!onlyRead(U)) return false; continue; }
    return false;
  }
  return true;
}

static void constTables(Module &M) {
  for (auto &G : M.globals())
    if (!G.isConstant() && G.hasLocalLinkage() && G.hasInitializer() && G.getValueType()->isAggregateType() && onlyRead(&G))
      G.setConstant(true);
}

int main(int argc, char **argv) {
  // irx FILE [--passes=PIPELINE] [--inline] [--keep=f,g] [--skip=SUFFIX]...
  std::vector<std::string> suf, keep;
  std::string passes; bool inl = false;
  for (int k = 2; k < argc; k++) {
    StringRef a(argv[k]);
    if (a.consume_front("--skip=")) suf.push_back(a.str());
    else if (a.consume_front("--passes=")) passes = a.str();
    else if (a.consume_front("--keep=")) { SmallVector<StringRef> v; a.split(v, ','); for (auto x : v) keep.push_back(x.str()); }
    else if (a == "--inline") inl = true;
  }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  for (auto &Fn : *M) if (!Fn.isDeclaration() && skipBody(Fn, suf)) {
    auto *SP = Fn.getSubprogram(); Fn.deleteBody(); (void)SP; }
  expandCopies(*M);
  constTables(*M);
  if (inl)
    for (auto &Fn : *M) {
      if (Fn.isDeclaration()) continue;
      bool k = false, rec = false;
      for (auto &n : keep) k |= Fn.getName() == n;
      for (auto *U : Fn.users()) if (auto *C = dyn_cast<CallBase>(U)) rec |= C->getFunction() == &Fn && C->getCalledFunction() == &Fn;
      Fn.removeFnAttr(Attribute::AlwaysInline); Fn.removeFnAttr(Attribute::NoInline); Fn.removeFnAttr(Attribute::OptimizeNone);
      Fn.addFnAttr(k || rec ? Attribute::NoInline : Attribute::AlwaysInline);
    }
  if (!passes.empty()) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &P, ArrayRef<PassBuilder::PipelineElement>) {
      if (N != "unroll-tables") return false;
      P.addPass(UnrollTables()); return true; });
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  O << "{\"structs\":{";
  bool first = true;
  // layouts, with member names from debug info where present
  std::map<std::string, std::vector<std::tuple<std::string, uint64_t, std::string>>> members;
  DebugInfoFinder F; F.processModule(*M);
  std::map<const DICompositeType *, std::string> tdname;
  for (auto *T : F.types())
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType())) tdname[B] = D->getName().str();
  for (auto *T : F.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_structure_type) {
        std::string n = C->getName().str();
        if (n.empty()) n = tdname[C];
        if (n.empty()) continue;
        auto &v = members[n];
        if (!v.empty()) continue;
        for (auto *E : C->getElements())
          if (auto *Mb = dyn_cast<DIDerivedType>(E))
            v.emplace_back(Mb->getName().str(), Mb->getOffsetInBits() / 8, ditype(Mb->getBaseType()));
      }
  for (auto &kv : members) {
    if (!first) O << ","; first = false;
    O << q(kv.first) << ":[";
    bool f2 = true;
    for (auto &m : kv.second) {
      if (!f2) O << ","; f2 = false;
      O << "[" << q(std::get<0>(m)) << "," << std::get<1>(m) << "," << q(std::get<2>(m)) << "]";
    }
    O << "]";
  }
  O << "},\"sizes\":{"; first = true;
  for (auto *ST : M->getIdentifiedStructTypes())
    if (ST->isSized()) {
      if (!first) O << ","; first = false;
      O << q(ST->getName()) << ":" << DL->getTypeAllocSize(ST);
    }
  O << "},\n\"globals\":{"; first = true;
  for (auto &G : M->globals()) {
    if (!first) O << ",\n"; first = false;
    O << q(G.getName()) << ":{\"const\":" << (G.isConstant() ? "true" : "false") << ",\"decl\":"
      << (G.isDeclaration() ? "true" : "false") << ",\"internal\":" << (G.hasLocalLinkage() ? "true" : "false")
      << ",\"ty\":" << q(tyname(G.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 1> gve; G.getDebugInfo(gve);
    if (!gve.empty()) {
      auto *V = gve[0]->getVariable();
      O << ",\"name\":" << q(V->getName()) << ",\"dity\":" << q(ditype(V->getType())) << ",\"file\":" << q(V->getFilename())
        << ",\"line\":" << V->getLine();
    }
    if (G.getValueType()->isSized()) O << ",\"size\":" << DL->getTypeAllocSize(G.getValueType());
    if (G.hasInitializer() && !(G.getValueType()->isArrayTy() && G.getValueType()->getArrayElementType()->isIntegerTy() && !G.getValueType()->getArrayElementType()->isIntegerTy(8))) { O << ",\"init\":"; init(G.getInitializer()); }
    O << "}";
  }
  O << "},\n\"functions\":{"; first = true;
  for (auto &Fn : *M) {
    if (Fn.isIntrinsic() && Fn.getName().starts_with("llvm.dbg")) continue;
    if (!first) O << ",\n"; first = false;
    O << q(Fn.getName()) << ":{\"decl\":" << (Fn.isDeclaration() ? "true" : "false") << ",\"internal\":"
      << (Fn.hasLocalLinkage() ? "true" : "false") << ",\"ret\":" << q(tyname(Fn.getReturnType())) << ",\"nargs\":" << Fn.arg_size()
      << ",\"vararg\":" << (Fn.isVarArg() ? "true" : "false");
    if (auto *SP = Fn.getSubprogram()) {
      O << ",\"file\":" << q(SP->getFilename()) << ",\"line\":" << SP->getLine() << ",\"params\":[";
      auto *ST = SP->getType();
      bool f2 = true;
      if (ST) { unsigned k = 0; for (auto *T : ST->getTypeArray()) { if (k++) { if (!f2) O << ","; f2 = false; O << q(ditype(T)); } } }
      O << "],\"rety\":" << q(ST && ST->getTypeArray().size() ? ditype(ST->getTypeArray()[0]) : "void");
    }
    O << ",\"argty\":[";
    { bool f2 = true; for (auto &A : Fn.args()) { if (!f2) O << ","; f2 = false; O << q(tyname(A.getType())); } }
    O << "]";
    if (!Fn.isDeclaration()) {
      int n = 0, b = 0; ids.clear();
      for (auto &BB : Fn) { ids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
      // local variable names (debug only, used in reports)
      O << ",\"blocks\":[";
      bool f2 = true;
      for (auto &BB : Fn) {
        if (!f2) O << ",\n "; f2 = false;
        O << "[";
        bool f3 = true;
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (!f3) O << ",\n  "; f3 = false;
          O << "{\"i\":" << ids[&I] << ",\"op\":" << q(I.getOpcodeName()) << ",\"ty\":" << q(tyname(I.getType()));
          if (auto *P = dyn_cast<PHINode>(&I)) {
            O << ",\"in\":[";
            for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
              if (k) O << ","; O << "["; operand(P->getIncomingValue(k)); O << "," << ids[P->getIncomingBlock(k)] << "]";
            }
            O << "]";
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> vo; APInt co(64, 0);
            bool ok = G->collectOffset(*DL, 64, vo, co);
            O << ",\"base\":"; operand(G->getPointerOperand());
            O << ",\"off\":" << co.getSExtValue() << ",\"var\":[";
            bool f4 = true;
            for (auto &kv : vo) { if (!f4) O << ","; f4 = false; O << "["; operand(kv.first); O << "," << kv.second.getSExtValue() << "]"; }
            O << "],\"sty\":" << q(tyname(G->getSourceElementType())) << ",\"ok\":" << (ok ? "true" : "false");
            O << ",\"inb\":" << (G->isInBounds() ? "true" : "false");
          } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
            O << ",\"aty\":" << q(tyname(A->getAllocatedType())) << ",\"esz\":" << DL->getTypeAllocSize(A->getAllocatedType()) << ",\"n\":";
            operand(A->getArraySize());
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            O << ",\"fn\":"; operand(C->getCalledOperand()->stripPointerCasts());
            O << ",\"ops\":[";
            for (unsigned k = 0; k < C->arg_size(); k++) { if (k) O << ","; operand(C->getArgOperand(k)); }
            O << "]";
          } else {
            if (auto *C = dyn_cast<CmpInst>(&I)) O << ",\"pred\":" << q(CmpInst::getPredicateName(C->getPredicate()));
            if (isa<LoadInst>(I)) O << ",\"sz\":" << DL->getTypeStoreSize(I.getType());
            if (auto *S = dyn_cast<StoreInst>(&I)) O << ",\"sz\":" << DL->getTypeStoreSize(S->getValueOperand()->getType());
            O << ",\"ops\":[";
            for (unsigned k = 0; k < I.getNumOperands(); k++) { if (k) O << ","; operand(I.getOperand(k)); }
            O << "]";
            if (isa<CastInst>(I)) O << ",\"sty\":" << q(tyname(I.getOperand(0)->getType()));
          }
          loc(I);
          O << "}";
        }
        O << "]";
      }
      O << "]";
    }
    O << "}";
  }
  O << "}}\n";
  return 0;
}
