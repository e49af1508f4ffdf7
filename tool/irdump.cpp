// irdump: read one or more LLVM bitcode files, link them, run a pass pipeline and
// dump the module as JSON for the Python analyses in /verif/lib.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/CommandLine.h>
#include <map>
#include <string>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::desc("<bc files>"));
static cl::opt<std::string> Passes("pipeline", cl::init(""));
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<bool> Scev("scev", cl::init(false));
static cl::opt<bool> GlobalsOnlyStr("strings", cl::init(true));

static const DataLayout *DL;
using OS = json::OStream;

static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

struct Num {
  std::map<const Value *, int> id; std::map<const BasicBlock *, int> bb;
  int of(const Value *v) { auto it = id.find(v); return it == id.end() ? -1 : it->second; }
};

static void constant(OS &J, const Constant *C, int depth = 0);

static void operand(OS &J, const Value *V, Num &N) {
  if (auto *B = dyn_cast<BasicBlock>(V)) { J.array([&] { J.value("b"); J.value(N.bb[B]); }); return; }
  if (auto *C = dyn_cast<Constant>(V)) { constant(J, C); return; }
  if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) { J.array([&] { J.value("x"); }); return; }
  J.array([&] { J.value("v"); J.value(N.of(V)); });
}

static void constant(OS &J, const Constant *C, int depth) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    J.array([&] { J.value("c");
      SmallString<32> s; CI->getValue().toString(s, 10, true);
      if (CI->getBitWidth() <= 64) J.value(CI->getSExtValue()); else J.value(s.str());
      J.value((int64_t)CI->getBitWidth()); });
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    J.array([&] { J.value("f"); SmallString<64> s; CF->getValueAPF().toString(s, 40); J.value(s.str()); });
    return;
  }
  if (isa<ConstantPointerNull>(C)) { J.array([&] { J.value("n"); }); return; }
  if (isa<UndefValue>(C)) { J.array([&] { J.value("u"); }); return; }
  if (auto *F = dyn_cast<Function>(C)) { J.array([&] { J.value("fn"); J.value(F->getName()); }); return; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) { constant(J, A->getAliasee(), depth + 1); return; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { J.array([&] { J.value("g"); J.value(G->getName()); J.value(0); }); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    APInt off(64, 0);
    const Value *b = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (b != CE) {
      if (auto *G = dyn_cast<GlobalVariable>(b)) { J.array([&] { J.value("g"); J.value(G->getName()); J.value(off.getSExtValue()); }); return; }
      if (auto *F = dyn_cast<Function>(b)) { J.array([&] { J.value("fn"); J.value(F->getName()); }); return; }
    }
    J.array([&] { J.value("ce"); J.value(CE->getOpcodeName()); for (auto &o : CE->operands()) constant(J, cast<Constant>(o.get()), depth + 1); });
    return;
  }
  if (isa<ConstantAggregateZero>(C)) { J.array([&] { J.value("z"); J.value((int64_t)DL->getTypeAllocSize(C->getType()).getFixedValue()); }); return; }
  if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
    if (S->isString() || S->isCString()) { J.array([&] { J.value("s"); std::string h; for (unsigned char c : S->getAsString()) { h.push_back(c < 128 && c >= 32 ? c : (c == 0 ? '\0' : '?')); } J.value(json::fixUTF8(h)); }); return; }
    J.array([&] { J.value("arr"); J.value((int64_t)DL->getTypeAllocSize(S->getElementType()).getFixedValue());
      for (unsigned i = 0; i < S->getNumElements(); ++i) constant(J, S->getElementAsConstant(i), depth + 1); });
    return;
  }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) {
    // list of [offset, const]
    J.array([&] { J.value("agg"); J.value((int64_t)DL->getTypeAllocSize(A->getType()).getFixedValue());
      for (unsigned i = 0; i < A->getNumOperands(); ++i) {
        uint64_t off = 0;
        if (auto *ST = dyn_cast<StructType>(A->getType())) off = DL->getStructLayout(ST)->getElementOffset(i);
        else if (auto *AT = dyn_cast<ArrayType>(A->getType())) off = i * DL->getTypeAllocSize(AT->getElementType()).getFixedValue();
        J.array([&] { J.value((int64_t)off); constant(J, A->getOperand(i), depth + 1); });
      } });
    return;
  }
  J.array([&] { J.value("x"); });
}

static std::string dem(StringRef n) { return demangle(n.str()); }

static void instr(OS &J, const Instruction &I, Num &N) {
  J.object([&] {
    J.attribute("o", I.getOpcodeName());
    if (!I.getType()->isVoidTy()) { J.attribute("d", N.of(&I)); J.attribute("t", tyStr(I.getType())); }
    if (I.getDebugLoc()) J.attribute("l", (int64_t)I.getDebugLoc().getLine());
    if (auto *DLc = I.getDebugLoc().get()) { if (auto *sc = DLc->getScope()) { auto *f = sc->getFile(); if (f) J.attribute("lf", json::fixUTF8(f->getFilename())); } }
    auto ops = [&](auto range) { J.attributeArray("a", [&] { for (auto &o : range) operand(J, o.get(), N); }); };
    if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("ty", tyStr(A->getAllocatedType())); J.attribute("sz", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue()); J.attribute("nm", json::fixUTF8(A->getName())); ops(I.operands()); return; }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> var; APInt c(64, 0);
      bool ok = G->collectOffset(*DL, 64, var, c);
      J.attribute("ok", ok);
      J.attributeBegin("base"); operand(J, G->getPointerOperand(), N); J.attributeEnd();
      J.attribute("c", c.getSExtValue());
      J.attributeArray("vi", [&] { for (auto &p : var) J.array([&] { operand(J, p.first, N); J.value(p.second.getSExtValue()); }); });
      J.attribute("sty", tyStr(G->getSourceElementType()));
      return;
    }
    if (auto *C = dyn_cast<CmpInst>(&I)) { J.attribute("p", CmpInst::getPredicateName(C->getPredicate())); ops(I.operands()); return; }
    if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) J.array([&] { J.value(N.bb[P->getIncomingBlock(i)]); operand(J, P->getIncomingValue(i), N); }); });
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      J.attributeBegin("f"); operand(J, CB->getCalledOperand(), N); J.attributeEnd();
      J.attributeArray("a", [&] { for (auto &o : CB->args()) operand(J, o.get(), N); });
      for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->paramHasAttr(i, Attribute::StructRet)) { J.attribute("sret", i); J.attribute("srty", tyStr(CB->getParamStructRetType(i))); }
      J.attributeArray("ats", [&] { for (auto &o : CB->args()) J.value(tyStr(o->getType())); });
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) { J.attribute("sz", (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue()); J.attribute("at", L->isAtomic()); J.attribute("vol", L->isVolatile()); ops(I.operands()); return; }
    if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sz", (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()); J.attribute("st", tyStr(S->getValueOperand()->getType())); J.attribute("at", S->isAtomic()); ops(I.operands()); return; }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) { ops(I.operands()); J.attributeArray("idx", [&] { for (auto i : E->indices()) J.value((int64_t)i); }); return; }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) { ops(I.operands()); J.attributeArray("idx", [&] { for (auto i : E->indices()) J.value((int64_t)i); }); return; }
    if (isa<CastInst>(&I)) { J.attribute("ft", tyStr(I.getOperand(0)->getType())); ops(I.operands()); return; }
    if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { J.attribute("nsw", O->hasNoSignedWrap()); J.attribute("nuw", O->hasNoUnsignedWrap()); }
    ops(I.operands());
  });
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (auto &f : Inputs) {
    auto m = parseIRFile(f, E, C);
    if (!m) { E.print("irdump", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link error\n"; return 2; }
  }
  DL = &M->getDataLayout();
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  if (!Passes.empty()) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, Passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  std::error_code ec; raw_fd_ostream fs(Out, ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
  OS J(fs, 0);
  J.object([&] {
    J.attributeObject("structs", [&] {
      for (auto *T : M->getIdentifiedStructTypes()) if (!T->isOpaque()) {
        auto *L = DL->getStructLayout(T);
        J.attributeObject(T->getName(), [&] {
          J.attribute("size", (int64_t)L->getSizeInBytes());
          J.attributeArray("f", [&] { for (unsigned i = 0; i < T->getNumElements(); ++i) J.array([&] { J.value((int64_t)L->getElementOffset(i)); J.value(tyStr(T->getElementType(i))); J.value((int64_t)DL->getTypeAllocSize(T->getElementType(i)).getFixedValue()); }); });
        });
      }
    });
    J.attributeArray("globals", [&] {
      for (auto &G : M->globals()) J.object([&] {
        J.attribute("n", json::fixUTF8(G.getName())); J.attribute("dm", json::fixUTF8(dem(G.getName())));
        J.attribute("t", tyStr(G.getValueType())); J.attribute("k", G.isConstant()); J.attribute("tls", G.isThreadLocal()); J.attribute("decl", G.isDeclaration()); J.attribute("local", G.hasLocalLinkage());
        if (!G.isDeclaration()) J.attribute("sz", (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue());
        SmallVector<DIGlobalVariableExpression *, 1> dbg; G.getDebugInfo(dbg);
        if (!dbg.empty()) { J.attribute("ln", (int64_t)dbg[0]->getVariable()->getLine()); if (dbg[0]->getVariable()->getFile()) J.attribute("file", json::fixUTF8(dbg[0]->getVariable()->getFile()->getFilename())); }
        if (G.hasInitializer()) { J.attributeBegin("i"); constant(J, G.getInitializer()); J.attributeEnd(); }
      });
    });
    J.attributeArray("functions", [&] {
      for (auto &F : *M) J.object([&] {
        J.attribute("n", F.getName()); J.attribute("dm", json::fixUTF8(dem(F.getName())));
        J.attribute("rt", tyStr(F.getReturnType())); J.attribute("local", F.hasLocalLinkage());
        J.attribute("va", F.isVarArg());
        if (auto *sp = F.getSubprogram()) { J.attribute("file", json::fixUTF8(sp->getFilename())); J.attribute("line", (int64_t)sp->getLine()); }
        Num N; int k = 0;
        for (auto &a : F.args()) N.id[&a] = k++;
        J.attributeArray("args", [&] { for (auto &a : F.args()) J.object([&] { J.attribute("t", tyStr(a.getType())); J.attribute("nm", json::fixUTF8(a.getName()));
            if (a.hasStructRetAttr()) J.attribute("sret", tyStr(a.getParamStructRetType())); if (a.hasByValAttr()) J.attribute("byval", true); }); });
        J.attribute("decl", F.isDeclaration());
        if (F.isDeclaration()) return;
        int b = 0;
        for (auto &B : F) { N.bb[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) N.id[&I] = k++; }
        J.attributeArray("blocks", [&] { for (auto &B : F) J.array([&] { for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; instr(J, I, N); } }); });
        auto &LI = FAM.getResult<LoopAnalysis>(F);
        auto loops = LI.getLoopsInPreorder();
        if (!loops.empty()) J.attributeArray("loops", [&] {
          for (auto *L : loops) J.object([&] {
            J.attribute("h", N.bb[L->getHeader()]); J.attribute("depth", (int64_t)L->getLoopDepth());
            J.attributeArray("b", [&] { for (auto *B : L->blocks()) J.value(N.bb[B]); });
            if (auto dl = L->getStartLoc()) J.attribute("l", (int64_t)dl.getLine());
            if (Scev) {
              auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
              auto *bt = SE.getBackedgeTakenCount(L); auto *mx = SE.getConstantMaxBackedgeTakenCount(L); auto *sm = SE.getSymbolicMaxBackedgeTakenCount(L);
              std::string s; raw_string_ostream o(s); bt->print(o); J.attribute("btc", isa<SCEVCouldNotCompute>(bt) ? "" : o.str());
              std::string s2; raw_string_ostream o2(s2); mx->print(o2); J.attribute("max", isa<SCEVCouldNotCompute>(mx) ? "" : o2.str());
              std::string s3; raw_string_ostream o3(s3); sm->print(o3); J.attribute("sym", isa<SCEVCouldNotCompute>(sm) ? "" : o3.str());
            }
          });
        });
      });
    });
  });
  return 0;
}
