// irx: LLVM IR -> JSON extractor used by every check in /verif.
//
//   irx OUT.json [--root=REGEX]... [--keep=REGEX]... [--no-inline] [--passes=PIPELINE] IN.bc...
//
// Links the given bitcode, inlines (bottom-up over the call graph, never through a cycle) every
// defined function that matches no --keep pattern, normalises with the given pass pipeline, and
// writes the functions whose *mangled or demangled* name matches a --root pattern (all defined
// functions if there is none).  Nothing is executed: this only parses and rewrites the program.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
using namespace llvm;

static json::OStream *J;
static const DataLayout *DL;
static std::map<const Value *, int> Ids;
static std::map<const DIType *, int> TypeIds;
static std::vector<const DIType *> Types;

static int typeId(const DIType *T) {
  if (!T) return -1;
  auto it = TypeIds.find(T);
  if (it != TypeIds.end()) return it->second;
  int n = Types.size();
  TypeIds[T] = n;
  Types.push_back(T);
  return n;
}

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s);
  if (auto *ST = dyn_cast<StructType>(T); ST && ST->hasName()) o << "%" << ST->getName();
  else T->print(o, false, true);
  return o.str();
}

static void operand(const Value *V);

static void intval(const APInt &A) {
  if (A.getBitWidth() <= 64) J->value(A.getSExtValue());
  else { SmallString<64> S; A.toStringSigned(S); J->value(S.str()); }
}

static void constant(const Constant *C) {
  J->array([&] {
    if (auto *CI = dyn_cast<ConstantInt>(C)) { J->value("c"); intval(CI->getValue()); J->value((int)CI->getBitWidth()); }
    else if (isa<ConstantPointerNull>(C)) { J->value("null"); }
    else if (auto *F = dyn_cast<Function>(C)) { J->value("f"); J->value(F->getName()); }
    else if (auto *G = dyn_cast<GlobalVariable>(C)) { J->value("g"); J->value(G->getName()); J->value(0); }
    else if (isa<UndefValue>(C)) { J->value("undef"); }
    else if (auto *GA = dyn_cast<GlobalAlias>(C)) { J->value("f"); J->value(GA->getAliasee()->getName()); }
    else if (auto *CF = dyn_cast<ConstantFP>(C)) { J->value("fp"); SmallString<32> S; CF->getValueAPF().toString(S); J->value(S.str()); }
    else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt Off(DL->getIndexTypeSizeInBits(GEP->getType()), 0);
        const Value *B = GEP->stripAndAccumulateConstantOffsets(*DL, Off, true);
        if (auto *G = dyn_cast<GlobalVariable>(B)) { J->value("g"); J->value(G->getName()); J->value(Off.getSExtValue()); return; }
      }
      J->value("ce"); J->value(CE->getOpcodeName());
      J->array([&] { for (auto &O : CE->operands()) operand(O.get()); });
    }
    else if (isa<ConstantAggregateZero>(C)) { J->value("zero"); }
    else { J->value("k"); J->array([&] { for (auto &O : C->operands()) operand(O.get()); }); }
  });
}

static void operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
  if (auto *A = dyn_cast<Argument>(V)) { J->array([&] { J->value("a"); J->value((int)A->getArgNo()); }); return; }
  if (isa<MetadataAsValue>(V)) { J->array([&] { J->value("md"); }); return; }
  auto it = Ids.find(V);
  J->array([&] { J->value(isa<BasicBlock>(V) ? "b" : "v"); J->value(it == Ids.end() ? -1 : it->second); });
}

static void locChain(const DILocation *L) {
  J->array([&] {
    for (; L; L = L->getInlinedAt()) {
      J->array([&] {
        J->value(L->getFilename()); J->value((int)L->getLine());
        auto *SP = L->getScope()->getSubprogram();
        J->value(SP ? (SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName()) : "");
      });
    }
  });
}

static void initializer(const Constant *C, unsigned depth = 0) {
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    J->array([&] { for (unsigned i = 0; i < CDS->getNumElements(); i++)
      if (CDS->getElementType()->isIntegerTy()) J->value(CDS->getElementAsAPInt(i).getSExtValue()); else J->value(nullptr); });
  } else if (isa<ConstantAggregateZero>(C)) {
    J->object([&] { J->attribute("zero", (int64_t)DL->getTypeAllocSize(C->getType())); });
  } else if (isa<ConstantAggregate>(C)) {
    J->array([&] { for (auto &O : C->operands()) initializer(cast<Constant>(O.get()), depth + 1); });
  } else if (auto *CI = dyn_cast<ConstantInt>(C)) { intval(CI->getValue()); }
  else operand(C);
}

// The bytes of an initialiser, and the pointers in it; false if it has anything else
static bool flatten(const Constant *C, uint64_t off, std::vector<unsigned char> &B, std::vector<std::tuple<uint64_t, std::string, int64_t>> &R) {
  uint64_t sz = DL->getTypeStoreSize(C->getType()).getKnownMinValue();
  if (off + sz > B.size()) return false;
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return true;
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    for (uint64_t i = 0; i < sz; i++) B[off + i] = i * 8 < CI->getBitWidth() ? CI->getValue().extractBitsAsZExtValue(std::min<unsigned>(8, CI->getBitWidth() - i * 8), i * 8) : 0;
    return true;
  }
  if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t e = DL->getTypeAllocSize(S->getElementType());
    for (unsigned i = 0; i < S->getNumElements(); i++) if (!flatten(S->getElementAsConstant(i), off + i * e, B, R)) return false;
    return true;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t e = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) if (!flatten(A->getOperand(i), off + i * e, B, R)) return false;
    return true;
  }
  if (auto *A = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL->getStructLayout(A->getType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) if (!flatten(A->getOperand(i), off + L->getElementOffset(i), B, R)) return false;
    return true;
  }
  if (C->getType()->isPointerTy()) {
    APInt O(DL->getIndexTypeSizeInBits(C->getType()), 0);
    const Value *G = C->stripAndAccumulateConstantOffsets(*DL, O, true);
    if (auto *GV = dyn_cast<GlobalValue>(G)) { R.emplace_back(off, GV->getName().str(), O.getSExtValue()); return true; }
  }
  return false;
}

static void dumpTypes() {
  // Types grows while iterating: typeId() appends.
  J->attributeArray("types", [&] {
    for (size_t i = 0; i < Types.size(); i++) {
      const DIType *T = Types[i];
      J->object([&] {
        J->attribute("id", (int)i);
        J->attribute("name", T->getName());
        J->attribute("tag", dwarf::TagString(T->getTag()));
        J->attribute("size", (int64_t)T->getSizeInBits() / 8);
        J->attribute("line", (int)T->getLine());
        J->attribute("file", T->getFilename());
        if (auto *S = T->getScope()) {
          std::string n;
          for (const DIScope *c = S; c; c = c->getScope()) if (!c->getName().empty()) n = c->getName().str() + (n.empty() ? "" : "::" + n);
          J->attribute("scope", n);
        }
        if (auto *D = dyn_cast<DIDerivedType>(T)) {
          J->attribute("base", typeId(D->getBaseType()));
        } else if (auto *B = dyn_cast<DIBasicType>(T)) {
          J->attribute("enc", dwarf::AttributeEncodingString(B->getEncoding()));
        } else if (auto *C = dyn_cast<DICompositeType>(T)) {
          J->attribute("base", typeId(C->getBaseType()));
          J->attribute("ident", C->getIdentifier());
          J->attributeArray("members", [&] {
            for (auto *E : C->getElements()) {
              if (auto *M = dyn_cast_or_null<DIDerivedType>(E)) {
                if (M->isStaticMember() || M->getTag() == dwarf::DW_TAG_friend) continue;
                if (M->getTag() != dwarf::DW_TAG_member && M->getTag() != dwarf::DW_TAG_inheritance) continue;
                J->object([&] {
                  J->attribute("name", M->getName());
                  J->attribute("inherit", M->getTag() == dwarf::DW_TAG_inheritance);
                  J->attribute("off", (int64_t)M->getOffsetInBits() / 8);
                  J->attribute("bitoff", (int64_t)M->getOffsetInBits());
                  J->attribute("bits", (int64_t)M->getSizeInBits());
                  J->attribute("bitfield", M->isBitField());
                  J->attribute("type", typeId(M->getBaseType()));
                });
              } else if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
                J->object([&] { J->attribute("name", En->getName()); J->attributeBegin("value"); intval(En->getValue()); J->attributeEnd(); });
              } else if (auto *SR = dyn_cast_or_null<DISubrange>(E)) {
                if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount()))
                  J->object([&] { J->attribute("count", CI->getSExtValue()); });
              }
            }
          });
        }
      });
    }
  });
}

static void dumpFunction(Function &F) {
  Ids.clear();
  int n = 0, b = 0;
  for (auto &BB : F) Ids[&BB] = b++;
  for (auto &I : instructions(F)) Ids[&I] = n++;
  J->object([&] {
    J->attribute("name", F.getName());
    J->attribute("dem", demangle(F.getName().str()));
    J->attribute("linkage", (int)F.getLinkage());
    J->attribute("ret", tyStr(F.getReturnType()));
    if (auto *SP = F.getSubprogram()) {
      J->attribute("file", SP->getFilename()); J->attribute("line", (int)SP->getLine());
      J->attribute("spname", SP->getName());
      J->attributeArray("ditypes", [&] {
        if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) J->value(typeId(T));
      });
    }
    J->attributeArray("args", [&] { for (auto &A : F.args()) J->object([&] {
      J->attribute("ty", tyStr(A.getType())); J->attribute("name", A.getName());
      J->attribute("sret", A.hasStructRetAttr()); J->attribute("byval", A.hasByValAttr()); }); });
    DominatorTree DT(F); LoopInfo LI(DT);
    J->attributeArray("blocks", [&] {
      for (auto &BB : F) J->object([&] {
        J->attribute("id", Ids[&BB]);
        J->attribute("reach", DT.isReachableFromEntry(&BB));
        if (auto *L = LI.getLoopFor(&BB)) { J->attribute("loop", Ids[L->getHeader()]); J->attribute("depth", (int)L->getLoopDepth()); }
        J->attributeArray("ins", [&] {
          for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(I)) {
              if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I))
                if (auto *V = DV->getVariableLocationOp(0); V && (isa<Instruction>(V) || isa<Argument>(V)))
                  J->object([&] {
                    J->attribute("id", Ids[&I]); J->attribute("op", "dbg");
                    J->attribute("declare", isa<DbgDeclareInst>(DV));
                    J->attribute("var", DV->getVariable()->getName());
                    J->attribute("dit", typeId(DV->getVariable()->getType()));
                    J->attribute("complex", DV->getExpression()->getNumElements() > 0);
                    J->attributeArray("ops", [&] { operand(V); });
                  });
              continue;
            }
            J->object([&] {
              J->attribute("id", Ids[&I]);
              J->attribute("op", I.getOpcodeName());
              J->attribute("ty", tyStr(I.getType()));
              if (I.getType()->isSized() && !I.getType()->isVoidTy()) J->attribute("sz", (int64_t)DL->getTypeStoreSize(I.getType()).getKnownMinValue());
              J->attributeBegin("loc"); locChain(I.getDebugLoc()); J->attributeEnd();
              if (auto *P = dyn_cast<PHINode>(&I)) {
                J->attributeArray("inc", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                  J->array([&] { operand(P->getIncomingValue(i)); J->value(Ids[P->getIncomingBlock(i)]); }); });
                return;
              }
              if (auto *C = dyn_cast<CallBase>(&I)) {
                J->attributeArray("ops", [&] { for (auto &A : C->args()) operand(A.get()); });
                if (auto *CF = C->getCalledFunction()) {
                  J->attribute("callee", CF->getName());
                  J->attribute("intr", (bool)CF->isIntrinsic());
                  J->attribute("decl", CF->isDeclaration());
                } else {
                  const Value *CV = C->getCalledOperand()->stripPointerCasts();
                  if (isa<InlineAsm>(CV)) J->attribute("callee", "<asm>");
                  else { J->attributeBegin("target"); operand(CV); J->attributeEnd(); }
                }
                J->attribute("noret", C->doesNotReturn());
                return;
              }
              if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                unsigned W = DL->getIndexTypeSizeInBits(G->getType());
                MapVector<Value *, APInt> Var; APInt Const(W, 0);
                J->attribute("srcty", tyStr(G->getSourceElementType()));
                J->attribute("inb", G->isInBounds());
                bool ok = G->getType()->isPointerTy() && cast<GEPOperator>(G)->collectOffset(*DL, W, Var, Const);
                J->attributeArray("ops", [&] { operand(G->getPointerOperand()); });
                J->attribute("ok", ok);
                J->attribute("off", Const.getSExtValue());
                J->attributeArray("var", [&] { for (auto &P : Var) J->array([&] { operand(P.first); J->value(P.second.getSExtValue()); }); });
                J->attributeArray("idx", [&] { for (auto &X : G->indices()) operand(X.get()); });
                return;
              }
              J->attributeArray("ops", [&] { for (auto &O : I.operands()) if (!isa<BasicBlock>(O)) operand(O.get()); });
              if (auto *C = dyn_cast<CmpInst>(&I)) J->attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
              if (auto *C = dyn_cast<ICmpInst>(&I)) { J->attribute("oty", tyStr(C->getOperand(0)->getType())); }
              if (auto *C = dyn_cast<CastInst>(&I)) J->attribute("oty", tyStr(C->getOperand(0)->getType()));
              if (auto *BI = dyn_cast<BranchInst>(&I)) J->attributeArray("succ", [&] { for (unsigned K = 0; K < BI->getNumSuccessors(); K++) J->value(Ids[BI->getSuccessor(K)]); });
              if (auto *SI = dyn_cast<SwitchInst>(&I)) {
                J->attribute("default", Ids[SI->getDefaultDest()]);
                J->attributeArray("cases", [&] { for (auto &C : SI->cases()) J->array([&] { intval(C.getCaseValue()->getValue()); J->value(Ids[C.getCaseSuccessor()]); }); });
              }
              if (auto *L = dyn_cast<LoadInst>(&I)) { J->attribute("atomic", L->isAtomic()); J->attribute("volatile", L->isVolatile()); }
              if (auto *S = dyn_cast<StoreInst>(&I)) { J->attribute("atomic", S->isAtomic()); J->attribute("sty", tyStr(S->getValueOperand()->getType()));
                J->attribute("ssz", (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getKnownMinValue()); }
              if (auto *A = dyn_cast<AtomicRMWInst>(&I)) { J->attribute("rmw", AtomicRMWInst::getOperationName(A->getOperation())); J->attribute("ordering", toIRString(A->getOrdering())); }
              if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) { J->attribute("ordering", toIRString(A->getSuccessOrdering())); }
              if (auto *A = dyn_cast<AllocaInst>(&I)) { J->attribute("aty", tyStr(A->getAllocatedType())); J->attribute("asz", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getKnownMinValue()); }
              if (auto *E = dyn_cast<ExtractValueInst>(&I)) J->attributeArray("idx", [&] { for (auto x : E->indices()) J->value((int)x); });
              if (auto *E = dyn_cast<InsertValueInst>(&I)) J->attributeArray("idx", [&] { for (auto x : E->indices()) J->value((int)x); });
              if (isa<OverflowingBinaryOperator>(I)) { auto *O = cast<OverflowingBinaryOperator>(&I); J->attribute("nsw", O->hasNoSignedWrap()); J->attribute("nuw", O->hasNoUnsignedWrap()); }
            });
          }
        });
      });
    });
  });
}

int main(int argc, char **argv) {
  std::vector<std::regex> roots, keep; std::vector<std::string> ins; bool internal = false; std::string passes = "sroa,instsimplify,early-cse,simplifycfg", out;
  bool doInline = true; unsigned limit = 60000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--root=", 0) == 0) roots.emplace_back(a.substr(7));
    else if (a.rfind("--keep=", 0) == 0) keep.emplace_back(a.substr(7));
    else if (a == "--no-inline") doInline = false;
    else if (a == "--internal") internal = true;	// programs that each have functions of the same name
    else if (a.rfind("--passes=", 0) == 0) passes = a.substr(9);
    else if (out.empty()) out = a;
    else ins.push_back(a);
  }
  LLVMContext C; SMDiagnostic D; std::unique_ptr<Module> M;
  for (auto &f : ins) {
    auto N = parseIRFile(f, D, C);
    if (!N) { D.print("irx", errs()); return 3; }
    if (internal && N->getSourceFileName().find("/drivers/") != std::string::npos)
      for (auto &G : N->global_values()) if (!G.isDeclaration() && G.hasExternalLinkage()) G.setLinkage(GlobalValue::InternalLinkage);
    if (!M) M = std::move(N); else if (Linker::linkModules(*M, std::move(N))) return 3;
  }
  DL = &M->getDataLayout();
  auto match = [](const std::vector<std::regex> &R, const Function &F) {
    std::string m = F.getName().str(), d = demangle(m);
    for (auto &r : R) if (std::regex_search(m, r) || std::regex_search(d, r)) return true;
    return false;
  };
  for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }

  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  auto run = [&](std::string p) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, "function(" + p + ")")) { errs() << toString(std::move(E)) << "\n"; exit(3); }
    // the inliner below invalidates every cached analysis
    FAM.clear(); LAM.clear(); CAM.clear(); MAM.clear();
    MAM.registerPass([&] { return FunctionAnalysisManagerModuleProxy(FAM); });
    MPM.run(*M, MAM);
    FAM.clear(); LAM.clear(); CAM.clear(); MAM.clear();
  };
  run("sroa");
  std::set<Function *> rootSet, keepSet;
  for (auto &F : *M) if (!F.isDeclaration()) { if (roots.empty() || match(roots, F)) rootSet.insert(&F); if (match(keep, F)) keepSet.insert(&F); }
  if (doInline) {
    CallGraph CG(*M);
    std::vector<std::vector<Function *>> order;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      std::vector<Function *> s;
      for (auto *N : *it) if (N->getFunction() && !N->getFunction()->isDeclaration()) s.push_back(N->getFunction());
      if (!s.empty()) order.push_back(s);
    }
    for (auto &S : order) for (auto *F : S) {
      bool again = true; unsigned rounds = 0;
      while (again && rounds++ < 50) {
        again = false;
        std::vector<CallBase *> cs;
        for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) cs.push_back(CB);
        for (auto *CB : cs) {
          auto *G = CB->getCalledFunction();
          if (!G) if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand())) G = dyn_cast<Function>(GA->getAliasee());
          if (!G || G->isDeclaration() || keepSet.count(G)) continue;
          if (std::find(S.begin(), S.end(), G) != S.end()) continue;	// cycle
          if (F->getInstructionCount() > limit) break;
          if (CB->getCalledFunction() != G) CB->setCalledFunction(G);
          InlineFunctionInfo IFI;
          if (InlineFunction(*CB, IFI).isSuccess()) again = !IFI.InlinedCallSites.empty() || again;
        }
      }
    }
  }
  run(passes);
  std::error_code EC; raw_fd_ostream O(out, EC); json::OStream JO(O); J = &JO;
  J->object([&] {
    J->attributeArray("functions", [&] { for (auto &F : *M) if (rootSet.count(&F)) dumpFunction(F); });
    J->attributeArray("globals", [&] {
      for (auto &G : M->globals()) J->object([&] {
        J->attribute("name", G.getName()); J->attribute("dem", demangle(G.getName().str()));
        J->attribute("const", G.isConstant()); J->attribute("tls", G.isThreadLocal()); J->attribute("decl", G.isDeclaration());
        J->attribute("local", G.hasLocalLinkage());
        J->attribute("ty", tyStr(G.getValueType()));
        J->attribute("size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : -1);
        SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
        if (!GVs.empty()) { auto *V = GVs[0]->getVariable(); J->attribute("file", V->getFilename()); J->attribute("line", (int)V->getLine()); J->attribute("diname", V->getName()); J->attribute("dit", typeId(V->getType())); }
        if (G.hasInitializer()) { J->attributeBegin("init"); initializer(G.getInitializer()); J->attributeEnd(); }
        if (G.hasInitializer() && G.getValueType()->isSized()) {
          std::vector<unsigned char> B(DL->getTypeAllocSize(G.getValueType())); std::vector<std::tuple<uint64_t, std::string, int64_t>> R;
          if (B.size() < (1 << 20) && flatten(G.getInitializer(), 0, B, R)) {
            J->attributeArray("data", [&] { for (auto b : B) J->value((int)b); });
            J->attributeArray("relocs", [&] { for (auto &r : R) J->array([&] { J->value((int64_t)std::get<0>(r)); J->value(std::get<1>(r)); J->value(std::get<2>(r)); }); });
          }
        }
      });
    });
    J->attributeArray("defs", [&] { for (auto &F : *M) J->object([&] { J->attribute("name", F.getName()); J->attribute("dem", demangle(F.getName().str())); J->attribute("decl", F.isDeclaration());
        if (auto *SP = F.getSubprogram()) { J->attribute("file", SP->getFilename()); J->attribute("line", (int)SP->getLine()); } }); });
    // Every named class/struct/enum mentioned anywhere
    DebugInfoFinder DF; DF.processModule(*M);
    for (auto *T : DF.types()) typeId(T);
    dumpTypes();
  });
  J->flush();
  return 0;
}
