// irdump: LLVM bitcode -> JSON lines for the Python engine.  Reads the type-resolved program (no source text).
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;
using json::Array; using json::Object; using json::Value;
static const DataLayout *DL;
static std::map<const llvm::Value*, int> Ids;

static std::string tystr(Type *T) {
  if (T->isPointerTy()) return "ptr";
  if (T->isVoidTy()) return "void";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  std::string s; raw_string_ostream o(s); T->print(o); return o.str();
}
static json::Value intval(const APInt &A) {
  // signed decimal as string when it does not fit in 64 bits
  if (A.getBitWidth() <= 64) return (int64_t)A.getSExtValue();
  SmallString<40> S; A.toStringSigned(S); return std::string(S.str());
}
static json::Value opnd(const llvm::Value *V);
static json::Value constant(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) return Array{"c", intval(CI->getValue()), (int)CI->getBitWidth()};
  if (isa<ConstantPointerNull>(C)) return Array{"n"};
  if (isa<UndefValue>(C)) return Array{"u"};
  if (auto *F = dyn_cast<Function>(C)) return Array{"f", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(C)) return Array{"g", G->getName().str(), 0};
  if (C->getType()->isPointerTy()) {
    APInt Off(64, 0);
    const llvm::Value *B = C->stripAndAccumulateConstantOffsets(*DL, Off, true);
    if (auto *G = dyn_cast<GlobalVariable>(B)) return Array{"g", G->getName().str(), Off.getSExtValue()};
    if (auto *F = dyn_cast<Function>(B)) return Array{"f", F->getName().str()};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) if (CE->getOpcode() == Instruction::IntToPtr) return constant(CE->getOperand(0));
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::PtrToInt) return constant(CE->getOperand(0));
  }
  if (C->isNullValue()) return Array{"c", 0, (int)(DL->getTypeSizeInBits(C->getType()))};
  return Array{"u"};
}
static json::Value opnd(const llvm::Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return Array{"a", (int)A->getArgNo()};
  if (auto *I = dyn_cast<Instruction>(V)) return Array{"v", Ids[I]};
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  if (isa<BasicBlock>(V)) return Array{"b", Ids[V]};
  return Array{"x"};
}
static void flattenInit(const Constant *C, uint64_t off, Array &out) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) flattenInit(S->getOperand(i), off + L->getElementOffset(i), out);
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) flattenInit(A->getOperand(i), off + i * es, out);
    return;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL->getTypeAllocSize(D->getElementType());
    if (D->getNumElements() > 512) return;
    for (unsigned i = 0; i < D->getNumElements(); i++) out.push_back(Array{(int64_t)(off + i * es), (int64_t)es, constant(D->getElementAsConstant(i))});
    return;
  }
  out.push_back(Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(T), constant(C)});
}
static std::string structName(StructType *ST) { return ST->hasName() ? ST->getName().str() : std::string("anon"); }

static std::string anonName(const DICompositeType *C) {
  std::string f = C->getFilename().str();
  size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  for (auto &c : f) if (c == '.') c = '_';
  return "#" + f + ":" + std::to_string(C->getLine());
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  Object Root;
  Object Structs;
  for (auto *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque()) continue;
    auto *L = DL->getStructLayout(ST); Array fs;
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      fs.push_back(Array{(int64_t)L->getElementOffset(i), (int64_t)DL->getTypeAllocSize(ST->getElementType(i)), tystr(ST->getElementType(i))});
    Structs[structName(ST)] = Object{{"size", (int64_t)L->getSizeInBytes()}, {"fields", std::move(fs)}};
  }
  Root["structs"] = std::move(Structs);
  // debug info composite types: member names, offsets, nested type name
  DebugInfoFinder DIF; DIF.processModule(*M);
  Object DIs;
  auto tyname = [&](const DIType *T) -> std::string {
    std::string pre;
    while (T) {
      if (auto *D = dyn_cast<DIDerivedType>(T)) {
        if (D->getTag() == dwarf::DW_TAG_pointer_type) { pre += "*"; T = D->getBaseType(); continue; }
        if (D->getTag() == dwarf::DW_TAG_const_type) { pre += "const "; T = D->getBaseType(); continue; }
        if (D->getTag() == dwarf::DW_TAG_typedef) {
          if (auto *CT = dyn_cast_or_null<DICompositeType>(D->getBaseType())) return pre + (CT->getName().empty() ? D->getName().str() : CT->getName().str());
          T = D->getBaseType(); continue; }
        T = D->getBaseType(); continue;
      }
      if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) { pre += "[]"; T = C->getBaseType(); continue; }
        if (C->getName().empty()) return pre + anonName(C);
      }
      return pre + T->getName().str();
    }
    return pre + "void";
  };
  auto dumpComposite = [&](const DICompositeType *C, const std::string &name) {
    if (DIs.get(name)) return;
    Array ms;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIDerivedType>(E))
        if (D->getTag() == dwarf::DW_TAG_member)
          ms.push_back(Array{D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), (int64_t)(D->getSizeInBits() / 8), tyname(D->getBaseType())});
    DIs[name] = Object{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"union", C->getTag() == dwarf::DW_TAG_union_type}, {"members", std::move(ms)}};
  };
  for (auto *T : DIF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
      if (C->isForwardDecl()) continue;
      if (C->getName().empty()) dumpComposite(C, anonName(C));
      else dumpComposite(C, C->getName().str());
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (C->getName().empty()) dumpComposite(C, D->getName().str());
    }
  }
  Root["dis"] = std::move(DIs);
  Array Gs;
  for (auto &G : M->globals()) {
    Object o; o["name"] = G.getName().str(); o["const"] = G.isConstant(); o["decl"] = G.isDeclaration(); o["internal"] = G.hasLocalLinkage();
    o["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0);
    SmallVector<DIGlobalVariableExpression *, 1> GV; G.getDebugInfo(GV);
    if (!GV.empty()) { o["file"] = GV[0]->getVariable()->getFilename().str(); o["line"] = (int64_t)GV[0]->getVariable()->getLine(); o["ty"] = tyname(GV[0]->getVariable()->getType());}
    if (G.hasInitializer()) { Array in; flattenInit(G.getInitializer(), 0, in); o["init"] = std::move(in); o["zero"] = true; }
    Gs.push_back(std::move(o));
  }
  Root["globals"] = std::move(Gs);
  Array Fs;
  for (auto &F : *M) {
    Object fo; fo["name"] = F.getName().str(); fo["decl"] = F.isDeclaration(); fo["internal"] = F.hasLocalLinkage();
    fo["vararg"] = F.isVarArg(); fo["ret"] = tystr(F.getReturnType()); fo["addrtaken"] = F.hasAddressTaken();
    Array ps; for (auto &A : F.args()) ps.push_back(Array{A.getName().str(), tystr(A.getType())});
    fo["params"] = std::move(ps);
    if (auto *SP = F.getSubprogram()) {
      fo["file"] = SP->getFilename().str(); fo["line"] = (int64_t)SP->getLine();
      Array pts; if (auto *ST = SP->getType()) for (auto T : ST->getTypeArray()) pts.push_back(T ? tyname(T) : std::string("void"));
      fo["dity"] = std::move(pts);
    }
    if (!F.isDeclaration()) {
      Ids.clear(); int n = 0, b = 0;
      for (auto &B : F) { Ids[&B] = b++; for (auto &I : B) Ids[&I] = n++; }
      Array Bs;
      for (auto &B : F) {
        Array Is;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          Object o; o["i"] = Ids[&I]; o["op"] = std::string(I.getOpcodeName()); o["t"] = tystr(I.getType());
          if (auto &D = I.getDebugLoc()) { o["l"] = (int64_t)D.getLine(); if (D->getFilename() != F.getSubprogram()->getFilename()) o["lf"] = D->getFilename().str(); }
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            if (auto *CI = dyn_cast<ConstantInt>(A->getArraySize())) o["size"] = (int64_t)(DL->getTypeAllocSize(A->getAllocatedType()) * CI->getZExtValue());
            else { o["elt"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); o["n"] = opnd(A->getArraySize()); }
            o["name"] = A->getName().str();
            if (auto *S = dyn_cast<StructType>(A->getAllocatedType())) if (S->hasName()) o["sty"] = S->getName().str();
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            o["p"] = opnd(G->getPointerOperand());
            int64_t off = 0; Array idx; Array tag;
            Object lastTag; bool has = false;
            for (auto GI = gep_type_begin(G), E = gep_type_end(G); GI != E; ++GI) {
              llvm::Value *Op = GI.getOperand();
              if (StructType *ST = GI.getStructTypeOrNull()) {
                unsigned f = cast<ConstantInt>(Op)->getZExtValue();
                off += DL->getStructLayout(ST)->getElementOffset(f);
                tag.push_back(Array{structName(ST), (int)f});
              } else {
                int64_t st = DL->getTypeAllocSize(GI.getIndexedType());
                if (auto *CI = dyn_cast<ConstantInt>(Op)) off += CI->getSExtValue() * st;
                else idx.push_back(Array{opnd(Op), st});
              }
            }
            o["off"] = off; o["idx"] = std::move(idx); if (!tag.empty()) o["tag"] = std::move(tag);
            o["ety"] = tystr(G->getSourceElementType());
          } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
            o["a"] = Array{opnd(C->getOperand(0)), opnd(C->getOperand(1))}; o["ot"] = tystr(C->getOperand(0)->getType());
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            Array in; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) in.push_back(Array{Ids[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
            o["in"] = std::move(in); o["name"] = P->getName().str();
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            o["v"] = opnd(S->getCondition()); o["def"] = Ids[S->getDefaultDest()]; o["ot"] = tystr(S->getCondition()->getType());
            Array cs; for (auto &c : S->cases()) cs.push_back(Array{intval(c.getCaseValue()->getValue()), Ids[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            if (Br->isConditional()) { o["v"] = opnd(Br->getCondition()); o["s"] = Array{Ids[Br->getSuccessor(0)], Ids[Br->getSuccessor(1)]}; }
            else o["s"] = Array{Ids[Br->getSuccessor(0)]};
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            o["callee"] = opnd(CB->getCalledOperand());
            Array as, ts; for (auto &A : CB->args()) { as.push_back(opnd(A)); ts.push_back(tystr(A->getType())); }
            o["a"] = std::move(as); o["at"] = std::move(ts);
            o["nret"] = CB->doesNotReturn();
          } else {
            Array as; for (auto &Op : I.operands()) as.push_back(opnd(Op));
            o["a"] = std::move(as);
            if (auto *L = dyn_cast<LoadInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()); o["vol"] = L->isVolatile(); }
            if (auto *S = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vt"] = tystr(S->getValueOperand()->getType()); }
            if (isa<CastInst>(I)) o["ot"] = tystr(I.getOperand(0)->getType());
            if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nuw"] = OB->hasNoUnsignedWrap(); o["nsw"] = OB->hasNoSignedWrap(); }
          }
          Is.push_back(std::move(o));
        }
        Bs.push_back(std::move(Is));
      }
      fo["blocks"] = std::move(Bs);
    }
    Fs.push_back(std::move(fo));
  }
  Root["functions"] = std::move(Fs);
  outs() << json::Value(std::move(Root));
  return 0;
}
