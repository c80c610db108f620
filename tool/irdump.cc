// Dumps LLVM IR (after SROA/loop-simplify) of a bitcode module as JSON for lib/ir.py.
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/DenseMap.h"
using namespace llvm;
typedef json::Value V; typedef json::Array A; typedef json::Object O;
static const DataLayout* DL;
static std::map<std::string,int> files; static A fileList;
static int fileId(StringRef f) { auto it = files.find(f.str()); if (it != files.end()) return it->second; int n = files.size(); files[f.str()] = n; fileList.push_back(f.str()); return n; }
static std::string kind(Type* t) {
  if (t->isPointerTy()) return "p";
  if (t->isIntegerTy()) return "i";
  if (t->isFloatingPointTy()) return "f";
  if (t->isVoidTy()) return "v";
  if (t->isStructTy() || t->isArrayTy()) return "a";
  return "o";
}
static uint64_t bits(Type* t) { if (!t->isSized()) return 0; return DL->getTypeSizeInBits(t).getKnownMinValue(); }
static uint64_t bytes(Type* t) { if (!t->isSized()) return 0; return DL->getTypeAllocSize(t).getKnownMinValue(); }
static A leaves(Type* t, uint64_t off = 0) {
  A r;
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) { A c = leaves(s->getElementType(i), off + L->getElementOffset(i)); if (s->getElementType(i)->isStructTy() || s->getElementType(i)->isArrayTy()) r.push_back(A{"n", std::move(c)}); else for (auto& x : c) r.push_back(std::move(x)); }
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    for (unsigned i = 0; i < a->getNumElements() && i < 64; i++) { A c = leaves(a->getElementType(), off + i * bytes(a->getElementType())); if (a->getElementType()->isStructTy() || a->getElementType()->isArrayTy()) r.push_back(A{"n", std::move(c)}); else for (auto& x : c) r.push_back(std::move(x)); }
  } else r.push_back(A{(int64_t)off, (int64_t)bytes(t), kind(t)});
  return r;
}
static V ty(Type* t) {
  std::string k = kind(t);
  if (k == "a") return A{"a", (int64_t)bytes(t), leaves(t)};
  return A{k, (int64_t)bits(t)};
}
static DenseMap<const Value*, int> ids;
static V val(const Value* v);
static V cval(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return A{"i", (int64_t)ci->getSExtValue(), (int64_t)ci->getBitWidth()};
    SmallString<40> s; ci->getValue().toStringUnsigned(s); return A{"I", s.str().str(), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return A{"i", 0, 64};
  if (isa<UndefValue>(c)) return A{"u"};
  if (auto* g = dyn_cast<GlobalAlias>(c)) return cval(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) return A{"g", g->getName().str(), 0};
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { A r; for (auto& op : ca->operands()) r.push_back(cval(cast<Constant>(op))); return A{"a", std::move(r)}; }
  if (isa<ConstantAggregateZero>(c)) { A r; unsigned n = 0; if (auto* s = dyn_cast<StructType>(c->getType())) n = s->getNumElements(); else if (auto* a = dyn_cast<ArrayType>(c->getType())) n = std::min<uint64_t>(a->getNumElements(), 64);
    for (unsigned i = 0; i < n; i++) r.push_back(cval(c->getAggregateElement(i))); return A{"a", std::move(r)}; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) { V b = val(gep->getPointerOperand()); return A{"+", std::move(b), (int64_t)off.getSExtValue()}; }
    }
    if (ce->isCast()) return cval(ce->getOperand(0));
    if (ce->getOpcode() == Instruction::Sub) return A{"-", cval(ce->getOperand(0)), cval(ce->getOperand(1))};
  }
  if (auto* f = dyn_cast<ConstantFP>(c)) { SmallString<40> s; f->getValueAPF().toString(s); return A{"f", s.str().str()}; }
  return A{"?"};
}
static V val(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return cval(c);
  auto it = ids.find(v);
  if (it != ids.end()) return A{"l", it->second};
  return A{"?"};
}
static V gepv(const GEPOperator* g) {
  unsigned bw = DL->getIndexSizeInBits(0);
  MapVector<Value*, APInt> var; APInt c(bw, 0);
  if (!g->collectOffset(*DL, bw, var, c)) return A{"?"};
  A vs; for (auto& kv : var) vs.push_back(A{val(kv.first), (int64_t)kv.second.getSExtValue(), (int64_t)bits(kv.first->getType())});
  return A{val(g->getPointerOperand()), (int64_t)c.getSExtValue(), std::move(vs)};
}
static A flat(const Constant* c, uint64_t base, int& budget) {
  A r; if (budget-- <= 0) return r;
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return r;
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) for (auto& x : flat(c->getAggregateElement(i), base + L->getElementOffset(i), budget)) r.push_back(std::move(x)); return r; }
  if (auto* a = dyn_cast<ArrayType>(t)) { if (a->getNumElements() > 512) return r; for (unsigned i = 0; i < a->getNumElements(); i++) for (auto& x : flat(c->getAggregateElement(i), base + i * bytes(a->getElementType()), budget)) r.push_back(std::move(x)); return r; }
  r.push_back(A{(int64_t)base, (int64_t)bytes(t), cval(c)});
  return r;
}
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 1; }
  DL = &m->getDataLayout();
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string pipe = argc > 3 ? argv[3] : "function(sroa,loop-simplify)";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)); return 1; }
    MPM.run(*m, MAM);
  }
  A fns, globs;
  for (auto& g : m->globals()) {
    if (!g.hasInitializer() || !g.isConstant()) { globs.push_back(O{{"n", g.getName().str()}, {"s", (int64_t)bytes(g.getValueType())}}); continue; }
    int budget = 600;
    globs.push_back(O{{"n", g.getName().str()}, {"s", (int64_t)bytes(g.getValueType())}, {"c", 1}, {"init", flat(g.getInitializer(), 0, budget)}});
  }
  for (auto& f : *m) {
    O fo; fo["n"] = f.getName().str(); fo["d"] = demangle(f.getName().str());
    std::string at;
    if (f.doesNotThrow()) at += "n"; if (f.doesNotReturn()) at += "r"; if (f.onlyReadsMemory()) at += "o"; if (f.isIntrinsic()) at += "I"; if (f.doesNotAccessMemory()) at += "p";
    fo["fl"] = at; fo["rt"] = ty(f.getReturnType());
    A args; ids.clear(); int n = 0;
    for (auto& a : f.args()) { ids[&a] = n; args.push_back(A{n, ty(a.getType()), a.hasStructRetAttr() ? "s" : a.hasByValAttr() ? "b" : "", a.getName().str(), a.hasNonNullAttr() || a.getDereferenceableBytes() ? 1 : 0, (int64_t)a.getDereferenceableBytes()}); n++; }
    fo["a"] = std::move(args);
    if (f.isDeclaration()) { fns.push_back(std::move(fo)); continue; }
    if (auto* sp = f.getSubprogram()) { fo["l"] = sp->getLine(); fo["f"] = fileId(sp->getFilename()); }
    DominatorTree DT(f); LoopInfo LI(DT);
    DenseMap<const BasicBlock*, int> bid; int nb = 0;
    for (auto& b : f) { bid[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++; }
    A blocks;
    for (auto& b : f) {
      A ins;
      for (auto& i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        O o; int id = i.getType()->isVoidTy() ? -1 : ids[&i];
        int line = 0, file = -1;
        if (auto& dl = i.getDebugLoc()) { line = dl.getLine(); if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) file = fileId(sc->getFilename()); }
        A r; 
        auto hdr = [&](const char* op) { r.push_back(op); r.push_back(id); r.push_back(line); r.push_back(file); };
        if (auto* x = dyn_cast<AllocaInst>(&i)) { hdr("alloca"); r.push_back((int64_t)bytes(x->getAllocatedType())); r.push_back(val(x->getArraySize())); }
        else if (auto* x = dyn_cast<LoadInst>(&i)) { hdr("load"); r.push_back(val(x->getPointerOperand())); r.push_back(ty(x->getType())); r.push_back((int64_t)DL->getTypeStoreSize(x->getType()).getKnownMinValue()); r.push_back((int)x->getOrdering()); }
        else if (auto* x = dyn_cast<StoreInst>(&i)) { hdr("store"); r.push_back(val(x->getPointerOperand())); r.push_back(val(x->getValueOperand())); r.push_back(ty(x->getValueOperand()->getType())); r.push_back((int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()).getKnownMinValue()); r.push_back((int)x->getOrdering()); }
        else if (auto* x = dyn_cast<GetElementPtrInst>(&i)) { hdr("gep"); r.push_back(gepv(cast<GEPOperator>(x))); }
        else if (auto* x = dyn_cast<BinaryOperator>(&i)) { hdr("bin"); r.push_back(x->getOpcodeName()); r.push_back(val(x->getOperand(0))); r.push_back(val(x->getOperand(1))); r.push_back(ty(x->getType())); std::string fl; if (auto* o = dyn_cast<OverflowingBinaryOperator>(x)) { if (o->hasNoUnsignedWrap()) fl += "u"; if (o->hasNoSignedWrap()) fl += "s"; } if (auto* o = dyn_cast<PossiblyExactOperator>(x)) if (o->isExact()) fl += "e"; r.push_back(fl); }
        else if (auto* x = dyn_cast<UnaryOperator>(&i)) { hdr("un"); r.push_back(x->getOpcodeName()); r.push_back(val(x->getOperand(0))); r.push_back(ty(x->getType())); }
        else if (auto* x = dyn_cast<ICmpInst>(&i)) { hdr("icmp"); r.push_back(CmpInst::getPredicateName(x->getPredicate()).str()); r.push_back(val(x->getOperand(0))); r.push_back(val(x->getOperand(1))); r.push_back(ty(x->getOperand(0)->getType())); }
        else if (auto* x = dyn_cast<FCmpInst>(&i)) { hdr("fcmp"); r.push_back(CmpInst::getPredicateName(x->getPredicate()).str()); r.push_back(val(x->getOperand(0))); r.push_back(val(x->getOperand(1))); }
        else if (auto* x = dyn_cast<CastInst>(&i)) { hdr("cast"); r.push_back(x->getOpcodeName()); r.push_back(val(x->getOperand(0))); r.push_back(ty(x->getSrcTy())); r.push_back(ty(x->getDestTy())); }
        else if (auto* x = dyn_cast<SelectInst>(&i)) { hdr("select"); r.push_back(val(x->getCondition())); r.push_back(val(x->getTrueValue())); r.push_back(val(x->getFalseValue())); r.push_back(ty(x->getType())); }
        else if (auto* x = dyn_cast<PHINode>(&i)) { hdr("phi"); A in; for (unsigned k = 0; k < x->getNumIncomingValues(); k++) in.push_back(A{val(x->getIncomingValue(k)), bid[x->getIncomingBlock(k)]}); r.push_back(std::move(in)); r.push_back(ty(x->getType())); }
        else if (auto* x = dyn_cast<BranchInst>(&i)) { hdr("br"); if (x->isConditional()) { r.push_back(val(x->getCondition())); r.push_back(bid[x->getSuccessor(0)]); r.push_back(bid[x->getSuccessor(1)]); } else r.push_back(bid[x->getSuccessor(0)]); }
        else if (auto* x = dyn_cast<SwitchInst>(&i)) { hdr("switch"); r.push_back(val(x->getCondition())); r.push_back(bid[x->getDefaultDest()]); A cs; for (auto& c : x->cases()) cs.push_back(A{val(c.getCaseValue()), bid[c.getCaseSuccessor()]}); r.push_back(std::move(cs)); }
        else if (auto* x = dyn_cast<ReturnInst>(&i)) { hdr("ret"); if (x->getReturnValue()) r.push_back(val(x->getReturnValue())); }
        else if (isa<UnreachableInst>(&i)) hdr("unreachable");
        else if (auto* x = dyn_cast<ResumeInst>(&i)) { hdr("resume"); r.push_back(val(x->getOperand(0))); }
        else if (auto* x = dyn_cast<LandingPadInst>(&i)) { hdr("lpad"); r.push_back(x->isCleanup() ? 1 : 0); A cl; for (unsigned k = 0; k < x->getNumClauses(); k++) cl.push_back(x->isCatch(k) ? val(x->getClause(k)) : V(A{"filter"})); r.push_back(std::move(cl)); }
        else if (auto* x = dyn_cast<CallBase>(&i)) {
          hdr(isa<InvokeInst>(x) ? "invoke" : "call");
          r.push_back(val(x->getCalledOperand())); A as; for (auto& a : x->args()) as.push_back(val(a)); r.push_back(std::move(as)); r.push_back(ty(x->getType()));
          std::string fl; if (x->doesNotThrow()) fl += "n"; if (x->doesNotReturn()) fl += "r"; if (x->onlyReadsMemory()) fl += "o"; if (x->isInlineAsm()) fl += "A";
          for (unsigned k = 0; k < x->arg_size(); k++) if (x->paramHasAttr(k, Attribute::StructRet)) fl += "S" + std::to_string(k) + ";";
          r.push_back(fl);
          if (auto* iv = dyn_cast<InvokeInst>(x)) { r.push_back(bid[iv->getNormalDest()]); r.push_back(bid[iv->getUnwindDest()]); }
        }
        else if (auto* x = dyn_cast<ExtractValueInst>(&i)) { hdr("extract"); r.push_back(val(x->getAggregateOperand())); A ix; for (auto k : x->indices()) ix.push_back((int64_t)k); r.push_back(std::move(ix)); r.push_back(ty(x->getType())); }
        else if (auto* x = dyn_cast<InsertValueInst>(&i)) { hdr("insert"); r.push_back(val(x->getAggregateOperand())); r.push_back(val(x->getInsertedValueOperand())); A ix; for (auto k : x->indices()) ix.push_back((int64_t)k); r.push_back(std::move(ix)); unsigned n = 0; if (auto* s = dyn_cast<StructType>(x->getType())) n = s->getNumElements(); else n = cast<ArrayType>(x->getType())->getNumElements(); r.push_back((int64_t)n); }
        else if (auto* x = dyn_cast<AtomicRMWInst>(&i)) { hdr("rmw"); r.push_back(AtomicRMWInst::getOperationName(x->getOperation()).str()); r.push_back(val(x->getPointerOperand())); r.push_back(val(x->getValOperand())); r.push_back(ty(x->getType())); r.push_back((int)x->getOrdering()); }
        else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) { hdr("cmpxchg"); r.push_back(val(x->getPointerOperand())); r.push_back(val(x->getCompareOperand())); r.push_back(val(x->getNewValOperand())); r.push_back(ty(x->getNewValOperand()->getType())); r.push_back((int)x->getSuccessOrdering()); r.push_back((int)x->getFailureOrdering()); }
        else if (auto* x = dyn_cast<FreezeInst>(&i)) { hdr("freeze"); r.push_back(val(x->getOperand(0))); }
        else if (auto* x = dyn_cast<FenceInst>(&i)) { hdr("fence"); r.push_back((int)x->getOrdering()); }
        else { hdr("other"); r.push_back(i.getOpcodeName()); A as; for (auto& a : i.operands()) as.push_back(val(a)); r.push_back(std::move(as)); r.push_back(ty(i.getType())); }
        ins.push_back(std::move(r));
      }
      O bo; bo["i"] = std::move(ins);
      if (auto* L = LI.getLoopFor(&b)) { A hs; for (auto* l = L; l; l = l->getParentLoop()) hs.push_back(bid[l->getHeader()]); bo["lp"] = std::move(hs); }
      blocks.push_back(std::move(bo));
    }
    fo["b"] = std::move(blocks);
    fns.push_back(std::move(fo));
  }
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << V(O{{"fns", std::move(fns)}, {"globs", std::move(globs)}, {"files", std::move(fileList)}});
  return 0;
}
