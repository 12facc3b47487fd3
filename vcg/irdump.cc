// Dumps an LLVM module (bitcode or .ll) as JSON for the verification-condition
// generator.  Purely a serialiser: no transformation happens here.
#include <map>
#include <string>
#include <vector>
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
namespace J = llvm::json;

static const DataLayout* DL;
static std::map<const Value*, int> ids;

static J::Value ty(Type* t) {
  if (t->isIntegerTy()) return J::Array{"i", (int64_t)t->getIntegerBitWidth()};
  if (t->isPointerTy()) return J::Array{"p"};
  if (t->isFloatTy()) return J::Array{"f", 32};
  if (t->isDoubleTy()) return J::Array{"f", 64};
  if (t->isX86_FP80Ty()) return J::Array{"f", 80};
  if (t->isVoidTy()) return J::Array{"v"};
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->isOpaque()) return J::Array{"s", J::Array{}, 0};
    auto* sl = DL->getStructLayout(st);
    J::Array f;
    for (unsigned i = 0; i < st->getNumElements(); i++)
      f.push_back(J::Array{(int64_t)(uint64_t)sl->getElementOffset(i), ty(st->getElementType(i))});
    return J::Array{"s", std::move(f), (int64_t)(uint64_t)DL->getTypeAllocSize(t)};
  }
  if (auto* at = dyn_cast<ArrayType>(t))
    return J::Array{"a", (int64_t)at->getNumElements(), ty(at->getElementType()),
                    (int64_t)(uint64_t)DL->getTypeAllocSize(at->getElementType())};
  if (auto* vt = dyn_cast<FixedVectorType>(t))
    return J::Array{"x", (int64_t)vt->getNumElements(), ty(vt->getElementType()),
                    (int64_t)(uint64_t)DL->getTypeAllocSize(vt->getElementType())};
  return J::Array{"?"};
}

static J::Value op(const Value* v);

static J::Value constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s;
    ci->getValue().toString(s, 10, false);
    return J::Array{"c", (int64_t)ci->getBitWidth(), std::string(s.str())};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    SmallString<40> s;
    APInt b = cf->getValueAPF().bitcastToAPInt();
    b.toString(s, 10, false);
    return J::Array{"f", (int64_t)b.getBitWidth(), std::string(s.str())};
  }
  if (isa<ConstantPointerNull>(c)) return J::Array{"c", 64, "0"};
  if (isa<UndefValue>(c)) return J::Array{"u", ty(c->getType())};
  if (isa<ConstantAggregateZero>(c)) return J::Array{"z", ty(c->getType())};
  if (auto* gv = dyn_cast<GlobalAlias>(c)) return op(gv->getAliasee()->stripPointerCasts());
  if (auto* gv = dyn_cast<GlobalValue>(c)) return J::Array{"g", gv->getName().str(), 0};
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    J::Array a;
    for (unsigned i = 0; i < ca->getNumElements(); i++) a.push_back(constant(ca->getElementAsConstant(i)));
    return J::Array{"agg", ty(c->getType()), std::move(a)};
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    J::Array a;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) a.push_back(constant(cast<Constant>(ca->getOperand(i))));
    return J::Array{"agg", ty(c->getType()), std::move(a)};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    J::Array a;
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off))
        return J::Array{"gep", op(g->getPointerOperand()), off.getSExtValue()};
    }
    for (unsigned i = 0; i < ce->getNumOperands(); i++) a.push_back(op(ce->getOperand(i)));
    return J::Array{"ce", ce->getOpcodeName(), ty(ce->getType()), std::move(a)};
  }
  if (isa<ConstantTokenNone>(c)) return J::Array{"u", ty(c->getType())};
  return J::Array{"?", "constant"};
}

static J::Value op(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<BasicBlock>(v)) return J::Array{"b", ids[v]};
  if (isa<MetadataAsValue>(v)) return J::Array{"m"};
  if (isa<InlineAsm>(v)) return J::Array{"asm"};
  auto it = ids.find(v);
  if (it == ids.end()) return J::Array{"?", "value"};
  return J::Array{"v", it->second};
}

int main(int argc, char** argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print(argv[0], errs()); return 2; }
  DL = &m->getDataLayout();
  J::OStream os(outs());
  os.objectBegin();
  os.attributeBegin("globals");
  os.arrayBegin();
  for (auto& g : m->globals()) {
    J::Object o{{"name", g.getName().str()}, {"ty", ty(g.getValueType())},
                {"size", (int64_t)(uint64_t)DL->getTypeAllocSize(g.getValueType())},
                {"const", g.isConstant()}, {"align", (int64_t)(g.getAlign() ? g.getAlign()->value() : 1)}};
    if (g.hasInitializer()) o["init"] = constant(g.getInitializer());
    os.value(std::move(o));
  }
  os.arrayEnd();
  os.attributeEnd();
  os.attributeBegin("functions");
  os.arrayBegin();
  for (auto& f : *m) {
    ids.clear();
    J::Object o{{"name", f.getName().str()}, {"decl", f.isDeclaration()}, {"ret", ty(f.getReturnType())},
                {"noreturn", f.doesNotReturn()}};
    int n = 0;
    J::Array ps;
    for (auto& a : f.args()) { ids[&a] = n++; ps.push_back(ty(a.getType())); }
    o["params"] = std::move(ps);
    if (!f.isDeclaration()) {
      if (auto* sp = f.getSubprogram())
        o["src"] = J::Array{sp->getFilename().str(), (int64_t)sp->getLine()};
      int bn = 0;
      for (auto& b : f) { ids[&b] = bn++; for (auto& i : b) ids[&i] = n++; }
      DominatorTree dt(f);
      LoopInfo li(dt);
      J::Array blocks;
      for (auto& b : f) {
        J::Array insts;
        for (auto& i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          J::Object x{{"id", ids[&i]}, {"op", i.getOpcodeName()}, {"ty", ty(i.getType())}};
          if (auto& dl = i.getDebugLoc()) {
            std::string fn;
            if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) fn = sc->getFilename().str();
            std::string sn;
            if (auto* sc = dyn_cast_or_null<DILocalScope>(dl.getScope()))
              if (auto* sp = sc->getSubprogram()) sn = (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str();
            x["loc"] = J::Array{fn, (int64_t)dl.getLine(), sn};
          }
          if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
            if (g->getType()->isVectorTy()) { x["bad"] = true; }
            int64_t c = 0;
            J::Array vs;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
              const Value* idx = it.getOperand();
              if (StructType* st = it.getStructTypeOrNull()) {
                c += (int64_t)(uint64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
              } else {
                int64_t sc = (int64_t)(uint64_t)DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx)) c += sc * ci->getSExtValue();
                else vs.push_back(J::Array{sc, op(idx)});
              }
            }
            x["base"] = op(g->getPointerOperand());
            x["off"] = c;
            x["idx"] = std::move(vs);
          } else if (auto* p = dyn_cast<PHINode>(&i)) {
            J::Array in;
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
              in.push_back(J::Array{ids[p->getIncomingBlock(k)], op(p->getIncomingValue(k))});
            x["in"] = std::move(in);
          } else if (auto* s = dyn_cast<SwitchInst>(&i)) {
            J::Array cs;
            for (auto& cc : s->cases())
              cs.push_back(J::Array{constant(cc.getCaseValue()), ids[cc.getCaseSuccessor()]});
            x["cond"] = op(s->getCondition());
            x["cases"] = std::move(cs);
            x["default"] = ids[s->getDefaultDest()];
          } else if (auto* br = dyn_cast<BranchInst>(&i)) {
            J::Array t;
            for (unsigned k = 0; k < br->getNumSuccessors(); k++) t.push_back(ids[br->getSuccessor(k)]);
            x["to"] = std::move(t);
            if (br->isConditional()) x["cond"] = op(br->getCondition());
          } else {
            J::Array a;
            unsigned no = i.getNumOperands();
            if (auto* cb = dyn_cast<CallBase>(&i)) {
              no = cb->arg_size();
              x["callee"] = op(cb->getCalledOperand());
              J::Array at, bv;
              for (unsigned k = 0; k < no; k++) {
                at.push_back(ty(cb->getArgOperand(k)->getType()));
                if (cb->isByValArgument(k))
                  bv.push_back(J::Array{(int64_t)k, (int64_t)(uint64_t)DL->getTypeAllocSize(cb->getParamByValType(k)), ty(cb->getParamByValType(k))});
              }
              x["argty"] = std::move(at);
              if (!bv.empty()) x["byval"] = std::move(bv);
              if (cb->doesNotReturn()) x["noreturn"] = true;
            }
            for (unsigned k = 0; k < no; k++) a.push_back(op(i.getOperand(k)));
            x["a"] = std::move(a);
            if (no > 0) x["oty"] = ty(i.getOperand(0)->getType());
          }
          if (auto* c = dyn_cast<CmpInst>(&i)) x["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto* a = dyn_cast<AllocaInst>(&i)) {
            x["aty"] = ty(a->getAllocatedType());
            x["size"] = (int64_t)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType());
            x["align"] = (int64_t)a->getAlign().value();
          }
          if (auto* e = dyn_cast<ExtractValueInst>(&i)) { J::Array k; for (auto q : e->indices()) k.push_back((int64_t)q); x["path"] = std::move(k); }
          if (auto* e = dyn_cast<InsertValueInst>(&i)) { J::Array k; for (auto q : e->indices()) k.push_back((int64_t)q); x["path"] = std::move(k); }
          if (auto* r = dyn_cast<AtomicRMWInst>(&i)) x["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
          insts.push_back(std::move(x));
        }
        J::Object bo{{"insts", std::move(insts)}};
        J::Array hs;
        for (Loop* l = li.getLoopFor(&b); l; l = l->getParentLoop()) hs.push_back(ids[l->getHeader()]);
        bo["loops"] = std::move(hs);
        blocks.push_back(std::move(bo));
      }
      o["blocks"] = std::move(blocks);
    }
    os.value(std::move(o));
  }
  os.arrayEnd();
  os.attributeEnd();
  J::Array ctors;
  if (auto* g = m->getGlobalVariable("llvm.global_ctors"))
    if (g->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& u : ca->operands())
          ctors.push_back(op(cast<ConstantStruct>(u)->getOperand(1)));
  os.attribute("ctors", std::move(ctors));
  os.objectEnd();
  return 0;
}
