// irdump: read LLVM bitcode, inline Eigen/std glue, run canonicalising passes 
// that do not change meaning, and dump the functions reachable from the
// harness entry points ("vc_*") as JSON for irvc.py.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
using namespace llvm;
typedef json::Value J;
typedef json::Array JA;
typedef json::Object JO;

static const DataLayout* DL;
static std::map<Type*, int> tids;
static JA types;

static int tid(Type* t) {
  auto it = tids.find(t);
  if (it != tids.end()) return it->second;
  J v = "void";
  if (t->isIntegerTy()) v = "i" + std::to_string(t->getIntegerBitWidth());
  else if (t->isFloatTy()) v = "f";
  else if (t->isDoubleTy()) v = "d";
  else if (t->isX86_FP80Ty()) v = "x";
  else if (t->isPointerTy()) v = "p";
  else if (auto* s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) v = "opaque";
    else {
      JA fs; std::vector<int> ids;
      for (auto* e : s->elements()) ids.push_back(tid(e));
      auto* sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); ++i)
        fs.push_back(JA{(int64_t)sl->getElementOffset(i), ids[i]});
      v = JO{{"s", std::move(fs)}, {"sz", (int64_t)DL->getTypeAllocSize(t)},
             {"nm", s->hasName() ? s->getName().str() : ""}};
    }
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    int e = tid(a->getElementType());
    v = JO{{"a", JA{(int64_t)a->getNumElements(), e}},
           {"es", (int64_t)DL->getTypeAllocSize(a->getElementType())},
           {"sz", (int64_t)DL->getTypeAllocSize(t)}};
  } else if (auto* a = dyn_cast<FixedVectorType>(t)) {
    int e = tid(a->getElementType());
    v = JO{{"vec", JA{(int64_t)a->getNumElements(), e}},
           {"es", (int64_t)DL->getTypeAllocSize(a->getElementType())},
           {"sz", (int64_t)DL->getTypeAllocSize(t)}};
  } else if (!t->isVoidTy()) v = "other";
  int id = (int)types.size();
  types.push_back(std::move(v));
  tids[t] = id;
  return id;
}

struct FnCtx { std::map<const Value*, int> ids; std::map<const BasicBlock*, int> bbs; };

static J op(const Value* v, FnCtx* c) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    SmallString<32> s; ci->getValue().toStringSigned(s);
    if (ci->getBitWidth() == 1) return JA{"i", ci->isZero() ? 0 : 1, 1};
    if (ci->getBitWidth() <= 64) return JA{"i", ci->getSExtValue(), (int)ci->getBitWidth()};
    return JA{"I", std::string(s.str()), (int)ci->getBitWidth()};
  }
  if (auto* cf = dyn_cast<ConstantFP>(v)) {
    APFloat f = cf->getValueAPF();
    if (f.isInfinity()) return JA{"f", f.isNegative() ? "-inf" : "inf"};
    if (f.isNaN()) return JA{"f", "nan"};
    bool lose; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    char buf[64]; snprintf(buf, 64, "%a", f.convertToDouble());
    return JA{"f", std::string(buf), f.isNegZero() ? 1 : 0};
  }
  if (isa<ConstantPointerNull>(v)) return JA{"n"};
  if (isa<UndefValue>(v)) return JA{"u", tid(v->getType())};
  if (isa<ConstantAggregateZero>(v)) return JA{"z", tid(v->getType())};
  if (auto* f = dyn_cast<Function>(v)) return JA{"fn", f->getName().str()};
  if (auto* g = dyn_cast<GlobalAlias>(v)) {
    if (auto* f = dyn_cast<Function>(g->getAliasee()->stripPointerCasts())) return JA{"fn", f->getName().str()};
    return op(g->getAliasee(), c);
  }
  if (auto* g = dyn_cast<GlobalVariable>(v)) return JA{"g", g->getName().str()};
  if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
    JA a;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(op(cd->getElementAsConstant(i), c));
    return JA{"agg", std::move(a), tid(v->getType())};
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
    JA a;
    for (auto& o : ca->operands()) a.push_back(op(o.get(), c));
    return JA{"agg", std::move(a), tid(v->getType())};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off))
        return JA{"ge", op(g->getPointerOperand(), c), off.getSExtValue()};
    }
    if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr ||
        ce->getOpcode() == Instruction::BitCast)
      return JA{"cast", ce->getOpcodeName(), op(ce->getOperand(0), c)};
    std::string s; raw_string_ostream os(s); ce->print(os);
    return JA{"ce", os.str()};
  }
  if (c) { auto it = c->ids.find(v); if (it != c->ids.end()) return JA{"v", it->second}; }
  if (isa<MetadataAsValue>(v)) return JA{"md"};
  if (isa<InlineAsm>(v)) return JA{"asm"};
  return JA{"?"};
}

static std::string diTypeName(const DIType* t) {
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType()) + "&&";
      case dwarf::DW_TAG_const_type: return diTypeName(d->getBaseType());
      case dwarf::DW_TAG_typedef: return diTypeName(d->getBaseType());
      default: break;
    }
  }
  return t->getName().str();
}

int main(int argc, char** argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc out.json [noinline-substr...]\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::set<std::string> roots;
  for (auto& F : *M) {
    StringRef n = F.getName();
    if (F.isDeclaration()) continue;
    if (n.starts_with("vc_")) { F.setLinkage(GlobalValue::ExternalLinkage); F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); roots.insert(n.str()); continue; }
    F.setComdat(nullptr);
    if (!F.hasLocalLinkage()) F.setLinkage(GlobalValue::InternalLinkage);
    std::string d = demangle(n.str());
    bool inl = false;
    // Strip return type of template functions is not needed for a substring test.
    auto has = [&](const char* s) { return d.find(s) != std::string::npos; };
    size_t paren = d.find('(');
    std::string head = d.substr(0, paren);
    // function's own qualified name = last token outside template args
    int depth = 0; size_t start = 0;
    for (size_t i = 0; i < head.size(); ++i) {
      if (head[i] == '<') depth++; else if (head[i] == '>') depth--;
      else if (head[i] == ' ' && depth == 0) start = i + 1;
    }
    std::string q = head.substr(start);
    if (q.rfind("Eigen::", 0) == 0) inl = true;
    (void)has;
    for (int i = 3; i < argc; ++i) if (d.find(argv[i]) != std::string::npos) inl = false;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    if (inl) F.addFnAttr(Attribute::AlwaysInline); else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  for (auto& G : M->globals()) if (!G.isDeclaration()) { G.setComdat(nullptr); if (G.getName() != "llvm.global_ctors" && !G.hasLocalLinkage() && !G.hasAppendingLinkage()) G.setLinkage(GlobalValue::InternalLinkage); }
  for (auto& A : M->aliases()) A.setLinkage(GlobalValue::InternalLinkage);
  // Global constructors are executed by irvc explicitly: keep only their order.
  JA ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& e : arr->operands()) if (auto* s = dyn_cast<ConstantStruct>(e))
        if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back(f->getName().str());
    gc->eraseFromParent();
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    auto e = PB.parsePassPipeline(MPM,
      "globaldce,function(sroa),always-inline,globaldce,function(sroa,early-cse,instsimplify,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>,sroa,early-cse,instsimplify,adce,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>,loop-simplify),globaldce");
    if (e) { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  // export
  JO funcs, globals;
  std::set<const GlobalVariable*> gs;
  for (auto& G : M->globals()) {
    JO g{{"ty", tid(G.getValueType())}, {"const", G.isConstant()}, {"sz", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : (int64_t)0}};
    if (G.hasInitializer()) g["init"] = op(G.getInitializer(), nullptr);
    g["dem"] = demangle(G.getName().str());
    globals[G.getName().str()] = std::move(g);
  }
  for (auto& F : *M) {
    std::string name = F.getName().str();
    if (F.isIntrinsic() && false) continue;
    JO f{{"dem", demangle(name)}, {"ret", tid(F.getReturnType())}, {"decl", F.isDeclaration()}};
    if (F.isDeclaration()) { funcs[name] = std::move(f); continue; }
    FnCtx c; int n = 0;
    JA args;
    for (auto& a : F.args()) {
      c.ids[&a] = n; JO ao{{"id", n}, {"t", tid(a.getType())}, {"nm", a.getName().str()}}; n++;
      if (a.hasByValAttr()) ao["byval"] = tid(a.getParamByValType());
      if (a.hasStructRetAttr()) ao["sret"] = tid(a.getParamStructRetType());
      args.push_back(std::move(ao));
    }
    int b = 0;
    for (auto& B : F) { c.bbs[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) c.ids[&I] = n++; }
    f["args"] = std::move(args);
    f["nv"] = n;
    JA blocks; JA dbg;
    if (auto* sp = F.getSubprogram()) { f["file"] = sp->getFilename().str(); f["line"] = (int)sp->getLine(); }
    for (auto& B : F) {
      JA ins;
      for (auto& I : B) {
        if (auto* dd = dyn_cast<DbgVariableIntrinsic>(&I)) {
          auto* var = dd->getVariable();
          if (I.getDebugLoc() && I.getDebugLoc()->getInlinedAt()) continue;
          if (dd->getNumVariableLocationOps() != 1) continue;
          auto* v = dd->getVariableLocationOp(0);
          if (!v) continue;
          bool decl = isa<DbgDeclareInst>(dd);
          if (!decl && dd->getExpression()->getNumElements() != 0) {
            // dbg.value on an alloca with deref expression
            auto* ex = dd->getExpression();
            if (isa<AllocaInst>(v) && ex->startsWithDeref()) decl = true; else if (ex->isFragment() || true) continue;
          }
          dbg.push_back(JO{{"nm", var->getName().str()}, {"v", op(v, &c)}, {"decl", decl},
                           {"ty", diTypeName(var->getType())}, {"bb", c.bbs[&B]}, {"pos", (int64_t)ins.size()}, {"arg", (int)var->getArg()}});
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        JO o; o["o"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["r"] = c.ids[&I];
        o["t"] = tid(I.getType());
        if (I.getDebugLoc()) {
          o["ln"] = (int)I.getDebugLoc().getLine();
          // outermost scope's file
        }
        JA a;
        if (auto* x = dyn_cast<AllocaInst>(&I)) { o["at"] = tid(x->getAllocatedType()); o["sz"] = (int64_t)DL->getTypeAllocSize(x->getAllocatedType()); a.push_back(op(x->getArraySize(), &c)); }
        else if (auto* x = dyn_cast<GetElementPtrInst>(&I)) {
          a.push_back(op(x->getPointerOperand(), &c));
          JA steps;
          bool first = true; Type* cur = x->getSourceElementType();
          for (auto gi = gep_type_begin(x), ge = gep_type_end(x); gi != ge; ++gi) {
            if (auto* st = gi.getStructTypeOrNull()) {
              unsigned fi = cast<ConstantInt>(gi.getOperand())->getZExtValue();
              int64_t so = DL->getStructLayout(st)->getElementOffset(fi);
              if (so) steps.push_back(JA{"c", so});
              cur = st->getElementType(fi);
            } else {
              int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
              int64_t bound = -1;
              if (!first) if (auto* at = dyn_cast<ArrayType>(cur)) { bound = at->getNumElements(); cur = at->getElementType(); }
              auto* ci = dyn_cast<ConstantInt>(gi.getOperand());
              if (ci && bound < 0) { if (!ci->isZero()) steps.push_back(JA{"c", ci->getSExtValue() * sc}); }
              else steps.push_back(JA{"x", sc, op(gi.getOperand(), &c), bound});
            }
            first = false;
          }
          o["st"] = std::move(steps);
        } else if (auto* x = dyn_cast<PHINode>(&I)) {
          JA in;
          for (unsigned i = 0; i < x->getNumIncomingValues(); ++i) in.push_back(JA{c.bbs[x->getIncomingBlock(i)], op(x->getIncomingValue(i), &c)});
          o["in"] = std::move(in);
        } else if (auto* x = dyn_cast<BranchInst>(&I)) {
          if (x->isConditional()) a.push_back(op(x->getCondition(), &c));
          JA to; for (unsigned si = 0; si < x->getNumSuccessors(); ++si) to.push_back(c.bbs[x->getSuccessor(si)]);
          o["to"] = std::move(to);
        } else if (auto* x = dyn_cast<SwitchInst>(&I)) {
          a.push_back(op(x->getCondition(), &c));
          o["def"] = c.bbs[x->getDefaultDest()];
          JA cs; for (auto& k : x->cases()) cs.push_back(JA{k.getCaseValue()->getSExtValue(), c.bbs[k.getCaseSuccessor()]});
          o["cs"] = std::move(cs);
        } else if (auto* x = dyn_cast<CallBase>(&I)) {
          o["o"] = "call";
          if (auto* cf = dyn_cast<Function>(x->getCalledOperand()->stripPointerCasts())) o["fn"] = cf->getName().str();
          else if (auto* ga = dyn_cast<GlobalAlias>(x->getCalledOperand())) o["fn"] = ga->getAliasee()->stripPointerCasts()->getName().str();
          else o["cp"] = op(x->getCalledOperand(), &c);
          JA at;
          for (unsigned i = 0; i < x->arg_size(); ++i) { a.push_back(op(x->getArgOperand(i), &c)); at.push_back(tid(x->getArgOperand(i)->getType())); if (x->isByValArgument(i)) o["bv" + std::to_string(i)] = tid(x->getParamByValType(i)); }
          o["att"] = std::move(at);
        } else if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
          a.push_back(op(x->getAggregateOperand(), &c)); o["at"] = tid(x->getAggregateOperand()->getType());
          JA ix; for (auto i : x->indices()) ix.push_back((int)i); o["ix"] = std::move(ix);
        } else if (auto* x = dyn_cast<InsertValueInst>(&I)) {
          a.push_back(op(x->getAggregateOperand(), &c)); a.push_back(op(x->getInsertedValueOperand(), &c));
          JA ix; for (auto i : x->indices()) ix.push_back((int)i); o["ix"] = std::move(ix);
        } else {
          for (auto& u : I.operands()) a.push_back(op(u.get(), &c));
          if (auto* x = dyn_cast<CmpInst>(&I)) { o["p"] = CmpInst::getPredicateName(x->getPredicate()).str(); o["at"] = tid(x->getOperand(0)->getType()); }
          if (isa<CastInst>(&I)) o["at"] = tid(I.getOperand(0)->getType());
          if (auto* x = dyn_cast<StoreInst>(&I)) { o["at"] = tid(x->getValueOperand()->getType()); }
          if (auto* x = dyn_cast<OverflowingBinaryOperator>(&I)) o["fl"] = (x->hasNoSignedWrap() ? 1 : 0) | (x->hasNoUnsignedWrap() ? 2 : 0);
          if (auto* x = dyn_cast<AtomicRMWInst>(&I)) o["p"] = AtomicRMWInst::getOperationName(x->getOperation()).str();
        }
        o["a"] = std::move(a);
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    f["blocks"] = std::move(blocks);
    f["dbg"] = std::move(dbg);
    DominatorTree DT(F); LoopInfo LI(DT);
    JA loops;
    for (auto* L : LI.getLoopsInPreorder()) {
      JA bl; for (auto* B : L->blocks()) bl.push_back(c.bbs[B]);
      SmallVector<BasicBlock*, 4> la; L->getLoopLatches(la);
      JA lt; for (auto* B : la) lt.push_back(c.bbs[B]);
      int ln = 0; std::string fn;
      if (auto dl = L->getStartLoc()) { ln = dl.getLine(); if (auto* sc = dl->getScope()) fn = sc->getFilename().str(); }
      loops.push_back(JO{{"h", c.bbs[L->getHeader()]}, {"b", std::move(bl)}, {"lt", std::move(lt)}, {"ln", ln}, {"file", fn},
                         {"par", L->getParentLoop() ? c.bbs[L->getParentLoop()->getHeader()] : -1}});
    }
    f["loops"] = std::move(loops);
    funcs[name] = std::move(f);
  }
  JO out{{"types", std::move(types)}, {"globals", std::move(globals)}, {"funcs", std::move(funcs)}, {"ctors", std::move(ctors)}};
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << J(std::move(out));
  return 0;
}
