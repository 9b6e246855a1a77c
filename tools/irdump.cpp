// irdump: LLVM IR (text or bitcode) -> JSON, for the analyses in /verif/lib.
// Nothing is executed; this is a pure front end over the compiler's IR.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include <map>
#include <set>
#include <string>
#include <regex>
#include <fstream>
using namespace llvm;

static const DataLayout *DL;
struct FnCtx {
  std::map<const Value*, int> ids;
  std::map<const BasicBlock*, int> bbs;
};
static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static std::string apstr(const APInt &v) { SmallString<40> s; v.toStringSigned(s); return std::string(s.str()); }

static json::Value opnd(const Value *v, FnCtx &c);

static json::Value fpconst(const APFloat &f0) {
  APFloat f = f0; bool lost;
  if (&f.getSemantics() != &APFloat::IEEEdouble()) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
  char buf[64]; snprintf(buf, sizeof buf, "%a", f.convertToDouble());
  return json::Array{"f", std::string(buf)};
}
static json::Object gepObj(const GEPOperator *g, FnCtx &c) {
  unsigned bw = DL->getIndexSizeInBits(g->getPointerAddressSpace());
  MapVector<Value*, APInt> var; APInt off(bw, 0);
  json::Object o;
  o["base"] = opnd(g->getPointerOperand(), c);
  if (g->collectOffset(*DL, bw, var, off)) {
    o["off"] = (int64_t)off.getSExtValue();
    json::Array a;
    for (auto &p : var) a.push_back(json::Array{opnd(p.first, c), (int64_t)p.second.getSExtValue()});
    o["var"] = std::move(a);
  } else { o["bad"] = true; }
  o["sty"] = tyStr(g->getSourceElementType());
  return o;
}
static json::Value opnd(const Value *v, FnCtx &c) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) return json::Array{"c", apstr(ci->getValue()), (int64_t)ci->getBitWidth()};
  if (auto *cf = dyn_cast<ConstantFP>(v)) return fpconst(cf->getValueAPF());
  if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
  if (isa<PoisonValue>(v)) return json::Array{"poison"};
  if (isa<UndefValue>(v)) return json::Array{"undef"};
  if (auto *gv = dyn_cast<GlobalValue>(v)) return json::Array{"g", gv->getName().str()};
  if (isa<ConstantAggregateZero>(v)) return json::Array{"zero", tyStr(v->getType())};
  if (auto *ca = dyn_cast<ConstantDataSequential>(v)) {
    json::Array a; for (unsigned i = 0; i < ca->getNumElements(); ++i) a.push_back(opnd(ca->getElementAsConstant(i), c));
    return json::Array{"agg", std::move(a)};
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
    json::Array a; for (auto &op : ca->operands()) a.push_back(opnd(op.get(), c));
    return json::Array{"agg", std::move(a)};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { json::Object o = gepObj(g, c); return json::Array{"cgep", std::move(o)}; }
    json::Array a; for (auto &op : ce->operands()) a.push_back(opnd(op.get(), c));
    return json::Array{"ce", ce->getOpcodeName(), std::move(a)};
  }
  if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", c.bbs[bb]};
  auto it = c.ids.find(v);
  if (it != c.ids.end()) return json::Array{"v", it->second};
  return json::Array{"other", tyStr(v->getType())};
}

// irdump --mark in.ll out.ll regex...: functions whose demangled name matches become cut points
// (noinline, no inter-procedural inference), so that a later -O2 run keeps calls to them.
static int mark(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[2], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  std::vector<std::regex> rs; for (int i = 4; i < argc; ++i) rs.emplace_back(argv[i]);
  for (auto &F : *M) {
    std::string d = demangle(F.getName().str());
    for (auto &r : rs) if (std::regex_search(d, r)) {
      F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::InlineHint);
      F.addFnAttr(Attribute::NoInline);
      if (!F.isDeclaration()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
      outs() << d << "\n";
      break;
    }
  }
  std::error_code ec; raw_fd_ostream o(argv[3], ec); M->print(o, nullptr); return 0;
}
struct Simplify { // loop-simplify and lcssa, so that loops have one latch and values leave loops through phis only
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  FunctionPassManager FPM;
  Simplify() { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass()); }
  void run(Function &F) { FPM.run(F, FAM); FAM.clear(); }
};
int main(int argc, char **argv) {
  if (argc >= 4 && std::string(argv[1]) == "--mark") return mark(argc, argv);
  if (argc < 2) { errs() << "usage: irdump file.ll [--decls-only] [--prefix P]...\n"; return 2; }
  std::vector<std::string> prefixes; bool nobody = false, all = false;
  for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (a == "--prefix" && i + 1 < argc) prefixes.push_back(argv[++i]); if (a == "--decls-only") nobody = true; if (a == "--all") all = true; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  Simplify simp;
  json::Object root; json::Object gl; FnCtx none;
  for (auto &g : M->globals()) {
    json::Object o; o["linkage"] = (int64_t)g.getLinkage(); o["constant"] = g.isConstant(); o["decl"] = g.isDeclaration();
    o["local"] = g.hasLocalLinkage(); o["tls"] = g.isThreadLocal(); o["type"] = tyStr(g.getValueType()); o["dem"] = demangle(g.getName().str());
    o["weak"] = g.isWeakForLinker(); o["size"] = g.isDeclaration() ? -1 : (int64_t)DL->getTypeAllocSize(g.getValueType());
    SmallVector<DIGlobalVariableExpression*, 1> des; g.getDebugInfo(des);
    if (!des.empty()) { auto *d = des[0]->getVariable(); o["file"] = d->getFilename().str(); o["line"] = (int64_t)d->getLine(); }
    if (g.hasInitializer()) {
      if (auto *cd = dyn_cast<ConstantDataArray>(g.getInitializer())) if (cd->isString()) o["str"] = json::fixUTF8(cd->getAsString());
      if (!nobody && g.isConstant()) o["init"] = opnd(g.getInitializer(), none);
    }
    gl[g.getName().str()] = std::move(o);
  }
  root["globals"] = std::move(gl);
  json::Object fns;
  for (auto &F : *M) {
    json::Object fo; fo["dem"] = demangle(F.getName().str()); fo["decl"] = F.isDeclaration(); fo["linkage"] = (int64_t)F.getLinkage();
    fo["local"] = F.hasLocalLinkage(); fo["weak"] = F.isWeakForLinker();
    fo["readnone"] = F.doesNotAccessMemory(); fo["readonly"] = F.onlyReadsMemory(); fo["ret"] = tyStr(F.getReturnType());
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); fo["name"] = sp->getName().str(); }
    bool want = prefixes.empty() || all;
    for (auto &p : prefixes) if (F.getName().starts_with(p)) want = true;
    if (!F.isDeclaration() && !nobody && want) {
      simp.run(F);
      FnCtx c; int n = 0; for (auto &A : F.args()) c.ids[&A] = n++;
      json::Array ps; for (auto &A : F.args()) { json::Object p; p["ty"] = tyStr(A.getType()); p["name"] = A.getName().str(); p["sret"] = A.hasStructRetAttr(); p["byval"] = A.hasByValAttr(); ps.push_back(std::move(p)); }
      fo["params"] = std::move(ps);
      int b = 0; for (auto &B : F) { c.bbs[&B] = b++; for (auto &I : B) c.ids[&I] = n++; }
      json::Array blocks;
      for (auto &B : F) {
        json::Array insts;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object o; o["id"] = c.ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyStr(I.getType());
          if (auto &dl = I.getDebugLoc()) { o["line"] = (int64_t)dl.getLine(); if (auto *s = dyn_cast_or_null<DIScope>(dl.getScope())) o["file"] = s->getFilename().str(); }
          if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { json::Object go = gepObj(cast<GEPOperator>(g), c); for (auto &kv : go) o[kv.first] = std::move(kv.second); }
          else if (auto *cb = dyn_cast<CallBase>(&I)) {
            const Value *cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto *cf = dyn_cast<Function>(cv)) o["callee"] = cf->getName().str(); else o["callee_v"] = opnd(cv, c);
            json::Array a; for (auto &x : cb->args()) a.push_back(opnd(x.get(), c)); o["ops"] = std::move(a);
            o["readonly"] = cb->onlyReadsMemory(); o["readnone"] = cb->doesNotAccessMemory(); o["noreturn"] = cb->doesNotReturn();
            if (auto *inv = dyn_cast<InvokeInst>(&I)) { o["normal"] = c.bbs[inv->getNormalDest()]; o["unwind"] = c.bbs[inv->getUnwindDest()]; if (auto *lp = inv->getUnwindDest()->getLandingPadInst()) if (lp->getNumClauses() > 0) o["caught"] = true; }
          } else if (auto *ph = dyn_cast<PHINode>(&I)) {
            json::Array a; for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) a.push_back(json::Array{opnd(ph->getIncomingValue(i), c), c.bbs[ph->getIncomingBlock(i)]});
            o["inc"] = std::move(a);
          } else {
            json::Array a; for (auto &x : I.operands()) a.push_back(opnd(x.get(), c)); o["ops"] = std::move(a);
            if (auto *cm = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(cm->getPredicate()).str();
            if (auto *al = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(al->getAllocatedType()); auto sz = al->getAllocationSize(*DL); if (sz) o["size"] = (int64_t)sz->getFixedValue(); }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
            if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
            if (auto *sw = dyn_cast<SwitchInst>(&I)) { json::Array cs; for (auto &k : sw->cases()) cs.push_back(json::Array{apstr(k.getCaseValue()->getValue()), c.bbs[k.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["default"] = c.bbs[sw->getDefaultDest()]; }
            if (auto *ld = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(ld->getType());
            if (auto *st = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()); o["vty"] = tyStr(st->getValueOperand()->getType()); }
          }
          insts.push_back(std::move(o));
        }
        blocks.push_back(std::move(insts));
      }
      fo["blocks"] = std::move(blocks);
      DominatorTree DT(F); LoopInfo LI(DT); json::Array loops; std::map<const Loop*, int> li;
      for (auto *L : LI.getLoopsInPreorder()) {
        li[L] = (int)loops.size(); json::Object lo; lo["header"] = c.bbs[L->getHeader()]; lo["parent"] = L->getParentLoop() ? li[L->getParentLoop()] : -1;
        json::Array bs; for (auto *B : L->blocks()) bs.push_back(c.bbs[B]); lo["blocks"] = std::move(bs); loops.push_back(std::move(lo));
      }
      fo["loops"] = std::move(loops);
    }
    fns[F.getName().str()] = std::move(fo);
  }
  root["functions"] = std::move(fns);
  outs() << json::Value(std::move(root)) << "\n";
}
