/* irx: dumps a linked LLVM module (clang -O0, promoted to SSA) as JSON for the
 * Python analyses in /verif/qpsa.  It takes no decision of its own: functions,
 * control flow, instructions, constant-folded address arithmetic, debug types
 * and virtual tables are written out, nothing else. */
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, unsigned> ids;
static std::map<std::string,int> fileIdx;
static std::vector<std::string> files;

static std::string tyName(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return st->getName().str(); return "struct"; }
  std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}
static int fileId(StringRef f) {
  auto it = fileIdx.find(f.str());
  if (it != fileIdx.end()) return it->second;
  int n = files.size(); files.push_back(f.str()); fileIdx[f.str()] = n; return n;
}
static std::string diTypeName(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "...";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType(), depth+1) + "*";
      case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType(), depth+1) + "&";
      case dwarf::DW_TAG_const_type: { std::string b = diTypeName(d->getBaseType(), depth+1);
          if (!b.empty() && (b.back()=='*')) return b + "const"; return "const " + b; }
      case dwarf::DW_TAG_typedef: return diTypeName(d->getBaseType(), depth+1);
      case dwarf::DW_TAG_member: return diTypeName(d->getBaseType(), depth+1);
      default: return diTypeName(d->getBaseType(), depth+1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return diTypeName(c->getBaseType(), depth+1) + "[]";
    if (!c->getName().empty()) return c->getName().str();
    return c->getIdentifier().empty() ? "anon" : c->getIdentifier().str();
  }
  if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  if (isa<DISubroutineType>(t)) return "fn";
  return "?";
}
/* typedef name kept: spelled type */
static std::string diTypeSpelled(const DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag()==dwarf::DW_TAG_typedef) return d->getName().str();
    if (d->getTag()==dwarf::DW_TAG_const_type) return "const " + diTypeSpelled(d->getBaseType());
    if (d->getTag()==dwarf::DW_TAG_pointer_type) return diTypeSpelled(d->getBaseType()) + "*";
    if (d->getTag()==dwarf::DW_TAG_reference_type) return diTypeSpelled(d->getBaseType()) + "&";
  }
  return diTypeName(t);
}
static json::Value gepJ(const GEPOperator *g);
static json::Value constJ(const Constant *c, int depth);
static json::Value opnd(const Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    if (ci->getBitWidth() <= 64) return json::Value((ci->getBitWidth()==1) ? (int64_t)ci->getZExtValue() : ci->getSExtValue());
    return "big";
  }
  if (isa<ConstantPointerNull>(v)) return "null";
  if (isa<UndefValue>(v)) return "undef";
  if (auto *f = dyn_cast<ConstantFP>(v)) { SmallString<32> s; f->getValueAPF().toString(s); return "f:" + std::string(s.str()); }
  if (auto *gv = dyn_cast<GlobalValue>(v)) return "@" + gv->getName().str();
  if (auto *g = dyn_cast<GEPOperator>(v)) if (isa<ConstantExpr>(v)) return json::Array{"gep", gepJ(g)};
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (ce->isCast()) return opnd(ce->getOperand(0));
    return "constexpr";
  }
  if (isa<Constant>(v)) return "const";
  if (auto *mv = dyn_cast<MetadataAsValue>(v)) {
    if (auto *s = dyn_cast<MDString>(mv->getMetadata())) return "m:" + s->getString().str();
    return "md";
  }
  auto it = ids.find(v);
  if (it != ids.end()) return "%" + std::to_string(it->second);
  return "?";
}
static json::Value gepJ(const GEPOperator *g) {
  json::Object o;
  o["b"] = opnd(g->getPointerOperand());
  o["st"] = tyName(g->getSourceElementType());
  int64_t off = 0; json::Array var, sp;
  bool lastStruct = false;
  for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
    if (StructType *st = gi.getStructTypeOrNull()) {
      unsigned k = cast<ConstantInt>(gi.getOperand())->getZExtValue();
      int64_t fo = DL->getStructLayout(st)->getElementOffset(k);
      off += fo; sp.push_back(json::Array{tyName(st), fo}); lastStruct = true;
    } else {
      int64_t sz = gi.getSequentialElementStride(*DL).getFixedValue();
      if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) { off += ci->getSExtValue()*sz; if (!ci->isZero()) lastStruct=false; }
      else { var.push_back(json::Array{sz, opnd(gi.getOperand())}); lastStruct=false; }
    }
  }
  (void)lastStruct;
  o["off"] = off;
  if (!var.empty()) o["var"] = std::move(var);
  if (!sp.empty()) o["sp"] = std::move(sp);
  return o;
}
static json::Value constJ(const Constant *c, int depth) {
  if (depth > 6) return "deep";
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->isString()) { std::string s = cds->getAsString().str(); while (!s.empty() && s.back()==0) s.pop_back();
      return json::Array{"str", json::fixUTF8(s)}; }
    json::Array a; for (unsigned i=0;i<cds->getNumElements() && i<4096;i++) a.push_back(opnd(cds->getElementAsConstant(i))); return a;
  }
  if (isa<ConstantAggregateZero>(c)) return "zero";
  if (isa<ConstantAggregate>(c)) { json::Array a; for (auto &op : c->operands()) a.push_back(constJ(cast<Constant>(op), depth+1)); return a; }
  return opnd(c);
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irx in.bc out.json\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  if (argc > 3)   /* module tag: keeps internal symbols of different modules apart */
    for (GlobalValue &g : M->global_values())
      if (g.hasLocalLinkage() && g.hasName()) g.setName(g.getName() + "." + argv[3]);
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  if (ec) return 2;
  json::OStream J(out);
  J.objectBegin();
  J.attributeBegin("aliases"); J.objectBegin();
  for (auto &a : M->aliases()) if (auto *t = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) J.attribute(a.getName(), t->getName().str());
  J.objectEnd(); J.attributeEnd();
  /* debug types */
  DebugInfoFinder finder; finder.processModule(*M);
  J.attributeBegin("types"); J.arrayBegin();
  std::set<std::string> seenT;
  std::map<std::string, const DICompositeType*> enums;
  std::map<const DIType*, std::string> tdName;
  for (auto *t : finder.types())
    if (auto *d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType() && d->getBaseType()->getName().empty())
        tdName[d->getBaseType()] = d->getName().str();
  for (auto *t : finder.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type && !c->isForwardDecl()) { if (!c->getName().empty()) enums[c->getName().str()] = c; continue; }
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
    if (c->isForwardDecl()) continue;
    std::string nm = c->getName().str();
    if (nm.empty() && tdName.count(c)) nm = tdName[c];
    if (nm.empty()) nm = "anon:" + std::to_string(c->getLine());
    std::string scope; if (auto *s = dyn_cast_or_null<DINamespace>(c->getScope())) scope = s->getName().str();
    std::string key = scope + "::" + nm + "@" + c->getIdentifier().str();
    if (!seenT.insert(key).second) continue;
    J.objectBegin();
    J.attribute("name", nm); J.attribute("scope", scope);
    J.attribute("size", (int64_t)(c->getSizeInBits()/8));
    J.attribute("file", c->getFile()? fileId(c->getFilename()) : -1);
    J.attribute("line", (int64_t)c->getLine());
    J.attribute("kind", c->getTag()==dwarf::DW_TAG_class_type ? "class":"struct");
    J.attributeBegin("mem"); J.arrayBegin();
    for (auto *e : c->getElements()) {
      if (auto *d = dyn_cast<DIDerivedType>(e)) {
        if (d->isStaticMember()) continue;
        bool inh = d->getTag()==dwarf::DW_TAG_inheritance;
        if (!inh && d->getTag()!=dwarf::DW_TAG_member) continue;
        J.objectBegin();
        J.attribute("n", d->getName().str()); J.attribute("off", (int64_t)(d->getOffsetInBits()/8));
        J.attribute("t", diTypeName(d->getBaseType())); J.attribute("sp", diTypeSpelled(d->getBaseType()));
        int64_t sz = d->getSizeInBits()/8;
        if (inh && d->getBaseType()) sz = d->getBaseType()->getSizeInBits()/8;
        J.attribute("sz", sz);
        J.attribute("base", inh); J.attribute("virt", (bool)(d->getFlags() & DINode::FlagVirtual));
        J.attribute("line", (int64_t)d->getLine());
        J.attribute("acc", (int64_t)(d->getFlags() & DINode::FlagAccessibility));
        J.objectEnd();
      }
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("methods"); J.arrayBegin();
    for (auto *e : c->getElements()) if (auto *sp = dyn_cast<DISubprogram>(e)) {
        J.objectBegin(); J.attribute("n", sp->getName().str()); J.attribute("ln", sp->getLinkageName().str());
        J.attribute("acc", (int64_t)(sp->getFlags() & DINode::FlagAccessibility));
        J.attribute("art", (bool)(sp->getFlags() & DINode::FlagArtificial));
        J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("enums"); J.objectBegin();
  for (auto &p : enums) {
    J.attributeBegin(p.first); J.arrayBegin();
    for (auto *e : p.second->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) {
      J.arrayBegin(); J.value(en->getName().str()); J.value((int64_t)en->getValue().getSExtValue()); J.arrayEnd(); }
    J.arrayEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  /* globals */
  J.attributeBegin("globals"); J.arrayBegin();
  for (auto &g : M->globals()) {
    J.objectBegin();
    J.attribute("n", g.getName().str()); J.attribute("dem", demangle(g.getName().str()));
    J.attribute("const", g.isConstant()); J.attribute("decl", g.isDeclaration());
    J.attribute("t", tyName(g.getValueType())); J.attribute("internal", g.hasLocalLinkage()); J.attribute("tls", g.isThreadLocal());
    SmallVector<DIGlobalVariableExpression*, 1> gves; g.getDebugInfo(gves);
    if (!gves.empty()) { auto *gv = gves[0]->getVariable();
      J.attribute("dn", gv->getName().str()); J.attribute("line", (int64_t)gv->getLine()); J.attribute("file", fileId(gv->getFilename()));
      J.attribute("dt", diTypeName(gv->getType()));
      if (auto *ls = dyn_cast_or_null<DISubprogram>(gv->getScope())) J.attribute("infn", ls->getName().str()); }
    if (g.hasInitializer()) { J.attributeBegin("init"); J.value(constJ(g.getInitializer(), 0)); J.attributeEnd(); }
    SmallVector<MDNode*, 4> tms; g.getMetadata(LLVMContext::MD_type, tms);
    if (!tms.empty()) { J.attributeBegin("vt"); J.arrayBegin();
      for (auto *m : tms) { J.arrayBegin();
        J.value((int64_t)mdconst::extract<ConstantInt>(m->getOperand(0))->getZExtValue());
        if (auto *s = dyn_cast<MDString>(m->getOperand(1))) J.value(s->getString().str()); else J.value("?");
        J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd(); }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  /* functions */
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    ids.clear(); unsigned n = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    std::map<const BasicBlock*, unsigned> bbs; unsigned nb = 0;
    for (auto &B : F) { bbs[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    J.objectBegin();
    J.attribute("n", F.getName().str()); J.attribute("dem", demangle(F.getName().str()));
    J.attribute("decl", F.isDeclaration()); J.attribute("internal", F.hasLocalLinkage());
    J.attribute("linkonce", F.hasLinkOnceLinkage()||F.hasWeakLinkage());
    J.attribute("noret", F.doesNotReturn());
    J.attribute("nargs", (int64_t)F.arg_size());
    J.attribute("rt", tyName(F.getReturnType()));
    std::map<unsigned, std::pair<std::string,const DIType*>> argInfo;
    if (auto *sp = F.getSubprogram()) {
      J.attribute("file", fileId(sp->getFilename())); J.attribute("line", (int64_t)sp->getLine());
      const DISubprogram *d = sp->getDeclaration() ? sp->getDeclaration() : sp;
      J.attribute("acc", (int64_t)(d->getFlags() & DINode::FlagAccessibility));
      J.attribute("sn", sp->getName().str());
      if (auto *ct = dyn_cast_or_null<DICompositeType>(d->getScope())) { J.attribute("cls", ct->getName().str());
         J.attribute("clskind", ct->getTag()==dwarf::DW_TAG_class_type ? "class":"struct"); }
      J.attributeBegin("sig"); J.arrayBegin();
      for (auto *t : sp->getType()->getTypeArray()) { J.value(diTypeName(t)); }
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("sigsp"); J.arrayBegin();
      for (auto *t : sp->getType()->getTypeArray()) { J.value(diTypeSpelled(t)); }
      J.arrayEnd(); J.attributeEnd();
    }
    std::map<unsigned, std::string> names; std::map<unsigned, std::string> argNames, argTy;
    for (auto &B : F) for (auto &I : B) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
      auto *var = dv->getVariable();
      for (auto *v : dv->location_ops()) if (v && ids.count(v)) {
        if (!names.count(ids[v])) names[ids[v]] = var->getName().str();
        if (isa<AllocaInst>(v)) argTy[ids[v]] = diTypeName(var->getType());
      }
      if (var->getArg()) argNames[var->getArg()] = var->getName().str();
    }
    J.attributeBegin("anames"); J.objectBegin(); for (auto &p : argNames) J.attribute(std::to_string(p.first), p.second); J.objectEnd(); J.attributeEnd();
    J.attributeBegin("names"); J.objectBegin(); for (auto &p : names) J.attribute(std::to_string(p.first), p.second); J.objectEnd(); J.attributeEnd();
    J.attributeBegin("lty"); J.objectBegin(); for (auto &p : argTy) J.attribute(std::to_string(p.first), p.second); J.objectEnd(); J.attributeEnd();
    J.attributeBegin("atypes"); J.arrayBegin(); for (auto &a : F.args()) { std::string s = tyName(a.getType()); if (a.hasStructRetAttr()) s = "sret"; J.value(s); } J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("bbs"); J.arrayBegin();
    for (auto &B : F) {
      J.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto id = ii->getIntrinsicID();
          if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume) continue;
        }
        J.objectBegin();
        J.attribute("o", I.getOpcodeName());
        if (!I.getType()->isVoidTy()) { J.attribute("i", (int64_t)ids[&I]); J.attribute("t", tyName(I.getType())); }
        if (const DebugLoc &dl = I.getDebugLoc()) { J.attribute("l", (int64_t)dl.getLine());
          auto *sc = dyn_cast<DIScope>(dl.getScope()); if (sc) J.attribute("f", fileId(sc->getFilename())); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { J.attributeBegin("g"); J.value(gepJ(cast<GEPOperator>(g))); J.attributeEnd(); }
        else if (auto *p = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("in"); J.arrayBegin();
          for (unsigned k=0;k<p->getNumIncomingValues();k++) { J.arrayBegin(); J.value(opnd(p->getIncomingValue(k))); J.value((int64_t)bbs[p->getIncomingBlock(k)]); J.arrayEnd(); }
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *c = dyn_cast<CallBase>(&I)) {
          J.attributeBegin("c"); J.value(opnd(c->getCalledOperand()->stripPointerCasts())); J.attributeEnd();
          J.attributeBegin("a"); J.arrayBegin(); for (auto &a : c->args()) J.value(opnd(a.get())); J.arrayEnd(); J.attributeEnd();
        } else if (auto *b = dyn_cast<BranchInst>(&I)) {
          if (b->isConditional()) { J.attributeBegin("a"); J.arrayBegin(); J.value(opnd(b->getCondition())); J.arrayEnd(); J.attributeEnd(); }
          J.attributeBegin("s"); J.arrayBegin(); for (unsigned k=0;k<b->getNumSuccessors();k++) J.value((int64_t)bbs[b->getSuccessor(k)]); J.arrayEnd(); J.attributeEnd();
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          J.attributeBegin("a"); J.arrayBegin(); J.value(opnd(s->getCondition())); J.arrayEnd(); J.attributeEnd();
          J.attribute("def", (int64_t)bbs[s->getDefaultDest()]);
          J.attributeBegin("cs"); J.arrayBegin(); for (auto &cs : s->cases()) { J.arrayBegin(); J.value(cs.getCaseValue()->getSExtValue()); J.value((int64_t)bbs[cs.getCaseSuccessor()]); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd();
        } else {
          if (auto *ci = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(ci->getPredicate()));
          if (auto *al = dyn_cast<AllocaInst>(&I)) { J.attribute("at", tyName(al->getAllocatedType())); }
          if (auto *st = dyn_cast<StoreInst>(&I)) J.attribute("vt", tyName(st->getValueOperand()->getType()));
          J.attributeBegin("a"); J.arrayBegin(); for (auto &a : I.operands()) J.value(opnd(a.get())); J.arrayEnd(); J.attributeEnd();
        }
        J.objectEnd();
      }
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("files"); J.arrayBegin(); for (auto &f : files) J.value(f); J.arrayEnd(); J.attributeEnd();
  J.objectEnd();
  return 0;
}
