// irdump: prints an LLVM bitcode module as JSON for the Python analyses.
// Usage: irdump module.bc ROOT_PREFIX > out.json
// ROOT_PREFIX: functions whose debug info lies under this directory are roots;
// only what is reachable from them (by any reference) is printed.
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;

static void str(StringRef s) {
  O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') O << '\\' << c;
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      O << b;
    } else O << c;
  }
  O << '"';
}
static std::string tyname(Type *t) {
  std::string s;
  raw_string_ostream r(s);
  t->print(r, false, true);
  return r.str();
}
static std::string fileOf(const DIFile *f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return f->getDirectory().str() + "/" + n;
}

struct FnCtx {
  DenseMap<const Value *, int> id;
  DenseMap<const BasicBlock *, int> bb;
};

static void constant(const Constant *c);
static void gepParts(const GEPOperator *g, FnCtx *fc);
static void operand(const Value *v, FnCtx *fc) {
  if (auto *c = dyn_cast<Constant>(v)) { constant(c); return; }
  if (auto *b = dyn_cast<BasicBlock>(v)) { O << "[\"b\"," << fc->bb[b] << "]"; return; }
  if (auto *m = dyn_cast<MetadataAsValue>(v)) {
    if (auto *s = dyn_cast<MDString>(m->getMetadata())) { O << "[\"md\","; str(s->getString()); O << "]"; }
    else O << "[\"md\",\"\"]";
    return;
  }
  if (isa<InlineAsm>(v)) { O << "[\"asm\"]"; return; }
  O << "[\"i\"," << fc->id[v] << "]";
}
static void constant(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s;
    i->getValue().toStringSigned(s);
    O << "[\"c\"," << s << "," << i->getBitWidth() << "]";
  } else if (isa<ConstantPointerNull>(c)) O << "[\"n\"]";
  else if (isa<UndefValue>(c)) O << "[\"u\"]";
  else if (auto *f = dyn_cast<ConstantFP>(c)) {
    SmallString<40> s;
    f->getValueAPF().toString(s);
    O << "[\"f\","; str(s); O << "]";
  } else if (isa<ConstantAggregateZero>(c)) O << "[\"z\"," << DL->getTypeAllocSize(c->getType()).getFixedValue() << "]";
  else if (auto *g = dyn_cast<GlobalValue>(c)) { O << "[\"g\","; str(g->getName()); O << "]"; }
  else if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) { O << "[\"ce\",\"gep\","; gepParts(g, nullptr); O << "]"; }
    else {
      O << "[\"ce\","; str(e->getOpcodeName());
      for (auto &op : e->operands()) { O << ","; constant(cast<Constant>(op)); }
      O << "]";
    }
  } else if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString()) { O << "[\"s\","; str(d->getAsString()); O << "]"; }
    else {
      O << "[\"a\"";
      for (unsigned i = 0; i < d->getNumElements(); i++) { O << ","; constant(d->getElementAsConstant(i)); }
      O << "]";
    }
  } else if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    O << "[\"a\"";
    for (auto &op : a->operands()) { O << ","; constant(cast<Constant>(op)); }
    O << "]";
  } else O << "[\"u\"]";
}
static void gepParts(const GEPOperator *g, FnCtx *fc) {
  MapVector<Value *, APInt> var;
  APInt off(64, 0);
  operand(g->getPointerOperand(), fc);
  if (!g->collectOffset(*DL, 64, var, off)) { O << ",null,[]"; return; }
  O << "," << off.getSExtValue() << ",[";
  bool first = true;
  for (auto &p : var) {
    if (!first) O << ",";
    first = false;
    O << "["; operand(p.first, fc); O << "," << p.second.getSExtValue() << "]";
  }
  O << "]";
}

static void inst(const Instruction &I, FnCtx &fc) {
  O << "{\"o\":"; str(I.getOpcodeName());
  if (!I.getType()->isVoidTy()) O << ",\"i\":" << fc.id[&I];
  if (!I.getType()->isVoidTy()) { O << ",\"t\":"; str(tyname(I.getType())); }
  if (const DILocation *l = I.getDebugLoc()) {
    O << ",\"l\":" << l->getLine();
  }
  if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
    if (ob->hasNoSignedWrap()) O << ",\"nsw\":1";
  }
  if (auto *a = dyn_cast<AllocaInst>(&I)) {
    O << ",\"ty\":"; str(tyname(a->getAllocatedType()));
    O << ",\"sz\":" << DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
  } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    O << ",\"g\":["; gepParts(cast<GEPOperator>(g), &fc); O << "]";
  } else if (auto *p = dyn_cast<PHINode>(&I)) {
    O << ",\"in\":[";
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
      if (i) O << ",";
      O << "["; operand(p->getIncomingValue(i), &fc); O << "," << fc.bb[p->getIncomingBlock(i)] << "]";
    }
    O << "]";
  } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
    O << ",\"a\":["; operand(s->getCondition(), &fc); O << "],\"def\":" << fc.bb[s->getDefaultDest()] << ",\"cs\":[";
    bool first = true;
    for (auto &c : s->cases()) {
      if (!first) O << ",";
      first = false;
      O << "[" << c.getCaseValue()->getSExtValue() << "," << fc.bb[c.getCaseSuccessor()] << "]";
    }
    O << "]";
  } else if (auto *c = dyn_cast<CallBase>(&I)) {
    O << ",\"f\":"; operand(c->getCalledOperand(), &fc);
    O << ",\"a\":[";
    for (unsigned i = 0; i < c->arg_size(); i++) { if (i) O << ","; operand(c->getArgOperand(i), &fc); }
    O << "]";
    for (unsigned i = 0; i < c->arg_size(); i++)
      if (c->isByValArgument(i)) O << ",\"byval" << i << "\":" << DL->getTypeAllocSize(c->getParamByValType(i)).getFixedValue();
    if (c->arg_size() && c->paramHasAttr(0, Attribute::StructRet)) O << ",\"sret\":1";
    if (auto *v = dyn_cast<InvokeInst>(c)) O << ",\"n\":" << fc.bb[v->getNormalDest()];
    if (c->doesNotReturn()) O << ",\"nr\":1";
  } else if (auto *b = dyn_cast<BranchInst>(&I)) {
    if (b->isConditional()) {
      O << ",\"a\":["; operand(b->getCondition(), &fc); O << "],\"s\":[" << fc.bb[b->getSuccessor(0)] << "," << fc.bb[b->getSuccessor(1)] << "]";
    } else O << ",\"s\":[" << fc.bb[b->getSuccessor(0)] << "]";
  } else {
    O << ",\"a\":[";
    for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; operand(I.getOperand(i), &fc); }
    O << "]";
    if (auto *c = dyn_cast<CmpInst>(&I)) { O << ",\"p\":"; str(CmpInst::getPredicateName(c->getPredicate())); O << ",\"ot\":"; str(tyname(c->getOperand(0)->getType())); }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { O << ",\"x\":["; bool f = true; for (auto i : e->indices()) { if (!f) O << ","; f = false; O << i; } O << "]"; }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) { O << ",\"x\":["; bool f = true; for (auto i : e->indices()) { if (!f) O << ","; f = false; O << i; } O << "]"; }
    if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { O << ",\"op\":"; str(AtomicRMWInst::getOperationName(r->getOperation())); }
    if (I.isAtomic()) O << ",\"atomic\":1";
    if (isa<StoreInst>(I)) { O << ",\"vt\":"; str(tyname(I.getOperand(0)->getType())); }
    if (isa<CastInst>(I)) { O << ",\"st\":"; str(tyname(I.getOperand(0)->getType())); }
  }
  O << "}";
}

static std::string ditype(const DIType *t, int depth = 0) {
  if (!t || depth > 8) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_reference_type: return ditype(d->getBaseType(), depth + 1) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return ditype(d->getBaseType(), depth + 1) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + ditype(d->getBaseType(), depth + 1);
      case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(d->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: return ditype(d->getBaseType(), depth + 1);
      case dwarf::DW_TAG_ptr_to_member_type: return "memptr";
      default: return ditype(d->getBaseType(), depth + 1);
    }
  }
  if (isa<DISubroutineType>(t)) return "fn";
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return ditype(c->getBaseType(), depth + 1) + "[]";
    if (!c->getIdentifier().empty()) {
      std::string m = c->getIdentifier().str();
      if (m.rfind("_ZTS", 0) == 0) {
        std::string d = demangle(m);  // "typeinfo name for X"
        auto p = d.find("typeinfo name for ");
        if (p == 0) return d.substr(18);
      }
      return m;
    }
  }
  std::string n = t->getName().str();
  for (const DIScope *s = t->getScope(); s; s = s->getScope()) {
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
    if (auto *st = dyn_cast<DIType>(s)) { n = ditype(st, depth + 1) + "::" + n; break; }
    if (auto *ns = dyn_cast<DINamespace>(s)) { if (!ns->getExportSymbols() || !ns->getName().empty()) n = (ns->getName().empty() ? std::string("(anonymous namespace)") : ns->getName().str()) + "::" + n; }
  }
  return n;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::vector<std::string> roots;
  for (int i = 2; i < argc; i++) roots.push_back(argv[i]);
  auto inRoot = [&](const std::string &f) {
    for (auto &r : roots) if (f.rfind(r, 0) == 0) return true;
    return false;
  };
  std::set<const GlobalValue *> seen;
  std::deque<const GlobalValue *> work;
  auto push = [&](const GlobalValue *g) { if (seen.insert(g).second) work.push_back(g); };
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (auto *sp = F.getSubprogram()) if (inRoot(fileOf(sp->getFile()))) push(&F);
  }
  std::vector<const Constant *> cst;
  std::set<const Constant *> cseen;
  while (!work.empty()) {
    auto *g = work.front();
    work.pop_front();
    auto visit = [&](const Value *v) {
      if (auto *c = dyn_cast<Constant>(v)) if (cseen.insert(c).second) cst.push_back(c);
      while (!cst.empty()) {
        auto *c = cst.back();
        cst.pop_back();
        if (auto *gg = dyn_cast<GlobalValue>(c)) { push(gg); continue; }
        for (auto &op : c->operands()) if (auto *cc = dyn_cast<Constant>(op)) if (cseen.insert(cc).second) cst.push_back(cc);
      }
    };
    if (auto *F = dyn_cast<Function>(g)) {
      for (auto &B : *F) for (auto &I : B) for (auto &op : I.operands()) visit(op);
    } else if (auto *V = dyn_cast<GlobalVariable>(g)) {
      if (V->hasInitializer()) visit(V->getInitializer());
    } else if (auto *A = dyn_cast<GlobalAlias>(g)) visit(A->getAliasee());
  }
  O << "{\"functions\":{";
  bool first = true;
  for (auto &F : *M) {
    if (!seen.count(&F)) continue;
    if (!first) O << ",\n";
    first = false;
    str(F.getName());
    O << ":{\"dem\":"; str(demangle(F.getName().str()));
    O << ",\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"rt\":"; str(tyname(F.getReturnType()));
    if (F.hasParamAttribute(0, Attribute::StructRet)) O << ",\"sret\":1";
    if (F.doesNotReturn()) O << ",\"nr\":1";
    if (auto *sp = F.getSubprogram()) {
      O << ",\"file\":"; str(fileOf(sp->getFile()));
      O << ",\"line\":" << sp->getLine();
      O << ",\"name\":"; str(sp->getName());
      if (inRoot(fileOf(sp->getFile()))) O << ",\"root\":1";
      O << ",\"pt\":[";
      if (auto *st = sp->getType()) {
        bool f = true;
        for (auto t : st->getTypeArray()) { if (!f) O << ","; f = false; str(ditype(t)); }
      }
      O << "]";
    }
    FnCtx fc;
    int n = 0, b = 0;
    for (auto &A : F.args()) fc.id[&A] = n++;
    O << ",\"na\":" << n << ",\"at\":[";
    { bool f = true; for (auto &A : F.args()) { if (!f) O << ","; f = false; str(tyname(A.getType())); } }
    O << "],\"an\":[";
    // names of the source parameters, from dbg.declare of their spill slots
    { std::map<int,std::string> nm; for (auto &B : F) for (auto &I : B) if (auto *d = dyn_cast<DbgDeclareInst>(&I)) if (auto *lv = d->getVariable()) if (lv->getArg() && !I.getDebugLoc()->getInlinedAt()) nm[lv->getArg()] = lv->getName().str();
      bool f = true; for (auto &p : nm) { if (!f) O << ","; f = false; O << "[" << p.first << ","; str(p.second); O << "]"; } }
    O << "],\"blocks\":[";
    for (auto &B : F) { fc.bb[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) fc.id[&I] = n++; }
    bool fb = true;
    for (auto &B : F) {
      if (!fb) O << ",\n";
      fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd()) continue;
        if (!fi) O << ",\n ";
        fi = false;
        inst(I, fc);
      }
      O << "]";
    }
    O << "]}";
  }
  O << "},\n\"globals\":{";
  first = true;
  for (auto &G : M->globals()) {
    if (!seen.count(&G)) continue;
    if (!first) O << ",\n";
    first = false;
    str(G.getName());
    O << ":{\"dem\":"; str(demangle(G.getName().str()));
    O << ",\"const\":" << (G.isConstant() ? 1 : 0) << (G.isThreadLocal() ? ",\"tls\":1" : "") << ",\"ty\":"; str(tyname(G.getValueType()));
    if (G.hasInitializer()) { O << ",\"init\":"; constant(G.getInitializer()); }
    O << "}";
  }
  O << "},\n\"aliases\":{";
  first = true;
  for (auto &A : M->aliases()) {
    if (!seen.count(&A)) continue;
    if (!first) O << ",";
    first = false;
    str(A.getName()); O << ":"; constant(A.getAliasee());
  }
  O << "},\n\"types\":{";
  first = true;
  DebugInfoFinder fd;
  fd.processModule(*M);
  std::set<std::string> tseen;
  for (auto *t : fd.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl()) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      std::string nm = ditype(c);
      if (nm.rfind("google::", 0) != 0 || !tseen.insert(nm).second) continue;
      if (!first) O << ",\n";
      first = false;
      str(nm); O << ":{\"enum\":{";
      bool f = true;
      for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) {
        if (!f) O << ","; f = false;
        str(en->getName()); O << ":" << en->getValue().getSExtValue();
      }
      O << "}}";
      continue;
    }
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
    std::string nm = ditype(c);
    if (!tseen.insert(nm).second) continue;
    if (!first) O << ",\n";
    first = false;
    str(nm);
    O << ":{\"size\":" << c->getSizeInBits() / 8 << ",\"file\":"; str(fileOf(c->getFile()));
    O << ",\"m\":[";
    bool f = true;
    for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) {
      if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
        if (!f) O << ","; f = false;
        O << "[" << d->getOffsetInBits() / 8 << ","; str(d->getName()); O << ","; str(ditype(d->getBaseType())); O << "," << d->getSizeInBits() / 8 << "]";
      }
    }
    O << "],\"b\":[";
    f = true;
    for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_inheritance) {
      if (!f) O << ","; f = false;
      O << "[" << d->getOffsetInBits() / 8 << ","; str(ditype(d->getBaseType())); O << "]";
    }
    O << "],\"v\":{";
    f = true;
    for (auto *e : c->getElements()) if (auto *s = dyn_cast<DISubprogram>(e)) if (s->getVirtuality()) {
      bool dtor = s->getName().starts_with("~");
      if (!f) O << ","; f = false;
      O << "\"" << s->getVirtualIndex() << "\":["; str(s->getName()); O << ","; str(s->getLinkageName()); O << "]";
      if (dtor) {}
    }
    O << "}}";
  }
  O << "}}\n";
  return 0;
}
