#include "core.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/CaptureTracking.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"

namespace va {

bool isDbg(const Instruction &I) {
  if (isa<DbgInfoIntrinsic>(I)) return true;
  if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: return true;
    default: return false;
    }
  }
  return false;
}

const Function *calleeOf(const CallBase *C) {
  return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
}

std::string locOf(const Instruction *I, unsigned *line, std::string *file, std::string *func) {
  const DebugLoc &DL = I->getDebugLoc();
  unsigned l = 0;
  std::string f = "?", fn = I->getFunction()->getName().str();
  if (DL) {
    l = DL.getLine();
    f = DL->getFilename().str();
    if (auto *SP = DL->getScope()->getSubprogram()) fn = SP->getName().str();
  }
  size_t p = f.rfind('/');
  if (p != std::string::npos) f = f.substr(p + 1);
  if (line) *line = l;
  if (file) *file = f;
  if (func) *func = fn;
  return f + ":" + std::to_string(l);
}

std::vector<std::string> traceLines(const TraceP &t, unsigned max) {
  std::vector<std::string> r;
  for (Trace *p = t.get(); p && r.size() < max; p = p->prev.get())
    r.push_back("line " + std::to_string(p->line) + ": " + p->msg);
  std::reverse(r.begin(), r.end());
  return r;
}

void Program::load(const std::string &file) {
  SMDiagnostic err;
  M = parseIRFile(file, err, ctx);
  if (!M) { err.print("vtool", errs()); exit(3); }
  keyNames.push_back("?"); keyTypes.push_back(nullptr);
}

void Program::prepare(const StringSet<> &baseline, const StringSet<> &keep, unsigned smallLimit) {
  for (auto &b : baseline) this->baseline.insert(b.getKey());
  // find recursion
  std::set<Function *> rec;
  {
    CallGraph CG(*M);
    for (Function &F : *M) {
      if (F.isDeclaration()) continue;
      // reachability of itself
      std::set<CallGraphNode *> seen; std::vector<CallGraphNode *> wl{CG[&F]};
      bool r = false; unsigned n = 0;
      bool candidate = F.hasLocalLinkage() || F.hasLinkOnceLinkage() || F.hasAvailableExternallyLinkage();
      if (!candidate) continue;
      unsigned ic = 0;
      for (auto &I : instructions(F)) if (!isDbg(I)) ic++;
      if (baseline.count(F.getName()) && ic > smallLimit * 6) continue;
      while (!wl.empty() && !r && n++ < 20000) {
        auto *N = wl.back(); wl.pop_back();
        for (auto &e : *N) {
          auto *c = e.second; if (!c->getFunction()) continue;
          if (c->getFunction() == &F) { r = true; break; }
          if (seen.insert(c).second) wl.push_back(c);
        }
      }
      if (r) rec.insert(&F);
    }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  for (Function &F : *M) {
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
  }
  { // first clean-up round, so instruction counts are meaningful
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(lower-expect,sroa<preserve-cfg>)")) { errs() << toString(std::move(e)); exit(3); }
    MPM.run(*M, MAM);
  }
  for (Function &F : *M) {
    if (F.isDeclaration() || F.isVarArg() || rec.count(&F) || keep.count(F.getName())) continue;
    if (!(F.hasLocalLinkage() || F.hasLinkOnceLinkage())) continue;
    if (F.hasAddressTaken()) continue;
    unsigned ic = 0;
    for (auto &I : instructions(F)) if (!isDbg(I)) ic++;
    bool known = baseline.count(F.getName());
    if (!known) F.addFnAttr(Attribute::AlwaysInline);
  }
  // `inline` helpers of C++ keep their own identity unless small
  {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "always-inline,function(sroa<preserve-cfg>)")) { errs() << toString(std::move(e)); exit(3); }
    MPM.run(*M, MAM);
  }
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    // drop unreachable blocks and glue straight-line chains
    EliminateUnreachableBlocks(F);
    for (auto it = F.begin(); it != F.end();) {
      BasicBlock *B = &*it++;
      MergeBlockIntoPredecessor(B);
    }
  }
  index();
}

const DIType *stripTD(const DIType *t, StringRef *last) {
  while (t) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) break;
    unsigned tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef) { if (last) *last = d->getName(); t = d->getBaseType(); continue; }
    if (tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_atomic_type ||
        tag == dwarf::DW_TAG_restrict_type || tag == dwarf::DW_TAG_member) { t = d->getBaseType(); continue; }
    break;
  }
  return t;
}

static StringRef compName(const DICompositeType *c, StringRef td) {
  if (!c->getName().empty()) return c->getName();
  return td;
}

// Finds the leaf at byte offset off. path = full path; cls = "innermost named struct.member path"
bool findMember(const DICompositeType *c, uint64_t off, uint64_t size, std::string &path, std::string &cls,
                const DIType *&leaf, StringRef tname) {
  unsigned tag = c->getTag();
  if (tag == dwarf::DW_TAG_array_type) {
    StringRef td;
    const DIType *e = stripTD(c->getBaseType(), &td);
    if (!e) return false;
    uint64_t es = e->getSizeInBits() / 8;
    path += "[]"; cls += "[]";
    if (auto *ec = dyn_cast<DICompositeType>(e)) {
      if (es && (ec->getTag() == dwarf::DW_TAG_structure_type || ec->getTag() == dwarf::DW_TAG_union_type)) {
        if (size >= es && off % es == 0) { leaf = e; return true; }
        StringRef nm = compName(ec, td);
        if (!nm.empty()) cls = nm.str();
        return findMember(ec, off % es, size, path, cls, leaf, td);
      }
      if (ec->getTag() == dwarf::DW_TAG_array_type) return findMember(ec, es ? off % es : 0, size, path, cls, leaf, td);
    }
    leaf = c->getBaseType();
    return true;
  }
  const DIDerivedType *best = nullptr;
  int bestScore = -1;
  for (auto *n : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(n);
    if (!m || (m->getTag() != dwarf::DW_TAG_member && m->getTag() != dwarf::DW_TAG_inheritance)) continue;
    if (m->isStaticMember()) continue;
    uint64_t mo = m->getOffsetInBits() / 8, ms = m->getSizeInBits() / 8;
    if (ms == 0) { // flexible array
      if (off >= mo) { if (bestScore < 0) { best = m; bestScore = 0; } }
      continue;
    }
    if (off >= mo && off < mo + ms) {
      int score = 1;
      if (off == mo) score++;
      if (size && off + size <= mo + ms) score += 2;
      const DIType *mt = stripTD(m->getBaseType());
      bool scal = mt && !isa<DICompositeType>(mt);
      if (size && off == mo && ms == size) score += scal ? 3 : 2;
      if (score > bestScore) { best = m; bestScore = score; }
    }
  }
  if (!best) return false;
  uint64_t mo = best->getOffsetInBits() / 8;
  StringRef td;
  const DIType *mt = stripTD(best->getBaseType(), &td);
  if (!best->getName().empty()) { path += "." + best->getName().str(); cls += "." + best->getName().str(); }
  if (auto *mc = dyn_cast_or_null<DICompositeType>(mt)) {
    unsigned t2 = mc->getTag();
    if (t2 == dwarf::DW_TAG_structure_type || t2 == dwarf::DW_TAG_union_type || t2 == dwarf::DW_TAG_class_type) {
      uint64_t cs = mc->getSizeInBits() / 8;
      if (size && size >= cs && off == mo && cs != 0 && cs > 8) { leaf = best->getBaseType(); return true; }
      StringRef nm = compName(mc, td);
      std::string save = cls;
      // a union/struct that is only an atomic box keeps the outer name
      bool box = nm.starts_with("mdbx_atomic");
      if (!nm.empty() && !box) cls = nm.str();
      std::string p2 = path;
      if (box) { leaf = best->getBaseType(); return true; }
      if (findMember(mc, off - mo, size, path, cls, leaf, nm)) return true;
      path = p2; cls = save; leaf = best->getBaseType();
      return true;
    }
    if (t2 == dwarf::DW_TAG_array_type) return findMember(mc, off - mo, size, path, cls, leaf, "");
  }
  leaf = best->getBaseType();
  return true;
}

KeyId Program::key(StringRef s, const DIType *t) {
  auto it = keyIds.find(s);
  if (it != keyIds.end()) { if (t && !keyTypes[it->second]) keyTypes[it->second] = t; return it->second; }
  int k = keyNames.size();
  keyNames.push_back(s.str()); keyTypes.push_back(t);
  keyIds[s] = k;
  return k;
}

const DICompositeType *Program::structOfIR(Type *t) {
  auto *st = dyn_cast<StructType>(t);
  if (!st || !st->hasName()) return nullptr;
  StringRef n = st->getName();
  if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  else if (n.starts_with("class.")) n = n.drop_front(6);
  auto i = structs.find(n);
  if (i == structs.end()) return nullptr;
  return i->second;
}

void Program::index() {
  DebugInfoFinder F;
  F.processModule(*M);
  for (auto *t : F.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->isForwardDecl()) continue;
      if (!c->getName().empty() && c->getTag() != dwarf::DW_TAG_enumeration_type) structs[c->getName()] = c;
    } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef) {
        StringRef nm;
        if (auto *c = dyn_cast_or_null<DICompositeType>(stripTD(d, &nm)))
          if (!c->isForwardDecl() && !structs.count(d->getName())) structs[d->getName()] = c;
      }
    }
  }
  for (auto &G : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> gv;
    G.getDebugInfo(gv);
    if (!gv.empty()) globType[&G] = gv[0]->getVariable()->getType();
  }
  for (Function &Fn : *M) {
    if (Fn.isDeclaration()) continue;
    for (auto &I : instructions(Fn)) {
      if (auto *D = dyn_cast<DbgDeclareInst>(&I)) {
        if (auto *A = D->getAddress())
          if (!varType.count(A) && D->getExpression()->getNumElements() == 0) varType[A] = D->getVariable()->getType();
      } else if (auto *V = dyn_cast<DbgValueInst>(&I)) {
        if (V->getNumVariableLocationOps() != 1 || V->getExpression()->getNumElements()) continue;
        auto *A = dyn_cast_or_null<Argument>(V->getVariableLocationOp(0));
        if (A && V->getVariable()->getArg() && V->getVariable()->getScope()->getSubprogram() == Fn.getSubprogram() &&
            !V->getDebugLoc().getInlinedAt() && !varType.count(A))
          varType[A] = V->getVariable()->getType();
      }
    }
    if (auto *SP = Fn.getSubprogram()) {
      auto ta = SP->getType()->getTypeArray();
      if (ta.size() == Fn.arg_size() + 1)
        for (auto &A : Fn.args())
          if (!varType.count(&A)) if (auto *t = ta[A.getArgNo() + 1]) varType[&A] = t;
    }
  }
  // per function info
  for (Function &Fn : *M) {
    if (Fn.isDeclaration()) continue;
    FnInfo &I = info[&Fn];
    I.F = &Fn;
    // rpo
    std::vector<const BasicBlock *> post; std::set<const BasicBlock *> seen;
    std::vector<std::pair<const BasicBlock *, unsigned>> st{{&Fn.getEntryBlock(), 0}};
    seen.insert(&Fn.getEntryBlock());
    while (!st.empty()) {
      auto &[B, i] = st.back();
      auto *T = B->getTerminator();
      if (i < T->getNumSuccessors()) {
        auto *N = T->getSuccessor(i++);
        if (seen.insert(N).second) st.push_back({N, 0});
      } else { post.push_back(B); st.pop_back(); }
    }
    I.order.assign(post.rbegin(), post.rend());
    for (unsigned i = 0; i < I.order.size(); i++) I.rpo[I.order[i]] = i;
    // liveness
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto *B : post) {
        DenseSet<const Value *> live;
        for (auto *N : successors(B)) {
          for (auto *v : I.liveIn[N]) live.insert(v);
          for (auto &ph : N->phis()) {
            live.erase(&ph);
          }
          for (auto &ph : N->phis()) {
            auto *v = ph.getIncomingValueForBlock(B);
            if (isa<Instruction>(v)) live.insert(v);
          }
        }
        for (auto it = B->rbegin(); it != B->rend(); ++it) {
          live.erase(&*it);
          if (isa<PHINode>(*it) || isa<DbgInfoIntrinsic>(*it)) continue;
          for (auto &op : it->operands()) if (isa<Instruction>(op.get())) live.insert(op.get());
        }
        auto &L = I.liveIn[B];
        // phis are live at block start (keep)
        for (auto &ph : B->phis()) live.insert(&ph);
        if (L.size() != live.size()) { L = live; ch = true; }
      }
    }
    for (auto &In : instructions(Fn))
      if (auto *C = dyn_cast<CallBase>(&In))
        if (auto *f = calleeOf(C)) if (!f->isDeclaration()) I.callees.push_back(f);
    I.addressTaken = Fn.hasAddressTaken();
    for (auto &In : instructions(Fn)) if (auto *ph = dyn_cast<PHINode>(&In)) if (ph->getType()->isIntegerTy()) I.constPhi.insert(ph);
    for (bool c2 = true; c2;) { c2 = false;
      for (auto &In : instructions(Fn)) if (auto *ph = dyn_cast<PHINode>(&In)) if (I.constPhi.count(ph))
        for (auto &o : ph->incoming_values()) if (!isa<ConstantInt>(o.get()) && !isa<UndefValue>(o.get()) && !I.constPhi.count(o.get()) && !o.get()->getType()->isIntegerTy(1) && !(isa<ZExtInst>(o.get()) && cast<ZExtInst>(o.get())->getSrcTy()->isIntegerTy(1))) { I.constPhi.erase(ph); c2 = true; break; } }
  }
  // modified classes
  for (auto &[Fn, I] : info) {
    for (auto &In : instructions(*Fn)) {
      const Value *ptr = nullptr; unsigned sz = 0;
      auto &DL = M->getDataLayout();
      if (auto *S = dyn_cast<StoreInst>(&In)) { ptr = S->getPointerOperand(); sz = DL.getTypeStoreSize(S->getValueOperand()->getType()); }
      else if (auto *A = dyn_cast<AtomicRMWInst>(&In)) { ptr = A->getPointerOperand(); sz = DL.getTypeStoreSize(A->getType()); }
      else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&In)) { ptr = X->getPointerOperand(); sz = DL.getTypeStoreSize(X->getCompareOperand()->getType()); }
      if (!ptr) continue;
      const Expr *p = staticExpr(ptr, 0);
      const Expr *r = p;
      while (r->k == K_Off || r->k == K_Idx) r = r->a;
      if (r->k == K_Alloca) continue;
      KeyId k = keyOf(p, sz);
      I.mod.insert(k);
    }
    for (auto &In : instructions(*Fn))
      if (auto *C = dyn_cast<CallBase>(&In))
        if (C->getCalledOperand() && !calleeOf(C)) I.modUnknown = true;
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &[Fn, I] : info)
      for (auto *c : I.callees) {
        auto &CI = info[c];
        size_t n = I.mod.size();
        I.mod.insert(CI.mod.begin(), CI.mod.end());
        if (I.mod.size() != n) ch = true;
      }
  }
}

// ------------------------------------------------------------ expressions
static uint64_t bit(const void *p) {
  if (!p) return 0;
  uint64_t h = (uint64_t)p * 0x9E3779B97F4A7C15ull;
  return 1ull << (h >> 58);
}

const Expr *Program::mk(Expr e) {
  auto k = std::make_tuple((int)e.k, e.op, e.w, e.c, e.v, e.ver, e.a, e.b);
  auto &slot = table[k];
  if (!slot) {
    e.id = nextId++;
    e.bloom = (e.a ? e.a->bloom : 0) | (e.b ? e.b->bloom : 0);
    if (e.k == K_Opaque || e.k == K_Inner) e.bloom |= bit(e.v);
    if (e.k == K_Field) e.bloom |= bit(e.ver);
    slot = std::make_unique<Expr>(e);
  }
  return slot.get();
}
static int64_t sx(int64_t c, unsigned w) {
  if (w >= 64) return c;
  uint64_t m = (1ull << w) - 1;
  uint64_t u = (uint64_t)c & m;
  return (int64_t)u; // constants are kept zero-extended
}
const Expr *Program::cst(unsigned w, int64_t c) { Expr e; e.k = K_Const; e.w = w; e.c = sx(c, w); return mk(e); }
const Expr *Program::opaque(const Value *v, int tag, unsigned w) { Expr e; e.k = K_Opaque; e.v = v; e.c = tag; e.w = w; return mk(e); }
const Expr *Program::inner(const Value *call, const Expr *x) { Expr e; e.k = K_Inner; e.v = call; e.a = x; e.w = x->w; return mk(e); }
const Expr *Program::outer(const Expr *x) { Expr e; e.k = K_Outer; e.a = x; e.w = x->w; return mk(e); }
const Expr *Program::off(const Expr *b, int64_t c) {
  if (b->k == K_Off) { c += b->c; b = b->a; }
  if (c == 0) return b;
  if (b->k == K_Const) return cst(64, b->c + c);
  Expr e; e.k = K_Off; e.a = b; e.c = c; return mk(e);
}
const Expr *Program::idx(const Expr *b, const Expr *i, int64_t scale) {
  if (i->isConst()) return off(b, (i->w < 64 && (i->c >> (i->w - 1)) ? i->c - (int64_t)(1ull << i->w) : i->c) * scale);
  int64_t o = 0;
  if (b->k == K_Off) { o = b->c; b = b->a; }
  Expr e; e.k = K_Idx; e.a = b; e.b = i; e.c = scale; return off(mk(e), o);
}
const Expr *Program::field(const Expr *ptr, unsigned w, const void *ver, KeyId key) {
  Expr e; e.k = K_Field; e.a = ptr; e.w = w; e.ver = ver; e.key = key; return mk(e);
}

static bool commutative(unsigned op) {
  return op == Instruction::Add || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Mul;
}

const Expr *Program::op(unsigned o, const Expr *a, const Expr *b, unsigned w) {
  uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
  auto SE = [&](const Expr *e) -> int64_t { if (e->w >= 64) return e->c; uint64_t u = e->c; if (u >> (e->w - 1) & 1) return (int64_t)(u | ~((1ull << e->w) - 1)); return u; };
  if (a && b && a->isConst() && b->isConst()) {
    uint64_t x = a->c, y = b->c;
    switch (o) {
    case Instruction::Add: return cst(w, (x + y) & m);
    case Instruction::Sub: return cst(w, (x - y) & m);
    case Instruction::Mul: return cst(w, (x * y) & m);
    case Instruction::And: return cst(w, x & y);
    case Instruction::Or: return cst(w, x | y);
    case Instruction::Xor: return cst(w, x ^ y);
    case Instruction::Shl: if (y < w) return cst(w, (x << y) & m); break;
    case Instruction::LShr: if (y < w) return cst(w, (x & m) >> y); break;
    case Instruction::AShr: if (y < w) return cst(w, SE(a) >> y); break;
    default: break;
    }
    if (o >= OP_ICMP && o < OP_SELECT) {
      unsigned aw = a->w; uint64_t am = aw >= 64 ? ~0ull : (1ull << aw) - 1;
      uint64_t ux = x & am, uy = y & am; int64_t ix = SE(a), iy = SE(b);
      switch (o - OP_ICMP) {
      case CmpInst::ICMP_EQ: return cst(1, ux == uy);
      case CmpInst::ICMP_NE: return cst(1, ux != uy);
      case CmpInst::ICMP_ULT: return cst(1, ux < uy);
      case CmpInst::ICMP_ULE: return cst(1, ux <= uy);
      case CmpInst::ICMP_UGT: return cst(1, ux > uy);
      case CmpInst::ICMP_UGE: return cst(1, ux >= uy);
      case CmpInst::ICMP_SLT: return cst(1, ix < iy);
      case CmpInst::ICMP_SLE: return cst(1, ix <= iy);
      case CmpInst::ICMP_SGT: return cst(1, ix > iy);
      case CmpInst::ICMP_SGE: return cst(1, ix >= iy);
      }
    }
  }
  if (a && !b && a->isConst()) {
    switch (o) {
    case Instruction::ZExt: return cst(w, a->c);
    case Instruction::SExt: return cst(w, SE(a) & m);
    case Instruction::Trunc: return cst(w, a->c & m);
    }
  }
  if (a && !b) { // casts
    if (o == Instruction::Trunc && a->k == K_Op && (a->op == Instruction::ZExt || a->op == Instruction::SExt)) {
      if (a->a->w == w) return a->a;
      if (a->a->w < w) return op(a->op, a->a, nullptr, w);
    }
    if (o == Instruction::ZExt && a->k == K_Op && a->op == Instruction::ZExt) return op(Instruction::ZExt, a->a, nullptr, w);
    if (o == Instruction::SExt && a->k == K_Op && a->op == Instruction::ZExt) return op(Instruction::ZExt, a->a, nullptr, w);
    if (a->w == w) return a;
  }
  if (b && b->isConst()) {
    if (b->c == 0 && (o == Instruction::Add || o == Instruction::Sub || o == Instruction::Or || o == Instruction::Xor || o == Instruction::Shl || o == Instruction::LShr)) return a;
    if (b->c == 0 && o == Instruction::And) return cst(w, 0);
    if ((uint64_t)b->c == m && o == Instruction::And) return a;
  }
  if (o == Instruction::Xor && w == 1 && b && b->isConst(1) && a->k == K_Op && a->op >= OP_ICMP && a->op < OP_SELECT)
    return op(OP_ICMP + CmpInst::getInversePredicate((CmpInst::Predicate)(a->op - OP_ICMP)), a->a, a->b, 1);
  if (b && commutative(o) && a->isConst() ) std::swap(a, b);
  else if (b && commutative(o) && !b->isConst() && a->id > b->id) std::swap(a, b);
  if (o == Instruction::And && b->isConst() && a->k == K_Op && a->op == Instruction::And && a->b && a->b->isConst())
    return op(Instruction::And, a->a, cst(w, a->b->c & b->c), w);
  if (o == Instruction::Sub && b && b->k == K_Op && b->op == Instruction::And && b->a == a && b->b && b->b->isConst()) // x - (x & c)
    return op(Instruction::And, a, cst(w, ~(uint64_t)b->b->c & m), w);
  if (o >= OP_ICMP && o < OP_SELECT) {
    auto p = (CmpInst::Predicate)(o - OP_ICMP);
    if (a == b) return cst(1, CmpInst::isTrueWhenEqual(p));
    if (a->isConst() || (!b->isConst() && a->id > b->id)) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
    // comparisons of booleans with 0/1
    if (b->isConst() && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
      const Expr *x = a;
      while (x->k == K_Op && (x->op == Instruction::ZExt || (x->op == Instruction::SExt && b->c == 0))) x = x->a;
      if (x->w == 1) {
        if (b->c == 0) return p == CmpInst::ICMP_NE ? x : op(Instruction::Xor, x, cst(1, 1), 1);
        if (b->c == 1 && (x != a || a->w == 1) ) return p == CmpInst::ICMP_EQ ? x : op(Instruction::Xor, x, cst(1, 1), 1);
      }
      // zext(x) ==/!= const  ->  x ==/!= const
      if (a->k == K_Op && a->op == Instruction::ZExt) {
        unsigned xw = a->a->w; uint64_t xm = xw >= 64 ? ~0ull : (1ull << xw) - 1;
        if (((uint64_t)b->c & ~xm) == 0) return op(OP_ICMP + p, a->a, cst(xw, b->c), 1);
      }
      if (a->k == K_Op && a->op == Instruction::SExt && b->c == 0) return op(OP_ICMP + p, a->a, cst(a->a->w, 0), 1);
      if (a->k == K_Op && a->op == Instruction::Sub && b->c == 0 && a->b) return op(OP_ICMP + p, a->a, a->b, 1);
    }
    o = OP_ICMP + p;
  }
  if (o == Instruction::Xor && w == 1 && b && b->isConst(1) && a->k == K_Op && a->op == Instruction::Xor && a->b->isConst(1)) return a->a;
  // masks through extensions: and(zext x, C) -> zext(and(x, C)), and(sext x, C) with C inside x's width
  if (o == Instruction::And && b->isConst() && a->k == K_Op && (a->op == Instruction::ZExt || a->op == Instruction::SExt)) {
    unsigned xw = a->a->w; uint64_t xm = xw >= 64 ? ~0ull : (1ull << xw) - 1;
    if (a->op == Instruction::ZExt || ((uint64_t)b->c & ~xm) == 0)
      return op(Instruction::ZExt, op(Instruction::And, a->a, cst(xw, b->c & xm), xw), nullptr, w);
  }
  Expr e; e.k = K_Op; e.op = o; e.a = a; e.b = b; e.w = w;
  return mk(e);
}

// -------------------------------------------------------------- type naming
const DIType *Program::pointeeType(const Expr *e) {
  if (e->pointeeDone) return e->pointeeTy;
  e->pointeeDone = true;
  const DIType *t = nullptr;
  auto ptrBase = [&](const DIType *x) -> const DIType * {
    x = stripTD(x);
    if (auto *d = dyn_cast_or_null<DIDerivedType>(x))
      if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) return d->getBaseType();
    return nullptr;
  };
  switch (e->k) {
  case K_Param: { auto i = varType.find(e->v); if (i != varType.end()) t = ptrBase(i->second); break; }
  case K_Alloca: { auto i = varType.find(e->v); if (i != varType.end()) t = i->second;
                   else if (auto *A = dyn_cast<AllocaInst>(e->v)) t = structOfIR(A->getAllocatedType()); break; }
  case K_Global: if (auto *G = dyn_cast<GlobalVariable>(e->v)) { auto i = globType.find(G); if (i != globType.end()) t = i->second; } break;
  case K_Field: {
    if (e->key) {
      const DIType *l = nullptr;
      keyOf(e->a, e->w / 8, &l);
      if (l) t = ptrBase(l);
    }
    break;
  }
  case K_Opaque: case K_Inner: {
    const Value *v = e->k == K_Inner ? nullptr : e->v;
    if (e->k == K_Inner) { t = pointeeType(e->a); break; }
    if (auto *C = dyn_cast_or_null<CallBase>(v)) {
      if (auto *f = calleeOf(C)) if (auto *SP = f->getSubprogram()) {
        auto ta = SP->getType()->getTypeArray();
        if (ta.size() && ta[0]) t = ptrBase(ta[0]);
      }
    } else if (isa_and_nonnull<LoadInst>(v) || isa_and_nonnull<PHINode>(v) || isa_and_nonnull<SelectInst>(v)) {
      const Expr *s = staticExpr(v);
      if (s != e && s->k != K_Opaque) { if (s->k == K_Field || s->k == K_Param || s->k == K_Alloca || s->k == K_Global) t = pointeeType(s); }
    }
    break;
  }
  case K_Outer: t = pointeeType(e->a); break;
  case K_Off: case K_Idx: break;
  default: break;
  }
  if (t && !stripTD(t)) t = nullptr; // void
  e->pointeeTy = t;
  return t;
}

const DICompositeType *Program::pointeeStruct(const Expr *e) {
  const DIType *t = pointeeType(e);
  auto h = hints.find(e);
  auto *c = dyn_cast_or_null<DICompositeType>(stripTD(t));
  if (c && c->isForwardDecl()) { auto i = structs.find(c->getName()); c = i == structs.end() ? nullptr : i->second; }
  if (c && (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_array_type)) return c;
  if (h != hints.end()) return h->second;
  // fall back to the IR: which struct type is this pointer indexed as?
  const Value *v = (e->k == K_Opaque || e->k == K_Param) ? e->v : nullptr;
  if (v && v->getType()->isPointerTy()) {
    for (auto *u : v->users())
      if (auto *G = dyn_cast<GEPOperator>(u))
        if (G->getPointerOperand() == v) if (auto *s = structOfIR(G->getSourceElementType())) { hints[e] = s; return s; }
  }
  return nullptr;
}

KeyId Program::keyOf(const Expr *ptr, unsigned bytes, const DIType **leaf) {
  int64_t c = 0;
  const Expr *r = ptr;
  bool index = false;
  if (r->k == K_Off) { c = r->c; r = r->a; }
  while (r->k == K_Idx && !hints.count(r)) { index = true; r = r->a; if (r->k == K_Off) { c += r->c; r = r->a; } }
  const DICompositeType *s = pointeeStruct(r);
  if (s) {
    StringRef nm; stripTD(pointeeType(r), &nm);
    std::string name = s->getName().empty() ? nm.str() : s->getName().str();
    if (name.empty()) name = "anon";
    if (r->k == K_Global) name = ("@" + r->v->getName()).str();
    uint64_t sz = s->getSizeInBits() / 8;
    uint64_t o = c;
    if (c < 0) o = sz ? ((c % (int64_t)sz) + sz) % sz : 0;
    else if (sz && (uint64_t)c >= sz && s->getTag() != dwarf::DW_TAG_array_type) {
      // trailing flexible member or array of structs
      bool flex = false;
      for (auto *n : s->getElements()) if (auto *m = dyn_cast<DIDerivedType>(n)) if (m->getTag() == dwarf::DW_TAG_member && m->getSizeInBits() == 0) flex = true;
      if (!flex) o = c % sz;
    }
    std::string path = name, cls = name; const DIType *l = nullptr;
    if (findMember(s, o, bytes, path, cls, l, name)) {
      if (leaf) *leaf = l;
      return key(cls, l);
    }
    return key(name + ".+" + std::to_string(o));
  }
  if (r->k == K_Field && r->key) {
    const DIType *pt = pointeeType(r);
    if (leaf) *leaf = pt;
    return key(keyNames[r->key] + "[]", pt);
  }
  if (r->k == K_Global) { if (leaf) { auto *G = dyn_cast<GlobalVariable>(r->v); auto i = G ? globType.find(G) : globType.end(); *leaf = i != globType.end() ? i->second : nullptr; } return key(("@" + r->v->getName()).str()); }
  if (r->k == K_Alloca) {
    auto *A = cast<Instruction>(r->v);
    if (leaf) { auto i = varType.find(A); *leaf = i != varType.end() ? i->second : nullptr; }
    return key("$" + A->getFunction()->getName().str() + "#" + std::to_string((uint64_t)A));
  }
  if (leaf) *leaf = pointeeType(r);
  (void)index;
  return key("*" + std::to_string(bytes));
}

std::string Program::str(const Expr *e, int d) {
  if (!e) return "-";
  if (d > 8) return "..";
  std::string s;
  switch (e->k) {
  case K_Const: return std::to_string(e->c);
  case K_Param: { auto *A = cast<Argument>(e->v);
    return "arg" + std::to_string(A->getArgNo()); }
  case K_Global: return "@" + e->v->getName().str();
  case K_Alloca: return "local#" + std::to_string(e->id);
  case K_Opaque: { auto *I = dyn_cast<Instruction>(e->v); std::string n;
    if (auto *C = dyn_cast_or_null<CallBase>(I)) if (auto *f = calleeOf(C)) n = f->getName().str() + "()";
    unsigned l = 0; if (I) locOf(I, &l);
    return "v" + std::to_string(e->id) + (n.empty() ? "" : ":" + n) + "@" + std::to_string(l); }
  case K_Field: { std::string n = keyName(e->key).str(); size_t p = n.rfind('.'); (void)p;
    const Expr *r = e->a; while (r->k == K_Off) r = r->a;
    return str(r, d + 1) + "->" + n + (e->ver ? "'" : ""); }
  case K_Op:
    if (e->op >= OP_ICMP && e->op < OP_SELECT) return "(" + str(e->a, d + 1) + " " + CmpInst::getPredicateName((CmpInst::Predicate)(e->op - OP_ICMP)).str() + " " + str(e->b, d + 1) + ")";
    if (e->op < OP_ICMP) return std::string("(") + Instruction::getOpcodeName(e->op) + " " + str(e->a, d + 1) + (e->b ? ", " + str(e->b, d + 1) : "") + ")";
    return "op";
  case K_Off: { return "&" + str(e->a, d + 1) + "+" + std::to_string(e->c); }
  case K_Idx: return "&" + str(e->a, d + 1) + "[" + str(e->b, d + 1) + "]";
  case K_Inner: return "in(" + str(e->a, d + 1) + ")";
  case K_Outer: return "out(" + str(e->a, d + 1) + ")";
  }
  return "?";
}
} // namespace va

namespace va {
// static, flow-insensitive pointer expression
const Expr *Program::staticExpr(const Value *v, int d) {
  auto &DL = M->getDataLayout();
  if (auto *A = dyn_cast<Argument>(v)) { Expr e; e.k = K_Param; e.v = A; return mk(e); }
  if (isa<AllocaInst>(v)) { Expr e; e.k = K_Alloca; e.v = v; return mk(e); }
  if (isa<GlobalValue>(v)) { Expr e; e.k = K_Global; e.v = v; return mk(e); }
  if (d > 12) return opaque(v, 0, 64);
  if (auto *G = dyn_cast<GEPOperator>(v)) {
    const Expr *b = staticExpr(G->getPointerOperand(), d + 1);
    if (auto *s = structOfIR(G->getSourceElementType())) if (b->k != K_Off && b->k != K_Idx && !pointeeStruct(b)) hints.insert({b, s});
    MapVector<Value *, APInt> var; APInt co(64, 0);
    if (!G->collectOffset(DL, 64, var, co)) return opaque(v, 0, 64);
    for (auto &p : var) b = idx(b, opaque(p.first, 0, 64), p.second.getSExtValue());
    if (auto *s = structOfIR(G->getSourceElementType())) {
      // typed view of an untyped (byte) address
      const Expr *r = b; while (r->k == K_Off || r->k == K_Idx) r = r->a;
      if (b->k == K_Idx && !pointeeStruct(r)) hints.insert({b, s});
    }
    return off(b, co.getSExtValue());
  }
  if (auto *L = dyn_cast<LoadInst>(v)) {
    const Expr *p = staticExpr(L->getPointerOperand(), d + 1);
    return field(p, 64, L, keyOf(p, 8));
  }
  if (auto *C = dyn_cast<CallBase>(v)) {
    if (auto *f = calleeOf(C)) if (!f->isDeclaration() && d < 8) if (const Expr *ra = returnsAlias(f)) {
      int64_t o = ra->k == K_Off ? ra->c : 0; const Expr *r = ra->k == K_Off ? ra->a : ra;
      return off(staticExpr(C->getArgOperand(cast<Argument>(r->v)->getArgNo()), d + 1), o);
    }
  }
  if (auto *ph = dyn_cast<PHINode>(v)) {
    for (auto &o : ph->incoming_values()) if (o.get() != v && !isa<Constant>(o.get())) {
      const Expr *e = staticExpr(o.get(), d + 4);
      if (pointeeType(e)) return e;
    }
  }
  if (auto *se = dyn_cast<SelectInst>(v)) { const Expr *e = staticExpr(se->getTrueValue(), d + 4); if (pointeeType(e)) return e; return staticExpr(se->getFalseValue(), d + 4); }
  return opaque(v, 0, 64);
}
// f always returns (an address inside) one of its arguments
const Expr *Program::returnsAlias(const Function *f) {
  auto i = aliasMemo.find(f);
  if (i != aliasMemo.end()) return i->second;
  aliasMemo[f] = nullptr;
  const Expr *r = nullptr; bool bad = f->isDeclaration() || !f->getReturnType()->isPointerTy();
  if (!bad) for (auto &B : *f) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
    std::vector<const Value *> vs{R->getReturnValue()};
    if (auto *ph = dyn_cast<PHINode>(vs[0])) { vs.clear(); for (auto &o : ph->incoming_values()) vs.push_back(o.get()); }
    for (auto *v : vs) {
      const Expr *e = isa<PHINode>(v) || isa<LoadInst>(v) || isa<SelectInst>(v) ? nullptr : staticExpr(v);
      const Expr *b = e && e->k == K_Off ? e->a : e;
      if (!e || b->k != K_Param || (r && r != e)) { bad = true; break; }
      r = e;
    }
    if (bad) break;
  }
  return aliasMemo[f] = bad ? nullptr : r;
}
}
