// C15: every allocation result is tested before it is used or published.
#include "rules.h"
namespace va {
static const char *kExt[] = {"malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "memalign", "valloc", "strdup", "strndup"};
struct AllocClient : Client {
  RuleOut *R; const Function *F = nullptr; std::set<const Function *> *src; std::map<const Function *, std::set<unsigned>> *derefs;
  std::set<const Instruction *> sites, tests, uses;
  bool trackKey(KeyId k) override { return true; }
  bool isSrc(const Function *f) { if (!f) return false; if (src->count(f)) return true; if (!f->isDeclaration()) return false; for (auto *n : kExt) if (f->getName() == n) return true; return false; }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!isSrc(f)) return;
    // an allocation whose result nobody looks at is a leak, not this property
    auto i = S.env.find(C);
    if (i == S.env.end()) return;
    for (auto it = S.aut.t.begin(); it != S.aut.t.end();) if (it->second == i->second) it = S.aut.t.erase(it); else ++it;
    sites.insert(C);
    unsigned l; locOf(C, &l);
    S.aut.t.insert({(int)l, i->second});
    E->note(S, C, "allocation by " + f->getName().str() + "()");
  }
  void settle(State &S, const Instruction *at) {
    for (auto it = S.aut.t.begin(); it != S.aut.t.end();) {
      AbsVal v = E->abs(S, it->second);
      if (v.nonZero() || v.isZero()) { tests.insert(at); it = S.aut.t.erase(it); } else ++it;
    }
  }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override { if (!S.aut.t.empty()) settle(S, f->getTerminator()); }
  const CallBase *allocOf(const Expr *p) {
    const Expr *r = rootExpr(p);
    auto *C = r->k == K_Opaque && r->c == 0 ? dyn_cast_or_null<CallBase>(r->v) : nullptr;
    return C && isSrc(calleeOf(C)) ? C : nullptr;
  }
  void use(State &S, const Instruction *I, const Expr *p, const char *what) {
    const CallBase *C = allocOf(p);
    if (!C) return;
    uses.insert(I);
    const Expr *r = rootExpr(p);
    bool pending = false;
    for (auto &t : S.aut.t) if (t.second == r) pending = true;
    AbsVal v = E->abs(S, r);
    if (v.nonZero()) return;
    if (!pending && !v.isZero()) return;
    Finding f; f.rule = v.isZero() ? "failed-allocation-used" : "untested-allocation-used"; locOf(I, &f.line, &f.file, &f.func); f.func = F->getName().str();
    unsigned l; locOf(C, &l); f.inst = f.func + ":" + calleeOf(C)->getName().str();
    f.msg = std::string("the result of ") + calleeOf(C)->getName().str() + "() (line " + std::to_string(l) + ") is " + what + (v.isZero() ? " on a path where it is null" : " before it was tested for null"); f.path = traceLines(S.trace); R->add(f);
  }
  void onLoad(State &S, const Instruction *I, const Expr *ptr, KeyId) override { use(S, I, ptr, "dereferenced"); }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId, const Expr *) override { use(S, I, ptr, "dereferenced"); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false;
    auto id = f->getIntrinsicID(); auto n = f->getName();
    bool mem = id == Intrinsic::memcpy || id == Intrinsic::memmove || id == Intrinsic::memset || n == "memcpy" || n == "memmove" || n == "memset" || n == "strcpy" || n == "strlen";
    if (mem) for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) { if (id == Intrinsic::memset && i) break; use(S, C, E->eval(S, C->getArgOperand(i)), "passed to a memory copy/fill"); }
    auto d = derefs->find(f);
    if (d != derefs->end()) for (auto i : d->second) if (i < C->arg_size()) use(S, C, E->eval(S, C->getArgOperand(i)), ("passed to " + n.str() + "(), which dereferences it,").c_str());
    return false;
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    settle(S, Rt);
    // a path that reports failure does not publish its leftovers
    if (ret && F->getReturnType()->isPointerTy() && E->abs(S, ret).isZero()) return;
    if (ret && F->getReturnType()->isIntegerTy(32) && E->abs(S, ret).nonZero()) return;
    for (auto &t : S.aut.t) {
      if (ret && rootExpr(ret) == t.second) continue; // handed to the caller, which is then a source itself
      if (!allocOf(t.second)) continue;
      bool stored = false;
      for (auto &c : S.cells) if (c.second == t.second && rootExpr(c.first)->k != K_Alloca) stored = true;
      if (!stored) continue;
      Finding f; f.rule = "untested-allocation-published"; locOf(Rt, &f.line, &f.file, &f.func); f.func = F->getName().str(); f.line = t.first; f.inst = f.func + ":publish";
      f.msg = "an allocation result made at line " + std::to_string(t.first) + " is stored for others to use although it was never tested for null"; f.path = traceLines(S.trace); R->add(f);
    }
  }
};
RULE(C15) {
  std::set<const Function *> src;
  auto isExt = [&](const Function *f) { if (!f || !f->isDeclaration()) return false; for (auto *n : kExt) if (f->getName() == n) return true; return false; };
  for (bool ch = true; ch;) { ch = false;
    for (auto &x : P.info) { const Function *F = x.first; if (src.count(F) || !F->getReturnType()->isPointerTy()) continue;
      bool calls = false; for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (isExt(f) || src.count(f)) calls = true; }
      if (!calls) continue;
      std::set<const Value *> seen; std::vector<const Value *> wl; bool hit = false;
      for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) wl.push_back(R->getReturnValue());
      while (!wl.empty() && !hit) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
        if (isa<ConstantPointerNull>(v)) hit = true;
        else if (auto *C = dyn_cast<CallBase>(v)) { auto *f = calleeOf(C); if (isExt(f) || src.count(f)) hit = true; }
        else if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) wl.push_back(o.get());
        else if (auto *s = dyn_cast<SelectInst>(v)) { wl.push_back(s->getTrueValue()); wl.push_back(s->getFalseValue()); }
        else if (auto *g = dyn_cast<GetElementPtrInst>(v)) wl.push_back(g->getPointerOperand()); }
      if (hit) { src.insert(F); ch = true; } } }
  // parameters which are dereferenced without ever being compared with null
  std::map<const Function *, std::set<unsigned>> derefs;
  for (bool ch = true; ch;) { ch = false;
    for (auto &x : P.info) for (auto &A : x.first->args()) if (A.getType()->isPointerTy() && !derefs[x.first].count(A.getArgNo())) {
      bool cmp = false, de = false; std::vector<const Value *> wl{&A}; std::set<const Value *> seen;
      while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
        for (auto *u : v->users()) { if (isa<ICmpInst>(u)) cmp = true; else if (isa<GetElementPtrInst>(u)) wl.push_back(u); else if (auto *L = dyn_cast<LoadInst>(u)) { de |= L->getPointerOperand() == v; } else if (auto *S = dyn_cast<StoreInst>(u)) { de |= S->getPointerOperand() == v; }
          else if (isa<PHINode>(u) || isa<SelectInst>(u)) cmp = true;
          else if (auto *C = dyn_cast<CallBase>(u)) { auto *f = calleeOf(C); for (unsigned i = 0; f && i < C->arg_size(); i++) if (C->getArgOperand(i) == v && derefs.count(f) && derefs[f].count(i)) de = true; } } }
      if (de && !cmp) { derefs[x.first].insert(A.getArgNo()); ch = true; } } }
  int64_t fns = 0, sites = 0, tests = 0, uses = 0, blocks = 0;
  for (auto &x : P.info) { const Function *F = x.first;
    bool has = false; for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (isExt(f) || src.count(f)) has = true; }
    if (!has) continue;
    AllocClient c; Engine E(P, c); E.maxDisj = O.disj; c.R = &R; c.F = F; c.src = &src; c.derefs = &derefs;
    E.run(F, State());
    if (E.budgetHit) R.errors.push_back("budget exhausted in " + F->getName().str());
    fns++; sites += c.sites.size(); tests += c.tests.size(); uses += c.uses.size(); blocks += E.blocks;
    R.sample(F->getName().str() + ": " + std::to_string(c.sites.size()) + " allocation(s), " + std::to_string(c.tests.size()) + " test(s), " + std::to_string(c.uses.size()) + " use(s)", 20);
  }
  for (auto *f : src) R.sample("source: " + f->getName().str(), 60);
  R.need("allocating_functions", fns, 30); R.need("allocation_sites", sites, 40); R.need("null_tests", tests, 35); R.need("uses_checked", uses, 150);
  R.stats["derived_sources"] = src.size(); R.stats["block_states"] = blocks;
}
} // namespace va
