// C26: the table of named-table handles is changed only under the handle mutex, and by the protocol its lock-free readers rely on.
#include "order_base.h"
namespace va {
namespace {
enum { H_LOCK = 1, H_ST, H_PEND, H_POIS };
enum { T_RC = 1, T_BND };
struct Hit { const Instruction *I; std::string what; TraceP tr; };
struct Handles : Base {
  const std::map<const Function *, Hit> *needs = nullptr; const std::set<const Function *> *unbal = nullptr;
  std::vector<Hit> hits; std::set<int64_t> exits; std::set<std::pair<const Instruction *, int>> seen; bool proto = false, indexes = false; int64_t locks = 0, stores = 0, calls = 0; uint64_t lockOff = 0, lockSize = 0;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return Base::trackKey(k) || n.starts_with("kvx") || n.starts_with("clc") || n.starts_with("iovec"); }
  bool descend(const Function *f) override { return unbal->count(f) && f != F; }
  bool splitByResult() override { return true; }
  bool isLock(const Expr *m) { uint64_t o = 0; while (m->k == K_Off) { o += m->c; m = m->a; } auto *st = P->pointeeStruct(m); return st && st->getName() == "MDBX_env" && o >= lockOff && o < lockOff + lockSize; }
  // which part of the handle table an address belongs to
  enum Part { None, Count, Flags, Seq, Name, Cmp, Defer, Entry };
  Part part(const Expr *p, StringRef key) {
    if (key == "MDBX_env.n_dbi") return Count; if (key == "MDBX_env.defer_free") return Defer;
    const Expr *r = rootExpr(p); if (r == p && p->k != K_Field) return None; if (r->k != K_Field) return None; StringRef n = P->keyName(r->key);
    if (n == "MDBX_env.dbs_flags") return Flags; if (n == "MDBX_env.dbi_seqs") return Seq;
    if (n == "MDBX_env.kvs") return key.starts_with("iovec.") ? Name : key == "clc.cmp" ? Cmp : key.empty() ? Entry : None;
    return None;
  }
  void touch(State &S, const Instruction *I, const std::string &what) {
    stores++; events++; obligations++;
    if (S.aut.get(H_LOCK) <= 0 && seen.insert({I, 0}).second) hits.push_back({I, what, S.trace});
  }
  void invalidated(State &S) { if (S.aut.get(H_ST) != 1) S.aut.set(H_PEND, 1); S.aut.set(H_ST, 1); }
  bool knownInvalid(State &S) {
    if (S.aut.get(H_ST) == 1) return true;
    for (auto &f : S.facts) if (f.first->k == K_Field && P->keyName(f.first->key).starts_with("MDBX_env.dbs_flags") && (f.second.zero & 0x80)) return true;
    return false;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    Part p = part(ptr, P->keyName(key)); if (p == None) return;
    static const char *nm[] = {"", "number of handles", "state of a handle", "sequence number of a handle", "name of a handle", "comparison function of a handle", "list of released names", "entry of a handle"};
    touch(S, I, nm[p]);
    if (!proto) return; AbsVal v = E->abs(S, val);
    if (p == Flags) {
      if (v.one & 0x80) { if (S.aut.get(H_ST) == 1) S.aut.set(H_PEND, 1); S.aut.set(H_ST, 2); }
      else if (v.zero & 0x80) { int64_t c; if (v.isConst(c) && c) S.aut.set(H_POIS, 1); invalidated(S); }
    }
    if (p == Seq) { S.aut.set(H_PEND, 0); obligations++;
      if (mentions(val, [&](const Expr *e) { return false; })) {}
      if (val->k == K_Field && P->keyName(val->key).contains("weak")) say("same-sequence", I, "seq", "stores the sequence number of a handle unchanged", S); }
    if (p == Name) { obligations++; if (v.isZero() && !knownInvalid(S)) say("name-of-valid-handle", I, "name", "clears the name of a handle before its state was made invalid (readers which do not lock would use it)", S); }
    if (p == Cmp) { obligations++; if (!knownInvalid(S)) say("cmp-of-valid-handle", I, "cmp", "changes the comparison function of a handle whose state is not known to be invalid", S); }
  }
  static const Expr *plain(const Expr *e) { while (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::SExt || e->op == Instruction::Trunc)) e = e->a; return e; }
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *to) override {
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, from, to, x, y, p)) return;
    auto lim = [&](const Expr *e) { return mentions(e, [&](const Expr *z) { return z->k == K_Field && P->keyName(z->key) == "MDBX_env.max_dbi"; }); };
    if (lim(x)) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (lim(y) && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT)) setTag(S, T_BND, plain(x));
  }
  void onInst(State &S, const Instruction *I) override {
    if (auto *m = dyn_cast<MemIntrinsic>(I)) { const Expr *d = E->eval(S, m->getRawDest()); const Expr *r = rootExpr(d); if (r->k == K_Field) { StringRef n = P->keyName(r->key);
      if (n == "MDBX_env.kvs" || n == "MDBX_env.dbs_flags" || n == "MDBX_env.dbi_seqs") { touch(S, I, "entry of a handle");
        if (proto && isa<MemSetInst>(I) && n == "MDBX_env.kvs") { obligations++; if (!knownInvalid(S)) say("entry-of-valid-handle", I, "entry", "clears the entry of a handle whose state is not known to be invalid", S);
          if (indexes) { obligations++; const Expr *ix = nullptr; for (const Expr *x = d; x; x = (x->k == K_Off || x->k == K_Idx) ? x->a : nullptr) if (x->k == K_Idx) ix = x->b; bool ok = !ix; // a fixed one
            if (ix) ok = tag(S, T_BND) == plain(ix);
            if (!ok) say("beyond-table", I, "bound", "takes a new entry of the handle table without having found that it is within the table", S); } } } } }
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    if (!f) return false; StringRef n = f->getName();
    if (n == "osal_fastmutex_acquire" || n == "pthread_mutex_lock") { if (!isLock(E->eval(S, C->getArgOperand(0)))) return false; locks++; events++;
      E->killByCall(S, C, f); E->purge(S, C); State A = S, B = S; A.env[C] = P->cst(32, 0); A.aut.set(H_LOCK, 1); out.push_back(A);
      const Expr *r = P->opaque(C, 0, 32); B.env[C] = r; AbsVal v = AbsVal::top(32); v.neq = {0}; v.normalize(); E->assumeVal(B, r, v, 0); out.push_back(B); return true; }
    if (n == "osal_fastmutex_release" || n == "pthread_mutex_unlock") { if (!isLock(E->eval(S, C->getArgOperand(0)))) return false; done(S, C, "unlock"); S.aut.set(H_LOCK, S.aut.get(H_LOCK) - 1 ? -1 : 0); return false; }
    if (n == "tbl_setup" && C->arg_size() > 1) { const Expr *r = rootExpr(E->eval(S, C->getArgOperand(1))); if (r->k == K_Field && P->keyName(r->key) == "MDBX_env.kvs") touch(S, C, "limits of a handle"); }
    // the fast path of opening: nothing is left to be changed there, since state and comparison functions were found equal under an unchanged sequence number
    if (n == "dbi_bind" && C->arg_size() > 1 && (E->eval(S, C->getArgOperand(1))->k != K_Const || E->eval(S, C->getArgOperand(1))->c >= 2)) { obligations++; return false; }
    auto i = needs->find(f); if (i != needs->end() && !unbal->count(f)) { calls++; events++; obligations++; if (S.aut.get(H_LOCK) <= 0 && seen.insert({C, 1}).second) hits.push_back({C, f->getName().str() + "(): " + i->second.what, S.trace}); }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (f && f->getName() == "tbl_setup" && S.env.count(C)) { setTag(S, T_RC, S.env[C]); } }
  void done(State &S, const Instruction *I, const char *inst) {
    if (!proto) return; obligations++;
    if (S.aut.get(H_PEND)) say("sequence", I, std::string("seq-") + inst, "changes the state of a handle without changing its sequence number afterwards (users of the old handle would not notice)", S);
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; exits.insert(S.aut.get(H_LOCK)); done(S, Rt, "return");
    if (proto && S.aut.get(H_POIS) && S.aut.get(H_ST) == 1) { obligations++;
      const Expr *rc = tag(S, T_RC); bool failed = (rc && E->abs(S, rc).nonZero()) || (ret && ret->w == 32 && E->abs(S, ret).nonZero());
      if (!failed) say("left-invalid", Rt, "left", "may report success with the handle left in the intermediate state", S); }
  }
};
bool exportedFn(const Function &F) { return F.getName().starts_with("mdbx_") && !F.hasLocalLinkage(); }
void run26(Program &P, RuleOut &R, const Options &O) {
  auto es = P.structs.find("MDBX_env"); bool ok; uint64_t lo = memberOff(es == P.structs.end() ? nullptr : es->second, "dbi_lock", ok), nx; if (!ok) { R.errors.push_back("analysis broken: no dbi_lock"); return; } nx = 8;
  // functions with stores to the table or operations on the lock
  std::set<const Function *> stores, lockers, cand;
  for (auto &F : *P.M) if (!F.isDeclaration()) for (auto &B : F) for (auto &I : B) {
    const Value *p = nullptr; unsigned bytes = 8; if (auto *s = dyn_cast<StoreInst>(&I)) { p = s->getPointerOperand(); auto *t = s->getValueOperand()->getType(); bytes = t->isIntegerTy() ? t->getIntegerBitWidth() / 8 : 8; } else if (auto *m = dyn_cast<MemIntrinsic>(&I)) p = m->getRawDest(); else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) p = x->getPointerOperand();
    if (p) { const Expr *e = P.staticExpr(p); const Expr *r = rootExpr(e); StringRef k = P.keyName(P.keyOf(e, bytes)); if (k == "MDBX_env.n_dbi" || k == "MDBX_env.defer_free" || (r->k == K_Field && r != e && (P.keyName(r->key) == "MDBX_env.kvs" || P.keyName(r->key) == "MDBX_env.dbs_flags" || P.keyName(r->key) == "MDBX_env.dbi_seqs"))) stores.insert(&F); else if (r->k == K_Field && r == e && (P.keyName(r->key) == "MDBX_env.kvs" || P.keyName(r->key) == "MDBX_env.dbs_flags" || P.keyName(r->key) == "MDBX_env.dbi_seqs")) stores.insert(&F); }
    if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(c)) { StringRef n = f->getName(); if ((n == "osal_fastmutex_acquire" || n == "osal_fastmutex_release" || n == "pthread_mutex_lock" || n == "pthread_mutex_unlock") && c->arg_size()) { const Expr *m = P.staticExpr(c->getArgOperand(0)); uint64_t o = 0; while (m->k == K_Off) { o += m->c; m = m->a; } auto *st = P.pointeeStruct(m); if (st && st->getName() == "MDBX_env" && o == lo) lockers.insert(&F); } }
  }
  cand = stores; cand.insert(lockers.begin(), lockers.end());
  // no other thread can know of the environment while it is created, opened or closed
  std::set<std::string> excl = {"mdbx_env_create", "mdbx_env_open", "env_open", "dxb_setup", "env_close", "mdbx_env_close_ex"};
  std::map<const Function *, Hit> needs; std::set<const Function *> unbal; int64_t locks = 0, sites = 0, fns = 0;
  std::set<const Function *> todo = cand; int rounds = 0;
  while (!todo.empty() && rounds++ < 12) {
    std::set<const Function *> next; std::vector<const Function *> now(todo.begin(), todo.end()); // the small ones first
    llvm::stable_sort(now, [&](const Function *a, const Function *b) { size_t x = a->getInstructionCount(), y = b->getInstructionCount(); return x != y ? x < y : a->getName() < b->getName(); });
    for (auto *F : now) {
      if (!R.findings.empty()) break; // more would only repeat it
      if (excl.count(F->getName().str())) continue;
      for (int entry : {0, 1}) {
        if (entry && !stores.count(F) && !unbal.count(F) && !lockers.count(F)) { bool u = false; for (auto &I : instructions(*F)) if (auto *c = dyn_cast<CallBase>(&I)) u |= unbal.count(calleeOf(c)); if (!u) continue; }
        Handles c; c.R = &R; c.F = F; c.P = &P; c.needs = &needs; c.unbal = &unbal; c.lockOff = lo; c.lockSize = nx; c.proto = entry == 0 && stores.count(F); for (auto &I : instructions(*F)) if (isa<MemSetInst>(I)) c.indexes = true;
        Engine E(P, c); E.maxDisj = O.disj; State S = E.entryState(F); S.aut.set(H_LOCK, entry); E.run(F, S);
        if (E.budgetHit) R.errors.push_back("budget exceeded in " + F->getName().str());
        R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; fns++;
        if (entry == 0) { locks += c.locks; sites += c.stores; R.sample(F->getName().str() + ": " + std::to_string(c.stores) + " changes, " + std::to_string(c.locks) + " acquisitions" + (c.hits.empty() ? "" : ", needs the lock"), 40); }
        bool ub = false; for (auto x : c.exits) ub |= x != entry;
        if (ub && !exportedFn(*F) && !(entry && c.locks) && unbal.insert(F).second) for (auto *u : F->users()) if (auto *cb = dyn_cast<CallBase>(u)) if (cb->getCalledFunction() == F) next.insert(cb->getFunction());
        if (entry == 0 && !c.hits.empty() && !needs.count(F)) {
          needs.emplace(F, c.hits[0]); bool caller = false;
          for (auto *u : F->users()) if (auto *cb = dyn_cast<CallBase>(u)) if (cb->getCalledFunction() == F) { next.insert(cb->getFunction()); caller = true; }
          if (exportedFn(*F) || !caller) for (auto &h : c.hits) R.add("unlocked", h.I, F->getName().str() + ":" + srcFn(h.I), F->getName().str() + "() changes the handle table without holding the handle mutex (" + h.what + ")", h.tr);
        }
      }
    }
    todo = next;
  }
  R.stats["functions"] = fns; R.need("changes_of_the_table", sites, 30); R.need("acquisitions", locks, 5); R.need("functions_needing_the_lock", needs.size(), 4);
}
RULE(C26) { run26(P, R, O); }
} // namespace
} // namespace va
