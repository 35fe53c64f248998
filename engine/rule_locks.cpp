// C03: lock balance. Modular: every function is analysed on its own against a
// small table of contracts (lock delta as a function of the return value).
#include "rules.h"
namespace va {
enum Lk { WRT, RDT, DBI, REMAP, RTHC, DBG, NLK };
static const char *kLk[] = {"writer lock", "reader-table lock", "handle mutex", "remap mutex", "registry lock", "debug-log mutex"};
// return classes
enum { Z = 1, NZ = 2, TRUE_ = 4, ANY = 7 }; // zero / error / -1 (MDBX_RESULT_TRUE)
struct Case { int ret; int delta; };
struct Contract { Lk lk; std::vector<Case> cases; };
typedef std::multimap<std::string, Contract> Contracts;
static const Contracts &contracts() {
  static Contracts c = {
      {"lck_txn_lock", {WRT, {{Z, 1}, {TRUE_ | NZ, 0}}}},
      {"lck_txn_unlock", {WRT, {{ANY, -1}}}},
      {"lck_rdt_lock", {RDT, {{Z | TRUE_, 1}, {NZ, 0}}}},
      {"lck_rdt_unlock", {RDT, {{ANY, -1}}}},
      {"rthc_lock", {RTHC, {{ANY, 1}}}},
      {"rthc_unlock", {RTHC, {{ANY, -1}}}},
      {"dbi_defer_release", {DBI, {{ANY, -1}}}},
      {"dbi_close_release", {DBI, {{ANY, -1}}}},
      {"txn_basal_checkpoint", {WRT, {{Z, 0}, {TRUE_ | NZ, -1}}}},
      {"txn_basal_rollback", {WRT, {{Z, 0}, {TRUE_ | NZ, -1}}}},
      // public entry points
      {"mdbx_txn_lock", {WRT, {{Z, 1}, {TRUE_ | NZ, 0}}}},
      {"mdbx_txn_unlock", {WRT, {{Z, -1}, {TRUE_ | NZ, 0}}}},
      {"mdbx_txn_begin_ex", {WRT, {{Z, 1}, {Z, 0}, {TRUE_ | NZ, 0}}}},
      {"mdbx_txn_begin", {WRT, {{Z, 1}, {Z, 0}, {TRUE_ | NZ, 0}}}},
      {"mdbx_txn_amend", {WRT, {{Z, 1}, {TRUE_ | NZ, 0}}}},
      {"txn_commit", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"txn_abort", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"txn_abort_after_resurrect", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_commit_ex", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_commit", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_abort_ex", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_abort", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_commit_embark_read", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_checkpoint", {WRT, {{Z | TRUE_, 0}, {NZ, 0}, {TRUE_ | NZ, -1}}}},
      {"mdbx_txn_rollback", {WRT, {{Z | TRUE_, 0}, {NZ, 0}, {TRUE_ | NZ, -1}}}},
      {"mdbx_txn_rollback_ex", {WRT, {{Z | TRUE_, 0}, {NZ, 0}, {TRUE_ | NZ, -1}}}},
      // an owned transaction loses the lock when its checkpoint fails
      {"mdbx_env_defrag", {WRT, {{ANY, 0}, {ANY, -1}}}},
      {"mdbx_txn_copy2pathname", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_txn_copy2fd", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_env_resurrect_after_fork", {WRT, {{ANY, -1}, {ANY, 0}}}},
      {"mdbx_env_close_ex", {WRT, {{ANY, 0}, {ANY, -1}}}},
      {"mdbx_env_close", {WRT, {{ANY, 0}, {ANY, -1}}}},
  };
  return c;
}
struct LockClient : Client {
  RuleOut *R; const Function *F = nullptr; int basalMode = -1; bool low = false;
  std::set<const Instruction *> acq, rel; int64_t rets = 0;
  int64_t alreadyLocked = 0, rdonly = 0x20000;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return !n.starts_with("page_t") && !n.starts_with("node_t"); }
  bool pinned(const Expr *ptr, KeyId k) override { return P->keyName(k) == "osal_mmap.base" && memberAt(ptr) == "lck_mmap"; }
  bool keepFact(const Expr *e) override { return e->k == K_Field && pinned(e->a, e->key); }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override {
    for (auto &f : S.facts) if (f.first->k == K_Field && pinned(f.first->a, f.first->key)) S.aut.set(NLK + 1, f.second.isZero() ? 2 : f.second.nonZero() ? 1 : 0);
  }
  bool derefNonNull() override { return true; }
  static int mutexKind(StringRef n) {
    if (n.contains("dbi_lock")) return DBI;
    if (n.contains("remap_lock")) return REMAP;
    if (n.contains("debug_lock")) return DBG;
    return -1;
  }
  void report(const Instruction *I, State &S, const std::string &rule, int lk, const std::string &msg) {
    Finding f; f.rule = rule; locOf(I, &f.line, &f.file, &f.func); f.func = F->getName().str(); f.inst = f.func + ":" + kLk[lk]; f.msg = msg; f.path = traceLines(S.trace); R->add(f);
  }
  // name of the direct member of MDBX_env (or of the global state) the address falls into
  std::string memberAt(const Expr *m) {
    const Expr *r = rootExpr(m); int64_t off = m->k == K_Off ? m->c : 0;
    const DICompositeType *st = P->pointeeStruct(r);
    if (r->k == K_Global) if (auto *g = dyn_cast<GlobalVariable>(r->v)) { auto i = P->globType.find(g); if (i != P->globType.end()) st = dyn_cast_or_null<DICompositeType>(stripTD(i->second)); }
    if (st && m->k != K_Idx) for (auto *e : st->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member && d->getBaseType()) {
      int64_t o = d->getOffsetInBits() / 8, z = stripTD(d->getBaseType()) ? stripTD(d->getBaseType())->getSizeInBits() / 8 : 0;
      if (off >= o && off < o + z) return d->getName().str(); }
    return r->k == K_Global ? r->v->getName().str() : "";
  }
  // returns false when the state must die
  bool apply(State &S, const Instruction *I, int lk, int d, const std::string &by) {
    if (!d) return true;
    int64_t v = S.aut.get(lk) + d;
    E->note(S, I, std::string(kLk[lk]) + (d > 0 ? " acquired" : " released") + " by " + by + "()");
    if (v > 1) { report(I, S, "lock-acquired-twice", lk, std::string("the ") + kLk[lk] + " is acquired by " + by + "() while it is already held"); return false; }
    if (v < -1) { report(I, S, "lock-released-twice", lk, std::string("the ") + kLk[lk] + " is released by " + by + "() although it was already released"); return false; }
    S.aut.set(lk, v);
    return true;
  }
  int decideCond(State &S, const Expr *c) override {
    if (basalMode < 0 || c->k != K_Op || !c->b) return -1;
    unsigned p = c->op - OP_ICMP;
    if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) return -1;
    for (int k = 0; k < 2; k++) {
      const Expr *a = k ? c->b : c->a, *b = k ? c->a : c->b;
      if (b->k == K_Field && (P->keyName(b->key) == "MDBX_env.basal_txn" || P->keyName(b->key) == "MDBX_env.txn") && txnParam(a)) return (p == CmpInst::ICMP_EQ) == (basalMode == 1);
    }
    return -1;
  }
  bool txnParam(const Expr *a) {
    if (a->k == K_Param) return cast<Argument>(a->v)->getArgNo() == 0;
    return a->k == K_Field && a->a->k == K_Param && cast<Argument>(a->a->v)->getArgNo() == 0 && F->getName() == "mdbx_txn_commit_embark_read";
  }
  void fork(State &S, const CallBase *C, const Function *f, Lk lk, const std::vector<Case> &cases, std::vector<State> &out) {
    E->killByCall(S, C, f);
    bool isVoid = C->getType()->isVoidTy();
    if (!isVoid) E->purge(S, C);
    unsigned w = isVoid ? 32 : C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 64;
    for (auto &k : cases) {
      for (int bit : {(int)Z, (int)TRUE_, (int)NZ, NZ | 8}) {
        if (!(k.ret & bit & 7)) continue;
        if (isVoid && bit != Z) continue;
        State T = S;
        if (!isVoid) {
          if (bit == Z) T.env[C] = P->cst(w, 0);
          else if (bit == TRUE_) T.env[C] = P->cst(w, -1);
          else { const Expr *r = P->opaque(C, 0, w); T.env[C] = r; AbsVal v = AbsVal::top(w); if (bit & 8) { v.smax = -2; v.one |= 1ull << (w - 1); } else { v.smin = 1; v.zero |= 1ull << (w - 1); } v.normalize(); E->assumeVal(T, r, v, 0); }
        }
        if (!apply(T, C, lk, k.delta, f->getName().str())) continue;
        out.push_back(std::move(T));
        // identical effect for 0 and -1 still needs separate return values
      }
    }
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    if (!f) return false;
    auto n = f->getName();
    if (low) { // below the primitives: the system mutex itself
      int lk = F->getName().contains("rthc") ? RTHC : WRT;
      if (n == "pthread_mutex_lock" || n == "pthread_mutex_trylock" || n == "osal_pthread_mutex_lock") {
        acq.insert(C);
        E->killByCall(S, C, f); E->purge(S, C);
        State A = S; A.env[C] = P->cst(32, 0); if (apply(A, C, lk, 1, n.str())) out.push_back(std::move(A));
        if (lk == WRT) { State D = S; D.env[C] = P->cst(32, 130 /* EOWNERDEAD */); if (apply(D, C, lk, 1, n.str())) out.push_back(std::move(D)); }
        State B = S; const Expr *r = P->opaque(C, 0, 32); B.env[C] = r; AbsVal v = AbsVal::top(32); v.neq = {0, 130, -1}; v.normalize(); E->assumeVal(B, r, v, 0); out.push_back(std::move(B));
        return true;
      }
      if (n == "pthread_mutex_unlock") { rel.insert(C); if (!apply(S, C, lk, -1, n.str())) return true; return false; }
      if (n == "osal_ipclock_failed") { // called with the lock held iff the owner died
        E->killByCall(S, C, f); E->purge(S, C);
        int64_t cv; AbsVal v = E->abs(S, E->eval(S, C->getArgOperand(2)));
        bool dead = v.isConst(cv) && cv == 130;
        for (int ok = dead ? 1 : 0; ok >= 0; ok--) { State T = S; if (ok) T.env[C] = P->cst(32, -1); else { const Expr *r = P->opaque(C, 0, 32); T.env[C] = r; AbsVal x = AbsVal::top(32); x.neq = {0, -1}; x.normalize(); E->assumeVal(T, r, x, 0); if (dead && !apply(T, C, WRT, -1, "osal_ipclock_failed")) continue; } out.push_back(std::move(T)); }
        return true;
      }
      if (n == "osal_ipclock_lock") { acq.insert(C); fork(S, C, f, WRT, {{Z | TRUE_, 1}, {NZ, 0}}, out); return true; }
      if (n == "osal_ipclock_unlock") { rel.insert(C); fork(S, C, f, WRT, {{Z, -1}, {NZ, -1}}, out); return true; }
      return false;
    }
    if (n == "osal_fastmutex_acquire" || n == "osal_pthread_mutex_lock" || n == "pthread_mutex_lock" || n == "osal_fastmutex_release" || n == "pthread_mutex_unlock") {
      const Expr *m = E->eval(S, C->getArgOperand(0));
      int lk = mutexKind(memberAt(m));
      if (lk < 0 && m->k == K_Global) lk = mutexKind(m->v->getName());
      if (lk < 0) { std::string s = P->str(m); lk = mutexKind(s); if (lk < 0 && StringRef(s).contains("rthc_mutex")) lk = RTHC; }
      if (lk < 0) { // mutexes of other objects (write-ahead queues of tools etc.) are not locks of the environment
        const Expr *rt = rootExpr(m); auto *st = P->pointeeStruct(rt);
        if (rt->k == K_Global || !st || st->getName() == "MDBX_env") unknown.insert(C);
        return false; }
      if (n.contains("acquire") || n.ends_with("mutex_lock")) { acq.insert(C); fork(S, C, f, (Lk)lk, {{Z, 1}, {NZ, 0}}, out); }
      else { rel.insert(C); fork(S, C, f, (Lk)lk, {{Z, -1}, {NZ, -1}}, out); }
      return true;
    }
    if (n == "txn_basal_start") {
      AbsVal v = E->abs(S, E->eval(S, C->getArgOperand(1)));
      if (v.one & alreadyLocked) { rel.insert(C); fork(S, C, f, WRT, {{Z, 0}, {TRUE_ | NZ, -1}}, out); }
      else if ((v.zero & alreadyLocked) == (uint64_t)alreadyLocked) { acq.insert(C); fork(S, C, f, WRT, {{Z, 1}, {TRUE_ | NZ, 0}}, out); }
      else { report(C, S, "unclear-lock-request", WRT, "txn_basal_start() is called with flags that may or may not contain txn_rw_already_locked"); return false; }
      return true;
    }
    if (n == "txn_basal_end") {
      AbsVal v = E->abs(S, E->eval(S, C->getArgOperand(1)));
      rel.insert(C);
      if (v.isZero()) fork(S, C, f, WRT, {{Z, 0}, {TRUE_ | NZ, -1}}, out);
      else if (v.nonZero()) fork(S, C, f, WRT, {{ANY, -1}}, out);
      else fork(S, C, f, WRT, {{Z, 0}, {ANY, -1}}, out);
      return true;
    }
    if (n == "txn_basal_commit") S.aut.set(NLK, 1);
    auto r = contracts().equal_range(n.str());
    if (r.first != r.second) {
      static const std::set<std::string> enders = {"txn_commit", "txn_abort", "txn_abort_after_resurrect", "mdbx_txn_commit_ex", "mdbx_txn_commit", "mdbx_txn_abort_ex", "mdbx_txn_abort"};
      if (enders.count(n.str())) {
        // of a nested transaction, or of a read transaction begun by this very function: no lock is involved
        const Expr *t = E->eval(S, C->getArgOperand(0));
        bool nested = t->k == K_Field && P->keyName(t->key) == "MDBX_txn.nested";
        if (nested || (roBegins && t->k != K_Param)) return false;
        if (basalMode >= 0 && t->k == K_Param) {
          if (!basalMode) return false;
          rel.insert(C); fork(S, C, f, WRT, {{ANY, -1}}, out); return true;
        }
      }
      if (n == "mdbx_txn_begin_ex" || n == "mdbx_txn_begin") {
        AbsVal v = E->abs(S, E->eval(S, C->getArgOperand(2)));
        if (v.one & rdonly) return false;
      }
      bool a = false, d = false;
      for (auto &k : r.first->second.cases) { a |= k.delta > 0; d |= k.delta < 0; }
      if (a) acq.insert(C);
      if (d) rel.insert(C);
      // an unlock refused to the owner cannot be helped by the caller
      if (n == "mdbx_txn_unlock") { fork(S, C, f, WRT, {{ANY, -1}}, out); return true; }
      fork(S, C, f, r.first->second.lk, r.first->second.cases, out);
      return true;
    }
    return false;
  }
  std::set<const Instruction *> unknown;
  std::vector<Case> allowed[NLK];
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    rets++;
    int cls = ANY;
    if (ret) { AbsVal v = E->abs(S, ret); int64_t c; cls = 0; if (v.isZero()) cls = Z; else { if (v.isConst(c) && (int32_t)c == -1) cls = TRUE_; else { cls = NZ; if (!v.neq.count(-1)) {} if (!v.nonZero()) cls |= Z; } } }
    for (int lk = 0; lk < NLK; lk++) {
      int d = S.aut.get(lk);
      bool ok = false;
      for (auto &k : allowed[lk]) if (k.delta == d && ((k.ret & cls) == cls || cls == ANY)) ok = true;
      if (cls == (Z | NZ)) { bool z = false, nz = false; for (auto &k : allowed[lk]) if (k.delta == d) { if (k.ret & Z) z = true; if (k.ret & NZ) nz = true; } ok |= z && nz; }
      if (!ok) {
        std::string how = d == 1 ? "is still held" : d == -1 ? "was released although the function must leave it held" : "was not handled as its contract demands";
        report(Rt, S, d > 0 ? "lock-leaked" : d < 0 ? "lock-released-without-being-held" : "lock-not-released", lk, std::string("the ") + kLk[lk] + " " + how + " on a path returning " + (cls == Z ? "success" : cls == TRUE_ ? "MDBX_RESULT_TRUE" : cls == NZ ? "an error" : "any value"));
      }
    }
    if (mustEndAfterCommit && S.aut.get(NLK) && S.aut.get(WRT) != -1)
      report(Rt, S, "lock-not-released", WRT, "the writer lock is still held on return after the outermost transaction was committed or failed to commit");
  }
  bool mustEndAfterCommit = false, roBegins = false;
};
static int64_t enumerator(Program &P, StringRef name, int64_t dflt) {
  DebugInfoFinder f; f.processModule(*P.M);
  for (auto *t : f.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : c->getElements()) if (auto *n = dyn_cast<DIEnumerator>(e)) if (n->getName() == name) return n->getValue().getSExtValue();
  return dflt;
}
RULE(C03) {
  int64_t fns = 0, acq = 0, rel = 0, rets = 0, blocks = 0;
  int64_t already = enumerator(P, "txn_rw_already_locked", 0);
  if (!already) R.errors.push_back("analysis broken: txn_rw_already_locked not found");
  auto lockish = [&](StringRef n) { return n == "osal_fastmutex_acquire" || n == "osal_fastmutex_release" || n == "txn_basal_start" || n == "txn_basal_end" || n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "pthread_mutex_trylock" || n == "osal_pthread_mutex_lock" || n == "osal_ipclock_lock" || n == "osal_ipclock_unlock" || n == "osal_ipclock_failed" || contracts().count(n.str()); };
  std::map<std::string, int> perLock;
  for (auto &x : P.info) { const Function *F = x.first; auto fn = F->getName();
    bool has = false;
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (f && lockish(f->getName())) has = true; }
    if (!has) continue;
    // thin wrappers over the system mutex
    static const char *wrappers[] = {"osal_fastmutex_acquire", "osal_fastmutex_release", "osal_pthread_mutex_lock", "osal_condpair_lock", "osal_condpair_unlock"};
    // read transactions begun by this very function
    bool roB = false, rwB = false;
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (f && (f->getName() == "mdbx_txn_begin" || f->getName() == "mdbx_txn_begin_ex") && C->arg_size() > 2) {
      auto *k = dyn_cast<ConstantInt>(C->getArgOperand(2)); (k && (k->getZExtValue() & 0x20000) ? roB : rwB) = true; } }
    bool wrap = fn.starts_with("__inline_"); for (auto *w : wrappers) if (fn == w) wrap = true;
    if (wrap || fn.contains("condpair") || fn == "thread_dtor" || fn == "rthc_thread_dtor") continue;
    bool low = fn.starts_with("osal_ipclock_") || fn == "lck_txn_lock" || fn == "lck_txn_unlock" || fn == "lck_rdt_lock" || fn == "lck_rdt_unlock" || fn == "rthc_lock" || fn == "rthc_unlock";
    struct Mode { int basal; int flag; };
    std::vector<Mode> modes = {{-1, -1}};
    if (fn == "txn_commit" || fn == "txn_abort") modes = {{1, -1}, {0, -1}};
    if (fn == "txn_basal_start" || fn == "txn_basal_end") modes = {{-1, 0}, {-1, 1}};
    for (auto &m : modes) {
      LockClient c; Engine E(P, c); E.maxDisj = std::max(O.disj, 96u); c.R = &R; c.F = F; c.low = low; c.basalMode = m.basal; c.alreadyLocked = already; c.roBegins = roB && !rwB;
      for (int l = 0; l < NLK; l++) c.allowed[l] = {{ANY, 0}};
      State S = E.entryState(F);
      auto r = contracts().equal_range(fn.str());
      if (low) {
        int l = fn.starts_with("rthc") ? RTHC : WRT;
        if (fn == "osal_ipclock_lock" || fn == "lck_rdt_lock") c.allowed[l] = {{Z | TRUE_, 1}, {NZ, 0}};
        else if (fn == "lck_txn_lock") c.allowed[l] = {{Z, 1}, {TRUE_, 1}, {NZ, 0}};
        else if (fn == "osal_ipclock_failed") { // entered with the lock held iff err == EOWNERDEAD
          c.allowed[l] = {{ANY, 0}, {NZ, -1}};
        }
        else if (fn == "rthc_lock") c.allowed[l] = {{ANY, 1}};
        else c.allowed[l] = {{ANY, -1}};
      } else {
        if (r.first != r.second) c.allowed[r.first->second.lk] = r.first->second.cases;
        if (m.basal == 1) c.allowed[WRT] = fn == "txn_abort" ? std::vector<Case>{{ANY, -1}, {NZ, 0}} : std::vector<Case>{{ANY, -1}};
        if (m.basal == 0) c.allowed[WRT] = {{ANY, 0}};
        if (fn == "txn_commit" || fn == "mdbx_txn_commit_embark_read") c.mustEndAfterCommit = true;
        if (m.flag >= 0) {
          Expr e; e.k = K_Param; e.v = F->getArg(1); e.w = F->getArg(1)->getType()->getIntegerBitWidth(); const Expr *pe = P.mk(e);
          if (fn == "txn_basal_start") {
            AbsVal v = AbsVal::top(e.w); if (m.flag) v.one |= already; else v.zero |= already; v.normalize(); S.facts[pe] = v;
            c.allowed[WRT] = m.flag ? std::vector<Case>{{Z, 0}, {TRUE_ | NZ, -1}} : std::vector<Case>{{Z, 1}, {TRUE_ | NZ, 0}};
          } else {
            S.env[F->getArg(1)] = P.cst(e.w, m.flag);
            c.allowed[WRT] = m.flag ? std::vector<Case>{{ANY, -1}} : std::vector<Case>{{Z, 0}, {TRUE_ | NZ, -1}};
          }
        }
      }
      E.run(F, S);
      if (E.budgetHit) R.errors.push_back("budget exhausted in " + fn.str());
      for (auto *u : c.unknown) { unsigned l; locOf(u, &l); R.errors.push_back("analysis broken: unknown mutex at line " + std::to_string(l)); }
      fns++; acq += c.acq.size(); rel += c.rel.size(); rets += c.rets; blocks += E.blocks;
      R.sample(fn.str() + ": " + std::to_string(c.acq.size()) + " acquisition(s), " + std::to_string(c.rel.size()) + " release(s), " + std::to_string(c.rets) + " return state(s)", 40);
    }
  }
  R.need("functions_touching_locks", fns, 30); R.need("acquisitions", acq, 15); R.need("releases", rel, 20); R.stats["return_states"] = rets; R.stats["block_states"] = blocks;
}
} // namespace va
