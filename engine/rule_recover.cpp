// C31: recovery of shared state after the death of a lock owner. C33: recovery when a database is opened.
#include "order_base.h"
namespace va {
namespace {
template <class T> void drive(Program &P, RuleOut &R, const Options &O, T &c, const char *fn, std::function<void(Engine &, State &, Function *)> init = nullptr) {
  Function *F = P.fn(fn); if (!F || F->isDeclaration()) { R.errors.push_back(std::string("analysis broken: no function ") + fn); return; }
  c.R = &R; c.F = F; c.P = &P; Engine E(P, c); E.maxDisj = O.disj * 2; State S = E.entryState(F); if (init) init(E, S, F); E.run(F, S);
  R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; R.stats["functions"]++;
  if (E.budgetHit) R.errors.push_back(std::string("budget exceeded in ") + fn);
  R.sample(std::string(fn) + (c.cfg.empty() ? "" : " [" + c.cfg + "]") + ": " + std::to_string(c.events) + " events, " + std::to_string(c.obligations) + " obligations", 40);
}
const Expr *bare(const Expr *e) { while (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::SExt || e->op == Instruction::Trunc)) e = e->a; return e; }
struct RecBase : Base {
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return Base::trackKey(k) || n.starts_with("reader_slot.") || n.starts_with("shared_lck."); }
  bool isF(const Expr *e, StringRef k) { return e->k == K_Field && P->keyName(e->key) == k; }
  bool of(const Expr *p, const Expr *t) { return t && mentions(p, [&](const Expr *x) { return x == t; }); }
  bool isLck(State &S, const Expr *e) { const Expr *l = P->off(param(0), (fld(S, param(0), "MDBX_env", "lck_mmap", 64), offs["MDBX_env.lck_mmap"].first)); return e->k == K_Field && e->a == l; }
  // 0 and -1 are the two positive outcomes
  bool maySucceed(State &S, const Expr *r) { AbsVal v = E->abs(S, r); auto c = [&](int64_t k) { AbsVal x = AbsVal::cst(v.w, k); x.meet(v); return !x.bottom(); }; return c(0) || c(-1); }
  bool positive(State &S, const Expr *r) { int64_t c; return E->abs(S, r).isConst(c) && (c == 0 || (int32_t)c == -1); }
};
enum { F_CLEAN = 1, F_CONS, F_NOTXN, F_TXN, F_UNL, F_FATAL };
enum { T_CL = 1, T_CO, T_TX };
// osal_ipclock_failed()
struct Failed : RecBase {
  bool rdt = false, owner = false; int64_t code = 0, seen = 0;
  void upd(State &S) {
    if (const Expr *c = tag(S, T_CL)) if (positive(S, c)) { S.aut.set(F_CLEAN, 1); clearTag(S, T_CL); }
    settle(S, T_CO, F_CONS);
    if (const Expr *t = tag(S, T_TX)) { if (E->abs(S, t).isZero()) { S.aut.set(F_NOTXN, 1); clearTag(S, T_TX); } else if (E->abs(S, t).nonZero()) { S.aut.set(F_TXN, 1); clearTag(S, T_TX); } }
  }
  void onInst(State &S, const Instruction *) override { if (E->stack.empty()) upd(S); }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override { if (E->stack.empty()) upd(S); }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override { if (E->stack.empty() && P->keyName(key) == "MDBX_env.txn") { setTag(S, T_TX, S.env[L]); events++; } }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override { if (P->keyName(key) == "MDBX_env.flags" && (E->abs(S, val).one & FATAL)) { S.aut.set(F_FATAL, 1); events++; } }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty() || !f) return false; StringRef n = f->getName();
    if (n == "mvcc_cleanup_dead") { obligations++; AbsVal a = E->abs(S, E->eval(S, C->getArgOperand(1)));
      if (owner && !rdt && !a.isZero()) say("reader-lock-not-held", C, "r", "repairs the reader table as if its lock were held, although it is the write lock whose owner died", S);
      if (owner && rdt && !a.nonZero()) say("self-deadlock", C, "r", "lets the repair of the reader table acquire the reader lock that is already held", S); }
    if (n.starts_with("pthread_mutex_") && C->arg_size() && !isParam(E->eval(S, C->getArgOperand(0)), 1) && E->eval(S, C->getArgOperand(0)) != E->eval(S, F->getArg(1))) say("other-lock", C, "m", "operates on a lock other than the one whose owner died", S);
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (n == "mvcc_cleanup_dead" && S.env.count(C)) { events++; seen++; setTag(S, T_CL, S.env[C]); S.aut.set(F_CLEAN, 0); }
    if (n.starts_with("pthread_mutex_consistent") && S.env.count(C)) { E->assumeCmp(S, CmpInst::ICMP_SGE, S.env[C], P->cst(32, 0)); events++; seen++; setTag(S, T_CO, S.env[C]); S.aut.set(F_CONS, 0); }
    if (n == "pthread_mutex_unlock") S.aut.set(F_UNL, 1);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; State S = S0; upd(S); obligations++; int64_t c;
    if (!owner) {
      if (!E->abs(S, ret).isConst(c) || (int32_t)c != code) say("lock-error-lost", Rt, "code", "does not return the error with which the lock failed", S);
      if (code != 35 && !S.aut.get(F_FATAL)) say("not-fatal", Rt, "fatal", "lets the environment be used after its lock failed", S);
      return;
    }
    if (maySucceed(S, ret)) {
      obligations += 3;
      if (!S.aut.get(F_CLEAN)) say("not-cleaned", Rt, "clean", "may report the lock as recovered although the dead readers were not (successfully) removed", S);
      if (!S.aut.get(F_CONS)) say("not-consistent", Rt, "cons", "may report the lock as recovered although it was not (successfully) marked as consistent", S);
      if (!rdt && !S.aut.get(F_NOTXN)) say("own-txn-lost", Rt, "txn", "may report the write lock as recovered without knowing that no transaction of this process died with its owner", S);
      if (S.aut.get(F_UNL)) say("recovered-unlocked", Rt, "unl", "may report success after having released the lock", S);
    } else if (!S.aut.get(F_UNL)) say("failed-locked", Rt, "unl", "fails with the lock still held", S);
    if (S.aut.get(F_TXN)) { obligations++; if (!S.aut.get(F_FATAL)) say("not-fatal", Rt, "fatal", "does not mark the environment as unusable although a transaction of this process died with the lock", S); }
  }
};
// osal_ipclock_lock()
struct LockFn : RecBase {
  int64_t seen = 0;
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty() || !f) return false; StringRef n = f->getName();
    if (n == "osal_ipclock_failed") { obligations++; events++; const Expr *t = tag(S, T_CL), *a = E->eval(S, C->getArgOperand(2)); int64_t x, y;
      if (!t || (a != t && !(E->abs(S, a).isConst(x) && E->abs(S, t).isConst(y) && x == y))) say("other-code", C, "code", "asks for recovery with a code other than the one the lock returned", S);
      if (E->eval(S, C->getArgOperand(1)) != param(1)) say("other-lock", C, "m", "asks for the recovery of a lock other than the acquired one", S); }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f || !S.env.count(C)) return; StringRef n = f->getName();
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_trylock") { events++; seen++; setTag(S, T_CL, S.env[C]); clearTag(S, T_CO); E->assumeCmp(S, CmpInst::ICMP_SGE, S.env[C], P->cst(32, 0)); }
    if (n == "osal_ipclock_failed") { events++; seen++; setTag(S, T_CO, S.env[C]); }
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; obligations++;
    if (const Expr *r = tag(S, T_CO)) { if (ret != r && !E->assumeCmp(S, CmpInst::ICMP_EQ, ret, r)) say("recovery-result-lost", Rt, "rec", "does not return the outcome of the recovery", S); else if (ret != r && E->decideCmp(S, CmpInst::ICMP_EQ, ret, r) != 1) say("recovery-result-lost", Rt, "rec", "does not return the outcome of the recovery", S); return; }
    const Expr *l = tag(S, T_CL); State T = S;
    if (l && !maySucceed(S, ret) && E->decideCmp(S, CmpInst::ICMP_EQ, l, P->cst(l->w, 130)) != 0) say("dead-owner-ignored", Rt, "dead", "may return with the lock of a dead owner in its hands and nothing recovered", S);
    if (!maySucceed(S, ret)) return;
    if (!l) { say("no-lock", Rt, "lock", "may report success without having locked", S); return; }
    if (!E->abs(S, l).isZero()) { // is it so whenever success is returned?
      if (E->assumeCmp(T, CmpInst::ICMP_EQ, ret, P->cst(ret->w, 0)) && !E->abs(T, l).isZero() && E->decideCmp(T, CmpInst::ICMP_EQ, ret, l) != 1) say("dead-owner-ignored", Rt, "dead", "may report success although the lock reported a failure or the death of its owner and nothing was recovered", S);
    }
  }
};
// lck_rdt_lock(), lck_txn_lock()
struct LockApi : RecBase {
  int64_t seen = 0; bool txn = false;
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (E->stack.empty() && f && f->getName() == "osal_ipclock_lock" && S.env.count(C)) { events++; seen++; setTag(S, T_CL, S.env[C]); } }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override { if (P->keyName(key) == "MDBX_txn.owner" && E->abs(S, val).isZero()) say("no-owner", I, "owner", "forgets the thread that owns the write lock", S); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (E->stack.empty() && f && f->getName() == "osal_ipclock_lock") { obligations++; const Expr *a = E->eval(S, C->getArgOperand(1)); StringRef k = P->keyName(P->keyOf(a, 40)); std::string s = P->str(a);
      (void)k; uint64_t o = addrOff(a); if (o != want) say("other-lock", C, "m", "acquires another lock than the one it is for", S); }
    return false;
  }
  uint64_t want = 0; static uint64_t addrOff(const Expr *a) { uint64_t o = 0; while (a->k == K_Off) { o += a->c; a = a->a; } return o; }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; obligations++; const Expr *l = tag(S, T_CL);
    if (!maySucceed(S, ret)) { if (l && positive(S, l)) say("locked-error", Rt, "err", "reports an error although the lock is held", S); return; }
    if (!l) { say("no-lock", Rt, "lock", "may report success without having locked", S); return; }
    if (ret == l || positive(S, l)) return;
    say("lock-failure-ignored", Rt, "lock", "may report success although the lock was not obtained", S);
  }
};
enum { I_SH = 1, I_RB, I_R, I_W, I_ATTR };
// lck_init()
struct InitFn : RecBase {
  int64_t seen = 0; uint64_t rd = 0, wr = 0;
  void upd(State &S) { for (int r : {I_SH, I_RB, I_R, I_W}) settle(S, r, r); }
  void onInst(State &S, const Instruction *) override { upd(S); }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override { upd(S); }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f || !S.env.count(C)) return; StringRef n = f->getName(); const Expr *r = S.env[C]; int64_t c;
    if (n.starts_with("pthread_mutexattr_setpshared")) { events++; if (E->abs(S, E->eval(S, C->getArgOperand(1))).isConst(c) && c == 1) setTag(S, I_SH, r); }
    if (n.starts_with("pthread_mutexattr_setrobust")) { events++; if (E->abs(S, E->eval(S, C->getArgOperand(1))).isConst(c) && c == 1) setTag(S, I_RB, r); }
    if (n == "pthread_mutex_init") { events++; seen++; obligations += 2; upd(S);
      if (!S.aut.get(I_SH)) say("lock-not-shared", C, "sh", "creates a lock which is not known to be shared between processes", S);
      if (!S.aut.get(I_RB)) say("lock-not-robust", C, "rb", "creates a lock which does not report the death of its owner", S);
      if (E->eval(S, C->getArgOperand(1))->isConst(0)) say("lock-not-robust", C, "attr", "creates a lock with default attributes", S);
      uint64_t o = LockApi::addrOff(E->eval(S, C->getArgOperand(0))); if (o == rd) setTag(S, I_R, r); if (o == wr) setTag(S, I_W, r); }
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!ret || !success(S, ret)) return; upd(S); obligations += 2;
    if (!S.aut.get(I_R)) say("lock-not-initialised", Rt, "r", "may report success although the reader lock was not initialised", S);
    if (!S.aut.get(I_W)) say("lock-not-initialised", Rt, "w", "may report success although the write lock was not initialised", S);
  }
};
enum { K_LOCKED = 1, K_DEAD, K_LLK, K_RF, K_ALL, K_SAME, K_NOLCK };
enum { U_LOCK = 1, U_PID, U_PTR, U_CAND, U_VERD, U_OKP, U_LEN, U_TAB };
// mvcc_cleanup_dead()
struct Cleanup : RecBase {
  int64_t clears = 0, verdicts = 0;
  void upd(State &S) {
    if (const Expr *l = tag(S, U_LOCK)) if (positive(S, l)) { int64_t c; E->abs(S, l).isConst(c); S.aut.set(K_LOCKED, 1); if (c) S.aut.set(K_ALL, 1); clearTag(S, U_LOCK); }
    if (const Expr *v = tag(S, U_VERD)) { if (E->abs(S, v).isZero()) { S.aut.set(K_DEAD, 1); clearTag(S, U_VERD); } else if (E->abs(S, v).nonZero()) clearTag(S, U_VERD); }
  }
  void onInst(State &S, const Instruction *) override { if (E->stack.empty()) upd(S); }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key); const Expr *v = S.env[L];
    if (n == "reader_slot.pid") { events++; setTag(S, U_PID, v); setTag(S, U_PTR, ptr); clearTag(S, U_OKP); S.aut.set(K_LLK, S.aut.get(K_LOCKED)); }
    if (n == "shared_lck.rdt_length") { events++; setTag(S, U_LEN, v); }
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty() || !f || f->getName() != "lck_op") return false; verdicts++; obligations += 2;
    const Expr *p = bare(E->eval(S, C->getArgOperand(3))); setTag(S, U_CAND, p); S.aut.set(K_DEAD, 0);
    if (!E->abs(S, p).nonZero()) say("verdict-free-slot", C, "zero", "asks for the fate of a process which may be none", S);
    if (E->decideCmp(S, CmpInst::ICMP_EQ, p, fld(S, param(0), "MDBX_env", "pid", 32)) != 0) say("verdict-self", C, "self", "may ask for the fate of its own process (which its own locks do not reveal)", S);
    if (!isGetlk(E->eval(S, C->getArgOperand(1)))) say("verdict-changes-lock", C, "cmd", "does not merely query the mark of the other process", S);
    int64_t c; if (!E->abs(S, E->eval(S, C->getArgOperand(4))).isConst(c) || c != 1) say("verdict-range", C, "len", "does not query exactly the mark of the one process", S);
    if (tag(S, U_PID) && bare(tag(S, U_PID)) == p && S.aut.get(K_LLK)) setTag(S, U_OKP, tag(S, U_PTR));
    return false;
  }
  bool isGetlk(const Expr *e) { int64_t c; State S; if (E->abs(S, e).isConst(c)) return c == 5 || c == 36; return mentions(e, [&](const Expr *x) { return x->k == K_Global && x->v->getName().contains("getlk"); }) || (e->k == K_Field && P->keyName(e->key).contains("getlk")); }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (n == "lck_rdt_unlock") S.aut.set(K_LOCKED, 0);
    if (n == "lck_rdt_lock" && S.env.count(C)) { events++; setTag(S, U_LOCK, S.env[C]); S.aut.set(K_DEAD, 0); clearTag(S, U_VERD); clearTag(S, U_OKP); }
    if (n == "lck_op" && S.env.count(C)) { events++; setTag(S, U_VERD, S.env[C]); }
  }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    if (!E->stack.empty()) return; upd(S);
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    if (x->k == K_Const) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (y->isConst(0) && isLck(S, x) && p == CmpInst::ICMP_EQ) S.aut.set(K_NOLCK, 1);
    const Expr *bx = bare(x), *by = bare(y), *cand = tag(S, U_CAND), *pid = tag(S, U_PID) ? bare(tag(S, U_PID)) : nullptr;
    if (cand && pid && p == CmpInst::ICMP_EQ && ((bx == cand && by == pid) || (bx == pid && by == cand))) setTag(S, U_OKP, tag(S, U_PTR));
    if (const Expr *l = tag(S, U_LEN)) { l = bare(l); if (bx == l) { std::swap(bx, by); p = CmpInst::getSwappedPredicate(p); } if (by == l && bx != l) { if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_SGE) S.aut.set(K_ALL, 1); else if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_NE || p == CmpInst::ICMP_SLT) S.aut.set(K_ALL, 0); } }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!E->stack.empty()) return; upd(S); auto n = P->keyName(key);
    if (n == "shared_lck.rdt_refresh_flag" && E->abs(S, val).nonZero()) { events++; S.aut.set(K_RF, 0); }
    if (!n.starts_with("reader_slot.")) return;
    clears++; events++; obligations += 3;
    if (!S.aut.get(K_LOCKED)) say("cleared-unlocked", I, "lock", "clears a reader slot without holding the lock of the table", S);
    if (!S.aut.get(K_DEAD)) say("cleared-alive", I, "dead", "clears the slot of a process which was not found to be dead since the lock was obtained", S);
    if (tag(S, U_OKP) != ptr) say("cleared-foreign", I, "pid", "clears a slot which was not seen (under the lock) to belong to the dead process", S);
    if (n == "reader_slot.pid") S.aut.set(K_RF, 1);
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; upd(S); obligations += 2;
    if (S.aut.get(K_RF)) say("cache-not-invalidated", Rt, "rf", "removes a reader without marking the cached oldest snapshot as stale", S);
    if (!S.aut.get(K_ALL) && !S.aut.get(K_NOLCK) && success(S, ret)) say("table-not-finished", Rt, "all", "may report success without having looked at all slots", S);
  }
};
// lck_op(): what a query answers
struct OpFn : RecBase {
  int64_t seen = 0; enum { Q = 1, LT = 2 };
  bool trackKey(KeyId k) override { return true; }
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (f && f->getName().starts_with("fcntl") && S.env.count(C)) { seen++; events++; setTag(S, T_CL, S.env[C]); clearTag(S, T_CO); S.aut.set(LT, 0); int64_t k; S.aut.set(Q, !E->abs(S, E->eval(S, C->getArgOperand(1))).isConst(k) ? 0 : k == 5 || k == 36 ? 1 : 2); } }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override { if (L->getType()->isIntegerTy(16)) setTag(S, T_CO, S.env[L]); }
  void onInst(State &S, const Instruction *) override { int64_t c; if (const Expr *t = tag(S, T_CO)) { if (E->abs(S, t).isConst(c) && (c & 0xffff) == 2) S.aut.set(LT, 1); else if (E->decideCmp(S, CmpInst::ICMP_EQ, t, P->cst(16, 2)) == 0) S.aut.set(LT, 2); } }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    auto g = [&](const Expr *e) { return mentions(e, [&](const Expr *z) { return (z->k == K_Global && z->v->getName().contains("getlk")) || (z->k == K_Field && P->keyName(z->key).contains("getlk")); }); };
    if (g(x) || g(y)) S.aut.set(Q, p == CmpInst::ICMP_EQ ? 1 : 2);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!ret) return; obligations++; State S = S0; const Expr *rc = tag(S, T_CL);
    if (!success(S, ret)) return;
    if (!rc || E->decideCmp(S, CmpInst::ICMP_EQ, rc, P->cst(rc->w, -1)) != 0) { say("lock-call-failed", Rt, "rc", "may report success although fcntl() failed", S); return; }
    if (S.aut.get(Q) == 2) return;
    obligations++;
    if (S.aut.get(LT) != 1) say("verdict-wrong", Rt, "unlck", "may report a process as dead although its mark was not found to be free", S);
  }
};
// lck_setup_locked() when nobody else uses the lock file
struct SetupLck : RecBase {
  int64_t seen = 0; enum { Z = 1, INI = 2, NOFILE = 3 };
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    if (!E->stack.empty() || !f) return false;
    if (f->getName() == "lck_seize") { seen++; State T = S; T.env[C] = P->cst(32, -1); out.push_back(T); return true; }
    return false;
  }
  bool shared(State &S, const Expr *e) { return isLck(S, addrRoot(e)); }
  void onInst(State &S, const Instruction *I) override {
    if (!E->stack.empty()) return; settle(S, INI, INI);
    if (auto *M = dyn_cast<MemSetInst>(I)) { const Expr *d = E->eval(S, M->getRawDest()), *v = E->eval(S, M->getValue()); int64_t c; if (shared(S, d) && E->abs(S, v).isZero() && !(E->abs(S, E->eval(S, M->getLength())).isConst(c) && c < 4096)) { events++; S.aut.set(Z, 1); } }
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (n == "lck_downgrade") S.aut.set(NOFILE, 1);
    if (n == "lck_init" && S.env.count(C)) { E->assumeCmp(S, CmpInst::ICMP_NE, S.env[C], P->cst(32, -1)); seen++; events++; obligations++; int64_t c; if (!S.aut.get(NOFILE)) { if (!E->abs(S, E->eval(S, C->getArgOperand(2))).isConst(c) || (int32_t)c != -1) say("locks-not-recreated", C, "ini", "does not have the locks created anew although nobody else uses the lock file", S); if (!S.aut.get(Z)) say("lock-file-not-cleared", C, "zero", "creates the locks inside of a region which was not cleared", S); } setTag(S, INI, S.env[C]); }
  }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override { const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return; if (x->k == K_Const) std::swap(x, y); if (y->k == K_Const && (int32_t)y->c == -1 && p == CmpInst::ICMP_EQ && x->k == K_Field && P->keyName(x->key).ends_with("fd")) S.aut.set(NOFILE, 1); settle(S, INI, INI); }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; State S = S0; obligations++; if (!positive(S, ret) || S.aut.get(NOFILE)) return; settle(S, INI, INI);
    if (!S.aut.get(Z)) say("lock-file-not-cleared", Rt, "zero", "may report exclusive use while the marks of former users are still in the lock file", S);
    if (!S.aut.get(INI)) say("locks-not-recreated", Rt, "ini", "may report success although the locks were not created", S);
  }
};
}
RULE(C31) {
  auto i = P.structs.find("shared_lck"); bool ok1 = false, ok2 = false; uint64_t rd = 0, wr = 0;
  if (i != P.structs.end()) { rd = memberOff(i->second, "rdt_lock", ok1); wr = memberOff(i->second, "wrt_lock", ok2); }
  if (!ok1 || !ok2) { R.errors.push_back("analysis broken: lock fields"); return; }
  int64_t seen = 0;
  for (int rdt = 0; rdt < 2; rdt++) for (int64_t code : {130, 22, 131, 35}) {
    Failed c; c.rdt = rdt; c.code = code; c.owner = code == 130; c.cfg = std::string(rdt ? "reader lock" : "write lock") + ", code " + std::to_string(code);
    drive(P, R, O, c, "osal_ipclock_failed", [&](Engine &E, State &S, Function *F) { c.E = &E; S.env[F->getArg(1)] = P.off(c.fld(S, c.param(0), "MDBX_env", "lck", 64), rdt ? rd : wr); S.env[F->getArg(2)] = P.cst(32, code); });
    seen += c.seen;
  }
  R.need("recovery_steps", seen, 4);
  { LockFn c; drive(P, R, O, c, "osal_ipclock_lock"); R.need("lock_calls", c.seen, 3); }
  { LockApi c; c.want = rd; drive(P, R, O, c, "lck_rdt_lock"); R.need("rdt_lock", c.seen, 1); }
  { LockApi c; c.want = wr; c.txn = true; drive(P, R, O, c, "lck_txn_lock"); R.need("txn_lock", c.seen, 1); }
  { InitFn c; c.rd = rd; c.wr = wr; drive(P, R, O, c, "lck_init", [&](Engine &, State &S, Function *F) { S.env[F->getArg(1)] = P.cst(64, 0); S.env[F->getArg(2)] = P.cst(32, -1); }); R.need("lock_inits", c.seen, 2); }
  for (int r = 0; r < 2; r++) { Cleanup c; c.cfg = r ? "table locked" : "table not locked"; drive(P, R, O, c, "mvcc_cleanup_dead", [&](Engine &, State &S, Function *F) { S.env[F->getArg(1)] = P.cst(32, r); if (r) S.aut.set(K_LOCKED, 1); }); R.need(r ? "clears_locked" : "clears", c.clears, 1); }
  { OpFn c; drive(P, R, O, c, "lck_op"); R.need("fcntl_calls", c.seen, 1); }
  { SetupLck c; drive(P, R, O, c, "lck_setup_locked"); R.need("lock_file_setups", c.seen, 2); }
}
}
