// C10: a reader announces the snapshot it uses before trusting it, and withdraws the announcement at its end.
#include "order_base.h"
namespace va {
namespace {
enum { R_TX = 1, R_RF, R_MS, R_FH, R_OLD, R_RE, R_OT, R_TIDP, R_NOSLOT, R_LOCK, R_FREE, R_LEN, R_LT, R_PID, R_REG, R_RESET, R_TID, R_ZERO, R_FIN, R_REL, R_PUB, R_PEND, R_CLEAN, R_ONOSLOT, R_HASSLOT, R_DEAD };
enum { V_TX = 1, V_OLD, V_MS, V_FH, V_OT, V_SEIZE, V_LOCK, V_PID, V_RPID, V_LEN, V_CAS, V_CHK, V_CALL };
const uint64_t INV = 0xffffffff00000000ull;
struct RBase : Base {
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return Base::trackKey(k) || n.contains("ro.slot"); }
  bool isInvalid(State &S, const Expr *v) { int64_t c; return E->abs(S, v).isConst(c) && (uint64_t)c >= INV; }
  bool isNull(const Expr *e) { return e->k == K_Const && e->c == 0; }
  bool slotPtr(const Expr *e, const Expr *t) { return e->k == K_Field && P->keyName(e->key).ends_with("slot") && mentions(e, [&](const Expr *x) { return x == t; }); }
  bool of(const Expr *p, const Expr *t) { return mentions(p, [&](const Expr *x) { return x == t; }); }
  const Expr *ownId(State &S, const Expr *t) { return fld(S, t, "MDBX_txn", "txnid", 64); }
  bool bitClear(State &S, const Expr *t, uint64_t m) { return (E->abs(S, fld(S, t, "MDBX_txn", "flags", 32)).zero & m) == m; }
  bool bitSet(State &S, const Expr *t, uint64_t m) { return (E->abs(S, fld(S, t, "MDBX_txn", "flags", 32)).one & m) == m; }
  // the slot pointer of a transaction only changes when a slot gets allocated or released
  void slotKnown(State &S, bool null) { if (S.aut.get(null ? R_HASSLOT : R_NOSLOT)) S.aut.set(R_DEAD, 1); S.aut.set(null ? R_NOSLOT : R_HASSLOT, 1); }
  void slotForget(State &S) { S.aut.set(R_NOSLOT, 0); S.aut.set(R_HASSLOT, 0); }
  bool dropState(State &S) override { return S.aut.get(R_DEAD); }
  bool bitMaySet(State &S, const Expr *t, uint64_t m) { return !bitClear(S, t, m); }
};
// ro_seize(), txn_ro_clone()
struct Seize : RBase {
  unsigned self = 0; bool clone = false; int64_t pubs = 0;
  void restart(State &S) { for (int r : {R_RF, R_MS, R_FH, R_OLD, R_RE, R_OT}) S.aut.set(r, 0); for (int t : {V_TX, V_OLD, V_MS, V_FH, V_OT}) clearTag(S, t); }
  void upd(State &S) { settle(S, V_MS, R_MS); settle(S, V_FH, R_FH); }
  void onInst(State &S, const Instruction *) override { if (E->stack.empty()) upd(S); }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key); const Expr *v = S.env[L];
    if (n == "reader_slot.txnid" && of(ptr, param(self))) { events++; setTag(S, V_TX, v); }
    else if (n == "reader_slot.tid" && clone && of(ptr, param(0)) && S.aut.get(R_TX)) setTag(S, V_OT, v);
    else if (n == "shared_lck.cached_oldest_txnid") { events++; setTag(S, V_OLD, v); }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key);
    if (n == "reader_slot.txnid") {
      if (!of(ptr, param(self))) { say("foreign-slot", I, "slot", "changes the snapshot id in a slot which is not its own", S); return; }
      events++; pubs += !isInvalid(S, val); restart(S); S.aut.set(R_TX, isInvalid(S, val) ? 0 : 1); obligations++;
    } else if (n == "reader_slot.tid" && of(ptr, param(self))) { int64_t c; S.aut.set(R_TIDP, E->abs(S, val).isConst(c) && c == -1); }
    else if (n == "shared_lck.rdt_refresh_flag" && E->abs(S, val).nonZero()) { events++; S.aut.set(R_RF, 1); S.aut.set(R_MS, 0); S.aut.set(R_OLD, 0); clearTag(S, V_MS); clearTag(S, V_OLD); }
    else if (n == "MDBX_txn.txnid" && of(ptr, param(self))) { S.aut.set(R_OLD, 0); S.aut.set(R_RE, 0); }
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; if (f->getName() == "ro_slot_alloc") slotForget(S);
    if (!S.env.count(C)) return; const Expr *r = S.env[C]; StringRef n = f->getName();
    if (n == "meta_should_retry") { events++; S.aut.set(R_MS, 0); setTag(S, V_MS, r); }
    if (n == "coherency_fetch_head") { events++; for (int x : {R_FH, R_OLD, R_RE}) S.aut.set(x, 0); setTag(S, V_FH, r); }
    if (n == "ro_seize") { events++; setTag(S, V_SEIZE, r); }
  }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    if (!E->stack.empty()) return; upd(S);
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    if (isNull(x) && !isNull(y)) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (isNull(y)) {
      if (slotPtr(x, param(self))) { if (p == CmpInst::ICMP_EQ) slotKnown(S, true); else if (p == CmpInst::ICMP_NE) slotKnown(S, false); }
      else if (clone && slotPtr(x, param(0)) && p == CmpInst::ICMP_EQ) S.aut.set(R_ONOSLOT, 1);
    }
    const Expr *id = ownId(S, param(self));
    if (y == id) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (x == id && y == tag(S, V_OLD) && (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_EQ)) S.aut.set(R_OLD, 1);
    if (x == id && y == tag(S, V_TX) && p == CmpInst::ICMP_EQ) S.aut.set(R_RE, 1);
    if (const Expr *o = tag(S, V_OT)) { if (y == o) std::swap(x, y); int64_t c; if (x == o && p == CmpInst::ICMP_EQ && y->k == K_Const && (c = y->c, c == -1)) S.aut.set(R_OT, 1); }
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    State S = S0; upd(S);
    if (clone && S.aut.get(R_TX) && E->abs(S, ret).nonZero()) { obligations++; if (!bitClear(S, param(self), 1)) say("announcement-left", Rt, "left", "fails with the snapshot id in the slot while the transaction is still marked as finished, so that the slot never gets cleared", S); }
    if (!success(S, ret)) return; upd(S); obligations += 4;
    if (clone && zeroTag(S, V_SEIZE)) return;
    if (!S.aut.get(R_NOSLOT)) {
      if (!S.aut.get(R_TX)) { say("not-announced", Rt, "tx", "may report success although the id of the snapshot is not in the reader's slot", S); return; }
      if (!clone && !S.aut.get(R_RF)) say("cache-not-invalidated", Rt, "rf", "may report success without having marked the cached oldest id as stale after the snapshot id was put into the slot", S);
      if (clone ? !S.aut.get(R_RE) && !S.aut.get(R_OT) && !S.aut.get(R_ONOSLOT) : !S.aut.get(R_RE)) say("not-rechecked", Rt, "re", "may report success without having re-read the slot after the snapshot was taken", S);
      if (clone && !S.aut.get(R_RE) && !S.aut.get(R_TIDP)) say("parked-not-marked", Rt, "park", "may report success for a parked clone whose slot is not marked as parked", S);
    }
    if (!clone && !S.aut.get(R_MS)) say("head-not-rechecked", Rt, "ms", "may report success without having checked, after the announcement, that the used meta page is still the recent one", S);
    if (!clone && !S.aut.get(R_FH)) say("snapshot-not-fetched", Rt, "fh", "may report success without a coherent snapshot fetched after the announcement", S);
    if (!S.aut.get(R_OLD)) say("obsolete-snapshot", Rt, "old", "may report success although the snapshot was not compared with the oldest id after the announcement", S);
  }
};
// mvcc_bind_slot()
struct Bind : RBase {
  int64_t claims = 0;
  void upd(State &S) {
    settle(S, V_RPID, R_REG); int64_t c;
    if (const Expr *l = tag(S, V_LOCK)) if (E->abs(S, l).isConst(c) && (c == 0 || (int32_t)c == -1)) { S.aut.set(R_LOCK, 1); clearTag(S, V_LOCK); }
  }
  void onInst(State &S, const Instruction *) override { if (E->stack.empty()) upd(S); }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key);
    if (n == "reader_slot.pid") { setTag(S, V_PID, S.env[L]); S.aut.set(R_FREE, 0); }
    if (n == "shared_lck.rdt_length") { setTag(S, V_LEN, S.env[L]); S.aut.set(R_LEN, 0); }
  }
  bool isLen(State &S, const Expr *e) { const Expr *l = tag(S, V_LEN); return l && e->k != K_Const && mentions(e, [&](const Expr *x) { return x == l; }); }
  bool isMax(const Expr *e) { return mentions(e, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key) == "MDBX_env.max_readers"; }); }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    if (!E->stack.empty()) return; upd(S);
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    auto isF = [&](const Expr *e, const char *k) { return e->k == K_Field && P->keyName(e->key) == k; };
    if (p == CmpInst::ICMP_EQ && ((isF(x, "MDBX_env.registered_reader_pid") && isF(y, "MDBX_env.pid")) || (isF(y, "MDBX_env.registered_reader_pid") && isF(x, "MDBX_env.pid")))) S.aut.set(R_REG, 1);
    if (const Expr *v = tag(S, V_PID)) { if (y == v) std::swap(x, y); if (x == v && isNull(y)) S.aut.set(R_FREE, p == CmpInst::ICMP_EQ); }
    if (isLen(S, x)) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (isLen(S, y)) {
      if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_UGT) S.aut.set(R_FREE, 1); // behind the last used one
      if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_NE) S.aut.set(R_LEN, 1); // inside of the announced part
      else if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_EQ) S.aut.set(R_LEN, 0);
    }
    if (isMax(x)) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (isMax(y)) S.aut.set(R_LT, p == CmpInst::ICMP_ULT);
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!E->stack.empty()) return; upd(S); auto n = P->keyName(key);
    if (!n.starts_with("reader_slot.") && n != "shared_lck.rdt_length") return;
    events++; obligations++;
    if (!S.aut.get(R_LOCK)) say("slot-without-lock", I, "lock", "changes the reader table without holding its lock", S);
    if (n == "shared_lck.rdt_length") { if (!S.aut.get(R_RESET)) say("slot-visible-early", I, "len", "makes a slot visible to others before it was reset", S); S.aut.set(R_LEN, 1); return; }
    if (n == "reader_slot.txnid") { if (isInvalid(S, val)) S.aut.set(R_RESET, 1); else say("slot-with-snapshot", I, "txnid", "hands out a slot which already names a snapshot", S); }
    if (n == "reader_slot.tid") S.aut.set(R_TID, 1);
    if (n == "reader_slot.pid") {
      if (E->abs(S, val).isZero()) return;
      claims++; obligations += 6;
      if (!S.aut.get(R_FREE)) say("slot-not-free", I, "free", "takes a slot which was not seen to be free", S);
      if (!S.aut.get(R_LT)) say("slot-out-of-table", I, "max", "takes a slot which was not seen to lie inside of the table", S);
      if (!S.aut.get(R_RESET)) say("slot-not-reset", I, "reset", "claims a slot before the snapshot id in it was invalidated", S);
      if (!S.aut.get(R_TID)) say("owner-not-recorded", I, "tid", "claims a slot before its owning thread was recorded", S);
      if (!S.aut.get(R_LEN)) say("slot-invisible", I, "len", "claims a slot which lies behind the part of the table the writer scans", S);
      if (!S.aut.get(R_REG)) say("process-not-registered", I, "rpid", "claims a slot without the process being registered as alive", S);
      S.aut.set(R_PID, 1);
    }
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (n == "lck_rdt_unlock") { S.aut.set(R_LOCK, 0); clearTag(S, V_LOCK); }
    if (n == "mvcc_cleanup_dead") { S.aut.set(R_FREE, 0); S.aut.set(R_LT, 0); S.aut.set(R_LEN, 0); }
    if (!S.env.count(C)) return; const Expr *r = S.env[C];
    if (n == "lck_rdt_lock") { events++; setTag(S, V_LOCK, r); }
    if (n == "lck_rpid_set") { events++; setTag(S, V_RPID, r); }
  }
};
// ro_slot_clean(), ro_slot_release(), txn_ro_park(), txn_ro_unpark(), txn_ro_reset(), txn_ro_free()
struct Clear : RBase {
  std::string fn;
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key);
    if (n == "reader_slot.txnid") { setTag(S, V_TX, S.env[L]); S.aut.set(R_RE, 0); }
    if (n == "reader_slot.tid") { setTag(S, V_OT, S.env[L]); S.aut.set(R_OT, 0); }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key); if (n.starts_with("reader_slot.")) events++;
    if (n == "reader_slot.txnid") { S.aut.set(R_RESET, isInvalid(S, val)); S.aut.set(R_RF, 0); if (!isInvalid(S, val)) say("unexpected-announcement", I, "txnid", "puts a snapshot id into the slot", S); }
    if (n == "reader_slot.pid") { S.aut.set(R_ZERO, E->abs(S, val).isZero()); if (fn == "ro_slot_release" && !S.aut.get(R_RESET)) say("freed-with-snapshot", I, "pid", "frees the slot before the snapshot id in it was invalidated", S); }
    if (n == "reader_slot.tid") { int64_t c; S.aut.set(R_TIDP, E->abs(S, val).isConst(c) && c == -1); S.aut.set(R_RF, 0); S.aut.set(R_OT, 0); S.aut.set(R_RE, 0); }
    if (n == "shared_lck.rdt_refresh_flag" && E->abs(S, val).nonZero()) S.aut.set(R_RF, 1);
    if (n.contains("ro.slot") || n.ends_with("slot")) S.aut.set(R_REL, isNull(val));
  }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    if (!E->stack.empty()) return;
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    if (isNull(x) && !isNull(y)) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (isNull(y) && slotPtr(x, param(0))) { if (p == CmpInst::ICMP_EQ) slotKnown(S, true); else if (p == CmpInst::ICMP_NE) slotKnown(S, false); }
    const Expr *id = ownId(S, param(0)), *own = fld(S, param(0), "MDBX_txn", "owner", 64);
    if (y == id || y == own) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    if (x == id && y == tag(S, V_TX)) S.aut.set(R_RE, p == CmpInst::ICMP_EQ);
    if (x == own && y == tag(S, V_OT)) S.aut.set(R_OT, p == CmpInst::ICMP_EQ);
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty() || !f) return false; StringRef n = f->getName();
    if (n == "ro_slot_release") { events++; obligations++; if (!S.aut.get(R_CLEAN)) say("released-unclean", C, "clean", "releases the slot before the transaction was ended", S); S.aut.set(R_REL, 1); }
    if (n == "ro_slot_clean" || n == "txn_ro_reset") {
      events++;
      // the cleaning is skipped for transactions marked as finished
      if (n == "ro_slot_clean" && bitSet(S, param(0), 1)) say("finished-too-early", C, "fin", "marks the transaction as finished before its slot is cleared, so that it never is", S);
      S.aut.set(R_CLEAN, 1);
    }
    return false;
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; State S = S0; const Expr *t = param(0);
    bool noslot = S.aut.get(R_NOSLOT);
    if (fn == "txn_ro_reset") {
      obligations += 2;
      if (!S.aut.get(R_CLEAN)) say("slot-not-cleared", Rt, "clean", "ends the transaction without clearing its slot", S);
      if (!bitSet(S, t, 1)) say("not-finished", Rt, "fin", "does not mark the transaction as finished", S);
      return;
    }
    if (fn == "txn_ro_free") { obligations++; if (!noslot && !(S.aut.get(R_REL) && S.aut.get(R_CLEAN))) say("slot-leaked", Rt, "free", "frees the transaction without clearing and releasing its slot", S); return; }
    if (fn == "ro_slot_release") {
      obligations++; if (!S.aut.get(R_REL)) say("slot-kept", Rt, "rel", "keeps the pointer to the released slot", S);
      return;
    }
    if (!ret || !success(S, ret)) return; obligations += 2;
    if (fn == "ro_slot_clean") {
      if (noslot || S.aut.get(R_REL) || bitSet(S, t, 1)) return;
      if (!S.aut.get(R_RESET)) say("slot-not-cleared", Rt, "reset", "may report success with the snapshot id still in the slot", S);
      else if (!S.aut.get(R_RF)) say("cache-not-invalidated", Rt, "rf", "does not mark the cached oldest id as stale after the slot was cleared", S);
    }
    if (fn == "txn_ro_park") {
      if (noslot || S.aut.get(R_CLEAN)) return;
      if (!S.aut.get(R_TIDP)) say("not-marked-parked", Rt, "tid", "may report success although the slot is not marked as parked", S);
      if (!bitSet(S, t, 0x20)) say("not-parked", Rt, "flag", "may report success although the transaction is not marked as parked", S);
    }
    if (fn == "txn_ro_unpark") {
      if (noslot || S.aut.get(R_CLEAN)) return;
      if (!S.aut.get(R_RE) || !S.aut.get(R_OT)) say("ousting-not-checked", Rt, "cas", "may report success without having re-read the snapshot id and owner from the slot after it was taken back", S);
      if (!bitClear(S, t, 0x20)) say("still-parked", Rt, "flag", "may report success although the transaction is still marked as parked", S);
    }
  }
};
// callers: what was announced is withdrawn when the start fails in the end
struct Withdraw : RBase {
  int64_t calls = 0;
  static bool publishes(StringRef n) { return n == "ro_seize" || n == "ro_start_continue" || n == "txn_ro_clone"; }
  static bool cleans(StringRef n) { return n == "txn_ro_reset" || n == "txn_ro_free" || n == "ro_slot_clean" || n.starts_with("mdbx_txn_abort") || n == "mdbx_txn_reset" || n == "txn_abort" || n == "txn_ro_end" || n == "txn_end"; }
  static bool concerned(StringRef n) { return publishes(n) || n == "txn_ro_start" || n == "ro_slot_clean" || n == "ro_slot_release"; }
  bool isSlot(const Expr *e) { return e->k == K_Field && P->keyName(e->key).starts_with("MDBX_txn.") && P->keyName(e->key).ends_with("slot"); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty() || !f) return false; StringRef n = f->getName();
    if (n == "ro_slot_release") { obligations++; if (!S.aut.get(R_CLEAN)) say("released-unclean", C, "clean", "releases the slot before the transaction was ended", S); }
    if (n == "ro_slot_clean" && !S.aut.get(R_CLEAN) && bitSet(S, E->eval(S, C->getArgOperand(0)), 1)) { obligations++; say("finished-too-early", C, "fin", "marks the transaction as finished before its slot is cleared, so that it never is", S); }
    return false;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!E->stack.empty()) return;
    if (P->keyName(key) == "MDBX_txn.flags" && (E->abs(S, val).one & 1)) S.aut.set(R_FIN, 0);
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (publishes(n)) { events++; calls++; S.aut.set(R_PUB, 1); S.aut.set(R_CLEAN, 0); }
    if (n == "txn_ro_start") { events++; calls++; if (S.env.count(C)) { S.aut.set(R_PEND, 1); setTag(S, V_CALL, S.env[C]); } }
    if (cleans(n)) { S.aut.set(R_PUB, 0); S.aut.set(R_PEND, 0); S.aut.set(R_CLEAN, 1); clearTag(S, V_CALL); }
    if (n == "ro_slot_clean") { events++; S.aut.set(R_FIN, 1); }
  }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    if (!E->stack.empty()) return;
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    if (isNull(x)) std::swap(x, y);
    if (isNull(y) && isSlot(x) && p == CmpInst::ICMP_EQ) { S.aut.set(R_PUB, 0); S.aut.set(R_PEND, 0); clearTag(S, V_CALL); } // nothing to withdraw
  }
  void onInst(State &S, const Instruction *) override {
    if (!E->stack.empty() || !S.aut.get(R_PEND)) return; const Expr *e = tag(S, V_CALL); if (!e) return;
    if (E->abs(S, e).isZero()) { S.aut.set(R_PUB, 1); S.aut.set(R_CLEAN, 0); S.aut.set(R_PEND, 0); clearTag(S, V_CALL); } else if (E->abs(S, e).nonZero()) { S.aut.set(R_PEND, 0); clearTag(S, V_CALL); }
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; obligations++;
    if (S.aut.get(R_FIN)) say("not-finished", Rt, "fin", "clears the reader's slot but does not mark the transaction as finished", S);
    if (!ret) return; AbsVal v = E->abs(S, ret); int64_t c;
    if (v.isConst(c) && (int32_t)c == -1) return;
    if (S.aut.get(R_PUB) && v.nonZero()) say("announcement-left", Rt, "left", "fails with the snapshot id still in the reader's slot", S);
  }
};
template <class T> void drive(Program &P, RuleOut &R, const Options &O, T &c, const char *fn) {
  Function *F = P.fn(fn); if (!F || F->isDeclaration()) { R.errors.push_back(std::string("analysis broken: no function ") + fn); return; }
  c.R = &R; c.F = F; c.P = &P; Engine E(P, c); E.maxDisj = O.disj * 2; State S; E.run(F, S);
  R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; R.stats["functions"]++;
  if (E.budgetHit) R.errors.push_back(std::string("budget exceeded in ") + fn);
  R.sample(std::string(fn) + ": " + std::to_string(c.events) + " events, " + std::to_string(c.obligations) + " obligations", 30);
}
}
RULE(C10) {
  { Seize c; drive(P, R, O, c, "ro_seize"); R.need("announcements", c.pubs, 1); }
  { Seize c; c.self = 1; c.clone = true; drive(P, R, O, c, "txn_ro_clone"); R.need("clone_announcements", c.pubs, 1); }
  { Bind c; drive(P, R, O, c, "mvcc_bind_slot"); R.need("slot_claims", c.claims, 1); }
  for (const char *f : {"ro_slot_clean", "ro_slot_release", "txn_ro_park", "txn_ro_unpark"}) { Clear c; c.fn = f; drive(P, R, O, c, f); }
  std::set<std::string> callers; int64_t n = 0;
  for (auto &F : *P.M) { if (F.isDeclaration() || Withdraw::publishes(F.getName())) continue; for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(C)) if (Withdraw::concerned(f->getName())) callers.insert(F.getName().str()); }
  for (auto &f : callers) { Withdraw c; drive(P, R, O, c, f.c_str()); n += c.calls; }
  R.need("start_calls", n, 4);
}
}
