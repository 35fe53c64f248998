// C33: what happens when a database is opened after a crash.
#include "order_base.h"
namespace va {
namespace {
enum { R_STEADY = 1, R_NOSTEADY, R_SAME, R_DIFF, R_VR, R_VRBAD, R_VP, R_BOOT, R_NOBOOT, R_BNZ, R_UNS, R_EMPTY, R_ENODATA, R_EQ0, R_EQ1, R_EQ2, R_EQN, R_VT, R_AGREE, R_HASLCK, R_PREF, R_CREATED, R_HDR };
enum { V_AR = 1, V_AP, V_ST, V_VR, V_VP, V_VT, V_BOOT, V_HDR, V_EQ0, V_EQ1, V_EQ2, V_TAP };
const uint64_t RO = 0x20000;
struct Setup : Base {
  bool exclusive = true, recovery = false, rdonly = false; int64_t decisions = 0, creations = 0, rollbacks = 0;
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return Base::trackKey(k) || n.starts_with("troika") || n.starts_with("meta_ptr"); }
  bool of(const Expr *p, const Expr *t) { return t && mentions(p, [&](const Expr *x) { return x == t; }); }
  const Expr *flags(State &S) { return fld(S, param(0), "MDBX_env", "flags", 32); }
  bool writable(State &S) { return (E->abs(S, flags(S)).zero & RO) == RO; }
  const Expr *fileSize(State &S) { const Expr *m = P->off(param(0), (fld(S, param(0), "MDBX_env", "dxb_mmap", 64), offs["MDBX_env.dxb_mmap"].first)); return fld(S, m, "osal_mmap", "filesize", 64); }
  bool pinned(const Expr *ptr, KeyId k) override { auto n = P->keyName(k); return n == "MDBX_env.flags" || n == "MDBX_env.stuck_meta" || n == "MDBX_env.ps2ln" || n == "MDBX_env.ps" || n == "osal_mmap.base"; }
  bool keepFact(const Expr *e) override { return Base::keepFact(e) || (e->k == K_Field && pinned(e, e->key)); }
  void pick(State &S, int t, int pos, int neg) { if (const Expr *e = tag(S, t)) { if (E->abs(S, e).isZero()) { S.aut.set(pos, 1); clearTag(S, t); } else if (E->abs(S, e).nonZero()) { if (neg) S.aut.set(neg, 1); clearTag(S, t); } } }
  void upd(State &S) {
    pick(S, V_ST, R_NOSTEADY, R_STEADY); pick(S, V_VR, R_VR, R_VRBAD); pick(S, V_VP, R_VP, 0); pick(S, V_VT, R_VT, 0); pick(S, V_BOOT, R_BOOT, R_NOBOOT);
    pick(S, V_EQ0, R_EQ0, 0); pick(S, V_EQ1, R_EQ1, 0); pick(S, V_EQ2, R_EQ2, 0);
    if (const Expr *h = tag(S, V_HDR)) { int64_t c; if (E->abs(S, h).isConst(c)) { if (c == 0) S.aut.set(R_HDR, 1); if (c == 61) S.aut.set(R_ENODATA, 1); clearTag(S, V_HDR); } }
    if (!S.aut.get(R_EMPTY) && S.aut.get(R_ENODATA) && !S.aut.get(R_CREATED) && E->abs(S, fileSize(S)).isZero()) S.aut.set(R_EMPTY, 1);
  }
  void onInst(State &S, const Instruction *I) override {
    if (!E->stack.empty()) return; upd(S);
  }
  void reset(State &S) { for (int r : {R_STEADY, R_NOSTEADY, R_SAME, R_DIFF, R_VR, R_VRBAD, R_VP, R_BOOT, R_NOBOOT, R_UNS}) S.aut.set(r, 0); for (int t : {V_ST, V_VR, V_VP, V_BOOT}) clearTag(S, t); }
  bool changesFile(StringRef n) { return n == "osal_pwrite" || n == "osal_fsetsize" || n == "osal_write" || n == "osal_pwritev" || n == "meta_override" || n == "meta_unsteady" || n == "meta_wipe_steady" || n == "dxb_sync_locked" || n == "osal_mresize" || n == "dxb_resize" || n == "pwrite" || n == "pwrite64" || n == "ftruncate64" || n == "ftruncate" || n == "fallocate64"; }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty() || !f) return false; upd(S); StringRef n = f->getName(); int64_t c;
    if (n == "osal_mmap") { obligations++; const Expr *o = E->eval(S, C->getArgOperand(4)); if (!(exclusive && !recovery) && !(E->abs(S, o).zero & 1)) say("foreign-resize", C, "mmap", "may change the size of the file", S); }
    if (n == "madvise") { int64_t k; if (E->abs(S, E->eval(S, C->getArgOperand(2))).isConst(k) && k == 9) { obligations++; if (!exclusive || recovery || rdonly) say("foreign-punch", C, "remove", "may punch away parts of the file", S); } }
    if (!changesFile(n)) return false;
    events++; obligations++;
    if (!exclusive) say("foreign-change", C, "excl", "changes the data file although others may be using it", S);
    if (recovery) say("foreign-change", C, "rec", "changes the data file although it was opened for examination of a particular meta page", S);
    if (rdonly) say("foreign-change", C, "ro", "changes the data file although it was opened read-only", S);
    if (n == "osal_pwrite" || n == "osal_fsetsize") {
      creations++; obligations += 2;
      if (!S.aut.get(R_ENODATA)) say("overwrites-existing", C, "nodata", "initialises the file although reading its head did not end with `no data`", S);
      if (!S.aut.get(R_EMPTY)) say("overwrites-existing", C, "empty", "initialises a file which is not known to be empty", S);
      S.aut.set(R_CREATED, 1);
    }
    if (n == "meta_override" && E->abs(S, E->eval(S, C->getArgOperand(2))).isConst(c) && c == 0 && mentions(E->eval(S, C->getArgOperand(1)), [&](const Expr *x) { return x->k == K_Field; })) { // (a page that is not in use may be rewritten)
      const Expr *tg = E->eval(S, C->getArgOperand(1));
      rollbacks++; obligations += 4; for (int r : {R_EQ0, R_EQ1, R_EQ2, R_EQN}) S.aut.set(r, 0);
      if (!of(tg, tag(S, V_AR))) say("rollback-target", C, "target", "discards a meta page other than the most recent one", S);
      if (!S.aut.get(R_STEADY)) say("rollback-to-nothing", C, "steady", "discards the most recent meta page without a steady one to return to", S);
      if (!S.aut.get(R_VP)) say("rollback-to-nothing", C, "valid", "discards the most recent meta page without having validated the steady one", S);
      if (!S.aut.get(R_DIFF)) say("rollback-steady", C, "diff", "may discard the steady meta page itself", S);
      if (!S.aut.get(R_VRBAD) && !S.aut.get(R_NOBOOT)) { State T = S; if (S.aut.get(R_BOOT) ? bootMaybe(S) : true) say("rollback-needless", C, "boot", "may discard a valid meta page which was written since the system was started", S); }
    }
    return false;
  }
  bool bootMaybe(State &S) { return S.aut.get(R_BNZ) != 2; }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (n == "meta_recent") { setTag(S, V_AR, E->eval(S, C->getArgOperand(0))); events++; }
    if (n == "meta_prefer_steady") { setTag(S, V_AP, E->eval(S, C->getArgOperand(0))); reset(S); S.aut.set(R_PREF, 1); events++; decisions++; }
    if (!S.env.count(C)) return; const Expr *r = S.env[C];
    if (n == "dxb_read_header") { events++; setTag(S, V_HDR, r); }
    if (n == "meta_validate") { events++; const Expr *a = E->eval(S, C->getArgOperand(2)); if (of(a, tag(S, V_AP))) setTag(S, V_VP, r); else if (of(a, tag(S, V_AR))) setTag(S, V_VR, r); else setTag(S, V_VT, r); }
    if (n == "memcmp" || n == "bcmp") { const Expr *a = E->eval(S, C->getArgOperand(0)), *b = E->eval(S, C->getArgOperand(1)); int64_t c; if ((of(a, tag(S, V_AR)) || of(b, tag(S, V_AR))) && E->abs(S, E->eval(S, C->getArgOperand(2))).isConst(c) && c == 16) { events++; setTag(S, V_BOOT, r); } }
    if (n == "meta_eq") { int k = S.aut.get(R_EQN); setTag(S, V_EQ0 + k % 3, r); S.aut.set(R_EQN, (k + 1) % 3); events++; }
  }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!E->stack.empty()) return; auto n = P->keyName(key);
    if (n.ends_with("is_steady") && addrRoot(ptr) == tag(S, V_AP) && !S.aut.get(R_STEADY) && !S.aut.get(R_NOSTEADY)) setTag(S, V_ST, S.env[L]);
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!E->stack.empty()) return; if (P->keyName(key).contains("unsynced_pages") && !E->abs(S, val).isZero()) { events++; S.aut.set(R_UNS, 1); }
  }
  void onEdge(State &S, const BasicBlock *a, const BasicBlock *b) override {
    if (!E->stack.empty()) return; upd(S); const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, a, b, x, y, p)) return;
    if (x->k == K_Const) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    const Expr *ar = tag(S, V_AR), *ap = tag(S, V_AP);
    auto ptrOf = [&](const Expr *e, const Expr *al) { return al && e->k == K_Field && addrRoot(e->a) == al && P->keyName(e->key).contains("ptr"); };
    if ((ptrOf(x, ar) && ptrOf(y, ap)) || (ptrOf(x, ap) && ptrOf(y, ar))) { if (p == CmpInst::ICMP_EQ) S.aut.set(R_SAME, 1); if (p == CmpInst::ICMP_NE) S.aut.set(R_DIFF, 1); }
    auto isG = [&](const Expr *e) { return e->k == K_Op && e->op == Instruction::Or && mentions(e, [&](const Expr *z) { return z->k == K_Global && z->v->getName() == "globals"; }); };
    if (y->isConst(0) && isG(x)) S.aut.set(R_BNZ, p == CmpInst::ICMP_EQ ? 2 : 1);
    auto tro = [&](const Expr *e, StringRef m) { return mentions(e, [&](const Expr *z) { return z->k == K_Field && P->keyName(z->key).contains(m); }); };
    if (p == CmpInst::ICMP_EQ && ((tro(x, "recent") && tro(y, "prefer_steady")) || (tro(y, "recent") && tro(x, "prefer_steady")))) S.aut.set(R_AGREE, 1);
    if (y->isConst(0) && p == CmpInst::ICMP_NE && x->k == K_Field && x->a == P->off(param(0), (fld(S, param(0), "MDBX_env", "lck_mmap", 64), offs["MDBX_env.lck_mmap"].first))) S.aut.set(R_HASLCK, 1);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; State S = S0; upd(S); int64_t c; obligations++;
    // success is reported as 0, or as -1 for a database just created
    if (E->abs(S, ret).isConst(c)) { if (c != 0 && (int32_t)c != -1) return; } else if (!success(S, ret)) return;
    upd(S);
    if (!S.aut.get(R_HDR) && !S.aut.get(R_CREATED)) say("header-unread", Rt, "hdr", "may report success although no valid meta page was found in the file", S);
    if (recovery) { if (!S.aut.get(R_VT)) say("target-invalid", Rt, "target", "may report success although the requested meta page is not valid", S); return; }
    if (!S.aut.get(R_EQ0) || !S.aut.get(R_EQ1) || !S.aut.get(R_EQ2)) say("metas-clash", Rt, "clash", "may report success although two meta pages hold the same transaction", S);
    if (!exclusive) { if (!S.aut.get(R_AGREE) && !S.aut.get(R_HASLCK)) say("unsteady-unlocked", Rt, "nolck", "may use a weak meta page although nobody can have it made in this moment", S); return; }
    obligations += 2;
    bool steady = S.aut.get(R_STEADY) && S.aut.get(R_VP) && S.aut.get(R_SAME);
    bool weak = S.aut.get(R_VR) && S.aut.get(R_BOOT) && S.aut.get(R_BNZ) == 1;
    if (!steady && !weak) say("unsafe-head", Rt, "head", "may open the database although the most recent meta page is neither a valid steady one nor a valid one written since the system was started", S);
    if (weak && !steady) { if (!S.aut.get(R_UNS)) say("weak-head-synced", Rt, "uns", "opens the database with a weak most recent meta page without recording that it has to be synchronised", S); if (rdonly) say("weak-head-readonly", Rt, "ro", "opens the database read-only on a weak meta page", S); }
  }
};
}
RULE(C33) {
  struct Cf { const char *t; bool ex, rec, ro; } cfs[] = {{"exclusive", true, false, false}, {"exclusive, read-only", true, false, true}, {"shared", false, false, false}, {"recovery", true, true, false}};
  Function *F = P.fn("dxb_setup"); if (!F || F->isDeclaration()) { R.errors.push_back("analysis broken: no function dxb_setup"); return; }
  int64_t dec = 0, cre = 0, rb = 0;
  for (auto &k : cfs) {
    Setup c; c.R = &R; c.F = F; c.P = &P; c.cfg = k.t; c.exclusive = k.ex; c.recovery = k.rec; c.rdonly = k.ro;
    Engine E(P, c); E.maxDisj = O.disj * 2; State S = E.entryState(F);
    S.env[F->getArg(1)] = P.cst(32, k.ex ? -1 : 0);
    const Expr *st = c.fld(S, c.param(0), "MDBX_env", "stuck_meta", 8); E.assumeCmp(S, k.rec ? CmpInst::ICMP_EQ : CmpInst::ICMP_SLT, st, P.cst(st->w, 0));
    { AbsVal v = AbsVal::top(32); if (k.ro) { v.one |= RO; v.zero |= M_WRITEMAP; } else v.zero |= RO; v.normalize(); E.assumeVal(S, c.flags(S), v); }
    E.run(F, S);
    R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; R.stats["configurations"]++;
    if (E.budgetHit) R.errors.push_back("budget exceeded in dxb_setup");
    R.sample(std::string("dxb_setup [") + k.t + "]: " + std::to_string(c.events) + " events, " + std::to_string(c.obligations) + " obligations", 40);
    dec += c.decisions; cre += c.creations; rb += c.rollbacks;
  }
  R.need("meta_decisions", dec, 2); R.need("creations", cre, 1); R.need("rollbacks", rb, 1);
}
}
