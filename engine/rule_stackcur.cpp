// C07: temporaries registered in txn->cursors[] are always deregistered.
#include "rules.h"
namespace va {
struct StackCur : Client {
  RuleOut *R; const Function *F = nullptr; bool record = true;
  std::set<const Instruction *> links, unlinks;
  KeyId kCur, kNext;
  static bool isLinkKey(StringRef n) { return n == "MDBX_txn.cursors[]"; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n == "MDBX_cursor.txn" || n == "MDBX_txn.cursors" || n == "MDBX_cursor.dbi_state" || n == "MDBX_txn.dbi_state"; }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!isLinkKey(P->keyName(key))) return;
    // deregistration: the stored value is the `next` of a registered temporary
    for (auto it = S.aut.t.begin(); it != S.aut.t.end(); ++it) {
      const Expr *v = it->second;
      bool un = false;
      if (val->k == K_Field && P->keyName(val->key) == "MDBX_cursor.next" && val->a->k == K_Off && (val->a->a == v || (v->k == K_Off && rootExpr(val->a) == rootExpr(v)))) un = true;
      if (val->k == K_Field && P->keyName(val->key).ends_with(".next") && rootExpr(val->a) == rootExpr(v)) un = true;
      for (auto &c : S.cells) if (c.second == val && rootExpr(c.first) == rootExpr(v) && P->keyName(P->keyOf(c.first, 8)).ends_with(".next")) un = true;
      if (un) { S.aut.t.erase(it); unlinks.insert(I); E->note(S, I, "temporary cursor deregistered"); return; }
    }
    if (val->isConst(0)) return;
    if (getenv("VT_DEBUG")) { unsigned l; locOf(I, &l); errs() << l << " store " << P->str(val) << " tracked:"; for (auto &t : S.aut.t) errs() << P->str(t.second) << " "; errs() << "\n"; }
    const Expr *r = rootExpr(val);
    if (r->k == K_Field && P->keyName(r->key).ends_with("MDBX_cursor.next")) return; // unlinking somebody else
    links.insert(I);
    if (r->k != K_Alloca && !record) return;
    unsigned l; locOf(I, &l);
    S.aut.t.insert({(int)l, val});
    E->note(S, I, "temporary cursor registered");
  }
  bool onCall(State &S, const CallBase *C, const Function *callee, std::vector<State> &out) override { return false; }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    for (auto &t : S.aut.t) {
      const Expr *r = rootExpr(t.second);
      if (r->k != K_Alloca && !unlinksNonStack) continue;
      Finding f; f.rule = "temporary-cursor-left-registered"; locOf(Rt, &f.line, &f.file, &f.func);
      f.func = F->getName().str(); f.line = t.first;
      f.inst = F->getName().str() + ":registered-cursor";
      f.msg = "the cursor registered at line " + std::to_string(t.first) + " is still registered when the function returns";
      f.path = traceLines(S.trace);
      R->add(f);
    }
  }
  bool unlinksNonStack = false;
  // while a temporary is registered it is the head of its list (LIFO): a test
  // for that has only one feasible outcome
  int decideCond(State &S, const Expr *c) override {
    if (c->k != K_Op || !c->b) return -1;
    unsigned p = c->op - OP_ICMP;
    if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) return -1;
    for (int k = 0; k < 2; k++) {
      const Expr *a = k ? c->b : c->a, *b = k ? c->a : c->b;
      if (a->k != K_Field || !isLinkKey(P->keyName(a->key)) || b->k != K_Alloca) continue;
      for (auto &t : S.aut.t) if (t.second == b) return p == CmpInst::ICMP_EQ;
      return p != CmpInst::ICMP_EQ;
    }
    return -1;
  }
};
RULE(C07) {
  int64_t fns = 0, links = 0, unlinks = 0, blocks = 0; 
  for (auto &x : P.info) {
    const Function *F = x.first;
    bool has = false;
    // candidate: the function itself stores through txn->cursors[]
    for (auto &I : instructions(*F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isPointerTy()) has = true;
    if (!has || !x.second.mod.count(P.key("MDBX_txn.cursors[]"))) continue;
    for (int pass = 0; pass < 2; pass++) {
      StackCur c; Engine E(P, c); E.maxDisj = O.disj; c.R = &R; c.F = F;
      // non-stack temporaries only matter in functions which also deregister them
      RuleOut tmp; if (pass == 0) c.R = &tmp; 
      static bool unl; if (pass == 1) c.unlinksNonStack = unl;
      E.run(F, State());
      if (pass == 0) { unl = !c.unlinks.empty(); if (c.links.empty()) break; }
      else { fns++; links += c.links.size(); unlinks += c.unlinks.size(); blocks += E.blocks;
        R.sample(F->getName().str() + ": " + std::to_string(c.links.size()) + " registration(s), " + std::to_string(c.unlinks.size()) + " deregistration(s), " + std::to_string(E.blocks) + " block states");
        if (E.budgetHit) R.errors.push_back("budget exhausted in " + F->getName().str()); }
    }
  }
  R.need("functions_with_registrations", fns, 10);
  R.need("registration_sites", links, 20);
  R.need("deregistration_sites", unlinks, 20);
  R.stats["block_states"] = blocks;
}
} // namespace va
