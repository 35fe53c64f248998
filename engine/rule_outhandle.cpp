// C24: output handles are live exactly when success is reported.
#include "rules.h"
namespace va {
enum { R_OUT = 1 }; // 0 untouched, 1 empty, 2 live
struct OutHandle : Client {
  RuleOut *R; const Function *F = nullptr; unsigned argNo = 0; std::set<const Function *> into; int64_t stores = 0, rets = 0; bool inout = false, dbi = false;
  bool trackKey(KeyId k) override { return P->keyName(k).ends_with(".userctx"); }
  bool keepCells() override { return true; }
  const Expr *target(const State &) { return nullptr; }
  bool isOut(State &S, const Expr *p) {
    for (auto &t : S.aut.t) if (t.first == 77 && t.second == p) return true;
    return false;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId, const Expr *val) override {
    if (!isOut(S, ptr)) return;
    stores++;
    AbsVal v = E->abs(S, val);
    bool empty = v.isZero() || (val->w == 32 && val->isConst(0));
    // 0 is also the number of the built-in GC table: storing it after the output was cleared may be an answer
    S.aut.set(R_OUT, !empty ? 2 : dbi && S.aut.get(R_OUT) ? 3 : 1);
    E->note(S, I, empty ? "output handle cleared" : "output handle stored");
  }
  bool descend(const Function *f) override { return into.count(f); }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; // inside a callee
    if (!ret) return;
    rets++;
    AbsVal v = E->abs(S, ret);
    int st = S.aut.get(R_OUT);
    if (st == 2 && !v.isZero()) {
      // -1 (MDBX_RESULT_TRUE) is a success flavour
      AbsVal nt = v; int64_t c; if (nt.isConst(c) && (int32_t)c == -1) return;
      Finding f; f.rule = "handle-stored-on-failure"; locOf(Rt, &f.line, &f.file, &f.func); f.func = F->getName().str(); f.inst = f.func + ":out";
      f.msg = "the output handle holds a live value although the function may return an error"; f.path = traceLines(S.trace); R->add(f);
    }
    if (st < 2 && v.isZero() && !inout && F->getName().starts_with("mdbx_")) {
      Finding f; f.rule = "success-without-handle"; locOf(Rt, &f.line, &f.file, &f.func); f.func = F->getName().str(); f.inst = f.func + ":none";
      f.msg = "the function reports success without having stored a handle"; f.path = traceLines(S.trace); R->add(f);
    }
  }
};
static const DIType *ptrTo(const DIType *t) { t = stripTD(t); auto *d = dyn_cast_or_null<DIDerivedType>(t); return d && d->getTag() == dwarf::DW_TAG_pointer_type ? d->getBaseType() : nullptr; }
// "env" / "txn" / "cursor" / "dbi" when t is a pointer to such a handle
static std::string handleOut(const DIType *t) {
  const DIType *b = ptrTo(t);
  if (!b) return "";
  for (const DIType *x = b; x;) { auto *d = dyn_cast<DIDerivedType>(x); if (!d) break; if (d->getTag() == dwarf::DW_TAG_const_type) return ""; if (d->getTag() == dwarf::DW_TAG_typedef && d->getName() == "MDBX_dbi") return "dbi"; if (d->getTag() != dwarf::DW_TAG_typedef) break; x = d->getBaseType(); }
  const DIType *p = ptrTo(b);
  if (!p) return "";
  if (auto *q = dyn_cast<DIDerivedType>(p)) if (q->getTag() == dwarf::DW_TAG_const_type) return "";
  auto *s = dyn_cast_or_null<DICompositeType>(stripTD(p));
  if (!s) return "";
  StringRef n = s->getName();
  if (n == "MDBX_env" || n == "MDBX_txn" || n == "MDBX_cursor") return n.drop_front(5).str();
  return "";
}
RULE(C24) {
  int64_t fns = 0, stores = 0, rets = 0, blocks = 0;
  std::set<const Function *> withOut;
  std::map<const Function *, std::vector<std::pair<unsigned, std::string>>> outs;
  for (auto &x : P.info) {
    const Function *F = x.first;
    if (!F->getReturnType()->isIntegerTy(32)) continue;
    auto *SP = F->getSubprogram(); if (!SP) continue;
    auto ta = SP->getType()->getTypeArray();
    for (auto &A : F->args()) {
      if (A.getArgNo() + 1 >= ta.size()) break;
      std::string h = handleOut(ta[A.getArgNo() + 1]);
      if (h == "dbi" && F->getName().contains("maxdbs")) continue; // a count, not a handle
      if (!h.empty()) { withOut.insert(F); outs[F].push_back({A.getArgNo(), h}); }
    }
  }
  // helpers which receive the output address inside a structure
  for (auto &x : P.info) for (auto &I : instructions(*x.first)) if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *L = dyn_cast<LoadInst>(S->getPointerOperand())) {
    KeyId k = P.keyOf(P.staticExpr(L->getPointerOperand()), 8);
    if (P.keyName(k).ends_with(".userctx")) withOut.insert(x.first);
  }
  for (auto &x : outs) for (auto &o : x.second) {
    const Function *F = x.first;
    if (F->hasLocalLinkage() && !F->getName().starts_with("mdbx_")) { /* internal helpers are covered through the public ones and on their own */ }
    OutHandle c; Engine E(P, c); E.maxDisj = O.disj; c.R = &R; c.F = F; c.argNo = o.first; c.into = withOut; 
    // reads of the incoming value make it an in/out argument
    for (auto *u : F->getArg(o.first)->users()) if (isa<LoadInst>(u)) c.inout = true;
    c.dbi = o.second == "dbi";
    State S; Expr e; e.k = K_Param; e.v = F->getArg(o.first); const Expr *pe = P.mk(e);
    S.aut.t.insert({77, pe});
    RuleOut tmp; 
    c.R = &tmp;
    E.run(F, S);
    if (!c.stores) continue; // merely forwards a pointer it never writes
    for (auto &f : tmp.findings) R.add(f);
    fns++; stores += c.stores; rets += c.rets; blocks += E.blocks;
    if (E.budgetHit) R.errors.push_back("budget exhausted in " + F->getName().str());
    R.sample(F->getName().str() + ": output " + o.second + " handle, " + std::to_string(c.rets) + " return state(s)", 20);
  }
  R.need("functions_with_output_handle", fns, 9); R.need("stores_to_outputs", stores, 12); R.stats["return_states"] = rets; R.stats["block_states"] = blocks;
}
} // namespace va
