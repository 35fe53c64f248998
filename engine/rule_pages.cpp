// C16: a page of the file is used only after its number and its header were found valid.
#include "order_base.h"
namespace va {
namespace {
enum { G_CAP = 1, G_SUM, G_TXN, G_HDR, G_FULL, G_GOT, G_KIND, G_LOUP, G_EVEN, G_RANGE, G_MARK };
enum : uint64_t { ILL = 0xDFD8, LARGE = 4, TREE = 0x23 };
const Expr *bare(const Expr *e) { while (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::SExt)) e = e->a; return e; }
const Expr *part(Program *P, const Expr *x, unsigned ix, unsigned w) {
  const Expr *y = x; while (y->k == K_Op && y->op == Instruction::InsertValue) { if ((unsigned)y->c == ix) return y->b; y = y->a; }
  Expr e; e.k = K_Op; e.op = Instruction::ExtractValue; e.a = y; e.c = ix; e.w = w; return P->mk(e);
}
bool isPgr(const Function *f) { // returns a page together with an error
  auto *st = f ? dyn_cast<StructType>(f->getReturnType()) : nullptr; if (!st || st->getNumElements() != 2) return false;
  auto *sp = f->getSubprogram(); if (!sp || !sp->getType() || !sp->getType()->getTypeArray().size()) return false;
  StringRef n; auto *t = sp->getType()->getTypeArray()[0]; stripTD(t, &n); if (n == "pgr_t") return true;
  auto *d = dyn_cast_or_null<DIDerivedType>(t); return d && d->getName() == "pgr_t";
}
struct PBase : Base {
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("MDBX_txn.") || n.starts_with("MDBX_cursor.") || n.starts_with("page") || n.starts_with("geo") || n.starts_with("MDBX_env.ps"); }
  bool keepFact(const Expr *e) override { e = bare(e); if (e->k == K_Param) return true; if (e->k != K_Field) return false; StringRef n = P->keyName(e->key); return n.starts_with("page.") || n.ends_with("first_unallocated") || n.ends_with("txnid") || n == "MDBX_txn.flags" || n == "MDBX_cursor.checking"; }
  bool le(State &S, const Expr *a, const Expr *b) {
    a = bare(a); b = bare(b); if (E->decideCmp(S, CmpInst::ICMP_ULE, a, b) == 1) return true;
    for (unsigned w : {32u, 64u}) if (a->w < w && b->w < w) { const Expr *x = P->op(Instruction::ZExt, a, nullptr, w), *y = P->op(Instruction::ZExt, b, nullptr, w); for (auto p : {CmpInst::ICMP_ULE, CmpInst::ICMP_SLE}) if (E->decideCmp(S, p, x, y) == 1) return true; }
    return false;
  }
  const Expr *geo(State &S, const Expr *txn) { fld(S, txn, "MDBX_txn", "geo", 32); return fld(S, P->off(txn, offs["MDBX_txn.geo"].first), "geo", "first_unallocated", 32); }
  bool has(const Expr *e, const char *suffix) { return mentions(e, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key).ends_with(suffix); }); }
};
struct Header : PBase { // check_page_header()
  uint64_t ill = 0; int64_t rets = 0; bool seenOk = false;
  bool descend(const Function *f) override { return f->getName() == "bad_page"; }
  const Expr *pg(State &S, const char *m, unsigned w) { return fld(S, param(1), "page", m, w); }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override {
    Base::onEdge(S, f, t); if (!E->stack.empty()) return;
    AbsVal fl = E->abs(S, pg(S, "flags", 16)); if (fl.zero & LARGE) S.aut.set(G_KIND, 1); if ((fl.one & LARGE) || E->abs(S, P->op(Instruction::And, pg(S, "flags", 16), P->cst(16, LARGE), 16)).nonZero()) S.aut.set(G_KIND, 2);
    if (E->abs(S, pg(S, "lower", 16)).zero & 1) S.aut.set(G_EVEN, 1);
    if (le(S, pg(S, "lower", 16), pg(S, "upper", 16))) S.aut.set(G_LOUP, 1);
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, f, t, x, y, p)) return;
    const Expr *up = pg(S, "upper", 16), *no = pg(S, "pgno", 32), *n = pg(S, "pages", 32), *fu = geo(S, param(2)), *ps = fld(S, fld(S, param(2), "MDBX_txn", "env", 64), "MDBX_env", "ps", 32);
    for (int i = 0; i < 2; i++) { // y - x >= 0
      bool lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT, le = lt || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_SLE;
      if (le) {
        std::map<const Expr *, int64_t> m; int64_t k = 0; lin(y, 1, m, k); lin(x, -1, m, k); if (lt) k--; for (auto j = m.begin(); j != m.end();) if (j->second) ++j; else j = m.erase(j);
        if (m == std::map<const Expr *, int64_t>{{up, -1}, {ps, 1}} && k <= -20) S.aut.set(G_CAP, 1);
        if (m == std::map<const Expr *, int64_t>{{no, -1}, {n, -1}, {fu, 1}} && k <= 0) S.aut.set(G_SUM, 1);
      }
      std::swap(x, y); p = CmpInst::getSwappedPredicate(p);
    }
  }
  void lin(const Expr *e, int64_t c, std::map<const Expr *, int64_t> &m, int64_t &k, int d = 0) {
    e = bare(e); if (e->k == K_Const) { k += c * (e->w == 32 ? (int64_t)(int32_t)e->c : e->c); return; }
    if (d < 8 && e->k == K_Op && (e->op == Instruction::Add || e->op == Instruction::Sub)) { lin(e->a, c, m, k, d + 1); lin(e->b, e->op == Instruction::Add ? c : -c, m, k, d + 1); return; }
    m[e] += c;
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; State S = S0; if (!success(S, ret)) return; rets++; events++;
    auto need = [&](bool ok, const char *inst, const char *m) { obligations++; if (!ok) say("header-unchecked", Rt, inst, std::string("accepts a page ") + m, S); };
    need((E->abs(S, pg(S, "flags", 16)).zero & ill) == ill, "flags", "without having found that it is of an admissible kind");
    const Expr *front = param(3), *id = pg(S, "txnid", 64), *tf = fld(S, param(2), "MDBX_txn", "front_txnid", 64), *tx = fld(S, param(2), "MDBX_txn", "txnid", 64);
    need(le(S, id, front) || (le(S, id, tf) && le(S, tx, front)), "txnid", "which may be newer than the page or transaction that refers to it");
    bool islarge = (ill & TREE) == TREE; bool isTree = (ill & LARGE) || (!islarge && S.aut.get(G_KIND) == 1); if (S.aut.get(G_KIND) == 2) islarge = true;
    if (isTree) {
      const Expr *lo = pg(S, "lower", 16), *up = pg(S, "upper", 16);
      need(S.aut.get(G_LOUP) || le(S, lo, up), "bounds", "whose lower bound may be above the upper one");
      need(S.aut.get(G_EVEN) || (E->abs(S, lo).zero & 1), "even", "whose lower bound may be odd");
      need(S.aut.get(G_CAP), "end", "whose upper bound may be beyond the end of the page");
    } else if (islarge) {
      need(E->abs(S, pg(S, "pages", 32)).nonZero(), "none", "which may consist of zero pages");
      need(S.aut.get(G_SUM), "beyond", "which may reach beyond the used part of the snapshot");
    } else need(false, "kind", "of which it is not known whether it is large");
  }
};
struct Fetch : PBase { // page_get_unchecked()
  int64_t rets = 0;
  bool descend(const Function *f) override { return f->getName() == "bad_page"; }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override {
    Base::onEdge(S, f, t); if (!E->stack.empty()) return; const Expr *no = E->eval(S, F->getArg(1));
    if (!S.aut.get(G_RANGE) && E->decideCmp(S, CmpInst::ICMP_ULT, no, geo(S, param(0))) == 1) S.aut.set(G_RANGE, 1);
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, f, t, x, y, p) || p != CmpInst::ICMP_EQ) return; x = bare(x); y = bare(y); if (y != no) std::swap(x, y);
    if (y == no && x->k == K_Field && P->keyName(x->key) == "page.pgno" && x->a->k == K_Off) { setTag(S, 2, x->a->a); }
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; State S = S0; const Expr *err = part(P, ret, 1, 32), *page = part(P, ret, 0, 64); if (!success(S, err)) return; rets++; events++; obligations += 2;
    if (!S.aut.get(G_RANGE)) say("number-unchecked", Rt, "range", "gives out a page without having found that its number is within the used part of the snapshot", S);
    if (tag(S, 2) != page && E->decideCmp(S, CmpInst::ICMP_EQ, fld(S, page, "page", "pgno", 32), E->eval(S, F->getArg(1))) != 1) say("number-unchecked", Rt, "same", "gives out a page without having found that it bears the number which was asked for", S);
  }
};
struct Get : PBase { // page_get_inline()
  int64_t rets = 0, fails = 0;
  bool descend(const Function *f) override { return f->getName() == "check_page_complete"; }
  bool keepFact(const Expr *e) override { return PBase::keepFact(e) || e->k == K_Opaque || (e->k == K_Op && e->op == Instruction::ExtractValue); }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override { Base::onEdge(S, f, t); if (E->stack.empty() && (E->abs(S, fld(S, param(1), "MDBX_cursor", "checking", 8)).zero & 0x80)) S.aut.set(G_KIND, 1); }
  const Expr *arg(State &S, const CallBase *C, unsigned n) { const Expr *e = E->eval(S, C->getArgOperand(n)); return e; }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f) return; StringRef n = f->getName(); const Expr *r = E->eval(S, C);
    if (n == "page_get_unchecked") { events++; setTag(S, 1, part(P, r, 1, 32)); setTag(S, 2, part(P, r, 0, 64)); S.aut.set(G_GOT, arg(S, C, 1) == E->eval(S, F->getArg(2))); }
    if (n == "check_page_header") { events++; setTag(S, 3, r); setTag(S, 4, up(S, C, 1)); const Expr *i = up(S, C, 0); S.aut.set(G_HDR, i == E->eval(S, F->getArg(0)) && isTxn(E->eval(S, C->getArgOperand(2)))); }
    if (n == "page_check") { events++; setTag(S, 5, r); S.aut.set(G_FULL, 1); }
  }
  bool isTxn(const Expr *e) { return e->k == K_Field && P->keyName(e->key) == "MDBX_cursor.txn"; }
  void onStore(State &S, const Instruction *, const Expr *ptr, KeyId k, const Expr *val) override { if (P->keyName(k) == "MDBX_txn.flags" && (E->abs(S, val).one & 2)) S.aut.set(G_MARK, 1); }
  const Expr *up(State &S, const CallBase *C, unsigned n) { // in the terms of the analysed function
    const Value *v = C->getArgOperand(n); const Expr *e = E->eval(S, v);
    for (int d = (int)E->stack.size() - 1; d >= 0 && e->k == K_Param; d--) { auto *cb = dyn_cast<CallBase>(E->stack[d].second); auto *a = cast<Argument>(e->v); if (!cb || a->getParent() != calleeOf(cb)) break; const Value *o = cb->getArgOperand(a->getArgNo()); if (isa<Argument>(o)) { Expr x; x.k = K_Param; x.v = o; x.w = e->w; e = P->mk(x); } else return e; }
    return e;
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; State S = S0; const Expr *err = part(P, ret, 1, 32), *page = part(P, ret, 0, 64);
    if (!success(S, err)) { fails++; }
    else {
      rets++; obligations += 3;
      if (!zeroTag(S, 1) || !S.aut.get(G_GOT) || tag(S, 2) != page) say("page-unchecked", Rt, "number", "gives out a page whose number was not successfully verified", S);
      if (!zeroTag(S, 3) || !S.aut.get(G_HDR)) say("page-unchecked", Rt, "header", "gives out a page whose header was not successfully verified for the kinds which were asked for", S);
      if (!S.aut.get(G_KIND) && !(E->abs(S, fld(S, param(1), "MDBX_cursor", "checking", 8)).zero & 0x80) && !(S.aut.get(G_FULL) && zeroTag(S, 5))) say("page-unchecked", Rt, "full", "gives out a page which was not verified completely although the cursor asks for it", S);
    }
    State T = S0; if (E->abs(T, err).isZero() || !E->assumeCmp(T, CmpInst::ICMP_NE, err, P->cst(32, 0))) return; obligations++;
    if (!T.aut.get(G_MARK)) say("not-marked", Rt, "error", "reports a damaged page without marking the transaction as failed", T);
  }
};
struct Uses : PBase { // the page is looked at only after the error was
  int64_t sites = 0;
  bool keepFact(const Expr *e) override { return e->k == K_Op && e->op == Instruction::ExtractValue; }
  bool trackKey(KeyId) override { return false; }
  bool walker() { return F->getName() == "walk_pgno"; } // reports damaged pages together with what their headers say
  const Expr *root(const Expr *p) { return rootExpr(p); }
  const CallBase *from(const Expr *e) { if (e->k != K_Op || e->op != Instruction::ExtractValue || e->c != 0) return nullptr; auto *c = e->a->k == K_Opaque && e->a->v ? dyn_cast<CallBase>(e->a->v) : nullptr; return c && isPgr(calleeOf(c)) ? c : nullptr; }
  void use(State &S, const Instruction *I, const Expr *p) {
    auto *c = from(p); if (!c) return; obligations++; Expr e = *p; e.c = 1; e.w = 32; e.id = 0; e.pointeeDone = false; e.bloom = 0; const Expr *err = part(P, p->a, 1, 32);
    if (!E->abs(S, err).isZero() && !(walker() && E->abs(S, p).nonZero())) say("used-before-examined", I, calleeOf(c)->getName().str(), "uses a page got from " + calleeOf(c)->getName().str() + "() without having found that this succeeded", S);
  }
  void onLoad(State &S, const Instruction *I, const Expr *p, KeyId) override { use(S, I, root(p)); }
  void onStore(State &S, const Instruction *I, const Expr *p, KeyId, const Expr *) override { use(S, I, root(p)); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (f && (f->getName().starts_with("llvm.dbg") || f->getName() == "debug_log" || f->getName() == "bad_page")) return false;
    for (auto &a : C->args()) if (a->getType()->isPointerTy()) use(S, C, E->eval(S, a)); if (isPgr(f)) sites++; return false;
  }
};
RULE(C16) {
  auto done = [&](Engine &E, PBase &c) { if (E.budgetHit) R.errors.push_back("budget exceeded in " + c.F->getName().str()); R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; R.stats["functions"]++; };
  auto *hdr = P.fn("check_page_header"), *raw = P.fn("page_get_unchecked"), *get = P.fn("page_get_inline");
  if (!hdr || !raw || !get || !defined(hdr) || !defined(raw) || !defined(get)) { R.errors.push_back("analysis broken: functions vanished"); return; }
  int64_t h = 0, f = 0, g = 0, sites = 0, callers = 0;
  for (uint64_t ill : {(uint64_t)ILL, ILL | LARGE, ILL | TREE}) {
    Header c; c.R = &R; c.F = hdr; c.P = &P; c.ill = ill; c.cfg = ill == ILL ? "any kind" : ill & LARGE ? "tree pages" : "large pages"; Engine E(P, c); E.maxDisj = 64; State S = E.entryState(hdr); const Expr *a = E.eval(S, hdr->getArg(0));
    E.assumeVal(S, a, AbsVal::cst(a->w, ill), 0); E.run(hdr, S); h += c.rets; done(E, c);
  }
  { Fetch c; c.R = &R; c.F = raw; c.P = &P; Engine E(P, c); E.maxDisj = 64; E.run(raw, E.entryState(raw)); f = c.rets; done(E, c); }
  { Get c; c.R = &R; c.F = get; c.P = &P; Engine E(P, c); E.maxDisj = 64; E.run(get, E.entryState(get)); g = c.rets; done(E, c); }
  // kinds of pages which are asked for
  for (auto &F : *P.M) if (!F.isDeclaration()) for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
    if (calleeOf(cb) == get || (calleeOf(cb) == hdr && &F != get && F.getName() != "check_page_complete")) {
      callers++; R.stats["obligations"]++; auto *k = dyn_cast<ConstantInt>(cb->getArgOperand(0)); uint64_t v = k ? k->getZExtValue() : 0; bool large = F.getName() == "page_get_large";
      if (!k) R.errors.push_back("analysis broken: kind of page in " + F.getName().str() + "()");
      else if ((v & ILL) != ILL || (large ? (v & TREE) != TREE || (v & LARGE) : (v & TREE) != 0)) R.add("wrong-kind", cb, F.getName().str() + ":kind", F.getName().str() + "() accepts pages of a kind which it cannot deal with");
      R.sample("kinds of pages in " + F.getName().str() + "(): " + std::to_string(v), 30);
    }
    if (calleeOf(cb) == raw && &F != get && F.getName() != "defrag_get_page") R.add("unchecked-fetch", cb, F.getName().str() + ":raw", F.getName().str() + "() takes a page of the file without verifying its header");
  }
  for (auto &F : *P.M) if (!F.isDeclaration()) { bool u = false; for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) u |= isPgr(calleeOf(cb)); if (!u) continue;
    Uses c; c.R = &R; c.F = &F; c.P = &P; Engine E(P, c); E.maxDisj = O.disj; E.run(&F, E.entryState(&F)); sites += c.sites; done(E, c); }
  R.need("header_checks", h, 3); R.need("fetches", f, 1); R.need("verified_fetches", g, 1); R.need("kinds", callers, 4); R.need("uses", sites, 20);
}
} // namespace
} // namespace va
