// C11: freed pages are reused only when no reader can still need them.
#include "order_base.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
namespace va {
namespace {
uint64_t pathOff(Program &P, const char *st, std::initializer_list<const char *> names, bool &ok) {
  auto i = P.structs.find(st); const DICompositeType *c = i == P.structs.end() ? nullptr : i->second; uint64_t o = 0; ok = true;
  for (const char *n : names) {
    const DICompositeType *next = nullptr; bool found = false;
    std::function<void(const DICompositeType *, uint64_t)> walk = [&](const DICompositeType *s, uint64_t base) {
      if (s) for (auto *e : s->getElements()) { auto *m = dyn_cast<DIDerivedType>(e); if (!m || m->getTag() != dwarf::DW_TAG_member || found) continue;
        auto *t = dyn_cast_or_null<DICompositeType>(stripTD(m->getBaseType()));
        if (m->getName() == n) { found = true; o += base + m->getOffsetInBits() / 8; next = t; }
        else if (m->getName().empty()) walk(t, base + m->getOffsetInBits() / 8); } };
    walk(c, 0); if (!found) { ok = false; return 0; } c = next;
  }
  return o;
}
const Expr *strip(const Expr *e) { while (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::SExt || e->op == Instruction::Trunc)) e = e->a; return e; }
struct RcBase : Base {
  const Expr *page = nullptr; // second argument
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return Base::trackKey(k) || n.starts_with("page."); }
  bool is(Engine *E, State &S, unsigned pred, const Expr *a, const Expr *b) { if (a && a == b) return CmpInst::isTrueWhenEqual((CmpInst::Predicate)pred); return a && b && a->w == b->w && E->decideCmp(S, pred, a, b) == 1; }
  bool top() { return E->stack.empty(); }
};
// the search of the oldest snapshot over all reader slots
enum { S_SCAN = 1, S_RST, S_BUSY, S_LE, S_STUCK, S_CONF, S_OLD };
enum { T_PREV = 1, T_LEN, T_STPTR, T_STD, T_PID, T_RD, T_MIN, T_FLAG, T_BASE, T_OLD0 = 100 };
struct Oldest : RcBase {
  const PHINode *idx = nullptr; const BasicBlock *head = nullptr; std::set<const BasicBlock *> body; std::vector<const PHINode *> cand; std::set<const PHINode *> bad; bool reported = false; int64_t stores = 0;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return RcBase::trackKey(k) || n.starts_with("shared_lck.") || n.starts_with("reader_slot."); }
  const Expr *at(State &S, const Value *v) { auto i = S.env.find(v); return i == S.env.end() ? nullptr : i->second; }
  uint64_t slotSize = 0, rdtOff = 0;
  bool stepOk(const Value *v, int d) {
    if (d > 4) return false;
    if (auto *g = dyn_cast<GetElementPtrInst>(v)) { APInt o(64, 0); return g->getPointerOperand() == idx && g->accumulateConstantOffset(P->M->getDataLayout(), o) && o == slotSize; }
    if (auto *bo = dyn_cast<BinaryOperator>(v)) { auto *c = dyn_cast<ConstantInt>(bo->getOperand(1)); return bo->getOpcode() == Instruction::Add && bo->getOperand(0) == idx && c && c->isOne(); }
    if (auto *p = dyn_cast<PHINode>(v)) { if (p == idx) return false; for (auto &o : p->incoming_values()) if (!stepOk(o, d + 1)) return false; return true; }
    return false;
  }
  // what was found before this slot: the value of a loop variable, under its current name
  void remember(State &S) { for (size_t k = 0; k < cand.size(); k++) if (const Expr *e = at(S, cand[k])) if (tag(S, T_OLD0 + k) != e) setTag(S, T_OLD0 + k, e); }
  void upd(State &S) {
    remember(S);
    const Expr *pid = tag(S, T_PID), *rd = tag(S, T_RD), *prev = tag(S, T_PREV);
    if (pid && !S.aut.get(S_BUSY)) { AbsVal v = E->abs(S, pid); if (v.isZero()) S.aut.set(S_BUSY, 1); else if (v.nonZero()) S.aut.set(S_BUSY, 2); }
    if (rd) {
      if (prev && !S.aut.get(S_STUCK)) { if (is(E, S, CmpInst::ICMP_ULT, rd, prev)) S.aut.set(S_STUCK, 1); }
      if (!S.aut.get(S_LE)) for (size_t k = 0; k < cand.size(); k++) { const Expr *o = tag(S, T_OLD0 + k); if (bad.count(cand[k]) || !o) continue; if (is(E, S, CmpInst::ICMP_ULT, rd, o)) S.aut.set(S_LE, 1); else if (is(E, S, CmpInst::ICMP_ULE, o, rd)) S.aut.set(S_LE, 2); }
    }
    if (const Expr *f = tag(S, T_FLAG)) { bool y = is(E, S, CmpInst::ICMP_EQ, f, P->cst(32, 1315925605)); if (y) { S.aut.set(S_CONF, 1); dropTag(S, T_FLAG); } }
  }
  void back(State &S, const Instruction *I) { // on to the next slot
      events++; obligations += 2; const Expr *rd = tag(S, T_RD), *prev = tag(S, T_PREV);
      if (!stepOk(idx->getIncomingValueForBlock(I->getParent()), 0)) say("slot-step", I, "step", "does not go to the immediately following reader slot", S);
      bool ok = false;
      for (size_t k = 0; k < cand.size(); k++) { auto *m = cand[k]; if (bad.count(m)) continue; const Expr *n = E->eval(S, m->getIncomingValueForBlock(I->getParent())), *o = tag(S, T_OLD0 + k); if (!n || !o) continue;
        bool down = n == o || is(E, S, CmpInst::ICMP_ULE, n, o);
        bool skip = S.aut.get(S_BUSY) == 1 || S.aut.get(S_STUCK) == 1 || (prev && rd && is(E, S, CmpInst::ICMP_ULT, rd, prev));
        bool low = rd && (n == rd || is(E, S, CmpInst::ICMP_ULE, n, rd) || (S.aut.get(S_LE) == 2 && n == o) || (S.aut.get(S_LE) == 1 && n == rd));
        if (down && (skip || low)) ok = true; else { bad.insert(m); } }
      if (!ok && !reported) { reported = true; say("slot-ignored", I, "slot", "goes to the next reader slot although the snapshot held through this one may be older than what was found so far", S); }
  }
  void onInst(State &S, const Instruction *I) override {
    if (!top()) return; upd(S);
    if (I->isTerminator() && body.count(I->getParent())) for (unsigned k = 0; k < I->getNumSuccessors(); k++) if (I->getSuccessor(k) == head) back(S, I);
    if (I->getParent() == head && I == head->getFirstNonPHIOrDbg()) {
      dropTag(S, T_RD); dropTag(S, T_PID); S.aut.set(S_BUSY, 0); S.aut.set(S_LE, 0); S.aut.set(S_STUCK, 0);
    }
  }
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *to) override {
    if (!top()) return; if (to != head) upd(S);
    bool in = body.count(from), out = body.count(to);
    auto val = [&](const PHINode *p) { return at(S, p); }; // phis have already been updated
    if (to == head && !in) { // the search starts
      events++; obligations += 3;
      bool first; if (idx->getType()->isPointerTy()) { const Expr *b = val(idx); uint64_t o = 0; while (b && b->k == K_Off) { o += b->c; b = b->a; } first = b && o == rdtOff; setTag(S, T_BASE, val(idx)); } else first = E->abs(S, val(idx)).isZero();
      if (!first) say("first-slot", from->getTerminator(), "first", "does not start the search with the first reader slot", S);
      if (!S.aut.get(S_RST)) say("refresh-late", from->getTerminator(), "late", "starts looking at reader slots without having taken back the request to do so first (a reader which registers meanwhile goes unnoticed)", S);
      const Expr *st = tag(S, T_STD); bool any = false; 
      for (auto *m : cand) if (st && is(E, S, CmpInst::ICMP_ULE, val(m), st)) any = true; else { bad.insert(m); }
      if (!any) say("start-value", from->getTerminator(), "start", "does not start the search of the oldest snapshot from the last durable one", S);
      dropTag(S, T_MIN); dropTag(S, T_FLAG); S.aut.set(S_CONF, 0);
    }
    if (from == head || in) if (!out) { // the search ends
      events++; obligations++; const Expr *rd = tag(S, T_RD), *prev = tag(S, T_PREV), *len = tag(S, T_LEN), *i = at(S, idx);
      if (len && i && len->w < i->w) len = P->op(Instruction::ZExt, len, nullptr, i->w);
      bool done = false;
      if (idx->getType()->isPointerTy()) { const Expr *base = tag(S, T_BASE); if (base && i && len) for (auto &rl : S.rels) { const Expr *o = rl.first.first == i ? rl.first.second : rl.first.second == i ? rl.first.first : nullptr;
        if (!o) continue; auto split = [](const Expr *e, uint64_t &f) { f = 0; while (e->k == K_Off) { f += e->c; e = e->a; } return e; }; uint64_t fo, fb; const Expr *oo = split(o, fo), *bb = split(base, fb);
        if (oo->k == K_Idx && oo->a == bb && fo == fb && (uint64_t)oo->c == slotSize && strip(oo->b) == strip(len) && is(E, S, CmpInst::ICMP_UGE, i, o)) done = true; } }
      else done = len && i && is(E, S, CmpInst::ICMP_UGE, i, len);
      bool early = rd && prev && is(E, S, CmpInst::ICMP_EQ, rd, prev);
      if (!done && !early) say("search-cut", from->getTerminator(), "cut", "stops the search of the oldest snapshot before all reader slots were considered", S);
      const Expr *m = nullptr; for (auto *c : cand) if (!bad.count(c)) m = at(S, c);
      if (early) m = rd;
      if (m) { setTag(S, T_MIN, m); S.aut.set(S_SCAN, 1); }
    }
  }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!top()) return; StringRef n = P->keyName(key); const Expr *v = S.env[L];
    if (n == "shared_lck.cached_oldest_txnid" && !tag(S, T_PREV)) setTag(S, T_PREV, v);
    if (n == "shared_lck.rdt_length") { setTag(S, T_LEN, v); }
    if (n == "shared_lck.rdt_refresh_flag") { if (!body.count(L->getParent())) setTag(S, T_FLAG, v), S.aut.set(S_CONF, 0); }
    if (n == "reader_slot.pid") { dropTag(S, T_RD); S.aut.set(S_LE, 0); S.aut.set(S_STUCK, 0); setTag(S, T_PID, v); S.aut.set(S_BUSY, 0); }
    if (n == "reader_slot.txnid" && v->w == 64) { if (!tag(S, T_RD)) setTag(S, T_RD, v); events++; }
    if (n == "meta_ptr.txnid") { const Expr *p = tag(S, T_STPTR); if (p && mentions(ptr, [&](const Expr *x) { return x == p; })) setTag(S, T_STD, v); }
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!top() || !f) return;
    if (f->getName() == "meta_prefer_steady") { setTag(S, T_STPTR, E->eval(S, C->getArgOperand(0))); events++; }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!top()) return; StringRef n = P->keyName(key);
    if (n == "shared_lck.rdt_refresh_flag") S.aut.set(S_RST, 1), dropTag(S, T_LEN);
    if (n == "shared_lck.cached_oldest_txnid") { obligations += 2; events++; stores++;
      const Expr *m = tag(S, T_MIN);
      if (!m || !(m == val || is(E, S, CmpInst::ICMP_ULE, val, m))) say("other-oldest", I, "val", "publishes as the oldest snapshot something that may be newer than the oldest one found", S);
      if (!S.aut.get(S_CONF)) say("stale-oldest", I, "conf", "publishes the oldest snapshot although a reader may have registered during the search", S);
    }
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *) override {
    if (!top()) return; upd(S); obligations += 2;
    const Value *v = Rt->getReturnValue(), *o = nullptr;
    while (auto *iv = dyn_cast_or_null<InsertValueInst>(v)) { if (!o && iv->getIndices()[0] == 0) o = iv->getInsertedValueOperand(); v = iv->getAggregateOperand(); }
    if (!o) { say("result", Rt, "res", "returns a result that is not understood", S); return; }
    const Expr *r = E->eval(S, o), *m = tag(S, T_MIN), *p = tag(S, T_PREV);
    if (!(p && (r == p || is(E, S, CmpInst::ICMP_ULE, r, p))) && !(m && (r == m || is(E, S, CmpInst::ICMP_ULE, r, m)))) say("other-oldest", Rt, "ret", "returns as the oldest snapshot something that may be newer than the oldest one found", S);
    if (!S.aut.get(S_CONF)) say("stale-oldest", Rt, "conf", "returns the oldest snapshot although a reader may have registered since the search", S);
  }
};
// taking back a record of the garbage collection table
enum { G_OLD = 1, G_REC, G_COME, G_MERGED, G_PUSHED };
enum { T_ID = 1, T_NR, T_NC, T_DET };
struct Take : RcBase {
  uint64_t offRec = 0, offCome = 0, offReady = 0, offRepnl = 0, offDet = 0; int64_t merges = 0, pushes = 0;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return RcBase::trackKey(k) || n.starts_with("MDBX_val.") || n.starts_with("iovec."); }
  static uint64_t offs0(const Expr *a) { uint64_t o = 0; while (a->k == K_Off) { o += a->c; a = a->a; } return o; }
  bool isDet(const Expr *e) { return e->k == K_Field && P->keyName(e->key).ends_with("gc.detent"); }
  void upd(State &S) {
    if (const Expr *t = tag(S, T_NR)) { if (E->abs(S, t).isZero()) S.aut.set(G_REC, 1), dropTag(S, T_NR); else if (E->abs(S, t).nonZero()) dropTag(S, T_NR); }
    if (const Expr *t = tag(S, T_NC)) { if (E->abs(S, t).isZero()) S.aut.set(G_COME, 1), dropTag(S, T_NC); else if (E->abs(S, t).nonZero()) dropTag(S, T_NC); }
    if (const Expr *id = tag(S, T_ID)) if (!S.aut.get(G_OLD)) for (auto &r : S.rels) {
      const Expr *o = r.first.first == id ? r.first.second : r.first.second == id ? r.first.first : nullptr;
      if (o && (isDet(o) || o == tag(S, T_DET)) && is(E, S, CmpInst::ICMP_ULE, id, o)) { S.aut.set(G_OLD, 1); break; } }
  }
  void onInst(State &S, const Instruction *) override { if (top()) upd(S); }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override { if (top()) upd(S); }
  void next(State &S, const Instruction *I) {
    if (S.aut.get(G_MERGED) && !S.aut.get(G_PUSHED)) { obligations++; say("not-remembered", I, "push", "goes on after taking pages out of a record without remembering that the record was used (they would be handed out twice)", S); }
    for (int r : {G_OLD, G_REC, G_COME, G_MERGED, G_PUSHED}) S.aut.set(r, 0);
    dropTag(S, T_ID); dropTag(S, T_NR); dropTag(S, T_NC);
  }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId) override {
    if (!top() || !L->getType()->isIntegerTy(64)) return;
    const Expr *p = ptr; if (p->k == K_Field && (P->keyName(p->key) == "MDBX_val.iov_base" || P->keyName(p->key) == "iovec.iov_base")) { setTag(S, T_ID, S.env[L]); events++; S.aut.set(G_OLD, 0); S.aut.set(G_REC, 0); S.aut.set(G_COME, 0); }
  }
  bool sameId(State &S, const Expr *a) { const Expr *id = tag(S, T_ID); return id && (a == id || is(E, S, CmpInst::ICMP_EQ, a, id)); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!top() || !f) return false; StringRef n = f->getName();
    if (n == "cursor_ops" || n == "outer_first" || n == "outer_next" || n == "outer_prev" || n == "outer_last" || n == "cursor_seek") next(S, C);
    bool mg = false;
    if (n == "pnl_merge") { const Expr *d = E->eval(S, C->getArgOperand(0)); mg = d->k == K_Field && offs0(d->a) == offRepnl; }
    if (n == "pnl_append_pnl") { const Expr *d = E->eval(S, C->getArgOperand(0)); mg = offs0(d) == offRepnl; }
    if (mg) {
      merges++; events++; obligations += 3; upd(S);
      if (!S.aut.get(G_OLD)) say("too-new", C, "old", "takes back the pages of a record without having found that it is not newer than the oldest snapshot in use", S);
      if (!S.aut.get(G_REC)) say("taken-twice", C, "rec", "takes back the pages of a record without having found that it was not already used", S);
      if (!S.aut.get(G_COME)) say("taken-twice", C, "come", "takes back the pages of a record without having found that it does not hold pages returned by this very transaction", S);
      S.aut.set(G_MERGED, 1);
    }
    if (n == "rkl_push") { uint64_t o = offs0(E->eval(S, C->getArgOperand(0))); bool multi = o != offRec && o != offReady; (void)multi;
      pushes++; events++; obligations++;
      if (!sameId(S, E->eval(S, C->getArgOperand(1)))) say("other-id", C, "id", "remembers another record than the one whose pages were taken", S);
      else S.aut.set(G_PUSHED, 1); }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!top() || !f || !S.env.count(C)) return;
    if (f->getName() == "rkl_contain") { uint64_t o = offs0(E->eval(S, C->getArgOperand(0))); events++;
      if (sameId(S, E->eval(S, C->getArgOperand(1)))) { if (o == offRec) setTag(S, T_NR, S.env[C]); if (o == offCome) setTag(S, T_NC, S.env[C]); } }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override { if (P->keyName(key).ends_with("gc.detent")) { S.aut.set(G_OLD, 0); setTag(S, T_DET, val); } }
  bool wide(State &S, const Expr *r) { AbsVal v = E->abs(S, r), z = AbsVal::cst(v.w, 0); z.meet(v); return !z.bottom(); }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!top()) return; obligations++;
    if (!S.aut.get(G_MERGED) || S.aut.get(G_PUSHED)) return;
    const Value *v = Rt->getReturnValue(); const Value *e = v;
    while (auto *iv = dyn_cast_or_null<InsertValueInst>(e)) { if (iv->getIndices()[0] == 1) { e = iv->getInsertedValueOperand(); break; } e = iv->getAggregateOperand(); }
    if (!e || !e->getType()->isIntegerTy() || wide(S, E->eval(S, e))) say("not-remembered", Rt, "push", "may succeed after taking pages out of a record without remembering that the record was used (they would be handed out twice)", S);
  }
};
// releasing a page
enum { N_NF = 1 };
enum { T_EV = 1, T_DP, T_PT, T_RP };
struct Retire : RcBase {
  bool nested = false; int64_t sinks = 0;
  void upd(State &S) {
    if (S.aut.get(N_NF)) { S.aut.t.clear(); return; }
    const Expr *pg = nested ? tag(S, T_RP) : page, *dp = tag(S, T_DP), *ev = tag(S, T_EV);
    if ((ev && E->abs(S, ev).nonZero()) || (dp && pg && is(E, S, CmpInst::ICMP_EQ, dp, pg))) { S.aut.set(N_NF, 1); dropTag(S, T_EV); dropTag(S, T_DP); return; }
    if (ev && E->abs(S, ev).isZero()) dropTag(S, T_EV);
    if (dp && pg && is(E, S, CmpInst::ICMP_NE, dp, pg)) dropTag(S, T_DP);
    if (!S.aut.get(N_NF) && !nested) if (const Expr *t = tag(S, T_PT)) for (auto &r : S.rels) {
      const Expr *o = r.first.first == t ? r.first.second : r.first.second == t ? r.first.first : nullptr;
      if (o && o->k == K_Field && (P->keyName(o->key) == "MDBX_txn.txnid" || P->keyName(o->key) == "MDBX_txn.front_txnid") && is(E, S, CmpInst::ICMP_UGE, t, o)) { S.aut.set(N_NF, 1); break; } }
  }
  void onInst(State &S, const Instruction *) override { if (top()) upd(S); }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override { if (top()) upd(S); }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (!top()) return; StringRef n = P->keyName(key);
    if (n == "page.txnid") { setTag(S, T_PT, S.env[L]); events++; }
    if (n == "dp.pgno") { setTag(S, T_DP, S.env[L]); events++; }
    if (nested && L->getType()->isIntegerTy(32) && mentions(ptr, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key).ends_with("retired_pages"); })) { setTag(S, T_RP, S.env[L]); drop(S); }
  }
  void drop(State &S) { S.aut.set(N_NF, 0); dropTag(S, T_EV); dropTag(S, T_DP); }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!top() || !f || !S.env.count(C)) return; StringRef n = f->getName();
    if (n == "txn_dpl_exist" || n == "spill_search") { events++; setTag(S, T_EV, S.env[C]); }
  }
  void need(State &S, const Instruction *I, const char *what, const char *inst) {
    upd(S); obligations++; sinks++; events++;
    if (!S.aut.get(N_NF)) say("reused-at-once", I, inst, std::string("gives a page up for reuse in this transaction (") + what + ") without having found that the page does not belong to a committed snapshot", S);
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!top() || !f) return false; StringRef n = f->getName();
    if (nested && n == "spill_purge") return true; // nothing is given up after this
    if (n == "pnl_insert_span") need(S, C, "list of reclaimed pages", "repnl");
    return false;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!top()) return; StringRef n = P->keyName(key);
    if (n.ends_with("loose_pages")) need(S, I, "list of loose pages", "loose");
    if (n.ends_with("first_unallocated") && !nested) need(S, I, "unallocated space", "tail");
  }
};
// throwing out a reader which holds up reclaiming
enum { L_OUST = 1, L_ANS, L_KILL };
enum { T_CAS = 1, T_CB };
struct Laggard : RcBase {
  int64_t resets = 0;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return RcBase::trackKey(k) || n.starts_with("reader_slot."); }
  const Expr *at(State &S, const Value *v) { auto i = S.env.find(v); return i == S.env.end() ? nullptr : i->second; }
  void upd(State &S) {
    if (const Expr *t = tag(S, T_CAS)) { AbsVal v = E->abs(S, t); if (v.nonZero()) S.aut.set(L_OUST, 1), dropTag(S, T_CAS); else if (v.isZero()) dropTag(S, T_CAS); }
    if (const Expr *t = tag(S, T_CB)) { AbsVal v = E->abs(S, t); if (v.smin > 0) S.aut.set(L_ANS, 1); if (v.smin > 1 || (v.smin > 0 && v.neq.count(1))) { S.aut.set(L_KILL, 1); dropTag(S, T_CB); } else if (v.smax <= 0 || v.smax == 1) dropTag(S, T_CB); }
  }
  bool slotKey(const Value *ptr, State &S, StringRef &n, unsigned bytes) { n = P->keyName(P->keyOf(E->eval(S, ptr), bytes)); return n.starts_with("reader_slot."); }
  void onInst(State &S, const Instruction *I) override {
    if (!top()) return;
    if (auto *x = dyn_cast_or_null<ExtractValueInst>(I->getPrevNode())) if (x->getIndices()[0] == 1) if (auto *c = dyn_cast<AtomicCmpXchgInst>(x->getAggregateOperand())) { StringRef n; if (slotKey(c->getPointerOperand(), S, n, 8) && n == "reader_slot.tid") if (const Expr *e = at(S, x)) if (!tag(S, T_CAS) && S.aut.get(L_OUST) == 0) setTag(S, T_CAS, e); }
    upd(S);
    if (auto *c = dyn_cast<AtomicCmpXchgInst>(I)) { StringRef n; unsigned b = c->getCompareOperand()->getType()->getIntegerBitWidth() / 8; if (!slotKey(c->getPointerOperand(), S, n, b)) return;
      events++; obligations++;
      if (n == "reader_slot.tid") { S.aut.set(L_OUST, 0); dropTag(S, T_CAS); int64_t v; if (!E->abs(S, E->eval(S, c->getCompareOperand())).isConst(v) || v != -1) say("ousted-active", I, "tid", "marks as ousted a reader that is not parked", S); }
      if (n == "reader_slot.txnid") { resets++; if (!S.aut.get(L_OUST) && !S.aut.get(L_ANS)) say("reader-dropped", I, "cas", "gives up the snapshot of a reader which is neither parked nor given up by the application's callback", S); } }
  }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override { if (top()) upd(S); }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!top() || isa<AtomicCmpXchgInst>(I)) return; StringRef n = P->keyName(key); if (!n.starts_with("reader_slot.")) return;
    events++; obligations++; resets++; upd(S);
    if (!S.aut.get(L_KILL)) say("reader-dropped", I, n.drop_front(12).str(), "clears the slot of a reader although the application's callback did not report its process as gone", S);
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!top()) return;
    if (!f && S.env.count(C) && !C->isInlineAsm()) { S.aut.set(L_ANS, 0); S.aut.set(L_KILL, 0); setTag(S, T_CB, S.env[C]); events++; }
    if (f && f->getName() == "mvcc_shapshot_oldest_rw") { S.aut.set(L_ANS, 0); S.aut.set(L_KILL, 0); S.aut.set(L_OUST, 0); dropTag(S, T_CB); dropTag(S, T_CAS); }
  }
};
void go(Program &P, RuleOut &R, const Options &O, RcBase &c, const char *fn) {
  Function *F = P.fn(fn); if (!F || F->isDeclaration()) { R.errors.push_back(std::string("analysis broken: no function ") + fn); return; }
  c.R = &R; c.F = F; c.P = &P; Engine E(P, c); E.maxDisj = O.disj; State S = E.entryState(F); if (F->arg_size() > 1) c.page = E.eval(S, F->getArg(1));
  E.run(F, S);
  R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; R.stats["functions"]++;
  if (E.budgetHit) R.errors.push_back(std::string("budget exceeded in ") + fn);
  R.sample(std::string(fn) + ": " + std::to_string(c.events) + " events, " + std::to_string(c.obligations) + " obligations", 40);
}
void run11(Program &P, RuleOut &R, const Options &O) {
  { Oldest c; Function *F = P.fn("mvcc_shapshot_oldest_rw");
    if (!F || F->isDeclaration()) R.errors.push_back("analysis broken: no function mvcc_shapshot_oldest_rw");
    else {
      DominatorTree DT(*F); LoopInfo LI(DT); const Loop *L = nullptr;
      for (auto &B : *F) for (auto &I : B) if (auto *ld = dyn_cast<LoadInst>(&I)) {
        const Expr *p = P.staticExpr(ld->getPointerOperand()); KeyId k = P.keyOf(p, 8); if (P.keyName(k) != "reader_slot.txnid") continue;
        // the loop whose counter selects the slot
        mentions(p, [&](const Expr *x) { if (auto *ph = dyn_cast_or_null<PHINode>(x->v)) if (auto *l = LI.getLoopFor(ph->getParent())) if (l->getHeader() == ph->getParent() && (ph->getType()->isIntegerTy() || ph->getType()->isPointerTy())) { c.idx = ph; L = l; } return false; });
        if (!c.idx) if (auto *g = dyn_cast<GetElementPtrInst>(ld->getPointerOperand())) {
          std::function<void(const Value *, int)> w = [&](const Value *v, int d) { if (d > 6 || c.idx) return; if (auto *ph = dyn_cast<PHINode>(v)) { auto *l = LI.getLoopFor(ph->getParent()); if (l && l->getHeader() == ph->getParent() && (ph->getType()->isIntegerTy() || ph->getType()->isPointerTy())) { c.idx = ph; L = l; } return; } if (auto *u = dyn_cast<User>(v)) for (auto &o : u->operands()) w(o, d + 1); };
          w(g, 0); }
      }
      if (!L) R.errors.push_back("analysis broken: no search of reader slots in mvcc_shapshot_oldest_rw");
      else {
        bool ok1; c.rdtOff = pathOff(P, "shared_lck", {"rdt"}, ok1); auto sl = P.structs.find("reader_slot"); c.slotSize = sl == P.structs.end() ? 0 : sl->second->getSizeInBits() / 8; if (!ok1 || !c.slotSize) R.errors.push_back("analysis broken: no reader table");
        c.head = L->getHeader(); for (auto *b : L->blocks()) c.body.insert(b);
        for (auto &I : *c.head) if (auto *ph = dyn_cast<PHINode>(&I)) if (ph != c.idx && ph->getType()->isIntegerTy(64)) c.cand.push_back(ph);
        // only those which start as a transaction number
        go(P, R, O, c, "mvcc_shapshot_oldest_rw");
        if (!c.stores) R.errors.push_back("analysis broken: mvcc_shapshot_oldest_rw() does not publish the oldest snapshot");
      } } }
  bool k[5]; uint64_t rec = pathOff(P, "MDBX_txn", {"wr", "gc", "reclaimed"}, k[0]), come = pathOff(P, "MDBX_txn", {"wr", "gc", "comeback"}, k[1]), ready = pathOff(P, "MDBX_txn", {"wr", "gc", "ready4reuse"}, k[2]), rep = pathOff(P, "MDBX_txn", {"wr", "repnl"}, k[3]), det = pathOff(P, "MDBX_env", {"gc", "detent"}, k[4]);
  if (!(k[0] && k[1] && k[2] && k[3] && k[4])) R.errors.push_back("analysis broken: the lists of reclaimed pages and records are gone");
  for (const char *fn : {"gc_alloc_ex", "defrag_load_gc"}) { Take c; c.offRec = rec; c.offCome = come; c.offReady = ready; c.offRepnl = rep; c.offDet = det; go(P, R, O, c, fn); if (!c.merges || !c.pushes) R.errors.push_back(std::string("analysis broken: no record is taken in ") + fn); }
  for (const char *fn : {"page_retire_ex"}) { if (std::string(fn) == "nested_merge" && !P.fn(fn)) continue; Retire c; c.nested = std::string(fn) == "nested_merge"; go(P, R, O, c, fn); if (!c.sinks) R.errors.push_back(std::string("analysis broken: no page is given up for reuse in ") + fn); }
  { Laggard c; go(P, R, O, c, "mvcc_kick_laggards"); R.need("reader_resets", c.resets, 2); }
  // every assignment of the limit of reclaiming, and of the published oldest snapshot
  for (auto &F : *P.M) for (auto &B : F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) {
    const Expr *p = P.staticExpr(s->getPointerOperand()); KeyId key = P.keyOf(p, 8); StringRef n = P.keyName(key);
    if (n.ends_with("gc.detent")) { R.stats["obligations"]++; R.stats["events"]++;
      const Value *v = s->getValueOperand(); bool ok = false;
      if (auto *ci = dyn_cast<ConstantInt>(v)) ok = ci->isZero();
      if (auto *ev = dyn_cast<ExtractValueInst>(v)) if (auto *cb = dyn_cast<CallBase>(ev->getAggregateOperand())) if (auto *f = calleeOf(cb)) ok = f->getName() == "mvcc_shapshot_oldest_rw" && ev->getIndices()[0] == 0;
      if (!ok) R.add("detent", &I, F.getName().str() + ":detent", "the limit of reclaiming is set to something other than the oldest snapshot in use"); }
    if (n == "shared_lck.cached_oldest_txnid") { R.stats["obligations"]++; auto *ci = dyn_cast<ConstantInt>(s->getValueOperand()); if (F.getName() != "mvcc_shapshot_oldest_rw" && !(ci && ci->isZero())) R.add("cached", &I, F.getName().str() + ":cached", "the published oldest snapshot is changed outside of the search over the reader slots"); }
  }
}
RULE(C11) { run11(P, R, O); }
} // namespace
} // namespace va
