// C27: keys and values of a wrong length are refused before anything is changed.
#include "order_base.h"
namespace va {
namespace {
const int32_t NO_ROOT = -30376;
enum { L_KMAX = 1, L_KMIN, L_VMAX, L_VMIN, L_IK, L_ID, L_DF, L_MOD, L_SAME, L_END };
uint64_t constOff(const Expr *e, const Expr **root) { uint64_t o = 0; while (e->k == K_Off) { o += e->c; e = e->a; } *root = e; return o; }
const Expr *bare(const Expr *e) { while (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::SExt)) e = e->a; return e; }
bool order(CmpInst::Predicate &p, const Expr *&x, const Expr *&y, std::function<bool(const Expr *)> left) { // bring to: left p y
  if (left(x)) return true; if (!left(y)) return false; std::swap(x, y); p = CmpInst::getSwappedPredicate(p); return true;
}
bool impliesLE(CmpInst::Predicate p) { return p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_EQ; }
bool impliesGE(CmpInst::Predicate p) { return p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_EQ; }
struct LBase : Base {
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.contains("iov_len") || n.starts_with("MDBX_cursor.") || n.starts_with("tree.") || n.starts_with("tree_t.") || n.starts_with("clc") || n.starts_with("page") || n.starts_with("node") || n.starts_with("kvx"); }
  // the length member behind a pointer to a key or value
  const Expr *len(State &S, const Expr *val) { return fld(S, val, "iovec", "iov_len", 64); }
  bool isLen(const Expr *e, unsigned arg) { e = bare(e); if (e->k != K_Field || e->w != 64) return false; const Expr *r; uint64_t o = constOff(e->a, &r); bool k; auto i = P->structs.find("iovec"); return isParam(r, arg) && o == memberOff(i == P->structs.end() ? nullptr : i->second, "iov_len", k); }
  const Expr *treeFlags(State &S) { return fld(S, fld(S, param(0), "MDBX_cursor", "tree", 64), "tree", "flags", 16); }
  bool flagOff(State &S, uint64_t bit) { AbsVal v = E->abs(S, treeFlags(S)); return v.zero & bit; }
  uint64_t limOff(const char *which, const char *m) { bool k, l; auto a = P->structs.find("clc_couple"), b = P->structs.find("clc"); if (a == P->structs.end()) a = P->structs.find("clc2"); uint64_t x = memberOff(a == P->structs.end() ? nullptr : a->second, which, k), y = memberOff(b == P->structs.end() ? nullptr : b->second, m, l); if (!k || !l) { R->errors.push_back("analysis broken: limits of lengths not found"); return ~0ull; } return x + y; }
};
// -------------------------------------------- every check precedes the insertion
struct Checks : LBase {
  int64_t puts = 0; uint64_t kmin, kmax, vmin, vmax;
  bool descend(const Function *) override { return false; }
  bool keepFact(const Expr *e) override { const Expr *b = bare(e); if (b->k != K_Field) return false; StringRef n = P->keyName(b->key); return n.contains("iov_len") || n.ends_with(".flags") || n.contains("dupfix_size"); }
  const Expr *origLen(State &S, unsigned n) { return len(S, param(n)); }
  void learn(State &S) {
    if (!S.aut.get(L_IK)) { int64_t c; if (flagOff(S, 8) || (E->abs(S, origLen(S, 1)).isConst(c) && (c == 4 || c == 8))) S.aut.set(L_IK, 1); }
    if (!S.aut.get(L_ID)) { int64_t c; if (flagOff(S, 0x20) || (E->abs(S, origLen(S, 2)).isConst(c) && (c == 4 || c == 8))) S.aut.set(L_ID, 1); }
    if (!S.aut.get(L_DF)) { const Expr *t = fld(S, fld(S, param(0), "MDBX_cursor", "tree", 64), "tree", "dupfix_size", 32); if (flagOff(S, 0x10) || E->abs(S, t).isZero()) S.aut.set(L_DF, 1); }
  }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override {
    Base::onEdge(S, f, t); const Expr *x, *y; CmpInst::Predicate p;
    if (edgeCmp(S, f, t, x, y, p)) for (unsigned n : {1u, 2u}) {
      const Expr *a = x, *b = y; auto q = p; if (!order(q, a, b, [&](const Expr *e) { return isLen(e, n); })) continue;
      b = bare(b); if (b->k != K_Field) continue;
      if (n == 2 && q == CmpInst::ICMP_EQ && P->keyName(b->key).contains("dupfix_size")) S.aut.set(L_DF, 1);
      const Expr *r; uint64_t o = constOff(b->a, &r); if (r->k != K_Field || P->keyName(r->key) != "MDBX_cursor.clc") continue;
      events++;
      if (o == (n == 1 ? kmax : vmax) && impliesLE(q)) S.aut.set(n == 1 ? L_KMAX : L_VMAX, 1);
      if (o == (n == 1 ? kmin : vmin) && impliesGE(q)) S.aut.set(n == 1 ? L_KMIN : L_VMIN, 1);
    }
    learn(S);
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || f->getName() != "cursor_put") return false; puts++; obligations += 7;
    learn(S);
    auto miss = [&](int r, const char *inst, const char *m) { if (!S.aut.get(r)) say("length-unchecked", C, inst, std::string("stores ") + m, S); };
    miss(L_KMAX, "kmax", "a key without having found that it is not longer than the limit of the table");
    miss(L_KMIN, "kmin", "a key without having found that it is not shorter than the limit of the table");
    miss(L_VMAX, "vmax", "a value without having found that it is not longer than the limit of the table");
    miss(L_VMIN, "vmin", "a value without having found that it is not shorter than the limit of the table");
    miss(L_IK, "intkey", "an integer key which may have a size other than 4 or 8");
    miss(L_ID, "intdup", "an integer multi-value which may have a size other than 4 or 8");
    miss(L_DF, "dupfix", "a multi-value of fixed size which may differ in size from those in the table");
    for (unsigned n : {1u, 2u}) { obligations++; given.push_back({C, C->getArgOperand(n), n, S.trace}); }
    return false;
  }
  struct Given { const CallBase *C; const Value *v; unsigned n; TraceP tr; }; std::vector<Given> given;
  std::map<const Value *, unsigned> copies; // local copies of a key or value: 1 = has the length of the key, 2 = of the value, 4 = something else
  void onStore(State &S, const Instruction *, const Expr *ptr, KeyId, const Expr *val) override {
    const Expr *r; uint64_t o = constOff(ptr, &r); if (r->k != K_Alloca || val->w != 64) return; auto *st = P->pointeeStruct(r); if (!st || st->getName() != "iovec") return;
    bool k; if (o != memberOff(st, "iov_len", k)) return; unsigned m = 0; int64_t c, d;
    for (unsigned n : {1u, 2u}) { const Expr *l = origLen(S, n); if (l == val || E->decideCmp(S, CmpInst::ICMP_EQ, l, val) == 1 || (E->abs(S, l).isConst(c) && E->abs(S, val).isConst(d) && c == d)) m |= n; }
    if (!m) m = 4; auto i = copies.find(r->v); if (i == copies.end()) copies[r->v] = m; else i->second = (i->second & m & 3) ? (i->second & m) : 4;
  }
  // the data passed on is that which was checked, or a copy of the same length
  bool same(const Value *v, unsigned n, int d = 0) {
    if (d > 8) return false; if (v == F->getArg(n)) return true;
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &x : p->incoming_values()) if (x != v && !same(x, n, d + 1)) return false; return true; }
    if (auto *s = dyn_cast<SelectInst>(v)) return same(s->getTrueValue(), n, d + 1) && same(s->getFalseValue(), n, d + 1);
    auto i = copies.find(v); return i != copies.end() && (i->second & n);
  }
  void finish() { for (auto &g : given) if (!same(g.v, g.n)) { State S; S.trace = g.tr; say("other-length", g.C, g.n == 1 ? "key" : "value", std::string("stores ") + (g.n == 1 ? "a key" : "a value") + " of another length than was checked", S); } }
};
// ------------------------------------- nothing is changed before the check; the copy of a length is not bypassed
struct Before : LBase {
  const std::set<const Function *> *mods = nullptr; int64_t checks = 0;
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override { Base::onEdge(S, f, t); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false;
    if (f->getName() == "cursor_put_checklen") { checks++; obligations++; events++; if (S.aut.get(L_MOD)) say("changed-before-check", C, "order", "may change the table before the lengths of the key and the value are checked", S); return false; }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (f && mods->count(f) && f->getName() != "cursor_put_checklen") { S.aut.set(L_MOD, 1);  E->note(S, C, "changes the table: " + f->getName().str() + "()"); } }
};
// --------------------------------------- keys of an integer table are as long as those present
struct SameLen : LBase {
  int64_t found = 0; bool ended = false;
  bool keepFact(const Expr *e) override { const Expr *b = bare(e); if (b->k != K_Field) return false; StringRef n = P->keyName(b->key); return n == "MDBX_cursor.flags" || n.ends_with("tree.flags") || n.ends_with("tree.height") || n.ends_with(".ksize"); }
  bool dropState(State &S) override { return S.aut.get(L_END); }
  bool isKs(const Expr *e) { e = bare(e); return e->w <= 64 && !isLen(e, 1) && mentions(e, [&](const Expr *x) { return x->k == K_Field && x->w == 16 && mentions(x->a, [&](const Expr *y) { return y->k == K_Field && P->keyName(y->key).starts_with("MDBX_cursor.pg"); }); }); }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override {
    Base::onEdge(S, f, t); if (!E->stack.empty()) return; const Expr *x, *y; CmpInst::Predicate p;
    if (edgeCmp(S, f, t, x, y, p) && order(p, x, y, [&](const Expr *e) { return isLen(e, 1); }) && isKs(y) && p == CmpInst::ICMP_EQ) S.aut.set(L_SAME, 1);
    if (!S.aut.get(L_SAME)) {
      const Expr *hf = fld(S, param(0), "MDBX_cursor", "flags", 8), *h = fld(S, fld(S, param(0), "MDBX_cursor", "tree", 64), "tree", "height", 16);
      if (flagOff(S, 8) || (E->abs(S, hf).one & 1) || E->abs(S, h).isZero()) S.aut.set(L_SAME, 1);
      // a page without keys
      if (edgeCmp(S, f, t, x, y, p) && E->abs(S, y).isZero() && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_ULE) && mentions(x, [&](const Expr *e) { return e->k == K_Field && P->keyName(e->key).starts_with("page."); })) S.aut.set(L_SAME, 1);
      if (edgeCmp(S, f, t, x, y, p) && p == CmpInst::ICMP_EQ && ((y->k == K_Const && (int32_t)y->c == NO_ROOT) || (x->k == K_Const && (int32_t)x->c == NO_ROOT))) S.aut.set(L_SAME, 1); // an empty table
    }
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || !E->stack.empty()) return false;
    if (f->getName() == "cursor_touch" || f->getName() == "page_new") {
      found++; obligations++;
      if (!S.aut.get(L_SAME)) say("other-integer-size", C, "samelen", "may insert an integer key of another size than the keys which are present", S);
      S.aut.set(L_END, 1);
    }
    return false;
  }
};
// ------------------------------------------------------- the limits of a table
struct Limits : LBase {
  uint64_t flags = 0; bool sized = false; const Expr *envP() { return param(0); } int64_t stores = 0; uint64_t kmin, kmax, vmin, vmax; uint64_t seen = 0;
  std::set<std::pair<const Function *, uint64_t>> used; // results of functions, which are looked at by themselves
  bool byFunction(State &S, const Expr *v) {
    auto *c = v->k == K_Opaque && v->v ? dyn_cast<CallBase>(v->v) : nullptr; auto *f = c ? calleeOf(c) : nullptr; if (!f || !defined(f) || f->arg_size() != 2 || !(f->getName() == "env_keysize_max" || f->getName() == "env_valsize_max")) return false;
    auto i = calls.find(c); if (i == calls.end() || i->second < 0) return false; int64_t fl = i->second;
    wanted.insert({f, fl}); return f->getName() == "env_keysize_max" ? kcall = fl, true : (vcall = fl, true);
  }
  std::map<const CallBase *, int64_t> calls; // flags given
  bool descend(const Function *) override { return false; }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (f && (f->getName() == "env_keysize_max" || f->getName() == "env_valsize_max")) { int64_t fl = -1; if (!isParam(E->eval(S, C->getArgOperand(0)), 0) || !E->abs(S, E->eval(S, C->getArgOperand(1))).isConst(fl)) fl = -1; auto i = calls.find(C); if (i == calls.end()) calls[C] = fl; else if (i->second != fl) i->second = -1; }
    return false;
  }
  bool keepFact(const Expr *e) override { e = bare(e); return e->k == K_Param || (e->k == K_Field && (P->keyName(e->key).contains("dupfix_size") || P->keyName(e->key).ends_with("tree.flags"))); }
  std::set<std::pair<const Function *, uint64_t>> wanted; int64_t kcall = -1, vcall = -1;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return LBase::trackKey(k) || n.starts_with("MDBX_env."); }
  std::map<const Expr *, int> w;
  const Expr *dup(State &S) { return fld(S, param(2), "tree", "dupfix_size", 32); }
  bool isDup(State &S, const Expr *v) { return bare(v) == dup(S) || E->decideCmp(S, CmpInst::ICMP_EQ, bare(v), dup(S)) == 1; }
  bool upTo(State &S, const Expr *v, const char *node, int64_t less) { // v <= env->node - less
    const Expr *n = fld(S, param(0), "MDBX_env", node, 16);
    auto fits = [&](const Expr *x) { // the field and a constant which is not above
      int64_t o = 0; for (int i = 0; i < 8 && x->k == K_Op; i++) { if ((x->op == Instruction::Add || x->op == Instruction::Sub) && x->b && x->b->k == K_Const) { int64_t c = x->b->w == 32 ? (int32_t)x->b->c : x->b->c; o += x->op == Instruction::Add ? c : -c; x = x->a; } else if (x->op == Instruction::ZExt || x->op == Instruction::SExt) x = x->a; else break; }
      return x == n && o <= -less; };
    if (fits(v)) return true;
    for (auto &f : S.rels) for (auto *x : {f.first.first, f.first.second}) if ((f.first.first == v || f.first.second == v) && x != v && fits(x) && (E->decideCmp(S, CmpInst::ICMP_SLE, v, x) == 1 || E->decideCmp(S, CmpInst::ICMP_ULE, v, x) == 1)) return true;
    return false;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId, const Expr *val) override {
    const Expr *r; uint64_t o = constOff(ptr, &r); if (!isParam(r, 1) || !E->stack.empty()) return;
    int64_t c; bool cst = E->abs(S, val).isConst(c); std::string bad; bool ik = flags & 8, id = flags & 0x20, df = flags & 0x10, ds = flags & 4;
    if (o == kmin) { seen |= 1; if (!cst || c != (ik ? 4 : 0)) bad = "lower limit of the keys"; }
    else if (o == kmax) { seen |= 2; if (ik ? !(cst && c == 8) : !(upTo(S, val, "branch_nodemax", 8) && (!ds || upTo(S, val, "leaf_nodemax", 8 + treeSize)))) bad = "upper limit of the keys"; }
    else if (o == vmin) { seen |= 4; if (sized && df ? !isDup(S, val) : !(cst && c == (id ? 4 : df ? 2 : 0))) bad = "lower limit of the values"; }
    else if (o == vmax) { seen |= 8; if (sized && df ? !isDup(S, val) : id ? !(cst && c == 8) : ds ? !upTo(S, val, "branch_nodemax", 8) : E->abs(S, val).isZero()) bad = "upper limit of the values"; }
    else return;
    if (!bad.empty() && (o == kmax || (o == vmax && !(sized && df))) && byFunction(S, val) && (o == kmax ? kcall : vcall) == (int64_t)flags) bad.clear();
    stores++; obligations++; events++;
    if (!bad.empty()) say("wrong-limit", I, "limit" + std::to_string(o), "sets a wrong " + bad, S);
  }
  int64_t treeSize = 0;
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override { State S = S0; if (!E->stack.empty() || !ret || !success(S, ret)) return; obligations++; if (seen != 15) say("limit-not-set", Rt, "unset", "reports success without having set all limits of lengths", S); }
};
struct LimitFn : Limits { // env_keysize_max(), env_valsize_max()
  bool val = false;
  void onStore(State &, const Instruction *, const Expr *, KeyId, const Expr *) override {}
  void onReturn(State &S, const ReturnInst *Rt, const Expr *v) override {
    if (!E->stack.empty() || !v) return; obligations++; events++; stores++; int64_t c; bool cst = E->abs(S, v).isConst(c), ok;
    if (!val) ok = flags & 8 ? cst && c == 8 : upTo(S, v, "branch_nodemax", 8) && (!(flags & 0x74) || upTo(S, v, "leaf_nodemax", 8 + treeSize));
    else { auto *cb = v->k == K_Opaque && v->v ? dyn_cast<CallBase>(v->v) : nullptr; int64_t fl; ok = flags & 0x20 ? cst && c == 8 : flags & 4 ? upTo(S, v, "branch_nodemax", 8) || (cb && calleeOf(cb) && calleeOf(cb)->getName() == "env_keysize_max" && isParam(E->eval(S, cb->getArgOperand(0)), 0) && E->abs(S, E->eval(S, cb->getArgOperand(1))).isConst(fl) && !(fl & 8)) : !E->abs(S, v).isZero(); }
    if (!ok) say("wrong-limit", Rt, "limit", std::string("gives a wrong upper limit of the ") + (val ? "values" : "keys"), S);
  }
};
struct NonZero : LBase {
  int64_t divs = 0;
  bool keepFact(const Expr *e) override { return bare(e)->k == K_Field && P->keyName(bare(e)->key).contains("iov_len"); }
  void onInst(State &S, const Instruction *I) override {
    if (I->getOpcode() != Instruction::UDiv && I->getOpcode() != Instruction::SDiv && I->getOpcode() != Instruction::URem) return;
    const Expr *d = E->eval(S, I->getOperand(1)); if (d->k == K_Const || !mentions(d, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key).contains("iov_len"); })) return;
    divs++; obligations++; if (!E->abs(S, d).nonZero()) say("division-by-length", I, "div", "divides by a length given by the application which may be zero", S);
  }
};
bool userVal(const Value *v, int d = 0) { // the key or value given by the caller
  if (d > 6) return false; if (isa<Argument>(v)) return true;
  if (auto *p = dyn_cast<PHINode>(v)) { for (auto &x : p->incoming_values()) if (userVal(x, d + 1)) return true; return false; }
  if (auto *s = dyn_cast<SelectInst>(v)) return userVal(s->getTrueValue(), d + 1) || userVal(s->getFalseValue(), d + 1);
  return false;
}
void run27(Program &P, RuleOut &R, const Options &O) {
  auto done = [&](Engine &E, LBase &c) { if (E.budgetHit) R.errors.push_back("budget exceeded in " + c.F->getName().str()); R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["events"] += c.events; R.stats["functions"]++; };
  auto *chk = P.fn("cursor_put_checklen"), *put = P.fn("cursor_put"), *setup = P.fn("tbl_setup");
  if (!chk || !put || !setup || !defined(chk) || !defined(put) || !defined(setup)) { R.errors.push_back("analysis broken: functions vanished"); return; }
  int64_t puts = 0, checks = 0, limits = 0, touched = 0, divs = 0, direct = 0;
  { Checks c; c.R = &R; c.F = chk; c.P = &P; c.kmin = c.limOff("k", "lmin"); c.kmax = c.limOff("k", "lmax"); c.vmin = c.limOff("v", "lmin"); c.vmax = c.limOff("v", "lmax"); Engine E(P, c); E.maxDisj = 64; E.run(chk, E.entryState(chk)); c.finish(); puts = c.puts; done(E, c); }
  { SameLen c; c.R = &R; c.F = put; c.P = &P; Engine E(P, c); E.maxDisj = 64; E.run(put, E.entryState(put)); touched = c.found; done(E, c); }
  auto directly = [&](std::function<bool(const Function &)> own) { std::set<const Function *> r; for (auto &F : *P.M) if (!F.isDeclaration() && own(F)) r.insert(&F); for (bool ch = true; ch;) { ch = false; for (auto &F : *P.M) if (!F.isDeclaration() && !r.count(&F) && F.getName() != "tree_search" /* only when asked for */) for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (r.count(calleeOf(c))) { r.insert(&F); ch = true; break; } } return r; };
  auto mods = directly([](const Function &F) { StringRef n = F.getName(); return n == "page_touch_modifable" || n == "page_touch_unmodifable" || n == "page_touch" || n == "page_new" || n == "page_alloc" || n == "page_retire_ex" || n == "cursor_touch" || n == "node_del"; });
  std::set<const Function *> users;
  for (auto *u : chk->users()) if (auto *cb = dyn_cast<CallBase>(u)) users.insert(cb->getFunction()); else R.errors.push_back("analysis broken: the address of cursor_put_checklen is taken");
  for (auto &F : *P.M) if (users.count(&F)) { R.sample("order of changes and checks in " + F.getName().str() + "()", 20); Before c; c.R = &R; c.F = &F; c.P = &P; c.mods = &mods; Engine E(P, c); E.maxDisj = O.disj; E.run(&F, E.entryState(&F)); checks += c.checks; done(E, c); }
  for (auto &F : *P.M) if (!F.isDeclaration() && &F != chk && &F != put) for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (calleeOf(cb) == put) {
    direct++; R.stats["obligations"]++; if (userVal(cb->getArgOperand(1)) || (F.getName().starts_with("mdbx_") && !F.hasLocalLinkage() && userVal(cb->getArgOperand(2)))) R.add("check-bypassed", cb, F.getName().str() + ":bypass", F.getName().str() + "() stores a key given by its caller without the check of lengths");
  }
  for (auto &F : *P.M) { bool div = false, lenUse = false; if (!F.isDeclaration()) for (auto &B : F) for (auto &I : B) { div |= (I.getOpcode() == Instruction::UDiv || I.getOpcode() == Instruction::URem) && !isa<Constant>(I.getOperand(1)); if (auto *g = dyn_cast<LoadInst>(&I)) lenUse |= P.keyName(P.keyOf(P.staticExpr(g->getPointerOperand()), 8)).contains("iov_len"); }
    if (div && lenUse && F.getInstructionCount() < 4000) { R.sample("divisions in " + F.getName().str() + "()", 20); NonZero c; c.R = &R; c.F = &F; c.P = &P; Engine E(P, c); E.maxDisj = O.disj; E.run(&F, E.entryState(&F)); divs += c.divs; done(E, c); } }
  auto ts = P.structs.find("tree"); int64_t tsz = ts == P.structs.end() ? 0 : ts->second->getSizeInBits() / 8; if (!tsz) R.errors.push_back("analysis broken: no tree");
  std::set<std::pair<const Function *, uint64_t>> wanted;
  for (uint64_t base : {0, 4, 4 | 2 << 5, 4 | 0x10, 4 | 0x10 | 2 << 5, 4 | 0x10 | 0x20, 4 | 0x10 | 0x20 | 2 << 5}) for (uint64_t key : {0, 2, 8}) for (bool sized : {false, true}) {
    uint64_t fl = base | key; if (sized && !(fl & 0x10)) continue;
    Limits c; c.R = &R; c.F = setup; c.P = &P; c.flags = fl; c.sized = sized; c.treeSize = tsz; c.kmin = c.limOff("k", "lmin"); c.kmax = c.limOff("k", "lmax"); c.vmin = c.limOff("v", "lmin"); c.vmax = c.limOff("v", "lmax");
    char b[64]; snprintf(b, sizeof b, "table flags 0x%x%s", (unsigned)fl, sized ? ", size of values already fixed" : ""); c.cfg = b;
    Engine E(P, c); E.maxDisj = O.disj; State S = E.entryState(setup);
    AbsVal v = AbsVal::cst(16, fl); E.assumeVal(S, c.fld(S, c.param(2), "tree", "flags", 16), v, 0);
    AbsVal d = AbsVal::cst(32, 0); if (sized) { d = AbsVal::top(32); d.neq = {0}; d.normalize(); } E.assumeVal(S, c.dup(S), d, 0);
    E.run(setup, S); limits += c.stores; done(E, c); wanted.insert(c.wanted.begin(), c.wanted.end());
  }
  for (auto &F : *P.M) for (auto &w : wanted) if (w.first == &F) { // in the order of the module
    LimitFn c; c.R = &R; c.F = w.first; c.P = &P; c.flags = w.second; c.treeSize = tsz; c.val = w.first->getName() == "env_valsize_max";
    char b[64]; snprintf(b, sizeof b, "table flags 0x%x", (unsigned)w.second); c.cfg = b; Engine E(P, c); E.maxDisj = O.disj; State S = E.entryState(c.F);
    const Expr *a = E.eval(S, c.F->getArg(1)); if (!E.assumeVal(S, a, AbsVal::cst(a->w, w.second), 0)) continue; E.run(c.F, S); limits += c.stores; done(E, c);
  }
  R.need("insertions_after_check", puts, 1); R.need("calls_of_the_check", checks, 5); R.need("first_changes_of_insertion", touched, 1); R.need("limits", limits, 40); R.need("direct_insertions", direct, 3); R.need("divisions", divs, 1);
}
RULE(C27) { run27(P, R, O); }
} // namespace
} // namespace va
