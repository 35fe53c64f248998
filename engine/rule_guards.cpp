// C01/C02/C32: what every public function has established about its handles and
// flag words before it changes anything and when it reports success.
#include "rules.h"
#include <fstream>
namespace va {
enum { G_SIG = 0, G_OWN = 1, G_FZ = 2, G_FO = 3, G_SHADOW = 4, G_PZ = 5, G_NULL = 6, GSTRIDE = 8 };
static const int64_t kTxnBits = 0x20000 | 0x800 | 0x01 | 0x02 | 0x10 | 0x20;
static const DIType *ptrTo2(const DIType *t) { t = stripTD(t); auto *d = dyn_cast_or_null<DIDerivedType>(t); return d && d->getTag() == dwarf::DW_TAG_pointer_type ? d->getBaseType() : nullptr; }
static std::string handleOf(const DIType *t) {
  auto *b = ptrTo2(t);
  auto *s = dyn_cast_or_null<DICompositeType>(stripTD(b));
  if (!s) return "";
  StringRef n = s->getName();
  if (n == "MDBX_env" || n == "MDBX_txn" || n == "MDBX_cursor") return n.drop_front(5).str();
  return "";
}
struct Req { int64_t sig = 0, own = 0, fz = 0, pz = 0; std::string kind; };
typedef std::map<std::string, std::map<std::pair<int, char>, Req>> ReqTable;
static const char *flagText(int64_t m);
struct Cols { bool any = false; int64_t sig = 1, own = 1, fz = -1, fo = -1, pz = -1; const Instruction *at = nullptr; TraceP tr; };
struct GuardClient : Client {
  RuleOut *R; const Function *F = nullptr;
  std::function<bool(const CallBase *, const Function *)> callMut;
  std::set<const Function *> mut, api; // functions that reach a page allocation/copy/release
  std::vector<std::string> kind;       // per argument: env/txn/cursor/flags/""
  std::map<std::pair<int, char>, Cols> seen; // (arg, column M/H/S)
  std::map<std::string, std::set<int64_t>> liveSig;
  bool want = false;
  int64_t ro = 0x20000 | 0x800;
  int mode = 0; std::map<std::pair<int, char>, Req> *req = nullptr;
  std::map<const Expr *, int> inout; int64_t nevents = 0, obligations = 0;
  std::set<std::pair<int, char>> counted;
  void check(State &S, const Instruction *I, int a, char col) {
    Req q; bool have = false;
    if (req) { auto i = req->find({a, col}); if (i != req->end()) { q = i->second; have = true; if (q.kind != kind[a]) return; } }
    if (!have && (col == 'M' && (kind[a] == "txn" || kind[a] == "cursor"))) { q.sig = 1; q.own = 1; q.fz = 0x20813; have = true; }
    if (!have && col == 'M' && kind[a] == "env") { q.sig = 1; have = true; }
    if (!have && (col == 'N' || col == 'D')) { q.sig = 1; have = true; } else if (have && (col == 'N' || col == 'D')) return; // listed: accepted
    if (!have) return;
    int b = a * GSTRIDE; auto g = [&](int r) { return S.aut.get(b + r); };
    int64_t fz = g(G_FZ) | (g(G_SHADOW) ? 0x10 : 0);
    const char *what = col == 'M' ? "changes the database" : col == 'H' ? "changes a handle" : col == 'S' ? "reports success" : "uses the handle";
    std::string arg = kind[a] + " argument #" + std::to_string(a);
    bool isFlag = kind[a] == "flags", first = counted.insert({a, col}).second;
    auto say = [&](const std::string &rule, const std::string &msg) { R->add(rule, I, F->getName().str() + "#" + std::to_string(a) + col, F->getName().str() + "() " + what + " " + msg, S.trace); };
    if (mode == 1 && !isFlag) {
      if (first) obligations++;
      if (q.sig && !g(G_SIG)) say("unverified-handle", col == 'N' ? "(dereference) although the " + arg + " may be null" : col == 'D' ? "(follows a pointer in it) before the signature of the " + arg + " was verified" : "although the signature of the " + arg + " was not verified");
      else if (q.own && !g(G_OWN)) say("foreign-thread", "although it was not verified that the calling thread owns the transaction of the " + arg);
      else if (kind[a] != "env" && (q.fz & 1 & ~fz)) say("finished-transaction", "although the transaction of the " + arg + " may be finished");
    }
    if (mode == 22 && kind[a] == "env" && (q.fz & 0x80000000)) {
      if (first) obligations++;
      if (0x80000000 & ~fz) say("broken-environment", "although the environment (" + arg + ") may be marked as fatally broken");
    }
    if (mode == 2 && (col == 'M' || col == 'S') && !isFlag) {
      int64_t mask = kind[a] == "env" ? 0x20000 : 0x20813;
      if (col == 'S' && !mutating) return;
      if (first) obligations++;
      if (int64_t miss = q.fz & mask & ~fz) { if (kind[a] == "env") say("change-in-readonly-environment", "although the environment may be read-only"); else say("change-in-blocked-transaction", "although the transaction of the " + arg + " may be: " + flagText(miss)); }
    }
    if (mode == 32 && isFlag && (col == 'M' || col == 'H' || col == 'S')) {
      if (first) obligations++;
      if (int64_t miss = q.pz & ~g(G_PZ) & 0xffffffff) { char t[64]; snprintf(t, sizeof t, "0x%llx", (long long)miss); say("unknown-flags-accepted", "although flag bits " + std::string(t) + " of parameter '" + F->getArg(a)->getName().str() + "' were not refused"); }
    }
  }
  bool mutating = false;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("MDBX_txn.") || n.starts_with("MDBX_env.") || n.starts_with("MDBX_cursor."); }
  bool derefNonNull() override { return false; }
  bool keepFact(const Expr *e) override { return e->k == K_Param || (!inout.empty() && e->k == K_Field && inout.count(e->a)); }
  const Expr *tracked(const State &S, int i) { for (auto &t : S.aut.t) if (t.first == i) return t.second; return nullptr; }
  int argOf(const State &S, const Expr *root) { if (root->k == K_Field && !inout.empty()) { auto i = inout.find(root->a); if (i != inout.end()) return i->second; } for (auto &t : S.aut.t) if (t.second == root) return t.first; return -1; }
  void absorb(State &S) {
    for (auto &x : S.facts) {
      const Expr *f = x.first;
      if (f->k == K_Param) { for (auto &t : S.aut.t) if (t.second == f && t.first < 32) {
          if (kind[t.first] == "flags") S.aut.set(t.first * GSTRIDE + G_PZ, S.aut.get(t.first * GSTRIDE + G_PZ) | (int64_t)(x.second.zero & 0xffffffffu));
          else if (x.second.isZero()) S.aut.set(t.first * GSTRIDE + G_NULL, 1); } continue; }
      if (f->k == K_Field && x.second.isZero()) { int a = argOf(S, f); if (a >= 0 && a < 32) S.aut.set(a * GSTRIDE + G_NULL, 1); }
      if (f->k != K_Field) continue;
      auto n = P->keyName(f->key);
      const Expr *r = rootExpr(f->a);
      int a = argOf(S, r); bool viaCursor = false;
      if (a >= 32) { a -= 32; viaCursor = true; }
      if (a < 0 && r->k == K_Field && P->keyName(r->key) == "MDBX_cursor.txn") { a = argOf(S, rootExpr(r->a)); viaCursor = true; }
      if (a < 0) continue;
      int b = a * GSTRIDE; int64_t c;
      if (n.contains("signature") && x.second.isConst(c)) { if (!viaCursor && liveSig[kind[a]].count(c & 0xffffffff)) S.aut.set(b + G_SIG, 1); }
      else if (n == "MDBX_txn.flags") { S.aut.set(b + G_FZ, S.aut.get(b + G_FZ) | (x.second.zero & kTxnBits)); if ((x.second.one & 0x200000u) && (x.second.zero & 1)) S.aut.set(b + G_OWN, 1); if ((x.second.one & 1)) S.aut.set(b + G_FO, S.aut.get(b + G_FO) | 1); }
      else if (n == "MDBX_env.flags") { S.aut.set(b + G_FZ, S.aut.get(b + G_FZ) | (x.second.zero & envBits)); S.aut.set(b + G_FO, S.aut.get(b + G_FO) | (x.second.one & envBits)); }
    }
    for (auto &x : S.rels) { // owner == self, shadowed cursor, pid
      for (int k = 0; k < 2; k++) {
        const Expr *p = k ? x.first.second : x.first.first, *q = k ? x.first.first : x.first.second;
        if (x.second.um != 2) continue;
        while (p->k == K_Op && (p->op == Instruction::SExt || p->op == Instruction::ZExt || p->op == Instruction::Trunc)) p = p->a;
        while (q->k == K_Op && (q->op == Instruction::SExt || q->op == Instruction::ZExt || q->op == Instruction::Trunc)) q = q->a;
        if (p->k != K_Field) continue;
        auto n = P->keyName(p->key); const Expr *r = rootExpr(p->a); int a = argOf(S, r); if (a >= 32) a -= 32;
        if (n == "MDBX_txn.owner" || n == "MDBX_env.pid") {
          if (a < 0 && r->k == K_Field && P->keyName(r->key) == "MDBX_cursor.txn") a = argOf(S, rootExpr(r->a));
          if (a >= 0 && selfish(q, n == "MDBX_env.pid")) S.aut.set(a * GSTRIDE + G_OWN, 1);
        }
        if (n == "MDBX_cursor.txn" && a >= 0 && q->k == K_Field && P->keyName(q->key) == "MDBX_env.txn") S.aut.set(a * GSTRIDE + G_SHADOW, 1);
      }
    }
    // pid / owner zero is "not bound"
  }
  int64_t envBits = 0;
  bool selfish(const Expr *q, bool pid) {
    if (q->k != K_Opaque || !q->v) return false;
    auto *CB = dyn_cast<CallBase>(q->v); auto *f = CB ? calleeOf(CB) : nullptr;
    if (!f) return false;
    auto n = f->getName();
    return pid ? n == "getpid" || n == "osal_getpid" : n == "pthread_self" || n == "osal_thread_self" || n.contains("thread_self");
  }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *T) override { absorb(S); }
  void event(State &S, const Instruction *I, char col, int only = -1) {
    nevents++;
    absorb(S);
    for (size_t i = 0; i < kind.size(); i++) {
      if (kind[i].empty() || (only >= 0 && (int)i != only)) continue;
      auto &c = seen[{(int)i, col}]; int b = i * GSTRIDE;
      auto g = [&](int r) { return S.aut.get(b + r); };
      if (g(G_NULL)) continue; // an omitted handle
      check(S, I, i, col);
      bool worse = false;
      auto mt = [&](int64_t &d, int64_t v) { int64_t n = c.any ? (d & v) : v; if (!c.any || n != d) { if (c.any || true) worse = true; } d = n; };
      mt(c.sig, g(G_SIG)); mt(c.own, g(G_OWN)); mt(c.fz, g(G_FZ) | (g(G_SHADOW) ? 0x10 : 0)); mt(c.fo, g(G_FO)); mt(c.pz, g(G_PZ));
      c.any = true;
      if (worse) { c.at = I; c.tr = S.trace; }
    }
  }
  // worst state per requirement is found again at reporting time
  bool descend(const Function *f) override { return want; }
  bool complete(State &S, int a, bool m) {
    int b = a * GSTRIDE;
    if (!S.aut.get(b + G_SIG)) return false;
    if (kind[a] == "env" || !m) return true;
    return S.aut.get(b + G_OWN) && (S.aut.get(b + G_FZ) & ro);
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    want = false;
    absorb(S);
    if (!f) return false;
    if (f->isDeclaration()) {
      auto n = f->getName();
      if (f->isIntrinsic() || n == "__errno_location") return false;
      if (n.starts_with("mdbx_panic") || n.contains("assert")) return false;
      return false;
    }
    auto n = f->getName();
    if (n.contains("panic") || n.contains("debug_log") || n.starts_with("osal_")) return false;
    if (n == "txn_check_badbits_parked") {
      // activates a parked read transaction; success means none of the bits is left
      const Expr *e = rootExpr(E->eval(S, C->getArgOperand(0)));
      int a = argOf(S, e);
      if (a < 0 && e->k == K_Field && P->keyName(e->key) == "MDBX_cursor.txn") a = argOf(S, rootExpr(e->a));
      if (a >= 32) a -= 32;
      AbsVal bits = E->abs(S, E->eval(S, C->getArgOperand(1)));
      E->killByCall(S, C, f); E->purge(S, C);
      State T = S; T.env[C] = P->cst(32, 0);
      if (a >= 0) T.aut.set(a * GSTRIDE + G_FZ, T.aut.get(a * GSTRIDE + G_FZ) | (int64_t)(bits.one & kTxnBits));
      out.push_back(std::move(T));
      const Expr *r = P->opaque(C, 0, 32); S.env[C] = r; AbsVal nz = AbsVal::top(32); nz.neq.insert(0); nz.neq.insert(-1); nz.neq.insert(0xffffffffll); nz.normalize(); E->assumeVal(S, r, nz, 0); out.push_back(S);
      return true;
    }
    bool handle = false, incomplete = false, m = mut.count(f) && callMut(C, f);
    for (auto &A : C->args()) {
      const Expr *e = E->eval(S, A);
      int a = argOf(S, rootExpr(e));
      bool via = a >= 32;
      if (a < 0 && rootExpr(e)->k == K_Field && P->keyName(rootExpr(e)->key) == "MDBX_cursor.txn") {
        a = argOf(S, rootExpr(rootExpr(e)->a));
        if (a >= 0 && a < 32) { via = true; for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->first == a + 32) i = S.aut.t.erase(i); else ++i; S.aut.t.insert({a + 32, rootExpr(e)}); a += 32; }
      }
      if (a < 0) continue;
      if (!inout.empty() && rootExpr(e)->k == K_Field && inout.count(rootExpr(e)->a)) S.aut.t.insert({a, rootExpr(e)});
      if (via) { a -= 32; handle = true; if (!S.aut.get(a * GSTRIDE + G_OWN) || (m && !complete(S, a, m))) incomplete = true; continue; }
      if (kind[a] == "flags") continue;
      handle = true;
      if (!complete(S, a, m)) incomplete = true;
    }
    if (handle && (incomplete || (m && alwaysIn.count(n.str())))) { want = true; return false; }
    if (m) event(S, C, 'M');
    return false;
  }
  std::set<std::string> alwaysIn;
  void onLoad(State &S, const Instruction *I, const Expr *ptr, KeyId key) override {
    const Expr *r = rootExpr(ptr);
    int a = argOf(S, r);
    if (a >= 0 && a < 32) {
      if (kind[a] == "flags" || kind[a].empty() || S.aut.get(a * GSTRIDE + G_SIG)) return;
      absorb(S);
      if (!S.aut.get(a * GSTRIDE + G_SIG) && !E->abs(S, r).nonZero()) event(S, I, 'N', a);
      return;
    }
    if (r->k == K_Field) {
      a = argOf(S, rootExpr(r->a));
      if (a < 0 || a >= 32 || kind[a] == "flags" || S.aut.get(a * GSTRIDE + G_SIG)) return;
      absorb(S);
      if (!S.aut.get(a * GSTRIDE + G_SIG)) event(S, I, 'D', a);
    }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    const Expr *r = rootExpr(ptr);
    if (r->k == K_Alloca || r->k == K_Outer) return;
    auto n = P->keyName(key);
    if (r->k == K_Param && argOf(S, r) < 0) return; // output parameter
    if (n.contains("canary") || n == "tree.sequence") { event(S, I, 'M'); return; }
    if (r->k == K_Opaque && r->v && isa<CallBase>(r->v)) return; // errno, fresh memory
    if (r->k == K_Global) return;
    if (n == "MDBX_env.flags") return; // the fork guard marks the environment as broken
    event(S, I, 'H');
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return;
    if (ret) {
      AbsVal v = E->abs(S, ret);
      if (F->getReturnType()->isPointerTy()) { if (v.isZero()) return; }
      else if (v.nonZero()) return;
    }
    event(S, Rt, 'S');
  }
};
static std::string hex(int64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static void setup(Program &P, std::map<std::string, int64_t> &en) {
  DebugInfoFinder f; f.processModule(*P.M);
  for (auto *t : f.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : c->getElements()) if (auto *n = dyn_cast<DIEnumerator>(e)) en[n->getName().str()] = n->getValue().getSExtValue();
}
static const char *flagText(int64_t m) {
  static std::string s; s.clear();
  struct { int64_t b; const char *n; } t[] = {{0x20000, "read-only"}, {0x800, "read-only nested"}, {1, "finished"}, {2, "failed"}, {0x10, "has a nested child"}, {0x20, "parked"}};
  for (auto &x : t) if (m & x.b) { if (!s.empty()) s += ", "; s += x.n; }
  return s.c_str();
}
// mode: 0 infer (print rows), 1 C01, 2 C02, 32 C32
static void guards(Program &P, RuleOut &R, const Options &O, int mode) {
  std::map<std::string, int64_t> en; setup(P, en);
  ReqTable req;
  if (mode) {
    std::ifstream in(O.dir + "guards.txt"); std::string l;
    while (std::getline(in, l)) { char fn[200], kd[32], col; int a; Req q; long long fz, pz; if (l.empty() || l[0] == '#') continue;
      if (sscanf(l.c_str(), "%199s %d %31s %c %lld %lld %llx %llx", fn, &a, kd, &col, (long long *)&q.sig, (long long *)&q.own, &fz, &pz) != 8) { R.errors.push_back("bad line in guards.txt: " + l); continue; }
      q.fz = fz; q.pz = pz; q.kind = kd; req[fn][{a, col}] = q; }
    if (req.empty()) { R.errors.push_back("guards.txt is missing or empty"); return; }
  }
  // functions that reach a page allocation / copy / release, not counting searches without Z_MODIFY
  int64_t zmod = en.count("Z_MODIFY") ? en["Z_MODIFY"] : 1;
  auto callMut = [zmod](const CallBase *C, const Function *f) {
    if (!f->getName().starts_with("tree_search") && !f->getName().starts_with("tree_deepen")) return true;
    std::function<int(const Value *, int)> has = [&](const Value *v, int d) -> int { // 1 may have the bit, 0 has not
      if (auto *k = dyn_cast<ConstantInt>(v)) return (k->getZExtValue() & zmod) != 0;
      if (d > 4) return 1;
      if (auto *s = dyn_cast<SelectInst>(v)) return has(s->getTrueValue(), d + 1) | has(s->getFalseValue(), d + 1);
      if (auto *p = dyn_cast<PHINode>(v)) { int r = 0; for (auto &o : p->incoming_values()) r |= has(o.get(), d + 1); return r; }
      return 1;
    };
    bool saw = false;
    for (auto &A : C->args()) if (A->getType()->isIntegerTy(32)) { saw = true; if (has(A.get(), 0)) return true; }
    return !saw;
  };
  std::set<const Function *> mut;
  unsigned anchors = 0;
  for (auto &x : P.info) { auto n = x.first->getName(); if (n == "gc_alloc_ex" || n == "page_touch_unmodifable" || n == "page_retire_ex" || n == "gc_alloc_single") { mut.insert(x.first); anchors++; } }
  for (bool ch = true; ch;) { ch = false;
    for (auto &x : P.info) { if (mut.count(x.first)) continue; bool m = false;
      for (auto &I : instructions(*x.first)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(C)) if (mut.count(f) && callMut(C, f)) { m = true; break; }
      if (m) { mut.insert(x.first); ch = true; } } }
  if (mode) R.need("page-change-primitives", anchors, 2);
  std::vector<const Function *> roots;
  for (auto &x : P.info) { const Function *F = x.first;
    if (!F->getName().starts_with("mdbx_") || F->hasLocalLinkage() || !F->getSubprogram()) continue;
    if (!O.arg.empty() && F->getName() != O.arg) continue;
    roots.push_back(F); }
  // the slow ones first
  std::stable_sort(roots.begin(), roots.end(), [](const Function *a, const Function *b) { auto w = [](const Function *f) { return f->getName().contains("dbi_open") ? 0 : f->getName().contains("chk") || f->getName().contains("replace") ? 1 : 2; }; return w(a) < w(b); });
  std::vector<std::vector<std::string>> kinds;
  std::vector<const Function *> todo;
  for (auto *F : roots) {
    auto tys = F->getSubprogram()->getType()->getTypeArray();
    std::vector<std::string> k; bool any = false;
    for (unsigned i = 0; i < F->arg_size(); i++) {
      const DIType *t = i + 1 < tys.size() ? tys[i + 1] : nullptr;
      std::string h = t ? handleOf(t) : "";
      StringRef an = F->getArg(i)->getName();
      std::string lk; // kind according to the table
      { auto q = req.find(F->getName().str()); if (q != req.end()) for (auto &z : q->second) if (z.first.first == (int)i) lk = z.second.kind; }
      if (h.empty() && t && F->getArg(i)->getType()->isIntegerTy(32)) if (mode ? lk == "flags" : an.contains("flags") || an == "mode") h = "flags";
      if (h.empty() && t && (mode ? !lk.empty() && lk != "flags" : an.contains("in_out"))) if (auto *b = ptrTo2(t)) { h = handleOf(b); if (!h.empty()) h = "*" + h; }
      if ((mode == 1 || mode == 22) && h == "flags") h = "";
      if (mode == 32 && h != "flags") h = h; // handles steer the descent
      if (h == "flags" || !h.empty()) any = true;
      k.push_back(h);
    }
    if (!any) continue;
    if (mode == 22 && std::none_of(k.begin(), k.end(), [](const std::string &h) { return h == "env" || h == "*env"; })) continue;
    if (mode == 32) { bool fl = false; for (auto &h : k) fl |= h == "flags"; if (!fl) continue; }
    if (mode == 2 && !mut.count(F)) { bool c = false; for (auto &I : instructions(*F)) if (auto *SI = dyn_cast<StoreInst>(&I)) (void)SI, c = true; if (!c) continue; }
    todo.push_back(F); kinds.push_back(k);
  }
  if (mode) for (auto &x : req) if (!P.fn(x.first) || P.fn(x.first)->isDeclaration()) R.errors.push_back("analysis broken: public function " + x.first + "() is not in the library any more");
  forkMap(R, todo.size(), [&](size_t ix, RuleOut &R) {
    const Function *F = todo[ix];
    GuardClient c; Engine E(P, c); c.R = &R; c.F = F; c.mut = mut; c.callMut = callMut; E.maxDisj = 24; E.budget = O.thorough ? 20000000 : 3000000; c.mode = mode;
    c.liveSig["env"] = {en["env_signature"] & 0xffffffff}; c.liveSig["txn"] = {en["txn_signature"] & 0xffffffff}; c.liveSig["cursor"] = {en["cur_signature_live"] & 0xffffffff, en["cur_signature_ready4dispose"] & 0xffffffff};
    c.alwaysIn = {"dbi_open", "dbi_open_locked"};
    auto rq = req.find(F->getName().str()); if (rq != req.end()) { c.req = &rq->second; for (auto &z : rq->second) if (z.first.second == 'M') c.mutating = true; }
    State S;
    for (unsigned i = 0; i < F->arg_size(); i++) {
      auto h = kinds[ix][i];
      if (!h.empty() && h[0] == '*') { Expr e; e.k = K_Param; e.v = F->getArg(i); e.w = 64; c.inout[P.mk(e)] = i; c.kind.push_back(h.substr(1)); continue; }
      c.kind.push_back(h);
      if (!h.empty()) { Expr e; e.k = K_Param; e.v = F->getArg(i); e.w = F->getArg(i)->getType()->isIntegerTy() ? 32 : 64; S.aut.t.insert({(int)i, P.mk(e)}); }
    }
    c.envBits = 0x80000000u | 0x20000000 | 0x20000;
    E.run(F, S);
    R.stats["functions"] = 1; R.stats["handle-and-flag-parameters"] = 0;
    for (auto &k : c.kind) if (!k.empty()) R.stats["handle-and-flag-parameters"]++;
    R.stats["events"] = c.nevents; R.stats["obligations"] = c.obligations;
    if (E.budgetHit) { if (mode) R.errors.push_back("analysis budget exhausted in " + F->getName().str()); else R.samples.push_back("# BUDGET " + F->getName().str()); }
    for (size_t i = 0; i < c.kind.size(); i++) for (char col : {'M', 'H', 'S', 'N', 'D'}) { auto q = c.seen.find({(int)i, col}); if (q == c.seen.end()) continue; auto &z = q->second; unsigned l; locOf(z.at, &l);
      std::string s = F->getName().str() + " " + std::to_string(i) + " " + c.kind[i] + " " + col + " " + std::to_string(z.sig) + " " + std::to_string(z.own) + " " + hex(z.fz) + " " + hex(z.pz & 0xffffffff);
      if (!mode || (ix % 9 == 0)) R.samples.push_back(s); }
  });
}
// After success the state bit which makes later guards refuse is really set.
struct BitClient : Client {
  RuleOut *R; const Function *F = nullptr; int arg = 0; int64_t bits = 0; bool viaOut = false; std::string what; int checked = 0, bad = 0;
  std::set<const Function *> into;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("MDBX_txn.") || n == "MDBX_env.txn" || n == "MDBX_env.basal_txn"; }
  bool keepFact(const Expr *e) override { return e->k == K_Param; }
  bool descend(const Function *f) override { return into.count(f); }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return;
    if (ret && E->abs(S, ret).nonZero()) return;
    Expr e; e.k = K_Param; e.v = F->getArg(arg); e.w = 64; const Expr *h = P->mk(e);
    if (viaOut) { h = nullptr; for (auto &t : S.aut.t) if (t.first == 2) h = t.second; if (!h) return; }
    if (E->abs(S, h).isZero()) return;
    checked++;
    if (!viaOut) if (const DICompositeType *tx = P->structs.lookup("MDBX_txn")) for (auto *el : tx->getElements()) if (auto *m = dyn_cast<DIDerivedType>(el)) if (m->getName() == "flags")
      if (E->abs(S, E->loadExpr(S, P->off(h, m->getOffsetInBits() / 8), 32, Rt, false)).one & 3) return; // already failed or finished: refused anyway
    // a nested one is returned through parent->nested: the only object marked on this path
    if (viaOut && h->k == K_Field) for (auto &t : S.aut.t) if (t.first == 1 && t.second->k != K_Param) return;
    if (!S.aut.t.count({1, h})) { bad++; R->add("state-bit-not-set", Rt, F->getName().str() + "#" + std::to_string(arg), F->getName().str() + "() may report success without " + what, S.trace); if (getenv("VT_BIT")) { errs() << P->str(h); for (auto &t : S.aut.t) errs() << " {" << P->str(t.second); errs() << "\n"; } }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    if (viaOut && ptr->k == K_Param && ptr->v == F->getArg(arg)) { for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->first == 2) i = S.aut.t.erase(i); else ++i; if (!E->abs(S, val).isZero()) S.aut.t.insert({2, val}); }
    if (P->keyName(key) != "MDBX_txn.flags") return;
    const Expr *r = rootExpr(ptr);
    int depth = 0; for (const Expr *e = r; e && depth < 9; e = e->a) if (e->k == K_Field) depth++;
    if (depth > 2) return;
    // the stored word either has the bits outright or is built from a word with them
    if (E->abs(S, val).one & (bits | (bits == 0x20 ? 1 : 0))) S.aut.t.insert({1, r}); // a finished one need not be parked any more
    else if ((E->abs(S, val).zero & bits) == (uint64_t)bits) S.aut.t.erase({1, r});
    else { // unknown: kept only when it is the object's own word with other bits changed
      std::function<bool(const Expr *)> own = [&](const Expr *e) -> bool { if (e->k == K_Field) return rootExpr(e->a) == r && P->keyName(e->key) == "MDBX_txn.flags"; if (e->k == K_Op) { if (e->op == Instruction::Or) return own(e->a) || own(e->b); if (e->op == Instruction::And || e->op == Instruction::Xor) { for (int k = 0; k < 2; k++) { const Expr *p = k ? e->b : e->a, *q = k ? e->a : e->b; if (!q->isConst() || !own(p)) continue; if (e->op == Instruction::And ? (q->c & bits) == bits : (q->c & bits) == 0) return true; } } } return false; };
      if (!own(val)) S.aut.t.erase({1, r});
    }
  }
};
static void stateBits(Program &P, RuleOut &R, const Options &O) {
  struct { const char *fn; int arg; bool out; int64_t bits; int64_t flagArg, flagBits; int nonnull; const char *what; } T[] = {
    {"mdbx_txn_break", 0, false, 2, -1, 0, -1, "marking the transaction as failed"},
    {"mdbx_txn_park", 0, false, 0x20, -1, 0, -1, "marking the transaction as parked"},
    {"mdbx_txn_reset", 0, false, 1, -1, 0, -1, "marking the transaction as finished"},
    {"mdbx_txn_begin_ex", 1, false, 0x10, -1, 0, 1, "marking the parent as suspended by its child"},
    {"mdbx_txn_begin_ex", 3, true, 0x20800, 2, 0x20000, -1, "marking the new transaction as read-only"},
  };
  int64_t n = 0, ch = 0;
  for (auto &t : T) {
    const Function *F = P.fn(t.fn); if (!F || F->isDeclaration()) { R.errors.push_back(std::string("analysis broken: no function ") + t.fn); continue; }
    BitClient c; Engine E(P, c); c.R = &R; c.F = F; c.arg = t.arg; c.bits = t.bits; c.viaOut = t.out; c.what = t.what; E.maxDisj = 24; E.budget = O.thorough ? 20000000 : 4000000;
    KeyId fk = 0; for (size_t k = 1; k < P.keyNames.size(); k++) if (P.keyNames[k] == "MDBX_txn.flags") fk = k;
    for (auto &x : P.info) { auto nm = x.first->getName(); if (x.second.mod.count(fk) && !nm.contains("panic") && !nm.starts_with("dxb_") && !nm.starts_with("gc_") && !nm.starts_with("page_")) c.into.insert(x.first); }
    State S = E.entryState(F);
    auto prm = [&](int i) { Expr e; e.k = K_Param; e.v = F->getArg(i); e.w = F->getArg(i)->getType()->isIntegerTy() ? 32 : 64; return P.mk(e); };
    if (t.flagArg >= 0) { AbsVal v = AbsVal::top(32); v.one = t.flagBits; v.normalize(); E.assumeVal(S, prm(t.flagArg), v, 0); }
    if (t.nonnull >= 0) { AbsVal v = AbsVal::top(64); v.neq.insert(0); v.normalize(); E.assumeVal(S, prm(t.nonnull), v, 0); }
    if (getenv("VT_BIT")) errs() << t.fn << " " << t.arg << "...\n"; E.run(F, S); n++; ch += c.checked; if (getenv("VT_BIT")) errs() << t.fn << " " << t.arg << " checked " << c.checked << " bad " << c.bad << " steps " << E.steps << (E.budgetHit ? " BUDGET" : "") << "\n";
    if (E.budgetHit) R.errors.push_back(std::string("analysis budget exhausted in ") + t.fn);
    if (!c.checked) R.errors.push_back(std::string("analysis broken: no success return of ") + t.fn + " was reached");
  }
  R.stats["state-bit-rules"] = n; R.stats["state-bit-success-returns"] = ch;
}
// A handle's memory is released only after its signature was overwritten.
struct FreeClient : Client {
  RuleOut *R; std::map<std::string, std::set<int64_t>> live; std::set<const Instruction *> sites, bad;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.contains("signature"); }
  static std::string handleStruct(StringRef n) { return n == "MDBX_txn" ? "txn" : n == "MDBX_env" ? "env" : n == "MDBX_cursor" || n == "cursor_couple" ? "cursor" : ""; }
  void onStore(State &S, const Instruction *, const Expr *ptr, KeyId key, const Expr *val) override {
    if (!P->keyName(key).contains("signature")) return;
    int64_t k; bool l = !E->abs(S, val).isConst(k); for (auto &x : live) l |= !!x.second.count(k & 0xffffffff);
    if (l) S.aut.t.erase({1, rootExpr(ptr)}); else S.aut.t.insert({1, rootExpr(ptr)});
  }
  static bool freeFn(const Function *f) { if (!f) return false; auto n = f->getName(); return n == "free" || n == "osal_free"; }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!freeFn(f) || C->arg_size() < 1) return false;
    const Expr *p = E->eval(S, C->getArgOperand(0));
    const DICompositeType *st = P->pointeeStruct(p); if (!st) return false;
    std::string h = handleStruct(st->getName()); if (h.empty()) return false;
    if (E->abs(S, p).isZero()) return false;
    sites.insert(C);
    if (p->k == K_Opaque && p->v) if (auto *CB = dyn_cast<CallBase>(p->v)) if (auto *g = calleeOf(CB)) { auto n = g->getName(); if (n == "calloc" || n == "osal_calloc" || n == "malloc" || n == "osal_malloc" || n == "txn_alloc") return false; } // never handed out
    // offset of the (outer) signature
    int64_t off = -1;
    std::function<void(const DICompositeType *, int64_t)> find = [&](const DICompositeType *c, int64_t b) { for (auto *el : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(el)) { if (off >= 0) return; if (m->getName() == "signature") { off = b + m->getOffsetInBits() / 8; return; } if (m->getOffsetInBits() == 0 || m->getName() == "outer") if (auto *in = dyn_cast_or_null<DICompositeType>(stripTD(m->getBaseType()))) find(in, b + m->getOffsetInBits() / 8); } };
    find(st, 0); if (off < 0) return false;
    const Expr *sg = E->loadExpr(S, P->off(p, off), 32, C, false);
    AbsVal v = E->abs(S, sg);
    if (sg->k == K_Field && sg->ver && !S.facts.count(sg) && (S.aut.t.count({1, rootExpr(p)}) || isa<CallBase>((const Value *)sg->ver))) return false; // overwritten on this path
    // the environment's own write transaction lives as long as the environment
    if (p->k == K_Param) { bool own = true; int n = 0; for (auto *U : C->getFunction()->users()) if (auto *CB = dyn_cast<CallBase>(U)) { auto *a = P->staticExpr(CB->getArgOperand(cast<Argument>(p->v)->getArgNo())); n++; if (!(a->k == K_Field && P->keyName(a->key) == "MDBX_env.basal_txn") && !(a->k == K_Opaque && isa<CallBase>(a->v))) own = false; } if (n && own) return false; }
    for (auto l : live[h]) { AbsVal t = v; if (t.meet(AbsVal::cst(32, l))) { if (bad.insert(C).second) R->add("live-signature-freed", C, C->getFunction()->getName().str(), "memory of a " + h + " handle is released while its signature may still be valid", S.trace); return false; } }
    return false;
  }
};
static void freedHandles(Program &P, RuleOut &R) {
  std::map<std::string, int64_t> en; setup(P, en);
  FreeClient c; c.R = &R;
  c.live["env"] = {en["env_signature"] & 0xffffffff}; c.live["txn"] = {en["txn_signature"] & 0xffffffff}; c.live["cursor"] = {en["cur_signature_live"] & 0xffffffff, en["cur_signature_ready4dispose"] & 0xffffffff};
  for (auto &x : P.info) { const Function *F = x.first; bool has = false;
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (FreeClient::freeFn(calleeOf(C))) has = true;
    if (!has) continue;
    Engine E(P, c); E.maxDisj = 24; E.budget = 4000000; E.run(F, E.entryState(F));
    if (E.budgetHit) R.errors.push_back("analysis budget exhausted in " + F->getName().str()); }
  R.need("handle-release-sites", c.sites.size(), 5);
}
// A transaction that could be started or renewed implies that the environment was not marked as broken.
struct StartClient : Client {
  RuleOut *R; const Function *F = nullptr; std::set<const Function *> into; int obligations = 0, tests = 0;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("MDBX_txn.") || n == "MDBX_env.flags" || n == "MDBX_env.txn" || n == "MDBX_env.basal_txn"; }
  bool descend(const Function *f) override { return into.count(f); }
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *) override {
    if (S.aut.get(1)) return;
    auto *B = dyn_cast<BranchInst>(from->getTerminator()); if (!B || B->isUnconditional()) return;
    for (auto &x : S.facts) if (x.first->k == K_Field && P->keyName(x.first->key) == "MDBX_env.flags" && (x.second.zero & 0x80000000)) { S.aut.set(1, 1); tests++; break; }
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    AbsVal v = E->abs(S, ret); if (v.nonZero()) return;
    obligations++;
    if (!S.aut.get(1)) R->add("broken-environment", Rt, F->getName().str() + ":start", F->getName().str() + "() may succeed although the environment is marked as fatally broken", S.trace);
  }
};
static void startRefused(Program &P, RuleOut &R, const Options &O) {
  auto r = reachers(P, [&](const Function &f) { for (auto &I : instructions(f)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isIntegerTy(32) && P.keyName(P.keyOf(P.staticExpr(L->getPointerOperand()), 4)) == "MDBX_env.flags") return true; return false; });
  std::set<const Function *> into; for (auto *f : r) for (auto p : {"txn_", "mvcc_", "ro_", "basal_", "check_", "nested_"}) if (f->getName().starts_with(p)) into.insert(f);
  std::vector<const char *> roots{"mdbx_txn_begin_ex", "mdbx_txn_renew"};
  forkMap(R, roots.size(), [&](size_t i, RuleOut &R) {
    const Function *F = P.fn(roots[i]); if (!F || F->isDeclaration()) { R.errors.push_back(std::string(roots[i]) + "() is gone"); return; }
    StartClient c; c.R = &R; c.F = F; c.into = into; Engine E(P, c); E.maxDisj = O.disj; E.budget = 20000000; E.run(F, State());
    if (E.budgetHit) R.errors.push_back(std::string("budget exhausted in ") + roots[i]);
    R.stats["start_obligations"] = c.obligations; R.stats["start_tests"] = c.tests;
    R.sample(std::string(roots[i]) + ": " + std::to_string(c.obligations) + " success returns, " + std::to_string(E.analysed.size()) + " functions followed");
  });
  R.need("start_obligations", R.stats["start_obligations"], 2);
}
RULE(C22G) { guards(P, R, O, 22); R.need("functions", R.stats["functions"], 20); R.need("obligations", R.stats["obligations"], 25); startRefused(P, R, O); }
RULE(GUARDS) { guards(P, R, O, 0); }
RULE(C02) { guards(P, R, O, 2); R.need("functions", R.stats["functions"], 20); R.need("obligations", R.stats["obligations"], 28); stateBits(P, R, O); }
RULE(C32) { guards(P, R, O, 32); R.need("functions", R.stats["functions"], 12); R.need("obligations", R.stats["obligations"], 20); }
RULE(C01) { guards(P, R, O, 1); R.need("functions", R.stats["functions"], 80); R.need("obligations", R.stats["obligations"], 150); freedHandles(P, R); }
} // namespace va
