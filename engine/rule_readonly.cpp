// C12: nothing is written to the data file through an environment opened read-only.
#include "order_base.h"
namespace va {
namespace {
const uint64_t RDO = 0x20000;
bool writer(StringRef n) { return n == "pwrite" || n == "pwrite64" || n == "pwritev" || n == "pwritev64" || n == "write" || n == "writev" || n == "ftruncate" || n == "ftruncate64" || n == "fallocate" || n == "fallocate64" || n == "posix_fallocate" || n == "posix_fallocate64" || n == "msync" || n == "madvise" || n == "sendfile" || n == "sendfile64" || n == "copy_file_range" || n == "mmap" || n == "mmap64" || n == "mremap" || n == "mprotect" || n == "open" || n == "open64" || n == "truncate" || n == "truncate64" || n == "unlink"; }
struct ReadOnly : Base {
  const std::set<const Function *> *reach = nullptr, *roots = nullptr; bool remaps = false; std::set<const Function *> force; bool opening = false; uint64_t dxbOff = 0, lckOff = 0; int64_t sites = 0, stores = 0, opens = 0; std::set<const Instruction *> seen;
  std::set<const Expr *> localEnvs;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n == "MDBX_env.flags" || n == "MDBX_txn.flags" || n == "MDBX_env.basal_txn" || n == "MDBX_txn.parent" || n == "MDBX_txn.nested" || n == "MDBX_env.txn" || n == "osal_mmap.fd" || n == "osal_mmap.base" || n == "MDBX_env.lazy_fd" || n == "MDBX_cursor.txn" || n == "MDBX_txn.env" || n.contains("dxb_mmap") || n.contains("fd4meta") || n.contains("dsync_fd"); }
  bool pinned(const Expr *p, KeyId k) override { auto n = P->keyName(k); return n == "osal_mmap.fd" || n == "MDBX_cursor.txn" || n == "MDBX_txn.env" || n == "MDBX_env.basal_txn" || (!remaps && n == "osal_mmap.base"); }
  bool keepFact(const Expr *e) override { return e->k == K_Field && P->keyName(e->key) == "MDBX_env.flags"; }
  bool descend(const Function *f) override { return (reach->count(f) || force.count(f)) && !roots->count(f); } // (public functions are examined by themselves)
  bool splitByResult() override { return true; }
  std::string where(const Instruction *I) { return srcFn(I); }
  uint64_t mapSize = 64;
  enum { T_FDATA = 1, T_DXB, T_LCK, T_NOWR };
  // the mapping object an address belongs to: 1 = data file, 2 = lock file, 0 = unknown
  int mapOf(State &S, const Expr *b) {
    for (; b; b = b->k == K_Off || b->k == K_Idx ? b->a : nullptr) {
      for (auto &t : S.aut.t) if (t.second == b && (t.first == T_DXB || t.first == T_LCK)) return t.first == T_DXB ? 1 : 2;
      if (b->k == K_Off) { auto *st = P->pointeeStruct(b->a); if (st && st->getName() == "MDBX_env") { if (b->c >= (int64_t)lckOff && b->c < (int64_t)(lckOff + mapSize)) return 2; if (b->c >= (int64_t)dxbOff && b->c < (int64_t)(dxbOff + mapSize)) return 1; } }
      if (b->k == K_Alloca) return 2;
    }
    return 0;
  }
  // the write transaction which a read-only environment does not have
  bool noWriter(State &S, const Expr *e) {
    if (e->k == K_Field && P->keyName(e->key) == "MDBX_env.basal_txn") return true;
    for (auto &t : S.aut.t) if (t.second == e && t.first == T_NOWR) return true;
    return false;
  }
  void derefs(State &S, const Instruction *I, const Expr *ptr) {
    const Expr *r = rootExpr(ptr); if (r == ptr && r->k == K_Const) return;
    if (noWriter(S, r) && E->abs(S, r).isZero()) { say("absent-write-transaction", I, where(I) + ":null", "may use the write transaction, which an environment opened read-only does not have", S); S.aut.set(99, 1); }
  }
  void onLoad(State &S, const Instruction *I, const Expr *ptr, KeyId key) override { derefs(S, I, ptr); }
  // is it the data file's handle (or one which is not known to be another file's)
  bool dataFd(State &S, const Expr *e, int d = 0) {
    if (d > 8) return true;
    for (auto &t : S.aut.t) if (t.second == e && t.first == T_FDATA) return true;
    if (e->k == K_Field) {
      auto n = P->keyName(e->key);
      if (n == "osal_mmap.fd") return mapOf(S, e->a) != 2;
      if (n.contains("fd4meta") || n.contains("dsync_fd") || n.contains("lazy_fd") || n.contains("dxb_mmap") || n == "iov_ctx.fd") return true;
      return rootExpr(e->a)->k != K_Alloca && n.contains("fd") && n.starts_with("MDBX_env");
    }
    if (e->k == K_Inner || e->k == K_Outer) return e->a && dataFd(S, e->a, d + 1);
    if (e->k == K_Op) return (e->a && dataFd(S, e->a, d + 1)) || (e->b && dataFd(S, e->b, d + 1));
    return false;
  }
  bool dataMem(State &S, const Expr *p) { return mentions(p, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key).starts_with("osal_mmap.") && mapOf(S, x->a) != 2; }); }
  void viol(State &S, const CallBase *C, const char *rule, StringRef n, const std::string &m) { say(rule, C, where(C) + ":" + n.str(), "may, for an environment opened read-only, " + m, S); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false; StringRef n = f->getName();
    if (n == "osal_openfile") { // the handle that becomes the data file's
      int64_t c; const Expr *pu = E->eval(S, C->getArgOperand(0)), *to = E->eval(S, C->getArgOperand(3)); obligations++; opens++;
      bool dxb = to->k == K_Off && to->c >= (int64_t)dxbOff && to->c < (int64_t)(dxbOff + mapSize);
      auto &o = offs["MDBX_env.dsync_fd"]; (void)fld(S, rootExpr(to), "MDBX_env", "dsync_fd", 32); bool ds = to->k == K_Off && to->c == (int64_t)o.first;
      if ((dxb || ds) && !(E->abs(S, pu).isConst(c) && c == 0)) viol(S, C, "opened-for-writing", n, "open the data file for writing");
      return false;
    }
    if (!writer(n)) {
      if (!f->isDeclaration()) for (auto &A : C->args()) if (A->getType()->isPointerTy()) { const Expr *e = E->eval(S, A.get()); if (noWriter(S, e) && E->abs(S, e).isZero()) { force.insert(f); S.aut.t.insert({T_NOWR, e}); } }
      if (!f->isDeclaration() && reach->count(f)) for (auto &A : C->args()) { // tell the callee which of its arguments are about the data file
        const Expr *e = E->eval(S, A.get());
        if (A->getType()->isIntegerTy(32)) { if (e->k != K_Const && dataFd(S, e)) S.aut.t.insert({T_FDATA, e}); }
        else if (A->getType()->isPointerTy()) { auto *st = P->pointeeStruct(e); if ((st && st->getName() == "osal_mmap") || e->k == K_Off) if (int m = mapOf(S, e); m && e->k != K_Alloca) S.aut.t.insert({m == 1 ? T_DXB : T_LCK, e}); }
      }
      return false;
    }
    events++; auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); }; int64_t c;
    if (seen.insert(C).second) sites++;
    if (n.starts_with("mmap")) { obligations++; if ((E->abs(S, arg(2)).zero & 2) || !dataFd(S, arg(4))) return false; viol(S, C, "mapped-writable", n, "map the data file writable"); return false; }
    if (n == "mprotect") { obligations++; if (!(E->abs(S, arg(2)).zero & 2) && dataMem(S, arg(0))) viol(S, C, "mapped-writable", n, "make the mapped data file writable"); return false; }
    if (n == "madvise") { if (E->abs(S, arg(2)).isConst(c) && c != 9) return false; obligations++; if (dataMem(S, arg(0))) viol(S, C, "file-changed", n, "punch away parts of the data file"); return false; }
    if (n == "msync") { obligations++; if (dataMem(S, arg(0))) viol(S, C, "file-changed", n, "flush the mapped data file "); return false; }
    if (n.starts_with("open") || n == "unlink" || n.starts_with("truncate") || n == "mremap") return false;
    unsigned fdArg = n == "copy_file_range" ? 2 : 0;
    obligations++; if (dataFd(S, arg(fdArg))) viol(S, C, "file-changed", n, "change the data file by " + n.str() + "()");
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->second->k != K_Param && i->second->k != K_Outer) i = S.aut.t.erase(i); else ++i;
    if (opening && f && f->getName() == "env_close") S.aut.set(51, 1); }
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    auto n = P->keyName(key); const Expr *v = S.env[L];
    if (n == "MDBX_env.flags") { if (opening && !S.aut.get(50)) return; if (rootExpr(ptr)->k == K_Alloca || localEnvs.count(rootExpr(ptr))) return; AbsVal a = AbsVal::top(v->w); a.one |= RDO; a.zero |= M_WRITEMAP; a.normalize(); if (!E->assumeVal(S, v, a)) S.aut.set(99, 1); }
    else if (n == "MDBX_txn.flags") { if (!v->isConst()) { AbsVal a = AbsVal::top(v->w); a.one |= RDO; a.normalize(); if (!E->assumeVal(S, v, a)) S.aut.set(99, 1); } }
    else if (n == "MDBX_txn.parent" || n == "MDBX_txn.nested" || (n == "MDBX_env.txn" && rootExpr(ptr)->k != K_Alloca)) { if (!E->assumeCmp(S, CmpInst::ICMP_EQ, v, P->cst(v->w, 0))) S.aut.set(99, 1); }
    else if (n == "MDBX_env.basal_txn" && rootExpr(ptr)->k != K_Alloca) { if (!E->assumeCmp(S, CmpInst::ICMP_EQ, v, P->cst(v->w, 0))) S.aut.set(99, 1); }
  }
  // other marks than the read-only one are set or cleared arithmetically
  bool keeps(State &S, const Expr *v) {
    if (E->abs(S, v).one & RDO) return true;
    if (v->k == K_Op && (v->op == Instruction::Add || v->op == Instruction::Sub) && (E->abs(S, v->a).one & RDO)) { AbsVal d = E->abs(S, v->b); return d.smin > -(int64_t)RDO && d.smax < (int64_t)RDO; }
    return false;
  }
  bool dropState(State &S) override { return S.aut.get(99); }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    derefs(S, I, ptr); auto n = P->keyName(key); if (rootExpr(ptr)->k == K_Alloca) return;
    if (S.aut.get(51)) return;
    if (n == "MDBX_env.flags" && opening && !S.aut.get(50)) { if (E->abs(S, val).one & RDO) S.aut.set(50, 1); else say("mark-lost", I, where(I) + ":env", "may lose the read-only request while opening", S); }
    else if (n == "MDBX_env.flags") { obligations++; stores++; if (!(E->abs(S, val).one & RDO)) say("mark-lost", I, where(I) + ":env", "may drop the read-only mark of an environment", S); }
    if (n == "MDBX_env.flags" && opening && (E->abs(S, val).zero & M_WRITEMAP) == 0 && (E->abs(S, val).one & RDO)) { obligations++; say("writable-map-mode", I, where(I) + ":map", "may keep the writable-mapping mode in an environment opened read-only", S); }
    if (n == "MDBX_txn.flags") { obligations++; stores++; if (!keeps(S, val)) say("mark-lost", I, where(I) + ":txn", "may make a transaction of a read-only environment look writable", S); }
    if (n == "MDBX_env.basal_txn") { obligations++; stores++; if (!E->abs(S, val).isZero()) say("write-transaction", I, where(I) + ":basal", "may provide a read-only environment with a write transaction", S); }
  }
};
// osal_openfile() with the read-only purpose; the file flags given to open()
struct OpenFlags : Base {
  int64_t opens = 0;
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (f && f->getName().starts_with("open") && C->arg_size() >= 2 && C->getArgOperand(0) == F->getArg(2)) { opens++; obligations++; if ((E->abs(S, E->eval(S, C->getArgOperand(1))).zero & 0x643) != 0x643) say("opened-for-writing", C, "open", "may open, create or truncate the file for writing although it was asked to open it read-only", S); }
    return false;
  }
};
}
RULE(C12) {
  std::set<const Function *> reach = reachers(P, [](const Function &f) {
    for (auto &I : instructions(f)) {
      if (auto *C = dyn_cast<CallBase>(&I)) if (auto *g = calleeOf(C)) if (g->isDeclaration() && writer(g->getName()) && !g->getName().starts_with("open") && g->getName() != "unlink") return true;
    }
    return false; });
  auto storesMark = reachers(P, [&](const Function &f) {
    for (auto &I : instructions(f)) if (auto *s = dyn_cast<StoreInst>(&I)) { const Expr *p = P.staticExpr(s->getPointerOperand()); auto n = P.keyName(P.keyOf(p, 4)); if (n == "MDBX_env.flags" || n == "MDBX_txn.flags") return true; n = P.keyName(P.keyOf(p, 8)); if (n == "MDBX_env.basal_txn") return true; }
    return false; });
  for (auto *f : storesMark) reach.insert(f);
  if (Function *f = P.fn("combine_durability_flags")) reach.insert(f);
  for (const char *x : {"debug_log", "debug_log_va", "mdbx_panic", "mdbx_assert_fail"}) if (Function *f = P.fn(x)) reach.erase(f);
  std::vector<const Function *> roots;
  for (auto &x : P.info) { const Function *F = x.first; auto n = F->getName(); if (F->hasLocalLinkage() || !n.starts_with("mdbx_") || !reach.count(F)) continue; if (n == "mdbx_env_create" || n == "mdbx_env_open_for_recovery" || n.starts_with("mdbx_env_delete")) continue; if (!O.arg.empty() && n != O.arg) continue; roots.push_back(F); }
  std::sort(roots.begin(), roots.end(), [](const Function *a, const Function *b) { return a->getName() < b->getName(); });
  if (O.arg.empty()) R.need("roots", roots.size(), 40);
  std::set<const Function *> rootSet(roots.begin(), roots.end()), remap = reachers(P, [](const Function &f) { return f.getName() == "osal_mmap" || f.getName() == "osal_munmap" || f.getName() == "osal_mresize"; });
  for (const Function *f : roots) if (f->getName() == "mdbx_env_set_geometry" || f->getName() == "mdbx_env_set_mapsize") remap.erase(f); // (mapped before is mapped after)
  forkMap(R, roots.size(), [&](size_t i, RuleOut &R) {
    ReadOnly c; c.R = &R; c.F = roots[i]; c.P = &P; c.reach = &reach; c.opening = roots[i]->getName() == "mdbx_env_open"; c.roots = &rootSet; c.remaps = remap.count(roots[i]);
    Engine E(P, c); E.maxDisj = O.disj; E.budget = O.thorough ? 20000000 : 4000000; State S = E.entryState(c.F);
    (void)c.fld(S, c.F->arg_size() ? c.param(0) : P.cst(64, 0), "MDBX_env", "dxb_mmap", 64); (void)c.fld(S, c.F->arg_size() ? c.param(0) : P.cst(64, 0), "MDBX_env", "lck_mmap", 64);
    c.dxbOff = c.offs["MDBX_env.dxb_mmap"].first; c.lckOff = c.offs["MDBX_env.lck_mmap"].first; if (auto q = P.structs.find("osal_mmap"); q != P.structs.end() && q->second) c.mapSize = q->second->getSizeInBits() / 8;
    if (c.opening) { AbsVal v = AbsVal::top(32); v.one |= RDO; v.normalize(); E.assumeVal(S, E.eval(S, c.F->getArg(2)), v); }
    E.run(c.F, S);
    R.stats["functions"] += 1; R.stats["contexts"] += E.analysed.size(); R.stats["paths_states"] += E.statesSeen; R.stats["obligations"] += c.obligations; R.stats["write_sites_met"] += c.sites; R.stats["mark_stores"] += c.stores; R.stats["opens"] += c.opens;
    if (E.budgetHit) R.errors.push_back("budget exceeded in " + c.F->getName().str());
    R.sample(c.F->getName().str() + ": " + std::to_string(E.analysed.size()) + " functions followed, " + std::to_string(c.events) + " write primitives met, " + std::to_string(c.obligations) + " obligations", 200);
  });
  if (O.arg.empty()) { R.need("opens", R.stats["opens"], 1); R.need("mark_stores", R.stats["mark_stores"], 5);
  if (Function *F = P.fn("osal_openfile"); F && !F->isDeclaration()) { OpenFlags c; c.R = &R; c.F = F; c.P = &P; Engine E(P, c); E.maxDisj = O.disj; State S = E.entryState(F); S.env[F->getArg(0)] = P.cst(32, 0); E.run(F, S); R.stats["obligations"] += c.obligations; R.need("readonly_opens", c.opens, 1); } else R.errors.push_back("analysis broken: no function osal_openfile"); }
}
}
