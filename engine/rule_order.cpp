// C04 / C09 / C22: order of data writes, flushes and meta-page updates.
#include "order_base.h"
namespace va {
namespace {
// ---------------------------------------------------------- dxb_sync_locked()
struct Publish : Base {
  Publish() { outcomes = {T_DS, T_MS}; }
  int64_t flags = 0; bool c04 = false, c09 = false, c22 = false;
  std::set<const Instruction *> sites;
  bool durable() const { return !(flags & M_NOSYNC); }
  // where does this address lie? 1 = pending (in memory), 2 = meta page in the map
  int where(const Expr *ptr, const Expr **base) {
    const Expr *r = addrRoot(ptr); *base = r;
    if (r->k == K_Alloca) return 0;
    if (isParam(r, 2)) return 1;
    if (r->k == K_Field && P->keyName(r->key).starts_with("meta_ptr.ptr")) return 2;
    if (mentions(r, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key) == "osal_mmap.base"; })) { auto *st = P->pointeeStruct(r); if (st && st->getName() == "meta") return 2; if (r->k == K_Op) return 2; }
    return 0;
  }
  int64_t offIn(const Expr *ptr) { int64_t o = 0; while (ptr->k == K_Off || ptr->k == K_Idx) { if (ptr->k == K_Off) o += ptr->c; ptr = ptr->a; } return o; }
  void metaWrite(State &S, const Instruction *I, const Expr *target) {
    if (S.aut.get(A_META)) return;
    S.aut.set(A_META, 1); S.aut.set(A_TOUCH, 1); sites.insert(I); events++;
    E->note(S, I, "meta page written");
    int64_t ds = S.aut.get(A_DS); bool ok = zeroTag(S, T_DS);
    bool clean = unsynced(S, 0), lastMeta = unsynced(S, 1) && (flags & M_NOMETA);
    bool synced = (ds & S_DATA) && ok;
    if (c04) {
      if (durable()) {
        obligations++;
        if (!synced && !clean && !lastMeta) say("meta-before-data", I, "O1", "writes the meta page although the data pages were not flushed successfully before", S);
        if (synced && !(ds & S_SIZE) && !S.aut.get(A_SZOK)) say("size-not-flushed", I, "O1s", "flushes data without the file size although the file may have grown", S);
        obligations++;
        if (S.aut.get(A_SIGN) != 2 && !lastMeta) say("durable-commit-not-signed", I, "O2d", "publishes a durable commit without the steady signature", S);
      }
      obligations++;
      if (S.aut.get(A_SIGN) == 2 && !synced && !clean) say("steady-sign-without-flush", I, "O2", "signs the meta page as steady although the data was not flushed", S);
    }
    if (c09 && target) {
      const Expr *r = addrRoot(target); obligations++;
      const Expr *al = r->k == K_Field ? addrRoot(r->a) : nullptr;
      bool rec = false, tail = false;
      for (auto &t : S.aut.t) if (t.second == al) { rec |= t.first == T_REC; tail |= t.first == T_TAIL; }
      if (rec && !tail) {
        const Expr *hx = P->field(P->off(al, txnidOff()), 64, verOf(S, P->off(al, txnidOff()), 64), P->keyOf(P->off(al, txnidOff()), 8));
        auto c = S.cells.find(P->off(al, txnidOff())); if (c != S.cells.end()) hx = c->second;
        const Expr *px = fld(S, param(2), "meta", "unsafe_txnid", 64);
        (void)hx; (void)px;
        if (E->decideCmp(S, CmpInst::ICMP_EQ, hx, px) != 1 && !S.aut.get(A_SRC)) say("newest-meta-overwritten", I, "O4t", "overwrites the most recent meta page although it does not hold the same transaction", S);
      } else if (!tail) say("unknown-meta-target", I, "O4t", "overwrites a meta page which was not chosen by meta_tail()", S);
    }
  }
  uint64_t tOff = ~0ull; uint64_t txnidOff() { if (tOff == ~0ull) { auto i = P->structs.find("meta_ptr"); bool k = false; if (i != P->structs.end()) tOff = memberOff(i->second, "txnid", k); if (!k) { R->errors.push_back("meta_ptr.txnid is gone"); tOff = 8; } } return tOff; }
  const void *verOf(State &S, const Expr *p, unsigned w) { auto v = S.vers.find(P->keyOf(p, w / 8)); return v == S.vers.end() ? nullptr : v->second; }
  void content(State &S, const Instruction *I, const Expr *ptr, int64_t o, int64_t n, const Expr *val, const Expr *src) {
    int ph = S.aut.get(A_PH); events++;
    auto in = [&](uint64_t b, uint64_t e) { return (uint64_t)o < e && (uint64_t)(o + n) > b; };
    auto bad = [&](const std::string &what) { if (c09) { say("meta-update-order", I, "O4", what, S); } };
    if (c09) obligations++;
    if (o == (int64_t)mt.txnid_b && n <= 8 && val && val->isConst(0)) { if (ph) bad("invalidates the meta page twice"); S.aut.set(A_PH, 1); order(I, S); metaWrite(S, I, ptr); return; }
    if (o == (int64_t)mt.txnid_a && n <= 8) { if (ph != 1) bad("stores the new transaction id before the old one was invalidated"); S.aut.set(A_PH, 2); order(I, S); return; }
    if (o == (int64_t)mt.txnid_b && n <= 8) {
      if (ph != 2) bad("validates a meta page whose update was not begun");
      int64_t fill = S.aut.get(A_FILL);
      static const char *names[] = {"geometry", "GC tree", "main tree", "canary", "pages_retired"};
      for (int b = 0; b < 5; b++) if (!(fill >> b & 1)) bad(std::string("validates the meta page before its ") + names[b] + " was filled in");
      if (S.aut.get(A_WEAKT) != 1) bad("validates the meta page while it may still carry the old steady signature");
      S.aut.set(A_PH, 3); order(I, S); return;
    }
    if (o == (int64_t)mt.sign && n == 8) {
      bool weak = val && (val->isConst(1) || val->isConst(0));
      if (ph == 2 && !weak) bad("signs the meta page before its content is valid");
      if (ph == 1) bad("signs the meta page between the two halves of the invalidation");
      if (ph == 2 && weak) S.aut.set(A_WEAKT, 1);
      if (ph == 3 || ph == 0) { S.aut.set(A_WEAKT, 2); if (!(src && isParam(addrRoot(src), 2)) && !(val && val->k == K_Field)) bad("signs the meta page with something else than the signature of the pending meta"); }
      metaWrite(S, I, ptr);
      return;
    }
    int64_t fill = S.aut.get(A_FILL);
    struct { uint64_t b, e; } part[5] = {{mt.geo, mt.gc}, {mt.gc, mt.main}, {mt.main, mt.canary}, {mt.canary, mt.sign}, {mt.retired, mt.retired + 8}};
    for (int b = 0; b < 5; b++) if (o <= (int64_t)part[b].b && o + n >= (int64_t)part[b].e) { if (src && isParam(addrRoot(src), 2) && offIn(src) - o == 0) fill |= 1 << b; else if (src) bad("fills the meta page from something else than the pending meta"); }
    S.aut.set(A_FILL, fill);
    if (ph != 2) bad("changes the content of a meta page which readers may consider valid");
    metaWrite(S, I, ptr);
    (void)in;
  }
  void order(const Instruction *I, State &S) {
    auto *st = dyn_cast<StoreInst>(I); if (!st || !c09) return; obligations++;
    auto o = st->getOrdering();
    if (o != AtomicOrdering::Release && o != AtomicOrdering::AcquireRelease && o != AtomicOrdering::SequentiallyConsistent) say("meta-txnid-not-released", I, "O4r", "stores a transaction id of a live meta page without release ordering", S);
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false;
    StringRef n = f->getName();
    auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    bool ms = n == "osal_msync", fs = n == "osal_fsync";
    if (ms || fs || n == "fsync" || n == "fdatasync" || n == "msync") {
      int64_t mode = 0; AbsVal v;
      if (ms || fs) { v = E->abs(S, arg(ms ? 2 : 1)); if (!v.isConst(mode)) mode = v.one; } else mode = S_DATA | S_SIZE;
      bool right = ms ? (arg(0)->k == K_Off && isParam(arg(0)->a, 0) && covers(arg(1), S.aut.get(A_META))) : fs ? isLazyFd(arg(0)) : false;
      if ((flags & M_WRITEMAP) && fs && !S.aut.get(A_META)) right = false; // the map itself must be flushed
      if (!(flags & M_WRITEMAP) && ms) right = false;
      S.aut.set(A_TOUCH, 1);
      if (!S.aut.get(A_META)) S.aut.set(A_DS, right ? mode & (S_DATA | S_SIZE) : 0), clearTag(S, T_DS);
      else S.aut.set(A_MS, right ? mode & (S_DATA | S_SIZE) : 0), clearTag(S, T_MS);
      events++; sites.insert(C);
      return false;
    }
    if (n == "osal_pwrite" || n == "pwrite" || n == "pwrite64" || n == "osal_write") {
      const Expr *b = arg(1);
      if (isParam(addrRoot(b), 2)) {
        if (c09 && (flags & M_WRITEMAP)) say("wrong-write-path", C, "O4w", "writes the meta page through a file descriptor although the map is writable", S);
        if (c04) { obligations++; if (!isMetaFd(arg(0)) && !isLazyFd(arg(0))) say("wrong-descriptor", C, "O3f", "writes the meta page through an unexpected descriptor", S); }
        metaWrite(S, C, targetOf(arg(n == "osal_write" ? 1 : 3)));
        if (c09 && n != "osal_write") { obligations++; int64_t len = 0; E->abs(S, arg(2)).isConst(len); if (addrRoot(b) != b || (uint64_t)len < mt.size) say("partial-meta-write", C, "O4p", "does not write the complete meta page", S); }
        setTag(S, T_FD, arg(0));
      }
      S.aut.set(A_TOUCH, 1); clearTag(S, T_WR);
      return false;
    }
    bool mc = n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy", mset = n.starts_with("llvm.memset") || n == "memset";
    if (mc || mset) {
      const Expr *base; int64_t len = 0; const Expr *d = arg(0);
      if (where(d, &base) == 2) { if (!E->abs(S, arg(2)).isConst(len)) len = 1 << 20; int64_t o = offIn(d); 
        if (o == (int64_t)mt.bootid && len <= 16) { events++; if (c09) { obligations++; if (S.aut.get(A_PH) != 2) say("meta-update-order", C, "O4", "changes the boot id of a meta page which readers may consider valid", S); } return false; }
        if (mset) { if (c09 && S.aut.get(A_PH) != 2) say("meta-update-order", C, "O4", "changes the content of a meta page which readers may consider valid", S); metaWrite(S, C, d); return false; }
        content(S, C, d, o, len, nullptr, arg(1)); }
      return false;
    }
    if (n == "meta_recent" || n == "meta_tail" || n == "meta_prefer_steady") {
      const Expr *a = addrRoot(arg(0));
      for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->second == a && (i->first == T_REC || i->first == T_TAIL || i->first == T_STEADY)) i = S.aut.t.erase(i); else ++i;
      S.aut.t.insert({n == "meta_recent" ? T_REC : n == "meta_tail" ? T_TAIL : T_STEADY, a});
    }
    return false;
  }
  const Expr *targetOf(const Expr *off) { // (sub target, base)
    const Expr *r = nullptr;
    mentions(off, [&](const Expr *x) { if (x->k == K_Field && P->keyName(x->key).starts_with("meta_ptr.ptr")) r = x; return r != nullptr; });
    return r ? r : off;
  }
  bool covers(const Expr *len, bool meta) {
    bool all = mentions(len, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key).ends_with("first_unallocated") && isParam(addrRoot(x->a), 2); });
    if (all || !meta) return all;
    return mentions(len, [&](const Expr *x) { return x->k == K_Op && x->op == Instruction::Shl && x->a->isConst() && x->a->c >= 3; });
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f) return;
    StringRef n = f->getName();
    // these report zero or an error, never MDBX_RESULT_TRUE (checked for the first two below)
    if ((n == "osal_msync" || n == "osal_fsync" || n == "osal_pwrite") && S.env.count(C)) E->assumeCmp(S, CmpInst::ICMP_NE, S.env[C], P->cst(32, -1));
    if (n == "osal_msync" || n == "osal_fsync" || n == "fsync" || n == "fdatasync" || n == "msync") {
      bool m = S.aut.get(A_META); int64_t have = S.aut.get(m ? A_MS : A_DS);
      if (have) { const Expr *e = S.env.count(C) ? S.env[C] : nullptr; if (e) setTag(S, m ? T_MS : T_DS, e); }
    }
    if (n == "osal_pwrite" && S.env.count(C) && !tag(S, T_WR)) { if (isParam(addrRoot(E->eval(S, C->getArgOperand(1))), 2)) setTag(S, T_WR, S.env[C]); }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override {
    const Expr *base; int w = where(ptr, &base);
    if (w == 1 && offIn(ptr) == (int64_t)mt.sign) {
      AbsVal v = E->abs(S, val); int64_t c;
      S.aut.set(A_SIGN, v.isConst(c) && (c == 0 || c == 1) ? 1 : 2);
      return;
    }
    if (w == 2) { content(S, I, ptr, offIn(ptr), val->w / 8, val, val->k == K_Field ? val->a : nullptr); return; }
    StringRef n = P->keyName(k);
    if (n == "MDBX_env.flags" && isParam(rootExpr(ptr), 0)) { AbsVal v = E->abs(S, val); S.aut.set(A_FATAL, (v.one & FATAL) != 0); }
    if (n.ends_with(".unsynced_pages")) { if (val->isConst(0) && c04) { obligations++; bool ok = ((S.aut.get(A_DS) & S_DATA) && zeroTag(S, T_DS)) || unsynced(S, 0); if (!ok) say("unsynced-forgotten", I, "O8z", "resets the count of unflushed pages although they were not flushed", S); } S.aut.set(A_UNS, 1); }
  }
  // the branch that decides between flushing with or without the file size
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *to) override {
    settleOutcomes(S); (void)to;
    auto *B = dyn_cast<BranchInst>(from->getTerminator());
    if (!B || B->isUnconditional()) return;
    if (S.aut.get(A_META) && !S.aut.get(A_NOMS) && noFlushNeeded(S)) S.aut.set(A_NOMS, 1);
    const Expr *c = E->eval(S, B->getCondition());
    if (c->k != K_Op || !c->b || c->op < OP_ICMP) return;
    unsigned p = c->op - OP_ICMP;
    const Expr *a = c->a, *b = c->b;
    auto peel = [](const Expr *e) { while (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::Trunc)) e = e->a; return e; };
    a = peel(a); b = peel(b);
    auto isTop = [&](const Expr *e) { return e->k == K_Field && P->keyName(e->key).ends_with("first_unallocated") && isParam(addrRoot(e->a), 2); };
    auto isNow = [&](const Expr *e) { if (e->k != K_Field || !P->keyName(e->key).ends_with("geo.now") || isParam(addrRoot(e->a), 2)) return false; const Expr *r = addrRoot(e->a); if (r->k != K_Field) return false; r = addrRoot(r->a); for (auto &t : S.aut.t) if (t.first == T_STEADY && t.second == r) return true; return false; };
    if (isTop(a) && isNow(b)) { int d = E->decideCmp(S, CmpInst::ICMP_ULE, a, b); S.aut.set(A_SZOK, d == 1); }
    else if (isTop(b) && isNow(a)) { int d = E->decideCmp(S, CmpInst::ICMP_UGE, a, b); S.aut.set(A_SZOK, d == 1); }
    // same transaction as the newest meta page?
    auto isHead = [&](const Expr *e) { if (e->k != K_Field || !P->keyName(e->key).ends_with("meta_ptr.txnid")) return false; const Expr *r = addrRoot(e->a); for (auto &t : S.aut.t) if (t.first == T_REC && t.second == r) return true; return false; };
    auto isPend = [&](const Expr *e) { return e->k == K_Field && isParam(addrRoot(e->a), 2) && offIn(e->a) == (int64_t)mt.txnid_a; };
    if ((isHead(a) && isPend(b)) || (isHead(b) && isPend(a))) if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) { int d = E->decideCmp(S, CmpInst::ICMP_EQ, a, b); S.aut.set(A_SRC, d == 1); }
  }
  // written through a synchronous descriptor, or the file lives in memory
  bool noFlushNeeded(State &S) {
    if (E->abs(S, fld(S, param(0), "MDBX_env", "incore", 8)).nonZero()) return true;
    const Expr *fd = tag(S, T_FD);
    return fd && isMetaFd(fd) && E->decideCmp(S, CmpInst::ICMP_EQ, fd, lazyFd(S)) == 0;
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    AbsVal v = E->abs(S, ret); bool mayOk = !v.nonZero(), mayFail = !v.isZero();
    if (mayOk && S.aut.get(A_META)) {
      int ph = S.aut.get(A_PH);
      if (c09) {
        obligations++;
        if (ph == 1 || ph == 2) say("meta-update-unfinished", Rt, "O4e", "returns success while the meta page is still invalidated", S);
        if ((flags & M_WRITEMAP) && S.aut.get(A_WEAKT) != 2) say("meta-signature-missing", Rt, "O4s", "returns success without having stored the signature of the new meta page", S);
      }
      if (c04) {
        obligations++;
        if (!(flags & M_WRITEMAP) && !zeroTag(S, T_WR)) say("meta-write-unchecked", Rt, "O3w", "returns success although writing the meta page may have failed", S);
        if (!(flags & (M_NOMETA | M_NOSYNC))) {
          bool ok = (S.aut.get(A_MS) & S_DATA) && zeroTag(S, T_MS);
          ok |= S.aut.get(A_NOMS) || noFlushNeeded(S);
          if (!ok) say("meta-not-flushed", Rt, "O3", "returns success although the new meta page was not flushed", S);
        }
      }
    }
    if (mayFail && S.aut.get(A_TOUCH) && c22) {
      obligations++;
      if (!S.aut.get(A_FATAL)) say("failed-publish-not-fatal", Rt, "O5", "may return an error after it touched the disk without marking the environment as fatally broken", S);
    }
  }
};
void publish(Program &P, RuleOut &R, const Options &O, int what) {
  const Function *F = P.fn("dxb_sync_locked");
  if (!F || F->arg_size() != 4) { R.errors.push_back("dxb_sync_locked() is gone or has another signature"); return; }
  Meta mt = Meta::of(P); if (!mt.ok) { R.errors.push_back("layout of meta_t changed"); return; }
  std::vector<int64_t> cfgs;
  for (int64_t m : {0, (int)M_NOMETA, (int)M_NOSYNC, M_NOSYNC | M_NOMETA, (int)M_UTTERLY}) for (int64_t w : {0, (int)M_WRITEMAP}) for (int64_t s : {0, (int)M_SHRINK}) cfgs.push_back(m | w | s);
  forkMap(R, cfgs.size(), [&](size_t i, RuleOut &r) {
    Publish c; c.R = &r; c.F = F; c.mt = mt; c.flags = cfgs[i]; c.c04 = what == 4; c.c09 = what == 9; c.c22 = what == 22;
    c.cfg = std::string(cfgs[i] & M_WRITEMAP ? "map" : "file") + (cfgs[i] & M_NOSYNC ? " nosync" : "") + (cfgs[i] & M_NOMETA ? " nometasync" : "") + (cfgs[i] & M_SHRINK ? " shrink" : "");
    Engine E(P, c); E.maxDisj = O.disj * (O.thorough ? 2 : 1); State S; S.env[F->getArg(1)] = P.cst(32, cfgs[i]);
    E.run(F, S);
    r.stats["publish_configurations"] = 1; r.stats["publish_obligations"] = c.obligations; r.stats["publish_events"] = c.events; r.stats["publish_sites"] = c.sites.size(); r.stats["block_states"] = E.blocks;
    if (E.budgetHit) r.errors.push_back("budget exhausted in dxb_sync_locked");
    r.sample("dxb_sync_locked with " + c.cfg + ": " + std::to_string(c.obligations) + " obligations, " + std::to_string(c.events) + " write/flush events", 24);
  });
  R.need("publish_configurations", R.stats["publish_configurations"], 20);
  R.need("publish_obligations", R.stats["publish_obligations"], 40);
  R.need("publish_events", R.stats["publish_events"], 40);
}

// ------------------------------------ meta_sync(), meta_override(), meta_wipe_steady()
struct FlushAfter : Base {
  FlushAfter() { outcomes = {T_DS}; }
  bool preWritten = false; int writes = 0;
  bool trackKey(KeyId k) override { return Base::trackKey(k) || P->keyName(k).contains("meta_sync_txnid"); }
  // helpers of the same file which write meta pages themselves
  bool descend(const Function *G) override { return !G->isDeclaration() && writers.count(G); }
  std::set<const Function *> writers;
  bool inMap(const Expr *ptr) { const Expr *r = addrRoot(ptr); return mentions(r, [&](const Expr *x) { return x->k == K_Field && (P->keyName(x->key) == "osal_mmap.base" || P->keyName(x->key).ends_with("dxb_mmap.base")); }) || (r->k == K_Field && P->keyName(r->key).starts_with("meta_ptr.ptr")); }
  void wrote(State &S, const Instruction *I, int kind) { S.aut.set(A_META, std::max<int64_t>(S.aut.get(A_META), kind)); S.aut.set(A_DS, 0); clearTag(S, T_DS); events++; E->note(S, I, "meta page written"); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false; StringRef n = f->getName();
    auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    if (n == "osal_pwrite") { wrote(S, C, isMetaFd(arg(0)) ? 1 : 2); clearTag(S, T_WR); }
    if ((n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) && inMap(arg(0))) wrote(S, C, 2);
    if (n == "osal_msync" || n == "osal_fsync") { AbsVal v = E->abs(S, arg(n == "osal_msync" ? 2 : 1)); int64_t m; if (!v.isConst(m)) m = v.one; S.aut.set(A_DS, m & (S_DATA | S_SIZE)); clearTag(S, T_DS); events++; }
    if (n == "fsync" || n == "fdatasync") { S.aut.set(A_DS, S_DATA); clearTag(S, T_DS); events++; }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f || !S.env.count(C)) return; StringRef n = f->getName();
    if (n == "osal_msync" || n == "osal_fsync" || n == "fsync" || n == "fdatasync") setTag(S, T_DS, S.env[C]);
    if (n == "osal_pwrite") { setTag(S, T_WR, S.env[C]); AbsVal nt = AbsVal::top(32); nt.neq.insert(0xffffffffll); nt.normalize(); E->assumeVal(S, S.env[C], nt); } // zero or errno
  }
  bool flushed(State &S) {
    if ((S.aut.get(A_DS) & S_DATA) && zeroTag(S, T_DS)) return true;
    return S.aut.get(A_META) == 1 && !preWritten && S.aut.get(A_NOMS); // that the write succeeded: C05
  }
  // the descriptor for meta pages is not the lazy one, i.e. it is a synchronous one
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *) override {
    auto *B = dyn_cast<BranchInst>(from->getTerminator()); if (!B || B->isUnconditional() || !S.aut.get(A_META) || S.aut.get(A_NOMS)) return;
    for (auto &x : S.rels) if ((isMetaFd(x.first.first) && isLazyFd(x.first.second)) || (isMetaFd(x.first.second) && isLazyFd(x.first.first))) if (E->decideCmp(S, CmpInst::ICMP_EQ, x.first.first, x.first.second) == 0) S.aut.set(A_NOMS, 1);
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override {
    StringRef n = P->keyName(k);
    if (n.contains("meta_sync_txnid")) { obligations++; if (!flushed(S)) say("meta-sync-recorded-without-flush", I, "O8m", "records the meta page as flushed although it was not", S); return; }
    if (inMap(ptr)) wrote(S, I, 2);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    State S = S0; if (!success(S, ret)) return;
    if (!S.aut.get(A_META)) return;
    obligations++;
    if (!flushed(S)) say("meta-not-flushed", Rt, "O3", "may return success although a changed meta page was not flushed", S);
  }
};
// ------------------------------------------------------ txn_basal_commit()
struct Commit : Base {
  enum { T_STEP = 20 };
  bool c04 = false, c22 = false; int64_t syncs = 0;
  std::vector<std::string> steps{"txn_basal_update_tbl_roots", "gc_update", "iov_init", "txn_write"};
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || f->getName() != "dxb_sync_locked" || !E->stack.empty()) return false;
    syncs++; S.aut.set(A_DS, 1);
    if (!c04) return false;
    for (int i = 0; i < 2; i++) { obligations++; if (!zeroTag(S, T_STEP + i)) say("commit-step-skipped", C, steps[i], "publishes the transaction although " + steps[i] + "() did not succeed before", S); }
    obligations++;
    bool wrote = zeroTag(S, T_STEP + 2) && zeroTag(S, T_STEP + 3);
    if (tag(S, T_STEP + 2) || tag(S, T_STEP + 3) || !S.aut.get(A_UNSADD)) { if (!wrote) say("commit-step-skipped", C, "txn_write", "publishes the transaction although its dirty pages were not written", S); }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f || !S.env.count(C) || !E->stack.empty()) return;
    for (size_t i = 0; i < steps.size(); i++) if (f->getName() == steps[i]) { setTag(S, T_STEP + i, S.env[C]); events++; }
    if (f->getName() == "dxb_sync_locked") setTag(S, T_DS, S.env[C]);
  }
  bool trackKey(KeyId k) override { return Base::trackKey(k) || P->keyName(k).starts_with("dirtylist") || P->keyName(k).starts_with("dpl"); }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override {
    StringRef n = P->keyName(k);
    if (n.ends_with(".unsynced_pages")) S.aut.set(A_UNSADD, 1);
    if (n == "MDBX_env.flags") { AbsVal v = E->abs(S, val); S.aut.set(A_FATAL, (v.one & FATAL) != 0); }
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    AbsVal v = E->abs(S, ret);
    if (c22 && S.aut.get(A_DS)) {
      obligations++;
      const Expr *r = tag(S, T_DS);
      if (!(r && E->abs(S, r).isZero()) && !S.aut.get(A_FATAL)) say("failed-publish-not-fatal", Rt, "O5c", "returns after publishing the transaction failed without marking the environment as fatally broken", S);
    }
    if (c04 && !v.nonZero() && !S.aut.get(A_DS)) {
      obligations++;
      const Expr *fl = fld(S, param(0), "MDBX_txn", "flags", 32);
      AbsVal a = E->abs(S, fl); const uint64_t need = 0x02 | 0x0; (void)need;
      uint64_t dirty = 0; // MDBX_TXN_DIRTY | MDBX_TXN_SPILLS
      dirty = 0x04 | 0x08;
      if ((a.zero & dirty) != dirty) say("commit-skipped", Rt, "O7", "returns success without publishing a transaction which may be dirty", S);
    }
  }
};
// --------------------------------- writers of data pages account what is not flushed yet
struct Unsynced : Base {
  bool trackKey(KeyId k) override { return Base::trackKey(k) || P->keyName(k).contains("iov_ctx"); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false; StringRef n = f->getName();
    auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    bool w = n == "iov_write" || n == "iov_page" || n == "spill_page";
    if (n == "osal_pwrite" || n == "osal_pwritev" || n == "pwrite" || n == "pwrite64" || n == "pwritev") w |= isLazyFd(arg(0));
    if (n == "copy_file_range") w |= isLazyFd(arg(2));
    if (w) { S.aut.set(A_META, 1); events++; }
    return false;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override { if (P->keyName(k).ends_with(".unsynced_pages")) S.aut.set(A_UNSADD, 1); }
  // a comparison of the descriptor used with the lazy one decides whether there is something to account
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *) override { auto *B = dyn_cast<BranchInst>(from->getTerminator()); if (B && !B->isUnconditional() && direct(S)) S.aut.set(A_NOMS, 1); }
  bool direct(State &S) {
    if (S.aut.get(A_NOMS)) return true;
    for (auto &x : S.rels) {
      const Expr *a = x.first.first, *b = x.first.second;
      auto isCtx = [&](const Expr *e) { return e->k == K_Field && P->keyName(e->key) == "iov_ctx.fd"; };
      if ((isCtx(a) && isLazyFd(b)) || (isCtx(b) && isLazyFd(a))) { if (E->decideCmp(S, CmpInst::ICMP_EQ, a, b) == 0) return true; }
    }
    return false;
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret || !S0.aut.get(A_META)) return;
    State S = S0; if (!success(S, ret)) return;
    obligations++;
    if (!S.aut.get(A_UNSADD) && !direct(S)) say("unsynced-not-accounted", Rt, "O8", "returns success after writing data pages through the lazy descriptor without accounting them as not yet flushed", S);
  }
};
// ------------------------------------------------ osal_fsync() / osal_msync() per mode
struct Osal : Base {
  int64_t mode = 0; bool ms = false;
  enum { T_F = 30, T_M = 31, T_FD_ = 32 };
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false; StringRef n = f->getName();
    if (n == "fsync" || n == "fdatasync") {
      const Expr *a = E->eval(S, C->getArgOperand(0)); bool right = ms ? a->k == K_Field && P->keyName(a->key).ends_with("osal_mmap.fd") && isParam(addrRoot(a->a), 0) : isParam(a, 0);
      clearTag(S, n == "fsync" ? T_F : T_FD_); S.aut.set(n == "fsync" ? A_SIGN : A_FILL, right); events++;
    }
    if (n == "msync") {
      const Expr *a = E->eval(S, C->getArgOperand(0)); int64_t fl = 0; E->abs(S, E->eval(S, C->getArgOperand(2))).isConst(fl);
      S.aut.set(A_MS, a->k == K_Field && isParam(addrRoot(a->a), 0) && isParam(E->eval(S, C->getArgOperand(1)), 1) && (fl & 4 /* MS_SYNC */)); clearTag(S, T_M); events++;
    }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f || !S.env.count(C)) return; StringRef n = f->getName();
    if (n == "fsync") setTag(S, T_F, S.env[C]);
    if (n == "fdatasync") setTag(S, T_FD_, S.env[C]);
    if (n == "msync") setTag(S, T_M, S.env[C]);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    { int64_t c; obligations++; if (E->abs(S0, ret).isConst(c) && (int32_t)c == -1) say("flush-primitive-answer", Rt, "O9t", "reports MDBX_RESULT_TRUE instead of an error", S0); }
    State S = S0; if (!success(S, ret)) return;
    obligations++;
    bool fs = S.aut.get(A_SIGN) && zeroTag(S, T_F), fd = S.aut.get(A_FILL) && zeroTag(S, T_FD_), m = S.aut.get(A_MS) && zeroTag(S, T_M);
    bool ok = ms ? (!(mode & S_DATA) || m) && (!(mode & S_SIZE) || fs) : (mode & S_DATA) ? ((mode & S_SIZE) ? fs : fs || fd) : true;
    if (!ok) say("flush-primitive", Rt, "O9-" + std::to_string(mode), "may report success without the system call that flushes what was asked for (mode " + std::to_string(mode) + ")", S);
  }
};
// -------------------------------------------------- env_sync() with force
struct EnvSync : Base {
  int64_t nonblock = 0; int64_t calls = 0;
  enum { T_MSY = 40 };
  bool trackKey(KeyId k) override { return Base::trackKey(k); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (f && f->getName() == "dxb_sync_locked" && E->stack.empty()) {
      calls++; obligations++; S.aut.set(A_DS, 1); clearTag(S, T_DS);
      AbsVal v = E->abs(S, E->eval(S, C->getArgOperand(1)));
      S.aut.set(A_NOMS, 0);
      if ((v.zero & (M_NOMETA | M_UTTERLY)) != (M_NOMETA | M_UTTERLY)) say("forced-sync-is-lazy", C, "O10", "passes no-sync flags on although a forced synchronisation was requested", S);
    }
    if (f && (f->getName() == "lck_txn_lock" || f->getName() == "meta_recent")) S.aut.set(A_NOMS, 0), S.aut.set(A_WEAKT, 0);
    return false;
  }
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *) override { auto *B = dyn_cast<BranchInst>(from->getTerminator()); if (!B || B->isUnconditional()) return; if (unsynced(S, 0)) S.aut.set(A_NOMS, 1);
    for (auto &x : S.facts) if (x.first->k == K_Field && P->keyName(x.first->key) == "meta_ptr.is_steady" && x.second.nonZero()) S.aut.set(A_WEAKT, 1); }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f || !S.env.count(C) || !E->stack.empty()) return;
    if (f->getName() == "dxb_sync_locked") setTag(S, T_DS, S.env[C]);
    if (f->getName() == "meta_sync") setTag(S, T_MSY, S.env[C]);
  }
  bool keepFact(const Expr *e) override { return isUns(e) || (e->k == K_Field && (P->keyName(e->key).contains("is_steady") || P->keyName(e->key).contains("meta_sync_txnid") || P->keyName(e->key) == "MDBX_env.stuck_meta")); }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return;
    State S = S0; int64_t c; if (!(E->abs(S, ret).isConst(c) && c == 0xffffffffll) && !success(S, ret)) return;
    obligations++;
    bool pub = zeroTag(S, T_DS), clean = S.aut.get(A_NOMS), stuck = false;
    for (auto &x : S.facts) if (x.first->k == K_Field && P->keyName(x.first->key) == "MDBX_env.stuck_meta" && x.second.smin >= 0) stuck = true;
    bool steady = S.aut.get(A_WEAKT);
    if (!pub && !stuck && clean && !steady) say("forced-sync-not-steady", Rt, "O10t", "may report success of a forced synchronisation although the newest meta page is not steady", S);
    if (!pub && !clean && !stuck) say("forced-sync-skipped", Rt, "O10s", "may report success of a forced synchronisation although unflushed pages remain", S);
  }
};
// ------------------------------------------------------- choice of the meta
// constant propagation of each of the 216 combinations of three (txnid, steady) pairs through meta_tap(),
// its decision table and the three accessors
struct TapClient : Client {
  uint64_t base = 1ull << 20, mo = 0; unsigned lg = 12; int64_t tx[3], st[3]; std::set<uint64_t> asked; std::vector<std::map<uint64_t, int64_t>> out; const Function *F = nullptr; bool bad = false;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("troika") || n.starts_with("meta_ptr") || n.starts_with("MDBX_env.") || n.contains("osal_mmap"); }
  bool descend(const Function *f) override { return f->getName() != "meta_snap" && !f->isDeclaration(); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || f->getName() != "meta_snap") return false;
    int64_t a; if (!E->abs(S, E->eval(S, C->getArgOperand(0))).isConst(a)) { bad = true; return false; }
    uint64_t o = (uint64_t)a - base - mo, n = o >> lg; if ((o & ((1u << lg) - 1)) || n > 2) { bad = true; return false; }
    asked.insert(n);
    Expr e; e.k = K_Op; e.op = Instruction::InsertValue; e.a = P->opaque(C, 7, 64); e.b = P->cst(64, tx[n]); e.c = 0; const Expr *x = P->mk(e);
    Expr g; g.k = K_Op; g.op = Instruction::InsertValue; g.a = x; g.b = P->cst(64, st[n]); g.c = 1; pend = P->mk(g); return false;
  }
  const Expr *pend = nullptr;
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (f && f->getName() == "meta_snap" && pend) S.env[C] = pend; }
  void onReturn(State &S, const ReturnInst *, const Expr *) override {
    if (!E->stack.empty()) return;
    std::map<uint64_t, int64_t> r; Expr e; e.k = K_Param; e.v = F->getArg(0); const Expr *p = P->mk(e);
    for (auto &c : S.cells) { uint64_t o; if (c.first == p) o = 0; else if (c.first->k == K_Off && c.first->a == p) o = c.first->c; else continue; int64_t v; if (E->abs(S, c.second).isConst(v)) r[o] = v & (c.second->w >= 64 ? ~0ll : (1ll << c.second->w) - 1); }
    out.push_back(r);
  }
};
void troikaTables(Program &P, RuleOut &R, const Options &O) {
  auto ti = P.structs.find("troika"), mi = P.structs.find("meta_ptr"), ei = P.structs.find("MDBX_env"), oi = P.structs.find("osal_mmap");
  if (ti == P.structs.end() || mi == P.structs.end() || ei == P.structs.end() || oi == P.structs.end()) { R.errors.push_back("troika/meta_ptr/MDBX_env is gone"); return; }
  bool k1, k2, k3, k4, k5, k6, k7, k8, k9, k10;
  uint64_t oRec = memberOff(ti->second, "recent", k1), oPs = memberOff(ti->second, "prefer_steady", k2), oTail = memberOff(ti->second, "tail_and_flags", k3), oTx = memberOff(ti->second, "txnid", k4), oFsm = memberOff(ti->second, "fsm", k5);
  uint64_t eMap = memberOff(ei->second, "dxb_mmap", k6), mBase = memberOff(oi->second, "base", k7), eLn = memberOff(ei->second, "ps2ln", k8), pTx = memberOff(mi->second, "txnid", k9), pSt = memberOff(mi->second, "is_steady", k10), pPtr = 8;
  { bool k; uint64_t x = memberOff(mi->second, "ptr_c", k); if (k) pPtr = x; }
  if (!(k1 && k2 && k3 && k4 && k5 && k6 && k7 && k8 && k9 && k10)) { R.errors.push_back("a field of troika/meta_ptr is gone"); return; }
  const Function *T = P.fn("meta_tap"); if (!T || !P.fn("meta_snap")) { R.errors.push_back("meta_tap()/meta_snap() is gone"); return; }
  auto seed = [&](State &S, const Expr *env, TapClient &c) {
    S.cells[P.off(P.off(env, eMap), mBase)] = P.cst(64, (int64_t)c.base); S.cells[P.off(env, eMap + mBase)] = P.cst(64, (int64_t)c.base); S.cells[P.off(env, eLn)] = P.cst(8, c.lg);
  };
  auto parm = [&](const Function *F, unsigned n) { Expr e; e.k = K_Param; e.v = F->getArg(n); return P.mk(e); };
  auto pi = P.structs.find("page"); uint64_t mo = 20; if (pi != P.structs.end()) { bool k; mo = pi->second->getSizeInBits() / 8; (void)k; }
  auto first = [&](const Function *F) { return &*inst_begin(const_cast<Function *>(F)); };
  auto better = [&](const int64_t *t, const int64_t *s, int a, int b, bool steady) { // is a strictly better than b
    return steady ? (s[a] != s[b] ? s[a] > s[b] : t[a] > t[b]) : (t[a] != t[b] ? t[a] > t[b] : s[a] > s[b]); };
  std::map<std::string, std::string> seen;
  auto say = [&](const char *rule, const Function *F, const std::string &inst, const std::string &msg) { R.add(rule, first(F), F->getName().str() + ":" + inst, msg, nullptr); };
  int64_t n = 0;
  for (int c = 0; c < 216; c++) {
    TapClient cl; cl.F = T; cl.mo = mo; cl.tx[0] = 1 + c % 3; cl.tx[1] = 1 + c / 3 % 3; cl.tx[2] = 1 + c / 9 % 3; cl.st[0] = c / 27 & 1; cl.st[1] = c / 27 >> 1 & 1; cl.st[2] = c / 27 >> 2 & 1;
    Engine E(P, cl); E.maxDisj = 64; State S; seed(S, parm(T, T->arg_size() - 1), cl); E.run(T, S); n++;
    std::string in = "txnid " + std::to_string(cl.tx[0]) + "," + std::to_string(cl.tx[1]) + "," + std::to_string(cl.tx[2]) + " steady " + std::to_string(cl.st[0]) + std::to_string(cl.st[1]) + std::to_string(cl.st[2]);
    if (cl.bad || cl.asked.size() != 3) { say("meta-choice", T, "metas", "meta_tap() does not examine the three meta pages (" + in + ")"); break; }
    if (cl.out.empty()) { R.errors.push_back("meta_tap(): no return analysed"); break; }
    for (auto &r : cl.out) {
      if (!r.count(oRec) || !r.count(oPs) || !r.count(oTail)) { R.errors.push_back("meta_tap(): result not constant for " + in); return; }
      int rec = (int)r[oRec], ps = (int)r[oPs], tail = (int)r[oTail] & 3;
      bool ok = rec < 3 && ps < 3 && tail < 3; std::string w;
      for (int a = 0; a < 3 && ok; a++) {
        if (better(cl.tx, cl.st, a, rec, false)) w = "the most recent meta page";
        else if (better(cl.tx, cl.st, a, ps, true)) w = "the most recent steady meta page";
        else if (a != rec && a != tail && better(cl.tx, cl.st, tail, a, true)) w = "the least valuable meta page to be overwritten";
      }
      if (ok && tail == rec) w = "a page to be overwritten (the most recent one is picked)";
      // two metas which are equal in both respects are exchangeable, so only an unequal steady one counts as 'the only one'
      if (ok && w.empty() && tail == ps) { bool other = false; for (int a = 0; a < 3; a++) other |= a != tail && !better(cl.tx, cl.st, tail, a, true); if (!other) w = "a page to be overwritten (the newest steady one is picked)"; }
      for (int a = 0; a < 3; a++) if (!r.count(oTx + 8 * a) || r[oTx + 8 * a] != cl.tx[a]) w = "the transaction id of meta " + std::to_string(a);
      if (!ok) w = "a valid meta index";
      if (!w.empty()) { if (!seen.count(w)) say("meta-choice", T, w, "meta_tap() does not determine " + w + " for " + in); seen[w] = in; }
    }
  }
  // the accessors take what was chosen
  struct { const char *fn; uint64_t o; } acc[] = {{"meta_recent", oRec}, {"meta_prefer_steady", oPs}, {"meta_tail", oTail}};
  for (auto &a : acc) {
    const Function *F = P.fn(a.fn); if (!F || F->arg_size() != 3) { R.errors.push_back(std::string(a.fn) + "() is gone"); continue; }
    for (int ix = 0; ix < 3; ix++) for (int fsm = 0; fsm < 8; fsm++) {
      TapClient cl; cl.F = F; Engine E(P, cl); State S; seed(S, parm(F, 1), cl); const Expr *t = parm(F, 2);
      uint64_t os[3] = {oRec, oPs, oTail}; int vals[3] = {(ix + 1) % 3, (ix + 2) % 3, (ix + 1) % 3};
      for (int q = 0; q < 3; q++) S.cells[P.off(t, os[q])] = P.cst(8, os[q] == a.o ? (ix | (os[q] == oTail ? 0xC0 : 0)) : vals[q]);
      S.cells[P.off(t, oFsm)] = P.cst(8, fsm | 8 * 5); for (int q = 0; q < 3; q++) S.cells[P.off(t, oTx + 8 * q)] = P.cst(64, 100 + q);
      E.run(F, S); n++;
      for (auto &r : cl.out) {
        bool ok = r.count(pTx) && r[pTx] == 100 + ix && r.count(pPtr) && (uint64_t)r[pPtr] == cl.base + ((uint64_t)ix << cl.lg) + mo && r.count(pSt) && r[pSt] == (fsm >> ix & 1);
        if (!ok) { std::string k = std::string(a.fn) + "#"; if (!seen.count(k)) say("meta-accessor", F, "index", std::string(a.fn) + "() does not return page, transaction id and steadiness of the chosen meta (index " + std::to_string(ix) + ")"); seen[k] = "1"; }
      }
      if (cl.out.empty()) R.errors.push_back(std::string(a.fn) + "(): no return analysed");
    }
  }
  R.stats["troika_combinations"] = n; R.need("troika_combinations", n, 216);
}
// meta_snap(): both halves of the transaction id agree, steadiness comes from the signature
struct Snap : Base {
  const Expr *part(const Expr *e, int ix) { while (e && e->k == K_Op && e->op == Instruction::InsertValue) { if (e->c == ix) return e->b; e = e->a; } return nullptr; }
  bool trackKey(KeyId k) override { return P->keyName(k).starts_with("meta"); }
  bool keepFact(const Expr *e) override { return e->k == K_Field && addrRoot(e->a)->k == K_Param; }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override {
    for (auto &r : S.rels) {
      int64_t x = offOf(r.first.first), y = offOf(r.first.second);
      if (x >= 0 && y >= 0 && x != y && x + y == (int64_t)(mt.txnid_a + mt.txnid_b) && E->decideCmp(S, CmpInst::ICMP_EQ, r.first.first, r.first.second) == 1) S.aut.t.insert({T_REC, r.first.first}), S.aut.t.insert({T_REC, r.first.second});
    }
  }
  int64_t offOf(const Expr *e) { if (e->k != K_Field) return -1; int64_t o = 0; const Expr *p = e->a; while (p->k == K_Off) { o += p->c; p = p->a; } return isParam(p, 0) ? o : -1; }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; obligations++;
    const Expr *t = part(ret, 0), *s = part(ret, 1); if (!t || !s) { R->errors.push_back("meta_snap(): result not understood"); return; }
    AbsVal tv = E->abs(S, t), sv = E->abs(S, s);
    if (!tv.isZero()) {
      events++; bool eq = false;
      for (auto &x : S.aut.t) eq |= x.first == T_REC && x.second == t;
      if (!eq) say("torn-meta-accepted", Rt, "O4s", "accepts a meta page whose two transaction ids were not compared", S);
    }
    if (!sv.isZero()) {
      events++; bool sg = false; State Q = S;
      if (!E->assume(Q, P->op(OP_ICMP + CmpInst::ICMP_NE, s, P->cst(s->w, 0), 1), true)) return;
      if (tv.isZero()) say("torn-meta-accepted", Rt, "O4s0", "reports a meta page with an invalid transaction id as steady", S);
      for (auto &f : Q.facts) if (f.first->k == K_Field && offOf(f.first) == (int64_t)mt.sign && f.second.umin > 1) sg = true;
      if (!sg) say("steady-without-signature", Rt, "O4g", "reports a meta page as steady without its signature", S);
    }
  }
};
// who else stores into a meta page of the map, or writes through the meta descriptor
void metaWritersOnly(Program &P, RuleOut &R) {
  static const StringSet<> allowed = {"dxb_sync_locked", "meta_sync", "meta_override", "meta_unsteady", "meta_wipe_steady",
      /* fill an image of a meta page in a private buffer */ "copy_with_compacting", "copy_asis", "meta_model"};
  int64_t stores = 0;
  for (Function &F : *P.M) {
    if (F.isDeclaration()) continue;
    for (auto &B : F) for (auto &I : B) {
      const Value *ptr = nullptr; uint64_t n = 0; bool fd = false;
      if (auto *st = dyn_cast<StoreInst>(&I)) { ptr = st->getPointerOperand(); n = P.M->getDataLayout().getTypeStoreSize(st->getValueOperand()->getType()); }
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { ptr = rm->getPointerOperand(); n = 8; }
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { ptr = cx->getPointerOperand(); n = 8; }
      else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { ptr = mi->getDest(); n = 1; }
      else if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (f && (f->getName() == "osal_pwrite" || f->getName() == "pwrite" || f->getName() == "osal_pwritev" || f->getName() == "osal_write" || f->getName() == "pwrite64")) { ptr = C->getArgOperand(0); fd = true; } }
      if (!ptr) continue;
      const Expr *e = P.staticExpr(ptr); if (!e) continue;
      if (fd) { if (e->k != K_Field || P.keyName(e->key) != "MDBX_env.fd4meta") continue; }
      else {
        const Expr *r = addrRoot(e); if (r->k == K_Alloca || r->k == K_Param) continue; // private images; callers are judged at the call
        auto *sd = P.pointeeStruct(r); bool meta = sd && sd->getName() == "meta";
        if (!meta) { KeyId k = P.keyOf(e, n); meta = P.keyName(k).starts_with("meta."); }
        if (!meta) continue;
      }
      stores++;
      if (!allowed.contains(F.getName())) R.add("meta-written-elsewhere", &I, F.getName().str(), F.getName().str() + "() writes to a meta page", nullptr);
    }
  }
  R.stats["meta_store_sites"] = stores; R.need("meta_store_sites", stores, 20);
}
template <class T, class Fn> void one(Program &P, RuleOut &R, const Options &O, const char *name, T &c, Fn init, const char *stat) {
  const Function *F = P.fn(name); if (!F || F->isDeclaration()) { R.errors.push_back(std::string(name) + "() is gone"); return; }
  c.R = &R; c.F = F; Engine E(P, c); E.maxDisj = O.disj * (O.thorough ? 2 : 1); State S; init(S, F, E); E.run(F, S);
  if (E.budgetHit) R.errors.push_back(std::string("budget exhausted in ") + name);
  R.stats[std::string(stat) + "_obligations"] += c.obligations; R.stats[std::string(stat) + "_events"] += c.events; R.stats["functions_analysed"]++;
  R.sample(std::string(name) + (c.cfg.empty() ? "" : " with " + c.cfg) + ": " + std::to_string(c.obligations) + " obligations, " + std::to_string(c.events) + " events", 60);
}
auto noInit = [](State &, const Function *, Engine &) {};
// functions which write to the meta descriptor (or the map) and are not themselves in charge of flushing
std::set<const Function *> metaWriters(Program &P) {
  std::set<const Function *> r;
  for (Function &F : *P.M) {
    if (F.isDeclaration() || !F.getName().starts_with("meta_")) continue;
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(C)) if (f->getName() == "osal_pwrite") r.insert(&F);
  }
  return r;
}
void order2(Program &P, RuleOut &R, const Options &O) {
  for (auto n : {"meta_sync", "meta_override", "meta_wipe_steady"}) { FlushAfter c; c.preWritten = StringRef(n) == "meta_sync"; c.writers = metaWriters(P); one(P, R, O, n, c, [&](State &S, const Function *, Engine &) { if (c.preWritten) S.aut.set(A_META, 2); }, "meta_flush"); }
  { Commit c; c.c04 = true; one(P, R, O, "txn_basal_commit", c, noInit, "commit"); if (!c.syncs) R.errors.push_back("txn_basal_commit() does not call dxb_sync_locked() any more"); }
  for (auto n : {"txn_write", "defrag_move", "spill_slowpath"}) { Unsynced c; one(P, R, O, n, c, noInit, "unsynced"); }
  for (int ms = 0; ms < 2; ms++) for (int64_t m : {0, 1, 2, 4, 6, 10, 14}) { Osal c; c.ms = ms; c.mode = m; c.cfg = "mode " + std::to_string(m); one(P, R, O, ms ? "osal_msync" : "osal_fsync", c, [&](State &S, const Function *F, Engine &) { S.env[F->getArg(ms ? 2 : 1)] = P.cst(32, m); }, "osal"); }
  for (int nb = 0; nb < 2; nb++) { EnvSync c; c.cfg = nb ? "nonblock" : "blocking"; one(P, R, O, "env_sync", c, [&](State &S, const Function *F, Engine &) { S.env[F->getArg(1)] = P.cst(1, 1); S.env[F->getArg(2)] = P.cst(1, nb); }, "force"); if (!c.calls) R.errors.push_back("env_sync() does not call dxb_sync_locked() any more"); }
  R.need("meta_flush_obligations", R.stats["meta_flush_obligations"], 4); R.need("unsynced_obligations", R.stats["unsynced_obligations"], 3);
  R.need("osal_obligations", R.stats["osal_obligations"], 14); R.need("commit_obligations", R.stats["commit_obligations"], 3); R.need("force_obligations", R.stats["force_obligations"], 2);
}
}
RULE(C04) { publish(P, R, O, 4); order2(P, R, O); }
RULE(C09) { metaWritersOnly(P, R); publish(P, R, O, 9); troikaTables(P, R, O); { Snap c; c.mt = Meta::of(P); one(P, R, O, "meta_snap", c, noInit, "snap"); } }
RULE(C22) { publish(P, R, O, 22); { Commit c; c.c22 = true; one(P, R, O, "txn_basal_commit", c, noInit, "commit"); } }
}
