// C25: a backup copy that is reported as successful is complete, consistent and durable.
#include "order_base.h"
namespace va {
namespace {
enum { CP_DONT_FLUSH = 4, CP_OVERWRITE = 64 };
enum { B_STUB = 1, B_COPY, B_UP, B_FS1, B_META, B_FS2, B_PIPE, B_FILL, B_DONE, B_SIZE, B_WALK, B_JOIN, B_OPEN, B_CLOSE, B_RM, B_BEGIN, B_INV, B_ROOT, B_MOVED, B_SIG, B_ERR };
enum { U_STUB = 1, U_COPY, U_UP, U_FS1, U_META, U_FS2, U_MB, U_SRC, U_SZ, U_WALK, U_JOIN, U_ERR, U_OPEN, U_CLOSE, U_BEGIN, U_IMG, U_LCK1, U_LCK2, U_WR };
bool isCopier(const Value *v, int d = 0) {
  if (auto *f = dyn_cast<Function>(v)) return f->getName() == "copy_asis" || f->getName() == "copy_with_compacting";
  if (d > 4) return false;
  if (auto *p = dyn_cast<PHINode>(v)) { for (auto &x : p->incoming_values()) if (!isCopier(x, d + 1)) return false; return true; }
  if (auto *s = dyn_cast<SelectInst>(v)) return isCopier(s->getTrueValue(), d + 1) && isCopier(s->getFalseValue(), d + 1);
  return false;
}
struct CopyBase : Base {
  bool splitByResult() override { return true; }
  int64_t flagsOne(State &S, unsigned n) { return (int64_t)E->abs(S, E->eval(S, F->getArg(n))).one; }
  bool known0(State &S, const Expr *e) { return e && E->abs(S, e).isZero(); }
  // success of the returned value; S is refined
  bool okRet(State &S, const Expr *ret) { if (!E->stack.empty() || !ret) return false; if (!success(S, ret)) return false; obligations++; return true; }
};
// ------------------------------------------------------------------ copy2fd()
struct Copy2fd : CopyBase {
  int64_t copies = 0;
  bool dontFlush(State &S) { return flagsOne(S, 2) & CP_DONT_FLUSH; }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!E->stack.empty()) return false;
    auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    if (isCopier(C->getCalledOperand())) {
      events++; copies++; obligations += 2; int64_t pipe = -1; AbsVal p = E->abs(S, arg(4)); if (p.isZero()) pipe = 0; else if (p.nonZero()) pipe = 1;
      S.aut.set(B_PIPE, pipe == 1 ? 1 : 0);
      if (pipe != 1 && !zeroTag(S, U_STUB)) say("no-invalid-stub", C, "stub", "starts to copy into a file before the place of the meta pages was overwritten by an invalid stub", S);
      if (S.aut.get(B_ERR)) say("snapshot-disposed-early", C, "snap", "copies although the transaction was already reset or aborted", S);
      S.aut.set(B_COPY, 1); S.aut.set(B_UP, 0); clearTag(S, U_UP); return false;
    }
    if (!f) return false;
    StringRef n = f->getName();
    if (n == "mdbx_txn_reset" || n == "mdbx_txn_abort" || n == "mdbx_txn_abort_ex") S.aut.set(B_ERR, 1);
    if (n.starts_with("llvm.memset")) { int64_t v; if (E->abs(S, arg(1)).isConst(v)) S.aut.set(B_INV, (v & 0xff) ? 1 : 0); }
    if (n == "osal_pwrite") {
      events++; obligations += 3;
      if (!S.aut.get(B_COPY) || !zeroTag(S, U_COPY)) say("meta-before-copy", C, "order", "writes the valid meta pages of the copy although its content was not written successfully before", S);
      else if (!dontFlush(S) && !zeroTag(S, U_FS1)) say("meta-before-flush", C, "flush1", "writes the valid meta pages of the copy before its content was flushed", S);
      if (!S.aut.get(B_UP) || !zeroTag(S, U_UP)) say("snapshot-not-verified", C, "alive", "completes the copy without having verified that its snapshot was still intact", S);
      if (!E->abs(S, arg(3)).isZero()) say("meta-misplaced", C, "off", "does not write the meta pages at the beginning of the copy", S);
    }
    if (n == "osal_write" && S.aut.get(B_COPY)) say("write-after-copy", C, "late", "appends to the copy after it was completed", S);
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !S.env.count(C)) return; const Expr *r = S.env[C];
    if (isCopier(C->getCalledOperand())) { setTag(S, U_COPY, r); return; }
    if (!f) return; StringRef n = f->getName();
    if (n == "osal_write" && !S.aut.get(B_COPY)) { if (S.aut.get(B_INV) && isParam(addrRoot(E->eval(S, C->getArgOperand(0))), 1)) setTag(S, U_STUB, r); }
    if (n == "mdbx_txn_unpark" && S.aut.get(B_COPY)) { S.aut.set(B_UP, 1); setTag(S, U_UP, r); }
    if (n == "osal_fsync" && S.aut.get(B_COPY)) {
      int64_t m = 0; E->abs(S, E->eval(S, C->getArgOperand(1))).isConst(m); bool right = isParam(E->eval(S, C->getArgOperand(0)), 1);
      if (!S.aut.get(B_META)) { if (right && (m & 6) == 6) setTag(S, U_FS1, r); else clearTag(S, U_FS1); }
      else { if (right && (m & 2)) setTag(S, U_FS2, r); else clearTag(S, U_FS2); }
    }
    if (n == "osal_pwrite") { S.aut.set(B_META, 1); if (isParam(E->eval(S, C->getArgOperand(0)), 1)) setTag(S, U_META, r); }
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    State S = S0; if (!okRet(S, ret)) return;
    if (!zeroTag(S, U_COPY)) { say("success-without-copy", Rt, "ret", "may report success although nothing was copied", S); return; }
    if (!S.aut.get(B_UP) || !zeroTag(S, U_UP)) say("snapshot-not-verified", Rt, "alive", "reports success without having verified that the snapshot was still intact after copying", S);
    if (S.aut.get(B_PIPE)) return;
    if (!zeroTag(S, U_META)) say("success-without-meta", Rt, "meta", "may report success although the meta pages of the copy were not written", S);
    else if (!dontFlush(S) && !zeroTag(S, U_FS2)) say("copy-not-flushed", Rt, "flush2", "may report success although the meta pages of the copy were not flushed", S);
  }
};
// ---------------------------------------------- copy_asis(), copy_with_compacting()
struct Copier : CopyBase {
  bool compact = false; int64_t data = 0; const Expr *txn() { return param(1); }
  int64_t metaOffset(const Expr *p) { // offset in the image of a meta page, or -1
    const Expr *r = p; int64_t o = 0; for (;;) { if (r->k == K_Off) { o += r->c; r = r->a; } else break; }
    auto *st = P->pointeeStruct(r); if (st && st->getName() == "meta" && !isParam(r, 0)) return o;
    if (mentions(r, [&](const Expr *x) { auto *I = x->v ? dyn_cast<CallBase>(x->v) : nullptr; auto *f = I ? calleeOf(I) : nullptr; return f && f->getName() == "meta_model"; })) return o >= 20 ? o - 20 : o;
    return -1;
  }
  bool keepFact(const Expr *e) override { return Base::keepFact(e) || (e->k == K_Field && (P->keyName(e->key).contains(".root") || P->keyName(e->key).contains("compacting_context.error"))); }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("geo.") || n.starts_with("tree.") || n.starts_with("compacting_context.error") || n.starts_with("MDBX_env.ps2ln") || n.contains("mmap.base"); }
  void data1(State &S, const CallBase *C, const Expr *src, const Expr *dst) {
    data++; obligations++; events++;
    if (dst && src != dst && E->decideCmp(S, CmpInst::ICMP_EQ, src, dst) != 1) say("copied-to-other-place", C, "place", "copies data to another place than it was taken from", S);
    int64_t k; if (E->abs(S, src).isConst(k) && src->k == K_Const) say("wrong-start", C, "start", "starts copying at the fixed offset " + std::to_string(k) + " instead of behind the meta pages", S);
    if (const Expr *mb = tag(S, U_MB)) if (src != mb && src->k != K_Opaque && src->k != K_Field && !(src->k == K_Op && src->op == OP_PHIJOIN) && E->decideCmp(S, CmpInst::ICMP_EQ, src, mb) == 0) say("wrong-start", C, "start", "does not continue with the data behind the meta pages", S);
  }
  const Expr *cell(State &S, const Expr *p) { auto c = S.cells.find(p); return c == S.cells.end() ? nullptr : c->second; }
  bool pipe(State &S) { return E->abs(S, E->eval(S, F->getArg(4))).nonZero(); }
  bool filled(State &S, std::string &w) {
    int64_t f = S.aut.get(B_FILL); static const char *nm[] = {"geometry", "GC tree", "main tree", "transaction id"};
    for (int i = 0; i < 4; i++) { if (compact && i == 1) continue; if (!(f >> i & 1)) { w = nm[i]; return false; } }
    return true;
  }
  void metaOut(State &S, const Instruction *I, const char *inst) {
    std::string w; obligations++;
    if (!filled(S, w) && !emptyDb(S)) say("meta-incomplete", I, inst, "completes the meta pages of the copy without the snapshot's " + w, S);
    if (compact && pipe(S) && !emptyDb(S) && S.aut.get(B_ROOT) == 1 && !S.aut.get(B_DONE)) say("source-root-in-copy", I, "root", "writes meta pages which refer to the root page of the source instead of that of the copy", S);
    S.aut.set(B_META, 1);
  }
  bool emptyDb(State &S) { if (!compact) return false; for (auto &f : S.facts) { int64_t c; if (f.first->k == K_Field && P->keyName(f.first->key).contains(".root") && mentions(f.first, [&](const Expr *x) { return x == txn(); }) && f.second.isConst(c) && (uint32_t)c == 0xffffffffu) return true; } return S.aut.get(B_INV); }
  void put(State &S, const Expr *d, int64_t n, const Expr *src, const Expr *val) {
    int64_t o = metaOffset(d); if (o < 0) return; events++; int64_t f = S.aut.get(B_FILL);
    auto fromTxn = [&](const Expr *e) { return e && mentions(e, [&](const Expr *x) { return x == txn(); }); };
    if (o <= (int64_t)mt.gc && o + n >= (int64_t)mt.main && src && fromTxn(src)) f |= 2;
    if (o <= (int64_t)mt.main && o + n >= (int64_t)mt.canary && src) { if (fromTxn(src)) f |= 4; S.aut.set(B_ROOT, 1); }
    if (o <= (int64_t)mt.geo && o + n >= (int64_t)mt.gc && src && fromTxn(src)) f |= 1;
    if (compact && val && o > (int64_t)mt.geo && o < (int64_t)mt.gc && (fromTxn(val) )) f |= 1;
    if (val && o > (int64_t)mt.main && o < (int64_t)mt.canary && n == 4 && !(fromTxn(val) && val->k == K_Field && P->keyName(val->key).ends_with("root"))) { if (S.aut.get(B_ROOT)) S.aut.set(B_ROOT, 2); }
    else if (val && o > (int64_t)mt.main && o < (int64_t)mt.canary && n == 4 && S.aut.get(B_ROOT) && P->keyName(P->keyOf(d, 4)).contains(".root")) S.aut.set(B_ROOT, 1);
    if (val && (o == (int64_t)mt.txnid_b) && fromTxn(val)) f |= 8;
    S.aut.set(B_FILL, f);
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId, const Expr *val) override { if (E->stack.empty()) put(S, ptr, val->w / 8, nullptr, val); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || !E->stack.empty()) return false; StringRef n = f->getName();
    auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) {
      const Expr *d = arg(0), *s = arg(1); int64_t len = 0; E->abs(S, arg(2)).isConst(len);
      if (len) put(S, d, len, s, nullptr);
      else if (isParam(addrRoot(d), 3) || mentions(d, [&](const Expr *x) { return isParam(x, 3); })) { // page data: base + offset
        const Expr *o = nullptr; if (s->k == K_Op && s->op == Instruction::Add) o = mentions(s->a, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key) == "osal_mmap.base"; }) ? s->b : s->a; else if (s->k == K_Idx && s->c == 1) o = s->b;
        if (o) setTag(S, U_SRC, o); else clearTag(S, U_SRC);
      }
      return false;
    }
    bool onFd = C->arg_size() && isParam(arg(0), 2);
    if (n == "osal_write" && onFd) {
      const Expr *b = arg(1);
      if (isParam(b, 3)) { // the meta pages
        metaOut(S, C, "pipe"); setTag(S, U_MB, arg(2));
      } else if (!compact && !S.aut.get(B_DONE)) { if (const Expr *o = tag(S, U_SRC)) { data1(S, C, o, nullptr); if (!pipe(S)) moved(S, C); } else if (pipe(S)) {} else moved(S, C); }
    }
    if (n == "osal_pwrite" && onFd && !compact) { if (const Expr *o = tag(S, U_SRC)) data1(S, C, o, arg(3)); }
    if (n.starts_with("sendfile")) { const Expr *p = arg(2), *o = cell(S, p); if (!isParam(arg(0), 2)) return false; if (o) data1(S, C, o, nullptr); }
    if (n == "copy_file_range" && isParam(arg(2), 2)) { const Expr *a = cell(S, arg(1)), *b = cell(S, arg(3)); S.aut.set(B_MOVED, 1); if (a) data1(S, C, a, b ? b : P->cst(64, -1)); }
    if (compact && n == "osal_condpair_destroy") {}
    return false;
  }
  void moved(State &S, const CallBase *C) { if (S.aut.get(B_MOVED)) say("copied-to-other-place", C, "place", "continues at the file position although it was not moved by what was copied before", S); }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!E->stack.empty() || !f) return; StringRef n = f->getName();
    if (n == "osal_fsetsize" && S.env.count(C)) { setTag(S, U_SZ, S.env[C]); }
    if (n == "compacting_walk_tree" && S.env.count(C)) { setTag(S, U_WALK, S.env[C]); if (S.aut.get(B_ROOT)) S.aut.set(B_ROOT, 2); }
    if ((n == "pthread_join" || n == "osal_thread_join") && S.env.count(C)) { setTag(S, U_JOIN, S.env[C]); S.aut.set(B_CLOSE, 1); }
    if (n == "osal_write" || n == "osal_pwrite") clearTag(S, U_SRC);
    if (n == "osal_write" && compact && isParam(E->eval(S, C->getArgOperand(1)), 3) && emptyDb(S)) S.aut.set(B_INV, 1);
  }
  void afterLoad(State &S, const LoadInst *L, const Expr *, KeyId k) override {
    if (!E->stack.empty() || !S.aut.get(B_CLOSE) || P->keyName(k) != "compacting_context.error") return;
    if (const Expr *e = tag(S, U_ERR)) S.env[L] = e; else setTag(S, U_ERR, S.env[L]); // nobody changes it after the thread has ended
  }
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *to) override {
    if (!E->stack.empty()) return;
    if (emptyDb(S)) S.aut.set(B_INV, 1);
    settle(S, U_WALK, B_WALK); settle(S, U_JOIN, B_JOIN); if (S.aut.get(B_JOIN)) settle(S, U_ERR, B_ERR); settle(S, U_SZ, B_SIZE);
    const Expr *x, *y; CmpInst::Predicate p; if (!edgeCmp(S, from, to, x, y, p)) return;
    auto has = [&](const Expr *e, const char *k) { return mentions(e, [&](const Expr *x) { return x->k == K_Field && P->keyName(x->key).contains(k); }); };
    for (int i = 0; i < 2; i++, std::swap(x, y), p = CmpInst::getSwappedPredicate(p)) {
      if (!pure(y) || pure(x)) continue;
      bool whole = has(x, "end_pgno") || has(x, ".now");
      if (!whole && x->k != K_Const && (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_EQ)) S.aut.set(B_DONE, 1);
      if (whole && p == CmpInst::ICMP_EQ) S.aut.set(B_SIZE, 2);
    }
  }
  bool pure(const Expr *e) { while (e->k == K_Op && (e->op == Instruction::Shl || e->op == Instruction::Mul || e->op == Instruction::ZExt)) e = e->a; return e->k == K_Field && P->keyName(e->key).contains("first_unallocated"); }
  void onInst(State &S, const Instruction *I) override { // the end was reached for sure
    auto *C = dyn_cast<ICmpInst>(I); if (!C || !E->stack.empty() || compact) return;
    const Expr *x = E->eval(S, C->getOperand(0)), *y = E->eval(S, C->getOperand(1)); if (pure(x)) std::swap(x, y);
    if (pure(y) && E->decideCmp(S, CmpInst::ICMP_UGE, x, y) == 1) S.aut.set(B_DONE, 1);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    State S = S0; if (!okRet(S, ret)) return;
    if (!compact) {
      std::string w; if (!filled(S, w)) say("meta-incomplete", Rt, "ret", "finishes the copy without the snapshot's " + w + " in its meta pages", S);
      if (!S.aut.get(B_DONE)) say("copy-incomplete", Rt, "end", "may report success before the last used page was copied", S);
    } else if (!S.aut.get(B_INV)) {
      std::string w; if (!filled(S, w)) say("meta-incomplete", Rt, "ret", "finishes the copy without the snapshot's " + w + " in its meta pages", S);
      if (!settle(S, U_WALK, B_WALK)) say("copy-incomplete", Rt, "walk", "may report success although the tree was not completely copied", S);
      if (!settle(S, U_JOIN, B_JOIN)) say("writer-not-joined", Rt, "join", "may report success before the writing thread has finished", S);
      else if (!settle(S, U_ERR, B_ERR)) say("writer-error-lost", Rt, "err", "may report success although the writing thread failed", S);
    }
    if (!pipe(S) && !settle(S, U_SZ, B_SIZE)) say("copy-size", Rt, "size", "may report success without having given the copy its full size", S);
  }
};
// ------------------------------------------------------------ writer thread
struct Writer : Base { // every end of the thread after an error wakes the producer up
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.contains("ctx_t") || n.contains("error") || n.contains(".tail") || n.contains(".head"); }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override {
    if (!E->stack.empty()) return;
    if (P->keyName(k) == "compacting_context.error" && !E->abs(S, val).isZero()) { S.aut.set(B_ERR, 1); events++; }
  }
  void afterLoad(State &S, const LoadInst *L, const Expr *, KeyId k) override { // the mutex is held, thus nobody else changes it
    if (E->stack.empty() && S.aut.get(B_ERR) && S.aut.get(B_BEGIN) && P->keyName(k) == "compacting_context.error") E->assumeCmp(S, CmpInst::ICMP_NE, S.env[L], P->cst(32, 0));
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false; StringRef n = f->getName();
    if (n == "pthread_cond_signal" || n == "osal_condpair_signal" || n == "pthread_cond_broadcast") S.aut.set(B_ERR, 0);
    if (n == "osal_write") { S.aut.set(B_WALK, 1); events++; }
    return false;
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *) override { if (!E->stack.empty()) return; obligations++; if (S.aut.get(B_ERR) && S.aut.get(B_BEGIN)) say("producer-not-woken", Rt, "wake", "may end with an error while the producer keeps waiting for a free buffer", S); }
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (f && (f->getName() == "osal_condpair_lock" || f->getName() == "pthread_mutex_lock")) S.aut.set(B_BEGIN, 1), S.aut.set(B_ERR, 0); }
};
// ----------------------------------------------------------- copy2pathname()
struct ToPath : CopyBase {
  int64_t calls = 0;
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || !E->stack.empty()) return false; StringRef n = f->getName();
    auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    if (n == "osal_openfile") { obligations++; events++; int64_t p = -1; bool k = E->abs(S, arg(0)).isConst(p); if (k) S.aut.set(B_OPEN, 1 + p); 
      AbsVal fl = E->abs(S, E->eval(S, F->getArg(2))); if (!(fl.one & CP_OVERWRITE) && (!k || p != excl)) say("existing-file-overwritten", C, "excl", "may overwrite an existing file although this was not requested", S); }
    if (n == "copy2fd") {
      calls++; obligations += 2; events++;
      if (!zeroTag(S, U_OPEN)) say("copy-into-nothing", C, "open", "copies although the destination was not opened", S);
      if (!zeroTag(S, U_LCK1) && !zeroTag(S, U_LCK2)) say("destination-not-locked", C, "lock", "copies although the destination could not be locked", S);
    }
    return false;
  }
  int64_t excl = 0; const Value *fdVar = nullptr;
  void afterLoad(State &S, const LoadInst *L, const Expr *p, KeyId) override { // an opened descriptor is valid
    if (E->stack.empty() && L->getPointerOperand() == fdVar && zeroTag(S, U_OPEN)) E->assumeCmp(S, CmpInst::ICMP_NE, S.env[L], P->cst(32, -1));
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f || !E->stack.empty() || !S.env.count(C)) return; StringRef n = f->getName(); const Expr *r = S.env[C];
    if (n == "osal_openfile") setTag(S, U_OPEN, r), fdVar = C->getArgOperand(3);
    if (n.starts_with("fcntl")) setTag(S, U_LCK1, r);
    if (n == "flock") setTag(S, U_LCK2, r);
    if (n == "copy2fd") setTag(S, U_COPY, r), S.aut.set(B_COPY, 1);
    if (n == "osal_closefile" || n == "close") S.aut.set(B_CLOSE, 1), setTag(S, U_CLOSE, r);
    if (n == "osal_removefile" || n == "unlink" || n == "remove") S.aut.set(B_RM, 1);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; obligations++; State S = S0;
    if (success(S, ret)) {
      if (!zeroTag(S, U_COPY)) say("success-without-copy", Rt, "ret", "may report success although nothing was copied", S);
      if (!zeroTag(S, U_CLOSE)) say("close-not-checked", Rt, "close", "may report success although closing the copy failed", S);
    }
    S = S0; if (!E->assumeCmp(S, CmpInst::ICMP_NE, ret, P->cst(ret->w, 0))) return;
    if (zeroTag(S, U_OPEN)) {
      if (!S.aut.get(B_CLOSE)) say("descriptor-leak", Rt, "leak", "fails without closing the destination", S);
      if (!S.aut.get(B_RM)) say("failed-copy-left", Rt, "rm", "fails without removing the incomplete copy", S);
    }
  }
};
// ------------------------------------------- the transaction around the copy
struct EnvCopy : CopyBase {
  int64_t calls = 0;
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || !E->stack.empty()) return false; StringRef n = f->getName();
    if (n == "copy2fd" || n == "copy2pathname") { calls++; obligations++; events++; if (!zeroTag(S, U_BEGIN)) say("no-snapshot", C, "begin", "copies without a started transaction", S); if (S.aut.get(B_ERR)) say("snapshot-disposed-early", C, "early", "ends the transaction before copying", S); }
    if (n.starts_with("mdbx_txn_abort") || n == "mdbx_txn_reset") S.aut.set(B_ERR, 1);
    if (n == "mdbx_txn_begin" || n == "mdbx_txn_begin_ex") { int64_t fl = 0; E->abs(S, E->eval(S, C->getArgOperand(2))).isConst(fl); if (!(fl & 0x20000)) say("no-snapshot", C, "ro", "does not take the copy within a read transaction", S); }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override { if (f && S.env.count(C) && (f->getName() == "mdbx_txn_begin" || f->getName() == "mdbx_txn_begin_ex")) setTag(S, U_BEGIN, S.env[C]); 
    if (f && S.env.count(C) && (f->getName() == "check_txn")) setTag(S, U_BEGIN, S.env[C]); 
    if (f && S.env.count(C) && (f->getName() == "copy2fd" || f->getName() == "copy2pathname")) setTag(S, U_COPY, S.env[C]); }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override { State S = S0; if (!okRet(S, ret)) return; if (!zeroTag(S, U_COPY)) say("success-without-copy", Rt, "ret", "may report success although the copy failed", S); }
};
// -------------------------------------------------- complete write of a buffer
struct FullWrite : Base {
  void onEdge(State &S, const BasicBlock *from, const BasicBlock *to) override {
    const Expr *w = tag(S, U_WR); if (!w || S.aut.get(B_DONE)) return;
    const Expr *cx, *cy; CmpInst::Predicate p; if (!edgeCmp(S, from, to, cx, cy, p)) return;
    auto of = [&](const Expr *e) { return e == w || (e->k == K_Op && (e->op == Instruction::ZExt || e->op == Instruction::SExt) && e->a == w); };
    if (of(cy)) p = CmpInst::getSwappedPredicate(p); else if (!of(cx)) return;
    if ((cx->k == K_Const || cy->k == K_Const) && p != CmpInst::ICMP_EQ) return;
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE) S.aut.set(B_DONE, 1);
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f || !S.env.count(C)) return; StringRef n = f->getName();
    if (n == "write" || n.starts_with("pwrite") ) { events++; setTag(S, U_WR, S.env[C]); S.aut.set(B_DONE, 0); }
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty() || !ret) return; State S = S0; if (!success(S, ret)) return; obligations++;
    if (!S.aut.get(B_DONE)) say("short-write-accepted", Rt, "short", "may report success although not everything was written", S);
  }
};
struct OpenFile : Base {
  int64_t opens = 0; bool mustExcl = false;
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f || !(f->getName() == "open" || f->getName() == "open64") || !isParam(E->eval(S, C->getArgOperand(0)), 2)) return false; opens++; obligations++; events++;
    // once it failed for another reason than an existing file, the file was made by the failed call itself
    AbsVal v = E->abs(S, E->eval(S, C->getArgOperand(1))); uint64_t want = S.aut.get(B_OPEN) ? 0100 : 0300; S.aut.set(B_OPEN, 1); if ((v.one & want) != want) say("existing-file-overwritten", C, "excl", "opens the destination of an exclusive copy without O_CREAT|O_EXCL", S); return false;
  }
};
}
RULE(C25) {
  int64_t excl = -1; // enumerator as declared
  auto one = [&](const char *name, auto &c, std::function<void(State &, const Function *)> init, const char *stat) {
    const Function *F = P.fn(name); if (!F || F->isDeclaration()) { R.errors.push_back(std::string(name) + "() is gone"); return; }
    c.R = &R; c.F = F; c.mt = Meta::of(P); Engine E(P, c); E.maxDisj = O.disj * 2; State S; init(S, F); E.run(F, S);
    if (E.budgetHit) R.errors.push_back(std::string("budget exhausted in ") + name);
    R.stats[std::string(stat) + "_obligations"] += c.obligations; R.stats[std::string(stat) + "_events"] += c.events; R.stats["functions_analysed"]++;
    R.sample(std::string(name) + (c.cfg.empty() ? "" : " with " + c.cfg) + ": " + std::to_string(c.obligations) + " obligations, " + std::to_string(c.events) + " events", 60);
  };
  auto none = [](State &, const Function *) {};
  { DebugInfoFinder DF; DF.processModule(*P.M); for (auto *t : DF.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) if (en->getName() == "MDBX_OPEN_COPY_EXCL") excl = en->getValue().getSExtValue(); }
  if (excl < 0) R.errors.push_back("MDBX_OPEN_COPY_EXCL is gone");
  for (int fl : {0, 1, 4, 8, 12, 16, 20, 24, 28}) { Copy2fd c; c.cfg = "flags " + std::to_string(fl); one("copy2fd", c, [&](State &S, const Function *F) { S.env[F->getArg(2)] = P.cst(32, fl); }, "copy2fd"); if (!c.copies) R.errors.push_back("copy2fd() does not call the copying functions any more"); }
  for (int pipe = 0; pipe < 2; pipe++) for (int fl : {0, 8}) {
    auto setp = [&](State &S, const Function *F) { S.env[F->getArg(4)] = P.cst(F->getArg(4)->getType()->getIntegerBitWidth(), pipe); S.env[F->getArg(5)] = P.cst(32, fl); };
    { Copier c; c.cfg = pipe ? "pipe" : "file"; one("copy_asis", c, setp, "asis"); if (!c.data) R.errors.push_back("copy_asis(): no data transfer recognised"); }
    { Copier c; c.compact = true; c.cfg = pipe ? "pipe" : "file"; one("copy_with_compacting", c, setp, "compact"); }
  }
  { Writer c; one("compacting_write_thread", c, none, "writer"); }
  for (int fl : {0, 64}) { ToPath c; c.excl = excl; c.cfg = "flags " + std::to_string(fl); one("copy2pathname", c, [&](State &S, const Function *F) { S.env[F->getArg(2)] = P.cst(32, fl); }, "topath"); if (!c.calls) R.errors.push_back("copy2pathname() does not call copy2fd() any more"); }
  for (auto n : {"mdbx_env_copy", "mdbx_env_copy2fd", "mdbx_txn_copy2fd", "mdbx_txn_copy2pathname"}) { EnvCopy c; one(n, c, none, "entry"); if (!c.calls) R.errors.push_back(std::string(n) + "() does not copy any more"); }
  for (auto n : {"osal_write", "osal_pwrite", "osal_pwritev"}) { FullWrite c; one(n, c, none, "fullwrite"); }
  { OpenFile c; c.mustExcl = true; one("osal_openfile", c, [&](State &S, const Function *F) { S.env[F->getArg(0)] = P.cst(32, excl); S.env[F->getArg(4)] = P.cst(32, 0640); }, "open"); if (!c.opens) R.errors.push_back("osal_openfile() does not open"); }
  R.need("copy2fd_obligations", R.stats["copy2fd_obligations"], 6); R.need("fullwrite_obligations", R.stats["fullwrite_obligations"], 3);
  R.need("asis_obligations", R.stats["asis_obligations"], 6); R.need("compact_obligations", R.stats["compact_obligations"], 4);
}
}
