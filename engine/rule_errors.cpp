// C05: an error result never gets lost on the way to the caller.
#include "rules.h"
#include <fstream>
#include <sstream>
namespace va {
namespace {
const std::set<std::string> kLibcNeg = {"pwrite", "pwrite64", "pwritev", "pwritev64", "write", "writev", "fsync", "fdatasync", "msync", "ftruncate", "ftruncate64", "fallocate", "fallocate64", "munmap", "mprotect", "mlock", "pread", "pread64", "read", "fstat", "fstat64", "fcntl", "fcntl64", "sync_file_range", "syncfs", "semop", "unlink", "rmdir", "copy_file_range", "sendfile", "lseek", "lseek64"};
const std::set<std::string> kLibcPos = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutexattr_init", "pthread_mutexattr_setpshared", "pthread_mutexattr_setrobust", "pthread_mutexattr_setprotocol", "pthread_mutex_consistent", "pthread_key_create", "posix_fallocate"};
}
// int-returning functions whose result is an error code
std::set<const Function *> errorFunctions(Program &P, int structIdx(const Function *)) {
  std::set<const Function *> r;
  for (bool ch = true; ch;) { ch = false;
    for (auto &x : P.info) { const Function *F = x.first; if (r.count(F)) continue;
      Type *t = F->getReturnType(); bool is = t->isIntegerTy(32);
      int ix = -1;
      if (auto *st = dyn_cast<StructType>(t)) { ix = structIdx(F); is = ix >= 0; }
      if (!is) continue;
      std::set<const Value *> seen; bool yes = false;
      std::function<void(const Value *)> walk = [&](const Value *v) {
        if (yes || !seen.insert(v).second) return;
        if (auto *a = dyn_cast<Argument>(v)) { if (a->getType()->isIntegerTy(32) && (a->getName() == "rc" || a->getName() == "err")) yes = true; return; }
        if (auto *k = dyn_cast<ConstantInt>(v)) { int64_t c = k->getSExtValue(); if (c <= -30400 && c >= -30800) yes = true; if (c == 22 || c == 5 || c == 12 || c == 38 || c == 61) yes = true; return; }
        if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) walk(o.get()); return; }
        if (auto *s = dyn_cast<SelectInst>(v)) { walk(s->getTrueValue()); walk(s->getFalseValue()); return; }
        if (auto *c = dyn_cast<CallBase>(v)) { auto *f = calleeOf(c); if (f && (r.count(f) || kLibcPos.count(f->getName().str()) || f->getName() == "log_if_error")) yes = true; return; }
        if (auto *l = dyn_cast<LoadInst>(v)) { if (auto *c = dyn_cast<CallBase>(l->getPointerOperand())) if (auto *f = calleeOf(c); f && f->getName() == "__errno_location") yes = true; if (!yes && l->getType()->isIntegerTy(32)) { StringRef kn = P.keyName(P.keyOf(P.staticExpr(l->getPointerOperand()), 4)); if (kn.ends_with(".err") || kn.ends_with(".error")) yes = true; } return; }
        if (auto *ev = dyn_cast<ExtractValueInst>(v)) { if (auto *c = dyn_cast<CallBase>(ev->getAggregateOperand())) if (auto *f = calleeOf(c); f && r.count(f)) yes = true; return; }
      };
      std::function<void(const Value *)> top = [&](const Value *v) {
        if (ix < 0) { walk(v); return; }
        while (auto *iv = dyn_cast<InsertValueInst>(v)) { if ((int)iv->getIndices()[0] == ix) { walk(iv->getInsertedValueOperand()); return; } v = iv->getAggregateOperand(); }
        if (auto *c = dyn_cast<CallBase>(v)) if (auto *f = calleeOf(c); f && r.count(f)) yes = true;
        if (auto *p = dyn_cast<PHINode>(v)) if (seen.insert(p).second) for (auto &o : p->incoming_values()) top(o.get());
      };
      for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue()) top(R->getReturnValue());
      if (yes) { r.insert(F); ch = true; }
    } }
  return r;
}
// which element of a two-element struct result is the error code (from the debug info of the return type)
int errIndex(const Function *F) {
  auto *SP = F->getSubprogram(); auto *st = dyn_cast<StructType>(F->getReturnType());
  if (!SP || !st || SP->getType()->getTypeArray().size() < 1) return -1;
  auto *c = dyn_cast_or_null<DICompositeType>(stripTD(SP->getType()->getTypeArray()[0])); if (!c) return -1;
  int i = 0;
  for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) { if (m->getName() == "err") { if ((unsigned)i < st->getNumElements() && st->getElementType(i)->isIntegerTy(32)) return i; return -1; } i++; }
  return -1;
}
struct ErrClient : Client {
  RuleOut *R; std::set<const Function *> errs; const Function *F = nullptr; bool sret = false;
  std::set<const Instruction *> sites, accepted; std::set<std::pair<const Instruction *, std::string>> bad; std::set<std::pair<const Instruction *, int64_t>> tolerated; const std::set<std::string> *aC, *aP, *aF; int64_t returns = 0;
  std::map<const Value *, const CallBase *> siteOf;
  bool trackKey(KeyId k) override { return false; }
  bool useAlias(const Function *f) override { return !errs.count(f); }
  bool keepFact(const Expr *e) override { return e->k == K_Opaque || (e->k == K_Op && e->op == Instruction::ExtractValue); }
  static const CallBase *site(const Expr *r) { while (r->k == K_Op || r->k == K_Inner) r = r->a; return dyn_cast_or_null<CallBase>(r->v); }
  bool neg(const Expr *r) { auto *c = site(r); auto *f = c ? calleeOf(c) : nullptr; return f && kLibcNeg.count(f->getName().str()); }
  bool failed(State &S, const Expr *r) { AbsVal v = E->abs(S, r); return true; }
  enum { Pending = 0x40000000 }; // other tags: the error was found equal to this code
  void sweep(State &S) {
    std::vector<std::pair<int, const Expr *>> add;
    for (auto i = S.aut.t.begin(); i != S.aut.t.end();) {
      const Expr *r = i->second; if ((i->first != Pending && !neg(r))) { ++i; continue; }
      AbsVal v = E->abs(S, r); int64_t c; bool drop;
      if (neg(r)) {
        drop = v.smin >= 0 || v.neq.count(-1) || v.neq.count(0xffffffffll);
        // the transferred count was found equal to the requested one
        if (!drop) for (auto &x : S.rels) { const Expr *o = x.first.first == r ? x.first.second : x.first.second == r ? x.first.first : nullptr; if (o && !o->isConst() && (x.second.um == 2 || x.second.sm == 2)) drop = true; }
      } else if ((drop = v.isConst(c)) && (int32_t)c != 0 && (int32_t)c != -1) add.push_back({(int)(int32_t)c, r});
      if (drop) i = S.aut.t.erase(i); else ++i;
    }
    for (auto &x : add) note(S, x.first, x.second);
  }
  // the error is known to be this particular code; codes accepted as an answer are not followed any further
  void note(State &S, int code, const Expr *r) {
    auto *C = site(r); auto *f = C ? calleeOf(C) : nullptr; std::string cn = f ? f->getName().str() : "?", tol = "=" + std::to_string(code);
    if (aP->count(F->getName().str() + ">" + cn + tol) || aC->count(cn + tol) || aC->count(tol)) { tolerated.insert({C, code}); return; }
    S.aut.t.insert({code, r});
  }
  std::map<const Instruction *, const Expr *> errnoLoads;
  void setErrno(State &S, const Instruction *I) { S.aut.set(7, (int64_t)I); }
  void onLoad(State &S, const Instruction *I, const Expr *ptr, KeyId key) override {
    auto *EC = ptr->k == K_Opaque ? dyn_cast_or_null<CallBase>(ptr->v) : nullptr; auto *ef = EC ? calleeOf(EC) : nullptr;
    if (ef && ef->getName() == "__errno_location" && I->getType()->isIntegerTy(32)) { errnoLoads[I] = P->field(ptr, 32, I, key); setErrno(S, I); }
  }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override {
    // errno compared equal with a particular code: the failure was looked at
    const Expr *en = nullptr; if (int64_t x = S.aut.get(7)) en = errnoLoads[(const Instruction *)x];
    int64_t ec;
    if (en && E->abs(S, en).isConst(ec) && ((int32_t)ec > 0 || (int32_t)ec == -1)) { std::vector<std::pair<int, const Expr *>> add; for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->first == Pending && neg(i->second)) { add.push_back({(int)ec, i->second}); i = S.aut.t.erase(i); } else ++i; for (auto &y : add) if (y.first != -1 /* errno is never -1 */) note(S, y.first, y.second); }
    sweep(S);
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f) return;
    bool is = errs.count(f) || kLibcNeg.count(f->getName().str()) || kLibcPos.count(f->getName().str());
    if (!is) return;
    auto i = S.env.find(C); if (i == S.env.end()) return;
    const Expr *r = i->second;
    if (auto *st = dyn_cast<StructType>(C->getType())) { int ix = errIndex(f); if (ix < 0) return; Expr e; e.k = K_Op; e.op = Instruction::ExtractValue; e.a = r; e.c = ix; e.w = 32; r = P->mk(e); }
    else if (r->k != K_Opaque) return; // alias of an argument etc.
    sites.insert(C);
    if (neg(r)) setErrno(S, nullptr);
    // the same site again: its previous result was overwritten without a decision
    for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->second == r || (i->first != Pending && site(i->second) == C)) i = S.aut.t.erase(i); else ++i;
    S.aut.t.insert({Pending, r});
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (E->contains(val, site(i->second))) i = S.aut.t.erase(i); else ++i;
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    // an error code given to a function that itself returns an error code (dbi_gone(), osal_ipclock_failed(), ...)
    // is converted by it: the new result is the one to follow from here on
    if (f && errs.count(f) && !S.aut.t.empty())
      for (auto &a : C->args()) { if (!a->getType()->isIntegerTy(32)) continue; const Expr *x = E->eval(S, a.get()); for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (E->contains(x, site(i->second))) i = S.aut.t.erase(i); else ++i; }
    return false;
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    returns++;
    sweep(S);
    for (auto &t : S.aut.t) {
      const Expr *r = t.second; auto *C = site(r);
      if (ret && C && E->contains(ret, C)) continue;
      bool isNeg = neg(r);
      State T = S;
      AbsVal v = AbsVal::top(r->w);
      if (isNeg) v = AbsVal::cst(r->w, -1); // the kernel's failure value else if (t.first != Pending) v = AbsVal::cst(r->w, t.first); else { v.neq.insert(0); v.neq.insert(r->w == 32 ? 0xffffffffll : -1); v.normalize(); }
      if (!E->assumeVal(T, r, v, 0)) continue;
      if (ret) {
        const Expr *q = ret;
        if (F->getReturnType()->isStructTy()) { int ix = errIndex(F); if (ix < 0) continue; Expr e; e.k = K_Op; e.op = Instruction::ExtractValue; const Expr *x = ret; const Expr *found = nullptr; while (x->k == K_Op && x->op == Instruction::InsertValue) { if ((int)x->c == ix) { found = x->b; break; } x = x->a; } if (!found) { e.a = x; e.c = ix; e.w = 32; found = P->mk(e); } q = found; if (E->contains(q, C)) continue; }
        else if (F->getReturnType()->isPointerTy()) { if (E->abs(T, q).isZero()) continue; }
        else if (F->getReturnType()->isIntegerTy(1) || F->getReturnType()->isIntegerTy(8)) continue;
        if (!F->getReturnType()->isPointerTy() && E->abs(T, q).nonZero()) continue;
      }
      auto *f = calleeOf(C); std::string cn = f ? f->getName().str() : "?";
      int64_t code = t.first; std::string tol; if (code != Pending) { tol = "=" + std::to_string((int32_t)code); }
      if (aC->count(cn) || aP->count(F->getName().str() + ">" + cn) || aF->count(F->getName().str())) { accepted.insert(C); continue; }
      if (bad.insert({C, tol}).second) {
        R->add("error-lost", C, F->getName().str() + ">" + cn + tol, (tol.empty() ? "the error result" : "the error " + tol.substr(1)) + " of " + cn + "() can get lost: " + F->getName().str() + "() may " + (ret ? "report success" : "return") + " after it failed", S.trace);
      }
    }
  }
};
static void readAccepted(const Options &O, std::set<std::string> &callee, std::set<std::string> &pair, std::set<std::string> &func) {
  std::ifstream in(O.dir + "errors_accepted.txt"); std::string l;
  while (std::getline(in, l)) { std::istringstream s(l); std::string k, n; if (!(s >> k >> n) || k[0] == '#') continue; (k == "callee" ? callee : k == "pair" ? pair : func).insert(n); }
}
RULE(C05) {
  std::set<std::string> aC, aP, aF; readAccepted(O, aC, aP, aF);
  if (aC.empty()) R.errors.push_back("errors_accepted.txt not readable");
  auto errs = errorFunctions(P, errIndex);
  std::vector<const Function *> todo;
  for (auto &x : P.info) { const Function *F = x.first; if (!O.arg.empty() && F->getName() != O.arg) continue; if (aF.count(F->getName().str())) continue; bool has = false; for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(C)) if (errs.count(f) || kLibcNeg.count(f->getName().str()) || kLibcPos.count(f->getName().str())) has = true; if (has) todo.push_back(F); }
  std::stable_sort(todo.begin(), todo.end(), [](const Function *a, const Function *b) { return a->getInstructionCount() > b->getInstructionCount(); });
  R.stats["error-returning-functions"] = errs.size();
  forkMap(R, todo.size(), [&](size_t i, RuleOut &r) {
    bool hit = false; unsigned disj = O.disj;
    for (int attempt = 0; attempt < 3; attempt++, disj = disj > 8 ? 6 : 2) {
      RuleOut t; ErrClient c; c.R = &t; c.errs = errs; c.F = todo[i]; c.aC = &aC; c.aP = &aP; c.aF = &aF; Engine E(P, c); E.maxDisj = disj; E.budget = attempt == 2 ? 4000000 : 1000000;
      E.run(todo[i], E.entryState(todo[i]));
      hit = E.budgetHit;
      if (hit && attempt < 2) { r.stats["reruns-with-coarser-states"]++; continue; }
      for (auto &f : t.findings) r.add(f);
      r.stats["functions"] = 1; r.stats["call-sites"] = c.sites.size(); r.stats["accepted-losses"] = c.accepted.size(); r.stats["tolerated-codes"] = c.tolerated.size(); r.stats["return-states"] = c.returns; r.stats["block_states"] = E.statesSeen;
      break;
    }
    if (hit) r.errors.push_back("analysis budget exhausted in " + todo[i]->getName().str());
  });
  if (O.arg.empty()) { R.need("error-returning-functions", R.stats["error-returning-functions"], 250); R.need("call-sites", R.stats["call-sites"], 800); R.need("functions", R.stats["functions"], 250); }
}
} // namespace va
