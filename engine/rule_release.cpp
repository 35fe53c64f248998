// C14: what a function acquired is released or owned by a handle whenever it returns; nothing is released twice.
#include "order_base.h"
namespace va {
namespace {
const char *kNew[] = {"malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "memalign", "valloc", "strdup", "strndup"};
const char *kFd[] = {"open", "open64", "openat", "memfd_create", "dup", "fopen", "opendir", "mkstemp"};
bool in(StringRef n, ArrayRef<const char *> l) { for (auto *x : l) if (n == x) return true; return false; }
using PSet = std::map<const Function *, std::set<unsigned>>;
// parameters of f which flow (by address arithmetic only) to v
const Argument *argOf(const Value *v) { for (;;) { if (auto *g = dyn_cast<GetElementPtrInst>(v)) { v = g->getPointerOperand(); continue; } return dyn_cast<Argument>(v); } }
struct Own : Base {
  std::set<const Function *> *src; PSet *frees, *frees1, *fields, *captures; std::set<const CallBase *> sites, rels, direct; const CallBase *only = nullptr; std::map<KeyId, std::string> *owned; std::set<KeyId> *relKeys; std::map<const Function *, std::set<std::pair<unsigned, uint64_t>>> *into;
  bool splitByResult() override { return !only; }
  bool trackKey(KeyId k) override { return !only && !P->keyName(k).starts_with("page"); }
  bool keepFact(const Expr *e) override { return !only; }
  bool isNew(const Function *f) { return f && (src->count(f) || (f->isDeclaration() && in(f->getName(), kNew))); }
  bool isFd(const Function *f) { return f && F->getName() != "osal_openfile" /* juggles with numbers of descriptors */ && f->isDeclaration() && in(f->getName(), kFd); }
  // tokens: 4*n+1 pointer or descriptor, +2 cell which holds it, +3 result that must be zero for it to be held; 0 = released
  std::map<const CallBase *, int> ids;
  int id(const CallBase *C) { auto i = ids.find(C); if (i != ids.end()) return i->second; int n = ids.size() + 1; ids[C] = n; return n; }
  const CallBase *site(int t) { for (auto &x : ids) if (x.second == t / 4) return x.first; return nullptr; }
  void dropId(State &S, int n) { for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->first / 4 == n && i->first >= 4) i = S.aut.t.erase(i); else ++i; }
  // everything held through n is owned by whoever owns n now
  void escape(State &S, int n, std::set<int> seen = {}) {
    if (!seen.insert(n).second) return; std::set<int> in;
    for (auto &x : S.aut.t) if (x.first / 4 == n && (x.first & 3) == 1) for (auto &y : S.aut.t) if (y.first >= 4 && y.first / 4 != n && (y.first & 3) == 2 && rootExpr(y.second) == x.second) in.insert(y.first / 4);
    for (int i : in) escape(S, i, seen); dropId(S, n);
  }
  void keep(const Expr *ptr) { // stored at this offset of a parameter
    int64_t o = 0; const Expr *p = ptr; while (p->k == K_Off) { o += p->c; p = p->a; }
    if (p->k == K_Param && o >= 0) (*into)[F].insert({cast<Argument>(p->v)->getArgNo(), (uint64_t)o});
  }
  bool simple(const Expr *e) { return !mentions(e, [&](const Expr *x) { return x->k == K_Opaque && (!x->v || isa<PHINode>(x->v) || x->c); }); }
  bool holds(const Expr *tok, int kind, const Expr *e) { if (kind == 1) return rootExpr(e) == tok; e = rootExpr(e); return kind == 2 && e->k == K_Field && e->a == tok; }
  std::set<int> match(State &S, const Expr *e) { std::set<int> r; for (auto &x : S.aut.t) if (x.first >= 4 && holds(x.second, x.first & 3, e)) r.insert(x.first / 4); return r; }
  void settleAll(State &S) {
    for (bool ch = true; ch;) { ch = false;
      for (auto &x : S.aut.t) if (x.first >= 4) { AbsVal v = E->abs(S, x.second); int k = x.first & 3, n = x.first / 4;
        auto *C = site(x.first); bool fd = C && isFd(calleeOf(C));
        if (k == 2) { bool nul = false; for (auto &y : S.facts) if (y.first->k == K_Field && y.first->a == x.second && y.first->w == 64 && y.second.isZero()) nul = true; if (nul) { dropId(S, n); ch = true; break; } }
        if ((k == 1 && v.isZero() && !(fd && x.second->w == 32)) || (k == 1 && fd && x.second->w == 32 && v.one >> 31 & 1) || (k == 3 && v.nonZero())) { dropId(S, n); ch = true; break; }
        if (k == 1 && fd && x.second->w == 32) { State T = S; if (!E->assumeCmp(T, CmpInst::ICMP_SGE, x.second, P->cst(32, 0))) { dropId(S, n); ch = true; break; } }
        if (k == 0 && v.isZero()) { escape(S, n); ch = true; break; }
        if ((k == 0 && v.nonZero()) || (k == 3 && v.isZero())) { S.aut.t.erase(x); ch = true; break; } } }
  }
  // what nobody else knows differs from everything else; a held descriptor is not -1
  int decideCond(State &S, const Expr *c) override {
    bool neg = false; while (c && c->k == K_Op && c->w == 1 && c->op == Instruction::Xor && c->b && c->b->k == K_Const && c->b->c) { neg = !neg; c = c->a; }
    if (!c || c->k != K_Op || c->op < OP_ICMP || c->op >= OP_SELECT) return -1; auto p = (CmpInst::Predicate)(c->op - OP_ICMP);
    if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) return -1;
    const Expr *x = c->a, *y = c->b;
    for (int i = 0; i < 2; i++, std::swap(x, y)) for (auto &t : S.aut.t) if (t.first >= 4) {
      bool ne = false; int k = t.first & 3;
      if (k == 1 && x->w == 64 && rootExpr(x) == t.second && y->k != K_Const && rootExpr(y) != t.second && E->abs(S, t.second).nonZero()) { ne = true; for (auto &u : S.aut.t) if (u.first == t.first + 1 && mentions(y, [&](const Expr *e) { return e == rootExpr(u.second); })) ne = false; }
      if (k == 2 && x->k == K_Field && x->a == t.second && y->k == K_Const && (y->c & 0xffffffff) == 0xffffffff && site(t.first) && calleeOf(site(t.first))->getName() == "osal_openfile" && none_of(S.aut.t, [&](auto &u) { return u.first == t.first + 1; })) ne = true;
      if (ne) return ((p == CmpInst::ICMP_NE) ? 1 : 0) ^ (neg ? 1 : 0);
    }
    return -1;
  }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override { if (!S.aut.t.empty()) settleAll(S); }
  void release(State &S, const CallBase *C, const Expr *e, bool sure) {
    if (sure) direct.insert(C);
    rels.insert(C); obligations++;
    if (rootExpr(e)->k == K_Field) relKeys->insert(rootExpr(e)->key);
    for (int n : match(S, e)) {
      if (sure) for (auto &x : S.aut.t) if (x.first >= 4 && x.first / 4 != n && (x.first & 3) == 2 && rootExpr(x.second) == rootExpr(e) && none_of(S.aut.t, [&](auto &u) { return u.first == x.first - 1 && E->abs(S, u.second).isZero(); })) {
        auto *A = site(x.first); unsigned l; locOf(A, &l); say("not-released", C, calleeOf(A)->getName().str() + "@inside", "releases something which still holds what was got from " + calleeOf(A)->getName().str() + "() (line " + std::to_string(l) + ")", S); break; }
      escape(S, n);
    }
    if (!sure || !only || E->abs(S, e).isZero() || !simple(e)) return;
    if (S.aut.t.count({0, e})) { say("released-twice", C, "release", "releases something again that it released before", S); return; }
    if (C == only) S.aut.t.insert({0, e});
  }
  std::vector<std::pair<const CallBase *, int>> pend; // given to a function which may keep it: only if it succeeds
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    pend.clear();
    if (!f) { for (auto &a : C->args()) if (a->getType()->isPointerTy()) for (int n : match(S, E->eval(S, a.get()))) escape(S, n); return false; }
    StringRef n = f->getName(); auto arg = [&](unsigned i) { return E->eval(S, C->getArgOperand(i)); };
    if (f->isDeclaration() && (n == "free" || n == "close" || n == "fclose" || n == "closedir")) { release(S, C, arg(0), n != "close" || true); return false; }
    if (f->isDeclaration() && (n == "realloc" || n == "reallocarray")) { for (int k : match(S, arg(0))) dropId(S, k); if (arg(0)->k == K_Field) relKeys->insert(arg(0)->key); return false; }
    for (unsigned i = 0; i < C->arg_size(); i++) {
      const Expr *a = arg(i); auto hit = [&](PSet *p) { auto d = p->find(f); return d != p->end() && d->second.count(i); };
      if (hit(frees)) release(S, C, a, hit(frees1));
      else if (hit(captures) && !f->doesNotReturn()) for (int k : match(S, a)) { if (C->getType()->isIntegerTy(32)) pend.push_back({C, k}); else escape(S, k); }
      if (hit(fields) && a->w == 64) { const Expr *r = rootExpr(a); std::vector<int> dr; for (auto &x : S.aut.t) if ((x.first & 3) == 2 && x.first >= 4 && rootExpr(x.second) == r) dr.push_back(x.first / 4); for (int k : dr) dropId(S, k); }
    }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!f) return; StringRef n = f->getName();
    for (auto &p : pend) if (p.first == C) { auto i = S.env.find(C); if (i == S.env.end()) escape(S, p.second); else S.aut.t.insert({4 * p.second, i->second}); } if (!pend.empty()) settleAll(S);
    if (only) { if (auto i = S.env.find(C); i != S.env.end()) { std::vector<std::pair<int, const Expr *>> old; for (auto &x : S.aut.t) if (rootExpr(x.second) == i->second) old.push_back(x); for (auto &x : old) S.aut.t.erase(x); } return; }
    if (isNew(f) || isFd(f)) {
      auto i = S.env.find(C); if (i == S.env.end()) return; sites.insert(C); dropId(S, id(C));
      S.aut.t.insert({4 * id(C) + 1, i->second}); E->note(S, C, "acquired by " + n.str() + "()"); settleAll(S); return;
    }
    if (!only) if (auto d = into->find(f); d != into->end()) for (auto &io : d->second) if (io.first < C->arg_size()) { const Expr *a = E->eval(S, C->getArgOperand(io.first)); auto i = S.env.find(C);
      if (rootExpr(a)->k != K_Alloca || i == S.env.end() || !C->getType()->isIntegerTy(32)) continue; sites.insert(C); dropId(S, id(C)); S.aut.t.insert({4 * id(C) + 2, P->off(a, io.second)}); S.aut.t.insert({4 * id(C) + 3, i->second}); settleAll(S); }
    int out = n == "posix_memalign" ? 0 : n == "osal_memalign_alloc" ? 2 : n == "osal_openfile" ? 3 : -1;
    if (out >= 0 && !only) { const Expr *p = E->eval(S, C->getArgOperand(out)); auto i = S.env.find(C);
      sites.insert(C); dropId(S, id(C));
      if (rootExpr(p)->k == K_Alloca) { S.aut.t.insert({4 * id(C) + 2, p}); if (i != S.env.end()) S.aut.t.insert({4 * id(C) + 3, i->second}); settleAll(S); }
      else (*owned)[P->keyOf(p, n == "osal_openfile" ? 4 : 8)] = F->getName().str();
    }
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override {
    used(S, I, ptr); if (!val) return;
    for (int n : match(S, val)) {
      if (match(S, ptr).count(n)) continue; // into itself
      if (rootExpr(ptr)->k == K_Alloca || any_of(S.aut.t, [&](auto &x) { return x.first >= 4 && (x.first & 3) == 1 && x.second == rootExpr(ptr); })) { S.aut.t.insert({4 * n + 2, ptr}); (*owned)[k] = F->getName().str(); continue; }
      // owned by what it was stored to, unless that is itself held here
      escape(S, n); (*owned)[k] = F->getName().str(); keep(ptr);
    }
  }
  void onLoad(State &S, const Instruction *I, const Expr *ptr, KeyId) override { used(S, I, ptr); }
  void used(State &S, const Instruction *I, const Expr *ptr) {
    const Expr *r = rootExpr(ptr); if (r->w != 64 || !S.aut.t.count({0, r})) return;
    say("used-after-release", I, "use", "uses memory that it released before", S);
  }
  void onReturn(State &S0, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; State S = S0; settleAll(S); events++;
    std::set<int> done; for (auto &x : S.aut.t) if (x.first >= 4 && (x.first & 3) == 0) done.insert(x.first / 4); // the outcome is not known here
    for (auto &x : S.aut.t) { int n = x.first / 4; if (!n || done.count(n)) continue;
      if (ret && mentions(ret, [&](const Expr *e) { return e == x.second || (e->k == K_Field && (x.first & 3) == 2 && e->a == x.second); })) { done.insert(n); } }
    for (bool ch = true; ch;) { ch = false; for (auto &x : S.aut.t) if (x.first >= 4 && (x.first & 3) == 1 && done.count(x.first / 4)) for (auto &y : S.aut.t) if (y.first >= 4 && (y.first & 3) == 2 && rootExpr(y.second) == x.second && done.insert(y.first / 4).second) ch = true; }
    if (ret && F->getReturnType()->isAggregateType()) for (auto &x : S.aut.t) if ((x.first & 3) == 2) done.insert(x.first / 4); // in the structure answered
    for (auto &x : S.aut.t) { int n = x.first / 4; if (!n || done.count(n)) continue; done.insert(n);
      auto *C = site(x.first); unsigned l; locOf(C, &l);
      say("not-released", Rt, calleeOf(C)->getName().str() + "@", "returns without having released what it got from " + calleeOf(C)->getName().str() + "() (line " + std::to_string(l) + ")", S); }
  }
};
struct Closer : Base {
  PSet *frees, *fields; std::vector<std::pair<std::string, uint64_t>> res; std::set<std::string> seen; bool opener = false; int64_t marks = 0;
  bool splitByResult() override { return opener; }
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return opener ? n.starts_with("$") : n.starts_with("MDBX_env.") || n.starts_with("MDBX_txn.wr") || n.starts_with("osal_mmap"); }
  bool keepFact(const Expr *e) override { return !opener && e->k == K_Param; }
  int decideCond(State &S, const Expr *c) override {
    if (F->getName() != "env_close") return -1; bool neg = false;
    for (int i = 0; i < 12 && c; i++) {
      if (c->k == K_Param) return c->v == F->getArg(1) ? (neg ? 1 : 0) : -1;
      if (c->k != K_Op) return -1;
      if (c->op == Instruction::ZExt || c->op == Instruction::SExt || c->op == Instruction::Trunc) { c = c->a; continue; }
      if (c->op == Instruction::Xor && c->b && c->b->k == K_Const && (c->b->c & 1)) { neg = !neg; c = c->a; continue; }
      if (c->op == Instruction::And && c->b && c->b->k == K_Const && c->b->c == 1) { c = c->a; continue; }
      if (c->op >= OP_ICMP && c->op < OP_SELECT && c->b->k == K_Const && c->b->c == 0) { auto p = (CmpInst::Predicate)(c->op - OP_ICMP); if (p == CmpInst::ICMP_EQ) neg = !neg; else if (p != CmpInst::ICMP_NE) return -1; c = c->a; continue; }
      return -1;
    }
    return -1;
  }
  bool loads(State &S, const Expr *r, size_t i) { auto *L = dyn_cast_or_null<LoadInst>(r->v); if (!L) return false; APInt o(64, 0); const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(P->M->getDataLayout(), o, true); return b == F->getArg(0) && o.getZExtValue() == res[i].second; } // merged from several paths
  const Expr *addr(size_t i) { return P->off(param(0), res[i].second); }
  void mark(State &S, size_t i) { S.aut.set(10 + i, 1); seen.insert(res[i].first); marks++; }
  void onEdge(State &S, const BasicBlock *f, const BasicBlock *t) override {
    if (opener) return; 
    const Expr *x, *y; CmpInst::Predicate p; // a list which is still the one inside
    if (edgeCmp(S, f, t, x, y, p) && p == CmpInst::ICMP_EQ) for (int k = 0; k < 2; k++, std::swap(x, y)) for (size_t i = 0; i < res.size(); i++) if (StringRef(res[i].first).ends_with(".list") && x->k == K_Field && x->a == addr(i) && rootExpr(y) == param(0)) S.aut.set(10 + i, 1);
    for (size_t i = 0; i < res.size(); i++) if (!S.aut.get(10 + i)) for (auto &x : S.facts) if (x.first->k == K_Field && x.first->a == addr(i)) { int64_t c; if (x.second.isConst(c) && (c == 0 || (int32_t)c == -1)) mark(S, i); }
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) return false; StringRef n = f->getName();
    if (opener) { if (C->arg_size() && E->eval(S, C->getArgOperand(0)) == param(0)) { if (n == "env_close") S.aut.set(1, 2); else if (n == "env_handle_pathname" || n == "env_open") S.aut.set(1, 1); } return false; }
    if (n == "env_close" && C->arg_size() && E->eval(S, C->getArgOperand(0)) == param(0)) S.aut.set(1, 1);
    for (unsigned j = 0; j < C->arg_size(); j++) { const Expr *a = E->eval(S, C->getArgOperand(j)), *r = rootExpr(a);
      bool fr = n == "free" || n == "close" || n == "osal_closefile" || (frees->count(f) && (*frees)[f].count(j)), de = fr || (fields->count(f) && (*fields)[f].count(j)) || n == "osal_munmap" || n == "rthc_remove" || n == "osal_ioring_destroy" || n == "rkl_destroy";
      for (size_t i = 0; i < res.size(); i++) {
        StringRef rn = res[i].first;
        if (rn == "itself") { if (fr && a == param(0)) mark(S, i); }
        else if (rn == "registration") { if (n == "rthc_remove" && a == param(0)) mark(S, i); }
        else if (fr && ((r->k == K_Field && r->a == addr(i)) || (r->k == K_Opaque && loads(S, r, i)))) mark(S, i);
        else if (de && a == addr(i) && a != param(0)) mark(S, i);
        else if (rn == "dirtylist" && n == "txn_dpl_free" && a == param(0)) mark(S, i);
        else if (rn == "kvs" && fr && mentions(a, [&](const Expr *e) { return e->k == K_Field && e->a == addr(i); }) && !(r->k == K_Field && r->a == addr(i))) seen.insert("names");
      } }
    return false;
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return; events++;
    if (opener) { obligations++; if (S.aut.get(1) == 1 && ret) { AbsVal v = E->abs(S, ret); if (v.nonZero()) say("not-released", Rt, "open", "returns an error without having closed what it opened so far", S); } return; }
    for (size_t i = 0; i < res.size(); i++) { if (res[i].first == "itself" && F->getName() != "txn_basal_destroy" && S.aut.get(1) != 1) continue; obligations++;
      if (!S.aut.get(10 + i)) say("not-released", Rt, res[i].first, "returns without having released " + res[i].first, S); }
  }
};
} // namespace
RULE(C14) {
  // functions answering a fresh block
  std::set<const Function *> src; PSet frees, frees1, fields, captures;
  auto ext = [&](const Function *f, ArrayRef<const char *> l) { return f && f->isDeclaration() && in(f->getName(), l); };
  for (bool ch = true; ch;) { ch = false;
    for (auto &x : P.info) { const Function *F = x.first; if (src.count(F) || !F->getReturnType()->isPointerTy()) continue;
      // every value returned is null or fresh
      std::set<const Value *> seen; std::vector<const Value *> wl; bool hit = false, other = false;
      for (auto &B : *F) if (auto *Rt = dyn_cast<ReturnInst>(B.getTerminator())) wl.push_back(Rt->getReturnValue());
      while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
        if (isa<ConstantPointerNull>(v)) continue;
        if (auto *C = dyn_cast<CallBase>(v)) { auto *f = calleeOf(C); if (ext(f, kNew) || src.count(f)) hit = true; else other = true; }
        else if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) wl.push_back(o.get());
        else if (auto *s = dyn_cast<SelectInst>(v)) { wl.push_back(s->getTrueValue()); wl.push_back(s->getFalseValue()); }
        else if (auto *g = dyn_cast<GetElementPtrInst>(v)) wl.push_back(g->getPointerOperand()); else other = true; }
      for (auto &I : instructions(*F)) if (auto *St = dyn_cast<StoreInst>(&I)) { // kept by somebody else already
        const Value *v = St->getValueOperand(); while (auto *g = dyn_cast<GetElementPtrInst>(v)) v = g->getPointerOperand();
        if (seen.count(v) && !isa<Constant>(v) && !isa<AllocaInst>(St->getPointerOperand()->stripInBoundsOffsets())) other = true; }
      if (hit && !other) { src.insert(F); ch = true; } } }
  for (bool ch = true; ch;) { ch = false;
    for (auto &x : P.info) { const Function *F = x.first;
      auto add = [&](PSet &s, unsigned i) { if (s[F].insert(i).second) ch = true; };
      for (auto &I : instructions(*F)) {
        if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C);
          for (unsigned i = 0; i < C->arg_size(); i++) { auto *v = C->getArgOperand(i); if (!v->getType()->isPointerTy()) continue;
            bool fr = (ext(f, {"free", "realloc", "reallocarray", "fclose", "closedir"}) && i == 0) || (f && frees.count(f) && frees[f].count(i));
            auto *A = argOf(v);
            if (A && fr) add(frees, A->getArgNo());
            if (A && v == A && fr && C->getParent() == &F->getEntryBlock()) add(frees1, A->getArgNo());
            if (A && f && fields.count(f) && fields[f].count(i)) add(fields, A->getArgNo());
            if (fr) if (auto *L = dyn_cast<LoadInst>(v)) if (auto *B = argOf(L->getPointerOperand())) add(fields, B->getArgNo());
          } }
      }
      for (auto &A : F->args()) { if (!A.getType()->isPointerTy() || captures[F].count(A.getArgNo())) continue; // stored somewhere, answered, or handed to such a function
        std::vector<const Value *> wl{&A}; std::set<const Value *> seen; bool cap = false;
        while (!wl.empty() && !cap) { auto *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
          for (auto *u : v->users()) {
            if (isa<GetElementPtrInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) wl.push_back(u);
            else if (isa<PtrToIntInst>(u) || isa<ReturnInst>(u)) cap = true;
            else if (auto *S = dyn_cast<StoreInst>(u)) { if (S->getValueOperand() == v) { const Value *b = S->getPointerOperand()->stripInBoundsOffsets(); if (!seen.count(b)) cap = true; } }
            else if (auto *C = dyn_cast<CallBase>(u)) { auto *f = calleeOf(C); if (C->isInlineAsm()) continue;
              for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == v && (f ? captures.count(f) && captures[f].count(i) && !f->doesNotReturn() : false)) { cap = true; if (getenv("C14DBG")) errs() << "cap " << F->getName() << " " << A.getArgNo() << " via " << (f ? f->getName() : "indirect") << "\n"; } } } }
        if (cap) add(captures, A.getArgNo()); }
    } }
  std::map<KeyId, std::string> owned; std::set<KeyId> relKeys; int64_t fns = 0, sites = 0, rels = 0, obl = 0, rets = 0, pairs = 0;
  std::map<const Function *, std::set<std::pair<unsigned, uint64_t>>> into;
  for (int pass = 0; pass < 2; pass++) for (auto &x : P.info) { const Function *F = x.first; bool has = false;
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (!f) continue; auto n = f->getName();
      if (ext(f, kNew) || ext(f, kFd) || src.count(f) || n == "osal_memalign_alloc" || n == "posix_memalign" || n == "osal_openfile" || ext(f, {"free", "close", "fclose"}) || frees.count(f)) has = true; }
    if (!has) continue; bool acq = false;
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (!f) continue; auto n = f->getName(); if (ext(f, kNew) || ext(f, kFd) || src.count(f) || into.count(f) || n == "osal_memalign_alloc" || n == "posix_memalign" || n == "osal_openfile") acq = true; }
    if (!acq && !pass) continue; RuleOut R0; RuleOut &Ro = pass ? R : R0;
    Own c; Engine E(P, c); E.maxDisj = O.disj; c.R = &Ro; c.F = F; c.src = &src; c.frees = &frees; c.frees1 = &frees1; c.fields = &fields; c.captures = &captures; c.owned = &owned; c.relKeys = &relKeys; c.into = &into;
    if (getenv("C14DBG")) errs() << F->getName() << "\n";
    if (acq) E.run(F, State());
    if (E.budgetHit) R.errors.push_back("budget exhausted in " + F->getName().str());
    if (!pass) continue;
    std::set<const CallBase *> direct; for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (ext(f, {"free", "fclose", "closedir", "close"}) || (f && frees1.count(f))) direct.insert(C); }
    if (getenv("C14DBG")) errs() << direct.size() << " direct\n";
    if (direct.size() > 1 || F->getName().contains("free")) for (auto *D : direct) {
      Own d; Engine G(P, d); G.maxDisj = 8; d.only = D; d.R = &R; d.F = F; d.src = &src; d.frees = &frees; d.frees1 = &frees1; d.fields = &fields; d.captures = &captures; d.owned = &owned; d.relKeys = &relKeys; d.into = &into;
      if (getenv("C14DBG")) errs() << "  one\n"; G.run(F, State()); if (G.budgetHit) R.errors.push_back("budget exhausted in " + F->getName().str()); pairs++;
    }
    fns++; sites += c.sites.size(); rels += c.rels.size(); obl += c.obligations; rets += c.events;
    R.sample(F->getName().str() + ": " + std::to_string(c.sites.size()) + " acquired, " + std::to_string(c.rels.size()) + " released", 40);
  }
  // the functions which end the life of an environment or of its basal transaction release everything these own
  int64_t closers = 0, cob = 0;
  auto closer = [&](const char *fn, bool opener, std::vector<std::string> names) {
    Function *F = P.M->getFunction(fn); if (!F || F->isDeclaration()) { R.errors.push_back(std::string("function gone: ") + fn); return; }
    Closer c; Engine E(P, c); E.maxDisj = O.disj; c.R = &R; c.F = F; c.frees = &frees; c.fields = &fields; c.opener = opener;
    auto so = [&](const char *st, StringRef m) { bool ok; auto i = P.structs.find(st); uint64_t o = memberOff(i == P.structs.end() ? nullptr : i->second, m, ok); return ok ? o : ~0ull; };
    const char *st = StringRef(fn).starts_with("txn") ? "MDBX_txn" : "MDBX_env";
    for (auto &n : names) { uint64_t o = ~0ull;
      if (n == "itself" || n == "registration") o = 0;
      else if (n.find(':') != std::string::npos) { auto p = StringRef(n).split(':'); uint64_t a = so(st, p.first), b = so("osal_mmap", p.second); if (a != ~0ull && b != ~0ull) o = a + b; }
      else { // nested members by name
        auto i = P.structs.find(st); const DICompositeType *ct = i == P.structs.end() ? nullptr : i->second; uint64_t acc = 0; bool ok = true; StringRef rest = n;
        while (!rest.empty() && ok) { auto p = rest.split('.'); acc += memberOff(ct, p.first, ok); rest = p.second; if (rest.empty() || !ok) break;
          const DICompositeType *nx = nullptr; std::function<void(const DICompositeType *)> find = [&](const DICompositeType *t) { if (t) for (auto *e : t->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) { if (m->getName() == p.first) nx = dyn_cast_or_null<DICompositeType>(stripTD(m->getBaseType())); else if (m->getName().empty()) find(dyn_cast_or_null<DICompositeType>(stripTD(m->getBaseType()))); } };
          find(ct); ct = nx; ok = ct; }
        if (ok) o = acc; }
      if (o == ~0ull) { R.errors.push_back("member gone: " + n); continue; }
      StringRef sh = n; c.res.push_back({sh.ends_with("dirtylist") ? "dirtylist" : n, o}); }
    State S; if (std::string(fn) == "env_close") E.assumeCmp(S, CmpInst::ICMP_EQ, c.param(1), P.cst(F->getArg(1)->getType()->getIntegerBitWidth(), 0));
    E.run(F, S); if (E.budgetHit) R.errors.push_back(std::string("budget exhausted in ") + fn);
    closers++; cob += c.obligations; if (!c.events) R.errors.push_back(std::string("no return seen in ") + fn);
    for (auto &r : c.res) if (!c.seen.count(r.first)) { Finding f; f.rule = "not-released"; f.func = fn; f.inst = std::string(fn) + ":" + r.first; f.line = 0; f.msg = std::string(fn) + "() never releases " + r.first; R.add(f); }
    if (std::string(fn) == "env_close") for (auto *x : {"names"}) if (!c.seen.count(x)) { Finding f; f.rule = "not-released"; f.func = fn; f.inst = std::string(fn) + ":" + x; f.line = 0; f.msg = std::string(fn) + "() never releases the names of the tables"; R.add(f); }
  };
  closer("env_close", false, {"registration", "lck_mmap:lck", "dxb_mmap:base", "dsync_fd", "dxb_mmap:fd", "lck_mmap:fd", "kvs", "page_auxbuf", "dbi_seqs", "dbs_flags", "pathname.buffer", "basal_txn"});
  closer("mdbx_env_close_ex", false, {"itself"});
  closer("txn_basal_destroy", false, {"itself", "wr.dirtylist", "wr.gc.reclaimed.list", "wr.gc.ready4reuse.list", "wr.gc.comeback.list", "wr.retired_pages", "wr.spilled.list", "wr.repnl"});
  closer("mdbx_env_open", true, {});
  R.need("closing_functions", closers, 4); R.need("closing_obligations", cob, 20);
  // each member which ever owns something is released somewhere; reviewed: the list of issues is released by walking it, the checker's own state through a local, the descriptor of /dev/null is kept for the process
  static const char *kNoRel[] = {"MDBX_chk_scope.issues", "MDBX_chk_context.internal", "@osal_safe_peek_uint32.nullfd"}; int64_t own = 0;
  for (auto &o : owned) { StringRef n = P.keyName(o.first); own++; if (relKeys.count(o.first) || in(n, kNoRel)) continue;
    Finding f; f.rule = "owned-never-released"; f.func = o.second; f.inst = n.str(); f.line = 0; f.msg = o.second + "() leaves a resource in " + n.str() + ", but nothing releases what is stored there"; R.add(f); }
  R.need("owning_members", own, 15);
  for (auto &o : owned) R.sample("owned: " + P.keyName(o.first).str() + " by " + o.second + (relKeys.count(o.first) ? " (released)" : " (NO release)"), 200);
  R.need("functions", fns, 10); R.need("acquisitions", sites, 10); R.need("releases", rels, 10); R.stats["obligations"] = obl; R.stats["returns"] = rets; R.stats["release_sites_followed"] = pairs;
}
}
