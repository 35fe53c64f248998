// C13: error messages, exception mapping, options and cursor requests (tables of the API).
#include "rules.h"
#include "llvm/Demangle/Demangle.h"
#include <fstream>
#include <sstream>
namespace va {
struct Spec { std::map<std::string, std::string> thr, nomsg; std::map<std::string, std::set<std::string>> nav; };
static Spec readSpec(const Options &O, RuleOut &R) {
  Spec s; std::ifstream f(O.dir + "tables.txt"); std::string l;
  if (!f) R.errors.push_back("tables.txt is missing");
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream i(l); std::string k, a, b; i >> k >> a;
    if (k == "throw") { i >> b; s.thr[a] = b; }
    else if (k == "nomsg") { s.nomsg[a] = l; }
    else if (k == "nav") { auto &v = s.nav[a]; while (i >> b) v.insert(b); }
  }
  return s;
}
static std::map<std::string, int64_t> enumOf(Program &P, StringRef name, StringRef witness) {
  DebugInfoFinder F; F.processModule(*P.M);
  std::map<std::string, int64_t> r;
  auto take = [&](const DICompositeType *c) {
    if (c->getTag() != dwarf::DW_TAG_enumeration_type) return;
    bool has = false;
    for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) if (x->getName() == witness) has = true;
    if (has) for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) r[x->getName().str()] = x->getValue().getSExtValue();
  };
  for (auto *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) take(c);
  for (auto *CU : F.compile_units()) for (auto *e : CU->getEnumTypes()) take(e);
  return r;
}
static std::string strOf(const Expr *e) {
  if (e->k != K_Global) return "";
  auto *G = dyn_cast<GlobalVariable>(e->v);
  if (!G || !G->hasInitializer()) return "";
  auto *d = dyn_cast<ConstantDataSequential>(G->getInitializer());
  return d && d->isCString() ? d->getAsCString().str() : "";
}
struct RetClient : Client {
  std::vector<std::pair<const Expr *, AbsVal>> rets; std::vector<const ReturnInst *> at;
  void onReturn(State &S, const ReturnInst *R, const Expr *ret) override { if (!E->stack.empty() || !ret) return; rets.push_back({ret, E->abs(S, ret)}); at.push_back(R); }
};
static void addAt(RuleOut &R, const Function *F, const char *rule, const std::string &inst, const std::string &msg) {
  Finding f; f.rule = rule; f.inst = inst; f.msg = msg; f.func = F->getName().str();
  auto *SP = F->getSubprogram(); f.line = SP ? SP->getLine() : 0; f.file = SP ? SP->getFilename().str() : "?";
  f.file = f.file.substr(f.file.find_last_of('/') == std::string::npos ? 0 : f.file.find_last_of('/') + 1); R.add(f);
}
// ------------------------------------------------------------------- options
struct OptClient : Client {
  bool setter = false; const Value *valueParam = nullptr, *outParam = nullptr;
  bool ok = false; std::map<KeyId, bool> stored; std::set<KeyId> loaded;
  std::map<const Value *, std::vector<const Expr *>> callArgs;
  bool trackKey(KeyId k) override { return false; }
  void walk(const Expr *e, std::function<void(const Expr *)> f, int d = 0) {
    if (!e || d > 12) return; f(e);
    if (e->k == K_Opaque) { auto i = callArgs.find(e->v); if (i != callArgs.end()) for (auto *a : i->second) if (a != e) walk(a, f, d + 1); }
    if (e->k == K_Field) return;
    walk(e->a, f, d + 1); walk(e->b, f, d + 1);
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    auto &v = callArgs[C]; v.clear(); for (auto &A : C->args()) v.push_back(E->eval(S, A));
    return false;
  }
  void onInst(State &S, const Instruction *I) override { if (auto *Ph = dyn_cast<PHINode>(I)) (void)Ph; }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId k, const Expr *val) override {
    const Expr *r = rootExpr(ptr);
    if (r->k == K_Alloca) return;
    if (setter) {
      bool dep = false;
      walk(val, [&](const Expr *e) { if (e->k == K_Param && e->v == valueParam) dep = true; });
      stored[k] |= dep;
    } else if (ptr->k == K_Param && ptr->v == outParam)
      walk(val, [&](const Expr *e) { if (e->k == K_Field && rootExpr(e->a)->k != K_Alloca) loaded.insert(e->key); });
  }
  void onReturn(State &S, const ReturnInst *R, const Expr *ret) override { if (E->stack.empty() && ret && decide0(S, ret)) ok = true; }
  bool decide0(State &S, const Expr *r) { AbsVal v = E->abs(S, r); return !v.nonZero(); }
};
// ------------------------------------------------------------ cursor requests
struct NavClient : Client {
  std::map<std::string, const Instruction *> steps; std::set<int64_t> rets; bool anyRet = false;
  const Value *keyP = nullptr; std::map<int64_t, std::string> opName; std::set<std::string> universe;
  std::map<std::string, bool> nullKey;
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (!f) { const Expr *e = E->eval(S, C->getCalledOperand()); if (e->k == K_Global) f = dyn_cast<Function>(e->v); }
    if (!f || !universe.count(f->getName().str())) return false;
    std::string n = f->getName().str(), s = n;
    if (n == "cursor_seek" || n == "outer_next" || n == "outer_prev") {
      const Expr *op = E->eval(S, C->getArgOperand(C->arg_size() - 1)); int64_t c;
      AbsVal v = E->abs(S, op);
      s += ":" + (v.isConst(c) ? opName.count(c) ? opName[c] : std::to_string(c) : std::string("?"));
      const Expr *k = E->eval(S, C->getArgOperand(n == "cursor_seek" && C->arg_size() > 4 ? 2 : 1));
      if (n == "cursor_seek" && k->k == K_Param && !E->abs(S, k).nonZero()) nullKey[s] = true;
    }
    steps.insert({s, C});
    return false;
  }
  void onReturn(State &S, const ReturnInst *R, const Expr *ret) override { if (!E->stack.empty() || !ret) return; anyRet = true; AbsVal v = E->abs(S, ret); int64_t c; rets.insert(v.isConst(c) ? (int64_t)(int32_t)c : INT64_MAX); }
};
RULE(C13) {
  Spec sp = readSpec(O, R);
  // (a) message texts
  auto errs = enumOf(P, "MDBX_error", "MDBX_KEYEXIST");
  R.need("error_codes", errs.size(), 40);
  const Function *F = P.fn("mdbx_liberr2str");
  int64_t texts = 0;
  if (!F) R.errors.push_back("mdbx_liberr2str is gone");
  else {
    std::map<std::string, std::string> seen;
    for (auto &e : errs) {
      if (e.second >= -1 && e.second != 0) continue; // system error numbers and the two booleans
      StringRef n = e.first;
      if (n.contains("_LMDB_ERRCODE") || n.contains("_ADDED_ERRCODE") || n == "MDBX_RESULT_FALSE") continue; // aliases
      RetClient c; Engine E(P, c); State S; S.env[F->getArg(0)] = P.cst(32, e.second);
      E.run(F, S);
      std::string t; bool bad = c.rets.empty();
      for (auto &r : c.rets) { std::string x = strOf(r.first); if (x.empty()) bad = true; else t = x; }
      if (sp.nomsg.count(e.first)) continue;
      texts++;
      if (bad) { addAt(R, F, "error-code-without-text", e.first, "the declared error code " + e.first + " has no message text of its own"); continue; }
      R.sample(e.first + " -> \"" + t.substr(0, 50) + "\"");
      std::string pre = t.substr(0, t.find(':'));
      if (errs.count(pre) && errs[pre] != e.second) addAt(R, F, "message-of-another-code", e.first, "the text for " + e.first + " names " + pre);
      if (seen.count(t)) addAt(R, F, "message-not-distinct", e.first, e.first + " and " + seen[t] + " have the same text");
      seen[t] = e.first;
    }
    // mdbx_strerror*() must hand that text out
    for (const char *w : {"mdbx_strerror", "mdbx_strerror_r"}) {
      const Function *W = P.fn(w); if (!W) { R.errors.push_back(std::string(w) + " is gone"); continue; }
      struct SC : RetClient { const Function *L; const Value *arg; bool called = false, bad = false;
        bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override { if (f == L) { called = true; const Expr *a = E->eval(S, C->getArgOperand(0)); if (a->k != K_Param || a->v != arg) bad = true; } return false; } 
        bool descend(const Function *f) override { return false; } } c;
      c.L = F; c.arg = W->getArg(0); Engine E(P, c); E.run(W, State());
      bool passes = c.called && !c.bad;
      // on the path where the table has a text, exactly that text is returned
      const Function *WW = W;
      struct RC : SC { int paths = 0; bool wrong = false;
        void onReturn(State &S, const ReturnInst *R, const Expr *ret) override { if (!E->stack.empty() || !ret) return; const Expr *l = nullptr; for (auto &x : S.facts) if (x.first->k == K_Opaque) if (auto *cb = dyn_cast_or_null<CallBase>(x.first->v)) if (calleeOf(cb) == L && x.second.nonZero()) l = x.first; if (!l) return; paths++; if (ret != l) wrong = true; } } c2;
      c2.L = F; c2.arg = W->getArg(0); Engine E2(P, c2); E2.run(WW, State());
      if (!passes || c2.wrong || !c2.paths) addAt(R, W, "text-not-returned", w, "the text found for an error code is not what the function returns");
      texts++;
    }
  }
  R.need("message_texts_checked", texts, 36);
  // (c) options
  auto opts = enumOf(P, "MDBX_option", "MDBX_opt_max_db");
  const Function *G = P.fn("mdbx_env_get_option"), *St = P.fn("mdbx_env_set_option");
  int64_t nopt = 0;
  if (!G || !St) R.errors.push_back("option functions are gone");
  else {
    int64_t top = 0; for (auto &o : opts) top = std::max(top, o.second);
    opts["(undeclared)"] = top + 1;
    std::map<std::set<KeyId>, std::string> byField;
    for (auto &o : opts) {
      OptClient g, s;
      { Engine E(P, g); g.outParam = G->getArg(2); State S; S.env[G->getArg(1)] = P.cst(32, o.second); E.run(G, S); }
      { Engine E(P, s); s.setter = true; s.valueParam = St->getArg(2); State S; S.env[St->getArg(1)] = P.cst(32, o.second); E.run(St, S); }
      nopt++;
      if (o.first == "(undeclared)") { if (g.ok || s.ok) addAt(R, g.ok ? G : St, "undeclared-option-accepted", o.first, "an option number beyond the declared ones is accepted"); continue; }
      if (!g.ok) addAt(R, G, "option-not-readable", o.first, "no path of the getter succeeds for " + o.first);
      if (!s.ok) addAt(R, St, "option-not-settable", o.first, "no path of the setter succeeds for " + o.first);
      std::set<KeyId> fields, hit; std::string names;
      for (auto k : g.loaded) { StringRef n = P.keyName(k); if (n.ends_with(".ps") || n.ends_with(".ps2ln") || n.ends_with(".lck")) continue; fields.insert(k); names += (names.empty() ? "" : ",") + n.str(); if (s.stored.count(k) && s.stored[k]) hit.insert(k); }
      if (!g.ok) continue;
      if (getenv("VT_DEBUG")) { outs() << o.first << " get:" << names << " set:"; for (auto &k : s.stored) outs() << P.keyName(k.first) << (k.second ? "+" : "") << ","; outs() << "\n"; }
      if (fields.empty()) addAt(R, G, "option-value-not-reported", o.first, "the getter stores nothing that belongs to " + o.first);
      else if (hit.empty()) addAt(R, St, "option-setter-getter-mismatch", o.first, "the getter reports " + names + " for " + o.first + " but the setter does not store the given value there");
      else if (byField.count(fields)) addAt(R, G, "option-setter-getter-mismatch", o.first, o.first + " and " + byField[fields] + " report the same setting");
      byField[fields] = o.first;
      R.sample(o.first + " <-> " + names, 24);
    }
  }
  R.need("options", nopt, 22);
  // (d) cursor requests
  auto ops = enumOf(P, "MDBX_cursor_op", "MDBX_GET_CURRENT");
  const Function *CO = P.fn("cursor_ops");
  int64_t nops = 0;
  if (!CO || CO->arg_size() != 4) R.errors.push_back("cursor_ops is gone or has another signature");
  else {
    int64_t top = 0; std::map<int64_t, std::string> names;
    for (auto &o : ops) { top = std::max(top, o.second); names[o.second] = o.first; }
    ops["(undeclared)"] = top + 1;
    for (auto &o : ops) {
      NavClient c; c.opName = names; c.keyP = CO->getArg(1);
      for (const char *n : {"cursor_seek", "outer_next", "outer_prev", "outer_first", "outer_last", "inner_next", "inner_prev", "inner_first", "inner_last", "cursor_sibling_left", "cursor_sibling_right"}) { c.universe.insert(n); if (!P.fn(n)) R.errors.push_back(std::string(n) + " is gone"); }
      Engine E(P, c); E.maxDisj = O.disj; State S; S.env[CO->getArg(3)] = P.cst(32, o.second); E.run(CO, S);
      nops++;
      if (o.first == "(undeclared)") { if (!c.anyRet || c.rets != std::set<int64_t>{22}) addAt(R, CO, "undeclared-request-accepted", o.first, "a cursor request beyond the declared ones is not refused with MDBX_EINVAL"); continue; }
      if (c.rets == std::set<int64_t>{22} || !c.anyRet) { addAt(R, CO, "request-not-handled", o.first, "the declared cursor request " + o.first + " is never served"); continue; }
      auto w = sp.nav.find(o.first);
      if (w == sp.nav.end()) { R.errors.push_back("no row for cursor request " + o.first + " in tables.txt"); continue; }
      for (auto &x : w->second) if (!c.steps.count(x)) addAt(R, CO, "request-step-missing", o.first + ":" + x, o.first + " never performs its documented step " + x);
      for (auto &x : c.steps) if (!w->second.count(x.first)) R.add("request-step-wrong", x.second, o.first + ":" + x.first, o.first + " performs " + x.first + ", which is not part of this request");
      for (auto &x : c.nullKey) R.add("request-without-key", c.steps[x.first], o.first + ":" + x.first, o.first + " may search with a null key");
    }
  }
  R.need("cursor_requests", nops, 36);
}
// (b) exceptions
struct ThrowClient : Client {
  std::map<std::string, const Instruction *> thrown;
  bool trackKey(KeyId) override { return true; }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &) override {
    if (f && f->getName() == "__cxa_throw") {
      const Expr *e = E->eval(S, C->getArgOperand(1));
      thrown[e->k == K_Global ? demangle(e->v->getName().str()) : "?"] = C;
      return true;
    }
    return false;
  }
};
RULE(C13X) {
  Spec sp = readSpec(O, R);
  auto errs = enumOf(P, "MDBX_error", "MDBX_KEYEXIST");
  const Function *F = nullptr;
  for (auto &f : *P.M) if (!f.isDeclaration() && demangle(f.getName().str()) == "mdbx::error::throw_exception() const") F = &f;
  int64_t n = 0;
  if (!F) { R.errors.push_back("mdbx::error::throw_exception() is gone"); return; }
  for (auto &t : sp.thr) {
    if (!errs.count(t.first)) { R.errors.push_back("error code " + t.first + " is gone"); continue; }
    ThrowClient c; Engine E(P, c); State S;
    Expr p; p.k = K_Param; p.v = F->getArg(0); 
    S.cells[P.mk(p)] = P.cst(32, errs[t.first]);
    E.run(F, S); n++;
    std::string want = "typeinfo for " + (StringRef(t.second).starts_with("std::") ? t.second : "mdbx::" + t.second);
    if (c.thrown.empty()) addAt(R, F, "code-not-thrown", t.first, "no exception is thrown for " + t.first);
    for (auto &x : c.thrown) { if (x.first != want) R.add("wrong-exception", x.second, t.first, t.first + " is converted to " + x.first + " instead of " + t.second); else R.sample(t.first + " -> " + t.second); }
  }
  // every declared code which the library can return must be covered by a row
  for (auto &e : errs) if (e.second < -1 && !sp.thr.count(e.first) && !StringRef(e.first).ends_with("_ERRCODE")) addAt(R, F, "code-without-exception", e.first, "the declared error code " + e.first + " is not covered");
  R.need("exception_conversions", n, 45);
}
} // namespace va
