// C17: no error code of the C API is dropped by the C++ binding.
#include "rules.h"
#include "llvm/Demangle/Demangle.h"
#include <fstream>
#include <sstream>
namespace va {
namespace {
const std::set<std::string> kNotAnError = {"mdbx_cmp", "mdbx_dcmp", "mdbx_keycmp", "mdbx_env_get_maxkeysize", "mdbx_setup_debug", "mdbx_setup_debug_nofmt", "mdbx_txn_flags", "mdbx_get_keycmp", "mdbx_get_datacmp"};
std::string shortName(const Function *F) { std::string s = demangle(F->getName().str()); auto p = s.find('('); if (p == 0 || s.compare(0, p == std::string::npos ? 0 : p, "(anonymous namespace)") == 0) p = s.find('(', p + 1); std::string r = s.substr(0, p); auto q = r.rfind(' '); if (q != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(q + 1); return r; }
struct Drop : Client {
  RuleOut *R; const Function *F; int64_t sites = 0, returns = 0, mapped = 0; std::set<const Instruction *> seen; const std::map<std::string, std::string> *ok; std::set<std::string> used, produced; std::string mode;
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { return true; }
  bool keepFact(const Expr *e) override { for (auto *c : seen) if (E->contains(e, c)) return true; return false; }
  bool isSite(const CallBase *C, const Function *f) { return f && f->isDeclaration() && f->getName().starts_with("mdbx_") && C->getType()->isIntegerTy(32) && !kNotAnError.count(f->getName().str()) && !f->getName().starts_with("mdbx_key_from"); }
  static const CallBase *site(const Expr *r) { while (r->k != K_Opaque && r->a) r = r->a; return dyn_cast_or_null<CallBase>(r->v); }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    if (f && f->doesNotReturn()) { return true; }
    return false;
  }
  bool descend(const Function *f) override { return true; }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!isSite(C, f)) return; auto i = S.env.find(C); if (i == S.env.end()) return;
    seen.insert(C);
    for (auto j = S.aut.t.begin(); j != S.aut.t.end();) if (j->second == i->second) j = S.aut.t.erase(j); else ++j;
    S.aut.t.insert({1, i->second});
  }
  bool is(const Expr *v, const CallBase *C) { // the very value, possibly packed into a structure
    while (v->k == K_Op) { if (v->op == Instruction::InsertValue) { if (is(v->b, C)) return true; v = v->a; } else if (v->op == Instruction::ZExt || v->op == Instruction::SExt || v->op == Instruction::Trunc || v->op == Instruction::Shl || v->op == Instruction::Or) { if (v->b && !v->b->isConst() && is(v->b, C)) return true; v = v->a; } else return false; }
    while (v->k == K_Inner || v->k == K_Outer) v = v->a;
    return v->k == K_Opaque && v->v == C;
  }
  void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) override {
    const Expr *r = rootExpr(ptr); if (r->k == K_Alloca) return;
    for (auto j = S.aut.t.begin(); j != S.aut.t.end();) if (site(j->second) && is(val, site(j->second))) j = S.aut.t.erase(j); else ++j; // handed out
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override {
    if (!E->stack.empty()) return;
    returns++;
    for (auto &t : S.aut.t) {
      auto *C = site(t.second); if (!C) continue;
      AbsVal v = E->abs(S, t.second); int64_t c; bool k = v.isConst(c);
      if (ret && is(ret, C)) continue;
      bool isBool = F->getReturnType()->isIntegerTy(1); int64_t rc = 0; bool rk = isBool && ret && E->abs(S, ret).isConst(rc);
      if (k && (int32_t)c == 0 && !isBool) continue;
      if (!k) { AbsVal f = v; f.neq.insert(0); f.neq.insert(0xffffffffll); f.neq.insert(-1); f.normalize(); State T = S; if (f.bottom() || !E->assumeVal(T, t.second, f, 0)) { k = true; c = -1; rk = false; } }
      std::string who = shortName(F) + mode, cf = calleeOf(C)->getName().str(), code = k ? std::to_string((int32_t)c) : "*", key = who + " " + cf + " " + code, full = key + (rk ? rc ? " true" : " false" : isBool ? " ?" : "");
      if (getenv("VT_LIST")) errs() << full << "\n";
      produced.insert(key);
      if (ok->count(full) || ok->count("* " + cf + " " + code)) { used.insert(full); continue; }
      if (isBool && (ok->count(key + " true") || ok->count(key + " false"))) { R->add("wrong-answer", C, who + ">" + cf + "=" + code, who + "() answers " + (rk ? rc ? "true" : "false" : "something undetermined") + " when " + cf + "() returned " + code + ", contrary to the table of documented mappings", S.trace); continue; }
      if (k && (int32_t)c == 0) continue;
      R->add("error-dropped", C, who + ">" + cf + (k ? "=" + code : ""), who + "() returns normally although " + cf + "() may have failed" + (k ? " with " + code : "") + ": the error is neither thrown nor handed to the caller", S.trace);
    }
  }
};
}
RULE(C17) {
  std::map<std::string, std::string> ok; { std::ifstream in(O.dir + "cxx_mapped.txt"); std::string l; while (std::getline(in, l)) { auto p = l.find(" # "); std::string k = l.substr(0, p); while (!k.empty() && k.back() == ' ') k.pop_back(); if (!k.empty() && k[0] != '#') ok[k] = p == std::string::npos ? "" : l.substr(p + 3); } }
  int64_t fns = 0, sites = 0, rets = 0; std::set<std::string> used, produced; std::map<std::string, const Instruction *> pairs;
  for (auto &x : P.info) { const Function *F = x.first; if (F->hasAvailableExternallyLinkage() || (!P.baseline.count(F->getName()) && !F->hasExternalLinkage())) continue;
    const Argument *thr = nullptr; for (auto &A : F->args()) if (A.getType()->isIntegerTy(1) && A.getName().starts_with("throw_")) thr = &A;
    bool any = false;
    for (int m = 0; m < (thr ? 2 : 1); m++) {
      Drop c; c.R = &R; c.F = F; c.ok = &ok; c.mode = m ? "[throw]" : "";
      bool has = false; std::set<const Function *> vis; std::function<void(const Function *)> walk = [&](const Function *g) { if (!vis.insert(g).second || has) return; for (auto &I : instructions(*g)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (c.isSite(C, f)) has = true; else if (f && !f->isDeclaration() && !P.baseline.count(f->getName())) walk(f); } };
      walk(F); if (!has) break;
      Engine E(P, c); E.maxDisj = O.disj; E.budget = 2000000; State S0 = E.entryState(F); if (thr) S0.env[thr] = P.cst(1, m); E.run(F, S0);
      if (E.budgetHit) R.errors.push_back("budget exhausted in " + shortName(F));
      for (auto *C : c.seen) pairs.insert({shortName(F) + c.mode + " " + calleeOf(cast<CallBase>(C))->getName().str(), C});
      produced.insert(c.produced.begin(), c.produced.end());
      any = true; sites += m ? 0 : c.seen.size(); rets += c.returns; used.insert(c.used.begin(), c.used.end());
      if (!m) R.sample(shortName(F) + ": " + std::to_string(c.seen.size()) + " call(s) into the C API");
    }
    fns += any;
  }
  // a documented result must still be produced (instead of an exception)
  for (auto &o : ok) { std::string k = o.first; if (StringRef(k).ends_with(" true")) k.resize(k.size() - 5); else if (StringRef(k).ends_with(" false")) k.resize(k.size() - 6); if (k[0] == '*') continue; auto p = k.rfind(' '); if (k.substr(p) == " 0") continue; auto it = pairs.find(k.substr(0, p)); if (it == pairs.end() || produced.count(k)) continue; R.add("result-not-mapped", it->second, k, k.substr(0, k.find(' ')) + "() does not map the result " + k.substr(p + 1) + " of " + k.substr(k.find(' ') + 1, p - k.find(' ') - 1) + "() to its documented answer any more"); }
  // the primitives which classify a code, for each class of codes
  struct Prim { const char *name; int ok, tr, fail; }; // 0 false, 1 true, 2 returns, 3 throws
  static const Prim prims[] = {{"is_success", 1, 0, 0}, {"is_result_true", 0, 1, 0}, {"is_result_false", 1, 0, 0}, {"is_failure", 0, 0, 1}, {"success_or_throw", 2, 3, 3}, {"throw_on_failure", 2, 2, 3}, {"boolean_or_throw", 0, 1, 3}};
  int64_t prim = 0;
  for (auto &x : P.info) { const Function *F = x.first; std::string n = shortName(F);
    for (auto &p : prims) if (n == std::string("mdbx::error::") + p.name && F->arg_size() && !F->hasAvailableExternallyLinkage()) for (int64_t code : {0, -1, -30798, -30780, 12, 5}) {
      int want = code == 0 ? p.ok : code == -1 ? p.tr : p.fail;
      if (code == -30780 && want == 3 && F->arg_size() > 1) continue;
      struct Ev : Client { bool ret = false, bad = false; std::set<int64_t> v; const ReturnInst *at = nullptr; bool trackKey(KeyId) override { return true; } bool descend(const Function *) override { return true; } bool onCall(State &, const CallBase *, const Function *f, std::vector<State> &out) override { return f && f->doesNotReturn(); } void onReturn(State &S, const ReturnInst *Rt, const Expr *r) override { if (!E->stack.empty()) return; ret = true; at = Rt; int64_t c; if (r) { if (E->abs(S, r).isConst(c)) v.insert(c != 0); else bad = true; } } } c;
      Engine E(P, c); State S; const Argument *A = F->getArg(0);
      if (A->getType()->isPointerTy()) { Expr q; q.k = K_Param; q.v = A; S.cells[P.mk(q)] = P.cst(32, code); } else S.env[A] = P.cst(32, code);
      E.run(F, S); prim++;
      bool good = want == 3 ? !c.ret : want == 2 ? c.ret : c.ret && !c.bad && c.v.size() == 1 && *c.v.begin() == want;
      if (!good) { const Instruction *at = c.at ? (const Instruction *)c.at : F->getEntryBlock().getTerminator(); R.add("wrong-classification", at, n + ":" + std::to_string(code), n + "() must " + (want == 3 ? "throw" : want == 2 ? "return normally" : want ? "answer true" : "answer false") + " for the code " + std::to_string(code)); }
    }
  }
  R.stats["primitive_evaluations"] = prim;
  R.stats["functions"] = fns; R.stats["call_sites"] = sites; R.stats["return_states"] = rets; R.stats["documented_mappings"] = used.size();
}
} // namespace va
