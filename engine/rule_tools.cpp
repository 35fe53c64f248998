// C18: a tool never exits with status 0 after a database operation failed.
#include "rules.h"
#include <fstream>
namespace va {
namespace {
const std::set<std::string> kNoErr = {"mdbx_env_get_maxvalsize_ex", "mdbx_env_get_maxkeysize_ex", "mdbx_env_get_pairsize4page_max", "mdbx_env_get_valsize4page_max", "mdbx_env_get_maxvalsize", "mdbx_cmp", "mdbx_dcmp", "mdbx_keycmp", "mdbx_env_get_maxkeysize", "mdbx_setup_debug", "mdbx_setup_debug_nofmt"};
struct Tool : Client {
  RuleOut *R; std::string tool; std::set<const Instruction *> seen; const std::set<std::string> *ok; std::set<std::string> used; int64_t exits = 0; const Expr *total = nullptr; std::set<const Function *> fns; std::map<int, const CallBase *> lostBy;
  bool splitByResult() override { return true; }
  bool trackKey(KeyId k) override { return false; }
  bool isTotal(KeyId k) { return P->keyName(k).ends_with("total_problems"); }
  bool pinned(const Expr *ptr, KeyId k) override { return isTotal(k); } // set by mdbx_env_chk(), only read afterwards
  void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) override {
    if (isTotal(key) && E->stack.empty()) total = S.env[L]; if (ptr->k == K_Global && ptr->v && ptr->v->getName() == "rescue") S.env[L] = P->cst(L->getType()->getIntegerBitWidth(), 0); } // the rescue mode continues after errors by definition
  bool descend(const Function *f) override { return fns.count(f); }
  bool isSite(const CallBase *C, const Function *f) { return f && f->isDeclaration() && f->getName().starts_with("mdbx_") && C->getType()->isIntegerTy(32) && !kNoErr.count(f->getName().str()); }
  static const CallBase *site(const Expr *r) { while (r->k != K_Opaque && r->a) r = r->a; return dyn_cast_or_null<CallBase>(r->v); }
  bool keepFact(const Expr *e) override { if (e->k == K_Field && isTotal(e->key)) return true; return e->k == K_Opaque && e->v && isa<CallBase>(e->v) && seen.count(cast<CallBase>(e->v)); }
  bool accepted(const CallBase *C, const std::string &code) { std::string k = tool + " " + calleeOf(C)->getName().str() + " "; if (code == "-1" || ok->count(tool + " * " + code)) return true; /* MDBX_RESULT_TRUE is no failure */ if (ok->count("* " + calleeOf(C)->getName().str() + " *")) return true; for (auto &c : {code, std::string("*")}) if (ok->count(k + c)) { used.insert(k + c); return true; } return false; }
  // what remains of a result on this path: "" = success or accepted
  std::string left(State &S, const Expr *r) {
    AbsVal v = E->abs(S, r); int64_t c; auto *C = site(r);
    if (v.isConst(c)) { if ((int32_t)c == 0) return ""; std::string s = std::to_string((int32_t)c); return accepted(C, s) ? "" : s; }
    if (accepted(C, "*")) return "";
    // all accepted codes ruled out or not: is any other value possible?
    State T = S; AbsVal f = AbsVal::top(r->w); f.neq.insert(0); f.neq.insert(-1); f.neq.insert(0xffffffffll);
    for (auto &o : *ok) { std::string k = tool + " " + calleeOf(C)->getName().str() + " "; if (StringRef(o).starts_with(k)) { int64_t x = atoll(o.substr(k.size()).c_str()); f.neq.insert(r->w == 32 ? (int64_t)(uint32_t)x : x); f.neq.insert(x); } }
    f.normalize(); return E->assumeVal(T, r, f, 0) && !E->abs(T, r).bottom() ? "*" : "";
  }
  bool onCall(State &S, const CallBase *C, const Function *f, std::vector<State> &out) override {
    if (!f) return false;
    if (f->getName() == "exit" || f->getName() == "_exit" || f->getName() == "_Exit") { const Expr *x = E->eval(S, C->getArgOperand(0)); finish(S, C, x); return true; }
    if (isSite(C, f)) for (auto &t : S.aut.t) if (site(t.second) == C) { std::string l = left(S, t.second); if (!l.empty()) { lostBy[(int)seen.size()] = C; S.aut.set(100, (int64_t)C); } }
    return false;
  }
  void afterCall(State &S, const CallBase *C, const Function *f) override {
    if (!isSite(C, f)) return; auto i = S.env.find(C); if (i == S.env.end()) return;
    seen.insert(C); if (f->getName() == "mdbx_env_chk") S.aut.set(101, (int64_t)(const Instruction *)C);
    for (auto j = S.aut.t.begin(); j != S.aut.t.end();) if (site(j->second) == C) j = S.aut.t.erase(j); else ++j;
    S.aut.t.insert({1, i->second});
  }
  // failed results keep their states apart from successful ones
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override {
    std::vector<std::pair<int, const Expr *>> add;
    for (auto j = S.aut.t.begin(); j != S.aut.t.end();) {
      AbsVal v = E->abs(S, j->second); int64_t c; int tag = j->first; bool drop = false;
      if (v.isConst(c)) { c = (int32_t)c; if (c == 0 || accepted(site(j->second), std::to_string(c))) drop = true; else tag = (int)c; }
      else if (v.nonZero()) tag = (v.neq.count(0xffffffffll) || v.neq.count(-1) || v.smin > -1 || v.smax < -1) ? 2 : 3;
      if (drop || tag != j->first) { if (!drop) add.push_back({tag, j->second}); j = S.aut.t.erase(j); } else ++j;
    }
    for (auto &x : add) S.aut.t.insert(x);
  }
  void finish(State &S, const Instruction *at, const Expr *status) {
    exits++;
    State Z = S; if (!E->assumeVal(Z, status, AbsVal::cst(status->w, 0), 0)) return;
    auto rep = [&](const CallBase *C, const std::string &l, bool over) { unsigned ln; std::string fl, fu; locOf(C, &ln, &fl, &fu); R->add("failure-exit-zero", C, tool + ":" + fu + ">" + calleeOf(C)->getName().str() + (l == "*" ? "" : "=" + l), tool + " can exit with status 0 although " + calleeOf(C)->getName().str() + "() failed" + (l == "*" ? "" : " with " + l) + (over ? " and was called again" : ""), S.trace); };
    for (auto &t : S.aut.t) { std::string l = left(Z, t.second); if (!l.empty() && site(t.second)) rep(site(t.second), l, false); }
    if (int64_t p = S.aut.get(101)) { // problems were counted by the checker
      if (!total || !E->abs(Z, total).isZero()) R->add("problems-exit-zero", (const Instruction *)p, tool + ":problems", tool + " can exit with status 0 although the check counted problems", S.trace);
    }
    if (int64_t p = S.aut.get(100)) rep((const CallBase *)p, "*", true);
  }
  void onReturn(State &S, const ReturnInst *Rt, const Expr *ret) override { if (E->stack.empty() && ret) finish(S, Rt, ret); }
};
}
RULE(C18) {
  std::set<std::string> ok; { std::ifstream in(O.dir + "tools_accepted.txt"); std::string l; while (std::getline(in, l)) { auto p = l.find(" # "); std::string k = l.substr(0, p); while (!k.empty() && k.back() == ' ') k.pop_back(); if (!k.empty() && k[0] != '#') ok.insert(k); } }
  const Function *F = P.fn("main"); if (!F) { R.errors.push_back("main() is gone"); return; }
  Tool c; c.R = &R; c.tool = O.arg; c.ok = &ok;
  std::function<bool(const Function *, std::set<const Function *> &)> touches = [&](const Function *f, std::set<const Function *> &vis) { if (!vis.insert(f).second) return false; for (auto &I : instructions(*f)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *g = calleeOf(C); if (!g) continue; if (c.isSite(C, g) || g->getName() == "exit") return true; if (!g->isDeclaration() && touches(g, vis)) return true; } return false; };
  for (auto &x : P.info) { std::set<const Function *> vis; if (touches(x.first, vis)) c.fns.insert(x.first); }
  Engine E(P, c); E.maxDisj = O.disj; E.run(F, E.entryState(F));
  if (E.budgetHit) R.errors.push_back("budget exhausted in main() of " + O.arg);
  int64_t all = 0; for (auto &x : P.info) for (auto &I : instructions(*x.first)) if (auto *C = dyn_cast<CallBase>(&I)) if (c.isSite(C, calleeOf(C))) { all++; if (!c.seen.count(C)) R.sample("not reached from main(): " + calleeOf(C)->getName().str() + " in " + x.first->getName().str()); }
  R.stats["calls_of_the_library"] = c.seen.size(); R.stats["calls_in_source"] = all; R.stats["exit_states"] = c.exits; R.stats["accepted"] = c.used.size(); R.stats["block_states"] = E.blocks;
}
} // namespace va
