// Shared base of the event-order rules (C04, C09, C22, C25, ...).
#pragma once
#include "rules.h"
namespace va {
namespace {
enum { M_WRITEMAP = 0x80000, M_NOMETA = 0x40000, M_NOSYNC = 0x10000, M_UTTERLY = 0x110000, M_SHRINK = 0x40000000 };
const uint64_t FATAL = 0x80000000ull;
enum { S_DATA = 2, S_SIZE = 4 };
enum { A_DS = 1, A_SIGN, A_META, A_MS, A_FATAL, A_PH, A_FILL, A_TOUCH, A_SZOK, A_UNS, A_WEAKT, A_SRC, A_UNSADD, A_NOMS };
enum { T_DS = 1, T_MS = 2, T_FD = 3, T_REC = 5, T_TAIL = 6, T_STEADY = 7, T_WR = 8 };

uint64_t memberOff(const DICompositeType *c, StringRef name, bool &ok) {
  ok = false;
  if (!c) return 0;
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    if (m->getName() == name) { ok = true; return m->getOffsetInBits() / 8; }
    if (m->getName().empty()) { bool k; uint64_t o = memberOff(dyn_cast_or_null<DICompositeType>(stripTD(m->getBaseType())), name, k); if (k) { ok = true; return m->getOffsetInBits() / 8 + o; } }
  }
  return 0;
}
bool mentions(const Expr *e, std::function<bool(const Expr *)> p, int d = 0) {
  if (!e || d > 24) return false;
  if (p(e)) return true;
  return mentions(e->a, p, d + 1) || mentions(e->b, p, d + 1);
}
// the address itself (not what was loaded to compute it)
const Expr *addrRoot(const Expr *e) {
  for (;;) {
    if (e->k == K_Off || e->k == K_Idx) { e = e->a; continue; }
    return e;
  }
}
struct Meta { // byte offsets in a meta page
  uint64_t geo, gc, main, canary, sign, txnid_a, txnid_b, retired, bootid, size; bool ok = true;
  static Meta of(Program &P) {
    Meta m; auto i = P.structs.find("meta"); auto *c = i == P.structs.end() ? nullptr : i->second; bool k;
    auto g = [&](const char *n) { uint64_t o = memberOff(c, n, k); m.ok &= k; return o; };
    m.geo = g("geometry"); m.gc = g("trees"); m.canary = g("canary"); m.sign = g("sign"); m.txnid_a = g("txnid_a"); m.txnid_b = g("txnid_b"); m.retired = g("pages_retired"); m.bootid = g("bootid");
    m.main = m.gc + (m.canary - m.gc) / 2; m.size = c ? c->getSizeInBits() / 8 : 0;
    return m;
  }
};
struct Base : Client {
  RuleOut *R = nullptr; const Function *F = nullptr; Meta mt; int64_t obligations = 0, events = 0; std::string cfg;
  std::map<std::string, std::pair<uint64_t, bool>> offs;
  bool trackKey(KeyId k) override { auto n = P->keyName(k); return n.starts_with("MDBX_env.") || n.starts_with("MDBX_txn.") || n.starts_with("$") || n.starts_with("meta") || n.starts_with("geo") || n.starts_with("iov_ctx.") || n.starts_with("troika") || n.contains("osal_mmap"); }
  bool isUns(const Expr *e) { return e->k == K_Field && P->keyName(e->key).ends_with(".unsynced_pages"); }
  bool keepFact(const Expr *e) override { return isUns(e); }
  const Expr *fld(State &S, const Expr *base, const char *st, const char *mem, unsigned w) {
    auto &o = offs[std::string(st) + "." + mem];
    if (!o.second) { auto i = P->structs.find(st); o.first = memberOff(i == P->structs.end() ? nullptr : i->second, mem, o.second); if (!o.second) { R->errors.push_back(std::string("field gone: ") + st + "." + mem); o.second = true; } }
    const Expr *p = P->off(base, o.first); KeyId k = P->keyOf(p, w / 8);
    auto c = S.cells.find(p); if (c != S.cells.end() && c->second->w == w) return c->second;
    auto v = S.vers.find(k);
    return P->field(p, w, v == S.vers.end() ? nullptr : v->second, k);
  }
  const Expr *lazyFd(State &S) { const Expr *m = P->off(param(0), (fld(S, param(0), "MDBX_env", "dxb_mmap", 32), offs["MDBX_env.dxb_mmap"].first)); return fld(S, m, "osal_mmap", "fd", 32); }
  const Expr *param(unsigned n) { Expr e; e.k = K_Param; e.v = F->getArg(n); return P->mk(e); }
  bool isParam(const Expr *e, unsigned n) { return e->k == K_Param && e->v == F->getArg(n); }
  // outcomes which are remembered in a register as soon as they are known, so that they survive joins
  std::vector<int> outcomes;
  void dropTag(State &S, int t) { for (auto i = S.aut.t.begin(); i != S.aut.t.end();) if (i->first == t) i = S.aut.t.erase(i); else ++i; }
  void clearTag(State &S, int t) { dropTag(S, t); if (is_contained(outcomes, t) && S.aut.get(200 + t)) S.aut.set(200 + t, 0); }
  void settleOutcomes(State &S) {
    for (int t : outcomes) if (const Expr *e = tag(S, t)) { AbsVal v = E->abs(S, e); int r = v.isZero() ? 1 : v.nonZero() ? 2 : 0; if (r) { dropTag(S, t); S.aut.set(200 + t, r); } }
  }
  void onEdge(State &S, const BasicBlock *, const BasicBlock *) override { settleOutcomes(S); }
  void setTag(State &S, int t, const Expr *e) { clearTag(S, t); S.aut.t.insert({t, e}); }
  const Expr *tag(State &S, int t) { for (auto &x : S.aut.t) if (x.first == t) return x.second; return nullptr; }
  bool zeroTag(State &S, int t) { if (is_contained(outcomes, t) && S.aut.get(200 + t) == 1) return true; const Expr *e = tag(S, t); return e && E->abs(S, e).isZero(); }
  bool unsynced(State &S, int64_t want) { for (auto &x : S.facts) if (isUns(x.first)) { int64_t c; if (x.second.isConst(c) && c == want) return true; } return false; }
  bool isLazyFd(const Expr *e) { return e->k == K_Field && (P->keyName(e->key) == "osal_mmap.fd" || P->keyName(e->key) == "MDBX_env.lazy_fd"); }
  bool isMetaFd(const Expr *e) { return e->k == K_Field && P->keyName(e->key) == "MDBX_env.fd4meta"; }
  // continue under the assumption that zero is returned; false if it cannot be
  bool success(State &S, const Expr *ret) { return !E->abs(S, ret).nonZero() && E->assumeCmp(S, CmpInst::ICMP_EQ, ret, P->cst(ret->w, 0)); }
  // result known to be zero: remembered in a register, so that it survives joins
  bool settle(State &S, int t, int reg) { if (S.aut.get(reg)) return true; if (zeroTag(S, t)) { S.aut.set(reg, 1); clearTag(S, t); return true; } return false; }
  // the comparison which holds on the edge from -> to
  bool edgeCmp(State &S, const BasicBlock *from, const BasicBlock *to, const Expr *&x, const Expr *&y, CmpInst::Predicate &p) {
    const Expr *e = E->edgeCond; bool t = E->edgeTaken; if (!e) return false;
    for (int i = 0; i < 16 && e->k == K_Op; i++) { // negations and normalisations to 0/1
      if (e->op == Instruction::ZExt || e->op == Instruction::SExt) { e = e->a; continue; }
      if (e->op == Instruction::Xor && e->w == 1 && e->b && e->b->k == K_Const) { t = !t; e = e->a; continue; }
      if (e->op < OP_ICMP || e->op >= OP_SELECT) return false;
      auto q = (CmpInst::Predicate)(e->op - OP_ICMP); const Expr *in = e->a;
      while (in->k == K_Op && (in->op == Instruction::ZExt || in->op == Instruction::SExt)) in = in->a;
      if (in->w == 1 && e->b->k == K_Const && e->b->c == 0 && (q == CmpInst::ICMP_EQ || q == CmpInst::ICMP_NE)) { if (q == CmpInst::ICMP_EQ) t = !t; e = in; continue; }
      x = e->a; y = e->b; p = t ? q : CmpInst::getInversePredicate(q); return true;
    }
    return false;
  }
  void say(const char *rule, const Instruction *I, const std::string &inst, const std::string &msg, State &S) { R->add(rule, I, F->getName().str() + ":" + inst, F->getName().str() + "() " + msg + (cfg.empty() ? "" : " (" + cfg + ")"), S.trace); }
};
}
}
