// C19: loops with no way out / iterations without progress.
#include "rules.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
namespace va {
// an instruction that can change something another iteration would observe
static bool sideEffect(Program &P, const Instruction &I) {
  if (isDbg(I)) return false;
  if (auto *L = dyn_cast<LoadInst>(&I)) return L->isVolatile() || L->isAtomic();
  if (isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I)) return true;
  if (auto *C = dyn_cast<CallBase>(&I)) {
    auto *f = calleeOf(C);
    if (f && (f->onlyReadsMemory() || f->doesNotAccessMemory())) return false;
    if (f && f->getIntrinsicID() == Intrinsic::expect) return false;
    return true;
  }
  return false;
}

// Looks for a feasible complete iteration that changes nothing: symbolic walk
// over the side-effect free blocks of the loop body, header phis symbolic.
struct NoProgress {
  Program &P; const Loop &L; LoopInfo *LI; const BasicBlock *H; unsigned budget = 600; bool found = false; std::vector<const BasicBlock *> path, hit;
  std::map<const PHINode *, const Expr *> sym; Client cl; Engine E;
  NoProgress(Program &p, const Loop &l, LoopInfo *li) : P(p), L(l), LI(li), H(l.getHeader()), E(p, cl) {}
  bool clean(const BasicBlock *B) { for (auto &I : *B) if (sideEffect(P, I)) return false; return true; }
  void search() {
    State S; int n = 100;
    for (auto &ph : H->phis()) { unsigned w = ph.getType()->isIntegerTy() ? ph.getType()->getIntegerBitWidth() : 64; auto *e = P.opaque(H->getParent(), n++, w); sym[&ph] = e; S.env[&ph] = e; }
    walk(H, S);
  }
  void walk(const BasicBlock *B, State S) {
    if (found || !budget) return;
    budget--;
    path.push_back(B);
    std::vector<std::pair<const BasicBlock *, State>> succ; std::vector<Exit> ex;
    E.execBlock(B->getParent(), S, B, B->begin(), succ, ex, 0);
    for (auto &x : succ) {
      if (x.first == H) {
        bool same = true;
        for (auto &s : sym) { auto i = x.second.env.find(s.first); const Expr *v = i == x.second.env.end() ? nullptr : i->second;
          if (v == s.second) continue;
          if (v && v->w == s.second->w && E.decideCmp(x.second, CmpInst::ICMP_EQ, v, s.second) == 1) continue;
          same = false; break; }
        if (same) { found = true; hit = path; break; }
        continue;
      }
      if (!L.contains(x.first) || LI->getLoopFor(x.first) != &L || !clean(x.first)) continue;
      if (std::find(path.begin(), path.end(), x.first) != path.end()) continue;
      walk(x.first, x.second);
      if (found) break;
    }
    path.pop_back();
  }
};

RULE(C19) {
  int64_t loops = 0, fns = 0, exits = 0, infinite = 0;
  for (auto &x : P.info) {
    Function *F = const_cast<Function *>(x.first);
    DominatorTree DT(*F); LoopInfo LI(DT);
    bool any = false;
    for (auto *L : LI.getLoopsInPreorder()) {
      loops++; any = true;
      SmallVector<std::pair<BasicBlock *, BasicBlock *>, 4> ex; 
      SmallVector<Loop::Edge, 8> ee; L->getExitEdges(ee);
      exits += ee.size();
      const Instruction *at = L->getHeader()->getTerminator();
      for (auto &I : *L->getHeader()) if (I.getDebugLoc() && I.getDebugLoc().getLine()) { at = &I; break; }
      unsigned line; std::string fn; locOf(at, &line, nullptr, &fn);
      // returns / noreturn calls inside the loop are exits as well (no successor): natural loops never contain them
      bool variant = false; bool realExit = false;
      std::function<bool(const Value *, int)> changes = [&](const Value *v, int d) -> bool {
        auto *I = dyn_cast<Instruction>(v);
        if (!I || !L->contains(I->getParent())) return false; // constant or defined outside
        if (d > 40) return true;
        if (auto *ph = dyn_cast<PHINode>(I)) {
          if (ph->getParent() == L->getHeader()) {
            // changes when some back-edge value is not the phi itself
            for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
              if (!L->contains(ph->getIncomingBlock(i))) continue;
              std::set<const Value *> seen; std::vector<const Value *> wl{ph->getIncomingValue(i)};
              while (!wl.empty()) { auto *q = wl.back(); wl.pop_back(); if (q == ph || !seen.insert(q).second) continue;
                auto *qp = dyn_cast<PHINode>(q); if (qp && L->contains(qp->getParent())) { for (auto &o : qp->incoming_values()) wl.push_back(o.get()); continue; }
                return true; }
            }
            return false;
          }
          return true; // a merge inside the body: depends on the path taken
        }
        if (auto *Ld = dyn_cast<LoadInst>(I)) {
          if (Ld->isVolatile() || Ld->isAtomic()) return true;
          if (changes(Ld->getPointerOperand(), d + 1)) return true;
          // can the location change inside the loop?
          const Expr *p = P.staticExpr(Ld->getPointerOperand());
          unsigned sz = P.M->getDataLayout().getTypeStoreSize(Ld->getType());
          KeyId k = P.keyOf(p, sz);
          for (auto *B : L->blocks()) for (auto &J : *B) {
            if (auto *S = dyn_cast<StoreInst>(&J)) { KeyId k2 = P.keyOf(P.staticExpr(S->getPointerOperand()), P.M->getDataLayout().getTypeStoreSize(S->getValueOperand()->getType())); if (k2 == k || P.keyName(k2).starts_with("*") || P.keyName(k).starts_with("*")) return true; }
            else if (isa<AtomicRMWInst>(J) || isa<AtomicCmpXchgInst>(J) || isa<FenceInst>(J)) return true;
            else if (auto *C = dyn_cast<CallBase>(&J)) { if (isDbg(J)) continue; auto *f = calleeOf(C); if (f && (f->onlyReadsMemory() || f->doesNotAccessMemory())) continue;
              auto fi = f ? P.info.find(f) : P.info.end();
              if (fi == P.info.end() || fi->second.modUnknown || fi->second.mod.count(k)) return true;
              if (rootExpr(p)->k == K_Alloca) return true; }
          }
          return false;
        }
        if (auto *C = dyn_cast<CallBase>(I)) {
          auto *f = calleeOf(C);
          if (f && (f->getIntrinsicID() != Intrinsic::not_intrinsic) && f->doesNotAccessMemory()) { for (auto &o : C->args()) if (changes(o, d + 1)) return true; return false; }
          if (f && f->doesNotAccessMemory()) { for (auto &o : C->args()) if (changes(o, d + 1)) return true; return false; }
          return true;
        }
        if (isa<AllocaInst>(I)) return false;
        for (auto &o : I->operands()) if (!isa<BasicBlock>(o.get()) && changes(o.get(), d + 1)) return true;
        return false;
      };
      for (auto &e : ee) {
        auto *T = e.first->getTerminator();
        if (isa<UnreachableInst>(e.second->getTerminator()) && e.second->size() <= 2) { /* assertion failure */ }
        realExit = true;
        const Value *c = nullptr;
        if (auto *B = dyn_cast<BranchInst>(T)) c = B->isConditional() ? B->getCondition() : nullptr;
        else if (auto *S = dyn_cast<SwitchInst>(T)) c = S->getCondition();
        if (!c) { variant = true; break; }
        if (changes(c, 0)) { variant = true; break; }
        // an exit behind a condition which itself varies counts as reachable later
        bool guarded = false;
        auto *node = DT.getNode(e.first);
        for (auto *d = node ? node->getIDom() : nullptr; d && L->contains(d->getBlock()); d = d->getIDom()) {
          auto *B = dyn_cast<BranchInst>(d->getBlock()->getTerminator());
          if (B && B->isConditional() && changes(B->getCondition(), 0)) { guarded = true; break; }
          if (auto *S = dyn_cast<SwitchInst>(d->getBlock()->getTerminator())) if (changes(S->getCondition(), 0)) { guarded = true; break; }
        }
        if (guarded) { variant = true; break; }
      }
      if (!variant) {
        infinite++;
        Finding f; f.rule = "loop-without-way-out"; locOf(at, &f.line, &f.file, &f.func);
        f.inst = f.func + ":loop"; f.msg = realExit ? "no exit condition of this loop can change while it runs: once entered it never ends" : "this loop has no exit";
        R.add(f);
      }
      // an iteration which changes nothing
      NoProgress np(P, *L, &LI);
      if (np.clean(L->getHeader())) {
        np.search();
        if (np.found) {
          Finding f; f.rule = "iteration-without-progress"; locOf(at, &f.line, &f.file, &f.func);
          f.inst = f.func + ":loop"; f.msg = "a complete iteration of this loop exists that changes neither a loop variable nor memory: it repeats forever";
          for (auto *B : np.hit) { unsigned l; locOf(B->getTerminator(), &l); f.path.push_back("line " + std::to_string(l)); }
          R.add(f);
        }
      }
      R.sample(fn + ":" + std::to_string(line) + " loop, " + std::to_string(ee.size()) + " exit edge(s)");
    }
    fns += any;
  }
  R.need("loops", loops, 300); R.stats["functions_with_loops"] = fns; R.stats["exit_edges"] = exits;
}
} // namespace va
