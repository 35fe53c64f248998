#include "rules.h"
namespace va {
// debugging aid: --arg fn:key  prints which callees of fn may modify key
RULE(MOD) {
  auto [f, k] = StringRef(O.arg).split(':');
  for (unsigned i = 1; i < P.keyNames.size(); i++) if (StringRef(P.keyNames[i]).contains(k)) {
    errs() << "key " << P.keyNames[i] << "\n";
    std::set<const Function *> seen; std::vector<std::pair<const Function *, int>> wl{{P.fn(f), 0}};
    while (!wl.empty()) { auto [F, d] = wl.back(); wl.pop_back(); if (!F || !seen.insert(F).second || !P.info.count(F)) continue; auto &I = P.info[F]; if (!I.mod.count(i)) continue; for (int j = 0; j < d; j++) errs() << " "; errs() << F->getName() << (I.modUnknown ? " (unknown)" : ""); 
      for (auto &X : instructions(*F)) if (auto *S = dyn_cast<StoreInst>(&X)) { if (P.keyOf(P.staticExpr(S->getPointerOperand()), 8) == (int)i || P.keyOf(P.staticExpr(S->getPointerOperand()), 4) == (int)i|| P.keyOf(P.staticExpr(S->getPointerOperand()), 1) == (int)i) { unsigned l; locOf(S, &l); errs() << " STORE@" << l; } }
      errs() << "\n"; for (auto *c : I.callees) wl.push_back({c, d + 1}); }
  }
}
}
