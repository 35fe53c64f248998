// C23: fields shared between processes are accessed atomically, with the needed order.
#include "order_base.h"
#include <fstream>
#include <sstream>
namespace va {
namespace {
struct Acc { const Instruction *I; std::string key, fn, kind; unsigned size; bool weak = false, vol = false, viaRmw = false; };
bool strong(AtomicOrdering o, bool load) { return load ? (isAcquireOrStronger(o)) : (isReleaseOrStronger(o)); }
bool shared(StringRef n) { return n.starts_with("shared_lck.") || n.starts_with("reader_slot.") || n.starts_with("pgops."); }
}
RULE(C23) {
  auto &DL = P.M->getDataLayout(); std::vector<Acc> all;
  auto keyFor = [&](const Value *p, unsigned sz) { return P.keyName(P.keyOf(P.staticExpr(p), sz)).str(); };
  for (auto &F : *P.M) {
    if (F.isDeclaration()) continue;
    for (auto &I : instructions(F)) {
      auto put = [&](const Value *p, unsigned sz, const char *kind, bool atomic, bool ord, bool vol) {
        std::string k = keyFor(p, sz); if (!shared(k)) return nullptr == p;
        Acc a{&I, k, F.getName().str(), kind, sz}; a.weak = !ord; a.vol = vol;
        if (!atomic) a.kind = std::string("plain-") + kind; else if (!ord) a.kind = std::string("relaxed-") + kind;
        all.push_back(a); return true;
      };
      if (auto *L = dyn_cast<LoadInst>(&I)) put(L->getPointerOperand(), DL.getTypeStoreSize(L->getType()), "load", L->isAtomic(), L->isAtomic() && strong(L->getOrdering(), true), L->isVolatile());
      else if (auto *S = dyn_cast<StoreInst>(&I)) put(S->getPointerOperand(), DL.getTypeStoreSize(S->getValueOperand()->getType()), "store", S->isAtomic(), S->isAtomic() && strong(S->getOrdering(), false), S->isVolatile());
      else if (auto *A = dyn_cast<AtomicRMWInst>(&I)) put(A->getPointerOperand(), DL.getTypeStoreSize(A->getType()), "rmw", true, strong(A->getOrdering(), true) && strong(A->getOrdering(), false), true);
      else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) put(X->getPointerOperand(), DL.getTypeStoreSize(X->getCompareOperand()->getType()), "cas", true, strong(X->getSuccessOrdering(), true) && strong(X->getSuccessOrdering(), false), true);
      else if (auto *M = dyn_cast<MemIntrinsic>(&I)) {
        put(M->getRawDest(), 1, "block-store", false, false, true);
        if (auto *T = dyn_cast<MemTransferInst>(M)) put(T->getRawSource(), 1, "block-load", false, false, true);
      }
    }
  }
  // a store whose value was computed from a load of the same field is a multi-step update
  auto derived = [&](const StoreInst *S, const std::string &key) {
    std::set<const Value *> seen; std::vector<const Value *> w{S->getValueOperand()};
    while (!w.empty()) {
      auto *v = w.back(); w.pop_back();
      if (!seen.insert(v).second || seen.size() > 64) continue;
      if (auto *L = dyn_cast<LoadInst>(v)) { if (keyFor(L->getPointerOperand(), DL.getTypeStoreSize(L->getType())) == key) return true; continue; }
      if (isa<BinaryOperator>(v) || isa<CastInst>(v) || isa<PHINode>(v) || isa<SelectInst>(v)) for (auto &o : cast<User>(v)->operands()) w.push_back(o);
    }
    return false;
  };
  for (auto &a : all) if (auto *S = dyn_cast<StoreInst>(a.I)) a.viaRmw = derived(S, a.key);
  if (O.arg == "dump") {
    std::set<std::string> o;
    std::map<std::string, std::set<unsigned>> sz;
    for (auto &a : all) {
      if (StringRef(a.key).starts_with("pgops.")) continue;
      if (a.weak) o.insert(a.key + " " + a.kind + " " + a.fn);
      if (a.viaRmw) o.insert(a.key + " update " + a.fn);
      if (!StringRef(a.kind).contains("block")) sz[a.key].insert(a.size);
    }
    for (auto &s : o) printf("TAB %s\n", s.c_str());
    for (auto &s : sz) { printf("TAB %s size", s.first.c_str()); for (auto n : s.second) printf(" %u", n); printf("\n"); }
    return;
  }
  std::set<std::string> ok; std::map<std::string, unsigned> size;
  { std::ifstream f(O.dir + "shared_access.txt"); std::string line; while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; std::istringstream i(line); std::string k, w, fn; i >> k >> w >> fn; if (w == "size") size[k] = std::stoi(fn); else ok.insert(k + " " + w + " " + fn); } }
  if (ok.empty()) { R.errors.push_back("shared_access.txt is missing"); return; }
  int64_t strongN = 0, weakN = 0;
  for (auto &a : all) {
    if (StringRef(a.key).starts_with("pgops.")) { R.stats["statistics_counters"]++; continue; } // statistics only
    R.stats["shared_accesses"]++;
    auto z = size.find(a.key);
    if (z != size.end() && !StringRef(a.kind).contains("block") && a.size != z->second) R.add("torn-access", a.I, a.fn + ":" + a.key, a.fn + "() accesses " + std::to_string(a.size) + " of the " + std::to_string(z->second) + " bytes of " + a.key);
    if (z == size.end() && !StringRef(a.key).contains("mincore") && !StringRef(a.kind).contains("block")) R.add("unknown-shared-field", a.I, a.fn + ":" + a.key, a.fn + "() accesses " + a.key + " of the lock file, for which no access rule is known");
    if (a.weak) {
      weakN++;
      // a relaxed access is fine wherever a plain one is
      std::string k1 = a.key + " " + a.kind + " " + a.fn, k2 = k1; auto p = k2.find("relaxed-"); if (p != std::string::npos) k2.replace(p, 8, "plain-");
      if (!ok.count(k1) && !ok.count(k2) && !ok.count(a.key + " " + a.kind + " *")) {
        bool plain = StringRef(a.kind).starts_with("plain") ;
        R.add(plain ? "plain-access" : "weak-order", a.I, a.fn + ":" + a.key, a.fn + "() uses a " + a.kind + (plain ? " on " : " (without the order others rely on) on ") + a.key + ", which other processes access concurrently");
      }
    } else strongN++;
    if (a.viaRmw && !ok.count(a.key + " update " + a.fn)) R.add("multi-step-update", a.I, a.fn + ":" + a.key + ":update", a.fn + "() updates " + a.key + " by a load and a separate store, so that a concurrent change gets lost");
  }
  R.stats["ordered_accesses"] = strongN; R.stats["weak_accesses_checked"] = weakN;
  R.stats["fields"] = size.size();
  R.need("shared_accesses", R.stats["shared_accesses"], 150);
  for (auto &a : all) R.sample(a.key + ": " + a.kind + " in " + a.fn, 40);
}
}
