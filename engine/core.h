// Core of the static analyser: module preparation, debug-info driven field
// naming, hash-consed value expressions, path-sensitive dataflow engine.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace va {
using namespace llvm;

// ---------------------------------------------------------------- field keys
typedef int KeyId; // interned "Struct.member" string, 0 == unknown

struct Program;

enum Kind : uint8_t {
  K_Const, K_Param, K_Global, K_Alloca, K_Opaque, K_Field, K_Op, K_Off, K_Idx,
  K_Inner, K_Outer
};

struct Expr {
  Kind k;
  unsigned op = 0;     // K_Op: opcode / predicate ; K_Field: access size
  unsigned w = 64;     // bit width
  unsigned id = 0;
  int64_t c = 0;       // const value / offset / tag / scale
  const Value *v = nullptr;  // arg/global/alloca/inst
  const void *ver = nullptr; // K_Field version
  const Expr *a = nullptr, *b = nullptr;
  uint64_t bloom = 0;  // over contained symbol "origins"
  KeyId key = 0;       // K_Field: the field key
  mutable const DICompositeType *pointee = nullptr;
  mutable const DIType *pointeeTy = nullptr; // raw pointee
  mutable bool pointeeDone = false;
  bool isConst() const { return k == K_Const; }
  bool isConst(int64_t x) const { return k == K_Const && c == x; }
};

// opcodes for K_Op beyond llvm's Instruction opcodes
enum { OP_ICMP = 1000 /* +predicate */, OP_SELECT = 1200, OP_PHIJOIN };

struct AbsVal {
  unsigned w = 64;
  uint64_t zero = 0, one = 0;
  int64_t smin, smax;
  uint64_t umin, umax;
  std::set<int64_t> neq;
  static AbsVal top(unsigned w);
  static AbsVal cst(unsigned w, int64_t c);
  uint64_t mask() const { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
  bool isTop() const;
  bool bottom() const;
  bool isConst(int64_t &c) const;
  bool nonZero() const { return one || umin > 0 || neq.count(0); }
  bool isZero() const { int64_t c; return isConst(c) && c == 0; }
  void normalize();
  bool meet(const AbsVal &o); // returns false if bottom
  void join(const AbsVal &o);
  bool operator==(const AbsVal &o) const {
    return zero == o.zero && one == o.one && smin == o.smin && smax == o.smax &&
           umin == o.umin && umax == o.umax && neq == o.neq;
  }
  bool operator<(const AbsVal &o) const;
};

struct RelFact { uint8_t um = 7, sm = 7;
  bool operator==(const RelFact &o) const { return um == o.um && sm == o.sm; }
  bool operator<(const RelFact &o) const { return um != o.um ? um < o.um : sm < o.sm; } };

struct Trace { std::shared_ptr<Trace> prev; unsigned line; std::string msg; unsigned depth; };
typedef std::shared_ptr<Trace> TraceP;

struct Aut { // client automaton state
  std::map<int, int64_t> n;        // small integer registers
  std::set<std::pair<int, const Expr *>> t; // tracked objects (tag, expr)
  bool operator<(const Aut &o) const { return n != o.n ? n < o.n : t < o.t; }
  bool operator==(const Aut &o) const { return n == o.n && t == o.t; }
  int64_t get(int r, int64_t d = 0) const { auto i = n.find(r); return i == n.end() ? d : i->second; }
  void set(int r, int64_t x) { if (x) n[r] = x; else n.erase(r); }
};

struct State {
  std::map<const Value *, const Expr *> env;
  std::map<const Expr *, const Expr *> cells;           // address expr -> value
  std::map<KeyId, const void *> vers;                   // class -> version (absent: entry)
  std::map<const Expr *, AbsVal> facts;
  std::map<std::pair<const Expr *, const Expr *>, RelFact> rels;
  Aut aut;
  TraceP trace;
  bool sameAs(const State &o) const {
    return aut == o.aut && env == o.env && cells == o.cells && vers == o.vers && facts == o.facts && rels == o.rels;
  }
};

struct FnInfo {
  const Function *F;
  DenseMap<const BasicBlock *, unsigned> rpo;
  std::vector<const BasicBlock *> order;
  DenseMap<const BasicBlock *, DenseSet<const Value *>> liveIn;
  std::set<KeyId> mod;         // transitively modified classes (own + callees)
  bool modUnknown = false;
  std::vector<const Function *> callees;
  bool addressTaken = false;
  DenseSet<const Value *> constPhi; // phis whose inputs are all constants or truth values (flags, cleanup selectors)
};

struct Program {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  StringMap<const DICompositeType *> structs;      // by DI name
  DenseMap<const Value *, const DIType *> varType; // alloca/arg -> declared type (object type)
  DenseMap<const GlobalVariable *, const DIType *> globType;
  std::map<const Function *, FnInfo> info;
  std::vector<std::string> keyNames; // KeyId -> text
  StringMap<int> keyIds;
  std::vector<const DIType *> keyTypes; // type of the leaf
  // expressions
  std::map<std::tuple<int, unsigned, unsigned, int64_t, const Value *, const void *, const Expr *, const Expr *>, std::unique_ptr<Expr>> table;
  DenseMap<const Expr *, const DICompositeType *> hints;
  unsigned nextId = 1;
  std::string srcRoot;
  StringSet<> baseline;

  void load(const std::string &file);
  void prepare(const StringSet<> &baseline, const StringSet<> &keep, unsigned smallLimit);
  void index();

  KeyId key(StringRef s, const DIType *t = nullptr);
  StringRef keyName(KeyId k) const { return k > 0 && k < (int)keyNames.size() ? StringRef(keyNames[k]) : StringRef("?"); }

  const Expr *mk(Expr proto);
  const Expr *cst(unsigned w, int64_t c);
  const Expr *opaque(const Value *v, int tag, unsigned w);
  const Expr *op(unsigned op, const Expr *a, const Expr *b, unsigned w);
  const Expr *off(const Expr *b, int64_t c);
  const Expr *idx(const Expr *b, const Expr *i, int64_t scale);
  const Expr *field(const Expr *ptr, unsigned w, const void *ver, KeyId key);
  const Expr *inner(const Value *call, const Expr *e);
  const Expr *outer(const Expr *e);

  const DIType *pointeeType(const Expr *e);
  const DICompositeType *pointeeStruct(const Expr *e);
  KeyId keyOf(const Expr *ptr, unsigned bytes, const DIType **leaf = nullptr);
  std::string str(const Expr *e, int depth = 0);

  const DICompositeType *structOfIR(Type *t);
  const Expr *staticExpr(const Value *v, int depth = 0);
  const Expr *returnsAlias(const Function *f);
  std::map<const Function *, const Expr *> aliasMemo;
  Function *fn(StringRef name) { return M->getFunction(name); }
};

const DIType *stripTD(const DIType *t, StringRef *lastName = nullptr);
bool findMember(const DICompositeType *c, uint64_t off, uint64_t size, std::string &path,
                std::string &cls, const DIType *&leaf, StringRef tname);

// ------------------------------------------------------------------- engine
struct Engine;

struct Exit {
  Aut aut;
  const Expr *ret = nullptr; // callee terms
  AbsVal retv;
  std::map<const Expr *, const Expr *> cells;
  std::map<KeyId, const void *> vers;
  std::map<const Expr *, AbsVal> facts;
  TraceP trace;
};

struct Finding { std::string rule, file, func, inst, msg; unsigned line; std::vector<std::string> path; };

struct Client {
  Engine *E = nullptr;
  Program *P = nullptr;
  virtual ~Client() {}
  virtual bool trackKey(KeyId k) { return false; }
  virtual bool pinned(const Expr *ptr, KeyId k) { return false; } // field never changes during the analysed call
  virtual bool derefNonNull() { return false; }
  virtual bool keepCells() { return true; }
  virtual bool descend(const Function *F) { return false; }
  // called before default processing. Return true when the instruction has been
  // completely processed (out holds the successor states).
  virtual bool onCall(State &S, const CallBase *C, const Function *callee, std::vector<State> &out) { return false; }
  virtual void afterCall(State &S, const CallBase *C, const Function *callee) {}
  virtual void onLoad(State &S, const Instruction *I, const Expr *ptr, KeyId key) {}
  virtual void afterLoad(State &S, const LoadInst *L, const Expr *ptr, KeyId key) {} // S.env[L] holds the value
  // before the store takes effect
  virtual void onStore(State &S, const Instruction *I, const Expr *ptr, KeyId key, const Expr *val) {}
  virtual void onReturn(State &S, const ReturnInst *R, const Expr *ret) {}
  virtual void onEdge(State &S, const BasicBlock *from, const BasicBlock *to) {}
  virtual void onInst(State &S, const Instruction *I) {}
  virtual bool useAlias(const Function *f) { return true; }
  virtual bool splitByResult() { return false; } // never join states with failed and successful results
  virtual bool keepFact(const Expr *e) { return false; }
  virtual int decideCond(State &S, const Expr *c) { return -1; }
  virtual bool dropState(State &S) { return false; }
};

struct Engine {
  Program &P;
  Client &C;
  const Expr *edgeCond = nullptr; bool edgeTaken = false; // during onEdge: the branch condition before it was assumed
  unsigned maxDisj = 24;
  unsigned maxCtx = 64;
  uint64_t budget = 40'000'000;
  uint64_t steps = 0, blocks = 0, statesSeen = 0;
  bool budgetHit = false;
  std::set<const Function *> analysed;
  std::vector<std::pair<const Function *, const Instruction *>> stack; // call context
  std::string root;
  Engine(Program &p, Client &c) : P(p), C(c) { c.E = this; c.P = &p; }

  // analysis of one function
  std::vector<Exit> run(const Function *F, State entry, unsigned depth = 0);
  std::vector<Exit> summary(const Function *F, State entry, unsigned depth);

  const Expr *eval(State &S, const Value *V);
  AbsVal abs(const State &S, const Expr *e, int depth = 0);
  bool assume(State &S, const Expr *cond, bool truth);
  bool assumeVal(State &S, const Expr *e, const AbsVal &v, int depth = 0);
  int decide(const State &S, const Expr *cond); // 1/0/-1
  bool assumeCmp(State &S, unsigned pred, const Expr *a, const Expr *b);
  int decideCmp(const State &S, unsigned pred, const Expr *a, const Expr *b);
  const Expr *loadExpr(State &S, const Expr *ptr, unsigned w, const Instruction *I, bool vol);
  void storeTo(State &S, const Expr *ptr, KeyId key, const Expr *val, const Instruction *I);
  void derefd(State &S, const Expr *p);
  State entryState(const Function *F);
  void killKey(State &S, KeyId k, const void *ver);
  void purge(State &S, const void *origin);
  bool contains(const Expr *e, const void *origin);
  void prune(State &S, const BasicBlock *B, const FnInfo &FI);
  void joinInto(State &dst, const State &src, const BasicBlock *B);
  void killByCall(State &S, const CallBase *C, const Function *callee);
  void note(State &S, const Instruction *I, const std::string &msg);
  void execBlock(const Function *F, State S, const BasicBlock *B, BasicBlock::const_iterator it,
                 std::vector<std::pair<const BasicBlock *, State>> &succ, std::vector<Exit> &exits, unsigned depth);
  bool doCall(State &S, const CallBase *CB, std::vector<State> &out, unsigned depth);
  std::map<std::string, std::vector<Exit>> memo;
  std::set<std::string> inProgress;
  std::set<std::string> recursed;
  std::map<std::string, std::vector<Exit>> partial;
  std::string ctxKey(const Function *F, const State &entry);
};

std::string locOf(const Instruction *I, unsigned *line = nullptr, std::string *file = nullptr, std::string *func = nullptr);
std::vector<std::string> traceLines(const TraceP &t, unsigned max = 40);
bool isDbg(const Instruction &I);
const Function *calleeOf(const CallBase *C);
} // namespace va
