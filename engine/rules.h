#pragma once
#include "core.h"
namespace va {
struct RuleOut {
  std::vector<Finding> findings;
  std::map<std::string, int64_t> stats;
  std::vector<std::string> samples;
  std::vector<std::string> errors; // analysis broken: anchors vanished etc.
  std::set<std::string> uniq;
  void sample(const std::string &s, unsigned max = 12) { if (samples.size() < max) samples.push_back(s); }
  void add(Finding f) {
    std::string k = f.rule + "|" + f.func + "|" + f.inst + "|" + std::to_string(f.line);
    if (uniq.insert(k).second) findings.push_back(std::move(f));
  }
  void add(const std::string &rule, const Instruction *at, const std::string &inst, const std::string &msg, const TraceP &t = nullptr) {
    Finding f; f.rule = rule; f.inst = inst; f.msg = msg;
    locOf(at, &f.line, &f.file, &f.func);
    f.path = traceLines(t);
    add(std::move(f));
  }
  void need(const std::string &what, int64_t have, int64_t min) {
    stats[what] = have;
    if (have < min) errors.push_back("analysis broken: " + what + " = " + std::to_string(have) + ", expected at least " + std::to_string(min));
  }
};
struct Options { bool thorough = false; unsigned disj = 24; std::string arg, dir; };
// f(i) for i < n in forked workers; each call returns a RuleOut fragment which is merged into R in index order
void forkMap(RuleOut &R, size_t n, std::function<void(size_t, RuleOut &)> f, unsigned workers = 8);
typedef void (*RuleFn)(Program &, RuleOut &, const Options &);
struct RuleReg { RuleReg(const char *id, RuleFn f); };
std::map<std::string, RuleFn> &ruleTable();
#define RULE(id) static void rule_##id(Program &P, RuleOut &R, const Options &O); static RuleReg reg_##id(#id, rule_##id); static void rule_##id(Program &P, RuleOut &R, const Options &O)

// helpers shared by rules
inline const Expr *rootExpr(const Expr *p) { while (p->k == K_Off || p->k == K_Idx) p = p->a; return p; }
std::string srcFn(const Instruction *I);
// functions which transitively contain a call to one of the names / satisfy pred
std::set<const Function *> reachers(Program &P, std::function<bool(const Function &)> own);
bool defined(const Function *f);
} // namespace va
