#include "rules.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/ADT/StringExtras.h"
#include <fstream>
#include <iostream>
#include <chrono>
#include <atomic>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace va;
namespace va {
std::map<std::string, RuleFn> &ruleTable() { static std::map<std::string, RuleFn> t; return t; }
RuleReg::RuleReg(const char *id, RuleFn f) { ruleTable()[id] = f; }
std::string srcFn(const Instruction *I) { std::string f; locOf(I, nullptr, nullptr, &f); return f; }
bool defined(const Function *f) { return f && !f->isDeclaration(); }
std::set<const Function *> reachers(Program &P, std::function<bool(const Function &)> own) {
  std::set<const Function *> r;
  for (auto &x : P.info) if (own(*x.first)) r.insert(x.first);
  bool ch = true;
  while (ch) { ch = false;
    for (auto &x : P.info) if (!r.count(x.first)) for (auto *c : x.second.callees) if (r.count(c)) { r.insert(x.first); ch = true; break; } }
  return r;
}
}
namespace va {
static void put(std::string &o, const std::string &s) { uint32_t n = s.size(); o.append((char *)&n, 4); o += s; }
static std::string take(const char *&p) { uint32_t n; memcpy(&n, p, 4); std::string s(p + 4, n); p += 4 + n; return s; }
void forkMap(RuleOut &R, size_t n, std::function<void(size_t, RuleOut &)> f, unsigned workers) {
  auto *next = (std::atomic<size_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (next) std::atomic<size_t>(0);
  if (workers > n) workers = n ? n : 1;
  std::vector<std::pair<int, pid_t>> kids;
  for (unsigned w = 0; w < workers; w++) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t pid = fork();
    if (pid < 0) { R.errors.push_back("fork failed"); close(fd[0]); close(fd[1]); break; }
    if (!pid) {
      close(fd[0]); std::string all;
      for (size_t i; (i = next->fetch_add(1)) < n;) {
        RuleOut r; f(i, r); std::string o;
        put(o, std::to_string(i)); put(o, std::to_string(r.findings.size()));
        for (auto &x : r.findings) { for (auto *q : {&x.rule, &x.file, &x.func, &x.inst, &x.msg}) put(o, *q); put(o, std::to_string(x.line)); put(o, std::to_string(x.path.size())); for (auto &l : x.path) put(o, l); }
        put(o, std::to_string(r.stats.size())); for (auto &x : r.stats) { put(o, x.first); put(o, std::to_string(x.second)); }
        put(o, std::to_string(r.samples.size())); for (auto &x : r.samples) put(o, x);
        put(o, std::to_string(r.errors.size())); for (auto &x : r.errors) put(o, x);
        all += o;
      }
      put(all, "end");
      for (size_t at = 0; at < all.size();) { ssize_t k = write(fd[1], all.data() + at, all.size() - at); if (k <= 0) _Exit(9); at += k; }
      _Exit(0);
    }
    close(fd[1]); kids.push_back({fd[0], pid});
  }
  std::map<size_t, RuleOut> got;
  for (auto &k : kids) {
    std::string all; char buf[65536]; ssize_t m;
    while ((m = read(k.first, buf, sizeof buf)) > 0) all.append(buf, m);
    close(k.first); int st = 0; waitpid(k.second, &st, 0);
    if (st || all.size() < 7 || all.substr(all.size() - 3) != "end") { R.errors.push_back("analysis worker died"); continue; }
    const char *p = all.data();
    for (;;) {
      std::string h = take(p); if (h == "end") break;
      RuleOut &r = got[std::stoull(h)];
      for (size_t c = std::stoull(take(p)); c--;) { Finding x; for (auto *q : {&x.rule, &x.file, &x.func, &x.inst, &x.msg}) *q = take(p); x.line = std::stoul(take(p)); for (size_t d = std::stoull(take(p)); d--;) x.path.push_back(take(p)); r.findings.push_back(x); }
      for (size_t c = std::stoull(take(p)); c--;) { std::string k2 = take(p); r.stats[k2] = std::stoll(take(p)); }
      for (size_t c = std::stoull(take(p)); c--;) r.samples.push_back(take(p));
      for (size_t c = std::stoull(take(p)); c--;) r.errors.push_back(take(p));
    }
  }
  munmap(next, 4096);
  for (auto &g : got) { for (auto &x : g.second.findings) R.add(x); for (auto &x : g.second.stats) R.stats[x.first] += x.second; for (auto &x : g.second.samples) R.samples.push_back(x); for (auto &x : g.second.errors) R.errors.push_back(x); }
}
}
static void readList(const std::string &f, StringSet<> &s) { std::ifstream i(f); std::string l; while (std::getline(i, l)) { while (!l.empty() && isspace(l.back())) l.pop_back(); if (!l.empty() && l[0] != '#') s.insert(l); } }
int main(int argc, char **argv) {
  std::string bc, base, keep, rule, out; Options O; unsigned small = 25; bool list = false, dump = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--bc") bc = nx(); else if (a == "--baseline") base = nx(); else if (a == "--keep") { keep = nx(); O.dir = keep.substr(0, keep.find_last_of('/') == std::string::npos ? 0 : keep.find_last_of('/') + 1); }
    else if (a == "--rule") rule = nx(); else if (a == "--out") out = nx(); else if (a == "--thorough") O.thorough = true;
    else if (a == "--small") small = atoi(nx().c_str()); else if (a == "--list-functions") list = true; else if (a == "--dump") dump = true;
    else if (a == "--disj") O.disj = atoi(nx().c_str()); else if (a == "--arg") O.arg = nx();
    else { std::cerr << "bad arg " << a << "\n"; return 3; }
  }
  static Program P; // kept alive: destruction of millions of expressions is a waste
  P.load(bc);
  if (list) { for (auto &F : *P.M) if (!F.isDeclaration()) std::cout << F.getName().str() << "\n"; return 0; }
  StringSet<> b, k;
  readList(base, b); if (!keep.empty()) readList(keep, k);
  auto t0 = std::chrono::steady_clock::now();
  if (O.arg == "hdr") for (auto &F : *P.M) if (!F.isDeclaration() && F.hasLinkOnceLinkage() && F.getSubprogram() && F.getSubprogram()->getFilename().ends_with("mdbx.h++")) F.setLinkage(llvm::GlobalValue::WeakODRLinkage);
  P.prepare(b, k, small);
  if (dump) { P.M->print(outs(), nullptr); outs().flush(); _Exit(0); }
  double prep = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  json::Object root;
  int rc = 0;
  SmallVector<StringRef, 8> rs; StringRef(rule).split(rs, ',');
  for (auto r : rs) {
    auto f = ruleTable().find(r.str());
    if (f == ruleTable().end()) { std::cerr << "unknown rule " << r.str() << "\n"; return 3; }
    RuleOut R;
    auto t1 = std::chrono::steady_clock::now();
    f->second(P, R, O);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
    json::Object o; json::Array fa;
    for (auto &x : R.findings) { json::Array pa; for (auto &l : x.path) pa.push_back(l);
      fa.push_back(json::Object{{"rule", x.rule}, {"file", x.file}, {"line", x.line}, {"func", x.func}, {"inst", x.inst}, {"msg", x.msg}, {"path", std::move(pa)}}); }
    o["findings"] = std::move(fa);
    json::Object st; for (auto &s : R.stats) st[s.first] = s.second; o["stats"] = std::move(st);
    json::Array sa; for (auto &s : R.samples) sa.push_back(s); o["samples"] = std::move(sa);
    json::Array ea; for (auto &s : R.errors) ea.push_back(s); o["errors"] = std::move(ea);
    o["seconds"] = dt; 
    root[r] = std::move(o);
  }
  root["prepare_s"] = prep; root["functions_in_module"] = (int64_t)P.info.size();
  std::error_code ec;
  if (out.empty()) { outs() << formatv("{0:2}", json::Value(std::move(root))) << "\n"; outs().flush(); }
  else { raw_fd_ostream f(out, ec); f << formatv("{0:2}", json::Value(std::move(root))) << "\n"; }
  fflush(stdout); _Exit(rc);
}
