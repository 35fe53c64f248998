#include "core.h"
#include "llvm/Support/KnownBits.h"
#include "llvm/Analysis/ConstantFolding.h"
#include <deque>
namespace va {

static int64_t SEx(uint64_t u, unsigned w) {
  if (w >= 64) return (int64_t)u;
  u &= (1ull << w) - 1;
  if (u >> (w - 1) & 1) u |= ~((1ull << w) - 1);
  return (int64_t)u;
}

// ---------------------------------------------------------------- AbsVal
AbsVal AbsVal::top(unsigned w) {
  AbsVal v; v.w = w;
  v.umin = 0; v.umax = v.mask();
  v.smin = w >= 64 ? INT64_MIN : -(int64_t)(1ull << (w - 1));
  v.smax = w >= 64 ? INT64_MAX : (int64_t)((1ull << (w - 1)) - 1);
  return v;
}
AbsVal AbsVal::cst(unsigned w, int64_t c) {
  AbsVal v; v.w = w; uint64_t m = v.mask();
  v.one = (uint64_t)c & m; v.zero = ~v.one & m;
  v.umin = v.umax = v.one; v.smin = v.smax = SEx(v.one, w);
  return v;
}
bool AbsVal::isTop() const { AbsVal t = top(w); return *this == t; }
bool AbsVal::bottom() const { return (zero & one) || smin > smax || umin > umax; }
bool AbsVal::isConst(int64_t &c) const {
  if (umin == umax) { c = (int64_t)umin; return true; }
  return false;
}
void AbsVal::normalize() {
  uint64_t m = mask();
  for (int it = 0; it < 3; it++) {
    if (bottom()) return;
    // ranges <-> bits
    umin = std::max(umin, one);
    umax = std::min(umax, ~zero & m);
    if (umin > umax) return;
    // signed/unsigned
    uint64_t sb = 1ull << (w - 1);
    if (umax < sb) { smin = std::max(smin, (int64_t)umin); smax = std::min(smax, (int64_t)umax); }
    if (smin >= 0) { umin = std::max(umin, (uint64_t)smin); umax = std::min(umax, (uint64_t)smax); }
    if (smax < 0) { umin = std::max(umin, (uint64_t)smin & m); umax = std::min(umax, (uint64_t)smax & m); }
    if (umin >= sb) { smin = std::max(smin, SEx(umin, w)); smax = std::min(smax, SEx(umax, w)); }
    if (smin > smax || umin > umax) return;
    for (bool ch = true; ch && umin <= umax;) {
      ch = false;
      if (neq.count((int64_t)umin)) { if (umin == umax) { umin = 1; umax = 0; return; } umin++; ch = true; }
      else if (umin != umax && neq.count((int64_t)umax)) { umax--; ch = true; }
    }
    for (bool ch = true; ch && smin < smax;) {
      ch = false;
      if (neq.count((int64_t)((uint64_t)smin & m))) { smin++; ch = true; }
      else if (neq.count((int64_t)((uint64_t)smax & m))) { smax--; ch = true; }
    }
    if (umin == umax) { one |= umin; zero |= ~umin & m; }
    if (smin == smax) { uint64_t u = (uint64_t)smin & m; umin = std::max(umin, u); umax = std::min(umax, u); }
    // high zero bits from umax
    if (umax < m) { unsigned lz = __builtin_clzll(umax | 1); uint64_t hi = lz ? ~0ull << (64 - lz) : 0; if (umax == 0) hi = ~0ull; zero |= hi & m; }
    // a single undecided bit with "non zero" knowledge
    uint64_t unk = ~(zero | one) & m;
    if (neq.count(0) && !one && unk && !(unk & (unk - 1))) one |= unk;
    if (zero & one) return;
  }
  // drop redundant disequalities
  for (auto i = neq.begin(); i != neq.end();) {
    uint64_t u = (uint64_t)*i & m;
    if (u < umin || u > umax || (u & zero) || (~u & one) ) i = neq.erase(i); else ++i;
  }
}
bool AbsVal::meet(const AbsVal &o) {
  if (o.w != w) return true;
  zero |= o.zero; one |= o.one;
  smin = std::max(smin, o.smin); smax = std::min(smax, o.smax);
  umin = std::max(umin, o.umin); umax = std::min(umax, o.umax);
  for (auto x : o.neq) if (neq.size() < 24) neq.insert(x);
  normalize();
  return !bottom();
}
void AbsVal::join(const AbsVal &o) {
  // keep "never equals" information that either side implies
  std::set<int64_t> n;
  auto excl = [](const AbsVal &v, int64_t c) {
    uint64_t u = (uint64_t)c & v.mask();
    return v.neq.count(c) || u < v.umin || u > v.umax || (u & v.zero) || (~u & v.mask() & v.one);
  };
  for (auto x : neq) if (excl(o, x)) n.insert(x);
  for (auto x : o.neq) if (excl(*this, x)) n.insert(x);
  if (excl(*this, 0) && excl(o, 0)) n.insert(0);
  zero &= o.zero; one &= o.one;
  smin = std::min(smin, o.smin); smax = std::max(smax, o.smax);
  umin = std::min(umin, o.umin); umax = std::max(umax, o.umax);
  neq = n;
  normalize();
}
bool AbsVal::operator<(const AbsVal &o) const {
  return std::tie(zero, one, smin, smax, umin, umax, neq) < std::tie(o.zero, o.one, o.smin, o.smax, o.umin, o.umax, o.neq);
}

// ---------------------------------------------------------------- evaluation
AbsVal Engine::abs(const State &S, const Expr *e, int depth) {
  unsigned w = e->w;
  if (e->k == K_Const) return AbsVal::cst(w, e->c);
  AbsVal r = AbsVal::top(w);
  if (e->k == K_Alloca || e->k == K_Global) { r.neq.insert(0); r.normalize(); return r; }
  if (e->k == K_Off && e->c > 0 && e->c < 65536) { r.neq.insert(0); r.normalize(); } // &p->member is never null
  if (e->k == K_Op && depth < 10) {
    auto A = [&] { return abs(S, e->a, depth + 1); };
    auto B = [&] { return abs(S, e->b, depth + 1); };
    switch (e->op) {
    case Instruction::And: { auto x = A(), y = B(); r.zero = x.zero | y.zero; r.one = x.one & y.one; r.umax = std::min(x.umax, y.umax); r.normalize(); break; }
    case Instruction::Or: { auto x = A(), y = B(); r.zero = x.zero & y.zero; r.one = x.one | y.one; r.umin = std::max(x.umin, y.umin);
      if (x.nonZero() || y.nonZero()) r.neq.insert(0); r.normalize(); break; }
    case Instruction::Xor: { auto x = A(), y = B(); r.zero = (x.zero & y.zero) | (x.one & y.one); r.one = (x.zero & y.one) | (x.one & y.zero); r.normalize(); break; }
    case Instruction::ZExt: { auto x = A(); r.zero = x.zero | (r.mask() & ~x.mask()); r.one = x.one; r.umin = x.umin; r.umax = x.umax; r.neq = x.neq; r.normalize(); break; }
    case Instruction::SExt: { auto x = A(); r.smin = x.smin; r.smax = x.smax; if (x.neq.count(0)) r.neq.insert(0); r.normalize(); break; }
    case Instruction::Trunc: { auto x = A(); r.zero = x.zero & r.mask(); r.one = x.one & r.mask(); if (x.umax <= r.mask()) { r.umin = x.umin; r.umax = x.umax; r.neq = x.neq; } r.normalize(); break; }
    case Instruction::Shl: if (e->b->isConst() && (uint64_t)e->b->c < w) { auto x = A(); r.zero = ((x.zero << e->b->c) | ((1ull << e->b->c) - 1)) & r.mask(); r.one = (x.one << e->b->c) & r.mask(); r.normalize(); } break;
    case Instruction::LShr: if (e->b->isConst() && (uint64_t)e->b->c < w) { auto x = A(); r.umin = x.umin >> e->b->c; r.umax = x.umax >> e->b->c; r.zero = ((x.zero >> e->b->c) | ~(r.mask() >> e->b->c)) & r.mask(); r.one = x.one >> e->b->c; r.normalize(); } break;
    case Instruction::Add:
      if (w <= 64) { auto x = A(), y = B(); KnownBits p(w), q(w); p.Zero = APInt(w, x.zero & r.mask()); p.One = APInt(w, x.one & r.mask()); q.Zero = APInt(w, y.zero & r.mask()); q.One = APInt(w, y.one & r.mask());
        if (!p.hasConflict() && !q.hasConflict()) { auto z = KnownBits::computeForAddSub(true, false, p, q); r.zero |= z.Zero.getZExtValue(); r.one |= z.One.getZExtValue(); } }
      if (e->b->isConst()) { auto x = A(); uint64_t c = e->b->c; int64_t sc = SEx(c, w);
        if (sc >= 0 ? x.umax <= r.mask() - c : x.umin >= (uint64_t)-sc) { r.umin = (x.umin + c) & r.mask(); r.umax = (x.umax + c) & r.mask(); }
        for (auto n : x.neq) r.neq.insert((int64_t)(((uint64_t)n + c) & r.mask()));
        int64_t a1, b1; if (!__builtin_add_overflow(x.smin, sc, &a1) && !__builtin_add_overflow(x.smax, sc, &b1)) { AbsVal t = AbsVal::top(w); if (a1 >= t.smin && b1 <= t.smax) { r.smin = a1; r.smax = b1; } }
        r.normalize(); }
      break;
    case Instruction::Sub:
      if (w <= 64) { auto x = A(), y = B(); KnownBits p(w), q(w); p.Zero = APInt(w, x.zero & r.mask()); p.One = APInt(w, x.one & r.mask()); q.Zero = APInt(w, y.zero & r.mask()); q.One = APInt(w, y.one & r.mask());
        if (!p.hasConflict() && !q.hasConflict()) { auto z = KnownBits::computeForAddSub(false, false, p, q); r.zero |= z.Zero.getZExtValue(); r.one |= z.One.getZExtValue(); r.normalize(); } }
      break;
    case OP_SELECT: break;
    default:
      if (e->op >= OP_ICMP && e->op < OP_SELECT) { int d = decideCmp(S, e->op - OP_ICMP, e->a, e->b); if (d >= 0) return AbsVal::cst(1, d); }
    }
  }
  auto f = S.facts.find(e);
  if (f != S.facts.end()) r.meet(f->second);
  return r;
}

static void predMasks(unsigned pred, uint8_t &um, uint8_t &sm) { // bits: 1=LT 2=EQ 4=GT
  um = sm = 7;
  switch (pred) {
  case CmpInst::ICMP_EQ: um = sm = 2; break;
  case CmpInst::ICMP_NE: um = sm = 5; break;
  case CmpInst::ICMP_ULT: um = 1; sm = 5; break;
  case CmpInst::ICMP_ULE: um = 3; break;
  case CmpInst::ICMP_UGT: um = 4; sm = 5; break;
  case CmpInst::ICMP_UGE: um = 6; break;
  case CmpInst::ICMP_SLT: sm = 1; um = 5; break;
  case CmpInst::ICMP_SLE: sm = 3; break;
  case CmpInst::ICMP_SGT: sm = 4; um = 5; break;
  case CmpInst::ICMP_SGE: sm = 6; break;
  }
}
static uint8_t swp(uint8_t m) { return (m & 2) | ((m & 1) ? 4 : 0) | ((m & 4) ? 1 : 0); }

int Engine::decideCmp(const State &S, unsigned pred, const Expr *a, const Expr *b) {
  AbsVal x = abs(S, a, 3), y = abs(S, b, 3);
  if (x.bottom() || y.bottom()) return -1;
  uint8_t um = 7, sm = 7;
  if (x.umax < y.umin) um &= 1; else if (x.umax == y.umin) um &= 3;
  if (x.umin > y.umax) um &= 4; else if (x.umin == y.umax) um &= 6;
  if (x.smax < y.smin) sm &= 1; else if (x.smax == y.smin) sm &= 3;
  if (x.smin > y.smax) sm &= 4; else if (x.smin == y.smax) sm &= 6;
  int64_t c;
  bool ne = false;
  if (x.isConst(c) && y.neq.count(c)) ne = true;
  if (y.isConst(c) && x.neq.count(c)) ne = true;
  if ((x.one & y.zero) || (x.zero & y.one)) ne = true;
  if (a->w == 64 && (a->k == K_Off || b->k == K_Off)) { // two different places relative to the same address
    const Expr *p = a, *q = b; uint64_t i = 0, j = 0;
    while (p->k == K_Off) { i += p->c; p = p->a; }
    while (q->k == K_Off) { j += q->c; q = q->a; }
    if (p == q && i != j) ne = true;
  }
  if (ne) { um &= 5; sm &= 5; }
  if (!a->isConst() && !b->isConst()) {
    bool sw = a->id > b->id;
    auto f = S.rels.find(sw ? std::make_pair(b, a) : std::make_pair(a, b));
    if (f != S.rels.end()) { um &= sw ? swp(f->second.um) : f->second.um; sm &= sw ? swp(f->second.sm) : f->second.sm; }
    if (!(um & 2) || !(sm & 2)) { um &= 5; sm &= 5; }
  }
  uint8_t pu, ps; predMasks(pred, pu, ps);
  bool useU = pred >= CmpInst::ICMP_UGT && pred <= CmpInst::ICMP_ULE, useS = pred >= CmpInst::ICMP_SGT && pred <= CmpInst::ICMP_SLE;
  auto dec = [](uint8_t have, uint8_t want) { if (!(have & want)) return 0; if (!(have & ~want & 7)) return 1; return -1; };
  int r = -1;
  if (!useS) r = dec(um, pu);
  if (r < 0 && !useU) r = dec(sm, ps);
  return r;
}

int Engine::decide(const State &S, const Expr *c) {
  AbsVal v = abs(S, c);
  int64_t x;
  if (v.isConst(x)) return x != 0;
  if (v.nonZero()) return 1;
  return -1;
}

// record e's value lies within v, and propagate to its operands
bool Engine::assumeVal(State &S, const Expr *e, const AbsVal &v, int depth) {
  if (e->w != v.w) return true;
  AbsVal cur = abs(S, e);
  AbsVal nv = cur;
  if (!nv.meet(v)) return false;
  if (e->k == K_Const) return true;
  if (nv == cur && depth > 0) return true;
  auto f = S.facts.find(e);
  if (f == S.facts.end()) S.facts[e] = nv; else f->second = nv;
  if (depth > 12 || e->k != K_Op) return true;
  const Expr *a = e->a, *b = e->b;
  int64_t c;
  switch (e->op) {
  case Instruction::And:
    if (b->isConst()) {
      AbsVal t = AbsVal::top(e->w); t.zero = nv.zero & (uint64_t)b->c; t.one = nv.one; t.normalize();
      if (nv.nonZero()) t.neq.insert(0);
      t.normalize();
      return assumeVal(S, a, t, depth + 1);
    } else {
      if (e->w == 1) { if (nv.isConst(c)) { if (c) return assumeVal(S, a, nv, depth + 1) && assumeVal(S, b, nv, depth + 1);
          // one of them is known true -> the other is false
          AbsVal x = abs(S, a), y = abs(S, b); int64_t k;
          if (x.isConst(k) && k) return assumeVal(S, b, nv, depth + 1);
          if (y.isConst(k) && k) return assumeVal(S, a, nv, depth + 1); } }
      AbsVal t = AbsVal::top(e->w); t.one = nv.one; if (nv.nonZero()) t.neq.insert(0);
      AbsVal ta = t, tb = t; if (nv.zero) { ta.zero |= nv.zero & abs(S, b).one; tb.zero |= nv.zero & abs(S, a).one; } // a bit which is cleared although one side has it
      ta.normalize(); tb.normalize();
      if (!assumeVal(S, a, ta, depth + 1) || !assumeVal(S, b, tb, depth + 1)) return false;
    }
    break;
  case Instruction::Or: {
    AbsVal t = AbsVal::top(e->w); t.zero = nv.zero; t.umax = nv.umax; 
    AbsVal t1 = t, t2 = t;
    AbsVal x = abs(S, a), y = abs(S, b);
    t1.one = nv.one & y.zero; t2.one = nv.one & x.zero;
    if (nv.nonZero()) { if (y.isZero()) t1.neq.insert(0); if (x.isZero()) t2.neq.insert(0); }
    t1.normalize(); t2.normalize();
    return assumeVal(S, a, t1, depth + 1) && assumeVal(S, b, t2, depth + 1);
  }
  case Instruction::Shl:
    if (b->isConst() && b->c > 0 && b->c < 64) { AbsVal t = AbsVal::top(e->w); t.zero = nv.zero >> b->c; t.one = nv.one >> b->c; t.zero &= t.mask(); t.one &= t.mask(); if (nv.nonZero()) t.neq.insert(0); t.normalize(); return assumeVal(S, a, t, depth + 1); }
    break;
  case Instruction::Xor:
    if (b->isConst()) { AbsVal t = AbsVal::top(e->w); uint64_t k = b->c; t.zero = (nv.zero & ~k) | (nv.one & k); t.one = (nv.one & ~k) | (nv.zero & k); t.zero &= t.mask(); t.one &= t.mask();
      for (auto n : nv.neq) t.neq.insert((int64_t)(((uint64_t)n ^ k) & t.mask())); t.normalize(); return assumeVal(S, a, t, depth + 1); }
    break;
  case Instruction::ZExt: { AbsVal t = AbsVal::top(a->w); t.zero = nv.zero & t.mask(); t.one = nv.one & t.mask(); t.umin = nv.umin; t.umax = std::min(nv.umax, t.mask());
    if (nv.umin > t.mask()) return false; for (auto n : nv.neq) if (((uint64_t)n & ~t.mask()) == 0) t.neq.insert(n); t.normalize(); return assumeVal(S, a, t, depth + 1); }
  case Instruction::SExt: { AbsVal t = AbsVal::top(a->w); t.smin = std::max(t.smin, nv.smin); t.smax = std::min(t.smax, nv.smax); t.zero = nv.zero & t.mask(); t.one = nv.one & t.mask();
    if (nv.neq.count(0)) t.neq.insert(0); if (t.smin > t.smax) return false; t.normalize(); return assumeVal(S, a, t, depth + 1); }
  case Instruction::Trunc: { AbsVal t = AbsVal::top(a->w); t.zero = nv.zero; t.one = nv.one; if (nv.nonZero()) t.neq.insert(0); t.normalize(); return assumeVal(S, a, t, depth + 1); }
  case Instruction::Add: if (b->isConst()) { AbsVal t = AbsVal::top(e->w); uint64_t k = b->c;
      for (auto n : nv.neq) t.neq.insert((int64_t)(((uint64_t)n - k) & t.mask()));
      if (nv.isConst(c)) t = AbsVal::cst(e->w, (int64_t)(((uint64_t)c - k) & t.mask()));
      t.normalize(); return assumeVal(S, a, t, depth + 1); }
    break;
  default:
    if (e->op >= OP_ICMP && e->op < OP_SELECT && nv.isConst(c)) {
      unsigned p = e->op - OP_ICMP;
      if (!c) p = CmpInst::getInversePredicate((CmpInst::Predicate)p);
      return assumeCmp(S, p, a, b);
    }
  }
  return true;
}

bool Engine::assumeCmp(State &S, unsigned pred, const Expr *a, const Expr *b) {
  int d = decideCmp(S, pred, a, b);
  if (d == 0) return false;
  auto narrow = [&](const Expr *x, const AbsVal &y, unsigned p) -> bool {
    AbsVal t = AbsVal::top(x->w); int64_t c;
    uint64_t m = t.mask();
    switch (p) {
    case CmpInst::ICMP_EQ: t = y; break;
    case CmpInst::ICMP_NE: if (y.isConst(c)) t.neq.insert((int64_t)((uint64_t)c & m)); break;
    case CmpInst::ICMP_ULT: if (y.umax == 0) return false; t.umax = y.umax - 1; break;
    case CmpInst::ICMP_ULE: t.umax = y.umax; break;
    case CmpInst::ICMP_UGT: if (y.umin == m) return false; t.umin = y.umin + 1; break;
    case CmpInst::ICMP_UGE: t.umin = y.umin; break;
    case CmpInst::ICMP_SLT: if (y.smax == AbsVal::top(x->w).smin) return false; t.smax = y.smax - 1; break;
    case CmpInst::ICMP_SLE: t.smax = y.smax; break;
    case CmpInst::ICMP_SGT: if (y.smin == AbsVal::top(x->w).smax) return false; t.smin = y.smin + 1; break;
    case CmpInst::ICMP_SGE: t.smin = y.smin; break;
    }
    t.normalize();
    if (t.bottom()) return false;
    if (t.isTop()) return true;
    return assumeVal(S, x, t, 0);
  };
  AbsVal va = abs(S, a), vb = abs(S, b);
  if (!a->isConst() && !narrow(a, vb, pred)) return false;
  if (!b->isConst() && !narrow(b, va, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred))) return false;
  if (!a->isConst() && !b->isConst()) {
    uint8_t um, sm; predMasks(pred, um, sm);
    bool sw = a->id > b->id;
    auto &r = S.rels[sw ? std::make_pair(b, a) : std::make_pair(a, b)];
    r.um &= sw ? swp(um) : um; r.sm &= sw ? swp(sm) : sm;
    if (!(r.um & 2) || !(r.sm & 2)) { r.um &= 5; r.sm &= 5; }
    if (r.um == 2 || r.sm == 2) { r.um &= 2; r.sm &= 2; }
    if (!r.um || !r.sm) return false;
  }
  return true;
}

bool Engine::assume(State &S, const Expr *cond, bool truth) {
  return assumeVal(S, cond, AbsVal::cst(cond->w, truth ? 1 : 0), 0);
}

const Expr *Engine::eval(State &S, const Value *V) {
  unsigned w = V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 64;
  if (auto *C = dyn_cast<ConstantInt>(V)) { if (w <= 64) return P.cst(w, (int64_t)C->getZExtValue()); return P.opaque(V, 0, w); }
  if (isa<ConstantPointerNull>(V)) return P.cst(64, 0);
  if (auto *A = dyn_cast<Argument>(V)) { auto i = S.env.find(V); if (i != S.env.end()) return i->second; Expr e; e.k = K_Param; e.v = A; e.w = w; return P.mk(e); }
  if (isa<Function>(V) || isa<GlobalVariable>(V)) { Expr e; e.k = K_Global; e.v = V; return P.mk(e); }
  if (auto *G = dyn_cast<GEPOperator>(V); G && isa<ConstantExpr>(V)) {
    const Expr *b = eval(S, G->getPointerOperand()); APInt off(64, 0);
    if (G->accumulateConstantOffset(P.M->getDataLayout(), off)) return P.off(b, off.getSExtValue());
    return P.opaque(V, 0, w);
  }
  if (auto *I = dyn_cast<Instruction>(V)) { auto i = S.env.find(I); if (i != S.env.end()) return i->second; }
  if (isa<ConstantAggregateZero>(V)) return P.cst(64, 0);
  return P.opaque(V, 0, w);
}

// ------------------------------------------------------------------ memory
static const Expr *rootOf(const Expr *p) { while (p->k == K_Off || p->k == K_Idx) p = p->a; return p; }

const Expr *Engine::loadExpr(State &S, const Expr *ptr, unsigned w, const Instruction *I, bool vol) {
  KeyId k = P.keyOf(ptr, w / 8);
  bool local = rootOf(ptr)->k == K_Alloca;
  if (rootOf(ptr)->k == K_Global && (ptr->k == K_Global || (ptr->k == K_Off && ptr->a->k == K_Global)) && isa<LoadInst>(I)) { // constant tables
    auto *G = dyn_cast<GlobalVariable>(rootOf(ptr)->v);
    if (G && G->isConstant() && G->hasDefinitiveInitializer())
      if (Constant *c = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), I->getType(), APInt(64, ptr->k == K_Off ? ptr->c : 0), P.M->getDataLayout())) {
        if (auto *ci = dyn_cast<ConstantInt>(c); ci && ci->getBitWidth() <= 64) return P.cst(w, (int64_t)ci->getZExtValue());
        if (c->isNullValue()) return P.cst(w, 0);
        if (isa<GlobalValue>(c->stripPointerCasts())) { Expr e; e.k = K_Global; e.v = c->stripPointerCasts(); return P.mk(e); }
      }
  }
  if (C.pinned(ptr, k) && !S.cells.count(ptr)) return P.field(ptr, w, nullptr, k);
  bool track = C.trackKey(k) || local;
  if (track && !vol) {
    auto c = S.cells.find(ptr);
    if (c != S.cells.end() && c->second->w == w) return c->second;
    auto v = S.vers.find(k);
    const void *ver = v == S.vers.end() ? nullptr : v->second;
    if (c != S.cells.end()) ver = I;
    if (!ver && w <= 64) { // freshly zeroed memory
      const Expr *r = rootOf(ptr);
      if (r->k == K_Opaque && r->v) if (auto *CB = dyn_cast<CallBase>(r->v)) if (auto *f = calleeOf(CB)) if (f->getName() == "calloc" || f->getName() == "osal_calloc") return P.cst(w, 0);
    }
    return P.field(ptr, w, ver, k);
  }
  purge(S, I);
  return P.field(ptr, w, I, k);
}

bool Engine::contains(const Expr *e, const void *o) {
  uint64_t h = 1ull << (((uint64_t)o * 0x9E3779B97F4A7C15ull) >> 58);
  if (!(e->bloom & h)) return false;
  if ((e->k == K_Opaque || e->k == K_Inner) && e->v == o) return true;
  if (e->k == K_Field && e->ver == o) return true;
  if (e->a && contains(e->a, o)) return true;
  if (e->b && contains(e->b, o)) return true;
  return false;
}

// An instruction is about to define a new value under its own name: forget
// everything that referred to the value of a previous loop iteration.
void Engine::purge(State &S, const void *o) {
  // what is known about the numeric value outlives the name
  std::vector<std::pair<const Value *, AbsVal>> keep; std::map<int, AbsVal> keepTag;
  for (auto &c : S.env) if (contains(c.second, o) && c.second->k != K_Off && c.second->k != K_Idx && c.first != (const Value *)o && c.second->w <= 64) { AbsVal v = abs(S, c.second); if (!v.isTop()) keep.push_back({c.first, v}); }
  for (auto &t : S.aut.t) if (t.second && t.second->w <= 64 && contains(t.second, o) && t.second->k != K_Alloca) { AbsVal v = abs(S, t.second); auto i = keepTag.find(t.second->w); if (i == keepTag.end()) keepTag[t.second->w] = v; else i->second.join(v); }
  for (auto i = S.facts.begin(); i != S.facts.end();) if (contains(i->first, o)) i = S.facts.erase(i); else ++i;
  for (auto i = S.rels.begin(); i != S.rels.end();) if (contains(i->first.first, o) || contains(i->first.second, o)) i = S.rels.erase(i); else ++i;
  for (auto i = S.cells.begin(); i != S.cells.end();) {
    if (contains(i->first, o)) i = S.cells.erase(i);
    else if (contains(i->second, o)) { S.vers[P.keyOf(i->first, std::max(1u, i->second->w / 8))] = o; i = S.cells.erase(i); }
    else ++i;
  }
  for (auto &c : S.env) if (contains(c.second, o)) {
    if (c.second->k == K_Off || c.second->k == K_Idx) continue;
    if (c.first == (const Value *)o) continue;
    c.second = P.opaque(c.first, 3, c.second->w);
  }
  for (auto &k : keep) {
    const Expr *e = S.env[k.first]; bool shared = false;
    for (auto &c : S.env) if (c.first != k.first && contains(c.second, k.first)) { shared = true; break; }
    for (auto &c : S.cells) if (contains(c.second, k.first)) { shared = true; break; }
    if (!shared && e->k == K_Opaque && e->v == k.first) S.facts[e] = k.second;
  }
  std::set<std::pair<int, const Expr *>> nt; bool ch = false;
  std::map<const Expr *, int> nth; // terms of different roles stay different
  for (auto &t : S.aut.t) if (t.second && contains(t.second, o) && t.second->k != K_Alloca) { const Expr *e = P.opaque((const Value *)o, 9 + 32 * nth.insert({t.second, t.first}).first->second, t.second->w); auto k = keepTag.find(t.second->w); if (k != keepTag.end() && !k->second.isTop()) S.facts[e] = k->second; nt.insert({t.first, e}); ch = true; } else nt.insert(t);
  if (ch) S.aut.t = nt;
}

void Engine::killKey(State &S, KeyId k, const void *ver) {
  if (!C.trackKey(k)) {
    StringRef n = P.keyName(k);
    if (!n.starts_with("$")) { // cells of stack objects may live under this class
      for (auto i = S.cells.begin(); i != S.cells.end();) if (P.keyOf(i->first, i->second->w / 8) == k) i = S.cells.erase(i); else ++i;
      return;
    }
  }
  purge(S, ver);
  S.vers[k] = ver;
  for (auto i = S.cells.begin(); i != S.cells.end();) if (P.keyOf(i->first, i->second->w / 8) == k) i = S.cells.erase(i); else ++i;
}

static bool captured(const Value *A) {
  // address stored to memory or returned (calls handled separately)
  SmallVector<const Value *, 8> wl{A}; SmallPtrSet<const Value *, 16> seen;
  while (!wl.empty()) {
    auto *v = wl.pop_back_val();
    if (!seen.insert(v).second) continue;
    for (auto *u : v->users()) {
      if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getValueOperand() == v) return true; }
      else if (isa<GetElementPtrInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<CastInst>(u)) wl.push_back(u);
      else if (isa<ReturnInst>(u)) return true;
    }
  }
  return false;
}
static bool isCaptured(const Value *A) {
  static std::unordered_map<const Value *, bool> m;
  auto i = m.find(A);
  if (i != m.end()) return i->second;
  return m[A] = captured(A);
}

void Engine::storeTo(State &S, const Expr *ptr, KeyId k, const Expr *val, const Instruction *I) {
  const Expr *r = rootOf(ptr);
  bool track = C.trackKey(k) || r->k == K_Alloca;
  if (!track) { killKey(S, k, I); return; }
  bool local = r->k == K_Alloca && !isCaptured(r->v);
  // weak/strong update: cells of the same class with a possibly equal address die
  bool dup = false;
  if (!local) {
    purge(S, I);
    std::vector<std::pair<const Expr *, const Expr *>> keepc;
    for (auto i = S.cells.begin(); i != S.cells.end();) {
      const Expr *cr = rootOf(i->first);
      bool dis = (cr->k == K_Alloca && r->k == K_Alloca && cr != r) || (cr->k == K_Alloca && !isCaptured(cr->v));
      if (cr == r && i->first != ptr && (i->first == r || i->first->k == K_Off) && (ptr == r || ptr->k == K_Off)) dis = true; // same base, other constant offset
      if (!dis && i->first != ptr && P.keyOf(i->first, i->second->w / 8) == k) i = S.cells.erase(i); else ++i;
    }
    if (r->k != K_Alloca) S.vers[k] = I;
    dup = true;
  } else {
    for (auto i = S.cells.begin(); i != S.cells.end();) {
      // overlapping cells of the same object
      if (rootOf(i->first) == r && i->first != ptr) {
        int64_t o1 = i->first->k == K_Off ? i->first->c : 0, o2 = ptr->k == K_Off ? ptr->c : 0;
        bool plain = (i->first == r || i->first->a == r) && (ptr == r || ptr->a == r);
        int64_t s1 = std::max(1u, i->second->w / 8), s2 = std::max(1u, val->w / 8);
        if (!plain || (o1 < o2 + s2 && o2 < o1 + s1)) { i = S.cells.erase(i); continue; }
      }
      ++i;
    }
  }
  (void)dup;
  S.cells[ptr] = val;
}

void Engine::note(State &S, const Instruction *I, const std::string &msg) {
  unsigned l = 0; locOf(I, &l);
  unsigned d = S.trace ? S.trace->depth + 1 : 1;
  S.trace = std::make_shared<Trace>(Trace{S.trace, l, msg, d});
}

static bool memberRange(const DICompositeType *c, StringRef path, int64_t &off, int64_t &size) {
  auto dot = path.find_first_of(".["); StringRef name = path.substr(0, dot);
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e); if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    if (m->getName() == name) { off = m->getOffsetInBits() / 8; size = (m->getSizeInBits() + 7) / 8; return true; }
    if (m->getName().empty()) if (auto *in = dyn_cast_or_null<DICompositeType>(stripTD(m->getBaseType()))) { if (memberRange(in, path, off, size)) { off += m->getOffsetInBits() / 8; return true; } }
  }
  return false;
}

void Engine::killByCall(State &S, const CallBase *CB, const Function *callee) {
  bool pure = callee && (callee->onlyReadsMemory() || callee->doesNotAccessMemory());
  // locals whose address is passed
  std::set<const Expr *> passed;
  if (!pure)
    for (auto &A : CB->args()) {
      if (!A->getType()->isPointerTy()) continue;
      const Expr *e = eval(S, A);
      const Expr *r = rootOf(e);
      if (r->k == K_Alloca) passed.insert(r);
    }
  auto intr = callee ? callee->getIntrinsicID() : Intrinsic::not_intrinsic;
  bool memop = intr == Intrinsic::memcpy || intr == Intrinsic::memmove || intr == Intrinsic::memset || (callee && (callee->getName() == "memcpy" || callee->getName() == "memset" || callee->getName() == "memmove"));
  if (memop) {
    const Expr *d = eval(S, CB->getArgOperand(0)); const Expr *r = rootOf(d);
    // the overwritten range, when it is constant
    auto constOff = [&](const Expr *e, int64_t &o) { o = 0; while (e->k == K_Off) { o += e->c; e = e->a; } return e == r; };
    int64_t lo = 0, len = 0, co; bool ranged = constOff(d, lo) && abs(S, eval(S, CB->getArgOperand(2))).isConst(len) && len >= 0;
    for (auto i = S.cells.begin(); i != S.cells.end();) {
      if (rootOf(i->first) == r && !(ranged && constOff(i->first, co) && (co >= lo + len || co + (int64_t)(i->second->w + 7) / 8 <= lo))) i = S.cells.erase(i); else ++i;
    }
    // versions of that struct's tracked classes
    if (r->k != K_Alloca) {
      if (auto *st = P.pointeeStruct(r)) {
        std::string pre = st->getName().str() + ".";
        std::vector<KeyId> ks;
        for (unsigned k = 1; k < P.keyNames.size(); k++) if (C.trackKey(k) && StringRef(P.keyNames[k]).starts_with(pre)) {
          int64_t mo, ms;
          if (ranged && memberRange(st, StringRef(P.keyNames[k]).drop_front(pre.size()), mo, ms) && (mo >= lo + len || mo + ms <= lo)) continue;
          ks.push_back(k);
        }
        for (auto k : ks) killKey(S, k, CB);
      }
    } else { // reading an overwritten local yields a new value
      std::set<KeyId> ks; 
      KeyId k = P.keyOf(r, 8); (void)k;
      for (unsigned kk = 1; kk < P.keyNames.size(); kk++) if (S.vers.count(kk)) ks.insert(kk);
      purge(S, CB);
      std::string pre; if (auto *st = P.pointeeStruct(r)) pre = st->getName().str() + ".";
      for (unsigned kk = 1; kk < P.keyNames.size(); kk++) if ((!pre.empty() && StringRef(P.keyNames[kk]).starts_with(pre) && C.trackKey(kk)) || kk == (unsigned)P.keyOf(r, 8)) S.vers[kk] = CB;
    }
    return;
  }
  if (intr != Intrinsic::not_intrinsic) return;
  const FnInfo *FI = nullptr;
  if (callee) { auto i = P.info.find(callee); if (i != P.info.end()) FI = &i->second; }
  for (auto *r : passed) {
    for (auto i = S.cells.begin(); i != S.cells.end();) {
      if (rootOf(i->first) == r) {
        KeyId k = P.keyOf(i->first, i->second->w / 8);
        bool mod = !FI || FI->mod.count(k) || P.keyName(k).starts_with("$") || FI->mod.count(0);
        if (mod) { S.vers[k] = CB; i = S.cells.erase(i); continue; }
      }
      ++i;
    }
    KeyId k = P.keyOf(r, 8);
    if (P.keyName(k).starts_with("$")) { purge(S, CB); S.vers[k] = CB; }
    else if (!FI) { // external callee may fill the structure
      if (auto *st = P.pointeeStruct(r)) { std::string pre = st->getName().str() + "."; purge(S, CB);
        for (unsigned kk = 1; kk < P.keyNames.size(); kk++) if (StringRef(P.keyNames[kk]).starts_with(pre)) S.vers[kk] = CB; }
    }
  }
  if (pure) return;
  if (FI) {
    for (KeyId k : FI->mod) if (k && C.trackKey(k)) killKey(S, k, CB);
    // untracked classes may still back cells of captured locals
    for (auto i = S.cells.begin(); i != S.cells.end();) {
      const Expr *r = rootOf(i->first);
      if (r->k == K_Alloca && !isCaptured(r->v) && !passed.count(r)) { ++i; continue; }
      KeyId k = P.keyOf(i->first, i->second->w / 8);
      if (FI->mod.count(k)) { S.vers[k] = CB; i = S.cells.erase(i); } else ++i;
    }
  }
}

// ------------------------------------------------------------ state hygiene
void Engine::prune(State &S, const BasicBlock *B, const FnInfo &FI) {
  auto li = FI.liveIn.find(B);
  if (li != FI.liveIn.end())
    for (auto i = S.env.begin(); i != S.env.end();) {
      if (!isa<Argument>(i->first) && !li->second.count(i->first)) i = S.env.erase(i); else ++i;
    }
  // symbols that are still reachable
  DenseSet<const Expr *> live;
  std::function<void(const Expr *)> add = [&](const Expr *e) {
    if (!live.insert(e).second) return;
    if (e->a) add(e->a);
    if (e->b) add(e->b);
  };
  for (auto &x : S.env) add(x.second);
  for (auto &x : S.cells) { add(x.second); add(x.first); }
  for (auto &x : S.aut.t) if (x.second) add(x.second);
  std::function<bool(const Expr *)> reach = [&](const Expr *e) -> bool {
    if (live.count(e)) return true;
    switch (e->k) {
    case K_Const: case K_Param: case K_Global: case K_Alloca: case K_Outer: return true;
    case K_Opaque: case K_Inner: return false;
    case K_Field: {
      if (!C.trackKey(e->key) && !P.keyName(e->key).starts_with("$")) return false;
      auto v = S.vers.find(e->key);
      const void *ver = v == S.vers.end() ? nullptr : v->second;
      if (ver != e->ver) return false;
      return reach(e->a);
    }
    default: return (!e->a || reach(e->a)) && (!e->b || reach(e->b));
    }
  };
  for (auto i = S.facts.begin(); i != S.facts.end();) if (!C.keepFact(i->first) && !reach(i->first)) i = S.facts.erase(i); else ++i;
  for (auto i = S.rels.begin(); i != S.rels.end();) if (!reach(i->first.first) || !reach(i->first.second)) i = S.rels.erase(i); else ++i;
  for (auto i = S.cells.begin(); i != S.cells.end();) {
    const Expr *r = rootOf(i->first);
    if ((r->k == K_Opaque || r->k == K_Inner) && !live.count(r)) i = S.cells.erase(i); else ++i;
  }
}

// bounds that moved jump to the next threshold, so that chains stay finite
static AbsVal widened(const AbsVal &old, const AbsVal &o) {
  AbsVal v = old; v.join(o);
  static const uint64_t up[] = {0, 1, 2, 3, 4, 8, 16, 32, 64, 255, 4095, 65535, 0x7fffffff, 0xffffffffull, 0x7fffffffffffffffull, ~0ull};
  AbsVal t = AbsVal::top(v.w);
  if (v.umax > old.umax) for (auto x : up) if (x >= v.umax || x >= t.umax) { v.umax = std::min(x, t.umax); break; }
  if (v.umin < old.umin) { uint64_t b = 0; for (auto x : up) if (x <= v.umin) b = x; v.umin = b; }
  if (v.smax > old.smax) { bool done = false; if (v.smax < 0) { v.smax = -1; done = true; } if (!done) for (auto x : up) if ((int64_t)x >= 0 && (int64_t)x >= v.smax) { v.smax = std::min((int64_t)x, t.smax); done = true; break; } if (!done) v.smax = t.smax; }
  if (v.smin < old.smin) { if (v.smin >= 0) v.smin = v.smin >= 1 ? 1 : 0; else if (v.smin == -1) {} else v.smin = t.smin; }
  v.normalize();
  return v;
}

void Engine::joinInto(State &d, const State &s, const BasicBlock *B) {
  std::map<const Expr *, AbsVal> extra; // abstract values of the joined names
  for (auto &x : d.env) {
    auto i = s.env.find(x.first);
    if (i == s.env.end()) { x.second = P.opaque(x.first, 1, x.second->w); continue; }
    if (i->second == x.second) continue;
    const Expr *n = P.opaque(x.first, 1, x.second->w);
    if (i->second->w == x.second->w) { AbsVal v = widened(abs(d, x.second), abs(s, i->second)); if (!v.isTop()) extra[n] = v; }
    x.second = n;
  }
  for (auto &x : s.env) if (!d.env.count(x.first)) d.env[x.first] = P.opaque(x.first, 1, x.second->w);
  // facts about values that are the joined names: recompute by joining abstract values
  std::map<const Expr *, AbsVal> nf;
  for (auto &x : d.facts) {
    auto i = s.facts.find(x.first);
    AbsVal o = i == s.facts.end() ? const_cast<Engine *>(this)->abs(s, x.first) : i->second;
    AbsVal v = widened(x.second, o);
    if (!v.isTop() && !extra.count(x.first)) nf[x.first] = v;
  }
  for (auto &x : extra) nf[x.first] = x.second;
  d.facts = nf;
  std::map<std::pair<const Expr *, const Expr *>, RelFact> nr;
  for (auto &x : d.rels) { auto i = s.rels.find(x.first); if (i == s.rels.end()) continue; RelFact r = x.second; r.um |= i->second.um; r.sm |= i->second.sm; if (r.um != 7 || r.sm != 7) nr[x.first] = r; }
  d.rels = nr;
  std::set<KeyId> ks;
  for (auto &x : d.vers) ks.insert(x.first);
  for (auto &x : s.vers) ks.insert(x.first);
  for (auto k : ks) { auto a = d.vers.find(k); auto b = s.vers.find(k); const void *va = a == d.vers.end() ? nullptr : a->second, *vb = b == s.vers.end() ? nullptr : b->second; if (va != vb) d.vers[k] = B; }
  for (auto i = d.cells.begin(); i != d.cells.end();) {
    auto j = s.cells.find(i->first);
    if (j == s.cells.end() || j->second != i->second) { KeyId k = P.keyOf(i->first, i->second->w / 8); d.vers[k] = B; i = d.cells.erase(i); } else ++i;
  }
  for (auto &x : s.cells) if (!d.cells.count(x.first)) d.vers[P.keyOf(x.first, x.second->w / 8)] = B;
}

// --------------------------------------------------------------- execution
void Engine::execBlock(const Function *F, State S0, const BasicBlock *B, BasicBlock::const_iterator it0,
                       std::vector<std::pair<const BasicBlock *, State>> &succ, std::vector<Exit> &exits, unsigned depth) {
  struct Item { State S; BasicBlock::const_iterator it; };
  std::vector<Item> wl; std::vector<State> invOut;
  wl.push_back({std::move(S0), it0});
  auto &DL = P.M->getDataLayout();
  while (!wl.empty()) {
    Item cur = std::move(wl.back()); wl.pop_back();
    State &S = cur.S;
    bool dead = false;
    for (auto it = cur.it; it != B->end() && !dead; ++it) {
      const Instruction *I = &*it;
      if (isa<PHINode>(I) || isDbg(*I)) continue;
      steps++;
      unsigned w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 64;
      C.onInst(S, I);
      if (isa<AllocaInst>(I)) { Expr e; e.k = K_Alloca; e.v = I; S.env[I] = P.mk(e); continue; }
      if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
        const Expr *b = eval(S, G->getPointerOperand());
        MapVector<Value *, APInt> var; APInt co(64, 0);
        if (auto *s = P.structOfIR(G->getSourceElementType())) {
          const Expr *r = b;
          // a typed view of an otherwise untyped address
          if (!P.hints.count(b)) {
            const Expr *rr = rootOf(r);
            auto *rs = P.pointeeStruct(rr);
            bool typed = rs != nullptr && (b == rr || b->k == K_Off || b->k == K_Idx);
            if (!typed || (b != rr && rs && b->k == K_Idx && b->c == 1)) P.hints.insert({b, s});
          }
        }
        if (!G->collectOffset(DL, 64, var, co)) { purge(S, I); S.env[I] = P.opaque(I, 0, 64); continue; }
        for (auto &p : var) b = P.idx(b, eval(S, p.first), p.second.getSExtValue());
        S.env[I] = P.off(b, co.getSExtValue());
        continue;
      }
      if (auto *L = dyn_cast<LoadInst>(I)) {
        const Expr *p = eval(S, L->getPointerOperand());
        unsigned lw = L->getType()->isIntegerTy() || L->getType()->isPointerTy() ? w : DL.getTypeSizeInBits(L->getType());
        KeyId k = P.keyOf(p, std::max(1u, lw / 8));
        C.onLoad(S, I, p, k);
        if (C.derefNonNull()) derefd(S, p);
        S.env[I] = loadExpr(S, p, lw, I, L->isVolatile());
        if (p->k == K_Opaque) if (auto *EC = dyn_cast_or_null<CallBase>(p->v)) if (auto *ef = calleeOf(EC); ef && ef->getName() == "__errno_location") {
          AbsVal nz = AbsVal::top(lw); nz.neq.insert(0); nz.normalize(); assumeVal(S, S.env[I], nz, 0); // errno is read after a failure only
        }
        C.afterLoad(S, L, p, k);
        continue;
      }
      if (auto *St = dyn_cast<StoreInst>(I)) {
        const Expr *p = eval(S, St->getPointerOperand()), *v = eval(S, St->getValueOperand());
        unsigned sw = v->w;
        KeyId k = P.keyOf(p, std::max(1u, (unsigned)(DL.getTypeStoreSize(St->getValueOperand()->getType()))));
        (void)sw;
        C.onStore(S, I, p, k, v);
        if (C.derefNonNull()) derefd(S, p);
        storeTo(S, p, k, v, I);
        continue;
      }
      if (auto *A = dyn_cast<AtomicRMWInst>(I)) {
        const Expr *p = eval(S, A->getPointerOperand()), *v = eval(S, A->getValOperand());
        KeyId k = P.keyOf(p, w / 8);
        C.onLoad(S, I, p, k);
        purge(S, I);
        const Expr *old = P.field(p, w, I, k);
        const Expr *nv = P.opaque(I, 5, w);
        if (A->getOperation() == AtomicRMWInst::Xchg) nv = v;
        else if (A->getOperation() == AtomicRMWInst::Add) nv = P.op(Instruction::Add, old, v, w);
        else if (A->getOperation() == AtomicRMWInst::Or) nv = P.op(Instruction::Or, old, v, w);
        else if (A->getOperation() == AtomicRMWInst::And) nv = P.op(Instruction::And, old, v, w);
        C.onStore(S, I, p, k, nv);
        killKey(S, k, I);
        S.env[I] = old;
        continue;
      }
      if (auto *A = dyn_cast<AtomicCmpXchgInst>(I)) {
        const Expr *p = eval(S, A->getPointerOperand()), *v = eval(S, A->getNewValOperand());
        unsigned cw = A->getCompareOperand()->getType()->isIntegerTy() ? A->getCompareOperand()->getType()->getIntegerBitWidth() : 64;
        KeyId k = P.keyOf(p, cw / 8);
        C.onLoad(S, I, p, k);
        C.onStore(S, I, p, k, v);
        killKey(S, k, I);
        purge(S, I);
        S.env[I] = P.opaque(I, 0, 64);
        continue;
      }
      if (auto *X = dyn_cast<ICmpInst>(I)) {
        const Expr *a = eval(S, X->getOperand(0)), *b = eval(S, X->getOperand(1));
        S.env[I] = P.op(OP_ICMP + X->getPredicate(), a, b, 1);
        if (C.splitByResult() && !S.env[I]->isConst() && X->hasOneUse() && isa<PHINode>(*X->user_begin())) { // a && b, a || b
          const Expr *c = S.env[I];
          if (decide(S, c) < 0) {
            State T = S;
            auto nx = it; ++nx;
            if (assume(T, c, false)) { T.env[I] = P.cst(1, 0); edgeCond = c; edgeTaken = false; C.onEdge(T, B, B); edgeCond = nullptr; wl.push_back({std::move(T), nx}); }
            if (!assume(S, c, true)) { dead = true; continue; }
            edgeCond = c; edgeTaken = true; C.onEdge(S, B, B); edgeCond = nullptr;
            S.env[I] = P.cst(1, 1);
          }
        }
        continue;
      }
      if (auto *BO = dyn_cast<BinaryOperator>(I); BO && I->getType()->isIntegerTy() && w <= 64) {
        S.env[I] = P.op(BO->getOpcode(), eval(S, BO->getOperand(0)), eval(S, BO->getOperand(1)), w);
        continue;
      }
      if (auto *CI = dyn_cast<CastInst>(I)) {
        const Expr *a = eval(S, CI->getOperand(0));
        unsigned o = CI->getOpcode();
        if (o == Instruction::ZExt || o == Instruction::SExt || o == Instruction::Trunc) { if (w <= 64 && a->w <= 64) { S.env[I] = P.op(o, a, nullptr, w); continue; } }
        else if (o == Instruction::PtrToInt || o == Instruction::IntToPtr || o == Instruction::BitCast) { if (a->w == w) { S.env[I] = a; continue; } }
        purge(S, I); S.env[I] = P.opaque(I, 0, w); continue;
      }
      if (isa<FreezeInst>(I)) { S.env[I] = eval(S, I->getOperand(0)); continue; }
      if (auto *Se = dyn_cast<SelectInst>(I)) {
        const Expr *c = eval(S, Se->getCondition());
        if (c->w == 1) {
          int d = decide(S, c);
          if (d < 0) {
            State T = S;
            auto nx = it; ++nx;
            if (assume(T, c, false)) { T.env[I] = eval(T, Se->getFalseValue()); wl.push_back({std::move(T), nx}); }
            if (!assume(S, c, true)) { dead = true; continue; }
            d = 1;
          }
          S.env[I] = eval(S, d ? Se->getTrueValue() : Se->getFalseValue());
        } else { purge(S, I); S.env[I] = P.opaque(I, 0, w); }
        continue;
      }
      if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
        const Expr *a = eval(S, EV->getAggregateOperand());
        unsigned ix = EV->getIndices()[0];
        const Expr *x = a; const Expr *found = nullptr;
        while (x->k == K_Op && x->op == Instruction::InsertValue) { if ((unsigned)x->c == ix) { found = x->b; break; } x = x->a; }
        if (!found) { Expr e; e.k = K_Op; e.op = Instruction::ExtractValue; e.a = x; e.c = ix; e.w = w; found = P.mk(e); }
        S.env[I] = found;
        continue;
      }
      if (auto *IV = dyn_cast<InsertValueInst>(I)) {
        Expr e; e.k = K_Op; e.op = Instruction::InsertValue; e.a = eval(S, IV->getAggregateOperand()); e.b = eval(S, IV->getInsertedValueOperand()); e.c = IV->getIndices()[0];
        S.env[I] = P.mk(e);
        continue;
      }
      if (auto *CB = dyn_cast<CallBase>(I)) {
        std::vector<State> out;
        bool inv = isa<InvokeInst>(I); State before; if (inv) before = S;
        bool handled = doCall(S, CB, out, depth);
        if (inv) { invOut.clear(); if (handled) { for (auto &o : out) if (!C.dropState(o)) invOut.push_back(std::move(o)); } else invOut.push_back(S); S = std::move(before); killByCall(S, CB, calleeOf(CB)); }
        else if (handled) {
          auto nx = it; ++nx;
          bool first = true; State keep;
          for (auto &o : out) { if (C.dropState(o)) continue; if (first) { keep = std::move(o); first = false; } else { wl.push_back({std::move(o), nx}); } }
          if (first) { dead = true; continue; }
          S = std::move(keep);
        }
        if (isa<InvokeInst>(I)) { /* terminator handled below */ }
        else continue;
      }
      if (I->isTerminator()) {
        auto go = [&](State &T, const BasicBlock *N) {
          // phis
          std::vector<std::pair<const Value *, const Expr *>> pv;
          for (auto &ph : N->phis()) pv.push_back({&ph, eval(T, ph.getIncomingValueForBlock(B))});
          for (auto &p : pv) {
            // an old value of this phi name may be referred to by joined names
            purge(T, p.first);
            T.env[p.first] = p.second;
            // induction variables: do not enumerate the iterations
            const Value *in = cast<PHINode>(p.first)->getIncomingValueForBlock(B);
            bool ind = false; int64_t step = 0;
            if (auto *bo = dyn_cast<BinaryOperator>(in)) { if (bo->getOpcode() == Instruction::Add && bo->getOperand(0) == p.first) if (auto *k = dyn_cast<ConstantInt>(bo->getOperand(1))) { ind = true; step = k->getSExtValue(); } if (bo->getOpcode() == Instruction::Sub && bo->getOperand(0) == p.first && isa<ConstantInt>(bo->getOperand(1))) ind = true; }
            else if (auto *gp = dyn_cast<GetElementPtrInst>(in)) ind = gp->getPointerOperand() == p.first;
            if (ind && !(p.second->k == K_Const && p.second->c >= -4 && p.second->c <= 4)) {
              int64_t was = p.second->k == K_Const ? p.second->c : 0;
              const Expr *o = P.opaque(p.first, 1, p.second->w);
              AbsVal av = AbsVal::top(p.second->w);
              if (step > 0) { AbsVal pv0 = abs(T, p.second); if (pv0.smin > 0) { av.smin = was > 0 ? was : std::min<int64_t>(pv0.smin, 5); } }
              T.env[p.first] = o;
              av.normalize();
              if (!av.isTop()) T.facts[o] = av;
            }
          }
          C.onEdge(T, B, N);
          if (C.dropState(T)) return;
          succ.push_back({N, T});
        };
        if (auto *Br = dyn_cast<BranchInst>(I)) {
          if (Br->isUnconditional()) { go(S, Br->getSuccessor(0)); dead = true; continue; }
          const Expr *c = eval(S, Br->getCondition());
          int d = C.decideCond(S, c);
          if (d < 0) d = decide(S, c);
          for (int k = 1; k >= 0; k--) {
            if (d >= 0 && d != k) continue;
            State T = S;
            if (!assume(T, c, k)) continue;
            if (d < 0) note(T, I, k ? "branch taken" : "branch not taken");
            edgeCond = c; edgeTaken = k;
            go(T, Br->getSuccessor(k ? 0 : 1));
            edgeCond = nullptr;
          }
        } else if (auto *Sw = dyn_cast<SwitchInst>(I)) {
          const Expr *c = eval(S, Sw->getCondition());
          State D = S; bool dOk = true;
          std::map<const BasicBlock *, int> multi;
          for (auto &cs : Sw->cases()) {
            State T = S;
            const Expr *k = P.cst(c->w, (int64_t)cs.getCaseValue()->getZExtValue());
            if (assumeCmp(T, CmpInst::ICMP_EQ, c, k)) { note(T, I, "case " + std::to_string(cs.getCaseValue()->getSExtValue())); go(T, cs.getCaseSuccessor()); }
            if (dOk) dOk = assumeCmp(D, CmpInst::ICMP_NE, c, k);
          }
          if (dOk && !isa<UnreachableInst>(Sw->getDefaultDest()->getFirstNonPHIOrDbg())) { note(D, I, "default case"); go(D, Sw->getDefaultDest()); }
        } else if (auto *R = dyn_cast<ReturnInst>(I)) {
          const Expr *rv = R->getReturnValue() ? eval(S, R->getReturnValue()) : nullptr;
          C.onReturn(S, R, rv);
          Exit X; X.aut = S.aut; X.ret = rv; X.retv = rv ? abs(S, rv) : AbsVal::top(1); X.cells = S.cells; X.vers = S.vers; X.facts = S.facts; X.trace = S.trace;
          exits.push_back(std::move(X));
        } else if (auto *Iv = dyn_cast<InvokeInst>(I)) {
          for (auto &T : invOut) go(T, Iv->getNormalDest());
          { State T = S; note(T, I, "exception"); go(T, Iv->getUnwindDest()); }
        } else if (isa<UnreachableInst>(I) || isa<ResumeInst>(I)) {
        } else {
          for (auto *N : successors(B)) { State T = S; go(T, N); }
        }
        dead = true; continue;
      }
      if (!I->getType()->isVoidTy()) { purge(S, I); S.env[I] = P.opaque(I, 0, w); }
    }
  }
}

static std::string retClass(const Exit &X) {
  if (!X.ret) return "void";
  int64_t c;
  if (X.retv.isConst(c)) return "c" + std::to_string(c);
  if (X.retv.nonZero()) return "nz";
  return "?";
}

std::vector<Exit> Engine::run(const Function *F, State entry, unsigned depth) {
  analysed.insert(F);
  FnInfo &FI = P.info[F];
  std::map<const BasicBlock *, std::vector<State>> seen;
  typedef std::pair<Aut, std::string> GKey;
  std::map<const BasicBlock *, std::map<GKey, std::vector<size_t>>> byAut;
  std::map<const BasicBlock *, std::map<GKey, State>> merged;
  DenseSet<const Value *> resPhis; // values the result may come from
  if (C.splitByResult()) {
    std::vector<const Value *> w;
    for (auto &BB : *F) if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) if (R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy(32)) w.push_back(R->getReturnValue());
    while (!w.empty()) {
      auto *v = w.back(); w.pop_back();
      if (isa<Constant>(v) || !resPhis.insert(v).second) continue;
      if (auto *ph = dyn_cast<PHINode>(v)) for (auto &o : ph->incoming_values()) w.push_back(o);
      if (auto *se = dyn_cast<SelectInst>(v)) { w.push_back(se->getTrueValue()); w.push_back(se->getFalseValue()); }
    }
  }
  auto gkey = [&](const State &S) {
    std::string s;
    for (auto &x : S.env) if (x.second->k == K_Const && FI.constPhi.count(x.first)) { s += std::to_string(x.second->c); s += ","; }
    if (!resPhis.empty()) for (auto &x : S.env) if (resPhis.count(x.first)) { AbsVal v = abs(S, x.second); s += v.isZero() ? 'z' : v.nonZero() ? 'n' : '?'; }
    return GKey(S.aut, s);
  };
  std::map<std::pair<unsigned, unsigned>, std::pair<const BasicBlock *, State>> queue; // (rpo, seq)
  unsigned seq = 0;
  std::vector<Exit> exits;
  auto push = [&](const BasicBlock *B, State S) {
    prune(S, B, FI);
    GKey gk = gkey(S);
    auto &ba = byAut[B][gk];
    auto &sv = seen[B];
    for (auto i : ba) if (sv[i].sameAs(S)) return;
    if (ba.size() >= maxDisj) {
      auto &mm = merged[B];
      auto i = mm.find(gk);
      if (i == mm.end()) {
        State m = S;
        for (auto k : ba) { joinInto(m, sv[k], B); }
        prune(m, B, FI);
        mm[gk] = m;
        queue[{FI.rpo[B], seq++}] = {B, m};
      } else {
        State m = i->second;
        joinInto(m, S, B);
        prune(m, B, FI);
        if (m.sameAs(i->second)) return;
        i->second = m;
        queue[{FI.rpo[B], seq++}] = {B, m};
      }
      statesSeen++;
      return;
    }
    ba.push_back(sv.size());
    sv.push_back(S);
    statesSeen++;
    queue[{FI.rpo[B], seq++}] = {B, std::move(S)};
  };
  push(&F->getEntryBlock(), entry);
  while (!queue.empty()) {
    auto it = queue.begin();
    auto [B, S] = std::move(it->second);
    queue.erase(it);
    blocks++;
    if (steps > budget) { budgetHit = true; break; }
    std::vector<std::pair<const BasicBlock *, State>> succ;
    execBlock(F, std::move(S), B, B->begin(), succ, exits, depth);
    for (auto &s : succ) push(s.first, std::move(s.second));
  }
  // condense exits
  std::map<std::pair<Aut, std::string>, Exit> m;
  for (auto &X : exits) {
    auto k = std::make_pair(X.aut, retClass(X));
    auto i = m.find(k);
    if (i == m.end()) { m[k] = X; continue; }
    Exit &Y = i->second;
    if (Y.ret != X.ret) { Y.ret = X.ret ? P.opaque(&F->getEntryBlock().front(), 11 + (int)m.size(), X.ret->w) : nullptr; }
    Y.retv.join(X.retv);
    for (auto j = Y.facts.begin(); j != Y.facts.end();) {
      auto q = X.facts.find(j->first);
      if (q == X.facts.end()) { j = Y.facts.erase(j); continue; }
      j->second.join(q->second);
      if (j->second.isTop()) j = Y.facts.erase(j); else ++j;
    }
    std::set<KeyId> ks; for (auto &v : Y.vers) ks.insert(v.first); for (auto &v : X.vers) ks.insert(v.first);
    for (auto kk : ks) { auto a = Y.vers.find(kk); auto b = X.vers.find(kk); const void *va = a == Y.vers.end() ? nullptr : a->second, *vb = b == X.vers.end() ? nullptr : b->second; if (va != vb) Y.vers[kk] = F; }
    for (auto j = Y.cells.begin(); j != Y.cells.end();) { auto q = X.cells.find(j->first); if (q == X.cells.end() || q->second != j->second) { Y.vers[P.keyOf(j->first, j->second->w / 8)] = F; j = Y.cells.erase(j); } else ++j; }
    for (auto &c : X.cells) if (!Y.cells.count(c.first)) Y.vers[P.keyOf(c.first, c.second->w / 8)] = F;
  }
  std::vector<Exit> r;
  for (auto &x : m) r.push_back(std::move(x.second));
  return r;
}

// a pointer that was just dereferenced is not null
void Engine::derefd(State &S, const Expr *p) {
  const Expr *r = rootOf(p);
  if (r->w != 64 || r->k == K_Alloca || r->k == K_Global || r->isConst() || r->k == K_Outer) return;
  if (abs(S, r).nonZero()) return;
  AbsVal nz = AbsVal::top(64); nz.neq.insert(0); nz.normalize();
  assumeVal(S, r, nz, 0);
}

// what all call sites of an internal function agree on about its integer parameters
State Engine::entryState(const Function *F) {
  State S;
  auto i = P.info.find(F);
  if (i == P.info.end() || i->second.addressTaken || !F->hasLocalLinkage() ) return S;
  for (auto &A : F->args()) {
    if (!A.getType()->isIntegerTy() || A.getType()->getIntegerBitWidth() > 64) continue;
    unsigned w = A.getType()->getIntegerBitWidth();
    AbsVal v; bool first = true, bad = false;
    for (auto *U : F->users()) {
      auto *CB = dyn_cast<CallBase>(U);
      if (!CB || CB->getCalledOperand() != F) { bad = true; break; }
      const Value *a = CB->getArgOperand(A.getArgNo());
      AbsVal x = AbsVal::top(w);
      if (auto *c = dyn_cast<ConstantInt>(a)) x = AbsVal::cst(w, c->getSExtValue());
      else if (auto *z = dyn_cast<ZExtInst>(a)) { unsigned sw = z->getSrcTy()->getIntegerBitWidth(); if (sw >= w) { bad = true; break; } x.zero |= x.mask() & ~((1ull << sw) - 1); x.umax = (1ull << sw) - 1; x.smin = 0; x.smax = (int64_t)x.umax; x.normalize(); }
      else { bad = true; break; }
      if (first) { v = x; first = false; } else v.join(x);
    }
    if (bad || first || v.isTop()) continue;
    Expr e; e.k = K_Param; e.v = &A; e.w = w;
    S.facts[P.mk(e)] = v;
  }
  return S;
}

// ------------------------------------------------------------ summaries
std::string Engine::ctxKey(const Function *F, const State &S) {
  std::string s = F->getName().str() + "|";
  raw_string_ostream o(s);
  for (auto &x : S.aut.n) o << x.first << "=" << x.second << ",";
  for (auto &x : S.aut.t) o << x.first << ":" << (x.second ? x.second->id : 0) << ",";
  o << "|";
  for (auto &x : S.env) o << x.second->id << ",";
  o << "|";
  for (auto &x : S.cells) o << x.first->id << "=" << x.second->id << ",";
  o << "|";
  for (auto &x : S.facts) o << x.first->id << ":" << x.second.zero << "/" << x.second.one << "/" << x.second.umin << "/" << x.second.umax << "/" << x.second.neq.size() << ",";
  return o.str();
}

std::vector<Exit> Engine::summary(const Function *F, State entry, unsigned depth) {
  std::string k = ctxKey(F, entry);
  auto i = memo.find(k);
  if (i != memo.end()) return i->second;
  if (inProgress.count(k)) { recursed.insert(k); return partial[k]; }
  inProgress.insert(k);
  std::vector<Exit> r;
  for (int iter = 0; iter < 5; iter++) {
    recursed.erase(k);
    r = run(F, entry, depth);
    if (!recursed.count(k)) break;
    bool same = r.size() == partial[k].size();
    if (same) for (size_t j = 0; j < r.size(); j++) if (!(r[j].aut == partial[k][j].aut) || retClass(r[j]) != retClass(partial[k][j])) same = false;
    partial[k] = r;
    if (same) break;
  }
  inProgress.erase(k);
  memo[k] = r;
  return r;
}

bool Engine::doCall(State &S, const CallBase *CB, std::vector<State> &out, unsigned depth) {
  const Function *f = calleeOf(CB);
  unsigned w = CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 64;
  if (C.onCall(S, CB, f, out)) return true;
  bool isVoid = CB->getType()->isVoidTy();
  if (f && !f->isDeclaration() && depth < 14 && C.descend(f)) {
    std::vector<const Expr *> args;
    for (auto &A : CB->args()) args.push_back(eval(S, A));
    // callee entry state
    State E;
    E.aut = S.aut;
    E.trace = S.trace;
    // map caller expressions rooted at actual arguments
    std::unordered_map<const Expr *, const Expr *> m;
    std::function<const Expr *(const Expr *)> down = [&](const Expr *e) -> const Expr * {
      auto q = m.find(e);
      if (q != m.end()) return q->second;
      const Expr *r = nullptr;
      for (size_t i = 0; i < args.size() && i < f->arg_size(); i++)
        if (args[i] == e && !e->isConst()) { Expr p; p.k = K_Param; p.v = f->getArg(i); p.w = e->w; r = P.mk(p); break; }
      if (!r) switch (e->k) {
        case K_Const: case K_Global: r = e; break;
        case K_Off: { auto *a = down(e->a); if (a) r = P.off(a, e->c); break; }
        case K_Idx: { auto *a = down(e->a); auto *b = down(e->b); if (a && b) r = P.idx(a, b, e->c); break; }
        case K_Field: {
          auto v = S.vers.find(e->key); const void *ver = v == S.vers.end() ? nullptr : v->second;
          if (!C.trackKey(e->key) || ver != e->ver) break;
          auto *a = down(e->a); if (a) r = P.field(a, e->w, nullptr, e->key); break;
        }
        case K_Op: { auto *a = down(e->a); auto *b = e->b ? down(e->b) : nullptr; if (a && (b || !e->b)) { if (e->op == Instruction::ExtractValue || e->op == Instruction::InsertValue) break; r = P.op(e->op, a, b, e->w); } break; }
        default: break;
      }
      // an actual argument that is an address inside a bigger object: &p->x  passed
      if (!r && e->k == K_Off) {
        for (size_t i = 0; i < args.size() && i < f->arg_size(); i++) if (args[i]->k == K_Off && args[i]->a == e->a) { Expr p; p.k = K_Param; p.v = f->getArg(i); r = P.off(P.mk(p), e->c - args[i]->c); break; }
      }
      m[e] = r;
      return r;
    };
    for (size_t i = 0; i < args.size() && i < f->arg_size(); i++) {
      const Value *A = f->getArg(i);
      if (args[i]->isConst() || args[i]->k == K_Global) E.env[A] = args[i];
      else {
        AbsVal v = abs(S, args[i]);
        int64_t c;
        Expr p; p.k = K_Param; p.v = A; p.w = args[i]->w; const Expr *pe = P.mk(p);
        if (v.isConst(c)) E.env[A] = P.cst(args[i]->w, c);
        else {
          if (args[i]->k == K_Outer || args[i]->k == K_Param) {}
          if (v.nonZero() && args[i]->w == 64) { AbsVal nz = AbsVal::top(64); nz.neq.insert(0); nz.normalize(); E.facts[pe] = nz; }
          else if (args[i]->w <= 32 && !v.isTop()) E.facts[pe] = v;
        }
      }
    }
    for (auto &x : S.facts) { if (x.first->k == K_Param) continue; const Expr *d = down(x.first); if (d && !d->isConst() && !E.facts.count(d)) { bool hasField = false; std::function<void(const Expr *)> hf = [&](const Expr *e) { if (e->k == K_Field) hasField = true; if (e->a) hf(e->a); if (e->b) hf(e->b); }; hf(d); if (hasField) E.facts[d] = x.second; } }
    for (auto &x : S.cells) {
      KeyId k = P.keyOf(x.first, x.second->w / 8);
      if (!C.trackKey(k)) continue;
      const Expr *a = down(x.first);
      if (!a) continue;
      if (x.second->isConst() || x.second->k == K_Global) E.cells[a] = x.second;
      else {
        const Expr *dv = down(x.second);
        if (dv) E.cells[a] = dv;
        else if (x.second->w == 64 && (rootOf(x.second)->k == K_Param || rootOf(x.second)->k == K_Alloca || rootOf(x.second)->k == K_Outer)) E.cells[a] = P.outer(x.second);
        else { AbsVal v = abs(S, x.second); if (!v.isTop()) E.facts[P.field(a, x.second->w, nullptr, k)] = v; }
      }
    }
    std::set<std::pair<int, const Expr *>> nt;
    for (auto &t : E.aut.t) { if (!t.second) { nt.insert(t); continue; } const Expr *d = down(t.second); nt.insert({t.first, d ? d : P.outer(t.second)}); }
    E.aut.t = nt;
    stack.push_back({f, CB});
    std::vector<Exit> xs = summary(f, E, depth + 1);
    stack.pop_back();
    purge(S, CB);
    State pre = S;
    for (auto &X : xs) {
      State T = pre;
      std::unordered_map<const Expr *, const Expr *> um;
      std::function<const Expr *(const Expr *)> up = [&](const Expr *e) -> const Expr * {
        auto q = um.find(e);
        if (q != um.end()) return q->second;
        const Expr *r = nullptr;
        switch (e->k) {
        case K_Const: case K_Global: r = e; break;
        case K_Param: { auto *A = cast<Argument>(e->v); if (A->getParent() == f && A->getArgNo() < args.size()) r = args[A->getArgNo()]; else r = P.inner(CB, e); break; }
        case K_Outer: r = e->a; break;
        case K_Off: r = P.off(up(e->a), e->c); break;
        case K_Idx: r = P.idx(up(e->a), up(e->b), e->c); break;
        case K_Op: if (e->op == Instruction::ExtractValue || e->op == Instruction::InsertValue) { Expr n = *e; n.a = up(e->a); if (e->b) n.b = up(e->b); n.id = 0; n.pointeeDone = false; r = P.mk(n); }
          else r = P.op(e->op, up(e->a), e->b ? up(e->b) : nullptr, e->w); break;
        case K_Field:
          if (C.trackKey(e->key) && !e->ver) {
            const Expr *a = up(e->a);
            auto c = pre.cells.find(a);
            if (c != pre.cells.end() && c->second->w == e->w) { r = c->second; break; }
            auto v = pre.vers.find(e->key);
            r = P.field(a, e->w, v == pre.vers.end() ? nullptr : v->second, e->key);
          } else if (C.trackKey(e->key)) {
            auto v = X.vers.find(e->key);
            if (v != X.vers.end() && v->second == e->ver) r = P.field(up(e->a), e->w, CB, e->key);
            else r = P.inner(CB, e);
          } else r = P.inner(CB, e);
          break;
        default: r = P.inner(CB, e);
        }
        um[e] = r;
        return r;
      };
      T.aut = X.aut;
      std::set<std::pair<int, const Expr *>> ut;
      for (auto &t : T.aut.t) ut.insert({t.first, t.second ? up(t.second) : nullptr});
      T.aut.t = ut;
      // kills
      for (auto &v : X.vers) if (C.trackKey(v.first)) {
        // cells of classes written by the callee
        for (auto i = T.cells.begin(); i != T.cells.end();) {
          const Expr *r = rootOf(i->first);
          if (P.keyOf(i->first, i->second->w / 8) == v.first && !(r->k == K_Alloca && !isCaptured(r->v) && std::none_of(args.begin(), args.end(), [&](const Expr *a) { return rootOf(a) == r; }))) i = T.cells.erase(i); else ++i;
        }
        T.vers[v.first] = CB;
      }
      // scalar locals passed by address and untracked classes
      {
        std::set<const Expr *> passed; for (auto *a : args) if (rootOf(a)->k == K_Alloca) passed.insert(rootOf(a));
        auto &mod = P.info[f].mod;
        for (auto *r : passed) { KeyId k = P.keyOf(r, 8); if (P.keyName(k).starts_with("$")) {
            for (auto i = T.cells.begin(); i != T.cells.end();) if (rootOf(i->first) == r) i = T.cells.erase(i); else ++i;
            T.vers[k] = CB; }
          else for (auto i = T.cells.begin(); i != T.cells.end();) { if (rootOf(i->first) == r) { KeyId kk = P.keyOf(i->first, i->second->w / 8); if (!C.trackKey(kk) && mod.count(kk)) { T.vers[kk] = CB; i = T.cells.erase(i); continue; } } ++i; }
        }
      }
      for (auto &c : X.cells) {
        const Expr *r = rootOf(c.first);
        if (r->k == K_Alloca || r->k == K_Opaque) continue;
        const Expr *a = up(c.first), *v = up(c.second);
        T.cells[a] = v;
        AbsVal av = AbsVal::top(v->w);
        auto q = X.facts.find(c.second);
        if (q != X.facts.end() && !v->isConst()) { av = q->second; T.facts[v] = av; }
      }
      bool ok = true;
      for (auto &x : X.facts) {
        const Expr *u = up(x.first);
        if (u->isConst()) continue;
        if (!assumeVal(T, u, x.second, 0)) { ok = false; break; }
      }
      if (!ok) continue;
      if (!isVoid && X.ret) {
        const Expr *rv = up(X.ret);
        if (rv->w != w && CB->getType()->isIntegerTy()) rv = P.opaque(CB, 0, w);
        if (rv->w == X.retv.w && !rv->isConst()) { if (!assumeVal(T, rv, X.retv, 0)) continue; }
        int64_t c; if (X.retv.isConst(c) && CB->getType()->isIntegerTy()) rv = P.cst(w, c);
        T.env[CB] = rv;
      }
      T.trace = S.trace;
      { unsigned l = 0; locOf(CB, &l); std::string rc = retClass(X);
        T.trace = std::make_shared<Trace>(Trace{S.trace, l, "call " + f->getName().str() + "() -> " + (rc == "c0" ? "0" : rc == "nz" ? "non-zero" : rc), S.trace ? S.trace->depth + 1 : 1}); }
      C.afterCall(T, CB, f);
      out.push_back(std::move(T));
    }
    return true;
  }
  if (f && f->doesNotReturn()) { return true; } // no successor
  killByCall(S, CB, f);
  if (!isVoid) {
    purge(S, CB);
    if (f && (f->getIntrinsicID() == Intrinsic::expect)) S.env[CB] = eval(S, CB->getArgOperand(0));
    else if (const Expr *ra = f && this->C.useAlias(f) ? P.returnsAlias(f) : nullptr) {
      int64_t o = ra->k == K_Off ? ra->c : 0; const Expr *r = ra->k == K_Off ? ra->a : ra;
      S.env[CB] = P.off(eval(S, CB->getArgOperand(cast<Argument>(r->v)->getArgNo())), o);
    }
    else S.env[CB] = P.opaque(CB, 0, w);
  }
  C.afterCall(S, CB, f);
  return false;
}
} // namespace va
