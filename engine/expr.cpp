#include <algorithm>
#include "expr.h"
ExprPool P;
u32 evalGen = 1;

E mkLutRaw(u32 var, unsigned w, const u64 *vals) {
  bool allSame = true, ident = (w == 8);
  for (int i = 1; i < 256; i++) if (vals[i] != vals[0]) { allSame = false; break; }
  if (allSame) return mkC(vals[0], w);
  if (ident) for (int i = 0; i < 256; i++) if (vals[i] != (u64)i) { ident = false; break; }
  if (ident) return mkVar(var);
  static Table t1, t8;
  Table *t;
  if (w <= 8) { t = &t1; t->bytes_per = 1; t->b.resize(256); for (int i = 0; i < 256; i++) t->b[i] = (u8)vals[i]; }
  else { t = &t8; t->bytes_per = 8; t->q.resize(256); for (int i = 0; i < 256; i++) t->q[i] = vals[i]; }
  Expr n; n.op = Op::Lut; n.width = w; n.aux = var; n.tab = t;
  return P.intern(n);
}

E mkTab(E core, unsigned w, const u64 *vals) {
  unsigned n = 1u << core->width;
  if (core->isConst()) return mkC(vals[core->c], w);
  u64 t[256];
  if (core->op == Op::Var || core->op == Op::Lut) { for (int i = 0; i < 256; i++) t[i] = vals[unaryAt(core, i)]; return mkLutRaw(core->single, w, t); }
  if (core->op == Op::Tab) { E in = core->k[0]; for (int i = 0; i < 256; i++) t[i] = i < (1 << in->width) ? vals[core->tab->get(i)] : 0; return mkTab(in, w, t); }
  bool allSame = true, ident = w == core->width, flip = w == 1 && core->width == 1;
  for (unsigned i = 0; i < n; i++) { if (vals[i] != vals[0]) allSame = false; if (vals[i] != i) ident = false; if (vals[i] == i) flip = false; }
  if (allSame) return mkC(vals[0], w);
  if (ident) return core;
  if (flip) { Expr x; x.op = Op::Not; x.width = 1; x.k[0] = core; return P.intern(x); }
  Table *tb = new Table;
  if (w <= 8) { tb->bytes_per = 1; tb->b.resize(256); for (int i = 0; i < 256; i++) tb->b[i] = (u8)vals[i & (n - 1)]; }
  else { tb->bytes_per = 8; tb->q.resize(256); for (int i = 0; i < 256; i++) tb->q[i] = vals[i & (n - 1)]; }
  Expr x; x.op = Op::Tab; x.width = w; x.k[0] = core; x.tab = tb;
  E r = P.intern(x); delete tb; return r;
}
// common core of table terms (others must be constants or the core itself)
static E tabCore(E a, E b, E c = nullptr) {
  E core = nullptr;
  for (E e : {a, b, c}) if (e && e->op == Op::Tab) { core = e->k[0]; break; }
  if (!core) return nullptr;
  for (E e : {a, b, c}) if (e) { if (e->width > 64) return nullptr; if (!(e->isConst() || e == core || (e->op == Op::Tab && e->k[0] == core))) return nullptr; }
  return core;
}
static inline u64 tabAt(E e, E core, unsigned i) { return e->isConst() ? e->c : e == core ? i : e->tab->get(i); }

static inline bool unaryPair(E a, E b, int &v) { // both depend on the same single variable (or const), widths<=64
  if (a->width > 64 || b->width > 64) return false;
  if (a->single == -2 || b->single == -2) return false;
  if (a->single >= 0 && b->single >= 0 && a->single != b->single) return false;
  v = a->single >= 0 ? a->single : b->single;
  if (v < 0) return false;
  // both must be table-evaluable
  auto ok = [](E e) { return e->op == Op::Const || e->op == Op::Var || e->op == Op::Lut; };
  return ok(a) && ok(b);
}

static E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, u32 aux = 0) {
  Expr n; n.op = op; n.width = w; n.k[0] = a; n.k[1] = b; n.k[2] = c; n.aux = aux;
  E e = P.intern(n);
  if (e->single >= 0 && w <= 64) { // depends on one byte through a wide intermediate: tabulate
    static std::vector<u8> m;
    if (m.size() <= (size_t)e->single) m.resize(e->single + 64);
    u64 t[256];
    for (int i = 0; i < 256; i++) { m[e->single] = i; evalGen++; t[i] = evalU(e, m.data()); }
    m[e->single] = 0;
    return mkLutRaw(e->single, w, t);
  }
  return e;
}

E mkNot(E a) {
  if (a->isConst()) return mkC(a->c ^ 1, 1);
  if (a->op == Op::Not) return a->k[0];
  if (a->op == Op::Lut) { u64 v[256]; for (int i = 0; i < 256; i++) v[i] = unaryAt(a, i) ^ 1; return mkLutRaw(a->aux, 1, v); }
  if (a->op == Op::Tab) { u64 v[256]; for (int i = 0; i < 256; i++) v[i] = a->tab->get(i) ^ 1; return mkTab(a->k[0], 1, v); }
  if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
  if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
  if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
  if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  return raw(Op::Not, 1, a);
}

static bool iteConstLeaves(E e, int depth = 6) {
  if (e->isConst()) return true;
  if (e->op != Op::Ite || depth == 0) return false;
  return iteConstLeaves(e->k[1], depth - 1) && iteConstLeaves(e->k[2], depth - 1);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (c->op == Op::Lut && a->width <= 64) {
    int v = c->single;
    auto ok = [&](E e) { return e->op == Op::Const || ((e->op == Op::Var || e->op == Op::Lut) && e->single == v); };
    if (ok(a) && ok(b)) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = unaryAt(c, i) ? unaryAt(a, i) : unaryAt(b, i); return mkLutRaw(v, a->width, t); }
  }
  if (E core = tabCore(c, a, b)) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = tabAt(c, core, i) ? tabAt(a, core, i) : tabAt(b, core, i); return mkTab(core, a->width, t); }
  if (a->width == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr1(c, b);
    if (isFalse(a)) return mkAnd1(mkNot(c), b);
    if (isTrue(b)) return mkOr1(mkNot(c), a);
    if (isFalse(b)) return mkAnd1(c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr1(c, b->k[0]), a, b->k[2]);
  return raw(Op::Ite, a->width, c, a, b);
}

E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkBig(cval(a).sext(w));
  if (w <= 64 && (a->op == Op::Var || a->op == Op::Lut)) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (u64)sx(unaryAt(a, i), a->width) & maskW(w); return mkLutRaw(a->single, w, t); }
  if (w <= 64 && a->op == Op::Tab) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (u64)sx(a->tab->get(i), a->width) & maskW(w); return mkTab(a->k[0], w, t); }
  if (a->op == Op::Concat && isZero(a->k[0])) return mkZExt(a, w);
  if (a->width == 1) return mkIte(a, mkBig(APInt::getAllOnes(w)), mkC(0, w));
  return raw(Op::SExt, w, a);
}

E mkExtract(E x, unsigned lo, unsigned w) {
  if (lo == 0 && w == x->width) return x;
  if (x->isConst()) return x->width <= 64 ? mkC(x->c >> lo, w) : mkBig(x->big->extractBits(w, lo));
  if (x->op == Op::Var || x->op == Op::Lut) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (unaryAt(x, i) >> lo) & maskW(w); return mkLutRaw(x->single, w, t); }
  if (x->op == Op::Tab) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (x->tab->get(i) >> lo) & maskW(w); return mkTab(x->k[0], w, t); }
  switch (x->op) {
  case Op::Extract: return mkExtract(x->k[0], x->aux + lo, w);
  case Op::Concat: {
    unsigned lw = x->k[1]->width;
    if (lo >= lw) return mkExtract(x->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(x->k[1], lo, w);
    return mkConcat(mkExtract(x->k[0], 0, lo + w - lw), mkExtract(x->k[1], lo, lw - lo));
  }
  case Op::Ite:
    return mkIte(x->k[0], mkExtract(x->k[1], lo, w), mkExtract(x->k[2], lo, w));
  case Op::And: case Op::Or: case Op::Xor:
    return mkBin(x->op, mkExtract(x->k[0], lo, w), mkExtract(x->k[1], lo, w));
  case Op::Add: case Op::Sub: case Op::Mul:
    if (lo == 0) return mkBin(x->op, mkExtract(x->k[0], 0, w), mkExtract(x->k[1], 0, w));
    break;
  case Op::SExt:
    if (lo + w <= x->k[0]->width) return mkExtract(x->k[0], lo, w);
    break;
  default: break;
  }
  return raw(Op::Extract, w, x, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) {
    if (w <= 64) return mkC((lo->width >= 64 ? 0 : (hi->c << lo->width)) | lo->c, w);
    return mkBig(cval(hi).zext(w).shl(lo->width) | cval(lo).zext(w));
  }
  if (hi->op == Op::Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  int v;
  if (w <= 64 && unaryPair(hi, lo, v)) {
    u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (unaryAt(hi, i) << lo->width) | unaryAt(lo, i);
    return mkLutRaw(v, w, t);
  }
  if (w <= 64) if (E core = tabCore(hi, lo)) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (tabAt(hi, core, i) << lo->width) | tabAt(lo, core, i); return mkTab(core, w, t); }
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->k[0], lo->aux, w);
  if (lo->op == Op::Concat) { // hi : (a : b)
    E a = lo->k[0], b = lo->k[1];
    if (hi->isConst() && a->isConst()) return mkConcat(mkConcat(hi, a), b);
    if (hi->op == Op::Extract && a->op == Op::Extract && hi->k[0] == a->k[0] && hi->aux == a->aux + a->width)
      return mkConcat(mkExtract(hi->k[0], a->aux, hi->width + a->width), b);
    if (hi->width + a->width <= 64 && hi->single >= 0 && hi->single == a->single && unaryPair(hi, a, v)) return mkConcat(mkConcat(hi, a), b);
  }
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == Op::Ite && lo->isConst() && hi->k[1]->isConst() && hi->k[2]->isConst())
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  if (lo->op == Op::Ite && hi->isConst() && lo->k[1]->isConst() && lo->k[2]->isConst())
    return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
  // ite whose arms are extracts of the same thing as the neighbour is left alone
  return raw(Op::Concat, w, hi, lo);
}

// bits that can be set
static APInt possible(E e, int depth = 12) {
  if (e->isConst()) return cval(e);
  if (e->op == Op::Lut || e->op == Op::Tab) { u64 m = 0; for (int i = 0; i < 256; i++) m |= e->tab->get(i); return APInt(e->width, m); }
  if (depth) switch (e->op) {
  case Op::Concat: return possible(e->k[0], depth - 1).zext(e->width).shl(e->k[1]->width) | possible(e->k[1], depth - 1).zext(e->width);
  case Op::Or: case Op::Xor: return possible(e->k[0], depth - 1) | possible(e->k[1], depth - 1);
  case Op::And: return possible(e->k[0], depth - 1) & possible(e->k[1], depth - 1);
  case Op::Ite: return possible(e->k[1], depth - 1) | possible(e->k[2], depth - 1);
  default: break;
  }
  return APInt::getAllOnes(e->width);
}
static bool isTabular(E e) { return e->op == Op::Lut || e->op == Op::Tab; }
static bool isShiftOp(Op o) { return o == Op::Shl || o == Op::LShr || o == Op::AShr; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  unsigned rw = isCmp(op) ? 1 : w;
  if (a->width != b->width) fatal("mkBin width mismatch");
  if (a->isConst() && b->isConst()) {
    if (w <= 64) return mkC(fold64(op, a->c, b->c, w), rw);
    return mkBig(foldBig(op, *a->big, *b->big));
  }
  int v;
  if (unaryPair(a, b, v)) {
    u64 t[256]; for (int i = 0; i < 256; i++) t[i] = fold64(op, unaryAt(a, i), unaryAt(b, i), w);
    return mkLutRaw(v, rw, t);
  }
  if (E core = tabCore(a, b)) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = fold64(op, tabAt(a, core, i), tabAt(b, core, i), w); return mkTab(core, rw, t); }
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  // ite with constant arms against a constant
  if (b->isConst() && a->op == Op::Ite && (a->k[1]->isConst() || a->k[2]->isConst() ) )
    if (a->k[1]->isConst() && (a->k[2]->isConst() || iteConstLeaves(a->k[2])))
      return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (b->isConst() && a->op == Op::Ite && a->k[2]->isConst() && iteConstLeaves(a->k[1]))
      return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isConst() && b->op == Op::Ite && iteConstLeaves(b) )
      return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  switch (op) {
  case Op::Add:
    if (isZero(b)) return a;
    if (w == 1) return mkBin(Op::Xor, a, b);
    if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, a->k[0], mkBin(Op::Add, a->k[1], b));
    if (w > 8 && !a->isConst() && !b->isConst() && (isTabular(a) || isTabular(b) || a->op == Op::Concat || b->op == Op::Concat) && (possible(a) & possible(b)).isZero()) return mkBin(Op::Or, a, b);
    if (w > 4 && (isTabular(a) || a->op == Op::Concat) && (isTabular(b) || b->op == Op::Concat || b->isConst())) {
      unsigned n = std::max(possible(a).getActiveBits(), possible(b).getActiveBits()) + 1;
      if (n < w && n <= w / 2) return mkZExt(mkBin(Op::Add, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    }
    // (x : 0) + (0 : y) without carry
    if (a->op == Op::Concat && isZero(a->k[1]) && b->op == Op::Concat && isZero(b->k[0]) && b->k[1]->width <= a->k[1]->width) return mkBin(Op::Or, a, b);
    if (b->op == Op::Concat && isZero(b->k[1]) && a->op == Op::Concat && isZero(a->k[0]) && a->k[1]->width <= b->k[1]->width) return mkBin(Op::Or, a, b);
    break;
  case Op::Sub:
    if (isZero(b)) return a;
    if (a == b) return mkC(0, w);
    if (w == 1) return mkBin(Op::Xor, a, b);
    if (b->isConst()) return mkBin(Op::Add, a, w <= 64 ? mkC(0 - b->c, w) : mkBig(-*b->big));
    if (a->op == Op::Add && a->k[0] == b) return a->k[1];
    if (a->op == Op::Add && a->k[1] == b) return a->k[0];
    break;
  case Op::Mul:
    if (isZero(b)) return b;
    if (b->isConst() && cval(b).isPowerOf2()) return mkBin(Op::Shl, a, mkC(cval(b).logBase2(), w));
    break;
  case Op::UDiv:
    if (b->isConst() && cval(b).isPowerOf2()) return mkBin(Op::LShr, a, mkC(cval(b).logBase2(), w));
    break;
  case Op::URem:
    if (b->isConst() && cval(b).isPowerOf2()) return mkBin(Op::And, a, mkBig(cval(b) - 1));
    break;
  case Op::And: case Op::Or: case Op::Xor: {
    if (a == b) return op == Op::Xor ? mkC(0, w) : a;
    if (isZero(b)) return op == Op::And ? b : a;
    if (isOnes(b)) { if (op == Op::And) return a; if (op == Op::Or) return b; if (w == 1) return mkNot(a); }
    if (w == 1) {
      if ((a->op == Op::Not && a->k[0] == b) || (b->op == Op::Not && b->k[0] == a)) return op == Op::And ? EF : ET;
      break;
    }
    if (a->op == Op::Concat) {
      unsigned lw = a->k[1]->width;
      return mkConcat(mkBin(op, a->k[0], mkExtract(b, lw, w - lw)), mkBin(op, a->k[1], mkExtract(b, 0, lw)));
    }
    if (b->op == Op::Concat) {
      unsigned lw = b->k[1]->width;
      return mkConcat(mkBin(op, mkExtract(a, lw, w - lw), b->k[0]), mkBin(op, mkExtract(a, 0, lw), b->k[1]));
    }
    if (w > 8 && w % 8 == 0 && !a->isConst() && !b->isConst() && (isTabular(a) || isTabular(b))) {
      E r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { E l = mkBin(op, mkExtract(a, i, 8), mkExtract(b, i, 8)); r = r ? mkConcat(l, r) : l; }
      return r;
    }
    if (b->isConst() && op == Op::And) {
      APInt m = cval(b);
      if (m.isMask()) { unsigned n = m.countr_one(); return mkZExt(mkExtract(a, 0, n), w); }
      if (m.isShiftedMask()) { unsigned t = m.countr_zero(), n = m.popcount(); return mkZExt(mkConcat(mkExtract(a, t, n), mkC(0, t)), w); }
    }
    if (b->isConst() && a->op == op && a->k[1]->isConst()) return mkBin(op, a->k[0], mkBin(op, a->k[1], b));
    break;
  }
  case Op::Shl: case Op::LShr: case Op::AShr:
    if (isZero(b)) return a;
    if (isZero(a)) return a;
    if (b->isConst()) {
      u64 s = b->width <= 64 ? b->c : b->big->getLimitedValue();
      if (op != Op::AShr) {
        if (s >= w) return mkC(0, w);
        if (op == Op::Shl) return mkConcat(mkExtract(a, 0, w - s), mkC(0, s));
        return mkConcat(mkC(0, s), mkExtract(a, s, w - s));
      }
      if (s < w) return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  case Op::Eq:
    if (a == b) return ET;
    if (w == 1) { if (isTrue(b)) return a; if (isFalse(b)) return mkNot(a); break; }
    if (b->isConst()) {
      if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkBin(Op::Sub, b, a->k[1]));
      if (a->op == Op::SExt) {
        unsigned iw = a->k[0]->width; APInt c = cval(b);
        if (c.trunc(iw).sext(w) != c) return EF;
        return mkEq(a->k[0], mkBig(c.trunc(iw)));
      }
    }
    if (a->op == Op::Concat) { unsigned lw = a->k[1]->width; 
      if (b->isConst() || b->op == Op::Concat || isTabular(b) || isZero(a->k[0])) return mkAnd1(mkEq(a->k[0], mkExtract(b, lw, w - lw)), mkEq(a->k[1], mkExtract(b, 0, lw))); }
    if (b->op == Op::Concat) { unsigned lw = b->k[1]->width; 
      if (isZero(b->k[0]) || isTabular(a)) return mkAnd1(mkEq(b->k[0], mkExtract(a, lw, w - lw)), mkEq(b->k[1], mkExtract(a, 0, lw))); }
    break;
  case Op::Ult: case Op::Ule: {
    bool lt = op == Op::Ult;
    if (a == b) return lt ? EF : ET;
    if (lt && isZero(b)) return EF;
    if (!lt && isZero(a)) return ET;
    if (!lt && isOnes(b)) return ET;
    if (lt && isOnes(a)) return EF;
    if (!lt && isZero(b)) return mkEq(a, b);
    if (lt && isZero(a)) return mkNot(mkEq(b, a));
    if (w == 1) break;
    if (a->op == Op::Concat && isZero(a->k[0])) {
      unsigned lw = a->k[1]->width;
      if (b->isConst()) { APInt c = cval(b); if (c.getActiveBits() > lw) return ET; return mkBin(op, a->k[1], mkBig(c.trunc(lw))); }
      if (b->op == Op::Concat && isZero(b->k[0])) {
        unsigned m = std::max(lw, b->k[1]->width);
        return mkBin(op, mkExtract(a, 0, m), mkExtract(b, 0, m));
      }
    }
    if (b->op == Op::Concat && isZero(b->k[0]) && a->isConst()) {
      unsigned lw = b->k[1]->width; APInt c = cval(a);
      if (c.getActiveBits() > lw) return EF;
      return mkBin(op, mkBig(c.trunc(lw)), b->k[1]);
    }
    // equal high parts
    if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width && a->k[0] == b->k[0])
      return mkBin(op, a->k[1], b->k[1]);
    break;
  }
  case Op::Slt: case Op::Sle: {
    if (a == b) return op == Op::Slt ? EF : ET;
    auto nn = [&](E e) { return (e->isConst() && !cval(e).isNegative()) || (e->op == Op::Concat && isZero(e->k[0])); };
    if (w > 1 && nn(a) && nn(b)) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    break;
  }
  default: break;
  }
  (void)isShiftOp;
  return raw(op, rw, a, b);
}

u64 evalU(E e, const u8 *m) {
  switch (e->op) {
  case Op::Const: return e->c;
  case Op::Var: return m[e->aux];
  case Op::Lut: return e->tab->get(m[e->aux]);
  default: break;
  }
  if (e->gen == evalGen) return e->memo;
  u64 r;
  switch (e->op) {
  case Op::Not: r = evalU(e->k[0], m) ^ 1; break;
  case Op::Tab: r = e->tab->get(evalU(e->k[0], m)); break;
  case Op::Ite: r = evalU(e->k[0], m) ? evalU(e->k[1], m) : evalU(e->k[2], m); break;
  case Op::Concat: r = (evalU(e->k[0], m) << e->k[1]->width) | evalU(e->k[1], m); break;
  case Op::Extract:
    if (e->k[0]->width <= 64) r = (evalU(e->k[0], m) >> e->aux) & maskW(e->width);
    else r = evalA(e->k[0], m).extractBits(e->width, e->aux).getZExtValue();
    break;
  case Op::SExt: r = (u64)sx(evalU(e->k[0], m), e->k[0]->width) & maskW(e->width); break;
  default:
    if (e->k[0]->width <= 64) r = fold64(e->op, evalU(e->k[0], m), evalU(e->k[1], m), e->k[0]->width);
    else r = foldBig(e->op, evalA(e->k[0], m), evalA(e->k[1], m)).getZExtValue();
  }
  e->gen = evalGen; e->memo = r;
  return r;
}
APInt evalA(E e, const u8 *m) {
  if (e->width <= 64) return APInt(e->width, evalU(e, m));
  switch (e->op) {
  case Op::Const: return *e->big;
  case Op::Ite: return evalU(e->k[0], m) ? evalA(e->k[1], m) : evalA(e->k[2], m);
  case Op::Concat: return evalA(e->k[0], m).zext(e->width).shl(e->k[1]->width) | evalA(e->k[1], m).zext(e->width);
  case Op::Extract: return evalA(e->k[0], m).extractBits(e->width, e->aux);
  case Op::SExt: return evalA(e->k[0], m).sext(e->width);
  default: return foldBig(e->op, evalA(e->k[0], m), evalA(e->k[1], m));
  }
}
static const char *opn[] = {"const","var","lut","+","-","*","udiv","sdiv","urem","srem","&","|","^","shl","lshr","ashr","==","<u","<=u","<s","<=s","!","ite","concat","extract","sext","tab"};
std::string exprStr(E e, int d) {
  if (!e) return "null";
  if (e->op == Op::Const) { llvm::SmallString<40> s; cval(e).toString(s, 16, false); return "0x" + std::string(s.str()) + ":" + std::to_string(e->width); }
  if (e->op == Op::Var) return "b" + std::to_string(e->aux);
  if (e->op == Op::Lut) return "lut(b" + std::to_string(e->aux) + "):" + std::to_string(e->width);
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[(int)e->op] + ":" + std::to_string(e->width);
  if (e->op == Op::Extract) s += "@" + std::to_string(e->aux);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
