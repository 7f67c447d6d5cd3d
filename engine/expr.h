// Symbolic bit-vector expressions: hash-consed DAG with construction-time simplification.
//
// An expression whose value depends on exactly one symbolic input byte is kept as a 256-entry
// value table (op Lut), so conditions over one byte are decided by the whole truth table of that
// byte. Everything else is an ordinary term that goes to Z3.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <array>
#include <memory>
#include <functional>

using llvm::APInt;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

[[noreturn]] void fatal(const std::string &m);

enum class Op : u8 {
  Const, Var, Lut, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Not, Ite, Concat, Extract, SExt, Tab // Tab: 256-entry table applied to a term of at most 8 bits
};

struct Expr;
typedef const Expr *E;

struct Table { // 256 values
  u8 bytes_per; // 1 or 8
  std::vector<u8> b;
  std::vector<u64> q;
  u64 get(unsigned i) const { return bytes_per == 1 ? b[i] : q[i]; }
};
typedef std::array<u64, 4> Dom; // 256-bit set

struct VarSet { std::vector<u32> v; }; // sorted

struct Expr {
  Op op;
  u32 width;
  u32 aux = 0;       // Extract: low bit ; Var/Lut: variable id
  int single = -1;   // -1: no variable, >=0: one variable, -2: several
  u32 id = 0;
  u64 hash = 0;
  E k[3] = {nullptr, nullptr, nullptr};
  u64 c = 0;                 // constant (width<=64)
  const APInt *big = nullptr; // constant (width>64)
  const Table *tab = nullptr;
  const Dom *dom = nullptr;  // for 1-bit Lut: set of byte values where it is true
  const VarSet *vars = nullptr; // when single == -2
  mutable u32 gen = 0;
  mutable u64 memo = 0;
  bool isConst() const { return op == Op::Const; }
};

inline u64 maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct ExprPool {
  std::unordered_multimap<u64, E> tabl;
  u32 nextId = 1;
  std::unordered_map<u64, std::vector<const VarSet *>> vsets;
  E constCache[65][3] = {};

  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

  static bool same(const Expr &a, const Expr &b) {
    if (a.op != b.op || a.width != b.width || a.aux != b.aux) return false;
    if (a.op == Op::Const) return a.width <= 64 ? a.c == b.c : *a.big == *b.big;
    if (a.op == Op::Var) return true;
    if (a.op == Op::Tab && a.k[0] != b.k[0]) return false;
    if (a.op == Op::Lut || a.op == Op::Tab) {
      if (a.tab->bytes_per != b.tab->bytes_per) return false;
      return a.tab->bytes_per == 1 ? a.tab->b == b.tab->b : a.tab->q == b.tab->q;
    }
    return a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2];
  }
  E intern(Expr &n) {
    u64 h = mix((u64)n.op * 131 + n.width, n.aux);
    if (n.op == Op::Const) {
      if (n.width <= 64) h = mix(h, n.c);
      else for (unsigned i = 0; i < n.big->getNumWords(); i++) h = mix(h, n.big->getRawData()[i]);
    } else if (n.op == Op::Lut || n.op == Op::Tab) {
      if (n.k[0]) h = mix(h, n.k[0]->id);
      if (n.tab->bytes_per == 1) for (int i = 0; i < 256; i += 8) { u64 q; memcpy(&q, &n.tab->b[i], 8); h = mix(h, q); }
      else for (int i = 0; i < 256; i++) h = mix(h, n.tab->q[i]);
    } else for (int i = 0; i < 3; i++) h = mix(h, n.k[i] ? n.k[i]->id : 0);
    n.hash = h;
    auto r = tabl.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (same(*it->second, n)) return it->second;
    Expr *e = new Expr(n);
    e->id = nextId++;
    if (n.op == Op::Const) { e->single = -1; if (n.width > 64) e->big = new APInt(*n.big); }
    else if (n.op == Op::Var) e->single = n.aux;
    else if (n.op == Op::Lut) {
      e->single = n.aux;
      e->tab = new Table(*n.tab);
      if (n.width == 1) { Dom *d = new Dom{0, 0, 0, 0}; for (int i = 0; i < 256; i++) if (n.tab->b[i]) (*d)[i >> 6] |= 1ull << (i & 63); e->dom = d; }
    } else { if (n.op == Op::Tab) e->tab = new Table(*n.tab); computeVars(e); }
    tabl.emplace(h, e);
    return e;
  }
  const VarSet *internVS(std::vector<u32> v) {
    u64 h = 7; for (u32 x : v) h = mix(h, x);
    auto &l = vsets[h];
    for (auto p : l) if (p->v == v) return p;
    VarSet *s = new VarSet{std::move(v)}; l.push_back(s); return s;
  }
  void computeVars(Expr *e) {
    int s = -1; bool multi = false;
    for (int i = 0; i < 3; i++) if (e->k[i]) {
      int t = e->k[i]->single;
      if (t == -1) continue;
      if (t == -2) multi = true;
      else if (s == -1) s = t;
      else if (s != t) multi = true;
    }
    if (!multi) { e->single = s; return; }
    e->single = -2;
    const VarSet *only = nullptr; bool simple = true;
    std::vector<u32> v;
    for (int i = 0; i < 3; i++) if (e->k[i]) {
      E x = e->k[i];
      if (x->single == -1) continue;
      if (x->single == -2) {
        if (!only) only = x->vars; else if (only != x->vars) simple = false;
        v.insert(v.end(), x->vars->v.begin(), x->vars->v.end());
      } else v.push_back(x->single);
    }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    if (simple && only && only->v.size() == v.size()) { e->vars = only; return; }
    e->vars = internVS(std::move(v));
  }
};
extern ExprPool P;

// ---- constructors
inline E mkC(u64 v, unsigned w) {
  if (w > 64) { APInt a(w, v); Expr n; n.op = Op::Const; n.width = w; n.big = &a; return P.intern(n); }
  v &= maskW(w);
  Expr n; n.op = Op::Const; n.width = w; n.c = v; return P.intern(n);
}
inline E mkBig(const APInt &a) {
  if (a.getBitWidth() <= 64) return mkC(a.getZExtValue(), a.getBitWidth());
  Expr n; n.op = Op::Const; n.width = a.getBitWidth(); n.big = &a; return P.intern(n);
}
inline APInt cval(E e) { return e->width <= 64 ? APInt(e->width, e->c) : *e->big; }
inline E mkVar(u32 id) { Expr n; n.op = Op::Var; n.width = 8; n.aux = id; return P.intern(n); }
inline bool isZero(E e) { return e->isConst() && (e->width <= 64 ? e->c == 0 : e->big->isZero()); }
inline bool isOnes(E e) { return e->isConst() && (e->width <= 64 ? e->c == maskW(e->width) : e->big->isAllOnes()); }
inline bool isTrue(E e) { return e->isConst() && e->width == 1 && e->c == 1; }
inline bool isFalse(E e) { return e->isConst() && e->width == 1 && e->c == 0; }
#define ET mkC(1,1)
#define EF mkC(0,1)

inline u64 unaryAt(E e, unsigned i) { // e depends on at most one variable, width<=64, is Const/Var/Lut
  switch (e->op) { case Op::Const: return e->c; case Op::Var: return i; default: return e->tab->get(i); }
}
E mkLutRaw(u32 var, unsigned w, const u64 *vals);
E mkTab(E core, unsigned w, const u64 *vals); // vals indexed by the value of core

inline long long sx(u64 v, unsigned w) { return w >= 64 ? (long long)v : (long long)(v << (64 - w)) >> (64 - w); }

inline u64 fold64(Op op, u64 a, u64 b, unsigned w) {
  u64 m = maskW(w);
  switch (op) {
  case Op::Add: return (a + b) & m;
  case Op::Sub: return (a - b) & m;
  case Op::Mul: return (a * b) & m;
  case Op::UDiv: return b ? a / b : m;
  case Op::URem: return b ? a % b : a;
  case Op::SDiv: { long long x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
  case Op::SRem: { long long x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b >= w ? 0 : (a << b) & m;
  case Op::LShr: return b >= w ? 0 : a >> b;
  case Op::AShr: return b >= w ? (sx(a, w) < 0 ? m : 0) : ((u64)(sx(a, w) >> b)) & m;
  case Op::Eq: return a == b;
  case Op::Ult: return a < b;
  case Op::Ule: return a <= b;
  case Op::Slt: return sx(a, w) < sx(b, w);
  case Op::Sle: return sx(a, w) <= sx(b, w);
  default: fatal("fold64 op");
  }
}
inline APInt foldBig(Op op, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  auto B = [](bool x) { return APInt(1, x); };
  switch (op) {
  case Op::Add: return a + b;
  case Op::Sub: return a - b;
  case Op::Mul: return a * b;
  case Op::UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case Op::URem: return b.isZero() ? a : a.urem(b);
  case Op::SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case Op::SRem: return b.isZero() ? a : a.srem(b);
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
  case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case Op::AShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
  case Op::Eq: return B(a == b);
  case Op::Ult: return B(a.ult(b));
  case Op::Ule: return B(a.ule(b));
  case Op::Slt: return B(a.slt(b));
  case Op::Sle: return B(a.sle(b));
  default: fatal("foldBig op");
  }
}
inline bool isCmp(Op o) { return o >= Op::Eq && o <= Op::Sle; }

E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkBin(Op op, E a, E b);
E mkSExt(E a, unsigned w);
inline E mkZExt(E a, unsigned w) { return a->width == w ? a : mkConcat(mkC(0, w - a->width), a); }
inline E mkAnd1(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr1(E a, E b) { return mkBin(Op::Or, a, b); }
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }

// ---- evaluation under an assignment of the byte variables
struct Model { std::vector<u8> v; };
extern u32 evalGen;
u64 evalU(E e, const u8 *m);
APInt evalA(E e, const u8 *m);
std::string exprStr(E e, int depth = 6);
E E_lut_debug(E e);
