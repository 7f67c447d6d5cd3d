// Path feasibility and property queries: truth tables for one-byte conditions, Z3 for the rest.
#pragma once
#include "expr.h"
#include <z3.h>

enum class Sat { Unsat, Sat, Unknown };

struct SolverStats {
  u64 z3_queries = 0, z3_sat = 0, z3_unsat = 0, z3_unknown = 0, table_decisions = 0, cache_hits = 0, z3_audit = 0, guess_hits = 0, interval = 0;
  double z3_time = 0;
};

struct PathCond {
  std::vector<Dom> dom;            // per variable domain
  std::vector<E> multi;            // constraints over several variables
  std::vector<u8> inMulti;         // variable occurs in a multi constraint
  std::vector<u8> model;           // satisfies everything above
  bool ok = true;
  void ensure(u32 n) {
    while (dom.size() < n) { dom.push_back({~0ull, ~0ull, ~0ull, ~0ull}); inMulti.push_back(0); model.push_back(0); }
  }
};

struct Solver {
  Z3_context ctx = nullptr;
  Z3_sort bv8;
  std::unordered_map<E, Z3_ast> tr;
  std::unordered_map<u64, int> cache; // query hash -> result
  SolverStats st;
  unsigned timeout_ms = 30000;
  bool audit = false; unsigned auditEvery = 0; u64 auditCtr = 0;
  std::vector<Z3_ast> varAst;
  void init();
  Z3_ast var(u32 v);
  Z3_ast T(E e);       // Bool sort for width 1, bit-vector otherwise
  Z3_ast B(E e);       // always bit-vector
  Z3_ast domAst(u32 v, const Dom &d);
  // is (constraints about the variables reachable from c) and c satisfiable? fills model of these variables
  Sat query(const PathCond &pc, E c, std::vector<u8> &model, bool force = false); // force: always a Z3 verdict
  void slice(const PathCond &pc, const std::vector<u32> &seed, std::vector<E> &cons, std::vector<u32> &vars);
  bool small(const PathCond &pc, const std::vector<u32> &vars, u64 limit, std::vector<u8> &m, const std::function<bool()> &f);
  struct Rng { u64 lo, hi; };
  std::unordered_map<E, Rng> rmemo; Rng range(const PathCond &pc, E e, int depth = 40);
  Z3_ast setAst(Z3_ast x, unsigned w, const Dom &d);
  Sat z3check(const PathCond &pc, const std::vector<u32> &vars, const std::vector<E> &cons, std::vector<u8> &model);
  E dsimp(const PathCond &pc, E e); E dsimp1(const PathCond &pc, E e); std::unordered_map<E, E> dmemo;
  Sat z3full(const PathCond &pc, E extra);
};
inline bool domEmpty(const Dom &d) { return !(d[0] | d[1] | d[2] | d[3]); }
inline bool domHas(const Dom &d, unsigned i) { return d[i >> 6] >> (i & 63) & 1; }
inline unsigned domFirst(const Dom &d) { for (int i = 0; i < 4; i++) if (d[i]) return i * 64 + __builtin_ctzll(d[i]); return 256; }
inline unsigned domCount(const Dom &d) { return __builtin_popcountll(d[0]) + __builtin_popcountll(d[1]) + __builtin_popcountll(d[2]) + __builtin_popcountll(d[3]); }
inline Dom domAnd(const Dom &a, const Dom &b) { return {a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}; }
inline Dom condDom(E e) { // 1-bit expression over one variable
  if (e->op == Op::Lut) return *e->dom;
  fatal("condDom");
}
