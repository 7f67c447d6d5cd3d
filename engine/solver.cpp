#include <algorithm>
#include <chrono>
#include <unistd.h>
#include "solver.h"

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fatal(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }

void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  bv8 = Z3_mk_bv_sort(ctx, 8);
}
Z3_ast Solver::var(u32 v) {
  while (varAst.size() <= v) {
    Z3_symbol s = Z3_mk_int_symbol(ctx, varAst.size());
    Z3_ast a = Z3_mk_const(ctx, s, bv8);
    varAst.push_back(a);
  }
  return varAst[v];
}
static Z3_ast num(Z3_context ctx, const APInt &a) {
  llvm::SmallString<64> s; a.toString(s, 10, false);
  Z3_sort so = Z3_mk_bv_sort(ctx, a.getBitWidth());
  return Z3_mk_numeral(ctx, s.c_str(), so);
}
Z3_ast Solver::domAst(u32 v, const Dom &d) { return setAst(var(v), 8, d); }
Z3_ast Solver::setAst(Z3_ast x, unsigned xwid, const Dom &d) {
  std::vector<Z3_ast> parts;
  unsigned N = 1u << xwid;
  for (unsigned i = 0; i < N;) {
    if (!domHas(d, i)) { i++; continue; }
    unsigned j = i; while (j + 1 < N && domHas(d, j + 1)) j++;
    Z3_ast lo = num(ctx, APInt(xwid, i)), hi = num(ctx, APInt(xwid, j));
    if (i == j) parts.push_back(Z3_mk_eq(ctx, x, lo));
    else { Z3_ast a[2] = {Z3_mk_bvuge(ctx, x, lo), Z3_mk_bvule(ctx, x, hi)}; parts.push_back(Z3_mk_and(ctx, 2, a)); }
    i = j + 1;
  }
  if (parts.empty()) return Z3_mk_false(ctx);
  return parts.size() == 1 ? parts[0] : Z3_mk_or(ctx, parts.size(), parts.data());
}
Z3_ast Solver::B(E e) {
  Z3_ast t = T(e);
  if (e->width != 1) return t;
  return Z3_mk_ite(ctx, t, num(ctx, APInt(1, 1)), num(ctx, APInt(1, 0)));
}
Z3_ast Solver::T(E e) {
  auto it = tr.find(e);
  if (it != tr.end()) return it->second;
  Z3_ast r;
  unsigned w = e->width;
  switch (e->op) {
  case Op::Const: r = w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(ctx, cval(e)); break;
  case Op::Var: r = var(e->aux); break;
  case Op::Lut: case Op::Tab: {
    Z3_ast x = e->op == Op::Lut ? var(e->aux) : B(e->k[0]);
    unsigned cw = e->op == Op::Lut ? 8 : e->k[0]->width, N = 1u << cw;
    if (w == 1) { Dom d{0, 0, 0, 0}; for (unsigned i = 0; i < N; i++) if (e->tab->get(i)) d[i >> 6] |= 1ull << (i & 63); r = setAst(x, cw, d); break; }
    // piecewise x + c over ranges
    Z3_ast xw = w == cw ? x : (w > cw ? Z3_mk_zero_ext(ctx, w - cw, x) : Z3_mk_extract(ctx, w - 1, 0, x));
    u64 m = maskW(w);
    struct Seg { unsigned lo, hi; bool konst; u64 c; };
    std::vector<Seg> segs;
    for (unsigned i = 0; i < N;) {
      unsigned j = i, l = i;
      u64 v0 = e->tab->get(i), d0 = (v0 - i) & m;
      while (j + 1 < N && e->tab->get(j + 1) == v0) j++;
      while (l + 1 < N && ((e->tab->get(l + 1) - (l + 1)) & m) == d0) l++;
      if (j >= l) { segs.push_back({i, j, true, v0}); i = j + 1; } else { segs.push_back({i, l, false, d0}); i = l + 1; }
    }
    auto val = [&](const Seg &s) { return s.konst ? num(ctx, APInt(w, s.c)) : (s.c ? Z3_mk_bvadd(ctx, xw, num(ctx, APInt(w, s.c))) : xw); };
    // balanced tree on the upper bounds
    std::function<Z3_ast(int, int)> build = [&](int a, int b) -> Z3_ast {
      if (a == b) return val(segs[a]);
      int mid = (a + b) / 2;
      Z3_ast c = Z3_mk_bvule(ctx, x, num(ctx, APInt(cw, segs[mid].hi)));
      return Z3_mk_ite(ctx, c, build(a, mid), build(mid + 1, b));
    };
    r = build(0, segs.size() - 1);
    break;
  }
  case Op::Not: r = Z3_mk_not(ctx, T(e->k[0])); break;
  case Op::Ite: r = Z3_mk_ite(ctx, T(e->k[0]), T(e->k[1]), T(e->k[2])); break;
  case Op::Concat: r = Z3_mk_concat(ctx, B(e->k[0]), B(e->k[1])); break;
  case Op::Extract: {
    r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, B(e->k[0]));
    if (w == 1) r = Z3_mk_eq(ctx, r, num(ctx, APInt(1, 1)));
    break;
  }
  case Op::SExt: r = Z3_mk_sign_ext(ctx, w - e->k[0]->width, B(e->k[0])); break;
  default: {
    if (w == 1 && e->k[0]->width == 1) {
      Z3_ast a[2] = {T(e->k[0]), T(e->k[1])};
      if (e->op == Op::And) { r = Z3_mk_and(ctx, 2, a); break; }
      if (e->op == Op::Or) { r = Z3_mk_or(ctx, 2, a); break; }
      if (e->op == Op::Xor) { r = Z3_mk_xor(ctx, a[0], a[1]); break; }
      if (e->op == Op::Eq) { r = Z3_mk_iff(ctx, a[0], a[1]); break; }
    }
    Z3_ast a = B(e->k[0]), b = B(e->k[1]);
    switch (e->op) {
    case Op::Add: r = Z3_mk_bvadd(ctx, a, b); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx, a, b); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx, a, b); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case Op::URem: r = Z3_mk_bvurem(ctx, a, b); break;
    case Op::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
    case Op::And: r = Z3_mk_bvand(ctx, a, b); break;
    case Op::Or: r = Z3_mk_bvor(ctx, a, b); break;
    case Op::Xor: r = Z3_mk_bvxor(ctx, a, b); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, a, b); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
    case Op::Eq: r = Z3_mk_eq(ctx, a, b); break;
    case Op::Ult: r = Z3_mk_bvult(ctx, a, b); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, a, b); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, a, b); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, a, b); break;
    default: fatal("z3 translate");
    }
    if (w == 1 && !isCmp(e->op)) r = Z3_mk_eq(ctx, r, num(ctx, APInt(1, 1)));
  }
  }
  tr[e] = r;
  return r;
}

Sat Solver::z3check(const PathCond &pc, const std::vector<u32> &vars, const std::vector<E> &cons, std::vector<u8> &model) {
  double t0 = now();
  static int dbg = getenv("SYMEX_LOGQ") ? atoi(getenv("SYMEX_LOGQ")) : 0;
  if (dbg) fprintf(stderr, "Q vars=%zu cons=%zu last=%s\n", vars.size(), cons.size(), exprStr(cons.back(), dbg).c_str());
  // the incremental core first, with a short limit; then bit-blasting to SAT
  Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF;
  for (int round = 0; round < 2 && r == Z3_L_UNDEF; round++) {
    if (s) Z3_solver_dec_ref(ctx, s);
    if (round == 0) s = Z3_mk_simple_solver(ctx);
    else { Z3_tactic t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t); s = Z3_mk_solver_from_tactic(ctx, t); Z3_tactic_dec_ref(ctx, t); }
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), round == 0 ? std::min(timeout_ms, 250u) : timeout_ms);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (u32 v : vars) if (v < pc.dom.size() && domCount(pc.dom[v]) != 256) Z3_solver_assert(ctx, s, domAst(v, pc.dom[v]));
    for (E c : cons) Z3_solver_assert(ctx, s, T(c));
    r = Z3_solver_check(ctx, s);
  }
  if (const char *dd = getenv("SYMEX_DUMPQ")) if (now() - t0 > atof(getenv("SYMEX_DUMPT") ? getenv("SYMEX_DUMPT") : "1")) {
    static int n = 0; std::string f = std::string(dd) + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2";
    if (FILE *o = fopen(f.c_str(), "w")) { fprintf(o, "; %.2fs %d\n(set-logic QF_BV)\n%s(check-sat)\n", now() - t0, (int)r, Z3_solver_to_string(ctx, s)); fclose(o); }
  }
  st.z3_queries++;
  Sat out = Sat::Unknown;
  if (r == Z3_L_TRUE) {
    out = Sat::Sat; st.z3_sat++;
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (u32 v : vars) {
      Z3_ast val; u64 x = 0;
      if (Z3_model_eval(ctx, m, var(v), true, &val)) { Z3_get_numeral_uint64(ctx, val, &x); }
      if (model.size() <= v) model.resize(v + 1);
      model[v] = (u8)x;
    }
    Z3_model_dec_ref(ctx, m);
  } else if (r == Z3_L_FALSE) { out = Sat::Unsat; st.z3_unsat++; }
  else st.z3_unknown++;
  Z3_solver_dec_ref(ctx, s);
  st.z3_time += now() - t0;
  return out;
}

Sat Solver::z3full(const PathCond &pc, E extra) {
  std::vector<u32> vars; for (u32 i = 0; i < pc.dom.size(); i++) vars.push_back(i);
  std::vector<E> cons = pc.multi; if (extra) cons.push_back(extra);
  std::vector<u8> m = pc.model;
  st.z3_audit++;
  return z3check(pc, vars, cons, m);
}

void Solver::slice(const PathCond &pc, const std::vector<u32> &seed, std::vector<E> &cons, std::vector<u32> &vars) {
  std::vector<u8> inSet(pc.dom.size() + 1, 0);
  for (u32 v : seed) { if (v >= inSet.size()) inSet.resize(v + 1, 0); inSet[v] = 1; }
  std::vector<u8> used(pc.multi.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.multi.size(); i++) if (!used[i]) {
      bool hit = false;
      for (u32 v : pc.multi[i]->vars->v) if (v < inSet.size() && inSet[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; cons.push_back(pc.multi[i]); ch = true;
      for (u32 v : pc.multi[i]->vars->v) { if (v >= inSet.size()) inSet.resize(v + 1, 0); inSet[v] = 1; }
    }
  }
  for (u32 v = 0; v < inSet.size(); v++) if (inSet[v]) vars.push_back(v);
}
static const Dom FULL{~0ull, ~0ull, ~0ull, ~0ull};
// walk every assignment of vars inside their domains; f returns true to stop. false when there are more than limit.
bool Solver::small(const PathCond &pc, const std::vector<u32> &vars, u64 limit, std::vector<u8> &m, const std::function<bool()> &f) {
  u64 prod = 1; std::vector<std::vector<u8>> vals;
  for (u32 v : vars) { prod *= v < pc.dom.size() ? domCount(pc.dom[v]) : 256; if (prod > limit) return false; }
  for (u32 v : vars) { vals.emplace_back(); const Dom &d = v < pc.dom.size() ? pc.dom[v] : FULL; for (unsigned i = 0; i < 256; i++) if (domHas(d, i)) vals.back().push_back(i); if (m.size() <= v) m.resize(v + 1); }
  if (!prod) return true;
  std::vector<size_t> ix(vars.size(), 0);
  for (size_t i = 0; i < vars.size(); i++) m[vars[i]] = vals[i][0];
  while (true) {
    evalGen++;
    if (f()) return true;
    size_t i = 0;
    for (; i < vars.size(); i++) { if (++ix[i] < vals[i].size()) { m[vars[i]] = vals[i][ix[i]]; break; } ix[i] = 0; m[vars[i]] = vals[i][0]; }
    if (i == vars.size()) return true;
  }
}

Solver::Rng Solver::range(const PathCond &pc, E e, int depth) {
  u64 m = maskW(e->width);
  if (e->width > 64 || depth == 0) return {0, e->width > 64 ? ~0ull : m};
  switch (e->op) {
  case Op::Const: return {e->c, e->c};
  case Op::Var: case Op::Lut: {
    const Dom &d = e->single < (int)pc.dom.size() ? pc.dom[e->single] : FULL; u64 lo = ~0ull, hi = 0;
    for (int q = 0; q < 4; q++) for (u64 b = d[q]; b; b &= b - 1) { u64 v = unaryAt(e, q * 64 + __builtin_ctzll(b)); lo = std::min(lo, v); hi = std::max(hi, v); }
    return lo > hi ? Rng{0, m} : Rng{lo, hi};
  }
  default: break;
  }
  auto it = rmemo.find(e); if (it != rmemo.end()) return it->second;
  Rng r{0, m};
  auto R = [&](int i) { return range(pc, e->k[i], depth - 1); };
  switch (e->op) {
  case Op::Tab: { Rng a = R(0); u64 lo = ~0ull, hi = 0; for (u64 i = a.lo; i <= a.hi; i++) { u64 v = e->tab->get(i); lo = std::min(lo, v); hi = std::max(hi, v); } r = {lo, hi}; break; }
  case Op::Add: { Rng a = R(0), b = R(1); unsigned __int128 h = (unsigned __int128)a.hi + b.hi; if (h <= m) r = {a.lo + b.lo, (u64)h}; else if ((unsigned __int128)a.lo + b.lo > m) r = {(a.lo + b.lo) & m, (u64)h & m}; break; }
  case Op::Sub: { Rng a = R(0), b = R(1); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
  case Op::Mul: { Rng a = R(0), b = R(1); unsigned __int128 h = (unsigned __int128)a.hi * b.hi; if (h <= m) r = {a.lo * b.lo, (u64)h}; break; }
  case Op::UDiv: { Rng a = R(0), b = R(1); if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break; }
  case Op::URem: { Rng b = R(1); if (b.lo) r = {0, b.hi - 1}; break; }
  case Op::And: { Rng a = R(0), b = R(1); r = {0, std::min(a.hi, b.hi)}; if (e->width == 1) r.lo = a.lo & b.lo; break; }
  case Op::Or: { Rng a = R(0), b = R(1); u64 x = a.hi | b.hi; unsigned n = x ? 64 - __builtin_clzll(x) : 0; r = {std::max(a.lo, b.lo), maskW(n)}; if (!n) r.hi = 0; if (e->width == 1) r.hi = a.hi | b.hi; break; }
  case Op::Concat: { Rng a = R(0), b = R(1); unsigned lw = e->k[1]->width; if (lw < 64) r = {(a.lo << lw) | b.lo, (a.hi << lw) | b.hi}; break; }
  case Op::Extract: if (e->k[0]->width <= 64) { Rng a = R(0); u64 lo = a.lo >> e->aux, hi = a.hi >> e->aux; if (hi <= m) r = {lo, hi}; } break;
  case Op::Ite: { Rng c = R(0); if (c.lo) r = R(1); else if (!c.hi) r = R(2); else { Rng a = R(1), b = R(2); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } break; }
  case Op::Not: { Rng a = R(0); r = {1 - a.hi, 1 - a.lo}; break; }
  case Op::Eq: if (e->k[0]->width <= 64) { Rng a = R(0), b = R(1); if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if (a.lo == a.hi && b.lo == b.hi) r = {1, 1}; } break;
  case Op::Ult: if (e->k[0]->width <= 64) { Rng a = R(0), b = R(1); if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; } break;
  case Op::Ule: if (e->k[0]->width <= 64) { Rng a = R(0), b = R(1); if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; } break;
  default: break;
  }
  rmemo[e] = r;
  return r;
}
// replace parts of e that are constant under the current byte domains
E Solver::dsimp(const PathCond &pc, E e) {
  if (e->isConst()) return e;
  if (e->single < 0) { // worth looking only when a domain is restricted
    bool r = false; for (u32 v : e->vars->v) if (v < pc.dom.size() && pc.dom[v] != FULL) { r = true; break; }
    if (!r) return e;
  }
  dmemo.clear(); return dsimp1(pc, e);
}
E Solver::dsimp1(const PathCond &pc, E e) {
  if (e->isConst()) return e;
  if (e->op == Op::Var || e->op == Op::Lut) {
    u32 v = e->single; if (v >= pc.dom.size()) return e;
    const Dom &d = pc.dom[v]; if (d == FULL || domEmpty(d)) return e;
    u64 first = unaryAt(e, domFirst(d));
    if (e->width == 1) { bool any = false, all = true; for (int q = 0; q < 4; q++) { u64 t = d[q] & (*e->dom)[q]; if (t) any = true; if (t != d[q]) all = false; } return all ? mkC(1, 1) : !any ? mkC(0, 1) : e; }
    for (int q = 0; q < 4; q++) for (u64 b = d[q]; b; b &= b - 1) if (unaryAt(e, q * 64 + __builtin_ctzll(b)) != first) return e;
    return mkC(first, e->width);
  }
  auto it = dmemo.find(e); if (it != dmemo.end()) return it->second;
  E k[3] = {nullptr, nullptr, nullptr}; bool ch = false;
  for (int i = 0; i < 3; i++) if (e->k[i]) { k[i] = dsimp1(pc, e->k[i]); if (k[i] != e->k[i]) ch = true; }
  E r = e;
  if (ch) switch (e->op) {
    case Op::Not: r = mkNot(k[0]); break;
    case Op::Ite: r = mkIte(k[0], k[1], k[2]); break;
    case Op::Concat: r = mkConcat(k[0], k[1]); break;
    case Op::Extract: r = mkExtract(k[0], e->aux, e->width); break;
    case Op::SExt: r = mkSExt(k[0], e->width); break;
    case Op::Tab: if (k[0]->isConst()) r = mkC(e->tab->get(k[0]->c), e->width); else if (k[0]->single >= 0) { u64 vals[256]; for (int i = 0; i < 256; i++) vals[i] = e->tab->get(unaryAt(k[0], i)); r = mkLutRaw(k[0]->single, e->width, vals); } else { u64 vals[256] = {0}; for (unsigned i = 0; i < (1u << k[0]->width); i++) vals[i] = e->tab->get(i); r = mkTab(k[0], e->width, vals); } break;
    default: r = mkBin(e->op, k[0], k[1]); break;
  }
  dmemo[e] = r;
  return r;
}
static void disjuncts(E c, std::vector<E> &out) {
  if (c->op == Op::Or && c->width == 1) { disjuncts(c->k[0], out); disjuncts(c->k[1], out); return; }
  if (c->op == Op::Not && c->k[0]->op == Op::And) { disjuncts(mkNot(c->k[0]->k[0]), out); disjuncts(mkNot(c->k[0]->k[1]), out); return; }
  out.push_back(c);
}

Sat Solver::query(const PathCond &pc, E c, std::vector<u8> &model, bool force) {
  model = pc.model;
  if (c->isConst()) return c->c ? Sat::Sat : Sat::Unsat;
  if (c->single == -2) { E x = dsimp(pc, c); if (x != c) return query(pc, x, model, force); }
  if (c->op == Op::Or || (c->op == Op::Not && c->k[0]->op == Op::And)) {
    std::vector<E> ds; disjuncts(c, ds);
    if (ds.size() <= 64) {
      bool unk = false;
      std::stable_sort(ds.begin(), ds.end(), [](E a, E b) { return (a->single >= 0) > (b->single >= 0); });
      for (E d : ds) { Sat r = query(pc, d, model, force); if (r == Sat::Sat) return r; if (r == Sat::Unknown) unk = true; }
      model = pc.model;
      return unk ? Sat::Unknown : Sat::Unsat;
    }
  }
  std::vector<u32> work;
  if (c->single >= 0) {
    u32 v = c->single;
    Dom d = v < pc.dom.size() ? domAnd(pc.dom[v], condDom(c)) : condDom(c);
    if (domEmpty(d)) {
      st.table_decisions++;
      if (auditEvery && ++auditCtr % auditEvery == 0 && z3full(pc, c) == Sat::Sat) fatal("z3 audit disagrees with truth table (unsat)");
      return Sat::Unsat;
    }
    if (v >= pc.inMulti.size() || !pc.inMulti[v]) {
      st.table_decisions++;
      if (model.size() <= v) model.resize(v + 1);
      model[v] = domFirst(d);
      if (auditEvery && ++auditCtr % auditEvery == 0 && z3full(pc, c) == Sat::Unsat) fatal("z3 audit disagrees with truth table (sat)");
      return Sat::Sat;
    }
  }
  if (c->single >= 0) work.push_back(c->single); else work = c->vars->v;
  std::vector<E> cons; std::vector<u32> vars;
  slice(pc, work, cons, vars);
  for (u32 v : vars) if (v < pc.dom.size() && domEmpty(pc.dom[v])) return Sat::Unsat;
  if (!force) {
    rmemo.clear(); Rng rg = range(pc, c);
    if (rg.hi == 0) {
      st.interval++;
      if (auditEvery && ++auditCtr % auditEvery == 0 && z3full(pc, c) == Sat::Sat) fatal("z3 audit disagrees with interval analysis");
      return Sat::Unsat;
    }
    // cheap guesses: change one variable of c in the current model
    std::vector<u8> g = pc.model;
    for (u32 v : vars) if (g.size() <= v) g.resize(v + 1);
    if (work.size() <= 16)
      for (u32 v : work) {
        u8 old = g[v];
        u8 cand[6] = {(u8)(old + 1), (u8)(old - 1), 0, 255, (u8)(old ^ 0x80), (u8)(v < pc.dom.size() ? domFirst(pc.dom[v]) : 1)};
        for (u8 x : cand) {
          if (x == old) continue;
          if (v < pc.dom.size() && !domHas(pc.dom[v], x)) continue;
          g[v] = x; evalGen++;
          bool ok = evalU(c, g.data());
          for (size_t i = 0; ok && i < cons.size(); i++) ok = evalU(cons[i], g.data());
          if (ok) { model = g; st.guess_hits++; return Sat::Sat; }
        }
        g[v] = old;
      }
    // few remaining assignments: complete search over the byte domains
    bool found = false;
    g = pc.model;
    if (small(pc, vars, 3000, g, [&]() { if (!evalU(c, g.data())) return false; for (E e : cons) if (!evalU(e, g.data())) return false; found = true; return true; })) {
      st.table_decisions++;
      if (auditEvery && ++auditCtr % auditEvery == 0 && z3full(pc, c) == (found ? Sat::Unsat : Sat::Sat)) fatal("z3 audit disagrees with domain search");
      if (found) { model = g; return Sat::Sat; }
      return Sat::Unsat;
    }
  }
  u64 h = 1469598103934665603ull;
  {
    std::vector<u32> ids; for (E e : cons) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
    h = ExprPool::mix(h, c->id);
    for (u32 i : ids) h = ExprPool::mix(h, i);
    for (u32 v : vars) if (v < pc.dom.size()) { h = ExprPool::mix(h, v); for (int i = 0; i < 4; i++) h = ExprPool::mix(h, pc.dom[v][i]); }
  }
  if (cache.count(h)) { st.cache_hits++; return Sat::Unsat; }
  cons.push_back(c);
  Sat r = z3check(pc, vars, cons, model);
  if (r == Sat::Sat) { // the encoding must agree with our own evaluator
    evalGen++;
    for (E e : cons) if (!evalU(e, model.data())) fatal("z3 model does not satisfy constraint under the expression evaluator: " + exprStr(e));
  }
  if (r == Sat::Unsat) cache[h] = 0;
  return r;
}
