// models of intrinsics, libc and the harness interface (included inside struct Engine)
  bool doExt(State &s, Frame &f, KInst &k, int x, const Function *F) {
    auto A = [&](int i) { return *opv(f, k, i); };
    unsigned w = k.leaves.empty() ? 0 : k.leaves[0].width;
    auto perLane = [&](std::function<V(const V &, const V &, unsigned)> fn) {
      const V *a = opv(f, k, 0), *b = k.ops.size() > 1 ? opv(f, k, 1) : a; std::vector<V> r(k.leaves.size());
      for (size_t i = 0; i < r.size(); i++) r[i] = fn(a[i], b[i], k.leaves[i].width);
      for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i];
    };
    switch (x) {
    case X_nop: case S_note: break;
    case X_asmnot: { u64 p = concretize(s, A(0), 64, "asm"); storeC(s, p, bin(Op::Xor, loadC(s, p, 64), V(~0ull), 64), 64); break; } // full fence on a dummy word
    case X_memcpy: {
      u64 n = concretize(s, A(2), 64, "memcpy length"); if (!n) { setRes(top(s), k, A(0)); break; }
      u64 src = 0; V sv = A(1); u64 d = concretize(s, A(0), 64, "memcpy dest");
      if (sv.conc()) { src = sv.c; copyMem(s, d, src, n); }
      else if (n <= 64) { std::vector<V> t(n); for (u64 i = 0; i < n; i++) t[i] = loadSym(s, mkBin(Op::Add, sv.e, mkC(i, 64)), 8); for (u64 i = 0; i < n; i++) storeC(s, d + i, t[i], 8); }
      else { src = concretize(s, sv, 64, "memcpy source"); copyMem(s, d, src, n); }
      setRes(top(s), k, V(d)); break;
    }
    case X_memset: {
      u64 n = concretize(s, A(2), 64, "memset length"); if (!n) break; u64 d = concretize(s, A(0), 64, "memset dest"); V v = castV(Instruction::Trunc, A(1), k.opw[1], 8); u64 off; Obj *o = access(s, d, n, off, true);
      if (v.conc()) { memset(&o->b[off], (int)v.c, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); } else for (u64 i = 0; i < n; i++) putByte(o, off + i, v.e);
      setRes(top(s), k, V(d)); break;
    }
    case X_umax: perLane([&](const V &a, const V &b, unsigned w) { return ite(bin(Op::Ult, a, b, w), b, a, w); }); break;
    case X_umin: perLane([&](const V &a, const V &b, unsigned w) { return ite(bin(Op::Ult, a, b, w), a, b, w); }); break;
    case X_smax: perLane([&](const V &a, const V &b, unsigned w) { return ite(bin(Op::Slt, a, b, w), b, a, w); }); break;
    case X_smin: perLane([&](const V &a, const V &b, unsigned w) { return ite(bin(Op::Slt, a, b, w), a, b, w); }); break;
    case X_usat_add: perLane([&](const V &a, const V &b, unsigned w) { V r = bin(Op::Add, a, b, w); return ite(bin(Op::Ult, r, a, w), mk(mkBig(APInt::getAllOnes(w))), r, w); }); break;
    case X_usat_sub: perLane([&](const V &a, const V &b, unsigned w) { return ite(bin(Op::Ult, a, b, w), mk(mkC(0, w)), bin(Op::Sub, a, b, w), w); }); break;
    case X_ssat_add: case X_ssat_sub: perLane([&](const V &a, const V &b, unsigned w) {
        V ea = castV(Instruction::SExt, a, w, w + 1), eb = castV(Instruction::SExt, b, w, w + 1); V r = bin(x == X_ssat_add ? Op::Add : Op::Sub, ea, eb, w + 1);
        APInt mx = APInt::getSignedMaxValue(w).sext(w + 1), mn = APInt::getSignedMinValue(w).sext(w + 1);
        V c = ite(bin(Op::Slt, mk(mkBig(mx)), r, w + 1), mk(mkBig(mx)), ite(bin(Op::Slt, r, mk(mkBig(mn)), w + 1), mk(mkBig(mn)), r, w + 1), w + 1);
        return castV(Instruction::Trunc, c, w + 1, w); }); break;
    case X_uaddo: { V a = A(0), b = A(1); V r = bin(Op::Add, a, b, w); f.regs[k.dst] = r; f.regs[k.dst + 1] = bin(Op::Ult, r, a, w); break; }
    case X_usubo: { V a = A(0), b = A(1); f.regs[k.dst + 1] = bin(Op::Ult, a, b, w); f.regs[k.dst] = bin(Op::Sub, a, b, w); break; }
    case X_saddo: case X_ssubo: { V a = A(0), b = A(1); Op o = x == X_saddo ? Op::Add : Op::Sub; V r = bin(o, a, b, w); V er = bin(o, castV(Instruction::SExt, a, w, w + 1), castV(Instruction::SExt, b, w, w + 1), w + 1); f.regs[k.dst] = r; f.regs[k.dst + 1] = notv(bin(Op::Eq, er, castV(Instruction::SExt, r, w, w + 1), w + 1)); break; }
    case X_umulo: case X_smulo: { V a = A(0), b = A(1); V r = bin(Op::Mul, a, b, w); unsigned cst = x == X_umulo ? Instruction::ZExt : Instruction::SExt;
      V o;
      if (x == X_umulo && b.conc() && w <= 64 && b.c) o = bin(Op::Ult, V(maskW(w) / b.c), a, w);
      else if (x == X_umulo && a.conc() && w <= 64 && a.c) o = bin(Op::Ult, V(maskW(w) / a.c), b, w);
      else { V er = bin(Op::Mul, castV(cst, a, w, 2 * w), castV(cst, b, w, 2 * w), 2 * w); o = notv(bin(Op::Eq, er, castV(cst, r, w, 2 * w), 2 * w)); }
      f.regs[k.dst] = r; f.regs[k.dst + 1] = o; break; }
    case X_ctpop: perLane([&](const V &a, const V &, unsigned w) { E e = ex(a, w), r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, w == 1 ? mkExtract(e, i, 1) : mkZExt(mkExtract(e, i, 1), w)); return mk(r); }); break;
    case X_ctlz: perLane([&](const V &a, const V &, unsigned w) { if (a.conc() && w <= 64) return V((u64)APInt(w, a.c).countl_zero()); E e = ex(a, w), r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkC(w - 1 - i, w), r); return mk(r); }); break;
    case X_cttz: perLane([&](const V &a, const V &, unsigned w) { if (a.conc() && w <= 64) return V((u64)APInt(w, a.c).countr_zero()); E e = ex(a, w), r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkC(i, w), r); return mk(r); }); break;
    case X_bswap: perLane([&](const V &a, const V &, unsigned w) { E e = ex(a, w), r = mkExtract(e, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(e, i, 8)); return mk(r); }); break;
    case X_bitrev: perLane([&](const V &a, const V &, unsigned w) { E e = ex(a, w), r = mkExtract(e, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(e, i, 1)); return mk(r); }); break;
    case X_fshl: case X_fshr: {
      const V *a = opv(f, k, 0), *b = opv(f, k, 1), *c = opv(f, k, 2); std::vector<V> r(k.leaves.size());
      for (size_t i = 0; i < r.size(); i++) {
        E ab = mkConcat(ex(a[i], w), ex(b[i], w)); E sh = mkBin(Op::URem, ex(c[i], w), mkC(w, w)); sh = mkZExt(sh, 2 * w);
        E v = mkBin(x == X_fshl ? Op::Shl : Op::LShr, ab, sh); r[i] = mk(x == X_fshl ? mkExtract(v, w, w) : mkExtract(v, 0, w));
      }
      for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i];
      break;
    }
    case X_abs: perLane([&](const V &a, const V &, unsigned w) { return ite(bin(Op::Slt, a, mk(mkC(0, w)), w), bin(Op::Sub, mk(mkC(0, w)), a, w), a, w); }); break;
    case X_reduce: {
      const V *a = opv(f, k, 0); V r = a[0]; unsigned lw = k.opw[0];
      for (int i = 1; i < k.opn[0]; i++) switch (k.aux) {
        case Intrinsic::vector_reduce_add: r = bin(Op::Add, r, a[i], lw); break; case Intrinsic::vector_reduce_or: r = bin(Op::Or, r, a[i], lw); break;
        case Intrinsic::vector_reduce_and: r = bin(Op::And, r, a[i], lw); break; case Intrinsic::vector_reduce_xor: r = bin(Op::Xor, r, a[i], lw); break; case Intrinsic::vector_reduce_mul: r = bin(Op::Mul, r, a[i], lw); break;
        case Intrinsic::vector_reduce_umax: r = ite(bin(Op::Ult, r, a[i], lw), a[i], r, lw); break; default: r = ite(bin(Op::Ult, a[i], r, lw), a[i], r, lw); break; }
      f.regs[k.dst] = r; break;
    }
    case X_pmovmskb: { const V *a = opv(f, k, 0); E r = mkExtract(ex(a[15], 8), 7, 1); for (int i = 14; i >= 0; i--) r = mkConcat(r, mkExtract(ex(a[i], 8), 7, 1)); f.regs[k.dst] = mk(mkZExt(r, 32)); break; }
    case X_loadrel: { // relative tables are read through their initialisers: target = constant whose address minus the table's is stored
      V tb = A(0), of = castV(Instruction::SExt, A(1), k.opw[1], 64);
      u64 base = concretize(s, tb, 64, "load.relative"), o = concretize(s, of, 64, "load.relative");
      u64 id = base >> 32; auto *G = id < gvs.size() ? dyn_cast_or_null<GlobalVariable>(gvs[id]) : nullptr;
      auto *ca = G && G->hasInitializer() ? dyn_cast<ConstantArray>(G->getInitializer()) : nullptr;
      u64 ix = ((base & 0xffffffffull) - BASE + o) / 4;
      if (!ca || ix >= ca->getNumOperands()) throw PathEnd{"unsupported", "load.relative outside a constant table"};
      const Constant *c = ca->getOperand(ix);
      if (auto *ce = dyn_cast<ConstantExpr>(c); ce && ce->getOpcode() == Instruction::Trunc) c = ce->getOperand(0);
      auto *sb = dyn_cast<ConstantExpr>(c); if (!sb || sb->getOpcode() != Instruction::Sub) throw PathEnd{"unsupported", "load.relative table entry"};
      std::vector<V> t; constVals(sb->getOperand(0), t); setRes(top(s), k, t[0]); break; }
    case X_expect: case X_tlsaddr: setRes(f, k, A(0)); break;
    case X_isconst: setRes(f, k, V(0)); break;
    case X_objsize: setRes(f, k, V(maskW(w))); break;
    case X_ptrmask: setRes(f, k, bin(Op::And, A(0), A(1), 64)); break;
    case X_trap: throw PathEnd{"abort", "llvm.trap"};
    case X_abort: throw PathEnd{"abort", "abort()"};
    case X_panic: doPanic(s, "panic via " + F->getName().str());
    case X_oom: throw PathEnd{"oom", "allocation failure handler reached (an allocation above the modelled limit was requested)"};
    case X_malloc: { u64 n = concretize(s, A(0), 64, "malloc size"); setRes(top(s), k, V(heapAlloc(s, n))); break; }
    case X_calloc: { u64 n = concretize(s, A(0), 64, "calloc"), m = concretize(s, A(1), 64, "calloc"); setRes(top(s), k, V(n && m > ~0ull / n ? 0 : heapAlloc(s, n * m))); break; }
    case X_posix_memalign: { u64 n = concretize(s, A(2), 64, "memalign size"); u64 p = heapAlloc(s, n); if (!p) { setRes(top(s), k, V(12)); break; } storeC(s, A(0).c, V(p), 64); setRes(top(s), k, V(0)); break; }
    case X_realloc: {
      u64 n = concretize(s, A(1), 64, "realloc size"); u64 old = concretize(s, A(0), 64, "realloc ptr");
      u64 p = heapAlloc(s, n); if (!p) { setRes(top(s), k, V(0)); break; }
      if (old) { ObjRef *r = slotOf(s, old >> 32); if (!r) throw PathEnd{"memory", "realloc of invalid pointer"}; copyMem(s, p, old, std::min(n, (*r)->size)); heapFree(s, old); }
      setRes(top(s), k, V(p)); break;
    }
    case X_free: heapFree(s, concretize(s, A(0), 64, "free")); break;
    case X_memcmp: case X_bcmp: {
      u64 n = concretize(s, A(2), 64, "memcmp length"); if (!n) { setRes(top(s), k, V(0)); break; }
      auto rd = [&](V p, std::vector<V> &o) { if (p.conc()) readBytes(s, p.c, n, o); else { o.resize(n); for (u64 i = 0; i < n; i++) o[i] = loadSym(s, mkBin(Op::Add, p.e, mkC(i, 64)), 8); } };
      std::vector<V> a, b; rd(A(0), a); rd(A(1), b); V r = cmpBytes(a, b, x == X_memcmp); setRes(top(s), k, r); break;
    }
    case X_strlen: { u64 p = concretize(s, A(0), 64, "strlen"); u64 n = 0; while (true) { V b = loadC(s, p + n, 8); if (!b.conc()) throw PathEnd{"unsupported", "symbolic strlen"}; if (!b.c) break; n++; } setRes(top(s), k, V(n)); break; }
    case X_memchr: { u64 p = concretize(s, A(0), 64, "memchr"), n = concretize(s, A(2), 64, "memchr n"); V c = castV(Instruction::Trunc, A(1), 32, 8); V r(0); for (long long i = (long long)n - 1; i >= 0; i--) r = ite(bin(Op::Eq, loadC(s, p + i, 8), c, 8), V(p + i), r, 64); setRes(top(s), k, r); break; }
    case X_ret0: setRes(f, k, V(0)); break;
    case X_retm1: storeC(s, objAddr(errnoId), V(2), 32); setRes(top(s), k, V(maskW(w))); break;
    case X_write: setRes(f, k, A(2)); break;
    case X_errno: setRes(f, k, V(objAddr(errnoId))); break;
    case X_syscall: { // getrandom & friends: deterministic zero fill; everything else fails
      storeC(s, objAddr(errnoId), V(38), 32);
      if (F->getName() == "getrandom") { u64 n = concretize(s, A(1), 64, "getrandom"); setRes(top(s), k, V(n)); break; }
      V nr = A(0); if (nr.conc() && nr.c == 318) { setRes(top(s), k, A(2)); break; }
      if (nr.conc() && nr.c == 202) { setRes(top(s), k, V(0)); break; }
      setRes(top(s), k, V(maskW(w))); break; }
    case X_clock: { u64 p = concretize(s, A(1), 64, "clock"); // arbitrary but fixed instant
      storeC(s, p, V(1700000000), 64); storeC(s, p + 8, V(0), 64); setRes(top(s), k, V(0)); break; }
    case X_print: break; // standard output is not observed
    case X_fmtstub: { // String { .. } result through sret: three words (cap, ptr, len) in some order: empty string
      u64 p = concretize(s, A(0), 64, "fmtstub"); storeC(s, p, V(0), 64); storeC(s, p + 8, V(0), 64); storeC(s, p + 16, V(0), 64);
      // the non-null pointer field is the one the drop glue does not dereference when cap==0; alloc::string::String::new() layout is (cap=0, ptr=1, len=0)
      storeC(s, p + 8, V(1), 64); break; }
    // ---- harness interface
    case S_bytes: {
      u64 p = concretize(s, A(0), 64, "sym_bytes"), n = concretize(s, A(1), 64, "sym_bytes n"); if (!n) break; u64 off; Obj *o = access(s, p, n, off, true);
      for (u64 i = 0; i < n; i++) { u32 v = freshVar(s); putByte(o, off + i, varE(s, v)); };
      break;
    }
    case S_assume: {
      V c = A(0); if (!c.conc() && c.e->width > 1) c = mk(mkExtract(c.e, 0, 1));
      if (c.conc()) { if (!(c.c & 1)) throw PathEnd{"assume", ""}; break; }
      if (evalM(s, c.e)) { addCon(s, c.e); break; }
      std::vector<u8> m; Sat r = solver.query(s.pc, c.e, m);
      if (r == Sat::Unknown) throw PathEnd{"incomplete", "solver unknown in assume"};
      if (r == Sat::Unsat) throw PathEnd{"assume", ""};
      addCon(s, c.e); setModel(s, m); break;
    }
    case S_check: {
      V c = A(0); if (!c.conc() && c.e->width > 1) c = mk(mkExtract(c.e, 0, 1));
      u32 id = (u32)A(1).c;
      if (c.conc()) {
        checksConcrete++;
        if (!(c.c & 1)) { violation(s, "check", std::to_string(id), "check " + std::to_string(id) + " fails"); throw PathEnd{"check-failed", ""}; }
        s.checksPassed.push_back(id); break;
      }
      checksSymbolic++;
      std::vector<u8> m; Sat r; E neg = mkNot(c.e);
      if (!evalM(s, c.e)) { r = Sat::Sat; m = s.pc.model; }
      else {
        u64 before = solver.st.z3_queries;
        r = solver.query(s.pc, neg, m, true);
        if (r == Sat::Unsat && (solver.st.z3_queries != before || solver.st.z3_time < 0.25 * (nowS() - t0p) || ++confirmCtr % 32 == 0)) {
          if (solver.st.z3_queries == before && solver.z3full(s.pc, neg) == Sat::Sat) fatal("z3 disagrees with the domain verdict of a check");
          checksZ3++;
        }
      }
      if (r == Sat::Unknown) { incomplete["solver unknown in check " + std::to_string(id)]++; }
      if (r == Sat::Sat) {
        auto keep = s.pc.model; setModel(s, m); violation(s, "check", std::to_string(id), "check " + std::to_string(id) + " can fail"); s.pc.model = keep;
        std::vector<u8> m2; if (!evalM(s, c.e)) { Sat r2 = solver.query(s.pc, c.e, m2); if (r2 != Sat::Sat) throw PathEnd{"check-failed", ""}; setModel(s, m2); }
      }
      addCon(s, c.e); s.known[c.e] = 1; s.checksPassed.push_back(id); break;
    }
    case S_reach: s.reached.push_back((u32)A(0).c); break;
    case S_observe: { u64 p = concretize(s, A(0), 64, "observe"), n = concretize(s, A(1), 64, "observe n"); std::vector<V> b; readBytes(s, p, n, b); s.obs.push_back(V(n & 0xff)); s.obs.insert(s.obs.end(), b.begin(), b.end()); break; }
    case S_choice: {
      // a symbolic byte below n, made concrete by forking; the instruction is re-executed on each fork,
      // so allocate the variable only once (remembered in the trace of known values)
      u64 n = A(0).c; if (n > 256) fatal("sym_choice > 256");
      u32 v = s.nvars; s.pc.ensure(v + 1);
      E e = mkVar(v);
      if (n < 256) { E c = mkBin(Op::Ult, e, mkC(n, 8)); Dom d = domAnd(s.pc.dom[v], condDom(c)); s.pc.dom[v] = d; if (!domHas(d, s.pc.model[v])) s.pc.model[v] = domFirst(d); }
      if (cfg.haveInput) { freshVar(s); setRes(top(s), k, V((u64)s.pc.model[v])); break; }
      u64 r = concretize(s, V(e), 8, "choice");
      s.nvars = v + 1; setRes(top(s), k, V(r)); break;
    }
    case S_conc: { u64 r = concretize(s, A(0), 64, "sym_concretize"); setRes(top(s), k, V(r)); break; }
    case S_uf: { // sym_uf(id, in, in_len, out, out_len, injective)
      u64 id = A(0).c, in = concretize(s, A(1), 64, "uf"), n = concretize(s, A(2), 64, "uf n"), out = concretize(s, A(3), 64, "uf out"), m = A(4).c; bool inj = A(5).c & 1;
      UFApp app; app.id = id; readBytes(s, in, n, app.in);
      for (u64 i = 0; i < m; i++) app.outVars.push_back(freshVar(s));
      for (auto &o : s.ufs) if (o.id == id) {
        E outEq = ET; for (u64 i = 0; i < m && i < o.outVars.size(); i++) outEq = mkAnd1(outEq, mkEq(varE(s, o.outVars[i]), varE(s, app.outVars[i])));
        E inEq = EF;
        if (o.in.size() == n) { inEq = ET; for (u64 i = 0; i < n; i++) inEq = mkAnd1(inEq, mkEq(ex(o.in[i], 8), ex(app.in[i], 8))); }
        E c = isTrue(inEq) ? outEq : isFalse(inEq) ? (inj ? mkNot(outEq) : ET) : inj ? mkEq(inEq, outEq) : mkOr1(mkNot(inEq), outEq);
        if (isTrue(c)) continue;
        // extend the model
        if (!evalM(s, c)) { std::vector<u8> mm; Sat r = solver.query(s.pc, c, mm); if (r != Sat::Sat) throw PathEnd{"incomplete", "uninterpreted function constraint"}; addCon(s, c); setModel(s, mm); }
        else addCon(s, c);
      }
      u64 off; Obj *o = access(s, out, m, off, true); for (u64 i = 0; i < m; i++) putByte(o, off + i, varE(s, app.outVars[i]));
      s.ufs.push_back(app); break;
    }
    case S_panic_ok: s.panicOk = A(0).c & 1; break;
    case S_end: throw PathEnd{"end", ""};
    case S_is_sym: { u64 p = concretize(s, A(0), 64, "x"), n = concretize(s, A(1), 64, "x"); std::vector<V> b; readBytes(s, p, n, b); bool y = false; for (auto &v : b) if (!v.conc()) y = true; setRes(top(s), k, V(y)); break; }
    case S_steps: setRes(f, k, V(s.steps)); break;
    case S_heap: setRes(f, k, V(s.heapBytes)); break;
    case X_unsupported: default: throw PathEnd{"unsupported", "external " + (F ? F->getName().str() : std::string("inline asm"))};
    }
    advance(top(s), k);
    return true;
  }
