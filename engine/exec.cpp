#include <algorithm>
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fstream>
#include <atomic>

using namespace llvm;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] void fatal(const std::string &m) { fprintf(stderr, "ENGINE-FATAL: %s\n", m.c_str()); fflush(stderr); _exit(70); }

struct Shared {
  std::atomic<int> active; std::atomic<int> stop; std::atomic<int> failed; std::atomic<u64> paths; std::atomic<int> procs; std::atomic<int> viol;
};
static Shared *SH;

enum Ext {
  X_none = -1, X_nop, X_asmnot, X_memcpy, X_memset, X_umax, X_umin, X_smax, X_smin, X_uaddo, X_saddo, X_usubo, X_ssubo, X_umulo, X_smulo,
  X_usat_add, X_usat_sub, X_ssat_add, X_ssat_sub, X_ctpop, X_ctlz, X_cttz, X_bswap, X_bitrev, X_fshl, X_fshr, X_abs, X_reduce, X_trap,
  X_expect, X_isconst, X_objsize, X_unsupported, X_panic, X_oom,
  X_malloc, X_calloc, X_realloc, X_free, X_posix_memalign, X_memcmp, X_bcmp, X_strlen, X_ret0, X_retm1, X_write, X_errno, X_syscall,
  X_clock, X_abort, X_ptrmask,
  S_bytes, S_assume, S_check, S_reach, S_observe, S_choice, S_conc, S_uf, S_panic_ok, S_end, S_note, X_fmtstub, X_print, X_pmovmskb, X_memchr, X_tlsaddr, X_loadrel,
  S_is_sym, S_steps, S_heap
};

static const u64 BASE = 0x1000;

struct Engine {
  Module *M; const DataLayout *DL; LLVMContext *C;
  Config cfg; Solver solver;
  std::vector<const GlobalValue *> gvs; // id -> global (1-based)
  std::unordered_map<const GlobalValue *, u32> gid;
  std::vector<ObjRef> gobj; std::vector<int> gwIdx; // id -> index in State::gw or -1
  std::vector<ObjRef> gwInit;
  u32 NG = 0;
  std::unordered_map<const Function *, std::unique_ptr<KFunc>> kf;
  std::vector<std::unique_ptr<State>> work;
  std::vector<Violation> viols; std::map<std::string, int> violCount;
  struct Sample { std::string kind; u64 obs; std::vector<u8> input; };
  std::vector<Sample> samples; u64 sampleCtr = 0;
  std::map<std::string, u64> ends; std::map<u32, u64> reach, checks; std::map<std::string, u64> incomplete;
  u64 npaths = 0, ninstr = 0, nforks = 0; std::set<std::string> unsupported;
  double t0p = nowS(); u64 confirmCtr = 0, checksZ3 = 0; u64 checksSymbolic = 0, checksConcrete = 0; u64 maxStepsSeen = 0; u64 maxHeap = 0;
  double t0; u64 errnoId = 0;
  bool stubFmt = false;

  // ---------- types
  unsigned scalarW(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isVoidTy()) return 0; if (t->isHalfTy()) return 16; std::string s; raw_string_ostream o(s); t->print(o); fatal("scalarW " + o.str()); }
  std::unordered_map<Type *, std::vector<Leaf>> leafCache;
  const std::vector<Leaf> &leavesOf(Type *t) {
    auto it = leafCache.find(t);
    if (it != leafCache.end()) return it->second;
    std::vector<Leaf> r; flat(t, 0, r); return leafCache[t] = r;
  }
  void flat(Type *t, u64 off, std::vector<Leaf> &out) {
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned w = scalarW(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({w, off + (u64)i * ((w + 7) / 8)}); return; }
    out.push_back({scalarW(t), off});
  }
  E ex(const V &v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
  static V mk(E e) { if (e->isConst() && e->width <= 64) return V(e->c); return V(e); }

  // ---------- constants
  u64 addrOf(const GlobalValue *g) { if (isa<GlobalVariable>(g) && g->hasExternalWeakLinkage()) return 0; auto it = gid.find(g); if (it == gid.end()) fatal("unknown global " + g->getName().str()); return ((u64)it->second << 32) + BASE; }
  void constVals(const Constant *c, std::vector<V> &out) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(mk(mkBig(ci->getValue()))); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(mk(mkBig(cf->getValueAPF().bitcastToAPInt()))); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto &l : leavesOf(t)) out.push_back(mk(mkC(0, l.width))); return; }
    if (auto *g = dyn_cast<GlobalAlias>(c)) { constVals(g->getAliasee(), out); return; }
    if (auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(V(addrOf(g))); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { std::vector<V> b; constVals(ce->getOperand(0), b); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep"); out.push_back(V(b[0].c + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        std::vector<V> b; constVals(ce->getOperand(0), b); unsigned w = scalarW(t); for (auto &x : b) out.push_back(V(x.c & maskW(w))); return; }
      case Instruction::Add: case Instruction::Sub: { std::vector<V> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); unsigned w = scalarW(t); out.push_back(V((ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : a[0].c - b[0].c) & maskW(w))); return; }
      case Instruction::Trunc: case Instruction::ZExt: { std::vector<V> a; constVals(ce->getOperand(0), a); out.push_back(V(a[0].c & maskW(scalarW(t)))); return; }
      case Instruction::ICmp: { std::vector<V> a, b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); bool eq = a[0].c == b[0].c; out.push_back(V((u64)(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq))); return; }
      default: fatal(std::string("constexpr ") + ce->getOpcodeName());
      }
    }
    std::string s; raw_string_ostream o(s); c->print(o); fatal("constant " + o.str());
  }
  void initBytes(Obj *o, const Constant *c, u64 off) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef d = cd->getRawDataValues(); memcpy(&o->b[off], d.data(), d.size()); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, ca->getOperand(i), off + sl->getElementOffset(i)); return; }
      Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
      u64 es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, ca->getOperand(i), off + i * es); return;
    }
    std::vector<V> v; constVals(c, v);
    unsigned w = scalarW(t), n = (w + 7) / 8;
    APInt a = v[0].e ? cval(v[0].e) : APInt(w, v[0].c);
    a = a.zext(std::max(n * 8, w));
    for (unsigned i = 0; i < n; i++) o->b[off + i] = (u8)a.extractBitsAsZExtValue(8, i * 8);
  }
  void setupGlobals() {
    gvs.push_back(nullptr); gobj.emplace_back(); gwIdx.push_back(-1);
    auto add = [&](const GlobalValue *g) { gid[g] = gvs.size(); gvs.push_back(g); gobj.emplace_back(); gwIdx.push_back(-1); };
    for (auto &F : *M) add(&F);
    for (auto &G : M->globals()) add(&G);
    NG = gvs.size();
    for (u32 i = 1; i < NG; i++) if (auto *G = dyn_cast<GlobalVariable>(gvs[i])) {
      Obj *o = new Obj; o->size = DL->getTypeAllocSize(G->getValueType()); o->b.resize(o->size); o->ro = G->isConstant();
      gobj[i] = ObjRef(o);
    }
    for (u32 i = 1; i < NG; i++) if (auto *G = dyn_cast<GlobalVariable>(gvs[i])) {
      if (G->hasInitializer()) initBytes(gobj[i].p, G->getInitializer(), 0);
      if (!gobj[i]->ro) { gwIdx[i] = gwInit.size(); gwInit.push_back(gobj[i]); }
    }
  }

  // ---------- compile
  int extOf(const Function *F) {
    StringRef n = F->getName();
    if (F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return X_memcpy;
      case Intrinsic::memset: case Intrinsic::memset_inline: return X_memset;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::x86_sse2_pause: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return X_nop;
      case Intrinsic::umax: return X_umax; case Intrinsic::umin: return X_umin; case Intrinsic::smax: return X_smax; case Intrinsic::smin: return X_smin;
      case Intrinsic::uadd_with_overflow: return X_uaddo; case Intrinsic::sadd_with_overflow: return X_saddo;
      case Intrinsic::usub_with_overflow: return X_usubo; case Intrinsic::ssub_with_overflow: return X_ssubo;
      case Intrinsic::umul_with_overflow: return X_umulo; case Intrinsic::smul_with_overflow: return X_smulo;
      case Intrinsic::uadd_sat: return X_usat_add; case Intrinsic::usub_sat: return X_usat_sub;
      case Intrinsic::sadd_sat: return X_ssat_add; case Intrinsic::ssub_sat: return X_ssat_sub;
      case Intrinsic::ctpop: return X_ctpop; case Intrinsic::ctlz: return X_ctlz; case Intrinsic::cttz: return X_cttz;
      case Intrinsic::bswap: return X_bswap; case Intrinsic::bitreverse: return X_bitrev;
      case Intrinsic::fshl: return X_fshl; case Intrinsic::fshr: return X_fshr; case Intrinsic::abs: return X_abs;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor:
      case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_mul: return X_reduce;
      case Intrinsic::trap: return X_trap; case Intrinsic::expect: return X_expect; case Intrinsic::is_constant: return X_isconst; case Intrinsic::objectsize: return X_objsize;
      case Intrinsic::ptrmask: return X_ptrmask; case Intrinsic::x86_sse2_pmovmskb_128: return X_pmovmskb;
      case Intrinsic::threadlocal_address: return X_tlsaddr; case Intrinsic::load_relative: return X_loadrel;
      default: return X_unsupported;
      }
    }
    static const std::map<std::string, int> tab = {
      {"malloc", X_malloc}, {"calloc", X_calloc}, {"realloc", X_realloc}, {"free", X_free}, {"posix_memalign", X_posix_memalign},
      {"memcmp", X_memcmp}, {"bcmp", X_bcmp}, {"strlen", X_strlen}, {"memchr", X_memchr}, {"memcpy", X_memcpy}, {"memmove", X_memcpy}, {"memset", X_memset},
      {"getenv", X_ret0}, {"pthread_key_create", X_ret0}, {"pthread_key_delete", X_ret0}, {"pthread_getspecific", X_ret0}, {"pthread_setspecific", X_ret0},
      {"__cxa_thread_atexit_impl", X_ret0}, {"sched_yield", X_ret0}, {"close", X_ret0},
      {"write", X_write}, {"__errno_location", X_errno}, {"syscall", X_syscall}, {"getrandom", X_syscall}, {"clock_gettime", X_clock},
      {"memrchr", X_ret0} /* only the line buffer of standard output looks for one */, {"abort", X_abort}, {"_Unwind_Backtrace", X_ret0}, {"open64", X_retm1}, {"open", X_retm1}, {"read", X_retm1},
      {"sym_bytes", S_bytes}, {"sym_assume", S_assume}, {"sym_check", S_check}, {"sym_reach", S_reach}, {"sym_observe", S_observe},
      {"sym_choice", S_choice}, {"sym_concretize", S_conc}, {"sym_uf", S_uf}, {"sym_panic_ok", S_panic_ok}, {"sym_end", S_end}, {"sym_note", S_note},
      {"sym_is_symbolic", S_is_sym}, {"sym_steps", S_steps}, {"sym_heap", S_heap},
      {"rust_begin_unwind", X_panic}, {"rust_panic", X_panic}, {"__rust_start_panic", X_panic}, {"__rust_alloc_error_handler", X_oom}, {"rust_oom", X_oom},
    };
    auto it = tab.find(n.str());
    // a harness may bring its own operating system
    static const std::set<std::string> own = {"getenv", "close", "write", "syscall", "getrandom", "clock_gettime", "open64", "open", "read"};
    if (it != tab.end() && (F->isDeclaration() || !own.count(n.str()))) return it->second;
    if (n.contains("4core9panicking") || n.contains("3std9panicking11begin_panic") || n.contains("3std9panicking20rust_panic_with_hook") || n.contains("3std9panicking19begin_panic_handler")) return X_panic;
    if (n.contains("5alloc5alloc18handle_alloc_error") || n.contains("3std5alloc8rust_oom") || n.contains("5alloc18handle_alloc_error8rt_error")) return X_oom;
    if (n.contains("3std2io5stdio6_print") || n.contains("3std2io5stdio7_eprint")) return X_print;
    if (stubFmt && n.contains("5alloc3fmt6format12format_inner")) return X_fmtstub;
    if (F->isDeclaration()) return X_unsupported;
    return X_none;
  }
  KFunc *compile(const Function *F) {
    auto &slot = kf[F];
    if (slot) return slot.get();
    slot = std::make_unique<KFunc>();
    KFunc *k = slot.get(); k->F = F;
    if (const_cast<Function *>(F)->isMaterializable()) if (auto e = const_cast<Function *>(F)->materialize()) fatal("materialize");
    std::unordered_map<const Value *, int> sl;
    for (auto &A : F->args()) { k->argSlot.push_back(k->nslots); int n = leavesOf(A.getType()).size(); k->argN.push_back(n); sl[&A] = k->nslots; k->nslots += n; }
    std::unordered_map<const BasicBlock *, int> bbi; int nb = 0, ni = 0;
    for (auto &B : *F) { bbi[&B] = nb++; k->bbStart.push_back(ni); for (auto &I : B) { ni++; int n = leavesOf(I.getType()).size(); if (n) { sl[&I] = k->nslots; k->nslots += n; } } }
    k->code.reserve(ni);
    auto opnd = [&](const Value *v) -> Opnd {
      auto it = sl.find(v);
      if (it != sl.end()) return {it->second, -1};
      if (auto *c = dyn_cast<Constant>(v)) { std::vector<V> vals; constVals(c, vals); k->cpool.push_back(vals); return {-1, (int)k->cpool.size() - 1}; }
      return {-1, -1}; // metadata, labels, asm
    };
    for (auto &B : *F) for (auto &I : B) {
      k->code.emplace_back(); KInst &ki = k->code.back();
      ki.I = &I; ki.op = I.getOpcode(); ki.leaves = leavesOf(I.getType());
      if (!ki.leaves.empty()) ki.dst = sl[&I];
      auto addOp = [&](const Value *v) { ki.ops.push_back(opnd(v)); Type *t = v->getType(); if (t->isLabelTy() || t->isMetadataTy()) { ki.opw.push_back(0); ki.opn.push_back(0); } else { auto &l = leavesOf(t); ki.opn.push_back(l.size()); ki.opw.push_back(l.empty() ? 0 : l[0].width); } };
      if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) addOp(br->getCondition()); for (unsigned i = 0; i < br->getNumSuccessors(); i++) ki.succ.push_back(bbi[br->getSuccessor(i)]); continue; }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) { addOp(sw->getCondition()); ki.succ.push_back(bbi[sw->getDefaultDest()]); for (auto c : sw->cases()) { ki.succ.push_back(bbi[c.getCaseSuccessor()]); addOp(c.getCaseValue()); } continue; }
      if (auto *phi = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) { addOp(phi->getIncomingValue(i)); ki.succ.push_back(bbi[phi->getIncomingBlock(i)]); } continue; }
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        ki.callee = cb->getCalledFunction();
        if (!ki.callee) if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) ki.callee = dyn_cast<Function>(ga->getAliasee());
        if (!ki.callee) ki.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        for (unsigned i = 0; i < cb->arg_size(); i++) addOp(cb->getArgOperand(i));
        if (ki.callee) { ki.ext = extOf(ki.callee); if (ki.ext == X_reduce) ki.aux = ki.callee->getIntrinsicID(); }
        else if (isa<InlineAsm>(cb->getCalledOperand())) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); ki.ext = ia->getAsmString().empty() ? X_nop : ia->getAsmString() == "lock not qword ptr [${0:q}]" ? X_asmnot : X_unsupported; }
        else { addOp(cb->getCalledOperand()); ki.ext = -2; } // indirect
        if (auto *iv = dyn_cast<InvokeInst>(&I)) ki.succ.push_back(bbi[iv->getNormalDest()]);
        continue;
      }
      if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
        addOp(gep->getPointerOperand());
        for (auto gti = gep_type_begin(gep), ge = gep_type_end(gep); gti != ge; ++gti) {
          Value *idx = gti.getOperand();
          if (StructType *st = gti.getStructTypeOrNull()) { ki.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(idx)) { ki.gepConst += (u64)ci->getSExtValue() * sz; continue; }
          addOp(idx); ki.gepVar.push_back({(int)ki.ops.size() - 1, sz});
        }
        continue;
      }
      if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { addOp(ev->getAggregateOperand()); ki.aux = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); continue; }
      if (auto *iv = dyn_cast<InsertValueInst>(&I)) { addOp(iv->getAggregateOperand()); addOp(iv->getInsertedValueOperand()); ki.aux = leafIndex(iv->getAggregateOperand()->getType(), iv->getIndices()); continue; }
      if (auto *al = dyn_cast<AllocaInst>(&I)) { addOp(al->getArraySize()); ki.aux = DL->getTypeAllocSize(al->getAllocatedType()); continue; }
      for (auto &o : I.operands()) addOp(o.get());
      if (auto *ld = dyn_cast<LoadInst>(&I)) ki.aux = isVecI1(ld->getType());
      if (auto *stt = dyn_cast<StoreInst>(&I)) ki.aux = isVecI1(stt->getValueOperand()->getType());
    }
    return k;
  }
  bool isVecI1(Type *t) { if (auto *v = dyn_cast<FixedVectorType>(t)) return scalarW(v->getElementType()) % 8 != 0; return false; }
  u64 leafIndex(Type *t, ArrayRef<unsigned> idx) {
    u64 n = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) n += leavesOf(st->getElementType(j)).size(); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); n += (u64)i * leavesOf(at->getElementType()).size(); t = at->getElementType(); }
    }
    return n;
  }

  // ---------- memory
  u32 newObj(State &s, u64 size, u8 kind) {
    Obj *o = new Obj; o->size = size; o->kind = kind; o->b.resize(size);
    u32 i;
    if (!s.freeIds.empty()) { i = s.freeIds.back(); s.freeIds.pop_back(); s.dyn[i] = ObjRef(o); }
    else { i = s.dyn.size(); s.dyn.emplace_back(ObjRef(o)); }
    return NG + i;
  }
  u64 objAddr(u32 id) { return ((u64)id << 32) + BASE; }
  ObjRef *slotOf(State &s, u32 id) {
    if (id == 0) return nullptr;
    if (id < NG) { if (gwIdx[id] >= 0) return &s.gw[gwIdx[id]]; return gobj[id].p ? &gobj[id] : nullptr; }
    if (id - NG < s.dyn.size() && s.dyn[id - NG].p) return &s.dyn[id - NG];
    return nullptr;
  }
  Obj *access(State &s, u64 addr, u64 n, u64 &off, bool write) {
    u32 id = addr >> 32;
    ObjRef *r = slotOf(s, id);
    if (!r) throw PathEnd{"memory", (write ? "write" : "read") + std::string(" through invalid pointer ") + std::to_string(addr)};
    off = (addr & 0xffffffffull) - BASE;
    if (off > (*r)->size || n > (*r)->size - off) throw PathEnd{"memory", (write ? "write" : "read") + std::string(" of ") + std::to_string(n) + " bytes at offset " + std::to_string((long long)off) + " of object of size " + std::to_string((*r)->size)};
    if (write) {
      if ((*r)->ro) throw PathEnd{"memory", "write to read-only object"};
      if ((*r)->rc > 1) { Obj *c = new Obj(*r->p); c->rc = 0; *r = ObjRef(c); }
    }
    return r->p;
  }
  bool valid(State &s, u64 addr, u64 n) {
    ObjRef *r = slotOf(s, addr >> 32); if (!r) return false;
    u64 off = (addr & 0xffffffffull) - BASE; return off <= (*r)->size && n <= (*r)->size - off;
  }
  V loadC(State &s, u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8; u64 off;
    Obj *o = access(s, addr, n, off, false);
    bool sym = false;
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) {
      if (n <= 8) { u64 r = 0; memcpy(&r, &o->b[off], n); return V(r & maskW(w)); }
      APInt a(n * 8, 0); for (unsigned i = 0; i < n; i++) a.insertBits((u64)o->b[off + i], i * 8, 8);
      return mk(mkBig(a.trunc(w)));
    }
    E r = nullptr;
    for (int i = n - 1; i >= 0; i--) { E by = o->s[off + i] ? o->s[off + i] : mkC(o->b[off + i], 8); r = r ? mkConcat(r, by) : by; }
    if (w < n * 8) r = mkExtract(r, 0, w);
    return mk(r);
  }
  void storeC(State &s, u64 addr, const V &v, unsigned w) {
    unsigned n = (w + 7) / 8; u64 off;
    Obj *o = access(s, addr, n, off, true);
    if (v.conc()) {
      u64 x = v.c; memcpy(&o->b[off], &x, std::min(n, 8u)); if (n > 8) memset(&o->b[off + 8], 0, n - 8);
      if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
      return;
    }
    E e = v.e; if (e->width < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) putByte(o, off + i, mkExtract(e, i * 8, 8));
  }
  void putByte(Obj *o, u64 off, E b) {
    if (b->isConst()) { o->b[off] = (u8)b->c; if (!o->s.empty()) o->s[off] = nullptr; return; }
    if (o->s.empty()) o->s.resize(o->size, nullptr);
    o->s[off] = b;
  }
  V byteAt(Obj *o, u64 off) { if (!o->s.empty() && o->s[off]) return V(o->s[off]); return V((u64)o->b[off]); }
  void readBytes(State &s, u64 addr, u64 n, std::vector<V> &out) {
    out.resize(n); if (!n) return; u64 off; Obj *o = access(s, addr, n, off, false);
    for (u64 i = 0; i < n; i++) out[i] = byteAt(o, off + i);
  }
  void copyMem(State &s, u64 d, u64 src, u64 n) {
    if (!n || d == src) return;
    u64 so, dofs; Obj *o = access(s, src, n, so, false);
    bool sym = false; if (!o->s.empty()) for (u64 i = 0; i < n; i++) if (o->s[so + i]) { sym = true; break; }
    std::vector<u8> tmp(o->b.begin() + so, o->b.begin() + so + n); std::vector<E> ts;
    if (sym) ts.assign(o->s.begin() + so, o->s.begin() + so + n);
    Obj *t = access(s, d, n, dofs, true);
    memcpy(&t->b[dofs], tmp.data(), n);
    if (sym) { if (t->s.empty()) t->s.resize(t->size, nullptr); std::copy(ts.begin(), ts.end(), t->s.begin() + dofs); }
    else if (!t->s.empty()) std::fill(t->s.begin() + dofs, t->s.begin() + dofs + n, nullptr);
  }
  std::string cstr(State &s, u64 a) { std::string r; for (int i = 0; i < 200; i++) { V v = loadC(s, a + i, 8); if (!v.conc() || !v.c) break; r += (char)v.c; } return r; }

  // ---------- path condition
  void addCon(State &s, E c) {
    addCon1(s, c);
    // narrowed byte domains make parts of the many-variable constraints constant
    while (!s.narrowed.empty()) {
      std::vector<u32> nv; nv.swap(s.narrowed);
      std::vector<E> redo; bool any = false;
      for (size_t i = 0; i < s.pc.multi.size();) {
        E m = s.pc.multi[i]; bool hit = false;
        for (u32 v : nv) if (std::binary_search(m->vars->v.begin(), m->vars->v.end(), v)) { hit = true; break; }
        E x = hit ? solver.dsimp(s.pc, m) : m;
        if (x == m) { i++; continue; }
        any = true; s.pc.multi.erase(s.pc.multi.begin() + i); redo.push_back(x);
      }
      if (!any) continue;
      std::fill(s.pc.inMulti.begin(), s.pc.inMulti.end(), 0);
      for (E m : s.pc.multi) for (u32 v : m->vars->v) s.pc.inMulti[v] = 1;
      for (E x : redo) addCon1(s, x);
    }
  }
  void addCon1(State &s, E c) {
    if (c->isConst()) { if (!c->c) fatal("adding false constraint"); return; }
    if (c->op == Op::And && c->width == 1) { addCon1(s, c->k[0]); addCon1(s, c->k[1]); return; }
    if (c->op == Op::Not && c->k[0]->op == Op::Or) { addCon1(s, mkNot(c->k[0]->k[0])); addCon1(s, mkNot(c->k[0]->k[1])); return; }
    if (c->single >= 0) {
      s.pc.ensure(c->single + 1); Dom d = domAnd(s.pc.dom[c->single], condDom(c));
      if (d != s.pc.dom[c->single]) { s.pc.dom[c->single] = d; if (s.pc.inMulti[c->single]) s.narrowed.push_back(c->single); }
      return;
    }
    { E x = solver.dsimp(s.pc, c); if (x != c) { s.known[c] = 1; addCon1(s, x); return; } }
    for (E m : s.pc.multi) if (m == c) return;
    s.pc.multi.push_back(c);
    s.pc.ensure(c->vars->v.back() + 1);
    for (u32 v : c->vars->v) s.pc.inMulti[v] = 1;
    if (c->op == Op::Eq && c->k[1]->isConst() && c->k[1]->width <= 64) s.known[c->k[0]] = c->k[1]->c;
    s.known[c] = 1;
    if (c->op == Op::Not) s.known[c->k[0]] = 0;
  }
  u64 evalM(State &s, E e) { evalGen++; return evalU(e, s.pc.model.data()); }
  void setModel(State &s, std::vector<u8> m) { if (m.size() < s.pc.dom.size()) m.resize(s.pc.dom.size()); s.pc.model = std::move(m); }
  std::unique_ptr<State> clone(State &s) { nforks++; auto n = std::make_unique<State>(s); n->forks++; return n; }
  Frame &top(State &s) { auto &f = s.stack.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }

  // decide a condition; forks a sibling that re-executes the current instruction with the negation
  bool branch(State &s, const V &cv) {
    if (cv.conc()) return cv.c & 1;
    E c = cv.e;
    auto it = s.known.find(c);
    if (it != s.known.end()) return it->second;
    bool side = evalM(s, c);
    E other = side ? mkNot(c) : c;
    std::vector<u8> m;
    Sat r = solver.query(s.pc, other, m);
    if (r == Sat::Unknown) { incomplete["solver-unknown"]++; }
    if (r == Sat::Sat) {
      auto n = clone(s);
      n->known[c] = !side;
      addCon(*n, other); setModel(*n, m);
      work.push_back(std::move(n));
      addCon(s, side ? c : other == c ? mkNot(c) : mkNot(other));
    }
    s.known[c] = side;
    return side;
  }
  // all feasible values of e; returns false when there are more than the limit
  bool values(State &s, E e, std::vector<std::pair<u64, std::vector<u8>>> &out, unsigned limit) {
    if (e->single >= 0) {
      u32 v = e->single; s.pc.ensure(v + 1);
      std::map<u64, Dom> g;
      for (unsigned i = 0; i < 256; i++) if (domHas(s.pc.dom[v], i)) { auto &d = g[unaryAt(e, i)]; d[i >> 6] |= 1ull << (i & 63); }
      for (auto &p : g) {
        std::vector<u8> m;
        if (!s.pc.inMulti[v]) { m = s.pc.model; if (!domHas(p.second, m[v])) m[v] = domFirst(p.second); solver.st.table_decisions++; out.push_back({p.first, m}); }
        else {
          E c = mkEq(e, mkC(p.first, e->width));
          if (evalM(s, c)) { out.push_back({p.first, s.pc.model}); }
          else { Sat r = solver.query(s.pc, c, m); if (r == Sat::Unknown) incomplete["solver-unknown"]++; if (r == Sat::Sat) out.push_back({p.first, m}); }
        }
        if (out.size() > limit) return false;
      }
      return true;
    }
    auto it = s.known.find(e);
    if (it != s.known.end()) { out.push_back({it->second, s.pc.model}); return true; }
    {
      std::vector<u32> seed, vars; std::vector<E> cons; if (e->single >= 0) seed.push_back(e->single); else seed = e->vars->v;
      solver.slice(s.pc, seed, cons, vars);
      std::map<u64, std::vector<u8>> got; std::vector<u8> m = s.pc.model; bool over = false;
      if (solver.small(s.pc, vars, 6000, m, [&]() { for (E c : cons) if (!evalU(c, m.data())) return false; u64 v = evalU(e, m.data()); if (!got.count(v)) { got[v] = m; if (got.size() > limit) { over = true; return true; } } return false; })) {
        solver.st.table_decisions++;
        if (over) return false;
        for (auto &p : got) out.push_back({p.first, p.second});
        return true;
      }
    }
    PathCond pc = s.pc; std::vector<u8> m = s.pc.model;
    E ne = ET;
    while (true) {
      evalGen++; u64 v = evalU(e, m.data());
      out.push_back({v, m});
      if (out.size() > limit) return false;
      ne = mkAnd1(ne, mkNot(mkEq(e, mkC(v, e->width))));
      if (isFalse(ne)) return true;
      std::vector<u8> m2;
      Sat r = solver.query(s.pc, ne, m2);
      if (r == Sat::Unknown) { incomplete["solver-unknown"]++; return true; }
      if (r == Sat::Unsat) return true;
      m = m2; if (m.size() < s.pc.dom.size()) m.resize(s.pc.dom.size());
    }
  }
  u64 concretize(State &s, const V &v, unsigned w, const char *why) {
    if (v.conc()) return v.c;
    std::vector<std::pair<u64, std::vector<u8>>> vals;
    if (!values(s, v.e, vals, cfg.maxValues)) throw PathEnd{"incomplete", std::string("too many values at ") + why};
    if (vals.empty()) fatal("no values");
    for (size_t i = 1; i < vals.size(); i++) {
      auto n = clone(s); addCon(*n, mkEq(v.e, mkC(vals[i].first, v.e->width))); setModel(*n, vals[i].second); n->known[v.e] = vals[i].first; work.push_back(std::move(n));
    }
    if (vals.size() > 1) { addCon(s, mkEq(v.e, mkC(vals[0].first, v.e->width))); setModel(s, vals[0].second); }
    s.known[v.e] = vals[0].first;
    return vals[0].first;
  }
  u64 evalWith(E e, E core, u64 v) { if (e == core) return v; E t = substCore(e, core, mkC(v, core->width)); if (!t->isConst()) fatal("evalWith"); return t->c; }
  E substCore(E e, E core, E by) {
    if (e == core) return by; if (e->isConst()) return e;
    E k[3]; for (int i = 0; i < 3; i++) k[i] = e->k[i] ? substCore(e->k[i], core, by) : nullptr;
    switch (e->op) {
    case Op::Not: return mkNot(k[0]); case Op::Ite: return mkIte(k[0], k[1], k[2]); case Op::Concat: return mkConcat(k[0], k[1]);
    case Op::Extract: return mkExtract(k[0], e->aux, e->width); case Op::SExt: return mkSExt(k[0], e->width);
    case Op::Tab: return mkC(e->tab->get(k[0]->c), e->width);
    case Op::Var: case Op::Lut: fatal("substCore");
    default: return mkBin(e->op, k[0], k[1]);
    }
  }
  // load through a symbolic address
  V loadSym(State &s, E a, unsigned w) {
    unsigned n = (w + 7) / 8;
    std::vector<std::pair<u64, std::vector<u8>>> vals;
    if (a->single == -2 && w <= 64) { // the address is a function of a term with at most 256 values: one table, no enumeration
      E core = nullptr, x = a; solver.rmemo.clear();
      while (x->width <= 64) {
        if (solver.range(s.pc, x).hi < 256) core = x;
        E nx = nullptr; int m = 0; for (int i = 0; i < 3; i++) if (x->k[i] && !x->k[i]->isConst()) { m++; nx = x->k[i]; }
        if (m != 1) break; x = nx;
      }
      if (core && core->single == -2) {
        E ix = core->width > 8 ? mkExtract(core, 0, 8) : core;
        Solver::Rng rg = solver.range(s.pc, core);
        u64 t[256] = {0}, bad[256] = {0}; bool anyBad = false, allc = true; u64 def = 0; bool hasDef = false;
        for (u64 i = rg.lo; i <= rg.hi && allc; i++) {
          u64 ad = evalWith(a, core, i);
          if (!valid(s, ad, n)) { bad[i] = 1; anyBad = true; continue; }
          V v = loadC(s, ad, w); if (!v.conc()) { allc = false; break; }
          t[i] = v.c; if (!hasDef) { def = v.c; hasDef = true; }
        }
        bool isBad = false;
        if (allc && anyBad && ix->single == -2) { std::vector<u8> m; isBad = solver.query(s.pc, mkTab(ix, 1, bad), m) != Sat::Unsat; }
        if (allc && hasDef && !isBad && ix->single == -2) {
          for (u64 i = 0; i < 256; i++) if (i < rg.lo || i > rg.hi || bad[i]) t[i] = def;
          return mk(mkTab(ix, w, t));
        }
      }
    }
    if (!values(s, a, vals, 1024)) throw PathEnd{"incomplete", "too many addresses in load"};
    for (auto &p : vals) if (!valid(s, p.first, n)) { // out-of-bounds reachable: report with the right model
      addCon(s, mkEq(a, mkC(p.first, 64))); setModel(s, p.second);
      u64 off; access(s, p.first, n, off, false); fatal("unreachable");
    }
    if (vals.size() == 1) return loadC(s, vals[0].first, w);
    std::map<u64, V> at; bool allc = true;
    for (auto &p : vals) { V x = loadC(s, p.first, w); if (!x.conc()) allc = false; at[p.first] = x; }
    if (allc && a->single >= 0 && w <= 64) {
      u64 t[256], def = at.begin()->second.c;
      for (int i = 0; i < 256; i++) { auto it = at.find(unaryAt(a, i)); t[i] = it == at.end() ? def : it->second.c; }
      return mk(mkLutRaw(a->single, w, t));
    }
    if (allc && w <= 64) { // a table over a term of at most 8 bits
      E core = nullptr, x = a;
      while (true) {
        if (x->width <= 8 && x->width > 0) core = x;
        E nx = nullptr; int n = 0; for (int i = 0; i < 3; i++) if (x->k[i] && !x->k[i]->isConst()) { n++; nx = x->k[i]; }
        if (n != 1) break; x = nx;
      }
      if (core && core->single == -2) {
        u64 t[256], def = at.begin()->second.c; unsigned n = 1u << core->width;
        for (unsigned i = 0; i < 256; i++) { u64 ad = evalWith(a, core, i & (n - 1)); auto it = at.find(ad); t[i] = it == at.end() ? def : it->second.c; }
        return mk(mkTab(core, w, t));
      }
    }
    // group equal results
    std::vector<std::pair<E, E>> arms; // result, condition
    for (auto &p : at) { E r = ex(p.second, w), c = mkEq(a, mkC(p.first, 64)); bool f = false; for (auto &x : arms) if (x.first == r) { x.second = mkOr1(x.second, c); f = true; break; } if (!f) arms.push_back({r, c}); }
    E r = arms[0].first;
    for (size_t i = 1; i < arms.size(); i++) r = mkIte(arms[i].second, arms[i].first, r);
    return mk(r);
  }
  V load(State &s, const V &a, unsigned w) { return a.conc() ? loadC(s, a.c, w) : loadSym(s, a.e, w); }

  // ---------- helpers for instructions
  static Op binop(unsigned o) {
    switch (o) {
    case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv; case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; case Instruction::AShr: return Op::AShr;
    default: throw PathEnd{"unsupported", "binop " + std::to_string(o)};
    }
  }
  V bin(Op op, const V &a, const V &b, unsigned w) {
    if (a.conc() && b.conc() && w <= 64) return V(fold64(op, a.c, b.c, w));
    return mk(mkBin(op, ex(a, w), ex(b, w)));
  }
  V notv(const V &a) { return a.conc() ? V(a.c ^ 1) : mk(mkNot(a.e)); }
  V ite(const V &c, const V &a, const V &b, unsigned w) { if (c.conc()) return c.c & 1 ? a : b; return mk(mkIte(c.e, ex(a, w), ex(b, w))); }
  V castV(unsigned op, const V &a, unsigned fw, unsigned tw) {
    switch (op) {
    case Instruction::Trunc: if (a.conc()) return V(a.c & maskW(tw)); return mk(mkExtract(a.e, 0, tw));
    case Instruction::ZExt: if (a.conc() && tw <= 64) return a; return mk(mkZExt(ex(a, fw), tw));
    case Instruction::SExt: if (a.conc() && tw <= 64) return V((u64)sx(a.c, fw) & maskW(tw)); return mk(mkSExt(ex(a, fw), tw));
    default: if (fw == tw) return a; if (fw > tw) { if (a.conc()) return V(a.c & maskW(tw)); return mk(mkExtract(a.e, 0, tw)); } return a.conc() && tw <= 64 ? a : mk(mkZExt(ex(a, fw), tw));
    }
  }
  V icmp(CmpInst::Predicate p, const V &a, const V &b, unsigned w) {
    switch (p) {
    case CmpInst::ICMP_EQ: return bin(Op::Eq, a, b, w);
    case CmpInst::ICMP_NE: return notv(bin(Op::Eq, a, b, w));
    case CmpInst::ICMP_ULT: return bin(Op::Ult, a, b, w);
    case CmpInst::ICMP_ULE: return bin(Op::Ule, a, b, w);
    case CmpInst::ICMP_UGT: return bin(Op::Ult, b, a, w);
    case CmpInst::ICMP_UGE: return bin(Op::Ule, b, a, w);
    case CmpInst::ICMP_SLT: return bin(Op::Slt, a, b, w);
    case CmpInst::ICMP_SLE: return bin(Op::Sle, a, b, w);
    case CmpInst::ICMP_SGT: return bin(Op::Slt, b, a, w);
    case CmpInst::ICMP_SGE: return bin(Op::Sle, b, a, w);
    default: throw PathEnd{"unsupported", "icmp"};
    }
  }
  const V *opv(Frame &f, const KInst &k, int i) { const Opnd &o = k.ops[i]; return o.slot >= 0 ? &f.regs[o.slot] : f.f->cpool[o.cidx].data(); }
  V bitcat(const V *v, int n, unsigned w) { // little-endian lanes
    E r = ex(v[n - 1], w); for (int i = n - 2; i >= 0; i--) r = mkConcat(r, ex(v[i], w)); return mk(r);
  }

  std::string repoFrame(State &s, std::string *full) { // innermost location in /repo or the harness
    std::string first; std::string all;
    for (int i = s.stack.size() - 1; i >= 0; i--) {
      Frame &f = *s.stack[i]; const Instruction *I = f.f->code[std::min<size_t>(f.pc, f.f->code.size() - 1)].I;
      const DILocation *d = I->getDebugLoc();
      if (!d) { all += "  " + f.f->F->getName().str() + "\n"; continue; }
      for (; d; d = d->getInlinedAt()) {
        std::string file = d->getFilename().str(), dir = d->getDirectory().str(); std::string path = file.size() && file[0] == '/' ? file : dir + "/" + file;
        std::string fn = d->getScope() && d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "?";
        std::string loc = path + ":" + std::to_string(d->getLine()) + " " + fn;
        if (all.size() < 6000) all += "  " + loc + "\n";
        if (first.empty() && (path.find("/crates/") != std::string::npos && path.find("/.cargo/") == std::string::npos && path.find("/rustc/") == std::string::npos)) { size_t p = path.find("/crates/"); first = path.substr(p + 8) + ":" + fn; }
      }
    }
    if (full) *full = all;
    return first.empty() ? "?" : first;
  }
  std::vector<u8> inputOf(State &s) { std::vector<u8> r = s.pc.model; r.resize(s.nvars); return r; }
  void violation(State &s, const std::string &kind, const std::string &key, const std::string &msg) {
    Violation v; v.kind = kind; v.key = key; v.msg = msg; v.input = inputOf(s); repoFrame(s, &v.stack);
    for (auto &t : s.trace) v.msg += " | " + t;
    if (violCount[kind + key]++ < (int)cfg.maxViol) { viols.push_back(v); SH->viol++; }
  }
  void endPath(State &s, const std::string &kind) {
    npaths++; SH->paths++; ends[kind]++;
    for (u32 r : s.reached) reach[r]++;
    for (u32 r : s.checksPassed) checks[r]++;
    maxStepsSeen = std::max(maxStepsSeen, s.steps);
    if (kind == "done" || kind == "panic-ok" || kind == "end") {
      sampleCtr++;
      u64 h = ExprPool::mix(sampleCtr * 7919 + getpid(), cfg.seed);
      bool take = samples.size() < cfg.samples; size_t at = samples.size();
      if (!take && cfg.samples && h % sampleCtr < cfg.samples) { take = true; at = h % cfg.samples; }
      if (take) {
        Sample sm; sm.kind = kind; sm.input = inputOf(s); u64 o = 14695981039346656037ull; evalGen++;
        for (auto &v : s.obs) { o ^= v.conc() ? v.c : evalU(v.e, s.pc.model.data()); o *= 1099511628211ull; }
        sm.obs = o; if (at == samples.size()) samples.push_back(sm); else samples[at] = sm;
      }
      if (solver.auditEvery && npaths % solver.auditEvery == 0) if (solver.z3full(s.pc, nullptr) == Sat::Unsat) fatal("z3 audit: completed path has an unsatisfiable path condition");
    }
  }

  void enterBlock(Frame &f, int bb) {
    f.prev = f.bb; f.bb = bb; f.pc = f.f->bbStart[bb];
    // phis in parallel
    KFunc *k = f.f; int p = f.pc; std::vector<std::pair<int, V>> upd;
    while (k->code[p].op == Instruction::PHI) {
      KInst &ki = k->code[p]; ki.seen = true; size_t i = 0; for (; i < ki.succ.size(); i++) if (ki.succ[i] == f.prev) break;
      if (i == ki.succ.size()) fatal("phi");
      const V *v = opv(f, ki, i);
      for (size_t j = 0; j < ki.leaves.size(); j++) upd.push_back({ki.dst + (int)j, v[j]});
      p++;
    }
    for (auto &u : upd) f.regs[u.first] = u.second;
    f.pc = p;
  }
  void pushFrame(State &s, const Function *F, std::vector<std::vector<V>> &args, const KInst *site) {
    if (s.stack.size() > cfg.maxDepth) throw PathEnd{"depth", "recursion deeper than " + std::to_string(cfg.maxDepth) + " frames"};
    if (cfg.trace) fprintf(stderr, "%*s%s\n", (int)s.stack.size(), "", F->getName().str().c_str());
    KFunc *k = compile(F);
    auto f = std::make_shared<Frame>(); f->f = k; f->regs.resize(k->nslots); f->call = site;
    for (size_t i = 0; i < k->argSlot.size() && i < args.size(); i++) for (int j = 0; j < k->argN[i] && j < (int)args[i].size(); j++) f->regs[k->argSlot[i] + j] = args[i][j];
    f->bb = 0; f->pc = 0; s.stack.push_back(f);
  }
  void setRes(Frame &f, const KInst &k, const V &v) { if (k.dst >= 0) f.regs[k.dst] = v; }
  void advance(Frame &f, const KInst &k) { if (k.op == Instruction::Invoke) enterBlock(f, k.succ[0]); else f.pc++; }
  void popFrame(State &s) { Frame &f = *s.stack.back(); for (u32 id : f.allocas) { s.dyn[id - NG] = ObjRef(); s.freeIds.push_back(id - NG); } s.stack.pop_back(); }

  u64 heapAlloc(State &s, u64 n) {
    if (n > cfg.maxAlloc) return 0; // allocator refuses
    s.heapBytes += n; maxHeap = std::max(maxHeap, s.heapBytes);
    if (s.heapBytes > cfg.maxAlloc * 2) throw PathEnd{"memory-limit", "live heap above the modelled limit"};
    return objAddr(newObj(s, n, 1));
  }
  void heapFree(State &s, u64 a) {
    if (!a) return; ObjRef *r = slotOf(s, a >> 32);
    if (!r || (*r)->kind != 1 || (a & 0xffffffff) != BASE) throw PathEnd{"memory", "invalid free"};
    s.heapBytes -= (*r)->size; *r = ObjRef(); s.freeIds.push_back((a >> 32) - NG);
  }
  u32 freshVar(State &s) { u32 v = s.nvars++; s.pc.ensure(v + 1); if (cfg.haveInput) { u8 x = v < cfg.input.size() ? cfg.input[v] : 0; s.pc.dom[v] = Dom{0, 0, 0, 0}; s.pc.dom[v][x >> 6] = 1ull << (x & 63); s.pc.model[v] = x; } return v; }
  E varE(State &s, u32 v) { return cfg.haveInput ? mkC(s.pc.model[v], 8) : mkVar(v); }
  V cmpBytes(const std::vector<V> &a, const std::vector<V> &b, bool order) {
    if (!order) { E all = ET; for (size_t i = 0; i < a.size(); i++) { all = mkAnd1(all, mkEq(ex(a[i], 8), ex(b[i], 8))); if (isFalse(all)) break; } return mk(mkIte(all, mkC(0, 32), mkC(1, 32))); }
    E r = mkC(0, 32);
    for (int i = (int)a.size() - 1; i >= 0; i--) { E x = ex(a[i], 8), y = ex(b[i], 8); r = mkIte(mkEq(x, y), r, mkIte(mkBin(Op::Ult, x, y), mkC(0xffffffff, 32), mkC(1, 32))); }
    return mk(r);
  }
  [[noreturn]] void doPanic(State &s, const std::string &what) {
    if (s.panicOk) throw PathEnd{"panic-ok", what};
    throw PathEnd{"panic", what};
  }
#include "ext.inc"

  bool step(State &s) { // returns false when the path ended
    Frame &f = top(s);
    KInst &k = f.f->code[f.pc]; k.seen = true;
    s.steps++; ninstr++;
    if (s.steps > cfg.maxSteps) throw PathEnd{"steps", "more than " + std::to_string(cfg.maxSteps) + " instructions"};
    switch (k.op) {
    case Instruction::Ret: {
      std::vector<V> rv; if (!k.ops.empty()) { const V *v = opv(f, k, 0); rv.assign(v, v + k.opn[0]); }
      const KInst *site = f.call; popFrame(s);
      if (s.stack.empty()) return false;
      Frame &c = top(s); for (size_t i = 0; i < rv.size() && site->dst >= 0 && i < site->leaves.size(); i++) c.regs[site->dst + i] = rv[i];
      advance(c, *site); return true;
    }
    case Instruction::Br:
      if (k.ops.empty()) { enterBlock(f, k.succ[0]); return true; }
      { V cv = *opv(f, k, 0); bool b = branch(s, cv); Frame &g = top(s); enterBlock(g, k.succ[b ? 0 : 1]); return true; }
    case Instruction::Switch: {
      V v = *opv(f, k, 0); unsigned w = k.opw[0];
      if (v.conc()) { int t = k.succ[0]; for (size_t i = 1; i < k.ops.size(); i++) if (opv(f, k, i)->c == v.c) { t = k.succ[i]; break; } enterBlock(f, t); return true; }
      std::map<int, E> tgt; E def = ET; std::vector<int> order;
      for (size_t i = 1; i < k.ops.size(); i++) { E c = mkEq(v.e, ex(*opv(f, k, i), w)); if (isFalse(c)) continue; def = mkAnd1(def, mkNot(c)); auto it = tgt.find(k.succ[i]); if (it == tgt.end()) { tgt[k.succ[i]] = c; order.push_back(k.succ[i]); } else it->second = mkOr1(it->second, c); }
      auto it = tgt.find(k.succ[0]); if (it == tgt.end()) { tgt[k.succ[0]] = def; order.push_back(k.succ[0]); } else it->second = mkOr1(it->second, def);
      for (size_t i = 0; i + 1 < order.size(); i++) { if (branch(s, mk(tgt[order[i]]))) { enterBlock(top(s), order[i]); return true; } }
      enterBlock(top(s), order.back()); return true;
    }
    case Instruction::Unreachable: throw PathEnd{"unreachable", "reached an instruction the compiler assumes unreachable"};
    case Instruction::Load: {
      V a = *opv(f, k, 0); if (k.aux) throw PathEnd{"unsupported", "sub-byte vector load"};
      for (size_t i = 0; i < k.leaves.size(); i++) { auto &l = k.leaves[i]; V v = load(s, l.off ? bin(Op::Add, a, V(l.off), 64) : a, l.width); top(s).regs[k.dst + i] = v; }
      f.pc++; return true;
    }
    case Instruction::Store: {
      V a = *opv(f, k, 1); if (k.aux) throw PathEnd{"unsupported", "sub-byte vector store"};
      u64 ad = concretize(s, a, 64, "store address"); const V *v = opv(f, k, 0);
      auto &lv = leavesOf(k.I->getOperand(0)->getType());
      for (size_t i = 0; i < lv.size(); i++) storeC(s, ad + lv[i].off, v[i], lv[i].width);
      f.pc++; return true;
    }
    case Instruction::GetElementPtr: {
      V a = *opv(f, k, 0); 
      if (k.opn[0] != 1) throw PathEnd{"unsupported", "vector gep"};
      V r = bin(Op::Add, a, V(k.gepConst), 64);
      for (auto &g : k.gepVar) { V idx = castV(Instruction::SExt, *opv(f, k, g.first), k.opw[g.first], 64); if (k.opw[g.first] > 64) throw PathEnd{"unsupported", "wide gep"}; r = bin(Op::Add, r, bin(Op::Mul, idx, V(g.second), 64), 64); }
      f.regs[k.dst] = r; f.pc++; return true;
    }
    case Instruction::Alloca: {
      V n = *opv(f, k, 0); if (!n.conc()) throw PathEnd{"unsupported", "symbolic alloca"};
      u32 id = newObj(s, k.aux * n.c, 2); f.allocas.push_back(id); f.regs[k.dst] = V(objAddr(id)); f.pc++; return true;
    }
    case Instruction::ICmp: {
      auto p = llvm::cast<ICmpInst>(k.I)->getPredicate(); const V *a = opv(f, k, 0), *b = opv(f, k, 1);
      for (size_t i = 0; i < k.leaves.size(); i++) f.regs[k.dst + i] = icmp(p, a[i], b[i], k.opw[0]);
      f.pc++; return true;
    }
    case Instruction::Select: {
      const V *c = opv(f, k, 0), *a = opv(f, k, 1), *b = opv(f, k, 2); bool vec = k.opn[0] > 1;
      std::vector<V> r(k.leaves.size());
      for (size_t i = 0; i < k.leaves.size(); i++) r[i] = ite(vec ? c[i] : c[0], a[i], b[i], k.leaves[i].width);
      for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i];
      f.pc++; return true;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      const V *a = opv(f, k, 0); std::vector<V> r(k.leaves.size());
      for (size_t i = 0; i < r.size(); i++) r[i] = castV(k.op, a[i], k.opw[0], k.leaves[i].width);
      for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i];
      f.pc++; return true;
    }
    case Instruction::BitCast: {
      const V *a = opv(f, k, 0); int n = k.opn[0], m = k.leaves.size(); std::vector<V> r(m);
      if (n == m) for (int i = 0; i < n; i++) r[i] = a[i];
      else { V all = bitcat(a, n, k.opw[0]); unsigned w = k.leaves[0].width; for (int i = 0; i < m; i++) r[i] = m == 1 ? all : mk(mkExtract(ex(all, k.opw[0] * n), i * w, w)); }
      for (int i = 0; i < m; i++) f.regs[k.dst + i] = r[i];
      f.pc++; return true;
    }
    case Instruction::Freeze: { const V *a = opv(f, k, 0); for (size_t i = 0; i < k.leaves.size(); i++) f.regs[k.dst + i] = a[i]; f.pc++; return true; }
    case Instruction::ExtractValue: { const V *a = opv(f, k, 0); std::vector<V> r(a + k.aux, a + k.aux + k.leaves.size()); for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i]; f.pc++; return true; }
    case Instruction::InsertValue: { const V *a = opv(f, k, 0), *b = opv(f, k, 1); std::vector<V> r(a, a + k.opn[0]); for (int i = 0; i < k.opn[1]; i++) r[k.aux + i] = b[i]; for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i]; f.pc++; return true; }
    case Instruction::ExtractElement: { V ix = *opv(f, k, 1); u64 i = concretize(s, ix, k.opw[1], "extractelement"); V r = opv(f, k, 0)[i]; top(s).regs[k.dst] = r; f.pc++; return true; }
    case Instruction::InsertElement: { V ix = *opv(f, k, 2); u64 i = concretize(s, ix, k.opw[2], "insertelement"); const V *a = opv(f, k, 0); std::vector<V> r(a, a + k.opn[0]); r[i] = *opv(f, k, 1); for (size_t j = 0; j < r.size(); j++) f.regs[k.dst + j] = r[j]; f.pc++; return true; }
    case Instruction::ShuffleVector: {
      auto *sv = llvm::cast<ShuffleVectorInst>(k.I); const V *a = opv(f, k, 0), *b = opv(f, k, 1); int n = k.opn[0]; std::vector<V> r;
      for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? V(0) : m < n ? a[m] : b[m - n]);
      for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i];
      f.pc++; return true;
    }
    case Instruction::Fence: f.pc++; return true;
    case Instruction::AtomicRMW: {
      auto *rm = llvm::cast<AtomicRMWInst>(k.I); u64 a = concretize(s, *opv(f, k, 0), 64, "atomic"); unsigned w = k.leaves[0].width; V old = loadC(s, a, w), v = *opv(f, k, 1), nv;
      switch (rm->getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = bin(Op::Add, old, v, w); break; case AtomicRMWInst::Sub: nv = bin(Op::Sub, old, v, w); break;
      case AtomicRMWInst::And: nv = bin(Op::And, old, v, w); break; case AtomicRMWInst::Or: nv = bin(Op::Or, old, v, w); break; case AtomicRMWInst::Xor: nv = bin(Op::Xor, old, v, w); break;
      case AtomicRMWInst::UMax: nv = ite(bin(Op::Ult, old, v, w), v, old, w); break; case AtomicRMWInst::UMin: nv = ite(bin(Op::Ult, v, old, w), v, old, w); break;
      default: throw PathEnd{"unsupported", "atomicrmw"};
      }
      storeC(s, a, nv, w); f.regs[k.dst] = old; f.pc++; return true;
    }
    case Instruction::AtomicCmpXchg: {
      u64 a = concretize(s, *opv(f, k, 0), 64, "atomic"); unsigned w = k.opw[1]; V old = loadC(s, a, w), e = *opv(f, k, 1), n = *opv(f, k, 2); V ok = bin(Op::Eq, old, e, w);
      storeC(s, a, ite(ok, n, old, w), w); f.regs[k.dst] = old; f.regs[k.dst + 1] = ok; f.pc++; return true;
    }
    case Instruction::Call: case Instruction::Invoke: return doCall(s, f, k);
    case Instruction::LandingPad: case Instruction::Resume: throw PathEnd{"unsupported", "unwinding"};
    default:
      if (llvm::Instruction::isBinaryOp(k.op)) {
        Op o = binop(k.op); const V *a = opv(f, k, 0), *b = opv(f, k, 1); std::vector<V> r(k.leaves.size());
        for (size_t i = 0; i < r.size(); i++) r[i] = bin(o, a[i], b[i], k.leaves[i].width);
        for (size_t i = 0; i < r.size(); i++) f.regs[k.dst + i] = r[i];
        f.pc++; return true;
      }
      throw PathEnd{"unsupported", std::string("instruction ") + k.I->getOpcodeName()};
    }
  }
  bool doCall(State &s, Frame &f0, KInst &k) {
    const Function *F = k.callee; int x = k.ext;
    if (x == -2) {
      V t = *opv(f0, k, k.ops.size() - 1); u64 a = concretize(s, t, 64, "call target"); u32 id = a >> 32;
      if (id == 0 || id >= NG || !isa<Function>(gvs[id])) throw PathEnd{"memory", "call through invalid pointer"};
      F = llvm::cast<Function>(gvs[id]); x = extOf(F);
    }
    Frame &f = top(s);
    if (x != X_none) return doExt(s, f, k, x, F);
    std::vector<std::vector<V>> args; size_t n = llvm::cast<CallBase>(k.I)->arg_size();
    for (size_t i = 0; i < n; i++) { const V *v = k.ops[i].slot < 0 && k.ops[i].cidx < 0 ? nullptr : opv(f, k, i); args.emplace_back(v, v + (v ? k.opn[i] : 0)); }
    pushFrame(s, F, args, &k);
    return true;
  }

  void runState(State &s) {
    try {
      if (cfg.trace) while (true) {
        Frame *fp = &top(s); size_t depth = s.stack.size(); KInst &k = fp->f->code[fp->pc]; std::string t; raw_string_ostream os(t); k.I->print(os); os.flush(); fprintf(stderr, "%s\n", t.substr(0, 220).c_str());
        if (!step(s)) break;
        if (k.dst >= 0 && s.stack.size() == depth) { V &r = s.stack.back()->regs[k.dst]; fprintf(stderr, "      -> %s\n", r.conc() ? std::to_string((long long)r.c).c_str() : exprStr(r.e).c_str()); }
      } else
      while (step(s)) { }
      endPath(s, "done");
    } catch (PathEnd &pe) {
      std::string where = repoFrame(s, nullptr);
      if (pe.kind == "assume") { ends["assume"]++; return; }
      if (pe.kind == "end") { endPath(s, "end"); return; }
      if (pe.kind == "panic-ok") { endPath(s, "panic-ok"); return; }
      endPath(s, pe.kind);
      if (pe.kind == "panic" || pe.kind == "memory" || pe.kind == "unreachable" || pe.kind == "abort" || pe.kind == "oom" || pe.kind == "memory-limit" || pe.kind == "steps" || pe.kind == "depth")
        violation(s, pe.kind, where, pe.msg);
      else { std::string st; repoFrame(s, &st); incomplete[pe.kind + ": " + pe.msg + " at " + where]++; if (cfg.verbose) fprintf(stderr, "incomplete %s %s\n%s", pe.kind.c_str(), pe.msg.c_str(), st.c_str()); }
    }
  }
  void explore(); void writeResults(const std::string &);
  void run(Function *entry);
};

void Engine::explore() {
  double last = nowS();
  while (!work.empty()) {
    if (SH->stop) { incomplete["stopped"] += work.size(); break; }
    if (cfg.stopFirst && SH->viol > 0) { SH->stop = 1; break; }
    if (nowS() - t0 > cfg.timeLimit) { incomplete["time-limit"] += work.size(); work.clear(); break; }
    if (work.size() >= 2 && SH->active < cfg.jobs && nowS() - last > 0.05) {
      last = nowS();
      int a = SH->active++;
      if (a >= cfg.jobs) SH->active--;
      else {
        SH->procs++;
        pid_t p = fork();
        if (p == 0) { // child takes every second state
          std::vector<std::unique_ptr<State>> mine;
          for (size_t i = 0; i < work.size(); i += 2) mine.push_back(std::move(work[i]));
          work = std::move(mine);
          viols.clear(); violCount.clear(); samples.clear(); sampleCtr = 0; ends.clear(); reach.clear(); checks.clear(); incomplete.clear(); npaths = ninstr = nforks = checksSymbolic = checksConcrete = checksZ3 = 0; t0p = nowS(); solver.st = SolverStats(); maxStepsSeen = maxHeap = 0;
          explore();
          SH->active--;
          writeResults(cfg.resDir + "/r" + std::to_string(getpid()));
          int st; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) SH->failed++;
          _exit(0);
        } else if (p < 0) { SH->active--; SH->procs--; }
        else { std::vector<std::unique_ptr<State>> mine; for (size_t i = 1; i < work.size(); i += 2) mine.push_back(std::move(work[i])); work = std::move(mine); }
      }
      continue;
    }
    auto st = std::move(work.back()); work.pop_back();
    runState(*st);
  }
}
static std::string hex(const std::vector<u8> &v) { std::string r; char b[4]; for (u8 x : v) { sprintf(b, "%02x", x); r += b; } return r.empty() ? "-" : r; }
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += ' '; else r += c; } return r; }
void Engine::writeResults(const std::string &path) {
  std::ofstream o(path);
  for (auto &v : viols) o << "V\t" << v.kind << "\t" << esc(v.key) << "\t" << esc(v.msg) << "\t" << hex(v.input) << "\t" << esc(v.stack) << "\n";
  for (auto &p : violCount) o << "VC\t" << esc(p.first) << "\t" << p.second << "\n";
  for (auto &s : samples) o << "S\t" << s.kind << "\t" << s.obs << "\t" << hex(s.input) << "\n";
  for (auto &p : ends) o << "E\t" << p.first << "\t" << p.second << "\n";
  for (auto &p : reach) o << "R\t" << p.first << "\t" << p.second << "\n";
  for (auto &p : checks) o << "C\t" << p.first << "\t" << p.second << "\n";
  for (auto &p : incomplete) o << "I\t" << esc(p.first) << "\t" << p.second << "\n";
  auto &t = solver.st;
  o << "N\tpaths\t" << npaths << "\nN\tinstructions\t" << ninstr << "\nN\tforks\t" << nforks << "\nN\tz3_queries\t" << t.z3_queries << "\nN\tz3_sat\t" << t.z3_sat << "\nN\tz3_unsat\t" << t.z3_unsat << "\nN\tz3_unknown\t" << t.z3_unknown
    << "\nN\ttable_decisions\t" << t.table_decisions << "\nN\tcache_hits\t" << t.cache_hits << "\nN\tz3_audits\t" << t.z3_audit << "\nN\tguess_hits\t" << t.guess_hits << "\nN\tinterval_decisions\t" << t.interval << "\nN\tchecks_symbolic\t" << checksSymbolic << "\nN\tchecks_z3\t" << checksZ3 << "\nN\tchecks_concrete\t" << checksConcrete << "\nT\tz3_time\t" << t.z3_time << "\nM\tmax_steps\t" << maxStepsSeen << "\nM\tmax_heap\t" << maxHeap << "\n";
  std::set<std::string> fns;
  for (auto &p : kf) for (auto &k : p.second->code) if (k.seen) for (const DILocation *d = k.I->getDebugLoc(); d; d = d->getInlinedAt()) {
    auto *sp = d->getScope()->getSubprogram(); if (!sp) continue; std::string fpath = sp->getDirectory().str() + "/" + sp->getFilename().str(); if (sp->getFilename().startswith("/")) fpath = sp->getFilename().str();
    size_t q = fpath.find("/crates/"); if (q == std::string::npos || fpath.find("/.cargo/") != std::string::npos || fpath.find("/verif/") != std::string::npos) continue;
    fns.insert(fpath.substr(q + 8) + "::" + sp->getName().str());
  }
  for (auto &x : fns) o << "F\t" << x << "\n";
  o << "END\n";
}
void Engine::run(Function *entry) {
  auto s = std::make_unique<State>(); s->gw = gwInit;
  errnoId = newObj(*s, 16, 2);
  std::vector<std::vector<V>> noargs; pushFrame(*s, entry, noargs, nullptr);
  work.push_back(std::move(s));
  explore();
  SH->active--;
  writeResults(cfg.resDir + "/r" + std::to_string(getpid()));
  int st; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) SH->failed++;
}

int main(int argc, char **argv) {
  Config c; std::string bc; unsigned audit = 0, z3to = 30000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--harness") c.harness = nx(); else if (a == "--time") c.timeLimit = atof(nx().c_str()); else if (a == "--jobs") c.jobs = atoi(nx().c_str());
    else if (a == "--steps") c.maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--depth") c.maxDepth = atoi(nx().c_str()); else if (a == "--values") c.maxValues = atoi(nx().c_str());
    else if (a == "--samples") c.samples = atoi(nx().c_str()); else if (a == "--stubfmt") c.stubFormat = true; else if (a == "--res") c.resDir = nx(); else if (a == "-v") c.verbose = true;
    else if (a == "--audit") audit = atoi(nx().c_str()); else if (a == "--seed") c.seed = strtoull(nx().c_str(), 0, 0); else if (a == "--stop-first") c.stopFirst = true; else if (a == "--z3-timeout") z3to = atoi(nx().c_str());
    else if (a == "--trace") c.trace = true; else if (a == "--input") { std::string h = nx(); c.haveInput = true; for (size_t j = 0; j + 1 < h.size(); j += 2) c.input.push_back((u8)strtoul(h.substr(j, 2).c_str(), 0, 16)); }
    else if (a == "--max-alloc") c.maxAlloc = strtoull(nx().c_str(), 0, 0);
    else bc = a;
  }
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->active = 1;
  LLVMContext ctx; SMDiagnostic err;
  auto M = getLazyIRFileModule(bc, err, ctx);
  if (!M) { err.print("symex", errs()); return 71; }
  Engine e; e.M = M.get(); e.DL = &M->getDataLayout(); e.C = &ctx; e.cfg = c; e.t0 = nowS(); e.stubFmt = c.stubFormat;
  e.solver.init(); e.solver.timeout_ms = z3to; e.solver.auditEvery = audit;
  e.setupGlobals();
  Function *F = M->getFunction(c.harness);
  if (!F) { fprintf(stderr, "no harness %s\n", c.harness.c_str()); return 72; }
  e.run(F);
  printf("wall %.2f paths %llu procs %d failed %d\n", nowS() - e.t0, (unsigned long long)SH->paths.load(), SH->procs.load(), SH->failed.load());
  return SH->failed ? 73 : 0;
}
