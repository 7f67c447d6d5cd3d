// Symbolic executor for LLVM IR (path forking, concrete object layout, byte-granular symbolic memory).
#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <deque>

struct V { u64 c = 0; E e = nullptr; V() {} V(u64 x) : c(x) {} V(int x) : c((u64)(long long)x) {} V(unsigned x) : c(x) {} V(unsigned long long x) : c(x) {} V(bool x) : c(x) {} explicit V(E x) : e(x) {} bool conc() const { return !e; } };

struct Obj {
  int rc = 0;
  u64 size = 0;
  bool ro = false, alive = true;
  u8 kind = 0; // 0 global 1 heap 2 stack
  std::vector<u8> b;
  std::vector<E> s; // empty or one entry per byte (null: concrete)
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() {}
  explicit ObjRef(Obj *o) : p(o) { if (p) p->rc++; }
  ObjRef(const ObjRef &o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef &operator=(ObjRef o) noexcept { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
  Obj *operator->() const { return p; }
};

struct Leaf { unsigned width; u64 off; };
struct Opnd { int slot; int cidx; }; // slot>=0: register, else constant pool index

struct KInst {
  const llvm::Instruction *I = nullptr;
  unsigned op = 0;
  int dst = -1;
  std::vector<Leaf> leaves;   // of the result
  std::vector<Opnd> ops;
  std::vector<unsigned> opw;  // scalar width of each operand (first leaf)
  std::vector<int> opn;       // leaf count of each operand
  const llvm::Function *callee = nullptr;
  int ext = -1;               // external/intrinsic handler
  u64 gepConst = 0; std::vector<std::pair<int, u64>> gepVar; // operand index, scale
  u64 aux = 0, aux2 = 0;
  std::vector<int> succ;
  mutable bool seen = false;
};
struct KBlock { int first, n; int nphi; };
struct KFunc {
  const llvm::Function *F;
  std::vector<KInst> code;
  std::vector<int> bbStart; // index of first instruction of block
  std::vector<std::vector<V>> cpool;
  int nslots = 0;
  std::vector<int> argSlot, argN;
  std::vector<std::pair<int,int>> dummy;
};
struct Frame {
  KFunc *f = nullptr;
  std::vector<V> regs;
  int pc = 0;
  int bb = 0, prev = -1;
  const KInst *call = nullptr; // call site in the caller
  std::vector<u32> allocas;
};

struct UFApp { u64 id; std::vector<V> in; std::vector<u32> outVars; };
struct Known { std::unordered_map<E, u64> m; };

struct State {
  std::vector<std::shared_ptr<Frame>> stack;
  std::vector<ObjRef> dyn;     // dynamic objects
  std::vector<u32> freeIds;
  std::vector<ObjRef> gw;      // writable globals
  std::vector<u32> narrowed; PathCond pc;
  std::unordered_map<E, u64> known;
  u32 nvars = 0;
  u64 steps = 0;
  u64 forks = 0;
  std::vector<V> obs;
  std::vector<u32> reached;
  std::vector<u32> checksPassed;
  std::vector<std::string> trace;
  std::vector<UFApp> ufs;
  std::shared_ptr<std::map<std::string, std::vector<V>>> files;
  bool panicOk = false;
  u64 heapBytes = 0;
  u32 nextFd = 3;
};

struct PathEnd { std::string kind, msg; };

struct Violation { std::string kind, key, msg, stack; std::vector<u8> input; std::vector<std::pair<std::string,std::string>> extra; };

struct Config {
  std::string harness;
  double timeLimit = 600;
  u64 maxSteps = 20000000;
  unsigned maxDepth = 3000;
  unsigned maxValues = 300;
  u64 maxAlloc = 1u << 28;
  int jobs = 1;
  unsigned samples = 50;
  unsigned maxViol = 3;
  bool stubFormat = false;
  bool stopFirst = false;
  u64 seed = 1;
  std::string resDir;
  bool verbose = false, trace = false, haveInput = false;
  std::vector<u8> input;
};
