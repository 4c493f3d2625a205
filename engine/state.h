// Program representation and execution state of the symbolic executor.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Val {
  Expr* e = nullptr;   // null: concrete
  uint64_t c = 0;
  Val() {}
  Val(uint64_t x) : c(x) {}
  bool sym() const { return e != nullptr; }
};
// Wraps an expression; constants of at most 64 bits become concrete.
static inline Val vx(Expr* e) {
  Val v;
  if (e->k == KConst && e->w <= 64) v.c = (uint64_t)e->v; else v.e = e;
  return v;
}
static inline Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------ memory
enum ObjKind : uint8_t { OGlobal, OConst, OStack, OHeap, OFunc, OTls };
struct SymByte { Expr* e; uint8_t i; };   // byte i of expression e (null: concrete byte)
struct Shadow {
  struct B { uint32_t wclk; uint8_t wtid; uint8_t nr; uint32_t rclk[6]; };
  std::vector<B> b;
};
struct MemObj {
  int rc = 1;
  uint32_t size = 0;
  ObjKind kind = OGlobal;
  uint8_t tag = 0;         // allocation family: 1 malloc, 2 new, 3 new[]
  uint32_t site = 0;
  uint8_t* d = nullptr;
  SymByte* s = nullptr;
  std::unique_ptr<Shadow> sh;
  MemObj(uint32_t n, ObjKind k) : size(n), kind(k) { d = (uint8_t*)malloc(n ? n : 1); }
  MemObj(const MemObj& o) : size(o.size), kind(o.kind), tag(o.tag), site(o.site) {
    d = (uint8_t*)malloc(size ? size : 1); memcpy(d, o.d, size);
    if (o.s) { s = (SymByte*)malloc(sizeof(SymByte) * size); memcpy(s, o.s, sizeof(SymByte) * size); }
    if (o.sh) sh.reset(new Shadow(*o.sh));
  }
  ~MemObj() { free(d); free(s); }
};
extern MemObj gFreedHeap, gFreedStack;
struct Page {
  int rc = 1;
  MemObj* o[64] = {};
  Page() {}
  Page(const Page& p) { for (int i = 0; i < 64; i++) { o[i] = p.o[i]; if (o[i]) o[i]->rc++; } }
  ~Page() { for (auto x : o) if (x && --x->rc == 0) delete x; }
};
struct Memory {
  std::vector<Page*> pages;
  uint64_t next = 1;
  Memory() {}
  Memory(const Memory& m) : pages(m.pages), next(m.next) { for (auto p : pages) if (p) p->rc++; }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (auto p : pages) if (p && --p->rc == 0) delete p; }
  MemObj* get(uint64_t id) const { size_t p = id >> 6; if (p >= pages.size() || !pages[p]) return nullptr; return pages[p]->o[id & 63]; }
  Page* wpage(size_t p) {
    if (p >= pages.size()) pages.resize(p + 1, nullptr);
    Page*& pg = pages[p];
    if (!pg) pg = new Page();
    else if (pg->rc > 1) { Page* n = new Page(*pg); pg->rc--; pg = n; }
    return pg;
  }
  MemObj* wr(uint64_t id) {
    Page* pg = wpage(id >> 6);
    MemObj*& o = pg->o[id & 63];
    if (o->rc > 1) { MemObj* n = new MemObj(*o); n->rc = 1; o->rc--; o = n; }
    return o;
  }
  void set(uint64_t id, MemObj* n) { Page* pg = wpage(id >> 6); MemObj*& o = pg->o[id & 63]; if (o && --o->rc == 0) delete o; o = n; }
};
static const unsigned OFFB = 24;
static const uint64_t OFFM = (1ull << OFFB) - 1;

// ------------------------------------------------------------ code
struct Edge { uint32_t pc; uint32_t bb; std::vector<std::pair<int32_t, int32_t>> mv; };
struct GepTerm { int32_t r; int64_t scale; uint8_t w; };
struct Gep { int64_t off = 0; std::vector<GepTerm> t; };
struct FnInfo;
struct Engine; struct State;
enum BR { BCont, BReexec, BPushed };   // result of a builtin
struct DInst;
typedef BR (*Builtin)(Engine&, State&, const DInst&);
struct CallInfo {
  FnInfo* fn = nullptr; int32_t target = 0; bool indirect = false;
  std::vector<int32_t> args;                     // flattened leaves
  std::vector<uint32_t> argBase;                 // leaf index of every formal argument
  std::vector<std::pair<uint32_t, uint32_t>> byval;  // leaf index, size
  unsigned nret = 0; uint8_t retw = 0;
  uint32_t fixed = 0;
};
struct Leaf { uint32_t off; uint8_t w; };
enum Op : uint8_t {
  OpBin, OpICmp, OpFCmp, OpCast, OpSelect, OpLoad, OpStore, OpGep, OpAlloca, OpBr, OpCondBr, OpSwitch, OpRet, OpCall,
  OpCopy, OpUnreachable, OpFNeg, OpRmw, OpCmpXchg, OpFence, OpInsert, OpUnsupported, OpLoadAgg, OpStoreAgg, OpVaArg
};
struct DInst {
  Op op; uint8_t k = 0;      // expression kind / predicate / cast opcode
  uint8_t w = 0, w2 = 0;     // operand / result width
  bool flag = false;         // atomic / swap / negate
  int32_t dst = -1, a = 0, b = 0, c = 0;
  uint32_t x = 0;            // side table index
  uint32_t n = 0;            // leaves
  const llvm::Instruction* I = nullptr;
};
struct Switch { std::vector<std::pair<uint64_t, Edge>> cs; Edge def; };
struct FnInfo {
  llvm::Function* F = nullptr; std::string name; uint64_t id = 0;   // object id
  bool decoded = false; Builtin bi = nullptr; bool unknown = false; uint32_t idx = 0;
  std::vector<DInst> code; uint32_t nregs = 0, nargs = 0;
  std::vector<Val> consts; std::vector<uint8_t> constw;
  std::vector<Edge> edges; std::vector<Gep> geps; std::vector<CallInfo> calls; std::vector<Switch> sw;
  std::vector<std::vector<int32_t>> lists; std::vector<std::vector<Leaf>> leaves;
  std::vector<uint8_t> regw;
  uint64_t hits = 0;
};
struct Frame {
  FnInfo* fn; uint32_t pc = 0;
  std::vector<Val> r;
  std::vector<uint64_t> allocas;   // object ids
  std::vector<Val> va;             // variadic leaves
  uint8_t onRet = 0;               // 1: guard/once completion hook
  uint64_t hook = 0;
};
typedef std::vector<uint32_t> VC;
struct Thread {
  std::vector<Frame> st;
  bool done = false, granted = false, started = false;
  uint64_t waitMutex = 0; uint8_t waitKind = 0;  // 1 mutex 2 join 3 futex 4 rd 5 wr
  int64_t waitArg = 0;
  uint64_t retval = 0; bool joined = false, detached = false;
  VC vc;
  std::map<uint64_t, uint64_t> tls;
};
struct Mutex { int owner = -1; int count = 0; int readers = 0; VC vc; };
struct RItem { uint8_t kind; std::string name; Val v; uint8_t w; };  // 0 symbol, 1 choice
struct State {
  Memory mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Expr*> pc;
  Model model;
  unsigned nsyms = 0;
  std::vector<RItem> log;
  std::vector<std::pair<Val, uint8_t>> obs;
  std::vector<uint8_t> sched;
  std::map<uint64_t, Mutex> mtx;
  std::map<uint64_t, VC> avc;
  int preempt = 0;
  uint64_t ninst = 0;
  int64_t liveHeap = 0;
  int64_t heapMark = 0;
  unsigned depth = 0;
  std::map<std::string, int64_t> forkCount;
  unsigned nasserts = 0;
  std::set<uint64_t> covers;
};
