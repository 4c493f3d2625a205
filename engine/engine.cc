// symx: symbolic executor for LLVM bitcode.
#include "state.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
MemObj gFreedHeap(0, OHeap), gFreedStack(0, OStack);

struct PathEnd { int kind; std::string what, msg; };   // 0 done, 1 violation, 2 unsupported, 3 infeasible, 4 budget
[[noreturn]] static void viol(const std::string& what, const std::string& msg) { throw PathEnd{1, what, msg}; }
[[noreturn]] static void unsup(const std::string& msg) { throw PathEnd{2, "unsupported", msg}; }

struct Shared { volatile int violations; volatile int kf; volatile int stop; volatile long traces; volatile long paths; };

static std::string jsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

struct Engine {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::unordered_map<const Value*, uint64_t> gaddr;      // globals and functions
  std::unordered_map<uint64_t, FnInfo*> fnById;
  std::unordered_map<const Function*, FnInfo*> fns;
  std::vector<FnInfo*> fnList;
  std::unordered_map<uint64_t, GlobalVariable*> tlsById;
  std::vector<State*> work;
  // options
  std::string entry, outPath; uint64_t maxInst = 40000000; int maxViol = 3; double deadline = 1e18;
  int maxPreempt = 2; int tokenFd = -1, tokenWr = -1; unsigned traceEvery = 50; int maxTraces = 24; int caseNo = 0; bool verbose = false;
  bool schedAtomics = false;
  unsigned maxFork = 4096;
  double pathBudget = 1e18;
  int outFd = -1;
  Shared* sh = nullptr;
  // stats
  uint64_t paths = 0, infeasible = 0, forks = 0, insts = 0, asserts = 0, assertQueries = 0, unsupp = 0, unexplored = 0, switches = 0, maxDepth = 0, unknowns = 0;
  std::set<std::string> covers; std::map<std::string, uint64_t> unsupMsgs;
  std::vector<pid_t> kids;
  bool isChild = false;
  std::vector<char> fnHit;
  std::chrono::steady_clock::time_point t0;
  double lastShare = 0;

  double now() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }

  // ---------------------------------------------------------- types
  unsigned scalarW(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
  }
  void leavesOf(Type* t, uint64_t off, std::vector<Leaf>& out) {
    if (unsigned w = scalarW(t)) { out.push_back({(uint32_t)off, (uint8_t)w}); return; }
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, out); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) leavesOf(v->getElementType(), off + i * es, out); return; }
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
    out.push_back({(uint32_t)off, 0});  // unsupported leaf (x86_fp80 ...)
  }
  unsigned nleaves(Type* t) { if (scalarW(t)) return 1; std::vector<Leaf> l; leavesOf(t, 0, l); return l.size(); }

  // ---------------------------------------------------------- constants
  Val constScalar(const Constant* C) {
    if (auto* ci = dyn_cast<ConstantInt>(C)) { unsigned w = ci->getBitWidth(); if (w <= 64) return Val(ci->getZExtValue()); const uint64_t* r = ci->getValue().getRawData(); u128 v = r[0] | ((u128)r[1] << 64); Val x; x.e = mkConst(v, w); return x; }
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { unsigned w = scalarW(C->getType()); if (w > 64) { Val x; x.e = mkConst(0, w); return x; } return Val(0); }
    if (auto* f = dyn_cast<ConstantFP>(C)) { if (!scalarW(C->getType())) return Val(0); return Val(f->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (auto* ga = dyn_cast<GlobalAlias>(C)) return constScalar(ga->getAliasee());
    if (isa<GlobalValue>(C)) { auto it = gaddr.find(C); if (it == gaddr.end()) unsup("address of unknown global " + C->getName().str()); return Val(it->second); }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          auto* g = cast<GEPOperator>(ce); APInt off(64, 0);
          if (!g->accumulateConstantOffset(*DL, off)) unsup("constant gep");
          return Val(constScalar(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
        case Instruction::Trunc: { Val v = constScalar(ce->getOperand(0)); return Val(v.c & (uint64_t)maskw(scalarW(ce->getType()))); }
        case Instruction::Sub: return Val(constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c);
        case Instruction::Add: return Val(constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c);
        default: unsup(std::string("constant expression ") + ce->getOpcodeName());
      }
    }
    unsup("constant kind");
  }
  void constLeaves(const Constant* C, std::vector<Val>& out) {
    Type* t = C->getType();
    if (scalarW(t)) { out.push_back(constScalar(C)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
      std::vector<Leaf> l; leavesOf(t, 0, l); for (auto& x : l) { if (x.w > 64) { Val v; v.e = mkConst(0, x.w); out.push_back(v); } else out.push_back(Val(0)); } return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) out.push_back(constScalar(cd->getElementAsConstant(i))); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constLeaves(cast<Constant>(ca->getOperand(i)), out); return; }
    out.push_back(Val(0));
  }
  void initMem(MemObj* o, uint64_t off, const Constant* C) {
    Type* t = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(o, off + L->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) { Type* et = ca->getOperand(0)->getType(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(o, off + i * es, ca->getOperand(i)); return; }
    unsigned w = scalarW(t);
    if (!w) return;
    Val v = constScalar(C);
    if (v.e) { u128 x = v.e->v; memcpy(o->d + off, &x, (w + 7) / 8); return; }
    memcpy(o->d + off, &v.c, (w + 7) / 8);
  }

  // ---------------------------------------------------------- decoding
  struct Dec {
    Engine& E; FnInfo& f;
    std::unordered_map<const Value*, int32_t> slot;
    std::unordered_map<const Value*, int32_t> cslot;
    std::unordered_map<const BasicBlock*, uint32_t> bbpc;
    Dec(Engine& e, FnInfo& fi) : E(e), f(fi) {}
    int32_t operand(const Value* v, unsigned leaf = 0) {
      auto it = slot.find(v);
      if (it != slot.end()) return it->second + (int32_t)leaf;
      if (auto* c = dyn_cast<Constant>(v)) {
        auto ic = cslot.find(v);
        if (ic == cslot.end()) {
          std::vector<Val> l; E.constLeaves(c, l);
          std::vector<Leaf> lw; E.leavesOf(c->getType(), 0, lw);
          int32_t base = f.consts.size();
          for (size_t i = 0; i < l.size(); i++) { f.consts.push_back(l[i]); f.constw.push_back(i < lw.size() ? lw[i].w : 64); }
          ic = cslot.emplace(v, base).first;
        }
        return -1 - (ic->second + (int32_t)leaf);
      }
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1;
      unsup("operand kind in " + f.name);
    }
    uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
      Edge e; e.bb = 0; e.pc = ~0u;
      for (auto& phi : to->phis()) {
        const Value* in = phi.getIncomingValueForBlock(from);
        unsigned n = E.nleaves(phi.getType());
        for (unsigned i = 0; i < n; i++) e.mv.push_back({slot[&phi] + (int32_t)i, operand(in, i)});
      }
      f.edges.push_back(e);
      fix.push_back({(uint32_t)f.edges.size() - 1, to});
      return f.edges.size() - 1;
    }
    std::vector<std::pair<uint32_t, const BasicBlock*>> fix;
  };
  static K binKind(unsigned op) {
    switch (op) {
      case Instruction::Add: case Instruction::Sub: return KAdd; case Instruction::Mul: return KMul;
      case Instruction::UDiv: return KUDiv; case Instruction::SDiv: return KSDiv; case Instruction::URem: return KURem; case Instruction::SRem: return KSRem;
      case Instruction::And: return KAnd; case Instruction::Or: return KOr; case Instruction::Xor: return KXor;
      case Instruction::Shl: return KShl; case Instruction::LShr: return KLShr; case Instruction::AShr: return KAShr;
      case Instruction::FAdd: return KFAdd; case Instruction::FSub: return KFSub; case Instruction::FMul: return KFMul; case Instruction::FDiv: return KFDiv;
      default: return KConst;
    }
  }
  void decode(FnInfo& f) {
    f.decoded = true;
    Function* F = f.F;
    Dec D(*this, f);
    auto addSlot = [&](const Value* v) {
      std::vector<Leaf> l; leavesOf(v->getType(), 0, l);
      D.slot[v] = f.nregs; for (auto& x : l) f.regw.push_back(x.w); f.nregs += l.size();
    };
    for (auto& a : F->args()) addSlot(&a);
    f.nargs = f.nregs;
    for (auto& I : instructions(F)) if (!I.getType()->isVoidTy()) addSlot(&I);
    for (auto& BB : *F) {
      D.bbpc[&BB] = f.code.size();
      for (auto& I : BB) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        DInst d; d.I = &I; d.dst = D.slot.count(&I) ? D.slot[&I] : -1; d.op = OpUnsupported;
        Type* T = I.getType();
        try { decodeInst(D, f, I, d, T); } catch (PathEnd& p) { d.op = OpUnsupported; }
        f.code.push_back(d);
      }
    }
    for (auto& p : D.fix) f.edges[p.first].pc = D.bbpc[p.second];
    for (auto& s : f.sw) { for (auto& c : s.cs) c.second = f.edges[c.second.bb]; s.def = f.edges[s.def.bb]; }
  }
  void decodeInst(Dec& D, FnInfo& f, Instruction& I, DInst& d, Type* T) {
    if (auto* B = dyn_cast<BinaryOperator>(&I)) {
      unsigned w = scalarW(T); K k = binKind(B->getOpcode());
      if (!w || k == KConst) return;
      d.op = OpBin; d.k = k; d.w = w; d.flag = B->getOpcode() == Instruction::Sub; d.a = D.operand(I.getOperand(0)); d.b = D.operand(I.getOperand(1));
      return;
    }
    switch (I.getOpcode()) {
      case Instruction::FNeg: d.op = OpFNeg; d.w = scalarW(T); d.a = D.operand(I.getOperand(0)); if (!d.w) d.op = OpUnsupported; return;
      case Instruction::ICmp: case Instruction::FCmp: {
        auto* c = cast<CmpInst>(&I); unsigned w = scalarW(c->getOperand(0)->getType()); if (!w) return;
        d.op = I.getOpcode() == Instruction::ICmp ? OpICmp : OpFCmp; d.k = c->getPredicate(); d.w = w; d.a = D.operand(c->getOperand(0)); d.b = D.operand(c->getOperand(1)); return;
      }
      case Instruction::Select: {
        unsigned n = nleaves(T);
        std::vector<int32_t> l; for (unsigned i = 0; i < n; i++) { l.push_back(D.operand(I.getOperand(1), i)); l.push_back(D.operand(I.getOperand(2), i)); }
        if (scalarW(I.getOperand(0)->getType()) != 1) return;
        f.lists.push_back(l); d.op = OpSelect; d.x = f.lists.size() - 1; d.n = n; d.a = D.operand(I.getOperand(0)); return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        unsigned w = scalarW(I.getOperand(0)->getType()), w2 = scalarW(T); if (!w || !w2) return;
        d.op = OpCast; d.k = I.getOpcode(); d.w = w; d.w2 = w2; d.a = D.operand(I.getOperand(0)); return;
      }
      case Instruction::Freeze: { unsigned n = nleaves(T); std::vector<int32_t> l; for (unsigned i = 0; i < n; i++) l.push_back(D.operand(I.getOperand(0), i)); f.lists.push_back(l); d.op = OpCopy; d.x = f.lists.size() - 1; d.n = n; return; }
      case Instruction::Alloca: {
        auto* A = cast<AllocaInst>(&I); d.op = OpAlloca; d.x = (uint32_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); d.a = D.operand(A->getArraySize()); return;
      }
      case Instruction::Load: {
        auto* L = cast<LoadInst>(&I); d.a = D.operand(L->getPointerOperand()); d.flag = L->isAtomic();
        if (unsigned w = scalarW(T)) { d.op = OpLoad; d.w = w; return; }
        std::vector<Leaf> l; leavesOf(T, 0, l); for (auto& x : l) if (!x.w) return;
        f.leaves.push_back(l); d.op = OpLoadAgg; d.x = f.leaves.size() - 1; return;
      }
      case Instruction::Store: {
        auto* S = cast<StoreInst>(&I); d.b = D.operand(S->getPointerOperand()); Type* vt = S->getValueOperand()->getType(); d.flag = S->isAtomic(); d.n = S->isAtomic() && S->getOrdering() == AtomicOrdering::SequentiallyConsistent;
        if (unsigned w = scalarW(vt)) { d.op = OpStore; d.w = w; d.a = D.operand(S->getValueOperand()); return; }
        std::vector<Leaf> l; leavesOf(vt, 0, l); for (auto& x : l) if (!x.w) return;
        std::vector<int32_t> o; for (unsigned i = 0; i < l.size(); i++) o.push_back(D.operand(S->getValueOperand(), i));
        f.leaves.push_back(l); f.lists.push_back(o); d.op = OpStoreAgg; d.x = f.leaves.size() - 1; d.n = f.lists.size() - 1; return;
      }
      case Instruction::GetElementPtr: {
        auto* G = cast<GetElementPtrInst>(&I); if (!scalarW(T)) return;
        Gep g; 
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value* ix = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) { g.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = (int64_t)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { g.off += sc * ci->getSExtValue(); continue; }
          g.t.push_back({D.operand(ix), sc, (uint8_t)scalarW(ix->getType())});
        }
        f.geps.push_back(g); d.op = OpGep; d.x = f.geps.size() - 1; d.a = D.operand(G->getPointerOperand()); return;
      }
      case Instruction::Br: {
        auto* B = cast<BranchInst>(&I);
        if (B->isUnconditional()) { d.op = OpBr; d.x = D.edge(I.getParent(), B->getSuccessor(0)); return; }
        d.op = OpCondBr; d.a = D.operand(B->getCondition()); d.x = D.edge(I.getParent(), B->getSuccessor(0)); d.n = D.edge(I.getParent(), B->getSuccessor(1)); return;
      }
      case Instruction::Switch: {
        auto* S = cast<SwitchInst>(&I); d.op = OpSwitch; d.a = D.operand(S->getCondition()); d.w = scalarW(S->getCondition()->getType());
        Switch s; for (auto& c : S->cases()) { Edge e; e.bb = D.edge(I.getParent(), c.getCaseSuccessor()); s.cs.push_back({c.getCaseValue()->getZExtValue(), e}); }
        s.def.bb = D.edge(I.getParent(), S->getDefaultDest()); f.sw.push_back(s); d.x = f.sw.size() - 1; return;
      }
      case Instruction::Ret: {
        d.op = OpRet; std::vector<int32_t> l; if (I.getNumOperands()) { unsigned n = nleaves(I.getOperand(0)->getType()); for (unsigned i = 0; i < n; i++) l.push_back(D.operand(I.getOperand(0), i)); }
        f.lists.push_back(l); d.x = f.lists.size() - 1; d.n = l.size(); return;
      }
      case Instruction::Unreachable: d.op = OpUnreachable; return;
      case Instruction::Fence: d.op = OpFence; return;
      case Instruction::ExtractValue: {
        auto* X = cast<ExtractValueInst>(&I); unsigned base = leafIndex(X->getAggregateOperand()->getType(), X->getIndices()); unsigned n = nleaves(T);
        std::vector<int32_t> l; for (unsigned i = 0; i < n; i++) l.push_back(D.operand(X->getAggregateOperand(), base + i));
        f.lists.push_back(l); d.op = OpCopy; d.x = f.lists.size() - 1; d.n = n; return;
      }
      case Instruction::InsertValue: {
        auto* X = cast<InsertValueInst>(&I); unsigned base = leafIndex(T, X->getIndices()), m = nleaves(X->getInsertedValueOperand()->getType()), n = nleaves(T);
        std::vector<int32_t> l; for (unsigned i = 0; i < n; i++) l.push_back(i >= base && i < base + m ? D.operand(X->getInsertedValueOperand(), i - base) : D.operand(X->getAggregateOperand(), i));
        f.lists.push_back(l); d.op = OpCopy; d.x = f.lists.size() - 1; d.n = n; return;
      }
      case Instruction::ExtractElement: {
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) return;
        f.lists.push_back({D.operand(I.getOperand(0), ci->getZExtValue())}); d.op = OpCopy; d.x = f.lists.size() - 1; d.n = 1; return;
      }
      case Instruction::InsertElement: {
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) return; unsigned n = nleaves(T);
        std::vector<int32_t> l; for (unsigned i = 0; i < n; i++) l.push_back(i == ci->getZExtValue() ? D.operand(I.getOperand(1)) : D.operand(I.getOperand(0), i));
        f.lists.push_back(l); d.op = OpCopy; d.x = f.lists.size() - 1; d.n = n; return;
      }
      case Instruction::ShuffleVector: {
        auto* S = cast<ShuffleVectorInst>(&I); unsigned n0 = nleaves(I.getOperand(0)->getType());
        std::vector<int32_t> l; for (int m : S->getShuffleMask()) { if (m < 0) m = 0; l.push_back((unsigned)m < n0 ? D.operand(I.getOperand(0), m) : D.operand(I.getOperand(1), m - n0)); }
        f.lists.push_back(l); d.op = OpCopy; d.x = f.lists.size() - 1; d.n = l.size(); return;
      }
      case Instruction::AtomicRMW: {
        auto* R = cast<AtomicRMWInst>(&I); d.op = OpRmw; d.k = R->getOperation(); d.w = scalarW(T); d.a = D.operand(R->getPointerOperand()); d.b = D.operand(R->getValOperand()); return;
      }
      case Instruction::AtomicCmpXchg: {
        auto* X = cast<AtomicCmpXchgInst>(&I); d.op = OpCmpXchg; d.w = scalarW(X->getCompareOperand()->getType()); d.a = D.operand(X->getPointerOperand()); d.b = D.operand(X->getCompareOperand()); d.c = D.operand(X->getNewValOperand()); return;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto* C = cast<CallBase>(&I);
        d.op = OpCall; CallInfo ci;
        Value* cv = C->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* F = dyn_cast<Function>(cv)) ci.fn = fns[F];
        else if (isa<InlineAsm>(cv)) { auto* ia = cast<InlineAsm>(cv); ci.indirect = true; ci.target = -1; if (ia->getAsmString().empty()) { d.op = OpFence; return; } d.op = OpUnsupported; return; }
        else { ci.indirect = true; ci.target = D.operand(C->getCalledOperand()); }
        for (unsigned i = 0; i < C->arg_size(); i++) {
          Value* a = C->getArgOperand(i); ci.argBase.push_back(ci.args.size());
          if (C->isByValArgument(i)) ci.byval.push_back({(uint32_t)ci.args.size(), (uint32_t)DL->getTypeAllocSize(C->getParamByValType(i)).getFixedValue()});
          if (a->getType()->isMetadataTy()) { ci.args.push_back(-1); continue; }
          unsigned n = nleaves(a->getType()); for (unsigned j = 0; j < n; j++) ci.args.push_back(D.operand(a, j));
          if (i < C->getFunctionType()->getNumParams()) ci.fixed = ci.args.size();
        }
        if (f.consts.empty()) { f.consts.push_back(Val(0)); f.constw.push_back(64); }
        ci.nret = T->isVoidTy() ? 0 : nleaves(T); ci.retw = scalarW(T);
        f.calls.push_back(ci); d.x = f.calls.size() - 1; d.w = ci.retw;
        if (auto* inv = dyn_cast<InvokeInst>(C)) { d.flag = true; d.n = D.edge(I.getParent(), inv->getNormalDest()); }
        return;
      }
      case Instruction::LandingPad: case Instruction::Resume: d.op = OpUnreachable; return;
      default: return;
    }
  }
  unsigned leafIndex(Type* t, ArrayRef<unsigned> ix) {
    unsigned r = 0;
    for (unsigned i : ix) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += nleaves(s->getElementType(j)); t = s->getElementType(i); }
      else { auto* a = cast<ArrayType>(t); r += i * nleaves(a->getElementType()); t = a->getElementType(); }
    }
    return r;
  }

  // ---------------------------------------------------------- frames
  Frame& top(State& s) { return s.th[s.cur].st.back(); }
  static const Val& get(const Frame& f, int32_t o) { return o >= 0 ? f.r[o] : f.fn->consts[-1 - o]; }
  void setReg(State& s, int32_t o, Val v) { if (o >= 0) top(s).r[o] = v; }
  Val arg(State& s, const DInst& d, unsigned i) { Frame& f = top(s); auto& ci = f.fn->calls[d.x]; return get(f, ci.args[ci.argBase[i]]); }
  int32_t argOp(State& s, const DInst& d, unsigned i) { Frame& f = top(s); auto& ci = f.fn->calls[d.x]; return ci.args[ci.argBase[i]]; }
  unsigned nargs(State& s, const DInst& d) { return top(s).fn->calls[d.x].argBase.size(); }
  uint64_t carg(State& s, const DInst& d, unsigned i) { return concretize(s, argOp(s, d, i), 64); }
  unsigned argW(State& s, const DInst& d, unsigned i) { auto* C = cast<CallBase>(d.I); return scalarW(C->getArgOperand(i)->getType()); }
  void ret(State& s, const DInst& d, Val v) { if (d.dst >= 0) top(s).r[d.dst] = v; }

  std::string where(State& s) {
    std::string r;
    auto& st = s.th[s.cur].st;
    int n = 0;
    for (int i = (int)st.size() - 1; i >= 0 && n < 12; i--, n++) {
      Frame& f = st[i]; r += demangle(f.fn->name);
      uint32_t pc = f.pc; if (i != (int)st.size() - 1 && pc > 0) pc--;
      if (pc < f.fn->code.size()) if (auto L = f.fn->code[pc].I->getDebugLoc()) r += " (" + L->getFilename().str() + ":" + std::to_string(L->getLine()) + ")";
      r += " < ";
    }
    return r;
  }

  // ---------------------------------------------------------- constraints and forking
  void addPC(State& s, Expr* c) { if (isC(c)) return; if (c->k == KAnd && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; } s.pc.push_back(c); }
  State* clone(State& s) { forks++; return new State(s); }
  bool evalB(State& s, Expr* c) { newEvalEpoch(); return evalExpr(c, s.model) != 0; }
  int solve(State& s, Expr* q, Model* m) {
    int r = solveQuery(s.pc, q, s.model, m);
    if (r < 0) { unknowns++; }
    return r;
  }
  void push(State* s) { s->depth++; maxDepth = std::max<uint64_t>(maxDepth, s->depth); work.push_back(s); }
  // Both outcomes of `c`. The state continues with the returned outcome; if the
  // other one is feasible too a clone carrying it is returned in *other.
  bool branch(State& s, Expr* c, State** other) {
    *other = nullptr;
    if (isC(c)) return c->v != 0;
    bool v = evalB(s, c);
    Expr* neg = v ? mkNot(c) : c;
    Model m;
    int r = solve(s, neg, &m);
    if (r < 0) unsup("solver gave no answer for a branch");
    if (r == 1) { State* o = clone(s); addPC(*o, neg); o->model = m; *other = o; addPC(s, v ? c : mkNot(c)); }
    return v;
  }
  // For builtins: the other outcome runs the call again.
  bool forkOn(State& s, Expr* c) { State* o; bool v = branch(s, c, &o); if (o) push(o); return v; }
  uint64_t concretize(State& s, int32_t op, unsigned w) {
    Val v = get(top(s), op);
    if (!v.e) return v.c;
    Expr* e = v.e;
    newEvalEpoch();
    u128 c = evalExpr(e, s.model);
    Expr* eq = mkBin(KEq, e, mkConst(c, e->w));
    Model m; Expr* ne = mkNot(eq);
    int r = isC(ne) ? 0 : solve(s, ne, &m);
    if (r < 0) unsup("solver gave no answer while enumerating a value");
    if (r == 1) {
      if (++s.forkCount["conc"] > (int)maxFork) unsup("too many values for a symbolic address or size at " + where(s));
      State* o = clone(s); addPC(*o, ne); o->model = m; push(o);
    }
    addPC(s, eq);
    // substitute in every register of the frame holding the same expression
    for (auto& x : top(s).r) if (x.e == e) { x.e = nullptr; x.c = (uint64_t)c; }
    return (uint64_t)c;
  }

  // ---------------------------------------------------------- memory access
  uint64_t allocObj(State& s, uint64_t size, ObjKind k, uint8_t tag = 0) {
    if (size > OFFM - 64) viol("huge-allocation", "allocation of " + std::to_string(size) + " bytes");
    uint64_t id = s.mem.next++;
    MemObj* o = new MemObj((uint32_t)size, k); o->tag = tag; memset(o->d, k == OHeap || k == OStack ? 0xA5 : 0, size);
    s.mem.set(id, o);
    if (k == OHeap) s.liveHeap++;
    return id << OFFB;
  }
  void freeObj(State& s, uint64_t addr, uint8_t tag) {
    if (!addr) return;
    uint64_t id = addr >> OFFB; MemObj* o = s.mem.get(id);
    if (o == &gFreedHeap) viol("double-free", "memory released twice");
    if (!o || o->kind != OHeap || (addr & OFFM)) viol("bad-free", "release of something that is not a heap block");
    if (o->tag != tag && !(o->tag == 0)) viol("bad-free", "mismatched allocation and release functions");
    if (raceOn(s)) raceAccess(s, id, 0, o->size, true);
    gFreedHeap.rc++; s.mem.set(id, &gFreedHeap); s.liveHeap--;
  }
  MemObj* lookup(State& s, uint64_t addr, uint64_t n, bool wr) {
    uint64_t id = addr >> OFFB, off = addr & OFFM;
    MemObj* o = s.mem.get(id);
    if (!o) viol(addr < 65536 ? "null-dereference" : "wild-pointer", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at an invalid address");
    if (o == &gFreedHeap) viol("use-after-free", std::string(wr ? "write to" : "read of") + " released heap memory");
    if (o == &gFreedStack) viol("use-after-return", std::string(wr ? "write to" : "read of") + " a dead stack variable");
    if (off + n > o->size) viol("out-of-bounds", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off > (1 << 23) ? (int64_t)off - (1 << 24) : (int64_t)off) + " of a " + std::to_string(o->size) + "-byte object");
    if (o->kind == OFunc) viol("wild-pointer", "access to code");
    if (wr && o->kind == OConst) viol("write-to-constant", "write to constant data");
    return o;
  }
  Val rd(State& s, uint64_t addr, unsigned w, bool atomic = false) {
    unsigned n = (w + 7) / 8;
    MemObj* o = lookup(s, addr, n, false); uint64_t off = addr & OFFM;
    if (!atomic && raceOn(s)) raceAccess(s, addr >> OFFB, off, n, false);
    if (o->s) {
      bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { any = true; break; }
      if (any) {
        SymByte* b = o->s + off; Expr* e = b[0].e;
        bool whole = e && b[0].i == 0 && e->w <= n * 8 && e->w > (n - 1) * 8;
        for (unsigned i = 1; whole && i < n; i++) if (b[i].e != e || b[i].i != i) whole = false;
        Expr* r;
        if (whole) r = e->w == n * 8 ? e : mkZExt(e, n * 8);
        else {
          r = nullptr;
          for (unsigned i = 0; i < n; i++) {
            Expr* x;
            if (!b[i].e) x = mkConst(o->d[off + i], 8);
            else { unsigned lo = b[i].i * 8; unsigned cw = std::min(8u, b[i].e->w - lo); x = mkZExt(mkExtract(b[i].e, lo, cw), 8); }
            r = r ? mkConcat(x, r) : x;
          }
        }
        return vx(mkExtract(r, 0, w));
      }
    }
    if (w <= 64) { uint64_t v = 0; memcpy(&v, o->d + off, n); if (w < 64) v &= (1ull << w) - 1; return Val(v); }
    u128 v = 0; memcpy(&v, o->d + off, n); Val x; x.e = mkConst(v & maskw(w), w); return x;
  }
  void wrt(State& s, uint64_t addr, const Val& v, unsigned w, bool atomic = false) {
    unsigned n = (w + 7) / 8;
    lookup(s, addr, n, true); uint64_t off = addr & OFFM;
    if (!atomic && raceOn(s)) raceAccess(s, addr >> OFFB, off, n, true);
    MemObj* o = s.mem.wr(addr >> OFFB);
    if (!v.e) { memcpy(o->d + off, &v.c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i].e = nullptr; return; }
    if (isC(v.e)) { u128 c = v.e->v; memcpy(o->d + off, &c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i].e = nullptr; return; }
    if (!o->s) { o->s = (SymByte*)calloc(o->size ? o->size : 1, sizeof(SymByte)); }
    for (unsigned i = 0; i < n; i++) { o->s[off + i].e = v.e; o->s[off + i].i = i; }
  }
  void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    MemObj* so = lookup(s, src, n, false); lookup(s, dst, n, true);
    if (raceOn(s)) { raceAccess(s, src >> OFFB, src & OFFM, n, false); raceAccess(s, dst >> OFFB, dst & OFFM, n, true); }
    std::vector<uint8_t> tmp(so->d + (src & OFFM), so->d + (src & OFFM) + n);
    std::vector<SymByte> ts; if (so->s) ts.assign(so->s + (src & OFFM), so->s + (src & OFFM) + n);
    bool any = false; for (auto& b : ts) if (b.e) any = true;
    MemObj* o = s.mem.wr(dst >> OFFB); uint64_t off = dst & OFFM;
    memcpy(o->d + off, tmp.data(), n);
    if (any) { if (!o->s) o->s = (SymByte*)calloc(o->size ? o->size : 1, sizeof(SymByte)); memcpy(o->s + off, ts.data(), n * sizeof(SymByte)); }
    else if (o->s) for (uint64_t i = 0; i < n; i++) o->s[off + i].e = nullptr;
  }
  std::string cstr(State& s, uint64_t a) { std::string r; for (int i = 0; i < 4000; i++) { Val v = rd(s, a + i, 8); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }
  // Address operand: symbolic addresses are enumerated, out of bounds values first.
  uint64_t address(State& s, int32_t op, uint64_t n) {
    Val v = get(top(s), op);
    if (!v.e) return v.c;
    newEvalEpoch();
    uint64_t c = (uint64_t)evalExpr(v.e, s.model);
    MemObj* o = s.mem.get(c >> OFFB);
    if (o && o->size >= n && (c & OFFM) + n <= o->size) {
      uint64_t base = c & ~OFFM;
      Expr* in = mkBin(KUle, mkBin(KAdd, v.e, mkConst(-(u128)base, 64)), mkConst(o->size - n, 64));
      if (!isC(in)) {
        State* other; bool side = branch(s, in, &other);
        (void)side;   // the model satisfies `in`
        if (other) push(other);
      }
    }
    return concretize(s, op, 64);
  }

  // ---------------------------------------------------------- races and scheduling
  bool raceOn(State& s) { return s.th.size() > 1; }
  void raceAccess(State& s, uint64_t id, uint64_t off, uint64_t n, bool wr) {
    MemObj* o = s.mem.get(id);
    if (!o || o->kind == OConst || o->kind == OFunc || o->kind == OTls || o->tag == 9) return;
    if (o->size > 4096) return;
    int t = s.cur; VC& vc = s.th[t].vc;
    o = s.mem.wr(id);
    if (!o->sh) { o->sh.reset(new Shadow()); o->sh->b.resize(o->size); memset(o->sh->b.data(), 0, o->size * sizeof(Shadow::B)); }
    for (uint64_t i = off; i < off + n; i++) {
      auto& b = o->sh->b[i];
      if (b.wclk && b.wtid != t && b.wclk > vc[b.wtid]) viol("data-race", std::string(wr ? "write" : "read") + " not ordered after a write by another thread");
      if (wr) {
        for (int k = 0; k < 6 && k < (int)s.th.size(); k++) if (k != t && b.rclk[k] > vc[k]) viol("data-race", "write not ordered after a read by another thread");
        b.wclk = vc[t]; b.wtid = t;
      } else b.rclk[t] = vc[t];
    }
  }
  static void join(VC& a, const VC& b) { for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
  void acq(State& s, VC& l) { if (l.empty()) return; join(s.th[s.cur].vc, l); }
  void rel(State& s, VC& l) { if (l.empty()) l.assign(6, 0); VC& v = s.th[s.cur].vc; join(l, v); v[s.cur]++; }
  void initThread(Thread& t) { t.vc.assign(6, 0); }
  bool runnable(State& s, int i) {
    Thread& t = s.th[i];
    if (t.done) return false;
    switch (t.waitKind) {
      case 0: return true;
      case 1: { auto& m = s.mtx[t.waitMutex]; return m.owner < 0 && m.readers == 0; }
      case 2: return s.th[t.waitArg].done;
      case 3: return false;   // futex: made runnable by a wake
      case 4: return s.mtx[t.waitMutex].owner < 0;
    }
    return true;
  }
  void grant(State& s, int i) {
    Thread& t = s.th[i];
    t.granted = true; t.waitKind = 0;
    if (i && !t.started) { t.started = true; s.sched.push_back(i); }   // its first step is part of the schedule
  }
  // Called before a visible operation; forks the states in which another thread goes first.
  void schedPoint(State& s, int mark = 0) {
    if (s.th.size() < 2) return;
    Thread& t = s.th[s.cur];
    if (t.granted) { t.granted = false; s.sched.push_back(s.cur | mark); return; }
    if (s.preempt < maxPreempt)
      for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && runnable(s, i)) {
        State* o = clone(s); o->cur = i; o->preempt++; grant(*o, i); switches++; push(o);
      }
    s.sched.push_back(s.cur | mark);
  }
  // The current thread cannot go on: switch to another one.
  void block(State& s) {
    std::vector<int> c;
    for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && runnable(s, i)) c.push_back(i);
    if (c.empty()) {
      bool all = true; for (auto& t : s.th) if (!t.done) all = false;
      if (all) throw PathEnd{0, "", ""};
      viol("deadlock", "no thread can continue");
    }
    for (size_t k = 1; k < c.size(); k++) { State* o = clone(s); o->cur = c[k]; grant(*o, c[k]); switches++; push(o); }
    s.cur = c[0]; grant(s, c[0]); switches++;
  }

  // ---------------------------------------------------------- calls
  void pushFrame(State& s, FnInfo* fn, std::vector<Val>&& args, std::vector<Val>&& va = {}) {
    if (!fn->decoded) decode(*fn);
    if (!fnHit[fn->idx]) fnHit[fn->idx] = 1;
    fn->hits++;
    auto& st = s.th[s.cur].st;
    if (st.size() > 3000) viol("stack-overflow", "more than 3000 nested calls (unbounded recursion)");
    st.emplace_back();
    Frame& f = st.back(); f.fn = fn; f.pc = 0; f.r = std::move(args); f.r.resize(fn->nregs); f.va = std::move(va);
  }
  // Calls a function on behalf of a builtin; control returns to the instruction after the current one.
  void callFrom(State& s, const DInst& d, uint64_t fnaddr, std::vector<Val>&& args) {
    auto it = fnById.find(fnaddr >> OFFB);
    if (it == fnById.end()) viol("bad-call", "call through an invalid function pointer");
    FnInfo* fn = it->second;
    if (fn->bi || !fn->F || fn->F->isDeclaration()) unsup("callback to external function " + fn->name);
    advance(s, d);
    pushFrame(s, fn, std::move(args));
    top(s).onRet = 2;   // result discarded
  }
  void jump(State& s, const Edge& e) {
    Frame& f = top(s);
    if (e.mv.size() == 1) f.r[e.mv[0].first] = get(f, e.mv[0].second);
    else if (!e.mv.empty()) {
      Val tmp[64]; std::vector<Val> big; Val* t = tmp;
      if (e.mv.size() > 64) { big.resize(e.mv.size()); t = big.data(); }
      for (size_t i = 0; i < e.mv.size(); i++) t[i] = get(f, e.mv[i].second);
      for (size_t i = 0; i < e.mv.size(); i++) f.r[e.mv[i].first] = t[i];
    }
    f.pc = e.pc;
  }
  void advance(State& s, const DInst& d) {
    Frame& f = top(s);
    if (d.op == OpCall && d.flag) jump(s, f.fn->edges[d.n]); else f.pc++;
  }
  void leave(State& s, const Val* rv, unsigned n) {
    Thread& t = s.th[s.cur];
    Frame& f = t.st.back();
    for (auto id : f.allocas) { gFreedStack.rc++; s.mem.set(id, &gFreedStack); }
    uint8_t onRet = f.onRet; uint64_t hook = f.hook;
    if (t.st.size() == 1) {
      t.retval = n ? (rv[0].e ? 0 : rv[0].c) : 0;
      t.st.pop_back();
      threadEnd(s);
      return;
    }
    std::vector<Val> keep(rv, rv + n);
    t.st.pop_back();
    (void)hook;
    if (onRet == 2) return;  // pc was already advanced
    Frame& c = t.st.back();
    const DInst& d = c.fn->code[c.pc];
    if (d.dst >= 0) for (unsigned i = 0; i < n; i++) c.r[d.dst + i] = keep[i];
    advance(s, d);
  }
  void threadEnd(State& s) {
    Thread& t = s.th[s.cur]; t.done = true;
    if (s.cur == 0) {
      for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i].done) unsup("harness ended with running threads");
      throw PathEnd{0, "", ""};
    }
    s.sched.push_back(s.cur);
    block(s);
  }

  // ---------------------------------------------------------- the interpreter
  static bool opIsComm(K) { return false; }
  Val binop(State& s, K k, bool sub, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
      switch (k) {
        case KAdd: return Val((sub ? a.c - b.c : a.c + b.c) & m);
        case KMul: return Val((a.c * b.c) & m);
        case KAnd: return Val(a.c & b.c);
        case KOr: return Val(a.c | b.c);
        case KXor: return Val(a.c ^ b.c);
        case KShl: return Val(b.c >= w ? 0 : (a.c << b.c) & m);
        case KLShr: return Val(b.c >= w ? 0 : a.c >> b.c);
        case KAShr: { int64_t x = sx64(a.c, w); return Val((uint64_t)(b.c >= w ? (x < 0 ? -1 : 0) : (x >> b.c)) & m); }
        default: break;
      }
    }
    if ((k == KUDiv || k == KSDiv || k == KURem || k == KSRem)) {
      if (!b.e) { if (b.c == 0) viol("division-by-zero", "integer division by zero"); }
      else {
        State* o; Expr* z = mkBin(KEq, b.e, mkConst(0, w)); bool isz = branch(s, z, &o);
        if (isz) { if (o) { push(o); } viol("division-by-zero", "integer division by zero"); }
        if (o) { push(o); }
      }
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    return vx(sub ? mkSub(x, y) : mkBin(k, x, y));
  }
  Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) {
      int64_t x = sx64(a.c, w), y = sx64(b.c, w);
      switch (p) {
        case CmpInst::ICMP_EQ: return Val(a.c == b.c); case CmpInst::ICMP_NE: return Val(a.c != b.c);
        case CmpInst::ICMP_UGT: return Val(a.c > b.c); case CmpInst::ICMP_UGE: return Val(a.c >= b.c);
        case CmpInst::ICMP_ULT: return Val(a.c < b.c); case CmpInst::ICMP_ULE: return Val(a.c <= b.c);
        case CmpInst::ICMP_SGT: return Val(x > y); case CmpInst::ICMP_SGE: return Val(x >= y);
        case CmpInst::ICMP_SLT: return Val(x < y); case CmpInst::ICMP_SLE: return Val(x <= y);
      }
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return vx(mkBin(KEq, x, y)); case CmpInst::ICMP_NE: return vx(mkNot(mkBin(KEq, x, y)));
      case CmpInst::ICMP_UGT: return vx(mkBin(KUlt, y, x)); case CmpInst::ICMP_UGE: return vx(mkBin(KUle, y, x));
      case CmpInst::ICMP_ULT: return vx(mkBin(KUlt, x, y)); case CmpInst::ICMP_ULE: return vx(mkBin(KUle, x, y));
      case CmpInst::ICMP_SGT: return vx(mkBin(KSlt, y, x)); case CmpInst::ICMP_SGE: return vx(mkBin(KSle, y, x));
      case CmpInst::ICMP_SLT: return vx(mkBin(KSlt, x, y)); case CmpInst::ICMP_SLE: return vx(mkBin(KSle, x, y));
    }
    unsup("icmp");
  }
  Val fcmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    Expr *x = ex(a, w), *y = ex(b, w);
    Expr* r;
    switch (p & 7) {   // ordered part: 1 eq 2 gt 4 lt
      case 0: r = mkConst(0, 1); break;
      case 1: r = mkBin(KFOeq, x, y); break;
      case 2: r = mkBin(KFOlt, y, x); break;
      case 3: r = mkBin(KFOle, y, x); break;
      case 4: r = mkBin(KFOlt, x, y); break;
      case 5: r = mkBin(KFOle, x, y); break;
      case 6: r = mkBin(KOr, mkBin(KFOlt, x, y), mkBin(KFOlt, y, x)); break;
      default: r = mkNot(mkBin(KFUno, x, y)); break;
    }
    if (p & 8) { if ((p & 7) == 7) r = mkConst(1, 1); else if ((p & 7) == 0) r = mkBin(KFUno, x, y); else r = mkBin(KOr, r, mkBin(KFUno, x, y)); }
    return vx(r);
  }
  Val cast_(unsigned op, const Val& a, unsigned w, unsigned w2) {
    if (!a.e && w <= 64 && w2 <= 64) switch (op) {
      case Instruction::Trunc: return Val(a.c & (w2 == 64 ? ~0ull : (1ull << w2) - 1));
      case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return w2 < w ? Val(a.c & ((1ull << w2) - 1)) : a;
      case Instruction::SExt: { int64_t x = sx64(a.c, w); return Val((uint64_t)x & (w2 == 64 ? ~0ull : (1ull << w2) - 1)); }
    }
    Expr* x = ex(a, w);
    switch (op) {
      case Instruction::Trunc: return vx(mkExtract(x, 0, w2));
      case Instruction::ZExt: return vx(mkZExt(x, w2));
      case Instruction::SExt: return vx(mkSExt(x, w2));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        return w2 < w ? vx(mkExtract(x, 0, w2)) : w2 > w ? vx(mkZExt(x, w2)) : vx(x);
      case Instruction::FPExt: return vx(mkF1(KFExt, x, w2));
      case Instruction::FPTrunc: return vx(mkF1(KFTrunc, x, w2));
      case Instruction::FPToSI: return vx(mkF1(KFPToSI, x, w2));
      case Instruction::FPToUI: return vx(mkF1(KFPToUI, x, w2));
      case Instruction::SIToFP: return vx(mkF1(KSIToFP, x, w2));
      case Instruction::UIToFP: return vx(mkF1(KUIToFP, x, w2));
    }
    unsup("cast");
  }

  void run(State& s) {
    uint64_t tick = 0;
    for (;;) {
      Frame& f = top(s);
      const DInst& d = f.fn->code[f.pc];
      s.ninst++; insts++;
      if ((++tick & 0x3ff) == 0) {
        if (s.ninst > maxInst) viol("non-termination", "more than " + std::to_string(maxInst) + " instructions on one path");
        if ((tick & 0xffff) == 0 && (now() > deadline || sh->stop)) throw PathEnd{4, "", ""};
      }
      switch (d.op) {
        case OpBin: { Val v = binop(s, (K)d.k, d.flag, get(f, d.a), get(f, d.b), d.w); f.r[d.dst] = v; f.pc++; break; }
        case OpFNeg: { Val a = get(f, d.a); f.r[d.dst] = vx(mkBin(KXor, ex(a, d.w), mkConst((u128)1 << (d.w - 1), d.w))); f.pc++; break; }
        case OpICmp: f.r[d.dst] = icmp(d.k, get(f, d.a), get(f, d.b), d.w); f.pc++; break;
        case OpFCmp: f.r[d.dst] = fcmp(d.k, get(f, d.a), get(f, d.b), d.w); f.pc++; break;
        case OpCast: f.r[d.dst] = cast_(d.k, get(f, d.a), d.w, d.w2); f.pc++; break;
        case OpSelect: {
          const Val c = get(f, d.a); auto& l = f.fn->lists[d.x];
          for (unsigned i = 0; i < d.n; i++) {
            if (!c.e) f.r[d.dst + i] = get(f, l[2 * i + (c.c ? 0 : 1)]);
            else { unsigned w = f.fn->regw[d.dst + i]; f.r[d.dst + i] = vx(mkIte(c.e, ex(get(f, l[2 * i]), w), ex(get(f, l[2 * i + 1]), w))); }
          }
          f.pc++; break;
        }
        case OpCopy: { auto& l = f.fn->lists[d.x]; for (unsigned i = 0; i < d.n; i++) f.r[d.dst + i] = get(f, l[i]); f.pc++; break; }
        case OpGep: {
          auto& g = f.fn->geps[d.x]; Val b = get(f, d.a);
          if (!b.e) b.c += g.off; else if (g.off) b = vx(mkBin(KAdd, b.e, mkConst((u128)(i128)g.off, 64)));
          for (auto& t : g.t) {
            Val ix = get(f, t.r);
            if (!ix.e && !b.e) b.c += (uint64_t)(sx64(ix.c, t.w) * t.scale);
            else b = vx(mkBin(KAdd, ex(b, 64), mkBin(KMul, mkSExt(ex(ix, t.w), 64), mkConst((u128)(i128)t.scale, 64))));
          }
          f.r[d.dst] = b; f.pc++; break;
        }
        case OpAlloca: {
          uint64_t n = concretize(s, d.a, 64); uint64_t a = allocObj(s, n * d.x, OStack);
          f.allocas.push_back(a >> OFFB); f.r[d.dst] = Val(a); f.pc++; break;
        }
        case OpLoad: {
          uint64_t a = address(s, d.a, (d.w + 7) / 8);
          if (d.flag) { atomicPoint(s, a, true, false); }
          f.r[d.dst] = rd(s, a, d.w, d.flag); f.pc++; break;
        }
        case OpStore: {
          uint64_t a = address(s, d.b, (d.w + 7) / 8);
          if (d.n) schedPoint(s, 16);   // a plain store to an atomic may lose an update by another thread
          if (d.flag) atomicPoint(s, a, false, true);
          wrt(s, a, get(f, d.a), d.w, d.flag); f.pc++; break;
        }
        case OpLoadAgg: { uint64_t a = concretize(s, d.a, 64); int i = 0; for (auto& l : f.fn->leaves[d.x]) f.r[d.dst + i++] = rd(s, a + l.off, l.w); f.pc++; break; }
        case OpStoreAgg: { uint64_t a = concretize(s, d.b, 64); int i = 0; auto& ls = f.fn->lists[d.n]; for (auto& l : f.fn->leaves[d.x]) wrt(s, a + l.off, get(f, ls[i++]), l.w); f.pc++; break; }
        case OpBr: jump(s, f.fn->edges[d.x]); break;
        case OpCondBr: {
          const Val& c = get(f, d.a);
          if (!c.e) { jump(s, f.fn->edges[c.c & 1 ? d.x : d.n]); break; }
          State* o; bool v = branch(s, c.e, &o);
          if (o) { jump(*o, f.fn->edges[v ? d.n : d.x]); push(o); }
          jump(s, f.fn->edges[v ? d.x : d.n]);
          break;
        }
        case OpSwitch: {
          const Val c = get(f, d.a); auto& sw = f.fn->sw[d.x];
          if (!c.e) { const Edge* e = &sw.def; for (auto& k : sw.cs) if (k.first == c.c) { e = &k.second; break; } jump(s, *e); break; }
          uint64_t v = concretizeSwitch(s, d, c.e, sw); (void)v;
          break;
        }
        case OpRet: {
          auto& l = f.fn->lists[d.x]; Val rv[8]; std::vector<Val> big; Val* p = rv; if (d.n > 8) { big.resize(d.n); p = big.data(); }
          for (unsigned i = 0; i < d.n; i++) p[i] = get(f, l[i]);
          leave(s, p, d.n); break;
        }
        case OpCall: doCall(s, f, d); break;
        case OpFence: f.pc++; break;
        case OpRmw: {
          uint64_t a = concretize(s, d.a, 64); atomicPoint(s, a, true, true);
          Val o = rd(s, a, d.w, true), b = get(f, d.b), n;
          switch (d.k) {
            case AtomicRMWInst::Xchg: n = b; break;
            case AtomicRMWInst::Add: n = binop(s, KAdd, false, o, b, d.w); break;
            case AtomicRMWInst::Sub: n = binop(s, KAdd, true, o, b, d.w); break;
            case AtomicRMWInst::And: n = binop(s, KAnd, false, o, b, d.w); break;
            case AtomicRMWInst::Or: n = binop(s, KOr, false, o, b, d.w); break;
            case AtomicRMWInst::Xor: n = binop(s, KXor, false, o, b, d.w); break;
            default: unsup("atomicrmw");
          }
          wrt(s, a, n, d.w, true); f.r[d.dst] = o; f.pc++; break;
        }
        case OpCmpXchg: {
          uint64_t a = concretize(s, d.a, 64); atomicPoint(s, a, true, true);
          Val o = rd(s, a, d.w, true), c = get(f, d.b);
          Val eq = icmp(CmpInst::ICMP_EQ, o, c, d.w);
          if (eq.e) unsup("symbolic cmpxchg");
          if (eq.c) wrt(s, a, get(f, d.c), d.w, true);
          f.r[d.dst] = o; f.r[d.dst + 1] = eq; f.pc++; break;
        }
        case OpUnreachable: viol("unreachable", "control reached a point the compiler proved unreachable (undefined behaviour)");
        default: {
          std::string t; raw_string_ostream os(t); d.I->print(os); unsup("instruction " + t + " in " + demangle(f.fn->name));
        }
      }
    }
  }
  void atomicPoint(State& s, uint64_t a, bool r, bool w) {
    if (s.th.size() < 2) return;
    auto& v = s.avc[a];
    if (r) acq(s, v);
    if (w) rel(s, v);
  }
  uint64_t concretizeSwitch(State& s, const DInst& d, Expr* e, Switch& sw) {
    newEvalEpoch();
    uint64_t v = (uint64_t)evalExpr(e, s.model);
    const Edge* mine = &sw.def; bool isDef = true;
    for (auto& k : sw.cs) if (k.first == v) { mine = &k.second; isDef = false; break; }
    // other cases
    Expr* none = mkConst(1, 1);
    for (auto& k : sw.cs) {
      Expr* eq = mkBin(KEq, e, mkConst(k.first, d.w));
      none = mkBin(KAnd, none, mkNot(eq));
      if (!isDef && k.first == v) continue;
      Model m; if (isC(eq) && !eq->v) continue;
      int r = solve(s, eq, &m); if (r < 0) unsup("solver gave no answer for a switch");
      if (r) { State* o = clone(s); addPC(*o, eq); o->model = m; jump(*o, k.second); push(o); }
    }
    if (!isDef && !(isC(none) && !none->v)) {
      Model m; int r = solve(s, none, &m); if (r < 0) unsup("solver gave no answer for a switch");
      if (r) { State* o = clone(s); addPC(*o, none); o->model = m; jump(*o, sw.def); push(o); }
    }
    addPC(s, isDef ? none : mkBin(KEq, e, mkConst(v, d.w)));
    jump(s, *mine);
    return v;
  }
  void doCall(State& s, Frame& f, const DInst& d) {
    auto& ci = f.fn->calls[d.x];
    FnInfo* fn = ci.fn;
    if (ci.indirect) {
      uint64_t a = concretize(s, ci.target, 64);
      auto it = (a & OFFM) ? fnById.end() : fnById.find(a >> OFFB);
      if (it == fnById.end()) {
        MemObj* o = s.mem.get(a >> OFFB); (void)o;
        viol(a < 65536 ? "null-call" : "bad-call", "call through an invalid function pointer");
      }
      fn = it->second;
    }
    if (fn->bi) {
      BR r = fn->bi(*this, s, d);
      if (r == BCont) advance(s, d);
      return;
    }
    if (fn->F->isDeclaration()) unsup("call of unmodelled external function " + demangle(fn->name) + " [" + fn->name + "] from " + demangle(f.fn->name));
    std::vector<Val> args; args.reserve(fn->decoded ? fn->nregs : ci.args.size() + 16);
    std::vector<Val> va;
    for (size_t i = 0; i < ci.args.size(); i++) { if (fn->F->isVarArg() && i >= ci.fixed) va.push_back(get(f, ci.args[i])); else args.push_back(get(f, ci.args[i])); }
    std::vector<uint64_t> bv;
    for (auto& b : ci.byval) { uint64_t src = args[b.first].c; uint64_t n = allocObj(s, b.second, OStack); copyMem(s, n, src, b.second); args[b.first] = Val(n); bv.push_back(n >> OFFB); }
    pushFrame(s, fn, std::move(args), std::move(va));
    if (!bv.empty()) top(s).allocas = bv;
  }

  // ---------------------------------------------------------- loading
  void load(const std::string& path);
  void registerBuiltins();
  void resolveBuiltin(FnInfo* f);
  std::map<std::string, Builtin> bi;
  std::vector<std::pair<std::string, Builtin>> biPrefix;

  void emit(const std::string& line) { std::string l = line + "\n"; if (outFd >= 0) { ssize_t r = write(outFd, l.data(), l.size()); (void)r; } else fputs(l.c_str(), stdout); }
  std::string replayJson(State& s) {
    newEvalEpoch();
    std::string r = "[";
    bool first = true;
    for (auto& it : s.log) {
      uint64_t v = it.v.e ? (uint64_t)evalExpr(it.v.e, s.model) : it.v.c;
      if (!first) r += ","; first = false;
      r += "[" + jsonStr(it.name) + "," + std::to_string(sx64(v, it.w)) + "]";
    }
    r += "]";
    return r;
  }
  std::string schedJson(State& s) { std::string r = "["; for (size_t i = 0; i < s.sched.size(); i++) { if (i) r += ","; r += std::to_string(s.sched[i]); } return r + "]"; }
  void finish(State& s, PathEnd& p) {
    if (p.kind == 0) {
      paths++;
      __sync_fetch_and_add(&sh->paths, 1);
      long n = sh->traces;
      if (n < maxTraces && (paths <= 2 || paths % traceEvery == 0)) {
        __sync_fetch_and_add(&sh->traces, 1);
        newEvalEpoch();
        std::string o = "[";
        for (size_t i = 0; i < s.obs.size(); i++) { if (i) o += ","; auto& v = s.obs[i]; uint64_t x = v.first.e ? (uint64_t)evalExpr(v.first.e, s.model) : v.first.c; o += std::to_string(sx64(x, v.second)); }
        o += "]";
        std::string r = replayJson(s);
        emit("{\"type\":\"trace\",\"entry\":" + jsonStr(entry) + ",\"case\":" + std::to_string(caseNo) + ",\"replay\":" + r + ",\"sched\":" + schedJson(s) + ",\"obs\":" + o + ",\"ninst\":" + std::to_string(s.ninst) + ",\"nasserts\":" + std::to_string(s.nasserts) + "}");
      }
    } else if (p.kind == 1) {
      bool kf = p.msg.find("[KF:") != std::string::npos;   // a listed finding: report once, go on
      if (kf && __sync_fetch_and_add(&sh->kf, 1) > 3) return;
      if (!kf) __sync_fetch_and_add(&sh->violations, 1);
      emit("{\"type\":\"violation\",\"entry\":" + jsonStr(entry) + ",\"case\":" + std::to_string(caseNo) + ",\"kind\":" + jsonStr(p.what) + ",\"msg\":" + jsonStr(p.msg) + ",\"replay\":" + replayJson(s) + ",\"sched\":" + schedJson(s) + ",\"where\":" + jsonStr(where(s)) + "}");
      if (sh->violations >= maxViol) sh->stop = 1;
    } else if (p.kind == 2) {
      unsupp++; unsupMsgs[p.msg]++;
      if (unsupMsgs[p.msg] == 1) emit("{\"type\":\"unsupported\",\"msg\":" + jsonStr(p.msg) + ",\"where\":" + jsonStr(where(s)) + ",\"replay\":" + replayJson(s) + "}");
    } else if (p.kind == 3) infeasible++;
    else unexplored++;
  }
  double shareGap = 0.5;
  void share() {
    if (tokenFd < 0 || work.size() < 2) return;
    double t = now();
    if (t - lastShare < shareGap) return;
    lastShare = t;
    char b;
    if (read(tokenFd, &b, 1) != 1) return;
    pid_t pid = fork();
    if (pid < 0) { ssize_t r = write(tokenWr, &b, 1); (void)r; return; }
    // both keep states of every level: alternate ones
    std::vector<State*> mine, theirs;
    for (size_t i = 0; i < work.size(); i++) (i % 2 ? mine : theirs).push_back(work[i]);
    if (pid == 0) {
      isChild = true; kids.clear(); lastShare = now();
      work.swap(theirs);
      paths = infeasible = forks = insts = asserts = assertQueries = unsupp = unexplored = switches = unknowns = 0; covers.clear(); unsupMsgs.clear();
      gSolverStats = SolverStats();
      std::fill(fnHit.begin(), fnHit.end(), 0);
    } else {
      kids.push_back(pid);
      for (auto x : theirs) delete x;
      work.swap(mine);
    }
  }
  void explore() {
    while (!work.empty()) {
      if (sh->stop || now() > deadline) { unexplored += work.size(); break; }
      State* s = work.back(); work.pop_back();
      try { run(*s); }
      catch (PathEnd& p) { finish(*s, p); }
      delete s;
      share();
    }
  }
  void summary() {
    std::string c = "["; bool first = true;
    for (auto& x : covers) { if (!first) c += ","; first = false; c += jsonStr(x); }
    c += "]";
    std::string fl = "["; first = true;
    for (auto* f : fnList) if (fnHit[f->idx] && f->F) {
      auto* sp = f->F->getSubprogram(); if (!sp || !sp->getFile()) continue;
      std::string file = sp->getFilename().str();
      if (file.find("/repo/") == std::string::npos && file.compare(0, 4, "src/") && file.compare(0, 6, "utils/")) continue;
      if (file.find("_build") != std::string::npos) continue;
      if (!first) fl += ","; first = false; fl += jsonStr(demangle(f->name) + " @ " + file);
    }
    fl += "]";
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    char buf[1200];
    snprintf(buf, sizeof buf, "{\"type\":\"summary\",\"child\":%s,\"paths\":%lu,\"infeasible\":%lu,\"forks\":%lu,\"insts\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"unsupported\":%lu,\"unexplored\":%lu,\"switches\":%lu,\"max_depth\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"guess_hits\":%lu,\"lia\":%lu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"rss_mb\":%ld,\"wall\":%.2f,\"exprs\":%lu,",
      isChild ? "true" : "false", paths, infeasible, forks, insts, asserts, assertQueries, unsupp, unexplored, switches, maxDepth, gSolverStats.queries, gSolverStats.sat, gSolverStats.unsat, gSolverStats.unknown, gSolverStats.cacheHits, gSolverStats.guessHits, gSolverStats.lia, gSolverStats.seconds, gSolverStats.maxSeconds, ru.ru_maxrss / 1024,
      std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), exprCount());
    emit(std::string(buf) + "\"entry\":" + jsonStr(entry) + ",\"case\":" + std::to_string(caseNo) + ",\"covers\":" + c + ",\"functions\":" + fl + "}");
  }
};

// ------------------------------------------------------------ builtins
#define BI(name) static BR name(Engine& E, State& s, const DInst& d)
static Val addrOK(Engine&, State&, uint64_t a) { return Val(a); }
BI(b_nop) { E.ret(s, d, Val(0)); return BCont; }
BI(b_ret1) { E.ret(s, d, Val(1)); return BCont; }
BI(b_malloc) { uint64_t n = E.carg(s, d, 0); E.ret(s, d, addrOK(E, s, E.allocObj(s, n, OHeap, 1))); return BCont; }
BI(b_hidden_malloc) { uint64_t n = E.carg(s, d, 0); E.ret(s, d, Val(E.allocObj(s, n, OGlobal, 9))); return BCont; }
BI(b_native_math) {   // (int which, double x, double y): libm on concrete values
  uint64_t w = E.carg(s, d, 0), xb = E.carg(s, d, 1), yb = E.carg(s, d, 2);
  double x, y, r = 0; memcpy(&x, &xb, 8); memcpy(&y, &yb, 8);
  switch (w) { case 0: r = log2(x); break; case 1: r = log(x); break; case 2: r = log10(x); break; case 3: r = pow(x, y); break; case 4: r = exp(x); break; case 5: r = sqrt(x); break; case 6: r = exp2(x); break; case 7: r = fmod(x, y); break; case 8: r = ldexp(x, (int)y); break; case 9: r = log1p(x); break; case 10: r = nextafter(x, y); break; case 11: r = hypot(x, y); break; }
  uint64_t rb; memcpy(&rb, &r, 8); E.ret(s, d, Val(rb)); return BCont;
}
BI(b_calloc) { uint64_t n = E.carg(s, d, 0) * E.carg(s, d, 1); uint64_t a = E.allocObj(s, n, OHeap, 1); MemObj* o = s.mem.wr(a >> OFFB); memset(o->d, 0, n); E.ret(s, d, Val(a)); return BCont; }
BI(b_realloc) {
  uint64_t p = E.carg(s, d, 0), n = E.carg(s, d, 1); uint64_t a = E.allocObj(s, n, OHeap, 1);
  if (p) { MemObj* o = E.lookup(s, p, 0, false); E.copyMem(s, a, p, std::min<uint64_t>(n, o->size)); E.freeObj(s, p, 1); }
  E.ret(s, d, Val(a)); return BCont;
}
BI(b_free) { E.freeObj(s, E.carg(s, d, 0), 1); return BCont; }
BI(b_new) { uint64_t n = E.carg(s, d, 0); E.ret(s, d, Val(E.allocObj(s, n, OHeap, 2))); return BCont; }
BI(b_newa) { uint64_t n = E.carg(s, d, 0); E.ret(s, d, Val(E.allocObj(s, n, OHeap, 3))); return BCont; }
BI(b_delete) { E.freeObj(s, E.carg(s, d, 0), 2); return BCont; }
BI(b_deletea) { E.freeObj(s, E.carg(s, d, 0), 3); return BCont; }
BI(b_memcpy) {
  uint64_t dst = E.carg(s, d, 0), src = E.carg(s, d, 1), n = E.carg(s, d, 2);
  E.copyMem(s, dst, src, n); E.ret(s, d, Val(dst)); return BCont;
}
BI(b_memset) {
  uint64_t dst = E.carg(s, d, 0), n = E.carg(s, d, 2); Val v = E.arg(s, d, 1);
  if (v.e) v = vx(mkExtract(v.e, 0, 8)); else v.c &= 255;
  if (n) {
    E.lookup(s, dst, n, true);
    if (E.raceOn(s)) E.raceAccess(s, dst >> OFFB, dst & OFFM, n, true);
    if (!v.e) { MemObj* o = s.mem.wr(dst >> OFFB); memset(o->d + (dst & OFFM), (int)v.c, n); if (o->s) for (uint64_t i = 0; i < n; i++) o->s[(dst & OFFM) + i].e = nullptr; }
    else for (uint64_t i = 0; i < n; i++) E.wrt(s, dst + i, v, 8);
  }
  E.ret(s, d, Val(dst)); return BCont;
}
BI(b_memcmp) {
  uint64_t a = E.carg(s, d, 0), b = E.carg(s, d, 1), n = E.carg(s, d, 2);
  Expr* r = nullptr; std::vector<std::pair<Val, Val>> v;
  bool conc = true;
  for (uint64_t i = 0; i < n; i++) {
    Val x = E.rd(s, a + i, 8), y = E.rd(s, b + i, 8);
    if (!x.e && !y.e) { if (conc && x.c != y.c) { E.ret(s, d, Val((uint64_t)(uint32_t)(x.c < y.c ? -1 : 1))); return BCont; } }
    else conc = false;
    v.push_back({x, y});
  }
  r = mkConst(0, 32);
  for (size_t i = v.size(); i-- > 0;) {
    Expr *x = ex(v[i].first, 8), *y = ex(v[i].second, 8);
    Expr* eq = mkBin(KEq, x, y);
    if (isC(eq) && eq->v) continue;
    r = mkIte(eq, r, mkIte(mkBin(KUlt, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  }
  E.ret(s, d, vx(r)); return BCont;
}
BI(b_memchr) {
  uint64_t a = E.carg(s, d, 0), c = E.carg(s, d, 1) & 255, n = E.carg(s, d, 2);
  for (uint64_t i = 0; i < n; i++) { Val x = E.rd(s, a + i, 8); if (x.e) unsup("memchr on symbolic bytes"); if (x.c == c) { E.ret(s, d, Val(a + i)); return BCont; } }
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_strlen) {
  uint64_t a = E.carg(s, d, 0); uint64_t n = 0;
  for (;; n++) { Val x = E.rd(s, a + n, 8); if (x.e) { if (E.forkOn(s, mkBin(KEq, x.e, mkConst(0, 8)))) break; } else if (!x.c) break; }
  E.ret(s, d, Val(n)); return BCont;
}
BI(b_strcmp) {
  uint64_t a = E.carg(s, d, 0), b = E.carg(s, d, 1);
  for (uint64_t n = 0;; n++) { Val x = E.rd(s, a + n, 8), y = E.rd(s, b + n, 8);
    if (x.e || y.e) {
      Expr *X = ex(x, 8), *Y = ex(y, 8);
      if (!E.forkOn(s, mkBin(KEq, X, Y))) { E.ret(s, d, vx(mkIte(mkBin(KUlt, X, Y), mkConst(0xffffffffu, 32), mkConst(1, 32)))); return BCont; }
      if (E.forkOn(s, mkBin(KEq, X, mkConst(0, 8)))) break;
      continue;
    }
    if (x.c != y.c) { E.ret(s, d, Val((uint64_t)(uint32_t)(x.c < y.c ? -1 : 1))); return BCont; } if (!x.c) break; }
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_abort) { viol("abort", "abort() called"); }
BI(b_terminate) { viol("terminate", "std::terminate or a pure virtual call"); }
BI(b_throw) { std::string t; uint64_t ti = 0; if (E.nargs(s, d) > 1) { ti = E.carg(s, d, 1); for (auto& g : E.gaddr) if (g.second == ti) t = demangle(g.first->getName().str()); } viol("exception", "exception thrown " + t); }
BI(b_throwfn) { auto* C = cast<CallBase>(d.I); std::string n = C->getCalledFunction() ? demangle(C->getCalledFunction()->getName().str()) : "?"; viol("exception", "exception thrown by the library: " + n); }
BI(b_assert) { std::string m = E.cstr(s, E.carg(s, d, 0)); viol("assertion", "assert(" + m + ") failed"); }
BI(b_trap) { viol("undefined-behaviour", "undefined behaviour detected by the compiler's instrumentation (overflow, bad conversion, division or shift)"); }

// harness interface
static Val newSym(Engine& E, State& s, const std::string& name, unsigned w, bool ranged, int64_t lo, int64_t hi) {
  unsigned idx = s.nsyms++;
  Expr* e = mkSym(idx, w, ranged, lo, hi);
  if (s.model.size() <= idx) s.model.resize(idx + 1, 0);
  uint64_t init = 0;
  if (ranged) init = (uint64_t)(lo <= 0 && hi >= 0 ? 0 : lo > 0 ? lo : hi) & (uint64_t)maskw(w);
  s.model[idx] = init;
  Val v; v.e = e;
  s.log.push_back({0, name, v, (uint8_t)w});
  return v;
}
BI(b_sx_sym) {   // (name, bits, lo, hi) -> i64 (sign extended)
  std::string n = E.cstr(s, E.carg(s, d, 0)); unsigned w = E.carg(s, d, 1); int64_t lo = E.carg(s, d, 2), hi = E.carg(s, d, 3);
  int64_t tl = w == 64 ? INT64_MIN : -((int64_t)1 << (w - 1)), th = w == 64 ? INT64_MAX : ((int64_t)1 << (w - 1)) - 1;
  if (lo == hi && lo != 0) { s.log.push_back({0, n, Val((uint64_t)lo), 64}); E.ret(s, d, Val((uint64_t)lo)); return BCont; }
  bool full = lo <= tl && hi >= th;
  Val v = newSym(E, s, n, w, !full, lo, hi);
  E.ret(s, d, vx(mkSExt(v.e, 64))); return BCont;
}
BI(b_sx_choose) {   // (name, n) -> int, one path per value
  std::string n = E.cstr(s, E.carg(s, d, 0)); uint64_t k = E.carg(s, d, 1);
  if (!k) unsup("empty choice");
  if (k == 1) { E.ret(s, d, Val(0)); return BCont; }
  for (uint64_t i = 1; i < k; i++) {
    State* o = E.clone(s); o->log.push_back({1, n, Val(i), 32}); E.ret(*o, d, Val(i)); E.advance(*o, d); E.push(o);
  }
  s.log.push_back({1, n, Val(0), 32}); E.ret(s, d, Val(0)); return BCont;
}
BI(b_sx_assume) {
  Val c = E.arg(s, d, 0); unsigned w = E.argW(s, d, 0);
  if (!c.e) { if (!c.c) throw PathEnd{3, "", ""}; return BCont; }
  Expr* b = mkNot(mkBin(KEq, c.e, mkConst(0, w)));
  if (isC(b)) { if (!b->v) throw PathEnd{3, "", ""}; return BCont; }
  if (!E.evalB(s, b)) { Model m; int r = E.solve(s, b, &m); if (r < 0) unsup("solver gave no answer for an assumption"); if (!r) throw PathEnd{3, "", ""}; s.model = m; }
  E.addPC(s, b);
  return BCont;
}
BI(b_sx_assert) {
  Val c = E.arg(s, d, 0); unsigned w = E.argW(s, d, 0); E.asserts++; s.nasserts++;
  if (!c.e) { if (!c.c) viol("property", E.cstr(s, E.carg(s, d, 1))); return BCont; }
  Expr* b = mkNot(mkBin(KEq, c.e, mkConst(0, w)));
  if (isC(b)) { if (!b->v) viol("property", E.cstr(s, E.carg(s, d, 1))); return BCont; }
  E.assertQueries++;
  if (!E.evalB(s, b)) viol("property", E.cstr(s, E.carg(s, d, 1)));
  Model m; Expr* nb = mkNot(b); int r = E.solve(s, nb, &m);
  if (r < 0) unsup("solver gave no answer for an assertion: " + E.cstr(s, E.carg(s, d, 1)));
  if (r == 1) { E.addPC(s, nb); s.model = m; viol("property", E.cstr(s, E.carg(s, d, 1))); }
  return BCont;
}
BI(b_sx_cover) { std::string n = E.cstr(s, E.carg(s, d, 0)); E.covers.insert(n); return BCont; }
BI(b_sx_obs) { s.obs.push_back({E.arg(s, d, 0), (uint8_t)E.argW(s, d, 0)}); return BCont; }
BI(b_sx_heap_live) { E.ret(s, d, Val((uint64_t)s.liveHeap)); return BCont; }
BI(b_sx_heap_mark) { s.heapMark = s.liveHeap; return BCont; }
BI(b_sx_check_leaks) {
  if (s.liveHeap != s.heapMark) {
    std::string m = std::to_string(s.liveHeap - s.heapMark) + " heap block(s) leaked";
    viol("leak", m);
  }
  return BCont;
}
BI(b_sx_concrete) { uint64_t v = E.carg(s, d, 0); E.ret(s, d, Val(v)); return BCont; }
BI(b_sx_is_symbolic) { E.ret(s, d, Val(E.arg(s, d, 0).e ? 1 : 0)); return BCont; }
BI(b_sx_symbolic_mode) { E.ret(s, d, Val(1)); return BCont; }
BI(b_sx_case) { E.ret(s, d, Val((uint64_t)(uint32_t)E.caseNo)); return BCont; }
BI(b_sx_tid) { E.ret(s, d, Val((uint64_t)s.cur)); return BCont; }
BI(b_sx_fail) { viol("property", E.cstr(s, E.carg(s, d, 0))); }
BI(b_sx_unsup) { unsup("model: " + E.cstr(s, E.carg(s, d, 0))); }
BI(b_sx_viol) { viol(E.cstr(s, E.carg(s, d, 0)), E.cstr(s, E.carg(s, d, 1))); }
BI(b_sx_print) { if (E.verbose) { Val v = E.arg(s, d, 1); fprintf(stderr, "  [print] %s = %s\n", E.cstr(s, E.carg(s, d, 0)).c_str(), v.e ? exprStr(v.e, 8).c_str() : std::to_string((int64_t)v.c).c_str()); } return BCont; }

// synchronisation
static unsigned mutexKind(Engine& E, State& s, uint64_t a) { Val k = E.rd(s, a + 16, 32, true); return k.e ? 0 : (unsigned)k.c & 3; }
BI(b_mutex_lock) {
  uint64_t a = E.carg(s, d, 0); E.lookup(s, a, 40, true);
  { size_t n = s.sched.size(); E.schedPoint(s); (void)n; }
  Mutex& m = s.mtx[a];
  if (m.owner == s.cur) {
    if (mutexKind(E, s, a) == 1) { m.count++; E.ret(s, d, Val(0)); return BCont; }
    if (mutexKind(E, s, a) == 2) { E.ret(s, d, Val(35)); return BCont; }
    viol("deadlock", "a thread locks a mutex it already holds");
  }
  if (m.owner >= 0 || m.readers) {
    if (s.sched.size()) s.sched.pop_back();
    s.th[s.cur].waitKind = 1; s.th[s.cur].waitMutex = a; E.block(s); return BReexec;
  }
  m.owner = s.cur; m.count = 1; if (s.th.size() > 1 || !m.vc.empty()) E.acq(s, m.vc);
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_mutex_trylock) {
  uint64_t a = E.carg(s, d, 0); E.lookup(s, a, 40, true); E.schedPoint(s);
  Mutex& m = s.mtx[a];
  if (m.owner == s.cur && mutexKind(E, s, a) == 1) { m.count++; E.ret(s, d, Val(0)); return BCont; }
  if (m.owner >= 0 || m.readers) { E.ret(s, d, Val(16)); return BCont; }
  m.owner = s.cur; m.count = 1; E.acq(s, m.vc); E.ret(s, d, Val(0)); return BCont;
}
BI(b_mutex_unlock) {
  uint64_t a = E.carg(s, d, 0); E.lookup(s, a, 40, true);
  Mutex& m = s.mtx[a];
  if (m.owner != s.cur) viol("bad-unlock", "unlock of a mutex the thread does not hold");
  if (--m.count == 0) { m.owner = -1; if (s.th.size() > 1 || s.th[s.cur].vc.size()) E.rel(s, m.vc); }
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_mutex_init) {
  uint64_t a = E.carg(s, d, 0), at = E.carg(s, d, 1); E.lookup(s, a, 40, true);
  for (int i = 0; i < 40; i += 8) E.wrt(s, a + i, Val(0), 64);
  if (at) { Val k = E.rd(s, at, 32); E.wrt(s, a + 16, k, 32); }
  s.mtx.erase(a); E.ret(s, d, Val(0)); return BCont;
}
BI(b_mutexattr_settype) { uint64_t a = E.carg(s, d, 0); E.wrt(s, a, E.arg(s, d, 1), 32); E.ret(s, d, Val(0)); return BCont; }
BI(b_mutexattr_init) { uint64_t a = E.carg(s, d, 0); E.wrt(s, a, Val(0), 32); E.ret(s, d, Val(0)); return BCont; }
BI(b_mutex_destroy) {
  uint64_t a = E.carg(s, d, 0); auto it = s.mtx.find(a);
  if (it != s.mtx.end() && it->second.owner >= 0) viol("mutex-destroyed-locked", "a locked mutex is destroyed");
  s.mtx.erase(a); E.ret(s, d, Val(0)); return BCont;
}
BI(b_rd_lock) {
  uint64_t a = E.carg(s, d, 0); E.lookup(s, a, 56, true); E.schedPoint(s); Mutex& m = s.mtx[a];
  if (m.owner == s.cur) viol("deadlock", "read lock while holding the write lock");
  if (m.owner >= 0) { if (s.sched.size()) s.sched.pop_back(); s.th[s.cur].waitKind = 4; s.th[s.cur].waitMutex = a; E.block(s); return BReexec; }
  m.readers++; E.acq(s, m.vc); E.ret(s, d, Val(0)); return BCont;
}
BI(b_wr_lock) { return b_mutex_lock(E, s, d); }
BI(b_rw_unlock) {
  uint64_t a = E.carg(s, d, 0); Mutex& m = s.mtx[a];
  if (m.owner == s.cur) { m.owner = -1; m.count = 0; E.rel(s, m.vc); }
  else if (m.readers > 0) { m.readers--; E.rel(s, m.vc); }
  else viol("bad-unlock", "unlock of a lock that is not held");
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_thread_create) {   // (pthread_t*, attr, fn, arg)
  uint64_t pt = E.carg(s, d, 0), fn = E.carg(s, d, 2), ar = E.carg(s, d, 3);
  if (s.th.size() >= 6) unsup("more than 6 threads");
  auto it = E.fnById.find(fn >> OFFB); if (it == E.fnById.end()) viol("bad-call", "thread entry");
  int id = s.th.size();
  s.th.emplace_back(); Thread& t = s.th.back(); E.initThread(t);
  if (s.th[s.cur].vc.empty()) E.initThread(s.th[s.cur]);
  t.vc = s.th[s.cur].vc; t.vc[id] = 1; s.th[s.cur].vc[s.cur]++;
  int me = s.cur; s.cur = id; E.pushFrame(s, it->second, {Val(ar)}); s.cur = me;
  E.wrt(s, pt, Val((uint64_t)id), 64);
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_thread_join) {
  uint64_t id = E.carg(s, d, 0), rp = E.carg(s, d, 1);
  if (id >= s.th.size() || id == 0) viol("bad-join", "join of an unknown thread");
  if (!s.th[id].done) { s.th[s.cur].waitKind = 2; s.th[s.cur].waitArg = id; E.block(s); return BReexec; }
  s.th[s.cur].granted = false;
  Engine::join(s.th[s.cur].vc, s.th[id].vc); s.th[id].joined = true;
  if (rp) E.wrt(s, rp, Val(s.th[id].retval), 64);
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_thread_self) { E.ret(s, d, Val((uint64_t)s.cur + 1)); return BCont; }
BI(b_thread_detach) { E.ret(s, d, Val(0)); return BCont; }
BI(b_yield) { E.schedPoint(s); E.ret(s, d, Val(0)); return BCont; }
BI(b_futex_wait) {   // (uint32_t* addr, uint32_t val): waits while *addr == val
  uint64_t a = E.carg(s, d, 0), v = E.carg(s, d, 1); 
  Val c = E.rd(s, a, 32, true); E.atomicPoint(s, a, true, false);
  if (c.e || (uint32_t)c.c != (uint32_t)v) { s.th[s.cur].granted = false; E.ret(s, d, Val(0)); return BCont; }
  s.th[s.cur].waitKind = 3; s.th[s.cur].waitMutex = a; E.block(s); return BReexec;
}
BI(b_futex_wake) {
  uint64_t a = E.carg(s, d, 0); E.atomicPoint(s, a, true, true);
  for (auto& t : s.th) if (t.waitKind == 3 && t.waitMutex == a) t.waitKind = 0;
  E.ret(s, d, Val(0)); return BCont;
}
BI(b_once) {   // pthread_once(int* flag, void (*fn)())
  uint64_t fl = E.carg(s, d, 0), fn = E.carg(s, d, 1);
  Val v = E.rd(s, fl, 32, true); E.atomicPoint(s, fl, true, true);
  E.ret(s, d, Val(0));
  if (!v.e && v.c) return BCont;
  E.wrt(s, fl, Val(2), 32, true);
  E.callFrom(s, d, fn, {});
  return BPushed;
}
BI(b_guard_acquire) { uint64_t a = E.carg(s, d, 0); Val v = E.rd(s, a, 8, true); E.atomicPoint(s, a, true, false); E.ret(s, d, Val(!v.e && v.c ? 0 : 1)); return BCont; }
BI(b_guard_release) { uint64_t a = E.carg(s, d, 0); E.wrt(s, a, Val(1), 8, true); E.atomicPoint(s, a, false, true); return BCont; }
BI(b_tls_addr) {
  uint64_t a = E.carg(s, d, 0); uint64_t id = a >> OFFB;
  if (s.cur == 0) { E.ret(s, d, Val(a)); return BCont; }
  auto& m = s.th[s.cur].tls; auto it = m.find(id);
  if (it == m.end()) {
    GlobalVariable* gv = E.tlsById[id]; uint64_t sz = E.DL->getTypeAllocSize(gv->getValueType()).getFixedValue();
    uint64_t n = E.allocObj(s, sz, OTls); if (gv->hasInitializer()) E.initMem(s.mem.wr(n >> OFFB), 0, gv->getInitializer());
    it = m.emplace(id, n).first;
  }
  E.ret(s, d, Val(it->second + (a & OFFM))); return BCont;
}

// intrinsics
static unsigned rw(const DInst& d) { return d.w; }
BI(b_ovf) {
  auto* C = cast<CallBase>(d.I); unsigned w = E.scalarW(C->getArgOperand(0)->getType());
  Val a = E.arg(s, d, 0), b = E.arg(s, d, 1);
  Intrinsic::ID id = C->getCalledFunction()->getIntrinsicID();
  bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
  bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow;
  bool sub = id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow;
  Expr *x = ex(a, w), *y = ex(b, w); Expr *r, *o;
  r = mul ? mkBin(KMul, x, y) : sub ? mkSub(x, y) : mkBin(KAdd, x, y);
  if (mul && sg && !isC(x) && isC(y) && y->v && w <= 64) {
    // by a constant: compare with the largest and smallest factor
    i128 c = sx128(y->v, w), tl = -((i128)1 << (w - 1)), th = ((i128)1 << (w - 1)) - 1;
    i128 lo = c > 0 ? tl / c : c == -1 ? -th : th / c, hi = c > 0 ? th / c : c == -1 ? th : tl / c;
    if (x->lo >= lo && x->hi <= hi) o = mkConst(0, 1);
    else o = mkNot(mkBin(KAnd, mkBin(KSle, mkConst((u128)lo, w), x), mkBin(KSle, x, mkConst((u128)hi, w))));
  } else if (isC(x) && isC(y) || mul) {
    unsigned W = std::min(128u, mul ? 2 * w : w + 1);
    Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W);
    Expr* R = mul ? mkBin(KMul, X, Y) : sub ? mkSub(X, Y) : mkBin(KAdd, X, Y);
    Expr* B = sg ? mkSExt(r, W) : mkZExt(r, W);
    o = mkNot(mkBin(KEq, R, B));
  } else if (!sg) {
    o = sub ? mkBin(KUlt, x, y) : mkBin(KUlt, r, x);
  } else {
    // interval shortcut, otherwise the sign rule
    i128 l = sub ? (i128)x->lo - y->hi : (i128)x->lo + y->lo, h = sub ? (i128)x->hi - y->lo : (i128)x->hi + y->hi;
    i128 tl = -((i128)1 << (w - 1)), th = ((i128)1 << (w - 1)) - 1;
    if (w <= 64 && l >= tl && h <= th) o = mkConst(0, 1);
    else if (isC(y) && !sub && w <= 64) {
      i128 c = sx128(y->v, w);
      o = c >= 0 ? mkBin(KSlt, mkConst((u128)(th - c), w), x) : mkBin(KSlt, x, mkConst((u128)(tl - c), w));
    } else {
      Expr *z = mkConst(0, w), *nx = mkBin(KSlt, x, z), *ny = mkBin(KSlt, y, z), *nr = mkBin(KSlt, r, z);
      Expr* same = mkBin(KEq, nx, ny); if (sub) same = mkNot(same);
      o = mkBin(KAnd, same, mkNot(mkBin(KEq, nx, nr)));
    }
  }
  Frame& f = E.top(s); f.r[d.dst] = vx(r); f.r[d.dst + 1] = vx(o);
  return BCont;
}
BI(b_minmax) {
  auto* C = cast<CallBase>(d.I); unsigned w = rw(d); if (!w) unsup("vector min/max"); Expr *x = ex(E.arg(s, d, 0), w), *y = ex(E.arg(s, d, 1), w);
  Expr* c;
  switch (C->getCalledFunction()->getIntrinsicID()) {
    case Intrinsic::smax: c = mkBin(KSlt, y, x); break; case Intrinsic::smin: c = mkBin(KSlt, x, y); break;
    case Intrinsic::umax: c = mkBin(KUlt, y, x); break; default: c = mkBin(KUlt, x, y); break;
  }
  E.ret(s, d, vx(mkIte(c, x, y))); return BCont;
}
BI(b_abs) { unsigned w = rw(d); Expr* x = ex(E.arg(s, d, 0), w); E.ret(s, d, vx(mkIte(mkBin(KSlt, x, mkConst(0, w)), mkSub(mkConst(0, w), x), x))); return BCont; }
BI(b_fabs) { unsigned w = rw(d); Expr* x = ex(E.arg(s, d, 0), w); E.ret(s, d, vx(mkBin(KAnd, x, mkConst(maskw(w - 1), w)))); return BCont; }
static BR rint_(Engine& E, State& s, const DInst& d, int m) { unsigned w = rw(d); E.ret(s, d, vx(mkF1(KFRint, ex(E.arg(s, d, 0), w), w, m))); return BCont; }
BI(b_nearbyint) { return rint_(E, s, d, 0); }
BI(b_floor) { return rint_(E, s, d, 1); }
BI(b_ceil) { return rint_(E, s, d, 2); }
BI(b_trunc) { return rint_(E, s, d, 3); }
BI(b_round) { return rint_(E, s, d, 4); }
BI(b_sqrt) { unsigned w = rw(d); E.ret(s, d, vx(mkF1(KFSqrt, ex(E.arg(s, d, 0), w), w))); return BCont; }
BI(b_fma) { unsigned w = rw(d); E.ret(s, d, vx(mkBin(KFAdd, mkBin(KFMul, ex(E.arg(s, d, 0), w), ex(E.arg(s, d, 1), w)), ex(E.arg(s, d, 2), w)))); return BCont; }
static BR fmm(Engine& E, State& s, const DInst& d, bool mx) {
  unsigned w = rw(d); Expr *x = ex(E.arg(s, d, 0), w), *y = ex(E.arg(s, d, 1), w);
  Expr* c = mx ? mkBin(KFOlt, y, x) : mkBin(KFOlt, x, y);
  E.ret(s, d, vx(mkIte(mkBin(KFUno, x, x), y, mkIte(mkBin(KFUno, y, y), x, mkIte(c, x, y))))); return BCont;
}
BI(b_fmax) { return fmm(E, s, d, true); }
BI(b_fmin) { return fmm(E, s, d, false); }
BI(b_copysign) { unsigned w = rw(d); Expr *x = ex(E.arg(s, d, 0), w), *y = ex(E.arg(s, d, 1), w); E.ret(s, d, vx(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); return BCont; }
BI(b_isfpclass) {
  unsigned w = E.argW(s, d, 0); Expr* x = ex(E.arg(s, d, 0), w); uint64_t m = E.carg(s, d, 1);
  Expr* r = mkConst(0, 1); unsigned fr = w == 64 ? 52 : 23, eb = w - 1 - fr;
  Expr *sg = mkExtract(x, w - 1, 1), *em = mkExtract(x, fr, eb), *ma = mkExtract(x, 0, fr);
  Expr *e1 = mkBin(KEq, em, mkConst(maskw(eb), eb)), *e0 = mkBin(KEq, em, mkConst(0, eb)), *m0 = mkBin(KEq, ma, mkConst(0, fr));
  auto add = [&](unsigned bit, Expr* c) { if (m & bit) r = mkBin(KOr, r, c); };
  Expr *nan = mkBin(KAnd, e1, mkNot(m0)), *inf = mkBin(KAnd, e1, m0), *neg = sg, *pos = mkNot(sg), *zero = mkBin(KAnd, e0, m0), *sub = mkBin(KAnd, e0, mkNot(m0)), *nor = mkBin(KAnd, mkNot(e0), mkNot(e1));
  if (m & 3) r = mkBin(KOr, r, nan);
  add(4, mkBin(KAnd, inf, neg)); add(8, mkBin(KAnd, nor, neg)); add(16, mkBin(KAnd, sub, neg)); add(32, mkBin(KAnd, zero, neg));
  add(64, mkBin(KAnd, zero, pos)); add(128, mkBin(KAnd, sub, pos)); add(256, mkBin(KAnd, nor, pos)); add(512, mkBin(KAnd, inf, pos));
  E.ret(s, d, vx(r)); return BCont;
}
BI(b_identity) { E.ret(s, d, E.arg(s, d, 0)); return BCont; }
BI(b_is_constant) { E.ret(s, d, Val(E.arg(s, d, 0).e ? 0 : 1)); return BCont; }
BI(b_objectsize) { E.ret(s, d, Val(~0ull)); return BCont; }
BI(b_ctbits) {
  auto* C = cast<CallBase>(d.I); unsigned w = rw(d); Val a = E.arg(s, d, 0);
  Intrinsic::ID id = C->getCalledFunction()->getIntrinsicID();
  if (a.e) { // build expression
    Expr* x = a.e; Expr* r;
    if (id == Intrinsic::ctpop) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(x, i, 1), w)); }
    else { r = mkConst(w, w); for (unsigned j = 0; j < w; j++) { unsigned i = id == Intrinsic::cttz ? w - 1 - j : j; r = mkIte(mkExtract(x, i, 1), mkConst(id == Intrinsic::cttz ? i : w - 1 - i, w), r); } }
    E.ret(s, d, vx(r)); return BCont;
  }
  uint64_t x = a.c, r = 0;
  if (id == Intrinsic::ctpop) r = __builtin_popcountll(x);
  else if (id == Intrinsic::ctlz) { r = w; for (unsigned i = 0; i < w; i++) if (x >> (w - 1 - i) & 1) { r = i; break; } }
  else { r = w; for (unsigned i = 0; i < w; i++) if (x >> i & 1) { r = i; break; } }
  E.ret(s, d, Val(r)); return BCont;
}
BI(b_bswap) { unsigned w = rw(d); Expr* x = ex(E.arg(s, d, 0), w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } E.ret(s, d, vx(r)); return BCont; }
BI(b_fsh) {
  auto* C = cast<CallBase>(d.I); unsigned w = rw(d); bool left = C->getCalledFunction()->getIntrinsicID() == Intrinsic::fshl;
  uint64_t n = E.carg(s, d, 2) % w; Expr *x = ex(E.arg(s, d, 0), w), *y = ex(E.arg(s, d, 1), w);
  Expr* r;
  if (n == 0) r = left ? x : y;
  else if (left) r = mkConcat(mkExtract(x, 0, w - n), mkExtract(y, w - n, n));
  else r = mkConcat(mkExtract(x, 0, n), mkExtract(y, n, w - n));
  E.ret(s, d, vx(r)); return BCont;
}
BI(b_sat) {
  auto* C = cast<CallBase>(d.I); unsigned w = rw(d); Expr *x = ex(E.arg(s, d, 0), w), *y = ex(E.arg(s, d, 1), w);
  switch (C->getCalledFunction()->getIntrinsicID()) {
    case Intrinsic::usub_sat: E.ret(s, d, vx(mkIte(mkBin(KUlt, x, y), mkConst(0, w), mkSub(x, y)))); return BCont;
    case Intrinsic::uadd_sat: { Expr* r = mkBin(KAdd, x, y); E.ret(s, d, vx(mkIte(mkBin(KUlt, r, x), mkConst(maskw(w), w), r))); return BCont; }
    default: unsup("saturating intrinsic");
  }
}
BI(b_fptosi_sat) {
  auto* C = cast<CallBase>(d.I); bool sg = C->getCalledFunction()->getIntrinsicID() == Intrinsic::fptosi_sat;
  unsigned w = rw(d), aw = E.argW(s, d, 0); Expr* x = ex(E.arg(s, d, 0), aw); if (aw != 64) unsup("fptosi.sat float");
  auto dc = [](double v) { uint64_t b; memcpy(&b, &v, 8); return mkConst(b, 64); };
  Expr* conv = mkF1(sg ? KFPToSI : KFPToUI, x, w);
  Expr* mx = mkConst(sg ? maskw(w - 1) : maskw(w), w); Expr* mn = mkConst(sg ? (u128)1 << (w - 1) : 0, w);
  Expr* r = mkIte(mkBin(KFOle, dc(std::ldexp(1.0, sg ? w - 1 : w)), x), mx, mkIte(mkBin(KFOlt, x, dc(sg ? -std::ldexp(1.0, w - 1) : 0.0)), mn, conv));
  r = mkIte(mkBin(KFUno, x, x), mkConst(0, w), r);
  E.ret(s, d, vx(r)); return BCont;
}
BI(b_stacksave) { E.ret(s, d, Val(0)); return BCont; }
BI(b_va_start) { E.wrt(s, E.carg(s, d, 0), Val(0), 32); E.wrt(s, E.carg(s, d, 0) + 4, Val(48), 32);
  // lay the variadic leaves out in an overflow area (gp_offset past the register area)
  Frame& f = E.top(s); uint64_t n = f.va.size() * 8; uint64_t a = E.allocObj(s, n + 8, OStack); f.allocas.push_back(a >> OFFB);
  for (size_t i = 0; i < f.va.size(); i++) E.wrt(s, a + i * 8, f.va[i], 64);
  uint64_t l = E.carg(s, d, 0); E.wrt(s, l, Val(48), 32); E.wrt(s, l + 4, Val(176), 32); E.wrt(s, l + 8, Val(a), 64); E.wrt(s, l + 16, Val(a), 64); return BCont; }
BI(b_dyncast) {
  // __dynamic_cast(ptr, src_type, dst_type, hint): walk the single/multiple inheritance typeinfo graph.
  uint64_t p = E.carg(s, d, 0), dstT = E.carg(s, d, 2);
  if (!p) { E.ret(s, d, Val(0)); return BCont; }
  uint64_t vt = E.rd(s, p, 64).c; int64_t topoff = (int64_t)E.rd(s, vt - 16, 64).c; uint64_t ti = E.rd(s, vt - 8, 64).c;
  uint64_t obj = p + topoff;
  std::function<int64_t(uint64_t, int64_t, int)> find = [&](uint64_t t, int64_t off, int depth) -> int64_t {
    if (t == dstT) return off;
    if (depth > 8) return INT64_MIN;
    uint64_t meta = E.rd(s, t, 64).c - 16;
    std::string mn; for (auto& g : E.gaddr) if (g.second == meta) mn = g.first->getName().str();
    if (mn.find("__class_type_info") != std::string::npos && mn.find("si_") == std::string::npos && mn.find("vmi_") == std::string::npos) return INT64_MIN;
    if (mn.find("__si_class_type_info") != std::string::npos) return find(E.rd(s, t + 16, 64).c, off, depth + 1);
    if (mn.find("__vmi_class_type_info") != std::string::npos) {
      unsigned n = (unsigned)E.rd(s, t + 20, 32).c;
      for (unsigned i = 0; i < n; i++) { uint64_t b = E.rd(s, t + 24 + i * 16, 64).c; int64_t of = (int64_t)E.rd(s, t + 32 + i * 16, 64).c; if (of & 1) unsup("virtual base"); int64_t r = find(b, off + (of >> 8), depth + 1); if (r != INT64_MIN) return r; }
    }
    return INT64_MIN;
  };
  int64_t r = find(ti, 0, 0);
  E.ret(s, d, Val(r == INT64_MIN ? 0 : obj + r)); return BCont;
}

#include <functional>
void Engine::registerBuiltins() {
  auto R = [&](const char* n, Builtin b) { bi[n] = b; };
  R("malloc", b_malloc); R("calloc", b_calloc); R("realloc", b_realloc); R("free", b_free);
  for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) R(n, b_new);
  for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) R(n, b_newa);
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) R(n, b_delete);
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}) R(n, b_deletea);
  for (auto n : {"memcpy", "memmove", "__memcpy_chk"}) R(n, b_memcpy);
  R("memset", b_memset); R("memcmp", b_memcmp); R("bcmp", b_memcmp); R("memchr", b_memchr); R("strlen", b_strlen); R("strcmp", b_strcmp);
  biPrefix.push_back({"llvm.memcpy.", b_memcpy}); biPrefix.push_back({"llvm.memmove.", b_memcpy}); biPrefix.push_back({"llvm.memset.", b_memset});
  for (auto n : {"abort", "exit", "_exit", "raise", "__stack_chk_fail"}) R(n, b_abort);
  for (auto n : {"_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "__cxa_call_unexpected"}) R(n, b_terminate);
  for (auto n : {"__cxa_throw", "__cxa_rethrow", "_Unwind_Resume"}) R(n, b_throw);
  biPrefix.push_back({"_ZSt17__throw_", b_throwfn}); biPrefix.push_back({"_ZSt16__throw_", b_throwfn});
  for (int i = 10; i < 40; i++) { static char nm[64][24]; snprintf(nm[i], 24, "_ZSt%d__throw_", i); biPrefix.push_back({nm[i], b_throwfn}); }
  R("__assert_fail", b_assert); R("__assert", b_assert); R("llvm.ubsantrap", b_trap); R("llvm.trap", b_trap); R("llvm.debugtrap", b_trap);
  R("sx_sym_", b_sx_sym); R("sx_choose", b_sx_choose); R("sx_assume_", b_sx_assume); R("sx_assert_", b_sx_assert); R("sx_cover", b_sx_cover); R("sx_obs_", b_sx_obs);
  R("sx_heap_live", b_sx_heap_live); R("sx_heap_mark", b_sx_heap_mark); R("sx_check_leaks", b_sx_check_leaks); R("sx_concrete", b_sx_concrete); R("sx_is_symbolic", b_sx_is_symbolic);
  R("sx_symbolic_mode", b_sx_symbolic_mode); R("sx_case", b_sx_case); R("sx_tid", b_sx_tid); R("sx_fail", b_sx_fail); R("sx_unsupported", b_sx_unsup); R("sx_violation", b_sx_viol); R("sx_print", b_sx_print);
  R("pthread_mutex_lock", b_mutex_lock); R("pthread_mutex_trylock", b_mutex_trylock); R("pthread_mutex_unlock", b_mutex_unlock); R("pthread_mutex_init", b_mutex_init); R("pthread_mutex_destroy", b_mutex_destroy);
  R("pthread_mutexattr_init", b_mutexattr_init); R("pthread_mutexattr_settype", b_mutexattr_settype); R("pthread_mutexattr_destroy", b_nop);
  R("pthread_rwlock_rdlock", b_rd_lock); R("pthread_rwlock_wrlock", b_wr_lock); R("pthread_rwlock_unlock", b_rw_unlock); R("pthread_rwlock_init", b_nop); R("pthread_rwlock_destroy", b_mutex_destroy);
  R("pthread_create", b_thread_create); R("pthread_join", b_thread_join); R("pthread_self", b_thread_self); R("pthread_detach", b_thread_detach); R("sched_yield", b_yield); R("sx_hidden_malloc", b_hidden_malloc); R("sx_native_math", b_native_math); R("sx_yield", b_yield);
  R("sx_futex_wait", b_futex_wait); R("sx_futex_wake", b_futex_wake); R("pthread_once", b_once);
  R("__cxa_guard_acquire", b_guard_acquire); R("__cxa_guard_release", b_guard_release); R("__cxa_atexit", b_nop); R("__cxa_thread_atexit", b_nop); R("atexit", b_nop);
  R("__dynamic_cast", b_dyncast);
  biPrefix.push_back({"llvm.threadlocal.address", b_tls_addr});
  for (auto n : {"llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow", "llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow"}) biPrefix.push_back({n, b_ovf});
  for (auto n : {"llvm.smax.", "llvm.smin.", "llvm.umax.", "llvm.umin."}) biPrefix.push_back({n, b_minmax});
  biPrefix.push_back({"llvm.abs.", b_abs}); biPrefix.push_back({"llvm.fabs.", b_fabs}); biPrefix.push_back({"llvm.floor.", b_floor}); biPrefix.push_back({"llvm.ceil.", b_ceil}); biPrefix.push_back({"llvm.trunc.", b_trunc}); biPrefix.push_back({"llvm.round.", b_round}); biPrefix.push_back({"llvm.rint.", b_nearbyint}); biPrefix.push_back({"llvm.nearbyint.", b_nearbyint});
  biPrefix.push_back({"llvm.sqrt.", b_sqrt}); biPrefix.push_back({"llvm.fmuladd.", b_fma}); biPrefix.push_back({"llvm.maxnum.", b_fmax}); biPrefix.push_back({"llvm.minnum.", b_fmin}); biPrefix.push_back({"llvm.copysign.", b_copysign}); biPrefix.push_back({"llvm.is.fpclass.", b_isfpclass});
  R("floor", b_floor); R("ceil", b_ceil); R("trunc", b_trunc); R("round", b_round); R("sqrt", b_sqrt); R("fabs", b_fabs); R("fmax", b_fmax); R("fmin", b_fmin);
  for (auto n : {"llvm.lifetime.", "llvm.assume", "llvm.dbg.", "llvm.experimental.noalias", "llvm.invariant.", "llvm.prefetch", "llvm.donothing", "llvm.var.annotation", "llvm.va_end", "llvm.stackrestore"}) biPrefix.push_back({n, b_nop});
  for (auto n : {"llvm.expect.", "llvm.launder.", "llvm.strip.", "llvm.ptr.annotation", "llvm.ssa.copy", "llvm.expect.with"}) biPrefix.push_back({n, b_identity});
  biPrefix.push_back({"llvm.is.constant", b_is_constant}); biPrefix.push_back({"llvm.objectsize", b_objectsize}); biPrefix.push_back({"llvm.stacksave", b_stacksave}); biPrefix.push_back({"llvm.va_start", b_va_start});
  for (auto n : {"llvm.ctpop.", "llvm.ctlz.", "llvm.cttz."}) biPrefix.push_back({n, b_ctbits});
  biPrefix.push_back({"llvm.bswap.", b_bswap}); biPrefix.push_back({"llvm.fshl.", b_fsh}); biPrefix.push_back({"llvm.fshr.", b_fsh}); biPrefix.push_back({"llvm.usub.sat.", b_sat}); biPrefix.push_back({"llvm.uadd.sat.", b_sat}); biPrefix.push_back({"llvm.fptosi.sat", b_fptosi_sat}); biPrefix.push_back({"llvm.fptoui.sat", b_fptosi_sat});
  R("llvm.eh.typeid.for", b_nop); R("llvm.readcyclecounter", b_nop); R("llvm.x86.rdtsc", b_nop);
}
void Engine::resolveBuiltin(FnInfo* f) {
  auto it = bi.find(f->name);
  if (it != bi.end()) { f->bi = it->second; return; }
  for (auto& p : biPrefix) if (f->name.compare(0, p.first.size(), p.first) == 0) { f->bi = p.second; return; }
}

void Engine::load(const std::string& path) {
  SMDiagnostic err;
  M = parseIRFile(path, err, ctx);
  if (!M) { err.print("symx", errs()); exit(3); }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "function(scalarizer<load-store>)")) { consumeError(std::move(e)); MPM = ModulePassManager(); if (auto e2 = PB.parsePassPipeline(MPM, "function(scalarizer)")) { errs() << "no scalarizer\n"; exit(3); } }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  registerBuiltins();
}

int main(int argc, char** argv) {
  Engine E; E.t0 = std::chrono::steady_clock::now();
  std::string bc; double timeout = 0; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") E.entry = nx(); else if (a == "--out") E.outPath = nx(); else if (a == "--case") E.caseNo = atoi(nx().c_str());
    else if (a == "--max-inst") E.maxInst = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") E.maxViol = atoi(nx().c_str());
    else if (a == "--timeout") timeout = atof(nx().c_str()); else if (a == "--preempt") E.maxPreempt = atoi(nx().c_str());
    else if (a == "--tokens") { std::string t = nx(); sscanf(t.c_str(), "%d,%d", &E.tokenFd, &E.tokenWr); }
    else if (a == "--trace-every") E.traceEvery = atoi(nx().c_str()); else if (a == "--max-traces") E.maxTraces = atoi(nx().c_str());
    else if (a == "--solver-timeout") gSolverTimeoutMs = atoi(nx().c_str()); else if (a == "--dump") gDumpDir = nx();
    else if (a == "--max-fork") E.maxFork = atoi(nx().c_str());
    else if (a == "-v") E.verbose = true; else if (a == "--list-undef") list = true; else bc = a;
  }
  exprInit();
  if (timeout > 0) E.deadline = E.now() + timeout;
  E.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!E.outPath.empty()) E.outFd = open(E.outPath.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (E.tokenFd >= 0) fcntl(E.tokenFd, F_SETFL, O_NONBLOCK);
  E.load(bc);
  State* s0 = new State();
  s0->th.emplace_back(); E.initThread(s0->th[0]); s0->th[0].vc[0] = 1;
  // objects for functions and globals
  for (auto& F : *E.M) {
    FnInfo* f = new FnInfo(); f->F = &F; f->name = F.getName().str(); f->id = s0->mem.next++; f->idx = E.fnList.size();
    s0->mem.set(f->id, new MemObj(1, OFunc));
    E.fns[&F] = f; E.fnById[f->id] = f; E.fnList.push_back(f); E.gaddr[&F] = f->id << OFFB;
    E.resolveBuiltin(f);
    if (list && F.isDeclaration() && !f->bi && !F.use_empty()) printf("%s\t%s\n", F.getName().str().c_str(), demangle(F.getName().str()).c_str());
  }
  for (auto& G : E.M->globals()) {
    uint64_t id = s0->mem.next++;
    uint64_t sz = G.getValueType()->isSized() ? E.DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
    bool ext = !G.hasInitializer();
    if (ext && sz < 256) sz = 256;
    MemObj* o = new MemObj(sz, G.isThreadLocal() ? OTls : G.isConstant() && !ext ? OConst : OGlobal); memset(o->d, 0, sz);
    s0->mem.set(id, o); E.gaddr[&G] = id << OFFB;
    if (G.isThreadLocal()) E.tlsById[id] = &G;
    if (list && ext && !G.use_empty()) printf("DATA %s\t%s\n", G.getName().str().c_str(), demangle(G.getName().str()).c_str());
  }
  if (list) return 0;
  for (auto& G : E.M->globals()) if (G.hasInitializer()) { MemObj* o = s0->mem.wr(E.gaddr[&G] >> OFFB); try { E.initMem(o, 0, G.getInitializer()); } catch (PathEnd& p) { fprintf(stderr, "init of %s: %s\n", G.getName().str().c_str(), p.msg.c_str()); } }
  E.fnHit.assign(E.fnList.size(), 0);
  auto runFn = [&](State& s, FnInfo* f) {
    try { E.pushFrame(s, f, {}); E.run(s); } catch (PathEnd& p) { if (p.kind == 0) { s.th[0].done = false; s.th[0].st.clear(); return true; } std::string w = E.where(s); E.emit("{\"type\":\"initfail\",\"msg\":" + jsonStr(f->name + ": " + p.what + " " + p.msg + " at " + w) + "}"); fprintf(stderr, "symx: global constructor %s failed: %s %s at %s\n", f->name.c_str(), p.what.c_str(), p.msg.c_str(), w.c_str()); return false; }
    return true;
  };
  if (auto* gc = E.M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, FnInfo*>> v;
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (!F) continue; uint64_t pr = cast<ConstantInt>(cs->getOperand(0))->getZExtValue(); std::string n = F->getName().str(); if (n.find(".pb.cc") != std::string::npos) continue;
      auto* sp = F->getSubprogram(); if (sp && sp->getFilename().ends_with(".pb.cc")) continue;
      v.push_back({pr, E.fns[F]}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) if (!runFn(*s0, p.second)) return 4;
  }
  Function* F = E.M->getFunction(E.entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", E.entry.c_str()); return 3; }
  s0->ninst = 0; E.insts = 0; E.fnHit.assign(E.fnList.size(), 0); s0->heapMark = s0->liveHeap;
  for (auto* f : E.fnList) f->hits = 0;
  E.pushFrame(*s0, E.fns[F], {});
  E.work.push_back(s0);
  E.explore();
  E.summary();
  // Every engine process gives its job token back as soon as its own work is done.
  if (E.tokenWr >= 0) { char b = 't'; ssize_t r = write(E.tokenWr, &b, 1); (void)r; }
  int bad = 0;
  for (auto k : E.kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = 1; E.emit("{\"type\":\"crash\",\"msg\":\"engine child ended with status " + std::to_string(st) + "\"}"); } }
  if (E.verbose) for (auto& u : E.unsupMsgs) fprintf(stderr, "UNSUPPORTED x%lu: %s\n", u.second, u.first.c_str());
  fflush(stdout);
  _exit(bad ? 5 : 0);
}
