// Hash-consed bit-vector expression DAG with constant folding, linear normal
// form for sums, cheap interval reasoning and lazy translation to Z3.
// Floating point operations work on the IEEE bit patterns of their operands.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum K : uint8_t {
  KConst, KSym,
  KAdd, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KConcat, KExtract, KZExt, KSExt,
  KEq, KUlt, KUle, KSlt, KSle, KIte,
  KFAdd, KFSub, KFMul, KFDiv, KFSqrt, KFRint, KFExt, KFTrunc,
  KSIToFP, KUIToFP, KFPToSI, KFPToUI,
  KFOeq, KFOlt, KFOle, KFUno
};

struct Expr {
  K k;
  uint8_t w;          // width in bits (1..128)
  bool ranged;        // signed range lo..hi known to be tighter than the type
  uint32_t id;
  uint32_t size;      // number of nodes, saturating (tree size)
  Expr *a, *b, *c;
  u128 v;             // constant value / symbol index / extract low bit / rint mode
  uint64_t ss[4];     // symbols used (modulo 256)
  int64_t lo, hi;     // signed range (w <= 64)
  // memos
  uint64_t ev_epoch;
  u128 ev;
  Z3_ast zbv, zbool, zfp;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}
static inline i128 sx128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  return (i128)(v << (128 - w)) >> (128 - w);
}

// Assignment of values to symbols, by symbol index.
typedef std::vector<uint64_t> Model;

Expr* mkConst(u128 v, unsigned w);
Expr* mkSym(unsigned idx, unsigned w, bool ranged = false, int64_t lo = 0, int64_t hi = 0);
Expr* mkBin(K k, Expr* a, Expr* b);      // arithmetic, logic and comparisons
Expr* mkSub(Expr* a, Expr* b);
Expr* mkNot(Expr* a);                    // bitwise not
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkF1(K k, Expr* a, unsigned w, unsigned mode = 0);  // unary FP / conversions
static inline bool isC(const Expr* e) { return e->k == KConst; }

u128 evalExpr(Expr* e, const Model& m);   // under a model
void newEvalEpoch();                      // call after changing the model
void exprInit();
uint64_t exprCount();
std::string exprStr(Expr* e, int depth = 6);

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, guessHits = 0, lia = 0;
  double seconds = 0;
  double maxSeconds = 0;
};
extern SolverStats gSolverStats;
extern unsigned gSolverTimeoutMs;

// 1 sat (model filled for the symbols of the slice, on top of `base`), 0 unsat, -1 unknown
int solveQuery(const std::vector<Expr*>& pc, Expr* q, const Model& base, Model* out);
// SMT-LIB2 dump of (pc and q)
std::string dumpQuery(const std::vector<Expr*>& pc, Expr* q);
extern std::string gDumpDir;
