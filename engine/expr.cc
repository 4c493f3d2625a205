#include "expr.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unordered_set>

// ---------------------------------------------------------------- hash consing
struct KeyHash {
  size_t operator()(const Expr* e) const {
    uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0);
    mix((uint64_t)e->v); mix((uint64_t)(e->v >> 64));
    if (e->k == KSym && e->ranged) { mix(e->lo); mix(e->hi); }
    return h;
  }
};
struct KeyEq {
  bool operator()(const Expr* x, const Expr* y) const {
    if (x->k != y->k || x->w != y->w || x->a != y->a || x->b != y->b || x->c != y->c || x->v != y->v) return false;
    if (x->k == KSym) return x->ranged == y->ranged && (!x->ranged || (x->lo == y->lo && x->hi == y->hi));
    return true;
  }
};
static std::unordered_set<Expr*, KeyHash, KeyEq> gTab;
static uint32_t gNext = 1;
uint64_t exprCount() { return gNext; }

static void typeRange(unsigned w, int64_t& lo, int64_t& hi) {
  if (w >= 64) { lo = INT64_MIN; hi = INT64_MAX; return; }
  lo = -((int64_t)1 << (w - 1)); hi = ((int64_t)1 << (w - 1)) - 1;
}
static void computeRange(Expr* e) {
  if (e->w > 64) { e->lo = INT64_MIN; e->hi = INT64_MAX; e->ranged = false; return; }
  int64_t tl, th; typeRange(e->w, tl, th);
  i128 lo = tl, hi = th;
  switch (e->k) {
    case KConst: lo = hi = sx64((uint64_t)e->v, e->w); break;
    case KSym: if (e->ranged) return; break;
    case KAdd: { i128 l = (i128)e->a->lo + e->b->lo, h = (i128)e->a->hi + e->b->hi; if (l >= tl && h <= th) { lo = l; hi = h; } break; }
    case KMul: if (isC(e->b)) { i128 c = sx64((uint64_t)e->b->v, e->w); i128 l = c * e->a->lo, h = c * e->a->hi; if (l > h) std::swap(l, h); if (l >= tl && h <= th) { lo = l; hi = h; } } break;
    case KSDiv: if (isC(e->b)) { int64_t c = sx64((uint64_t)e->b->v, e->w); if (c > 0) { lo = e->a->lo / c; hi = e->a->hi / c; } } break;
    case KUDiv: if (isC(e->b) && e->a->lo >= 0) { int64_t c = sx64((uint64_t)e->b->v, e->w); if (c > 0) { lo = e->a->lo / c; hi = e->a->hi / c; } } break;
    case KSRem: if (isC(e->b)) { int64_t c = sx64((uint64_t)e->b->v, e->w); if (c > 0) { lo = e->a->lo >= 0 ? 0 : -(c - 1); hi = e->a->hi <= 0 ? 0 : c - 1; } } break;
    case KURem: if (isC(e->b)) { int64_t c = sx64((uint64_t)e->b->v, e->w); if (c > 0) { lo = 0; hi = c - 1; } } break;
    case KAnd: if (isC(e->b)) { int64_t c = sx64((uint64_t)e->b->v, e->w); if (c >= 0) { lo = 0; hi = c; } } break;
    case KLShr: if (isC(e->b) && e->b->v > 0 && e->b->v < e->w) { lo = 0; hi = (int64_t)((uint64_t)maskw(e->w) >> (unsigned)e->b->v); } break;
    case KZExt: { if (e->a->lo >= 0) { lo = e->a->lo; hi = e->a->hi; } else { lo = 0; hi = (int64_t)(uint64_t)maskw(e->a->w); } break; }
    case KSExt: lo = e->a->lo; hi = e->a->hi; break;
    case KExtract: if (e->v == 0 && e->a->w <= 64 && e->a->lo >= tl && e->a->hi <= th) { lo = e->a->lo; hi = e->a->hi; } break;
    case KIte: lo = std::min(e->b->lo, e->c->lo); hi = std::max(e->b->hi, e->c->hi); break;
    default: break;
  }
  e->lo = (int64_t)lo; e->hi = (int64_t)hi;
  e->ranged = e->lo > tl || e->hi < th;
}

static Expr* intern(K k, unsigned w, Expr* a, Expr* b, Expr* c, u128 v, bool ranged = false, int64_t lo = 0, int64_t hi = 0) {
  Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.v = v; t.ranged = ranged; t.lo = lo; t.hi = hi;
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  Expr* e = new Expr(t);
  e->id = gNext++;
  e->ev_epoch = 0; e->zbv = e->zbool = e->zfp = nullptr;
  e->size = 1;
  for (int i = 0; i < 4; i++) e->ss[i] = 0;
  for (Expr* x : {a, b, c}) if (x) { for (int i = 0; i < 4; i++) e->ss[i] |= x->ss[i]; e->size = std::min<uint64_t>(1000000, (uint64_t)e->size + x->size); }
  if (k == KSym) { unsigned i = (unsigned)(v & 255); e->ss[i >> 6] |= 1ull << (i & 63); }
  computeRange(e);
  gTab.insert(e);
  return e;
}
Expr* mkConst(u128 v, unsigned w) { return intern(KConst, w, 0, 0, 0, v & maskw(w)); }
Expr* mkSym(unsigned idx, unsigned w, bool ranged, int64_t lo, int64_t hi) { return intern(KSym, w, 0, 0, 0, idx, ranged, lo, hi); }

// ---------------------------------------------------------------- concrete semantics
static double bitsD(u128 v) { double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
static float bitsF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static u128 Dbits(double d) { if (d != d) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 Fbits(float d) { if (d != d) return 0x7fc00000u; uint32_t x; memcpy(&x, &d, 4); return x; }

static u128 foldBin(K k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  i128 sa = sx128(a, w), sb = sx128(b, w);
  switch (k) {
    case KAdd: return (a + b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: return b == 0 ? m : (a / b) & m;
    case KSDiv: if (b == 0) return sa < 0 ? 1 : m; if (sb == -1) return (u128)(-(u128)sa) & m; return (u128)(sa / sb) & m;
    case KURem: return b == 0 ? a : a % b;
    case KSRem: if (b == 0) return a; if (sb == -1) return 0; return (u128)(sa % sb) & m;
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case KLShr: return b >= w ? 0 : a >> (unsigned)b;
    case KAShr: return b >= w ? (sa < 0 ? m : 0) : (u128)(sa >> (unsigned)b) & m;
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sa < sb;
    case KSle: return sa <= sb;
    case KFAdd: return w == 64 ? Dbits(bitsD(a) + bitsD(b)) : Fbits(bitsF(a) + bitsF(b));
    case KFSub: return w == 64 ? Dbits(bitsD(a) - bitsD(b)) : Fbits(bitsF(a) - bitsF(b));
    case KFMul: return w == 64 ? Dbits(bitsD(a) * bitsD(b)) : Fbits(bitsF(a) * bitsF(b));
    case KFDiv: return w == 64 ? Dbits(bitsD(a) / bitsD(b)) : Fbits(bitsF(a) / bitsF(b));
    case KFOeq: return w == 64 ? bitsD(a) == bitsD(b) : bitsF(a) == bitsF(b);
    case KFOlt: return w == 64 ? bitsD(a) < bitsD(b) : bitsF(a) < bitsF(b);
    case KFOle: return w == 64 ? bitsD(a) <= bitsD(b) : bitsF(a) <= bitsF(b);
    case KFUno: return w == 64 ? (bitsD(a) != bitsD(a) || bitsD(b) != bitsD(b)) : (bitsF(a) != bitsF(a) || bitsF(b) != bitsF(b));
    default: abort();
  }
}
static u128 fold1(K k, u128 a, unsigned aw, unsigned w, unsigned mode) {
  auto toD = [&]() -> double { return aw == 64 ? bitsD(a) : (double)bitsF(a); };
  switch (k) {
    case KFSqrt: return w == 64 ? Dbits(std::sqrt(bitsD(a))) : Fbits(std::sqrt(bitsF(a)));
    case KFRint: { double d = toD(), r; switch (mode) { case 0: r = std::nearbyint(d); break; case 1: r = std::floor(d); break; case 2: r = std::ceil(d); break; case 3: r = std::trunc(d); break; default: r = std::round(d); } return w == 64 ? Dbits(r) : Fbits((float)r); }
    case KFExt: return Dbits((double)bitsF(a));
    case KFTrunc: return Fbits((float)bitsD(a));
    case KSIToFP: return w == 64 ? Dbits((double)sx128(a, aw)) : Fbits((float)sx128(a, aw));
    case KUIToFP: return w == 64 ? Dbits((double)a) : Fbits((float)a);
    case KFPToSI: {
      double d = toD(); u128 bad = (u128)1 << (w - 1);
      if (!(d == d)) return bad;
      double lim = std::ldexp(1.0, w - 1);
      if (!(d > -lim - 1.0 && d < lim)) { if (!(d >= -lim && d < lim)) return bad; }
      return (u128)(i128)d & maskw(w);
    }
    case KFPToUI: {
      double d = toD();
      if (!(d > -1.0 && d < std::ldexp(1.0, w))) return (u128)1 << (w - 1);
      return (u128)d & maskw(w);
    }
    default: abort();
  }
}
static unsigned binOutW(K k, unsigned w) {
  switch (k) { case KEq: case KUlt: case KUle: case KSlt: case KSle: case KFOeq: case KFOlt: case KFOle: case KFUno: return 1; default: return w; }
}

// ---------------------------------------------------------------- linear sums
struct Lin { std::vector<std::pair<Expr*, u128>> t; u128 c = 0; };
static bool collect(Expr* e, u128 k, Lin& L, int depth = 0) {
  if (depth > 40 || L.t.size() > 24) return false;
  if (e->k == KConst) { L.c += k * e->v; return true; }
  if (e->k == KAdd) return collect(e->a, k, L, depth + 1) && collect(e->b, k, L, depth + 1);
  if (e->k == KMul && isC(e->b)) return collect(e->a, k * e->b->v, L, depth + 1);
  L.t.push_back({e, k});
  return true;
}
static Expr* rebuild(Lin& L, unsigned w) {
  u128 m = maskw(w);
  std::sort(L.t.begin(), L.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  std::vector<std::pair<Expr*, u128>> t;
  for (auto& p : L.t) { if (!t.empty() && t.back().first == p.first) t.back().second += p.second; else t.push_back(p); }
  for (auto& p : t) p.second &= m;
  // x % c + c * (x / c) = x
  for (size_t i = 0; i < t.size(); i++) {
    Expr* r = t[i].first;
    if ((r->k != KSRem && r->k != KURem) || t[i].second == 0 || !isC(r->b)) continue;
    for (size_t j = 0; j < t.size(); j++) {
      Expr* q = t[j].first;
      if (q->k == (r->k == KSRem ? KSDiv : KUDiv) && q->a == r->a && q->b == r->b && t[j].second == ((t[i].second * r->b->v) & m)) {
        u128 k = t[i].second; Expr* x = r->a;
        Lin N; N.c = L.c;
        for (size_t z = 0; z < t.size(); z++) if (z != i && z != j) N.t.push_back(t[z]);
        if (!collect(x, k, N)) break;
        return rebuild(N, w);
      }
    }
  }
  Expr* s = nullptr;
  for (auto& p : t) {
    if (p.second == 0) continue;
    Expr* x = p.second == 1 ? p.first : intern(KMul, w, p.first, mkConst(p.second, w), 0, 0);
    s = s ? intern(KAdd, w, s, x, 0, 0) : x;
  }
  u128 c = L.c & m;
  if (!s) return mkConst(c, w);
  if (c) s = intern(KAdd, w, s, mkConst(c, w), 0, 0);
  return s;
}
Expr* mkSub(Expr* a, Expr* b) {
  if (a == b) return mkConst(0, a->w);
  Lin L;
  if (collect(a, 1, L) && collect(b, ~(u128)0, L)) return rebuild(L, a->w);
  return intern(KAdd, a->w, a, intern(KMul, a->w, b, mkConst(~(u128)0, a->w), 0, 0), 0, 0);
}
Expr* mkNot(Expr* a) { return mkBin(KXor, a, mkConst(~(u128)0, a->w)); }

Expr* mkBin(K k, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->v, b->v, w), binOutW(k, w));
  switch (k) {
    case KAdd: {
      if (isC(a) && a->v == 0) return b;
      if (isC(b) && b->v == 0) return a;
      if (w == 1) return mkBin(KXor, a, b);
      Lin L;
      if (collect(a, 1, L) && collect(b, 1, L)) return rebuild(L, w);
      return intern(k, w, a, b, 0, 0);
    }
    case KMul: {
      if (isC(a)) std::swap(a, b);
      if (w == 1) return mkBin(KAnd, a, b);
      if (isC(b)) {
        if (b->v == 0) return b;
        if (b->v == 1) return a;
        Lin L;
        if (collect(a, b->v, L)) return rebuild(L, w);
      } else if (a->id > b->id) std::swap(a, b);
      return intern(k, w, a, b, 0, 0);
    }
    case KUDiv: case KSDiv: if (isC(b) && b->v == 1) return a;
      // (x / c) with 0 <= x < c is 0
      if (isC(b) && w <= 64 && a->lo >= 0) { int64_t c = sx64((uint64_t)b->v, w); if (c > 0 && a->hi < c) return mkConst(0, w); }
      // c*x / c with no overflow
      if (isC(b) && w <= 64) {
        int64_t c = sx64((uint64_t)b->v, w);
        if (c > 1 && a->k == KMul && a->b == b && a->ranged && (k == KSDiv || a->lo >= 0)) {
          i128 l = (i128)a->a->lo * c, h = (i128)a->a->hi * c; int64_t tl, th; typeRange(w, tl, th);
          if (l >= tl && h <= th) return a->a;
        }
      }
      return intern(k, w, a, b, 0, 0);
    case KURem: case KSRem: if (isC(b) && b->v == 1) return mkConst(0, w);
      if (isC(b) && w <= 64 && a->lo >= 0) { int64_t c = sx64((uint64_t)b->v, w); if (c > 0 && a->hi < c) return a; }
      return intern(k, w, a, b, 0, 0);
    case KAnd:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->v == 0) return b;
        if (b->v == maskw(w)) return a;
        // low mask -> zext(extract)
        u128 m = b->v;
        if ((m & (m + 1)) == 0) { unsigned n = 0; while (m) { n++; m >>= 1; }
          return mkZExt(mkExtract(a, 0, n), w); }
        if (a->k == KAnd && isC(a->b)) return mkBin(KAnd, a->a, mkConst(a->b->v & b->v, w));
        if (a->k == KZExt && (b->v >> a->a->w) == 0) return mkZExt(mkBin(KAnd, a->a, mkConst(b->v, a->a->w)), w);
        if (a->k == KZExt) return mkZExt(mkBin(KAnd, a->a, mkConst(b->v, a->a->w)), w);
      } else if (a->id > b->id) std::swap(a, b);
      if (w == 1 && a->k == KXor && isC(a->b) && a->a == b) return mkConst(0, 1);
      if (w == 1 && b->k == KXor && isC(b->b) && b->a == a) return mkConst(0, 1);
      return intern(k, w, a, b, 0, 0);
    case KOr:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) { if (b->v == 0) return a; if (b->v == maskw(w)) return b; }
      // zext(lo) | (zext(hi) << n) -> concat
      for (int s = 0; s < 2; s++) {
        Expr *x = s ? b : a, *y = s ? a : b;
        if (x->k == KZExt && y->k == KConcat && isC(y->b) && y->b->v == 0 && y->b->w >= x->a->w)
          return mkConcat(y->a, mkZExt(x->a, y->b->w));
      }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      if (w == 1 && a->k == KXor && isC(a->b) && a->a == b) return mkConst(1, 1);
      if (w == 1 && b->k == KXor && isC(b->b) && b->a == a) return mkConst(1, 1);
      return intern(k, w, a, b, 0, 0);
    case KXor:
      if (isC(a)) std::swap(a, b);
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->v == 0) return a;
        if (a->k == KXor && isC(a->b)) return mkBin(KXor, a->a, mkConst(a->b->v ^ b->v, w));
        if (w == 1) { // negation of comparisons
          switch (a->k) {
            case KUlt: return mkBin(KUle, a->b, a->a);
            case KUle: return mkBin(KUlt, a->b, a->a);
            case KSlt: return mkBin(KSle, a->b, a->a);
            case KSle: return mkBin(KSlt, a->b, a->a);
            case KIte: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkNot(a->b), mkNot(a->c)); break;
            default: break;
          }
        }
      } else if (a->id > b->id) std::swap(a, b);
      return intern(k, w, a, b, 0, 0);
    case KShl: case KLShr: case KAShr:
      if (isC(b)) {
        if (b->v == 0) return a;
        if (b->v >= w) { if (k == KAShr) b = mkConst(w - 1, w); else return mkConst(0, w); }
        unsigned n = (unsigned)b->v;
        if (k == KShl) {
          if (a->k == KAdd || a->k == KSym || a->k == KMul) { return mkBin(KMul, a, mkConst((u128)1 << n, w)); }
          return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
        }
        if (k == KLShr) return mkZExt(mkExtract(a, n, w - n), w);
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      if (isC(a) && a->v == 0) return a;
      return intern(k, w, a, b, 0, 0);
    case KEq: {
      if (a == b) return mkConst(1, 1);
      if (isC(a)) std::swap(a, b);
      if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkConst(0, 1);
      if (w == 1 && isC(b)) return b->v ? a : mkNot(a);
      if (isC(b)) {
        if (a->k == KZExt) { if (b->v >> a->a->w) return mkConst(0, 1); return mkBin(KEq, a->a, mkConst(b->v, a->a->w)); }
        if (a->k == KSExt) { u128 low = b->v & maskw(a->a->w); if (((u128)sx128(low, a->a->w) & maskw(w)) != b->v) return mkConst(0, 1); return mkBin(KEq, a->a, mkConst(low, a->a->w)); }
        if (a->k == KIte && isC(a->b) && isC(a->c)) {
          bool x = a->b == b, y = a->c == b;
          if (x && y) return mkConst(1, 1);
          if (x) return a->a;
          if (y) return mkNot(a->a);
          return mkConst(0, 1);
        }
        if (a->k == KIte && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(KEq, a->b, b), mkBin(KEq, a->c, b));
        if (a->k == KConcat) return mkBin(KAnd, mkBin(KEq, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(KEq, a->b, mkConst(b->v & maskw(a->b->w), a->b->w)));
        if (a->k == KAdd && isC(a->b)) return mkBin(KEq, a->a, mkConst(b->v - a->b->v, w));
        if (a->k == KXor && isC(a->b)) return mkBin(KEq, a->a, mkConst(b->v ^ a->b->v, w));
      } else {
        if (w > 1) {
          Expr* d = mkSub(a, b);
          if (isC(d)) return mkConst(d->v == 0, 1);
          if (d->k == KAdd && isC(d->b) && d->a->k != KAdd && d->a->k != KMul) return mkBin(KEq, d->a, mkConst(-d->b->v, w));
        }
        if (a->id > b->id) std::swap(a, b);
      }
      return intern(k, 1, a, b, 0, 0);
    }
    case KUlt: case KUle: {
      if (a == b) return mkConst(k == KUle, 1);
      if (w == 1) { if (k == KUlt) return mkBin(KAnd, mkNot(a), b); return mkBin(KOr, mkNot(a), b); }
      if (isC(b)) { if (b->v == 0) return k == KUlt ? mkConst(0, 1) : mkBin(KEq, a, b); if (b->v == maskw(w) && k == KUle) return mkConst(1, 1); if (b->v == 1 && k == KUlt) return mkBin(KEq, a, mkConst(0, w)); }
      if (isC(a)) { if (a->v == 0) return k == KUle ? mkConst(1, 1) : mkNot(mkBin(KEq, b, a)); if (a->v == maskw(w)) return k == KUlt ? mkConst(0, 1) : mkBin(KEq, a, b); }
      if (w <= 64 && a->lo >= 0 && b->lo >= 0) {
        return mkBin(k == KUlt ? KSlt : KSle, a, b);
      }
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      if (a->k == KZExt && isC(b)) { if (b->v >> a->a->w) return mkConst(1, 1); return mkBin(k, a->a, mkConst(b->v, a->a->w)); }
      return intern(k, 1, a, b, 0, 0);
    }
    case KSlt: case KSle: {
      if (a == b) return mkConst(k == KSle, 1);
      if (w == 1) return k == KSlt ? mkBin(KAnd, a, mkNot(b)) : mkBin(KOr, a, mkNot(b));
      if (w <= 64) {
        if (k == KSlt) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
        else { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
        // a < b with both sums free of overflow: compare the difference
        if (!isC(a) && !isC(b) && a->ranged && b->ranged) {
          Expr* d = mkSub(a, b);
          i128 l = (i128)a->lo - b->hi, h = (i128)a->hi - b->lo; int64_t tl, th; typeRange(w, tl, th);
          if (l >= tl && h <= th && d->size < a->size + b->size) return mkBin(k, d, mkConst(0, w));
        }
        if (isC(b) && a->k == KAdd && isC(a->b) && a->ranged) {
          int64_t c = sx64((uint64_t)a->b->v, w), tl, th; typeRange(w, tl, th);
          i128 l = (i128)a->a->lo + c, h = (i128)a->a->hi + c, nb = (i128)sx64((uint64_t)b->v, w) - c;
          if (l >= tl && h <= th && nb >= tl && nb <= th) return mkBin(k, a->a, mkConst((u128)nb, w));
        }
        if (isC(a) && b->k == KAdd && isC(b->b) && b->ranged) {
          int64_t c = sx64((uint64_t)b->b->v, w), tl, th; typeRange(w, tl, th);
          i128 l = (i128)b->a->lo + c, h = (i128)b->a->hi + c, nb = (i128)sx64((uint64_t)a->v, w) - c;
          if (l >= tl && h <= th && nb >= tl && nb <= th) return mkBin(k, mkConst((u128)nb, w), b->a);
        }
      }
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      return intern(k, 1, a, b, 0, 0);
    }
    case KFOeq: if (a == b) return mkNot(mkBin(KFUno, a, a)); if (a->id > b->id) std::swap(a, b); return intern(k, 1, a, b, 0, 0);
    case KFUno: {
      auto nan = [&](Expr* x) -> Expr* {
        if (isC(x)) return mkConst(foldBin(KFUno, x->v, x->v, w), 1);
        if (x->k == KSIToFP || x->k == KUIToFP) return mkConst(0, 1);
        return intern(KFUno, 1, x, x, 0, 0);
      };
      if (a == b) return nan(a);
      return mkBin(KOr, nan(a), nan(b));
    }
    case KFDiv:   // by a power of two: exactly the product with its inverse
      if (w == 64 && isC(b) && !isC(a)) {
        double d = bitsD(b->v), inv = 1 / d; int e;
        if (d == d && d != 0 && std::fabs(std::frexp(d, &e)) == 0.5 && inv != 0 && std::fabs(inv) < INFINITY) return mkBin(KFMul, a, mkConst(Dbits(inv), 64));
      }
      return intern(k, w, a, b, 0, 0);
    case KFMul:
      if (w == 64 && isC(b) && bitsD(b->v) == 1) return a;
      if (w == 64 && isC(a) && bitsD(a->v) == 1) return b;
      if (a->id > b->id) std::swap(a, b);
      return intern(k, w, a, b, 0, 0);
    case KFAdd: if (a->id > b->id) std::swap(a, b); return intern(k, w, a, b, 0, 0);
    default: return intern(k, binOutW(k, w), a, b, 0, 0);
  }
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
    if (isC(a)) return a->v ? mkBin(KOr, c, b) : mkBin(KAnd, mkNot(c), b);
    if (isC(b)) return b->v ? mkBin(KOr, mkNot(c), a) : mkBin(KAnd, c, a);
  }
  if (a->k == KIte && a->a == c) a = a->b;
  if (b->k == KIte && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(KIte, a->w, c, a, b, 0);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case KConst: return mkConst(a->v >> lo, w);
    case KExtract: return mkExtract(a->a, lo + (unsigned)a->v, w);
    case KConcat: {
      unsigned bw = a->b->w;
      if (lo + w <= bw) return mkExtract(a->b, lo, w);
      if (lo >= bw) return mkExtract(a->a, lo - bw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - bw), mkExtract(a->b, lo, bw - lo));
    }
    case KZExt: {
      unsigned aw = a->a->w;
      if (lo >= aw) return mkConst(0, w);
      if (lo + w <= aw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, aw - lo), w);
    }
    case KSExt: {
      unsigned aw = a->a->w;
      if (lo + w <= aw) return mkExtract(a->a, lo, w);
      if (lo < aw) return mkSExt(mkExtract(a->a, lo, aw - lo), w);
      return mkSExt(mkExtract(a->a, aw - 1, 1), w);
    }
    case KIte: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case KAnd: case KOr: case KXor: if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case KAdd: case KMul: if (lo == 0 && a->w <= 64) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return intern(KExtract, w, a, 0, 0, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, (unsigned)lo->v, w);
  if (hi->k == KExtract && hi->a == lo && hi->v == lo->w) return mkExtract(lo, 0, w);
  // (x . extract) . extract
  if (hi->k == KConcat && hi->b->k == KExtract && lo->k == KExtract && hi->b->a == lo->a && hi->b->v == lo->v + lo->w) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return intern(KConcat, w, hi, lo, 0, 0);
}
Expr* mkZExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  // zext(extract(x,0,n)) where 0 <= x < 2^n
  if (a->k == KExtract && a->v == 0 && a->a->w == w && w <= 64 && a->a->lo >= 0 && a->w < 63 && a->a->hi < ((int64_t)1 << a->w)) return a->a;
  return intern(KZExt, w, a, 0, 0, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sx128(a->v, a->w), w);
  if (a->k == KSExt) return mkSExt(a->a, w);
  if (a->k == KZExt && a->a->w < a->w) return mkZExt(a->a, w);
  if (a->k == KExtract && a->v == 0 && a->a->w == w && w <= 64) { int64_t tl, th; typeRange(a->w, tl, th); if (a->a->lo >= tl && a->a->hi <= th) return a->a; }
  if (a->w <= 64 && w <= 64 && a->lo >= 0) return mkZExt(a, w);
  return intern(KSExt, w, a, 0, 0, 0);
}
Expr* mkF1(K k, Expr* a, unsigned w, unsigned mode) {
  if (isC(a)) return mkConst(fold1(k, a->v, a->w, w, mode), w);
  return intern(k, w, a, 0, 0, mode);
}

// ---------------------------------------------------------------- evaluation
static uint64_t gEpoch = 1;
void newEvalEpoch() { gEpoch++; }
u128 evalExpr(Expr* e, const Model& m) {
  if (e->k == KConst) return e->v;
  if (e->ev_epoch == gEpoch) return e->ev;
  u128 r;
  switch (e->k) {
    case KSym: { size_t i = (size_t)e->v; r = i < m.size() ? m[i] : 0; r &= maskw(e->w); break; }
    case KIte: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case KConcat: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case KExtract: r = (evalExpr(e->a, m) >> (unsigned)e->v) & maskw(e->w); break;
    case KZExt: r = evalExpr(e->a, m); break;
    case KSExt: r = (u128)sx128(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
    case KFSqrt: case KFRint: case KFExt: case KFTrunc: case KSIToFP: case KUIToFP: case KFPToSI: case KFPToUI:
      r = fold1(e->k, evalExpr(e->a, m), e->a->w, e->w, (unsigned)e->v); break;
    default: r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w);
  }
  e->ev_epoch = gEpoch; e->ev = r;
  return r;
}

// ---------------------------------------------------------------- Z3
static Z3_context Z;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void exprInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg);   // automatic reference counting off: asts live with the context
  Z3_set_error_handler(Z, zerr);
}
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); }
static Z3_ast rne() { static Z3_ast r = Z3_mk_fpa_rne(Z); return r; }
static Z3_ast numeral(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (uint64_t)v, bvs(w));
  Z3_ast hi = Z3_mk_unsigned_int64(Z, (uint64_t)(v >> 64), bvs(w - 64)), lo = Z3_mk_unsigned_int64(Z, (uint64_t)v, bvs(64));
  return Z3_mk_concat(Z, hi, lo);
}
static Z3_ast zbv(Expr* e); static Z3_ast zbool(Expr* e); static Z3_ast zfp(Expr* e);
static bool isFpKind(K k) { switch (k) { case KFAdd: case KFSub: case KFMul: case KFDiv: case KFSqrt: case KFRint: case KFExt: case KFTrunc: case KSIToFP: case KUIToFP: return true; default: return false; } }
static bool isBoolKind(Expr* e) {
  switch (e->k) { case KEq: case KUlt: case KUle: case KSlt: case KSle: case KFOeq: case KFOlt: case KFOle: case KFUno: return true;
    case KAnd: case KOr: case KXor: case KIte: return e->w == 1; default: return false; }
}
static Z3_ast zfp(Expr* e) {
  if (e->zfp) return e->zfp;
  Z3_ast r;
  switch (e->k) {
    case KFAdd: r = Z3_mk_fpa_add(Z, rne(), zfp(e->a), zfp(e->b)); break;
    case KFSub: r = Z3_mk_fpa_sub(Z, rne(), zfp(e->a), zfp(e->b)); break;
    case KFMul: r = Z3_mk_fpa_mul(Z, rne(), zfp(e->a), zfp(e->b)); break;
    case KFDiv: r = Z3_mk_fpa_div(Z, rne(), zfp(e->a), zfp(e->b)); break;
    case KFSqrt: r = Z3_mk_fpa_sqrt(Z, rne(), zfp(e->a)); break;
    case KFRint: { Z3_ast m; switch ((int)e->v) { case 0: m = rne(); break; case 1: m = Z3_mk_fpa_rtn(Z); break; case 2: m = Z3_mk_fpa_rtp(Z); break; case 3: m = Z3_mk_fpa_rtz(Z); break; default: m = Z3_mk_fpa_rna(Z); } r = Z3_mk_fpa_round_to_integral(Z, m, zfp(e->a)); break; }
    case KFExt: case KFTrunc: r = Z3_mk_fpa_to_fp_float(Z, rne(), zfp(e->a), fps(e->w)); break;
    case KSIToFP: r = Z3_mk_fpa_to_fp_signed(Z, rne(), zbv(e->a), fps(e->w)); break;
    case KUIToFP: r = Z3_mk_fpa_to_fp_unsigned(Z, rne(), zbv(e->a), fps(e->w)); break;
    case KIte: r = Z3_mk_ite(Z, zbool(e->a), zfp(e->b), zfp(e->c)); break;
    case KXor: // sign flip
      if (isC(e->b) && e->b->v == ((u128)1 << (e->w - 1))) { r = Z3_mk_fpa_neg(Z, zfp(e->a)); break; }
      r = Z3_mk_fpa_to_fp_bv(Z, zbv(e), fps(e->w)); break;
    case KZExt: if (e->a->w == (unsigned)e->w - 1) { // abs: zext(extract(x, 0, w-1))
        Expr* x = e->a; if (x->k == KExtract && x->v == 0 && x->a->w == e->w) { r = Z3_mk_fpa_abs(Z, zfp(x->a)); break; } }
      // fallthrough
    default: r = Z3_mk_fpa_to_fp_bv(Z, zbv(e), fps(e->w));
  }
  return e->zfp = keep(r);
}
static Z3_ast zbool(Expr* e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  Z3_ast t[2];
  switch (e->k) {
    case KConst: r = e->v ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case KEq: if (e->a->w == 1) r = Z3_mk_eq(Z, zbool(e->a), zbool(e->b)); else r = Z3_mk_eq(Z, zbv(e->a), zbv(e->b)); break;
    case KUlt: r = Z3_mk_bvult(Z, zbv(e->a), zbv(e->b)); break;
    case KUle: r = Z3_mk_bvule(Z, zbv(e->a), zbv(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(Z, zbv(e->a), zbv(e->b)); break;
    case KSle: r = Z3_mk_bvsle(Z, zbv(e->a), zbv(e->b)); break;
    case KFOeq: r = Z3_mk_fpa_eq(Z, zfp(e->a), zfp(e->b)); break;
    case KFOlt: r = Z3_mk_fpa_lt(Z, zfp(e->a), zfp(e->b)); break;
    case KFOle: r = Z3_mk_fpa_leq(Z, zfp(e->a), zfp(e->b)); break;
    case KFUno: r = Z3_mk_fpa_is_nan(Z, zfp(e->a)); break;
    case KAnd: t[0] = zbool(e->a); t[1] = zbool(e->b); r = Z3_mk_and(Z, 2, t); break;
    case KOr: t[0] = zbool(e->a); t[1] = zbool(e->b); r = Z3_mk_or(Z, 2, t); break;
    case KXor: if (isC(e->b)) r = e->b->v ? Z3_mk_not(Z, zbool(e->a)) : zbool(e->a); else r = Z3_mk_xor(Z, zbool(e->a), zbool(e->b)); break;
    case KIte: r = Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    default: r = Z3_mk_eq(Z, zbv(e), numeral(1, 1));
  }
  return e->zbool = keep(r);
}
static Z3_ast zbv(Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  if (isBoolKind(e)) { r = Z3_mk_ite(Z, zbool(e), numeral(1, 1), numeral(0, 1)); return e->zbv = keep(r); }
  if (isFpKind(e->k)) { r = Z3_mk_fpa_to_ieee_bv(Z, zfp(e)); return e->zbv = keep(r); }
  switch (e->k) {
    case KConst: r = numeral(e->v, e->w); break;
    case KSym: { char n[32]; snprintf(n, sizeof n, "s%u_%u", (unsigned)e->v, e->w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), bvs(e->w)); break; }
    case KAdd:
      if (e->b->k == KMul && isC(e->b->b) && e->b->b->v == maskw(e->w)) r = Z3_mk_bvsub(Z, zbv(e->a), zbv(e->b->a));
      else r = Z3_mk_bvadd(Z, zbv(e->a), zbv(e->b));
      break;
    case KMul: if (isC(e->b) && e->b->v == maskw(e->w)) r = Z3_mk_bvneg(Z, zbv(e->a)); else r = Z3_mk_bvmul(Z, zbv(e->a), zbv(e->b)); break;
    case KUDiv: r = Z3_mk_bvudiv(Z, zbv(e->a), zbv(e->b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(Z, zbv(e->a), zbv(e->b)); break;
    case KURem: r = Z3_mk_bvurem(Z, zbv(e->a), zbv(e->b)); break;
    case KSRem: r = Z3_mk_bvsrem(Z, zbv(e->a), zbv(e->b)); break;
    case KAnd: r = Z3_mk_bvand(Z, zbv(e->a), zbv(e->b)); break;
    case KOr: r = Z3_mk_bvor(Z, zbv(e->a), zbv(e->b)); break;
    case KXor: r = Z3_mk_bvxor(Z, zbv(e->a), zbv(e->b)); break;
    case KShl: r = Z3_mk_bvshl(Z, zbv(e->a), zbv(e->b)); break;
    case KLShr: r = Z3_mk_bvlshr(Z, zbv(e->a), zbv(e->b)); break;
    case KAShr: r = Z3_mk_bvashr(Z, zbv(e->a), zbv(e->b)); break;
    case KConcat: r = Z3_mk_concat(Z, zbv(e->a), zbv(e->b)); break;
    case KExtract: r = Z3_mk_extract(Z, (unsigned)e->v + e->w - 1, (unsigned)e->v, zbv(e->a)); break;
    case KZExt: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zbv(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zbv(e->a)); break;
    case KIte: r = Z3_mk_ite(Z, zbool(e->a), zbv(e->b), zbv(e->c)); break;
    case KFPToSI: case KFPToUI: {
      // out of range / NaN gives the "integer indefinite" value, as on x86
      bool s = e->k == KFPToSI; unsigned aw = e->a->w;
      double lo = s ? -std::ldexp(1.0, e->w - 1) - (e->w < 53 ? 1.0 : 0.0) : -1.0, hi = s ? std::ldexp(1.0, e->w - 1) : std::ldexp(1.0, e->w);
      Z3_ast x = zfp(e->a);
      Z3_ast zl = aw == 64 ? Z3_mk_fpa_numeral_double(Z, lo, fps(64)) : Z3_mk_fpa_numeral_float(Z, (float)lo, fps(32));
      Z3_ast zh = aw == 64 ? Z3_mk_fpa_numeral_double(Z, hi, fps(64)) : Z3_mk_fpa_numeral_float(Z, (float)hi, fps(32));
      Z3_ast c[2] = {(s && e->w >= 53) ? Z3_mk_fpa_geq(Z, x, zl) : Z3_mk_fpa_gt(Z, x, zl), Z3_mk_fpa_lt(Z, x, zh)};
      Z3_ast conv = s ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), x, e->w) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), x, e->w);
      r = Z3_mk_ite(Z, Z3_mk_and(Z, 2, c), conv, numeral((u128)1 << (e->w - 1), e->w));
      break;
    }
    default: abort();
  }
  return e->zbv = keep(r);
}

SolverStats gSolverStats;
unsigned gSolverTimeoutMs = 60000;
std::string gDumpDir;

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x100000001B3ull + (h >> 29); return h; } };
struct CacheEnt { int r; std::vector<std::pair<unsigned, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> gCache;

// ---- linear integer view: where no operation can wrap (by the intervals), a
// query over bit-vectors is the same query over the integers, which the
// arithmetic solver decides much faster.  Null when some part does not fit.
static std::unordered_map<Expr*, Z3_ast> gLia, gLiaB;
static Z3_sort intS() { static Z3_sort s = Z3_mk_int_sort(Z); return s; }
static Z3_ast liaB(Expr* e);
static Z3_ast lia(Expr* e);
static Z3_ast num64(i128 v) { return Z3_mk_int64(Z, (int64_t)v, intS()); }
static bool liaTerms(Expr* e, i128 k, std::vector<std::pair<Expr*, i128>>& t, i128& c, int depth) {
  if (depth > 40) return false;
  if (e->k == KConst) { c += k * sx64((uint64_t)e->v, e->w); return true; }
  if (e->k == KAdd) return liaTerms(e->a, k, t, c, depth + 1) && liaTerms(e->b, k, t, c, depth + 1);
  if (e->k == KMul && isC(e->b)) { i128 m = k * sx64((uint64_t)e->b->v, e->w); if (m > ((i128)1 << 62) || m < -((i128)1 << 62)) return false; return liaTerms(e->a, m, t, c, depth + 1); }
  t.push_back({e, k}); return true;
}
static Z3_ast lia(Expr* e) {
  auto it = gLia.find(e); if (it != gLia.end()) return it->second;
  Z3_ast r = nullptr;
  if (e->w > 64) return gLia[e] = nullptr;
  switch (e->k) {
    case KConst: r = num64(sx64((uint64_t)e->v, e->w)); break;
    case KSym: { char n[32]; snprintf(n, sizeof n, "i%u_%u", (unsigned)e->v, e->w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), intS()); break; }
    case KAdd: case KMul: {
      std::vector<std::pair<Expr*, i128>> t; i128 c = 0;
      if (!liaTerms(e, 1, t, c, 0)) break;
      i128 lo = c, hi = c; int64_t tl, th; typeRange(e->w, tl, th);
      bool ok = c <= INT64_MAX && c >= INT64_MIN;
      std::vector<Z3_ast> as;
      for (auto& p : t) {
        i128 l = p.second * p.first->lo, h = p.second * p.first->hi; if (l > h) std::swap(l, h);
        lo += l; hi += h;
        Z3_ast a = ok && p.first->k != KMul ? lia(p.first) : nullptr;
        if (!a) { ok = false; break; }
        if (p.second != 1) { Z3_ast m[2] = {num64(p.second), a}; a = Z3_mk_mul(Z, 2, m); }
        as.push_back(a);
      }
      if (!ok || lo < tl || hi > th) break;
      if (c != 0 || as.empty()) as.push_back(num64(c));
      r = as.size() == 1 ? as[0] : Z3_mk_add(Z, (unsigned)as.size(), as.data());
      break;
    }
    case KSExt: r = e->a->w == 1 ? nullptr : lia(e->a); break;
    case KZExt:
      if (e->a->w == 1) { Z3_ast b = liaB(e->a); if (b) r = Z3_mk_ite(Z, b, num64(1), num64(0)); }
      else if (e->a->lo >= 0) r = lia(e->a);
      break;
    case KExtract: { int64_t tl, th; typeRange(e->w, tl, th); if (e->v == 0 && e->w > 1 && e->a->w <= 64 && e->a->lo >= tl && e->a->hi <= th) r = lia(e->a); break; }
    case KIte: if (e->w > 1) { Z3_ast c = liaB(e->a), x = lia(e->b), y = lia(e->c); if (c && x && y) r = Z3_mk_ite(Z, c, x, y); } break;
    case KUDiv: case KSDiv: case KURem: case KSRem:
      if (isC(e->b) && e->a->lo >= 0 && sx64((uint64_t)e->b->v, e->w) > 0) { Z3_ast a = lia(e->a); if (a) { Z3_ast d = num64(sx64((uint64_t)e->b->v, e->w)); r = e->k == KUDiv || e->k == KSDiv ? Z3_mk_div(Z, a, d) : Z3_mk_mod(Z, a, d); } }
      break;
    default: break;
  }
  return gLia[e] = r;
}
static Z3_ast liaB(Expr* e) {
  auto it = gLiaB.find(e); if (it != gLiaB.end()) return it->second;
  Z3_ast r = nullptr, t[2];
  switch (e->k) {
    case KConst: r = e->v ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case KEq:
      if (e->a->w == 1) { t[0] = liaB(e->a); t[1] = liaB(e->b); } else { t[0] = lia(e->a); t[1] = lia(e->b); }
      if (t[0] && t[1]) r = Z3_mk_eq(Z, t[0], t[1]);
      break;
    case KUlt: case KUle:
      if (e->a->w == 1 || e->a->lo < 0 || e->b->lo < 0) break;  // fallthrough
    case KSlt: case KSle:
      if (e->a->w == 1) break;
      t[0] = lia(e->a); t[1] = t[0] ? lia(e->b) : nullptr;
      if (t[0] && t[1]) r = e->k == KUlt || e->k == KSlt ? Z3_mk_lt(Z, t[0], t[1]) : Z3_mk_le(Z, t[0], t[1]);
      break;
    case KAnd: t[0] = liaB(e->a); t[1] = liaB(e->b); if (e->w == 1 && t[0] && t[1]) r = Z3_mk_and(Z, 2, t); break;
    case KOr: t[0] = liaB(e->a); t[1] = liaB(e->b); if (e->w == 1 && t[0] && t[1]) r = Z3_mk_or(Z, 2, t); break;
    case KXor: t[0] = liaB(e->a); if (e->w == 1 && t[0]) { if (isC(e->b)) r = e->b->v ? Z3_mk_not(Z, t[0]) : t[0]; else if ((t[1] = liaB(e->b))) r = Z3_mk_xor(Z, t[0], t[1]); } break;
    case KIte: if (e->w == 1) { Z3_ast c = liaB(e->a); t[0] = liaB(e->b); t[1] = liaB(e->c); if (c && t[0] && t[1]) r = Z3_mk_ite(Z, c, t[0], t[1]); } break;
    default: break;
  }
  return gLiaB[e] = r;
}

static bool overlap(const uint64_t* a, const uint64_t* b) { return (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]); }

static void collectSyms(Expr* e, std::vector<Expr*>& out, std::unordered_set<Expr*>& seen) {
  if (!seen.insert(e).second) return;
  if (e->k == KSym) { out.push_back(e); return; }
  for (Expr* x : {e->a, e->b, e->c}) if (x) collectSyms(x, out, seen);
}
static void collectConsts(Expr* e, std::vector<Expr*>& syms, std::vector<int64_t>& cs, std::unordered_set<Expr*>& seen) {
  if (!seen.insert(e).second) return;
  if (e->k == KSym) { syms.push_back(e); return; }
  if (e->k == KConst) { if (e->w <= 64 && e->w > 1) cs.push_back(sx64((uint64_t)e->v, e->w)); return; }
  for (Expr* x : {e->a, e->b, e->c}) if (x) collectConsts(x, syms, cs, seen);
}
static bool hasFp(Expr* e, std::unordered_set<Expr*>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->k >= KFAdd) return true;
  for (Expr* x : {e->a, e->b, e->c}) if (x && hasFp(x, seen)) return true;
  return false;
}
// range side conditions of ranged symbols (they are part of the symbol's definition)
static void rangeOf(Expr* s, std::vector<Z3_ast>& out) {
  if (s->ranged && s->k == KSym) {
    out.push_back(Z3_mk_bvsle(Z, numeral((u128)(i128)s->lo & maskw(s->w), s->w), zbv(s)));
    out.push_back(Z3_mk_bvsle(Z, zbv(s), numeral((u128)(i128)s->hi & maskw(s->w), s->w)));
  }
}
static bool inRange(Expr* s, uint64_t v) { if (!s->ranged) return true; int64_t x = sx64(v, s->w); return x >= s->lo && x <= s->hi; }

static void slice(const std::vector<Expr*>& pc, Expr* q, std::vector<Expr*>& sel) {
  uint64_t ss[4]; memcpy(ss, q->ss, sizeof ss);
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i] && overlap(ss, pc[i]->ss)) { in[i] = 1; ch = true; for (int j = 0; j < 4; j++) ss[j] |= pc[i]->ss[j]; }
  }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) sel.push_back(pc[i]);
  std::sort(sel.begin(), sel.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  sel.erase(std::unique(sel.begin(), sel.end()), sel.end());
}

std::string dumpQuery(const std::vector<Expr*>& pc, Expr* q) {
  std::vector<Expr*> sel; slice(pc, q, sel); sel.push_back(q);
  Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s);
  std::vector<Expr*> syms; std::unordered_set<Expr*> seen; std::vector<Z3_ast> as;
  for (auto e : sel) { collectSyms(e, syms, seen); Z3_solver_assert(Z, s, zbool(e)); }
  for (auto y : syms) rangeOf(y, as);
  for (auto a : as) Z3_solver_assert(Z, s, a);
  std::string r = Z3_solver_to_string(Z, s);
  Z3_solver_dec_ref(Z, s);
  return r + "(check-sat)\n";
}

int solveQuery(const std::vector<Expr*>& pc, Expr* q, const Model& base, Model* out) {
  if (isC(q)) { if (!q->v) return 0; if (out) *out = base; return 1; }
  std::vector<Expr*> sel;
  slice(pc, q, sel);
  std::vector<uint32_t> key;
  for (auto e : sel) key.push_back(e->id);
  key.push_back(q->id);
  auto it = gCache.find(key);
  if (it != gCache.end()) {
    gSolverStats.cacheHits++;
    if (it->second.r == 1 && out) { *out = base; for (auto& p : it->second.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; } }
    return it->second.r;
  }
  std::vector<Expr*> syms; std::unordered_set<Expr*> seen;
  for (auto e : sel) collectSyms(e, syms, seen);
  collectSyms(q, syms, seen);
  auto storeSat = [&](const Model& m) {
    CacheEnt c; c.r = 1; for (auto s : syms) c.m.push_back({(unsigned)s->v, (uint64_t)s->v < m.size() ? m[(size_t)s->v] : 0});
    if (gCache.size() < 400000) gCache.emplace(key, std::move(c));
  };
  // A cheap attempt first: move one symbol of the query to an interesting value.
  {
    std::vector<Expr*> qs; std::vector<int64_t> cs; std::unordered_set<Expr*> sn;
    collectConsts(q, qs, cs, sn);
    if (qs.size() <= 6 && cs.size() <= 10) {
      Model m = base;
      for (auto s : syms) if (m.size() <= (size_t)s->v) m.resize((size_t)s->v + 1, 0);
      cs.push_back(0);
      int tries = 0;
      for (auto s : qs) {
        uint64_t old = m[(size_t)s->v];
        int64_t so = sx64(old, s->w);
        std::vector<int64_t> cand;
        if (s->ranged) { cand.push_back(s->lo); cand.push_back(s->hi); }
        for (auto c : cs) for (int d = -1; d <= 1; d++) {
          cand.push_back((int64_t)((uint64_t)c + d)); cand.push_back((int64_t)(0 - (uint64_t)c + d));
          if (d == 0) { cand.push_back((int64_t)((uint64_t)so + c)); cand.push_back((int64_t)((uint64_t)so - c)); }
        }
        for (auto v : cand) {
          uint64_t nv = (uint64_t)v & (uint64_t)maskw(s->w);
          if (nv == old || !inRange(s, nv)) continue;
          if (++tries > 80) break;
          m[(size_t)s->v] = nv; newEvalEpoch();
          bool ok = evalExpr(q, m) != 0;
          for (size_t i = 0; ok && i < sel.size(); i++) ok = evalExpr(sel[i], m) != 0;
          if (ok) { gSolverStats.guessHits++; newEvalEpoch(); storeSat(m); if (out) *out = m; return 1; }
        }
        m[(size_t)s->v] = old;
      }
      newEvalEpoch();
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  {
    std::vector<Z3_ast> as; bool ok = true;
    Z3_ast qa = liaB(q); ok = qa != nullptr;
    for (size_t i = 0; ok && i < sel.size(); i++) { Z3_ast a = liaB(sel[i]); if (a) as.push_back(a); else ok = false; }
    if (ok) {
      as.push_back(qa);
      for (auto y : syms) { int64_t tl, th; typeRange(y->w, tl, th); if (y->ranged) { tl = y->lo; th = y->hi; } as.push_back(Z3_mk_ge(Z, lia(y), num64(tl))); as.push_back(Z3_mk_le(Z, lia(y), num64(th))); }
      static Z3_solver sL = nullptr;
      if (!sL) {
        sL = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, sL);
        Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
        Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 2000);
        Z3_solver_set_params(Z, sL, p);
      }
      Z3_solver_push(Z, sL);
      for (auto a : as) Z3_solver_assert(Z, sL, a);
      Z3_lbool r = Z3_solver_check(Z, sL);
      int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
      if (res == 1) {
        Z3_model zm = Z3_solver_get_model(Z, sL); Z3_model_inc_ref(Z, zm);
        Model m = base;
        for (auto y : syms) {
          if (m.size() <= (size_t)y->v) m.resize((size_t)y->v + 1, 0);
          Z3_ast val; int64_t u = 0;
          if (Z3_model_eval(Z, zm, lia(y), true, &val)) Z3_get_numeral_int64(Z, val, &u);
          m[(size_t)y->v] = (uint64_t)u & (uint64_t)maskw(y->w);
        }
        Z3_model_dec_ref(Z, zm);
        newEvalEpoch();
        bool good = evalExpr(q, m) != 0;
        for (auto e : sel) good = good && evalExpr(e, m);
        newEvalEpoch();
        if (!good) { res = -1; fprintf(stderr, "symx: integer model does not satisfy the query\n"); }
        else { storeSat(m); if (out) *out = m; }
      } else if (res == 0 && gCache.size() < 400000) gCache.emplace(key, CacheEnt{0, {}});
      Z3_solver_pop(Z, sL, 1);
      if (res >= 0) {
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        gSolverStats.queries++; gSolverStats.seconds += dt; gSolverStats.maxSeconds = std::max(gSolverStats.maxSeconds, dt); gSolverStats.lia++;
        if (res) gSolverStats.sat++; else gSolverStats.unsat++;
        return res;
      }
    }
  }
  std::unordered_set<Expr*> fs; bool fp = hasFp(q, fs);
  for (auto e : sel) fp = fp || hasFp(e, fs);
  static Z3_solver sBv = nullptr;
  Z3_solver s;
  // Translate before pushing: with automatic reference counting, terms made
  // inside a scope die with it, and the translations are memoised.
  std::vector<Z3_ast> as;
  for (auto y : syms) rangeOf(y, as);
  for (auto e : sel) as.push_back(zbool(e));
  as.push_back(zbool(q));
  for (auto y : syms) zbv(y);
  if (fp) {
    static Z3_tactic tac = nullptr;
    if (!tac) { tac = Z3_mk_tactic(Z, "qffpbv"); Z3_tactic_inc_ref(Z, tac); }
    s = Z3_mk_solver_from_tactic(Z, tac); Z3_solver_inc_ref(Z, s);
  } else {
    if (!sBv) { sBv = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, sBv); }
    s = sBv; Z3_solver_push(Z, s);
  }
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), gSolverTimeoutMs);
  Z3_solver_set_params(Z, s, p);
  for (auto a : as) Z3_solver_assert(Z, s, a);
  Z3_lbool r = Z3_solver_check(Z, s);
  if (r == Z3_L_UNDEF && !fp) {
    // retry with the full QF_BV tactic
    Z3_solver_pop(Z, s, 1);
    Z3_tactic t = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, t);
    s = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, s); Z3_solver_set_params(Z, s, p);
    for (auto a : as) Z3_solver_assert(Z, s, a);
    r = Z3_solver_check(Z, s);
    fp = true;
  }
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    Z3_model zm = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, zm);
    Model m = base;
    for (auto y : syms) {
      if (m.size() <= (size_t)y->v) m.resize((size_t)y->v + 1, 0);
      Z3_ast val;
      uint64_t u = 0;
      if (Z3_model_eval(Z, zm, zbv(y), true, &val)) Z3_get_numeral_uint64(Z, val, &u);
      m[(size_t)y->v] = u;
    }
    Z3_model_dec_ref(Z, zm);
    newEvalEpoch();
    bool ok = evalExpr(q, m) != 0;
    for (auto e : sel) ok = ok && evalExpr(e, m);
    newEvalEpoch();
    if (!ok) { res = -1; fprintf(stderr, "symx: model does not satisfy the query (evaluator mismatch)\n"); }
    else { storeSat(m); if (out) *out = m; }
  } else if (res == 0) { if (gCache.size() < 400000) gCache.emplace(key, CacheEnt{0, {}}); }
  if (fp) Z3_solver_dec_ref(Z, s); else Z3_solver_pop(Z, s, 1);
  Z3_params_dec_ref(Z, p);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolverStats.queries++; gSolverStats.seconds += dt; gSolverStats.maxSeconds = std::max(gSolverStats.maxSeconds, dt);
  if (res == 1) gSolverStats.sat++; else if (res == 0) gSolverStats.unsat++; else gSolverStats.unknown++;
  if (!gDumpDir.empty() && (gSolverStats.queries % 97 == 1 || dt > 0.2)) {
    static int dn = 0;
    if (dn < 40) {
      char n[64]; snprintf(n, sizeof n, "/q%d_%d_%s.smt2", (int)0, dn++, res == 1 ? "sat" : res == 0 ? "unsat" : "unknown");
      std::ofstream(gDumpDir + n) << dumpQuery(pc, q);
    }
  }
  return res;
}

std::string exprStr(Expr* e, int depth) {
  static const char* nm[] = {"c", "s", "+", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "concat", "extract", "zext", "sext", "==", "<u", "<=u", "<", "<=", "ite", "f+", "f-", "f*", "f/", "fsqrt", "frint", "fext", "ftrunc", "si2f", "ui2f", "f2si", "f2ui", "f==", "f<", "f<=", "fnan"};
  if (e->k == KConst) { if (e->w <= 64) return std::to_string(sx64((uint64_t)e->v, e->w)); return "C128"; }
  if (e->k == KSym) return "s" + std::to_string((unsigned)e->v);
  if (depth == 0) return "...";
  std::string r = std::string("(") + nm[e->k];
  if (e->k == KExtract) r += "[" + std::to_string((unsigned)e->v) + "+" + std::to_string(e->w) + "]";
  for (Expr* x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x, depth - 1);
  return r + ")";
}
