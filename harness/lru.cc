// C01 (values and deletion), C02 (size and order), C03 (time) of the LRU cache:
// every sequence of operations up to a length, against a reference model.
#include "common.h"
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
#include <cmath>
#include <limits>
using namespace google::service_control_client;
#ifndef PROP
#define PROP 0
#endif
#define P1(c, m) do { if (PROP == 0 || PROP == 1) sx_assert(c, m); } while (0)
#define P2(c, m) do { if (PROP == 0 || PROP == 2) sx_assert(c, m); } while (0)
#define P3(c, m) do { if (PROP == 0 || PROP == 3) sx_assert(c, m); } while (0)
#define P33(c, m) do { if (PROP == 0 || PROP == 33) sx_assert(c, m); } while (0)

namespace {
struct Val { int id; };
struct Rec {           // the model's view of one inserted value
  Val* v; int key; int64_t units; int pins; bool cur, dead, going; int64_t stamp, last; bool listed;
  bool upd[3];         // options of the outstanding pins
};
const int MAXV = 16, MAXK = 10;
struct Model {
  Rec r[MAXV]; int n = 0;
  int64_t max = 0, total = 0; int64_t seq = 0, maxent = MAXV;
  bool over() { int t = 0; for (int i = 0; i < n; i++) t += r[i].cur; return total > max || t > maxent; }
  bool lru = true; bool nomore = false;
  int64_t idle = -1;
  int destroyed = 0;
  int cur(int k) { for (int i = 0; i < n; i++) if (r[i].cur && r[i].key == k) return i; return -1; }
};
Model* M;
struct Del {
  void operator()(Val* v) const {
    Rec& e = M->r[v->id];
    P1(e.v == v && !e.dead, "a value is destroyed once");
    P1(e.pins == 0, "a pinned value is not destroyed");
    if (e.cur && !e.going) {
      // evicted for space (nothing else is outstanding): the cache has to be over its limit, and this the oldest choice
      P2(M->over(), "an entry is evicted for space only while the cache is over its limit");
      for (int i = 0; i < M->n; i++)
        if (i != v->id && M->r[i].cur && M->r[i].pins == 0 && !M->r[i].going)
          P2(M->r[i].stamp >= e.stamp, "the entry evicted is the least recently used one");
      sx_cover("evicted");
    }
    M->total -= e.units;
    e.cur = false; e.dead = true; M->destroyed++;
    delete v;
  }
};
typedef SimpleLRUCacheWithDeleter<std::string, Val, Del, std::hash<std::string>, std::equal_to<std::string>> CacheBase;
struct Cache : CacheBase {  // with a limit on the number of entries as well
  int64_t maxent = MAXV;
  explicit Cache(int64_t n) : CacheBase(n) {}
  bool IsOverfull() const override { return Entries() > maxent; }
  mutable bool shown[MAXV]; mutable int nshown = 0; std::string* into = nullptr;
  void DebugIterator(const std::string& k, const Val* v, int pins, int64_t last, bool deferred, std::string* out) const override;
};
const char* kKeys[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"};
void Cache::DebugIterator(const std::string& k, const Val* v, int pins, int64_t last, bool deferred, std::string* out) const {
  int i = v->id;
  sx_assume(i >= 0 && i < M->n);
  Rec& e = M->r[i];
  P33(e.v == v && k == kKeys[e.key] && !e.dead && !shown[i], "a listing shows the values held, each once, with their keys");
  P33(pins == e.pins && deferred == !e.cur && (last == e.last || !e.cur), "a listing shows the pins, the time and whether a value is deferred");
  P33(out == into, "a listing goes where it is asked for");
  shown[i] = true; nshown++;
}

struct Run {
  Cache c; Model m;
  explicit Run(int64_t max) : c(max) { M = &m; m.max = max; }
  SimpleLRUCacheOptions opt(bool upd) { SimpleLRUCacheOptions o; o.set_update_eviction_order(upd); return o; }
  // model: entry i leaves the table by an explicit removal, replacement or expiry
  void gone(int i) { if (i >= 0) { if (m.r[i].pins == 0) m.r[i].going = true; else { m.r[i].cur = false; sx_cover("deferred"); } } }
  // everything marked as going must really be destroyed by now
  void settled() { for (int i = 0; i < m.n; i++) if (m.r[i].going) P1(m.r[i].dead, "a removed entry that is not pinned is destroyed at once"); }
  bool over(Rec& e) { return sx_clock() - e.last > m.idle; }
  void purge() {       // model of expiry
    if (m.idle < 0) return;
    for (int i = 0; i < m.n; i++) {
      Rec& e = m.r[i];
      if (e.cur && e.listed && over(e)) { gone(i); sx_cover("expired"); }
    }
  }
  void insert(int k, int64_t units, bool pinned) {
    Val* v = new Val{m.n};
    gone(m.cur(k));
    int i = m.n++;
    m.r[i] = Rec{v, k, units, 1, true, false, false, m.seq++, sx_clock(), !m.lru, {true, true, true}};
    m.total += units;
    if (pinned) { c.InsertPinned(kKeys[k], v, units); return; }
    Rec& e = m.r[i];
    e.pins = 0; e.listed = true;
    c.Insert(kKeys[k], v, units);
  }
  void release(int i, int slot) {
    Rec& e = m.r[i];
    bool upd = e.upd[slot];
    e.upd[slot] = e.upd[e.pins - 1];
    e.pins--;
    if (e.pins == 0) {
      if (!e.cur) e.going = true;
      if (m.lru && !e.listed) { e.stamp = m.seq++; e.last = sx_clock(); e.listed = true; }
    } else if (m.lru && upd) e.last = sx_clock();
    if (upd && (m.n + e.pins) & 1) c.Release(kKeys[e.key], e.v);
    else c.ReleaseWithOptions(kKeys[e.key], e.v, opt(upd));
    if (e.pins == 0 && !e.cur) P1(e.dead, "a removed value is destroyed with its last release");
  }
  void lookup(int k, bool upd) {
    purge();
    int i = m.cur(k);
    if (i >= 0 && m.r[i].going) i = -1;
    Val* v = upd && (m.n + k) & 1 ? c.Lookup(kKeys[k]) : c.LookupWithOptions(kKeys[k], opt(upd));
    if (i < 0) { P1(v == nullptr, "a lookup does not find what was removed"); P3(v == nullptr, "a lookup does not find an expired entry"); return; }
    Rec& e = m.r[i];
    P1(v == e.v, "a lookup finds the latest value of the key");
    P3(v == e.v, "a lookup finds an entry that has not expired");
    if (!v) return;
    P1(v->id == i, "the value found is intact");
    e.upd[e.pins++] = upd;
    if (m.lru && upd) e.listed = false;
    sx_cover("found");
  }
  void check() {
    int64_t cur = 0, def = 0, units = 0, pinned = 0, defu = 0; bool loose = false;
    for (int i = 0; i < m.n; i++) {
      Rec& e = m.r[i];
      if (e.dead) continue;
      units += e.units;
      if (e.cur) { cur++; if (e.pins) pinned += e.units; else loose = true; } else { def++; defu += e.units; }
    }
    P1(c.Entries() == cur, "the number of entries is right");
    P1(c.DeferredEntries() == def, "the number of deferred entries is right");
    P3(c.Entries() == cur, "exactly the expired entries are gone");
    P2(c.Size() == units, "the size is the sum of the units held");
    P2(c.PinnedSize() == pinned, "the pinned size is the sum of the pinned units");
    P2(c.DeferredSize() == defu, "the deferred size is the sum of the deferred units");
    if (loose) P2(c.Size() <= m.max && c.Entries() <= m.maxent, "nothing unpinned stays while the cache is over its limit");
    if (PROP == 0 || PROP == 1)
      for (int i = 0; i < m.n; i++) if (!m.r[i].dead) P1(c.StillInUse(kKeys[m.r[i].key], m.r[i].v), "a value that is held is still in use");
    sx_obs(c.Entries()); sx_obs(c.Size()); sx_obs(c.PinnedSize()); sx_obs(m.destroyed);
  }
  // what the cache says about its contents, all of it without any effect
  void inspect() {
    int64_t n = 0, left = 0; int oldest = -1;
    for (int i = 0; i < m.n; i++) if (m.r[i].cur) {
      left++;
      if (m.r[i].listed && (oldest < 0 || m.r[i].stamp < m.r[oldest].stamp)) oldest = i;
    }
    bool seen[MAXV] = {};
    Cache::const_iterator it = c.begin();
    while (it != c.end()) {
      int i = it->second->id;
      sx_assume(i >= 0 && i < m.n);
      Rec& e = m.r[i];
      P33(e.cur && !seen[i], "an iteration visits the entries of the cache, each once");
      P33(it->first == kKeys[e.key] && (*it).second == e.v, "an iteration shows keys with their values");
      P33(it.last_use_time() == e.last, "an iteration shows the time of the last use or of the insertion");
      seen[i] = true; n++;
      if (n & 1) { Cache::const_iterator at = it; P33(at == it, "a copy is at the same place"); ++it; P33(at != it && at->second == e.v, "a copy stays where it was"); } else ++it;
    }
    P33(n == left, "an iteration visits every entry");
    if (PROP == 0 || PROP == 33) {
      int held = 0;
      for (int i = 0; i < m.n; i++) { held += !m.r[i].dead; c.shown[i] = false; }
      std::string text; c.into = &text; c.nshown = 0;
      c.DebugOutput(&text);
      P33(c.nshown == held, "a listing shows every value held");
      if (held > left) sx_cover("listed-deferred");
    }
    int64_t age = c.AgeOfLRUItemInMicroseconds();
    P33(age == (oldest < 0 ? 0 : sx_clock() - m.r[oldest].last), "the age of the oldest entry is right");
    if (oldest >= 0) sx_cover("oldest");
    for (int k = 0; k < 3; k++) {
      int i = m.cur(k);
      int64_t t = m.lru ? c.GetLastUseTime(kKeys[k]) : c.GetInsertionTime(kKeys[k]);
      P33(t == (i < 0 ? -1 : m.r[i].last), "the time of the last use or of the insertion is right");
      bool any = false;
      for (int j = 0; j < m.n; j++) {
        if (m.r[j].dead) continue;
        any |= m.r[j].key == k;
        bool u = c.StillInUse(kKeys[k], m.r[j].v);
        P33(u == (m.r[j].key == k), "a value is in use under its own key only");
      }
      bool u = c.StillInUse(kKeys[k]);
      P33(u == any, "a key is in use while any of its values is held");
    }
    P33(c.MaxSize() == m.max, "the capacity is the one set");
  }
  void finish() {
    c.UpdateSize("absent", nullptr, 3);   // changes nothing
    for (int i = 0; i < m.n; i++) while (m.r[i].pins > 0) release(i, 0);
    check();
    for (int i = 0; i < m.n; i++) if (m.r[i].cur) m.r[i].going = true;
    c.Clear();
    P1(m.destroyed == m.n, "every value is destroyed");
    P1(c.Entries() == 0 && c.DeferredEntries() == 0, "a cleared cache is empty");
    P2(c.Size() == 0 && c.PinnedSize() == 0, "a cleared cache has no size");
    for (int k = 0; k < 2; k++) P1(c.Lookup(kKeys[k]) == nullptr, "a cleared cache finds nothing");
  }
};
// keys in canonical order: a new key is always the next unused one
int pick_key(int* used, int maxk) {
  int n = *used < maxk ? *used + 1 : maxk;
  int k = n == 1 ? 0 : sx_choose("key", n);
  if (k == *used) ++*used;
  return k;
}
}  // namespace

#ifdef THOROUGH
#define STEPS 6
#define TSTEPS 6
#define ISTEPS 6
#define OSTEPS 6
#else
#define STEPS 5
#define TSTEPS 5
#define ISTEPS 5
#define OSTEPS 5
#endif

// ---- no time limit: values, pins, sizes, order.  case = mode (LRU, age based) + 2 * first operation
SX_ENTRY(h_lru_ops) {
  int cs = sx_case();
  bool lru = (cs & 1) == 0;
  int first = cs >> 1;
  sx_set_clock(kStart);
  {
    int64_t max = sx_range("max", 0, 4);
    Run R(max);
    Model& m = R.m;
    if (!lru) { R.c.SetAgeBasedEviction(-1); m.lru = false; }
    int used = 0;
    for (int s = 0; s < STEPS; s++) {
      sx_set_clock(sx_clock() + 10);
      int op = s == 0 ? first : sx_choose("op", 11);
            switch (op) {
        case 0: case 1: { int k = pick_key(&used, 3); int64_t u = sx_range("units", 0, 3); R.insert(k, u, op == 1); break; }
        case 2: case 3: {
          int k = sx_choose("lkey", used + 1 < 3 ? used + 1 : 3);
          int i = m.cur(k);
          if (i >= 0 && m.r[i].pins >= 3) sx_assume(false);
          R.lookup(k, op == 2);
          break;
        }
        case 4: {
          int held[MAXV * 3], hs[MAXV * 3], nh = 0;
          for (int i = 0; i < m.n; i++) for (int p = 0; p < m.r[i].pins; p++) {
            bool dup = false;
            for (int q = 0; q < p; q++) dup |= m.r[i].upd[q] == m.r[i].upd[p];
            if (!dup) { held[nh] = i; hs[nh++] = p; }
          }
          if (!nh) sx_assume(false);
          int h = nh == 1 ? 0 : sx_choose("held", nh);
          R.release(held[h], hs[h]);
          break;
        }
        case 5: { int k = used == 1 ? 0 : sx_choose("rkey", used); R.gone(m.cur(k)); R.c.Remove(kKeys[k]); break; }
        case 6: for (int i = 0; i < m.n; i++) if (m.r[i].cur) R.gone(i); R.c.RemoveAll(); break;
        case 7: for (int i = 0; i < m.n; i++) if (m.r[i].cur && m.r[i].pins == 0) R.gone(i); R.c.RemoveUnpinned(); break;
        case 8: m.max = sx_range("max", 0, 4); R.c.SetMaxSize(m.max); break;
        case 9: case 10: {
          // UpdateSize of one live value, or (10) of the key
          int live[MAXV], nl = 0;
          for (int i = 0; i < m.n; i++) if (!m.r[i].dead && (op == 9 || m.r[i].cur)) live[nl++] = i;
          if (!nl) sx_assume(false);
          int i = live[nl == 1 ? 0 : sx_choose("live", nl)];
          int64_t u = sx_range("units", 0, 3);
          m.total += u - m.r[i].units; m.r[i].units = u;
          R.c.UpdateSize(kKeys[m.r[i].key], op == 9 ? m.r[i].v : nullptr, u);
          break;
        }
      }
      R.settled();
      R.check();
    }
    R.finish();
    sx_cover("end");
  }
  sx_check_leaks();
}

// ---- with a time limit
SX_ENTRY(h_lru_time) {
  int cs = sx_case();
  bool lru = (cs & 1) == 0;
  static const double kLimits[] = {2.5, 0, 1e-6, 1e300};
  double lim = kLimits[cs >> 1];
  sx_set_clock(kStart);
  {
    Run R(100);
    Model& m = R.m;
    m.lru = lru;
    if (lru) R.c.SetMaxIdleSeconds(lim); else R.c.SetAgeBasedEviction(lim);
    m.idle = lim > 1e12 ? INT64_MAX : (int64_t)(lim * 1000000);
    int used = 0;
    for (int s = 0; s < TSTEPS; s++) {
      if (s) advance_clock(10000000);
      int op = s == 0 ? sx_choose("first", 2) : sx_choose("op", 7);
      switch (op) {
        case 0: R.insert(pick_key(&used, 2), 1, false); break;
        case 1: R.insert(pick_key(&used, 2), 1, true); break;
        case 2: case 3: {
          int k = sx_choose("lkey", used);
          int i = m.cur(k);
          if (i >= 0 && m.r[i].pins >= 3) sx_assume(false);
          R.lookup(k, op == 2);
          break;
        }
        case 4: {
          int held[MAXV * 3], hs[MAXV * 3], nh = 0;
          for (int i = 0; i < m.n; i++) for (int p = 0; p < m.r[i].pins; p++) {
            bool dup = false;
            for (int q = 0; q < p; q++) dup |= m.r[i].upd[q] == m.r[i].upd[p];
            if (!dup) { held[nh] = i; hs[nh++] = p; }
          }
          if (!nh) sx_assume(false);
          int h = nh == 1 ? 0 : sx_choose("held", nh);
          R.release(held[h], hs[h]);
          break;
        }
        case 5: R.purge(); R.c.RemoveExpiredEntries(); break;
        case 6: {  // a new limit of the same kind
          int w = sx_choose("newlimit", 3);
          double nl = w == 0 ? 1.0 : w == 1 ? -1.0 : std::numeric_limits<double>::infinity();
          m.idle = w == 0 ? 1000000 : -1;
          R.purge();
          if (lru) R.c.SetMaxIdleSeconds(nl); else R.c.SetAgeBasedEviction(nl);
          break;
        }
      }
      R.settled();
      R.check();
    }
    R.finish();
    sx_cover("end");
  }
  sx_check_leaks();
}

// ---- every double as limit: an entry of any age is purged exactly when its age exceeds the limit
SX_ENTRY(h_lru_limit) {
  bool lru = sx_choose("mode", 2) == 0;
  double lim = sx_double("limit");
  sx_set_clock(kStart);
  {
    Run R(10);
    R.m.lru = lru;
    R.insert(0, 1, false);
    int64_t age = sx_range("age", 0, kClockMax - kStart);
    int order = sx_choose("order", 2);
    if (order == 0) { if (lru) R.c.SetMaxIdleSeconds(lim); else R.c.SetAgeBasedEviction(lim); }
    sx_set_clock(kStart + age);
    double us = lim * 1e6;
    R.m.idle = (lim != lim || us < 0) ? -1 : us >= 9223372036854775808.0 ? INT64_MAX : (int64_t)us;
    if (us >= 9223372036854775808.0) sx_cover("huge"); else if (lim >= 0) sx_cover("finite"); else sx_cover("negative");
    R.purge();
    if (order == 1) { if (lru) R.c.SetMaxIdleSeconds(lim); else R.c.SetAgeBasedEviction(lim); }
    else R.c.RemoveExpiredEntries();
    R.settled();
    R.check();
    R.m.idle = -1;
    R.finish();
  }
  sx_check_leaks();
}

// ---- inspection of the cache (C33).  case = mode
SX_ENTRY(h_lru_inspect) {
  bool lru = sx_case() == 0;
  sx_set_clock(kStart);
  {
    Run R(2);
    Model& m = R.m;
    m.lru = lru; m.max = 2;
    int timed = sx_choose("timed", 2);
    double lim = timed ? 2.5 : -1.0;
    if (lru) R.c.SetMaxIdleSeconds(lim); else R.c.SetAgeBasedEviction(lim);
    m.idle = timed ? 2500000 : -1;
    int used = 0;
    R.inspect();
    for (int s = 0; s < ISTEPS; s++) {
      if (s) advance_clock(10000000);
      int op = s == 0 ? sx_choose("first", 2) : sx_choose("op", 9);
      switch (op) {
        case 0: R.insert(pick_key(&used, 2), 1, false); break;
        case 1: R.insert(pick_key(&used, 2), 1, true); break;
        case 2: case 3: {
          int k = sx_choose("lkey", used);
          int i = m.cur(k);
          if (i >= 0 && m.r[i].pins >= 2) sx_assume(false);
          R.lookup(k, op == 2);
          break;
        }
        case 4: {
          int held[MAXV * 3], hs[MAXV * 3], nh = 0;
          for (int i = 0; i < m.n; i++) for (int p = 0; p < m.r[i].pins; p++) {
            bool dup = false;
            for (int q = 0; q < p; q++) dup |= m.r[i].upd[q] == m.r[i].upd[p];
            if (!dup) { held[nh] = i; hs[nh++] = p; }
          }
          if (!nh) sx_assume(false);
          int h = nh == 1 ? 0 : sx_choose("held", nh);
          R.release(held[h], hs[h]);
          break;
        }
        case 5: R.purge(); R.c.RemoveExpiredEntries(); break;
        case 6: { int k = sx_choose("rkey", used); R.gone(m.cur(k)); R.c.Remove(kKeys[k]); break; }
        case 7: case 8: {  // a lookup that releases by itself, looked into while it lasts
          int k = sx_choose("skey", used);
          bool upd = op == 7;
          R.purge();
          int i = m.cur(k);
          if (i >= 0 && m.r[i].going) i = -1;
          int replace = sx_choose("replace", 2);
          {
            SimpleLRUCacheOptions o = R.opt(upd);
            Cache::ScopedLookup look(&R.c, kKeys[k], o);
            P33(look.key() == kKeys[k] && look.options().update_eviction_order() == upd, "a scoped lookup knows what it looks up");
            P33(look.Found() == (i >= 0) && look.value() == (i >= 0 ? m.r[i].v : nullptr), "a scoped lookup finds what a lookup finds");
            R.settled();
            if (i >= 0) { m.r[i].upd[m.r[i].pins++] = upd; if (lru && upd) m.r[i].listed = false; }
            R.inspect();
            if (replace) { R.gone(m.cur(k)); R.c.Remove(kKeys[k]); R.settled(); R.inspect(); }
            if (i >= 0) {  // what its end does
              Rec& e = m.r[i];
              e.pins--;
              if (e.pins == 0) {
                if (!e.cur) e.going = true;
                if (lru && !e.listed) { e.stamp = m.seq++; e.last = sx_clock(); e.listed = true; }
              } else if (lru && upd && e.cur) e.last = sx_clock();
              sx_cover("scoped");
            }
          }
          break;
        }
      }
      R.settled();
      R.inspect();
    }
    R.finish();
    R.inspect();
    sx_cover("end");
  }
  sx_check_leaks();
}

// ---- the age of an entry, whatever it is
SX_ENTRY(h_lru_age) {
  bool lru = sx_choose("mode", 2) == 0;
  sx_set_clock(kStart);
  {
    Run R(10);
    R.m.lru = lru;
    R.m.max = 10;
    if (!lru) R.c.SetAgeBasedEviction(-1);
    R.insert(0, 1, false);
    int large = sx_choose("large", 2);
    int64_t age = large ? sx_range("age", 9223372036855, kClockMax - kStart) : sx_range("age", 0, 9223372036854);
    sx_set_clock(kStart + age);
    int64_t a = R.c.AgeOfLRUItemInMicroseconds();
    P33(a == age, "the age of the oldest entry is right, whatever it is");
    sx_cover("age");
    R.inspect();
    R.finish();
  }
  sx_check_leaks();
}

// ---- ten entries of any size, some pinned or removed while pinned, of which many leave at once.  case: mode
SX_ENTRY(h_lru_large) {
  bool lru = sx_case() == 0;
  sx_set_clock(kStart);
  {
    Run R(100);
    Model& m = R.m;
    if (!lru) { R.c.SetAgeBasedEviction(-1); m.lru = false; }
    int pinned = sx_choose("pinned", 10), touched = sx_choose("touched", 10), removed = sx_choose("removed", 11);
    for (int k = 0; k < 10; k++) { sx_set_clock(sx_clock() + 10); R.insert(k, k % 3 == 2 ? sx_range("units", 0, 3) : 1 + k % 2, k == pinned); R.settled(); }
    R.check();
    sx_set_clock(sx_clock() + 10);
    R.lookup(touched, true); R.release(m.cur(touched), m.r[m.cur(touched)].pins - 1); R.settled(); R.check();
    if (removed < 10) { R.gone(m.cur(removed)); R.c.Remove(kKeys[removed]); R.settled(); R.check(); }
    m.max = sx_range("max", 0, 24); R.c.SetMaxSize(m.max); R.settled(); R.check();
    sx_set_clock(sx_clock() + 10);
    R.insert(touched, 2, false); R.settled(); R.check();
    for (int k = 9; k >= 0; k--) { int i = m.cur(k); R.lookup(k, true); if (i >= 0) R.release(i, m.r[i].pins - 1); R.settled(); }
    R.check();
    m.max = sx_range("max", 0, 24); R.c.SetMaxSize(m.max); R.settled(); R.check();
    R.finish();
    sx_cover("many");
  }
  sx_check_leaks();
}

// ---- a cache that limits the number of entries as well
SX_ENTRY(h_lru_overfull) {
  bool lru = sx_case() == 0;
  sx_set_clock(kStart);
  {
    int64_t max = sx_range("max", 0, 4);
    int maxent = sx_choose("maxent", 3);
    Run R(max);
    Model& m = R.m;
    R.c.maxent = m.maxent = maxent;
    if (!lru) { R.c.SetAgeBasedEviction(-1); m.lru = false; }
    int used = 0;
    for (int s = 0; s < OSTEPS; s++) {
      sx_set_clock(sx_clock() + 10);
      int op = s == 0 ? sx_choose("first", 2) : sx_choose("op", 7);
      switch (op) {
        case 0: case 1: { int k = pick_key(&used, 3); int64_t u = sx_range("units", 0, 3); R.insert(k, u, op == 1); break; }
        case 2: case 3: {
          int k = sx_choose("lkey", used);
          int i = m.cur(k);
          if (i >= 0 && m.r[i].pins >= 2) sx_assume(false);
          R.lookup(k, op == 2);
          break;
        }
        case 4: {
          int held[MAXV * 3], hs[MAXV * 3], nh = 0;
          for (int i = 0; i < m.n; i++) for (int p = 0; p < m.r[i].pins; p++) {
            bool dup = false;
            for (int q = 0; q < p; q++) dup |= m.r[i].upd[q] == m.r[i].upd[p];
            if (!dup) { held[nh] = i; hs[nh++] = p; }
          }
          if (!nh) sx_assume(false);
          int h = nh == 1 ? 0 : sx_choose("held", nh);
          R.release(held[h], hs[h]);
          break;
        }
        case 5: { int k = sx_choose("rkey", used); R.gone(m.cur(k)); R.c.Remove(kKeys[k]); break; }
        case 6: m.max = sx_range("max", 0, 4); R.c.SetMaxSize(m.max); break;
      }
      R.settled();
      R.check();
    }
    R.finish();
    sx_cover("entries");
  }
  sx_check_leaks();
}
