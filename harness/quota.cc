// C10 (at most one allocation outstanding), C11 (amounts), C12 (verdicts), C13
// (capacity, expiry, termination): every history of calls of the quota
// aggregator up to a length, with arbitrary time steps.
#include "agg.h"
#ifndef PROP
#define PROP 0
#endif
#define PX(n, c, m) do { bool c_ = (c); if (PROP == 0 || PROP == n) sx_assert(c_, m); } while (0)
#define P10(c, m) PX(10, c, m)
#define P11(c, m) PX(11, c, m)
#define P12(c, m) PX(12, c, m)
#define P13(c, m) PX(13, c, m)
#ifdef THOROUGH
#define EXTRA 1
#else
#define EXTRA 0
#endif
namespace {
struct Config { int entries, refresh_ms, exp_ms; int nkeys; int keys[14]; int steps; bool odd; bool full; };   // odd, full: one invalid call, one full flush
const Config kConfig[] = {
  {1, 1000, 5000, 2, {0, 1}, 5, false},
  {2, 1000, 8000, 3, {1, 2, 3}, 4, false},
  {100, 1000, 2500, 2, {1, 0}, 5, false},
  {100, 0, 3000, 2, {0, 2}, 4, true},
  {100, 2000, 500, 2, {3, 0}, 5, true},       // expires before it is refreshed
  {100, INT_MAX, INT_MAX, 2, {4, 0}, 5, true},
  {1, 1000, 5000, 2, {0, 1}, 4, false, true},   // 4 more calls after a full flush in the middle
  {100, 1000, 2500, 2, {1, 0}, 4, false, true},
};
const int K = 14;
AllocateQuotaRequest request(int key, int64_t a, int64_t b, bool swap = false) {
  AllocateQuotaRequest r;
  r.set_service_name(kSvc); r.set_service_config_id("mine");
  QuotaOperation* o = r.mutable_allocate_operation();
  o->set_method_name(key > 4 ? tag("many", key) : string(key == 2 ? "q2" : "q")); o->set_consumer_id(key == 3 ? "d" : "c");
  o->set_quota_mode(QuotaOperation::BEST_EFFORT);
  if (key == 1 && swap) put_int(o->add_quota_metrics(), "w", b);
  put_int(o->add_quota_metrics(), key == 4 ? "n" : "m", a);
  if (key == 1 && !swap) put_int(o->add_quota_metrics(), "w", b);
  return r;
}
// key and amounts of an allocation, -1 if it is none of ours
int parse(const AllocateQuotaRequest& r, int64_t* a, int64_t* b) {
  const QuotaOperation& o = r.allocate_operation();
  int n = o.quota_metrics_size(), at[2] = {0, 1};
  if (n < 1 || n > 2) return -1;
  for (int i = 0; i < n; i++) if (o.quota_metrics(i).metric_values_size() != 1) return -1;
  if (n == 2 && o.quota_metrics(0).metric_name() == "w") { at[0] = 1; at[1] = 0; }
  for (int m = 5; m < K; m++) if (n == 1 && o.method_name() == tag("many", m) && o.consumer_id() == "c" && o.quota_metrics(0).metric_name() == "m") { *a = o.quota_metrics(0).metric_values(0).int64_value(); *b = 0; return m; }
  int k = n == 2 ? 1 : o.method_name() == "q2" ? 2 : o.consumer_id() == "d" ? 3 : o.quota_metrics(0).metric_name() == "n" ? 4 : 0;
  if (o.method_name() != (k == 2 ? "q2" : "q") || o.consumer_id() != (k == 3 ? "d" : "c") || o.quota_metrics(at[0]).metric_name() != (k == 4 ? "n" : "m")) return -1;
  if (n == 2 && o.quota_metrics(at[1]).metric_name() != "w") return -1;
  *a = o.quota_metrics(at[0]).metric_values(0).int64_value();
  *b = n == 2 ? o.quota_metrics(at[1]).metric_values(0).int64_value() : 0;
  return k;
}
struct Elem {
  bool live = false, out = false, deny = false; int resp = -1;
  int64_t inserted = 0, seq = 0, last = 0;      // last: the last allocation sent
  int n = 0; int64_t a = 0, b = 0;              // accumulated
  int64_t a0 = 0, b0 = 0;                       // the first request
};
struct Run {
  const Config& cf; std::unique_ptr<QuotaAggregator> q;
  Elem e[K]; int64_t refresh_us, exp_us, seq = 0; int nresp = 0, nreq = 0;
  int sends[K] = {}; int64_t sa[K], sb[K]; bool normal[K], raw[K], own[K]; int total = 0; int64_t seen = 0;
  bool ever[K] = {};
  explicit Run(const Config& c) : cf(c) {
    q = CreateAllocateQuotaAggregator(kSvc, kCfg, QuotaAggregationOptions(c.entries, c.refresh_ms, c.exp_ms));
    refresh_us = (int64_t)c.refresh_ms * 1000; exp_us = (int64_t)c.exp_ms * 1000;
    q->SetFlushCallback([this](const AllocateQuotaRequest& r) {
      int64_t a = 0, b = 0;
      int k = parse(r, &a, &b);
      P11(k >= 0, "an allocation has the identity and the metrics of the calls it stands for");
      P11(r.service_name() == kSvc, "an allocation carries the service name");
      if (k < 0) return;
      sends[k]++; total++; sa[k] = a; sb[k] = b;
      normal[k] = r.allocate_operation().quota_mode() == QuotaOperation::NORMAL; raw[k] = r.service_config_id() == "mine"; own[k] = r.service_config_id() == kCfg;
      seen += a + 3 * b + 1000003 * k;
    });
  }
  // one call begins: what ages out of the cache or is evicted from it is decided here
  bool gone_n[K], dropped[K], evicted[K];
  void begin() { for (int k = 0; k < K; k++) { sends[k] = 0; dropped[k] = evicted[k] = false; } total = 0; }
  void purge() {
    for (int i = 0; i < cf.nkeys; i++) {     // oldest first
      int k = -1;
      for (int j = 0; j < cf.nkeys; j++) { int c = cf.keys[j]; if (e[c].live && !aged[c] && (k < 0 || e[c].seq < e[k].seq)) k = c; }
      if (k < 0) break;
      aged[k] = true;
      Elem& x = e[k];
      if (!(sx_clock() - x.inserted > refresh_us)) continue;
      if (sx_clock() - x.last >= exp_us) { x = Elem(); dropped[k] = true; sx_cover("expired"); }
      else { x.inserted = sx_clock(); x.seq = ++seq; }
    }
    for (int k = 0; k < K; k++) aged[k] = false;
  }
  bool aged[K] = {};
  // what was sent for a key that is in the cache: checks the amounts, updates the model
  void account(int k) {
    Elem& x = e[k];
    P10(sends[k] <= 1, "one call sends at most one allocation for a key");
    if (!sends[k]) return;
    P10(!x.out, "no allocation is sent while one is outstanding");
    sent_amounts(k);
    x.out = true; x.last = sx_clock(); x.n = 0; x.a = x.b = 0;
    sx_cover("refreshed");
  }
  void sent_amounts(int k) {
    Elem& x = e[k];
    if (x.n) { P11(sa[k] == x.a && sb[k] == x.b, "an allocation carries exactly what was accumulated"); P11(own[k], "an allocation of accumulated amounts carries the configured names"); sx_cover("accumulated"); }
    else P11(sa[k] == x.a0 && sb[k] == x.b0, "an allocation with nothing accumulated repeats the first request");
    if (x.deny) { P12(normal[k], "the refresh of a denied key asks in normal mode"); sx_cover("normal"); }
    else P12(!normal[k], "the refresh of a granted key keeps the mode of the calls");
  }
  void others(int except) {
    for (int i = 0; i < cf.nkeys; i++) {
      int k = cf.keys[i];
      if (k == except) continue;
      if (evicted[k]) continue;
      if (dropped[k] || !e[k].live) { P11(sends[k] == 0, "nothing is sent for a key that is not in the cache"); continue; }
      if (sends[k]) P10(e[k].n > 0, "only a call of its own sends an allocation for a key that accumulated nothing");
      account(k);
    }
  }
  void obs() { sx_obs(total); sx_obs(seen); }
  void quota(int k) {
    begin();
    int64_t a = sx_range("amount", 0, 1000000), b = 0;
    if (k == 1) b = sx_range("amount2", 0, 1000000);
    AllocateQuotaRequest r = request(k, a, b, nreq++ & 1);   // the order of the metrics does not matter
    AllocateQuotaResponse got = quota_response(20, true);
    purge();
    int victim = -1;
    bool fresh = !e[k].live;
    if (fresh) {
      int n = 0, old = -1;
      for (int i = 0; i < cf.nkeys; i++) { int c = cf.keys[i]; if (e[c].live) { n++; if (old < 0 || e[c].seq < e[old].seq) old = c; } }
      if (n >= cf.entries) { victim = old; evicted[old] = true; sx_cover("evicted"); }
    }
    bool due = !fresh && !e[k].out && sx_clock() - e[k].last >= refresh_us;
    Status st = q->Quota(r, &got);
    obs(); sx_obs(code_of(st)); sx_obs(got.allocate_errors_size());
    P12(st.ok(), "a valid quota call is answered at once");
    P13(st.ok(), "a valid quota call is answered at once");
    if (victim >= 0) {
      Elem& x = e[victim];
      bool expired = sx_clock() - x.last >= exp_us;
      int want = x.n > 0 && !expired ? 1 : 0;
      P11(sends[victim] == want, "an entry evicted for space sends what it accumulated");
      if (sends[victim] == 1 && want) { P11(sa[victim] == x.a && sb[victim] == x.b, "an entry evicted for space sends exactly what it accumulated"); sx_cover("evicted-amounts"); }
      x = Elem();
    }
    others(k);
    if (fresh) {
      P10(sends[k] == 1, "the first call for a key sends one allocation");
      P13(sends[k] == 1, "a key that was dropped or evicted starts afresh");
      if (sends[k]) { P10(sa[k] == a && sb[k] == b && raw[k], "the first allocation is the request itself"); P11(sa[k] == a && sb[k] == b, "the first allocation is the request itself"); P12(!normal[k], "the first allocation asks in the mode of the call"); }
      P12(is_quota_response(got, -1, false), "the first call is answered positively");
      Elem& x = e[k]; x = Elem();
      x.live = true; x.out = true; x.inserted = x.last = sx_clock(); x.seq = ++seq; x.a0 = a; x.b0 = b;
      sx_cover(ever[k] ? "again" : "first"); ever[k] = true;
      return;
    }
    Elem& x = e[k];
    if (due) P10(sends[k] == 1, "a call after the refresh interval sends one allocation");
    if (!due && sends[k]) P10(x.n > 0, "an allocation is sent early only for what aged with accumulated amounts");
    account(k);
    P12(is_quota_response(got, x.resp, x.deny), "the answer is the latest response for the key");
    if (!x.deny) { x.n++; x.a += a; x.b += b; } else sx_cover("denied");
  }
  void cache(int k, bool deny) {
    begin(); purge();
    int id = nresp++;
    Status st = q->CacheResponse(request(k, sx_range("amount", 0, 1000000), 1, nreq & 1), quota_response(id, deny));
    obs();
    P12(st.ok(), "a response can be cached");
    others(-1);
    Elem& x = e[k];
    if (x.live) { x.out = false; x.resp = id; x.deny = deny; if (deny) { x.n = 0; x.a = x.b = 0; } }
  }
  void flush() {
    begin(); purge();
    Status st = q->Flush();
    obs();
    P13(st.ok(), "a flush succeeds");
    others(-1);
  }
  void full() {
    begin();
    Status st = q->FlushAll();
    obs();
    P13(st.ok() && total == 0, "a full flush sends nothing");
    P11(total == 0, "a full flush sends nothing");
    for (int k = 0; k < K; k++) e[k] = Elem();
  }
  void invalid(int kind) {
    begin();
    AllocateQuotaRequest r = request(cf.keys[0], 5, 6);
    if (kind == 0) r.set_service_name("svd"); else if (kind == 1) r.clear_allocate_operation(); else r.set_service_name("");
    AllocateQuotaResponse got;
    Status st = q->Quota(r, &got);
    sx_obs(code_of(st));
    P12(code_of(st) == INVALID, "an invalid quota call is rejected");
    P12(total == 0 && is_quota_response(got, -1, false), "an invalid quota call touches nothing");
    sx_cover("invalid");
  }
};
int pick(const Config& cf, int* used) {
  int n = *used < cf.nkeys ? *used + 1 : cf.nkeys;
  int i = n == 1 ? 0 : sx_choose("key", n);
  if (i == *used) ++*used;
  return cf.keys[i];
}
}  // namespace

// case: configuration
SX_ENTRY(h_quota) {
  const Config& cf = kConfig[sx_case()];
  sx_set_clock(kStart);
  {
    Run R(cf);
    int used = 0; bool odd = !cf.odd;
    if (cf.full) { R.quota(cf.keys[0]); if (sx_bool("accumulate")) R.quota(cf.keys[0]); R.full(); sx_cover("restart"); }
    R.quota(pick(cf, &used));
    for (int s = 1; s < cf.steps + EXTRA; s++) {
      advance_clock(10000000);
      switch (sx_choose("op", odd ? 4 : 5)) {
        case 0: R.quota(pick(cf, &used)); break;
        case 1: R.cache(pick(cf, &used), false); break;
        case 2: R.cache(pick(cf, &used), true); break;
        case 3: R.flush(); break;
        case 4: odd = true; R.invalid(sx_choose("kind", 3)); break;
      }
    }
    R.full();
    int last = cf.keys[0];
    R.quota(last);                     // the cache is empty now: the key is new
    P13(R.q->GetNextFlushInterval() == cf.refresh_ms, "flushes are asked for at the refresh interval");
    sx_cover("end");
  }
  sx_check_leaks();
}

// Ten keys, six of which fit: many entries that age or are evicted at once.  case: an entry left without answer or not
SX_ENTRY(h_quota_large) {
  static const Config many = {9, 1000, 5000, 14, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, 0, false};
  sx_set_clock(kStart);
  {
    Run R(many);
    for (int i = 0; i < 9; i++) { R.quota(i); sx_set_clock(sx_clock() + 1000); }
    int deny = sx_choose("deny", 9), out = sx_case() ? sx_choose("out", 9) : -1, idle = sx_choose("idle", sx_case() ? 4 : 9);
    for (int i = 8; i >= 0; i--) if (i != out) R.cache(i, i == deny);
    for (int i = 0; i < 9; i++) if (i != idle) R.quota(i);
    advance_clock(10000000);
    R.flush();
    for (int i = 0; i < 9; i += 2) R.cache(i, false);
    for (int i = 9; i < 13; i++) R.quota(i);
    advance_clock(3000000);
    R.cache(12, false);
    for (int i = 13; i >= 0; i -= 3) R.quota(i);
    R.flush();
    R.full();
    sx_cover("many");
  }
  sx_check_leaks();
}

// Any content of a response comes back; what counts as a denial is the presence of errors alone.
SX_ENTRY(h_quota_response) {
  sx_set_clock(kStart);
  {
    int sent = 0; int64_t asked = 0; bool normal = false;
    std::unique_ptr<QuotaAggregator> q = CreateAllocateQuotaAggregator(kSvc, kCfg, QuotaAggregationOptions(10, 1000, 5000));
    q->SetFlushCallback([&](const AllocateQuotaRequest& r) { int64_t b; sent++; int k = parse(r, &asked, &b); P11(k == 0, "an allocation has the identity of its calls"); normal = r.allocate_operation().quota_mode() == QuotaOperation::NORMAL; });
    AllocateQuotaResponse w, got;
    string id; size_t n = sx_choose("id", 3); for (size_t i = 0; i < n; i++) id += (char)sx_range32("byte", 0, 127);
    w.set_operation_id(id);
    int64_t granted = sx_i64("granted"); int code[2];
    if (sx_bool("metrics")) put_int(w.add_quota_metrics(), "m", granted);
    int errors = sx_choose("errors", 3);
    for (int i = 0; i < errors; i++) { code[i] = sx_range32("code", INT_MIN, INT_MAX); QuotaError* e = w.add_allocate_errors(); e->set_code((QuotaError::Code)code[i]); if (i) e->set_description(id); else e->set_subject(id); }
    Status st = q->Quota(request(0, 3, 0), &got);
    P12(st.ok() && sent == 1, "the first call asks for quota and is granted");
    st = q->CacheResponse(request(0, 3, 0), w);
    P12(st.ok(), "a response can be cached");
    for (int round = 0; round < 2; round++) {
      got = quota_response(20, true);
      if (round) sx_set_clock(kStart + 1500000);
      st = q->Quota(request(0, 4, 0), &got);
      P12(st.ok(), "a valid quota call is answered at once");
      P12(got.operation_id() == id && got.service_config_id().empty(), "the names in the answer are those of the server");
      P12(got.quota_metrics_size() == w.quota_metrics_size() && (!w.quota_metrics_size() || (got.quota_metrics(0).metric_name() == "m" && got.quota_metrics(0).metric_values_size() == 1 && got.quota_metrics(0).metric_values(0).int64_value() == granted)), "the answer has the quota metrics of the server");
      P12(got.allocate_errors_size() == errors, "the answer has the errors of the server");
      if (got.allocate_errors_size() == errors) for (int i = 0; i < errors; i++) P12(((int)got.allocate_errors(i).code() == code[i]) & (got.allocate_errors(i).description() == (i ? id : string())) & (got.allocate_errors(i).subject() == (i ? string() : id)), "the answer has the errors of the server");
    }
    P10(sent == 2, "a later call asks again");
    P11(asked == (errors ? 3 : 4), "what was accumulated is asked for, after a denial the first amount");
    P12(normal == (errors != 0), "a denied key asks in normal mode");
    sx_obs(sent); sx_obs(asked); sx_cover("content");
  }
  sx_check_leaks();
}

// Caching disabled.
SX_ENTRY(h_quota_off) {
  static const Config off[] = {{0, 1000, 3000, 1, {0}}, {-1, 1000, 3000, 1, {0}}};
  sx_set_clock(kStart);
  {
    Run R(off[sx_choose("entries", 2)]);
    for (int s = 0; s < 4; s++) {
      advance_clock(10000000);
      R.begin();
      switch (sx_choose("op", 4)) {
        case 0: {
          AllocateQuotaResponse got;
          Status st = R.q->Quota(request(0, 1, 2), &got);
          sx_obs(code_of(st));
          P12(code_of(st) == NOT_FOUND, "with caching disabled a call is left to the caller");
          break;
        }
        case 1: { Status st = R.q->CacheResponse(request(0, 1, 2), quota_response(1, sx_bool("deny"))); P12(st.ok(), "a response can be cached"); break; }
        case 2: R.flush(); break;
        case 3: R.invalid(sx_choose("kind", 3)); break;
      }
      P10(R.total == 0, "without a cache nothing is sent");
    }
    Status st = R.q->FlushAll();
    P13(st.ok(), "a full flush succeeds");
    P13(R.q->GetNextFlushInterval() == -1, "no flush is asked for without a cache");
    sx_cover("disabled");
  }
  sx_check_leaks();
}
