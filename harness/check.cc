// C04 (what is answered from the cache), C05 (when), C06 (what is reported
// about it): every history of calls of the check aggregator up to a length,
// with arbitrary time steps, against a reference model.
#include "agg.h"
#ifndef PROP
#define PROP 0
#endif
#define P4(c, m) do { if (PROP == 0 || PROP == 4) sx_assert(c, m); } while (0)
#define P5(c, m) do { if (PROP == 0 || PROP == 5 || (PROP == 4 && odd)) sx_assert(c, m); } while (0)
#define P6(c, m) do { if (PROP == 0 || PROP == 6 || (PROP == 4 && odd)) sx_assert(c, m); } while (0)
#ifdef THOROUGH
#define STEPS 6
#else
#define STEPS 5
#endif
namespace {
struct Config { int entries, flush_ms, exp_ms; int nkeys; int keys[12]; };
const Config kConfig[] = {
  {1, 1000, 3000, 2, {0, 1}},
  {2, 1000, 3000, 3, {1, 2, 0}},
  {100, 0, 1, 2, {3, 0}},          // every check is forwarded; entries live 1 ms
  {100, 2000, 500, 2, {0, 4}},     // expiration is raised to flush interval + 1 ms
  {100, 500, INT_MAX, 2, {5, 0}},
  {100, INT_MAX, 500, 2, {0, 1}},  // never refreshed, never expires
  {1, 800, 1700, 2, {6, 4}},       // two metrics, in either order
  {1, 700, 900, 2, {7, 0}},        // no metrics at all
};
const int kConfigs = sizeof(kConfig) / sizeof(kConfig[0]);
struct Elem { bool live = false; int resp = 0; bool deny = false; int64_t last = 0, used = 0, seq = 0, sum = 0; int n = 0; };
struct Sent { int key; int64_t sum, sum2; };
const int K = 16;

struct Run {
  const Config& cf; std::unique_ptr<CheckAggregator> a;
  Elem e[K]; int64_t flush_us, exp_us, seq = 0;
  int latest[K]; bool latest_deny[K];      // most recent response per key, cached or not
  std::vector<Sent> sent; std::vector<int> due_key; std::vector<int64_t> due_sum; std::vector<int> due_n; int nreq = 0;
  int nresp = 0; bool odd = false; bool shut = false;
  explicit Run(const Config& c) : cf(c) {
    CheckAggregationOptions o(c.entries, c.flush_ms, c.exp_ms);
    a = CreateCheckAggregator(kSvc, kCfg, o, std::shared_ptr<MetricKindMap>());
    flush_us = (int64_t)c.flush_ms * 1000;
    exp_us = (int64_t)(c.exp_ms > c.flush_ms || c.flush_ms == INT_MAX ? c.exp_ms : c.flush_ms + 1) * 1000;
    if (c.flush_ms == INT_MAX) exp_us = INT_MAX * (int64_t)1000;
    for (int i = 0; i < K; i++) latest[i] = -1;
    a->SetFlushCallback([this](const CheckRequest& r) {
      P6(r.service_name() == kSvc && r.service_config_id() == kCfg, "a flushed check carries the configured names");
      int k = r.has_operation() ? check_key(r.operation()) : -1;
      P6(k >= 0, "a flushed check has the identity and metrics of the checks it stands for");
      if (k < 0) return;
      if (k == 7) { sent.push_back({k, 0, 0}); return; }
      int m = k == 6 && r.operation().metric_value_sets(0).metric_name() == "n" ? 1 : 0;
      sent.push_back({k, r.operation().metric_value_sets(m).metric_values(0).int64_value(), k == 6 ? r.operation().metric_value_sets(1 - m).metric_values(0).int64_value() : 0});
    });
  }
  void leave(Elem& x, int k) {
    if (x.n) { due_key.push_back(k); due_sum.push_back(x.sum); due_n.push_back(x.n); }
    x = Elem();
  }
  void purge() {
    for (int i = 0; i < cf.nkeys; i++) {
      Elem& x = e[cf.keys[i]];
      if (x.live && sx_clock() - x.used > exp_us) { leave(x, cf.keys[i]); sx_cover("expired"); }
    }
  }
  void touch(Elem& x) { x.used = sx_clock(); x.seq = ++seq; }
  // Everything that had to be flushed by the last call, and nothing else, was.
  void settle() {
    sx_obs(sent.size()); { int64_t ks = 0, ss = 0; for (auto& s : sent) { ks += 1 + s.key * s.key; ss += s.sum + 5 * s.sum2; } sx_obs(ks); sx_obs(ss); }
    P6(sent.size() == due_key.size(), "as many checks are flushed as entries with usage left the cache");
    if (sent.size() == due_key.size())
      for (size_t i = 0; i < due_key.size(); i++) {
        int hits = 0; bool right = false;
        for (auto& s : sent) if (s.key == due_key[i]) { hits++; right = (s.sum == (s.key == 7 ? 0 : due_sum[i])) & (s.sum2 == (s.key == 6 ? due_sum[i] + due_n[i] : 0)); }
        P6(hits == 1, "every entry with usage is flushed once");
        P6(right, "what is flushed adds up to the checks answered");
      }
    if (!due_key.empty()) sx_cover("flushed");
    sent.clear(); due_key.clear(); due_sum.clear(); due_n.clear();
  }
  void check(int k) {
    int64_t amount = sx_range("amount", 0, 1000000);
    CheckRequest r = check_request(k, amount, nreq++ & 1);
    CheckResponse got = check_response(20, true);   // whatever was there before is overwritten
    int want = NOT_FOUND;
    bool hit = false;
    if (cf.entries > 0) {
      purge();
      Elem& x = e[k];
      if (x.live) {
        touch(x);
        if (!x.deny) { x.sum += amount; x.n++; }
        if (sx_clock() - x.last >= flush_us) { x.last = sx_clock(); sx_cover("refresh"); }
        else { want = OK; hit = true; sx_cover(x.deny ? "denied" : "passed"); }
      }
    }
    Status st = a->Check(r, &got);
    sx_obs(code_of(st));
    P4(code_of(st) == OK || code_of(st) == NOT_FOUND, "a valid check is answered or left to the caller");
    P5(code_of(st) == want, "a check is answered from the cache exactly while the cached answer is fresh");
    if (code_of(st) == OK) {
      P4(cf.entries > 0, "with caching disabled nothing is answered");
      P4(latest[k] >= 0, "only what was answered by the server can be answered from the cache");
      if (latest[k] >= 0) P4(is_check_response(got, latest[k], latest_deny[k]), "the answer is the latest response to the same request");
      sx_obs(got.check_errors_size());
    }
  }
  void cache(int k, bool deny) {
    int id = nresp++;
    CheckRequest r = check_request(k, sx_range("amount", 0, 1000000), nreq & 1);
    // the answer to an important check is an answer for the others of its kind
    r.mutable_operation()->set_importance((Operation::Importance)sx_range32("importance", 0, 7));
    if (cf.entries > 0) {
      purge();
      Elem& x = e[k];
      if (!x.live) {
        x.live = true; touch(x);
        int n = 0, old = -1;
        for (int i = 0; i < cf.nkeys; i++) { int q = cf.keys[i]; if (e[q].live) { n++; if (old < 0 || e[q].seq < e[old].seq) old = q; } }
        if (n > cf.entries) { leave(e[old], old); sx_cover("evicted"); }
      } else touch(x);
      x.resp = id; x.deny = deny; x.last = sx_clock();
    }
    latest[k] = id; latest_deny[k] = deny;
    Status st = a->CacheResponse(r, check_response(id, deny));
    P4(st.ok(), "a response can be cached");
  }
  void invalid(int kind, int k) {
    CheckRequest r = check_request(k, 7);
    int want = INVALID;
    if (kind == 0) r.set_service_name("svd"); else if (kind == 1) r.clear_operation(); else if (kind == 2) r.set_service_name("");
    else { r.mutable_operation()->set_importance(kind == 3 ? Operation::HIGH : (Operation::Importance)sx_range32("importance", 1, 7)); want = NOT_FOUND; }
    CheckResponse got;
    Status st = a->Check(r, &got);
    odd = true;
    P4(code_of(st) == want, kind < 3 ? "an invalid check is rejected" : "an important check is left to the caller");
    P4(got.check_errors_size() == 0 && got.operation_id().empty(), "a check that is not answered gets no response");
    sx_cover(kind < 3 ? "invalid" : "important");
  }
  void flush() { if (cf.entries > 0) purge(); bool ok = a->Flush().ok(); P5(ok, "a flush succeeds"); }
  void flush_all() {
    for (int i = 0; i < cf.nkeys; i++) if (e[cf.keys[i]].live) leave(e[cf.keys[i]], cf.keys[i]);
    bool ok = a->FlushAll().ok(); P6(ok, "a full flush succeeds");
  }
  int pick(int* used) {
    int n = *used < cf.nkeys ? *used + 1 : cf.nkeys;
    int i = n == 1 ? 0 : sx_choose("key", n);
    if (i == *used) ++*used;
    return cf.keys[i];
  }
};
}  // namespace

// case: configuration * 2 + first response is a denial
SX_ENTRY(h_check) {
  if (sx_case() == 4) kCfg = "";
  const Config& cf = kConfig[sx_case() / 2];
  sx_set_clock(kStart);
  {
    Run R(cf);
    bool& odd = R.odd;
    int used = 0;
    R.cache(R.pick(&used), sx_case() & 1);
    R.settle();
    for (int s = 1; s < STEPS; s++) {
      advance_clock(10000000);
      int op = sx_choose("op", R.odd ? 5 : 6);
      switch (op) {
        case 0: R.check(R.pick(&used)); break;
        case 1: R.cache(R.pick(&used), false); break;
        case 2: R.cache(R.pick(&used), true); break;
        case 3: R.flush(); break;
        case 4: R.flush_all(); break;
        case 5: R.invalid(sx_choose("kind", 5), cf.keys[0]); break;
      }
      R.settle();
    }
    R.flush_all();
    R.settle();
    P5(R.a->GetNextFlushInterval() == R.exp_us / 1000, "flushes are asked for at the expiration time");
    sx_cover("end");
  }
  sx_check_leaks();
}

// Twelve keys, nine of which fit: many entries that leave at once.
SX_ENTRY(h_check_large) {
  static const Config many = {9, 1000, 3000, 12, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}};
  sx_set_clock(kStart);
  {
    Run R(many);
    bool& odd = R.odd;
    int deny = sx_choose("deny", 12), again = sx_choose("again", 12), start = sx_choose("start", 4);
    for (int i = 0; i < 12; i++) { R.cache(i, i == deny); sx_set_clock(sx_clock() + 1000); R.settle(); }
    for (int i = 0; i < 12; i++) { R.check((start + 5 * i) % 12); R.settle(); }
    advance_clock(4000000);
    R.cache(again, false); R.settle();
    for (int i = 0; i < 12; i++) { R.check((start + 7 * i) % 12); R.settle(); }
    R.flush(); R.settle();
    advance_clock(4000000);
    R.flush(); R.settle();
    R.flush_all(); R.settle();
    P5(R.sent.empty(), "nothing is left after a full flush");
    sx_cover("many");
  }
  sx_check_leaks();
}

// Any content of a response comes back; what counts as a denial is the presence of errors alone.
SX_ENTRY(h_check_response) {
  sx_set_clock(kStart);
  {
    bool odd = true; int flushed = 0;
    std::unique_ptr<CheckAggregator> a = CreateCheckAggregator(kSvc, kCfg, CheckAggregationOptions(10, 1000, 3000), std::shared_ptr<MetricKindMap>());
    a->SetFlushCallback([&](const CheckRequest& r) { flushed++; });
    CheckResponse w;
    string id; size_t n = sx_choose("id", 3); for (size_t i = 0; i < n; i++) id += (char)sx_range32("byte", 0, 127);
    w.set_operation_id(id);
    int64_t project = sx_i64("project"); int code[2];
    if (sx_bool("info")) w.mutable_check_info()->mutable_consumer_info()->set_project_number(project);
    int errors = sx_choose("errors", 3);
    for (int i = 0; i < errors; i++) { code[i] = sx_range32("code", INT_MIN, INT_MAX); CheckError* e = w.add_check_errors(); e->set_code((CheckError::Code)code[i]); if (i) e->set_detail(id); }
    CheckRequest r = check_request(0, 3);
    Status st = a->CacheResponse(r, w);
    P4(st.ok(), "a response can be cached");
    for (int round = 0; round < 2; round++) {
      CheckResponse got = check_response(20, true);
      st = a->Check(r, &got);
      P4(st.ok(), "a fresh answer is served");
      if (!st.ok()) return;
      P4(got.operation_id() == id && got.service_config_id().empty() && got.service_rollout_id().empty(), "the names in the answer are those of the server");
      P4(got.has_check_info() == w.has_check_info() && (!got.has_check_info() || got.check_info().consumer_info().project_number() == project), "the check info is that of the server");
      P4(got.check_errors_size() == errors, "the answer has the errors of the server");
      if (got.check_errors_size() == errors) for (int i = 0; i < errors; i++) P4(((int)got.check_errors(i).code() == code[i]) & (got.check_errors(i).detail() == (i ? id : string())), "the answer has the errors of the server");
    }
    bool ok = a->FlushAll().ok();
    P6(ok && flushed == (errors ? 0 : 1), "checks answered with a pass are reported, others are not");
    sx_obs(flushed); sx_cover("content");
  }
  sx_check_leaks();
}

// Caching disabled.
SX_ENTRY(h_check_off) {
  static const Config off[] = {{0, 1000, 3000, 1, {0}}, {-1, 1000, 3000, 1, {0}}};
  sx_set_clock(kStart);
  {
    Run R(off[sx_choose("entries", 2)]);
    bool& odd = R.odd;
    for (int s = 0; s < 4; s++) {
      advance_clock(10000000);
      switch (sx_choose("op", 5)) {
        case 0: R.check(0); break;
        case 1: R.cache(0, sx_bool("deny")); break;
        case 2: R.flush(); break;
        case 3: R.flush_all(); break;
        case 4: R.invalid(sx_choose("kind", 5), 0); break;
      }
      R.settle();
    }
    P5(R.a->GetNextFlushInterval() == -1, "no flush is asked for without a cache");
    sx_cover("disabled");
  }
  sx_check_leaks();
}

// The options keep the expiration behind the flush interval, for all values.
SX_ENTRY(h_check_options) {
  int n = sx_range32("entries", INT_MIN, INT_MAX), f = sx_range32("flush", INT_MIN, INT_MAX), x = sx_range32("expiration", INT_MIN, INT_MAX);
  CheckAggregationOptions o(n, f, x);
  bool odd = false;
  P5(o.num_entries == n && o.flush_interval_ms == f, "the options are kept");
  P5(o.expiration_ms > f || f == INT_MAX, "the expiration time is longer than the flush interval");
  P5(o.expiration_ms == (x > f || (x == f && f == INT_MAX) ? x : f < INT_MAX ? f + 1 : INT_MAX), "the expiration time is as configured or just longer than the flush interval");
  CheckAggregationOptions d;
  P5(d.num_entries > 0 && d.expiration_ms > d.flush_interval_ms, "the default options are consistent");
  QuotaAggregationOptions q(n, f, x); ReportAggregationOptions r(n, f);
  P5(q.num_entries == n && q.refresh_interval_ms == f && q.expiration_interval_ms == x && r.num_entries == n && r.flush_interval_ms == f, "the options are kept");
  sx_obs(o.expiration_ms);
  sx_cover("options");
}
