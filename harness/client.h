// The world around a client: transports that complete in place, later or never
// while the client lives, a timer, callers; and reference models of the three
// caches that say what has to be sent, answered and counted.
#pragma once
#include "agg.h"
#include "include/service_control_client.h"
#ifndef PROP
#define PROP 0
#endif
#define PX(n, c, m) do { bool c_ = (c); if (PROP == 0 || PROP == n) sx_assert(c_, m); } while (0)
// matters to two of the properties
#define PY(n, k, c, m) do { bool c_ = (c); if (PROP == 0 || PROP == n || PROP == k) sx_assert(c_, m); } while (0)
namespace {
const int CHECK = 0, QUOTA = 1, REPORT = 2;
const int kUnavailable = 14;
enum { PLAIN, SYNC, OWN, NULLT };            // API variants of a call
enum { PASS, DENY, FAIL, LATER };            // what the transport does
const int kKeys = 4;

AllocateQuotaRequest quota_request(int key, int64_t amount) {
  AllocateQuotaRequest r;
  r.set_service_name(kSvc); r.set_service_config_id("mine");
  QuotaOperation* o = r.mutable_allocate_operation();
  o->set_method_name(key & 1 ? "q2" : "q"); o->set_consumer_id(key & 2 ? "d" : "c");
  put_int(o->add_quota_metrics(), "m", amount);
  return r;
}
int quota_key(const AllocateQuotaRequest& r, int64_t* amount) {
  const QuotaOperation& o = r.allocate_operation();
  if (o.quota_metrics_size() != 1 || o.quota_metrics(0).metric_values_size() != 1 || o.quota_metrics(0).metric_name() != "m") return -1;
  *amount = o.quota_metrics(0).metric_values(0).int64_value();
  int k = (o.method_name() == "q2" ? 1 : 0) + (o.consumer_id() == "d" ? 2 : 0);
  if (o.method_name() != (k & 1 ? "q2" : "q") || o.consumer_id() != (k & 2 ? "d" : "c")) return -1;
  return k;
}
void add_operation(ReportRequest* r, int key, int64_t amount) {
  Operation* o = r->add_operations();
  o->set_operation_name(key & 1 ? "p2" : "p"); o->set_consumer_id(key & 2 ? "d" : "c");
  put_int(o->add_metric_value_sets(), "m", amount);
}
int report_key(const Operation& o, int64_t* amount) {
  if (o.metric_value_sets_size() != 1 || o.metric_value_sets(0).metric_values_size() != 1 || o.metric_value_sets(0).metric_name() != "m") return -1;
  *amount = o.metric_value_sets(0).metric_values(0).int64_value();
  int k = (o.operation_name() == "p2" ? 1 : 0) + (o.consumer_id() == "d" ? 2 : 0);
  if (o.operation_name() != (k & 1 ? "p2" : "p") || o.consumer_id() != (k & 2 ? "d" : "c")) return -1;
  return k;
}

struct Options {
  int check_entries = 0, check_flush_ms = 1000, check_exp_ms = INT_MAX;
  int quota_entries = 0, quota_refresh_ms = 1000, quota_exp_ms = INT_MAX;
  int report_entries = 0, report_flush_ms = 1000;
  bool timer = true;
};
struct Call {
  int kind, key, variant; int64_t amount;
  int done = 0, code = -1, sent = 0; bool to_send = false, finished = false;
  CheckResponse cr; AllocateQuotaResponse qr;      // what the caller got
  // The caller's own objects: they are gone as soon as the call completes.
  std::unique_ptr<CheckRequest> creq; std::unique_ptr<CheckResponse> crsp;
  std::unique_ptr<AllocateQuotaRequest> qreq; std::unique_ptr<AllocateQuotaResponse> qrsp;
  std::unique_ptr<ReportRequest> rreq; std::unique_ptr<ReportResponse> rrsp;
  void drop() {
    if (crsp) cr = *crsp;
    if (qrsp) qr = *qrsp;
    creq.reset(); crsp.reset(); qreq.reset(); qrsp.reset(); rreq.reset(); rrsp.reset();
  }
};
struct Tx { int kind; bool flush; int call; int key; int64_t amount; CheckResponse* cr; AllocateQuotaResponse* qr; TransportDoneFunc done; bool open; };
struct CheckElem { bool live = false, deny = false; int resp = -1; int64_t last = 0, used = 0, seq = 0, sum = 0; int n = 0; };
struct QuotaElem { bool live = false, out = false, deny = false; int resp = -1; int64_t inserted = 0, seq = 0, last = 0; int n = 0; int64_t sum = 0, first = 0; };

struct World;
struct Timer : PeriodicTimer { World* w; explicit Timer(World* w) : w(w) {} ~Timer() override; void Stop() override; };

struct World {
  Options o;
  std::unique_ptr<ServiceControlClient> c;
  std::vector<std::unique_ptr<Call>> calls;
  std::vector<Tx> txs;
  int cur = -1;                               // the call that is being made
  bool open = true;                           // sends are allowed
  int nresp = 0;
  int64_t n_calls[3] = {}, n_own[3] = {}, n_flush[3] = {}, n_ops = 0;
  // timer
  int timers = 0, stops = 0, timers_gone = 0, interval = -1; std::function<void()> tick_func;
  // models
  CheckElem ce[6]; int64_t cdue[6]; bool chas[6] = {};
  QuotaElem qe[kKeys]; int64_t qdue[kKeys]; bool qhas[kKeys] = {};
  int64_t rin[kKeys] = {}, rout[kKeys] = {}, rops[kKeys] = {};   // amounts and operations reported and flushed
  int64_t seq = 0;
  int nested = 0, max_nested = 0;
  // behaviour
  bool simple_flush = true;                   // flush requests complete ok in place or later, by choice
  int64_t slow_us = 0;                        // time that may pass inside a transport
  std::function<void(World&, int)> inside;    // called inside every transport (kind)

  explicit World(const Options& opt, bool start = true) : o(opt) { if (start) create(); }
  ServiceControlClientOptions options() {
    ServiceControlClientOptions so(CheckAggregationOptions(o.check_entries, o.check_flush_ms, o.check_exp_ms),
                                   QuotaAggregationOptions(o.quota_entries, o.quota_refresh_ms, o.quota_exp_ms),
                                   ReportAggregationOptions(o.report_entries, o.report_flush_ms));
    so.check_transport = check_transport(false);
    so.quota_transport = quota_transport(false);
    so.report_transport = report_transport(false);
    if (o.timer) so.periodic_timer = [this](int ms, std::function<void()> f) { timers++; interval = ms; tick_func = f; return std::unique_ptr<PeriodicTimer>(new Timer(this)); };
    return so;
  }
  void create() { ServiceControlClientOptions so = options(); c = CreateServiceControlClient(kSvc, kCfg, so); }
  TransportCheckFunc check_transport(bool own) { return [this, own](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) { on_check(r, p, d, own); }; }
  TransportQuotaFunc quota_transport(bool own) { return [this, own](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) { on_quota(r, p, d, own); }; }
  TransportReportFunc report_transport(bool own) { return [this, own](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) { on_report(r, p, d, own); }; }

  // --- transports -------------------------------------------------------
  void sent_own(int kind, bool own, bool same) {
    PY(25, 27, open, "nothing is sent after the client is gone");
    PX(25, cur >= 0 && calls[cur]->kind == kind, "a request of a caller is sent during its call");
    if (cur < 0) return;
    Call& k = *calls[cur];
    k.sent++; n_own[kind]++;
    PX(25, k.sent == 1, "a call goes to the transport at most once");
    PX(25, k.to_send, "only a call that is not answered by the cache goes to the transport");
    PX(25, same, "the transport gets the caller's own request");
    PX(25, own == (k.variant == OWN), "a call uses its own transport if it has one");
    sx_cover("sent");
  }
  void sent_flush(int kind, bool own) {
    PX(27, open, "nothing is sent after the client is gone");
    PX(31, open, "nothing is sent after the client is gone");
    n_flush[kind]++;
    PX(25, !own, "flushed requests use the transport of the client");
    sx_cover("flushed");
  }
  int outcome(bool own_call) {
    bool sync = own_call && cur >= 0 && calls[cur]->variant == SYNC;
    return sx_choose("outcome", sync ? 3 : 4);
  }
  void inside_transport(int kind) {
    if (slow_us) advance_clock(slow_us, "slow");
    if (inside) inside(*this, kind);
  }
  void on_check(const CheckRequest& r, CheckResponse* p, TransportDoneFunc d, bool own) {
    nested++;
    int k = r.has_operation() ? check_key(r.operation()) : -1;
    int64_t amount = k >= 0 ? r.operation().metric_value_sets(0).metric_values(0).int64_value() : 0;
    bool flush = r.service_config_id() == kCfg;
    Tx t{CHECK, flush, flush ? -1 : cur, k, amount, p, nullptr, d, true};
    if (flush) {
      sent_flush(CHECK, own);
      PY(25, 31, k >= 0 && chas[k], "a flushed check stands for an entry that left the cache");
      PX(27, k >= 0 && chas[k], "a flushed check stands for an entry that left the cache");
      PX(25, r.service_name() == kSvc, "a flushed check carries the service name");
      if (k >= 0 && chas[k]) { PX(27, amount == cdue[k], "a flushed check carries the usage of its entry"); PX(31, amount == cdue[k], "a flushed check carries the usage of its entry"); chas[k] = false; }
    } else {
      bool same = cur >= 0 && k == calls[cur]->key && amount == calls[cur]->amount && r.service_name() == kSvc && r.service_config_id() == "mine";
      sent_own(CHECK, own, same);
    }
    inside_transport(CHECK);
    int i = (int)txs.size(); txs.push_back(t);
    int w = flush && simple_flush ? (sx_choose("flushed", 2) ? LATER : PASS) : outcome(!flush);
    if (w != LATER) finish(i, w);
    nested--;
  }
  void on_quota(const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d, bool own) {
    nested++;
    int64_t amount = 0;
    int k = quota_key(r, &amount);
    bool flush = o.quota_entries > 0;
    Tx t{QUOTA, flush, flush ? -1 : cur, k, amount, nullptr, p, d, true};
    if (flush) {
      sent_flush(QUOTA, own);
      PY(25, 31, k >= 0 && qhas[k], "an allocation is sent when one is due");
      PX(27, k >= 0 && qhas[k], "an allocation is sent when one is due");
      PX(25, r.service_name() == kSvc, "an allocation carries the service name");
      PY(29, 26, k >= 0 && qhas[k], "an allocation is sent when one is due");
      if (k >= 0 && qhas[k]) { PX(31, amount == qdue[k], "an allocation carries the amounts of its key"); PX(29, amount == qdue[k], "an allocation carries the amounts of its key"); qhas[k] = false; }
    } else {
      bool same = cur >= 0 && k == calls[cur]->key && amount == calls[cur]->amount && r.service_name() == kSvc && r.service_config_id() == "mine";
      sent_own(QUOTA, own, same);
    }
    inside_transport(QUOTA);
    int i = (int)txs.size(); txs.push_back(t);
    int w = outcome(!flush);
    if (w != LATER) finish(i, w);
    nested--;
  }
  void on_report(const ReportRequest& r, ReportResponse* p, TransportDoneFunc d, bool own) {
    nested++;
    bool flush = r.service_config_id() == kCfg;
    Tx t{REPORT, flush, flush ? -1 : cur, -1, 0, nullptr, nullptr, d, true};
    n_ops += r.operations_size();
    if (flush) {
      sent_flush(REPORT, own);
      PX(25, r.service_name() == kSvc, "a flushed report carries the service name");
      for (int i = 0; i < r.operations_size(); i++) {
        int64_t amount = 0;
        int k = report_key(r.operations(i), &amount);
        PY(27, 31, k >= 0 && rops[k] > 0, "a flushed operation stands for operations that were reported");
        PX(29, k >= 0 && rops[k] > 0, "a flushed operation stands for operations that were reported");
        if (k >= 0) { rout[k] += amount; rops[k]--; }
      }
    } else {
      bool same = false;
      if (cur >= 0 && r.service_name() == kSvc && r.service_config_id() == "mine" && r.operations_size() >= 1) {
        int64_t amount = 0;
        int k = report_key(r.operations(0), &amount);
        same = k == calls[cur]->key && amount == calls[cur]->amount;
      }
      sent_own(REPORT, own, same);
    }
    inside_transport(REPORT);
    int i = (int)txs.size(); txs.push_back(t);
    int w = flush && simple_flush ? (sx_choose("flushed", 2) ? LATER : PASS) : outcome(!flush);
    if (w == DENY) w = PASS;
    if (w != LATER) finish(i, w);
    nested--;
  }
  // The server answers request i.
  void finish(int i, int w) {
    Tx t = txs[i];
    txs[i].open = false; txs[i].done = nullptr;
    int id = nresp++;
    bool deny = w != PASS;   // a request that fails may leave anything in the response: here, a denial
    if (t.kind == CHECK) *t.cr = check_response(id, deny);
    if (t.kind == QUOTA) *t.qr = quota_response(id, deny);
    bool ok = w != FAIL;
    if (t.kind == CHECK && !t.flush && ok) check_cached(t.key, id, deny);
    if (t.kind == QUOTA) { if (ok) quota_cached(t.key, id, deny); else quota_cached(t.key, -1, false); }
    int code = ok ? OK : sx_range32("status", 1, 16);   // any of the codes
    Call* k = t.call >= 0 ? calls[t.call].get() : nullptr;
    if (k) PX(25, k->done == 0, "a call is not completed before its request");
    sx_cover(ok ? w == DENY ? "denied" : "passed" : "failed");
    TransportDoneFunc d = t.done; t.done = nullptr;
    d(ok ? Status() : Status((StatusCode)code, "e"));
    d = nullptr;
    if (k && k->variant == SYNC) { k->finished = true; k->code = code; }
    else if (k) {
      PY(25, 26, k->done == 1 && k->code == code, "a call completes once with the status of its transport");
      PX(31, k->done == 1, "a call completes once");
      PX(27, k->done == 1, "a call completes once");
      k->finished = true;
    }
    if (k && t.kind == CHECK) PX(25, is_check_response(k->crsp ? *k->crsp : k->cr, id, deny), "the caller gets the response of its transport");
    if (k && t.kind == QUOTA) PX(25, is_quota_response(k->qrsp ? *k->qrsp : k->qr, id, deny), "the caller gets the response of its transport");
    // what completing in place made due was sent
    settle();
  }
  // --- model: checks ------------------------------------------------------
  void check_leave(int k) { CheckElem& x = ce[k]; if (x.n) { chas[k] = true; cdue[k] = x.sum; } x = CheckElem(); }
  void check_purge() {
    if (o.check_exp_ms == INT_MAX) return;
    for (int k = 0; k < 6; k++) if (ce[k].live && sx_clock() - ce[k].used > (int64_t)o.check_exp_ms * 1000) { check_leave(k); sx_cover("check-expired"); }
  }
  void check_cached(int k, int id, bool deny) {
    if (o.check_entries <= 0) return;
    check_purge();
    CheckElem& x = ce[k];
    if (!x.live) {
      int n = 0, old = -1;
      for (int j = 0; j < 6; j++) if (j != k && ce[j].live) { n++; if (old < 0 || ce[j].seq < ce[old].seq) old = j; }
      if (n >= o.check_entries) check_leave(old);
      x.live = true;
    }
    x.used = sx_clock(); x.seq = ++seq; x.resp = id; x.deny = deny; x.last = sx_clock();
  }
  // --- model: quota -------------------------------------------------------
  void quota_send(int k) {
    QuotaElem& x = qe[k];
    qhas[k] = true; qdue[k] = x.n ? x.sum : x.first;
    x.out = true; x.last = sx_clock(); x.n = 0; x.sum = 0;
  }
  void quota_purge() {
    bool seen[kKeys] = {};
    for (int i = 0; i < kKeys; i++) {
      int k = -1;
      for (int j = 0; j < kKeys; j++) if (qe[j].live && !seen[j] && (k < 0 || qe[j].seq < qe[k].seq)) k = j;
      if (k < 0) break;
      seen[k] = true;
      QuotaElem& x = qe[k];
      if (!(sx_clock() - x.inserted > (int64_t)o.quota_refresh_ms * 1000)) continue;
      if (o.quota_exp_ms != INT_MAX && sx_clock() - x.last >= (int64_t)o.quota_exp_ms * 1000) { x = QuotaElem(); continue; }
      x.inserted = sx_clock(); x.seq = ++seq;
      if (x.n && !x.out) { quota_send(k); sx_cover("aged"); }
    }
  }
  void quota_cached(int k, int id, bool deny) {
    if (o.quota_entries <= 0 || !open) return;
    quota_purge();
    QuotaElem& x = qe[k];
    if (!x.live) return;
    x.out = false; x.resp = id; x.deny = deny;
    if (deny) { x.n = 0; x.sum = 0; }
  }
  // --- calls --------------------------------------------------------------
  void settle() {
    if (nested) return;
    for (int k = 0; k < 6; k++) { PY(27, 31, !chas[k], "the usage of an entry that left the cache is sent"); PX(29, !chas[k], "the usage of an entry that left the cache is sent"); }
    for (int k = 0; k < kKeys; k++) { PY(31, 26, !qhas[k], "an allocation that is due is sent"); PX(29, !qhas[k], "an allocation that is due is sent"); }
  }
  ServiceControlClient::DoneCallback done_of(int i) { return [this, i](const Status& s) { calls[i]->done++; calls[i]->code = code_of(s); calls[i]->drop(); if (on_done) on_done(*this, i); }; }
  std::function<void(World&, int)> on_done;
  Call& begin(int kind, int key, int variant, int64_t amount) {
    calls.emplace_back(new Call);
    Call& k = *calls.back();
    k.kind = kind; k.key = key; k.variant = variant; k.amount = amount;
    n_calls[kind]++;
    return k;
  }
  // the call is over: want >= 0 is the status of a call completed by the client itself
  void end(int i, int want) {
    Call& k = *calls[i];
    sx_obs(k.done); sx_obs(k.code);
    if (want >= 0) {
      PX(25, k.sent == 0, "a call that is answered by the client is not sent");
      PX(25, k.done == 1 && k.code == want, "a call that is answered by the client completes at once with that answer");
      k.finished = true;
    } else PX(25, k.sent == 1, "a call that the cache cannot answer is sent");
    PX(25, k.done == (k.finished ? 1 : 0), "a call completes exactly when it is answered");
    settle();
    stats();
  }
  // important: 0 low, 1 high; invalid: other service
  void check(int key, int variant, bool important = false, bool invalid = false) {
    int64_t amount = sx_range("amount", 0, 1000000);
    int i = (int)calls.size();
    Call& k = begin(CHECK, key, variant, amount);
    k.crsp.reset(new CheckResponse(check_response(20, true)));
    k.creq.reset(new CheckRequest(check_request(key, amount)));
    CheckRequest& r = *k.creq;
    r.set_service_config_id("mine");
    if (important) r.mutable_operation()->set_importance(Operation::HIGH);
    if (invalid) r.set_service_name("svd");
    int want = -1, resp = -1; bool deny = false;
    if (variant == NULLT || invalid) want = INVALID;
    else if (!important && o.check_entries > 0) {
      check_purge();
      CheckElem& x = ce[key];
      if (x.live) {
        x.used = sx_clock(); x.seq = ++seq;
        if (!x.deny) { x.n++; x.sum += amount; }
        if (sx_clock() - x.last >= (int64_t)o.check_flush_ms * 1000) { x.last = sx_clock(); sx_cover("refresh"); }
        else { want = OK; resp = x.resp; deny = x.deny; sx_cover("hit"); }
      }
    }
    k.to_send = want < 0;
    int outer = cur; cur = i;
    if (variant == PLAIN) c->Check(r, k.crsp.get(), done_of(i));
    else if (variant == SYNC) { Status s = c->Check(r, k.crsp.get()); sync_done(k, s); }
    else c->Check(r, k.crsp.get(), done_of(i), variant == OWN ? check_transport(true) : TransportCheckFunc());
    cur = outer;
    if (want == OK) PY(25, 26, is_check_response(k.cr, resp, deny), "a hit is answered with the latest answer of the server");
    if (want == OK && deny) sx_cover("hit-deny");
    end(i, want);
  }
  void sync_done(Call& k, const Status& s) {
    k.done++;
    if (k.finished) PY(25, 26, k.code == code_of(s), "a blocking call returns the status of its transport");
    k.code = code_of(s);
    k.drop();
  }
  void quota(int key, int variant, bool invalid = false) {
    int64_t amount = sx_range("amount", 0, 1000000);
    int i = (int)calls.size();
    Call& k = begin(QUOTA, key, variant, amount);
    k.qrsp.reset(new AllocateQuotaResponse(quota_response(20, true)));
    k.qreq.reset(new AllocateQuotaRequest(quota_request(key, amount)));
    AllocateQuotaRequest& r = *k.qreq;
    if (invalid) r.set_service_name("svd");
    int want = -1, resp = -1; bool deny = false;
    if (variant == NULLT || invalid) want = INVALID;
    else if (o.quota_entries > 0) {
      want = OK;
      quota_purge();
      QuotaElem& x = qe[key];
      if (!x.live) {
        int n = 0, old = -1;
        for (int j = 0; j < kKeys; j++) if (qe[j].live) { n++; if (old < 0 || qe[j].seq < qe[old].seq) old = j; }
        if (n >= o.quota_entries) { if (qe[old].n) { qhas[old] = true; qdue[old] = qe[old].sum; } qe[old] = QuotaElem(); sx_cover("quota-evicted"); }
        x = QuotaElem(); x.live = true; x.first = amount; x.inserted = sx_clock(); x.seq = ++seq;
        quota_send(key);
      } else {
        resp = x.resp; deny = x.deny;
        if (!x.out && sx_clock() - x.last >= (int64_t)o.quota_refresh_ms * 1000) { quota_send(key); sx_cover("quota-refresh"); }
        if (!x.deny) { x.n++; x.sum += amount; }
        sx_cover(deny ? "quota-deny" : "quota-hit");
      }
    }
    k.to_send = want < 0;
    int outer = cur; cur = i;
    if (variant == PLAIN) c->Quota(r, k.qrsp.get(), done_of(i));
    else if (variant == SYNC) { Status s = c->Quota(r, k.qrsp.get()); sync_done(k, s); }
    else c->Quota(r, k.qrsp.get(), done_of(i), variant == OWN ? quota_transport(true) : TransportQuotaFunc());
    cur = outer;
    if (want == OK) PY(25, 26, is_quota_response(k.qr, resp, deny), "a quota call is answered with the latest verdict of the server");
    end(i, want);
  }
  // key2 < 0: one operation
  void report(int key, int key2, int variant, bool important = false, bool invalid = false) {
    int64_t amount = sx_range("amount", 0, 1000000);
    int i = (int)calls.size();
    Call& k = begin(REPORT, key, variant, amount);
    k.rrsp.reset(new ReportResponse);
    k.rreq.reset(new ReportRequest);
    ReportRequest& r = *k.rreq;
    r.set_service_name(invalid ? "svd" : kSvc); r.set_service_config_id("mine");
    add_operation(&r, key, amount);
    if (key2 >= 0) add_operation(&r, key2, amount);
    if (important) r.mutable_operations(r.operations_size() - 1)->set_importance(Operation::HIGH);
    int want = -1;
    if (variant == NULLT || invalid) want = INVALID;
    else if (!important && o.report_entries > 0) {
      want = OK;
      int ks[2] = {key, key2};
      for (int q : ks) if (q >= 0) { rin[q] += amount; rops[q]++; }
      sx_cover("absorbed");
    }
    k.to_send = want < 0;
    int outer = cur; cur = i;
    if (variant == PLAIN) c->Report(r, k.rrsp.get(), done_of(i));
    else if (variant == SYNC) { Status s = c->Report(r, k.rrsp.get()); sync_done(k, s); }
    else c->Report(r, k.rrsp.get(), done_of(i), variant == OWN ? report_transport(true) : TransportReportFunc());
    cur = outer;
    end(i, want);
  }
  void tick() {
    if (!tick_func) return;
    if (open) { if (o.check_entries > 0) check_purge(); if (o.quota_entries > 0) quota_purge(); }
    tick_func();
    settle();
    sx_cover("tick");
  }
  void stats() {
    if (nested || !c) return;
    Statistics s;
    memset(&s, 0x5a, sizeof s);
    Status st = c->GetStatistics(&s);
    PX(28, st.ok(), "the statistics are available");
    PX(28, (int64_t)s.total_called_checks == n_calls[CHECK] && (int64_t)s.total_called_quotas == n_calls[QUOTA] && (int64_t)s.total_called_reports == n_calls[REPORT], "the calls are counted");
    PX(28, (int64_t)s.send_checks_in_flight == n_own[CHECK] && (int64_t)s.send_quotas_in_flight == n_own[QUOTA] && (int64_t)s.send_reports_in_flight == n_own[REPORT], "the requests sent for calls are counted");
    PX(28, (int64_t)s.send_checks_by_flush == n_flush[CHECK] && (int64_t)s.send_quotas_by_flush == n_flush[QUOTA] && (int64_t)s.send_reports_by_flush == n_flush[REPORT], "the requests sent by flushes are counted");
    PX(28, (int64_t)s.send_report_operations == n_ops, "the operations sent are counted");
  }
  int pending() { int n = 0; for (auto& t : txs) n += t.open; return n; }
  // the i-th open request
  int nth(int i) { for (size_t j = 0; j < txs.size(); j++) if (txs[j].open && i-- == 0) return (int)j; return -1; }
  void destroy() {
    for (int k = 0; k < 6; k++) if (ce[k].live) check_leave(k);
    for (int k = 0; k < kKeys; k++) qe[k] = QuotaElem();
    c.reset();
    PX(27, stops == timers, "destroying the client stops its timer");
    for (int k = 0; k < kKeys; k++) {
      PX(27, rin[k] == rout[k], "everything reported is sent before destruction finishes");
      PX(31, rin[k] == rout[k], "everything reported is sent before destruction finishes");
      PX(25, rin[k] == rout[k], "everything reported is sent before destruction finishes");
    }
    settle();
    open = false;
    sx_obs(n_flush[0]); sx_obs(n_flush[1]); sx_obs(n_flush[2]); sx_obs(n_ops);
  }
  // Whatever is still under way completes after the client is gone.
  void aftermath() {
    if (pending()) {
      int w = sx_choose("late", 3);
      for (size_t i = 0; i < txs.size(); i++) if (txs[i].open) { finish((int)i, w == DENY && txs[i].kind == REPORT ? PASS : w); sx_cover("late"); }
    }
    tick();
    for (auto& k : calls) { PY(25, 27, k->done == 1 && k->finished, "every call completes exactly once"); }
    PX(27, timers_gone == timers && stops == timers, "the timer is stopped once and released");
  }
};
Timer::~Timer() { w->timers_gone++; }
void Timer::Stop() { w->stops++; PX(27, w->timers_gone == 0, "a timer is stopped while it exists"); }
}  // namespace
