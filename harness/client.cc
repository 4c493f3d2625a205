// C25 (completion), C26 (failures), C27 (destruction), C28 (statistics), C29
// (timer) and C31 (completions in place): every history of calls of a client up
// to a length against transports that do anything they may.
#include "client.h"
#ifdef THOROUGH
#define EXTRA 1
#else
#define EXTRA 0
#endif
namespace {
int pick(int* used, int nkeys, const int* keys) {
  int n = *used < nkeys ? *used + 1 : nkeys;
  int i = n == 1 ? 0 : sx_choose("key", n);
  if (i == *used) ++*used;
  return keys[i];
}
// Completes one of the requests under way (the oldest or the youngest).
void complete_one(World& w) {
  int n = w.pending();
  if (n == 0) { sx_assume(false); return; }
  int i = n == 1 ? 0 : sx_choose("which", 2) ? n - 1 : 0;
  int t = w.nth(i);
  bool flush = w.txs[t].flush && w.txs[t].kind != QUOTA;
  int o = w.txs[t].kind == REPORT ? (sx_choose("answer", 2) ? FAIL : PASS) : flush ? (sx_choose("answer", 2) ? FAIL : PASS) : sx_choose("answer", 3);
  w.finish(t, o);
  w.stats();
}
const int kCheckKeys[] = {0, 1};
}  // namespace

// case: capacity of the cache, without (4 calls) and with (3 calls) one unusual call
SX_ENTRY(h_client_check) {
  sx_set_clock(kStart);
  {
    static const int caps[] = {1, 100, 0};
    Options o; o.check_entries = caps[sx_case() % 3];
    o.timer = sx_case() != 4;
    World w(o);
    int used = 0; bool odd = sx_case() < 3;   // no unusual call
    for (int s = 0; s < (sx_case() < 3 ? 5 : 4) + EXTRA; s++) {
      if (s) advance_clock(3000000);
      switch (sx_choose("op", odd ? 2 : 3)) {
        case 0: w.check(pick(&used, 2, kCheckKeys), PLAIN); break;
        case 1: complete_one(w); break;
        case 2: {
          odd = true;
          int v = sx_choose("variant", 5);
          if (v == 0) w.check(pick(&used, 2, kCheckKeys), SYNC);
          else if (v == 1) w.check(pick(&used, 2, kCheckKeys), OWN);
          else if (v == 2) w.check(pick(&used, 2, kCheckKeys), NULLT);
          else if (v == 3) w.check(pick(&used, 2, kCheckKeys), PLAIN, true);
          else w.check(0, PLAIN, false, true);
          break;
        }
      }
    }
    w.destroy();
    w.aftermath();
    sx_cover("end");
  }
  sx_check_leaks();
}
SX_ENTRY(h_client_quota) {
  sx_set_clock(kStart);
  {
    static const int caps[] = {1, 100, 0};
    static const int keys[] = {0, 1};
    Options o; o.quota_entries = caps[sx_case() % 3];
    o.timer = sx_case() != 4;
    World w(o);
    int used = 0; bool odd = sx_case() < 3;   // no unusual call
    for (int s = 0; s < (sx_case() < 3 ? 4 : 3) + EXTRA; s++) {
      if (s) advance_clock(3000000);
      switch (sx_choose("op", odd ? 3 : 4)) {
        case 0: w.quota(pick(&used, 2, keys), PLAIN); break;
        case 1: complete_one(w); break;
        case 2: if (s == 0 || !w.o.timer) sx_assume(false); w.tick(); break;
        case 3: {
          odd = true;
          int v = sx_choose("variant", 4);
          if (v == 0) w.quota(pick(&used, 2, keys), SYNC);
          else if (v == 1) w.quota(pick(&used, 2, keys), OWN);
          else if (v == 2) w.quota(pick(&used, 2, keys), NULLT);
          else w.quota(0, PLAIN, true);
          break;
        }
      }
    }
    w.destroy();
    w.aftermath();
    sx_cover("end");
  }
  sx_check_leaks();
}
SX_ENTRY(h_client_report) {
  sx_set_clock(kStart);
  {
    static const int caps[] = {1, 100, 0};
    static const int keys[] = {0, 1};
    Options o; o.report_entries = caps[sx_case() % 3];
    o.timer = sx_case() != 4;
    World w(o);
    int used = 0; bool odd = sx_case() < 3;   // no unusual call
    for (int s = 0; s < (sx_case() < 3 ? 5 : 4) + EXTRA; s++) {
      if (s) advance_clock(3000000);
      switch (sx_choose("op", odd ? 3 : 4)) {
        case 0: w.report(pick(&used, 2, keys), -1, PLAIN); break;
        case 1: complete_one(w); break;
        case 2: if (s == 0 || !w.o.timer) sx_assume(false); w.tick(); break;
        case 3: {
          odd = true;
          int v = sx_choose("variant", 6);
          if (v == 0) w.report(pick(&used, 2, keys), -1, SYNC);
          else if (v == 1) w.report(pick(&used, 2, keys), -1, OWN);
          else if (v == 2) w.report(pick(&used, 2, keys), -1, NULLT);
          else if (v == 3) w.report(0, 2, PLAIN, true);
          else if (v == 4) w.report(0, 2, PLAIN);
          else w.report(0, -1, PLAIN, false, true);
          break;
        }
      }
    }
    w.destroy();
    w.aftermath();
    sx_cover("end");
  }
  sx_check_leaks();
}

// All three kinds of calls in one history. case: capacities and call of the first kind
SX_ENTRY(h_client_mixed) {
  sx_set_clock(kStart);
  {
    Options o;
    int cap = sx_case() & 1 ? 100 : 1;
    o.check_entries = o.quota_entries = o.report_entries = cap;
    o.check_exp_ms = 2000;
    World w(o);
    int first = sx_case() / 2;
    for (int s = 0; s < 3 + EXTRA; s++) {
      if (s) advance_clock(3000000);
      switch (s ? sx_choose("op", 5) : first) {
        case CHECK: w.check(s ? sx_choose("key", 2) : 0, PLAIN); break;
        case QUOTA: w.quota(s ? sx_choose("key", 2) : 0, PLAIN); break;
        case REPORT: w.report(s ? sx_choose("key", 2) : 0, -1, PLAIN); break;
        case 3: complete_one(w); break;
        case 4: w.tick(); w.stats(); break;
      }
    }
    w.destroy();
    w.aftermath();
    sx_cover("end");
  }
  sx_check_leaks();
}

// C29: the interval that is asked for, for all intervals and combinations of caches.
SX_ENTRY(h_client_interval) {
  sx_set_clock(kStart);
  {
    Options o;
    int on = sx_choose("caches", 8);
    o.check_entries = on & 1 ? 10 : 0; o.quota_entries = on & 2 ? 10 : -(on & 1); o.report_entries = on & 4 ? 10 : 0;
    static const int some[] = {1, 500, 1000, 2000, INT_MAX};
    o.check_flush_ms = some[sx_choose("flush", 3)];
    o.check_exp_ms = some[sx_choose("exp", 5)];
    o.quota_refresh_ms = some[sx_choose("refresh", 5)];
    o.report_flush_ms = some[sx_choose("report", 5)];
    World w(o);
    int want = INT_MAX;
    int exp = o.check_exp_ms > o.check_flush_ms ? o.check_exp_ms : o.check_flush_ms + 1;
    if (on & 1 && exp < want) want = exp;
    if (on & 2 && o.quota_refresh_ms < want) want = o.quota_refresh_ms;
    if (on & 4 && o.report_flush_ms < want) want = o.report_flush_ms;
    if (on) {
      PX(29, w.timers == 1, "exactly one timer is requested");
      PX(29, w.interval == want, "the timer runs at the smallest interval of the enabled caches");
      sx_cover("interval");
    }
    sx_obs(w.timers); sx_obs(w.interval);
    w.destroy();
    w.aftermath();
  }
  sx_check_leaks();
}

// C29: what one tick does, and a second one. case: which caches are enabled (bits)
SX_ENTRY(h_client_tick) {
  sx_set_clock(kStart);
  {
    int on = sx_case() + 1;
    Options o;
    o.check_entries = on & 1 ? 10 : 0; o.quota_entries = on & 2 ? 10 : 0; o.report_entries = on & 4 ? 10 : 0;
    o.check_flush_ms = 500; o.check_exp_ms = 2000; o.quota_refresh_ms = 1000; o.quota_exp_ms = 8000; o.report_flush_ms = 1500;
    World w(o);
    int64_t stored[2] = {-1, -1};
    if (on & 4) { w.report(0, -1, PLAIN); stored[0] = sx_clock(); }
    if (on & 1) { w.check(0, PLAIN); if (w.pending()) w.finish(w.nth(0), PASS); }
    if (on & 2) { w.quota(0, PLAIN); }
    advance_clock(400000);
    if (on & 4) { w.report(1, -1, PLAIN); stored[1] = sx_clock(); }
    if (on & 1) w.check(0, PLAIN);
    if (on & 2) w.quota(0, PLAIN);
    for (int i = 0; i < 2; i++) {
      advance_clock(9000000);
      w.tick();
      for (int k = 0; k < 2; k++) if (stored[k] >= 0) {
        bool due = sx_clock() - stored[k] > 1500000;
        PX(29, due == (w.rops[k] == 0), "a tick sends exactly the reports that are due");
        if (due) { sx_cover("report-due"); stored[k] = -1; }
      }
      w.stats();
    }
    sx_cover("ticks");
    w.destroy();
    w.aftermath();
  }
  sx_check_leaks();
}

// C31: time passes inside the transports. case: capacity 1, 2, 100 and first call
SX_ENTRY(h_client_slow) {
  sx_set_clock(kStart);
  {
    static const int caps[] = {1, 2, 100};
    int cap = caps[sx_case() % 3], kind = sx_case() / 3;
    Options o;
    o.check_entries = o.quota_entries = o.report_entries = cap;
    World w(o);
    w.slow_us = 2000000;
    static const int keys[] = {0, 1, 2};
    int used = 0;
    for (int s = 0; s < 3 + EXTRA; s++) {
      if (s) advance_clock(2000000);
      if (s && sx_choose("tick", 2)) { w.tick(); continue; }
      int k = pick(&used, cap == 2 ? 3 : 2, keys);
      if (kind == QUOTA) w.quota(k, PLAIN); else if (kind == CHECK) w.check(k, PLAIN); else w.report(k, -1, PLAIN);
    }
    w.destroy();
    w.aftermath();
    sx_cover("slow");
  }
  sx_check_leaks();
}

// C31: transports and callbacks that use the client themselves. case: where (0 in the transports, 1 in the callbacks) and what is called
SX_ENTRY(h_client_reenter) {
  sx_set_clock(kStart);
  {
    Options o;
    o.check_entries = o.quota_entries = o.report_entries = 1;
    o.check_exp_ms = 2000;
    World w(o);
    int depth = 0, kind = sx_case() / 2;
    auto again = [&depth, kind](World& w, int) {
      if (depth || !w.c || !w.open) return;
      depth++;
      int k = sx_choose("inner", 2);
      if (kind == CHECK) w.check(k, PLAIN); else if (kind == QUOTA) w.quota(k, PLAIN); else w.report(k, -1, PLAIN);
      depth--;
      sx_cover("inner");
    };
    if (sx_case() & 1) w.on_done = again; else w.inside = again;
    for (int s = 0; s < 2 + EXTRA; s++) {
      if (s) advance_clock(3000000);
      switch (sx_choose("op", s ? 4 : 3)) {
        case CHECK: w.check(s ? sx_choose("key", 2) : 0, PLAIN); break;
        case QUOTA: w.quota(s ? sx_choose("key", 2) : 0, PLAIN); break;
        case REPORT: w.report(s ? sx_choose("key", 2) : 0, -1, PLAIN); break;
        case 3: w.tick(); break;
      }
    }
    w.on_done = nullptr; w.inside = nullptr;
    w.destroy();
    w.aftermath();
    sx_cover("reentered");
  }
  sx_check_leaks();
}

// C31: a flush callback that uses its aggregator: the cache lock is not held. case: kind
namespace {
template <class A> void use(A& a, int what, std::function<void()> other) {
  if (what == 0) { Status s = a.Flush(); PX(31, s.ok(), "a nested flush succeeds"); }
  else if (what == 1) other();
  else { Status s = a.FlushAll(); PX(31, s.ok(), "a nested full flush succeeds"); }
}
}
SX_ENTRY(h_agg_reenter) {
  sx_set_clock(kStart);
  {
    int kind = sx_case(), depth = 0, what = sx_choose("what", 3);
    int64_t in = 0, out = 0; int n = 0, want = 0;
    std::unique_ptr<CheckAggregator> ca; std::unique_ptr<QuotaAggregator> qa; std::unique_ptr<ReportAggregator> ra;
    auto nest = [&](std::function<void()> f) { if (depth) return; depth++; f(); depth--; sx_cover("nested"); };
    if (kind == CHECK) {
      ca = CreateCheckAggregator(kSvc, kCfg, CheckAggregationOptions(1, 1000, 2000), nullptr);
      ca->SetFlushCallback([&](const CheckRequest& r) {
        n++; out += r.operation().metric_value_sets(0).metric_values(0).int64_value();
        nest([&] { use(*ca, what, [&] { CheckResponse p; Status s = ca->Check(check_request(0, 0), &p); PX(31, s.ok() || code_of(s) == NOT_FOUND, "a nested check succeeds"); }); });
      });
      for (int i = 0; i < 2; i++) {
        (void)ca->CacheResponse(check_request(i, 0), check_response(i, false));
        int64_t a = sx_range("amount", 0, 1000);
        CheckResponse p; Status s = ca->Check(check_request(i, a), &p);
        PX(31, s.ok() || what == 2, "a check is answered");   // a nested full flush may have emptied the cache
        if (s.ok()) { in += a; want++; }
        if (sx_bool("wait")) { advance_clock(3000000); (void)ca->Flush(); }
      }
      (void)ca->FlushAll();
      PX(31, n == want && in == out, "every entry is delivered once");
    } else if (kind == QUOTA) {
      qa = CreateAllocateQuotaAggregator(kSvc, kCfg, QuotaAggregationOptions(2, 1000, 100000));
      qa->SetFlushCallback([&](const AllocateQuotaRequest& r) {
        int64_t a = 0; int k = quota_key(r, &a); (void)k; n++; out += a;
        nest([&] { if (what == 2) { AllocateQuotaResponse p; Status s = qa->Quota(quota_request(3, 0), &p); PX(31, s.ok(), "a nested call succeeds"); want++; }
                   else use(*qa, what, [&] { Status s = qa->CacheResponse(r, quota_response(1, false)); PX(31, s.ok(), "a nested response is cached"); }); });
      });
      int64_t a = sx_range("amount", 0, 1000); in += a; want++;
      AllocateQuotaResponse p; Status s = qa->Quota(quota_request(0, a), &p);
      PX(31, s.ok(), "a quota call is answered");
      (void)qa->CacheResponse(quota_request(0, a), quota_response(2, false));
      int64_t b = sx_range("amount", 0, 1000); in += b; want++;
      s = qa->Quota(quota_request(0, b), &p);
      advance_clock(3000000); sx_assume(sx_clock() - kStart > 1000000);
      what = sx_choose("what", 3);
      (void)qa->Flush();
      PX(31, in == out, "every amount is delivered once");
    } else {
      ra = CreateReportAggregator(kSvc, kCfg, ReportAggregationOptions(1, 1000), nullptr);
      ra->SetFlushCallback([&](const ReportRequest& r) {
        for (auto& op : r.operations()) { int64_t a = 0; int k = report_key(op, &a); PX(31, k >= 0, "a flushed operation is one that was reported"); n++; out += a; }
        nest([&] { use(*ra, what, [&] { ReportRequest q; q.set_service_name(kSvc); add_operation(&q, 2, 5); in += 5; want++; Status s = ra->Report(q); PX(31, s.ok(), "a nested report is accepted"); }); });
      });
      for (int i = 0; i < 3; i++) {
        int64_t a = sx_range("amount", 0, 1000); in += a; want++;
        ReportRequest q; q.set_service_name(kSvc); add_operation(&q, i & 1, a);
        Status s = ra->Report(q);
        PX(31, s.ok(), "a report is accepted");
        if (sx_bool("wait")) { advance_clock(3000000); (void)ra->Flush(); }
      }
      depth = 1; (void)ra->FlushAll();
      PX(31, in == out && n <= want, "every operation is delivered once");
    }
    sx_cover("end");
    sx_obs(n); sx_obs(out);
  }
  sx_check_leaks();
}

// C25: a client without transports of its own, used with a transport per call. case: capacities 1 and 100
SX_ENTRY(h_client_notransport) {
  sx_set_clock(kStart);
  {
    Options o;
    o.check_entries = o.quota_entries = o.report_entries = sx_case() ? 100 : 1;
    o.check_exp_ms = 2000; o.report_flush_ms = 1500;
    World w(o, false);
    ServiceControlClientOptions so = w.options();
    so.check_transport = nullptr; so.quota_transport = nullptr; so.report_transport = nullptr;
    w.c = CreateServiceControlClient(kSvc, kCfg, so);
    int sent = 0, done = 0, code = -1;
    auto on_done = [&](const Status& s) { done++; code = code_of(s); };
    for (int s = 0; s < 4 + EXTRA; s++) {
      if (s) advance_clock(3000000);
      int op = sx_choose("op", s ? 5 : 3), key = op < 3 ? sx_choose("key", 2) : 0;
      int64_t amount = op < 3 ? sx_range("amount", 0, 1000000) : 0;
      bool fail = op == CHECK && sx_bool("fail");
      int bad = fail ? sx_range32("status", 1, 16) : OK;
      sent = done = 0; code = -1;
      if (op == CHECK) {
        CheckRequest r = check_request(key, amount); CheckResponse p;
        w.c->Check(r, &p, on_done, [&](const CheckRequest& q, CheckResponse* a, TransportDoneFunc d) { sent++; d(fail ? Status((StatusCode)bad, "e") : Status()); });
        PX(25, done == 1 && sent <= 1 && code == (sent && fail ? bad : OK), "a call with its own transport completes once");
      } else if (op == QUOTA) {
        AllocateQuotaRequest r = quota_request(key, amount); AllocateQuotaResponse p = quota_response(1, true);
        w.c->Quota(r, &p, on_done, [&](const AllocateQuotaRequest& q, AllocateQuotaResponse* a, TransportDoneFunc d) { sent++; d(Status()); });
        PX(25, done == 1 && sent == 0 && code == OK, "a cached quota call completes at once");
        PX(25, is_quota_response(p, -1, false), "quota that cannot be asked for is granted");
      } else if (op == REPORT) {
        ReportRequest r; ReportResponse p; r.set_service_name(kSvc); add_operation(&r, key, amount);
        w.c->Report(r, &p, on_done, [&](const ReportRequest& q, ReportResponse* a, TransportDoneFunc d) { sent++; d(Status()); });
        PX(25, done == 1 && sent == 0 && code == OK, "a report that is stored completes at once");
      } else if (op == 3) w.tick_func();
      else {
        CheckResponse p; CheckRequest r = check_request(0, 1);
        int kind = sx_choose("kind", 3);
        if (kind == 0) w.c->Check(r, &p, on_done);
        else if (kind == 1) { AllocateQuotaRequest q = quota_request(0, 1); AllocateQuotaResponse a; w.c->Quota(q, &a, on_done); }
        else { ReportRequest q; ReportResponse a; q.set_service_name(kSvc); add_operation(&q, 0, 1); w.c->Report(q, &a, on_done); }
        PX(25, done == 1 && code == INVALID, "a call without any transport is an error");
        sx_cover("no-transport");
      }
      sx_obs(sent); sx_obs(code);
    }
    w.c.reset();
    sx_cover("end");
  }
  sx_check_leaks();
}

// C15: the kinds declared to the client reach both aggregators that merge metrics. case: checks, reports
SX_ENTRY(h_client_kinds) {
  sx_set_clock(kStart);
  {
    Options o; o.check_entries = o.report_entries = 10;
    World w(o, false);
    ServiceControlClientOptions so = w.options();
    auto kinds = std::make_shared<MetricKindMap>();
    (*kinds)["m"] = sx_choose("kind", 2) ? MetricDescriptor::GAUGE : MetricDescriptor::CUMULATIVE;
    so.metric_kinds = kinds;
    kinds.reset();
    int64_t got = -1, want = -1, end = 0; int n = 0;
    so.check_transport = [&](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) {
      if (r.service_config_id() == kCfg) { n++; got = r.operation().metric_value_sets(0).metric_values(0).int64_value(); }
      d(Status());
    };
    so.report_transport = [&](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) { n++; got = r.operations(0).metric_value_sets(0).metric_values(0).int64_value(); d(Status()); };
    w.c = CreateServiceControlClient(kSvc, kCfg, so);
    if (sx_case() == 0) { CheckRequest r = check_request(0, 7); CheckResponse p; w.c->Check(r, &p, [](const Status&) {}); }
    for (int i = 0; i < 3; i++) {
      int64_t amount = sx_range("amount", 0, 1000000), t = sx_range("end", 1, 1000000);
      if (t >= end) { end = t; want = amount; sx_cover("newer"); } else sx_cover("older");
      if (sx_case() == 0) {
        CheckRequest r = check_request(0, amount); CheckResponse p;
        r.mutable_operation()->mutable_metric_value_sets(0)->mutable_metric_values(0)->mutable_end_time()->set_seconds(t);
        w.c->Check(r, &p, [](const Status& s) { PX(15, s.ok(), "a check is answered"); });
      } else {
        ReportRequest r; ReportResponse p; r.set_service_name(kSvc); add_operation(&r, 0, amount);
        r.mutable_operations(0)->mutable_metric_value_sets(0)->mutable_metric_values(0)->mutable_end_time()->set_seconds(t);
        w.c->Report(r, &p, [](const Status& s) { PX(15, s.ok(), "a report is accepted"); });
      }
    }
    w.c.reset();
    PX(15, n == 1 && got == want, "the value with the latest end time is sent");
    sx_obs(got); sx_obs(n);
    sx_cover("client");
  }
  sx_check_leaks();
}
