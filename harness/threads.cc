// C30: every interleaving (at synchronisation operations) of threads that call a
// client, complete its requests, tick its timer and destroy it.
#include "client.h"
#include <pthread.h>
namespace {
enum { TICK = 3, FINISH = 4, STATS = 5, DESTROY = 6, SKIP = 7 };
enum { BYTHREAD = 4 };                       // another thread completes the request
const int kMaxT = 6;
struct TOp {
  int kind = SKIP, key = 0, key2 = -1, variant = PLAIN, out = PASS, id = 0; int64_t amount = 0; bool important = false;
  int done = 0, code = -1, sent = 0, want = -1; bool open = false, has_th = false;
  TransportDoneFunc d; pthread_t th; CheckResponse* rp = nullptr; AllocateQuotaResponse* rq = nullptr;
  CheckResponse cr; AllocateQuotaResponse qr; ReportResponse rr;
  TOp* target = nullptr; Statistics stats;
};
struct Pend { int key, id; bool open; AllocateQuotaResponse* p; TransportDoneFunc d; };
struct Given { int key, id; bool deny; };
// What the transports saw on one thread.
struct Log {
  int64_t sum[3][kKeys] = {}; int ops[3][kKeys] = {}; int64_t n_flush[3] = {}, n_own[3] = {}, n_ops = 0;
  std::vector<Pend> pend; std::vector<Given> given; int qid = 0; int qout = PASS; TOp* cur = nullptr; bool bad = false;
};
struct TWorld;
struct TTimer : PeriodicTimer { TWorld* w; explicit TTimer(TWorld* w) : w(w) {} void Stop() override; };
struct Start { TWorld* w; std::vector<TOp*> ops; };

struct TWorld {
  std::unique_ptr<ServiceControlClient> c;
  std::vector<std::unique_ptr<TOp>> ops;
  Log log[kMaxT];
  std::function<void()> tick_func;
  bool gone = false; int stops = 0;
  bool stop_joins = false, ticker_joined = false; pthread_t ticker;
  int quota_entries;
  explicit TWorld(const Options& o) : quota_entries(o.quota_entries) {
    ServiceControlClientOptions so(CheckAggregationOptions(o.check_entries, o.check_flush_ms, o.check_exp_ms),
                                   QuotaAggregationOptions(o.quota_entries, o.quota_refresh_ms, o.quota_exp_ms),
                                   ReportAggregationOptions(o.report_entries, o.report_flush_ms));
    so.check_transport = [this](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) { on_check(r, p, d); };
    so.quota_transport = [this](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) { on_quota(r, p, d); };
    so.report_transport = [this](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) { on_report(r, p, d); };
    so.periodic_timer = [this](int, std::function<void()> f) { tick_func = f; return std::unique_ptr<PeriodicTimer>(new TTimer(this)); };
    c = CreateServiceControlClient(kSvc, kCfg, so);
  }
  Log& mine() { return log[sx_tid()]; }
  TOp* op(int kind, int key = 0, int out = PASS) {
    ops.emplace_back(new TOp);
    TOp* o = ops.back().get();
    o->kind = kind; o->key = key; o->out = out; o->id = (int)ops.size() - 1;
    return o;
  }
  TOp* call(int kind, int key, int out = PASS) { TOp* o = op(kind, key, out); o->amount = sx_range("amount", 1, 1000000); return o; }
  void on_check(const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) {
    Log& l = mine();
    if (gone) sx_fail("nothing is sent after the client is gone");
    int k = r.has_operation() ? check_key(r.operation()) : -1;
    if (k < 0 || k >= kKeys) { l.bad = true; k = 0; }
    int64_t a = r.operation().metric_value_sets(0).metric_values(0).int64_value();
    if (r.service_config_id() == kCfg) { l.n_flush[CHECK]++; l.sum[CHECK][k] += a; l.ops[CHECK][k]++; d(Status()); return; }
    own(CHECK, k, a, p, nullptr, d);
  }
  void on_quota(const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) {
    Log& l = mine();
    if (gone) sx_fail("nothing is sent after the client is gone");
    int64_t a = 0;
    int k = quota_key(r, &a);
    if (k < 0) { l.bad = true; k = 0; }
    if (quota_entries <= 0) { own(QUOTA, k, a, nullptr, p, d); return; }
    l.n_flush[QUOTA]++; l.sum[QUOTA][k] += a; l.ops[QUOTA][k]++;
    int id = sx_tid() * 4 + l.qid++;
    if (l.qout == LATER) { l.pend.push_back(Pend{k, id, true, p, d}); return; }
    answer(k, id, p, d, l.qout);
  }
  void answer(int k, int id, AllocateQuotaResponse* p, TransportDoneFunc& d, int out) {
    Log& l = mine();
    if (out != FAIL) { *p = quota_response(id, out == DENY); l.given.push_back(Given{k, id, out == DENY}); }
    d(out == FAIL ? Status((StatusCode)kUnavailable, "e") : Status());
    d = nullptr;
  }
  void on_report(const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) {
    Log& l = mine();
    if (gone) sx_fail("nothing is sent after the client is gone");
    l.n_ops += r.operations_size();
    if (r.service_config_id() == kCfg) {
      l.n_flush[REPORT]++;
      for (int i = 0; i < r.operations_size(); i++) {
        int64_t a = 0; int k = report_key(r.operations(i), &a);
        if (k < 0) { l.bad = true; k = 0; }
        l.sum[REPORT][k] += a; l.ops[REPORT][k]++;
      }
      d(Status());
      return;
    }
    int64_t a = 0; int k = report_key(r.operations(0), &a);
    own(REPORT, k, a, nullptr, nullptr, d);
  }
  // The request of a caller, sent during its call.
  void own(int kind, int k, int64_t a, CheckResponse* p, AllocateQuotaResponse* q, TransportDoneFunc& d) {
    Log& l = mine();
    TOp* o = l.cur;
    l.n_own[kind]++;
    if (!o || o->kind != kind || o->key != k) { l.bad = true; d(Status()); return; }
    sx_assert(a == o->amount, "the transport gets the caller's own request");
    o->sent++;
    o->d = d; o->rp = p; o->rq = q; o->open = true;
    if (o->out == LATER) return;
    if (o->out == BYTHREAD) {
      struct A { TWorld* w; TOp* o; };
      o->has_th = true;
      pthread_create(&o->th, nullptr, [](void* v) -> void* { A* a = (A*)v; a->w->complete(a->o, PASS); delete a; return nullptr; }, new A{this, o});
      return;
    }
    complete(o, o->out);
  }
  void complete(TOp* o, int out) {
    TransportDoneFunc d = std::move(o->d);
    o->d = nullptr; o->open = false;
    o->want = out == FAIL ? kUnavailable : OK;
    if (o->rp) *o->rp = check_response(o->id, out == DENY);
    if (o->rq) *o->rq = quota_response(o->id, out == DENY);
    o->rp = nullptr; o->rq = nullptr;
    if (out == DENY) o->out = DENY;
    d(out == FAIL ? Status((StatusCode)kUnavailable, "e") : Status());
  }
  void run(TOp* o) {
    Log& l = mine();
    TOp* before = l.cur; l.cur = o;
    auto done = [o](const Status& s) { o->done++; o->code = code_of(s); };
    switch (o->kind) {
      case CHECK: {
        CheckRequest r = check_request(o->key, o->amount); r.set_service_config_id("mine");
        if (o->variant == SYNC) { Status s = c->Check(r, &o->cr); done(s); } else c->Check(r, &o->cr, done);
        break;
      }
      case QUOTA: {
        AllocateQuotaRequest r = quota_request(o->key, o->amount);
        if (o->variant == SYNC) { Status s = c->Quota(r, &o->qr); done(s); } else c->Quota(r, &o->qr, done);
        break;
      }
      case REPORT: {
        ReportRequest r; r.set_service_name(kSvc); r.set_service_config_id("mine");
        add_operation(&r, o->key, o->amount);
        if (o->key2 >= 0) add_operation(&r, o->key2, o->amount);
        if (o->important) r.mutable_operations(0)->set_importance(Operation::HIGH);
        if (o->variant == SYNC) { Status s = c->Report(r, &o->rr); done(s); } else c->Report(r, &o->rr, done);
        break;
      }
      case TICK: tick_func(); break;
      case FINISH: if (o->target->open) complete(o->target, o->out); break;
      case STATS: memset(&o->stats, 0x5a, sizeof o->stats); (void)c->GetStatistics(&o->stats); break;
    }
    l.cur = before;
  }
  // --- threads
  std::vector<pthread_t> threads; std::vector<std::unique_ptr<Start>> starts;
  pthread_t spawn(std::vector<TOp*> v) {
    starts.emplace_back(new Start{this, std::move(v)});
    pthread_t t;
    pthread_create(&t, nullptr, [](void* p) -> void* { Start* s = (Start*)p; for (TOp* o : s->ops) s->w->run(o); return nullptr; }, starts.back().get());
    return t;
  }
  void join_all() {
    for (auto t : threads) pthread_join(t, nullptr);
    threads.clear();
    for (auto& o : ops) if (o->has_th) { pthread_join(o->th, nullptr); o->has_th = false; }
  }
  // --- what must hold when all threads are done
  int64_t sum(int kind, int k) { int64_t s = 0; for (auto& l : log) s += l.sum[kind][k]; return s; }
  int nops(int kind, int k) { int s = 0; for (auto& l : log) s += l.ops[kind][k]; return s; }
  void finish_all() {
    for (auto& o : ops) if (o->open) complete(o.get(), PASS);
    for (auto& l : log) for (size_t i = 0; i < l.pend.size(); i++) if (l.pend[i].open) { Pend p = l.pend[i]; l.pend[i].open = false; l.pend[i].d = nullptr; answer(p.key, p.id, p.p, p.d, PASS); }
  }
  void completed() {
    for (auto& l : log) sx_assert(!l.bad, "what is sent stands for something that was called");
    for (auto& o : ops) {
      if (o->kind > REPORT) continue;
      sx_obs(o->sent); sx_obs(o->code);
      sx_assert(o->sent <= 1, "a call goes to the transport at most once");
      sx_assert(o->done == (o->open ? 0 : 1), "every call completes exactly once");
      if (!o->open) sx_assert(o->code == (o->sent ? o->want : OK), "a call completes with the status of its transport");
    }
  }
  void stats() {
    int64_t called[3] = {}, own[3] = {}, flush[3] = {}, n = 0;
    for (auto& o : ops) if (o->kind <= REPORT) called[o->kind]++;
    for (auto& l : log) { for (int i = 0; i < 3; i++) { own[i] += l.n_own[i]; flush[i] += l.n_flush[i]; } n += l.n_ops; }
    Statistics s;
    memset(&s, 0x5a, sizeof s);
    sx_assert(c->GetStatistics(&s).ok(), "the statistics are available");
    sx_assert((int64_t)s.total_called_checks == called[CHECK] && (int64_t)s.total_called_quotas == called[QUOTA] && (int64_t)s.total_called_reports == called[REPORT], "every call is counted once");
    sx_assert((int64_t)s.send_checks_in_flight == own[CHECK] && (int64_t)s.send_quotas_in_flight == own[QUOTA] && (int64_t)s.send_reports_in_flight == own[REPORT], "every request sent for a call is counted once");
    sx_assert((int64_t)s.send_checks_by_flush == flush[CHECK] && (int64_t)s.send_quotas_by_flush == flush[QUOTA] && (int64_t)s.send_reports_by_flush == flush[REPORT], "every flushed request is counted once");
    sx_assert((int64_t)s.send_report_operations == n, "every operation sent is counted once");
  }
  void destroy() { c.reset(); gone = true; sx_assert(stops == 1, "destroying the client stops its timer"); }
  // is r the response with which a request of key k was completed?
  bool a_check_answer(const CheckResponse& r, int k, bool* deny) {
    bool ok = false;
    for (auto& o : ops) if (o->kind == CHECK && o->key == k && o->sent && !o->open && o->want == OK && is_check_response(r, o->id, o->out == DENY)) { ok = true; *deny = o->out == DENY; }
    return ok;
  }
  bool a_quota_answer(const AllocateQuotaResponse& r, int k) {
    bool ok = is_quota_response(r, -1, false);
    for (auto& l : log) for (auto& g : l.given) if (g.key == k && is_quota_response(r, g.id, g.deny)) ok = true;
    return ok;
  }
  // Usage of the checks that were answered by the cache, and what was sent for them.
  // maybe: sent checks may have been counted as well (they refreshed a live entry)
  void check_usage(int nkeys, bool maybe) {
    for (int k = 0; k < nkeys; k++) {
      int64_t in = 0; std::vector<int64_t> extra;
      for (auto& o : ops) {
        if (o->kind != CHECK || o->key != k) continue;
        if (o->sent) { extra.push_back(o->amount); continue; }
        bool deny = false, ok = a_check_answer(o->cr, k, &deny);
        sx_assert(ok, "a hit is answered with an answer of the server");
        if (!deny) in += o->amount;
      }
      int64_t out = sum(CHECK, k);
      bool ok = in == out;
      if (maybe) for (int m = 1; m < 1 << (int)extra.size(); m++) { int64_t x = in; for (size_t i = 0; i < extra.size(); i++) if (m >> i & 1) x += extra[i]; ok = ok | (x == out); }
      sx_assert(ok, "the usage of every hit is sent exactly once");
    }
  }
  void report_sent(int nkeys) {
    for (int k = 0; k < nkeys; k++) {
      int64_t in = 0;
      for (auto& o : ops) if (o->kind == REPORT && !o->sent) { if (o->key == k) in += o->amount; if (o->key2 == k) in += o->amount; }
      sx_assert(in == sum(REPORT, k), "everything reported is sent exactly once");
    }
  }
};
void TTimer::Stop() { w->stops++; if (w->stop_joins && !w->ticker_joined) { w->ticker_joined = true; pthread_join(w->ticker, nullptr); } }

// Two sequences of choices for the two threads, the first not after the second.
struct Menu { int kind, key, out; };
TOp* from(TWorld& w, const Menu& m, TOp* pending) {
  if (m.kind == FINISH) { TOp* o = w.op(FINISH, 0, m.out); o->target = pending; return o; }
  if (m.kind > REPORT) return w.op(m.kind);
  return w.call(m.kind, m.key, m.out);
}
#ifdef THOROUGH
const int kLen = 3;
#else
const int kLen = 2;
#endif
// Thread 1 makes n1 operations of the menu, thread 2 n2; key symmetry is not used.
void two_threads(TWorld& w, const Menu* m, int n, int n1, int n2, TOp* pending) {
  int a[2][3], len[2] = {n1, n2};
  for (int t = 0; t < 2; t++) for (int i = 0; i < len[t]; i++) a[t][i] = sx_choose("op", n);
  int fin = 0;
  for (int t = 0; t < 2; t++) for (int i = 0; i < len[t]; i++) fin += m[a[t][i]].kind == FINISH;
  if (fin > 1) sx_assume(false);   // a request is completed once
  if (n1 == n2) { for (int i = 0; i < n1; i++) { if (a[0][i] < a[1][i]) break; if (a[0][i] > a[1][i]) sx_assume(false); } }
  std::vector<TOp*> v[2];
  for (int t = 0; t < 2; t++) for (int i = 0; i < len[t]; i++) v[t].push_back(from(w, m[a[t][i]], pending));
  for (int t = 0; t < 2; t++) w.threads.push_back(w.spawn(v[t]));
}
}  // namespace

// case: capacity 1, 100; state of the first key: unknown, passed, denied, to be refreshed, expired
SX_ENTRY(h_mt_check) {
  sx_set_clock(kStart);
  {
    int cap = sx_case() % 2 ? 100 : 1, pre = sx_case() / 2;
    Options o; o.check_entries = cap; o.check_flush_ms = 1000; o.check_exp_ms = 4000;
    TWorld w(o);
    TOp* first = nullptr;
    if (pre > 0) {
      first = w.call(CHECK, 0, pre == 2 ? DENY : PASS); w.run(first);
      if (pre != 2) w.run(w.call(CHECK, 0));
    }
    TOp* pending = w.call(CHECK, 1, LATER); w.run(pending);
    if (pre == 3) sx_set_clock(sx_clock() + 2000000);
    if (pre == 4) sx_set_clock(sx_clock() + 5000000);
    static const Menu menu[] = {{CHECK, 0, PASS}, {CHECK, 1, PASS}, {FINISH, 0, PASS}, {CHECK, 0, LATER}, {TICK, 0, 0}, {CHECK, 0, DENY}};
    int n = 6;
    two_threads(w, menu, n, 2, 1 + (kLen > 2), pending);
    w.join_all();
    w.completed();
    w.stats();
    int sent = 0, called = 0;
    for (auto& p : w.ops) if (p->kind == CHECK && p->key == 0 && p.get() != first) { called++; sent += p->sent; }
    if (cap == 100 && (pre == 1 || pre == 2)) sx_assert(sent == 0, "a call whose answer is cached is not sent");
    if (cap == 100 && pre == 3) sx_assert(sent == (called > 1 ? 1 : 0), "exactly one of the calls refreshes a cached answer");
    if (sent) sx_cover("sent");
    w.finish_all();
    w.completed();
    if (cap == 100) {
      // the last answers are cached
      for (int k = 0; k < 2; k++) {
        bool any = k == 1;
        for (auto& p : w.ops) if (p->kind == CHECK && p->key == k && p->sent && p->want == OK && p.get() != first) any = true;
        if (!any) continue;
        TOp* last = w.call(CHECK, k); w.run(last);
        sx_assert(last->sent == 0, "an answer that arrived is cached");
        bool deny = false;
        sx_assert(w.a_check_answer(last->cr, k, &deny), "an answer that arrived is cached");
        if (k == 0 && first) sx_assert(!is_check_response(last->cr, first->id, first->out == DENY), "a new answer replaces the old one");
        sx_cover("cached");
      }
    }
    w.destroy();
    w.check_usage(2, pre >= 3);
    sx_cover("check");
  }
  sx_check_leaks();
}
// case: capacity 1, 100; the first key: unknown, known, to be refreshed, under way
SX_ENTRY(h_mt_quota) {
  sx_set_clock(kStart);
  {
    int cap = sx_case() % 2 ? 100 : 1, pre = sx_case() / 2;
    Options o; o.quota_entries = cap; o.quota_refresh_ms = 1000;
    TWorld w(o);
    if (pre > 0) {
      if (pre == 3) w.log[0].qout = LATER;
      w.run(w.call(QUOTA, 0));
      w.log[0].qout = PASS;
      if (pre == 2) { w.run(w.call(QUOTA, 0)); sx_set_clock(sx_clock() + 2000000); }
    }
    int s0 = w.nops(QUOTA, 0);
    int how = sx_choose("answers", 2);
    for (int t = 1; t < kMaxT; t++) w.log[t].qout = how == 1 ? LATER : t == 1 ? PASS : FAIL;
    static const Menu menu[] = {{QUOTA, 0, 0}, {QUOTA, 1, 0}, {TICK, 0, 0}};
    two_threads(w, menu, 3, kLen, kLen, nullptr);
    // an answer to the first request arrives meanwhile
    if (pre == 3) { Pend p = w.log[0].pend[0]; w.log[0].pend[0].open = false; w.log[0].pend[0].d = nullptr; w.answer(p.key, p.id, p.p, p.d, PASS); }
    w.join_all();
    w.completed();
    w.stats();
    int called = 0, sent = w.nops(QUOTA, 0) - s0;
    for (auto& p : w.ops) if (p->kind == QUOTA && p->key == 0) called++;
    if (cap == 100) {
      if (pre == 0) sx_assert(sent == (called ? 1 : 0), "concurrent calls of a new key cause one allocation");
      if (pre == 1) sx_assert(sent == 0, "calls between refreshes cause no allocation");
      if (pre == 2) sx_assert(sent <= 1 && (called == 2 || sent == 1), "concurrent calls of a key cause one refresh");
      if (pre == 3) sx_assert(sent == 0, "one allocation of a key is under way at a time");
    }
    w.finish_all();
    for (auto& p : w.ops) if (p->kind == QUOTA) sx_assert(w.a_quota_answer(p->qr, p->key), "a quota call is answered with an answer of the server");
    int64_t in[2] = {};
    for (auto& p : w.ops) if (p->kind == QUOTA) in[p->key] += p->amount;
    for (int t = 0; t < kMaxT; t++) w.log[t].qout = PASS;
    if (cap == 1) {
      w.run(w.call(QUOTA, 2));   // makes the last entry leave
      for (int k = 0; k < 2; k++) sx_assert(in[k] == w.sum(QUOTA, k), "all amounts are allocated exactly once");
      sx_cover("evicted");
    } else {
      sx_set_clock(sx_clock() + 3000000);
      for (int k = 0; k < 2; k++) {
        int64_t s1 = w.sum(QUOTA, k);
        if (!in[k] && !sx_is_symbolic(in[k])) continue;
        w.run(w.call(QUOTA, k));
        bool ok = (w.sum(QUOTA, k) == in[k]) | (s1 == in[k]);
        sx_assert(ok, "all amounts are allocated exactly once");
      }
      sx_cover("refreshed");
    }
    w.completed();
    w.destroy();
    sx_cover("quota");
  }
  sx_check_leaks();
}
// case: capacity 1, 100, off
SX_ENTRY(h_mt_report) {
  sx_set_clock(kStart);
  {
    static const int caps[] = {1, 100, 0};
    Options o; o.report_entries = caps[sx_case() % 3];
    TWorld w(o);
    w.run(w.call(REPORT, 0));
    sx_set_clock(sx_clock() + 2000000);      // due
    struct { int a, b; bool imp; } menu[] = {{0, -1, false}, {0, 1, false}, {0, -1, true}};
    std::vector<TOp*> v[2];
    for (int t = 0; t < 2; t++) for (int i = 0; i < kLen; i++) {
      int m = sx_choose("op", 5);
      if (m == 3) v[t].push_back(w.op(TICK));
      else if (m == 4) v[t].push_back(w.op(STATS));
      else { TOp* p = w.call(REPORT, menu[m].a, t ? LATER : PASS); p->key2 = menu[m].b; p->important = menu[m].imp; v[t].push_back(p); }
    }
    for (int t = 0; t < 2; t++) w.threads.push_back(w.spawn(v[t]));
    w.join_all();
    w.completed();
    w.stats();
    w.finish_all();
    w.completed();
    w.destroy();
    w.report_sent(2);
    sx_cover("report");
  }
  sx_check_leaks();
}
// One call of each kind on each thread and the timer; all caches of capacity 1.
SX_ENTRY(h_mt_mixed) {
  sx_set_clock(kStart);
  {
    Options o; o.check_entries = o.quota_entries = o.report_entries = 1;
    TWorld w(o);
    w.run(w.call(CHECK, 0)); w.run(w.call(CHECK, 0)); w.run(w.call(QUOTA, 0)); w.run(w.call(QUOTA, 0)); w.run(w.call(REPORT, 0));
    if (sx_choose("due", 2)) sx_set_clock(sx_clock() + 2000000);
    int a = sx_choose("first", 3), b = sx_choose("second", 3), c = sx_choose("third", 4);
    std::vector<TOp*> v[3];
    v[0].push_back(w.call(a, 1)); v[1].push_back(w.call(b, 1)); v[2].push_back(c == 3 ? w.op(TICK) : w.call(c, 0));
    if (a > b) sx_assume(false);
    for (int t = 0; t < 3; t++) w.threads.push_back(w.spawn(v[t]));
    w.join_all();
    w.completed();
    w.stats();
    w.finish_all();
    w.destroy();
    w.report_sent(2);
    w.check_usage(2, true);
    sx_cover("mixed");
  }
  sx_check_leaks();
}
// Blocking calls whose requests are completed by another thread, next to a further caller.
// case: kind, caches off or on
SX_ENTRY(h_mt_sync) {
  sx_set_clock(kStart);
  {
    int kind = sx_case() % 3; bool on = sx_case() >= 3;
    Options o; if (on) o.check_entries = o.quota_entries = o.report_entries = 1;
    TWorld w(o);
    TOp* a = w.call(kind, 0, BYTHREAD); a->variant = SYNC; a->important = true;
    int key = sx_choose("key", 2), out = sx_choose("outcome", 2) ? BYTHREAD : FAIL;
    TOp* b = w.call(kind, key, out); b->variant = sx_choose("variant", 2) ? SYNC : PLAIN; b->important = true;
    std::vector<TOp*> v1(1, a), v2(1, b);
    w.threads.push_back(w.spawn(v1)); w.threads.push_back(w.spawn(v2));
    w.join_all();
    w.completed();
    w.stats();
    if (!on || kind == REPORT) sx_assert(a->sent == 1 && b->sent == 1, "both calls are sent");
    w.finish_all();
    w.destroy();
    w.report_sent(2);
    sx_cover("sync");
  }
  sx_check_leaks();
}
// The client is destroyed while requests complete on other threads and the timer runs.
// case: 0 checks, 1 quotas, 2 the timer
SX_ENTRY(h_mt_destroy) {
  sx_set_clock(kStart);
  {
    int kind = sx_case();
    Options o; o.check_entries = o.quota_entries = o.report_entries = kind == 0 ? 1 : 2;
    if (kind == 0) o.check_entries = sx_choose("off", 2) ? 0 : 1;
    TWorld w(o);
    std::vector<TOp*> v1, v2;
    if (kind == 0) {
      w.run(w.call(CHECK, 0)); w.run(w.call(CHECK, 0));
      TOp* p = w.call(CHECK, 1, LATER); w.run(p);
      TOp* q = w.call(CHECK, 0 + sx_choose("other", 2) * 2, LATER); if (o.check_entries) q->key = 2; w.run(q);
      TOp* f = w.op(FINISH, 0, sx_choose("outcome", 2) ? PASS : DENY); f->target = p; v1.push_back(f);
      TOp* g = w.op(FINISH, 0, sx_choose("outcome", 2) ? PASS : FAIL); g->target = q; v2.push_back(g);
    } else if (kind == 1) {
      o.quota_entries = 2;
      w.log[0].qout = LATER;
      w.run(w.call(QUOTA, 0)); w.run(w.call(QUOTA, 1)); w.run(w.call(QUOTA, 0));
      w.log[0].qout = PASS;
    }
    w.run(w.call(REPORT, 0));
    if (kind == 2) {
      w.run(w.call(REPORT, 1)); w.run(w.call(CHECK, 0)); w.run(w.call(CHECK, 0)); w.run(w.call(QUOTA, 0)); w.run(w.call(QUOTA, 0));
      sx_set_clock(sx_clock() + 2000000);
      v1.push_back(w.op(TICK)); if (sx_choose("ticks", 2)) v1.push_back(w.op(TICK));
      w.stop_joins = true;
      w.ticker = w.spawn(v1);
    } else if (kind == 1) {
      struct B { TWorld* w; size_t i; int out; };
      static B bs[2];
      for (size_t i = 0; i < 2; i++) {
        bs[i] = B{&w, i, sx_choose("outcome", 3)};
      }
      for (size_t i = 0; i < 2; i++) {
        pthread_t t;
        pthread_create(&t, nullptr, [](void* v) -> void* { B* b = (B*)v; Pend& p = b->w->log[0].pend[b->i]; p.open = false; b->w->answer(p.key, p.id, p.p, p.d, b->out); return nullptr; }, &bs[i]);
        w.threads.push_back(t);
      }
    } else { w.threads.push_back(w.spawn(v1)); w.threads.push_back(w.spawn(v2)); }
    w.destroy();
    w.join_all();
    w.completed();
    w.report_sent(2);
    if (kind == 2) w.check_usage(1, true);
    sx_cover("destroyed");
  }
  sx_check_leaks();
}
