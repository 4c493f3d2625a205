// C07 (nothing lost or sent twice), C08 (batches and timeliness), C09 (all or
// nothing) of the report aggregator.  Every operation carries a marker (its own
// metric label), so that what is flushed tells which operations it stands for;
// nothing is assumed about when things are flushed beyond the properties.
#include "agg.h"
#ifndef PROP
#define PROP 0
#endif
#define P7(c, m) do { bool c_ = (c); if (PROP == 0 || PROP == 7) sx_assert(c_, m); } while (0)
#define P8(c, m) do { bool c_ = (c); if (PROP == 0 || PROP == 8) sx_assert(c_, m); } while (0)
#define P9(c, m) do { bool c_ = (c); if (PROP == 0 || PROP == 9) sx_assert(c_, m); } while (0)
#ifdef THOROUGH
#define STEPS 5
#else
#define STEPS 4
#endif
namespace {
const int MAXOP = 112;
struct Op { int key; int64_t amount; int nlog; int64_t start, end; int64_t stored; bool accepted = false; int sent = 0; };
const char* kNames[] = {"op", "op", "op", "op2"};
struct Run {
  std::unique_ptr<ReportAggregator> a;
  Op op[MAXOP]; int n = 0;
  int64_t interval_us; bool many = false; bool spans = false; int cached;
  int requests = 0; int64_t seen = 0;   // sums: the order of what is flushed together is left open
  Run(int entries, int flush_ms) : interval_us((int64_t)flush_ms * 1000), cached(entries) {
    ReportAggregationOptions o(entries, flush_ms);
    a = CreateReportAggregator(kSvc, kCfg, o, std::shared_ptr<MetricKindMap>());
    a->SetFlushCallback([this](const ReportRequest& r) { flushed(r); });
  }
  string name(int key) { return many ? tag("n", key) : string(kNames[key]); }
  // ---- what the flush callback gets
  void flushed(const ReportRequest& r) {
    requests++;
    P8(r.service_name() == kSvc && r.service_config_id() == kCfg, "a flushed report carries the configured names");
    P8(r.operations_size() >= 1 && r.operations_size() <= 10, "a flushed report has 1 to 10 operations");
    sx_obs(r.operations_size());
    if (r.operations_size() == 10) sx_cover("full-batch");
    for (auto& o : r.operations()) operation(o);
  }
  void operation(const Operation& o) {
    int64_t sum = 0, nlog = 0, start = INT64_MAX, end = INT64_MIN; int key = -1, nm = 0; bool have = false; int64_t got = 0;
    int mine[MAXOP], nmine = 0;
    for (auto& s : o.metric_value_sets()) {
      if (s.metric_name() == "m") { P7(!have && s.metric_values_size() == 1, "one value per metric and label set"); have = true; got = s.metric_values(0).int64_value(); continue; }
      P7(s.metric_name() == "mark", "only metrics that were reported");
      for (auto& v : s.metric_values()) {
        auto it = v.labels().find("i");
        P7(it != v.labels().end() && it->second.size() == 1, "metric labels are kept");
        int i = (unsigned char)it->second[0] - 'A';
        P7(i >= 0 && i < n && v.int64_value() == 3 + i, "metric values are kept");
        Op& x = op[i];
        P9(x.accepted, "nothing is stored of a report that is left to the caller");
        P7(x.accepted, "only accepted operations are sent");
        x.sent++;
        P7(x.sent == 1, "no operation is sent twice");
        if (key < 0) key = x.key;
        P7(x.key == key, "only operations of one identity are merged");
        sum += x.amount; nlog += x.nlog; if (x.start < start) start = x.start; if (x.end > end) end = x.end;
        mine[nmine++] = i;
      }
    }
    P7(nmine > 0 && have, "an operation sent stands for operations reported");
    if (nmine == 0) return;
    P7(got == sum, "delta metrics add up");
    seen += got + 1000003 * nmine + 7919 * o.log_entries_size();
    P7(o.operation_name() == name(key) && o.consumer_id() == (key == 1 && !many ? "d" : "c"), "the identity is kept");
    P7((int)o.labels().size() == (key == 2 && !many ? 1 : 0), "the labels are kept");
    P7(o.log_entries_size() == nlog, "no log entry is lost or sent twice");
    // log entries in the order of the operations
    if (o.log_entries_size() == nlog) {
      int pos = 0;
      for (int j = 0; j < n; j++) {
        bool in = false;
        for (int q = 0; q < nmine; q++) in |= mine[q] == j;
        if (!in) continue;
        for (int q = 0; q < op[j].nlog; q++) { bool first = q == 0 || q == op[j].nlog - 1; if (first) P7(o.log_entries(pos).name().size() == 1 && o.log_entries(pos).name()[0] == (char)('A' + j), "log entries are those reported"); pos++; }
      }
    }
    P7(o.start_time().seconds() == start && o.end_time().seconds() == end, "the span covers all operations");
    if (nmine > 1) sx_cover("merged");
  }
  // ---- calls
  Operation make(int i) {
    Op& x = op[i];
    Operation o;
    o.set_operation_name(name(x.key)); o.set_consumer_id(x.key == 1 && !many ? "d" : "c");
    if (x.key == 2 && !many) (*o.mutable_labels())["l"] = "v";
    o.mutable_start_time()->set_seconds(x.start); o.mutable_end_time()->set_seconds(x.end);
    put_int(o.add_metric_value_sets(), "m", x.amount);
    MetricValueSet* s = o.add_metric_value_sets();
    put_int(s, "mark", 3 + i);
    (*s->mutable_metric_values(0)->mutable_labels())["i"] = string(1, (char)('A' + i));
    for (int j = 0; j < x.nlog; j++) o.add_log_entries()->set_name(string(1, (char)('A' + i)));
    return o;
  }
  int add(int key, int nlog) {
    Op& x = op[n];
    x.key = key; x.amount = sx_range("amount", -1000000, 1000000); x.nlog = nlog; x.stored = sx_clock();
    if (spans) { x.start = sx_range("start", 0, 1000); x.end = sx_range("end", 0, 1000); }
    else { x.start = 100 + (n * 7) % 5; x.end = 200 + (n * 7) % 5; }
    return n++;
  }
  void report(ReportRequest& r, int first, int want) {
    for (int i = first; i < n; i++) op[i].accepted = want == OK;
    remember();
    Status st = a->Report(r);
    sx_obs(code_of(st)); sx_obs(seen);
    P9(code_of(st) == want, want == OK ? "a plain report is accepted" : want == INVALID ? "a report for another service is rejected" : "an important report, or any without cache, is left to the caller");
    big();
    early(true);
  }
  // ---- what is held, and why something leaves
  bool was[MAXOP];
  void remember() { for (int i = 0; i < n; i++) was[i] = op[i].accepted && !op[i].sent; }
  void early(bool room) {
    bool had[MAXOP] = {}, has[MAXOP] = {}; int wanted = 0, held = 0;
    for (int i = 0; i < n; i++) {
      int k = op[i].key;
      if (was[i] && !had[k]) { had[k] = true; wanted++; }
      if (op[i].accepted && !op[i].sent && !has[k]) { has[k] = true; held++; }
    }
    P8(held <= (cached > 0 ? cached : 0), "no more aggregated operations are held than the capacity allows");
    if (room && wanted > cached) { sx_cover("full"); return; }
    for (int i = 0; i < n; i++) {
      if (!was[i] || !op[i].sent) continue;
      bool due = false, head = true; int logs = 0;
      for (int j = 0; j < n; j++) {
        if (!was[j] || !op[j].sent || op[j].key != op[i].key) continue;
        if (j < i) head = false;
        logs += op[j].nlog; due |= sx_clock() - op[j].stored >= interval_us;
      }
      if (head) P8(due | (room && logs >= 100), "an operation leaves before its time only for space or with 100 log entries");
    }
  }
  // an operation of 100 log entries or more does not stay after a merge
  void big() {
    for (int i = 0; i < n; i++) {
      if (!op[i].accepted || op[i].sent) continue;
      int merged = 0, logs = 0; bool first = true;
      for (int j = 0; j < n; j++) if (op[j].accepted && !op[j].sent && op[j].key == op[i].key) { if (j < i) first = false; merged++; logs += op[j].nlog; }
      if (first && merged > 1) P8(logs < 100, "an operation with 100 log entries after a merge is sent");
    }
  }
  void flush() {
    remember();
    bool ok = a->Flush().ok(); sx_obs(seen);
    early(false);
    P8(ok, "a flush succeeds");
    for (int i = 0; i < n; i++) if (op[i].accepted) {
      P8(op[i].sent || sx_clock() - op[i].stored <= interval_us, "nothing older than the flush interval stays after a flush");
      if (op[i].sent) sx_cover("flushed");
    }
  }
  void flush_all() {
    bool ok = a->FlushAll().ok(); sx_obs(seen);
    P7(ok, "a full flush succeeds");
    for (int i = 0; i < n; i++) {
      P7(!op[i].accepted || op[i].sent == 1, "everything accepted is sent by a full flush");
      P9(!op[i].accepted || op[i].sent == 1, "all operations of an accepted report are stored");
    }
  }
};
struct Config { int entries, flush_ms, nkeys; int keys[4]; int logs; bool spans; int steps; };
const Config kConfig[] = {
  {1, 1000, 2, {0, 1}, 1, false, STEPS},
  {2, 2000, 3, {2, 0, 3}, 1, false, STEPS},
  {100, 0, 2, {0, 3}, 1, false, STEPS},
  {2, 1000, 2, {0, 2}, 3, false, STEPS - 1},        // up to 101 log entries per operation
  {100, 1000, 2, {1, 0}, 1, true, STEPS - 2},
  {100, INT_MAX, 2, {1, 0}, 1, false, STEPS - 1},
};
}  // namespace

// case: configuration
SX_ENTRY(h_report) {
  if (sx_case() == 2) kCfg = "";
  const Config& cf = kConfig[sx_case()];
  static const int kLogs[] = {1, 99, 101};
  sx_set_clock(kStart);
  {
    Run R(cf.entries, cf.flush_ms);
    R.spans = cf.spans;
    int used = 0; bool odd = false;
    for (int s = 0; s < cf.steps; s++) {
      advance_clock(10000000);
      int op = s == 0 ? sx_choose("op", 2) : sx_choose("op", odd ? 4 : 5);
      switch (op) {
        case 0: case 1: case 4: {
          ReportRequest r; r.set_service_name(kSvc);
          int first = R.n, kind = op == 4 ? sx_choose("kind", 3) : 0;
          int at = kind == 0 ? 0 : 1;   // which operation is the important one
          for (int i = 0; i <= (op == 0 ? 0 : 1); i++) {
            int m = used < cf.nkeys ? used + 1 : cf.nkeys;
            int k = m == 1 || op == 4 ? 0 : sx_choose("key", m);
            if (k == used) used++;
            int nl = op == 4 || i == 1 ? 1 : cf.logs == 1 ? R.n & 1 : kLogs[sx_choose("logs", cf.logs)];
            *r.add_operations() = R.make(R.add(cf.keys[k], nl));
          }
          int want = OK;
          if (op == 4) {
            odd = true;
            if (kind == 2) { r.set_service_name("sv"); want = INVALID; sx_cover("invalid"); }
            else { r.mutable_operations(at)->set_importance((Operation::Importance)sx_range32("importance", 1, 5)); want = NOT_FOUND; sx_cover("important"); }
          } else sx_cover("accepted");
          R.report(r, first, want);
          break;
        }
        case 2: R.flush(); break;
        case 3: R.flush_all(); break;
      }
    }
    R.flush_all();
    P8(R.a->GetNextFlushInterval() == cf.flush_ms, "flushes are asked for at the flush interval");
    sx_cover("end");
  }
  sx_check_leaks();
}

// Many identities at once: batches of at most 10.  case: how they leave
SX_ENTRY(h_report_batch) {
  sx_set_clock(kStart);
  int how = sx_case();   // 4: pairs of one identity; 5: one operation is important
#ifdef THOROUGH
  int total = 1 + sx_choose("total", 35); if (total == 35) total = 111;
#else
  static const int kTotals[] = {1, 9, 10, 11, 12, 20, 21, 23, 75};
  int total = kTotals[sx_choose("total", 9)];
#endif
  {
    Run R(how == 2 ? 1 : how == 3 ? 11 : 100, 1000);
    R.many = true;
    ReportRequest r; r.set_service_name(kSvc);
    for (int i = 0; i < total; i++) *r.add_operations() = R.make(R.add(how == 4 ? i / 2 : i, i % 3));
    if (how == 5) {
      int at = sx_choose("at", total);
      r.mutable_operations(at)->set_importance((Operation::Importance)sx_range32("importance", 1, 7));
      if (at > 1) sx_cover("important-later");
      R.report(r, 0, NOT_FOUND);
    } else R.report(r, 0, OK);
    if (how == 1) { advance_clock(5000000); R.flush(); }
    R.flush_all();
    if (total > 10 && how < 2) P8(R.requests >= 2, "more than 10 operations need more than one report");
    sx_cover("batch");
  }
  sx_check_leaks();
}

// Caching disabled; empty reports.
SX_ENTRY(h_report_off) {
  sx_set_clock(kStart);
  int e = sx_choose("entries", 3) - 1;   // -1, 0: disabled
  {
    Run R(e, 1000);
    for (int s = 0; s < 3; s++) {
      advance_clock(10000000);
      ReportRequest r; r.set_service_name(kSvc);
      int first = R.n, want = e > 0 ? OK : NOT_FOUND;
      switch (sx_choose("op", 5)) {
        case 0: *r.add_operations() = R.make(R.add(0, 1)); R.report(r, first, want); break;
        case 1: R.report(r, first, want); sx_cover("empty"); break;
        case 2: r.set_service_name("x"); *r.add_operations() = R.make(R.add(0, 1)); R.report(r, first, INVALID); break;
        case 3: R.flush(); break;
        case 4: R.flush_all(); break;
      }
    }
    R.flush_all();
    P8(R.a->GetNextFlushInterval() == (e > 0 ? 1000 : -1), "no flush is asked for without a cache");
    sx_cover("disabled");
  }
  sx_check_leaks();
}
