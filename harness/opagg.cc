// C14 (delta metrics add up), C15 (gauge and cumulative keep the latest), C16
// (identity, log entries, spans and the set of metrics) of merged operations.
#include "agg.h"
#include "src/operation_aggregator.h"
#include "src/quota_operation_aggregator.h"
#ifndef PROP
#define PROP 0
#endif
#define PX(n, c, m) do { bool c_ = (c); if (PROP == 0 || PROP == n) sx_assert(c_, m); } while (0)
#define P14(c, m) PX(14, c, m)
#define P15(c, m) PX(15, c, m)
#define P16(c, m) PX(16, c, m)
#ifdef THOROUGH
#define EXTRA 1
#else
#define EXTRA 0
#endif
using google::protobuf::Timestamp;
namespace {
typedef std::unordered_map<string, MetricDescriptor::MetricKind> Kinds;
// ---- values of every type
enum Type { INT, DBL, DIST, BOOL, STR, NONE, DIST2, DIST0 };
struct Val { int type = -1; int64_t i = 0; double d = 0; int64_t n[3] = {0, 0, 0}, count = 0; bool b = false; char c = 0; };
Val value(int type) {
  Val v; v.type = type;
  if (type == INT) v.i = sx_range("int", -(1ll << 60), 1ll << 60);
  if (type == DBL) v.d = sx_double("double");
  if (type == DIST0) v.type = DIST;   // without samples
  if (type == DIST || type == DIST2) { for (int k = 0; k < 3; k++) v.n[k] = sx_range("bucket", 1, 1ll << 60); v.count = 5; }   // the count: see C23
  if (type == BOOL) v.b = sx_bool("bool");
  if (type == STR) v.c = (char)('a' + (sx_bool("str") ? 1 : 0));
  return v;
}
void put(MetricValue* m, const Val& v) {
  switch (v.type) {
    case INT: m->set_int64_value(v.i); break;
    case DBL: m->set_double_value(v.d); break;
    case BOOL: m->set_bool_value(v.b); break;
    case STR: m->set_string_value(string(1, v.c)); break;
    case DIST: case DIST2: {
      Distribution* d = m->mutable_distribution_value();
      if (v.count) { d->set_count(v.count); d->set_mean(1); d->set_minimum(1); d->set_maximum(1); }
      d->mutable_explicit_buckets()->add_bounds(v.type == DIST2 ? 3 : 1); d->mutable_explicit_buckets()->add_bounds(5);
      for (int k = 0; k < 3; k++) d->add_bucket_counts(v.n[k]);
    }
  }
}
bool same_double(double a, double b) { int64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (x == y) | ((a != a) & (b != b)); }
bool is(const MetricValue& m, const Val& v) {
  switch (v.type) {
    case INT: return m.value_case() == MetricValue::kInt64Value && m.int64_value() == v.i;
    case DBL: return m.value_case() == MetricValue::kDoubleValue && same_double(m.double_value(), v.d);
    case BOOL: return m.value_case() == MetricValue::kBoolValue && m.bool_value() == v.b;
    case STR: return m.value_case() == MetricValue::kStringValue && m.string_value() == string(1, v.c);
    case NONE: return m.value_case() == MetricValue::VALUE_NOT_SET;
    case DIST: case DIST2: {
      if (m.value_case() != MetricValue::kDistributionValue) return false;
      const Distribution& d = m.distribution_value();
      if (d.bucket_counts_size() != 3 || d.explicit_buckets().bounds_size() != 2) return false;
      bool ok = (d.count() == v.count) & (d.explicit_buckets().bounds(0) == (v.type == DIST2 ? 3 : 1));
      for (int k = 0; k < 3; k++) ok &= d.bucket_counts(k) == v.n[k];
      return ok;
    }
  }
  return false;
}
void add(Val* to, const Val& v) {
  if (to->type != v.type) { sx_cover("incompatible"); return; }
  if (v.type == INT) to->i += v.i;
  if (v.type == DBL) to->d = to->d + v.d;
  if (v.type == DIST || v.type == DIST2) { for (int k = 0; k < 3; k++) to->n[k] += v.n[k]; to->count += v.count; }
}
void obs(const MetricValue& m) {
  sx_obs(m.value_case());
  if (m.value_case() == MetricValue::kInt64Value) sx_obs(m.int64_value());
  if (m.value_case() == MetricValue::kDoubleValue) sx_obs_double(m.double_value());
  if (m.value_case() == MetricValue::kDistributionValue) sx_obs(m.distribution_value().count());
}
// The real build's descriptors are allocated on first use, for good.
void warm_up() {
  if (sx_symbolic_mode()) return;
  for (int t = 0; t < 7; t++) { MetricValue m; Val v; v.type = t; put(&m, v); m.mutable_start_time(); m.mutable_end_time(); (*m.mutable_labels())["l"] = "v"; (void)m.DebugString(); Distribution d; d.mutable_linear_buckets(); (void)d.DebugString(); d.mutable_exponential_buckets(); (void)d.DebugString(); }
  sx_heap_mark();
}
const MetricValue* find(const Operation& o, const char* metric, bool labelled) {
  const MetricValue* r = nullptr;
  for (auto& s : o.metric_value_sets()) {
    if (s.metric_name() != metric) continue;
    for (auto& v : s.metric_values()) if ((v.labels().size() == 1) == labelled) { if (r) return nullptr; r = &v; }
  }
  return r;
}
int count_values(const Operation& o) { int n = 0; for (auto& s : o.metric_value_sets()) n += s.metric_values_size(); return n; }
Operation base_op() { Operation o; o.set_operation_name("op"); o.set_consumer_id("c"); o.set_operation_id("first"); return o; }

// ---- timestamps over their full range
struct Stamp { bool has = false; int64_t s = 0; int32_t n = 0; };
Stamp stamp(bool has) {
  Stamp t; t.has = has;
  if (has) { t.s = sx_i64("seconds"); t.n = sx_i32("nanos"); }
  return t;
}
void set(Timestamp* t, const Stamp& s) { t->set_seconds(s.s); t->set_nanos(s.n); }
bool before(const Stamp& a, const Stamp& b) { return (a.s < b.s) | ((a.s == b.s) & (a.n < b.n)); }
bool eq(const Stamp& s, bool has, const Timestamp& t) { return s.has == has && (!has || ((t.seconds() == s.s) & (t.nanos() == s.n))); }
// the earlier (later) of two, without branching
Stamp merge(const Stamp& a, const Stamp& b, bool later) {
  if (!a.has) return b;
  if (!b.has) return a;
  bool take = later ? before(a, b) : before(b, a);
  Stamp r; r.has = true;
  r.s = a.s ^ ((a.s ^ b.s) & -(int64_t)take); r.n = a.n ^ ((a.n ^ b.n) & -(int32_t)take);
  return r;
}
}  // namespace

// Values of every type, with and without labels, on one or two metrics.
// case 0: types, one metric; 1: two label sets; 2: two metrics, some operations without one
SX_ENTRY(h_op_values) {
  warm_up();
  int shape = sx_case(), n = 3 + EXTRA;
  {
    Val want[2];   // [labelled or second metric]
    std::unique_ptr<OperationAggregator> a;
    sx_hash_mode = shape == 0 ? 0 : sx_choose("hash", 4);
    for (int i = 0; i < n; i++) {
      Operation o = base_op();
      int used = 0;
      // shape 1: up to two values per operation in one set; shape 2: two sets
      int which = shape == 0 ? 1 : i == 0 ? sx_choose("which", 3) + 1 : sx_choose("which", 4);   // bit set of the values present
      for (int k = 0; k < 2; k++) {
        if (!(which >> k & 1)) continue;
        int t = shape == 0 ? sx_choose("type", 8) : k == 0 ? INT : sx_choose("type2", 2) ? DBL : INT;
        MetricValueSet* s = shape == 2 || used == 0 ? o.add_metric_value_sets() : o.mutable_metric_value_sets(0);
        s->set_metric_name(shape == 2 && k ? "w" : "m");
        MetricValue* m = s->add_metric_values();
        if (shape == 1 && k) (*m->mutable_labels())["l"] = "v";
        Val v = value(t);
        put(m, v);
        if (want[k].type < 0) want[k] = v; else add(&want[k], v);
        used++;
      }
      if (!a) a.reset(new OperationAggregator(o, nullptr)); else a->MergeOperation(o);
    }
    Operation r = a->ToOperationProto();
    int expect = (want[0].type >= 0) + (want[1].type >= 0);
    int got = count_values(r); sx_obs(got);
    P14(got == expect, "one value per metric and label set");
    P16(got == expect, "one value per metric and label set");
    for (int k = 0; k < 2; k++) {
      if (want[k].type < 0) continue;
      const MetricValue* m = find(r, shape == 2 && k ? "w" : "m", shape == 1 && k);
      P14(m != nullptr, "every metric and label set is kept");
      P16(m != nullptr, "every metric is kept under its own name and labels");
      if (!m) continue;
      obs(*m);
      P14(is(*m, want[k]), "values of delta metrics add up; incompatible ones change nothing");
    }
    sx_cover("values");
    Operation again = a->ToOperationProto();
    P16(count_values(again) == expect, "reading the result does not change it");
  }
  sx_check_leaks();
}

// Time spans.  case 0: of the operation, 1: of a delta metric value, 2: of an incompatible value
SX_ENTRY(h_op_times) {
  warm_up();
  int level = sx_case(), n = 3;
  {
    Stamp ws, we;
    std::unique_ptr<OperationAggregator> a;
    for (int i = 0; i < n; i++) {
      int has = sx_choose("present", 4);
      Stamp s = stamp(has & 1), e = stamp(has & 2);
      Operation o = base_op();
      bool odd = level == 2 && i == 1;
      MetricValueSet* set_ = o.add_metric_value_sets(); set_->set_metric_name("m");
      MetricValue* m = set_->add_metric_values();
      if (odd) m->set_string_value("x"); else m->set_int64_value(i + 1);
      if (level == 0) { if (s.has) set(o.mutable_start_time(), s); if (e.has) set(o.mutable_end_time(), e); }
      else { if (s.has) set(m->mutable_start_time(), s); if (e.has) set(m->mutable_end_time(), e); }
      if (i == 0) { ws = s; we = e; } else if (!odd) { ws = merge(ws, s, false); we = merge(we, e, true); }
      if (!a) a.reset(new OperationAggregator(o, nullptr)); else a->MergeOperation(o);
    }
    Operation r = a->ToOperationProto();
    const MetricValue* m = find(r, "m", false);
    P14(m != nullptr, "the metric is kept");
    if (m) {
      bool hs = level == 0 ? r.has_start_time() : m->has_start_time(), he = level == 0 ? r.has_end_time() : m->has_end_time();
      const Timestamp &ts = level == 0 ? r.start_time() : m->start_time(), &te = level == 0 ? r.end_time() : m->end_time();
      sx_obs(hs); sx_obs(he); sx_obs(ts.seconds()); sx_obs(ts.nanos()); sx_obs(te.seconds()); sx_obs(te.nanos());
      bool ok1 = eq(ws, hs, ts), ok2 = eq(we, he, te);
      if (level == 0) { P16(ok1, "the start time is the earliest of all"); P16(ok2, "the end time is the latest of all"); P14(m->int64_value() == 6, "values add up"); sx_cover("op-span"); }
      else { P14(ok1, "the start time of a metric is the earliest of all"); P14(ok2, "the end time of a metric is the latest of all"); sx_cover("value-span"); }
    }
  }
  sx_check_leaks();
}

// Kinds of metrics: complete values, latest end time wins.
// case 0..3: kind of "m" (gauge, cumulative, delta, not in the map) with "w" of a different kind; 4: no map at all
namespace {
const MetricDescriptor::MetricKind kKind[] = {MetricDescriptor::GAUGE, MetricDescriptor::CUMULATIVE, MetricDescriptor::DELTA};
struct Full { bool any = false; Stamp s, e; Val v; };
void check_full(const MetricValue* m, const Full& f) {
  P15(m != nullptr, "every metric is kept");
  if (!m) return;
  obs(*m);
  bool st = eq(f.s, m->has_start_time(), m->start_time()), en = eq(f.e, m->has_end_time(), m->end_time());
  P15(is(*m, f.v), "the value of a gauge or cumulative metric is the one with the latest end time, that of a delta metric the sum");
  P15(en, "the end time is the latest");
  P15(st, "the start time belongs to the value");
}
void merge_full(Full* f, const Full& g, bool delta) {
  if (!f->any) { *f = g; return; }
  if (delta) {
    if (f->v.type != g.v.type) return;
    add(&f->v, g.v); f->s = merge(f->s, g.s, false); f->e = merge(f->e, g.e, true);
    return;
  }
  if (before(g.e, f->e)) { sx_cover("older"); return; }   // absent counts as zero
  *f = g; sx_cover("newer");
}
}  // namespace
SX_ENTRY(h_op_kinds) {
  warm_up();
  int c = sx_case();
  {
    Kinds kinds;
    bool delta[2];
    if (c < 3) kinds["m"] = kKind[c];
    delta[0] = c >= 2;
    int second = c == 4 ? 2 : sx_choose("kind2", 3);
    if (second < 2) kinds["w"] = kKind[second];
    delta[1] = second == 2;
    sx_hash_mode = c % 4;
    Full want[2];
    std::unique_ptr<OperationAggregator> a;
    for (int i = 0; i < 3 + EXTRA; i++) {
      Operation o = base_op();
      int which = i == 0 ? 3 : sx_choose("which", 3) + 1;
      for (int k = 0; k < 2; k++) {
        if (!(which >> k & 1)) continue;
        Full g; g.any = true;
        if (k == 0) {
          bool odd = i == 1 && sx_choose("type", 2);
          g.v = value(odd ? STR : INT);
          g.s.has = true; g.s.s = 50 + (i * 2) % 3;
          g.e.has = i == 0 || sx_choose("ended", 2);
          if (g.e.has) { g.e.s = sx_i64("seconds"); g.e.n = i ? sx_i32("nanos") : 5; }
        } else { static const int ends[] = {2, 1, 2, 0}; g.v = value(INT); g.e.has = true; g.e.s = ends[i]; }
        MetricValueSet* s = o.add_metric_value_sets(); s->set_metric_name(k ? "w" : "m");
        MetricValue* m = s->add_metric_values(); put(m, g.v);
        if (g.s.has) set(m->mutable_start_time(), g.s);
        if (g.e.has) set(m->mutable_end_time(), g.e);
        merge_full(&want[k], g, delta[k]);
      }
      if (!a) a.reset(new OperationAggregator(o, c == 4 ? nullptr : &kinds)); else a->MergeOperation(o);
    }
    Operation r = a->ToOperationProto();
    P15(count_values(r) == 2, "one value per metric");
    check_full(find(r, "m", false), want[0]); check_full(find(r, "w", false), want[1]);
    sx_cover(delta[0] ? "delta" : "kept");
  }
  sx_check_leaks();
}

// The same through the report and the check aggregator: their kinds are used.
SX_ENTRY(h_agg_kinds) {
  warm_up();
  bool check = sx_case() == 1;
  sx_set_clock(kStart);
  {
    std::shared_ptr<MetricKindMap> kinds(new MetricKindMap);
    int kind = sx_choose("kind", 3);
    if (kind < 2) (*kinds)["m"] = kKind[kind];
    Full want; int flushed = 0;
    auto verify = [&](const Operation& o) { flushed++; P15(count_values(o) == 1, "one value per metric"); check_full(find(o, "m", false), want); };
    std::unique_ptr<ReportAggregator> ra; std::unique_ptr<CheckAggregator> ca;
    if (check) {
      ca = CreateCheckAggregator(kSvc, kCfg, CheckAggregationOptions(10, 1000000, 2000000), kinds);
      ca->SetFlushCallback([&](const CheckRequest& r) { verify(r.operation()); });
    } else {
      ra = CreateReportAggregator(kSvc, kCfg, ReportAggregationOptions(10, 1000), kinds);
      ra->SetFlushCallback([&](const ReportRequest& r) { P15(r.operations_size() == 1, "one operation"); verify(r.operations(0)); });
    }
    kinds.reset();   // the aggregators share it
    for (int i = 0; i < 3; i++) {
      Operation o = base_op();
      Full g; g.any = true; g.v = value(INT); g.e.has = true; g.e.s = sx_i64("seconds"); g.e.n = sx_i32("nanos");
      MetricValueSet* s = o.add_metric_value_sets(); s->set_metric_name("m");
      MetricValue* m = s->add_metric_values(); put(m, g.v); set(m->mutable_end_time(), g.e);
      if (check) {
        CheckRequest r; r.set_service_name(kSvc); *r.mutable_operation() = o;
        if (i == 0) { CheckResponse ok; Status st = ca->CacheResponse(r, ok); P15(st.ok(), "cached"); }
        CheckResponse got; Status st = ca->Check(r, &got);
        P15(st.ok(), "a cached check is answered");
      } else { ReportRequest r; r.set_service_name(kSvc); *r.add_operations() = o; Status st = ra->Report(r); P15(st.ok(), "accepted"); }
      merge_full(&want, g, kind == 2);
    }
    Status st = check ? ca->FlushAll() : ra->FlushAll();
    P15(st.ok() && flushed == 1, "one request is sent");
    sx_cover("through");
  }
  sx_check_leaks();
}

// Many metrics, label sets and operations: 9 metrics with up to 7 label sets
// each; one operation (and in it one metric) is left out by choice, and the same
// metric and labels may come twice in one operation.  case: hash order
namespace {
const int kMetrics = 9, kSets = 7;
string num(const char* p, int i) { string s(p); if (i >= 10) s += (char)('0' + i / 10); return s + (char)('0' + i % 10); }
int labels_of(int j) { return j ? 1 + j % 3 : 0; }
int sets_of(int m) { return 1 + (m * 3) % kSets; }
void put_labels(MetricValue* v, int j, bool rev) {
  for (int q = 0; q < labels_of(j); q++) { int w = rev ? labels_of(j) - 1 - q : q; (*v->mutable_labels())[num("k", w)] = num("v", j / 4 + (w == 1 ? 1 : 0)); }
}
// the label set a value has, -1 for none of them
int set_index(const MetricValue& v) {
  for (int j = 0; j < kSets; j++) {
    if ((int)v.labels().size() != labels_of(j)) continue;
    bool ok = true;
    for (int w = 0; w < labels_of(j); w++) { auto it = v.labels().find(num("k", w)); ok = ok && it != v.labels().end() && it->second == num("v", j / 4 + (w == 1 ? 1 : 0)); }
    if (ok) return j;
  }
  return -1;
}
}
SX_ENTRY(h_op_large) {
  sx_hash_mode = sx_case();
  {
    int64_t want[kMetrics][kSets] = {}; bool any[kMetrics][kSets] = {}; int expect = 0, logs = 0;
    Kinds kinds; kinds["m4"] = MetricDescriptor::GAUGE; kinds["m0"] = MetricDescriptor::DELTA;
    int skip = sx_choose("skip", kMetrics + 1), twice = sx_choose("twice", 3);
    std::unique_ptr<OperationAggregator> a;
    for (int i = 0; i < 10; i++) {
      Operation o = base_op();
      for (int q = 0; q < kMetrics; q++) {
        int m = i & 1 ? kMetrics - 1 - q : q;
        if (i < 2 && m == skip) continue;
        MetricValueSet* s = o.add_metric_value_sets(); s->set_metric_name(num("m", m));
        for (int r = 0; r < sets_of(m); r++) {
          int j = i == 2 ? sets_of(m) - 1 - r : r;
          if (i == 0 && j == 5) continue;
          for (int t = 0; t < (i == twice && j == 0 ? 2 : 1); t++) {
            MetricValue* v = s->add_metric_values();
            put_labels(v, j, i & 1);
            int64_t x = j == q % 2 ? sx_range("int", -1000000, 1000000) : 100 * i + m;
            v->set_int64_value(x); v->mutable_end_time()->set_seconds(10 + i);
            if (!any[m][j]) { any[m][j] = true; expect++; want[m][j] = x; }
            else if (m == 4) want[m][j] = x;
            else want[m][j] += x;
          }
        }
      }
      for (int l = 0; l < 3 * i; l++) o.add_log_entries()->set_name(num("l", logs++ % 100));
      if (!a) a.reset(new OperationAggregator(o, &kinds)); else a->MergeOperation(o);
    }
    Operation r = a->ToOperationProto();
    int n = count_values(r); sx_obs(n);
    P14(n == expect, "one value per metric and label set"); P15(n == expect, "one value per metric and label set"); P16(n == expect, "one value per metric and label set");
    bool seen[kMetrics][kSets] = {}; int sets = 0;
    for (auto& s : r.metric_value_sets()) {
      int m = s.metric_name().size() == 2 && s.metric_name()[0] == 'm' ? s.metric_name()[1] - '0' : -1;
      bool known = m >= 0 && m < kMetrics; sets++;
      P16(known, "metric names are kept");
      if (!known) continue;
      for (auto& v : s.metric_values()) {
        int j = set_index(v);
        bool fresh = j >= 0 && any[m][j] && !seen[m][j];
        P14(fresh, "values are kept under their labels"); P16(fresh, "every metric is kept under its own name and labels");
        if (!fresh) continue;
        seen[m][j] = true;
        if (m == 4) P15(v.int64_value() == want[m][j], "the value with the latest end time is kept");
        else P14(v.int64_value() == want[m][j], "values of delta metrics add up");
      }
    }
    P16(sets == kMetrics, "one set per metric");
    P16(r.log_entries_size() == logs, "every log entry is kept once");
    for (int l = 0; l < logs && l < r.log_entries_size(); l++) P16(r.log_entries(l).name() == num("l", l % 100), "log entries are kept in arrival order");
    sx_cover("large");
  }
  sx_check_leaks();
}
// The spans of the amounts; case 1 with an incompatible amount in between.
SX_ENTRY(h_quota_times) {
  warm_up();
  int shape = sx_case();
  {
    Stamp ws, we;
    std::unique_ptr<QuotaOperationAggregator> a;
    for (int i = 0; i < 3; i++) {
      int has = sx_choose("present", 4);
      Stamp s = stamp(has & 1), e = stamp(has & 2);
      QuotaOperation o; o.set_method_name("q"); o.set_consumer_id("c");
      bool odd = shape == 1 && i == 1;
      MetricValueSet* q = o.add_quota_metrics(); q->set_metric_name("m");
      MetricValue* m = q->add_metric_values();
      if (odd) m->set_string_value("x"); else m->set_int64_value(i + 1);
      if (s.has) set(m->mutable_start_time(), s);
      if (e.has) set(m->mutable_end_time(), e);
      if (i == 0) { ws = s; we = e; } else if (!odd) { ws = merge(ws, s, false); we = merge(we, e, true); }
      if (!a) a.reset(new QuotaOperationAggregator(o)); else a->MergeOperation(o);
    }
    QuotaOperation r = a->ToOperationProto();
    P14(r.quota_metrics_size() == 1 && r.quota_metrics(0).metric_values_size() == 1, "one amount per metric");
    if (r.quota_metrics_size() == 1 && r.quota_metrics(0).metric_values_size() == 1) {
      const MetricValue& m = r.quota_metrics(0).metric_values(0);
      sx_obs(m.has_start_time()); sx_obs(m.has_end_time()); sx_obs(m.start_time().seconds()); sx_obs(m.end_time().nanos());
      bool ok1 = eq(ws, m.has_start_time(), m.start_time()), ok2 = eq(we, m.has_end_time(), m.end_time());
      P14(ok1, "the start time of an amount is the earliest of all"); P14(ok2, "the end time of an amount is the latest of all");
      P14(m.int64_value() == (shape == 1 ? 4 : 6), "amounts of one metric add up");
      sx_cover("quota-span");
    }
  }
  sx_check_leaks();
}
SX_ENTRY(h_quota_large) {
  sx_hash_mode = sx_case();
  {
    const int N = 20;
    int64_t want[N] = {}; bool any[N] = {};
    int skip = sx_choose("skip", N);
    std::unique_ptr<QuotaOperationAggregator> a;
    for (int i = 0; i < 10; i++) {
      QuotaOperation o; o.set_method_name("q"); o.set_consumer_id("c");
      for (int q = 0; q < N; q++) {
        int m = i & 1 ? N - 1 - q : q;
        if (m == skip && i != 2) continue;
        if (i == 0 && m == 13) continue;
        MetricValueSet* s = o.add_quota_metrics(); s->set_metric_name(num("m", m));
        int64_t x = q % 5 ? 100 * i + m : sx_range("int", 0, 1000000);
        s->add_metric_values()->set_int64_value(x);
        want[m] += x; any[m] = true;
      }
      if (!a) a.reset(new QuotaOperationAggregator(o)); else a->MergeOperation(o);
    }
    QuotaOperation r = a->ToOperationProto();
    P14(r.quota_metrics_size() == N, "one amount per metric");
    bool seen[N] = {};
    for (auto& s : r.quota_metrics()) {
      int m = -1;
      for (int k = 0; k < N; k++) if (s.metric_name() == num("m", k)) m = k;
      P14(m >= 0 && any[m] && !seen[m] && s.metric_values_size() == 1, "one amount per metric");
      if (m < 0) continue;
      seen[m] = true;
      P14(s.metric_values(0).int64_value() == want[m], "amounts of one metric add up");
    }
    sx_cover("large");
  }
  sx_check_leaks();
}

string ltag(const char* p, int i) { return tag(p, i / 26) + (char)('a' + i % 26); }
// Identity and log entries.
SX_ENTRY(h_op_logs) {
  warm_up();
  {
    static const int counts[] = {0, 1, 2, 3, 100};
    int total = 0, first = 0; bool ts = sx_bool("stamped");
    char at[128];
    std::unique_ptr<OperationAggregator> a;
    Operation o1;
    int imp = sx_range32("importance", 0, 3);
    for (int i = 0; i < 3 + EXTRA; i++) {
      Operation o;
      o.set_operation_name("op"); o.set_consumer_id("c");
      o.set_operation_id(tag("id", i));
      o.set_importance((Operation::Importance)(i == 0 ? imp : sx_range32("importance2", 0, 3)));
      (*o.mutable_labels())["l"] = "v";
      if (i == 0) (*o.mutable_labels())["k"] = "u";
      int n = counts[sx_choose("logs", i ? 4 : 5)];
      for (int j = 0; j < n; j++) {
        LogEntry* e = o.add_log_entries();
        e->set_name(ltag("log", total)); e->set_insert_id(tag("id", i)); e->set_text_payload(ltag("text", total));
        e->set_severity((google::logging::type::LogSeverity)(100 * (total % 3)));
        if (ts) e->mutable_timestamp()->set_seconds(1000 - total);
        at[total] = (char)i;
        total++;
      }
      if (i == 0) first = n;
      if (!a) a.reset(new OperationAggregator(o, nullptr)); else a->MergeOperation(o);
    }
    Operation r = a->ToOperationProto();
    sx_obs(r.log_entries_size()); sx_obs(r.importance());
    P16(r.operation_name() == "op" && r.consumer_id() == "c", "the name and the consumer are kept");
    P16(r.operation_id() == "ida", "the id of the first operation is kept");
    P16(r.importance() == imp, "the importance of the first operation is kept");
    P16(r.labels().size() == 2 && r.labels().at("l") == "v" && r.labels().at("k") == "u", "the labels of the first operation are kept");
    P16(!r.has_start_time() && !r.has_end_time(), "no times are invented");
    P16(r.metric_value_sets_size() == 0, "no metrics are invented");
    P16(r.log_entries_size() == total, "every log entry is kept once");
    for (int i = 0; i < total && i < r.log_entries_size(); i++) {
      const LogEntry& e = r.log_entries(i);
      P16(e.name() == ltag("log", i) && e.insert_id() == tag("id", at[i]) && e.text_payload() == ltag("text", i) && e.severity() == 100 * (i % 3), "log entries are kept in arrival order, unchanged");
      P16(e.has_timestamp() == ts && (!ts || e.timestamp().seconds() == 1000 - i), "log entries are kept in arrival order, unchanged");
    }
    sx_cover(total > first ? "logs" : "nologs");
  }
  sx_check_leaks();
}

// Amounts of quota operations.
SX_ENTRY(h_quota_values) {
  warm_up();
  {
    std::unique_ptr<QuotaOperationAggregator> a;
    Val want[2];
    sx_hash_mode = sx_choose("hash", 4);
    for (int i = 0; i < 3 + EXTRA; i++) {
      QuotaOperation o; o.set_method_name("q"); o.set_consumer_id("c"); o.set_operation_id(tag("id", i)); o.set_quota_mode(QuotaOperation::BEST_EFFORT);
      int which = i == 0 ? 3 : sx_choose("which", 3) + 1;
      bool flip = i == 1 && sx_choose("flip", 2);
      for (int j = 0; j < 2; j++) {
        int k = flip ? 1 - j : j;
        if (!(which >> k & 1)) continue;
        MetricValueSet* s = o.add_quota_metrics(); s->set_metric_name(k ? "w" : "m");
        Val v = value(k == 0 && i == 1 && sx_choose("type", 2) ? STR : INT);
        put(s->add_metric_values(), v);
        if (want[k].type < 0) want[k] = v; else add(&want[k], v);
      }
      if (!a) a.reset(new QuotaOperationAggregator(o)); else a->MergeOperation(o);
    }
    QuotaOperation r = a->ToOperationProto();
    P14(r.quota_metrics_size() == 2, "one amount per metric");
    P16(r.method_name() == "q" && r.consumer_id() == "c" && r.operation_id() == "ida" && r.quota_mode() == QuotaOperation::BEST_EFFORT, "the plain fields of the first operation are kept");
    for (auto& s : r.quota_metrics()) {
      P14(s.metric_values_size() == 1, "one amount per metric");
      int k = s.metric_name() == "w";
      P14(s.metric_name() == (k ? "w" : "m"), "metric names are kept");
      P14(is(s.metric_values(0), want[k]), "amounts of one metric add up; incompatible ones change nothing");
    }
    sx_cover("quota");
  }
  sx_check_leaks();
}
