// C17 (same identity, same signature), C18 (different identity, different
// signature) and C32 (the digest object) on arbitrary bytes.
#include "common.h"
#include <openssl/md5.h>
#include <algorithm>
#include "src/signature.h"
#include "utils/md5.h"
using namespace google::service_control_client;
using namespace google::api::servicecontrol::v1;
using std::string;
typedef class google::service_control_client::MD5 Hasher;
namespace {
#ifdef THOROUGH
const int kBytes = 5;
#else
const int kBytes = 3;
#endif
// A string of up to `left` arbitrary non-NUL bytes.
string str(const char* n, int* left, int maxlen) {
  int m = *left < maxlen ? *left : maxlen;
  int len = sx_choose("len", m + 1);
  *left -= len;
  string s(len, 0);
  for (int i = 0; i < len; i++) { char c = sx_char(n); sx_assume(c != 0); s[i] = c; }
  return s;
}
bool eq(const string& a, const string& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()) == 0); }
typedef std::pair<string, string> KV;
typedef std::vector<KV> Labels;
Labels labels(int max, int* left) {
  Labels l;
  int n = sx_choose("nlabels", max + 1);
  for (int i = 0; i < n; i++) {
    string k = str("k", left, 2);
    for (auto& o : l) sx_assume(!eq(o.first, k));   // keys of one map
    string v = str("v", left, 2);
    l.push_back({k, v});
  }
  return l;
}
bool same(const Labels& a, const Labels& b) {
  if (a.size() != b.size()) return false;
  for (auto& x : a) {
    bool f = false;
    for (auto& y : b) f = f || (eq(x.first, y.first) && eq(x.second, y.second));
    if (!f) return false;
  }
  return true;
}
template <class M> void put(const Labels& l, bool rev, M* m) {
  for (size_t i = 0; i < l.size(); i++) { auto& x = l[rev ? l.size() - 1 - i : i]; (*m)[x.first] = x.second; }
}
struct Metric { string name; std::vector<Labels> values; };
struct Id { string name, consumer; Labels l; std::vector<Metric> m; };
void noise(MetricValue* v, int w) {
  if (w == 0) { v->set_int64_value(sx_i64("val")); return; }
  v->set_double_value(2.5); v->mutable_start_time()->set_seconds(sx_i64("t")); v->mutable_end_time()->set_nanos(7);
}
CheckRequest check(const Id& d, bool rev, int w) {
  CheckRequest r; Operation* o = r.mutable_operation();
  if (w) {   // everything that is not part of the identity
    r.set_service_name("svc"); r.set_service_config_id("cfg"); o->set_operation_id("id"); o->mutable_start_time()->set_seconds(sx_i64("t"));
    o->mutable_end_time()->set_seconds(3); o->set_importance(Operation::HIGH); o->add_log_entries()->set_name("log");
  }
  o->set_operation_name(d.name); o->set_consumer_id(d.consumer); put(d.l, rev, o->mutable_labels());
  for (size_t i = 0; i < d.m.size(); i++) {
    auto& m = d.m[rev ? d.m.size() - 1 - i : i];
    auto* s = o->add_metric_value_sets(); s->set_metric_name(m.name);
    for (size_t j = 0; j < m.values.size(); j++) { auto* x = s->add_metric_values(); put(m.values[rev ? m.values.size() - 1 - j : j], rev, x->mutable_labels()); noise(x, w); }
  }
  return r;
}
AllocateQuotaRequest quota(const Id& d, bool rev, int w) {
  AllocateQuotaRequest r; QuotaOperation* o = r.mutable_allocate_operation();
  if (w) { r.set_service_name("svc"); r.set_service_config_id("cfg"); o->set_operation_id("id"); (*o->mutable_labels())["x"] = "y"; o->set_quota_mode(QuotaOperation::BEST_EFFORT); }
  o->set_method_name(d.name); o->set_consumer_id(d.consumer);
  for (size_t i = 0; i < d.m.size(); i++) {
    auto& m = d.m[rev ? d.m.size() - 1 - i : i];
    auto* s = o->add_quota_metrics(); s->set_metric_name(m.name);
    auto* v = s->add_metric_values(); noise(v, w);
    if (w && i == 0) { auto* s2 = o->add_quota_metrics(); s2->set_metric_name(m.name); }   // the set of names counts
    if (w) (*v->mutable_labels())["q"] = "r";
  }
  return r;
}
// kind: 0 report operation, 1 metric value, 2 check, 3 quota
Id identity(int kind, int* left, bool again = false) {
  Id d;
  if (kind != 1) { d.name = str("name", left, 2); d.consumer = str("cons", left, 2); }
  if (kind <= 1) d.l = labels(2, left);
  if (kind == 2) d.l = labels(1, left);
  if (kind >= 2) {
    int n = sx_choose("nmetrics", 3);
    for (int i = 0; i < n; i++) {
      Metric m;
      if (kind == 2 && i == 1 && again && sx_bool("again")) {   // another set of the same metric
        m.name = d.m[0].name; m.values.push_back(labels(1, left)); d.m.push_back(m); sx_cover("again");
        continue;
      }
      m.name = str("m", left, 2);
      for (auto& o : d.m) sx_assume(!eq(o.name, m.name));
      if (kind == 2) { int nv = i == 0 ? sx_choose("nvalues", 3) : 1; for (int j = 0; j < nv; j++) m.values.push_back(i == 0 ? labels(j == 0 ? 2 : 1, left) : Labels()); }
      d.m.push_back(m);
    }
  }
  return d;
}
// All values of a metric together, in whatever sets they come.
std::vector<Metric> together(const Id& d) {
  std::vector<Metric> m;
  for (auto& x : d.m) {
    if (!m.empty() && eq(m[0].name, x.name)) m[0].values.insert(m[0].values.end(), x.values.begin(), x.values.end());
    else m.push_back(x);
  }
  return m;
}
bool same(const std::vector<Labels>& a, std::vector<Labels> b) {   // as multisets
  if (a.size() != b.size()) return false;
  for (auto& x : a) {
    size_t i = 0;
    while (i < b.size() && !same(x, b[i])) i++;
    if (i == b.size()) return false;
    b.erase(b.begin() + i);
  }
  return true;
}
bool same(int kind, const Id& a, const Id& b) {
  if (!eq(a.name, b.name) || !eq(a.consumer, b.consumer) || !same(a.l, b.l)) return false;
  std::vector<Metric> p = together(a), q = together(b);
  if (p.size() != q.size()) return false;
  for (auto& x : p) {
    bool f = false;
    for (auto& y : q) {
      if (!eq(x.name, y.name)) continue;
      f = true;
      if (kind == 2 && !same(x.values, y.values)) return false;
    }
    if (!f) return false;
  }
  return true;
}
string sign(int kind, const Id& d, bool rev, int w) {
  switch (kind) {
    case 0: {
      Operation o = check(d, rev, w).operation();
      if (w) o.add_metric_value_sets()->set_metric_name("zz");
      return GenerateReportOperationSignature(o);
    }
    case 1: { MetricValue v; put(d.l, rev, v.mutable_labels()); noise(&v, w); return GenerateReportMetricValueSignature(v); }
    case 2: return GenerateCheckRequestSignature(check(d, rev, w));
    default: return GenerateAllocateQuotaRequestSignature(quota(d, rev, w));
  }
}
// The strings of a check request in the order the signature takes them.
bool less(const string& a, const string& b) { return a < b; }
void sorted(Labels* l) { if (l->size() == 2 && less((*l)[1].first, (*l)[0].first)) std::swap((*l)[0], (*l)[1]); }
void flat(const Labels& l0, std::vector<string>* f) {
  Labels l = l0;
  sorted(&l);
  for (auto& x : l) { f->push_back(x.first); f->push_back(x.second); }
}
std::vector<string> flat(const Id& d) {
  std::vector<string> f;
  flat(d.l, &f);
  std::vector<Metric> m = together(d);
  if (m.size() == 2 && less(m[1].name, m[0].name)) std::swap(m[0], m[1]);
  for (auto& x : m) {
    f.push_back(x.name);
    for (auto& v : x.values) sorted(&v);
    std::sort(x.values.begin(), x.values.end());
    for (auto& v : x.values) flat(v, &f);
  }
  return f;
}
bool flat_equal(const Id& a, const Id& b) {
  if (!eq(a.name, b.name) || !eq(a.consumer, b.consumer)) return false;
  auto x = flat(a), y = flat(b);
  if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); i++) if (!eq(x[i], y[i])) return false;
  return true;
}
}  // namespace

// case: kind
SX_ENTRY(h_sig_same) {
  int kind = sx_case();
  int left = kBytes + 1;
  Id d = identity(kind, &left, true);
  sx_hash_mode = 0;
  string a = sign(kind, d, false, 0);
  sx_hash_mode = sx_choose("hash", 2) ? 3 : 0;
  string b = sign(kind, d, true, 1);
  sx_obs(a.size()); sx_obs(b.size()); sx_obs(eq(a, b));
  sx_assert(a.size() == 16 && b.size() == 16, "a signature has 16 bytes");
  sx_assert(eq(a, b), "the same identity gives the same signature");
  sx_cover("same");
}

SX_ENTRY(h_sig_differ) {
  int kind = sx_case();
  int la = kind == 2 ? kBytes - 1 : kBytes, lb = la;
  Id x = identity(kind, &la), y = identity(kind, &lb);
  if (same(kind, x, y)) { sx_cover("identical"); sx_assume(false); }
  if (kind == 2) sx_assume(!flat_equal(x, y));   // the listed finding, see h_sig_flat
  string a = sign(kind, x, false, 0), b = sign(kind, y, false, 0);
  sx_obs(eq(a, b));
  sx_assert(!eq(a, b), "different identities have different signatures");
  sx_cover("differ");
}

// Check requests with one or two sets of one or two metrics, of one or two values each.
SX_ENTRY(h_sig_sets) {
  Id x[2];
  for (auto& d : x) {
    int n = sx_choose("sets", 2) + 1;
    for (int i = 0; i < n; i++) {
      Metric m; m.name = i && sx_bool("other") ? "n" : "m";
      int nv = i ? 1 : sx_choose("values", 2) + 1;
      for (int j = 0; j < nv; j++) { Labels l; int k = sx_choose("label", 3); if (k) { string v(1, 'v'); if (i + j == 0) { char c = sx_char("v"); sx_assume(c != 0); v[0] = c; } l.push_back({k == 1 ? "k" : "l", v}); } m.values.push_back(l); }
      d.m.push_back(m);
    }
  }
  if (same(2, x[0], x[1])) { sx_cover("identical-sets"); sx_assume(false); }
  sx_assume(!flat_equal(x[0], x[1]));
  string a = sign(2, x[0], false, 0), b = sign(2, x[1], true, 0);
  sx_obs(eq(a, b));
  sx_assert(!eq(a, b), "different sets of metrics have different signatures");
  sx_cover("sets");
}

// Large identities: long strings, many labels, metrics and values.
namespace {
string digits(int i, int len) { string s; for (int j = 0; j < len; j++) { s += (char)('0' + i % 10); i = j == 2 ? i + 3 : i / 10 + (j > 2 ? j : 0); } return s; }
Labels many_labels(int n, int seed) {
  Labels l;
  for (int i = 0; i < n; i++) l.push_back({digits(seed + i, i == n / 2 ? 280 : 3), digits(7 * i + seed, i == n - 1 ? 1030 : i % 5)});
  return l;
}
Id large(int kind) {
  Id d;
  if (kind != 1) { d.name = digits(17, 1100); d.consumer = digits(23, 600); }
  if (kind <= 2) d.l = many_labels(18, 100);
  if (kind >= 2)
    for (int i = 0; i < 18; i++) {
      Metric m; m.name = digits(10 * i + 3, i == 17 ? 530 : 3);
      if (kind == 2) for (int j = 0; j < (i == 4 ? 9 : i % 3); j++) m.values.push_back(j == 0 ? many_labels(i == 2 ? 9 : 1, 400) : many_labels(1, 500 + j));
      d.m.push_back(m);
    }
  return d;
}
void parts(Labels* l, std::vector<string*>* p, std::vector<Labels*>* ls) { if (!l->empty()) ls->push_back(l); for (auto& x : *l) { p->push_back(&x.first); p->push_back(&x.second); } }
}
// case: kind
SX_ENTRY(h_sig_large_same) {
  int kind = sx_case();
  Id d = large(kind);
  string a = sign(kind, d, false, 0);
  sx_hash_mode = 3;
  string b = sign(kind, d, true, 1);
  sx_obs(eq(a, b));
  sx_assert(eq(a, b), "the same identity gives the same signature");
  sx_cover("large");
}
SX_ENTRY(h_sig_large_differ) {
  int kind = sx_case();
  Id x = large(kind), y = large(kind);
  std::vector<string*> p; std::vector<Labels*> ls;
  if (kind != 1) { p.push_back(&y.name); p.push_back(&y.consumer); }
  parts(&y.l, &p, &ls);
  for (auto& m : y.m) { p.push_back(&m.name); for (auto& v : m.values) parts(&v, &p, &ls); }
  int how = sx_choose("how", ls.empty() ? 4 : 6);
  if (how == 3 && (kind < 2 || y.m.empty())) sx_assume(false);
  if (how < 3) {
    string& s = *p[sx_choose("part", (int)p.size())];
    if (how == 2) { char c = sx_char("c"); sx_assume((c < '0') | (c > '9')); sx_assume(c != 0); s += c; sx_cover("longer"); }
    else {
      if (s.empty()) sx_assume(false);
      if (how == 1) { if (s.size() == 3) sx_assume(false); s.resize(s.size() - 1); sx_cover("shorter"); }
      else {
        int at = sx_choose("at", s.size() < 3 ? (int)s.size() : 5);
        size_t i = at < 3 ? at : at == 3 ? s.size() / 2 : s.size() - 1;
        char c = sx_char("c"); sx_assume((c < '0') | (c > '9')); sx_assume(c != 0); s[i] = c; sx_cover("byte");
      }
    }
  } else if (how == 3) { y.m.erase(y.m.begin() + sx_choose("metric", (int)y.m.size())); sx_cover("metric"); }
  else {
    Labels& l = *ls[sx_choose("labels", (int)ls.size())];
    int n = (int)l.size(), i = n == 1 ? 0 : sx_choose("label", n);
    if (how == 4) { l.erase(l.begin() + i); sx_cover("label"); }
    else { if (i + 1 == n) sx_assume(false); if (eq(l[i].second, l[i + 1].second)) sx_assume(false); std::swap(l[i].second, l[i + 1].second); sx_cover("swapped"); }
  }
  string a = sign(kind, x, false, 0), b = sign(kind, y, false, 0);
  sx_obs(eq(a, b));
  sx_assert(!eq(a, b), "different identities have different signatures");
}

// Check requests whose strings are the same but differently divided into
// labels and metrics.
SX_ENTRY(h_sig_flat) {
  int la = 2, lb = 2;
  Id x = identity(2, &la), y = identity(2, &lb);
  if (same(2, x, y)) sx_assume(false);
  sx_assume(flat_equal(x, y));
  string a = sign(2, x, false, 0), b = sign(2, y, false, 0);
  sx_obs(eq(a, b));
  sx_assert(!eq(a, b), "[KF:check-signature-flat] different check requests have different signatures");
}

namespace {
string plain(const string& s) {
  MD5_CTX c; MD5_Init(&c);
  if (!s.empty()) MD5_Update(&c, s.data(), s.size());
  unsigned char d[16]; MD5_Final(d, &c);
  return string((char*)d, 16);
}
}
SX_ENTRY(h_md5_chunks) {
  Hasher h; string want;
  int n = sx_choose("chunks", 4);
  for (int i = 0; i < n; i++) {
    switch (sx_choose("overload", 4)) {
      case 0: { string s = sx_bytes("raw", sx_choose("n", 4)); Hasher& r = h.Update((const void*)s.data(), s.size()); sx_assert(&r == &h, "updates can be chained"); want += s; sx_cover("raw"); break; }
      case 1: { string s = sx_bytes("str", sx_choose("n", 4)); h.Update(s); want += s; sx_cover("string"); break; }
      case 2: { char b[4]; for (int j = 0; j < 3; j++) b[j] = sx_char("cstr"); b[3] = 0; h.Update(b); want += b; sx_cover("cstring"); break; }
      case 3: { int v = sx_i32("int"); h.Update(v); want.append((const char*)&v, sizeof v); sx_cover("int"); break; }
    }
  }
  string d = h.Digest();
  sx_assert(d.size() == 16, "the digest has 16 bytes");
  sx_assert(eq(d, plain(want)), "the digest is that of all bytes in order");
  sx_assert(eq(h.Digest(), d), "the digest does not change when asked for again");
  sx_obs(want.size());
}
SX_ENTRY(h_md5_whole) {
  static const int kLen[] = {0, 1, 63, 64, 65, 130};
  string s = sx_bytes("b", kLen[sx_choose("len", 6)]);
  Hasher h;
  sx_assert(eq(h(s.data(), s.size()), plain(s)), "the short form gives the digest of the bytes");
  Hasher g; size_t cut = s.size() / 2; g.Update(s.data(), cut); g.Update(string(s, cut));
  sx_assert(eq(g.Digest(), plain(s)), "the division into chunks does not matter");
  sx_cover("whole");
}
SX_ENTRY(h_md5_print) {
  string d = sx_bytes("d", 16);
  string p = Hasher::DebugString(d);
  sx_assert(p.size() == 32, "two digits per byte");
  for (int i = 0; i < 16; i++)
    for (int j = 0; j < 2; j++) {
      int v = j ? (unsigned char)d[i] & 15 : ((unsigned char)d[i] >> 4);
      char want = (char)(v < 10 ? '0' + v : 'a' + v - 10);
      sx_obs(p[2 * i + j]);
      sx_assert(p[2 * i + j] == want, "hex digits of the digest");
    }
  sx_cover("printed");
}
