// C21 (which bucket), C22 (statistics), C23 (merging), C24 (initialization) of
// distributions.
#include "common.h"
#include "google/api/servicecontrol/v1/distribution.pb.h"
#include "utils/distribution_helper.h"
#include <cmath>
#include <limits>
#ifndef PROP
#define PROP 0
#endif
#define PX(n, c, m) do { bool c_ = (c); if (PROP == 0 || PROP == n) sx_assert(c_, m); } while (0)
#define P21(c, m) PX(21, c, m)
#define P22(c, m) PX(22, c, m)
#define P23(c, m) PX(23, c, m)
#define P24(c, m) PX(24, c, m)
#ifdef THOROUGH
#define EXTRA 1
#else
#define EXTRA 0
#endif
using namespace google::service_control_client;
using google::api::servicecontrol::v1::Distribution;
using google::protobuf::util::Status;
extern "C" void sx_math_point(double);
namespace {
typedef DistributionHelper H;
const double kInf = std::numeric_limits<double>::infinity();
const int OKAY = 0, INVALID = 3;
int code(const Status& s) { return (int)s.code(); }
bool nan(double d) { return d != d; }
const int MAXB = 24;
struct Before { int64_t count, n[MAXB]; int size; double mean, lo, hi, dev; };
Before snapshot(const Distribution& d) {
  Before b; b.count = d.count(); b.size = d.bucket_counts_size();
  for (int i = 0; i < b.size && i < MAXB; i++) b.n[i] = d.bucket_counts(i);
  b.mean = d.mean(); b.lo = d.minimum(); b.hi = d.maximum(); b.dev = d.sum_of_squared_deviation();
  return b;
}
// which bucket grew by one: its index, or -1 if it is not exactly one
int grown(const Before& b, const Distribution& d) {
  if (d.bucket_counts_size() != b.size) return -1;
  int at = -1;
  for (int i = 0; i < b.size; i++) { if (d.bucket_counts(i) == b.n[i] + 1) { if (at >= 0) return -1; at = i; } else if (d.bucket_counts(i) != b.n[i]) return -1; }
  return at;
}
// The distribution already holds any number of samples.
void fill(Distribution* d) {
  d->set_count(sx_range("count", 1, INT64_MAX / 2));
  for (int i = 0; i < d->bucket_counts_size(); i++) d->set_bucket_counts(i, sx_range("bucket", 0, INT64_MAX / 2));
}
double bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
}  // namespace

// ---- C21.  case 0: linear, concrete layouts; 1: exponential, concrete layouts; 2: explicit, any ascending bounds
struct Linear { int n; double width, offset; };
static const Linear kLinear[] = {{1, 1, 0}, {3, 2, -1}, {4, 0.5, 16}, {2, 0x1p1023, -0x1p1023}, {2, 0x1p-1000, 0}, {1, 4.9e-324, 0}, {2, kInf, 0}, {2, kInf, -kInf}, {2, 1, kInf},
  {20, 2, -8}, {2, 1e308, -1e308}, {3, 0.1, 0}, {2, 1e-300, 0}, {2, 3, 0.001}};   // the last four are slow
SX_ENTRY(h_dist_linear) {
  const Linear& L = kLinear[sx_case()];
  Distribution d;
  Status st = H::InitLinear(L.n, L.width, L.offset, &d);
  P21(st.ok(), "a valid layout is accepted");
  bool prior = sx_bool("prior");
  if (prior) fill(&d);
  Before b = snapshot(d);
  double v = sx_double("sample");
  st = H::AddSample(v, &d);
  int at = grown(b, d);
  sx_obs(at);
  P21(st.ok(), "a sample is accepted");
  P21(at >= 0, "a sample is counted in exactly one bucket");
  if (at < 0) return;
  sx_cover(at == 0 ? "underflow" : at == L.n + 1 ? "overflow" : "finite");
  if (nan(v)) { P21(at == 0, "a sample that is not a number goes to the first bucket"); sx_cover("nan"); return; }
  // bounds[k] = offset + k * width, the lower bound of bucket k + 1; a sample within rounding of a bound may go to either side
  double top = L.offset + L.n * L.width;
  if (nan(top)) return;
  P21((at == 0) == (v < L.offset), "only a sample below the offset goes to the first bucket");
  P21((at == L.n + 1) == ((v >= L.offset) & (v >= top)), "only a sample at or above the last bound goes to the last bucket");
  if (at >= 1 && at <= L.n) {
    double lo = L.offset + (at - 1) * L.width, hi = L.offset + at * L.width;
    if (nan(lo) || nan(hi)) return;
    double slack = 1e-9 * std::abs(L.width) + 1e-9 * std::abs(L.offset); if (!(slack < kInf)) slack = 0;
    P21((v >= lo - slack) & (v <= hi + slack), "a sample goes to the bucket that contains it");
  }
}
struct Expo { int n; double growth, scale; };
static const Expo kExpo[] = {{3, 2, 1}, {2, 16, 0x1p-10}, {4, 4, 4}, {1, 2, 0x1p-1000}, {2, kInf, 1}, {2, 2, kInf}, {1, 2, 4.9e-324}, {2, 256, 0x1p-1022}, {20, 2, 0.25},
  {1, 2, 1e-300}, {2, 1.0000000000000002, 1}, {4, 1.5, 4}, {2, 10, 0.001}};   // the last four are slow
SX_ENTRY(h_dist_expo) {
  const Expo& L = kExpo[sx_case()];
  Distribution d;
  Status st = H::InitExponential(L.n, L.growth, L.scale, &d);
  P21(st.ok(), "a valid layout is accepted");
  bool prior = sx_bool("prior");
  if (prior) fill(&d);
  Before b = snapshot(d);
  double bound[MAXB];
  bound[0] = L.scale;
  for (int k = 1; k <= L.n; k++) bound[k] = bound[k - 1] * L.growth;
  for (int k = 0; k <= L.n; k++) if (bound[k] / L.scale < kInf) { double p = bound[k] / L.scale; sx_math_point(p); sx_math_point(p * (1 - 1e-9)); sx_math_point(p * (1 + 1e-9)); }
  double v = sx_double("sample");
  st = H::AddSample(v, &d);
  int at = grown(b, d);
  bool edge = false;   // within the slack of the contract of log2
  for (int k = 0; k <= L.n; k++) edge |= (v >= bound[k] * (1 - 1e-8)) & (v <= bound[k] * (1 + 1e-8));
  sx_obs(edge ? 100 : at);
  P21(st.ok(), "a sample is accepted");
  P21(at >= 0, "a sample is counted in exactly one bucket");
  if (at < 0) return;
  sx_cover(at == 0 ? "underflow" : at == L.n + 1 ? "overflow" : "finite");
  if (nan(v)) { P21(at == 0, "a sample that is not a number goes to the first bucket"); sx_cover("nan"); return; }
  P21((at == 0) == (v < L.scale), "only a sample below the scale goes to the first bucket");
  if (at == 0) return;
  if (bound[1] == kInf && v == kInf) return;
  P21(v >= bound[at - 1] * (1 - 1e-8), "a sample goes to the bucket that contains it");
  if (at <= L.n) P21(v <= bound[at] * (1 + 1e-8), "a sample goes to the bucket that contains it");
}
// explicit bounds: any ascending ones.  case: how many
SX_ENTRY(h_dist_explicit) {
  int n = sx_case();
  std::vector<double> bounds;
  bool asc = true;
  for (int i = 0; i < n; i++) { bounds.push_back(sx_double("bound")); asc &= !nan(bounds[i]); if (i) asc &= bounds[i - 1] < bounds[i]; }
  sx_assume(asc);
  Distribution d;
  Status st = H::InitExplicit(bounds, &d);
  P21(st.ok(), "a valid layout is accepted");
  if (!st.ok()) return;
  if (sx_bool("prior")) fill(&d);
  Before b = snapshot(d);
  double v = sx_double("sample");
  st = H::AddSample(v, &d);
  int at = grown(b, d);
  sx_obs(at);
  P21(st.ok(), "a sample is accepted");
  P21(at >= 0, "a sample is counted in exactly one bucket");
  if (at < 0) return;
  sx_cover(at == 0 ? "underflow" : at == n ? "overflow" : "finite");
  if (nan(v)) { sx_cover("nan"); return; }
  int want = 0;
  for (int i = 0; i < n; i++) want += bounds[i] <= v;
  P21(at == want, "a sample goes to the bucket that contains it");
}
// no bucket options: refused, untouched
SX_ENTRY(h_dist_unknown) {
  Distribution d;
  for (int i = 0; i < 2; i++) d.add_bucket_counts(i);
  Before b = snapshot(d);
  Status st = H::AddSample(sx_double("sample"), &d);
  P21(code(st) == INVALID, "a distribution that was not initialized refuses samples");
  P21(d.count() == b.count && d.bucket_counts(0) == 0 && d.bucket_counts(1) == 1, "a refused sample changes nothing");
  sx_cover("unknown");
}

// ---- C22
static void init(Distribution* d, int type) {
  Status st = type == 0 ? H::InitLinear(2, 1, 0, d) : type == 1 ? H::InitExponential(2, 2, 1, d) : H::InitExplicit({0.0, 1.0, 5.0}, d);
  P22(st.ok(), "a valid layout is accepted");
  if (type == 1) for (double p : {1.0, 2.0, 4.0}) sx_math_point(p);
}
// a history of samples.  case: layout
SX_ENTRY(h_dist_history) {
  Distribution d;
  init(&d, sx_case());
  double s[4];
  int n = sx_case() == 2 ? 3 : 2;
  n += EXTRA;
  for (int i = 0; i < n; i++) {
    s[i] = sx_double("sample");
    sx_assume((s[i] > -kInf) & (s[i] < kInf));
    Status st = H::AddSample(s[i], &d);
    P22(st.ok(), "a sample is accepted");
    int64_t sum = 0;
    for (int64_t c : d.bucket_counts()) sum += c;
    P22(d.count() == i + 1, "the count is the number of samples");
    P22(sum == i + 1, "the bucket counts add up to the number of samples");
    bool lo = true, hi = true, il = false, ih = false;
    for (int j = 0; j <= i; j++) { lo &= d.minimum() <= s[j]; hi &= d.maximum() >= s[j]; il |= d.minimum() == s[j]; ih |= d.maximum() == s[j]; }
    P22(lo & il, "the minimum is the smallest sample");
    P22(hi & ih, "the maximum is the largest sample");
    if (i == 0) { P22(d.mean() == s[0], "the mean of one sample is the sample"); P22(d.sum_of_squared_deviation() == 0, "one sample has no deviation"); }
    sx_obs(sum); sx_obs_double(d.minimum()); sx_obs_double(d.maximum());
  }
  sx_cover("history");
}
// one step from any statistics; mean and deviation on values where arithmetic is exact
SX_ENTRY(h_dist_step) {
  Distribution d;
  init(&d, sx_choose("type", 3));
  static const int64_t kCount[] = {1, 3, 7, 15, (1LL << 31) - 1, (1LL << 32) - 1, (1LL << 40) - 1};
  int64_t c = kCount[sx_choose("n", 7)];
  int m = sx_range32("mean", -8, 7), x = sx_range32("value", -8, 7), dev = sx_range32("dev", 0, 15);
  bool deviation = sx_bool("deviation");   // (the solver is too slow for the products)
  if (deviation | (c > 15)) { m = (int)sx_concrete(m & 3); x = (int)sx_concrete(x & ~1); }
  d.set_count(c); d.set_mean(m); d.set_sum_of_squared_deviation(dev);
  double lo = deviation ? -9 : sx_double("min"), hi = deviation ? 9 : sx_double("max");
  sx_assume((lo <= m) & (hi >= m) & (lo > -kInf) & (hi < kInf));
  d.set_minimum(lo); d.set_maximum(hi);
  Status st = H::AddSample(x, &d);
  P22(st.ok(), "a sample is accepted");
  P22(d.count() == c + 1, "the count is the number of samples");
  double mean = (double)(c * m + x) / (double)(c + 1);
  P22(d.mean() == mean, "the mean follows from the previous count and mean");
  P22(d.minimum() == (x < lo ? x : lo) && d.maximum() == (x > hi ? x : hi), "minimum and maximum follow from the previous ones");
  // (x - m)(x - mean) = c (x - m)^2 / (c + 1)
  if (!deviation) { sx_obs_double(d.mean()); sx_cover("mean-step"); return; }
  double want = dev + (double)(c * (x - m) * (x - m)) / (double)(c + 1);
  P22(d.sum_of_squared_deviation() == want, "the deviation follows from the previous one");
  sx_obs_double(d.mean()); sx_obs_double(d.sum_of_squared_deviation());
  sx_cover("step");
}

// ---- C23
namespace {
// layout type 0..2, number of finite buckets / bounds n, parameters p, q
void layout(Distribution* d, int type, int n, double p, double q) {
  if (type == 0) { auto* l = d->mutable_linear_buckets(); l->set_num_finite_buckets(n); l->set_width(p); l->set_offset(q); }
  if (type == 1) { auto* l = d->mutable_exponential_buckets(); l->set_num_finite_buckets(n); l->set_growth_factor(p); l->set_scale(q); }
  if (type == 2) { auto* l = d->mutable_explicit_buckets(); if (n > 0) l->add_bounds(p); if (n > 1) l->add_bounds(q); for (int i = 2; i < n; i++) l->add_bounds(1e300 * (i - 1)); }
  int size = type == 2 ? n + 1 : type == 3 ? n : n + 2;
  for (int i = 0; i < size; i++) d->add_bucket_counts(sx_range("bucket", 0, INT64_MAX / 2));
}
void stats(Distribution* d, int64_t lo) {
  d->set_count(sx_range("count", lo, INT64_MAX / 2));
  d->set_minimum(sx_double("min")); d->set_maximum(sx_double("max"));
}
bool same(double a, double b) { int64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
bool unchanged(const Before& b, const Distribution& d) {
  bool ok = d.bucket_counts_size() == b.size;
  if (!ok) return false;
  ok = (d.count() == b.count) & same(d.minimum(), b.lo) & same(d.maximum(), b.hi) & same(d.mean(), b.mean) & same(d.sum_of_squared_deviation(), b.dev);
  for (int i = 0; i < b.size; i++) ok &= d.bucket_counts(i) == b.n[i];
  return ok;
}
}  // namespace
// matching layouts with any (positive) counts
SX_ENTRY(h_dist_merge) {
  int type = sx_choose("type", 3), n = sx_choose("n", 3) + 1;
  double p = sx_double("p"), q = sx_double("q");
  sx_assume(!nan(p) & !nan(q));
  Distribution from, to;
  layout(&from, type, n, p, q); layout(&to, type, n, p, q);
  int64_t lf = -5, lt = -5;
  from.set_count(sx_range("count", lf, INT64_MAX / 2)); to.set_count(sx_range("count", lt, INT64_MAX / 2));
  from.set_minimum(sx_double("min")); from.set_maximum(sx_double("max")); to.set_minimum(sx_double("min")); to.set_maximum(sx_double("max"));
  sx_assume(!nan(from.minimum()) & !nan(from.maximum()) & !nan(to.minimum()) & !nan(to.maximum()));
  from.set_mean(1); to.set_mean(1);
  Before f = snapshot(from), t = snapshot(to);
  Status st = H::Merge(from, &to);
  P23(st.ok(), "distributions with the same bucket options can be merged");
  P23(unchanged(f, from), "the source of a merge stays as it is");
  P23(to.bucket_option_case() == from.bucket_option_case(), "the bucket options are kept");
  sx_obs(to.count());
  if (f.count <= 0) { P23(unchanged(t, to), "merging an empty distribution changes nothing"); sx_cover("empty-source"); return; }
  if (t.count <= 0) { P23(unchanged(f, to), "merging into an empty distribution copies"); sx_cover("empty-target"); return; }
  P23(to.count() == f.count + t.count, "counts add up");
  bool ok = to.bucket_counts_size() == t.size;
  P23(ok, "the number of buckets is kept");
  if (!ok) return;
  for (int i = 0; i < t.size; i++) P23(to.bucket_counts(i) == f.n[i] + t.n[i], "bucket counts add up");
  P23(to.minimum() == (f.lo < t.lo ? f.lo : t.lo), "the smaller minimum is kept");
  P23(to.maximum() == (f.hi > t.hi ? f.hi : t.hi), "the larger maximum is kept");
  sx_cover("merged");
}
// mean and deviation, on values where arithmetic is exact
SX_ENTRY(h_dist_merge_mean) {
  static const int64_t kA[] = {1, 2, 3, 4}, kB[] = {1, 6, 5, 4};
  int w = sx_choose("n", 4); bool flip = sx_bool("flip");
  int64_t a = flip ? kB[w] : kA[w], b = flip ? kA[w] : kB[w], unit = sx_bool("large") ? 1ll << 33 : 1;
  int x = (int)sx_concrete(sx_range32("mean", -4, 3)), y = (int)sx_concrete(sx_range32("mean2", -4, 3));
  int dx = unit > 1 ? 0 : sx_range32("dev", 0, 7), dy = unit > 1 ? 5 : sx_range32("dev2", 0, 7);
  Distribution from, to;
  layout(&from, 0, 1, 1, 0); layout(&to, 0, 1, 1, 0);
  from.set_count(a * unit); from.set_mean(x); from.set_sum_of_squared_deviation(dx);
  to.set_count(b * unit); to.set_mean(y); to.set_sum_of_squared_deviation(dy);
  Status st = H::Merge(from, &to);
  P23(st.ok(), "distributions with the same bucket options can be merged");
  P23(to.mean() == (double)(a * x + b * y) / (double)(a + b), "the mean is that of all samples");
  P23(to.sum_of_squared_deviation() == dx + dy + (double)(a * b * (x - y) * (x - y)) / (double)(a + b) * (double)unit, "the deviation is that of all samples");
  sx_obs_double(to.mean()); sx_obs_double(to.sum_of_squared_deviation());
  sx_cover("mean");
}
// layouts that do not match.  case 0..2: layout type; which of the parts differ is chosen
SX_ENTRY(h_dist_mismatch) {
  int type = sx_case(), n = sx_choose("n", 2) + 1;
  Distribution from, to;
  static const double kP[] = {0, 1, -2.5, 1e-300, 1e300, kInf};
  double p = kP[sx_choose("p", 6)], q = kP[5 - sx_choose("q", 6)], p2 = p, q2 = q;
  int type2 = type, n2 = n;
  switch (sx_choose("differ", 5)) {
    case 0: type2 = (type + 1 + sx_choose("type", 3)) % 4; n2 = type == 2 ? n - 1 : type2 == 2 ? n + 1 : type2 == 3 ? n + 2 : n; break;   // (the same number of buckets)
    case 1: n2 = n + (sx_bool("more") ? 1 : -1); break;
    case 2: { p2 = sx_double("p2"); bool far = nan(p2) | (std::abs(p) == kInf ? p2 != p : (p2 > p + std::abs(p) * 1e-4) | (p2 < p - std::abs(p) * 1e-4)); sx_assume(far); break; }
    case 3: { q2 = sx_double("q2"); bool far = nan(q2) | (std::abs(q) == kInf ? q2 != q : (q2 > q + std::abs(q) * 1e-4) | (q2 < q - std::abs(q) * 1e-4)); sx_assume(far); sx_assume(type != 2 || n > 1); break; }
    case 4: break;   // the same options, but another number of buckets
  }
  layout(&from, type, n, p, q);
  layout(&to, type2, n2, p2, q2);
  if (n2 == n && type2 == type && p2 == p && q2 == q) { if (sx_bool("more")) to.add_bucket_counts(1); else from.add_bucket_counts(1); sx_cover("numbers"); }
  else if (sx_bool("bare")) { from.clear_bucket_counts(); to.clear_bucket_counts(); }   // as many buckets on either side: none
  if (sx_bool("swap")) { Distribution x = from; from = to; to = x; }
  stats(&from, -5); stats(&to, -5);
  Before f = snapshot(from), t = snapshot(to);
  Status st = H::Merge(from, &to);
  sx_obs(code(st));
  P23(code(st) == INVALID, "distributions with different bucket options are rejected");
  P23(unchanged(t, to) && unchanged(f, from), "a rejected merge changes nothing");
  sx_cover("mismatch");
}

// ---- C24
namespace {
void used(Distribution* d) { d->set_count(3); d->set_mean(7); d->mutable_linear_buckets()->set_num_finite_buckets(1); d->mutable_linear_buckets()->set_width(9); for (int i = 0; i < 3; i++) d->add_bucket_counts(i); }
bool is_used(const Distribution& d) { return d.count() == 3 && d.mean() == 7 && d.has_linear_buckets() && d.linear_buckets().num_finite_buckets() == 1 && d.linear_buckets().width() == 9 && d.bucket_counts_size() == 3 && d.bucket_counts(0) == 0 && d.bucket_counts(1) == 1 && d.bucket_counts(2) == 2; }
void check_init(const Status& st, const Distribution& d, bool valid, bool dirty, int size) {
  sx_obs(code(st)); sx_obs(d.bucket_counts_size());
  P24(st.ok() == valid, "exactly the valid parameters are accepted");
  if (!st.ok()) {
    P24(code(st) == INVALID, "invalid parameters are an invalid argument");
    P24(dirty ? is_used(d) : (d.bucket_counts_size() == 0 && d.bucket_option_case() == Distribution::BUCKET_OPTION_NOT_SET && d.count() == 0), "rejected parameters leave the distribution untouched");
    sx_cover("rejected"); return;
  }
  P24(d.bucket_counts_size() == size, "the number of buckets follows from the parameters");
  bool zero = d.count() == 0;
  for (int64_t c : d.bucket_counts()) zero &= c == 0;
  P24(zero, "a new distribution is empty");
  sx_cover("accepted");
}
}  // namespace
// case 0: linear, 1: exponential
SX_ENTRY(h_dist_init) {
  int type = sx_case();
  Distribution d;
  int n = sx_i32("n");
  sx_assume(n <= 6);
  double p = sx_double("p"), q = sx_double("q");
  bool dirty = sx_bool("dirty");
  bool valid = (n > 0) & (type == 0 ? p > 0 : (p > 1) & (q > 0));
  if (type == 0) sx_assume(!nan(q));
  if (n > 0) n = (int)sx_concrete(n);
  if (dirty) used(&d);
  Status st = type == 0 ? H::InitLinear(n, p, q, &d) : H::InitExponential(n, p, q, &d);
  check_init(st, d, valid, dirty, n + 2);
  if (st.ok() && type == 0) P24(d.has_linear_buckets() && d.linear_buckets().num_finite_buckets() == n && same(d.linear_buckets().width(), p) && same(d.linear_buckets().offset(), q), "the parameters are stored");
  if (st.ok() && type == 1) P24(d.has_exponential_buckets() && d.exponential_buckets().num_finite_buckets() == n && same(d.exponential_buckets().growth_factor(), p) && same(d.exponential_buckets().scale(), q), "the parameters are stored");
}
// case: number of bounds
SX_ENTRY(h_dist_init_explicit) {
  int n = sx_case();
  std::vector<double> b;
  bool valid = true;
  for (int i = 0; i < n; i++) { b.push_back(sx_double("bound")); valid &= !nan(b[i]); if (i) valid &= b[i - 1] < b[i]; }
  bool dirty = sx_bool("dirty");
  Distribution d;
  if (dirty) used(&d);
  Status st = H::InitExplicit(b, &d);
  check_init(st, d, valid, dirty, n + 1);
  if (!st.ok()) return;
  bool ok = d.has_explicit_buckets() && d.explicit_buckets().bounds_size() == n;
  P24(ok, "the bounds are stored");
  if (ok) for (int i = 0; i < n; i++) P24(same(d.explicit_buckets().bounds(i), b[i]), "the bounds are stored");
}
// initializing again starts afresh
SX_ENTRY(h_dist_again) {
  Distribution d;
  for (int round = 0; round < 2; round++) {
    int type = sx_choose("type", 3), n = sx_choose("n", 3) + 1;
    std::vector<double> b;
    for (int i = 0; i < n; i++) b.push_back(i * 2 + round);
    Status st = type == 0 ? H::InitLinear(n, 1, 0, &d) : type == 1 ? H::InitExponential(n, 2, 1, &d) : H::InitExplicit(b, &d);
    check_init(st, d, true, false, type == 2 ? n + 1 : n + 2);
    if (type == 2) P24(d.explicit_buckets().bounds_size() == n && d.explicit_buckets().bounds(0) == b[0], "the bounds are the ones given last");
    st = H::AddSample(0.5, &d);
    P24(st.ok(), "an initialized distribution takes samples");
  }
  sx_cover("again");
}
