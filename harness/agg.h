// Requests and comparisons shared by the aggregator and client harnesses.
#pragma once
#include "common.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "google/protobuf/stubs/status.h"
#include "include/aggregation_options.h"
#include "src/aggregator_interface.h"
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
#include "utils/thread.h"
#include <climits>
using namespace google::service_control_client;
using namespace google::api::servicecontrol::v1;
using google::api::MetricDescriptor;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using std::string;

static const char* kSvc = "svc";
static const char* kCfg = "cfg";

static inline void put_int(MetricValueSet* s, const char* name, int64_t v) { s->set_metric_name(name); s->add_metric_values()->set_int64_value(v); }

// The identities used for checks: pairwise different in exactly one component.
// Identity 6 has two metrics, which come in either order; identity 7 has none;
// those from 8 on differ in the operation name.
static inline CheckRequest check_request(int key, int64_t amount, bool swap = false) {
  CheckRequest r;
  r.set_service_name(kSvc);
  r.set_service_config_id("other");   // what is flushed carries the configured id
  Operation* o = r.mutable_operation();
  if (key >= 8) o->set_operation_name(string("op") + (char)('a' + key)); else o->set_operation_name(key == 5 ? "op2" : "op");
  o->set_consumer_id(key == 3 ? "d" : "c");
  if (key == 2) (*o->mutable_labels())["l"] = "v";
  if (key == 6 && swap) put_int(o->add_metric_value_sets(), "n", amount + 1);
  if (key != 7) put_int(o->add_metric_value_sets(), key == 4 ? "n" : "m", amount);
  if (key == 6 && !swap) put_int(o->add_metric_value_sets(), "n", amount + 1);
  if (key == 1) (*o->mutable_metric_value_sets(0)->mutable_metric_values(0)->mutable_labels())["l"] = "v";
  return r;
}
// Which of the identities an operation has, -1 for none.
static inline int check_key(const Operation& o) {
  if (o.metric_value_sets_size() == 2) {
    int m = o.metric_value_sets(0).metric_name() == "m" ? 0 : 1;
    for (auto& s : o.metric_value_sets()) if (s.metric_values_size() != 1 || s.metric_values(0).labels().size()) return -1;
    if (o.metric_value_sets(m).metric_name() != "m" || o.metric_value_sets(1 - m).metric_name() != "n") return -1;
    return o.operation_name() == "op" && o.consumer_id() == "c" && o.labels().size() == 0 ? 6 : -1;
  }
  if (o.metric_value_sets_size() == 0) return o.operation_name() == "op" && o.consumer_id() == "c" && o.labels().size() == 0 ? 7 : -1;
  if (o.metric_value_sets_size() != 1 || o.metric_value_sets(0).metric_values_size() != 1) return -1;
  const MetricValueSet& s = o.metric_value_sets(0);
  bool ml = s.metric_values(0).labels().size() == 1, ol = o.labels().size() == 1;
  if (s.metric_values(0).labels().size() > 1 || o.labels().size() > 1) return -1;
  const string& name = o.operation_name();
  if (name.size() == 3 && name[0] == 'o' && name[1] == 'p' && name[2] >= 'a' + 8 && name[2] < 'a' + 16)
    return o.consumer_id() == "c" && !ml && !ol && s.metric_name() == "m" ? name[2] - 'a' : -1;
  int k = o.operation_name() == "op2" ? 5 : o.consumer_id() == "d" ? 3 : ol ? 2 : s.metric_name() == "n" ? 4 : ml ? 1 : 0;
  if (o.operation_name() != (k == 5 ? "op2" : "op") || o.consumer_id() != (k == 3 ? "d" : "c") || ol != (k == 2) || ml != (k == 1) || s.metric_name() != (k == 4 ? "n" : "m")) return -1;
  if (ol && o.labels().at("l") != "v") return -1;
  if (ml && s.metric_values(0).labels().at("l") != "v") return -1;
  return k;
}
static inline string tag(const char* p, int i) { string s(p); s += (char)('a' + i); return s; }
// Response number id: a pass or a denial (with one or two errors of any kind).
static inline CheckError::Code error_code(int i) {
  static const CheckError::Code c[] = {CheckError::PERMISSION_DENIED, CheckError::ABUSER_DETECTED, CheckError::ERROR_CODE_UNSPECIFIED, CheckError::NAMESPACE_LOOKUP_UNAVAILABLE};
  return c[i % 4];
}
static inline CheckResponse check_response(int id, bool deny) {
  CheckResponse r;
  r.set_operation_id(tag("r", id));
  r.set_service_config_id(tag("s", id));
  if (id & 1) r.set_service_rollout_id(tag("o", id));
  if (id % 3 == 0) r.mutable_check_info()->mutable_consumer_info()->set_project_number(id + 1);
  if (deny) for (int i = id % 3 == 1 ? 2 : 1; i > 0; i--) { CheckError* e = r.add_check_errors(); e->set_code(error_code(id + i)); e->set_detail(tag("e", id + i)); }
  return r;
}
static inline bool is_check_response(const CheckResponse& r, int id, bool deny) {
  int n = !deny ? 0 : id % 3 == 1 ? 2 : 1;
  if (r.operation_id() != tag("r", id) || r.service_config_id() != tag("s", id) || r.check_errors_size() != n) return false;
  if (r.service_rollout_id() != (id & 1 ? tag("o", id) : string())) return false;
  if (r.has_check_info() != (id % 3 == 0) || (r.has_check_info() && r.check_info().consumer_info().project_number() != id + 1)) return false;
  for (int i = 0; i < n; i++) if (r.check_errors(i).code() != error_code(id + n - i) || r.check_errors(i).detail() != tag("e", id + n - i)) return false;
  return true;
}
static inline QuotaError::Code quota_code(int i) {
  static const QuotaError::Code c[] = {QuotaError::BILLING_NOT_ACTIVE, QuotaError::RESOURCE_EXHAUSTED, QuotaError::UNSPECIFIED, QuotaError::PROJECT_DELETED};
  return c[i % 4];
}
// Response number id, the empty one for -1.
static inline AllocateQuotaResponse quota_response(int id, bool deny) {
  AllocateQuotaResponse r;
  if (id < 0) return r;
  r.set_operation_id(tag("r", id)); r.set_service_config_id(tag("s", id));
  if (id % 3 == 0) put_int(r.add_quota_metrics(), "m", id + 1);
  if (deny) for (int i = id % 3 == 1 ? 2 : 1; i > 0; i--) { QuotaError* e = r.add_allocate_errors(); e->set_code(quota_code(id + i)); e->set_description(tag("e", id + i)); }
  return r;
}
static inline bool is_quota_response(const AllocateQuotaResponse& r, int id, bool deny) {
  if (id < 0) return r.operation_id().empty() && r.service_config_id().empty() && r.allocate_errors_size() == 0 && r.quota_metrics_size() == 0;
  int n = !deny ? 0 : id % 3 == 1 ? 2 : 1;
  if (r.operation_id() != tag("r", id) || r.service_config_id() != tag("s", id) || r.allocate_errors_size() != n) return false;
  if (r.quota_metrics_size() != (id % 3 == 0 ? 1 : 0) || (r.quota_metrics_size() && r.quota_metrics(0).metric_values(0).int64_value() != id + 1)) return false;
  for (int i = 0; i < n; i++) if (r.allocate_errors(i).code() != quota_code(id + n - i) || r.allocate_errors(i).description() != tag("e", id + n - i)) return false;
  return true;
}
static inline int code_of(const Status& s) { return (int)s.code(); }
static const int OK = 0, INVALID = 3, NOT_FOUND = 5;
