From 2eb7646c24d29a2ce37e696168bfaa9dc753d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 01/18] fix: Detect Money addition overflow exactly

Adding two amounts below one unit (e.g. 1 nano + 1 nano) was reported as an
overflow and saturated, and the check itself relied on signed overflow.
---
 src/money_utils.cc | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..c7790fa 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -79,42 +79,38 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
     sum_nanos += kBillion;
   }
 
-  // Calculate the sum of units.
-  int64_t sum_units_no_carry = a.units() + b.units();
-  int64_t sum_units = sum_units_no_carry + carry;
-  // It's possible the sum_units and sum_nanos now have different signs,
-  // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
-  // necessary.
-  if (sum_units > 0 && sum_nanos < 0) {
-    --sum_units;
-    sum_nanos += kBillion;
-  } else if (sum_units < 0 && sum_nanos > 0) {
-    ++sum_units;
-    sum_nanos -= kBillion;
-  }
-
-  // Get the sign of a and b in order to detect overflow.
+  // Get the sign of a and b in order to detect overflow. The sum can only
+  // overflow when both have the same sign, in which case the carry has that
+  // sign too. The limits below cannot overflow themselves.
   int sign_a = GetAmountSign(a);
   int sign_b = GetAmountSign(b);
 
   // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  if (sign_a > 0 && sign_b > 0 && a.units() > INT64_MAX - b.units() - carry) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
   }
-  // Detect negative overflow. Note there is a tricky case that can only happen
-  // to negative overflow: sum_units_no_carry overflows to 0 but adding the
-  // carry makes sum_units a negative number again. So we must check both
-  // sum_units_no_carry and sum_units here. This doesn't happen in the
-  // positive overflow case because two MAX values 0x7FF...FF adds to
-  // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  // Detect negative overflow.
+  if (sign_a < 0 && sign_b < 0 && a.units() < INT64_MIN - b.units() - carry) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
   }
 
+  // Calculate the sum of units.
+  int64_t sum_units = a.units() + b.units() + carry;
+  // It's possible the sum_units and sum_nanos now have different signs,
+  // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
+  // necessary.
+  if (sum_units > 0 && sum_nanos < 0) {
+    --sum_units;
+    sum_nanos += kBillion;
+  } else if (sum_units < 0 && sum_nanos > 0) {
+    ++sum_units;
+    sum_nanos -= kBillion;
+  }
+
   // The success case.
   sum->set_units(sum_units);
   sum->set_nanos(sum_nanos);
-- 
2.43.0


From 7a26f89ae66b4e1e35c71fa818fe7b39f6012ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:45 +0000
Subject: [PATCH 02/18] fix: Keep the LRU list intact when pins with different
 options overlap

An entry pinned by a lookup that does not update the eviction order stays on
the list. A second, ordinary pin left it there, so its release linked the
entry a second time and corrupted the list; in the opposite order the entry
was never put back. Such a pinned entry also tripped an assertion when its
idle time was over.
---
 utils/simple_lru_cache_inl.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..562221b 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -678,12 +678,12 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::LookupWithOptions(
   if (iter != table_.end()) {
     // We set last_use_ upon Release, not during Lookup.
     Elem* e = iter->second;
-    if (e->pin == 0) {
-      pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->Unlink();
-    }
+    if (e->pin == 0) pinned_units_ += e->units;
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    // An entry pinned before by a lookup that does not update the eviction
+    // order is still on the list.
+    if (lru_ && options.update_eviction_order()) e->Unlink();
     e->pin++;
     return e->value;
   }
@@ -738,7 +738,12 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::ReleaseWithOptions(
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->Link(&head_);
+      if (lru_ && !e->IsLinked()) {
+        // The last pin may be one that does not update the eviction order while
+        // an earlier one took the entry off the list. The list is kept sorted.
+        e->last_use_ = SimpleCycleTimer::Now();
+        e->Link(&head_);
+      }
       pinned_units_ -= e->units;
       if (IsOverfullInternal()) {
         // This element is no longer needed, and we are full.  So kick it out.
@@ -920,9 +925,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // Elements on the list that are pinned (in the age-based mode, or by a
+    // lookup that does not update the eviction order) are pushed out of the main
+    // table regardless of pinning.
     Remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 97e35910f89b3fba64802b3b7416af14959e3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:45 +0000
Subject: [PATCH 03/18] fix: Do not convert a NaN timeout to an integer

SetTimeout casts the limit to int64_t, which is undefined for NaN. Treat it
like the other values that mean no expiration.
---
 utils/simple_lru_cache_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 562221b..8535492 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -593,7 +593,7 @@ SimpleLRUCacheBase<Key, Value, MapType, EQ>::SimpleLRUCacheBase(
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::SetTimeout(double seconds,
                                                              bool lru) {
-  if (seconds < 0 || std::isinf(seconds)) {
+  if (!(seconds >= 0) || std::isinf(seconds)) {
     // Treat as no expiration based on idle time
     lru_ = lru;
     max_idle_ = -1;
-- 
2.43.0


From 57527b5439006aa5c616727cd2a0b85cc999c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:34 +0000
Subject: [PATCH 04/18] fix: a full quota cache does not re-insert what it
 evicts

With more live keys than num_entries, the element evicted for space was
inserted again by OnCacheEntryDelete, which evicted the next one, and so on
until the stack overflowed. Only elements removed because of their age go back
into the cache; an evicted one sends the amounts it has accumulated and goes.
---
 src/quota_aggregator_impl.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..ad25bcf 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -259,17 +259,28 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // OnCacheEntryDelete will be called behind the cache_mutex_
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
-  if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+  if (in_flush_all_ || ShouldDrop(*elem)) {
+    delete elem;
+    return;
+  }
+
+  // An element removed because of its age leaves room for itself and stays in
+  // the cache. An element evicted because the cache is full must not be
+  // inserted again: that would evict the next one, and so on forever.
+  const bool evicted = cache_->Size() >= cache_->MaxSize();
+  if (!evicted) {
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
+  }
 
-    if (elem->in_flight() == false && elem->is_aggregated()) {
-      elem->set_in_flight(true);
-      elem->set_last_refresh_time(SimpleCycleTimer::Now());
-      AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+  if (elem->is_aggregated() && (evicted || elem->in_flight() == false)) {
+    elem->set_in_flight(true);
+    elem->set_last_refresh_time(SimpleCycleTimer::Now());
+    AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
         service_name_, service_config_id_));
-    }
-  } else {
+  }
+
+  if (evicted) {
     delete elem;
   }
 }
-- 
2.43.0


From bc5da080e216de373cec86a86a1df556dd7bc9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 05/18] fix: exponential distribution converted an infinite
 position to a bucket index

A sample of infinity (or a sample so large, or a growth factor so extreme,
that the quotient is infinite or NaN) was converted to int, which is undefined
and led to a negative index into the bucket counts.
---
 utils/distribution_helper.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..b1b2098 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -136,10 +136,13 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   int bucket_index = 0;
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
-      bucket_index = exponential.num_finite_buckets() + 1;
+    // The position may be infinite or NaN, it is only converted to an integer
+    // if it is within the finite buckets.
+    double position = log2(value / exponential.scale()) /
+                      log2(exponential.growth_factor());
+    bucket_index = exponential.num_finite_buckets() + 1;
+    if (position < exponential.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(position);
     }
   }
   distribution->set_bucket_counts(
-- 
2.43.0


From 55c4153d5dd7eeb7eba74114b62c21af5737fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 06/18] fix: linear distribution converted an overflowed
 position to a bucket index

With extreme offsets or widths the difference of a sample and the offset
overflows; converting it to int was undefined and led to an index outside the
bucket counts. A sample rounded up at the last bound was counted in the
overflow bucket although it is below the upper bound.
---
 utils/distribution_helper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index b1b2098..be76887 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -161,7 +161,13 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // The difference may overflow or be rounded up to the next bucket, but the
+    // value is below the upper bound of the last finite bucket.
+    double position = (value - lower_bound) / linear.width();
+    bucket_index = linear.num_finite_buckets();
+    if (position < linear.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(position);
+    }
   }
 
   distribution->set_bucket_counts(
-- 
2.43.0


From 91e9a0ec6d3cf6b2ccfc29350b721b809573438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 07/18] fix: adding a sample to a distribution without explicit
 bounds read a missing bound

InitExplicit() accepts an empty list of bounds, which gives one bucket for
everything.
---
 utils/distribution_helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index be76887..2a05d30 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -177,7 +177,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (!bounds.empty() && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From 47592684ddf1b3cf4fe33e2773336d60a432ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 08/18] fix: distributions were initialized with bucket
 parameters that are not numbers

A growth factor, scale, width or bound that is NaN passed the checks.
---
 utils/distribution_helper.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 2a05d30..b818849 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -198,12 +198,12 @@ Status DistributionHelper::InitExponential(int num_finite_buckets,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (growth_factor <= 1.0) {
+  if (!(growth_factor > 1.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument growth_factor should be > 1.0. pass in: ",
                          growth_factor));
   }
-  if (scale <= 0) {
+  if (!(scale > 0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument scale should be > 0. pass in: ", scale));
   }
@@ -224,7 +224,7 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (width <= 0.0) {
+  if (!(width > 0.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument width should be > 0.0. pass in: ", width));
   }
@@ -239,7 +239,9 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
 
 Status DistributionHelper::InitExplicit(const std::vector<double>& bounds,
                                         Distribution* distribution) {
-  if (!std::is_sorted(bounds.begin(), bounds.end())) {
+  if (std::any_of(bounds.begin(), bounds.end(),
+                  [](double bound) { return std::isnan(bound); }) ||
+      !std::is_sorted(bounds.begin(), bounds.end())) {
     return Status(StatusCode::kInvalidArgument, "Argument bounds should be sorted.");
   }
   if (std::adjacent_find(bounds.begin(), bounds.end()) != bounds.end()) {
-- 
2.43.0


From c07c03cea4a5e83a9e043fb8af800e9d1859dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 09/18] fix: initializing a distribution again kept its old
 samples and bounds

Explicit bounds were appended to the old ones while the bucket counts were
sized for the new ones, so that adding a sample wrote outside of them.
---
 utils/distribution_helper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index b818849..7f91a8f 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -208,6 +208,7 @@ Status DistributionHelper::InitExponential(int num_finite_buckets,
                   StrCat("Argument scale should be > 0. pass in: ", scale));
   }
 
+  distribution->Clear();
   auto* exponential = distribution->mutable_exponential_buckets();
   exponential->set_num_finite_buckets(num_finite_buckets);
   exponential->set_growth_factor(growth_factor);
@@ -229,6 +230,7 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
                   StrCat("Argument width should be > 0.0. pass in: ", width));
   }
 
+  distribution->Clear();
   auto* linear = distribution->mutable_linear_buckets();
   linear->set_num_finite_buckets(num_finite_buckets);
   linear->set_width(width);
@@ -250,6 +252,7 @@ Status DistributionHelper::InitExplicit(const std::vector<double>& bounds,
         "Two adjacent elements in argument bounds should NOT be the same.");
   }
 
+  distribution->Clear();
   auto* explicit_buckets = distribution->mutable_explicit_buckets();
   for (unsigned int i = 0; i < bounds.size(); ++i) {
     explicit_buckets->mutable_bounds()->Add(bounds.at(i));
-- 
2.43.0


From 5741214024906b916a4771375ca1293062bfe87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:42 +0000
Subject: [PATCH 10/18] fix: an infinite bucket parameter was close enough to
 every other one

Distributions with different bucket options were merged.
---
 utils/distribution_helper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 7f91a8f..30be6de 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -66,6 +66,8 @@ void UpdateGeneralStatictics(double value, Distribution* distribution) {
 }
 
 inline bool IsCloseEnough(double x, double y) {
+  // Everything would be close to an infinite value.
+  if (std::isinf(x)) return x == y;
   const double epsilon = 1e-5;
   return std::abs(x - y) <= epsilon * std::abs(x);
 }
-- 
2.43.0


From 7225220b050c71df7628ab47eec64daec49d9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 11/18] fix: a quota response arriving after the client is gone
 used the client

The callback of a quota refresh captured the client itself; it now keeps the
quota aggregator alive, like those of check and quota calls.
---
 src/service_control_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..eef8a26 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // The response may arrive after this object is gone: the aggregator is kept
+  // by the callback.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From d5c35e60a6ec099dc4330686ad122a77c65d0b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 12/18] fix: an in-place completion that flushes again
 deadlocked

A transport may complete a quota refresh from within the flush callback; if
that evicted or refreshed further entries, FlushOut() locked the callback mutex
it already held.
---
 src/cache_removed_items_handler.h | 8 +++++---
 utils/thread.h                    | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..17e8cf6 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    RecursiveMutexLock lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -120,7 +120,9 @@ class CacheRemovedItemsHandler {
 
  private:
   // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  // It is recursive since the callback may complete a call in place, which may
+  // flush out more items from the same thread.
+  RecursiveMutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +132,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    RecursiveMutexLock lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
diff --git a/utils/thread.h b/utils/thread.h
index 02ee807..05d6fe1 100644
--- a/utils/thread.h
+++ b/utils/thread.h
@@ -29,6 +29,8 @@ namespace service_control_client {
 // So they can be switched to use different packages.
 typedef std::mutex Mutex;
 typedef std::unique_lock<Mutex> MutexLock;
+typedef std::recursive_mutex RecursiveMutex;
+typedef std::unique_lock<RecursiveMutex> RecursiveMutexLock;
 
 typedef std::future<::google::protobuf::util::Status> StatusFuture;
 typedef std::promise<::google::protobuf::util::Status> StatusPromise;
-- 
2.43.0


From 5640bf9fa1ce7c549d69459dc3efe9a3f8c6f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 13/18] fix: a report request was read after its completion

---
 src/service_control_client_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index eef8a26..9578c86 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -343,9 +343,10 @@ void ServiceControlClientImpl::Report(const ReportRequest& report_request,
 
   Status status = report_aggregator_->Report(report_request);
   if (status.code() == StatusCode::kNotFound) {
+    // The caller may delete the request as soon as on_report_done is called.
+    send_report_operations_ += report_request.operations_size();
     report_transport(report_request, report_response, on_report_done);
     ++send_reports_in_flight_;
-    send_report_operations_ += report_request.operations_size();
     return;
   }
   on_report_done(status);
-- 
2.43.0


From 85cb29afb8d8d6656f5e74117501d8b0dbf95fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 14/18] fix: the largest check flush interval overflowed into
 the expiration time

---
 include/aggregation_options.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aggregation_options.h b/include/aggregation_options.h
index 6ea1690..16d9099 100644
--- a/include/aggregation_options.h
+++ b/include/aggregation_options.h
@@ -16,6 +16,8 @@ limitations under the License.
 #ifndef GOOGLE_SERVICE_CONTROL_CLIENT_AGGREGATOR_OPTIONS_H_
 #define GOOGLE_SERVICE_CONTROL_CLIENT_AGGREGATOR_OPTIONS_H_
 
+#include <algorithm>
+#include <climits>
 #include <memory>
 #include <unordered_map>
 #include "google/api/metric.pb.h"
@@ -77,7 +79,9 @@ struct CheckAggregationOptions {
                           int response_expiration_ms)
       : num_entries(cache_entries),
         flush_interval_ms(flush_cache_entry_interval_ms),
-        expiration_ms(std::max(flush_cache_entry_interval_ms + 1,
+        expiration_ms(std::max(flush_cache_entry_interval_ms < INT_MAX
+                                   ? flush_cache_entry_interval_ms + 1
+                                   : flush_cache_entry_interval_ms,
                                response_expiration_ms)) {}
 
   // Maximum number of cache entries kept in the aggregation cache.
-- 
2.43.0


From ba9cbcd2b0e9010c76d487d00e7e0953a0a8f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 15/18] fix: after a full flush the quota cache dropped what it
 should have sent

---
 src/quota_aggregator_impl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index ad25bcf..e60a134 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -253,6 +253,8 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
     cache_->RemoveAll();
   }
 
+  in_flush_all_ = false;
+
   return OkStatus();
 }
 
-- 
2.43.0


From 1710e76d060f6e3bec03f5e1ae52a3f218e52ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 16/18] fix: flushing without a transport threw out of the
 destructor

---
 src/service_control_client_impl.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 9578c86..cb3b937 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,13 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  if (!quota_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport for an AllocateQuota call.";
+    // cache dummy response for fail open
+    (void)quota_aggregator_->CacheResponse(quota_request,
+                                           AllocateQuotaResponse());
+    return;
+  }
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -165,6 +172,10 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  if (!check_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport for a flushed Check call.";
+    return;
+  }
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -179,6 +190,10 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  if (!report_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport for a flushed Report call.";
+    return;
+  }
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0


From 14f66d4122a3d95c38619093971753e80a41bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:18 +0000
Subject: [PATCH 17/18] fix: the age of the least recently used entry
 overflowed after 106 days

---
 utils/simple_lru_cache_inl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 8535492..10f703a 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -967,8 +967,12 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::AgeOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::Now() - head_.prev->last_use_) /
-         SimpleCycleTimer::Frequency();
+  const int64_t cycles = SimpleCycleTimer::Now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::Frequency();
+  // Seconds and the rest of a second separately: the product of all cycles and
+  // kSecToUsec overflows after 106 days.
+  return cycles / frequency * kSecToUsec +
+         cycles % frequency * kSecToUsec / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0


From 76d296eb216fa31d7c441fb0a208cb18bafb6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 18/18] fix: identify a check by all values of its metrics, in
 whatever order

A metric listed in several metric value sets was identified by the last of them
only, so that checks with different metric labels could share a cached answer;
and the signature depended on the order of the metric values.
---
 src/signature.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/signature.cc b/src/signature.cc
index f883b50..9038d79 100644
--- a/src/signature.cc
+++ b/src/signature.cc
@@ -83,21 +83,27 @@ string GenerateCheckRequestSignature(const CheckRequest& request) {
   hasher.Update(kDelimiter, kDelimiterLength);
   UpdateHashLabels(operation.labels(), &hasher);
 
-  // keep sorted order of metric_name
-  std::map<std::string, const ::google::protobuf::RepeatedPtrField<
-                            ::google::api::servicecontrol::v1::MetricValue>*>
-      metric_value_set_map;
+  // keep sorted order of metric_name, and of the labels of its metric values.
+  // A metric may be listed in several metric value sets.
+  std::map<std::string,
+           std::multimap<std::map<string, string>, const MetricValue*>>
+      metric_value_map;
   for (const auto& metric_value_set : operation.metric_value_sets()) {
-    metric_value_set_map[metric_value_set.metric_name()] =
-        &metric_value_set.metric_values();
+    auto& metric_values = metric_value_map[metric_value_set.metric_name()];
+    for (const auto& metric_value : metric_value_set.metric_values()) {
+      metric_values.emplace(
+          std::map<string, string>(metric_value.labels().begin(),
+                                   metric_value.labels().end()),
+          &metric_value);
+    }
   }
 
-  for(const auto& metric_value_set: metric_value_set_map) {
+  for (const auto& metric_values : metric_value_map) {
     hasher.Update(kDelimiter, kDelimiterLength);
-    hasher.Update(metric_value_set.first);
+    hasher.Update(metric_values.first);
 
-    for(const auto& metric_value: *metric_value_set.second) {
-      UpdateHashMetricValue(metric_value, &hasher);
+    for (const auto& metric_value : metric_values.second) {
+      UpdateHashMetricValue(*metric_value.second, &hasher);
     }
   }
 
-- 
2.43.0

