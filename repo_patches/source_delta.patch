From 0050d2c9dc134c9a89c0795b59e47ae0af7734f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 01/12] fix: keep the quota aggregator alive in flushed quota
 calls

The completion of a quota call started by AllocateQuotaFlushCallback captured
the client object and used it after the client might have been destroyed.
---
 src/service_control_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..87a9f62 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // The callback may be called after this object is gone, so it has to hold a
+  // ref_count to quota_aggregator.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From bbcfc544736d1aa798545271e8afb4eceab7b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:12 +0000
Subject: [PATCH 02/12] fix: do not re-insert quota cache entries evicted from
 a full cache

---
 src/quota_aggregator_impl.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..fd63896 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -260,15 +260,26 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
   if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
-    // insert the element back to the cache
-    cache_->Insert(elem->signature(), elem, 1);
+    bool refresh = elem->in_flight() == false && elem->is_aggregated();
+    // An entry evicted because the cache is full can not be inserted back: it
+    // would evict the next entry, which would be inserted back, and so on.
+    bool has_room = cache_->Size() < options_.num_entries;
+
+    if (has_room) {
+      // insert the element back to the cache
+      cache_->Insert(elem->signature(), elem, 1);
+    }
 
-    if (elem->in_flight() == false && elem->is_aggregated()) {
+    if (refresh) {
       elem->set_in_flight(true);
       elem->set_last_refresh_time(SimpleCycleTimer::Now());
       AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
         service_name_, service_config_id_));
     }
+
+    if (!has_room) {
+      delete elem;
+    }
   } else {
     delete elem;
   }
-- 
2.43.0


From 83cf325fd3707c3fbe90b99591d5861859613bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:59 +0000
Subject: [PATCH 03/12] fix: keep the bucket index of a sample in range for
 every value

---
 utils/distribution_helper.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..63ecf79 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -136,9 +136,12 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   int bucket_index = 0;
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
+    // Compares before converting, since the index may not fit into an integer.
+    double index = log2(value / exponential.scale()) /
+                   log2(exponential.growth_factor());
+    if (index < exponential.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(index);
+    } else {
       bucket_index = exponential.num_finite_buckets() + 1;
     }
   }
@@ -158,7 +161,13 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // Compares before converting, since the index may not fit into an integer.
+    double index = (value - lower_bound) / linear.width();
+    if (index < linear.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(index);
+    } else {
+      bucket_index = linear.num_finite_buckets() + 1;
+    }
   }
 
   distribution->set_bucket_counts(
@@ -168,7 +177,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (!bounds.empty() && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From 8c56f3b86777817882038ac9969ec300a78d995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:59 +0000
Subject: [PATCH 04/12] fix: reject NaN bucket parameters and replace old
 explicit bounds

---
 utils/distribution_helper.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 63ecf79..ef7606b 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -198,12 +198,12 @@ Status DistributionHelper::InitExponential(int num_finite_buckets,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (growth_factor <= 1.0) {
+  if (!(growth_factor > 1.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument growth_factor should be > 1.0. pass in: ",
                          growth_factor));
   }
-  if (scale <= 0) {
+  if (!(scale > 0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument scale should be > 0. pass in: ", scale));
   }
@@ -224,7 +224,7 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (width <= 0.0) {
+  if (!(width > 0.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument width should be > 0.0. pass in: ", width));
   }
@@ -249,6 +249,7 @@ Status DistributionHelper::InitExplicit(const std::vector<double>& bounds,
   }
 
   auto* explicit_buckets = distribution->mutable_explicit_buckets();
+  explicit_buckets->clear_bounds();
   for (unsigned int i = 0; i < bounds.size(); ++i) {
     explicit_buckets->mutable_bounds()->Add(bounds.at(i));
   }
-- 
2.43.0


From 44b84b079521d6cdb0e0d19d9b3cffa52fc9dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 05/12] fix: let a flush callback deliver a response that
 flushes other items

---
 src/cache_removed_items_handler.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..1dad688 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    CallbackLock lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -119,8 +119,13 @@ class CacheRemovedItemsHandler {
   };
 
  private:
+  // The callback may call back into the aggregator, which may flush out other
+  // items from the same thread.
+  typedef std::recursive_mutex CallbackMutex;
+  typedef std::unique_lock<CallbackMutex> CallbackLock;
+
   // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  CallbackMutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +135,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    CallbackLock lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
-- 
2.43.0


From efb41b62bb0de0d10120dae0acbfdc60e46b369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:06 +0000
Subject: [PATCH 06/12] fix: detect money overflow exactly and without
 overflowing

---
 src/money_utils.cc | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..8131e4d 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -79,42 +79,38 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
     sum_nanos += kBillion;
   }
 
-  // Calculate the sum of units.
-  int64_t sum_units_no_carry = a.units() + b.units();
-  int64_t sum_units = sum_units_no_carry + carry;
-  // It's possible the sum_units and sum_nanos now have different signs,
-  // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
-  // necessary.
-  if (sum_units > 0 && sum_nanos < 0) {
-    --sum_units;
-    sum_nanos += kBillion;
-  } else if (sum_units < 0 && sum_nanos > 0) {
-    ++sum_units;
-    sum_nanos -= kBillion;
-  }
-
-  // Get the sign of a and b in order to detect overflow.
+  // Get the sign of a and b in order to detect overflow. The sum can only
+  // overflow when both have the same sign, so that neither their units nor the
+  // carry have the other sign.
   int sign_a = GetAmountSign(a);
   int sign_b = GetAmountSign(b);
 
   // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  if (sign_a > 0 && sign_b > 0 && a.units() > INT64_MAX - carry - b.units()) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
   }
-  // Detect negative overflow. Note there is a tricky case that can only happen
-  // to negative overflow: sum_units_no_carry overflows to 0 but adding the
-  // carry makes sum_units a negative number again. So we must check both
-  // sum_units_no_carry and sum_units here. This doesn't happen in the
-  // positive overflow case because two MAX values 0x7FF...FF adds to
-  // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  // Detect negative overflow.
+  if (sign_a < 0 && sign_b < 0 && a.units() < INT64_MIN - carry - b.units()) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
   }
 
+  // Calculate the sum of units.
+  int64_t sum_units = a.units() + b.units() + carry;
+  // It's possible the sum_units and sum_nanos now have different signs,
+  // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
+  // necessary.
+  if (sum_units > 0 && sum_nanos < 0) {
+    --sum_units;
+    sum_nanos += kBillion;
+  } else if (sum_units < 0 && sum_nanos > 0) {
+    ++sum_units;
+    sum_nanos -= kBillion;
+  }
+
   // The success case.
   sum->set_units(sum_units);
   sum->set_nanos(sum_nanos);
-- 
2.43.0


From 739ebf970a3c145d0ad6732767783947c336af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 07/12] fix: report HTTP failures of the sample transport as
 failures

---
 sample/transport/http_transport.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 6d4bed8..08060b6 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -40,29 +40,40 @@ Status ConvertHttpCodeToStatus(const long &http_code) {
   switch (http_code) {
     case 400:
       status = Status(StatusCode::kInvalidArgument, std::string("Bad Request."));
+      break;
     case 403:
       status =
           Status(StatusCode::kPermissionDenied, std::string("Permission Denied."));
+      break;
     case 404:
       status = Status(StatusCode::kNotFound, std::string("Not Found."));
+      break;
     case 409:
       status = Status(StatusCode::kAborted, std::string("Conflict."));
+      break;
     case 416:
       status = Status(StatusCode::kOutOfRange,
                       std::string("Requested Range Not Satisfiable."));
+      break;
     case 429:
       status =
           Status(StatusCode::kResourceExhausted, std::string("Too Many Requests."));
+      break;
     case 499:
       status = Status(StatusCode::kCancelled, std::string("Client Closed Request."));
+      break;
     case 504:
       status = Status(StatusCode::kDeadlineExceeded, std::string("Gateway Timeout."));
+      break;
     case 501:
       status = Status(StatusCode::kUnimplemented, std::string("Not Implemented."));
+      break;
     case 503:
       status = Status(StatusCode::kUnavailable, std::string("Service Unavailable."));
+      break;
     case 401:
       status = Status(StatusCode::kUnauthenticated, std::string("Unauthorized."));
+      break;
     default: {
       if (http_code >= 200 && http_code < 300) {
         status = Status(StatusCode::kOk, std::string("OK."));
@@ -123,9 +134,14 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
     std::cout << "curl easy_perform() failed." << std::endl;
     long http_code = 0;
     curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-    Status status = ConvertHttpCodeToStatus(http_code);
+    status = ConvertHttpCodeToStatus(http_code);
+    if (status.ok()) {
+      // The transfer failed after the server accepted the request.
+      status = Status(StatusCode::kUnavailable, std::string("Transfer failed."));
+    }
   }
 
+  curl_slist_free_all(list);
   curl_easy_cleanup(curl);
   return status;
 }
-- 
2.43.0


From 5a65a4360ed042a33ccd5a0d8d98e50d393f1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:20 +0000
Subject: [PATCH 08/12] fix: send the whole request body in the sample
 transport

---
 sample/transport/http_transport.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 08060b6..7c025ce 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -123,6 +123,9 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   curl_easy_setopt(curl, CURLOPT_SSL_CIPHER_LIST,
                    "ALL:!aNULL:!LOW:!EXPORT:!SSLv2");
 
+  // The body is binary: without its size, it would end at the first zero byte.
+  curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE,
+                   static_cast<curl_off_t>(request_body.size()));
   curl_easy_setopt(curl, CURLOPT_POSTFIELDS, request_body.data());
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, ResultBodyCallback);
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, response_body);
-- 
2.43.0


From a0f064fad7aedb46515e2ec429fa70ea8f315d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 09/12] fix: let LRU entries looked up without reordering
 expire while pinned

---
 utils/simple_lru_cache_inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..e21e614 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -920,9 +920,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // In the LRU mode an element is pinned on the list only if it was looked up
+    // without updating the eviction order. In both modes we push elements out
+    // of the main table regardless of pinning.
     Remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 260de24f63b050061e71285b4f203da2af399d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 10/12] fix: report redirects as failures in the sample
 transport

---
 sample/transport/http_transport.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 7c025ce..0fa5744 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -132,12 +132,13 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1L);
 
   CURLcode res = curl_easy_perform(curl);
-  Status status = OkStatus();
+  // A transfer can succeed without the request having done so: curl takes only
+  // codes from 400 on as errors.
+  long http_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
+  Status status = ConvertHttpCodeToStatus(http_code);
   if (res != CURLE_OK) {
     std::cout << "curl easy_perform() failed." << std::endl;
-    long http_code = 0;
-    curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-    status = ConvertHttpCodeToStatus(http_code);
     if (status.ok()) {
       // The transfer failed after the server accepted the request.
       status = Status(StatusCode::kUnavailable, std::string("Transfer failed."));
-- 
2.43.0


From b840ef92a095bd38b39bb794791a29ed0fb36a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:45 +0000
Subject: [PATCH 11/12] fix: count a report's operations before handing it to
 the transport

---
 src/service_control_client_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 87a9f62..2e8ec27 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -343,9 +343,11 @@ void ServiceControlClientImpl::Report(const ReportRequest& report_request,
 
   Status status = report_aggregator_->Report(report_request);
   if (status.code() == StatusCode::kNotFound) {
+    // The callback may free the request, so count its operations first.
+    const int operations = report_request.operations_size();
     report_transport(report_request, report_response, on_report_done);
     ++send_reports_in_flight_;
-    send_report_operations_ += report_request.operations_size();
+    send_report_operations_ += operations;
     return;
   }
   on_report_done(status);
-- 
2.43.0


From 0f6dc3f411c9e850b7b7dc682273f4a17c3db133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:41 +0000
Subject: [PATCH 12/12] fix: do not call a missing transport when flushing

---
 src/service_control_client_impl.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 2e8ec27..0e7e07a 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,14 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  if (quota_transport_ == NULL) {
+    GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: transport is NULL.";
+    // cache dummy response for fail open
+    (void)quota_aggregator_->CacheResponse(quota_request,
+                                           AllocateQuotaResponse());
+    return;
+  }
+
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -165,6 +173,11 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  if (check_transport_ == NULL) {
+    GOOGLE_LOG(ERROR) << "Failed in Check call: transport is NULL.";
+    return;
+  }
+
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -179,6 +192,11 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  if (report_transport_ == NULL) {
+    GOOGLE_LOG(ERROR) << "Failed in Report call: transport is NULL.";
+    return;
+  }
+
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0

