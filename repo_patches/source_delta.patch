From 2a93a2908d8a7c0ea7e4fa1f22cdeeb058532f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 01/27] fix: reject tags without a value instead of skipping a
 character

A spectatord line whose last tag has no '=' left the tag loop with pos at the
start of that tag, and the following ++pos stepped over one character of it:
"c:n," read past the end of the line (into the remains of an older datagram)
and "c:n,57:1" counted 7.
---
 server/spectatord.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0207e8d..e9bfedc 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -239,7 +239,12 @@ auto get_measurement(char type, std::string_view measurement_str, std::string* e
     while (measurement_str[pos] != ':') {
       ++pos;
       auto k_pos = measurement_str.find('=', pos);
-      if (k_pos == std::string_view::npos) break;
+      if (k_pos == std::string_view::npos) {
+        // only a comma right before the separator may end the tags like this
+        if (pos < measurement_str.size() && measurement_str[pos] == ':') break;
+        *err_msg = "Missing tag value";
+        return {};
+      }
       auto key = measurement_str.substr(pos, k_pos - pos);
       ++k_pos;
       auto v_pos = measurement_str.find_first_of(",:", k_pos);
-- 
2.43.0


From c45da585241fbc8f9725d6ba772e67fe16540155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 02/27] fix: use the parsed value of monotonic sampled sources

The value of an X line is parsed as a double, but its bit pattern was read as
an integer. An X line without a timestamp was counted as parsed although it
was dropped.
---
 server/spectatord.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index e9bfedc..1f9ec94 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -593,11 +593,13 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
       registry_->GetMonotonicCounterUint(measurement->id)->Set(measurement->value.u);
       break;
     case 'X':
-      if (extra > 0) {
+      if (extra <= 0) {
+        return "Missing timestamp for monotonic sampled source";
+      } else {
         // extra is milliseconds since the epoch
         auto nanos = extra * 1000 * 1000;
         registry_->GetMonotonicSampled(measurement->id)
-            ->Set(measurement->value.u, nanos);
+            ->Set(measurement->value.d, nanos);
       }
       break;
     default:
-- 
2.43.0


From a1f8df35c18a82d7e55a299dfe56145c379db9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 03/27] fix: report, count and expire monotonic sampled meters

They were registered, but left out of the measurements, of the registry size
and of the expiration.
---
 spectator/registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 936b239..1f43381 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -167,7 +167,7 @@ struct all_meters {
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
-           mono_counters_uint_.size() + timers_.size();
+           mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
@@ -180,6 +180,7 @@ struct all_meters {
     max_gauges_.measure(&res, meter_ttl);
     mono_counters_.measure(&res, meter_ttl);
     mono_counters_uint_.measure(&res, meter_ttl);
+    mono_sampled_.measure(&res, meter_ttl);
     timers_.measure(&res, meter_ttl);
     return res;
   }
@@ -210,6 +211,9 @@ struct all_meters {
     std::tie(expired, count) = mono_counters_uint_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
+    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);
+    total_expired += expired;
+    total_count += count;
     std::tie(expired, count) = timers_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
-- 
2.43.0


From 69d61e87d9187f6c2e932a9c5989029b2b4b46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 04/27] fix: leave room for the terminator of a full datagram

A datagram of the size of the receive buffer made the servers write the NUL
one past its end (65536 byte datagrams are possible on the unix socket).
---
 server/local_server.cc | 3 ++-
 server/udp_server.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/local_server.cc b/server/local_server.cc
index a3cdf28..114ef7d 100644
--- a/server/local_server.cc
+++ b/server/local_server.cc
@@ -13,7 +13,8 @@ void LocalServer::Start() { start_local_receive(); }
 
 void LocalServer::start_local_receive() {
   socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      // keep room for the terminator
+      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
         if (bytes_transferred >= recv_buffer_.size()) {
           Logger()->error("too many bytes transferred: {} >= {}",
diff --git a/server/udp_server.cc b/server/udp_server.cc
index 5136902..245915f 100644
--- a/server/udp_server.cc
+++ b/server/udp_server.cc
@@ -23,7 +23,8 @@ UdpServer::UdpServer(asio::io_context& io_context, bool ipv4_only, int port_numb
 
 void UdpServer::start_udp_receive() {
   udp_socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      // keep room for the terminator
+      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
         if (bytes_transferred >= recv_buffer_.size()) {
           Logger()->error("too many bytes transferred: {} >= {}",
-- 
2.43.0


From 3c80b6153c3a50b801d0258444c51754f967aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 05/27] fix: leave room for the terminator when reading the
 buffer size

buf[n] was one past the end for a file of 4096 bytes or more.
---
 server/proc_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/proc_utils.cc b/server/proc_utils.cc
index 911423d..c1c0a46 100644
--- a/server/proc_utils.cc
+++ b/server/proc_utils.cc
@@ -23,7 +23,7 @@ auto max_buffer_size(const char* proc_file) -> int {
   } else {
     result = kDefault;
     char buf[4096];
-    int n = read(fd, buf, sizeof buf);
+    int n = read(fd, buf, sizeof buf - 1);
     if (n > 0) {
       buf[n] = '\0';
       if (!absl::SimpleAtoi(buf, &result)) {
-- 
2.43.0


From 4e0fe2394f49416371dde6979a046ff2b094e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 06/27] fix: compute the new value in add_double from the
 compared one

The desired value came from a second load: an update in between the two loads
that was undone before the exchange (a value reported and reset, then added
again) counted twice.
---
 spectator/atomicnumber.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spectator/atomicnumber.h b/spectator/atomicnumber.h
index f5be358..e15e603 100644
--- a/spectator/atomicnumber.h
+++ b/spectator/atomicnumber.h
@@ -10,8 +10,7 @@ inline auto add_double(std::atomic<double>* n, double delta) -> void {
   double current;
   do {
     current = n->load(std::memory_order_relaxed);
-  } while (!n->compare_exchange_weak(
-      current, n->load(std::memory_order_relaxed) + delta));
+  } while (!n->compare_exchange_weak(current, current + delta));
 }
 
 /// Atomically set the max value of an atomic number
-- 
2.43.0


From 6ecfbbbd48628b71e39ed1d2b572b5952d30047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 07/27] fix: ignore NaN amounts in counters

One NaN (strtod parses "nan") turned the sum into NaN, and the counter lost
everything added until its next reset.
---
 spectator/counter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/counter.cc b/spectator/counter.cc
index 0804622..60a3346 100644
--- a/spectator/counter.cc
+++ b/spectator/counter.cc
@@ -22,7 +22,7 @@ void Counter::Increment() noexcept { Add(1.0); }
 void Counter::Add(double delta) noexcept {
   Update();
 
-  if (delta < 0) {
+  if (!(delta >= 0)) {
     return;
   }
   add_double(&count_, delta);
-- 
2.43.0


From f450663f8fd379c4c197ea8538be521e4ecd156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 08/27] fix: take delta and baseline of monotonic meters from
 one reading

Measure read the value twice, once for the delta and once for the baseline of
the next report, so an increment set in between was never reported.
---
 spectator/monotonic_counter.cc      |  7 ++++---
 spectator/monotonic_counter_uint.cc | 21 +++++++++++++--------
 spectator/monotonic_sampled.cc      | 12 +++++++-----
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/spectator/monotonic_counter.cc b/spectator/monotonic_counter.cc
index 980adef..5695b08 100644
--- a/spectator/monotonic_counter.cc
+++ b/spectator/monotonic_counter.cc
@@ -19,9 +19,10 @@ auto MonotonicCounter::Delta() const noexcept -> double {
 }
 
 void MonotonicCounter::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed),
-                    std::memory_order_relaxed);
+  // the delta and the next baseline have to come from the same reading
+  auto value = value_.load(std::memory_order_relaxed);
+  auto delta = value - prev_value_.load(std::memory_order_relaxed);
+  prev_value_.store(value, std::memory_order_relaxed);
   if (delta > 0) {
     if (!count_id_) {
       count_id_ =
diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a89ef2b..8b115fa 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -15,12 +15,7 @@ void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   value_.store(amount, std::memory_order_relaxed);
 }
 
-auto MonotonicCounterUint::Delta() const noexcept -> double {
-  if (!init_.load(std::memory_order_relaxed)) return kNaN;
-
-  auto prev = prev_value_.load(std::memory_order_relaxed);
-  auto curr = value_.load(std::memory_order_relaxed);
-
+static auto delta_between(uint64_t prev, uint64_t curr) -> double {
   if (curr < prev) {
     return kMax - prev + curr + 1;
   } else {
@@ -28,9 +23,19 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
   }
 }
 
+auto MonotonicCounterUint::Delta() const noexcept -> double {
+  if (!init_.load(std::memory_order_relaxed)) return kNaN;
+
+  auto prev = prev_value_.load(std::memory_order_relaxed);
+  return delta_between(prev, value_.load(std::memory_order_relaxed));
+}
+
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+  // the delta and the next baseline have to come from the same reading
+  auto value = value_.load(std::memory_order_relaxed);
+  auto prev = prev_value_.load(std::memory_order_relaxed);
+  auto delta = init_.load(std::memory_order_relaxed) ? delta_between(prev, value) : kNaN;
+  prev_value_.store(value, std::memory_order_relaxed);
   init_.store(true, std::memory_order_relaxed);
 
   if (delta > 0) {
diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 1e1d5bf..adba681 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -29,13 +29,15 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 }
 
 void MonotonicSampled::Measure(Measurements* results) const noexcept {
-  auto sampled_delta = SampledRate();
-  if (std::isnan(sampled_delta)) {
-    return;
-  }
-
+  double sampled_delta;
   {
+    // the rate and the next baseline have to come from the same point
     absl::MutexLock lock(&mutex_);
+    auto delta_t = (ts_ - prev_ts_) / 1e9;
+    sampled_delta = (value_ - prev_value_) / delta_t;
+    if (std::isnan(sampled_delta)) {
+      return;
+    }
     prev_value_ = value_;
     prev_ts_ = ts_;
   }
-- 
2.43.0


From 0e40ee2d56f50cd3cc36f0193d4ff1f6073c03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 09/27] fix: keep capacity and free old storage in Tags move
 assignment

The capacity of a large tag set was not taken over (the destination kept the
first bytes of its inline entries as its capacity, so a later add did not
grow the storage), the old storage leaked, and self-assignment lost it.
---
 spectator/tags.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectator/tags.h b/spectator/tags.h
index b8f6f83..b7b441d 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -58,10 +58,17 @@ class Tags {
   auto operator=(const Tags&) -> Tags& = delete;
 
   auto operator=(Tags&& o) noexcept -> Tags& {
+    if (this == &o) {
+      return *this;
+    }
+    if (is_large()) {
+      free(begin_);
+    }
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
       o.begin_ = nullptr;
+      U.capacity_ = o.U.capacity_;
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
-- 
2.43.0


From 877715e222bc02f9c234271fe10a345cdf1b9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 10/27] fix: write the int32 token in the 4-byte integer
 encoding

Integers from 524288 to 67108863 were written with 0x00 in place of 0x24.
---
 spectator/smile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/smile.cc b/spectator/smile.cc
index 9b3006e..db6d98a 100644
--- a/spectator/smile.cc
+++ b/spectator/smile.cc
@@ -52,7 +52,7 @@ void SmilePayload::Append(size_t n) {
   auto b2 = static_cast<uint8_t>(i & 0x7FU);
   i >>= 7U;
   if (i <= 0x7F) {
-    buffer_.Append(kTokenInt32, static_cast<uint8_t>(i), b2, b1, b0);
+    buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b2, b1, b0);
     return;
   }
   // no, need all 5 bytes
-- 
2.43.0


From 0693b43126244a4bc8fd3bec039abb05d4d978b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 11/27] fix: delete all meters without using erased entries

Erasing by a key inside the entry being erased and then advancing from it used
freed memory. Deleting one looked it up and erased it in two steps.
---
 spectator/registry.h | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 1f43381..30f6a6a 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -109,23 +109,13 @@ struct meter_map {
   }
 
   auto remove_one(Id id) noexcept -> bool {
-    if (contains(id)) {
-      absl::MutexLock lock{&meters_mutex_};
-      meters_.erase(id);
-      return true;
-    } else {
-      return false;
-    }
+    absl::MutexLock lock{&meters_mutex_};
+    return meters_.erase(id) > 0;
   }
 
   void remove_all() noexcept {
     absl::MutexLock lock{&meters_mutex_};
-    auto it = meters_.begin();
-    auto end = meters_.end();
-    while (it != end) {
-      meters_.erase(it->first);
-      ++it;
-    }
+    meters_.clear();
   }
 
   auto get_ids() const -> std::vector<Id> {
-- 
2.43.0


From c737516de8ba789eb54b4618b4b4126486fc75d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 12/27] fix: skip empty lines at the start of a datagram too

The empty line counted as a parse error, and parse_line read past its
terminator into the following line.
---
 server/spectatord.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 1f9ec94..fd9985f 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -37,6 +37,10 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
   const auto& cfg = registry_->GetConfig();
 
   char* p = buffer;
+  // skip empty lines
+  while (*p == '\n') {
+    ++p;
+  }
   std::string err_msg;
   while (*p != '\0') {
     char* newline = std::strchr(p, '\n');
-- 
2.43.0


From 3a3be267e7a6bf21fde7eeff5372a5b49af7a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 13/27] fix: look up existing age gauges in one step

If the age gauge was deleted through the admin server between contains() and
at(), at() threw out of a noexcept function and ended the process.
---
 spectator/registry.cc | 5 +++--
 spectator/registry.h  | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 88514f4..23fd023 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -26,8 +26,9 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 }
 
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
-  if (all_meters_.age_gauges_.contains(id)) {
-    return all_meters_.age_gauges_.at(id);
+  auto known = all_meters_.age_gauges_.get(id);
+  if (known) {
+    return known;
   } else {
     if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
       return all_meters_.insert_age_gauge(std::move(id));
diff --git a/spectator/registry.h b/spectator/registry.h
index 30f6a6a..43454ed 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -74,6 +74,13 @@ struct meter_map {
     return meters_.at(id);
   }
 
+  // nullptr if there is no such meter
+  auto get(const Id& id) const -> std::shared_ptr<M> {
+    absl::MutexLock lock(&meters_mutex_);
+    auto it = meters_.find(id);
+    return it != meters_.end() ? it->second : nullptr;
+  }
+
   void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {
     absl::MutexLock lock(&meters_mutex_);
     auto now = absl::GetCurrentTimeNanos();
-- 
2.43.0


From 46afcccf7d932f9f4aac85e502b4b7dac2af3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 14/27] fix: check the types in the aggregator's response
 before use

A response that is not an object, or whose errorCount or message has another
type, made rapidjson access the wrong member of its union (it only asserts).
An errorCount above the batch size wrapped the number of measurements sent.
---
 spectator/publisher.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57231ae..f4f8f2d 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -292,21 +292,27 @@ class Publisher {
           droppedOther_->Add(num_measurements);
         }
       } else {
-        if (body.HasMember("errorCount")) {
-          auto err_count = body["errorCount"].GetInt();
+        if (body.IsObject() && body.HasMember("errorCount") &&
+            body["errorCount"].IsUint() &&
+            body["errorCount"].GetUint() <= num_measurements) {
+          auto err_count = body["errorCount"].GetUint();
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
             invalidMetrics_->Add(err_count);
             sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
           }
-          auto messages = body["message"].GetArray();
-          for (auto& msg : messages) {
-            err_messages->emplace(
-                std::string(msg.GetString(), msg.GetStringLength()));
+          auto messages = body.FindMember("message");
+          if (messages != body.MemberEnd() && messages->value.IsArray()) {
+            for (auto& msg : messages->value.GetArray()) {
+              if (msg.IsString()) {
+                err_messages->emplace(
+                    std::string(msg.GetString(), msg.GetStringLength()));
+              }
+            }
           }
         } else {
-          logger->error("Missing errorCount field in JSON response from {}: {}",
+          logger->error("Missing errorCount field in JSON response from {} - status {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
             droppedOther_->Add(num_measurements);
-- 
2.43.0


From ad4bdf29440559f18d602e6e634c6239206be965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 15/27] fix: count the measurements of completely accepted
 batches as sent

spectator.measurements,id=sent was only updated for partially accepted ones.
---
 spectator/publisher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index f4f8f2d..457a3b4 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -281,6 +281,9 @@ class Publisher {
     auto http_code = http_response.status;
     if (http_code == 200) {
       num_sent = num_measurements;
+      if (status_metrics_enabled) {
+        sentMetrics_->Add(num_measurements);
+      }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
       body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
-- 
2.43.0


From 3ad06e3c65c36113d03c4cb59ac57998c2db51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 16/27] fix: do not loop forever on an unset batch size

batch_size is 0 in a default Config: every batch was empty, and the list of
batches grew until memory ran out.
---
 spectator/publisher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 457a3b4..f0c9e3b 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -343,7 +343,8 @@ class Publisher {
     auto http_cfg = get_http_config(cfg);
     auto start = absl::Now();
     HttpClient client{registry_, std::move(http_cfg)};
-    auto batch_size = static_cast<std::vector<Measurement>::difference_type>(cfg.batch_size);
+    // an unset batch size (0) would never get to the end of the measurements
+    auto batch_size = static_cast<std::vector<Measurement>::difference_type>(std::max(cfg.batch_size, 1));
     auto measurements = registry_->Measurements();
 
     if (!cfg.is_enabled() || measurements.empty()) {
-- 
2.43.0


From f06d06ea8742774099f82bf1981dff41c7058fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 17/27] fix: do not miss the wake-up of Stop

Stop could set the flag and notify between a background thread's check of the
flag and its wait; the join then took up to a full period. The threads also
went through another round when stopped while waiting for the first one.
---
 server/spectatord.cc  | 6 +++++-
 spectator/publisher.h | 6 +++++-
 spectator/registry.cc | 8 ++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index fd9985f..cb3334c 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -465,7 +465,7 @@ void Server::upkeep() {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = kFrequency - elapsed;
       logger->debug("Janitor - sleeping {}ms", duration_cast<milliseconds>(sleep).count());
-      cv_.wait_for(lock, sleep);
+      cv_.wait_for(lock, sleep, [this] { return should_stop_.load(); });
     }
   }
 }
@@ -489,6 +489,10 @@ void Server::update_network_metrics() {
 void Server::Stop() {
   if (!should_stop_.exchange(true)) {
     logger_->debug("Stopping background tasks");
+    {
+      // the upkeep thread has either seen should_stop_, or is waiting
+      std::unique_lock<std::mutex> lock{cv_mutex_};
+    }
     cv_.notify_all();
     upkeep_thread_.join();
   }
diff --git a/spectator/publisher.h b/spectator/publisher.h
index f0c9e3b..9fd6aa4 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -93,6 +93,10 @@ class Publisher {
   void Stop() {
     if (started_.exchange(false)) {
       should_stop_ = true;
+      {
+        // the sender has either seen should_stop_, or is waiting
+        std::unique_lock<std::mutex> lock{cv_mutex_};
+      }
       cv_.notify_all();
       sender_thread_.join();
     }
@@ -146,7 +150,7 @@ class Publisher {
         auto sleep = cfg.frequency - elapsed;
         logger->debug("Sleeping {}s until the next interval",
                       absl::ToDoubleSeconds(sleep));
-        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });
       }
     }
     logger->info("Stopping Publisher");
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 23fd023..31e8197 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -151,6 +151,10 @@ void Registry::Stop() noexcept {
   publisher_.Stop();
   if (!should_stop_.exchange(true)) {
     logger_->debug("Stopping expirer thread");
+    {
+      // the expirer has either seen should_stop_, or is waiting
+      std::unique_lock<std::mutex> lock{cv_mutex_};
+    }
     cv_.notify_all();
     expirer_thread_.join();
   }
@@ -217,7 +221,7 @@ void Registry::expirer() noexcept {
   // Start - wait one freq_millis interval
   {
     std::unique_lock<std::mutex> lock{cv_mutex_};
-    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency));
+    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency), [this] { return should_stop_.load(); });
   }
   while (!should_stop_) {
     auto start = absl::Now();
@@ -227,7 +231,7 @@ void Registry::expirer() noexcept {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = frequency - elapsed;
       logger_->debug("Expirer sleeping {}s", absl::ToDoubleSeconds(sleep));
-      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });
     }
   }
 }
-- 
2.43.0


From b8c0861a33dc63c7f66b18433dca97df34c374d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 18/27] fix: publish changed common tags, and guard them

POST /config/common_tags changed the configuration, but the publisher used the
copy it had made at start-up, and the map was read and changed by several
threads of the admin server without a lock.
---
 admin/admin_server.cc |  7 ++++---
 spectator/publisher.h | 15 ++++++++++++---
 spectator/registry.cc |  7 +++++++
 spectator/registry.h  |  2 ++
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 765d2c1..4283249 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -45,11 +45,12 @@ void GET_root(HTTPServerRequest& req, HTTPServerResponse& res) {
 }
 
 void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,
-                const spectator::Config& config) {
+                const spectator::Registry& registry) {
+  const auto& config = registry.GetConfig();
   Object::Ptr obj = new Object(true);
 
   Object::Ptr common_tags = new Object(true);
-  for (auto& pair : config.common_tags) {
+  for (auto& pair : registry.CommonTags()) {
     common_tags->set(pair.first, pair.second);
   }
 
@@ -321,7 +322,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
     GET_root(req, res);
   } else if (req.getURI() == "/config" && req.getMethod() == "GET") {
     // get the full spectator configuration
-    GET_config(req, res, this->registry.GetConfig());
+    GET_config(req, res, this->registry);
   } else if (req.getURI() == "/config/common_tags" && req.getMethod() == "GET") {
     // describe common_tags usage
     GET_config_common_tags(req, res, join(this->allowed_tags, ", "));
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 9fd6aa4..61134bf 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -51,9 +51,7 @@ class Publisher {
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
-    for (const auto& kv : registry_->GetConfig().common_tags) {
-      common_tags_.add(kv.first, kv.second);
-    }
+    refresh_common_tags();
   }
 
   Publisher(const Publisher&) = delete;
@@ -124,6 +122,14 @@ class Publisher {
   asio::thread_pool pool_;
   std::vector<SmilePayload> buffers_;
 
+  void refresh_common_tags() {
+    Tags tags;
+    for (const auto& kv : registry_->CommonTags()) {
+      tags.add(kv.first, kv.second);
+    }
+    common_tags_ = std::move(tags);
+  }
+
   void sender() noexcept {
     using std::chrono::duration_cast;
     using std::chrono::milliseconds;
@@ -366,6 +372,9 @@ class Publisher {
       }
     }
 
+    // they may have been changed through the admin server
+    refresh_common_tags();
+
     auto from = measurements.begin();
     auto end = measurements.end();
     std::vector<std::pair<int, HttpResponse>> responses;
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 31e8197..8219d38 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -171,7 +171,13 @@ auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
   return res;
 }
 
+auto Registry::CommonTags() const -> std::map<std::string, std::string> {
+  absl::MutexLock lock(&common_tags_mutex_);
+  return config_->common_tags;
+}
+
 void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
+  absl::MutexLock lock(&common_tags_mutex_);
   auto it = config_->common_tags.find(k);
   if (it != config_->common_tags.end()) {
     it->second = v;
@@ -181,6 +187,7 @@ void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
 }
 
 void Registry::EraseCommonTag(const std::string& k) {
+  absl::MutexLock lock(&common_tags_mutex_);
   config_->common_tags.erase(k);
 }
 
diff --git a/spectator/registry.h b/spectator/registry.h
index 43454ed..fd13fe7 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -334,6 +334,7 @@ class Registry {
   // for updating mantis common tags
   void UpdateCommonTag(const std::string& k, const std::string& v);
   void EraseCommonTag(const std::string& k);
+  auto CommonTags() const -> std::map<std::string, std::string>;
 
   // for administering gauges
   bool DeleteMeter(const std::string& type, const Id& id);
@@ -376,6 +377,7 @@ class Registry {
   std::thread expirer_thread_;
   int64_t meter_ttl_;  // in nanos
 
+  mutable absl::Mutex common_tags_mutex_;  // guards config_->common_tags
   std::unique_ptr<Config> config_;
   logger_ptr logger_;
 
-- 
2.43.0


From 53e1671ad015c43325b1f298f6b8537395839836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 19/27] fix: let measurements own their id

Measurement kept a reference into the meter, and measurements are used after
the registry's lock is released: a meter removed by the expirer thread or the
admin server while its measurements were being published was used after free.
---
 spectator/measurement.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spectator/measurement.h b/spectator/measurement.h
index 3e2264f..53f7d73 100644
--- a/spectator/measurement.h
+++ b/spectator/measurement.h
@@ -12,12 +12,9 @@ class Measurement {
   Measurement(const Id& id_param, double value_param) noexcept
       : id{id_param}, value{value_param} {}
 
-  // We do not own the id_param so temporary references will cause problems.
-  // This could happen if the user tries something like:
-  // Measurement(id.withTag(...), value);
-  Measurement(Id&& error, double value_param) noexcept = delete;
-
-  const Id& id;
+  // The id is a copy: the meter it comes from may expire or be deleted while
+  // the measurement is being published.
+  Id id;
   double value;
 
   auto operator==(const Measurement& other) const -> bool {
-- 
2.43.0


From 916d6d10683e809d75cfdc9351b9cd4be167ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 20/27] fix: share ownership of cached percentile meters

The raw pointer was used after the cache's lock was released, while the
upkeep thread may drop the entry.
---
 server/expiring_cache.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/expiring_cache.h b/server/expiring_cache.h
index 2cac0f4..8ea0dea 100644
--- a/server/expiring_cache.h
+++ b/server/expiring_cache.h
@@ -11,7 +11,7 @@ namespace detail {
 template <typename V>
 struct cache_entry {
   mutable std::chrono::steady_clock::time_point updated;
-  std::unique_ptr<V> v;
+  std::shared_ptr<V> v;
 };
 }  // namespace detail
 
@@ -22,19 +22,19 @@ class expiring_cache {
                                             spectator::Id);
   explicit expiring_cache(supplier_t supplier) : supplier_{supplier} {}
 
-  V* get_or_create(spectator::Registry* registry, spectator::Id k) {
+  std::shared_ptr<V> get_or_create(spectator::Registry* registry, spectator::Id k) {
     absl::MutexLock lock{&cache_mutex_};
 
     auto it = cache_.find(k);
     if (it != cache_.end()) {
       auto& entry = it->second;
       entry.updated = std::chrono::steady_clock::now();
-      return entry.v.get();
+      return entry.v;
     }
 
     detail::cache_entry<V> entry{std::chrono::steady_clock::now(),
                                  supplier_(registry, k)};
-    auto* ret = entry.v.get();
+    auto ret = entry.v;
     cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
     return ret;
   }
-- 
2.43.0


From 9e503f6c77ac514fdb1a7837b57a0e9971219e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 21/27] fix: compare the whole host in the admin server's
 localhost check

Any host that contained localhost or 127.0.0.1, as in localhost.example.com,
was allowed to change common tags and delete meters.
---
 admin/admin_server.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 4283249..a1a0835 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -309,13 +309,20 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
   }
 }
 
+// the host, with or without a port, has to be the name or address itself
+static bool is_localhost(const std::string& host) {
+  for (const std::string name : {"localhost", "127.0.0.1", "[::1]"}) {
+    if (host == name || host.rfind(name + ":", 0) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
-  auto localhost_found =
-      req.getHost().rfind("localhost") != std::string::npos ||
-      req.getHost().rfind("127.0.0.1") != std::string::npos ||
-      req.getHost().rfind("[::1]") != std::string::npos;
+  auto localhost_found = is_localhost(req.getHost());
 
   if (req.getURI() == "/" && req.getMethod() == "GET") {
     // describe admin service
-- 
2.43.0


From c0eb43338589b18f82a519d16fd389cf624c3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 22/27] fix: require a separator after the meter type in DELETE

DELETE /metrics/gXname deleted the gauge "name".
---
 admin/admin_server.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index a1a0835..50602b2 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -294,6 +294,11 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
     registry.DeleteAllMeters(type);
     res.setStatus(HTTPResponse::HTTP_OK);
     res.send();
+  } else if (req.getURI()[10] != '/') {
+    logger->error("DELETE failed: unknown endpoint '{}'", req.getURI());
+    res.setStatus(HTTPResponse::HTTP_NOT_FOUND);
+    res.setReason("Not Found");
+    res.send();
   } else {
     auto id = parse_id(req.getURI().substr(11));
     if (registry.DeleteMeter(type, id)) {
-- 
2.43.0


From d847708bfe0a6272787dcc644c420729f3e34abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 23/27] fix: do not take a slash in the query for the start of
 the path

---
 spectator/strings.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectator/strings.cc b/spectator/strings.cc
index 8bfc469..ef62cbf 100644
--- a/spectator/strings.cc
+++ b/spectator/strings.cc
@@ -19,12 +19,12 @@ auto PathFromUrl(std::string_view url) noexcept -> std::string {
   }
   proto_end += 3;  // skip over ://
 
-  auto path_begin = std::find(proto_end, url.end(), '/');
-  if (path_begin == url.end()) {
+  auto query_begin = std::find(proto_end, url.end(), '?');
+  auto path_begin = std::find(proto_end, query_begin, '/');
+  if (path_begin == query_begin) {
     return "/";
   }
 
-  auto query_begin = std::find(path_begin, url.end(), '?');
   return std::string{path_begin, query_begin};
 }
 
-- 
2.43.0


From 1b85afead94ceb4db4e7616767b74c4046e697b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 24/27] fix: release an unfinished stream when a compressed
 buffer is initialised again

---
 spectator/compressed_buffer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spectator/compressed_buffer.cc b/spectator/compressed_buffer.cc
index 2afb138..4cfb787 100644
--- a/spectator/compressed_buffer.cc
+++ b/spectator/compressed_buffer.cc
@@ -70,8 +70,12 @@ auto CompressedBuffer::Result() -> CompressedResult {
 }
 
 auto CompressedBuffer::Init() -> void {
+  if (init_) {
+    // discard a stream that was never finished
+    init_ = false;
+    deflateEnd(&stream);
+  }
   cur_.clear();
-  init_ = true;
   dest_index_ = 0;
 
   stream.zalloc = static_cast<alloc_func>(nullptr);
@@ -83,6 +87,7 @@ auto CompressedBuffer::Init() -> void {
   if (err != Z_OK) {
     throw std::runtime_error(fmt::format("Unable to init zlib: {}", err));
   }
+  init_ = true;
 }
 
 }  // namespace spectator
-- 
2.43.0


From 2d5cfd7dc28d5c7692115e8797ffc956b4c40abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 25/27] fix: reject a statsd sampling rate that is not a number

---
 server/spectatord.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index cb3334c..b7561d0 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -188,7 +188,8 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || sampling_rate <= 0 || sampling_rate > 1) {
+      // written so that a rate that is not a number is rejected, too
+      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From fe2bf659f8209e5a4af514ac1eec1d55d515d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 26/27] fix: publisher: at least one sender thread, else
 nothing is ever sent and Stop() waits forever

---
 spectator/publisher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 61134bf..ca73235 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -48,7 +48,8 @@ class Publisher {
             registry, Tags{{"id", "dropped"}, {"error", "http-error"}})},
         droppedOther_{detail::get_counter(
             registry, Tags{{"id", "dropped"}, {"error", "other"}})},
-        num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
+        // hardware_concurrency() is 0 when it is not known
+        num_sender_threads_{std::max(1U, std::min(8U, std::thread::hardware_concurrency()))},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
     refresh_common_tags();
-- 
2.43.0


From d9c40c5ce16400f87bdf9cd62071309e70cf18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 27/27] fix: check the age gauge limit and register in one step

---
 spectator/registry.cc |  6 ++++--
 spectator/registry.h  | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 8219d38..5f2b1ad 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -30,8 +30,10 @@ auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
   if (known) {
     return known;
   } else {
-    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
-      return all_meters_.insert_age_gauge(std::move(id));
+    // other threads may be adding age gauges too
+    auto inserted = all_meters_.insert_age_gauge(id, config_->age_gauge_limit);
+    if (inserted) {
+      return inserted;
     } else {
       logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
                     config_->age_gauge_limit);
diff --git a/spectator/registry.h b/spectator/registry.h
index fd13fe7..ea437a9 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -69,6 +69,21 @@ struct meter_map {
     return insert_result.first->second;
   }
 
+  // same, but nullptr if it doesn't exist and there are already `limit` meters
+  auto insert(std::shared_ptr<M> meter, size_t limit) -> std::shared_ptr<M> {
+    absl::MutexLock lock(&meters_mutex_);
+    const auto& id = meter->MeterId();
+    auto it = meters_.find(id);
+    if (it != meters_.end()) {
+      return it->second;
+    }
+    if (meters_.size() >= limit) {
+      return nullptr;
+    }
+    meters_.emplace(id, meter);
+    return meter;
+  }
+
   auto at(const Id& id) -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
     return meters_.at(id);
@@ -217,8 +232,8 @@ struct all_meters {
     return {total_expired, total_count};
   }
 
-  auto insert_age_gauge(Id id) {
-    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)));
+  auto insert_age_gauge(Id id, size_t limit) {
+    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)), limit);
   }
 
   auto insert_counter(Id id) {
-- 
2.43.0

