From c415522a1ce6bbea347d7d5214de0fd7eaf2f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 01/49] fix: don't report a fragment of a chained stream
 nothing was written to

---
 src/common/chained_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..b236fc8 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,7 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  if (segment_num_fragments() == 0) {
     return true;
   }
 
-- 
2.43.0


From 35658c559302f1cc3d7829ae809c1fe9e32bc0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 02/49] fix: count the header and metrics fragments of a report
 request

---
 src/recorder/serialization/report_request.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..3e80096 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -8,6 +8,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
                              int num_dropped_spans)
     : header_{std::move(header)} {
   num_bytes_ = static_cast<int>(header_->size());
+  num_fragments_ = 1;
   if (num_dropped_spans == 0) {
     return;
   }
@@ -16,6 +17,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
   num_bytes_ += metrics_fragment_.second;
+  ++num_fragments_;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 70773ad3471084573894f8398b5876f706b838b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 03/49] fix: account for the partially written span when a
 streaming write fails

---
 .../stream_recorder/connection_stream.cpp     | 47 +++++++++++++------
 .../stream_recorder/connection_stream.h       |  2 +
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 5567598..69e35ad 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -76,16 +76,19 @@ bool ConnectionStream::Flush(Writer writer) {
     return FlushShutdown(writer);
   }
   span_stream_.Allot();
-  if (span_remnant_ == nullptr) {
-    auto result = writer({&header_stream_, &span_stream_});
-    span_remnant_ = span_stream_.ConsumeRemnant();
-    return result;
-  }
-  auto result = writer({&header_stream_, span_remnant_.get(), &span_stream_});
-  if (span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansSent(1);
-    span_remnant_ = span_stream_.ConsumeRemnant();
+  bool result;
+  try {
+    if (span_remnant_ == nullptr) {
+      result = writer({&header_stream_, &span_stream_});
+    } else {
+      result = writer({&header_stream_, span_remnant_.get(), &span_stream_});
+    }
+  } catch (...) {
+    // Some data may have been written before the failure.
+    UpdateSpanRemnant();
+    throw;
   }
+  UpdateSpanRemnant();
   return result;
 }
 
@@ -129,12 +132,28 @@ bool ConnectionStream::FlushShutdown(Writer writer) {
   if (span_remnant_ == nullptr) {
     return writer({&header_stream_, &terminal_stream_});
   }
-  auto result =
-      writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
-  if (span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansSent(1);
-    span_remnant_.reset();
+  bool result;
+  try {
+    result = writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
+  } catch (...) {
+    // Some data may have been written before the failure.
+    UpdateSpanRemnant();
+    throw;
   }
+  UpdateSpanRemnant();
   return result;
 }
+
+//--------------------------------------------------------------------------------------------------
+// UpdateSpanRemnant
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::UpdateSpanRemnant() noexcept {
+  if (span_remnant_ != nullptr) {
+    if (!span_remnant_->empty()) {
+      return;
+    }
+    span_stream_.metrics().OnSpansSent(1);
+  }
+  span_remnant_ = span_stream_.ConsumeRemnant();
+}
 }  // namespace lightstep
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 4e80b4c..a04c023 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -79,5 +79,7 @@ class ConnectionStream {
   void InitializeStream();
 
   bool FlushShutdown(Writer writer);
+
+  void UpdateSpanRemnant() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From edeebf8802b73243824d306be9ff8c6604054a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 04/49] fix: format timestamps before the epoch correctly

---
 src/common/utility.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/utility.h b/src/common/utility.h
index fd5c0f2..2a81ae9 100644
--- a/src/common/utility.h
+++ b/src/common/utility.h
@@ -23,12 +23,18 @@ namespace lightstep {
  */
 inline std::tuple<uint64_t, uint32_t> ProtobufFormatTimestamp(
     const std::chrono::system_clock::time_point& t) {
-  auto nanos =
+  int64_t nanos =
       std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch())
           .count();
-  const uint64_t nanosPerSec = 1000000000;
-  return {static_cast<uint64_t>(nanos / nanosPerSec),
-          static_cast<uint32_t>(nanos % nanosPerSec)};
+  const int64_t nanosPerSec = 1000000000;
+  auto seconds = nanos / nanosPerSec;
+  auto fraction = nanos % nanosPerSec;
+  if (fraction < 0) {
+    // The nanosecond fraction always counts forward, even before the epoch.
+    fraction += nanosPerSec;
+    --seconds;
+  }
+  return {static_cast<uint64_t>(seconds), static_cast<uint32_t>(fraction)};
 }
 
 // Convert a std::chrono::system_clock::time_point to the time value used
-- 
2.43.0


From 3b7c6ae582dda93ee2248598765f093d1e5301bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 05/49] fix: ignore padding when comparing ip addresses

---
 src/network/ip_address.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/network/ip_address.cpp b/src/network/ip_address.cpp
index b082373..3445874 100644
--- a/src/network/ip_address.cpp
+++ b/src/network/ip_address.cpp
@@ -87,15 +87,22 @@ bool operator==(const IpAddress& lhs, const IpAddress& rhs) noexcept {
   if (lhs.family() != rhs.family()) {
     return false;
   }
+  // Compare field by field since a system sockaddr's padding is unspecified.
   if (lhs.family() == AF_INET) {
-    return std::memcmp(static_cast<const void*>(&lhs.ipv4_address()),
-                       static_cast<const void*>(&rhs.ipv4_address()),
-                       sizeof(lhs.ipv4_address())) == 0;
+    auto& lhs_addr = lhs.ipv4_address();
+    auto& rhs_addr = rhs.ipv4_address();
+    return lhs_addr.sin_port == rhs_addr.sin_port &&
+           lhs_addr.sin_addr.s_addr == rhs_addr.sin_addr.s_addr;
   }
   if (lhs.family() == AF_INET6) {
-    return std::memcmp(static_cast<const void*>(&lhs.ipv6_address()),
-                       static_cast<const void*>(&rhs.ipv6_address()),
-                       sizeof(lhs.ipv6_address())) == 0;
+    auto& lhs_addr = lhs.ipv6_address();
+    auto& rhs_addr = rhs.ipv6_address();
+    return lhs_addr.sin6_port == rhs_addr.sin6_port &&
+           lhs_addr.sin6_flowinfo == rhs_addr.sin6_flowinfo &&
+           lhs_addr.sin6_scope_id == rhs_addr.sin6_scope_id &&
+           std::memcmp(static_cast<const void*>(&lhs_addr.sin6_addr),
+                       static_cast<const void*>(&rhs_addr.sin6_addr),
+                       sizeof(lhs_addr.sin6_addr)) == 0;
   }
   assert(0 && "Unknown address family");
   return false;
-- 
2.43.0


From 4afdb94a9620f0bffe5b1bfdddd212fad18f5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 06/49] fix: don't leave hex formatting on after a control
 character in JSON

---
 src/common/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index dda85bc..a9c8039 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -77,7 +77,7 @@ static void WriteEscapedString(std::ostringstream& writer,
             c <= static_cast<signed char>('\x1f')) {
           writer << R"(\u)";
           writer << std::hex << std::setw(4) << std::setfill('0')
-                 << static_cast<int>(c);
+                 << static_cast<int>(c) << std::dec;
         } else {
           writer << c;
         }
-- 
2.43.0


From cee78d52e601fa3461317de68532ec1322707719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 07/49] fix: don't let the global locale change how values are
 written as JSON

---
 src/common/utility.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index a9c8039..794fe46 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -164,6 +165,7 @@ static void ToJson(std::ostringstream& writer,
 std::string ToJson(const opentracing::Value& value) {
   std::ostringstream writer;
   writer.exceptions(std::ios::badbit | std::ios::failbit);
+  writer.imbue(std::locale::classic());
   ToJson(writer, value);
   return writer.str();
 }
-- 
2.43.0


From 15859d777402581f49724d980772cba48f0e232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 08/49] fix: write doubles as JSON without losing precision

---
 src/common/utility.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index 794fe46..04f2bd7 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cmath>
 #include <iomanip>
+#include <limits>
 #include <locale>
 #include <random>
 #include <sstream>
@@ -166,6 +167,7 @@ std::string ToJson(const opentracing::Value& value) {
   std::ostringstream writer;
   writer.exceptions(std::ios::badbit | std::ios::failbit);
   writer.imbue(std::locale::classic());
+  writer.precision(std::numeric_limits<double>::max_digits10);
   ToJson(writer, value);
   return writer.str();
 }
-- 
2.43.0


From b6c92e53f82b6bd19abd1140cab6f2a0a4b926b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 09/49] fix: handle bytes above 0x7f when parsing hex and
 lower-casing

---
 src/common/hex_conversion.cpp | 8 +++++---
 src/common/utility.cpp        | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/hex_conversion.cpp b/src/common/hex_conversion.cpp
index 9da5855..7e32833 100644
--- a/src/common/hex_conversion.cpp
+++ b/src/common/hex_conversion.cpp
@@ -39,7 +39,7 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
                                               const char* last) noexcept {
   T result = 0;
   for (; i != last; ++i) {
-    auto value = HexTable[*i];
+    auto value = HexTable[static_cast<unsigned char>(*i)];
     if (value == Nil) {
       return opentracing::make_unexpected(
           std::make_error_code(std::errc::invalid_argument));
@@ -56,12 +56,14 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
 static void RemoveSurroundingWhitespace(const char*& i,
                                         const char*& last) noexcept {
   // Remove any leading spaces
-  while (i != last && static_cast<bool>(std::isspace(*i))) {
+  while (i != last &&
+         static_cast<bool>(std::isspace(static_cast<unsigned char>(*i)))) {
     ++i;
   }
 
   // Remove any trailing spaces
-  while (i != last && static_cast<bool>(std::isspace(*(last - 1)))) {
+  while (i != last && static_cast<bool>(std::isspace(
+                          static_cast<unsigned char>(*(last - 1))))) {
     --last;
   }
 }
diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index 04f2bd7..6758bb0 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -275,7 +275,7 @@ std::string ToLower(opentracing::string_view s) {
   std::string result;
   result.reserve(s.size());
   for (auto c : s) {
-    result.push_back(static_cast<char>(std::tolower(c)));
+    result.push_back(static_cast<char>(std::tolower(static_cast<unsigned char>(c))));
   }
   return result;
 }
-- 
2.43.0


From b5152df300ddfd59893a3369292c6b7599260f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 10/49] fix: keep the default satellite endpoint when a
 configuration lists none

---
 src/tracer/json_options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 1702dd7..e79403b 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -97,7 +97,9 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
-  options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  if (tracer_configuration.satellite_endpoints_size() != 0) {
+    options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  }
 
   options.verbose = tracer_configuration.verbose();
 
-- 
2.43.0


From 0242648941e691811b0cedfdc87a7a261d2798b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 11/49] fix: don't ignore ssl_root_certificates in a json
 configuration

---
 src/tracer/json_options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index e79403b..8bb8b23 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -95,6 +95,8 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
         std::chrono::microseconds{tracer_configuration.report_timeout()};
   }
 
+  options.ssl_root_certificates = tracer_configuration.ssl_root_certificates();
+
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
   if (tracer_configuration.satellite_endpoints_size() != 0) {
-- 
2.43.0


From 9a2e0cdd9b9fa4e5319fa78f22cc26c56fd40828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 12/49] fix: set the error message when a json configuration is
 rejected

---
 src/tracer/json_options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 8bb8b23..1ab3a62 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -117,6 +117,7 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   return options;
 } catch (const std::exception& e) {
+  error_message = e.what();
   std::cerr << "Invalid options: " << e.what() << "\n";
   return opentracing::make_unexpected(
       std::make_error_code(std::errc::invalid_argument));
-- 
2.43.0


From cd66aef6bcf808caa4a1a954b14101f0a810fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 13/49] fix: don't let a span's coded stream outlive its
 chained stream

---
 src/tracer/span.cpp | 30 +++++++++++++++++-------------
 src/tracer/span.h   |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index 8396c5d..b2a82a7 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -24,16 +24,17 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
            const opentracing::StartSpanOptions& options)
     : chained_stream_{new ChainedStream{}},
       header_fragment_{tracer->recorder().ReserveHeaderSpace(*chained_stream_)},
-      coded_stream_{chained_stream_.get()},
+      coded_stream_{
+          new google::protobuf::io::CodedOutputStream{chained_stream_.get()}},
       tracer_{std::move(tracer)} {
-  WriteOperationName(coded_stream_, operation_name);
+  WriteOperationName(*coded_stream_, operation_name);
 
   // Set the start timestamps.
   std::chrono::system_clock::time_point start_timestamp;
   std::tie(start_timestamp, start_steady_) = ComputeStartTimestamps(
       tracer_->recorder(), options.start_system_timestamp,
       options.start_steady_timestamp);
-  WriteStartTimestamp(coded_stream_, start_timestamp);
+  WriteStartTimestamp(*coded_stream_, start_timestamp);
 
   // Set any span references.
   trace_flags_ = 0;
@@ -63,7 +64,7 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
 
   // Set tags.
   for (auto& tag : options.tags) {
-    WriteTag(coded_stream_, tag.first, tag.second);
+    WriteTag(*coded_stream_, tag.first, tag.second);
 
     // If sampling_priority is set, it overrides whatever sampling decision was
     // derived from the referenced spans.
@@ -101,7 +102,7 @@ void Span::SetOperationName(opentracing::string_view name) noexcept try {
   if (is_finished_) {
     return;
   }
-  WriteOperationName(coded_stream_, name);
+  WriteOperationName(*coded_stream_, name);
 } catch (const std::exception& e) {
   tracer_->logger().Error("SetOperationName failed: ", e.what());
 }
@@ -115,7 +116,7 @@ void Span::SetTag(opentracing::string_view key,
   if (is_finished_) {
     return;
   }
-  WriteTag(coded_stream_, key, value);
+  WriteTag(*coded_stream_, key, value);
   if (key == SamplingPriorityKey) {
     trace_flags_ =
         SetTraceFlag<SampledFlagMask>(trace_flags_, is_sampled(value));
@@ -168,7 +169,7 @@ void Span::Log(std::initializer_list<
   if (is_finished_) {
     return;
   }
-  WriteLog(coded_stream_, timestamp, fields.begin(), fields.end());
+  WriteLog(*coded_stream_, timestamp, fields.begin(), fields.end());
 } catch (const std::exception& e) {
   tracer_->logger().Error("Log failed: ", e.what());
 }
@@ -214,7 +215,7 @@ bool Span::SetSpanReference(
   }
   trace_id_high = referenced_context->trace_id_high();
   trace_id = referenced_context->trace_id_low();
-  WriteSpanReference(coded_stream_, reference.first, trace_id,
+  WriteSpanReference(*coded_stream_, reference.first, trace_id,
                      referenced_context->span_id());
   trace_flags_ |= referenced_context->trace_flags();
   AppendTraceState(trace_state_, referenced_context->trace_state());
@@ -247,23 +248,26 @@ void Span::FinishImpl(
 
   // Set timing information.
   auto duration = finish_timestamp - start_steady_;
-  WriteDuration(coded_stream_, duration);
+  WriteDuration(*coded_stream_, duration);
 
   // Set logs
   for (auto& log_record : options.log_records) {
     try {
-      WriteLog(coded_stream_, log_record.timestamp, log_record.fields.data(),
+      WriteLog(*coded_stream_, log_record.timestamp, log_record.fields.data(),
                log_record.fields.data() + log_record.fields.size());
     } catch (const std::exception& e) {
       tracer_->logger().Error("Dropping log record: ", e.what());
     }
   }
 
-  WriteSpanContext(coded_stream_, trace_id_, span_id_, baggage_.as_vector());
+  WriteSpanContext(*coded_stream_, trace_id_, span_id_, baggage_.as_vector());
 
   // Record the span
-  tracer_->recorder().WriteFooter(coded_stream_);
-  coded_stream_.Trim();
+  tracer_->recorder().WriteFooter(*coded_stream_);
+
+  // Destroying the coded stream returns its unused space to the chained stream,
+  // so it can't outlive the hand-off of the chained stream to the recorder.
+  coded_stream_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
   tracer_->logger().Error("FinishWithOptions failed: ", e.what());
diff --git a/src/tracer/span.h b/src/tracer/span.h
index 476d163..5b9a174 100644
--- a/src/tracer/span.h
+++ b/src/tracer/span.h
@@ -100,7 +100,7 @@ class Span final : public opentracing::Span, public LightStepSpanContext {
 
   std::unique_ptr<ChainedStream> chained_stream_;
   Fragment header_fragment_;
-  google::protobuf::io::CodedOutputStream coded_stream_;
+  std::unique_ptr<google::protobuf::io::CodedOutputStream> coded_stream_;
 
   std::chrono::steady_clock::time_point start_steady_;
   std::atomic<bool> is_finished_{false};
-- 
2.43.0


From d939f4b3c8e4929227f991737988bd0de735bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 14/49] fix: let a legacy span's baggage item be overwritten

---
 src/tracer/legacy/legacy_span.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 4f07c32..2c6e93b 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -163,8 +163,7 @@ void LegacySpan::SetBaggageItem(opentracing::string_view restricted_key,
   auto lowercase_key = ToLower(restricted_key);
   std::lock_guard<std::mutex> lock_guard{mutex_};
   auto& baggage = *span_.mutable_span_context()->mutable_baggage();
-  baggage.insert(
-      BaggageProtobufMap::value_type(std::move(lowercase_key), value));
+  baggage[lowercase_key] = std::string{value};
 } catch (const std::exception& e) {
   logger_.Error("SetBaggageItem failed: ", e.what());
 }
-- 
2.43.0


From b75c65b111f4dfa25b6ccd78f5fb08120c26dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 15/49] fix: don't append an empty list member to the trace
 state

---
 src/tracer/utility.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tracer/utility.cpp b/src/tracer/utility.cpp
index f0021d7..c9ad411 100644
--- a/src/tracer/utility.cpp
+++ b/src/tracer/utility.cpp
@@ -6,6 +6,9 @@ namespace lightstep {
 //--------------------------------------------------------------------------------------------------
 void AppendTraceState(std::string& trace_state,
                       opentracing::string_view key_values) {
+  if (key_values.empty()) {
+    return;
+  }
   if (trace_state.empty()) {
     trace_state.assign(key_values.data(), key_values.size());
     return;
-- 
2.43.0


From b87b99d0ded549a4dc8afcde9750f8e3f41fc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 16/49] fix: don't accept a span context whose trace id or span
 id is missing

---
 src/tracer/propagation/multiheader_propagator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracer/propagation/multiheader_propagator.cpp b/src/tracer/propagation/multiheader_propagator.cpp
index 12632e1..b2dc196 100644
--- a/src/tracer/propagation/multiheader_propagator.cpp
+++ b/src/tracer/propagation/multiheader_propagator.cpp
@@ -3,7 +3,6 @@
 #include "common/hex_conversion.h"
 #include "common/utility.h"
 
-const int FieldCount = 2;
 const opentracing::string_view FalseStr = "false";
 const opentracing::string_view OneStr = "1";
 const opentracing::string_view ZeroStr = "0";
@@ -117,7 +116,8 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
     uint64_t& trace_id_low, uint64_t& span_id, bool& sampled,
     BaggageProtobufMap& baggage, const KeyCompare& key_compare) const {
   sampled = true;
-  int count = 0;
+  int trace_id_count = 0;
+  int span_id_count = 0;
   auto result =
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
@@ -128,7 +128,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
               return opentracing::make_unexpected(
                   opentracing::span_context_corrupted_error);
             }
-            ++count;
+            ++trace_id_count;
           } else if (key_compare(key, span_id_key_)) {
             auto span_id_maybe = HexToUint64(value);
             if (!span_id_maybe) {
@@ -136,7 +136,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
                   opentracing::span_context_corrupted_error);
             }
             span_id = *span_id_maybe;
-            ++count;
+            ++span_id_count;
           } else if (key_compare(key, sampled_key_)) {
             sampled = !(value == FalseStr || value == ZeroStr);
           } else if (key.length() > baggage_prefix_.size() &&
@@ -159,10 +159,10 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
   if (!result) {
     return opentracing::make_unexpected(result.error());
   }
-  if (count == 0) {
+  if (trace_id_count == 0 && span_id_count == 0) {
     return false;
   }
-  if (count > 0 && count != FieldCount) {
+  if (trace_id_count != 1 || span_id_count != 1) {
     return opentracing::make_unexpected(
         opentracing::span_context_corrupted_error);
   }
-- 
2.43.0


From d6acb55e22b91875c22de470cd406b0674419728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 17/49] fix: ignore the trace state of headers without a trace
 parent

---
 src/tracer/propagation/trace_context_propagator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracer/propagation/trace_context_propagator.cpp b/src/tracer/propagation/trace_context_propagator.cpp
index e64512c..f1c0f29 100644
--- a/src/tracer/propagation/trace_context_propagator.cpp
+++ b/src/tracer/propagation/trace_context_propagator.cpp
@@ -65,6 +65,10 @@ static opentracing::expected<bool> ExtractSpanContextImpl(
   if (!result) {
     return opentracing::make_unexpected(result.error());
   }
+  if (!parent_header_found) {
+    // Don't let the state end up in a context extracted from other headers.
+    trace_state.clear();
+  }
   return parent_header_found;
 }
 
-- 
2.43.0


From 954eb9d3ff75e0249a6cf9e1ee7ac47cd75d6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 18/49] fix: don't index outside the base64 table for bytes
 above 0x7f

---
 3rd_party/base64/src/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/3rd_party/base64/src/base64.cpp b/3rd_party/base64/src/base64.cpp
index aaf9f19..eb8b433 100644
--- a/3rd_party/base64/src/base64.cpp
+++ b/3rd_party/base64/src/base64.cpp
@@ -52,14 +52,14 @@ std::string Base64::decode(const char* input, size_t length) {
     // make 8 bits char from it.
     // Use conversion table to map char to decoded value (value is between 0 and 63 inclusive for a
     // valid character).
-    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read])];
-    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 1])];
+    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];
+    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];
     if (a == 64 || b == 64) {
       // Input contains an invalid character.
       return {};
     }
     result.push_back(a << 2 | b >> 4);
-    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])];
+    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])];
 
     // Decoded value 64 means invalid character unless we already know it is a valid padding.
     // If so, following characters are all padding.
@@ -78,7 +78,7 @@ std::string Base64::decode(const char* input, size_t length) {
     // Take last 4 bits from 2nd converted char and 4 first bits from 3rd converted char.
     result.push_back(b << 4 | c >> 2);
 
-    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 3])];
+    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])];
     if (d == 64) {
       if (first_padding_index != cur_read + 3) {
         // Input contains an invalid character.
-- 
2.43.0


From 67539293e3f6f9418ce6baf9e3def51eab9ba219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 19/49] fix: don't wait forever for a report whose transporter
 threw

---
 src/recorder/legacy_manual_recorder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index be696b4..587a6a3 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -85,8 +85,15 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   return true;
 } catch (const std::exception& e) {
   logger_.Error("Failed to Flush: ", e.what());
-  options_.metrics_observer->OnSpansDropped(saved_pending_spans_);
-  dropped_spans_ += saved_pending_spans_;
+  if (!IsReportInProgress()) {
+    return false;
+  }
+  // The report won't be completed by the transporter, so it's no longer in
+  // progress.
+  ++flushed_seqno_;
+  options_.metrics_observer->OnSpansDropped(
+      static_cast<int>(saved_pending_spans_));
+  dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;
   active_request_.Clear();
   return false;
 }
-- 
2.43.0


From 0697637b3c9e734a525a4564f65d6647f9ebac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 20/49] fix: don't connect to a satellite once shutdown has
 begun

A connection that fails, is waiting to retry or gets its first endpoint after
InitiateShutdown would connect again, never be shut down, and keep
ShutdownWithTimeout from succeeding.
---
 src/recorder/stream_recorder/satellite_connection.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..8c615ac 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -94,6 +94,11 @@ bool SatelliteConnection::ready() const noexcept {
 // Connect
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Connect() noexcept try {
+  if (is_shutting_down_) {
+    // break the reconnection cycle
+    was_shutdown_ = true;
+    return;
+  }
   auto endpoint = streamer_.endpoint_manager().RequestEndpoint();
   streamer_.logger().Info("Connecting to satellite on ip ", endpoint.first);
   socket_ = lightstep::Connect(endpoint.first);
@@ -185,11 +190,6 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Reconnect() noexcept try {
   FreeSocket();
-  if (is_shutting_down_) {
-    // break the reconnection cycle
-    was_shutdown_ = true;
-    return;
-  }
   Connect();
 } catch (const std::exception& e) {
   streamer_.logger().Error("Reconnect failed: ", e.what());
-- 
2.43.0


From ea85342702c93f499a6b2f156963f32b047c8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 21/49] fix: account for the open streaming session when it is
 destroyed

Before a fork the satellite connections are destroyed; the dropped spans a
session had taken but not sent, and its partially written span, were lost.
---
 src/recorder/stream_recorder/connection_stream.cpp | 14 +++++++++++++-
 src/recorder/stream_recorder/connection_stream.h   |  8 ++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 69e35ad..4a55773 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -47,10 +47,23 @@ ConnectionStream::ConnectionStream(Fragment host_header_fragment,
   InitializeStream();
 }
 
+//--------------------------------------------------------------------------------------------------
+// destructor
+//--------------------------------------------------------------------------------------------------
+ConnectionStream::~ConnectionStream() noexcept { AbandonStream(); }
+
 //--------------------------------------------------------------------------------------------------
 // Reset
 //--------------------------------------------------------------------------------------------------
 void ConnectionStream::Reset() {
+  AbandonStream();
+  InitializeStream();
+}
+
+//--------------------------------------------------------------------------------------------------
+// AbandonStream
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::AbandonStream() noexcept {
   if (!header_stream_.empty()) {
     // We weren't able to upload the metrics so add the counters back
     span_stream_.metrics().UnconsumeDroppedSpans(
@@ -60,7 +73,6 @@ void ConnectionStream::Reset() {
     span_stream_.metrics().OnSpansDropped(1);
   }
   span_remnant_.reset();
-  InitializeStream();
 }
 
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index a04c023..3c66293 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -27,6 +27,12 @@ class ConnectionStream {
   ConnectionStream(Fragment host_header_fragment,
                    Fragment header_common_fragment, SpanStream& span_stream);
 
+  ConnectionStream(const ConnectionStream&) = delete;
+
+  ~ConnectionStream() noexcept;
+
+  ConnectionStream& operator=(const ConnectionStream&) = delete;
+
   /**
    * Reset so as to begin a new streaming session.
    */
@@ -78,6 +84,8 @@ class ConnectionStream {
 
   void InitializeStream();
 
+  void AbandonStream() noexcept;
+
   bool FlushShutdown(Writer writer);
 
   void UpdateSpanRemnant() noexcept;
-- 
2.43.0


From c393f3d58c5409b30e23dd9c3e7c590613557a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 22/49] fix: arm the graceful shutdown timeout before flushing

If the flush that closes a satellite stream failed, the socket was freed and a
reconnect scheduled, but the timeout was then armed regardless. When it fired it
tore down whatever session was open by then, and with an unlucky timing the
connection was made twice, the second one continuing the stream of the first.
---
 src/recorder/stream_recorder/satellite_connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 8c615ac..33d324d 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -175,11 +175,13 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
     return;
   }
   connection_stream_.Shutdown();
+  // Note: The timeout is armed before flushing because a failed flush frees the
+  // socket and cancels it.
+  graceful_shutdown_timeout_.Add(
+      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
   if (writable_) {
     Flush();
   }
-  graceful_shutdown_timeout_.Add(
-      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
   streamer_.logger().Error("InitiateReconnect failed: ", e.what());
   return HandleFailure();
-- 
2.43.0


From 2330888d12c0790a0519eb1aa23052f1ea675d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 23/49] fix: don't reconnect to a satellite when closing its
 stream for shutdown fails

HandleFailure has a case for failures during shutdown, but the flag it tests was
only set after the final flush, so shutdown waited for a reconnect instead.
---
 .../stream_recorder/satellite_connection.cpp    | 17 ++++++++++++++---
 .../stream_recorder/satellite_connection.h      |  2 ++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 33d324d..6f85aca 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -79,8 +79,12 @@ bool SatelliteConnection::Flush() noexcept try {
 // InitiateShutdown
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::InitiateShutdown() noexcept {
-  InitiateReconnect();
+  if (is_shutting_down_) {
+    return;
+  }
+  // Set before closing the stream so that if that fails, we don't reconnect.
   is_shutting_down_ = true;
+  CloseStream();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -168,12 +172,19 @@ void SatelliteConnection::ScheduleReconnect() {
 //--------------------------------------------------------------------------------------------------
 // InitiateReconnect
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::InitiateReconnect() noexcept try {
+void SatelliteConnection::InitiateReconnect() noexcept {
   if (is_shutting_down_) {
     // If we're shutting down, then we've already scheduled a reconnect so do
     // nothing.
     return;
   }
+  CloseStream();
+}
+
+//--------------------------------------------------------------------------------------------------
+// CloseStream
+//--------------------------------------------------------------------------------------------------
+void SatelliteConnection::CloseStream() noexcept try {
   connection_stream_.Shutdown();
   // Note: The timeout is armed before flushing because a failed flush frees the
   // socket and cancels it.
@@ -183,7 +194,7 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
     Flush();
   }
 } catch (const std::exception& e) {
-  streamer_.logger().Error("InitiateReconnect failed: ", e.what());
+  streamer_.logger().Error("CloseStream failed: ", e.what());
   return HandleFailure();
 }
 
diff --git a/src/recorder/stream_recorder/satellite_connection.h b/src/recorder/stream_recorder/satellite_connection.h
index abbf717..2c8fc8f 100644
--- a/src/recorder/stream_recorder/satellite_connection.h
+++ b/src/recorder/stream_recorder/satellite_connection.h
@@ -71,6 +71,8 @@ class SatelliteConnection : private Noncopyable {
 
   void InitiateReconnect() noexcept;
 
+  void CloseStream() noexcept;
+
   void Reconnect() noexcept;
 
   void GracefulShutdownTimeout() noexcept;
-- 
2.43.0


From e6dce8da94095e9ee5732b9a0cb4d29599f064c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 24/49] fix: wait before reconnecting to a satellite that
 failed

Socket errors, error responses and premature closes led to an immediate
reconnect: satellite_failure_retry_period was ignored, and a satellite that
refused its connections kept the recorder's thread busy in a connect loop.
---
 src/recorder/stream_recorder/satellite_connection.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 6f85aca..d6d1e9c 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -289,11 +289,5 @@ void SatelliteConnection::OnWritable(FileDescriptor file_descriptor,
 //--------------------------------------------------------------------------------------------------
 // OnSocketError
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::OnSocketError() noexcept try {
-  FreeSocket();
-  Connect();
-} catch (const std::exception& e) {
-  streamer_.logger().Error("OnSocketError failed: ", e.what());
-  return HandleFailure();
-}
+void SatelliteConnection::OnSocketError() noexcept { HandleFailure(); }
 }  // namespace lightstep
-- 
2.43.0


From c74eff6ec7da4185b549f7c75fbbea41e680da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 25/49] fix: use the default reporting period when it is zero,
 as documented

---
 src/tracer/tracer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tracer/tracer.cpp b/src/tracer/tracer.cpp
index a79a7f5..56d79ad 100644
--- a/src/tracer/tracer.cpp
+++ b/src/tracer/tracer.cpp
@@ -223,6 +223,12 @@ std::shared_ptr<LightStepTracer> MakeLightStepTracer(
                       static_cast<size_t>(default_ssl_roots_pem_size)};
     }
 
+    // As documented, a reporting period of zero selects the default.
+    if (options.reporting_period ==
+        std::chrono::steady_clock::duration::zero()) {
+      options.reporting_period = LightStepTracerOptions{}.reporting_period;
+    }
+
     if (!options.use_thread) {
       return MakeSingleThreadedTracer(logger, std::move(options));
     }
-- 
2.43.0


From 09756e3134eeabce3ecf885edb32d911243a1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 26/49] fix: arm the resolver's timer when a query is sent

The timer was only set after a socket event, so a resolution whose first reply was lost never ended.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..9f09d51 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,12 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to set up ares timer: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 69f2a53307dfe0bc270d95eea2afbb59593fb19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 27/49] fix: keep listening on the resolver's sockets after
 their first event

c-ares says once which sockets it waits for; an event without EV_PERSIST is not seen again after the first packet, such as a stray one or one of several answers.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 9f09d51..199809f 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -140,7 +140,7 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
-- 
2.43.0


From b4d498a085ab348354e17fb95605e2ea65128bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 28/49] fix: convert other durations to timeval without calling
 itself for ever

---
 src/common/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.h b/src/common/utility.h
index 2a81ae9..13f7cd9 100644
--- a/src/common/utility.h
+++ b/src/common/utility.h
@@ -46,7 +46,7 @@ timeval ToTimeval(std::chrono::microseconds microseconds);
 
 template <class Rep, class Period>
 inline timeval toTimeval(std::chrono::duration<Rep, Period> duration) {
-  return toTimeval(
+  return ToTimeval(
       std::chrono::duration_cast<std::chrono::microseconds>(duration));
 }
 
-- 
2.43.0


From a916dc8527fd42c836fe3d2210ffe6ad614089a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 29/49] fix: report a stream that fails on its first byte as an
 error

---
 src/tracer/propagation/binary_propagation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracer/propagation/binary_propagation.cpp b/src/tracer/propagation/binary_propagation.cpp
index 9b41386..61fdd38 100644
--- a/src/tracer/propagation/binary_propagation.cpp
+++ b/src/tracer/propagation/binary_propagation.cpp
@@ -107,6 +107,10 @@ opentracing::expected<bool> ExtractSpanContext(
 
   // Check for the case when no span is encoded.
   if (carrier.peek() == EOF) {
+    if (carrier.bad()) {
+      return opentracing::make_unexpected(
+          std::make_error_code(std::errc::io_error));
+    }
     return false;
   }
 
-- 
2.43.0


From b4727a53287c09ecf30f472840e1973f2779f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 30/49] fix: return not_enough_memory when injecting runs out
 of memory

---
 src/tracer/legacy/legacy_tracer_impl.cpp | 5 ++++-
 src/tracer/tracer_impl.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_tracer_impl.cpp b/src/tracer/legacy/legacy_tracer_impl.cpp
index ba36c94..32f8397 100644
--- a/src/tracer/legacy/legacy_tracer_impl.cpp
+++ b/src/tracer/legacy/legacy_tracer_impl.cpp
@@ -11,7 +11,7 @@ const auto DefaultFlushTimeout = std::chrono::seconds{10};
 template <class Carrier>
 static opentracing::expected<void> InjectImpl(
     const PropagationOptions& propagation_options,
-    const opentracing::SpanContext& span_context, Carrier& writer) {
+    const opentracing::SpanContext& span_context, Carrier& writer) try {
   auto lightstep_span_context =
       dynamic_cast<const LightStepSpanContext*>(&span_context);
   if (lightstep_span_context == nullptr) {
@@ -19,6 +19,9 @@ static opentracing::expected<void> InjectImpl(
         opentracing::invalid_span_context_error);
   }
   return lightstep_span_context->Inject(propagation_options, writer);
+} catch (const std::bad_alloc&) {
+  return opentracing::make_unexpected(
+      make_error_code(std::errc::not_enough_memory));
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/tracer/tracer_impl.cpp b/src/tracer/tracer_impl.cpp
index 1e8373a..49187e1 100644
--- a/src/tracer/tracer_impl.cpp
+++ b/src/tracer/tracer_impl.cpp
@@ -12,7 +12,7 @@ const auto DefaultFlushTimeout = std::chrono::seconds{10};
 template <class Carrier>
 static opentracing::expected<void> InjectImpl(
     const PropagationOptions& propagation_options,
-    const opentracing::SpanContext& span_context, Carrier& writer) {
+    const opentracing::SpanContext& span_context, Carrier& writer) try {
   auto lightstep_span_context =
       dynamic_cast<const LightStepSpanContext*>(&span_context);
   if (lightstep_span_context == nullptr) {
@@ -20,6 +20,9 @@ static opentracing::expected<void> InjectImpl(
         opentracing::invalid_span_context_error);
   }
   return lightstep_span_context->Inject(propagation_options, writer);
+} catch (const std::bad_alloc&) {
+  return opentracing::make_unexpected(
+      make_error_code(std::errc::not_enough_memory));
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 407a7279d210621c3dc46461c3ccd071a42bdd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 31/49] fix: report a full heap as a stream error, and don't
 record incomplete spans

---
 src/common/chained_stream.cpp | 8 +++++++-
 src/tracer/span.cpp           | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index b236fc8..6f40326 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -1,6 +1,7 @@
 #include "common/chained_stream.h"
 
 #include <cassert>
+#include <new>
 
 namespace lightstep {
 //--------------------------------------------------------------------------------------------------
@@ -31,7 +32,12 @@ bool ChainedStream::Next(void** data, int* size) {
     current_block_->size = BlockSize;
     return true;
   }
-  current_block_->next.reset(new Block{});
+  // Streams signal errors by returning false: an exception would also escape
+  // from the destructor of a coded stream that writes to us.
+  current_block_->next.reset(new (std::nothrow) Block{});
+  if (current_block_->next == nullptr) {
+    return false;
+  }
   current_block_ = current_block_->next.get();
   current_block_->size = BlockSize;
   current_block_position_ = BlockSize;
diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index b2a82a7..0417db1 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -1,5 +1,6 @@
 #include "tracer/span.h"
 
+#include <new>
 #include <tuple>
 
 #include "common/random.h"
@@ -265,6 +266,12 @@ void Span::FinishImpl(
   // Record the span
   tracer_->recorder().WriteFooter(*coded_stream_);
 
+  // Don't record a span that couldn't be written completely.
+  coded_stream_->Trim();
+  if (coded_stream_->HadError()) {
+    throw std::bad_alloc{};
+  }
+
   // Destroying the coded stream returns its unused space to the chained stream,
   // so it can't outlive the hand-off of the chained stream to the recorder.
   coded_stream_.reset();
-- 
2.43.0


From 7896285a662cea1e102877ae6cbbc859e0741a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 32/49] fix: don't add part of a span to a report when copying
 it fails

---
 src/recorder/report_builder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/recorder/report_builder.cpp b/src/recorder/report_builder.cpp
index 286ab89..cd5faab 100644
--- a/src/recorder/report_builder.cpp
+++ b/src/recorder/report_builder.cpp
@@ -1,5 +1,7 @@
 #include "recorder/report_builder.h"
 
+#include <utility>
+
 #include "common/random.h"
 #include "common/utility.h"
 
@@ -28,7 +30,9 @@ void ReportBuilder::AddSpan(const collector::Span& span) {
     pending_.CopyFrom(preamble_);
     reset_next_ = false;
   }
-  *pending_.mutable_spans()->Add() = span;
+  // Copy the span before adding it so that nothing is added if that fails.
+  collector::Span copy{span};
+  *pending_.mutable_spans()->Add() = std::move(copy);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 746514d90515b19d95fd9fa018e5e58e39d3fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 33/49] fix: don't terminate when extracting headers runs out
 of memory

The callbacks given to ForeachKey are noexcept but allocate, as those of the
multi-header propagator do, which turn it into an error.
---
 .../propagation/cloud_trace_propagator.cpp    | 35 +++++++++-------
 .../propagation/trace_context_propagator.cpp  | 40 +++++++++++--------
 2 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 1daecd6..b27a296 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -78,23 +78,28 @@ opentracing::expected<bool> CloudTracePropagator::ExtractSpanContextImpl(
           carrier.ForeachKey([&](opentracing::string_view key,
                                  opentracing::string_view
                                      value) noexcept->opentracing::expected<void> {
-            if (key_compare(key, PropagationSingleKey)) {
-              auto was_successful = this->ParseCloudTrace(value, trace_context);
-              if (!was_successful) {
-                return opentracing::make_unexpected(was_successful.error());
+            try {
+              if (key_compare(key, PropagationSingleKey)) {
+                auto was_successful = this->ParseCloudTrace(value, trace_context);
+                if (!was_successful) {
+                  return opentracing::make_unexpected(was_successful.error());
+                }
+                parent_header_found = true;
+              } else if (key.length() > PrefixBaggage.size() &&
+                         key_compare(opentracing::string_view{key.data(),
+                                                              PrefixBaggage.size()},
+                                     PrefixBaggage)) {
+                baggage.insert(BaggageProtobufMap::value_type(
+                    ToLower(
+                        opentracing::string_view{key.data() + PrefixBaggage.size(),
+                                                 key.size() - PrefixBaggage.size()}),
+                    value));
               }
-              parent_header_found = true;
-            } else if (key.length() > PrefixBaggage.size() &&
-                       key_compare(opentracing::string_view{key.data(),
-                                                            PrefixBaggage.size()},
-                                   PrefixBaggage)) {
-              baggage.insert(BaggageProtobufMap::value_type(
-                  ToLower(
-                      opentracing::string_view{key.data() + PrefixBaggage.size(),
-                                               key.size() - PrefixBaggage.size()}),
-                  value));
+              return {};
+            } catch (const std::bad_alloc&) {
+              return opentracing::make_unexpected(
+                  std::make_error_code(std::errc::not_enough_memory));
             }
-            return {};
           });
       if (!result) {
         return opentracing::make_unexpected(result.error());
diff --git a/src/tracer/propagation/trace_context_propagator.cpp b/src/tracer/propagation/trace_context_propagator.cpp
index f1c0f29..614a237 100644
--- a/src/tracer/propagation/trace_context_propagator.cpp
+++ b/src/tracer/propagation/trace_context_propagator.cpp
@@ -1,6 +1,7 @@
 #include "tracer/propagation/trace_context_propagator.h"
 
 #include <array>
+#include <new>
 
 #include "common/utility.h"
 
@@ -42,25 +43,30 @@ static opentracing::expected<bool> ExtractSpanContextImpl(
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
                                  value) noexcept->opentracing::expected<void> {
-        if (key_compare(key, TraceParentHeaderKey)) {
-          auto was_successful = ParseTraceContext(value, trace_context);
-          if (!was_successful) {
-            return opentracing::make_unexpected(was_successful.error());
+        try {
+          if (key_compare(key, TraceParentHeaderKey)) {
+            auto was_successful = ParseTraceContext(value, trace_context);
+            if (!was_successful) {
+              return opentracing::make_unexpected(was_successful.error());
+            }
+            parent_header_found = true;
+          } else if (key_compare(key, TraceStateHeaderKey)) {
+            trace_state.assign(value.data(), value.size());
+          } else if (key.length() > PrefixBaggage.size() &&
+                     key_compare(opentracing::string_view{key.data(),
+                                                          PrefixBaggage.size()},
+                                 PrefixBaggage)) {
+            baggage.insert(BaggageProtobufMap::value_type(
+                ToLower(
+                    opentracing::string_view{key.data() + PrefixBaggage.size(),
+                                             key.size() - PrefixBaggage.size()}),
+                value));
           }
-          parent_header_found = true;
-        } else if (key_compare(key, TraceStateHeaderKey)) {
-          trace_state.assign(value.data(), value.size());
-        } else if (key.length() > PrefixBaggage.size() &&
-                   key_compare(opentracing::string_view{key.data(),
-                                                        PrefixBaggage.size()},
-                               PrefixBaggage)) {
-          baggage.insert(BaggageProtobufMap::value_type(
-              ToLower(
-                  opentracing::string_view{key.data() + PrefixBaggage.size(),
-                                           key.size() - PrefixBaggage.size()}),
-              value));
+          return {};
+        } catch (const std::bad_alloc&) {
+          return opentracing::make_unexpected(
+              std::make_error_code(std::errc::not_enough_memory));
         }
-        return {};
       });
   if (!result) {
     return opentracing::make_unexpected(result.error());
-- 
2.43.0


From 09b0659c659d177b02cee6b0b13d2e737a99240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:16 +0000
Subject: [PATCH 34/49] fix: keep the dropped span count when a report can't be
 allocated

---
 src/recorder/manual_recorder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/recorder/manual_recorder.cpp b/src/recorder/manual_recorder.cpp
index 0c92cf1..28aa9bb 100644
--- a/src/recorder/manual_recorder.cpp
+++ b/src/recorder/manual_recorder.cpp
@@ -82,8 +82,16 @@ void ManualRecorder::RecordSpan(
 //--------------------------------------------------------------------------------------------------
 bool ManualRecorder::FlushWithTimeout(
     std::chrono::system_clock::duration /*timeout*/) noexcept try {
-  std::unique_ptr<ReportRequest> report_request{new ReportRequest{
-      report_request_header_, metrics_.ConsumeDroppedSpans()}};
+  auto num_dropped_spans = metrics_.ConsumeDroppedSpans();
+  std::unique_ptr<ReportRequest> report_request;
+  try {
+    report_request.reset(
+        new ReportRequest{report_request_header_, num_dropped_spans});
+  } catch (...) {
+    // There's no report to carry the counters so add them back
+    metrics_.UnconsumeDroppedSpans(num_dropped_spans);
+    throw;
+  }
   {
     std::lock_guard<std::mutex> lock_guard{flush_mutex_};
     auto num_spans = span_buffer_.size();
-- 
2.43.0


From b78f1a0ca21a0cdf322490fb5af7f53f9b85a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 35/49] fix: count spans as sent only when their report is
 ready

If adding the dropped span count to a report fails, the spans stay pending
and are counted again with the next report, which was left with an unnamed
count.
---
 src/recorder/auto_recorder.cpp          | 2 +-
 src/recorder/legacy_manual_recorder.cpp | 4 ++--
 src/recorder/report_builder.cpp         | 8 +++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/recorder/auto_recorder.cpp b/src/recorder/auto_recorder.cpp
index 94e3c20..0864889 100644
--- a/src/recorder/auto_recorder.cpp
+++ b/src/recorder/auto_recorder.cpp
@@ -151,10 +151,10 @@ void AutoRecorder::FlushOne() {
     if (save_pending == 0) {
       return;
     }
-    options_.metrics_observer->OnSpansSent(static_cast<int>(save_pending));
     // TODO(rnburn): Compute and set timestamp_offset_micros
     save_dropped = dropped_spans_;
     builder_.set_pending_client_dropped_spans(save_dropped);
+    options_.metrics_observer->OnSpansSent(static_cast<int>(save_pending));
     dropped_spans_ = 0;
     std::swap(builder_.pending(), inflight_);
     ++encoding_seqno_;
diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index 587a6a3..c4bb94f 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -74,10 +74,10 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   if (saved_pending_spans_ == 0) {
     return true;
   }
-  options_.metrics_observer->OnSpansSent(
-      static_cast<int>(saved_pending_spans_));
   saved_dropped_spans_ = dropped_spans_;
   builder_.set_pending_client_dropped_spans(dropped_spans_);
+  options_.metrics_observer->OnSpansSent(
+      static_cast<int>(saved_pending_spans_));
   dropped_spans_ = 0;
   std::swap(builder_.pending(), active_request_);
   ++encoding_seqno_;
diff --git a/src/recorder/report_builder.cpp b/src/recorder/report_builder.cpp
index cd5faab..29af53f 100644
--- a/src/recorder/report_builder.cpp
+++ b/src/recorder/report_builder.cpp
@@ -39,8 +39,10 @@ void ReportBuilder::AddSpan(const collector::Span& span) {
 // set_pending_client_dropped_spans
 //------------------------------------------------------------------------------
 void ReportBuilder::set_pending_client_dropped_spans(uint64_t spans) {
-  auto count = pending_.mutable_internal_metrics()->add_counts();
-  count->set_name("spans.dropped");
-  count->set_int_value(spans);
+  // Fill the count before adding it so that nothing is added if that fails.
+  collector::MetricsSample count;
+  count.set_name("spans.dropped");
+  count.set_int_value(spans);
+  *pending_.mutable_internal_metrics()->add_counts() = std::move(count);
 }
 }  // namespace lightstep
-- 
2.43.0


From 88a047fadc443e8a25f59444cdd4e9d98c2923fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 36/49] fix: don't terminate when describing a failed report
 runs out of memory

---
 src/recorder/legacy_manual_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index c4bb94f..dab23bc 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -127,12 +127,15 @@ void LegacyManualRecorder::OnSuccess() noexcept {
 //------------------------------------------------------------------------------
 // OnFailure
 //------------------------------------------------------------------------------
-void LegacyManualRecorder::OnFailure(std::error_code error) noexcept {
+void LegacyManualRecorder::OnFailure(std::error_code error) noexcept try {
   ++flushed_seqno_;
   active_request_.Clear();
   options_.metrics_observer->OnSpansDropped(
       static_cast<int>(saved_pending_spans_));
   dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;
   logger_.Error("Failed to send report: ", error.message());
+} catch (const std::exception& e) {
+  // The message of the error needs memory.
+  logger_.Error("Failed to send report: ", e.what());
 }
 }  // namespace lightstep
-- 
2.43.0


From 56ac67ae4072801b3301df1afbd90b3c7a770155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 37/49] fix: don't terminate when the span buffer can't be
 allocated

MakeLightStepTracer catches the exception and returns nullptr.
---
 src/common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/circular_buffer.h b/src/common/circular_buffer.h
index e198787..76cec26 100644
--- a/src/common/circular_buffer.h
+++ b/src/common/circular_buffer.h
@@ -15,7 +15,7 @@ namespace lightstep {
 template <class T>
 class CircularBuffer {
  public:
-  explicit CircularBuffer(size_t max_size) noexcept
+  explicit CircularBuffer(size_t max_size)
       : data_{new AtomicUniquePtr<T>[max_size + 1]}, capacity_{max_size + 1} {}
 
   /**
-- 
2.43.0


From 2959cc082f84f134b616a0d78a7b252851ef21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:19 +0000
Subject: [PATCH 38/49] fix: don't write a truncated report header when running
 out of memory

A string stream ignores failed allocations, and the tracer was constructed
with a header that no report could be parsed with. Reserve the space first.
---
 .../serialization/report_request_header.cpp   | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/recorder/serialization/report_request_header.cpp b/src/recorder/serialization/report_request_header.cpp
index 6c87a28..6ec4ba6 100644
--- a/src/recorder/serialization/report_request_header.cpp
+++ b/src/recorder/serialization/report_request_header.cpp
@@ -5,7 +5,7 @@
 #include "lightstep-tracer-common/collector.pb.h"
 
 #include <google/protobuf/io/coded_stream.h>
-#include <google/protobuf/io/zero_copy_stream_impl.h>
+#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
 
 namespace lightstep {
 std::string WriteReportRequestHeader(
@@ -21,17 +21,29 @@ std::string WriteReportRequestHeader(
   collector::Auth auth;
   auth.set_access_token(tracer_options.access_token);
 
-  std::ostringstream oss;
+  // Reserve the space up front so that nothing needs to be allocated while
+  // writing.
+  auto reporter_size = reporter.ByteSizeLong();
+  auto auth_size = auth.ByteSizeLong();
+  std::string result;
+  result.resize(
+      ComputeEmbeddedMessageSerializationSize(
+          collector::ReportRequest::kReporterFieldNumber, reporter_size) +
+      ComputeEmbeddedMessageSerializationSize(
+          collector::ReportRequest::kAuthFieldNumber, auth_size));
   {
-    google::protobuf::io::OstreamOutputStream zero_copy_stream{&oss};
+    google::protobuf::io::ArrayOutputStream zero_copy_stream{
+        static_cast<void*>(&result[0]), static_cast<int>(result.size())};
     google::protobuf::io::CodedOutputStream coded_stream{&zero_copy_stream};
 
-    WriteEmbeddedMessage(
-        coded_stream, collector::ReportRequest::kReporterFieldNumber, reporter);
     WriteEmbeddedMessage(coded_stream,
-                         collector::ReportRequest::kAuthFieldNumber, auth);
+                         collector::ReportRequest::kReporterFieldNumber,
+                         reporter_size, reporter);
+    WriteEmbeddedMessage(coded_stream,
+                         collector::ReportRequest::kAuthFieldNumber, auth_size,
+                         auth);
   }
 
-  return oss.str();
+  return result;
 }
 }  // namespace lightstep
-- 
2.43.0


From 818ce74d5cbeee950cfcb630f48f6c31a2664eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:52 +0000
Subject: [PATCH 39/49] fix: don't terminate when the first id in a thread is
 made without memory

std::seed_seq allocates inside of noexcept functions.
---
 src/common/random.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index bd0375e..dfbfc62 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -14,6 +14,19 @@ namespace lightstep {
 // See https://stackoverflow.com/q/51882689/4447365 and
 //     https://github.com/opentracing-contrib/nginx-opentracing/issues/52
 namespace {
+// Seeds a generator from a random_device. Unlike std::seed_seq, it doesn't
+// allocate memory, so seeding doesn't fail when there's none left.
+struct RandomDeviceSeedSequence {
+  std::random_device random_device;
+
+  template <class Iterator>
+  void generate(Iterator first, Iterator last) {
+    for (; first != last; ++first) {
+      *first = random_device();
+    }
+  }
+};
+
 class TlsRandomNumberGenerator {
  public:
   TlsRandomNumberGenerator() {
@@ -29,10 +42,8 @@ class TlsRandomNumberGenerator {
   static void OnFork() noexcept { Seed(); }
 
   static void Seed() noexcept {
-    std::random_device random_device;
-    std::seed_seq seed_seq{random_device(), random_device(), random_device(),
-                           random_device()};
-    engine_.seed(seed_seq);
+    RandomDeviceSeedSequence seed_sequence;
+    engine_.seed(seed_sequence);
   }
 };
 
-- 
2.43.0


From 48c8c73b07ec03ebbb806b9f7bfa846f68530a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 40/49] fix: refuse a span buffer of the largest size

The capacity overflowed to zero, and recording a span divided by it.
---
 src/common/circular_buffer.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/circular_buffer.h b/src/common/circular_buffer.h
index 76cec26..2d890d5 100644
--- a/src/common/circular_buffer.h
+++ b/src/common/circular_buffer.h
@@ -2,7 +2,9 @@
 
 #include <atomic>
 #include <cstdint>
+#include <limits>
 #include <memory>
+#include <stdexcept>
 
 #include "common/atomic_unique_ptr.h"
 #include "common/circular_buffer_range.h"
@@ -16,7 +18,8 @@ template <class T>
 class CircularBuffer {
  public:
   explicit CircularBuffer(size_t max_size)
-      : data_{new AtomicUniquePtr<T>[max_size + 1]}, capacity_{max_size + 1} {}
+      : data_{new AtomicUniquePtr<T>[ComputeCapacity(max_size)]},
+        capacity_{max_size + 1} {}
 
   /**
    * @return a range of the elements in the circular buffer
@@ -140,6 +143,14 @@ class CircularBuffer {
   int64_t production_count() const noexcept { return head_; }
 
  private:
+  static size_t ComputeCapacity(size_t max_size) {
+    // One more element is needed so as to differentiate full from empty.
+    if (max_size == std::numeric_limits<size_t>::max()) {
+      throw std::length_error{"circular buffer too large"};
+    }
+    return max_size + 1;
+  }
+
   std::unique_ptr<AtomicUniquePtr<T>[]> data_;
   size_t capacity_;
   std::atomic<int64_t> head_{0};
-- 
2.43.0


From 279ff546ab97b969b9c7b1fbe458a6eab6f31cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 41/49] fix: don't terminate when a forked process runs out of
 memory

---
 src/recorder/stream_recorder/stream_recorder.cpp | 15 ++++++++++++---
 src/recorder/stream_recorder/stream_recorder.h   | 10 ++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..0b406f9 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -155,9 +155,7 @@ void StreamRecorder::PrepareForFork() noexcept {
 //--------------------------------------------------------------------------------------------------
 // OnForkedParent
 //--------------------------------------------------------------------------------------------------
-void StreamRecorder::OnForkedParent() noexcept {
-  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
-}
+void StreamRecorder::OnForkedParent() noexcept { RestartImpl(); }
 
 //--------------------------------------------------------------------------------------------------
 // OnForkedChild
@@ -170,7 +168,18 @@ void StreamRecorder::OnForkedChild() noexcept {
   num_spans_consumed_ = span_buffer_.production_count();
   pending_flush_counter_ = 0;
 
+  RestartImpl();
+}
+
+//--------------------------------------------------------------------------------------------------
+// RestartImpl
+//--------------------------------------------------------------------------------------------------
+void StreamRecorder::RestartImpl() noexcept try {
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
+} catch (const std::exception& e) {
+  // Without a streamer, spans are dropped once the buffer is full and flushes
+  // time out.
+  logger_.Error("StreamRecorder: failed to restart after fork: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/stream_recorder.h b/src/recorder/stream_recorder/stream_recorder.h
index 44f4c3c..51e38b9 100644
--- a/src/recorder/stream_recorder/stream_recorder.h
+++ b/src/recorder/stream_recorder/stream_recorder.h
@@ -13,6 +13,7 @@
 #include "common/logger.h"
 #include "common/noncopyable.h"
 #include "common/platform/network_environment.h"
+#include "common/timestamp.h"
 #include "lightstep/tracer.h"
 #include "network/event_base.h"
 #include "network/timer_event.h"
@@ -102,14 +103,16 @@ class StreamRecorder : public ForkAwareRecorder, private Noncopyable {
       std::chrono::system_clock::duration timeout) noexcept override;
 
   int64_t ComputeSystemSteadyTimestampDelta() const noexcept override {
+    if (stream_recorder_impl_ == nullptr) {
+      return lightstep::ComputeSystemSteadyTimestampDelta();
+    }
     return stream_recorder_impl_->timestamp_delta();
   }
 
   std::chrono::system_clock::time_point ComputeCurrentSystemTimestamp(
       std::chrono::steady_clock::time_point steady_now) const
       noexcept override {
-    return ToSystemTimestamp(stream_recorder_impl_->timestamp_delta(),
-                             steady_now);
+    return ToSystemTimestamp(ComputeSystemSteadyTimestampDelta(), steady_now);
   }
 
   const MetricsObserver* metrics_observer() const noexcept override {
@@ -147,6 +150,9 @@ class StreamRecorder : public ForkAwareRecorder, private Noncopyable {
   // that any threads waiting on shutdown can be notified.
   bool last_is_active_{true};
 
+  // Null between a fork's handlers, and if restarting after a fork failed.
   std::unique_ptr<StreamRecorderImpl> stream_recorder_impl_;
+
+  void RestartImpl() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From 1f48704c3e89664c17ac9521502fc5470444eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:42 +0000
Subject: [PATCH 42/49] fix: don't spin when the span buffer has no capacity

With max_buffered_spans of 0, the buffer counts as full all the time, and the
thread of the automatic recorder never waited.
---
 src/recorder/auto_recorder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/recorder/auto_recorder.cpp b/src/recorder/auto_recorder.cpp
index 0864889..5e71c3e 100644
--- a/src/recorder/auto_recorder.cpp
+++ b/src/recorder/auto_recorder.cpp
@@ -190,8 +190,12 @@ bool AutoRecorder::WaitForNextWrite(
   std::unique_lock<std::mutex> lock{write_mutex_};
   max_buffered_spans_snapshot_ = options_.max_buffered_spans.value();
   write_cond_->WaitUntil(lock, next, [this]() {
+    // A buffer that holds no spans at all is always full, but there's nothing
+    // to write.
+    auto num_pending_spans = this->builder_.num_pending_spans();
     return this->write_exit_ ||
-           this->builder_.num_pending_spans() >= max_buffered_spans_snapshot_;
+           (num_pending_spans > 0 &&
+            num_pending_spans >= max_buffered_spans_snapshot_);
   });
   return !write_exit_;
 }
-- 
2.43.0


From 570cd855f2d90342f4e04627d63460565909110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:42 +0000
Subject: [PATCH 43/49] fix: don't group the digits of the collector's port

A stream formats numbers by the global locale, so under one that groups
digits the address of the collector became e.g. collector:1,000.
---
 src/recorder/grpc_transporter/grpc_transporter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/recorder/grpc_transporter/grpc_transporter.cpp b/src/recorder/grpc_transporter/grpc_transporter.cpp
index 0fe75e6..a6bd529 100644
--- a/src/recorder/grpc_transporter/grpc_transporter.cpp
+++ b/src/recorder/grpc_transporter/grpc_transporter.cpp
@@ -2,7 +2,7 @@
 
 #include <grpc++/create_channel.h>
 #include <chrono>
-#include <sstream>
+#include <string>
 
 #include "lightstep-tracer-common/collector.grpc.pb.h"
 #include "lightstep-tracer-common/collector.pb.h"
@@ -12,9 +12,9 @@ namespace lightstep {
 // HostPortOf
 //------------------------------------------------------------------------------
 static std::string HostPortOf(const LightStepTracerOptions& options) {
-  std::ostringstream os;
-  os << options.collector_host << ":" << options.collector_port;
-  return os.str();
+  // Note: Doesn't use a stream, which would group the digits of the port if the
+  // global locale does.
+  return options.collector_host + ":" + std::to_string(options.collector_port);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 21e52609f1a1f113b24fbccb233e875ca01497b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:42 +0000
Subject: [PATCH 44/49] fix: don't raise SIGPIPE when a satellite closed the
 connection

By default the signal terminates the process; the event loop is meant to see
the error and to reconnect.
---
 src/common/platform/network_unix.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/platform/network_unix.cpp b/src/common/platform/network_unix.cpp
index 4d3e32b..2f3add7 100644
--- a/src/common/platform/network_unix.cpp
+++ b/src/common/platform/network_unix.cpp
@@ -32,7 +32,16 @@ int Read(FileDescriptor socket, void* data, size_t size) noexcept {
 // WriteV
 //--------------------------------------------------------------------------------------------------
 int WriteV(FileDescriptor socket, const IoVec* iov, int iovcnt) noexcept {
-  return ::writev(socket, iov, iovcnt);
+#ifdef MSG_NOSIGNAL
+  // If the other side closed the connection, writev would raise SIGPIPE, which
+  // by default terminates the process.
+  msghdr message{};
+  message.msg_iov = const_cast<IoVec*>(iov);
+  message.msg_iovlen = static_cast<decltype(message.msg_iovlen)>(iovcnt);
+  return static_cast<int>(::sendmsg(socket, &message, MSG_NOSIGNAL));
+#else
+  return static_cast<int>(::writev(socket, iov, iovcnt));
+#endif
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From b8dc092f2ee66c81f8fe96aa04aefb89df40804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:08 +0000
Subject: [PATCH 45/49] fix: don't overflow the clock if the reporting period
 or a flush timeout is very long

---
 src/common/condition_variable_wrapper.h |  8 +++++++-
 src/recorder/auto_recorder.cpp          | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/common/condition_variable_wrapper.h b/src/common/condition_variable_wrapper.h
index b1f4a39..adb12e9 100644
--- a/src/common/condition_variable_wrapper.h
+++ b/src/common/condition_variable_wrapper.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -43,7 +44,12 @@ class StandardConditionVariableWrapper : public ConditionVariableWrapper {
   bool WaitFor(std::unique_lock<std::mutex>& lock,
                const std::chrono::steady_clock::duration& duration,
                std::function<bool()> predicate) override {
-    return condition_variable_.wait_for(lock, duration, predicate);
+    // Note: limited so that adding the duration to the clock doesn't overflow.
+    return condition_variable_.wait_for(
+        lock,
+        std::min<std::chrono::steady_clock::duration>(
+            duration, std::chrono::hours{24 * 365}),
+        predicate);
   }
 
   bool WaitUntil(std::unique_lock<std::mutex>& lock,
diff --git a/src/recorder/auto_recorder.cpp b/src/recorder/auto_recorder.cpp
index 5e71c3e..a63d967 100644
--- a/src/recorder/auto_recorder.cpp
+++ b/src/recorder/auto_recorder.cpp
@@ -2,6 +2,7 @@
 
 #include "common/utility.h"
 
+#include <algorithm>
 #include <exception>
 
 namespace lightstep {
@@ -92,7 +93,10 @@ bool AutoRecorder::FlushWithTimeout(
 // Write
 //------------------------------------------------------------------------------
 void AutoRecorder::Write() noexcept try {
-  auto next = write_cond_->Now() + options_.reporting_period;
+  // Note: limited so that adding the period to the clock doesn't overflow.
+  auto reporting_period = std::min<std::chrono::steady_clock::duration>(
+      options_.reporting_period, std::chrono::hours{24 * 365});
+  auto next = write_cond_->Now() + reporting_period;
 
   while (WaitForNextWrite(next)) {
     FlushOne();
@@ -104,10 +108,10 @@ void AutoRecorder::Write() noexcept try {
     // make sure that elapsed is never negative.
     auto elapsed = std::max(end - next, std::chrono::steady_clock::duration{0});
 
-    if (elapsed > options_.reporting_period) {
+    if (elapsed > reporting_period) {
       next = end;
     } else {
-      next = end + options_.reporting_period - elapsed;
+      next = end + reporting_period - elapsed;
     }
   }
 } catch (const std::exception& e) {
-- 
2.43.0


From 1c17d4c2fba06925e93cec12e2911d6b5b2e3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:08 +0000
Subject: [PATCH 46/49] fix: don't overflow the clock if a timeout of the
 stream recorder is very long

---
 src/recorder/stream_recorder/stream_recorder.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0b406f9..538a1ea 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -1,5 +1,6 @@
 #include "recorder/stream_recorder/stream_recorder.h"
 
+#include <algorithm>
 #include <cassert>
 #include <exception>
 
@@ -8,6 +9,11 @@
 #include "common/report_request_framing.h"
 
 namespace lightstep {
+// Limits how long to wait so that adding the timeout to the clock doesn't
+// overflow.
+static const std::chrono::system_clock::duration MaxTimeout =
+    std::chrono::hours{24 * 365};
+
 //--------------------------------------------------------------------------------------------------
 // GetMetricsObserver
 //--------------------------------------------------------------------------------------------------
@@ -119,9 +125,10 @@ bool StreamRecorder::FlushWithTimeout(
     return true;
   }
   ++pending_flush_counter_;
-  flush_condition_variable_.wait_for(lock, timeout, [this, num_spans_produced] {
-    return exit_ || num_spans_consumed_ >= num_spans_produced;
-  });
+  flush_condition_variable_.wait_for(
+      lock, std::min(timeout, MaxTimeout), [this, num_spans_produced] {
+        return exit_ || num_spans_consumed_ >= num_spans_produced;
+      });
   return num_spans_consumed_ >= num_spans_produced;
 } catch (const std::exception& e) {
   logger_.Error("StreamRecorder::FlushWithTimeout failed: ", e.what());
@@ -136,7 +143,8 @@ bool StreamRecorder::ShutdownWithTimeout(
   std::unique_lock<std::mutex> lock{shutdown_mutex_};
   ++shutdown_counter_;
   shutdown_condition_variable_.wait_for(
-      lock, timeout, [this] { return exit_ || !last_is_active_; });
+      lock, std::min(timeout, MaxTimeout),
+      [this] { return exit_ || !last_is_active_; });
   return !last_is_active_;
 } catch (const std::exception& e) {
   logger_.Error("StreamRecorder::FlushWithTimeout failed: ", e.what());
-- 
2.43.0


From 6354750bcca2a86617bfa91ffdc08337d0743a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:08 +0000
Subject: [PATCH 47/49] fix: don't overflow the clock if the report timeout is
 very long

---
 src/recorder/grpc_transporter/grpc_transporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/recorder/grpc_transporter/grpc_transporter.cpp b/src/recorder/grpc_transporter/grpc_transporter.cpp
index a6bd529..63e4150 100644
--- a/src/recorder/grpc_transporter/grpc_transporter.cpp
+++ b/src/recorder/grpc_transporter/grpc_transporter.cpp
@@ -1,6 +1,7 @@
 #include "recorder/grpc_transporter.h"
 
 #include <grpc++/create_channel.h>
+#include <algorithm>
 #include <chrono>
 #include <string>
 
@@ -67,7 +68,10 @@ class GrpcTransporter : public SyncTransporter {
   GrpcTransporter(Logger& logger, const LightStepTracerOptions& options)
       : logger_{logger},
         client_{MakeGrpcClient(options)},
-        report_timeout_{options.report_timeout} {}
+        // Note: limited so that adding the timeout to the clock doesn't
+        // overflow.
+        report_timeout_{std::min<std::chrono::system_clock::duration>(
+            options.report_timeout, std::chrono::hours{24 * 365})} {}
 
   opentracing::expected<void> Send(
       const google::protobuf::Message& request,
-- 
2.43.0


From 319ed9232d5467f9a5b4c92814d385077071bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:08 +0000
Subject: [PATCH 48/49] fix: don't depend on the locale when comparing header
 names

---
 src/common/utility.cpp                              |  2 +-
 src/common/utility.h                                | 12 ++++++++++++
 src/tracer/propagation/cloud_trace_propagator.cpp   |  3 ++-
 src/tracer/propagation/envoy_propagator.cpp         |  3 ++-
 src/tracer/propagation/multiheader_propagator.cpp   |  2 +-
 src/tracer/propagation/trace_context_propagator.cpp |  2 +-
 6 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index 6758bb0..df8ca75 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -275,7 +275,7 @@ std::string ToLower(opentracing::string_view s) {
   std::string result;
   result.reserve(s.size());
   for (auto c : s) {
-    result.push_back(static_cast<char>(std::tolower(static_cast<unsigned char>(c))));
+    result.push_back(ToLower(c));
   }
   return result;
 }
diff --git a/src/common/utility.h b/src/common/utility.h
index 13f7cd9..c4c1b33 100644
--- a/src/common/utility.h
+++ b/src/common/utility.h
@@ -120,6 +120,18 @@ inline bool AreErrorsEqual(std::error_code lhs, std::error_code rhs) noexcept {
          lhs.value() == rhs.value();
 }
 
+/**
+ * Converts a character to lower-case.
+ *
+ * Unlike std::tolower, the result doesn't depend on the locale: in a Turkish
+ * one, for example, the lower-case version of I isn't i.
+ * @param c a character
+ * @return the lower-case version of c if it's an ASCII letter; otherwise, c
+ */
+inline char ToLower(char c) noexcept {
+  return 'A' <= c && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 /**
  * Converts a string to lower-case.
  * @param s a string
diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index b27a296..634b6b7 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -1,6 +1,7 @@
 #include "tracer/propagation/cloud_trace_propagator.h"
 
 #include "common/hex_conversion.h"
+#include "common/utility.h"
 
 #include "tracer/propagation/binary_propagation.h"
 #include "tracer/propagation/utility.h"
@@ -37,7 +38,7 @@ opentracing::expected<bool> CloudTracePropagator::ExtractSpanContext(
     return lhs.length() == rhs.length() &&
            std::equal(std::begin(lhs), std::end(lhs), std::begin(rhs),
                       [](char a, char b) {
-                        return std::tolower(a) == std::tolower(b);
+                        return ToLower(a) == ToLower(b);
                       });
   };
   opentracing::expected<bool> result;
diff --git a/src/tracer/propagation/envoy_propagator.cpp b/src/tracer/propagation/envoy_propagator.cpp
index 2e32b73..c502261 100644
--- a/src/tracer/propagation/envoy_propagator.cpp
+++ b/src/tracer/propagation/envoy_propagator.cpp
@@ -3,6 +3,7 @@
 #include <lightstep/base64/base64.h>
 
 #include "common/in_memory_stream.h"
+#include "common/utility.h"
 #include "tracer/propagation/binary_propagation.h"
 #include "tracer/propagation/utility.h"
 
@@ -38,7 +39,7 @@ opentracing::expected<bool> EnvoyPropagator::ExtractSpanContext(
     return lhs.length() == rhs.length() &&
            std::equal(std::begin(lhs), std::end(lhs), std::begin(rhs),
                       [](char a, char b) {
-                        return std::tolower(a) == std::tolower(b);
+                        return ToLower(a) == ToLower(b);
                       });
   };
   bool sampled;
diff --git a/src/tracer/propagation/multiheader_propagator.cpp b/src/tracer/propagation/multiheader_propagator.cpp
index b2dc196..79750cc 100644
--- a/src/tracer/propagation/multiheader_propagator.cpp
+++ b/src/tracer/propagation/multiheader_propagator.cpp
@@ -50,7 +50,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContext(
     return lhs.length() == rhs.length() &&
            std::equal(std::begin(lhs), std::end(lhs), std::begin(rhs),
                       [](char a, char b) {
-                        return std::tolower(a) == std::tolower(b);
+                        return ToLower(a) == ToLower(b);
                       });
   };
   bool sampled;
diff --git a/src/tracer/propagation/trace_context_propagator.cpp b/src/tracer/propagation/trace_context_propagator.cpp
index 614a237..fdee386 100644
--- a/src/tracer/propagation/trace_context_propagator.cpp
+++ b/src/tracer/propagation/trace_context_propagator.cpp
@@ -107,7 +107,7 @@ opentracing::expected<bool> TraceContextPropagator::ExtractSpanContext(
     return lhs.length() == rhs.length() &&
            std::equal(std::begin(lhs), std::end(lhs), std::begin(rhs),
                       [](char a, char b) {
-                        return std::tolower(a) == std::tolower(b);
+                        return ToLower(a) == ToLower(b);
                       });
   };
   if (case_sensitive) {
-- 
2.43.0


From f06dc8ea4cfd41cac62c5691c985b1dfb91df06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:08 +0000
Subject: [PATCH 49/49] fix: find the program's name if its path is long

---
 src/common/platform/utility_unix.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/common/platform/utility_unix.cpp b/src/common/platform/utility_unix.cpp
index ea97537..0f324c4 100644
--- a/src/common/platform/utility_unix.cpp
+++ b/src/common/platform/utility_unix.cpp
@@ -1,19 +1,22 @@
 #include "common/platform/utility.h"
 
-#include <memory>
 #include <string>
 
 #include <unistd.h>
 
 namespace lightstep {
 std::string GetProgramName() {
-  constexpr int path_max = 1024;
-  std::unique_ptr<char[]> exe_path{new char[path_max]};
-  ssize_t size = ::readlink("/proc/self/exe", exe_path.get(), path_max);
+  std::string path(1024, '\0');
+  ssize_t size;
+  // Note: readlink truncates a path that doesn't fit.
+  while ((size = ::readlink("/proc/self/exe", &path[0], path.size())) ==
+         static_cast<ssize_t>(path.size())) {
+    path.resize(2 * path.size());
+  }
   if (size == -1) {
     return "c++-program";  // Dunno...
   }
-  std::string path(exe_path.get(), size);
+  path.resize(static_cast<size_t>(size));
   size_t lslash = path.rfind('/');
   if (lslash != std::string::npos) {
     return path.substr(lslash + 1);
-- 
2.43.0

