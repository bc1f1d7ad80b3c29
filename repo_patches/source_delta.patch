From 2aeb84b34436eae2e73c8aa60111f8c355c310b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 1/6] fix: escape backslashes and line feeds in HELP lines

A help text containing a line feed started a new line in the text
exposition and could so inject arbitrary samples.
---
 core/src/text_serializer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 0656b50..200ac84 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -47,6 +47,25 @@ void WriteValue(std::ostream& out, const std::string& value) {
   }
 }
 
+// Write a help text, with backslashes and line feeds escaped
+void WriteHelp(std::ostream& out, const std::string& help) {
+  for (auto c : help) {
+    switch (c) {
+      case '\n':
+        out << '\\' << 'n';
+        break;
+
+      case '\\':
+        out << '\\' << c;
+        break;
+
+      default:
+        out << c;
+        break;
+    }
+  }
+}
+
 // Write a line header: metric name and labels
 template <typename T = std::string>
 void WriteHead(std::ostream& out, const MetricFamily& family,
@@ -156,7 +175,9 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " " << family.help << "\n";
+    out << "# HELP " << family.name << " ";
+    WriteHelp(out, family.help);
+    out << "\n";
   }
   switch (family.type) {
     case MetricType::Counter:
-- 
2.43.0


From 469523bb7c65b7222b746e86cf0d749df920110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 2/6] fix: reject base64 with data after the first padding
 character

"Zg=A" was decoded like "Zg==", the final character was ignored.
---
 util/include/prometheus/detail/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/include/prometheus/detail/base64.h b/util/include/prometheus/detail/base64.h
index ebd7110..4b27b5a 100644
--- a/util/include/prometheus/detail/base64.h
+++ b/util/include/prometheus/detail/base64.h
@@ -116,6 +116,9 @@ inline std::string base64_decode(const std::string& input) {
             decoded.push_back((temp >> 8) & 0x000000FF);
             return decoded;
           case 2:
+            if (*(it + 1) != kPadCharacter) {
+              throw std::runtime_error("Invalid padding in base64!");
+            }
             decoded.push_back((temp >> 10) & 0x000000FF);
             return decoded;
           default:
-- 
2.43.0


From 2937b7e1c24c39b024479c41bdca5f65d3c6b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 3/6] fix: count NaN observations in the +Inf bucket of a
 histogram only

NaN is not less than or equal to any boundary but was counted in the
lowest bucket.
---
 core/src/histogram.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index e437738..726b66e 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -41,7 +41,11 @@ void Histogram::Observe(const double value) {
   const auto bucket_index = static_cast<std::size_t>(
       std::distance(bucket_boundaries_.begin(),
                     std::lower_bound(bucket_boundaries_.begin(),
-                                     bucket_boundaries_.end(), value)));
+                                     bucket_boundaries_.end(), value,
+                                     [](double boundary, double observed) {
+                                       // also true if observed is NaN
+                                       return !(observed <= boundary);
+                                     })));
 
   std::lock_guard<std::mutex> lock(mutex_);
   sum_.Increment(value);
-- 
2.43.0


From 82772a28c930ccaf4c8ff618ab4a9644a7e5b64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 4/6] fix: reject NaN as histogram bucket boundary

NaN boundaries passed the strictly sorted check.
---
 core/src/histogram.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index 726b66e..7c81759 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -15,9 +15,11 @@ namespace {
 
 template <class ForwardIterator>
 bool is_strict_sorted(ForwardIterator first, ForwardIterator last) {
-  return std::adjacent_find(first, last,
-                            std::greater_equal<typename std::iterator_traits<
-                                ForwardIterator>::value_type>()) == last;
+  using T = typename std::iterator_traits<ForwardIterator>::value_type;
+  // not greater_equal: values that do not compare (NaN) are not sorted either
+  return std::adjacent_find(first, last, [](const T& a, const T& b) {
+           return !(a < b);
+         }) == last;
 }
 
 }  // namespace
-- 
2.43.0


From 938badf2b0067fab30efdf40ba5e4450b89c303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 5/6] fix: encode the label values . and .. in push URLs

They are dot segments (RFC 3986 section 5.2.4) which URL processors, curl
among them, remove together with the preceding path segment.
---
 push/src/detail/label_encoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/push/src/detail/label_encoder.cc b/push/src/detail/label_encoder.cc
index 75a6fc1..b970e6e 100644
--- a/push/src/detail/label_encoder.cc
+++ b/push/src/detail/label_encoder.cc
@@ -30,7 +30,8 @@ bool needsEncoding(char c) {
 void encodeLabel(std::ostream& os, const Label& label) {
   if (label.second.empty()) {
     os << "/" << label.first << "@base64/=";
-  } else if (std::any_of(label.second.begin(), label.second.end(),
+  } else if (label.second == "." || label.second == ".." ||
+             std::any_of(label.second.begin(), label.second.end(),
                          needsEncoding)) {
     os << "/" << label.first << "@base64/"
        << detail::base64url_encode(label.second);
-- 
2.43.0


From 785c744efda3e39d3f1b56caf8a09f9aeb169dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 6/6] fix: never compress only a part of a body of 4 GiB or
 more

---
 pull/src/handler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pull/src/handler.cc b/pull/src/handler.cc
index 784fd5e..f373311 100644
--- a/pull/src/handler.cc
+++ b/pull/src/handler.cc
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <cstring>
 #include <iterator>
+#include <limits>
 #include <string>
 
 #ifdef HAVE_ZLIB
@@ -58,6 +59,11 @@ static bool IsEncodingAccepted(struct mg_connection* conn,
 }
 
 static std::vector<Byte> GZipCompress(const std::string& input) {
+  // zlib takes at most this many bytes at once
+  if (input.size() > std::numeric_limits<uInt>::max()) {
+    return {};
+  }
+
   auto zs = z_stream{};
   auto windowSize = 16 + MAX_WBITS;
   auto memoryLevel = 9;
-- 
2.43.0

