From e3164239742d1a3c970074cbda32ff4ac8950521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:07 +0000
Subject: [PATCH 01/95] fix: parallel bulk add read the first string of an
 empty dictionary from storage

The first string of a batch added to an empty dictionary has index 0 and is still
in the batch, not in storage, but index 0 was always looked up in storage.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..1650199 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1246,8 +1246,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
-          static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
+      if (static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
         size_t memory_offset =
-- 
2.43.0


From 36f0becc8b374f5af1ae4f719ff96f55371b2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:07 +0000
Subject: [PATCH 02/95] fix: bulk encoding with 8/16-bit ids ignored the own
 strings of a nested dictionary

The invalid id was compared without conversion to the id type, so for unsigned narrow
types every string missing in the base dictionary was taken for found and got a bogus
id. The overflow check also has to count the strings of the base dictionary.
---
 .../StringDictionary/StringDictionary.cpp      | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 1650199..a9e6e84 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -372,10 +372,14 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
         const int64_t start_idx = r.begin();
         const int64_t end_idx = r.end();
         for (int64_t string_idx = start_idx; string_idx != end_idx; ++string_idx) {
-          if (base_dict_ && encoded_vec[string_idx] != StringDictionary::INVALID_STR_ID) {
+          const auto& input_string = string_vec[string_idx];
+          // Empty strings and strings known to the base dictionary are already encoded.
+          if (base_dict_ &&
+              (input_string.empty() ||
+               encoded_vec[string_idx] !=
+                   static_cast<T>(StringDictionary::INVALID_STR_ID))) {
             continue;
           }
-          const auto& input_string = string_vec[string_idx];
           if (input_string.empty()) {
             encoded_vec[string_idx] = inline_int_null_value<T>();
             ++found;
@@ -433,7 +437,7 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
   size_t idx = 0;
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[idx] != INVALID_STR_ID) {
+    if (base_dict_ && output_string_ids[idx] != static_cast<T>(INVALID_STR_ID)) {
       ++idx;
       continue;
     }
@@ -453,7 +457,7 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     }
     // need to add record to dictionary
     // check there is room
-    if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+    if (str_count_ + base_generation_ > static_cast<size_t>(max_valid_int_value<T>())) {
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -499,7 +503,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[input_string_idx] != INVALID_STR_ID) {
+    if (base_dict_ &&
+        output_string_ids[input_string_idx] != static_cast<T>(INVALID_STR_ID)) {
       ++input_string_idx;
       continue;
     }
@@ -540,7 +545,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     // Did not find string, so need to add record to dictionary
     // First check there is room
-    if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
+    if (shadow_str_count + base_generation_ >
+        static_cast<size_t>(max_valid_int_value<T>())) {
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
-- 
2.43.0


From 7944c13d20969ed7ec71b4f19fd48fe752c56fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:07 +0000
Subject: [PATCH 03/95] fix: bulk lookup in an empty dictionary encoded empty
 strings as missing, not NULL

---
 omniscidb/StringDictionary/StringDictionary.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index a9e6e84..b97c576 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -359,6 +359,12 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
     // Need to fill the resulting vector if it wasn't done by the base dictionary.
     if (!base_dict_) {
       fillInvalidStringIdsParallel(0, num_lookup_strings, encoded_vec);
+      for (int64_t string_idx = 0; string_idx < num_lookup_strings; ++string_idx) {
+        if (string_vec[string_idx].empty()) {
+          encoded_vec[string_idx] = inline_int_null_value<T>();
+          --base_num_strings_not_found;
+        }
+      }
     }
     return base_num_strings_not_found;
   }
-- 
2.43.0


From 56743bb945bef320896315590156cd23eac3f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 04/95] fix: dictionary left inconsistent when a bulk add
 overflows the id type

The parallel path threw with the strings of the batch in the hash table but not in
the storage, the serial one without invalidating the search caches.
---
 .../StringDictionary/StringDictionary.cpp     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index b97c576..8c684b6 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -464,6 +464,9 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     // need to add record to dictionary
     // check there is room
     if (str_count_ + base_generation_ > static_cast<size_t>(max_valid_int_value<T>())) {
+      if (str_count_ > initial_str_count) {
+        invalidateInvertedIndex();
+      }
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -507,6 +510,14 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   size_t sum_new_string_lengths = 0;
   string_memory_ids.reserve(input_strings.size());
   size_t input_string_idx{0};
+  auto commit_added_strings = [&]() {
+    appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
+    const size_t num_strings_added = shadow_str_count - str_count_;
+    str_count_ = shadow_str_count;
+    if (num_strings_added > 0) {
+      invalidateInvertedIndex();
+    }
+  };
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
     if (base_dict_ &&
@@ -553,6 +564,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     // First check there is room
     if (shadow_str_count + base_generation_ >
         static_cast<size_t>(max_valid_int_value<T>())) {
+      // Strings of this batch are in the hash table already, keep the storage in sync.
+      commit_added_strings();
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
@@ -566,12 +579,7 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     output_string_ids[input_string_idx++] = indexToId(shadow_str_count++);
   }
-  appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
-  const size_t num_strings_added = shadow_str_count - str_count_;
-  str_count_ = shadow_str_count;
-  if (num_strings_added > 0) {
-    invalidateInvertedIndex();
-  }
+  commit_added_strings();
 }
 template void StringDictionary::getOrAddBulk(const std::vector<std::string>& string_vec,
                                              uint8_t* encoded_vec);
-- 
2.43.0


From 035280158c9b0caf469f491acba35353655830db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 05/95] fix: comparison of nested string dictionaries skipped
 their own strings

---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 8c684b6..92ffd7f 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -142,7 +142,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
+  for (auto str_id = base_generation_;
+       str_id < base_generation_ + static_cast<int64_t>(str_count_);
        ++str_id) {
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
-- 
2.43.0


From 19bba3fec2b747d9ead746997a260bf1e804fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 06/95] fix: concurrent copyStrings calls raced on the strings
 cache

---
 omniscidb/StringDictionary/StringDictionary.cpp | 1 +
 omniscidb/StringDictionary/StringDictionary.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 92ffd7f..93b82ac 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1079,6 +1079,7 @@ std::vector<int32_t> StringDictionary::getRegexpLike(const std::string& pattern,
 std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const {
   generation = generation >= 0 ? std::min(generation, static_cast<int64_t>(entryCount()))
                                : static_cast<int64_t>(entryCount());
+  std::lock_guard<std::mutex> strings_cache_lock(strings_cache_mutex_);
   if (!strings_cache_) {
     strings_cache_ = std::make_shared<std::vector<std::string>>();
     strings_cache_->reserve(entryCount());
diff --git a/omniscidb/StringDictionary/StringDictionary.h b/omniscidb/StringDictionary/StringDictionary.h
index c5a0cef..08ec7d8 100644
--- a/omniscidb/StringDictionary/StringDictionary.h
+++ b/omniscidb/StringDictionary/StringDictionary.h
@@ -25,6 +25,7 @@
 #include <functional>
 #include <future>
 #include <map>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <tuple>
@@ -276,6 +277,7 @@ class StringDictionary {
       regex_cache_;
   mutable std::map<std::string, int32_t> equal_cache_;
   mutable DictionaryCache<std::string, compare_cache_value_t> compare_cache_;
+  mutable std::mutex strings_cache_mutex_;
   mutable std::shared_ptr<std::vector<std::string>> strings_cache_;
 
   char* CANARY_BUFFER{nullptr};
-- 
2.43.0


From 4fcc687cbf1ee5695ad6a0927e136e3b52c223a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:31 +0000
Subject: [PATCH 07/95] fix: strings that differ only by trailing NUL
 characters compared equal

---
 omniscidb/Utils/StringLike.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/omniscidb/Utils/StringLike.cpp b/omniscidb/Utils/StringLike.cpp
index 4d00bc5..5f5361f 100644
--- a/omniscidb/Utils/StringLike.cpp
+++ b/omniscidb/Utils/StringLike.cpp
@@ -277,10 +277,15 @@ extern "C" RUNTIME_EXPORT DEVICE int32_t StringCompare(const char* s1,
     s2_++;
   }
 
-  unsigned char c1 = (s1_ < s1 + s1_len) ? (*(unsigned char*)s1_) : 0;
-  unsigned char c2 = (s2_ < s2 + s2_len) ? (*(unsigned char*)s2_) : 0;
+  const bool s1_ended = s1_ >= s1 + s1_len;
+  const bool s2_ended = s2_ >= s2 + s2_len;
+  if (s1_ended || s2_ended) {
+    // A proper prefix is less, whatever the next character (NUL included) is.
+    return static_cast<int32_t>(s2_ended) - static_cast<int32_t>(s1_ended);
+  }
 
-  return c1 - c2;
+  return static_cast<int32_t>(*(unsigned char*)s1_) -
+         static_cast<int32_t>(*(unsigned char*)s2_);
 }
 
 #define STR_LIKE_NULLABLE(base_func)                                                     \
-- 
2.43.0


From dc522778331c6ee7525216f79a232e93a219d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:54 +0000
Subject: [PATCH 08/95] fix: statistics of narrow time columns took in the
 initial min/max sentinels

---
 omniscidb/DataMgr/FixedLengthEncoder.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/FixedLengthEncoder.h b/omniscidb/DataMgr/FixedLengthEncoder.h
index 53e108a..648f16b 100644
--- a/omniscidb/DataMgr/FixedLengthEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthEncoder.h
@@ -85,14 +85,15 @@ class FixedLengthEncoder : public Encoder {
 
     std::tie(dataMin, dataMax, has_nulls) = tbb::parallel_reduce(
         tbb::blocked_range(size_t(0), num_elements),
-        std::tuple(static_cast<V>(dataMin), static_cast<V>(dataMax), has_nulls),
+        std::tuple(dataMin, dataMax, has_nulls),
         [&](const auto& range, auto init) {
           auto [min, max, nulls] = init;
           for (size_t i = range.begin(); i < range.end(); i++) {
             if (data[i] != inline_null_value<V>()) {
               if (!fixlen_array || data[i] != inline_null_array_value<V>()) {
-                min = std::min(min, data[i]);
-                max = std::max(max, data[i]);
+                const T val = data[i];
+                min = std::min(min, val);
+                max = std::max(max, val);
               }
             } else {
               nulls = true;
-- 
2.43.0


From 3f2460a06c1b1801e3bd8cc5a8df118252c8c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 09/95] fix: full month names in dates were matched against the
 suffix of the next month

---
 omniscidb/Shared/DateTimeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/DateTimeParser.cpp b/omniscidb/Shared/DateTimeParser.cpp
index 33afc0e..25e6693 100644
--- a/omniscidb/Shared/DateTimeParser.cpp
+++ b/omniscidb/Shared/DateTimeParser.cpp
@@ -43,7 +43,7 @@ constexpr std::array<int, 12> month_prefixes{{int('j') << 16 | int('a') << 8 | i
                                               int('d') << 16 | int('e') << 8 | int('c')}};
 
 constexpr std::array<std::string_view, 13> month_suffixes{
-    {""
+    {"",
      "uary",
      "ruary",
      "ch",
-- 
2.43.0


From 7b3b2b53cf0ec3480ef93494f491e75aeb840025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 10/95] fix: dates before 1900 or after 2036 and negative
 sub-second timestamps were rendered wrong

---
 omniscidb/Utils/ExtractFromTime.h         |  1 +
 omniscidb/Utils/ExtractStringFromTime.cpp | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/omniscidb/Utils/ExtractFromTime.h b/omniscidb/Utils/ExtractFromTime.h
index b0473ad..d0e0430 100644
--- a/omniscidb/Utils/ExtractFromTime.h
+++ b/omniscidb/Utils/ExtractFromTime.h
@@ -73,6 +73,7 @@ constexpr unsigned MARJAN = 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30 + 31;
 constexpr unsigned JANMAR = 31 + 28;  // leap day handled separately
 
 extern "C" int64_t RUNTIME_EXPORT extract_month(const int64_t timeval);
+extern "C" int64_t RUNTIME_EXPORT extract_year(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_day(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_hour(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_minute(const int64_t timeval);
diff --git a/omniscidb/Utils/ExtractStringFromTime.cpp b/omniscidb/Utils/ExtractStringFromTime.cpp
index ffad9da..c6f3373 100644
--- a/omniscidb/Utils/ExtractStringFromTime.cpp
+++ b/omniscidb/Utils/ExtractStringFromTime.cpp
@@ -32,13 +32,13 @@ std::string getStrDayFromSeconds(const int64_t seconds_tstamp) {
 
 std::string getStrMonthFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_month_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_month(seconds_tstamp);
   return oss.str();
 }
 
 std::string getStrYearFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_year_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_year(seconds_tstamp);
   return oss.str();
 }
 
@@ -61,11 +61,12 @@ std::string getStrTimeFromSeconds(const int64_t seconds_tstamp) {
 std::string getStrTimeStampSecondsScaled(const int64_t tstamp,
                                          const int64_t seconds_scale) {
   std::ostringstream oss;
-  oss << getStrDateFromSeconds(tstamp / seconds_scale) << " "
-      << getStrTimeFromSeconds(tstamp / seconds_scale);
+  const int64_t seconds_tstamp = floor_div(tstamp, seconds_scale);
+  oss << getStrDateFromSeconds(seconds_tstamp) << " "
+      << getStrTimeFromSeconds(seconds_tstamp);
   if (seconds_scale > 1) {
     oss << "." << std::setfill('0') << std::setw(log10(seconds_scale))
-        << tstamp % seconds_scale;
+        << unsigned_mod(tstamp, seconds_scale);
   }
   return oss.str();
 }
-- 
2.43.0


From 30b20543424a7b17f12f90e1878a434c3c0c2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:00 +0000
Subject: [PATCH 11/95] fix: month differences of sub-second timestamps were
 off by one next to a month boundary

---
 omniscidb/QueryEngine/DateTruncate.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/omniscidb/QueryEngine/DateTruncate.cpp b/omniscidb/QueryEngine/DateTruncate.cpp
index 53b571c..d594098 100644
--- a/omniscidb/QueryEngine/DateTruncate.cpp
+++ b/omniscidb/QueryEngine/DateTruncate.cpp
@@ -549,6 +549,26 @@ DateDiffHighPrecision(const hdk::ir::DateTruncField datepart,
       int const adj_sec = 0 < delta_s && delta_ns < 0   ? -1
                           : delta_s < 0 && 0 < delta_ns ? 1
                                                         : 0;
+      // Months and longer parts are counted by day-of-month and second-of-day. Sub-second
+      // values matter for them only if these are equal, and moving one end by a second
+      // otherwise may move it to another month.
+      switch (datepart) {
+        case hdk::ir::DateTruncField::kMonth:
+        case hdk::ir::DateTruncField::kQuarter:
+        case hdk::ir::DateTruncField::kYear:
+        case hdk::ir::DateTruncField::kDecade:
+        case hdk::ir::DateTruncField::kCentury:
+        case hdk::ir::DateTruncField::kMillennium: {
+          EraTime const end = EraTime::make(end_seconds);
+          EraTime const start = EraTime::make(start_seconds);
+          if (end.dom != start.dom || end.sod != start.sod) {
+            return DateDiff(datepart, start_seconds, end_seconds);
+          }
+          break;
+        }
+        default:
+          break;
+      }
       return DateDiff(datepart, start_seconds, end_seconds + adj_sec);
   }
 }
-- 
2.43.0


From 840ca80cc67a768a082dae046a1b9339879c107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:48 +0000
Subject: [PATCH 12/95] fix: report overflow when a decimal is cast to a
 narrower integer

---
 omniscidb/QueryEngine/CastIR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/CastIR.cpp b/omniscidb/QueryEngine/CastIR.cpp
index 3836b83..3ff1eda 100644
--- a/omniscidb/QueryEngine/CastIR.cpp
+++ b/omniscidb/QueryEngine/CastIR.cpp
@@ -377,7 +377,7 @@ llvm::Value* CodeGenerator::codegenCastBetweenIntTypes(llvm::Value* operand_lv,
         method_name,
         {operand_lv, scale_lv, cgen_state_->llInt(inline_int_null_value(operand_type))});
   }
-  if (type->isInteger() && operand_type->isInteger() &&
+  if (type->isInteger() && (operand_type->isInteger() || operand_type->isDecimal()) &&
       operand_type->size() > type->size()) {
     codegenCastBetweenIntTypesOverflowChecks(operand_lv, operand_type, type, 1);
   }
-- 
2.43.0


From a3ee91e47ebf66db2af9369d7be7b3438b93f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:48 +0000
Subject: [PATCH 13/95] fix: FLOOR and CEIL of a decimal built with the query
 builder aborted

---
 omniscidb/QueryEngine/ExtensionsIR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ExtensionsIR.cpp b/omniscidb/QueryEngine/ExtensionsIR.cpp
index 7a961c1..c57e94a 100644
--- a/omniscidb/QueryEngine/ExtensionsIR.cpp
+++ b/omniscidb/QueryEngine/ExtensionsIR.cpp
@@ -505,9 +505,10 @@ llvm::Value* CodeGenerator::codegenFunctionOperWithCustomTypeHandling(
           func_name, {arg_lv, cgen_state_->llInt(exp_to_scale(arg_scale))});
       auto ret_type = function_oper->type();
       CHECK(ret_type->isDecimal());
-      CHECK_EQ(0, ret_type->as<hdk::ir::DecimalType>()->scale());
+      auto ret_scale = ret_type->as<hdk::ir::DecimalType>()->scale();
+      CHECK_LE(ret_scale, arg_scale);
       const auto result_lv = cgen_state_->ir_builder_.CreateSDiv(
-          covar_result_lv, cgen_state_->llInt(exp_to_scale(arg_scale)));
+          covar_result_lv, cgen_state_->llInt(exp_to_scale(arg_scale - ret_scale)));
       return endArgsNullcheck(bbs, result_lv, nullptr, function_oper, co);
     } else if (function_oper->name() == "ROUND" &&
                function_oper->arg(0)->type()->isDecimal()) {
-- 
2.43.0


From 3c72fa17fd39a8800861302347f78d1c4815a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 14/95] fix: constant folding took NULL operands for values

---
 omniscidb/QueryEngine/ExpressionRewrite.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRewrite.cpp b/omniscidb/QueryEngine/ExpressionRewrite.cpp
index 41bfd18..96b1ea2 100644
--- a/omniscidb/QueryEngine/ExpressionRewrite.cpp
+++ b/omniscidb/QueryEngine/ExpressionRewrite.cpp
@@ -449,7 +449,7 @@ class ConstantFoldingVisitor : public hdk::ir::ExprRewriter {
     const auto const_operand =
         std::dynamic_pointer_cast<const hdk::ir::Constant>(operand);
 
-    if (const_operand) {
+    if (const_operand && !const_operand->isNull()) {
       const auto operand_datum = const_operand->value();
       Datum zero_datum = {};
       Datum result_datum = {};
@@ -544,8 +544,8 @@ class ConstantFoldingVisitor : public hdk::ir::ExprRewriter {
     auto lhs_type = lhs->type();
     auto rhs_type = rhs->type();
 
-    if (const_lhs && const_rhs && lhs_type->id() == rhs_type->id() && lhs_type->size() &&
-        rhs_type->size()) {
+    if (const_lhs && const_rhs && !const_lhs->isNull() && !const_rhs->isNull() &&
+        lhs_type->id() == rhs_type->id() && lhs_type->size() && rhs_type->size()) {
       auto lhs_datum = const_lhs->value();
       auto rhs_datum = const_rhs->value();
       Datum result_datum = {};
@@ -636,7 +636,8 @@ class ConstantFoldingVisitor : public hdk::ir::ExprRewriter {
       }
     }
     // Convert fp division by a constant to multiplication by 1/constant
-    if (optype == hdk::ir::OpType::kDiv && const_rhs && rhs_type->isFloatingPoint()) {
+    if (optype == hdk::ir::OpType::kDiv && const_rhs && !const_rhs->isNull() &&
+        rhs_type->isFloatingPoint()) {
       auto rhs_datum = const_rhs->value();
       hdk::ir::ExprPtr recip_rhs = nullptr;
       if (rhs_type->isFp32()) {
-- 
2.43.0


From 048b55a0c708deb5a5b93eadf8687446bd1d3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:22 +0000
Subject: [PATCH 15/95] fix: casts of an expression to different types compared
 equal

---
 omniscidb/IR/Expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index d52b9aa..5b5b014 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1021,6 +1021,10 @@ bool UOper::operator==(const Expr& rhs) const {
     return false;
   }
   const UOper& rhs_uo = dynamic_cast<const UOper&>(rhs);
+  // The target type is a part of a cast.
+  if (op_type_ == OpType::kCast && !type_->equal(rhs_uo.type())) {
+    return false;
+  }
   return op_type_ == rhs_uo.opType() && *operand_ == *rhs_uo.operand() &&
          is_dict_intersection_ == rhs_uo.is_dict_intersection_;
 }
-- 
2.43.0


From d730c721e5df72d2c3dfea8c55dbce4f62e3c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:31 +0000
Subject: [PATCH 16/95] fix: standard deviation of a single value and
 correlation of no values were not NULL

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index bc368f3..2818217 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -179,9 +179,9 @@ class StdDevAggregate final : public CompoundAggregate {
     BuilderExpr sum_ref(&builder_, sum_ref_);
     BuilderExpr quad_sum_ref(&builder_, quad_sum_ref_);
     auto cnt_or_null =
-        builder_.ifThenElse(cnt_ref.eq(0), builder_.nullCst(cnt_ref.type()), cnt_ref);
+        builder_.ifThenElse(cnt_ref.eq(0), builder_.nullCst(cnt_ref.type()->withNullable(true)), cnt_ref);
     auto cnt_m_1_or_null = builder_.ifThenElse(
-        cnt_ref.eq(1), builder_.nullCst(cnt_ref.type()), cnt_ref.sub(1));
+        cnt_ref.eq(1), builder_.nullCst(cnt_ref.type()->withNullable(true)), cnt_ref.sub(1));
     auto stddev = quad_sum_ref.cast(ctx_.fp64())
                       .sub(sum_ref.mul(sum_ref).cast(ctx_.fp64()).div(cnt_or_null))
                       .div(cnt_m_1_or_null)
@@ -275,9 +275,9 @@ class CorrAggregate final : public CompoundAggregate {
     BuilderExpr avg_x_mul_y(&builder_, avg_x_mul_y_ref_);
 
     auto x_cnt_or_null =
-        builder_.ifThenElse(x_cnt.eq(0), builder_.nullCst(x_cnt.type()), x_cnt);
+        builder_.ifThenElse(x_cnt.eq(0), builder_.nullCst(x_cnt.type()->withNullable(true)), x_cnt);
     auto y_cnt_or_null =
-        builder_.ifThenElse(y_cnt.eq(0), builder_.nullCst(y_cnt.type()), y_cnt);
+        builder_.ifThenElse(y_cnt.eq(0), builder_.nullCst(y_cnt.type()->withNullable(true)), y_cnt);
     // In case of integer input, we compute sums in INT64 for better precision
     // but move to FP64 here to avoid overflows in multiplications.
     auto sum_x_fp = sum_x.cast(ctx_.fp64());
-- 
2.43.0


From 8e59d8ae910f2044acb2095cdcc12a45288559c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 17/95] fix: products in standard deviation and correlation
 overflowed narrow integers

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 2818217..1f264b8 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -125,6 +125,12 @@ class CompoundAggregate {
   virtual void addResult(ExprPtrVector& reduce_proj_exprs) = 0;
 
  protected:
+  // Products of narrow integers are computed in INT64 to avoid overflows.
+  BuilderExpr widenForMul(ExprPtr arg) {
+    BuilderExpr res(&builder_, arg);
+    return arg->type()->isInteger() ? res.cast(ctx_.int64(arg->type()->nullable())) : res;
+  }
+
   Context& ctx_;
   QueryBuilder builder_;
   Aggregate* node_;
@@ -145,7 +151,7 @@ class StdDevAggregate final : public CompoundAggregate {
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
     // Add arg * arg column.
-    BuilderExpr arg(&builder_, agg_->argShared());
+    auto arg = widenForMul(agg_->argShared());
     quad_arg_index_ = static_cast<unsigned>(exprs.size());
     exprs.emplace_back(arg.mul(arg).expr());
     fields.emplace_back(field_ + "__stddev_quad_arg_" + std::to_string(quad_arg_index_));
@@ -178,12 +184,13 @@ class StdDevAggregate final : public CompoundAggregate {
     BuilderExpr cnt_ref(&builder_, cnt_ref_);
     BuilderExpr sum_ref(&builder_, sum_ref_);
     BuilderExpr quad_sum_ref(&builder_, quad_sum_ref_);
+    auto sum_ref_fp = sum_ref.cast(ctx_.fp64());
     auto cnt_or_null =
         builder_.ifThenElse(cnt_ref.eq(0), builder_.nullCst(cnt_ref.type()->withNullable(true)), cnt_ref);
     auto cnt_m_1_or_null = builder_.ifThenElse(
         cnt_ref.eq(1), builder_.nullCst(cnt_ref.type()->withNullable(true)), cnt_ref.sub(1));
     auto stddev = quad_sum_ref.cast(ctx_.fp64())
-                      .sub(sum_ref.mul(sum_ref).cast(ctx_.fp64()).div(cnt_or_null))
+                      .sub(sum_ref_fp.mul(sum_ref_fp).div(cnt_or_null))
                       .div(cnt_m_1_or_null)
                       .pow(0.5);
     reduce_proj_exprs.emplace_back(stddev.expr());
@@ -208,8 +215,8 @@ class CorrAggregate final : public CompoundAggregate {
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
     // Add x * x, y * y, x * y columns
-    BuilderExpr x_arg(&builder_, agg_->argShared());
-    BuilderExpr y_arg(&builder_, agg_->arg1Shared());
+    auto x_arg = widenForMul(agg_->argShared());
+    auto y_arg = widenForMul(agg_->arg1Shared());
     first_mul_arg_index_ = static_cast<unsigned>(exprs.size());
     fields.emplace_back(field_ + "__corr_x_mul_x_" + std::to_string(exprs.size()));
     exprs.emplace_back(x_arg.mul(x_arg).expr());
-- 
2.43.0


From 60209c8191ac67ef0cb2136dd95b7e2739d083c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 18/95] fix: NULL dates were grouped as 1970-01-01 when several
 keys are hashed

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index b0859a6..e8e4aef 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -684,7 +684,7 @@ int8_t pick_baseline_key_width(const RelAlgExecutionUnit& ra_exe_unit,
     const auto expr_range = getExpressionRange(groupby_expr.get(), query_infos, executor);
     compact_width = std::max(
         compact_width,
-        pick_baseline_key_component_width(expr_range, groupby_expr->type()->size()));
+        pick_baseline_key_component_width(expr_range, groupby_expr->type()->canonicalSize()));
   }
   return compact_width;
 }
-- 
2.43.0


From cb1fb5e1ff5ce40663e9f6291456264c25a914a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 19/95] fix: correlation took in rows where only one of the
 values is NULL

---
 .../QueryOptimizer/CanonicalizeQuery.cpp      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 1f264b8..b56521b 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -217,6 +217,20 @@ class CorrAggregate final : public CompoundAggregate {
     // Add x * x, y * y, x * y columns
     auto x_arg = widenForMul(agg_->argShared());
     auto y_arg = widenForMul(agg_->arg1Shared());
+    // Only pairs of non-NULL values count.
+    if (y_arg.type()->nullable()) {
+      auto null_x = builder_.nullCst(x_arg.type()->withNullable(true));
+      x_arg = builder_.ifThenElse(y_arg.isNull(), null_x, x_arg);
+    }
+    if (agg_->arg()->type()->nullable()) {
+      auto null_y = builder_.nullCst(y_arg.type()->withNullable(true));
+      y_arg = builder_.ifThenElse(x_arg.isNull(), null_y, y_arg);
+    }
+    first_arg_index_ = static_cast<unsigned>(exprs.size());
+    fields.emplace_back(field_ + "__corr_x_" + std::to_string(exprs.size()));
+    exprs.emplace_back(x_arg.expr());
+    fields.emplace_back(field_ + "__corr_y_" + std::to_string(exprs.size()));
+    exprs.emplace_back(y_arg.expr());
     first_mul_arg_index_ = static_cast<unsigned>(exprs.size());
     fields.emplace_back(field_ + "__corr_x_mul_x_" + std::to_string(exprs.size()));
     exprs.emplace_back(x_arg.mul(x_arg).expr());
@@ -230,8 +244,8 @@ class CorrAggregate final : public CompoundAggregate {
                      ExprPtrVector& new_aggs,
                      std::vector<std::string>& new_agg_fields) override {
     // Create count(x), count(y), sum(x), sum(y), sum(x * x), sum(y * y), avg(x * y)
-    BuilderExpr x_arg(&builder_, agg_->argShared());
-    BuilderExpr y_arg(&builder_, agg_->arg1Shared());
+    BuilderExpr x_arg(&builder_, getNodeColumnRef(input, first_arg_index_));
+    BuilderExpr y_arg(&builder_, getNodeColumnRef(input, first_arg_index_ + 1));
     BuilderExpr quad_x(&builder_, getNodeColumnRef(input, first_mul_arg_index_));
     BuilderExpr quad_y(&builder_, getNodeColumnRef(input, first_mul_arg_index_ + 1));
     BuilderExpr x_mul_y(&builder_, getNodeColumnRef(input, first_mul_arg_index_ + 2));
@@ -301,6 +315,7 @@ class CorrAggregate final : public CompoundAggregate {
   }
 
  private:
+  unsigned first_arg_index_ = 0;
   unsigned first_mul_arg_index_ = 0;
   ExprPtr x_cnt_ref_;
   ExprPtr y_cnt_ref_;
-- 
2.43.0


From 11adba0bb00de92a910e395eaa828b39c4710a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 20/95] fix: groups with only NULLs were lost when the minimum
 of negative floating point values marks used entries

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index e8e4aef..6042d6c 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -332,6 +332,11 @@ KeylessInfo get_keyless_info(const RelAlgExecutionUnit& ra_exe_unit,
           }
           auto expr_range_info =
               getExpressionRange(agg_expr->arg(), query_infos, executor);
+          // NULL sentinel and init value for kMin are identical for nullable types.
+          if (expr_range_info.getType() == ExpressionRangeType::Invalid ||
+              expr_range_info.hasNulls()) {
+            break;
+          }
           auto init_max = get_agg_initial_val(agg_info.agg_kind,
                                               chosen_type,
                                               is_group_by || float_argument_input,
-- 
2.43.0


From 33859205cee356913c82e23cf48b95822dd5e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:52 +0000
Subject: [PATCH 21/95] fix: cardinality estimation crashed when all fragments
 are skipped

---
 omniscidb/QueryEngine/Execute.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index 156ca07..7f30b0a 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -1161,6 +1161,11 @@ ResultSetPtr Executor::reduceMultiDeviceResults(
     const CompilationOptions& co) {
   auto timer = DEBUG_TIMER(__func__);
   if (ra_exe_unit.estimator) {
+    if (results_per_device.empty()) {
+      // All fragments were skipped, nothing to estimate.
+      return std::make_shared<ResultSet>(
+          ra_exe_unit.estimator, ExecutorDeviceType::CPU, 0, data_mgr_);
+    }
     return reduce_estimator_results(ra_exe_unit, results_per_device);
   }
 
-- 
2.43.0


From 777196cd3351a1fe90e86e4bbbbd8c7c586da75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:08 +0000
Subject: [PATCH 22/95] fix: a group key projected again after a count lost its
 sign

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index 6042d6c..c728e86 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -643,6 +643,12 @@ int8_t pick_target_compact_width(const RelAlgExecutionUnit& ra_exe_unit,
     for (const auto& qi : query_infos) {
       total_tuples += qi.info->getNumTuples();
     }
+    // With an odd number of 4-byte slots, the last one is padded and read as an 8-byte
+    // value. That's OK for counters only.
+    if (ra_exe_unit.target_exprs.size() % 2 != 0 &&
+        !ra_exe_unit.target_exprs.back()->is<hdk::ir::AggExpr>()) {
+      return crt_min_byte_width;
+    }
     return total_tuples <= static_cast<size_t>(std::numeric_limits<uint32_t>::max()) ||
                    unnest_array_col_id != std::numeric_limits<int>::min()
                ? 4
-- 
2.43.0


From 3ab5adc0fd8ef6a66a26b986f29f2e85f69ea479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:46 +0000
Subject: [PATCH 23/95] fix: a full group buffer went unnoticed at the first
 row of a later fragment

---
 omniscidb/QueryEngine/RowFuncBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/RowFuncBuilder.cpp b/omniscidb/QueryEngine/RowFuncBuilder.cpp
index 29162cf..13c0050 100644
--- a/omniscidb/QueryEngine/RowFuncBuilder.cpp
+++ b/omniscidb/QueryEngine/RowFuncBuilder.cpp
@@ -272,7 +272,8 @@ bool RowFuncBuilder::codegen(llvm::Value* filter_result,
           LL_BUILDER.CreateRet(LL_INT(int32_t(0)));
         } else {
           CodeGenerator code_generator(executor_, co.codegen_traits_desc);
-          LL_BUILDER.CreateRet(LL_BUILDER.CreateNeg(LL_BUILDER.CreateTrunc(
+          // -(pos + 1): also negative for the first row of a fragment
+          LL_BUILDER.CreateRet(LL_BUILDER.CreateNot(LL_BUILDER.CreateTrunc(
               // TODO(alex): remove the trunc once pos is converted to 32 bits
               code_generator.posArg(nullptr),
               get_int_type(32, LL_CONTEXT))));
-- 
2.43.0


From 559ab0242312cf39f2a15e45547264a16a2cf97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 24/95] fix: an average before a top-k in an ungrouped query
 got the initial value of the heap

---
 omniscidb/QueryEngine/QueryMemoryInitializer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/omniscidb/QueryEngine/QueryMemoryInitializer.cpp b/omniscidb/QueryEngine/QueryMemoryInitializer.cpp
index 5b2793a..4e10b2a 100644
--- a/omniscidb/QueryEngine/QueryMemoryInitializer.cpp
+++ b/omniscidb/QueryEngine/QueryMemoryInitializer.cpp
@@ -893,7 +893,6 @@ std::vector<int> QueryMemoryInitializer::allocateTopKBuffers(
   size_t const ntargets = executor->plan_state_->target_exprs_.size();
   CHECK_GE(slot_count, ntargets);
   std::vector<int> topk_params(deferred ? slot_count : 0);
-  size_t init_val_idx = 0;
   for (size_t target_idx = 0; target_idx < ntargets; ++target_idx) {
     auto const target_expr = executor->plan_state_->target_exprs_[target_idx];
     if (auto const agg_expr = dynamic_cast<const hdk::ir::AggExpr*>(target_expr)) {
@@ -904,6 +903,13 @@ std::vector<int> QueryMemoryInitializer::allocateTopKBuffers(
         CHECK_EQ(
             static_cast<size_t>(query_mem_desc.getLogicalSlotWidthBytes(agg_col_idx)),
             sizeof(int64_t));
+        // Slots of zero width have no initial values.
+        size_t init_val_idx = 0;
+        for (size_t slot_idx = 0; slot_idx < agg_col_idx; ++slot_idx) {
+          if (query_mem_desc.getPaddedSlotWidthBytes(slot_idx)) {
+            ++init_val_idx;
+          }
+        }
         auto elem_count = std::abs(agg_expr->arg1()->as<hdk::ir::Constant>()->intVal());
         auto heap_size = elem_count * agg_expr->arg()->type()->canonicalSize();
         if (heap_size > static_cast<int>(sizeof(int64_t*))) {
@@ -921,10 +927,6 @@ std::vector<int> QueryMemoryInitializer::allocateTopKBuffers(
         }
       }
     }
-
-    if (query_mem_desc.getPaddedSlotWidthBytes(target_idx)) {
-      ++init_val_idx;
-    }
   }
   return topk_params;
 }
-- 
2.43.0


From 09bbcf5d33e1dce23ead64dd92c60c21f85d01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 25/95] fix: quantile and top-k crashed when all fragments are
 skipped

---
 omniscidb/QueryEngine/Execute.cpp          | 9 ++++++++-
 omniscidb/ResultSet/QuantileAccessors.cpp  | 4 ++++
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index 7f30b0a..ef15684 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -2540,8 +2540,15 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
     target_infos.push_back(agg_info);
     const bool float_argument_input = takes_float_argument(agg_info);
     if (agg_info.agg_kind == hdk::ir::AggType::kCount ||
-        agg_info.agg_kind == hdk::ir::AggType::kApproxCountDistinct) {
+        agg_info.agg_kind == hdk::ir::AggType::kApproxCountDistinct ||
+        agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
       entry.push_back(0);
+    } else if (agg_info.agg_kind == hdk::ir::AggType::kTopK) {
+      // Either the first (NULL) element of the inlined heap or a heap pointer.
+      entry.push_back(agg_info.topk_inline_buffer
+                          ? inline_null_val(agg_info.agg_arg_type->canonicalize(),
+                                            agg_info.agg_arg_type->isFp32())
+                          : 0);
     } else if (agg_info.agg_kind == hdk::ir::AggType::kAvg) {
       entry.push_back(0);
       entry.push_back(0);
diff --git a/omniscidb/ResultSet/QuantileAccessors.cpp b/omniscidb/ResultSet/QuantileAccessors.cpp
index 461f3a6..3da4bc3 100644
--- a/omniscidb/ResultSet/QuantileAccessors.cpp
+++ b/omniscidb/ResultSet/QuantileAccessors.cpp
@@ -42,6 +42,10 @@ ResultType getQuantile(hdk::quantile::Quantile* quantile,
                        const hdk::ir::Type* arg_type,
                        double q,
                        hdk::ir::Interpolation interpolation) {
+  if (!quantile) {
+    // No input.
+    return inline_null_value<ResultType>();
+  }
   if (arg_type->isFloatingPoint()) {
     switch (arg_type->size()) {
       case 4:
diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 38153c2..b969fb9 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -1251,6 +1251,10 @@ TargetValue ResultSet::makeVarlenTargetValueFromTopKHeap(
   const int8_t* heap_ptr = target_info.topk_inline_buffer
                                ? slot_ptr
                                : *reinterpret_cast<const int8_t* const*>(slot_ptr);
+  if (!heap_ptr) {
+    // No input.
+    return ArrayTargetValue(std::vector<ScalarTargetValue>{});
+  }
   if (target_info.topk_param > 0) {
     return buildSortedArrayTargetValueFromTopKHeap<std::greater>(
         target_info.agg_arg_type, heap_ptr, target_info.topk_param);
-- 
2.43.0


From 651ec14308f3377d21b4914e208e46772b6c335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:00 +0000
Subject: [PATCH 26/95] fix: approximate count distinct with 32-bit counts
 failed a check

---
 omniscidb/Shared/TargetInfo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/TargetInfo.h b/omniscidb/Shared/TargetInfo.h
index 8b680e8..1d9bde9 100644
--- a/omniscidb/Shared/TargetInfo.h
+++ b/omniscidb/Shared/TargetInfo.h
@@ -149,7 +149,9 @@ inline TargetInfo get_target_info(const PointerType target_expr,
           agg_expr->aggType(),
           agg_type == hdk::ir::AggType::kCount
               ? ctx.integer((is_distinct || bigint_count) ? 8 : 4, nullable)
-              : agg_expr->type(),
+          // The slot holds a pointer to the sketch.
+          : agg_type == hdk::ir::AggType::kApproxCountDistinct ? ctx.int64(nullable)
+                                                               : agg_expr->type(),
           agg_arg_type,
           agg_type == hdk::ir::AggType::kCount &&
                   (agg_arg_type->isString() || agg_arg_type->isArray())
-- 
2.43.0


From 81e6886e06bb7f098bab974c0d33fd5acc7f946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:40 +0000
Subject: [PATCH 27/95] fix: errors of a fragment were overwritten by the next
 fragment of the same kernel

---
 omniscidb/QueryEngine/RuntimeFunctions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omniscidb/QueryEngine/RuntimeFunctions.cpp b/omniscidb/QueryEngine/RuntimeFunctions.cpp
index 095f129..cb2bc7a 100644
--- a/omniscidb/QueryEngine/RuntimeFunctions.cpp
+++ b/omniscidb/QueryEngine/RuntimeFunctions.cpp
@@ -1718,6 +1718,10 @@ extern "C" RUNTIME_EXPORT void multifrag_query_hoisted_literals(
         join_hash_tables,
         total_matched,
         error_code);
+    if (get_error_code(error_code)) {
+      // Do not let the next fragment overwrite the error.
+      break;
+    }
   }
 }
 
@@ -1764,6 +1768,10 @@ extern "C" RUNTIME_EXPORT void multifrag_query(
                join_hash_tables,
                total_matched,
                error_code);
+    if (get_error_code(error_code)) {
+      // Do not let the next fragment overwrite the error.
+      break;
+    }
   }
 }
 
-- 
2.43.0


From d75620638d60eae62d892bb2b54cfb5d83f891eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:14 +0000
Subject: [PATCH 28/95] fix: a float column fetched by another target was
 misread in columnar output

---
 omniscidb/QueryEngine/TargetExprBuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omniscidb/QueryEngine/TargetExprBuilder.cpp b/omniscidb/QueryEngine/TargetExprBuilder.cpp
index 07666ca..bec86ea 100644
--- a/omniscidb/QueryEngine/TargetExprBuilder.cpp
+++ b/omniscidb/QueryEngine/TargetExprBuilder.cpp
@@ -291,6 +291,14 @@ void TargetExprCodegen::codegenAggregate(
   size_t target_lv_idx = 0;
   const bool lazy_fetched{executor->plan_state_->isLazyFetchColumn(target_expr)};
 
+  if (!lazy_fetched && executor->plan_state_->allow_lazy_fetch_ &&
+      target_info.type->isFp32() && is_columnar_projection(query_mem_desc) &&
+      query_mem_desc.getPaddedSlotWidthBytes(slot_index) > target_info.type->size()) {
+    // The slot was padded for a lazily fetched column, but another target made us fetch
+    // it.
+    throw CompilationRetryNoLazyFetch();
+  }
+
   CodeGenerator code_generator(executor, co.codegen_traits_desc);
 
   const auto agg_fn_names = agg_fn_base_names(target_info);
-- 
2.43.0


From 567fe11c13f8250b042f9a2dc1ae526f0e1163e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:00 +0000
Subject: [PATCH 29/95] fix: reading the size of an empty top-k of skipped
 fragments crashed

---
 omniscidb/ResultSet/TopKAggAccessors.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/ResultSet/TopKAggAccessors.cpp b/omniscidb/ResultSet/TopKAggAccessors.cpp
index 8df502d..939fa72 100644
--- a/omniscidb/ResultSet/TopKAggAccessors.cpp
+++ b/omniscidb/ResultSet/TopKAggAccessors.cpp
@@ -11,6 +11,10 @@
 int getTopKHeapSize(const int8_t* heap_handle,
                     const hdk::ir::Type* elem_type,
                     int max_heap_size) {
+  if (!heap_handle) {
+    // No input.
+    return 0;
+  }
   switch (elem_type->canonicalSize()) {
     case 1:
       return getTopKHeapSize(reinterpret_cast<const int8_t*>(heap_handle),
-- 
2.43.0


From 4160ce5079c7d6a28a7558fa08f13e9ba18819f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 30/95] fix: a buffer deleted on its last unpin unlocked its
 freed mutex

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..1ec1495 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,10 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From 52f4e8919902895c23309cfe70dcfae6c04a7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:25 +0000
Subject: [PATCH 31/95] fix: an empty inlined top-k of skipped fragments was
 read as full

---
 omniscidb/QueryEngine/Execute.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index ef15684..a01cddd 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -2544,11 +2544,16 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
         agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
       entry.push_back(0);
     } else if (agg_info.agg_kind == hdk::ir::AggType::kTopK) {
-      // Either the first (NULL) element of the inlined heap or a heap pointer.
-      entry.push_back(agg_info.topk_inline_buffer
-                          ? inline_null_val(agg_info.agg_arg_type->canonicalize(),
-                                            agg_info.agg_arg_type->isFp32())
-                          : 0);
+      // Either an inlined heap with NULL elements only or a heap pointer.
+      int64_t heap = 0;
+      if (agg_info.topk_inline_buffer) {
+        const auto elem_type = agg_info.agg_arg_type->canonicalize();
+        const int64_t null_elem = inline_null_val(elem_type, elem_type->isFp32());
+        for (size_t offs = 0; offs < sizeof(heap); offs += elem_type->size()) {
+          memcpy(reinterpret_cast<int8_t*>(&heap) + offs, &null_elem, elem_type->size());
+        }
+      }
+      entry.push_back(heap);
     } else if (agg_info.agg_kind == hdk::ir::AggType::kAvg) {
       entry.push_back(0);
       entry.push_back(0);
-- 
2.43.0


From 32a24d82b8c12d2286d0f63da6a327b1b73a1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:49 +0000
Subject: [PATCH 32/95] fix: quantile chunk iterator read beyond the last chunk
 when advanced to the end of full chunks

---
 omniscidb/Shared/quantile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 1e8c778..6d23d95 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -73,7 +73,8 @@ class ChunkedArray {
       if (i < 0) {
         operator-=(-i);
       } else {
-        while (true) {
+        // Stop right at the end, there is no chunk to look at beyond it.
+        while (i > 0) {
           int64_t rem = int64_t((*chunks_)[chunk_idx_].max_elems - chunk_offs_);
           if (rem > i) {
             chunk_offs_ += i;
-- 
2.43.0


From 6f2f21ca513868c29ee420362c533822396f9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:49 +0000
Subject: [PATCH 33/95] fix: quantile interpolation overflowed on distant
 64-bit integers

---
 omniscidb/Shared/quantile.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 6d23d95..c19a479 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <type_traits>
 #include <vector>
 
 namespace hdk::quantile {
@@ -332,7 +333,12 @@ class Quantile {
       double diff_coeff =
           interpolation == hdk::ir::Interpolation::kMidpoint ? 0.5 : pos - floor(pos);
       auto right_value = *right_iter;
-      res = static_cast<ResultType>(left_value + (right_value - left_value) * diff_coeff);
+      // Use a type that holds any integer exactly and doesn't overflow on subtraction.
+      using CalcType =
+          std::conditional_t<std::is_integral_v<ValueType>, long double, ValueType>;
+      auto left_calc = static_cast<CalcType>(left_value);
+      auto right_calc = static_cast<CalcType>(right_value);
+      res = static_cast<ResultType>(left_calc + (right_calc - left_calc) * diff_coeff);
     } else {
       res = static_cast<ResultType>(left_value);
     }
-- 
2.43.0


From aa81491d0152aeee6d78c48fab61ba6393c3f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 34/95] fix: t-digest interpolated towards zero next to a
 singleton minimum or maximum centroid

---
 omniscidb/Shared/approx_quantile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/approx_quantile.h b/omniscidb/Shared/approx_quantile.h
index 5d8b885..20fb5be 100644
--- a/omniscidb/Shared/approx_quantile.h
+++ b/omniscidb/Shared/approx_quantile.h
@@ -833,7 +833,8 @@ DEVICE RealType TDigest<RealType, IndexType>::slope(IndexType idx1, IndexType id
     RealType const s1 = centroids_.sums_[idx1] - (min1 ? min() : max1 ? max() : 0);
     RealType const s2 = centroids_.sums_[idx2] - (min2 ? min() : max2 ? max() : 0);
     if (isSingleton(centroids_.counts_.begin() + idx2)) {
-      return (idx1 < idx2 ? 2 : -2) * (n1 * s2 - s1) / (n1 * n1);
+      // A singleton is the data point itself, including when it is the min/max one.
+      return (idx1 < idx2 ? 2 : -2) * (n1 * centroids_.sums_[idx2] - s1) / (n1 * n1);
     } else {
       RealType const n2 = static_cast<RealType>(centroids_.counts_[idx2] - min2 - max2);
       return (idx1 < idx2 ? 2 : -2) * (n1 * s2 - n2 * s1) / (n1 * n2 * (n1 + n2));
-- 
2.43.0


From 9556864f08591533107bb521a084e04eb5876e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 35/95] fix: take the chunk index lock when evicting or rolling
 back a chunk

evict() and the out-of-memory path of createBuffer() accessed the chunk
index without its mutex while other threads insert and erase entries
under that mutex only, corrupting the map.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..1ca7f9c 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -145,11 +145,14 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
   try {
     allocateBuffer(seg_it, actual_chunk_page_size, initial_size);
   } catch (const OutOfMemory&) {
-    auto buffer_it = chunk_index_.find(chunk_key);
-    CHECK(buffer_it != chunk_index_.end());
-    buffer_it->second->buffer =
-        nullptr;  // constructor failed for the buffer object so make sure to mark it
-                  // null so deleteBuffer doesn't try to delete it
+    {
+      std::lock_guard<std::mutex> lock(chunk_index_mutex_);
+      auto buffer_it = chunk_index_.find(chunk_key);
+      CHECK(buffer_it != chunk_index_.end());
+      buffer_it->second->buffer =
+          nullptr;  // constructor failed for the buffer object so make sure to mark it
+                    // null so deleteBuffer doesn't try to delete it
+    }
     deleteBuffer(chunk_key);
     throw;
   }
@@ -181,6 +184,7 @@ BufferList::iterator BufferMgr::evict(BufferList::iterator& evict_start,
     }
     num_pages += evict_it->num_pages;
     if (evict_it->mem_status == USED && evict_it->chunk_key.size() > 0) {
+      std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
       chunk_index_.erase(evict_it->chunk_key);
     }
     if (evict_it->buffer != nullptr) {
-- 
2.43.0


From 94ee70b500a077473b322c1734e3ef54ad0efb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:00 +0000
Subject: [PATCH 36/95] fix: release the buffer and its waiters when fetching a
 chunk fails

A failed fetch left a pinned chunk without its data in the pool, and for
a chunk being extended also the in-progress marker, on which every later
request for the chunk waits forever.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 29 +++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 1ca7f9c..b127e27 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -733,13 +733,22 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
+          } catch (...) {
+            // The caller doesn't get the buffer and therefore wouldn't unpin it.
+            buffer_it->second->buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
@@ -767,7 +776,13 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // Don't leave a pinned buffer without its data in the pool.
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0


From 817d73ad985d33e69249f28994facb7cff430af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 37/95] fix: copying a nested type into another context left
 its element type behind

---
 omniscidb/IR/Context.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 62ad477..fcd9cdd 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -294,19 +294,30 @@ class ContextImpl {
       case Type::kFixedLenArray: {
         auto fixed_array_type = static_cast<const FixedLenArrayType*>(type);
         return arrayFixed(fixed_array_type->numElems(),
-                          fixed_array_type->elemType(),
+                          copyType(fixed_array_type->elemType()),
                           fixed_array_type->nullable());
       }
       case Type::kVarLenArray: {
         auto varlen_array_type = static_cast<const VarLenArrayType*>(type);
-        return arrayVarLen(varlen_array_type->elemType(),
+        return arrayVarLen(copyType(varlen_array_type->elemType()),
                            varlen_array_type->offsetSize(),
                            varlen_array_type->nullable());
       }
       case Type::kExtDictionary: {
         auto ext_dict_type = static_cast<const ExtDictionaryType*>(type);
-        return extDict(
-            ext_dict_type->elemType(), ext_dict_type->dictId(), ext_dict_type->size());
+        return extDict(copyType(ext_dict_type->elemType()),
+                       ext_dict_type->dictId(),
+                       ext_dict_type->size());
+      }
+      case Type::kColumn: {
+        auto column_type = static_cast<const ColumnType*>(type);
+        return column(copyType(column_type->columnType()), column_type->nullable());
+      }
+      case Type::kColumnList: {
+        auto column_list_type = static_cast<const ColumnListType*>(type);
+        return columnList(copyType(column_list_type->columnType()),
+                          column_list_type->length(),
+                          column_list_type->nullable());
       }
       default:
         throw InvalidTypeError() << "Unexpected type: " << type;
-- 
2.43.0


From aeecf9f106ca049c63831c4c1c9d39c049878877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 38/95] fix: accept the printed form of array and dictionary
 types

---
 omniscidb/IR/Context.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index fcd9cdd..d96a852 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -437,7 +437,7 @@ class ContextImpl {
     }
     // Varlen array types.
     if (std::regex_match(
-            val_lower, match_res, std::regex("array\\((.+)\\)(\\[nn\\])?"))) {
+            val_lower, match_res, std::regex("array(?:32)?\\((.+)\\)(\\[nn\\])?"))) {
       const Type* elem_type = typeFromString(match_res[1].str());
       return arrayVarLen(elem_type, 4, !match_res[2].matched);
     }
@@ -445,10 +445,14 @@ class ContextImpl {
     if (std::regex_match(
             val_lower,
             match_res,
-            std::regex("dict(8|16|32)?(?:\\((.+)\\))?(?:\\[(-?\\d+)\\])?"))) {
+            std::regex(
+                "dict(8|16|32)?(?:\\((.+)\\))?(?:\\[(-?\\d+)\\])?(\\[nn\\])?"))) {
       int size = match_res[1].matched ? std::stoi(match_res[1].str()) / 8 : 4;
       const Type* elem_type =
           match_res[2].matched ? typeFromString(match_res[2].str()) : text(true);
+      if (match_res[4].matched) {
+        elem_type = elem_type->withNullable(false);
+      }
       int dict_id = match_res[3].matched ? std::stoi(match_res[3].str()) : 0;
       return extDict(elem_type, dict_id, size);
     }
-- 
2.43.0


From c74b60a962afdb8b276adb50e26eb4430e55dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 39/95] fix: columns of different databases compared equal

---
 omniscidb/IR/Expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 5b5b014..3b2d3d9 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -976,8 +976,8 @@ bool ColumnVar::operator==(const Expr& rhs) const {
   }
   const ColumnVar& rhs_cv = dynamic_cast<const ColumnVar&>(rhs);
   if (rte_idx_ != -1) {
-    return (tableId() == rhs_cv.tableId()) && (columnId() == rhs_cv.columnId()) &&
-           (rte_idx_ == rhs_cv.rteIdx());
+    return (dbId() == rhs_cv.dbId()) && (tableId() == rhs_cv.tableId()) &&
+           (columnId() == rhs_cv.columnId()) && (rte_idx_ == rhs_cv.rteIdx());
   }
   const Var* v = dynamic_cast<const Var*>(this);
   if (v == nullptr) {
-- 
2.43.0


From 377ef0532f31165f77508afa8c6dee4d0c9df172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 40/95] fix: comparison of array literals and array expressions

---
 omniscidb/IR/Expr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 3b2d3d9..9861899 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1011,7 +1011,11 @@ bool Constant::operator==(const Expr& rhs) const {
     return true;
   }
   if (type_->isArray()) {
-    return false;
+    return std::equal(value_list_.begin(),
+                      value_list_.end(),
+                      rhs_c.value_list_.begin(),
+                      rhs_c.value_list_.end(),
+                      [](const auto& lhs, const auto& rhs) { return *lhs == *rhs; });
   }
   return DatumEqual(value_, rhs_c.value(), type_);
 }
@@ -1291,6 +1295,9 @@ bool ArrayExpr::operator==(Expr const& rhs) const {
     return false;
   }
   ArrayExpr const& casted_rhs = static_cast<ArrayExpr const&>(rhs);
+  if (contained_expressions_.size() != casted_rhs.contained_expressions_.size()) {
+    return false;
+  }
   for (unsigned i = 0; i < contained_expressions_.size(); i++) {
     auto& lhs_expr = contained_expressions_[i];
     auto& rhs_expr = casted_rhs.contained_expressions_[i];
-- 
2.43.0


From d4dcf5c269a3e0706fa6cf23c2c3fbeea601a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 41/95] fix: comparisons with ANY and with ALL compared equal

---
 omniscidb/IR/Expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 9861899..0d9f405 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1038,7 +1038,8 @@ bool BinOper::operator==(const Expr& rhs) const {
     return false;
   }
   const BinOper& rhs_bo = dynamic_cast<const BinOper&>(rhs);
-  return op_type_ == rhs_bo.opType() && *left_operand_ == *rhs_bo.leftOperand() &&
+  return op_type_ == rhs_bo.opType() && qualifier_ == rhs_bo.qualifier() &&
+         *left_operand_ == *rhs_bo.leftOperand() &&
          *right_operand_ == *rhs_bo.rightOperand();
 }
 
-- 
2.43.0


From 80536988cd53d604d252a31e19767ac07b5b0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 42/95] fix: aggregates with different second arguments
 compared equal

---
 omniscidb/IR/Expr.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 0d9f405..47e8395 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1207,13 +1207,11 @@ bool AggExpr::operator==(const Expr& rhs) const {
       interpolation_ != rhs_ae.interpolation_) {
     return false;
   }
-  if (arg_.get() == rhs_ae.arg()) {
-    return true;
-  }
-  if (arg_ == nullptr || rhs_ae.arg() == nullptr) {
-    return false;
-  }
-  return *arg_ == *rhs_ae.arg();
+  auto args_equal = [](const Expr* lhs, const Expr* rhs) {
+    return lhs == rhs || (lhs && rhs && *lhs == *rhs);
+  };
+  return args_equal(arg_.get(), rhs_ae.arg()) &&
+         args_equal(arg1_.get(), rhs_ae.arg1_.get());
 }
 
 bool CaseExpr::operator==(const Expr& rhs) const {
-- 
2.43.0


From 9514573ef11ebe2053cac0e8792ccad2a00430d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 43/95] fix: window functions with different sort orders
 compared equal

---
 omniscidb/IR/Expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 47e8395..08e4a21 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1286,7 +1286,15 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   }
   return exprsEqual(args_, rhs_window->args_) &&
          exprsEqual(partition_keys_, rhs_window->partition_keys_) &&
-         exprsEqual(order_keys_, rhs_window->order_keys_);
+         exprsEqual(order_keys_, rhs_window->order_keys_) &&
+         std::equal(collation_.begin(),
+                    collation_.end(),
+                    rhs_window->collation_.begin(),
+                    rhs_window->collation_.end(),
+                    [](const OrderEntry& lhs, const OrderEntry& rhs) {
+                      return lhs.tle_no == rhs.tle_no && lhs.is_desc == rhs.is_desc &&
+                             lhs.nulls_first == rhs.nulls_first;
+                    });
 }
 
 bool ArrayExpr::operator==(Expr const& rhs) const {
-- 
2.43.0


From 5c2793b8a6f260829b643d60e1f065ffbc81a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 44/95] fix: expression rewriting lost the dictionary
 intersection flag and visited a missing ELSE

---
 omniscidb/IR/ExprRewriter.h | 11 ++++++++---
 omniscidb/IR/ExprVisitor.h  |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/ExprRewriter.h b/omniscidb/IR/ExprRewriter.h
index dfd1b32..6f7286d 100644
--- a/omniscidb/IR/ExprRewriter.h
+++ b/omniscidb/IR/ExprRewriter.h
@@ -42,10 +42,15 @@ class ExprRewriter : public ExprVisitor<ExprPtr> {
       // For casts it is better to use cast method to benefit
       // from additional folding.
       if (uoper->isCast()) {
-        return new_op->cast(uoper->type());
+        return new_op->cast(
+            uoper->type(),
+            uoper->isDictIntersection() && !new_op->is<hdk::ir::Constant>());
       }
-      return hdk::ir::makeExpr<hdk::ir::UOper>(
-          uoper->type(), uoper->containsAgg(), uoper->opType(), new_op);
+      return hdk::ir::makeExpr<hdk::ir::UOper>(uoper->type(),
+                                               uoper->containsAgg(),
+                                               uoper->opType(),
+                                               new_op,
+                                               uoper->isDictIntersection());
     }
     return defaultResult(uoper);
   }
diff --git a/omniscidb/IR/ExprVisitor.h b/omniscidb/IR/ExprVisitor.h
index 28aabc5..2743d90 100644
--- a/omniscidb/IR/ExprVisitor.h
+++ b/omniscidb/IR/ExprVisitor.h
@@ -223,7 +223,9 @@ class ExprVisitor {
       visit(expr_pair.first.get());
       visit(expr_pair.second.get());
     }
-    visit(case_expr->elseExpr());
+    if (case_expr->elseExpr()) {
+      visit(case_expr->elseExpr());
+    }
     return defaultResult(case_expr);
   }
 
-- 
2.43.0


From a311e6f4f97d258cccea2d557e1f87993d311a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 45/95] fix: constant timestamps before the epoch were rounded
 up when their unit was widened

---
 omniscidb/QueryEngine/DateTimeUtils.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTimeUtils.h b/omniscidb/QueryEngine/DateTimeUtils.h
index c4ea07b..01d06df 100644
--- a/omniscidb/QueryEngine/DateTimeUtils.h
+++ b/omniscidb/QueryEngine/DateTimeUtils.h
@@ -200,6 +200,11 @@ const inline int64_t get_datetrunc_high_precision_scale(
   return -1;
 }
 
+// Instants before the epoch are rounded down, as the cast of a column does.
+constexpr inline int64_t floor_scale_down(const int64_t epoch, const int64_t scale) {
+  return epoch / scale - (epoch % scale < 0 ? 1 : 0);
+}
+
 constexpr inline int64_t get_datetime_scaled_epoch(const ScalingType direction,
                                                    const int64_t epoch,
                                                    const int32_t dimen) {
@@ -213,7 +218,7 @@ constexpr inline int64_t get_datetime_scaled_epoch(const ScalingType direction,
       return scaled_epoch;
     }
     case ScaleDown:
-      return epoch / get_timestamp_precision_scale(dimen);
+      return floor_scale_down(epoch, get_timestamp_precision_scale(dimen));
     default:
       abort();
   }
@@ -251,7 +256,7 @@ constexpr inline int64_t get_datetime_scaled_epoch(int64_t epoch,
     }
     return scaled_epoch;
   } else {
-    return epoch / (new_scale / old_scale);
+    return floor_scale_down(epoch, new_scale / old_scale);
   }
 }
 
-- 
2.43.0


From 0d2bfe9860d22ef5f4a33048c4868f129f8d8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 46/95] fix: decimals of more than 53 bits lost digits when
 printed or cast to text

---
 omniscidb/IR/Datum.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index ba04a69..05dafa5 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -434,11 +434,18 @@ std::string DatumToString(Datum d, const hdk::ir::Type* type) {
     case hdk::ir::Type::kDecimal: {
       CHECK_EQ(type->size(), 8);
       auto scale = type->as<hdk::ir::DecimalType>()->scale();
-      double v = (double)d.bigintval / pow(10, scale);
-      int size = snprintf(buf, buf_size, "%.*f", scale, v);
-      CHECK_LE(0, size) << v << ' ' << type->toString();
-      CHECK_LT(size_t(size), buf_size) << v << ' ' << type->toString();
-      return buf;
+      // Format the digits: not every 64-bit value has an exact double.
+      auto digits = std::to_string(d.bigintval);
+      const std::string sign = d.bigintval < 0 ? "-" : "";
+      digits.erase(0, sign.size());
+      if (scale <= 0) {
+        return sign + digits;
+      }
+      if (digits.size() <= static_cast<size_t>(scale)) {
+        digits.insert(0, scale + 1 - digits.size(), '0');
+      }
+      digits.insert(digits.size() - scale, ".");
+      return sign + digits;
     }
     case hdk::ir::Type::kInteger:
       switch (type->size()) {
-- 
2.43.0


From edd61c7968af6d17bf56dde1d64c48f538ef0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:43 +0000
Subject: [PATCH 47/95] fix: decimal literals with 18 or more integer digits
 were rejected as overflow

---
 omniscidb/IR/Datum.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 05dafa5..02d71ca 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -90,7 +90,6 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
     after_dot = s.substr(dot + 1);
   } else {
     before_dot = s;
-    after_dot = "0";
   }
   const bool is_negative = before_dot.find_first_of('-', 0) != std::string::npos;
   const int64_t sign = is_negative ? -1 : 1;
@@ -105,13 +104,13 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
     // After dot will be used to scale integer part so make sure it wont overflow
     if (after_dot.size() + before_dot_digits > max_digits) {
       if (before_dot_digits >= max_digits) {
-        after_dot = "0";
+        after_dot.clear();
       } else {
         next_digit = std::stoll(after_dot.substr(max_digits - before_dot_digits, 1));
         after_dot = after_dot.substr(0, max_digits - before_dot_digits);
       }
     }
-    fraction = std::stoll(after_dot);
+    fraction = after_dot.empty() ? 0 : std::stoll(after_dot);
     fraction += next_digit >= 5 ? 1 : 0;
   }
 
-- 
2.43.0


From f3b9ec8d0e6b0173558a507df0f7687fe7e0c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 48/95] fix: casts with and without dictionary intersection had
 the same hash

---
 omniscidb/IR/Expr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 08e4a21..a2ba89e 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1921,6 +1921,7 @@ size_t UOper::hash() const {
     hash_ = Expr::hash();
     boost::hash_combine(*hash_, op_type_);
     boost::hash_combine(*hash_, operand_->hash());
+    boost::hash_combine(*hash_, is_dict_intersection_);
   }
   return *hash_;
 }
-- 
2.43.0


From 252f6583b6b48af2eef359593fd03f61c7f01944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:58 +0000
Subject: [PATCH 49/95] fix: the overflow test for timestamp scaling was itself
 an overflow and got optimised away

---
 omniscidb/QueryEngine/DateTimeUtils.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTimeUtils.h b/omniscidb/QueryEngine/DateTimeUtils.h
index 01d06df..86044b8 100644
--- a/omniscidb/QueryEngine/DateTimeUtils.h
+++ b/omniscidb/QueryEngine/DateTimeUtils.h
@@ -210,8 +210,9 @@ constexpr inline int64_t get_datetime_scaled_epoch(const ScalingType direction,
                                                    const int32_t dimen) {
   switch (direction) {
     case ScaleUp: {
-      const auto scaled_epoch = epoch * get_timestamp_precision_scale(dimen);
-      if (epoch && epoch != scaled_epoch / get_timestamp_precision_scale(dimen)) {
+      int64_t scaled_epoch = 0;
+      if (__builtin_mul_overflow(
+              epoch, get_timestamp_precision_scale(dimen), &scaled_epoch)) {
         throw std::runtime_error(
             "Value Overflow/underflow detected while scaling DateTime precision.");
       }
@@ -249,8 +250,8 @@ constexpr inline int64_t get_datetime_scaled_epoch(int64_t epoch,
   auto old_scale = get_nanosecs_in_unit(old_unit);
   auto new_scale = get_nanosecs_in_unit(new_unit);
   if (old_scale > new_scale) {
-    auto scaled_epoch = epoch * (old_scale / new_scale);
-    if (epoch && epoch != scaled_epoch / (old_scale / new_scale)) {
+    int64_t scaled_epoch = 0;
+    if (__builtin_mul_overflow(epoch, old_scale / new_scale, &scaled_epoch)) {
       throw std::runtime_error(
           "Value Overflow/underflow detected while scaling DateTime precision.");
     }
-- 
2.43.0


From de089a3729dea860288b20ef4328f5a2f4046e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:16 +0000
Subject: [PATCH 50/95] fix: find the first row and the first fragment of a
 lazily fetched column

With fragments of different sizes the row's fragment was looked for among
all but the first one, and a fragment's first row was taken for a row of
the previous fragment.
---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index b969fb9..b45079a 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -856,10 +856,10 @@ inline std::pair<int64_t, int64_t> get_frag_id_and_local_idx(
     const size_t tab_or_col_idx,
     const int64_t global_idx) {
   CHECK_GE(global_idx, int64_t(0));
-  for (int64_t frag_id = frag_offsets.size() - 1; frag_id > 0; --frag_id) {
+  for (int64_t frag_id = frag_offsets.size() - 1; frag_id >= 0; --frag_id) {
     CHECK_LT(tab_or_col_idx, frag_offsets[frag_id].size());
     const auto frag_off = static_cast<int64_t>(frag_offsets[frag_id][tab_or_col_idx]);
-    if (frag_off < global_idx) {
+    if (frag_off <= global_idx) {
       return {frag_id, global_idx - frag_off};
     }
   }
-- 
2.43.0


From afde2e7b2528cb2c291afe0602946e2a972c6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:16 +0000
Subject: [PATCH 51/95] fix: sort by the fetched row's string, not by the
 result entry's

The lazily fetched string was looked up by the entry's position in the
result instead of the row id stored in the entry.
---
 omniscidb/ResultSet/ResultSetIteration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index b45079a..9d7795c 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -641,7 +641,7 @@ int64_t ResultSet::lazyReadInt(const int64_t ival,
         bool is_end{false};
         ChunkIter_get_nth(
             reinterpret_cast<ChunkIter*>(const_cast<int8_t*>(frag_col_buffer)),
-            storage_lookup_result.fixedup_entry_idx,
+            ival_copy,
             false,
             &vd,
             &is_end);
-- 
2.43.0


From 1a5612bfe28e2be7fcb503a8d76e2662e7466839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:10 +0000
Subject: [PATCH 52/95] fix: find group keys in the column layout of their own
 storage

Key columns of results with appended storages were looked up with the
number of entries of all storages together.
---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 9d7795c..338f016 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -548,7 +548,7 @@ InternalTargetValue ResultSet::ColumnWiseTargetAccessor::getColumnInternal(
       ptr1 =
           buff + result_set_->query_mem_desc_.getTargetGroupbyIndex(target_logical_idx) *
                      result_set_->query_mem_desc_.getEffectiveKeyWidth() *
-                     result_set_->query_mem_desc_.entry_count_;
+                     storage_lookup_result.storage_ptr->query_mem_desc_.entry_count_;
     }
   }
 
@@ -1470,7 +1470,7 @@ TargetValue ResultSet::getTargetValueFromBufferColwise(
   const auto key_width = query_mem_desc_.getEffectiveKeyWidth();
   const auto key_idx = query_mem_desc_.getTargetGroupbyIndex(target_logical_idx);
   CHECK_GE(key_idx, 0);
-  auto key_col_ptr = keys_ptr + key_idx * query_mem_desc_.getEntryCount() * key_width;
+  auto key_col_ptr = keys_ptr + key_idx * query_mem_desc.getEntryCount() * key_width;
   return makeTargetValue(columnar_elem_ptr(local_entry_idx, key_col_ptr, key_width),
                          key_width,
                          target_info,
-- 
2.43.0


From 53048eac2c6f9bf20a01e0537cf4f3ef75a12adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:52 +0000
Subject: [PATCH 53/95] fix: sort columnar results by the value of a quantile

The column-wise accessor returned the address of the quantile object, so
the order of the rows was arbitrary.
---
 omniscidb/ResultSet/ResultSetIteration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 338f016..4826ede 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -565,6 +565,9 @@ InternalTargetValue ResultSet::ColumnWiseTargetAccessor::getColumnInternal(
             entry_idx, offsets_for_target.ptr2, offsets_for_target.compact_sz2),
         offsets_for_target.compact_sz2);
     return InternalTargetValue(i1, i2);
+  } else if (agg_info.is_agg && agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
+    auto* quantile = reinterpret_cast<hdk::quantile::Quantile*>(i1);
+    return getQuantileInternal(quantile, agg_info);
   } else {
     // for TEXT ENCODING NONE:
     if (type->isString()) {
-- 
2.43.0


From b26facfea5371b83850ea851d12a172a9c59b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 54/95] fix: apply limit and offset once when aggregates are
 finalized

The rows counted by the iterator are the ones left after limit and offset,
and the row count was then reduced by the offset again.
---
 omniscidb/ResultSet/ResultSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index 300c087..0ab36b9 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -1323,7 +1323,8 @@ void ResultSet::finalizeAggregates() {
         std::plus<size_t>());  // end iteration by storage
   }
 
-  setCachedRowCount(get_truncated_row_count(row_count, getLimit(), drop_first_));
+  // Limit and offset are already applied by the row iterator.
+  setCachedRowCount(row_count);
 }
 
 // namespace result_set
-- 
2.43.0


From eb2801841129c88a0ba831214a3a3bf3531d94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:26 +0000
Subject: [PATCH 55/95] fix: don't duplicate order keys of a window function on
 repeated orderBy calls

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index bdf2b45..f16fc1a 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -1808,7 +1808,7 @@ BuilderExpr BuilderExpr::orderBy(const std::vector<BuilderOrderByKey>& keys) con
     }
   }
 
-  ExprPtrVector new_order_keys = wnd_fn->orderKeys();
+  ExprPtrVector new_order_keys;
   new_order_keys.reserve(wnd_fn->orderKeys().size() + keys.size());
   new_order_keys.insert(
       new_order_keys.end(), wnd_fn->orderKeys().begin(), wnd_fn->orderKeys().end());
-- 
2.43.0


From d2b7bf07b8fe4781beebcf12364c66b28f6183d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:26 +0000
Subject: [PATCH 56/95] fix: right side columns of a left join are nullable

---
 omniscidb/IR/Node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index ea9dd75..38f9cbf 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -551,7 +551,9 @@ const Type* getColumnType(const Node* node, size_t col_idx) {
     if (col_idx < join->getInput(0)->size()) {
       return getColumnType(join->getInput(0), col_idx);
     } else {
-      return getColumnType(join->getInput(1), col_idx - join->getInput(0)->size());
+      auto type = getColumnType(join->getInput(1), col_idx - join->getInput(0)->size());
+      // Rows with no match get NULLs in the right side columns.
+      return join->getJoinType() == JoinType::LEFT ? type->withNullable(true) : type;
     }
   }
 
-- 
2.43.0


From a41485d5ae5985fea79fb5df06ff817ef90f6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 57/95] fix: lag and lead of a non-nullable expression are
 nullable

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index f16fc1a..2a155d0 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -672,7 +672,7 @@ BuilderExpr BuilderExpr::corr(const BuilderExpr& arg) const {
 }
 
 BuilderExpr BuilderExpr::lag(int n) const {
-  ExprPtr expr{new WindowFunction(expr_->type(),
+  ExprPtr expr{new WindowFunction(expr_->type()->withNullable(true),
                                   WindowFunctionKind::Lag,
                                   {expr_, builder_->cst(n).expr()},
                                   {},
@@ -683,7 +683,7 @@ BuilderExpr BuilderExpr::lag(int n) const {
 }
 
 BuilderExpr BuilderExpr::lead(int n) const {
-  ExprPtr expr{new WindowFunction(expr_->type(),
+  ExprPtr expr{new WindowFunction(expr_->type()->withNullable(true),
                                   WindowFunctionKind::Lead,
                                   {expr_, builder_->cst(n).expr()},
                                   {},
-- 
2.43.0


From c34d84e113b94c1b5c8490a87acc93ffa7da59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 58/95] fix: keep the case of column names in aggregate strings

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index 2a155d0..687acc2 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -2118,17 +2118,19 @@ BuilderNode BuilderNode::filter(const BuilderExpr& condition) const {
 }
 
 BuilderExpr BuilderNode::parseAggString(const std::string& agg_str) const {
-  auto agg_str_lower = boost::trim_copy(boost::algorithm::to_lower_copy(agg_str));
-  if (agg_str_lower == "count") {
+  // Aggregate names are case insensitive, column names are not.
+  auto agg_str_trimmed = boost::trim_copy(agg_str);
+  if (boost::algorithm::to_lower_copy(agg_str_trimmed) == "count") {
     return count();
   }
 
   // Parse string like <agg_name>(<col_name>[, <agg_param>]).
-  auto pos = agg_str_lower.find('(');
-  if (agg_str_lower.back() == ')' && pos != std::string::npos) {
-    auto agg_name = boost::trim_copy(agg_str_lower.substr(0, pos));
-    auto col_name =
-        boost::trim_copy(agg_str_lower.substr(pos + 1, agg_str_lower.size() - pos - 2));
+  auto pos = agg_str_trimmed.find('(');
+  if (pos != std::string::npos && agg_str_trimmed.back() == ')') {
+    auto agg_name =
+        boost::trim_copy(boost::algorithm::to_lower_copy(agg_str_trimmed.substr(0, pos)));
+    auto col_name = boost::trim_copy(
+        agg_str_trimmed.substr(pos + 1, agg_str_trimmed.size() - pos - 2));
 
     if (agg_name == "count" && (col_name.empty() || col_name == "1" || col_name == "*")) {
       return count();
-- 
2.43.0


From 3e2dd1d7af50d1fafa9ada8bc10814a556fd8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 59/95] fix: drop chains of dead sorts from inputs to users

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index b56521b..790a3ed 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -76,10 +76,10 @@ void dropDeadSorts(QueryDag& dag) {
     }
   }
 
-  // Remove sorts with no valid users.
-  for (auto& pr : valid_sort_users) {
-    if (pr.second.empty()) {
-      auto sort = pr.first;
+  // Remove sorts with no valid users. Go from inputs to users so that users of a chain of
+  // dropped sorts are linked to the chain's input.
+  for (auto& sort : nodes) {
+    if (valid_sort_users.count(sort) && valid_sort_users.at(sort).empty()) {
       for (auto user : all_sort_users.at(sort)) {
         user->replaceInput(sort, sort->getAndOwnInput(0));
       }
-- 
2.43.0


From 5728a11f9cec25b53de02cfb68ffa016504942fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:15 +0000
Subject: [PATCH 60/95] fix: use the real input of a window projection when a
 pre-project is added

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 790a3ed..0fb60eb 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -488,8 +488,8 @@ void addWindowFunctionPreProject(
       continue;
     }
 
-    const auto prev_node_itr = std::prev(node_itr);
-    const auto prev_node = *prev_node_itr;
+    // The input doesn't have to be the previous node in the list.
+    const auto prev_node = window_func_project_node->getAndOwnInput(0);
     CHECK(prev_node);
 
     auto filter_node = std::dynamic_pointer_cast<hdk::ir::Filter>(prev_node);
-- 
2.43.0


From e105665c9573993209cab35b1f29a9368bd00447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:12 +0000
Subject: [PATCH 61/95] fix: don't drop a sort when a join already uses its
 input

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 0fb60eb..2e1e5f6 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -80,8 +80,17 @@ void dropDeadSorts(QueryDag& dag) {
   // dropped sorts are linked to the chain's input.
   for (auto& sort : nodes) {
     if (valid_sort_users.count(sort) && valid_sort_users.at(sort).empty()) {
-      for (auto user : all_sort_users.at(sort)) {
-        user->replaceInput(sort, sort->getAndOwnInput(0));
+      auto input = sort->getAndOwnInput(0);
+      auto& users = all_sort_users.at(sort);
+      // References to the inputs of a join would become ambiguous if a sort was replaced
+      // with a node the join already uses.
+      if (std::any_of(users.begin(), users.end(), [&input](const Node* user) {
+            return user->hasInput(input.get());
+          })) {
+        continue;
+      }
+      for (auto user : users) {
+        user->replaceInput(sort, input);
       }
       node_list.erase(sorts.at(sort));
     }
-- 
2.43.0


From 0ebdb6309118cb901942b9a6997a91e8269f5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 62/95] fix: negation of a NULL literal is NULL

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index 687acc2..1a0bc46 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -1024,6 +1024,9 @@ BuilderExpr BuilderExpr::logicalNot() const {
     throw InvalidQueryError("Only boolean expressions are allowed for NOT operation.");
   }
   if (expr_->is<Constant>()) {
+    if (expr_->as<Constant>()->isNull()) {
+      return builder_->nullCst(expr_->type());
+    }
     return builder_->cst(!expr_->as<Constant>()->intVal(), expr_->type());
   }
   auto uoper = makeExpr<UOper>(builder_->ctx_.boolean(expr_->type()->nullable()),
@@ -1039,7 +1042,9 @@ BuilderExpr BuilderExpr::uminus() const {
   }
   if (expr_->is<Constant>()) {
     auto cst_expr = expr_->as<Constant>();
-    if (cst_expr->type()->isInteger()) {
+    if (cst_expr->isNull()) {
+      return builder_->nullCst(cst_expr->type());
+    } else if (cst_expr->type()->isInteger()) {
       return builder_->cst(-cst_expr->intVal(), cst_expr->type());
     } else if (cst_expr->type()->isFloatingPoint()) {
       return builder_->cst(-cst_expr->fpVal(), cst_expr->type());
-- 
2.43.0


From 15c73b6fc8b78daee9b8331ff6b7403618e4c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 63/95] fix: don't turn count(distinct) into a plain count in
 OVER

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index 1a0bc46..303b420 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -413,6 +413,10 @@ std::shared_ptr<const WindowFunction> checkOrGetWindowFn(ExprPtr expr) {
   if (auto agg = expr->as<AggExpr>()) {
     switch (agg->aggType()) {
       case AggType::kCount:
+        if (agg->isDistinct()) {
+          // Distinct count is not supported as a window function.
+          break;
+        }
         if (agg->arg()) {
           return std::shared_ptr<const WindowFunction>(new WindowFunction(
               agg->type(), WindowFunctionKind::Count, {agg->argShared()}, {}, {}, {}));
-- 
2.43.0


From ad25ccb68e1f51d89b639771b84d851a97861fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:43 +0000
Subject: [PATCH 64/95] fix: round doubles when decimal literals are made

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index 303b420..b536f26 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -12,6 +12,7 @@
 #include "Shared/SqlTypesLayout.h"
 
 #include <boost/algorithm/string.hpp>
+#include <cmath>
 #include <numeric>
 
 namespace hdk::ir {
@@ -3047,8 +3048,8 @@ BuilderExpr QueryBuilder::cst(double val, const Type* type) const {
   } else if (type->isFp64()) {
     d.doubleval = val;
   } else if (type->isDecimal()) {
-    d.bigintval =
-        static_cast<int64_t>(val * exp_to_scale(type->as<DecimalType>()->scale()));
+    d.bigintval = static_cast<int64_t>(
+        std::round(val * exp_to_scale(type->as<DecimalType>()->scale())));
   } else {
     throw InvalidQueryError() << "Cannot create a literal from a double value for type: "
                               << type->toString();
-- 
2.43.0


From 650e030b7ee80b5b1b1413f036207693a0c63c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:16 +0000
Subject: [PATCH 65/95] fix: don't modify pattern constants when LIKE and
 REGEXP are analyzed

---
 omniscidb/Analyzer/Analyzer.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index 01ed6d4..79b484c 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -816,7 +816,8 @@ hdk::ir::ExprPtr getLikeExpr(hdk::ir::ExprPtr arg_expr,
   auto c = like_expr->as<hdk::ir::Constant>();
   bool is_simple = false;
   if (c != nullptr) {
-    std::string& pattern = *c->value().stringval;
+    // The constant might be shared with other expressions, so make a copy to modify.
+    std::string pattern = *c->value().stringval;
     if (is_ilike) {
       std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
     }
@@ -825,6 +826,10 @@ hdk::ir::ExprPtr getLikeExpr(hdk::ir::ExprPtr arg_expr,
     if (is_simple) {
       erase_cntl_chars(pattern, escape_char);
     }
+    Datum pattern_datum;
+    pattern_datum.stringval = new std::string(std::move(pattern));
+    like_expr = hdk::ir::makeExpr<hdk::ir::Constant>(
+        c->type(), false, pattern_datum, c->cacheable());
   }
   hdk::ir::ExprPtr result = hdk::ir::makeExpr<hdk::ir::LikeExpr>(
       arg_expr->decompress(), like_expr, escape_expr, is_ilike, is_simple);
@@ -866,9 +871,14 @@ hdk::ir::ExprPtr getRegexpExpr(hdk::ir::ExprPtr arg_expr,
   }
   auto c = pattern_expr->as<hdk::ir::Constant>();
   if (c != nullptr) {
-    std::string& pattern = *c->value().stringval;
+    // The constant might be shared with other expressions, so make a copy to modify.
+    std::string pattern = *c->value().stringval;
     if (translate_to_like_pattern(pattern, escape_char)) {
-      return getLikeExpr(arg_expr, pattern_expr, escape_expr, false, is_not);
+      Datum pattern_datum;
+      pattern_datum.stringval = new std::string(std::move(pattern));
+      auto like_expr = hdk::ir::makeExpr<hdk::ir::Constant>(
+          c->type(), false, pattern_datum, c->cacheable());
+      return getLikeExpr(arg_expr, like_expr, escape_expr, false, is_not);
     }
   }
   hdk::ir::ExprPtr result = hdk::ir::makeExpr<hdk::ir::RegexpExpr>(
-- 
2.43.0


From 885cf60d8e74dbe3c39602080fdba8a4b16dde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:16 +0000
Subject: [PATCH 66/95] fix: track escaped escape characters in LIKE patterns

---
 omniscidb/Analyzer/Analyzer.cpp | 39 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index 79b484c..a052641 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -47,7 +47,11 @@ bool expr_is_null(const hdk::ir::Expr* expr) {
 }
 
 void check_like_expr(const std::string& like_str, char escape_char) {
-  if (like_str.back() == escape_char) {
+  bool escaped = false;
+  for (char cur_char : like_str) {
+    escaped = !escaped && cur_char == escape_char;
+  }
+  if (escaped) {
     throw std::runtime_error("LIKE pattern must not end with escape character.");
   }
 }
@@ -88,36 +92,33 @@ bool test_is_simple_expr(const std::string& like_str, char escape_char) {
   if (like_str.size() < 2 || like_str[0] != '%' || like_str[like_str.size() - 1] != '%') {
     return false;
   }
-  // if the last '%' is escaped then not a simple string
-  if (like_str[like_str.size() - 2] == escape_char &&
-      like_str[like_str.size() - 3] != escape_char) {
-    return false;
-  }
+  bool escaped = false;
   for (size_t i = 1; i < like_str.size() - 1; i++) {
-    if (like_str[i] == '%' || like_str[i] == '_' || like_str[i] == '[' ||
-        like_str[i] == ']') {
-      if (like_str[i - 1] != escape_char) {
-        return false;
-      }
+    if (escaped) {
+      escaped = false;
+    } else if (like_str[i] == escape_char) {
+      escaped = true;
+    } else if (like_str[i] == '%' || like_str[i] == '_' || like_str[i] == '[' ||
+               like_str[i] == ']') {
+      return false;
     }
   }
-  return true;
+  // if the last '%' is escaped then not a simple string
+  return !escaped;
 }
 void erase_cntl_chars(std::string& like_str, char escape_char) {
-  char prev_char = '\0';
+  bool escaped = false;
   // easier to create new string of allowable chars
   // rather than erase chars from
   // existing string
   std::string new_str;
   for (char& cur_char : like_str) {
-    if (cur_char == '%' || cur_char == escape_char) {
-      if (prev_char != escape_char) {
-        prev_char = cur_char;
-        continue;
-      }
+    if (!escaped && (cur_char == '%' || cur_char == escape_char)) {
+      escaped = cur_char == escape_char;
+      continue;
     }
     new_str.push_back(cur_char);
-    prev_char = cur_char;
+    escaped = false;
   }
   like_str = new_str;
 }
-- 
2.43.0


From 02d87b602f6b108f3d90af679e976a943cb279f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:16 +0000
Subject: [PATCH 67/95] fix: LIKE and REGEXP with a NULL pattern are NULL

---
 omniscidb/Analyzer/Analyzer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index a052641..d4e8894 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -815,6 +815,9 @@ hdk::ir::ExprPtr getLikeExpr(hdk::ir::ExprPtr arg_expr,
     escape_char = (*c->value().stringval)[0];
   }
   auto c = like_expr->as<hdk::ir::Constant>();
+  if (c != nullptr && c->isNull()) {
+    return hdk::ir::makeExpr<hdk::ir::Constant>(arg_expr->ctx().boolean(), true, Datum{0});
+  }
   bool is_simple = false;
   if (c != nullptr) {
     // The constant might be shared with other expressions, so make a copy to modify.
@@ -871,6 +874,9 @@ hdk::ir::ExprPtr getRegexpExpr(hdk::ir::ExprPtr arg_expr,
     }
   }
   auto c = pattern_expr->as<hdk::ir::Constant>();
+  if (c != nullptr && c->isNull()) {
+    return hdk::ir::makeExpr<hdk::ir::Constant>(arg_expr->ctx().boolean(), true, Datum{0});
+  }
   if (c != nullptr) {
     // The constant might be shared with other expressions, so make a copy to modify.
     std::string pattern = *c->value().stringval;
-- 
2.43.0


From 9b5c1db411799b1add91cbd5b58b9ce6b84aab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:50 +0000
Subject: [PATCH 68/95] fix: handle decreasing measurements in cost model
 extrapolation

---
 .../CostModel/ExtrapolationModels/LinearExtrapolation.cpp  | 7 ++++---
 .../CostModel/ExtrapolationModels/LinearRegression.cpp     | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
index db52329..9e7b2d5 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
@@ -40,10 +40,11 @@ size_t LinearExtrapolation::getExtrapolatedData(size_t bytes) const {
     id1 = id2 - 1;
   }
 
-  size_t y1 = measurement_[id1].milliseconds, y2 = measurement_[id2].milliseconds;
-  size_t x1 = measurement_[id1].bytes, x2 = measurement_[id2].bytes;
+  // Time can decrease with size, so differences have to be signed.
+  double y1 = measurement_[id1].milliseconds, y2 = measurement_[id2].milliseconds;
+  double x1 = measurement_[id1].bytes, x2 = measurement_[id2].bytes;
 
-  return y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1);
+  return std::max(0.0, y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1));
 }
 
 }  // namespace costmodel
diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
index 8d1e1ed..fb1977e 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
@@ -12,6 +12,7 @@
 */
 
 #include "LinearRegression.h"
+#include <algorithm>
 #include <armadillo>
 
 namespace costmodel {
@@ -37,7 +38,7 @@ LinearRegression::~LinearRegression() = default;
 
 size_t LinearRegression::getExtrapolatedData(size_t bytes) const {
   arma::vec x = {1.0, static_cast<double>(bytes)};
-  return static_cast<size_t>(arma::dot(x, pimpl_->weights));
+  return static_cast<size_t>(std::max(0.0, arma::dot(x, pimpl_->weights)));
 }
 
 void LinearRegression::buildRegressionCoefficients() {
-- 
2.43.0


From e9c93f2bc9ca57d2f71c2d8d990dd79f94253561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 69/95] fix: don't overflow in proportions of heterogeneous
 execution

---
 .../Dispatchers/ProportionBasedExecutionPolicy.cpp          | 6 +++---
 .../CostModel/Dispatchers/ProportionBasedExecutionPolicy.h  | 2 +-
 omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp      | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
index 14a98d9..2b8dc47 100644
--- a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
+++ b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
@@ -25,10 +25,10 @@ ProportionBasedExecutionPolicy::ProportionBasedExecutionPolicy(
   CHECK_GT(proportion.size(), 0u);
   proportion_.merge(proportion);
   total_parts_ = std::accumulate(
-      proportion_.begin(), proportion_.end(), 0u, [](unsigned acc, auto& cur) {
+      proportion_.begin(), proportion_.end(), size_t(0), [](size_t acc, auto& cur) {
         return acc + cur.second;
       });
-  if (total_parts_ == 0u) {
+  if (total_parts_ == 0) {
     throw std::runtime_error(
         "Invalid proportion based execution policy. At least one portion must be greater "
         "than zero.");
@@ -39,7 +39,7 @@ SchedulingAssignment ProportionBasedExecutionPolicy::scheduleSingleFragment(
     const FragmentInfo& fragment,
     size_t frag_id,
     size_t frag_num) const {
-  unsigned scheduled_portion = 0;
+  size_t scheduled_portion = 0;
   for (auto& [device_type, portion] : proportion_) {
     if (frag_id * total_parts_ < (portion + scheduled_portion) * frag_num) {
       auto memory_level = device_type == ExecutorDeviceType::GPU
diff --git a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
index 13d2a2c..a4b9f4d 100644
--- a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
+++ b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
@@ -35,6 +35,6 @@ class ProportionBasedExecutionPolicy : public ExecutionPolicy {
 
  private:
   std::map<ExecutorDeviceType, unsigned> proportion_;
-  unsigned total_parts_;
+  size_t total_parts_;
 };
 }  // namespace policy
diff --git a/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp b/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
index 6429e42..bc3dabb 100644
--- a/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
+++ b/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
@@ -66,8 +66,10 @@ std::unique_ptr<policy::ExecutionPolicy> IterativeCostModel::predict(
     if (cur_prediction < runtime_prediction) {
       runtime_prediction = cur_prediction;
 
-      cpu_prop = cpu_size;
-      gpu_prop = gpu_size;
+      // Sizes can exceed the range of proportions.
+      size_t scale = query_info.bytes_size / std::numeric_limits<unsigned>::max() + 1;
+      cpu_prop = cpu_size / scale;
+      gpu_prop = gpu_size / scale;
     }
   }
 
-- 
2.43.0


From 82ddd1b5e0370256d30279b534306ebe5a805d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:21 +0000
Subject: [PATCH 70/95] fix: keep the cost model setting when command line
 options are parsed

---
 omniscidb/ConfigBuilder/ConfigBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ConfigBuilder/ConfigBuilder.cpp b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
index 3bf6b9c..eaebe13 100644
--- a/omniscidb/ConfigBuilder/ConfigBuilder.cpp
+++ b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
@@ -409,7 +409,8 @@ bool ConfigBuilder::parseCommandLineArgs(int argc,
 
   opt_desc.add_options()(
       "use-cost-model",
-      po::value<bool>(&config_->exec.enable_cost_model)->default_value(false),
+      po::value<bool>(&config_->exec.enable_cost_model)
+                             ->default_value(config_->exec.enable_cost_model),
       "Use Cost Model for query execution when it is possible.");
 
   // opts.filter_pushdown
-- 
2.43.0


From d38ddf888a11dee1debfe03ae00471b5694b65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:21 +0000
Subject: [PATCH 71/95] fix: release statements and roll back transactions on
 sqlite errors

---
 omniscidb/SqliteConnector/SqliteConnector.cpp | 67 ++++++++++++-------
 omniscidb/SqliteConnector/SqliteConnector.h   |  3 +
 2 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/omniscidb/SqliteConnector/SqliteConnector.cpp b/omniscidb/SqliteConnector/SqliteConnector.cpp
index 66c8173..72f5f8f 100644
--- a/omniscidb/SqliteConnector/SqliteConnector.cpp
+++ b/omniscidb/SqliteConnector/SqliteConnector.cpp
@@ -23,6 +23,7 @@
 #include "SqliteConnector.h"
 
 #include <iostream>
+#include <memory>
 
 #include "Logger/Logger.h"
 
@@ -31,6 +32,13 @@ using std::endl;
 using std::runtime_error;
 using std::string;
 
+namespace {
+
+// Finalizes a statement when it goes out of scope, errors included.
+using StmtPtr = std::unique_ptr<sqlite3_stmt, decltype(&sqlite3_finalize)>;
+
+}  // namespace
+
 SqliteConnector::SqliteConnector(const string& dbName, const string& dir)
     : dbName_(dbName) {
   string connectString(dir);
@@ -87,6 +95,8 @@ void SqliteConnector::query_with_text_params(const std::string& queryString,
     throwError();
   }
 
+  StmtPtr stmt_ptr(stmt, sqlite3_finalize);
+
   int num_params = 1;
   for (auto text_param : text_params) {
     if (!bind_types.empty() && bind_types[num_params - 1] == BindType::BLOB) {
@@ -131,8 +141,6 @@ void SqliteConnector::query_with_text_params(const std::string& queryString,
       results_[c].emplace_back(NullableResult{col_text, is_null});
     }
   } while (1 == 1);  // Loop control in break statement above
-
-  sqlite3_finalize(stmt);
 }
 
 void SqliteConnector::query_with_text_params(
@@ -150,33 +158,17 @@ void SqliteConnector::query(const std::string& queryString) {
   query_with_text_params(queryString, std::vector<std::string>{});
 }
 
-void SqliteConnector::batch_insert(const std::string& table_name,
-                                   std::vector<std::vector<std::string>>& insert_vals) {
-  const size_t num_rows = insert_vals.size();
-  if (!num_rows) {
-    return;
-  }
-  const size_t num_cols(insert_vals[0].size());
-  if (!num_cols) {
-    return;
-  }
-  std::string paramertized_query = "INSERT INTO " + table_name + " VALUES(";
-  for (size_t col_idx = 0; col_idx < num_cols - 1; ++col_idx) {
-    paramertized_query += "?, ";
-  }
-  paramertized_query += "?)";
-
-  query("BEGIN TRANSACTION");
-
+void SqliteConnector::insertRows(
+    const std::string& query_string,
+    const std::vector<std::vector<std::string>>& insert_vals) {
   sqlite3_stmt* stmt;
-  int returnCode =
-      sqlite3_prepare_v2(db_, paramertized_query.c_str(), -1, &stmt, nullptr);
+  int returnCode = sqlite3_prepare_v2(db_, query_string.c_str(), -1, &stmt, nullptr);
   if (returnCode != SQLITE_OK) {
     throwError();
   }
+  StmtPtr stmt_ptr(stmt, sqlite3_finalize);
 
-  for (size_t r = 0; r < num_rows; ++r) {
-    const auto& row_insert_vals = insert_vals[r];
+  for (const auto& row_insert_vals : insert_vals) {
     int num_params = 1;
     for (const auto& insert_field : row_insert_vals) {
       returnCode = sqlite3_bind_text(stmt,
@@ -194,6 +186,31 @@ void SqliteConnector::batch_insert(const std::string& table_name,
     }
     sqlite3_reset(stmt);
   }
-  sqlite3_finalize(stmt);
+}
+
+void SqliteConnector::batch_insert(const std::string& table_name,
+                                   std::vector<std::vector<std::string>>& insert_vals) {
+  const size_t num_rows = insert_vals.size();
+  if (!num_rows) {
+    return;
+  }
+  const size_t num_cols(insert_vals[0].size());
+  if (!num_cols) {
+    return;
+  }
+  std::string paramertized_query = "INSERT INTO " + table_name + " VALUES(";
+  for (size_t col_idx = 0; col_idx < num_cols - 1; ++col_idx) {
+    paramertized_query += "?, ";
+  }
+  paramertized_query += "?)";
+
+  query("BEGIN TRANSACTION");
+
+  try {
+    insertRows(paramertized_query, insert_vals);
+  } catch (...) {
+    query("ROLLBACK TRANSACTION");
+    throw;
+  }
   query("END TRANSACTION");
 }
diff --git a/omniscidb/SqliteConnector/SqliteConnector.h b/omniscidb/SqliteConnector/SqliteConnector.h
index 7dcfa2e..1a7cd16 100644
--- a/omniscidb/SqliteConnector/SqliteConnector.h
+++ b/omniscidb/SqliteConnector/SqliteConnector.h
@@ -90,6 +90,9 @@ class SqliteConnector {
 
   void throwError();
 
+  void insertRows(const std::string& query_string,
+                  const std::vector<std::vector<std::string>>& insert_vals);
+
   sqlite3* db_;
   std::string dbName_;
   bool atFirstResult_;
-- 
2.43.0


From 268da06c25f24c72278a74e217ba4c29b4eedd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 72/95] fix: list the nodes and set the current time in a DAG
 made from its root

---
 omniscidb/IR/Node.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index 38f9cbf..8d19da8 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -387,9 +387,14 @@ void Shuffle::rewriteExprs(hdk::ir::ExprRewriter& rewriter) {
 
 namespace {
 
-void collectNodes(NodePtr node, std::vector<NodePtr> nodes) {
+void collectNodes(NodePtr node,
+                  std::vector<NodePtr>& nodes,
+                  std::unordered_set<const Node*>& visited) {
+  if (!visited.insert(node.get()).second) {
+    return;
+  }
   for (size_t i = 0; i < node->inputCount(); ++i) {
-    collectNodes(std::const_pointer_cast<Node>(node->getAndOwnInput(i)), nodes);
+    collectNodes(node->getAndOwnInput(i), nodes, visited);
   }
   nodes.push_back(node);
 }
@@ -397,7 +402,9 @@ void collectNodes(NodePtr node, std::vector<NodePtr> nodes) {
 }  // namespace
 
 QueryDag::QueryDag(ConfigPtr config, NodePtr root) : config_(config), root_(root) {
-  collectNodes(root_, nodes_);
+  time(&now_);
+  std::unordered_set<const Node*> visited;
+  collectNodes(root_, nodes_, visited);
 }
 
 void QueryDag::eachNode(std::function<void(Node const*)> const& callback) const {
-- 
2.43.0


From f4588ac0cbee2e168061ab90ea5fc2da89b10eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 73/95] fix: copy the partitioned flag and buffer hint of an
 aggregate

---
 omniscidb/IR/Node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index 8d19da8..24df60a 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -192,7 +192,9 @@ Aggregate::Aggregate(Aggregate const& rhs)
     : Node(rhs)
     , groupby_count_(rhs.groupby_count_)
     , aggs_(rhs.aggs_)
-    , fields_(rhs.fields_) {}
+    , fields_(rhs.fields_)
+    , partitioned_(rhs.partitioned_)
+    , buffer_entry_count_hint_(rhs.buffer_entry_count_hint_) {}
 
 void Aggregate::rewriteExprs(hdk::ir::ExprRewriter& rewriter) {
   for (size_t i = 0; i < aggs_.size(); ++i) {
-- 
2.43.0


From b26a98cfdd976f8a5a7584fe30e58605bcff3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 74/95] fix: tell plan nodes with different inputs, databases
 or values apart by hash

---
 omniscidb/IR/Node.cpp | 3 +++
 omniscidb/IR/Node.h   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index 24df60a..f62b537 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -269,6 +269,9 @@ size_t LogicalUnion::toHash() const {
   if (!hash_) {
     hash_ = typeid(LogicalUnion).hash_code();
     boost::hash_combine(*hash_, is_all_);
+    for (auto& node : inputs_) {
+      boost::hash_combine(*hash_, node->toHash());
+    }
   }
   return *hash_;
 }
diff --git a/omniscidb/IR/Node.h b/omniscidb/IR/Node.h
index b1331b3..d74cf1f 100644
--- a/omniscidb/IR/Node.h
+++ b/omniscidb/IR/Node.h
@@ -269,6 +269,7 @@ class Scan : public Node {
   size_t toHash() const override {
     if (!hash_) {
       hash_ = typeid(Scan).hash_code();
+      boost::hash_combine(*hash_, table_info_->db_id);
       boost::hash_combine(*hash_, table_info_->table_id);
       boost::hash_combine(*hash_, table_info_->name);
       for (auto& info : column_infos_) {
@@ -356,6 +357,9 @@ class Project : public Node {
       for (auto& expr : exprs_) {
         boost::hash_combine(*hash_, expr->hash());
       }
+      for (auto& node : inputs_) {
+        boost::hash_combine(*hash_, node->toHash());
+      }
       boost::hash_combine(*hash_, ::toString(fields_));
     }
     return *hash_;
@@ -808,6 +812,11 @@ class LogicalValues : public Node {
         boost::hash_combine(*hash_, target_meta_info.get_resname());
         boost::hash_combine(*hash_, target_meta_info.type()->toString());
       }
+      for (auto& row : values_) {
+        for (auto& expr : row) {
+          boost::hash_combine(*hash_, expr->hash());
+        }
+      }
     }
     return *hash_;
   }
-- 
2.43.0


From d3f9658a40d7686b66e8bc6c51be50ddd4e36427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:15 +0000
Subject: [PATCH 75/95] fix: execute nodes shared with an earlier query again

---
 omniscidb/IR/Node.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/IR/Node.h b/omniscidb/IR/Node.h
index d74cf1f..b213d0e 100644
--- a/omniscidb/IR/Node.h
+++ b/omniscidb/IR/Node.h
@@ -89,6 +89,7 @@ class Node {
   void resetQueryExecutionState() {
     context_data_ = nullptr;
     targets_metainfo_ = {};
+    result_ = nullptr;
   }
 
   void setContextData(const RaExecutionDesc* context_data) const {
-- 
2.43.0


From 68a15d74aaa5f38adadacfee80c798f2c66ea157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 76/95] fix: projection of an aggregate without keys

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 2884b86..9a4abd0 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -484,7 +484,8 @@ void WorkUnitBuilder::processProject(const ir::Project* proj) {
     input_rewriter_.addReplacement(proj, i, new_target_exprs[i]);
   }
   target_exprs_[rte_idx] = std::move(new_target_exprs);
-  if (groupby_exprs_.empty()) {
+  // Projected results of an aggregation without keys are still aggregates.
+  if (groupby_exprs_.empty() && !is_agg_) {
     groupby_exprs_.push_back(nullptr);
   }
 }
-- 
2.43.0


From d561215643bd1f4374854fd3a4d5a32f301470de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:43 +0000
Subject: [PATCH 77/95] fix: don't merge a sort into the following one

---
 omniscidb/QueryEngine/QueryExecutionSequence.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/QueryExecutionSequence.cpp b/omniscidb/QueryEngine/QueryExecutionSequence.cpp
index fe84f64..05abd53 100644
--- a/omniscidb/QueryEngine/QueryExecutionSequence.cpp
+++ b/omniscidb/QueryEngine/QueryExecutionSequence.cpp
@@ -241,7 +241,9 @@ class QueryExecutionSequenceImpl {
     for (auto node : execution_points_) {
       if (node->is<ir::Sort>()) {
         auto input = node->getInput(0);
-        if (boost::in_degree(node_to_vertex_[input], graph_) == 1) {
+        // A sort has its own limit and offset and cannot be merged with another one.
+        if (!input->is<ir::Sort>() &&
+            boost::in_degree(node_to_vertex_[input], graph_) == 1) {
           to_merge.push_back(input);
         }
       }
-- 
2.43.0


From e550e8e2a2c6bd4675b0374090b37c27a96663dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:21 +0000
Subject: [PATCH 78/95] fix: sort of an already executed node

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 9a4abd0..1f9c7bd 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -541,6 +541,10 @@ void WorkUnitBuilder::processFilter(const ir::Filter* filter) {
 }
 
 void WorkUnitBuilder::processSort(const ir::Sort* sort) {
+  // Sort of an already executed node.
+  if (groupby_exprs_.empty() && !is_agg_) {
+    groupby_exprs_.push_back(nullptr);
+  }
   sort_info_.algorithm =
       allow_speculative_sort_ ? SortAlgorithm::SpeculativeTopN : SortAlgorithm::Default;
   if (groupby_exprs_.size() == (size_t)1 && !groupby_exprs_.front()) {
-- 
2.43.0


From fce34519b0514e684e7e5486755bc6441ea5f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:47 +0000
Subject: [PATCH 79/95] fix: casts of the sides of multi-column join conditions

Conditions of multi-column equi joins lose the casts of their sides and get
them back when the condition is compiled, as the comment there says. That
normalization was asked for without an executor though, which adds no casts,
so comparing columns of different integer types produced invalid code.
---
 omniscidb/QueryEngine/CompareIR.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/omniscidb/QueryEngine/CompareIR.cpp b/omniscidb/QueryEngine/CompareIR.cpp
index 481ec1f..2a3a041 100644
--- a/omniscidb/QueryEngine/CompareIR.cpp
+++ b/omniscidb/QueryEngine/CompareIR.cpp
@@ -143,12 +143,14 @@ std::shared_ptr<const hdk::ir::BinOper> lower_bw_eq(const hdk::ir::BinOper* bw_e
 
 std::shared_ptr<const hdk::ir::BinOper> make_eq(const hdk::ir::ExprPtr& lhs,
                                                 const hdk::ir::ExprPtr& rhs,
-                                                hdk::ir::OpType optype) {
+                                                hdk::ir::OpType optype,
+                                                const Executor* executor) {
   CHECK(hdk::ir::isEquivalence(optype));
   // Sides of a tuple equality are stripped of cast operators to simplify the logic
   // in the hash table construction algorithm. Add them back here.
   auto eq_oper = std::dynamic_pointer_cast<const hdk::ir::BinOper>(
-      Analyzer::normalizeOperExpr(optype, hdk::ir::Qualifier::kOne, lhs, rhs));
+      Analyzer::normalizeOperExpr(
+          optype, hdk::ir::Qualifier::kOne, lhs, rhs, executor));
   CHECK(eq_oper);
   return optype == hdk::ir::OpType::kBwEq ? lower_bw_eq(eq_oper.get()) : eq_oper;
 }
@@ -156,7 +158,8 @@ std::shared_ptr<const hdk::ir::BinOper> make_eq(const hdk::ir::ExprPtr& lhs,
 // Convert a column tuple equality expression back to a conjunction of comparisons
 // so that it can be handled by the regular code generation methods.
 std::shared_ptr<const hdk::ir::BinOper> lower_multicol_compare(
-    const hdk::ir::BinOper* multicol_compare) {
+    const hdk::ir::BinOper* multicol_compare,
+    const Executor* executor) {
   const auto left_tuple_expr =
       dynamic_cast<const hdk::ir::ExpressionTuple*>(multicol_compare->leftOperand());
   const auto right_tuple_expr =
@@ -166,9 +169,11 @@ std::shared_ptr<const hdk::ir::BinOper> lower_multicol_compare(
   const auto& right_tuple = right_tuple_expr->tuple();
   CHECK_EQ(left_tuple.size(), right_tuple.size());
   CHECK_GT(left_tuple.size(), size_t(1));
-  auto acc = make_eq(left_tuple.front(), right_tuple.front(), multicol_compare->opType());
+  auto acc = make_eq(
+      left_tuple.front(), right_tuple.front(), multicol_compare->opType(), executor);
   for (size_t i = 1; i < left_tuple.size(); ++i) {
-    auto crt = make_eq(left_tuple[i], right_tuple[i], multicol_compare->opType());
+    auto crt =
+        make_eq(left_tuple[i], right_tuple[i], multicol_compare->opType(), executor);
     const bool nullable = acc->type()->nullable() || crt->type()->nullable();
     acc = hdk::ir::makeExpr<hdk::ir::BinOper>(acc->type()->ctx().boolean(nullable),
                                               false,
@@ -232,7 +237,7 @@ llvm::Value* CodeGenerator::codegenCmp(const hdk::ir::BinOper* bin_oper,
   const auto rhs = bin_oper->rightOperand();
   if (dynamic_cast<const hdk::ir::ExpressionTuple*>(lhs)) {
     CHECK(dynamic_cast<const hdk::ir::ExpressionTuple*>(rhs));
-    const auto lowered = lower_multicol_compare(bin_oper);
+    const auto lowered = lower_multicol_compare(bin_oper, executor());
     const auto lowered_lvs = codegen(lowered.get(), true, co);
     CHECK_EQ(size_t(1), lowered_lvs.size());
     return lowered_lvs.front();
-- 
2.43.0


From c1a96ac74e5df493f18428d6cf24295f8a287602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 80/95] fix: one-to-many hash table of a column with no keys

The join aborted when the inner column held nulls only.
---
 .../QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
index 8d45b12..d429768 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
@@ -1142,6 +1142,10 @@ void fill_one_to_many_hash_table_impl(int32_t* buff,
                                       COUNT_MATCHES_LAUNCH_FUNCTOR count_matches_func,
                                       FILL_ROW_IDS_LAUNCH_FUNCTOR fill_row_ids_func) {
   auto timer = DEBUG_TIMER(__func__);
+  if (!hash_entry_count) {
+    // There are no keys in the join column, e.g. it is all nulls.
+    return;
+  }
   int32_t* pos_buff = buff;
   int32_t* count_buff = buff + hash_entry_count;
   memset(count_buff, 0, hash_entry_count * sizeof(int32_t));
-- 
2.43.0


From 137a2dec536ac37500b1b12c03c331b756b6d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:50 +0000
Subject: [PATCH 81/95] fix: outer join columns with code of several blocks

The key column of the inner table of a left join is computed from the outer
one when their types differ, with an overflow check that ends in another
block than the one the value was said to come from, so no valid code could be
generated.
---
 omniscidb/QueryEngine/ColumnIR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnIR.cpp b/omniscidb/QueryEngine/ColumnIR.cpp
index 9eb75dc..0439869 100644
--- a/omniscidb/QueryEngine/ColumnIR.cpp
+++ b/omniscidb/QueryEngine/ColumnIR.cpp
@@ -353,6 +353,8 @@ std::vector<llvm::Value*> CodeGenerator::codegenOuterJoinNullPlaceholder(
   cgen_state_->ir_builder_.SetInsertPoint(outer_join_args_bb);
   Executor::FetchCacheAnchor anchor(cgen_state_);
   const auto orig_lvs = codegenColVar(col_var, fetch_column, true, co);
+  // The column code can consist of several blocks, e.g. for a checked cast.
+  const auto outer_join_args_end_bb = cgen_state_->ir_builder_.GetInsertBlock();
   cgen_state_->ir_builder_.CreateBr(phi_bb);
   cgen_state_->ir_builder_.SetInsertPoint(outer_join_nulls_bb);
   auto null_type = col_var->type();
@@ -374,7 +376,7 @@ std::vector<llvm::Value*> CodeGenerator::codegenOuterJoinNullPlaceholder(
     const auto target_type = orig_lvs[i]->getType();
     CHECK_EQ(target_type, null_target_lvs[i]->getType());
     auto target_phi = cgen_state_->ir_builder_.CreatePHI(target_type, 2);
-    target_phi->addIncoming(orig_lvs[i], outer_join_args_bb);
+    target_phi->addIncoming(orig_lvs[i], outer_join_args_end_bb);
     target_phi->addIncoming(null_target_lvs[i], outer_join_nulls_bb);
     target_lvs.push_back(target_phi);
   }
-- 
2.43.0


From 306217872385b739e99b2b81b2eaac98f22aac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 82/95] fix: keep casts of a join condition that is no tuple

Coalescing join conditions leaves a single comparison when the others cannot
be part of a tuple, and its sides were stripped of casts as if they were.
---
 omniscidb/QueryEngine/EquiJoinCondition.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/omniscidb/QueryEngine/EquiJoinCondition.cpp b/omniscidb/QueryEngine/EquiJoinCondition.cpp
index 73664eb..b0015f5 100644
--- a/omniscidb/QueryEngine/EquiJoinCondition.cpp
+++ b/omniscidb/QueryEngine/EquiJoinCondition.cpp
@@ -60,6 +60,7 @@ std::list<hdk::ir::ExprPtr> make_composite_equals_impl(
   std::vector<hdk::ir::ExprPtr> lhs_tuple;
   std::vector<hdk::ir::ExprPtr> rhs_tuple;
   bool nullable{false};
+  hdk::ir::ExprPtr tuple_qual;
   for (const auto& qual : crt_coalesced_quals) {
     const auto qual_binary = qual->as<hdk::ir::BinOper>();
     CHECK(qual_binary);
@@ -72,6 +73,7 @@ std::list<hdk::ir::ExprPtr> make_composite_equals_impl(
     if (lhs_type->isNumber() || lhs_type->isExtDictionary() || lhs_type->isBoolean()) {
       lhs_tuple.push_back(lhs_col);
       rhs_tuple.push_back(rhs_col);
+      tuple_qual = qual;
     } else {
       join_quals.push_back(qual);
     }
@@ -80,16 +82,17 @@ std::list<hdk::ir::ExprPtr> make_composite_equals_impl(
   const auto first_qual = crt_coalesced_quals.front()->as<hdk::ir::BinOper>();
   CHECK(first_qual);
   CHECK_EQ(lhs_tuple.size(), rhs_tuple.size());
-  if (lhs_tuple.size() > 0) {
+  if (lhs_tuple.size() == 1) {
+    // Not a tuple, keep the operands with their casts.
+    join_quals.push_front(tuple_qual);
+  } else if (lhs_tuple.size() > 1) {
     join_quals.push_front(std::make_shared<hdk::ir::BinOper>(
         lhs_tuple.front()->ctx().boolean(nullable),
         false,
         first_qual->opType(),
         hdk::ir::Qualifier::kOne,
-        lhs_tuple.size() > 1 ? std::make_shared<hdk::ir::ExpressionTuple>(lhs_tuple)
-                             : lhs_tuple.front(),
-        rhs_tuple.size() > 1 ? std::make_shared<hdk::ir::ExpressionTuple>(rhs_tuple)
-                             : rhs_tuple.front()));
+        std::make_shared<hdk::ir::ExpressionTuple>(lhs_tuple),
+        std::make_shared<hdk::ir::ExpressionTuple>(rhs_tuple)));
   }
   return join_quals;
 }
-- 
2.43.0


From 61b9549657fd2cd3d8b110960ea618705599f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:57 +0000
Subject: [PATCH 83/95] fix: linearize columns of tables with empty fragments

Write positions are kept for non-empty fragments only but were looked up by
the number of the fragment.
---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 62fd71f..26ef1ac 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -342,7 +342,8 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
             CHECK(ab->getMemoryPtr());
             int8_t* col_buffer =
                 ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(write_ptrs[frag_id].first, col_buffer, write_ptrs[frag_id].second);
+            memcpy(
+                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
           }
         });
 
-- 
2.43.0


From ddb8bd6d8be833d018be8e53297d5bf9f4e33e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 84/95] fix: reorder joined tables below an aggregation by
 expressions

References to group by expressions have no nest level to change, looking it
up made the query fail.
---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 1f9c7bd..fd0722a 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -107,7 +107,8 @@ class NestLevelRewriter : public ir::ExprRewriter {
 
   ir::ExprPtr visitVar(const ir::Var* var) override {
     int old_rte_idx = var->rteIdx();
-    if (old_rte_idx < static_cast<int>(permutation_.size())) {
+    // References to group by expressions have no nest level.
+    if (old_rte_idx >= 0 && old_rte_idx < static_cast<int>(permutation_.size())) {
       int new_rte_idx = static_cast<int>(permutation_.at(old_rte_idx));
       if (new_rte_idx != old_rte_idx) {
         return ir::makeExpr<ir::Var>(
-- 
2.43.0


From b65c16936f7faa5ede0ddf4e5752591538d10162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:51 +0000
Subject: [PATCH 85/95] fix: inner key columns of joins by an expression

The inner key column is read through the outer one if that is a column, the
outer key can be any expression though and the query was aborted then.
---
 omniscidb/QueryEngine/ColumnIR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnIR.cpp b/omniscidb/QueryEngine/ColumnIR.cpp
index 0439869..dd0131b 100644
--- a/omniscidb/QueryEngine/ColumnIR.cpp
+++ b/omniscidb/QueryEngine/ColumnIR.cpp
@@ -485,8 +485,8 @@ hdk::ir::ExprPtr CodeGenerator::hashJoinLhs(const hdk::ir::ColumnVar* rhs) const
           eq_left_op = tautological_eq->leftOperand();
         }
         const auto eq_left_op_col = dynamic_cast<const hdk::ir::ColumnVar*>(eq_left_op);
-        CHECK(eq_left_op_col);
-        if (eq_left_op_col->rteIdx() != 0) {
+        // The outer key can be an arbitrary expression.
+        if (!eq_left_op_col || eq_left_op_col->rteIdx() != 0) {
           return nullptr;
         }
         if (rhs->type()->isString() || rhs->type()->isExtDictionary()) {
-- 
2.43.0


From d69af16f4d925b8002b2f3f0603fd32de7fcdcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:46 +0000
Subject: [PATCH 86/95] fix: columns of an empty table in an outer join are
 null

Their range said there were no nulls, so an aggregation by such a column made
one group of zero instead of null.
---
 omniscidb/QueryEngine/ExpressionRange.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index be38911..90920cd 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -516,10 +516,11 @@ ExpressionRange getLeafColumnRange(const hdk::ir::ColumnVar* col_expr,
       if (query_info->getNumTuples() == 0) {
         // The column doesn't contain any values, synthesize an empty range.
         if (col_type->isFloatingPoint()) {
-          return col_type->size() == 4 ? ExpressionRange::makeFloatRange(0, -1, false)
-                                       : ExpressionRange::makeDoubleRange(0, -1, false);
+          return col_type->size() == 4
+                     ? ExpressionRange::makeFloatRange(0, -1, has_nulls)
+                     : ExpressionRange::makeDoubleRange(0, -1, has_nulls);
         }
-        return ExpressionRange::makeIntRange(0, -1, 0, false);
+        return ExpressionRange::makeIntRange(0, -1, 0, has_nulls);
       }
       if (col_expr->isVirtual()) {
         CHECK(col_type->isInt64());
-- 
2.43.0


From 8ca6181ceccf953734805175d752de0d130760f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:58 +0000
Subject: [PATCH 87/95] fix: hash join by a negated column

Any unary operator over a key column was taken for a cast and dropped, so
tables joined by -x or ~x were joined by x.
---
 omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp b/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp
index 74f4f81..c0a20f6 100644
--- a/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp
@@ -640,11 +640,14 @@ InnerOuter HashJoin::normalizeColumnPair(const hdk::ir::Expr* lhs,
     throw HashJoinFail("Equijoin with different decimal types");
   }
 
-  const auto lhs_cast = dynamic_cast<const hdk::ir::UOper*>(lhs);
-  const auto rhs_cast = dynamic_cast<const hdk::ir::UOper*>(rhs);
+  const auto lhs_uoper = dynamic_cast<const hdk::ir::UOper*>(lhs);
+  const auto rhs_uoper = dynamic_cast<const hdk::ir::UOper*>(rhs);
+  // Other unary operators change the key, don't look through them.
+  const auto lhs_cast = lhs_uoper && lhs_uoper->isCast() ? lhs_uoper : nullptr;
+  const auto rhs_cast = rhs_uoper && rhs_uoper->isCast() ? rhs_uoper : nullptr;
   if ((lhs_type->isString() || lhs_type->isExtDictionary()) &&
       (static_cast<bool>(lhs_cast) != static_cast<bool>(rhs_cast) ||
-       (lhs_cast && !lhs_cast->isCast()) || (rhs_cast && !rhs_cast->isCast()))) {
+       lhs_uoper != lhs_cast || rhs_uoper != rhs_cast)) {
     throw HashJoinFail("Cannot use hash join for given expression");
   }
   // Casts to decimal are not suported.
-- 
2.43.0


From b4d08bee9a16b7714a0baeb1710a67963145cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:16 +0000
Subject: [PATCH 88/95] fix: CASE branches of types differing by nullability or
 encoding

---
 omniscidb/Analyzer/Analyzer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index d4e8894..c7d352e 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -715,6 +715,8 @@ hdk::ir::ExprPtr normalizeCaseExpr(
         type = common_numeric_type(type, e2_type);
       } else if (type->isBoolean() && e2_type->isBoolean()) {
         type = common_numeric_type(type, e2_type);
+      } else if (type->withNullable(true)->equal(e2_type->withNullable(true))) {
+        type = type->withNullable(true);
       } else {
         throw std::runtime_error(
             "expressions in THEN clause must be of the same or compatible types.");
@@ -750,9 +752,14 @@ hdk::ir::ExprPtr normalizeCaseExpr(
           type = common_numeric_type(type, else_type);
         } else if (type->isBoolean() && else_type->isBoolean()) {
           type = common_numeric_type(type, else_type);
-        } else if (!type->canonicalize()->equal(else_type->canonicalize())) {
+        } else if (type->equal(else_type->withNullable(true))) {
+          // types differ by nullability only
+        } else if (type->canonicalize()->equal(
+                       else_type->withNullable(true)->canonicalize())) {
+          // types differ by encoding only
+          type = type->canonicalize();
+        } else {
           throw std::runtime_error(
-              // types differing by encoding will be resolved at decode
               "Expressions in ELSE clause must be of the same or compatible types as "
               "those in the THEN clauses.");
         }
-- 
2.43.0


From e26b5c7b4c944dfbeca58db8e2373c31598d5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:16 +0000
Subject: [PATCH 89/95] fix: nullability of CASE with string branches

---
 omniscidb/Analyzer/Analyzer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index c7d352e..3b5c705 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -533,7 +533,8 @@ const hdk::ir::Type* common_string_type(const hdk::ir::Type* type1,
     if (dict_id1 == dict_id2 || dict_id1 == TRANSIENT_DICT(dict_id2)) {
       common_type = ctx.extDict(ctx.text(nullable), std::min(dict_id1, dict_id2), 4);
     } else {
-      common_type = get_str_dict_cast_type(type1, type2, executor);
+      common_type =
+          get_str_dict_cast_type(type1, type2, executor)->withNullable(nullable);
     }
   } else if (type1->isVarChar() && type2->isVarChar()) {
     auto length = std::max(type1->as<hdk::ir::VarCharType>()->maxLength(),
@@ -781,6 +782,13 @@ hdk::ir::ExprPtr normalizeCaseExpr(
         "Cannot deduce the type for case expressions, all branches null");
   }
 
+  // None-encoded literals don't take part in the type deduction above but still
+  // can be NULL, as well as a missing ELSE.
+  if (none_encoded_literal_type &&
+      (none_encoded_literal_type->nullable() || !else_e_in)) {
+    type = type->withNullable(true);
+  }
+
   if (executor) {
     for (auto& p : cast_expr_pair_list) {
       p.second = p.second->cast(type);
-- 
2.43.0


From 0da848bd7eff91e85f367f8121bafd05c9073a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:16 +0000
Subject: [PATCH 90/95] fix: don't truncate string literals in CASE

---
 omniscidb/Analyzer/Analyzer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index 3b5c705..056da52 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -775,6 +775,9 @@ hdk::ir::ExprPtr normalizeCaseExpr(
     // every case sub-expression has a none-encoded
     // literal output. Make this our output type
     type = none_encoded_literal_type;
+  } else if (type && type->isString() && none_encoded_literal_type) {
+    // Literals should fit none-encoded output type
+    type = common_string_type(type, none_encoded_literal_type, executor);
   }
 
   if (!type || type->isNull()) {
-- 
2.43.0


From 873a9003ec155ddb9b23c46bd52bdd83027e8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 91/95] fix: width of columns fetched after they were padded
 for lazy fetch

---
 omniscidb/QueryEngine/TargetExprBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/TargetExprBuilder.cpp b/omniscidb/QueryEngine/TargetExprBuilder.cpp
index bec86ea..3c5a18e 100644
--- a/omniscidb/QueryEngine/TargetExprBuilder.cpp
+++ b/omniscidb/QueryEngine/TargetExprBuilder.cpp
@@ -292,8 +292,9 @@ void TargetExprCodegen::codegenAggregate(
   const bool lazy_fetched{executor->plan_state_->isLazyFetchColumn(target_expr)};
 
   if (!lazy_fetched && executor->plan_state_->allow_lazy_fetch_ &&
-      target_info.type->isFp32() && is_columnar_projection(query_mem_desc) &&
-      query_mem_desc.getPaddedSlotWidthBytes(slot_index) > target_info.type->size()) {
+      is_columnar_projection(query_mem_desc) &&
+      query_mem_desc.getPaddedSlotWidthBytes(slot_index) >
+          query_mem_desc.getLogicalSlotWidthBytes(slot_index)) {
     // The slot was padded for a lazily fetched column, but another target made us fetch
     // it.
     throw CompilationRetryNoLazyFetch();
-- 
2.43.0


From 9a8869c2b727775ee55bd46dff24d142f2cd94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:23 +0000
Subject: [PATCH 92/95] fix: hash join by a column cast from floating point

---
 omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp b/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp
index c0a20f6..b66c12c 100644
--- a/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp
@@ -643,8 +643,12 @@ InnerOuter HashJoin::normalizeColumnPair(const hdk::ir::Expr* lhs,
   const auto lhs_uoper = dynamic_cast<const hdk::ir::UOper*>(lhs);
   const auto rhs_uoper = dynamic_cast<const hdk::ir::UOper*>(rhs);
   // Other unary operators change the key, don't look through them.
-  const auto lhs_cast = lhs_uoper && lhs_uoper->isCast() ? lhs_uoper : nullptr;
-  const auto rhs_cast = rhs_uoper && rhs_uoper->isCast() ? rhs_uoper : nullptr;
+  // So do casts from floating point values.
+  auto is_key_cast = [](const hdk::ir::UOper* uoper) {
+    return uoper && uoper->isCast() && !uoper->operand()->type()->isFloatingPoint();
+  };
+  const auto lhs_cast = is_key_cast(lhs_uoper) ? lhs_uoper : nullptr;
+  const auto rhs_cast = is_key_cast(rhs_uoper) ? rhs_uoper : nullptr;
   if ((lhs_type->isString() || lhs_type->isExtDictionary()) &&
       (static_cast<bool>(lhs_cast) != static_cast<bool>(rhs_cast) ||
        lhs_uoper != lhs_cast || rhs_uoper != rhs_cast)) {
-- 
2.43.0


From 645f72adebf71c10201c685cce30272e349bab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:11 +0000
Subject: [PATCH 93/95] fix: deadlock of kernels linearizing an inner table
 column

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 67 +++++++++++++------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 26ef1ac..2ef1d81 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -24,6 +24,7 @@
 #include "Shared/sqltypes.h"
 
 #include <tbb/parallel_for.h>
+#include <tbb/task_arena.h>
 #include <memory>
 
 namespace {
@@ -314,38 +315,42 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
 
     CHECK(!write_ptrs.empty());
     size_t valid_frag_count = valid_fragments.size();
-    tbb::parallel_for(
-        tbb::blocked_range<size_t>(0, valid_frag_count),
-        [&](const tbb::blocked_range<size_t>& frag_ids) {
-          for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
-               ++v_frag_id) {
-            std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
-            std::list<ChunkIter> chunk_iter_holder;
-            size_t frag_id = valid_fragments[v_frag_id];
-            const auto& fragment = (*fragments)[frag_id];
-            auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
-            CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
-            std::shared_ptr<Chunk_NS::Chunk> chunk;
-            {
-              ChunkKey chunk_key{
-                  db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
-              chunk = data_provider_->getChunk(col_info,
-                                               chunk_key,
-                                               Data_Namespace::CPU_LEVEL,
-                                               0,
-                                               chunk_meta_it->second->numBytes(),
-                                               chunk_meta_it->second->numElements());
-              std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
-              chunk_holder.push_back(chunk);
+    // The mutex is held: don't let this thread pick up other kernels, which would wait
+    // for it, while it waits for the copies.
+    tbb::this_task_arena::isolate([&] {
+      tbb::parallel_for(
+          tbb::blocked_range<size_t>(0, valid_frag_count),
+          [&](const tbb::blocked_range<size_t>& frag_ids) {
+            for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
+                 ++v_frag_id) {
+              std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
+              std::list<ChunkIter> chunk_iter_holder;
+              size_t frag_id = valid_fragments[v_frag_id];
+              const auto& fragment = (*fragments)[frag_id];
+              auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
+              CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
+              std::shared_ptr<Chunk_NS::Chunk> chunk;
+              {
+                ChunkKey chunk_key{
+                    db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
+                chunk = data_provider_->getChunk(col_info,
+                                                 chunk_key,
+                                                 Data_Namespace::CPU_LEVEL,
+                                                 0,
+                                                 chunk_meta_it->second->numBytes(),
+                                                 chunk_meta_it->second->numElements());
+                std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
+                chunk_holder.push_back(chunk);
+              }
+              auto ab = chunk->getBuffer();
+              CHECK(ab->getMemoryPtr());
+              int8_t* col_buffer =
+                  ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
+              memcpy(
+                  write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
             }
-            auto ab = chunk->getBuffer();
-            CHECK(ab->getMemoryPtr());
-            int8_t* col_buffer =
-                ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(
-                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
-          }
-        });
+          });
+    });
 
     std::unique_ptr<ColumnarResults> merged_results(new ColumnarResults(
         {write_ptrs[0].first}, total_row_count, col_info->type, thread_idx));
-- 
2.43.0


From 9efb51df58d582f30c08f3c8f399a665b83729ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:42 +0000
Subject: [PATCH 94/95] fix: unpin the parent's chunk when it cannot be copied

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index b127e27..134322e 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -830,8 +830,8 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
       }
     }
   }
+  ScopeGuard unpin([&]() { buffer->unPin(); });
   buffer->copyTo(dest_buffer, num_bytes);
-  buffer->unPin();
 }
 
 int BufferMgr::getBufferId() {
-- 
2.43.0


From 77fb3871912376817a3f5eb62a2d5230e549dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:59 +0000
Subject: [PATCH 95/95] fix: nulls of narrow dates and times read uncompressed

---
 omniscidb/Utils/ChunkIter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Utils/ChunkIter.cpp b/omniscidb/Utils/ChunkIter.cpp
index a8091f8..c465439 100644
--- a/omniscidb/Utils/ChunkIter.cpp
+++ b/omniscidb/Utils/ChunkIter.cpp
@@ -118,7 +118,7 @@ DEVICE static void decompress(const ChunkIter* it,
         default:
           assert(false);
       }
-      result->is_null = datum->bigintval == inline_null_value<int64_t>();
+      result->is_null = isNull(compressed, it);
     } break;
     default:
       assert(false);
-- 
2.43.0

