From b27c2fb37c44dbd72ff4ecba41f788007ef4fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 01/51] fix: do not read past the end of the view for a
 truncated trailing UTF-8 sequence

---
 src/jogasaki/utils/utf8_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..feea7f4 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (offset_2nd < size && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 33cca87147fa8bf1d81aeba6965527a4dbe9c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 02/51] fix: do not read past the end of the string for a
 truncated trailing UTF-8 sequence in string functions

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 88ceaff..7eda14a 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -989,19 +989,19 @@ static encoding_type detect_next_encoding(std::string_view view, const size_t of
     auto first            = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (view.size() >= 2 && is_continuation_byte(view[offset_2nd]))
+        return (offset_2nd < view.size() && is_continuation_byte(view[offset_2nd]))
                    ? encoding_type::UTF8_2BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (view.size() >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (view.size() >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 0a1a89e9d513bf05c6e4f83ab1a7df7c3e52414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 03/51] fix: reflect additional text in the supplemental text
 of the error information

---
 src/jogasaki/error/error_info.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/error/error_info.cpp b/src/jogasaki/error/error_info.cpp
index 2f33478..5b9ef26 100644
--- a/src/jogasaki/error/error_info.cpp
+++ b/src/jogasaki/error/error_info.cpp
@@ -98,6 +98,7 @@ std::string_view error_info::additional_text() const noexcept {
 
 void error_info::additional_text(std::string_view arg) noexcept {
     additional_text_ = arg;
+    supplemental_text_ = create_supplemental_text();
 }
 
 }
-- 
2.43.0


From 8cf9373ae755e3d65a97852814fed725f5b3546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 04/51] fix: do not underflow the count when subtracting an
 element more often than it occurs

---
 src/jogasaki/utils/subtract_vectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/subtract_vectors.h b/src/jogasaki/utils/subtract_vectors.h
index 8e68eac..7cc2e45 100644
--- a/src/jogasaki/utils/subtract_vectors.h
+++ b/src/jogasaki/utils/subtract_vectors.h
@@ -28,8 +28,8 @@ std::vector<T> subtract_vectors(std::vector<T> const& x, std::vector<T> const& y
         ++m[e];
     }
     for(auto&& e : y) {
-        if(m.count(e) > 0) {
-            --m[e];
+        if(auto it = m.find(e); it != m.end() && it->second > 0) {
+            --it->second;
         }
     }
     std::vector<T> ret{};
-- 
2.43.0


From 6e5e14ed75972abb776d7ae7672367f873da0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 05/51] fix: round down values above the largest power of two
 without overflow

---
 src/jogasaki/utils/round.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/utils/round.h b/src/jogasaki/utils/round.h
index 4be5f24..7f7a8cb 100644
--- a/src/jogasaki/utils/round.h
+++ b/src/jogasaki/utils/round.h
@@ -38,7 +38,7 @@ namespace jogasaki::utils {
         v |= v >> i;
     }
 
-    return static_cast<std::size_t>(v + 1) >> 1U;
+    return (v >> 1U) + 1;
 }
 
 [[nodiscard]] constexpr std::size_t round_up_to_power_of_two(std::size_t v) noexcept {
-- 
2.43.0


From 1309129813455e1641cc9765dc6e6b2c56fe0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 06/51] fix: wake readers of the target when a record stream is
 move-assigned

---
 src/jogasaki/udf/generic_record_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/udf/generic_record_impl.cpp b/src/jogasaki/udf/generic_record_impl.cpp
index dee1d8b..ce6c682 100644
--- a/src/jogasaki/udf/generic_record_impl.cpp
+++ b/src/jogasaki/udf/generic_record_impl.cpp
@@ -361,6 +361,7 @@ generic_record_stream_impl& generic_record_stream_impl::operator=(
         other.closed_ = true;
         other.eos_ = true;
     }
+    cv_.notify_all();
     other.cv_.notify_all();
     return *this;
 }
-- 
2.43.0


From 2890207a7a5f2238ebbe5ea1a7e6bb4ad2b86ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 07/51] fix: keep the page a checkpoint was taken on when
 rewinding the lifo memory resource

---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index d845adf..f62603e 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -69,7 +69,8 @@ void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::ch
                 std::abort();
             }
             page.upper_bound_offset(point.offset_);
-            if (page.empty()) {
+            // keep the page if it was already there (possibly empty) when the checkpoint was taken
+            if (point.head_ == nullptr && page.empty()) {
                 release_deallocated_page(page.head());
                 pages_.pop_back();
             }
-- 
2.43.0


From 18d4ddaa99b5dc579509a97e74b36cf684ed9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 08/51] fix: do not read outside the recorded points when
 durations start or end at the beginning of the watch

---
 src/jogasaki/utils/watch.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/utils/watch.cpp b/src/jogasaki/utils/watch.cpp
index 965295b..91e72be 100644
--- a/src/jogasaki/utils/watch.cpp
+++ b/src/jogasaki/utils/watch.cpp
@@ -15,6 +15,7 @@
  */
 #include "watch.h"
 
+#include <array>
 #include <chrono>
 #include <cstdlib>
 #include <utility>
@@ -84,6 +85,18 @@ std::size_t watch::duration(watch::point_in_code begin, watch::point_in_code end
     return std::chrono::duration_cast<Duration>(view_first(end) - view_last(begin)).count();
 }
 
+namespace {
+
+// the time recorded at the point, or epoch if not recorded. No worker records the beginning of the watch (npos).
+watch::Clock::time_point at(
+    std::array<watch::Clock::time_point, watch::num_points> const& arr,
+    watch::point_in_code loc
+) {
+    return loc == watch::npos ? watch::Clock::time_point{} : arr[loc]; //NOLINT
+}
+
+}  // namespace
+
 std::size_t watch::average_duration(watch::point_in_code begin, watch::point_in_code end) {
     std::size_t count = 0;
     std::size_t total = 0;
@@ -91,9 +104,11 @@ std::size_t watch::average_duration(watch::point_in_code begin, watch::point_in_
     Clock::time_point fixed_end = view_last(end);
     for(auto& p : records_) {
         auto& arr = p.second;
-        if (arr[begin] == Clock::time_point() && arr[end] == Clock::time_point()) continue; //NOLINT
-        auto e = arr[end] == Clock::time_point() ? fixed_end : arr[end]; //NOLINT
-        auto b = arr[begin] == Clock::time_point() ? fixed_begin : arr[begin]; //NOLINT
+        auto e = at(arr, end);
+        auto b = at(arr, begin);
+        if (b == Clock::time_point() && e == Clock::time_point()) continue;
+        if (e == Clock::time_point()) e = fixed_end;
+        if (b == Clock::time_point()) b = fixed_begin;
         total += std::chrono::duration_cast<Duration>(e-b).count();
         ++count;
     }
@@ -107,9 +122,11 @@ std::unique_ptr<std::vector<std::size_t>> watch::durations(watch::point_in_code
     Clock::time_point fixed_end = view_last(end);
     for(auto& p : records_) {
         auto& arr = p.second;
-        if (arr[begin] == Clock::time_point() && arr[end] == Clock::time_point()) continue; //NOLINT
-        auto e = arr[end] == Clock::time_point() ? fixed_end : arr[end]; //NOLINT
-        auto b = arr[begin] == Clock::time_point() ? fixed_begin : arr[begin]; //NOLINT
+        auto e = at(arr, end);
+        auto b = at(arr, begin);
+        if (b == Clock::time_point() && e == Clock::time_point()) continue;
+        if (e == Clock::time_point()) e = fixed_end;
+        if (b == Clock::time_point()) b = fixed_begin;
         results->emplace_back(std::chrono::duration_cast<Duration>(e-b).count());
     }
     return results;
-- 
2.43.0


From e6c0dff77bbf008fdb756c6dbae55e98a3377ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 09/51] fix: do not overflow the deadline of a UDF call with a
 very large timeout

---
 src/jogasaki/udf/generic_client_context.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/udf/generic_client_context.cpp b/src/jogasaki/udf/generic_client_context.cpp
index f7521a0..c3b42ea 100644
--- a/src/jogasaki/udf/generic_client_context.cpp
+++ b/src/jogasaki/udf/generic_client_context.cpp
@@ -13,6 +13,7 @@
  * See the License for the specific language governing permissions and
  * limitations under the License.
  */
+#include <chrono>
 #include <optional>
 
 #include <glog/logging.h>
@@ -50,7 +51,12 @@ void generic_client_context::log_debug(std::string_view message) const {
 void generic_client_context::apply_timeout() noexcept {
     if (!timeout_) { return; }
 
-    grpc_context_.set_deadline(std::chrono::system_clock::now() + *timeout_);
+    using clock = std::chrono::system_clock;
+    auto const now = clock::now();
+    auto const limit =
+        std::chrono::duration_cast<std::chrono::milliseconds>(clock::time_point::max() - now);
+    // a timeout beyond the representable time point means virtually no deadline
+    grpc_context_.set_deadline(*timeout_ < limit ? now + *timeout_ : clock::time_point::max());
 }
 
 } // namespace plugin::udf
-- 
2.43.0


From 33b9ca0e31c961e25e95d8d0141789a80f97bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 10/51] fix: accept a checkpoint that precedes the alignment
 padding of a page

---
 src/jogasaki/memory/fifo_paged_memory_resource.cpp | 8 +++++---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index 87539c7..e78df2f 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -57,12 +57,14 @@ void fifo_paged_memory_resource::deallocate_before(fifo_paged_memory_resource::c
     while (!pages_.empty()) {
         auto&& page = pages_.front();
         if (page.head().address() == point.head_) {
+            // the checkpoint at the page head may precede the padding for aligning the first region
+            auto offset = point.offset_ == 0 ? page.lower_bound_offset() : point.offset_;
             // LB <= offset <= UB
-            if (point.offset_ < page.lower_bound_offset()
-                || point.offset_ > page.upper_bound_offset()) {
+            if (offset < page.lower_bound_offset()
+                || offset > page.upper_bound_offset()) {
                 std::abort();
             }
-            page.lower_bound_offset(point.offset_);
+            page.lower_bound_offset(offset);
             if (page.empty()) {
                 page_pool_->release_page(page.head());
                 pages_.pop_front();
diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index f62603e..3d32189 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -63,6 +63,10 @@ void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::ch
     while (!pages_.empty()) {
         auto&& page = pages_.back();
         if (page.head().address() == point_head) {
+            if (point.offset_ == 0) {
+                // the page was empty at the checkpoint - discard the padding for aligning the first region
+                page.lower_bound_offset(0);
+            }
             // LB <= offset <= UB
             if (point.offset_ < page.lower_bound_offset()
                 || point.offset_ > page.upper_bound_offset()) {
-- 
2.43.0


From e1e05ab56dc1bda988ef9ef21ff8cf8591e70f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 11/51] fix: write_blob and write_clob refuse a buffer without
 room for the reference tag

An entry is a header and three 8 byte fields, but only two of the fields were
counted: with 17 to 24 bytes left the position was advanced and an assertion
thrown instead of returning false.
---
 src/jogasaki/serializer/value_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b70c2c1..b1cf071 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -526,6 +526,7 @@ bool write_blob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
@@ -544,6 +545,7 @@ bool write_clob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
-- 
2.43.0


From 5ec586096ce18317ebf1e4fa99ba5ce0635fb29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 12/51] fix: read_decimal sign-extends a negative coefficient
 of fewer than 8 octets

docs/data-serde-ja.md allows any big-endian two's complement coefficient, but a
negative one of 1 to 7 octets ended in a failed assertion (std::logic_error),
while the positive ones were read.
---
 src/jogasaki/serializer/value_input.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/serializer/value_input.cpp b/src/jogasaki/serializer/value_input.cpp
index 304a995..ca24a30 100644
--- a/src/jogasaki/serializer/value_input.cpp
+++ b/src/jogasaki/serializer/value_input.cpp
@@ -323,9 +323,11 @@ takatori::decimal::triple read_decimal(buffer_view::const_iterator& position, bu
 
     if (negative) {
         // sign extension
-        if (coefficient.size() < sizeof(std::uint64_t) * 2) {
-            assert_with_exception(coefficient.size() >= sizeof(std::uint64_t), coefficient.size());
-            auto mask = std::numeric_limits<std::uint64_t>::max(); // 0xfff.....
+        auto mask = std::numeric_limits<std::uint64_t>::max(); // 0xfff.....
+        if (coefficient.size() < sizeof(std::uint64_t)) {
+            c_lo |= mask << (coefficient.size() * 8U);
+            c_hi = mask;
+        } else if (coefficient.size() < sizeof(std::uint64_t) * 2) {
             std::size_t rest = (coefficient.size() - sizeof(std::uint64_t)) * 8U;
             c_hi |= mask << rest;
         }
-- 
2.43.0


From d308978578cb2ad8cf784993c3e39ca3b433ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 13/51] fix: a text at the end of the data without its
 terminator is reported as corruption

readable_stream::read<text> at the exact end of the data returned an empty text and moved
the position behind the data, as the loop that looks for the terminator does not run.
---
 src/jogasaki/kvs/readable_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/kvs/readable_stream.h b/src/jogasaki/kvs/readable_stream.h
index 0be2937..6c53155 100644
--- a/src/jogasaki/kvs/readable_stream.h
+++ b/src/jogasaki/kvs/readable_stream.h
@@ -166,8 +166,8 @@ public:
     template<class T>
     std::enable_if_t<std::is_same_v<T, accessor::text>, T> read(order odr, bool discard, memory::paged_memory_resource* resource = nullptr) {
         auto len = read_text_length(odr);
-        if(!(pos_ + len <= capacity_)) throw_exception(std::domain_error{ //NOLINT
-                string_builder{} << base_filename() << " condition pos_ + len <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
+        if(!(pos_ + len + details::text_terminator::byte_size <= capacity_)) throw_exception(std::domain_error{ //NOLINT
+                string_builder{} << base_filename() << " condition pos_ + len + terminator <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
             });
         auto pos = pos_;
         pos_ += len + details::text_terminator::byte_size;
-- 
2.43.0


From 6536c7bbcb68a8f1d9570cdb011e743f1812cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 14/51] fix: NaNs that compare equal have the same hash

The comparator treats all NaNs as equal, but the hash depended on their sign and payload, so
that equal group keys could be sent to different partitions.
---
 src/jogasaki/executor/hash.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jogasaki/executor/hash.h b/src/jogasaki/executor/hash.h
index 55631de..a5817ef 100644
--- a/src/jogasaki/executor/hash.h
+++ b/src/jogasaki/executor/hash.h
@@ -15,8 +15,11 @@
  */
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 #include <functional>
+#include <limits>
+#include <type_traits>
 
 #include <jogasaki/meta/record_meta.h>
 #include <jogasaki/accessor/const_record_ref.h>
@@ -76,6 +79,12 @@ private:
         hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
             using rtype = runtime_t<K>;
             auto l = a.get_value<rtype>(offset);
+            if constexpr (std::is_floating_point_v<rtype>) {
+                // all NaNs are equivalent, so they must have the same hash regardless of their sign or payload
+                if(std::isnan(l)) {
+                    l = std::numeric_limits<rtype>::quiet_NaN();
+                }
+            }
             return std::hash<rtype>{}(l);
         }
     };
-- 
2.43.0


From f2d6c2eee7638479eb21dc09156acef0df8098ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 15/51] fix: sequence next() misjudges the bounds when their
 distance exceeds the value range

---
 src/jogasaki/executor/sequence/sequence.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..97f8fd4 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -53,20 +53,20 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        // the distance to the bounds possibly doesn't fit sequence_value, so check overflow of the addition instead
+        bool const overflow = __builtin_add_overflow(cur.value_, info_->increment(), &val);
+        if (info_->increment() > 0 && (overflow || val > info_->maximum_value())) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (info_->increment() < 0 && (overflow || val < info_->minimum_value())) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
                 return sequence_error::out_of_lower_bound;
             }
-        } else {
-            val = cur.value_ + info_->increment();
         }
         next = {cur.version_ + 1, val};
     } while(! body_.compare_exchange_strong(cur, next));
-- 
2.43.0


From bc166f2fb5b1f69cec8b7efaee5a37aaef2f03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 16/51] fix: lookups of a storage name or key deadlock with its
 deletion

get_storage_key() and get_index_name() kept the accessor on the name or key
map while locking storages_, whereas reserve_delete_entry() and remove_entry()
lock storages_ first and then erase from those maps. Release the accessor
before looking the entry up.
---
 src/jogasaki/storage/storage_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 759c26f..495ff3f 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -280,6 +280,7 @@ std::optional<std::string> storage_manager::get_storage_key(std::string_view nam
         return std::nullopt;
     }
     auto entry = acc->second;
+    acc.release();  // not held while locking storages_, whose holders lock this map
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
@@ -294,6 +295,7 @@ std::optional<std::string> storage_manager::get_index_name(std::string_view stor
         return std::nullopt;
     }
     auto entry = acc->second;
+    acc.release();  // not held while locking storages_, whose holders lock this map
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
-- 
2.43.0


From ab0ea9498a3a30599a49882dcfa3d9ba24ca7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 17/51] fix: dividing the minimum integer by -1 crashes

---
 src/jogasaki/executor/expr/evaluator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index d8eec51..f9c81b3 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <decimal.hh>
 #include <exception>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <utility>
@@ -317,7 +318,8 @@ static any multiply(
 template <class T>
 static std::enable_if_t<! std::is_same_v<T, runtime_t<meta::field_type_kind::decimal>>, any>
 divide(T const& l, T const& r, evaluator_context& ctx) {
-    if (r == 0) {
+    // the quotient of the minimum integer and -1 is out of range
+    if (r == 0 || (std::is_integral_v<T> && r == -1 && l == std::numeric_limits<T>::lowest())) {
         auto& e = ctx.add_error(
             {error_kind::arithmetic_error,
              "arithmetic error while performing division"}
@@ -351,6 +353,10 @@ remainder(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if (r == -1) {
+        // avoid overflow with the minimum integer
+        return any{std::in_place_type<T>, T{0}};
+    }
     return any{std::in_place_type<T>, l%r};
 }
 
-- 
2.43.0


From b94245896726a5aea0ecb4968d946164a0af9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 18/51] fix: LIKE matches a single character wildcard inside a
 multi-byte character

---
 src/jogasaki/executor/expr/evaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index f9c81b3..0656169 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -798,13 +798,13 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
     std::size_t& pattern_index, std::size_t& backtrack_input_index,
     std::size_t& backtrack_pattern_index) {
     if (input_index < input.size()) {
+        // the size is 0 when input_index is inside a character as the result of backtracking
         std::size_t char_size = utils::get_byte(utils::detect_next_encoding(input, input_index));
-        if (input_index + char_size <= input.size()) {
+        if (char_size != 0 && input_index + char_size <= input.size()) {
             input_index += char_size;
             ++pattern_index;
             return true;
         }
-        return false;
     }
     if (backtrack_pattern_index != std::string::npos) {
         ++backtrack_input_index;
-- 
2.43.0


From 4c6b442ce6b4eed5f512230089daa07df206a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 19/51] fix: decimals are rounded to 16 digits on threads that
 evaluated no expression

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp         | 3 +++
 .../executor/function/incremental/builtin_functions.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 9fe1d32..7b3f566 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -49,6 +49,7 @@
 #include <jogasaki/error/error_info.h>
 #include <jogasaki/error/error_info_factory.h>
 #include <jogasaki/executor/diagnostic_record.h>
+#include <jogasaki/executor/expr/details/decimal_context.h>
 #include <jogasaki/executor/expr/details/decimal_context_guard.h>
 #include <jogasaki/executor/expr/error.h>
 #include <jogasaki/executor/expr/evaluator_context.h>
@@ -1689,6 +1690,8 @@ any conduct_cast(
     any const& a
 ) {
     using k = takatori::type::type_kind;
+    // conversion can be requested from a thread that has never evaluated an expression
+    ensure_decimal_context();
     // until we officially support boolean and small integers, these types are only available for testing
     // src unknown is the special case allowed
     if(src.kind() != k::unknown) {
diff --git a/src/jogasaki/executor/function/incremental/builtin_functions.cpp b/src/jogasaki/executor/function/incremental/builtin_functions.cpp
index ccaaf22..42bad63 100644
--- a/src/jogasaki/executor/function/incremental/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/incremental/builtin_functions.cpp
@@ -43,6 +43,7 @@
 #include <jogasaki/accessor/binary.h>
 #include <jogasaki/accessor/record_ref.h>
 #include <jogasaki/accessor/text.h>
+#include <jogasaki/executor/expr/details/decimal_context.h>
 #include <jogasaki/executor/function/field_locator.h>
 #include <jogasaki/executor/function/incremental/aggregate_function_info.h>
 #include <jogasaki/executor/function/incremental/aggregate_function_kind.h>
@@ -668,6 +669,7 @@ static T plus(T a, T b) {
 template <>
 runtime_t<kind::decimal> plus(runtime_t<kind::decimal> a, runtime_t<kind::decimal> b) {
     // TODO use context
+    expr::details::ensure_decimal_context();
     auto aa = static_cast<decimal::Decimal>(a);
     auto bb = static_cast<decimal::Decimal>(b);
     return runtime_t<kind::decimal>{(aa + bb).as_uint128_triple()};
@@ -792,6 +794,7 @@ static T div_by_count(T a, runtime_t<kind::int8> b) {
 template <>
 runtime_t<kind::decimal> div_by_count(runtime_t<kind::decimal> a, runtime_t<kind::int8> b) {
     // TODO add context
+    expr::details::ensure_decimal_context();
     auto aa = static_cast<decimal::Decimal>(a);
     return runtime_t<kind::decimal>{(aa / b).as_uint128_triple()};
 }
-- 
2.43.0


From b1c6c907e6b51be2c1d7aa070397f6dd7e97d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 20/51] fix: converting a text of only spaces reads out of
 bounds

---
 src/jogasaki/executor/expr/details/common.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/common.h b/src/jogasaki/executor/expr/details/common.h
index bec8bfc..24ec8a5 100644
--- a/src/jogasaki/executor/expr/details/common.h
+++ b/src/jogasaki/executor/expr/details/common.h
@@ -52,6 +52,9 @@ inline std::string_view trim_spaces(std::string_view src) {
     auto b = std::find_if(src.begin(), src.end(), [](char c){
         return c != ' ';
     });
+    if (b == src.end()) {
+        return {};
+    }
     auto e = std::find_if(src.rbegin(), src.rend(), [](char c){
         return c != ' ';
     });
-- 
2.43.0


From 1e9ccfa4c587f48b7251a5dbaa1e303c01337a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 21/51] fix: NaN surrounded by spaces is not converted to float

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 7b3f566..cc0cba0 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -691,7 +691,7 @@ any to_float4(std::string_view s, evaluator_context& ctx) {
     if(a.error()) {
         return a;
     }
-    if(d.isnan() && ! is_valid_nan(s)) {
+    if(d.isnan() && ! is_valid_nan(trim_spaces(s))) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float4"});
         e.new_argument() << s;
         e.new_argument() << d;
@@ -706,7 +706,7 @@ any to_float8(std::string_view s, evaluator_context& ctx) {
     if(a.error()) {
         return a;
     }
-    if(d.isnan() && ! is_valid_nan(s)) {
+    if(d.isnan() && ! is_valid_nan(trim_spaces(s))) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float8"});
         e.new_argument() << s;
         e.new_argument() << d;
-- 
2.43.0


From 496aa7ae5f33098697a14cf0fc8fcd75ae65a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 22/51] fix: CHAR(n) truncated inside a multi-byte character is
 shorter than n

---
 .../executor/expr/details/cast_evaluation.h        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.h b/src/jogasaki/executor/expr/details/cast_evaluation.h
index 1f882a7..8b283ab 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.h
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.h
@@ -221,6 +221,7 @@ any truncate_or_pad_if_needed(
 ) {
     lost_precision = false;
     auto slen = src.length();
+    auto tlen = dlen;
     if(dlen == slen) {
         return any{std::in_place_type<T>, T{ctx.resource(), src}};
     }
@@ -238,10 +239,15 @@ any truncate_or_pad_if_needed(
         } else {
             lost_precision = true;
         }
-        return any{
-            std::in_place_type<T>,
-            T{ctx.resource(), std::string_view{src.data(), dlen}}  //NOLINT(bugprone-suspicious-stringview-data-usage)
-        };
+        if(! add_padding || dlen == tlen) {
+            return any{
+                std::in_place_type<T>,
+                T{ctx.resource(), std::string_view{src.data(), dlen}}  //NOLINT(bugprone-suspicious-stringview-data-usage)
+            };
+        }
+        // truncation at the character boundary made the text shorter than the fixed length
+        src = std::string_view{src.data(), dlen};  //NOLINT(bugprone-suspicious-stringview-data-usage)
+        dlen = tlen;
     }
     // dlen > src.length()
     if(add_padding) {
-- 
2.43.0


From 79cec7380392f4386d8004ee0fda7f23a0c70ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 23/51] fix: infinity converted to DECIMAL(p,s) exceeds its
 precision

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index cc0cba0..bbc2b27 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -990,7 +990,7 @@ static any float_to_decimal(
         if(auto a = handle_precision_lost(src, tgt, ctx); a.error()) {
             return a;
         }
-        return any{std::in_place_type<triple>, tgt};
+        return handle_ps(decimal::Decimal{tgt}, ctx, precision, scale);
     }
     auto str = utils::to_string(src);
     decimal::context.clear_status();
-- 
2.43.0


From 87fae4e388e8d75b21cefd52a3e6b949462ea95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 24/51] fix: SUBSTRING with a huge length does not end

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 7eda14a..edcc05c 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1037,6 +1037,7 @@ static size_t get_size_byte(std::string_view view, const size_t start_byte, cons
     size_t offset   = start_byte;
     for (size_t i = 0; i < letter_count; ++i) {
         tmp_byte = get_byte(detect_next_encoding(view, offset));
+        if (tmp_byte == 0) { break; } // reached the end of the string
         offset += tmp_byte;
     }
     // offset is sum of tmp_bytes
-- 
2.43.0


From e62c7b70c14b2f76ebf1c671ad6fc760585002a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 25/51] fix: ROUND of an integer beyond the range of its type
 wraps around

---
 .../executor/function/builtin_scalar_functions.cpp   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index edcc05c..352c545 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1204,10 +1204,18 @@ static data::any round_integral(data::any src, int32_t precision, evaluator_cont
     auto fix_value = (value / divide) * divide;
     auto remain    = value - fix_value;
 
+    bool overflow = false;
     if (remain > 0 && remain >= divide / 2) {
-        fix_value += divide;
+        overflow = fix_value > std::numeric_limits<T>::max() - divide;
+        if (!overflow) { fix_value += divide; }
     } else if (remain < 0 && remain <= -divide / 2) {
-        fix_value -= divide;
+        overflow = fix_value < std::numeric_limits<T>::min() + divide;
+        if (!overflow) { fix_value -= divide; }
+    }
+    if (overflow) {
+        ctx.add_error(
+            {error_kind::overflow, std::string("rounded value out of range for ") + type_name});
+        return data::any{std::in_place_type<error>, error(error_kind::overflow)};
     }
 
     return data::any{std::in_place_type<T>, fix_value};
-- 
2.43.0


From 63be6dc79e8d2ed9dcefd46ddcd60a34e07c3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 26/51] fix: ROUND of a large decimal to a finer scale fails
 internally

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 352c545..dadd85c 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1156,6 +1156,7 @@ static data::any round_decimal(data::any src, int32_t precision, evaluator_conte
         return data::any{std::in_place_type<error>, error(error_kind::unsupported)};
     }
     auto value  = src.to<runtime_t<kind::decimal>>();
+    if (value.exponent() >= -precision) { return src; } // no digits to round
     auto type   = std::in_place_type<runtime_t<kind::decimal>>;
     auto one    = data::any{type, takatori::decimal::triple{+1, 0, 1, -precision}};
     auto remain = expr::remainder_any(src, one, ctx);
-- 
2.43.0


From 95b2ea5dafc0ccb1579a040fd6e15273c84636bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 27/51] fix: ROUND of a large float gives infinity

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index dadd85c..20e77a0 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1237,7 +1237,9 @@ static data::any round_floating_point(data::any src, int32_t precision, evaluato
 
     auto value  = src.to<T>();
     auto factor = std::pow(static_cast<FactorType>(10.0), static_cast<FactorType>(precision));
-    auto result = std::round(value * factor) / factor;
+    auto scaled = value * factor;
+    if (!std::isfinite(scaled)) { return src; } // too large to have digits to round
+    auto result = std::round(scaled) / factor;
 
     return data::any{std::in_place_type<T>, result};
 }
-- 
2.43.0


From 57370150d9b7025b740ff39a896f342ce115a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 28/51] fix: sorted_vector_reader splits groups by the sort key

---
 .../executor/exchange/group/sorted_vector_reader.cpp  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
index 02da745..cd6eece 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
@@ -42,7 +42,7 @@ sorted_vector_reader::sorted_vector_reader(
     info_(std::move(info)),
     record_size_(info_->record_meta()->record_size()),
     buf_(std::make_unique<char[]>(record_size_)), //NOLINT
-    key_comparator_(info_->sort_compare_info())
+    key_comparator_(info_->compare_info())
 {
     std::size_t count = 0;
     for(auto& p : partitions_) {
@@ -87,7 +87,7 @@ accessor::record_ref sorted_vector_reader::get_group() const {
 }
 
 void sorted_vector_reader::discard_remaining_members_in_group() {
-    auto k = info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_));
+    auto k = info_->extract_key(accessor::record_ref(buf_.get(), record_size_));
     while(current_ != aggregated_pointer_table_.end()) {
         if (key_comparator_(k, info_->extract_key(accessor::record_ref(*current_, record_size_))) != 0) {
             break;
@@ -115,8 +115,8 @@ bool sorted_vector_reader::next_member() {
             return false;
         }
         if (key_comparator_(
-                info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_)),
-                info_->extract_sort_key(accessor::record_ref(*current_, record_size_))) == 0) {
+                info_->extract_key(accessor::record_ref(buf_.get(), record_size_)),
+                info_->extract_key(accessor::record_ref(*current_, record_size_))) == 0) {
             read_and_pop();
             ++record_count_per_group_;
             return true;
@@ -164,11 +164,12 @@ void sorted_vector_reader::init_aggregated_table() {  //NOLINT(readability-funct
         }
         w.set_point(1);
         auto sz = info_->record_meta()->record_size();
+        comparator sort_comparator{info_->sort_compare_info()};
         std::sort(
             aggregated_pointer_table_.begin(),
             aggregated_pointer_table_.end(),
             [&](auto const&x, auto const& y) {
-                return key_comparator_(
+                return sort_comparator(
                     info_->extract_sort_key(accessor::record_ref(x, sz)),
                     info_->extract_sort_key(accessor::record_ref(y, sz))) < 0;
             }
-- 
2.43.0


From 9b03abffc36a04bc12bd70b2925d113798d21b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 29/51] fix: COUNT(DISTINCT) counts NaN of every occurrence

---
 .../executor/function/builtin_functions.cpp   | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_functions.cpp b/src/jogasaki/executor/function/builtin_functions.cpp
index 3858981..d8bacc6 100644
--- a/src/jogasaki/executor/function/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_functions.cpp
@@ -15,12 +15,16 @@
  */
 #include "builtin_functions.h"
 
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <boost/container/pmr/polymorphic_allocator.hpp>
 #include <tsl/hopscotch_hash.h>
@@ -47,6 +51,7 @@
 #include <jogasaki/accessor/binary.h>
 #include <jogasaki/accessor/record_ref.h>
 #include <jogasaki/accessor/text.h>
+#include <jogasaki/executor/equal_to.h>
 #include <jogasaki/executor/function/aggregate_function_info.h>
 #include <jogasaki/executor/function/aggregate_function_kind.h>
 #include <jogasaki/executor/function/aggregate_function_repository.h>
@@ -238,11 +243,32 @@ namespace builtin {
 
 namespace details {
 
+// hash and equality consistent with the comparison of values (e.g. NaN's are equal)
+template<class T>
+struct value_hash {
+    std::size_t operator()(T const& x) const {
+        if constexpr (std::is_floating_point_v<T>) {
+            if (std::isnan(x)) return std::hash<T>{}(std::numeric_limits<T>::quiet_NaN());
+        }
+        return std::hash<T>{}(x);
+    }
+};
+
+template<class T>
+struct value_equal {
+    bool operator()(T const& x, T const& y) const {
+        if constexpr (std::is_floating_point_v<T>) {
+            return executor::equal_to<T>(x, y);
+        }
+        return std::equal_to<>{}(x, y);
+    }
+};
+
 template<class T>
 static std::int64_t count_distinct(data::value_store const& store) {
     using bucket_type = tsl::detail_hopscotch_hash::hopscotch_bucket<T, 62, false>;
     using hash_table_allocator = boost::container::pmr::polymorphic_allocator<T>;
-    using hash_set = tsl::hopscotch_set<T, std::hash<T>, std::equal_to<>, hash_table_allocator>;
+    using hash_set = tsl::hopscotch_set<T, value_hash<T>, value_equal<T>, hash_table_allocator>;
     // hopscotch default power_of_two_growth_policy forces the # of buckets to be power of two,
     // so round down here to avoid going over allocator limit
     constexpr static std::size_t default_initial_hash_table_size =
@@ -254,8 +280,8 @@ static std::int64_t count_distinct(data::value_store const& store) {
     memory::monotonic_paged_memory_resource resource{&global::page_pool()};
     hash_set values{
         default_initial_hash_table_size,
-        std::hash<T>{},
-        std::equal_to<>{},
+        value_hash<T>{},
+        value_equal<T>{},
         hash_table_allocator{&resource}
     };
     while(b != e) {
-- 
2.43.0


From 3cca6caa3b28426f3fbd02f647981a7ba2eda895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 30/51] fix: after an exception in a task, do not complete the
 job while its other tasks remain

---
 src/jogasaki/scheduler/flat_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 0559398..baf391b 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -342,8 +342,10 @@ bool flat_task::execute_with_catch(tateyama::task_scheduler::context& ctx) {
 
         // try to complete the current job in order to reply back to client.
         // Otherwise, the request appears to remain running and shutdown of session or database is hindered.
-        job_completes = true;
         set_error_context(*req_context_, error_code::unknown_internal_error, "unexpected internal error occurred "+message, status::err_unknown);
+
+        // other tasks of the job possibly remain, or completing the job is already on-going
+        job_completes = kind_ == flat_task_kind::teardown || check_or_submit_teardown(*req_context_, true);
     }
     return job_completes;
 
-- 
2.43.0


From 671dd05a9586720926331025c570f2e2a0f71ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 31/51] fix: release the use of the transaction when a task
 ends with an exception

---
 src/jogasaki/scheduler/flat_task.cpp | 55 ++++++++++++++++++----------
 src/jogasaki/scheduler/flat_task.h   |  8 ++++
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index baf391b..3ae5617 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -189,6 +189,22 @@ bool flat_task::write() {
     return ret;
 }
 
+void leave_transaction(request_context& req_context) {
+    if (! req_context.transaction()) {
+        return;
+    }
+    auto& tctx = *req_context.transaction();
+    termination_state ts{};
+    tctx.termination_mgr().decrement_task_use_count(ts);
+    if (ts.going_to_abort() && ts.task_empty()) {
+        (void) tctx.abort_transaction();
+        // request_info in the request context might not be the cause of the abort
+        // rather it is the request processing SQL that is interrupted by the abort
+        // TODO fix if that is a problem.
+        log_end_of_tx(tctx, true, req_context.req_info());
+    }
+}
+
 bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
     if (in_transaction_ && req_context_ && req_context_->transaction()) {
         auto& tctx = *req_context_->transaction();
@@ -217,15 +233,23 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " kind:" << kind_ << " sticky:" << sticky_ << " worker:" << ctx.index()
                             << " stolen:" << ctx.task_is_stolen() << " last_steal_from:" << ctx.last_steal_from();
     bool to_finish_job = false;
-    switch(kind_) {
-        using kind = flat_task_kind;
-        case kind::dag_events: dag_schedule(); break;
-        case kind::bootstrap: bootstrap(ctx); break;
-        case kind::resolve: resolve(ctx); break;
-        case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
-        case kind::wrapped: to_finish_job = execute_wrapped(); break;
-        case kind::write: to_finish_job = write(); break;
-        case kind::load: to_finish_job = load(); break;
+    try {
+        switch(kind_) {
+            using kind = flat_task_kind;
+            case kind::dag_events: dag_schedule(); break;
+            case kind::bootstrap: bootstrap(ctx); break;
+            case kind::resolve: resolve(ctx); break;
+            case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
+            case kind::wrapped: to_finish_job = execute_wrapped(); break;
+            case kind::write: to_finish_job = write(); break;
+            case kind::load: to_finish_job = load(); break;
+        }
+    } catch (...) {
+        // the task doesn't use the transaction any more, otherwise the transaction can never be terminated
+        if (in_transaction_) {
+            leave_transaction(*req_context_);
+        }
+        throw;
     }
     std::chrono::time_point<clock> end{};
     std::size_t took_ns{};
@@ -247,17 +271,8 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " job_id:" << utils::hex(req_context_->job()->id()) << " kind:" << kind_
                             << " sticky:" << sticky_ << " worker:" << ctx.index() << " stolen:" << ctx.task_is_stolen();
 
-    if (in_transaction_ && req_context_ && req_context_->transaction()) {
-        auto& tctx = *req_context_->transaction();
-        termination_state ts{};
-        tctx.termination_mgr().decrement_task_use_count(ts);
-        if (ts.going_to_abort() && ts.task_empty()) {
-            (void) req_context_->transaction()->abort_transaction();
-            // request_info in the request context might not be the cause of the abort
-            // rather it is the request processing SQL that is interrupted by the abort
-            // TODO fix if that is a problem.
-            log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
-        }
+    if (in_transaction_) {
+        leave_transaction(*req_context_);
     }
     return to_finish_job;
 }
diff --git a/src/jogasaki/scheduler/flat_task.h b/src/jogasaki/scheduler/flat_task.h
index fe23e09..8166f67 100644
--- a/src/jogasaki/scheduler/flat_task.h
+++ b/src/jogasaki/scheduler/flat_task.h
@@ -389,4 +389,12 @@ void set_going_teardown_or_submit(
 
 void print_task_diagnostic(flat_task const& t, std::ostream& os);
 
+/**
+ * @brief declare end of using the transaction
+ * @details this undoes termination_manager::try_increment_task_use_count() for the transaction of the request. If abort
+ * has been requested and this is the last use, the transaction is aborted by this function.
+ * @param req_context the request context whose transaction is not used any more (no-op if it has no transaction)
+ */
+void leave_transaction(request_context& req_context);
+
 }  // namespace jogasaki::scheduler
-- 
2.43.0


From ffc3fc3d7ab81e7694f53e24be9e5727655c0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 32/51] fix: count write tasks as use of the transaction, so
 that it is not terminated under them

---
 src/jogasaki/scheduler/flat_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 3ae5617..b7692b6 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -504,7 +504,8 @@ flat_task::flat_task(
     kind_(flat_task_kind::write),
     req_context_(rctx),
     write_(write),
-    sticky_(true)
+    sticky_(true),
+    in_transaction_(true)
 {}
 
 bool flat_task::sticky() const noexcept {
-- 
2.43.0


From 415cd8c6e4fe45741c8295ebf35c51ff1c8dfa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 33/51] fix: end the job of requests that are refused, and keep
 it while its resolve task runs

---
 src/jogasaki/executor/executor.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a413c00..a972c5a 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -690,6 +690,20 @@ static bool validate_authorization(
     return true;
 }
 
+// end the job for the request that has been answered without submitting its tasks
+static void end_job(std::shared_ptr<request_context> const& rctx) {
+    auto& job = *rctx->job();
+    if(job.task_count() == 0) {
+        rctx->scheduler()->unregister_job(job.id());
+        return;
+    }
+    // called from the task of the job (i.e. resolve), then the job must be kept until end of the task
+    job.callback([rctx]() {
+        (void) rctx;
+    });
+    scheduler::submit_teardown(*rctx);
+}
+
 bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexity)
     api::impl::database& database,
     std::shared_ptr<request_context> rctx,  //NOLINT
@@ -700,6 +714,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
 ) {
     auto& s = unsafe_downcast<api::impl::executable_statement&>(*statement);
     if(! validate_statement(*s.body(), rctx->record_channel(), on_completion)) {
+        end_job(rctx);
         return false;
     }
     rctx->enable_stats();
@@ -713,11 +728,13 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     // currently only DML is checked, but in future, DDL should be checked too.
     if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
         if(! validate_authorization(*rctx, *e, req_info, on_completion)) {
+            end_job(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
     }
 
     if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_completion)) {
+        end_job(rctx);
         return true; // inactive tx error - this is normal error so return true
     }
 
@@ -736,6 +753,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
                     res
                 ), nullptr);
             utils::print_error(*rctx, msg);
+            end_job(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
         // pin primary storages in the transaction so that lazy deletion waits for tx completion
@@ -815,7 +833,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
         req->status(scheduler::request_detail_status::finishing);
         log_request(*req, rctx->status_code() == status::ok);
     }
-    ts.unregister_job(job->id());
+    end_job(rctx);
     return true;
 }
 
-- 
2.43.0


From 989b3cd0fa612ed77de5a40fe145e8e20013a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 34/51] fix: answer the request when resolving its statement
 fails

---
 src/jogasaki/scheduler/flat_task.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index b7692b6..e5c5202 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -467,6 +467,10 @@ void flat_task::resolve(tateyama::task_scheduler::context& ctx) {
     if(auto res = sctx_->database_->resolve_common(*sctx_->statement_, maybe_shared_ptr{sctx_->parameters_},
         e, info); res != status::ok) {
         set_error_info(*req_context_, info);
+        job()->callback([rctx=req_context_.ownership(), sctx=sctx_]() {
+            sctx->callback_(rctx->status_code(), rctx->error_info(), nullptr);
+        });
+        submit_teardown(*req_context_);
     } else {
         executor::execute_async_on_context(
                 *sctx_->database_,
-- 
2.43.0


From c3e2b386a39bd71467dda7d73c35c714e2ce1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 35/51] fix: do not log end of transaction for refused commit
 requests

---
 src/jogasaki/executor/executor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a972c5a..8ea6a3b 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1024,7 +1024,8 @@ scheduler::job_context::job_id_type commit_async(
             << utils::hex(jobid);
 
         auto handle_error = [](request_context& rctx) {
-            log_end_of_tx_and_commit_request(rctx);
+            // the transaction is not terminated by this request, so only the end of commit request is logged
+            log_end_of_commit_request(rctx);
             rctx.commit_ctx()->on_error()(commit_response_kind::available, rctx.status_code(), rctx.error_info());
             scheduler::submit_teardown(rctx, true);
         };
-- 
2.43.0


From 71c69b26dca94d3fcf661181971bcab4d2f8a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 36/51] fix: keep the transaction from being terminated while a
 statement takes its storage resources

---
 src/jogasaki/executor/executor.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 8ea6a3b..cfc7421 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -740,9 +740,23 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
 
     // acquire shared lock for DML operations
     if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
+        // prevent the transaction from being terminated (and its storage resources from being released) meanwhile
+        termination_state tstate{};
+        if (rctx->transaction() && ! rctx->transaction()->termination_mgr().try_increment_task_use_count(tstate)) {
+            auto res = status::err_inactive_transaction;
+            on_completion(res,
+                create_error_info(
+                    error_code::inactive_transaction_exception,
+                    "the other request already made to terminate the transaction",
+                    res
+                ), nullptr);
+            end_job(rctx);
+            return true;
+        }
         if (! acquire_shared_lock(*rctx, *e)) {
             if(rctx->transaction()) {
                 abort_transaction(rctx->transaction(), req_info);
+                scheduler::leave_transaction(*rctx);
             }
             auto msg = "DML operation was blocked by DDL operation";
             auto res = status::err_illegal_operation;
@@ -759,6 +773,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
         // pin primary storages in the transaction so that lazy deletion waits for tx completion
         if (rctx->transaction()) {
             rctx->transaction()->add_storages_ref(e->mirrors()->storage_operation().storage());
+            scheduler::leave_transaction(*rctx);
         }
     }
 
-- 
2.43.0


From 8acd029de6a0c1851a315d0029d0daa4cbb8e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 37/51] fix: transaction state stays committing after the
 commit is answered as accepted

---
 src/jogasaki/executor/executor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index cfc7421..80390e2 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -942,6 +942,7 @@ static void process_commit_callback(
         return;
     }
     rctx->transaction()->durability_marker(marker);
+    rctx->transaction()->state(transaction_state_kind::committed_available);
 
     // if auto dispose
     if (option.auto_dispose_on_success()) {
-- 
2.43.0


From 466e0d3385fb4c78680287f4f12a19039141fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 38/51] fix: commit is answered before the tables it locked are
 released

---
 src/jogasaki/executor/executor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 80390e2..c463bc3 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1078,12 +1078,14 @@ scheduler::job_context::job_id_type commit_async(
                 ::sharksfin::durability_marker_type marker
             ){
                 rctx->transaction()->profile()->set_precommit_cb_invoked();
-                process_commit_callback(st, ec, marker, jobid, rctx, txid, database, option);
 
-                // release storage lock and storage reference scope as soon as commit callback completes
+                // release storage lock and storage reference scope as soon as cc engine completes the commit
+                // this must precede the response, because the storages are expected to be available after that
                 // TODO when commit fails for tx with DDL, we need to repair storage metadata and then unlock
                 rctx->transaction()->reset_storage_ref_scope();
                 rctx->transaction()->storage_lock(nullptr);
+
+                process_commit_callback(st, ec, marker, jobid, rctx, txid, database, option);
             });
         return model::task_result::complete;
     }, model::task_transaction_kind::none);
-- 
2.43.0


From 71da1eb9e5078d8242c77448eab4dc654a571094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 39/51] fix: every insert fails if a secondary index has a
 primary key column in another order

---
 src/jogasaki/index/secondary_target.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/index/secondary_target.cpp b/src/jogasaki/index/secondary_target.cpp
index 8259fba..38a6e47 100644
--- a/src/jogasaki/index/secondary_target.cpp
+++ b/src/jogasaki/index/secondary_target.cpp
@@ -157,7 +157,7 @@ secondary_target::field_mapping_type secondary_target::create_fields(
     for(auto&& k : idx.keys()) {
         bool found = false;
         for(std::size_t i=0, n=primary->keys().size(); i<n; ++i) {
-            if(primary->keys().at(i) == k) {
+            if(primary->keys().at(i).column() == k.column()) {
                 auto spec = k.direction() == takatori::relation::sort_direction::ascendant ?
                     kvs::spec_key_ascending : kvs::spec_key_descending;
                 ret.emplace_back(
-- 
2.43.0


From c8e6ed1f382ca996fe30940882e3e88067da4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 40/51] fix: a request is never answered when resolving its
 statement throws

---
 src/jogasaki/scheduler/flat_task.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index e5c5202..6b51f7b 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -464,12 +464,13 @@ void flat_task::resolve(tateyama::task_scheduler::context& ctx) {
     (void)ctx;
     auto& e = sctx_->executable_statement_;
     std::shared_ptr<error::error_info> info{};
+    // the request must be answered even if an exception is thrown on the way
+    job()->callback([rctx=req_context_.ownership(), sctx=sctx_]() {
+        sctx->callback_(rctx->status_code(), rctx->error_info(), nullptr);
+    });
     if(auto res = sctx_->database_->resolve_common(*sctx_->statement_, maybe_shared_ptr{sctx_->parameters_},
         e, info); res != status::ok) {
         set_error_info(*req_context_, info);
-        job()->callback([rctx=req_context_.ownership(), sctx=sctx_]() {
-            sctx->callback_(rctx->status_code(), rctx->error_info(), nullptr);
-        });
         submit_teardown(*req_context_);
     } else {
         executor::execute_async_on_context(
-- 
2.43.0


From f6cd7a6ee9d8eb9d410c307938b2b028b985081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 41/51] fix: left outer index join emits an extra row for each
 candidate failing the condition

---
 .../executor/process/impl/ops/index_join.h    | 21 ++++++++++++-------
 .../process/impl/ops/index_join_context.h     |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/index_join.h b/src/jogasaki/executor/process/impl/ops/index_join.h
index d49355c..c59f9e1 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join.h
@@ -354,6 +354,7 @@ public:
             };
             ectx.blob_session(std::addressof(helper.blob_session_container()));
             nullify_output_variables(ctx.variables().ref());
+            ctx.exists_match_ = false;
             ctx.matched_ = ctx.matcher_->template process<MatchInfo>(
                 ectx,
                 *ctx.req_context(),
@@ -410,7 +411,7 @@ public:
             return operation_status_kind::ok;
         }
         // inner or left_outer join
-        if(ctx.matched_ || join_kind_ == join_kind::left_outer) {
+        if(ctx.matched_) {
             do {
                 if (condition_) {
                     // newly create c instead of re-using ectx since errors in ectx might have bad impact //TODO resolve this
@@ -427,14 +428,11 @@ public:
                         return operation_status_kind::aborted;
                     }
                     if(! r.template to<bool>()) {
-                        if(join_kind_ != join_kind::left_outer) {
-                            // inner join: skip record
-                            continue;
-                        }
-                        // left outer join: nullify output variables and send record downstream
-                        nullify_output_variables(ctx.variables().ref());
+                        // the candidate does not match: skip record
+                        continue;
                     }
                 }
+                ctx.exists_match_ = true;
 resume_calling_child:
                 if (auto call_st = call_downstream(ctx, context); ! call_st) {
                     return call_st;
@@ -449,6 +447,15 @@ resume_calling_child:
             ctx.abort();
             return operation_status_kind::aborted;
         }
+        if(join_kind_ == join_kind::left_outer && ! ctx.exists_match_) {
+            // left outer join without any match: nullify output variables and send the record downstream once
+            ctx.exists_match_ = true;
+            ctx.matched_ = false;  // no more candidates to process when resumed after downstream yield
+            nullify_output_variables(ctx.variables().ref());
+            if (auto call_st = call_downstream(ctx, context); ! call_st) {
+                return call_st;
+            }
+        }
         return operation_status_kind::ok;
     }
 
diff --git a/src/jogasaki/executor/process/impl/ops/index_join_context.h b/src/jogasaki/executor/process/impl/ops/index_join_context.h
index c8e7305..12c3bc1 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join_context.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join_context.h
@@ -102,6 +102,7 @@ private:
 
     // frame variables for yield
     bool matched_{};
+    bool exists_match_{};
 };
 
 }  // namespace jogasaki::executor::process::impl::ops
-- 
2.43.0


From db6e30d07793c9c116ffee287f25f290feee2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 42/51] fix: int4 parameter for int8 host variable is misread

---
 src/jogasaki/plan/compiler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/plan/compiler.cpp b/src/jogasaki/plan/compiler.cpp
index f2fa5fd..64240f5 100644
--- a/src/jogasaki/plan/compiler.cpp
+++ b/src/jogasaki/plan/compiler.cpp
@@ -1035,8 +1035,13 @@ std::shared_ptr<executor::process::impl::variable_table> create_host_variables(
             // value_to_any does not support blob or clob
             utils::value_to_any(e.value(), a);
         }
+        auto& vtype = info->meta()->at(os.index());
+        if (e.type().kind() == meta::field_type_kind::int4 && vtype.kind() == meta::field_type_kind::int8 && ! a.empty()) {
+            // the admissible assignment of int4 parameter to int8 host variable
+            a = data::any{std::in_place_type<std::int64_t>, static_cast<std::int64_t>(a.to<std::int32_t>())};
+        }
         utils::copy_nullable_field(
-            e.type(),
+            vtype,
             target,
             os.value_offset(),
             os.nullity_offset(),
-- 
2.43.0


From fc221ad5010db1857bfb632f8a4c6ddf993ee006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 43/51] fix: row limit of forward exchange is applied to each
 upstream separately

---
 src/jogasaki/executor/exchange/forward/flow.cpp | 9 +++++----
 src/jogasaki/executor/exchange/forward/flow.h   | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/exchange/forward/flow.cpp b/src/jogasaki/executor/exchange/forward/flow.cpp
index 9dcdb42..c631e0c 100644
--- a/src/jogasaki/executor/exchange/forward/flow.cpp
+++ b/src/jogasaki/executor/exchange/forward/flow.cpp
@@ -55,16 +55,17 @@ takatori::util::sequence_view<std::shared_ptr<model::task>> flow::create_tasks()
 void flow::setup_partitions(std::size_t partitions) {
     // additional sinks/sources for requested partitions
     std::vector<std::shared_ptr<input_partition>> shared_partitions{};
-    std::shared_ptr<std::atomic_size_t> write_count{
-        info_->limit().has_value() ? std::make_shared<std::atomic_size_t>(0) : nullptr
-    };
+    if(info_->limit().has_value() && ! write_count_) {
+        // the limit is on the whole exchange, so count the records from all of the upstreams together
+        write_count_ = std::make_shared<std::atomic_size_t>(0);
+    }
     shared_partitions.reserve(partitions);
     for(std::size_t i=0; i < partitions; ++i) {
         shared_partitions.emplace_back(std::make_shared<input_partition>(info_));
     }
     for(std::size_t i=0; i < partitions; ++i) {
         sinks_.emplace_back(
-            std::make_unique<forward::sink>(info_, context_, write_count, shared_partitions[i])
+            std::make_unique<forward::sink>(info_, context_, write_count_, shared_partitions[i])
         );
     }
     for(std::size_t i=0; i < partitions; ++i) {
diff --git a/src/jogasaki/executor/exchange/forward/flow.h b/src/jogasaki/executor/exchange/forward/flow.h
index db9a614..fc9b4c5 100644
--- a/src/jogasaki/executor/exchange/forward/flow.h
+++ b/src/jogasaki/executor/exchange/forward/flow.h
@@ -15,6 +15,7 @@
  */
 #pragma once
 
+#include <atomic>
 #include <cstddef>
 #include <memory>
 #include <vector>
@@ -93,6 +94,7 @@ private:
     std::deque<std::unique_ptr<forward::source>> sources_{}; // use deque to avoid relocation
     request_context* context_{};
     step* owner_{};
+    std::shared_ptr<std::atomic_size_t> write_count_{};
 };
 
 }  // namespace jogasaki::executor::exchange::forward
-- 
2.43.0


From 5f02ee536f8703acd252d5a6cf6cf148a16170ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 44/51] fix: failed DELETE leaves the transaction committable
 with part of the index entries removed

---
 src/jogasaki/executor/process/impl/ops/write_existing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/executor/process/impl/ops/write_existing.cpp b/src/jogasaki/executor/process/impl/ops/write_existing.cpp
index f70a44a..81eba64 100644
--- a/src/jogasaki/executor/process/impl/ops/write_existing.cpp
+++ b/src/jogasaki/executor/process/impl/ops/write_existing.cpp
@@ -297,6 +297,7 @@ operation_status write_existing::do_delete(write_existing_context& ctx) {
                 *ctx.transaction(),
                 ctx.variables()
             ); res != status::ok) {
+            abort_transaction(*ctx.transaction());
             return error_abort(ctx, res);
         }
         if(context.req_context()) {
@@ -313,6 +314,7 @@ operation_status write_existing::do_delete(write_existing_context& ctx) {
             context.extracted_key(),
             context.extracted_value()
         ); res != status::ok) {
+        abort_transaction(*ctx.transaction());
         return error_abort(ctx, res);
     }
     if(context.req_context()) {
@@ -327,6 +329,7 @@ operation_status write_existing::do_delete(write_existing_context& ctx) {
                 context.extracted_value(),
                 context.encoded_key()
             ); res != status::ok) {
+            abort_transaction(*ctx.transaction());
             return error_abort(ctx, res);
         }
     }
-- 
2.43.0


From 6dc4ea9de4c1fa4d0ff29cadd46c2d52fa9da9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 45/51] fix: failed data changing statement leaves the
 transaction committable with part of its effect

---
 src/jogasaki/executor/executor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index c463bc3..7acfc16 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -780,7 +780,8 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     if (e->is_execute()) {
         auto* stmt = unsafe_downcast<executor::common::execute>(e->operators().get());
         auto& g = stmt->operators();
-        job->callback([statement, on_completion, rctx, job, req_info](){  // callback is copy-based
+        auto writes = ! e->mirrors()->external_writer_meta();
+        job->callback([statement, on_completion, rctx, job, req_info, writes](){  // callback is copy-based
             // let lambda own the statement so that they live longer by the end of callback
             (void)statement;
             if(rctx->record_channel()) {
@@ -792,6 +793,10 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
             }
             rctx->storage_lock(nullptr); // release storage lock as soon as request complete
             external_log_stmt_end(*rctx, req_info, statement);
+            if(writes && rctx->transaction() && rctx->status_code() != status::ok) {
+                // part of the records may have been written already
+                abort_transaction(rctx->transaction(), req_info);
+            }
             on_completion(rctx->status_code(), rctx->error_info(), rctx->stats());
         });
 
-- 
2.43.0


From d0e365d60f6ecd1e6efd8a996528ef9ecb3ded27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:20 +0000
Subject: [PATCH 46/51] fix: CREATE INDEX on a table dropped after its
 compilation dereferenced a null storage

---
 src/jogasaki/executor/common/create_index.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jogasaki/executor/common/create_index.cpp b/src/jogasaki/executor/common/create_index.cpp
index a9b0b18..9027583 100644
--- a/src/jogasaki/executor/common/create_index.cpp
+++ b/src/jogasaki/executor/common/create_index.cpp
@@ -71,6 +71,16 @@ model::statement_kind create_index::kind() const noexcept {
 // return false if table is not empty, or error with kvs
 bool create_index::validate_empty_table(request_context& context, std::string_view table_name) const {
     auto stg = utils::get_storage_by_index_name(table_name);
+    if(! stg) {
+        // the table has been dropped since the statement was compiled
+        set_error_context(
+            context,
+            error_code::target_not_found_exception,
+            string_builder{} << "Table \"" << table_name << "\" not found." << string_builder::to_string,
+            status::err_not_found
+        );
+        return false;
+    }
     std::unique_ptr<kvs::iterator> it{};
     if(auto res =
            stg->content_scan(*context.transaction()->object(), {}, kvs::end_point_kind::unbound, {}, kvs::end_point_kind::unbound, it);
-- 
2.43.0


From cafce1adf1bd3171c0e1e949508aa3bd2de3002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:32 +0000
Subject: [PATCH 47/51] fix: after TRUNCATE the secondary indexes still
 referred to the replaced table

---
 src/jogasaki/executor/common/truncate_table.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/common/truncate_table.cpp b/src/jogasaki/executor/common/truncate_table.cpp
index 73e0ab0..8d1a3ee 100644
--- a/src/jogasaki/executor/common/truncate_table.cpp
+++ b/src/jogasaki/executor/common/truncate_table.cpp
@@ -256,7 +256,16 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
     // create new secondary index storages
     for(auto&& entry : secondaries) {
         storage::storage_entry secondary_id{};
-        if(! create_secondary_storage(context, *entry, new_primary_id, secondary_id)) {
+        std::string secondary_serialized{};
+        if(! create_secondary_storage(
+               context, *entry, new_primary_id, secondary_id, std::addressof(secondary_serialized)
+           )) {
+            return false;
+        }
+        // the primary has been replaced in the provider, so let the index refer to the new table
+        if(auto err =
+               recovery::deserialize_storage_option_into_provider(secondary_serialized, provider, provider, true)) {
+            set_error_info(context, err);
             return false;
         }
     }
-- 
2.43.0


From 8e57817e63fbb751f32c74a1804c1b6f69ec0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:32 +0000
Subject: [PATCH 48/51] fix: failed CREATE left a storage manager entry bound
 to the name

---
 src/jogasaki/executor/common/ddl_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index da65a95..a0583c8 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -208,6 +208,7 @@ bool create_primary_storage(
                opt
            }
        )) {
+        (void) smgr.remove_entry(entry_id);
         set_error_info(context, err);
         return false;
     }
@@ -220,6 +221,7 @@ bool create_primary_storage(
     options.payload(std::move(storage));
     if(auto stg = context.database()->create_storage(
            (opt.has_value() ? opt.value() : primary_idx.simple_name()), options); ! stg) {
+        (void) smgr.remove_entry(entry_id);
         set_error_context(
             context,
             error_code::target_already_exists_exception,
@@ -261,6 +263,7 @@ bool create_secondary_storage(
            storage,
            utils::metadata_serializer_option{false, nullptr, nullptr, opt}
        )) {
+        (void) smgr.remove_entry(entry_id);
         set_error_info(context, err);
         return false;
     }
@@ -273,6 +276,7 @@ bool create_secondary_storage(
     options.payload(std::move(storage));
     if(auto stg = context.database()->create_storage(
            (opt.has_value() ? opt.value() : sec_idx.simple_name()), options); ! stg) {
+        (void) smgr.remove_entry(entry_id);
         VLOG_LP(log_warning) << "storage " << sec_idx.simple_name() << " already exists ";
         set_error_context(
             context,
-- 
2.43.0


From 08464bfc47b95f2ee5966a65570abe2f31743703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:32 +0000
Subject: [PATCH 49/51] fix: GRANT/REVOKE changed the privileges in memory even
 though storing them failed

---
 src/jogasaki/executor/common/process_grant_revoke.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/common/process_grant_revoke.cpp b/src/jogasaki/executor/common/process_grant_revoke.cpp
index 92e39db..e240c76 100644
--- a/src/jogasaki/executor/common/process_grant_revoke.cpp
+++ b/src/jogasaki/executor/common/process_grant_revoke.cpp
@@ -285,11 +285,6 @@ static bool serialize_and_save(
         set_error_info(context, err);
         return false;
     }
-    sc.authorized_actions().clear();
-    from_authorization_list(idef.table_definition(), sc.authorized_actions());
-    sc.public_actions().clear();
-    auth::from_default_privilege(idef.table_definition(), sc.public_actions());
-
     sharksfin::StorageOptions options{};
     options.payload(std::move(storage));
     auto stg = utils::get_storage_by_index_name(table_name);
@@ -314,6 +309,12 @@ static bool serialize_and_save(
         );
         return false;
     }
+
+    // reflect to the in-memory metadata only after the durable one is updated
+    sc.authorized_actions().clear();
+    from_authorization_list(idef.table_definition(), sc.authorized_actions());
+    sc.public_actions().clear();
+    auth::from_default_privilege(idef.table_definition(), sc.public_actions());
     return true;
 }
 
-- 
2.43.0


From 9b325481ca922c334301213514efc1854e026727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:32 +0000
Subject: [PATCH 50/51] fix: CREATE INDEX reported success when checking the
 table for records failed

---
 src/jogasaki/executor/common/create_index.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/common/create_index.cpp b/src/jogasaki/executor/common/create_index.cpp
index 9027583..befb09b 100644
--- a/src/jogasaki/executor/common/create_index.cpp
+++ b/src/jogasaki/executor/common/create_index.cpp
@@ -107,6 +107,7 @@ bool create_index::validate_empty_table(request_context& context, std::string_vi
         return true;
     }
     handle_kvs_errors(context, st);
+    handle_generic_error(context, st, error_code::sql_execution_exception);
     return false;
 }
 
-- 
2.43.0


From 919d1a8bb3bcf7cd4bc943d3f040ca41ee6051f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:04 +0000
Subject: [PATCH 51/51] fix: sequence was gone from memory and the engine when
 removing its system table entry failed

---
 src/jogasaki/executor/sequence/manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index bd44a19..67c93f4 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -214,13 +214,14 @@ bool manager::remove_sequence(
         return false;
     }
     auto seq_id = acc->second.id();
+    // accessing the system table can fail, so do it before anything not rolled back by the transaction
+    remove_id_map(def_id, tx);
     if (auto rc = db_->delete_sequence(seq_id); rc != status::ok && rc != status::err_not_found) {
         // status::err_not_found never comes here because the sequence is already in sequences_
         (void) tx->abort_transaction();
         throw_exception(exception{rc});
     }
     sequences_.erase(acc);
-    remove_id_map(def_id, tx);
     return true;
 }
 
-- 
2.43.0

