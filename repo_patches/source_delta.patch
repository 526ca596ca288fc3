From eb79391c33209de1cef84f6b9c78ceae1bdff94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 01/41] fix: do not read past the end of the chunk when looking
 for a line end

---
 src/mlio/record_readers/detail/text_line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..19c84c9 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,7 +47,9 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
+    for (; pos < chars.end(); ++pos) {
+        char chr = *pos;
+
         if (chr == '\n') {
             break;
         }
-- 
2.43.0


From c3c1006fc5e2a9a8380e655c80dba32d591a864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 02/41] fix: do not split a CRLF line end at a chunk boundary
 into two lines

---
 src/mlio/record_readers/detail/text_line.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 19c84c9..39430c9 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -58,7 +58,13 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
             auto next_pos = pos + 1;
 
             // Check if we have a new line with a new-line character and
-            // make sure that we eat the carriage in such case.
+            // make sure that we eat the carriage in such case. If the
+            // chunk ends here the new-line character might come with the
+            // next chunk.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             if (next_pos < chars.end() && *next_pos == '\n') {
                 has_carriage = true;
 
-- 
2.43.0


From e6d82a3f58877e986fb9cd4bed62357afec59f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 03/41] fix: accept lines of exactly the maximum length and do
 not count line ends

---
 src/mlio/record_readers/csv_record_reader.cc | 21 +++++++++++---------
 src/mlio/record_readers/csv_record_reader.h  |  4 +---
 src/mlio/record_readers/detail/text_line.cc  |  4 +++-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/mlio/record_readers/csv_record_reader.cc b/src/mlio/record_readers/csv_record_reader.cc
index ceb959e..4222886 100644
--- a/src/mlio/record_readers/csv_record_reader.cc
+++ b/src/mlio/record_readers/csv_record_reader.cc
@@ -187,12 +187,14 @@ has_carriage:
     goto new_line;  // NOLINT
 
 new_line : {
+    auto offset = sizeof(char) * as_size(pos - chars.begin());
+
     if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
+        // Do not count the new-line characters.
+        check_line_length(offset - sizeof(char) * (state == Parser_state::has_carriage ? 2 : 1),
+                          *params_->max_line_length);
     }
 
-    auto offset = sizeof(char) * as_size(pos - chars.begin());
-
     Memory_slice payload;
     if (state == Parser_state::has_carriage) {
         payload = chunk.first(offset - sizeof(char) * 2);
@@ -208,7 +210,10 @@ new_line : {
 
 end:
     if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
+        auto num_chars_read = as_size(pos - chars.begin());
+
+        check_line_length(state == Parser_state::has_carriage ? num_chars_read - 1 : num_chars_read,
+                          *params_->max_line_length);
     }
 
     if (ignore_leftover) {
@@ -252,12 +257,10 @@ inline bool Csv_record_reader::try_get_next_char(const stdx::span<const char> &c
     return true;
 }
 
-inline void Csv_record_reader::check_line_length(const stdx::span<const char> &chars,
-                                                 stdx::span<const char>::iterator &pos,
-                                                 std::size_t max_line_length)
+inline void
+Csv_record_reader::check_line_length(std::size_t line_length, std::size_t max_line_length)
 {
-    std::size_t num_chars_read = as_size(pos - chars.begin());
-    if (num_chars_read >= max_line_length) {
+    if (line_length > max_line_length) {
         throw Record_too_large_error{
             fmt::format("The text line exceeds the maximum length of {0:n}.", max_line_length)};
     }
diff --git a/src/mlio/record_readers/csv_record_reader.h b/src/mlio/record_readers/csv_record_reader.h
index 594b6bc..88ef05f 100644
--- a/src/mlio/record_readers/csv_record_reader.h
+++ b/src/mlio/record_readers/csv_record_reader.h
@@ -52,9 +52,7 @@ private:
                                   stdx::span<const char>::iterator &pos,
                                   char &chr) noexcept;
 
-    static void check_line_length(const stdx::span<const char> &chars,
-                                  stdx::span<const char>::iterator &pos,
-                                  std::size_t max_line_length);
+    static void check_line_length(std::size_t line_length, std::size_t max_line_length);
 
     const Csv_params *params_;
 };
diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 39430c9..6189b0e 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -77,7 +77,9 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     std::size_t num_chars_read = as_size(pos - chars.begin());
 
-    if (max_line_length && num_chars_read >= *max_line_length) {
+    std::size_t line_length = has_carriage ? num_chars_read - 1 : num_chars_read;
+
+    if (max_line_length && line_length > *max_line_length) {
         throw Record_too_large_error{
             fmt::format("The text line exceeds the maximum length of {0:n}.", *max_line_length)};
     }
-- 
2.43.0


From b13cd0822fa91366652ed121255266abff51190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 04/41] fix: strip the UTF-8 BOM only at the beginning of a
 text stream

---
 include/mlio/record_readers/text_record_reader.h |  2 ++
 src/mlio/record_readers/text_record_reader.cc    | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..11b959c 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -52,6 +52,8 @@ private:
 
     MLIO_HIDDEN
     static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    bool bom_skipped_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..f4cc0ec 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -35,11 +35,16 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
         return {};
     }
 
-    if (skip_utf8_bom(chunk, ignore_leftover)) {
-        return decode_text_record(chunk, ignore_leftover);
+    // Only the beginning of the stream can have a BOM.
+    if (!bom_skipped_) {
+        if (!skip_utf8_bom(chunk, ignore_leftover)) {
+            return {};
+        }
+
+        bom_skipped_ = true;
     }
 
-    return {};
+    return decode_text_record(chunk, ignore_leftover);
 }
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
-- 
2.43.0


From ce940bdf7ee9f7f72e2557dc232114d2ea556af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 05/41] fix: do not dereference the moved-from index pointer
 array of a CSR tensor

---
 src/mlio/tensor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..9d6e809 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -181,7 +181,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->size() != num_rows + 1) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From 8f19de7362ebb4097eaa3dc94eeef41581dc94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 06/41] fix: reject tensor shapes whose size is not
 representable

---
 src/mlio/tensor.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index 9d6e809..7c3ae6c 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -64,7 +64,9 @@ Ssize_vector Tensor::default_strides(const Size_vector &shape)
 
     auto d = shape.rbegin();
     for (auto s = strides.rbegin() + 1; s < strides.rend(); ++s, ++d) {
-        *s = *(s - 1) * as_ssize(*d);
+        if (as_ssize(*d) < 0 || __builtin_mul_overflow(*(s - 1), as_ssize(*d), &*s)) {
+            throw std::invalid_argument{"The shape is too large."};
+        }
     }
 
     return strides;
@@ -102,14 +104,29 @@ void Dense_tensor::validate_data_size() const
     auto stride_pos = strides().begin();
 
     std::size_t last_idx = 0;
+
+    bool overflow = false;
+
     for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+        // There are no elements.
+        if (dim == 0) {
+            return;
+        }
+
+        std::size_t stride = as_size(*stride_pos);
+        if (*stride_pos < 0) {
+            stride = 0 - stride;
+        }
+
+        std::size_t extent{};
+
+        overflow |= __builtin_mul_overflow(dim - 1, stride, &extent);
+        overflow |= __builtin_add_overflow(last_idx, extent, &last_idx);
 
         ++stride_pos;
     }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
+    if (overflow || last_idx >= data_->size()) {
         throw std::invalid_argument{
             "The size of the data array does not match the specified shape."};
     }
-- 
2.43.0


From d8377cf6a8bb3f1c305ff6e5fd7b129fc5998c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 07/41] fix: do not move the position of a memory stream
 backwards for huge distances

---
 src/mlio/streams/memory_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..03f5df7 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,7 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    pos_ += as_ssize(std::min(distance, as_size(source_.end() - pos_)));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From cbb7d4770bac3741c9558362325d26e71cd167f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 08/41] fix: move a hybrid memory block to a file according to
 its new size

---
 src/mlio/memory/file_backed_memory_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..6be5108 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
-- 
2.43.0


From 221f28cd54c5cbd3fc724e3dd8bb3f4618180147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 09/41] fix: do not report the end of a gzip stream when input
 gives no output yet

---
 src/mlio/streams/gzip_inflate_stream.cc | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..3e5a60b 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -43,30 +43,36 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
-
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    auto out = destination;
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+    // The inflater can consume input without having any output yet; in
+    // such case we have to carry on as returning zero means the end of
+    // the stream.
+    while (out.size() == destination.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            buffer_ = inner_->read(0x8'0000);  // 512 KiB
+
+            // Make sure to reset the position before checking whether we
+            // reached the end of the stream; otherwise the function won't
+            // behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
+
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{
+                        "The zlib stream contains invalid or incomplete deflate data."};
+                }
+
+                return 0;
             }
-
-            return 0;
         }
-    }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    auto out = destination;
-
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From c82d2fd288a9bd99a63d0284432994fdf4113fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 10/41] fix: inflate buffers larger than the zlib counters
 piece by piece

---
 src/mlio/streams/detail/zlib.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/detail/zlib.cc b/src/mlio/streams/detail/zlib.cc
index 6bc74ee..2df6933 100644
--- a/src/mlio/streams/detail/zlib.cc
+++ b/src/mlio/streams/detail/zlib.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/streams/detail/zlib.h"
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
+#include <limits>
 #include <new>
 
 #include "mlio/not_supported_error.h"
@@ -60,8 +63,13 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
     stream_.next_in = const_cast<::Bytef *>(i_buf.data());
     stream_.next_out = o_buf.data();
 
-    stream_.avail_in = static_cast<::uInt>(i_buf.size());
-    stream_.avail_out = static_cast<::uInt>(o_buf.size());
+    constexpr std::size_t max_avail = std::numeric_limits<::uInt>::max();
+
+    auto avail_in = static_cast<::uInt>(std::min(i_buf.size(), max_avail));
+    auto avail_out = static_cast<::uInt>(std::min(o_buf.size(), max_avail));
+
+    stream_.avail_in = avail_in;
+    stream_.avail_out = avail_out;
 
     state_ = ::inflate(&stream_, Z_NO_FLUSH);
 
@@ -71,8 +79,8 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
         ::inflateReset(&stream_);
     }
 
-    inp = inp.last(stream_.avail_in);
-    out = out.last(stream_.avail_out);
+    inp = inp.subspan(avail_in - stream_.avail_in);
+    out = out.subspan(avail_out - stream_.avail_out);
 }
 
 void Zlib_inflater::validate_state() const
-- 
2.43.0


From 25332068c1aad859f930bfa2bb1f5bcf6152fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 11/41] fix: convert a non-seekable text that ends within its
 preamble

---
 include/mlio/streams/utf8_input_stream.h |  1 +
 src/mlio/streams/utf8_input_stream.cc    | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index d78801c..48bdce8 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -88,6 +88,7 @@ private:
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
     bool should_fill_buffer_ = true;
+    bool has_preamble_{};
     std::array<std::byte, 4> char_buffer_{};
     Memory_span remaining_bits_{};
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..21b3d16 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -135,15 +135,20 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
                 // We reached the end of the stream; we should check if
                 // there are unconsumed bytes in the buffer that cannot
                 // be converted.
-                if (buffer_pos_ != buffer_->begin()) {
+                if (buffer_pos_ == buffer_->begin()) {
+                    return 0;
+                }
+
+                // The preamble has not been converted yet.
+                if (!has_preamble_) {
                     throw Stream_error{fmt::format(
                         "An invalid byte sequence encountered while converting from {0} to UTF-8.",
                         converter_->encoding().name())};
                 }
-
-                return 0;
             }
 
+            has_preamble_ = false;
+
             // If there were leftover bytes from the previous iteration
             // or call, we now have to reset the position back to the
             // beginning of the buffer.
@@ -219,6 +224,8 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
         buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        has_preamble_ = !value.empty();
     }
 }
 
-- 
2.43.0


From 45d4ceb37b9d5a01610e4777ca68d5afe68b32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 12/41] fix: convert Latin-1 text to UTF-8 instead of passing
 it through

---
 src/mlio/streams/utf8_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 21b3d16..42f02cb 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -295,7 +295,7 @@ Intrusive_ptr<Input_stream>
 make_utf8_stream(Intrusive_ptr<Input_stream> stream, std::optional<Text_encoding> encoding)
 {
     if (encoding != std::nullopt) {
-        if (*encoding == Text_encoding::utf8 || *encoding == Text_encoding::ascii_latin1) {
+        if (*encoding == Text_encoding::utf8) {
             return stream;
         }
     }
-- 
2.43.0


From e019c31af67c6d4a4e670d8a0ee833b48dd2eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 13/41] fix: do not loop forever when loading an empty seekable
 data store

---
 src/mlio/instance.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..bc1d5b5 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -92,12 +92,14 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
             block = resize_memory_block(block, prev_size * 2);
         }
         else {
+            std::size_t size = 0;
             if (stream.seekable()) {
-                block = memory_allocator().allocate(stream.size());
+                size = stream.size();
             }
-            else {
-                block = memory_allocator().allocate(0x100000);  // 1MiB
+            if (size == 0) {
+                size = 0x100000;  // 1MiB
             }
+            block = memory_allocator().allocate(size);
         }
 
         remaining_bits = Mutable_memory_span{*block}.subspan(prev_size);
-- 
2.43.0


From a6f8ed81548dfaabe87e0f5c0a7fcd28236c3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 14/41] fix: pad the last batch also when a warning is
 requested

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From 830c61c905f0226346b8c991b09b35e3f486259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 15/41] fix: reject a NaN sample ratio

---
 src/mlio/instance_readers/sampled_instance_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index 58adb46..c6e8eb1 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -27,7 +27,8 @@ Sampled_instance_reader::Sampled_instance_reader(const Data_reader_params &param
                                                  std::unique_ptr<Instance_reader> &&inner)
     : params_{&params}, inner_{std::move(inner)}
 {
-    if (params_->sample_ratio <= 0.0F || params_->sample_ratio >= 1.0F) {
+    // Formulated positively to reject a NaN as well.
+    if (!(params_->sample_ratio > 0.0F && params_->sample_ratio < 1.0F)) {
         throw std::invalid_argument{"The sample ratio must be greater than 0 and less than 1."};
     }
 
-- 
2.43.0


From 51da1fd640c63bfd25230fd320c83b41893deb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 16/41] fix: do not end a sampled dataset at a window that
 keeps no instance

---
 .../sampled_instance_reader.cc                | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index c6e8eb1..ed7fc83 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -52,23 +52,32 @@ std::optional<Instance> Sampled_instance_reader::read_instance_core()
 
 void Sampled_instance_reader::fill_buffer_from_inner()
 {
-    buffer_.clear();
+    bool inner_has_instance = true;
 
-    while (buffer_.size() < num_instances_to_read_) {
-        std::optional<Instance> instance = inner_->read_instance();
-        if (instance == std::nullopt) {
-            break;
-        }
+    // If the sample ratio is small, no instance of a window might be
+    // kept. An empty buffer means the end of the dataset, therefore we
+    // have to move on to the next window in such case.
+    do {
+        buffer_.clear();
 
-        buffer_.emplace_back(std::move(instance));
-    }
+        while (buffer_.size() < num_instances_to_read_) {
+            std::optional<Instance> instance = inner_->read_instance();
+            if (instance == std::nullopt) {
+                inner_has_instance = false;
 
-    if (!buffer_.empty()) {
-        auto num_keep = static_cast<std::ptrdiff_t>(*params_->sample_ratio *
-                                                    static_cast<float>(buffer_.size()));
+                break;
+            }
 
-        buffer_.erase(buffer_.begin() + num_keep, buffer_.end());
-    }
+            buffer_.emplace_back(std::move(instance));
+        }
+
+        if (!buffer_.empty()) {
+            auto num_keep = static_cast<std::ptrdiff_t>(*params_->sample_ratio *
+                                                        static_cast<float>(buffer_.size()));
+
+            buffer_.erase(buffer_.begin() + num_keep, buffer_.end());
+        }
+    } while (buffer_.empty() && inner_has_instance);
 
     buffer_pos_ = buffer_.begin();
 }
-- 
2.43.0


From 841b67741cb227a7d9acd4cf27c72cb54e6e8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 17/41] fix: reject an invalid shard index if the dataset is
 not sharded

---
 src/mlio/instance_readers/instance_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_readers/instance_reader.cc b/src/mlio/instance_readers/instance_reader.cc
index d488b03..8817f7c 100644
--- a/src/mlio/instance_readers/instance_reader.cc
+++ b/src/mlio/instance_readers/instance_reader.cc
@@ -39,7 +39,9 @@ make_instance_reader(const Data_reader_params &params, Record_reader_factory &&f
         reader = std::make_unique<Ranged_instance_reader>(params, std::move(reader));
     }
 
-    if (params.num_shards > 1) {
+    // A non-zero shard index without sharding gets rejected by the
+    // sharded instance reader.
+    if (params.num_shards > 1 || params.shard_index > 0) {
         reader = std::make_unique<Sharded_instance_reader>(params, std::move(reader));
     }
 
-- 
2.43.0


From 1cf747247daf77bceea9e93b5b01b183f5a4d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 18/41] fix: do not merge parts of different data stores into
 one record

---
 src/mlio/instance_readers/core_instance_reader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..d2cf3fb 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -126,6 +126,9 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
 
     std::size_t payload_size = 0;
 
+    // All parts have to be in the same data store.
+    auto store_iter = store_iter_;
+
     // A split record must start with a 'begin' record...
     if (record->kind() == Record_kind::begin) {
         payload_size += record->payload().size();
@@ -137,14 +140,15 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
     }
 
     // continue with zero or more 'middle' records...
-    while ((record = read_record()) && record->kind() == Record_kind::middle) {
+    while ((record = read_record()) && store_iter_ == store_iter &&
+           record->kind() == Record_kind::middle) {
         payload_size += record->payload().size();
 
         records.emplace_back(std::move(*record));
     }
 
     // and end with an 'end' record.
-    if (record && record->kind() == Record_kind::end) {
+    if (record && store_iter_ == store_iter && record->kind() == Record_kind::end) {
         payload_size += record->payload().size();
 
         records.emplace_back(std::move(*record));
-- 
2.43.0


From 9e040a66b6ba5dd06f9b11d6d96ec1df5e5d7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 19/41] fix: do not divide by zero for sparse features with a
 zero dimension

---
 src/mlio/coo_tensor_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..d9290ef 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -52,6 +52,11 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
 
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
+            // If one of the inner dimensions is zero, there is no valid
+            // index.
+            if (stride == 0) {
+                return false;
+            }
 
             std::size_t dim_idx = idx / stride;
 
-- 
2.43.0


From 5adfe30d666ebc8710c76f7cf5dab5ae81f4c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 20/41] fix: do not keep a partial row in a COO tensor if an
 index is invalid

---
 src/mlio/coo_tensor_builder.cc | 18 ++++++++++++++++++
 src/mlio/coo_tensor_builder.h  | 10 +++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index d9290ef..cbedaae 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -40,11 +40,25 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     auto zip_beg = tbb::make_zip_iterator(dim_beg, stride_beg, coordinates_beg);
     auto zip_end = tbb::make_zip_iterator(dim_end, stride_end, coordinates_end);
 
+    // If an index turns out to be invalid, no coordinate of the row must
+    // be left behind.
+    std::size_t num_values = coordinates_[0].size();
+
+    auto discard_row = [this, num_values]() {
+        for (std::vector<std::size_t> &coordinates : coordinates_) {
+            if (coordinates.size() > num_values) {
+                coordinates.resize(num_values);
+            }
+        }
+    };
+
     for (auto uint_idx : indices) {
         std::size_t idx{};
         // On a 32-bit system we might not be able to convert the index
         // from 64-bit to 32-bit without narrowing.
         if (!try_narrow(uint_idx, idx)) {
+            discard_row();
+
             return false;
         }
 
@@ -55,6 +69,8 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
             // If one of the inner dimensions is zero, there is no valid
             // index.
             if (stride == 0) {
+                discard_row();
+
                 return false;
             }
 
@@ -62,6 +78,8 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
 
             // Make sure that the index is within the dimension.
             if (dim_idx >= std::get<0>(*zip_pos)) {
+                discard_row();
+
                 return false;
             }
 
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..fce0c4e 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -80,9 +80,17 @@ template<Data_type dt>
 bool Coo_tensor_builder_impl<dt>::append(stdx::span<const value_type> values,
                                          stdx::span<const std::uint64_t> indices)
 {
+    if (values.size() != indices.size()) {
+        return false;
+    }
+
+    if (!append_indices(indices)) {
+        return false;
+    }
+
     data_.insert(data_.end(), values.begin(), values.end());
 
-    return append_indices(indices);
+    return true;
 }
 
 template<Data_type dt>
-- 
2.43.0


From a011436e7a196af27f9446cced3ddd4f9b53a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 21/41] fix: do not leave values of a bad RecordIO-protobuf
 instance in an example

---
 src/mlio/coo_tensor_builder.cc       | 19 +++++++++++++++
 src/mlio/coo_tensor_builder.h        | 13 ++++++++++
 src/mlio/recordio_protobuf_reader.cc | 36 ++++++++++++++++++++++++++++
 3 files changed, 68 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index cbedaae..5a746c2 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -96,6 +96,25 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::discard_indices(std::size_t num_rows)
+{
+    if (row_idx_ > num_rows) {
+        row_idx_ = num_rows;
+    }
+
+    std::size_t num_values = coordinates_[0].size();
+
+    while (num_values > 0 && coordinates_[0][num_values - 1] >= num_rows) {
+        num_values--;
+    }
+
+    for (std::vector<std::size_t> &coordinates : coordinates_) {
+        coordinates.resize(num_values);
+    }
+
+    return num_values;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index fce0c4e..15f131c 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -49,7 +49,12 @@ public:
 
     virtual Intrusive_ptr<Tensor> build() = 0;
 
+    /// Removes all rows except the first @p num_rows.
+    virtual void discard_rows(std::size_t num_rows) = 0;
+
 protected:
+    std::size_t discard_indices(std::size_t num_rows);
+
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
@@ -72,6 +77,8 @@ public:
 
     Intrusive_ptr<Tensor> build() final;
 
+    void discard_rows(std::size_t num_rows) final;
+
 private:
     std::vector<value_type> data_{};
 };
@@ -93,6 +100,12 @@ bool Coo_tensor_builder_impl<dt>::append(stdx::span<const value_type> values,
     return true;
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::discard_rows(std::size_t num_rows)
+{
+    data_.resize(discard_indices(num_rows));
+}
+
 template<Data_type dt>
 Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
 {
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..dafa57a 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -78,7 +78,14 @@ public:
 
     bool decode(std::size_t row_idx, const Instance &instance);
 
+    /// Removes the values that a bad instance might have left in the
+    /// specified row.
+    void discard_row(std::size_t row_idx) const;
+
 private:
+    template<Data_type dt>
+    struct clear_op;
+
     const aialgs::data::Record *parse_proto(const Instance &instance) const;
 
     bool decode_feature(const std::string &name, const aialgs::data::Value &value);
@@ -361,6 +368,8 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            dc.discard_row(row_idx);
         }
     }
 
@@ -532,6 +541,33 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
     return false;
 }
 
+template<Data_type dt>
+struct Recordio_protobuf_reader::Decoder::clear_op {
+    void operator()(Device_array_span arr, std::ptrdiff_t offset, std::ptrdiff_t num_values)
+    {
+        std::fill_n(arr.as<data_type_t<dt>>().begin() + offset, num_values, data_type_t<dt>{});
+    }
+};
+
+void Recordio_protobuf_reader::Decoder::discard_row(std::size_t row_idx) const
+{
+    const auto &attrs = state_->reader->schema()->attributes();
+
+    for (std::size_t i = 0; i < attrs.size(); i++) {
+        if (attrs[i].sparse()) {
+            state_->coo_tensor_builders[i]->discard_rows(row_idx);
+        }
+        else {
+            auto &tsr = static_cast<Dense_tensor &>(*state_->tensors[i]);
+
+            std::ptrdiff_t num_values = attrs[i].strides()[0];
+
+            dispatch<clear_op>(
+                attrs[i].data_type(), tsr.data(), as_ssize(row_idx) * num_values, num_values);
+        }
+    }
+}
+
 const aialgs::data::Record *
 Recordio_protobuf_reader::Decoder::parse_proto(const Instance &instance) const
 {
-- 
2.43.0


From 21bab67f598da9ab9233efadf3005d56f9589608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 22/41] fix: treat an instance with two values for the same
 attribute as bad

---
 src/mlio/recordio_protobuf_reader.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index dafa57a..91529f2 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -506,6 +506,31 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
         num_features_read++;
     }
     for (auto &[label, value] : proto_msg->features()) {
+        // A feature can have the same name as a prefixed label; in such
+        // case the instance has two values for the same attribute.
+        bool is_duplicate = label.compare(0, 6, "label_") == 0 &&
+                            proto_msg->label().find(label.substr(6)) != proto_msg->label().end();
+
+        if (is_duplicate) {
+            if (state_->warn_bad_instance || state_->error_bad_example) {
+                auto msg = fmt::format(
+                    "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+                    instance_->data_store().id(),
+                    instance_->index(),
+                    label);
+
+                if (state_->warn_bad_instance) {
+                    logger::warn(msg);
+                }
+
+                if (state_->error_bad_example) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         if (!decode_feature(label, value)) {
             return false;
         }
-- 
2.43.0


From 7c3bc3bf814fc31770c004ec503ba4bace531ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 23/41] fix: do not leave fields of a bad CSV row in a padding
 row

---
 src/mlio/csv_reader.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..065bc24 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -60,6 +60,20 @@ struct Csv_reader::Decoder_state {
     bool error_bad_example;
 };
 
+namespace detail {
+namespace {
+
+template<Data_type dt>
+struct clear_element_op {
+    void operator()(Device_array_span arr, std::size_t index)
+    {
+        arr.as<data_type_t<dt>>()[index] = data_type_t<dt>{};
+    }
+};
+
+}  // namespace
+}  // namespace detail
+
 template<typename Col_iter>
 class Csv_reader::Decoder {
 public:
@@ -554,6 +568,17 @@ Csv_reader::decode_ser(Decoder_state &state, const Instance_batch &batch) const
         }
     }
 
+    // If the last instances were bad, their leading fields might have
+    // been already written to the first padding row.
+    if (row_idx < batch.instances().size()) {
+        for (const Intrusive_ptr<Tensor> &tensor : *state.tensors) {
+            auto &dense_tensor = static_cast<Dense_tensor &>(*tensor);
+
+            dispatch<detail::clear_element_op>(
+                dense_tensor.data_type(), dense_tensor.data(), row_idx);
+        }
+    }
+
     return row_idx;
 }
 
-- 
2.43.0


From 91ac6741bbd76e361e10feb583b9161c3d032f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 24/41] fix: tell numbers out of range and invalid numbers
 apart

---
 src/mlio/util/number.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..3df98f0 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -15,6 +15,7 @@
 
 #include "mlio/util/number.h"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <limits>
@@ -51,6 +52,19 @@ struct parser_traits<T, std::enable_if_t<std::is_integral_v<T>>> {
 
 // clang-format on
 
+bool is_integer(std::string_view s) noexcept
+{
+    s = trim(s);
+
+    if (!s.empty() && (s.front() == '-' || s.front() == '+')) {
+        s.remove_prefix(1);
+    }
+
+    return !s.empty() && std::all_of(s.begin(), s.end(), [](char c) {
+        return '0' <= c && c <= '9';
+    });
+}
+
 template<typename T>
 Parse_result try_parse_float_core(std::string_view s, T &result, const Float_parse_options &opts)
 {
@@ -82,12 +96,12 @@ template<typename T>
 std::enable_if_t<sizeof(T) >= 4, Parse_result>
 try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
 {
-    // Do not use 0; otherwise we cannot distinguish between a failure
-    // and an overflow for unsigned types.
-    T v = 1;
+    T v{};
 
     if (!parser_traits<T>::parse_func(s, &v)) {
-        if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
+        // If the text is a number, it can be only refused because it is
+        // not in the range of the type.
+        if (is_integer(s)) {
             return Parse_result::overflowed;
         }
         return Parse_result::failed;
-- 
2.43.0


From 089eb010bb74028170df6282ce8b9f3d21c5d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 25/41] fix: take the maximum of the registers when merging
 HyperLogLog estimators

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
index dffc9d7..6f6ddbc 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
@@ -106,7 +106,7 @@ void HyperLogLog::merge(const HyperLogLog &other)
     }
     for (uint32_t r = 0; r < m_; ++r) {
         if (M_[r] < other.M_[r]) {
-            M_[r] |= other.M_[r];
+            M_[r] = other.M_[r];
         }
     }
 }
-- 
2.43.0


From 0c27f832fa2508589a881ef6208d5e2e99ea81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 26/41] fix: do not count the leading zeros of a zero hash

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
index 08c56a8..a57fbff 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
@@ -43,7 +43,7 @@
 
 #if defined(__has_builtin) && (defined(__GNUC__) || defined(__clang__))
 
-#define _GET_CLZ(x, b) (uint8_t) std::min(b, ::__builtin_clz(x)) + 1
+#define _GET_CLZ(x, b) (uint8_t)((x) == 0 ? (b) : std::min(b, ::__builtin_clz(x))) + 1
 
 #else
 
-- 
2.43.0


From 58752d843db27047399693bdf8b9f9a9bed860da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 27/41] fix: validate the bit width of a HyperLogLog estimator
 before using it

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
index 6f6ddbc..a8150dc 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
@@ -32,12 +32,16 @@
 
 namespace hll {
 
-HyperLogLog::HyperLogLog(uint8_t b) : b_(b), m_(1 << b), M_(m_, 0)
+static uint8_t validate_bit_width(uint8_t b)
 {
     if (b < 4 || 30 < b) {
         throw std::invalid_argument("bit width must be in the range [4,30]");
     }
+    return b;
+}
 
+HyperLogLog::HyperLogLog(uint8_t b) : b_(validate_bit_width(b)), m_(1 << b), M_(m_, 0)
+{
     double alpha;
     switch (m_) {
     case 16:
-- 
2.43.0


From 5c0256416f8323d9c479e4db5342a06e8792c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 28/41] fix: do not dereference a null data store when a split
 record is cut off by the end of the dataset

---
 src/mlio/instance_readers/core_instance_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index d2cf3fb..b47b7d2 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -129,6 +129,8 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
     // All parts have to be in the same data store.
     auto store_iter = store_iter_;
 
+    Data_store *store = store_;
+
     // A split record must start with a 'begin' record...
     if (record->kind() == Record_kind::begin) {
         payload_size += record->payload().size();
@@ -154,6 +156,10 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
         records.emplace_back(std::move(*record));
     }
     else {
+        // While looking for the next part we might have moved to another
+        // data store or reached the end of the dataset.
+        store_ = store;
+
         throw_corrupt_split_record_error();
     }
 
-- 
2.43.0


From c36e921a6b098211a0e02e3410d6f70ac8c89202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 29/41] fix: deliver the character that iconv holds back at the
 end of a text

---
 src/mlio/streams/detail/iconv.cc      | 23 +++++++++++++++++++++++
 src/mlio/streams/detail/iconv.h       |  4 ++++
 src/mlio/streams/utf8_input_stream.cc |  6 +++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/detail/iconv.cc b/src/mlio/streams/detail/iconv.cc
index 4b62633..566762e 100644
--- a/src/mlio/streams/detail/iconv.cc
+++ b/src/mlio/streams/detail/iconv.cc
@@ -96,6 +96,29 @@ Iconv_status Iconv_desc::convert(Memory_span &inp, Mutable_memory_span &out)
             encoding_.name())};
 }
 
+void Iconv_desc::flush(Mutable_memory_span &out)
+{
+    auto o_chars = as_span<char>(out);
+
+    auto o_data = o_chars.data();
+    auto o_left = o_chars.size();
+
+    std::size_t r = ::iconv(desc_, nullptr, nullptr, &o_data, &o_left);
+
+    out = out.last(o_left);
+
+    if (static_cast<std::ptrdiff_t>(r) != -1 || errno == E2BIG) {
+        return;
+    }
+
+    std::error_code err = current_error_code();
+    throw std::system_error{
+        err,
+        fmt::format(
+            "An unexpected error occurred while trying to convert a byte sequence from {0} to UTF-8.",
+            encoding_.name())};
+}
+
 }  // namespace detail
 }  // namespace abi_v1
 }  // namespace mlio
diff --git a/src/mlio/streams/detail/iconv.h b/src/mlio/streams/detail/iconv.h
index efbd81e..dd22c3f 100644
--- a/src/mlio/streams/detail/iconv.h
+++ b/src/mlio/streams/detail/iconv.h
@@ -42,6 +42,10 @@ public:
 
     Iconv_status convert(Memory_span &inp, Mutable_memory_span &out);
 
+    /// Writes the character, if any, that was held back by the
+    /// conversion at the end of the text.
+    void flush(Mutable_memory_span &out);
+
     const Text_encoding &encoding() const noexcept
     {
         return encoding_;
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 42f02cb..79cd117 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -136,7 +136,11 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
                 // there are unconsumed bytes in the buffer that cannot
                 // be converted.
                 if (buffer_pos_ == buffer_->begin()) {
-                    return 0;
+                    // Some encodings hold back a character until they
+                    // know whether it combines with the next one.
+                    converter_->flush(out);
+
+                    break;
                 }
 
                 // The preamble has not been converted yet.
-- 
2.43.0


From e0f157ae66e6a5df1b52f64155dc50692c639123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 30/41] fix: do not give back a SageMaker pipe channel twice

A stream that was closed gave the channel back a second time when it was
destroyed. If another stream had acquired the channel in the meantime, a
third one could open it at the same time, and the FIFO number went back.
---
 src/mlio/streams/sagemaker_pipe_input_stream.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..3807072 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -111,7 +111,13 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    // If we have already given back the channel, it might have been
+    // acquired by another stream in the meantime.
+    if (fifo_id_ == -1) {
+        return;
+    }
+
+    detail::fifo_ids_[path_].exchange(std::exchange(fifo_id_, -1));
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
-- 
2.43.0


From 567201217f69914c41620a9d89fdf0ed168a7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 31/41] fix: wait for a SageMaker pipe with poll() instead of
 select()

A descriptor that is not less than FD_SETSIZE made FD_SET() write outside
of the descriptor set on the stack.
---
 .../streams/sagemaker_pipe_input_stream.cc    | 58 ++++++++++---------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 3807072..896f642 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,15 +15,18 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
+#include <algorithm>
 #include <atomic>
 #include <cerrno>
+#include <chrono>
+#include <limits>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
 #include <utility>
 
 #include <fcntl.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <time.h>  // NOLINT(modernize-deprecated-headers)
 #include <unistd.h>
 
@@ -31,7 +34,6 @@
 
 #include "mlio/detail/error.h"
 #include "mlio/detail/path.h"
-#include "mlio/detail/system_call.h"
 #include "mlio/logger.h"
 #include "mlio/streams/stream_error.h"
 #include "mlio/util/cast.h"
@@ -197,32 +199,32 @@ void Sagemaker_pipe_input_stream::sleep() noexcept
 
 void Sagemaker_pipe_input_stream::wait_for_data()
 {
-    ::fd_set readfds{};
-    // NOLINTNEXTLINE(readability-isolate-declaration)
-    FD_ZERO(&readfds);
-
-    // See https://sourceware.org/bugzilla/show_bug.cgi?id=12373.
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wsign-conversion"
-#endif
-
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-    FD_SET(fifo_fd_.get(), &readfds);
-
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
-    ::timeval tv{};
-    tv.tv_sec = timeout_.count();
-
-    // On Linux if select() is interrupted by a signal handler, the
-    // timeout is modified to indicate the remaining time. This means we
-    // do not need to keep track of it. Note that this is not compliant
-    // with SUSv3.
-    int ready =
-        detail::temp_failure_retry(::select, fifo_fd_.get() + 1, &readfds, nullptr, nullptr, &tv);
+    using Clock = std::chrono::steady_clock;
+    using std::chrono::milliseconds;
+
+    // poll() takes the timeout in milliseconds.
+    constexpr std::chrono::seconds max_timeout{std::numeric_limits<int>::max() / 1000};
+
+    milliseconds timeout = std::clamp(timeout_, std::chrono::seconds::zero(), max_timeout);
+
+    Clock::time_point start = Clock::now();
+
+    ::pollfd pfd{};
+    pfd.fd = fifo_fd_.get();
+    pfd.events = POLLIN;
+
+    // Unlike select() poll() has no upper limit for the descriptor. If
+    // it is interrupted by a signal handler, we wait for the remaining
+    // time only.
+    milliseconds remaining = timeout;
+
+    int ready{};
+    while ((ready = ::poll(&pfd, 1, static_cast<int>(remaining.count()))) == -1 &&
+           errno == EINTR) {
+        auto elapsed = std::chrono::duration_cast<milliseconds>(Clock::now() - start);
+
+        remaining = elapsed < timeout ? timeout - elapsed : milliseconds{};
+    }
 
     if (ready == 0) {
         std::error_code err = std::make_error_code(std::errc::timed_out);
-- 
2.43.0


From 475f668033e958a00f4563274a5a018520f34113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:38 +0000
Subject: [PATCH 32/41] fix: reject CSR tensors whose row count plus one wraps
 around

A shape with 2^64-1 rows was accepted together with an empty index pointer
array.
---
 src/mlio/tensor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index 7c3ae6c..e73736b 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -198,7 +198,8 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr_->size() != num_rows + 1) {
+    // Beware that adding one to the number of rows can overflow.
+    if (indptr_->size() == 0 || indptr_->size() - 1 != num_rows) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From f753c1b7a398c6ce67cb5ea3d9faef0465bfccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 33/41] fix: listing the files of no paths read uninitialised
 memory

---
 src/mlio/data_stores/file_list.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 3b4b1cc..6f47836 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -89,6 +89,11 @@ auto make_fts(stdx::span<const std::string> paths)
 std::vector<Intrusive_ptr<Data_store>>
 list_files(stdx::span<const std::string> paths, const File_list_options &opts)
 {
+    // fts cannot traverse an empty list of paths.
+    if (paths.empty()) {
+        return {};
+    }
+
     auto fts = detail::make_fts(paths);
 
     std::string pattern{opts.pattern};
-- 
2.43.0


From 2b877e792550830637cba20fb2200c8246a44219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 34/41] fix: the identifier of a data store was constructed on
 demand by several threads at once

---
 include/mlio/data_stores/in_memory_store.h |  2 +-
 include/mlio/data_stores/s3_object.h       |  2 +-
 src/mlio/data_stores/in_memory_store.cc    | 10 +++++-----
 src/mlio/data_stores/s3_object.cc          | 12 ++++--------
 4 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/mlio/data_stores/in_memory_store.h b/include/mlio/data_stores/in_memory_store.h
index 779128b..0aa39ed 100644
--- a/include/mlio/data_stores/in_memory_store.h
+++ b/include/mlio/data_stores/in_memory_store.h
@@ -44,7 +44,7 @@ public:
 private:
     Memory_slice chunk_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 /// @}
diff --git a/include/mlio/data_stores/s3_object.h b/include/mlio/data_stores/s3_object.h
index 6ae435c..bfe87ac 100644
--- a/include/mlio/data_stores/s3_object.h
+++ b/include/mlio/data_stores/s3_object.h
@@ -54,7 +54,7 @@ private:
     std::string uri_;
     std::string version_id_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 struct MLIO_API S3_object_list_options {
diff --git a/src/mlio/data_stores/in_memory_store.cc b/src/mlio/data_stores/in_memory_store.cc
index 4e1e8ab..bdfe381 100644
--- a/src/mlio/data_stores/in_memory_store.cc
+++ b/src/mlio/data_stores/in_memory_store.cc
@@ -33,6 +33,11 @@ In_memory_store::In_memory_store(Memory_slice chunk, Compression compression)
     if (compression_ == Compression::infer) {
         throw Not_supported_error{"The in-memory store does not support inferring compression."};
     }
+
+    // The identifier can be requested by several threads at once; it must
+    // not be constructed on demand.
+    auto *ptr = static_cast<const void *>(chunk_.data());
+    id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
 }
 
 Intrusive_ptr<Input_stream> In_memory_store::open_read() const
@@ -51,11 +56,6 @@ Intrusive_ptr<Input_stream> In_memory_store::open_read() const
 
 const std::string &In_memory_store::id() const
 {
-    if (id_.empty()) {
-        auto *ptr = static_cast<const void *>(chunk_.data());
-        id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
-    }
-
     return id_;
 }
 
diff --git a/src/mlio/data_stores/s3_object.cc b/src/mlio/data_stores/s3_object.cc
index 23c0945..b10b383 100644
--- a/src/mlio/data_stores/s3_object.cc
+++ b/src/mlio/data_stores/s3_object.cc
@@ -47,6 +47,10 @@ S3_object::S3_object(Intrusive_ptr<const S3_client> client,
     if (compression_ == Compression::infer) {
         compression_ = detail::infer_compression(uri_);
     }
+
+    // The identifier can be requested by several threads at once; it must
+    // not be constructed on demand.
+    id_ = version_id_.empty() ? uri_ : uri_ + "@" + version_id_;
 }
 
 Intrusive_ptr<Input_stream> S3_object::open_read() const
@@ -65,14 +69,6 @@ Intrusive_ptr<Input_stream> S3_object::open_read() const
 
 const std::string &S3_object::id() const
 {
-    if (id_.empty()) {
-        if (version_id_.empty()) {
-            return uri_;
-        }
-
-        id_ = uri_ + "@" + version_id_;
-    }
-
     return id_;
 }
 
-- 
2.43.0


From 58c026e3e4dfd9790a7eb0756223737591ed8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 35/41] fix: Report a failed image resize instead of failing to
 format the message

---
 src/mlio/image_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..7b7cb36 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -313,7 +313,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
-- 
2.43.0


From cb4db30d9d99caf12fbe4099d6072cc7a96b8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 36/41] fix: Keep the alpha channel when converting images to
 RGB

---
 src/mlio/image_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 7b7cb36..73f66b1 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -207,7 +207,9 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            // The alpha channel, if there is one, must be preserved.
+            cv::cvtColor(
+                tmp, tmp, tmp.channels() == 4 ? cv::COLOR_BGRA2RGBA : cv::COLOR_BGR2RGB);
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
-- 
2.43.0


From 824d531032858267b2d6a92ffaa45d513353c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 37/41] fix: Treat images with more than eight bits per channel
 as bad instances

---
 src/mlio/image_reader.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 73f66b1..29696b4 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -290,6 +290,26 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
             decoded_img.channels())};
     }
 
+    // The output has eight bits per channel.
+    if (decoded_img.depth() != CV_8U) {
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' has an unsupported number of bits per channel.",
+                instance.data_store().id(),
+                instance.index());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return cv::Mat{};
+    }
+
     return decoded_img;
 }
 
-- 
2.43.0


From ed864252d504a1f4e8956c6b8f2380262acab0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 38/41] fix: Treat RecordIO images without header as bad
 instances

---
 src/mlio/image_reader.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 29696b4..aa6d972 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -160,6 +160,25 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
+        if (instance.bits().size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The image #{1:n} in the data store '{0}' has no valid image header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         img_buf = instance.bits().subslice(recordio_image_header_offset_);
     }
     else {
-- 
2.43.0


From 673b3c4723ccb0fbf63aa0a855cd837a4ec0a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 39/41] fix: Do not let the size of resized images overflow

---
 src/mlio/image_reader.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index aa6d972..b2f3aef 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -337,15 +337,16 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     int new_cols{};
     int new_rows{};
 
-    int resize_value = static_cast<int>(*params_.resize);
+    int resize_value = cv::saturate_cast<int>(static_cast<std::uint64_t>(*params_.resize));
 
+    // Sizes that do not fit get rejected by the resize operation.
     if (src.rows > src.cols) {
-        new_cols = resize_value * src.rows / src.cols;
+        new_cols = cv::saturate_cast<int>(std::int64_t{resize_value} * src.rows / src.cols);
         new_rows = resize_value;
     }
     else {
         new_cols = resize_value;
-        new_rows = resize_value * src.cols / src.rows;
+        new_rows = cv::saturate_cast<int>(std::int64_t{resize_value} * src.cols / src.rows);
     }
 
     try {
-- 
2.43.0


From 949e44f95984441ea91bfa9497a4041f071d4660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 40/41] fix: Read the state of the pipeline with the lock held
 in stop

---
 src/mlio/parallel_data_reader.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 2a16aea..307a83d 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -73,20 +73,20 @@ Parallel_data_reader::Parallel_data_reader(Data_reader_params &&params)
 
 void Parallel_data_reader::stop()
 {
-    if (state_ == Run_state::not_started) {
-        return;
-    }
-
-    read_queue_.clear();
-
     {
         std::unique_lock<std::mutex> queue_lock{queue_mutex_};
 
+        if (state_ == Run_state::not_started) {
+            return;
+        }
+
         graph_->ctx.cancel_group_execution();
 
         fill_queue_.clear();
     }
 
+    read_queue_.clear();
+
     fill_condition_.notify_one();
 
     thread_.join();
-- 
2.43.0


From 7f3d60c68224f59d571e5f8041b8e0183b367b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 41/41] fix: Do not consider the pipeline running if its thread
 cannot be started

---
 src/mlio/parallel_data_reader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 307a83d..68004f0 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -146,13 +146,17 @@ Intrusive_ptr<Example> Parallel_data_reader::read_example_core()
 
 void Parallel_data_reader::ensure_pipeline_running()
 {
+    std::unique_lock<std::mutex> queue_lock{queue_mutex_};
+
     if (state_ != Run_state::not_started) {
         return;
     }
 
-    state_ = Run_state::running;
-
     thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+
+    // The background thread changes the state only with the lock held; in
+    // other words, not before it is set here.
+    state_ = Run_state::running;
 }
 
 void Parallel_data_reader::run_pipeline()
-- 
2.43.0

