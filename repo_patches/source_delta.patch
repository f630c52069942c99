From beec5e8c0d3321be94acac79a8aba5bea42ab729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:32 +0000
Subject: [PATCH 01/32] fix: deliver exceptions thrown by submitted tasks
 through the future

Via() documents that an exception thrown by the callable is stored in the
promise, but nothing caught it. The exception escaped from the worker thread
and terminated the process.
---
 src/paimon/common/executor/future.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/executor/future.h b/src/paimon/common/executor/future.h
index 9f140fb..fe6509a 100644
--- a/src/paimon/common/executor/future.h
+++ b/src/paimon/common/executor/future.h
@@ -66,11 +66,15 @@ auto Via(Executor* executor, Func&& func) -> std::future<decltype(func())> {
 
     // Wrap the task and submit it to the executor.
     executor->Add([promise, func = std::forward<Func>(func)]() mutable {
-        if constexpr (std::is_void_v<ResultType>) {
-            func();
-            promise->set_value();
-        } else {
-            promise->set_value(func());
+        try {
+            if constexpr (std::is_void_v<ResultType>) {
+                func();
+                promise->set_value();
+            } else {
+                promise->set_value(func());
+            }
+        } catch (...) {
+            promise->set_exception(std::current_exception());
         }
     });
 
-- 
2.43.0


From 5130f4d496c909a3e84729ff094e4c2cda134e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:32 +0000
Subject: [PATCH 02/32] fix: do not account for a reallocation the system
 refused

When realloc() failed the pool still added the size difference to its usage
and handed out a null pointer. The old block stays valid in this case, so
report the failure the way Malloc does and leave the accounting alone.
---
 src/paimon/common/memory/memory_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..59ea991 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -58,6 +58,9 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
+        if (memptr == nullptr && new_size != 0) {
+            throw std::bad_alloc();
+        }
         total_allocated_size.fetch_add(new_size - old_size);
         max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
         return memptr;
-- 
2.43.0


From a71900faf94f6a6f8c39edc903860e4112483a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 03/32] fix: never lower the recorded memory peak under
 concurrency

The peak was updated with a separate load and store, so a thread holding an
older, smaller value could overwrite a higher peak recorded meanwhile. Raise
it with compare-and-swap from the level the allocation itself reached.
---
 src/paimon/common/memory/memory_pool.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index 59ea991..64c786a 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,10 +39,19 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    // Raises the peak to `allocated`, the usage level right after an allocation.
+    void UpdateMaxAllocated(int64_t allocated);
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
 
+void MemoryPoolImpl::UpdateMaxAllocated(int64_t allocated) {
+    int64_t current = max_allocated.load();
+    while (current < allocated && !max_allocated.compare_exchange_weak(current, allocated)) {
+    }
+}
+
 void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
     void* memptr = nullptr;
 #define DEFAULT_ALIGNMENT 64
@@ -50,8 +59,7 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    UpdateMaxAllocated(total_allocated_size.fetch_add(size) + size);
     return memptr;
 }
 
@@ -61,8 +69,8 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
         if (memptr == nullptr && new_size != 0) {
             throw std::bad_alloc();
         }
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        UpdateMaxAllocated(total_allocated_size.fetch_add(new_size - old_size) + new_size -
+                           old_size);
         return memptr;
     } else {
         if (p == nullptr) {
@@ -74,7 +82,6 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
             total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From c6a024b7ce47634ff24ee1bbb32e1a2d0e62b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:57 +0000
Subject: [PATCH 04/32] fix: keep the in-memory input stream's position when a
 seek fails

ByteArrayInputStream::Seek moved the position before checking it, so a refused
seek left the stream outside its buffer and the next read went out of bounds.
The positional read's range check also overflowed for offsets near 2^64.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..8d938e3 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t new_position = 0;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
+            new_position = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            new_position = position_ + offset;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            new_position = static_cast<int64_t>(length) + offset;
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
-        return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+    if (new_position < 0 || new_position > static_cast<int64_t>(length_)) {
+        return Status::Invalid(fmt::format("invalid seek, after seek, current pos {}, length {}",
+                                           new_position, length_));
     }
+    position_ = new_position;
     return Status::OK();
 }
 
@@ -71,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || size > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From fb2b02fc21cc16984312da1f1191846aa715abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:12 +0000
Subject: [PATCH 05/32] fix: keep a windowed input stream usable after a failed
 or short call

OffsetInputStream moved its position before the seek or read succeeded and by
the requested instead of the transferred size, so later reads returned bytes of
another position. The boundary check also truncated positions to 32 bits, which
broke windows of 2 GiB and more.
---
 src/paimon/common/io/offset_input_stream.cpp | 42 +++++++++++---------
 src/paimon/common/io/offset_input_stream.h   |  5 ++-
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..6f64cf1 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -57,21 +57,12 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
     switch (origin) {
-        case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
-        }
-        case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
-        }
-        case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
-        }
+        case SeekOrigin::FS_SEEK_SET:
+            return SeekWrapped(offset);
+        case SeekOrigin::FS_SEEK_CUR:
+            return SeekWrapped(inner_position_ + offset);
+        case SeekOrigin::FS_SEEK_END:
+            return SeekWrapped(length_ + offset);
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
@@ -81,8 +72,14 @@ Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
     PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    if (!synced_) {
+        PAIMON_RETURN_NOT_OK(SeekWrapped(inner_position_));
+    }
+    synced_ = false;
+    PAIMON_ASSIGN_OR_RAISE(int32_t read_length, wrapped_->Read(buffer, size));
+    inner_position_ += read_length;
+    synced_ = true;
+    return read_length;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
@@ -122,7 +119,16 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::SeekWrapped(int64_t inner_pos) {
+    PAIMON_RETURN_NOT_OK(AssertBoundary(inner_pos));
+    synced_ = false;
+    PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + inner_pos, SeekOrigin::FS_SEEK_SET));
+    inner_position_ = inner_pos;
+    synced_ = true;
+    return Status::OK();
+}
+
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..116969d 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,12 +53,15 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
+    Status SeekWrapped(int64_t inner_pos);
 
  private:
     std::shared_ptr<InputStream> wrapped_;
     const int64_t length_;
     const int64_t offset_;
     int64_t inner_position_ = 0;
+    // false if a failed call may have left wrapped_ at another position than inner_position_
+    bool synced_ = true;
 };
 }  // namespace paimon
-- 
2.43.0


From ab2e743c67fa2350f73cf0ad09d477e7c5609869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:31 +0000
Subject: [PATCH 06/32] fix: let the buffered input stream cope with short
 reads of its source

A source that delivered fewer bytes than requested made a refill fail, and one
that delivered none at the end of the data tripped an assertion (or looped
forever in release builds) instead of reporting an error.
---
 src/paimon/common/io/buffered_input_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..914599f 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -61,7 +61,9 @@ Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            break;
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
@@ -99,7 +101,7 @@ Status BufferedInputStream::Fill() {
     PAIMON_ASSIGN_OR_RAISE(int64_t length, in_->Length());
     int64_t left_to_read = std::min((length - in_pos), static_cast<int64_t>(buffer_size_));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len, in_->Read(buffer_->data(), left_to_read));
-    PAIMON_RETURN_NOT_OK(AssertReadLength(left_to_read, actual_read_len));
+    // the source may deliver less than requested, further calls deliver the rest
     count_ = actual_read_len;
     return Status::OK();
 }
-- 
2.43.0


From fb2ea0c3267f95c86ff96b0cca687ff5f91b1381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:30 +0000
Subject: [PATCH 07/32] fix: refuse strings that do not fit the 16 bit length
 of the data streams

DataOutputStream silently wrote only the low 16 bits of the length and as many
bytes; MemorySegmentOutputStream wrote a wrong length followed by all bytes. The
former now returns an error and the latter throws.
---
 src/paimon/common/io/data_output_stream.cpp           | 5 +++++
 src/paimon/common/io/memory_segment_output_stream.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..4495f8a 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,10 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(
+            fmt::format("string of {} bytes exceeds the 16 bit length field", value.size()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
diff --git a/src/paimon/common/io/memory_segment_output_stream.cpp b/src/paimon/common/io/memory_segment_output_stream.cpp
index f0ab491..062dedf 100644
--- a/src/paimon/common/io/memory_segment_output_stream.cpp
+++ b/src/paimon/common/io/memory_segment_output_stream.cpp
@@ -17,6 +17,8 @@
 #include "paimon/common/io/memory_segment_output_stream.h"
 
 #include <algorithm>
+#include <limits>
+#include <stdexcept>
 
 #include "paimon/memory/bytes.h"
 
@@ -47,6 +49,10 @@ void MemorySegmentOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes)
 }
 
 void MemorySegmentOutputStream::WriteString(const std::string& str) {
+    if (str.size() > std::numeric_limits<uint16_t>::max()) {
+        throw std::invalid_argument("string of " + std::to_string(str.size()) +
+                                    " bytes exceeds the 16 bit length field");
+    }
     WriteValue<int16_t>(str.length());
     Write(str.data(), str.size());
 }
-- 
2.43.0


From 25094f3b60cc50cf98b14a87808967f021b21dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 08/32] fix: reject corrupted containers when deserializing
 roaring bitmaps

A damaged bitmap could pass readSafe() and crash or read out of bounds when used.
---
 src/paimon/common/utils/roaring_bitmap32.cpp | 15 ++++++++--
 src/paimon/common/utils/roaring_bitmap64.cpp | 30 ++++++++++++++++++++
 third_party/roaring_bitmap/roaring.cpp       |  3 +-
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/roaring_bitmap32.cpp b/src/paimon/common/utils/roaring_bitmap32.cpp
index 4f5b2ad..c554e90 100644
--- a/src/paimon/common/utils/roaring_bitmap32.cpp
+++ b/src/paimon/common/utils/roaring_bitmap32.cpp
@@ -33,6 +33,15 @@ roaring::Roaring::const_iterator& GetIterator(void* iter) {
 roaring::Roaring& GetRoaringBitmap(void* bitmap) {
     return *(static_cast<roaring::Roaring*>(bitmap));
 }
+// readSafe() only keeps the read within bounds, corrupted containers must be rejected separately
+Result<roaring::Roaring> ReadAndValidate(const char* data, size_t maxbytes) {
+    roaring::Roaring bitmap = roaring::Roaring::readSafe(data, maxbytes);
+    const char* reason = nullptr;
+    if (!roaring::internal::roaring_bitmap_internal_validate(&bitmap.roaring, &reason)) {
+        return Status::Invalid("corrupted roaring bitmap: ", reason ? reason : "unknown");
+    }
+    return bitmap;
+}
 }  // namespace
 
 RoaringBitmap32::Iterator::Iterator(const RoaringBitmap32& bitmap) {
@@ -219,8 +228,8 @@ Status RoaringBitmap32::Deserialize(ByteArrayInputStream* input_stream) {
     PAIMON_ASSIGN_OR_RAISE(int64_t pos, input_stream->GetPos());
     PAIMON_ASSIGN_OR_RAISE(int64_t total_length, input_stream->Length());
     try {
-        GetRoaringBitmap(roaring_bitmap_) =
-            roaring::Roaring::readSafe(data, /*maxbytes=*/total_length - pos);
+        PAIMON_ASSIGN_OR_RAISE(GetRoaringBitmap(roaring_bitmap_),
+                               ReadAndValidate(data, /*maxbytes=*/total_length - pos));
     } catch (...) {
         return Status::Invalid("catch exception in Deserialize() of RoaringBitmap32");
     }
@@ -230,7 +239,7 @@ Status RoaringBitmap32::Deserialize(ByteArrayInputStream* input_stream) {
 
 Status RoaringBitmap32::Deserialize(const char* begin, size_t length) {
     try {
-        GetRoaringBitmap(roaring_bitmap_) = roaring::Roaring::readSafe(begin, length);
+        PAIMON_ASSIGN_OR_RAISE(GetRoaringBitmap(roaring_bitmap_), ReadAndValidate(begin, length));
     } catch (...) {
         return Status::Invalid("catch exception in Deserialize() of RoaringBitmap32");
     }
diff --git a/src/paimon/common/utils/roaring_bitmap64.cpp b/src/paimon/common/utils/roaring_bitmap64.cpp
index 98b943d..326c28e 100644
--- a/src/paimon/common/utils/roaring_bitmap64.cpp
+++ b/src/paimon/common/utils/roaring_bitmap64.cpp
@@ -17,6 +17,7 @@
 #include "paimon/utils/roaring_bitmap64.h"
 
 #include <cassert>
+#include <cstring>
 #include <memory>
 #include <utility>
 
@@ -33,6 +34,33 @@ roaring::Roaring64Map::const_iterator& GetIterator(void* iter) {
 roaring::Roaring64Map& GetRoaringBitmap(void* bitmap) {
     return *(static_cast<roaring::Roaring64Map*>(bitmap));
 }
+// readSafe() does not check the content of containers, corrupted bitmaps must be rejected first.
+// Running out of bytes is left to readSafe().
+Status ValidateSerializedBitmap(const char* data, size_t length) {
+    uint64_t map_size = 0;
+    if (length < sizeof(map_size)) {
+        return Status::OK();
+    }
+    memcpy(&map_size, data, sizeof(map_size));
+    size_t pos = sizeof(map_size);
+    for (uint64_t i = 0; i < map_size; i++) {
+        if (length - pos < sizeof(uint32_t)) {
+            return Status::OK();
+        }
+        pos += sizeof(uint32_t);
+        auto bitmap = roaring::Roaring::readSafe(data + pos, length - pos);
+        const char* reason = nullptr;
+        if (!roaring::internal::roaring_bitmap_internal_validate(&bitmap.roaring, &reason)) {
+            return Status::Invalid("corrupted roaring bitmap: ", reason ? reason : "unknown");
+        }
+        size_t bitmap_size = bitmap.getSizeInBytes();
+        if (bitmap.isEmpty() || bitmap_size > length - pos) {
+            return Status::Invalid("corrupted roaring bitmap: invalid sub bitmap");
+        }
+        pos += bitmap_size;
+    }
+    return Status::OK();
+}
 }  // namespace
 
 RoaringBitmap64::Iterator::Iterator(const RoaringBitmap64& bitmap) {
@@ -233,6 +261,7 @@ Status RoaringBitmap64::Deserialize(ByteArrayInputStream* input_stream) {
     PAIMON_ASSIGN_OR_RAISE(int64_t pos, input_stream->GetPos());
     PAIMON_ASSIGN_OR_RAISE(int64_t total_length, input_stream->Length());
     try {
+        PAIMON_RETURN_NOT_OK(ValidateSerializedBitmap(data, total_length - pos));
         GetRoaringBitmap(roaring_bitmap_) =
             roaring::Roaring64Map::readSafe(data, /*maxbytes*/ total_length - pos);
     } catch (...) {
@@ -244,6 +273,7 @@ Status RoaringBitmap64::Deserialize(ByteArrayInputStream* input_stream) {
 
 Status RoaringBitmap64::Deserialize(const char* begin, size_t length) {
     try {
+        PAIMON_RETURN_NOT_OK(ValidateSerializedBitmap(begin, length));
         GetRoaringBitmap(roaring_bitmap_) = roaring::Roaring64Map::readSafe(begin, length);
     } catch (...) {
         return Status::Invalid("catch exception in Deserialize() of RoaringBitmap64");
diff --git a/third_party/roaring_bitmap/roaring.cpp b/third_party/roaring_bitmap/roaring.cpp
index 3130523..08fba63 100644
--- a/third_party/roaring_bitmap/roaring.cpp
+++ b/third_party/roaring_bitmap/roaring.cpp
@@ -14903,7 +14903,8 @@ bool run_container_validate(const run_container_t *run, const char **reason) {
     }
 
     if (run->n_runs == 0) {
-        return true;
+        *reason = "zero run count";
+        return false;
     }
     if (run->runs == NULL) {
         *reason = "NULL runs";
-- 
2.43.0


From 8545f7d7e7efef60057560eb0b85ddcb577df44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 09/32] fix: allow an empty buffer in ByteArrayInputStream

An empty file index aborted in debug builds instead of returning an error.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index 8d938e3..1945cfe 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -25,7 +25,7 @@
 namespace paimon {
 ByteArrayInputStream::ByteArrayInputStream(const char* buffer, uint64_t length)
     : buffer_(buffer), length_(length), position_(0) {
-    assert(buffer_);
+    assert(buffer_ || length_ == 0);
 }
 
 const char* ByteArrayInputStream::GetRawData() const {
-- 
2.43.0


From f3a6d23cdcfcac57e12de6f2ce05e22405014b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 10/32] fix: check length fields before allocating in blob
 descriptor and global index result

---
 include/paimon/io/data_input_stream.h                  | 8 ++++----
 src/paimon/common/data/blob_descriptor.cpp             | 1 +
 src/paimon/common/global_index/global_index_result.cpp | 1 +
 src/paimon/common/io/data_input_stream.cpp             | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/paimon/io/data_input_stream.h b/include/paimon/io/data_input_stream.h
index f9ca635..c3e7c4d 100644
--- a/include/paimon/io/data_input_stream.h
+++ b/include/paimon/io/data_input_stream.h
@@ -67,6 +67,10 @@ class PAIMON_EXPORT DataInputStream {
     /// Get the total length of the underlying input stream.
     Result<uint64_t> Length() const;
 
+    /// Check if there are enough bytes available to read.
+    /// @param need_length Number of bytes needed.
+    Status AssertBoundary(int32_t need_length) const;
+
     /// Set the byte order for endianness conversion.
     /// @param order The byte order to use `PAIMON_BIG_ENDIAN` or `PAIMON_LITTLE_ENDIAN`.
     void SetOrder(ByteOrder order) {
@@ -79,10 +83,6 @@ class PAIMON_EXPORT DataInputStream {
     /// @param actual_read_length Actual number of bytes read.
     Status AssertReadLength(int32_t read_length, int32_t actual_read_length) const;
 
-    /// Check if there are enough bytes available to read.
-    /// @param need_length Number of bytes needed.
-    Status AssertBoundary(int32_t need_length) const;
-
     /// Determine if byte swapping is needed based on current byte order and system endianness.
     /// @return `true` if byte swapping is required, `false` otherwise.
     bool NeedSwap() const;
diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..394d0c4 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,7 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    PAIMON_RETURN_NOT_OK(in.AssertBoundary(uri_length));
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..6af3ad2 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,7 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    PAIMON_RETURN_NOT_OK(in.AssertBoundary(bitmap_bytes_len));
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
diff --git a/src/paimon/common/io/data_input_stream.cpp b/src/paimon/common/io/data_input_stream.cpp
index 32df025..c2c9c0b 100644
--- a/src/paimon/common/io/data_input_stream.cpp
+++ b/src/paimon/common/io/data_input_stream.cpp
@@ -101,7 +101,7 @@ Status DataInputStream::AssertBoundary(int32_t need_length) const {
     // of I/O calls.
     PAIMON_ASSIGN_OR_RAISE(int64_t pos, input_stream_->GetPos());
     PAIMON_ASSIGN_OR_RAISE(uint64_t length, input_stream_->Length());
-    if (pos + need_length > static_cast<int64_t>(length)) {
+    if (need_length < 0 || pos + need_length > static_cast<int64_t>(length)) {
         return Status::Invalid(
             fmt::format("DataInputStream assert boundary failed: need length {}, current position "
                         "{}, exceed length {}",
-- 
2.43.0


From 5c7ef1801ad2d9a80e6b3900ddf05ad83dc1b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 11/32] fix: check lengths of damaged file indexes and keep
 readers usable after a failed load

Length fields are compared with the remaining bytes before allocating.
A failed metadata load no longer leaves a half initialized bitmap index behind.
Range predicates with the smallest bigint literal no longer overflow in the bsi index.
---
 .../common/file_index/bitmap/bitmap_file_index.cpp | 14 ++++++++------
 .../file_index/bitmap/bitmap_file_index_meta.cpp   |  3 ++-
 .../bitmap/bitmap_file_index_meta_v2.cpp           |  8 ++++++--
 .../bloomfilter/bloom_filter_file_index.cpp        |  6 ++++++
 .../bsi/bit_slice_index_bitmap_file_index.cpp      | 10 ++++++++++
 .../bsi/bit_slice_index_roaring_bitmap.cpp         |  3 +++
 src/paimon/common/file_index/file_index_format.cpp |  4 ++++
 7 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
index c05e4b1..7869158 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
@@ -326,8 +326,9 @@ Result<RoaringBitmap32> BitmapFileIndexReader::ReadBitmap(const Literal& literal
     } else {
         PAIMON_RETURN_NOT_OK(input_stream_->Seek(bitmap_file_index_meta_->GetBodyStart() + offset,
                                                  SeekOrigin::FS_SEEK_SET));
-        auto bitmap_bytes = std::make_unique<Bytes>(entry->length, pool_.get());
         DataInputStream input(input_stream_);
+        PAIMON_RETURN_NOT_OK(input.AssertBoundary(entry->length));
+        auto bitmap_bytes = std::make_unique<Bytes>(entry->length, pool_.get());
         PAIMON_RETURN_NOT_OK(input.ReadBytes(bitmap_bytes.get()));
         RoaringBitmap32 res;
         PAIMON_RETURN_NOT_OK(res.Deserialize(bitmap_bytes->data(), bitmap_bytes->size()));
@@ -341,16 +342,17 @@ Status BitmapFileIndexReader::ReadInternalMeta() {
         DataInputStream data_input_stream(input_stream_);
         PAIMON_ASSIGN_OR_RAISE(int8_t version, data_input_stream.ReadValue<int8_t>());
         FieldType converted_type = BitmapFileIndex::ConvertType(data_type_);
+        std::shared_ptr<BitmapFileIndexMeta> meta;
         if (version == BitmapFileIndex::VERSION_1) {
-            bitmap_file_index_meta_ = std::make_shared<BitmapFileIndexMetaV1>(
-                converted_type, head_start_, length_, pool_);
+            meta = std::make_shared<BitmapFileIndexMetaV1>(converted_type, head_start_, length_,
+                                                           pool_);
         } else if (version == BitmapFileIndex::VERSION_2) {
-            bitmap_file_index_meta_ =
-                std::make_shared<BitmapFileIndexMetaV2>(converted_type, length_, pool_);
+            meta = std::make_shared<BitmapFileIndexMetaV2>(converted_type, length_, pool_);
         } else {
             return Status::Invalid(fmt::format("unknown bitmap file index version {}", version));
         }
-        PAIMON_RETURN_NOT_OK(bitmap_file_index_meta_->Deserialize(input_stream_));
+        PAIMON_RETURN_NOT_OK(meta->Deserialize(input_stream_));
+        bitmap_file_index_meta_ = std::move(meta);
     }
     return Status::OK();
 }
diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp
index 366ba45..32a59a0 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta.cpp
@@ -98,8 +98,9 @@ Result<std::function<Result<Literal>()>> BitmapFileIndexMeta::GetValueReader(
         case FieldType::STRING: {
             std::function<Result<Literal>()> func = [&in, move_body_start, field_type,
                                                      this]() -> Result<Literal> {
-                PAIMON_ASSIGN_OR_RAISE(uint32_t length,
+                PAIMON_ASSIGN_OR_RAISE(int32_t length,
                                        ReadAndMoveBodyStart<int32_t>(in, move_body_start));
+                PAIMON_RETURN_NOT_OK(in->AssertBoundary(length));
                 if (move_body_start) {
                     body_start_ += length;
                 }
diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
index 5ed1ed3..056e944 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
@@ -204,13 +204,17 @@ Status BitmapFileIndexMetaV2::BitmapIndexBlock::TryDeserialize() {
         PAIMON_ASSIGN_OR_RAISE(std::function<Result<Literal>()> value_reader,
                                outer_->GetValueReader(in, /*move_body_start=*/false));
         PAIMON_ASSIGN_OR_RAISE(int32_t entry_num, in->ReadValue<int32_t>());
-        entry_list.reserve(entry_num);
+        if (entry_num < 0) {
+            return Status::Invalid(fmt::format("invalid entry number {} in index block", entry_num));
+        }
+        std::vector<Entry> entries;
         for (int32_t i = 0; i < entry_num; i++) {
             PAIMON_ASSIGN_OR_RAISE(Literal key, value_reader());
             PAIMON_ASSIGN_OR_RAISE(int32_t offset, in->ReadValue<int32_t>());
             PAIMON_ASSIGN_OR_RAISE(int32_t length, in->ReadValue<int32_t>());
-            entry_list.emplace_back(key, offset, length);
+            entries.emplace_back(key, offset, length);
         }
+        entry_list = std::move(entries);
         is_deserialized_ = true;
     }
     return Status::OK();
diff --git a/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp b/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
index 0486909..ed583d7 100644
--- a/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
+++ b/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
@@ -22,6 +22,7 @@
 
 #include "fmt/format.h"
 #include "paimon/fs/file_system.h"
+#include "paimon/io/data_input_stream.h"
 #include "paimon/memory/bytes.h"
 #include "paimon/predicate/literal.h"
 #include "paimon/status.h"
@@ -44,6 +45,7 @@ Result<std::shared_ptr<FileIndexReader>> BloomFilterFileIndex::CreateReader(
     auto arrow_type = arrow_schema->field(0)->type();
 
     PAIMON_RETURN_NOT_OK(input_stream->Seek(start, SeekOrigin::FS_SEEK_SET));
+    PAIMON_RETURN_NOT_OK(DataInputStream(input_stream).AssertBoundary(length));
     auto bytes = std::make_shared<Bytes>(length, pool.get());
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len,
                            input_stream->Read(bytes->data(), bytes->size()));
@@ -58,6 +60,10 @@ Result<std::shared_ptr<FileIndexReader>> BloomFilterFileIndex::CreateReader(
 
 Result<std::shared_ptr<BloomFilterFileIndexReader>> BloomFilterFileIndexReader::Create(
     const std::shared_ptr<arrow::DataType>& arrow_type, const std::shared_ptr<Bytes>& bytes) {
+    if (bytes->size() <= sizeof(int32_t)) {
+        return Status::Invalid(
+            fmt::format("bloom filter index has only {} bytes", bytes->size()));
+    }
     // compatible with java, little endian
     const char* data = bytes->data();
     int32_t num_hash_functions = ((data[0] << 24) + (data[1] << 16) + (data[2] << 8) + data[3]);
diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
index 0bbd993..a679663 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
@@ -18,6 +18,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <limits>
 
 #include "fmt/format.h"
 #include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
@@ -52,6 +53,7 @@ Result<std::shared_ptr<FileIndexReader>> BitSliceIndexBitmapFileIndex::CreateRea
     auto arrow_type = arrow_schema->field(0)->type();
 
     PAIMON_RETURN_NOT_OK(input_stream->Seek(start, SeekOrigin::FS_SEEK_SET));
+    PAIMON_RETURN_NOT_OK(DataInputStream(input_stream).AssertBoundary(length));
     auto bytes = std::make_unique<Bytes>(length, pool.get());
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len,
                            input_stream->Read(bytes->data(), bytes->size()));
@@ -155,6 +157,10 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
         if (value >= 0) {
             return reader->positive_->GreaterThan(value);
+        } else if (value == std::numeric_limits<int64_t>::min()) {
+            // has no absolute value, every indexed value is greater
+            return RoaringBitmap32::Or(reader->positive_->IsNotNull(),
+                                       reader->negative_->IsNotNull());
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->negative_->LessThan(-value));
             RoaringBitmap32 b2 = reader->positive_->IsNotNull();
@@ -172,6 +178,10 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
         if (value >= 0) {
             return reader->positive_->GreaterOrEqual(value);
+        } else if (value == std::numeric_limits<int64_t>::min()) {
+            // has no absolute value, every indexed value is greater
+            return RoaringBitmap32::Or(reader->positive_->IsNotNull(),
+                                       reader->negative_->IsNotNull());
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->negative_->LessOrEqual(-value));
             RoaringBitmap32 b2 = reader->positive_->IsNotNull();
diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..055ca19 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,6 +59,9 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0 || slice_num > 64) {
+        return Status::Invalid(fmt::format("invalid slice number {} in bsi index", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
     slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
diff --git a/src/paimon/common/file_index/file_index_format.cpp b/src/paimon/common/file_index/file_index_format.cpp
index bd59f67..b6f8dac 100644
--- a/src/paimon/common/file_index/file_index_format.cpp
+++ b/src/paimon/common/file_index/file_index_format.cpp
@@ -57,6 +57,10 @@ class FileIndexFormatReaderImpl : public FileIndexFormat::Reader {
                             version, FileIndexFormat::V_1));
         }
         PAIMON_ASSIGN_OR_RAISE(int32_t head_length, data_input_stream.ReadValue<int32_t>());
+        if (head_length < 8 + 4 + 4) {
+            return Status::Invalid(fmt::format("invalid head length {} of index file", head_length));
+        }
+        PAIMON_RETURN_NOT_OK(data_input_stream.AssertBoundary(head_length - 8 - 4 - 4));
         auto head_bytes = std::make_unique<Bytes>(head_length - 8 - 4 - 4, pool.get());
         PAIMON_RETURN_NOT_OK(data_input_stream.ReadBytes(head_bytes.get()));
 
-- 
2.43.0


From b9b032ba0b5be5c5f43093198d43eceb42e6c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:36 +0000
Subject: [PATCH 12/32] fix: report directory read errors when listing local
 files

A failing readdir() looked like the end of the directory.
---
 src/paimon/fs/local/local_file.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index c9a1381..4e2937e 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -83,12 +83,24 @@ Status LocalFile::List(std::vector<std::string>* file_list) const {
             fmt::format("list path '{}' fail, ec: {}", path_, std::strerror(cur_errno)));
     }
 
-    while ((ep = readdir(dp)) != nullptr) {
+    while (true) {
+        errno = 0;
+        ep = readdir(dp);
+        if (ep == nullptr) {
+            break;
+        }
         if (strcmp(ep->d_name, ".") == 0 || strcmp(ep->d_name, "..") == 0) {
             continue;
         }
         file_list->push_back(ep->d_name);
     }
+    if (errno != 0) {
+        int32_t cur_errno = errno;
+        file_list->clear();
+        closedir(dp);
+        return Status::IOError(
+            fmt::format("list path '{}' fail, ec: {}", path_, std::strerror(cur_errno)));
+    }
     if (closedir(dp) < 0) {
         file_list->clear();
         int32_t cur_errno = errno;
-- 
2.43.0


From 0e2390a0df251d5c8f86ceefc31a48fe32499cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:36 +0000
Subject: [PATCH 13/32] fix: do not follow symbolic links when deleting local
 directories

Deleting a directory also deleted what the links in it pointed to.
---
 src/paimon/fs/local/local_file.cpp        | 22 +++++++++++++++-------
 src/paimon/fs/local/local_file.h          |  1 +
 src/paimon/fs/local/local_file_system.cpp |  5 +++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index 4e2937e..af7c19d 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -71,6 +71,17 @@ Result<bool> LocalFile::IsDir() const {
     return file_status->IsDir();
 }
 
+Result<bool> LocalFile::IsSymlink() const {
+    CHECK_HOOK();
+    struct stat buf;
+    if (lstat(path_.c_str(), &buf) < 0) {
+        int32_t cur_errno = errno;
+        return Status::IOError(
+            fmt::format("path '{}' check isSymlink fail, ec: {}", path_, std::strerror(cur_errno)));
+    }
+    return S_ISLNK(buf.st_mode);
+}
+
 Status LocalFile::List(std::vector<std::string>* file_list) const {
     CHECK_HOOK();
     file_list->clear();
@@ -123,13 +134,10 @@ Status LocalFile::ListFiles(std::vector<LocalFile>* file_list) const {
 
 Status LocalFile::Delete() const {
     CHECK_HOOK();
-    PAIMON_ASSIGN_OR_RAISE(bool is_exist, Exists());
-    if (is_exist) {
-        if (::remove(path_.c_str()) != 0) {
-            if (errno != ENOENT) {
-                return Status::IOError(
-                    fmt::format("delete path '{}' fail, ec: {}", path_, std::strerror(errno)));
-            }
+    if (::remove(path_.c_str()) != 0) {
+        if (errno != ENOENT) {
+            return Status::IOError(
+                fmt::format("delete path '{}' fail, ec: {}", path_, std::strerror(errno)));
         }
     }
     return Status::OK();
diff --git a/src/paimon/fs/local/local_file.h b/src/paimon/fs/local/local_file.h
index cb4b353..217a924 100644
--- a/src/paimon/fs/local/local_file.h
+++ b/src/paimon/fs/local/local_file.h
@@ -42,6 +42,7 @@ class LocalFile {
     Result<bool> Exists() const;
     Result<bool> IsFile() const;
     Result<bool> IsDir() const;
+    Result<bool> IsSymlink() const;
     Status List(std::vector<std::string>* file_list) const;
     Status ListFiles(std::vector<LocalFile>* file_list) const;
     Status Delete() const;
diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..d6c0a4d 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -188,6 +188,11 @@ Status LocalFileSystem::Delete(const std::string& path, bool recursive) const {
 }
 
 Status LocalFileSystem::Delete(const LocalFile& f, bool recursive) const {
+    PAIMON_ASSIGN_OR_RAISE(bool is_symlink, f.IsSymlink());
+    if (is_symlink) {
+        // delete the link itself, never what it points to
+        return f.Delete();
+    }
     PAIMON_ASSIGN_OR_RAISE(bool is_dir, f.IsDir());
     if (is_dir) {
         std::vector<LocalFile> files;
-- 
2.43.0


From 63551bd2c476334a6445d8a6d10e68797424af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:36 +0000
Subject: [PATCH 14/32] fix: never replace an existing local file by exclusive
 create or rename

The existence check and the operation were not atomic, so two writers could both succeed.
Paths with the file scheme are now resolved before renaming.
---
 src/paimon/fs/local/local_file.cpp        |  4 +--
 src/paimon/fs/local/local_file.h          |  2 +-
 src/paimon/fs/local/local_file_system.cpp | 30 ++++++++++++++++++++---
 src/paimon/fs/local/local_file_system.h   |  5 ++--
 4 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index af7c19d..ec18d3e 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -295,7 +295,7 @@ Status LocalFile::Flush() {
         fmt::format("flush '{}' fail, can not flush file which not opened, ec: EBADF", path_));
 }
 
-Status LocalFile::OpenFile(bool is_read_file) {
+Status LocalFile::OpenFile(bool is_read_file, bool exclusive) {
     if (is_read_file) {
         PAIMON_ASSIGN_OR_RAISE(bool is_exist, Exists());
         if (!is_exist) {
@@ -311,7 +311,7 @@ Status LocalFile::OpenFile(bool is_read_file) {
         file_ = fopen(path_.c_str(), "r");
     } else {
         CHECK_HOOK();
-        file_ = fopen(path_.c_str(), "w");
+        file_ = fopen(path_.c_str(), exclusive ? "wx" : "w");
     }
     if (file_ == nullptr) {
         return Status::IOError(fmt::format("open '{}' fail, ec: {}", path_, std::strerror(errno)));
diff --git a/src/paimon/fs/local/local_file.h b/src/paimon/fs/local/local_file.h
index 217a924..d0fefde 100644
--- a/src/paimon/fs/local/local_file.h
+++ b/src/paimon/fs/local/local_file.h
@@ -52,7 +52,7 @@ class LocalFile {
     Result<std::unique_ptr<LocalFileStatus>> GetFileStatus() const;
     Result<uint64_t> Length() const;
     Result<int64_t> LastModifiedTimeMs() const;
-    Status OpenFile(bool is_read_file);
+    Status OpenFile(bool is_read_file, bool exclusive = false);
     Result<int32_t> Read() {
         return Status::NotImplemented("");
     }
diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index d6c0a4d..4575d58 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -31,6 +31,22 @@
 
 namespace paimon {
 
+namespace {
+// rename without replacing a dst which was created by others after its existence was checked
+int32_t RenameNoReplace(const std::string& src, const std::string& dst) {
+#ifdef RENAME_NOREPLACE
+    int32_t ret = ::renameat2(AT_FDCWD, src.c_str(), AT_FDCWD, dst.c_str(), RENAME_NOREPLACE);
+    if (ret == 0 || (errno != EINVAL && errno != ENOSYS)) {
+        return ret;
+    }
+    // not supported by the underlying file system
+#endif
+    return ::rename(src.c_str(), dst.c_str());
+}
+}  // namespace
+
+std::mutex LocalFileSystem::RENAME_LOCK;
+
 Result<LocalFile> LocalFileSystem::ToFile(const std::string& path_string) const {
     // local file system does not support path_string with scheme, e.g., "file:/tmp" will be
     // rewritten to "/tmp"
@@ -66,7 +82,8 @@ Result<std::unique_ptr<OutputStream>> LocalFileSystem::Create(const std::string&
     PAIMON_ASSIGN_OR_RAISE(LocalFile file, ToFile(path));
     LocalFile parent = file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<LocalOutputStream> out, LocalOutputStream::Create(file));
+    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<LocalOutputStream> out,
+                           LocalOutputStream::Create(file, /*exclusive=*/!overwrite));
     return out;
 }
 
@@ -211,6 +228,7 @@ Status LocalFileSystem::Delete(const LocalFile& f, bool recursive) const {
 
 Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) const {
     std::string err_msg = fmt::format("rename '{}' to '{}' failed, because: ", src, dst);
+    std::lock_guard<std::mutex> lock(RENAME_LOCK);
     PAIMON_ASSIGN_OR_RAISE(bool is_src_exist, Exists(src));
     if (!is_src_exist) {
         return Status::NotExist(err_msg, "src file not exist");
@@ -229,8 +247,11 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    if (RenameNoReplace(src_file.GetAbsolutePath(), dst_file.GetAbsolutePath()) != 0) {
         int32_t cur_errno = errno;
+        if (cur_errno == EEXIST) {
+            return Status::Invalid(err_msg, "dst file already exist");
+        }
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
     return Status::OK();
@@ -307,8 +328,9 @@ Status LocalInputStream::Close() {
 }
 
 // output stream
-Result<std::unique_ptr<LocalOutputStream>> LocalOutputStream::Create(LocalFile& file) {
-    PAIMON_RETURN_NOT_OK(file.OpenFile(/*is_read_file=*/false));
+Result<std::unique_ptr<LocalOutputStream>> LocalOutputStream::Create(LocalFile& file,
+                                                                      bool exclusive) {
+    PAIMON_RETURN_NOT_OK(file.OpenFile(/*is_read_file=*/false, exclusive));
     return std::unique_ptr<LocalOutputStream>(new LocalOutputStream(file));
 }
 
diff --git a/src/paimon/fs/local/local_file_system.h b/src/paimon/fs/local/local_file_system.h
index 9ab4bb1..62d759d 100644
--- a/src/paimon/fs/local/local_file_system.h
+++ b/src/paimon/fs/local/local_file_system.h
@@ -59,7 +59,7 @@ class LocalFileSystem : public FileSystem {
 
  private:
     // the lock to ensure atomic renaming
-    static const std::mutex RENAME_LOCK;
+    static std::mutex RENAME_LOCK;
 
     Status Delete(const LocalFile& f, bool recursive = true) const;
     std::string GetParentPath(const std::string& path) const;
@@ -91,7 +91,8 @@ class LocalInputStream : public InputStream {
 
 class LocalOutputStream : public OutputStream {
  public:
-    static Result<std::unique_ptr<LocalOutputStream>> Create(LocalFile& file);
+    static Result<std::unique_ptr<LocalOutputStream>> Create(LocalFile& file,
+                                                             bool exclusive = false);
 
     Result<int64_t> GetPos() const override;
     Result<int32_t> Write(const char* buffer, uint32_t size) override;
-- 
2.43.0


From 19cf5ead3b19565423c7b946c914aa86d0177247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:41 +0000
Subject: [PATCH 15/32] fix: drain results while waiting for projection threads
 to stop

With more projection threads than the result queue has room for, stopping
early could leave a thread waiting for room in the queue forever, and the
reader waiting for that thread.
---
 .../core/io/async_key_value_producer_and_consumer.cpp | 11 +++++++++++
 .../core/io/async_key_value_producer_and_consumer.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/paimon/core/io/async_key_value_producer_and_consumer.cpp b/src/paimon/core/io/async_key_value_producer_and_consumer.cpp
index f2bce55..6709d12 100644
--- a/src/paimon/core/io/async_key_value_producer_and_consumer.cpp
+++ b/src/paimon/core/io/async_key_value_producer_and_consumer.cpp
@@ -138,6 +138,11 @@ void AsyncKeyValueProducerAndConsumer<T, R>::CleanUp() {
         [[maybe_unused]] Status status = producer_future_.get();
     }
     for (auto& consumer : consumers_) {
+        // the consumer may be waiting for room in result_queue_
+        while (!consumer->IsFinished()) {
+            CleanUpQueue();
+            usleep(1);
+        }
         consumer->CleanUp();
     }
     CleanUpQueue();
@@ -193,6 +198,12 @@ Status AsyncKeyValueConsumer<T, R>::GetStatus() const {
     return Status::OK();
 }
 
+template <typename T, typename R>
+bool AsyncKeyValueConsumer<T, R>::IsFinished() const {
+    return !consumer_future_.valid() ||
+           consumer_future_.wait_for(std::chrono::microseconds(0)) == std::future_status::ready;
+}
+
 template <typename T, typename R>
 Status AsyncKeyValueConsumer<T, R>::ConsumeLoop() {
     while (!consume_finished_) {
diff --git a/src/paimon/core/io/async_key_value_producer_and_consumer.h b/src/paimon/core/io/async_key_value_producer_and_consumer.h
index 279c273..2dcd50b 100644
--- a/src/paimon/core/io/async_key_value_producer_and_consumer.h
+++ b/src/paimon/core/io/async_key_value_producer_and_consumer.h
@@ -105,6 +105,7 @@ class AsyncKeyValueConsumer {
     }
 
     Status GetStatus() const;
+    bool IsFinished() const;
     void CleanUp();
 
  private:
-- 
2.43.0


From 5958c9f3dcb685854d77368d3b09f3a5872c4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:42 +0000
Subject: [PATCH 16/32] fix: stop prefetching before re-targeting the readers

Setting a new read schema in the middle of reading changed the format
readers while the background thread was still reading from them.
---
 src/paimon/common/reader/prefetch_file_batch_reader_impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/common/reader/prefetch_file_batch_reader_impl.cpp b/src/paimon/common/reader/prefetch_file_batch_reader_impl.cpp
index 2d2d337..be38e4f 100644
--- a/src/paimon/common/reader/prefetch_file_batch_reader_impl.cpp
+++ b/src/paimon/common/reader/prefetch_file_batch_reader_impl.cpp
@@ -126,6 +126,8 @@ Status PrefetchFileBatchReaderImpl::SetReadSchema(
     const std::optional<RoaringBitmap32>& selection_bitmap) {
     PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> schema,
                                       arrow::ImportSchema(read_schema));
+    // the background thread may still be reading from the readers
+    PAIMON_RETURN_NOT_OK(CleanUp());
     for (const auto& reader : readers_) {
         auto c_schema = std::make_unique<::ArrowSchema>();
         PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportSchema(*schema, c_schema.get()));
-- 
2.43.0


From 9deeb702c0c7c016aa8c53c4adf8848a2fe66a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:29 +0000
Subject: [PATCH 17/32] fix: report a failed close when writing a whole file

WriteFile dropped the result of Close. On stores that complete a file when it is closed, an
incomplete temporary file could then be renamed into place as a snapshot or schema.
---
 src/paimon/common/fs/file_system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/common/fs/file_system.cpp b/src/paimon/common/fs/file_system.cpp
index 262973e..6bc9934 100644
--- a/src/paimon/common/fs/file_system.cpp
+++ b/src/paimon/common/fs/file_system.cpp
@@ -76,6 +76,8 @@ Status FileSystem::WriteFile(const std::string& path, const std::string& content
                                                path, length, write_length));
         }
         PAIMON_RETURN_NOT_OK(out->Flush());
+        guard.Release();
+        PAIMON_RETURN_NOT_OK(out->Close());
     }
     return Status::OK();
 }
-- 
2.43.0


From c14a902fd18bba844d96ac13ca35d168319ba1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:29 +0000
Subject: [PATCH 18/32] fix: do not share row ids between commit attempts

Assigning row ids and sequence numbers changed the file metas shared with the commit messages. A
retry after a lost race kept the ids of the first attempt, which then overlapped with the winner's.
---
 src/paimon/core/manifest/manifest_entry.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/core/manifest/manifest_entry.h b/src/paimon/core/manifest/manifest_entry.h
index b645904..fc66c0e 100644
--- a/src/paimon/core/manifest/manifest_entry.h
+++ b/src/paimon/core/manifest/manifest_entry.h
@@ -139,11 +139,15 @@ class ManifestEntry : public FileEntry {
                            partition_.ToString(), bucket_, total_buckets_, file_->ToString());
     }
 
+    // The file meta may be shared with other entries (e.g., those of an earlier commit attempt),
+    // assigning must not be visible there.
     void AssignSequenceNumber(int64_t min_sequence_number, int64_t max_sequence_number) {
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignSequenceNumber(min_sequence_number, max_sequence_number);
     }
 
     void AssignFirstRowId(int64_t first_row_id) {
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignFirstRowId(first_row_id);
     }
 
-- 
2.43.0


From d4d8788b96ae7be4f519d916b3e3284ba01117fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:29 +0000
Subject: [PATCH 19/32] fix: verify that the snapshot named by the latest hint
 exists

A stale, truncated or wrong hint made the lookup return a snapshot that does not exist whenever
its successor does not exist either.
---
 src/paimon/core/utils/snapshot_manager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/utils/snapshot_manager.cpp b/src/paimon/core/utils/snapshot_manager.cpp
index fc5e2cc..a232596 100644
--- a/src/paimon/core/utils/snapshot_manager.cpp
+++ b/src/paimon/core/utils/snapshot_manager.cpp
@@ -142,7 +142,17 @@ Result<std::optional<int64_t>> SnapshotManager::FindLatest(
         std::string path = path_func(next_snapshot);
         PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
         if (!is_exist) {
-            return snapshot_id;
+            // the hint may be stale or damaged and name a snapshot which does not exist
+            PAIMON_ASSIGN_OR_RAISE(bool hinted_exist, fs_->Exists(path_func(snapshot_id.value())));
+            if (hinted_exist) {
+                return snapshot_id;
+            }
+            PAIMON_ASSIGN_OR_RAISE(
+                std::optional<int64_t> listed,
+                FindByListFiles(
+                    [](int64_t lhs, int64_t rhs) -> int64_t { return std::max(lhs, rhs); }, dir,
+                    prefix));
+            return listed ? listed : snapshot_id;
         }
     }
     return FindByListFiles([](int64_t lhs, int64_t rhs) -> int64_t { return std::max(lhs, rhs); },
-- 
2.43.0


From 7b7a0472abe3076b17735ae0fca8159f67de61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:29 +0000
Subject: [PATCH 20/32] fix: do not fail a published commit when updating the
 latest hint fails

The snapshot is visible already when the hint is written.
---
 src/paimon/core/catalog/renaming_snapshot_commit.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/catalog/renaming_snapshot_commit.h b/src/paimon/core/catalog/renaming_snapshot_commit.h
index 5dae865..4cf963d 100644
--- a/src/paimon/core/catalog/renaming_snapshot_commit.h
+++ b/src/paimon/core/catalog/renaming_snapshot_commit.h
@@ -59,7 +59,9 @@ class RenamingSnapshotCommit : public SnapshotCommit {
         // as it may delete meta files from a snapshot that was just written by ourselves,
         // leading to an incomplete or corrupted snapshot.
         PAIMON_RETURN_NOT_OK(fs_->AtomicStore(snapshot_path, json_str));
-        PAIMON_RETURN_NOT_OK(snapshot_manager_->CommitLatestHint(snapshot.Id()));
+        // The snapshot is published, failing to update the hint must not fail the commit.
+        Status hint_status = snapshot_manager_->CommitLatestHint(snapshot.Id());
+        (void)hint_status;
         return true;
     }
 
-- 
2.43.0


From 833cc6347c8236f6bdb9167a386b916e72443acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:29 +0000
Subject: [PATCH 21/32] fix: stop expiration when a snapshot file cannot be
 deleted

The error was ignored and the earliest hint moved on, so that the snapshot stayed visible forever
without its manifests.
---
 src/paimon/core/operation/expire_snapshots.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/operation/expire_snapshots.cpp b/src/paimon/core/operation/expire_snapshots.cpp
index 43f2c92..a08a8f2 100644
--- a/src/paimon/core/operation/expire_snapshots.cpp
+++ b/src/paimon/core/operation/expire_snapshots.cpp
@@ -167,9 +167,12 @@ Result<int32_t> ExpireSnapshots::ExpireUntil(int64_t earliest_snapshot_id,
         PAIMON_ASSIGN_OR_RAISE(Snapshot snapshot, snapshot_manager_->LoadSnapshot(id));
         PAIMON_RETURN_NOT_OK(CleanUnusedManifests(snapshot.BaseManifestList(), skipping_sets));
         PAIMON_RETURN_NOT_OK(CleanUnusedManifests(snapshot.DeltaManifestList(), skipping_sets));
+        // the files of this snapshot are gone, so it must not stay behind: stop here and let the
+        // next expiration delete it
         auto status = fs_->Delete(snapshot_manager_->SnapshotPath(id));
-        // delete quietly will ignore any status error
-        (void)status;
+        if (!status.ok() && !status.IsNotExist()) {
+            return status;
+        }
     }
     PAIMON_RETURN_NOT_OK(snapshot_manager_->CommitEarliestHint(end_exclusive_id));
     return end_exclusive_id - begin_inclusive_id;
-- 
2.43.0


From ddfb7aaca1a2679b5c114526db5f905d377bbd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:03 +0000
Subject: [PATCH 22/32] fix: report a recreated table from a streaming scan
 instead of throwing

When every snapshot was gone, building the error message read the latest
snapshot id although there is none.
---
 src/paimon/core/table/source/data_table_stream_scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/data_table_stream_scan.cpp b/src/paimon/core/table/source/data_table_stream_scan.cpp
index 3d893f3..cc96bb9 100644
--- a/src/paimon/core/table/source/data_table_stream_scan.cpp
+++ b/src/paimon/core/table/source/data_table_stream_scan.cpp
@@ -106,7 +106,7 @@ Result<std::optional<Snapshot>> DataTableStreamScan::GetNextSnapshot(
             return Status::Invalid(fmt::format(
                 "The next expected snapshot is too big! Most possible cause might be the table had "
                 "been recreated. The next snapshot id is {}, while the latest snapshot id is {}",
-                next_snapshot_id, latest.value()));
+                next_snapshot_id, latest ? std::to_string(latest.value()) : "none"));
         }
         return std::optional<Snapshot>();
     }
-- 
2.43.0


From 9f8c1a930555b51c83070068480fe3e8955fbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 23/32] fix: wait for the listing tasks when collecting used
 files fails

The tasks refer to the cleaner, which the caller may destroy after the
error is returned.
---
 src/paimon/core/operation/orphan_files_cleaner_impl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 7473472..bdc0c45 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -96,12 +96,16 @@ Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
         file_statuses_futures.push_back(
             Via(executor_.get(), [this, dir] { return TryBestListingDirs(dir); }));
     }
-    PAIMON_ASSIGN_OR_RAISE(std::set<std::string> used_file_names, GetUsedFiles());
+    Result<std::set<std::string>> used_files = GetUsedFiles();
+    // the listing tasks use this cleaner, so wait for them before returning an error
+    std::vector<std::vector<std::unique_ptr<FileStatus>>> all_file_statuses =
+        CollectAll(file_statuses_futures);
+    PAIMON_ASSIGN_OR_RAISE(std::set<std::string> used_file_names, std::move(used_files));
 
     std::set<std::string> need_to_deletes;
     std::vector<std::future<void>> futures;
     ScopeGuard guard([&futures]() { Wait(futures); });
-    for (const auto& file_statuses : CollectAll(file_statuses_futures)) {
+    for (const auto& file_statuses : all_file_statuses) {
         for (const auto& file_status : file_statuses) {
             if (file_status->IsDir()) {
                 continue;
-- 
2.43.0


From 297ace5d2bfc99df71647787d57b3d4163c7de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 24/32] fix: let the orphan files cleaner use the table's own
 options

The options of the schema were merged with those of the caller and then
ignored, so manifests of another format could not be read.
---
 src/paimon/core/operation/orphan_files_cleaner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner.cpp b/src/paimon/core/operation/orphan_files_cleaner.cpp
index fd9d849..e2e23e0 100644
--- a/src/paimon/core/operation/orphan_files_cleaner.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner.cpp
@@ -164,7 +164,7 @@ Result<std::unique_ptr<OrphanFilesCleaner>> OrphanFilesCleaner::Create(
     for (const auto& [key, value] : ctx->GetOptions()) {
         opts[key] = value;
     }
-    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(ctx->GetOptions()));
+    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(opts));
     auto arrow_schema = DataField::ConvertDataFieldsToArrowSchema(schema->Fields());
     PAIMON_ASSIGN_OR_RAISE(std::vector<std::string> external_paths, options.CreateExternalPaths());
     PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 650e2d9090c1e44bc335f436bc6280028efd9418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:04 +0000
Subject: [PATCH 25/32] fix: do not take a table for untagged when listing its
 tags fails

An error while looking for tags or branches was treated as there being
none, and files only they refer to were deleted as orphans.
---
 .../core/operation/orphan_files_cleaner_impl.cpp | 16 ++++++++++++++--
 .../core/operation/orphan_files_cleaner_impl.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index bdc0c45..e41b1c6 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -83,10 +83,12 @@ bool OrphanFilesCleanerImpl::SupportToClean(const std::string& file_name) {
 }
 
 Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "tag")).empty()) {
+    PAIMON_ASSIGN_OR_RAISE(bool has_tag, HasEntries(PathUtil::JoinPath(root_path_, "tag")));
+    if (has_tag) {
         return Status::NotImplemented("OrphanFilesCleaner do not support cleaning table with tag");
     }
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "branch")).empty()) {
+    PAIMON_ASSIGN_OR_RAISE(bool has_branch, HasEntries(PathUtil::JoinPath(root_path_, "branch")));
+    if (has_branch) {
         return Status::NotImplemented(
             "OrphanFilesCleaner do not support cleaning table with branch");
     }
@@ -136,6 +138,16 @@ Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
     return need_to_deletes;
 }
 
+Result<bool> OrphanFilesCleanerImpl::HasEntries(const std::string& path) const {
+    PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
+    if (!is_exist) {
+        return false;
+    }
+    std::vector<std::unique_ptr<BasicFileStatus>> file_statuses;
+    PAIMON_RETURN_NOT_OK(fs_->ListDir(path, &file_statuses));
+    return !file_statuses.empty();
+}
+
 Result<std::set<std::string>> OrphanFilesCleanerImpl::ListPaimonFileDirs() const {
     std::set<std::string> paimon_file_dirs;
     paimon_file_dirs.insert(snapshot_manager_->SnapshotDirectory());
diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.h b/src/paimon/core/operation/orphan_files_cleaner_impl.h
index 14be18d..9d00483 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.h
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.h
@@ -63,6 +63,7 @@ class OrphanFilesCleanerImpl : public OrphanFilesCleaner {
     Result<std::set<std::string>> Clean() override;
 
  private:
+    Result<bool> HasEntries(const std::string& path) const;
     Result<std::set<std::string>> ListPaimonFileDirs() const;
     std::vector<std::unique_ptr<FileStatus>> TryBestListingDirs(const std::string& path) const;
     std::vector<std::unique_ptr<BasicFileStatus>> MinimalTryBestListingDirs(
-- 
2.43.0


From 35fd389d43fca4cf266f9506d2ad99f6ffd9c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:01 +0000
Subject: [PATCH 26/32] fix: return the storage error when a table's schema
 cannot be stored

Creating a table retried without end as long as the storage kept failing.
---
 src/paimon/core/schema/schema_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/core/schema/schema_manager.cpp b/src/paimon/core/schema/schema_manager.cpp
index 94ed36a..254af6d 100644
--- a/src/paimon/core/schema/schema_manager.cpp
+++ b/src/paimon/core/schema/schema_manager.cpp
@@ -114,6 +114,11 @@ Result<std::unique_ptr<TableSchema>> SchemaManager::CreateTable(
         if (status.ok()) {
             return table_schema;
         }
+        // retry only if the schema has been created by someone else
+        PAIMON_ASSIGN_OR_RAISE(bool is_exist, file_system_->Exists(schema_path));
+        if (!is_exist) {
+            return status;
+        }
     }
     return Status::Invalid("create table failed, should not be here");
 }
-- 
2.43.0


From b451891b2de70b1464132da124bdb6bcb6f0ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:20 +0000
Subject: [PATCH 27/32] fix: do not let an aborted rolling writer go on as if
 it had no rows

After a failed write or close its files are deleted, and preparing the
commit again succeeded without the rows in them.
---
 src/paimon/core/io/rolling_blob_file_writer.cpp | 7 +++++++
 src/paimon/core/io/rolling_file_writer.h        | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/paimon/core/io/rolling_blob_file_writer.cpp b/src/paimon/core/io/rolling_blob_file_writer.cpp
index a71ab26..428b712 100644
--- a/src/paimon/core/io/rolling_blob_file_writer.cpp
+++ b/src/paimon/core/io/rolling_blob_file_writer.cpp
@@ -51,6 +51,9 @@ RollingBlobFileWriter::RollingBlobFileWriter(
       logger_(Logger::GetLogger("RollingBlobFileWriter")) {}
 
 Status RollingBlobFileWriter::Write(::ArrowArray* record) {
+    if (PAIMON_UNLIKELY(aborted_)) {
+        return Status::Invalid("Cannot write to an aborted writer.");
+    }
     ScopeGuard guard([this]() -> void { this->Abort(); });
     // Open the current writer if write the first record or roll over happen before.
     if (PAIMON_UNLIKELY(current_writer_ == nullptr)) {
@@ -152,6 +155,9 @@ Status RollingBlobFileWriter::ValidateFileConsistency(
 }
 
 Status RollingBlobFileWriter::Close() {
+    if (aborted_) {
+        return Status::Invalid("Cannot close an aborted writer.");
+    }
     if (closed_) {
         return Status::OK();
     }
@@ -168,6 +174,7 @@ Status RollingBlobFileWriter::Close() {
 }
 
 void RollingBlobFileWriter::Abort() {
+    aborted_ = true;
     if (current_writer_ != nullptr) {
         current_writer_->Abort();
         current_writer_.reset();
diff --git a/src/paimon/core/io/rolling_file_writer.h b/src/paimon/core/io/rolling_file_writer.h
index 6497a27..8e54f9e 100644
--- a/src/paimon/core/io/rolling_file_writer.h
+++ b/src/paimon/core/io/rolling_file_writer.h
@@ -76,6 +76,8 @@ class RollingFileWriter : public FileWriter<T, std::vector<R>> {
     int64_t record_count_ = 0;
     int64_t last_need_rolling_record_count_ = 0;
     bool closed_ = false;
+    // files of an aborted writer are deleted, so it can neither go on nor have a result
+    bool aborted_ = false;
 
     std::vector<typename SingleFileWriter<T, R>::AbortExecutor> closed_writers_;
     std::vector<R> results_;
@@ -104,6 +106,9 @@ Result<bool> RollingFileWriter<T, R>::NeedRollingFile() {
 
 template <typename T, typename R>
 Status RollingFileWriter<T, R>::Write(T record) {
+    if (PAIMON_UNLIKELY(aborted_)) {
+        return Status::Invalid("Cannot write to an aborted writer.");
+    }
     ScopeGuard guard([this]() -> void { this->Abort(); });
     // Open the current writer if write the first record or roll over happen before.
     if (PAIMON_UNLIKELY(current_writer_ == nullptr)) {
@@ -169,6 +174,9 @@ Status RollingFileWriter<T, R>::CloseCurrentWriter() {
 
 template <typename T, typename R>
 Status RollingFileWriter<T, R>::Close() {
+    if (aborted_) {
+        return Status::Invalid("Cannot close an aborted writer.");
+    }
     if (closed_) {
         return Status::OK();
     }
@@ -186,6 +194,7 @@ Status RollingFileWriter<T, R>::Close() {
 
 template <typename T, typename R>
 void RollingFileWriter<T, R>::Abort() {
+    aborted_ = true;
     if (current_writer_ != nullptr) {
         current_writer_->Abort();
     }
-- 
2.43.0


From 7a6ec4ac420dcfc2d71dd1525c8b39da4d74e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:56:00 +0000
Subject: [PATCH 28/32] fix: keep a merge tree writer from losing rows after a
 failed flush

The buffered rows are gone once flushing starts, so preparing a commit
after a failed flush succeeded without them. Also delete flushed files
which were never handed out when the writer is closed.
---
 .../core/mergetree/merge_tree_writer.cpp      | 20 +++++++++++++++++++
 src/paimon/core/mergetree/merge_tree_writer.h |  7 ++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/paimon/core/mergetree/merge_tree_writer.cpp b/src/paimon/core/mergetree/merge_tree_writer.cpp
index db9216f..66101c0 100644
--- a/src/paimon/core/mergetree/merge_tree_writer.cpp
+++ b/src/paimon/core/mergetree/merge_tree_writer.cpp
@@ -51,6 +51,7 @@
 #include "paimon/data/decimal.h"
 #include "paimon/format/file_format.h"
 #include "paimon/format/writer_builder.h"
+#include "paimon/fs/file_system.h"
 #include "paimon/metrics.h"
 
 namespace paimon {
@@ -119,9 +120,13 @@ Result<CommitIncrement> MergeTreeWriter::PrepareCommit(bool wait_compaction) {
 }
 
 Status MergeTreeWriter::Flush() {
+    if (flush_failed_) {
+        return Status::Invalid("rows have been lost in a failed flush, writer cannot go on");
+    }
     if (batch_vec_.empty()) {
         return Status::OK();
     }
+    flush_failed_ = true;
     // 1. create key value iter for each record batch
     std::vector<std::unique_ptr<KeyValueRecordReader>> readers;
     readers.reserve(batch_vec_.size());
@@ -152,6 +157,7 @@ Status MergeTreeWriter::Flush() {
             std::min(options_.GetWriteBatchSize(), MAX_PROJECTION_BATCH_SIZE),
             /*projection_thread_num=*/1, pool_);
     auto rolling_writer = CreateRollingRowWriter();
+    ScopeGuard guard([&rolling_writer]() { rolling_writer->Abort(); });
     while (true) {
         PAIMON_ASSIGN_OR_RAISE(KeyValueBatch key_value_batch,
                                async_key_value_producer_consumer->NextBatch());
@@ -165,6 +171,20 @@ Status MergeTreeWriter::Flush() {
                            rolling_writer->GetResult());
     new_files_.insert(new_files_.end(), flushed_files.begin(), flushed_files.end());
     metrics_->Merge(rolling_writer->GetMetrics());
+    guard.Release();
+    flush_failed_ = false;
+    return Status::OK();
+}
+
+Status MergeTreeWriter::DoClose() {
+    batch_vec_.clear();
+    row_kinds_vec_.clear();
+    // files which have not been handed out are of no use to anyone
+    for (const auto& file : new_files_) {
+        [[maybe_unused]] auto status =
+            options_.GetFileSystem()->Delete(path_factory_->ToPath(file), /*recursive=*/false);
+    }
+    new_files_.clear();
     return Status::OK();
 }
 
diff --git a/src/paimon/core/mergetree/merge_tree_writer.h b/src/paimon/core/mergetree/merge_tree_writer.h
index 53a869a..5b48d49 100644
--- a/src/paimon/core/mergetree/merge_tree_writer.h
+++ b/src/paimon/core/mergetree/merge_tree_writer.h
@@ -80,11 +80,7 @@ class MergeTreeWriter : public BatchWriter {
     }
 
  private:
-    Status DoClose() {
-        batch_vec_.clear();
-        row_kinds_vec_.clear();
-        return Status::OK();
-    }
+    Status DoClose();
 
     Status Flush();
     Result<CommitIncrement> DrainIncrement();
@@ -99,6 +95,7 @@ class MergeTreeWriter : public BatchWriter {
  private:
     int64_t last_sequence_number_;
     int64_t current_memory_in_bytes_;
+    bool flush_failed_ = false;
     std::shared_ptr<MemoryPool> pool_;
     std::vector<std::string> trimmed_primary_keys_;
     CoreOptions options_;
-- 
2.43.0


From b41264535ee97bf0a75dbc35d4106f1e36d8e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:02 +0000
Subject: [PATCH 29/32] fix: delete the open file of a postpone bucket writer
 which is closed

---
 src/paimon/core/postpone/postpone_bucket_writer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/core/postpone/postpone_bucket_writer.h b/src/paimon/core/postpone/postpone_bucket_writer.h
index 036c638..8c878ea 100644
--- a/src/paimon/core/postpone/postpone_bucket_writer.h
+++ b/src/paimon/core/postpone/postpone_bucket_writer.h
@@ -76,6 +76,10 @@ class PostponeBucketWriter : public BatchWriter {
 
  private:
     Status DoClose() {
+        if (writer_) {
+            writer_->Abort();
+            writer_.reset();
+        }
         sequence_number_array_.reset();
         row_kind_array_.reset();
         return Status::OK();
-- 
2.43.0


From dedc8b02951951aeb3d705dea3cc2b9a58d16be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 30/32] fix: do not let a global index answer for rows it does
 not cover

A range scan used every index that touches the range. With indexes of two columns over different row ids the merged range is wider than an index, and the matching rows outside of that index were dropped.
---
 src/paimon/core/global_index/global_index_scan_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/core/global_index/global_index_scan_impl.cpp b/src/paimon/core/global_index/global_index_scan_impl.cpp
index 1b48829..17bd78a 100644
--- a/src/paimon/core/global_index/global_index_scan_impl.cpp
+++ b/src/paimon/core/global_index/global_index_scan_impl.cpp
@@ -55,6 +55,10 @@ Result<std::shared_ptr<RowRangeGlobalIndexScanner>> GlobalIndexScanImpl::CreateR
                 return Status::Invalid(
                     "input range contain multiple partitions, fail to create range scan");
             }
+            if (meta.row_range_start > range.from || meta.row_range_end < range.to) {
+                // an index that covers only a part of the range cannot answer for the rest of it
+                continue;
+            }
             filtered_entries[meta.index_field_id][entry.index_file->IndexType()].push_back(entry);
         }
     }
-- 
2.43.0


From 946f20b81644e6c6e8c1da53fbdce6a0f09be7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 31/32] fix: plan an empty data evolution table with a filter

Looking for a global index failed when there is no snapshot yet. The same scan without a filter returns an empty plan.
---
 .../core/table/source/data_evolution_batch_scan.cpp   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/data_evolution_batch_scan.cpp b/src/paimon/core/table/source/data_evolution_batch_scan.cpp
index edd20db..bbd7f1a 100644
--- a/src/paimon/core/table/source/data_evolution_batch_scan.cpp
+++ b/src/paimon/core/table/source/data_evolution_batch_scan.cpp
@@ -117,11 +117,20 @@ Result<std::optional<std::shared_ptr<GlobalIndexResult>>> DataEvolutionBatchScan
     if (!core_options_.GlobalIndexEnabled()) {
         return std::optional<std::shared_ptr<GlobalIndexResult>>();
     }
+    std::optional<int64_t> snapshot_id = core_options_.GetScanSnapshotId();
+    if (!snapshot_id) {
+        PAIMON_ASSIGN_OR_RAISE(snapshot_id,
+                               snapshot_reader_->GetSnapshotManager()->LatestSnapshotId());
+        if (!snapshot_id) {
+            // an empty table has no index
+            return std::optional<std::shared_ptr<GlobalIndexResult>>();
+        }
+    }
     auto partition_filter = batch_scan_->GetPartitionPredicate();
     // TODO(lisizhuo.lsz): support time travel
     PAIMON_ASSIGN_OR_RAISE(
         std::unique_ptr<GlobalIndexScan> index_scan,
-        GlobalIndexScan::Create(table_path_, core_options_.GetScanSnapshotId(), partition_filter,
+        GlobalIndexScan::Create(table_path_, snapshot_id, partition_filter,
                                 core_options_.ToMap(), core_options_.GetFileSystem(), pool_));
     auto index_scan_impl = dynamic_cast<GlobalIndexScanImpl*>(index_scan.get());
     if (!index_scan_impl) {
-- 
2.43.0


From a4d19a55d91b67438f6eb89c63350d14f5a98fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:04 +0000
Subject: [PATCH 32/32] fix: plan the snapshot the global index was read from

The index result was applied to whatever snapshot was the latest afterwards. Rows committed in between were neither indexed nor counted as unindexed, and a filtered scan lost them.
---
 src/paimon/core/table/source/data_evolution_batch_scan.cpp | 4 ++++
 src/paimon/core/table/source/data_table_batch_scan.h       | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/paimon/core/table/source/data_evolution_batch_scan.cpp b/src/paimon/core/table/source/data_evolution_batch_scan.cpp
index bbd7f1a..cd51498 100644
--- a/src/paimon/core/table/source/data_evolution_batch_scan.cpp
+++ b/src/paimon/core/table/source/data_evolution_batch_scan.cpp
@@ -154,6 +154,10 @@ Result<std::optional<std::shared_ptr<GlobalIndexResult>>> DataEvolutionBatchScan
     if (!index_result) {
         return std::optional<std::shared_ptr<GlobalIndexResult>>();
     }
+    if (!core_options_.GetScanSnapshotId()) {
+        // the index result is about this snapshot, rows committed since are not part of it
+        batch_scan_->WithSnapshot(snapshot_id.value());
+    }
     auto index_result_value = std::move(index_result).value();
     if (!non_indexed_row_ranges.empty()) {
         for (const auto& range : non_indexed_row_ranges) {
diff --git a/src/paimon/core/table/source/data_table_batch_scan.h b/src/paimon/core/table/source/data_table_batch_scan.h
index 405b784..83c7ed5 100644
--- a/src/paimon/core/table/source/data_table_batch_scan.h
+++ b/src/paimon/core/table/source/data_table_batch_scan.h
@@ -49,6 +49,13 @@ class DataTableBatchScan : public AbstractTableScan {
         return this;
     }
 
+    /// Plan the given snapshot, even if it is not the latest one any more.
+    DataTableBatchScan* WithSnapshot(int64_t snapshot_id) {
+        starting_scanner_ = std::make_shared<StaticFromSnapshotStartingScanner>(
+            snapshot_reader_->GetSnapshotManager(), snapshot_id);
+        return this;
+    }
+
  private:
     Result<std::shared_ptr<Plan>> ApplyPushDownLimit(
         const std::shared_ptr<StartingScanner::ScanResult>& scan_result) const;
-- 
2.43.0

