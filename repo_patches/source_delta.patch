From 69ded6c3a08f571d6047dc22f51a49890c88df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 01/81] fix: keep the byte order and missing value when cloning
 a codec

Codec::clone() always built a codec for the native byte order, so that frames written with the other byte order could
not be decoded through the API. The copy of the missing value held by the integer codecs was not updated either.
---
 src/odc/core/Codec.cc | 12 +++++++-----
 src/odc/core/Codec.h  |  9 +++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..ae22bc2 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -30,11 +30,13 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     type_(type) {}
 
 std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
-    c->hasMissing_   = hasMissing_;
-    c->missingValue_ = missingValue_;
-    c->min_          = min_;
-    c->max_          = max_;
+    // n.b. The clone is used to decode the same data as the original, so it must keep the byte order of the original.
+    auto c  = create();
+    c->min_ = c->max_ = c->missingValue_ = 0;
+    c->missingValue(missingValue_);  // virtual, as some codecs hold the missing value in other forms as well
+    c->hasMissing_ = hasMissing_;
+    c->min_        = min_;
+    c->max_        = max_;
     return c;
 }
 
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 108c711..11747ec 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -93,6 +93,9 @@ private:  // methods
 
     virtual void print(std::ostream& s) const;
 
+    /// A new codec of the same kind, type and byte order as this one
+    virtual std::unique_ptr<Codec> create() const = 0;
+
     friend std::ostream& operator<<(std::ostream& s, const Codec& p) {
         p.print(s);
         return s;
@@ -157,6 +160,12 @@ protected:  // methods
         ds.write(missingValue_);
     }
 
+private:  // methods
+
+    std::unique_ptr<Codec> create() const override {
+        return CodecFactory::instance().build<ByteOrder>(this->name_, this->type_);
+    }
+
 protected:
 
     // n.b. ds_ MUST be initialised before it is used.
-- 
2.43.0


From e6bf5f16c1a7c19d210ea26a2fcd0e53716f7609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 02/81] fix: do not encode a column that contains NaN as a
 constant

---
 src/odc/codec/CodecOptimizer.h | 4 ++--
 src/odc/core/Codec.cc          | 6 ++++++
 src/odc/core/Codec.h           | 5 +++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..fc077ae 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -60,7 +60,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
                 ASSERT(codec_long != 0);
 
-                if (max == min) {
+                if (max == min && !codec_long->hasNaN()) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
@@ -83,7 +83,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
             }
 
             case api::DOUBLE:
-                if (max == min)
+                if (max == min && !col.coder().hasNaN())
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));
                 col.hasMissing(hasMissing);
diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index ae22bc2..1c2fc49 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -10,6 +10,8 @@
 
 #include "odc/core/Codec.h"
 
+#include <cmath>
+
 #include "eckit/exception/Exceptions.h"
 
 #include "odc/core/CodecFactory.h"
@@ -27,6 +29,7 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     missingValue_(odc::MDI::realMDI()),
     min_(missingValue_),
     max_(missingValue_),
+    hasNaN_(false),
     type_(type) {}
 
 std::unique_ptr<Codec> Codec::clone() {
@@ -37,6 +40,7 @@ std::unique_ptr<Codec> Codec::clone() {
     c->hasMissing_ = hasMissing_;
     c->min_        = min_;
     c->max_        = max_;
+    c->hasNaN_     = hasNaN_;
     return c;
 }
 
@@ -104,6 +108,8 @@ void Codec::gatherStats(const double& v) {
         hasMissing_ = 1;
     }
     else {
+        if (std::isnan(v))
+            hasNaN_ = true;
         if (v < min_ || min_ == missingValue_)
             min_ = v;
         if (v > max_ || max_ == missingValue_)
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 11747ec..bb2bf8f 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -62,6 +62,7 @@ public:
     void resetStats() {
         min_ = max_ = missingValue_;
         hasMissing_ = false;
+        hasNaN_     = false;
     }
 
     virtual void gatherStats(const double& v);
@@ -75,6 +76,9 @@ public:
     void max(double m) { max_ = m; }
     double max() const { return max_; }
 
+    /// NaN does not compare with any value, so it does not show up in min() and max()
+    bool hasNaN() const { return hasNaN_; }
+
     virtual void missingValue(double v);
     double rawMissingValue() const { return missingValue_; }
     virtual double missingValue() const { return missingValue_; }
@@ -109,6 +113,7 @@ protected:
     double missingValue_;
     double min_;
     double max_;
+    bool hasNaN_;
 
     api::ColumnType type_;
 
-- 
2.43.0


From 147a3b19df2d53b3b47121fb8fd455a582cb5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 03/81] fix: encode REAL columns that contain the internal
 missing value of short_real2

The value checked for was +FLT_MAX, but the marker is -FLT_MAX. Encoding such a column failed with an assertion.
---
 src/odc/codec/CodecOptimizer.h | 4 ++--
 src/odc/codec/Real.h           | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index fc077ae..042eeba 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -64,8 +64,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
-                    ASSERT(!codec_long->hasShortRealInternalMissing());
-                    codec = "short_real";
+                    // If the markers of both short codecs are present as values, neither of them can be used
+                    codec = codec_long->hasShortRealInternalMissing() ? "long_real" : "short_real";
                 }
                 else if (codec_long->hasShortRealInternalMissing()) {
                     codec = "short_real2";
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..ecc50e6 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -20,8 +20,7 @@ namespace codec {
 //----------------------------------------------------------------------------------------------------------------------
 
 static constexpr uint32_t minFloatAsInt     = 0x800000;
-static constexpr uint32_t maxFloatAsInt     = 0x7f7fffff;
-static constexpr uint32_t real2MissingAsInt = 0xff7fffff;  // = - reinterpret_cast<float&>(maxFloatAsInt)
+static constexpr uint32_t real2MissingAsInt = 0xff7fffff;  // = - std::numeric_limits<float>::max()
 
 //----------------------------------------------------------------------------------------------------------------------
 
@@ -62,10 +61,10 @@ private:  // methods
         core::Codec::gatherStats(v);
 
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        if (static_cast<float>(v) == realInternalMissing)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (static_cast<float>(v) == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
     }
 
-- 
2.43.0


From 17878f6f4839afa03c4431450c2199865b23228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 04/81] fix: make odc_open_stream usable, and check the
 duplicated file descriptor

The handle for custom streams implemented neither position() nor seek(), so no frame could be read from it.
---
 src/odc/api/odc.cc | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..6a088ef 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -9,12 +9,14 @@
  */
 
 #include <unistd.h>
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <functional>
 #include <numeric>
 
 #include "eckit/exception/Exceptions.h"
+#include "eckit/io/Buffer.h"
 #include "eckit/io/FileDescHandle.h"
 #include "eckit/io/MemoryHandle.h"
 #include "eckit/maths/Functions.h"
@@ -277,7 +279,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
@@ -291,7 +293,7 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
 
     // Wrap the stream in a DataHandle
     struct ReadStreamDataHandle : public eckit::DataHandle {
-        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn) {}
+        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn), pos_(0) {}
         virtual ~ReadStreamDataHandle() {}
         void print(std::ostream& s) const override { s << "StreamReadHandle(" << fn_ << "(" << handle_ << "))"; }
         // Hack for compiler bug on clang-14.0.3 running on MacOS 13
@@ -299,12 +301,38 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        long read(void* buffer, long length) override {
+            // As for POSIX read(), fewer bytes than requested may be returned before the end of the stream
+            long total = 0;
+            while (total < length) {
+                long len = fn_(handle_, static_cast<char*>(buffer) + total, length - total);
+                if (len < 0)
+                    throw ReadError("odc_stream_read_t callback failed", Here());
+                if (len == 0)
+                    break;
+                total += len;
+            }
+            pos_ += total;
+            return total;
+        }
         long write(const void*, long) override { NOTIMP; }
+        Offset position() override { return pos_; }
+        Offset seek(const Offset& offset) override {
+            // A stream can only be advanced
+            if (offset < pos_)
+                throw ReadError("Cannot seek backwards in a stream", Here());
+            Buffer buffer(1024 * 1024);
+            while (pos_ < offset) {
+                if (read(buffer, std::min<long long>(buffer.size(), offset - pos_)) == 0)
+                    throw ReadError("Unexpected end of stream", Here());
+            }
+            return pos_;
+        }
         void close() override {}
 
         void* handle_;
         odc_stream_read_t fn_;
+        Offset pos_;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From b31d0ed468c063f0fdc8b0881d82ebf3be57c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 05/81] fix: report truncated frames instead of decoding
 uninitialised memory

---
 src/odc/core/Table.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..e1040b6 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -72,18 +72,14 @@ const Properties& Table::properties() const {
 
 Buffer Table::readEncodedData(bool includeHeader) {
 
-    if (includeHeader) {
-        Buffer data(nextPosition() - startPosition());
-        dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
-        return data;
-    }
-    else {
-        Buffer data(dataSize_);
-        dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
-        return data;
-    }
+    const Offset position = includeHeader ? startPosition() : dataPosition_;
+    const Length length   = nextPosition() - position;
+
+    Buffer data(length);
+    dh_.seek(position);
+    if (dh_.read(data, length) != length)
+        throw ODBIncomplete(dh_.title(), Here());
+    return data;
 }
 
 const std::map<std::string, size_t>& Table::columnLookup() {
-- 
2.43.0


From 6f3ae17baf1e87e5d1cb28025a9942891b0668ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 06/81] fix: missing values of columns skipped by the first row
 of a frame

The missing value of a constant INTEGER column was not given as an integer, and the span of a frame did not contain
the missing value with which such columns start.
---
 src/odc/codec/Constant.h | 12 ++++++++++++
 src/odc/core/Table.cc    | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 31d3d83..040ee92 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -46,6 +46,8 @@ private:  // methods
     void decode(double* out) override;
     void skip() override;
 
+    double missingValue() const override;
+
     void print(std::ostream& s) const override;
 };
 
@@ -122,6 +124,16 @@ void CodecConstant<ByteOrder, ValueType>::decode(double* out) {
 template <typename ByteOrder, typename ValueType>
 void CodecConstant<ByteOrder, ValueType>::skip() {}
 
+template <typename ByteOrder, typename ValueType>
+double CodecConstant<ByteOrder, ValueType>::missingValue() const {
+    // n.b. As for decode(), integers are represented as ValueType in the memory of a double
+    static_assert(sizeof(ValueType) == sizeof(double), "unsafe casting check");
+    const ValueType value = static_cast<ValueType>(this->missingValue_);
+    double punned_value;
+    ::memcpy(&punned_value, &value, sizeof(value));
+    return punned_value;
+}
+
 template <typename ByteOrder, typename ValueType>
 void CodecConstant<ByteOrder, ValueType>::print(std::ostream& s) const {
     s << this->name_ << ", value=" << std::fixed << static_cast<ValueType>(this->min_)
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index e1040b6..1c13ba7 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -10,6 +10,7 @@
 
 #include "odc/core/Table.h"
 
+#include <algorithm>
 #include <bitset>
 #include <functional>
 
@@ -403,6 +404,17 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
 
+        // If the first row doesn't start from column zero, the preceding columns hold the missing value (see decode)
+        if (rowCount == 0) {
+            for (int col = 0; col < std::min<long>(startCol, ncols); col++) {
+                if (visitColumn[col]) {
+                    std::fill(decodeBufferVec.begin(), decodeBufferVec.end(), 0);
+                    decodeBuffer[0] = decoders[col].get().missingValue();
+                    columnValues[col]->addValue(decodeBuffer);
+                }
+            }
+        }
+
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
                 decoders[col].get().decode(decodeBuffer);
-- 
2.43.0


From 080e19143a3dd53078112f214bdd06dbc52f6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 07/81] fix: string cells skipped by the first row of a frame,
 and targets that are too small for a column

The rest of a wide string was left uninitialised, and decoding overran the elements of a target narrower than the column.
---
 src/odc/ReaderIterator.cc | 2 +-
 src/odc/core/Table.cc     | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..870bd63 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -151,7 +151,7 @@ void ReaderIterator::initRowBuffer() {
     size_t nCols       = columns().size();
 
     delete[] lastValues_;
-    lastValues_ = new double[numDoubles];
+    lastValues_ = new double[numDoubles]();
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 1c13ba7..0873a96 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -154,6 +154,13 @@ void Table::decode(DecodeTarget& target) {
         visitColumn[pos] = true;
         facades[pos]     = &target.dataFacades()[i];
         ASSERT(target.dataFacades()[i].nelem() >= nrows);
+
+        if (facades[pos]->dataSize() < metadata[pos]->dataSizeDoubles() * sizeof(double)) {
+            std::stringstream ss;
+            ss << "Data size of " << facades[pos]->dataSize() << " bytes is too small for the values of column '" << nm
+               << "'";
+            throw ODBDecodeError(ss.str(), Here());
+        }
     }
 
     // Read the data in in bulk for this table
@@ -182,6 +189,8 @@ void Table::decode(DecodeTarget& target) {
 
     for (int col = 0; col < long(ncols); col++) {
         if (visitColumn[col]) {
+            // n.b. a cell of a string column can be wider than the missing value
+            ::memset((*facades[col])[0], 0, decoders[col].get().dataSizeDoubles() * sizeof(double));
             *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
         }
     }
-- 
2.43.0


From 1d4274650d86eed878d2a0ab96e5bd5736925de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 08/81] fix: Writer::rowsBufferSize(n) did not return the
 writer

---
 src/odc/Writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/Writer.h b/src/odc/Writer.h
index 8bb16d3..d35cd4f 100644
--- a/src/odc/Writer.h
+++ b/src/odc/Writer.h
@@ -54,7 +54,10 @@ public:
     ITERATOR* createWriteIterator(eckit::PathName, bool append = false);
 
     unsigned long rowsBufferSize() { return rowsBufferSize_; }
-    Writer& rowsBufferSize(unsigned long n) { rowsBufferSize_ = n; }
+    Writer& rowsBufferSize(unsigned long n) {
+        rowsBufferSize_ = n;
+        return *this;
+    }
 
     const eckit::PathName path() { return path_; }
 
-- 
2.43.0


From 2b19b190c8a51ea905817c9f3739d1483651272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 09/81] fix: odc_frame_property_idx with an index out of range,
 and after copying a frame

The range was only checked on the first call for a frame, and copies of a
frame kept iterators into the properties of the original.
---
 src/odc/api/odc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 6a088ef..5ee549d 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -413,7 +413,8 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
-        (*copy) = new odc_frame_t{*source_frame};
+        // n.b. The memoised properties refer to the source frame, and are not copied
+        (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
 
@@ -484,7 +485,6 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 
         if (!frame->propertiesMemoised_) {
             const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
@@ -495,6 +495,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
             frame->propertiesMemoised_ = true;
         }
 
+        ASSERT(idx >= 0 && size_t(idx) < frame->propertiesIndex_.size());
+
         *key   = frame->propertiesIndex_[idx]->first.c_str();
         *value = frame->propertiesIndex_[idx]->second.c_str();
     });
-- 
2.43.0


From 5eb196ec2d0740246c007ff0139ed18941df8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 10/81] fix: copying an empty frame dereferenced a null pointer

---
 src/odc/api/Odb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..d007cd7 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -508,14 +508,14 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
     return *this;
 }
 
-- 
2.43.0


From b741973d4e6f215700423b8469a12f15b95d9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 11/81] fix: memory layout of decoders with explicit element
 sizes, and of reused decoders

Columns with an explicit element size were left out of the size of the owned
array (a null pointer or a heap overflow), a stride of 0 was not taken as
packed when the size was given, and a reused decoder kept the pointers into
the previous array and its previous number of rows. Column major columns of
wide strings were laid out by the number of rows instead of the height of
the array.
---
 src/odc/api/odc.cc | 54 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 5ee549d..52513f1 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -53,6 +53,8 @@ struct odc_decoder_t {
         size_t elemSize;
         size_t stride;
         bool transpose;
+        bool inArray;    // data points into the owned or external data array
+        bool sizeGiven;  // elemSize was given by the caller
     };
 
     odc_decoder_t() : nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedData() {}
@@ -607,7 +609,7 @@ int odc_decoder_add_column(odc_decoder_t* decoder, const char* name) {
         ASSERT(decoder);
         ASSERT(name);
         decoder->columnNames.emplace_back(name);
-        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false});
+        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false, false, false});
     });
 }
 
@@ -625,7 +627,8 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
         auto& cd(decoder->columnData[col]);
-        cd.elemSize = element_size;
+        cd.elemSize  = element_size;
+        cd.sizeGiven = (element_size != 0);
     });
 }
 
@@ -635,9 +638,12 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
         auto& cd(decoder->columnData[col]);
-        cd.elemSize = element_size;
-        cd.stride   = stride;
-        cd.data     = data;
+        cd.elemSize  = element_size;
+        cd.stride    = stride;
+        cd.data      = data;
+        cd.transpose = false;
+        cd.inArray   = false;
+        cd.sizeGiven = (element_size != 0);
     });
 }
 
@@ -665,11 +671,22 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
 
     size_t height = decoder->nrows;  // in rows
     size_t width  = 0;               // in bytes
-    std::vector<std::pair<size_t, long>> offsets;
 
     for (size_t i = 0; i < decoder->columnData.size(); ++i) {
         odc_decoder_t::DecodeColumn& col(decoder->columnData[i]);
 
+        // If the decoder is being reused, the columns need to be assigned in the data array again. The array, the
+        // number of rows or the widths may have changed.
+        if (col.inArray) {
+            col.data      = nullptr;
+            col.stride    = 0;
+            col.transpose = false;
+            col.inArray   = false;
+        }
+
+        if (!col.data && !col.sizeGiven)
+            col.elemSize = 0;
+
         if (col.elemSize == 0) {
             if (col.data) {
                 col.elemSize = sizeof(double);  // backwards compatible default
@@ -683,8 +700,14 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
             }
+        }
+
+        if (!col.data) {
             width += col.elemSize;
         }
+        else if (col.stride == 0) {
+            col.stride = col.elemSize;
+        }
     }
 
     if (width != 0 && height != 0) {
@@ -698,16 +721,19 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
             height = decoder->dataHeight;
         }
         else {
-            decoder->ownedData.reset(new char[width * height]);
-            decoder->dataWidth  = width;
-            decoder->dataHeight = height;
-            dataPtr             = decoder->ownedData.get();
+            if (!decoder->ownedData || decoder->dataWidth != width || decoder->dataHeight != height) {
+                decoder->ownedData.reset(new char[width * height]);
+                decoder->dataWidth  = width;
+                decoder->dataHeight = height;
+            }
+            dataPtr = decoder->ownedData.get();
         }
 
         size_t offset = 0;
         for (auto& col : decoder->columnData) {
             if (!col.data) {
-                col.data = static_cast<char*>(dataPtr) + offset;
+                col.data    = static_cast<char*>(dataPtr) + offset;
+                col.inArray = true;
                 if (decoder->columnMajor) {
                     col.stride = col.elemSize;
                     offset += height * col.elemSize;
@@ -719,10 +745,6 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                     offset += col.elemSize;
                 }
             }
-            else {
-                if (col.stride == 0)
-                    col.stride = col.elemSize;
-            }
         }
     }
 }
@@ -783,7 +805,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
             size_t colIndex        = kv.first;
             const double* tmpArray = kv.second.get();
             double* output         = static_cast<double*>(decoder->columnData[colIndex].data);
-            size_t rows            = decoder->nrows;
+            size_t rows            = decoder->dataHeight;
             size_t cols            = decoder->columnData[colIndex].elemSize / sizeof(double);
             for (size_t row = 0; row < frame_rows; row++) {
                 for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From f7b2784d2fa038ef9d9c1dbc90fe0de1ffeebd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 12/81] fix: encoders could not encode twice, and kept the row
 count of a previous data array

Encoding from a data array a second time (also after a failure, such as a
buffer that was too small) failed with an assertion, and an encoder given a
taller data array silently encoded only as many rows as the first one had.
odc_encode_to_stream dereferenced an absent bytes_encoded.
---
 src/odc/api/odc.cc | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 52513f1..503baf7 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -75,7 +75,13 @@ struct odc_decoder_t {
 struct odc_encoder_t {
 
     odc_encoder_t() :
-        arrayData(0), columnMajorWidth(0), nrows(0), arrayWidth(0), arrayHeight(0), maxRowsPerFrame(10000) {}
+        arrayData(0),
+        columnMajorWidth(0),
+        nrows(0),
+        nrowsFromArray(false),
+        arrayWidth(0),
+        arrayHeight(0),
+        maxRowsPerFrame(10000) {}
 
     struct EncodeColumn {
         const void* data;
@@ -86,6 +92,7 @@ struct odc_encoder_t {
     int columnMajorWidth;
 
     size_t nrows;
+    bool nrowsFromArray;  // nrows was not given by the caller
     size_t arrayWidth;
     size_t arrayHeight;
     size_t maxRowsPerFrame;
@@ -848,7 +855,8 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
-        encoder->nrows = nrows;
+        encoder->nrows          = nrows;
+        encoder->nrowsFromArray = false;
     });
 }
 
@@ -879,8 +887,10 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
         encoder->columnMajorWidth = columnMajorWidth;
-        if (encoder->nrows == 0)
-            encoder->nrows = height;
+        if (encoder->nrows == 0 || encoder->nrowsFromArray) {
+            encoder->nrows          = height;
+            encoder->nrowsFromArray = true;
+        }
     });
 }
 
@@ -932,10 +942,11 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
     });
 }
 
-void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>>& transposedData) {
+void fill_in_encoder(odc_encoder_t* encoder, std::vector<odc_encoder_t::EncodeColumn>& columnData,
+                     std::vector<std::unique_ptr<char[]>>& transposedData) {
 
     ASSERT(encoder->nrows > 0);
-    ASSERT(encoder->columnData.size() == encoder->columnInfo.size());
+    ASSERT(columnData.size() == encoder->columnInfo.size());
 
     size_t decodedWidth = 0;
     for (auto& info : encoder->columnInfo) {
@@ -969,8 +980,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
         //      and split across multiple columns. Need to aggregate it for encoding.
 
         size_t offset = 0;
-        for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+        for (size_t i = 0; i < columnData.size(); ++i) {
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             ASSERT(info.decodedSize != 0);
@@ -1014,8 +1025,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
 
         // We are constructing the data with a supplied structure per column
 
-        for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+        for (size_t i = 0; i < columnData.size(); ++i) {
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             // If no stride is supplied for a column, assume that it is densely packed
@@ -1041,7 +1052,10 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     // TransposedData allows column-oriented data to be reordered before encoding if needed.
     std::vector<std::unique_ptr<char[]>> transposedData;
-    fill_in_encoder(encoder, transposedData);
+
+    // n.b. The encoder is left as configured, such that it can be used again
+    std::vector<odc_encoder_t::EncodeColumn> columnData(encoder->columnData);
+    fill_in_encoder(encoder, columnData, transposedData);
 
     size_t ncolumns = encoder->columnData.size();
     ASSERT(ncolumns > 0);
@@ -1052,7 +1066,7 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     for (size_t i = 0; i < ncolumns; i++) {
         const ColumnInfo& info{encoder->columnInfo[i]};
-        const odc_encoder_t::EncodeColumn& c{encoder->columnData[i]};
+        const odc_encoder_t::EncodeColumn& c{columnData[i]};
         stridedData.emplace_back(ConstStridedData{c.data, encoder->nrows, info.decodedSize, c.stride});
     }
 
@@ -1089,7 +1103,8 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
-        (*bytes_encoded) = dh.position();
+        if (bytes_encoded)
+            (*bytes_encoded) = dh.position();
     });
 }
 
-- 
2.43.0


From dc6034d864aa2888d5d02db34adc5e455382bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 13/81] fix: span of constant strings longer than 8 bytes

---
 src/odc/core/Table.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 0873a96..4860fe7 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -256,9 +256,16 @@ Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
         if (!column)
             throw UserError("Column '" + columnName + "' not found", Here());
 
-        if (column->isConstant()) {
+        if (column->isConstant() && column->type() != api::STRING) {
             s.addValue(columnName, column->type(), column->min());
         }
+        else if (column->isConstant()) {
+            // A constant string may not fit into one double. No data is needed to decode it.
+            std::vector<double> value(column->dataSizeDoubles());
+            column->coder().decode(value.data());
+            const char* c = reinterpret_cast<const char*>(value.data());
+            s.addValues(columnName, std::set<std::string>{std::string(c, ::strnlen(c, value.size() * sizeof(double)))});
+        }
         else {
             nonConstantColumns.push_back(columnName);
         }
-- 
2.43.0


From 95a9381783ce4ffe339dcabf4fc4c21c2544148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 14/81] fix: NaN hid the other values of a column in its span

---
 src/odc/core/Table.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4860fe7..0c5cff8 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -12,6 +12,7 @@
 
 #include <algorithm>
 #include <bitset>
+#include <cmath>
 #include <functional>
 
 #include "eckit/io/AutoCloser.h"
@@ -325,7 +326,11 @@ struct IntegerColumnValues : ColumnValues<long> {
 
 struct DoubleColumnValues : ColumnValues<double> {
     using ColumnValues<double>::ColumnValues;
-    void addValue(double* val) override { values_.insert(*val); }
+    // n.b. NaN has no place in an ordered set: it would hide the other values
+    void addValue(double* val) override {
+        if (!std::isnan(*val))
+            values_.insert(*val);
+    }
 };
 
 struct StringColumnValues : ColumnValues<std::string> {
-- 
2.43.0


From 2d5636e017484e0cc9030245cfa4017c40192e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 15/81] fix: loading a constant string that is empty

---
 src/odc/codec/Constant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 040ee92..35d5f47 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -206,7 +206,7 @@ void CodecLongConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
     core::DataStreamCodec<ByteOrder>::load(ds);
     std::string s;
     ds.read(s);
-    this->decodedSizeDoubles_ = ((s.length() - 1) / sizeof(double)) + 1;
+    this->decodedSizeDoubles_ = s.empty() ? 1 : ((s.length() - 1) / sizeof(double)) + 1;
     this->strings_.push_back(s);
 }
 
-- 
2.43.0


From b05574fbcb8442915ced807e81d5245004f22392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 16/81] fix: report row markers that are beyond the last column

---
 src/odc/ReaderIterator.cc | 2 ++
 src/odc/core/Table.cc     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 870bd63..5e698f1 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -217,6 +217,8 @@ bool ReaderIterator::next() {
     int startCol = (marker[0] * 256) + marker[1];
 
     size_t nCols = columns().size();
+    if (startCol > long(nCols))
+        throw ODBDecodeError("Corrupted data: the marker of a row is beyond the last column", Here());
     for (size_t i = startCol; i < nCols; i++) {
         codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 0c5cff8..a9b4e54 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -206,6 +206,8 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols))
+            throw ODBDecodeError("Corrupted data: the marker of a row is beyond the last column", Here());
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
@@ -424,6 +426,8 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols))
+            throw ODBDecodeError("Corrupted data: the marker of a row is beyond the last column", Here());
 
         // If the first row doesn't start from column zero, the preceding columns hold the missing value (see decode)
         if (rowCount == 0) {
-- 
2.43.0


From 93218492f1f8bece71f64d43952b8865bc398bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 17/81] fix: report invalid byte order indicators and negative
 format versions

---
 src/odc/core/Header.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 2e325cd..669d951 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -63,7 +63,8 @@ void Header::load(DataHandle& dh) {
 
     int32_t formatVersionMajor;
     ds1.read(formatVersionMajor);
-    ASSERT("File format version not supported" && formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR);
+    ASSERT("File format version not supported" && formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR &&
+           formatVersionMajor >= 0);
 
     int32_t formatVersionMinor;
     ds1.read(formatVersionMinor);
@@ -127,11 +128,15 @@ void Header::loadAfterMagic(DataHandle& dh) {
         throw ODBIncomplete(dh.title(), Here());
     }
 
-    if (byteOrder_ != BYTE_ORDER_INDICATOR) {
-        load<OtherByteOrder>(dh);
+    if (byteOrder_ == BYTE_ORDER_INDICATOR) {
+        load<SameByteOrder>(dh);
     }
     else {
-        load<SameByteOrder>(dh);
+        int32_t swapped = byteOrder_;
+        OtherByteOrder::swap(swapped);
+        if (swapped != BYTE_ORDER_INDICATOR)
+            throw ODBInvalid(dh.title(), "Incorrect byte order indicator", Here());
+        load<OtherByteOrder>(dh);
     }
 }
 
-- 
2.43.0


From 9608394c558b3e4322562233b6371ecad82103d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 18/81] fix: odc index opened the data handle twice and always
 failed

---
 src/odc/Indexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..81f86d6 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -76,8 +76,8 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Offset blockBegin(offsets[i].first);
         Length blockLength(offsets[i].second);
 
+        // n.b. Select opens the handle
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
         AutoClose closer(h);
 
         int prevSeqno(-1);
-- 
2.43.0


From f01cf431cd26cb93d8c57874be4e950aecb32197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 19/81] fix: decoding with zero threads silently decoded
 nothing

---
 src/odc/api/Odb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index d007cd7..4599123 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -353,6 +353,10 @@ size_t FrameImpl::columnCount() const {
 
 void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 
+    // n.b. zero threads would silently decode nothing
+
+    ASSERT(nthreads >= 1);
+
     if (tables_.size() == 1) {
         tables_[0].decode(target);
     }
-- 
2.43.0


From 9ddedc6d27e90a1233fe05194e7349df6a60c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 20/81] fix: TablesReader::getTable was not protected against
 other threads reading tables

---
 src/odc/core/TablesReader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index 88e274b..d679c21 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -127,6 +127,10 @@ bool TablesReader::ensureTable(long idx) {
 
 Table& TablesReader::getTable(long idx) {
 
+    // Another thread may be extending tables_
+
+    std::lock_guard<std::mutex> lock(m_);
+
     ASSERT(idx >= 0);
     ASSERT(idx < long(tables_.size()));
 
-- 
2.43.0


From 96e4515a686b1621044e6e0fc1e78e7c51b32ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 21/81] fix: SQL queries on files whose tables have no rows

---
 src/odc/sql/TODATableIterator.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..c3dd45b 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -63,8 +63,16 @@ TODATableIterator<READER>::TODATableIterator(
     metadataUpdateCallback_(metadataUpdateCallback),
     firstRow_(true) {
 
-    if (it_ != end_)
+    if (it_ != end_) {
         updateMetaData();
+    }
+    else {
+        // There are no rows (e.g. only tables with zero rows). The offsets are required, but never used to access data.
+        columnOffsets_.assign(columns_.size(), 0);
+        columnDoublesSizes_.assign(columns_.size(), 1);
+        columnsHaveMissing_.assign(columns_.size(), false);
+        columnMissingValues_.assign(columns_.size(), 0);
+    }
 }
 
 template <typename READER>
-- 
2.43.0


From 1ae3574b7fb867bb94dd099c545c694c6ab8422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 22/81] fix: columns keep their own missing value when their
 codec is reset

---
 src/odc/core/Column.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..7319f00 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -212,9 +212,11 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = rawMissingValue();  // Preserve the missing value of this column
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From acf524f84912c7bb76acb555b204151195108985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 23/81] fix: re-encoding a file mixed up the bitfield
 definitions and missing values of its frames

---
 src/odc/WriterBufferingIterator.cc | 17 +++++++++++++++++
 src/odc/WriterBufferingIterator.h  |  5 ++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..fb56bff 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -222,6 +222,23 @@ size_t WriterBufferingIterator::rowDataSizeDoublesInternal() const {
     return total;
 }
 
+bool WriterBufferingIterator::sameDefinitions(const MetaData& md) const {
+
+    if (md != columns())
+        return false;
+
+    for (size_t i = 0; i < md.size(); ++i) {
+        const Column& lhs(*md[i]);
+        const Column& rhs(*columns_[i]);
+        if (lhs.type() == api::BITFIELD && lhs.bitfieldDef() != rhs.bitfieldDef())
+            return false;
+        if (lhs.type() != api::STRING && lhs.rawMissingValue() != rhs.rawMissingValue())
+            return false;
+    }
+
+    return true;
+}
+
 int WriterBufferingIterator::doWriteRow(core::DataStream<core::SameByteOrder>& stream, const double* values) {
     if (lastValues_ == 0)
         allocBuffers();
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..4edd5c8 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -145,6 +145,9 @@ private:
     template <typename T>
     void pass1init(T&, const T&);
 
+    /// Can rows with the given columns be written in the same frame as those with columns()?
+    bool sameDefinitions(const core::MetaData& md) const;
+
     std::pair<eckit::Buffer, size_t> serializeHeader(size_t dataSize, size_t rowsNumber);
 
     void allocBuffers();
@@ -199,7 +202,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && !sameDefinitions(it->columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
-- 
2.43.0


From 3ec3b750d224b56d6b12d2d7c42ad7a599d64d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 24/81] fix: compact and fixrowsize failed when frames with and
 without missing values were merged

---
 src/odc/tools/CompactTool.cc      | 2 +-
 src/odc/tools/FixedSizeRowTool.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/CompactTool.cc b/src/odc/tools/CompactTool.cc
index 3690d66..e0bffb2 100644
--- a/src/odc/tools/CompactTool.cc
+++ b/src/odc/tools/CompactTool.cc
@@ -54,7 +54,7 @@ void CompactTool::run() {
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
 
-    odc::Comparator comparator;
+    odc::Comparator comparator(true);  // The has-missing flags may differ, if frames have been merged
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index 2292be8..3816f90 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -50,7 +50,7 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator end1 = in.end();
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
-    odc::Comparator comparator;
+    odc::Comparator comparator(true);  // The has-missing flags may differ, if frames have been merged
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
-- 
2.43.0


From 53f11c96766861d79277e2d2cfee3239703764c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 25/81] fix: compare reported equal infinite values as
 different, and integers differing by one as equal

---
 src/odc/Comparator.cc | 4 ++++
 src/odc/Comparator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 2f2641f..adba4b4 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -167,6 +167,10 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
                     }
                     case INTEGER:
                     case BITFIELD:
+                        // Integers are exact, no tolerance applies
+                        if (*pdata1 != *pdata2)
+                            raiseNotEqual(column, *pdata1, *pdata2);
+                        break;
                     case DOUBLE:
                         if (!(same(*pdata1, *pdata2) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))
                             raiseNotEqual(column, *pdata1, *pdata2);
diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..16a4752 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -68,6 +68,10 @@ public:
     inline static double err(double A, double B) {
         double relativeError;
 
+        // n.b. includes infinite values
+        if (A == B)
+            return 0;
+
         if (fabs(A) <= maxAbsoluteError || fabs(B) <= maxAbsoluteError)
             relativeError = fabs(A - B);
         else if (fabs(B) > fabs(A))
-- 
2.43.0


From 07e668c799879822f5d31cac369475cc5cd9be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 26/81] fix: odc set corrupted files with string columns wider
 than 8 bytes

---
 src/odc/ODAUpdatingIterator.cc | 25 +++++++++++++++++++------
 src/odc/ODAUpdatingIterator.h  |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..5b7b6c0 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -24,6 +24,7 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     end_(end),
     columns_(columns),
     columnIndices_(columns.size()),
+    rowDataSizeDoubles_(0),
     values_(values),
     data_(0),
     refCount_(0),
@@ -31,7 +32,7 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     ASSERT(columns.size() == values.size());
 
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+    std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
     update();
 }
 
@@ -39,8 +40,16 @@ template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
+    // n.b. String columns can be wider than one double
+    columnOffsets_.clear();
+    rowDataSizeDoubles_ = 0;
+    for (size_t i = 0; i < md.size(); ++i) {
+        columnOffsets_.push_back(rowDataSizeDoubles_);
+        rowDataSizeDoubles_ += md[i]->dataSizeDoubles();
+    }
+
     delete[] data_;
-    data_ = new double[md.size()];
+    data_ = new double[rowDataSizeDoubles_];
 
     for (size_t i = 0; i < columns_.size(); ++i)
         columnIndices_[i] = md.columnIndex(columns_[i]);
@@ -48,7 +57,7 @@ void ODAUpdatingIterator<T>::updateIndices() {
 
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end), end_(end), columnIndices_(), rowDataSizeDoubles_(0), values_(), data_(0), refCount_(0), noMore_(true) {}
 
 template <typename T>
 ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
@@ -57,8 +66,12 @@ ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnIndices_.size(); ++i) {
+        double* p  = data_ + columnOffsets_[columnIndices_[i]];
+        size_t len = ii_->columns()[columnIndices_[i]]->dataSizeDoubles();
+        std::fill(p, p + len, 0);
+        *p = values_[i];
+    }
 }
 
 template <typename T>
@@ -76,7 +89,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
         update();
     }
     noMore_ = !r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..3e9ace9 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -65,6 +65,8 @@ private:
 
     std::vector<std::string> columns_;
     std::vector<size_t> columnIndices_;
+    std::vector<size_t> columnOffsets_;  // in doubles
+    size_t rowDataSizeDoubles_;
     const std::vector<double> values_;
 
     double* data_;
-- 
2.43.0


From 1f4906a43f3bd760e5146ebbcd5cf295493fbe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:02 +0000
Subject: [PATCH 27/81] fix: merge truncated strings to 8 bytes and ignored
 changes of columns between frames

---
 src/odc/WriterBufferingIterator.h |  5 ++--
 src/odc/tools/MergeTool.cc        | 49 +++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 4edd5c8..534c9f5 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -109,6 +109,9 @@ public:
 
     void flush();
 
+    /// Can rows with the given columns be written in the same frame as those with columns()?
+    bool sameDefinitions(const core::MetaData& md) const;
+
     std::vector<eckit::PathName> outputFiles();
     bool next();
 
@@ -145,8 +148,6 @@ private:
     template <typename T>
     void pass1init(T&, const T&);
 
-    /// Can rows with the given columns be written in the same frame as those with columns()?
-    bool sameDefinitions(const core::MetaData& md) const;
 
     std::pair<eckit::Buffer, size_t> serializeHeader(size_t dataSize, size_t rowsNumber);
 
diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..2816443 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -9,6 +9,9 @@
  */
 
 #include "odc/tools/MergeTool.h"
+
+#include <cstring>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/log/Timer.h"
@@ -73,37 +76,57 @@ void MergeTool::run() {
         merge(inputFiles_, sql_, outputFile_);
 }
 
-template <typename T, typename I>
-void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
-    odc::Writer<> writer(outputFile);
-    odc::Writer<>::iterator out(writer.begin());
-
-    for (size_t i = 0; i < iterators.size(); ++i) {
-        MetaData columns(iterators[i].first->columns());
+template <typename I>
+MetaData mergedColumns(std::vector<std::pair<I, I>>& iterators) {
+    MetaData md;
+    for (auto& it : iterators) {
+        MetaData columns(it.first->columns());
 
         for (size_t i = 0; i < columns.size(); ++i)
-            if (out->columns().hasColumn(columns[i]->name()))
+            if (md.hasColumn(columns[i]->name()))
                 throw eckit::UserError(std::string("Column '") + columns[i]->name() +
                                        "' occurs in more than one input file of merge.");
-        MetaData md(out->columns());
         md += columns;
-        out->columns(md);
-        // out->columns() += columns;
     }
+    return md;
+}
+
+template <typename T, typename I>
+void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
+    odc::Writer<> writer(outputFile);
+    odc::Writer<>::iterator out(writer.begin());
 
+    out->columns(mergedColumns(iterators));
     out->writeHeader();
     Log::info() << "MergeTool::merge: output metadata: " << out->columns() << std::endl;
 
     for (;;) {
-        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+        bool newDataset = false;
+        for (size_t ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
             I& inEnd(iterators[ii].second);
             if (!(in != inEnd))
                 return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
+            newDataset = newDataset || in->isNewDataset();
+        }
 
+        // The columns of the inputs may change from one frame to the next
+        if (newDataset) {
+            MetaData md(mergedColumns(iterators));
+            if (!(**out).sameDefinitions(md)) {
+                (**out).flush();
+                out->columns(md);
+                out->writeHeader();
+            }
+        }
+
+        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+            I& in(iterators[ii].first);
             for (size_t cn = 0; cn < in->columns().size(); ++cn) {
                 ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
+                // n.b. String columns can be wider than one double
+                ::memcpy(&out->data(i), &(*in)[cn], out->columns()[i]->dataSizeDoubles() * sizeof(double));
+                ++i;
             }
             ++in;
         }
-- 
2.43.0


From 5e6e69fd5b99f54e513eba1de0afe70ac61489fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 28/81] fix: mdset failed on tables without rows and ignored
 values for long constant strings

---
 src/odc/tools/MDSetTool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..edbcaa7 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -83,7 +83,8 @@ void MDSetTool::run() {
                 c.bitfieldDef(bitfieldDefs[i]);
             if (values[i].size() && values[i] != "NONE") {
                 Codec& codec(c.coder());
-                if (codec.name().find("constant") == std::string::npos) {
+                // n.b. The value of a long_constant_string is not stored in min/max
+                if (codec.name().find("constant") == std::string::npos || codec.name() == "long_constant_string") {
                     stringstream ss;
                     ss << "Column '" << columns[i] << "' is not constant (codec: " << codec.name() << ")" << endl;
                     throw UserError(ss.str());
@@ -113,7 +114,8 @@ void MDSetTool::run() {
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
             outHandle->write(encodedHeader.first, encodedHeader.second);
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        if (sizeOfEncodedData != 0)  // A table without rows has no data
+            outHandle->write(encodedData.data(), sizeOfEncodedData);
     }
 }
 
-- 
2.43.0


From 78f7a2197cf10ad1ac5bbf44e4d9aaaf34a70765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 29/81] fix: missing values of a query's later frames were not
 reported as missing

---
 src/odc/sql/SQLSelectOutput.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 5fa9600..4eb3e64 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -95,6 +95,9 @@ bool SQLSelectOutput::output(const expression::Expressions& results) {
 
 void SQLSelectOutput::outputNumber(double x, bool missing) {
     ASSERT(pos_ >= out_ && pos_ < end_);
+    // n.b. the first missing value of a column may be in a later frame than the one the metadata were set up from
+    if (missing)
+        metaData_[currentColumn_]->hasMissing(true);
     *pos_++ = (missing ? missingValues_[currentColumn_] : x);
 }
 
-- 
2.43.0


From 9429d9da0e556b9a4a645291ec94b5f5ef61b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 30/81] fix: encoding a column-major array read out of bounds
 for sizes which are not a multiple of its width

---
 src/odc/api/odc.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 503baf7..7949d40 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -882,7 +882,7 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
             }
         }
 
-        ASSERT(columnMajorWidth % 8 == 0);
+        ASSERT(columnMajorWidth >= 0 && columnMajorWidth % 8 == 0);
         encoder->arrayData        = data;
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
@@ -992,6 +992,12 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<odc_encoder_t::EncodeCo
             c.data = static_cast<const char*>(encoder->arrayData) + offset;
 
             if (encoder->columnMajorWidth != 0) {
+                if (info.decodedSize % encoder->columnMajorWidth != 0) {
+                    std::stringstream ss;
+                    ss << "Data size of " << info.decodedSize << " bytes for column " << info.name
+                       << " is not a multiple of the column-major width " << encoder->columnMajorWidth;
+                    throw SeriousBug(ss.str(), Here());
+                }
                 c.stride = info.decodedSize;
                 if (long(info.decodedSize) != encoder->columnMajorWidth) {
                     // Transpose data for contiguous elementsn
-- 
2.43.0


From bac5f466edda191bc4cbf0907b05004c8b98f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 31/81] fix: a writer could not be used, closed or destroyed
 after a failed write

---
 src/odc/WriterBufferingIterator.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index fb56bff..8dad2ec 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -359,14 +359,7 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
-
-    LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
-
-    // Reset the write buffers
+    // Reset the write buffers. n.b. before writing, such that the writer can be closed (and destroyed) if that fails
 
     nextRowInBuffer_ = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
 
@@ -375,6 +368,13 @@ void WriterBufferingIterator::flush() {
 
     columns_.resetCodecs<SameByteOrder>();
     columns_.resetStats();
+
+    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
+           long(encodedHeader.second));  // Write header
+    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
+           encodedStream.position());  // Write encoded data
+
+    LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 }
 
 
-- 
2.43.0


From df563f366269a942e7fc8360db84c75d68502555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 32/81] fix: a failed write was attempted again, and if that
 succeeded, success reported for corrupt output

---
 src/odc/WriterBufferingIterator.cc | 10 ++++++----
 src/odc/core/Encoder.cc            |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 8dad2ec..899bb22 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -369,10 +369,12 @@ void WriterBufferingIterator::flush() {
     columns_.resetCodecs<SameByteOrder>();
     columns_.resetStats();
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
+    // n.b. ASSERT evaluates its argument again if it fails
+
+    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == long(encodedStream.position()));
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 }
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..0dc7f92 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -114,8 +114,12 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     // And output the data
 
-    ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
-    ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
+    // n.b. ASSERT evaluates its argument again if it fails
+
+    const long headerWritten = out.write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = out.write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == long(encodedStream.position()));
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From f74efe4ce9e4897b5d335eddf918284656a47078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 33/81] fix: mdset did not report that its output could not be
 written

---
 src/odc/tools/MDSetTool.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index edbcaa7..76d5626 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -51,6 +51,11 @@ void MDSetTool::usage(const std::string& name, std::ostream& o) {
 
 MDSetTool::MDSetTool(int argc, char* parameters[]) : Tool(argc, parameters) {}
 
+static void writeAll(DataHandle& handle, const void* data, size_t size) {
+    const long written = handle.write(data, size);
+    ASSERT(written == long(size));
+}
+
 void MDSetTool::run() {
     if (parameters().size() != 4) {
         Log::error() << "Usage: ";
@@ -105,18 +110,20 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            writeAll(*outHandle, encodedHeader.first, encodedHeader.second);
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            writeAll(*outHandle, encodedHeader.first, encodedHeader.second);
         }
         if (sizeOfEncodedData != 0)  // A table without rows has no data
-            outHandle->write(encodedData.data(), sizeOfEncodedData);
+            writeAll(*outHandle, encodedData.data(), sizeOfEncodedData);
     }
+
+    outHandle->close();  // n.b. the last of the data may be written here
 }
 
 //
-- 
2.43.0


From 07cab12c28b62df55d8689df7e4e45570e47c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 34/81] fix: encoding to a file descriptor failed on pipes and
 reported the bytes written before

---
 src/odc/api/odc.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 7949d40..1237dc0 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1115,13 +1115,25 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
 }
 
 int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_encoded) {
+
+    // n.b. The position of the descriptor includes what was written before, and pipes and sockets do not have one
+    struct CountingFileDescHandle : public FileDescHandle {
+        CountingFileDescHandle(int fd) : FileDescHandle(fd), count_(0) {}
+        long write(const void* buffer, long length) override {
+            long written = FileDescHandle::write(buffer, length);
+            count_ += written;
+            return written;
+        }
+        long count_;
+    };
+
     return wrapApiFunction([encoder, fd, bytes_encoded] {
-        FileDescHandle dh(fd);
+        CountingFileDescHandle dh(fd);
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
         if (bytes_encoded)
-            (*bytes_encoded) = dh.position();
+            (*bytes_encoded) = dh.count_;
     });
 }
 
-- 
2.43.0


From eb6e1460a05ef7eb3a1d659c2985799bc5f8fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 35/81] fix: rows waiting in a writer were corrupted or lost
 when its header was written again

---
 src/odc/WriterBufferingIterator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 899bb22..91af25e 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -155,6 +155,12 @@ void WriterBufferingIterator::allocRowsBuffer() {
 }
 
 void WriterBufferingIterator::writeHeader() {
+
+    // Rows which are waiting have to be written before the statistics and the buffers are reset
+
+    if (initialisedColumns_)
+        flush();
+
     allocBuffers();
 
     // If the calculated buffer size now is bigger than the size used for an
-- 
2.43.0


From f3d4c90a66e1aadcb67e6cf2f68d106d66772c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 36/81] fix: heap overflow in the writer when the size of its
 rows buffer is reduced while rows are waiting

---
 src/odc/WriterBufferingIterator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 91af25e..8b89371 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -344,7 +344,9 @@ void WriterBufferingIterator::flush() {
     setOptimalCodecs();
 
     // n.b. ensure that we leave space for the header in the worst case (data doesn't compress at all)
-    Buffer encodedBuffer(rowsBuffer_.size() + (sizeof(uint16_t) * rowsBufferSize_));
+    // n.b. rowsBufferSize_ may have been changed since rowsBuffer_ was allocated
+    const size_t rowsToWrite = (nextRowInBuffer_ - reinterpret_cast<unsigned char*>(rowsBuffer_.data())) / rowByteSize_;
+    Buffer encodedBuffer(rowsBuffer_.size() + (sizeof(uint16_t) * rowsToWrite));
     core::DataStream<core::SameByteOrder> encodedStream(encodedBuffer);
 
     // Iterate over stored rows, and re-encode them into the encodedBuffer
-- 
2.43.0


From bfe4bdb0a2a7adc34c9fe3e8f91a58ca82682d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 37/81] fix: a column defined again in a writer kept its
 bitfield members, bitfield columns could repeat a name

---
 src/odc/WriterBufferingIterator.cc | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 8b89371..32d38f4 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -293,7 +293,12 @@ int WriterBufferingIterator::open() {
 
 
 int WriterBufferingIterator::setColumn(size_t index, std::string name, api::ColumnType type) {
-    // LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::setColumn: " << std::endl;
+    // n.b. a column which is defined again does not keep the fields it had
+    return setBitfieldColumn(index, name, type, eckit::sql::BitfieldDef());
+}
+
+int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, api::ColumnType type,
+                                               eckit::sql::BitfieldDef b) {
     ASSERT(index < columns().size());
     Column* col = columns_[index];
     ASSERT(col);
@@ -309,19 +314,6 @@ int WriterBufferingIterator::setColumn(size_t index, std::string name, api::Colu
         }
     }
 
-    col->name(name);
-    col->type<SameByteOrder>(type);
-
-    return 0;
-}
-
-int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, api::ColumnType type,
-                                               eckit::sql::BitfieldDef b) {
-    // LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::setBitfieldColumn: " << std::endl;
-    ASSERT(index < columns().size());
-    Column* col = columns_[index];
-    ASSERT(col);
-
     col->name(name);
     col->type<SameByteOrder>(type);
     col->bitfieldDef(b);
-- 
2.43.0


From f765738f14e489d796b38f2b6bbcacf991169d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 38/81] fix: dispatching writer compared wide strings by their
 first word, and cut them off in file names

---
 src/odc/WriterDispatchingIterator.cc | 62 ++++++++++++++++++----------
 src/odc/WriterDispatchingIterator.h  |  8 +++-
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..3963fe3 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -8,12 +8,17 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+#include <exception>
+#include <memory>
+
 #include "eckit/log/Log.h"
 #include "eckit/log/Timer.h"
 #include "eckit/utils/Translator.h"
 
 #include "odc/Comparator.h"
 #include "odc/LibOdc.h"
+#include "odc/ODBAPISettings.h"
 #include "odc/Reader.h"
 #include "odc/WriterDispatchingIterator.h"
 
@@ -40,7 +45,7 @@ WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::WriterDispatchingIterator(OWNE
     lastDispatch_(maxOpenFiles, -1),
     iteratorIndex2fileName_(maxOpenFiles),
     lastDispatchedValues_(),
-    lastIndex_(),
+    lastIndex_(-1),
     initialized_(false),
     append_(append),
     refCount_(0),
@@ -84,22 +89,19 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::setBitfieldColumn(size_t i
 template <typename WRITE_ITERATOR, typename OWNER>
 std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(const double* values,
                                                                                unsigned long count) {
-    // n.b. Duplicated from eckit::sql::expression::function::FunctionEQ::trimStringInDouble.
+    // n.b. Similar to eckit::sql::expression::function::FunctionEQ::trimStringInDouble.
     // Provided as static lambda because this .cc file is included in the header and even when the
     // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
     // a warning.
     //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
+    static const auto trimString = [](const char*& p, size_t& len, size_t maxlen) {
         len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
+        for (; len < maxlen && isprint(static_cast<unsigned char>(p[len])); ++len)
             ;
-        for (; len > 0 && isspace(p[len - 1]); --len)
+        for (; len > 0 && p[len - 1] == ' '; --len)
             ;
-        size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
+        for (; len > 0 && *p == ' '; --len)
             ++p;
-            --len;
-        }
     };
     std::string fileName(outputFileTemplate_);
     int diff(0);
@@ -109,23 +111,25 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
+        const double* d = &values[columnOffset(p.columnIndex)];
         std::string s;
         if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
+            const char* sp(reinterpret_cast<const char*>(d));
             size_t len(0);
-            trimStringInDouble(sp, len);
+            trimString(sp, len, columns_[p.columnIndex]->dataSizeDoubles() * sizeof(double));
             s = std::string(sp, len);
-            while (s.find("/") != std::string::npos) {
-                std::string old(s);
-                size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
-                // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
-                // << std::endl;
-            }
+            size_t pos;
+            while ((pos = s.find("/")) != std::string::npos)
+                s.replace(pos, 1, std::string("__SLASH__"));
+        }
+        else if (columns_[p.columnIndex]->type() != api::REAL && columns_[p.columnIndex]->type() != api::DOUBLE &&
+                 !ODBAPISettings::instance().integersAsDoubles()) {
+            int64_t i;
+            ::memcpy(&i, d, sizeof(i));
+            s = std::to_string(i);
         }
         else {
-            s = eckit::Translator<int, std::string>()(int(d));
+            s = eckit::Translator<int, std::string>()(int(*d));
         }
 
         fileName.replace(p.startPos - diff, p.endPos - p.startPos + 1, s);
@@ -143,11 +147,13 @@ WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const
 
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double* values, unsigned long count) {
+    // n.b. The bytes of the values: strings may be wider than a double, and may look like any double (including NaN)
     Values dispatchedValues;
     for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
-        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
+        dispatchedValues.append(reinterpret_cast<const char*>(&values[columnOffset(dispatchedIndexes_[i])]),
+                                columns_[dispatchedIndexes_[i]]->dataSizeDoubles() * sizeof(double));
 
-    if (dispatchedValues == lastDispatchedValues_)
+    if (lastIndex_ >= 0 && dispatchedValues == lastDispatchedValues_)
         return lastIndex_;
 
     Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
@@ -161,6 +167,14 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double
     return iteratorIndex;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+size_t WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::columnOffset(size_t index) const {
+    size_t offset = 0;
+    for (size_t i = 0; i < index; ++i)
+        offset += columns_[i]->dataSizeDoubles();
+    return offset;
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
                                                                      const std::string& fileName) {
@@ -297,6 +311,10 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
     dispatchedIndexes_.clear();
     for (size_t i(0); i < templateParameters_.size(); ++i)
         dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+
+    // Values of other columns may have the same representation
+    values2iteratorIndex_.clear();
+    lastIndex_   = -1;
     initialized_ = true;
 }
 
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 82c2f64..6a7f1c3 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -38,7 +38,7 @@ class TemplateParameters;
 
 template <typename WRITE_ITERATOR, typename OWNER>
 class WriterDispatchingIterator {
-    typedef std::vector<double> Values;
+    typedef std::string Values;
     typedef std::map<Values, int> Values2IteratorIndex;
     typedef std::vector<WRITE_ITERATOR*> Iterators;
 
@@ -140,6 +140,12 @@ private:
 
     void parseTemplateParameters();
 
+    /// From the next row on, rows have the given columns
+    void changeColumns(const core::MetaData& md);
+
+    /// The offset of a given column in the rows, in doubles
+    size_t columnOffset(size_t index) const;
+
     int refCount_;
 
     Iterators iterators_;
-- 
2.43.0


From 680a6543a53b52def85b26099b4a4cdd810760a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 39/81] fix: heap overflow in the dispatching writer's own row
 if it has wide strings

---
 src/odc/WriterDispatchingIterator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 3963fe3..d2456ea 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -279,15 +279,15 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
     int32_t numDoubles = rowDataSizeDoubles();
     int32_t count      = columns().size();
 
-    lastValues_    = new double[numDoubles];
-    nextRow_       = new double[numDoubles];
+    lastValues_    = new double[numDoubles]();
+    nextRow_       = new double[numDoubles]();
     columnOffsets_ = new size_t[count];
     ASSERT(lastValues_);
 
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
+        columnOffsets_[i]                      = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
-- 
2.43.0


From 91e30d2fada873ce286c6fe11d80a712724cfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 40/81] fix: dispatching writer lost rows of files evicted or
 named by several keys, and appended to stale files

---
 src/odc/WriterDispatchingIterator.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index d2456ea..8bd981f 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -178,6 +178,15 @@ size_t WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::columnOffset(size_t ind
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
                                                                      const std::string& fileName) {
+    // Different values may have the same file name (e.g. if only the integer part of numbers is used)
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        if (iteratorIndex2fileName_[i] == fileName) {
+            values2iteratorIndex_[dispatchedValues] = i;
+            return i;
+        }
+    }
+
     int iteratorIndex(iterators_.size());
     if (iterators_.size() >= maxOpenFiles_) {
         ASSERT(iterators_.size());
@@ -196,18 +205,20 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
                               << iteratorIndex2fileName_[iteratorIndex] << "' "
                               << " (oldest row: " << oldestRow << "), nrows_=" << nrows_ << std::endl;
 
+        iterators_[iteratorIndex]->close();
         delete iterators_[iteratorIndex];
         iterators_[iteratorIndex] = 0;
 
-        Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
+        for (Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin()); vit != values2iteratorIndex_.end();) {
             if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
+                vit = values2iteratorIndex_.erase(vit);
+            else
+                ++vit;
+        }
     }
 
     std::string operation;
-    // bool append = false;
+    bool append = append_;
     if (append_ || !eckit::PathName(fileName).exists()) {
         filesCreated_[fileName] = 1;
         operation               = "creating";
@@ -218,7 +229,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
             operation               = "overwriting";
         }
         else {
-            append_ = true;
+            append = true;
             filesCreated_[fileName]++;
             operation = "appending";
         }
@@ -227,11 +238,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
     LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
 
     if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
+        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append));
         files_.push_back(fileName);
     }
     else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
+        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append);
         files_[iteratorIndex]     = fileName;
         // ASSERT(files_[iteratorIndex] == fileName);
     }
-- 
2.43.0


From 828e81724754372dc0b19b219d3320eee10883dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 41/81] fix: dispatching writer kept the widths and definitions
 of columns of the first frame

---
 src/odc/WriterDispatchingIterator.cc | 40 ++++++++++++++++++----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 8bd981f..e744c73 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -433,6 +433,18 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::missingValue(size_t i, do
     col->missingValue(missingValue);
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::changeColumns(const MetaData& md) {
+    columns(md);
+    parseTemplateParameters();
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        iterators_[i]->flush();
+        iterators_[i]->columns(columns());
+        iterators_[i]->writeHeader();
+    }
+}
+
 template <>
 template <typename T>
 unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::pass1(T& it, const T& end) {
@@ -442,10 +454,7 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
     }
 
     // Copy columns from the input iterator.
-    columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    changeColumns(it->columns());
 
     size_t maxcols = columns().size();
     ASSERT(maxcols > 0);
@@ -455,16 +464,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     nrows_ = 0;
     for (; it != end; ++it) {
-        if (it->isNewDataset() && columns() != it->columns()) {
-            columns(it->columns());
-            parseTemplateParameters();
-
-            for (size_t i = 0; i < iterators_.size(); ++i) {
-                iterators_[i]->flush();
-                iterators_[i]->columns(columns());
-                iterators_[i]->writeHeader();
-            }
-        }
+        if (it->isNewDataset() && !iterators_.empty() && !iterators_[0]->sameDefinitions(it->columns()))
+            changeColumns(it->columns());
 
         const double* data(it->data());
         size_t size(it->columns().size());
@@ -482,6 +483,17 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     for (size_t i = 0; i < iterators_.size(); ++i) {
         iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
     }
+
+    // And for the rows, and the files, to come
+
+    for (const auto& kv : resetColumnSizeDoubles) {
+        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
+    }
+
+    const unsigned long long nrows = nrows_;
+    writeHeader();
+    nrows_       = nrows;
+    initialized_ = false;
 }
 
 
-- 
2.43.0


From f2a5a15b0f316bfa4bebaba98bcbf83aa5f23b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 42/81] fix: verification of a split overwrote the files if
 there were more than can be open

---
 src/odc/WriterDispatchingIterator.cc | 105 ++++++++++++++-------------
 src/odc/WriterDispatchingIterator.h  |   4 +-
 src/odc/tools/SplitTool.cc           |   9 +--
 3 files changed, 61 insertions(+), 57 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index e744c73..d6e4f19 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -498,26 +498,13 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
 
 
 template <>
-template <typename T>
-void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::verify(T& it, const T& end) {
+template <typename R>
+void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::verify(R& input) {
     using namespace eckit;
     using namespace std;
     Log::info() << "Verifying split..." << endl;
     Timer timer("Split verification");
 
-    // Copy columns from the input iterator.
-    columns(it->columns());
-
-    vector<Reader*> readers;
-    vector<pair<Reader::iterator, Reader::iterator> > iterators;
-    for (size_t i(0); i < files_.size(); ++i) {
-        Reader* reader(new Reader(files_[i]));
-        readers.push_back(reader);
-        iterators.push_back(make_pair(reader->begin(), reader->end()));
-    }
-
-    vector<size_t> rowsRead(files_.size());
-
     // Frames in the source/dispatched cases will have different sizes, so the haveMissing()
     // value may differ. Only compare the values
     bool skipTestingHaveMissing = true;
@@ -525,49 +512,67 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
 
     unsigned long numberOfDifferences(0);
     long long i(0);
-    for (; it != end; ++i) {
-        if (it->isNewDataset() && columns() != it->columns()) {
-            columns(it->columns());
-            parseTemplateParameters();
-        }
 
-        size_t fileIndex(dispatchIndex(it->data(), it->columns().size()));
-        const std::string& outFileName(files_[fileIndex]);
+    // n.b. There may be more files than can be open at a time
 
-        size_t n(columns().size());
-        typedef Reader::iterator I;
-        std::pair<I, I>& its(iterators[fileIndex]);
-        I &sIt(its.first), sEnd(its.second);
+    for (auto file = filesCreated_.begin(); file != filesCreated_.end();) {
 
-        const MetaData& sMetaData(sIt->columns());
-        try {
-            ASSERT(sIt != sEnd);
+        map<string, unique_ptr<Reader>> readers;
+        map<string, unique_ptr<Reader::iterator>> iterators;
+        map<string, size_t> rowsRead;
+        for (int n = 0; n < maxOpenFiles_ && file != filesCreated_.end(); ++n, ++file) {
+            Reader* reader = new Reader(PathName(file->first));
+            readers[file->first].reset(reader);
+            iterators[file->first].reset(new Reader::iterator(reader->begin()));
+        }
 
-            // In the parent codec, we will always have the largest data size (e.g. for
-            // the longest string). This will not be true in the dispatched iterators
-            // which will only be large enough for the strings dispatched to them.
-            bool compareDataSizes = false;
-            ASSERT(sMetaData.equals(columns(), compareDataSizes));
+        i        = 0;
+        auto it  = input.begin();
+        auto end = input.end();
+        bool first(true);
 
-            ++rowsRead[fileIndex];
-            const double* const originalData(it->data());
-            const double* const outputData(sIt->data());
-            comparator.compare(n, originalData, outputData, columns(), sMetaData);
-        }
-        catch (...) {
-            ++numberOfDifferences;
-            Log::info() << "Row " << i << " of input (" << rowsRead[fileIndex] << " of " << outFileName
-                        << ") not correct." << endl
-                        << endl;
+        for (; it != end; ++it, ++i) {
+            if (first || (it->isNewDataset() && columns() != it->columns())) {
+                columns(it->columns());
+                parseTemplateParameters();
+                first = false;
+            }
+
+            const std::string outFileName(generateFileName(it->data(), it->columns().size()));
+            auto s = iterators.find(outFileName);
+            if (s == iterators.end())
+                continue;
+
+            Reader::iterator& sIt(*s->second);
+            const Reader::iterator sEnd(readers[outFileName]->end());
+
+            ++rowsRead[outFileName];
+            try {
+                ASSERT(sIt != sEnd);
+
+                // In the parent codec, we will always have the largest data size (e.g. for
+                // the longest string). This will not be true in the dispatched iterators
+                // which will only be large enough for the strings dispatched to them.
+                const MetaData& sMetaData(sIt->columns());
+                bool compareDataSizes = false;
+                ASSERT(sMetaData.equals(columns(), compareDataSizes));
+
+                const double* const originalData(it->data());
+                const double* const outputData(sIt->data());
+                comparator.compare(columns().size(), originalData, outputData, columns(), sMetaData);
+                ++sIt;
+            }
+            catch (...) {
+                ++numberOfDifferences;
+                Log::info() << "Row " << i << " of input (" << rowsRead[outFileName] << " of " << outFileName
+                            << ") not correct." << endl
+                            << endl;
+                if (sIt != sEnd)
+                    ++sIt;
+            }
         }
-        ++it;
-        ++sIt;
     }
     Log::info() << "Number of rows: " << i << ". Total number of differences: " << numberOfDifferences << std::endl;
-    ASSERT(!(it != end));
-
-    for (size_t j = 0; j < readers.size(); ++j)
-        delete readers[j];
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 6a7f1c3..4bc531c 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -60,8 +60,8 @@ public:
 
     template <typename T>
     unsigned long pass1(T&, const T&);
-    template <typename T>
-    void verify(T&, const T&);
+    template <typename R>
+    void verify(R& input);
     unsigned long gatherStats(const double* values, unsigned long count);
 
     int close();
diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..16b0002 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -140,12 +140,11 @@ void SplitTool::split(const PathName& inFile, const std::string& outFileTemplate
     odc::DispatchingWriter::iterator outIt(out.begin());
     outIt->pass1(in.begin(), in.end());
 
-    odc::Reader input(inFile);
-    odc::Reader::iterator begin(input.begin());
-    odc::Reader::iterator end(input.end());
     outIt->close();
-    if (verify)
-        (**outIt).verify(begin, end);
+    if (verify) {
+        odc::Reader input(inFile);
+        (**outIt).verify(input);
+    }
 }
 
 }  // namespace tool
-- 
2.43.0


From 2fe9475d0714801d952fac40c50e07610cd76685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 43/81] fix: dispatching writer left files open when closing
 one of them failed

---
 src/odc/WriterDispatchingIterator.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index d6e4f19..835e52f 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -590,11 +590,27 @@ template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator<WRITE_ITERATOR>::close()" << std::endl;
     int rc = 0;
+    std::exception_ptr error;
+
+    // n.b. If one of them fails, the others are closed nevertheless
     for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it) {
-        rc |= (*it)->close();
+        if (!*it)
+            continue;
+        try {
+            rc |= (*it)->close();
+        }
+        catch (...) {
+            if (!error)
+                error = std::current_exception();
+        }
         delete *it;
     }
     iterators_.clear();
+    values2iteratorIndex_.clear();
+    lastIndex_ = -1;
+
+    if (error)
+        std::rethrow_exception(error);
 
     return rc;
 }
-- 
2.43.0


From 1ce4192a992536cdbf86f5f8383689b9e44cb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 44/81] fix: appending to a file that does not exist failed if
 its directory did not either

---
 src/odc/ODBAPISettings.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/ODBAPISettings.cc b/src/odc/ODBAPISettings.cc
index a194751..a161542 100644
--- a/src/odc/ODBAPISettings.cc
+++ b/src/odc/ODBAPISettings.cc
@@ -152,6 +152,9 @@ DataHandle* ODBAPISettings::writeToFile(const PathName& fn, const Length& length
 }
 
 DataHandle* ODBAPISettings::appendToFile(const PathName& fn, const Length& length, bool openDataHandle) {
+    // n.b. The file is created if it is not there, as by writeToFile
+    createDirectories(fn);
+
 #ifdef HAVE_AIO_H
     DataHandle* h(useAIO_ ? static_cast<DataHandle*>(new AIOHandle(fn)) : static_cast<DataHandle*>(new FileHandle(fn)));
 #else
-- 
2.43.0


From 59198c867c8cd4cee5db2d4328d6fc5840ad3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 45/81] fix: verification of a split took missing values of
 later frames for differences

---
 src/odc/WriterDispatchingIterator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 835e52f..b32ac6d 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -532,7 +532,8 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
         bool first(true);
 
         for (; it != end; ++it, ++i) {
-            if (first || (it->isNewDataset() && columns() != it->columns())) {
+            // n.b. Missing values may differ even if the columns are equal
+            if (first || it->isNewDataset()) {
                 columns(it->columns());
                 parseTemplateParameters();
                 first = false;
-- 
2.43.0


From 05fc122b432e56ea2cf5435c30b99f22fa9c187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 46/81] fix: joins read wrong columns if the frames of the
 inner table have different layouts

---
 src/odc/sql/TODATableIterator.cc | 9 +++++++--
 src/odc/sql/TODATableIterator.h  | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index c3dd45b..fd85690 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -61,7 +61,8 @@ TODATableIterator<READER>::TODATableIterator(
     end_(parent_.oda().end()),
     columns_(columns),
     metadataUpdateCallback_(metadataUpdateCallback),
-    firstRow_(true) {
+    firstRow_(true),
+    rewound_(false) {
 
     if (it_ != end_) {
         updateMetaData();
@@ -81,6 +82,7 @@ void TODATableIterator<READER>::rewind() {
         it_       = const_cast<READER&>(parent_.oda()).begin();
         end_      = parent_.oda().end();
         firstRow_ = true;
+        rewound_  = true;
     }
 }
 
@@ -102,7 +104,10 @@ bool TODATableIterator<READER>::next() {
     if (it_ == end_)
         return false;
 
-    if (it_->isNewDataset()) {
+    // n.b. The first frame may differ from the last one before the iterator was rewound
+
+    if (it_->isNewDataset() || rewound_) {
+        rewound_ = false;
         // TODO: Need to update the column pointers in the SQLSelect. AARGH.
         updateMetaData();
         metadataUpdateCallback_(*this);
diff --git a/src/odc/sql/TODATableIterator.h b/src/odc/sql/TODATableIterator.h
index 91ae541..00a95a7 100644
--- a/src/odc/sql/TODATableIterator.h
+++ b/src/odc/sql/TODATableIterator.h
@@ -70,6 +70,7 @@ private:  // members
     std::function<void(eckit::sql::SQLTableIterator&)> metadataUpdateCallback_;
 
     bool firstRow_;
+    bool rewound_;
 };
 
 extern template class TODATableIterator<Reader>;
-- 
2.43.0


From 59706ceea74a43618f306ed30267ac9d41cec16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 47/81] fix: SQL kept the types of the columns of the first
 frame

---
 src/odc/sql/TODATable.cc         | 69 +++++++++++++++++---------------
 src/odc/sql/TODATable.h          |  3 ++
 src/odc/sql/TODATableIterator.cc |  1 +
 3 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 0c9a10b..a9dba63 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -22,6 +22,7 @@
 #include "odc/csv/TextReaderIterator.h"
 #include "odc/sql/TODATable.h"
 #include "odc/sql/TODATableIterator.h"
+#include "odc/sql/Types.h"
 
 using namespace eckit;
 using namespace eckit::sql;
@@ -83,6 +84,28 @@ const READER& TODATable<READER>::oda() const {
 }
 
 
+static const type::SQLType& columnType(const Column& column) {
+
+    switch (column.type()) {
+        case INTEGER:
+            return type::SQLType::lookup("integer", column.dataSizeDoubles());
+        case STRING:
+            return type::SQLType::lookup("string", column.dataSizeDoubles());
+        case REAL:
+            return type::SQLType::lookup("real", column.dataSizeDoubles());
+        case DOUBLE:
+            return type::SQLType::lookup("double", column.dataSizeDoubles());
+        case BITFIELD: {
+            const BitfieldDef& bitfieldDef(column.bitfieldDef());
+            return type::SQLType::lookup(
+                type::SQLBitfield::make("Bitfield", bitfieldDef.first, bitfieldDef.second, "DummyTypeAlias"));
+        }
+        default:
+            throw SeriousBug("Unknown type: " + Translator<int, std::string>()(column.type()), Here());
+    }
+}
+
+
 template <typename READER>
 void TODATable<READER>::populateMetaData() {
     auto& it(readerIterator_);
@@ -92,39 +115,21 @@ void TODATable<READER>::populateMetaData() {
     for (size_t i = 0; i < count; i++) {
         Column& column(*it->columns()[i]);
 
-        const std::string name(column.name());
-        bool hasMissing(column.hasMissing());
-        double missing(column.missingValue());
-        BitfieldDef bitfieldDef(column.bitfieldDef());
-
-        std::string sqlType;
-        size_t typeSizeDoubles = it->dataSizeDoubles(i);
-
-        switch (column.type()) {
-            case INTEGER:
-                sqlType = "integer";
-                break;
-            case STRING:
-                sqlType = "string";
-                break;
-            case REAL:
-                sqlType = "real";
-                break;
-            case DOUBLE:
-                sqlType = "double";
-                break;
-            case BITFIELD: {
-                std::string typeSignature =
-                    type::SQLBitfield::make("Bitfield", bitfieldDef.first, bitfieldDef.second, "DummyTypeAlias");
-                addColumn(name, i, type::SQLType::lookup(typeSignature), hasMissing, missing, true, bitfieldDef);
-                continue;
-            }
-            default:
-                throw SeriousBug("Unknown type: " + Translator<int, std::string>()(column.type()), Here());
-        }
+        addColumn(column.name(), i, columnType(column), column.hasMissing(), column.missingValue(),
+                  column.type() == BITFIELD, column.bitfieldDef());
+    }
+}
+
+template <typename READER>
+void TODATable<READER>::updateColumnType(const std::string& name, const Column& column) {
+
+    const auto it = columnsByName_.find(name);
+    if (it == columnsByName_.end())
+        return;
 
-        addColumn(name, i, type::SQLType::lookup(sqlType, typeSizeDoubles), hasMissing, missing,
-                  column.type() == BITFIELD, bitfieldDef);
+    // n.b. the width of strings follows the data sizes of the columns
+    if (column.type() != STRING || sqlToOdbType(it->second->type()) != STRING) {
+        it->second->updateType(columnType(column));
     }
 }
 
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 7e58591..f28f22e 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -36,6 +36,9 @@ public:
 
     const READER& oda() const;
 
+    /// A column may have another type, or a bitfield other members, in another frame
+    void updateColumnType(const std::string& name, const core::Column& column);
+
 private:  // methods
 
     void populateMetaData();
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index fd85690..2f28895 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -128,6 +128,7 @@ void TODATableIterator<READER>::updateMetaData() {
     columnMissingValues_.clear();
     for (const eckit::sql::SQLColumn& col : columns_) {
         const size_t idx = columnIndex(col.name(), md);
+        const_cast<TODATable<READER>&>(parent_).updateColumnType(col.name(), *md[idx]);
 
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
-- 
2.43.0


From baaa9c83168f1286d0922d807cbbd36dc731eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 48/81] fix: filtering a frame failed if the result has more
 rows than the writer's buffer

---
 src/odc/api/Odb.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 4599123..663b3b6 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -479,9 +479,10 @@ Frame FrameImpl::filter(const std::string& sql) {
 
     // Open this output data handle as a 'new' odb, and extract the Frame
     // There should only be one frame, as it should have a consistent structure from
-    // the SQL select
+    // the SQL select (the writer flushes large results in pieces, so aggregate these)
 
-    Reader reader(output_dh.release());
+    const bool aggregated = true;
+    Reader reader(output_dh.release(), aggregated);
     Frame filtered_frame = reader.next();
     ASSERT(!reader.next());
     return filtered_frame;
-- 
2.43.0


From 46bfb6fd0373f94d302533aac3504bbcac534c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 49/81] fix: filtering a frame lost rows of results written in
 several frames

---
 src/odc/api/Odb.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 663b3b6..197e322 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -475,16 +475,31 @@ Frame FrameImpl::filter(const std::string& sql) {
 
     std::unique_ptr<MemoryHandle> output_dh(new MemoryHandle);
 
-    ::odc::api::filter(sql, input_dh, *output_dh);
+    if (sql.empty()) {
+        ::odc::api::filter(sql, input_dh, *output_dh);
+    }
+    else {
+        odc::Select odb(sql, input_dh);
+        odc::Select::iterator it  = odb.begin();
+        odc::Select::iterator end = odb.end();
+
+        // n.b. The pieces in which a writer flushes a large result may differ in the sizes of string columns
+
+        odc::Writer<> writer(*output_dh);
+        writer.rowsBufferSize(std::max<unsigned long>(writer.rowsBufferSize(), rowCount()));
+        odc::Writer<>::iterator outit = writer.begin();
+        outit->pass1(it, end);
+    }
 
     // Open this output data handle as a 'new' odb, and extract the Frame
     // There should only be one frame, as it should have a consistent structure from
-    // the SQL select (the writer flushes large results in pieces, so aggregate these)
+    // the SQL select (without any SQL, the tables of an aggregated frame are copied)
 
     const bool aggregated = true;
     Reader reader(output_dh.release(), aggregated);
     Frame filtered_frame = reader.next();
-    ASSERT(!reader.next());
+    Frame further_frame  = reader.next();  // n.b. ASSERT may evaluate its argument twice
+    ASSERT(!further_frame);
     return filtered_frame;
 }
 
-- 
2.43.0


From 3cb84bacc51a928936a531fd3b4c42ac576cd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 50/81] fix: copying an aggregated frame failed as its length
 was that of the first table

---
 src/odc/api/Odb.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 197e322..11129d2 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -425,7 +425,12 @@ public:
 
         bool includeHeader = true;
         buffer_            = tables_[0].readEncodedData(includeHeader);
-        return buffer_.size();
+
+        Length total = 0;
+        for (const core::Table& table : tables_) {
+            total += table.nextPosition() - table.startPosition();
+        }
+        return total;
     }
 
     void close() override {}
-- 
2.43.0


From 5824e905afe8881fa782184a2b48d91df73f956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 51/81] fix: SQL filters looked at integers decoded as integers
 as if they were doubles

---
 src/odc/api/Odb.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 11129d2..76166ef 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -412,6 +412,22 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 }
 
 namespace {
+// The SQL engine works on doubles, so integers must be treated as such whilst filtering
+
+class IntegersAsDoubles {
+public:
+
+    IntegersAsDoubles() : saved_(ODBAPISettings::instance().integersAsDoubles()) {
+        ODBAPISettings::instance().treatIntegersAsDoubles(true);
+    }
+
+    ~IntegersAsDoubles() { ODBAPISettings::instance().treatIntegersAsDoubles(saved_); }
+
+private:
+
+    bool saved_;
+};
+
 class SerialTableReadHandle : public DataHandle {
 public:
 
@@ -484,6 +500,8 @@ Frame FrameImpl::filter(const std::string& sql) {
         ::odc::api::filter(sql, input_dh, *output_dh);
     }
     else {
+        const IntegersAsDoubles integersAsDoubles;
+
         odc::Select odb(sql, input_dh);
         odc::Select::iterator it  = odb.begin();
         odc::Select::iterator end = odb.end();
@@ -718,6 +736,8 @@ size_t filter(const std::string& sql, eckit::DataHandle& in, eckit::DataHandle&
         in.saveInto(out);
     }
     else {
+        const IntegersAsDoubles integersAsDoubles;
+
         odc::Select odb(sql, in);
         odc::Select::iterator it  = odb.begin();
         odc::Select::iterator end = odb.end();
-- 
2.43.0


From 68d000ca9dcc57fcdcb53315219bb57d8dc81718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 52/81] fix: importing text ended silently at a blank line

---
 src/odc/csv/TextReaderIterator.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..9cd25c0 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -191,16 +191,18 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
+    // n.b. There may be blank lines, not only at the end
     std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
+    while (line.empty()) {
+        if (!std::getline(*in_, line)) {
+            noMore_ = true;
+            return false;
+        }
+        line = S::trim(line);
+    }
     std::vector<std::string> values(S::split(delimiter_, line));
 
     size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
-    }
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
-- 
2.43.0


From 1fecbba91cd4309f7260e9c7f2d37859944eac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 53/81] fix: an empty value in imported text shifted the values
 after it to other columns

---
 src/odc/csv/TextReaderIterator.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 9cd25c0..1da8cce 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -33,6 +33,29 @@ typedef StringTools S;
 
 namespace odc {
 
+namespace {
+
+/// Split a line into its values. Values may be empty, except that sequences of spaces separate values if the delimiter
+/// is a space, and that there may be a delimiter after the last value.
+std::vector<std::string> splitValues(const std::string& delimiter, const std::string& line) {
+
+    if (delimiter.size() != 1 || delimiter == " ")
+        return S::split(delimiter, line);
+
+    std::vector<std::string> values;
+    size_t start = 0;
+    size_t pos;
+    while ((pos = line.find(delimiter, start)) != std::string::npos) {
+        values.push_back(line.substr(start, pos - start));
+        start = pos + 1;
+    }
+    if (start < line.size())
+        values.push_back(line.substr(start));
+    return values;
+}
+
+}  // namespace
+
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
     columns_(0),
     lastValues_(0),
@@ -198,15 +221,18 @@ bool TextReaderIterator::next() {
             noMore_ = true;
             return false;
         }
-        line = S::trim(line);
+        line = delimiter_ == "\t" ? S::trim(line, " ") : S::trim(line);
     }
-    std::vector<std::string> values(S::split(delimiter_, line));
+    std::vector<std::string> values(splitValues(delimiter_, line));
 
     size_t nCols = values.size();
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
         const std::string& v(S::trim(values[i]));
+        if (v.empty())
+            throw UserError("Empty value for column '" + columns_[i]->name() + "'");
+
         if (S::upper(v) == "NULL") {
             lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
         }
-- 
2.43.0


From 9d717b6b36edf97ad5626e1b1e0cf4edb30c110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 54/81] fix: importing text took anything for an integer

---
 src/odc/csv/TextReaderIterator.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 1da8cce..15f387a 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -14,6 +14,9 @@
 /// @author Piotr Kuchta, Oct 2010
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 
 #include "eckit/filesystem/PathName.h"
@@ -54,6 +57,21 @@ std::vector<std::string> splitValues(const std::string& delimiter, const std::st
     return values;
 }
 
+double integerValue(const std::string& v) {
+
+    errno     = 0;
+    char* end = nullptr;
+    long n    = std::strtol(v.c_str(), &end, 10);
+    if (end != v.c_str() && *end == '\0' && errno == 0)
+        return static_cast<double>(n);
+
+    // Also accept whole numbers written as reals
+    double d = Translator<std::string, double>()(v);
+    if (!(std::floor(d) == d && std::fabs(d) < 9.2e18))
+        throw UserError("Not an integer: '" + v + "'");
+    return d;
+}
+
 }  // namespace
 
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
@@ -281,7 +299,7 @@ bool TextReaderIterator::next() {
 
                 case api::INTEGER:
                 case api::BITFIELD:
-                    lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));
+                    lastValues_[columnOffsets_[i]] = integerValue(v);
                     break;
 
                 default:
-- 
2.43.0


From e65a80114af241702f9addf3b7244bbe85ecf520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 55/81] fix: members of bitfields without bits were imported

---
 src/odc/csv/TextReaderIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 15f387a..4822514 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -148,7 +148,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         int size = atoi(v[1].c_str());
 
-        if (!(v.size() > 0))
+        if (!(size > 0))
             throw UserError("Size of a bitfield must be positive and larger than zero");
 
         numberOfBits += size;
-- 
2.43.0


From f22af5787fe90ab4dce953b7befd2baef6d9b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 56/81] fix: NULL in imported text left parts of wide strings,
 and was no missing value for SQL

---
 src/odc/csv/TextReaderIterator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 4822514..692c31c 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -253,6 +253,14 @@ bool TextReaderIterator::next() {
 
         if (S::upper(v) == "NULL") {
             lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+            for (size_t j = 1; j < columns_[i]->dataSizeDoubles(); ++j)
+                lastValues_[columnOffsets_[i] + j] = 0;
+
+            // n.b. SQL looks for missing values only if it is told that there may be some
+            if (!columns_[i]->hasMissing()) {
+                columns_[i]->hasMissing(true);
+                newDataset_ = true;
+            }
         }
         else {
             api::ColumnType typ(columns()[i]->type());
-- 
2.43.0


From c877016705f76c1bf7e44ded6369b3267a9cd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 57/81] fix: odc import used the delimiter given only with -sql

---
 src/odc/tools/ImportTool.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..0bf7400 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -68,8 +68,9 @@ void ImportTool::run() {
 
     Log::info() << "ImportTool::run: inFile: " << inFile << ", outFile: " << outFile << std::endl;
 
-    std::string delimiter(StringTools::upper(optionArgument("-d", defaultDelimiter())));
-    delimiter = delimiter == "TAB" ? "\t" : delimiter == "SPACE" ? " " : delimiter;
+    std::string delimiter(optionArgument("-d", defaultDelimiter()));
+    std::string name(StringTools::upper(delimiter));
+    delimiter = name == "TAB" ? "\t" : name == "SPACE" ? " " : delimiter;
 
     std::string sql(optionArgument("-sql", std::string("select *;")));
 
@@ -80,7 +81,7 @@ void ImportTool::run() {
         AutoClose close_in(dh_in);
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
-- 
2.43.0


From 40ed0517caea0ab3df5891d8cd5efd04cd183eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 58/81] fix: integers beyond 32 bits were silently encoded as
 other integers

---
 src/odc/codec/Integer.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 683f172..fc7fbaf 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -11,6 +11,12 @@
 #ifndef odc_core_codec_Integer_H
 #define odc_core_codec_Integer_H
 
+#include <limits>
+#include <sstream>
+#include <type_traits>
+
+#include "eckit/exception/Exceptions.h"
+
 #include "odc/core/Codec.h"
 
 /// @note We have some strange behaviour in here. In particular, we support BOTH decoding
@@ -136,7 +142,17 @@ private:  // methods
         static_assert(sizeof(ValueType) == sizeof(d), "unsafe casting check");
 
         const ValueType& val(reinterpret_cast<const ValueType&>(d));
-        InternalValueType s = val;
+
+        // n.b. Bitfields may use all of the bits
+        const auto max = this->type_ == api::BITFIELD ? std::numeric_limits<std::make_unsigned_t<InternalValueType>>::max()
+                                                      : std::numeric_limits<InternalValueType>::max();
+        if (!(val >= std::numeric_limits<InternalValueType>::min() && val <= max)) {
+            std::ostringstream ss;
+            ss << "Integer " << val << " cannot be encoded with codec " << DerivedCodec::codec_name();
+            throw eckit::UserError(ss.str(), Here());
+        }
+
+        InternalValueType s = static_cast<int64_t>(val);
         ByteOrder::swap(s);
         ::memcpy(p, &s, sizeof(s));
         return p + sizeof(s);
-- 
2.43.0


From 65c76241adccab102637a386d3a6344a2f5b2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 59/81] fix: integers that doubles cannot hold were silently
 encoded as other integers

---
 src/odc/codec/Integer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index fc7fbaf..9d1c93f 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -72,6 +72,14 @@ private:  // methods
     void gatherStats(const double& v) override {
         static_assert(sizeof(ValueType) == sizeof(v), "unsafe casting check");
         const ValueType& val(reinterpret_cast<const ValueType&>(v));
+
+        // n.b. The statistics, and the offsets and constants they give, are doubles
+        const ValueType limit = static_cast<ValueType>(1LL << std::numeric_limits<double>::digits);
+        if (std::is_integral<ValueType>::value && val != castedMissingValue_ && (val < -limit || val > limit)) {
+            std::ostringstream ss;
+            ss << "Integer " << val << " cannot be encoded";
+            throw eckit::UserError(ss.str(), Here());
+        }
         core::Codec::gatherStats(val);
     }
 
-- 
2.43.0


From 2d4bde145a2dbd63b21c8f1e7a9a8c1d18736782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 60/81] fix: properties of a frame stayed reachable after the
 end of the iteration

---
 src/odc/api/odc.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 1237dc0..5e2c80d 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -385,10 +385,13 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->frame_ = r.impl_->next();
 
+        // n.b. The memoised properties refer to the previous frame, also if there is no further one
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
+
+        if (frame->frame_) {
             return ODC_SUCCESS;
         }
         else {
@@ -407,10 +410,13 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->frame_ = r.impl_->next();
+
+        // n.b. The memoised properties refer to the previous frame, also if there is no further one
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
+        if (frame->frame_) {
             return ODC_SUCCESS;
         }
         else {
-- 
2.43.0


From dfc589895eaddfeec949106678c672de321e5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 61/81] fix: reading on after a failed read silently skipped
 frames

---
 src/odc/api/Odb.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 76166ef..cd772a3 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -129,19 +129,23 @@ Frame ReaderImpl::next() {
     if (it_ == tablesReader_.end())
         return Frame();
 
+    // n.b. If this fails the reader stays where it is, rather than skipping frames that were never returned
+    auto it = it_;
+
     if (!first_) {
-        ++it_;
-        if (it_ == tablesReader_.end())
+        ++it;
+        if (it == tablesReader_.end()) {
+            it_ = it;
             return Frame();
+        }
     }
 
-    first_ = false;
-    tables.emplace_back(*it_);
+    tables.emplace_back(*it);
     long nrows = tables.back().rowCount();
 
     if (aggregated_) {
         while (true) {
-            auto it_next = it_;
+            auto it_next = it;
             ++it_next;
             if (it_next == tablesReader_.end())
                 break;
@@ -152,13 +156,15 @@ Frame ReaderImpl::next() {
             if (!tables.front().columns().compatible(it_next->columns()))
                 break;
 
-            ++it_;
-            tables.emplace_back(*it_);
+            ++it;
+            tables.emplace_back(*it);
             nrows = next_nrows;
         }
     }
 
     ASSERT(rowlimit_ < 0 || nrows <= rowlimit_);
+    it_    = it;
+    first_ = false;
     return Frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
 }
 
-- 
2.43.0


From f0955d0a65876311009d7308eb361605691aa086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 62/81] fix: decoders of negative or absurdly many rows were
 given too small an array

---
 src/odc/api/odc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 5e2c80d..d3860ae 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -13,6 +13,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <limits>
 #include <numeric>
 
 #include "eckit/exception/Exceptions.h"
@@ -567,6 +568,7 @@ int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
 int odc_decoder_set_row_count(odc_decoder_t* decoder, long nrows) {
     return wrapApiFunction([decoder, nrows] {
         ASSERT(decoder);
+        ASSERT(nrows >= 0);
         decoder->nrows = nrows;
     });
 }
@@ -734,6 +736,7 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
             height = decoder->dataHeight;
         }
         else {
+            ASSERT(height <= std::numeric_limits<size_t>::max() / width);
             if (!decoder->ownedData || decoder->dataWidth != width || decoder->dataHeight != height) {
                 decoder->ownedData.reset(new char[width * height]);
                 decoder->dataWidth  = width;
-- 
2.43.0


From 3db1bc0b4ce812d414287300f7ab46cd8ac00696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 63/81] fix: negative numbers of rows were accepted for
 encoding

---
 src/odc/api/odc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index d3860ae..cb45451 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -864,6 +864,7 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
+        ASSERT(nrows >= 0);
         encoder->nrows          = nrows;
         encoder->nrowsFromArray = false;
     });
@@ -872,6 +873,7 @@ int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
 int odc_encoder_set_rows_per_frame(odc_encoder_t* encoder, long rows_per_frame) {
     return wrapApiFunction([encoder, rows_per_frame] {
         ASSERT(encoder);
+        ASSERT(rows_per_frame >= 0);
         encoder->maxRowsPerFrame = rows_per_frame;
     });
 }
-- 
2.43.0


From cac3fbbd2ce05f94fc57ece7b9c93a39c6ecf162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 64/81] fix: bitfield members of negative width were accepted

---
 src/odc/api/odc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index cb45451..99eeca5 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -948,6 +948,7 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
             offset = ci.bitfield.back().offset + ci.bitfield.back().size;
         }
 
+        ASSERT(nbits >= 0);
         ASSERT(offset + nbits <= 32);
         ci.bitfield.emplace_back(ColumnInfo::Bit{name, nbits, int(offset)});
     });
-- 
2.43.0


From 2543cbc66612c826291e7b0fac609ae83b8dbb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 65/81] fix: columns of the same name were encoded to frames
 that cannot be decoded

---
 src/odc/core/Encoder.cc |  9 +++++++++
 src/odc/core/Table.cc   | 11 +++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index 0dc7f92..807e85e 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -10,6 +10,9 @@
 
 #include "odc/core/Encoder.h"
 
+#include <set>
+#include <sstream>
+
 #include "odc/LibOdc.h"
 #include "odc/codec/CodecOptimizer.h"
 #include "odc/core/Header.h"
@@ -35,7 +38,13 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
     // Construct the default codecs
 
     md.setSize(ncols);
+    std::set<std::string> names;
     for (size_t i = 0; i < ncols; ++i) {
+        if (!names.insert(columns[i].name).second) {
+            std::stringstream ss;
+            ss << "Duplicate column '" << columns[i].name << "' cannot be encoded";
+            throw UserError(ss.str(), Here());
+        }
         md[i]->name(columns[i].name);
         md[i]->type<SameByteOrder>(columns[i].type);
         ASSERT(columns[i].decodedSize % sizeof(double) == 0);
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index a9b4e54..25a5574 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -91,15 +91,22 @@ const std::map<std::string, size_t>& Table::columnLookup() {
         const MetaData& metadata(columns());
         size_t ncols = metadata.size();
 
+        // n.b. Nothing is kept if there are duplicates, such that they are reported each time
+        std::map<std::string, size_t> lookup;
+        std::map<std::string, size_t> simpleLookup;
+
         for (size_t i = 0; i < ncols; i++) {
             const auto& nm(metadata[i]->name());
-            if (!columnLookup_.emplace(nm, i).second) {
+            if (!lookup.emplace(nm, i).second) {
                 std::stringstream ss;
                 ss << "Duplicate column '" << nm << "' " << " found in table";
                 throw ODBDecodeError(ss.str(), Here());
             }
-            simpleColumnLookup_.emplace(nm.substr(0, nm.find('@')), i);
+            simpleLookup.emplace(nm.substr(0, nm.find('@')), i);
         }
+
+        columnLookup_.swap(lookup);
+        simpleColumnLookup_.swap(simpleLookup);
     }
 
     return columnLookup_;
-- 
2.43.0


From d0bacc68666761f8b519c5231b9ebc51ac15ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 66/81] fix: encoding with no rows per frame never ended

---
 src/odc/api/Odb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index cd772a3..37da2d3 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -711,6 +711,7 @@ void encode(DataHandle& out, const std::vector<ColumnInfo>& columns, const std::
 
     ASSERT(columns.size() == data.size());
     ASSERT(data.size() > 0);
+    ASSERT(maxRowsPerFrame > 0);
 
     size_t ncols = data.size();
     size_t nrows = data[0].nelem();
-- 
2.43.0


From 26eeab756a1fad82d2791f4bd0fef98fe3d0917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 67/81] fix: rows of more than 65535 columns were written that
 cannot be read back

---
 src/odc/WriterBufferingIterator.cc | 5 +++++
 src/odc/core/Encoder.cc            | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 32d38f4..ddfa685 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -13,6 +13,9 @@
 ///
 /// @author Piotr Kuchta, Feb 2009
 
+#include <cstdint>
+#include <limits>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -110,6 +113,8 @@ void WriterBufferingIterator::allocBuffers() {
     // Don't do anything until evenything is initialised (this check is before we do rowDataSizeDoubles
     // which makes use of the coders).
 
+    ASSERT(columns_.size() <= std::numeric_limits<uint16_t>::max());  // limit of the row marker
+
     for (const Column* column : columns_)
         ASSERT(column->hasInitialisedCoder());
 
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index 807e85e..4392cb5 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -10,6 +10,8 @@
 
 #include "odc/core/Encoder.h"
 
+#include <cstdint>
+#include <limits>
 #include <set>
 #include <sstream>
 
@@ -30,6 +32,7 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     ASSERT(columns.size() == data.size());
     ASSERT(columns.size() > 0);
+    ASSERT(columns.size() <= std::numeric_limits<uint16_t>::max());  // limit of the row marker
     MetaData md;
 
     size_t ncols = columns.size();
-- 
2.43.0


From 280849d212b22c0d4fc6bee6ed94d6b973704433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:14 +0000
Subject: [PATCH 68/81] fix: optional arguments of the Fortran interface are
 not remembered from call to call

---
 src/odc/api/odc.f90 | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index dba8aec..7f71cb4 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -726,9 +726,12 @@ contains
         integer(c_long), intent(in), optional :: maximum_rows
         integer :: err
 
-        integer(c_long) :: l_maximum_rows = -1
-        logical :: l_aggregated = .false.
+        integer(c_long) :: l_maximum_rows
+        logical :: l_aggregated
 
+        ! n.b. Initialising in the declaration would make these variables keep their values between calls
+        l_maximum_rows = -1
+        l_aggregated = .false.
         if (present(aggregated)) l_aggregated = aggregated
         if (present(maximum_rows)) then
             l_maximum_rows = maximum_rows
@@ -876,7 +879,8 @@ contains
         class(odc_decoder), intent(inout) :: decoder
         logical, intent(in), optional :: column_major
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         err = odc_new_decoder(decoder%impl)
         if (err == ODC_SUCCESS) then
@@ -916,8 +920,9 @@ contains
         real(dp), intent(inout), target :: data(:,:)
         logical, intent(in), optional :: column_major
         integer(c_long) :: width, height
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
         integer :: err
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -992,9 +997,13 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(stride)) l_stride = stride
         if (present(data)) l_data = data
@@ -1075,8 +1084,9 @@ contains
         integer(c_long) :: width, height
         integer(c_int) :: columnMajorWidth
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
 
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -1120,8 +1130,9 @@ contains
         integer, intent(in), optional :: element_size_doubles
         integer :: err
 
+        integer(c_int) :: l_element_size
 
-        integer(c_int) :: l_element_size = 0
+        l_element_size = 0
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
 
@@ -1138,9 +1149,13 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
         if (present(stride)) l_stride = stride
-- 
2.43.0


From 14fbb21b804be3984fd27f93292d2b767a4612aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 69/81] fix: a failed write to a Fortran unit fails the encode
 instead of ending the program

---
 src/odc/api/odc.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index 7f71cb4..b1a3506 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -1185,11 +1185,13 @@ contains
         integer(c_long) :: written
         integer, pointer :: fortran_unit
         character(c_char), pointer :: fortran_buffer(:)
+        integer :: ios
 
         call c_f_pointer(context, fortran_unit)
         call c_f_pointer(buffer, fortran_buffer, [length])
-        write(fortran_unit) fortran_buffer
+        write(fortran_unit, iostat=ios) fortran_buffer
         written = length
+        if (ios /= 0) written = -1
     end function
 
     function encoder_encode(encoder, outunit, bytes_written) result(err)
-- 
2.43.0


From 7a0793d32cddf6735ded45519fbf133e10c38e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 70/81] fix: the Fortran interface refuses array sections that
 are not in one piece in memory

---
 src/odc/api/odc.f90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index b1a3506..008bc1d 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -931,6 +931,11 @@ contains
             width = size(data, 1) * double_size
             height = size(data, 2)
         end if
+        ! n.b. The API can only describe arrays that are contiguous in memory
+        if (.not. is_contiguous(data)) then
+            err = odc_decoder_set_data_array(decoder%impl, c_null_ptr, width, height, l_column_major)
+            return
+        end if
         err = odc_decoder_set_data_array(decoder%impl, c_loc(data), width, height, l_column_major)
     end function
 
@@ -1097,6 +1102,8 @@ contains
             height = size(data, 2)
             columnMajorWidth = 0
         end if
+        ! n.b. The API can only describe arrays that are contiguous in memory, and refuses this width
+        if (.not. is_contiguous(data)) columnMajorWidth = -1
         err = odc_encoder_set_data_array(encoder%impl, c_loc(data), width, height, columnMajorWidth)
     end function
 
-- 
2.43.0


From f6b97abbae33e61b7732f7572c1fa5195cc1d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 71/81] fix: the Fortran failure handler is given its error
 number as a C int

---
 src/odc/api/odc.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index 008bc1d..148dba0 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -627,7 +627,7 @@ contains
 
     subroutine failure_handler_wrapper(unused_context, error) bind(c)
         type(c_ptr), intent(in), value :: unused_context
-        integer(c_long), intent(in), value :: error
+        integer(c_int), intent(in), value :: error
         call failure_handler_fn(failure_handler_context, int(error))
     end subroutine
 
-- 
2.43.0


From e757ed1b1812459d0650e6e09b047db2d3a24c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 72/81] fix: the missing value of the column after the last was
 read in the old C interface

---
 src/odc/odccapi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 05a5de0..e5d3526 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -451,7 +451,7 @@ int odb_write_iterator_get_column_offset(oda_write_iterator_ptr wi, int n, int*
 
 int odb_read_iterator_get_missing_value(oda_read_iterator_ptr ri, int index, double* value) {
     ReaderIterator* r(reinterpret_cast<ReaderIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_read_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
@@ -508,7 +508,7 @@ int odb_select_iterator_get_bitfield(oda_select_iterator_ptr it, int index, char
 
 int odb_select_iterator_get_missing_value(oda_select_iterator_ptr ri, int index, double* value) {
     SelectIterator* r(reinterpret_cast<SelectIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_select_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
-- 
2.43.0


From 72f65d85111f8d2d1419e5249b99834783cc4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 73/81] fix: odb_create_select_iterator_from_file returns
 errors as odb_create_select_iterator does

---
 src/odc/odccapi.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index e5d3526..ce82dfe 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -209,7 +209,7 @@ oda_read_iterator_ptr odb_create_read_iterator(oda_ptr co, const char* filename,
     return oda_read_iterator_ptr(iter);
 }
 
-oda_select_iterator_ptr odb_create_select_iterator(oda_ptr co, const char* sql, int* err) {
+static oda_select_iterator_ptr create_select_iterator(oda_ptr co, const std::string& sql, int* err) {
     Select* o(reinterpret_cast<Select*>(co));
     try {
         SelectIterator* iter(o->createSelectIterator(sql));
@@ -231,15 +231,15 @@ oda_select_iterator_ptr odb_create_select_iterator(oda_ptr co, const char* sql,
     }
 }
 
+oda_select_iterator_ptr odb_create_select_iterator(oda_ptr co, const char* sql, int* err) {
+    return create_select_iterator(co, sql, err);
+}
+
 oda_select_iterator_ptr odb_create_select_iterator_from_file(oda_ptr co, const char* sql, const char* filename,
                                                              int* err) {
-    Select* o(reinterpret_cast<Select*>(co));
-
     std::string full_sql(std::string(sql) + " from \"" + std::string(filename) + "\"");
 
-    SelectIterator* iter(o->createSelectIterator(full_sql));
-    *err = !iter;
-    return oda_select_iterator_ptr(iter);
+    return create_select_iterator(co, full_sql, err);
 }
 
 
-- 
2.43.0


From fdab29c0fae8c55e4e0dae3d8caa4db1198d2c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 74/81] fix: a row selected into a buffer larger than the row
 was refused

---
 src/odc/sql/SQLSelectOutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 4eb3e64..e5d9ae3 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -76,7 +76,8 @@ bool SQLSelectOutput::output(const expression::Expressions& results) {
     for (currentColumn_ = 0; currentColumn_ < columnSizesDoubles_.size(); currentColumn_++) {
         results[currentColumn_]->output(*this);
     }
-    ASSERT(pos_ == end_);
+    // n.b. a buffer that is provided can be larger than the row, also if the columns became narrower since
+    ASSERT(pos_ == out_ + requiredBufferSize_);
     count_++;
 
     if (isNewDataset_) {
-- 
2.43.0


From 42e280052fd790d24a1dc7be1963c8e339d847ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 75/81] fix: a row refused by odb_read_iterator_get_next_row
 was lost

---
 src/odc/ReaderIterator.h | 1 +
 src/odc/odccapi.cc       | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/odc/ReaderIterator.h b/src/odc/ReaderIterator.h
index db8b26c..9a7d93c 100644
--- a/src/odc/ReaderIterator.h
+++ b/src/odc/ReaderIterator.h
@@ -129,6 +129,7 @@ private:
     core::Properties properties_;
 
     bool newDataset_;
+    bool rowRefused_ = false;  // by a caller expecting another number of columns
 
     eckit::Buffer rowDataBuffer_;
     core::GeneralDataStream rowDataStream_;
diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index ce82dfe..c9c09fa 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -317,7 +317,8 @@ int odb_select_iterator_get_column_name(oda_select_iterator_ptr it, int n, char*
 
 int odb_read_iterator_get_next_row(oda_read_iterator_ptr it, int count, double* data, int* new_dataset) {
     ReaderIterator* iter(reinterpret_cast<ReaderIterator*>(it));
-    if (!iter->next())
+    // n.b. A row that was refused (the number of columns may have changed) is offered again, and not lost
+    if (!iter->rowRefused_ && !iter->next())
         return 1;
 
     if (iter->isNewDataset())
@@ -327,7 +328,8 @@ int odb_read_iterator_get_next_row(oda_read_iterator_ptr it, int count, double*
 
     ASSERT(count >= 0);
 
-    if (count != static_cast<int>(iter->columns().size()))
+    iter->rowRefused_ = count != static_cast<int>(iter->columns().size());
+    if (iter->rowRefused_)
         return 2;  // TDOO: define error codes
 
     //    ::memcpy(data, iter->data(), count * sizeof(data[0]));
-- 
2.43.0


From dbc1cb688a6a7d5d75057787211b2cefb02e261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 76/81] fix: odc split -sort opened its input twice and always
 failed

---
 src/odc/tools/SplitTool.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 16b0002..7c43c0b 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -126,9 +126,8 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
         AutoClose closer(h);
-        odc::Select in(sql, h);
+        odc::Select in(sql, h);  // n.b. opens the handle
         outIt->pass1(in.begin(), in.end());
     }
 }
-- 
2.43.0


From 8cde3e8bcbd4409f180d534fcfebed51dbb7a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 77/81] fix: odc split -sort failed if the first frame exceeds
 the size of a chunk

---
 src/odc/tools/SplitTool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 7c43c0b..efc4112 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -84,15 +84,16 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        if (currentLength > Length(0) && currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
     if (r.size() == 0 || r.back().first != currentOffset)
-- 
2.43.0


From 0803d72ab2b564abfd50e81e33c963e9eda33683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 78/81] fix: odc sql -length without -offset was ignored, and
 -offset without -length read nothing

---
 src/odc/tools/SQLTool.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 70ea5b6..0744610 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -123,10 +123,16 @@ void SQLTool::run() {
             NOTIMP;  // Is this working?
             /// parser.parseString(session, sql, &fh, config);
         }
-        else if (offset_ == eckit::Offset(0)) {
+        else if (offset_ == eckit::Offset(0) && length_ == eckit::Length(0)) {
             implicitTableDH.reset(new FileHandle(inputFile_));
         }
         else {
+            // n.b. without a length, everything from the offset on is processed
+            if (length_ == eckit::Length(0)) {
+                long long size = PathName(inputFile_).size();
+                ASSERT(offset_ <= eckit::Offset(size));
+                length_ = size - static_cast<long long>(offset_);
+            }
             implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length_));
         }
 
-- 
2.43.0


From d3ed416afa9761e90c2ed8de876624fca64848ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:33 +0000
Subject: [PATCH 79/81] fix: odc xyv wrote latitudes in the column of
 longitudes

---
 src/odc/tools/XYVTool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/XYVTool.cc b/src/odc/tools/XYVTool.cc
index f32966e..8d90d4a 100644
--- a/src/odc/tools/XYVTool.cc
+++ b/src/odc/tools/XYVTool.cc
@@ -55,7 +55,8 @@ void XYVTool::run() {
 
     odc::Select oda(select);
     for (odc::Select::iterator it = oda.begin(); it != oda.end(); ++it) {
-        out << (*it)[0] << "\t" << (*it)[1] << "\t" << (*it)[2] << std::endl;
+        // n.b. x is the longitude, y the latitude
+        out << (*it)[1] << "\t" << (*it)[0] << "\t" << (*it)[2] << std::endl;
     }
     out.close();
 }
-- 
2.43.0


From 7ad3771b80434088988fe9b3a856e58d33a63b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 80/81] fix: the bounds of a slice of strided data were not
 checked when their sum overflows

---
 src/odc/api/StridedData.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/StridedData.h b/src/odc/api/StridedData.h
index b04b976..735268d 100644
--- a/src/odc/api/StridedData.h
+++ b/src/odc/api/StridedData.h
@@ -70,12 +70,12 @@ public:  // methods
      * \returns Subset of current data
      */
     StridedDataT<value_type> slice(size_t rowOffset, size_t nrows) {
-        ASSERT(rowOffset + nrows <= nelem_);
+        ASSERT(nrows <= nelem_ && rowOffset <= nelem_ - nrows);  // n.b. The sum can overflow
         return StridedDataT<value_type>(get(rowOffset), nrows, dataSize_, stride_);
     }
 
     StridedDataT<value_type> slice(size_t rowOffset, size_t nrows) const {
-        ASSERT(rowOffset + nrows <= nelem_);
+        ASSERT(nrows <= nelem_ && rowOffset <= nelem_ - nrows);  // n.b. The sum can overflow
         return StridedDataT<const_value_type>(get(rowOffset), nrows, dataSize_, stride_);
     }
 
-- 
2.43.0


From 1b4687ce622641429cfba668b3026bf5ffda649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:19 +0000
Subject: [PATCH 81/81] fix: copies and spans of a frame took the treatment of
 integers from the settings of the calling thread

---
 src/odc/codec/Constant.h    |  2 ++
 src/odc/codec/Integer.h     |  2 ++
 src/odc/core/Codec.h        |  6 +++++-
 src/odc/core/CodecFactory.h | 27 ++++++++++++++++++---------
 src/odc/core/Table.cc       |  2 +-
 5 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 35d5f47..91ccdc1 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -39,6 +39,8 @@ public:  // methods
         core::DataStreamCodec<ByteOrder>(name, type) {}
     ~CodecConstant() {}
 
+    bool integersAsDoubles() const override { return !std::is_integral<ValueType>::value; }
+
 private:  // methods
 
     void gatherStats(const double& v) override;
diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 9d1c93f..ff9bb95 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -51,6 +51,8 @@ public:  // methods
 
     ~BaseCodecInteger() override {}
 
+    bool integersAsDoubles() const override { return !std::is_integral<ValueType>::value; }
+
 private:  // methods
 
     void missingValue(double v) override {
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index bb2bf8f..4cee675 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -42,6 +42,9 @@ public:
 
     const std::string& name() const { return name_; }
 
+    /// Are the values doubles, or (integer columns only) int64_t?
+    virtual bool integersAsDoubles() const { return true; }
+
     char* encode(char* p, const double& d) { return reinterpret_cast<char*>(encode(reinterpret_cast<uint8_t*>(p), d)); }
     virtual unsigned char* encode(unsigned char* p, const double& d) = 0;
     virtual void decode(double* out)                                 = 0;
@@ -168,7 +171,8 @@ protected:  // methods
 private:  // methods
 
     std::unique_ptr<Codec> create() const override {
-        return CodecFactory::instance().build<ByteOrder>(this->name_, this->type_);
+        // n.b. The representation of integers is that of this codec, whatever the settings are by now (in this thread)
+        return CodecFactory::instance().build<ByteOrder>(this->name_, this->type_, this->integersAsDoubles());
     }
 
 protected:
diff --git a/src/odc/core/CodecFactory.h b/src/odc/core/CodecFactory.h
index 0a5b8d0..53397e5 100644
--- a/src/odc/core/CodecFactory.h
+++ b/src/odc/core/CodecFactory.h
@@ -58,6 +58,9 @@ public:  // methods
     template <typename ByteOrder>
     std::unique_ptr<Codec> build(const std::string& name, api::ColumnType type) const;
 
+    template <typename ByteOrder>
+    std::unique_ptr<Codec> build(const std::string& name, api::ColumnType type, bool integersAsDoubles) const;
+
     template <typename ByteOrder>
     std::unique_ptr<Codec> load(DataStream<ByteOrder>& ds, api::ColumnType type) const;
 
@@ -80,8 +83,8 @@ protected:  // methods
 
 public:  // methods
 
-    virtual std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType) const  = 0;
-    virtual std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType) const = 0;
+    virtual std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType, bool integersAsDoubles) const  = 0;
+    virtual std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType, bool integersAsDoubles) const = 0;
 
 private:  // members
 
@@ -106,10 +109,10 @@ public:  // methods
 
 private:  // methods
 
-    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type) const override {
+    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type, bool) const override {
         return std::unique_ptr<Codec>(new CODEC<SameByteOrder>(type));
     }
-    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type) const override {
+    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type, bool) const override {
         return std::unique_ptr<Codec>(new CODEC<OtherByteOrder>(type));
     }
 };
@@ -129,16 +132,16 @@ public:  // methods
 
 private:  // methods
 
-    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type) const override {
-        if ((type == api::INTEGER || type == api::BITFIELD) && !ODBAPISettings::instance().integersAsDoubles()) {
+    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type, bool integersAsDoubles) const override {
+        if ((type == api::INTEGER || type == api::BITFIELD) && !integersAsDoubles) {
             return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, int64_t>(type));
         }
         else {
             return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, double>(type));
         }
     }
-    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type) const override {
-        if ((type == api::INTEGER || type == api::BITFIELD) && !ODBAPISettings::instance().integersAsDoubles()) {
+    std::unique_ptr<Codec> make(const OtherByteOrder&, api::ColumnType type, bool integersAsDoubles) const override {
+        if ((type == api::INTEGER || type == api::BITFIELD) && !integersAsDoubles) {
             return std::unique_ptr<Codec>(new CODEC_T<OtherByteOrder, int64_t>(type));
         }
         else {
@@ -151,12 +154,18 @@ private:  // methods
 
 template <typename ByteOrder>
 std::unique_ptr<Codec> CodecFactory::build(const std::string& name, api::ColumnType type) const {
+    return build<ByteOrder>(name, type, ODBAPISettings::instance().integersAsDoubles());
+}
+
+template <typename ByteOrder>
+std::unique_ptr<Codec> CodecFactory::build(const std::string& name, api::ColumnType type,
+                                           bool integersAsDoubles) const {
     std::lock_guard<std::mutex> lock(m_);
 
     auto it = builders_.find(name);
     if (it == builders_.end())
         throw ODBDecodeError(std::string("Codec '") + name + "' not found", Here());
-    return it->second.get().make(ByteOrder(), type);
+    return it->second.get().make(ByteOrder(), type, integersAsDoubles);
 }
 
 template <typename ByteOrder>
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 25a5574..bb905d3 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -388,7 +388,7 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         switch (metadata[it->second]->type()) {
             case api::BITFIELD:
             case api::INTEGER:
-                if (ODBAPISettings::instance().integersAsDoubles()) {
+                if (metadata[it->second]->coder().integersAsDoubles()) {
                     columnValues[it->second].reset(new IntegerColumnValuesAsDoubles(columnName));
                 }
                 else {
-- 
2.43.0

