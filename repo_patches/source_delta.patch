From a81ee9eba3822e22bf57dfc8e4c36c3211a838b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 01/26] fix: a buffer range check wraps around for huge offsets
 and lengths

---
 src/buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..306e94c 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,7 +60,9 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    // Written without any addition: the sum of two values read from the file
+    // can wrap around.
+    return _offset <= size() && _length <= size() - _offset;
   }
 
   void assert_check(const size_t _offset, const size_t _length) const noexcept {
-- 
2.43.0


From efebbbcf88daf2538e5703fc6143ad1065505b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 02/26] fix: invalid offsets terminate the process or go
 unchecked instead of raising an exception

---
 src/buffer.hpp   | 47 ++++++++++++++++++++++++++++++++---------------
 src/metadata.hpp | 16 ++++++++--------
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 306e94c..3b56fb3 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -65,23 +65,29 @@ public:
     return _offset <= size() && _length <= size() - _offset;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
   uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+                [[maybe_unused]] const size_t _length)
+      noexcept(_assert == ASSERT::NO) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -127,56 +133,65 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -197,13 +212,15 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..a529091 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -301,7 +301,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   std::string get_column_text_substr(const size_t _idx, size_t _offset,
-                                     size_t _length) const noexcept {
+                                     size_t _length) const {
     if (_idx < column_texts.size()) {
       const auto ct = column_texts[std::min(_idx, column_texts.size() - 1)];
       const auto n = ct.size();
@@ -324,7 +324,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_NAME_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t offset_max =
@@ -344,7 +344,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_ATTRIBUTES_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -366,7 +366,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -402,7 +402,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   void process_DATA_SUBHEADER([
-      [maybe_unused]] const PAGE_SUBHEADER &_subheader) noexcept {
+      [maybe_unused]] const PAGE_SUBHEADER &_subheader) {
     D(spdlog::info("READ_METADATA::process_DATA_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     data_subheaders.emplace_back(_subheader);
-- 
2.43.0


From a154951fae829fafde6136e9a9e7988f9318f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 03/26] fix: page header, subheader signature and column
 subheaders are read past the end of the page

---
 src/metadata.hpp | 12 +++++-------
 src/page.hpp     |  1 +
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index a529091..cbf2902 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -163,7 +163,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
                          Properties::Metadata *_metadata) {
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
-        buf.get_bytes(_subheader.offset, integer_size);
+        buf.template get_bytes<ASSERT::YES>(_subheader.offset, integer_size);
     if (match_signature(ROW_SIZE_SUBHEADER, subheader_signature)) {
       process_ROW_SIZE_SUBHEADER(_subheader, _metadata);
       return false;
@@ -327,10 +327,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += 8) {
+         offset + 12 + integer_size <= offset_end; offset += 8) {
       const size_t idx = buf.get_uint16(offset + 0);
       const size_t name_offset = buf.get_uint16(offset + 2);
       const size_t name_length = buf.get_uint16(offset + 4);
@@ -348,10 +347,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += integer_size + 8) {
+         offset + 12 + integer_size <= offset_end; offset += integer_size + 8) {
       const size_t column_data_offset = buf.get_uinteger(offset + 0);
       const size_t column_data_length = buf.get_uint32(offset + integer_size);
       const uint8_t column_data_type = buf.get_byte(offset + integer_size + 6);
diff --git a/src/page.hpp b/src/page.hpp
index f829f7e..f1ac6f7 100644
--- a/src/page.hpp
+++ b/src/page.hpp
@@ -104,6 +104,7 @@ struct READ_PAGE : public PAGE_CONSTANT<_format> {
 
   bool _get_page_header() {
     D(spdlog::info("get_page_header: "));
+    buf.assert_check(page_bit_offset, 8);
     current_page_header.type = buf.get_uint16(page_bit_offset + 0);
     current_page_header.block_count = buf.get_uint16(page_bit_offset + 2);
     current_page_header.subheaders_count = buf.get_uint16(page_bit_offset + 4);
-- 
2.43.0


From d5a7cf6a56175c70e2d3ed4cf17ccbb7b7713663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 04/26] fix: a header length smaller than the header overflows
 the buffer when asserts are disabled

---
 src/header.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..8f9928e 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
-- 
2.43.0


From f01b583aca35737b98e9eed6853e520335337266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 05/26] fix: a row outside the page is read when asserts are
 disabled

---
 src/data.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..dd9337c 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,9 +188,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
-    const auto values = buf.get_bytes(_offset, _length);
+    const auto values =
+        buf.template get_bytes<ASSERT::YES>(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
     } else {
-- 
2.43.0


From 0422a418f0b4d8dc151616e1fe6f9de0b702e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 06/26] fix: rows are made up when a page holds no row

---
 src/data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.hpp b/src/data.hpp
index dd9337c..b2e13b3 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -154,7 +154,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
     if (!page)
       return false;
     // Do we need to read a new page from the file?
-    if (page->next()) {
+    // The new page can be empty too.
+    while (page->next()) {
       if (!read_next_page())
         return false;
     }
-- 
2.43.0


From 0208bc4ceb38fbdaee08ac0e422bc9097febf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 07/26] fix: the values of a column lying outside the row are
 read out of bounds

---
 src/metadata.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index cbf2902..e77ddfc 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -432,6 +432,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto column_length =
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
+      // The values of the column are read from the row without any check.
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
 
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
-- 
2.43.0


From e1d0441d83a6a8c2c9dd3d4936652001fac641cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 08/26] fix: dates and times stored on less than 8 bytes are
 read on 8 bytes

---
 src/formatters.hpp |  3 +++
 src/metadata.hpp   |  2 ++
 src/types.hpp      | 11 +++++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..2a95124 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,6 +109,9 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
+    // The dates can be stored on less than 8 bytes.
+    if (length < sizeof(double))
+      return INTERNAL::get_incomplete_double<_endian>(data(_p), length);
     return INTERNAL::get_double<_endian>(data(_p));
   }
 
diff --git a/src/metadata.hpp b/src/metadata.hpp
index e77ddfc..09e4e55 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -462,6 +462,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         else if (column_length == 2)
           add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(
               column_offset, column_length));
+        else if (column_length < 3 || column_length > 8)
+          ; // Not supported
         else if (is_datetime_format(column_format))
           add_column(FORMATTER::DateTimeFormatter<_endian>(column_offset,
                                                            column_length));
diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..c8dc5f3 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,6 +140,17 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+/// Value truncated to its first (big) or last (little) bytes, at most 8
+template <Endian _endian>
+inline double get_incomplete_double(const uint8_t *_buf,
+                                    const size_t _length) noexcept {
+  constexpr size_t n = sizeof(double);
+  uint8_t buf[n] = {};
+  std::memcpy(_endian == Endian::big ? buf : buf + (n - _length), _buf,
+              _length);
+  return get_double<_endian>(buf);
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-- 
2.43.0


From 51bff50d2a99d6e76646fd7f4d26b5823e458062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 09/26] fix: decompression reads past the end of the source and
 before the start of the row

---
 src/decompressors.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..ba93b5d 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,8 +25,12 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
-  auto pop(const size_t _n) noexcept {
+  auto pop() {
+    if (!check(1))
+      EXCEPTION::cannot_decompress();
+    return values[i_src++];
+  }
+  auto pop(const size_t _n) {
     auto v = values.substr(i_src, _n);
     i_src += _n;
     return v;
@@ -97,8 +101,14 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    // The pattern must have been decompressed already.
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
+    // The pattern can overlap the values being stored.
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
-- 
2.43.0


From 9c9f8147e43470bae9234a92bf86624990b5e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 10/26] fix: the last command of a RLE compressed row is
 dropped when it is a single byte

An insert command held by the last byte of the source (e.g. the trailing
blanks or '@' of a row) was ignored: the row was padded with zeros.
---
 src/decompressors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index ba93b5d..1cfb800 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -214,7 +214,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From 6a16fa65032a93e7c49cce57a4233171326cb21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 11/26] fix: dates that can't be represented terminate the
 process

The conversions are noexcept, but boost throws out of the years 1400..9999
(and the number of days could overflow).  Such dates are missing dates.
---
 src/types.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index c8dc5f3..783e18d 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -151,14 +151,21 @@ inline double get_incomplete_double(const uint8_t *_buf,
   return get_double<_endian>(buf);
 }
 
+/// The dates that can be represented: 1400-01-01 to 9999-12-31, in days since
+/// 1960-01-01
+constexpr double FIRST_EPOCH_DAY{-204535};
+constexpr double LAST_EPOCH_DAY{2936549};
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_seconds))
+  constexpr double seconds_in_a_day{24 * 60 * 60};
+  // Also false for NaN.  The last second could be rounded up to the next day.
+  if (!(_seconds >= FIRST_EPOCH_DAY * seconds_in_a_day &&
+        _seconds < (LAST_EPOCH_DAY + 1) * seconds_in_a_day - 1))
     return not_a_date_time;
   ptime start(boost::gregorian::date(1960, 1, 1));
   // Increase accuracy by splitting in days/seconds/microseconds
-  constexpr double seconds_in_a_day{24 * 60 * 60};
   const auto _days = std::round(_seconds / seconds_in_a_day);
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
@@ -178,7 +185,8 @@ inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  // Also false for NaN.
+  if (!(_days >= FIRST_EPOCH_DAY && _days <= LAST_EPOCH_DAY))
     return DATE(not_a_date_time);
   ptime start(boost::gregorian::date(1960, 1, 1));
   return (start + days(std::lround(_days))).date();
-- 
2.43.0


From bbe795c3f7437e79d8304e2e8681e33861d6cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 12/26] fix: to_string reads past its buffer for the long dates
 and times

The size returned by format_to_n is the size without truncation (e.g. 17 for
the 16 characters of the buffer with 1000:59:59.123456).
---
 src/types.cpp | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index b77f595..5ebb6d5 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -13,48 +13,31 @@
 namespace cppsas7bdat {
 
 std::string to_string(DATETIME _x) {
-  char szBuffer[32];
-  size_t size{0};
   const auto d = _x.date();
   const auto t = _x.time_of_day();
   if (t.fractional_seconds()) {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer),
-                              "{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}",
-                              d.year(), d.month(), d.day(), t.hours(),
-                              t.minutes(), t.seconds(), t.fractional_seconds());
-    size = r.size;
+    return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}", d.year(),
+                       d.month(), d.day(), t.hours(), t.minutes(), t.seconds(),
+                       t.fractional_seconds());
   } else {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02} {:02}:{:02}:{:02}",
-        d.year(), d.month(), d.day(), t.hours(), t.minutes(), t.seconds());
-    size = r.size;
+    return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", d.year(),
+                       d.month(), d.day(), t.hours(), t.minutes(),
+                       t.seconds());
   }
-  return std::string(szBuffer, size);
 }
 
 std::string to_string(DATE _x) {
-  char szBuffer[16];
-  size_t size{0};
-  auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02}",
-                            _x.year(), _x.month(), _x.day());
-  size = r.size;
-  return std::string(szBuffer, size);
+  return fmt::format("{:04}-{:02}-{:02}", _x.year(), _x.month(), _x.day());
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
-  size_t size{0};
   if (_x.fractional_seconds()) {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}.{:06}", _x.hours(),
-        _x.minutes(), _x.seconds(), _x.fractional_seconds());
-    size = r.size;
+    return fmt::format("{:02}:{:02}:{:02}.{:06}", _x.hours(), _x.minutes(),
+                       _x.seconds(), _x.fractional_seconds());
   } else {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}",
-                              _x.hours(), _x.minutes(), _x.seconds());
-    size = r.size;
+    return fmt::format("{:02}:{:02}:{:02}", _x.hours(), _x.minutes(),
+                       _x.seconds());
   }
-  return std::string(szBuffer, size);
 }
 
 std::string_view to_string(const Endian _x) {
-- 
2.43.0


From 10782c351eac97c1e39f3bf96293eb1a4342c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 13/26] fix: a missing date, time or datetime can't be printed

to_string raises an exception on a missing date, hence the print sink stops on
the first missing value.
---
 src/formatters.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 2a95124..c482af7 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -157,8 +157,11 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
-        _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
+    const auto x = get_datetime(_p);
+    if (x.is_not_a_date_time())
+      return {};
+    return cppsas7bdat::to_string(
+        x); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
   }
 };
 
@@ -181,8 +184,11 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
-        _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
+    const auto x = get_date(_p);
+    if (x.is_not_a_date())
+      return {};
+    return cppsas7bdat::to_string(
+        x); // boost::gregorian::to_iso_extended_string(get_date(_p));
   }
 };
 
@@ -203,8 +209,11 @@ struct TimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
+    const auto x = get_time(_p);
+    if (x.is_not_a_date_time())
+      return {};
     return cppsas7bdat::to_string(
-        get_time(_p)); // boost::posix_time::to_simple_string(get_time(_p));
+        x); // boost::posix_time::to_simple_string(get_time(_p));
   }
 };
 
-- 
2.43.0


From 836b9e9705bac75a7aa2a4de0e137d0717c6469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 14/26] fix: the print sink uses the name of the columns as a
 format string

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 30debba84b3e040570b20ba251232c94f890ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 15/26] fix: the csv command overwrites its input file

The output was opened with the name of the input file. Its name is now the one
computed from the input: with the extension .csv, and never the input itself.
---
 apps/cppsas7bdat-ci.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..5efc444 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -42,11 +42,16 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
+  // Replace the extension of the file, not a dot within the directories
+  const auto ipos = _filename.rfind('.');
+  const auto idir = _filename.rfind('/');
+  if(ipos != _filename.npos && (idir == _filename.npos || ipos > idir)) {
+    const auto csv_filename = _filename.substr(0, ipos) + ".csv";
+    // Never overwrite the input file
+    if(csv_filename != _filename)
+      return csv_filename;
   }
-  return _filename + "csv";
+  return _filename + ".csv";
 }
 
 void process_csv(const std::string& _filename)
@@ -54,7 +59,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
-- 
2.43.0


From b2c3538b23eff0c58a97d007d6917f583bcdcdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 16/26] fix: the csv file sink writes to a destroyed stream
 once moved

---
 include/cppsas7bdat/sink/csv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..7183149 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -91,6 +91,12 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+
+  // os must refer to the stream of this object, not of the moved one.
+  csv_ofstream(csv_ofstream &&_rhs)
+      : _ofstream(std::move(_rhs)), csv(ofs) {
+    columns = std::move(_rhs.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From 6dc5bfc53b2c34469507a91073e9847c9919e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 17/26] fix: the rows pushed to R are overwritten by the next
 ones

The same R vectors are filled again after being handed to the sink: a sink
keeping them gets the values of the next rows (e.g. SinkByChunk's first chunk).
A row_index shrunk by end_of_data was also written past its end if the reading
continues.
---
 R/CPPSAS7BDAT/src/sink.hpp            |  3 ++-
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 16 ++++++----------
 R/CPPSAS7BDAT/src/sink_chunk.hpp      |  2 +-
 R/CPPSAS7BDAT/src/sink_data.hpp       |  2 +-
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..d25a90b 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -85,7 +85,8 @@ struct Sink : public SinkBase {
         break;
       }
     }
-    f_push_row(_irow, row);
+    // The row belongs to R once pushed: push a copy of the row being filled.
+    f_push_row(_irow, Rcpp::clone(row));
   }
 
   void end_of_data() {}
diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..1745b2f 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -165,18 +165,17 @@ protected:
   void set_values() {
     size_t icol = {0};
 
+    // The values belong to R once pushed: always push a copy of the values
+    // being filled.
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
+
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
-        if (idata != column.size()) {
-          rows[icol++] = resize_vector(column, idata);
-        } else {
-          rows[icol++] = column;
-        }
+        rows[icol++] = resize_vector(column, idata);
       }
     };
 
-    if (row_index.size() != idata)
-      row_index = resize_vector(row_index, idata);
     set_values(col_numbers);
     set_values(col_integers);
     set_values(col_datetimes);
@@ -197,9 +196,6 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..2da9bd9 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -39,7 +39,7 @@ struct SinkChunk : public SinkByColumns {
     if (istartrow > iendrow || idata == 0)
       return;
     SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
+    f_push_rows(resize_vector(row_index, idata), rows);
     idata = 0;
     istartrow = iendrow + 1;
   }
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..ba0fa41 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -23,7 +23,7 @@ struct SinkData : public SinkByColumns {
     if (idata == 0)
       return;
     SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    f_set_data(resize_vector(row_index, idata), rows);
   }
 
 protected:
-- 
2.43.0


From f95e6058585dfcf3b8070fcbaf263be3750bd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 18/26] fix: the R sinks don't find the columns and the row
 count

The properties are a flat list: there is no metadata element. Only the columns
accepted by the filter are read.
---
 R/CPPSAS7BDAT/R/sink.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 318b96c..05d9e4d 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -13,8 +13,8 @@ SinkByRow <- R6Class("SinkByRow",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$metadata$row_count, ncol=properties$metadata$column_count))
+	    self$columns = names(properties$columns);
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=length(self$columns)))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
@@ -36,7 +36,7 @@ SinkByChunk <- R6Class("SinkByChunk",
     },
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
 	    rows <- as.data.frame(rows);
@@ -54,7 +54,7 @@ SinkWholeData <- R6Class("SinkWholeData",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
 	    self$df <- data;
-- 
2.43.0


From 34817ee7bc498ea7d116122cc5865281ce5bd975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 19/26] fix: the format is missing from the R properties

---
 R/CPPSAS7BDAT/src/wrap_properties.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/CPPSAS7BDAT/src/wrap_properties.hpp b/R/CPPSAS7BDAT/src/wrap_properties.hpp
index 36733f3..7253eb6 100644
--- a/R/CPPSAS7BDAT/src/wrap_properties.hpp
+++ b/R/CPPSAS7BDAT/src/wrap_properties.hpp
@@ -76,6 +76,7 @@ SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
   }();
 
   return Rcppsas7bdat::ListBuilder()
+      .add("format", std::string(to_string(_properties /*.header*/.format)))
       .add("endianness",
            std::string(to_string(_properties /*.header*/.endianness)))
       .add("platform", std::string(to_string(_properties /*.header*/.platform)))
-- 
2.43.0


From b69313c04b79add78f07912789a7c956f7bcfbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 20/26] fix: the R reader can't open a file without a creation
 or modification date

---
 R/CPPSAS7BDAT/src/wrap_properties.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/wrap_properties.hpp b/R/CPPSAS7BDAT/src/wrap_properties.hpp
index 7253eb6..d2799c0 100644
--- a/R/CPPSAS7BDAT/src/wrap_properties.hpp
+++ b/R/CPPSAS7BDAT/src/wrap_properties.hpp
@@ -75,13 +75,19 @@ SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
     return columns;
   }();
 
+  // A missing date can't be converted to a string.
+  auto date = [](const DATETIME &_x) {
+    return _x.is_not_a_date_time() ? Rcpp::String(NA_STRING)
+                                   : Rcpp::String(to_string(_x));
+  };
+
   return Rcppsas7bdat::ListBuilder()
       .add("format", std::string(to_string(_properties /*.header*/.format)))
       .add("endianness",
            std::string(to_string(_properties /*.header*/.endianness)))
       .add("platform", std::string(to_string(_properties /*.header*/.platform)))
-      .add("date_created", to_string(_properties /*.header*/.date_created))
-      .add("date_modified", to_string(_properties /*.header*/.date_modified))
+      .add("date_created", date(_properties /*.header*/.date_created))
+      .add("date_modified", date(_properties /*.header*/.date_modified))
       .add("dataset_name", _properties /*.header*/.dataset_name)
       .add("encoding", _properties /*.header*/.encoding)
       .add("file_type", _properties /*.header*/.file_type)
-- 
2.43.0


From 45ef4eb0d6b2626dfd76d52b7914f29db979e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 21/26] fix: the _cpp attribute of the Python sinks leaks a
 reference and sets an error

The reference given to the attribute was never released. Deleting it twice
(i.e. reading after the end of data) left the Python error indicator set, hence
a SystemError.
---
 python/pycppsas7bdat/cpp/sink.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..75a45e4 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -41,11 +41,16 @@ struct SinkBase : public boost::noncopyable {
   void set_cpp_attr() {
     // std::cerr << "SinkBase:: set_cpp_attr(" << this << ")" << std::endl;
     boost::python::object value(boost::ref(*this));
-    PyObject *po = boost::python::incref(value.ptr());
-    PyObject_SetAttrString(self, "_cpp", po);
+    // The attribute holds its own reference.
+    if (PyObject_SetAttrString(self, "_cpp", value.ptr()) < 0)
+      throw_error_already_set();
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  void del_cpp_attr() {
+    // The attribute is already deleted if the end of data is notified twice.
+    if (PyObject_DelAttrString(self, "_cpp") < 0)
+      PyErr_Clear();
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
-- 
2.43.0


From 9e2ba4961fbd4c5157ebe3b5732dca5c5c4199d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 22/26] fix: the _cpp attribute of the Python sinks dangles
 once the reader is deleted

---
 python/pycppsas7bdat/cpp/sink.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 75a45e4..aa42153 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -33,8 +33,20 @@ struct SinkBase : public boost::noncopyable {
 
   SinkBase(PyObject *_self) : self(_self) { Py_INCREF(self); }
   ~SinkBase() {
-    if (self)
+    if (self) {
+      // The sink can outlive the reader: don't let it with a dangling _cpp.
+      if (cpp) {
+        PyObject *type, *value, *traceback;
+        PyErr_Fetch(&type, &value, &traceback);
+        PyObject *po = PyObject_GetAttrString(self, "_cpp");
+        // Is it (still) the attribute set by this object?
+        if (po == cpp)
+          del_cpp_attr();
+        Py_XDECREF(po);
+        PyErr_Restore(type, value, traceback);
+      }
       Py_DECREF(self);
+    }
   }
   SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self) { _rhs.self = nullptr; }
 
@@ -44,6 +56,7 @@ struct SinkBase : public boost::noncopyable {
     // The attribute holds its own reference.
     if (PyObject_SetAttrString(self, "_cpp", value.ptr()) < 0)
       throw_error_already_set();
+    cpp = value.ptr();
   }
 
   void del_cpp_attr() {
@@ -80,6 +93,7 @@ struct SinkBase : public boost::noncopyable {
 
 protected:
   PyObject *self;
+  PyObject *cpp{nullptr}; /**< Only to be compared with the _cpp attribute */
 };
 
 struct Sink : public SinkBase {
-- 
2.43.0


From 19b718af0fe45289051c196dc2b947d18bb4b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 23/26] fix: the Python properties dangle once the reader is
 deleted

---
 python/pycppsas7bdat/cpp/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 2dc87a2..81051fc 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -96,7 +96,7 @@ void bind_reader() {
                                          arg("exclude") = object())))
       .add_property("current_row_index", &Reader::current_row_index)
       .def("properties", &Reader::properties,
-           return_value_policy<reference_existing_object>())
+           return_internal_reference<>())
       .def("read_all", &Reader::read_all)
       .def("read_row", &Reader::read_row)
       .def("read_rows", &Reader::read_rows)
-- 
2.43.0


From 90b0723370b000c38fa98a25381cc441d13933e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 24/26] fix: the missing Python dates return a None they don't
 own

---
 python/pycppsas7bdat/cpp/import_datetime.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/import_datetime.cpp b/python/pycppsas7bdat/cpp/import_datetime.cpp
index 85b55f4..92dec8f 100644
--- a/python/pycppsas7bdat/cpp/import_datetime.cpp
+++ b/python/pycppsas7bdat/cpp/import_datetime.cpp
@@ -34,7 +34,7 @@ static long get_usecs(boost::posix_time::time_duration const &d) {
 struct ptime_to_python_datetime {
   static PyObject *convert(boost::posix_time::ptime const &pt) {
     if (pt.is_not_a_date_time())
-      return Py_None;
+      return boost::python::incref(Py_None);
     const boost::gregorian::date date = pt.date();
     const boost::posix_time::time_duration td = pt.time_of_day();
     return PyDateTime_FromDateAndTime((int)date.year(), (int)date.month(),
@@ -88,7 +88,7 @@ struct ptime_from_python_datetime {
 struct tduration_to_python_delta {
   static PyObject *convert(boost::posix_time::time_duration d) {
     if (d.is_not_a_date_time())
-      return Py_None;
+      return boost::python::incref(Py_None);
     long hours = d.hours();
     long days = hours / 24;
     if (days == 0) {
@@ -154,7 +154,7 @@ struct tduration_from_python_delta {
 struct gregorian_date_to_python_date {
   static PyObject *convert(boost::gregorian::date const &date) {
     if (date.is_not_a_date())
-      return Py_None;
+      return boost::python::incref(Py_None);
     return PyDate_FromDate((int)date.year(), (int)date.month(),
                            (int)date.day());
   }
-- 
2.43.0


From 1654d3953a76cac51dcb1474b37eb4de484ada56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 25/26] fix: the first row index of a Python chunk is wrong
 after skipping rows

---
 python/pycppsas7bdat/cpp/sink.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index aa42153..4c5c2d3 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -281,6 +281,10 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    // The first row of the chunk doesn't follow the previous one when rows are
+    // skipped.
+    if (idata == 0)
+      istartrow = _irow;
     iendrow = _irow;
     ++idata;
     if (idata == size)
-- 
2.43.0


From 63d3ecdce267c35484a176cb3e84205656c11b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 26/26] fix: the Python rows don't have one value for each
 column

---
 python/pycppsas7bdat/cpp/sink.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 4c5c2d3..830ece8 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -130,6 +130,10 @@ struct Sink : public SinkBase {
       case cppsas7bdat::Column::Type::time:
         l.append(column.get_time(_p));
         break;
+      case cppsas7bdat::Column::Type::unknown:
+        // One value for each column
+        l.append(boost::python::object());
+        break;
       }
     }
 
-- 
2.43.0

