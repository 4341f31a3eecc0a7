From bf5b90b922777ad5840bbc879d73c24ea94e945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 01/41] fix: skip data pages without any row

READ_DATA::next() checked only once whether the current page was exhausted: a
data or mix page holding no row, read next, was then taken as having rows and
a bogus row was returned for each of its missing ones.
---
 src/data.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..65929b6 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -153,8 +153,9 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
       return false;
     if (!page)
       return false;
-    // Do we need to read a new page from the file?
-    if (page->next()) {
+    // Do we need to read a new page from the file?  The new page may have no
+    // row at all => keep reading until a page with rows is found.
+    while (page->next()) {
       if (!read_next_page())
         return false;
     }
-- 
2.43.0


From 885d56ce744c04c9a3f7ceaf2b92065d00cdf203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 02/41] fix: RDC: copy overlapping patterns, reject patterns
 starting before the row

---
 src/decompressors.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..85660ba 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -97,8 +97,13 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
+    // The pattern may overlap the bytes being written: copy byte per byte.
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
-- 
2.43.0


From 52675debee4873a2c3a8a956036aa9fe4db8fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 03/41] fix: RDC: do not read past the end of a compressed row

---
 src/decompressors.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index 85660ba..9b87652 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -135,6 +135,8 @@ struct RDC : public DST_VALUES<_endian, _format> {
         const auto val = src.pop();
         const uint8_t cmd = (val >> FOUR) & 0x0F;
         size_t cnt = val & 0x0F;
+        if (!src.check((cmd == 1 || cmd == 2) ? 2 : 1))
+          break; // An incomplete command ends the row.
         if (cmd == 0) { // short rle
           cnt += THREE;
           store_value(src.pop(), cnt);
-- 
2.43.0


From 74c46f1eaf964a568872ac2d4308148ed67a2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 04/41] fix: RLE: decode a final one-byte command, do not read
 past the end of a row

---
 src/decompressors.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index 9b87652..fc468ce 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -199,6 +199,22 @@ struct RLE : public DST_VALUES<_endian, _format> {
   explicit RLE(const Properties::Metadata *_metadata)
       : DST_VALUES<_endian, _format>(_metadata) {}
 
+  /// Number of bytes following a command, the bytes to copy excluded.
+  static size_t n_operands(const uint8_t _command) noexcept {
+    switch (_command) {
+    case SAS_RLE_COMMAND_INSERT_BYTE18:
+      return 2;
+    case SAS_RLE_COMMAND_COPY64:
+    case SAS_RLE_COMMAND_INSERT_AT17:
+    case SAS_RLE_COMMAND_INSERT_BLANK17:
+    case SAS_RLE_COMMAND_INSERT_ZERO17:
+    case SAS_RLE_COMMAND_INSERT_BYTE3:
+      return 1;
+    default:
+      return 0;
+    }
+  }
+
   BYTES operator()(const BYTES &_values) {
     constexpr uint8_t FOUR{4}, EIGHT{8};
 
@@ -211,10 +227,12 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
+      if (!src.check(n_operands(command)))
+        break; // An incomplete command ends the row.
       D(spdlog::info("RLE:({}, {}: {:#X})\n", src.i_src, i_dst, command));
       switch (command) {
         break;
-- 
2.43.0


From f6365ca5fe1e75fcf7f86698381bc45c46eefbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 05/41] fix: report an invalid buffer access as an exception
 instead of terminating

---
 src/buffer.hpp   | 46 +++++++++++++++++++++++++---------------------
 src/metadata.hpp | 20 ++++++++++----------
 2 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..a796104 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,26 +60,30 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _offset <= size() && _length <= size() - _offset;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
   uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+                [[maybe_unused]] const size_t _length) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -90,23 +94,23 @@ public:
     return m_buffer.get() + _offset;
   }
 
-  uint8_t operator[](const size_t _offset) const noexcept {
+  uint8_t operator[](const size_t _offset) const {
     return *data(_offset, 1);
   }
 
-  void set(const size_t _offset, const uint8_t _v) noexcept {
+  void set(const size_t _offset, const uint8_t _v) {
     *data(_offset, 1) = _v;
   };
   void set(const size_t _offset, const uint8_t _v,
-           const size_t _length) noexcept {
+           const size_t _length) {
     std::memset(data(_offset, _length), _v, _length);
   };
   void copy(const size_t _offset_dest, const size_t _offset_src,
-            const size_t _length) noexcept {
+            const size_t _length) {
     std::memcpy(data(_offset_dest, _length), data(_offset_src, _length),
                 _length);
   }
-  void copy(const size_t _offset, const BYTES &_src) noexcept {
+  void copy(const size_t _offset, const BYTES &_src) {
     const size_t length = _src.size();
     std::memcpy(data(_offset, length), _src.data(), length);
   }
@@ -125,56 +129,56 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -195,13 +199,13 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..78d9c2b 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -256,7 +256,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_SUBHEADER_COUNTS_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) const noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) const {
     D(spdlog::info(
         "READ_METADATA::process_SUBHEADER_COUNTS_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -301,7 +301,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   std::string get_column_text_substr(const size_t _idx, size_t _offset,
-                                     size_t _length) const noexcept {
+                                     size_t _length) const {
     if (_idx < column_texts.size()) {
       const auto ct = column_texts[std::min(_idx, column_texts.size() - 1)];
       const auto n = ct.size();
@@ -324,7 +324,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_NAME_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t offset_max =
@@ -344,7 +344,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_ATTRIBUTES_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -366,7 +366,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -394,7 +394,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_LIST_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) const noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_LIST_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     // spdlog::info("READ_METADATA::process_COLUMN_LIST_SUBHEADER: {}\n",
@@ -402,7 +402,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   void process_DATA_SUBHEADER([
-      [maybe_unused]] const PAGE_SUBHEADER &_subheader) noexcept {
+      [maybe_unused]] const PAGE_SUBHEADER &_subheader) {
     D(spdlog::info("READ_METADATA::process_DATA_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     data_subheaders.emplace_back(_subheader);
-- 
2.43.0


From d15b636087fd9c54b235839a32615e65048c0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 06/41] fix: reject headers and pages too short for their own
 header

---
 src/header.hpp | 7 +++----
 src/page.hpp   | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..9a01dd8 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
@@ -103,8 +103,7 @@ struct READ_HEADER {
   }
 
   void set_header(Properties::Header *_header) const {
-    FMT_ASSERT(buf.size() >= 288 + total_align,
-               "Buffer is too small in set_header");
+    buf.assert_check(0, HEADER_CONSTANTS::HEADER_SIZE + total_align);
 
     _header->platform = (buf[39] == '1' ? Platform::unix
                                         : buf[39] == '2' ? Platform::windows
diff --git a/src/page.hpp b/src/page.hpp
index f829f7e..5744e2b 100644
--- a/src/page.hpp
+++ b/src/page.hpp
@@ -104,6 +104,7 @@ struct READ_PAGE : public PAGE_CONSTANT<_format> {
 
   bool _get_page_header() {
     D(spdlog::info("get_page_header: "));
+    buf.assert_check(page_bit_offset, 3 * sizeof(uint16_t));
     current_page_header.type = buf.get_uint16(page_bit_offset + 0);
     current_page_header.block_count = buf.get_uint16(page_bit_offset + 2);
     current_page_header.subheaders_count = buf.get_uint16(page_bit_offset + 4);
-- 
2.43.0


From be28f2a2c4570008c62f51f22346d82f636f27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 07/41] fix: do not read past the end of a short column name or
 attributes subheader

---
 src/metadata.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 78d9c2b..37093b2 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -327,10 +327,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += 8) {
+         offset + 12 + integer_size <= offset_end; offset += 8) {
       const size_t idx = buf.get_uint16(offset + 0);
       const size_t name_offset = buf.get_uint16(offset + 2);
       const size_t name_length = buf.get_uint16(offset + 4);
@@ -348,10 +347,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += integer_size + 8) {
+         offset + 12 + integer_size <= offset_end; offset += integer_size + 8) {
       const size_t column_data_offset = buf.get_uinteger(offset + 0);
       const size_t column_data_length = buf.get_uint32(offset + integer_size);
       const uint8_t column_data_type = buf.get_byte(offset + integer_size + 6);
-- 
2.43.0


From c8a6c351ccf1eb00e69c447422856d90bcf6aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 08/41] fix: do not take a compressed row for a metadata
 subheader

---
 src/metadata.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 37093b2..171cfec 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,6 +161,13 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
+    // The first bytes of a compressed row are not a signature.
+    if (_subheader.compression == COMPRESSED_SUBHEADER_ID &&
+        DataSubHeader::check(_metadata, _subheader)) {
+      process_DATA_SUBHEADER(_subheader);
+      return true;
+    }
+
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
         buf.get_bytes(_subheader.offset, integer_size);
-- 
2.43.0


From 362bc627b19c2bdf6e0c9aafbfcd8436b7284944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 09/41] fix: do not read the signature of a subheader past its
 end

---
 src/metadata.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 171cfec..1badbee 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -170,7 +170,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
-        buf.get_bytes(_subheader.offset, integer_size);
+        buf.get_bytes(_subheader.offset, _subheader.length);
     if (match_signature(ROW_SIZE_SUBHEADER, subheader_signature)) {
       process_ROW_SIZE_SUBHEADER(_subheader, _metadata);
       return false;
@@ -218,8 +218,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   static bool match_signature(const BYTE (&_s)[n][m],
                               const BYTES _signature) noexcept {
     return std::any_of(std::begin(_s), std::end(_s),
-                       [sig = _signature.data()](auto s) {
-                         return std::memcmp(s, sig, m) == 0;
+                       [_signature](auto s) {
+                         return _signature.size() >= m &&
+                                std::memcmp(s, _signature.data(), m) == 0;
                        });
   }
 
-- 
2.43.0


From c8717faa58fd9176d18804b6ec8dd210758ca305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 10/41] fix: check that a row lies within its page in release
 builds too

---
 src/data.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index 65929b6..434821e 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -189,8 +189,7 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
+    buf.assert_check(_offset, _length);
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
-- 
2.43.0


From 9f80ade5670f9d6449bf285cebdc5015ccc843c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 11/41] fix: reject columns that do not lie within the row

---
 src/metadata.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 1badbee..9b802cc 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -440,6 +440,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto column_length =
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
+      // Check that the column falls within the row
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
 
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
-- 
2.43.0


From 12fdfd2f7c0580fd6165e03e1cd8b3d980ce83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 12/41] fix: numbers beyond the supported calendar read as
 not-a-date, without terminating

---
 src/types.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..247540e 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,10 +140,17 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+inline bool is_supported_date(const DATE &_x) noexcept {
+  return _x >= DATE(boost::gregorian::min_date_time) &&
+         _x <= DATE(boost::gregorian::max_date_time);
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_seconds))
+  // Missing, infinite or far beyond the supported years
+  constexpr double max_seconds{4e11};
+  if (!(std::abs(_seconds) < max_seconds))
     return not_a_date_time;
   ptime start(boost::gregorian::date(1960, 1, 1));
   // Increase accuracy by splitting in days/seconds/microseconds
@@ -152,8 +159,10 @@ inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
   const auto _microseconds = std::round((_seconds - _secs) * 1e6);
-  return start + days(std::lround(_days)) + seconds(std::lround(_secs)) +
-         microseconds(std::lround(_microseconds));
+  const auto x = start + days(std::lround(_days)) +
+                 seconds(std::lround(_secs)) +
+                 microseconds(std::lround(_microseconds));
+  return is_supported_date(x.date()) ? x : not_a_date_time;
 }
 
 inline TIME get_time_from_epoch(const double _seconds) noexcept {
@@ -167,18 +176,17 @@ inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  // Missing, infinite or far beyond the supported years
+  constexpr double max_days{4e6};
+  if (!(std::abs(_days) < max_days))
     return DATE(not_a_date_time);
   ptime start(boost::gregorian::date(1960, 1, 1));
-  return (start + days(std::lround(_days))).date();
+  const auto x = (start + days(std::lround(_days))).date();
+  return is_supported_date(x) ? x : DATE(not_a_date_time);
 }
 
 inline DATE get_date_from_epoch(const double _t) noexcept {
-  const auto x = get_date_from_epoch_days(_t);
-  if (x.is_not_a_date())
-    return get_date_from_epoch_seconds(_t);
-  else
-    return x;
+  return get_date_from_epoch_days(_t);
 }
 
 template <Format _format> struct number_types {};
-- 
2.43.0


From 080631bca2931504f795a2e7d9237b4f887c7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 13/41] fix: decode dates and times stored in fewer than 8
 bytes

---
 src/formatters.hpp |  2 +-
 src/metadata.hpp   |  2 ++
 src/types.hpp      | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..4d9b3e1 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,7 +109,7 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
-    return INTERNAL::get_double<_endian>(data(_p));
+    return INTERNAL::get_incomplete_double<_endian>(data(_p), length);
   }
 
   STRING to_string(const void *_p) const {
diff --git a/src/metadata.hpp b/src/metadata.hpp
index 9b802cc..e0a7ccb 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -470,6 +470,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         else if (column_length == 2)
           add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(
               column_offset, column_length));
+        else if (column_length < 3 || column_length > 8)
+          ; // Not a number
         else if (is_datetime_format(column_format))
           add_column(FORMATTER::DateTimeFormatter<_endian>(column_offset,
                                                            column_length));
diff --git a/src/types.hpp b/src/types.hpp
index 247540e..1f74d45 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,6 +140,25 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+template <Endian _endian>
+inline double get_incomplete_double(const uint8_t *_buf,
+                                    const size_t _length) noexcept {
+  switch (_length) {
+  case 3:
+    return get_incomplete_double<_endian, 3>(_buf);
+  case 4:
+    return get_incomplete_double<_endian, 4>(_buf);
+  case 5:
+    return get_incomplete_double<_endian, 5>(_buf);
+  case 6:
+    return get_incomplete_double<_endian, 6>(_buf);
+  case 7:
+    return get_incomplete_double<_endian, 7>(_buf);
+  default:
+    return get_double<_endian>(_buf);
+  }
+}
+
 inline bool is_supported_date(const DATE &_x) noexcept {
   return _x >= DATE(boost::gregorian::min_date_time) &&
          _x <= DATE(boost::gregorian::max_date_time);
-- 
2.43.0


From 910190088f89ef8dfa1a6441a9a7a35c8b2c15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 14/41] fix: text of times with many hours does not overrun its
 buffer

---
 src/types.cpp | 48 ++++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index b77f595..d3ba15f 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -13,48 +13,28 @@
 namespace cppsas7bdat {
 
 std::string to_string(DATETIME _x) {
-  char szBuffer[32];
-  size_t size{0};
   const auto d = _x.date();
   const auto t = _x.time_of_day();
-  if (t.fractional_seconds()) {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer),
-                              "{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}",
-                              d.year(), d.month(), d.day(), t.hours(),
-                              t.minutes(), t.seconds(), t.fractional_seconds());
-    size = r.size;
-  } else {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02} {:02}:{:02}:{:02}",
-        d.year(), d.month(), d.day(), t.hours(), t.minutes(), t.seconds());
-    size = r.size;
-  }
-  return std::string(szBuffer, size);
+  if (t.fractional_seconds())
+    return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}", d.year(),
+                       d.month(), d.day(), t.hours(), t.minutes(), t.seconds(),
+                       t.fractional_seconds());
+  else
+    return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", d.year(),
+                       d.month(), d.day(), t.hours(), t.minutes(), t.seconds());
 }
 
 std::string to_string(DATE _x) {
-  char szBuffer[16];
-  size_t size{0};
-  auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02}",
-                            _x.year(), _x.month(), _x.day());
-  size = r.size;
-  return std::string(szBuffer, size);
+  return fmt::format("{:04}-{:02}-{:02}", _x.year(), _x.month(), _x.day());
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
-  size_t size{0};
-  if (_x.fractional_seconds()) {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}.{:06}", _x.hours(),
-        _x.minutes(), _x.seconds(), _x.fractional_seconds());
-    size = r.size;
-  } else {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}",
-                              _x.hours(), _x.minutes(), _x.seconds());
-    size = r.size;
-  }
-  return std::string(szBuffer, size);
+  if (_x.fractional_seconds())
+    return fmt::format("{:02}:{:02}:{:02}.{:06}", _x.hours(), _x.minutes(),
+                       _x.seconds(), _x.fractional_seconds());
+  else
+    return fmt::format("{:02}:{:02}:{:02}", _x.hours(), _x.minutes(),
+                       _x.seconds());
 }
 
 std::string_view to_string(const Endian _x) {
-- 
2.43.0


From 3d3c7600b1649efe70d071ebb33bdf3825a697ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 15/41] fix: a missing date, datetime or time has an empty text

---
 src/formatters.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4d9b3e1..fd04d19 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -154,8 +154,11 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
-        _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
+    const auto x = get_datetime(_p);
+    return x.is_special()
+               ? STRING{}
+               : cppsas7bdat::to_string(
+                     x); // boost::posix_time::to_iso_extended_string(x);
   }
 };
 
@@ -178,8 +181,11 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
-        _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
+    const auto x = get_date(_p);
+    return x.is_special()
+               ? STRING{}
+               : cppsas7bdat::to_string(
+                     x); // boost::gregorian::to_iso_extended_string(x);
   }
 };
 
@@ -200,8 +206,11 @@ struct TimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(
-        get_time(_p)); // boost::posix_time::to_simple_string(get_time(_p));
+    const auto x = get_time(_p);
+    return x.is_special()
+               ? STRING{}
+               : cppsas7bdat::to_string(
+                     x); // boost::posix_time::to_simple_string(x);
   }
 };
 
-- 
2.43.0


From ae358f98fc5488ced74c4e50e65a37e08c5c5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 16/41] fix: print sink: do not use the column names as format
 strings

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From decad3249d3cd74d5dc028a886918c53013c4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 17/41] fix: csv sink: double the quotes within names and
 strings

---
 include/cppsas7bdat/sink/csv.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..39ae2d9 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -71,7 +71,16 @@ struct csv {
 
   void end_of_data() const noexcept {}
 
-  void print(const SV &_x) { fmt::print(os, "\"{}\"", _x); }
+  void print(const SV &_x) {
+    os << '"';
+    for (const char c : _x) {
+      // A quote within a quoted field is doubled
+      if (c == '"')
+        os << '"';
+      os << c;
+    }
+    os << '"';
+  }
   void print(const NUMBER _x) {
     if (!std::isnan(_x))
       fmt::print(os, "{}", _x);
-- 
2.43.0


From a9df3404bce647517b51f2d2c8b7f0e2df1684ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 18/41] fix: csv sink: do not refer to the stream of a
 moved-from sink

---
 include/cppsas7bdat/sink/csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 39ae2d9..3689164 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -100,6 +100,11 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+  // The stream moves along => csv must refer to the new one
+  csv_ofstream(csv_ofstream &&_rhs)
+      : _ofstream(std::move(_rhs)), csv(ofs) {
+    columns = std::move(_rhs.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From ad10cc7e0948e56c6f5737da9c49ac1fb06e7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 19/41] fix: csv command: write to the csv file instead of the
 input file

---
 apps/cppsas7bdat-ci.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..5a405fa 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -54,7 +54,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
-- 
2.43.0


From 3ebead62863ef9f9cd11d01ec2c414f50aa43248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 20/41] fix: csv command: name of the csv file of inputs
 without extension

---
 apps/cppsas7bdat-ci.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 5a405fa..4f49874 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -13,6 +13,7 @@
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
 #include <docopt/docopt.h>
+#include <filesystem>
 
 namespace {
   static constexpr auto USAGE =
@@ -42,11 +43,7 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
-  }
-  return _filename + "csv";
+  return std::filesystem::path(_filename).replace_extension("csv").string();
 }
 
 void process_csv(const std::string& _filename)
-- 
2.43.0


From 7df90f20dbbbed2ebc331dd88cc46c6704adf513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 21/41] fix: csv command: refuse to replace an input file

---
 apps/cppsas7bdat-ci.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 4f49874..17949fe 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -46,6 +46,19 @@ std::string get_csv_filename(const std::string& _filename)
   return std::filesystem::path(_filename).replace_extension("csv").string();
 }
 
+// Make sure that no csv file replaces one of the input files
+void check_csv_filenames(const std::vector<std::string>& _filenames)
+{
+  for(const auto& file: _filenames) {
+    const auto csv_filename = get_csv_filename(file);
+    for(const auto& input: _filenames) {
+      std::error_code ec;
+      if(csv_filename == input || std::filesystem::equivalent(csv_filename, input, ec))
+	throw std::runtime_error(fmt::format("The csv file of {} would replace the input file {}", file, input));
+    }
+  }
+}
+
 void process_csv(const std::string& _filename)
 {
   const auto csv_filename = get_csv_filename(_filename);
@@ -80,6 +93,7 @@ int main(const int argc, char* argv[])
     }
   } else if(args["csv"].asBool()) {
     const auto files = args["<file>"].asStringList();
+    check_csv_filenames(files);
     for(const auto& file: files) {
       process_csv(file);
     }
-- 
2.43.0


From a912b9cd0995d6179dc675ca29a609d33e02c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 22/41] fix: command line tool: report errors instead of
 aborting

---
 apps/cppsas7bdat-ci.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 17949fe..2b9a6f8 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -74,7 +74,7 @@ void process_null(const std::string& _filename)
   reader.read_all();
 }
 
-int main(const int argc, char* argv[])
+int process(const int argc, char* argv[])
 {
   std::string version = fmt::format("CPP SAS7BDAT file reader {}", cppsas7bdat::getVersion());
   std::map<std::string, docopt::value> args = docopt::docopt(USAGE,
@@ -105,3 +105,13 @@ int main(const int argc, char* argv[])
   }
   return 0;
 }
+
+int main(const int argc, char* argv[])
+{
+  try {
+    return process(argc, argv);
+  } catch(const std::exception& e) {
+    std::cerr << e.what() << std::endl;
+    return 1;
+  }
+}
-- 
2.43.0


From 79b3ef1ccd93ffdbf7adbd23d6bebd4b6ff6018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 23/41] fix: names, labels and header texts keep their letters
 beyond ASCII

---
 src/metadata.hpp |  8 ++++----
 src/types.hpp    | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index e0a7ccb..7506ebb 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -315,13 +315,13 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
-      if (_length && std::isprint(ct[_offset])) {
-        while (_length && std::isspace(ct[_offset])) {
+      if (_length && is_text(ct[_offset])) {
+        while (_length && is_space(ct[_offset])) {
           ++_offset;
           --_length;
         }
-        while (_length && (!std::isprint(ct[_offset + _length - 1]) ||
-                           std::isspace(ct[_offset + _length - 1]))) {
+        while (_length && (!is_text(ct[_offset + _length - 1]) ||
+                           is_space(ct[_offset + _length - 1]))) {
           --_length;
         }
         return ct.substr(_offset, _length);
diff --git a/src/types.hpp b/src/types.hpp
index 1f74d45..5e40f46 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -24,6 +24,16 @@ inline std::string_view get_string(const uint8_t *_buf,
   return std::string_view(reinterpret_cast<const char *>(_buf), _length);
 }
 
+// The bytes above 0x7F belong to letters in the supported encodings.
+inline bool is_text(const char _c) noexcept {
+  const auto c = static_cast<uint8_t>(_c);
+  return c > 0x7F || std::isprint(c);
+}
+
+inline bool is_space(const char _c) noexcept {
+  return std::isspace(static_cast<uint8_t>(_c));
+}
+
 inline std::string_view get_string_trim_0(const uint8_t *_buf,
                                           size_t _length) noexcept {
   while (_length &&
@@ -40,8 +50,8 @@ inline std::string_view get_string_trim(const uint8_t *_buf,
     ++offset;
     --_length;
   }
-  while (_length && (!std::isprint(_buf[offset + _length - 1]) ||
-                     std::isspace(_buf[offset + _length - 1]))) {
+  while (_length && (!is_text(_buf[offset + _length - 1]) ||
+                     is_space(_buf[offset + _length - 1]))) {
     --_length;
   }
   return get_string(_buf + offset, _length);
-- 
2.43.0


From 5ec139f684bf2b11513960eb11b6199f1f63e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 24/41] fix: numbers one day beyond the calendar read as
 not-a-date, without terminating

---
 src/types.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index 5e40f46..cdcc404 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -169,9 +169,10 @@ inline double get_incomplete_double(const uint8_t *_buf,
   }
 }
 
-inline bool is_supported_date(const DATE &_x) noexcept {
-  return _x >= DATE(boost::gregorian::min_date_time) &&
-         _x <= DATE(boost::gregorian::max_date_time);
+// The date of an instant outside the calendar can't be asked for.
+inline bool is_supported(const DATETIME &_x) noexcept {
+  return _x >= DATETIME(boost::posix_time::min_date_time) &&
+         _x <= DATETIME(boost::posix_time::max_date_time);
 }
 
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
@@ -191,7 +192,7 @@ inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   const auto x = start + days(std::lround(_days)) +
                  seconds(std::lround(_secs)) +
                  microseconds(std::lround(_microseconds));
-  return is_supported_date(x.date()) ? x : not_a_date_time;
+  return is_supported(x) ? x : not_a_date_time;
 }
 
 inline TIME get_time_from_epoch(const double _seconds) noexcept {
@@ -210,8 +211,8 @@ inline DATE get_date_from_epoch_days(const double _days) noexcept {
   if (!(std::abs(_days) < max_days))
     return DATE(not_a_date_time);
   ptime start(boost::gregorian::date(1960, 1, 1));
-  const auto x = (start + days(std::lround(_days))).date();
-  return is_supported_date(x) ? x : DATE(not_a_date_time);
+  const auto x = start + days(std::lround(_days));
+  return is_supported(x) ? x.date() : DATE(not_a_date_time);
 }
 
 inline DATE get_date_from_epoch(const double _t) noexcept {
-- 
2.43.0


From c81bbd97961dfd3de8c5cceab9ad5182c98b49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 25/41] fix: creating the columns copied every list of names
 for each column

---
 src/metadata.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 7506ebb..6622a29 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -419,7 +419,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     const size_t ncols = _metadata->column_count;
     _metadata->columns.reserve(ncols);
 
-    auto get_value = [&](auto arg, auto vals, const size_t icol) {
+    auto get_value = [&](auto arg, const auto &vals, const size_t icol) {
       const auto n = std::min(ncols, vals.size());
       if (n != ncols)
         spdlog::info("Mismatch between the expected number of columns ({}) and "
-- 
2.43.0


From 31e5b9cce83b2f1e79f8c1ca27909f1d5ed57ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 26/41] fix: csv sink: report a file that cannot be written

---
 include/cppsas7bdat/sink/csv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 3689164..220d96c 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -14,6 +14,7 @@
 #include <fmt/ostream.h>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 
 namespace cppsas7bdat {
 namespace datasink {
@@ -94,7 +95,11 @@ struct csv {
 struct _ofstream {
   std::ofstream ofs;
 
-  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {}
+  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {
+    if (!ofs)
+      throw std::runtime_error(
+          fmt::format("Cannot write to the file {}", _pcszfilename));
+  }
 };
 
 struct csv_ofstream : public _ofstream, public csv {
-- 
2.43.0


From 9f745b1ac27aa6931b6bea62fc8516b176dbe557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 27/41] fix: report a file whose metadata is cut short instead
 of reading it as empty

---
 src/exceptions.cpp | 2 ++
 src/exceptions.hpp | 1 +
 src/metadata.hpp   | 7 ++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4978a37..dfd1e63 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -31,6 +31,8 @@ void EXCEPTION::invalid_magic_number() {
   raise_exception("invalid_magic_number");
 }
 
+void EXCEPTION::missing_metadata() { raise_exception("missing_metadata"); }
+
 void EXCEPTION::cannot_read_page() { raise_exception("cannot_read_page"); }
 
 void EXCEPTION::cannot_decompress() { raise_exception("cannot_decompress"); }
diff --git a/src/exceptions.hpp b/src/exceptions.hpp
index 4e90c3d..b1c6391 100644
--- a/src/exceptions.hpp
+++ b/src/exceptions.hpp
@@ -17,6 +17,7 @@ void cannot_allocate_memory();
 void not_a_valid_file(const char *_pcszFileName);
 void header_too_short();
 void invalid_magic_number();
+void missing_metadata();
 void cannot_read_page();
 void cannot_decompress();
 void invalid_buffer_access(const size_t _offset, const size_t _n,
diff --git a/src/metadata.hpp b/src/metadata.hpp
index 6622a29..cbbb5c1 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -114,6 +114,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   static constexpr const char RDC_COMPRESSION[] = "SASYZCR2";
 
   DATASUBHEADERS data_subheaders;
+  bool column_size_found = false;
   std::vector<std::string> column_texts;
   std::vector<std::string> column_names;
   std::vector<std::string> column_formats;
@@ -138,6 +139,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       if (process_page(_metadata))
         break;
     }
+    // Without the number of columns, the metadata is cut short or missing
+    if (!column_size_found)
+      EXCEPTION::missing_metadata();
     create_columns(_metadata, _filter);
   }
 
@@ -251,9 +255,10 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
+    column_size_found = true;
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
         _subheader.offset + integer_size);
     D(spdlog::info("column_count={}\n", _metadata->column_count));
-- 
2.43.0


From d5bb4543d38ef3c74f76b8e771cf783a82153b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 28/41] fix: python: a sink does not refer to its reader once
 the reader is gone

The _cpp attribute of a sink kept the address of the C++ sink after the
reader was destroyed: using it (e.g. the df of the sinks) was a use after
free.  Removing it at each end of data left an AttributeError behind at the
second one, and a sink that cannot have the attribute could not be used.
---
 python/pycppsas7bdat/cpp/reader.cpp |  5 ++--
 python/pycppsas7bdat/cpp/sink.hpp   | 37 +++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 2dc87a2..cef45f2 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -86,8 +86,9 @@ boost::shared_ptr<Reader> create_reader(std::string _filename, PyObject *_sink,
 void bind_reader() {
   using namespace boost::python;
 
-  class_<SinkBase, boost::noncopyable>("SinkBase", no_init)
-      .def("flush_sink", &SinkBase::flush_sink);
+  class_<SinkBase::Handle, boost::shared_ptr<SinkBase::Handle>,
+         boost::noncopyable>("SinkBase", no_init)
+      .def("flush_sink", &SinkBase::Handle::flush_sink);
 
   class_<Reader, boost::noncopyable>("Reader", no_init)
       .def("__init__", make_constructor(&create_reader, default_call_policies(),
diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..fe6c0cc 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -31,22 +31,41 @@ struct SinkBase : public boost::noncopyable {
   // using STRING = boost::python::str;
   using STRING = boost::python::object;
 
+  // What the python sink sees of its C++ counterpart: it may outlive it.
+  struct Handle : public boost::noncopyable {
+    SinkBase *sink;
+
+    explicit Handle(SinkBase *_sink) : sink(_sink) {}
+
+    void flush_sink() {
+      if (sink)
+        sink->flush_sink();
+    }
+  };
+
   SinkBase(PyObject *_self) : self(_self) { Py_INCREF(self); }
-  ~SinkBase() {
+  virtual ~SinkBase() {
+    if (handle)
+      handle->sink = nullptr;
     if (self)
       Py_DECREF(self);
   }
-  SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self) { _rhs.self = nullptr; }
+  SinkBase(SinkBase &&_rhs) noexcept
+      : self(_rhs.self), handle(std::move(_rhs.handle)) {
+    _rhs.self = nullptr;
+    if (handle)
+      handle->sink = this;
+  }
 
   void set_cpp_attr() {
     // std::cerr << "SinkBase:: set_cpp_attr(" << this << ")" << std::endl;
-    boost::python::object value(boost::ref(*this));
-    PyObject *po = boost::python::incref(value.ptr());
-    PyObject_SetAttrString(self, "_cpp", po);
+    handle.reset(new Handle(this));
+    boost::python::object value(handle);
+    // A sink without room for the attribute does not need it
+    if (PyObject_SetAttrString(self, "_cpp", value.ptr()) != 0)
+      PyErr_Clear();
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
-
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
     set_cpp_attr();
@@ -75,6 +94,7 @@ struct SinkBase : public boost::noncopyable {
 
 protected:
   PyObject *self;
+  boost::shared_ptr<Handle> handle;
 };
 
 struct Sink : public SinkBase {
@@ -118,7 +138,6 @@ struct Sink : public SinkBase {
   }
 
   void end_of_data() override {
-    del_cpp_attr();
     // std::cerr << "Sink::end_of_data()" << std::endl;
   }
 
@@ -269,7 +288,6 @@ struct SinkChunk : public SinkBase {
   }
 
   void end_of_data() override {
-    del_cpp_attr();
     // std::cerr << "SinkChunk::end_of_data()" << std::endl;
     flush();
   }
@@ -404,7 +422,6 @@ public:
   void flush() override {}
 
   void end_of_data() override {
-    del_cpp_attr();
     // std::cerr << "SinkData::end_of_data()" << std::endl;
     if (idata) {
       boost::python::dict d;
-- 
2.43.0


From 5ca4b0324e079c1969c13f8449e6d5bb1391e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 29/41] fix: python: a chunk starts at its first row, also
 after skipped rows

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index fe6c0cc..4cd9917 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -281,6 +281,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (idata == 0)
+      istartrow = _irow;
     iendrow = _irow;
     ++idata;
     if (idata == size)
@@ -396,7 +398,6 @@ struct SinkChunk : public SinkBase {
 
   void clear_values() {
     idata = 0;
-    istartrow = iendrow + 1;
     clear_values(col_numbers);
     clear_values(col_integers);
     clear_values(col_datetimes);
-- 
2.43.0


From ca9a77e33aa96474182eff71b2ea4860e5422674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 30/41] fix: python: a chunk is handed over once, even when the
 sink raises

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 4cd9917..d6d6058 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -391,8 +391,9 @@ struct SinkChunk : public SinkBase {
     if (idata) {
       boost::python::dict d;
       set_dict_values(d);
-      call_method<void>(self, "push_rows", istartrow, iendrow, d);
+      // The sink may fail or flush again: these rows are handed over only once
       clear_values();
+      call_method<void>(self, "push_rows", istartrow, iendrow, d);
     }
   }
 
-- 
2.43.0


From d43a44166f60ea32d58d60093dd97b14c30fd2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 31/41] fix: python: the properties keep their reader alive

---
 python/pycppsas7bdat/cpp/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index cef45f2..6c810ac 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -97,7 +97,7 @@ void bind_reader() {
                                          arg("exclude") = object())))
       .add_property("current_row_index", &Reader::current_row_index)
       .def("properties", &Reader::properties,
-           return_value_policy<reference_existing_object>())
+           return_internal_reference<>())
       .def("read_all", &Reader::read_all)
       .def("read_row", &Reader::read_row)
       .def("read_rows", &Reader::read_rows)
-- 
2.43.0


From d657f30c03de210f3f163051d8b20c5f34ed56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 32/41] fix: python: the whole data holds every row read so far

---
 python/pycppsas7bdat/cpp/sink.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index d6d6058..9cceab6 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -425,13 +425,18 @@ public:
 
   void end_of_data() override {
     // std::cerr << "SinkData::end_of_data()" << std::endl;
-    if (idata) {
+    if (!has_data || idata) {
       boost::python::dict d;
       set_dict_values(d);
+      // The whole data: the values are kept for the rows still to come
+      has_data = true;
+      idata = 0;
       call_method<void>(self, "set_data", d);
-      clear_values();
     }
   }
+
+protected:
+  bool has_data{false};
 };
 
 } // namespace pycppsas7bdat
-- 
2.43.0


From d0d1bb0ed6b966bd5a90e522d108e26a690f1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 33/41] fix: python: df follows the rows read since it was last
 asked for

---
 python/pycppsas7bdat/sink.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/pycppsas7bdat/sink.py b/python/pycppsas7bdat/sink.py
index fce9c63..f0ca84f 100644
--- a/python/pycppsas7bdat/sink.py
+++ b/python/pycppsas7bdat/sink.py
@@ -25,11 +25,12 @@ class SinkByRow(SinkBase):
 
     def push_row(self, irow, row):
         self._rows.append(row)
+        self._df = None
 
     @property
     def df(self):
+        self._cpp_flush_sink()
         if self._df is None:
-            self._cpp_flush_sink()
             self._df = pd.DataFrame.from_records(self._rows, columns = self.columns)
         return self._df
 
@@ -43,12 +44,16 @@ class SinkByChunk(SinkBase):
     def push_rows(self, istartrow, iendrow, rows):
         rows = pd.DataFrame(rows, columns = self.columns, copy=False)
         self._rows.append(rows)
+        self._df = None
 
     @property
     def df(self):
+        self._cpp_flush_sink()
         if self._df is None:
-            self._cpp_flush_sink()
-            self._df = pd.concat(self._rows)
+            if self._rows:
+                self._df = pd.concat(self._rows)
+            else:
+                self._df = pd.DataFrame(columns = self.columns)
         return self._df
 
 class SinkWholeData(SinkBase):
@@ -61,6 +66,5 @@ class SinkWholeData(SinkBase):
 
     @property
     def df(self):
-        if self._df is None:
-            self._cpp_flush_sink()
+        self._cpp_flush_sink()
         return self._df
-- 
2.43.0


From ee759bd574d93fdaa75606d3d5f7a4e50afce802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 34/41] fix: python: names and texts that are not UTF-8 can be
 read

---
 python/pycppsas7bdat/cpp/pycppsas7bdat.cpp | 68 ++++++++++++++--------
 python/pycppsas7bdat/cpp/reader.cpp        | 13 ++++-
 python/pycppsas7bdat/cpp/reader.hpp        |  4 ++
 python/pycppsas7bdat/cpp/sink.hpp          |  3 +-
 4 files changed, 63 insertions(+), 25 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp b/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp
index 044ae10..7c6fa59 100644
--- a/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp
+++ b/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp
@@ -14,11 +14,12 @@
 #include "reader.hpp"
 // clang-format on
 
-namespace pycppsas7bdat {
-inline PyObject *to_python(const std::string &x) {
-  return PyUnicode_FromStringAndSize(x.c_str(), x.length());
+namespace {
+template <typename T, auto _member>
+boost::python::object get_text(const T &_x) {
+  return pycppsas7bdat::to_text(_x.*_member);
 }
-} // namespace pycppsas7bdat
+} // namespace
 
 BOOST_PYTHON_MODULE(cpp) {
   using namespace boost::python;
@@ -53,9 +54,13 @@ BOOST_PYTHON_MODULE(cpp) {
       .value("date", cppsas7bdat::Column::Type::date)
       .value("time", cppsas7bdat::Column::Type::time);
   class_<cppsas7bdat::Column, boost::noncopyable>("Column", no_init)
-      .def_readonly("name", &cppsas7bdat::Column::name)
-      .def_readonly("format", &cppsas7bdat::Column::format)
-      .def_readonly("label", &cppsas7bdat::Column::label)
+      .add_property("name",
+                    &get_text<cppsas7bdat::Column, &cppsas7bdat::Column::name>)
+      .add_property(
+          "format",
+          &get_text<cppsas7bdat::Column, &cppsas7bdat::Column::format>)
+      .add_property("label",
+                    &get_text<cppsas7bdat::Column, &cppsas7bdat::Column::label>)
       .def_readonly("type", &cppsas7bdat::Column::type);
   class_<std::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>,
          boost::noncopyable>("Columns", no_init)
@@ -80,18 +85,31 @@ BOOST_PYTHON_MODULE(cpp) {
                     &cppsas7bdat::Properties /*::Header*/ ::platform)
       .add_property("date_created", &properties::get_date_created)
       .add_property("date_modified", &properties::get_date_modified)
-      .def_readonly("dataset_name",
-                    &cppsas7bdat::Properties /*::Header*/ ::dataset_name)
-      .def_readonly("encoding",
-                    &cppsas7bdat::Properties /*::Header*/ ::encoding)
-      .def_readonly("file_type",
-                    &cppsas7bdat::Properties /*::Header*/ ::file_type)
-      .def_readonly("sas_release",
-                    &cppsas7bdat::Properties /*::Header*/ ::sas_release)
-      .def_readonly("sas_server_type",
-                    &cppsas7bdat::Properties /*::Header*/ ::sas_server_type)
-      .def_readonly("os_type", &cppsas7bdat::Properties /*::Header*/ ::os_type)
-      .def_readonly("os_name", &cppsas7bdat::Properties /*::Header*/ ::os_name)
+      .add_property(
+          "dataset_name",
+          &get_text<cppsas7bdat::Properties,
+                    &cppsas7bdat::Properties /*::Header*/ ::dataset_name>)
+      .add_property("encoding",
+                    &get_text<cppsas7bdat::Properties,
+                              &cppsas7bdat::Properties /*::Header*/ ::encoding>)
+      .add_property(
+          "file_type",
+          &get_text<cppsas7bdat::Properties,
+                    &cppsas7bdat::Properties /*::Header*/ ::file_type>)
+      .add_property(
+          "sas_release",
+          &get_text<cppsas7bdat::Properties,
+                    &cppsas7bdat::Properties /*::Header*/ ::sas_release>)
+      .add_property(
+          "sas_server_type",
+          &get_text<cppsas7bdat::Properties,
+                    &cppsas7bdat::Properties /*::Header*/ ::sas_server_type>)
+      .add_property("os_type",
+                    &get_text<cppsas7bdat::Properties,
+                              &cppsas7bdat::Properties /*::Header*/ ::os_type>)
+      .add_property("os_name",
+                    &get_text<cppsas7bdat::Properties,
+                              &cppsas7bdat::Properties /*::Header*/ ::os_name>)
       .def_readonly("header_length",
                     &cppsas7bdat::Properties /*::Header*/ ::header_length)
       .def_readonly("page_length",
@@ -100,10 +118,14 @@ BOOST_PYTHON_MODULE(cpp) {
                     &cppsas7bdat::Properties /*::Header*/ ::page_count)
       .def_readonly("compression",
                     &cppsas7bdat::Properties /*::Metadata*/ ::compression)
-      .def_readonly("creator",
-                    &cppsas7bdat::Properties /*::Metadata*/ ::creator)
-      .def_readonly("creator_proc",
-                    &cppsas7bdat::Properties /*::Metadata*/ ::creator_proc)
+      .add_property(
+          "creator",
+          &get_text<cppsas7bdat::Properties,
+                    &cppsas7bdat::Properties /*::Metadata*/ ::creator>)
+      .add_property(
+          "creator_proc",
+          &get_text<cppsas7bdat::Properties,
+                    &cppsas7bdat::Properties /*::Metadata*/ ::creator_proc>)
       .def_readonly("row_length",
                     &cppsas7bdat::Properties /*::Metadata*/ ::row_length)
       .def_readonly("row_count",
diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 6c810ac..fd09eea 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -36,7 +36,13 @@ struct Reader : public cppsas7bdat::Reader {
       for (int i = 0; i < n; ++i) {
         auto item = PyList_GetItem(_object, i);
         try {
-          _set.insert(boost::python::extract<std::string>(item));
+          if (PyUnicode_Check(item)) {
+            boost::python::object text(boost::python::handle<>(
+                PyUnicode_AsEncodedString(item, "utf-8", "surrogateescape")));
+            _set.insert(boost::python::extract<std::string>(text));
+          } else {
+            _set.insert(boost::python::extract<std::string>(item));
+          }
         } catch (...) {
           throw std::runtime_error(
               fmt::format("Element of {} argument is not a string", _context));
@@ -83,6 +89,11 @@ boost::shared_ptr<Reader> create_reader(std::string _filename, PyObject *_sink,
       new Reader(_filename.c_str(), _sink, _include, _exclude));
 }
 
+boost::python::object to_text(const std::string &_x) {
+  return boost::python::object(boost::python::handle<>(PyUnicode_DecodeUTF8(
+      _x.data(), static_cast<Py_ssize_t>(_x.size()), "surrogateescape")));
+}
+
 void bind_reader() {
   using namespace boost::python;
 
diff --git a/python/pycppsas7bdat/cpp/reader.hpp b/python/pycppsas7bdat/cpp/reader.hpp
index ac5d347..9794126 100644
--- a/python/pycppsas7bdat/cpp/reader.hpp
+++ b/python/pycppsas7bdat/cpp/reader.hpp
@@ -11,6 +11,10 @@
 
 namespace pycppsas7bdat {
 void bind_reader();
+
+// The texts of the metadata are in the encoding of the file: the bytes that are
+// not UTF-8 are kept with the surrogateescape error handler
+boost::python::object to_text(const std::string &_x);
 }
 
 #endif
diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 9cceab6..2a2721a 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -349,7 +349,8 @@ struct SinkChunk : public SinkBase {
                               _Values &_values, _Fct _fct) {
     const size_t ncols = _columns.size();
     for (size_t icol = 0; icol < ncols; ++icol) {
-      _d[_columns[icol].name] = _fct(_columns[icol], _values[icol]);
+      _d[to_text(_columns[icol].name)] =
+          _fct(_columns[icol], _values[icol]);
     }
   }
 
-- 
2.43.0


From d88d0371a71ade8ab55f7a4ff663b6c623e0e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 35/41] fix: R: each row is a list of its own

---
 R/CPPSAS7BDAT/src/sink.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..93b7c4b 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // A new list for each row, as the sink may keep it
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
@@ -97,8 +100,6 @@ protected:
     for (size_t icol = 0; icol < ncols; ++icol) {
       col_names[icol] = columns[icol].name;
     }
-    row = Rcpp::List(ncols);
-    row.names() = col_names;
   }
 
   cppsas7bdat::COLUMNS columns;
-- 
2.43.0


From f8f4e857f012d18e81a56e166fb7fb1eb347c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 36/41] fix: R: the rows of a chunk are handed over once, in
 vectors of their own

Rows read after end_of_data, or after skipped rows, were written past the end of the
vectors or over the ones the sink already had; the whole data forgot the rows and an
empty file had no data at all.
---
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 23 ++++++++++++++++-------
 R/CPPSAS7BDAT/src/sink_chunk.hpp      | 20 +++++++-------------
 R/CPPSAS7BDAT/src/sink_data.hpp       | 17 ++++++++++++++---
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..a3445de 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -61,8 +61,8 @@ struct SinkByColumns : public SinkBase {
     ilastrow = _properties /*.metadata*/.row_count;
     SinkBase::set_properties(_properties);
     columns = cppsas7bdat::Columns(_properties /*.metadata*/.columns);
-    prepare_values(size ? std::min(size, ilastrow) : ilastrow);
     setup_col_names();
+    prepare_values(0);
   }
 
   static void push_value(COL_STRINGS &_values, const size_t _idata,
@@ -162,9 +162,19 @@ protected:
     return v;
   }
 
-  void set_values() {
+  // The number of rows of a chunk starting at a row
+  size_t chunk_rows(const size_t _irow) const {
+    const size_t nrows = ilastrow > _irow ? ilastrow - _irow : 1;
+    return size ? std::min(size, nrows) : nrows;
+  }
+
+  // The row indexes and a new list with the values, as the sink may keep them
+  COL_INTEGERS set_values() {
     size_t icol = {0};
 
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
+
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
         if (idata != column.size()) {
@@ -175,14 +185,16 @@ protected:
       }
     };
 
-    if (row_index.size() != idata)
-      row_index = resize_vector(row_index, idata);
     set_values(col_numbers);
     set_values(col_integers);
     set_values(col_datetimes);
     set_values(col_dates);
     set_values(col_times);
     set_values(col_strings);
+
+    if (idata != row_index.size())
+      return resize_vector(row_index, idata);
+    return row_index;
   }
 
   void setup_col_names() {
@@ -197,9 +209,6 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..8a7aca9 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -14,34 +14,28 @@
 namespace Rcppsas7bdat {
 
 struct SinkChunk : public SinkByColumns {
-  size_t istartrow{0}, iendrow{0};
-
   explicit SinkChunk(Environment _sink, const size_t _size)
       : SinkByColumns(_sink, _size), f_push_rows(sink["push_rows"]) {}
 
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
+    if (idata == 0)
+      prepare_values(chunk_rows(_irow));
     SinkByColumns::push_row(_irow, _p);
 
-    iendrow = _irow;
-    if (idata == size) {
+    if (idata == size)
       flush();
-      // Check if the were starting the last chunk => resize to a smaller chunk
-      if (istartrow + size > ilastrow && istartrow < ilastrow) {
-        prepare_values(ilastrow - istartrow);
-      }
-    }
   }
 
   void end_of_data() { flush(); }
 
   void flush() {
-    if (istartrow > iendrow || idata == 0)
+    if (idata == 0)
       return;
-    SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
+    const auto index = SinkByColumns::set_values();
+    // The sink may fail or flush again: these rows are handed over only once
     idata = 0;
-    istartrow = iendrow + 1;
+    f_push_rows(index, rows);
   }
 
 protected:
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..0a4adc5 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -17,16 +17,27 @@ struct SinkData : public SinkByColumns {
   SinkData(Environment _sink)
       : SinkByColumns(_sink, 0), f_set_data(sink["set_data"]) {}
 
+  void push_row([[maybe_unused]] const size_t _irow,
+                [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
+    if (idata == 0)
+      prepare_values(chunk_rows(_irow));
+    SinkByColumns::push_row(_irow, _p);
+    has_data = false;
+  }
+
   void end_of_data() { flush(); }
 
+  // The whole data: every row read so far
   void flush() {
-    if (idata == 0)
+    if (has_data)
       return;
-    SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    has_data = true;
+    const auto index = SinkByColumns::set_values();
+    f_set_data(index, rows);
   }
 
 protected:
+  bool has_data{false};
   Function f_set_data;
 };
 
-- 
2.43.0


From 5f8aabc9edfe6d4fdec761d9e5d5f71c21f52f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 37/41] fix: R: the sinks of the package find the columns and
 keep their names

---
 R/CPPSAS7BDAT/R/sink.R | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 318b96c..ae3e74c 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -13,8 +13,8 @@ SinkByRow <- R6Class("SinkByRow",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$metadata$row_count, ncol=properties$metadata$column_count))
+	    self$columns = names(properties$columns);
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=length(self$columns)))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
@@ -36,10 +36,10 @@ SinkByChunk <- R6Class("SinkByChunk",
     },
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
-	    rows <- as.data.frame(rows);
+	    rows <- as.data.frame(rows, optional=TRUE, stringsAsFactors=FALSE);
 	    if(is.null(self$df)) { self$df=rows; }
 	    else { self$df = rbind(self$df, rows); }
     }
@@ -54,7 +54,7 @@ SinkWholeData <- R6Class("SinkWholeData",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
 	    self$df <- data;
-- 
2.43.0


From a9a13d3f81f336aeedeb77579ab0a4f951d5ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 38/41] fix: R: a file without creation or modification date
 can be read

---
 R/CPPSAS7BDAT/src/wrap_properties.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/wrap_properties.hpp b/R/CPPSAS7BDAT/src/wrap_properties.hpp
index 36733f3..57c58a7 100644
--- a/R/CPPSAS7BDAT/src/wrap_properties.hpp
+++ b/R/CPPSAS7BDAT/src/wrap_properties.hpp
@@ -75,12 +75,18 @@ SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
     return columns;
   }();
 
+  auto date = [](const DATETIME &_x) -> SEXP {
+    if (_x.is_not_a_date_time())
+      return Rf_ScalarString(NA_STRING);
+    return wrap(to_string(_x));
+  };
+
   return Rcppsas7bdat::ListBuilder()
       .add("endianness",
            std::string(to_string(_properties /*.header*/.endianness)))
       .add("platform", std::string(to_string(_properties /*.header*/.platform)))
-      .add("date_created", to_string(_properties /*.header*/.date_created))
-      .add("date_modified", to_string(_properties /*.header*/.date_modified))
+      .add("date_created", date(_properties /*.header*/.date_created))
+      .add("date_modified", date(_properties /*.header*/.date_modified))
       .add("dataset_name", _properties /*.header*/.dataset_name)
       .add("encoding", _properties /*.header*/.encoding)
       .add("file_type", _properties /*.header*/.file_type)
-- 
2.43.0


From 0aaa1f9adcc32e48afb5f432c65405221351193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 39/41] fix: csv file: data that cannot be written is reported
 as an exception

---
 include/cppsas7bdat/sink/csv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 220d96c..9ef0696 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -110,6 +110,12 @@ struct csv_ofstream : public _ofstream, public csv {
       : _ofstream(std::move(_rhs)), csv(ofs) {
     columns = std::move(_rhs.columns);
   }
+
+  // The end of the file is still in the buffer of the stream
+  void end_of_data() {
+    if (!ofs.flush())
+      throw std::runtime_error("Cannot write all the data to the csv file");
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From d5b4542af6fc8c09847ba64671054073e3d6b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 40/41] fix: print: output that cannot be written gives a
 message and an exit status

---
 apps/cppsas7bdat-ci.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 2b9a6f8..0f2ecd8 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -91,6 +91,8 @@ int process(const int argc, char* argv[])
     for(const auto& file: files) {
       process_print(file, n);
     }
+    if(!std::cout.flush())
+      throw std::runtime_error("Cannot write to the standard output");
   } else if(args["csv"].asBool()) {
     const auto files = args["<file>"].asStringList();
     check_csv_filenames(files);
-- 
2.43.0


From 077cc37e293b2f201ef6b6c26346d703a2ea07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 41/41] fix: python: columns stay aligned when a value of a row
 cannot be made

---
 python/pycppsas7bdat/cpp/sink.hpp | 46 +++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2a2721a..50160a7 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -246,8 +246,7 @@ struct SinkChunk : public SinkBase {
     }
   }
 
-  void push_row([[maybe_unused]] const size_t _irow,
-                [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
+  void push_values(cppsas7bdat::Column::PBUF _p) {
     push_values(
         _p, columns.numbers, col_numbers,
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
@@ -281,6 +280,49 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+  }
+
+  template <typename _Values>
+  static void min_size(const _Values &_values, size_t &_n) {
+    for (const auto &v : _values)
+      _n = std::min(_n, v.size());
+  }
+
+  template <typename _Values>
+  static void resize_values(_Values &_values, const size_t _n) {
+    for (auto &v : _values)
+      if (v.size() > _n)
+        v.erase(v.begin() + _n, v.end());
+  }
+
+  // The columns have the same number of values again
+  void drop_incomplete_row() {
+    size_t n = std::numeric_limits<size_t>::max();
+    min_size(col_numbers, n);
+    min_size(col_integers, n);
+    min_size(col_datetimes, n);
+    min_size(col_dates, n);
+    min_size(col_times, n);
+    min_size(col_strings, n);
+    resize_values(col_numbers, n);
+    resize_values(col_integers, n);
+    resize_values(col_datetimes, n);
+    resize_values(col_dates, n);
+    resize_values(col_times, n);
+    resize_values(col_strings, n);
+  }
+
+  void push_row([[maybe_unused]] const size_t _irow,
+                [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
+    // Rows that could not be handed over before
+    if (size && idata == size)
+      flush();
+    try {
+      push_values(_p);
+    } catch (...) {
+      drop_incomplete_row();
+      throw;
+    }
     if (idata == 0)
       istartrow = _irow;
     iendrow = _irow;
-- 
2.43.0

