From b50e6d3db12c3c762d8a85618e41b0b5ad781f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 01/30] fix: skip APP/COM payload in JPEG_READ_TABLES mode

Marker-like bytes inside an application segment or a comment (e.g. an EXIF
thumbnail) were parsed as markers of the image itself.
---
 c/enc/jpeg_data_reader.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index 0ece595..b7a9001 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -390,6 +390,17 @@ bool ProcessDRI(const uint8_t* data, const size_t len, size_t* pos,
   return true;
 }
 
+// Skips the APP / COM marker segment.
+bool SkipSegment(const uint8_t* data, const size_t len, size_t* pos,
+                 JPEGData* jpg) {
+  BRUNSLI_VERIFY_LEN(2);
+  size_t marker_len = ReadUint16(data, pos);
+  BRUNSLI_VERIFY_INPUT(marker_len, 2, 65535, MARKER_LEN);
+  BRUNSLI_VERIFY_LEN(marker_len - 2);
+  *pos += marker_len - 2;
+  return true;
+}
+
 // Saves the APP marker segment as a string to *jpg.
 bool ProcessAPP(const uint8_t* data, const size_t len, size_t* pos,
                 JPEGData* jpg) {
@@ -1108,11 +1119,16 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
       case 0xef:
         if (mode != JPEG_READ_TABLES) {
           ok = ProcessAPP(data, len, &pos, jpg);
+        } else {
+          // Payload might contain marker-like sequences, e.g. a thumbnail.
+          ok = SkipSegment(data, len, &pos, jpg);
         }
         break;
       case 0xfe:
         if (mode != JPEG_READ_TABLES) {
           ok = ProcessCOM(data, len, &pos, jpg);
+        } else {
+          ok = SkipSegment(data, len, &pos, jpg);
         }
         break;
       default:
-- 
2.43.0


From bd3c902ca609d8851c46a3ac5e074da5a4990ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 02/30] fix: offer output space to the bypass payload at once

---
 c/dec/jpeg_data_writer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..3dad8e3 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1022,6 +1022,7 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
           //               file is passed to parser, but it is impossible to
           //               push complete output.
           ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From 3c7b96e0c17cdc3ef08372ca20c06c6e4efbc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 03/30] fix: streaming decoder keeps its own copy of the bypass
 payload

---
 c/dec/brunsli_decode.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..f8d95bb 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2528,6 +2528,15 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
     return BrunsliDecoder::ERROR;
   }
 
+  // Input buffer could be reused by the caller before all the output is taken;
+  // keep own copy of bypass payload.
+  std::vector<uint8_t>& storage = state->internal->fallback.storage;
+  if (jpg->original_jpg != nullptr && storage.empty()) {
+    storage.assign(jpg->original_jpg,
+                   jpg->original_jpg + jpg->original_jpg_size);
+    jpg->original_jpg = storage.data();
+  }
+
   // All the input given input should be consumed.
   BRUNSLI_DCHECK(*available_in == 0);
 
-- 
2.43.0


From f51a4ac01f5d43406d497dbd85b999414628f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 04/30] fix: streaming decoder is not done until the whole
 stream is parsed

---
 c/dec/brunsli_decode.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index f8d95bb..a6db340 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2548,9 +2548,10 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
 
   switch (serialization_status) {
     case SerializationStatus::DONE:
-      // Should be impossible to finish serialization without finishing parsing.
-      BRUNSLI_DCHECK(parse_status == BRUNSLI_OK);
-      return BrunsliDecoder::DONE;
+      // Serialization could be finished before parsing, e.g. when none of scans
+      // depends on AC data.
+      return (parse_status == BRUNSLI_OK) ? BrunsliDecoder::DONE
+                                          : BrunsliDecoder::NEEDS_MORE_INPUT;
 
     case SerializationStatus::NEEDS_MORE_INPUT:
       // If serializer says that data is incomplete, parser should say the same.
-- 
2.43.0


From 7e526c80a8b43a5a3065f12a66654efa6060a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 05/30] fix: reject sections in place of known header values

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index a6db340..479c0b3 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From fb61d16ffadf3df6a8663270bb966efaf43e74b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 06/30] fix: do not serialize DC scans before DC data is
 decoded

---
 c/dec/jpeg_data_writer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 3dad8e3..09f8749 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -763,8 +763,11 @@ SerializationStatus BRUNSLI_NOINLINE DoEncodeScan(const JPEGData& jpg,
   // DC-only is defined by [0..0] spectral range.
   const bool want_ac = ((Ss != 0) || (Se != 0));
   const bool complete_ac = (parsing_state.stage == Stage::DONE);
+  // NB: AC section tag is registered before the order of sections is checked;
+  // coefficients are not available until decoding of DC / AC has started.
   const bool has_ac =
-      complete_ac || HasSection(&parsing_state, kBrunsliACDataTag);
+      complete_ac || (HasSection(&parsing_state, kBrunsliACDataTag) &&
+                      parsing_state.internal->is_meta_warm);
   if (want_ac && !has_ac) return SerializationStatus::NEEDS_MORE_INPUT;
 
   // |has_ac| implies |complete_dc| but not vice versa; for the sake of
-- 
2.43.0


From 67e3139190098a6b6637b16281e56b45e3a52236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 07/30] fix: C encoder reports failure of a partially consuming
 sink

---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From 31560c7c7c1bb6991294fef665b0f1aa999024e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 08/30] fix: upper bound of the encoded Huffman code size

---
 c/enc/brunsli_encode.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..df77cb2 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -50,7 +50,9 @@ using ::brunsli::internal::enc::SelectContextBits;
 
 // Returns an upper bound on the encoded size of the jpeg internals section.
 size_t EstimateAuxDataSize(const JPEGData& jpg) {
-  size_t size = (jpg.marker_order.size() + 272 * jpg.huffman_code.size() +
+  // Each Huffman code takes up to 20 bytes for flags and bit-length counts,
+  // plus up to 12 bits for each of (at most) 256 values.
+  size_t size = (jpg.marker_order.size() + 404 * jpg.huffman_code.size() +
                  7 * jpg.scan_info.size() + 16);
   for (size_t i = 0; i < jpg.scan_info.size(); ++i) {
     size += 7 * jpg.scan_info[i].reset_points.size();
-- 
2.43.0


From be086a757fa380c9c5fa011df1ad30f77ec9f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 09/30] fix: upper bound of the encoded block size

---
 c/enc/brunsli_encode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index df77cb2..e7f60cc 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -82,8 +82,9 @@ size_t GetMaximumBrunsliEncodedSize(const JPEGData& jpg) {
   for (const auto& component : jpg.components) {
     num_blocks += component.num_blocks;
   }
-  // Currently established upper bound is 82 bytes per block.
-  constexpr size_t kBytesPerBlock = 82 + 2;
+  // Incompressible coefficients in the range [-2054, 2054] take 12 bits each.
+  // Adaptive models and code normalization add less than 3 bytes to that.
+  constexpr size_t kBytesPerBlock = 96 + 3 + 2;
   size_t entropy_size = num_blocks * kBytesPerBlock;
   return entropy_size + hdr_size;
 }
-- 
2.43.0


From 8b09375a6250ed55b0cd06d1e007b292c3101dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 10/30] fix: check output buffer size in the encoder

---
 c/enc/brunsli_encode.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index e7f60cc..8b452de 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -826,12 +826,16 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
+  // 4 x marker + EncodeBase128() call.
+  uint8_t buffer[4 * (1 + (sizeof(size_t) * 8 + 6) / 7)];
   size_t pos = 0;
-  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
-  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
-  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, data, &pos);
-  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, data, &pos);
+  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, buffer, &pos);
+  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, buffer, &pos);
+  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, buffer, &pos);
+  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, buffer, &pos);
 
+  if (pos > *len) return false;
+  memcpy(data, buffer, pos);
   *len = pos;
   return true;
 }
@@ -969,6 +973,8 @@ typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
 bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    EncodeSectionDataFn write_section, size_t section_size_bytes,
                    size_t len, uint8_t* data, size_t* pos) {
+  if (len < *pos || len - *pos <= section_size_bytes) return false;
+
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
   const uint8_t marker = SectionMarker(tag);
@@ -1477,8 +1483,21 @@ bool BrunsliEncodeJpeg(const JPEGData& jpg, uint8_t* data, size_t* len) {
   state.entropy_codes = entropy_codes.get();
   // Groups workflow: distribute codes.
 
+  // Bit-level writers do not check for overflow, so they always get a buffer
+  // of the maximum size.
+  size_t size = GetMaximumBrunsliEncodedSize(jpg);
+  std::vector<uint8_t> buffer;
+  uint8_t* output = data;
+  if (*len < size) {
+    buffer.resize(size);
+    output = buffer.data();
+  }
   // Groups workflow: apply corresponding skip masks.
-  return BrunsliSerialize(&state, jpg, 0, data, len);
+  if (!BrunsliSerialize(&state, jpg, 0, output, &size)) return false;
+  if (size > *len) return false;
+  if (output != data) memcpy(data, output, size);
+  *len = size;
+  return true;
 }
 
 #if defined(BRUNSLI_EXTRA_API)
-- 
2.43.0


From 85d6e324a10e54fcd2eae70c204e887bcaeb18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 11/30] fix: refuse to serialize inconsistent JPEGData

---
 c/dec/jpeg_data_writer.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 09f8749..4f81682 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -267,10 +267,12 @@ bool BuildHuffmanCodeTable(const JPEGHuffmanCode& huff,
   int huff_code[kJpegHuffmanAlphabetSize];
   // +1 for a sentinel element.
   uint32_t huff_size[kJpegHuffmanAlphabetSize + 1];
+  // Forget symbols of the previous code in this slot.
+  memset(table, 0, sizeof(*table));
   int p = 0;
   for (size_t l = 1; l <= kJpegHuffmanMaxBitLength; ++l) {
     int i = huff.counts[l];
-    if (p + i > kJpegHuffmanAlphabetSize + 1) {
+    if (i < 0 || p + i > kJpegHuffmanAlphabetSize + 1) {
       return false;
     }
     while (i--) huff_size[p++] = static_cast<uint32_t>(l);
@@ -297,6 +299,7 @@ bool BuildHuffmanCodeTable(const JPEGHuffmanCode& huff,
   }
   for (p = 0; p < last_p; p++) {
     int i = huff.values[p];
+    if (i < 0 || i >= kJpegHuffmanAlphabetSize) return false;
     table->depth[i] = huff_size[p];
     table->code[i] = huff_code[p];
   }
@@ -346,6 +349,7 @@ bool EncodeSOF(const JPEGData& jpg, uint8_t marker, SerializationState* state) {
 bool EncodeSOS(const JPEGData& jpg, const JPEGScanInfo& scan_info,
                SerializationState* state) {
   const size_t n_scans = scan_info.num_components;
+  if (n_scans < 1 || n_scans > kMaxComponents) return false;
   const size_t marker_len = 6 + 2 * n_scans;
   state->output_queue.emplace_back(marker_len + 2);
   uint8_t* data = state->output_queue.back().buffer->data();
@@ -358,6 +362,8 @@ bool EncodeSOS(const JPEGData& jpg, const JPEGScanInfo& scan_info,
   for (size_t i = 0; i < n_scans; ++i) {
     const JPEGComponentScanInfo& si = scan_info.components[i];
     if (si.comp_idx >= jpg.components.size()) return false;
+    if (si.dc_tbl_idx >= kMaxHuffmanTables) return false;
+    if (si.ac_tbl_idx >= kMaxHuffmanTables) return false;
     data[pos++] = jpg.components[si.comp_idx].id;
     data[pos++] = (si.dc_tbl_idx << 4u) + si.ac_tbl_idx;
   }
@@ -394,6 +400,7 @@ bool EncodeDHT(const JPEGData& jpg, SerializationState* state) {
     const JPEGHuffmanCode& huff = huffman_code[huffman_code_index];
     size_t index = huff.slot_id;
     HuffmanCodeTable* huff_table;
+    if ((index & ~0x10u) >= kMaxHuffmanTables) return false;
     if (index & 0x10) {
       index -= 0x10;
       huff_table = &state->ac_huff_table[index];
@@ -413,6 +420,8 @@ bool EncodeDHT(const JPEGData& jpg, SerializationState* state) {
       }
       total_count += huff.counts[i];
     }
+    // At least sentinel element should be there.
+    if (total_count == 0) return false;
     --total_count;
     data[pos++] = huff.slot_id;
     for (size_t i = 1; i <= kJpegHuffmanMaxBitLength; ++i) {
@@ -780,6 +789,20 @@ SerializationStatus BRUNSLI_NOINLINE DoEncodeScan(const JPEGData& jpg,
   const int last_mcu_y =
       complete ? MCU_rows : parsing_state.internal->ac_dc.next_mcu_y * v_group;
 
+  if (ss.mcu_y < last_mcu_y) {
+    for (size_t i = 0; i < scan_info.num_components; ++i) {
+      const JPEGComponent& c = jpg.components[scan_info.components[i].comp_idx];
+      const size_t n_cols = static_cast<size_t>(MCUs_per_row) *
+                            (is_interleaved ? c.h_samp_factor : 1);
+      const size_t n_rows =
+          static_cast<size_t>(MCU_rows) * (is_interleaved ? c.v_samp_factor : 1);
+      if (n_cols > c.width_in_blocks ||
+          n_rows * c.width_in_blocks * kDCTBlockSize > c.coeffs.size()) {
+        return SerializationStatus::ERROR;
+      }
+    }
+  }
+
   for (; ss.mcu_y < last_mcu_y; ++ss.mcu_y) {
     for (int mcu_x = 0; mcu_x < MCUs_per_row; ++mcu_x) {
       // Possibly emit a restart marker.
@@ -859,6 +882,9 @@ SerializationStatus BRUNSLI_NOINLINE DoEncodeScan(const JPEGData& jpg,
 static SerializationStatus BRUNSLI_INLINE
 EncodeScan(const JPEGData& jpg, const State& parsing_state,
            SerializationState* state) {
+  if (static_cast<size_t>(state->scan_index) >= jpg.scan_info.size()) {
+    return SerializationStatus::ERROR;
+  }
   const JPEGScanInfo& scan_info = jpg.scan_info[state->scan_index];
   const bool is_progressive = state->is_progressive;
   const int Al = is_progressive ? scan_info.Al : 0;
-- 
2.43.0


From 8978b79bba40f446f889b626cfdb839495489184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 12/30] fix: refuse to encode JPEGData without coefficients

---
 c/enc/brunsli_encode.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 8b452de..825d977 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -1072,6 +1072,7 @@ bool PredictDCCoeffs(State* state) {
 
 bool CalculateMeta(const JPEGData& jpg, State* state) {
   const size_t num_components = jpg.components.size();
+  if (num_components < 1 || num_components > kMaxComponents) return false;
   std::vector<ComponentMeta>& meta = state->meta;
   meta.resize(num_components);
   for (size_t i = 0; i < num_components; ++i) {
@@ -1083,6 +1084,11 @@ bool CalculateMeta(const JPEGData& jpg, State* state) {
     m.v_samp = c.v_samp_factor;
     m.width_in_blocks = jpg.MCU_cols * m.h_samp;
     m.height_in_blocks = jpg.MCU_rows * m.v_samp;
+    const size_t num_blocks =
+        static_cast<size_t>(m.width_in_blocks) * m.height_in_blocks;
+    if (num_blocks == 0 || num_blocks * kDCTBlockSize > c.coeffs.size()) {
+      return false;
+    }
     m.ac_coeffs = &c.coeffs[0];
     m.ac_stride = m.width_in_blocks * kDCTBlockSize;
     m.dc_stride = m.width_in_blocks;
-- 
2.43.0


From 2f9b4d2251350dc3f00601491e51e81018ee868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 13/30] fix: keep the format of std::cerr when logging

Logging with std::hex changed the flags of the process-wide std::cerr for
good, and concurrent decoders raced on them.
---
 c/common/platform.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/common/platform.h b/c/common/platform.h
index d1419c6..26da736 100644
--- a/c/common/platform.h
+++ b/c/common/platform.h
@@ -410,7 +410,8 @@ static BRUNSLI_INLINE void BRUNSLI_UNALIGNED_STORE64LE(void* p, uint64_t v) {
 #define BRUNSLI_LOG_(LEVEL) LOG(LEVEL)
 #define BRUNSLI_ENDL() ""
 #else  // defined(BRUNSLI_USE_LOGGING)
-#define BRUNSLI_LOG_(LEVEL) std::cerr
+// A stream of its own, so that formatting does not affect that of others.
+#define BRUNSLI_LOG_(LEVEL) std::ostream(std::cerr.rdbuf())
 #define BRUNSLI_ENDL() std::endl
 #endif  // defined(BRUNSLI_USE_LOGGING)
 
-- 
2.43.0


From d24f9d54ad0bc86fcaf83a712f33149a08aaedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 14/30] fix: let the threads of ParallelExecutor terminate

The destructor published no unclaimed task, so idle workers never woke up
and the destructor waited for them forever.
---
 c/experimental/groups.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index b1075bd..d1caaea 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -84,7 +84,8 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
 ParallelExecutor::~ParallelExecutor() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
-  next_task.store(1);
+  // Workers wait for an unclaimed task; it is not run, as they check `terminate`.
+  next_task.store(0);
   this->num_tasks = 1;
   this->runnable = nullptr;
   start_latch.notify_all();
-- 
2.43.0


From 6423f2a9388862ffb827dbbdb3d2b774d0f2ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 15/30] fix: do not share the decoding status between group
 tasks

Concurrent tasks wrote to one variable; the failure of a task could be
overwritten by the success of another one.
---
 c/experimental/groups.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index d1caaea..1ff4702 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -484,7 +484,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&dc_state, jpg);
+    BrunsliStatus status = ProcessJpeg(&dc_state, jpg);
     if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_dc, dc_section_start.size());
@@ -527,7 +527,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&ac_state, jpg);
+    BrunsliStatus status = ProcessJpeg(&ac_state, jpg);
     if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_ac, ac_section_start.size());
-- 
2.43.0


From 66212241bfb7ed6e585164a9e5f34746a2bb3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 16/30] fix: refuse empty groups

Zero dimensions passed the power-of-two check and led to a division by zero.
---
 c/experimental/groups.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 1ff4702..3b53c27 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -121,6 +121,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   using ::brunsli::internal::enc::SelectContextBits;
   using ::brunsli::internal::enc::State;
 
+  if ((ac_group_dim == 0) || (dc_group_dim == 0)) return false;
   if ((ac_group_dim & (ac_group_dim - 1)) != 0) return false;
   if ((dc_group_dim & (dc_group_dim - 1)) != 0) return false;
   if ((dc_group_dim % ac_group_dim) != 0) return false;
@@ -387,6 +388,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::internal::dec::State;
   using ::brunsli::internal::dec::WarmupMeta;
 
+  if ((ac_group_dim == 0) || (dc_group_dim == 0)) return false;
   if ((ac_group_dim & (ac_group_dim - 1)) != 0) return false;
   if ((dc_group_dim & (dc_group_dim - 1)) != 0) return false;
   if ((dc_group_dim % ac_group_dim) != 0) return false;
-- 
2.43.0


From a67ead39097abfc8469acf791caeedda8ad7df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 17/30] fix: provide enough room for the sections of groups

The buffers had a fixed size that did not depend on the group dimensions
nor on the content, and incompressible images overflowed them.
---
 c/enc/state.h            |  2 ++
 c/experimental/groups.cc | 22 ++++++----------------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/c/enc/state.h b/c/enc/state.h
index ef6dc6c..1393eeb 100644
--- a/c/enc/state.h
+++ b/c/enc/state.h
@@ -103,6 +103,8 @@ class DataStream {
   // probability, i.e. P(bit = 0) = prob / 256. Statistics are updated in 'p'.
   void AddBit(Prob* const p, int bit);
   void EncodeCodeWords(EntropyCodes* s, Storage* storage);
+  // Upper bound for the output size of EncodeCodeWords.
+  size_t MaxSize() const { return 4 + 2 * static_cast<size_t>(pos_); }
 
  private:
   struct CodeWord {
diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 3b53c27..baebe52 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -28,6 +28,9 @@ namespace brunsli {
 
 namespace {
 
+// Tag and length.
+const size_t kMaxSectionHeaderSize = 1 + 10;
+
 bool SkipSection(const uint8_t** data, size_t len) {
   size_t section_len = 0;
   uint64_t b = 0x80;
@@ -301,18 +304,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   {
     std::vector<uint8_t>& part = output[0];
     state.entropy_codes = entropy_codes.get();
-    size_t part_size = 20480;
-    for (size_t i = 0; i < jpg.inter_marker_data.size(); ++i) {
-      part_size += 5 + jpg.inter_marker_data[i].size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.app_data) {
-      part_size += chunk.size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.com_data) {
-      part_size += chunk.size();
-    }
-    part_size += jpg.tail_data.size();
-    // TODO(eustas): take into account histograms.
+    size_t part_size = GetMaximumBrunsliEncodedSize(jpg);
     part.resize(part_size);
     uint32_t skip_flags =
         (1u << brunsli::kBrunsliDCDataTag) | (1u << brunsli::kBrunsliACDataTag);
@@ -329,8 +321,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx--;
     if (idx < dc_state.size()) {
       State& s = dc_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 128 * (128 + 16) * jpg.components.size();
+      size_t part_size = kMaxSectionHeaderSize + s.data_stream_dc.MaxSize();
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliDCDataTag);
@@ -345,8 +336,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx -= dc_state.size();
     if (idx < ac_state.size()) {
       State& s = ac_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 32 * 32 * 63 * jpg.components.size();
+      size_t part_size = kMaxSectionHeaderSize + s.data_stream_ac.MaxSize();
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliACDataTag);
-- 
2.43.0


From 26f623f03060294dca396b1e3ad1dbfa0c4cc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 18/30] fix: require quantization and histogram data before
 decoding groups

When the common sections lacked them, group decoders used uninitialized
pointers.
---
 c/experimental/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index baebe52..ccb9f38 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -372,6 +372,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::BrunsliStatus;
   using ::brunsli::internal::dec::BlockI32;
   using ::brunsli::internal::dec::ComponentMeta;
+  using ::brunsli::internal::dec::HasSection;
   using ::brunsli::internal::dec::PrepareMeta;
   using ::brunsli::internal::dec::ProcessJpeg;
   using ::brunsli::internal::dec::Stage;
@@ -399,6 +400,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
   BrunsliStatus status = ProcessJpeg(&state, jpg);
   if (status != BrunsliStatus::BRUNSLI_NOT_ENOUGH_DATA) return false;
+  if (!HasSection(&state, brunsli::kBrunsliQuantDataTag)) return false;
+  if (!HasSection(&state, brunsli::kBrunsliHistogramDataTag)) return false;
   WarmupMeta(jpg, &state);
 
   if ((ac_group_dim % jpg->max_h_samp_factor) != 0) return false;
-- 
2.43.0


From 10d663bfd0d0c775968f8c7fd1cbda52a01bfaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 19/30] fix: no estimate for missing data is 0

BrunsliEstimateDecoderPeakMemoryUsage returned a status code (3) as a number of bytes.
---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 479c0b3..e76966f 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2469,7 +2469,7 @@ BrunsliStatus BrunsliDecodeJpeg(const uint8_t* data, const size_t len,
 
 size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
                                              const size_t len) {
-  if (!data) return BRUNSLI_INVALID_PARAM;
+  if (!data) return 0;
 
   State state;
   state.data = data;
-- 
2.43.0


From 1a6d51db757f279e51d8052db26fbb7b42e05755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 20/30] fix: tools refuse directories as input

The size of a directory is not a meaningful number: std::string::resize threw.
---
 c/tools/cbrunsli.cc | 8 +++++++-
 c/tools/dbrunsli.cc | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index ac3ca79..17f6ad2 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -31,7 +31,13 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);  // NOLINT(runtime/int)
+  // E.g. directories have no meaningful size.
+  if (input_size < 0 ||
+      static_cast<size_t>(input_size) > content->max_size()) {
+    fprintf(stderr, "Failed to get the size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 7d15c2a..f037a11 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -38,7 +38,13 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);  // NOLINT(runtime/int)
+  // E.g. directories have no meaningful size.
+  if (input_size < 0 ||
+      static_cast<size_t>(input_size) > content->max_size()) {
+    fprintf(stderr, "Failed to get the size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
-- 
2.43.0


From 6bfbb6d744b51da8f269d1a41f561e18909af678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 21/30] fix: release malloc'ed wasm buffers with free

---
 wasm/codec.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wasm/codec.cc b/wasm/codec.cc
index 7a3743a..65fd0fc 100644
--- a/wasm/codec.cc
+++ b/wasm/codec.cc
@@ -4,6 +4,8 @@
 // license that can be found in the LICENSE file or at
 // https://opensource.org/licenses/MIT.
 
+#include <cstdio>
+#include <cstdlib>
 #include <string>
 
 #include <brunsli/brunsli_decode.h>
@@ -102,9 +104,9 @@ void BrunsliDecoderCleanup(uint32_t* instance) {
       reinterpret_cast<brunsli::BrunsliDecoder*>(instance[0]);
   delete decoder;
   uint8_t* in = reinterpret_cast<uint8_t*>(instance[2]);
-  delete[] in;
+  free(in);
   uint8_t* out = reinterpret_cast<uint8_t*>(instance[4]);
-  delete[] out;
+  free(out);
   delete[] instance;
 }
 
-- 
2.43.0


From d9b3e14d8edd3384d7d10032183255e08b656f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 22/30] fix: nginx module finds image/x-j anywhere in the
 Accept header

ngx_strcasestrn() takes the length of the pattern minus one: with the whole
length, the type was found at the very end of the header only. And only its
first occurrence was tried, e.g. not in "image/x-jxl,image/x-j".
---
 .../src/ngx_http_brunsli_static_module.c      | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index 9de7018..e88089c 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -293,18 +293,22 @@ static ngx_int_t ngx_http_brunsli_ok(ngx_http_request_t *r) {
 }
 
 static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
-  u_char *p;
+  u_char *p, *start, *last;
 
-  p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len);
-  if (p == NULL) {
-    return NGX_DECLINED;
-  }
+  last = ae->data + ae->len;
+
+  for (p = ae->data; p < last; /* void */) {
+    /* the length argument of ngx_strcasestrn() has to be one less */
+    start = ngx_strcasestrn(p, (char *)ngx_http_brunsli_mime_type.data,
+                            ngx_http_brunsli_mime_type.len - 1);
+    if (start == NULL) {
+      return NGX_DECLINED;
+    }
 
-  if (p == ae->data || (*(p - 1) == ',' || *p == ';' || *(p - 1) == ' ')) {
-    p += ngx_http_brunsli_mime_type.len;
+    p = start + ngx_http_brunsli_mime_type.len;
 
-    if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
+    if ((start == ae->data || *(start - 1) == ',' || *(start - 1) == ' ') &&
+        (p == last || *p == ',' || *p == ';' || *p == ' ')) {
       return NGX_OK;
     }
   }
-- 
2.43.0


From 64ec74c872a0f61527ecaacbf3e5e576c1d96e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 23/30] fix: Apache module survives media ranges without a type

For e.g. "Accept: ;", apr_strtok() returns NULL.
---
 contrib/mod_brunsli/mod_brunsli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index c0a2988..8701c4f 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -18,6 +18,7 @@ static int accept_brunsli(char* const accept) {
        token = apr_strtok(NULL, sep, &last)) {
     char* qlast;
     char* const mime_type = apr_strtok(token, qsep, &qlast);
+    if (mime_type == NULL) continue;
     apr_collapse_spaces(mime_type, mime_type);
     if (strcmp(mime_type, brunsli_mime_type) == 0) {
       return 1;
-- 
2.43.0


From 64e7d4a206975e6f27d097e824df7196aba960c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 24/30] fix: Python patches import despite blocked modules

sys.modules could hold None, as elsewhere in this file.
---
 contrib/py/jxl_library_patches/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index 9b15f38..aa74b78 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -200,7 +200,7 @@ def _try_patch_all(debug=False):
   # imports PIL as needed, e.g. for jpeg. We address this by loading PIL
   # straightaway if we find that matplotlib.image has been loaded. Afterwards,
   # we patch up all modules (including PIL).
-  if any(m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
+  if any(m is not None and m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
          for m in sys.modules.values()):
     # Just make sure the PIL image module gets entered into sys.modules.
     # It is actually OK to do this even if we are not quite sure that
-- 
2.43.0


From ccbee3fe412f04fc426f64533c2b683cae1ea827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 25/30] fix: patched cv2.imread takes positional arguments

E.g. cv2.imread(name, cv2.IMREAD_GRAYSCALE) raised TypeError for any file.
---
 contrib/py/jxl_library_patches/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index aa74b78..de7fe2d 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -63,18 +63,18 @@ def _get_opencv_wrapped_imread(cv2_imread, debug=False):
   if wrapper:
     return wrapper
   # Otherwise, there was not yet a wrapper-function. Create one.
-  def imread(filename, **kwargs):  # Has same name as replaced function.
+  def imread(filename, *args, **kwargs):  # Has same name as replaced function.
     """[Docstring will get replaced]."""
     # For now, this wrapper does nothing - it just wraps the original imread().
     if debug:
       sys.stderr.write(
-          'DDD wrapped OpenCV imread(filename=%r, **kwargs=%r)\n' % (
-              filename, kwargs))
+          'DDD wrapped OpenCV imread(filename=%r, *args=%r, **kwargs=%r)\n' % (
+              filename, args, kwargs))
     if jxl_utils.is_jpegxl_recompressed_jpeg_file(filename):
       return jxl_utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(
-          cv2_imread, filename, **kwargs)
+          cv2_imread, filename, *args, **kwargs)
     else:
-      return cv2_imread(filename, **kwargs)
+      return cv2_imread(filename, *args, **kwargs)
   # We even fake the docstring.
   imread.__doc__ = cv2_imread.__doc__
   # Make both the old and the new function point to the wrapper in the global
-- 
2.43.0


From e7dd148983ff1cf1d441523085ca0c54aaa96d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 26/30] fix: refuse metadata after the DC data

---
 c/dec/brunsli_decode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index e76966f..612a2d4 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2118,6 +2118,10 @@ static Stage ProcessSection(State* state, JPEGData* jpg) {
 
   switch (s.section.tag) {
     case kBrunsliMetaDataTag: {
+      // Serialization starts with the DC data; it is too late for metadata.
+      if (HasSection(state, kBrunsliDCDataTag)) {
+        return Fail(state, BRUNSLI_INVALID_BRN);
+      }
       BrunsliStatus status = DecodeMetaDataSection(state, jpg);
       if (status != BRUNSLI_OK) return Fail(state, status);
       break;
-- 
2.43.0


From f6b4e52560537a5f283a3782d0763de073e9b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 27/30] fix: streaming decoder refuses garbage beyond its input
 buffer

---
 c/dec/brunsli_decode.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 612a2d4..db1a216 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2454,6 +2454,11 @@ BrunsliStatus ProcessJpeg(State* state, JPEGData* jpg) {
     if (!UnloadInput(state, result)) break;
   }
   UnchargeBuffer(state);
+  // Garbage after the stream could hide beyond the buffered piece of input.
+  if ((result == BRUNSLI_OK) && (state->pos != state->len)) {
+    state->stage = Fail(state, BRUNSLI_INVALID_BRN);
+    return s.result;
+  }
   return result;
 }
 
-- 
2.43.0


From 55776e55ff25f09a2d9a56d937e54ad4348b4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 28/30] fix: header items may not cross the end of the header

---
 c/dec/brunsli_decode.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index db1a216..12f3530 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1141,6 +1141,10 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
           hs.stage = HeaderState::FINALE;
           break;
         }
+        // Items should not cross the end of the section.
+        if (IsOutOfSectionBounds(state)) {
+          return Fail(state, BRUNSLI_INVALID_BRN);
+        }
         BrunsliStatus status = ReadTag(state, &hs.section);
         if (status != BRUNSLI_OK) return Fail(state, status);
         const uint32_t tag_bit = 1u << hs.section.tag;
@@ -1158,6 +1162,9 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
       case HeaderState::ITEM_ENTER_SECTION: {
         BrunsliStatus status = DecodeBase128(state, &hs.remaining_skip_length);
         if (status != BRUNSLI_OK) return Fail(state, status);
+        if (hs.remaining_skip_length > RemainingSectionLength(state)) {
+          return Fail(state, BRUNSLI_INVALID_BRN);
+        }
         hs.stage = HeaderState::ITEM_SKIP_CONTENTS;
         break;
       }
-- 
2.43.0


From 3d92cb21639225fd084081da142bf6c9ac103fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 29/30] fix: do not serialize further sections while output
 waits

---
 c/dec/jpeg_data_writer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 4f81682..13dfa44 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1084,6 +1084,10 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
       }
 
       case SerializationState::SERIALIZE_SECTION: {
+        // Do not pile up the output that there is no room for.
+        if (!ss.output_queue.empty()) {
+          return SerializationStatus::NEEDS_MORE_OUTPUT;
+        }
         if (ss.section_index >= jpg.marker_order.size()) {
           ss.stage = SerializationState::DONE;
           break;
-- 
2.43.0


From 4579951ec5e6c47b98ba639e57957d23376411bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 30/30] fix: Apache module serves only regular files

---
 contrib/mod_brunsli/mod_brunsli.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index 8701c4f..cea4e1b 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -45,8 +45,7 @@ static int brunsli_handler(request_rec* const r) {
   filename = apr_psprintf(r->pool, "%s.j", r->filename);
 
   rc = apr_stat(&finfo, filename, APR_FINFO_MIN, r->pool);
-  if (!(rc == APR_SUCCESS && finfo.filetype != APR_NOFILE &&
-        (finfo.filetype & APR_DIR) == 0)) {
+  if (rc != APR_SUCCESS || finfo.filetype != APR_REG) {
     return DECLINED;
   }
 
-- 
2.43.0

