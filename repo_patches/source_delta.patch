From 0c8894aa61c66fd681d69ee59269a35864d68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 01/16] Add cfg(meerkat_verif) hooks exposing storage internals
 to external harnesses

---
 src/lib.rs                  | 23 +++++++++++++++++++++++
 src/main.rs                 | 19 +++++++++++++++++++
 src/store/block_index.rs    | 12 ++++++++++++
 src/store/encoding/mod.rs   | 14 ++++++++++++++
 src/store/io/mod.rs         | 27 +++++++++++++++++++++++++++
 src/store/mod.rs            |  3 +++
 src/store/segment_writer.rs | 16 ++++++++++++++++
 src/store/verif.rs          | 31 +++++++++++++++++++++++++++++++
 8 files changed, 145 insertions(+)
 create mode 100644 src/lib.rs
 create mode 100644 src/store/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..c4213d7
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,23 @@
+// Copyright 2022 The Meerkat Authors
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Verification-only library target.
+//!
+//! Empty unless built with `--cfg meerkat_verif`. It compiles the same storage
+//! modules as the `meerkat` binary and exposes them to external test harnesses.
+#![cfg(meerkat_verif)]
+#![allow(dead_code)]
+
+mod store;
+
+pub use crate::store::verif;
diff --git a/src/main.rs b/src/main.rs
index 0e253ee..314d933 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -65,9 +65,28 @@ fn main() {
             .collect(),
     };
 
+    #[cfg(meerkat_verif)]
+    verif::dump_config(&conf);
+
     let mut server = server::Meerkat::new(conf);
 
     // TODO(gvelo): add panic handler, signal handlers, etc.
 
     server.start();
 }
+
+/// Used by external verification harnesses to observe the effective config.
+#[cfg(meerkat_verif)]
+mod verif {
+    use std::os::unix::ffi::OsStrExt;
+
+    use crate::server::Config;
+
+    pub fn dump_config(conf: &Config) {
+        println!("VERIF db_path {:?}", conf.db_path.as_os_str().as_bytes());
+        println!("VERIF gossip_port {}", conf.gossip_port);
+        for seed in &conf.seeds {
+            println!("VERIF seed {:?}", seed.as_bytes());
+        }
+    }
+}
diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 267f1b6..221d4d1 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -49,3 +49,15 @@ impl BlockIndex {
         })
     }
 }
+
+/// Accessors used by external verification harnesses.
+#[cfg(meerkat_verif)]
+impl BlockIndex {
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        self.block_row_id
+            .iter()
+            .copied()
+            .zip(self.block_offset.iter().copied())
+            .collect()
+    }
+}
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index ca51f5f..59c602b 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -122,6 +122,20 @@ where
     }
 }
 
+/// Items exposed to external verification harnesses.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::bitmap_rle::{decode as rle_decode, Encoder as RleEncoder};
+    pub use super::offsets::OffsetEncoder;
+    pub use super::varint::{
+        decode_varint, encode_varint, encoded_len_varint, Encoder as PutVarint, MAX_VARINT_LEN,
+    };
+    pub use super::{
+        new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
+        BlockEncoder, BlockSink,
+    };
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 4d76897..3418834 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,6 +122,33 @@ where
     }
 }
 
+/// Items exposed to external verification harnesses.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::unix_disk_block_reader::Reader as DiskBlockReader;
+    pub use super::{BlockRange, BlockReader, BlockWriter, OpInfo, ReadOp};
+
+    pub fn range(start: u64, end: u64) -> BlockRange {
+        BlockRange { start, end }
+    }
+
+    pub fn read_op(start: u64, end: u64, op_info: OpInfo) -> ReadOp {
+        ReadOp {
+            block_range: range(start, end),
+            op_info,
+        }
+    }
+
+    pub fn outcome<B: AsRef<[u8]>>(
+        result: Result<super::Block<B>, super::BlockError>,
+    ) -> (OpInfo, std::io::Result<B>) {
+        match result {
+            Ok(block) => (block.op_info, Ok(block.buf)),
+            Err(err) => (err.op_info, Err(err.error)),
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use futures::StreamExt;
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 6dd47b7..16a45fd 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -19,3 +19,6 @@ mod indexing_buffer;
 mod io;
 mod segment_metadata;
 mod segment_writer;
+
+#[cfg(meerkat_verif)]
+pub mod verif;
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..1f2ddde 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -328,6 +328,22 @@ impl<'a, B> ColumnWriter<'a, B> {
     }
 }
 
+/// Entry points used by external verification harnesses.
+#[cfg(meerkat_verif)]
+impl SegmentWriter {
+    pub async fn verif_close(&mut self) -> Result<()> {
+        self.close().await
+    }
+
+    pub async fn verif_sync(self) -> Result<()> {
+        self.sync().await
+    }
+
+    pub fn verif_block_index(&self) -> Vec<(u32, u64)> {
+        self.block_index.verif_entries()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use tempfile::tempdir;
diff --git a/src/store/verif.rs b/src/store/verif.rs
new file mode 100644
index 0000000..c697bd7
--- /dev/null
+++ b/src/store/verif.rs
@@ -0,0 +1,31 @@
+// Copyright 2022 The Meerkat Authors
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Re-exports used by external verification harnesses.
+
+pub use super::block_index::BlockIndex;
+pub use super::block_sink::BlockSinkImpl;
+pub use super::encoding::verif as encoding;
+pub use super::io::verif as io;
+
+pub mod buffer {
+    pub use crate::store::indexing_buffer::*;
+}
+
+pub mod metadata {
+    pub use crate::store::segment_metadata::*;
+}
+
+pub mod segment {
+    pub use crate::store::segment_writer::*;
+}
-- 
2.43.0


From 8325909cb91f13dfa461c143eee2444d1ae32486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 02/16] fix: zero the bits of a cleared Bitmap

clear() only resized the backing storage, so bits set before the clear were
read back as set when a false bit was appended over them.
---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From 1dc1ab7ebc43864e46051a9ff19a8e85e9493653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 03/16] fix: let a Bitmap created with a capacity below 8 bits
 grow

The backing storage is empty in that case and doubling zero never grows it,
so the first append panicked.
---
 src/store/indexing_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..634a5ab 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -53,7 +53,7 @@ impl Bitmap {
         let idx = self.len >> 3;
 
         if idx == self.values.len() {
-            self.values.resize(self.values.len() * 2, 0);
+            self.values.resize((self.values.len() * 2).max(1), 0);
         }
 
         if set {
-- 
2.43.0


From 375f4d86ccd9ab7207102d15c178478f8d2fd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 04/16] fix: compare bytes with bytes when filling a leftover
 primitive block

The number of leftover values was compared with the block size in bytes, so a
filled leftover block was kept and the rest of the buffer was dropped.
---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From 18c1288814a477b7d11ab12f58374a06e967d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 05/16] fix: return absolute chunk end positions for binary
 buffers

find_position() runs over the offsets from start_pos on, so its position is
relative to start_pos. Any chunk after the first one was wrong.
---
 src/store/encoding/raw/binary_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..57bdf4f 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -237,7 +237,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 056515b4cf73bf9fa7170e7ff51a824f81519a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 06/16] fix: count only the rows of the block in nullable
 columns

num_rows included the rows that precede the block in its buffer, so the row
id of every block after the first one in a nullable buffer was wrong.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 57bdf4f..da2bbd8 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..7a379d7 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From a34f0c6d60e76deb3b40fa7e8615bcae058ad022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 07/16] fix: compute the offsets bit width over every pack

BitPacker4x::num_bits() only accepts a single pack of 128 values, so encoding
more than 128 offsets (or none) panicked.
---
 src/store/encoding/offsets.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..60ff3a4 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,11 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-- 
2.43.0


From 4b1a06bb4b34834c66d89db2e2adb4489e9175ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 08/16] fix: keep bit-packed offset packs whole

BitPacker4x spreads consecutive values over four interleaved lanes, so cutting
the last pack after ceil(num_bits * num_values / 8) bytes dropped bits of real
offsets, not padding.
---
 src/store/encoding/offsets.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 60ff3a4..723b835 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -33,9 +33,9 @@ impl OffsetEncoder {
     /// │      1 Byte       │         N Byte          │
     /// └───────────────────┴─────────────────────────┘
     /// ```
+    /// Packs are always stored whole: BitPacker4x interleaves the values, so
+    /// the padding of the last pack cannot be trimmed.
     pub fn encode(&mut self, src: &mut Vec<u32>, dst: &mut Vec<u8>) {
-        let num_values = src.len();
-
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
@@ -47,9 +47,7 @@ impl OffsetEncoder {
 
         dst.push(num_bits);
 
-        let encoded_data_start = dst.len();
-
-        let mut chunk_start = encoded_data_start;
+        let mut chunk_start = dst.len();
 
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
 
@@ -59,10 +57,5 @@ impl OffsetEncoder {
                 .compress(chunk, &mut dst[chunk_start..], num_bits);
             chunk_start += compressed_len;
         }
-
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
-
-        dst.resize(encoded_data_len, 0);
     }
 }
-- 
2.43.0


From 58703cbe107f856cbda7752dc9095cf72473923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 09/16] fix: keep the nulls that follow the last value of a
 buffer

Validity bits were copied and encoded only up to the last non-null value, so
trailing nulls and buffers holding nothing but nulls were dropped and every
later row was shifted.
---
 src/store/encoding/bitmap_rle.rs        |  8 ++++++
 src/store/encoding/raw/binary_enc.rs    |  9 ++++---
 src/store/encoding/raw/primitive_enc.rs | 17 ++++++++++---
 src/store/indexing_buffer.rs            | 33 +++++++++++++++++++++++--
 4 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 1e3b342..28279a5 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -80,6 +80,14 @@ impl Encoder {
         bit_pos
     }
 
+    /// encode the bits of `bitmap` from `start_pos` to its end.
+    pub fn put_tail(&mut self, bitmap: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..bitmap.len() {
+            self.put(bitmap.is_set(bit_pos));
+        }
+        bitmap.len()
+    }
+
     /// flush the internal buffer and encode pending values.
     /// once the encoder is flushed use `encoded_values()` to access the encoded
     /// buffer.
diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index da2bbd8..e0ffc61 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -125,7 +125,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -162,7 +162,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -203,7 +203,10 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            if chunk.end_pos == buf.len() {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 7a379d7..c2a5f21 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -111,7 +111,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -149,11 +149,19 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             validity_pos = result.last_validity_pos;
         }
 
+        // nulls of a buffer without values.
+        if let Some(validity) = buffer.validity() {
+            if validity_pos < validity.len() {
+                self.remaining
+                    .append_from(buffer, buf_pos, buf_pos, validity_pos);
+            }
+        }
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -181,7 +189,10 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            if end == buf.len() {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 634a5ab..7116dac 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -75,6 +75,14 @@ impl Bitmap {
         bit_pos
     }
 
+    /// Append the bits of `src` from `start_pos` to its end.
+    pub fn append_tail(&mut self, src: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..src.len() {
+            self.append(src.is_set(bit_pos));
+        }
+        src.len()
+    }
+
     pub fn is_set(&self, idx: usize) -> bool {
         assert!(idx < self.len);
         (self.values[idx >> 3] & BIT_MASK[idx & 7]) != 0
@@ -128,6 +136,10 @@ impl<T: Clone> PrimitiveBuffer<T> {
         }
     }
 
+    /// Append the values of `buf` from `start` to `end` and the nulls that
+    /// precede each one. Trailing nulls are appended along with the last
+    /// value of `buf`.
+    /// Returns the position in the `buf` validity bitmap of the next item.
     pub fn append_from(
         &mut self,
         buf: &PrimitiveBuffer<T>,
@@ -147,7 +159,13 @@ impl<T: Clone> PrimitiveBuffer<T> {
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
 
-            validity_dst.append_from(validity_src, validity_pos, num_values)
+            let next_pos = validity_dst.append_from(validity_src, validity_pos, num_values);
+
+            if end == buf.len() {
+                return validity_dst.append_tail(validity_src, next_pos);
+            }
+
+            next_pos
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             num_values
@@ -246,6 +264,10 @@ impl BinaryBuffer {
         self.offsets[idx + 1] - self.offsets[idx]
     }
 
+    /// Append the values of `buf` from `start` to `end` and the nulls that
+    /// precede each one. Trailing nulls are appended along with the last
+    /// value of `buf`.
+    /// Returns the position in the `buf` validity bitmap of the next item.
     pub fn append_from(
         &mut self,
         buf: &BinaryBuffer,
@@ -274,7 +296,14 @@ impl BinaryBuffer {
                 .validity
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
-            validity_dst.append_from(validity_src, validity_pos, chunk_len)
+
+            let next_pos = validity_dst.append_from(validity_src, validity_pos, chunk_len);
+
+            if end == buf.len() {
+                return validity_dst.append_tail(validity_src, next_pos);
+            }
+
+            next_pos
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             chunk_len
-- 
2.43.0


From 6ea813bf841212d43d546c04063b5f866f14c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 10/16] fix: use 128KiB segment blocks

The block size is documented as 128k but 1 << 7 is 128 bytes.
---
 src/store/segment_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 1f2ddde..8110eb7 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -109,7 +109,7 @@ const DATA_FILE_SIGNATURE: [u8; 13] = *b"MEERKAT_DATA1";
 const INDEX_FILE_SIGNATURE: [u8; 12] = *b"MEERKAT_IDX1";
 const DATA_FILE_EXT: &str = "dat";
 const INDEX_FILE_EXT: &str = "idx";
-const BLOCK_SIZE: u32 = 1 << 7; // 128k block size
+const BLOCK_SIZE: u32 = 1 << 17; // 128k block size
 
 /// ColumnInfo provides details about the column to be indexed.
 pub struct ColumnInfo {
-- 
2.43.0


From 7e76add3e52fd4adc7313d56d4f69c2ae354d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 11/16] fix: do not take blank entries as seeds

Without MK_SEEDS/--seeds the seed list held one empty host name, as it did for
stray commas.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 314d933..7a51df8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -62,6 +62,7 @@ fn main() {
             .unwrap_or_default()
             .split(',')
             .map(|s| s.trim().to_string())
+            .filter(|s| !s.is_empty())
             .collect(),
     };
 
-- 
2.43.0


From 9ebb426c1682775ef8b8fe2c2d5be7a1f3b29359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 12/16] fix: reject block ranges outside of the file before
 allocating

The buffer was allocated from the requested range alone, so a range far past
the end of the file (i.e. from a corrupted index) aborted the process instead of
failing the read.
---
 src/store/io/unix_disk_block_reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/store/io/unix_disk_block_reader.rs b/src/store/io/unix_disk_block_reader.rs
index a5fa3ee..2c878a1 100644
--- a/src/store/io/unix_disk_block_reader.rs
+++ b/src/store/io/unix_disk_block_reader.rs
@@ -60,6 +60,13 @@ impl BlockReader for Reader {
     type Buf = Vec<u8>;
 
     async fn read_block(&self, range: BlockRange) -> io::Result<Self::Buf> {
+        if range.start > range.end || range.end > self.len {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "block range outside of the file",
+            ));
+        }
+
         let file = self.file.clone();
         asyncify(move || {
             let buf_len = range.end - range.start;
-- 
2.43.0


From 9e59a8028d0abec05a769364541d2c97dfda18c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 13/16] fix: store 32 bits wide offset packs as plain words

BitPacker4x::compress() of bitpacking 0.5 loses the first four values of a
32 bits wide pack, so the lengths of items of 2GiB or more were unreadable.
---
 src/store/encoding/offsets.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 723b835..473f89a 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -51,6 +51,15 @@ impl OffsetEncoder {
 
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
 
+        // A full width pack is a sequence of plain words. `compress()` cannot be
+        // used here, it loses the first words of a 32 bits pack.
+        if num_bits == u32::BITS as u8 {
+            for (word, value) in dst[chunk_start..].chunks_exact_mut(4).zip(src.iter()) {
+                word.copy_from_slice(&value.to_le_bytes());
+            }
+            return;
+        }
+
         for chunk in src.chunks(BitPacker4x::BLOCK_LEN) {
             let compressed_len = self
                 .bitpacker
-- 
2.43.0


From db03eb3dc14c97bfefbb73032feacdb01d732d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 14/16] Guard the verification hooks by area

---
 src/store/block_index.rs    | 2 +-
 src/store/encoding/mod.rs   | 4 ++++
 src/store/io/mod.rs         | 2 +-
 src/store/segment_writer.rs | 3 ++-
 src/store/verif.rs          | 7 ++++++-
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 221d4d1..d9d32e8 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -51,7 +51,7 @@ impl BlockIndex {
 }
 
 /// Accessors used by external verification harnesses.
-#[cfg(meerkat_verif)]
+#[cfg(all(meerkat_verif, not(meerkat_verif_no_entries)))]
 impl BlockIndex {
     pub fn verif_entries(&self) -> Vec<(u32, u64)> {
         self.block_row_id
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index 59c602b..c79c46b 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -125,11 +125,15 @@ where
 /// Items exposed to external verification harnesses.
 #[cfg(meerkat_verif)]
 pub mod verif {
+    #[cfg(not(meerkat_verif_no_rle))]
     pub use super::bitmap_rle::{decode as rle_decode, Encoder as RleEncoder};
+    #[cfg(not(meerkat_verif_no_offsets))]
     pub use super::offsets::OffsetEncoder;
+    #[cfg(not(meerkat_verif_no_varint))]
     pub use super::varint::{
         decode_varint, encode_varint, encoded_len_varint, Encoder as PutVarint, MAX_VARINT_LEN,
     };
+    #[cfg(not(meerkat_verif_no_encoders))]
     pub use super::{
         new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
         BlockEncoder, BlockSink,
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 3418834..55baf1c 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -123,7 +123,7 @@ where
 }
 
 /// Items exposed to external verification harnesses.
-#[cfg(meerkat_verif)]
+#[cfg(all(meerkat_verif, not(meerkat_verif_no_io)))]
 pub mod verif {
     pub use super::unix_disk_block_reader::Reader as DiskBlockReader;
     pub use super::{BlockRange, BlockReader, BlockWriter, OpInfo, ReadOp};
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 8110eb7..26b48e4 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -329,7 +329,7 @@ impl<'a, B> ColumnWriter<'a, B> {
 }
 
 /// Entry points used by external verification harnesses.
-#[cfg(meerkat_verif)]
+#[cfg(all(meerkat_verif, not(meerkat_verif_no_segment)))]
 impl SegmentWriter {
     pub async fn verif_close(&mut self) -> Result<()> {
         self.close().await
@@ -339,6 +339,7 @@ impl SegmentWriter {
         self.sync().await
     }
 
+    #[cfg(not(meerkat_verif_no_entries))]
     pub fn verif_block_index(&self) -> Vec<(u32, u64)> {
         self.block_index.verif_entries()
     }
diff --git a/src/store/verif.rs b/src/store/verif.rs
index c697bd7..639e973 100644
--- a/src/store/verif.rs
+++ b/src/store/verif.rs
@@ -11,11 +11,15 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-//! Re-exports used by external verification harnesses.
+//! Re-exports used by external verification harnesses. Each area can be left out
+//! with `--cfg meerkat_verif_no_<area>`.
 
+#[cfg(not(meerkat_verif_no_entries))]
 pub use super::block_index::BlockIndex;
+#[cfg(not(meerkat_verif_no_entries))]
 pub use super::block_sink::BlockSinkImpl;
 pub use super::encoding::verif as encoding;
+#[cfg(not(meerkat_verif_no_io))]
 pub use super::io::verif as io;
 
 pub mod buffer {
@@ -26,6 +30,7 @@ pub mod metadata {
     pub use crate::store::segment_metadata::*;
 }
 
+#[cfg(not(meerkat_verif_no_segment))]
 pub mod segment {
     pub use crate::store::segment_writer::*;
 }
-- 
2.43.0


From 75f8d2703cfd519402659ef2bfae34c4893b99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 15/16] fix: reject varints that do not fit in 64 bits

---
 src/store/encoding/varint.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/varint.rs b/src/store/encoding/varint.rs
index 673f0ba..d0c7972 100644
--- a/src/store/encoding/varint.rs
+++ b/src/store/encoding/varint.rs
@@ -120,11 +120,12 @@ pub fn decode_varint(buf: &[u8]) -> Result<(u64, usize)> {
     part2 -= 0x80;
     b = buf[9];
     part2 += u32::from(b) << 7;
-    if b < 0x80 {
+    if b < 0x02 {
         return Ok((value + (u64::from(part2) << 56), 10));
     };
 
-    // We have overrun the maximum size of a varint (10 bytes). Assume the data is corrupt.
+    // We have overrun the maximum size of a varint (10 bytes) or its value does not fit in 64
+    // bits. Assume the data is corrupt.
     Err(anyhow!("invalid varint"))
 }
 
-- 
2.43.0


From 1636b0f98d28ab3162924b87bebc39c830c6273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 16/16] fix: refuse validity runs past the last row number
 instead of wrapping

---
 src/store/encoding/bitmap_rle.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 28279a5..79a25c8 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -218,7 +218,7 @@ struct Decoder<'a> {
     decoded_data: &'a mut [u32],
     encoded_data_pos: usize,
     decoded_data_pos: usize,
-    bitmap_pos: u32,
+    bitmap_pos: u64,
 }
 
 impl<'a> Decoder<'a> {
@@ -277,13 +277,12 @@ impl<'a> Decoder<'a> {
 
     fn decode_run(&mut self, len: u32, value: u8) {
         match value {
-            0x00 => self.bitmap_pos += len << 3,
+            0x00 => self.bitmap_pos += u64::from(len) << 3,
             0xFF => {
-                let bitmap_len = len << 3;
+                let bitmap_len = u64::from(len) << 3;
                 for _ in 0..bitmap_len {
-                    self.decoded_data[self.decoded_data_pos] = self.bitmap_pos;
+                    self.push_position();
                     self.bitmap_pos += 1;
-                    self.decoded_data_pos += 1;
                 }
             }
             _ => {
@@ -303,12 +302,19 @@ impl<'a> Decoder<'a> {
     fn decode_byte(&mut self, byte: u8) {
         for mask in BIT_MASK {
             if byte & mask != 0 {
-                self.decoded_data[self.decoded_data_pos] = self.bitmap_pos;
-                self.decoded_data_pos += 1;
+                self.push_position();
             };
             self.bitmap_pos += 1;
         }
     }
+
+    fn push_position(&mut self) {
+        self.decoded_data[self.decoded_data_pos] = self
+            .bitmap_pos
+            .try_into()
+            .expect("cannot decode bitmap, position overflow");
+        self.decoded_data_pos += 1;
+    }
 }
 
 pub fn decode(encoded_data: &[u8], decoded_data: &mut [u32]) {
-- 
2.43.0

