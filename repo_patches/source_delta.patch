From 2785a8b51a00cc6a595d9a9df9751f1a94d13b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 01/18] verif: add guarded hooks (cfg meerkat_verif) for the
 monitoring harness

---
 src/lib.rs                  | 21 +++++++++++++++++++++
 src/main.rs                 |  5 +++++
 src/store/block_index.rs    | 13 +++++++++++++
 src/store/encoding/mod.rs   | 10 ++++++++++
 src/store/io/mod.rs         | 26 ++++++++++++++++++++++++++
 src/store/mod.rs            | 19 +++++++++++++++++++
 src/store/segment_writer.rs | 18 ++++++++++++++++++
 7 files changed, 112 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..8dbc7f0
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,21 @@
+// Copyright 2021 The Meerkat Authors
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Library view of the crate, compiled only for the verification harness
+//! (`RUSTFLAGS="--cfg meerkat_verif"`). It is empty in a regular build.
+#![cfg(meerkat_verif)]
+#![allow(unexpected_cfgs, dead_code, unused)]
+
+pub mod build;
+pub mod server;
+pub mod store;
diff --git a/src/main.rs b/src/main.rs
index 0e253ee..3677534 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,6 +11,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#![allow(unexpected_cfgs)]
+
 use std::path::PathBuf;
 
 use structopt::clap::AppSettings;
@@ -65,6 +67,9 @@ fn main() {
             .collect(),
     };
 
+    #[cfg(meerkat_verif)]
+    eprintln!("VERIF-CONFIG {:?}", conf);
+
     let mut server = server::Meerkat::new(conf);
 
     // TODO(gvelo): add panic handler, signal handlers, etc.
diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 267f1b6..d8c77f5 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -49,3 +49,16 @@ impl BlockIndex {
         })
     }
 }
+
+#[cfg(meerkat_verif)]
+impl BlockIndex {
+    /// The indexed `(row_id, offset)` pairs, in order.
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        assert_eq!(self.block_row_id.len(), self.block_offset.len());
+        self.block_row_id
+            .iter()
+            .copied()
+            .zip(self.block_offset.iter().copied())
+            .collect()
+    }
+}
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index ca51f5f..d298b8b 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -122,6 +122,16 @@ where
     }
 }
 
+/// Re-exports for the verification harness.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::bitmap_rle::{decode as rle_decode, Encoder as RleEncoder};
+    pub use super::offsets::OffsetEncoder;
+    pub use super::varint::{
+        decode_varint, encode_varint, encoded_len_varint, Encoder as PutVarint,
+    };
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 4d76897..920c12c 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,6 +122,32 @@ where
     }
 }
 
+/// Re-exports and constructors for the verification harness.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::unix_disk_block_reader::Reader as BlockFileReader;
+    pub use super::{Block, BlockError, BlockRange, BlockReader, BlockWriter, OpInfo, ReadOp};
+
+    pub fn range(start: u64, end: u64) -> BlockRange {
+        BlockRange { start, end }
+    }
+
+    pub fn read_op(start: u64, end: u64, op_info: OpInfo) -> ReadOp {
+        ReadOp {
+            block_range: range(start, end),
+            op_info,
+        }
+    }
+
+    pub fn block_parts<B: AsRef<[u8]>>(block: Block<B>) -> (B, OpInfo) {
+        (block.buf, block.op_info)
+    }
+
+    pub fn error_parts(err: BlockError) -> (std::io::Error, OpInfo) {
+        (err.error, err.op_info)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use futures::StreamExt;
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 6dd47b7..f067df7 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -19,3 +19,22 @@ mod indexing_buffer;
 mod io;
 mod segment_metadata;
 mod segment_writer;
+
+/// Re-exports for the verification harness.
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub use super::encoding::verif as codec;
+    pub use super::encoding::{
+        new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
+        BlockEncoder, BlockSink,
+    };
+    pub use super::indexing_buffer::{
+        BinaryBuffer, Bitmap, BoolBuffer, Float64Buffer, Int32Buffer, Int64Buffer, PrimitiveBuffer,
+        Uint64Buffer,
+    };
+    pub use super::io::verif as io;
+    pub use super::segment_metadata::{
+        column_layout::EncoderLayout, ColumnType, Encoding, IndexType,
+    };
+    pub use super::segment_writer::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
+}
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..3582f51 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -328,6 +328,24 @@ impl<'a, B> ColumnWriter<'a, B> {
     }
 }
 
+/// Access to the private half of the segment life cycle for the verification
+/// harness.
+#[cfg(meerkat_verif)]
+impl SegmentWriter {
+    pub async fn verif_close(&mut self) -> Result<()> {
+        self.close().await
+    }
+
+    pub async fn verif_sync(self) -> Result<()> {
+        self.sync().await
+    }
+
+    /// The `(row_id, offset)` entries indexed for the last column.
+    pub fn verif_block_index(&self) -> Vec<(u32, u64)> {
+        self.block_index.verif_entries()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use tempfile::tempdir;
-- 
2.43.0


From 46f165bdef0e577629a5c1269a75d661d7b74ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 02/18] fix: clear the bits of a Bitmap when it is cleared

Bitmap::clear only reset the length, so bits set before the call were
still set when the same positions were appended again as unset.
---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From 62526d26c443c365589c10a46aefec2dc0271f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 03/18] fix: let a Bitmap created with less than 8 bits of
 capacity grow

with_capacity(cap) with cap < 8 allocates no bytes and doubling a zero
length never makes room, so the first append panicked.
---
 src/store/indexing_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..634a5ab 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -53,7 +53,7 @@ impl Bitmap {
         let idx = self.len >> 3;
 
         if idx == self.values.len() {
-            self.values.resize(self.values.len() * 2, 0);
+            self.values.resize((self.values.len() * 2).max(1), 0);
         }
 
         if set {
-- 
2.43.0


From af3836359bef081725ea7a8607b1a698656cf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 04/18] fix: compute binary block boundaries relative to the
 whole buffer

chunk() searches the offsets from start_pos on but used the position it
found as an index into the whole buffer, so every block after the first
of a buffer got a wrong end (duplicated or missing values, or an
underflow). The loop also ran once past the last item, because there is
one more offset than there are items.
---
 src/store/encoding/raw/binary_enc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..9b0b185 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -144,7 +144,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             self.remaining.clear();
         }
 
-        while buf_pos < buffer.offsets().len() {
+        while buf_pos < buffer.len() {
             let chunk = chunk(&buffer, buf_pos, self.min_block_size);
             if (chunk.size as u64) < self.min_block_size {
                 self.remaining
@@ -237,7 +237,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 2b5aafb1e4446ccbefdf60be6fc8d8a9e863ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 05/18] fix: compare the buffered primitive values with the
 block size in bytes

The number of pending values was compared with min_block_size, which is
in bytes, so blocks spanning two buffers grew past the block size and
the next encode() underflowed.
---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From b854d159a5030e109b48f27dad541e2fde7ce98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 06/18] fix: count only the rows of the block in the row ids of
 nullable columns

num_rows was the absolute position in the validity bitmap, so every block
after the first of a buffer counted the previous rows again.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 9b0b185..8a0df67 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..7a379d7 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From 855f87cb2676d8f5908697e131695a5255573a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 07/18] fix: keep the nulls at the end of a buffer

The encoders dropped the nulls that follow the last value of a buffer (and
buffers that hold only nulls), so their rows vanished from the segment
and the rows of the next buffers were shifted. They are now kept with the
pending values and written with the next block.
---
 src/store/encoding/raw/binary_enc.rs    | 40 +++++++++++++++++++++----
 src/store/encoding/raw/primitive_enc.rs | 35 ++++++++++++++++++----
 2 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 8a0df67..911e2bb 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -69,6 +69,7 @@ impl Encoder {
             buf,
             chunk,
             bit_pos,
+            false,
             &mut self.encoded_data,
             &mut self.offset_deltas,
             &mut self.bitmap_encoder,
@@ -97,6 +98,7 @@ impl Encoder {
             &self.remaining,
             &chunk,
             0,
+            true,
             &mut self.encoded_data,
             &mut self.offset_deltas,
             &mut self.bitmap_encoder,
@@ -111,6 +113,16 @@ impl Encoder {
         Ok(result)
     }
 
+    /// Keep the nulls that follow the last value of the buffer, they belong
+    /// to the next block.
+    fn append_trailing_nulls(&mut self, buffer: &BinaryBuffer, validity_pos: usize) {
+        if let Some(validity) = buffer.validity() {
+            for _ in validity_pos..validity.len() {
+                self.remaining.append_null();
+            }
+        }
+    }
+
     fn add_rows(&mut self, num_rows: usize) {
         self.num_rows = self
             .num_rows
@@ -125,7 +137,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -136,6 +148,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             buf_pos = chunk.end_pos;
 
             if self.remaining.data().len() < self.min_block_size as usize {
+                self.append_trailing_nulls(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -147,9 +160,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         while buf_pos < buffer.len() {
             let chunk = chunk(&buffer, buf_pos, self.min_block_size);
             if (chunk.size as u64) < self.min_block_size {
-                self.remaining
-                    .append_from(buffer, chunk.start_pos, chunk.end_pos, validity_pos);
-                return Ok(());
+                validity_pos = self.remaining.append_from(
+                    buffer,
+                    chunk.start_pos,
+                    chunk.end_pos,
+                    validity_pos,
+                );
+                break;
             }
 
             let result = self.write_block(buffer, &chunk, validity_pos, sink).await?;
@@ -158,11 +175,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             validity_pos = result.last_validity_pos;
         }
 
+        self.append_trailing_nulls(buffer, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -176,10 +195,13 @@ struct EncodeResult {
     last_validity_pos: usize,
 }
 
+/// Encode a chunk of the buffer. The nulls that follow the last value of the
+/// chunk are only part of the block when `trailing_nulls` is set.
 fn encode_binary_buffer(
     buf: &BinaryBuffer,
     chunk: &BinaryChunk,
     bit_pos: usize,
+    trailing_nulls: bool,
     encoded_data: &mut Vec<u8>,
     offset_deltas: &mut Vec<u32>,
     bitmap_encoder: &mut bitmap_rle::Encoder,
@@ -203,7 +225,13 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            if trailing_nulls {
+                while last_bit_pos < validity.len() {
+                    bitmap_encoder.put(false);
+                    last_bit_pos += 1;
+                }
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 7a379d7..984f5c2 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -65,6 +65,7 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             start,
             end,
             bit_pos,
+            false,
             &mut self.encoded_data,
             &mut self.bitmap_encoder,
         );
@@ -83,6 +84,7 @@ impl<T: Send + Sync + Clone> Encoder<T> {
             0,
             self.remaining.len(),
             0,
+            true,
             &mut self.encoded_data,
             &mut self.bitmap_encoder,
         );
@@ -95,6 +97,16 @@ impl<T: Send + Sync + Clone> Encoder<T> {
         Ok(result)
     }
 
+    /// Keep the nulls that follow the last value of the buffer, they belong
+    /// to the next block.
+    fn append_trailing_nulls(&mut self, buffer: &PrimitiveBuffer<T>, validity_pos: usize) {
+        if let Some(validity) = buffer.validity() {
+            for _ in validity_pos..validity.len() {
+                self.remaining.append_null();
+            }
+        }
+    }
+
     fn add_rows(&mut self, num_rows: usize) {
         self.num_rows = self
             .num_rows
@@ -111,7 +123,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -121,6 +133,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             buf_pos = chunk_end;
 
             if self.remaining.len() * size_of::<T>() < self.min_block_size {
+                self.append_trailing_nulls(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -136,9 +149,10 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             let chunk_size = chunk_len * size_of::<T>();
 
             if chunk_size < self.min_block_size {
-                self.remaining
+                validity_pos = self
+                    .remaining
                     .append_from(buffer, buf_pos, chunk_end, validity_pos);
-                return Ok(());
+                break;
             }
 
             let result = self
@@ -149,11 +163,13 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             validity_pos = result.last_validity_pos;
         }
 
+        self.append_trailing_nulls(buffer, validity_pos);
+
         Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -161,11 +177,14 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
     }
 }
 
+/// Encode a range of the buffer. The nulls that follow the last value of the
+/// range are only part of the block when `trailing_nulls` is set.
 fn encode_primitive_buffer<T: Clone>(
     buf: &PrimitiveBuffer<T>,
     start: usize,
     end: usize,
     bit_pos: usize,
+    trailing_nulls: bool,
     encoded_data: &mut Vec<u8>,
     bitmap_encoder: &mut bitmap_rle::Encoder,
 ) -> EncodeResult {
@@ -181,7 +200,13 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            if trailing_nulls {
+                while last_bit_pos < validity.len() {
+                    bitmap_encoder.put(false);
+                    last_bit_pos += 1;
+                }
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
-- 
2.43.0


From cd587a989b212628f208daf3e56f0f917338a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 08/18] fix: encode any number of offsets, without losing the
 last ones

BitPacker4x::num_bits() only takes blocks of 128 values, so encoding the
offsets of a block with any other number of items (after padding)
panicked. BitPacker4x interleaves the values of a block, so cutting the
encoded data after num_bits * num_values bits drops parts of real values
and made the end of the offsets unknown to a reader.
---
 src/store/encoding/offsets.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..bf20af3 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -34,18 +34,18 @@ impl OffsetEncoder {
     /// └───────────────────┴─────────────────────────┘
     /// ```
     pub fn encode(&mut self, src: &mut Vec<u32>, dst: &mut Vec<u8>) {
-        let num_values = src.len();
-
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-        let encoded_data_start = dst.len();
-
-        let mut chunk_start = encoded_data_start;
+        let mut chunk_start = dst.len();
 
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
 
@@ -55,10 +55,5 @@ impl OffsetEncoder {
                 .compress(chunk, &mut dst[chunk_start..], num_bits);
             chunk_start += compressed_len;
         }
-
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
-
-        dst.resize(encoded_data_len, 0);
     }
 }
-- 
2.43.0


From 553c92afe17d76648e86c0ec75649735cee700ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 09/18] fix: make the block size 128k, as documented

1 << 7 is 128 bytes.
---
 src/store/segment_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 3582f51..52799b4 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -109,7 +109,7 @@ const DATA_FILE_SIGNATURE: [u8; 13] = *b"MEERKAT_DATA1";
 const INDEX_FILE_SIGNATURE: [u8; 12] = *b"MEERKAT_IDX1";
 const DATA_FILE_EXT: &str = "dat";
 const INDEX_FILE_EXT: &str = "idx";
-const BLOCK_SIZE: u32 = 1 << 7; // 128k block size
+const BLOCK_SIZE: u32 = 1 << 17; // 128k block size
 
 /// ColumnInfo provides details about the column to be indexed.
 pub struct ColumnInfo {
-- 
2.43.0


From daae3654b10173436c0c84f8741bcf2542ae1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 10/18] fix: report invalid block ranges as errors

An inverted range underflowed, and the buffer for a range that is larger
than the file was allocated before the read could fail, which aborts the
process on a corrupt range.
---
 src/store/io/unix_disk_block_reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store/io/unix_disk_block_reader.rs b/src/store/io/unix_disk_block_reader.rs
index a5fa3ee..5e4bae2 100644
--- a/src/store/io/unix_disk_block_reader.rs
+++ b/src/store/io/unix_disk_block_reader.rs
@@ -62,7 +62,13 @@ impl BlockReader for Reader {
     async fn read_block(&self, range: BlockRange) -> io::Result<Self::Buf> {
         let file = self.file.clone();
         asyncify(move || {
-            let buf_len = range.end - range.start;
+            let buf_len = range.end.checked_sub(range.start).ok_or_else(|| {
+                io::Error::new(io::ErrorKind::InvalidInput, "invalid block range")
+            })?;
+            // check the range before allocating the buffer for it.
+            if range.end > file.metadata()?.len() {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             let mut buf: Vec<u8> = vec![0; buf_len as usize];
             file.read_exact_at(buf.as_mut_slice(), range.start)
                 .map(|_| buf)
-- 
2.43.0


From 557c27a7fde311ef4611e080fa3fee2cd6288d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 11/18] fix: do not bootstrap from empty seeds

Without --seeds, or with a trailing comma, the list of seeds held an empty
hostname.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 3677534..cec5aaa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -64,6 +64,7 @@ fn main() {
             .unwrap_or_default()
             .split(',')
             .map(|s| s.trim().to_string())
+            .filter(|s| !s.is_empty())
             .collect(),
     };
 
-- 
2.43.0


From c5c79ff69d79ab5f9025bc084687dfdd87438f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 12/18] fix: report the write errors that sync() discarded

tokio's File::sync_all() waits for the pending write but drops its error,
so a sync after a failed write succeeded without the data in the file.
---
 src/store/io/default_block_writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index c9b14f1..1df9c4a 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -48,6 +48,8 @@ impl Writer {
     /// This function will attempt to ensure that all in-core data reaches
     /// the filesystem before returning.
     pub async fn sync(&mut self) -> std::io::Result<()> {
+        // report the errors of pending writes, sync_all() discards them.
+        self.file.flush().await?;
         self.file.sync_all().await
     }
 
-- 
2.43.0


From 4637d592bdfea45d9455b32982bcd07fa3a997c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 13/18] fix: store offsets that need 32 bits without
 BitPacker4x

bitpacking 0.5.1 never writes the first four values of a block when it
packs with 32 bits, so the length of a value of 2 GiB or more, or of its
neighbours, was lost.
---
 src/store/encoding/offsets.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index bf20af3..51b48c3 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -45,6 +45,15 @@ impl OffsetEncoder {
 
         dst.push(num_bits);
 
+        // BitPacker4x drops the first values of a block packed with 32 bits.
+        // Packing to the full width is just a copy.
+        if num_bits == 32 {
+            for value in src.iter() {
+                dst.extend_from_slice(&value.to_le_bytes());
+            }
+            return;
+        }
+
         let mut chunk_start = dst.len();
 
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
-- 
2.43.0


From 981a726e66645ac82626acd34560c05d2a621c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 14/18] verif: print the configuration the server starts with
 (cfg meerkat_verif)

---
 src/main.rs       | 3 ---
 src/server/mod.rs | 2 ++
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cec5aaa..dd757e7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -68,9 +68,6 @@ fn main() {
             .collect(),
     };
 
-    #[cfg(meerkat_verif)]
-    eprintln!("VERIF-CONFIG {:?}", conf);
-
     let mut server = server::Meerkat::new(conf);
 
     // TODO(gvelo): add panic handler, signal handlers, etc.
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 1838e23..275a95f 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -37,6 +37,8 @@ impl Meerkat {
         self.init_logging();
         let span = span!(Level::TRACE, "meerkat");
         let _guard = span.enter();
+        #[cfg(meerkat_verif)]
+        eprintln!("VERIF-CONFIG {:?}", self.conf);
         info!("starting");
     }
 
-- 
2.43.0


From 9bbde51ef1c39b28f592697b57d36af6c737bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 15/18] verif: guards that let the harness build without single
 hooks

---
 src/store/block_index.rs    | 2 +-
 src/store/encoding/mod.rs   | 2 +-
 src/store/mod.rs            | 1 +
 src/store/segment_writer.rs | 6 ++++++
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index d8c77f5..284fa93 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -50,7 +50,7 @@ impl BlockIndex {
     }
 }
 
-#[cfg(meerkat_verif)]
+#[cfg(all(meerkat_verif, not(meerkat_verif_no_index)))]
 impl BlockIndex {
     /// The indexed `(row_id, offset)` pairs, in order.
     pub fn verif_entries(&self) -> Vec<(u32, u64)> {
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index d298b8b..6c299fd 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -123,7 +123,7 @@ where
 }
 
 /// Re-exports for the verification harness.
-#[cfg(meerkat_verif)]
+#[cfg(all(meerkat_verif, not(meerkat_verif_no_codec)))]
 pub mod verif {
     pub use super::bitmap_rle::{decode as rle_decode, Encoder as RleEncoder};
     pub use super::offsets::OffsetEncoder;
diff --git a/src/store/mod.rs b/src/store/mod.rs
index f067df7..689e303 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -23,6 +23,7 @@ mod segment_writer;
 /// Re-exports for the verification harness.
 #[cfg(meerkat_verif)]
 pub mod verif {
+    #[cfg(not(meerkat_verif_no_codec))]
     pub use super::encoding::verif as codec;
     pub use super::encoding::{
         new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 52799b4..216b431 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -340,7 +340,13 @@ impl SegmentWriter {
         self.sync().await
     }
 
+    /// The length of the data file so far.
+    pub fn verif_data_len(&self) -> u64 {
+        self.data_writer.pos()
+    }
+
     /// The `(row_id, offset)` entries indexed for the last column.
+    #[cfg(not(meerkat_verif_no_index))]
     pub fn verif_block_index(&self) -> Vec<(u32, u64)> {
         self.block_index.verif_entries()
     }
-- 
2.43.0


From 87ab4310a7da352faef1bebb07c4107bf08ff8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 16/18] fix: refuse set bits past 32-bit positions when
 decoding validity

The position in the bitmap was kept in 32 bits and run lengths were shifted
without a check, so that a damaged encoding with a long run decoded to
positions that start over.
---
 src/store/encoding/bitmap_rle.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 1e3b342..d3118b3 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -210,7 +210,7 @@ struct Decoder<'a> {
     decoded_data: &'a mut [u32],
     encoded_data_pos: usize,
     decoded_data_pos: usize,
-    bitmap_pos: u32,
+    bitmap_pos: u64,
 }
 
 impl<'a> Decoder<'a> {
@@ -269,13 +269,12 @@ impl<'a> Decoder<'a> {
 
     fn decode_run(&mut self, len: u32, value: u8) {
         match value {
-            0x00 => self.bitmap_pos += len << 3,
+            0x00 => self.bitmap_pos += u64::from(len) << 3,
             0xFF => {
-                let bitmap_len = len << 3;
+                let bitmap_len = u64::from(len) << 3;
                 for _ in 0..bitmap_len {
-                    self.decoded_data[self.decoded_data_pos] = self.bitmap_pos;
+                    self.put_position();
                     self.bitmap_pos += 1;
-                    self.decoded_data_pos += 1;
                 }
             }
             _ => {
@@ -295,12 +294,19 @@ impl<'a> Decoder<'a> {
     fn decode_byte(&mut self, byte: u8) {
         for mask in BIT_MASK {
             if byte & mask != 0 {
-                self.decoded_data[self.decoded_data_pos] = self.bitmap_pos;
-                self.decoded_data_pos += 1;
+                self.put_position();
             };
             self.bitmap_pos += 1;
         }
     }
+
+    fn put_position(&mut self) {
+        self.decoded_data[self.decoded_data_pos] = self
+            .bitmap_pos
+            .try_into()
+            .expect("cannot decode frame, bitmap position overflow");
+        self.decoded_data_pos += 1;
+    }
 }
 
 pub fn decode(encoded_data: &[u8], decoded_data: &mut [u32]) {
-- 
2.43.0


From ea80f2ee8de5c2d2ebe49590379ca583e8f64456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 17/18] fix: refuse variable-length integers over 64 bits

The tenth byte of an integer only has room for one bit, the others were
dropped silently.
---
 src/store/encoding/varint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/varint.rs b/src/store/encoding/varint.rs
index 673f0ba..d7f84c5 100644
--- a/src/store/encoding/varint.rs
+++ b/src/store/encoding/varint.rs
@@ -120,7 +120,8 @@ pub fn decode_varint(buf: &[u8]) -> Result<(u64, usize)> {
     part2 -= 0x80;
     b = buf[9];
     part2 += u32::from(b) << 7;
-    if b < 0x80 {
+    // the tenth byte only has room for the last bit of the value.
+    if b < 0x02 {
         return Ok((value + (u64::from(part2) << 56), 10));
     };
 
-- 
2.43.0


From cef99c430dcece13eb90558f519f005124079e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 18/18] fix: forget the rows of a column once they have been
 flushed

---
 src/store/encoding/raw/binary_enc.rs    | 3 +++
 src/store/encoding/raw/primitive_enc.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 911e2bb..a16e049 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -183,6 +183,9 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
         if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
+
+            // the column can be flushed again.
+            self.remaining.clear();
         }
 
         Ok(EncoderLayout::Plain(NoLayout {}))
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 984f5c2..cc6dc5e 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -171,6 +171,9 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
         if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
+
+            // the column can be flushed again.
+            self.remaining.clear();
         }
 
         Ok(EncoderLayout::Plain(NoLayout {}))
-- 
2.43.0

