From 3eb301a1d0e2693bc787571c94fd5d582d07f5d1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:58:21 +0000
Subject: [PATCH 01/12] fix: bit reader: reading after skipping past the end
 returns None instead of underflowing

---
 ebi/src/io/bit_read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..a93496c 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,10 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        // `skip_bits` may have moved the cursor past the end of the buffer
+        let available_bits =
+            (self.buffer.as_ref().len() * 8).saturating_sub(self.byte_pos * 8 + self.bit_pos);
+        if available_bits < n as usize {
             return None;
         }
 
-- 
2.43.0


From 5d2d8eb551c123c73a7187e595e6f2c538b8e224 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:00:38 +0000
Subject: [PATCH 02/12] fix: bit packing: 31-bit fields no longer overflow when
 overflow checks are on

---
 ebi/src/compression_common/buff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..f157976 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -87,7 +87,7 @@ pub(crate) mod bit_packing {
                 return Err(bits);
             }
             if bits < MAX_BITS {
-                value &= ((1 << bits) - 1) as u32;
+                value &= (1u32 << bits) - 1;
             }
 
             loop {
@@ -122,7 +122,7 @@ pub(crate) mod bit_packing {
             if self.buff.len() * BYTE_BITS < self.sum_bits() + bits {
                 return Err(bits);
             }
-            value &= ((1 << bits) - 1) as u32;
+            value &= (1u32 << bits) - 1;
 
             loop {
                 let bits_left = BYTE_BITS - self.bits;
-- 
2.43.0


From 1612fa59bf260edf45be535eac6e9a87a814ef48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 03/12] fix: elf: values differing only in the sign bit no
 longer overflow a shift when overflow checks are on

---
 ebi/src/compressor/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..8639918 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -196,7 +196,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -249,7 +249,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -258,7 +258,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From 508a436e6cae82f13cd9f88a45314276f8ee4c81 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:59:45 +0000
Subject: [PATCH 04/12] fix: decoder: opening a file without chunks no longer
 panics

fetch_footer read the one byte of the configuration size into the buffer of
the chunk footers, which is empty when the encoder was given no values.
---
 ebi/src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..2692ba5 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,8 +196,10 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
-        let config_size = buf[0] as usize;
+        // `buf` is empty if the file has no chunks.
+        let mut config_size = [0u8; 1];
+        input.read_exact(&mut config_size)?;
+        let config_size = config_size[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
 
-- 
2.43.0


From 886f445bea0cd9edfac4224235bf454b84a0c622 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:02:14 +0000
Subject: [PATCH 05/12] fix: size accounting: XOR compressors announce the
 exact prepared size, rewinding uncompressed data gives back its input bytes

total_bytes_buffered rounded the written bits up to whole bytes before adding the bits of the end marker, so it
could exceed the prepared buffers by one byte; UncompressedCompressor::rewind left total_bytes_in unchanged.
---
 ebi/src/compressor/general_xor.rs  | 2 +-
 ebi/src/compressor/uncompressed.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/general_xor.rs b/ebi/src/compressor/general_xor.rs
index c7b79a0..351655c 100644
--- a/ebi/src/compressor/general_xor.rs
+++ b/ebi/src/compressor/general_xor.rs
@@ -148,7 +148,7 @@ impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T> {
 
     fn total_bytes_buffered(&self) -> usize {
         // EOF: f64::NAN + 1 bit
-        let n_bits = self.w.as_slice().len() * 8 + self.encoder.simulate_close();
+        let n_bits = self.w.number_of_bits_written() + self.encoder.simulate_close();
 
         n_bits.next_multiple_of(8) / 8
     }
diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..7a938cf 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -87,6 +87,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From 36ab7359542bd40e1354cb9993446aeb5a909422 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:26:53 +0000
Subject: [PATCH 06/12] fix: BUFF filters honour the bitmask on early exits and
 refuse too wide constants

---
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 9 ++++++---
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..5db0463 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -318,10 +318,13 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         fractional_part_bits_length as i32,
     );
 
+    // All the records to be checked
     let all = || {
-        let mut all = RoaringBitmap::new();
-        all.insert_range(logical_offset..(number_of_records + logical_offset));
-        all
+        bitmask.clone().unwrap_or_else(|| {
+            let mut all = RoaringBitmap::new();
+            all.insert_range(logical_offset..(number_of_records + logical_offset));
+            all
+        })
     };
     let none = RoaringBitmap::new;
     // First Skip all the evaluation based on delta base
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..444b6d0 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -105,13 +105,17 @@ pub(crate) fn buff_simd256_equal_filter(
     }
     if fixed_representation_bits_length == 0 {
         return if fixed_pred == fixed_base64 {
-            all()
+            bitmask.unwrap_or_else(all)
         } else {
             none()
         };
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    // No record can be equal to the value wider than the stored deltas
+    if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0


From 3a3660052db13b8d6f0839290ce11d9f0516185a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:26:53 +0000
Subject: [PATCH 07/12] fix: BUFF sum of a constant chunk counts only the
 masked records

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..f7fedb1 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -80,7 +80,8 @@ pub(super) fn sum_with_bitmask(
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        let accumulated_len = bitmask.map_or(number_of_records as u64, |bm| bm.len());
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
-- 
2.43.0


From b613a04dcd33c7b6f9d48f5838204438793efe93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:26:53 +0000
Subject: [PATCH 08/12] fix: Sprintz min after decompression and sum of a chunk
 the mask does not touch

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..f23303b 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -210,7 +211,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
@@ -288,7 +289,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From b14b4d87447c25ec0ff2e64d2727985f7923197d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:18:48 +0000
Subject: [PATCH 09/12] fix: knn1: vectors that continue in the next chunk no
 longer shift or drop the vectors after them

---
 ebi/src/api/decoder.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..bd28650 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -495,17 +495,21 @@ impl<R: Read + Seek> Decoder<R> {
             if remaining_records != 0 {
                 // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
                 let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
+                processing_vector.distance += chunk_reader.distance_squared(
+                    0,
+                    &target[remaining_target_start..remaining_target_start + n_records_in_vector],
+                )?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                offset += n_records_in_vector;
+                remaining_records -= n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance < min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From f4c3457b897de063cef561ea8432a753e45af6d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:01:51 +0000
Subject: [PATCH 10/12] fix: decoder: a read error while loading a Chimp128 or
 BUFF chunk is reported instead of panicking

---
 ebi/src/decoder/chunk_reader.rs         | 4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 8 ++++----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..4c23d0b 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..180732f 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -37,20 +37,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..234402d 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 62b70fba8235c003a785622b38f07b6b375e39b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:02:11 +0000
Subject: [PATCH 11/12] fix: encoder: an interrupted read is retried, so the
 bytes of a partly read record are not lost

---
 ebi/src/encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..570c073 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,10 +280,8 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                 if n_read == 0 {
                     return Err(e.into());
                 }
-- 
2.43.0


From 0f2b188a91a296fd46ed0b1bbe212d74da3ae3bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:30:52 +0000
Subject: [PATCH 12/12] fix: decoder: Sprintz values can be read after a filter
 or an aggregate on the same chunk reader

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index f23303b..4c286e8 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -59,6 +59,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
-- 
2.43.0

