From 619220b44d869f41e5d04a9869872232907446c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 01/13] fix: write the zlib/gzip header before flushing an
 encoder that was not written to

Calling flush() before the first write() put the sync block in front of the
header, which made the whole stream invalid.
---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..7273a29 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,6 +272,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -449,6 +450,7 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From b4b34919526cba4c44bfa8b520405f69117f1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 02/13] fix: don't report an error for input that was already
 consumed

If the wrapped writer failed while the internal output buffer was emptied in
the middle of a write() call, the error was returned even though part of the
input had been consumed, so that a retry compressed that part twice.
---
 src/compress.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 8223609..8a65a7f 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -94,11 +94,20 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = deflate_state
+            let res = deflate_state
                 .inner
                 .as_mut()
                 .expect("Missing writer!")
-                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..]);
+
+            let written = match res {
+                Ok(n) => n,
+                // Input that has been consumed already must not be reported as an error, as the
+                // caller would supply it again. The output is kept in the buffer, so the writer
+                // gets to report the error on the next call.
+                Err(_) if bytes_written > 0 => return Ok(bytes_written),
+                Err(e) => return Err(e),
+            };
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
-- 
2.43.0


From 69538543b0d0993aafe3e4fbf4cb28d4aedc875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 03/13] fix: return WriteZero instead of looping forever if the
 writer accepts no more data

A wrapped writer returning Ok(0) (such as a full slice) made finish(), flush(),
drop and write_all() loop without end.
---
 src/compress.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 8a65a7f..03a815e 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -76,6 +76,19 @@ fn write_stored_block(input: &[u8], mut writer: &mut LsbWriter, final_block: boo
     }
 }
 
+/// Return an error if the wrapped writer didn't accept any of the (non-empty) data it was given,
+/// as we would otherwise keep trying forever.
+fn check_progress(written: usize) -> io::Result<usize> {
+    if written == 0 {
+        Err(io::Error::new(
+            io::ErrorKind::WriteZero,
+            "The wrapped writer did not accept any data.",
+        ))
+    } else {
+        Ok(written)
+    }
+}
+
 /// Inner compression function used by both the writers and the simple compression functions.
 pub fn compress_data_dynamic_n<W: Write>(
     input: &[u8],
@@ -100,7 +113,7 @@ pub fn compress_data_dynamic_n<W: Write>(
                 .expect("Missing writer!")
                 .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..]);
 
-            let written = match res {
+            let written = match res.and_then(check_progress) {
                 Ok(n) => n,
                 // Input that has been consumed already must not be reported as an error, as the
                 // caller would supply it again. The output is kept in the buffer, so the writer
@@ -292,13 +305,15 @@ pub fn compress_data_dynamic_n<W: Write>(
         .as_mut()
         .expect("Missing writer!")
         .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
-    if written_to_writer
-        < deflate_state
-            .output_buf()
-            .len()
-            .checked_sub(output_buf_pos)
-            .unwrap()
-    {
+    let left_to_write = deflate_state
+        .output_buf()
+        .len()
+        .checked_sub(output_buf_pos)
+        .unwrap();
+    if left_to_write > 0 {
+        check_progress(written_to_writer)?;
+    }
+    if written_to_writer < left_to_write {
         deflate_state.output_buf_pos += written_to_writer;
     } else {
         // If we sucessfully wrote all the data, we can clear the output buffer.
-- 
2.43.0


From 4ec6f1df87ca9819c5364470557c0cc6a0e0487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 04/13] fix: don't count data that was not consumed in the
 checksum after a failed flush

A write() following a flush() that failed returned Ok(0) without consuming
anything, but the zlib and gzip encoders took this to mean that all of the
buffer was consumed and added it to the checksum.
---
 src/compress.rs | 10 ++++++++++
 src/writer.rs   | 20 +++++++-------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 03a815e..a787c04 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -322,6 +322,16 @@ pub fn compress_data_dynamic_n<W: Write>(
         deflate_state.needs_flush = false;
     }
 
+    if bytes_written == 0 && !input.is_empty() && !deflate_state.lz77_state.is_last_block() {
+        // We had to output the rest of an earlier flush first and did not get to compressing
+        // anything. As when the buffer is full above, Ok(0) would wrongly indicate that no more
+        // input can be accepted.
+        return Err(io::Error::new(
+            io::ErrorKind::Interrupted,
+            "Finished a pending flush.",
+        ));
+    }
+
     Ok(bytes_written)
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 7273a29..f126a37 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -255,14 +255,10 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         self.check_write_header()?;
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
-        match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
-            Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
-            _ => (),
-        };
+        // Only the part of the buffer that was consumed is added to the checksum.
+        if let Ok(n) = res {
+            self.checksum.update_from_slice(&buf[0..n]);
+        }
         res
     }
 
@@ -436,11 +432,9 @@ pub mod gzip {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.check_write_header();
             let res = self.inner.write(buf);
-            match res {
-                Ok(0) => self.checksum.update(buf),
-                Ok(n) => self.checksum.update(&buf[0..n]),
-                _ => (),
-            };
+            if let Ok(n) = res {
+                self.checksum.update(&buf[0..n]);
+            }
             res
         }
 
-- 
2.43.0


From 855c6b1a5de6fed636837c5a3211aade05b06bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 05/13] fix: write the last block when finishing after a failed
 flush

If a flush() failed, finish() (or reset(), or dropping the encoder) only output
what was left by the flush, and reported success without ending the stream.
---
 src/writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index f126a37..d66e1f0 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -20,9 +20,14 @@ pub fn compress_until_done<W: Write>(
     // This should only be used for flushing.
     assert!(flush_mode != Flush::None);
     loop {
+        // If an earlier flush failed, the next call will only output what was left by it.
+        let flush_pending = deflate_state.needs_flush;
         match compress_data_dynamic_n(input, deflate_state, flush_mode) {
             Ok(0) => {
-                if deflate_state.output_buf().is_empty() {
+                if flush_pending && flush_mode == Flush::Finish {
+                    // The last block has not been written yet.
+                    continue;
+                } else if deflate_state.output_buf().is_empty() {
                     break;
                 } else {
                     // If the output buffer isn't empty, keep going until it is, as there is still
-- 
2.43.0


From 44c12f1a6735ad9ff39b50990e32e08d94acd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 06/13] fix: only set the header for the next gzip stream if
 resetting succeeded

If GzEncoder::reset() failed, the new header was put in the middle of the
current stream by the next call.
---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index d66e1f0..20ba4d1 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -394,18 +394,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From fd60328b46b0494109b70513a7b0c1bc6533c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 07/13] fix: output the right data in a stored block ending
 with a match across the window end

If the value that filled up a block was a match extending past the end of a
window other than the first, the input buffer was slid before the position of
the end of the block was determined. If that block was then stored, this
resulted in a panic, or in the wrong data being output. A match found in the
last two bytes of the input also did not count the overlapping byte.
---
 src/lz77.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..4f056aa 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -461,7 +461,7 @@ fn process_chunk_lazy(
                 if let BufferStatus::Full = b_status {
                     // TODO: These bytes should be hashed when doing a sync flush.
                     // This can't be done here as the new input data does not exist yet.
-                    return (overlap, buffer_full(end));
+                    return (overlap, buffer_full(end + overlap));
                 } else {
                     return (overlap, ProcessStatus::Ok);
                 }
@@ -676,6 +676,8 @@ pub fn lz77_compress_block(
                 // If overlap is non-zero, the buffer was full after outputting the last byte,
                 // otherwise we have to skip to the point in the buffer where we stopped in the
                 // next call.
+                current_position = written - state.pending_byte_as_num();
+
                 state.overlap = if overlap > 0 {
                     if !state.is_first_window {
                         // If we are at the end of the window, make sure we slide the buffer and the
@@ -684,6 +686,8 @@ pub fn lz77_compress_block(
                             state.hash_table.slide(window_size);
                         }
                         remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+                        // The data moved, and the position has to follow it.
+                        current_position -= window_size;
                     } else {
                         state.is_first_window = false;
                     }
@@ -692,8 +696,6 @@ pub fn lz77_compress_block(
                     written - window_start
                 };
 
-                current_position = written - state.pending_byte_as_num();
-
                 // Status is already EndBlock at this point.
                 // status = LZ77Status::EndBlock;
                 break;
-- 
2.43.0


From 31d080865746711e62d1e3e34200df04721a2f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 08/13] fix: don't write the trailer twice when closing a zlib
 or gzip stream is retried

If the wrapped writer failed after accepting a part of the trailer, a retried
reset() wrote the full trailer again after that part. The trailer now goes
through the output buffer like everything else.
---
 src/writer.rs | 66 +++++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 20ba4d1..27f1c42 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -189,6 +189,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -198,6 +199,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -206,7 +208,9 @@ impl<W: Write> ZlibEncoder<W> {
     fn output_all(&mut self) -> io::Result<()> {
         self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Finish)?;
-        self.write_trailer()
+        self.write_trailer();
+        // Output the trailer.
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Encode all pending data to the contained writer, consume this `ZlibEncoder`,
@@ -223,6 +227,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -236,17 +241,16 @@ impl<W: Write> ZlibEncoder<W> {
         Ok(())
     }
 
-    /// Write the trailer, which for zlib is the Adler32 checksum.
-    fn write_trailer(&mut self) -> io::Result<()> {
-        let hash = self.checksum.current_hash();
-
-        self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
-
-        Ok(())
+    /// Write the trailer, which for zlib is the Adler32 checksum, to the output buffer if it hasn't
+    /// been done yet.
+    fn write_trailer(&mut self) {
+        if !self.trailer_written {
+            let hash = self.checksum.current_hash();
+            self.deflate_state
+                .output_buf()
+                .extend_from_slice(&hash.to_be_bytes());
+            self.trailer_written = true;
+        }
     }
 
     /// Return the adler32 checksum of the currently consumed data.
@@ -294,7 +298,7 @@ impl<W: Write> Drop for ZlibEncoder<W> {
 #[cfg(feature = "gzip")]
 pub mod gzip {
 
-    use std::io::{Cursor, Write};
+    use std::io::Write;
     use std::{io, thread};
 
     use super::*;
@@ -334,6 +338,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -354,6 +359,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -373,7 +379,9 @@ pub mod gzip {
         fn output_all(&mut self) -> io::Result<()> {
             self.check_write_header();
             self.inner.output_all()?;
-            self.write_trailer()
+            self.write_trailer();
+            // Output the trailer.
+            self.inner.output_all()
         }
 
         /// Encode all pending data to the contained writer, consume this `GzEncoder`,
@@ -388,6 +396,7 @@ pub mod gzip {
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
             self.checksum = Crc::new();
+            self.trailer_written = false;
             self.inner.deflate_state.reset(writer)
         }
 
@@ -408,23 +417,18 @@ pub mod gzip {
             Ok(w)
         }
 
-        /// Write the checksum and number of bytes mod 2^32 to the output writer.
-        fn write_trailer(&mut self) -> io::Result<()> {
-            let crc = self.checksum.sum();
-            let amount = self.checksum.amt_as_u32();
-
-            // We use a buffer here to make sure we don't end up writing only half the header if
-            // writing fails.
-            let mut buf = [0u8; 8];
-            let mut temp = Cursor::new(&mut buf[..]);
-            temp.write_all(&crc.to_le_bytes()).unwrap();
-            temp.write_all(&amount.to_le_bytes()).unwrap();
-            self.inner
-                .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+        /// Write the checksum and number of bytes mod 2^32 to the output buffer if it hasn't been
+        /// done yet.
+        fn write_trailer(&mut self) {
+            if !self.trailer_written {
+                let crc = self.checksum.sum();
+                let amount = self.checksum.amt_as_u32();
+
+                let output_buf = self.inner.deflate_state.output_buf();
+                output_buf.extend_from_slice(&crc.to_le_bytes());
+                output_buf.extend_from_slice(&amount.to_le_bytes());
+                self.trailer_written = true;
+            }
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0


From 5561462f429bd80d257363233fb8ed493858d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 09/13] fix: use the right bit counts when choosing between
 dynamic and fixed blocks

The size of a fixed block was calculated with the literal/length code lengths
for the distances, and the repeat code 16 was taken to use 3 extra bits, so
that the block type chosen was not always the shortest one.
---
 src/huffman_lengths.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index a5a153a..493d3ee 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -2,8 +2,8 @@ use crate::bitstream::LsbWriter;
 use crate::deflate_state::LengthBuffers;
 use crate::huffman_table::{
     create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
-    HuffmanTable, FIXED_CODE_LENGTHS, LENGTH_BITS_START, MAX_CODE_LENGTH, NUM_DISTANCE_CODES,
-    NUM_LITERALS_AND_LENGTHS,
+    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
+    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
 };
 use crate::length_encode::{
     encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
@@ -49,7 +49,8 @@ pub fn remove_trailing_zeroes<T: From<u8> + PartialEq>(input: &[T], min_length:
 /// How many extra bits the Huffman length code uses to represent a value.
 fn extra_bits_for_huffman_length_code(code: u8) -> u8 {
     match code {
-        16..=17 => 3,
+        16 => 2,
+        17 => 3,
         18 => 7,
         _ => 0,
     }
@@ -71,11 +72,12 @@ fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8])
 /// code lengths (first return value) and static code lengths (second return value).
 ///
 /// Parameters:
-/// Frequencies, length of dynamic codes, and a function to get how many extra bits in addition
-/// to the length of the Huffman code the symbol will use.
+/// Frequencies, length of dynamic codes, length of static codes, and a function to get how many
+/// extra bits in addition to the length of the Huffman code the symbol will use.
 fn calculate_block_length<F>(
     frequencies: &[FrequencyType],
     dyn_code_lengths: &[u8],
+    static_code_lengths: &[u8],
     get_num_extra_bits: &F,
 ) -> (u64, u64)
 where
@@ -88,7 +90,7 @@ where
 
     let iter = frequencies
         .iter()
-        .zip(dyn_code_lengths.iter().zip(FIXED_CODE_LENGTHS.iter()))
+        .zip(dyn_code_lengths.iter().zip(static_code_lengths.iter()))
         .enumerate();
 
     // This could maybe be optimised a bit by splitting the iteration of codes using extra bits and
@@ -241,14 +243,17 @@ pub fn gen_huffman_lengths(
     // (excluding the 3-bit block header since it's used in all block types).
 
     // Total length of the compressed literals/lengths.
-    let (d_ll_length, s_ll_length) = calculate_block_length(l_freqs, l_lengths, &|c| {
-        num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8).into()
-    });
+    let (d_ll_length, s_ll_length) =
+        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| {
+            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
+                .into()
+        });
 
     // Total length of the compressed distances.
-    let (d_dist_length, s_dist_length) = calculate_block_length(d_freqs, d_lengths, &|c| {
-        num_extra_bits_for_distance_code(c as u8).into()
-    });
+    let (d_dist_length, s_dist_length) =
+        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| {
+            num_extra_bits_for_distance_code(c as u8).into()
+        });
 
     // Total length of the compressed huffman code lengths.
     let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);
-- 
2.43.0


From c397805c1995861263676a46c5557ec272ae7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 10/13] fix: reset the chains of the hash table along with its
 heads

reset() copied the initial values to a temporary copy of the array, so an
encoder that was reset could compress differently from a new one.
---
 src/chained_hash_table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..6758506 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -98,11 +98,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        reset_array(&mut self.c.prev);
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
-- 
2.43.0


From 3670fb4b22895132ddd6cbb981e57734e1def816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 11/13] fix: look for a match at every byte when
 lazy_if_less_than is 0

A value of 0 is documented to have the same effect as greedy matching, but no
match was searched for at the byte following one without a match.
---
 src/lz77.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 4f056aa..bd21dac 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -330,7 +330,8 @@ fn process_chunk_lazy(
     // Set to true if we found a match that is equal to or longer than `lazy_if_less_than`,
     // indicating that we won't lazy match (check for a better match at the next byte).
     // If we had a good match, carry this over from the previous call.
-    let mut ignore_next = prev_length as usize >= lazy_if_less_than;
+    let mut ignore_next =
+        prev_length as usize >= cmp::max(lazy_if_less_than, MIN_MATCH as usize);
 
     // This is to output the correct byte in case there is one pending to be output
     // from the previous call.
@@ -371,7 +372,8 @@ fn process_chunk_lazy(
                     match_len = NO_LENGTH as usize;
                 };
 
-                if match_len >= lazy_if_less_than {
+                // (This requires that there is a match, even if `lazy_if_less_than` is 0.)
+                if match_len >= cmp::max(lazy_if_less_than, MIN_MATCH as usize) {
                     // We found a decent match, so we won't check for a better one at the next byte.
                     ignore_next = true;
                 }
-- 
2.43.0


From a69011913a3343d2a22b047804d57218e9e5bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 12/13] fix: warm up the hash with the right bytes after a
 flush or block in the first window

---
 src/lz77.rs | 54 +++++++++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index bd21dac..76e83be 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -68,9 +68,9 @@ pub struct LZ77State {
     /// Keep track of how many bytes in the lookahead that was part of a match, but has not been
     /// added to the hash chain yet.
     bytes_to_hash: usize,
-    /// Keep track of if sync flush was used. If this is the case, the two first bytes needs to be
-    /// hashed.
-    was_synced: bool,
+    /// Whether the hash has to be warmed up before processing more data, which is the case at the
+    /// start, and after a sync flush, as the two last bytes before it couldn't be hashed then.
+    warm_up_hash: bool,
 }
 
 impl LZ77State {
@@ -91,7 +91,7 @@ impl LZ77State {
             matching_type,
             match_state: ChunkState::new(),
             bytes_to_hash: 0,
-            was_synced: false,
+            warm_up_hash: true,
         }
     }
 
@@ -103,7 +103,8 @@ impl LZ77State {
         self.overlap = 0;
         self.current_block_input_bytes = 0;
         self.match_state = ChunkState::new();
-        self.bytes_to_hash = 0
+        self.bytes_to_hash = 0;
+        self.warm_up_hash = true;
     }
 
     pub fn set_last(&mut self) {
@@ -600,21 +601,6 @@ pub fn lz77_compress_block(
     // The current status of the encoding.
     let mut status = LZ77Status::EndBlock;
 
-    // Whether warm up the hash chain with the two first values.
-    let mut add_initial = true;
-
-    // If we have synced, add the two first bytes to the hash as they couldn't be added before.
-    if state.was_synced {
-        if buffer.current_end() > 2 {
-            let pos_add = buffer.current_end() - 2;
-            for (n, &b) in data.iter().take(2).enumerate() {
-                state.hash_table.add_hash_value(n + pos_add, b);
-            }
-            add_initial = false;
-        }
-        state.was_synced = false;
-    }
-
     // Add data to the input buffer and keep a reference to the slice of data not added yet.
     let mut remaining_data = buffer.add_data(data);
 
@@ -627,18 +613,7 @@ pub fn lz77_compress_block(
         // Don't do anything until we are either flushing, or we have at least one window of
         // data.
         if buffer.current_end() >= (window_size * 2) + MAX_MATCH || finish {
-            if state.is_first_window {
-                if buffer.get_buffer().len() >= 2
-                    && add_initial
-                    && state.current_block_input_bytes == 0
-                {
-                    let b = buffer.get_buffer();
-                    // Warm up the hash with the two first values, so we can find  matches at
-                    // index 0.
-                    state.hash_table.add_initial_hash_values(b[0], b[1]);
-                    add_initial = false;
-                }
-            } else if buffer.current_end() >= window_size + 2 {
+            if !state.is_first_window && buffer.current_end() >= window_size + 2 {
                 for (n, &h) in buffer.get_buffer()[window_size + 2..]
                     .iter()
                     .enumerate()
@@ -657,6 +632,19 @@ pub fn lz77_compress_block(
             let start = state.overlap + window_start;
             let end = cmp::min(window_size + window_start, buffer.current_end());
 
+            if state.warm_up_hash {
+                // Warm up the hash with the two values at the start, so we can find matches there,
+                // after adding the two positions before it (unless this is the start of the data).
+                let first = start.saturating_sub(2);
+                if let [b1, b2, ref following @ ..] = buffer.get_buffer()[first..] {
+                    state.hash_table.add_initial_hash_values(b1, b2);
+                    for (n, &b) in following.iter().enumerate().take(start - first) {
+                        state.hash_table.add_hash_value(first + n, b);
+                    }
+                }
+                state.warm_up_hash = false;
+            }
+
             let (overlap, p_status) = process_chunk(
                 buffer.get_buffer(),
                 &(start..end),
@@ -740,7 +728,7 @@ pub fn lz77_compress_block(
                     } else {
                         buffer.current_end() - window_size
                     };
-                    state.was_synced = true;
+                    state.warm_up_hash = true;
                 }
                 status = LZ77Status::Finished;
                 break;
-- 
2.43.0


From 141e09d715b673cc8a9fe029673e37564effdc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 13/13] fix: keep the pending match when a block ends at the
 end of a window

When the buffer got full at the last byte of a window with lazy matching,
the next call processed an empty chunk first, which dropped the match that
had been found at that byte.
---
 src/lz77.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lz77.rs b/src/lz77.rs
index 76e83be..dd10b2d 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -316,6 +316,12 @@ fn process_chunk_lazy(
 
     const NO_LENGTH: u16 = 0;
 
+    if iterated_data.start >= end {
+        // The previous call stopped at the end of the window because the buffer was full, so there
+        // is nothing to process, and any pending match has to be kept for the next window.
+        return (0, ProcessStatus::Ok);
+    }
+
     // The previous match length, if any.
     let mut prev_length = state.current_length;
     // The distance of the previous match if any.
-- 
2.43.0

