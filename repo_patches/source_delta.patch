From a71274962fdef4dc9f0e4048fc2da0437bd850fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 01/10] fix: report a frame header cut after one byte as
 unexpected end of file

read_be_u16_or_eof() returned None when a single byte was left, so a
truncated stream looked like one that had ended normally.
---
 src/input.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..ed33e18 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -93,9 +93,9 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            // Once the first byte is there, running out of data is an error.
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From 8bacc830b33c3e4f069b1aa3345dcdbc7b3f6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 02/10] fix: refuse coded numbers that start with 0xff

The longest coding takes seven bytes and has a lead byte of 0xfe. A lead
byte of 0xff was taken for the start of a 42-bit integer.
---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..e76ab22 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,9 +76,10 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
-    // A single leading 1 is a follow-up byte and thus invalid.
+    // A single leading 1 is a follow-up byte and thus invalid. Eight leading 1s
+    // would make for a 42-bit integer, there is no such encoding.
     if read_additional > 0 {
-        if read_additional == 1 {
+        if read_additional == 1 || read_additional == 8 {
             return fmt_err("invalid variable-length integer");
         } else {
             // The number of 1s (if > 1) is the total number of bytes, not the
-- 
2.43.0


From 7a38eb826d9478478fb4465b3b2929664e5fe8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 03/10] fix: do not return consumed data again after a read
 error

When replenishing the buffer failed, the buffered reader had reset its
position already, but not the number of valid bytes. A caller that carried
on after the error got the previous buffer contents once more.
---
 src/input.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index ed33e18..cacb9f6 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -64,6 +64,16 @@ impl<R: io::Read> BufferedReader<R> {
     pub fn into_inner(self) -> R {
         self.inner
     }
+
+    /// Reads fresh data into the buffer, all of which must have been consumed.
+    fn replenish(&mut self) -> io::Result<()> {
+        // If reading fails, there is nothing in the buffer: what was there has
+        // been consumed already, it must not be returned again.
+        self.pos = 0;
+        self.num_valid = 0;
+        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        Ok(())
+    }
 }
 
 
@@ -133,8 +143,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8(&mut self) -> io::Result<u8> {
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            try!(self.replenish());
 
             if self.num_valid == 0 {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -153,8 +162,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            try!(self.replenish());
 
             if self.num_valid == 0 {
                 return Ok(None);
@@ -177,8 +185,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                try!(self.replenish());
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
@@ -198,8 +205,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                try!(self.replenish());
 
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
-- 
2.43.0


From e82e96b48e9f305b71b6b25dcb9254290f9e19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 04/10] fix: do not trust the number of bytes that a reader
 claims to have read

The buffer is accessed without bounds check, so an io::Read implementation
that returned more than the length of the buffer caused reads out of bounds.
---
 src/input.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index cacb9f6..0714ac4 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -71,7 +71,16 @@ impl<R: io::Read> BufferedReader<R> {
         // been consumed already, it must not be returned again.
         self.pos = 0;
         self.num_valid = 0;
-        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        let num_read = try!(self.inner.read(&mut self.buf));
+
+        // Implementing io::Read is safe, so a reader that claims to have read
+        // more than it was asked for must not cause access out of bounds.
+        if num_read > self.buf.len() {
+            return Err(io::Error::new(io::ErrorKind::Other,
+                                      "Reader returned more bytes than requested."))
+        }
+
+        self.num_valid = num_read as u32;
         Ok(())
     }
 }
-- 
2.43.0


From a8f32be3827924a791c66c6e094fb578ebb140cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 05/10] fix: do not overflow when a cursor is far beyond its
 end

The position of a cursor can be any 64-bit integer. Adding the length of
the read to it overflowed, instead of reporting the end of the file.
---
 src/input.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 0714ac4..d301fd7 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -270,9 +270,12 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
-            let start = pos as usize;
-            let end = pos as usize + buffer.len();
+
+        // The position of a cursor may be anything, also beyond the end.
+        let len = self.get_ref().as_ref().len();
+        let start = cmp::min(pos, len as u64) as usize;
+        if buffer.len() <= len - start {
+            let end = start + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
             self.set_position(pos + buffer.len() as u64);
             Ok(())
@@ -283,7 +286,10 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+
+        // The position of a cursor may be anything, also beyond the end.
+        let len = self.get_ref().as_ref().len() as u64;
+        if amount as u64 <= len - cmp::min(pos, len) {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0


From cb215e4fd1fdf1289333e467459344d6965a8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 06/10] fix: do not expose uninitialized memory to the input

Implementing ReadBytes is safe, so read_into() may read from the buffer that
it gets, or return success without filling it. Uninitialized memory was
visible to it, and ended up in tags and application data.
---
 src/metadata.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ddfe207..f0fbc5c 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -429,12 +429,10 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
     // 32-bit vendor string length, and comment count.
     let vendor_len = try!(input.read_le_u32());
     if vendor_len > length - 8 { return fmt_err("vendor string too long") }
-    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);
 
-    // We can safely set the lenght of the vector here; the uninitialized memory
-    // is not exposed. If `read_into` succeeds, it will have overwritten all
-    // bytes. If not, an error is returned and the memory is never exposed.
-    unsafe { vendor_bytes.set_len(vendor_len as usize); }
+    // Uninitialized memory would not do here: `input` can be any `ReadBytes`
+    // implementation, which can look at the buffer, or fail to overwrite it.
+    let mut vendor_bytes = vec![0; vendor_len as usize];
     try!(input.read_into(&mut vendor_bytes));
     let vendor = try!(String::from_utf8(vendor_bytes));
 
@@ -469,9 +467,7 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
             continue;
         }
 
-        // For the same reason as above, setting the length is safe here.
-        let mut comment_bytes = Vec::with_capacity(comment_len as usize);
-        unsafe { comment_bytes.set_len(comment_len as usize); }
+        let mut comment_bytes = vec![0; comment_len as usize];
         try!(input.read_into(&mut comment_bytes));
 
         bytes_left -= comment_len;
@@ -537,12 +533,9 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
     let id = try!(input.read_be_u32());
 
     // Four bytes of the block have been used for the ID, the rest is payload.
-    // Create a vector of uninitialized memory, and read the block into it. The
-    // uninitialized memory is never exposed: read_into will either fill the
-    // buffer completely, or return an err, in which case the memory is not
-    // exposed.
-    let mut data = Vec::with_capacity(length as usize - 4);
-    unsafe { data.set_len(length as usize - 4); }
+    // Uninitialized memory would not do here, for the same reason as in
+    // `read_vorbis_comment_block()`.
+    let mut data = vec![0; length as usize - 4];
     try!(input.read_into(&mut data));
 
     Ok((id, data))
-- 
2.43.0


From 886ee4851c110347fd1ff110b26a068a6472eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 07/10] fix: do not overflow when counting the zeros of a unary
 number

The count overflowed for input with 512 MiB of zeros, which caused a panic in
debug mode and a wrong value in release mode.
---
 src/input.rs    | 6 +++++-
 src/subframe.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index d301fd7..7c48bc5 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -518,7 +518,11 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                n = match n.checked_add(zeros) {
+                    Some(sum) => sum,
+                    None => return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                                      "Unary number exceeds 32 bits.")),
+                };
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..cbe01eb 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,7 +73,7 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
+        try!(input.read_unary()).saturating_add(1)
     };
 
     // The spec puts no bounds on the number of wasted bits per sample, but more
-- 
2.43.0


From bed8999d5f43fecfa97d582e1c3b6300c49e4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 08/10] fix: read no further than the streaminfo when only that
 is desired

With metadata_only set and read_vorbis_comment not, the reader still read one
more metadata block after the streaminfo, and failed when that was not there
or invalid.
---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..63f1fe1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,8 +249,13 @@ impl<R: io::Read> FlacReader<R> {
 
             let mut vorbis_comment = None;
 
-            // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // There might be more metadata blocks, read and store them. Stop
+            // reading metadata once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +275,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0


From 05335181b5674e655dcf8fef8900a01fe0b91127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 09/10] fix: do not interpret Vorbis comments when they are not
 desired

With read_vorbis_comment set to false, Vorbis comment blocks were parsed all
the same and discarded afterwards, so that a malformed or too large one made
opening the stream fail.
---
 src/lib.rs      | 11 +++++------
 src/metadata.rs | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63f1fe1..16983db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -247,6 +247,11 @@ impl<R: io::Read> FlacReader<R> {
                 _ => return fmt_err("streaminfo block missing"),
             };
 
+            // Comments that are not desired are never parsed in the first place.
+            if !options.read_vorbis_comment {
+                metadata_iter.skip_vorbis_comment();
+            }
+
             let mut vorbis_comment = None;
 
             // There might be more metadata blocks, read and store them. Stop
@@ -277,12 +282,6 @@ impl<R: io::Read> FlacReader<R> {
                 }
             }
 
-            // TODO: Rather than discarding afterwards, never parse it in the
-            // first place; treat it like padding in the MetadataBlockReader.
-            if !options.read_vorbis_comment {
-                vorbis_comment = None;
-            }
-
             (streaminfo, vorbis_comment)
         };
 
diff --git a/src/metadata.rs b/src/metadata.rs
index f0fbc5c..1ee7c2a 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -550,6 +550,7 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
 pub struct MetadataBlockReader<R: ReadBytes> {
     input: R,
     done: bool,
+    skip_vorbis_comment: bool,
 }
 
 /// Either a `MetadataBlock` or an `Error`.
@@ -561,13 +562,25 @@ impl<R: ReadBytes> MetadataBlockReader<R> {
         MetadataBlockReader {
             input: input,
             done: false,
+            skip_vorbis_comment: false,
         }
     }
 
+    /// From now on, treat Vorbis comment blocks like padding.
+    ///
+    /// Their contents will be skipped over, without being interpreted.
+    pub fn skip_vorbis_comment(&mut self) {
+        self.skip_vorbis_comment = true;
+    }
+
     #[inline]
     fn read_next(&mut self) -> MetadataBlockResult {
         let header = try!(read_metadata_block_header(&mut self.input));
-        let block = try!(read_metadata_block(&mut self.input, header.block_type, header.length));
+        let block_type = match header.block_type {
+            4 if self.skip_vorbis_comment => 1,
+            block_type => block_type,
+        };
+        let block = try!(read_metadata_block(&mut self.input, block_type, header.length));
         self.done = header.is_last;
         Ok(block)
     }
-- 
2.43.0


From 9c8f35be65e0a7a93fca6e1ccf4cc1c97589fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 10/10] fix: compute the time of a shorter last block from the
 stream's block size

In streams with a fixed block size the time of a block is its frame number
times the block size of the stream. The size of the block itself was used,
which is wrong for the last block when that is smaller.
---
 src/frame.rs | 25 ++++++++++++++++++++++++-
 src/lib.rs   |  9 ++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index e76ab22..8eca79f 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -603,6 +603,9 @@ fn verify_block_stereo_samples_iterator() {
 /// no searching for a sync code is performed at the moment.
 pub struct FrameReader<R: ReadBytes> {
     input: R,
+
+    /// The block size of the stream, if it is fixed and if it is known.
+    fixed_block_size: Option<u16>,
 }
 
 /// Either a `Block` or an `Error`.
@@ -653,6 +656,20 @@ impl<R: ReadBytes> FrameReader<R> {
     pub fn new(input: R) -> FrameReader<R> {
         FrameReader {
             input: input,
+            fixed_block_size: None,
+        }
+    }
+
+    /// Creates a frame reader for a stream of which all blocks have the same size.
+    ///
+    /// Only the last block of such a stream may be smaller. The position of a
+    /// block is stored as frame number, which counts blocks of the full size, so
+    /// that size is required to determine `Block::time()` of the last block.
+    /// When it is not provided, the size of the first block read is used.
+    pub fn with_fixed_block_size(input: R, block_size: u16) -> FrameReader<R> {
+        FrameReader {
+            input: input,
+            fixed_block_size: Some(block_size),
         }
     }
 
@@ -770,7 +787,13 @@ impl<R: ReadBytes> FrameReader<R> {
         // TODO: constant block size should be verified if a frame number is
         // encountered.
         let time = match header.block_time {
-            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
+            BlockTime::FrameNumber(fnr) => {
+                // The last block may be smaller than the ones before it, so its
+                // own size does not tell how many samples precede it.
+                let block_size = self.fixed_block_size.unwrap_or(header.block_size);
+                self.fixed_block_size = Some(block_size);
+                block_size as u64 * fnr as u64
+            }
             BlockTime::SampleNumber(snr) => snr,
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index 16983db..ca3b7e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -363,8 +363,15 @@ impl<R: io::Read> FlacReader<R> {
     /// happens. The representation of the decoded audio is somewhat specific to
     /// the FLAC format. For a higher-level interface, see `samples()`.
     pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>> {
+        let info = self.streaminfo;
         match self.input {
-            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
+            FlacReaderState::Full(ref mut inp) => {
+                if info.min_block_size == info.max_block_size {
+                    FrameReader::with_fixed_block_size(inp, info.max_block_size)
+                } else {
+                    FrameReader::new(inp)
+                }
+            }
             FlacReaderState::MetadataOnly(..) =>
                 panic!("FlacReaderOptions::metadata_only must be false \
                        to be able to use FlacReader::blocks()"),
-- 
2.43.0

