From 30b1cb5ee50ee946f6b637d9cae721f787d53ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 01/47] fix: SeekableBoundedReader must not seek below its
 lower bound

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 78fc81f..9aa80cf 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -68,7 +68,7 @@ impl<R: Read + Seek> Seek for SeekableBoundedReader<R> {
             SeekFrom::End(pos) => self.bounds.1 as i64 + pos,
             SeekFrom::Current(pos) => self.cur as i64 + pos,
         };
-        if new_pos < 0 {
+        if new_pos < self.bounds.0 as i64 {
             return Err(std::io::Error::new(ErrorKind::Other, "SeekBeforeStart"));
         }
         self.cur = new_pos as u64;
-- 
2.43.0


From 58d8e0b03a8aaf43cdfd0dbe952f7fc18566fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 02/47] fix: do not wrap huge sizes to a negative remaining
 count in Crc32VerifyingReader

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9aa80cf..eda9f4b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -118,7 +118,7 @@ impl<R: Read> Crc32VerifyingReader<R> {
             inner,
             crc_digest: CRC32.digest(),
             expected_value,
-            remaining: remaining as i64,
+            remaining: i64::try_from(remaining).unwrap_or(i64::MAX),
         }
     }
 }
-- 
2.43.0


From c11c1ac38b31b519c4ce0cb5e3242b974a553f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 03/47] fix: report truncated data in Crc32VerifyingReader
 instead of a normal end

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index eda9f4b..3f7457c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -132,6 +132,8 @@ impl<R: Read> Read for Crc32VerifyingReader<R> {
         if size > 0 {
             self.remaining -= size as i64;
             self.crc_digest.update(&buf[..size]);
+        } else if !buf.is_empty() {
+            return Err(ErrorKind::UnexpectedEof.into());
         }
         if self.remaining <= 0 {
             let d = std::mem::replace(&mut self.crc_digest, CRC32.digest()).finalize();
-- 
2.43.0


From 6c2ae121dc7a5ec225eaececc006dc1406fb6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 04/47] fix: SourceReader must count and checksum every byte it
 forwards

---
 src/writer/seq_reader.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/writer/seq_reader.rs b/src/writer/seq_reader.rs
index 9e0f141..76f60c1 100644
--- a/src/writer/seq_reader.rs
+++ b/src/writer/seq_reader.rs
@@ -75,7 +75,6 @@ pub struct SourceReader<R> {
     reader: R,
     size: usize,
     crc: crc::Digest<'static, u32>,
-    crc_value: u32,
 }
 
 impl<R> From<R> for SourceReader<R> {
@@ -87,15 +86,8 @@ impl<R> From<R> for SourceReader<R> {
 impl<R: Read> Read for SourceReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let n = self.reader.read(buf)?;
-        if self.crc_value == 0 {
-            if n > 0 {
-                self.size += n;
-                self.crc.update(&buf[..n]);
-            } else {
-                let crc = std::mem::replace(&mut self.crc, crate::reader::CRC32.digest());
-                self.crc_value = crc.finalize();
-            }
-        }
+        self.size += n;
+        self.crc.update(&buf[..n]);
         Ok(n)
     }
 }
@@ -106,7 +98,6 @@ impl<R> SourceReader<R> {
             reader,
             size: 0,
             crc: crate::reader::CRC32.digest(),
-            crc_value: 0,
         }
     }
 
@@ -114,7 +105,7 @@ impl<R> SourceReader<R> {
         self.size
     }
     pub fn crc_value(&self) -> u32 {
-        self.crc_value
+        self.crc.clone().finalize()
     }
 }
 
-- 
2.43.0


From 409a5cd311e324f936bc50a327aa5e89684b7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 05/47] fix: read coder ids and properties with read_exact

---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3f7457c..84a7109 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -904,7 +904,7 @@ impl Archive {
             coder.id_size = id_size as usize;
 
             header
-                .read(coder.decompression_method_id_mut())
+                .read_exact(coder.decompression_method_id_mut())
                 .map_err(Error::io)?;
             if is_simple {
                 coder.num_in_streams = 1;
@@ -918,7 +918,7 @@ impl Archive {
             if has_attributes {
                 let properties_size = read_usize(header, "properties size")?;
                 let mut props = vec![0u8; properties_size];
-                header.read(&mut props).map_err(Error::io)?;
+                header.read_exact(&mut props).map_err(Error::io)?;
                 coder.properties = props;
             }
             coders.push(coder);
-- 
2.43.0


From 6178122915dda7cd84c977f2d373a5307a491736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 06/47] fix: write_file_anti_items marked every empty entry
 that is not an anti item

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index c727b30..2c053de 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -546,8 +546,8 @@ impl<W: Write + Seek> SevenZWriter<W> {
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-                has_anti |= !is_anti;
-                if !is_anti {
+                has_anti |= is_anti;
+                if is_anti {
                     bitset.insert(counter);
                 }
                 counter += 1;
-- 
2.43.0


From d8080f9c44aac5e551811bc9a6d83412678bf542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 07/47] fix: empty-file and anti bit vectors must cover every
 empty stream

---
 src/writer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 2c053de..7e6398b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -514,10 +514,15 @@ impl<W: Write + Seek> SevenZWriter<W> {
         }
         Ok(())
     }
+
+    fn num_empty_streams(&self) -> usize {
+        self.files.iter().filter(|f| !f.has_stream).count()
+    }
+
     fn write_file_empty_files<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_empty = false;
         let mut empty_stream_counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = BitSet::with_capacity(self.num_empty_streams());
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_dir = entry.is_directory();
@@ -542,7 +547,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     fn write_file_anti_items<H: Write>(&self, header: &mut H) -> std::io::Result<()> {
         let mut has_anti = false;
         let mut counter = 0;
-        let mut bitset = BitSet::new();
+        let mut bitset = BitSet::with_capacity(self.num_empty_streams());
         for entry in self.files.iter() {
             if !entry.has_stream {
                 let is_anti = entry.is_anti_item();
-- 
2.43.0


From ec8d7fce625de3b5bbff5925ef4af0a98f9103f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 08/47] fix: write the defined packed-stream CRCs when not all
 are defined

---
 src/writer/pack_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/pack_info.rs b/src/writer/pack_info.rs
index 48a0d0c..c832042 100644
--- a/src/writer/pack_info.rs
+++ b/src/writer/pack_info.rs
@@ -35,6 +35,9 @@ impl PackInfo {
             let mut temp = Vec::with_capacity(self.len());
             write_bit_set(&mut temp, &crc_define_bits)?;
             header.write_all(&temp)?;
+            for crc in self.crcs.iter().filter(|crc| **crc != 0) {
+                header.write_u32::<LittleEndian>(*crc)?;
+            }
         }
 
         header.write_u8(K_END)?;
-- 
2.43.0


From acb74202cd099e17c426119f785a98706268dc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 09/47] fix: a single sub-stream's CRC is the folder's and must
 never be repeated

---
 src/writer/unpack_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/unpack_info.rs b/src/writer/unpack_info.rs
index 9a327f6..fa6e0e6 100644
--- a/src/writer/unpack_info.rs
+++ b/src/writer/unpack_info.rs
@@ -81,7 +81,7 @@ impl UnpackInfo {
         header.write_u8(K_CRC)?;
         header.write_u8(1)?; // all crc defined
         for f in &self.folders {
-            if f.sub_stream_crcs.len() <= 1 && f.crc != 0 {
+            if f.num_sub_unpack_streams == 1 {
                 continue;
             }
             for i in 0..f.sub_stream_crcs.len() {
-- 
2.43.0


From b86a92f7fdb4d9a43b6b4f55da6546a35c8d7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 10/47] fix: entries of a solid block have a stream

---
 src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/writer.rs b/src/writer.rs
index 7e6398b..4745d8e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -317,6 +317,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
             sub_stream_crcs.push(entry.crc as u32);
             sub_stream_sizes.push(entry.size);
             entry.has_crc = true;
+            entry.has_stream = true;
         }
 
         self.pack_info
-- 
2.43.0


From 6628bf65f742926d0a21e43a0ce6b81a3f4950cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 11/47] fix: never fall back to a plain header when header
 encryption is on

---
 src/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 4745d8e..63b7a11 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -415,10 +415,12 @@ impl<W: Write + Seek> SevenZWriter<W> {
         let crc = CRC32.checksum(&raw_header);
         let mut methods = vec![];
 
+        let mut encrypted = false;
         if self.encrypt_header {
             for conf in self.content_methods.iter() {
                 if conf.method.id() == SevenZMethod::AES256SHA256.id() {
                     methods.push(conf.clone());
+                    encrypted = true;
                     break;
                 }
             }
@@ -440,7 +442,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
         let compress_crc = compressed.crc_value();
         let compress_size = *compressed.bytes_written;
-        if compress_size as u64 + 20 >= size {
+        if !encrypted && compress_size as u64 + 20 >= size {
             // compression made it worse. Write raw data
             header.write_all(&raw_header)?;
             return Ok(());
-- 
2.43.0


From b466197ea9e72fa93bdceb28b7b2af60037ef37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 12/47] fix: refuse entry names that lead outside the
 destination directory

---
 src/de_funcs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 468cce7..1b06234 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -1,6 +1,6 @@
 use crate::{password::Password, Error, *};
 use std::io::{Read, Seek};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 ///
 /// decompress a 7z file
 /// # Example
@@ -99,7 +99,15 @@ fn decompress_impl<R: Read + Seek>(
         std::fs::create_dir_all(&dest).map_err(Error::io)?;
     }
     seven.for_each_entries(|entry, reader| {
-        let dest_path = dest.join(entry.name());
+        let name = Path::new(entry.name());
+        let inside = |c| matches!(c, Component::Normal(_) | Component::CurDir);
+        if !name.components().all(inside) {
+            return Err(Error::other(format!(
+                "Entry name leaves the destination directory: {}",
+                entry.name()
+            )));
+        }
+        let dest_path = dest.join(name);
         extract_fn(entry, reader, &dest_path)
     })?;
 
-- 
2.43.0


From 95718b69516ef319ce9fdd27f5b726789a702787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 13/47] fix: AES key derivation must not panic on valid or
 hostile properties

---
 src/aes256sha256.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9f44bcb..9eef835 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -135,10 +135,16 @@ fn get_aes_key(properties: &[u8], password: &[u8]) -> Result<([u8; 32], [u8; 16]
     }
     let aes_key = if num_cycles_power == 0x3f {
         let mut aes_key = [0u8; 32];
-        aes_key.copy_from_slice(&salt[..salt_size]);
-        let n = password.len().min(aes_key.len() - salt_size);
-        aes_key[salt_size..n + salt_size].copy_from_slice(&password[0..n]);
+        for (key, byte) in aes_key.iter_mut().zip(salt.iter().chain(password)) {
+            *key = *byte;
+        }
         aes_key
+    } else if num_cycles_power > 24 {
+        // same limit as 7-Zip
+        return Err(crate::Error::unsupported(format!(
+            "AES256 cycles power {}",
+            num_cycles_power
+        )));
     } else {
         let mut sha = sha2::Sha256::default();
         let mut extra = [0u8; 8];
-- 
2.43.0


From 37826190451a4529843aca6d9da258fe63571ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 14/47] fix: AES decoder must accept reads shorter than the
 rest of a block

---
 src/aes256sha256.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index 9eef835..d57a50b 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -186,8 +186,11 @@ impl Cipher {
         let mut n = 0;
         if !self.buf.is_empty() {
             assert!(self.buf.len() < 16);
-            let end = 16 - self.buf.len();
+            let end = data.len().min(16 - self.buf.len());
             self.buf.extend_from_slice(&data[..end]);
+            if self.buf.len() < 16 {
+                return Ok(0);
+            }
             data = &mut data[end..];
             let block = GenericArray::from_mut_slice(&mut self.buf);
             self.dec.decrypt_block_mut(block);
-- 
2.43.0


From 55b097750e472b8ad778baa61684bf4327680f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 15/47] fix: LZMA2 uncompressed chunk of 64 KiB overflowed its
 size

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index 8fd1daa..db827c7 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -119,7 +119,7 @@ impl<R: Read> LZMA2Reader<R> {
             ));
         } else {
             self.is_lzma_chunk = false;
-            self.uncompressed_size = (self.inner.read_u16::<BigEndian>()? + 1) as _;
+            self.uncompressed_size = self.inner.read_u16::<BigEndian>()? as usize + 1;
         }
         Ok(())
     }
-- 
2.43.0


From bf26d3a716a2d49b132d6ca1692f95fc0df30124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 16/47] fix: LZMA2 dictionary size of 4 GiB - 1 overflowed when
 rounded up

---
 lzma-rust/src/lzma2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma-rust/src/lzma2_reader.rs b/lzma-rust/src/lzma2_reader.rs
index db827c7..c81f631 100644
--- a/lzma-rust/src/lzma2_reader.rs
+++ b/lzma-rust/src/lzma2_reader.rs
@@ -39,7 +39,7 @@ pub fn get_memery_usage(dict_size: u32) -> u32 {
 
 #[inline]
 fn get_dict_size(dict_size: u32) -> u32 {
-    dict_size + 15 & !15
+    (dict_size.min(crate::DICT_SIZE_MAX) + 15) & !15
 }
 
 impl<R> LZMA2Reader<R> {
-- 
2.43.0


From 009e7ba151cbd6fc42958939ff24ae8329998e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 17/47] fix: LZMAReader truncated the remaining size to 32 bits
 and hung on 4 GiB streams

---
 lzma-rust/src/lzma_reader.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lzma-rust/src/lzma_reader.rs b/lzma-rust/src/lzma_reader.rs
index 653dd97..1961ac4 100644
--- a/lzma-rust/src/lzma_reader.rs
+++ b/lzma-rust/src/lzma_reader.rs
@@ -204,14 +204,14 @@ impl<R: Read> LZMAReader<R> {
             return Ok(0);
         }
         let mut size = 0;
-        let mut len = buf.len() as u32;
-        let mut off = 0u32;
+        let mut len = buf.len();
+        let mut off = 0;
         while len > 0 {
-            let mut copy_size_max = len as u32;
-            if self.remaining_size <= u64::MAX / 2 && (self.remaining_size as u32) < len {
-                copy_size_max = self.remaining_size as u32;
+            let mut copy_size_max = len;
+            if self.remaining_size <= u64::MAX / 2 && self.remaining_size < len as u64 {
+                copy_size_max = self.remaining_size as usize;
             }
-            self.lz.set_limit(copy_size_max as usize);
+            self.lz.set_limit(copy_size_max);
 
             match self.lzma.decode(&mut self.lz, &mut self.rc) {
                 Ok(_) => {}
@@ -224,7 +224,7 @@ impl<R: Read> LZMAReader<R> {
                 }
             }
 
-            let copied_size = self.lz.flush(buf, off as _) as u32;
+            let copied_size = self.lz.flush(buf, off);
             off += copied_size;
             len -= copied_size;
             size += copied_size;
@@ -244,10 +244,10 @@ impl<R: Read> LZMAReader<R> {
                         "end reached but not decoder finished",
                     ));
                 }
-                return Ok(size as _);
+                return Ok(size);
             }
         }
-        Ok(size as _)
+        Ok(size)
     }
 }
 
-- 
2.43.0


From 5ebd0555aaf2b918b3f46994f3a07fdec4d8383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 18/47] fix: a too short LZMA2 chunk must be an error, not a
 panic

---
 lzma-rust/src/range_dec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lzma-rust/src/range_dec.rs b/lzma-rust/src/range_dec.rs
index 47a312c..837e62a 100644
--- a/lzma-rust/src/range_dec.rs
+++ b/lzma-rust/src/range_dec.rs
@@ -177,7 +177,11 @@ impl RangeDecoderBuffer {
 }
 impl RangeSource for RangeDecoderBuffer {
     fn next_byte(&mut self) -> Result<u8> {
-        let b = self.buf[self.pos];
+        let b = self
+            .buf
+            .get(self.pos)
+            .copied()
+            .ok_or(ErrorKind::UnexpectedEof)?;
         self.pos += 1;
         Ok(b)
     }
-- 
2.43.0


From 41549cdc01ef9946856c438bb14c186666f59cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 19/47] fix: AES encoder byte counter overflowed at 4 GiB

---
 src/aes256sha256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aes256sha256.rs b/src/aes256sha256.rs
index d57a50b..7c969bd 100644
--- a/src/aes256sha256.rs
+++ b/src/aes256sha256.rs
@@ -235,7 +235,7 @@ mod enc {
         enc: Aes256CbcEnc,
         buffer: Vec<u8>,
         done: bool,
-        write_size: u32,
+        write_size: u64,
     }
     #[derive(Debug, Clone)]
     pub struct AesEncoderOptions {
@@ -303,7 +303,7 @@ mod enc {
             let block2 = GenericArray::from_mut_slice(block);
             self.enc.encrypt_block_mut(block2);
             self.output.write_all(block)?;
-            self.write_size += block.len() as u32;
+            self.write_size += block.len() as u64;
             Ok(())
         }
     }
-- 
2.43.0


From af2324aa12a2bf5561f9c983f3b9e47680c8f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 20/47] fix: do not mask the header size to 32 bits

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 63b7a11..56702f2 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -381,7 +381,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
 
             // start header
             hhw.write_u64::<LittleEndian>(header_pos - SIGNATURE_HEADER_SIZE)?;
-            hhw.write_u64::<LittleEndian>(0xffffffff & header.len() as u64)?;
+            hhw.write_u64::<LittleEndian>(header.len() as u64)?;
             hhw.write_u32::<LittleEndian>(crc32)?;
         }
         let crc32 = CRC32.checksum(&hh[12..]);
-- 
2.43.0


From 559bb382a69da8b5450ff751f7d3aa1c7a573fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 21/47] fix: short LZMA properties must be an error, not a
 panic

---
 src/decoders.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 8c6a31b..7728e1d 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -171,6 +171,9 @@ fn get_lzma2_dic_size(coder: &Coder) -> Result<u32, Error> {
 
 #[inline]
 fn get_lzma_dic_size(coder: &Coder) -> Result<u32, Error> {
-    let mut props = &coder.properties[1..5];
+    let mut props = coder
+        .properties
+        .get(1..5)
+        .ok_or(Error::other("LZMA properties too short"))?;
     props.read_u32::<LittleEndian>().map_err(Error::io)
 }
-- 
2.43.0


From 009f0193c0f5f25f43ba779dbfe90534b1094c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 22/47] fix: BCJ and BCJ2 positions are modulo 2^32 and must
 not overflow

---
 src/bcj/arm.rs          | 10 +++++++---
 src/bcj/ppc.rs          |  6 +++++-
 src/bcj/sparc.rs        |  6 +++++-
 src/bcj/x86.rs          |  4 ++--
 src/bcj2/bcj2_decode.rs |  6 +++---
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/bcj/arm.rs b/src/bcj/arm.rs
index 861e683..74a36a7 100644
--- a/src/bcj/arm.rs
+++ b/src/bcj/arm.rs
@@ -36,7 +36,11 @@ impl BCJFilter {
 
                 let src = ((b2 << 16) | (b1 << 8) | (b0)) << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 buf[i + 2] = ((dest >> 16) & 0xff) as u8;
                 buf[i + 1] = ((dest >> 8) & 0xff) as u8;
@@ -70,9 +74,9 @@ impl BCJFilter {
                 let src = src << 1;
 
                 let dest = if self.is_encoder {
-                    src + (self.pos + i) as i32
+                    src.wrapping_add((self.pos + i) as i32)
                 } else {
-                    src - (self.pos + i) as i32
+                    src.wrapping_sub((self.pos + i) as i32)
                 };
                 let dest = dest >> 1;
                 buf[i + 1] = (0xF0 | ((dest >> 19) & 0x07)) as u8;
diff --git a/src/bcj/ppc.rs b/src/bcj/ppc.rs
index 4ab002f..6fc8a89 100644
--- a/src/bcj/ppc.rs
+++ b/src/bcj/ppc.rs
@@ -29,7 +29,11 @@ impl BCJFilter {
                     ((b0 & 0x03) << 24) | ((b1 & 0xff) << 16) | ((b2 & 0xff) << 8) | (b3 & 0xFC);
 
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
 
                 buf[i] = (0x48 | ((dest >> 24) & 0x03)) as u8;
                 buf[i + 1] = (dest >> 16) as u8;
diff --git a/src/bcj/sparc.rs b/src/bcj/sparc.rs
index 11bc78c..1f0fda0 100644
--- a/src/bcj/sparc.rs
+++ b/src/bcj/sparc.rs
@@ -28,7 +28,11 @@ impl BCJFilter {
                     ((b0 & 0xFF) << 24) | ((b1 & 0xFF) << 16) | ((b2 & 0xFF) << 8) | (b3 & 0xFF);
                 let src = src << 2;
                 let p = (self.pos + i) as i32;
-                let dest = if self.is_encoder { src + p } else { src - p };
+                let dest = if self.is_encoder {
+                    src.wrapping_add(p)
+                } else {
+                    src.wrapping_sub(p)
+                };
                 let dest = dest >> 2;
                 let dest = (((0 - ((dest >> 22) & 1)) << 22) & 0x3FFFFFFF)
                     | (dest & 0x3FFFFF)
diff --git a/src/bcj/x86.rs b/src/bcj/x86.rs
index 9e47b03..9d9a7ba 100644
--- a/src/bcj/x86.rs
+++ b/src/bcj/x86.rs
@@ -56,9 +56,9 @@ impl BCJFilter {
                 let mut dest: i32;
                 loop {
                     if self.is_encoder {
-                        dest = src + (self.pos + i) as i32;
+                        dest = src.wrapping_add((self.pos + i) as i32);
                     } else {
-                        dest = src - (self.pos + i) as i32;
+                        dest = src.wrapping_sub((self.pos + i) as i32);
                     }
 
                     if prev_mask == 0 {
diff --git a/src/bcj2/bcj2_decode.rs b/src/bcj2/bcj2_decode.rs
index 4c58bfa..4046501 100644
--- a/src/bcj2/bcj2_decode.rs
+++ b/src/bcj2/bcj2_decode.rs
@@ -158,7 +158,7 @@ impl Bcj2Decoder {
                     if src == src_lim {
                         self.temp[3] = src_bufs[src - 1];
                         self.bufs[BCJ2_STREAM_MAIN] = src;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
                         self.state = if self.bufs[BCJ2_STREAM_MAIN] == self.lims[BCJ2_STREAM_MAIN] {
                             BCJ2_STREAM_MAIN
@@ -179,7 +179,7 @@ impl Bcj2Decoder {
                         self.temp[3] = b;
                         self.bufs[BCJ2_STREAM_MAIN] = src + 1;
                         num += 1;
-                        self.ip += num as u32;
+                        self.ip = self.ip.wrapping_add(num as u32);
                         self.dest += num;
 
                         let prob = &mut self.probs[if b == 0xE8 {
@@ -227,7 +227,7 @@ impl Bcj2Decoder {
                 };
                 self.bufs[cj] = cur + 4;
 
-                self.ip += 4;
+                self.ip = self.ip.wrapping_add(4);
                 val = val.wrapping_sub(self.ip);
                 let dest = self.dest;
                 let rem = dest_lim - dest;
-- 
2.43.0


From 014b4ca13ddeab1fe3b6775028a6f010148edc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 23/47] fix: SevenZReader::for_each_entries went on after the
 callback asked to stop

---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 84a7109..16a0030 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1369,7 +1369,9 @@ impl<R: Read + Seek> SevenZReader<R> {
                 &self.password,
                 &mut self.source,
             );
-            forder_dec.for_each_entries(&mut each)?;
+            if !forder_dec.for_each_entries(&mut each)? {
+                return Ok(());
+            }
         }
         // decode empty files
         for file_index in 0..self.archive.files.len() {
-- 
2.43.0


From dd567acbc7cfcb1564ecd1aa601d72a155d83764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 24/47] fix: BlockDecoder lost entries when empty files are
 listed between those of a block

---
 src/reader.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 16a0030..d6e1ea1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1416,13 +1416,22 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
     }
 
     pub fn entries(&self) -> &[SevenZArchiveEntry] {
-        let start = self.archive.stream_map.folder_first_file_index[self.folder_index];
-        let file_count = self.archive.folders[self.folder_index].num_unpack_sub_streams;
-        &self.archive.files[start..(file_count + start)]
+        &self.archive.files[self.file_range()]
     }
 
     pub fn entry_count(&self) -> usize {
-        self.archive.folders[self.folder_index].num_unpack_sub_streams
+        self.file_range().len()
+    }
+
+    /// The files of this block, including the empty ones listed between them.
+    fn file_range(&self) -> std::ops::Range<usize> {
+        let stream_map = &self.archive.stream_map;
+        let start = stream_map.folder_first_file_index[self.folder_index];
+        let count = stream_map.file_folder_index[start..]
+            .iter()
+            .take_while(|index| **index == Some(self.folder_index))
+            .count();
+        start..(start + count)
     }
 
     /// Takes a closure to decode each files in this block.
@@ -1439,6 +1448,7 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
         self,
         each: &mut F,
     ) -> Result<bool, Error> {
+        let file_range = self.file_range();
         let Self {
             folder_index,
             archive,
@@ -1447,10 +1457,8 @@ impl<'a, R: Read + Seek> BlockDecoder<'a, R> {
         } = self;
         let (mut folder_reader, _size) =
             SevenZReader::build_decode_stack(source, archive, folder_index, password)?;
-        let start = archive.stream_map.folder_first_file_index[folder_index];
-        let file_count = archive.folders[folder_index].num_unpack_sub_streams;
 
-        for file_index in start..(file_count + start) {
+        for file_index in file_range {
             let file = &archive.files[file_index];
             if file.has_stream && file.size > 0 {
                 let mut decoder: Box<dyn Read> =
-- 
2.43.0


From e2afee21ed3fa35452586e53ba2be324e2535697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 25/47] fix: report a parent directory that cannot be created
 while extracting

---
 src/de_funcs.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 1b06234..021cd08 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -129,13 +129,11 @@ pub fn default_entry_extract_fn(
         }
     } else {
         let path = dest;
-        path.parent().and_then(|p| {
+        if let Some(p) = path.parent() {
             if !p.exists() {
-                std::fs::create_dir_all(p).ok()
-            } else {
-                None
+                std::fs::create_dir_all(p).map_err(Error::io)?;
             }
-        });
+        }
         let file = File::create(path)
             .map_err(|e| Error::file_open(e, path.to_string_lossy().to_string()))?;
         if entry.size() > 0 {
-- 
2.43.0


From 4170e1d26e7659770fac09f1a8f4af794fddec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 26/47] fix: extraction succeeded although the last bytes of a
 file were not written

---
 src/de_funcs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 021cd08..298e25f 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -139,15 +139,16 @@ pub fn default_entry_extract_fn(
         if entry.size() > 0 {
             let mut writer = BufWriter::new(file);
             std::io::copy(reader, &mut writer).map_err(Error::io)?;
+            let file = writer.into_inner().map_err(|e| Error::io(e.into_error()))?;
             ft::set_file_handle_times(
-                writer.get_ref(),
+                &file,
                 Some(ft::FileTime::from_system_time(entry.access_date().into())),
                 Some(ft::FileTime::from_system_time(
                     entry.last_modified_date().into(),
                 )),
                 Some(ft::FileTime::from_system_time(entry.creation_date().into())),
             )
-            .unwrap_or_default();
+            .map_err(Error::io)?;
         }
     }
     Ok(true)
-- 
2.43.0


From 721692ce8c1613cee642f24d2ca848fe222d308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 27/47] fix: extraction set file times the archive does not
 record

---
 src/de_funcs.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/de_funcs.rs b/src/de_funcs.rs
index 298e25f..c9ac792 100644
--- a/src/de_funcs.rs
+++ b/src/de_funcs.rs
@@ -142,11 +142,15 @@ pub fn default_entry_extract_fn(
             let file = writer.into_inner().map_err(|e| Error::io(e.into_error()))?;
             ft::set_file_handle_times(
                 &file,
-                Some(ft::FileTime::from_system_time(entry.access_date().into())),
-                Some(ft::FileTime::from_system_time(
-                    entry.last_modified_date().into(),
-                )),
-                Some(ft::FileTime::from_system_time(entry.creation_date().into())),
+                entry
+                    .has_access_date
+                    .then(|| ft::FileTime::from_system_time(entry.access_date().into())),
+                entry
+                    .has_last_modified_date
+                    .then(|| ft::FileTime::from_system_time(entry.last_modified_date().into())),
+                entry
+                    .has_creation_date
+                    .then(|| ft::FileTime::from_system_time(entry.creation_date().into())),
             )
             .map_err(Error::io)?;
         }
-- 
2.43.0


From 6e7d6280fd635a16823b387859d94f8a541f218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 28/47] fix: reject multi-stream coders whose stream counts the
 decoder does not handle

---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d6e1ea1..07af598 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1257,7 +1257,13 @@ impl<R: Read + Seek> SevenZReader<R> {
             return Err(Error::unsupported(format!("Unsupported method: {:?}", id)));
         }
 
-        let num_in_streams = folder.coders[main_coder_index].num_in_streams as usize;
+        let main_coder = &folder.coders[main_coder_index];
+        if main_coder.num_in_streams != 4 || main_coder.num_out_streams != 1 {
+            return Err(Error::unsupported(
+                "BCJ2 coder must have 4 input streams and 1 output stream",
+            ));
+        }
+        let num_in_streams = main_coder.num_in_streams as usize;
         let mut inputs: Vec<Box<dyn Read>> = Vec::with_capacity(num_in_streams);
         let start_i = coder_to_stream_map[main_coder_index];
         for i in start_i..num_in_streams + start_i {
@@ -1334,7 +1340,7 @@ impl<R: Read + Seek> SevenZReader<R> {
             return Err(Error::other("in_stream_index out of range"));
         }
         let uncompressed_len = folder.unpack_sizes[in_stream_index] as usize;
-        if coder.num_in_streams == 1 {
+        if coder.num_in_streams == 1 && coder.num_out_streams == 1 {
             let input =
                 Self::get_in_stream(folder, sources, coder_to_stream_map, password, start_index)?;
 
-- 
2.43.0


From c6cb33bf09bfd42696f43ee3f769618d2cb11c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 29/47] fix: a failed push shifted every later packed stream

---
 src/writer.rs | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 56702f2..c476046 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -165,9 +165,30 @@ impl<W: Write + Seek> SevenZWriter<W> {
     /// ```
     pub fn push_archive_entry<R: Read>(
         &mut self,
-        mut entry: SevenZArchiveEntry,
+        entry: SevenZArchiveEntry,
         reader: Option<R>,
     ) -> Result<&SevenZArchiveEntry> {
+        let start = self.output.stream_position().map_err(Error::io)?;
+        if let Err(e) = self.compress_entry(entry, reader) {
+            self.discard_from(start)?;
+            return Err(e);
+        }
+        Ok(self.files.last().unwrap())
+    }
+
+    /// Packed streams must follow each other: what a failed push has already written is overwritten by the next one.
+    fn discard_from(&mut self, start: u64) -> Result<()> {
+        self.output
+            .seek(std::io::SeekFrom::Start(start))
+            .map_err(Error::io)?;
+        Ok(())
+    }
+
+    fn compress_entry<R: Read>(
+        &mut self,
+        mut entry: SevenZArchiveEntry,
+        reader: Option<R>,
+    ) -> Result<()> {
         if !entry.is_directory {
             if let Some(mut r) = reader {
                 let mut compressed_len = 0;
@@ -228,7 +249,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
                 self.unpack_info.add(content_methods.clone(), sizes, crc);
 
                 self.files.push(entry);
-                return Ok(self.files.last().unwrap());
+                return Ok(());
             }
         }
         entry.has_stream = false;
@@ -236,7 +257,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
         entry.compressed_size = 0;
         entry.has_crc = false;
         self.files.push(entry);
-        Ok(self.files.last().unwrap())
+        Ok(())
     }
 
     /// [Solid compression](https://en.wikipedia.org/wiki/Solid_compression)
@@ -245,9 +266,22 @@ impl<W: Write + Seek> SevenZWriter<W> {
     /// Panics if `entries`'s length not equals to `reader.reader_len()`
     pub fn push_archive_entries<R: Read>(
         &mut self,
-        mut entries: Vec<SevenZArchiveEntry>,
+        entries: Vec<SevenZArchiveEntry>,
         reader: SeqReader<SourceReader<R>>,
     ) -> Result<&mut Self> {
+        let start = self.output.stream_position().map_err(Error::io)?;
+        if let Err(e) = self.compress_entries(entries, reader) {
+            self.discard_from(start)?;
+            return Err(e);
+        }
+        Ok(self)
+    }
+
+    fn compress_entries<R: Read>(
+        &mut self,
+        mut entries: Vec<SevenZArchiveEntry>,
+        reader: SeqReader<SourceReader<R>>,
+    ) -> Result<()> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
         let mut compressed_len = 0;
@@ -337,7 +371,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
         );
 
         self.files.extend(entries);
-        Ok(self)
+        Ok(())
     }
 
     fn create_writer<'a, O: Write + 'a>(
-- 
2.43.0


From fa1ccb6f9cfec2c9436fac13c7d1f3b51a69ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 30/47] fix: searching for a lost end header panicked on short
 files

The search went on before the end of the signature header, where the
offset relative to it is negative.
---
 src/reader.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 07af598..9208949 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -294,12 +294,8 @@ impl Archive {
         let search_limit = 1024 * 1024;
         let prev_data_size = reader.stream_position().map_err(Error::io)? + 20;
         let size = reader_len;
-        let min_pos = if reader.stream_position().map_err(Error::io)? + search_limit > size {
-            reader.stream_position().map_err(Error::io)?
-        } else {
-            size - search_limit
-        };
-        let mut pos = reader_len - 1;
+        let min_pos = prev_data_size.max(size.saturating_sub(search_limit));
+        let mut pos = reader_len.saturating_sub(1);
         while pos > min_pos {
             pos -= 1;
 
-- 
2.43.0


From a98e48c7bade066a4831106cbdebdd12f9001bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 31/47] fix: header offsets and sizes from the file could
 overflow

---
 src/reader.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9208949..4f3c351 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -336,14 +336,21 @@ impl Archive {
 
         let next_header_size_int = start_header.next_header_size as usize;
 
+        let header_pos = SIGNATURE_HEADER_SIZE
+            .checked_add(start_header.next_header_offset)
+            .ok_or_else(|| Error::other("next header offset out of range"))?;
         reader
-            .seek(SeekFrom::Start(
-                SIGNATURE_HEADER_SIZE + start_header.next_header_offset,
-            ))
+            .seek(SeekFrom::Start(header_pos))
             .map_err(Error::io)?;
 
-        let mut buf = vec![0; next_header_size_int];
-        reader.read_exact(&mut buf).map_err(Error::io)?;
+        let mut buf = Vec::new();
+        reader
+            .take(start_header.next_header_size)
+            .read_to_end(&mut buf)
+            .map_err(Error::io)?;
+        if buf.len() != next_header_size_int {
+            return Err(Error::io(ErrorKind::UnexpectedEof.into()));
+        }
         if verify_crc && crc32_cksum(&buf) as u64 != start_header.next_header_crc {
             return Err(Error::NextHeaderCrcMismatch);
         }
@@ -352,12 +359,19 @@ impl Archive {
         let mut buf_reader = buf.as_slice();
         let mut nid = read_u8(&mut buf_reader)?;
         let mut header = if nid == K_ENCODED_HEADER {
-            let (mut out_reader, buf_size) =
+            let (out_reader, buf_size) =
                 Self::read_encoded_header(&mut buf_reader, reader, &mut archive, password)?;
             buf.clear();
-            buf.resize(buf_size, 0);
             out_reader
-                .read_exact(&mut buf)
+                .take(buf_size as u64)
+                .read_to_end(&mut buf)
+                .and_then(|n| {
+                    if n == buf_size {
+                        Ok(n)
+                    } else {
+                        Err(ErrorKind::UnexpectedEof.into())
+                    }
+                })
                 .map_err(|e| Error::bad_password(e, !password.is_empty()))?;
             archive = Archive::default();
             buf_reader = buf.as_slice();
-- 
2.43.0


From 3645e4cda31d0a023f68465961ef0a158cc9d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 32/47] fix: counts and property sizes in the header could
 overflow

---
 src/reader.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4f3c351..c2251a6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -327,14 +327,7 @@ impl Archive {
         password: &[u8],
         verify_crc: bool,
     ) -> Result<Self, Error> {
-        if start_header.next_header_size > usize::MAX as u64 {
-            return Err(Error::other(format!(
-                "Cannot handle next_header_size {}",
-                start_header.next_header_size
-            )));
-        }
-
-        let next_header_size_int = start_header.next_header_size as usize;
+        let next_header_size_int = assert_usize(start_header.next_header_size, "next header size")?;
 
         let header_pos = SIGNATURE_HEADER_SIZE
             .checked_add(start_header.next_header_offset)
@@ -508,7 +501,7 @@ impl Archive {
                     if external != 0 {
                         return Err(Error::other("Not implemented:external != 0"));
                     }
-                    if (size - 1) & 1 != 0 {
+                    if size & 1 == 0 {
                         return Err(Error::other("file names length invalid"));
                     }
 
@@ -519,7 +512,10 @@ impl Archive {
 
                     let mut next_file = 0;
                     for s in names_reader {
-                        files[next_file].name = s?;
+                        let file = files
+                            .get_mut(next_file)
+                            .ok_or_else(|| Error::other("Error parsing file names"))?;
+                        file.name = s?;
                         next_file += 1;
                     }
 
@@ -593,11 +589,13 @@ impl Archive {
                 }
                 K_START_POS => return Err(Error::other("kStartPos is unsupported, please report")),
                 K_DUMMY => {
+                    let size = assert_usize(size, "dummy size")?;
                     header
                         .seek(SeekFrom::Current(size as i64))
                         .map_err(Error::io)?;
                 }
                 _ => {
+                    let size = assert_usize(size, "property size")?;
                     header
                         .seek(SeekFrom::Current(size as i64))
                         .map_err(Error::io)?;
@@ -1000,7 +998,8 @@ fn read_usize<R: Read>(reader: &mut R, field: &str) -> Result<usize, Error> {
 
 #[inline]
 fn assert_usize(size: u64, field: &str) -> Result<usize, Error> {
-    if size > usize::MAX as u64 {
+    // same limit as 7-Zip and commons-compress
+    if size > i32::MAX as u64 {
         return Err(Error::other(format!("Cannot handle {} {}", field, size)));
     }
     Ok(size as usize)
-- 
2.43.0


From c64573a6ed807153d160e097748019673e26d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 33/47] fix: sums of stream sizes from the header could
 overflow

---
 src/reader.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c2251a6..e4699c6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -394,7 +394,7 @@ impl Archive {
             .first()
             .ok_or(Error::other("no folders, can't read encoded header"))?;
         let first_pack_stream_index = 0;
-        let folder_offset = SIGNATURE_HEADER_SIZE + archive.pack_pos;
+        let folder_offset = add_sizes(SIGNATURE_HEADER_SIZE, archive.pack_pos)?;
         if archive.pack_sizes.is_empty() {
             return Err(Error::other("no packed streams, can't read encoded header"));
         }
@@ -404,9 +404,11 @@ impl Archive {
             .map_err(Error::io)?;
         let coder_len = folder.coders.len();
         let unpack_size = folder.get_unpack_size() as usize;
-        let pack_size = archive.pack_sizes[first_pack_stream_index] as usize;
-        let input_reader =
-            SeekableBoundedReader::new(reader, (folder_offset, folder_offset + pack_size as u64));
+        let pack_size = archive.pack_sizes[first_pack_stream_index];
+        let input_reader = SeekableBoundedReader::new(
+            reader,
+            (folder_offset, add_sizes(folder_offset, pack_size)?),
+        );
         let mut decoder: Box<dyn Read> = Box::new(input_reader);
         let mut decoder = if coder_len > 0 {
             for (index, coder) in folder.ordered_coder_iter() {
@@ -662,7 +664,7 @@ impl Archive {
         stream_map.pack_stream_offsets = vec![0; num_pack_sizes];
         for i in 0..num_pack_sizes {
             stream_map.pack_stream_offsets[i] = next_pack_stream_offset;
-            next_pack_stream_offset += archive.pack_sizes[i];
+            next_pack_stream_offset = add_sizes(next_pack_stream_offset, archive.pack_sizes[i])?;
         }
 
         stream_map.folder_first_file_index = vec![0; num_folders];
@@ -807,7 +809,10 @@ impl Archive {
             for folder in archive.folders.iter_mut() {
                 let num_streams = read_usize(header, "numStreams")?;
                 folder.num_unpack_sub_streams = num_streams;
-                total_unpack_streams += num_streams;
+                total_unpack_streams = assert_usize(
+                    (total_unpack_streams + num_streams) as u64,
+                    "total unpack streams",
+                )?;
             }
             nid = read_u8(header)?;
         }
@@ -826,13 +831,13 @@ impl Archive {
             if folder.num_unpack_sub_streams == 0 {
                 continue;
             }
-            let mut sum = 0;
+            let mut sum = 0u64;
             if nid == K_SIZE {
                 for _i in 0..folder.num_unpack_sub_streams - 1 {
                     let size = read_u64(header)?;
                     sub_streams_info.unpack_sizes[next_unpack_stream] = size;
                     next_unpack_stream += 1;
-                    sum += size;
+                    sum = add_sizes(sum, size)?;
                 }
             }
             if sum > folder.get_unpack_size() {
@@ -1005,6 +1010,12 @@ fn assert_usize(size: u64, field: &str) -> Result<usize, Error> {
     Ok(size as usize)
 }
 
+#[inline]
+fn add_sizes(a: u64, b: u64) -> Result<u64, Error> {
+    a.checked_add(b)
+        .ok_or_else(|| Error::other("stream sizes out of range"))
+}
+
 #[inline]
 fn read_u64le<R: Read>(reader: &mut R) -> Result<u64, Error> {
     let mut buf = [0; 8];
-- 
2.43.0


From 88be9707acff1393c96510abc0a98685590e4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 34/47] fix: more files or blocks than streams in the header
 caused a panic

---
 src/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e4699c6..5e9c5e0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -624,8 +624,13 @@ impl Archive {
                 file.is_directory = false;
                 file.is_anti_item = false;
                 file.has_crc = sub_stream_info.has_crc.contains(non_empty_file_counter);
-                file.crc = sub_stream_info.crcs[non_empty_file_counter];
-                file.size = sub_stream_info.unpack_sizes[non_empty_file_counter];
+                let (crc, size) = sub_stream_info
+                    .crcs
+                    .get(non_empty_file_counter)
+                    .zip(sub_stream_info.unpack_sizes.get(non_empty_file_counter))
+                    .ok_or_else(|| Error::other("more files with streams than streams"))?;
+                file.crc = *crc;
+                file.size = *size;
                 non_empty_file_counter += 1;
             } else {
                 file.is_directory = if let Some(s) = &is_empty_file {
@@ -697,9 +702,12 @@ impl Archive {
             if stream_map.folder_first_file_index[next_folder_index] == i {
                 let first_pack_stream_index =
                     stream_map.folder_first_pack_stream_index[next_folder_index];
-                let pack_size = archive.pack_sizes[first_pack_stream_index];
+                let pack_size = archive
+                    .pack_sizes
+                    .get(first_pack_stream_index)
+                    .ok_or_else(|| Error::other("Too few packed streams in archive"))?;
 
-                archive.files[i].compressed_size = pack_size;
+                archive.files[i].compressed_size = *pack_size;
             }
 
             next_folder_unpack_stream_index += 1;
-- 
2.43.0


From 4bb08a2db4129c0ce0562950fad357d0b386d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 35/47] fix: reading the blocks of an archive without file
 information caused a panic

---
 src/reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5e9c5e0..1dc6f52 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -271,7 +271,7 @@ impl Archive {
             return Err(Error::BadTerminatedheader(nid));
         }
 
-        Ok(())
+        Self::calculate_stream_map(archive)
     }
 
     fn read_archive_properties<R: Read + Seek>(header: &mut R) -> Result<(), Error> {
@@ -648,8 +648,6 @@ impl Archive {
             }
         }
         archive.files = files;
-
-        Self::calculate_stream_map(archive)?;
         Ok(())
     }
 
-- 
2.43.0


From 928eb196af41442b2b3b4cffc295cd24f4733095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 36/47] fix: stream and coder indices from the header caused
 panics while opening a block

---
 src/reader.rs | 62 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1dc6f52..86d21d2 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1187,14 +1187,12 @@ impl<R: Read + Seek> SevenZReader<R> {
         }
         let first_pack_stream_index =
             archive.stream_map.folder_first_pack_stream_index[folder_index];
-        let folder_offset = SIGNATURE_HEADER_SIZE
-            + archive.pack_pos
-            + archive.stream_map.pack_stream_offsets[first_pack_stream_index];
+        let (folder_offset, pack_size) = Self::packed_stream(archive, first_pack_stream_index)?;
 
         source
             .seek(SeekFrom::Start(folder_offset))
             .map_err(Error::io)?;
-        let pack_size = archive.pack_sizes[first_pack_stream_index] as usize;
+        let pack_size = pack_size as usize;
 
         let mut decoder: Box<dyn Read> = Box::new(BoundedReader::new(source, pack_size));
         let folder = &archive.folders[folder_index];
@@ -1243,15 +1241,16 @@ impl<R: Read + Seek> SevenZReader<R> {
         let source = ReaderPtr::new(source);
         let first_pack_stream_index =
             archive.stream_map.folder_first_pack_stream_index[folder_index];
-        let start_pos = SIGNATURE_HEADER_SIZE + archive.pack_pos;
-        let offsets = &archive.stream_map.pack_stream_offsets[first_pack_stream_index..];
+
 
         let mut sources = Vec::with_capacity(folder.packed_streams.len());
         for i in 0..folder.packed_streams.len() {
-            let pack_pos = start_pos + offsets[i];
-            let pack_size = archive.pack_sizes[first_pack_stream_index + i];
-            let pack_reader =
-                SeekableBoundedReader::new(source.clone(), (pack_pos, pack_pos + pack_size));
+            let (pack_pos, pack_size) =
+                Self::packed_stream(archive, first_pack_stream_index + i)?;
+            let pack_reader = SeekableBoundedReader::new(
+                source.clone(),
+                (pack_pos, add_sizes(pack_pos, pack_size)?),
+            );
             sources.push(pack_reader);
         }
 
@@ -1266,7 +1265,9 @@ impl<R: Read + Seek> SevenZReader<R> {
         let main_coder_index = {
             let mut coder_used = [false; MAX_CODER_COUNT];
             for bp in folder.bind_pairs.iter() {
-                coder_used[bp.out_index as usize] = true;
+                if let Some(used) = coder_used.get_mut(bp.out_index as usize) {
+                    *used = true;
+                }
             }
             let mut mci = 0;
             for i in 0..folder.coders.len() {
@@ -1278,12 +1279,14 @@ impl<R: Read + Seek> SevenZReader<R> {
             mci
         };
 
-        let id = folder.coders[main_coder_index].decompression_method_id();
+        let main_coder = folder
+            .coders
+            .get(main_coder_index)
+            .ok_or_else(|| Error::unsupported("block without coders"))?;
+        let id = main_coder.decompression_method_id();
         if id != SevenZMethod::ID_BCJ2 {
             return Err(Error::unsupported(format!("Unsupported method: {:?}", id)));
         }
-
-        let main_coder = &folder.coders[main_coder_index];
         if main_coder.num_in_streams != 4 || main_coder.num_out_streams != 1 {
             return Err(Error::unsupported(
                 "BCJ2 coder must have 4 input streams and 1 output stream",
@@ -1312,10 +1315,20 @@ impl<R: Read + Seek> SevenZReader<R> {
                 folder.crc,
             ));
         }
-        Ok((
-            decoder,
-            archive.pack_sizes[first_pack_stream_index] as usize,
-        ))
+        let (_, pack_size) = Self::packed_stream(archive, first_pack_stream_index)?;
+        Ok((decoder, pack_size as usize))
+    }
+
+    /// Position in the source and size of a packed stream
+    fn packed_stream(archive: &Archive, index: usize) -> Result<(u64, u64), Error> {
+        let (offset, size) = archive
+            .stream_map
+            .pack_stream_offsets
+            .get(index)
+            .zip(archive.pack_sizes.get(index))
+            .ok_or_else(|| Error::other("Too few packed streams in archive"))?;
+        let start = add_sizes(SIGNATURE_HEADER_SIZE, archive.pack_pos)?;
+        Ok((add_sizes(start, *offset)?, *size))
     }
 
     fn get_in_stream<'r>(
@@ -1360,12 +1373,13 @@ impl<R: Read + Seek> SevenZReader<R> {
     where
         R: 'r,
     {
-        let coder = &folder.coders[in_stream_index];
-        let start_index = coder_to_stream_map[in_stream_index];
-        if start_index == usize::MAX {
-            return Err(Error::other("in_stream_index out of range"));
-        }
-        let uncompressed_len = folder.unpack_sizes[in_stream_index] as usize;
+        let (coder, start_index) = folder
+            .coders
+            .get(in_stream_index)
+            .zip(coder_to_stream_map.get(in_stream_index).copied())
+            .filter(|(_, start_index)| *start_index != usize::MAX)
+            .ok_or_else(|| Error::other("in_stream_index out of range"))?;
+        let uncompressed_len = folder.get_unpack_size_at_index(in_stream_index) as usize;
         if coder.num_in_streams == 1 && coder.num_out_streams == 1 {
             let input =
                 Self::get_in_stream(folder, sources, coder_to_stream_map, password, start_index)?;
-- 
2.43.0


From 7de5dc81cd356ec0101edb6868f9cc7403ef845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 37/47] fix: coder and stream counts of a block could overflow

---
 src/reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 86d21d2..7f6bc78 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -9,6 +9,8 @@ use crc::Crc;
 
 use crate::{archive::*, decoders::add_decoder, error::Error, folder::*, password::Password};
 pub(crate) const CRC32: Crc<u32> = Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
+/// Maximum number of coders in a block and of streams of a coder, as in 7-Zip
+const MAX_FOLDER_STREAMS: usize = 64;
 const MAX_MEM_LIMIT_KB: usize = usize::MAX / 1024;
 
 pub(crate) trait SeedRead: Read + Seek {}
@@ -909,6 +911,9 @@ impl Archive {
         let mut folder = Folder::default();
 
         let num_coders = read_usize(header, "num coders")?;
+        if num_coders > MAX_FOLDER_STREAMS {
+            return Err(Error::unsupported(format!("{} coders", num_coders)));
+        }
         let mut coders = Vec::with_capacity(num_coders);
         let mut total_in_streams = 0;
         let mut total_out_streams = 0;
@@ -932,6 +937,11 @@ impl Archive {
                 coder.num_in_streams = read_u64(header)?;
                 coder.num_out_streams = read_u64(header)?;
             }
+            if coder.num_in_streams > MAX_FOLDER_STREAMS as u64
+                || coder.num_out_streams > MAX_FOLDER_STREAMS as u64
+            {
+                return Err(Error::unsupported("too many streams of a coder"));
+            }
             total_in_streams += coder.num_in_streams;
             total_out_streams += coder.num_out_streams;
             if has_attributes {
-- 
2.43.0


From 5e731308e331745433405793c0f229f8a00532c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 38/47] fix: cyclic bind pairs exhausted the stack or never
 ended

Coders are chained by following the bind pairs of the header; a cycle
in them was followed forever.
---
 src/folder.rs | 26 ++++++++++++++++++++++++++
 src/reader.rs |  3 +++
 2 files changed, 29 insertions(+)

diff --git a/src/folder.rs b/src/folder.rs
index 598c91c..7e4e317 100644
--- a/src/folder.rs
+++ b/src/folder.rs
@@ -24,6 +24,32 @@ impl Folder {
         (0..self.bind_pairs.len()).find(|&i| self.bind_pairs[i].out_index == index)
     }
 
+    /// Whether the inputs of every coder come from packed streams or other coders without going round in circles.
+    pub(crate) fn is_acyclic(&self) -> bool {
+        let pairs = &self.bind_pairs;
+        for (i, pair) in pairs.iter().enumerate() {
+            if pairs[..i]
+                .iter()
+                .any(|p| p.in_index == pair.in_index || p.out_index == pair.out_index)
+            {
+                return false;
+            }
+        }
+        let mut resolved = vec![false; self.coders.len()];
+        for _ in 0..self.coders.len() {
+            let mut in_index = 0;
+            for (i, coder) in self.coders.iter().enumerate() {
+                let inputs = in_index..in_index + coder.num_in_streams;
+                in_index = inputs.end;
+                resolved[i] = pairs
+                    .iter()
+                    .filter(|p| inputs.contains(&p.in_index))
+                    .all(|p| resolved.get(p.out_index as usize) == Some(&true));
+            }
+        }
+        resolved.iter().all(|r| *r)
+    }
+
     pub fn get_unpack_size(&self) -> u64 {
         if self.total_output_streams == 0 {
             return 0;
diff --git a/src/reader.rs b/src/reader.rs
index 7f6bc78..bee590f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1001,6 +1001,9 @@ impl Archive {
             }
         }
         folder.packed_streams = packed_streams;
+        if !folder.is_acyclic() {
+            return Err(Error::other("Cyclic or ambiguous bind pairs"));
+        }
 
         Ok(folder)
     }
-- 
2.43.0


From 663466c919a7e8c95bcd5ecfc8786327d9d93ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 39/47] fix: a failure to create the zstd decoder caused a
 panic

---
 src/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 7728e1d..69dfa3c 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -76,7 +76,7 @@ pub fn add_decoder<I: Read>(
         SevenZMethod::ID_COPY => Ok(Decoder::COPY(input)),
         #[cfg(feature = "zstd")]
         SevenZMethod::ID_ZSTD => {
-            let zs = zstd::Decoder::new(input).unwrap();
+            let zs = zstd::Decoder::new(input)?;
             Ok(Decoder::ZSTD(zs))
         }
         SevenZMethod::ID_LZMA => {
-- 
2.43.0


From 368e9fadfa1548718b9bc3c579f2fc4a2b5ba569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 40/47] fix: LZMA2 dictionary sizes were declared smaller than
 the encoder uses

Sizes other than 2^n and 3 * 2^n were rounded down, and sizes below
4 KiB gave a meaningless property.
---
 src/encoders.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index fc20119..0506a4f 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -82,9 +82,10 @@ pub(crate) fn get_options_as_properties<'a>(
             let dict_size = options
                 .map(|o| o.get_lzma2_dict_size())
                 .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
-            let lead = dict_size.leading_zeros();
-            let second_bit = (dict_size >> (30u32.wrapping_sub(lead))).wrapping_sub(2);
-            let prop = (19u32.wrapping_sub(lead) * 2 + second_bit) as u8;
+            // the smallest size a property can express that holds the dictionary
+            let prop = (0..40u8)
+                .find(|p| (2 | (*p as u32 & 1)) << (p / 2 + 11) >= dict_size)
+                .unwrap_or(40);
             out[0] = prop;
             &out[0..1]
         }
-- 
2.43.0


From c737cd60750023a9a0049d6b63dd842316079656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 41/47] fix: compressing a buffer of 2 GiB or more in one write
 failed

---
 lzma-rust/src/lz/lz_encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lzma-rust/src/lz/lz_encoder.rs b/lzma-rust/src/lz/lz_encoder.rs
index 93d410c..a5148de 100644
--- a/lzma-rust/src/lz/lz_encoder.rs
+++ b/lzma-rust/src/lz/lz_encoder.rs
@@ -265,11 +265,9 @@ impl LZEncoderData {
         if self.read_pos >= (self.buf_size as i32 - self.keep_size_after as i32) {
             self.move_window();
         }
-        let len = if input.len() as i32 > self.buf_size as i32 - self.write_pos {
-            (self.buf_size as i32 - self.write_pos) as usize
-        } else {
-            input.len()
-        };
+        let len = input
+            .len()
+            .min((self.buf_size as i32 - self.write_pos) as usize);
         let d_start = self.write_pos as usize;
         let d_end = d_start + len;
         self.buf[d_start..d_end].copy_from_slice(&input[..len]);
-- 
2.43.0


From 49839a6159dae98c09ec564a1258d02c44284355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 42/47] fix: reading into an empty buffer skipped sources

---
 src/writer/seq_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/writer/seq_reader.rs b/src/writer/seq_reader.rs
index 76f60c1..be23085 100644
--- a/src/writer/seq_reader.rs
+++ b/src/writer/seq_reader.rs
@@ -56,6 +56,9 @@ impl<R> SeqReader<R> {
 
 impl<R: Read> Read for SeqReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let mut i = 0;
         while self.current < self.readers.len() {
             let r = &mut self.readers[self.current];
@@ -127,7 +130,7 @@ impl LazyFileReader {
 
 impl Read for LazyFileReader {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        if self.end {
+        if self.end || buf.is_empty() {
             return Ok(0);
         }
         if self.reader.is_none() {
-- 
2.43.0


From d5408ece312007ae7cd01da8713627dd0fab3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 43/47] fix: write the LZMA2 property for the dictionary the
 encoder uses

With options that are not LZMA2 options the encoder falls back to the default
dictionary, but the property byte announced the smallest one, so that the
archive could not be decoded.
---
 src/encoders.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index 0506a4f..d4cde42 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -79,9 +79,9 @@ pub(crate) fn get_options_as_properties<'a>(
 ) -> &'a [u8] {
     match method.id() {
         SevenZMethod::ID_LZMA2 => {
-            let dict_size = options
-                .map(|o| o.get_lzma2_dict_size())
-                .unwrap_or(LZMA2Options::DICT_SIZE_DEFAULT);
+            // the dictionary the encoder is given
+            let mut def_opts = LZMA2Options::default();
+            let dict_size = get_lzma2_options(options, &mut def_opts).dict_size;
             // the smallest size a property can express that holds the dictionary
             let prop = (0..40u8)
                 .find(|p| (2 | (*p as u32 & 1)) << (p / 2 + 11) >= dict_size)
-- 
2.43.0


From 643b49bbfcf9654d8f2d0f7b74f2f6e7be6b1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 44/47] fix: reject LZMA options that give archives nothing can
 decode

lc, lp and pb outside the property byte, lc + lp above 4 for LZMA2, nice_len
above the longest match, and preset dictionaries were all accepted and led to
streams the decoder rejects.
---
 src/encoders.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/encoders.rs b/src/encoders.rs
index d4cde42..83acd5d 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -47,12 +47,14 @@ pub fn add_encoder<W: Write>(
         SevenZMethod::ID_LZMA => {
             let mut def_opts = LZMA2Options::default();
             let options = get_lzma2_options(method_config.options.as_ref(), &mut def_opts);
+            check_lzma_options(options, 8 + 4)?;
             let lz = LZMAWriter::new_no_header(input, options, false).map_err(Error::io)?;
             Ok(Encoder::LZMA(lz))
         }
         SevenZMethod::ID_LZMA2 => {
             let mut def_opts = LZMA2Options::default();
             let options = get_lzma2_options(method_config.options.as_ref(), &mut def_opts);
+            check_lzma_options(options, 4)?;
 
             let lz = LZMA2Writer::new(input, options);
             Ok(Encoder::LZMA2(lz))
@@ -72,6 +74,22 @@ pub fn add_encoder<W: Write>(
     }
 }
 
+/// Options outside these limits cannot be written as properties, or give streams no decoder accepts.
+fn check_lzma_options(options: &LZMA2Options, lc_lp_max: u32) -> Result<(), Error> {
+    if options.lc > 8
+        || options.lp > 4
+        || options.pb > 4
+        || options.lc + options.lp > lc_lp_max
+        || options.nice_len < LZMA2Options::NICE_LEN_MIN
+        || options.nice_len > LZMA2Options::NICE_LEN_MAX
+        || options.dict_size > crate::lzma::DICT_SIZE_MAX
+        || options.preset_dict.is_some()
+    {
+        return Err(Error::other("Unsupported LZMA options"));
+    }
+    Ok(())
+}
+
 pub(crate) fn get_options_as_properties<'a>(
     method: SevenZMethod,
     options: Option<&MethodOptions>,
-- 
2.43.0


From 525a89d055f016d607958ceacb14bbdbe41b7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 45/47] fix: reject blocks with any coder of no or several
 streams instead of decoding around it

---
 src/folder.rs |  8 ++++++++
 src/reader.rs | 25 +++++++++++++++----------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/folder.rs b/src/folder.rs
index 7e4e317..dcb9b19 100644
--- a/src/folder.rs
+++ b/src/folder.rs
@@ -50,6 +50,14 @@ impl Folder {
         resolved.iter().all(|r| *r)
     }
 
+    /// Whether every coder, apart from the one at `main` if given, has one input and one output stream,
+    /// so that the index of a stream is the index of its coder.
+    pub(crate) fn has_simple_coders(&self, main: Option<usize>) -> bool {
+        self.coders.iter().enumerate().all(|(i, coder)| {
+            main == Some(i) || (coder.num_in_streams == 1 && coder.num_out_streams == 1)
+        })
+    }
+
     pub fn get_unpack_size(&self) -> u64 {
         if self.total_output_streams == 0 {
             return 0;
diff --git a/src/reader.rs b/src/reader.rs
index bee590f..e9d0192 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -413,12 +413,12 @@ impl Archive {
         );
         let mut decoder: Box<dyn Read> = Box::new(input_reader);
         let mut decoder = if coder_len > 0 {
+            if !folder.has_simple_coders(None) {
+                return Err(Error::other(
+                    "Multi input/output stream coders are not yet supported",
+                ));
+            }
             for (index, coder) in folder.ordered_coder_iter() {
-                if coder.num_in_streams != 1 || coder.num_out_streams != 1 {
-                    return Err(Error::other(
-                        "Multi input/output stream coders are not yet supported",
-                    ));
-                }
                 let next = crate::decoders::add_decoder(
                     decoder,
                     folder.get_unpack_size_at_index(index) as usize,
@@ -1209,12 +1209,12 @@ impl<R: Read + Seek> SevenZReader<R> {
 
         let mut decoder: Box<dyn Read> = Box::new(BoundedReader::new(source, pack_size));
         let folder = &archive.folders[folder_index];
+        if !folder.has_simple_coders(None) {
+            return Err(Error::unsupported(
+                "Multi input/output stream coders are not yet supported",
+            ));
+        }
         for (index, coder) in folder.ordered_coder_iter() {
-            if coder.num_in_streams != 1 || coder.num_out_streams != 1 {
-                return Err(Error::unsupported(
-                    "Multi input/output stream coders are not yet supported",
-                ));
-            }
             let next = crate::decoders::add_decoder(
                 decoder,
                 folder.get_unpack_size_at_index(index) as usize,
@@ -1305,6 +1305,11 @@ impl<R: Read + Seek> SevenZReader<R> {
                 "BCJ2 coder must have 4 input streams and 1 output stream",
             ));
         }
+        if !folder.has_simple_coders(Some(main_coder_index)) {
+            return Err(Error::unsupported(
+                "Multi input/output stream coders are not yet supported",
+            ));
+        }
         let num_in_streams = main_coder.num_in_streams as usize;
         let mut inputs: Vec<Box<dyn Read>> = Vec::with_capacity(num_in_streams);
         let start_i = coder_to_stream_map[main_coder_index];
-- 
2.43.0


From 28a0440130bb4802319a40d5e5b3e0be370261a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 46/47] fix: refuse entry names with a NUL inside, which would
 end the name in the header

---
 src/writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index c476046..e06d63e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -176,6 +176,14 @@ impl<W: Write + Seek> SevenZWriter<W> {
         Ok(self.files.last().unwrap())
     }
 
+    /// Names end at their NUL in the header: one inside of a name would end it there.
+    fn check_names(entries: &[SevenZArchiveEntry]) -> Result<()> {
+        if entries.iter().any(|e| e.name.contains('\0')) {
+            return Err(Error::other("entry name contains a NUL character"));
+        }
+        Ok(())
+    }
+
     /// Packed streams must follow each other: what a failed push has already written is overwritten by the next one.
     fn discard_from(&mut self, start: u64) -> Result<()> {
         self.output
@@ -189,6 +197,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
         mut entry: SevenZArchiveEntry,
         reader: Option<R>,
     ) -> Result<()> {
+        Self::check_names(std::slice::from_ref(&entry))?;
         if !entry.is_directory {
             if let Some(mut r) = reader {
                 let mut compressed_len = 0;
@@ -284,6 +293,7 @@ impl<W: Write + Seek> SevenZWriter<W> {
     ) -> Result<()> {
         let mut r = reader;
         assert_eq!(r.reader_len(), entries.len());
+        Self::check_names(&entries)?;
         let mut compressed_len = 0;
         let mut compressed = CompressWrapWriter::new(&mut self.output, &mut compressed_len);
         let content_methods = &self.content_methods;
-- 
2.43.0


From 3a90b2e099133470d0bb46e8947199fd159b1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 47/47] fix: keep the bytes of a stored LZMA2 chunk in the
 window when the dictionary is small

---
 lzma-rust/src/enc/encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lzma-rust/src/enc/encoder.rs b/lzma-rust/src/enc/encoder.rs
index 4b97e6d..b9d4c70 100644
--- a/lzma-rust/src/enc/encoder.rs
+++ b/lzma-rust/src/enc/encoder.rs
@@ -2,6 +2,7 @@ use super::{
     encoder_fast::FashEncoderMode,
     encoder_normal::NormalEncoderMode,
     lz::{LZEncoder, MFType},
+    lzma2_writer::get_extra_size_before,
     range_enc::{RangeEncoder, RangeEncoderBuffer},
     *,
 };
@@ -151,6 +152,8 @@ impl LZMAEncoder {
                 NormalEncoderMode::EXTRA_SIZE_AFTER,
             )
         };
+        // a chunk that LZMA2 has to store uncompressed is taken from the window
+        let extra_size_before = extra_size_before + get_extra_size_before(dict_size);
         let lz = match mf {
             MFType::HC4 => LZEncoder::new_hc4(
                 dict_size,
-- 
2.43.0

