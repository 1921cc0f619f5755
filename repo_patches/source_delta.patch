From 1224531cc059549d4565c7beb16ee2305714a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 01/24] fix: reject u-varints that do not fit in 64 bits
 instead of overflowing the shift

---
 smdiff-common/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index e04aa51..a26bb7e 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -256,6 +256,10 @@ pub fn read_u_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u64> {
     loop {
         reader.read_exact(&mut b)?;
         let byte = b[0];
+        if shift == 63 && byte > 1 {
+            //a u64 has one bit left for the tenth byte, and there can be no eleventh.
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "u-varint does not fit in a u64"));
+        }
         result |= ((byte & 0x7F) as u64) << shift;
         if byte & 0x80 == 0 {
             break;
-- 
2.43.0


From 659e5f2a81f2e695d82ffeb57b0d0ab78a7c036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 02/24] fix: address deltas of exactly 2^63 overflowed when
 encoded or decoded

---
 smdiff-common/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index a26bb7e..5e7a765 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -323,7 +323,7 @@ pub fn diff_addresses_to_u64(cur: u64, input: i64) -> u64 {
         cur.wrapping_add(input as u64)
     } else {
         // i is negative, so convert the absolute value to u64 and subtract
-        let positive_i = input.abs() as u64; // This is safe because `abs()` of a negative i64 can always fit in u64
+        let positive_i = input.unsigned_abs(); // `abs()` would overflow on i64::MIN
         cur.wrapping_sub(positive_i)
     }
 }
@@ -334,7 +334,7 @@ pub fn diff_addresses_to_i64(cur: u64, target: u64) -> i64 {
     if target > cur {
         (target - cur) as i64
     } else {
-        (cur - target) as i64 * -1
+        ((cur - target) as i64).wrapping_neg() // the difference may be exactly 2^63
     }
 }
 
-- 
2.43.0


From 15112d2d3cbb57593f47ebf2c81e9b407690ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 03/24] fix: reject section header values that do not fit in a
 u32 instead of truncating or overflowing

---
 smdiff-reader/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2cbe7d1..2b28f09 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -31,21 +31,25 @@ impl AddOp for Add{
         &self.bytes
     }
 }
+/// The header fields are u-varints that must fit in a u32.
+fn read_header_u32<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
+    u32::try_from(read_u_varint(reader)?).map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header value does not fit in a u32"))
+}
 /// Reads a section header from the reader at the current position.
 pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<SectionHeader> {
     let header_byte = read_u8(reader)?;
     let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
     let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
     let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
-    let num_operations = read_u_varint(reader)? as u32;
+    let num_operations = read_header_u32(reader)?;
     let num_add_bytes = if format.is_segregated() {
-        read_u_varint(reader)? as u32
+        read_header_u32(reader)?
     } else {
         0
     };
-    let read_size = read_u_varint(reader)? as u32;
+    let read_size = read_header_u32(reader)?;
     let output_size = if format.is_segregated(){
-        num_add_bytes + read_size
+        num_add_bytes.checked_add(read_size).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section output size overflows"))?
     }else{
         read_size
     };
-- 
2.43.0


From 745348097f7019bcf065d5534144ba1b830d2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 04/24] fix: do not let the header's operation count decide how
 much memory is reserved

---
 smdiff-reader/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2b28f09..074e2f6 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, MAX_INST_SIZE, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -74,7 +74,8 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
-    op_buffer.reserve(*num_operations as usize);
+    //the count is not trusted yet: a corrupt header must not decide how much memory we ask for.
+    op_buffer.reserve((*num_operations as usize).min(MAX_INST_SIZE));
     match format {
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
@@ -124,7 +125,6 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
-    op_buffer.reserve(header.num_operations as usize);
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From 27894822e84ce8157f348f013ea30be6ec2000a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 05/24] fix: the section size check overflowed on sections
 claiming more than 4GiB of output

---
 smdiff-reader/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 074e2f6..c0636e5 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -80,19 +80,19 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
             let mut add_idxs = Vec::new();
-            let mut check_size = 0;
+            let mut check_size = 0u64;
             //dbg!(num_operations,output_size,num_add_bytes);
             for i in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                 let len = op.oal() as u32;
-                check_size += len;
+                check_size += len as u64;
                 if op.is_add(){
                     header.num_add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
                 }
                 op_buffer.push(op);
             }
-            if &check_size != output_size{
+            if check_size != *output_size as u64{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
             //reader should be at the end of the instructions
@@ -106,13 +106,13 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             Ok(())
         },
         Format::Interleaved => {
-            let mut check_size = 0;
+            let mut check_size = 0u64;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
-                check_size += op.oal() as u32;
+                check_size += op.oal() as u64;
                 op_buffer.push(op);
             }
-            if &check_size != output_size{
+            if check_size != *output_size as u64{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
             Ok(())
-- 
2.43.0


From 96a5b91184e9b5f230454cdac0d9dabdf58abd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 06/24] fix: enforce the section output limit on reading, so
 Add buffers cannot outgrow it

---
 smdiff-reader/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index c0636e5..d944749 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, MAX_INST_SIZE, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, MAX_INST_SIZE, MAX_WIN_SIZE, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -74,6 +74,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
+    if *output_size as usize > MAX_WIN_SIZE {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Output size is greater than MAX_WIN_SIZE"));
+    }
     //the count is not trusted yet: a corrupt header must not decide how much memory we ask for.
     op_buffer.reserve((*num_operations as usize).min(MAX_INST_SIZE));
     match format {
@@ -86,6 +89,10 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                 let len = op.oal() as u32;
                 check_size += len as u64;
+                //the Add buffers are filled after the loop, so stop before they outgrow the section.
+                if check_size > *output_size as u64{
+                    return Err(size_mismatch(*output_size, check_size));
+                }
                 if op.is_add(){
                     header.num_add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
@@ -93,7 +100,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 op_buffer.push(op);
             }
             if check_size != *output_size as u64{
-                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
+                return Err(size_mismatch(*output_size, check_size));
             }
             //reader should be at the end of the instructions
             //now we go back and fill the add op buffers
@@ -113,13 +120,17 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 op_buffer.push(op);
             }
             if check_size != *output_size as u64{
-                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
+                return Err(size_mismatch(*output_size, check_size));
             }
             Ok(())
         }
     }
 }
 
+fn size_mismatch(output_size:u32, check_size:u64) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size))
+}
+
 ///Returns the ops and the output size. Cannot have secondary compression still applied.
 ///
 /// This is just a wrapper that completely reads a section from the reader.
-- 
2.43.0


From a52478436dc11965814fcb2707c88a2d6463bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 07/24] fix: the header's Add byte count did not reflect the
 ops that were read

---
 smdiff-reader/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index d944749..4330389 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -84,6 +84,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             let buffer_offset = op_buffer.len();
             let mut add_idxs = Vec::new();
             let mut check_size = 0u64;
+            header.num_add_bytes = 0;
             //dbg!(num_operations,output_size,num_add_bytes);
             for i in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
@@ -114,9 +115,17 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
         },
         Format::Interleaved => {
             let mut check_size = 0u64;
+            header.num_add_bytes = 0;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
-                check_size += op.oal() as u64;
+                let len = op.oal() as u32;
+                check_size += len as u64;
+                if check_size > *output_size as u64{
+                    return Err(size_mismatch(*output_size, check_size));
+                }
+                if op.is_add(){
+                    header.num_add_bytes += len;
+                }
                 op_buffer.push(op);
             }
             if check_size != *output_size as u64{
-- 
2.43.0


From 83dd7ae977bd54e48dc26451fd4219490d62634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 08/24] fix: a dictionary copy without a source panicked
 instead of returning an error

---
 smdiff-decoder/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 6141ec4..556d8a7 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -67,7 +67,7 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     smdiff_common::CopySrc::Dict => {
                         let src = match src.as_mut(){
                             Some(s) => s,
-                            None => panic!("Copy operation without source data"),
+                            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Copy operation without source data")),
                         };
                         src.seek(std::io::SeekFrom::Start(copy.addr))?;
                         let len = copy.len as usize;
-- 
2.43.0


From 543e77c719025101b7d895d9dc2bcfb78a2f0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/24] fix: a malformed zstd section panicked instead of
 returning an error

---
 smdiff-decoder/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index cb4ee30..2391a9e 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -73,7 +73,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
+            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Invalid zstd section: {:?}", e)))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
-- 
2.43.0


From 8497051525197996101ece1cbba379bf57db0c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/24] fix: unknown secondary compression algorithms were
 decoded as if uncompressed

---
 smdiff-decoder/src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 2391a9e..ecba403 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -80,8 +80,10 @@ impl<R: Read+Seek> SectionIterator<R>{
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
             let _ = brot.into_inner()?;
-        }else{
+        }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
+        }else{
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Unknown secondary compression algorithm: {}", header.compression_algo)));
         }
         if !header.more_sections{
             self.done = true;
-- 
2.43.0


From 722fcba281100014e47ef6b9659ba96115b00d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 11/24] fix: the plain reader decoded compressed sections as if
 they were operations

---
 smdiff-reader/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 4330389..056e007 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -145,6 +145,9 @@ fn size_mismatch(output_size:u32, check_size:u64) -> std::io::Error {
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
+    if header.is_compressed() {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "The section has secondary compression, which this reader does not handle"));
+    }
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From 899cb8a8a65afff143858eb5558ba15c25f1cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 12/24] fix: compressed sections were not read to their end, so
 a following section was misread

---
 smdiff-decoder/src/reader.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index ecba403..f3129b5 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -72,13 +72,16 @@ impl<R: Read+Seek> SectionIterator<R>{
             apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
+            expect_end(&mut crsr)?;
         }else if header.compression_algo == 2 {
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Invalid zstd section: {:?}", e)))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
+            expect_end(&mut zstd)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
+            expect_end(&mut brot)?;
             let _ = brot.into_inner()?;
         }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
@@ -95,6 +98,15 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// The operations must account for all the decompressed data.
+/// Reading to the end also makes the decompressor consume the rest of its stream, so the next header is read from the right position.
+fn expect_end<R: Read>(section: &mut R) -> std::io::Result<()> {
+    match section.read(&mut [0u8;1])? {
+        0 => Ok(()),
+        _ => Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Trailing data after the operations of a compressed section")),
+    }
+}
+
 impl<R: Read+Seek> Iterator for SectionIterator<R> {
     type Item = std::io::Result<(Vec<Op>, SectionHeader)>;
 
-- 
2.43.0


From 00c20ae5f489ce6d69ebf0d8a9f2f275ad25978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 13/24] fix: section iterators kept yielding (from an arbitrary
 position) after an error

---
 smdiff-decoder/src/reader.rs |  4 ++++
 smdiff-reader/src/lib.rs     | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index f3129b5..fd60632 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -30,11 +30,13 @@ impl<R: Read+Seek> SectionIterator<R>{
         let mut header = match self.read_header()?{
             Ok(h) => h,
             Err(e) => {
+                self.done = true; //the position in the source is now unknown
                 return Some(Err(e));
             }
         };
         self.ops.clear();
         if let Err(e) = self.read_ops(&mut header){
+            self.done = true;
             return Some(Err(e));
         }
         Some(Ok((&self.ops,header)))
@@ -44,11 +46,13 @@ impl<R: Read+Seek> SectionIterator<R>{
         let mut header = match self.read_header()?{
             Ok(h) => h,
             Err(e) => {
+                self.done = true; //the position in the source is now unknown
                 return Some(Err(e));
             }
         };
         self.ops.clear();
         if let Err(e) = self.read_ops(&mut header){
+            self.done = true;
             return Some(Err(e));
         }
         Some(Ok((std::mem::take(&mut self.ops),header)))
diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 056e007..ab65b4e 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -246,8 +246,10 @@ impl<R: Read> SectionIterator<R>{
         self.op_buffer.clear();
         let header = match read_section(&mut self.source,&mut self.op_buffer){
             Ok(v) => v,
-            Err(e) => return Some(Err(e)),
-
+            Err(e) => {
+                self.done = true; //the position in the source is now unknown
+                return Some(Err(e));
+            }
         };
         if !header.more_sections{
             self.done = true;
@@ -262,8 +264,10 @@ impl<R: Read> SectionIterator<R>{
         let mut op_buffer = Vec::new();
         let header = match read_section(&mut self.source,&mut op_buffer){
             Ok(v) => v,
-            Err(e) => return Some(Err(e)),
-
+            Err(e) => {
+                self.done = true; //the position in the source is now unknown
+                return Some(Err(e));
+            }
         };
         if !header.more_sections{
             self.done = true;
-- 
2.43.0


From 173cc06babdedd9cd96c5b2e7e631bdc19e37178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 14/24] fix: the encoder hashed past the end of the target when
 a match ended near it

---
 smdiff-encoder/src/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 2828885..d51c688 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -185,7 +185,10 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                     if matcher.next_hash_pos <= cur_o_pos{
                         add_start_positions_to_matcher(matcher, cur_o_pos, src)
                     }
-                    if matcher.fwd_pos < matcher.max_fwd_hash_pos{
+                    if cur_o_pos > matcher.max_fwd_hash_pos{
+                        //there are not enough bytes left for the large hash
+                        matcher.fwd_pos = matcher.max_fwd_hash_pos;
+                    }else if matcher.fwd_pos < matcher.max_fwd_hash_pos{
                         if matcher.fwd_pos + 9 > cur_o_pos{
                             for old_pos in matcher.fwd_pos..cur_o_pos{
                                 matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
-- 
2.43.0


From e7307273af335ca98f134805b2245f2305def568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 15/24] fix: prefilling the target matcher hashed past the end
 of the target

---
 smdiff-encoder/src/trgt_matcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 222e6ec..b01a065 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -168,7 +168,8 @@ impl TrgtMatcherConfig {
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
             let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
-            let end = trgt_start_pos;
+            //only positions before the start (it is stored when we get there), and that have enough bytes to hash.
+            let end = (trgt_start_pos - 1).min(matcher.max_fwd_hash_pos);
             let mut hash = calculate_small_checksum(&trgt[start..]);
             matcher.store(hash as usize, start);
             for old_pos in start..end{
-- 
2.43.0


From 2edab1aec7cbb3da02472dd4371b77d7750c7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 16/24] fix: extract_patch_instructions counted every copy
 twice in the stats

---
 smdiff-merger/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ec50168..b45d1b2 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -196,8 +196,6 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                         },
                     }
                     output.push((o_pos_start,inst));
-                    stats.copy_d(oal_len);
-
                 },
                 smdiff_common::Op::Add(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From b9c86169bd188619974e98e016980ba9cce9013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 17/24] fix: zero length operations in a patch broke position
 lookup and slicing in the merger

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index b45d1b2..673e4db 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -181,6 +181,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
         let (insts,_output_size) = res?;
         for inst in insts{
             let oal_len = inst.oal() as usize;
+            if oal_len == 0{
+                continue; //produces nothing, and an empty op cannot control any output position
+            }
             match &inst{
                 smdiff_common::Op::Run(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From 0d2cfcb9031f047e7b8ec1ce2d0807a364ade899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 18/24] fix: malformed or mismatched patches panicked the
 merger instead of returning an error

---
 smdiff-merger/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 673e4db..098d5f1 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -213,7 +213,13 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
 }
 
 /// This function will dereference all Copy_Output instructions in the extracted instructions.
+/// # Panics
+/// If a Copy_Output instruction refers to output that was not produced before it.
 pub fn deref_copy_o(extracted:Vec<SparseOp>)->Vec<SparseOp>{
+    try_deref_copy_o(extracted).unwrap()
+}
+
+fn try_deref_copy_o(extracted:Vec<SparseOp>)->std::io::Result<Vec<SparseOp>>{
     //TODO: We could optimize by having get_exact_slice return *what to do* to dereference the copy.
     // The advantage would be we wouldn't clone any Ops.
     // We would point to the first and last index in `extracted` and the skip/trunc values for those two ops.
@@ -226,7 +232,8 @@ pub fn deref_copy_o(extracted:Vec<SparseOp>)->Vec<SparseOp>{
             Op::Copy(copy) if matches!(copy.src, smdiff_common::CopySrc::Output) => {
                 //let copy = copy.clone();
                 let o_start = copy.addr;
-                let resolved = get_exact_slice(output.as_slice(), o_start, copy.len as u32).unwrap();
+                let resolved = get_exact_slice(output.as_slice(), o_start, copy.len as u32)
+                    .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy refers to output that was not produced before it"))?;
                 for (_,resloved_op) in resolved {
                     let o_pos_start = cur_o_pos;
                     cur_o_pos += resloved_op.oal() as u64;
@@ -241,7 +248,7 @@ pub fn deref_copy_o(extracted:Vec<SparseOp>)->Vec<SparseOp>{
             },
         }
     }
-    output
+    Ok(output)
 }
 
 fn find_mergeable_copies(extract:&[SparseOp],shift:usize,dest:&mut Vec<usize>){
@@ -281,7 +288,7 @@ impl Merger {
         let mut terminal_copy_indices = Vec::new();
         //we for sure need to translate local. I think translate global isn't needed??
         //will need to check this.
-        let terminal_patch = deref_copy_o(terminal_patch);
+        let terminal_patch = try_deref_copy_o(terminal_patch)?;
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
         debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
         Ok(Ok(Merger{
@@ -308,7 +315,7 @@ impl Merger {
         });
         let (mut predecessor_patch,stats) = extract_patch_instructions(predecessor_patch)?;
         if stats.has_copy(){
-            predecessor_patch = deref_copy_o(predecessor_patch);
+            predecessor_patch = try_deref_copy_o(predecessor_patch)?;
         }
         let mut terminal_copy_indices = Vec::with_capacity(self.terminal_copy_indices.len());
         let mut inserts = Vec::with_capacity(self.terminal_copy_indices.len());
@@ -319,7 +326,8 @@ impl Merger {
             //this a src window copy that we need to resolve from the predecessor patch.
             debug_assert!(matches!(copy.src, smdiff_common::CopySrc::Dict));
             let o_start = copy.addr; //ssp is o_pos, u is offset from that.
-            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32).unwrap();
+            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32)
+                .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "The predecessor patch does not produce the source of the terminal patch"))?;
             //debug_assert_eq!(sum_len_in_o(&resolved), copy.len_in_o() as u64, "resolved: {:?} copy: {:?}",resolved,copy);
             find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
             shift += resolved.len() - 1;
-- 
2.43.0


From 522587524ab3cf6179c5c69d709e9dad054e95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 19/24] fix: a terminal patch whose only copies are from its
 own output panicked Merger::new

---
 smdiff-merger/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 098d5f1..6535476 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -290,7 +290,10 @@ impl Merger {
         //will need to check this.
         let terminal_patch = try_deref_copy_o(terminal_patch)?;
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
-        debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
+        if terminal_copy_indices.is_empty(){
+            //every copy was from the output, so nothing depends on a predecessor
+            return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
+        }
         Ok(Ok(Merger{
             terminal_patch,
             terminal_copy_indices,
-- 
2.43.0


From 2f2973df5dc496620d2706bf0aad5d002026bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 20/24] fix: transcoding a patch without operations underflowed

---
 smdiff-merger/src/transcoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index de2c759..561a65e 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -84,7 +84,7 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
             if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
@@ -98,7 +98,7 @@ fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
             if byte1 == byte2 {
-- 
2.43.0


From 492f57c17c4f15b6573af43c04a18e0d8257892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 21/24] fix: oversized Add operations were written with a
 truncated length

---
 smdiff-writer/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 5bd9944..3f12bed 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -44,6 +44,11 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
     let mut add_bytes_written = 0;
     let mut add_bytes_slices = Vec::new();
     for op in ops {
+        if let Op::Add(a) = op {
+            if a.bytes().len() > MAX_INST_SIZE {
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Add operation is larger than MAX_INST_SIZE"));
+            }
+        }
         total_content_len += op.oal() as usize;
         write_op_byte_and_size(writer, &op)?;
         match header.format{
-- 
2.43.0


From 2a707c01ce531933fefd08eacab74f7539f99b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 22/24] fix: converting a vcdiff printed every run to stdout

---
 smdiff-vcdiff/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 8e28dde..69910f6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -76,7 +76,6 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                             cur_o_pos += len as u64;
                         },
                         Inst::Run(RUN{ len, byte }) => {
-                            println!("Run @{}: of: {} let: {}",cur_o_pos,byte,len);
                             let total: u32 = len;
                             let mut processed: u32 = 0;
                             while processed < total {
-- 
2.43.0


From 7feb5247fc4a0d0a4e8d9298ea2410076a9f54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 23/24] fix: long repeating vcdiff copies were converted with
 truncated lengths

---
 smdiff-vcdiff/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 69910f6..81e8cc9 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -131,7 +131,9 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                 let mut processed: u32 = 0;
                                 while processed < total {
                                     let remaining = total - processed;
-                                    let chunk_size = remaining.min(slice_len);
+                                    //a slice longer than MAX_INST_SIZE takes more than one copy per repetition
+                                    let offset = processed % slice_len;
+                                    let chunk_size = remaining.min(slice_len - offset).min(MAX_INST_SIZE);
                                     //dbg!(slice_len,chunk_size);
                                     if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                         let header = SectionHeader {
@@ -149,7 +151,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                         cur_win_size = 0;
                                         num_add_bytes = 0;
                                     }
-                                    let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
+                                    let op = Op::Copy(Copy{ src, addr: addr + offset as u64, len: chunk_size as u16 });
                                     cur_win.push(op);
                                     processed += chunk_size;
                                     cur_win_size += chunk_size;
-- 
2.43.0


From db19dbda68f20f578756d358535a656a31d45837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 24/24] fix: a copy whose range exceeds the address space
 overflowed in the merger

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 6535476..5d2a8a0 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -190,6 +190,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                     stats.run(oal_len);
                 },
                 smdiff_common::Op::Copy(c) => {
+                    if c.addr.checked_add(oal_len as u64).is_none(){
+                        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy address is out of range"));
+                    }
                     match c.src{
                         smdiff_common::CopySrc::Dict => {
                             stats.copy_d(oal_len);
-- 
2.43.0

