From 9ff26eff76db2165cec971302bdc756ef9869432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 01/11] fix: lzw::expand returns an error instead of panicking
 when the first code of a chunk is unknown

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..b87b378 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,7 +549,6 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
-                    prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
                         return Err(Box::new(crate::Error::FileFormatMismatch));
@@ -558,6 +557,7 @@ where R: Read + Seek, W: Write + Seek {
                         log::error!("Bad LZW code, expected {}, got {}",next_code.unwrap(),code);
                         return Err(Box::new(crate::Error::FileFormatMismatch));
                     }
+                    prev_str.push(prev_str[0]);
                 },
                 true => {
                     prev_str = lzw.get_string(code);
-- 
2.43.0


From c33949954bf0d1b043633dbea537bc0ea4f12ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 02/11] fix: compressing an empty input no longer underflows in
 lzss_huff and lzhuf

---
 src/direct_ports/lzhuf.rs | 5 +++++
 src/lzss_huff.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..1b05e40 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -603,6 +603,11 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     }
     let header = u32::to_le_bytes(expanded_length as u32);
     writer.write(&header)?;
+    // nothing to encode, same early out as LZHUF.C
+    if expanded_length == 0 {
+        writer.flush()?;
+        return Ok((0,writer.stream_position()?));
+    }
     reader.seek(SeekFrom::Start(0))?;
     // init
     let mut bytes = reader.bytes();
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..5d3a921 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -240,6 +240,11 @@ where R: Read + Seek, W: Write + Seek {
         let header = u32::to_le_bytes(expanded_length as u32);
         writer.write(&header)?;
     }
+    // nothing to encode, same early out as LZHUF.C
+    if expanded_length == 0 {
+        writer.flush()?;
+        return Ok((0,writer.stream_position()? - opt.out_offset));
+    }
     // init
     let mut bytes = reader.bytes();
     let mut lzss = LZSS::create(opt.clone());
-- 
2.43.0


From ca75832aba1063629be164d5a88dd320e08afa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 03/11] fix: lzss_huff::expand does not count the bytes before
 the output offset against the header length

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 5d3a921..e7f9dae 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -352,7 +352,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 077a0b91e107ce7470059a08f65846ce0423aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 04/11] fix: lzss_huff::compress accepts a file of exactly the
 maximum size

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index e7f9dae..a69d59d 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From ff4ae10a6e2f2107eba443693e9bc73e9b990277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 05/11] fix: Huffman codes longer than 16 bits are written in
 full by lzss_huff and lzhuf

---
 src/direct_ports/lzhuf.rs  | 13 +++++++------
 src/tools/adaptive_huff.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1b05e40..c5673e7 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -521,9 +521,9 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -539,7 +539,8 @@ impl AdaptiveHuffman {
         }
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut i: u16 = 0;
+        // a code can be longer than 16 bits when the frequencies are skewed enough
+        let mut i: u32 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -547,7 +548,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -561,9 +562,9 @@ impl AdaptiveHuffman {
     fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
         let mut c: usize = self.son[ROOT];
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..1c7f3f8 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,9 +310,9 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -328,7 +328,8 @@ impl AdaptiveHuffmanCoder {
         }
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut code: u16 = 0;
+        // a code can be longer than 16 bits when the frequencies are skewed enough
+        let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -336,7 +337,7 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
@@ -349,9 +350,9 @@ impl AdaptiveHuffmanCoder {
     pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
     }
 }
 
-- 
2.43.0


From b782592665702f961fe4752468a299f271eca951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 06/11] fix: compressors report the end of their own output
 when the target already holds a longer file

---
 src/direct_ports/lzhuf.rs  | 10 +++++++++-
 src/lzss_huff.rs           |  2 +-
 src/lzw.rs                 |  7 ++++++-
 src/tools/adaptive_huff.rs |  8 ++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index c5673e7..45ddcdd 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -538,6 +538,14 @@ impl AdaptiveHuffman {
             self.ptr = 0;
         }
     }
+    /// step over the last byte if it is incomplete, after this the stream
+    /// position is the end of the encoded data (no more codes can be put)
+    fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // a code can be longer than 16 bits when the frequencies are skewed enough
         let mut i: u32 = 0;
@@ -687,7 +695,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()?))
 }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index a69d59d..2c9047e 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -315,7 +315,7 @@ where R: Read + Seek, W: Write + Seek {
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
diff --git a/src/lzw.rs b/src/lzw.rs
index b87b378..9adc40f 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -438,12 +438,17 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer);
                         }
+                        // coder could be rewound if the last byte is incomplete
+                        let end = match coder.bits.len() {
+                            0 => writer.stream_position()?,
+                            _ => writer.stream_position()? + 1
+                        };
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
+                        writer.seek(SeekFrom::Start(end))?;
                         writer.flush()?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 1c7f3f8..4657810 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -327,6 +327,14 @@ impl AdaptiveHuffmanCoder {
             self.ptr = 0;
         }
     }
+    /// step over the last byte if it is incomplete, after this the stream
+    /// position is the end of the encoded data (no more codes can be put)
+    pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // a code can be longer than 16 bits when the frequencies are skewed enough
         let mut code: u32 = 0;
-- 
2.43.0


From b9b0bc887de6dc9d1c4980627769976653064f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 07/11] fix: lzw::expand writes long strings completely even if
 the output accepts only part of them at once

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 9adc40f..4f612dd 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -572,7 +572,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
-- 
2.43.0


From a768dd1a660bd290245c141fb7271c406de969ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 08/11] fix: lzhuf::decode includes the header in the
 compressed size it returns

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 45ddcdd..259df9e 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -740,7 +740,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 50542db8a55a3addaf928ac8a42157db3248ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 09/11] fix: I/O errors in the coders and decoders are returned
 instead of causing a panic

---
 src/direct_ports/lzhuf.rs  | 58 +++++++++++++++++++-------------------
 src/lzss_huff.rs           |  6 ++--
 src/lzw.rs                 | 21 +++++++-------
 src/tools/adaptive_huff.rs | 18 ++++++------
 4 files changed, 53 insertions(+), 50 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 259df9e..04e421a 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -502,41 +502,40 @@ impl AdaptiveHuffman {
                         self.count += 1;
                         self.get_bit(bytes)
                     }
-                    Some(Err(e)) => {
-                        panic!("error reading file {}",e)
-                    },
-                    None => 0
+                    Some(Err(e)) => Err(e),
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
     /// step over the last byte if it is incomplete, after this the stream
     /// position is the end of the encoded data (no more codes can be put)
@@ -546,7 +545,7 @@ impl AdaptiveHuffman {
         }
         Ok(())
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // a code can be longer than 16 bits when the frequencies are skewed enough
         let mut i: u32 = 0;
         let mut j: u16 = 0;
@@ -564,40 +563,41 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u16,std::io::Error> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -656,10 +656,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
@@ -721,14 +721,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 2c9047e..6d0ffa6 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -283,10 +283,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index 4f612dd..dfdef81 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
 }
 
@@ -404,7 +405,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -433,10 +434,10 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         // coder could be rewound if the last byte is incomplete
                         let end = match coder.bits.len() {
@@ -445,7 +446,7 @@ where R: Read + Seek, W: Write + Seek {
                         };
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::Start(end))?;
@@ -458,19 +459,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 4657810..3a40cd2 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,22 +310,23 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
     /// step over the last byte if it is incomplete, after this the stream
     /// position is the end of the encoded data (no more codes can be put)
@@ -335,7 +336,7 @@ impl AdaptiveHuffmanCoder {
         }
         Ok(())
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // a code can be longer than 16 bits when the frequencies are skewed enough
         let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
@@ -352,15 +353,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer)
     }
 }
 
-- 
2.43.0


From 28af8c6d822c9346510504c2b24f0d9ec3493334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 10/11] fix: take the whole input before opening the output, so
 that a file can be its own output

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f44b9d7..4a72425 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -56,7 +56,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        // take the whole input first, the output may be the same file
+        let mut in_file = std::io::Cursor::new(std::fs::read(path_in)?);
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::compress(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
@@ -80,7 +81,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        // take the whole input first, the output may be the same file
+        let mut in_file = std::io::Cursor::new(std::fs::read(path_in)?);
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::expand(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
-- 
2.43.0


From 866d3c8843aee29b14ef02388a080bbca33bd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 11/11] fix: an output file that exists but cannot be read was
 overwritten without asking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4a72425..33c41cc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,7 @@ type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 const RCH: &str = "unreachable was reached";
 
 fn ok_to_overwrite(path_out: &str) -> bool {
-    if let Ok(_f) = std::fs::File::open(path_out) {
+    if std::path::Path::new(path_out).exists() {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
         std::io::stdin().read_line(&mut ans).expect("could not read stdin");
-- 
2.43.0

