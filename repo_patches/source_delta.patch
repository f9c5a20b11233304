From a9b5f6b2719044b37e57f808cdc4dd2601c25138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 01/51] fix: http2 encoder must not re-encode evicted headers
 forever

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From d6fec07da845db7ef4b1148a33e717e146bae9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:37 +0000
Subject: [PATCH 02/51] fix: headerdiff table keys must keep name and value
 apart

---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..6cb9d65 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From 91988360b96a6d6f75a2f9ab941379ed7e6ae7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:37 +0000
Subject: [PATCH 03/51] fix: headerdiff decoder must inflate the payload, not
 the frame header

---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 6cb9d65..2cd29ff 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 4b85ecd101bb4f80fe56cf0f89fa244590383184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 04/51] fix: headerdiff integers with a 14-bit prefix need a
 two-byte prefix

---
 compressor/headerdiff/headerDiffCodec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 2cd29ff..143e6e6 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -580,7 +580,10 @@ class HeaderDiffCodec(object):
     else:
       # If prefix size is greater than 0,
       # write MAX_VALUE as the prefix
-      if prefixBits > 0:
+      if prefixBits > 8:
+        b = (currentByte << 8) | MAX_VALUES[prefixBits]
+        self.encodedStream+= pack("!H", b)
+      elif prefixBits > 0:
         currentByte = currentByte | MAX_VALUES[prefixBits]
         self.encodedStream+= pack("!B", currentByte)
       # Write value on next byte or bytes
-- 
2.43.0


From 753059153652e5bd3cb8a3d92892458387b1570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 05/51] fix: delta eviction by byte size must not raise
 NameError

---
 compressor/delta/spdy4_codec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..074c838 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -688,7 +688,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
-- 
2.43.0


From e264a7d99eec7cd470e23bee18be411016bfa07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 06/51] fix: delta must announce each batch of at most 256
 operations on its own

---
 compressor/delta/spdy4_codec_impl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 074c838..d12d52a 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -402,10 +402,9 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops_idx = 0
     ops_len = len(ops)
     while ops_len > ops_idx:
-      ops_to_go = ops_len - ops_idx
-      iteration_end = min(ops_to_go, 256) + ops_idx
+      ops_to_go = min(ops_len - ops_idx, 256)
       data.StoreBits8(OpcodeToVal(opcode))
-      data.StoreBits8(min(256, ops_to_go) - 1)
+      data.StoreBits8(ops_to_go - 1)
       orig_idx = ops_idx
       for i in xrange(ops_to_go):
         try:
-- 
2.43.0


From 9ebdfb2cce18db010a332579a31331cf7280694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 07/51] fix: fork and delta2_bohe must not import a helper that
 is gone

---
 compressor/delta2_bohe/__init__.py | 4 ++--
 compressor/fork/__init__.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 4d3defd..9510e2c 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -9,7 +9,7 @@ import header_freq_tables
 import spdy4_codec_impl
 import huffman
 import common_utils
-from .. import BaseProcessor, strip_conn_headers
+from .. import BaseProcessor
 
 # There are a number of TODOS in the spdy4
 #      have near indices. Possibly renumber whever something is referenced)
@@ -72,7 +72,7 @@ class Processor(BaseProcessor):
     else:
       group_id = self.group_ids.GetNext()
       self.hosts[normalized_host] = group_id
-    inp_ops = self.compressor.MakeOperations(strip_conn_headers(inp_headers), group_id)
+    inp_ops = self.compressor.MakeOperations(inp_headers, group_id)
     inp_real_ops = self.compressor.OpsToRealOps(inp_ops, group_id)
     compressed_blob = self.compressor.Compress(inp_real_ops)
     return compressed_blob
diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..b0440c8 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,7 +24,7 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
+    http1_msg = format_http1(in_headers)
     self.process.stdin.write(http1_msg)
     if self.delimit_binary:
       output = self.process.stdout.read(8)
-- 
2.43.0


From bd09d025d55b4e2f152bd526a3640973ce86cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 08/51] fix: bohe StoreBits22 must store the least significant
 bits

---
 compressor/bohe/bit_bucket.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..7947acb 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,8 +63,8 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
-    self.StoreBits ( (StrToList(tmp_val), 22))
+    tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)
+    self.StoreBits ( (StrToList(tmp_val)[:3], 22))
 
   def StoreBits32(self, val):
     """
-- 
2.43.0


From dc3bd24612b1e921e8a3c717b33d07d3b82f8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:15 +0000
Subject: [PATCH 09/51] fix: C++ bit buffer must count byte-aligned
 StoreBits8/16/32

---
 compressor/delta/bit_bucket.h      | 6 +++---
 compressor/delta_bohe/bit_bucket.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b7bc2f9..89299fe 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -133,6 +133,7 @@ class BitBucket {
   }
 
   void StoreBits8(uint8_t val) {
+    num_bits += 8;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
       return;
@@ -140,10 +141,10 @@ class BitBucket {
     size_t bits_left_in_byte = 8 - bsa_boff;
     bsa.back() |= val >> bsa_boff;
     bsa.push_back(val << bits_left_in_byte);
-    num_bits += 8;
   }
 
   void StoreBits16(uint16_t val) {
+    num_bits += 16;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
@@ -156,10 +157,10 @@ class BitBucket {
     c = val & 255u;
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 16;
   }
 
   void StoreBits32(uint32_t val) {
+    num_bits += 32;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(        val >> 24));
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
@@ -180,7 +181,6 @@ class BitBucket {
     c =  255u & (val >>  0);
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 32;
   }
 
   void StoreBits(const vector<char>& inp_bytes, size_t inp_bits) {
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b7bc2f9..89299fe 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -133,6 +133,7 @@ class BitBucket {
   }
 
   void StoreBits8(uint8_t val) {
+    num_bits += 8;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
       return;
@@ -140,10 +141,10 @@ class BitBucket {
     size_t bits_left_in_byte = 8 - bsa_boff;
     bsa.back() |= val >> bsa_boff;
     bsa.push_back(val << bits_left_in_byte);
-    num_bits += 8;
   }
 
   void StoreBits16(uint16_t val) {
+    num_bits += 16;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
@@ -156,10 +157,10 @@ class BitBucket {
     c = val & 255u;
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 16;
   }
 
   void StoreBits32(uint32_t val) {
+    num_bits += 32;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(        val >> 24));
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
@@ -180,7 +181,6 @@ class BitBucket {
     c =  255u & (val >>  0);
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 32;
   }
 
   void StoreBits(const vector<char>& inp_bytes, size_t inp_bits) {
-- 
2.43.0


From a90a9cb36cd1e22e8eb4ad8e96f59cf26fc7e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:15 +0000
Subject: [PATCH 10/51] fix: C++ bit buffer must refuse reads past the
 remaining bits

---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 89299fe..b877f26 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -274,7 +274,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (num_bits > BitsRemaining()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 89299fe..b877f26 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -274,7 +274,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (num_bits > BitsRemaining()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
-- 
2.43.0


From 286e58b5c7e317915c4cff53d9ce003f7574d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 11/51] fix: delta2 Huffman tables must reach the 32-bit limit
 for any frequencies

---
 compressor/delta2/huffman.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index efcdc2c..dbaa0d5 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -50,9 +50,10 @@ class Huffman(object):
     internals = deque()
     for elem in freq_table:
       (sym, freq) = elem
-      if freq == 0:
-        freq = 1.0/512
-      weight = freq * 1.0 / divisor
+      # an integer division, so that larger divisors give flatter trees
+      weight = freq // divisor
+      if weight == 0:
+        weight = 1.0/512
       leaves.append( (weight, MN(sym), 0, []) )
 
     # freq_table is (symbol, count)
-- 
2.43.0


From 5178d1524e1efd98d1f9200a1ba1638db8513d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 12/51] fix: C++ Huffman decode tables must be rebuilt by a
 second Init

---
 compressor/delta/huffman.h      | 2 ++
 compressor/delta_bohe/huffman.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/compressor/delta/huffman.h b/compressor/delta/huffman.h
index 5bd71e8..70b8c34 100644
--- a/compressor/delta/huffman.h
+++ b/compressor/delta/huffman.h
@@ -408,6 +408,8 @@ class Huffman {
   const int kNumLookups = ceil(32.0 / lookup_bits);
 
   void BuildDecodeTable() {
+    branches.clear();
+    decode_table.clear();
     //const uint32_t max_val = (0x1U << lookup_bits);
 
     vector<pair<uint32_t, int> > sorted_by_code; // code->symbol
diff --git a/compressor/delta_bohe/huffman.h b/compressor/delta_bohe/huffman.h
index bb3bde6..76b4c19 100644
--- a/compressor/delta_bohe/huffman.h
+++ b/compressor/delta_bohe/huffman.h
@@ -406,6 +406,8 @@ class Huffman {
   DecodeTable decode_table;
 
   void BuildDecodeTable() {
+    branches.clear();
+    decode_table.clear();
     const int lookup_bits = 8;
     //const uint32_t max_val = (0x1U << lookup_bits);
 
-- 
2.43.0


From c34d701ef27490586eb1148d5a53bce25822d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:01 +0000
Subject: [PATCH 13/51] fix: C++ Huffman decoding must survive 32-bit code
 words

---
 compressor/delta/bit_bucket.h      | 3 ++-
 compressor/delta_bohe/bit_bucket.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b877f26..f0cb920 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -108,7 +108,8 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    // shifting a word by its whole width is undefined
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b877f26..f0cb920 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -108,7 +108,8 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    // shifting a word by its whole width is undefined
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
-- 
2.43.0


From 154a5b0483605fe063da158aece86d7d1c43d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 14/51] fix: delta and delta2 must keep messages that span
 several frames whole

---
 compressor/delta/spdy4_codec_impl.py  | 10 ++++++++--
 compressor/delta2/spdy4_codec_impl.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index d12d52a..a2e4336 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -489,11 +489,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (bytes_to_consume >= payload_len)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -508,6 +508,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops = []
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
+    payload_bb = BitBucket()
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
@@ -521,6 +522,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'frame_type: ', frame_type
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      payload_bb.StoreBits(bb.GetBits(frame_len))
+      if flags == 0:
+        continue  # operations may span frames: read them all first
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 21894a3..70a8124 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -600,13 +600,13 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (bytes_to_consume >= payload_len)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
       if verbose >= 5:
         descr.appendleft(FormatHex(overall_bb.GetAllBits()[0]))
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -626,6 +626,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops = []
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
+    payload_bb = BitBucket()
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
@@ -639,6 +640,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'stream_id: ', stream_id
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      payload_bb.StoreBits(bb.GetBits(frame_len))
+      if flags == 0:
+        continue  # operations may span frames: read them all first
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 8:
         bits_remaining_at_start = bb.BitsRemaining()
         try:
-- 
2.43.0


From b60855fd13ad15b6a32470209dd098a0ed37f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:48 +0000
Subject: [PATCH 15/51] fix: the Host header of a capture must win, and a URL
 without a path has a host too

---
 lib/harfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..900b84b 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From c9aabd40d25e3290ad4ee4cfea519a775b4bc051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:48 +0000
Subject: [PATCH 16/51] fix: an unreadable capture must be reported, not crash
 the report

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 900b84b..2fa546e 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write("%s\n" % oops)
     sys.exit(1)
   finally: 
     fhandle.close()
-- 
2.43.0


From ce9aef46750b3f31fb428f858b5483ba565dd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 17/51] fix: locale.format is gone from Python 3.12, so no
 summary could be printed

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From e322c7232ec2b814a3276bd5798b0d0c330d5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 18/51] fix: adding streams must not add messages to the first
 of them

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index 5493838..f2c0897 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,7 +72,7 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
+    new = Stream('', list(self.messages), self.msg_type, self.procs)
     new.messages.extend(other.messages) # NB: not great for memory
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
-- 
2.43.0


From d3cb97572c370c405d07e9647c59fc41a93d1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 19/51] fix: a lone session must not be renamed TOTAL in the
 TSV output

---
 compare_compressors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..bf28b1a 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -21,6 +21,7 @@ from functools import reduce
 
 from lib.harfile import read_har_file
 from lib.processors import Processors
+from lib.stream import Stream
 
 
 class CompressionTester(object):
@@ -59,7 +60,10 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      procs = [p.name for p in self.processors.processors[msg_type]]
+      ttl_stream = reduce(operator.add,
+        [s for s in sessions if s.msg_type == msg_type],
+        Stream('', [], msg_type, procs))
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
-- 
2.43.0


From 1cf26587825b6ac651b1f3ac5c3f6a579d484a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 20/51] fix: a baseline codec with parameters must be found
 among the results

---
 compare_compressors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compare_compressors.py b/compare_compressors.py
index bf28b1a..87d62f5 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -42,6 +42,9 @@ class CompressionTester(object):
     self.output = output
     self.tsv_out = defaultdict(list)  # accumulator for TSV output
     self.processors = Processors(self.options, self.msg_types, output)
+    # results are recorded by processor name, which a codec's parameters change
+    baseline_idx = self.options.processor_names.index(self.options.baseline)
+    self.options.baseline = self.processors.processors['req'][baseline_idx].name
     self.streamify = self.load_streamifier(self.options.streamifier)
     self.run()
 
-- 
2.43.0


From 72393c45f4e50361d2866c6bc2077b4c562d7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:34 +0000
Subject: [PATCH 21/51] fix: Connection options are case-insensitive and may
 come in several fields

---
 lib/processors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..d092c12 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,8 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      tokens = hdrs['connection'].replace('\0', ',').lower().split(',')
+      ignore_hdrs.extend([x.strip(' ') for x in tokens])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From ba18ff2cb50fcefe4f11b50fe358b5110765ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:33 +0000
Subject: [PATCH 22/51] fix: http1_gzip and http1_huffman must compress octets,
 not text

---
 compressor/http1_gzip/__init__.py    | 6 +++---
 compressor/http1_huffman/__init__.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..6ee8f3c 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -10,12 +10,12 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('utf-8')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..caa807b 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -10,12 +10,12 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('utf-8')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
-- 
2.43.0


From 7370f5981433cc6cb0a43634c51daf72d35c8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:33 +0000
Subject: [PATCH 23/51] fix: spdy3 with a dictionary must prime the compressor
 with octets

---
 compressor/spdy3/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 57547b0..5dc149f 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -12,7 +12,7 @@ class Processor(BaseProcessor):
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
     if 'dict' in params:
-      self.compressor.compress(spdy_dictionary.spdy_dict);
+      self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
       self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-- 
2.43.0


From 6e708c06f017d0f4a9d92355f1bd1fe6ad5ba71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:33 +0000
Subject: [PATCH 24/51] fix: hyper_hpack must return a header dictionary, as
 codecs do

---
 compressor/hyper_hpack/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/hyper_hpack/__init__.py b/compressor/hyper_hpack/__init__.py
index bf314f5..b49788f 100644
--- a/compressor/hyper_hpack/__init__.py
+++ b/compressor/hyper_hpack/__init__.py
@@ -14,4 +14,4 @@ class Processor(BaseProcessor):
     return self.compressor.encode(headers)
 
   def decompress(self, compressed):
-    return self.decompressor.decode(compressed)
\ No newline at end of file
+    return dict(self.decompressor.decode(compressed))
\ No newline at end of file
-- 
2.43.0


From 36a937c549cd943f443cabf3de73f46b523a93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:33 +0000
Subject: [PATCH 25/51] fix: the fork codec must exchange octets with the child
 and flush them

---
 compressor/fork/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index b0440c8..730f630 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -25,16 +25,17 @@ class Processor(BaseProcessor):
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    self.process.stdin.write(http1_msg)
+    self.process.stdin.write(http1_msg.encode('utf-8'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From 9849ef5efc071ec9ceb6220419253bc879a66b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:33 +0000
Subject: [PATCH 26/51] fix: the request target of a URL without a path is /

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 2fa546e..ae52479 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -45,7 +45,7 @@ def har2hdrs(har):
       continue
     headers = process_headers(request["headers"])
     headers[":method"] = request["method"].lower()
-    headers[":path"] = url.path
+    headers[":path"] = url.path or "/"
     if url.query:
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
-- 
2.43.0


From 137a2f9bd1e40d921bdd723fcd6659246e49338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 27/51] fix: the summary of a stream without messages must not
 divide by zero

---
 lib/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f2c0897..602b167 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -36,6 +36,9 @@ class Stream(object):
 
   def print_summary(self, output, baseline):
     "Print a summary of the stream to output, compared to baseline."
+    if not self.sizes[baseline]:
+      output("  nothing to compare\n\n")
+      return
     lines = []
     baseline_size = sum(self.sizes[baseline])
     for proc in self.procs:
@@ -95,7 +98,7 @@ def merge_dols(dol1, dol2):
   """
   Merge two dictionaries of lists.
   """
-  result = dict(dol1, **dol2)
+  result = defaultdict(list, dol1, **dol2)
   result.update((k, dol1[k] + dol2[k])
                 for k in set(dol1).intersection(dol2))
   return result
-- 
2.43.0


From c11d1581cf6c9cee120e009cad79144a22e5b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 28/51] fix: TSV output of captures without messages must have
 a header too

---
 compare_compressors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index 87d62f5..5d11db0 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -77,7 +77,7 @@ class CompressionTester(object):
           open("%s%s" % (self.options.prefix, "%s.tsv" % msg_type), 'w'),
           0
         ]
-        sessions[0].print_tsv_header(out[msg_type][0].write)
+        ttl_stream.print_tsv_header(out[msg_type][0].write)
       for session in sessions:
         tsvfh, tsv_count = out[session.msg_type]
         out[session.msg_type][1] = session.print_tsv(tsvfh.write, tsv_count)
-- 
2.43.0


From 2308f3a896c4c57704896104956b49690e6cd019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 29/51] fix: an http2 entry that replaces an evicted one
 becomes the first of the table

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 7845550..65167b3 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -132,7 +132,7 @@ class HTTP2Codec(object):
       if index >= 0:
         self.decoder_table[index] = entry
       else:
-        self.decoder_table.insert(index, entry)
+        self.decoder_table.insert(0, entry)
       self.decoder_table_size += size
 
     return dropped_number
-- 
2.43.0


From 376901c9fc67317b9a28edaf3a7203d7772276c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 30/51] fix: fill delta's predefined table from its list

Storage.__init__ stored the leftover module globals key/val (the last
opcode) under every predefined entry, and never registered the keys by
index: a header named after an opcode could not be decoded.
---
 compressor/delta/spdy4_codec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index a2e4336..d6cf370 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -667,10 +667,11 @@ class Storage(object):
     self.key_idx_to_ke = {}
 
     for (k, v) in g_default_kvs:
-      ke = self.FindKeyEntry(key)
+      ke = self.FindKeyEntry(k)
       if ke is None:
-        self.key_map[key] = ke = self.NewKE(key)
-      ke.val_map[val] = ve = self.NewVE(key, val, ke)
+        self.key_map[k] = ke = self.NewKE(k)
+        self.key_idx_to_ke[ke.key_idx] = ke
+      ke.val_map[v] = ve = self.NewVE(k, v, ke)
       ve.lru_idx = lru_idx = self.GetNextUnusedLruId()
       self.lru_idx_to_ve[lru_idx] = ve
       self.lru_ids.minimum_id = lru_idx
-- 
2.43.0


From 1af9a85efb8bcfe7493bc0679a9e9c33db3ea82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 31/51] fix: count and release delta's stored strings

InsertVal did not count the value it stored and MaybeRemoveFromKeyMap
kept the key it discounted, so the size only ever went down and
max_byte_size was never enforced.
---
 compressor/delta/spdy4_codec_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index d6cf370..fedc8fc 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -738,6 +738,7 @@ class Storage(object):
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
     self.num_vals += 1
+    self.state_size += len(val)
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
     self.DecrementRefCnt(ke)
     return ve
@@ -796,6 +797,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
-- 
2.43.0


From 403572c0320c729cbbea323025ab5dedf0394a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 32/51] fix: keep delta's renumbered entry in the message's
 group

The loop over an entry's groups reused the parameter group_id, so an
entry shared by two groups was filed under an arbitrary one of them.
---
 compressor/delta/spdy4_codec_impl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index fedc8fc..e5b776b 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -899,9 +899,8 @@ class Spdy4CoDe(object):
 
   def RenumberVELruIdx(self, ve, group_id):
     v_idx = ve.lru_idx
-    removals = []
-    for group_id in ve.groups:
-      header_group = self.header_groups[group_id]
+    for other_id in ve.groups:
+      header_group = self.header_groups[other_id]
       header_group.RemoveEntry(v_idx)
     ve.groups.clear()
     ve.groups.add(group_id)
-- 
2.43.0


From 6a61012debdf29921a2efd01723ac47e80cc9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 33/51] fix: mark the top bit of the 32-bit stream identifier
 (C++)

Bit 15 was used: streams from 32768 on aborted.
---
 compressor/delta/spdy4_headers_codec.cc      | 6 +++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 031533f..8775ed3 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1206,13 +1206,13 @@ class InlineSerialization :
   }
 
   void WriteControlFrameStreamId(OutputStream* os, StreamId stream_id) {
-    if (stream_id & 0x8000U) {
+    if (stream_id & 0x80000000U) {
       abort(); // can't have that top-order bit set....
     }
 #ifdef BIT_ALIGNED
-    os->StoreBits32(0x8000U | stream_id);
+    os->StoreBits32(0x80000000U | stream_id);
 #else
-    os->StoreByteAlignedUint32(0x8000U | stream_id);
+    os->StoreByteAlignedUint32(0x80000000U | stream_id);
 #endif
   }
 };
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 031533f..8775ed3 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1206,13 +1206,13 @@ class InlineSerialization :
   }
 
   void WriteControlFrameStreamId(OutputStream* os, StreamId stream_id) {
-    if (stream_id & 0x8000U) {
+    if (stream_id & 0x80000000U) {
       abort(); // can't have that top-order bit set....
     }
 #ifdef BIT_ALIGNED
-    os->StoreBits32(0x8000U | stream_id);
+    os->StoreBits32(0x80000000U | stream_id);
 #else
-    os->StoreByteAlignedUint32(0x8000U | stream_id);
+    os->StoreByteAlignedUint32(0x80000000U | stream_id);
 #endif
   }
 };
-- 
2.43.0


From 9ffa8574af76d5887b413a3465cda30ff5489faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 34/51] fix: SetMaxVals sets the number of values (C++)

It set the limit of the state size.
---
 compressor/delta/spdy4_headers_codec.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_codec.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 8775ed3..0714858 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1296,5 +1296,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 8775ed3..0714858 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1296,5 +1296,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
-- 
2.43.0


From 3558075c1febda77ccefb016714007837011f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 35/51] fix: emit every toggle (C++)

Single toggles were never collected, hence no ranges either.
---
 compressor/delta/spdy4_headers_codec.cc      | 4 +++-
 compressor/delta_bohe/spdy4_headers_codec.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 0714858..debc914 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1032,16 +1032,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 0714858..debc914 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1032,16 +1032,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
-- 
2.43.0


From 4ea2fa96fb391da463592bbceb6ec3e0d2808a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:46 +0000
Subject: [PATCH 36/51] fix: keep the number of a toggled entry (C++)

The entry may be evicted, and deleted, before the toggles are written.
---
 compressor/delta/spdy4_headers_codec.cc      | 7 ++++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index debc914..eea14af 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // entry may be gone when this is serialized
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index debc914..eea14af 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // entry may be gone when this is serialized
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
-- 
2.43.0


From 8960d870bb14f01a0fbe56ad4b429d39ecc17a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:46 +0000
Subject: [PATCH 37/51] fix: number the predefined entries (C++)

All of them were toggled as entry 0.
---
 compressor/delta/spdy4_headers_codec.cc      | 2 ++
 compressor/delta_bohe/spdy4_headers_codec.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index eea14af..3fba2c9 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -911,6 +911,8 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       storage.AddToHeadOfLRU(entry);
       // add the entry to that group.
       SetHeaderGroupEntry(group_id, entry, true);
+    } else {
+      entry->lru_idx = storage.lru_ids.GetNext();
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index eea14af..3fba2c9 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -911,6 +911,8 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       storage.AddToHeadOfLRU(entry);
       // add the entry to that group.
       SetHeaderGroupEntry(group_id, entry, true);
+    } else {
+      entry->lru_idx = storage.lru_ids.GetNext();
     }
   }
 
-- 
2.43.0


From 7853456bcfacee0fd82baac89148ca8597cbbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 38/51] fix: renew used entries in an order the receiver knows
 (C++)

Entries were moved to the head in the order of the headers, so that a
decoder would evict others than the encoder did; and a header that is
repeated in a frame was toggled on and off again.
---
 compressor/delta/spdy4_headers_codec.cc      | 31 +++++++++++++++++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 31 +++++++++++++++++---
 2 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 3fba2c9..a28320c 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -528,6 +528,9 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
+    bool operator==(const ToggleOp& ob_b) const {
+      return idx() == ob_b.idx();
+    }
   };
 
   struct Instructions {
@@ -769,6 +772,12 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
     // the elements we must be turning off.
     DiscoverTurnOffs(&(instrs.toggle_offs), group_id);
 
+    MoveTouchedToHeadOfLRU(header_group);
+    sort(instrs.toggle_ons.begin(), instrs.toggle_ons.end());
+    instrs.toggle_ons.erase(unique(instrs.toggle_ons.begin(),
+                                   instrs.toggle_ons.end()),
+                            instrs.toggle_ons.end());
+
     ExecuteInstructionsExceptERefs(group_id, instrs);
 
     for (vector<LookupCache>::iterator key_lu_it = key_lookups.begin();
@@ -808,10 +817,24 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   void TouchHeaderGroupEntry(HeaderGroup::iterator i) {
     i->second = frame_count;
-    DEBUG_PRINT(cout << "Touching: " << i->first->lru_idx;)
-    MoveToHeadOfLRU(i->first);
-    DEBUG_PRINT(cout << " new idx: " << i->first->lru_idx;)
-    DEBUG_PRINT(cout << "\n";)
+    DEBUG_PRINT(cout << "Touching: " << i->first->lru_idx << "\n";)
+  }
+
+  // Moves the entries which stay turned on, in the order of their indices (the
+  // order of the headers is unknown to the receiver).
+  void MoveTouchedToHeadOfLRU(const HeaderGroup& header_group) {
+    vector<ToggleOp> touched;
+    for (HeaderGroup::const_iterator i = header_group.begin();
+         i != header_group.end(); ++i) {
+      if (i->second == frame_count) {
+        touched.push_back(ToggleOp(i->first));
+      }
+    }
+    sort(touched.begin(), touched.end());
+    for (vector<ToggleOp>::iterator i = touched.begin();
+         i != touched.end(); ++i) {
+      MoveToHeadOfLRU(i->entry);
+    }
   }
 
   bool HeaderGroupEntryUpToDate(HeaderGroup::iterator i) const {
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 3fba2c9..a28320c 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -528,6 +528,9 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
+    bool operator==(const ToggleOp& ob_b) const {
+      return idx() == ob_b.idx();
+    }
   };
 
   struct Instructions {
@@ -769,6 +772,12 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
     // the elements we must be turning off.
     DiscoverTurnOffs(&(instrs.toggle_offs), group_id);
 
+    MoveTouchedToHeadOfLRU(header_group);
+    sort(instrs.toggle_ons.begin(), instrs.toggle_ons.end());
+    instrs.toggle_ons.erase(unique(instrs.toggle_ons.begin(),
+                                   instrs.toggle_ons.end()),
+                            instrs.toggle_ons.end());
+
     ExecuteInstructionsExceptERefs(group_id, instrs);
 
     for (vector<LookupCache>::iterator key_lu_it = key_lookups.begin();
@@ -808,10 +817,24 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   void TouchHeaderGroupEntry(HeaderGroup::iterator i) {
     i->second = frame_count;
-    DEBUG_PRINT(cout << "Touching: " << i->first->lru_idx;)
-    MoveToHeadOfLRU(i->first);
-    DEBUG_PRINT(cout << " new idx: " << i->first->lru_idx;)
-    DEBUG_PRINT(cout << "\n";)
+    DEBUG_PRINT(cout << "Touching: " << i->first->lru_idx << "\n";)
+  }
+
+  // Moves the entries which stay turned on, in the order of their indices (the
+  // order of the headers is unknown to the receiver).
+  void MoveTouchedToHeadOfLRU(const HeaderGroup& header_group) {
+    vector<ToggleOp> touched;
+    for (HeaderGroup::const_iterator i = header_group.begin();
+         i != header_group.end(); ++i) {
+      if (i->second == frame_count) {
+        touched.push_back(ToggleOp(i->first));
+      }
+    }
+    sort(touched.begin(), touched.end());
+    for (vector<ToggleOp>::iterator i = touched.begin();
+         i != touched.end(); ++i) {
+      MoveToHeadOfLRU(i->entry);
+    }
   }
 
   bool HeaderGroupEntryUpToDate(HeaderGroup::iterator i) const {
-- 
2.43.0


From 90aa2c5d7d88336cf6457b2dc795d2eefb3a7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 39/51] fix: keep a field named h apart from the host (simple)

Both were kept as 'h', so that such a field became the host.
---
 compressor/simple/__init__.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index ba66111..781487b 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -125,7 +125,7 @@ class Processor(BaseProcessor):
       and name == ':host' \
       and self.last_c.get(name, None) == value \
       and len(refs) < self.max_entries:
-          refs.append('h')
+          refs.append(name)
           continue
       elif name in self.ignore_hdrs:
         continue
@@ -138,10 +138,8 @@ class Processor(BaseProcessor):
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
-      headers["ref"] = ",".join([self.hdr_name(ref) for ref in refs])
-    if headers.has_key('h'):
-      headers[':host'] = headers['h']
-      del headers['h']
+      headers["ref"] = ",".join(
+          [self.lookups.get(ref, "!%s" % ref) for ref in refs])
     msg = format_http1(headers, 
                        delimiter="\n", 
                        valsep=":", 
@@ -156,8 +154,6 @@ class Processor(BaseProcessor):
     for name in headers.keys():
       if name == "ref":
         continue
-      elif name == ":host":
-        out_headers['h'] = headers[name]
       elif name[0] == ":":
         out_headers[name] = headers[name]
       elif name[0] == '!':
@@ -185,9 +181,6 @@ class Processor(BaseProcessor):
           sys.stdout.write("\n\n%s\n\n" % repr(self.last_d))
           raise
     self.last_d = copy(out_headers)
-    if out_headers.has_key('h'):
-      out_headers[':host'] = out_headers['h']
-      del out_headers['h']
     return out_headers
 
   def hdr_name(self, name):
-- 
2.43.0


From 763591a7a204e707b79a0b68d95e448a908eb667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 40/51] fix: do not flush simple's decompressor

No data can be decompressed after flush(); Jython fails in the next message.
---
 compressor/simple/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index 781487b..14aaa21 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -195,10 +195,7 @@ class Processor(BaseProcessor):
                   ])
                       
   def huffman_decode(self, blob):
-    return ''.join([
-                   self.decompressor.decompress(blob),
-                   self.decompressor.flush(zlib.Z_SYNC_FLUSH)
-                  ])
+    return self.decompressor.decompress(blob)
 
 
 DATE = r"""(?:\w{3},\ [0-9]{2}\ \w{3}\ [0-9]{4}\ [0-9]{2}:[0-9]{2}:[0-9]{2}\ GMT |
-- 
2.43.0


From ebb17b898649622771652e681ef947e64867008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 41/51] fix: keep what is not a canonical date (simple)

With the date parameter, 'expires: 0' was read back as a date of 1970 and
dates in other formats were changed.
---
 compressor/simple/__init__.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index 14aaa21..7b94ad2 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -26,7 +26,8 @@ class Processor(BaseProcessor):
     name does not occur there, its name will be preceded with a "!".
 
   * Header types that are known to be dates are expressed as a hexidecimal
-    number of seconds since the epoch.    
+    number of seconds since the epoch. A value which such a number does not
+    stand for is preceded with a "!".
     
   * "\n" is used as a line delimiter, instead of "\r\n".
   
@@ -131,10 +132,7 @@ class Processor(BaseProcessor):
         continue
       # re-encoding
       if self.compress_dates and name in self.date_hdrs:
-        try:
-          value = "%x" % parse_date(value)
-        except ValueError:
-          pass
+        value = encode_date(value)
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
@@ -161,10 +159,7 @@ class Processor(BaseProcessor):
       else:
         expanded_name = self.rev_lookups[name]
         if self.compress_dates and expanded_name in self.date_hdrs:
-          try:
-            out_headers[expanded_name] = format_date(int(headers[name], 16))
-          except ValueError:
-            out_headers[expanded_name] = headers[name]
+          out_headers[expanded_name] = decode_date(headers[name])
         else:
           out_headers[expanded_name] = headers[name]
     if headers.has_key('ref') and self.last_d:
@@ -222,3 +217,22 @@ def parse_date(value):
 def format_date(value):
   """Format a HTTP date."""
   return lib_formatdate(timeval=value, localtime=False, usegmt=True)
+
+def encode_date(value):
+  """
+  Hexidecimal seconds since the epoch; values which those do not stand for
+  are preceded with a "!".
+  """
+  try:
+    date = parse_date(value)
+    if format_date(date) == value:
+      return "%x" % date
+  except ValueError:
+    pass
+  return "!%s" % value
+
+def decode_date(value):
+  """The inverse of encode_date."""
+  if value[0] == "!":
+    return value[1:]
+  return format_date(int(value, 16))
-- 
2.43.0


From 28d417535ac2d494cb421df93ab27e0b878bcb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 42/51] fix: no empty response after the last one (C++ parser)

The end of the text was taken for a further empty line.
---
 compressor/delta/trivial_http_parse.h      | 5 ++---
 compressor/delta_bohe/trivial_http_parse.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/trivial_http_parse.h b/compressor/delta/trivial_http_parse.h
index abc5a03..70fe0bb 100644
--- a/compressor/delta/trivial_http_parse.h
+++ b/compressor/delta/trivial_http_parse.h
@@ -65,9 +65,8 @@ class TrivialHTTPParse {
     }
     HeaderFrame* cur_frame = GetHeaderFramePtr(frames[frames_idx], frames_len);
 
-    while (istrm.good()) {
-      string line;
-      getline(istrm, line);
+    string line;
+    while (getline(istrm, line)) {
       size_t colon_pos = line.find_first_of(":", 1);
       if (line.size() == 0) {
         // finished with this frame.
diff --git a/compressor/delta_bohe/trivial_http_parse.h b/compressor/delta_bohe/trivial_http_parse.h
index abc5a03..70fe0bb 100644
--- a/compressor/delta_bohe/trivial_http_parse.h
+++ b/compressor/delta_bohe/trivial_http_parse.h
@@ -65,9 +65,8 @@ class TrivialHTTPParse {
     }
     HeaderFrame* cur_frame = GetHeaderFramePtr(frames[frames_idx], frames_len);
 
-    while (istrm.good()) {
-      string line;
-      getline(istrm, line);
+    string line;
+    while (getline(istrm, line)) {
       size_t colon_pos = line.find_first_of(":", 1);
       if (line.size() == 0) {
         // finished with this frame.
-- 
2.43.0


From 8aa212a3ffcb09e1132f332f6fa830e8d654a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 43/51] fix: ParseFile reports failures (C++ parser)

---
 compressor/delta/trivial_http_parse.h      | 3 +--
 compressor/delta_bohe/trivial_http_parse.h | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/trivial_http_parse.h b/compressor/delta/trivial_http_parse.h
index 70fe0bb..c26936a 100644
--- a/compressor/delta/trivial_http_parse.h
+++ b/compressor/delta/trivial_http_parse.h
@@ -51,8 +51,7 @@ class TrivialHTTPParse {
                 vector<HeaderFrame>* requests,
                 vector<HeaderFrame>* responses) {
     ifstream ifs(fn.c_str());
-    ParseStream(ifs, requests, responses);
-    return 1;
+    return ParseStream(ifs, requests, responses);
   }
   static int ParseStream(istream& istrm,
                 vector<HeaderFrame>* requests,
diff --git a/compressor/delta_bohe/trivial_http_parse.h b/compressor/delta_bohe/trivial_http_parse.h
index 70fe0bb..c26936a 100644
--- a/compressor/delta_bohe/trivial_http_parse.h
+++ b/compressor/delta_bohe/trivial_http_parse.h
@@ -51,8 +51,7 @@ class TrivialHTTPParse {
                 vector<HeaderFrame>* requests,
                 vector<HeaderFrame>* responses) {
     ifstream ifs(fn.c_str());
-    ParseStream(ifs, requests, responses);
-    return 1;
+    return ParseStream(ifs, requests, responses);
   }
   static int ParseStream(istream& istrm,
                 vector<HeaderFrame>* requests,
-- 
2.43.0


From 21afcee27215a4a11fc8fe4e53a699074a820532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 44/51] fix: keep what follows a NUL in a capture (C++ sample)

Repeated headers are delimited by NUL.
---
 compressor/delta/spdy4_headers_sample.cc      | 3 +--
 compressor/delta_bohe/spdy4_headers_sample.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 78ed549..cdf3e16 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -65,8 +65,7 @@ int ParseHarFiles(int n_files, char** files,
       }
       break;
     } else {
-      buf[bytes_read] = 0;
-      input << buf;
+      input.write(buf, bytes_read);
     }
   }
   if (!TrivialHTTPParse::ParseStream(input, requests, responses)) {
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index eda6632..8da2376 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -65,8 +65,7 @@ int ParseHarFiles(int n_files, char** files,
       }
       break;
     } else {
-      buf[bytes_read] = 0;
-      input << buf;
+      input.write(buf, bytes_read);
     }
   }
   if (!TrivialHTTPParse::ParseStream(input, requests, responses)) {
-- 
2.43.0


From d9463198395cd75fb2d42f2a0bb26a893ccfcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 45/51] fix: the length of a SPDY/3 frame (C++ sample)

It counted its own three octets.
---
 compressor/delta/spdy4_headers_sample.cc      | 3 ++-
 compressor/delta_bohe/spdy4_headers_sample.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index cdf3e16..d785af0 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -247,7 +247,8 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    // the length counts what follows it.
+    OverwriteInt24(out, length_pin, out->size() - (length_pin + 3));
   }
 };
 
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index 8da2376..31cd365 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -247,7 +247,8 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    // the length counts what follows it.
+    OverwriteInt24(out, length_pin, out->size() - (length_pin + 3));
   }
 };
 
-- 
2.43.0


From b9a07fe41501102154e4ed1575d0139f69e46270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 46/51] fix: name raw bohe's Huffman coder

---
 compressor/bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 33af40e..2149793 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -24,9 +24,9 @@ class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
     BaseProcessor.__init__(self, options, is_request, params)
     if is_request:
-      self.huff = huffman.Huffman(header_freq_tables.request_freq_table)
+      self.huff = Huffman(header_freq_tables.request_freq_table)
     else:
-      self.huff = huffman.Huffman(header_freq_tables.response_freq_table)
+      self.huff = Huffman(header_freq_tables.response_freq_table)
 
   def compress(self, inp_headers, host):
     data = BitBucket()
-- 
2.43.0


From e92fd672db280dce48a0d8d70618b0b1d91cad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 47/51] fix: raw bohe's flag of several values

---
 compressor/bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 2149793..1b882f0 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -43,7 +43,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
           dohuff = False
         # Set the multiple values flag...
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
@@ -59,7 +59,7 @@ class Processor(BaseProcessor):
         data.StoreBits8(128 | len(k))
         data.StoreBits((common_utils.StrToList(k), len(k)*8))
         data.StoreBit(0) # assume not binary value for now
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-- 
2.43.0


From 17b74929e88ebd0fc433bf10ce6e4a6e55b9e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 48/51] fix: raw bohe's cache-control of responses

---
 compressor/bohe/__init__.py | 3 ++-
 compressor/bohe/bohe.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 1b882f0..5b1ea0d 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -23,6 +23,7 @@ class Processor(BaseProcessor):
 
   def __init__(self, options, is_request, params):
     BaseProcessor.__init__(self, options, is_request, params)
+    self.typ = 'req' if is_request else 'res'
     if is_request:
       self.huff = Huffman(header_freq_tables.request_freq_table)
     else:
@@ -47,7 +48,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-        val = bohe.encode(k,v)
+        val = bohe.encode(k, v, self.typ)
         if dohuff:
           val_as_list, len_in_bits = self.do_huff(self.huff, val)
         else:
diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 2d0bbd9..4c0b8d8 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -245,9 +245,9 @@ ENCODERS = {
   'p3p': enc_p3p
 }
 
-def encode(key,val):
+def encode(key, val, typ='req'):
   if key in ENCODERS:
-    return ENCODERS[key](val)
+    return ENCODERS[key](val, typ)
   else: 
     return val
 
-- 
2.43.0


From 0d6565f80eadab7f2f4111510d83f3df6f341f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 49/51] fix: raw bohe's private and no-cache with names

---
 compressor/bohe/bohe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 4c0b8d8..725f5f4 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
-- 
2.43.0


From fb17dd7a6d480f67edb77637bc5d9faf59d27df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:34 +0000
Subject: [PATCH 50/51] fix: the sample external codec ends when its input ends

readline() gives '' for ever at the end of the input, so the process wrote
empty lines without end (until its output broke).
---
 sample_exec_codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_exec_codec.py b/sample_exec_codec.py
index c890d71..d47c6de 100755
--- a/sample_exec_codec.py
+++ b/sample_exec_codec.py
@@ -13,6 +13,8 @@ def main():
       name = "%d" % os.getpid()
     while True:
       line = sys.stdin.readline()
+      if line == "": # end of input
+        return
       if line.strip() == "":
         break
       headers.append(line)
-- 
2.43.0


From 2440518188834fb442532ea323be1e1d084885ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 51/51] fix: the TSV page draws a single codec

The stream labels were taken from the second codec, so the page failed
(and drew no line) when only one was compared.
---
 display_tsv.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/display_tsv.html b/display_tsv.html
index a9a8212..c03de75 100644
--- a/display_tsv.html
+++ b/display_tsv.html
@@ -131,7 +131,7 @@ function display_tsv(filename, title) {
 
     // stream labels
     var lastLabel = null;
-    var streamLabels = items[1].values.forEach( function(i) {
+    var streamLabels = items[0].values.forEach( function(i) {
       if (lastLabel != i.stream) {
         svg.append("g")
           .attr("class", "note")
-- 
2.43.0

