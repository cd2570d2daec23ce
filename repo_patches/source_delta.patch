From 69733c78e0ac193a7d9a6545c6185b07235e7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 01/63] fix: report why a HAR file cannot be parsed instead of
 raising TypeError

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..4a904bc 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write(str(oops))
     sys.exit(1)
   finally: 
     fhandle.close()
-- 
2.43.0


From 13fa4f1082b6a243656d3bd5ae46a74afa18859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:16 +0000
Subject: [PATCH 02/63] fix: take the host of a URL without a path from its
 authority

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 4a904bc..47535e7 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -51,7 +51,7 @@ def har2hdrs(har):
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
     if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From f14fdfb8d6ae7a93d6d4760e403fdfac6247d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:22 +0000
Subject: [PATCH 03/63] fix: keep the Host header a request carries instead of
 always overwriting it

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 47535e7..460936b 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,7 +50,7 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
+    if not ":host" in headers:
       headers[":host"] = url.netloc
     request_headers.append(headers)
 
-- 
2.43.0


From ab1d816206a09fbe0e27fd11724640c4f570307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 04/63] fix: format sizes with locale.format_string,
 locale.format is gone

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From 393099c4b25f4d8121d9077a14cdf9e970c788b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 05/63] fix: adding streams must not append to the first
 stream's messages

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index 5493838..f2c0897 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,7 +72,7 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
+    new = Stream('', list(self.messages), self.msg_type, self.procs)
     new.messages.extend(other.messages) # NB: not great for memory
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
-- 
2.43.0


From 5e9b973996bbab1328a1a4c82c5cd7be22e08130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 06/63] fix: totalling a single stream must not rename that
 stream to TOTAL

---
 compare_compressors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..0fee036 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -59,7 +59,7 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type], 0)
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
-- 
2.43.0


From 577a28c88209732a4707204771b85a14f5c89d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 07/63] fix: hyper_hpack decompresses to a header dictionary
 like every other codec

---
 compressor/hyper_hpack/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/hyper_hpack/__init__.py b/compressor/hyper_hpack/__init__.py
index bf314f5..b49788f 100644
--- a/compressor/hyper_hpack/__init__.py
+++ b/compressor/hyper_hpack/__init__.py
@@ -14,4 +14,4 @@ class Processor(BaseProcessor):
     return self.compressor.encode(headers)
 
   def decompress(self, compressed):
-    return self.decompressor.decode(compressed)
\ No newline at end of file
+    return dict(self.decompressor.decode(compressed))
\ No newline at end of file
-- 
2.43.0


From 3825020d0ad80d5f6755c507cd88ac7cfd1027e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 08/63] fix: parse a Host field of a response back to :host, as
 it was formatted

---
 compressor/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/__init__.py b/compressor/__init__.py
index 0cc3f4f..7846068 100644
--- a/compressor/__init__.py
+++ b/compressor/__init__.py
@@ -101,11 +101,11 @@ def parse_http1(message, is_request, host='host'):
     out[':method'] = top_line[0]
     out[':path'] = top_line[1]
     out[':version'] = top_line[2].strip()
-    if host in out:
-      out[':host'] = out[host]
-      del out[host]
   else:
     out[':version'] = top_line[0]
     out[':status'] = top_line[1]
     out[':status-text'] = top_line[2].strip()
+  if host in out:
+    out[':host'] = out[host]
+    del out[host]
   return out
-- 
2.43.0


From 1a5a6a937f5f823c6ad7e92c564c7a5911ce6453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 09/63] fix: spdy3 dictionary must be bytes for zlib

---
 compressor/spdy3/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 57547b0..5dc149f 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -12,7 +12,7 @@ class Processor(BaseProcessor):
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
     if 'dict' in params:
-      self.compressor.compress(spdy_dictionary.spdy_dict);
+      self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
       self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-- 
2.43.0


From 6e43fc0b3594e37a2132099338e3b24487246a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 10/63] fix: http1_gzip and http1_huffman must feed bytes to
 zlib

---
 compressor/http1_gzip/__init__.py    | 6 +++---
 compressor/http1_huffman/__init__.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..912366a 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -10,12 +10,12 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('latin-1')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..fad684c 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -10,12 +10,12 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('latin-1')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
-- 
2.43.0


From da6602c4732472a5881f25b33fbabf15563637bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 11/63] fix: make the fork codec importable and let it talk
 bytes to the process

---
 compressor/fork/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..191b6c0 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,17 +24,18 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
-    self.process.stdin.write(http1_msg)
+    http1_msg = format_http1(in_headers)
+    self.process.stdin.write(http1_msg.encode('latin-1'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From a8b2d8b46d28e218dca675ac7a6703a61739bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:22 +0000
Subject: [PATCH 12/63] fix: http2 encoder must not loop forever when a
 referenced header was evicted

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From 723ef89539bf73ea3a05789be773d0448cd5a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:22 +0000
Subject: [PATCH 13/63] fix: a substituted entry that was evicted is replaced
 at the start of the http2 table

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 7845550..65167b3 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -132,7 +132,7 @@ class HTTP2Codec(object):
       if index >= 0:
         self.decoder_table[index] = entry
       else:
-        self.decoder_table.insert(index, entry)
+        self.decoder_table.insert(0, entry)
       self.decoder_table_size += size
 
     return dropped_number
-- 
2.43.0


From f48a2710fe6abc67076b9d732238e57ec988fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:14 +0000
Subject: [PATCH 14/63] fix: headerdiff must inflate the frame's payload, not
 its frame header

With the deflate option the decoder fed the eight byte frame header to
zlib and failed on the first message.
---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..b7ad5d4 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 9ae8406fc597b91fd6c9b83d963449fc6469e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:14 +0000
Subject: [PATCH 15/63] fix: headerdiff must not confuse headers whose name and
 value concatenate alike

The encoder looked indexed headers up by name + value, so 'a: bc' was sent
as a reference to an indexed 'ab: c'.
---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index b7ad5d4..2cd29ff 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From c874f1f67232cf924acbdfa5431df7331f12957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 16/63] fix: delta storage must not raise NameError when its
 byte limit is reached

---
 compressor/delta/spdy4_codec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..074c838 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -688,7 +688,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
-- 
2.43.0


From c2e48847524eaddc2b3bddfb6690975da79c096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 17/63] fix: delta storage must account for what it stores

Values were subtracted when removed but never added, and a key without
values was subtracted but kept, so the size went negative and the byte
limit never took effect.
---
 compressor/delta/spdy4_codec_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 074c838..6a6267a 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -732,6 +732,7 @@ class Storage(object):
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
     self.num_vals += 1
+    self.state_size += len(val)
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
     self.DecrementRefCnt(ke)
     return ve
@@ -790,6 +791,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
-- 
2.43.0


From 8f175e9a8f04a353a0be18f140c8b5bb0249bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 18/63] fix: preload the delta storage with its default headers

The loop stored a left-over of the opcode table instead of the default
keys and values, under a key index that no clone could refer to; a header
of that name could not be compressed.
---
 compressor/delta/spdy4_codec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 6a6267a..d72f073 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -662,10 +662,11 @@ class Storage(object):
     self.key_idx_to_ke = {}
 
     for (k, v) in g_default_kvs:
-      ke = self.FindKeyEntry(key)
+      ke = self.FindKeyEntry(k)
       if ke is None:
-        self.key_map[key] = ke = self.NewKE(key)
-      ke.val_map[val] = ve = self.NewVE(key, val, ke)
+        self.key_map[k] = ke = self.NewKE(k)
+        self.key_idx_to_ke[ke.key_idx] = ke
+      ke.val_map[v] = ve = self.NewVE(k, v, ke)
       ve.lru_idx = lru_idx = self.GetNextUnusedLruId()
       self.lru_idx_to_ve[lru_idx] = ve
       self.lru_ids.minimum_id = lru_idx
-- 
2.43.0


From a8890a39f4704b5bf72128d7692731f0b351e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 19/63] fix: delta must not put more than 256 operations under
 one opcode

The count is one byte; the operations beyond it were read as opcodes.
---
 compressor/delta/spdy4_codec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index d72f073..7a184d9 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -407,7 +407,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - ops_idx):
         try:
           self.WriteOpData(data, ops[orig_idx + i], huff)
         except:
-- 
2.43.0


From 82c0f8b316d87b27036e92ce5a1bf858578c8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 20/63] fix: renumbering a delta entry must keep it in the
 group that used it

The loop over the entry's groups reused the name of the parameter, so the
entry could end in another header group than the one being processed.
---
 compressor/delta/spdy4_codec_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 7a184d9..42c735b 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -895,8 +895,8 @@ class Spdy4CoDe(object):
   def RenumberVELruIdx(self, ve, group_id):
     v_idx = ve.lru_idx
     removals = []
-    for group_id in ve.groups:
-      header_group = self.header_groups[group_id]
+    for other_id in ve.groups:
+      header_group = self.header_groups[other_id]
       header_group.RemoveEntry(v_idx)
     ve.groups.clear()
     ve.groups.add(group_id)
-- 
2.43.0


From 0bf779d2d7f2597098d80a69b80309c3afe664e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 21/63] fix: delta2 must be able to pack a string without
 Huffman coding

PackStr used the length of the Huffman branch, which was not set.
---
 compressor/delta2/spdy4_codec_impl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 21894a3..f63a5ad 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -264,6 +264,7 @@ def PackStr(data, params, val, huff):
     (val_as_list, len_in_bits) = huff.Encode(val_as_list, True)
   else:
     val_as_list.append(0)
+    len_in_bits = len(val_as_list) * 8
   data.StoreBits( (val_as_list, len_in_bits) )
   if pad_to_byte_boundary:
     data.PadToByteBoundary()
-- 
2.43.0


From fc93784e6b34030164f04d691d6c5fe7090887ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 22/63] fix: evicting must not drop the header group that is
 being processed

A group left empty by an eviction was deleted while the frame being
executed still held it, so whatever the frame went on to add to the group
(hg_adjust, implicit_hg_add) was lost.
---
 compressor/delta2/spdy4_codec_impl.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index f63a5ad..2fe6d86 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -831,13 +831,8 @@ class Spdy4CoDe(object):
                            max_index,self.idx_from_end)
     def RemoveVIdxFromAllHeaderGroups(entry):
       v_idx = entry.seq_num
-      to_be_removed = []
       for group_id, header_group in self.header_groups.iteritems():
         header_group.RemoveEntry(v_idx)
-        if header_group.Empty():
-          to_be_removed.append(group_id)
-      for group_id in to_be_removed:
-        del self.header_groups[group_id]
 
     self.storage.SetRemoveValCB(RemoveVIdxFromAllHeaderGroups)
 
-- 
2.43.0


From 068eb319adc1735ce5300a01c99443ff918b9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 23/63] fix: delta2 storage must count the keys it stores

Entries were duplicated when stored and the originals never released, so
every key (with refcnt_vals every value too) looked shared and counted as
nothing: max_byte_size did not bound what was stored.
---
 compressor/delta2/spdy4_codec_impl.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 2fe6d86..723da73 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -1032,9 +1032,15 @@ class Spdy4CoDe(object):
     return (group_id, ops, headers)
 
   def Store(self, kv):
+    new_idx = self.storage.InsertVal(kv)
+    if new_idx is None:
+      kv.done()  # not stored, so it must not hold on to its strings
+    return new_idx
+
+  def Duplicate(self, kv):
     if self.refcnt_vals:
-      return self.storage.InsertVal(lrustorage.KV(kv.key_, kv.val_))
-    return self.storage.InsertVal(lrustorage.KV(kv.key_, kv.val()))
+      return lrustorage.KV(kv.key_, kv.val_)
+    return lrustorage.KV(kv.key_, kv.val())
 
   def DecompressorExecuteOps(self, ops, group_id):
     store_later = deque()
@@ -1112,7 +1118,7 @@ class Spdy4CoDe(object):
       for kv, old_idx in hg_store_later:
         if old_idx in current_header_group.hg_store:
           current_header_group.hg_store.remove(old_idx)
-        new_idx = self.Store(kv)
+        new_idx = self.Store(self.Duplicate(kv))
         if new_idx is not None:
           current_header_group.hg_store.add(new_idx)
 
-- 
2.43.0


From 49c32b7ed9e803646f5845734f34dee74eefaa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 24/63] fix: simple must not turn a value that is no date into
 one

With date compression, values such as "0" or "-1" of Expires were sent as
they are, and taken for a number of seconds by the decompressor.
---
 compressor/simple/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index ba66111..eac1f14 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -134,7 +134,9 @@ class Processor(BaseProcessor):
         try:
           value = "%x" % parse_date(value)
         except ValueError:
-          pass
+          # An unabbreviated name says that the value isn't a converted date.
+          headers["!%s" % name] = value
+          continue
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
-- 
2.43.0


From 277c2b6f2427aa7ca59b8299419a4ba5d3dba853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 25/63] fix: simple must not mix up :host and a header named h

:host was kept, and referenced, under the name "h".
---
 compressor/simple/__init__.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index eac1f14..041a207 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -119,7 +119,7 @@ class Processor(BaseProcessor):
       and name[0] != ":" \
       and self.last_c.get(name, None) == value \
       and len(refs) < self.max_entries:
-        refs.append(name)
+        refs.append(self.hdr_name(name))
         continue
       elif self.last_c \
       and name == ':host' \
@@ -140,10 +140,7 @@ class Processor(BaseProcessor):
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
-      headers["ref"] = ",".join([self.hdr_name(ref) for ref in refs])
-    if headers.has_key('h'):
-      headers[':host'] = headers['h']
-      del headers['h']
+      headers["ref"] = ",".join(refs)
     msg = format_http1(headers, 
                        delimiter="\n", 
                        valsep=":", 
@@ -158,8 +155,6 @@ class Processor(BaseProcessor):
     for name in headers.keys():
       if name == "ref":
         continue
-      elif name == ":host":
-        out_headers['h'] = headers[name]
       elif name[0] == ":":
         out_headers[name] = headers[name]
       elif name[0] == '!':
@@ -187,9 +182,6 @@ class Processor(BaseProcessor):
           sys.stdout.write("\n\n%s\n\n" % repr(self.last_d))
           raise
     self.last_d = copy(out_headers)
-    if out_headers.has_key('h'):
-      out_headers[':host'] = out_headers['h']
-      del out_headers['h']
     return out_headers
 
   def hdr_name(self, name):
-- 
2.43.0


From faacdefc4c1d94e66e672b3d03ac321d6ad9f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 26/63] fix: simple's decompressor must stay usable after the
 first message

zlib: after calling flush(), decompress() cannot be called again.
---
 compressor/simple/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index 041a207..f1aa32f 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -196,10 +196,8 @@ class Processor(BaseProcessor):
                   ])
                       
   def huffman_decode(self, blob):
-    return ''.join([
-                   self.decompressor.decompress(blob),
-                   self.decompressor.flush(zlib.Z_SYNC_FLUSH)
-                  ])
+    # Not flushed: a decompressor can't be used any more after that.
+    return self.decompressor.decompress(blob)
 
 
 DATE = r"""(?:\w{3},\ [0-9]{2}\ \w{3}\ [0-9]{4}\ [0-9]{2}:[0-9]{2}:[0-9]{2}\ GMT |
-- 
2.43.0


From 3d60a82099628f15313eb4e3bc0ae4d94322db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 27/63] fix: seven-bit decoding must not drop the last of eight
 characters

---
 compressor/simple/seven.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compressor/simple/seven.py b/compressor/simple/seven.py
index 84a4417..2965651 100755
--- a/compressor/simple/seven.py
+++ b/compressor/simple/seven.py
@@ -25,12 +25,15 @@ def decode(bits):
   out = bitarray()
   ba.frombytes(bits)
   s = 0
-  while s < len(ba):
+  while s + 7 <= len(ba):
     seven = ba[s:s+7]
     out.append(0)
     out.extend(seven)
     s += 7
-  return out.tostring()[:-1].encode('ascii')
+  text = out.tostring()
+  if text[-1:] == '\0': # seven bits of padding
+    text = text[:-1]
+  return text.encode('ascii')
 	
 
 if __name__ == "__main__":
-- 
2.43.0


From 514a388f993fd402de64b3c7c9e618d43b810fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:34 +0000
Subject: [PATCH 28/63] fix: delta2_bohe must not import a function that no
 longer exists

---
 compressor/delta2_bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 4d3defd..9510e2c 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -9,7 +9,7 @@ import header_freq_tables
 import spdy4_codec_impl
 import huffman
 import common_utils
-from .. import BaseProcessor, strip_conn_headers
+from .. import BaseProcessor
 
 # There are a number of TODOS in the spdy4
 #      have near indices. Possibly renumber whever something is referenced)
@@ -72,7 +72,7 @@ class Processor(BaseProcessor):
     else:
       group_id = self.group_ids.GetNext()
       self.hosts[normalized_host] = group_id
-    inp_ops = self.compressor.MakeOperations(strip_conn_headers(inp_headers), group_id)
+    inp_ops = self.compressor.MakeOperations(inp_headers, group_id)
     inp_real_ops = self.compressor.OpsToRealOps(inp_ops, group_id)
     compressed_blob = self.compressor.Compress(inp_real_ops)
     return compressed_blob
-- 
2.43.0


From a3b7c0412818ba9280a2cf4ff576739414d36b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:21 +0000
Subject: [PATCH 29/63] fix: parsing an HTTP/1 message must keep what is not
 HTTP white space

---
 compressor/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/__init__.py b/compressor/__init__.py
index 7846068..46cfea7 100644
--- a/compressor/__init__.py
+++ b/compressor/__init__.py
@@ -82,7 +82,7 @@ def format_http1(frame,
 def parse_http1(message, is_request, host='host'):
   """Take a HTTP1 message and return the header structure for it."""
   out = {}
-  lines = message.strip().split("\n")
+  lines = message.strip(" \t\r\n").split("\n")
   top_line = lines.pop(0).split(None, 2)
   for line in lines:
     if not line: 
@@ -94,9 +94,9 @@ def parse_http1(message, is_request, host='host'):
       name, value = line.split(":", 1)
     name = name.lower()
     if name in out:
-      out[name] += "\0" + value.strip()
+      out[name] += "\0" + value.strip(" \t\r")
     else:
-      out[name] = value.strip()
+      out[name] = value.strip(" \t\r")
   if is_request:
     out[':method'] = top_line[0]
     out[':path'] = top_line[1]
-- 
2.43.0


From 0103ab9458d5a3e262c395894d03016b242f6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:07 +0000
Subject: [PATCH 30/63] fix: BitsRemaining must not be one bit short

---
 compressor/bohe/bit_bucket.py        | 2 +-
 compressor/delta/bit_bucket.py       | 2 +-
 compressor/delta2/bit_bucket.py      | 2 +-
 compressor/delta2_bohe/bit_bucket.py | 2 +-
 compressor/delta_bohe/bit_bucket.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..dec620b 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -146,7 +146,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta/bit_bucket.py b/compressor/delta/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta/bit_bucket.py
+++ b/compressor/delta/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2/bit_bucket.py b/compressor/delta2/bit_bucket.py
index b6f522d..2ab870f 100644
--- a/compressor/delta2/bit_bucket.py
+++ b/compressor/delta2/bit_bucket.py
@@ -155,7 +155,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2_bohe/bit_bucket.py b/compressor/delta2_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta2_bohe/bit_bucket.py
+++ b/compressor/delta2_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta_bohe/bit_bucket.py b/compressor/delta_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta_bohe/bit_bucket.py
+++ b/compressor/delta_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
-- 
2.43.0


From 3bb59964ab4a8dc4af00059a69fd8b6e7ca36850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 31/63] fix: StoreBits22 must store the 22 least-significant
 bits

---
 compressor/bohe/bit_bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index dec620b..570945e 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,7 +63,7 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
+    tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)[:3]
     self.StoreBits ( (StrToList(tmp_val), 22))
 
   def StoreBits32(self, val):
-- 
2.43.0


From 4bd6915b3bd472a81eaefee2fa3e8ff6f8e73c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:27 +0000
Subject: [PATCH 32/63] fix: Huffman.Decode must recognise the end marker,
 which is a number

---
 compressor/bohe/huffman.py        | 2 +-
 compressor/delta/huffman.py       | 2 +-
 compressor/delta2_bohe/huffman.py | 2 +-
 compressor/delta_bohe/huffman.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/bohe/huffman.py b/compressor/bohe/huffman.py
index eb41c9d..f285318 100644
--- a/compressor/bohe/huffman.py
+++ b/compressor/bohe/huffman.py
@@ -181,7 +181,7 @@ class Huffman(object):
         if bit_index >= 8:
           bit_index = 0
           chr_index += 1
-      if includes_eof and root[1] is not None and ord(root[1]) == 256:
+      if includes_eof and root[1] is not None and root[1] == 256:
         break
       elif root[1] is not None:
         output.append(root[1])
diff --git a/compressor/delta/huffman.py b/compressor/delta/huffman.py
index e5ec505..6a474c1 100644
--- a/compressor/delta/huffman.py
+++ b/compressor/delta/huffman.py
@@ -180,7 +180,7 @@ class Huffman(object):
         if bit_index >= 8:
           bit_index = 0
           chr_index += 1
-      if includes_eof and root[1] is not None and ord(root[1]) == 256:
+      if includes_eof and root[1] is not None and root[1] == 256:
         break
       elif root[1] is not None:
         output.append(root[1])
diff --git a/compressor/delta2_bohe/huffman.py b/compressor/delta2_bohe/huffman.py
index eb41c9d..f285318 100644
--- a/compressor/delta2_bohe/huffman.py
+++ b/compressor/delta2_bohe/huffman.py
@@ -181,7 +181,7 @@ class Huffman(object):
         if bit_index >= 8:
           bit_index = 0
           chr_index += 1
-      if includes_eof and root[1] is not None and ord(root[1]) == 256:
+      if includes_eof and root[1] is not None and root[1] == 256:
         break
       elif root[1] is not None:
         output.append(root[1])
diff --git a/compressor/delta_bohe/huffman.py b/compressor/delta_bohe/huffman.py
index 1c57815..e89dbef 100644
--- a/compressor/delta_bohe/huffman.py
+++ b/compressor/delta_bohe/huffman.py
@@ -185,7 +185,7 @@ class Huffman(object):
         if bit_index >= 8:
           bit_index = 0
           chr_index += 1
-      if includes_eof and root[1] is not None and ord(root[1]) == 256:
+      if includes_eof and root[1] is not None and root[1] == 256:
         break
       elif root[1] is not None:
         output.append(root[1])
-- 
2.43.0


From c6f17fcf7ed78982134d23bb871c8c5f745d542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:06 +0000
Subject: [PATCH 33/63] fix: limiting the code length must change the
 frequencies' ratios

---
 compressor/delta2/huffman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index efcdc2c..6389433 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -50,9 +50,10 @@ class Huffman(object):
     internals = deque()
     for elem in freq_table:
       (sym, freq) = elem
+      freq = freq // divisor  # rounding down is what makes the tree shallower
       if freq == 0:
         freq = 1.0/512
-      weight = freq * 1.0 / divisor
+      weight = freq * 1.0
       leaves.append( (weight, MN(sym), 0, []) )
 
     # freq_table is (symbol, count)
-- 
2.43.0


From 42456869155ba705bfb34202d9dcd46a2073a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 34/63] fix: canonical codes must be handed out in order of
 their lengths

---
 compressor/delta2/huffman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index 6389433..a84e849 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -119,7 +119,7 @@ class Huffman(object):
     code = -1
     prev_code_length = 0
     canonical_code_table = {}
-    for k,v in depth_to_sym.iteritems():
+    for k,v in sorted(depth_to_sym.iteritems()):
       current_code_length = k
       #print k
       for sym in sorted(map(lambda x: x[1], v)):
-- 
2.43.0


From 3088dbafaa528582d2aac079f2dd01dee5b98559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 35/63] fix: SortedByFreq must not take the end marker for a
 character

---
 compressor/delta/word_freak.py       | 2 +-
 compressor/delta2/word_freak.py      | 2 +-
 compressor/delta2_bohe/word_freak.py | 2 +-
 compressor/delta_bohe/word_freak.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/word_freak.py b/compressor/delta/word_freak.py
index b5bf61b..c48ef19 100644
--- a/compressor/delta/word_freak.py
+++ b/compressor/delta/word_freak.py
@@ -27,7 +27,7 @@ class WordFreak:
             self.character_freaks[ord(c)] += 1
 
   def SortedByFreq(self):
-    x = [ (chr(i), self.character_freaks[i]) \
+    x = [ (chr(i) if i < 256 else i, self.character_freaks[i]) \
           for i in xrange(len(self.character_freaks))]
     return sorted(x, key=lambda x: x[1], reverse=True)
 
diff --git a/compressor/delta2/word_freak.py b/compressor/delta2/word_freak.py
index 4d58771..9902b49 100644
--- a/compressor/delta2/word_freak.py
+++ b/compressor/delta2/word_freak.py
@@ -29,7 +29,7 @@ class WordFreak:
             self.character_freaks[ord(c)] += 1
 
   def SortedByFreq(self):
-    x = [ (chr(i), self.character_freaks[i]) \
+    x = [ (chr(i) if i < 256 else i, self.character_freaks[i]) \
           for i in xrange(len(self.character_freaks))]
     return sorted(x, key=lambda x: x[1], reverse=True)
 
diff --git a/compressor/delta2_bohe/word_freak.py b/compressor/delta2_bohe/word_freak.py
index b5bf61b..c48ef19 100644
--- a/compressor/delta2_bohe/word_freak.py
+++ b/compressor/delta2_bohe/word_freak.py
@@ -27,7 +27,7 @@ class WordFreak:
             self.character_freaks[ord(c)] += 1
 
   def SortedByFreq(self):
-    x = [ (chr(i), self.character_freaks[i]) \
+    x = [ (chr(i) if i < 256 else i, self.character_freaks[i]) \
           for i in xrange(len(self.character_freaks))]
     return sorted(x, key=lambda x: x[1], reverse=True)
 
diff --git a/compressor/delta_bohe/word_freak.py b/compressor/delta_bohe/word_freak.py
index b5bf61b..c48ef19 100644
--- a/compressor/delta_bohe/word_freak.py
+++ b/compressor/delta_bohe/word_freak.py
@@ -27,7 +27,7 @@ class WordFreak:
             self.character_freaks[ord(c)] += 1
 
   def SortedByFreq(self):
-    x = [ (chr(i), self.character_freaks[i]) \
+    x = [ (chr(i) if i < 256 else i, self.character_freaks[i]) \
           for i in xrange(len(self.character_freaks))]
     return sorted(x, key=lambda x: x[1], reverse=True)
 
-- 
2.43.0


From 0c6d0bc186fb67d587ee79f4e0a44072fc311774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 36/63] fix: numbers must wrap around without an AttributeError

---
 compressor/bohe/common_utils.py        | 2 +-
 compressor/delta2_bohe/common_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/common_utils.py b/compressor/bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/bohe/common_utils.py
+++ b/compressor/bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
diff --git a/compressor/delta2_bohe/common_utils.py b/compressor/delta2_bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/delta2_bohe/common_utils.py
+++ b/compressor/delta2_bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
-- 
2.43.0


From 0cb3ad1f81d41a741c5d72b3bba4c2c04822b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 37/63] fix: unpacking a null-terminated delta string must drop
 the terminator

---
 compressor/delta/spdy4_codec_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 42c735b..43a6ae9 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -178,6 +178,8 @@ def UnpackStr(input_data, params, huff):
       retval = huff.DecodeFromBB(input_data, use_eof, bitlen)
     else:
       retval = input_data.GetBits(bitlen)[0]
+      if use_eof:
+        input_data.GetBits8()  # the terminating null
   else:  # bitlen_size == 0
     if huff:
       retval = huff.DecodeFromBB(input_data, use_eof, 0)
@@ -185,9 +187,9 @@ def UnpackStr(input_data, params, huff):
       retval = []
       while True:
         c = input_data.GetBits8()
-        retval.append(c)
         if c == 0:
           break
+        retval.append(c)
   if pad_to_byte_boundary:
     input_data.AdvanceToByteBoundary()
   retval = common_utils.ListToStr(retval)
-- 
2.43.0


From bfff9169dd7b051d0ffac70be0faf7787290943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:50 +0000
Subject: [PATCH 38/63] fix: reserving more than delta2_bohe's storage can hold
 must fail, not raise

---
 compressor/delta2_bohe/lrustorage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index 3f928cb..3be998f 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -35,11 +35,11 @@ class LruStorage:
   def Reserve(self, byte_size, item_count):
     if self.max_items:
       while len(self.ring) + item_count > self.max_items:
-        if not self.PopOne():
+        if not self.ring or not self.PopOne():
           return  0 # can't pop one, nothing more to do.
     if self.max_bytes:
       while self.byte_size + byte_size > self.max_bytes:
-        if not self.PopOne():
+        if not self.ring or not self.PopOne():
           return 0 # can't pop one, nothing more to do.
     return 1
 
-- 
2.43.0


From 788a78b399ddfe03ce2d85b028829f43b3dda55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:01 +0000
Subject: [PATCH 39/63] fix: delta2_bohe's sequence numbers must wrap where its
 lookup expects it

---
 compressor/delta2_bohe/lrustorage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index 3be998f..79e2eda 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -59,7 +59,7 @@ class LruStorage:
       raise MemoryError("max_items exceeded")
     item.seq_num = self.seq_num
     self.seq_num += 1
-    if self.max_seq_num and self.seq_num > self.max_seq_num:
+    if self.max_seq_num and self.seq_num >= self.max_seq_num:
       self.seq_num = self.offset
     self.byte_size += item_byte_size
     self.ring.append(item)
@@ -72,7 +72,7 @@ class LruStorage:
       #print "fsn: %d, sn: %d" % (first_seq_num, seq_num)
       if self.max_seq_num:
         #print "a ",;
-        lru_idx = (self.max_seq_num - first_seq_num) + seq_num
+        lru_idx = (self.max_seq_num - first_seq_num) + (seq_num - self.offset)
       else:
         raise IndexError("MaxSeqNum not defined and "
                          "seq_num(%d) < first_seq_num(%d)" %
-- 
2.43.0


From 8ffe09b3978e289995e3db46608154633f456596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:12 +0000
Subject: [PATCH 40/63] fix: delta2_bohe's storage must find its first entry
 and look at every value

---
 compressor/delta2_bohe/lrustorage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index 79e2eda..9eb5042 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -88,13 +88,13 @@ class LruStorage:
     # Looks for key/vals starting from the last entry
     ke = None
     ve = None
-    for i in xrange(len(self.ring)-1, 0, -1):
+    for i in xrange(len(self.ring)-1, -1, -1):
       entry = self.ring[i]
       if entry.key == key:
         ke = entry
-        for j in xrange(i, 0, -1):
-          entry = self.ring[i]
-          if entry.val == val:
+        for j in xrange(i, -1, -1):
+          entry = self.ring[j]
+          if entry.key == key and entry.val == val:
             ve = entry
             break
         break
-- 
2.43.0


From b0103b7385b06c109c072536a6950981a66b5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:32 +0000
Subject: [PATCH 41/63] fix: delta2 storage must not let go of space when a
 pending entry shares the key

An evicted entry whose key a not yet stored entry refers to did not give its
key's bytes back, so the counted size grew past what was held, and in the end
nothing could be stored.
---
 compressor/delta2/lrustorage.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2/lrustorage.py b/compressor/delta2/lrustorage.py
index c7f120a..d27ca21 100755
--- a/compressor/delta2/lrustorage.py
+++ b/compressor/delta2/lrustorage.py
@@ -5,7 +5,7 @@ class RefCntString:
   def __init__(self, x):
     self.decr = 1
     if type(x) is str:
-      self.data = [x, 1]
+      self.data = [x, 1, 0]  # text, references, references from stored items
     else:
       self.data = x.data
       self.data[1] += 1
@@ -28,6 +28,11 @@ class RefCntString:
       return 0
     return len(self.data[0])
 
+  def UnstoredSize(self):
+    if self.data[2] > 0:
+      return 0
+    return len(self.data[0])
+
 def ComputeKVHash(key, val):
   khash = hash(key)
   kvhash = khash + hash(val)
@@ -51,7 +56,12 @@ class KV:
     return str(self.val_)
 
   def ByteSize(self):
-    return len(self.val_) + len(self.key_)
+    """ The bytes that storing this item adds to those already stored. """
+    return self.val_.UnstoredSize() + self.key_.UnstoredSize()
+
+  def Stored(self, change):
+    self.key_.data[2] += change
+    self.val_.data[2] += change
 
   def __repr__(self):
     return "{(%r, %s) %r %r %r}" % \
@@ -92,6 +102,7 @@ class LruStorage:
     if not self.ring:
       return 0
     item = self.ring.popleft()
+    item.Stored(-1)
     self.byte_size -= item.ByteSize()
     item.done()
     #print "POPPING: ", item.seq_num
@@ -115,6 +126,7 @@ class LruStorage:
     if self.max_seq_num is not None and self.seq_num >= self.max_seq_num:
       self.seq_num = self.offset
     self.byte_size += item_byte_size
+    item.Stored(1)
     self.ring.append(item)
 
   def SeqNumToIdxFromLeft(self, seq_num):
-- 
2.43.0


From 5053874bd52b8fe9b826c04ef756a9ea83e0a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 42/63] fix: the C++ bit bucket must count words stored on a
 byte boundary

---
 compressor/delta/bit_bucket.h      | 3 +++
 compressor/delta_bohe/bit_bucket.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b7bc2f9..646f2e5 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b7bc2f9..646f2e5 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
-- 
2.43.0


From b8bf6f4c53a2f71e836994da077ab8e973b64669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 43/63] fix: filling a whole word from the C++ bit bucket must
 not shift by its width

---
 compressor/delta/bit_bucket.h      | 3 ++-
 compressor/delta_bohe/bit_bucket.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 646f2e5..b6500b5 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -108,7 +108,8 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    // shifting a word by its whole width is undefined.
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 646f2e5..b6500b5 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -108,7 +108,8 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    // shifting a word by its whole width is undefined.
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
-- 
2.43.0


From 8e038f065cc53f316b6496a720e3907ba7a43c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 44/63] fix: the C++ bit bucket must refuse to read past its
 last bit

---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b6500b5..6cc3e6d 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -278,7 +278,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (BitsConsumed() + num_bits > NumBits()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b6500b5..6cc3e6d 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -278,7 +278,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (BitsConsumed() + num_bits > NumBits()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
-- 
2.43.0


From 4b9b0cf059627b729ceedeb81600f9f8f9f7b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 45/63] fix: a C++ Huffman coder given a second table must
 forget the first

---
 compressor/delta/huffman.h      | 2 ++
 compressor/delta_bohe/huffman.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/compressor/delta/huffman.h b/compressor/delta/huffman.h
index 5bd71e8..03c30c5 100644
--- a/compressor/delta/huffman.h
+++ b/compressor/delta/huffman.h
@@ -419,6 +419,8 @@ class Huffman {
     }
     sort(sorted_by_code.begin(), sorted_by_code.end());
 
+    branches.clear();
+    decode_table.clear();
     BuildDecodeHelper(sorted_by_code, &decode_table, &branches,
                       0, sorted_by_code.size(),
                       0, lookup_bits);
diff --git a/compressor/delta_bohe/huffman.h b/compressor/delta_bohe/huffman.h
index bb3bde6..f4acbc3 100644
--- a/compressor/delta_bohe/huffman.h
+++ b/compressor/delta_bohe/huffman.h
@@ -418,6 +418,8 @@ class Huffman {
     }
     sort(sorted_by_code.begin(), sorted_by_code.end());
 
+    branches.clear();
+    decode_table.clear();
     BuildDecodeHelper(sorted_by_code, &decode_table, &branches,
                       0, sorted_by_code.size(),
                       0, lookup_bits);
-- 
2.43.0


From a40ec24307380e11dd064380b84c09bd6fd0d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 46/63] fix: parsing a file must report a malformed one

---
 compressor/delta/trivial_http_parse.h      | 3 +--
 compressor/delta_bohe/trivial_http_parse.h | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/trivial_http_parse.h b/compressor/delta/trivial_http_parse.h
index abc5a03..187c143 100644
--- a/compressor/delta/trivial_http_parse.h
+++ b/compressor/delta/trivial_http_parse.h
@@ -51,8 +51,7 @@ class TrivialHTTPParse {
                 vector<HeaderFrame>* requests,
                 vector<HeaderFrame>* responses) {
     ifstream ifs(fn.c_str());
-    ParseStream(ifs, requests, responses);
-    return 1;
+    return ParseStream(ifs, requests, responses);
   }
   static int ParseStream(istream& istrm,
                 vector<HeaderFrame>* requests,
diff --git a/compressor/delta_bohe/trivial_http_parse.h b/compressor/delta_bohe/trivial_http_parse.h
index abc5a03..187c143 100644
--- a/compressor/delta_bohe/trivial_http_parse.h
+++ b/compressor/delta_bohe/trivial_http_parse.h
@@ -51,8 +51,7 @@ class TrivialHTTPParse {
                 vector<HeaderFrame>* requests,
                 vector<HeaderFrame>* responses) {
     ifstream ifs(fn.c_str());
-    ParseStream(ifs, requests, responses);
-    return 1;
+    return ParseStream(ifs, requests, responses);
   }
   static int ParseStream(istream& istrm,
                 vector<HeaderFrame>* requests,
-- 
2.43.0


From b1c6604ab101e66e7450a5c5acf40756516fc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 47/63] fix: C++ delta codec must write its operations before
 executing them

---
 compressor/delta/spdy4_headers_codec.cc      | 6 ++++--
 compressor/delta_bohe/spdy4_headers_codec.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 031533f..da96d57 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -768,6 +768,10 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
     // the elements we must be turning off.
     DiscoverTurnOffs(&(instrs.toggle_offs), group_id);
 
+    // The operations refer to the state before any of them is executed, and
+    // executing them may remove entries which they refer to.
+    serializer->SerializeInstructions(os, &instrs, &huff,
+                                      stream_id, this_ends_the_frame);
     ExecuteInstructionsExceptERefs(group_id, instrs);
 
     for (vector<LookupCache>::iterator key_lu_it = key_lookups.begin();
@@ -781,8 +785,6 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       }
     }
 
-    serializer->SerializeInstructions(os, &instrs, &huff,
-                                      stream_id, this_ends_the_frame);
     FrameDone();
 #ifdef DEBUG
     cout << "headers.size(): " << headers.size()
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 031533f..da96d57 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -768,6 +768,10 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
     // the elements we must be turning off.
     DiscoverTurnOffs(&(instrs.toggle_offs), group_id);
 
+    // The operations refer to the state before any of them is executed, and
+    // executing them may remove entries which they refer to.
+    serializer->SerializeInstructions(os, &instrs, &huff,
+                                      stream_id, this_ends_the_frame);
     ExecuteInstructionsExceptERefs(group_id, instrs);
 
     for (vector<LookupCache>::iterator key_lu_it = key_lookups.begin();
@@ -781,8 +785,6 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       }
     }
 
-    serializer->SerializeInstructions(os, &instrs, &huff,
-                                      stream_id, this_ends_the_frame);
     FrameDone();
 #ifdef DEBUG
     cout << "headers.size(): " << headers.size()
-- 
2.43.0


From 513f1d7c05c6fb03f9ab3506f25c377f0d0339e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:58 +0000
Subject: [PATCH 48/63] fix: C++ delta codec must write the toggles it computes

---
 compressor/delta/spdy4_headers_codec.cc      | 4 +++-
 compressor/delta_bohe/spdy4_headers_codec.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index da96d57..754279e 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1034,16 +1034,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index da96d57..754279e 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1034,16 +1034,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
-- 
2.43.0


From 5e0493030a335f4052062ff1eea2ab4bea9b6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 49/63] fix: C++ delta codec must not take its entry limit for
 its size limit

---
 compressor/delta/spdy4_headers_codec.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_codec.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 754279e..b25793d 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1300,5 +1300,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 754279e..b25793d 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1300,5 +1300,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
-- 
2.43.0


From f18294acdd6c1c03bc2d5ce46fc61e85d6615ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 50/63] fix: cache-control field names must not be lost by the
 binary encoding

---
 compressor/bohe/bohe.py        | 2 +-
 compressor/delta2_bohe/bohe.py | 2 +-
 compressor/delta_bohe/bohe.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 2d0bbd9..e24f0f4 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index 2ab1698..3127ba7 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -170,7 +170,7 @@ class CacheControlEncoder(BaseEncoder):
     else:
       encoded += self.enc_uvarint(self.valOrZero(parts,'s-maxage'))
       for prt in ['no-cache','private']:
-        if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+        if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
           encoded += self.enc_uvarint(1)
           encoded += self.enc_uvarint(len(parts[prt]))
           encoded += parts[prt]
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 76a24d1..1b5141b 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
-- 
2.43.0


From eddb3888eaad5fdb957acc5c2d440dcaeed88b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 51/63] fix: cookie crumbs that encode alike must be sent once

---
 compressor/delta2_bohe/spdy4_codec_impl.py | 7 +++----
 compressor/delta_bohe/spdy4_codec_impl.py  | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 1067622..1534e10 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -855,10 +855,9 @@ class Spdy4CoDe(object):
     #print "HG:", self.header_groups[group_id]
     for k,v in headers.iteritems():
       if k == 'cookie':
-        splitvals = [x.lstrip(' ') for x in v.split(';')]
-        splitvals.sort()
-        for splitval in splitvals:
-          self.ProcessKV(k, bohe.encode(k,splitval,self.is_request), group_id, instructions)
+        splitvals = set(bohe.encode(k,x.lstrip(' '),self.is_request) for x in v.split(';'))
+        for splitval in sorted(splitvals):
+          self.ProcessKV(k, splitval, group_id, instructions)
       else:
         self.ProcessKV(k, bohe.encode(k,v,self.is_request), group_id, instructions)
 
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 76198cc..a450817 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -923,10 +923,9 @@ class Spdy4CoDe(object):
         incremented_keys.append(ke)
     for k,v in headers.iteritems():
       if k == 'cookie':
-        splitvals = [x.lstrip(' ') for x in v.split(';')]
-        splitvals.sort()
-        for splitval in splitvals:
-          self.ProcessKV(k, bohe.encode(k,splitval), group_id, instructions)
+        splitvals = set(bohe.encode(k,x.lstrip(' ')) for x in v.split(';'))
+        for splitval in sorted(splitvals):
+          self.ProcessKV(k, splitval, group_id, instructions)
       else:
         self.ProcessKV(k, bohe.encode(k,v), group_id, instructions)
 
-- 
2.43.0


From 0d537f11d990fdcd4396d3a52117ff5ad1986eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 52/63] fix: the bohe codec must flag fields of several values

---
 compressor/bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 33af40e..648eb6c 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -43,7 +43,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
           dohuff = False
         # Set the multiple values flag...
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
@@ -59,7 +59,7 @@ class Processor(BaseProcessor):
         data.StoreBits8(128 | len(k))
         data.StoreBits((common_utils.StrToList(k), len(k)*8))
         data.StoreBit(0) # assume not binary value for now
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-- 
2.43.0


From 1c5ab50480d3db3cf9a4edd101b78e7e6bc1a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 53/63] fix: the bohe codecs must encode a response's
 cache-control as a response's

---
 compressor/bohe/__init__.py               | 3 ++-
 compressor/bohe/bohe.py                   | 4 ++--
 compressor/delta2_bohe/__init__.py        | 4 ++--
 compressor/delta_bohe/__init__.py         | 4 ++--
 compressor/delta_bohe/bohe.py             | 4 ++--
 compressor/delta_bohe/spdy4_codec_impl.py | 7 ++++---
 6 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 648eb6c..e29a992 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -23,6 +23,7 @@ class Processor(BaseProcessor):
 
   def __init__(self, options, is_request, params):
     BaseProcessor.__init__(self, options, is_request, params)
+    self.typ = 'req' if is_request else 'res'
     if is_request:
       self.huff = huffman.Huffman(header_freq_tables.request_freq_table)
     else:
@@ -47,7 +48,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-        val = bohe.encode(k,v)
+        val = bohe.encode(k,v,self.typ)
         if dohuff:
           val_as_list, len_in_bits = self.do_huff(self.huff, val)
         else:
diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index e24f0f4..1f4d636 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -245,9 +245,9 @@ ENCODERS = {
   'p3p': enc_p3p
 }
 
-def encode(key,val):
+def encode(key,val,typ='req'):
   if key in ENCODERS:
-    return ENCODERS[key](val)
+    return ENCODERS[key](val,typ)
   else: 
     return val
 
diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 9510e2c..989b989 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -25,8 +25,8 @@ class Processor(BaseProcessor):
   """
   def __init__(self, options, is_request, params):
     # 'params' is ignored
-    self.compressor   = spdy4_codec_impl.Spdy4CoDe()
-    self.decompressor = spdy4_codec_impl.Spdy4CoDe()
+    self.compressor   = spdy4_codec_impl.Spdy4CoDe(is_request)
+    self.decompressor = spdy4_codec_impl.Spdy4CoDe(is_request)
     self.options = options
     self.hosts = {}
     self.group_ids = common_utils.IDStore(2**31)
diff --git a/compressor/delta_bohe/__init__.py b/compressor/delta_bohe/__init__.py
index 587c187..9f8abcb 100644
--- a/compressor/delta_bohe/__init__.py
+++ b/compressor/delta_bohe/__init__.py
@@ -26,8 +26,8 @@ class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
     BaseProcessor.__init__(self, options, is_request, params)
     # 'params' is ignored
-    self.compressor   = spdy4_codec_impl.Spdy4CoDe()
-    self.decompressor = spdy4_codec_impl.Spdy4CoDe()
+    self.compressor   = spdy4_codec_impl.Spdy4CoDe(is_request)
+    self.decompressor = spdy4_codec_impl.Spdy4CoDe(is_request)
     self.hosts = {}
     self.group_ids = common_utils.IDStore()
     self.wf = self.compressor.wf
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 1b5141b..adb0273 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -245,8 +245,8 @@ ENCODERS = {
   'p3p': enc_p3p
 }
 
-def encode(key,val):
+def encode(key,val,typ='req'):
   if key in ENCODERS:
-    return ENCODERS[key](val)
+    return ENCODERS[key](val,typ)
   else: 
     return val
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index a450817..77ad419 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -715,7 +715,8 @@ class Storage(object):
 
 
 class Spdy4CoDe(object):
-  def __init__(self):
+  def __init__(self, is_request=True):
+    self.typ = 'req' if is_request else 'res'
     self.header_groups = {}
     self.huffman_table = None
     self.wf = WordFreak()
@@ -923,11 +924,11 @@ class Spdy4CoDe(object):
         incremented_keys.append(ke)
     for k,v in headers.iteritems():
       if k == 'cookie':
-        splitvals = set(bohe.encode(k,x.lstrip(' ')) for x in v.split(';'))
+        splitvals = set(bohe.encode(k,x.lstrip(' '),self.typ) for x in v.split(';'))
         for splitval in sorted(splitvals):
           self.ProcessKV(k, splitval, group_id, instructions)
       else:
-        self.ProcessKV(k, bohe.encode(k,v), group_id, instructions)
+        self.ProcessKV(k, bohe.encode(k,v,self.typ), group_id, instructions)
 
     turn_offs = self.DiscoverTurnOffs(group_id, instructions)
     instructions['toggl'].extend(turn_offs)
-- 
2.43.0


From ebb4f5249ee1e1c076bef47de6a96ea2368dfdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 54/63] fix: the delta bohe codecs must not write more than 256
 operations under one header

---
 compressor/delta2_bohe/spdy4_codec_impl.py | 2 +-
 compressor/delta_bohe/spdy4_codec_impl.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 1534e10..b8aea5f 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -427,7 +427,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - ops_idx):
         try:
           self.WriteOpData(data, ops[orig_idx + i], huff)
         except:
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 77ad419..7b44c36 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -355,7 +355,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - ops_idx):
         self.WriteOpData(data, ops[orig_idx + i], huff)
         ops_idx += 1
 
-- 
2.43.0


From d39f5a3f24cad68eaa864f71a759fc19c1af870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 55/63] fix: header-diff must write an index beyond fourteen
 bits as one

---
 compressor/headerdiff/headerDiffCodec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 2cd29ff..143e6e6 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -580,7 +580,10 @@ class HeaderDiffCodec(object):
     else:
       # If prefix size is greater than 0,
       # write MAX_VALUE as the prefix
-      if prefixBits > 0:
+      if prefixBits > 8:
+        b = (currentByte << 8) | MAX_VALUES[prefixBits]
+        self.encodedStream+= pack("!H", b)
+      elif prefixBits > 0:
         currentByte = currentByte | MAX_VALUES[prefixBits]
         self.encodedStream+= pack("!B", currentByte)
       # Write value on next byte or bytes
-- 
2.43.0


From f151dbac65bd9cedf156658fb480727b51a70c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 56/63] fix: the simple codec must keep a copy of the last
 message, not the caller's dictionary

---
 compressor/simple/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index f1aa32f..3d05541 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -138,7 +138,7 @@ class Processor(BaseProcessor):
           headers["!%s" % name] = value
           continue
       headers[self.hdr_name(name)] = value
-    self.last_c = in_headers
+    self.last_c = copy(in_headers)
     if refs:
       headers["ref"] = ",".join(refs)
     msg = format_http1(headers, 
-- 
2.43.0


From c849df35c516a7af90f6c59ad85f961ba086e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:53 +0000
Subject: [PATCH 57/63] fix: split joined Connection fields and match their
 options in any case

---
 lib/processors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..c14d86e 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,9 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      # Repeated fields are joined with NUL; options are case-insensitive.
+      options = hdrs['connection'].replace('\0', ',').split(',')
+      ignore_hdrs.extend([x.strip(' \t').lower() for x in options])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From 446fe35b806f4845cf6d83f3779b688597f82088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:53 +0000
Subject: [PATCH 58/63] fix: label the streams of a chart that shows a single
 codec

---
 display_tsv.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/display_tsv.html b/display_tsv.html
index a9a8212..c03de75 100644
--- a/display_tsv.html
+++ b/display_tsv.html
@@ -131,7 +131,7 @@ function display_tsv(filename, title) {
 
     // stream labels
     var lastLabel = null;
-    var streamLabels = items[1].values.forEach( function(i) {
+    var streamLabels = items[0].values.forEach( function(i) {
       if (lastLabel != i.stream) {
         svg.append("g")
           .attr("class", "note")
-- 
2.43.0


From 642ec76abb326876981c539d7221ab146eec9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:53 +0000
Subject: [PATCH 59/63] fix: import string where MakeReadableString uses it

---
 compressor/bohe/common_utils.py        | 2 +-
 compressor/delta/common_utils.py       | 2 +-
 compressor/delta2_bohe/common_utils.py | 2 +-
 compressor/delta_bohe/common_utils.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/bohe/common_utils.py b/compressor/bohe/common_utils.py
index c222be4..f565a58 100644
--- a/compressor/bohe/common_utils.py
+++ b/compressor/bohe/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
diff --git a/compressor/delta/common_utils.py b/compressor/delta/common_utils.py
index c222be4..f565a58 100644
--- a/compressor/delta/common_utils.py
+++ b/compressor/delta/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
diff --git a/compressor/delta2_bohe/common_utils.py b/compressor/delta2_bohe/common_utils.py
index c222be4..f565a58 100644
--- a/compressor/delta2_bohe/common_utils.py
+++ b/compressor/delta2_bohe/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
diff --git a/compressor/delta_bohe/common_utils.py b/compressor/delta_bohe/common_utils.py
index 57255ce..41bfd43 100644
--- a/compressor/delta_bohe/common_utils.py
+++ b/compressor/delta_bohe/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
-- 
2.43.0


From c436d35cf209ce2b5d6f460447eb3e4769fca9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 60/63] fix: the SPDY/3 length field counted its own three
 bytes

---
 compressor/delta/spdy4_headers_sample.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_sample.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 78ed549..0a80c12 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -248,7 +248,7 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    OverwriteInt24(out, length_pin, out->size() - length_pin - 3);
   }
 };
 
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index eda6632..fe404ff 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -248,7 +248,7 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    OverwriteInt24(out, length_pin, out->size() - length_pin - 3);
   }
 };
 
-- 
2.43.0


From d20c4dcfd08cb0647fed3c9c6510f4d47448f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 61/63] fix: translator output was dropped from a NUL to the
 end of the read

---
 compressor/delta/spdy4_headers_sample.cc      | 3 +--
 compressor/delta_bohe/spdy4_headers_sample.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 0a80c12..9e00b7c 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -65,8 +65,7 @@ int ParseHarFiles(int n_files, char** files,
       }
       break;
     } else {
-      buf[bytes_read] = 0;
-      input << buf;
+      input.write(buf, bytes_read);
     }
   }
   if (!TrivialHTTPParse::ParseStream(input, requests, responses)) {
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index fe404ff..30e8067 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -65,8 +65,7 @@ int ParseHarFiles(int n_files, char** files,
       }
       break;
     } else {
-      buf[bytes_read] = 0;
-      input << buf;
+      input.write(buf, bytes_read);
     }
   }
   if (!TrivialHTTPParse::ParseStream(input, requests, responses)) {
-- 
2.43.0


From 6e13c6e013aa3713829bae11ff1f70d63fe6472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 62/63] fix: delta_bohe's sample could not find the SPDY/3
 dictionary

---
 compressor/delta_bohe/spdy4_headers_sample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index 30e8067..9e00b7c 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -16,7 +16,7 @@
 #include "huffman.h"
 #include "trivial_http_parse.h"
 #include "spdy4_headers_codec.h"
-#include "spdy3_dictionary.h"
+#include "../spdy3/spdy3_dictionary.h"
 
 using std::unique_ptr;
 using std::vector;
-- 
2.43.0


From 646439658781ef0037b7d97ec9f606e09baf619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 63/63] fix: a short delta2 frame with a huge index range kept
 the decoder busy for hours

---
 compressor/delta2/spdy4_codec_impl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 723da73..9700d2f 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -945,6 +945,12 @@ class Spdy4CoDe(object):
     instructions['stoggl'] = stggl
     instructions['strang'] = strng
 
+  def IdxRange(self, first, last):
+    # Both ends must name entries (else IndexError), which bounds the range.
+    self.storage.LookupFromIdx(first, True)
+    self.storage.LookupFromIdx(last, True)
+    return xrange(first, last + 1)
+
   def FindOrMakeHeaderGroup(self, group_id):
     try:
       return self.header_groups[group_id]
@@ -1062,12 +1068,12 @@ class Spdy4CoDe(object):
       elif opcode == 'strang':
         lru_idx_last = op['index']
         lru_idx_start = op['index_start']
-        for lru_idx in xrange(lru_idx_start, lru_idx_last+1):
+        for lru_idx in self.IdxRange(lru_idx_start, lru_idx_last):
           stoggles.symmetric_difference_update([lru_idx])
       elif opcode == 'etrang':
         lru_idx_last = op['index']
         lru_idx_start = op['index_start']
-        for lru_idx in xrange(lru_idx_start, lru_idx_last+1):
+        for lru_idx in self.IdxRange(lru_idx_start, lru_idx_last):
           etoggles.symmetric_difference_update([lru_idx])
       elif opcode == 'sclone':
         lru_idx = op['index']
-- 
2.43.0

