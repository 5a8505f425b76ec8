From 02e0e43d3f046508c1d6674b6f1c3cd139f50e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 01/43] fix: don't lose first bytes of uncompressed data read
 in small pieces

If the data turned out not to be compressed only after the first read
(eg. block_size=1 or a short read from the source), the bytes already given
to the decompressor were dropped.
---
 warcio/bufferedreaders.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..40e1cfc 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data passed to decompressor before any output
+        self.raw_data = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -133,11 +135,19 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            # keep raw data until decompressor has produced any output,
+            # in case it turns out not to be compressed
+            if self.num_block_read == 0:
+                self.raw_data += data
             try:
                 data = self.decompressor.decompress(data)
+                if data:
+                    self.raw_data = b''
             except Exception as e:
-                # if first read attempt, assume non-gzipped stream
+                # if nothing decompressed yet, assume non-gzipped stream
                 if self.num_block_read == 0:
+                    data = self.raw_data
+                    self.raw_data = b''
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
-- 
2.43.0


From 37b02862e7c492a6dc09974bf4c0cf66b793af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 02/43] fix: readline(length) spanning several blocks no longer
 returns a short line

The length already read was subtracted cumulatively, so a limited readline
spanning three or more blocks stopped early. Negative lengths mean unlimited.
---
 warcio/bufferedreaders.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 40e1cfc..2560bb0 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -167,6 +167,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
@@ -192,18 +195,22 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
+        if length is not None and length < 0:
+            length = None
+
         self._fillbuff()
 
         if self.empty():
             return b''
 
         linebuff = self.buff.readline(length)
+        remaining = length
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
             if length:
-                length -= len(linebuff)
-                if length <= 0:
+                remaining = length - len(linebuff)
+                if remaining <= 0:
                     break
 
             self._fillbuff()
@@ -211,7 +218,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(remaining)
 
         return linebuff
 
-- 
2.43.0


From 73043fc2483498bf65d70bce06f59f599763b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 03/43] fix: read(-1) and readline(-1) of LimitReader stay
 within the limit

---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From 826a14f3dddb06281e8351ec2ffa15d5da26e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 04/43] fix: read and create response/request/revisit records
 without a target URI

load_http_headers() failed with AttributeError if there is no URI.
---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..23f560b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From dd9191a59b9e171c520eebe5c18e0bb3d2cc9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 05/43] fix: compare digests in any encoding, and never fail on
 malformed values

md5 in base16 has the length of its padded base32 and was reported as failed;
base32 without padding was not recognised, and a malformed value or a hash
without fixed size raised binascii.Error or TypeError out of the iteration.
---
 warcio/digestverifyingreader.py | 44 +++++++++------------------------
 warcio/utils.py                 |  3 +++
 2 files changed, 15 insertions(+), 32 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..f6a447d 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -119,43 +119,23 @@ def _compare_digest_rfc_3548(digester, digest):
     if not digester or not digest:
         return None
 
-    digester_b32 = str(digester)
-
-    our_algo, our_value = _parse_digest(digester_b32)
+    our_algo, our_value = _parse_digest(str(digester))
     warc_algo, warc_value = _parse_digest(digest)
 
-    warc_b32 = _to_b32(len(our_value), warc_value)
-
-    if our_value == warc_b32:
-        return True
-
-    return False
-
-
-def _to_b32(length, value):
-    '''
-    Convert value to base 32, given that it's supposed to have the same
-    length as the digest we're about to compare it to
-    '''
-    if len(value) == length:
-        return value  # casefold needed here? -- rfc recommends not allowing
-
-    if len(value) > length:
-        binary = base64.b16decode(value, casefold=True)
-    else:
-        binary = _b64_wrapper(value)
-
-    return to_native_str(base64.b32encode(binary), encoding='ascii')
-
+    binary = base64.b32decode(our_value)
 
-base64_url_filename_safe_alt = b'-_'
+    # padding is optional
+    warc_value = warc_value.rstrip('=')
 
+    # casefold needed here for base32? -- rfc recommends not allowing
+    for encoded in (base64.b32encode(binary),
+                    base64.b64encode(binary),
+                    base64.urlsafe_b64encode(binary)):
+        if warc_value == to_native_str(encoded, encoding='ascii').rstrip('='):
+            return True
 
-def _b64_wrapper(value):
-    if '-' in value or '_' in value:
-        return base64.b64decode(value, altchars=base64_url_filename_safe_alt)
-    else:
-        return base64.b64decode(value)
+    encoded_b16 = to_native_str(base64.b16encode(binary), encoding='ascii')
+    return warc_value.upper() == encoded_b16
 
 
 def _parse_digest(digest):
diff --git a/warcio/utils.py b/warcio/utils.py
index 35ac899..cdbb44c 100644
--- a/warcio/utils.py
+++ b/warcio/utils.py
@@ -98,6 +98,9 @@ class Digester(object):
     def __init__(self, type_='sha1'):
         self.type_ = type_
         self.digester = hashlib.new(type_)
+        # eg. shake_128, no fixed size digest to compare to
+        if not self.digester.digest_size:
+            raise ValueError('unsupported hash type ' + type_)
 
     def update(self, buff):
         self.digester.update(buff)
-- 
2.43.0


From de9bbe7ad33ae9aa5fce28819d725bf9553ee4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 06/43] fix: verify the block digest of records with an empty
 block

---
 warcio/digestverifyingreader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index f6a447d..6093566 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -77,6 +77,13 @@ class DigestVerifyingReader(LimitReader):
 
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
+        # empty block: nothing will be read, so check block digest here
+        if self._orig_limit == 0:
+            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+            if check is False:
+                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+            elif check is True and self.digest_checker.passed is not False:
+                self.digest_checker.passed = True
         if self.limit == 0:
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
-- 
2.43.0


From 79ae2192bbf50617d05be7b67ee8825d76fb3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 07/43] fix: no false payload digest failure if http headers
 are not parsed

With no_record_parse=True, the whole block was compared to the payload digest.
---
 warcio/recordloader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 23f560b..196b27d 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -148,7 +148,9 @@ class ArcWarcRecordLoader(object):
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
 
-        if is_verifying:
+        # if http headers were not parsed, start of payload is unknown
+        if is_verifying and not (no_record_parse and
+                                 self.may_have_http_headers(rec_type, uri, length)):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
@@ -170,18 +172,24 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
-    def load_http_headers(self, rec_type, uri, stream, length):
+    def may_have_http_headers(self, rec_type, uri, length):
         # only if length == 0 don't parse
         # try parsing is length is unknown (length is None) or length > 0
         if length == 0:
-            return None
+            return False
 
         # only certain record types can have http headers
         if rec_type not in self.HTTP_RECORDS:
-            return None
+            return False
 
         # only http:/https: uris can have http headers
         if not uri or not uri.startswith(self.HTTP_SCHEMES):
+            return False
+
+        return True
+
+    def load_http_headers(self, rec_type, uri, stream, length):
+        if not self.may_have_http_headers(rec_type, uri, length):
             return None
 
         # request record: parse request
-- 
2.43.0


From bd57bf3aee9188ea656bb9e029d404ef0165fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 08/43] fix: report gzip members with several records wherever
 they are

Records after the first in a gzip member were read with wrong offsets if
another member followed, and silently dropped if an empty member came before.
---
 warcio/archiveiterator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..12f05e5 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,9 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
@@ -119,8 +119,13 @@ class ArchiveIterator(six.Iterator):
             self.read_to_end()
 
             if self.reader.decompressor:
+                # if more data in this gzip member after the record,
+                # not chunked: next record is an error
+                if self.next_line:
+                    raise_invalid_gzip = True
+
                 # if another gzip member, continue
-                if self.reader.read_next_member():
+                elif self.reader.read_next_member():
                     continue
 
                 # if empty record, then we're done
-- 
2.43.0


From 7598a4d77c00f95f4ad4d8fa1ead2b1a736e66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 09/43] fix: revisit records with a payload: write what the
 length and digest say

Without HTTP headers the Content-Length was that of the payload but the
payload was not written; with HTTP headers, the block digest included the
payload that is not written.
---
 warcio/recordbuilder.py | 5 ++++-
 warcio/warcwriter.py    | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..a97483b 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -188,8 +188,11 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+        # only the http headers are written for a revisit
+        headers_only = record.rec_type == 'revisit' and record.http_headers
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..1b95663 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -67,7 +67,8 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
+        # if no http headers, the block is the payload, if any
+        if record.rec_type == 'revisit' and record.http_headers:
             http_headers_only = True
         else:
             http_headers_only = False
-- 
2.43.0


From 2d1641e060647fa88f3dc924ddacb6a370661d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 10/43] fix: length of payload with HTTP headers not starting
 at position 0

The absolute position of the payload stream was subtracted from its length,
giving a wrong Content-Length; streams without tell() failed.
---
 warcio/recordbuilder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index a97483b..b2b9063 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -4,6 +4,7 @@ import tempfile
 from datetime import datetime, timezone
 from io import BytesIO
 
+from warcio.limitreader import LimitReader
 from warcio.recordloader import ArcWarcRecord, ArcWarcRecordLoader
 from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeaders
 from warcio.timeutils import datetime_to_iso_date
@@ -91,9 +92,11 @@ class RecordBuilder(object):
 
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
-            http_headers = loader.load_http_headers(record_type, uri, payload, length)
+            # count from current position, payload may not be seekable or at start
+            stream = LimitReader(payload, length) if length is not None else payload
+            http_headers = loader.load_http_headers(record_type, uri, stream, length)
             if http_headers and length is not None:
-                length -= payload.tell()
+                length -= stream.tell()
 
         if not payload:
             payload = BytesIO()
-- 
2.43.0


From ea5c3c445266b8178b853d298ba3404027911178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 11/43] fix: record exactly the data read by
 HTTPResponse.readinto() and read1()

A short readinto() recorded the whole buffer, and read1(), peek() and
fileno() of the response failed with AttributeError while capturing.
---
 warcio/capture_http.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..175b226 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,9 +53,22 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        # may be less than size of buff
+        self.recorder.write_response(buff[:res])
         return res
 
+    def read1(self, amt=-1):
+        buff = self.fp.read1(amt)
+        self.recorder.write_response(buff)
+        return buff
+
+    def peek(self, amt=0):
+        # data is not consumed, will be read again
+        return self.fp.peek(amt)
+
+    def fileno(self):
+        return self.fp.fileno()
+
     def readline(self, maxlen=-1):
         line = self.fp.readline(maxlen)
         self.recorder.write_response(line)
-- 
2.43.0


From d3f96217dc25bc0347b7bab91a9ae80bdd7cb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 12/43] fix: keep the recording state of each captured
 connection separate

One recorder was shared by all connections of a capture: interleaved requests
failed or were mixed up, and the proxy host, tunnel target and IP of one
connection leaked into the records of others.
---
 warcio/capture_http.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 175b226..fed1d36 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -96,8 +96,9 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
     def __init__(self, *args, **kwargs):
         orig_connection.__init__(self, *args, **kwargs)
-        if hasattr(self.local, 'recorder'):
-            self.recorder = self.local.recorder
+        if getattr(self.local, 'recorder', None):
+            # each connection has its own request in progress
+            self.recorder = self.local.recorder.for_connection()
         else:
             self.recorder = None
 
@@ -157,6 +158,11 @@ class RequestRecorder(object):
         self.warc_headers = {}
         self.record_ip = record_ip
 
+    def for_connection(self):
+        recorder = self.__class__(self.writer, self.filter_func, self.record_ip)
+        recorder.lock = self.lock
+        return recorder
+
     def start_tunnel(self):
         self.connect_host = self.connect_port = None
         self.started_req = False
@@ -168,6 +174,9 @@ class RequestRecorder(object):
         self.url = None
         self.started_req = True
         self.first_line_read = False
+        # set again if this request is proxied, keep if via tunnel
+        if not self.connect_host:
+            self.warc_headers.pop('WARC-Proxy-Host', None)
 
     def _create_buffer(self):
         return SpooledTemporaryFile(BUFF_SIZE)
-- 
2.43.0


From b5fb9de19472bbff26ccc87e0b2a9daae96fa9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 13/43] fix: write HTTP headers with a non-ASCII status line,
 name or parameter

These failed with UnicodeEncodeError, eg. when recompressing; %-encode them.
---
 warcio/statusandheaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..7d3a36e 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -13,6 +13,7 @@ import re
 
 #=================================================================
 class StatusAndHeaders(object):
+    NON_ASCII_RX = re.compile(r'[^\x00-\x7f]+')
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
     """
     Representation of parsed http-style status line and headers
@@ -176,6 +177,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         except (UnicodeEncodeError, UnicodeDecodeError):
             self.percent_encode_non_ascii_headers()
             string = self.to_str(filter_func)
+            # %-encode any other non-ascii chars, eg. in statusline or names
+            string = self.NON_ASCII_RX.sub(lambda m: quote(m.group(0)), string)
             string = string.encode('ascii')
 
         return string + b'\r\n'
-- 
2.43.0


From 86fb182073f72d107e91ed904bff4657762c9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 14/43] fix: ARC file header with non-ASCII text has its full
 length

The size of the version and field lines was counted in characters.
---
 warcio/recordloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 196b27d..f24f13b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -307,8 +307,9 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            # not decoded, as size in bytes is needed
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 1d00dabcb8354f223c7bc66640c6d45b293c1935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 15/43] fix: chunked data with trailer headers

Trailers are part of a valid chunked body, but were returned as data.
---
 warcio/bufferedreaders.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 2560bb0..1911369 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -351,11 +351,17 @@ class ChunkedDataReader(BufferedReader):
 
         if not chunk_size:
             # chunk_size 0 indicates end of file. read final bytes to compute digest.
-            final_data = self.stream.read(2)
+            # skip trailer headers, if any
+            trailer = b''
+            final_data = self.stream.readline()
+            while b':' in final_data:
+                trailer += final_data
+                final_data = self.stream.readline()
             try:
                 assert(final_data == b'\r\n')
             except AssertionError:
-                raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
+                raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
+                                           trailer + final_data)
             self.all_chunks_read = True
             self._process_read(b'')
             return
-- 
2.43.0


From e6b002115a3b12174a30ea3c0d46d391923790ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 16/43] fix: chunked data cut off right after the data of a
 chunk

The size line was returned as data before the chunk.
---
 warcio/bufferedreaders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 1911369..63e8737 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -391,7 +391,10 @@ class ChunkedDataReader(BufferedReader):
         # it should end in \r\n
         if not self.all_chunks_read:
             clrf = self.stream.read(2)
-            if clrf != b'\r\n':
+            if not clrf and not self.raise_chunked_data_exceptions:
+                # cut off right after the data
+                self.all_chunks_read = True
+            elif clrf != b'\r\n':
                 raise ChunkedDataException(b"Chunk terminator not found.",
                                            data)
 
-- 
2.43.0


From c85a7d4612d1f6dac733f80dfb2d38630a74bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 17/43] fix: reading all gzip members does not stop at an empty
 member

read() returned no data, taken as the end, so recompressing such a file lost
all records after the empty member.
---
 warcio/bufferedreaders.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 63e8737..aa6b20c 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -117,8 +117,15 @@ class BufferedReader(object):
         # if raw data is not empty and decompressor set, but
         # decompressed buff is empty, keep reading --
         # decompressor likely needs more data to decompress
-        while data and self.decompressor and not self.decompressor.unused_data and self.empty():
-            data = self.stream.read(block_size)
+        while data and self.decompressor and self.empty():
+            # if reading all members, this one was empty: continue with next
+            if self.starting_data:
+                data = self.starting_data
+                self.starting_data = None
+            elif self.decompressor.unused_data:
+                break
+            else:
+                data = self.stream.read(block_size)
             self._process_read(data)
 
     def _process_read(self, data):
-- 
2.43.0


From 6e2fa2cd69504ef77ee2271347e31cb6641f1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 18/43] fix: position of a limited stream that is limited again

tell() counted the reduction of the limit as if it had been read.
---
 warcio/limitreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..b1223da 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,10 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
-                    stream.limit = min(stream.limit, content_length)
+                    if content_length < stream.limit:
+                        # keep position
+                        stream._orig_limit -= stream.limit - content_length
+                        stream.limit = content_length
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From 4c7a81346a8a58bad997043a12cfcfe2aeecfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 19/43] fix: a single uncompressed byte is not lost when gzip
 is expected

---
 warcio/bufferedreaders.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index aa6b20c..178fc82 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -128,6 +128,14 @@ class BufferedReader(object):
                 data = self.stream.read(block_size)
             self._process_read(data)
 
+        # ended before the decompressor could tell, but a single byte
+        # that can't be the start of a gzip member is not compressed
+        if (not data and self.decompressor and len(self.raw_data) == 1 and
+                self.decomp_type.lower() == 'gzip' and self.raw_data != b'\x1f'):
+            self.decompressor = None
+            self._process_read(self.raw_data)
+            self.raw_data = b''
+
     def _process_read(self, data):
         # don't process if no raw data read
         if not data:
-- 
2.43.0


From 3654837a4b3e4c70f3c595ebc43812d0b6ce14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 20/43] fix: raw deflate data with decompression type given in
 upper case

---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 178fc82..dbebca8 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -163,7 +163,7 @@ class BufferedReader(object):
                 if self.num_block_read == 0:
                     data = self.raw_data
                     self.raw_data = b''
-                    if self.decomp_type == 'deflate':
+                    if self.decomp_type.lower() == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
                     else:
-- 
2.43.0


From 840a5954335da026c1035a380555a76fcf6506a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 21/43] fix: transfer coding name is not case-sensitive

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index f24f13b..27004c0 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,7 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From ce2cdd3acad0ed3cfe2cbdfee6af4e57d6ee94b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 22/43] fix: blank lines before a record are not a record

---
 warcio/archiveiterator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 12f05e5..0b679cc 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -259,6 +259,18 @@ class ArchiveIterator(six.Iterator):
         """ Use loader to parse the record from the reader stream
         Supporting warc and arc records
         """
+        # skip any blank lines before the record
+        if not next_line:
+            next_line = self.reader.readline()
+            while next_line and not next_line.strip():
+                # not part of the record, unless in its gzip member
+                if not self.reader.decompressor:
+                    self.offset += len(next_line)
+                next_line = self.reader.readline()
+
+            if not next_line:
+                raise EOFError()
+
         record = self.loader.parse_record_stream(self.reader,
                                                  next_line,
                                                  self.known_format,
-- 
2.43.0


From 930c54430a24066e8fbcb5970abf4eacd8928ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 23/43] fix: ISO date with microseconds of a time zone aware
 datetime

---
 warcio/timeutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 8847dd9..ebd1fa5 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -124,7 +124,8 @@ def datetime_to_iso_date(the_datetime, use_micros=False):
     if not use_micros:
         return the_datetime.strftime(ISO_DT)
     else:
-        return the_datetime.isoformat() + 'Z'
+        # no offset, already indicated by Z
+        return the_datetime.replace(tzinfo=None).isoformat() + 'Z'
 
 
 def datetime_to_timestamp(the_datetime):
-- 
2.43.0


From 8c8cfbb1236d269ddeb5372d6865927346421edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 24/43] fix: create record with http uri and empty payload of
 unknown length

---
 warcio/recordbuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index b2b9063..1cedb09 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -94,7 +94,11 @@ class RecordBuilder(object):
             loader = ArcWarcRecordLoader()
             # count from current position, payload may not be seekable or at start
             stream = LimitReader(payload, length) if length is not None else payload
-            http_headers = loader.load_http_headers(record_type, uri, stream, length)
+            try:
+                http_headers = loader.load_http_headers(record_type, uri, stream, length)
+            except EOFError:
+                # empty payload, so no http headers
+                http_headers = None
             if http_headers and length is not None:
                 length -= stream.tell()
 
-- 
2.43.0


From 7ddcc6615b9d7db2d78c68840148ac66cf67a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 25/43] fix: write records whose HTTP part starts with a blank
 line

---
 warcio/recordbuilder.py |  4 ++--
 warcio/recordloader.py  |  2 +-
 warcio/warcwriter.py    | 13 +++++--------
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 1cedb09..6280354 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -99,7 +99,7 @@ class RecordBuilder(object):
             except EOFError:
                 # empty payload, so no http headers
                 http_headers = None
-            if http_headers and length is not None:
+            if http_headers is not None and length is not None:
                 length -= stream.tell()
 
         if not payload:
@@ -190,7 +190,7 @@ class RecordBuilder(object):
             pos = 0
             temp_file = self._create_temp_file()
 
-        if block_digester and record.http_headers:
+        if block_digester and record.http_headers is not None:
             if not record.http_headers.headers_buff:
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 27004c0..e252e5f 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -141,7 +141,7 @@ class ArcWarcRecordLoader(object):
         if not no_record_parse:
             start = stream.tell()
             http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
+            if length and http_headers is not None:
                 payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 1b95663..de977d5 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -42,7 +42,7 @@ class BaseWARCWriter(RecordBuilder):
         if self.gzip:
             out = GzippingWrapper(out)
 
-        if record.http_headers:
+        if record.http_headers is not None:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
         # Content-Length is None/unknown
@@ -74,11 +74,8 @@ class BaseWARCWriter(RecordBuilder):
             http_headers_only = False
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
-            actual_len = 0
-
-            if record.http_headers:
-                actual_len = len(record.http_headers.headers_buff)
+        if record.http_headers is not None and record.payload_length >= 0:
+            actual_len = len(record.http_headers.headers_buff)
 
             if not http_headers_only:
                 actual_len += record.payload_length
@@ -91,8 +88,8 @@ class BaseWARCWriter(RecordBuilder):
         # WARC headers can be utf-8 per spec
         out.write(record.rec_headers.to_bytes(encoding='utf-8'))
 
-        # write headers buffer, if any
-        if record.http_headers:
+        # write headers buffer, if any (only a blank line if there are no headers)
+        if record.http_headers is not None:
             out.write(record.http_headers.headers_buff)
 
         if not http_headers_only:
-- 
2.43.0


From 07e7da0b362df3f246e538720e9a6e5665c8912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 26/43] fix: extract records whose HTTP part starts with a
 blank line

---
 warcio/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/extractor.py b/warcio/extractor.py
index 9d37e4f..c849815 100644
--- a/warcio/extractor.py
+++ b/warcio/extractor.py
@@ -31,7 +31,7 @@ class Extractor(object):
                     buf = stream.read(self.READ_SIZE)
             else:
                 stdout_raw.write(record.rec_headers.to_bytes())
-                if record.http_headers:
+                if record.http_headers is not None:
                     stdout_raw.write(record.http_headers.to_bytes())
                 if not headers_only:
                     buf = record.raw_stream.read(self.READ_SIZE)
-- 
2.43.0


From 1ba3efdc93e26d4258998061b080f52743c1319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 27/43] fix: check the remaining files if one can't be opened

---
 warcio/checker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/checker.py b/warcio/checker.py
index be0c6af..33f78d1 100644
--- a/warcio/checker.py
+++ b/warcio/checker.py
@@ -27,6 +27,10 @@ class Checker(object):
                 print('  saw exception ArchiveLoadFailed: '+str(e).rstrip())
                 print('  skipping rest of file')
                 self.exit_value = 1
+            except OSError as e:
+                print(filename)
+                print('  could not be read: ' + str(e))
+                self.exit_value = 1
         return self.exit_value
 
     def process_one(self, filename):
-- 
2.43.0


From 93b32acea09221958611eff62f298f3f7649bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 28/43] fix: digests of a record whose data ends early fail

---
 warcio/digestverifyingreader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 6093566..3a13d2d 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -100,13 +100,16 @@ class DigestVerifyingReader(LimitReader):
         if self.block_digester:
             self.block_digester.update(buff)
 
-        if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        # all is read, or the data ends early
+        if self.limit == 0 or not buff:
+            block_digester, self.block_digester = self.block_digester, None
+            payload_digester, self.payload_digester = self.payload_digester, None  # prevent double-fire
+            check = _compare_digest_rfc_3548(block_digester, self.block_digest)
             if check is False:
                 self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
-            check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
+            check = _compare_digest_rfc_3548(payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
             elif check is True and self.digest_checker.passed is not False:
-- 
2.43.0


From c1b04a0da680181057a49a75a8da79b8971a47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 29/43] fix: captured requests to IPv6 addresses

---
 warcio/capture_http.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index fed1d36..3ec4183 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -18,6 +18,16 @@ from tempfile import SpooledTemporaryFile
 orig_connection = httplib.HTTPConnection
 
 
+# ============================================================================
+def url_host(host):
+    """ Host as in a url: an IPv6 address is in brackets
+    """
+    if ':' in host and not host.startswith('['):
+        return '[' + host + ']'
+
+    return host
+
+
 # ============================================================================
 class RecordingStream(object):
     def __init__(self, fp, recorder):
@@ -235,10 +245,14 @@ class RequestRecorder(object):
         path = parts[1]
 
         if verb == "CONNECT":
-            parts = path.split(":", 1)
+            # host may be an IPv6 address in brackets
+            parts = path.rsplit(":", 1)
+            if len(parts) < 2 or parts[1].endswith(']'):
+                parts = [path, default_port]
+
             self.connect_host = parts[0]
-            self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
-            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            self.connect_port = int(parts[1])
+            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(url_host(host), port)
             return
 
         if self.connect_host:
@@ -248,12 +262,12 @@ class RequestRecorder(object):
             port = self.connect_port
 
         if path.startswith(('http:', 'https:')):
-            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(url_host(host), port)
             self.url = path
             return
 
         scheme = 'https' if default_port == 443 else 'http'
-        self.url = scheme + '://' + host
+        self.url = scheme + '://' + url_host(host)
         if port != default_port:
             self.url += ':' + str(port)
 
-- 
2.43.0


From 758665ca91485c2e8ed59240a25fa5aae20ba7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 30/43] fix: capture goes on after a nested capture

---
 warcio/capture_http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 3ec4183..1448c60 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -282,6 +282,8 @@ httplib.HTTPConnection = RecordingHTTPConnection
 def capture_http(warc_writer=None, filter_func=None, append=True,
                 record_ip=True, **kwargs):
     out = None
+    outer = getattr(RecordingHTTPConnection.local, 'recorder', None)
+
     if warc_writer == None:
         if 'gzip' not in kwargs:
             kwargs['gzip'] = False
@@ -298,7 +300,7 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
+        RecordingHTTPConnection.local.recorder = outer
         if out:
             out.close()
 
-- 
2.43.0


From f7e25bdcda590bb681b8bc9ea352e31943b3a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 31/43] fix: using a connection after its capture to a file has
 ended

---
 warcio/capture_http.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 1448c60..48d4385 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -218,6 +218,10 @@ class RequestRecorder(object):
             return
 
         try:
+            # connection may be used after the capture has ended
+            if getattr(getattr(self.writer, 'out', None), 'closed', False):
+                return
+
             request = self._create_record(self.request_out, 'request')
             response = self._create_record(self.response_out, 'response')
 
-- 
2.43.0


From a5cd949688ee47cee72a4c6e49103cb8d7f812aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 32/43] fix: captures of several threads with the same writer

---
 warcio/capture_http.py | 3 ++-
 warcio/warcwriter.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 48d4385..b675391 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -164,7 +164,8 @@ class RequestRecorder(object):
         self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
-        self.lock = threading.Lock()
+        # same for all captures with this writer
+        self.lock = getattr(writer, 'lock', None) or threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
 
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index de977d5..913c165 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -1,3 +1,4 @@
+import threading
 import zlib
 
 from socket import gethostname
@@ -16,6 +17,7 @@ class BaseWARCWriter(RecordBuilder):
                                              header_filter=kwargs.get('header_filter'))
         self.gzip = gzip
         self.hostname = gethostname()
+        self.lock = threading.Lock()
 
         self.parser = StatusAndHeadersParser([], verify=False)
 
-- 
2.43.0


From a611783ee005f030ed491dac3ff65d4476cb3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 33/43] fix: capture of requests with methods such as PROPFIND,
 responses with another protocol

---
 warcio/capture_http.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index b675391..d0da35b 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -8,6 +8,7 @@ from contextlib import contextmanager
 
 from array import array
 
+from warcio.statusandheaders import StatusAndHeadersParser
 from warcio.utils import to_native_str, BUFF_SIZE, open
 from warcio.warcwriter import WARCWriter, BufferWARCWriter
 
@@ -207,12 +208,18 @@ class RequestRecorder(object):
     def _create_record(self, out, record_type):
         length = out.tell()
         out.seek(0)
+        # any method or protocol accepted by client and server
+        http_headers = None
+        if length:
+            http_headers = StatusAndHeadersParser([], verify=False).parse(out)
+
         return self.writer.create_warc_record(
                 warc_headers_dict=self.warc_headers,
                 uri=self.url,
                 record_type=record_type,
                 payload=out,
-                length=length)
+                length=length - out.tell(),
+                http_headers=http_headers)
 
     def done(self):
         if not self.started_req:
-- 
2.43.0


From e2685c889804bbed9c1132d92f80728313a9c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 34/43] fix: a header value that starts on its continuation
 line kept a leading blank

---
 warcio/statusandheaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 7d3a36e..e73c6a0 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -290,7 +290,8 @@ class StatusAndHeadersParser(object):
             # append continuation lines, if any
             while next_line and next_line.startswith((' ', '\t')):
                 if value is not None:
-                    value += next_line
+                    # value may start on the continuation line
+                    value += next_line if value else next_line.lstrip()
                 next_line, total_read = _strip_count(self.decode_header(stream.readline()),
                                                      total_read)
 
-- 
2.43.0


From d1ab127f248ca1dffdd12a0f9e18bce4dc404082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 35/43] fix: a line such as -1 or 0x5 was taken as the size of
 a chunk

---
 warcio/bufferedreaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index dbebca8..cdcd610 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -1,4 +1,5 @@
 from io import BytesIO
+import re
 import zlib
 import sys
 
@@ -357,6 +358,8 @@ class ChunkedDataReader(BufferedReader):
             # ensure line ends with \r\n
             assert(length_header[-2:] == b'\r\n')
             chunk_size = length_header[:-2].split(b';')[0]
+            # hex digits only, int() also accepts a sign, a prefix or underscores
+            assert(re.match(br'\s*[0-9a-fA-F]+\s*$', chunk_size))
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
             assert(chunk_size <= 2**31)
-- 
2.43.0


From 90f92826929dcd88161f998dcf1febdb031e0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 36/43] fix: chunks with extensions longer than 64 bytes were
 not decoded

---
 warcio/bufferedreaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index cdcd610..fdd9885 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -337,6 +337,9 @@ class ChunkedDataReader(BufferedReader):
 
             try:
                 length_header = self.stream.readline(64)
+                if b';' in length_header and length_header[-1:] != b'\n':
+                    # long chunk extensions
+                    length_header += self.stream.readline(BUFF_SIZE)
                 self._try_decode(length_header)
             except ChunkedDataException as e:
                 if self.raise_chunked_data_exceptions:
-- 
2.43.0


From 0f74bb65f0b5df5abe6237cb7cf603585747feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 37/43] fix: dates in another time zone were written as if they
 were UTC

---
 warcio/timeutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index ebd1fa5..bf2bb36 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -102,6 +102,14 @@ def datetime_to_http_date(the_datetime):
                       usegmt=True)
 
 
+def to_utc(the_datetime):
+    # without time zone, already utc
+    if the_datetime.utcoffset():
+        the_datetime = the_datetime.astimezone(timezone.utc)
+
+    return the_datetime
+
+
 def datetime_to_iso_date(the_datetime, use_micros=False):
     """
     >>> datetime_to_iso_date(datetime(2013, 12, 26, 10, 11, 12))
@@ -121,6 +129,8 @@ def datetime_to_iso_date(the_datetime, use_micros=False):
 
     """
 
+    the_datetime = to_utc(the_datetime)
+
     if not use_micros:
         return the_datetime.strftime(ISO_DT)
     else:
@@ -134,7 +144,7 @@ def datetime_to_timestamp(the_datetime):
     '20131226101112'
     """
 
-    return the_datetime.strftime(TIMESTAMP_14)
+    return to_utc(the_datetime).strftime(TIMESTAMP_14)
 
 
 def timestamp_now():
-- 
2.43.0


From 1e1519b41fd4fcbb4fe16c2b5f4d10a96b89e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 38/43] fix: endless loop reading a gzip member whose second
 record is cut off after its headers

---
 warcio/archiveiterator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 0b679cc..619a082 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -114,6 +114,10 @@ class ArchiveIterator(six.Iterator):
                 yield self.record
 
             except EOFError:
+                # cut off, and not the first record of its gzip member
+                if raise_invalid_gzip and self.next_line:
+                    self._raise_invalid_gzip_err()
+
                 empty_record = True
 
             self.read_to_end()
-- 
2.43.0


From 867ca3fb420f70e486a1b7c6f57d8b74e507e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 39/43] fix: count supplied default HTTP headers in the length
 of a record that is written

---
 warcio/recordloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index e252e5f..10398e9 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -147,6 +147,9 @@ class ArcWarcRecordLoader(object):
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
+            # all of the block, unless an empty http header block was parsed
+            if length is not None and payload_length < 0:
+                payload_length = length
 
         # if http headers were not parsed, start of payload is unknown
         if is_verifying and not (no_record_parse and
-- 
2.43.0


From 79748ae5491ff620c0f42d76585b05b590aa72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 40/43] fix: no payload digest for a record read without
 parsing its HTTP headers

---
 warcio/recordbuilder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 6280354..8de33eb 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -169,7 +169,8 @@ class RecordBuilder(object):
 
         if payload:
             if (record.rec_headers.get_header('WARC-Payload-Digest') or
-                (record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES)):
+                (record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES) or
+                self._is_payload_unknown(record)):
                 payload = False
 
         block_digester = self._create_digester() if block else None
@@ -222,6 +223,15 @@ class RecordBuilder(object):
         if block_digester:
             record.rec_headers.add_header('WARC-Block-Digest', str(block_digester))
 
+    @staticmethod
+    def _is_payload_unknown(record):
+        # read without parsing http headers, which may be part of the block
+        return (record.http_headers is None and record.payload_length == -1 and
+                ArcWarcRecordLoader().may_have_http_headers(
+                    record.rec_type,
+                    record.rec_headers.get_header('WARC-Target-URI'),
+                    record.length))
+
     @staticmethod
     def _iter_stream(stream):
         while True:
-- 
2.43.0


From b6f089d5443b51028cb196ab3d4b2b06c59f85be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 41/43] fix: the end of a chunk read in two pieces was taken
 for a missing one

---
 warcio/bufferedreaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index fdd9885..b1145f2 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -412,6 +412,9 @@ class ChunkedDataReader(BufferedReader):
         # it should end in \r\n
         if not self.all_chunks_read:
             clrf = self.stream.read(2)
+            if len(clrf) == 1:
+                # the stream may return less than asked for
+                clrf += self.stream.read(1)
             if not clrf and not self.raise_chunked_data_exceptions:
                 # cut off right after the data
                 self.all_chunks_read = True
-- 
2.43.0


From e8bb51c99a2ba8ad3edb1e2e098284bf454aa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 42/43] fix: sending a text file or an iterable raised
 TypeError in the application while capturing

---
 warcio/capture_http.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d0da35b..e7bba61 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -138,9 +138,21 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                 if not buff:
                     break
 
+                if not isinstance(buff, bytes):
+                    # text is sent in this encoding
+                    buff = buff.encode('iso-8859-1')
+
                 send_request(buff)
         else:
-            send_request(data)
+            try:
+                memoryview(data)
+                data = (data,)
+            except TypeError:
+                # an iterable, sent one by one
+                pass
+
+            for buff in data:
+                send_request(buff)
 
     def _tunnel(self, *args, **kwargs):
         if self.recorder:
-- 
2.43.0


From 1e1ce0221f63517624f4a85f938b7cf72f765c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:57 +0000
Subject: [PATCH 43/43] fix: digest check passed for a record whose data ends
 early, if the digest was that of what there was

---
 warcio/digestverifyingreader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 3a13d2d..082e8eb 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -104,13 +104,15 @@ class DigestVerifyingReader(LimitReader):
         if self.limit == 0 or not buff:
             block_digester, self.block_digester = self.block_digester, None
             payload_digester, self.payload_digester = self.payload_digester, None  # prevent double-fire
+            # data that ends early is not the block, whatever its digest
+            cut_off = self.limit > 0
             check = _compare_digest_rfc_3548(block_digester, self.block_digest)
-            if check is False:
+            if check is False or (check and cut_off):
                 self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
             check = _compare_digest_rfc_3548(payload_digester, self.payload_digest)
-            if check is False:
+            if check is False or (check and cut_off):
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
-- 
2.43.0

