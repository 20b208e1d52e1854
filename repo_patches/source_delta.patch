From ee3283b4b6ffb5a5d11be6df639693255b9c98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 01/42] fix: do not crash on numbers with thousands of digits
 in headers

---
 httpolice/parse.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..538bb15 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -277,8 +277,9 @@ class Symbol:
 
     def __rlshift__(self, func):
         """``func << sym`` wraps the result of parsing `sym` with `func`."""
-        if isinstance(func, type) and not (func is int or func is float or
-                                           func is str):
+        if func is int:
+            func = _parse_int
+        if isinstance(func, type) and not (func is float or func is str):
             # If a string is wrapped in a class, this often means that we want
             # to annotate this string. But for that to work, the string must be
             # the result of parsing an entire grammar symbol (that's how
@@ -489,6 +490,18 @@ class Rule:
         return Rule(self.symbols, wrapper_action)
 
 
+# No sane number in HTTP comes anywhere close to this many digits. On the other
+# hand, Python refuses to convert overly long numbers from and to strings.
+MAX_DIGITS = 1000
+
+def _parse_int(s):
+    if len(s) > MAX_DIGITS:
+        s = s.lstrip(u'0') or u'0'
+    if len(s) > MAX_DIGITS:
+        s = u'9' * MAX_DIGITS
+    return int(s)
+
+
 class _Skip:
 
     def __repr__(self):
-- 
2.43.0


From cb800622e648fa8cbfde2ee60b4a876799497df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 02/42] fix: do not crash on huge Age or on Age with Date at
 the end of year 9999

---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..57ca857 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:
+                    return resp.headers.date.value
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..e3abef0 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -114,9 +114,12 @@ class Response(message.Message):
             return False
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
-            date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            try:
+                generated_at = (self.headers.date.value +
+                                timedelta(seconds=self.headers.age.value))
+            except OverflowError:       # This is very far in the future.
+                generated_at = datetime.max
+            if generated_at > datetime.utcnow() + timedelta(seconds=30):
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From 3bedd0ae7f4123fda5999112e1d5fdac047ac347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 03/42] fix: do not crash on valid URIs that the standard
 library rejects

---
 httpolice/request.py  |  7 ++++---
 httpolice/response.py | 12 ++++++------
 httpolice/util/uri.py | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 9 deletions(-)
 create mode 100644 httpolice/util/uri.py

diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..70296bb 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -16,6 +16,7 @@ from httpolice.syntax.rfc7230 import (absolute_form, asterisk_form,
                                       authority_form, origin_form)
 from httpolice.util.data import duplicates, iterbytes
 from httpolice.util.text import force_unicode
+from httpolice.util.uri import parse_uri
 
 
 normal_target = mark(origin_form) | mark(absolute_form)
@@ -182,7 +183,7 @@ class Request(message.Message):
         # so this property should be understood as "salvageable query params."
         if not okay(self.effective_uri):
             return {}
-        return parse_qs(urlparse(self.effective_uri).query)
+        return parse_qs(parse_uri(self.effective_uri).query)
 
     @derived_property
     def has_body(self):
@@ -272,7 +273,7 @@ def check_request(req):
 
     if headers.referer.is_okay:
         if req.is_tls is False:
-            parsed = urlparse(headers.referer.value)
+            parsed = parse_uri(headers.referer.value)
             if parsed.scheme == u'https':
                 complain(1068)
 
diff --git a/httpolice/response.py b/httpolice/response.py
index e3abef0..12988cd 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,4 @@
 from datetime import datetime, timedelta
-from urllib.parse import urljoin, urlparse
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -12,6 +11,7 @@ from httpolice.syntax import rfc6749, rfc7230
 from httpolice.util.data import duplicates
 from httpolice.util.text import (contains_percent_encodes, force_unicode,
                                  is_ascii)
+from httpolice.util.uri import join_uri, parse_uri
 
 
 class Response(message.Message):
@@ -295,7 +295,7 @@ def check_response_itself(resp):
         complain(1110)
 
     if status == st.created and headers.location.is_okay and \
-            urlparse(headers.location.value).fragment:
+            parse_uri(headers.location.value).fragment:
         complain(1111)
 
     if headers.date < headers.last_modified.value:
@@ -545,8 +545,8 @@ def check_response_in_context(resp, req):
         complain(1071)
 
     if resp.headers.content_location.is_okay and req.effective_uri:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.content_location.value):
+        if req.effective_uri == join_uri(req.effective_uri,
+                                         resp.headers.content_location.value):
             if method in [m.GET, m.HEAD] and \
                     status in [st.ok, st.non_authoritative_information,
                                st.no_content, st.partial_content,
@@ -556,8 +556,8 @@ def check_response_in_context(resp, req):
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.location.value):
+        if req.effective_uri == join_uri(req.effective_uri,
+                                         resp.headers.location.value):
             if status in [st.multiple_choices, st.temporary_redirect,
                           st.permanent_redirect]:
                 complain(1085)
diff --git a/httpolice/util/uri.py b/httpolice/util/uri.py
new file mode 100644
index 0000000..d29c974
--- /dev/null
+++ b/httpolice/util/uri.py
@@ -0,0 +1,33 @@
+from urllib.parse import ParseResult, urljoin, urlparse
+
+
+# The standard library rejects some URIs that are valid according to RFC 3986
+# (such as ``http://[v1.a]/``), depending on what is inside the brackets.
+# In such cases we put other characters in place of the brackets.
+
+_HIDE = {ord(u'['): u'\ue000', ord(u']'): u'\ue001'}
+_SHOW = {0xe000: u'[', 0xe001: u']'}
+
+
+def parse_uri(uri):
+    """
+    >>> parse_uri(u'http://[v1.a]:80/foo?bar').netloc
+    '[v1.a]:80'
+    """
+    try:
+        return urlparse(uri)
+    except ValueError:
+        return ParseResult(*[piece.translate(_SHOW)
+                             for piece in urlparse(uri.translate(_HIDE))])
+
+
+def join_uri(base, uri):
+    """
+    >>> join_uri(u'http://[v1.a]:80/foo?bar', u'qux')
+    'http://[v1.a]:80/qux'
+    """
+    try:
+        return urljoin(base, uri)
+    except ValueError:
+        return urljoin(base.translate(_HIDE),
+                       uri.translate(_HIDE)).translate(_SHOW)
-- 
2.43.0


From 8fa02ef5bc34da7361219e582eb42d12ed2ef78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 04/42] fix: judge JSON by its syntax, not by limits and
 extensions of the json module

---
 httpolice/message.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..93bfeba 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -35,6 +35,16 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+class _BadConstant(ValueError):
+
+    pass
+
+
+def _reject_json_constant(name):
+    # Python's `json` accepts these by default, but they are not valid JSON.
+    raise _BadConstant(u'%s is not valid in JSON' % name)
+
+
 class Message(Blackboard):
 
     """An HTTP message (request or response)."""
@@ -131,10 +141,15 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body)
-            except ValueError as e:
+                r = json.loads(self.unicode_body,
+                               parse_constant=_reject_json_constant)
+            except (json.JSONDecodeError, _BadConstant) as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
+            except (ValueError, RecursionError):
+                # A number that is too long or nesting that is too deep for us,
+                # but that doesn't mean it's wrong.
+                r = Unavailable(self.unicode_body)
             else:
                 if self.guessed_charset not in ['ascii', 'utf-8', None]:
                     self.complain(1281)
@@ -210,8 +225,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty = json.dumps(self.json_data,
+                                    indent=2, ensure_ascii=False)
+            except RecursionError:
+                pass
+
+        if pretty is not None:
+            r = pretty
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From f87ecb8c10203cbe3081dfa658ab7eb9940d2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 05/42] fix: do not crash when charset names one of the
 non-text codecs of Python

---
 httpolice/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index 93bfeba..517d376 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -110,6 +110,8 @@ class Message(Blackboard):
 
         try:
             codec = codecs.lookup(charset)
+            # Some of Python's codecs (like ``base64``) are not for text.
+            b'\x00'.decode(codec.name, 'replace')
         except (LookupError, UnicodeError):
             return None
         charset = codec.name
-- 
2.43.0


From e7a160bf6ea4ae8547ea6c7d396a62925bbd15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 06/42] fix: do not crash on XML in encodings not supported by
 the parser

---
 httpolice/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index 517d376..2f0b882 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -174,6 +174,9 @@ class Message(Blackboard):
             except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
+            except (LookupError, ValueError):
+                # An encoding that Python's XML parser doesn't support.
+                return Unavailable(self.decoded_body)
         else:
             return None
 
-- 
2.43.0


From a03ed4f82d5b750d642446c370b48dd9b3c63763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 07/42] fix: do not crash on deeply nested comments in headers

---
 httpolice/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 538bb15..a8b06d1 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -112,6 +112,10 @@ def parse(data, symbol, complain=None, fail_notice_id=None,
                 raise
             complaint = (fail_notice_id, {'error': e})
             parse_result = (Unavailable(data), [complaint], [])
+        except RecursionError:
+            # The nesting (of comments) is too deep for us,
+            # but that doesn't mean it's wrong.
+            parse_result = (Unavailable(data), [], [])
         else:
             _memo[key] = parse_result
             while len(_memo) > MEMO_LIMIT:
-- 
2.43.0


From 6ad2837bd5c7e1d0b3bef4a3b9e599c8b8d686c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 08/42] fix: do not crash on Link parameters without a value

---
 httpolice/syntax/rfc8288.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..a47d617 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        (parsed_as, value) = value if value is not None else (None, None)
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -34,8 +33,10 @@ def _process_params(complain, params):
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
         if symbol is not None:
-            value = parse(value, symbol, complain, 1158,
-                          name=name, value=value)
+            # A missing value is the same as an empty one
+            # (RFC 8288 Appendix B.3).
+            value = parse(value or u'', symbol, complain, 1158,
+                          name=name, value=value or u'')
         r.append((name, value))
         if name == u'rev':
             complain(1226)
-- 
2.43.0


From 5f14e20397918dcaafcbcc0eb99134d596129adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 09/42] fix: do not crash on 451 responses with a malformed rel
 in Link

---
 httpolice/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 12988cd..e3fc9ac 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -328,8 +328,9 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
-                   for link in headers.link):
+        if not any(u'blocked-by' in link.param[u'rel']
+                   for link in headers.link
+                   if okay(link.param.get(u'rel'))):
             complain(1243)
 
     if headers.content_disposition.is_okay:
-- 
2.43.0


From e880da89cc135b3894c9a1e60853251123fdc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 10/42] fix: decode all members of gzip data, and do not accept
 truncated ones

---
 httpolice/codings.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..c9b0805 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -6,8 +6,15 @@ import brotli
 
 
 def decode_gzip(data):
-    # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    r = b''
+    while data:
+        # A gzip file consists of one or more "members" (RFC 1952 Section 2.2).
+        member = zlib.decompressobj(16 + zlib.MAX_WBITS)
+        r += member.decompress(data)
+        if not member.eof:
+            raise EOFError(u'incomplete gzip data')
+        data = member.unused_data.lstrip(b'\x00')
+    return r
 
 
 def decode_deflate(data):
-- 
2.43.0


From a8c20b6953365d41b4a7e4f750b46aea4e54cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 11/42] fix: typo in the name of Saturday

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..d08aa54 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -19,7 +19,7 @@ from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From 6c14f3ec46fc83acb8d061e4375488121811657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 12/42] fix: accept only hexadecimal digits as chunk size

---
 httpolice/framing1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..b976df3 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -1,6 +1,7 @@
 """Parse HTTP/1.x message framing according to RFC 7230."""
 
 import re
+import sys
 
 from httpolice.citation import RFC
 from httpolice.codings import decode_deflate, decode_gzip
@@ -26,6 +27,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 
 
 MAX_BODY_SIZE = 1024 * 1024 * 1024
@@ -299,10 +301,10 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')           # RFC errata ID: 4667
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = min(int(size_s, 16), sys.maxsize)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From 141d9e8b4518eed95461431d587764aab7e1e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 13/42] fix: report unknown Basic parameters in a stable order

---
 httpolice/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index e3fc9ac..00dac1f 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -808,8 +808,9 @@ def _check_basic_challenge(resp, hdr, challenge):
     for charset in challenge.param.getall(u'charset'):
         if charset.lower() != u'utf-8':
             resp.complain(1208, header=hdr, charset=charset)
-    for name in set(challenge.param) - {u'charset', u'realm'}:
-        resp.complain(1207, header=hdr, param=name)
+    for name in challenge.param:
+        if name not in [u'charset', u'realm']:
+            resp.complain(1207, header=hdr, param=name)
 
 
 def _check_bearer_challenge(resp, hdr, challenge):
-- 
2.43.0


From a2563c68ae0d5dfcf30be88b3528f19890f21c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 14/42] fix: list expected symbols in a stable order in parse
 errors

---
 httpolice/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index a8b06d1..d79e745 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -1003,8 +1003,8 @@ def _build_parse_error(data, target_symbol, chart):
         if isinstance(next_symbol, Terminal):
             chars = format_chars(next_symbol.chars())
             # And why did we expect it? As part of what nonterminals?
-            expected.setdefault(chars, set()).update(
-                _find_pivots(chart, symbol, start))
+            expected.setdefault(chars, OrderedDict()).update(
+                (pivot, None) for pivot in _find_pivots(chart, symbol, start))
 
         if symbol is target_symbol and next_symbol is None:
             # This item indicates a complete parse of `target_symbol`,
-- 
2.43.0


From e546edcde124b1712b830db6fb8f36ba655c074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 15/42] fix: show status and warn codes as numbers in reports

---
 httpolice/structure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..a2b76a7 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,11 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    # Since Python 3.8, ``int`` no longer has its own ``__str__``,
+    # so the above would leak into reports.
+    def __str__(self):
+        return u'%d' % self
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +372,9 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    def __str__(self):
+        return u'%03d' % self
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From 360d0a74b25db481302799618718ea70049c6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 16/42] fix: put Host first in headers_from_cgi even if it is
 empty

---
 httpolice/helpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httpolice/helpers.py b/httpolice/helpers.py
index 8cfa7aa..0bc56f5 100644
--- a/httpolice/helpers.py
+++ b/httpolice/helpers.py
@@ -43,8 +43,11 @@ def headers_from_cgi(cgi_dict):
         suitable for passing into :class:`httpolice.Request`.
     """
     names = []
-    # ``Host`` should come first according to RFC 7230 Section 5.4.
-    for default_name in ['HTTP_HOST', 'CONTENT_LENGTH', 'CONTENT_TYPE']:
+    # ``Host`` should come first according to RFC 7230 Section 5.4,
+    # even if it is empty.
+    if 'HTTP_HOST' in cgi_dict:
+        names.append('HTTP_HOST')
+    for default_name in ['CONTENT_LENGTH', 'CONTENT_TYPE']:
         if cgi_dict.get(default_name):
             names.append(default_name)
     for name in cgi_dict:
-- 
2.43.0


From 198a911407e66deabcd0e65b82431a9f74e9c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 17/42] fix: do not lose parts of the target, nor reject valid
 URLs, in HAR files

---
 httpolice/inputs/har.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..eed5a49 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,7 +1,7 @@
 import base64
 import io
 import json
-from urllib.parse import urlparse
+import re
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -11,6 +11,7 @@ from httpolice.request import Request
 from httpolice.response import Response
 from httpolice.structure import FieldName, StatusCode, Unavailable
 from httpolice.util.text import decode_path
+from httpolice.util.uri import parse_uri
 
 
 FIDDLER = [u'Fiddler']
@@ -46,7 +47,7 @@ def _process_entry(data, creator, path):
 def _process_request(data, creator, path):
     version, header_entries = _process_message(data, creator)
     method = data['method']
-    parsed = urlparse(data['url'])
+    parsed = parse_uri(data['url'])
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -54,9 +55,10 @@ def _process_request(data, creator, path):
     elif any(name == h.host for (name, _) in header_entries):
         # With HAR, we can't tell if the request was to a proxy or to a server.
         # So we force most requests into the "origin form" of the target,
-        target = parsed.path
-        if parsed.query:
-            target += u'?' + parsed.query
+        target = re.sub(u'^([^:/?#]+:)?(//[^/?#]*)?|#.*', u'', data['url'],
+                        flags=re.DOTALL)
+        if not target.startswith(u'/'):
+            target = u'/' + target
     else:
         # However, if the request has no ``Host`` header,
         # the user won't be able to see the target host
-- 
2.43.0


From c088f580a4122703d723d3050c769c81fc84ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 18/42] fix: report malformed HAR files as such instead of
 crashing

---
 httpolice/inputs/har.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index eed5a49..12255f0 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -27,13 +27,14 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (TypeError, KeyError, AttributeError, ValueError,
+                    OverflowError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
@@ -82,7 +83,7 @@ def _process_request(data, creator, path):
     text = None
     post = data.get('postData')
     if post and post.get('text'):
-        text = post['text']
+        text = _check_text(post['text'])
         if creator in FIDDLER and method == m.CONNECT and u'Fiddler' in text:
             # Fiddler's HAR export adds a body with debug information
             # to CONNECT requests.
@@ -130,9 +131,10 @@ def _process_response(data, req, creator, path):
                     remark=u'from %s' % path)
 
     if data['content'].get('text') and status != st.not_modified:
+        text = _check_text(data['content']['text'])
         if data['content'].get('encoding', u'').lower() == u'base64':
             try:
-                decoded_body = base64.b64decode(data['content']['text'])
+                decoded_body = base64.b64decode(text)
             except ValueError:
                 pass
             else:
@@ -145,11 +147,17 @@ def _process_response(data, req, creator, path):
                     resp.decoded_body = decoded_body
 
         elif 'encoding' not in data['content']:
-            resp.unicode_body = data['content']['text']
+            resp.unicode_body = text
 
     return resp
 
 
+def _check_text(x):
+    if not isinstance(x, str):
+        raise TypeError(u'text must be a string, not %r' % x)
+    return x
+
+
 def _process_message(data, creator):
     header_entries = [(FieldName(d['name']), d['value'])
                       for d in data['headers']]
-- 
2.43.0


From 7e1b6bc0ce0d79821c4cc74df7c88358fb38d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 19/42] fix: report impossible timestamps in tcpflow filenames
 instead of crashing

---
 httpolice/inputs/streams.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 57ca857..c1a261b 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -80,14 +80,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (ValueError, OverflowError, OSError) as exc:
+                raise InputError(u'bad timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
-                sort_hint=timestamp))
+                time_hint=time_hint, sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
     return _path_pairs_input(path_pairs, sniff_direction=True,
-- 
2.43.0


From c608892541412c46999594a6727aeab3406dd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 20/42] fix: reject ambiguous tcpick filenames instead of
 dropping streams

---
 httpolice/inputs/streams.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index c1a261b..6d387a4 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -38,6 +38,7 @@ def tcpick_input(dir_paths):
         # tcpick's ``-F2`` option.
         dir_path = decode_path(dir_path)
         streams_info = []
+        seen = {}
         for name in os.listdir(dir_path):
             path = os.path.join(dir_path, name)
             match = re.match(
@@ -49,6 +50,11 @@ def tcpick_input(dir_paths):
             counter = int(counter)
             if direction == 'serv':
                 (src, dest) = (dest, src)
+            if (counter, src, dest) in seen:
+                raise InputError(u'duplicate counter+source+destination: '
+                                 u'%s vs. %s' %
+                                 (path, seen[(counter, src, dest)]))
+            seen[(counter, src, dest)] = path
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
                                             connection_hint=counter,
                                             time_hint=None, sort_hint=counter))
-- 
2.43.0


From 38d4dd5dd03758660f6675c8aeac2fc2a6b67f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 21/42] fix: keep every notice and marker on one line in text
 reports

---
 httpolice/reports/text.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/reports/text.py b/httpolice/reports/text.py
index 2ce6234..8c0dc12 100644
--- a/httpolice/reports/text.py
+++ b/httpolice/reports/text.py
@@ -1,5 +1,6 @@
 import codecs
 from functools import singledispatch
+import re
 
 from httpolice import notice
 from httpolice.reports.common import (expand_piece, find_reason_phrase,
@@ -34,11 +35,16 @@ def text_report(exchanges, buf):
                 _write_complaint_line(complaint, f2)
 
 
+def _one_line(text):
+    return re.sub(u'[\r\n\u2028\u2029]', u'\N{REPLACEMENT CHARACTER}',
+                  printable(text))
+
+
 def _exchange_marker(exchange):
     if exchange.request:
         marker = u'------------ request: %s %s' % (
-            printable(exchange.request.method),
-            printable(exchange.request.target))
+            _one_line(exchange.request.method),
+            _one_line(exchange.request.target))
     elif exchange.responses:
         marker = u'------------ unknown request'
     else:
@@ -50,7 +56,7 @@ def _exchange_marker(exchange):
 def _response_marker(response):
     return ellipsize(u'------------ response: %d %s' % (
                         response.status,
-                        printable(find_reason_phrase(response)))) + u'\n'
+                        _one_line(find_reason_phrase(response)))) + u'\n'
 
 
 def _write_complaint_line(complaint, f):
@@ -66,7 +72,7 @@ def _piece_to_text(piece, ctx):
 
 @_piece_to_text.register(str)
 def _text_to_text(text, _):
-    return printable(text)
+    return _one_line(text)
 
 @_piece_to_text.register(list)
 def _list_to_text(xs, ctx):
-- 
2.43.0


From 534ecd6b8409449d8652f6e471903c1ddae682b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 22/42] fix: do not mix up references in HTML reports when
 object ids are reused

---
 httpolice/reports/html.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/httpolice/reports/html.py b/httpolice/reports/html.py
index 11959ae..b055acb 100644
--- a/httpolice/reports/html.py
+++ b/httpolice/reports/html.py
@@ -1,5 +1,6 @@
 from functools import singledispatch
 import pkgutil
+import threading
 
 import dominate
 import dominate.tags as H
@@ -116,6 +117,7 @@ def _common_meta(document):
 
 def _generate_exchange_divs(exchanges):
     for exch in exchanges:
+        _seen.by_id.clear()
         div = H.div(_class=u'exchange')
         with div:
             if exch.request:
@@ -228,17 +230,26 @@ def _render_complaints(obj):
 # but instead "anonymize" them.
 # See https://security.stackexchange.com/q/121238/108469
 
-_seen_ids = {}
+# They are only unique within an exchange.
 
-def _anonymize_id(id_):
-    if id_ not in _seen_ids:
-        _seen_ids[id_] = len(_seen_ids)
-    return _seen_ids[id_]
+class _SeenObjects(threading.local):
+
+    def __init__(self):
+        super(_SeenObjects, self).__init__()
+        self.by_id = {}
+
+_seen = _SeenObjects()
+
+def _anonymize_id(obj):
+    # Hold on to `obj` so that its ``id()`` cannot be taken by another object
+    # while we are still rendering this exchange.
+    (number, _) = _seen.by_id.setdefault(id(obj), (len(_seen.by_id), obj))
+    return number
 
 
 @singledispatch
 def _reference_ids(obj):
-    return [str(_anonymize_id(id(obj)))]
+    return [str(_anonymize_id(obj))]
 
 @_reference_ids.register(list)
 def _list_reference_ids(xs):
-- 
2.43.0


From 8808f85eb4eca1aee418b61e3a611651558d5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 23/42] fix: do not show Infinity in place of huge numbers in
 JSON body previews

---
 httpolice/message.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 2f0b882..3d12b51 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -233,9 +233,11 @@ class Message(Blackboard):
         pretty = None
         if okay(self.json_data):
             try:
-                pretty = json.dumps(self.json_data,
-                                    indent=2, ensure_ascii=False)
-            except RecursionError:
+                pretty = json.dumps(self.json_data, indent=2,
+                                    ensure_ascii=False, allow_nan=False)
+            except (ValueError, RecursionError):
+                # Numbers like 1e999 turn into infinities,
+                # which cannot be written in JSON again.
                 pass
 
         if pretty is not None:
-- 
2.43.0


From 9286738ce640d41419e764a9fdbad27ccd836279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 24/42] fix: silence the messages of an exchange too when
 notice IDs come from an iterator

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..3f07954 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = set(notice_ids)
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From 598b78a12fcb58d9486e3bebb5632512057603a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 25/42] fix: do not count fields that are ignored in the
 trailer as part of the message

---
 httpolice/header.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httpolice/header.py b/httpolice/header.py
index 32b281a..78ea7fc 100644
--- a/httpolice/header.py
+++ b/httpolice/header.py
@@ -93,7 +93,8 @@ class HeadersView:
         ]
 
     def clearly(self, predicate):
-        return set(name for name in self.names if predicate(name))
+        return set(name for name in self.names
+                   if predicate(name) and self[name].is_present)
 
 
 class HeaderView:
@@ -175,7 +176,12 @@ class HeaderView:
 
     @property
     def total_entries(self):
-        return len(self.message.headers.enumerate(self.name))
+        return len([
+            entry for (from_trailer, _, entry)
+            in self.message.headers.enumerate(self.name)
+            if not (from_trailer and
+                    known.header.is_bad_for_trailer(self.name))
+        ])
 
     @property
     def entries(self):
-- 
2.43.0


From bc3fea600ae8374deb048d1eb4558cf9982b95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 26/42] fix: find access tokens in request targets even if the
 scheme or Host is unknown

---
 httpolice/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 70296bb..dd0ae92 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -181,9 +181,10 @@ class Request(message.Message):
     def query_params(self):
         # `parse_qs` returns an empty dictionary on garbage,
         # so this property should be understood as "salvageable query params."
-        if not okay(self.effective_uri):
+        # This doesn't need the scheme or ``Host``, so don't use `effective_uri`.
+        if self.target_form not in [origin_form, absolute_form]:
             return {}
-        return parse_qs(parse_uri(self.effective_uri).query)
+        return parse_qs(parse_uri(self.target).query)
 
     @derived_property
     def has_body(self):
-- 
2.43.0


From 5ed21b0ae5ddfde59034a11ae1e2c3ad26088644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 27/42] fix: report all characters that cannot occur in
 URL-encoded bodies

---
 httpolice/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 3d12b51..49546f3 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -29,8 +29,8 @@ from httpolice.util.text import force_unicode, format_chars, printable
 # by a "conformant" URL encoder.
 
 URL_ENCODED_GOOD_CHARS = Bits(
-    1 if (x in [0x25, 0x26, 0x2A, 0x2B, 0x2D, 0x2E, 0x5F] or
-          0x30 <= x < 0x40 or 0x41 <= x < 0x5B or 0x61 <= x < 0x7B) else 0
+    1 if (x in [0x25, 0x26, 0x2A, 0x2B, 0x2D, 0x2E, 0x3D, 0x5F] or
+          0x30 <= x < 0x3A or 0x41 <= x < 0x5B or 0x61 <= x < 0x7B) else 0
     for x in range(256)
 )
 
-- 
2.43.0


From a74f51dbb7c84fbe1e0587c01f1504cd51d23ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 28/42] fix: do not report entities that may be declared in an
 external DTD as bad XML

---
 httpolice/message.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 49546f3..88702c9 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -1,4 +1,5 @@
 import codecs
+from collections import defaultdict
 from datetime import datetime, timedelta
 from email import message_from_bytes as parse_email_message
 import email.errors
@@ -166,7 +167,12 @@ class Message(Blackboard):
             try:
                 # It's not inconceivable that a message might contain
                 # maliciously constructed XML data, so we use `defusedxml`.
-                return defusedxml.ElementTree.fromstring(self.decoded_body)
+                parser = defusedxml.ElementTree.DefusedXMLParser()
+                # If there is an external DTD, we don't read it,
+                # so any entity may be declared there.
+                parser.entity = defaultdict(str)
+                parser.feed(self.decoded_body)
+                return parser.close()
             except defusedxml.EntitiesForbidden:
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
-- 
2.43.0


From 37c4c4ee7cb0c8257b86ea6d1249438f9c198739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 29/42] fix: respect charset from Content-Type when parsing XML

---
 httpolice/message.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 88702c9..bf5e33d 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -36,6 +36,10 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+XML_BYTE_ORDER_MARKS = (codecs.BOM_UTF8, codecs.BOM_UTF16_LE,
+                        codecs.BOM_UTF16_BE)
+
+
 class _BadConstant(ValueError):
 
     pass
@@ -161,9 +165,17 @@ class Message(Blackboard):
 
     @derived_property
     def xml_data(self):
-        if self.headers.content_type.is_okay and \
-                known.media_type.is_xml(self.headers.content_type.item) and \
+        ctype = self.headers.content_type
+        if ctype.is_okay and known.media_type.is_xml(ctype.item) and \
                 okay(self.decoded_body) and self.content_is_full:
+            data = self.decoded_body
+            if u'charset' in ctype.param and \
+                    not data.startswith(XML_BYTE_ORDER_MARKS):
+                # This takes priority over the XML declaration
+                # (RFC 7303 Section 3.2).
+                data = self.unicode_body
+                if not okay(data):
+                    return Unavailable(self.decoded_body)
             try:
                 # It's not inconceivable that a message might contain
                 # maliciously constructed XML data, so we use `defusedxml`.
@@ -171,7 +183,7 @@ class Message(Blackboard):
                 # If there is an external DTD, we don't read it,
                 # so any entity may be declared there.
                 parser.entity = defaultdict(str)
-                parser.feed(self.decoded_body)
+                parser.feed(data)
                 return parser.close()
             except defusedxml.EntitiesForbidden:
                 self.complain(1275)
-- 
2.43.0


From de54d42aabcb08275665855eecd86ce5342e8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 30/42] fix: do not judge the payload of responses that cannot
 have any

---
 httpolice/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 00dac1f..14ebfcc 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -97,7 +97,8 @@ class Response(message.Message):
     @derived_property
     def content_is_full(self):
         """Does this response carry a complete instance of its Content-Type?"""
-        if self.status in [st.not_modified, st.early_hints]:
+        if self.status.informational or \
+                self.status in [st.no_content, st.not_modified]:
             return False
         if self.status == st.partial_content and \
                 self.headers.content_type != media.multipart_byteranges:
-- 
2.43.0


From 068da5c0993745d716eb40c8250bf054707ec6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 31/42] fix: find the boundary of multipart bodies whatever
 other parameters there are

---
 httpolice/message.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index bf5e33d..bbba678 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -4,6 +4,7 @@ from datetime import datetime, timedelta
 from email import message_from_bytes as parse_email_message
 import email.errors
 import json
+import re
 from urllib.parse import parse_qs
 import xml.etree.ElementTree
 
@@ -204,16 +205,20 @@ class Message(Blackboard):
         if ctype.is_okay and \
                 known.media_type.is_multipart(ctype.value.item) and \
                 okay(self.decoded_body) and self.content_is_full:
+            boundary = ctype.param.get(u'boundary')
+            if boundary is None:
+                self.complain(1139)
+                return Unavailable(self.decoded_body)
             # All multipart media types obey the same general syntax
             # specified in RFC 2046 Section 5.1,
             # and should be parseable as email message payloads.
-            multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
-                              b'\r\n\r\n' + self.decoded_body)
+            multipart_code = (b'Content-Type: multipart/mixed; boundary="' +
+                              re.sub(u'(["\\\\])', u'\\\\\\1', boundary)
+                              .encode('iso-8859-1') +
+                              b'"\r\n\r\n' + self.decoded_body)
             parsed = parse_email_message(multipart_code)
             for d in parsed.defects:
-                if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
-                    self.complain(1139)
-                elif isinstance(d, email.errors.StartBoundaryNotFoundDefect):
+                if isinstance(d, email.errors.StartBoundaryNotFoundDefect):
                     self.complain(1140)
             if not parsed.is_multipart():
                 return Unavailable(self.decoded_body)
-- 
2.43.0


From 099530a396c2d879c4f8e80c86a41abf2e12fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 32/42] fix: interpret two-digit years of dates as RFC 7231
 prescribes

---
 httpolice/syntax/rfc7231.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index d08aa54..789b5fb 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -128,10 +128,17 @@ day_name_l = (
                  octet(0x61) * octet(0x79))
 )                                                                       > pivot
 
+def _expand_year(s):
+    # What appears to be more than 50 years in the future
+    # is actually in the past (RFC 7231 Section 7.1.1.1).
+    this_year = datetime.utcnow().year
+    year = this_year // 100 * 100 + int(s)
+    return year - 100 if year > this_year + 50 else year
+
 date2 = _to_date << (
     day * skip('-') *
     month * skip('-') *
-    ((lambda s: int('19' + s)) << string_times(2, 2, DIGIT)))           > pivot
+    (_expand_year << string_times(2, 2, DIGIT)))                        > pivot
 
 rfc850_date = _to_datetime << (day_name_l * skip(',' * SP) *
                                date2 * skip(SP) *
-- 
2.43.0


From 4f26198d1c2c1e4d73c4db309181f9739f27189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 33/42] fix: do not report leap seconds as impossible times

---
 httpolice/syntax/rfc7231.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 789b5fb..9bc0b88 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -82,10 +82,11 @@ date1 = _to_date << day * skip(SP) * month * skip(SP) * year            > pivot
 
 @can_complain
 def _to_time(complain, h, m, s):
+    if (h, m, s) == (23, 59, 60):
+        # This is a leap second, explicitly allowed by the RFC,
+        # but not representable in the standard library.
+        s = 59
     try:
-        # This doesn't parse the leap second 23:59:60
-        # that is explicitly specified in the RFC.
-        # I can ignore this for now.
         return time(h, m, s)
     except ValueError:
         time_s = u'%02d:%02d:%02d' % (h, m, s)
-- 
2.43.0


From c0b1ef6a799a0bf6b5fc3cb1cfbf87309c980e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 34/42] fix: compare the alternatives in Accept etc. without
 regard to case, and mind parameters

---
 httpolice/request.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index dd0ae92..1b6b7d0 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -437,18 +437,23 @@ def _accept_subsumptions(items):
     """Find items in an Accept-like header that subsume one another."""
     normalized = []
     for (item, q) in items:
+        has_params = False
         if isinstance(item, Parametrized):          # The ``Accept`` header.
+            has_params = bool(item.param)
             item = item.item
         if q is None:
             q = 1.0
         elif isinstance(q, MultiDict):              # The ``Accept`` header.
             q = q.get(u'q', 1.0)
-        normalized.append((item, q))
-
-    for ((item1, q1), (item2, q2)) in itertools.permutations(normalized, 2):
-        if (item1 == u'*' or item1.endswith(u'/*')) and \
-                fnmatch.fnmatch(item2, item1) and \
-                not fnmatch.fnmatch(item1, item2) and \
+        normalized.append((item, has_params, q))
+
+    for ((item1, has_params1, q1), (item2, _, q2)) in \
+            itertools.permutations(normalized, 2):
+        # All of these are case-insensitive.
+        (pat1, pat2) = (item1.lower(), item2.lower())
+        if (pat1 == u'*' or pat1.endswith(u'/*')) and not has_params1 and \
+                fnmatch.fnmatch(pat2, pat1) and \
+                not fnmatch.fnmatch(pat1, pat2) and \
                 q1 == q2:
             yield (item1, item2)
 
-- 
2.43.0


From a257f287ed7147888ba347ad58c36f72aae56dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 35/42] fix: report characters that cannot occur in Base64
 credentials

---
 httpolice/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 1b6b7d0..444bb7d 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -410,7 +410,7 @@ def check_request(req):
 def _check_basic_auth(req, hdr, credentials):
     if isinstance(credentials, str):   # ``token68`` form
         try:
-            credentials = base64.b64decode(credentials)
+            credentials = base64.b64decode(credentials, validate=True)
         except Exception as e:
             req.complain(1210, header=hdr, error=e)
         else:
-- 
2.43.0


From 4bae7a1dbbde2b3a2f6a98fed46ccb12e4b05a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 36/42] fix: do not report repeated TE: trailers in HTTP/2

---
 httpolice/request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 444bb7d..b68ee74 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -236,7 +236,8 @@ def check_request(req):
     if tc.chunked in headers.te:
         complain(1028)
 
-    if version == http2 and headers.te and headers.te != [u'trailers']:
+    if version == http2 and \
+            any(coding != u'trailers' for coding in headers.te):
         complain(1244, header=headers.te)
     if version == http11 and headers.te and u'TE' not in headers.connection:
         complain(1029)
-- 
2.43.0


From ab421d56f37afd401f2cf7f8f66444cf1d5d1c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 37/42] fix: do not report Content-Location of failed DELETE as
 if it succeeded

---
 httpolice/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 14ebfcc..db07059 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -554,7 +554,7 @@ def check_response_in_context(resp, req):
                                st.no_content, st.partial_content,
                                st.not_modified]:
                 complain(1055)
-            if method == m.DELETE:
+            if method == m.DELETE and status.successful:
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-- 
2.43.0


From 6d9052728242d4f35700186245212e3de45031e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 38/42] fix: report upgrades to HTTP/2 when HTTP2-Settings is
 repeated

---
 httpolice/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index db07059..b320881 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -539,7 +539,8 @@ def check_response_in_context(resp, req):
             if protocol not in req.headers.upgrade:
                 complain(1049)
             elif protocol.item == upgrade.h2c:
-                if not req.headers.http2_settings.is_okay:
+                if not req.headers.http2_settings.is_okay or \
+                        req.headers.http2_settings.total_entries > 1:
                     complain(1232)
         if req.version == http10:
             complain(1051)
-- 
2.43.0


From aa4666c271e01ca12b6816668d97b037dec4f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 39/42] fix: resolve references that consist of an empty query

---
 httpolice/util/uri.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httpolice/util/uri.py b/httpolice/util/uri.py
index d29c974..fa8298b 100644
--- a/httpolice/util/uri.py
+++ b/httpolice/util/uri.py
@@ -25,7 +25,12 @@ def join_uri(base, uri):
     """
     >>> join_uri(u'http://[v1.a]:80/foo?bar', u'qux')
     'http://[v1.a]:80/qux'
+    >>> join_uri(u'http://example.com/foo?bar', u'?')
+    'http://example.com/foo?'
     """
+    if uri.startswith(u'?'):
+        # The standard library takes an empty query for an absent one.
+        return base.partition(u'#')[0].partition(u'?')[0] + uri
     try:
         return urljoin(base, uri)
     except ValueError:
-- 
2.43.0


From e4f07361d41a3d8140eaa590e5ab5da3b71f2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 40/42] fix: do not report Content-Type of multipart 206
 responses to If-Range

---
 httpolice/response.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index b320881..54b1c13 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -718,9 +718,12 @@ def check_response_in_context(resp, req):
             complain(1145)
 
         if req.headers.if_range.is_present:
+            required = [h.etag, h.content_location]
+            if resp.headers.content_type == media.multipart_byteranges:
+                required.append(h.content_type)
             for hdr in resp.headers:
                 if known.header.is_representation_metadata(hdr.name) and \
-                        hdr.name not in [h.etag, h.content_location]:
+                        hdr.name not in required:
                     complain(1146, header=hdr)
 
     if status == st.range_not_satisfiable:
-- 
2.43.0


From 1c73be67d04a1cd8a0c5c01d2d42175a9699e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 41/42] fix: judge If-Modified-Since only if there is no
 If-None-Match

---
 httpolice/response.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 54b1c13..63b65e4 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -667,8 +667,11 @@ def check_response_in_context(resp, req):
             complain(1115)
 
     if method in [m.GET, m.HEAD] and status.successful:
-        if resp.headers.etag.is_okay:
-            if req.headers.if_none_match == u'*':
+        if req.headers.if_none_match.is_present:
+            # In this case, ``If-Modified-Since`` must be ignored.
+            if not resp.headers.etag.is_okay:
+                pass
+            elif req.headers.if_none_match == u'*':
                 # In this case we could ignore the presence of ``ETag``,
                 # but then we would need a separate notice
                 # that would be pretty useless and too hard to explain.
-- 
2.43.0


From 5e4a5bce8f59aad90fc50cd93aaf9e236fd0ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 42/42] fix: do not report Content-Location in 304 responses

---
 httpolice/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 63b65e4..f39f086 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -308,7 +308,7 @@ def check_response_itself(resp):
             # if the response does not have an ETag field",
             # but really it doesn't hurt even if there is an ETag,
             # and this is widely seen in practice.
-            if hdr.name in [h.etag, h.last_modified]:
+            if hdr.name in [h.etag, h.content_location, h.last_modified]:
                 continue
             elif known.header.is_representation_metadata(hdr.name):
                 complain(1127, header=hdr)
-- 
2.43.0

