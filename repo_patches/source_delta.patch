From c102f3d335efb385cf03340f71ee7ab0baca5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 01/41] fix: never mistake a one-byte 0x04 chunk for the
 end-of-file sentinel

---
 amazon/ion/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..be716f9 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,15 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(bytes):
+    """Type of the end-of-file sentinel.
+
+    The sentinel is recognized by identity. Implementations are free to share equal immutable ``bytes`` objects, so the
+    sentinel must not be an instance of ``bytes`` itself; otherwise, it could be mistaken for an element of the data.
+    """
+
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From 38d55d28b67b6dcafd87f68ef1f6208ed206ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 02/41] fix: raise IonException, not TypeError, when text ends
 after '-' or after a slash following a number

---
 amazon/ion/reader.py      | 7 +++++++
 amazon/ion/reader_text.py | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index be716f9..41e0d1a 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -236,6 +236,13 @@ class BufferQueue(object):
         """
         if self.position < 1:
             raise IndexError('Cannot unread an empty buffer queue.')
+        if BufferQueue.is_eof(c):
+            # The sentinel always occupies its own segment, which was removed when it was read.
+            assert self.__offset == 0
+            self.__segments.appendleft(_EOF)
+            self.__size += 1
+            self.position -= 1
+            return
         if isinstance(c, six.text_type):
             if not self.is_unicode:
                 BufferQueue._incompatible_types(self.is_unicode, c)
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..a0da290 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1032,7 +1032,7 @@ def _comment_handler(c, ctx, whence):
             ctx.set_line_comment(False)
         block_comment = True
     else:
-        _illegal_character(c, ctx, 'Illegal character sequence "/%s".' % (_chr(c),))
+        _illegal_character(c, ctx, 'Illegal character sequence following "/".')
     done = False
     prev = None
     trans = ctx.immediate_transition(self)
-- 
2.43.0


From b20ee5e6558f5b2390a1c0a8ba0f98fadc1adaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 03/41] fix: reject a block comment that is unterminated at end
 of input instead of never returning

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a0da290..955932d 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1041,6 +1041,8 @@ def _comment_handler(c, ctx, whence):
         if block_comment:
             if prev == _ASTERISK and c == _SLASH:
                 done = True
+            elif BufferQueue.is_eof(c):
+                _illegal_character(c, ctx, 'Unterminated block comment.')
             prev = c
         else:
             if c in _NEWLINES or BufferQueue.is_eof(c):
-- 
2.43.0


From d5029636d03642f00262d3b85b37abd2e2b89943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 04/41] fix: treat vertical tab and form feed as whitespace
 after unquoted values

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 955932d..daa6187 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From 0c6232091f381437eea42be3d9e073d1d164fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 05/41] fix: reject underscores within the exponent of decimals
 and floats

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index daa6187..aaca45a 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -728,7 +728,7 @@ def _exponent_handler_factory(ion_type, exp_chars, parse_func, first_char=None):
             _illegal_character(c, ctx)
         return trans
     illegal = exp_chars + _SIGN
-    return _numeric_handler_factory(_DIGITS, transition, lambda c, ctx: c in exp_chars, illegal, parse_func,
+    return _numeric_handler_factory(_DIGITS, transition, lambda c, ctx: c in exp_chars, _DIGITS + illegal, parse_func,
                                     illegal_at_end=illegal, ion_type=ion_type, first_char=first_char)
 
 
-- 
2.43.0


From 9358d85e5569768becb7105447fe83306fd1ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 06/41] fix: reject timestamps with a time that follows an
 incomplete date

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index aaca45a..bc5774a 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -953,7 +953,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -974,7 +974,10 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    # Only a complete date may be followed by a time.
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From f59c00e3c1d4d91b90f867e9d95b4a27303d6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 07/41] fix: do not treat what follows an empty quoted symbol
 as quoted text

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index bc5774a..a357ef7 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1632,7 +1632,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        # Empty symbol. What follows it is no longer quoted text.
+        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().set_quoted_text(False).immediate_transition(ctx.whence)
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From 05079bff4e45704c193b1a1bb5408e1e956f8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 08/41] fix: raise IonException, not StopIteration, when text
 ends within an unclosed container

---
 amazon/ion/simpleion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..081f8e9 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -398,6 +398,8 @@ def _load(out, reader, end_type=IonEventType.STREAM_END, in_struct=False):
 
     event = reader.send(NEXT_EVENT)
     while event.event_type is not end_type:
+        if event.event_type is IonEventType.STREAM_END:
+            raise IonException('Stream ended within an unclosed container.')
         ion_type = event.ion_type
         if event.event_type is IonEventType.CONTAINER_START:
             container = _FROM_ION_TYPE[ion_type].from_event(event)
-- 
2.43.0


From a2f15818b5b167be011b2806926112011b5e2269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 09/41] fix: read values correctly when a comment separates
 them from their field name, annotations or open parenthesis

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a357ef7..7f1ec1f 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2054,6 +2054,8 @@ def _container_handler(c, ctx):
                 else:
                     handler = _VALUE_START_TABLE[c](c, child_context)  # Initialize the new handler
                     can_flush = _IMMEDIATE_FLUSH_TABLE[c]
+            # A comment that preceded this token may have set this.
+            child_context.set_self_delimiting(False)
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
-- 
2.43.0


From 7ecc3f556816818dacbd187cd5fb320b646d7b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 10/41] fix: reject a struct field without a value whose name
 begins like a keyword

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 7f1ec1f..a2a061c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1290,6 +1290,8 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
             elif _ends_value(c) or (in_sexp and c in _OPERATORS):
+                if is_field_name:
+                    _illegal_character(c, ctx, 'Illegal character after field name.')
                 trans = ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, val.as_symbol())
             else:
                 trans = ctx.immediate_transition(_unquoted_symbol_handler(c, ctx, is_field_name=is_field_name))
-- 
2.43.0


From 47976d5f529b56d8158452b34cb34a519678a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 11/41] fix: raise IonException, not TypeError, for an illegal
 character after a symbol identifier field name

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a2a061c..b50ae13 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2041,7 +2041,7 @@ def _container_handler(c, ctx):
                 else:
                     if is_field_name:
                         _illegal_character(c, child_context, 'Illegal character after field name %s.'
-                                           % child_context.pending_symbol)
+                                           % (child_context.pending_symbol,))
                     # It's a symbol value delimited by something other than a comma (i.e. whitespace or comment)
                     yield symbol_value_event()
                     child_context = None
-- 
2.43.0


From 3c9c25d0131d2d1a8da75ac758000a83e585cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 12/41] fix: accept an annotated symbol value followed by a
 line comment at end of input

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index b50ae13..f208012 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1968,7 +1968,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (not is_value_decorated() or has_pending_symbol())
                    )
                )
 
-- 
2.43.0


From 45452abbd28f69e9d17ff1a2d919b64249f95798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 13/41] fix: reject an escaped quote within the opening quotes
 of a clob

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index f208012..fd42bff 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1686,7 +1686,7 @@ def _lob_start_handler(c, ctx):
                 _illegal_character(c, ctx)
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
-        elif c == _SINGLE_QUOTE:
+        elif c == _SINGLE_QUOTE and not _is_escaped(c):
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
-- 
2.43.0


From b32bc7df15ee71f90cfe9dc9b10eab28a2bb86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 14/41] fix: read an annotation that is the empty symbol
 following a long string

---
 amazon/ion/reader_text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index fd42bff..3b6a654 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2084,6 +2084,7 @@ def _container_handler(c, ctx):
                         # transition to the handler coroutine for the next token.
                         next_transition = trans.next_transition
                         child_context = trans.next_context
+                        child_context.set_composite(False)
                         assert next_transition is None or next_transition.event is None
                     else:
                         next_transition = None
-- 
2.43.0


From 29b7e40746c65b19de071d5ecd5c3b92092d3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 15/41] fix: deliver an empty symbol that follows a long string
 and ends the stream with whitespace

---
 amazon/ion/reader_text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3b6a654..6e8c17c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2113,6 +2113,10 @@ def _container_handler(c, ctx):
                         c = queue.read_byte()
                     delimiter_required = ctx.container.is_delimited
                     if next_transition is None:
+                        if has_pending_symbol():
+                            # An empty symbol following a long string, which may yet turn out to be an annotation.
+                            complete = False
+                            can_flush = ctx.depth == 0
                         break
                     else:
                         trans = next_transition
-- 
2.43.0


From 163cbf5eac0a5f5fba2e8cd2a86e076b4ac48a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 16/41] fix: reject a lob whose content begins with fewer than
 three single quotes

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 6e8c17c..665222c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1693,6 +1693,8 @@ def _lob_start_handler(c, ctx):
             if quotes == 3:
                 yield ctx.immediate_transition(_long_string_handler(c, ctx))
         else:
+            if quotes > 0:
+                _illegal_character(c, ctx)
             yield ctx.immediate_transition(_blob_end_handler(c, ctx))
         c, _ = yield trans
 
-- 
2.43.0


From f7eb595a4e55214c1084a178579a569c33d0107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 17/41] fix: reject base-64 digits after a pad even when white
 space separates them

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 665222c..dd1641c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1752,7 +1752,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
-- 
2.43.0


From 6e955ffc9a2856bd45f0fe189397fcc5d7f16674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 18/41] fix: keep timestamp fractions of more than 28 digits
 exact

---
 amazon/ion/core.py              | 4 +++-
 amazon/ion/reader_text.py       | 4 ++--
 amazon/ion/writer_binary_raw.py | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..7c7d2bf 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -497,7 +497,9 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
             # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            args = replace_microsecond(int(fractional_seconds.scaleb(
+                MICROSECOND_PRECISION, context=Context(prec=len(fractional_seconds.as_tuple().digits))
+            )))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dd1641c..3e3dd33 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -18,7 +18,7 @@ from __future__ import division
 from __future__ import print_function
 
 import base64
-from decimal import Decimal
+from decimal import Context, Decimal
 from collections import defaultdict
 from functools import partial
 
@@ -925,7 +925,7 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction), context=Context(prec=len(fraction)))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..9b543c7 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Context, Decimal, localcontext
 from functools import partial
 
 import six
@@ -172,7 +172,7 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
 
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = int(value.scaleb(-exponent, context=Context(prec=len(digits))).to_integral_value())
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
-- 
2.43.0


From d2cb6914ae3f44d2b25f87f5e4222a2b1bb5cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 19/41] fix: fill the binary field caches when assertions are
 disabled

---
 amazon/ion/writer_binary_raw_fields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/writer_binary_raw_fields.py b/amazon/ion/writer_binary_raw_fields.py
index cf24ebf..6181cb7 100644
--- a/amazon/ion/writer_binary_raw_fields.py
+++ b/amazon/ion/writer_binary_raw_fields.py
@@ -246,10 +246,11 @@ class _FieldCache:
         # but for simplicity, 64 is used for all.
         for cached_value in range(self.SIZE):
             signed_value = _FieldCache._signed_value(cached_value)
-            assert _write_int_uncached(self._cached_ints, signed_value) == 1
-            assert _write_varint_uncached(self._cached_varints, signed_value) == 1
-            assert _write_uint_uncached(self._cached_uints, cached_value) == 1
-            assert _write_varuint_uncached(self._cached_varuints, cached_value) == 1
+            int_length = _write_int_uncached(self._cached_ints, signed_value)
+            varint_length = _write_varint_uncached(self._cached_varints, signed_value)
+            uint_length = _write_uint_uncached(self._cached_uints, cached_value)
+            varuint_length = _write_varuint_uncached(self._cached_varuints, cached_value)
+            assert int_length == varint_length == uint_length == varuint_length == 1
 
     def get_int(self, value):
         return self._cached_ints[_FieldCache._signed_index(value)]
-- 
2.43.0


From eb8bf26b2fba8ee93faea8cd3910f1a0b0ac33ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 20/41] fix: write text timestamps that have no explicit
 precision

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..1328403 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -143,6 +143,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From 77f97871e4668f08bac6103ef188ebf011121f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 21/41] fix: quote symbol text that looks like a symbol
 identifier

---
 amazon/ion/writer_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 1328403..17a26f4 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -248,7 +248,8 @@ def _bytes_text(code_point_iter, quote, prefix=b'', suffix=b''):
 _SINGLE_QUOTE = b"'"
 _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
-_UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
+# (text that looks like a symbol identifier, such as $10, is not)
+_UNQUOTED_SYMBOL_REGEX = re.compile(r'\A(?!\$[0-9]+\Z)[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
 
 def _symbol_needs_quotes(text):
-- 
2.43.0


From 19f542975e1d59df09f5a56f392939a4f5409fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 22/41] fix: ion_equals matches each duplicate struct field
 only once

---
 amazon/ion/equivalence.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..a84c621 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -145,11 +145,16 @@ def _structs_eq(a, b, comparison_func):
                 return False
             if isinstance(a, Multimap) and isinstance(b, Multimap):
                 values_a = a.get_all_values(key)
-                values_b = b.get_all_values(key)
+                values_b = list(b.get_all_values(key))
                 if len(values_a) != len(values_b):
                     return False
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    # Each value may be matched only once.
+                    for i, value_b in enumerate(values_b):
+                        if comparison_func(value_a, value_b):
+                            del values_b[i]
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From 6c54b205d075b29a42a046ba20d22a95aeb16575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 23/41] fix: raise IonException when a variable integer ends
 early

---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..0102beb 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -135,7 +135,7 @@ def _parse_var_int_components(buf, signed):
     sign = 1
     while True:
         ch = buf.read(1)
-        if ch == '':
+        if ch == b'':
             raise IonException('Variable integer under-run')
         octet = ord(ch)
         if signed:
-- 
2.43.0


From 4788cb0430ce1f6833821567a7160fceb26e4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 24/41] fix: TypeError while reporting a NOP pad with a
 non-zero field name

---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 0102beb..9698b8b 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -441,7 +441,7 @@ def _nop_pad_handler(ion_type, length, ctx):
 
     if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
         raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name.sid)
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From 36486172eb7b9b3603c2a72e3235034530f1ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 25/41] fix: a variable length field may not exceed its
 container

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 9698b8b..f973e5a 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -413,6 +413,8 @@ def _var_uint_field_handler(handler, ctx):
         if len(queue) == 0:
             # We don't know when the field ends, so read at least one byte.
             yield ctx.read_data_transition(1, self)
+        elif ctx.remaining < 1:
+            raise IonException('Length overrun: variable integer field exceeds its container')
         octet = queue.read_byte()
         value <<= _VAR_INT_VALUE_BITS
         value |= octet & _VAR_INT_VALUE_MASK
-- 
2.43.0


From 6e6d619f89b1260aa497fe7717e7b0f591690efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 26/41] fix: a binary container or annotation wrapper may not
 overrun its parent

---
 amazon/ion/reader_binary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index f973e5a..b956fba 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -508,6 +508,9 @@ def _annotation_handler(ion_type, length, ctx):
     if ctx.annotations is not None:
         raise IonException('Annotation cannot be nested in annotations')
 
+    if length > ctx.remaining:
+        raise IonException('Length overrun: %d bytes, %d remaining' % (length, ctx.remaining))
+
     # We have to replace our context for annotations specifically to encapsulate the limit
     ctx = ctx.derive_container_context(length, add_depth=0)
     # Immediately read the length field and the annotations
@@ -556,6 +559,9 @@ def _container_start_handler(ion_type, length, ctx):
     """Handles container delegation."""
     _, self = yield
 
+    if length > ctx.remaining:
+        raise IonException('Length overrun: %d bytes, %d remaining' % (length, ctx.remaining))
+
     container_ctx = ctx.derive_container_context(length)
     if ctx.annotations and ctx.limit != container_ctx.limit:
         # 'ctx' is the annotation wrapper context. `container_ctx` represents the wrapper's 'value' subfield. Their
-- 
2.43.0


From d944583631603c95626bf7ff1bdbd8c72c0f6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 27/41] fix: an annotation wrapper may not contain a version
 marker

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b956fba..38935af 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -429,6 +429,8 @@ def _ivm_handler(ctx):
 
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
+    if ctx.annotations:
+        raise IonException('IVM encountered in an annotation wrapper')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
-- 
2.43.0


From 7038ea599f3faa7c02df59d981b889a38142b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 28/41] fix: an annotation wrapper may not contain a NOP pad

---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 38935af..f57961f 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -447,6 +447,9 @@ def _nop_pad_handler(ion_type, length, ctx):
         raise IonException(
             'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name.sid)
 
+    if ctx.annotations:
+        raise IonException('Cannot have NOP pad in an annotation wrapper')
+
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
 
-- 
2.43.0


From 4fe40863abedf46d6c410c4f6c6518b8bff46264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 29/41] fix: read a binary decimal with an explicit length of
 zero

---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index f57961f..9ca5edd 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -670,6 +670,9 @@ def _float_factory(data):
 
 def _decimal_factory(data):
     def parse_decimal():
+        if len(data) == 0:
+            # A length field may say that there is neither an exponent nor a coefficient.
+            return Decimal()
         return _parse_decimal(BytesIO(data))
 
     return parse_decimal
-- 
2.43.0


From cfeb60342b824cbf4f8241b197e4e38b7b5a6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 30/41] fix: reject a binary negative integer with a magnitude
 of zero

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 9ca5edd..e94e3c0 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -656,6 +656,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Negative integer with a magnitude of zero')
         return sign * value
     return parse_int
 
-- 
2.43.0


From a0e9149d2b26f9feb8a053f4b392d884b98579a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 31/41] fix: do not loop forever when the text ends while a
 container is skipped

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3e3dd33..c4ae02f 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2172,7 +2172,7 @@ def _skip_trampoline(handler):
                 if event is not None:
                     if event.event_type is IonEventType.CONTAINER_END and event.depth <= depth:
                         break
-                if event is None or event.event_type is IonEventType.INCOMPLETE:
+                if event is None or event.event_type.is_stream_signal:
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-- 
2.43.0


From 1ccd09146049809339760214dd70dc63b5c88176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:59 +0000
Subject: [PATCH 32/41] fix: SKIP after the end of a nested container proceeds
 to the end of the current one

---
 amazon/ion/reader_text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index c4ae02f..be9f4f7 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2176,9 +2176,11 @@ def _skip_trampoline(handler):
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
-                depth = event.depth
+        # The depth of the container the reader is in once it has emitted this event.
+        if event is not None and event.event_type is IonEventType.CONTAINER_START:
+            depth = event.depth
+        elif event is not None and event.event_type is IonEventType.CONTAINER_END:
+            depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From 47d65c20a6da8a971d66af1f0f0fc9c3ba39f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 33/41] fix: every element of a symbols list defines a symbol
 ID

---
 amazon/ion/reader_managed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..1173e9d 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -138,9 +138,8 @@ def _symbols_handler(symbols, whence):
             # We need to skip past this container (ignoring the end container event).
             ion_event, _ = yield Transition(SKIP_EVENT, self)
 
-        if ion_type is IonType.STRING:
-            # Add the potentially null text.
-            symbols.append(ion_event.value)
+        # Every element defines a symbol ID, the text of which is unknown unless it is a non-null string.
+        symbols.append(ion_event.value if ion_type is IonType.STRING else None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 7b32a1f3e448acaa522ec4479a133fae68010d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 34/41] fix: ignore imports without a usable name and imports
 of the system table

---
 amazon/ion/reader_managed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 1173e9d..6682ff3 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -166,7 +166,8 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # Imports without a usable name, and imports of the (always implicit) system table, are ignored.
+            if desc.name and desc.name != TEXT_ION:
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
-- 
2.43.0


From d3d7c265434c1881123ed09bb0bc708641d6244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:02 +0000
Subject: [PATCH 35/41] fix: default null or out-of-range import version and
 max_id

---
 amazon/ion/reader_managed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 6682ff3..ab7b150 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -181,9 +181,13 @@ def _import_desc_handler(ctx, imports, whence):
             if field_name == TEXT_NAME and ion_type is IonType.STRING:
                 desc.name = ion_event.value
             elif field_name == TEXT_VERSION and ion_type is IonType.INT:
-                desc.version = ion_event.value
+                # A version that is null or less than one is treated as one.
+                version = ion_event.value
+                desc.version = 1 if version is None or version < 1 else version
             elif field_name == TEXT_MAX_ID and ion_type is IonType.INT:
-                desc.max_id = ion_event.value
+                # A max ID that is null or negative is treated as undefined.
+                max_id = ion_event.value
+                desc.max_id = None if max_id is None or max_id < 0 else max_id
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From c96fc0c79b8a75b4d535d1f0140e2ee99f119207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:26 +0000
Subject: [PATCH 36/41] fix: a null.symbol as imports is not a request to
 append

---
 amazon/ion/reader_managed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index ab7b150..0ca7513 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -246,6 +246,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From 3719a266e755d4739ab5e2f3c1ee771ec8c77b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:48 +0000
Subject: [PATCH 37/41] fix: intern the empty field name when writing binary

---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From 63886cc3766f930b6222e601dfb65178efb787a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:22 +0000
Subject: [PATCH 38/41] fix: compare tuples element by element in ion_equals

---
 amazon/ion/equivalence.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index a84c621..00a99bf 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -95,14 +95,15 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
-        if isinstance(a, list):
+        if isinstance(a, SymbolToken):
+            # SymbolToken is a tuple, but not a sequence of values.
+            return _symbols_eq(a, b)
+        elif isinstance(a, (list, tuple)):
             return _sequences_eq(a, b, recursive_comparison_func)
         elif isinstance(a, dict):
             return _structs_eq(a, b, recursive_comparison_func)
         elif isinstance(a, datetime):
             return timestamp_comparison_func(a, b)
-        elif isinstance(a, SymbolToken):
-            return _symbols_eq(a, b)
         elif isinstance(a, Decimal):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
@@ -116,7 +117,7 @@ def _annotations_eq(a, b):
 
 def _sequences_eq(a, b, comparison_func):
     assert isinstance(a, (list, tuple))
-    if not isinstance(b, (list, tuple)):
+    if not isinstance(b, (list, tuple)) or isinstance(b, SymbolToken):
         return False
     sequence_len = len(a)
     if sequence_len != len(b):
-- 
2.43.0


From f9a4b9e8123ea35b6bce24536062285fd4dc9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:22 +0000
Subject: [PATCH 39/41] fix: do not take booleans for integers, nor integers
 for floats, in ion_equals

---
 amazon/ion/equivalence.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 00a99bf..425bc0c 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -28,7 +28,7 @@ import six
 
 from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
-    IonPyText, IonPyDecimal, IonPyFloat
+    IonPyText, IonPyDecimal, IonPyFloat, IonPyInt
 from amazon.ion.symbols import SymbolToken
 
 
@@ -90,6 +90,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                     return _decimals_eq(a, b)
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
+                elif isinstance(a, IonPyInt):
+                    return _ints_eq(a, b)
                 else:
                     return a == b
             return False
@@ -108,6 +110,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
+        elif isinstance(a, six.integer_types):
+            return _ints_eq(a, b)
     return a == b
 
 
@@ -245,6 +249,19 @@ def _decimals_eq(a, b):
     return a.canonical().compare_total(b.canonical()) == 0
 
 
+def _is_bool(x):
+    # IonPyBool is the same class as IonPyInt; its instances are only distinguishable by their ion_type.
+    return x.ion_type is IonType.BOOL if isinstance(x, _IonNature) else isinstance(x, bool)
+
+
+def _ints_eq(a, b):
+    """Compares two integer or boolean operands; integers and booleans are not equivalent to each other."""
+    assert isinstance(a, six.integer_types)
+    if not isinstance(b, six.integer_types):
+        return False
+    return _is_bool(a) == _is_bool(b) and a == b
+
+
 def _is_float_negative_zero(x):
     return struct.pack('>d', x) == b'\x80\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From b7a2ce7abf122de145ca8d25f14110a852c70c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:22 +0000
Subject: [PATCH 40/41] fix: compare the precision of fractional seconds beyond
 six digits in ion_equals

---
 amazon/ion/equivalence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 425bc0c..6e6b6fd 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -183,10 +183,11 @@ def _timestamps_eq(a, b):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
                 if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
-                        and a.fractional_seconds == b.fractional_seconds:
+                        and _decimals_eq(a.fractional_seconds, b.fractional_seconds):
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif a.precision is not TimestampPrecision.SECOND \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
                 # if it has full microseconds precision.
                 return False
-- 
2.43.0


From 0b2b639ec67669cd6be9ed2d82de258e951fb524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:22 +0000
Subject: [PATCH 41/41] fix: honour the default of SymbolTable.get for text

---
 amazon/ion/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5b3a3e5 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -282,7 +282,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__mapping.get(key, default)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0

