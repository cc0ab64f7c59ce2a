From c684a7b3b6dada765832c6277983315c7199eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 01/71] fix: zero day, ordinal, week or weekday is not the same
 as no value given

Date(absolute_day=0), Date(ordinal_day=0, ...), week 0 and weekday 0 were
accepted and silently gave another date, so offsetting 0001-01-01 by -1 day
returned 0001-01-01.
---
 pyslet/iso8601.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 133de00..66d7090 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -224,12 +224,13 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         absolute_day = kwargs.get('absoluteDay', absolute_day)
         if src is None:
             # explicit form
-            if absolute_day:
+            if absolute_day is not None:
                 self._set_from_absolute_day(absolute_day)
-            elif decade or week or weekday:
+            elif (decade is not None or week is not None or
+                    weekday is not None):
                 self._set_from_week_day(
                     century, decade, year, week, weekday, base)
-            elif ordinal_day:
+            elif ordinal_day is not None:
                 self._set_from_ordinal_day(century, year, ordinal_day, base)
             elif century is None and base is None:
                 # use the origin, but everything else must be None too
@@ -449,7 +450,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         else:
             if weekday <= 0 or weekday > 7:
                 raise DateTimeError("weekday %i out of range" % weekday)
-        if week is not None and (week < 0 or week > 53):
+        if week is not None and (week < 1 or week > 53):
             raise DateTimeError("week %i out of range" % week)
         if year is not None and (year < 0 or year > 9):
             raise DateTimeError("year %i within decade is out of range")
-- 
2.43.0


From 797f52ac1ba97bb2c59ff082190163d510ca5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 02/71] fix: shifting a time between zones more than a day
 apart

Zone offsets of up to 23:59 either way are accepted, but the shift only
allowed for one day of overflow and raised an error for larger shifts.
---
 pyslet/iso8601.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 66d7090..6f0dff5 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1532,8 +1532,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
 
             (<Time instance>, overflow)
 
-        overflow is one of -1, 0 or 1 indicating if the time over- or
-        under-flowed as a result of the time zone shift."""
+        overflow is the number of days by which the time over- or
+        under-flowed as a result of the time zone shift, typically one
+        of -1, 0 or 1."""
         zdirection = kwargs.get('zDirection', zdirection)
         zhour = kwargs.get('zHour', zhour)
         zminute = kwargs.get('zMinute', zminute)
@@ -1569,14 +1570,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour > 23:
-            hour -= 24
-            overflow = 1
-        elif hour < 0:
-            hour += 24
-            overflow = -1
-        else:
-            overflow = 0
+        # zones can differ by more than a day, e.g., +23:00 and -23:00
+        overflow = int(hour // 24)
+        hour = hour % 24
         return type(self)(hour=hour, minute=minute, second=second,
                           zdirection=zdirection, zhour=zhour,
                           zminute=zminute), overflow
-- 
2.43.0


From c45634ccf545acf8b1023429373ca295b96cb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 03/71] fix: offsetting fractional minutes or hours added the
 fraction twice

---
 pyslet/iso8601.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 6f0dff5..9674798 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1483,8 +1483,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                     raise DateTimeError("minute precision required")
                 fm, m = modf(minute)
                 m = int(m)
-                hours += minute // 60
-                minute = float(minute % 60) + fm
+                hours += m // 60
+                minute = float(m % 60) + fm
             else:
                 hours += minute // 60
                 minute = minute % 60
@@ -1496,8 +1496,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                     raise DateTimeError("hour precision required")
                 fh, h = modf(hour)
                 h = int(h)
-                days += float(h // 24)
-                hour = float(hour % 24) + fh
+                days += h // 24
+                hour = float(h % 24) + fh
             else:
                 days += hour // 24
                 hour = hour % 24
-- 
2.43.0


From 99aa1a80fcd13653a1d8176080172e7c8791c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 04/71] fix: malformed ISO 8601 text raised AttributeError,
 TypeError or nothing

---
 pyslet/iso8601.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 9674798..b04cc0f 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2883,7 +2883,7 @@ class ISO8601Parser(BasicParser):
         d, df = self.parse_date_format(base)
         if not d.complete():
             raise DateTimeError("incomplete date in time point %s" % str(d))
-        if self.the_char not in tdesignators:
+        if self.the_char is None or self.the_char not in tdesignators:
             raise DateTimeError("time-point requires time %s..." % str(d))
         tdesignator = self.the_char
         t, overflow, tf = self.parse_time_format(None, tdesignators)
@@ -2969,7 +2969,7 @@ class ISO8601Parser(BasicParser):
                                 century=v1, decade=v2 // 10, year=v2 %
                                 10, week=v3, base=base), "YYYY-Www"
                     else:
-                        self.BadSyntax("expected digit or W in ISO date")
+                        self.parser_error("expected digit or W in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
                     v3 = self.require_digit_value()
@@ -3001,7 +3001,7 @@ class ISO8601Parser(BasicParser):
                         return Date(
                             year=v1, month=v2, day=v3, base=base), "YY-MM-DD"
                     else:
-                        self.BadSyntax(
+                        self.parser_error(
                             "expected digit or hyphen in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
@@ -3018,7 +3018,7 @@ class ISO8601Parser(BasicParser):
                             decade=v1 // 10, year=v1 %
                             10, week=v2, base=base), "YY-Www"
                 else:
-                    self.BadSyntax("expected digit or W in ISO date")
+                    self.parser_error("expected digit or W in ISO date")
             elif self.the_char == "W":
                 self.next_char()
                 v2 = self.require_digit_value()
@@ -3099,7 +3099,7 @@ class ISO8601Parser(BasicParser):
                     v1 = v1 * 10 + self.require_digit_value()
                     return Date(day=v1, base=base), "---DD"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             elif self.the_char == "W":
                 self.next_char()
@@ -3120,13 +3120,13 @@ class ISO8601Parser(BasicParser):
                     v1 = self.require_digit_value()
                     return Date(weekday=v1, base=base), "-W-D"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             else:
-                self.BadSyntax(
+                self.parser_error(
                     "expected digit, hyphen or W in truncated ISO date")
         else:
-            self.BadSyntax("expected digit or hyphen in ISO date")
+            self.parser_error("expected digit or hyphen in ISO date")
 
     def parse_date(self, date, base=None):
         raise DateTimeError(
@@ -3135,7 +3135,7 @@ class ISO8601Parser(BasicParser):
             "         d, tformat = p.parse_date_format(base)")
 
     def parse_time_format(self, base=None, tdesignators="T"):
-        if self.the_char in tdesignators:
+        if self.the_char is not None and self.the_char in tdesignators:
             self.next_char()
             tdesignator = 1
         else:
@@ -3199,7 +3199,7 @@ class ISO8601Parser(BasicParser):
                 tformat = "hh"
         elif self.the_char == "-":
             if tdesignator:
-                self.BadSyntax("time designator T before truncated time")
+                self.parser_error("time designator T before truncated time")
             self.next_char()
             if self.match_digit():
                 v1 = self.require_digit_value()
@@ -3248,12 +3248,12 @@ class ISO8601Parser(BasicParser):
                     hour, minute, second = None, None, v1
                     tformat = "--ss"
             else:
-                self.BadSyntax("expected digit or hyphen in truncated Time")
+                self.parser_error("expected digit or hyphen in truncated Time")
             # truncated forms cannot take timezones, return early
             t, overflow = base.extend(hour=hour, minute=minute, second=second)
             return t, overflow, tformat
         else:
-            self.BadSyntax("expected digit or hyphen in Time")
+            self.parser_error("expected digit or hyphen in Time")
         if self.the_char is not None and self.the_char in "Z+-":
             # can't be truncated form
             zdirection, zhour, zminute, tzFormat = \
@@ -3432,7 +3432,7 @@ class ISO8601Parser(BasicParser):
 
     def parse_fraction(self):
         if not (self.the_char == "." or self.the_char == ","):
-            self.BadSyntax("expected decimal sign")
+            self.parser_error("expected decimal sign")
         self.next_char()
         f = 0
         fmag = 1
@@ -3440,7 +3440,7 @@ class ISO8601Parser(BasicParser):
             f = f * 10 + self.require_digit_value()
             fmag *= 10
         if fmag == 1:
-            self.BadSyntax("expected decimal digit")
+            self.parser_error("expected decimal digit")
         return float(f) / float(fmag)
 
     def require_digit_value(self):
-- 
2.43.0


From 5fc613dd3199351530deb6aa0a2611f832beb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 05/71] fix: zone minutes of 60 or more were accepted

---
 pyslet/iso8601.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index b04cc0f..ca6bfe5 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1317,6 +1317,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 "non-zero UTC offset requires at least hour zone precision")
         elif zminute is None:
             self.zoffset = zhour * 60
+        elif zminute < 0 or zminute > 59:
+            raise DateTimeError("zone minute out of range %i" % zminute)
         else:
             self.zoffset = zhour * 60 + zminute
 
-- 
2.43.0


From aaa710a56f9f0fc44cbef3f913473db7d5a5a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 06/71] fix: incomplete truncated ISO 8601 forms raised
 TypeError, AttributeError or UnboundLocalError

---
 pyslet/iso8601.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index ca6bfe5..ed61c22 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -3079,6 +3079,9 @@ class ISO8601Parser(BasicParser):
                             year=v1, week=v2, weekday=v3, base=base), "-YWwwD"
                     else:
                         return Date(year=v1, week=v2, base=base), "-YWww"
+                else:
+                    self.parser_error(
+                        "expected digit, hyphen or W in truncated ISO date")
             elif self.the_char == "-":
                 self.next_char()
                 if self.match_digit():
@@ -3251,6 +3254,8 @@ class ISO8601Parser(BasicParser):
                     tformat = "--ss"
             else:
                 self.parser_error("expected digit or hyphen in truncated Time")
+            if base is None:
+                raise DateTimeError("truncated time requires base")
             # truncated forms cannot take timezones, return early
             t, overflow = base.extend(hour=hour, minute=minute, second=second)
             return t, overflow, tformat
@@ -3301,6 +3306,8 @@ class ISO8601Parser(BasicParser):
             else:
                 zdirection, zhour, zminute = v1, v2, None
                 format = "+hh"
+        else:
+            self.parser_error("expected time zone")
         return zdirection, zhour, zminute, format
 
     def parse_time(self, t, tbase=None, tdesignators="T"):
-- 
2.43.0


From 305fac857767a87a2d275b434f2ddd46d9ebb557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 07/71] fix: regular expressions of classes of all characters,
 all but backslash, and starting with caret

---
 pyslet/unicode5.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 2a48b2e..d0b1045 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -258,13 +258,16 @@ class CharClass(UnicodeMixin):
             # to avoid maxunicode we negate this range
             neg = CharClass(self)
             neg.negate()
+            if not neg.ranges:
+                # the class of all characters
+                return ul("[\\x00-%s]") % character(maxunicode)
             result = to_text(neg)
             if result[0] == "[":
                 return "[^%s]" % result[1:-1]
             elif result[0] == "\\":
                 # we may not need the escape
-                if result == "\\]":
-                    return "[^\\]]"
+                if result in ("\\]", "\\\\"):
+                    return "[^%s]" % result
                 elif result in dict_values(self._re_controls):
                     return "[^%s]" % result
                 else:
@@ -313,7 +316,7 @@ class CharClass(UnicodeMixin):
         return ''.join(py_charset)
 
     def format_re_char(self, c):
-        if c in "-]\\":
+        if c in "-]\\^":
             # prepen a backslash
             return "\\" + c
         else:
-- 
2.43.0


From e5f30313ccf48a184897071fd94fa820a6443210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 08/71] fix: a class copied from another shared its ranges;
 subtracting a class from itself left characters

---
 pyslet/unicode5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index d0b1045..cde2213 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -503,13 +503,15 @@ class CharClass(UnicodeMixin):
                 self.add_range(r[0], r[1])
         else:
             # take a short cut here, if we have no ranges yet just copy them
+            # (the ranges themselves too: they are modified in place)
             for r in c.ranges:
-                self.ranges.append(r)
+                self.ranges.append(list(r))
         self._clear_cache()
 
     def subtract_class(self, c):
         """Subtracts all the characters in c from the character class"""
-        for r in c.ranges:
+        # c may be this class itself
+        for r in list(c.ranges):
             self.subtract_range(r[0], r[1])
         self._clear_cache()
 
-- 
2.43.0


From 1a22d3f88934ed0dfc8f207ab8f8547064127b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 09/71] fix: relative URI of prefix paths, empty or colon first
 segments and differing queries resolved to another URI

---
 pyslet/rfc2396.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 835a242..2596688 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -529,23 +529,24 @@ def normalize_segments(path_segments):
 
 
 def _relativize_segments(path_segments, base_segments):
-    result = []
+    if path_segments == base_segments:
+        return []
+    # the last segment of each is not part of the common directory path
     pos = 0
-    while pos < len(base_segments):
-        if result:
-            result = ['..'] + result
-        else:
-            if (pos >= len(path_segments) or
-                    base_segments[pos] != path_segments[pos]):
-                result = result + path_segments[pos:]
-        pos = pos + 1
-    if not result and len(path_segments) > len(base_segments):
-        # full match but path_segments is longer
-        return path_segments[len(base_segments) - 1:]
-    elif result == ['']:
-        return ['.'] + result
+    while (pos < len(path_segments) - 1 and pos < len(base_segments) - 1 and
+            base_segments[pos] == path_segments[pos]):
+        pos += 1
+    return _protect_segments(
+        ['..'] * (len(base_segments) - 1 - pos) + path_segments[pos:])
+
+
+def _protect_segments(segments):
+    # an initial empty segment would look like an absolute path and a
+    # colon in the first one like a scheme
+    if segments and (not segments[0] or ':' in segments[0]):
+        return ['.'] + segments
     else:
-        return result
+        return segments
 
 
 def _make_rel_path_abs(abs_path, base_path):
@@ -1340,6 +1341,13 @@ class URI(CmpMixin, PEP8Compatibility):
                 # todo: /a/b relative to /c/d really should be '/a/b'
                 # and not ../a/b in particular, drive letters look wrong
                 # in relative paths: ../C:/Program%20Files/
+            if not rel_path and (self.query is not None or
+                                 base.query is not None):
+                # the paths match but this is not just a reference to
+                # the current document, we need the last segment
+                rel_path = path_sep.join(_protect_segments(
+                    (self.abs_path or self.rel_path or
+                     '').split(path_sep)[-1:]))
         result = []
         if authority is not None:
             result.append('//')
-- 
2.43.0


From f8af0d3769b256f3875b09a58a01444e6d3cbc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 10/71] fix: URN without a namespace raised TypeError

---
 pyslet/urn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 324510d..9abd6dd 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -168,6 +168,8 @@ class URN(uri.URI):
         super(URN, self).parse_scheme_specific_part()
         pos = 0
         self.nid = self.nss = None
+        if self.opaque_part is None:
+            raise uri.URIException("Expected NID in URN: %s" % self.octets)
         mode = 0
         cpos = None
         while True:
-- 
2.43.0


From ddb78c83a125a62f932596757754668b830fef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 11/71] fix: empty tokens, unterminated quoted strings and
 unquoted non-tokens were accepted; is_hex(None) and integer lookahead on
 separators raised TypeError

---
 pyslet/http/grammar.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d1e7798..0d7fc49 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -80,8 +80,8 @@ CRLF = join_bytes([CR, LF])
 
 def is_hex(b):
     """Returns True if a byte matches the production for HEX."""
-    return (b is not None and is_digit(b) or (65 <= byte_value(b) <= 70) or
-            (97 <= byte_value(b) <= 102))
+    return b is not None and (is_digit(b) or (65 <= byte_value(b) <= 70) or
+                              (97 <= byte_value(b) <= 102))
 
 
 def is_hexdigits(src):
@@ -132,6 +132,8 @@ def check_token(t):
     if not isinstance(t, bytes):
         # single byte
         t = bytes((t, ))
+    if not t:
+        raise ValueError("Empty token")
     for b in t:
         if b in SEPARATORS:
             raise ValueError("Separator found in token: %s" % t)
@@ -177,12 +179,15 @@ def quote_string(s, force=True):
     only the double quote, \\ and CTL characters other than SP and HT
     are quoted in the output."""
     qstring = [DQUOTE]
+    if not s:
+        # a token can't be empty
+        force = True
     for b in s:
         if b in (REVERSE_SOLIDUS, DQUOTE) or (is_ctl(b) and b not in (SP, HT)):
             qstring.append(REVERSE_SOLIDUS)
             qstring.append(b)
             force = True
-        elif is_ctl(b) or is_separator(b):
+        elif is_ctl(b) or is_separator(b) or not is_char(b):
             force = True
             qstring.append(b)
         else:
@@ -433,6 +438,9 @@ class OctetParser(BasicParser):
                     qs.append(qdtext)
                 else:
                     self.parser_error('<">')
+        else:
+            # no closing quote
+            self.parser_error('<">')
         return b''.join(qs)
 
     def parse_qdtext(self, unfold=False):
@@ -745,7 +753,7 @@ class WordParser(ParserMixin):
 
     def is_integer(self):
         """Returns True if the current word is an integer token"""
-        return self.the_word and is_digits(self.the_word)
+        return isinstance(self.the_word, bytes) and is_digits(self.the_word)
 
     def parse_integer(self):
         """Parses an integer token from the list of words
@@ -770,7 +778,8 @@ class WordParser(ParserMixin):
 
     def is_hexinteger(self):
         """Returns True if the current word is a hex token"""
-        return self.the_word and is_hexdigits(self.the_word)
+        return isinstance(self.the_word, bytes) and \
+            is_hexdigits(self.the_word)
 
     def parse_hexinteger(self):
         """Parses a hex integer token from the list of words
-- 
2.43.0


From 15ed10199ff3ef5923738149d0a53a30f8bc9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 12/71] fix: HTTP dates with out-of-range fields raised
 DateTimeError instead of BadSyntax and 24:00:00 was accepted

---
 pyslet/http/params.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2a083cc..de6d81c 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -898,11 +898,17 @@ class ParameterParser(WordParser):
                 century = 20
             else:
                 century = 19
-        tp = FullDate(
-            date=iso.Date(century=century, year=year, month=month + 1,
-                          day=day),
-            time=iso.Time(hour=hour, minute=minute, second=second,
-                          zdirection=0))
+        if hour > 23:
+            # no end-of-day form (24:00:00) in HTTP
+            self.parser_error("hour")
+        try:
+            tp = FullDate(
+                date=iso.Date(century=century, year=year, month=month + 1,
+                              day=day),
+                time=iso.Time(hour=hour, minute=minute, second=second,
+                              zdirection=0))
+        except iso.DateTimeError:
+            self.parser_error("valid date and time")
         d1, d2, d3, d4, dow = tp.date.get_week_day()
         if dow != dayofweek + 1:
             self.parser_error("matching day-of-week")
-- 
2.43.0


From 04edc6304f900b94e4e2d3b5c3482cae4d59e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 13/71] fix: HTTP dates early in the first year of a century
 were formatted in the previous century

---
 pyslet/http/params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index de6d81c..904c2b3 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -344,7 +344,8 @@ class FullDate(Parameter, iso.TimePoint):
         z = self.shift_zone(0)
         (century, year, month, day,
          hour, minute, second) = z.get_calendar_time_point()
-        century, decade, dyear, week, dayofweek = z.date.get_week_day()
+        # the century of the week year may differ
+        dayofweek = z.date.get_week_day()[4]
         return b"%s, %02i %s %04i %02i:%02i:%02i GMT" % (
             ParameterParser.wkday[dayofweek - 1],
             day,
-- 
2.43.0


From 8a8b1f051d65a2e19a9cfd6a668f4c9b691bee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 14/71] fix: content negotiation depended on the order or
 letter case of ranges, ignored parameters of wild-card ranges and returned
 the text None

---
 pyslet/http/messages.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..b9b6695 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2117,8 +2117,9 @@ class MediaRange(params.MediaType):
                                            repr(self.parameters)))
 
     def sortkey(self):
-        t = '~' if self.type == '*' else self.type
-        st = '~' if self.subtype == '*' else self.subtype
+        # wild cards sort after everything else
+        t = (self.type == '*', self.type.lower())
+        st = (self.subtype == '*', self.subtype.lower())
         # parameters sort before no parameters
         return (t, st, -len(self._hp), self._hp)
 
@@ -2145,13 +2146,10 @@ class MediaRange(params.MediaType):
             range application/myapp;option=on
 
         """
-        if self.type == '*':
-            return True
-        elif self.type.lower() != mtype.type.lower():
+        if self.type != '*' and self.type.lower() != mtype.type.lower():
             return False
-        if self.subtype == '*':
-            return True
-        elif self.subtype.lower() != mtype.subtype.lower():
+        if (self.subtype != '*' and
+                self.subtype.lower() != mtype.subtype.lower()):
             return False
         # all the parameters in the range must be matched
         for p, v in self._hp:
@@ -2307,11 +2305,8 @@ class AcceptToken(params.SortableParameter):
         return ''.join(result).encode('ascii')
 
     def sortkey(self):
-        if self.token == "*":
-            token = "~"
-        else:
-            token = self.token
-        return (token, -self.q)
+        # the wild card sorts after everything else
+        return (self.token == "*", self._token, -self.q)
 
 
 class AcceptTokenList(params.Parameter):
@@ -2365,7 +2360,7 @@ class AcceptTokenList(params.Parameter):
         return al
 
     def to_bytes(self):
-        return b', '.join(str(i) for i in self._items)
+        return b', '.join(i.to_bytes() for i in self._items)
 
     def __len__(self):
         return len(self._items)
@@ -2444,7 +2439,7 @@ class AcceptEncodingList(AcceptTokenList):
                 # here suggests that we should use the lowest possible q
                 # value in this case.  We do this by re-using 0 to mean
                 # minimally acceptable.
-                if bestq == 0:
+                if bestmatch is None:
                     bestmatch = token
         return bestmatch
 
@@ -2463,7 +2458,7 @@ class AcceptLanguageItem(AcceptToken):
     def sortkey(self):
         # sort first by length, longest first to catch most specific
         # match and then secondary sort on alphabetical
-        return (-len(self._range), self._range)
+        return (-len(self._range), self._range, -self.q)
 
 
 class AcceptLanguageList(AcceptTokenList):
@@ -2478,8 +2473,9 @@ class AcceptLanguageList(AcceptTokenList):
 
     def select_token(self, token_list):
         """Remapped to :py:meth:`select_language`"""
-        return str(self.select_language(
-                   list(params.LanguageTag.from_str(t) for t in token_list)))
+        lang = self.select_language(
+            list(params.LanguageTag.from_str(t) for t in token_list))
+        return None if lang is None else str(lang)
 
     def select_language(self, lang_list):
         bestmatch = None
-- 
2.43.0


From 58e6813f5106b9016d98c3da88123db76b67ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 15/71] fix: reading a request body in other ways than read
 lost or repeated bytes, failed or never ended

---
 pyslet/http/messages.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index b9b6695..4952ea0 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -152,7 +152,7 @@ class ChunkedReader(io.RawIOBase):
         if self.chunk_left == 0:
             self.src.readline()
         p = params.ParameterParser(self.src.readline().strip())
-        self.chunk_left = int(p.parse_token(), 16)
+        self.chunk_left = p.require_chunk().size
         if self.chunk_left == 0:
             self.eof = True
             # read the trailing headers and CRLF
@@ -179,7 +179,9 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        data = self.src.read(nbytes)
+        nbytes = len(data)
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
@@ -244,7 +246,7 @@ class WSGIInputWrapper(io.RawIOBase):
         the input_stream itself."""
         if self.closed:
             raise IOError("WSGIInputWrapper was closed")
-        if n == -1:
+        if n is None or n < 0:
             return self.readall()
         data = b''
         if n and self.pos < self.buffSize:
@@ -256,7 +258,7 @@ class WSGIInputWrapper(io.RawIOBase):
                     self.pos + n > self.inputLength:
                 # application should not attempt to read past the
                 # CONTENT_LENGTH
-                n = self.inputLength - self.pos
+                n = max(self.inputLength - self.pos, 0)
             idata = self.input_stream.read(n)
             if len(idata) == 0:
                 self.input_stream = None
@@ -299,8 +301,6 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
 
@@ -336,10 +336,7 @@ class WSGIInputWrapper(io.RawIOBase):
     def readinto(self, b):
         n = len(b)
         data = self.read(n)
-        i = 0
-        for d in data:
-            b[i] = ord(d)
-            i = i + 1
+        b[:len(data)] = data
         return len(data)
 
     def readline(self, limit=-1):
@@ -389,8 +386,9 @@ class WSGIInputWrapper(io.RawIOBase):
     def __iter__(self):
         while True:
             line = self.readline()
-            if line:
-                yield line
+            if not line:
+                break
+            yield line
 
 
 class Message(PEP8Compatibility, object):
-- 
2.43.0


From 114d1fd74473c4f244b5cb607a4530e35221cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 16/71] fix: gzip transfer coding lost data that did not fit
 and a blocked flush after the last chunk failed

---
 pyslet/http/messages.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 4952ea0..d518e05 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -45,12 +45,12 @@ class GzipEncoder(io.RawIOBase):
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
@@ -948,7 +948,8 @@ class Message(PEP8Compatibility, object):
                 self.recv_buffer = None
         if self.recv_buffer:
             self.transfermode = self.BLOCKED_MODE
-        elif self.transferchunked:
+        elif self.transferchunked and self.transferlength:
+            # (not the last chunk, which has no data)
             if self.transferPos >= self.transferlength:
                 self.transfermode = self.CHUNK_END_MODE
             else:
@@ -957,7 +958,7 @@ class Message(PEP8Compatibility, object):
             # we're in read forever mode
             self.transfermode = self.DATA_MODE
         elif self.transferPos >= self.transferlength:
-            # not chunked, defined message body length
+            # defined message body length or all chunks received
             # we need a flushing mode here
             try:
                 self.transferbody.flush()
-- 
2.43.0


From f4e9c370bcdfb305557c09defd1951fd9c15e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 17/71] fix: cookie store failed for IP address hosts, missed
 exact path matches and URLs without a path, and matched parts of IP addresses

---
 pyslet/http/cookie.py | 45 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c352d3c..aa9e1da 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1022,6 +1022,19 @@ class CookieStore(object):
         # domain cookies at all
         self.public_depth = 255
 
+    @staticmethod
+    def _split_host(host_str):
+        # returns the reversed list of labels in a domain name, an IP
+        # address must match whole so is returned as a single label
+        try:
+            host = split_domain(host_str)
+        except ValueError:
+            return [host_str.lower()]
+        if all(label.isdigit() for label in host):
+            return [host_str]
+        host.reverse()
+        return host
+
     def set_cookie(self, url, c):
         """Store a cookie.
 
@@ -1043,21 +1056,15 @@ class CookieStore(object):
             raise CookieError(
                 "Can't set http_only cookie with this protocol: %s" %
                 url.scheme)
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host_str = url.host
+        host = self._split_host(host_str)
         domain = c.domain
         if domain is None:
             domain_str = host_str
             domain = host
         else:
             domain_str = domain
-            domain = split_domain(domain)
-            domain.reverse()
+            domain = self._split_host(domain)
             if not domain_in_domain(domain, host):
                 # you can't set this cookie from host
                 raise CookieError(
@@ -1112,13 +1119,8 @@ class CookieStore(object):
         Expired cookies are automatically removed from the repository
         and all cookies returned have their access time updated to the
         current time."""
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host = self._split_host(url.host)
+        path = url.abs_path or '/'
         matched = []
         dpos = 0
         now = time.time()
@@ -1141,14 +1143,11 @@ class CookieStore(object):
                     if c.domain is None and not host_match:
                         continue
                     # do a path match
-                    if url.abs_path is None:
-                        continue
-                    if len(url.abs_path) < len(c.path):
+                    if not path.startswith(c.path):
                         continue
-                    if not (url.abs_path.startswith(c.path) and
-                            (c.path[-1] == '/' or
-                             url.abs_path[len(c.path):len(c.path) + 1] ==
-                             '/')):
+                    if not (len(path) == len(c.path) or
+                            c.path[-1:] == '/' or
+                            path[len(c.path)] == '/'):
                         continue
                     # we have a domain and path match
                     if c.secure and not isinstance(url, params.HTTPSURL):
-- 
2.43.0


From d67cae272f3d32841f1ee0412193a2565ce26eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 18/71] fix: passwords with a colon, empty path segments in a
 protection space, challenges with a realm, and 'Authorization: None' after
 moving to another host

---
 pyslet/http/auth.py     | 11 ++++++-----
 pyslet/http/messages.py |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..6bc093e 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -170,7 +170,7 @@ class Credentials(Parameter):
         if self.protectionSpace != challenge.protectionSpace:
             return False
         if self.realm:
-            if self.realm != challenge.realm:
+            if self.bstr(self.realm) != challenge["realm"]:
                 return False
         return True
 
@@ -218,7 +218,7 @@ class BasicCredentials(Credentials):
         self.path_prefixes = []
 
     def set_basic_credentials(self, basic_credentials):
-        credentials = base64.b64decode(basic_credentials).split(b':')
+        credentials = base64.b64decode(basic_credentials).split(b':', 1)
         if len(credentials) == 2:
             self.userid = credentials[0].decode('iso-8859-1')
             self.password = credentials[1].decode('iso-8859-1')
@@ -228,7 +228,7 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not self.match_challenge(challenge):
                 return False
         if url is not None:
             # must match the url
@@ -305,8 +305,9 @@ class BasicCredentials(Credentials):
             return False
         i = 0
         while i < len(prefix):
-            # note that an empty segment matches anything (except nothing)
-            if prefix[i] and prefix[i] != path[i]:
+            # note that an empty last segment matches anything (except
+            # nothing)
+            if prefix[i] != path[i] and (prefix[i] or i + 1 < len(prefix)):
                 return False
             i = i + 1
         return True
diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index d518e05..f74b38b 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1194,7 +1194,9 @@ class Message(PEP8Compatibility, object):
 
         credentials
                 a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+        if credentials is not None:
+            credentials = str(credentials)
+        self.set_header("Authorization", credentials)
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
-- 
2.43.0


From ab7eef7ddeb96984e541b019c281c443ff59e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 19/71] fix: decimal_to_str lost or added digits, overflowed
 for very large and small values and wrote NaN as 0.0

---
 pyslet/xml/xsdatatypes.py | 41 +++++++++++++++------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5931b70..d5d1f4a 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -178,44 +178,35 @@ def decimal_to_str(value, digits=None, strip_zeros=True, **kws):
         value = -value
     else:
         sign = ''
+    if math.isnan(value) or math.isinf(value):
+        raise ValueError("Invalid value for decimal: %s" % value)
     if digits is None:
         # calculate the appropriate number of digits
-        try:
-            x = math.log10(value)
-            m, e = math.modf(x)
-            e = int(e)
-            # If e is 0 then we have a number in the open range [1.0,10.0)
-            # which means that we need 1 fewer digits than the maximum
-            # precision of float.  If e is 1 we need 2 fewer, and so on...
-            # We can therefore deduce the formula for digits:
-            digits = float_info.dig - (e + 1)
-            if digits < 1:
-                # by default we always display one digit
-                digits = 1
-        except ValueError:
-            # not sure if this is possible, a number so small log10 fails
-            value = 0.0
+        x = '%.*e' % (float_info.dig - 1, value)
+        e = int(x[x.index('e') + 1:])
+        # If e is 0 then we have a number in the open range [1.0,10.0)
+        # which means that we need 1 fewer digits than the maximum
+        # precision of float.  If e is 1 we need 2 fewer, and so on...
+        # We can therefore deduce the formula for digits:
+        digits = float_info.dig - (e + 1)
+        if digits < 1 or value == 0:
+            # by default we always display one digit
             digits = 1
     elif digits < 0:
         # forced to display no digits, result won't be in canonical form
         digits = 0
     if value == 0:
         # canonical representation of 0 is 0.0
-        if digits is None:
-            return "0.0"
-        elif digits == 0:
+        if digits == 0:
             return "0"
         elif strip_zeros:
             return "0.0"
         else:
             return "0." + ("0" * digits)
-    elif math.isnan(value) or math.isinf(value):
-        raise ValueError("Invalid value for decimal: %s" %
-                         double_to_str(value))
-    f, i = math.modf(value * math.pow(10, digits))
-    if f >= 0.5:
-        i = i + 1
-    dstring = list(str(int(i)))
+    # scale without loss of precision, rounding half up
+    n, d = float(value).as_integer_ratio()
+    i = (2 * n * 10 ** digits + d) // (2 * d)
+    dstring = list(str(i))
     # assume all digits in dstring are significant
     _round_digits(dstring)
     if len(dstring) <= digits:
-- 
2.43.0


From 67db829666d040a8f899406928f489c64d512d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 20/71] fix: XML names with characters of the supplementary
 planes were refused

---
 pyslet/xml/structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7ce723e..50a2e76 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -9,6 +9,7 @@ import random
 import warnings
 
 from copy import copy
+from sys import maxunicode
 from types import MethodType
 
 from .. import rfc2396 as uri
@@ -189,6 +190,9 @@ name_start_char = CharClass(
     (character(0x3001), character(0xd7ff)),
     (character(0xf900), character(0xfdcf)),
     (character(0xfdf0), character(0xfffd)))
+if maxunicode >= 0xEFFFF:
+    # not available in narrow python builds
+    name_start_char.add_range(character(0x10000), character(0xEFFFF))
 
 
 @old_function('IsNameStartChar')
-- 
2.43.0


From 5287f15dc573fa6febc9995e6a45bdcb9b9e3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 21/71] fix: white_space_collapse put a space after the first
 character of text with leading space

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index d5d1f4a..ef45922 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -894,7 +894,7 @@ def white_space_collapse(value):
         else:
             if output and got_space:
                 output.append(character(0x20))
-                got_space = False
+            got_space = False
             output.append(c)
     return ''.join(output)
 
-- 
2.43.0


From 5c61578243ac75c3061bf0fd00aa48f1678b8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 22/71] fix: block streams behave as files when truncated,
 appended to or written past the end

Append mode is writable, write mode truncates the size, seek returns the
position and refuses negative ones, nothing is read beyond the end, short
blocks are padded when later written past, and no digest is kept once it
no longer covers the whole stream.
---
 pyslet/blockstore.py | 54 ++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 32f5e9e..3133f60 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -628,7 +628,7 @@ class BlockStream(io.RawIOBase):
         self.ss = ss
         self.stream = stream
         self.r = "r" in mode or "+" in mode
-        self.w = "w" in mode or "+" in mode
+        self.w = "w" in mode or "a" in mode or "+" in mode
         self.size = stream['size'].value
         self.block_size = self.ss.bs.max_block_size
         self._bdata = None
@@ -647,6 +647,13 @@ class BlockStream(io.RawIOBase):
                 self.blocks = []
                 self._md5 = hashlib.md5()
                 self._md5num = 0
+                # the stream is now empty
+                self.size = 0
+                self._set_btop()
+                self._bdata = b""
+                self._bdirty = True
+                self.flush()
+                self._bdata = None
             else:
                 self.blocks = list(self.ss.retrieve_blocklist(self.stream))
 
@@ -666,13 +673,16 @@ class BlockStream(io.RawIOBase):
 
     def seek(self, offset, whence=io.SEEK_SET):
         if whence == io.SEEK_SET:
-            self.pos = offset
+            new_pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            new_pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.size + offset
+            new_pos = self.size + offset
         else:
             raise IOError("bad value for whence in seek")
+        if new_pos < 0:
+            raise IOError("seek before start of stream")
+        self.pos = new_pos
         new_bnum = self.pos // self.block_size
         if new_bnum != self._bnum:
             self.flush()
@@ -680,13 +690,25 @@ class BlockStream(io.RawIOBase):
             self._bnum = new_bnum
         self._bpos = self.pos % self.block_size
         self._set_btop()
+        return self.pos
 
     def _set_btop(self):
-        if self.size // self.block_size == self._bnum:
+        last_block = self.size // self.block_size
+        if self._bnum == last_block:
             # we're pointing to the last block
             self._btop = self.size % self.block_size
-        else:
+        elif self._bnum < last_block:
             self._btop = self.block_size
+        else:
+            # we're pointing beyond the end of the stream
+            self._btop = 0
+
+    def _load_block(self):
+        # create a full size block in case we also write, short blocks
+        # are padded with zeros
+        self._bdata = bytearray(self.block_size)
+        data = self.ss.retrieve_block(self.blocks[self._bnum])
+        self._bdata[:len(data)] = data
 
     def flush(self):
         if self._bdirty:
@@ -701,7 +723,11 @@ class BlockStream(io.RawIOBase):
                         self.stream, self._bnum, data)
                 if self._md5 is not None and self._bnum == self._md5num:
                     self._md5.update(bytes(data))
-                    self._md5num += 1
+                    if len(data) == self.block_size:
+                        self._md5num += 1
+                    else:
+                        # only valid if this remains the last block
+                        self._md5num = None
                 else:
                     self._md5 = None
             if self.size != self.stream['size'].value:
@@ -727,13 +753,7 @@ class BlockStream(io.RawIOBase):
             return 0
         if self._bdata is None:
             # load the data
-            if self.w:
-                # create a full size block in case we also write
-                self._bdata = bytearray(self.block_size)
-                data = self.ss.retrieve_block(self.blocks[self._bnum])
-                self._bdata[:len(data)] = data
-            else:
-                self._bdata = self.ss.retrieve_block(self.blocks[self._bnum])
+            self._load_block()
         if nbytes > len(b):
             nbytes = len(b)
         b[:nbytes] = self._bdata[self._bpos:self._bpos + nbytes]
@@ -743,6 +763,8 @@ class BlockStream(io.RawIOBase):
     def write(self, b):
         if not self.w:
             raise IOError("stream not open for writing")
+        if not len(b):
+            return 0
         # we can always write something in the block, nbytes > 0
         nbytes = self.block_size - self._bpos
         if self._bdata is None:
@@ -768,9 +790,7 @@ class BlockStream(io.RawIOBase):
                 if self._bpos:
                     self._bdirty = True
             else:
-                self._bdata = bytearray(self.block_size)
-                data = self.ss.retrieve_block(self.blocks[self._bnum])
-                self._bdata[:len(data)] = data
+                self._load_block()
         if nbytes > len(b):
             nbytes = len(b)
         self._bdata[self._bpos:self._bpos + nbytes] = b[:nbytes]
-- 
2.43.0


From 763d241fa8ab2e6d27bde98d199ef988df580994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 23/71] fix: pipes account for consolidated data and ignore
 empty writes

readmatch left bytes already read in the buffer count, an empty bytearray
was buffered and then read as end of file, and readall left the pipe
blocking.
---
 pyslet/streams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..2986f3e 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,9 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    # an empty string in the buffer would look like EOF
+                    return 0
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
@@ -592,13 +595,14 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    self.bsize -= self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From 53306518ca6766bcfd22e8a67f2b22eab9fadb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 24/71] fix: an empty binary literal is an empty byte string

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..6f27c3c 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -641,7 +641,7 @@ class Parser(xsi.BasicParser):
         output = []
         hex_str = self.parse_hex_digits(1)
         if hex_str is None:
-            return ''
+            return b''
         if len(hex_str) % 2:
             raise ValueError(
                 "Trailing nibble in binary literal: '%s'" % hex_str[-1])
-- 
2.43.0


From 24254dab415471171241e226a784213fdb4f86c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 25/71] fix: float literals and string keys survive being
 formatted and parsed

Exponents were written with a plus sign (or too many digits) that the
parser refuses and key values were unescaped twice by split_segment.
---
 pyslet/odata2/core.py | 10 ++++++++--
 pyslet/odata2/csdl.py | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..4ab2190 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2308,6 +2308,12 @@ class ODataURI(PEP8Compatibility):
                     '$%s cannot be used with this form of URI' %
                     SystemQueryOption.to_str(p))
 
+    @staticmethod
+    def _parse_key(value):
+        # the segment has already been unescaped
+        p = Parser(value)
+        return p.require_production_end(p.parse_uri_literal(), "uri literal")
+
     @classmethod
     def split_segment(cls, segment):
         """Splits a string segment into a unicode name and a
@@ -2344,7 +2350,7 @@ class ODataURI(PEP8Compatibility):
             if len(keys) == 0:
                 return name, {}
             elif len(keys) == 1:
-                return name, {keys[0][0]: uri_literal_from_str(keys[0][1])}
+                return name, {keys[0][0]: cls._parse_key(keys[0][1])}
             else:
                 key_predicate = {}
                 for k in keys:
@@ -2352,7 +2358,7 @@ class ODataURI(PEP8Compatibility):
                         raise ValueError(
                             "unrecognized key predicate: %s" % repr(keys))
                     kname, value = k
-                    kvalue = uri_literal_from_str(value)
+                    kvalue = cls._parse_key(value)
                     key_predicate[kname] = kvalue
                 return name, key_predicate
         else:
diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 6f27c3c..9ab58fd 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1619,6 +1619,10 @@ class FloatValue(NumericValue):
             raise TypeError(
                 "Can't set floating-point value from %s" % str(new_value))
 
+    def __unicode__(self):
+        # there is no plus sign in the exponent of a literal
+        return super(FloatValue, self).__unicode__().replace('e+', 'e')
+
 
 class DoubleValue(FloatValue):
 
@@ -1698,6 +1702,17 @@ class SingleValue(FloatValue):
 
     # Min=2.0**-149             #: the smallest positive single value
 
+    def __unicode__(self):
+        result = super(SingleValue, self).__unicode__()
+        num, e, exp = result.partition('e')
+        if e and (len(num.strip('-').replace('.', '')) > 9 or
+                  len(exp.strip('-')) > 2):
+            # too many digits for the exponent form of the literal
+            result = to_text(decimal.Decimal(result).__format__('f'))
+            if '.' not in result:
+                result = result + '.0'
+        return result
+
     def set_from_numeric_literal(self, num):
         """Decodes a Single value from a :py:class:`Numeric` literal."""
         dstr = self.join_numeric_literal(num)
-- 
2.43.0


From 1cebdb8dad008a9bcce4dbf4fa75839255f74a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 26/71] fix: evaluate integer and decimal div and mod exactly,
 null relations as false

Int64 division and remainder went through float, Decimal remainder too;
relations between a typed null and a string, date or GUID failed with a
TypeError and the decimal 0 div 0 with an InvalidOperation.
---
 pyslet/odata2/core.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 4ab2190..1429971 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -644,24 +644,25 @@ class BinaryExpression(CommonExpression):
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
-                    # OData doesn't really specify integer division rules so
-                    # we use floating point division and truncate towards zero
-                    result.set_from_value(
-                        int(float(lvalue.value) / float(rvalue.value)))
+                    # OData doesn't really specify integer division
+                    # rules so we truncate towards zero
+                    quotient = abs(lvalue.value) // abs(rvalue.value)
+                    if (lvalue.value < 0) != (rvalue.value < 0):
+                        quotient = -quotient
+                    result.set_from_value(quotient)
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for div")
-        except ZeroDivisionError as e:
+        except ArithmeticError as e:
             raise EvaluationError(str(e))
 
     def evaluate_mod(self, lvalue, rvalue):
         try:
             type_code = self.promote_operands(lvalue, rvalue)
             if type_code in (
-                    edm.SimpleType.Single, edm.SimpleType.Double,
-                    edm.SimpleType.Decimal):
+                    edm.SimpleType.Single, edm.SimpleType.Double):
                 lvalue = lvalue.simple_cast(type_code)
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
@@ -669,22 +670,31 @@ class BinaryExpression(CommonExpression):
                     result.set_from_value(
                         math.fmod(lvalue.value, rvalue.value))
                 return result
+            elif type_code == edm.SimpleType.Decimal:
+                lvalue = lvalue.simple_cast(type_code)
+                rvalue = rvalue.simple_cast(type_code)
+                result = edm.EDMValue.from_type(type_code)
+                if lvalue and rvalue:
+                    # the decimal remainder is exact
+                    result.set_from_value(lvalue.value % rvalue.value)
+                return result
             elif type_code in (edm.SimpleType.Int32, edm.SimpleType.Int64):
                 lvalue = lvalue.simple_cast(type_code)
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
                     # OData doesn't really specify integer division
-                    # rules so we use floating point division and
-                    # truncate towards zero
-                    result.set_from_value(int(math.fmod(float(lvalue.value),
-                                                        float(rvalue.value))))
+                    # rules so we truncate towards zero
+                    remainder = abs(lvalue.value) % abs(rvalue.value)
+                    if lvalue.value < 0:
+                        remainder = -remainder
+                    result.set_from_value(remainder)
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for mod")
-        except (ZeroDivisionError, ValueError) as e:
+        except (ArithmeticError, ValueError) as e:
             raise EvaluationError(str(e))
 
     def evaluate_add(self, lvalue, rvalue):
@@ -752,7 +762,11 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            if lvalue and rvalue:
+                result.set_from_value(relation(lvalue.value, rvalue.value))
+            else:
+                # one of the operands is null => False
+                result.set_from_value(False)
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-- 
2.43.0


From 14e79d26d8bcf9e727b509e1ccb2cff87a23499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 27/71] fix: keep the grouping of operators when expressions
 are formatted and parsed

'1 sub (2 sub 3)' was formatted as '1 sub 2 sub 3', a bracketed unary
expression was taken for an operator still waiting for its operand, and
so was one unary operator following another.
---
 pyslet/odata2/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 1429971..0455466 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -527,8 +527,12 @@ class BinaryExpression(CommonExpression):
             lvalue = "(%s)" % to_text(lvalue)
         else:
             lvalue = to_text(lvalue)
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if rvalue.operator is not None and (
+                rvalue < self or (
+                    self.operator not in Operator.IsSpecial and
+                    not (self < rvalue))):
+            # right expression is weaker than us, or no stronger as
+            # operators associate to the left, use brackets
             rvalue = "(%s)" % to_text(rvalue)
         else:
             rvalue = to_text(rvalue)
@@ -1409,7 +1413,7 @@ class Parser(edm.Parser):
                     return None
             # if we already have a (unary) operator, skip the search for a
             # binary operator
-            if not isinstance(right_op, UnaryExpression):
+            if not isinstance(right_op, UnaryExpression) or right_op.operands:
                 operand = right_op
                 self.parse_wsp()
                 if self.parse("/"):
@@ -1449,7 +1453,7 @@ class Parser(edm.Parser):
             # right_op (an operator expression, never None)
             # next job, determine who binds more tightly, left or right?
             while True:
-                if left_op is None or left_op < right_op:
+                if left_op is None or operand is None or left_op < right_op:
                     # bind the operand to the right, in cases of equal
                     # precedence we left associate 1+2-3 = (1+2)-3
                     if operand is not None:
-- 
2.43.0


From a0ea43e4e50047449cd07be4c3e31b0cd07a7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 28/71] fix: keep the nonces of different LTI consumers apart

The key and the nonce were run together before hashing, so a nonce never
seen from one consumer could be refused because of another; also give the
Administrator/Developer handle the role it names.
---
 pyslet/imsbltiv1p0.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 2f49eef..df2c534 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -186,8 +186,7 @@ ROLE_HANDLES = {
     'Administrator/Support':
         URI.from_octets('urn:lti:role:ims/lis/Administrator/Support'),
     'Administrator/Developer':
-        URI.from_octets('urn:lti:role:ims/lis/Administrator/'
-                        'ExternalDeveloper'),
+        URI.from_octets('urn:lti:role:ims/lis/Administrator/Developer'),
     'Administrator/SystemAdministrator':
         URI.from_octets('urn:lti:role:ims/lis/Administrator/'
                         'SystemAdministrator'),
@@ -319,6 +318,15 @@ def load_metadata():
     return metadata
 
 
+def nonce_key(client_key, nonce):
+    """Returns a key into the nonce table
+
+    The length of *client_key* is hashed too, so that no two pairs of
+    key and nonce share their hashed text."""
+    return sha256(("%i:%s%s" % (len(client_key), client_key, nonce)).encode(
+        'utf-8')).hexdigest()
+
+
 class ToolConsumer(object):
 
     """An LTI consumer object
@@ -447,8 +455,7 @@ class ToolConsumer(object):
         Mixing the consumer entity's *Key* into the hash reduces the
         chance of a collision between two nonces from separate
         consumers."""
-        return sha256(
-            (self.entity['Key'].value + nonce).encode('utf-8')).hexdigest()
+        return nonce_key(self.entity['Key'].value, nonce)
 
     def get_context(self, context_id, title=None, label=None, ctypes=None):
         """Returns a context entity
@@ -677,7 +684,7 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
     def validate_timestamp_and_nonce(self, client_key, timestamp, nonce,
                                      request, request_token=None,
                                      access_token=None):
-        key = sha256((client_key + nonce).encode('utf-8')).hexdigest()
+        key = nonce_key(client_key, nonce)
         with self.nonces.open() as collection:
             now = time.time()
             try:
-- 
2.43.0


From e33f5715a7e606f10e1c36fe17f00a7d1ef5ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 29/71] fix: refuse signatures that move bytes between the salt
 and the message

---
 pyslet/wsgi.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..01fb6f2 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1561,6 +1561,9 @@ class AppCipher(object):
     #: be used for decryption.
     MAX_AGE = 100
 
+    #: the number of bytes of salt used when signing messages
+    SALT_LENGTH = 4
+
     def __init__(self, key_num, key, key_set, when=None):
         self.lock = threading.RLock()
         self.key_set = key_set
@@ -1765,7 +1768,7 @@ class AppCipher(object):
         strings are encoded using UTF-8 before signing."""
         with self.lock:
             num, cipher = self._get_current_cipher()
-            salt = os.urandom(4)
+            salt = os.urandom(self.SALT_LENGTH)
             hash = cipher.hash(salt + message)
             return "%i-%s-%s" % (num, force_ascii(binascii.hexlify(salt)),
                                  force_ascii(binascii.hexlify(hash)))
@@ -1787,6 +1790,10 @@ class AppCipher(object):
         try:
             num = int(num)
             salt = binascii.unhexlify(salt)
+            if len(salt) != self.SALT_LENGTH:
+                # the salt and message are hashed together, without this
+                # check bytes could be moved from one to the other
+                raise ValueError
             hash = binascii.unhexlify(hash)
             if smessage:
                 smessage = unescape_data(smessage)
-- 
2.43.0


From 12bd932b351fbe39d3c0a70fe0d63bb2e082b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 30/71] fix: check signatures of empty messages

---
 pyslet/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 01fb6f2..56ed541 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1797,12 +1797,15 @@ class AppCipher(object):
             hash = binascii.unhexlify(hash)
             if smessage:
                 smessage = unescape_data(smessage)
-                if message:
+                if message is not None:
                     # must match exactly!
                     if message != smessage:
                         raise ValueError
                 else:
                     message = smessage
+            elif message is None:
+                # the empty message is signed as an empty string
+                message = b''
             with self.lock:
                 cipher = self._get_cipher(num)
                 if cipher is None:
-- 
2.43.0


From fac6dfcf1bef3b899608b66b21bb1134baebfe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 31/71] fix: refuse signatures with unknown key numbers as
 documented

---
 pyslet/wsgi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 56ed541..5c967d1 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1807,9 +1807,11 @@ class AppCipher(object):
                 # the empty message is signed as an empty string
                 message = b''
             with self.lock:
-                cipher = self._get_cipher(num)
-                if cipher is None:
-                    return ValueError
+                try:
+                    cipher = self._get_cipher(num)
+                except RuntimeError:
+                    # not one of our keys
+                    raise ValueError
                 if cipher.hash(salt + message) == hash:
                     return message
                 else:
-- 
2.43.0


From 149f73652dbf5fa4e7790b877d38c27f603ab514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 32/71] fix: AppCipher finds the current key when a key change
 is pending

---
 pyslet/wsgi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 5c967d1..d67d53c 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1576,15 +1576,15 @@ class AppCipher(object):
                 t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
                 t.set_from_value(time.time())
                 filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
+                    "Expires ge :t", {'t': t})
                 keys.set_filter(filter)
                 # Only interested in keys that haven't expired
-                old_keys = keys.values()
+                old_keys = list(keys.values())
                 if not old_keys:
                     raise RuntimeError("AppCipher: no current key")
                 old_key = old_keys[0]
                 self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
+                self.old_key = self.decrypt(old_key['KeyString'].value)
                 self.old_expires = when.get_unixtime()
                 self.ciphers[self.old_num] = self.new_cipher(self.old_key)
         else:
-- 
2.43.0


From 647d716061d509747a7de3593e86b7a94e16e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 33/71] fix: try every matching pattern, most specific first,
 when dispatching requests

---
 pyslet/wsgi.py | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index d67d53c..3dccd34 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -920,33 +920,27 @@ class WSGIApp(DispatchNode):
             if not path:
                 # empty path
                 path = ['']
-            i = 0
-            node = self
             wildcard = None
-            stack = []
-            while i < len(path):
+            stack = [(0, self)]
+            while stack:
+                i, node = stack.pop()
+                if i and node._wildcard is not None:
+                    # this matches the rest of the path, forget the less
+                    # specific nodes left on the stack
+                    wildcard = node._wildcard
+                    stack = []
+                if i == len(path):
+                    if node._handler is not None:
+                        return node._handler(context)
+                    continue
                 p = path[i]
-                old_node = node
-                wild_node = old_node._nodes.get('*', None)
-                node = old_node._nodes.get(p, None)
+                wild_node = node._nodes.get('*', None)
+                if wild_node and p != '*':
+                    # this is a fall-back node, push it
+                    stack.append((i + 1, wild_node))
+                node = node._nodes.get(p, None)
                 if node:
-                    if wild_node:
-                        # this is a fall-back node, push it
-                        stack.append((i, wild_node, wildcard))
-                elif wild_node:
-                    node = wild_node
-                elif wildcard:
-                    # if there is an active wildcard, use it
-                    break
-                elif stack:
-                    i, node, wildcard = stack.pop()
-                else:
-                    break
-                if node._wildcard is not None:
-                    wildcard = node._wildcard
-                i += 1
-            if node and node._handler is not None:
-                return node._handler(context)
+                    stack.append((i + 1, node))
             if wildcard:
                 return wildcard(context)
             # we didn't find a handler
-- 
2.43.0


From 5c4981c101f7c8cfd13585775ddb72687056eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 34/71] fix: normalise paths with repeated separators next to
 the root

---
 pyslet/vfs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e92125c..83be65f 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -379,9 +379,11 @@ class VirtualFilePath(SortableMixin):
         while i < len(components):
             component = components[i]
             if not component:
-                # empty path component removed except start and
-                # special case of all empty components
-                if i == 1 and not components[0]:
+                # empty path component removed except at the start
+                # and the second one of a UNC path (//host/...)
+                if i == 1 and not components[0] and \
+                        self.supports_unc and \
+                        tail.path.startswith(self.sep + self.sep):
                     break
                 elif i:
                     del components[i]
-- 
2.43.0


From ff24dabe949442496d9e748b36bf178431dca779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 35/71] fix: look for the extension in the last path component
 only

---
 pyslet/vfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 83be65f..e68789f 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -306,7 +306,10 @@ class VirtualFilePath(SortableMixin):
             return self, self.path_str('')
         else:
             pos = self.path.rfind(self.ext)
-            if pos >= 0:
+            name = self.path.rfind(self.sep) + 1
+            # leading dots are part of the name of a hidden file and not
+            # the start of an extension
+            if pos > name and self.path[name:pos].strip(self.ext):
                 return self.__class__(self.path[:pos]), \
                     to_text(self.path[pos:])
             else:
-- 
2.43.0


From 814fc3f9c34c1a7cd4d4b614d1e51c73cec83567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 36/71] fix: remove repeated separators from the head of a
 split path

---
 pyslet/vfs.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e68789f..ea45248 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -277,17 +277,12 @@ class VirtualFilePath(SortableMixin):
         drive, tail = self.splitdrive()
         pos = tail.path.rfind(self.sep)
         if pos >= 0:
-            head_path = tail.path[0:pos]
-            if head_path:
-                # handle special case for UNC
-                if not drive and self.supports_unc and head_path == self.sep:
-                    # include the following separator
-                    head = self.__class__(self.sep + self.sep)
-                else:
-                    head = self.__class__(drive.path + head_path)
-            else:
-                # don't return an empty head if sep is in the path
-                head = self.__class__(drive.path + self.sep)
+            head_path = tail.path[:pos + len(self.sep)]
+            # trailing separators are not part of the head unless it is
+            # a root, i.e., consists of nothing else
+            if head_path.strip(self.sep):
+                head_path = head_path.rstrip(self.sep)
+            head = self.__class__(drive.path + head_path)
             tail = self.__class__(tail.path[pos + len(self.sep):])
             return head, tail
         else:
-- 
2.43.0


From ca14fe26637b060b67ed1d6bc2108f587204b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 37/71] fix: joining to an empty path does not make it absolute

---
 pyslet/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index ea45248..2ba73c6 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -189,7 +189,7 @@ class VirtualFilePath(SortableMixin):
                 new_path = self.path_str(arg)
                 if self.path is None or new_path.startswith(self.sep):
                     self.path = new_path
-                elif self.path.endswith(self.sep):
+                elif not self.path or self.path.endswith(self.sep):
                     self.path = self.path + new_path
                 else:
                     self.path = self.path + self.sep + new_path
-- 
2.43.0


From 39cbd2ac11b1de97ad9ed811075f2115d4b35173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 38/71] fix: format relative multilengths

---
 pyslet/html401.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 160ff61..71c91ca 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -925,7 +925,7 @@ class MultiLength(Length):
 
     def __unicode__(self):
         """Overridden to add "*" handling."""
-        if self.type == Length.Relative:
+        if self.type == self.RELATIVE:
             return to_text(self.value) + ustar
         else:
             return super(MultiLength, self).__unicode__()
-- 
2.43.0


From 82d24ca4b13be6bf21fbddc69947fa4f83a752f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 39/71] fix: allocate_pixels uses the type of each length

---
 pyslet/html401.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 71c91ca..2061d05 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -973,10 +973,10 @@ class MultiLength(Length):
         result = [0] * imax
         for i in range3(imax):
             l = lengths[i]
-            if l.value_type == cls.PIXEL:
+            if l.type == cls.PIXEL:
                 result[i] = l.value
                 space_remaining = space_remaining - l.value
-            elif l.value_type == cls.PERCENTAGE:
+            elif l.type == cls.PERCENTAGE:
                 lvalue = (dim * l.value) // 100
                 pround += (dim * l.value) % 100
                 space_remaining = space_remaining - lvalue
@@ -985,14 +985,14 @@ class MultiLength(Length):
                     space_remaining -= 1
                     pround -= 100
                 result[i] = lvalue
-            elif l.value_type == cls.RELATIVE:
+            elif l.type == cls.RELATIVE:
                 relative_total = relative_total + l.value
         if relative_total:
             rround = 0
             dim = space_remaining
             for i in range3(imax):
                 l = lengths[i]
-                if l.value_type == cls.RELATIVE:
+                if l.type == cls.RELATIVE:
                     lvalue = (dim * l.value) // relative_total
                     rround += (dim * l.value) % relative_total
                     space_remaining = space_remaining - lvalue
-- 
2.43.0


From a23b7c9b66a7102025a3b4ab9e9e7e0c2c9a2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 40/71] fix: accept the multilength * as documented

---
 pyslet/html401.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 2061d05..4e90e2d 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -916,6 +916,9 @@ class MultiLength(Length):
                     value_type = MultiLength.PIXEL
             if value_type is None:
                 value_type = MultiLength.PIXEL
+            if not v and str_value == ustar:
+                # "*" is equivalent to "1*"
+                v.append('1')
             v = int(''.join(v))
             if v < 0:
                 raise ValueError
-- 
2.43.0


From f904537a8beee2ac8c097e3ec55016d7506c18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 41/71] fix: a relative length of zero no longer divides by
 zero

---
 pyslet/html401.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 4e90e2d..6948046 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -950,7 +950,7 @@ class MultiLength(Length):
         if self.type == self.RELATIVE:
             if dim is None:
                 raise ValueError("Relative length without dimension")
-            elif self.value > multi_total:
+            elif self.value >= multi_total:
                 return dim
             else:
                 return (self.value * dim) // multi_total
-- 
2.43.0


From 0d8567c500db5367956c1360e5b5f2b8a88b70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 42/71] fix: adding pixels to a percentage raises ValueError as
 documented

---
 pyslet/html401.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 6948046..5873743 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -757,8 +757,8 @@ class Length(UnicodeMixin, MigratedClass):
             self.value += value
         else:
             raise ValueError(
-                "Can't add integer to non-pixel length value: %s+&i" %
-                (str(self), value))
+                "Can't add integer to non-pixel length value: %s+%s" %
+                (str(self), str(value)))
 
 
 #: For backward compatibility
-- 
2.43.0


From e967ef3bad724fdfd26688eee019b85c05e249d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 43/71] fix: Round in expressions must not round the sum with a
 half

---
 pyslet/qtiv2/expressions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 544eec6..d8cfbdf 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -2000,7 +2000,11 @@ class Round(UnaryOperator):
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
         if value:
-            return variables.IntegerValue(int(math.floor(value.value + 0.5)))
+            # avoid floor(value + 0.5): the sum may itself be rounded
+            n = int(math.floor(value.value))
+            if value.value - n >= 0.5:
+                n += 1
+            return variables.IntegerValue(n)
         else:
             return variables.IntegerValue()
 
-- 
2.43.0


From b1f918bb0d0536b5aec9b537ae4e97bdf7c1c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 44/71] fix: divide and power result in NULL when out of the
 range of float

---
 pyslet/qtiv2/expressions.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index d8cfbdf..31ca69a 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1834,13 +1834,16 @@ class Divide(NOperator):
             v1v = float(v1.value)
             v2v = float(v2.value)
             try:
-                return variables.FloatValue(v1v / v2v)
+                result = v1v / v2v
             except ZeroDivisionError:
-                # if [the second value] is zero or the resulting value is
-                # outside the value set defined by float (not including
-                # positive and negative infinity) then the operator should
-                # result in NULL
-                return variables.FloatValue()
+                result = None
+            if result is not None and math.isinf(result):
+                result = None
+            # if [the second value] is zero or the resulting value is
+            # outside the value set defined by float (not including
+            # positive and negative infinity) then the operator should
+            # result in NULL
+            return variables.FloatValue(result)
         else:
             return variables.FloatValue()
 
@@ -1872,12 +1875,15 @@ class Power(NOperator):
             v1v = float(v1.value)
             v2v = float(v2.value)
             try:
-                return variables.FloatValue(math.pow(v1v, v2v))
-            except ValueError:
-                # If the resulting value is outside the value set defined by
-                # float (not including positive and negative infinity) then the
-                # operator shall result in NULL
-                return variables.FloatValue()
+                result = math.pow(v1v, v2v)
+            except (ValueError, OverflowError):
+                result = None
+            if result is not None and math.isinf(result):
+                result = None
+            # If the resulting value is outside the value set defined by
+            # float (not including positive and negative infinity) then the
+            # operator shall result in NULL
+            return variables.FloatValue(result)
         else:
             return variables.FloatValue()
 
-- 
2.43.0


From 5074fab91e31dbf0b16cdcd094676880b91a7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 45/71] fix: MatchTable uses the first of the entries that
 match

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 52964ef..adbc84f 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1631,7 +1631,8 @@ class MatchTable(LookupTable):
         self.map = {}
         for mte in self.MatchTableEntry:
             v = SingleValue.new_value(self.baseType, mte.targetValue)
-            self.map[mte.sourceValue] = v.value
+            # the first entry that matches is the one that counts
+            self.map.setdefault(mte.sourceValue, v.value)
 
     def lookup(self, value):
         """Maps an instance of :py:class:`Value` with integer base type to an
-- 
2.43.0


From 49bab9f042bf34aa0310fb57e7e248440bff9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 46/71] fix: copying a multiple container keeps the frequencies

---
 pyslet/qtiv2/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index adbc84f..6539a2c 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -425,7 +425,11 @@ class Value(MigratedClass, BoolMixin):
     def copy_value(cls, value):
         """Creates a new value instance copying *value*."""
         v = cls.new_value(value.cardinality(), value.baseType)
-        v.set_value(value.value)
+        if value and value.cardinality() == Cardinality.multiple:
+            # value.value is a dictionary of frequencies
+            v.set_value(value.get_values())
+        else:
+            v.set_value(value.value)
         return v
 
 
-- 
2.43.0


From fb05a6b4d2b681fff842c2b06d99b84b4819fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 47/71] fix: QTI values can be converted with str in Python 3
 as documented

---
 pyslet/qtiv2/variables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 6539a2c..dd0bf8e 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -25,7 +25,8 @@ from ..py2 import (
     range3,
     SortableMixin,
     uempty,
-    ul)
+    ul,
+    UnicodeMixin)
 from ..rfc2396 import URI
 from ..xml import structures as xml
 from ..xml import namespace as xmlns
@@ -242,7 +243,7 @@ class NullResult(core.QTIError):
         self.value = value
 
 
-class Value(MigratedClass, BoolMixin):
+class Value(UnicodeMixin, MigratedClass, BoolMixin):
 
     """Represents a single value in the processing model.
 
@@ -857,10 +858,10 @@ class Container(Value):
         if self.baseType is None:
             return ul(
                 "%s container of unknown base type") % Cardinality.to_str(
-                    self.Cardinality)
+                    self.cardinality())
         else:
             return ul("%s container of base type %s") % (
-                Cardinality.to_str(self.Cardinality),
+                Cardinality.to_str(self.cardinality()),
                 BaseType.to_str(self.baseType))
 
     @classmethod
-- 
2.43.0


From 4ef83f8341f9413a8b5528d0df197b857bf1175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 48/71] fix: floats with an exponent are decoded without loss
 of precision

---
 pyslet/xml/xsdatatypes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index ef45922..d453c6a 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -249,9 +249,10 @@ def float_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        result = m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        # m * 10^e would be rounded twice
+        result = float("%se%s" % (m, e))
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
@@ -301,9 +302,10 @@ def double_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        return m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        # m * 10^e would be rounded twice
+        return float("%se%s" % (m, e))
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
-- 
2.43.0


From c202e693a9947c14fa394ae6c23958153b7f8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 49/71] fix: double_to_str scales without loss of precision

---
 pyslet/xml/xsdatatypes.py | 42 ++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index d453c6a..d097536 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -108,7 +108,6 @@ def decimal_from_str(src):
 
 _uzero = ul("0")
 _uone = ul("1")
-_unine = ul("9")
 _udot = ul(".")
 _uexp = ul("E")
 
@@ -354,28 +353,25 @@ def double_to_str(value, digits=None, strip_zeros=True, **kws):
         value = -value
     else:
         sign = ''
-    try:
-        x = math.log10(value)
-    except ValueError:
-        # not sure if this is possible, a number so small log10 fails
-        return "0.0E0"
-    m, e = math.modf(x)
-    e = int(e)
-    r, m = math.modf(math.pow(10, m + digits))
-    if r >= 0.5:
-        m = m + 1
-    dstring = list(str(int(m)))
-    # m should originally have been in [1,10) but we need to check for
-    # over/underflow
-    if len(dstring) > digits + 1:
-        # overflow, strip the trailing zero
-        e = e + 1
-        del dstring[-1]
-    elif len(dstring) <= digits:
-        # underflow - probably impossible, e.g,
-        # pow(10,log10(1.000)+N)->999....9(.9)
-        e = e - 1
-        dstring.append(_unine)
+    # m is the value scaled to have digits + 1 digits before the point, in
+    # whole numbers to be free of any loss of precision, rounded half up
+    x = '%.*e' % (float_info.dig - 1, value)
+    e = int(x[x.index('e') + 1:])
+    n, d = float(value).as_integer_ratio()
+    while True:
+        if digits >= e:
+            m = (2 * n * 10 ** (digits - e) + d) // (2 * d)
+        else:
+            p = d * 10 ** (e - digits)
+            m = (2 * n + p) // (2 * p)
+        if m >= 10 ** (digits + 1):
+            # overflow due to rounding
+            e = e + 1
+        elif m < 10 ** digits:
+            e = e - 1
+        else:
+            break
+    dstring = list(str(m))
     # inevitably, after this len(dstring)==digits+1
     if _round_digits(dstring):
         del dstring[-1]
-- 
2.43.0


From 138c775e16d0537acf47d12e615f99004bf5112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 50/71] fix: text of a URI value

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index dd0bf8e..5656488 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -24,6 +24,7 @@ from ..py2 import (
     long2,
     range3,
     SortableMixin,
+    to_text,
     uempty,
     ul,
     UnicodeMixin)
@@ -818,7 +819,7 @@ class URIValue(SingleValue):
         if self.value is None:
             return uempty
         else:
-            return force_text(self.value)
+            return to_text(self.value)
 
     def set_value(self, value):
         """Sets a uri value from a string or another URI instance."""
-- 
2.43.0


From 1f4ec6f77d6ba26b63be4818efc2dd831122769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 51/71] fix: numbers that round to zero are equal, whatever
 their form

---
 pyslet/qtiv2/expressions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 31ca69a..c362c5d 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1395,14 +1395,15 @@ class EqualRounded(NOperator):
             v2v = float(v2.value)
             figures = self.integer_or_template_ref(state, self.figures)
             if self.roundingMode == RoundingMode.decimalPlaces:
+                # compare as numbers, there is more than one form of zero
                 return variables.BooleanValue(
-                    xsi.decimal_to_str(
+                    xsi.decimal_from_str(xsi.decimal_to_str(
                         v1v,
                         figures,
-                        False) == xsi.decimal_to_str(
-                        v2v,
-                        figures,
-                        False))
+                        False)) == xsi.decimal_from_str(xsi.decimal_to_str(
+                            v2v,
+                            figures,
+                            False)))
             else:
                 # for sig fig, we need to use the double form
                 return variables.BooleanValue(
-- 
2.43.0


From 2565ec5b07ae27af2e7496c20c6f4b24922275f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 52/71] fix: a regular expression with trailing text is an
 error

---
 pyslet/xml/xsdatatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index d097536..92c4895 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -914,6 +914,7 @@ class RegularExpression(UnicodeMixin):
         self.src = force_text(src)
         p = RegularExpressionParser(src)
         pyre = p.require_reg_exp()
+        p.require_end("regExp")
         #: the compiled python regular expression
         self.p = compile(pyre)
 
-- 
2.43.0


From 630b7f0f7a087b26c34608e18c6b6eb20b5b814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 53/71] fix: a regular expression matches if any alternative
 matches the whole text

---
 pyslet/xml/xsdatatypes.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 92c4895..b64affa 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -916,7 +916,7 @@ class RegularExpression(UnicodeMixin):
         pyre = p.require_reg_exp()
         p.require_end("regExp")
         #: the compiled python regular expression
-        self.p = compile(pyre)
+        self.p = compile("(?:%s)\\Z" % pyre)
 
     def __unicode__(self):
         return self.src
@@ -926,11 +926,7 @@ class RegularExpression(UnicodeMixin):
 
     def match(self, target):
         """Returns True if the expression matches *target*."""
-        m = self.p.match(target)
-        if m is None or m.end(0) < len(target):
-            return False
-        else:
-            return True
+        return self.p.match(target) is not None
 
 
 RegularExpressionError = ParserError
-- 
2.43.0


From c97504c41e39ab85a8f644d209a9869220e538c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 54/71] fix: a week date truncated to the year of a decade may
 lie in the next century

---
 pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index ed61c22..33acba2 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -495,6 +495,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                                self.day is not None and
                                self.day < base_weekday)))):
                         self.year += (baseDecade + 1) * 10
+                        if self.year > 99:
+                            self.year -= 100
+                            self._add_century()
                     else:
                         self.year += baseDecade * 10
             else:
-- 
2.43.0


From 7aea6b4c85b3e44cc66f02760a0a3c8ecc212e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:57 +0000
Subject: [PATCH 55/71] fix: extending a time by its own minute must not
 compare missing seconds

---
 pyslet/iso8601.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 33acba2..e16c6e4 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1432,7 +1432,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             else:
                 new_minute = minute
                 new_second = second
-                if new_minute < base_minute or (new_minute == base_minute and
+                if new_minute < base_minute or (new_second is not None and
+                                                new_minute == base_minute and
                                                 new_second < base_second):
                     add_hour = 1
         else:
-- 
2.43.0


From 29f72c54733a9ba9c17233ee60014a5224988323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:15 +0000
Subject: [PATCH 56/71] fix: text left over after a date or time is an error

---
 pyslet/iso8601.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index e16c6e4..08488a7 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -718,6 +718,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             d, dFormat = p.parse_date_format(base)
+            p.require_end("date")
         else:
             raise TypeError
         return d
@@ -733,7 +734,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                         # f is set to "YYYY-MM-DD". """
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_date_format(base)
+            d, f = p.parse_date_format(base)
+            p.require_end("date")
+            return d, f
         else:
             raise TypeError
 
@@ -1616,6 +1619,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             t, overflow, f = p.parse_time_format(base)
+            p.require_end("time")
             return t
         else:
             raise TypeError
@@ -1627,6 +1631,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(zone_str):
             p = ISO8601Parser(zone_str)
             zdirection, zhour, zminute, format = p.parse_time_zone_format()
+            p.require_end("time zone")
             return self.with_zone(
                 zdirection=zdirection, zhour=zhour, zminute=zminute)
         else:
@@ -1641,6 +1646,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(zone_str):
             p = ISO8601Parser(zone_str)
             zdirection, zhour, zminute, format = p.parse_time_zone_format()
+            p.require_end("time zone")
             return self.with_zone(
                 zdirection=zdirection, zhour=zhour, zminute=zminute), format
         else:
@@ -1658,7 +1664,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         parsed, e.g., "hhmmss"."""
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_time_format(base)
+            t, overflow, f = p.parse_time_format(base)
+            p.require_end("time")
+            return t, overflow, f
         else:
             raise TypeError
 
@@ -2252,6 +2260,7 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             tp, f = p.parse_time_point_format(base, tdesignators)
+            p.require_end("time point")
             return tp
         else:
             raise TypeError
@@ -2270,7 +2279,9 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         tdesignators = kwargs.get('tDesignators', tdesignators)
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_time_point_format(base, tdesignators)
+            tp, f = p.parse_time_point_format(base, tdesignators)
+            p.require_end("time point")
+            return tp, f
         else:
             raise TypeError
 
-- 
2.43.0


From 6f4bb1f7b975c084794e7556fd5d3d1fe70c03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:08 +0000
Subject: [PATCH 57/71] fix: look up entities in a filtered in-memory
 navigation collection through the filter

---
 pyslet/odata2/memds.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..dfcf9eb 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -705,10 +705,7 @@ class NavigationCollection(odata.NavigationCollection):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
+            if self.check_filter(result):
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From b10d31d6556e5c2a7996a5de58f4725b5bd298f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:08 +0000
Subject: [PATCH 58/71] fix: order entities with null values of the orderby
 expression

---
 pyslet/odata2/csdl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 9ab58fd..d96015a 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3112,6 +3112,11 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         NotImplementedError."""
         raise NotImplementedError("Collection does not support ordering")
 
+    @staticmethod
+    def _null_first(order_key):
+        # Py3 can't compare None, null values sort before all others
+        return (order_key is not None, order_key)
+
     def order_entities(self, entity_iterable):
         """Utility method for data providers.
 
@@ -3132,8 +3137,9 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
                 elist = list(entity_iterable)
             # we avoid Py3 warnings by doing multiple sorts with a key function
             for rule, ruleDir in reversed(self.orderby):
-                elist.sort(key=lambda x: self.calculate_order_key(
-                    x, rule), reverse=True if ruleDir < 0 else False)
+                elist.sort(key=lambda x: self._null_first(
+                    self.calculate_order_key(x, rule)),
+                    reverse=True if ruleDir < 0 else False)
         if elist:
             for e in elist:
                 yield e
-- 
2.43.0


From 1374f1d2e561a0ca2ee7f2210bbc49c12e146593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:08 +0000
Subject: [PATCH 59/71] fix: no skiptoken after the last page of a collection

---
 pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index d96015a..3eaaf96 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3372,6 +3372,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         finally:
             self.paging = False
         # no more pages
+        self.nextSkiptoken = None
         if set_next:
             self.top = self.skip = 0
             self.skiptoken = None
-- 
2.43.0


From 571f54cb223d733446c16d704dba1f1331c8f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:08 +0000
Subject: [PATCH 60/71] fix: filter and order in-memory collections by
 properties that are not selected

---
 pyslet/odata2/csdl.py  |  2 +-
 pyslet/odata2/memds.py | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3eaaf96..ef7919c 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3042,7 +3042,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         if possible as this implementation simply iterates through the
         entities and calls :py:meth:`Entity.expand` on each one."""
         for e in entity_iterable:
-            if self.expand or self.select:
+            if self.expand or self.select is not None:
                 e.expand(self.expand, self.select)
             yield e
 
diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index dfcf9eb..fa62593 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -460,13 +460,14 @@ class EntityCollection(odata.EntityCollection):
             return result
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        # unselected properties may be used to filter and order
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
-                    self.entity_store.generate_entities(self.select))))
+                    self.entity_store.generate_entities())))
 
     def __getitem__(self, key):
-        e = self.entity_store.read_entity(key, self.select)
+        e = self.entity_store.read_entity(key)
         if e is not None and self.check_filter(e):
             e.expand(self.expand, self.select)
             return e
@@ -696,8 +697,8 @@ class NavigationCollection(odata.NavigationCollection):
             yield self.collection[k]
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
                     self.entity_generator())))
 
-- 
2.43.0


From b3203603b4d5e6c5f38a376ce1a14a86c7ca4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:11 +0000
Subject: [PATCH 61/71] fix: read JSON dates that have no offset or are before
 1970

---
 pyslet/odata2/core.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 0455466..d7a906d 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2858,26 +2858,19 @@ def parse_asp_dot_net_date(src):
     if not (src.startswith("/Date(") and src.endswith(")/")):
         raise ValueError
     ticks = src[6:-2]
-    if '+' in ticks:
-        # split by +
-        ticks = ticks.split('+')
-        zdir = 1
-    elif '-' in ticks:
-        # split by -
-        ticks = ticks.split('-')
-        zdir = -1
-    else:
-        zdir = 0
-    if zdir:
-        if len(ticks) != 2:
-            raise ValueError
-        zoffset = int(ticks[1])
-    else:
-        zoffset = 0
-    t, overflow = iso.Time().offset(
-        seconds=int(ticks[0]) / 1000.0)
+    zdir = zoffset = 0
+    # a leading sign belongs to the ticks, not to the offset
+    pos = max(ticks.rfind('+'), ticks.rfind('-'))
+    if pos > 0:
+        zdir = 1 if ticks[pos] == '+' else -1
+        zoffset = int(ticks[pos + 1:])
+        ticks = ticks[:pos]
+    # the ticks are milliseconds, negative before 1970
+    days, ticks = divmod(int(ticks), TICKS_PER_DAY)
+    t = iso.Time(hour=ticks // 3600000, minute=ticks // 60000 % 60,
+                 second=ticks % 60000 / 1000.0)
     t = t.with_zone(zdir, zoffset // 60, zoffset % 60)
-    d = iso.Date(absolute_day=BASE_DAY + overflow)
+    d = iso.Date(absolute_day=BASE_DAY + days)
     return iso.TimePoint(date=d, time=t)
 
 
-- 
2.43.0


From c3c0ea7c96cf74c261601e600a9cbb7691da8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:11 +0000
Subject: [PATCH 62/71] fix: write JSON dates to the nearest millisecond

---
 pyslet/odata2/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index d7a906d..fba14f1 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2802,6 +2802,11 @@ def simple_property_to_json_str(simple_value):
         simple_value_to_json_str(simple_value))
 
 
+def json_ticks(t):
+    """Returns the nearest number of milliseconds since midnight"""
+    return int(t.get_total_seconds() * 1000 + 0.5)
+
+
 def simple_value_to_json_str(v):
     """Formats a simple value for JSON.
 
@@ -2823,7 +2828,7 @@ def simple_value_to_json_str(v):
         # a strange format based on ticks, by definition, DateTime has no
         # offset
         ticks = (v.value.date.get_absolute_day() - BASE_DAY) * \
-            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000)
+            TICKS_PER_DAY + json_ticks(v.value.time)
         return '"\\/Date(%i)\\/"' % ticks
     elif isinstance(v, (edm.DecimalValue, edm.DoubleValue, edm.GuidValue,
                         edm.Int64Value, edm.SingleValue, edm.StringValue,
@@ -2834,7 +2839,7 @@ def simple_value_to_json_str(v):
         # a strange format based on ticks, by definition, DateTime has no
         # offset
         ticks = (v.value.date.get_absolute_day() - BASE_DAY) * \
-            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000)
+            TICKS_PER_DAY + json_ticks(v.value.time)
         dir, offset = v.value.get_zone()
         if dir > 0:
             s = "+"
-- 
2.43.0


From 36246594877640592258e3861bcd4cbc839ec0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:41 +0000
Subject: [PATCH 63/71] fix: keep the white space of property values in Atom
 entries

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index fba14f1..c39518c 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3235,6 +3235,10 @@ class Property(ODataElement):
         # an :py:class:`pyslet.mc_csdl.EDMValue` instance
         self.edmValue = None
 
+    def get_space(self):
+        """White space in a value is always significant"""
+        return 'preserve'
+
     def get_simple_type(self):
         try:
             type = self.get_attribute((ODATA_METADATA_NAMESPACE, 'type'))
-- 
2.43.0


From baf335f4384d40e877d3d8ef269083e348ab6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:42 +0000
Subject: [PATCH 64/71] fix: read JSON entities and values with complex
 properties missing

---
 pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index c39518c..1497fdb 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2527,7 +2527,7 @@ class Entity(edm.Entity):
                     # assume a complex value then
                     complex_value_from_json(v, obj[k])
             else:
-                v.set_from_value(None)
+                v.set_null()
         if self.exists is False:
             # we need to look for any link bindings
             for nav_property in self.navigation_keys():
@@ -2771,7 +2771,7 @@ def complex_value_from_json(complex_value, obj):
             else:
                 complex_value_from_json(v, obj[k])
         else:
-            v.set_from_value(None)
+            v.set_null()
 
 
 TICKS_PER_DAY = 86400000
-- 
2.43.0


From da6dd09f15b74a24fa938c2a476386cc0e23257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:04 +0000
Subject: [PATCH 65/71] fix: read Atom entries expanded to no entities

---
 pyslet/odata2/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 1497fdb..e018175 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3527,13 +3527,14 @@ class Link(atom.Link):
         if self.Inline is not None:
             target_entity_set = deferred.target()
             with target_entity_set.open() as collection:
+                # an empty element if there are no entities
+                entries = []
                 if self.Inline.Entry is not None:
                     entity = collection.new_entity()
                     entity.exists = exists
                     self.Inline.Entry.get_value(entity)
                     entries = [entity]
                 elif self.Inline.Feed is not None:
-                    entries = []
                     for entry in self.Inline.Feed.find_children_depth_first(
                             Entry, sub_match=False):
                         entity = collection.new_entity()
-- 
2.43.0


From 6cfdc6d1659a86ebf17bf774bf7514959805424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:23 +0000
Subject: [PATCH 66/71] fix: parse Cache-Control headers

---
 pyslet/http/messages.py | 45 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index f74b38b..1730615 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2629,7 +2629,7 @@ class CacheControl(params.Parameter):
     def from_str(cls, source):
         """Create a Cache-Control value from a *source* string."""
         p = HeaderParser(source)
-        cc = p.ParseCacheControl()
+        cc = p.require_cache_control()
         p.require_end("Cache-Control header")
         return cc
 
@@ -2875,6 +2875,49 @@ class HeaderParser(params.ParameterParser):
                 break
         return cls(*items)
 
+    def require_cache_control(self):
+        """Parses a :py:class:`CacheControl` instance
+
+        Raises BadSyntax if no directives were found.  Integer values
+        are returned as integers and the quoted lists of field names of
+        the no-cache and private directives as tuples, other values are
+        character strings."""
+        directives = []
+        self.parse_sp()
+        while self.the_word:
+            if self.parse_separator(COMMA):
+                # empty items are ignored
+                self.parse_sp()
+                continue
+            d = self.require_token("cache-directive").decode('ascii').lower()
+            self.parse_sp()
+            if self.parse_separator(EQUALS_SIGN):
+                self.parse_sp()
+                if self.is_integer():
+                    v = self.parse_integer()
+                elif self.is_token():
+                    v = self.parse_token().decode('ascii')
+                elif self.is_quoted_string():
+                    v = self.parse_quoted_string()
+                    if d in ("no-cache", "private"):
+                        p = HeaderParser(v)
+                        v = tuple(p.parse_tokenlist())
+                        p.require_end("field-name")
+                    else:
+                        v = v.decode('iso-8859-1')
+                else:
+                    self.parser_error("cache-directive value")
+                directives.append((d, v))
+                self.parse_sp()
+            else:
+                directives.append(d)
+            if self.the_word and not self.parse_separator(COMMA):
+                break
+            self.parse_sp()
+        if not directives:
+            raise grammar.BadSyntax("Expected cache-directive")
+        return CacheControl(*directives)
+
     def require_contentrange(self):
         """Parses a :py:class:`ContentRange` instance."""
         self.parse_sp()
-- 
2.43.0


From 3be237914b6053b50db979139576b7f593051203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:32 +0000
Subject: [PATCH 67/71] fix: hash media types, chunks and lists of methods and
 ranges

---
 pyslet/http/messages.py | 4 ++--
 pyslet/http/params.py   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1730615..67e88fd 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2541,7 +2541,7 @@ class AcceptRanges(params.SortableParameter):
         return self._ranges.__iter__()
 
     def sortkey(self):
-        return self._sorted
+        return tuple(self._sorted)
 
 
 class Allow(params.SortableParameter):
@@ -2583,7 +2583,7 @@ class Allow(params.SortableParameter):
         return self._methods.__iter__()
 
     def sortkey(self):
-        return self._sorted
+        return tuple(self._sorted)
 
 
 class CacheControl(params.Parameter):
diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 904c2b3..ac5c856 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -440,7 +440,8 @@ class Chunk(SortableParameter):
             self.extensions = self.bparameters(extensions)
         else:
             self.extensions = {}
-        self._cx = sorted((p[0], p[1][1]) for p in dict_items(self.extensions))
+        self._cx = tuple(
+            sorted((p[0], p[1][1]) for p in dict_items(self.extensions)))
 
     @classmethod
     def from_str(cls, source):
@@ -496,7 +497,8 @@ class MediaType(SortableParameter):
             self.parameters = self.bparameters(parameters)
         else:
             self.parameters = {}
-        self._hp = sorted((p[0], p[1][1]) for p in dict_items(self.parameters))
+        self._hp = tuple(
+            sorted((p[0], p[1][1]) for p in dict_items(self.parameters)))
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From a3c329bfa1b1bc29770864e7ad7b0129088d193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:57 +0000
Subject: [PATCH 68/71] fix: write elements and attributes with the prefix of
 their namespace

---
 pyslet/xml/namespace.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 25986f5..42eb391 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -149,14 +149,27 @@ class NSNode(Node):
         ei = self
         while ei is not None:
             ns = ei._prefix_to_ns.get(prefix, None)
-            if ns:
+            if ns is not None:
                 break
             if prefix == '':
                 ns = getattr(ei, 'default_ns', None)
                 if ns:
                     break
             ei = ei.parent
-        return ns
+        # an empty declaration hides any outer one
+        return ns or None
+
+    def get_attribute_prefix(self, ns):
+        """Returns the prefix to use for attributes in namespace *ns*
+
+        The default namespace does not apply to attributes so only
+        non-empty prefixes are considered.  If there isn't one then
+        None is returned."""
+        prefix_map = self.get_prefix_map()
+        for prefix in sorted(dict_keys(prefix_map)):
+            if prefix and prefix_map[prefix] == ns:
+                return prefix
+        return None
 
     def new_prefix(self, stem='ns'):
         """Return an unused prefix
@@ -453,6 +466,9 @@ class NSElement(NSNode, Element):
             else:
                 ns, aname = a
                 prefix = self.get_prefix(ns)
+                if prefix == '' and ns and ns != NO_NAMESPACE:
+                    # the default namespace doesn't apply to attributes
+                    prefix = self.get_attribute_prefix(ns)
             if prefix is None:
                 prefix = self.make_prefix(ns)
             if prefix:
@@ -481,9 +497,18 @@ class NSElement(NSNode, Element):
             prefix = self.get_prefix(self.ns)
             if prefix is None:
                 # We need to declare our namespace
-                prefix = self.make_prefix(self.ns, '')
+                if '' in self._prefix_to_ns:
+                    prefix = self.make_prefix(self.ns)
+                else:
+                    prefix = self.make_prefix(self.ns, '')
         else:
             prefix = ''
+            default_ns = self.get_prefix_map().get('', None)
+            if default_ns:
+                # we are not in the default namespace
+                if self._ns_to_prefix.get(default_ns, None) == '':
+                    del self._ns_to_prefix[default_ns]
+                self._prefix_to_ns[''] = ''
         if prefix:
             prefix = prefix + ':'
         self.write_xml_attributes(attributes, escape_function, root=root)
@@ -665,7 +690,7 @@ class XMLNSParser(XMLParser):
                 ns_uri = ns_defs.get('', None)
                 if ns_uri is None and context is not None:
                     ns_uri = context.get_ns('')
-                return (ns_uri, qname)
+                return (ns_uri or None, qname)
             else:
                 return (NO_NAMESPACE, qname)
         elif len(xname) == 2:
-- 
2.43.0


From d06661dee601f50be28fba8b958f6f88ad9ce923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:08 +0000
Subject: [PATCH 69/71] fix: give local file paths a separator of the type of
 their paths

---
 pyslet/vfs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 2ba73c6..9d0e4d4 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -465,7 +465,7 @@ class VirtualFilePath(SortableMixin):
         E.g., test that the path ends in a slash (last component is
         empty)."""
         return self.path.endswith(self.sep) or \
-            self.path.endswith(self.sep + self.curdir)
+            self.path.endswith(self.sep + self.path_str(self.curdir))
 
     def is_root(self):
         """Returns True if this is a root path.
@@ -959,8 +959,9 @@ class OSFilePath(VirtualFilePath):
     #: as returned by sys.getfilesystemencoding()
     codec = sys.getfilesystemencoding()
 
-    #: copied from os.sep
-    sep = os.sep
+    #: os.sep in the type of string used for paths
+    sep = ul(os.sep) if os.path.supports_unicode_filenames \
+        else os.sep.encode('ascii')
 
     #: copied from os.curdir
     curdir = os.curdir
-- 
2.43.0


From 053e8b16c621bbe1d3b0829129e073ae375f0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:22 +0000
Subject: [PATCH 70/71] fix: keep an empty fragment in the canonical form of a
 URI

---
 pyslet/rfc2396.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 2596688..0f30a7f 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1119,7 +1119,7 @@ class URI(CmpMixin, PEP8Compatibility):
         else:
             # we don't need to look inside the URI
             new_uri.append(self.octets)
-        if self.fragment:
+        if self.fragment is not None:
             new_uri.append('#')
             new_uri.append(self.fragment)
         return URI.from_octets(''.join(new_uri))
-- 
2.43.0


From dee437ef3335c0b35d02be5228cce45744da2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:22 +0000
Subject: [PATCH 71/71] fix: give HTTP URLs with no path the canonical path /

---
 pyslet/http/params.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index ac5c856..536bb61 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -253,11 +253,10 @@ class HTTPURL(uri.ServerBasedURL):
                 if port != self.DEFAULT_PORT:
                     new_uri.append(':')
                     new_uri.append("%i" % int(self.port))
-        if self.abs_path is not None:
-            if not self.abs_path:
-                new_uri.append("/")
-            else:
-                new_uri.append(uri.canonicalize_data(self.abs_path))
+        if self.abs_path:
+            new_uri.append(uri.canonicalize_data(self.abs_path))
+        elif self.abs_path is not None or self.authority is not None:
+            new_uri.append("/")
         elif self.rel_path is not None:
             new_uri.append(uri.canonicalize_data(self.rel_path))
         if self.query is not None:
-- 
2.43.0

