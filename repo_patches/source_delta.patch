From c8c7c63a6bc5f315bc82b209fea34349d97b8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 01/83] fix: keep the generation number of indirect references

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..1f7a617 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -179,7 +179,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From 2d4054670645433f3e30577e9ffe099ca7f55dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 02/83] fix: a backslash in a literal string escapes any
 following byte

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 1f7a617..f4e3b9a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -120,7 +120,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\':
                 i += 1
             elif single == b'(':
                 nested += 1
-- 
2.43.0


From 821f1cf1df2fc74ce131ed531cb19ddb9498725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:58 +0000
Subject: [PATCH 03/83] fix: a hexadecimal string has no escapes and ends at
 the first closing bracket

---
 pdfsyntax/objects.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index f4e3b9a..59850c5 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -129,11 +129,8 @@ def next_token(text: bytes, i=0) -> tuple:
             if nested == 0:
                 return (h, i + 1, 'STRING')
         elif search == "HSTRING":
-            if double == b'\\<' or double == b'\\>':
-                i += 1
-            else:
-                if single in b'>':
-                    return (h, i + 1, 'STRING')
+            if single == b'>':
+                return (h, i + 1, 'STRING')
         elif search == "KEYWORD":
             if single in (SPACE + DELIMITERS): #or i == len(text) - 1:
                 if b'true' == text[h:i]:
-- 
2.43.0


From 416c08f2f16cc97c49dbab591b6d5c99c51e68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:58 +0000
Subject: [PATCH 04/83] fix: strings and comments nested in arrays and
 dictionaries do not move their end

---
 pdfsyntax/docstruct.py |  2 +-
 pdfsyntax/graphics.py  |  2 +-
 pdfsyntax/objects.py   | 18 ++++++++++--------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..b285dcb 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -943,7 +943,7 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = True
     if font_desc['to_unicode']:
         cmap_stream = get_object(doc, font_desc['to_unicode'])
-        cmap = parse_obj(b'[' + cmap_stream['stream'] + b']')
+        cmap = parse_obj(b'[' + cmap_stream['stream'] + b'\n]')
         def dec_unicode_cmap(text):
             return apply_tounicode(cmap, text, simple)
         font_desc['dec_fun'] = dec_unicode_cmap
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..2462ae5 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -111,7 +111,7 @@ def parse_stream_content(content_stream: bytes) -> list:
     A command is a list made of operands followed by an operator, like [1, 0, 0, 1, 0, 0, 'cm']
     """
     ret = []
-    tokens = parse_obj(b'[' + content_stream + b']')
+    tokens = parse_obj(b'[' + content_stream + b'\n]')
     i = len(tokens) - 1
     section = None
     current = []
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 59850c5..4ca7c2f 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -67,7 +67,6 @@ def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -102,6 +101,11 @@ def next_token(text: bytes, i=0) -> tuple:
             elif single == b'%':
                 search = "COMMENT"
             h = i
+            if search == "DICT":
+                i += 1
+        elif search in ("DICT", "ARRAY") and (single in b'(%' or (single == b'<' and double != b'<<')):
+            _, i, _ = next_token(text, i) #skip nested string or comment
+            continue
         elif search == "DICT":
             if double == b'<<':
                 nested += 1
@@ -155,14 +159,12 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+            if single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
+            elif double == b'<<':
+                i += 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
         i += 1
@@ -314,7 +316,7 @@ def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
         i = eo
     actual_nb_obj = len(tokens) // 3
     actual_offset = tokens[2 * actual_nb_obj]
-    y_array = parse_obj(b'[' + data[:offset] + b']')
+    y_array = parse_obj(b'[' + data[:offset] + b'\n]')
     y_pos = [y+offset for j, y in enumerate(y_array) if j % 2]
     for x in range(actual_nb_obj):
         actual_pos = tokens[2 * actual_nb_obj + x]
-- 
2.43.0


From 950ca0002b9d853fa8f102a7ed3f2ebf4821da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:59 +0000
Subject: [PATCH 05/83] fix: advance over a stray closing square bracket

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 4ca7c2f..cf40557 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -73,7 +73,7 @@ def next_token(text: bytes, i=0) -> tuple:
         double = text[i:i+2]
         if search == "TBD":
             if single == b']':
-                return (h, i, None)
+                return (h, i+1, None)
             elif double == b'>>':
                 return (h, i+1, None)
             elif double == b'<<':
-- 
2.43.0


From 08b78ebd91bd35da3e82d8ba8829a8dd4b26fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:59 +0000
Subject: [PATCH 06/83] fix: recognise the ' and " operators

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index cf40557..06b4462 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -92,7 +92,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From 01b544cae935f9627b00bb19ae4151d3551413bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:22 +0000
Subject: [PATCH 07/83] fix: parse an object that ends with the data

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 06b4462..ff8e5be 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -205,6 +205,8 @@ def dedicated_type(text: bytes, type: str) -> Any:
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
+    if t1 is None and j1 == len(text): #the end of data also ends a token
+        h1, j1, t1 = next_token(text + b' ', start)
     obj = text[h1:j1]
     if t1 == 'DICT':
         res = {}
-- 
2.43.0


From cd296cc801e8f8c737d217511d31e403d8748461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:22 +0000
Subject: [PATCH 08/83] fix: parse an array or dictionary preceded by white
 space

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index ff8e5be..f042fad 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -220,7 +220,7 @@ def parse_obj(text: bytes, start=0) -> Any:
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
 
-        i = start + 2
+        i = h1 + 2
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
@@ -245,7 +245,7 @@ def parse_obj(text: bytes, start=0) -> Any:
         return res
     elif t1 == 'ARRAY':
         res = []
-        i = start + 1
+        i = h1 + 1
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
-- 
2.43.0


From e9814ebb202ec5f0fd567d39fd1484d3ac6fc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:23 +0000
Subject: [PATCH 09/83] fix: write reals without exponent

---
 pdfsyntax/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index f042fad..902207e 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -3,6 +3,7 @@
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
+from decimal import Decimal
 from .filters import *
 #from .filestruct import expand_xref_index
 
@@ -449,7 +450,10 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        s = f'{Decimal(repr(obj)):f}' #no exponent in PDF
+        if '.' not in s:
+            s += '.0'
+        return s.encode('ascii')
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From c93111b77ad983323c76006ea286471a7289958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:23 +0000
Subject: [PATCH 10/83] fix: write an empty stream as a stream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 902207e..ed13ad9 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -485,7 +485,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From b71ba1fcead313c8ba112460fca29993e3489d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:24 +0000
Subject: [PATCH 11/83] fix: accept any regular byte in names

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index ed13ad9..731a87a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -198,7 +198,7 @@ def dedicated_type(text: bytes, type: str) -> Any:
     elif type == 'FALSE':
         return False
     elif type == 'KEYWORD' or type == 'NAME':
-        return text.decode('ascii')
+        return text.decode('latin-1')
     else:
         return text
 
@@ -455,7 +455,7 @@ def to_str(obj) -> bytes:
             s += '.0'
         return s.encode('ascii')
     elif type(obj) == str:
-        return obj.encode('ascii')
+        return obj.encode('latin-1')
     elif type(obj) == complex:
         s = f'{int(obj.imag)} {int(obj.real)} R'
         return s.encode('ascii')
-- 
2.43.0


From 1583f4c1107179310d963446ff72a009bcdae73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:24 +0000
Subject: [PATCH 12/83] fix: write the exact /Length of a stream and trust it
 when it leads to endstream

---
 pdfsyntax/objects.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 731a87a..6bac981 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -34,9 +34,8 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
-    if '/Length' in entries and type(entries['/Length']) == int:
-        entries['/Length'] = length
+    length = len(encoded)
+    entries['/Length'] = length
     return length
 
 
@@ -216,7 +215,12 @@ def parse_obj(text: bytes, start=0) -> Any:
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
-            stream_encoded =  parse_obj(following_obj)
+            b = h2 + len(b'stream') + (2 if text[h2+6:h2+8] == b'\r\n' else 1)
+            length = stream_def.get('/Length')
+            if type(length) == int and length >= 0 and text[b+length:b+length+11].lstrip(EOL).startswith(b'endstream'):
+                stream_encoded = text[b:b+length]
+            else:
+                stream_encoded =  parse_obj(following_obj)
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
@@ -301,6 +305,8 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o = parse_obj(text, i)
     i, j, t = next_token(text, j)
     if t == 'STREAM':
+        if type(o) == Stream and o['encoded']:
+            j = text.find(b'endstream', i + len(b'stream') + len(o['encoded'])) + len(b'endstream')
         _, j, _ = next_token(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
-- 
2.43.0


From 512553228a5771cd651123ed27cc6f0c00468fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:47 +0000
Subject: [PATCH 13/83] fix: decode a chain of filters step by step and encode
 it in reverse order

---
 pdfsyntax/filters.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..529566a 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -32,6 +32,7 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
+    res = s
     if '/DecodeParms' not in stream_def:
         parms = [None] * len(filters)
     else:
@@ -41,7 +42,7 @@ def decode_stream(stream, stream_def):
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
-                res = zlib.decompress(s)
+                res = zlib.decompress(res)
                 if parms[i] and '/Predictor' in parms[i]:
                     predictor = int(parms[i]['/Predictor'])
                     columns = int(parms[i]['/Columns'])
@@ -50,12 +51,12 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                res = binascii.unhexlify(res)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                res = base64.a85decode(res, adobe=True)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
@@ -69,9 +70,9 @@ def encode_stream(stream, stream_def):
         return stream
     filters = stream_def['/Filter']
     if type(filters) == str:
-        filters = [filters]
+        filters = filters.split()
     res = stream
-    for _, f in enumerate(filters):
+    for _, f in enumerate(reversed(filters)):
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From 7ee34f59b473c460da9e7d79c2067f588cf30438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:47 +0000
Subject: [PATCH 14/83] fix: a filter that is neither a name nor an array is
 not supported

---
 pdfsyntax/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 529566a..e05b850 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -32,6 +32,8 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
+    elif type(filters) != list:
+        return b'#PDFSyntaxException: unsupported filter'
     res = s
     if '/DecodeParms' not in stream_def:
         parms = [None] * len(filters)
-- 
2.43.0


From 7450390c3183213207255df0cecd677bf16dc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:48 +0000
Subject: [PATCH 15/83] fix: ASCIIHex data may hold white space, an end marker
 and an odd number of digits

---
 pdfsyntax/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index e05b850..e4d2408 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -53,7 +53,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(res)
+                hexa = b''.join(res.split(b'>')[0].split())
+                res = binascii.unhexlify(hexa + b'0' * (len(hexa) % 2))
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
-- 
2.43.0


From c592e53824bf83cd41e251c5d1350de778c7ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:13 +0000
Subject: [PATCH 16/83] fix: octal escapes of 1 to 3 digits and line
 continuations in literal strings

---
 pdfsyntax/text.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..0073eb2 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -67,9 +67,16 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            if second and second in b'01234567':
+                n = 1
+                while n < 3 and string[i+n+1:i+n+2] and string[i+n+1:i+n+2] in b'01234567':
+                    n += 1
+                ret += bytes([int(string[i+1:i+1+n], 8) & 0xff])
+                i += n
+            elif string[i+1:i+3] == b'\r\n': #line continuation
+                i += 2
+            elif second == b'\r' or second == b'\n':
+                i += 1
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
-- 
2.43.0


From 70b4745b0c9e59fee974a700b321fe0456789496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:14 +0000
Subject: [PATCH 17/83] fix: decode hexadecimal strings of any letter case,
 spacing and length

---
 pdfsyntax/text.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 0073eb2..e0d8971 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -29,26 +29,23 @@ def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
     if string is None: return None
     res = ''
-    string = unescape_literal_string(string)
-    if string[0:1] == b'(': # Literal string
-        if string[1:3] == b'\xfe\xff': 
-            res = string[3:-1].decode('utf-16be')
+    if string[0:1] == b'(' or string[0:1] == b'<':
+        s = string_bytes(string)
+        if s[0:2] == b'\xfe\xff':
+            res = s[2:].decode('utf-16be')
         else:
-            s = string[1:-1]
-            # = s.replace(b'\x5c\x5c', b'\x5c') # x5c is backslash
-            # = s.replace(b'\x5c(', b'(')
-            # = s.replace(b'\x5c)', b')')
             res = decode_pdfdoc(s)
-    elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
-        else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
-            res = decode_pdfdoc(b)
     return res
 
 
+def string_bytes(string: bytes) -> bytes:
+    """Return the bytes denoted by a literal or hexadecimal string."""
+    if string[0:1] == b'<':
+        hexa = string[1:-1].translate(None, SPACE)
+        return bytes.fromhex((hexa + b'0' * (len(hexa) % 2)).decode('ascii'))
+    return unescape_literal_string(string[1:-1])
+
+
 def unescape_literal_string(string: bytes) -> bytes:
     """ """
     sequences = {
@@ -88,18 +85,13 @@ def unescape_literal_string(string: bytes) -> bytes:
 
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
-    s_string = string[1:-1]
-    if string[:1] == b'(':
-        s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
-    else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+    s_string = string_bytes(string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
-    s = string[1:-1]
-    s = unescape_literal_string(s)
+    s = string_bytes(string)
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-- 
2.43.0


From 37f14ac67b65d949b2a364e1e9d4f1ef2dc9ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:39 +0000
Subject: [PATCH 18/83] fix: an unescaped end of line in a literal string reads
 as a line feed

---
 pdfsyntax/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index e0d8971..ef2517d 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -77,6 +77,10 @@ def unescape_literal_string(string: bytes) -> bytes:
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
+        elif first == b'\r': #any unescaped end of line reads as a line feed
+            ret += b'\n'
+            if second == b'\n':
+                i += 1
         else:
             ret += first
         i += 1
-- 
2.43.0


From a186da1031d48187990baf641f30c988cb7b364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:39 +0000
Subject: [PATCH 19/83] fix: a range target keeps its own number of bytes

---
 pdfsyntax/text.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index ef2517d..4ba83b6 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -154,10 +154,7 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
                     else:
                         target = cmap[i+2][1:-1]
                         x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
+                        tokens[k] = bytes.fromhex(f'{x:0{len(target)}X}').decode('utf-16be')
             i += 3
             continue
         if section == 'RANGE' and cmap[i] == 'endbfrange':
-- 
2.43.0


From 8781bf157d4478ae10c39eb00aa8ffdb2b4d1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:40 +0000
Subject: [PATCH 20/83] fix: a ToUnicode map may declare nothing

---
 pdfsyntax/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 4ba83b6..352c220 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -109,6 +109,7 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
     word_l = 2 # in bytes
     section = None
     tokens = []
+    tokens_backup = []
     while i < len(cmap):
         if cmap[i] == 'begincodespacerange':
             #word_l = (len(cmap[i+1])-2) // 2
-- 
2.43.0


From f94c735bc66b7e1c8db398a07d9ef36d187c89ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:40 +0000
Subject: [PATCH 21/83] fix: use the declared default width of a font

---
 pdfsyntax/docstruct.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b285dcb..a1e91ac 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -878,9 +878,7 @@ def prepare_w(w, default_w):
     i = 0
     width = {}
     if not w:
-        def char_width_cid_default(character_num):
-            return 500
-        return char_width_cid_default
+        w = []
     while i < len(w):
         if type(w[i+1]) == list:
             current = w[i]
@@ -900,12 +898,12 @@ def prepare_w(w, default_w):
     return char_width_cid
 
 
-def prepare_widths(widths, first_char):
+def prepare_widths(widths, first_char, default_w=500):
     """Decode widths for simple fonts."""
     def char_width_table(character_num):
         offset = character_num-first_char
         if offset < 0 or offset >= len(widths):
-            return 500
+            return default_w
         else:
             return widths[offset]
     return char_width_table
@@ -926,7 +924,8 @@ def prepare_font(doc: Doc, iref) -> dict:
     widths = o.get('/Widths')
     descendant = o.get('/DescendantFonts')
     if widths:
-        font_desc['char_width'] = prepare_widths(get_object(doc, widths), get_object(doc, first_char))
+        missing = (get_object(doc, font_desc['descriptor']) or {}).get('/MissingWidth', 500)
+        font_desc['char_width'] = prepare_widths(get_object(doc, widths), get_object(doc, first_char), missing)
     elif descendant:
         iref = get_object(doc, descendant)[0]
         d = get_object(doc, iref)
-- 
2.43.0


From bbc7b24fee5b12842eda8d8ebacabe244a869c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:41 +0000
Subject: [PATCH 22/83] fix: do not duplicate the first command of a content
 stream

---
 pdfsyntax/graphics.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 2462ae5..6ce7c6d 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -124,8 +124,6 @@ def parse_stream_content(content_stream: bytes) -> list:
             continue
         if type(tokens[i]) != str or tokens[i][0:1] == '/':
             current = [tokens[i]] + current
-            if i == 0 and current:
-                ret.insert(0, current)
             i -= 1
             continue
             i -= 1
-- 
2.43.0


From 533068c804b385f8284fc8cdf73705afa6ed4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:01 +0000
Subject: [PATCH 23/83] fix: null is an operand

---
 pdfsyntax/graphics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 6ce7c6d..ded1515 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -116,13 +116,13 @@ def parse_stream_content(content_stream: bytes) -> list:
     section = None
     current = []
     while i >= 0:
-        if type(tokens[i]) == str and tokens[i][0:1] != '/':
+        if type(tokens[i]) == str and tokens[i][0:1] != '/' and tokens[i] != 'null':
             if current:
                 ret.insert(0, current)
             current = [tokens[i]]
             i -= 1
             continue
-        if type(tokens[i]) != str or tokens[i][0:1] == '/':
+        else:
             current = [tokens[i]] + current
             i -= 1
             continue
-- 
2.43.0


From 6804aff7ce304f5d91799e5abab418ae414490fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:02 +0000
Subject: [PATCH 24/83] fix: an empty subsection holds no object

---
 pdfsyntax/objects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6bac981..24c3582 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -369,9 +369,8 @@ def expand_xref_index(xref_index: list) -> list:
     while i < len(xref_index):
         o_num = xref_index[i]
         i += 1
-        res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
-            res.append((o_num+j+1, subsection))
+        for j in range(xref_index[i]):
+            res.append((o_num+j, subsection))
         i += 1
         subsection += 1
     return res
-- 
2.43.0


From ab711e6214f399ed3a846f3aff8b52f09f472c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:02 +0000
Subject: [PATCH 25/83] fix: entries of a cross-reference stream without type
 field are in use

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 24c3582..c3561e4 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -396,6 +396,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if cols[0] == 0: #type field is absent
+            params[0] = 1
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From 985e0ea7cc198a0a5670266e1c5aa6867221d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:03 +0000
Subject: [PATCH 26/83] fix: the trailer dictionary may start on the line of
 its keyword

---
 pdfsyntax/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c3561e4..97e4840 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -356,6 +356,7 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
+    _, el, _ = next_token(bdata, bl) #b'trailer'
     bl, bf, _l = next_token(bdata, el)
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
-- 
2.43.0


From 5e51050f6a564916f6afbd3322e20d7ebe027e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:03 +0000
Subject: [PATCH 27/83] fix: entries of a cross-reference table are 20 bytes
 long

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..738b827 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -408,10 +408,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From 5e646ea5e9ae3ddd9b6076ab7badd441302a7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:28 +0000
Subject: [PATCH 28/83] fix: fields of a cross-reference stream are wide enough
 for every value

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 738b827..5ffe735 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -445,8 +445,8 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     index = []
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
-    max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
+    max_value = max([x for e in elems for x in e[1:] if x is not None]) + 1
+    b = (max_value.bit_length() + 7) // 8
     trailer['/W'] = [1, b, b]
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-- 
2.43.0


From 98e5bbcc7e06dc4f8208db71d0762bf86b570de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 29/83] fix: the cross-reference stream lists itself in order

---
 pdfsyntax/filestruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5ffe735..5b77ff1 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -576,6 +576,8 @@ def build_revision_byte_stream(
                 new_index[num]['abs_pos'] = counter
                 new_index[num]['abs_next'] = counter + len(block)
                 counter += len(block)
+    if xref_stream_num:
+        xref_table.append(('n', xref_stream_num, 0, counter, None))
     xref_table.sort(key=lambda xr: xr[1])
     if not xref_stream_num:
         #cache[0]['/Size'] = len(current_index)
@@ -584,7 +586,6 @@ def build_revision_byte_stream(
         new_index[0]['abs_pos'] = counter + built_xref.rfind(b'trailer')
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
-        xref_table.append(('n', xref_stream_num, 0, counter, None))
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
         new_index[xref_stream_num]['abs_next'] = counter + len(block)
-- 
2.43.0


From 3462676253a10fad62346ff4378390598473d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 30/83] fix: a revision with a cross-reference stream may hold
 deletions only

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5b77ff1..b5bc2a5 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -588,7 +588,7 @@ def build_revision_byte_stream(
     else:
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From b1a3da5d601f0b365f9599b7004ce47725a89994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:30 +0000
Subject: [PATCH 31/83] fix: rebuild the content of an object stream from the
 objects it now holds

---
 pdfsyntax/filestruct.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index b5bc2a5..7a63034 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -500,11 +500,14 @@ def append_to_stream_fragment(num, obj, envelope):
     """Concatenate object at the end of stream."""
     ser = serialize(obj) + b'\n'
     entries = envelope['entries'].copy()
-    if '/FirstLine' not in entries:
+    content = envelope['stream']
+    if '/FirstLine' not in entries: #start a new content
         entries['/FirstLine'] = []
-    entries['/FirstLine'].append(num)
-    entries['/FirstLine'].append(len(envelope['stream']))
-    new_ser = envelope['stream'] + ser
+        entries.pop('/First', None)
+        entries.pop('/N', None)
+        content = b''
+    entries['/FirstLine'] = entries['/FirstLine'] + [num, len(content)]
+    new_ser = content + ser
     #Do not encode/forge this temporary Stream yet
     envelope = Stream(entries, new_ser, None)
     return envelope
@@ -522,13 +525,12 @@ def finalize_stream(envelope):
     header = b''
     entries = envelope['entries'].copy()
     if '/First' not in entries and '/N' not in entries:
-        tokens = entries['/FirstLine']
+        tokens = entries.pop('/FirstLine', [])
         for i in tokens:
             header += f'{i} '.encode('ascii')
         header += b'\n'
         entries['/First'] = len(header)
         entries['/N'] = len(tokens) // 2
-        del entries['/FirstLine']
     entries['/Length'] = -1
     new_ser = header + envelope['stream']
     envelope, _ = forge_stream(entries, new_ser)
@@ -570,6 +572,7 @@ def build_revision_byte_stream(
                 obj = cache[num]
                 if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
                     obj = finalize_stream(obj)
+                    cache[num] = obj
                 block = serialize_fragment(num, o_gen, obj)
                 fragments.append(block)
                 xref_table.append(('n', num, o_gen, counter, env_num))
-- 
2.43.0


From 8dfccf2c626d0c9c120896ed991634f8f1dcf7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:03 +0000
Subject: [PATCH 32/83] fix: an indirect object may be a reference

---
 pdfsyntax/objects.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 97e4840..93447a2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -288,6 +288,12 @@ def parse_obj(text: bytes, start=0) -> Any:
         return s
     elif t1 == 'COMMENT':
         return ''
+    elif t1 == 'INTEGER':
+        h2, j2, t2 = next_token(text, j1)
+        h3, j3, _ = next_token(text, j2)
+        if t2 == 'INTEGER' and text[h3:j3] == b'R':
+            return replace_ref([int(text[h1:j1]), int(text[h2:j2]), 'R'])[0]
+        return int(text[h1:j1])
     else:
         return dedicated_type(text[h1:j1], t1)
 
@@ -303,6 +309,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     i, j, _ = next_token(text, j2) #obj
     i, j, _ = next_token(text, j) #object1
     o = parse_obj(text, i)
+    if type(o) == complex:
+        _, j, _ = next_token(text, j) #gen
+        _, j, _ = next_token(text, j) #R
     i, j, t = next_token(text, j)
     if t == 'STREAM':
         if type(o) == Stream and o['encoded']:
@@ -321,7 +330,10 @@ def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     tokens = []
     while i < len(data):
         bo, eo, typ = next_token(data, i)
-        tokens.append(bo)
+        if typ == 'KEYWORD' and data[bo:eo] == b'R': #a reference is made of 3 tokens
+            tokens.pop()
+        elif typ != 'COMMENT':
+            tokens.append(bo)
         i = eo
     actual_nb_obj = len(tokens) // 3
     actual_offset = tokens[2 * actual_nb_obj]
-- 
2.43.0


From d065c67b1f2c1aaf387f02ad5662a0890b7056c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:20 +0000
Subject: [PATCH 33/83] fix: objects freed by a revision read as deleted

---
 pdfsyntax/filestruct.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 7a63034..be78b54 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -178,6 +178,8 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             offset, o_num, o_gen, keyword = line
             if keyword != b'f' and o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
+            elif o_num != 0:
+                xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
     trailer = {
@@ -216,6 +218,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -309,7 +312,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max([i['o_num'] for xref_index in chrono for i in xref_index])
     return chrono, nxt, nb
 
 
@@ -346,7 +349,9 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
-            if m[obj['o_num']] is None:
+            if m[obj['o_num']] is None and 'DELETED' in obj:
+                continue
+            elif m[obj['o_num']] is None:
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
             else:
@@ -365,7 +370,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -635,7 +640,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -655,7 +660,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From b413e6fe545f943e4ba36fb52719446e455a9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:55 +0000
Subject: [PATCH 34/83] fix: browse files with dangling references or objects
 without cross-reference

---
 pdfsyntax/api.py     |  8 +++++++-
 pdfsyntax/display.py | 13 ++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..05d1131 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -453,12 +453,18 @@ def cross_map_index(sections, index):
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
+        if relevance is None: #not indexed
+            continue
         _, ver = relevance
         if ver < len(index) - 1:
             continue
         for target in targets:
             target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
+            if target_num >= len(index[-1]) or not index[-1][target_num]:
+                continue
+            target_pos = index[-1][target_num].get('abs_pos')
+            if target_pos not in ret: #dangling reference
+                continue
             _, _, _, target_used_by = ret[target_pos]
             target_used_by.append((o_num, abs_pos))
     return ret
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..f7dd827 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -219,7 +219,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
             _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            _, ver = relevance or (None, -1)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
                 page += follow_obj(o, index[ver], display_stream=False)
@@ -480,7 +480,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
+        abs_pos = index[o_num].get('abs_pos') if o_num < len(index) and index[o_num] else None
         ret += f'<a href="#idx{abs_pos}">'
         ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
         ret += '</a>'
@@ -573,9 +573,12 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<pre>\n'
     elif type(pos) == int:
         _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        if relevance:
+            o_num, ver = relevance
+            o_gen = index[ver][o_num]['o_gen']
+            o_ver = index[ver][o_num]['o_ver']
+        else: #not indexed
+            o_num, o_gen, o_ver = obj['o_num'], obj['o_gen'], 0
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
-- 
2.43.0


From 216203dfe8e9d4b23daf3a0a292d1b0fa3774bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:56 +0000
Subject: [PATCH 35/83] fix: keep the entries of the table of a hybrid section

---
 pdfsyntax/filestruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index be78b54..ce24fdb 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -333,6 +333,9 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             p = deepcopy(p)
             p[0]['xref_stm'] = True
             p[0]['abs_pos'] = x[0]['abs_pos']
+            p[0]['xref_table_pos'] = x[0]['xref_table_pos']
+            used = [obj['o_num'] for obj in x[1:-1] if 'DELETED' not in obj]
+            p[1:] = x[1:-1] + [obj for obj in p[1:] if obj['o_num'] not in used]
             new_xref_seq[-1] = p
         else:
             new_xref_seq.append(x)
-- 
2.43.0


From b21fe476f432db29f6a13cb1f95266d62b082c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:56 +0000
Subject: [PATCH 36/83] fix: positions outside of the data are not folded back
 into it

---
 pdfsyntax/filestruct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ce24fdb..3968bd0 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -31,7 +31,8 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % len(bdata)
+            i = start_pos if start_pos >= 0 else start_pos + len(bdata)
+            i = min(max(i, 0), len(bdata))
             if length == -1:
                 nb_read = len(bdata) - i
             else:
@@ -45,7 +46,8 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
+            i = start_pos if start_pos >= 0 else start_pos + file_size
+            i = min(max(i, 0), file_size)
             if length == -1:
                 nb_read = file_size - i
             else:
-- 
2.43.0


From 2b6167a486e1b3c0c4ffb582362aef7f03782d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:57 +0000
Subject: [PATCH 37/83] fix: continuous access gives the index into the buffer
 and the offset of the buffer

---
 pdfsyntax/filestruct.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 3968bd0..5b7da30 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -54,7 +54,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
@@ -99,7 +99,7 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i:i+LN]
+        l = buf[i-i0:i-i0+LN]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
@@ -272,14 +272,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             xrefstm = False
         elif prev:
             xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
@@ -290,7 +292,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_token(bdata, a0) #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_token(bdata, j)       #o_ver
             i, j, _ = next_token(bdata, j)       #b'obj'
@@ -396,7 +398,7 @@ def eof_cut(eof_index: int, fdata: Callable) -> int:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return eof_index + i - start
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From 78d22b17e3af3c9eb3588cf6b0cfb899d6a429ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:36 +0000
Subject: [PATCH 38/83] fix: a composite data source serves any position

---
 pdfsyntax/docstruct.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a1e91ac..c74a479 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -527,20 +527,19 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
             #_, _, _, sz = fdata(None, -1)
             sz = index
             return (None, None, None, sz + len(bdata))
-        if start_pos > index:
-            start_pos = start_pos - index
-            #if start_pos == -1 and length == 0:
-            #    return (None, None, None, len(bdata))
-            if length == -1:
-                length = len(bdata) - start_pos
-            if start_pos == -1:
-                i = len(bdata) - length
-            else:
-                i = start_pos
-            return (bdata, i, 0, min(len(bdata) - start_pos, length))
-            #return (bdata, i, index, min(len(bdata) - start_pos, length)) #TODO
-        else:
-            return fdata(start_pos, length)
+        total = index + len(bdata)
+        if start_pos < 0:
+            start_pos = start_pos + total
+        start_pos = min(max(start_pos, 0), total)
+        if length == -1 or length > total - start_pos:
+            length = total - start_pos
+        if start_pos >= index:
+            i = start_pos - index
+            return (bdata, i, index, length)
+        buf, i, o, n = fdata(start_pos, min(length, index - start_pos))
+        if start_pos + length > index: #the request straddles both parts
+            buf, i, o = buf[i:i+n] + bdata, 0, start_pos
+        return (buf, i, o, length)
     return composite_fdata
 
 
-- 
2.43.0


From c9f69e2647e625900aca451a1818da6211029abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:36 +0000
Subject: [PATCH 39/83] fix: in-memory data follows the conventions of other
 data sources

---
 pdfsyntax/filestruct.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5b7da30..a22c319 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -60,17 +60,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
 
 def bdata_dummy(bdata: bytes):
     """ """
-    def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
-            return (None, None, None, len(bdata))
-        if length == -1:
-            length = len(bdata) - start_pos
-        if start_pos == -1:
-            i = len(bdata) - length
-        else:
-            i = start_pos
-        return (bdata, i, 0, min(len(bdata) - start_pos, length))
-    return dummy_load
+    return bdata_provider(bdata)
 
 
 def bdata_length(bdata: Callable) -> int:
-- 
2.43.0


From 66eb0e80517835dc8b0a4aac309d1df08d5b468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:37 +0000
Subject: [PATCH 40/83] fix: always close the last revision of a file that is
 read

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c74a479..801b048 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -546,7 +546,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
 def commit(doc: Doc) -> Doc:
     """Add new index for incremental update."""
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and 'eof_cut' not in doc.data[-1]:
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
-- 
2.43.0


From c1c9f1b51b15457ebd32ab80ff7d1c326e88c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:37 +0000
Subject: [PATCH 41/83] fix: do not write into the index and cache of the given
 document

---
 pdfsyntax/docstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 801b048..6f3d65d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -410,6 +410,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         elif current[o]['o_gen'] != 0:
             continue
         # TODO Add another elif for encryption dict
+        current[o] = current[o].copy()
         current[o]['env_num'] = env_num
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
@@ -560,6 +561,7 @@ def commit(doc: Doc) -> Doc:
         new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
+            new_doc.index[-1][0] = new_doc.index[-1][0].copy()
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
             new_doc.index[-1][0]['xref_stream_num'] = x_num
@@ -685,6 +687,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
     if filt:
+        new_doc.cache[0] = new_doc.cache[0].copy()
         new_doc.cache[0]['/Filter'] = filt
     return new_doc
 
-- 
2.43.0


From ae8f8ebb3034b3204faf02a57c8c6eb577c75212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:38 +0000
Subject: [PATCH 42/83] fix: attributes inherited by pages do not leak into
 later calls

---
 pdfsyntax/docstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6f3d65d..e4fbd31 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -302,9 +302,10 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    inherited = dict(inherited or {})
     if num:
         node = get_object(doc, num)
     else:
-- 
2.43.0


From 43c1cbf30ed28e2ee68e851735d2515a52b3e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:38 +0000
Subject: [PATCH 43/83] fix: page tree nodes may refer to their kids and count
 indirectly

---
 pdfsyntax/docstruct.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e4fbd31..b8968cd 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -311,7 +311,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     else:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
+        for kid in get_object(doc, node['/Kids']):
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
@@ -493,7 +493,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
@@ -793,14 +793,15 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
+        kids = get_object(new_doc, new_parent['/Kids'])
         kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
+        new_parent['/Kids'] = kids
+        new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         while '/Parent' in new_parent:
             p = new_parent['/Parent']
             new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
     for ref in del_dep - keep_dep:
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
-- 
2.43.0


From 780b371764e123098abc5b97e59f841e5335e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:39 +0000
Subject: [PATCH 44/83] fix: list no more pages than asked for

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b8968cd..1cc270b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -315,8 +315,8 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
-            if max_nb is not None and len(accu) == max_nb:
-                return accu
+            if max_nb is not None and len(accu) >= max_nb:
+                return accu[:max_nb]
         return accu
     elif node['/Type'] == '/Page':
         return[(num, inherited)]
-- 
2.43.0


From 10f9045414d36835643bbde3f251b51d0185c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:05 +0000
Subject: [PATCH 45/83] fix: loading an object stream does not overwrite newer
 objects

---
 pdfsyntax/docstruct.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 1cc270b..2cfb8ab 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -275,12 +275,16 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            if o_num >= len(idx[rev]) or (idx[rev][o_num] or {}).get('env_num') != container:
+                continue #superseded
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
-- 
2.43.0


From 4be341eddaa2c353f90bcaf3b2e8217a95f0d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:06 +0000
Subject: [PATCH 46/83] fix: a reference to a missing object reads as missing

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 2cfb8ab..7cc0bca 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -292,6 +292,8 @@ def get_object(doc: Doc, obj):
     """Return raw object or the target of an indirect reference."""
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
+        if ref >= len(doc.index[-1]) or doc.index[-1][ref] is None or 'DELETED' in doc.index[-1][ref]:
+            return None
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
         return deepcopy(res[ref])
     else: 
-- 
2.43.0


From 023ac617083a5a29756db5dbcb23bab09677af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:06 +0000
Subject: [PATCH 47/83] fix: follow cyclic references and stream dictionaries
 when looking for dependencies

---
 pdfsyntax/docstruct.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7cc0bca..740ab06 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -750,23 +750,30 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
+def dependencies(doc: Doc, obj: Any, seen=None) -> set:
     """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
+    if seen is None:
+        seen = set()
+    if type(obj) == Stream:
+        return dependencies(doc, obj['entries'], seen)
+    elif type(obj) == dict:
         res = set()
         for k, v in obj.items():
             if k == '/Parent' or k == '/P':
                 continue
-            res = res | dependencies(doc, v)
+            res = res | dependencies(doc, v, seen)
         return res
     elif type(obj) == list:
         res = set()
         for i in obj:
-            res = res | dependencies(doc, i)
+            res = res | dependencies(doc, i, seen)
         return res
     elif type(obj) == complex:
         res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
+        if obj in seen:
+            return res
+        seen.add(obj)
+        res = res | dependencies(doc, get_object(doc, obj), seen)
         return res
     else:   
         return set()
-- 
2.43.0


From 4d749a9b40e017b95e5a52a64cadf5462d58fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:07 +0000
Subject: [PATCH 48/83] fix: removing pages keeps the objects that remaining
 pages inherit

---
 pdfsyntax/docstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 740ab06..2f760ef 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -797,12 +797,15 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     pages = flat_page_tree(new_doc)
     del_ref = {pages[p][0] for p in del_pages}
     keep_ref = {p[0] for p in pages} - del_ref
+    keep_attr = [p[1] for p in pages if p[0] in keep_ref]
     del_dep = set()
     keep_dep = set()
     for i in del_ref:
         del_dep = del_dep | dependencies(new_doc, i)
     for i in keep_ref:
         keep_dep = keep_dep | dependencies(new_doc, i)
+    for attr in keep_attr:
+        keep_dep = keep_dep | dependencies(new_doc, attr)
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From 6f9c5c1beff61f8dfbbd5c55fb2819ba0cc86e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:07 +0000
Subject: [PATCH 49/83] fix: retarget references in stream dictionaries

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 93447a2..303953f 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -527,6 +527,8 @@ def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
     if type(obj) == complex:
         if obj in mapping:
             return mapping[obj]
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     elif type(obj) == dict:
         for k in obj:
             obj[k] = deep_ref_retarget(obj[k], mapping)
-- 
2.43.0


From 76aaf4ff1f331d41158c16fe3ac9bdf6a1544481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:47 +0000
Subject: [PATCH 50/83] fix: squash a document with object numbers that are not
 in use

---
 pdfsyntax/docstruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 2f760ef..5b1b5ca 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -389,7 +389,7 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
-        env_num = x.get('env_num')
+        env_num = x.get('env_num') if x else None
         if env_num:
             if env_num not in res:
                 res[env_num] = []
@@ -425,7 +425,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return {o.get('env_num') for o in doc.index[-1][1:] if o and o.get('env_num')}
 
 
 def version(doc: Doc) -> str:
@@ -842,7 +842,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if o is None or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
-- 
2.43.0


From 2a270186a9f1b9cb0d55ada1df506b880aac559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:48 +0000
Subject: [PATCH 51/83] fix: squash drops the previous object and
 cross-reference streams

---
 pdfsyntax/docstruct.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 5b1b5ca..9e74b08 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -856,6 +856,11 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
                 del new_o['abs_pos']
             if 'abs_next' in new_o:
                 del new_o['abs_next']
+            if 'env_num' in new_o:
+                del new_o['env_num']
+            if 'o_pos' in new_o:
+                del new_o['o_pos']
+            new_o['o_num'] = nb
             new_index.append(new_o)
             new_ref = complex(0, nb) 
             if old_ref != new_ref:
@@ -871,9 +876,10 @@ def squash(doc: Doc) -> Doc:
     else: #TODO
         xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
+    xref_stms = {o.get('xref_stream_num') for i in doc.index for o in (i[0] if type(i[0]) == list else [i[0]])}
+    new_index, mapping = defragment_map(old_index, obj_stms | xref_stms)
     if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
     new_cache[0] = {'/Root': trailer(doc)['/Root']}
-- 
2.43.0


From 59b838cc01cc2be2577dc42cf7732d0b8c6db4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:48 +0000
Subject: [PATCH 52/83] fix: squash keeps the document information

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9e74b08..3e63a85 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -882,7 +882,7 @@ def squash(doc: Doc) -> Doc:
         new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
+    new_cache[0] = {k: v for k, v in trailer(doc).items() if k in ('/Root', '/Info', '/ID')}
     new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
-- 
2.43.0


From b57ed8587f131494dbe81b78b2cc1d4c1d3589e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:49 +0000
Subject: [PATCH 53/83] fix: save and restore the text state with the graphics
 state

---
 pdfsyntax/graphics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index ded1515..8aee8dc 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -51,9 +51,12 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
     current_state = graphics_state_stack[-1]
     if command[-1] == 'q':
         state_backup = deepcopy(current_state)
+        current_state['text'] = {k: v for k, v in text_state.items() if k not in ('tm', 'tlm')}
         graphics_state_stack.append(state_backup)
     elif command[-1] == 'Q':
         graphics_state_stack.pop()
+        if graphics_state_stack:
+            text_state.update(graphics_state_stack[-1].pop('text', {}))
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
-- 
2.43.0


From cec5a951ded43fbe86ae6c37a53c30b3a590c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:49 +0000
Subject: [PATCH 54/83] fix: detect a reference that stands alone

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 303953f..09f8006 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -543,7 +543,7 @@ def deep_ref_detect(obj: Any, l = None) -> set:
     if l is None:
         l = set()
     if type(obj) == complex:
-        return l.add(obj)
+        l.add(obj)
     elif type(obj) == Stream:
             deep_ref_detect(obj['entries'], l)
     elif type(obj) == dict:
-- 
2.43.0


From aca9d8ecba1dbd51176d2d69577f1db1697d5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:04 +0000
Subject: [PATCH 55/83] fix: an update of a linearized file refers to its last
 cross-reference section

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3e63a85..75e364a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -597,7 +597,7 @@ def commit(doc: Doc) -> Doc:
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
     if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
+        new_trailer['/Prev'] = new_doc.index[-2][0][-1].get('xref_table_pos') or new_doc.index[-2][0][-1].get('xref_stream_pos')
     else:
         new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
-- 
2.43.0


From 8093147135af106b65bc72b901ed32fe6a922443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:04 +0000
Subject: [PATCH 56/83] fix: a first revision written from scratch has no
 previous section

---
 pdfsyntax/docstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 75e364a..d4d3361 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -574,6 +574,9 @@ def commit(doc: Doc) -> Doc:
             new_doc.index[-1][0]['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
+    if nb_rev == 1 and 'eof_cut' not in doc.data[-1]: #first revision is written from scratch
+        new_doc.cache[0].pop('/Prev', None)
+        new_doc.cache[0].pop('/XRefStm', None)
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
     if 'eof_cut' not in new_doc.data[-1]:
         if nb_rev == 1:
-- 
2.43.0


From 15ce3882d9fa25140071c45ef35e0d30a0541a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:16 +0000
Subject: [PATCH 57/83] fix: imported pages keep their own inherited attributes
 and refer to their parent

---
 pdfsyntax/docstruct.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d4d3361..33c7936 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -735,12 +735,28 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     for iref in objs:
         mapping[iref] = ir
         ir += 1j
+    for num in range(1, len(source_doc.index[-1])):
+        iref = get_iref(source_doc, num)
+        if iref not in mapping: #deleted
+            mapping[iref] = 'null'
     for iref in objs:
         obj = get_object(source_doc, iref)
         new_obj = deep_ref_retarget(obj, mapping)
         new_doc, _ = add_object(new_doc, new_obj, immut=False)
     pages_iref = cat['/Pages']
     pages = get_object(new_doc, pages_iref)
+    if any(pages.get(attr) is not None for attr in INHERITABLE_ATTRS): #must not reach the imported pages
+        root = {'/Type': '/Pages', '/Kids': [pages_iref], '/Count': pages['/Count']}
+        new_doc, root_iref = add_object(new_doc, root, immut=False)
+        pages['/Parent'] = root_iref
+        new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+        cat['/Pages'] = root_iref
+        new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
+        pages_iref, pages = root_iref, root
+    source_root_iref = mapping[source_pages_iref]
+    source_root = get_object(new_doc, source_root_iref)
+    source_root['/Parent'] = pages_iref
+    new_doc = update_object(new_doc, int(source_root_iref.imag), source_root, immut=False)
     pcount = get_object(new_doc, pages['/Count'])
     kids = get_object(new_doc, pages['/Kids'])
     if target_left:
-- 
2.43.0


From c88652e78600858dbead98d42dab8da1cca9d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:16 +0000
Subject: [PATCH 58/83] fix: squash turns dangling references into null

---
 pdfsyntax/docstruct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 33c7936..e271460 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -902,10 +902,13 @@ def squash(doc: Doc) -> Doc:
     new_cache = len(new_index) * [None]
     new_data = [{}]
     new_cache[0] = {k: v for k, v in trailer(doc).items() if k in ('/Root', '/Info', '/ID')}
+    kept = {x['OLD_REF'] for x in new_index[1:]}
+    objs = [new_cache[0]] + [get_object(doc, x['OLD_REF']) for x in new_index[1:]]
+    for ref in deep_ref_detect(objs) - kept: #dangling
+        mapping[ref] = 'null'
     new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
     for i in range(1, len(new_index)):
-        old_ref = new_index[i]['OLD_REF']
-        obj = get_object(doc, old_ref)
+        obj = objs[i]
         obj = deep_ref_retarget(obj, mapping)
         new_cache[i] = obj
     new_doc = Doc([new_index], new_cache, new_data)
-- 
2.43.0


From cb54ff5ae1419df095b626e52608798c5318b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:17 +0000
Subject: [PATCH 59/83] fix: do not recompress a stream that could not be
 decoded

---
 pdfsyntax/api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 05d1131..0d9774c 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -216,14 +216,13 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
     for o_num in streams:
         o = doc.obj(o_num)
         entries = o['entries']
+        if o['stream'].startswith(b'#PDFSyntaxException'):
+            continue
         if '/Filter' in entries:
             if entries['/Filter'] == flt:
                 continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
         entries = deepcopy(entries)
+        entries.pop('/DecodeParms', None)
         if '/Filter' in entries and flt == '':
             del entries['/Filter']
         else:
-- 
2.43.0


From e5d94a1135a49812624a0be6b06c6e31c30edec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:35 +0000
Subject: [PATCH 60/83] fix: an annotation carries any text

---
 pdfsyntax/api.py  | 2 +-
 pdfsyntax/text.py | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 0d9774c..ce4bd00 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -238,7 +238,7 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': encode_text_string(text),
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 352c220..3706ae9 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -25,6 +25,15 @@ def decode_pdfdoc(string: bytes) -> str:
     return ''.join(chars)
 
 
+def encode_text_string(text: str) -> bytes:
+    """Transform a text into a string object."""
+    if text.isascii() and all(c.isprintable() or c in '\n\t' for c in text):
+        for c in '\\()':
+            text = text.replace(c, '\\' + c)
+        return b'(' + text.encode('ascii') + b')'
+    return b'<FEFF' + asciihex(text.encode('utf-16be')) + b'>'
+
+
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
     if string is None: return None
-- 
2.43.0


From 14cb7ac0fce68cbfbbcc302135f1581be8d01c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:35 +0000
Subject: [PATCH 61/83] fix: add an annotation to an array that is part of the
 page

---
 pdfsyntax/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index ce4bd00..3139657 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -248,6 +248,9 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         annot_obj = new_page['/Annots']
         new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
+        if type(annot_obj) != complex: #array within the page
+            new_page['/Annots'] = new_array
+            return update_object(doc, int(page_ref.imag), new_page)
         doc = update_object(doc, int(annot_obj.imag), new_array)
     else:
         annot_array = [a_iref]
-- 
2.43.0


From 8e1f6a74202ec9b5ac0a2b49d5861822dc513dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:35 +0000
Subject: [PATCH 62/83] fix: rotate a page whose rotation is an indirect object

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 3139657..c822cb5 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -193,7 +193,7 @@ def rotate(doc: Doc, degrees: int = 90, pages: list = []) -> Doc:
     a = [(i ,x[1]) for i, x in enumerate(pl) if i in work_pages]
     c = flat_page_tree(doc)
     for nb, old_degrees in a:
-        old_degrees = old_degrees or 0
+        old_degrees = get_object(doc, old_degrees) or 0
         iref = c[nb][0]
         obj = deepcopy(get_object(doc, iref))
         obj['/Rotate'] = (old_degrees + degrees) % 360
-- 
2.43.0


From 7b067958c599e1121dbda82357228ceaab53738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:36 +0000
Subject: [PATCH 63/83] fix: fonts of inherited or indirect resources

---
 pdfsyntax/docstruct.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e271460..cf02235 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1010,10 +1010,9 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     for page_num in page_nums:
         fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
+        resources = pages(doc)[page_num].get('/Resources')
         if resources:
-            fonts = get_object(doc, resources)['/Font']
+            fonts = get_object(doc, get_object(doc, resources).get('/Font')) or {}
         for font in fonts:
             font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
-- 
2.43.0


From 8c0d26b9b068ad7bf43272ef35dce0ed1f899d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:49 +0000
Subject: [PATCH 64/83] fix: lay out text when no usual spacing or width is
 known

---
 pdfsyntax/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..f615301 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -11,9 +11,9 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs)
+    spacing = typical_line_spacing(text_blocks, fs) or 1
     #print(f"spacing = {spacing}")
-    char_w = typical_char_width(text_blocks, fs)
+    char_w = typical_char_width(text_blocks, fs) or 1
     #print(f"char w = {char_w}")
     previous_y = -1
     while text_blocks:
-- 
2.43.0


From 9aec8c0f7cab11ae47275ae807ff7094414769fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:25 +0000
Subject: [PATCH 65/83] fix: escape file content in the HTML view

---
 pdfsyntax/display.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index f7dd827..d94fa94 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -290,7 +290,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{html.escape(str(q))}</a> {html.escape(str(t))}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
@@ -323,8 +323,8 @@ def build_nav_info(structure, file_size) -> str:
     ret += '<pre class="b2">\n'
     ret += '<ul>'
     attrs = []
-    attrs.append(f'{"Version: ":{INFO_MAX_WIDTH}}{structure["Version"]}')
-    attrs.append(f'{"Page(s): ":{INFO_MAX_WIDTH}}{structure["Pages"]}')
+    attrs.append(f'{"Version: ":{INFO_MAX_WIDTH}}{html.escape(structure["Version"])}')
+    attrs.append(f'{"Page(s): ":{INFO_MAX_WIDTH}}{html.escape(str(structure["Pages"]))}')
     attrs.append(f'{"Revision(s): ":{INFO_MAX_WIDTH}}{structure["Revisions"]}')
     attrs.append(f'{"Hybrid: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Hybrid"])}')
     attrs.append(f'{"Linearized: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}')
@@ -359,7 +359,7 @@ def build_header(filename: str) -> str:
     ret = ''
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{html.escape(os.path.basename(filename))} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
@@ -390,7 +390,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -429,7 +429,7 @@ def build_xref_table(table: list, index: list) -> str:
         else:
             _, _, _, y = x
             _, pos, o_num, o_gen, st = y
-            ret += f'{pos:010} {o_gen:05} {st.decode("ascii")}'
+            ret += f'{pos:010} {o_gen:05} {html.escape(st.decode("ascii"))}'
             if st != b'f':
                 ret += '    '
                 ret += f'<a href="#idx{pos}">'
@@ -596,7 +596,7 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
+        o_num, o_gen, o_ver = html.escape(str(obj['o_num'])), 0, 0
         _, _, _, used_by = cross[pos]
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-- 
2.43.0


From 4422159cb8df599f30e140edbd7d84915e0fe93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:25 +0000
Subject: [PATCH 66/83] fix: escape dictionary keys and links in the HTML view

---
 pdfsyntax/display.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index d94fa94..23b087b 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -497,13 +497,14 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
             name = i #name = i.decode('ascii')
             value = follow_obj(obj[i], index, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
+            name = html.escape(str(name))
             if name == '/Type' or name == '/Subtype':
                 ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
             elif name == '/JS':
                 ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
+            elif name == '/Prev' and type(obj[i]) == int:
                 ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
-- 
2.43.0


From fdb6f2dfc205d84452b65b5f842bff78d3afa90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:26 +0000
Subject: [PATCH 67/83] fix: do not truncate an array within a tag of the HTML
 view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 23b087b..68af2f6 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -526,7 +526,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         for i in obj:
             value = follow_obj(i, index)
             ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
+        if len(ret) > VALUE_MAX_WIDTH and '<' not in ret:
             ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
         ret += ']'        
     else:
-- 
2.43.0


From ba504b9ea34944a709db03a2463569ef265a4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:32 +0000
Subject: [PATCH 68/83] fix: a backslash that ends the data does not move past
 it

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 09f8006..c268025 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -124,7 +124,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if single == b'\\':
+            if single == b'\\' and i + 1 < len(text):
                 i += 1
             elif single == b'(':
                 nested += 1
-- 
2.43.0


From f2871c221b1dfae4b558f7123f0113b07e24e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:11 +0000
Subject: [PATCH 69/83] fix: report an object added and deleted in the same
 revision as deleted

---
 pdfsyntax/docstruct.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index cf02235..a6f2412 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -371,12 +371,12 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
-        if i > len(previous)-1:
-            res.append((iref, 'a'))
-        elif i < len(previous) and previous[i] == current[i]:
+        if i < len(previous) and previous[i] == current[i]:
             pass
-        elif previous[i] != None and 'DELETED' not in previous[i] and 'DELETED' in current[i]:
+        elif 'DELETED' in current[i]:
             res.append((iref, 'd'))
+        elif i > len(previous)-1:
+            res.append((iref, 'a'))
         elif previous[i] != None and current[i] != previous[i]:
             res.append((iref, 'u'))
         else:
-- 
2.43.0


From f15dbb6ab62b59a263d5becd2c8987823aee7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:54 +0000
Subject: [PATCH 70/83] fix: make room in the cache for the first xref stream
 so that objects can be added after compression

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a6f2412..e2a8ad5 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -571,6 +571,7 @@ def commit(doc: Doc) -> Doc:
             new_doc.index[-1][0] = new_doc.index[-1][0].copy()
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
+            new_doc.cache.append(None)
             new_doc.index[-1][0]['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
-- 
2.43.0


From 7e8ffd5f09c9ed9a2c221880f8eb57c41abaedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:41 +0000
Subject: [PATCH 71/83] fix: removing pages keeps the catalog and the page tree
 nodes even if a removed page refers to them

---
 pdfsyntax/docstruct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e2a8ad5..53de4de 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -826,6 +826,12 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         keep_dep = keep_dep | dependencies(new_doc, i)
     for attr in keep_attr:
         keep_dep = keep_dep | dependencies(new_doc, attr)
+    keep_dep = keep_dep | {x for x in trailer(new_doc).values() if type(x) == complex}
+    for i in keep_ref: #nodes of the page tree
+        node = get_object(new_doc, i)
+        while '/Parent' in node and node['/Parent'] not in keep_dep:
+            keep_dep.add(node['/Parent'])
+            node = get_object(new_doc, node['/Parent'])
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From 2e3ecfaff2200e3a3ee8126d58b138c55b1f446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:14 +0000
Subject: [PATCH 72/83] fix: writing a revision after a rewind keeps the kind
 of its cross reference section

---
 pdfsyntax/docstruct.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 53de4de..900fd80 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -560,24 +560,26 @@ def commit(doc: Doc) -> Doc:
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
     new_index0 = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev, 'doc_ver': nb_rev}
-    if type(doc.index[0][0]) == dict:
-        x_num = doc.index[0][0].get('xref_stream_num')
+    if type(current_index[0]) == dict:
+        x_num = current_index[0].get('xref_stream_num')
     else: #TODO
-        x_num = doc.index[0][0][0].get('xref_stream_num')
+        x_num = current_index[0][0].get('xref_stream_num')
     if x_num:
         new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
-            new_doc.index[-1][0] = new_doc.index[-1][0].copy()
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
             new_doc.cache.append(None)
+        if 'eof_cut' not in doc.data[-1]:
+            new_doc.index[-1][0] = new_doc.index[-1][0].copy()
             new_doc.index[-1][0]['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
-    if nb_rev == 1 and 'eof_cut' not in doc.data[-1]: #first revision is written from scratch
-        new_doc.cache[0].pop('/Prev', None)
+    if 'eof_cut' not in doc.data[-1]:
         new_doc.cache[0].pop('/XRefStm', None)
+        if nb_rev == 1: #first revision is written from scratch
+            new_doc.cache[0].pop('/Prev', None)
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
     if 'eof_cut' not in new_doc.data[-1]:
         if nb_rev == 1:
-- 
2.43.0


From 2b5d3ec6152e4530034f6ce4d29e40e1e3827d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:47 +0000
Subject: [PATCH 73/83] fix: removing pages keeps every node of the page tree

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 900fd80..a895e86 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -829,7 +829,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for attr in keep_attr:
         keep_dep = keep_dep | dependencies(new_doc, attr)
     keep_dep = keep_dep | {x for x in trailer(new_doc).values() if type(x) == complex}
-    for i in keep_ref: #nodes of the page tree
+    for i, _ in pages: #nodes of the page tree
         node = get_object(new_doc, i)
         while '/Parent' in node and node['/Parent'] not in keep_dep:
             keep_dep.add(node['/Parent'])
-- 
2.43.0


From 9ddc034c19da2e59b4ba9aea8a982b56b5e0140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:35 +0000
Subject: [PATCH 74/83] fix: removing pages keeps every node of the page tree
 and its indirect entries

---
 pdfsyntax/docstruct.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a895e86..531484b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -811,6 +811,17 @@ def keep_pages(doc: Doc, pages) -> Doc:
     return new_doc
 
 
+def page_tree_nodes(doc: Doc, iref) -> set:
+    """Recursively list references of page tree nodes (other than pages) and of their indirect entries."""
+    node = get_object(doc, iref)
+    if node.get('/Type') != '/Pages':
+        return set()
+    res = {iref} | {node[k] for k in ('/Kids', '/Count') if type(node.get(k)) == complex}
+    for kid in get_object(doc, node['/Kids']):
+        res = res | page_tree_nodes(doc, kid)
+    return res
+
+
 def remove_pages(doc: Doc, del_pages) -> Doc:
     """Remove one (an int) or more (a set of int) pages."""
     new_doc = copy_doc(doc, revision='SAME')
@@ -829,11 +840,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for attr in keep_attr:
         keep_dep = keep_dep | dependencies(new_doc, attr)
     keep_dep = keep_dep | {x for x in trailer(new_doc).values() if type(x) == complex}
-    for i, _ in pages: #nodes of the page tree
-        node = get_object(new_doc, i)
-        while '/Parent' in node and node['/Parent'] not in keep_dep:
-            keep_dep.add(node['/Parent'])
-            node = get_object(new_doc, node['/Parent'])
+    keep_dep = keep_dep | page_tree_nodes(new_doc, catalog(new_doc)[0]['/Pages'])
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From 26dac4d7ca2d2ae3be63e50b3c6063283071f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:04 +0000
Subject: [PATCH 75/83] fix: annotating a page whose /Annots leads to nothing

---
 pdfsyntax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index c822cb5..64b12bd 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -244,9 +244,9 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
+    new_array = deepcopy(get_object(doc, new_page.get('/Annots')))
+    if new_array is not None and new_array != 'null':
         annot_obj = new_page['/Annots']
-        new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
         if type(annot_obj) != complex: #array within the page
             new_page['/Annots'] = new_array
-- 
2.43.0


From 4703ae05e14abfdd2033b644afe4ffe32c5e0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:04 +0000
Subject: [PATCH 76/83] fix: a revision written again records the position of
 its new cross reference section

---
 pdfsyntax/docstruct.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 531484b..e7fb20a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -571,12 +571,13 @@ def commit(doc: Doc) -> Doc:
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
             new_doc.cache.append(None)
-        if 'eof_cut' not in doc.data[-1]:
-            new_doc.index[-1][0] = new_doc.index[-1][0].copy()
-            new_doc.index[-1][0]['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
-    if 'eof_cut' not in doc.data[-1]:
+    if 'eof_cut' not in doc.data[-1]: #section is going to be written
+        index0 = current_index[0] if type(current_index[0]) == dict else current_index[0][0]
+        new_doc.index[-1][0] = {k: v for k, v in index0.items() if k not in ('xref_table_pos', 'xref_stream_pos')}
+        if x_num:
+            new_doc.index[-1][0]['xref_stream_num'] = x_num
         new_doc.cache[0].pop('/XRefStm', None)
         if nb_rev == 1: #first revision is written from scratch
             new_doc.cache[0].pop('/Prev', None)
-- 
2.43.0


From 57233ebd518056cb1a57078f38d48510a9e2867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:42 +0000
Subject: [PATCH 77/83] fix: fragments of one line of mirrored text are kept
 together

---
 pdfsyntax/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index f615301..fb6fcb5 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -11,7 +11,7 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs) or 1
+    spacing = abs(typical_line_spacing(text_blocks, fs)) or 1
     #print(f"spacing = {spacing}")
     char_w = typical_char_width(text_blocks, fs) or 1
     #print(f"char w = {char_w}")
-- 
2.43.0


From bbcb668e16e92dbd5d4c29addc4185e10d3de84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:16 +0000
Subject: [PATCH 78/83] fix: average character width of mirrored text

---
 pdfsyntax/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index fb6fcb5..54b8b23 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -127,7 +127,7 @@ def typical_char_width(text_blocks: list, typical_font_size: float) -> float:
     for i in text_blocks:
         if i['scaling'] != typical_font_size or len(i['text']) < 2:
             continue
-        distrib.append(i['width'] / len(i['text']))
+        distrib.append(abs(i['width']) / len(i['text']))
     if len(distrib):
         return sum(distrib) / len(distrib)
     else:
-- 
2.43.0


From 14e9e0fd7fccac3b87d080733cfbafe47113ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:09 +0000
Subject: [PATCH 79/83] fix: an indirect object on an unfinished last line is
 mapped at its place

---
 pdfsyntax/objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c268025..465c574 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -300,9 +300,8 @@ def parse_obj(text: bytes, start=0) -> Any:
 
 def parse_indirect_obj(text: bytes, start=0) -> tuple:
     """Recursively parse indirect object starting at X Y R."""
-    bl, el = next_line(text, start)
-    bo = bl
     i1, j1, _ = next_token(text, start) #o_num
+    bo = i1
     i2, j2, _ = next_token(text, j1) #o_gen
     o_num = int(text[i1:j1])
     o_gen = int(text[i2:j2])
-- 
2.43.0


From 6eb92b3239f80fca0c296c86ad057bac29cbca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:09 +0000
Subject: [PATCH 80/83] fix: ToUnicode maps with empty sections or without
 entries

---
 pdfsyntax/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 3706ae9..5aa1602 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -127,7 +127,7 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             continue
         if cmap[i] == 'beginbfchar':
             section = 'CHAR'
-            if not tokens:
+            if not tokens and type(cmap[i+1]) == bytes:
                 word_l = (len(cmap[i+1])-2) // 2
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
@@ -145,7 +145,7 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             continue
         if cmap[i] == 'beginbfrange':
             section = 'RANGE'
-            if not tokens:
+            if not tokens and type(cmap[i+1]) == bytes:
                 word_l = (len(cmap[i+1])-2) // 2
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
@@ -172,6 +172,8 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             i += 1
             continue
         i += 1
+    if not tokens: #no entry in the map
+        tokens_backup = tokenize_string(string, 1 if simple else word_l)
     for j, t in enumerate(tokens):
         if type(t) != str:
             #for DEBUG
-- 
2.43.0


From 067aad782a82f9208d2944aa58bcbfb03cbe872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:38 +0000
Subject: [PATCH 81/83] fix: a hex dump never goes beyond the end of its source

---
 pdfsyntax/filestruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index a22c319..4b3bf42 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -84,12 +84,12 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
         start = 0
     if stop is None or stop > sz:
         stop = sz
-    length = stop - start
     idx = (start // LN) * LN
-    buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
+    length = -((idx - stop) // LN) * LN #whole lines
+    buf, d0, i0, sz0 = bdata(idx, length)
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i-i0:i-i0+LN]
+        l = buf[i-i0:min(i-i0+LN, d0+sz0)]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
-- 
2.43.0


From 121b6bbae908d16284651e3499c2dc87e0c01052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:43:34 +0000
Subject: [PATCH 82/83] fix: escape the number of a user of an object in the
 HTML view

---
 pdfsyntax/display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 68af2f6..3acea56 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -593,7 +593,7 @@ def build_obj_header(article, index, cross) -> str:
                 if n == 0:
                     ret += f'<a href="#idx{p}">trailer</a> '
                 else:
-                    ret += f'<a href="#idx{p}">{n}</a> '
+                    ret += f'<a href="#idx{p}">{html.escape(str(n))}</a> '
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
@@ -613,7 +613,7 @@ def build_obj_header(article, index, cross) -> str:
                 if n == 0:
                     ret += f'<a href="#idx{p}">trailer</a> '
                 else:
-                    ret += f'<a href="#idx{p}">{n}</a> '
+                    ret += f'<a href="#idx{p}">{html.escape(str(n))}</a> '
             ret += f'</span></em>'
     ret += f'<div class="obj-body b0">\n'
     return ret
-- 
2.43.0


From baf8f5c4f1074f3c74ab74d19ddbdec3e04f47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:43:43 +0000
Subject: [PATCH 83/83] fix: cross-reference sections linked in a circle are
 read once

---
 pdfsyntax/filestruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 4b3bf42..377595c 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -249,6 +249,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     prev_eof = None
     chrono = []
     seq = []
+    visited = set()
     while start or prev or xrefstm:
         a0 = 0
         o0 = 0
@@ -274,6 +275,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
+        visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
@@ -300,6 +302,8 @@ def build_xref_sequence(fdata: Callable) -> tuple:
                 xrefstm = int(trailer['/XRefStm'])
             if '/Prev' in trailer:
                 prev = int(trailer['/Prev'])
+                if prev in visited: #never go round in circles
+                    prev = False
     idx = sorted([i[0] for i in seq])
     _, _, _, file_sz = fdata(None, -1)
     idx.append(file_sz)
-- 
2.43.0

