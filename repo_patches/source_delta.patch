From 18370567362d2b473f9a72addd6e556ab0aab6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 01/26] fix: do not truncate allocation sizes in the heap

heap_alloc() compared (int)size with what is left, so that sizes of 2 GB
and more became small or negative and the allocation "succeeded" without
any memory behind it, for example when allocating a repeated field with
a negative or very big length.
---
 lib/src/pbtools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..d364ef6 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -83,7 +83,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
 
     left = (self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if (size <= (size_t)left) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= (size_t)left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From 485ba865e0f0e463b5c0f4ebf62294fd5a5c3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 02/26] fix: reject packed fixed size fields with a partial
 last item

The number of items was rounded down when allocating memory, but the
items were then read until the end of the packed field, writing one item
beyond the allocated memory.
---
 lib/src/pbtools.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index d364ef6..081de0e 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1301,7 +1301,13 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
         self_p->length += (size / 4);
-        decoder_seek(decoder_p, size);
+
+        if ((size % 4) == 0) {
+            decoder_seek(decoder_p, size);
+        } else {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+        }
+
         break;
 
     default:
@@ -1329,7 +1335,13 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
         self_p->length += (size / 8);
-        decoder_seek(decoder_p, size);
+
+        if ((size % 8) == 0) {
+            decoder_seek(decoder_p, size);
+        } else {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+        }
+
         break;
 
     default:
-- 
2.43.0


From e4c30cafab35e6d9e62ed2968b84efbb423835fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 03/26] fix: report out of memory when decoding repeated
 messages

Decoding succeeded, without the items, when there was no memory for
them.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 081de0e..5dac26f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2492,6 +2492,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From 1cfd94391a46edbf1ae9f099a66633864dc04daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 04/26] fix: use the whole buffer when encoding

Encoding failed with encode buffer full if the encoded message exactly
fitted in the buffer, and encoding an empty message into an empty buffer
returned -1.
---
 lib/src/pbtools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 5dac26f..481d70f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -120,7 +120,7 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
 {
     int length;
 
-    if (self_p->pos >= 0) {
+    if (self_p->size >= 0) {
         length = (self_p->size - self_p->pos - 1);
         memmove(self_p->buf_p,
                 &self_p->buf_p[self_p->pos + 1],
@@ -145,7 +145,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
                           int size)
 {
-    if (self_p->pos >= size) {
+    if (self_p->pos >= (size - 1)) {
         self_p->pos -= size;
         memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
     } else {
-- 
2.43.0


From d2af28512fff220b2ef36347a8b04794587e44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 05/26] fix: do not truncate bool values to 32 bits when
 decoding

A varint with only bits 32 and up set was decoded as false, unlike in
repeated fields.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 481d70f..812f08f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1200,7 +1200,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (pbtools_decoder_read_int64(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From d2ad16d3751fd7abc2a9ea45eeec1ffbbcf42f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 06/26] fix: do not negate INT_MIN in
 pbtools_error_code_to_string()

---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 812f08f..e02f3f6 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2606,7 +2606,7 @@ const char *pbtools_error_code_to_string(int code)
 {
     const char *string_p;
 
-    if (code < 0) {
+    if ((code < 0) && (code != INT_MIN)) {
         code *= -1;
     }
 
-- 
2.43.0


From 736c90af55d3a860eeaef4f0d5178be62cd16dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 07/26] fix: leave repeated fields as they were when allocation
 fails

The length was kept but the items pointer was set to NULL, so that
encoding the message dereferenced NULL.
---
 lib/src/pbtools.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index e02f3f6..18006c3 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1438,15 +1438,17 @@ static int calloc_repeated(struct pbtools_message_base_t *self_p,
                            size_t item_size)
 {
     size_t size;
+    void *items_p;
 
     size = (item_size * (size_t)length);
-    repeated_p->items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
+    items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (items_p == NULL) {
         return (-1);
     }
 
-    memset(repeated_p->items_p, 0, size);
+    memset(items_p, 0, size);
+    repeated_p->items_p = items_p;
     repeated_p->length = length;
 
     return (0);
@@ -2404,15 +2406,15 @@ int pbtools_alloc_repeated(
     int i;
     char *item_p;
 
-    repeated_p->items_p = heap_alloc(heap_p,
-                                     item_size * (size_t)length,
-                                     alignof(uint64_t));
+    item_p = heap_alloc(heap_p,
+                        item_size * (size_t)length,
+                        alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (item_p == NULL) {
         return (-1);
     }
 
-    item_p = repeated_p->items_p;
+    repeated_p->items_p = item_p;
 
     for (i = 0; i < length; i++) {
         message_init(item_p, heap_p);
-- 
2.43.0


From 889ab177295702fe82bbc204af89a1fec67347f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 08/26] fix: leave repeated strings as they were when
 allocation fails

The length was kept but the items pointer was set to NULL, so that
encoding the message dereferenced NULL.
---
 lib/src/pbtools.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 18006c3..685525f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2182,15 +2182,18 @@ int pbtools_alloc_repeated_string(struct pbtools_message_base_t *self_p,
                                   struct pbtools_repeated_string_t *repeated_p)
 {
     int pos;
+    char **items_pp;
 
-    repeated_p->items_pp = heap_alloc(self_p->heap_p,
-                                      sizeof(*repeated_p->items_pp) * (size_t)length,
-                                      alignof(uint64_t));
+    items_pp = heap_alloc(self_p->heap_p,
+                          sizeof(*items_pp) * (size_t)length,
+                          alignof(uint64_t));
 
-    if (repeated_p->items_pp == NULL) {
+    if (items_pp == NULL) {
         return (-1);
     }
 
+    repeated_p->items_pp = items_pp;
+
     for (pos = 0; pos < length; pos++) {
         repeated_p->items_pp[pos] = "";
     }
-- 
2.43.0


From 99f0cc0cc477b455629d7f765425af4a3bbe0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 09/26] fix: accept empty statements in enums and oneofs

They were loaded as fields and failed with 'list index out of range'.
---
 pbtools/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..9501383 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -332,7 +332,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -363,7 +364,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
-- 
2.43.0


From 298125b586f7f6f722aa9abe763266009b77a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 10/26] fix: ignore options in services

They failed with an internal error.
---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 9501383..d90275f 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -513,7 +513,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 7e44658a4ecaab44a7160f4c0cdda4651fad477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 11/26] fix: load hexadecimal and octal integers

Hexadecimal field numbers and enum values were rejected, octal ones
read as decimal, and integer options lost all but their first digit.
---
 pbtools/parser.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index d90275f..97358e4 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -53,6 +53,26 @@ def camel_to_snake_case(value):
     return value
 
 
+def load_integer(value):
+    """Convert given decimal, octal or hexadecimal integer literal.
+
+    """
+
+    digits = value.lstrip('-').lower()
+
+    if digits.startswith('0x'):
+        base = 16
+    elif digits.startswith('0'):
+        base = 8
+    else:
+        base = 10
+
+    try:
+        return int(value, base)
+    except ValueError:
+        raise Error(f"Invalid integer '{value}'.")
+
+
 def format_parse_error(string, offset):
     return str(ParseError(string, offset))
 
@@ -307,7 +327,7 @@ class Option:
         elif kind == 'ident':
             value = value[0]
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_integer(value)
 
         self.kind = kind
         self.value = value
@@ -317,7 +337,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_integer(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -353,7 +373,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_integer(tokens[3]))
 
 
 class Oneof:
@@ -398,7 +418,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_integer(tokens[4]),
                    repeated,
                    optional)
 
@@ -439,7 +459,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
-- 
2.43.0


From 7e3ab2d38f70cdb9942ad8f0ef86e6f21c92c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 12/26] fix: keep all of a dotted option value

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 97358e4..8665f01 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -325,7 +325,7 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
             value = load_integer(value)
 
-- 
2.43.0


From b67d154f0a47462462f835079ef4bcbf8ab5938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 13/26] fix: string literals with comment markers or escaped
 backslashes

The markers were taken as comments, and an escaped backslash at the end
as an escaped quote.
---
 pbtools/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 8665f01..9f77e2a 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -85,13 +85,14 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|\\\\|\\"|")', string)
     ]
 
     comments.sort()
 
     in_single_line_comment = False
     in_multi_line_comment = False
+    in_string = False
     start_offset = 0
     non_comment_offset = 0
     chunks = []
@@ -110,6 +111,10 @@ def ignore_comments(string):
                 offset += 2
                 chunks.append(' ' * (offset - start_offset))
                 non_comment_offset = offset
+        elif kind == '"':
+            in_string = not in_string
+        elif in_string:
+            pass
         elif kind == '//':
             in_single_line_comment = True
             start_offset = offset
@@ -164,7 +169,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        r'"(\\.|[^"\\])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From e6c1d91fda75d2cd9911169c968f5ebef78372ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 14/26] fix: give the right line in errors after a multi line
 comment

The newlines of the comment were lost.
---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 9f77e2a..50f628d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -109,7 +109,7 @@ def ignore_comments(string):
             elif kind == '*/':
                 in_multi_line_comment = False
                 offset += 2
-                chunks.append(' ' * (offset - start_offset))
+                chunks.append(re.sub(r'[^\n]', ' ', string[start_offset:offset]))
                 non_comment_offset = offset
         elif kind == '"':
             in_string = not in_string
-- 
2.43.0


From 6937b612c2917eed71d13ffa64b7609392116da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 15/26] fix: keep the package of map value types

map<int32, foo.Bar> used the message Bar of the own package, if any.
---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 50f628d..a7f3864 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -462,7 +462,7 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
-        value_type = load_message_type(tokens[4])[-1]
+        value_type = load_message_type(tokens[4])
         name = tokens[6]
         field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -470,7 +470,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], [[], value_type], 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
-- 
2.43.0


From abf89061a3783bdc31635a499c5c2a4c6bf401be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 16/26] fix: tell messages, enums and undefined types apart

Undefined types were taken as messages in files without package, and
if qualified with the package. Enums qualified with a dotted package
were taken as messages. Nested types with the name of an imported type
of the same package were taken as the imported type.
---
 pbtools/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a7f3864..996c8e2 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -731,19 +731,24 @@ class Proto:
 
     def is_field_enum(self, field):
         for imported in self._imports:
-            if field.package == imported.package:
+            if '.'.join(field.namespace) == (imported.package or ''):
                 if field.type in imported.enums:
                     return True
                 elif field.type in imported.messages:
                     return False
 
         if field.package == self._package:
-            offset = len(self.namespace_base())
-            type = self.lookup_type(field.namespace[offset:] + [field.type],
+            path = field.full_type
+
+            if self._package is not None:
+                path = path[len(self._package) + 1:]
+
+            type = self.lookup_type(path.split('.'),
                                     self._enums,
                                     self._messages)
 
-            return isinstance(type, Enum)
+            if type is not None:
+                return isinstance(type, Enum)
 
         raise Error(f"'{field.type}' is not defined.")
 
-- 
2.43.0


From da4086457998ac0e320a07c503d8b4425293fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 17/26] fix: include the header that is generated for an import
 in a directory

The directory is not part of the name of the generated header.
---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..8427256 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1295,7 +1295,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0


From 3f2c6ff2687c36bf276a8999da8882dc84052d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 18/26] fix: define repeated structs before they are used

The generated header did not compile if a message has a repeated field
of a message that is defined later, as with mutual recursion.
---
 pbtools/c_source/__init__.py | 39 ++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 8427256..3ea7bba 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -697,6 +697,7 @@ class Generator:
         self.namespace = namespace
         self.parsed = parsed
         self.header_name = header_name
+        self.defined_repeated_structs = set()
         self.enums_upper_case = options.enums_upper_case
 
     @property
@@ -816,8 +817,45 @@ class Generator:
         return members
 
     def generate_repeated_struct(self, message):
+        if message.full_name in self.defined_repeated_structs:
+            return ''
+
+        self.defined_repeated_structs.add(message.full_name)
+
         return REPEATED_MESSAGE_STRUCT_FMT.format(message=message)
 
+    def generate_used_repeated_structs(self, message):
+        """Define the repeated structs used by given message that are not
+        yet defined, as the messages come later.
+
+        """
+
+        types = []
+
+        for field in message.repeated_fields:
+            if field.full_type == message.full_name:
+                continue
+
+            used_message = self.find_message(field.full_type, self.messages)
+
+            if used_message is not None:
+                repeated_struct = self.generate_repeated_struct(used_message)
+
+                if repeated_struct:
+                    types.append(repeated_struct + '\n')
+
+        return types
+
+    def find_message(self, full_name, messages):
+        for message in messages:
+            if message.full_name == full_name:
+                return message
+
+            found = self.find_message(full_name, message.messages)
+
+            if found is not None:
+                return found
+
     def generate_enum_members(self, enum):
         lines = []
 
@@ -880,6 +918,7 @@ class Generator:
         for oneof in message.oneofs:
             types += self.generate_oneof_type(oneof)
 
+        types += self.generate_used_repeated_structs(message)
         types += [
             MESSAGE_STRUCT_FMT.format(
                 message=message,
-- 
2.43.0


From ed0fe2aca3930f0044e426d53ecdcb9f18d20df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 19/26] fix: ignore options and reserved everywhere

Options in messages, enums and oneofs, options of oneof fields and
reserved in enums were rejected.
---
 pbtools/parser.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 996c8e2..b7acea5 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -216,33 +216,38 @@ class Parser(textparser.Parser):
         # Option.
         option = Sequence('option', option_name, '=', constant, ';')
 
+        # Reserved.
+        field_number_range = Sequence('INT',
+                                      Optional(Sequence('to',
+                                                        choice('INT', 'max'))))
+        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
+                                               DelimitedList('STRING')))
+
         # Enum.
         enum_field = Sequence(ident, '=', 'INT', options, ';')
         enum = Sequence('enum',
                         ident,
                         '{',
-                        ZeroOrMore(choice(enum_field, empty_statement)),
+                        ZeroOrMore(choice(Tag('field', enum_field),
+                                          option,
+                                          reserved,
+                                          empty_statement)),
                         '}')
 
         # Oneof.
-        oneof_field = Sequence(message_type, ident, '=', 'INT', ';')
+        oneof_field = Sequence(message_type, ident, '=', 'INT', options, ';')
         oneof = Sequence('oneof',
                          ident,
                          '{',
-                         ZeroOrMore(choice(oneof_field, empty_statement)),
+                         ZeroOrMore(choice(option,
+                                           Tag('field', oneof_field),
+                                           empty_statement)),
                          '}')
 
         # Map.
         map_field = Sequence('map', '<', ident, ',', message_type, '>',
                              ident, '=', 'INT', options, ';')
 
-        # Reserved.
-        field_number_range = Sequence('INT',
-                                      Optional(Sequence('to',
-                                                        choice('INT', 'max'))))
-        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
-
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
                          message_type, ident, '=', 'INT', options, ';')
@@ -250,7 +255,8 @@ class Parser(textparser.Parser):
         message <<= Sequence('message',
                              ident,
                              '{',
-                             ZeroOrMore(choice(Tag('field', field),
+                             ZeroOrMore(choice(option,
+                                               Tag('field', field),
                                                enum,
                                                message,
                                                oneof,
@@ -357,8 +363,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(EnumField(item))
+            if item[0] == 'field':
+                self.fields.append(EnumField(item[1]))
 
     @property
     def namespace_snake_case(self):
@@ -389,8 +395,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(OneofField(item))
+            if item[0] == 'field':
+                self.fields.append(OneofField(item[1]))
 
     @property
     def full_name(self):
@@ -455,7 +461,7 @@ class Message:
                 self.oneofs.append(Oneof(item, sub_namespace))
             elif kind == 'map':
                 self._load_map(item, sub_namespace)
-            elif kind in ['reserved', ';']:
+            elif kind in ['option', 'reserved', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From ce56b422fc79044ad67daa8da38b5c1f8d0ee788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:42 +0000
Subject: [PATCH 20/26] fix: do not write beyond the items of a packed repeated
 field with a partial last item

The items are decoded also after an error, when the number of items is
less than what the payload gives, so the last item was written beyond
the allocated memory.
---
 lib/src/pbtools.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 685525f..7f4df34 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1513,7 +1513,8 @@ static void decoder_decode_repeated(
     int tag;
     int index;
 
-    if (repeated_info_p->length == 0) {
+    /* The number of items is not known if the decoding has failed. */
+    if ((repeated_info_p->length == 0) || (self_p->pos < 0)) {
         return;
     }
 
-- 
2.43.0


From c133a6ec7463aa11726fe2171d112657b7f2aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 21/26] fix: reject files that end in the middle of a
 definition

Everything after the last complete definition was silently dropped.
---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index b7acea5..74f39dc 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -290,7 +290,8 @@ class Parser(textparser.Parser):
                                                package,
                                                option,
                                                top_level_def,
-                                               empty_statement)))
+                                               empty_statement)),
+                         '__EOF__')
 
         return proto
 
-- 
2.43.0


From c6480fdb9d6322b8d2ac505bf01628f9d3965ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 22/26] fix: accept the string "proto3" wherever strings are

---
 pbtools/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 74f39dc..d7084cb 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -190,12 +190,13 @@ class Parser(textparser.Parser):
 
     def grammar(self):
         ident = choice('IDENT', *self.KEYWORDS)
+        string = choice('STRING', 'PROTO3')
         full_ident = DelimitedList(ident, '.')
         empty_statement = ';'
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
-                          Tag('string', 'STRING'),
+                          Tag('string', string),
                           Tag('integer', 'INT'))
         option_name = Sequence(choice(ident,
                                       Sequence('(', full_ident, ')')),
@@ -208,7 +209,7 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING')
+                           string)
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -221,7 +222,7 @@ class Parser(textparser.Parser):
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
         reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
+                                               DelimitedList(string)))
 
         # Enum.
         enum_field = Sequence(ident, '=', 'INT', options, ';')
-- 
2.43.0


From 7bc44de1afb6896acc62923ef8610e0d2d762adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 23/26] fix: accept empty statements in the body of an rpc

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index d7084cb..4e5e644 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -274,7 +274,8 @@ class Parser(textparser.Parser):
                        'returns',
                        '(', Optional('stream'), message_type, ')',
                        choice(Sequence('{',
-                                       ZeroOrMore(option),
+                                       ZeroOrMore(choice(option,
+                                                         empty_statement)),
                                        '}'),
                               ';'))
         service = Sequence('service',
-- 
2.43.0


From 858dace85089e680992f508829addad38a4b2f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 24/26] fix: keep all of a dotted request or response type of
 an rpc

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 4e5e644..e664398 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -530,9 +530,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = '.'.join(tokens[4][1])
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = '.'.join(tokens[9][1])
         self.response_stream = bool(tokens[8])
 
 
-- 
2.43.0


From d88a89951ecc250eeb226ba177eb4d8503fd80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 25/26] fix: messages and enums named as scalar types get
 members of their own type

Without a package the C name of a message String is string, which was
taken as the scalar type.
---
 pbtools/c_source/__init__.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3ea7bba..cc9414e 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1,6 +1,5 @@
 import os
 
-from ..parser import SCALAR_VALUE_TYPES
 from ..parser import camel_to_snake_case
 from ..parser import parse_file
 
@@ -709,7 +708,12 @@ class Generator:
         return self.parsed.package
 
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            type = f'struct {type}_t *'
+            name_snake_case = f'{name_snake_case}_p'
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -724,11 +728,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             name_snake_case = f'{name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
-        elif type_kind == 'message':
-            type = f'struct {type}_t *'
-            name_snake_case = f'{name_snake_case}_p'
         else:
             type += ' '
 
@@ -737,7 +736,11 @@ class Generator:
     def generate_optional_struct_member_fmt(self, type, name_snake_case, type_kind):
         value_name_snake_case = 'value'
 
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            raise Exception('Only scalar value types may be optional.')
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -752,8 +755,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             value_name_snake_case = f'{value_name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
         else:
             raise Exception('Only scalar value types may be optional.')
 
@@ -766,7 +767,7 @@ class Generator:
                                             type,
                                             name_snake_case,
                                             type_kind):
-        if type in SCALAR_VALUE_TYPES:
+        if type_kind == 'scalar-value-type':
             if type in ['sint32', 'sint64']:
                 type = type[1:]
             elif type in ['fixed32', 'fixed64']:
-- 
2.43.0


From 4cd6324393848dd557ed143dd69a6dd6fa94f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 26/26] fix: find imported types of enclosing packages

A type of package a is visible in package a.b, before the one of no
package.
---
 pbtools/parser.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index e664398..e440202 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -698,19 +698,29 @@ class Proto:
                 namespace = self.namespace_base()
                 package = self._package
             else:
-                for imported in self._imports:
-                    if imported.package == self._package:
-                        if field.type in imported.type_names:
-                            namespace = self.namespace_base()
-                            package = self._package
-                            break
-                else:
-                    namespace = []
-                    package = None
+                package = self.find_imported_package(field.type)
+                namespace = [] if package is None else [package]
 
         field.namespace = namespace
         field.package = package
 
+    def find_imported_package(self, type):
+        """Returns the package of given imported type, which may be any of
+        the packages enclosing this file. Innermost first.
+
+        """
+
+        package = self._package
+
+        while package:
+            for imported in self._imports:
+                if imported.package == package and type in imported.type_names:
+                    return package
+
+            package = package.rpartition('.')[0]
+
+        return None
+
     def resolve_messages_fields_type_kinds(self):
         for message in self._messages:
             self.resolve_message_fields_type_kinds(message)
-- 
2.43.0

