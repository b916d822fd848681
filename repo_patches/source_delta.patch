From 1b4aff333900c716437d292fc29cecf1e68aff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 1/9] fix: avl_tree_put has no effect when the value is already
 stored at key

The header promises that putting the value already stored at the key has no
effect and returns NULL; the old element was replaced and returned instead.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From aea8f979de545d04e820c0fb02d3ade603c664ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 2/9] fix: byte_array_append_stream keeps the NUL when the
 stream fails

A read callback may use the buffer before it reports end of file or an
error; the terminating NUL was then not restored.
---
 src/bytearray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 8e2e34c..20bd6e8 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -127,10 +127,9 @@ ssize_t byte_array_append_stream(byte_array_t *array,
         return -1;
 
     ssize_t count = read_cb(obj, array->data + array->cursor, len);
-    if (count > 0) {
+    if (count > 0)
         array->cursor += count;
-        array->data[array->cursor] = 0;
-    }
+    array->data[array->cursor] = 0;
     return count;
 }
 
-- 
2.43.0


From 7465354c7a2aa7caf1d35b28ad6de296a58847c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 3/9] fix: base64 decoding table is one entry short

A missing comma fused two entries, so that 0x7f was taken for whitespace and
0xff decoded as zero bits instead of being refused.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From a95686c7185c7a6f4dd6d6f0103d2e2970665edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 4/9] fix: refuse overlong UTF-8 encodings

Overlong forms are not valid UTF-8 (RFC 3629), yet they were decoded and
passed as valid.
---
 src/charstr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..08087d4 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -465,14 +465,18 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        int min;
+        if (!(*s & 0x20)) {
+            min = 0x80;
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+        } else {
+            if (!(*s & 0x10)) {
+                min = 0x800;
                 cp = *s++ & 0x0f;
-            else {
+            } else {
                 if (*s & 0x08)
                     return NULL;
+                min = 0x10000;
                 cp = *s++ & 0x07;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
@@ -485,7 +489,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From dc40c4972bb30f6d13c6265992bab2b855f1d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 5/9] fix: decomposing Hangul into too little space reports
 EOVERFLOW

Running out of space in a Hangul syllable was mistaken for the character not
being Hangul, and the syllable was emitted undecomposed.
---
 src/charstr_decompose.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..14470f4 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -3,7 +3,7 @@
 #include "charstr.h"
 #include "fsdyn_version.h"
 
-static char *decompose_hangul(int codepoint, char *s, const char *end)
+static bool decompose_hangul(int codepoint, char **ps, const char *end)
 {
     enum {
         S_BASE = 0xAC00,
@@ -18,12 +18,14 @@ static char *decompose_hangul(int codepoint, char *s, const char *end)
     };
     int i = codepoint - S_BASE;
     if (i < 0 || i >= S_COUNT)
-        return NULL;
+        return false;
+    char *s = *ps;
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
         s = charstr_encode_utf8_codepoint(T_BASE + i % T_COUNT, s, end);
-    return s;
+    *ps = s;
+    return true;
 }
 
 static char *decompose_fully(int codepoint, char *s, const char *end)
@@ -31,9 +33,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
     if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
+        if (decompose_hangul(codepoint, &s, end))
+            return s;
         return charstr_encode_utf8_codepoint(codepoint, s, end);
     }
     while (s && *dp)
-- 
2.43.0


From f98d648d0e4c5aaa6db3b8d87543166ab10ef3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 6/9] fix: charstr_idna_encode refuses overlong ASCII labels

An ASCII label of over 63 characters in a host name with non-ASCII labels
failed an assertion and stopped the process.
---
 src/charstr_puny.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..ed589e5 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,8 +167,11 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
+    if (!nonascii_count) {
+        if (*output_size > MAX_DNS_LABEL_LENGTH)
+            return fail("label too long");
         return next;
+    }
     if (ascii_count)
         o = emit(o, end_output, output_size, '-');
     o = punycode_encode_pass2(input, end, o, end_output, output_size,
-- 
2.43.0


From 856b80349ebccd33815e04f6718979ef8c7c491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:03 +0000
Subject: [PATCH 7/9] fix: fscalloc must not wrap around on overflow

When nmemb * size overflowed, a block smaller than asked for was returned.
---
 src/fsalloc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..423709b 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -1,3 +1,4 @@
+#include <stdint.h>
 #include <string.h>
 #include "fsalloc.h"
 #include "fsdyn_version.h"
@@ -69,7 +70,10 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (size != 0 && nmemb > SIZE_MAX / size)
+        size = SIZE_MAX; /* let the reallocator refuse it */
+    else
+        size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From d119e879ec046a0b5f2acf948087ee013ab917c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:26 +0000
Subject: [PATCH 8/9] fix: make_intset must not wrap around on overflow

BITS_TO_LONGS overflowed for sizes above SIZE_MAX - 63, so that make_intset()
allocated no words at all for a set of (almost) SIZE_MAX elements.
---
 src/intset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intset.c b/src/intset.c
index 87e36a2..34e5390 100644
--- a/src/intset.c
+++ b/src/intset.c
@@ -7,7 +7,8 @@
 #ifndef LONG_BIT
 #define LONG_BIT (sizeof(unsigned long) * CHAR_BIT)
 #endif
-#define BITS_TO_LONGS(bits) ((bits + LONG_BIT - 1) / LONG_BIT)
+#define BITS_TO_LONGS(bits) \
+    ((bits) / LONG_BIT + ((bits) % LONG_BIT != 0))
 
 intset_t *make_intset(size_t size)
 {
-- 
2.43.0


From 73dd771c35cae9113c8ea9df3615d3f9374be000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 9/9] fix: gen_idna_table reports I/O errors

A read error within the table's data file or a failing write of the
generated table went unnoticed, and the generator exited successfully.
---
 src/gen_idna_table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..4d7d4ea 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -172,6 +172,10 @@ int main(int argc, const char *const *argv)
         list_foreach(parts, (void *) fsfree, NULL);
         destroy_list(parts);
     }
+    if (ferror(f)) {
+        perror(argv[1]);
+        return EXIT_FAILURE;
+    }
     free(line);
     for (int cp = 0; cp < N_CP; cp++)
         assert(table[cp].status);
@@ -187,5 +191,9 @@ int main(int argc, const char *const *argv)
     generate_set("mapped"); /* about the same as generate_test() but probably faster */
     generate_set("valid"); /* 20 kB smaller than generate_test() and probably faster */
     generate_mappings();
+    if (fflush(stdout) || ferror(stdout)) {
+        perror("stdout");
+        return EXIT_FAILURE;
+    }
     return EXIT_SUCCESS;
 }
-- 
2.43.0

