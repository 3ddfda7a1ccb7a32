From a069441b9f32a80e499bce38163c8ace16b683d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 01/55] fix: do not swap the bytes of the caller's array in
 place

Converting an array that is not in machine byte order swapped the source in
place: writing a big endian array left the caller's array swapped, and
reading a big endian attribute corrupted the attribute.
---
 src/bigfile.c | 61 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..abbbe06 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1261,16 +1261,11 @@ dtype_convert_simple(void * dst, const char * dstdtype, const void * src, const
 
 static int cast(BigArrayIter * dst, BigArrayIter * src, size_t nmemb);
 static void byte_swap(BigArrayIter * array, size_t nmemb);
-int
-_dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
-{
-    /* cast buf2 of dtype2 into buf1 of dtype1 */
-    /* match src to machine endianness */
-    if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
-        byte_swap(&iter, nmemb);
-    }
 
+/* cast src, which is in machine endianness, into dst */
+static int
+_dtype_convert_native(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
+{
     BigArrayIter iter1 = *dst;
     BigArrayIter iter2 = *src;
 
@@ -1289,6 +1284,54 @@ _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
     return 0;
 }
 
+int
+_dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
+{
+    /* cast buf2 of dtype2 into buf1 of dtype1 */
+    if(src->array->dtype[0] == MACHINE_ENDIANNESS) {
+        return _dtype_convert_native(dst, src, nmemb);
+    }
+
+    /* match src to machine endianness; the memory of src belongs to the caller,
+     * thus swap a copy of it. */
+    char dtype[8];
+    memcpy(dtype, src->array->dtype, 8);
+    dtype[0] = MACHINE_ENDIANNESS;
+
+    size_t elsize = big_file_dtype_itemsize(dtype);
+    size_t chunksize = nmemb < 4096?nmemb:4096;
+    char * copy = malloc(chunksize * elsize + 1);
+    RAISEIF(copy == NULL,
+        ex_malloc,
+        "Not enough memory for the byte order conversion");
+
+    while(nmemb > 0) {
+        size_t n = nmemb < chunksize?nmemb:chunksize;
+        size_t i;
+        for(i = 0; i < n; i ++) {
+            memcpy(copy + i * elsize, src->dataptr, elsize);
+            big_array_iter_advance(src);
+        }
+        BigArray array;
+        BigArrayIter iter;
+        big_array_init(&array, copy, dtype, 1, &n, NULL);
+        big_array_iter_init(&iter, &array);
+        byte_swap(&iter, n);
+        big_array_iter_init(&iter, &array);
+        RAISEIF(0 != _dtype_convert_native(dst, &iter, n),
+            ex_convert,
+            NULL);
+        nmemb -= n;
+    }
+    free(copy);
+    return 0;
+
+ex_convert:
+    free(copy);
+ex_malloc:
+    return -1;
+}
+
 
 static void
 byte_swap(BigArrayIter * iter, size_t nmemb)
-- 
2.43.0


From 8e063ae4f2f110676e2e933add32fe33ea8ce3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 02/55] fix: swap the two halves of complex numbers separately

Reversing all bytes of a complex number exchanges the real and imaginary parts.
---
 src/bigfile.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index abbbe06..412c77e 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1338,18 +1338,25 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
 {
     /* swap a buffer in-place */
     int elsize = big_file_dtype_itemsize(iter->array->dtype);
+    int kind = big_file_dtype_kind(iter->array->dtype);
     if(elsize == 1) return;
+    /* a complex number is two numbers; swap each of them */
+    int nparts = (kind == 'c')?2:1;
+    elsize /= nparts;
     /* need byte swap; do it now on buf2 */
     /* XXX: this may still be wrong. */
     ptrdiff_t i;
     int half = elsize >> 1;
     for(i = 0; i < nmemb; i ++) {
         int j;
+        int k;
         char * ptr = iter->dataptr;
-        for(j = 0; j < half; j ++) {
-            char tmp = ptr[j];
-            ptr[j] = ptr[elsize - j - 1];
-            ptr[elsize - j - 1] = tmp;
+        for(k = 0; k < nparts; k ++, ptr += elsize) {
+            for(j = 0; j < half; j ++) {
+                char tmp = ptr[j];
+                ptr[j] = ptr[elsize - j - 1];
+                ptr[elsize - j - 1] = tmp;
+            }
         }
         big_array_iter_advance(iter);
     }
-- 
2.43.0


From 6df1b3e0ed060c55a8bbed4ceaf2cd114a83548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 03/55] fix: store the removal of an attribute

Removing an attribute did not mark the attributes as modified, so that it came
back unless another attribute was set before the next flush.
---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 412c77e..f1a991e 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1753,6 +1753,7 @@ attrset_remove_attr(BigAttrSet * attrset, const char * attrname)
     memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
         (attrset->listused - ind - 1) * sizeof(BigAttr));
     attrset->listused -= 1;
+    attrset->dirty = 1;
 
     return 0;
 
-- 
2.43.0


From 2a98b48016c4ebac3f9a56dc3e0e8447fa28b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 04/55] fix: read and write rows that are larger than the
 buffer

big_block_write looped forever, and big_block_read failed, if a single row
did not fit in the buffer set with big_file_set_buffer_size.
---
 src/bigfile.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index f1a991e..cd332cf 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -797,11 +797,11 @@ ex_seek:
 int
 big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
-    char * chunkbuf = malloc(CHUNK_BYTES);
-
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* the buffer holds at least one row */
+    size_t CHUNK_SIZE = CHUNK_BYTES < felsize ? 1 : CHUNK_BYTES / felsize;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -893,10 +893,11 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     if(array->size == 0) return 0;
     /* the file header is modified */
     bb->dirty = 1;
-    char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* the buffer holds at least one row */
+    size_t CHUNK_SIZE = CHUNK_BYTES < felsize ? 1 : CHUNK_BYTES / felsize;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -910,7 +911,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     RAISEIF(chunkbuf == NULL,
             ex_malloc,
-            "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
+            "not enough memory for chunkbuf of size %td bytes", CHUNK_SIZE * felsize);
 
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
-- 
2.43.0


From 60ba949a3f8c878d12ef01fa19a43d1c9283528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 05/55] fix: treat an array without dimensions as one element

big_array_init ignored the element of a 0-d array when strides were
given (strides[-1] was read): nothing was transferred.
---
 src/bigfile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index cd332cf..f5af389 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1079,6 +1079,13 @@ big_array_init(BigArray * array, void * buf, const char * dtype, int ndim, const
     memset(array->dims, 0, sizeof(ptrdiff_t) * 32);
     memset(array->strides, 0, sizeof(ptrdiff_t) * 32);
     array->size = 1;
+    if(ndim == 0) {
+        /* a scalar: the same as an array of one element */
+        array->ndim = 1;
+        array->dims[0] = 1;
+        array->strides[0] = big_file_dtype_itemsize(dtype);
+        return 0;
+    }
     for(i = 0; i < ndim; i ++) {
         array->dims[i] = dims[i];
         array->size *= dims[i];
-- 
2.43.0


From 86c39bbded3c6b01e7252090f23761010672e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 06/55] fix: create only blocks that can be opened again

Creating a block with a type, number of members or files that
_big_block_open refuses replaced any existing block by one that can not
be opened.  Also accept the documented type 'a' when opening.
---
 src/bigfile.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index f5af389..d8536fc 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -484,12 +484,7 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
       "Column name cannot contain blanks (space, tab or newline)"
     );
 
-    bb->basename = _strdup(basename);
-
-    bb->attrset = attrset_create();
-    bb->attrset->dirty = 1;
-
-    if (!endswith(bb->basename, "/.") && 0 != strcmp(bb->basename, ".")) {
+    if (!endswith(basename, "/.") && 0 != strcmp(basename, ".")) {
         if(dtype == NULL) {
             dtype = "i8";
             Nfile = 0;
@@ -498,6 +493,21 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         /* always use normalized dtype in files. */
         _dtype_normalize(bb->dtype, dtype);
 
+        /* refuse what _big_block_open refuses, before the files are touched */
+        RAISEIF(strlen(dtype) > 7 || !dtype_isvalid(bb->dtype), ex_name,
+                "Unreasonable value for dtype of block `%s' (%s)", basename, dtype);
+        RAISEIF(Nfile < 0 || Nfile >= INT_MAX-1, ex_name,
+                "Unreasonable value for Nfile of block `%s' (%d)", basename, Nfile);
+        RAISEIF(nmemb < 0, ex_name,
+                "Unreasonable value for nmemb of block `%s' (%d)", basename, nmemb);
+    }
+
+    bb->basename = _strdup(basename);
+
+    bb->attrset = attrset_create();
+    bb->attrset->dirty = 1;
+
+    if (!endswith(bb->basename, "/.") && 0 != strcmp(bb->basename, ".")) {
         bb->Nfile = Nfile;
         bb->nmemb = nmemb;
         bb->fsize = calloc(bb->Nfile + 1, sizeof(size_t));
@@ -1040,10 +1050,16 @@ dtype_isvalid(const char * dtype)
         case 'f':
         case 'u':
         case 'c':
+        case 'a':
             break;
         default:
             return 0;
     }
+    int i;
+    for(i = 2; dtype[i]; i ++) {
+        if(dtype[i] < '0' || dtype[i] > '9')
+            return 0;
+    }
     int width = atoi(&dtype[2]);
     if(width > 16 || width <= 0)
         return 0;
-- 
2.43.0


From 9e19edad61ca83266f587335e2ae21aa2b40815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 07/55] fix: attributes that can not be stored or parsed

Setting an attribute with an empty name, an incomplete type or a negative
length is refused before anything changes (it made the block unopenable or
crashed).  Attributes without members, which are written without a data
field, can be read again.  The parser of attr-v2 never reads past the end
of a line or of a truncated file.
---
 src/bigfile.c | 89 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 24 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index d8536fc..4c2be1a 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include <alloca.h>
 #include <stdint.h>
 #include <stddef.h>
@@ -74,6 +75,7 @@ dtype_convert_simple(void * dst, const char * dstdtype, const void * src, const
 
 /*Check dtype is valid*/
 static int dtype_isvalid(const char * dtype);
+static int attr_dtype_isvalid(const char * dtype);
 
 /* postfix detection, 1 if postfix is a postfix of str */
 static int
@@ -1066,6 +1068,24 @@ dtype_isvalid(const char * dtype)
     return 1;
 }
 
+/* Check that the type of an attribute is complete, and is not cut off by the normalization */
+static int
+attr_dtype_isvalid(const char * dtype)
+{
+    char ndtype[8];
+    int i;
+    _dtype_normalize(ndtype, dtype);
+    if(strlen(dtype) > 7 || (ndtype[1] != dtype[1] && strlen(dtype) > 6))
+        return 0;
+    if(!isalpha((unsigned char) ndtype[1]))
+        return 0;
+    for(i = 2; ndtype[i]; i ++) {
+        if(ndtype[i] < '0' || ndtype[i] > '9')
+            return 0;
+    }
+    return atoi(&ndtype[2]) > 0;
+}
+
 int
 big_file_dtype_itemsize(const char * dtype)
 {
@@ -1581,35 +1601,51 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     /* now parse the v2 attr file.*/
     long i = 0;
+    /* a field ends with a blank, and never extends to the next line */
     #define ATTRV2_EXPECT(variable) while(_isblank(buffer[i])) i++; \
                     char * variable = buffer + i; \
-                    while(!_isblank(buffer[i])) i++; buffer[i] = 0; i++;
-    while(buffer[i]) {
+                    while(buffer[i] && buffer[i] != '\n' && !_isblank(buffer[i])) i++; \
+                    RAISEIF(variable == buffer + i || !_isblank(buffer[i]), \
+                        ex_parse_attr, "Malformed attribute file of `%s'", basename); \
+                    buffer[i] = 0; i++;
+    while(i < size) {
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
         ATTRV2_EXPECT(rawlength);
-        ATTRV2_EXPECT(rawdata);
-        /* skip the reset of the line */
-        while(buffer[i] != '\n' && buffer[i]) i ++;
-        if(buffer[i] == '\n') i++;
-
-        int nmemb = atoi(rawlength);
-        int itemsize = big_file_dtype_itemsize(dtype);
 
-        RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
+        char * endptr;
+        long nmemb = strtol(rawlength, &endptr, 10);
+        RAISEIF(*endptr || nmemb < 0 || nmemb > size || !attr_dtype_isvalid(dtype),
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
-            nmemb, itemsize, dtype, strlen(rawdata));
-
-        int j, k;
-        for(k = 0, j = 0; k < nmemb * itemsize; k ++, j += 2) {
-            char buf[3];
-            buf[0] = rawdata[j];
-            buf[1] = rawdata[j+1];
-            buf[2] = 0;
-            unsigned int byte = strtoll(buf, NULL, 16);
-            data[k] = byte;
+            "Malformed attribute `%s' (%s x %s) of `%s'", name, dtype, rawlength, basename);
+        long ldata = nmemb * big_file_dtype_itemsize(dtype);
+
+        /* an empty attribute has no data field */
+        if(ldata > 0) {
+            ATTRV2_EXPECT(rawdata);
+
+            RAISEIF(ldata * 2 != strlen(rawdata),
+                ex_parse_attr,
+                "NMEMB and data mismiatch: %ld bytes (%s) * 2 != %ld",
+                ldata, dtype, (long) strlen(rawdata));
+
+            long j, k;
+            for(k = 0, j = 0; k < ldata; k ++, j += 2) {
+                char buf[3];
+                buf[0] = rawdata[j];
+                buf[1] = rawdata[j+1];
+                buf[2] = 0;
+                RAISEIF(strspn(buf, "0123456789abcdefABCDEF") != 2,
+                    ex_parse_attr,
+                    "Malformed data of attribute `%s' of `%s'", name, basename);
+                unsigned int byte = strtoll(buf, NULL, 16);
+                data[k] = byte;
+            }
         }
+        /* skip the reset of the line */
+        while(buffer[i] != '\n' && i < size) i ++;
+        if(buffer[i] == '\n') i++;
+
         RAISEIF(0 != attrset_set_attr(attrset, name, data, dtype, nmemb),
             ex_set_attr,
             NULL);
@@ -1796,15 +1832,20 @@ static int
 attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data, const char * dtype, int nmemb)
 {
     BigAttr * attr;
-    attrset->dirty = 1;
 
     RAISEIF (
-         strchr(attrname, ' ')
+         attrname[0] == 0
+      || strchr(attrname, ' ')
       || strchr(attrname, '\t')
       || strchr(attrname, '\n'),
       ex_name,
-      "Attribute name cannot contain blanks (space, tab or newline)"
+      "Attribute name cannot be empty or contain blanks (space, tab or newline)"
     );
+    RAISEIF(!attr_dtype_isvalid(dtype) || nmemb < 0,
+      ex_name,
+      "Unreasonable type or length of attribute `%s' (%s x %d)", attrname, dtype, nmemb);
+
+    attrset->dirty = 1;
 
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
-- 
2.43.0


From b97e88aa71266acea04b639e9d4f3ff2d86e0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 08/55] fix: error messages of any length, with any characters

The message was formatted into a buffer of fixed size, and passed on as a
format string when it was raised again.
---
 src/bigfile.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4c2be1a..24c6350 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -158,26 +158,28 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
+    char * text;
     if(!msg) {
-        if(ERRORSTR) {
-            msg = ERRORSTR;
-        } else {
-            msg = "UNKNOWN ERROR";
-        }
+        /* pass on the previous message; it is not a format */
+        text = _strdup(ERRORSTR?ERRORSTR:"UNKNOWN ERROR");
+    } else {
+        va_list va;
+        va_start(va, line);
+        int n = vsnprintf(NULL, 0, msg, va);
+        va_end(va);
+        text = malloc(n + 1);
+        va_start(va, line);
+        vsnprintf(text, n + 1, msg, va);
+        va_end(va);
     }
 
-    size_t len = strlen(msg) + strlen(file) + 512;
+    size_t len = strlen(text) + strlen(file) + 64;
     char * errorstr = malloc(len);
-
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
-    va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
-    va_end(va);
+    snprintf(errorstr, len, "%s @(%s:%d)", text, file, line);
 
     big_file_set_error_message(errorstr);
     free(errorstr);
+    free(text);
 }
 
 /* BigFile */
-- 
2.43.0


From 526514de32a01c8dd62651a00a1d273787e9b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 09/55] fix: attributes removed from a block with legacy
 attributes came back

The legacy file was never updated, and is read again when the block is
opened (also after the block was created again).
---
 src/bigfile.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 24c6350..0bc84b5 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1734,6 +1734,16 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             "Failed to write to file");
     } 
     fclose(fattr);
+
+    /* All attributes are in the new file. Remove the legacy file, otherwise
+     * attributes that were removed come back from it. */
+    char * legacy = _path_join(basename, EXT_ATTR);
+    int rt = unlink(legacy);
+    free(legacy);
+    RAISEIF(rt != 0 && errno != ENOENT && errno != EISDIR && errno != EPERM,
+            ex_open,
+            "Failed to remove the legacy attribute file of `%s' (%s)", basename,
+            strerror(errno));
     return 0;
 ex_write:
     fclose(fattr);
-- 
2.43.0


From d812067fb8a273b4d69722b5e9124dc01fd1bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 10/55] fix: malformed headers and legacy attribute files

The header reader overflowed the type, let numbers wrap around, accepted
negative or overflowing sizes and repeated files (leaving others with
invented sizes), and allocated whatever NFILE says.  The legacy attribute
reader allocated unchecked lengths on the stack.
---
 src/bigfile.c | 110 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 84 insertions(+), 26 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 0bc84b5..1af60f1 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -315,6 +315,22 @@ sysvsum(unsigned int * sum, void * buf, size_t size);
 
 /* Bigblock */
 
+/* read an unsigned decimal number that does not exceed max; returns non-zero on error.
+ * fmt is the text before the number and %23[0-9] for the number. */
+static int
+_scan_number(FILE * fp, const char * fmt, size_t max, size_t * value)
+{
+    char digits[24];
+    char * p;
+    if(1 != fscanf(fp, fmt, digits)) return -1;
+    *value = 0;
+    for(p = digits; *p; p ++) {
+        if(*value > (max - (*p - '0')) / 10) return -1;
+        *value = *value * 10 + (*p - '0');
+    }
+    return 0;
+}
+
 int
 _big_block_open(BigBlock * bb, const char * basename)
 {
@@ -340,19 +356,26 @@ _big_block_open(BigBlock * bb, const char * basename)
                 ex_open,
                 NULL);
 
+        struct stat st;
+        size_t nmemb = 0, Nfile = 0;
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
-               (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
-               (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
+               (0 != fstat(fileno(fheader), &st)) ||
+               (1 != fscanf(fheader, " DTYPE: %7s", bb->dtype)) ||
+               (0 != _scan_number(fheader, " NMEMB: %23[0-9]", INT_MAX, &nmemb)) ||
+               (0 != _scan_number(fheader, " NFILE: %23[0-9]", INT_MAX, &Nfile)),
                ex_fscanf,
                "Failed to read header of block `%s' (%s)", bb->basename, strerror(errno));
 
-        RAISEIF(bb->Nfile < 0 || bb->Nfile >= INT_MAX-1, ex_fscanf, 
-                "Unreasonable value for Nfile in header of block `%s' (%d)",bb->basename,bb->Nfile);
-        RAISEIF(bb->nmemb < 0, ex_fscanf, 
-                "Unreasonable value for nmemb in header of block `%s' (%d)",bb->basename,bb->nmemb);
+        /* every file has a line in the header */
+        RAISEIF(Nfile >= INT_MAX-1 || Nfile > st.st_size, ex_fscanf,
+                "Unreasonable value for Nfile in header of block `%s' (%td)",bb->basename,Nfile);
         RAISEIF(!dtype_isvalid(bb->dtype), ex_fscanf, 
                 "Unreasonable value for dtype in header of block `%s' (%s)",bb->basename,bb->dtype);
+        size_t felsize = nmemb * big_file_dtype_itemsize(bb->dtype);
+        RAISEIF(felsize > INT_MAX, ex_fscanf,
+                "Unreasonable value for nmemb in header of block `%s' (%td)",bb->basename,nmemb);
+        bb->nmemb = nmemb;
+        bb->Nfile = Nfile;
         bb->fsize = calloc(bb->Nfile + 1, sizeof(size_t));
         RAISEIF(!bb->fsize,
                 ex_fsize,
@@ -366,17 +389,31 @@ _big_block_open(BigBlock * bb, const char * basename)
                 ex_fchecksum,
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
+        /* mark the files that were not seen yet */
+        for(i = 0; i < bb->Nfile; i ++) {
+            bb->foffset[i] = 1;
+        }
+        size_t left = PTRDIFF_MAX / (felsize?felsize:1);
         for(i = 0; i < bb->Nfile; i ++) {
-            int fid; 
+            char name[8] = {0};
+            char colon = 0;
             size_t size;
-            unsigned int cksum;
-            unsigned int sysv;
-            RAISEIF(4 != fscanf(fheader, " " EXT_DATA ": %td : %u : %u", &fid, &size, &cksum, &sysv),
+            size_t cksum;
+            size_t sysv;
+            RAISEIF(2 != fscanf(fheader, " %6[0-9A-Fa-f]%c", name, &colon) || colon != ':' ||
+                    (0 != _scan_number(fheader, " %23[0-9]", PTRDIFF_MAX, &size)) ||
+                    (0 != _scan_number(fheader, " : %23[0-9]", UINT_MAX, &cksum)) ||
+                    (0 != _scan_number(fheader, " : %23[0-9]", UINT_MAX, &sysv)),
                     ex_fscanf1,
-                    "Failed to readin physical file layout `%s' %d (%s)", bb->basename, fid,
+                    "Failed to readin physical file layout `%s' %d (%s)", bb->basename, i,
                     strerror(errno));
-            RAISEIF(fid < 0 || fid >= bb->Nfile, ex_fscanf1,
-                    "Non-existent file referenced: `%s' (%d)", bb->basename, fid);
+            long fid = strtol(name, NULL, 16);
+            RAISEIF(fid >= bb->Nfile || !bb->foffset[fid], ex_fscanf1,
+                    "Non-existent or repeated file referenced: `%s' (%ld)", bb->basename, fid);
+            RAISEIF(size > left, ex_fscanf1,
+                    "Unreasonable size of file in header of block `%s' (%ld)", bb->basename, fid);
+            left -= size;
+            bb->foffset[fid] = 0;
             bb->fsize[fid] = size;
             bb->fchecksum[fid] = cksum;
         }
@@ -502,7 +539,7 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
                 "Unreasonable value for dtype of block `%s' (%s)", basename, dtype);
         RAISEIF(Nfile < 0 || Nfile >= INT_MAX-1, ex_name,
                 "Unreasonable value for Nfile of block `%s' (%d)", basename, Nfile);
-        RAISEIF(nmemb < 0, ex_name,
+        RAISEIF(nmemb < 0 || nmemb > INT_MAX / big_file_dtype_itemsize(bb->dtype), ex_name,
                 "Unreasonable value for nmemb of block `%s' (%d)", basename, nmemb);
     }
 
@@ -1539,30 +1576,50 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     int nmemb;
     int lname;
     char dtype[9]={0};
-    char * data;
-    char * name;
-    while(!feof(fattr)) {
-        if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
+    char * record = NULL;
+    struct stat st;
+    RAISEIF(0 != fstat(fileno(fattr), &st),
+        ex_fread,
+        "Failed to stat the attribute file of `%s' (%s)", basename, strerror(errno));
+    /* a block called attr, not an attribute file */
+    if(S_ISDIR(st.st_mode)) {
+        fclose(fattr);
+        return 0;
+    }
+    while(1) {
+        size_t nread = fread(&nmemb, 1, sizeof(int), fattr);
+        if(nread == 0 && !ferror(fattr)) break;
         RAISEIF(
+            (sizeof(int) != nread) ||
             (1 != fread(&lname, sizeof(int), 1, fattr)) ||
             (1 != fread(&dtype, 8, 1, fattr)) ||
-            (!dtype_isvalid(dtype)),
+            (!dtype_isvalid(dtype)) || (!attr_dtype_isvalid(dtype)) ||
+            (nmemb < 0) || (nmemb > st.st_size) || (lname <= 0) || (lname > st.st_size),
             ex_fread,
-            "Failed to read from file"
+            "Failed to read from the attribute file of `%s'", basename
                 )
-        int ldata = big_file_dtype_itemsize(dtype) * nmemb;
-        data = alloca(ldata);
-        name = alloca(lname + 1);
+        size_t ldata = big_file_dtype_itemsize(dtype) * (size_t) nmemb;
+        record = malloc(lname + 1 + ldata);
+        RAISEIF(record == NULL,
+            ex_fread,
+            "Not enough memory for the attributes of `%s'", basename);
+        char * name = record;
+        char * data = record + lname + 1;
         RAISEIF(
             (1 != fread(name, lname, 1, fattr)) ||
-            (1 != fread(data, ldata, 1, fattr)),
+            (ldata != fread(data, 1, ldata, fattr)),
             ex_fread,
-            "Failed to read from file");
+            "Failed to read from the attribute file of `%s'", basename);
 
         name[lname] = 0;
+        RAISEIF(strlen(name) != lname,
+            ex_fread,
+            "Malformed name in the attribute file of `%s'", basename);
         RAISEIF(0 != attrset_set_attr(attrset, name, data, dtype, nmemb),
             ex_set_attr,
             NULL);
+        free(record);
+        record = NULL;
     }
     attrset->dirty = 0;
     fclose(fattr);
@@ -1570,6 +1627,7 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 ex_set_attr:
 ex_fread:
     attrset->dirty = 0;
+    free(record);
     fclose(fattr);
     return -1;
 }
-- 
2.43.0


From df7b9669d2c88340c0ea84e94d9403c14e99eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 11/55] fix: refuse layouts whose size overflows

---
 src/bigfile.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1af60f1..46bf79e 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -449,9 +449,29 @@ ex_readattr:
         return -1;
 }
 
+/* Check that adding the files to size existing rows does not overflow. */
+static int
+layout_isvalid(size_t felsize, size_t size, int Nfile, const size_t fsize[])
+{
+    size_t left = PTRDIFF_MAX / (felsize?felsize:1);
+    int i;
+    if(size > left) return 0;
+    left -= size;
+    for(i = 0; i < Nfile; i ++) {
+        if(fsize[i] > left) return 0;
+        left -= fsize[i];
+    }
+    return 1;
+}
+
 int
 _big_block_grow_internal(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
 {
+    RAISEIF(Nfile_grow < 0 || Nfile_grow >= INT_MAX - 1 - bb->Nfile ||
+            !layout_isvalid(bb->nmemb * big_file_dtype_itemsize(bb->dtype), bb->size, Nfile_grow, fsize_grow),
+            ex_layout,
+            "Unreasonable sizes of files to grow block `%s'", bb->basename);
+
     int Nfile = Nfile_grow + bb->Nfile;
 
     size_t * fsize = calloc(Nfile + 1, sizeof(size_t));
@@ -485,6 +505,8 @@ _big_block_grow_internal(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[
     bb->size = bb->foffset[Nfile];
     bb->dirty = 1;
     return 0;
+ex_layout:
+    return -1;
 }
 
 int
@@ -492,7 +514,9 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
 {
     int oldNfile = bb->Nfile;
 
-    _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
+    RAISEIF(0 != _big_block_grow_internal(bb, Nfile_grow, fsize_grow),
+            ex_fileio,
+            NULL);
 
     int i;
 
@@ -541,6 +565,8 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
                 "Unreasonable value for Nfile of block `%s' (%d)", basename, Nfile);
         RAISEIF(nmemb < 0 || nmemb > INT_MAX / big_file_dtype_itemsize(bb->dtype), ex_name,
                 "Unreasonable value for nmemb of block `%s' (%d)", basename, nmemb);
+        RAISEIF(!layout_isvalid(nmemb * big_file_dtype_itemsize(bb->dtype), 0, Nfile, fsize), ex_name,
+                "Unreasonable sizes of files of block `%s'", basename);
     }
 
     bb->basename = _strdup(basename);
-- 
2.43.0


From a7bdb1484408c320b8a529c2e7c8e411a2ab4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 12/55] fix: report text that can not be parsed; never format
 types wider than the buffer

---
 src/bigfile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 46bf79e..2ce8b3a 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1285,7 +1285,10 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     _dtype_normalize(ndtype2, dtype);
     ndtype2[0] = '=';
     _dtype_normalize(ndtype, ndtype2);
-    dtype_convert_simple(converted, ndtype, data, dtype, 1);
+    /* wide strings do not fit, and are not formatted */
+    if(big_file_dtype_itemsize(ndtype) <= sizeof(converted)) {
+        dtype_convert_simple(converted, ndtype, data, dtype, 1);
+    }
 
     p.v = converted;
 #define FORMAT1(dtype, defaultfmt) \
@@ -1333,12 +1336,12 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
 #define PARSE1(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, p.dtype); \
+        if(1 != sscanf(buffer, fmt, p.dtype)) return -1; \
     }
 #define PARSE2(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i); \
+        if(2 != sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i)) return -1; \
     }
     PARSE1(a1, "%c") else
     PARSE1(i8, "%ld") else
-- 
2.43.0


From e76c571dab1fdd2bef4261e813f467b1d7d05d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 13/55] fix: unreadable attribute files are not missing ones

---
 src/bigfile.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 2ce8b3a..7d3b711 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1600,6 +1600,10 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
+        /* a missing file means no attributes, an unreadable one does not */
+        RAISEIF(errno != ENOENT,
+            ex_open,
+            "Failed to open the attribute file of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
     int nmemb;
@@ -1658,6 +1662,7 @@ ex_fread:
     attrset->dirty = 0;
     free(record);
     fclose(fattr);
+ex_open:
     return -1;
 }
 
@@ -1672,9 +1677,13 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
+        RAISEIF(errno != ENOENT,
+            ex_open,
+            "Failed to open the attribute file of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
-    fseek(fattr, 0, SEEK_END);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_END), ex_init,
+            "Failed to seek in the attribute file of `%s' (%s)", basename, strerror(errno));
     long size = ftell(fattr);
     /*ftell may fail*/
     RAISEIF(size < 0, ex_init, "ftell error: %s",strerror(errno));
@@ -1682,7 +1691,8 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     RAISEIF(!buffer, ex_init, "Could not allocate memory for buffer: %ld bytes",size+1);
     unsigned char * data = (unsigned char * ) malloc(size + 1);
     RAISEIF(!data, ex_data, "Could not allocate memory for data: %ld bytes",size+1);
-    fseek(fattr, 0, SEEK_SET);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_SET), ex_read_file,
+            "Failed to seek in the attribute file of `%s' (%s)", basename, strerror(errno));
     RAISEIF(size != fread(buffer, 1, size, fattr),
             ex_read_file,
             "Failed to read attribute file\n");
@@ -1754,6 +1764,7 @@ ex_data:
     free(buffer);
 ex_init:
     fclose(fattr);
+ex_open:
     return -1;
 }
 static int
@@ -2153,7 +2164,12 @@ _big_file_open_a_file(const char * basename, int fileid, char * mode, int raise)
         setbuf(fp, NULL);
     }
 ex_fopen:
-    free(filename);
+    {
+        /* the caller may look at the reason */
+        int saved_errno = errno;
+        free(filename);
+        errno = saved_errno;
+    }
     return fp;
 }
 static
-- 
2.43.0


From 040a2820ec5d5f51a0a897e0482c7f78010187f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 14/55] fix: replace header and attributes atomically, and
 notice when that fails

---
 src/bigfile.c | 67 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 7d3b711..7bbcdf3 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -143,6 +143,48 @@ static char * _path_join(const char * part1, const char * part2)
     return result;
 }
 
+/* The header and the attributes are written to a temporary file, which replaces the
+ * previous one in a single step when it is complete; thus neither a failure, a crash nor
+ * another process ever sees a part of it. */
+static FILE *
+_big_file_begin_replace(const char * basename, const char * name, char ** tmpname)
+{
+    char * filename = _path_join(basename, name);
+    *tmpname = malloc(strlen(filename) + 32);
+    sprintf(*tmpname, "%s.tmp%ld", filename, (long) getpid());
+    free(filename);
+    FILE * fp = fopen(*tmpname, "w");
+    RAISEIF(fp == NULL,
+        ex_fopen,
+        "Failed to open physical file `%s' for writing (%s)",
+        *tmpname, strerror(errno));
+    return fp;
+ex_fopen:
+    free(*tmpname);
+    return NULL;
+}
+
+static int
+_big_file_end_replace(FILE * fp, const char * basename, const char * name, char * tmpname, int commit)
+{
+    char * filename = _path_join(basename, name);
+    int failed = ferror(fp);
+    failed = (0 != fclose(fp)) || failed;
+    RAISEIF(commit && (failed || 0 != rename(tmpname, filename)),
+        ex_write,
+        "Failed to write `%s' (%s)",
+        filename, strerror(errno));
+    if(!commit) unlink(tmpname);
+    free(filename);
+    free(tmpname);
+    return 0;
+ex_write:
+    unlink(tmpname);
+    free(filename);
+    free(tmpname);
+    return -1;
+}
+
 static int
 _big_file_path_is_block(const char * basename)
 {
@@ -663,24 +705,27 @@ int
 big_block_flush(BigBlock * block)
 {
     FILE * fheader = NULL;
+    char * tmpname = NULL;
     if(block->dirty) {
         int i;
-        fheader = _big_file_open_a_file(block->basename, FILEID_HEADER, "w+", 1);
+        fheader = _big_file_begin_replace(block->basename, EXT_HEADER, &tmpname);
         RAISEIF(fheader == NULL, ex_fileio, NULL);
         RAISEIF(
             (0 > fprintf(fheader, "DTYPE: %s\n", block->dtype)) ||
             (0 > fprintf(fheader, "NMEMB: %d\n", block->nmemb)) ||
             (0 > fprintf(fheader, "NFILE: %d\n", block->Nfile)),
                 ex_fprintf,
-                "Writing file header");
+                "Failed to write the header of block `%s' (%s)", block->basename, strerror(errno));
         for(i = 0; i < block->Nfile; i ++) {
             unsigned int s = block->fchecksum[i];
             unsigned int r = (s & 0xffff) + ((s & 0xffffffff) >> 16);
             unsigned int checksum = (r & 0xffff) + (r >> 16);
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
-                ex_fprintf, "Writing file information to header");
+                ex_fprintf,
+                "Failed to write the header of block `%s' (%s)", block->basename, strerror(errno));
         }
-        fclose(fheader);
+        RAISEIF(0 != _big_file_end_replace(fheader, block->basename, EXT_HEADER, tmpname, 1),
+            ex_fileio, NULL);
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -692,7 +737,7 @@ big_block_flush(BigBlock * block)
     return 0;
 
 ex_fprintf:
-    fclose(fheader);
+    _big_file_end_replace(fheader, block->basename, EXT_HEADER, tmpname, 0);
 ex_write_attr:
 ex_fileio:
     return -1;
@@ -1771,9 +1816,9 @@ static int
 attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
-    attrset->dirty = 0;
 
-    FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
+    char * tmpname = NULL;
+    FILE * fattr = _big_file_begin_replace(basename, EXT_ATTR_V2, &tmpname);
     RAISEIF(fattr == NULL,
             ex_open,
             NULL);
@@ -1829,9 +1874,11 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
         free(textual);
         RAISEIF(rt <= 0,
             ex_write,
-            "Failed to write to file");
+            "Failed to write the attributes of `%s' (%s)", basename, strerror(errno));
     } 
-    fclose(fattr);
+    RAISEIF(0 != _big_file_end_replace(fattr, basename, EXT_ATTR_V2, tmpname, 1),
+            ex_open,
+            NULL);
 
     /* All attributes are in the new file. Remove the legacy file, otherwise
      * attributes that were removed come back from it. */
@@ -1844,7 +1891,7 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             strerror(errno));
     return 0;
 ex_write:
-    fclose(fattr);
+    _big_file_end_replace(fattr, basename, EXT_ATTR_V2, tmpname, 0);
 ex_open:
     return -1;
 }
-- 
2.43.0


From ad379f7d8d2a0c22083cc1f1e2572c302fc2e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 15/55] fix: listing reports directories it can not look into

---
 bigfile/pyxbigfile.pyx |  5 +++-
 src/bigfile.c          | 65 ++++++++++++++++++++++++++++++++----------
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 62b27fd..7d23e51 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -185,8 +185,11 @@ cdef class FileLowLevelAPI:
     def list_blocks(self):
         cdef char ** list
         cdef int N
+        cdef int rt
         with nogil:
-            big_file_list(&self.bf, &list, &N)
+            rt = big_file_list(&self.bf, &list, &N)
+        if rt != 0:
+            raise Error()
         try:
             return sorted([str(list[i].decode()) for i in range(N)])
         finally:
diff --git a/src/bigfile.c b/src/bigfile.c
index 7bbcdf3..6dfe946 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -190,10 +190,16 @@ _big_file_path_is_block(const char * basename)
 {
     FILE * fheader = _big_file_open_a_file(basename, FILEID_HEADER, "r", 0);
     if(fheader == NULL) {
+        /* not there, or not even a directory; otherwise we do not know */
+        RAISEIF(errno != ENOENT && errno != ENOTDIR,
+            ex_open,
+            "Failed to open the header of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
     fclose(fheader);
     return 1;
+ex_open:
+    return -1;
 }
 
 
@@ -266,59 +272,88 @@ _alphasort (const struct dirent **a, const struct dirent **b)
     return strcoll ((*a)->d_name, (*b)->d_name);
 }
 
-static struct
-bblist * listbigfile_r(const char * basename, char * blockname, struct bblist * bblist) {
+static void
+bblist_free(struct bblist * bblist)
+{
+    while(bblist) {
+        struct bblist * next = bblist->next;
+        free(bblist);
+        bblist = next;
+    }
+}
+
+/* prepends the blocks to bblist */
+static int
+listbigfile_r(const char * basename, char * blockname, struct bblist ** bblist)
+{
     struct dirent **namelist;
     int n;
     int i;
+    int rt = 0;
 
     char * current;
     current = _path_join(basename, blockname);
 
     n = scandir(current, &namelist, filter, _alphasort);
+    if (n < 0) {
+        /* a file, or removed in the meantime */
+        RAISEIF(errno != ENOTDIR && errno != ENOENT,
+            ex_scandir,
+            "Failed to list `%s' (%s)", current, strerror(errno));
+        free(current);
+        return 0;
+    }
     free(current);
-    if (n < 0)
-        return bblist;
 
     for(i = 0; i < n ; i ++) {
         char * blockname1 = _path_join(blockname, namelist[i]->d_name);
         char * fullpath1 = _path_join(basename, blockname1);
-        if(_big_file_path_is_block(fullpath1)) {
+        int isblock = rt == 0 ? _big_file_path_is_block(fullpath1) : -1;
+        if(isblock < 0) {
+            rt = -1;
+        } else if(isblock) {
             struct bblist * n = malloc(sizeof(struct bblist) + strlen(blockname1) + 1);
-            n->next = bblist;
+            n->next = *bblist;
             n->blockname = (char*) &n[1];
             strcpy(n->blockname, blockname1);
-            bblist = n;
+            *bblist = n;
         } else {
-            bblist = listbigfile_r(basename, blockname1, bblist);
+            rt = listbigfile_r(basename, blockname1, bblist);
         }
         free(fullpath1);
         free(blockname1);
         free(namelist[i]);
     }
     free(namelist);
-    return bblist;
+    return rt;
+ex_scandir:
+    free(current);
+    return -1;
 }
 
 int
 big_file_list(BigFile * bf, char *** blocknames, int * Nblocks)
 {
-    struct bblist * bblist = listbigfile_r(bf->basename, "", NULL);
+    struct bblist * bblist = NULL;
     struct bblist * p;
     int N = 0;
     int i;
+    RAISEIF(0 != listbigfile_r(bf->basename, "", &bblist),
+            ex_list,
+            NULL);
     for(p = bblist; p; p = p->next) {
         N ++;
     }
     *Nblocks = N;
     *blocknames = malloc(sizeof(char*) * N);
-    for(i = 0; i < N; i ++) {
-        (*blocknames)[i] = _strdup(bblist->blockname);
-        p = bblist;
-        bblist = bblist->next;
-        free(p); 
+    for(i = 0, p = bblist; i < N; i ++, p = p->next) {
+        (*blocknames)[i] = _strdup(p->blockname);
     }
+    bblist_free(bblist);
     return 0;
+ex_list:
+    bblist_free(bblist);
+    return -1;
 }
 
 int
-- 
2.43.0


From 0e8d8059a08ce01fae80dde4fafd0fb281448387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 16/55] fix: notice when closing a data file fails

---
 src/bigfile.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 6dfe946..036a249 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -603,7 +603,10 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create file %d of block `%s' (%s)",
+                i, bb->basename, strerror(errno));
     }
     return 0;
 
@@ -721,7 +724,10 @@ _big_block_create(BigBlock * bb, const char * basename, const char * dtype, int
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create file %d of block `%s' (%s)",
+                i, bb->basename, strerror(errno));
     }
 ex_internal:
     return rt;
@@ -1112,7 +1118,10 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 ex_write,
                 "Failed to write in block `%s' at (%d:%td) (%s)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_close,
+                "Failed to write in block `%s' at (%d:%td) (%s)",
+                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
 
         towrite -= chunk_size;
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
@@ -1123,6 +1132,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
-- 
2.43.0


From 27a87cac210711918f77b35cdce4bb2c24b8ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 17/55] fix: remnants of the previous block in a block being
 created

---
 src/bigfile.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 036a249..02b4d36 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -614,6 +614,38 @@ ex_fileio:
     return -1;
 }
 
+/* Remove what is left of a previous block, beginning with its header, such that the
+ * rows and attributes of the previous block never show up in the new one, even if creating
+ * the new one is interrupted. */
+static int
+_big_block_remove_previous(const char * basename, int Nfile)
+{
+    static const char * names[] = { EXT_HEADER, EXT_ATTR_V2, EXT_ATTR };
+    char d[128];
+    char * filename;
+    int rt;
+    int i;
+    for(i = 0; i < 3; i ++) {
+        filename = _path_join(basename, names[i]);
+        rt = unlink(filename);
+        RAISEIF(rt != 0 && errno != ENOENT && errno != EISDIR, ex_unlink,
+            "Failed to remove the previous file `%s' (%s)", filename, strerror(errno));
+        free(filename);
+    }
+    for(i = 0, rt = 0; rt == 0 || i < Nfile; i ++) {
+        sprintf(d, EXT_DATA, i);
+        filename = _path_join(basename, d);
+        rt = unlink(filename);
+        RAISEIF(rt != 0 && errno != ENOENT, ex_unlink,
+            "Failed to remove the previous file `%s' (%s)", filename, strerror(errno));
+        free(filename);
+    }
+    return 0;
+ex_unlink:
+    free(filename);
+    return -1;
+}
+
 int
 _big_block_create_internal(BigBlock * bb, const char * basename, const char * dtype, int nmemb, int Nfile, const size_t fsize[])
 {
@@ -674,6 +706,8 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         bb->size = bb->foffset[bb->Nfile];
         bb->dirty = 1;
 
+        RAISEIF(0 != _big_block_remove_previous(bb->basename, bb->Nfile),
+                ex_flush, NULL);
         RAISEIF(0 != big_block_flush(bb), 
                 ex_flush, NULL);
 
-- 
2.43.0


From a108d2824cb0f226e66c5c4d839258180aefb46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 18/55] fix: checksums of blocks flushed or grown by several
 ranks were lost or counted many times

---
 src/bigfile-mpi.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..be0d26c 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -12,6 +12,7 @@ static size_t _BigFileAggThreshold = 0;
 static int _big_file_mpi_verbose = 0;
 
 static int big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm);
+static void big_block_mpi_reduce_checksum(BigBlock * bb, int root, MPI_Comm comm);
 static int big_file_mpi_broadcast_anyerror(int rt, MPI_Comm comm);
 
 #define BCAST_AND_RAISEIF(rt, comm) \
@@ -227,6 +228,9 @@ big_block_mpi_grow(BigBlock * bb,
 
     int oldNfile = bb->Nfile;
 
+    /* the block is broadcast below; what the ranks have written must not be lost. */
+    big_block_mpi_reduce_checksum(bb, 0, comm);
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
@@ -280,18 +284,10 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
     int rank;
     MPI_Comm_rank(comm, &rank);
 
-    unsigned int * checksum = alloca(sizeof(int) * block->Nfile);
-    MPI_Reduce(block->fchecksum, checksum, block->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
-    int dirty;
-    MPI_Reduce(&block->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
+    big_block_mpi_reduce_checksum(block, 0, comm);
     int rt;
     if(rank == 0) {
         /* only the root rank updates */
-        int i;
-        big_block_set_dirty(block, dirty);
-        for(i = 0; i < block->Nfile; i ++) {
-            block->fchecksum[i] = checksum[i];
-        }
         rt = big_block_flush(block);
     } else {
         rt = 0;
@@ -378,11 +374,36 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* the checksums are counted on root; the other ranks only count what they add. */
+        memset(bb->fchecksum, 0, sizeof(bb->fchecksum[0]) * bb->Nfile);
     }
     free(buf);
     return 0;
 }
 
+/* Move the checksums and the dirty flag, counted on each rank since the block was last
+ * broadcast, to root. */
+static void
+big_block_mpi_reduce_checksum(BigBlock * bb, int root, MPI_Comm comm)
+{
+    int rank;
+    MPI_Comm_rank(comm, &rank);
+
+    unsigned int * checksum = malloc(sizeof(checksum[0]) * (bb->Nfile + 1));
+    int dirty = 0;
+    MPI_Reduce(bb->fchecksum, checksum, bb->Nfile, MPI_UNSIGNED, MPI_SUM, root, comm);
+    MPI_Reduce(&bb->dirty, &dirty, 1, MPI_INT, MPI_LOR, root, comm);
+
+    if(rank == root) {
+        memcpy(bb->fchecksum, checksum, sizeof(checksum[0]) * bb->Nfile);
+        big_block_set_dirty(bb, dirty);
+    } else {
+        memset(bb->fchecksum, 0, sizeof(bb->fchecksum[0]) * bb->Nfile);
+        big_block_set_dirty(bb, 0);
+    }
+    free(checksum);
+}
+
 static int
 _aggregated(
             BigBlock * block,
-- 
2.43.0


From 37d7624e730c88d4fddf9bc24ab9a7ab38aa54ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 19/55] fix: collective access ignored failed conversions and
 rows beyond the end of the block

---
 src/bigfile-mpi.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index be0d26c..5de2842 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -545,18 +545,25 @@ _aggregated(
     }
 
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
     }
-    if(rank == root) {
-        big_block_seek_rel(block, ptr1, offset);
-        e = action(block, ptr1, garray);
+    /* do not act unless the rows of every rank are there. */
+    e = big_file_mpi_broadcast_anyerror(e, comm);
+    if(e == 0 && rank == root) {
+        e = big_block_seek_rel(block, ptr1, offset);
+        if(e == 0) {
+            e = action(block, ptr1, garray);
+        }
     }
     if(action == big_block_read) {
+        e = big_file_mpi_broadcast_anyerror(e, comm);
+    }
+    if(e == 0 && action == big_block_read) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        e = _dtype_convert(iarray, ilarray, localsize * block->nmemb);
     }
 
     if(rank == root) {
-- 
2.43.0


From 70cb512526b17f1a69c480b9a0300db07f9caeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 20/55] fix: the parallel copy hung on errors, with one rank
 and with synchronous sends

---
 utils/bigfile-copy-mpi.c | 112 ++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 48 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 38451ec..ac7551f 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -27,7 +27,7 @@ size_t buffersize = 256 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 int main(int argc, char * argv[]) {
 
@@ -99,14 +99,17 @@ int main(int argc, char * argv[]) {
         big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
     }
 
+    int error = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            error = server();
         } else {
             slave();
         }
     }
+    MPI_Bcast(&error, 1, MPI_INT, 0, MPI_COMM_WORLD);
+
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -114,42 +117,83 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
+    MPI_Type_free(&MPI_TYPE_WORK);
+    MPI_Finalize();
+    return error?1:0;
+}
+
+/* copy one chunk; returns non-zero on errors */
+static int copy_chunk(int64_t offset, int64_t chunksize) {
+    BigArray array;
+    BigBlockPtr ptrnew;
+
+    if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
+        fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
+        return -1;
+    }
+    if(0 != big_block_seek(&bbnew, &ptrnew, offset)) {
+        fprintf(stderr, "failed to seek new: %s\n", big_file_get_error_message());
+        free(array.data);
+        return -1;
+    }
+    if(0 != big_block_write(&bbnew, &ptrnew, &array)) {
+        fprintf(stderr, "failed to write new: %s\n", big_file_get_error_message());
+        free(array.data);
+        return -1;
+    }
+    free(array.data);
     return 0;
 }
 
-void server() {
+/* hands out the chunks, returns non-zero if any of them could not be copied */
+int server() {
     int64_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
-    int64_t offset;
+    int64_t offset = 0;
     int64_t work[2];
-    for(offset = 0; offset < bb.size; ) {
+    int error = 0;
+    int nslaves = NTask - 1;
+
+    if(chunksize == 0) chunksize = 1;
+
+    while(nslaves > 0 || (NTask == 1 && !error && offset < bb.size)) {
         MPI_Status status;
         int result = 0;
-        MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
-                &status);
-        if(status.MPI_TAG == ERROR_TAG) {
-            break;
+        if(NTask > 1) {
+            /* every message of a slave is answered, such that a slave is never left sending
+             * nor waiting. */
+            MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
+                    &status);
+            if(status.MPI_TAG == ERROR_TAG) {
+                error = 1;
+            }
+            if(error || offset >= bb.size) {
+                work[0] = work[1] = 0;
+                MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+                nslaves --;
+                continue;
+            }
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
         if(offset + chunksize > bb.size) {
             chunksize = bb.size - offset;
         }
-        work[0] = offset;
-        work[1] = chunksize;
-        MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
+        if(NTask > 1) {
+            work[0] = offset;
+            work[1] = chunksize;
+            MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
+        } else {
+            error = 0 != copy_chunk(offset, chunksize);
+        }
 
         offset += chunksize;
         if(verbose) {
             fprintf(stderr, "%ld / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        int64_t work[2];
-        MPI_Send(work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    return error;
 }
+
 void slave() {
     int result = 0;
     MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
@@ -161,36 +205,8 @@ void slave() {
         if(status.MPI_TAG == DIE_TAG) {
             break;
         }
-        int64_t offset = work[0];
-        int64_t chunksize = work[1];
-        BigArray array;
-        BigBlockPtr ptrnew;
-
-        if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
-            fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
-            result = -1;
-            goto bad;
-        }
-        if(0 != big_block_seek(&bbnew, &ptrnew, offset)) {
-            fprintf(stderr, "failed to seek new: %s\n", big_file_get_error_message());
-            result = -1;
-            free(array.data);
-            goto bad;
-        }
-
-        if(0 != big_block_write(&bbnew, &ptrnew, &array)) {
-            fprintf(stderr, "failed to write new: %s\n", big_file_get_error_message());
-            result = -1;
-            free(array.data);
-            goto bad;
-        }
-
-        free(array.data);
-        MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
-        continue;
-    bad:
-        MPI_Send(&result, 1, MPI_INT, 0, ERROR_TAG, MPI_COMM_WORLD);
-        continue;
+        result = copy_chunk(work[0], work[1]);
+        MPI_Send(&result, 1, MPI_INT, 0, result?ERROR_TAG:DONE_TAG, MPI_COMM_WORLD);
     }
     return;
 }
-- 
2.43.0


From 94c5cb01eea168db4100ed2e7652dbf285ad5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 21/55] fix: copying a block onto itself destroyed it

---
 utils/bigfile-copy-mpi.c | 16 ++++++++++++++++
 utils/bigfile-copy.c     | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index ac7551f..835e943 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include "bigfile-mpi.h"
 
 void usage() {
@@ -29,6 +30,17 @@ char * newfilepath = NULL;
 void slave(void);
 int server(void);
 
+/* whether block newblock of newfile is block bb itself (creating it would destroy the data) */
+static int same_block(BigBlock * bb, const char * newfile, const char * newblock) {
+    struct stat st, stnew;
+    char * path = malloc(strlen(newfile) + strlen(newblock) + 2);
+    sprintf(path, "%s/%s", newfile, newblock);
+    int same = 0 == stat(bb->basename, &st) && 0 == stat(path, &stnew)
+            && st.st_dev == stnew.st_dev && st.st_ino == stnew.st_ino;
+    free(path);
+    return same;
+}
+
 int main(int argc, char * argv[]) {
 
     MPI_Init(&argc, &argv);
@@ -77,6 +89,10 @@ int main(int argc, char * argv[]) {
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
+    if(same_block(&bb, newfilepath, argv[3])) {
+        fprintf(stderr, "cannot copy block %s to itself\n", argv[2]);
+        exit(1);
+    }
     if(0 != big_file_mpi_create(&bfnew, newfilepath, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index f87efab..c3c6b92 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include "bigfile.h"
 
 void usage() {
@@ -11,6 +12,17 @@ void usage() {
     exit(1);
 
 }
+/* whether block newblock of newfile is block bb itself (creating it would destroy the data) */
+static int same_block(BigBlock * bb, const char * newfile, const char * newblock) {
+    struct stat st, stnew;
+    char * path = malloc(strlen(newfile) + strlen(newblock) + 2);
+    sprintf(path, "%s/%s", newfile, newblock);
+    int same = 0 == stat(bb->basename, &st) && 0 == stat(path, &stnew)
+            && st.st_dev == stnew.st_dev && st.st_ino == stnew.st_ino;
+    free(path);
+    return same;
+}
+
 int main(int argc, char * argv[]) {
     BigFile bf = {0};
     BigFile bfnew = {0};
@@ -59,6 +71,10 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
     }
+    if(same_block(&bb, newfile, argv[3])) {
+        fprintf(stderr, "cannot copy block %s to itself\n", argv[2]);
+        exit(1);
+    }
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
-- 
2.43.0


From 49305e4fe2ad543da3fe082e60cd7ef32585dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 22/55] fix: copying with a small buffer looped for ever, into
 no file aborted

---
 utils/bigfile-copy-mpi.c |  9 ++++++++-
 utils/bigfile-copy.c     | 20 +++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 835e943..e2bbee0 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -86,6 +86,10 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        fprintf(stderr, "cannot copy into %d files\n", Nfile);
+        exit(1);
+    }
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
@@ -112,7 +116,10 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attr: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
     int error = 0;
diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index c3c6b92..00818af 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -78,8 +78,16 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        fprintf(stderr, "cannot copy into %d files\n", Nfile);
+        exit(1);
+    }
     /* avoid Nfile == 0 */
-    size_t newsize[Nfile + 10];
+    size_t * newsize = malloc(sizeof(newsize[0]) * ((size_t) Nfile + 10));
+    if(newsize == NULL) {
+        fprintf(stderr, "cannot copy into %d files\n", Nfile);
+        exit(1);
+    }
     int i;
     for(i = 0; i < Nfile; i ++) {
         newsize[i] = (i + 1) * bb.size / Nfile
@@ -91,6 +99,8 @@ int main(int argc, char * argv[]) {
         exit(1);
     }
 
+    free(newsize);
+
     if(bbnew.size != bb.size) {
         abort();
     }
@@ -100,12 +110,16 @@ int main(int argc, char * argv[]) {
     BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attr: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
-    
+
     if(bb.nmemb > 0 && bb.size > 0) {
         /* copy data */
         size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+        if(chunksize == 0) chunksize = 1;
         BigBlockPtr ptrnew;
         ptrdiff_t offset;
         BigArray array;
-- 
2.43.0


From e988104c1aba08d9032051c8be9be6231821a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 23/55] fix: bigfile-create could not create blocks and ignored
 errors

---
 utils/bigfile-create.c | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 036bc2c..a584ccf 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -54,7 +54,13 @@ int main(int argc, char * argv[]) {
         exit(1);
     }
     dtype = argv[3];
-    size_t fsize[1] = {-1};
+    if(nmemb <= 0 || big_file_dtype_itemsize(dtype) <= 0) {
+        fprintf(stderr, "cannot create rows of %d %s\n", nmemb, dtype);
+        exit(1);
+    }
+    size_t rowsize = (size_t) nmemb * big_file_dtype_itemsize(dtype);
+    /* the size is unknown until the stream ends; start with the largest possible one */
+    size_t fsize[1] = {PTRDIFF_MAX / rowsize};
 
     if(0 != big_file_create_block(&bf, &bb, argv[2], dtype, nmemb, 1, fsize)) {
         fprintf(stderr, "failed to create: %s: %s\n", argv[2], big_file_get_error_message());
@@ -63,24 +69,44 @@ int main(int argc, char * argv[]) {
 
     signal(SIGUSR1, usr1);
 
-    size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    size_t chunksize = buffersize / rowsize;
+    if(chunksize == 0) chunksize = 1;
     BigBlockPtr ptr;
     BigArray array;
 
-    char * buffer = malloc(buffersize);
+    char * buffer = malloc(chunksize * rowsize);
+    if(buffer == NULL) {
+        fprintf(stderr, "not enough memory for a buffer of %td bytes\n", chunksize * rowsize);
+        exit(1);
+    }
     ptrdiff_t offset = 0;
     while(!feof(stdin)) {
-        size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
+        size_t nread = fread(buffer, rowsize, chunksize, stdin);
+        if(ferror(stdin)) {
+            fprintf(stderr, "failed to read the input\n");
+            exit(1);
+        }
         size_t dims[2] = {nread, bb.nmemb};
+        if(nread == 0) continue;
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
-        big_block_seek(&bb, &ptr, offset);
-        big_block_write(&bb, &ptr, &array);
+        if(0 != big_block_seek(&bb, &ptr, offset)) {
+            fprintf(stderr, "failed to seek: %s\n", big_file_get_error_message());
+            exit(1);
+        }
+        if(0 != big_block_write(&bb, &ptr, &array)) {
+            fprintf(stderr, "failed to write: %s\n", big_file_get_error_message());
+            exit(1);
+        }
         offset += nread;
         countin += nread;
     }
     bb.size = offset;
     bb.fsize[0] = offset;
-    big_block_close(&bb);
+    free(buffer);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From 295f60809646d53c07946c293bfed65bd4d1985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 24/55] fix: bigfile-cat printed more rows than asked for,
 looped for ever with a small buffer and ignored output errors

---
 utils/bigfile-cat.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 82e1f37..276b13b 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -82,14 +82,17 @@ int main(int argc, char * argv[]) {
 
     ptrdiff_t end = start + size;
 
-    size_t chunksize = buffersize / (bb.nmemb * big_file_dtype_itemsize(bb.dtype));
+    size_t chunksize = buffersize;
+    if(bb.nmemb > 0) chunksize = buffersize / ((size_t) bb.nmemb * big_file_dtype_itemsize(bb.dtype));
+    if(chunksize == 0) chunksize = 1;
+    char * str = malloc(big_file_dtype_itemsize(bb.dtype) + 300);
     BigBlockPtr ptr;
     BigBlockPtr ptrnew;
     ptrdiff_t offset;
     BigArray array;
 
     for(offset = start; offset < end; ) {
-        if(chunksize > size) chunksize = size;
+        if(chunksize > end - offset) chunksize = end - offset;
         if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
             fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
             exit(1);
@@ -98,7 +101,6 @@ int main(int argc, char * argv[]) {
         if(!humane) {
             fwrite(array.data, big_file_dtype_itemsize(bb.dtype), array.size, stdout);
         } else {
-            char str[300];
             BigArrayIter iter;
             big_array_iter_init(&iter, &array);
             size_t i;
@@ -116,6 +118,11 @@ int main(int argc, char * argv[]) {
         offset += array.dims[0];
         countin += array.dims[0];
     }
+    free(str);
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     big_block_close(&bb);
     big_file_close(&bf);
     return 0;
-- 
2.43.0


From 0c5c79d741a304727d985b43be6933e2ccf3ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 25/55] fix: bigfile-get-attr claimed success for missing
 attributes and unwritten output, overflowed on long strings

---
 utils/bigfile-get-attr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-get-attr.c b/utils/bigfile-get-attr.c
index 4ce5370..eb9ec6c 100644
--- a/utils/bigfile-get-attr.c
+++ b/utils/bigfile-get-attr.c
@@ -15,7 +15,7 @@ static void usage() {
 }
 
 static void print_attr(BigAttr * attr, int brief) {
-    char buffer[128];
+    char * buffer = malloc(dtype_itemsize(attr->dtype) + 300);
     char * data = attr->data;
     int i;
     if(!brief || longfmt) {
@@ -37,6 +37,7 @@ static void print_attr(BigAttr * attr, int brief) {
         printf(" ]");
     }
     printf("\n");
+    free(buffer);
 }
 int main(int argc, char * argv[]) {
     BigFile bf = {0};
@@ -66,6 +67,7 @@ int main(int argc, char * argv[]) {
         exit(1);
     }
     int i; 
+    int missing = 0;
     if(argc - optind == 2) {
         size_t nattr;
         BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
@@ -80,9 +82,14 @@ int main(int argc, char * argv[]) {
             print_attr(attr, argc - optind == 3);
         } else {
             printf("%s, not attr:\n", argv[i]);
+            missing = 1;
         }
     }
     big_block_close(&bb);
     big_file_close(&bf);
-    return 0;
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
+    return missing;
 }
-- 
2.43.0


From 0be419670f3fab22f6be7f6da38781a27423aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 26/55] fix: bigfile-ls claimed success for missing blocks and
 unwritten output

---
 utils/bigfile-ls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 5c2d3a5..08b64aa 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -119,8 +119,13 @@ int main(int argc, char * argv[]) {
         }
         if(0 != listbigblock(&bf, argv[2])) {
             fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
+            exit(1);
         }
         big_file_close(&bf);
     }
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     return 0;
 }
-- 
2.43.0


From 7b59f47f6ff438e8fb3af03a432b1252d1449822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 27/55] fix: bigfile-set-attr wrote beyond its buffer for new
 attributes and ignored errors

---
 utils/bigfile-set-attr.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 291741d..d4010b7 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -66,9 +66,15 @@ int main(int argc, char * argv[]) {
             nmemb = attr->nmemb;
         }
     }
-    char * data = malloc(big_file_dtype_itemsize(dtype) * nmemb);
-
-    memset(data, 0, big_file_dtype_itemsize(dtype) * nmemb);
+    if(dtype == NULL) {
+        fprintf(stderr, "the type of the new attribute is needed (-t)\n");
+        exit(1);
+    }
+    if(big_file_dtype_itemsize(dtype) <= 0) {
+        fprintf(stderr, "type `%s` is not understood\n", dtype);
+        exit(1);
+    }
+    char * data;
 
     if(big_file_dtype_kind(dtype) == 'S') {
         if (nmemb == 0) nmemb = strlen(argv[4]) + 1;
@@ -76,26 +82,34 @@ int main(int argc, char * argv[]) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
-        memcpy(data, argv[4], strlen(argv[4]) + 1); 
+        data = calloc(nmemb, big_file_dtype_itemsize(dtype));
+        memcpy(data, argv[4], strlen(argv[4]) + 1);
     } else {
         if (nmemb == 0) nmemb = argc - optind + 1 - 4;
         if (nmemb != argc - optind + 1 - 4) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
+        data = calloc(nmemb, big_file_dtype_itemsize(dtype));
         for(i = 4; i < argc - optind + 1; i ++) {
             char * p = data + (i - 4) * big_file_dtype_itemsize(dtype);
             if(0 != big_file_dtype_parse(argv[i], dtype, p, NULL)) {
-                fprintf(stderr, "failed to parse the data `%s`\n", p);
+                fprintf(stderr, "failed to parse the data `%s`\n", argv[i]);
                 exit(1);
             }
         }
     }
 
-    big_block_set_attr(&bb, argv[3], data, dtype, nmemb);
+    if(0 != big_block_set_attr(&bb, argv[3], data, dtype, nmemb)) {
+        fprintf(stderr, "failed to set attr: %s\n", big_file_get_error_message());
+        exit(1);
+    }
 
     free(data);
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close block: %s %s\n", argv[2], big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From 2efcd0fcd8e70174541ef36b585f0b8c5349f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 28/55] fix: bigfile-check claimed success when a check failed
 or could not be made

---
 utils/bigfile-check | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index b777019..5fb297b 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -2,15 +2,15 @@
 
 usage() {
     echo 'Usage: bigfile-check file [block ...]' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
-VERBOSE=0
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
@@ -41,23 +41,23 @@ check() {
     fi;
     local sumreal
     local sumheader
-    sum=`$ROOT/bigfile-cat -b $FILE $BLOCK | sum -s | awk '{print $1}'`
+    sum=`set -o pipefail; $ROOT/bigfile-cat -b $FILE $BLOCK | sum -s | awk '{print $1}'`
     if [ $? != 0 ]; then
         echo cat failed
         fail
     fi
-    expectedsum=`$ROOT/bigfile-ls -l $FILE $BLOCK | awk '{print $5}'`
+    expectedsum=`set -o pipefail; $ROOT/bigfile-ls -l $FILE $BLOCK | awk '{print $5}'`
     if [ $? != 0 ]; then
         echo ls failed
         fail
     fi
-    if [ $sum -ne $expectedsum ]; then
+    if ! [ $sum -eq $expectedsum ]; then
         echo check sum failed $BLOCK $sum  $expectedsum
         fail
     fi
 }
 if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
@@ -66,9 +66,8 @@ for block in $BLOCKS ; do
     ( check $block ) &
     JOBS="$JOBS $!"
 done
+STATUS=0
 for job in $JOBS ; do
-    wait $job
-    if [ $? != 0 ]; then
-       fail
-    fi
+    wait $job || STATUS=1
 done
+exit $STATUS
-- 
2.43.0


From cf7d58b4c0f43b37d31f48932007cd7b2a4d0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 29/55] fix: bigfile-rename moved blocks into existing ones,
 bigfile-rm ignored failures

---
 utils/bigfile-rename | 6 +++++-
 utils/bigfile-rm     | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-rename b/utils/bigfile-rename
index d79ed0e..9f8118b 100755
--- a/utils/bigfile-rename
+++ b/utils/bigfile-rename
@@ -11,4 +11,8 @@ fi;
 
 FILE=$1
 shift
-mv  $FILE/$1 $FILE/$2
+if [ -e $FILE/$2 ]; then
+    echo bigfile-rename: $2 exists already >&2
+    exit 1
+fi
+mv -T $FILE/$1 $FILE/$2
diff --git a/utils/bigfile-rm b/utils/bigfile-rm
index 9d29aa7..4528549 100755
--- a/utils/bigfile-rm
+++ b/utils/bigfile-rm
@@ -11,6 +11,8 @@ fi;
 
 FILE=$1
 shift
+STATUS=0
 for i in $*; do
-    rm -r $FILE/$i;
+    rm -r $FILE/$i || STATUS=1
 done
+exit $STATUS
-- 
2.43.0


From 0c241ab15674b6724cf86fb40b098711ab548f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 30/55] fix: bigfile-repartition failed without -v, ignored
 failures and removed blocks inside the block

---
 utils/bigfile-repartition | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 840b6d9..418d301 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -2,15 +2,15 @@
 
 usage() {
     echo 'Usage: bigfile-repartition file Nfile block ...' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
-VERBOSE=0
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
@@ -37,17 +37,28 @@ repart() {
     if [ $VERBOSE ]; then
         echo Repartitioning $BLOCK >&2
     fi;
+    # what else is in the directory of the block would be removed with the backup
+    if [ "x`find $FILE/$BLOCK/ -mindepth 1 -type d`" != "x" ]; then
+        echo $BLOCK contains other blocks, not repartitioned >&2
+        fail
+    fi
     $ROOT/bigfile-rename $FILE $BLOCK ${BLOCK}-REPBAK || fail
     $ROOT/bigfile-copy $VERBOSE -n $NFILE $FILE ${BLOCK}-REPBAK ${BLOCK} ||fail
     $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
 }
 if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
 
+JOBS=
 for block in $BLOCKS ; do
     ( repart $block ) &
+    JOBS="$JOBS $!"
 done
-wait
+STATUS=0
+for job in $JOBS ; do
+    wait $job || STATUS=1
+done
+exit $STATUS
-- 
2.43.0


From 418b12721d8418d1036417e91626ec8808fb8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 31/55] fix: bigfile-create left the preliminary size behind
 when the stream is empty

---
 utils/bigfile-create.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index a584ccf..27abff3 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -102,6 +102,7 @@ int main(int argc, char * argv[]) {
     }
     bb.size = offset;
     bb.fsize[0] = offset;
+    bb.dirty = 1;
     free(buffer);
     if(0 != big_block_close(&bb)) {
         fprintf(stderr, "failed to close: %s\n", big_file_get_error_message());
-- 
2.43.0


From 04c57efa4e9f7fecb3b60909e822ed13e2a987a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 32/55] fix: bigfile-set-attr stored garbage when only the
 number of elements changes

---
 utils/bigfile-set-attr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index d4010b7..746ad53 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -60,7 +60,10 @@ int main(int argc, char * argv[]) {
     attr = big_block_lookup_attr(&bb, argv[3]);
     if(attr) {
         if(dtype == NULL) {
-            dtype = attr->dtype;
+            /* setting the attribute invalidates attr */
+            strncpy(ndtype, attr->dtype, sizeof(ndtype) - 1);
+            ndtype[sizeof(ndtype) - 1] = '\0';
+            dtype = ndtype;
         }
         if(nmemb == 0) {
             nmemb = attr->nmemb;
-- 
2.43.0


From 15c475689833f9d398cf0d74d5eb342ce33a39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 33/55] fix: text was formatted as the name of its type

---
 src/bigfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 02b4d36..ad42177 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1383,6 +1383,7 @@ typedef struct {double r; double i;} cplx128_t;
 typedef struct {float r; float i;} cplx64_t;
 typedef union {
     char *a1;
+    char *S1;
     char *b1;
     int64_t *i8;
     uint64_t *u8;
@@ -1427,6 +1428,7 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     } else
 
     FORMAT1(a1, "%c")
+    FORMAT1(S1, "%c")
     FORMAT1(b1, "%d")
     FORMAT1(i8, "%ld")
     FORMAT1(i4, "%d")
-- 
2.43.0


From 095348ded4ed9d46643282e6ea48935eda83aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 34/55] fix: threads flushing the same block used the same
 temporary file

---
 src/bigfile.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ad42177..212df98 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -12,6 +12,7 @@
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <sys/time.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <dirent.h>
 
@@ -150,10 +151,25 @@ static FILE *
 _big_file_begin_replace(const char * basename, const char * name, char ** tmpname)
 {
     char * filename = _path_join(basename, name);
-    *tmpname = malloc(strlen(filename) + 32);
-    sprintf(*tmpname, "%s.tmp%ld", filename, (long) getpid());
+    *tmpname = malloc(strlen(filename) + 64);
+    FILE * fp = NULL;
+    int fd, attempt = 0;
+    /* O_EXCL: other threads may be writing the same file at this time */
+    do {
+        sprintf(*tmpname, "%s.tmp%ld.%d", filename, (long) getpid(), attempt);
+        fd = open(*tmpname, O_WRONLY | O_CREAT | O_EXCL, 0666);
+        attempt ++;
+    } while(fd < 0 && errno == EEXIST && attempt < 10000);
     free(filename);
-    FILE * fp = fopen(*tmpname, "w");
+    if(fd >= 0) {
+        fp = fdopen(fd, "w");
+        if(fp == NULL) {
+            int e = errno;
+            close(fd);
+            unlink(*tmpname);
+            errno = e;
+        }
+    }
     RAISEIF(fp == NULL,
         ex_fopen,
         "Failed to open physical file `%s' for writing (%s)",
-- 
2.43.0


From 6341fa51fbf14be060916000aa06a1d69e039ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 35/55] fix: an error message was freed while another thread
 reads it

---
 src/bigfile.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 212df98..4045321 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -27,11 +27,15 @@
 #define FILEID_ATTR_V2 -3
 #define FILEID_HEADER -1
 
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    #include <stdatomic.h>
-static char * volatile _Atomic ERRORSTR = NULL;
+/* Every thread has its own last error message, like errno; so it stays valid, and remains the
+ * message of this thread's failure, when calls in other threads fail. */
+#if __STDC_VERSION__ >= 201112L
+static _Thread_local char * ERRORSTR = NULL;
+#elif defined(__GNUC__)
+static __thread char * ERRORSTR = NULL;
 #else
-static char * volatile ERRORSTR = NULL;
+#warning "enable -std=c11 or -std=gnu11, or use gcc for thread friendly error handling"
+static char * ERRORSTR = NULL;
 #endif
 
 static size_t CHUNK_BYTES = 64 * 1024 * 1024;
@@ -108,21 +112,8 @@ big_file_set_error_message(char * msg)
 {
     char * errorstr;
     if(msg != NULL) msg = _strdup(msg);
-
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    errorstr = atomic_exchange(&ERRORSTR, msg);
-#elif defined(__ATOMIC_SEQ_CST)
-    errorstr = __atomic_exchange_n(&ERRORSTR, msg, __ATOMIC_SEQ_CST);
-#elif _OPENMP >= 201307
-    /* openmp 4.0 supports swap capture*/
-    #pragma omp capture 
-     { errorstr = ERRORSTR; ERRORSTR = msg; }
-#else
     errorstr = ERRORSTR;
     ERRORSTR = msg;
-    /* really should have propagated errors over the stack! */
-    #warning "enable -std=c11 or -std=gnu11, or luse gcc for thread friendly error handling"
-#endif
 
     if(errorstr) free(errorstr);
 }
-- 
2.43.0


From 8cba582911686deb055f7485f93bc431ff58dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 36/55] fix: failing to open or create a block leaked memory
 and left pointers to freed memory in it

---
 src/bigfile.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4045321..cefff3d 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -512,15 +512,13 @@ _big_block_open(BigBlock * bb, const char * basename)
         return 0;
 
 ex_fscanf1:
-        free(bb->fchecksum);
 ex_fchecksum:
-        free(bb->foffset);
 ex_foffset:
-        free(bb->fsize);
 ex_fsize:
 ex_fscanf:
         fclose(fheader);
 ex_open:
+        _big_block_close_internal(bb);
         return -1;
     } else {
         /* The meta block of a big file, has on extra files. */
@@ -530,6 +528,7 @@ ex_open:
     }
 
 ex_readattr:
+        _big_block_close_internal(bb);
         return -1;
 }
 
@@ -721,13 +720,10 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         bb->dirty = 0;
         return 0;
 ex_flush:
-        attrset_free(bb->attrset);
-        free(bb->foffset);
 ex_foffset:
-        free(bb->fchecksum);
 ex_fchecksum:
-        free(bb->fsize);
 ex_fsize:
+        _big_block_close_internal(bb);
         return -1;
     } else {
         /* special meta block of a file */
@@ -742,7 +738,7 @@ ex_fsize:
         return 0;
 
 ex_flush2:
-        attrset_free(bb->attrset);
+        _big_block_close_internal(bb);
         return -1;
     }
 
-- 
2.43.0


From e227fea7434fa61104496035ba90823c26fe2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 37/55] fix: a failed grow left the block grown in memory, and
 stored it so when closing

---
 src/bigfile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index cefff3d..f91f047 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -596,9 +596,10 @@ int
 big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
 {
     int oldNfile = bb->Nfile;
+    int olddirty = bb->dirty;
 
     RAISEIF(0 != _big_block_grow_internal(bb, Nfile_grow, fsize_grow),
-            ex_fileio,
+            ex_grow,
             NULL);
 
     int i;
@@ -617,6 +618,11 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
     return 0;
 
 ex_fileio:
+    /* without its files the block must not be seen, nor stored, as grown */
+    bb->Nfile = oldNfile;
+    bb->size = bb->foffset[oldNfile];
+    bb->dirty = olddirty;
+ex_grow:
     return -1;
 }
 
-- 
2.43.0


From e5e44bd2f9a55b092d427217754d24cc9c2a04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 38/55] fix: python slices running backwards, negative scalars
 and values of other lengths accessed the wrong rows

---
 bigfile/__init__.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9326613..53c79af 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -7,6 +7,7 @@ from .pyxbigfile import set_buffer_size
 from . import pyxbigfile
 
 import os
+import operator
 import numpy
 from functools import wraps
 
@@ -30,15 +31,24 @@ def _enhance_slicefunc(getitem, returns_none):
             return getitem(self, index, *args)
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
-        elif numpy.isscalar(index):
-            index = slice(index, index + 1)
-            if returns_none:
-               return getitem(self, index, *args)
-            else:
-               return getitem(self, index, *args)[0]
-        else:
+
+        try:
+            i = operator.index(index)
+        except TypeError:
             raise TypeError("Expecting a slice or a scalar, got a `%s`" %
-                    str(type(sl)))
+                    str(type(index)))
+
+        if i < 0:
+            i = i + self.size
+        if i < 0 or i >= self.size:
+            raise IndexError("index %d is out of bounds for size %d" %
+                    (index, self.size))
+
+        index = slice(i, i + 1)
+        if returns_none:
+           return getitem(self, index, *args)
+        else:
+           return getitem(self, index, *args)[0]
     return enhanced
 
 def _enhance_getslice(getitem):
@@ -70,7 +80,7 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            return self.read(start, end-start)
+            return self.read(start, max(end - start, 0))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -82,7 +92,9 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            self.write(start, value)
+            # exactly the rows of the slice are written
+            shape = (max(end - start, 0),) + self.dtype.shape
+            self.write(start, numpy.broadcast_to(value, shape))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -364,6 +376,7 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
+        end = max(start, end)
         result = numpy.empty(end - start, dtype=self.dtype)
         return self.read(start, end - start, result)
 
@@ -374,6 +387,7 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
+        end = max(start, end)
         assert value.dtype == self.dtype
         assert len(value) == end - start
         return self.write(start, value)
-- 
2.43.0


From ef07c8d44f4498a1493af40b8ad59ab166d54d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 39/55] fix: python create_from_array failed with a small
 memory limit

---
 bigfile/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 53c79af..a74dd92 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -192,8 +192,11 @@ class File(FileBase):
         # we will do some chunking
 
         # write memorylimit bytes at most (256M bytes)
-        # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        # round to 1024 items if they fit
+        itemlimit = memorylimit // max(dtype.itemsize, 1)
+        if itemlimit > 1024:
+            itemlimit = itemlimit // 1024 * 1024
+        itemlimit = max(itemlimit, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
@@ -322,8 +325,11 @@ class FileMPI(FileBase):
         # we will do some chunking
 
         # write memorylimit bytes at most (256M bytes)
-        # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        # round to 1024 items if they fit
+        itemlimit = memorylimit // max(dtype.itemsize, 1)
+        if itemlimit > 1024:
+            itemlimit = itemlimit // 1024 * 1024
+        itemlimit = max(itemlimit, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
-- 
2.43.0


From b327eb5a583b1469bf1e1ba82ab07ca52fd98694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 40/55] fix: python reads into, and writes from, arrays of
 another layout or type accessed foreign memory or gave wrong values

---
 bigfile/pyxbigfile.pyx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 7d23e51..12e4682 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -486,10 +486,13 @@ cdef class ColumnLowLevelAPI:
             result = numpy.empty(dtype=self.dtype, shape=length)
         else:
             result = out
-            if result.shape[0] != length:
+            if result.ndim == 0 or result.shape[0] != length \
+            or result.size != length * self.bb.nmemb:
                 raise ValueError("output array length mismatches with the request")
-            if result.dtype.base.itemsize != self.dtype.base.itemsize:
+            if result.dtype.base != self.dtype.base:
                 raise ValueError("output array type mismatches with the block")
+            if not result.flags.writeable:
+                raise ValueError("output array is read-only")
 
         big_array_init(&array, result.data, self.bb.dtype, 
                 result.ndim, 
@@ -636,6 +639,13 @@ cdef class Dataset:
     def read(self, numpy.intp_t start, numpy.intp_t length, numpy.ndarray out=None):
         if out is None:
             out = numpy.empty(length, self.dtype)
+        # the records are put there directly
+        if out.ndim != 1 or out.shape[0] != length:
+            raise ValueError("output array length mismatches with the request")
+        if out.dtype != self.dtype or out.dtype.itemsize != self.rtype.itemsize:
+            raise ValueError("output array type mismatches with the dataset")
+        if not out.flags.c_contiguous or not out.flags.writeable:
+            raise ValueError("output array is not contiguous or read-only")
         with nogil:
             rt = big_file_read_records(&self.file.bf, &self.rtype, start, length, out.data)
         if rt != 0:
@@ -671,6 +681,8 @@ cdef class Dataset:
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         assert buf.dtype == self.dtype
         assert buf.ndim == 1
+        # the records are taken from there directly, in our layout
+        buf = numpy.ascontiguousarray(buf, dtype=self.dtype)
         with nogil:
             rt = big_file_write_records(&self.file.bf, &self.rtype, start, buf.shape[0], buf.data)
         if rt != 0:
-- 
2.43.0


From 8dcc7339190a24ddbf33a3b5cb3ef2e1d5c0e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 41/55] fix: python files that can not be opened when unpickled
 crashed the interpreter

---
 bigfile/pyxbigfile.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 12e4682..d34b2ea 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -172,11 +172,13 @@ cdef class FileLowLevelAPI:
         filename = filename.encode()
         cdef char * filenameptr = filename
 
-        self._deallocated = deallocated
-
         if not deallocated:
             with nogil:
                 rt = big_file_open(&self.bf, filenameptr)
+            if rt != 0:
+                raise Error()
+
+        self._deallocated = deallocated
 
     property basename:
         def __get__(self):
-- 
2.43.0


From aa1d0993873082e1c318aed3a6020cd31737fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 42/55] fix: python columns released memory twice after failing
 to open or create another block

---
 bigfile/pyxbigfile.pyx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index d34b2ea..cb86968 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -355,14 +355,22 @@ cdef class ColumnLowLevelAPI:
         if not deallocated:
             _big_block_unpack(&self.bb, container.data)
 
+    cdef _replace(self, CBigBlock bb):
+        # the previous block, if any, is not needed any more
+        if not self._deallocated:
+            big_block_close(&self.bb)
+        self.bb = bb
+        self._deallocated = False
+
     def open(self, FileLowLevelAPI f, blockname):
         blockname = blockname.encode()
         cdef char * blocknameptr = blockname
+        cdef CBigBlock bb
         with nogil:
-            rt = big_file_open_block(&f.bf, &self.bb, blocknameptr)
+            rt = big_file_open_block(&f.bf, &bb, blocknameptr)
         if rt != 0:
             raise Error()
-        self._deallocated = False
+        self._replace(bb)
 
     def create(self, FileLowLevelAPI f, blockname, dtype=None, size=None, numpy.intp_t Nfile=1):
 
@@ -373,11 +381,12 @@ cdef class ColumnLowLevelAPI:
         cdef numpy.intp_t items
         cdef char * dtypeptr
         cdef char * blocknameptr
+        cdef CBigBlock bb
 
         blocknameptr = blockname
         if dtype is None:
             with nogil:
-                rt = big_file_create_block(&f.bf, &self.bb, blocknameptr, NULL,
+                rt = big_file_create_block(&f.bf, &bb, blocknameptr, NULL,
                         0, 0, NULL)
             if rt != 0:
                 raise Error()
@@ -399,13 +408,13 @@ cdef class ColumnLowLevelAPI:
             dtype2 = dtype.base.str.encode()
             dtypeptr = dtype2
             with nogil:
-                rt = big_file_create_block(&f.bf, &self.bb, blocknameptr,
+                rt = big_file_create_block(&f.bf, &bb, blocknameptr,
                     dtypeptr,
                     items, Nfile, <size_t*> fsize.data)
             if rt != 0:
                 raise Error()
 
-        self._deallocated = False
+        self._replace(bb)
 
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         """ write at offset `start' a chunk of data inf buf.
-- 
2.43.0


From 5cfcb5ff00477c0f16a9997dec2aadaa0b1c09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 43/55] fix: python attributes with empty texts read back as
 others

---
 bigfile/pyxbigfile.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index cb86968..1101566 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -237,7 +237,7 @@ cdef class AttrSet:
             attr[0].nmemb)):
             raise Error()
         if attr[0].dtype[1] == 'S':
-            return [i.tostring().decode() for i in result]
+            return [i.decode() for i in result]
         if attr[0].dtype[1] == 'a':
             return result.tostring().decode()
         return result
@@ -257,7 +257,7 @@ cdef class AttrSet:
 
         if isstr(value):
             dtype = b'a1'
-            value = numpy.array(str(value).encode()).ravel().view(dtype='S1').ravel()
+            value = numpy.frombuffer(str(value).encode(), dtype='S1')
         else:
             value = numpy.array(value).ravel()
 
-- 
2.43.0


From d3ab3b45df21725d9a4a5b096ab08bf24a80ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 44/55] fix: using a python column that is not open crashed the
 interpreter

---
 bigfile/pyxbigfile.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 1101566..d1f9a5a 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -309,6 +309,7 @@ cdef class ColumnLowLevelAPI:
                 return numpy.dtype(self.bb.dtype)
     property attrs:
         def __get__(self):
+            self._check_open()
             return AttrSet(self)
     property Nfile:
         def __get__(self):
@@ -321,6 +322,10 @@ cdef class ColumnLowLevelAPI:
     def __init__(self):
         pass
 
+    cdef _check_open(self):
+        if self._deallocated:
+            raise ColumnClosedError(self)
+
     def __enter__(self):
         return self
 
@@ -424,6 +429,8 @@ cdef class ColumnLowLevelAPI:
         cdef CBigArray array
         cdef CBigBlockPtr ptr
 
+        self._check_open()
+
         big_array_init(&array, buf.data, buf.dtype.str.encode(), 
                 buf.ndim, 
                 <size_t *> buf.shape,
@@ -454,6 +461,8 @@ cdef class ColumnLowLevelAPI:
         cdef numpy.ndarray fsize
         cdef numpy.intp_t size = len(buf)
 
+        self._check_open()
+
         if Nfile < 0:
             raise ValueError("Cannot create negative number of files.")
         if Nfile == 0 and size != 0:
@@ -489,6 +498,7 @@ cdef class ColumnLowLevelAPI:
         cdef CBigArray array
         cdef CBigBlockPtr ptr
         cdef int i
+        self._check_open()
         if length == -1:
             length = self.size - start
         if length + start > self.size:
@@ -522,6 +532,7 @@ cdef class ColumnLowLevelAPI:
         return result
 
     def _flush(self):
+        self._check_open()
         with nogil:
             rt = big_block_flush(&self.bb)
         if rt != 0:
@@ -582,6 +593,7 @@ cdef class ColumnLowLevelAPI:
 
     def _close(self):
         # only need to flush; memory management is done at dealloc
+        self._check_open()
         with nogil:
             rt = big_block_flush(&self.bb)
         if rt != 0:
@@ -597,6 +609,9 @@ cdef class ColumnLowLevelAPI:
             self._deallocated = True
 
     def __repr__(self):
+        if self._deallocated:
+            return "<CBigBlock: not open>"
+
         if self.bb.dtype == b'####':
             return "<CBigBlock: %s>" % self.bb.basename
 
-- 
2.43.0


From 74886df14fab8d196465155269d89c9b1fbaacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 45/55] fix: python columns restored from a pickle overwrote
 what was changed in the original afterwards

---
 bigfile/pyxbigfile.pyx | 4 +++-
 src/bigfile-internal.h | 4 ++++
 src/bigfile.c          | 7 +++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index d1f9a5a..3fb8fee 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -104,7 +104,7 @@ cdef extern from "bigfile.h":
         char * mode, size_t Nfile, size_t * size_per_file) nogil
 
 cdef extern from "bigfile-internal.h":
-    pass
+    void _big_block_set_clean(CBigBlock * block) nogil
 
 
 def set_buffer_size(bytes):
@@ -359,6 +359,8 @@ cdef class ColumnLowLevelAPI:
 
         if not deallocated:
             _big_block_unpack(&self.bb, container.data)
+            # what was not flushed yet remains the business of the original
+            _big_block_set_clean(&self.bb)
 
     cdef _replace(self, CBigBlock bb):
         # the previous block, if any, is not needed any more
diff --git a/src/bigfile-internal.h b/src/bigfile-internal.h
index 837964e..b6240cb 100644
--- a/src/bigfile-internal.h
+++ b/src/bigfile-internal.h
@@ -23,6 +23,10 @@ _big_block_pack(BigBlock * block, size_t * bytes);
 void
 _big_block_unpack(BigBlock * block, void * buf);
 
+/* forget that the header and the attributes are to be written at the next flush. */
+void
+_big_block_set_clean(BigBlock * block);
+
 int _dtype_normalize(char * dst, const char * src);
 
 int _big_block_open(BigBlock * bb, const char * basename); /* raises */
diff --git a/src/bigfile.c b/src/bigfile.c
index f91f047..1dfabf1 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -2264,6 +2264,13 @@ _big_block_unpack(BigBlock * block, void * buf)
     block->attrset = _big_attrset_unpack(ptr);
 }
 
+void
+_big_block_set_clean(BigBlock * block)
+{
+    block->dirty = 0;
+    block->attrset->dirty = 0;
+}
+
 
 /* File Path */
 
-- 
2.43.0


From 10401d2607857600bdb0a929e8b2fbd925772c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 46/55] fix: appending unusable data to a python column left it
 grown

---
 bigfile/pyxbigfile.pyx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 3fb8fee..f27a89e 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -40,6 +40,9 @@ cdef extern from "bigfile.h":
         size_t size
         void * data
 
+    struct CBigArrayIter "BigArrayIter":
+        pass
+
     struct CBigAttr "BigAttr":
         int nmemb
         char dtype[8]
@@ -82,6 +85,8 @@ cdef extern from "bigfile.h":
     CBigAttr * big_block_list_attrs(CBigBlock * block, size_t * count) nogil
     int big_array_init(CBigArray * array, void * buf, char * dtype, int ndim, size_t dims[], ptrdiff_t strides[]) nogil
 
+    int big_array_iter_init(CBigArrayIter * iter, CBigArray * array) nogil
+
     int big_file_open_block(CBigFile * bf, CBigBlock * block, char * blockname) nogil
     int big_file_create_block(CBigFile * bf, CBigBlock * block, char * blockname, char * dtype, int nmemb, int Nfile, size_t fsize[]) nogil
     int big_file_open(CBigFile * bf, char * basename) nogil
@@ -105,6 +110,7 @@ cdef extern from "bigfile.h":
 
 cdef extern from "bigfile-internal.h":
     void _big_block_set_clean(CBigBlock * block) nogil
+    int _dtype_convert(CBigArrayIter * dst, CBigArrayIter * src, size_t nmemb) nogil
 
 
 def set_buffer_size(bytes):
@@ -474,6 +480,22 @@ cdef class ColumnLowLevelAPI:
         fsize[:] = (numpy.arange(Nfile) + 1) * size // Nfile \
                  - (numpy.arange(Nfile)) * size // Nfile
 
+        # refuse what can not be written before the column grows
+        if buf.size != size * self.bb.nmemb:
+            raise ValueError("array shape mismatches with the column")
+        cdef CBigArray src, dst
+        cdef CBigArrayIter src_iter, dst_iter
+        cdef char scratch[64]
+        cdef size_t one = 1
+        if size > 0:
+            big_array_init(&src, buf.data, buf.dtype.str.encode(),
+                    buf.ndim, <size_t *> buf.shape, <ptrdiff_t *> buf.strides)
+            big_array_init(&dst, scratch, self.bb.dtype, 1, &one, NULL)
+            big_array_iter_init(&src_iter, &src)
+            big_array_iter_init(&dst_iter, &dst)
+            if 0 != _dtype_convert(&dst_iter, &src_iter, 1):
+                raise Error()
+
         # tail is the old end
         tail = self.bb.size
 
-- 
2.43.0


From 376e9f321af64dead27e3360ef091173b7eb9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 47/55] fix: the shape of a python dataset was out of date
 after an append

---
 bigfile/pyxbigfile.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index f27a89e..32fb058 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -720,6 +720,7 @@ cdef class Dataset:
         if rt != 0:
             raise Error()
         self.size = self.size + size
+        self.shape = (self.size, )
 
     def append(self, numpy.ndarray buf, numpy.intp_t Nfile=1):
         assert buf.dtype == self.dtype
-- 
2.43.0


From 310c04b60449016b305cbf12fd74bb60519e24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 48/55] fix: python ranks writing into an existing block
 counted its checksums once per rank

---
 bigfile/__init__.py    | 1 +
 bigfile/pyxbigfile.pyx | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index a74dd92..285d6ac 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -238,6 +238,7 @@ class ColumnMPI(Column):
             error = self.comm.allgather(error)
         if any(error):
             raise RuntimeException("open failed on other rank(s)")
+        self._MPI_clear_checksum(root=0, comm=self.comm)
         return r
 
     def close(self):
diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 32fb058..7a48f84 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -1,7 +1,7 @@
 #cython: embedsignature=True
 cimport numpy
 from libc.stddef cimport ptrdiff_t
-from libc.string cimport strcpy, memcpy
+from libc.string cimport strcpy, memcpy, memset
 from libc.stdlib cimport free
 import numpy
 
@@ -584,6 +584,13 @@ cdef class ColumnLowLevelAPI:
         if comm.rank == root:
             free(buf)
 
+        self._MPI_clear_checksum(root, comm)
+
+    def _MPI_clear_checksum(self, root, comm):
+        # the root alone accounts for what is on disk, the flush adds them up.
+        if comm.rank != root and self.bb.Nfile > 0:
+            memset(self.bb.fchecksum, 0, sizeof(self.bb.fchecksum[0]) * self.bb.Nfile)
+
     def _MPI_flush(self):
         comm = self.comm
         cdef unsigned int Nfile = self.bb.Nfile
-- 
2.43.0


From 1c6f916b76611a9bf7b564af8a30c4c755afe64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 49/55] fix: python ranks hung when an operation failed on one
 of them only

---
 bigfile/__init__.py | 49 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 285d6ac..d9e017b 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -216,9 +216,16 @@ class ColumnMPI(Column):
         if not check_unique(blockname, self.comm):
             raise BigFileError("blockname is inconsistent between ranks")
 
-        if self.comm.rank == 0:
-            super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
-            super(ColumnMPI, self).close()
+        try:
+            error = True
+            if self.comm.rank == 0:
+                super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
+                super(ColumnMPI, self).close()
+            error = False
+        finally:
+            error = self.comm.bcast(error)
+        if error:
+            raise Error("create failed on the root rank")
         return self.open(f, blockname)
 
     @_enhance_getslice
@@ -237,7 +244,7 @@ class ColumnMPI(Column):
         finally:
             error = self.comm.allgather(error)
         if any(error):
-            raise RuntimeException("open failed on other rank(s)")
+            raise Error("open failed on other rank(s)")
         self._MPI_clear_checksum(root=0, comm=self.comm)
         return r
 
@@ -263,7 +270,14 @@ class FileMPI(FileBase):
             # if create failed, the next open will fail, collectively
 
         comm.barrier()
-        FileBase.__init__(self, filename, create=False)
+        try:
+            error = True
+            FileBase.__init__(self, filename, create=False)
+            error = False
+        finally:
+            error = comm.allgather(error)
+        if any(error):
+            raise Error("open failed on other rank(s)")
         self.comm = comm
         self.refresh()
 
@@ -273,11 +287,15 @@ class FileMPI(FileBase):
 
     def refresh(self):
         """ Refresh the list of blocks to the disk, collectively """
-        if self.comm.rank == 0:
-            self._blocks = self.list_blocks()
-        else:
-            self._blocks = None
-        self._blocks = self.comm.bcast(self._blocks)
+        blocks = None
+        try:
+            if self.comm.rank == 0:
+                blocks = self.list_blocks()
+        finally:
+            blocks = self.comm.bcast(blocks)
+        if blocks is None:
+            raise Error("listing the blocks failed on the root rank")
+        self._blocks = blocks
 
     def open(self, blockname):
         block = ColumnMPI(self.comm)
@@ -333,8 +351,15 @@ class FileMPI(FileBase):
         itemlimit = max(itemlimit, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
-            for i in range(0, len(array), itemlimit):
-                b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+            try:
+                error = True
+                for i in range(0, len(array), itemlimit):
+                    b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+                error = False
+            finally:
+                error = self.comm.allgather(error)
+            if any(error):
+                raise Error("write failed on other rank(s)")
 
         return self.open(blockname)
 
-- 
2.43.0


From 87fa7f4e05e2399301df5bac93c24c977c26fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 50/55] fix: a name starting with a slash left the file in a
 python subfile of ranks

---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index d9e017b..a0b4362 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -303,7 +303,7 @@ class FileMPI(FileBase):
         return block
 
     def subfile(self, key):
-        return FileMPI(self.comm, os.path.join(self.basename, key))
+        return FileMPI(self.comm, os.path.join(self.basename, key.lstrip('/')))
 
     def create(self, blockname, dtype=None, size=None, Nfile=1):
         block = ColumnMPI(self.comm)
-- 
2.43.0


From 8fb1f419ddecf257a7a4cfb16d1d586b340c7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 51/55] fix: flushing a python column of ranks that is not open
 crashed the interpreter

---
 bigfile/pyxbigfile.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 7a48f84..f0442fa 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -592,6 +592,7 @@ cdef class ColumnLowLevelAPI:
             memset(self.bb.fchecksum, 0, sizeof(self.bb.fchecksum[0]) * self.bb.Nfile)
 
     def _MPI_flush(self):
+        self._check_open()
         comm = self.comm
         cdef unsigned int Nfile = self.bb.Nfile
         cdef unsigned int[:] fchecksum
-- 
2.43.0


From c39239c8a5fd1eb90a1f88c1419ca0b1be0cd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 52/55] fix: python ranks other than the root overwrote the
 checksums after a failed flush

---
 bigfile/pyxbigfile.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index f0442fa..e69f4a2 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -580,6 +580,8 @@ cdef class ColumnLowLevelAPI:
         if comm.rank != root:
             _big_block_close_internal(&self.bb)
             _big_block_unpack(&self.bb, container.data)
+            # what is not stored yet, after a failure, is left to the root
+            _big_block_set_clean(&self.bb)
 
         if comm.rank == root:
             free(buf)
-- 
2.43.0


From 203b5b31a26d4752bec3a6568f63dec6ead99d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:53 +0000
Subject: [PATCH 53/55] fix: failing to create a file leaked memory

---
 src/bigfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1dfabf1..fbbfe36 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -260,6 +260,8 @@ int big_file_create(BigFile * bf, const char * basename) {
         NULL);
     return 0;
 ex_subdir:
+    free(bf->basename);
+    bf->basename = NULL;
     return -1;
 }
 
-- 
2.43.0


From 1e829323ba7368140c052d0963a827544daa4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 54/55] fix: failing to open or create files and blocks of
 ranks leaked memory

---
 src/bigfile-mpi.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 5de2842..dbcb0cf 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -46,13 +46,16 @@ int big_file_mpi_open(BigFile * bf, const char * basename, MPI_Comm comm) {
     if (rank == 0) {
         rt = big_file_open(bf, basename);
     } else {
-        /* FIXME : */
-        bf->basename = _strdup(basename);
         rt = 0;
     }
 
     BCAST_AND_RAISEIF(rt, comm);
 
+    if(rank != 0) {
+        /* FIXME : */
+        bf->basename = _strdup(basename);
+    }
+
     return rt;
 }
 
@@ -64,12 +67,15 @@ int big_file_mpi_create(BigFile * bf, const char * basename, MPI_Comm comm) {
     if (rank == 0) {
         rt = big_file_create(bf, basename);
     } else {
-        /* FIXME : */
-        bf->basename = _strdup(basename);
         rt = 0;
     }
     BCAST_AND_RAISEIF(rt, comm);
 
+    if(rank != 0) {
+        /* FIXME : */
+        bf->basename = _strdup(basename);
+    }
+
     return rt;
 }
 
@@ -206,7 +212,9 @@ _big_block_mpi_create(BigBlock * bb,
         fclose(fp);
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        _big_block_close_internal(bb);
+    }
 
     return rt;
 }
-- 
2.43.0


From c4346464e5d4df3fe468e1bf2c2425299a5b6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 55/55] fix: a failed grow by ranks left the block grown
 without its files

---
 src/bigfile-mpi.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index dbcb0cf..e5d63bc 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -239,6 +239,8 @@ big_block_mpi_grow(BigBlock * bb,
     /* the block is broadcast below; what the ranks have written must not be lost. */
     big_block_mpi_reduce_checksum(bb, 0, comm);
 
+    int olddirty = bb->dirty;
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
@@ -263,7 +265,12 @@ big_block_mpi_grow(BigBlock * bb,
         fclose(fp);
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        /* without its files the block must not be seen, nor stored, as grown */
+        bb->Nfile = oldNfile;
+        bb->size = bb->foffset[oldNfile];
+        big_block_set_dirty(bb, olddirty);
+    }
 
     return rt;
 }
-- 
2.43.0

