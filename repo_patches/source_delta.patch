From 6ca6f855073a0ae1ba1913efbc544959e3f0860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:16 +0000
Subject: [PATCH 001/181] fix: ary_remove moved two elements too many, reading
 past the array

---
 c/src/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/array.c b/c/src/array.c
index 17b30b7..044268a 100644
--- a/c/src/array.c
+++ b/c/src/array.c
@@ -101,8 +101,8 @@ void *ary_remove_i(void **ary, int index)
     if (index >= 0 && index < ary_sz(ary)) {
         void *val = ary[index];
         memmove(ary + index, ary + index + 1,
-                (ary_sz(ary) - index + 1) * sizeof(void *));
-        ary_sz(ary)--;
+                (ary_sz(ary) - index - 1) * sizeof(void *));
+        ary[--ary_sz(ary)] = NULL;
         return val;
     }
     else {
-- 
2.43.0


From 4a831cbc9f57afc5c002826eca2a3392714766a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:25 +0000
Subject: [PATCH 002/181] fix: BitVector recount and scans read one word past
 the allocation

---
 c/include/bitvector.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 032283d..5c3673e 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -220,31 +220,19 @@ extern void frt_bv_clear(FrtBitVector *bv);
 static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_recount(FrtBitVector *bv)
 {
-    unsigned int extra = ((bv->size & 31) >> 3) + 1;
-    unsigned int len   = bv->size >> 5;
+    /* bits past size always hold the extension value so whole words can be
+     * counted */
+    unsigned int len = FRT_TO_WORD(bv->size);
     unsigned int idx, count = 0;
-
     if (bv->extends_as_ones) {
         for (idx = 0; idx < len; ++idx) {
             count += frt_count_zeros(bv->bits[idx]);
         }
-        switch (extra) {
-            case 4: count += frt_count_zeros(bv->bits[idx] | 0x00ffffff);
-            case 3: count += frt_count_zeros(bv->bits[idx] | 0xff00ffff);
-            case 2: count += frt_count_zeros(bv->bits[idx] | 0xffff00ff);
-            case 1: count += frt_count_zeros(bv->bits[idx] | 0xffffff00);
-        }
     }
     else {
         for (idx = 0; idx < len; ++idx) {
             count += frt_count_ones(bv->bits[idx]);
         }
-        switch (extra) {
-            case 4: count += frt_count_ones(bv->bits[idx] & 0xff000000);
-            case 3: count += frt_count_ones(bv->bits[idx] & 0x00ff0000);
-            case 2: count += frt_count_ones(bv->bits[idx] & 0x0000ff00);
-            case 1: count += frt_count_ones(bv->bits[idx] & 0x000000ff);
-        }
     }
     return bv->count = count;
 }
@@ -271,11 +259,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Keep only the bits above this position */
     word &= ~0 << (bit & 31);
     if (word) {
@@ -321,11 +311,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_unset_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Set all of the bits below this position */
     word |= (1 << (bit & 31)) - 1;
     if (~word) {
-- 
2.43.0


From f1a06db19f2682b60fb80f1ccec5bfef7822c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:52 +0000
Subject: [PATCH 003/181] fix: BitVector and!/or!/xor! mishandled operands that
 extend as ones

The in-place forms overwrote extends_as_ones before using it to extend the
shorter operand, and words past the new size kept the old extension value.
---
 c/include/bitvector.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 5c3673e..96539fb 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -376,9 +376,9 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
     {
         FRT_REALLOC_N(bv->bits, frt_u32, capa);
         bv->capa = capa;
-        memset(bv->bits + word_size, (bv->extends_as_ones ? 0xFF : 0),
-               sizeof(frt_u32) * (capa - word_size));
     }
+    memset(bv->bits + word_size, (bv->extends_as_ones ? 0xFF : 0),
+           sizeof(frt_u32) * (bv->capa - word_size));
     bv->size = size;
 }
 
@@ -409,8 +409,11 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
     int max_word_size = FRT_TO_WORD(max_size);                        \
     int min_word_size = FRT_TO_WORD(min_size);                        \
     int capa = frt_max2(frt_round2(max_word_size), 4);                \
+    /* bv may be a or b, so remember how they extend */               \
+    bool a_ones = a->extends_as_ones;                                 \
+    bool b_ones = b->extends_as_ones;                                 \
                                                                       \
-    bv->extends_as_ones = (a->extends_as_ones op b->extends_as_ones); \
+    bv->extends_as_ones = (a_ones op b_ones);                         \
     frt_bv_capa(bv, capa, max_size);                                  \
                                                                       \
     for (i = 0; i < min_word_size; ++i)                               \
@@ -418,10 +421,10 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
                                                                       \
     if (a_wsz != b_wsz) {                                             \
         frt_u32 *bits = a->bits;                                      \
-        bool extends_as_ones = b->extends_as_ones;                    \
+        bool extends_as_ones = b_ones;                                \
         if (a_wsz < b_wsz) {                                          \
             bits = b->bits;                                           \
-            extends_as_ones = a->extends_as_ones;                     \
+            extends_as_ones = a_ones;                                 \
         }                                                             \
         ext_cb(bv->bits, bits, extends_as_ones, i, max_word_size);    \
     }                                                                 \
-- 
2.43.0


From 1225f871234037038d82a1d39c21981e34dd5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:52 +0000
Subject: [PATCH 004/181] fix: BitVector count went wrong when setting bits of
 a negated vector

---
 c/include/bitvector.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 96539fb..a3a991e 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -104,13 +104,18 @@ void frt_bv_set_value(FrtBitVector *bv, int bit, bool value)
     word_p = &(bv->bits[word]);
     if ((!!(bitmask & *word_p)) != value) {
         if (value) {
-            bv->count++;
             *word_p |= bitmask;
         }
         else {
-            bv->count--;
             *word_p &= ~bitmask;
         }
+        /* a negated BitVector counts its unset bits, see frt_bv_recount */
+        if (value == bv->extends_as_ones) {
+            bv->count--;
+        }
+        else {
+            bv->count++;
+        }
     }
 }
 
-- 
2.43.0


From cb529f020e639197dee519e9d8d41a8ca84a444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:52 +0000
Subject: [PATCH 005/181] fix: MultiMapper used a freed state machine or buffer

mulmap_map_len and mulmap_dynamic_map picked up the start state before
compiling pending mappings, and dynamic_map ignored erealloc's result and
truncated replacements at the buffer end.
---
 c/src/multimapper.c | 52 ++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index b90e0d0..6263d97 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -261,12 +261,12 @@ void mulmap_compile(MultiMapper *self)
 
 int mulmap_map_len(MultiMapper *self, char *to, char *from, int capa)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    start = state = self->dstates[0];
     while (*s && d < end) {
         state = state->next[UCtoI(*s)];
         if (state->mapping) {
@@ -297,38 +297,38 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 /* Maps a string to a dynamically allocated string */
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
-    int capa = strlen(from);
+    DeterministicState *start, *state;
+    int capa = strlen(from) + 1;
     char *to = (char *)ecalloc(capa);
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
-    do {
-        while (*s && d < end) {
-            state = state->next[UCtoI(*s)];
-            if (state->mapping) {
-                int len = state->mapping_len;
-                d -= (state->longest_match - 1);
-                if ((d + len) > end) {
-                    len = end - d;
-                }
-                memcpy(d, state->mapping, len);
-                d += len;
-                state = start;
-            }
-            else {
-                *(d++) = *s;
-            }
-            s++;
+    start = state = self->dstates[0];
+    while (*s) {
+        int len = 1;
+        state = state->next[UCtoI(*s)];
+        if (state->mapping) {
+            len = state->mapping_len;
+            d -= (state->longest_match - 1);
         }
-        if (*s) {
-            capa += 1024;
-            erealloc(to, capa);
+        if ((d + len) > end) {
+            const int pos = d - to;
+            capa += len + 1024;
+            REALLOC_N(to, char, capa);
+            d = to + pos;
             end = to + capa - 1;
         }
-    } while(*s);
+        if (state->mapping) {
+            memcpy(d, state->mapping, len);
+            d += len;
+            state = start;
+        }
+        else {
+            *(d++) = *s;
+        }
+        s++;
+    }
     *d = '\0';
     return to;
 }
-- 
2.43.0


From 32556bd6cec90d7e1707ec3205cb91db368bf409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 006/181] fix: compressed fields larger than the zip buffer
 were corrupted

Neither the compressor nor the decompressor reset the output space of the
stream between rounds, and the reader read the whole compressed field into
its fixed size input buffer.
---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..8611b30 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1266,15 +1266,15 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
             zstrm.next_out = buf_out + buf_out_idx;
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
             switch(ret) {
@@ -1286,14 +1286,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != Z_STREAM_END && zstrm.avail_out == 0);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)inflateEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, uchar, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1356,15 +1356,15 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
             zstrm.next_out = buf_out + buf_out_idx;
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
             if (ret != BZ_OK && ret != BZ_STREAM_END) {
@@ -1372,14 +1372,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != BZ_STREAM_END && zstrm.avail_out == 0);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)BZ2_bzDecompressEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, char, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1849,15 +1849,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != Z_STREAM_END);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1877,15 +1877,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != BZ_STREAM_END);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0


From a4b9494fb1a4fd18308d02516459b3165dcce59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 007/181] fix: a 255 byte untokenized value overflowed the term
 buffers

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 8611b30..dc803e7 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5622,7 +5622,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From 6158dafbfa6c5195cbd1425f6f7a8f020c079079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 008/181] fix: lazy_df_get_bytes skipped a value separator it
 should start at

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index dc803e7..b85dd42 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1438,7 +1438,7 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         int cur_start = 0, buf_start = 0, cur_end, i, copy_start, copy_len;
         for (i = 0; i < self->size; i++) {
             cur_end = cur_start + self->data[i].length;
-            if (start < cur_end) {
+            if (start <= cur_end) {
                 copy_start = start > cur_start ? start - cur_start : 0;
                 copy_len = cur_end - cur_start - copy_start;
                 if (copy_len >= len) {
-- 
2.43.0


From 0edc8d8c77a73b12346ef36000d2c27db0788763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 009/181] fix: ramo_write_to read past the buffer list of an
 exactly full file

---
 c/src/ram_store.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..3875b53 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -247,7 +247,10 @@ void ramo_write_to(OutStream *os, OutStream *other_o)
     last_buffer_offset = rf->len % BUFFER_SIZE;
     for (i = 0; i <= last_buffer_number; i++) {
         len = (i == last_buffer_number ? last_buffer_offset : BUFFER_SIZE);
-        os_write_bytes(other_o, rf->buffers[i], len);
+        /* there is no last buffer when the last but one is exactly full */
+        if (len > 0) {
+            os_write_bytes(other_o, rf->buffers[i], len);
+        }
     }
 }
 
-- 
2.43.0


From fd3cfead9db02469724bff80bbe96fd22ccf41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:02 +0000
Subject: [PATCH 010/181] fix: merging long terms overwrote the last index term

The term writers of a merge keep pointers to terms cached in a ring buffer.
It has to hold the last index_interval + 2 terms, whatever their length.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index b85dd42..7cd4745 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6082,7 +6082,7 @@ static void sm_merge_terms(SegmentMerger *sm)
      * term put in the index with the next one. So the size of the buffer must
      * by index_interval + 2. */
     sm->term_buf_ptr = 0;
-    sm->term_buf_size = (sm->config->index_interval + 1) * MAX_WORD_SIZE;
+    sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
     sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
 
     sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
-- 
2.43.0


From 21a2d4187ae90116ba6582bee4e8bb0cac08ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:02 +0000
Subject: [PATCH 011/181] fix: the offset count of an empty term vector was not
 read back

The writer stores the count whenever the field stores offsets, so the vectors
that follow it in the document were read from the wrong place.
---
 c/src/index.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 7cd4745..a3b10b2 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1671,14 +1671,14 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
     InStream *fdt_in = fr->fdt_in;
     FieldInfo *fi = fr->fis->fields[field_num];
     const int num_terms = is_read_vint(fdt_in);
+    int i;
 
     tv->field_num = field_num;
     tv->field = fi->name;
 
     if (num_terms > 0) {
-        int i, j, delta_start, delta_len, total_len, freq;
+        int j, delta_start, delta_len, total_len, freq;
         int store_positions = fi_store_positions(fi);
-        int store_offsets = fi_store_offsets(fi);
         uchar buffer[MAX_WORD_SIZE];
         TVTerm *term;
 
@@ -1708,18 +1708,20 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
                 }
             }
 
-            /* read offsets if necessary */
-        }
-        if (store_offsets) {
-            int num_positions = tv->offset_cnt = is_read_vint(fdt_in);
-            Offset *offsets = tv->offsets = ALLOC_N(Offset, num_positions);
-            i64 offset = 0;
-            for (i = 0; i < num_positions; i++) {
-                offsets[i].start =
-                    (off_t)(offset += (i64)is_read_vll(fdt_in));
-                offsets[i].end =
-                    (off_t)(offset += (i64)is_read_vll(fdt_in));
-            }
+        }
+    }
+
+    /* read offsets if necessary. The writer stores the offset count even when
+     * the field has no terms. */
+    if (fi_store_offsets(fi)) {
+        int num_positions = tv->offset_cnt = is_read_vint(fdt_in);
+        Offset *offsets = tv->offsets = ALLOC_N(Offset, num_positions);
+        i64 offset = 0;
+        for (i = 0; i < num_positions; i++) {
+            offsets[i].start =
+                (off_t)(offset += (i64)is_read_vll(fdt_in));
+            offsets[i].end =
+                (off_t)(offset += (i64)is_read_vll(fdt_in));
         }
     }
     return tv;
-- 
2.43.0


From 9c92688b0dd86921fc57bdb9d82f8112a0a23702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 012/181] fix: term_vectors crashed on an index without term
 vector fields

The thread local FieldsReader is only set up when a field stores term vectors.
---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index a3b10b2..d2c9e12 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4570,6 +4570,10 @@ static TermVector *sr_term_vector(IndexReader *ir, int doc_num,
 static Hash *sr_term_vectors(IndexReader *ir, int doc_num)
 {
     FieldsReader *fr;
+    if (!SR(ir)->fr_bucket) {
+        /* none of the fields store term vectors */
+        return h_new_ptr((free_ft)&tv_destroy);
+    }
     if (!SR(ir)->fr || NULL == (fr = sr_fr(SR(ir)))) {
         return NULL;
     }
-- 
2.43.0


From 409e7c32b202a09c4facfbaa97c027b80ed1fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 013/181] fix: seeking a position enum by TermEnum left it on
 old positions

The position stream was not moved by seek_te on a segment, and on several
segments the unread positions of the previous term were skipped on the new one.
---
 c/src/index.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index d2c9e12..e28ea8b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3134,6 +3134,7 @@ static void stpe_seek_ti(SegmentTermDocEnum *stde, TermInfo *ti)
         stde_seek_ti(stde, ti);
         is_seek(stde->prx_in, ti->prx_ptr);
     }
+    stde->prx_cnt = 0;
 }
 
 static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
@@ -3141,7 +3142,16 @@ static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
     SegmentTermDocEnum *stde = STDE(tde);
     TermInfo *ti = tir_get_ti_field(stde->tir, field_num, term);
     stpe_seek_ti(stde, ti);
-    stde->prx_cnt = 0;
+}
+
+static void stpe_seek_te(TermDocEnum *tde, TermEnum *te)
+{
+#ifdef DEBUG
+    if (te->set_field != &ste_set_field) {
+        RAISE(ARG_ERROR, "Passed an incorrect TermEnum type");
+    }
+#endif
+    stpe_seek_ti(STDE(tde), &(te->curr_ti));
 }
 
 static bool stpe_next(TermDocEnum *tde)
@@ -3205,6 +3215,7 @@ TermDocEnum *stpe_new(TermInfosReader *tir,
 
     /* TermDocEnum methods */
     tde->seek                = &stpe_seek;
+    tde->seek_te             = &stpe_seek_te;
     tde->next                = &stpe_next;
     tde->read                = &stpe_read;
     tde->next_position       = &stpe_next_position;
-- 
2.43.0


From 1996d062489547d5c1755bbf963c091484851f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 014/181] fix: seeking a multi segment enum to an absent term
 kept the old postings

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index e28ea8b..b3c52cc 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3311,6 +3311,8 @@ static void mtde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         memset(mtde->state, 0, mtde->ir_cnt);
+        mtde->ptr = mtde->ir_cnt;
+        mtde->curr_tde = NULL;
     }
 }
 
-- 
2.43.0


From 3ec6baba3ef83228c2cd3f368061dd23bda3678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 015/181] fix: skip_to miscounted postings with a skip interval
 of 1 or 2

A skip entry for document 0 was taken for no entry at all, so postings at the
end of the list were lost or read past its end.
---
 c/src/index.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index b3c52cc..e22a7f7 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3007,7 +3007,7 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
         int last_skip_doc;
         off_t last_frq_ptr;
         off_t last_prx_ptr;
-        int num_skipped;
+        int last_skip_count;
 
         if (NULL == stde->skip_in) {
             stde->skip_in = is_clone(stde->frq_in);/* lazily clone */
@@ -3023,17 +3023,13 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
         last_skip_doc = stde->skip_doc;
         last_frq_ptr = is_pos(stde->frq_in);
         last_prx_ptr = -1;
-        num_skipped = -1 - (stde->count % stde->skip_interval);
-        //printf("%d, %d, %d, %d\n", last_skip_doc, last_frq_ptr, last_prx_ptr, num_skipped);
+        last_skip_count = stde->skip_count;
 
         while (target_doc_num > stde->skip_doc) {
             last_skip_doc = stde->skip_doc;
             last_frq_ptr = stde->frq_ptr;
             last_prx_ptr = stde->prx_ptr;
-
-            if (0 != stde->skip_doc && stde->skip_doc >= stde->doc_num) {
-                num_skipped += stde->skip_interval;
-            }
+            last_skip_count = stde->skip_count;
 
             if (stde->skip_count >= stde->num_skips) {
                 break;
@@ -3053,7 +3049,9 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
             stde->seek_prox(stde, last_prx_ptr);
 
             stde->doc_num = last_skip_doc;
-            stde->count += num_skipped;
+            /* each skip entry was written just before the posting that
+             * completes an interval */
+            stde->count = last_skip_count * stde->skip_interval - 1;
         }
     }
 
-- 
2.43.0


From d1feefe2ea63158dc885c89f4ff20e5cbe2b6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 016/181] fix: terms_from lost segments whose first term is the
 empty string

---
 c/src/index.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index e22a7f7..e651d20 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2582,16 +2582,9 @@ TermEnum *mte_new(MultiReader *mr, int field_num, const char *term)
         if (fnum >= 0) {
             TermEnumWrapper *tew;
 
-            if (NULL != term) {
-                sub_te = reader->terms_from(reader, fnum, term);
-            }
-            else {
-                sub_te = reader->terms(reader, fnum);
-            }
-
+            sub_te = reader->terms(reader, fnum);
             tew = tew_setup(&(mte->tews[i]), i, sub_te, reader);
-            if (((NULL == term) && tew_next(tew))
-                || (tew->term && (tew->term[0] != '\0'))) {
+            if ((NULL == term) ? tew_next(tew) : tew_skip_to(tew, term)) {
                 pq_push(mte->tew_queue, tew);          /* initialize queue */
             }
         }
-- 
2.43.0


From 0b6c89124297d21c9185f50375b9aa4365b64db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:48 +0000
Subject: [PATCH 017/181] fix: a reader of an empty index never noticed it was
 out of date

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index e651d20..2c0db53 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4937,6 +4937,10 @@ static bool mr_is_latest_i(IndexReader *ir)
 {
     int i;
     const int mr_reader_cnt = MR(ir)->r_cnt;
+    if (ir->is_owner) {
+        /* the segments of one index: there may be none */
+        return (sis_read_current_version(ir->store) == ir->sis->version);
+    }
     for (i = 0; i < mr_reader_cnt; i++) {
         if (!ir_is_latest(MR(ir)->sub_readers[i])) {
             return false;
-- 
2.43.0


From 63eca02c7f8b47dd10c333f8fd376345488c6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:35 +0000
Subject: [PATCH 018/181] fix: add_readers brought deleted documents back

The deletions were looked for under a file name without generation and the new
segment was never told that it has any.
---
 c/src/index.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 2c0db53..5a11431 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6561,16 +6561,6 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
-    }
-
-
     if (map) {
         int i;
         const int max_doc = sr_max_doc(IR(sr));
@@ -6766,6 +6756,12 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
     bool must_map_fields = false;
 
     si->doc_cnt = IR(sr)->max_doc(IR(sr));
+    if (sr->deleted_docs) {
+        char file_name[SEGMENT_NAME_MAX_LENGTH];
+        si->del_gen = 0;
+        fn_for_generation(file_name, si->name, "del", si->del_gen);
+        bv_write(sr->deleted_docs, iw->store, file_name);
+    }
     /* Merge FieldInfos */
     for (j = 0; j < fis_size; j++) {
         FieldInfo *fi = sub_fis->fields[j];
-- 
2.43.0


From 83d11d83b0ad7ced48b032f814e3650b51d81420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:35 +0000
Subject: [PATCH 019/181] fix: get_norms_into left bytes unset for readers
 lacking the field

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 5a11431..978e70f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4822,6 +4822,10 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
                 IndexReader *reader = MR(ir)->sub_readers[i];
                 reader->get_norms_into(reader, fnum, buf + MR(ir)->starts[i]);
             }
+            else {
+                memset(buf + MR(ir)->starts[i], 0,
+                       MR(ir)->starts[i + 1] - MR(ir)->starts[i]);
+            }
         }
     }
     mutex_unlock(&ir->mutex);
-- 
2.43.0


From 0edbf34a7e72a16180f61c45ea207c99be77a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:35 +0000
Subject: [PATCH 020/181] fix: explaining a multi term query without terms
 wrote before its buffer

---
 c/src/q_multi_term.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index 873f93f..b4c9d37 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -412,7 +412,9 @@ static Explanation *multi_tw_explain(Weight *self, IndexReader *ir, int doc_num)
         pos += sprintf(doc_freqs + pos, "(%s=%d) + ", term, doc_freq);
         total_doc_freqs += doc_freq;
     }
-    pos -= 2; /* remove " + " from the end */
+    if (pos > 0) {
+        pos -= 2; /* remove " + " from the end */
+    }
     sprintf(doc_freqs + pos, "= %d", total_doc_freqs);
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
-- 
2.43.0


From b4c341cc1e662fed6838ae6dd9a344881d19d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 021/181] fix: a conjunction skipped to past its last match
 kept matching

csc_sort_scorers() clears csc->more when a clause runs out, but csc_skip_to()
overwrote it, so documents which do not match every clause were returned.
---
 c/src/q_boolean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..dc6fb59 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -396,12 +396,12 @@ static bool csc_skip_to(Scorer *self, int doc_num)
             more = sub_scorer->skip_to(sub_scorer, doc_num);
         }
     }
+    csc->more = more;
     if (more) {
         /* resort the scorers */
         csc_sort_scorers(csc);
     }
 
-    csc->more = more;
     return csc_do_next(self);
 }
 
-- 
2.43.0


From 0534ebc59194c8a25d61d282601951a16117751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 022/181] fix: boolean coord ignored optional clauses without a
 scorer

A clause without a scorer (no terms, unknown field) did not count towards the
maximum coord, so the score did not agree with explain and depended on which
segment or sub-index the document was in.
---
 c/src/q_boolean.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index dc6fb59..3975328 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1154,6 +1154,10 @@ static Scorer *bw_scorer(Weight *self, IndexReader *ir)
             bsc->destroy(bsc);
             return NULL;
         }
+        else if (!clause->is_prohibited) {
+            /* a clause which cannot match still counts towards coord */
+            BSc(bsc)->coordinator->max_coord++;
+        }
     }
 
     return bsc;
-- 
2.43.0


From 7560b0a4c26eb01d8fa360c03f07820b861171fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 023/181] fix: constant score scorers kept their position in
 the shared filter bits

The bit vector belongs to the filter's cache, so a second search with the same
filter (or two clauses sharing it) continued where the previous scan stopped.
---
 c/src/q_const_score.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 0269f3d..ac54c46 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -25,7 +25,8 @@ static float cssc_score(Scorer *self)
 
 static bool cssc_next(Scorer *self)
 {
-    return ((self->doc = bv_scan_next(CScSc(self)->bv)) >= 0);
+    return ((self->doc = bv_scan_next_from(CScSc(self)->bv,
+                                            self->doc + 1)) >= 0);
 }
 
 static bool cssc_skip_to(Scorer *self, int doc_num)
@@ -47,6 +48,9 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
     CScSc(self)->score  = weight->value;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
 
+    /* the bit vector is cached by the filter and shared with other scorers, so
+     * the scan position is kept here and not in the bit vector */
+    self->doc       = -1;
     self->score     = &cssc_score;
     self->next      = &cssc_next;
     self->skip_to   = &cssc_skip_to;
-- 
2.43.0


From 20f329c2a219e335b331de9b160e48850d30d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 024/181] fix: explain of a constant score query gave
 non-matching documents its value

---
 c/src/q_const_score.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index ac54c46..9d05bff 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -84,7 +84,7 @@ static Explanation *csw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     }
     else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "ConstantScoreQuery(%s), does not match id %d",
                         filter_str, doc_num);
     }
-- 
2.43.0


From fd3e54b8343f6506dfbc009d0a566b000efc51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 025/181] fix: filtered query crashed when its query has no
 scorer

---
 c/src/q_filtered_query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 31f8c07..295b424 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -127,6 +127,9 @@ static Scorer *fqw_scorer(Weight *self, IndexReader *ir)
     Scorer *scorer = sub_weight->scorer(sub_weight, ir);
     Filter *filter = FQQ(self->query)->filter;
 
+    if (NULL == scorer) {
+        return NULL;
+    }
     return fqsc_new(scorer, filt_get_bv(filter, ir), self->similarity);
 }
 
-- 
2.43.0


From 4205f94706af693d2bb5cc9ea010d0f154d10220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 026/181] fix: explain of a filtered query ignored the filter

---
 c/src/q_filtered_query.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 295b424..f23aee0 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -118,6 +118,15 @@ static float fqw_get_value(Weight *self)
 static Explanation *fqw_explain(Weight *self, IndexReader *ir, int doc_num)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
+    Filter *filter = FQQ(self->query)->filter;
+
+    if (!bv_get(filt_get_bv(filter, ir), doc_num)) {
+        char *filter_str = filter->to_s(filter);
+        Explanation *expl = expl_new(0.0, "filter %s does not match id %d",
+                                     filter_str, doc_num);
+        free(filter_str);
+        return expl;
+    }
     return sub_weight->explain(sub_weight, ir, doc_num);
 }
 
-- 
2.43.0


From c9447a51ccef7fb327fe1d93859924b24ede55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 027/181] fix: hashing or comparing filtered queries called a
 null pointer

---
 c/src/q_filtered_query.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index f23aee0..3bbdb5b 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -201,6 +201,17 @@ static void fq_destroy(Query *self)
     q_destroy_i(self);
 }
 
+static unsigned long fq_hash(Query *self)
+{
+    return q_hash(FQQ(self)->query) ^ filt_hash(FQQ(self)->filter);
+}
+
+static int fq_eq(Query *self, Query *o)
+{
+    return q_eq(FQQ(self)->query, FQQ(o)->query)
+        && filt_eq(FQQ(self)->filter, FQQ(o)->filter);
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -217,6 +228,8 @@ Query *fq_new(Query *query, Filter *filter)
 
     self->type              = FILTERED_QUERY;
     self->to_s              = &fq_to_s;
+    self->hash              = &fq_hash;
+    self->eq                = &fq_eq;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From 1c9bbef5d8ea88864ce2fbae512986fc210159d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 028/181] fix: the boost of a filtered query was ignored

---
 c/src/q_filtered_query.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 3bbdb5b..7fdb868 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -100,13 +100,15 @@ static char *fqw_to_s(Weight *self)
 static float fqw_sum_of_squared_weights(Weight *self)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
-    return sub_weight->sum_of_squared_weights(sub_weight);
+    float boost = self->query->boost;
+    return sub_weight->sum_of_squared_weights(sub_weight) * boost * boost;
 }
 
 static void fqw_normalize(Weight *self, float normalization_factor)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
-    sub_weight->normalize(sub_weight, normalization_factor);
+    sub_weight->normalize(sub_weight,
+                          normalization_factor * self->query->boost);
 }
 
 static float fqw_get_value(Weight *self)
-- 
2.43.0


From 8ee7d9635cb4be39320778abbab25c7a4089ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:42 +0000
Subject: [PATCH 029/181] fix: a boosted one-clause boolean query changed its
 clause's boost at every search

Rewriting multiplied the boost into the clause's own query object, so searching
twice (with the clause nested or rewritten) gave different scores.
---
 c/include/search.h |  1 -
 c/src/q_boolean.c  | 25 ++++---------------------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/c/include/search.h b/c/include/search.h
index 3b7b538..24025a1 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -296,7 +296,6 @@ typedef struct FrtBooleanQuery
     int             max_clause_cnt;
     int             clause_cnt;
     int             clause_capa;
-    float           original_boost;
     FrtBooleanClause **clauses;
     FrtSimilarity     *similarity;
 } FrtBooleanQuery;
diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 3975328..6fb249a 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1347,29 +1347,13 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
     bool rewritten = false;
     bool has_non_prohibited_clause = false;
 
-    if (clause_cnt == 1) { 
-        /* optimize 1-clause queries */
+    if (clause_cnt == 1 && self->boost == 1.0) {
+        /* optimize 1-clause queries. A boosted query is left alone since its
+         * boost can't be passed on without changing the clause's query */
         BooleanClause *clause = BQ(self)->clauses[0];
         if (! clause->is_prohibited) {
             /* just return clause. Re-write first. */
-            Query *q = clause->query->rewrite(clause->query, ir);
-
-            if (self->boost != 1.0) {
-                /* original_boost is initialized to 0.0. If it has been set to
-                 * something else it means this query has already been boosted
-                 * before so boost from the original value */
-                if ((q == clause->query) && BQ(self)->original_boost) {
-                    /* rewrite was no-op */
-                    q->boost = BQ(self)->original_boost * self->boost;
-                }
-                else {
-                    /* save original boost in case query is rewritten again */
-                    BQ(self)->original_boost = q->boost;
-                    q->boost *= self->boost;
-                }
-            }
-
-            return q;
+            return clause->query->rewrite(clause->query, ir);
         }
     }
 
@@ -1557,7 +1541,6 @@ Query *bq_new(bool coord_disabled)
     BQ(self)->clause_capa = BOOLEAN_CLAUSES_START_CAPA;
     BQ(self)->clauses = ALLOC_N(BooleanClause *, BOOLEAN_CLAUSES_START_CAPA);
     BQ(self)->similarity = NULL;
-    BQ(self)->original_boost = 0.0;
 
     self->type = BOOLEAN_QUERY;
     self->rewrite = &bq_rewrite;
-- 
2.43.0


From b680d62aaa8290f5659ac67303cbfda1d67a5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:07 +0000
Subject: [PATCH 030/181] fix: searching an all-prohibited boolean query added
 a match-all clause to it

The query object itself was changed, so adding a clause afterwards gave wrong
matches, and a query rewritten after being searched shared (and freed twice)
the similarity of the original.
---
 c/src/q_boolean.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 6fb249a..1210b75 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1340,6 +1340,23 @@ static MatchVector *bq_get_matchv_i(Query *self, MatchVector *mv,
     return mv;
 }
 
+static Query *bq_copy(Query *self)
+{
+    int i;
+    Query *copy = q_new(BooleanQuery);
+    memcpy(copy, self, sizeof(BooleanQuery));
+    BQ(copy)->clauses = ALLOC_N(BooleanClause *, BQ(self)->clause_capa);
+    memcpy(BQ(copy)->clauses, BQ(self)->clauses,
+           BQ(self)->clause_capa * sizeof(BooleanClause *));
+    for (i = 0; i < BQ(self)->clause_cnt; i++) {
+        REF(BQ(self)->clauses[i]);
+    }
+    /* the similarity, if any, belongs to self */
+    BQ(copy)->similarity = NULL;
+    copy->ref_cnt = 1;
+    return copy;
+}
+
 static Query *bq_rewrite(Query *self, IndexReader *ir)
 {
     int i;
@@ -1366,19 +1383,8 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         if (clause->is_prohibited == false) has_non_prohibited_clause = true;
         if (rq != clause->query) {
             if (!rewritten) {
-                int j;
-                Query *new_self = q_new(BooleanQuery);
-                memcpy(new_self, self, sizeof(BooleanQuery));
-                BQ(new_self)->clauses = ALLOC_N(BooleanClause *,
-                                                BQ(self)->clause_capa);
-                memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
-                       BQ(self)->clause_capa * sizeof(BooleanClause *));
-                for (j = 0; j < clause_cnt; j++) {
-                    REF(BQ(self)->clauses[j]);
-                }
                 self->ref_cnt--;
-                self = new_self;
-                self->ref_cnt = 1;
+                self = bq_copy(self);
                 rewritten = true;
             }
             DEREF(clause);
@@ -1388,6 +1394,10 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         }
     }
     if (clause_cnt > 0 && !has_non_prohibited_clause) {
+        if (!rewritten) {
+            self->ref_cnt--;
+            self = bq_copy(self);
+        }
         bq_add_query_nr(self, maq_new(), BC_MUST);
     }
 
-- 
2.43.0


From ad703be050372527395ce98462fe18370e907892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:23 +0000
Subject: [PATCH 031/181] fix: typed ranges took non-numeric terms for the
 previous number

When sscanf fails it sets neither the number nor the length, so a term of the
same length as the last number ("-a" after "-5") was treated as that number.
---
 c/src/q_range.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 4270909..d179b51 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -330,8 +330,8 @@ typedef enum {
 #define SET_DOCS(cond)\
 do {\
     if (term[0] > '9') break; /* done */\
-    sscanf(term, "%lg%n", &num, &len);\
-    if (len == te->curr_term_len) { /* We have a number */\
+    if (sscanf(term, "%lg%n", &num, &len) == 1\
+        && len == te->curr_term_len) { /* We have a number */\
         if (cond) {\
             tde->seek_te(tde, te);\
             while (tde->next(tde)) {\
@@ -560,8 +560,8 @@ for (i = tv->term_cnt - 1; i >= 0; i--) {\
     TVTerm *tv_term = &(tv->terms[i]);\
     char *text = tv_term->text;\
     double num;\
-    sscanf(text, "%lg%n", &num, &len);\
-    if ((int)strlen(text) == len) { /* We have a number */\
+    if (sscanf(text, "%lg%n", &num, &len) == 1\
+        && (int)strlen(text) == len) { /* We have a number */\
         if (cond) {\
             const int tv_term_freq = tv_term->freq;\
             for (j = 0; j < tv_term_freq; j++) {\
-- 
2.43.0


From aa58b63ffab2ad2dfea25faf56e2a7aeb3e2d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:48 +0000
Subject: [PATCH 032/181] fix: the boost of range, wildcard and fuzzy queries
 was dropped by rewriting

---
 c/src/q_fuzzy.c    | 5 ++++-
 c/src/q_range.c    | 2 ++
 c/src/q_wildcard.c | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/src/q_fuzzy.c b/c/src/q_fuzzy.c
index cce8219..f4faf81 100644
--- a/c/src/q_fuzzy.c
+++ b/c/src/q_fuzzy.c
@@ -189,10 +189,13 @@ static Query *fuzq_rewrite(Query *self, IndexReader *ir)
         return bq_new(true);
     }
     if (fuzq->pre_len >= (int)strlen(term)) {
-        return tq_new(fuzq->field, term);
+        q = tq_new(fuzq->field, term);
+        q->boost = self->boost;
+        return q;
     }
 
     q = multi_tq_new_conf(fuzq->field, MTQMaxTerms(self), fuzq->min_sim);
+    q->boost = self->boost;
     if (pre_len > 0) {
         prefix = ALLOC_N(char, pre_len + 1);
         strncpy(prefix, term, pre_len);
diff --git a/c/src/q_range.c b/c/src/q_range.c
index d179b51..0bcece4 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -503,6 +503,7 @@ static Query *rq_rewrite(Query *self, IndexReader *ir)
                                r->include_lower, r->include_upper);
     (void)ir;
     csq = csq_new_nr(filter);
+    csq->boost = self->boost;
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &rq_get_matchv_i;
     return (Query *)csq;
@@ -645,6 +646,7 @@ static Query *trq_rewrite(Query *self, IndexReader *ir)
                                 r->include_lower, r->include_upper);
     (void)ir;
     csq = csq_new_nr(filter);
+    csq->boost = self->boost;
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &trq_get_matchv_i;
     return (Query *)csq;
diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index d46ce02..ad0ecbc 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -87,7 +87,6 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
 
     if (NULL == first_star && NULL == first_ques) {
         q = tq_new(WCQ(self)->field, pattern);
-        q->boost = self->boost;
     }
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
@@ -126,6 +125,7 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
             }
         }
     }
+    q->boost = self->boost;
 
     return q;
 }
-- 
2.43.0


From d1dfc6e6af820e58b16b7e03c40dbce4bcaea46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:48 +0000
Subject: [PATCH 033/181] fix: wildcard patterns with a long literal prefix
 overflowed a stack buffer

---
 c/src/q_wildcard.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index ad0ecbc..9a483f1 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -94,7 +94,7 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
 
         if (field_num >= 0) {
             TermEnum *te;
-            char prefix[MAX_WORD_SIZE] = "";
+            char *prefix;
             int prefix_len;
 
             pattern = (first_ques && (!first_star || first_star > first_ques))
@@ -102,10 +102,9 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
 
             prefix_len = (int)(pattern - WCQ(self)->pattern);
 
-            if (prefix_len > 0) {
-                memcpy(prefix, WCQ(self)->pattern, prefix_len);
-                prefix[prefix_len] = '\0';
-            }
+            prefix = ALLOC_N(char, prefix_len + 1);
+            memcpy(prefix, WCQ(self)->pattern, prefix_len);
+            prefix[prefix_len] = '\0';
 
             te = ir->terms_from(ir, field_num, prefix);
 
@@ -123,6 +122,7 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
                 } while (te->next(te) != NULL);
                 te->close(te);
             }
+            free(prefix);
         }
     }
     q->boost = self->boost;
-- 
2.43.0


From 2df9ea9f25fb0b0158d15056a7b45fd4e62c4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:49 +0000
Subject: [PATCH 034/181] fix: phrase scorers lost a document when next
 followed a first skip_to

skip_to did not mark the scorer as started, so the following next moved every
term's position list on once more.
---
 c/src/q_phrase.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 03e37c7..0663ad6 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -265,6 +265,7 @@ static bool phsc_skip_to(Scorer *self, int doc_num)
 {
     PhraseScorer *phsc = PhSc(self);
     int i;
+    phsc->first_time = false;
     for (i = phsc->pp_cnt - 1; i >= 0; i--) {
         if (!(phsc->more = pp_skip_to(phsc->phrase_pos[i], doc_num))) {
             break;
-- 
2.43.0


From ed76b6e46c19e42c8402858fa290f5c17ff8bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:49 +0000
Subject: [PATCH 035/181] fix: sloppy phrases whose first position is not 0
 missed matches near the start

Positions relative to the phrase can be negative, so the furthest one can't be
searched for starting from 0.
---
 c/src/q_phrase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 0663ad6..30f7640 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -459,7 +459,7 @@ static float sphsc_phrase_freq(Scorer *self)
     PriorityQueue *pq = pq_new(phsc->pp_cnt, (lt_ft)&pp_less_than, NULL);
     const int pp_cnt = phsc->pp_cnt;
 
-    int last_pos = 0, pos, next_pos, start, match_length, i;
+    int last_pos = INT_MIN, pos, next_pos, start, match_length, i;
     bool done = false;
     bool check_repeats = phsc->check_repeats;
     float freq = 0.0;
-- 
2.43.0


From 13595b7445765ea2611f1b2d83eb52c5efb310b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:35 +0000
Subject: [PATCH 036/181] fix: sloppy phrases with repeated terms matched
 depending on where the scan started

The clash check skipped the previous position, and took the positions in
whatever order the document scan had left them.
---
 c/src/q_phrase.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 30f7640..91acb59 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -125,6 +125,11 @@ static int pp_pos_cmp(const void *const p1, const void *const p2)
     return PP_pp(p1)->position - PP_pp(p2)->position;
 }
 
+static int pp_offset_cmp(const void *const p1, const void *const p2)
+{
+    return PP_pp(p1)->offset - PP_pp(p2)->offset;
+}
+
 static bool pp_less_than(const PhPos *pp1, const PhPos *pp2)
 {
     if (pp1->position == pp2->position) {
@@ -464,6 +469,9 @@ static float sphsc_phrase_freq(Scorer *self)
     bool check_repeats = phsc->check_repeats;
     float freq = 0.0;
 
+    /* use the same order for every document, whatever order scanning left */
+    qsort(phsc->phrase_pos, pp_cnt, sizeof(PhPos *), &pp_offset_cmp);
+
     for (i = 0; i < pp_cnt; i++) {
         bool res;
         pp = phsc->phrase_pos[i];
@@ -472,7 +480,7 @@ static float sphsc_phrase_freq(Scorer *self)
         res = pp_first_position(pp);
         assert(res);(void)res;
         if (check_repeats && i > 0) {
-            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i - 1)) {
+            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i)) {
                 goto return_freq;
             }
         }
-- 
2.43.0


From 00259de8d16a665e021f6b35b6e3f30cd8f4b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 037/181] fix: span multi-term and prefix queries failed on
 indexes with several segments

They asked for a position before moving to a document, which a multi segment
enumerator refuses, and relied on a negative position to end a document, which
the enumerator used for highlighting never returns.
---
 c/src/q_span.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index da844a8..76f15c5 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -459,6 +459,7 @@ typedef struct TermPosEnumWrapper
     TermDocEnum *tpe;
     int          doc;
     int          pos;
+    int          left;      /* positions left in this document */
 } TermPosEnumWrapper;
 
 static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
@@ -471,11 +472,13 @@ static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
 static bool tpew_next(TermPosEnumWrapper *self)
 {
     TermDocEnum *tpe = self->tpe;
-    if (0 > (self->pos = tpe->next_position(tpe))) {
+    if (self->left <= 0) {
         if (!tpe->next(tpe)) return false;
         self->doc = tpe->doc_num(tpe);
-        self->pos = tpe->next_position(tpe);
+        self->left = tpe->freq(tpe);
     }
+    self->left--;
+    self->pos = tpe->next_position(tpe);
     return true;
 }
 
@@ -485,6 +488,7 @@ static bool tpew_skip_to(TermPosEnumWrapper *self, int doc_num)
 
     if (tpe->skip_to(tpe, doc_num)) {
         self->doc = tpe->doc_num(tpe);
+        self->left = tpe->freq(tpe) - 1;
         self->pos = tpe->next_position(tpe);
         return true;
     }
-- 
2.43.0


From 4cc95f836925386be24e115c73663bbf429af9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 038/181] fix: span multi-term skip_to kept exhausted terms in
 its queue

---
 c/src/q_span.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 76f15c5..64632e8 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -573,8 +573,9 @@ static bool spanmte_skip_to(SpanEnum *self, int target)
         int i;
         tpew_pq = pq_new(mte->tpew_cnt, (lt_ft)tpew_less_than, (free_ft)NULL);
         for (i = mte->tpew_cnt - 1; i >= 0; i--) {
-            tpew_skip_to(tpews[i], target);
-            pq_push(tpew_pq, tpews[i]);
+            if (tpew_skip_to(tpews[i], target)) {
+                pq_push(tpew_pq, tpews[i]);
+            }
         }
         mte->tpew_pq = tpew_pq;
     }
-- 
2.43.0


From 1f2cc3ca5c972eee4ff097b8739c2666b307e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 039/181] fix: span near crashed on clauses that were not
 positioned yet

The test for the first use was inverted, so the other clauses were asked for
their document before being moved to one.
---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 64632e8..26157c0 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1121,7 +1121,7 @@ static bool sne_next_match(SpanEnum *self)
     SpanNearEnum *sne = SpNEn(self);
     SpanEnum *se_curr, *se_next;
 
-    if (!sne->first_time) {
+    if (sne->first_time) {
         if (!sne_init(sne)) {
             return false;
         }
-- 
2.43.0


From b2d41792b1ae5fc21859a30c3bc271abbd67fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 040/181] fix: span not skip_to asked an exhausted exclusion
 for its document

---
 c/src/q_span.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 26157c0..0b62ee9 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1306,7 +1306,8 @@ static bool spanxe_skip_to(SpanEnum *self, int target)
         if (!(sxe->more_inc=sxe->inc->skip_to(sxe->inc, target))) return false;
     }
 
-    if (sxe->more_inc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
+    if (sxe->more_inc && sxe->more_exc
+        && ((doc=inc->doc(inc)) > exc->doc(exc))) {
         sxe->more_exc = exc->skip_to(exc, doc);
     }
 
-- 
2.43.0


From 77f062313773e36310d64cf9641751c968e0ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 041/181] fix: skipping a span scorer lost, repeated or
 mis-scored documents

The spans are one match ahead of the scorer, so skipping them again passed over
a document that is already the right one, and the frequency was only computed
when the document was exactly the target.
---
 c/src/q_span.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 0b62ee9..86ba7e9 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -211,17 +211,13 @@ static float spansc_score(Scorer *self)
     return raw * sim_decode_norm(self->similarity, spansc->norms[self->doc]);
 }
 
-static bool spansc_next(Scorer *self)
+/* match the document the spans are on and move them on to the next one */
+static bool spansc_set_freq(Scorer *self)
 {
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
     int match_length;
 
-    if (spansc->first_time) {
-        spansc->more = se->next(se);
-        spansc->first_time = false;
-    }
-
     if (!spansc->more) {
         return false;
     }
@@ -238,28 +234,34 @@ static bool spansc_next(Scorer *self)
     return (spansc->more || (spansc->freq != 0.0));
 }
 
-static bool spansc_skip_to(Scorer *self, int target)
+static bool spansc_next(Scorer *self)
 {
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
 
-    spansc->more = se->skip_to(se, target);
-    if (!spansc->more) {
-        return false;
+    if (spansc->first_time) {
+        spansc->more = se->next(se);
+        spansc->first_time = false;
     }
 
-    spansc->freq = 0.0;
-    self->doc = se->doc(se);
+    return spansc_set_freq(self);
+}
 
-    while (spansc->more && (se->doc(se) == target)) {
-        spansc->freq += sim_sloppy_freq(spansc->sim, se->end(se) - se->start(se));
-        spansc->more = se->next(se);
-        if (spansc->first_time) {
-            spansc->first_time = false;
-        }
+static bool spansc_skip_to(Scorer *self, int target)
+{
+    SpanScorer *spansc = SpSc(self);
+    SpanEnum *se = spansc->spans;
+
+    if (spansc->first_time) {
+        spansc->more = se->skip_to(se, target);
+        spansc->first_time = false;
+    }
+    else if (spansc->more && se->doc(se) < target) {
+        /* the spans are already on the document after the current one */
+        spansc->more = se->skip_to(se, target);
     }
 
-    return (spansc->more || (spansc->freq != 0.0));
+    return spansc_set_freq(self);
 }
 
 static Explanation *spansc_explain(Scorer *self, int target)
-- 
2.43.0


From 19ad0bf08a719204a8d5b295db4e23115b28c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:41 +0000
Subject: [PATCH 042/181] fix: span queries crashed on fields without norms

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 86ba7e9..17445c9 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -299,7 +299,7 @@ static Scorer *spansc_new(Weight *weight, IndexReader *ir)
         SpSc(self)->more        = true;
         SpSc(self)->spans       = SpQ(spanq)->get_spans(spanq, ir);
         SpSc(self)->sim         = weight->similarity;
-        SpSc(self)->norms       = ir->get_norms(ir, field_num);
+        SpSc(self)->norms       = ir_get_norms_i(ir, field_num);
         SpSc(self)->weight      = weight;
         SpSc(self)->value       = weight->value;
         SpSc(self)->freq        = 0.0;
-- 
2.43.0


From ea6a0ce445c67ee8bb6168429904d8f926de36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:38 +0000
Subject: [PATCH 043/181] fix: searching replaced the clauses of span queries
 by their expansion

A span query holding a prefix kept the terms of the first index it was used on,
so using it again after the index changed missed matches.
---
 c/src/q_span.c | 88 +++++++++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 17445c9..b525a2f 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1749,15 +1749,18 @@ static HashSet *spanfq_get_terms(Query *self)
 
 static Query *spanfq_rewrite(Query *self, IndexReader *ir)
 {
-    Query *q, *rq;
+    Query *q = SpFQ(self)->match;
+    Query *rq = q->rewrite(q, ir);
+    Query *rewritten;
 
-    q = SpFQ(self)->match;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    SpFQ(self)->match = rq;
-
-    self->ref_cnt++;
-    return self;                    /* no clauses rewrote */
+    if (rq == q) {                  /* match didn't rewrite */
+        q_deref(rq);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten = spanfq_new_nr(rq, SpFQ(self)->end);
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanfq_destroy_i(Query *self)
@@ -1881,18 +1884,24 @@ static SpanEnum *spanoq_get_spans(Query *self, IndexReader *ir)
 static Query *spanoq_rewrite(Query *self, IndexReader *ir)
 {
     SpanOrQuery *soq = SpOQ(self);
+    Query *rewritten = spanoq_new();
+    bool changed = false;
     int i;
 
-    /* replace clauses with their rewritten queries */
+    /* collect the clauses' rewritten queries */
     for (i = 0; i < soq->c_cnt; i++) {
         Query *clause = soq->clauses[i];
-        Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        soq->clauses[i] = rewritten;
+        Query *rq = clause->rewrite(clause, ir);
+        if (rq != clause) changed = true;
+        spanoq_add_clause_nr(rewritten, rq);
     }
-
-    self->ref_cnt++;
-    return self;
+    if (!changed) {
+        q_deref(rewritten);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanoq_destroy_i(Query *self)
@@ -2066,16 +2075,24 @@ static SpanEnum *spannq_get_spans(Query *self, IndexReader *ir)
 static Query *spannq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNearQuery *snq = SpNQ(self);
+    Query *rewritten = spannq_new(snq->slop, snq->in_order);
+    bool changed = false;
     int i;
+
+    /* collect the clauses' rewritten queries */
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
-        Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        snq->clauses[i] = rewritten;
+        Query *rq = clause->rewrite(clause, ir);
+        if (rq != clause) changed = true;
+        spannq_add_clause_nr(rewritten, rq);
     }
-
-    self->ref_cnt++;
-    return self;
+    if (!changed) {
+        q_deref(rewritten);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spannq_destroy(Query *self)
@@ -2215,22 +2232,19 @@ static HashSet *spanxq_get_terms(Query *self)
 static Query *spanxq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNotQuery *sxq = SpXQ(self);
-    Query *q, *rq;
-
-    /* rewrite inclusive query */
-    q = sxq->inc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->inc = rq;
-
-    /* rewrite exclusive query */
-    q = sxq->exc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->exc = rq;
-
-    self->ref_cnt++;
-    return self;
+    Query *inc = sxq->inc->rewrite(sxq->inc, ir);
+    Query *exc = sxq->exc->rewrite(sxq->exc, ir);
+    Query *rewritten;
+
+    if (inc == sxq->inc && exc == sxq->exc) {   /* no clauses rewrote */
+        q_deref(inc);
+        q_deref(exc);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten = spanxq_new_nr(inc, exc);
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanxq_destroy(Query *self)
-- 
2.43.0


From 6dfb2c7a11dc4c4bf94eebea1c666492157de3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:38 +0000
Subject: [PATCH 044/181] fix: comparing span queries with clauses of different
 types read foreign fields

The clauses' own eq functions assume that both queries have the same type; q_eq
checks it.
---
 c/src/q_span.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index b525a2f..6276c73 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1779,7 +1779,7 @@ static int spanfq_eq(Query *self, Query *o)
 {
     SpanFirstQuery *sfq1 = SpFQ(self);
     SpanFirstQuery *sfq2 = SpFQ(o);
-    return spanq_eq(self, o) && sfq1->match->eq(sfq1->match, sfq2->match)
+    return spanq_eq(self, o) && q_eq(sfq1->match, sfq2->match)
         && (sfq1->end == sfq2->end);
 }
 
@@ -1944,7 +1944,7 @@ static int spanoq_eq(Query *self, Query *o)
     for (i = 0; i < soq1->c_cnt; i++) {
         q1 = soq1->clauses[i];
         q2 = soq2->clauses[i];
-        if (!q1->eq(q1, q2)) {
+        if (!q_eq(q1, q2)) {
             return false;
         }
     }
@@ -2138,7 +2138,7 @@ static int spannq_eq(Query *self, Query *o)
     for (i = 0; i < snq1->c_cnt; i++) {
         q1 = snq1->clauses[i];
         q2 = snq2->clauses[i];
-        if (!q1->eq(q1, q2)) {
+        if (!q_eq(q1, q2)) {
             return false;
         }
     }
@@ -2268,8 +2268,8 @@ static int spanxq_eq(Query *self, Query *o)
 {
     SpanNotQuery *sxq1 = SpXQ(self);
     SpanNotQuery *sxq2 = SpXQ(o);
-    return spanq_eq(self, o) && sxq1->inc->eq(sxq1->inc, sxq2->inc)
-        && sxq1->exc->eq(sxq1->exc, sxq2->exc);
+    return spanq_eq(self, o) && q_eq(sxq1->inc, sxq2->inc)
+        && q_eq(sxq1->exc, sxq2->exc);
 }
 
 
-- 
2.43.0


From a7c107d340baa27d1aec7ba5cc68c2984835191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:38 +0000
Subject: [PATCH 045/181] fix: span not accepted clauses on different fields

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 6276c73..1ceb4b8 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -2276,7 +2276,7 @@ static int spanxq_eq(Query *self, Query *o)
 Query *spanxq_new_nr(Query *inc, Query *exc)
 {
     Query *self;
-    if (SpQ(inc)->field != SpQ(inc)->field) {
+    if (SpQ(inc)->field != SpQ(exc)->field) {
         RAISE(ARG_ERROR, "All clauses in a SpanQuery must have the same field. "
               "Attempted to add a SpanQuery with field \"%s\" along with a "
               "SpanQuery with field \"%s\" to an SpanNotQuery",
-- 
2.43.0


From 97ab48bbc3dd5831695762eed00f290b4dcf681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 046/181] fix: printing explanations and top docs used a buffer
 after it moved

---
 c/src/search.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..3e75c6e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -65,7 +65,7 @@ char *expl_to_html(Explanation *expl)
     buffer = strfmt("<ul>\n<li>%f = %s</li>\n", expl->value, expl->description);
 
     for (i = 0; i < num_details; i++) {
-        estrcat(buffer, expl_to_html(expl->details[i]));
+        buffer = estrcat(buffer, expl_to_html(expl->details[i]));
     }
 
     REALLOC_N(buffer, char, strlen(buffer) + 10);
@@ -214,7 +214,7 @@ char *td_to_s(TopDocs *td)
                           td->total_hits);
     for (i = 0; i < td->size; i++) {
         hit = td->hits[i];
-        estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
+        buffer = estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
     }
     return buffer;
 }
-- 
2.43.0


From ef66630f4ed052fef71691a427531b11f1f9668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 047/181] fix: match-all explained deleted documents as matches

---
 c/src/q_match_all.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_match_all.c b/c/src/q_match_all.c
index 2c865aa..f2df880 100644
--- a/c/src/q_match_all.c
+++ b/c/src/q_match_all.c
@@ -84,7 +84,7 @@ static Explanation *maw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_add_detail(expl, expl_new(self->query->boost, "boost"));
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     } else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "MatchAllQuery: doc %d was deleted", doc_num);
     }
 
-- 
2.43.0


From 8367cc63da32170bf6483ecde4e49928cd7d0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 048/181] fix: explaining a span query without terms leaked a
 string

---
 c/src/q_span.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 1ceb4b8..530a18d 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1447,9 +1447,7 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
      * and the field explanation */
     idf_expl1 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
     idf_expl2 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
-    if (terms->size > 0) {
-        free(doc_freqs); /* only free if allocated */
-    }
+    free(doc_freqs);
 
     /* explain query weight */
     query_expl = expl_new(0.0, "query_weight(%s), product of:", query_str);
-- 
2.43.0


From 21c464b41b412bf6a2d63a6b1eb08f495158a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 049/181] fix: queries of zero weight were scored and explained
 as NaN

---
 c/src/search.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/src/search.c b/c/src/search.c
index 3e75c6e..72aec59 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -361,6 +361,11 @@ Weight *q_weight(Query *self, Searcher *searcher)
     float       norm    = sim_query_norm(sim, sum);
     q_deref(query);
 
+    /* a query of zero weight (no terms, boost 0) has nothing to normalize */
+    if (0.0 == sum) {
+        norm = 1.0;
+    }
+
     weight->normalize(weight, norm);
     return self->weight = weight;
 }
-- 
2.43.0


From 8959c734471e354309bdc23a41a341cfa4a63a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:46 +0000
Subject: [PATCH 050/181] fix: sorting by an unknown field crashed or locked
 every later sort out

---
 c/src/sort.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/src/sort.c b/c/src/sort.c
index 82c7588..9aab0a2 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -426,9 +426,16 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
 
     if (sf->type > SORT_TYPE_DOC) {
         FieldIndex *field_index = NULL;
+        /* raise before taking the mutex, it would stay locked for good */
+        if (fis_get_field_num(ir->fis, sf->field) < 0) {
+            RAISE(ARG_ERROR,
+                  "Cannot sort by field \"%s\". It doesn't exist in the index.",
+                  S(sf->field));
+        }
         if (sf->type == SORT_TYPE_AUTO) {
             TermEnum *te = ir_terms(ir, sf->field);
             if (!te->next(te) && (ir->num_docs(ir) > 0)) {
+                te->close(te);
                 RAISE(ARG_ERROR,
                       "Cannot sort by field \"%s\" as there are no terms "
                       "in that field in the index.", S(sf->field));
-- 
2.43.0


From 9344007db1af735f15a442979f91965aa750f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:46 +0000
Subject: [PATCH 051/181] fix: sorting took an uninitialized number for terms
 that are not numbers

---
 c/src/field_index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/field_index.c b/c/src/field_index.c
index c99357f..50afed9 100644
--- a/c/src/field_index.c
+++ b/c/src/field_index.c
@@ -141,7 +141,7 @@ static void integer_handle_term(void *index_ptr,
                                 const char *text)
 {
     long *index = (long *)index_ptr;
-    long val;
+    long val = 0;
     sscanf(text, "%ld", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
@@ -178,7 +178,7 @@ static void float_handle_term(void *index_ptr,
                               const char *text)
 {
     float *index = (float *)index_ptr;
-    float val;
+    float val = 0.0f;
     sscanf(text, "%g", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
-- 
2.43.0


From 9174f134b34e14a9f71832754ad4f4562c78422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:52 +0000
Subject: [PATCH 052/181] fix: a search whose sort failed leaked its scorer and
 queue

---
 c/src/search.c |  6 +++++-
 c/src/sort.c   | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 72aec59..be2cc85 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1063,7 +1063,11 @@ static TopDocs *isea_search_w(Searcher *self,
     }
 
     if (sort) {
-        hq = fshq_pq_new(max_size, sort, ISEA(self)->ir);
+        TRY
+            hq = fshq_pq_new(max_size, sort, ISEA(self)->ir);
+        XCATCHALL
+            scorer->destroy(scorer);
+        XENDTRY
         hq_insert = &fshq_pq_insert;
         hq_destroy = &fshq_pq_destroy;
         if (load_fields) {
diff --git a/c/src/sort.c b/c/src/sort.c
index 9aab0a2..06a18bc 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -594,11 +594,15 @@ PriorityQueue *fshq_pq_new(int size, Sort *sort, IndexReader *ir)
     Sorter *sorter = sorter_new(sort);
     SortField *sf;
 
-    for (i = 0; i < sort->size; i++) {
-        sf = sort->sort_fields[i];
-        sorter->comparators[i] = sorter_get_comparator(sf, ir);
-    }
     self->heap[0] = sorter;
+    TRY
+        for (i = 0; i < sort->size; i++) {
+            sf = sort->sort_fields[i];
+            sorter->comparators[i] = sorter_get_comparator(sf, ir);
+        }
+    XCATCHALL
+        fshq_pq_destroy(self);
+    XENDTRY
 
     return self;
 }
-- 
2.43.0


From f88296863a6302924986c3e6de28213da5d7598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:04 +0000
Subject: [PATCH 053/181] fix: highlighting span queries crashed on terms the
 field does not hold

---
 c/src/q_span.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 530a18d..480acff 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -90,6 +90,9 @@ static void tv_tde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         tv_tde->doc = INT_MAX;
+        tv_tde->index = 0;
+        tv_tde->freq = 0;
+        tv_tde->positions = NULL;
     }
 }
 
@@ -107,7 +110,7 @@ static bool tv_tde_next(TermDocEnum *tde)
 
 static bool tv_tde_skip_to(TermDocEnum *tde, int doc_num)
 {
-    if (doc_num == 0) {
+    if (TV_TDE(tde)->doc == -1 && doc_num <= 0) {
         TV_TDE(tde)->doc = 0;
         return true;
     }
-- 
2.43.0


From aa5ae2e05f4083976c4c310133f42263eada9456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:04 +0000
Subject: [PATCH 054/181] fix: compacting an empty match vector made up a match

---
 c/src/search.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/search.c b/c/src/search.c
index be2cc85..143c8ff 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -559,6 +559,7 @@ MatchVector *matchv_sort(MatchVector *self)
 MatchVector *matchv_compact(MatchVector *self)
 {
     int left, right;
+    if (self->size == 0) return self;
     matchv_sort(self);
     for (right = left = 0; right < self->size; right++) {
         /* Note the end + 1. This compacts a range 3:5 and 6:8 inleft 3:8 */
@@ -582,6 +583,7 @@ MatchVector *matchv_compact(MatchVector *self)
 MatchVector *matchv_compact_with_breaks(MatchVector *self)
 {
     int left, right;
+    if (self->size == 0) return self;
     matchv_sort(self);
     for (right = left = 0; right < self->size; right++) {
         /* Note: no end + 1. Unlike above won't compact ranges 3:5 and 6:8 */
-- 
2.43.0


From ba5eb0277a49a9d17bea1a33e88c4d0833934da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 055/181] fix: highlighting read before the matches when one is
 longer than the excerpt

---
 c/src/search.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 143c8ff..67eef7a 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -882,6 +882,7 @@ char **searcher_highlight(Searcher *self,
             /* add all possible excerpts to the priority queue */
             
             for (e_start = e_end = 0; e_start < mv->size; e_start++) {
+                bool too_long;
                 const int start_offset = matches[e_start].start_offset;
                 if (e_start > e_end) {
                     running_score = 0.0;
@@ -892,10 +893,17 @@ char **searcher_highlight(Searcher *self,
                     running_score += matches[e_end].score;
                     e_end++;
                 }
+                too_long = e_end == e_start;
+                if (too_long) {
+                    /* shown in full but only if nothing else fits */
+                    e_end++;
+                }
                 pq_push(excerpt_pq,
                         excerpt_new(e_start, e_end - 1, running_score));
                 /* - 0.1 so that earlier matches take priority */
-                running_score -= matches[e_start].score;
+                if (!too_long) {
+                    running_score -= matches[e_start].score;
+                }
             }
 
             for (i = 0; i < num_excerpts && excerpt_pq->size > 0; i++) {
-- 
2.43.0


From bac6b68e840aad38f657da419e0cfb0d9c577919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 056/181] fix: highlighting compressed fields overflowed a
 buffer sized by the compressed length

---
 c/include/index.h    | 1 +
 c/include/internal.h | 1 +
 c/src/index.c        | 8 +++++++-
 c/src/search.c       | 1 +
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/include/index.h b/c/include/index.h
index 2a6dadb..8600c69 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -596,6 +596,7 @@ typedef struct FrtLazyDocField
 } FrtLazyDocField;
 
 extern char *frt_lazy_df_get_data(FrtLazyDocField *self, int i);
+extern void frt_lazy_df_unzip(FrtLazyDocField *self);
 extern void frt_lazy_df_get_bytes(FrtLazyDocField *self, char *buf,
                               int start, int len);
 
diff --git a/c/include/internal.h b/c/include/internal.h
index c3db266..52936d9 100644
--- a/c/include/internal.h
+++ b/c/include/internal.h
@@ -671,6 +671,7 @@
 #define iw_optimize                                    frt_iw_optimize
 #define lazy_df_get_bytes                              frt_lazy_df_get_bytes
 #define lazy_df_get_data                               frt_lazy_df_get_data
+#define lazy_df_unzip                                  frt_lazy_df_unzip
 #define lazy_doc_close                                 frt_lazy_doc_close
 #define lazy_doc_get                                   frt_lazy_doc_get
 #define legacy_standard_analyzer_new                   frt_legacy_standard_analyzer_new
diff --git a/c/src/index.c b/c/src/index.c
index 978e70f..c7125aa 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1411,7 +1411,8 @@ char *lazy_df_get_data(LazyDocField *self, int i)
     return text;
 }
 
-void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
+/* the length of a compressed field is only known once it is decompressed */
+void lazy_df_unzip(LazyDocField *self)
 {
     if (self->is_compressed == 1) {
         int i;
@@ -1423,6 +1424,11 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         self->len--; /* each field separated by ' ' but no need to add to end */
         self->is_compressed = 2;
     }
+}
+
+void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
+{
+    lazy_df_unzip(self);
     if (start < 0 || start >= self->len) {
         RAISE(IO_ERROR, "start out of range in LazyDocField#get_bytes. %d "
               "is not between 0 and %d", start, self->len);
diff --git a/c/src/search.c b/c/src/search.c
index 67eef7a..0db0946 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -860,6 +860,7 @@ char **searcher_highlight(Searcher *self,
     if (tv && lazy_df && tv->term_cnt > 0 && tv->terms[0].positions != NULL
         && tv->offsets != NULL) {
         MatchVector *mv;
+        lazy_df_unzip(lazy_df); /* sets the real length of the field */
         query = self->rewrite(self, query);
         mv = query->get_matchv_i(query, matchv_new(), tv);
         q_deref(query);
-- 
2.43.0


From f08f68ce4ed56657942f2f79452c6f9107de7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:14 +0000
Subject: [PATCH 057/181] fix: excerpts left matches unmarked that they had
 grown over

---
 c/src/search.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 0db0946..9c2f132 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -744,15 +744,31 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
 {
     int i, len;
     int last_offset = e->start_offset;
-    const int num_matches = e->end - e->start + 1;
+    int num_matches;
     const int pre_tag_len = (int)strlen(pre_tag);
     const int post_tag_len = (int)strlen(post_tag);
     const int ellipsis_len = (int)strlen(ellipsis);
-    char *excerpt_str = ALLOC_N(char,
-                                10 + e->end_offset - e->start_offset
-                                + (num_matches * (pre_tag_len + post_tag_len))
-                                + (2 * ellipsis_len));
-    char *e_ptr = excerpt_str;
+    char *excerpt_str;
+    char *e_ptr;
+    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
+        /* no point using ellipsis if it takes up more space */
+        e->end_offset = lazy_df->len;
+    }
+    /* the excerpt may have grown over more matches */
+    while (e->start > 0
+           && mv->matches[e->start - 1].start_offset >= e->start_offset) {
+        e->start--;
+    }
+    while (e->end < mv->size - 1
+           && mv->matches[e->end + 1].end_offset <= e->end_offset) {
+        e->end++;
+    }
+    num_matches = e->end - e->start + 1;
+    excerpt_str = ALLOC_N(char,
+                          10 + e->end_offset - e->start_offset
+                          + (num_matches * (pre_tag_len + post_tag_len))
+                          + (2 * ellipsis_len));
+    e_ptr = excerpt_str;
     if (e->start_offset > 0) {
         memcpy(e_ptr, ellipsis, ellipsis_len);
         e_ptr += ellipsis_len;
@@ -775,10 +791,6 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
         e_ptr += post_tag_len;
         last_offset = mr->end_offset;
     }
-    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
-        /* no point using ellipsis if it takes up more space */
-        e->end_offset = lazy_df->len;
-    }
     len = e->end_offset - last_offset;
     if (len) {
         lazy_df_get_bytes(lazy_df, e_ptr, last_offset, len);
-- 
2.43.0


From 6fbca90eff899b1d841eb79e1a4d524bdda708ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:28 +0000
Subject: [PATCH 058/181] fix: explaining a phrase without terms wrote before a
 buffer

---
 c/src/q_phrase.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 91acb59..8fe70bc 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -623,6 +623,10 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
         return expl_new(0.0, "field \"%s\" does not exist in the index", field);
     }
 
+    if (pos_cnt < 1) {
+        return expl_new(0.0, "phrase on field \"%s\" has no terms", field);
+    }
+
     query_str = self->query->to_s(self->query, NULL);
 
     expl = expl_new(0.0, "weight(%s in %d), product of:", query_str, doc_num);
-- 
2.43.0


From fa397e0da5e9f98b435ceaaf0b47cf0f0653f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:28 +0000
Subject: [PATCH 059/181] fix: highlighting a phrase without terms crashed

---
 c/src/q_phrase.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 8fe70bc..dad7858 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -853,7 +853,11 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
         int slop = PhQ(self)->slop;
         bool done = false;
 
-        if (slop > 0) {
+        if (pos_cnt < 1) {
+            return mv;
+        }
+        /* a single position has no distance to another */
+        if (slop > 0 && pos_cnt > 1) {
             PriorityQueue *tvpe_pq = pq_new(pos_cnt, (lt_ft)tvpe_lt, &free);
             int last_pos = 0;
             for (i = 0; i < pos_cnt; i++) {
-- 
2.43.0


From d0b85d5b82af14ba156374d9f0ee3b422cee02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:06 +0000
Subject: [PATCH 060/181] fix: the query parser used a long word after freeing
 it

---
 c/include/search.h |  2 +-
 c/src/q_parser.c   | 27 +++++++++++++++++----------
 c/src/q_parser.y   | 27 +++++++++++++++++----------
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/c/include/search.h b/c/include/search.h
index 24025a1..9c8db5f 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -911,7 +911,7 @@ typedef struct FrtQueryParser
     char *qstr;
     char *qstrp;
     char buf[FRT_QP_CONC_WORDS][FRT_MAX_WORD_SIZE];
-    char *dynbuf;
+    char *dynbuf[FRT_QP_CONC_WORDS];
     int  buf_index;
     FrtHash *field_cache;
     FrtHashSet *def_fields;
diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 3178852..117311f 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2043,11 +2043,12 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     char c;
     char *buf = qp->buf[qp->buf_index];
     char *bufp = buf;
+    char **dynbuf = &qp->dynbuf[qp->buf_index];
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (*dynbuf) {
+        free(*dynbuf);
+        *dynbuf = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -2082,12 +2083,14 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
         /* we've exceeded the static buffer. switch to the dynamic one. The
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
-         * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+         * allocated. A pass adds up to two characters and the word needs a
+         * terminator. */
+        if (!*dynbuf && ((bufp - buf) > MAX_WORD_SIZE - 3)) {
+            const int buf_len = (int)(bufp - buf);
+            *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(*dynbuf, buf, buf_len);
+            buf = *dynbuf;
+            bufp = buf + buf_len;
         }
     }
 get_word_done:
@@ -2861,6 +2864,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -2875,6 +2879,9 @@ void qp_destroy(QParser *self)
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     free(self);
 }
 
@@ -2908,7 +2915,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5e9a9c7..b2af7fd 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -306,11 +306,12 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     char c;
     char *buf = qp->buf[qp->buf_index];
     char *bufp = buf;
+    char **dynbuf = &qp->dynbuf[qp->buf_index];
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (*dynbuf) {
+        free(*dynbuf);
+        *dynbuf = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -345,12 +346,14 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
         /* we've exceeded the static buffer. switch to the dynamic one. The
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
-         * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+         * allocated. A pass adds up to two characters and the word needs a
+         * terminator. */
+        if (!*dynbuf && ((bufp - buf) > MAX_WORD_SIZE - 3)) {
+            const int buf_len = (int)(bufp - buf);
+            *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(*dynbuf, buf, buf_len);
+            buf = *dynbuf;
+            bufp = buf + buf_len;
         }
     }
 get_word_done:
@@ -1124,6 +1127,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -1138,6 +1142,9 @@ void qp_destroy(QParser *self)
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     free(self);
 }
 
@@ -1171,7 +1178,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
-- 
2.43.0


From 095fc21a24f471659bf26bb2182a460e05becd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:13 +0000
Subject: [PATCH 061/181] fix: cleaning a query string lost the escapes inside
 phrases

---
 c/src/q_parser.c | 9 +++------
 c/src/q_parser.y | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 117311f..95e7ebd 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2935,9 +2935,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -2975,12 +2972,12 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
-            /* \ has escaped itself so has no power. Assign pb random char 'r' */
-            pb = ((b == '\\') ? 'r' : b);
+            /* an escaped character has no power. Assign pb random char 'r' */
+            pb = 'r';
             continue;
         }
         switch (b) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index b2af7fd..20ccb49 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1198,9 +1198,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -1238,12 +1235,12 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
-            /* \ has escaped itself so has no power. Assign pb random char 'r' */
-            pb = ((b == '\\') ? 'r' : b);
+            /* an escaped character has no power. Assign pb random char 'r' */
+            pb = 'r';
             continue;
         }
         switch (b) {
-- 
2.43.0


From 75061f6b15d7f09d7a12c3ae32dec7004ccca0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:13 +0000
Subject: [PATCH 062/181] fix: lowercasing patterns and bounds changed them for
 other fields and overran their buffer

---
 c/src/q_parser.c | 49 ++++++++++++++++++++++++++++++++----------------
 c/src/q_parser.y | 49 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 95e7ebd..fe5822c 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2451,31 +2451,37 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 
 /**
  * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * character sets. Returns a newly allocated string as other fields may need
+ * the string as it is and lowercase characters can be longer.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
     int cnt;
+    char *lower = NULL;
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
     if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
+        const size_t size = (size_t)cnt * MB_CUR_MAX + 1;
         wchar_t *w = wstr;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        lower = ALLOC_N(char, size);
+        if (wcstombs(lower, wstr, size) == (size_t)-1) {
+            free(lower);
+            lower = NULL;
+        }
     }
-    else {
-        char *s = str;
+    if (!lower) {
+        char *s = lower = estrdup(str);
         while (*s) {
             *s = tolower(*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len] = '\0';
-    return str;
+    return lower;
 }
 
 /**
@@ -2492,18 +2498,21 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
     Query *q;
     bool is_prefix = false;
     char *p;
-    int len = (int)strlen(pattern);
+    char *lower = NULL;
+    int len;
 
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
+        pattern = lower = lower_str(pattern);
     }
-    
+    len = (int)strlen(pattern);
+
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(lower);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -2524,6 +2533,7 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
     else {
         q = wcq_new(field, pattern);
     }
+    free(lower);
     MTQMaxTerms(q) = qp->max_clauses;
     return q;
 }
@@ -2788,14 +2798,16 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
 static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
+    Query *volatile rq = NULL;
+    char *volatile lower_from = NULL;
+    char *volatile lower_to = NULL;
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
         if (from) {
-            lower_str(from);
+            from = lower_from = lower_str(from);
         }
         if (to) {
-            lower_str(to);
+            to = lower_to = lower_str(to);
         }
     }
 /*
@@ -2814,9 +2826,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(lower_from);
+        free(lower_to);
+    XENDTRY
     return rq;
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 20ccb49..bc34fdf 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -714,31 +714,37 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 
 /**
  * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * character sets. Returns a newly allocated string as other fields may need
+ * the string as it is and lowercase characters can be longer.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
     int cnt;
+    char *lower = NULL;
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
     if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
+        const size_t size = (size_t)cnt * MB_CUR_MAX + 1;
         wchar_t *w = wstr;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        lower = ALLOC_N(char, size);
+        if (wcstombs(lower, wstr, size) == (size_t)-1) {
+            free(lower);
+            lower = NULL;
+        }
     }
-    else {
-        char *s = str;
+    if (!lower) {
+        char *s = lower = estrdup(str);
         while (*s) {
             *s = tolower(*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len] = '\0';
-    return str;
+    return lower;
 }
 
 /**
@@ -755,18 +761,21 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
     Query *q;
     bool is_prefix = false;
     char *p;
-    int len = (int)strlen(pattern);
+    char *lower = NULL;
+    int len;
 
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
+        pattern = lower = lower_str(pattern);
     }
-    
+    len = (int)strlen(pattern);
+
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(lower);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -787,6 +796,7 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
     else {
         q = wcq_new(field, pattern);
     }
+    free(lower);
     MTQMaxTerms(q) = qp->max_clauses;
     return q;
 }
@@ -1051,14 +1061,16 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
 static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
+    Query *volatile rq = NULL;
+    char *volatile lower_from = NULL;
+    char *volatile lower_to = NULL;
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
         if (from) {
-            lower_str(from);
+            from = lower_from = lower_str(from);
         }
         if (to) {
-            lower_str(to);
+            to = lower_to = lower_str(to);
         }
     }
 /*
@@ -1077,9 +1089,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(lower_from);
+        free(lower_to);
+    XENDTRY
     return rq;
 }
 
-- 
2.43.0


From 96acec3bfca9fd7a91b4fff968adc4e4f8d7e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 063/181] fix: analysing the alternatives of a phrase for one
 field changed them for the next

---
 c/src/q_parser.c | 26 +++++++++++---------------
 c/src/q_parser.y | 26 +++++++++++---------------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index fe5822c..3292fc5 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2685,18 +2685,13 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
             int i;
             int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            /* the words are needed as they are for the other fields */
+            char **terms = ALLOC_N(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
-                if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                if (token) { /* words without tokens are ignored */
+                    terms[term_cnt++] = estrdup(token->text);
                 }
             }
 
@@ -2705,18 +2700,19 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
                     q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
-                        /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
-                        }
+                    for (i = 0; i < term_cnt; i++) {
+                        multi_tq_add_term(q, terms[i]);
                     }
                     break;
             }
+            for (i = 0; i < term_cnt; i++) {
+                free(terms[i]);
+            }
+            free(terms);
         }
     }
     else if (pos_cnt > 1) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index bc34fdf..81fd9ec 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -948,18 +948,13 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
             int i;
             int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            /* the words are needed as they are for the other fields */
+            char **terms = ALLOC_N(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
-                if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                if (token) { /* words without tokens are ignored */
+                    terms[term_cnt++] = estrdup(token->text);
                 }
             }
 
@@ -968,18 +963,19 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
                     q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
-                        /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
-                        }
+                    for (i = 0; i < term_cnt; i++) {
+                        multi_tq_add_term(q, terms[i]);
                     }
                     break;
             }
+            for (i = 0; i < term_cnt; i++) {
+                free(terms[i]);
+            }
+            free(terms);
         }
     }
     else if (pos_cnt > 1) {
-- 
2.43.0


From b827f84bb924cf09b41a40dba310849ddc3ff57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:02 +0000
Subject: [PATCH 064/181] fix: a query part that could not be built was
 dereferenced as a query

---
 c/src/q_parser.c | 18 ++++++++++--------
 c/src/q_parser.y | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 3292fc5..f5ad638 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -215,35 +215,37 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    Query *volatile fq = NULL; /* still NULL if func raises */\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
-            q = NULL;\
+            fq = NULL;\
         } else if (qp->fields->size == 1) {\
             field = (Symbol)qp->fields->first->elem;\
-            q = func;\
+            fq = func;\
         } else {\
             Query *volatile sq; HashSetEntry *volatile hse;\
-            q = bq_new_max(false, qp->max_clauses);\
+            fq = bq_new_max(false, qp->max_clauses);\
             for (hse = qp->fields->first; hse; hse = hse->next) {\
                 field = (Symbol)hse->elem;\
                 sq = func;\
                 TRY\
-                  if (sq) bq_add_query_nr(q, sq, BC_SHOULD);\
+                  if (sq) bq_add_query_nr(fq, sq, BC_SHOULD);\
                 XCATCHALL\
                   if (sq) q_deref(sq);\
                 XENDTRY\
             }\
-            if (((BooleanQuery *)q)->clause_cnt == 0) {\
-                q_deref(q);\
-                q = NULL;\
+            if (((BooleanQuery *)fq)->clause_cnt == 0) {\
+                q_deref(fq);\
+                fq = NULL;\
             }\
         }\
     } XCATCHALL\
         qp->destruct = true;\
         HANDLED();\
     XENDTRY\
-    if (qp->destruct && !qp->recovering && q) {q_deref(q); q = NULL;}\
+    if (qp->destruct && !qp->recovering && fq) {q_deref(fq); fq = NULL;}\
+    q = fq;\
 } while (0)
 
 #define Y if (qp->destruct) goto yyerrorlab;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 81fd9ec..d40801c 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -163,35 +163,37 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    Query *volatile fq = NULL; /* still NULL if func raises */\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
-            q = NULL;\
+            fq = NULL;\
         } else if (qp->fields->size == 1) {\
             field = (Symbol)qp->fields->first->elem;\
-            q = func;\
+            fq = func;\
         } else {\
             Query *volatile sq; HashSetEntry *volatile hse;\
-            q = bq_new_max(false, qp->max_clauses);\
+            fq = bq_new_max(false, qp->max_clauses);\
             for (hse = qp->fields->first; hse; hse = hse->next) {\
                 field = (Symbol)hse->elem;\
                 sq = func;\
                 TRY\
-                  if (sq) bq_add_query_nr(q, sq, BC_SHOULD);\
+                  if (sq) bq_add_query_nr(fq, sq, BC_SHOULD);\
                 XCATCHALL\
                   if (sq) q_deref(sq);\
                 XENDTRY\
             }\
-            if (((BooleanQuery *)q)->clause_cnt == 0) {\
-                q_deref(q);\
-                q = NULL;\
+            if (((BooleanQuery *)fq)->clause_cnt == 0) {\
+                q_deref(fq);\
+                fq = NULL;\
             }\
         }\
     } XCATCHALL\
         qp->destruct = true;\
         HANDLED();\
     XENDTRY\
-    if (qp->destruct && !qp->recovering && q) {q_deref(q); q = NULL;}\
+    if (qp->destruct && !qp->recovering && fq) {q_deref(fq); fq = NULL;}\
+    q = fq;\
 } while (0)
 
 #define Y if (qp->destruct) goto yyerrorlab;
-- 
2.43.0


From 7e290e66c239ec769f839d4cd5056585517241af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:02 +0000
Subject: [PATCH 065/181] fix: a query part that could not be built left the
 parser locked and on the wrong fields

---
 c/src/q_parser.c | 15 ++++++++-------
 c/src/q_parser.y | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index f5ad638..a3d2ffb 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2195,17 +2195,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -3102,11 +3095,19 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    /* a failed parse leaves the fields it was working on */
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index d40801c..ecc0a29 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -458,17 +458,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -1365,11 +1358,19 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    /* a failed parse leaves the fields it was working on */
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
-- 
2.43.0


From cfbf94adb1d2326abdc886ce2cf1ee625265194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:37 +0000
Subject: [PATCH 066/181] fix: infinite and NaN boosts were printed without
 writing the buffer

---
 c/src/global.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/global.c b/c/src/global.c
index 9a880f4..01cf753 100644
--- a/c/src/global.c
+++ b/c/src/global.c
@@ -141,10 +141,10 @@ char *dbl_to_s(char *buf, double num)
 
 #ifdef FRT_IS_C99
     if (isinf(num)) {
-        return estrdup(num < 0 ? "-Infinity" : "Infinity");
+        return strcpy(buf, num < 0 ? "-Infinity" : "Infinity");
     }
     else if (isnan(num)) {
-        return estrdup("NaN");
+        return strcpy(buf, "NaN");
     }
 #endif
 
-- 
2.43.0


From e2d700a35f0c16aeb923ad8d1bd2f7f1e1570b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:37 +0000
Subject: [PATCH 067/181] fix: a phrase starting with an empty position and an
 alternative wrote before its positions

---
 c/src/q_parser.c | 3 +++
 c/src/q_parser.y | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index a3d2ffb..69a4421 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2630,6 +2630,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) { /* only empty positions so far */
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index ecc0a29..0661f0e 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -893,6 +893,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) { /* only empty positions so far */
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
-- 
2.43.0


From badbc39a01e0bc1ff042347612735451df86803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:37 +0000
Subject: [PATCH 068/181] fix: the hyphen filter continued with the rest of the
 previous text after a reset

---
 c/src/analysis.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index ce8ec20..95e46e8 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1268,6 +1268,13 @@ static TokenStream *hf_clone_i(TokenStream *orig_ts)
     return new_ts;
 }
 
+static TokenStream *hf_reset(TokenStream *ts, char *text)
+{
+    /* drop what is left of the last token of the previous text */
+    HyphenFilt(ts)->pos = HyphenFilt(ts)->len = 0;
+    return filter_reset(ts, text);
+}
+
 static Token *hf_next(TokenStream *ts)
 {
     HyphenFilter *hf = HyphenFilt(ts);
@@ -1332,6 +1339,7 @@ TokenStream *hyphen_filter_new(TokenStream *sub_ts)
     TokenStream *ts = tf_new(HyphenFilter, sub_ts);
     ts->next        = &hf_next;
     ts->clone_i     = &hf_clone_i;
+    ts->reset       = &hf_reset;
     return ts;
 }
 
-- 
2.43.0


From 910aa568f7229059d520c10b70d427fc8999a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:22 +0000
Subject: [PATCH 069/181] fix: a phrase with a slop that is no number used an
 uninitialized slop

---
 c/src/q_parser.c | 2 +-
 c/src/q_parser.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 69a4421..bfd96a7 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2720,7 +2720,7 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         int pos_inc = 0;
         q = phq_new(field);
         if (slop_str) {
-            int slop;
+            int slop = 0;
             sscanf(slop_str,"%d",&slop);
             ((PhraseQuery *)q)->slop = slop;
         }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 0661f0e..66c28e5 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -983,7 +983,7 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         int pos_inc = 0;
         q = phq_new(field);
         if (slop_str) {
-            int slop;
+            int slop = 0;
             sscanf(slop_str,"%d",&slop);
             ((PhraseQuery *)q)->slop = slop;
         }
-- 
2.43.0


From c30e35efe5f1044e8d16809a91c4c45b452b537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:04 +0000
Subject: [PATCH 070/181] fix: the multi-byte scanner read and wrote outside
 its buffers

---
 c/src/scanner_mb.c  | 100 +++++++++++++++++++++++++++-----------------
 c/src/scanner_mb.rl | 100 +++++++++++++++++++++++++++-----------------
 2 files changed, 124 insertions(+), 76 deletions(-)

diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index f7298eb..d45d5f0 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -6223,22 +6223,7 @@ static const int StdTok_en_main = 1;
 
 #line 34 "src/scanner_mb.rl"
 
-static const char *position_in_mb( const unsigned int *orig_wc,
-                                   const char *orig_mb,
-                                   const unsigned int *curr_wc )
-{
-    const char         *mb = orig_mb;
-    const unsigned int *wc = orig_wc;
-
-    while (wc < curr_wc)
-    {
-        char buf[MB_LEN_MAX];
-        mb += wctomb(buf, *wc);
-        ++wc;
-    }
-
-    return mb;
-}
+#define WC_BUF_SIZE 4096
 
 static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
 {
@@ -6250,8 +6235,11 @@ static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
+        if (*t == 0) {
+            *wchr = 0;
+            num_bytes = 0;
+        }
+        num_bytes += t - s;
     }
     return num_bytes;
 }
@@ -6283,34 +6271,40 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+/*
+ * Fills +out+ with at most WC_BUF_SIZE - 1 characters, and a terminator.
+ * +pos+ gets where in +in+ each of them starts. Returns true if there is more
+ * to come in +in+.
+ */
+static int mb_to_wc(const char *in, unsigned int *out, const char **pos)
 {
     mbstate_t state;
     const char *in_p     = in;
     unsigned int *out_p = out;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    while (*in_p && out_p < (out + WC_BUF_SIZE - 1))
     {
         /* We can break out early here on, say, a space XXX */
 
         int n = mb_next_char(out_p, in_p, &state);
-        if (n < 0)
-        {
-            ++in_p;
-            continue;
-        }
+        if (*out_p == 0)
+            break;
 
+        *pos++ = in_p;
         in_p += n;
         ++out_p;
     }
+    *pos = in_p;
+    *out_p = 0;
+    return out_p == (out + WC_BUF_SIZE - 1);
 }
 
 static void wc_to_mb(char *out, size_t out_size, int *token_size,
                      const unsigned int *in_wc, size_t in_wc_size)
 {
     mbstate_t state;
+    char buf[MB_LEN_MAX];
     char *out_p = out;
     const unsigned int *in_wc_p = in_wc;
     ZEROSET(&state, mbstate_t);
@@ -6321,13 +6315,16 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
         if (!*in_wc_p)
             break;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        int n = wc_next_char(buf, in_wc_p, &state);
         if (n < 0)
         {
             ++in_wc_p;
             continue;
         }
+        if (n > (out + out_size) - out_p)
+            break;
 
+        memcpy(out_p, buf, n);
         out_p += n;
         ++in_wc_p;
     }
@@ -6335,11 +6332,17 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
     *token_size = out_p - out;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+/*
+ * Scans what fits into a buffer. If that is not all of +in_mb+ then a token is
+ * only taken from the first half of the buffer, so that it is never cut off by
+ * the end of the buffer. Otherwise +next_mb+ is set to where to carry on.
+ */
+static void std_scan_mb_buf(const char *in_mb,
+                            char *out_mb, size_t out_mb_size,
+                            const char **start_mb,
+                            const char **end_mb,
+                            int *token_size,
+                            const char **next_mb)
 {
     int cs, act, top;
     int stack[32];
@@ -6357,8 +6360,9 @@ void frt_std_scan_mb(const char *in_mb,
 
 #line 158 "src/scanner_mb.rl"
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
+    unsigned int in_wc[WC_BUF_SIZE];
+    const char *pos_mb[WC_BUF_SIZE];
+    const int more = mb_to_wc(in_mb, in_wc, pos_mb);
 
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
@@ -6368,6 +6372,7 @@ void frt_std_scan_mb(const char *in_mb,
     *end_mb = 0;
     *start_mb = 0;
     *token_size = 0;
+    *next_mb = more ? pos_mb[WC_BUF_SIZE / 2] : 0;
 
     
 #line 6374 "src/scanner_mb.c"
@@ -6682,11 +6687,16 @@ _again:
 
  ret:
     {
-        unsigned int out_wc[4096] = {0};
+        unsigned int out_wc[WC_BUF_SIZE] = {0};
         size_t __len = te - ts - skip - trunc;
 
-        *start_mb = position_in_mb(in_wc, in_mb, ts);
-        *end_mb   = position_in_mb(in_wc, in_mb, te);
+        if (more && ts - in_wc > WC_BUF_SIZE / 2) {
+            *next_mb = pos_mb[ts - in_wc];
+            return;
+        }
+        *next_mb  = 0;
+        *start_mb = pos_mb[ts - in_wc];
+        *end_mb   = pos_mb[te - in_wc];
 
         if (strip_char) {
             unsigned int *__p = ts + skip;
@@ -6700,7 +6710,21 @@ _again:
             memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
         }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
+        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, WC_BUF_SIZE);
         out_mb[*token_size] = 0;
     }
 }
+
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    const char *next_mb;
+    do {
+        std_scan_mb_buf(in_mb, out_mb, out_mb_size,
+                        start_mb, end_mb, token_size, &next_mb);
+        in_mb = next_mb;
+    } while (next_mb);
+}
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index bc2fe19..3f9e514 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -32,22 +32,7 @@
 
 %% write data nofinal;
 
-static const char *position_in_mb( const unsigned int *orig_wc,
-                                   const char *orig_mb,
-                                   const unsigned int *curr_wc )
-{
-    const char         *mb = orig_mb;
-    const unsigned int *wc = orig_wc;
-
-    while (wc < curr_wc)
-    {
-        char buf[MB_LEN_MAX];
-        mb += wctomb(buf, *wc);
-        ++wc;
-    }
-
-    return mb;
-}
+#define WC_BUF_SIZE 4096
 
 static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
 {
@@ -59,8 +44,11 @@ static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
+        if (*t == 0) {
+            *wchr = 0;
+            num_bytes = 0;
+        }
+        num_bytes += t - s;
     }
     return num_bytes;
 }
@@ -92,34 +80,40 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+/*
+ * Fills +out+ with at most WC_BUF_SIZE - 1 characters, and a terminator.
+ * +pos+ gets where in +in+ each of them starts. Returns true if there is more
+ * to come in +in+.
+ */
+static int mb_to_wc(const char *in, unsigned int *out, const char **pos)
 {
     mbstate_t state;
     const char *in_p     = in;
     unsigned int *out_p = out;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    while (*in_p && out_p < (out + WC_BUF_SIZE - 1))
     {
         /* We can break out early here on, say, a space XXX */
 
         int n = mb_next_char(out_p, in_p, &state);
-        if (n < 0)
-        {
-            ++in_p;
-            continue;
-        }
+        if (*out_p == 0)
+            break;
 
+        *pos++ = in_p;
         in_p += n;
         ++out_p;
     }
+    *pos = in_p;
+    *out_p = 0;
+    return out_p == (out + WC_BUF_SIZE - 1);
 }
 
 static void wc_to_mb(char *out, size_t out_size, int *token_size,
                      const unsigned int *in_wc, size_t in_wc_size)
 {
     mbstate_t state;
+    char buf[MB_LEN_MAX];
     char *out_p = out;
     const unsigned int *in_wc_p = in_wc;
     ZEROSET(&state, mbstate_t);
@@ -130,13 +124,16 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
         if (!*in_wc_p)
             break;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        int n = wc_next_char(buf, in_wc_p, &state);
         if (n < 0)
         {
             ++in_wc_p;
             continue;
         }
+        if (n > (out + out_size) - out_p)
+            break;
 
+        memcpy(out_p, buf, n);
         out_p += n;
         ++in_wc_p;
     }
@@ -144,11 +141,17 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
     *token_size = out_p - out;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+/*
+ * Scans what fits into a buffer. If that is not all of +in_mb+ then a token is
+ * only taken from the first half of the buffer, so that it is never cut off by
+ * the end of the buffer. Otherwise +next_mb+ is set to where to carry on.
+ */
+static void std_scan_mb_buf(const char *in_mb,
+                            char *out_mb, size_t out_mb_size,
+                            const char **start_mb,
+                            const char **end_mb,
+                            int *token_size,
+                            const char **next_mb)
 {
     int cs, act, top;
     int stack[32];
@@ -156,8 +159,9 @@ void frt_std_scan_mb(const char *in_mb,
 
     %% write init;
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
+    unsigned int in_wc[WC_BUF_SIZE];
+    const char *pos_mb[WC_BUF_SIZE];
+    const int more = mb_to_wc(in_mb, in_wc, pos_mb);
 
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
@@ -167,6 +171,7 @@ void frt_std_scan_mb(const char *in_mb,
     *end_mb = 0;
     *start_mb = 0;
     *token_size = 0;
+    *next_mb = more ? pos_mb[WC_BUF_SIZE / 2] : 0;
 
     %% write exec;
 
@@ -177,11 +182,16 @@ void frt_std_scan_mb(const char *in_mb,
 
  ret:
     {
-        unsigned int out_wc[4096] = {0};
+        unsigned int out_wc[WC_BUF_SIZE] = {0};
         size_t __len = te - ts - skip - trunc;
 
-        *start_mb = position_in_mb(in_wc, in_mb, ts);
-        *end_mb   = position_in_mb(in_wc, in_mb, te);
+        if (more && ts - in_wc > WC_BUF_SIZE / 2) {
+            *next_mb = pos_mb[ts - in_wc];
+            return;
+        }
+        *next_mb  = 0;
+        *start_mb = pos_mb[ts - in_wc];
+        *end_mb   = pos_mb[te - in_wc];
 
         if (strip_char) {
             unsigned int *__p = ts + skip;
@@ -195,7 +205,21 @@ void frt_std_scan_mb(const char *in_mb,
             memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
         }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
+        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, WC_BUF_SIZE);
         out_mb[*token_size] = 0;
     }
 }
+
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    const char *next_mb;
+    do {
+        std_scan_mb_buf(in_mb, out_mb, out_mb_size,
+                        start_mb, end_mb, token_size, &next_mb);
+        in_mb = next_mb;
+    } while (next_mb);
+}
-- 
2.43.0


From dd5df13dd3f474d4080c5ba8355f9cd404cee5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:41 +0000
Subject: [PATCH 071/181] fix: URLs with a path that does not end in a slash
 lost their last character

---
 c/src/scanner.c       | 6 +++++-
 c/src/scanner.rl      | 6 +++++-
 c/src/scanner_mb.c    | 6 +++++-
 c/src/scanner_mb.rl   | 6 +++++-
 c/src/scanner_utf8.c  | 6 +++++-
 c/src/scanner_utf8.rl | 6 +++++-
 6 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/c/src/scanner.c b/c/src/scanner.c
index 3ba8fae..abf55e0 100644
--- a/c/src/scanner.c
+++ b/c/src/scanner.c
@@ -874,7 +874,11 @@ _again:
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        /* a '/' is only dropped from the end of a URL */
+        size_t __len;
+        if (trunc == 1 && te[-1] != '/' && te[-1] != '\'')
+            trunc = 0;
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/scanner.rl b/c/src/scanner.rl
index ca80fff..d9c6557 100644
--- a/c/src/scanner.rl
+++ b/c/src/scanner.rl
@@ -59,7 +59,11 @@ void frt_std_scan(const char *in,
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        /* a '/' is only dropped from the end of a URL */
+        size_t __len;
+        if (trunc == 1 && te[-1] != '/' && te[-1] != '\'')
+            trunc = 0;
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index d45d5f0..92fc10d 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -6688,7 +6688,11 @@ _again:
  ret:
     {
         unsigned int out_wc[WC_BUF_SIZE] = {0};
-        size_t __len = te - ts - skip - trunc;
+        /* a '/' is only dropped from the end of a URL */
+        size_t __len;
+        if (trunc == 1 && te[-1] != '/' && te[-1] != '\'')
+            trunc = 0;
+        __len = te - ts - skip - trunc;
 
         if (more && ts - in_wc > WC_BUF_SIZE / 2) {
             *next_mb = pos_mb[ts - in_wc];
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index 3f9e514..ceaf466 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -183,7 +183,11 @@ static void std_scan_mb_buf(const char *in_mb,
  ret:
     {
         unsigned int out_wc[WC_BUF_SIZE] = {0};
-        size_t __len = te - ts - skip - trunc;
+        /* a '/' is only dropped from the end of a URL */
+        size_t __len;
+        if (trunc == 1 && te[-1] != '/' && te[-1] != '\'')
+            trunc = 0;
+        __len = te - ts - skip - trunc;
 
         if (more && ts - in_wc > WC_BUF_SIZE / 2) {
             *next_mb = pos_mb[ts - in_wc];
diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index ad02f83..6f15a1a 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -4394,7 +4394,11 @@ _again:
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        /* a '/' is only dropped from the end of a URL */
+        size_t __len;
+        if (trunc == 1 && te[-1] != '/' && te[-1] != '\'')
+            trunc = 0;
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/scanner_utf8.rl b/c/src/scanner_utf8.rl
index dcfbd4b..06f5470 100644
--- a/c/src/scanner_utf8.rl
+++ b/c/src/scanner_utf8.rl
@@ -60,7 +60,11 @@ void frt_std_scan_utf8(const char *in,
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        /* a '/' is only dropped from the end of a URL */
+        size_t __len;
+        if (trunc == 1 && te[-1] != '/' && te[-1] != '\'')
+            trunc = 0;
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
-- 
2.43.0


From 13805a34c94efc304e3361b7c30621abf8097535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:41 +0000
Subject: [PATCH 072/181] fix: invalid bytes were lowercased as copies of the
 next character

---
 c/src/analysis.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 95e46e8..043cab6 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -164,8 +164,11 @@ static INLINE int mb_next_char(wchar_t *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc(wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
+        if (*t == 0) {
+            *wchr = 0;
+            num_bytes = 0;
+        }
+        num_bytes += t - s;
     }
     return num_bytes;
 }
-- 
2.43.0


From 6d64234f20fae7bba36d7c9e6d78b90b1b3da96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:41 +0000
Subject: [PATCH 073/181] fix: lowercasing a long token wrote past its end

---
 c/src/analysis.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 043cab6..4f89a12 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -46,6 +46,10 @@ static INLINE Token *w_tk_set(Token *tk, wchar_t *text, off_t start,
                               off_t end, int pos_inc)
 {
     int len = wcstombs(tk->text, text, MAX_WORD_SIZE - 1);
+    if (len < 0) {
+        strcpy(tk->text, "BAD_DATA");
+        len = 8;
+    }
     tk->text[len] = '\0';
     tk->len = len;
     tk->start = start;
@@ -1368,7 +1372,7 @@ static Token *mb_lcf_next(TokenStream *ts)
         *wchr = towlower(*wchr);
         wchr++;
     }
-    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE);
+    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE - 1);
     if (tk->len <= 0) {
         strcpy(tk->text, "BAD_DATA");
         tk->len = 8;
-- 
2.43.0


From 627f4c35963666ceada743dff982883f14612d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:41 +0000
Subject: [PATCH 074/181] fix: the legacy standard tokenizer overran its buffer
 on long words

---
 c/src/analysis.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 4f89a12..4aac883 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -954,9 +954,8 @@ static Token *legacy_std_next(TokenStream *ts)
 
     if (t[0] == ':' && t[1] == '/' && t[2] == '/') {
         /* check for a known url start */
-        token[token_i] = '\0';
+        token[MIN(token_i, MAX_WORD_SIZE)] = '\0';
         t += 3;
-        token_i += 3;
         while (*t == '/') {
             t++;
         }
@@ -969,7 +968,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         else {              /* still treat as url but keep the first part */
             token_i = (int)(t - start);
-            memcpy(token, start, token_i * sizeof(char));
+            memcpy(token, start, MIN(token_i, MAX_WORD_SIZE) * sizeof(char));
             ts->t = std_get_url(start, token, token_i, &len); /* keep start */
         }
         return tk_set(&(CTS(ts)->token), token, len,
@@ -1015,7 +1014,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         if (is_acronym) {   /* strip '.'s */
             for (s = start + token_i; s < t; s++) {
-                if (*s != '.') {
+                if (*s != '.' && token_i < MAX_WORD_SIZE) {
                     token[token_i] = *s;
                     token_i++;
                 }
-- 
2.43.0


From 9c6c6e3ece382fdd05bbb632deb6716f2da1ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:41 +0000
Subject: [PATCH 075/181] fix: the hyphen filter made empty tokens and took
 wrong offsets from changed text

---
 c/include/analysis.h |  1 +
 c/src/analysis.c     | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/c/include/analysis.h b/c/include/analysis.h
index 7766e69..a9909ed 100644
--- a/c/include/analysis.h
+++ b/c/include/analysis.h
@@ -119,6 +119,7 @@ typedef struct FrtHyphenFilter
     FrtTokenFilter super;
     char text[FRT_MAX_WORD_SIZE];
     int start;
+    int end; /* of the source, if its bytes are not those of text, else 0 */
     int pos;
     int len;
     FrtToken *tk;
diff --git a/c/src/analysis.c b/c/src/analysis.c
index 4aac883..e4d6c4e 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1292,9 +1292,18 @@ static Token *hf_next(TokenStream *ts)
         const int text_len = strlen(hf->text + pos);
         strcpy(tk->text, hf->text + pos);
         tk->pos_inc = ((pos != 0) ? 1 : 0);
-        tk->start = hf->start + pos;
-        tk->end = tk->start + text_len;
+        if (hf->end) {
+            tk->start = hf->start;
+            tk->end = hf->end;
+        }
+        else {
+            tk->start = hf->start + pos;
+            tk->end = tk->start + text_len;
+        }
         hf->pos += text_len + 1;
+        while (hf->pos < hf->len && '\0' == hf->text[hf->pos]) {
+            hf->pos++; /* there is nothing between two hyphens */
+        }
         tk->len = text_len;
         return tk;
     }
@@ -1319,6 +1328,10 @@ static Token *hf_next(TokenStream *ts)
             char *q = hf->text;
             char *r = tk->text;
             p = tk->text;
+            while (*p == '-') p++;
+            if (!*p) return tk;
+            hf->end = (tk->end - tk->start == tk->len) ? 0 : tk->end;
+            hf->start = tk->start + (hf->end ? 0 : p - tk->text);
             while (*p) {
                 if (*p == '-') {
                     *q = '\0';
@@ -1331,7 +1344,6 @@ static Token *hf_next(TokenStream *ts)
                 p++;
             }
             *r = *q = '\0';
-            hf->start = tk->start;
             hf->pos = 0;
             hf->len = q - hf->text;
             tk->len = r - tk->text;
-- 
2.43.0


From 640791b4e0849ca927d7b55df1809411cc2da5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:55 +0000
Subject: [PATCH 076/181] fix: the legacy standard tokenizer read before the
 text

---
 c/src/analysis.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index e4d6c4e..83ab7a8 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -983,7 +983,7 @@ static Token *legacy_std_next(TokenStream *ts)
         if (is_acronym && !isalpha(*t) && (*t != '.')) {
             is_acronym = false;
         }
-        if (isurlxatpunc(*t) && isurlxatpunc(t[-1])) {
+        if (isurlxatpunc(*t) && t > ts->text && isurlxatpunc(t[-1])) {
             break; /* can't have two punctuation characters in a row */
         }
         if (*t == '@') {
@@ -996,7 +996,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         t++;
     }
-    while (isurlxatpunc(t[-1]) && t > ts->t) {
+    while (t > ts->t && isurlxatpunc(t[-1])) {
         t--;                /* strip trailing punctuation */
     }
 
-- 
2.43.0


From c577fecaf9b998041ff67af4089cad0eab6593bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 077/181] fix: the UTF-8 standard tokenizer took no character
 outside ASCII for a letter

---
 c/src/scanner_utf8.c  | 10 +++++-----
 c/src/scanner_utf8.rl | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index 6f15a1a..ad7fa34 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -4051,7 +4051,7 @@ void frt_std_scan_utf8(const char *in,
 {
     int cs, act, top;
     int stack[32];
-    char *ts = 0, *te = 0;
+    unsigned char *ts = 0, *te = 0;
 
     
 #line 4058 "src/scanner_utf8.c"
@@ -4065,7 +4065,7 @@ void frt_std_scan_utf8(const char *in,
 
 #line 44 "src/scanner_utf8.rl"
 
-    char *p = (char *)in, *pe = 0, *eof = pe;
+    unsigned char *p = (unsigned char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
     char strip_char = 0;
@@ -4402,11 +4402,11 @@ _again:
         if (__len > out_size)
             __len = out_size;
 
-        *start = ts;
-        *end   = te;
+        *start = (char *)ts;
+        *end   = (char *)te;
 
         if (strip_char) {
-            char *__p = ts + skip;
+            unsigned char *__p = ts + skip;
             char *__o = out;
             for (; __p < (ts + skip + __len); ++__p) {
                 if (*__p != strip_char)
diff --git a/c/src/scanner_utf8.rl b/c/src/scanner_utf8.rl
index 06f5470..5024d3a 100644
--- a/c/src/scanner_utf8.rl
+++ b/c/src/scanner_utf8.rl
@@ -38,11 +38,11 @@ void frt_std_scan_utf8(const char *in,
 {
     int cs, act, top;
     int stack[32];
-    char *ts = 0, *te = 0;
+    unsigned char *ts = 0, *te = 0;
 
     %% write init;
 
-    char *p = (char *)in, *pe = 0, *eof = pe;
+    unsigned char *p = (unsigned char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
     char strip_char = 0;
@@ -68,11 +68,11 @@ void frt_std_scan_utf8(const char *in,
         if (__len > out_size)
             __len = out_size;
 
-        *start = ts;
-        *end   = te;
+        *start = (char *)ts;
+        *end   = (char *)te;
 
         if (strip_char) {
-            char *__p = ts + skip;
+            unsigned char *__p = ts + skip;
             char *__o = out;
             for (; __p < (ts + skip + __len); ++__p) {
                 if (*__p != strip_char)
-- 
2.43.0


From 869379c582c374c9a1c24e0d1d4affc99d93a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 078/181] fix: the UTF-8 standard tokenizer took the end of the
 text for part of a cut-off letter

---
 c/src/scanner_utf8.c | 6292 +++++++++++++++++++++---------------------
 c/src/uchar-utf8.rl  |  516 ++--
 2 files changed, 3392 insertions(+), 3416 deletions(-)

diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index ad7fa34..2470323 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -21,7 +21,7 @@
 
 
 
-#line 25 "src/scanner_utf8.c"
+#line 20 "src/scanner_utf8.c"
 static const char _StdTok_actions[] = {
 	0, 1, 0, 1, 1, 1, 2, 1, 
 	3, 1, 4, 1, 5, 1, 18, 1, 
@@ -40,180 +40,175 @@ static const char _StdTok_actions[] = {
 
 static const short _StdTok_key_offsets[] = {
 	0, 0, 0, 14, 28, 43, 57, 69, 
-	75, 85, 86, 92, 107, 164, 185, 206, 
-	233, 254, 256, 278, 300, 322, 344, 366, 
-	388, 410, 432, 454, 511, 514, 556, 562, 
-	562, 564, 566, 575, 582, 590, 591, 593, 
-	595, 599, 604, 613, 617, 623, 634, 636, 
-	638, 640, 645, 672, 676, 686, 701, 715, 
-	733, 746, 762, 770, 786, 799, 820, 828, 
-	842, 851, 865, 876, 888, 898, 907, 916, 
-	918, 921, 942, 948, 949, 955, 963, 1012, 
-	1017, 1023, 1027, 1032, 1034, 1036, 1038, 1045, 
-	1053, 1060, 1063, 1067, 1071, 1073, 1075, 1079, 
-	1083, 1087, 1093, 1101, 1105, 1111, 1113, 1115, 
-	1117, 1123, 1127, 1131, 1133, 1135, 1139, 1142, 
-	1146, 1148, 1152, 1156, 1166, 1171, 1185, 1201, 
-	1203, 1205, 1221, 1226, 1228, 1230, 1232, 1236, 
-	1240, 1242, 1246, 1250, 1260, 1270, 1271, 1282, 
-	1290, 1293, 1296, 1300, 1304, 1306, 1309, 1311, 
-	1311, 1314, 1316, 1341, 1343, 1349, 1354, 1356, 
-	1360, 1364, 1366, 1371, 1373, 1377, 1379, 1381, 
-	1383, 1386, 1388, 1409, 1411, 1413, 1415, 1426, 
-	1432, 1434, 1436, 1438, 1440, 1444, 1448, 1450, 
-	1452, 1456, 1458, 1466, 1474, 1491, 1501, 1505, 
-	1507, 1509, 1513, 1515, 1519, 1521, 1525, 1530, 
-	1532, 1541, 1545, 1555, 1561, 1563, 1565, 1579, 
-	1580, 1590, 1591, 1599, 1606, 1608, 1611, 1613, 
-	1615, 1617, 1620, 1623, 1626, 1628, 1632, 1659, 
-	1660, 1667, 1670, 1676, 1676, 1678, 1680, 1689, 
-	1696, 1704, 1705, 1707, 1709, 1713, 1718, 1727, 
-	1731, 1737, 1748, 1750, 1752, 1754, 1759, 1786, 
-	1790, 1800, 1815, 1829, 1847, 1860, 1876, 1884, 
-	1900, 1913, 1934, 1942, 1956, 1965, 1979, 1990, 
-	2002, 2012, 2021, 2030, 2032, 2035, 2056, 2062, 
-	2063, 2069, 2077, 2126, 2131, 2137, 2141, 2146, 
-	2148, 2150, 2152, 2159, 2167, 2174, 2177, 2181, 
-	2185, 2187, 2189, 2193, 2197, 2201, 2207, 2215, 
-	2219, 2225, 2227, 2229, 2231, 2237, 2241, 2245, 
-	2247, 2249, 2253, 2256, 2260, 2262, 2266, 2270, 
-	2280, 2285, 2299, 2315, 2317, 2319, 2335, 2340, 
-	2342, 2344, 2346, 2350, 2354, 2356, 2360, 2364, 
-	2374, 2384, 2385, 2396, 2404, 2407, 2410, 2414, 
-	2418, 2420, 2423, 2425, 2425, 2428, 2430, 2455, 
-	2457, 2463, 2468, 2470, 2474, 2478, 2480, 2485, 
-	2487, 2491, 2493, 2495, 2497, 2500, 2502, 2523, 
-	2525, 2527, 2529, 2540, 2546, 2548, 2550, 2552, 
-	2554, 2558, 2562, 2564, 2566, 2570, 2572, 2580, 
-	2588, 2605, 2615, 2619, 2621, 2623, 2627, 2629, 
-	2633, 2635, 2639, 2644, 2646, 2655, 2659, 2669, 
-	2675, 2677, 2679, 2693, 2694, 2704, 2705, 2713, 
-	2720, 2722, 2725, 2727, 2729, 2731, 2734, 2737, 
-	2740, 2742, 2746, 2749, 2755, 2755, 2757, 2759, 
-	2768, 2775, 2783, 2784, 2786, 2788, 2792, 2797, 
-	2806, 2810, 2816, 2827, 2829, 2831, 2833, 2838, 
-	2865, 2869, 2879, 2894, 2908, 2926, 2939, 2955, 
-	2963, 2979, 2992, 3013, 3021, 3035, 3044, 3058, 
-	3069, 3081, 3091, 3100, 3109, 3111, 3114, 3135, 
-	3141, 3142, 3148, 3156, 3205, 3210, 3216, 3220, 
-	3225, 3227, 3229, 3231, 3238, 3246, 3253, 3256, 
-	3260, 3264, 3266, 3268, 3272, 3276, 3280, 3286, 
-	3294, 3298, 3304, 3306, 3308, 3310, 3316, 3320, 
-	3324, 3326, 3328, 3332, 3335, 3339, 3341, 3345, 
-	3349, 3359, 3364, 3378, 3394, 3396, 3398, 3414, 
-	3419, 3421, 3423, 3425, 3429, 3433, 3435, 3439, 
-	3443, 3453, 3463, 3464, 3475, 3483, 3486, 3489, 
-	3493, 3497, 3499, 3502, 3504, 3504, 3507, 3509, 
-	3534, 3536, 3542, 3547, 3549, 3553, 3557, 3559, 
-	3564, 3566, 3570, 3572, 3574, 3576, 3579, 3581, 
-	3602, 3604, 3606, 3608, 3619, 3625, 3627, 3629, 
-	3631, 3633, 3637, 3641, 3643, 3645, 3649, 3651, 
-	3659, 3667, 3684, 3694, 3698, 3700, 3702, 3706, 
-	3708, 3712, 3714, 3718, 3723, 3725, 3734, 3738, 
-	3748, 3754, 3756, 3758, 3772, 3773, 3783, 3784, 
-	3792, 3799, 3801, 3804, 3806, 3808, 3810, 3813, 
-	3816, 3819, 3821, 3825, 3888, 3891, 3931, 3937, 
-	3937, 3939, 3941, 3950, 3957, 3965, 3966, 3968, 
-	3970, 3974, 3979, 3988, 3992, 3998, 4009, 4011, 
-	4013, 4015, 4020, 4047, 4051, 4061, 4076, 4090, 
-	4108, 4121, 4137, 4145, 4161, 4174, 4195, 4203, 
-	4217, 4226, 4240, 4251, 4263, 4273, 4282, 4291, 
-	4293, 4296, 4317, 4323, 4324, 4330, 4338, 4387, 
-	4392, 4398, 4402, 4407, 4409, 4411, 4413, 4420, 
-	4428, 4435, 4438, 4442, 4446, 4448, 4450, 4454, 
-	4458, 4462, 4468, 4476, 4480, 4486, 4488, 4490, 
-	4492, 4498, 4502, 4506, 4508, 4510, 4514, 4517, 
-	4521, 4523, 4527, 4531, 4541, 4546, 4560, 4576, 
-	4578, 4580, 4596, 4601, 4603, 4605, 4607, 4611, 
-	4615, 4617, 4621, 4625, 4635, 4645, 4646, 4657, 
-	4665, 4668, 4671, 4675, 4679, 4681, 4684, 4686, 
-	4686, 4689, 4691, 4716, 4718, 4724, 4729, 4731, 
-	4735, 4739, 4741, 4746, 4748, 4752, 4754, 4756, 
-	4758, 4761, 4763, 4784, 4786, 4788, 4790, 4801, 
-	4807, 4809, 4811, 4813, 4815, 4819, 4823, 4825, 
-	4827, 4831, 4833, 4841, 4849, 4866, 4876, 4880, 
-	4882, 4884, 4888, 4890, 4894, 4896, 4900, 4905, 
-	4907, 4916, 4920, 4930, 4936, 4938, 4940, 4954, 
-	4955, 4965, 4966, 4974, 4981, 4983, 4986, 4988, 
-	4990, 4992, 4995, 4998, 5001, 5003, 5007, 5010, 
-	5016, 5016, 5018, 5020, 5029, 5036, 5044, 5045, 
-	5047, 5049, 5053, 5058, 5067, 5071, 5077, 5088, 
-	5090, 5092, 5094, 5099, 5126, 5130, 5140, 5155, 
-	5169, 5187, 5200, 5216, 5224, 5240, 5253, 5274, 
-	5282, 5296, 5305, 5319, 5330, 5342, 5352, 5361, 
-	5370, 5372, 5375, 5396, 5402, 5403, 5409, 5417, 
-	5466, 5471, 5477, 5481, 5486, 5488, 5490, 5492, 
-	5499, 5507, 5514, 5517, 5521, 5525, 5527, 5529, 
-	5533, 5537, 5541, 5547, 5555, 5559, 5565, 5567, 
-	5569, 5571, 5577, 5581, 5585, 5587, 5589, 5593, 
-	5596, 5600, 5602, 5606, 5610, 5620, 5625, 5639, 
-	5655, 5657, 5659, 5675, 5680, 5682, 5684, 5686, 
-	5690, 5694, 5696, 5700, 5704, 5714, 5724, 5725, 
-	5736, 5744, 5747, 5750, 5754, 5758, 5760, 5763, 
-	5765, 5765, 5768, 5770, 5795, 5797, 5803, 5808, 
-	5810, 5814, 5818, 5820, 5825, 5827, 5831, 5833, 
-	5835, 5837, 5840, 5842, 5863, 5865, 5867, 5869, 
-	5880, 5886, 5888, 5890, 5892, 5894, 5898, 5902, 
-	5904, 5906, 5910, 5912, 5920, 5928, 5945, 5955, 
-	5959, 5961, 5963, 5967, 5969, 5973, 5975, 5979, 
-	5984, 5986, 5995, 5999, 6009, 6015, 6017, 6019, 
-	6033, 6034, 6044, 6045, 6053, 6060, 6062, 6065, 
-	6067, 6069, 6071, 6074, 6077, 6080, 6082, 6086, 
-	6089, 6095, 6095, 6097, 6099, 6108, 6115, 6123, 
-	6124, 6126, 6128, 6132, 6137, 6146, 6150, 6156, 
-	6167, 6169, 6171, 6173, 6178, 6205, 6209, 6219, 
-	6234, 6248, 6266, 6279, 6295, 6303, 6319, 6332, 
-	6353, 6361, 6375, 6384, 6398, 6409, 6421, 6431, 
-	6440, 6449, 6451, 6454, 6475, 6481, 6482, 6488, 
-	6496, 6545, 6550, 6556, 6560, 6565, 6567, 6569, 
-	6571, 6578, 6586, 6593, 6596, 6600, 6604, 6606, 
-	6608, 6612, 6616, 6620, 6626, 6634, 6638, 6644, 
-	6646, 6648, 6650, 6656, 6660, 6664, 6666, 6668, 
-	6672, 6675, 6679, 6681, 6685, 6689, 6699, 6704, 
-	6718, 6734, 6736, 6738, 6754, 6759, 6761, 6763, 
-	6765, 6769, 6773, 6775, 6779, 6783, 6793, 6803, 
-	6804, 6815, 6823, 6826, 6829, 6833, 6837, 6839, 
-	6842, 6844, 6844, 6847, 6849, 6874, 6876, 6882, 
-	6887, 6889, 6893, 6897, 6899, 6904, 6906, 6910, 
-	6912, 6914, 6916, 6919, 6921, 6942, 6944, 6946, 
-	6948, 6959, 6965, 6967, 6969, 6971, 6973, 6977, 
-	6981, 6983, 6985, 6989, 6991, 6999, 7007, 7024, 
-	7034, 7038, 7040, 7042, 7046, 7048, 7052, 7054, 
-	7058, 7063, 7065, 7074, 7078, 7088, 7094, 7096, 
-	7098, 7112, 7113, 7123, 7124, 7132, 7139, 7141, 
-	7144, 7146, 7148, 7150, 7153, 7156, 7159, 7161, 
-	7165, 7166, 7179, 7183, 7193, 7208, 7222, 7240, 
-	7253, 7269, 7277, 7293, 7306, 7327, 7335, 7349, 
-	7358, 7372, 7383, 7395, 7405, 7414, 7423, 7425, 
-	7428, 7449, 7455, 7456, 7462, 7470, 7475, 7481, 
-	7485, 7490, 7492, 7494, 7496, 7498, 7505, 7513, 
-	7520, 7523, 7527, 7531, 7533, 7535, 7535, 7539, 
-	7543, 7547, 7553, 7561, 7565, 7571, 7573, 7575, 
-	7577, 7583, 7587, 7591, 7593, 7595, 7599, 7602, 
-	7606, 7608, 7612, 7614, 7618, 7628, 7633, 7647, 
-	7649, 7651, 7667, 7672, 7674, 7676, 7678, 7682, 
-	7686, 7688, 7692, 7696, 7706, 7716, 7717, 7725, 
-	7728, 7731, 7735, 7739, 7741, 7743, 7745, 7747, 
-	7753, 7758, 7760, 7764, 7768, 7770, 7775, 7777, 
-	7781, 7783, 7785, 7787, 7789, 7791, 7793, 7795, 
-	7806, 7812, 7814, 7816, 7818, 7820, 7822, 7826, 
-	7830, 7832, 7834, 7838, 7840, 7848, 7865, 7875, 
-	7879, 7881, 7883, 7887, 7889, 7893, 7895, 7899, 
-	7904, 7906, 7915, 7919, 7929, 7935, 7937, 7939, 
-	7953, 7954, 7964, 7965, 7973, 7980, 7982, 7985, 
-	7987, 7989, 7991, 7994, 7997, 7997, 8000, 8002, 
-	8006, 8006, 8064, 8078, 8092, 8102, 8118, 8134, 
-	8150, 8209, 8231, 8234, 8257, 8280, 8303, 8326, 
-	8350, 8373, 8396, 8419, 8477, 8535, 8579, 8600, 
-	8608, 8667, 8728, 8783, 8840, 8882, 8939, 8994, 
-	9034, 9055, 9077, 9099, 9121, 9143, 9165, 9187, 
-	9209, 9231, 9232, 9293, 9309, 9364, 9420, 9467, 
-	9507, 9509, 9570, 9617, 9659, 9722, 9784, 9846, 
-	9907, 9920, 9982, 10044, 10106, 10168, 10230, 10233, 
-	10281, 10287, 10287, 10289, 10291, 10300, 10307, 10315, 
-	10316, 10318, 10320, 10324, 10329, 10338, 10342, 10348, 
-	10359, 10361, 10363, 10365, 10370, 10397, 10446, 10462, 
-	10473, 10476, 10476, 10479, 10504, 10507, 10528
+	75, 85, 86, 92, 107, 162, 183, 204, 
+	231, 252, 254, 276, 298, 320, 342, 364, 
+	386, 408, 430, 452, 507, 510, 550, 556, 
+	558, 566, 573, 581, 585, 589, 593, 598, 
+	603, 612, 616, 622, 633, 635, 637, 639, 
+	644, 671, 675, 684, 699, 713, 731, 743, 
+	759, 768, 784, 797, 818, 826, 840, 852, 
+	866, 877, 889, 900, 909, 918, 920, 923, 
+	944, 950, 951, 957, 965, 1010, 1015, 1021, 
+	1026, 1031, 1035, 1039, 1041, 1052, 1062, 1069, 
+	1075, 1078, 1082, 1084, 1086, 1090, 1094, 1098, 
+	1104, 1112, 1116, 1120, 1122, 1124, 1126, 1132, 
+	1136, 1140, 1142, 1144, 1148, 1152, 1156, 1158, 
+	1162, 1168, 1179, 1184, 1198, 1214, 1216, 1218, 
+	1234, 1239, 1241, 1243, 1245, 1249, 1255, 1257, 
+	1261, 1264, 1274, 1284, 1285, 1295, 1303, 1309, 
+	1313, 1317, 1321, 1323, 1328, 1330, 1333, 1335, 
+	1357, 1359, 1365, 1370, 1372, 1376, 1380, 1382, 
+	1390, 1392, 1396, 1398, 1400, 1402, 1405, 1407, 
+	1427, 1431, 1435, 1437, 1448, 1454, 1456, 1458, 
+	1462, 1466, 1470, 1472, 1474, 1478, 1480, 1488, 
+	1495, 1512, 1521, 1525, 1527, 1531, 1533, 1537, 
+	1539, 1543, 1549, 1551, 1560, 1564, 1574, 1579, 
+	1581, 1583, 1596, 1600, 1614, 1618, 1630, 1637, 
+	1641, 1648, 1654, 1660, 1666, 1670, 1673, 1675, 
+	1678, 1705, 1706, 1713, 1716, 1722, 1724, 1732, 
+	1739, 1747, 1751, 1755, 1759, 1764, 1769, 1778, 
+	1782, 1788, 1799, 1801, 1803, 1805, 1810, 1837, 
+	1841, 1850, 1865, 1879, 1897, 1909, 1925, 1934, 
+	1950, 1963, 1984, 1992, 2006, 2018, 2032, 2043, 
+	2055, 2066, 2075, 2084, 2086, 2089, 2110, 2116, 
+	2117, 2123, 2131, 2176, 2181, 2187, 2192, 2197, 
+	2201, 2205, 2207, 2218, 2228, 2235, 2241, 2244, 
+	2248, 2250, 2252, 2256, 2260, 2264, 2270, 2278, 
+	2282, 2286, 2288, 2290, 2292, 2298, 2302, 2306, 
+	2308, 2310, 2314, 2318, 2322, 2324, 2328, 2334, 
+	2345, 2350, 2364, 2380, 2382, 2384, 2400, 2405, 
+	2407, 2409, 2411, 2415, 2421, 2423, 2427, 2430, 
+	2440, 2450, 2451, 2461, 2469, 2475, 2479, 2483, 
+	2487, 2489, 2494, 2496, 2499, 2501, 2523, 2525, 
+	2531, 2536, 2538, 2542, 2546, 2548, 2556, 2558, 
+	2562, 2564, 2566, 2568, 2571, 2573, 2593, 2597, 
+	2601, 2603, 2614, 2620, 2622, 2624, 2628, 2632, 
+	2636, 2638, 2640, 2644, 2646, 2654, 2661, 2678, 
+	2687, 2691, 2693, 2697, 2699, 2703, 2705, 2709, 
+	2715, 2717, 2726, 2730, 2740, 2745, 2747, 2749, 
+	2762, 2766, 2780, 2784, 2796, 2803, 2807, 2814, 
+	2820, 2826, 2832, 2836, 2839, 2841, 2844, 2847, 
+	2853, 2855, 2863, 2870, 2878, 2882, 2886, 2890, 
+	2895, 2900, 2909, 2913, 2919, 2930, 2932, 2934, 
+	2936, 2941, 2968, 2972, 2981, 2996, 3010, 3028, 
+	3040, 3056, 3065, 3081, 3094, 3115, 3123, 3137, 
+	3149, 3163, 3174, 3186, 3197, 3206, 3215, 3217, 
+	3220, 3241, 3247, 3248, 3254, 3262, 3307, 3312, 
+	3318, 3323, 3328, 3332, 3336, 3338, 3349, 3359, 
+	3366, 3372, 3375, 3379, 3381, 3383, 3387, 3391, 
+	3395, 3401, 3409, 3413, 3417, 3419, 3421, 3423, 
+	3429, 3433, 3437, 3439, 3441, 3445, 3449, 3453, 
+	3455, 3459, 3465, 3476, 3481, 3495, 3511, 3513, 
+	3515, 3531, 3536, 3538, 3540, 3542, 3546, 3552, 
+	3554, 3558, 3561, 3571, 3581, 3582, 3592, 3600, 
+	3606, 3610, 3614, 3618, 3620, 3625, 3627, 3630, 
+	3632, 3654, 3656, 3662, 3667, 3669, 3673, 3677, 
+	3679, 3687, 3689, 3693, 3695, 3697, 3699, 3702, 
+	3704, 3724, 3728, 3732, 3734, 3745, 3751, 3753, 
+	3755, 3759, 3763, 3767, 3769, 3771, 3775, 3777, 
+	3785, 3792, 3809, 3818, 3822, 3824, 3828, 3830, 
+	3834, 3836, 3840, 3846, 3848, 3857, 3861, 3871, 
+	3876, 3878, 3880, 3893, 3897, 3911, 3915, 3927, 
+	3934, 3938, 3945, 3951, 3957, 3963, 3967, 3970, 
+	3972, 3975, 4036, 4039, 4077, 4083, 4085, 4093, 
+	4100, 4108, 4112, 4116, 4120, 4125, 4130, 4139, 
+	4143, 4149, 4160, 4162, 4164, 4166, 4171, 4198, 
+	4202, 4211, 4226, 4240, 4258, 4270, 4286, 4295, 
+	4311, 4324, 4345, 4353, 4367, 4379, 4393, 4404, 
+	4416, 4427, 4436, 4445, 4447, 4450, 4471, 4477, 
+	4478, 4484, 4492, 4537, 4542, 4548, 4553, 4558, 
+	4562, 4566, 4568, 4579, 4589, 4596, 4602, 4605, 
+	4609, 4611, 4613, 4617, 4621, 4625, 4631, 4639, 
+	4643, 4647, 4649, 4651, 4653, 4659, 4663, 4667, 
+	4669, 4671, 4675, 4679, 4683, 4685, 4689, 4695, 
+	4706, 4711, 4725, 4741, 4743, 4745, 4761, 4766, 
+	4768, 4770, 4772, 4776, 4782, 4784, 4788, 4791, 
+	4801, 4811, 4812, 4822, 4830, 4836, 4840, 4844, 
+	4848, 4850, 4855, 4857, 4860, 4862, 4884, 4886, 
+	4892, 4897, 4899, 4903, 4907, 4909, 4917, 4919, 
+	4923, 4925, 4927, 4929, 4932, 4934, 4954, 4958, 
+	4962, 4964, 4975, 4981, 4983, 4985, 4989, 4993, 
+	4997, 4999, 5001, 5005, 5007, 5015, 5022, 5039, 
+	5048, 5052, 5054, 5058, 5060, 5064, 5066, 5070, 
+	5076, 5078, 5087, 5091, 5101, 5106, 5108, 5110, 
+	5123, 5127, 5141, 5145, 5157, 5164, 5168, 5175, 
+	5181, 5187, 5193, 5197, 5200, 5202, 5205, 5208, 
+	5214, 5216, 5224, 5231, 5239, 5243, 5247, 5251, 
+	5256, 5261, 5270, 5274, 5280, 5291, 5293, 5295, 
+	5297, 5302, 5329, 5333, 5342, 5357, 5371, 5389, 
+	5401, 5417, 5426, 5442, 5455, 5476, 5484, 5498, 
+	5510, 5524, 5535, 5547, 5558, 5567, 5576, 5578, 
+	5581, 5602, 5608, 5609, 5615, 5623, 5668, 5673, 
+	5679, 5684, 5689, 5693, 5697, 5699, 5710, 5720, 
+	5727, 5733, 5736, 5740, 5742, 5744, 5748, 5752, 
+	5756, 5762, 5770, 5774, 5778, 5780, 5782, 5784, 
+	5790, 5794, 5798, 5800, 5802, 5806, 5810, 5814, 
+	5816, 5820, 5826, 5837, 5842, 5856, 5872, 5874, 
+	5876, 5892, 5897, 5899, 5901, 5903, 5907, 5913, 
+	5915, 5919, 5922, 5932, 5942, 5943, 5953, 5961, 
+	5967, 5971, 5975, 5979, 5981, 5986, 5988, 5991, 
+	5993, 6015, 6017, 6023, 6028, 6030, 6034, 6038, 
+	6040, 6048, 6050, 6054, 6056, 6058, 6060, 6063, 
+	6065, 6085, 6089, 6093, 6095, 6106, 6112, 6114, 
+	6116, 6120, 6124, 6128, 6130, 6132, 6136, 6138, 
+	6146, 6153, 6170, 6179, 6183, 6185, 6189, 6191, 
+	6195, 6197, 6201, 6207, 6209, 6218, 6222, 6232, 
+	6237, 6239, 6241, 6254, 6258, 6272, 6276, 6288, 
+	6295, 6299, 6306, 6312, 6318, 6324, 6328, 6331, 
+	6333, 6336, 6339, 6345, 6347, 6355, 6362, 6370, 
+	6374, 6378, 6382, 6387, 6392, 6401, 6405, 6411, 
+	6422, 6424, 6426, 6428, 6433, 6460, 6464, 6473, 
+	6488, 6502, 6520, 6532, 6548, 6557, 6573, 6586, 
+	6607, 6615, 6629, 6641, 6655, 6666, 6678, 6689, 
+	6698, 6707, 6709, 6712, 6733, 6739, 6740, 6746, 
+	6754, 6799, 6804, 6810, 6815, 6820, 6824, 6828, 
+	6830, 6841, 6851, 6858, 6864, 6867, 6871, 6873, 
+	6875, 6879, 6883, 6887, 6893, 6901, 6905, 6909, 
+	6911, 6913, 6915, 6921, 6925, 6929, 6931, 6933, 
+	6937, 6941, 6945, 6947, 6951, 6957, 6968, 6973, 
+	6987, 7003, 7005, 7007, 7023, 7028, 7030, 7032, 
+	7034, 7038, 7044, 7046, 7050, 7053, 7063, 7073, 
+	7074, 7084, 7092, 7098, 7102, 7106, 7110, 7112, 
+	7117, 7119, 7122, 7124, 7146, 7148, 7154, 7159, 
+	7161, 7165, 7169, 7171, 7179, 7181, 7185, 7187, 
+	7189, 7191, 7194, 7196, 7216, 7220, 7224, 7226, 
+	7237, 7243, 7245, 7247, 7251, 7255, 7259, 7261, 
+	7263, 7267, 7269, 7277, 7284, 7301, 7310, 7314, 
+	7316, 7320, 7322, 7326, 7328, 7332, 7338, 7340, 
+	7349, 7353, 7363, 7368, 7370, 7372, 7385, 7389, 
+	7403, 7407, 7419, 7426, 7430, 7437, 7443, 7449, 
+	7455, 7459, 7462, 7464, 7467, 7468, 7481, 7485, 
+	7494, 7509, 7523, 7541, 7553, 7569, 7578, 7594, 
+	7607, 7628, 7636, 7650, 7662, 7676, 7687, 7699, 
+	7710, 7719, 7728, 7730, 7733, 7754, 7760, 7761, 
+	7767, 7775, 7780, 7786, 7791, 7796, 7798, 7802, 
+	7806, 7808, 7819, 7829, 7836, 7842, 7845, 7849, 
+	7851, 7853, 7857, 7861, 7865, 7871, 7879, 7883, 
+	7887, 7889, 7891, 7893, 7899, 7903, 7907, 7909, 
+	7911, 7915, 7919, 7923, 7925, 7929, 7935, 7946, 
+	7951, 7965, 7967, 7969, 7985, 7990, 7992, 7994, 
+	7996, 8000, 8006, 8008, 8012, 8015, 8025, 8035, 
+	8036, 8044, 8050, 8054, 8058, 8062, 8064, 8066, 
+	8068, 8074, 8079, 8081, 8085, 8089, 8091, 8099, 
+	8101, 8105, 8107, 8109, 8111, 8113, 8117, 8121, 
+	8123, 8134, 8140, 8142, 8144, 8146, 8148, 8152, 
+	8156, 8160, 8162, 8164, 8168, 8170, 8178, 8195, 
+	8204, 8208, 8210, 8214, 8216, 8220, 8222, 8226, 
+	8232, 8234, 8243, 8247, 8257, 8262, 8264, 8266, 
+	8279, 8283, 8297, 8301, 8313, 8320, 8324, 8331, 
+	8337, 8343, 8349, 8353, 8355, 8358, 8360, 8363, 
+	8363, 8419, 8433, 8447, 8457, 8473, 8489, 8505, 
+	8562, 8584, 8587, 8610, 8633, 8656, 8679, 8703, 
+	8726, 8749, 8772, 8828, 8884, 8926, 8947, 8955, 
+	9012, 9071, 9124, 9179, 9219, 9274, 9327, 9365, 
+	9386, 9408, 9430, 9452, 9474, 9496, 9518, 9540, 
+	9562, 9563, 9622, 9638, 9691, 9745, 9790, 9828, 
+	9830, 9889, 9934, 9974, 10035, 10095, 10155, 10214, 
+	10227, 10287, 10347, 10407, 10467, 10527, 10530, 10576, 
+	10582, 10584, 10592, 10599, 10607, 10611, 10615, 10619, 
+	10624, 10629, 10638, 10642, 10648, 10659, 10661, 10663, 
+	10665, 10670, 10697, 10742, 10758, 10768, 10773, 10775, 
+	10778, 10800, 10803, 10823
 };
 
 static const unsigned char _StdTok_trans_keys[] = {
@@ -231,244 +226,105 @@ static const unsigned char _StdTok_trans_keys[] = {
 	11u, 12u, 14u, 127u, 33u, 45u, 47u, 61u, 
 	63u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
 	90u, 94u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 194u, 195u, 198u, 199u, 203u, 205u, 
-	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
-	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
-	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 33u, 45u, 46u, 47u, 
-	61u, 63u, 64u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	47u, 61u, 63u, 98u, 99u, 101u, 103u, 105u, 
-	109u, 110u, 111u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 48u, 57u, 
-	33u, 45u, 46u, 47u, 61u, 63u, 64u, 105u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 61u, 63u, 64u, 111u, 35u, 39u, 
+	63u, 64u, 194u, 195u, 203u, 205u, 206u, 207u, 
+	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
+	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
+	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
+	229u, 236u, 33u, 45u, 46u, 47u, 61u, 63u, 
+	64u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
+	45u, 46u, 47u, 61u, 63u, 64u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 33u, 45u, 47u, 61u, 
+	63u, 98u, 99u, 101u, 103u, 105u, 109u, 110u, 
+	111u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
+	45u, 46u, 47u, 61u, 63u, 64u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 48u, 57u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 105u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
-	61u, 63u, 64u, 100u, 35u, 39u, 42u, 43u, 
+	61u, 63u, 64u, 111u, 35u, 39u, 42u, 43u, 
 	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
 	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
-	64u, 111u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	64u, 100u, 35u, 39u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	33u, 45u, 46u, 47u, 61u, 63u, 64u, 110u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 111u, 
 	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
 	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 61u, 63u, 64u, 111u, 35u, 39u, 
+	46u, 47u, 61u, 63u, 64u, 110u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
-	61u, 63u, 64u, 105u, 35u, 39u, 42u, 43u, 
+	61u, 63u, 64u, 111u, 35u, 39u, 42u, 43u, 
 	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
 	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
-	64u, 101u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	64u, 105u, 35u, 39u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	33u, 45u, 46u, 47u, 61u, 63u, 64u, 114u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 101u, 
 	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 46u, 
-	61u, 63u, 64u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 35u, 39u, 42u, 43u, 45u, 47u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 196u, 202u, 208u, 218u, 229u, 236u, 170u, 
-	181u, 186u, 194u, 195u, 198u, 199u, 203u, 205u, 
-	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
-	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
-	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	48u, 57u, 65u, 90u, 97u, 122u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 128u, 150u, 152u, 182u, 
-	184u, 255u, 192u, 255u, 0u, 127u, 173u, 130u, 
-	133u, 146u, 159u, 165u, 171u, 175u, 255u, 133u, 
-	176u, 180u, 182u, 183u, 186u, 189u, 134u, 140u, 
-	136u, 138u, 142u, 161u, 163u, 255u, 182u, 130u, 
-	137u, 164u, 176u, 151u, 152u, 154u, 160u, 190u, 
-	136u, 175u, 192u, 255u, 135u, 129u, 130u, 132u, 
-	133u, 144u, 170u, 176u, 178u, 144u, 154u, 161u, 
-	191u, 128u, 151u, 153u, 158u, 174u, 255u, 148u, 
-	157u, 160u, 169u, 172u, 176u, 185u, 189u, 190u, 
-	192u, 255u, 144u, 191u, 141u, 255u, 178u, 255u, 
-	186u, 138u, 170u, 180u, 181u, 164u, 165u, 166u, 
-	167u, 168u, 169u, 170u, 171u, 172u, 173u, 174u, 
-	175u, 176u, 177u, 178u, 179u, 180u, 181u, 182u, 
-	183u, 184u, 185u, 186u, 187u, 188u, 189u, 190u, 
-	129u, 185u, 189u, 255u, 141u, 143u, 145u, 151u, 
-	164u, 176u, 179u, 186u, 192u, 255u, 178u, 129u, 
-	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
-	176u, 182u, 185u, 189u, 255u, 141u, 158u, 133u, 
-	134u, 137u, 138u, 143u, 150u, 152u, 155u, 164u, 
-	175u, 178u, 255u, 129u, 131u, 133u, 138u, 143u, 
-	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
-	182u, 184u, 185u, 190u, 255u, 157u, 131u, 134u, 
-	137u, 138u, 141u, 144u, 146u, 152u, 159u, 175u, 
-	182u, 255u, 129u, 131u, 133u, 141u, 143u, 145u, 
-	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
-	189u, 255u, 134u, 138u, 141u, 143u, 145u, 159u, 
-	164u, 255u, 129u, 131u, 133u, 140u, 143u, 144u, 
-	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
-	189u, 191u, 177u, 128u, 132u, 135u, 136u, 139u, 
-	140u, 150u, 151u, 156u, 157u, 159u, 163u, 156u, 
-	130u, 131u, 133u, 138u, 142u, 144u, 146u, 149u, 
-	153u, 154u, 158u, 159u, 163u, 164u, 168u, 170u, 
-	174u, 185u, 190u, 191u, 144u, 151u, 128u, 130u, 
-	134u, 136u, 138u, 140u, 129u, 131u, 133u, 140u, 
-	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
-	189u, 255u, 133u, 137u, 151u, 141u, 148u, 154u, 
-	159u, 164u, 255u, 130u, 131u, 133u, 140u, 142u, 
-	144u, 146u, 168u, 170u, 179u, 181u, 185u, 189u, 
-	191u, 158u, 128u, 132u, 134u, 136u, 138u, 140u, 
-	149u, 150u, 160u, 163u, 130u, 131u, 133u, 140u, 
-	142u, 144u, 146u, 168u, 170u, 185u, 189u, 255u, 
-	133u, 137u, 141u, 150u, 152u, 159u, 164u, 185u, 
-	192u, 255u, 189u, 130u, 131u, 133u, 150u, 154u, 
-	177u, 179u, 187u, 150u, 128u, 134u, 143u, 148u, 
-	152u, 159u, 178u, 179u, 129u, 186u, 141u, 128u, 
-	134u, 132u, 138u, 141u, 165u, 167u, 129u, 130u, 
-	135u, 136u, 148u, 151u, 153u, 159u, 161u, 163u, 
-	170u, 171u, 173u, 185u, 187u, 189u, 134u, 141u, 
-	128u, 132u, 156u, 157u, 128u, 128u, 135u, 137u, 
-	172u, 177u, 191u, 128u, 129u, 136u, 139u, 144u, 
-	151u, 153u, 188u, 128u, 129u, 130u, 131u, 133u, 
-	134u, 135u, 137u, 138u, 139u, 140u, 141u, 142u, 
-	143u, 144u, 153u, 154u, 155u, 156u, 157u, 158u, 
-	159u, 160u, 161u, 162u, 164u, 165u, 166u, 167u, 
-	168u, 172u, 173u, 174u, 176u, 177u, 180u, 181u, 
-	182u, 184u, 188u, 189u, 190u, 191u, 132u, 136u, 
-	145u, 152u, 185u, 187u, 184u, 128u, 182u, 187u, 
-	191u, 144u, 162u, 165u, 168u, 174u, 255u, 135u, 
-	141u, 143u, 159u, 187u, 134u, 143u, 189u, 255u, 
-	154u, 158u, 163u, 167u, 186u, 255u, 137u, 151u, 
-	153u, 142u, 143u, 158u, 159u, 137u, 177u, 142u, 
-	143u, 182u, 183u, 191u, 255u, 128u, 130u, 133u, 
-	136u, 150u, 152u, 255u, 145u, 150u, 151u, 155u, 
-	158u, 160u, 255u, 128u, 143u, 160u, 255u, 181u, 
-	255u, 129u, 255u, 173u, 174u, 183u, 255u, 129u, 
-	154u, 160u, 255u, 171u, 173u, 177u, 255u, 128u, 
-	140u, 142u, 147u, 160u, 179u, 128u, 147u, 160u, 
-	172u, 174u, 176u, 178u, 179u, 128u, 179u, 182u, 
-	255u, 137u, 150u, 152u, 155u, 157u, 255u, 160u, 
-	255u, 184u, 255u, 128u, 170u, 128u, 156u, 160u, 
-	171u, 176u, 184u, 144u, 173u, 176u, 180u, 128u, 
-	169u, 176u, 255u, 138u, 255u, 128u, 155u, 128u, 
-	179u, 181u, 255u, 132u, 140u, 255u, 128u, 169u, 
-	174u, 175u, 128u, 181u, 141u, 143u, 154u, 189u, 
-	150u, 151u, 158u, 159u, 152u, 154u, 156u, 158u, 
-	134u, 135u, 142u, 143u, 190u, 255u, 190u, 128u, 
-	180u, 182u, 188u, 130u, 132u, 134u, 140u, 144u, 
-	147u, 150u, 155u, 160u, 172u, 178u, 180u, 182u, 
-	188u, 129u, 130u, 132u, 133u, 134u, 146u, 147u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 114u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 33u, 46u, 61u, 63u, 
+	64u, 194u, 195u, 203u, 205u, 206u, 207u, 210u, 
+	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
+	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
+	233u, 234u, 237u, 239u, 240u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 170u, 181u, 186u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 128u, 150u, 
+	152u, 182u, 184u, 191u, 128u, 191u, 172u, 174u, 
+	128u, 129u, 134u, 145u, 160u, 164u, 133u, 176u, 
+	180u, 182u, 183u, 186u, 189u, 134u, 140u, 136u, 
+	138u, 142u, 161u, 163u, 191u, 128u, 181u, 183u, 
+	191u, 128u, 129u, 138u, 191u, 128u, 163u, 177u, 
+	191u, 153u, 128u, 150u, 161u, 191u, 191u, 128u, 
+	135u, 176u, 189u, 135u, 129u, 130u, 132u, 133u, 
+	144u, 170u, 176u, 178u, 144u, 154u, 161u, 191u, 
+	128u, 151u, 153u, 158u, 174u, 191u, 191u, 128u, 
+	147u, 149u, 156u, 161u, 168u, 173u, 175u, 186u, 
+	188u, 144u, 191u, 141u, 191u, 128u, 177u, 186u, 
+	138u, 170u, 180u, 181u, 164u, 165u, 166u, 167u, 
+	168u, 169u, 170u, 171u, 172u, 173u, 174u, 175u, 
 	176u, 177u, 178u, 179u, 180u, 181u, 182u, 183u, 
-	184u, 177u, 191u, 144u, 148u, 130u, 135u, 149u, 
-	164u, 166u, 168u, 138u, 147u, 153u, 157u, 170u, 
-	173u, 175u, 185u, 188u, 191u, 142u, 133u, 137u, 
-	160u, 255u, 137u, 255u, 182u, 255u, 170u, 255u, 
-	128u, 174u, 176u, 255u, 159u, 176u, 190u, 255u, 
-	165u, 255u, 128u, 165u, 176u, 255u, 166u, 174u, 
-	176u, 255u, 128u, 150u, 160u, 166u, 168u, 174u, 
-	176u, 182u, 184u, 190u, 128u, 134u, 136u, 142u, 
-	144u, 150u, 152u, 158u, 160u, 191u, 175u, 128u, 
-	129u, 130u, 131u, 132u, 133u, 134u, 135u, 144u, 
-	145u, 255u, 133u, 135u, 161u, 169u, 177u, 181u, 
-	184u, 188u, 160u, 151u, 156u, 187u, 192u, 255u, 
-	133u, 173u, 177u, 255u, 143u, 159u, 184u, 255u, 
-	176u, 191u, 182u, 183u, 184u, 182u, 255u, 191u, 
-	192u, 255u, 132u, 255u, 128u, 146u, 148u, 152u, 
-	153u, 154u, 156u, 157u, 158u, 159u, 160u, 161u, 
-	162u, 163u, 164u, 165u, 168u, 169u, 176u, 129u, 
-	145u, 149u, 151u, 177u, 255u, 141u, 255u, 141u, 
-	143u, 160u, 169u, 172u, 255u, 191u, 128u, 159u, 
-	162u, 174u, 128u, 151u, 151u, 159u, 162u, 255u, 
-	137u, 138u, 141u, 255u, 187u, 255u, 130u, 134u, 
-	139u, 168u, 255u, 128u, 179u, 138u, 170u, 176u, 
-	255u, 147u, 255u, 128u, 182u, 128u, 141u, 158u, 
-	159u, 255u, 164u, 255u, 164u, 168u, 169u, 171u, 
-	172u, 173u, 174u, 175u, 180u, 181u, 182u, 183u, 
-	185u, 186u, 187u, 188u, 189u, 190u, 191u, 165u, 
-	179u, 174u, 175u, 171u, 175u, 154u, 255u, 190u, 
-	128u, 134u, 147u, 151u, 157u, 168u, 170u, 182u, 
-	184u, 188u, 128u, 129u, 131u, 132u, 134u, 255u, 
-	147u, 255u, 190u, 255u, 144u, 255u, 144u, 145u, 
-	136u, 175u, 188u, 255u, 176u, 180u, 182u, 255u, 
-	189u, 255u, 161u, 186u, 129u, 154u, 166u, 255u, 
-	191u, 255u, 130u, 135u, 138u, 143u, 146u, 151u, 
-	154u, 156u, 144u, 146u, 157u, 160u, 170u, 175u, 
-	161u, 169u, 128u, 129u, 130u, 131u, 133u, 138u, 
-	139u, 140u, 141u, 142u, 143u, 144u, 145u, 146u, 
-	160u, 164u, 168u, 128u, 139u, 141u, 166u, 168u, 
-	186u, 188u, 189u, 191u, 255u, 142u, 143u, 158u, 
-	255u, 187u, 255u, 128u, 180u, 128u, 156u, 160u, 
-	255u, 145u, 255u, 128u, 158u, 176u, 255u, 139u, 
-	255u, 128u, 157u, 160u, 255u, 144u, 132u, 135u, 
-	150u, 255u, 158u, 255u, 136u, 188u, 191u, 128u, 
-	133u, 138u, 181u, 183u, 184u, 128u, 149u, 160u, 
-	185u, 128u, 131u, 133u, 134u, 140u, 147u, 149u, 
-	151u, 153u, 179u, 128u, 141u, 144u, 145u, 129u, 
-	140u, 175u, 255u, 163u, 255u, 144u, 145u, 146u, 
-	147u, 148u, 149u, 154u, 155u, 156u, 157u, 158u, 
-	159u, 150u, 153u, 149u, 157u, 173u, 186u, 188u, 
-	160u, 161u, 163u, 164u, 167u, 168u, 132u, 134u, 
-	149u, 157u, 186u, 139u, 140u, 191u, 255u, 134u, 
-	128u, 132u, 138u, 144u, 146u, 255u, 166u, 167u, 
-	129u, 155u, 187u, 149u, 181u, 143u, 175u, 137u, 
-	169u, 131u, 140u, 255u, 128u, 129u, 255u, 155u, 
-	156u, 255u, 151u, 255u, 160u, 168u, 161u, 167u, 
-	33u, 45u, 47u, 61u, 63u, 98u, 99u, 101u, 
-	103u, 105u, 109u, 110u, 111u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 47u, 95u, 44u, 58u, 64u, 
-	90u, 97u, 122u, 170u, 181u, 186u, 128u, 150u, 
-	152u, 182u, 184u, 255u, 192u, 255u, 128u, 255u, 
-	173u, 130u, 133u, 146u, 159u, 165u, 171u, 175u, 
-	255u, 133u, 176u, 180u, 182u, 183u, 186u, 189u, 
-	134u, 140u, 136u, 138u, 142u, 161u, 163u, 255u, 
-	182u, 130u, 137u, 164u, 176u, 151u, 152u, 154u, 
-	160u, 190u, 136u, 175u, 192u, 255u, 135u, 129u, 
-	130u, 132u, 133u, 144u, 170u, 176u, 178u, 144u, 
-	154u, 161u, 191u, 128u, 151u, 153u, 158u, 174u, 
-	255u, 148u, 157u, 160u, 169u, 172u, 176u, 185u, 
-	189u, 190u, 192u, 255u, 144u, 191u, 141u, 255u, 
-	178u, 255u, 186u, 138u, 170u, 180u, 181u, 164u, 
-	165u, 166u, 167u, 168u, 169u, 170u, 171u, 172u, 
-	173u, 174u, 175u, 176u, 177u, 178u, 179u, 180u, 
-	181u, 182u, 183u, 184u, 185u, 186u, 187u, 188u, 
-	189u, 190u, 129u, 185u, 189u, 255u, 141u, 143u, 
-	145u, 151u, 164u, 176u, 179u, 186u, 192u, 255u, 
-	178u, 129u, 131u, 133u, 140u, 143u, 144u, 147u, 
-	168u, 170u, 176u, 182u, 185u, 189u, 255u, 141u, 
-	158u, 133u, 134u, 137u, 138u, 143u, 150u, 152u, 
-	155u, 164u, 175u, 178u, 255u, 129u, 131u, 133u, 
-	138u, 143u, 144u, 147u, 168u, 170u, 176u, 178u, 
-	179u, 181u, 182u, 184u, 185u, 190u, 255u, 157u, 
-	131u, 134u, 137u, 138u, 141u, 144u, 146u, 152u, 
-	159u, 175u, 182u, 255u, 129u, 131u, 133u, 141u, 
-	143u, 145u, 147u, 168u, 170u, 176u, 178u, 179u, 
-	181u, 185u, 189u, 255u, 134u, 138u, 141u, 143u, 
-	145u, 159u, 164u, 255u, 129u, 131u, 133u, 140u, 
-	143u, 144u, 147u, 168u, 170u, 176u, 178u, 179u, 
-	181u, 185u, 189u, 191u, 177u, 128u, 132u, 135u, 
-	136u, 139u, 140u, 150u, 151u, 156u, 157u, 159u, 
-	163u, 156u, 130u, 131u, 133u, 138u, 142u, 144u, 
-	146u, 149u, 153u, 154u, 158u, 159u, 163u, 164u, 
-	168u, 170u, 174u, 185u, 190u, 191u, 144u, 151u, 
-	128u, 130u, 134u, 136u, 138u, 140u, 129u, 131u, 
-	133u, 140u, 142u, 144u, 146u, 168u, 170u, 179u, 
-	181u, 185u, 189u, 255u, 133u, 137u, 151u, 141u, 
-	148u, 154u, 159u, 164u, 255u, 130u, 131u, 133u, 
-	140u, 142u, 144u, 146u, 168u, 170u, 179u, 181u, 
-	185u, 189u, 191u, 158u, 128u, 132u, 134u, 136u, 
-	138u, 140u, 149u, 150u, 160u, 163u, 130u, 131u, 
-	133u, 140u, 142u, 144u, 146u, 168u, 170u, 185u, 
-	189u, 255u, 133u, 137u, 141u, 150u, 152u, 159u, 
-	164u, 185u, 192u, 255u, 189u, 130u, 131u, 133u, 
+	184u, 185u, 186u, 187u, 188u, 189u, 190u, 129u, 
+	185u, 189u, 191u, 144u, 128u, 140u, 152u, 163u, 
+	177u, 178u, 187u, 191u, 178u, 129u, 131u, 133u, 
+	140u, 143u, 144u, 147u, 168u, 170u, 176u, 182u, 
+	185u, 189u, 191u, 142u, 151u, 128u, 132u, 135u, 
+	136u, 139u, 140u, 156u, 157u, 159u, 163u, 176u, 
+	177u, 129u, 131u, 133u, 138u, 143u, 144u, 147u, 
+	168u, 170u, 176u, 178u, 179u, 181u, 182u, 184u, 
+	185u, 190u, 191u, 145u, 158u, 128u, 130u, 135u, 
+	136u, 139u, 140u, 153u, 156u, 176u, 181u, 129u, 
+	131u, 133u, 141u, 143u, 145u, 147u, 168u, 170u, 
+	176u, 178u, 179u, 181u, 185u, 189u, 191u, 144u, 
+	128u, 133u, 135u, 137u, 139u, 140u, 160u, 163u, 
+	129u, 131u, 133u, 140u, 143u, 144u, 147u, 168u, 
+	170u, 176u, 178u, 179u, 181u, 185u, 189u, 191u, 
+	177u, 128u, 132u, 135u, 136u, 139u, 140u, 150u, 
+	151u, 156u, 157u, 159u, 163u, 156u, 130u, 131u, 
+	133u, 138u, 142u, 144u, 146u, 149u, 153u, 154u, 
+	158u, 159u, 163u, 164u, 168u, 170u, 174u, 185u, 
+	190u, 191u, 144u, 151u, 128u, 130u, 134u, 136u, 
+	138u, 140u, 129u, 131u, 133u, 140u, 142u, 144u, 
+	146u, 168u, 170u, 179u, 181u, 185u, 189u, 191u, 
+	128u, 132u, 134u, 136u, 138u, 140u, 149u, 150u, 
+	152u, 153u, 160u, 163u, 130u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
+	189u, 191u, 158u, 128u, 132u, 134u, 136u, 138u, 
+	140u, 149u, 150u, 160u, 163u, 130u, 131u, 133u, 
+	140u, 142u, 144u, 146u, 168u, 170u, 185u, 189u, 
+	191u, 151u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	160u, 163u, 186u, 191u, 189u, 130u, 131u, 133u, 
 	150u, 154u, 177u, 179u, 187u, 150u, 128u, 134u, 
 	143u, 148u, 152u, 159u, 178u, 179u, 129u, 186u, 
 	141u, 128u, 134u, 132u, 138u, 141u, 165u, 167u, 
@@ -481,261 +337,265 @@ static const unsigned char _StdTok_trans_keys[] = {
 	141u, 142u, 143u, 144u, 153u, 154u, 155u, 156u, 
 	157u, 158u, 159u, 160u, 161u, 162u, 164u, 165u, 
 	166u, 167u, 168u, 172u, 173u, 174u, 176u, 177u, 
-	180u, 181u, 182u, 184u, 188u, 189u, 190u, 191u, 
-	132u, 136u, 145u, 152u, 185u, 187u, 184u, 128u, 
-	182u, 187u, 191u, 144u, 162u, 165u, 168u, 174u, 
-	255u, 135u, 141u, 143u, 159u, 187u, 134u, 143u, 
-	189u, 255u, 154u, 158u, 163u, 167u, 186u, 255u, 
-	137u, 151u, 153u, 142u, 143u, 158u, 159u, 137u, 
-	177u, 142u, 143u, 182u, 183u, 191u, 255u, 128u, 
-	130u, 133u, 136u, 150u, 152u, 255u, 145u, 150u, 
-	151u, 155u, 158u, 160u, 255u, 128u, 143u, 160u, 
-	255u, 181u, 255u, 129u, 255u, 173u, 174u, 183u, 
-	255u, 129u, 154u, 160u, 255u, 171u, 173u, 177u, 
-	255u, 128u, 140u, 142u, 147u, 160u, 179u, 128u, 
-	147u, 160u, 172u, 174u, 176u, 178u, 179u, 128u, 
-	179u, 182u, 255u, 137u, 150u, 152u, 155u, 157u, 
-	255u, 160u, 255u, 184u, 255u, 128u, 170u, 128u, 
-	156u, 160u, 171u, 176u, 184u, 144u, 173u, 176u, 
-	180u, 128u, 169u, 176u, 255u, 138u, 255u, 128u, 
-	155u, 128u, 179u, 181u, 255u, 132u, 140u, 255u, 
+	188u, 189u, 190u, 191u, 132u, 152u, 180u, 182u, 
+	184u, 187u, 184u, 128u, 182u, 187u, 191u, 144u, 
+	162u, 165u, 168u, 174u, 191u, 142u, 128u, 134u, 
+	160u, 191u, 188u, 128u, 133u, 144u, 186u, 128u, 
+	153u, 159u, 191u, 128u, 162u, 168u, 191u, 128u, 
+	185u, 152u, 128u, 136u, 138u, 141u, 144u, 150u, 
+	154u, 157u, 160u, 191u, 128u, 136u, 138u, 141u, 
+	144u, 176u, 178u, 181u, 184u, 190u, 128u, 130u, 
+	133u, 136u, 150u, 152u, 191u, 128u, 144u, 146u, 
+	149u, 152u, 191u, 159u, 128u, 154u, 128u, 143u, 
+	160u, 191u, 128u, 180u, 129u, 191u, 128u, 172u, 
+	175u, 182u, 129u, 154u, 160u, 191u, 128u, 170u, 
+	174u, 176u, 128u, 140u, 142u, 147u, 160u, 179u, 
+	128u, 147u, 160u, 172u, 174u, 176u, 178u, 179u, 
+	128u, 179u, 182u, 191u, 151u, 156u, 128u, 136u, 
+	160u, 191u, 128u, 183u, 128u, 170u, 128u, 156u, 
+	160u, 171u, 176u, 184u, 144u, 173u, 176u, 180u, 
+	128u, 169u, 176u, 191u, 128u, 137u, 128u, 155u, 
+	128u, 179u, 181u, 191u, 128u, 131u, 133u, 139u, 
 	128u, 169u, 174u, 175u, 128u, 181u, 141u, 143u, 
-	154u, 189u, 150u, 151u, 158u, 159u, 152u, 154u, 
-	156u, 158u, 134u, 135u, 142u, 143u, 190u, 255u, 
-	190u, 128u, 180u, 182u, 188u, 130u, 132u, 134u, 
-	140u, 144u, 147u, 150u, 155u, 160u, 172u, 178u, 
-	180u, 182u, 188u, 129u, 130u, 132u, 133u, 134u, 
-	146u, 147u, 176u, 177u, 178u, 179u, 180u, 181u, 
-	182u, 183u, 184u, 177u, 191u, 144u, 148u, 130u, 
-	135u, 149u, 164u, 166u, 168u, 138u, 147u, 153u, 
-	157u, 170u, 173u, 175u, 185u, 188u, 191u, 142u, 
-	133u, 137u, 160u, 255u, 137u, 255u, 182u, 255u, 
-	170u, 255u, 128u, 174u, 176u, 255u, 159u, 176u, 
-	190u, 255u, 165u, 255u, 128u, 165u, 176u, 255u, 
-	166u, 174u, 176u, 255u, 128u, 150u, 160u, 166u, 
-	168u, 174u, 176u, 182u, 184u, 190u, 128u, 134u, 
-	136u, 142u, 144u, 150u, 152u, 158u, 160u, 191u, 
-	175u, 128u, 129u, 130u, 131u, 132u, 133u, 134u, 
-	135u, 144u, 145u, 255u, 133u, 135u, 161u, 169u, 
-	177u, 181u, 184u, 188u, 160u, 151u, 156u, 187u, 
-	192u, 255u, 133u, 173u, 177u, 255u, 143u, 159u, 
-	184u, 255u, 176u, 191u, 182u, 183u, 184u, 182u, 
-	255u, 191u, 192u, 255u, 132u, 255u, 128u, 146u, 
-	148u, 152u, 153u, 154u, 156u, 157u, 158u, 159u, 
-	160u, 161u, 162u, 163u, 164u, 165u, 168u, 169u, 
-	176u, 129u, 145u, 149u, 151u, 177u, 255u, 141u, 
-	255u, 141u, 143u, 160u, 169u, 172u, 255u, 191u, 
-	128u, 159u, 162u, 174u, 128u, 151u, 151u, 159u, 
-	162u, 255u, 137u, 138u, 141u, 255u, 187u, 255u, 
-	130u, 134u, 139u, 168u, 255u, 128u, 179u, 138u, 
-	170u, 176u, 255u, 147u, 255u, 128u, 182u, 128u, 
-	141u, 158u, 159u, 255u, 164u, 255u, 164u, 168u, 
+	154u, 189u, 128u, 149u, 152u, 157u, 160u, 191u, 
+	153u, 155u, 157u, 128u, 133u, 136u, 141u, 144u, 
+	151u, 159u, 189u, 190u, 128u, 180u, 182u, 188u, 
+	130u, 132u, 134u, 140u, 144u, 147u, 150u, 155u, 
+	160u, 172u, 178u, 180u, 182u, 188u, 129u, 130u, 
+	132u, 133u, 134u, 146u, 147u, 176u, 177u, 178u, 
+	179u, 180u, 181u, 182u, 183u, 184u, 177u, 191u, 
+	144u, 148u, 130u, 135u, 149u, 164u, 166u, 168u, 
+	138u, 147u, 153u, 157u, 170u, 173u, 175u, 185u, 
+	188u, 191u, 142u, 133u, 137u, 160u, 191u, 128u, 
+	136u, 182u, 191u, 128u, 169u, 128u, 174u, 176u, 
+	191u, 128u, 158u, 160u, 175u, 177u, 189u, 128u, 
+	164u, 128u, 165u, 176u, 191u, 175u, 128u, 165u, 
+	128u, 150u, 160u, 166u, 168u, 174u, 176u, 182u, 
+	184u, 190u, 128u, 134u, 136u, 142u, 144u, 150u, 
+	152u, 158u, 160u, 191u, 175u, 128u, 129u, 130u, 
+	131u, 132u, 133u, 134u, 135u, 144u, 191u, 133u, 
+	135u, 161u, 169u, 177u, 181u, 184u, 188u, 128u, 
+	150u, 157u, 159u, 161u, 191u, 128u, 186u, 188u, 
+	191u, 133u, 173u, 177u, 191u, 128u, 142u, 160u, 
+	183u, 176u, 191u, 182u, 128u, 181u, 184u, 191u, 
+	128u, 191u, 191u, 128u, 190u, 128u, 131u, 146u, 
+	152u, 153u, 154u, 156u, 158u, 159u, 160u, 161u, 
+	163u, 164u, 165u, 168u, 169u, 128u, 145u, 148u, 
+	151u, 157u, 162u, 176u, 191u, 128u, 140u, 128u, 
+	140u, 144u, 159u, 170u, 171u, 191u, 128u, 159u, 
+	162u, 174u, 128u, 151u, 151u, 159u, 162u, 191u, 
+	128u, 136u, 139u, 140u, 187u, 191u, 128u, 129u, 
+	131u, 133u, 135u, 138u, 140u, 167u, 128u, 179u, 
+	138u, 170u, 176u, 191u, 128u, 146u, 128u, 182u, 
+	128u, 141u, 158u, 128u, 157u, 128u, 163u, 168u, 
 	169u, 171u, 172u, 173u, 174u, 175u, 180u, 181u, 
 	182u, 183u, 185u, 186u, 187u, 188u, 189u, 190u, 
-	191u, 165u, 179u, 174u, 175u, 171u, 175u, 154u, 
-	255u, 190u, 128u, 134u, 147u, 151u, 157u, 168u, 
-	170u, 182u, 184u, 188u, 128u, 129u, 131u, 132u, 
-	134u, 255u, 147u, 255u, 190u, 255u, 144u, 255u, 
-	144u, 145u, 136u, 175u, 188u, 255u, 176u, 180u, 
-	182u, 255u, 189u, 255u, 161u, 186u, 129u, 154u, 
-	166u, 255u, 191u, 255u, 130u, 135u, 138u, 143u, 
-	146u, 151u, 154u, 156u, 144u, 146u, 157u, 160u, 
-	170u, 175u, 161u, 169u, 128u, 129u, 130u, 131u, 
-	133u, 138u, 139u, 140u, 141u, 142u, 143u, 144u, 
-	145u, 146u, 160u, 164u, 168u, 128u, 139u, 141u, 
-	166u, 168u, 186u, 188u, 189u, 191u, 255u, 142u, 
-	143u, 158u, 255u, 187u, 255u, 128u, 180u, 128u, 
-	156u, 160u, 255u, 145u, 255u, 128u, 158u, 176u, 
-	255u, 139u, 255u, 128u, 157u, 160u, 255u, 144u, 
-	132u, 135u, 150u, 255u, 158u, 255u, 136u, 188u, 
-	191u, 128u, 133u, 138u, 181u, 183u, 184u, 128u, 
-	149u, 160u, 185u, 128u, 131u, 133u, 134u, 140u, 
-	147u, 149u, 151u, 153u, 179u, 128u, 141u, 144u, 
-	145u, 129u, 140u, 175u, 255u, 163u, 255u, 144u, 
-	145u, 146u, 147u, 148u, 149u, 154u, 155u, 156u, 
-	157u, 158u, 159u, 150u, 153u, 149u, 157u, 173u, 
-	186u, 188u, 160u, 161u, 163u, 164u, 167u, 168u, 
-	132u, 134u, 149u, 157u, 186u, 139u, 140u, 191u, 
-	255u, 134u, 128u, 132u, 138u, 144u, 146u, 255u, 
-	166u, 167u, 129u, 155u, 187u, 149u, 181u, 143u, 
-	175u, 137u, 169u, 131u, 140u, 255u, 128u, 129u, 
-	255u, 155u, 156u, 255u, 151u, 255u, 160u, 168u, 
-	161u, 167u, 170u, 181u, 186u, 128u, 150u, 152u, 
-	182u, 184u, 255u, 192u, 255u, 128u, 255u, 173u, 
-	130u, 133u, 146u, 159u, 165u, 171u, 175u, 255u, 
-	133u, 176u, 180u, 182u, 183u, 186u, 189u, 134u, 
-	140u, 136u, 138u, 142u, 161u, 163u, 255u, 182u, 
-	130u, 137u, 164u, 176u, 151u, 152u, 154u, 160u, 
-	190u, 136u, 175u, 192u, 255u, 135u, 129u, 130u, 
-	132u, 133u, 144u, 170u, 176u, 178u, 144u, 154u, 
-	161u, 191u, 128u, 151u, 153u, 158u, 174u, 255u, 
-	148u, 157u, 160u, 169u, 172u, 176u, 185u, 189u, 
-	190u, 192u, 255u, 144u, 191u, 141u, 255u, 178u, 
-	255u, 186u, 138u, 170u, 180u, 181u, 164u, 165u, 
-	166u, 167u, 168u, 169u, 170u, 171u, 172u, 173u, 
-	174u, 175u, 176u, 177u, 178u, 179u, 180u, 181u, 
-	182u, 183u, 184u, 185u, 186u, 187u, 188u, 189u, 
-	190u, 129u, 185u, 189u, 255u, 141u, 143u, 145u, 
-	151u, 164u, 176u, 179u, 186u, 192u, 255u, 178u, 
-	129u, 131u, 133u, 140u, 143u, 144u, 147u, 168u, 
-	170u, 176u, 182u, 185u, 189u, 255u, 141u, 158u, 
-	133u, 134u, 137u, 138u, 143u, 150u, 152u, 155u, 
-	164u, 175u, 178u, 255u, 129u, 131u, 133u, 138u, 
-	143u, 144u, 147u, 168u, 170u, 176u, 178u, 179u, 
-	181u, 182u, 184u, 185u, 190u, 255u, 157u, 131u, 
-	134u, 137u, 138u, 141u, 144u, 146u, 152u, 159u, 
-	175u, 182u, 255u, 129u, 131u, 133u, 141u, 143u, 
-	145u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
-	185u, 189u, 255u, 134u, 138u, 141u, 143u, 145u, 
-	159u, 164u, 255u, 129u, 131u, 133u, 140u, 143u, 
-	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
-	185u, 189u, 191u, 177u, 128u, 132u, 135u, 136u, 
-	139u, 140u, 150u, 151u, 156u, 157u, 159u, 163u, 
-	156u, 130u, 131u, 133u, 138u, 142u, 144u, 146u, 
-	149u, 153u, 154u, 158u, 159u, 163u, 164u, 168u, 
-	170u, 174u, 185u, 190u, 191u, 144u, 151u, 128u, 
-	130u, 134u, 136u, 138u, 140u, 129u, 131u, 133u, 
-	140u, 142u, 144u, 146u, 168u, 170u, 179u, 181u, 
-	185u, 189u, 255u, 133u, 137u, 151u, 141u, 148u, 
-	154u, 159u, 164u, 255u, 130u, 131u, 133u, 140u, 
-	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
-	189u, 191u, 158u, 128u, 132u, 134u, 136u, 138u, 
-	140u, 149u, 150u, 160u, 163u, 130u, 131u, 133u, 
-	140u, 142u, 144u, 146u, 168u, 170u, 185u, 189u, 
-	255u, 133u, 137u, 141u, 150u, 152u, 159u, 164u, 
-	185u, 192u, 255u, 189u, 130u, 131u, 133u, 150u, 
-	154u, 177u, 179u, 187u, 150u, 128u, 134u, 143u, 
-	148u, 152u, 159u, 178u, 179u, 129u, 186u, 141u, 
-	128u, 134u, 132u, 138u, 141u, 165u, 167u, 129u, 
-	130u, 135u, 136u, 148u, 151u, 153u, 159u, 161u, 
-	163u, 170u, 171u, 173u, 185u, 187u, 189u, 134u, 
-	141u, 128u, 132u, 156u, 157u, 128u, 128u, 135u, 
-	137u, 172u, 177u, 191u, 128u, 129u, 136u, 139u, 
-	144u, 151u, 153u, 188u, 128u, 129u, 130u, 131u, 
-	133u, 134u, 135u, 137u, 138u, 139u, 140u, 141u, 
-	142u, 143u, 144u, 153u, 154u, 155u, 156u, 157u, 
-	158u, 159u, 160u, 161u, 162u, 164u, 165u, 166u, 
-	167u, 168u, 172u, 173u, 174u, 176u, 177u, 180u, 
-	181u, 182u, 184u, 188u, 189u, 190u, 191u, 132u, 
-	136u, 145u, 152u, 185u, 187u, 184u, 128u, 182u, 
-	187u, 191u, 144u, 162u, 165u, 168u, 174u, 255u, 
-	135u, 141u, 143u, 159u, 187u, 134u, 143u, 189u, 
-	255u, 154u, 158u, 163u, 167u, 186u, 255u, 137u, 
-	151u, 153u, 142u, 143u, 158u, 159u, 137u, 177u, 
-	142u, 143u, 182u, 183u, 191u, 255u, 128u, 130u, 
-	133u, 136u, 150u, 152u, 255u, 145u, 150u, 151u, 
-	155u, 158u, 160u, 255u, 128u, 143u, 160u, 255u, 
-	181u, 255u, 129u, 255u, 173u, 174u, 183u, 255u, 
-	129u, 154u, 160u, 255u, 171u, 173u, 177u, 255u, 
+	191u, 164u, 179u, 128u, 173u, 176u, 191u, 128u, 
+	170u, 176u, 191u, 128u, 153u, 190u, 128u, 134u, 
+	147u, 151u, 157u, 168u, 170u, 182u, 184u, 188u, 
+	128u, 129u, 131u, 132u, 134u, 191u, 147u, 191u, 
+	128u, 189u, 128u, 143u, 146u, 191u, 128u, 135u, 
+	176u, 187u, 176u, 180u, 182u, 191u, 128u, 188u, 
+	161u, 186u, 129u, 154u, 166u, 191u, 128u, 190u, 
+	130u, 135u, 138u, 143u, 146u, 151u, 154u, 156u, 
+	144u, 146u, 157u, 170u, 175u, 160u, 169u, 128u, 
+	129u, 130u, 131u, 133u, 138u, 139u, 140u, 141u, 
+	142u, 143u, 146u, 160u, 164u, 168u, 144u, 145u, 
+	191u, 128u, 139u, 141u, 166u, 168u, 186u, 188u, 
+	189u, 128u, 141u, 144u, 157u, 128u, 186u, 128u, 
+	156u, 160u, 191u, 128u, 144u, 128u, 158u, 176u, 
+	191u, 128u, 138u, 128u, 157u, 160u, 191u, 128u, 
+	131u, 136u, 143u, 145u, 149u, 128u, 157u, 136u, 
+	188u, 191u, 128u, 133u, 138u, 181u, 183u, 184u, 
+	128u, 149u, 160u, 185u, 128u, 131u, 133u, 134u, 
+	140u, 147u, 149u, 151u, 153u, 179u, 141u, 144u, 
+	145u, 128u, 140u, 128u, 174u, 128u, 162u, 145u, 
+	146u, 147u, 148u, 149u, 154u, 155u, 156u, 157u, 
+	158u, 159u, 144u, 153u, 128u, 148u, 150u, 191u, 
+	162u, 187u, 128u, 156u, 158u, 159u, 165u, 166u, 
+	169u, 172u, 174u, 185u, 189u, 191u, 128u, 131u, 
+	133u, 191u, 128u, 133u, 135u, 138u, 141u, 148u, 
+	150u, 156u, 158u, 185u, 187u, 190u, 134u, 128u, 
+	132u, 138u, 144u, 146u, 191u, 128u, 165u, 168u, 
+	191u, 128u, 130u, 154u, 156u, 186u, 188u, 191u, 
+	128u, 148u, 150u, 180u, 182u, 191u, 128u, 142u, 
+	144u, 174u, 176u, 191u, 128u, 136u, 138u, 168u, 
+	170u, 191u, 128u, 130u, 132u, 139u, 155u, 128u, 
+	154u, 128u, 150u, 168u, 160u, 167u, 33u, 45u, 
+	47u, 61u, 63u, 98u, 99u, 101u, 103u, 105u, 
+	109u, 110u, 111u, 35u, 39u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 47u, 95u, 44u, 58u, 64u, 90u, 97u, 
+	122u, 170u, 181u, 186u, 128u, 150u, 152u, 182u, 
+	184u, 191u, 128u, 191u, 172u, 174u, 128u, 129u, 
+	134u, 145u, 160u, 164u, 133u, 176u, 180u, 182u, 
+	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
+	161u, 163u, 191u, 128u, 181u, 183u, 191u, 128u, 
+	129u, 138u, 191u, 128u, 163u, 177u, 191u, 153u, 
+	128u, 150u, 161u, 191u, 191u, 128u, 135u, 176u, 
+	189u, 135u, 129u, 130u, 132u, 133u, 144u, 170u, 
+	176u, 178u, 144u, 154u, 161u, 191u, 128u, 151u, 
+	153u, 158u, 174u, 191u, 191u, 128u, 147u, 149u, 
+	156u, 161u, 168u, 173u, 175u, 186u, 188u, 144u, 
+	191u, 141u, 191u, 128u, 177u, 186u, 138u, 170u, 
+	180u, 181u, 164u, 165u, 166u, 167u, 168u, 169u, 
+	170u, 171u, 172u, 173u, 174u, 175u, 176u, 177u, 
+	178u, 179u, 180u, 181u, 182u, 183u, 184u, 185u, 
+	186u, 187u, 188u, 189u, 190u, 129u, 185u, 189u, 
+	191u, 144u, 128u, 140u, 152u, 163u, 177u, 178u, 
+	187u, 191u, 178u, 129u, 131u, 133u, 140u, 143u, 
+	144u, 147u, 168u, 170u, 176u, 182u, 185u, 189u, 
+	191u, 142u, 151u, 128u, 132u, 135u, 136u, 139u, 
+	140u, 156u, 157u, 159u, 163u, 176u, 177u, 129u, 
+	131u, 133u, 138u, 143u, 144u, 147u, 168u, 170u, 
+	176u, 178u, 179u, 181u, 182u, 184u, 185u, 190u, 
+	191u, 145u, 158u, 128u, 130u, 135u, 136u, 139u, 
+	140u, 153u, 156u, 176u, 181u, 129u, 131u, 133u, 
+	141u, 143u, 145u, 147u, 168u, 170u, 176u, 178u, 
+	179u, 181u, 185u, 189u, 191u, 144u, 128u, 133u, 
+	135u, 137u, 139u, 140u, 160u, 163u, 129u, 131u, 
+	133u, 140u, 143u, 144u, 147u, 168u, 170u, 176u, 
+	178u, 179u, 181u, 185u, 189u, 191u, 177u, 128u, 
+	132u, 135u, 136u, 139u, 140u, 150u, 151u, 156u, 
+	157u, 159u, 163u, 156u, 130u, 131u, 133u, 138u, 
+	142u, 144u, 146u, 149u, 153u, 154u, 158u, 159u, 
+	163u, 164u, 168u, 170u, 174u, 185u, 190u, 191u, 
+	144u, 151u, 128u, 130u, 134u, 136u, 138u, 140u, 
+	129u, 131u, 133u, 140u, 142u, 144u, 146u, 168u, 
+	170u, 179u, 181u, 185u, 189u, 191u, 128u, 132u, 
+	134u, 136u, 138u, 140u, 149u, 150u, 152u, 153u, 
+	160u, 163u, 130u, 131u, 133u, 140u, 142u, 144u, 
+	146u, 168u, 170u, 179u, 181u, 185u, 189u, 191u, 
+	158u, 128u, 132u, 134u, 136u, 138u, 140u, 149u, 
+	150u, 160u, 163u, 130u, 131u, 133u, 140u, 142u, 
+	144u, 146u, 168u, 170u, 185u, 189u, 191u, 151u, 
+	128u, 132u, 134u, 136u, 138u, 140u, 160u, 163u, 
+	186u, 191u, 189u, 130u, 131u, 133u, 150u, 154u, 
+	177u, 179u, 187u, 150u, 128u, 134u, 143u, 148u, 
+	152u, 159u, 178u, 179u, 129u, 186u, 141u, 128u, 
+	134u, 132u, 138u, 141u, 165u, 167u, 129u, 130u, 
+	135u, 136u, 148u, 151u, 153u, 159u, 161u, 163u, 
+	170u, 171u, 173u, 185u, 187u, 189u, 134u, 141u, 
+	128u, 132u, 156u, 157u, 128u, 128u, 135u, 137u, 
+	172u, 177u, 191u, 128u, 129u, 136u, 139u, 144u, 
+	151u, 153u, 188u, 128u, 129u, 130u, 131u, 133u, 
+	134u, 135u, 137u, 138u, 139u, 140u, 141u, 142u, 
+	143u, 144u, 153u, 154u, 155u, 156u, 157u, 158u, 
+	159u, 160u, 161u, 162u, 164u, 165u, 166u, 167u, 
+	168u, 172u, 173u, 174u, 176u, 177u, 188u, 189u, 
+	190u, 191u, 132u, 152u, 180u, 182u, 184u, 187u, 
+	184u, 128u, 182u, 187u, 191u, 144u, 162u, 165u, 
+	168u, 174u, 191u, 142u, 128u, 134u, 160u, 191u, 
+	188u, 128u, 133u, 144u, 186u, 128u, 153u, 159u, 
+	191u, 128u, 162u, 168u, 191u, 128u, 185u, 152u, 
+	128u, 136u, 138u, 141u, 144u, 150u, 154u, 157u, 
+	160u, 191u, 128u, 136u, 138u, 141u, 144u, 176u, 
+	178u, 181u, 184u, 190u, 128u, 130u, 133u, 136u, 
+	150u, 152u, 191u, 128u, 144u, 146u, 149u, 152u, 
+	191u, 159u, 128u, 154u, 128u, 143u, 160u, 191u, 
+	128u, 180u, 129u, 191u, 128u, 172u, 175u, 182u, 
+	129u, 154u, 160u, 191u, 128u, 170u, 174u, 176u, 
 	128u, 140u, 142u, 147u, 160u, 179u, 128u, 147u, 
 	160u, 172u, 174u, 176u, 178u, 179u, 128u, 179u, 
-	182u, 255u, 137u, 150u, 152u, 155u, 157u, 255u, 
-	160u, 255u, 184u, 255u, 128u, 170u, 128u, 156u, 
-	160u, 171u, 176u, 184u, 144u, 173u, 176u, 180u, 
-	128u, 169u, 176u, 255u, 138u, 255u, 128u, 155u, 
-	128u, 179u, 181u, 255u, 132u, 140u, 255u, 128u, 
-	169u, 174u, 175u, 128u, 181u, 141u, 143u, 154u, 
-	189u, 150u, 151u, 158u, 159u, 152u, 154u, 156u, 
-	158u, 134u, 135u, 142u, 143u, 190u, 255u, 190u, 
-	128u, 180u, 182u, 188u, 130u, 132u, 134u, 140u, 
-	144u, 147u, 150u, 155u, 160u, 172u, 178u, 180u, 
-	182u, 188u, 129u, 130u, 132u, 133u, 134u, 146u, 
-	147u, 176u, 177u, 178u, 179u, 180u, 181u, 182u, 
-	183u, 184u, 177u, 191u, 144u, 148u, 130u, 135u, 
-	149u, 164u, 166u, 168u, 138u, 147u, 153u, 157u, 
-	170u, 173u, 175u, 185u, 188u, 191u, 142u, 133u, 
-	137u, 160u, 255u, 137u, 255u, 182u, 255u, 170u, 
-	255u, 128u, 174u, 176u, 255u, 159u, 176u, 190u, 
-	255u, 165u, 255u, 128u, 165u, 176u, 255u, 166u, 
-	174u, 176u, 255u, 128u, 150u, 160u, 166u, 168u, 
-	174u, 176u, 182u, 184u, 190u, 128u, 134u, 136u, 
-	142u, 144u, 150u, 152u, 158u, 160u, 191u, 175u, 
-	128u, 129u, 130u, 131u, 132u, 133u, 134u, 135u, 
-	144u, 145u, 255u, 133u, 135u, 161u, 169u, 177u, 
-	181u, 184u, 188u, 160u, 151u, 156u, 187u, 192u, 
-	255u, 133u, 173u, 177u, 255u, 143u, 159u, 184u, 
-	255u, 176u, 191u, 182u, 183u, 184u, 182u, 255u, 
-	191u, 192u, 255u, 132u, 255u, 128u, 146u, 148u, 
-	152u, 153u, 154u, 156u, 157u, 158u, 159u, 160u, 
-	161u, 162u, 163u, 164u, 165u, 168u, 169u, 176u, 
-	129u, 145u, 149u, 151u, 177u, 255u, 141u, 255u, 
-	141u, 143u, 160u, 169u, 172u, 255u, 191u, 128u, 
-	159u, 162u, 174u, 128u, 151u, 151u, 159u, 162u, 
-	255u, 137u, 138u, 141u, 255u, 187u, 255u, 130u, 
-	134u, 139u, 168u, 255u, 128u, 179u, 138u, 170u, 
-	176u, 255u, 147u, 255u, 128u, 182u, 128u, 141u, 
-	158u, 159u, 255u, 164u, 255u, 164u, 168u, 169u, 
-	171u, 172u, 173u, 174u, 175u, 180u, 181u, 182u, 
-	183u, 185u, 186u, 187u, 188u, 189u, 190u, 191u, 
-	165u, 179u, 174u, 175u, 171u, 175u, 154u, 255u, 
-	190u, 128u, 134u, 147u, 151u, 157u, 168u, 170u, 
-	182u, 184u, 188u, 128u, 129u, 131u, 132u, 134u, 
-	255u, 147u, 255u, 190u, 255u, 144u, 255u, 144u, 
-	145u, 136u, 175u, 188u, 255u, 176u, 180u, 182u, 
-	255u, 189u, 255u, 161u, 186u, 129u, 154u, 166u, 
-	255u, 191u, 255u, 130u, 135u, 138u, 143u, 146u, 
-	151u, 154u, 156u, 144u, 146u, 157u, 160u, 170u, 
-	175u, 161u, 169u, 128u, 129u, 130u, 131u, 133u, 
-	138u, 139u, 140u, 141u, 142u, 143u, 144u, 145u, 
-	146u, 160u, 164u, 168u, 128u, 139u, 141u, 166u, 
-	168u, 186u, 188u, 189u, 191u, 255u, 142u, 143u, 
-	158u, 255u, 187u, 255u, 128u, 180u, 128u, 156u, 
-	160u, 255u, 145u, 255u, 128u, 158u, 176u, 255u, 
-	139u, 255u, 128u, 157u, 160u, 255u, 144u, 132u, 
-	135u, 150u, 255u, 158u, 255u, 136u, 188u, 191u, 
+	182u, 191u, 151u, 156u, 128u, 136u, 160u, 191u, 
+	128u, 183u, 128u, 170u, 128u, 156u, 160u, 171u, 
+	176u, 184u, 144u, 173u, 176u, 180u, 128u, 169u, 
+	176u, 191u, 128u, 137u, 128u, 155u, 128u, 179u, 
+	181u, 191u, 128u, 131u, 133u, 139u, 128u, 169u, 
+	174u, 175u, 128u, 181u, 141u, 143u, 154u, 189u, 
+	128u, 149u, 152u, 157u, 160u, 191u, 153u, 155u, 
+	157u, 128u, 133u, 136u, 141u, 144u, 151u, 159u, 
+	189u, 190u, 128u, 180u, 182u, 188u, 130u, 132u, 
+	134u, 140u, 144u, 147u, 150u, 155u, 160u, 172u, 
+	178u, 180u, 182u, 188u, 129u, 130u, 132u, 133u, 
+	134u, 146u, 147u, 176u, 177u, 178u, 179u, 180u, 
+	181u, 182u, 183u, 184u, 177u, 191u, 144u, 148u, 
+	130u, 135u, 149u, 164u, 166u, 168u, 138u, 147u, 
+	153u, 157u, 170u, 173u, 175u, 185u, 188u, 191u, 
+	142u, 133u, 137u, 160u, 191u, 128u, 136u, 182u, 
+	191u, 128u, 169u, 128u, 174u, 176u, 191u, 128u, 
+	158u, 160u, 175u, 177u, 189u, 128u, 164u, 128u, 
+	165u, 176u, 191u, 175u, 128u, 165u, 128u, 150u, 
+	160u, 166u, 168u, 174u, 176u, 182u, 184u, 190u, 
+	128u, 134u, 136u, 142u, 144u, 150u, 152u, 158u, 
+	160u, 191u, 175u, 128u, 129u, 130u, 131u, 132u, 
+	133u, 134u, 135u, 144u, 191u, 133u, 135u, 161u, 
+	169u, 177u, 181u, 184u, 188u, 128u, 150u, 157u, 
+	159u, 161u, 191u, 128u, 186u, 188u, 191u, 133u, 
+	173u, 177u, 191u, 128u, 142u, 160u, 183u, 176u, 
+	191u, 182u, 128u, 181u, 184u, 191u, 128u, 191u, 
+	191u, 128u, 190u, 128u, 131u, 146u, 152u, 153u, 
+	154u, 156u, 158u, 159u, 160u, 161u, 163u, 164u, 
+	165u, 168u, 169u, 128u, 145u, 148u, 151u, 157u, 
+	162u, 176u, 191u, 128u, 140u, 128u, 140u, 144u, 
+	159u, 170u, 171u, 191u, 128u, 159u, 162u, 174u, 
+	128u, 151u, 151u, 159u, 162u, 191u, 128u, 136u, 
+	139u, 140u, 187u, 191u, 128u, 129u, 131u, 133u, 
+	135u, 138u, 140u, 167u, 128u, 179u, 138u, 170u, 
+	176u, 191u, 128u, 146u, 128u, 182u, 128u, 141u, 
+	158u, 128u, 157u, 128u, 163u, 168u, 169u, 171u, 
+	172u, 173u, 174u, 175u, 180u, 181u, 182u, 183u, 
+	185u, 186u, 187u, 188u, 189u, 190u, 191u, 164u, 
+	179u, 128u, 173u, 176u, 191u, 128u, 170u, 176u, 
+	191u, 128u, 153u, 190u, 128u, 134u, 147u, 151u, 
+	157u, 168u, 170u, 182u, 184u, 188u, 128u, 129u, 
+	131u, 132u, 134u, 191u, 147u, 191u, 128u, 189u, 
+	128u, 143u, 146u, 191u, 128u, 135u, 176u, 187u, 
+	176u, 180u, 182u, 191u, 128u, 188u, 161u, 186u, 
+	129u, 154u, 166u, 191u, 128u, 190u, 130u, 135u, 
+	138u, 143u, 146u, 151u, 154u, 156u, 144u, 146u, 
+	157u, 170u, 175u, 160u, 169u, 128u, 129u, 130u, 
+	131u, 133u, 138u, 139u, 140u, 141u, 142u, 143u, 
+	146u, 160u, 164u, 168u, 144u, 145u, 191u, 128u, 
+	139u, 141u, 166u, 168u, 186u, 188u, 189u, 128u, 
+	141u, 144u, 157u, 128u, 186u, 128u, 156u, 160u, 
+	191u, 128u, 144u, 128u, 158u, 176u, 191u, 128u, 
+	138u, 128u, 157u, 160u, 191u, 128u, 131u, 136u, 
+	143u, 145u, 149u, 128u, 157u, 136u, 188u, 191u, 
 	128u, 133u, 138u, 181u, 183u, 184u, 128u, 149u, 
 	160u, 185u, 128u, 131u, 133u, 134u, 140u, 147u, 
-	149u, 151u, 153u, 179u, 128u, 141u, 144u, 145u, 
-	129u, 140u, 175u, 255u, 163u, 255u, 144u, 145u, 
-	146u, 147u, 148u, 149u, 154u, 155u, 156u, 157u, 
-	158u, 159u, 150u, 153u, 149u, 157u, 173u, 186u, 
-	188u, 160u, 161u, 163u, 164u, 167u, 168u, 132u, 
-	134u, 149u, 157u, 186u, 139u, 140u, 191u, 255u, 
-	134u, 128u, 132u, 138u, 144u, 146u, 255u, 166u, 
-	167u, 129u, 155u, 187u, 149u, 181u, 143u, 175u, 
-	137u, 169u, 131u, 140u, 255u, 128u, 129u, 255u, 
-	155u, 156u, 255u, 151u, 255u, 160u, 168u, 161u, 
-	167u, 33u, 45u, 47u, 61u, 63u, 98u, 99u, 
-	101u, 103u, 105u, 109u, 110u, 111u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
-	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
-	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 39u, 42u, 43u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	170u, 181u, 186u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 128u, 150u, 152u, 182u, 184u, 
-	255u, 192u, 255u, 128u, 255u, 173u, 130u, 133u, 
-	146u, 159u, 165u, 171u, 175u, 255u, 133u, 176u, 
-	180u, 182u, 183u, 186u, 189u, 134u, 140u, 136u, 
-	138u, 142u, 161u, 163u, 255u, 182u, 130u, 137u, 
-	164u, 176u, 151u, 152u, 154u, 160u, 190u, 136u, 
-	175u, 192u, 255u, 135u, 129u, 130u, 132u, 133u, 
-	144u, 170u, 176u, 178u, 144u, 154u, 161u, 191u, 
-	128u, 151u, 153u, 158u, 174u, 255u, 148u, 157u, 
-	160u, 169u, 172u, 176u, 185u, 189u, 190u, 192u, 
-	255u, 144u, 191u, 141u, 255u, 178u, 255u, 186u, 
-	138u, 170u, 180u, 181u, 164u, 165u, 166u, 167u, 
-	168u, 169u, 170u, 171u, 172u, 173u, 174u, 175u, 
-	176u, 177u, 178u, 179u, 180u, 181u, 182u, 183u, 
-	184u, 185u, 186u, 187u, 188u, 189u, 190u, 129u, 
-	185u, 189u, 255u, 141u, 143u, 145u, 151u, 164u, 
-	176u, 179u, 186u, 192u, 255u, 178u, 129u, 131u, 
+	149u, 151u, 153u, 179u, 141u, 144u, 145u, 128u, 
+	140u, 128u, 174u, 128u, 162u, 145u, 146u, 147u, 
+	148u, 149u, 154u, 155u, 156u, 157u, 158u, 159u, 
+	144u, 153u, 128u, 148u, 150u, 191u, 162u, 187u, 
+	128u, 156u, 158u, 159u, 165u, 166u, 169u, 172u, 
+	174u, 185u, 189u, 191u, 128u, 131u, 133u, 191u, 
+	128u, 133u, 135u, 138u, 141u, 148u, 150u, 156u, 
+	158u, 185u, 187u, 190u, 134u, 128u, 132u, 138u, 
+	144u, 146u, 191u, 128u, 165u, 168u, 191u, 128u, 
+	130u, 154u, 156u, 186u, 188u, 191u, 128u, 148u, 
+	150u, 180u, 182u, 191u, 128u, 142u, 144u, 174u, 
+	176u, 191u, 128u, 136u, 138u, 168u, 170u, 191u, 
+	128u, 130u, 132u, 139u, 155u, 128u, 154u, 128u, 
+	150u, 168u, 160u, 167u, 170u, 181u, 186u, 128u, 
+	150u, 152u, 182u, 184u, 191u, 128u, 191u, 172u, 
+	174u, 128u, 129u, 134u, 145u, 160u, 164u, 133u, 
+	176u, 180u, 182u, 183u, 186u, 189u, 134u, 140u, 
+	136u, 138u, 142u, 161u, 163u, 191u, 128u, 181u, 
+	183u, 191u, 128u, 129u, 138u, 191u, 128u, 163u, 
+	177u, 191u, 153u, 128u, 150u, 161u, 191u, 191u, 
+	128u, 135u, 176u, 189u, 135u, 129u, 130u, 132u, 
+	133u, 144u, 170u, 176u, 178u, 144u, 154u, 161u, 
+	191u, 128u, 151u, 153u, 158u, 174u, 191u, 191u, 
+	128u, 147u, 149u, 156u, 161u, 168u, 173u, 175u, 
+	186u, 188u, 144u, 191u, 141u, 191u, 128u, 177u, 
+	186u, 138u, 170u, 180u, 181u, 164u, 165u, 166u, 
+	167u, 168u, 169u, 170u, 171u, 172u, 173u, 174u, 
+	175u, 176u, 177u, 178u, 179u, 180u, 181u, 182u, 
+	183u, 184u, 185u, 186u, 187u, 188u, 189u, 190u, 
+	129u, 185u, 189u, 191u, 144u, 128u, 140u, 152u, 
+	163u, 177u, 178u, 187u, 191u, 178u, 129u, 131u, 
 	133u, 140u, 143u, 144u, 147u, 168u, 170u, 176u, 
-	182u, 185u, 189u, 255u, 141u, 158u, 133u, 134u, 
-	137u, 138u, 143u, 150u, 152u, 155u, 164u, 175u, 
-	178u, 255u, 129u, 131u, 133u, 138u, 143u, 144u, 
+	182u, 185u, 189u, 191u, 142u, 151u, 128u, 132u, 
+	135u, 136u, 139u, 140u, 156u, 157u, 159u, 163u, 
+	176u, 177u, 129u, 131u, 133u, 138u, 143u, 144u, 
 	147u, 168u, 170u, 176u, 178u, 179u, 181u, 182u, 
-	184u, 185u, 190u, 255u, 157u, 131u, 134u, 137u, 
-	138u, 141u, 144u, 146u, 152u, 159u, 175u, 182u, 
-	255u, 129u, 131u, 133u, 141u, 143u, 145u, 147u, 
-	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
-	255u, 134u, 138u, 141u, 143u, 145u, 159u, 164u, 
-	255u, 129u, 131u, 133u, 140u, 143u, 144u, 147u, 
+	184u, 185u, 190u, 191u, 145u, 158u, 128u, 130u, 
+	135u, 136u, 139u, 140u, 153u, 156u, 176u, 181u, 
+	129u, 131u, 133u, 141u, 143u, 145u, 147u, 168u, 
+	170u, 176u, 178u, 179u, 181u, 185u, 189u, 191u, 
+	144u, 128u, 133u, 135u, 137u, 139u, 140u, 160u, 
+	163u, 129u, 131u, 133u, 140u, 143u, 144u, 147u, 
 	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
 	191u, 177u, 128u, 132u, 135u, 136u, 139u, 140u, 
 	150u, 151u, 156u, 157u, 159u, 163u, 156u, 130u, 
@@ -744,267 +604,151 @@ static const unsigned char _StdTok_trans_keys[] = {
 	185u, 190u, 191u, 144u, 151u, 128u, 130u, 134u, 
 	136u, 138u, 140u, 129u, 131u, 133u, 140u, 142u, 
 	144u, 146u, 168u, 170u, 179u, 181u, 185u, 189u, 
-	255u, 133u, 137u, 151u, 141u, 148u, 154u, 159u, 
-	164u, 255u, 130u, 131u, 133u, 140u, 142u, 144u, 
-	146u, 168u, 170u, 179u, 181u, 185u, 189u, 191u, 
-	158u, 128u, 132u, 134u, 136u, 138u, 140u, 149u, 
-	150u, 160u, 163u, 130u, 131u, 133u, 140u, 142u, 
-	144u, 146u, 168u, 170u, 185u, 189u, 255u, 133u, 
-	137u, 141u, 150u, 152u, 159u, 164u, 185u, 192u, 
-	255u, 189u, 130u, 131u, 133u, 150u, 154u, 177u, 
-	179u, 187u, 150u, 128u, 134u, 143u, 148u, 152u, 
-	159u, 178u, 179u, 129u, 186u, 141u, 128u, 134u, 
-	132u, 138u, 141u, 165u, 167u, 129u, 130u, 135u, 
-	136u, 148u, 151u, 153u, 159u, 161u, 163u, 170u, 
-	171u, 173u, 185u, 187u, 189u, 134u, 141u, 128u, 
-	132u, 156u, 157u, 128u, 128u, 135u, 137u, 172u, 
-	177u, 191u, 128u, 129u, 136u, 139u, 144u, 151u, 
-	153u, 188u, 128u, 129u, 130u, 131u, 133u, 134u, 
-	135u, 137u, 138u, 139u, 140u, 141u, 142u, 143u, 
-	144u, 153u, 154u, 155u, 156u, 157u, 158u, 159u, 
-	160u, 161u, 162u, 164u, 165u, 166u, 167u, 168u, 
-	172u, 173u, 174u, 176u, 177u, 180u, 181u, 182u, 
-	184u, 188u, 189u, 190u, 191u, 132u, 136u, 145u, 
-	152u, 185u, 187u, 184u, 128u, 182u, 187u, 191u, 
-	144u, 162u, 165u, 168u, 174u, 255u, 135u, 141u, 
-	143u, 159u, 187u, 134u, 143u, 189u, 255u, 154u, 
-	158u, 163u, 167u, 186u, 255u, 137u, 151u, 153u, 
-	142u, 143u, 158u, 159u, 137u, 177u, 142u, 143u, 
-	182u, 183u, 191u, 255u, 128u, 130u, 133u, 136u, 
-	150u, 152u, 255u, 145u, 150u, 151u, 155u, 158u, 
-	160u, 255u, 128u, 143u, 160u, 255u, 181u, 255u, 
-	129u, 255u, 173u, 174u, 183u, 255u, 129u, 154u, 
-	160u, 255u, 171u, 173u, 177u, 255u, 128u, 140u, 
-	142u, 147u, 160u, 179u, 128u, 147u, 160u, 172u, 
-	174u, 176u, 178u, 179u, 128u, 179u, 182u, 255u, 
-	137u, 150u, 152u, 155u, 157u, 255u, 160u, 255u, 
-	184u, 255u, 128u, 170u, 128u, 156u, 160u, 171u, 
-	176u, 184u, 144u, 173u, 176u, 180u, 128u, 169u, 
-	176u, 255u, 138u, 255u, 128u, 155u, 128u, 179u, 
-	181u, 255u, 132u, 140u, 255u, 128u, 169u, 174u, 
-	175u, 128u, 181u, 141u, 143u, 154u, 189u, 150u, 
-	151u, 158u, 159u, 152u, 154u, 156u, 158u, 134u, 
-	135u, 142u, 143u, 190u, 255u, 190u, 128u, 180u, 
-	182u, 188u, 130u, 132u, 134u, 140u, 144u, 147u, 
-	150u, 155u, 160u, 172u, 178u, 180u, 182u, 188u, 
-	129u, 130u, 132u, 133u, 134u, 146u, 147u, 176u, 
-	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
-	177u, 191u, 144u, 148u, 130u, 135u, 149u, 164u, 
-	166u, 168u, 138u, 147u, 153u, 157u, 170u, 173u, 
-	175u, 185u, 188u, 191u, 142u, 133u, 137u, 160u, 
-	255u, 137u, 255u, 182u, 255u, 170u, 255u, 128u, 
-	174u, 176u, 255u, 159u, 176u, 190u, 255u, 165u, 
-	255u, 128u, 165u, 176u, 255u, 166u, 174u, 176u, 
-	255u, 128u, 150u, 160u, 166u, 168u, 174u, 176u, 
-	182u, 184u, 190u, 128u, 134u, 136u, 142u, 144u, 
-	150u, 152u, 158u, 160u, 191u, 175u, 128u, 129u, 
-	130u, 131u, 132u, 133u, 134u, 135u, 144u, 145u, 
-	255u, 133u, 135u, 161u, 169u, 177u, 181u, 184u, 
-	188u, 160u, 151u, 156u, 187u, 192u, 255u, 133u, 
-	173u, 177u, 255u, 143u, 159u, 184u, 255u, 176u, 
-	191u, 182u, 183u, 184u, 182u, 255u, 191u, 192u, 
-	255u, 132u, 255u, 128u, 146u, 148u, 152u, 153u, 
-	154u, 156u, 157u, 158u, 159u, 160u, 161u, 162u, 
-	163u, 164u, 165u, 168u, 169u, 176u, 129u, 145u, 
-	149u, 151u, 177u, 255u, 141u, 255u, 141u, 143u, 
-	160u, 169u, 172u, 255u, 191u, 128u, 159u, 162u, 
-	174u, 128u, 151u, 151u, 159u, 162u, 255u, 137u, 
-	138u, 141u, 255u, 187u, 255u, 130u, 134u, 139u, 
-	168u, 255u, 128u, 179u, 138u, 170u, 176u, 255u, 
-	147u, 255u, 128u, 182u, 128u, 141u, 158u, 159u, 
-	255u, 164u, 255u, 164u, 168u, 169u, 171u, 172u, 
-	173u, 174u, 175u, 180u, 181u, 182u, 183u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 191u, 165u, 179u, 
-	174u, 175u, 171u, 175u, 154u, 255u, 190u, 128u, 
-	134u, 147u, 151u, 157u, 168u, 170u, 182u, 184u, 
-	188u, 128u, 129u, 131u, 132u, 134u, 255u, 147u, 
-	255u, 190u, 255u, 144u, 255u, 144u, 145u, 136u, 
-	175u, 188u, 255u, 176u, 180u, 182u, 255u, 189u, 
-	255u, 161u, 186u, 129u, 154u, 166u, 255u, 191u, 
-	255u, 130u, 135u, 138u, 143u, 146u, 151u, 154u, 
-	156u, 144u, 146u, 157u, 160u, 170u, 175u, 161u, 
-	169u, 128u, 129u, 130u, 131u, 133u, 138u, 139u, 
-	140u, 141u, 142u, 143u, 144u, 145u, 146u, 160u, 
-	164u, 168u, 128u, 139u, 141u, 166u, 168u, 186u, 
-	188u, 189u, 191u, 255u, 142u, 143u, 158u, 255u, 
-	187u, 255u, 128u, 180u, 128u, 156u, 160u, 255u, 
-	145u, 255u, 128u, 158u, 176u, 255u, 139u, 255u, 
-	128u, 157u, 160u, 255u, 144u, 132u, 135u, 150u, 
-	255u, 158u, 255u, 136u, 188u, 191u, 128u, 133u, 
-	138u, 181u, 183u, 184u, 128u, 149u, 160u, 185u, 
-	128u, 131u, 133u, 134u, 140u, 147u, 149u, 151u, 
-	153u, 179u, 128u, 141u, 144u, 145u, 129u, 140u, 
-	175u, 255u, 163u, 255u, 144u, 145u, 146u, 147u, 
-	148u, 149u, 154u, 155u, 156u, 157u, 158u, 159u, 
-	150u, 153u, 149u, 157u, 173u, 186u, 188u, 160u, 
-	161u, 163u, 164u, 167u, 168u, 132u, 134u, 149u, 
-	157u, 186u, 139u, 140u, 191u, 255u, 134u, 128u, 
-	132u, 138u, 144u, 146u, 255u, 166u, 167u, 129u, 
-	155u, 187u, 149u, 181u, 143u, 175u, 137u, 169u, 
-	131u, 140u, 255u, 128u, 129u, 255u, 155u, 156u, 
-	255u, 151u, 255u, 160u, 168u, 161u, 167u, 170u, 
-	181u, 186u, 128u, 150u, 152u, 182u, 184u, 255u, 
-	192u, 255u, 128u, 255u, 173u, 130u, 133u, 146u, 
-	159u, 165u, 171u, 175u, 255u, 133u, 176u, 180u, 
-	182u, 183u, 186u, 189u, 134u, 140u, 136u, 138u, 
-	142u, 161u, 163u, 255u, 182u, 130u, 137u, 164u, 
-	176u, 151u, 152u, 154u, 160u, 190u, 136u, 175u, 
-	192u, 255u, 135u, 129u, 130u, 132u, 133u, 144u, 
-	170u, 176u, 178u, 144u, 154u, 161u, 191u, 128u, 
-	151u, 153u, 158u, 174u, 255u, 148u, 157u, 160u, 
-	169u, 172u, 176u, 185u, 189u, 190u, 192u, 255u, 
-	144u, 191u, 141u, 255u, 178u, 255u, 186u, 138u, 
-	170u, 180u, 181u, 164u, 165u, 166u, 167u, 168u, 
-	169u, 170u, 171u, 172u, 173u, 174u, 175u, 176u, 
-	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
-	185u, 186u, 187u, 188u, 189u, 190u, 129u, 185u, 
-	189u, 255u, 141u, 143u, 145u, 151u, 164u, 176u, 
-	179u, 186u, 192u, 255u, 178u, 129u, 131u, 133u, 
-	140u, 143u, 144u, 147u, 168u, 170u, 176u, 182u, 
-	185u, 189u, 255u, 141u, 158u, 133u, 134u, 137u, 
-	138u, 143u, 150u, 152u, 155u, 164u, 175u, 178u, 
-	255u, 129u, 131u, 133u, 138u, 143u, 144u, 147u, 
-	168u, 170u, 176u, 178u, 179u, 181u, 182u, 184u, 
-	185u, 190u, 255u, 157u, 131u, 134u, 137u, 138u, 
-	141u, 144u, 146u, 152u, 159u, 175u, 182u, 255u, 
-	129u, 131u, 133u, 141u, 143u, 145u, 147u, 168u, 
-	170u, 176u, 178u, 179u, 181u, 185u, 189u, 255u, 
-	134u, 138u, 141u, 143u, 145u, 159u, 164u, 255u, 
-	129u, 131u, 133u, 140u, 143u, 144u, 147u, 168u, 
-	170u, 176u, 178u, 179u, 181u, 185u, 189u, 191u, 
-	177u, 128u, 132u, 135u, 136u, 139u, 140u, 150u, 
-	151u, 156u, 157u, 159u, 163u, 156u, 130u, 131u, 
-	133u, 138u, 142u, 144u, 146u, 149u, 153u, 154u, 
-	158u, 159u, 163u, 164u, 168u, 170u, 174u, 185u, 
-	190u, 191u, 144u, 151u, 128u, 130u, 134u, 136u, 
-	138u, 140u, 129u, 131u, 133u, 140u, 142u, 144u, 
-	146u, 168u, 170u, 179u, 181u, 185u, 189u, 255u, 
-	133u, 137u, 151u, 141u, 148u, 154u, 159u, 164u, 
-	255u, 130u, 131u, 133u, 140u, 142u, 144u, 146u, 
-	168u, 170u, 179u, 181u, 185u, 189u, 191u, 158u, 
-	128u, 132u, 134u, 136u, 138u, 140u, 149u, 150u, 
-	160u, 163u, 130u, 131u, 133u, 140u, 142u, 144u, 
-	146u, 168u, 170u, 185u, 189u, 255u, 133u, 137u, 
-	141u, 150u, 152u, 159u, 164u, 185u, 192u, 255u, 
-	189u, 130u, 131u, 133u, 150u, 154u, 177u, 179u, 
-	187u, 150u, 128u, 134u, 143u, 148u, 152u, 159u, 
-	178u, 179u, 129u, 186u, 141u, 128u, 134u, 132u, 
-	138u, 141u, 165u, 167u, 129u, 130u, 135u, 136u, 
-	148u, 151u, 153u, 159u, 161u, 163u, 170u, 171u, 
-	173u, 185u, 187u, 189u, 134u, 141u, 128u, 132u, 
-	156u, 157u, 128u, 128u, 135u, 137u, 172u, 177u, 
-	191u, 128u, 129u, 136u, 139u, 144u, 151u, 153u, 
-	188u, 128u, 129u, 130u, 131u, 133u, 134u, 135u, 
-	137u, 138u, 139u, 140u, 141u, 142u, 143u, 144u, 
-	153u, 154u, 155u, 156u, 157u, 158u, 159u, 160u, 
-	161u, 162u, 164u, 165u, 166u, 167u, 168u, 172u, 
-	173u, 174u, 176u, 177u, 180u, 181u, 182u, 184u, 
-	188u, 189u, 190u, 191u, 132u, 136u, 145u, 152u, 
-	185u, 187u, 184u, 128u, 182u, 187u, 191u, 144u, 
-	162u, 165u, 168u, 174u, 255u, 135u, 141u, 143u, 
-	159u, 187u, 134u, 143u, 189u, 255u, 154u, 158u, 
-	163u, 167u, 186u, 255u, 137u, 151u, 153u, 142u, 
-	143u, 158u, 159u, 137u, 177u, 142u, 143u, 182u, 
-	183u, 191u, 255u, 128u, 130u, 133u, 136u, 150u, 
-	152u, 255u, 145u, 150u, 151u, 155u, 158u, 160u, 
-	255u, 128u, 143u, 160u, 255u, 181u, 255u, 129u, 
-	255u, 173u, 174u, 183u, 255u, 129u, 154u, 160u, 
-	255u, 171u, 173u, 177u, 255u, 128u, 140u, 142u, 
-	147u, 160u, 179u, 128u, 147u, 160u, 172u, 174u, 
-	176u, 178u, 179u, 128u, 179u, 182u, 255u, 137u, 
-	150u, 152u, 155u, 157u, 255u, 160u, 255u, 184u, 
-	255u, 128u, 170u, 128u, 156u, 160u, 171u, 176u, 
-	184u, 144u, 173u, 176u, 180u, 128u, 169u, 176u, 
-	255u, 138u, 255u, 128u, 155u, 128u, 179u, 181u, 
-	255u, 132u, 140u, 255u, 128u, 169u, 174u, 175u, 
-	128u, 181u, 141u, 143u, 154u, 189u, 150u, 151u, 
-	158u, 159u, 152u, 154u, 156u, 158u, 134u, 135u, 
-	142u, 143u, 190u, 255u, 190u, 128u, 180u, 182u, 
+	191u, 128u, 132u, 134u, 136u, 138u, 140u, 149u, 
+	150u, 152u, 153u, 160u, 163u, 130u, 131u, 133u, 
+	140u, 142u, 144u, 146u, 168u, 170u, 179u, 181u, 
+	185u, 189u, 191u, 158u, 128u, 132u, 134u, 136u, 
+	138u, 140u, 149u, 150u, 160u, 163u, 130u, 131u, 
+	133u, 140u, 142u, 144u, 146u, 168u, 170u, 185u, 
+	189u, 191u, 151u, 128u, 132u, 134u, 136u, 138u, 
+	140u, 160u, 163u, 186u, 191u, 189u, 130u, 131u, 
+	133u, 150u, 154u, 177u, 179u, 187u, 150u, 128u, 
+	134u, 143u, 148u, 152u, 159u, 178u, 179u, 129u, 
+	186u, 141u, 128u, 134u, 132u, 138u, 141u, 165u, 
+	167u, 129u, 130u, 135u, 136u, 148u, 151u, 153u, 
+	159u, 161u, 163u, 170u, 171u, 173u, 185u, 187u, 
+	189u, 134u, 141u, 128u, 132u, 156u, 157u, 128u, 
+	128u, 135u, 137u, 172u, 177u, 191u, 128u, 129u, 
+	136u, 139u, 144u, 151u, 153u, 188u, 128u, 129u, 
+	130u, 131u, 133u, 134u, 135u, 137u, 138u, 139u, 
+	140u, 141u, 142u, 143u, 144u, 153u, 154u, 155u, 
+	156u, 157u, 158u, 159u, 160u, 161u, 162u, 164u, 
+	165u, 166u, 167u, 168u, 172u, 173u, 174u, 176u, 
+	177u, 188u, 189u, 190u, 191u, 132u, 152u, 180u, 
+	182u, 184u, 187u, 184u, 128u, 182u, 187u, 191u, 
+	144u, 162u, 165u, 168u, 174u, 191u, 142u, 128u, 
+	134u, 160u, 191u, 188u, 128u, 133u, 144u, 186u, 
+	128u, 153u, 159u, 191u, 128u, 162u, 168u, 191u, 
+	128u, 185u, 152u, 128u, 136u, 138u, 141u, 144u, 
+	150u, 154u, 157u, 160u, 191u, 128u, 136u, 138u, 
+	141u, 144u, 176u, 178u, 181u, 184u, 190u, 128u, 
+	130u, 133u, 136u, 150u, 152u, 191u, 128u, 144u, 
+	146u, 149u, 152u, 191u, 159u, 128u, 154u, 128u, 
+	143u, 160u, 191u, 128u, 180u, 129u, 191u, 128u, 
+	172u, 175u, 182u, 129u, 154u, 160u, 191u, 128u, 
+	170u, 174u, 176u, 128u, 140u, 142u, 147u, 160u, 
+	179u, 128u, 147u, 160u, 172u, 174u, 176u, 178u, 
+	179u, 128u, 179u, 182u, 191u, 151u, 156u, 128u, 
+	136u, 160u, 191u, 128u, 183u, 128u, 170u, 128u, 
+	156u, 160u, 171u, 176u, 184u, 144u, 173u, 176u, 
+	180u, 128u, 169u, 176u, 191u, 128u, 137u, 128u, 
+	155u, 128u, 179u, 181u, 191u, 128u, 131u, 133u, 
+	139u, 128u, 169u, 174u, 175u, 128u, 181u, 141u, 
+	143u, 154u, 189u, 128u, 149u, 152u, 157u, 160u, 
+	191u, 153u, 155u, 157u, 128u, 133u, 136u, 141u, 
+	144u, 151u, 159u, 189u, 190u, 128u, 180u, 182u, 
 	188u, 130u, 132u, 134u, 140u, 144u, 147u, 150u, 
 	155u, 160u, 172u, 178u, 180u, 182u, 188u, 129u, 
 	130u, 132u, 133u, 134u, 146u, 147u, 176u, 177u, 
 	178u, 179u, 180u, 181u, 182u, 183u, 184u, 177u, 
 	191u, 144u, 148u, 130u, 135u, 149u, 164u, 166u, 
 	168u, 138u, 147u, 153u, 157u, 170u, 173u, 175u, 
-	185u, 188u, 191u, 142u, 133u, 137u, 160u, 255u, 
-	137u, 255u, 182u, 255u, 170u, 255u, 128u, 174u, 
-	176u, 255u, 159u, 176u, 190u, 255u, 165u, 255u, 
-	128u, 165u, 176u, 255u, 166u, 174u, 176u, 255u, 
-	128u, 150u, 160u, 166u, 168u, 174u, 176u, 182u, 
-	184u, 190u, 128u, 134u, 136u, 142u, 144u, 150u, 
-	152u, 158u, 160u, 191u, 175u, 128u, 129u, 130u, 
-	131u, 132u, 133u, 134u, 135u, 144u, 145u, 255u, 
+	185u, 188u, 191u, 142u, 133u, 137u, 160u, 191u, 
+	128u, 136u, 182u, 191u, 128u, 169u, 128u, 174u, 
+	176u, 191u, 128u, 158u, 160u, 175u, 177u, 189u, 
+	128u, 164u, 128u, 165u, 176u, 191u, 175u, 128u, 
+	165u, 128u, 150u, 160u, 166u, 168u, 174u, 176u, 
+	182u, 184u, 190u, 128u, 134u, 136u, 142u, 144u, 
+	150u, 152u, 158u, 160u, 191u, 175u, 128u, 129u, 
+	130u, 131u, 132u, 133u, 134u, 135u, 144u, 191u, 
 	133u, 135u, 161u, 169u, 177u, 181u, 184u, 188u, 
-	160u, 151u, 156u, 187u, 192u, 255u, 133u, 173u, 
-	177u, 255u, 143u, 159u, 184u, 255u, 176u, 191u, 
-	182u, 183u, 184u, 182u, 255u, 191u, 192u, 255u, 
-	132u, 255u, 128u, 146u, 148u, 152u, 153u, 154u, 
-	156u, 157u, 158u, 159u, 160u, 161u, 162u, 163u, 
-	164u, 165u, 168u, 169u, 176u, 129u, 145u, 149u, 
-	151u, 177u, 255u, 141u, 255u, 141u, 143u, 160u, 
-	169u, 172u, 255u, 191u, 128u, 159u, 162u, 174u, 
-	128u, 151u, 151u, 159u, 162u, 255u, 137u, 138u, 
-	141u, 255u, 187u, 255u, 130u, 134u, 139u, 168u, 
-	255u, 128u, 179u, 138u, 170u, 176u, 255u, 147u, 
-	255u, 128u, 182u, 128u, 141u, 158u, 159u, 255u, 
-	164u, 255u, 164u, 168u, 169u, 171u, 172u, 173u, 
-	174u, 175u, 180u, 181u, 182u, 183u, 185u, 186u, 
-	187u, 188u, 189u, 190u, 191u, 165u, 179u, 174u, 
-	175u, 171u, 175u, 154u, 255u, 190u, 128u, 134u, 
-	147u, 151u, 157u, 168u, 170u, 182u, 184u, 188u, 
-	128u, 129u, 131u, 132u, 134u, 255u, 147u, 255u, 
-	190u, 255u, 144u, 255u, 144u, 145u, 136u, 175u, 
-	188u, 255u, 176u, 180u, 182u, 255u, 189u, 255u, 
-	161u, 186u, 129u, 154u, 166u, 255u, 191u, 255u, 
-	130u, 135u, 138u, 143u, 146u, 151u, 154u, 156u, 
-	144u, 146u, 157u, 160u, 170u, 175u, 161u, 169u, 
+	128u, 150u, 157u, 159u, 161u, 191u, 128u, 186u, 
+	188u, 191u, 133u, 173u, 177u, 191u, 128u, 142u, 
+	160u, 183u, 176u, 191u, 182u, 128u, 181u, 184u, 
+	191u, 128u, 191u, 191u, 128u, 190u, 128u, 131u, 
+	146u, 152u, 153u, 154u, 156u, 158u, 159u, 160u, 
+	161u, 163u, 164u, 165u, 168u, 169u, 128u, 145u, 
+	148u, 151u, 157u, 162u, 176u, 191u, 128u, 140u, 
+	128u, 140u, 144u, 159u, 170u, 171u, 191u, 128u, 
+	159u, 162u, 174u, 128u, 151u, 151u, 159u, 162u, 
+	191u, 128u, 136u, 139u, 140u, 187u, 191u, 128u, 
+	129u, 131u, 133u, 135u, 138u, 140u, 167u, 128u, 
+	179u, 138u, 170u, 176u, 191u, 128u, 146u, 128u, 
+	182u, 128u, 141u, 158u, 128u, 157u, 128u, 163u, 
+	168u, 169u, 171u, 172u, 173u, 174u, 175u, 180u, 
+	181u, 182u, 183u, 185u, 186u, 187u, 188u, 189u, 
+	190u, 191u, 164u, 179u, 128u, 173u, 176u, 191u, 
+	128u, 170u, 176u, 191u, 128u, 153u, 190u, 128u, 
+	134u, 147u, 151u, 157u, 168u, 170u, 182u, 184u, 
+	188u, 128u, 129u, 131u, 132u, 134u, 191u, 147u, 
+	191u, 128u, 189u, 128u, 143u, 146u, 191u, 128u, 
+	135u, 176u, 187u, 176u, 180u, 182u, 191u, 128u, 
+	188u, 161u, 186u, 129u, 154u, 166u, 191u, 128u, 
+	190u, 130u, 135u, 138u, 143u, 146u, 151u, 154u, 
+	156u, 144u, 146u, 157u, 170u, 175u, 160u, 169u, 
 	128u, 129u, 130u, 131u, 133u, 138u, 139u, 140u, 
-	141u, 142u, 143u, 144u, 145u, 146u, 160u, 164u, 
-	168u, 128u, 139u, 141u, 166u, 168u, 186u, 188u, 
-	189u, 191u, 255u, 142u, 143u, 158u, 255u, 187u, 
-	255u, 128u, 180u, 128u, 156u, 160u, 255u, 145u, 
-	255u, 128u, 158u, 176u, 255u, 139u, 255u, 128u, 
-	157u, 160u, 255u, 144u, 132u, 135u, 150u, 255u, 
-	158u, 255u, 136u, 188u, 191u, 128u, 133u, 138u, 
-	181u, 183u, 184u, 128u, 149u, 160u, 185u, 128u, 
-	131u, 133u, 134u, 140u, 147u, 149u, 151u, 153u, 
-	179u, 128u, 141u, 144u, 145u, 129u, 140u, 175u, 
-	255u, 163u, 255u, 144u, 145u, 146u, 147u, 148u, 
-	149u, 154u, 155u, 156u, 157u, 158u, 159u, 150u, 
-	153u, 149u, 157u, 173u, 186u, 188u, 160u, 161u, 
-	163u, 164u, 167u, 168u, 132u, 134u, 149u, 157u, 
-	186u, 139u, 140u, 191u, 255u, 134u, 128u, 132u, 
-	138u, 144u, 146u, 255u, 166u, 167u, 129u, 155u, 
-	187u, 149u, 181u, 143u, 175u, 137u, 169u, 131u, 
-	140u, 255u, 128u, 129u, 255u, 155u, 156u, 255u, 
-	151u, 255u, 160u, 168u, 161u, 167u, 170u, 181u, 
-	186u, 128u, 150u, 152u, 182u, 184u, 255u, 192u, 
-	255u, 128u, 255u, 173u, 130u, 133u, 146u, 159u, 
-	165u, 171u, 175u, 255u, 133u, 176u, 180u, 182u, 
-	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
-	161u, 163u, 255u, 182u, 130u, 137u, 164u, 176u, 
-	151u, 152u, 154u, 160u, 190u, 136u, 175u, 192u, 
-	255u, 135u, 129u, 130u, 132u, 133u, 144u, 170u, 
-	176u, 178u, 144u, 154u, 161u, 191u, 128u, 151u, 
-	153u, 158u, 174u, 255u, 148u, 157u, 160u, 169u, 
-	172u, 176u, 185u, 189u, 190u, 192u, 255u, 144u, 
-	191u, 141u, 255u, 178u, 255u, 186u, 138u, 170u, 
-	180u, 181u, 164u, 165u, 166u, 167u, 168u, 169u, 
-	170u, 171u, 172u, 173u, 174u, 175u, 176u, 177u, 
-	178u, 179u, 180u, 181u, 182u, 183u, 184u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 129u, 185u, 189u, 
-	255u, 141u, 143u, 145u, 151u, 164u, 176u, 179u, 
-	186u, 192u, 255u, 178u, 129u, 131u, 133u, 140u, 
+	141u, 142u, 143u, 146u, 160u, 164u, 168u, 144u, 
+	145u, 191u, 128u, 139u, 141u, 166u, 168u, 186u, 
+	188u, 189u, 128u, 141u, 144u, 157u, 128u, 186u, 
+	128u, 156u, 160u, 191u, 128u, 144u, 128u, 158u, 
+	176u, 191u, 128u, 138u, 128u, 157u, 160u, 191u, 
+	128u, 131u, 136u, 143u, 145u, 149u, 128u, 157u, 
+	136u, 188u, 191u, 128u, 133u, 138u, 181u, 183u, 
+	184u, 128u, 149u, 160u, 185u, 128u, 131u, 133u, 
+	134u, 140u, 147u, 149u, 151u, 153u, 179u, 141u, 
+	144u, 145u, 128u, 140u, 128u, 174u, 128u, 162u, 
+	145u, 146u, 147u, 148u, 149u, 154u, 155u, 156u, 
+	157u, 158u, 159u, 144u, 153u, 128u, 148u, 150u, 
+	191u, 162u, 187u, 128u, 156u, 158u, 159u, 165u, 
+	166u, 169u, 172u, 174u, 185u, 189u, 191u, 128u, 
+	131u, 133u, 191u, 128u, 133u, 135u, 138u, 141u, 
+	148u, 150u, 156u, 158u, 185u, 187u, 190u, 134u, 
+	128u, 132u, 138u, 144u, 146u, 191u, 128u, 165u, 
+	168u, 191u, 128u, 130u, 154u, 156u, 186u, 188u, 
+	191u, 128u, 148u, 150u, 180u, 182u, 191u, 128u, 
+	142u, 144u, 174u, 176u, 191u, 128u, 136u, 138u, 
+	168u, 170u, 191u, 128u, 130u, 132u, 139u, 155u, 
+	128u, 154u, 128u, 150u, 168u, 160u, 167u, 33u, 
+	45u, 47u, 61u, 63u, 98u, 99u, 101u, 103u, 
+	105u, 109u, 110u, 111u, 194u, 195u, 203u, 205u, 
+	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
+	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
+	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 170u, 181u, 186u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 65u, 90u, 97u, 122u, 196u, 
+	202u, 208u, 218u, 229u, 236u, 128u, 150u, 152u, 
+	182u, 184u, 191u, 128u, 191u, 172u, 174u, 128u, 
+	129u, 134u, 145u, 160u, 164u, 133u, 176u, 180u, 
+	182u, 183u, 186u, 189u, 134u, 140u, 136u, 138u, 
+	142u, 161u, 163u, 191u, 128u, 181u, 183u, 191u, 
+	128u, 129u, 138u, 191u, 128u, 163u, 177u, 191u, 
+	153u, 128u, 150u, 161u, 191u, 191u, 128u, 135u, 
+	176u, 189u, 135u, 129u, 130u, 132u, 133u, 144u, 
+	170u, 176u, 178u, 144u, 154u, 161u, 191u, 128u, 
+	151u, 153u, 158u, 174u, 191u, 191u, 128u, 147u, 
+	149u, 156u, 161u, 168u, 173u, 175u, 186u, 188u, 
+	144u, 191u, 141u, 191u, 128u, 177u, 186u, 138u, 
+	170u, 180u, 181u, 164u, 165u, 166u, 167u, 168u, 
+	169u, 170u, 171u, 172u, 173u, 174u, 175u, 176u, 
+	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
+	185u, 186u, 187u, 188u, 189u, 190u, 129u, 185u, 
+	189u, 191u, 144u, 128u, 140u, 152u, 163u, 177u, 
+	178u, 187u, 191u, 178u, 129u, 131u, 133u, 140u, 
 	143u, 144u, 147u, 168u, 170u, 176u, 182u, 185u, 
-	189u, 255u, 141u, 158u, 133u, 134u, 137u, 138u, 
-	143u, 150u, 152u, 155u, 164u, 175u, 178u, 255u, 
+	189u, 191u, 142u, 151u, 128u, 132u, 135u, 136u, 
+	139u, 140u, 156u, 157u, 159u, 163u, 176u, 177u, 
 	129u, 131u, 133u, 138u, 143u, 144u, 147u, 168u, 
 	170u, 176u, 178u, 179u, 181u, 182u, 184u, 185u, 
-	190u, 255u, 157u, 131u, 134u, 137u, 138u, 141u, 
-	144u, 146u, 152u, 159u, 175u, 182u, 255u, 129u, 
-	131u, 133u, 141u, 143u, 145u, 147u, 168u, 170u, 
-	176u, 178u, 179u, 181u, 185u, 189u, 255u, 134u, 
-	138u, 141u, 143u, 145u, 159u, 164u, 255u, 129u, 
+	190u, 191u, 145u, 158u, 128u, 130u, 135u, 136u, 
+	139u, 140u, 153u, 156u, 176u, 181u, 129u, 131u, 
+	133u, 141u, 143u, 145u, 147u, 168u, 170u, 176u, 
+	178u, 179u, 181u, 185u, 189u, 191u, 144u, 128u, 
+	133u, 135u, 137u, 139u, 140u, 160u, 163u, 129u, 
 	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
 	176u, 178u, 179u, 181u, 185u, 189u, 191u, 177u, 
 	128u, 132u, 135u, 136u, 139u, 140u, 150u, 151u, 
@@ -1013,120 +757,281 @@ static const unsigned char _StdTok_trans_keys[] = {
 	159u, 163u, 164u, 168u, 170u, 174u, 185u, 190u, 
 	191u, 144u, 151u, 128u, 130u, 134u, 136u, 138u, 
 	140u, 129u, 131u, 133u, 140u, 142u, 144u, 146u, 
-	168u, 170u, 179u, 181u, 185u, 189u, 255u, 133u, 
-	137u, 151u, 141u, 148u, 154u, 159u, 164u, 255u, 
-	130u, 131u, 133u, 140u, 142u, 144u, 146u, 168u, 
-	170u, 179u, 181u, 185u, 189u, 191u, 158u, 128u, 
-	132u, 134u, 136u, 138u, 140u, 149u, 150u, 160u, 
-	163u, 130u, 131u, 133u, 140u, 142u, 144u, 146u, 
-	168u, 170u, 185u, 189u, 255u, 133u, 137u, 141u, 
-	150u, 152u, 159u, 164u, 185u, 192u, 255u, 189u, 
-	130u, 131u, 133u, 150u, 154u, 177u, 179u, 187u, 
-	150u, 128u, 134u, 143u, 148u, 152u, 159u, 178u, 
-	179u, 129u, 186u, 141u, 128u, 134u, 132u, 138u, 
-	141u, 165u, 167u, 129u, 130u, 135u, 136u, 148u, 
-	151u, 153u, 159u, 161u, 163u, 170u, 171u, 173u, 
-	185u, 187u, 189u, 134u, 141u, 128u, 132u, 156u, 
-	157u, 128u, 128u, 135u, 137u, 172u, 177u, 191u, 
-	128u, 129u, 136u, 139u, 144u, 151u, 153u, 188u, 
-	128u, 129u, 130u, 131u, 133u, 134u, 135u, 137u, 
-	138u, 139u, 140u, 141u, 142u, 143u, 144u, 153u, 
-	154u, 155u, 156u, 157u, 158u, 159u, 160u, 161u, 
-	162u, 164u, 165u, 166u, 167u, 168u, 172u, 173u, 
-	174u, 176u, 177u, 180u, 181u, 182u, 184u, 188u, 
-	189u, 190u, 191u, 132u, 136u, 145u, 152u, 185u, 
+	168u, 170u, 179u, 181u, 185u, 189u, 191u, 128u, 
+	132u, 134u, 136u, 138u, 140u, 149u, 150u, 152u, 
+	153u, 160u, 163u, 130u, 131u, 133u, 140u, 142u, 
+	144u, 146u, 168u, 170u, 179u, 181u, 185u, 189u, 
+	191u, 158u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	149u, 150u, 160u, 163u, 130u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 185u, 189u, 191u, 
+	151u, 128u, 132u, 134u, 136u, 138u, 140u, 160u, 
+	163u, 186u, 191u, 189u, 130u, 131u, 133u, 150u, 
+	154u, 177u, 179u, 187u, 150u, 128u, 134u, 143u, 
+	148u, 152u, 159u, 178u, 179u, 129u, 186u, 141u, 
+	128u, 134u, 132u, 138u, 141u, 165u, 167u, 129u, 
+	130u, 135u, 136u, 148u, 151u, 153u, 159u, 161u, 
+	163u, 170u, 171u, 173u, 185u, 187u, 189u, 134u, 
+	141u, 128u, 132u, 156u, 157u, 128u, 128u, 135u, 
+	137u, 172u, 177u, 191u, 128u, 129u, 136u, 139u, 
+	144u, 151u, 153u, 188u, 128u, 129u, 130u, 131u, 
+	133u, 134u, 135u, 137u, 138u, 139u, 140u, 141u, 
+	142u, 143u, 144u, 153u, 154u, 155u, 156u, 157u, 
+	158u, 159u, 160u, 161u, 162u, 164u, 165u, 166u, 
+	167u, 168u, 172u, 173u, 174u, 176u, 177u, 188u, 
+	189u, 190u, 191u, 132u, 152u, 180u, 182u, 184u, 
 	187u, 184u, 128u, 182u, 187u, 191u, 144u, 162u, 
-	165u, 168u, 174u, 255u, 135u, 141u, 143u, 159u, 
-	187u, 134u, 143u, 189u, 255u, 154u, 158u, 163u, 
-	167u, 186u, 255u, 137u, 151u, 153u, 142u, 143u, 
-	158u, 159u, 137u, 177u, 142u, 143u, 182u, 183u, 
-	191u, 255u, 128u, 130u, 133u, 136u, 150u, 152u, 
-	255u, 145u, 150u, 151u, 155u, 158u, 160u, 255u, 
-	128u, 143u, 160u, 255u, 181u, 255u, 129u, 255u, 
-	173u, 174u, 183u, 255u, 129u, 154u, 160u, 255u, 
-	171u, 173u, 177u, 255u, 128u, 140u, 142u, 147u, 
-	160u, 179u, 128u, 147u, 160u, 172u, 174u, 176u, 
-	178u, 179u, 128u, 179u, 182u, 255u, 137u, 150u, 
-	152u, 155u, 157u, 255u, 160u, 255u, 184u, 255u, 
-	128u, 170u, 128u, 156u, 160u, 171u, 176u, 184u, 
-	144u, 173u, 176u, 180u, 128u, 169u, 176u, 255u, 
-	138u, 255u, 128u, 155u, 128u, 179u, 181u, 255u, 
-	132u, 140u, 255u, 128u, 169u, 174u, 175u, 128u, 
-	181u, 141u, 143u, 154u, 189u, 150u, 151u, 158u, 
-	159u, 152u, 154u, 156u, 158u, 134u, 135u, 142u, 
-	143u, 190u, 255u, 190u, 128u, 180u, 182u, 188u, 
-	130u, 132u, 134u, 140u, 144u, 147u, 150u, 155u, 
-	160u, 172u, 178u, 180u, 182u, 188u, 129u, 130u, 
-	132u, 133u, 134u, 146u, 147u, 176u, 177u, 178u, 
-	179u, 180u, 181u, 182u, 183u, 184u, 177u, 191u, 
-	144u, 148u, 130u, 135u, 149u, 164u, 166u, 168u, 
-	138u, 147u, 153u, 157u, 170u, 173u, 175u, 185u, 
-	188u, 191u, 142u, 133u, 137u, 160u, 255u, 137u, 
-	255u, 182u, 255u, 170u, 255u, 128u, 174u, 176u, 
-	255u, 159u, 176u, 190u, 255u, 165u, 255u, 128u, 
-	165u, 176u, 255u, 166u, 174u, 176u, 255u, 128u, 
+	165u, 168u, 174u, 191u, 142u, 128u, 134u, 160u, 
+	191u, 188u, 128u, 133u, 144u, 186u, 128u, 153u, 
+	159u, 191u, 128u, 162u, 168u, 191u, 128u, 185u, 
+	152u, 128u, 136u, 138u, 141u, 144u, 150u, 154u, 
+	157u, 160u, 191u, 128u, 136u, 138u, 141u, 144u, 
+	176u, 178u, 181u, 184u, 190u, 128u, 130u, 133u, 
+	136u, 150u, 152u, 191u, 128u, 144u, 146u, 149u, 
+	152u, 191u, 159u, 128u, 154u, 128u, 143u, 160u, 
+	191u, 128u, 180u, 129u, 191u, 128u, 172u, 175u, 
+	182u, 129u, 154u, 160u, 191u, 128u, 170u, 174u, 
+	176u, 128u, 140u, 142u, 147u, 160u, 179u, 128u, 
+	147u, 160u, 172u, 174u, 176u, 178u, 179u, 128u, 
+	179u, 182u, 191u, 151u, 156u, 128u, 136u, 160u, 
+	191u, 128u, 183u, 128u, 170u, 128u, 156u, 160u, 
+	171u, 176u, 184u, 144u, 173u, 176u, 180u, 128u, 
+	169u, 176u, 191u, 128u, 137u, 128u, 155u, 128u, 
+	179u, 181u, 191u, 128u, 131u, 133u, 139u, 128u, 
+	169u, 174u, 175u, 128u, 181u, 141u, 143u, 154u, 
+	189u, 128u, 149u, 152u, 157u, 160u, 191u, 153u, 
+	155u, 157u, 128u, 133u, 136u, 141u, 144u, 151u, 
+	159u, 189u, 190u, 128u, 180u, 182u, 188u, 130u, 
+	132u, 134u, 140u, 144u, 147u, 150u, 155u, 160u, 
+	172u, 178u, 180u, 182u, 188u, 129u, 130u, 132u, 
+	133u, 134u, 146u, 147u, 176u, 177u, 178u, 179u, 
+	180u, 181u, 182u, 183u, 184u, 177u, 191u, 144u, 
+	148u, 130u, 135u, 149u, 164u, 166u, 168u, 138u, 
+	147u, 153u, 157u, 170u, 173u, 175u, 185u, 188u, 
+	191u, 142u, 133u, 137u, 160u, 191u, 128u, 136u, 
+	182u, 191u, 128u, 169u, 128u, 174u, 176u, 191u, 
+	128u, 158u, 160u, 175u, 177u, 189u, 128u, 164u, 
+	128u, 165u, 176u, 191u, 175u, 128u, 165u, 128u, 
 	150u, 160u, 166u, 168u, 174u, 176u, 182u, 184u, 
 	190u, 128u, 134u, 136u, 142u, 144u, 150u, 152u, 
 	158u, 160u, 191u, 175u, 128u, 129u, 130u, 131u, 
-	132u, 133u, 134u, 135u, 144u, 145u, 255u, 133u, 
-	135u, 161u, 169u, 177u, 181u, 184u, 188u, 160u, 
-	151u, 156u, 187u, 192u, 255u, 133u, 173u, 177u, 
-	255u, 143u, 159u, 184u, 255u, 176u, 191u, 182u, 
-	183u, 184u, 182u, 255u, 191u, 192u, 255u, 132u, 
-	255u, 128u, 146u, 148u, 152u, 153u, 154u, 156u, 
-	157u, 158u, 159u, 160u, 161u, 162u, 163u, 164u, 
-	165u, 168u, 169u, 176u, 129u, 145u, 149u, 151u, 
-	177u, 255u, 141u, 255u, 141u, 143u, 160u, 169u, 
-	172u, 255u, 191u, 128u, 159u, 162u, 174u, 128u, 
-	151u, 151u, 159u, 162u, 255u, 137u, 138u, 141u, 
-	255u, 187u, 255u, 130u, 134u, 139u, 168u, 255u, 
-	128u, 179u, 138u, 170u, 176u, 255u, 147u, 255u, 
-	128u, 182u, 128u, 141u, 158u, 159u, 255u, 164u, 
-	255u, 164u, 168u, 169u, 171u, 172u, 173u, 174u, 
-	175u, 180u, 181u, 182u, 183u, 185u, 186u, 187u, 
-	188u, 189u, 190u, 191u, 165u, 179u, 174u, 175u, 
-	171u, 175u, 154u, 255u, 190u, 128u, 134u, 147u, 
+	132u, 133u, 134u, 135u, 144u, 191u, 133u, 135u, 
+	161u, 169u, 177u, 181u, 184u, 188u, 128u, 150u, 
+	157u, 159u, 161u, 191u, 128u, 186u, 188u, 191u, 
+	133u, 173u, 177u, 191u, 128u, 142u, 160u, 183u, 
+	176u, 191u, 182u, 128u, 181u, 184u, 191u, 128u, 
+	191u, 191u, 128u, 190u, 128u, 131u, 146u, 152u, 
+	153u, 154u, 156u, 158u, 159u, 160u, 161u, 163u, 
+	164u, 165u, 168u, 169u, 128u, 145u, 148u, 151u, 
+	157u, 162u, 176u, 191u, 128u, 140u, 128u, 140u, 
+	144u, 159u, 170u, 171u, 191u, 128u, 159u, 162u, 
+	174u, 128u, 151u, 151u, 159u, 162u, 191u, 128u, 
+	136u, 139u, 140u, 187u, 191u, 128u, 129u, 131u, 
+	133u, 135u, 138u, 140u, 167u, 128u, 179u, 138u, 
+	170u, 176u, 191u, 128u, 146u, 128u, 182u, 128u, 
+	141u, 158u, 128u, 157u, 128u, 163u, 168u, 169u, 
+	171u, 172u, 173u, 174u, 175u, 180u, 181u, 182u, 
+	183u, 185u, 186u, 187u, 188u, 189u, 190u, 191u, 
+	164u, 179u, 128u, 173u, 176u, 191u, 128u, 170u, 
+	176u, 191u, 128u, 153u, 190u, 128u, 134u, 147u, 
 	151u, 157u, 168u, 170u, 182u, 184u, 188u, 128u, 
-	129u, 131u, 132u, 134u, 255u, 147u, 255u, 190u, 
-	255u, 144u, 255u, 144u, 145u, 136u, 175u, 188u, 
-	255u, 176u, 180u, 182u, 255u, 189u, 255u, 161u, 
-	186u, 129u, 154u, 166u, 255u, 191u, 255u, 130u, 
+	129u, 131u, 132u, 134u, 191u, 147u, 191u, 128u, 
+	189u, 128u, 143u, 146u, 191u, 128u, 135u, 176u, 
+	187u, 176u, 180u, 182u, 191u, 128u, 188u, 161u, 
+	186u, 129u, 154u, 166u, 191u, 128u, 190u, 130u, 
 	135u, 138u, 143u, 146u, 151u, 154u, 156u, 144u, 
-	146u, 157u, 160u, 170u, 175u, 161u, 169u, 128u, 
-	129u, 130u, 131u, 133u, 138u, 139u, 140u, 141u, 
-	142u, 143u, 144u, 145u, 146u, 160u, 164u, 168u, 
+	146u, 157u, 170u, 175u, 160u, 169u, 128u, 129u, 
+	130u, 131u, 133u, 138u, 139u, 140u, 141u, 142u, 
+	143u, 146u, 160u, 164u, 168u, 144u, 145u, 191u, 
 	128u, 139u, 141u, 166u, 168u, 186u, 188u, 189u, 
-	191u, 255u, 142u, 143u, 158u, 255u, 187u, 255u, 
-	128u, 180u, 128u, 156u, 160u, 255u, 145u, 255u, 
-	128u, 158u, 176u, 255u, 139u, 255u, 128u, 157u, 
-	160u, 255u, 144u, 132u, 135u, 150u, 255u, 158u, 
-	255u, 136u, 188u, 191u, 128u, 133u, 138u, 181u, 
+	128u, 141u, 144u, 157u, 128u, 186u, 128u, 156u, 
+	160u, 191u, 128u, 144u, 128u, 158u, 176u, 191u, 
+	128u, 138u, 128u, 157u, 160u, 191u, 128u, 131u, 
+	136u, 143u, 145u, 149u, 128u, 157u, 136u, 188u, 
+	191u, 128u, 133u, 138u, 181u, 183u, 184u, 128u, 
+	149u, 160u, 185u, 128u, 131u, 133u, 134u, 140u, 
+	147u, 149u, 151u, 153u, 179u, 141u, 144u, 145u, 
+	128u, 140u, 128u, 174u, 128u, 162u, 145u, 146u, 
+	147u, 148u, 149u, 154u, 155u, 156u, 157u, 158u, 
+	159u, 144u, 153u, 128u, 148u, 150u, 191u, 162u, 
+	187u, 128u, 156u, 158u, 159u, 165u, 166u, 169u, 
+	172u, 174u, 185u, 189u, 191u, 128u, 131u, 133u, 
+	191u, 128u, 133u, 135u, 138u, 141u, 148u, 150u, 
+	156u, 158u, 185u, 187u, 190u, 134u, 128u, 132u, 
+	138u, 144u, 146u, 191u, 128u, 165u, 168u, 191u, 
+	128u, 130u, 154u, 156u, 186u, 188u, 191u, 128u, 
+	148u, 150u, 180u, 182u, 191u, 128u, 142u, 144u, 
+	174u, 176u, 191u, 128u, 136u, 138u, 168u, 170u, 
+	191u, 128u, 130u, 132u, 139u, 155u, 128u, 154u, 
+	128u, 150u, 168u, 160u, 167u, 170u, 181u, 186u, 
+	128u, 150u, 152u, 182u, 184u, 191u, 128u, 191u, 
+	172u, 174u, 128u, 129u, 134u, 145u, 160u, 164u, 
+	133u, 176u, 180u, 182u, 183u, 186u, 189u, 134u, 
+	140u, 136u, 138u, 142u, 161u, 163u, 191u, 128u, 
+	181u, 183u, 191u, 128u, 129u, 138u, 191u, 128u, 
+	163u, 177u, 191u, 153u, 128u, 150u, 161u, 191u, 
+	191u, 128u, 135u, 176u, 189u, 135u, 129u, 130u, 
+	132u, 133u, 144u, 170u, 176u, 178u, 144u, 154u, 
+	161u, 191u, 128u, 151u, 153u, 158u, 174u, 191u, 
+	191u, 128u, 147u, 149u, 156u, 161u, 168u, 173u, 
+	175u, 186u, 188u, 144u, 191u, 141u, 191u, 128u, 
+	177u, 186u, 138u, 170u, 180u, 181u, 164u, 165u, 
+	166u, 167u, 168u, 169u, 170u, 171u, 172u, 173u, 
+	174u, 175u, 176u, 177u, 178u, 179u, 180u, 181u, 
+	182u, 183u, 184u, 185u, 186u, 187u, 188u, 189u, 
+	190u, 129u, 185u, 189u, 191u, 144u, 128u, 140u, 
+	152u, 163u, 177u, 178u, 187u, 191u, 178u, 129u, 
+	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
+	176u, 182u, 185u, 189u, 191u, 142u, 151u, 128u, 
+	132u, 135u, 136u, 139u, 140u, 156u, 157u, 159u, 
+	163u, 176u, 177u, 129u, 131u, 133u, 138u, 143u, 
+	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
+	182u, 184u, 185u, 190u, 191u, 145u, 158u, 128u, 
+	130u, 135u, 136u, 139u, 140u, 153u, 156u, 176u, 
+	181u, 129u, 131u, 133u, 141u, 143u, 145u, 147u, 
+	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
+	191u, 144u, 128u, 133u, 135u, 137u, 139u, 140u, 
+	160u, 163u, 129u, 131u, 133u, 140u, 143u, 144u, 
+	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
+	189u, 191u, 177u, 128u, 132u, 135u, 136u, 139u, 
+	140u, 150u, 151u, 156u, 157u, 159u, 163u, 156u, 
+	130u, 131u, 133u, 138u, 142u, 144u, 146u, 149u, 
+	153u, 154u, 158u, 159u, 163u, 164u, 168u, 170u, 
+	174u, 185u, 190u, 191u, 144u, 151u, 128u, 130u, 
+	134u, 136u, 138u, 140u, 129u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
+	189u, 191u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	149u, 150u, 152u, 153u, 160u, 163u, 130u, 131u, 
+	133u, 140u, 142u, 144u, 146u, 168u, 170u, 179u, 
+	181u, 185u, 189u, 191u, 158u, 128u, 132u, 134u, 
+	136u, 138u, 140u, 149u, 150u, 160u, 163u, 130u, 
+	131u, 133u, 140u, 142u, 144u, 146u, 168u, 170u, 
+	185u, 189u, 191u, 151u, 128u, 132u, 134u, 136u, 
+	138u, 140u, 160u, 163u, 186u, 191u, 189u, 130u, 
+	131u, 133u, 150u, 154u, 177u, 179u, 187u, 150u, 
+	128u, 134u, 143u, 148u, 152u, 159u, 178u, 179u, 
+	129u, 186u, 141u, 128u, 134u, 132u, 138u, 141u, 
+	165u, 167u, 129u, 130u, 135u, 136u, 148u, 151u, 
+	153u, 159u, 161u, 163u, 170u, 171u, 173u, 185u, 
+	187u, 189u, 134u, 141u, 128u, 132u, 156u, 157u, 
+	128u, 128u, 135u, 137u, 172u, 177u, 191u, 128u, 
+	129u, 136u, 139u, 144u, 151u, 153u, 188u, 128u, 
+	129u, 130u, 131u, 133u, 134u, 135u, 137u, 138u, 
+	139u, 140u, 141u, 142u, 143u, 144u, 153u, 154u, 
+	155u, 156u, 157u, 158u, 159u, 160u, 161u, 162u, 
+	164u, 165u, 166u, 167u, 168u, 172u, 173u, 174u, 
+	176u, 177u, 188u, 189u, 190u, 191u, 132u, 152u, 
+	180u, 182u, 184u, 187u, 184u, 128u, 182u, 187u, 
+	191u, 144u, 162u, 165u, 168u, 174u, 191u, 142u, 
+	128u, 134u, 160u, 191u, 188u, 128u, 133u, 144u, 
+	186u, 128u, 153u, 159u, 191u, 128u, 162u, 168u, 
+	191u, 128u, 185u, 152u, 128u, 136u, 138u, 141u, 
+	144u, 150u, 154u, 157u, 160u, 191u, 128u, 136u, 
+	138u, 141u, 144u, 176u, 178u, 181u, 184u, 190u, 
+	128u, 130u, 133u, 136u, 150u, 152u, 191u, 128u, 
+	144u, 146u, 149u, 152u, 191u, 159u, 128u, 154u, 
+	128u, 143u, 160u, 191u, 128u, 180u, 129u, 191u, 
+	128u, 172u, 175u, 182u, 129u, 154u, 160u, 191u, 
+	128u, 170u, 174u, 176u, 128u, 140u, 142u, 147u, 
+	160u, 179u, 128u, 147u, 160u, 172u, 174u, 176u, 
+	178u, 179u, 128u, 179u, 182u, 191u, 151u, 156u, 
+	128u, 136u, 160u, 191u, 128u, 183u, 128u, 170u, 
+	128u, 156u, 160u, 171u, 176u, 184u, 144u, 173u, 
+	176u, 180u, 128u, 169u, 176u, 191u, 128u, 137u, 
+	128u, 155u, 128u, 179u, 181u, 191u, 128u, 131u, 
+	133u, 139u, 128u, 169u, 174u, 175u, 128u, 181u, 
+	141u, 143u, 154u, 189u, 128u, 149u, 152u, 157u, 
+	160u, 191u, 153u, 155u, 157u, 128u, 133u, 136u, 
+	141u, 144u, 151u, 159u, 189u, 190u, 128u, 180u, 
+	182u, 188u, 130u, 132u, 134u, 140u, 144u, 147u, 
+	150u, 155u, 160u, 172u, 178u, 180u, 182u, 188u, 
+	129u, 130u, 132u, 133u, 134u, 146u, 147u, 176u, 
+	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
+	177u, 191u, 144u, 148u, 130u, 135u, 149u, 164u, 
+	166u, 168u, 138u, 147u, 153u, 157u, 170u, 173u, 
+	175u, 185u, 188u, 191u, 142u, 133u, 137u, 160u, 
+	191u, 128u, 136u, 182u, 191u, 128u, 169u, 128u, 
+	174u, 176u, 191u, 128u, 158u, 160u, 175u, 177u, 
+	189u, 128u, 164u, 128u, 165u, 176u, 191u, 175u, 
+	128u, 165u, 128u, 150u, 160u, 166u, 168u, 174u, 
+	176u, 182u, 184u, 190u, 128u, 134u, 136u, 142u, 
+	144u, 150u, 152u, 158u, 160u, 191u, 175u, 128u, 
+	129u, 130u, 131u, 132u, 133u, 134u, 135u, 144u, 
+	191u, 133u, 135u, 161u, 169u, 177u, 181u, 184u, 
+	188u, 128u, 150u, 157u, 159u, 161u, 191u, 128u, 
+	186u, 188u, 191u, 133u, 173u, 177u, 191u, 128u, 
+	142u, 160u, 183u, 176u, 191u, 182u, 128u, 181u, 
+	184u, 191u, 128u, 191u, 191u, 128u, 190u, 128u, 
+	131u, 146u, 152u, 153u, 154u, 156u, 158u, 159u, 
+	160u, 161u, 163u, 164u, 165u, 168u, 169u, 128u, 
+	145u, 148u, 151u, 157u, 162u, 176u, 191u, 128u, 
+	140u, 128u, 140u, 144u, 159u, 170u, 171u, 191u, 
+	128u, 159u, 162u, 174u, 128u, 151u, 151u, 159u, 
+	162u, 191u, 128u, 136u, 139u, 140u, 187u, 191u, 
+	128u, 129u, 131u, 133u, 135u, 138u, 140u, 167u, 
+	128u, 179u, 138u, 170u, 176u, 191u, 128u, 146u, 
+	128u, 182u, 128u, 141u, 158u, 128u, 157u, 128u, 
+	163u, 168u, 169u, 171u, 172u, 173u, 174u, 175u, 
+	180u, 181u, 182u, 183u, 185u, 186u, 187u, 188u, 
+	189u, 190u, 191u, 164u, 179u, 128u, 173u, 176u, 
+	191u, 128u, 170u, 176u, 191u, 128u, 153u, 190u, 
+	128u, 134u, 147u, 151u, 157u, 168u, 170u, 182u, 
+	184u, 188u, 128u, 129u, 131u, 132u, 134u, 191u, 
+	147u, 191u, 128u, 189u, 128u, 143u, 146u, 191u, 
+	128u, 135u, 176u, 187u, 176u, 180u, 182u, 191u, 
+	128u, 188u, 161u, 186u, 129u, 154u, 166u, 191u, 
+	128u, 190u, 130u, 135u, 138u, 143u, 146u, 151u, 
+	154u, 156u, 144u, 146u, 157u, 170u, 175u, 160u, 
+	169u, 128u, 129u, 130u, 131u, 133u, 138u, 139u, 
+	140u, 141u, 142u, 143u, 146u, 160u, 164u, 168u, 
+	144u, 145u, 191u, 128u, 139u, 141u, 166u, 168u, 
+	186u, 188u, 189u, 128u, 141u, 144u, 157u, 128u, 
+	186u, 128u, 156u, 160u, 191u, 128u, 144u, 128u, 
+	158u, 176u, 191u, 128u, 138u, 128u, 157u, 160u, 
+	191u, 128u, 131u, 136u, 143u, 145u, 149u, 128u, 
+	157u, 136u, 188u, 191u, 128u, 133u, 138u, 181u, 
 	183u, 184u, 128u, 149u, 160u, 185u, 128u, 131u, 
 	133u, 134u, 140u, 147u, 149u, 151u, 153u, 179u, 
-	128u, 141u, 144u, 145u, 129u, 140u, 175u, 255u, 
-	163u, 255u, 144u, 145u, 146u, 147u, 148u, 149u, 
-	154u, 155u, 156u, 157u, 158u, 159u, 150u, 153u, 
-	149u, 157u, 173u, 186u, 188u, 160u, 161u, 163u, 
-	164u, 167u, 168u, 132u, 134u, 149u, 157u, 186u, 
-	139u, 140u, 191u, 255u, 134u, 128u, 132u, 138u, 
-	144u, 146u, 255u, 166u, 167u, 129u, 155u, 187u, 
-	149u, 181u, 143u, 175u, 137u, 169u, 131u, 140u, 
-	255u, 128u, 129u, 255u, 155u, 156u, 255u, 151u, 
-	255u, 160u, 168u, 161u, 167u, 47u, 45u, 47u, 
-	58u, 64u, 95u, 44u, 46u, 48u, 57u, 65u, 
-	90u, 97u, 122u, 129u, 185u, 189u, 255u, 141u, 
-	143u, 145u, 151u, 164u, 176u, 179u, 186u, 192u, 
-	255u, 178u, 129u, 131u, 133u, 140u, 143u, 144u, 
-	147u, 168u, 170u, 176u, 182u, 185u, 189u, 255u, 
-	141u, 158u, 133u, 134u, 137u, 138u, 143u, 150u, 
-	152u, 155u, 164u, 175u, 178u, 255u, 129u, 131u, 
+	141u, 144u, 145u, 128u, 140u, 128u, 174u, 128u, 
+	162u, 145u, 146u, 147u, 148u, 149u, 154u, 155u, 
+	156u, 157u, 158u, 159u, 144u, 153u, 128u, 148u, 
+	150u, 191u, 162u, 187u, 128u, 156u, 158u, 159u, 
+	165u, 166u, 169u, 172u, 174u, 185u, 189u, 191u, 
+	128u, 131u, 133u, 191u, 128u, 133u, 135u, 138u, 
+	141u, 148u, 150u, 156u, 158u, 185u, 187u, 190u, 
+	134u, 128u, 132u, 138u, 144u, 146u, 191u, 128u, 
+	165u, 168u, 191u, 128u, 130u, 154u, 156u, 186u, 
+	188u, 191u, 128u, 148u, 150u, 180u, 182u, 191u, 
+	128u, 142u, 144u, 174u, 176u, 191u, 128u, 136u, 
+	138u, 168u, 170u, 191u, 128u, 130u, 132u, 139u, 
+	155u, 128u, 154u, 128u, 150u, 168u, 160u, 167u, 
+	170u, 181u, 186u, 128u, 150u, 152u, 182u, 184u, 
+	191u, 128u, 191u, 172u, 174u, 128u, 129u, 134u, 
+	145u, 160u, 164u, 133u, 176u, 180u, 182u, 183u, 
+	186u, 189u, 134u, 140u, 136u, 138u, 142u, 161u, 
+	163u, 191u, 128u, 181u, 183u, 191u, 128u, 129u, 
+	138u, 191u, 128u, 163u, 177u, 191u, 153u, 128u, 
+	150u, 161u, 191u, 191u, 128u, 135u, 176u, 189u, 
+	135u, 129u, 130u, 132u, 133u, 144u, 170u, 176u, 
+	178u, 144u, 154u, 161u, 191u, 128u, 151u, 153u, 
+	158u, 174u, 191u, 191u, 128u, 147u, 149u, 156u, 
+	161u, 168u, 173u, 175u, 186u, 188u, 144u, 191u, 
+	141u, 191u, 128u, 177u, 186u, 138u, 170u, 180u, 
+	181u, 164u, 165u, 166u, 167u, 168u, 169u, 170u, 
+	171u, 172u, 173u, 174u, 175u, 176u, 177u, 178u, 
+	179u, 180u, 181u, 182u, 183u, 184u, 185u, 186u, 
+	187u, 188u, 189u, 190u, 129u, 185u, 189u, 191u, 
+	144u, 128u, 140u, 152u, 163u, 177u, 178u, 187u, 
+	191u, 178u, 129u, 131u, 133u, 140u, 143u, 144u, 
+	147u, 168u, 170u, 176u, 182u, 185u, 189u, 191u, 
+	142u, 151u, 128u, 132u, 135u, 136u, 139u, 140u, 
+	156u, 157u, 159u, 163u, 176u, 177u, 129u, 131u, 
 	133u, 138u, 143u, 144u, 147u, 168u, 170u, 176u, 
-	178u, 179u, 181u, 182u, 184u, 185u, 190u, 255u, 
-	157u, 131u, 134u, 137u, 138u, 141u, 144u, 146u, 
-	152u, 159u, 175u, 182u, 255u, 129u, 131u, 133u, 
-	141u, 143u, 145u, 147u, 168u, 170u, 176u, 178u, 
-	179u, 181u, 185u, 189u, 255u, 134u, 138u, 141u, 
-	143u, 145u, 159u, 164u, 255u, 129u, 131u, 133u, 
+	178u, 179u, 181u, 182u, 184u, 185u, 190u, 191u, 
+	145u, 158u, 128u, 130u, 135u, 136u, 139u, 140u, 
+	153u, 156u, 176u, 181u, 129u, 131u, 133u, 141u, 
+	143u, 145u, 147u, 168u, 170u, 176u, 178u, 179u, 
+	181u, 185u, 189u, 191u, 144u, 128u, 133u, 135u, 
+	137u, 139u, 140u, 160u, 163u, 129u, 131u, 133u, 
 	140u, 143u, 144u, 147u, 168u, 170u, 176u, 178u, 
 	179u, 181u, 185u, 189u, 191u, 177u, 128u, 132u, 
 	135u, 136u, 139u, 140u, 150u, 151u, 156u, 157u, 
@@ -1135,940 +1040,1051 @@ static const unsigned char _StdTok_trans_keys[] = {
 	164u, 168u, 170u, 174u, 185u, 190u, 191u, 144u, 
 	151u, 128u, 130u, 134u, 136u, 138u, 140u, 129u, 
 	131u, 133u, 140u, 142u, 144u, 146u, 168u, 170u, 
-	179u, 181u, 185u, 189u, 255u, 133u, 137u, 151u, 
-	141u, 148u, 154u, 159u, 164u, 255u, 130u, 131u, 
+	179u, 181u, 185u, 189u, 191u, 128u, 132u, 134u, 
+	136u, 138u, 140u, 149u, 150u, 152u, 153u, 160u, 
+	163u, 130u, 131u, 133u, 140u, 142u, 144u, 146u, 
+	168u, 170u, 179u, 181u, 185u, 189u, 191u, 158u, 
+	128u, 132u, 134u, 136u, 138u, 140u, 149u, 150u, 
+	160u, 163u, 130u, 131u, 133u, 140u, 142u, 144u, 
+	146u, 168u, 170u, 185u, 189u, 191u, 151u, 128u, 
+	132u, 134u, 136u, 138u, 140u, 160u, 163u, 186u, 
+	191u, 189u, 130u, 131u, 133u, 150u, 154u, 177u, 
+	179u, 187u, 150u, 128u, 134u, 143u, 148u, 152u, 
+	159u, 178u, 179u, 129u, 186u, 141u, 128u, 134u, 
+	132u, 138u, 141u, 165u, 167u, 129u, 130u, 135u, 
+	136u, 148u, 151u, 153u, 159u, 161u, 163u, 170u, 
+	171u, 173u, 185u, 187u, 189u, 134u, 141u, 128u, 
+	132u, 156u, 157u, 128u, 128u, 135u, 137u, 172u, 
+	177u, 191u, 128u, 129u, 136u, 139u, 144u, 151u, 
+	153u, 188u, 128u, 129u, 130u, 131u, 133u, 134u, 
+	135u, 137u, 138u, 139u, 140u, 141u, 142u, 143u, 
+	144u, 153u, 154u, 155u, 156u, 157u, 158u, 159u, 
+	160u, 161u, 162u, 164u, 165u, 166u, 167u, 168u, 
+	172u, 173u, 174u, 176u, 177u, 188u, 189u, 190u, 
+	191u, 132u, 152u, 180u, 182u, 184u, 187u, 184u, 
+	128u, 182u, 187u, 191u, 144u, 162u, 165u, 168u, 
+	174u, 191u, 142u, 128u, 134u, 160u, 191u, 188u, 
+	128u, 133u, 144u, 186u, 128u, 153u, 159u, 191u, 
+	128u, 162u, 168u, 191u, 128u, 185u, 152u, 128u, 
+	136u, 138u, 141u, 144u, 150u, 154u, 157u, 160u, 
+	191u, 128u, 136u, 138u, 141u, 144u, 176u, 178u, 
+	181u, 184u, 190u, 128u, 130u, 133u, 136u, 150u, 
+	152u, 191u, 128u, 144u, 146u, 149u, 152u, 191u, 
+	159u, 128u, 154u, 128u, 143u, 160u, 191u, 128u, 
+	180u, 129u, 191u, 128u, 172u, 175u, 182u, 129u, 
+	154u, 160u, 191u, 128u, 170u, 174u, 176u, 128u, 
+	140u, 142u, 147u, 160u, 179u, 128u, 147u, 160u, 
+	172u, 174u, 176u, 178u, 179u, 128u, 179u, 182u, 
+	191u, 151u, 156u, 128u, 136u, 160u, 191u, 128u, 
+	183u, 128u, 170u, 128u, 156u, 160u, 171u, 176u, 
+	184u, 144u, 173u, 176u, 180u, 128u, 169u, 176u, 
+	191u, 128u, 137u, 128u, 155u, 128u, 179u, 181u, 
+	191u, 128u, 131u, 133u, 139u, 128u, 169u, 174u, 
+	175u, 128u, 181u, 141u, 143u, 154u, 189u, 128u, 
+	149u, 152u, 157u, 160u, 191u, 153u, 155u, 157u, 
+	128u, 133u, 136u, 141u, 144u, 151u, 159u, 189u, 
+	190u, 128u, 180u, 182u, 188u, 130u, 132u, 134u, 
+	140u, 144u, 147u, 150u, 155u, 160u, 172u, 178u, 
+	180u, 182u, 188u, 129u, 130u, 132u, 133u, 134u, 
+	146u, 147u, 176u, 177u, 178u, 179u, 180u, 181u, 
+	182u, 183u, 184u, 177u, 191u, 144u, 148u, 130u, 
+	135u, 149u, 164u, 166u, 168u, 138u, 147u, 153u, 
+	157u, 170u, 173u, 175u, 185u, 188u, 191u, 142u, 
+	133u, 137u, 160u, 191u, 128u, 136u, 182u, 191u, 
+	128u, 169u, 128u, 174u, 176u, 191u, 128u, 158u, 
+	160u, 175u, 177u, 189u, 128u, 164u, 128u, 165u, 
+	176u, 191u, 175u, 128u, 165u, 128u, 150u, 160u, 
+	166u, 168u, 174u, 176u, 182u, 184u, 190u, 128u, 
+	134u, 136u, 142u, 144u, 150u, 152u, 158u, 160u, 
+	191u, 175u, 128u, 129u, 130u, 131u, 132u, 133u, 
+	134u, 135u, 144u, 191u, 133u, 135u, 161u, 169u, 
+	177u, 181u, 184u, 188u, 128u, 150u, 157u, 159u, 
+	161u, 191u, 128u, 186u, 188u, 191u, 133u, 173u, 
+	177u, 191u, 128u, 142u, 160u, 183u, 176u, 191u, 
+	182u, 128u, 181u, 184u, 191u, 128u, 191u, 191u, 
+	128u, 190u, 128u, 131u, 146u, 152u, 153u, 154u, 
+	156u, 158u, 159u, 160u, 161u, 163u, 164u, 165u, 
+	168u, 169u, 128u, 145u, 148u, 151u, 157u, 162u, 
+	176u, 191u, 128u, 140u, 128u, 140u, 144u, 159u, 
+	170u, 171u, 191u, 128u, 159u, 162u, 174u, 128u, 
+	151u, 151u, 159u, 162u, 191u, 128u, 136u, 139u, 
+	140u, 187u, 191u, 128u, 129u, 131u, 133u, 135u, 
+	138u, 140u, 167u, 128u, 179u, 138u, 170u, 176u, 
+	191u, 128u, 146u, 128u, 182u, 128u, 141u, 158u, 
+	128u, 157u, 128u, 163u, 168u, 169u, 171u, 172u, 
+	173u, 174u, 175u, 180u, 181u, 182u, 183u, 185u, 
+	186u, 187u, 188u, 189u, 190u, 191u, 164u, 179u, 
+	128u, 173u, 176u, 191u, 128u, 170u, 176u, 191u, 
+	128u, 153u, 190u, 128u, 134u, 147u, 151u, 157u, 
+	168u, 170u, 182u, 184u, 188u, 128u, 129u, 131u, 
+	132u, 134u, 191u, 147u, 191u, 128u, 189u, 128u, 
+	143u, 146u, 191u, 128u, 135u, 176u, 187u, 176u, 
+	180u, 182u, 191u, 128u, 188u, 161u, 186u, 129u, 
+	154u, 166u, 191u, 128u, 190u, 130u, 135u, 138u, 
+	143u, 146u, 151u, 154u, 156u, 144u, 146u, 157u, 
+	170u, 175u, 160u, 169u, 128u, 129u, 130u, 131u, 
+	133u, 138u, 139u, 140u, 141u, 142u, 143u, 146u, 
+	160u, 164u, 168u, 144u, 145u, 191u, 128u, 139u, 
+	141u, 166u, 168u, 186u, 188u, 189u, 128u, 141u, 
+	144u, 157u, 128u, 186u, 128u, 156u, 160u, 191u, 
+	128u, 144u, 128u, 158u, 176u, 191u, 128u, 138u, 
+	128u, 157u, 160u, 191u, 128u, 131u, 136u, 143u, 
+	145u, 149u, 128u, 157u, 136u, 188u, 191u, 128u, 
+	133u, 138u, 181u, 183u, 184u, 128u, 149u, 160u, 
+	185u, 128u, 131u, 133u, 134u, 140u, 147u, 149u, 
+	151u, 153u, 179u, 141u, 144u, 145u, 128u, 140u, 
+	128u, 174u, 128u, 162u, 145u, 146u, 147u, 148u, 
+	149u, 154u, 155u, 156u, 157u, 158u, 159u, 144u, 
+	153u, 128u, 148u, 150u, 191u, 162u, 187u, 128u, 
+	156u, 158u, 159u, 165u, 166u, 169u, 172u, 174u, 
+	185u, 189u, 191u, 128u, 131u, 133u, 191u, 128u, 
+	133u, 135u, 138u, 141u, 148u, 150u, 156u, 158u, 
+	185u, 187u, 190u, 134u, 128u, 132u, 138u, 144u, 
+	146u, 191u, 128u, 165u, 168u, 191u, 128u, 130u, 
+	154u, 156u, 186u, 188u, 191u, 128u, 148u, 150u, 
+	180u, 182u, 191u, 128u, 142u, 144u, 174u, 176u, 
+	191u, 128u, 136u, 138u, 168u, 170u, 191u, 128u, 
+	130u, 132u, 139u, 155u, 128u, 154u, 128u, 150u, 
+	168u, 160u, 167u, 47u, 45u, 47u, 58u, 64u, 
+	95u, 44u, 46u, 48u, 57u, 65u, 90u, 97u, 
+	122u, 129u, 185u, 189u, 191u, 144u, 128u, 140u, 
+	152u, 163u, 177u, 178u, 187u, 191u, 178u, 129u, 
+	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
+	176u, 182u, 185u, 189u, 191u, 142u, 151u, 128u, 
+	132u, 135u, 136u, 139u, 140u, 156u, 157u, 159u, 
+	163u, 176u, 177u, 129u, 131u, 133u, 138u, 143u, 
+	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
+	182u, 184u, 185u, 190u, 191u, 145u, 158u, 128u, 
+	130u, 135u, 136u, 139u, 140u, 153u, 156u, 176u, 
+	181u, 129u, 131u, 133u, 141u, 143u, 145u, 147u, 
+	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
+	191u, 144u, 128u, 133u, 135u, 137u, 139u, 140u, 
+	160u, 163u, 129u, 131u, 133u, 140u, 143u, 144u, 
+	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
+	189u, 191u, 177u, 128u, 132u, 135u, 136u, 139u, 
+	140u, 150u, 151u, 156u, 157u, 159u, 163u, 156u, 
+	130u, 131u, 133u, 138u, 142u, 144u, 146u, 149u, 
+	153u, 154u, 158u, 159u, 163u, 164u, 168u, 170u, 
+	174u, 185u, 190u, 191u, 144u, 151u, 128u, 130u, 
+	134u, 136u, 138u, 140u, 129u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
+	189u, 191u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	149u, 150u, 152u, 153u, 160u, 163u, 130u, 131u, 
 	133u, 140u, 142u, 144u, 146u, 168u, 170u, 179u, 
 	181u, 185u, 189u, 191u, 158u, 128u, 132u, 134u, 
 	136u, 138u, 140u, 149u, 150u, 160u, 163u, 130u, 
 	131u, 133u, 140u, 142u, 144u, 146u, 168u, 170u, 
-	185u, 189u, 255u, 133u, 137u, 141u, 150u, 152u, 
-	159u, 164u, 185u, 192u, 255u, 189u, 130u, 131u, 
-	133u, 150u, 154u, 177u, 179u, 187u, 150u, 128u, 
-	134u, 143u, 148u, 152u, 159u, 178u, 179u, 129u, 
-	186u, 141u, 128u, 134u, 132u, 138u, 141u, 165u, 
-	167u, 129u, 130u, 135u, 136u, 148u, 151u, 153u, 
-	159u, 161u, 163u, 170u, 171u, 173u, 185u, 187u, 
-	189u, 134u, 141u, 128u, 132u, 156u, 157u, 128u, 
-	128u, 135u, 137u, 172u, 177u, 191u, 128u, 129u, 
-	136u, 139u, 144u, 151u, 153u, 188u, 184u, 128u, 
-	182u, 187u, 191u, 144u, 162u, 165u, 168u, 174u, 
-	255u, 135u, 141u, 143u, 159u, 187u, 134u, 143u, 
-	189u, 255u, 128u, 255u, 154u, 158u, 163u, 167u, 
-	186u, 255u, 137u, 151u, 153u, 142u, 143u, 158u, 
-	159u, 137u, 177u, 142u, 143u, 182u, 183u, 191u, 
-	255u, 128u, 130u, 133u, 136u, 150u, 152u, 255u, 
-	145u, 150u, 151u, 155u, 158u, 160u, 255u, 128u, 
-	143u, 160u, 255u, 181u, 255u, 129u, 255u, 173u, 
-	174u, 183u, 255u, 129u, 154u, 160u, 255u, 171u, 
-	173u, 177u, 255u, 128u, 140u, 142u, 147u, 160u, 
-	179u, 128u, 147u, 160u, 172u, 174u, 176u, 178u, 
-	179u, 128u, 179u, 182u, 255u, 137u, 150u, 152u, 
-	155u, 157u, 255u, 160u, 255u, 184u, 255u, 128u, 
-	170u, 128u, 156u, 160u, 171u, 176u, 184u, 144u, 
-	173u, 176u, 180u, 128u, 169u, 176u, 255u, 138u, 
-	255u, 128u, 155u, 128u, 179u, 181u, 255u, 132u, 
-	140u, 255u, 128u, 169u, 174u, 175u, 128u, 181u, 
-	141u, 143u, 154u, 189u, 192u, 255u, 150u, 151u, 
-	158u, 159u, 152u, 154u, 156u, 158u, 134u, 135u, 
-	142u, 143u, 190u, 255u, 190u, 128u, 180u, 182u, 
-	188u, 130u, 132u, 134u, 140u, 144u, 147u, 150u, 
-	155u, 160u, 172u, 178u, 180u, 182u, 188u, 177u, 
-	191u, 144u, 148u, 130u, 135u, 149u, 164u, 166u, 
-	168u, 138u, 147u, 153u, 157u, 170u, 173u, 175u, 
-	185u, 188u, 191u, 142u, 133u, 137u, 160u, 255u, 
-	137u, 255u, 182u, 255u, 170u, 255u, 128u, 174u, 
-	176u, 255u, 159u, 176u, 190u, 255u, 165u, 255u, 
-	128u, 165u, 176u, 255u, 166u, 174u, 176u, 255u, 
-	128u, 150u, 160u, 166u, 168u, 174u, 176u, 182u, 
-	184u, 190u, 128u, 134u, 136u, 142u, 144u, 150u, 
-	152u, 158u, 160u, 191u, 175u, 133u, 135u, 161u, 
-	169u, 177u, 181u, 184u, 188u, 160u, 151u, 156u, 
-	187u, 192u, 255u, 133u, 173u, 177u, 255u, 143u, 
-	159u, 184u, 255u, 176u, 191u, 182u, 255u, 132u, 
-	255u, 141u, 255u, 141u, 143u, 160u, 169u, 172u, 
-	255u, 191u, 128u, 159u, 162u, 174u, 128u, 151u, 
-	151u, 159u, 162u, 255u, 137u, 138u, 141u, 255u, 
-	187u, 255u, 130u, 134u, 139u, 168u, 255u, 128u, 
-	179u, 138u, 170u, 176u, 255u, 147u, 255u, 128u, 
-	182u, 128u, 141u, 164u, 255u, 174u, 175u, 171u, 
-	175u, 154u, 255u, 190u, 128u, 134u, 147u, 151u, 
+	185u, 189u, 191u, 151u, 128u, 132u, 134u, 136u, 
+	138u, 140u, 160u, 163u, 186u, 191u, 189u, 130u, 
+	131u, 133u, 150u, 154u, 177u, 179u, 187u, 150u, 
+	128u, 134u, 143u, 148u, 152u, 159u, 178u, 179u, 
+	129u, 186u, 141u, 128u, 134u, 132u, 138u, 141u, 
+	165u, 167u, 129u, 130u, 135u, 136u, 148u, 151u, 
+	153u, 159u, 161u, 163u, 170u, 171u, 173u, 185u, 
+	187u, 189u, 134u, 141u, 128u, 132u, 156u, 157u, 
+	128u, 128u, 135u, 137u, 172u, 177u, 191u, 128u, 
+	129u, 136u, 139u, 144u, 151u, 153u, 188u, 184u, 
+	128u, 182u, 187u, 191u, 144u, 162u, 165u, 168u, 
+	174u, 191u, 142u, 128u, 134u, 160u, 191u, 188u, 
+	128u, 133u, 144u, 186u, 128u, 191u, 128u, 153u, 
+	159u, 191u, 128u, 162u, 168u, 191u, 128u, 185u, 
+	152u, 128u, 136u, 138u, 141u, 144u, 150u, 154u, 
+	157u, 160u, 191u, 128u, 136u, 138u, 141u, 144u, 
+	176u, 178u, 181u, 184u, 190u, 128u, 130u, 133u, 
+	136u, 150u, 152u, 191u, 128u, 144u, 146u, 149u, 
+	152u, 191u, 159u, 128u, 154u, 128u, 143u, 160u, 
+	191u, 128u, 180u, 129u, 191u, 128u, 172u, 175u, 
+	182u, 129u, 154u, 160u, 191u, 128u, 170u, 174u, 
+	176u, 128u, 140u, 142u, 147u, 160u, 179u, 128u, 
+	147u, 160u, 172u, 174u, 176u, 178u, 179u, 128u, 
+	179u, 182u, 191u, 151u, 156u, 128u, 136u, 160u, 
+	191u, 128u, 183u, 128u, 170u, 128u, 156u, 160u, 
+	171u, 176u, 184u, 144u, 173u, 176u, 180u, 128u, 
+	169u, 176u, 191u, 128u, 137u, 128u, 155u, 128u, 
+	179u, 181u, 191u, 128u, 131u, 133u, 139u, 128u, 
+	169u, 174u, 175u, 128u, 181u, 141u, 143u, 154u, 
+	189u, 128u, 149u, 152u, 157u, 160u, 191u, 153u, 
+	155u, 157u, 128u, 133u, 136u, 141u, 144u, 151u, 
+	159u, 189u, 190u, 128u, 180u, 182u, 188u, 130u, 
+	132u, 134u, 140u, 144u, 147u, 150u, 155u, 160u, 
+	172u, 178u, 180u, 182u, 188u, 177u, 191u, 144u, 
+	148u, 130u, 135u, 149u, 164u, 166u, 168u, 138u, 
+	147u, 153u, 157u, 170u, 173u, 175u, 185u, 188u, 
+	191u, 142u, 133u, 137u, 160u, 191u, 128u, 136u, 
+	182u, 191u, 128u, 169u, 128u, 174u, 176u, 191u, 
+	128u, 158u, 160u, 175u, 177u, 189u, 128u, 164u, 
+	128u, 165u, 176u, 191u, 175u, 128u, 165u, 128u, 
+	150u, 160u, 166u, 168u, 174u, 176u, 182u, 184u, 
+	190u, 128u, 134u, 136u, 142u, 144u, 150u, 152u, 
+	158u, 160u, 191u, 175u, 133u, 135u, 161u, 169u, 
+	177u, 181u, 184u, 188u, 128u, 150u, 157u, 159u, 
+	161u, 191u, 128u, 186u, 188u, 191u, 133u, 173u, 
+	177u, 191u, 128u, 142u, 160u, 183u, 176u, 191u, 
+	128u, 131u, 128u, 140u, 128u, 140u, 144u, 159u, 
+	170u, 171u, 191u, 128u, 159u, 162u, 174u, 128u, 
+	151u, 151u, 159u, 162u, 191u, 128u, 136u, 139u, 
+	140u, 187u, 191u, 128u, 129u, 131u, 133u, 135u, 
+	138u, 140u, 167u, 128u, 179u, 138u, 170u, 176u, 
+	191u, 128u, 146u, 128u, 182u, 128u, 141u, 128u, 
+	163u, 128u, 173u, 176u, 191u, 128u, 170u, 176u, 
+	191u, 128u, 153u, 190u, 128u, 134u, 147u, 151u, 
 	157u, 168u, 170u, 182u, 184u, 188u, 128u, 129u, 
-	131u, 132u, 134u, 255u, 178u, 255u, 147u, 255u, 
-	190u, 255u, 144u, 255u, 144u, 145u, 136u, 175u, 
-	188u, 255u, 176u, 180u, 182u, 255u, 189u, 255u, 
-	161u, 186u, 129u, 154u, 166u, 255u, 191u, 255u, 
-	130u, 135u, 138u, 143u, 146u, 151u, 154u, 156u, 
-	128u, 129u, 130u, 131u, 133u, 138u, 139u, 140u, 
-	141u, 142u, 143u, 144u, 145u, 146u, 160u, 164u, 
-	168u, 128u, 139u, 141u, 166u, 168u, 186u, 188u, 
-	189u, 191u, 255u, 142u, 143u, 158u, 255u, 187u, 
-	255u, 128u, 180u, 128u, 156u, 160u, 255u, 145u, 
-	255u, 128u, 158u, 176u, 255u, 139u, 255u, 128u, 
-	157u, 160u, 255u, 144u, 132u, 135u, 150u, 255u, 
-	158u, 255u, 136u, 188u, 191u, 128u, 133u, 138u, 
+	131u, 132u, 134u, 191u, 128u, 177u, 147u, 191u, 
+	128u, 189u, 144u, 191u, 128u, 143u, 146u, 191u, 
+	128u, 135u, 176u, 187u, 176u, 180u, 182u, 191u, 
+	128u, 188u, 161u, 186u, 129u, 154u, 166u, 191u, 
+	128u, 190u, 130u, 135u, 138u, 143u, 146u, 151u, 
+	154u, 156u, 128u, 129u, 130u, 131u, 133u, 138u, 
+	139u, 140u, 141u, 142u, 143u, 146u, 160u, 164u, 
+	168u, 144u, 145u, 191u, 128u, 139u, 141u, 166u, 
+	168u, 186u, 188u, 189u, 128u, 141u, 144u, 157u, 
+	128u, 186u, 128u, 156u, 160u, 191u, 128u, 144u, 
+	128u, 158u, 176u, 191u, 128u, 138u, 128u, 157u, 
+	160u, 191u, 128u, 131u, 136u, 143u, 145u, 149u, 
+	128u, 157u, 136u, 188u, 191u, 128u, 133u, 138u, 
 	181u, 183u, 184u, 128u, 149u, 160u, 185u, 128u, 
 	131u, 133u, 134u, 140u, 147u, 149u, 151u, 153u, 
-	179u, 128u, 141u, 144u, 145u, 129u, 140u, 175u, 
-	255u, 163u, 255u, 144u, 145u, 146u, 147u, 148u, 
-	149u, 154u, 155u, 156u, 157u, 158u, 159u, 150u, 
-	153u, 149u, 157u, 173u, 186u, 188u, 160u, 161u, 
-	163u, 164u, 167u, 168u, 132u, 134u, 149u, 157u, 
-	186u, 139u, 140u, 191u, 255u, 134u, 128u, 132u, 
-	138u, 144u, 146u, 255u, 166u, 167u, 129u, 155u, 
-	187u, 149u, 181u, 143u, 175u, 137u, 169u, 131u, 
-	140u, 255u, 128u, 129u, 255u, 155u, 156u, 255u, 
-	151u, 255u, 160u, 168u, 161u, 167u, 0u, 34u, 
-	42u, 43u, 45u, 47u, 61u, 63u, 102u, 104u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
+	179u, 141u, 144u, 145u, 128u, 140u, 128u, 174u, 
+	128u, 162u, 145u, 146u, 147u, 148u, 149u, 154u, 
+	155u, 156u, 157u, 158u, 159u, 144u, 153u, 128u, 
+	148u, 150u, 191u, 162u, 187u, 128u, 156u, 158u, 
+	159u, 165u, 166u, 169u, 172u, 174u, 185u, 189u, 
+	191u, 128u, 131u, 133u, 191u, 128u, 133u, 135u, 
+	138u, 141u, 148u, 150u, 156u, 158u, 185u, 187u, 
+	190u, 134u, 128u, 132u, 138u, 144u, 146u, 191u, 
+	128u, 165u, 168u, 191u, 128u, 130u, 154u, 156u, 
+	186u, 188u, 191u, 128u, 148u, 150u, 180u, 182u, 
+	191u, 128u, 142u, 144u, 174u, 176u, 191u, 128u, 
+	136u, 138u, 168u, 170u, 191u, 128u, 130u, 132u, 
+	139u, 128u, 191u, 155u, 128u, 154u, 128u, 150u, 
+	168u, 160u, 167u, 0u, 34u, 42u, 43u, 45u, 
+	47u, 61u, 63u, 102u, 104u, 194u, 195u, 203u, 
+	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
+	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
+	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
+	240u, 33u, 39u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 46u, 61u, 64u, 35u, 
+	39u, 42u, 43u, 45u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 46u, 61u, 63u, 35u, 39u, 42u, 
+	43u, 45u, 57u, 65u, 90u, 94u, 126u, 34u, 
+	92u, 1u, 8u, 11u, 12u, 14u, 31u, 33u, 
+	127u, 33u, 46u, 61u, 64u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 46u, 61u, 64u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 46u, 61u, 64u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 194u, 195u, 203u, 205u, 206u, 207u, 
 	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
 	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 33u, 39u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 46u, 61u, 64u, 35u, 39u, 42u, 43u, 
-	45u, 57u, 63u, 90u, 94u, 126u, 33u, 46u, 
-	61u, 63u, 35u, 39u, 42u, 43u, 45u, 57u, 
-	65u, 90u, 94u, 126u, 34u, 92u, 1u, 8u, 
-	11u, 12u, 14u, 31u, 33u, 127u, 33u, 46u, 
-	61u, 64u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 63u, 90u, 94u, 126u, 33u, 46u, 
-	61u, 64u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 63u, 90u, 94u, 126u, 33u, 46u, 
-	61u, 64u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 63u, 90u, 94u, 126u, 33u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 95u, 194u, 
-	195u, 198u, 199u, 203u, 205u, 206u, 207u, 210u, 
-	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
-	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
-	233u, 234u, 237u, 239u, 240u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 196u, 202u, 208u, 218u, 229u, 
-	236u, 33u, 45u, 46u, 47u, 58u, 61u, 63u, 
-	64u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 47u, 
-	48u, 57u, 33u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 122u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 121u, 123u, 
+	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
+	229u, 236u, 33u, 45u, 46u, 47u, 58u, 61u, 
+	63u, 64u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
+	47u, 48u, 57u, 33u, 45u, 46u, 47u, 58u, 
+	61u, 63u, 64u, 122u, 35u, 39u, 42u, 43u, 
+	48u, 57u, 65u, 90u, 94u, 96u, 97u, 121u, 
+	123u, 126u, 33u, 45u, 46u, 47u, 58u, 61u, 
+	63u, 64u, 109u, 35u, 39u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
 	126u, 33u, 45u, 46u, 47u, 58u, 61u, 63u, 
-	64u, 109u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	64u, 117u, 35u, 39u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
 	33u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	117u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	118u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
 	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
-	45u, 46u, 47u, 58u, 61u, 63u, 64u, 118u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 102u, 116u, 
+	45u, 46u, 47u, 58u, 61u, 63u, 64u, 102u, 
+	116u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
+	45u, 46u, 47u, 58u, 61u, 63u, 64u, 108u, 
 	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
 	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 108u, 35u, 
+	46u, 47u, 58u, 61u, 63u, 64u, 116u, 35u, 
 	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
 	96u, 97u, 122u, 123u, 126u, 33u, 45u, 46u, 
-	47u, 58u, 61u, 63u, 64u, 116u, 35u, 39u, 
+	47u, 58u, 61u, 63u, 64u, 103u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
-	58u, 61u, 63u, 64u, 103u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 95u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 196u, 
-	202u, 208u, 218u, 229u, 236u, 33u, 45u, 46u, 
-	47u, 61u, 63u, 64u, 95u, 194u, 195u, 198u, 
-	199u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
-	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
-	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
-	237u, 239u, 240u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 196u, 202u, 208u, 218u, 229u, 236u, 45u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
-	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
-	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
-	227u, 228u, 233u, 234u, 237u, 239u, 240u, 48u, 
-	57u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 35u, 39u, 42u, 43u, 48u, 57u, 
-	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	47u, 95u, 44u, 58u, 64u, 90u, 97u, 122u, 
-	33u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
-	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
-	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
-	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
-	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
-	47u, 58u, 61u, 63u, 64u, 95u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
-	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
-	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 37u, 42u, 43u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 46u, 61u, 63u, 64u, 194u, 195u, 198u, 
-	199u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
-	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
-	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
-	237u, 239u, 240u, 35u, 39u, 42u, 43u, 45u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
-	46u, 61u, 63u, 64u, 194u, 195u, 198u, 199u, 
-	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
-	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
-	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
-	239u, 240u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 48u, 57u, 
-	65u, 90u, 97u, 122u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 46u, 61u, 63u, 64u, 83u, 
-	115u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
-	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
-	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
-	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
-	39u, 42u, 43u, 45u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 46u, 61u, 63u, 64u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
-	42u, 43u, 45u, 57u, 65u, 90u, 94u, 96u, 
-	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 194u, 195u, 198u, 199u, 203u, 205u, 
+	61u, 63u, 64u, 95u, 194u, 195u, 203u, 205u, 
 	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
 	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
 	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	65u, 90u, 97u, 122u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 45u, 46u, 47u, 61u, 63u, 
-	64u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
-	45u, 46u, 47u, 61u, 63u, 64u, 105u, 35u, 
-	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 33u, 45u, 46u, 
-	47u, 61u, 63u, 64u, 111u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 100u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	111u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
-	45u, 46u, 47u, 61u, 63u, 64u, 110u, 35u, 
-	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 33u, 45u, 46u, 
-	47u, 61u, 63u, 64u, 105u, 35u, 39u, 42u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 33u, 45u, 46u, 47u, 
+	61u, 63u, 64u, 95u, 194u, 195u, 203u, 205u, 
+	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
+	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
+	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 45u, 95u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 35u, 39u, 42u, 
 	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 101u, 35u, 39u, 42u, 43u, 48u, 
+	122u, 123u, 126u, 47u, 95u, 44u, 58u, 64u, 
+	90u, 97u, 122u, 33u, 45u, 46u, 47u, 58u, 
+	61u, 63u, 64u, 95u, 194u, 195u, 203u, 205u, 
+	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
+	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
+	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 33u, 38u, 39u, 45u, 
+	46u, 47u, 58u, 61u, 63u, 64u, 95u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
 	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	114u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 46u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 35u, 37u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 196u, 
-	202u, 208u, 218u, 229u, 236u, 33u, 46u, 61u, 
-	64u, 83u, 115u, 35u, 39u, 42u, 43u, 45u, 
-	57u, 63u, 90u, 94u, 126u, 33u, 45u, 61u, 
-	63u, 91u, 194u, 195u, 198u, 199u, 203u, 205u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	46u, 61u, 63u, 64u, 194u, 195u, 203u, 205u, 
 	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
 	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
 	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	35u, 39u, 42u, 43u, 47u, 57u, 65u, 90u, 
+	35u, 39u, 42u, 43u, 45u, 57u, 65u, 90u, 
 	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
 	208u, 218u, 229u, 236u, 33u, 46u, 61u, 63u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
-	42u, 43u, 45u, 47u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 38u, 39u, 45u, 64u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
+	64u, 194u, 195u, 203u, 205u, 206u, 207u, 210u, 
+	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
+	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
+	233u, 234u, 237u, 239u, 240u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 194u, 195u, 203u, 205u, 206u, 
 	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
 	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
 	227u, 228u, 233u, 234u, 237u, 239u, 240u, 48u, 
 	57u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 83u, 115u, 33u, 38u, 39u, 
-	45u, 46u, 47u, 58u, 61u, 63u, 64u, 95u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
+	218u, 229u, 236u, 33u, 46u, 61u, 63u, 64u, 
+	83u, 115u, 194u, 195u, 203u, 205u, 206u, 207u, 
 	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
 	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 37u, 
-	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
+	42u, 43u, 45u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 38u, 39u, 45u, 64u, 95u, 194u, 
-	195u, 198u, 199u, 203u, 205u, 206u, 207u, 210u, 
-	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
-	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
-	233u, 234u, 237u, 239u, 240u, 48u, 57u, 65u, 
-	90u, 97u, 122u, 196u, 202u, 208u, 218u, 229u, 
-	236u, 83u, 115u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
-	47u, 58u, 61u, 63u, 64u, 95u, 105u, 116u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 37u, 
+	229u, 236u, 33u, 46u, 61u, 63u, 64u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 39u, 42u, 43u, 45u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 65u, 90u, 97u, 122u, 196u, 
+	202u, 208u, 218u, 229u, 236u, 33u, 45u, 46u, 
+	47u, 61u, 63u, 64u, 35u, 39u, 42u, 43u, 
+	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
+	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
+	64u, 105u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 111u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 100u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
-	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 38u, 39u, 45u, 46u, 47u, 
-	58u, 61u, 63u, 64u, 95u, 108u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
-	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
-	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 37u, 42u, 43u, 
+	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
+	61u, 63u, 64u, 111u, 35u, 39u, 42u, 43u, 
+	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
+	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
+	64u, 110u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 105u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 101u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
+	61u, 63u, 64u, 114u, 35u, 39u, 42u, 43u, 
 	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 101u, 194u, 195u, 198u, 199u, 
+	123u, 126u, 46u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 194u, 195u, 
 	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
 	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
 	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
 	239u, 240u, 35u, 37u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	196u, 202u, 208u, 218u, 229u, 236u, 33u, 38u, 
-	39u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 33u, 46u, 
+	61u, 64u, 83u, 115u, 35u, 39u, 42u, 43u, 
+	45u, 57u, 63u, 90u, 94u, 126u, 33u, 45u, 
+	61u, 63u, 91u, 194u, 195u, 203u, 205u, 206u, 
 	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
 	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
 	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
-	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	39u, 42u, 43u, 47u, 57u, 65u, 90u, 94u, 
 	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 45u, 47u, 58u, 64u, 95u, 
-	44u, 46u, 48u, 57u, 65u, 90u, 97u, 122u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 112u, 194u, 195u, 198u, 199u, 
+	218u, 229u, 236u, 33u, 46u, 61u, 63u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 39u, 42u, 43u, 45u, 
+	47u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
+	122u, 123u, 126u, 196u, 202u, 208u, 218u, 229u, 
+	236u, 38u, 39u, 45u, 64u, 95u, 194u, 195u, 
 	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
 	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
 	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
-	239u, 240u, 35u, 37u, 42u, 43u, 48u, 57u, 
-	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	196u, 202u, 208u, 218u, 229u, 236u, 33u, 38u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 65u, 90u, 97u, 122u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 83u, 115u, 33u, 38u, 
 	39u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	95u, 116u, 194u, 195u, 198u, 199u, 203u, 205u, 
-	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
-	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
-	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	35u, 37u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 33u, 38u, 39u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 95u, 116u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 37u, 
-	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
-	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 38u, 39u, 45u, 46u, 47u, 
-	58u, 61u, 63u, 64u, 95u, 112u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
+	95u, 194u, 195u, 203u, 205u, 206u, 207u, 210u, 
+	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
+	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
+	233u, 234u, 237u, 239u, 240u, 35u, 37u, 42u, 
+	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
+	122u, 123u, 126u, 196u, 202u, 208u, 218u, 229u, 
+	236u, 38u, 39u, 45u, 64u, 95u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 83u, 115u, 
+	194u, 195u, 203u, 205u, 206u, 207u, 210u, 212u, 
 	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
 	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 37u, 42u, 43u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 115u, 194u, 195u, 198u, 199u, 
+	234u, 237u, 239u, 240u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 33u, 38u, 
+	39u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
+	95u, 105u, 116u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 108u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	38u, 39u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 101u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 194u, 195u, 
 	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
 	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
 	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
 	239u, 240u, 35u, 37u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	196u, 202u, 208u, 218u, 229u, 236u, 170u, 181u, 
-	186u, 38u, 39u, 45u, 46u, 64u, 95u, 194u, 
-	195u, 198u, 199u, 203u, 205u, 206u, 207u, 210u, 
-	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
-	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
-	233u, 234u, 237u, 239u, 240u, 48u, 57u, 65u, 
-	90u, 97u, 122u, 196u, 202u, 208u, 218u, 229u, 
-	236u, 128u, 150u, 152u, 182u, 184u, 255u, 192u, 
-	255u, 128u, 255u, 173u, 130u, 133u, 146u, 159u, 
-	165u, 171u, 175u, 255u, 133u, 176u, 180u, 182u, 
-	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
-	161u, 163u, 255u, 182u, 130u, 137u, 164u, 176u, 
-	151u, 152u, 154u, 160u, 190u, 136u, 175u, 192u, 
-	255u, 135u, 129u, 130u, 132u, 133u, 144u, 170u, 
-	176u, 178u, 144u, 154u, 161u, 191u, 128u, 151u, 
-	153u, 158u, 174u, 255u, 148u, 157u, 160u, 169u, 
-	172u, 176u, 185u, 189u, 190u, 192u, 255u, 144u, 
-	191u, 141u, 255u, 178u, 255u, 186u, 138u, 170u, 
-	180u, 181u, 164u, 165u, 166u, 167u, 168u, 169u, 
-	170u, 171u, 172u, 173u, 174u, 175u, 176u, 177u, 
-	178u, 179u, 180u, 181u, 182u, 183u, 184u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 128u, 129u, 130u, 
-	131u, 133u, 134u, 135u, 137u, 138u, 139u, 140u, 
-	141u, 142u, 143u, 144u, 153u, 154u, 155u, 156u, 
-	157u, 158u, 159u, 160u, 161u, 162u, 164u, 165u, 
-	166u, 167u, 168u, 172u, 173u, 174u, 176u, 177u, 
-	180u, 181u, 182u, 184u, 188u, 189u, 190u, 191u, 
-	132u, 136u, 145u, 152u, 185u, 187u, 129u, 130u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 45u, 47u, 
+	58u, 64u, 95u, 44u, 46u, 48u, 57u, 65u, 
+	90u, 97u, 122u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 112u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	38u, 39u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 116u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 116u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	38u, 39u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 112u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 115u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 170u, 
+	181u, 186u, 38u, 39u, 45u, 46u, 64u, 95u, 
+	194u, 195u, 203u, 205u, 206u, 207u, 210u, 212u, 
+	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
+	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
+	234u, 237u, 239u, 240u, 48u, 57u, 65u, 90u, 
+	97u, 122u, 196u, 202u, 208u, 218u, 229u, 236u, 
+	128u, 150u, 152u, 182u, 184u, 191u, 128u, 191u, 
+	172u, 174u, 128u, 129u, 134u, 145u, 160u, 164u, 
+	133u, 176u, 180u, 182u, 183u, 186u, 189u, 134u, 
+	140u, 136u, 138u, 142u, 161u, 163u, 191u, 128u, 
+	181u, 183u, 191u, 128u, 129u, 138u, 191u, 128u, 
+	163u, 177u, 191u, 153u, 128u, 150u, 161u, 191u, 
+	191u, 128u, 135u, 176u, 189u, 135u, 129u, 130u, 
+	132u, 133u, 144u, 170u, 176u, 178u, 144u, 154u, 
+	161u, 191u, 128u, 151u, 153u, 158u, 174u, 191u, 
+	191u, 128u, 147u, 149u, 156u, 161u, 168u, 173u, 
+	175u, 186u, 188u, 144u, 191u, 141u, 191u, 128u, 
+	177u, 186u, 138u, 170u, 180u, 181u, 164u, 165u, 
+	166u, 167u, 168u, 169u, 170u, 171u, 172u, 173u, 
+	174u, 175u, 176u, 177u, 178u, 179u, 180u, 181u, 
+	182u, 183u, 184u, 185u, 186u, 187u, 188u, 189u, 
+	190u, 128u, 129u, 130u, 131u, 133u, 134u, 135u, 
+	137u, 138u, 139u, 140u, 141u, 142u, 143u, 144u, 
+	153u, 154u, 155u, 156u, 157u, 158u, 159u, 160u, 
+	161u, 162u, 164u, 165u, 166u, 167u, 168u, 172u, 
+	173u, 174u, 176u, 177u, 188u, 189u, 190u, 191u, 
+	132u, 152u, 180u, 182u, 184u, 187u, 129u, 130u, 
 	132u, 133u, 134u, 146u, 147u, 176u, 177u, 178u, 
 	179u, 180u, 181u, 182u, 183u, 184u, 128u, 129u, 
-	130u, 131u, 132u, 133u, 134u, 135u, 144u, 145u, 
-	255u, 182u, 183u, 184u, 191u, 192u, 255u, 128u, 
-	146u, 148u, 152u, 153u, 154u, 156u, 157u, 158u, 
-	159u, 160u, 161u, 162u, 163u, 164u, 165u, 168u, 
-	169u, 176u, 129u, 145u, 149u, 151u, 177u, 255u, 
-	158u, 159u, 255u, 164u, 168u, 169u, 171u, 172u, 
-	173u, 174u, 175u, 180u, 181u, 182u, 183u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 191u, 165u, 179u, 
-	144u, 146u, 157u, 160u, 170u, 175u, 161u, 169u, 
-	0
+	130u, 131u, 132u, 133u, 134u, 135u, 144u, 191u, 
+	182u, 128u, 181u, 184u, 191u, 128u, 191u, 191u, 
+	128u, 190u, 146u, 152u, 153u, 154u, 156u, 158u, 
+	159u, 160u, 161u, 163u, 164u, 165u, 168u, 169u, 
+	128u, 145u, 148u, 151u, 157u, 162u, 176u, 191u, 
+	158u, 128u, 157u, 168u, 169u, 171u, 172u, 173u, 
+	174u, 175u, 180u, 181u, 182u, 183u, 185u, 186u, 
+	187u, 188u, 189u, 190u, 191u, 164u, 179u, 144u, 
+	146u, 157u, 170u, 175u, 160u, 169u, 0
 };
 
 static const char _StdTok_single_lengths[] = {
 	0, 0, 4, 4, 5, 4, 2, 0, 
-	2, 1, 0, 5, 37, 7, 7, 13, 
+	2, 1, 0, 5, 35, 7, 7, 13, 
 	7, 0, 8, 8, 8, 8, 8, 8, 
-	8, 8, 8, 35, 3, 30, 0, 0, 
-	0, 0, 1, 1, 2, 1, 0, 0, 
-	0, 1, 1, 0, 0, 1, 0, 0, 
-	0, 1, 27, 0, 0, 1, 2, 0, 
-	1, 0, 2, 0, 1, 1, 2, 0, 
-	3, 0, 1, 0, 2, 1, 1, 0, 
-	1, 5, 2, 1, 0, 0, 43, 1, 
-	0, 0, 1, 0, 0, 0, 3, 2, 
-	1, 1, 0, 0, 0, 0, 0, 0, 
+	8, 8, 8, 33, 3, 28, 0, 0, 
+	2, 1, 2, 0, 0, 0, 1, 1, 
+	1, 0, 0, 1, 0, 0, 0, 1, 
+	27, 0, 1, 1, 2, 0, 2, 0, 
+	1, 0, 1, 1, 2, 0, 0, 0, 
+	1, 0, 1, 1, 1, 0, 1, 5, 
+	2, 1, 0, 0, 39, 1, 0, 1, 
+	1, 0, 0, 0, 1, 0, 1, 0, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 2, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 1, 0, 16, 2, 0, 6, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	1, 0, 0, 1, 8, 0, 0, 0, 
+	0, 0, 0, 1, 0, 1, 0, 14, 
+	0, 0, 1, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 1, 0, 18, 
+	0, 0, 0, 1, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 5, 
+	15, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 3, 0, 0, 3, 0, 
+	0, 11, 0, 2, 0, 0, 1, 0, 
+	1, 0, 0, 0, 0, 1, 0, 1, 
+	13, 1, 1, 3, 0, 0, 2, 1, 
+	2, 0, 0, 0, 1, 1, 1, 0, 
+	0, 1, 0, 0, 0, 1, 27, 0, 
+	1, 1, 2, 0, 2, 0, 1, 0, 
+	1, 1, 2, 0, 0, 0, 1, 0, 
+	1, 1, 1, 0, 1, 5, 2, 1, 
+	0, 0, 39, 1, 0, 1, 1, 0, 
+	0, 0, 1, 0, 1, 0, 1, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	2, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
+	1, 0, 16, 2, 0, 6, 1, 0, 
 	0, 0, 0, 0, 0, 0, 1, 0, 
-	0, 0, 0, 4, 1, 0, 16, 2, 
-	0, 6, 1, 0, 0, 0, 0, 2, 
-	0, 0, 0, 0, 0, 1, 9, 0, 
-	1, 1, 0, 0, 0, 3, 0, 0, 
-	1, 0, 19, 0, 0, 1, 0, 0, 
-	0, 0, 3, 0, 0, 0, 0, 0, 
-	1, 0, 19, 0, 0, 0, 1, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 6, 17, 0, 0, 0, 
+	0, 1, 8, 0, 0, 0, 0, 0, 
+	0, 1, 0, 1, 0, 14, 0, 0, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 1, 0, 18, 0, 0, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 5, 15, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 3, 0, 0, 11, 
+	0, 2, 0, 0, 1, 0, 1, 0, 
+	0, 0, 0, 1, 0, 1, 3, 0, 
+	0, 2, 1, 2, 0, 0, 0, 1, 
+	1, 1, 0, 0, 1, 0, 0, 0, 
+	1, 27, 0, 1, 1, 2, 0, 2, 
+	0, 1, 0, 1, 1, 2, 0, 0, 
+	0, 1, 0, 1, 1, 1, 0, 1, 
+	5, 2, 1, 0, 0, 39, 1, 0, 
+	1, 1, 0, 0, 0, 1, 0, 1, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 2, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 3, 1, 0, 16, 2, 0, 
+	6, 1, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 0, 1, 8, 0, 0, 
+	0, 0, 0, 0, 1, 0, 1, 0, 
+	14, 0, 0, 1, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 1, 0, 
-	3, 0, 0, 4, 0, 0, 12, 1, 
-	4, 1, 4, 1, 0, 3, 2, 2, 
-	2, 1, 1, 1, 0, 2, 13, 1, 
-	1, 3, 0, 0, 0, 0, 1, 1, 
-	2, 1, 0, 0, 0, 1, 1, 0, 
+	18, 0, 0, 0, 1, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	5, 15, 1, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 3, 0, 0, 3, 
+	0, 0, 11, 0, 2, 0, 0, 1, 
+	0, 1, 0, 0, 0, 0, 1, 0, 
+	1, 41, 3, 28, 0, 0, 2, 1, 
+	2, 0, 0, 0, 1, 1, 1, 0, 
 	0, 1, 0, 0, 0, 1, 27, 0, 
-	0, 1, 2, 0, 1, 0, 2, 0, 
-	1, 1, 2, 0, 3, 0, 1, 0, 
-	2, 1, 1, 0, 1, 5, 2, 1, 
-	0, 0, 43, 1, 0, 0, 1, 0, 
-	0, 0, 3, 2, 1, 1, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 1, 0, 0, 0, 0, 4, 
+	1, 1, 2, 0, 2, 0, 1, 0, 
+	1, 1, 2, 0, 0, 0, 1, 0, 
+	1, 1, 1, 0, 1, 5, 2, 1, 
+	0, 0, 39, 1, 0, 1, 1, 0, 
+	0, 0, 1, 0, 1, 0, 1, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	2, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
 	1, 0, 16, 2, 0, 6, 1, 0, 
+	0, 0, 0, 0, 0, 0, 1, 0, 
+	0, 1, 8, 0, 0, 0, 0, 0, 
+	0, 1, 0, 1, 0, 14, 0, 0, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 1, 0, 18, 0, 0, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 5, 15, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 3, 0, 0, 11, 
+	0, 2, 0, 0, 1, 0, 1, 0, 
+	0, 0, 0, 1, 0, 1, 3, 0, 
+	0, 2, 1, 2, 0, 0, 0, 1, 
+	1, 1, 0, 0, 1, 0, 0, 0, 
+	1, 27, 0, 1, 1, 2, 0, 2, 
+	0, 1, 0, 1, 1, 2, 0, 0, 
+	0, 1, 0, 1, 1, 1, 0, 1, 
+	5, 2, 1, 0, 0, 39, 1, 0, 
+	1, 1, 0, 0, 0, 1, 0, 1, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 2, 0, 0, 0, 0, 
-	0, 1, 9, 0, 1, 1, 0, 0, 
-	0, 3, 0, 0, 1, 0, 19, 0, 
-	0, 1, 0, 0, 0, 0, 3, 0, 
-	0, 0, 0, 0, 1, 0, 19, 0, 
-	0, 0, 1, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 6, 
-	17, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 1, 0, 3, 0, 0, 4, 
-	0, 0, 12, 1, 4, 1, 4, 1, 
-	0, 3, 2, 2, 2, 1, 1, 1, 
-	0, 2, 3, 0, 0, 0, 0, 1, 
-	1, 2, 1, 0, 0, 0, 1, 1, 
-	0, 0, 1, 0, 0, 0, 1, 27, 
-	0, 0, 1, 2, 0, 1, 0, 2, 
-	0, 1, 1, 2, 0, 3, 0, 1, 
-	0, 2, 1, 1, 0, 1, 5, 2, 
-	1, 0, 0, 43, 1, 0, 0, 1, 
-	0, 0, 0, 3, 2, 1, 1, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 1, 0, 0, 0, 0, 
-	4, 1, 0, 16, 2, 0, 6, 1, 
-	0, 0, 0, 0, 2, 0, 0, 0, 
-	0, 0, 1, 9, 0, 1, 1, 0, 
-	0, 0, 3, 0, 0, 1, 0, 19, 
-	0, 0, 1, 0, 0, 0, 0, 3, 
-	0, 0, 0, 0, 0, 1, 0, 19, 
-	0, 0, 0, 1, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	6, 17, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 1, 0, 3, 0, 0, 
-	4, 0, 0, 12, 1, 4, 1, 4, 
-	1, 0, 3, 2, 2, 2, 1, 1, 
-	1, 0, 2, 43, 3, 30, 0, 0, 
-	0, 0, 1, 1, 2, 1, 0, 0, 
-	0, 1, 1, 0, 0, 1, 0, 0, 
-	0, 1, 27, 0, 0, 1, 2, 0, 
-	1, 0, 2, 0, 1, 1, 2, 0, 
-	3, 0, 1, 0, 2, 1, 1, 0, 
-	1, 5, 2, 1, 0, 0, 43, 1, 
-	0, 0, 1, 0, 0, 0, 3, 2, 
-	1, 1, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 3, 1, 0, 16, 2, 0, 
+	6, 1, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 0, 1, 8, 0, 0, 
+	0, 0, 0, 0, 1, 0, 1, 0, 
+	14, 0, 0, 1, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 1, 0, 
-	0, 0, 0, 4, 1, 0, 16, 2, 
-	0, 6, 1, 0, 0, 0, 0, 2, 
-	0, 0, 0, 0, 0, 1, 9, 0, 
-	1, 1, 0, 0, 0, 3, 0, 0, 
-	1, 0, 19, 0, 0, 1, 0, 0, 
-	0, 0, 3, 0, 0, 0, 0, 0, 
-	1, 0, 19, 0, 0, 0, 1, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 6, 17, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 1, 0, 
-	3, 0, 0, 4, 0, 0, 12, 1, 
-	4, 1, 4, 1, 0, 3, 2, 2, 
-	2, 1, 1, 1, 0, 2, 3, 0, 
-	0, 0, 0, 1, 1, 2, 1, 0, 
-	0, 0, 1, 1, 0, 0, 1, 0, 
-	0, 0, 1, 27, 0, 0, 1, 2, 
-	0, 1, 0, 2, 0, 1, 1, 2, 
-	0, 3, 0, 1, 0, 2, 1, 1, 
-	0, 1, 5, 2, 1, 0, 0, 43, 
-	1, 0, 0, 1, 0, 0, 0, 3, 
-	2, 1, 1, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 0, 0, 0, 4, 1, 0, 16, 
-	2, 0, 6, 1, 0, 0, 0, 0, 
-	2, 0, 0, 0, 0, 0, 1, 9, 
-	0, 1, 1, 0, 0, 0, 3, 0, 
-	0, 1, 0, 19, 0, 0, 1, 0, 
-	0, 0, 0, 3, 0, 0, 0, 0, 
-	0, 1, 0, 19, 0, 0, 0, 1, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 6, 17, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 3, 0, 0, 4, 0, 0, 12, 
-	1, 4, 1, 4, 1, 0, 3, 2, 
-	2, 2, 1, 1, 1, 0, 2, 3, 
-	0, 0, 0, 0, 1, 1, 2, 1, 
-	0, 0, 0, 1, 1, 0, 0, 1, 
-	0, 0, 0, 1, 27, 0, 0, 1, 
-	2, 0, 1, 0, 2, 0, 1, 1, 
-	2, 0, 3, 0, 1, 0, 2, 1, 
+	18, 0, 0, 0, 1, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	5, 15, 1, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 3, 0, 0, 3, 
+	0, 0, 11, 0, 2, 0, 0, 1, 
+	0, 1, 0, 0, 0, 0, 1, 0, 
+	1, 3, 0, 0, 2, 1, 2, 0, 
+	0, 0, 1, 1, 1, 0, 0, 1, 
+	0, 0, 0, 1, 27, 0, 1, 1, 
+	2, 0, 2, 0, 1, 0, 1, 1, 
+	2, 0, 0, 0, 1, 0, 1, 1, 
 	1, 0, 1, 5, 2, 1, 0, 0, 
-	43, 1, 0, 0, 1, 0, 0, 0, 
-	3, 2, 1, 1, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	39, 1, 0, 1, 1, 0, 0, 0, 
+	1, 0, 1, 0, 1, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 2, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 0, 0, 0, 4, 1, 0, 
+	0, 0, 0, 0, 0, 3, 1, 0, 
 	16, 2, 0, 6, 1, 0, 0, 0, 
-	0, 2, 0, 0, 0, 0, 0, 1, 
-	9, 0, 1, 1, 0, 0, 0, 3, 
-	0, 0, 1, 0, 19, 0, 0, 1, 
-	0, 0, 0, 0, 3, 0, 0, 0, 
-	0, 0, 1, 0, 19, 0, 0, 0, 
-	1, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 6, 17, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 3, 0, 0, 4, 0, 0, 
-	12, 1, 4, 1, 4, 1, 0, 3, 
-	2, 2, 2, 1, 1, 1, 0, 2, 
-	1, 5, 0, 0, 1, 2, 0, 1, 
-	0, 2, 0, 1, 1, 2, 0, 3, 
-	0, 1, 0, 2, 1, 1, 0, 1, 
-	5, 2, 1, 0, 0, 1, 0, 0, 
-	1, 0, 0, 0, 0, 3, 2, 1, 
-	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 1, 0, 0, 1, 
+	8, 0, 0, 0, 0, 0, 0, 1, 
+	0, 1, 0, 14, 0, 0, 1, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 18, 0, 0, 0, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 5, 15, 1, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
+	0, 0, 3, 0, 0, 11, 0, 2, 
+	0, 0, 1, 0, 1, 0, 0, 0, 
+	0, 1, 0, 1, 1, 5, 0, 1, 
+	1, 2, 0, 2, 0, 1, 0, 1, 
+	1, 2, 0, 0, 0, 1, 0, 1, 
+	1, 1, 0, 1, 5, 2, 1, 0, 
+	0, 1, 0, 1, 1, 0, 0, 0, 
+	0, 1, 0, 1, 0, 1, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 2, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 3, 1, 
+	0, 2, 0, 6, 1, 0, 0, 0, 
+	0, 0, 0, 0, 1, 0, 0, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 1, 0, 
-	0, 0, 0, 0, 4, 1, 0, 2, 
-	0, 6, 1, 0, 0, 0, 0, 2, 
-	0, 0, 0, 0, 0, 1, 0, 1, 
 	1, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 0, 0, 0, 3, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 17, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 3, 0, 0, 4, 0, 0, 12, 
-	1, 4, 1, 4, 1, 0, 3, 2, 
-	2, 2, 1, 1, 0, 1, 0, 2, 
-	0, 40, 4, 4, 2, 4, 4, 4, 
-	39, 8, 1, 9, 9, 9, 9, 10, 
-	9, 9, 9, 38, 38, 32, 7, 2, 
-	39, 41, 35, 35, 30, 37, 35, 30, 
-	7, 8, 8, 8, 8, 8, 8, 8, 
-	8, 1, 41, 6, 35, 34, 35, 30, 
-	2, 41, 35, 32, 43, 42, 42, 41, 
-	5, 42, 42, 42, 42, 42, 3, 36, 
-	0, 0, 0, 0, 1, 1, 2, 1, 
-	0, 0, 0, 1, 1, 0, 0, 1, 
-	0, 0, 0, 1, 27, 43, 16, 9, 
-	3, 0, 1, 19, 1, 19, 6
+	0, 0, 0, 0, 0, 0, 15, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 3, 0, 0, 11, 
+	0, 2, 0, 0, 1, 0, 1, 0, 
+	0, 0, 0, 0, 1, 0, 1, 0, 
+	38, 4, 4, 2, 4, 4, 4, 37, 
+	8, 1, 9, 9, 9, 9, 10, 9, 
+	9, 9, 36, 36, 30, 7, 2, 37, 
+	39, 33, 33, 28, 35, 33, 28, 7, 
+	8, 8, 8, 8, 8, 8, 8, 8, 
+	1, 39, 6, 33, 32, 33, 28, 2, 
+	39, 33, 30, 41, 40, 40, 39, 5, 
+	40, 40, 40, 40, 40, 3, 34, 0, 
+	0, 2, 1, 2, 0, 0, 0, 1, 
+	1, 1, 0, 0, 1, 0, 0, 0, 
+	1, 27, 39, 16, 8, 1, 0, 1, 
+	14, 1, 18, 5
 };
 
 static const char _StdTok_range_lengths[] = {
 	0, 0, 5, 5, 5, 5, 5, 3, 
 	4, 0, 3, 5, 10, 7, 7, 7, 
 	7, 1, 7, 7, 7, 7, 7, 7, 
-	7, 7, 7, 11, 0, 6, 3, 0, 
-	1, 1, 4, 3, 3, 0, 1, 1, 
-	2, 2, 4, 2, 3, 5, 1, 1, 
-	1, 2, 0, 2, 5, 7, 6, 9, 
-	6, 8, 3, 8, 6, 10, 3, 7, 
-	3, 7, 5, 6, 4, 4, 4, 1, 
-	1, 8, 2, 0, 3, 4, 3, 2, 
-	3, 2, 2, 1, 1, 1, 2, 3, 
-	3, 1, 2, 2, 1, 1, 2, 2, 
-	2, 3, 4, 2, 3, 1, 1, 1, 
-	3, 2, 2, 1, 1, 2, 1, 2, 
-	1, 2, 2, 3, 2, 7, 0, 0, 
-	1, 5, 2, 1, 1, 1, 2, 1, 
-	1, 2, 2, 5, 5, 0, 1, 4, 
-	1, 1, 2, 2, 1, 0, 1, 0, 
-	1, 1, 3, 1, 3, 2, 1, 2, 
-	2, 1, 1, 1, 2, 1, 1, 1, 
-	1, 1, 1, 1, 1, 1, 5, 3, 
-	1, 1, 1, 1, 2, 2, 1, 1, 
-	2, 1, 4, 1, 0, 5, 2, 1, 
-	1, 2, 1, 2, 1, 2, 2, 1, 
-	3, 2, 5, 1, 1, 1, 1, 0, 
-	3, 0, 2, 3, 1, 0, 0, 0, 
-	0, 1, 1, 1, 1, 1, 7, 0, 
-	3, 0, 3, 0, 1, 1, 4, 3, 
-	3, 0, 1, 1, 2, 2, 4, 2, 
+	7, 7, 7, 11, 0, 6, 3, 1, 
+	3, 3, 3, 2, 2, 2, 2, 2, 
+	4, 2, 3, 5, 1, 1, 1, 2, 
+	0, 2, 4, 7, 6, 9, 5, 8, 
+	4, 8, 6, 10, 3, 7, 6, 7, 
+	5, 6, 5, 4, 4, 1, 1, 8, 
+	2, 0, 3, 4, 3, 2, 3, 2, 
+	2, 2, 2, 1, 5, 5, 3, 3, 
+	1, 2, 1, 1, 2, 2, 2, 3, 
+	4, 2, 1, 1, 1, 1, 3, 2, 
+	2, 1, 1, 2, 2, 2, 1, 2, 
+	3, 4, 2, 7, 0, 0, 1, 5, 
+	2, 1, 1, 1, 2, 3, 1, 2, 
+	1, 5, 5, 0, 1, 4, 3, 2, 
+	2, 2, 1, 2, 1, 1, 1, 4, 
+	1, 3, 2, 1, 2, 2, 1, 4, 
+	1, 2, 1, 1, 1, 1, 1, 1, 
+	2, 2, 1, 5, 3, 1, 1, 2, 
+	2, 2, 1, 1, 2, 1, 4, 1, 
+	1, 4, 2, 1, 2, 1, 2, 1, 
+	2, 3, 1, 3, 2, 5, 1, 1, 
+	1, 1, 2, 6, 2, 6, 3, 2, 
+	3, 3, 3, 3, 2, 1, 1, 1, 
+	7, 0, 3, 0, 3, 1, 3, 3, 
+	3, 2, 2, 2, 2, 2, 4, 2, 
 	3, 5, 1, 1, 1, 2, 0, 2, 
-	5, 7, 6, 9, 6, 8, 3, 8, 
-	6, 10, 3, 7, 3, 7, 5, 6, 
-	4, 4, 4, 1, 1, 8, 2, 0, 
-	3, 4, 3, 2, 3, 2, 2, 1, 
-	1, 1, 2, 3, 3, 1, 2, 2, 
+	4, 7, 6, 9, 5, 8, 4, 8, 
+	6, 10, 3, 7, 6, 7, 5, 6, 
+	5, 4, 4, 1, 1, 8, 2, 0, 
+	3, 4, 3, 2, 3, 2, 2, 2, 
+	2, 1, 5, 5, 3, 3, 1, 2, 
 	1, 1, 2, 2, 2, 3, 4, 2, 
-	3, 1, 1, 1, 3, 2, 2, 1, 
-	1, 2, 1, 2, 1, 2, 2, 3, 
+	1, 1, 1, 1, 3, 2, 2, 1, 
+	1, 2, 2, 2, 1, 2, 3, 4, 
 	2, 7, 0, 0, 1, 5, 2, 1, 
-	1, 1, 2, 1, 1, 2, 2, 5, 
-	5, 0, 1, 4, 1, 1, 2, 2, 
-	1, 0, 1, 0, 1, 1, 3, 1, 
-	3, 2, 1, 2, 2, 1, 1, 1, 
-	2, 1, 1, 1, 1, 1, 1, 1, 
-	1, 1, 5, 3, 1, 1, 1, 1, 
-	2, 2, 1, 1, 2, 1, 4, 1, 
-	0, 5, 2, 1, 1, 2, 1, 2, 
-	1, 2, 2, 1, 3, 2, 5, 1, 
-	1, 1, 1, 0, 3, 0, 2, 3, 
-	1, 0, 0, 0, 0, 1, 1, 1, 
-	1, 1, 0, 3, 0, 1, 1, 4, 
-	3, 3, 0, 1, 1, 2, 2, 4, 
-	2, 3, 5, 1, 1, 1, 2, 0, 
-	2, 5, 7, 6, 9, 6, 8, 3, 
-	8, 6, 10, 3, 7, 3, 7, 5, 
-	6, 4, 4, 4, 1, 1, 8, 2, 
-	0, 3, 4, 3, 2, 3, 2, 2, 
-	1, 1, 1, 2, 3, 3, 1, 2, 
-	2, 1, 1, 2, 2, 2, 3, 4, 
-	2, 3, 1, 1, 1, 3, 2, 2, 
-	1, 1, 2, 1, 2, 1, 2, 2, 
-	3, 2, 7, 0, 0, 1, 5, 2, 
-	1, 1, 1, 2, 1, 1, 2, 2, 
-	5, 5, 0, 1, 4, 1, 1, 2, 
-	2, 1, 0, 1, 0, 1, 1, 3, 
-	1, 3, 2, 1, 2, 2, 1, 1, 
-	1, 2, 1, 1, 1, 1, 1, 1, 
-	1, 1, 1, 5, 3, 1, 1, 1, 
-	1, 2, 2, 1, 1, 2, 1, 4, 
-	1, 0, 5, 2, 1, 1, 2, 1, 
-	2, 1, 2, 2, 1, 3, 2, 5, 
-	1, 1, 1, 1, 0, 3, 0, 2, 
-	3, 1, 0, 0, 0, 0, 1, 1, 
-	1, 1, 1, 10, 0, 5, 3, 0, 
-	1, 1, 4, 3, 3, 0, 1, 1, 
-	2, 2, 4, 2, 3, 5, 1, 1, 
-	1, 2, 0, 2, 5, 7, 6, 9, 
-	6, 8, 3, 8, 6, 10, 3, 7, 
-	3, 7, 5, 6, 4, 4, 4, 1, 
-	1, 8, 2, 0, 3, 4, 3, 2, 
-	3, 2, 2, 1, 1, 1, 2, 3, 
-	3, 1, 2, 2, 1, 1, 2, 2, 
-	2, 3, 4, 2, 3, 1, 1, 1, 
-	3, 2, 2, 1, 1, 2, 1, 2, 
-	1, 2, 2, 3, 2, 7, 0, 0, 
-	1, 5, 2, 1, 1, 1, 2, 1, 
-	1, 2, 2, 5, 5, 0, 1, 4, 
-	1, 1, 2, 2, 1, 0, 1, 0, 
-	1, 1, 3, 1, 3, 2, 1, 2, 
-	2, 1, 1, 1, 2, 1, 1, 1, 
-	1, 1, 1, 1, 1, 1, 5, 3, 
-	1, 1, 1, 1, 2, 2, 1, 1, 
-	2, 1, 4, 1, 0, 5, 2, 1, 
-	1, 2, 1, 2, 1, 2, 2, 1, 
-	3, 2, 5, 1, 1, 1, 1, 0, 
-	3, 0, 2, 3, 1, 0, 0, 0, 
-	0, 1, 1, 1, 1, 1, 0, 3, 
-	0, 1, 1, 4, 3, 3, 0, 1, 
-	1, 2, 2, 4, 2, 3, 5, 1, 
-	1, 1, 2, 0, 2, 5, 7, 6, 
-	9, 6, 8, 3, 8, 6, 10, 3, 
-	7, 3, 7, 5, 6, 4, 4, 4, 
-	1, 1, 8, 2, 0, 3, 4, 3, 
-	2, 3, 2, 2, 1, 1, 1, 2, 
-	3, 3, 1, 2, 2, 1, 1, 2, 
-	2, 2, 3, 4, 2, 3, 1, 1, 
-	1, 3, 2, 2, 1, 1, 2, 1, 
-	2, 1, 2, 2, 3, 2, 7, 0, 
-	0, 1, 5, 2, 1, 1, 1, 2, 
-	1, 1, 2, 2, 5, 5, 0, 1, 
-	4, 1, 1, 2, 2, 1, 0, 1, 
-	0, 1, 1, 3, 1, 3, 2, 1, 
-	2, 2, 1, 1, 1, 2, 1, 1, 
-	1, 1, 1, 1, 1, 1, 1, 5, 
-	3, 1, 1, 1, 1, 2, 2, 1, 
-	1, 2, 1, 4, 1, 0, 5, 2, 
-	1, 1, 2, 1, 2, 1, 2, 2, 
+	1, 1, 2, 3, 1, 2, 1, 5, 
+	5, 0, 1, 4, 3, 2, 2, 2, 
+	1, 2, 1, 1, 1, 4, 1, 3, 
+	2, 1, 2, 2, 1, 4, 1, 2, 
+	1, 1, 1, 1, 1, 1, 2, 2, 
+	1, 5, 3, 1, 1, 2, 2, 2, 
+	1, 1, 2, 1, 4, 1, 1, 4, 
+	2, 1, 2, 1, 2, 1, 2, 3, 
+	1, 3, 2, 5, 1, 1, 1, 1, 
+	2, 6, 2, 6, 3, 2, 3, 3, 
+	3, 3, 2, 1, 1, 1, 0, 3, 
+	1, 3, 3, 3, 2, 2, 2, 2, 
+	2, 4, 2, 3, 5, 1, 1, 1, 
+	2, 0, 2, 4, 7, 6, 9, 5, 
+	8, 4, 8, 6, 10, 3, 7, 6, 
+	7, 5, 6, 5, 4, 4, 1, 1, 
+	8, 2, 0, 3, 4, 3, 2, 3, 
+	2, 2, 2, 2, 1, 5, 5, 3, 
+	3, 1, 2, 1, 1, 2, 2, 2, 
+	3, 4, 2, 1, 1, 1, 1, 3, 
+	2, 2, 1, 1, 2, 2, 2, 1, 
+	2, 3, 4, 2, 7, 0, 0, 1, 
+	5, 2, 1, 1, 1, 2, 3, 1, 
+	2, 1, 5, 5, 0, 1, 4, 3, 
+	2, 2, 2, 1, 2, 1, 1, 1, 
+	4, 1, 3, 2, 1, 2, 2, 1, 
+	4, 1, 2, 1, 1, 1, 1, 1, 
+	1, 2, 2, 1, 5, 3, 1, 1, 
+	2, 2, 2, 1, 1, 2, 1, 4, 
+	1, 1, 4, 2, 1, 2, 1, 2, 
+	1, 2, 3, 1, 3, 2, 5, 1, 
+	1, 1, 1, 2, 6, 2, 6, 3, 
+	2, 3, 3, 3, 3, 2, 1, 1, 
+	1, 10, 0, 5, 3, 1, 3, 3, 
+	3, 2, 2, 2, 2, 2, 4, 2, 
+	3, 5, 1, 1, 1, 2, 0, 2, 
+	4, 7, 6, 9, 5, 8, 4, 8, 
+	6, 10, 3, 7, 6, 7, 5, 6, 
+	5, 4, 4, 1, 1, 8, 2, 0, 
+	3, 4, 3, 2, 3, 2, 2, 2, 
+	2, 1, 5, 5, 3, 3, 1, 2, 
+	1, 1, 2, 2, 2, 3, 4, 2, 
+	1, 1, 1, 1, 3, 2, 2, 1, 
+	1, 2, 2, 2, 1, 2, 3, 4, 
+	2, 7, 0, 0, 1, 5, 2, 1, 
+	1, 1, 2, 3, 1, 2, 1, 5, 
+	5, 0, 1, 4, 3, 2, 2, 2, 
+	1, 2, 1, 1, 1, 4, 1, 3, 
+	2, 1, 2, 2, 1, 4, 1, 2, 
+	1, 1, 1, 1, 1, 1, 2, 2, 
+	1, 5, 3, 1, 1, 2, 2, 2, 
+	1, 1, 2, 1, 4, 1, 1, 4, 
+	2, 1, 2, 1, 2, 1, 2, 3, 
 	1, 3, 2, 5, 1, 1, 1, 1, 
-	0, 3, 0, 2, 3, 1, 0, 0, 
-	0, 0, 1, 1, 1, 1, 1, 0, 
-	3, 0, 1, 1, 4, 3, 3, 0, 
-	1, 1, 2, 2, 4, 2, 3, 5, 
-	1, 1, 1, 2, 0, 2, 5, 7, 
-	6, 9, 6, 8, 3, 8, 6, 10, 
-	3, 7, 3, 7, 5, 6, 4, 4, 
+	2, 6, 2, 6, 3, 2, 3, 3, 
+	3, 3, 2, 1, 1, 1, 0, 3, 
+	1, 3, 3, 3, 2, 2, 2, 2, 
+	2, 4, 2, 3, 5, 1, 1, 1, 
+	2, 0, 2, 4, 7, 6, 9, 5, 
+	8, 4, 8, 6, 10, 3, 7, 6, 
+	7, 5, 6, 5, 4, 4, 1, 1, 
+	8, 2, 0, 3, 4, 3, 2, 3, 
+	2, 2, 2, 2, 1, 5, 5, 3, 
+	3, 1, 2, 1, 1, 2, 2, 2, 
+	3, 4, 2, 1, 1, 1, 1, 3, 
+	2, 2, 1, 1, 2, 2, 2, 1, 
+	2, 3, 4, 2, 7, 0, 0, 1, 
+	5, 2, 1, 1, 1, 2, 3, 1, 
+	2, 1, 5, 5, 0, 1, 4, 3, 
+	2, 2, 2, 1, 2, 1, 1, 1, 
+	4, 1, 3, 2, 1, 2, 2, 1, 
+	4, 1, 2, 1, 1, 1, 1, 1, 
+	1, 2, 2, 1, 5, 3, 1, 1, 
+	2, 2, 2, 1, 1, 2, 1, 4, 
+	1, 1, 4, 2, 1, 2, 1, 2, 
+	1, 2, 3, 1, 3, 2, 5, 1, 
+	1, 1, 1, 2, 6, 2, 6, 3, 
+	2, 3, 3, 3, 3, 2, 1, 1, 
+	1, 0, 3, 1, 3, 3, 3, 2, 
+	2, 2, 2, 2, 4, 2, 3, 5, 
+	1, 1, 1, 2, 0, 2, 4, 7, 
+	6, 9, 5, 8, 4, 8, 6, 10, 
+	3, 7, 6, 7, 5, 6, 5, 4, 
 	4, 1, 1, 8, 2, 0, 3, 4, 
-	3, 2, 3, 2, 2, 1, 1, 1, 
-	2, 3, 3, 1, 2, 2, 1, 1, 
-	2, 2, 2, 3, 4, 2, 3, 1, 
+	3, 2, 3, 2, 2, 2, 2, 1, 
+	5, 5, 3, 3, 1, 2, 1, 1, 
+	2, 2, 2, 3, 4, 2, 1, 1, 
 	1, 1, 3, 2, 2, 1, 1, 2, 
-	1, 2, 1, 2, 2, 3, 2, 7, 
+	2, 2, 1, 2, 3, 4, 2, 7, 
 	0, 0, 1, 5, 2, 1, 1, 1, 
-	2, 1, 1, 2, 2, 5, 5, 0, 
-	1, 4, 1, 1, 2, 2, 1, 0, 
-	1, 0, 1, 1, 3, 1, 3, 2, 
-	1, 2, 2, 1, 1, 1, 2, 1, 
-	1, 1, 1, 1, 1, 1, 1, 1, 
+	2, 3, 1, 2, 1, 5, 5, 0, 
+	1, 4, 3, 2, 2, 2, 1, 2, 
+	1, 1, 1, 4, 1, 3, 2, 1, 
+	2, 2, 1, 4, 1, 2, 1, 1, 
+	1, 1, 1, 1, 2, 2, 1, 5, 
+	3, 1, 1, 2, 2, 2, 1, 1, 
+	2, 1, 4, 1, 1, 4, 2, 1, 
+	2, 1, 2, 1, 2, 3, 1, 3, 
+	2, 5, 1, 1, 1, 1, 2, 6, 
+	2, 6, 3, 2, 3, 3, 3, 3, 
+	2, 1, 1, 1, 0, 4, 2, 4, 
+	7, 6, 9, 5, 8, 4, 8, 6, 
+	10, 3, 7, 6, 7, 5, 6, 5, 
+	4, 4, 1, 1, 8, 2, 0, 3, 
+	4, 2, 3, 2, 2, 1, 2, 2, 
+	1, 5, 5, 3, 3, 1, 2, 1, 
+	1, 2, 2, 2, 3, 4, 2, 1, 
+	1, 1, 1, 3, 2, 2, 1, 1, 
+	2, 2, 2, 1, 2, 3, 4, 2, 
+	7, 0, 1, 5, 2, 1, 1, 1, 
+	2, 3, 1, 2, 1, 5, 5, 0, 
+	4, 3, 2, 2, 2, 1, 1, 1, 
+	3, 2, 1, 2, 2, 1, 4, 1, 
+	2, 1, 1, 1, 1, 2, 2, 1, 
 	5, 3, 1, 1, 1, 1, 2, 2, 
-	1, 1, 2, 1, 4, 1, 0, 5, 
-	2, 1, 1, 2, 1, 2, 1, 2, 
-	2, 1, 3, 2, 5, 1, 1, 1, 
-	1, 0, 3, 0, 2, 3, 1, 0, 
-	0, 0, 0, 1, 1, 1, 1, 1, 
-	0, 4, 2, 5, 7, 6, 9, 6, 
-	8, 3, 8, 6, 10, 3, 7, 3, 
-	7, 5, 6, 4, 4, 4, 1, 1, 
-	8, 2, 0, 3, 4, 2, 3, 2, 
-	2, 1, 1, 1, 1, 2, 3, 3, 
-	1, 2, 2, 1, 1, 0, 2, 2, 
-	2, 3, 4, 2, 3, 1, 1, 1, 
-	3, 2, 2, 1, 1, 2, 1, 2, 
-	1, 2, 1, 2, 3, 2, 7, 0, 
-	1, 5, 2, 1, 1, 1, 2, 1, 
-	1, 2, 2, 5, 5, 0, 4, 1, 
-	1, 2, 2, 1, 1, 1, 1, 3, 
-	2, 1, 2, 2, 1, 1, 1, 2, 
-	1, 1, 1, 1, 1, 1, 1, 5, 
-	3, 1, 1, 1, 1, 1, 2, 2, 
-	1, 1, 2, 1, 4, 0, 5, 2, 
-	1, 1, 2, 1, 2, 1, 2, 2, 
+	2, 1, 1, 2, 1, 4, 1, 4, 
+	2, 1, 2, 1, 2, 1, 2, 3, 
 	1, 3, 2, 5, 1, 1, 1, 1, 
-	0, 3, 0, 2, 3, 1, 0, 0, 
-	0, 0, 1, 1, 0, 1, 1, 1, 
-	0, 9, 5, 5, 4, 6, 6, 6, 
-	10, 7, 1, 7, 7, 7, 7, 7, 
-	7, 7, 7, 10, 10, 6, 7, 3, 
-	10, 10, 10, 11, 6, 10, 10, 5, 
+	2, 6, 2, 6, 3, 2, 3, 3, 
+	3, 3, 2, 1, 1, 1, 1, 0, 
+	9, 5, 5, 4, 6, 6, 6, 10, 
+	7, 1, 7, 7, 7, 7, 7, 7, 
+	7, 7, 10, 10, 6, 7, 3, 10, 
+	10, 10, 11, 6, 10, 10, 5, 7, 
 	7, 7, 7, 7, 7, 7, 7, 7, 
-	7, 0, 10, 5, 10, 11, 6, 5, 
-	0, 10, 6, 5, 10, 10, 10, 10, 
-	4, 10, 10, 10, 10, 10, 0, 6, 
-	3, 0, 1, 1, 4, 3, 3, 0, 
-	1, 1, 2, 2, 4, 2, 3, 5, 
-	1, 1, 1, 2, 0, 3, 0, 1, 
-	0, 0, 1, 3, 1, 1, 1
+	0, 10, 5, 10, 11, 6, 5, 0, 
+	10, 6, 5, 10, 10, 10, 10, 4, 
+	10, 10, 10, 10, 10, 0, 6, 3, 
+	1, 3, 3, 3, 2, 2, 2, 2, 
+	2, 4, 2, 3, 5, 1, 1, 1, 
+	2, 0, 3, 0, 1, 2, 1, 1, 
+	4, 1, 1, 1
 };
 
 static const short _StdTok_index_offsets[] = {
 	0, 0, 1, 11, 21, 32, 42, 50, 
-	54, 61, 63, 67, 78, 126, 141, 156, 
-	177, 192, 194, 210, 226, 242, 258, 274, 
-	290, 306, 322, 338, 385, 389, 426, 430, 
-	431, 433, 435, 441, 446, 452, 454, 456, 
-	458, 461, 465, 471, 474, 478, 485, 487, 
-	489, 491, 495, 523, 526, 532, 541, 550, 
-	560, 568, 577, 583, 592, 600, 612, 618, 
-	626, 633, 641, 648, 655, 662, 668, 674, 
-	676, 679, 693, 698, 700, 704, 709, 756, 
-	760, 764, 767, 771, 773, 775, 777, 783, 
-	789, 794, 797, 800, 803, 805, 807, 810, 
-	813, 816, 820, 825, 828, 832, 834, 836, 
-	838, 842, 845, 848, 850, 852, 855, 858, 
-	861, 863, 866, 869, 877, 881, 889, 906, 
-	909, 911, 923, 927, 929, 931, 933, 936, 
-	940, 942, 945, 948, 954, 960, 962, 973, 
-	978, 981, 984, 987, 990, 992, 996, 998, 
-	999, 1002, 1004, 1027, 1029, 1033, 1037, 1039, 
-	1042, 1045, 1047, 1052, 1054, 1057, 1059, 1061, 
-	1063, 1066, 1068, 1089, 1091, 1093, 1095, 1102, 
-	1106, 1108, 1110, 1112, 1114, 1117, 1120, 1122, 
-	1124, 1127, 1129, 1134, 1142, 1160, 1166, 1169, 
-	1171, 1173, 1176, 1178, 1181, 1183, 1186, 1190, 
-	1192, 1199, 1202, 1208, 1214, 1216, 1218, 1232, 
-	1234, 1242, 1244, 1251, 1256, 1258, 1262, 1265, 
-	1268, 1271, 1274, 1277, 1280, 1282, 1286, 1307, 
-	1309, 1314, 1318, 1322, 1323, 1325, 1327, 1333, 
-	1338, 1344, 1346, 1348, 1350, 1353, 1357, 1363, 
-	1366, 1370, 1377, 1379, 1381, 1383, 1387, 1415, 
-	1418, 1424, 1433, 1442, 1452, 1460, 1469, 1475, 
-	1484, 1492, 1504, 1510, 1518, 1525, 1533, 1540, 
-	1547, 1554, 1560, 1566, 1568, 1571, 1585, 1590, 
-	1592, 1596, 1601, 1648, 1652, 1656, 1659, 1663, 
-	1665, 1667, 1669, 1675, 1681, 1686, 1689, 1692, 
-	1695, 1697, 1699, 1702, 1705, 1708, 1712, 1717, 
-	1720, 1724, 1726, 1728, 1730, 1734, 1737, 1740, 
-	1742, 1744, 1747, 1750, 1753, 1755, 1758, 1761, 
-	1769, 1773, 1781, 1798, 1801, 1803, 1815, 1819, 
-	1821, 1823, 1825, 1828, 1832, 1834, 1837, 1840, 
-	1846, 1852, 1854, 1865, 1870, 1873, 1876, 1879, 
-	1882, 1884, 1888, 1890, 1891, 1894, 1896, 1919, 
-	1921, 1925, 1929, 1931, 1934, 1937, 1939, 1944, 
-	1946, 1949, 1951, 1953, 1955, 1958, 1960, 1981, 
-	1983, 1985, 1987, 1994, 1998, 2000, 2002, 2004, 
-	2006, 2009, 2012, 2014, 2016, 2019, 2021, 2026, 
-	2034, 2052, 2058, 2061, 2063, 2065, 2068, 2070, 
-	2073, 2075, 2078, 2082, 2084, 2091, 2094, 2100, 
-	2106, 2108, 2110, 2124, 2126, 2134, 2136, 2143, 
-	2148, 2150, 2154, 2157, 2160, 2163, 2166, 2169, 
-	2172, 2174, 2178, 2182, 2186, 2187, 2189, 2191, 
-	2197, 2202, 2208, 2210, 2212, 2214, 2217, 2221, 
-	2227, 2230, 2234, 2241, 2243, 2245, 2247, 2251, 
-	2279, 2282, 2288, 2297, 2306, 2316, 2324, 2333, 
-	2339, 2348, 2356, 2368, 2374, 2382, 2389, 2397, 
-	2404, 2411, 2418, 2424, 2430, 2432, 2435, 2449, 
-	2454, 2456, 2460, 2465, 2512, 2516, 2520, 2523, 
-	2527, 2529, 2531, 2533, 2539, 2545, 2550, 2553, 
-	2556, 2559, 2561, 2563, 2566, 2569, 2572, 2576, 
-	2581, 2584, 2588, 2590, 2592, 2594, 2598, 2601, 
-	2604, 2606, 2608, 2611, 2614, 2617, 2619, 2622, 
-	2625, 2633, 2637, 2645, 2662, 2665, 2667, 2679, 
-	2683, 2685, 2687, 2689, 2692, 2696, 2698, 2701, 
-	2704, 2710, 2716, 2718, 2729, 2734, 2737, 2740, 
-	2743, 2746, 2748, 2752, 2754, 2755, 2758, 2760, 
-	2783, 2785, 2789, 2793, 2795, 2798, 2801, 2803, 
-	2808, 2810, 2813, 2815, 2817, 2819, 2822, 2824, 
-	2845, 2847, 2849, 2851, 2858, 2862, 2864, 2866, 
-	2868, 2870, 2873, 2876, 2878, 2880, 2883, 2885, 
-	2890, 2898, 2916, 2922, 2925, 2927, 2929, 2932, 
-	2934, 2937, 2939, 2942, 2946, 2948, 2955, 2958, 
-	2964, 2970, 2972, 2974, 2988, 2990, 2998, 3000, 
-	3007, 3012, 3014, 3018, 3021, 3024, 3027, 3030, 
-	3033, 3036, 3038, 3042, 3096, 3100, 3136, 3140, 
-	3141, 3143, 3145, 3151, 3156, 3162, 3164, 3166, 
-	3168, 3171, 3175, 3181, 3184, 3188, 3195, 3197, 
-	3199, 3201, 3205, 3233, 3236, 3242, 3251, 3260, 
-	3270, 3278, 3287, 3293, 3302, 3310, 3322, 3328, 
-	3336, 3343, 3351, 3358, 3365, 3372, 3378, 3384, 
-	3386, 3389, 3403, 3408, 3410, 3414, 3419, 3466, 
-	3470, 3474, 3477, 3481, 3483, 3485, 3487, 3493, 
-	3499, 3504, 3507, 3510, 3513, 3515, 3517, 3520, 
-	3523, 3526, 3530, 3535, 3538, 3542, 3544, 3546, 
-	3548, 3552, 3555, 3558, 3560, 3562, 3565, 3568, 
-	3571, 3573, 3576, 3579, 3587, 3591, 3599, 3616, 
-	3619, 3621, 3633, 3637, 3639, 3641, 3643, 3646, 
-	3650, 3652, 3655, 3658, 3664, 3670, 3672, 3683, 
-	3688, 3691, 3694, 3697, 3700, 3702, 3706, 3708, 
-	3709, 3712, 3714, 3737, 3739, 3743, 3747, 3749, 
-	3752, 3755, 3757, 3762, 3764, 3767, 3769, 3771, 
-	3773, 3776, 3778, 3799, 3801, 3803, 3805, 3812, 
-	3816, 3818, 3820, 3822, 3824, 3827, 3830, 3832, 
-	3834, 3837, 3839, 3844, 3852, 3870, 3876, 3879, 
-	3881, 3883, 3886, 3888, 3891, 3893, 3896, 3900, 
-	3902, 3909, 3912, 3918, 3924, 3926, 3928, 3942, 
-	3944, 3952, 3954, 3961, 3966, 3968, 3972, 3975, 
-	3978, 3981, 3984, 3987, 3990, 3992, 3996, 4000, 
-	4004, 4005, 4007, 4009, 4015, 4020, 4026, 4028, 
-	4030, 4032, 4035, 4039, 4045, 4048, 4052, 4059, 
-	4061, 4063, 4065, 4069, 4097, 4100, 4106, 4115, 
-	4124, 4134, 4142, 4151, 4157, 4166, 4174, 4186, 
-	4192, 4200, 4207, 4215, 4222, 4229, 4236, 4242, 
-	4248, 4250, 4253, 4267, 4272, 4274, 4278, 4283, 
-	4330, 4334, 4338, 4341, 4345, 4347, 4349, 4351, 
-	4357, 4363, 4368, 4371, 4374, 4377, 4379, 4381, 
-	4384, 4387, 4390, 4394, 4399, 4402, 4406, 4408, 
-	4410, 4412, 4416, 4419, 4422, 4424, 4426, 4429, 
-	4432, 4435, 4437, 4440, 4443, 4451, 4455, 4463, 
-	4480, 4483, 4485, 4497, 4501, 4503, 4505, 4507, 
-	4510, 4514, 4516, 4519, 4522, 4528, 4534, 4536, 
-	4547, 4552, 4555, 4558, 4561, 4564, 4566, 4570, 
-	4572, 4573, 4576, 4578, 4601, 4603, 4607, 4611, 
-	4613, 4616, 4619, 4621, 4626, 4628, 4631, 4633, 
-	4635, 4637, 4640, 4642, 4663, 4665, 4667, 4669, 
-	4676, 4680, 4682, 4684, 4686, 4688, 4691, 4694, 
-	4696, 4698, 4701, 4703, 4708, 4716, 4734, 4740, 
-	4743, 4745, 4747, 4750, 4752, 4755, 4757, 4760, 
-	4764, 4766, 4773, 4776, 4782, 4788, 4790, 4792, 
-	4806, 4808, 4816, 4818, 4825, 4830, 4832, 4836, 
-	4839, 4842, 4845, 4848, 4851, 4854, 4856, 4860, 
-	4864, 4868, 4869, 4871, 4873, 4879, 4884, 4890, 
-	4892, 4894, 4896, 4899, 4903, 4909, 4912, 4916, 
-	4923, 4925, 4927, 4929, 4933, 4961, 4964, 4970, 
-	4979, 4988, 4998, 5006, 5015, 5021, 5030, 5038, 
-	5050, 5056, 5064, 5071, 5079, 5086, 5093, 5100, 
-	5106, 5112, 5114, 5117, 5131, 5136, 5138, 5142, 
-	5147, 5194, 5198, 5202, 5205, 5209, 5211, 5213, 
-	5215, 5221, 5227, 5232, 5235, 5238, 5241, 5243, 
-	5245, 5248, 5251, 5254, 5258, 5263, 5266, 5270, 
-	5272, 5274, 5276, 5280, 5283, 5286, 5288, 5290, 
-	5293, 5296, 5299, 5301, 5304, 5307, 5315, 5319, 
-	5327, 5344, 5347, 5349, 5361, 5365, 5367, 5369, 
-	5371, 5374, 5378, 5380, 5383, 5386, 5392, 5398, 
-	5400, 5411, 5416, 5419, 5422, 5425, 5428, 5430, 
-	5434, 5436, 5437, 5440, 5442, 5465, 5467, 5471, 
-	5475, 5477, 5480, 5483, 5485, 5490, 5492, 5495, 
-	5497, 5499, 5501, 5504, 5506, 5527, 5529, 5531, 
-	5533, 5540, 5544, 5546, 5548, 5550, 5552, 5555, 
-	5558, 5560, 5562, 5565, 5567, 5572, 5580, 5598, 
-	5604, 5607, 5609, 5611, 5614, 5616, 5619, 5621, 
-	5624, 5628, 5630, 5637, 5640, 5646, 5652, 5654, 
-	5656, 5670, 5672, 5680, 5682, 5689, 5694, 5696, 
-	5700, 5703, 5706, 5709, 5712, 5715, 5718, 5720, 
-	5724, 5726, 5736, 5739, 5745, 5754, 5763, 5773, 
-	5781, 5790, 5796, 5805, 5813, 5825, 5831, 5839, 
-	5846, 5854, 5861, 5868, 5875, 5881, 5887, 5889, 
-	5892, 5906, 5911, 5913, 5917, 5922, 5926, 5930, 
-	5933, 5937, 5939, 5941, 5943, 5945, 5951, 5957, 
-	5962, 5965, 5968, 5971, 5973, 5975, 5976, 5979, 
-	5982, 5985, 5989, 5994, 5997, 6001, 6003, 6005, 
-	6007, 6011, 6014, 6017, 6019, 6021, 6024, 6027, 
-	6030, 6032, 6035, 6037, 6040, 6048, 6052, 6060, 
-	6063, 6065, 6077, 6081, 6083, 6085, 6087, 6090, 
-	6094, 6096, 6099, 6102, 6108, 6114, 6116, 6121, 
-	6124, 6127, 6130, 6133, 6135, 6137, 6139, 6141, 
-	6145, 6149, 6151, 6154, 6157, 6159, 6164, 6166, 
-	6169, 6171, 6173, 6175, 6177, 6179, 6181, 6183, 
-	6190, 6194, 6196, 6198, 6200, 6202, 6204, 6207, 
-	6210, 6212, 6214, 6217, 6219, 6224, 6242, 6248, 
-	6251, 6253, 6255, 6258, 6260, 6263, 6265, 6268, 
-	6272, 6274, 6281, 6284, 6290, 6296, 6298, 6300, 
-	6314, 6316, 6324, 6326, 6333, 6338, 6340, 6344, 
-	6347, 6350, 6353, 6356, 6359, 6360, 6363, 6365, 
-	6369, 6370, 6420, 6430, 6440, 6447, 6458, 6469, 
-	6480, 6530, 6546, 6549, 6566, 6583, 6600, 6617, 
-	6635, 6652, 6669, 6686, 6735, 6784, 6823, 6838, 
-	6844, 6894, 6946, 6992, 7039, 7076, 7124, 7170, 
-	7206, 7221, 7237, 7253, 7269, 7285, 7301, 7317, 
-	7333, 7349, 7351, 7403, 7415, 7461, 7507, 7549, 
-	7585, 7588, 7640, 7682, 7720, 7774, 7827, 7880, 
-	7932, 7942, 7995, 8048, 8101, 8154, 8207, 8211, 
-	8254, 8258, 8259, 8261, 8263, 8269, 8274, 8280, 
-	8282, 8284, 8286, 8289, 8293, 8299, 8302, 8306, 
-	8313, 8315, 8317, 8319, 8323, 8351, 8398, 8415, 
-	8426, 8430, 8431, 8434, 8457, 8460, 8481
+	54, 61, 63, 67, 78, 124, 139, 154, 
+	175, 190, 192, 208, 224, 240, 256, 272, 
+	288, 304, 320, 336, 381, 385, 420, 424, 
+	426, 432, 437, 443, 446, 449, 452, 456, 
+	460, 466, 469, 473, 480, 482, 484, 486, 
+	490, 518, 521, 527, 536, 545, 555, 563, 
+	572, 578, 587, 595, 607, 613, 621, 628, 
+	636, 643, 650, 657, 663, 669, 671, 674, 
+	688, 693, 695, 699, 704, 747, 751, 755, 
+	759, 763, 766, 769, 771, 778, 784, 789, 
+	793, 796, 799, 801, 803, 806, 809, 812, 
+	816, 821, 824, 828, 830, 832, 834, 838, 
+	841, 844, 846, 848, 851, 854, 857, 859, 
+	862, 866, 874, 878, 886, 903, 906, 908, 
+	920, 924, 926, 928, 930, 933, 937, 939, 
+	942, 945, 951, 957, 959, 969, 974, 978, 
+	981, 984, 987, 989, 993, 995, 998, 1000, 
+	1019, 1021, 1025, 1029, 1031, 1034, 1037, 1039, 
+	1044, 1046, 1049, 1051, 1053, 1055, 1058, 1060, 
+	1080, 1083, 1086, 1088, 1095, 1099, 1101, 1103, 
+	1106, 1109, 1112, 1114, 1116, 1119, 1121, 1126, 
+	1133, 1150, 1156, 1159, 1161, 1164, 1166, 1169, 
+	1171, 1174, 1178, 1180, 1187, 1190, 1196, 1201, 
+	1203, 1205, 1218, 1221, 1230, 1233, 1240, 1245, 
+	1248, 1253, 1257, 1261, 1265, 1268, 1271, 1273, 
+	1276, 1297, 1299, 1304, 1308, 1312, 1314, 1320, 
+	1325, 1331, 1334, 1337, 1340, 1344, 1348, 1354, 
+	1357, 1361, 1368, 1370, 1372, 1374, 1378, 1406, 
+	1409, 1415, 1424, 1433, 1443, 1451, 1460, 1466, 
+	1475, 1483, 1495, 1501, 1509, 1516, 1524, 1531, 
+	1538, 1545, 1551, 1557, 1559, 1562, 1576, 1581, 
+	1583, 1587, 1592, 1635, 1639, 1643, 1647, 1651, 
+	1654, 1657, 1659, 1666, 1672, 1677, 1681, 1684, 
+	1687, 1689, 1691, 1694, 1697, 1700, 1704, 1709, 
+	1712, 1716, 1718, 1720, 1722, 1726, 1729, 1732, 
+	1734, 1736, 1739, 1742, 1745, 1747, 1750, 1754, 
+	1762, 1766, 1774, 1791, 1794, 1796, 1808, 1812, 
+	1814, 1816, 1818, 1821, 1825, 1827, 1830, 1833, 
+	1839, 1845, 1847, 1857, 1862, 1866, 1869, 1872, 
+	1875, 1877, 1881, 1883, 1886, 1888, 1907, 1909, 
+	1913, 1917, 1919, 1922, 1925, 1927, 1932, 1934, 
+	1937, 1939, 1941, 1943, 1946, 1948, 1968, 1971, 
+	1974, 1976, 1983, 1987, 1989, 1991, 1994, 1997, 
+	2000, 2002, 2004, 2007, 2009, 2014, 2021, 2038, 
+	2044, 2047, 2049, 2052, 2054, 2057, 2059, 2062, 
+	2066, 2068, 2075, 2078, 2084, 2089, 2091, 2093, 
+	2106, 2109, 2118, 2121, 2128, 2133, 2136, 2141, 
+	2145, 2149, 2153, 2156, 2159, 2161, 2164, 2168, 
+	2172, 2174, 2180, 2185, 2191, 2194, 2197, 2200, 
+	2204, 2208, 2214, 2217, 2221, 2228, 2230, 2232, 
+	2234, 2238, 2266, 2269, 2275, 2284, 2293, 2303, 
+	2311, 2320, 2326, 2335, 2343, 2355, 2361, 2369, 
+	2376, 2384, 2391, 2398, 2405, 2411, 2417, 2419, 
+	2422, 2436, 2441, 2443, 2447, 2452, 2495, 2499, 
+	2503, 2507, 2511, 2514, 2517, 2519, 2526, 2532, 
+	2537, 2541, 2544, 2547, 2549, 2551, 2554, 2557, 
+	2560, 2564, 2569, 2572, 2576, 2578, 2580, 2582, 
+	2586, 2589, 2592, 2594, 2596, 2599, 2602, 2605, 
+	2607, 2610, 2614, 2622, 2626, 2634, 2651, 2654, 
+	2656, 2668, 2672, 2674, 2676, 2678, 2681, 2685, 
+	2687, 2690, 2693, 2699, 2705, 2707, 2717, 2722, 
+	2726, 2729, 2732, 2735, 2737, 2741, 2743, 2746, 
+	2748, 2767, 2769, 2773, 2777, 2779, 2782, 2785, 
+	2787, 2792, 2794, 2797, 2799, 2801, 2803, 2806, 
+	2808, 2828, 2831, 2834, 2836, 2843, 2847, 2849, 
+	2851, 2854, 2857, 2860, 2862, 2864, 2867, 2869, 
+	2874, 2881, 2898, 2904, 2907, 2909, 2912, 2914, 
+	2917, 2919, 2922, 2926, 2928, 2935, 2938, 2944, 
+	2949, 2951, 2953, 2966, 2969, 2978, 2981, 2988, 
+	2993, 2996, 3001, 3005, 3009, 3013, 3016, 3019, 
+	3021, 3024, 3076, 3080, 3114, 3118, 3120, 3126, 
+	3131, 3137, 3140, 3143, 3146, 3150, 3154, 3160, 
+	3163, 3167, 3174, 3176, 3178, 3180, 3184, 3212, 
+	3215, 3221, 3230, 3239, 3249, 3257, 3266, 3272, 
+	3281, 3289, 3301, 3307, 3315, 3322, 3330, 3337, 
+	3344, 3351, 3357, 3363, 3365, 3368, 3382, 3387, 
+	3389, 3393, 3398, 3441, 3445, 3449, 3453, 3457, 
+	3460, 3463, 3465, 3472, 3478, 3483, 3487, 3490, 
+	3493, 3495, 3497, 3500, 3503, 3506, 3510, 3515, 
+	3518, 3522, 3524, 3526, 3528, 3532, 3535, 3538, 
+	3540, 3542, 3545, 3548, 3551, 3553, 3556, 3560, 
+	3568, 3572, 3580, 3597, 3600, 3602, 3614, 3618, 
+	3620, 3622, 3624, 3627, 3631, 3633, 3636, 3639, 
+	3645, 3651, 3653, 3663, 3668, 3672, 3675, 3678, 
+	3681, 3683, 3687, 3689, 3692, 3694, 3713, 3715, 
+	3719, 3723, 3725, 3728, 3731, 3733, 3738, 3740, 
+	3743, 3745, 3747, 3749, 3752, 3754, 3774, 3777, 
+	3780, 3782, 3789, 3793, 3795, 3797, 3800, 3803, 
+	3806, 3808, 3810, 3813, 3815, 3820, 3827, 3844, 
+	3850, 3853, 3855, 3858, 3860, 3863, 3865, 3868, 
+	3872, 3874, 3881, 3884, 3890, 3895, 3897, 3899, 
+	3912, 3915, 3924, 3927, 3934, 3939, 3942, 3947, 
+	3951, 3955, 3959, 3962, 3965, 3967, 3970, 3974, 
+	3978, 3980, 3986, 3991, 3997, 4000, 4003, 4006, 
+	4010, 4014, 4020, 4023, 4027, 4034, 4036, 4038, 
+	4040, 4044, 4072, 4075, 4081, 4090, 4099, 4109, 
+	4117, 4126, 4132, 4141, 4149, 4161, 4167, 4175, 
+	4182, 4190, 4197, 4204, 4211, 4217, 4223, 4225, 
+	4228, 4242, 4247, 4249, 4253, 4258, 4301, 4305, 
+	4309, 4313, 4317, 4320, 4323, 4325, 4332, 4338, 
+	4343, 4347, 4350, 4353, 4355, 4357, 4360, 4363, 
+	4366, 4370, 4375, 4378, 4382, 4384, 4386, 4388, 
+	4392, 4395, 4398, 4400, 4402, 4405, 4408, 4411, 
+	4413, 4416, 4420, 4428, 4432, 4440, 4457, 4460, 
+	4462, 4474, 4478, 4480, 4482, 4484, 4487, 4491, 
+	4493, 4496, 4499, 4505, 4511, 4513, 4523, 4528, 
+	4532, 4535, 4538, 4541, 4543, 4547, 4549, 4552, 
+	4554, 4573, 4575, 4579, 4583, 4585, 4588, 4591, 
+	4593, 4598, 4600, 4603, 4605, 4607, 4609, 4612, 
+	4614, 4634, 4637, 4640, 4642, 4649, 4653, 4655, 
+	4657, 4660, 4663, 4666, 4668, 4670, 4673, 4675, 
+	4680, 4687, 4704, 4710, 4713, 4715, 4718, 4720, 
+	4723, 4725, 4728, 4732, 4734, 4741, 4744, 4750, 
+	4755, 4757, 4759, 4772, 4775, 4784, 4787, 4794, 
+	4799, 4802, 4807, 4811, 4815, 4819, 4822, 4825, 
+	4827, 4830, 4834, 4838, 4840, 4846, 4851, 4857, 
+	4860, 4863, 4866, 4870, 4874, 4880, 4883, 4887, 
+	4894, 4896, 4898, 4900, 4904, 4932, 4935, 4941, 
+	4950, 4959, 4969, 4977, 4986, 4992, 5001, 5009, 
+	5021, 5027, 5035, 5042, 5050, 5057, 5064, 5071, 
+	5077, 5083, 5085, 5088, 5102, 5107, 5109, 5113, 
+	5118, 5161, 5165, 5169, 5173, 5177, 5180, 5183, 
+	5185, 5192, 5198, 5203, 5207, 5210, 5213, 5215, 
+	5217, 5220, 5223, 5226, 5230, 5235, 5238, 5242, 
+	5244, 5246, 5248, 5252, 5255, 5258, 5260, 5262, 
+	5265, 5268, 5271, 5273, 5276, 5280, 5288, 5292, 
+	5300, 5317, 5320, 5322, 5334, 5338, 5340, 5342, 
+	5344, 5347, 5351, 5353, 5356, 5359, 5365, 5371, 
+	5373, 5383, 5388, 5392, 5395, 5398, 5401, 5403, 
+	5407, 5409, 5412, 5414, 5433, 5435, 5439, 5443, 
+	5445, 5448, 5451, 5453, 5458, 5460, 5463, 5465, 
+	5467, 5469, 5472, 5474, 5494, 5497, 5500, 5502, 
+	5509, 5513, 5515, 5517, 5520, 5523, 5526, 5528, 
+	5530, 5533, 5535, 5540, 5547, 5564, 5570, 5573, 
+	5575, 5578, 5580, 5583, 5585, 5588, 5592, 5594, 
+	5601, 5604, 5610, 5615, 5617, 5619, 5632, 5635, 
+	5644, 5647, 5654, 5659, 5662, 5667, 5671, 5675, 
+	5679, 5682, 5685, 5687, 5690, 5692, 5702, 5705, 
+	5711, 5720, 5729, 5739, 5747, 5756, 5762, 5771, 
+	5779, 5791, 5797, 5805, 5812, 5820, 5827, 5834, 
+	5841, 5847, 5853, 5855, 5858, 5872, 5877, 5879, 
+	5883, 5888, 5892, 5896, 5900, 5904, 5906, 5909, 
+	5912, 5914, 5921, 5927, 5932, 5936, 5939, 5942, 
+	5944, 5946, 5949, 5952, 5955, 5959, 5964, 5967, 
+	5971, 5973, 5975, 5977, 5981, 5984, 5987, 5989, 
+	5991, 5994, 5997, 6000, 6002, 6005, 6009, 6017, 
+	6021, 6029, 6032, 6034, 6046, 6050, 6052, 6054, 
+	6056, 6059, 6063, 6065, 6068, 6071, 6077, 6083, 
+	6085, 6090, 6094, 6097, 6100, 6103, 6105, 6107, 
+	6109, 6113, 6117, 6119, 6122, 6125, 6127, 6132, 
+	6134, 6137, 6139, 6141, 6143, 6145, 6148, 6151, 
+	6153, 6160, 6164, 6166, 6168, 6170, 6172, 6175, 
+	6178, 6181, 6183, 6185, 6188, 6190, 6195, 6212, 
+	6218, 6221, 6223, 6226, 6228, 6231, 6233, 6236, 
+	6240, 6242, 6249, 6252, 6258, 6263, 6265, 6267, 
+	6280, 6283, 6292, 6295, 6302, 6307, 6310, 6315, 
+	6319, 6323, 6327, 6330, 6332, 6335, 6337, 6340, 
+	6341, 6389, 6399, 6409, 6416, 6427, 6438, 6449, 
+	6497, 6513, 6516, 6533, 6550, 6567, 6584, 6602, 
+	6619, 6636, 6653, 6700, 6747, 6784, 6799, 6805, 
+	6853, 6903, 6947, 6992, 7027, 7073, 7117, 7151, 
+	7166, 7182, 7198, 7214, 7230, 7246, 7262, 7278, 
+	7294, 7296, 7346, 7358, 7402, 7446, 7486, 7520, 
+	7523, 7573, 7613, 7649, 7701, 7752, 7803, 7853, 
+	7863, 7914, 7965, 8016, 8067, 8118, 8122, 8163, 
+	8167, 8169, 8175, 8180, 8186, 8189, 8192, 8195, 
+	8199, 8203, 8209, 8212, 8216, 8223, 8225, 8227, 
+	8229, 8233, 8261, 8304, 8321, 8331, 8335, 8337, 
+	8340, 8359, 8362, 8382
 };
 
 static const short _StdTok_indicies[] = {
@@ -2085,1237 +2101,1218 @@ static const short _StdTok_indicies[] = {
 	3, 2, 2, 2, 4, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
-	38, 39, 40, 41, 42, 43, 45, 46, 
-	47, 48, 49, 2, 2, 17, 17, 2, 
-	17, 2, 20, 20, 44, 1, 2, 16, 
-	3, 2, 2, 2, 4, 2, 2, 50, 
-	50, 2, 50, 2, 1, 2, 16, 51, 
-	2, 2, 2, 4, 2, 2, 50, 50, 
-	2, 50, 2, 1, 2, 2, 2, 2, 
-	2, 53, 54, 55, 56, 57, 58, 59, 
-	60, 2, 2, 50, 52, 2, 52, 2, 
-	1, 2, 16, 51, 2, 2, 2, 4, 
-	2, 2, 50, 61, 2, 61, 2, 1, 
-	63, 62, 2, 16, 51, 2, 2, 2, 
-	4, 64, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 65, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 66, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 67, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 68, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 61, 2, 2, 50, 50, 2, 50, 
-	2, 62, 2, 16, 51, 2, 2, 2, 
-	4, 69, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 70, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 71, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 3, 2, 2, 4, 18, 
-	19, 21, 22, 23, 24, 25, 26, 27, 
-	28, 29, 30, 31, 32, 33, 34, 35, 
-	36, 37, 38, 39, 40, 41, 42, 43, 
-	45, 46, 47, 48, 49, 2, 2, 2, 
-	72, 72, 2, 72, 2, 20, 20, 44, 
-	1, 73, 73, 73, 1, 18, 19, 21, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 2, 2, 17, 17, 2, 17, 2, 
+	20, 20, 42, 1, 2, 16, 3, 2, 
+	2, 2, 4, 2, 2, 48, 48, 2, 
+	48, 2, 1, 2, 16, 49, 2, 2, 
+	2, 4, 2, 2, 48, 48, 2, 48, 
+	2, 1, 2, 2, 2, 2, 2, 51, 
+	52, 53, 54, 55, 56, 57, 58, 2, 
+	2, 48, 50, 2, 50, 2, 1, 2, 
+	16, 49, 2, 2, 2, 4, 2, 2, 
+	48, 59, 2, 59, 2, 1, 61, 60, 
+	2, 16, 49, 2, 2, 2, 4, 62, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 63, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 64, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 65, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 66, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 59, 
+	2, 2, 48, 48, 2, 48, 2, 60, 
+	2, 16, 49, 2, 2, 2, 4, 67, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 68, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 69, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 3, 2, 2, 4, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
-	38, 39, 40, 41, 42, 43, 45, 46, 
-	47, 48, 49, 73, 73, 73, 20, 20, 
-	44, 1, 73, 73, 73, 1, 73, 1, 
-	73, 1, 73, 1, 1, 1, 1, 1, 
-	73, 73, 73, 73, 73, 1, 73, 73, 
-	73, 73, 73, 1, 1, 73, 1, 73, 
-	1, 73, 1, 1, 73, 1, 1, 1, 
-	73, 73, 73, 73, 73, 73, 1, 73, 
-	73, 1, 73, 73, 73, 1, 1, 1, 
-	1, 1, 1, 1, 73, 73, 1, 73, 
-	1, 1, 73, 73, 73, 73, 1, 74, 
-	75, 76, 77, 78, 79, 80, 81, 82, 
-	83, 84, 85, 86, 87, 88, 89, 90, 
-	91, 92, 93, 94, 95, 96, 97, 98, 
-	99, 100, 1, 73, 73, 1, 1, 1, 
-	1, 1, 1, 73, 73, 73, 73, 73, 
-	73, 73, 73, 73, 1, 1, 1, 1, 
-	1, 1, 1, 1, 1, 73, 73, 73, 
-	73, 73, 73, 73, 73, 73, 73, 1, 
-	1, 1, 1, 1, 1, 1, 1, 73, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	1, 1, 1, 1, 1, 1, 73, 73, 
-	73, 73, 73, 73, 73, 73, 73, 1, 
-	73, 73, 73, 73, 73, 73, 73, 1, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	73, 73, 73, 1, 73, 73, 73, 73, 
-	73, 1, 73, 73, 73, 73, 73, 73, 
-	73, 1, 1, 1, 1, 1, 1, 1, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	1, 73, 73, 73, 73, 73, 73, 1, 
-	73, 73, 73, 73, 73, 73, 1, 1, 
-	1, 1, 1, 1, 1, 73, 73, 73, 
-	73, 73, 73, 1, 73, 73, 73, 73, 
-	73, 1, 73, 1, 73, 73, 1, 73, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	73, 73, 73, 73, 1, 73, 73, 73, 
-	73, 1, 73, 1, 73, 73, 73, 1, 
-	73, 73, 73, 73, 1, 101, 102, 103, 
-	104, 105, 106, 107, 108, 109, 110, 111, 
-	112, 113, 114, 115, 116, 117, 118, 119, 
-	120, 121, 122, 123, 124, 125, 126, 127, 
-	128, 129, 130, 131, 132, 133, 134, 135, 
-	22, 20, 21, 22, 136, 137, 138, 139, 
-	22, 20, 20, 1, 73, 73, 73, 1, 
-	73, 73, 73, 1, 1, 1, 73, 1, 
-	1, 1, 73, 1, 73, 1, 73, 1, 
-	73, 1, 1, 1, 1, 1, 73, 1, 
-	1, 1, 1, 1, 73, 73, 73, 73, 
-	73, 1, 1, 1, 73, 1, 1, 73, 
-	73, 73, 1, 1, 73, 73, 1, 1, 
-	1, 73, 73, 73, 1, 1, 1, 73, 
-	73, 73, 73, 1, 73, 73, 73, 73, 
-	1, 73, 73, 1, 1, 1, 1, 73, 
-	73, 1, 1, 73, 73, 1, 73, 73, 
-	73, 1, 73, 73, 1, 73, 73, 1, 
-	1, 73, 73, 1, 73, 73, 1, 1, 
-	1, 73, 73, 73, 1, 73, 1, 73, 
-	73, 1, 1, 1, 73, 1, 1, 1, 
-	1, 1, 1, 1, 73, 73, 73, 73, 
-	1, 73, 73, 73, 73, 73, 73, 73, 
-	1, 140, 141, 142, 143, 144, 145, 146, 
-	147, 148, 22, 149, 150, 151, 152, 153, 
-	154, 1, 73, 73, 1, 73, 1, 73, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	73, 73, 1, 73, 73, 73, 1, 1, 
-	73, 73, 1, 1, 73, 73, 73, 1, 
-	1, 1, 1, 73, 1, 73, 73, 73, 
-	1, 1, 1, 73, 73, 73, 73, 73, 
-	73, 1, 73, 73, 73, 73, 73, 1, 
-	73, 1, 155, 115, 156, 157, 158, 20, 
-	159, 160, 22, 20, 1, 73, 73, 73, 
-	73, 1, 1, 1, 73, 1, 1, 73, 
-	73, 73, 1, 1, 1, 73, 73, 1, 
-	161, 1, 22, 20, 1, 73, 20, 162, 
-	1, 20, 1, 73, 22, 163, 22, 164, 
-	165, 166, 167, 20, 168, 169, 170, 171, 
-	22, 162, 172, 173, 174, 175, 22, 20, 
-	20, 20, 1, 1, 73, 1, 1, 1, 
-	73, 73, 73, 73, 1, 73, 1, 73, 
-	73, 1, 1, 1, 73, 73, 1, 1, 
-	1, 1, 1, 73, 73, 1, 73, 73, 
-	1, 1, 73, 73, 1, 73, 1, 176, 
-	1, 20, 1, 73, 22, 177, 178, 179, 
-	180, 181, 37, 182, 183, 184, 185, 186, 
-	187, 20, 188, 189, 190, 191, 192, 20, 
-	1, 1, 73, 1, 73, 1, 73, 73, 
-	73, 73, 73, 73, 73, 1, 73, 73, 
-	73, 1, 73, 1, 1, 73, 73, 1, 
-	1, 73, 1, 1, 73, 73, 73, 1, 
-	1, 73, 73, 1, 73, 73, 1, 1, 
-	73, 73, 73, 73, 73, 1, 193, 194, 
-	195, 196, 197, 198, 44, 1, 199, 200, 
-	22, 201, 202, 203, 204, 205, 206, 207, 
-	208, 22, 20, 209, 210, 211, 212, 1, 
-	73, 73, 73, 73, 73, 1, 1, 1, 
-	73, 1, 73, 73, 1, 73, 73, 1, 
-	1, 73, 73, 73, 1, 1, 73, 73, 
-	73, 1, 1, 1, 1, 73, 1, 73, 
-	73, 73, 73, 73, 73, 73, 1, 73, 
-	73, 1, 73, 73, 73, 73, 73, 1, 
-	22, 213, 22, 214, 20, 1, 1, 73, 
-	1, 73, 22, 215, 216, 217, 218, 219, 
-	220, 221, 222, 223, 224, 225, 20, 1, 
-	1, 73, 1, 1, 1, 1, 1, 1, 
-	1, 73, 1, 73, 1, 1, 1, 1, 
-	1, 1, 73, 73, 73, 73, 73, 1, 
-	1, 73, 1, 1, 1, 73, 1, 1, 
-	73, 1, 1, 73, 1, 1, 73, 1, 
-	1, 73, 22, 20, 1, 226, 1, 20, 
-	1, 73, 22, 209, 20, 1, 2, 2, 
-	2, 2, 2, 53, 54, 55, 56, 57, 
-	58, 59, 60, 2, 2, 228, 52, 2, 
-	52, 2, 227, 229, 1, 230, 230, 230, 
-	230, 1, 231, 231, 231, 1, 231, 231, 
-	231, 1, 231, 1, 231, 231, 1, 1, 
-	1, 1, 1, 1, 231, 231, 231, 231, 
-	231, 1, 231, 231, 231, 231, 231, 1, 
-	1, 231, 1, 231, 1, 231, 1, 1, 
-	231, 1, 1, 1, 231, 231, 231, 231, 
-	231, 231, 1, 231, 231, 1, 231, 231, 
-	231, 1, 1, 1, 1, 1, 1, 1, 
-	231, 231, 1, 231, 1, 1, 231, 231, 
-	231, 231, 1, 232, 233, 234, 235, 236, 
-	237, 238, 239, 240, 241, 242, 243, 244, 
-	245, 246, 247, 248, 249, 250, 251, 252, 
-	253, 254, 255, 256, 257, 258, 1, 231, 
-	231, 1, 1, 1, 1, 1, 1, 231, 
-	231, 231, 231, 231, 231, 231, 231, 231, 
-	1, 1, 1, 1, 1, 1, 1, 1, 
-	1, 231, 231, 231, 231, 231, 231, 231, 
-	231, 231, 231, 1, 1, 1, 1, 1, 
-	1, 1, 1, 231, 231, 231, 231, 231, 
-	231, 231, 231, 231, 1, 1, 1, 1, 
-	1, 1, 231, 231, 231, 231, 231, 231, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	231, 231, 231, 231, 231, 231, 231, 1, 
-	231, 231, 231, 231, 231, 1, 231, 231, 
-	231, 231, 231, 231, 231, 1, 1, 1, 
-	1, 1, 1, 1, 231, 231, 231, 231, 
-	231, 231, 231, 231, 1, 231, 231, 231, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	231, 231, 1, 1, 1, 1, 1, 1, 
-	1, 231, 231, 231, 231, 231, 231, 1, 
-	231, 231, 231, 231, 231, 1, 231, 1, 
-	231, 231, 1, 231, 231, 231, 231, 231, 
-	231, 231, 231, 231, 231, 231, 231, 231, 
-	1, 231, 231, 231, 231, 1, 231, 1, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	1, 259, 260, 261, 262, 264, 265, 266, 
-	267, 268, 269, 270, 271, 272, 273, 274, 
-	276, 277, 278, 279, 280, 281, 282, 283, 
-	284, 285, 286, 287, 288, 289, 290, 291, 
-	292, 293, 294, 295, 263, 275, 296, 263, 
-	297, 298, 299, 300, 263, 275, 275, 1, 
-	231, 231, 231, 1, 231, 231, 231, 1, 
-	1, 1, 231, 1, 1, 1, 231, 1, 
-	231, 1, 231, 1, 231, 1, 1, 1, 
-	1, 1, 231, 1, 1, 1, 1, 1, 
-	231, 231, 231, 231, 231, 1, 1, 1, 
-	231, 1, 1, 231, 231, 231, 1, 1, 
-	231, 231, 1, 1, 1, 231, 231, 231, 
-	1, 1, 1, 231, 231, 231, 231, 1, 
-	231, 231, 231, 231, 1, 231, 231, 1, 
-	1, 1, 1, 231, 231, 1, 1, 231, 
-	231, 1, 231, 231, 231, 1, 231, 231, 
-	1, 231, 231, 1, 1, 231, 231, 1, 
-	231, 231, 1, 1, 1, 231, 231, 231, 
-	1, 231, 1, 231, 231, 1, 1, 1, 
-	231, 1, 1, 1, 1, 1, 1, 1, 
-	231, 231, 231, 231, 1, 231, 231, 231, 
-	231, 231, 231, 231, 1, 301, 302, 303, 
-	304, 305, 306, 307, 308, 309, 263, 310, 
-	311, 312, 313, 314, 315, 1, 231, 231, 
-	1, 231, 1, 231, 231, 231, 231, 231, 
-	231, 231, 231, 231, 231, 231, 1, 231, 
-	231, 231, 1, 1, 231, 231, 1, 1, 
-	231, 231, 231, 1, 1, 1, 1, 231, 
-	1, 231, 231, 231, 1, 1, 1, 231, 
-	231, 231, 231, 231, 231, 1, 231, 231, 
-	231, 231, 231, 1, 231, 1, 316, 274, 
-	317, 318, 319, 275, 320, 321, 263, 275, 
-	1, 231, 231, 231, 231, 1, 1, 1, 
-	231, 1, 1, 231, 231, 231, 1, 1, 
-	1, 231, 231, 1, 322, 1, 263, 275, 
-	1, 231, 275, 323, 1, 275, 1, 231, 
-	263, 324, 263, 325, 326, 327, 328, 275, 
-	329, 330, 331, 332, 263, 323, 333, 334, 
-	335, 336, 263, 275, 275, 275, 1, 1, 
-	231, 1, 1, 1, 231, 231, 231, 231, 
-	1, 231, 1, 231, 231, 1, 1, 1, 
-	231, 231, 1, 1, 1, 1, 1, 231, 
-	231, 1, 231, 231, 1, 1, 231, 231, 
-	1, 231, 1, 337, 1, 275, 1, 231, 
-	263, 338, 339, 340, 341, 342, 343, 344, 
-	345, 346, 347, 348, 349, 275, 350, 351, 
-	352, 353, 354, 275, 1, 1, 231, 1, 
-	231, 1, 231, 231, 231, 231, 231, 231, 
-	231, 1, 231, 231, 231, 1, 231, 1, 
-	1, 231, 231, 1, 1, 231, 1, 1, 
-	231, 231, 231, 1, 1, 231, 231, 1, 
-	231, 231, 1, 1, 231, 231, 231, 231, 
-	231, 1, 355, 356, 357, 358, 360, 361, 
-	359, 1, 362, 363, 263, 364, 365, 366, 
-	367, 368, 369, 370, 371, 263, 275, 372, 
-	373, 374, 375, 1, 231, 231, 231, 231, 
-	231, 1, 1, 1, 231, 1, 231, 231, 
-	1, 231, 231, 1, 1, 231, 231, 231, 
-	1, 1, 231, 231, 231, 1, 1, 1, 
-	1, 231, 1, 231, 231, 231, 231, 231, 
-	231, 231, 1, 231, 231, 1, 231, 231, 
-	231, 231, 231, 1, 263, 376, 263, 377, 
-	275, 1, 1, 231, 1, 231, 263, 378, 
-	379, 380, 381, 382, 383, 384, 385, 386, 
-	387, 388, 275, 1, 1, 231, 1, 1, 
-	1, 1, 1, 1, 1, 231, 1, 231, 
-	1, 1, 1, 1, 1, 1, 231, 231, 
-	231, 231, 231, 1, 1, 231, 1, 1, 
-	1, 231, 1, 1, 231, 1, 1, 231, 
-	1, 1, 231, 1, 1, 231, 263, 275, 
-	1, 389, 1, 275, 1, 231, 263, 372, 
-	275, 1, 390, 390, 390, 1, 390, 390, 
-	390, 1, 390, 1, 390, 390, 1, 1, 
-	1, 1, 1, 1, 390, 390, 390, 390, 
-	390, 1, 390, 390, 390, 390, 390, 1, 
-	1, 390, 1, 390, 1, 390, 1, 1, 
-	390, 1, 1, 1, 390, 390, 390, 390, 
-	390, 390, 1, 390, 390, 1, 390, 390, 
-	390, 1, 1, 1, 1, 1, 1, 1, 
-	390, 390, 1, 390, 1, 1, 390, 390, 
-	390, 390, 1, 391, 392, 393, 394, 395, 
-	396, 397, 398, 399, 400, 401, 402, 403, 
-	404, 405, 406, 407, 408, 409, 410, 411, 
-	412, 413, 414, 415, 416, 417, 1, 390, 
-	390, 1, 1, 1, 1, 1, 1, 390, 
-	390, 390, 390, 390, 390, 390, 390, 390, 
-	1, 1, 1, 1, 1, 1, 1, 1, 
-	1, 390, 390, 390, 390, 390, 390, 390, 
-	390, 390, 390, 1, 1, 1, 1, 1, 
-	1, 1, 1, 390, 390, 390, 390, 390, 
-	390, 390, 390, 390, 1, 1, 1, 1, 
-	1, 1, 390, 390, 390, 390, 390, 390, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	390, 390, 390, 390, 390, 390, 390, 1, 
-	390, 390, 390, 390, 390, 1, 390, 390, 
-	390, 390, 390, 390, 390, 1, 1, 1, 
-	1, 1, 1, 1, 390, 390, 390, 390, 
-	390, 390, 390, 390, 1, 390, 390, 390, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	390, 390, 1, 1, 1, 1, 1, 1, 
-	1, 390, 390, 390, 390, 390, 390, 1, 
-	390, 390, 390, 390, 390, 1, 390, 1, 
-	390, 390, 1, 390, 390, 390, 390, 390, 
-	390, 390, 390, 390, 390, 390, 390, 390, 
-	1, 390, 390, 390, 390, 1, 390, 1, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	1, 418, 419, 420, 421, 423, 424, 425, 
-	426, 427, 428, 429, 430, 431, 432, 433, 
-	435, 436, 437, 438, 439, 440, 441, 442, 
-	443, 444, 445, 446, 447, 448, 449, 450, 
-	451, 452, 453, 454, 422, 434, 455, 422, 
-	456, 457, 458, 459, 422, 434, 434, 1, 
-	390, 390, 390, 1, 390, 390, 390, 1, 
-	1, 1, 390, 1, 1, 1, 390, 1, 
-	390, 1, 390, 1, 390, 1, 1, 1, 
-	1, 1, 390, 1, 1, 1, 1, 1, 
-	390, 390, 390, 390, 390, 1, 1, 1, 
-	390, 1, 1, 390, 390, 390, 1, 1, 
-	390, 390, 1, 1, 1, 390, 390, 390, 
-	1, 1, 1, 390, 390, 390, 390, 1, 
-	390, 390, 390, 390, 1, 390, 390, 1, 
-	1, 1, 1, 390, 390, 1, 1, 390, 
-	390, 1, 390, 390, 390, 1, 390, 390, 
-	1, 390, 390, 1, 1, 390, 390, 1, 
-	390, 390, 1, 1, 1, 390, 390, 390, 
-	1, 390, 1, 390, 390, 1, 1, 1, 
-	390, 1, 1, 1, 1, 1, 1, 1, 
-	390, 390, 390, 390, 1, 390, 390, 390, 
-	390, 390, 390, 390, 1, 460, 461, 462, 
-	463, 464, 465, 466, 467, 468, 422, 469, 
-	470, 471, 472, 473, 474, 1, 390, 390, 
-	1, 390, 1, 390, 390, 390, 390, 390, 
-	390, 390, 390, 390, 390, 390, 1, 390, 
-	390, 390, 1, 1, 390, 390, 1, 1, 
-	390, 390, 390, 1, 1, 1, 1, 390, 
-	1, 390, 390, 390, 1, 1, 1, 390, 
-	390, 390, 390, 390, 390, 1, 390, 390, 
-	390, 390, 390, 1, 390, 1, 475, 433, 
-	476, 477, 478, 434, 479, 480, 422, 434, 
-	1, 390, 390, 390, 390, 1, 1, 1, 
-	390, 1, 1, 390, 390, 390, 1, 1, 
-	1, 390, 390, 1, 481, 1, 422, 434, 
-	1, 390, 434, 482, 1, 434, 1, 390, 
-	422, 483, 422, 484, 485, 486, 487, 434, 
-	488, 489, 490, 491, 422, 482, 492, 493, 
-	494, 495, 422, 434, 434, 434, 1, 1, 
-	390, 1, 1, 1, 390, 390, 390, 390, 
-	1, 390, 1, 390, 390, 1, 1, 1, 
-	390, 390, 1, 1, 1, 1, 1, 390, 
-	390, 1, 390, 390, 1, 1, 390, 390, 
-	1, 390, 1, 496, 1, 434, 1, 390, 
-	422, 497, 498, 499, 500, 501, 502, 503, 
-	504, 505, 506, 507, 508, 434, 509, 510, 
-	511, 512, 513, 434, 1, 1, 390, 1, 
-	390, 1, 390, 390, 390, 390, 390, 390, 
-	390, 1, 390, 390, 390, 1, 390, 1, 
-	1, 390, 390, 1, 1, 390, 1, 1, 
-	390, 390, 390, 1, 1, 390, 390, 1, 
-	390, 390, 1, 1, 390, 390, 390, 390, 
-	390, 1, 514, 515, 516, 517, 519, 520, 
-	518, 1, 521, 522, 422, 523, 524, 525, 
-	526, 527, 528, 529, 530, 422, 434, 531, 
-	532, 533, 534, 1, 390, 390, 390, 390, 
-	390, 1, 1, 1, 390, 1, 390, 390, 
-	1, 390, 390, 1, 1, 390, 390, 390, 
-	1, 1, 390, 390, 390, 1, 1, 1, 
-	1, 390, 1, 390, 390, 390, 390, 390, 
-	390, 390, 1, 390, 390, 1, 390, 390, 
-	390, 390, 390, 1, 422, 535, 422, 536, 
-	434, 1, 1, 390, 1, 390, 422, 537, 
-	538, 539, 540, 541, 542, 543, 544, 545, 
-	546, 547, 434, 1, 1, 390, 1, 1, 
-	1, 1, 1, 1, 1, 390, 1, 390, 
-	1, 1, 1, 1, 1, 1, 390, 390, 
-	390, 390, 390, 1, 1, 390, 1, 1, 
-	1, 390, 1, 1, 390, 1, 1, 390, 
-	1, 1, 390, 1, 1, 390, 422, 434, 
-	1, 548, 1, 434, 1, 390, 422, 531, 
-	434, 1, 2, 2, 2, 2, 2, 550, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 2, 2, 2, 70, 70, 2, 70, 
+	2, 20, 20, 42, 1, 71, 71, 71, 
+	1, 18, 19, 21, 22, 23, 24, 25, 
+	26, 27, 28, 29, 30, 31, 32, 33, 
+	34, 35, 36, 37, 38, 39, 40, 41, 
+	43, 44, 45, 46, 47, 71, 71, 71, 
+	20, 20, 42, 1, 71, 71, 71, 1, 
+	71, 1, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 71, 1, 71, 71, 71, 1, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 1, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 71, 71, 71, 71, 1, 
+	71, 1, 71, 1, 71, 1, 71, 71, 
+	71, 1, 72, 73, 74, 75, 76, 77, 
+	78, 79, 80, 81, 82, 83, 84, 85, 
+	86, 87, 88, 89, 90, 91, 92, 93, 
+	94, 95, 96, 97, 98, 1, 71, 71, 
+	1, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 71, 71, 71, 71, 
+	1, 71, 71, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	1, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 1, 71, 1, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	71, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 1, 71, 
+	71, 71, 1, 71, 71, 71, 71, 1, 
+	99, 100, 101, 102, 103, 104, 105, 106, 
+	107, 108, 109, 110, 111, 112, 113, 114, 
+	115, 116, 117, 118, 119, 120, 121, 122, 
+	123, 124, 125, 126, 127, 128, 129, 130, 
+	131, 132, 133, 134, 135, 136, 137, 20, 
+	20, 20, 1, 71, 71, 71, 1, 71, 
+	71, 71, 1, 71, 71, 71, 1, 71, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 1, 71, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 1, 71, 71, 1, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 71, 1, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 1, 
+	71, 71, 71, 1, 71, 1, 71, 1, 
+	71, 1, 71, 71, 71, 1, 71, 71, 
+	1, 71, 71, 1, 71, 1, 71, 1, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 1, 71, 71, 
+	71, 71, 71, 71, 71, 1, 138, 139, 
+	140, 141, 142, 143, 144, 145, 146, 20, 
+	147, 148, 149, 150, 151, 152, 1, 71, 
+	71, 1, 71, 1, 71, 71, 71, 71, 
+	71, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 1, 71, 1, 71, 1, 
+	71, 1, 71, 71, 1, 71, 71, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 1, 71, 1, 153, 
+	113, 154, 155, 156, 20, 157, 158, 20, 
+	1, 71, 71, 71, 71, 1, 71, 71, 
+	71, 1, 71, 71, 1, 71, 71, 1, 
+	71, 71, 1, 71, 1, 132, 20, 20, 
+	1, 20, 1, 159, 20, 1, 71, 1, 
+	160, 161, 162, 163, 164, 165, 166, 167, 
+	168, 159, 169, 170, 171, 172, 20, 20, 
+	20, 20, 1, 71, 1, 71, 71, 71, 
+	1, 71, 71, 71, 1, 71, 1, 71, 
+	71, 1, 71, 71, 1, 71, 1, 71, 
+	71, 71, 71, 1, 71, 1, 71, 71, 
+	1, 71, 1, 71, 1, 71, 1, 173, 
+	20, 1, 71, 1, 174, 175, 176, 177, 
+	178, 35, 179, 180, 33, 181, 182, 183, 
+	20, 184, 185, 186, 187, 188, 20, 1, 
+	71, 71, 1, 71, 71, 1, 71, 1, 
+	71, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 1, 71, 1, 71, 1, 71, 
+	71, 1, 71, 71, 1, 71, 71, 1, 
+	71, 1, 71, 1, 71, 71, 1, 71, 
+	1, 71, 71, 71, 71, 1, 189, 190, 
+	191, 192, 193, 42, 1, 194, 195, 20, 
+	196, 112, 197, 198, 199, 200, 201, 202, 
+	203, 204, 205, 206, 20, 1, 71, 71, 
+	71, 71, 71, 1, 71, 71, 1, 71, 
+	1, 71, 71, 1, 71, 1, 71, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	71, 1, 71, 1, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	71, 71, 71, 1, 207, 20, 208, 20, 
+	1, 71, 1, 71, 1, 209, 210, 211, 
+	212, 213, 214, 215, 216, 217, 218, 219, 
+	20, 1, 71, 71, 1, 71, 71, 71, 
+	71, 71, 71, 71, 71, 1, 71, 71, 
+	1, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 1, 220, 20, 1, 71, 
+	1, 203, 20, 1, 2, 2, 2, 2, 
+	2, 51, 52, 53, 54, 55, 56, 57, 
+	58, 2, 2, 222, 50, 2, 50, 2, 
+	221, 223, 1, 224, 224, 224, 224, 1, 
+	225, 225, 225, 1, 225, 225, 225, 1, 
+	225, 1, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 225, 1, 225, 225, 225, 1, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 1, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 225, 225, 225, 225, 1, 
+	225, 1, 225, 1, 225, 1, 225, 225, 
+	225, 1, 226, 227, 228, 229, 230, 231, 
+	232, 233, 234, 235, 236, 237, 238, 239, 
+	240, 241, 242, 243, 244, 245, 246, 247, 
+	248, 249, 250, 251, 252, 1, 225, 225, 
+	1, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 225, 225, 225, 225, 
+	1, 225, 225, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	1, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 1, 225, 1, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	225, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 1, 225, 
+	225, 225, 1, 225, 225, 225, 225, 1, 
+	253, 254, 255, 256, 258, 259, 260, 261, 
+	262, 263, 264, 265, 266, 267, 268, 269, 
+	270, 271, 272, 273, 274, 275, 276, 277, 
+	278, 279, 280, 281, 282, 283, 284, 285, 
+	286, 287, 288, 289, 290, 291, 292, 257, 
+	257, 257, 1, 225, 225, 225, 1, 225, 
+	225, 225, 1, 225, 225, 225, 1, 225, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 1, 225, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 1, 225, 225, 1, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 225, 1, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 1, 
+	225, 225, 225, 1, 225, 1, 225, 1, 
+	225, 1, 225, 225, 225, 1, 225, 225, 
+	1, 225, 225, 1, 225, 1, 225, 1, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 1, 225, 225, 
+	225, 225, 225, 225, 225, 1, 293, 294, 
+	295, 296, 297, 298, 299, 300, 301, 257, 
+	302, 303, 304, 305, 306, 307, 1, 225, 
+	225, 1, 225, 1, 225, 225, 225, 225, 
+	225, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 1, 225, 1, 225, 1, 
+	225, 1, 225, 225, 1, 225, 225, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 1, 225, 1, 308, 
+	268, 309, 310, 311, 257, 312, 313, 257, 
+	1, 225, 225, 225, 225, 1, 225, 225, 
+	225, 1, 225, 225, 1, 225, 225, 1, 
+	225, 225, 1, 225, 1, 287, 257, 257, 
+	1, 257, 1, 314, 257, 1, 225, 1, 
+	315, 316, 317, 318, 319, 320, 321, 322, 
+	323, 314, 324, 325, 326, 327, 257, 257, 
+	257, 257, 1, 225, 1, 225, 225, 225, 
+	1, 225, 225, 225, 1, 225, 1, 225, 
+	225, 1, 225, 225, 1, 225, 1, 225, 
+	225, 225, 225, 1, 225, 1, 225, 225, 
+	1, 225, 1, 225, 1, 225, 1, 328, 
+	257, 1, 225, 1, 329, 330, 331, 332, 
+	333, 334, 335, 336, 337, 338, 339, 340, 
+	257, 341, 342, 343, 344, 345, 257, 1, 
+	225, 225, 1, 225, 225, 1, 225, 1, 
+	225, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 1, 225, 1, 225, 1, 225, 
+	225, 1, 225, 225, 1, 225, 225, 1, 
+	225, 1, 225, 1, 225, 225, 1, 225, 
+	1, 225, 225, 225, 225, 1, 346, 347, 
+	348, 350, 351, 349, 1, 352, 353, 257, 
+	354, 267, 355, 356, 357, 358, 359, 360, 
+	361, 362, 363, 364, 257, 1, 225, 225, 
+	225, 225, 225, 1, 225, 225, 1, 225, 
+	1, 225, 225, 1, 225, 1, 225, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	225, 1, 225, 1, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	225, 225, 225, 1, 365, 257, 366, 257, 
+	1, 225, 1, 225, 1, 367, 368, 369, 
+	370, 371, 372, 373, 374, 375, 376, 377, 
+	257, 1, 225, 225, 1, 225, 225, 225, 
+	225, 225, 225, 225, 225, 1, 225, 225, 
+	1, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 1, 378, 257, 1, 225, 
+	1, 361, 257, 1, 379, 379, 379, 1, 
+	379, 379, 379, 1, 379, 1, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 379, 379, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 379, 1, 
+	379, 379, 379, 1, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 379, 
+	379, 379, 379, 1, 379, 1, 379, 1, 
+	379, 1, 379, 379, 379, 1, 380, 381, 
+	382, 383, 384, 385, 386, 387, 388, 389, 
+	390, 391, 392, 393, 394, 395, 396, 397, 
+	398, 399, 400, 401, 402, 403, 404, 405, 
+	406, 1, 379, 379, 1, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	379, 379, 379, 379, 1, 379, 379, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	1, 379, 379, 379, 379, 379, 379, 379, 
+	1, 379, 379, 379, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 1, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	1, 379, 1, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 379, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 1, 379, 379, 379, 1, 379, 
+	379, 379, 379, 1, 407, 408, 409, 410, 
+	412, 413, 414, 415, 416, 417, 418, 419, 
+	420, 421, 422, 423, 424, 425, 426, 427, 
+	428, 429, 430, 431, 432, 433, 434, 435, 
+	436, 437, 438, 439, 440, 441, 442, 443, 
+	444, 445, 446, 411, 411, 411, 1, 379, 
+	379, 379, 1, 379, 379, 379, 1, 379, 
+	379, 379, 1, 379, 379, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 1, 
+	379, 379, 1, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 379, 1, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 1, 379, 379, 379, 1, 
+	379, 1, 379, 1, 379, 1, 379, 379, 
+	379, 1, 379, 379, 1, 379, 379, 1, 
+	379, 1, 379, 1, 379, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 1, 379, 379, 379, 379, 379, 379, 
+	379, 1, 447, 448, 449, 450, 451, 452, 
+	453, 454, 455, 411, 456, 457, 458, 459, 
+	460, 461, 1, 379, 379, 1, 379, 1, 
+	379, 379, 379, 379, 379, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 1, 
+	379, 1, 379, 1, 379, 1, 379, 379, 
+	1, 379, 379, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	1, 379, 1, 462, 422, 463, 464, 465, 
+	411, 466, 467, 411, 1, 379, 379, 379, 
+	379, 1, 379, 379, 379, 1, 379, 379, 
+	1, 379, 379, 1, 379, 379, 1, 379, 
+	1, 441, 411, 411, 1, 411, 1, 468, 
+	411, 1, 379, 1, 469, 470, 471, 472, 
+	473, 474, 475, 476, 477, 468, 478, 479, 
+	480, 481, 411, 411, 411, 411, 1, 379, 
+	1, 379, 379, 379, 1, 379, 379, 379, 
+	1, 379, 1, 379, 379, 1, 379, 379, 
+	1, 379, 1, 379, 379, 379, 379, 1, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	1, 379, 1, 482, 411, 1, 379, 1, 
+	483, 484, 485, 486, 487, 488, 489, 490, 
+	491, 492, 493, 494, 411, 495, 496, 497, 
+	498, 499, 411, 1, 379, 379, 1, 379, 
+	379, 1, 379, 1, 379, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 1, 379, 
+	1, 379, 1, 379, 379, 1, 379, 379, 
+	1, 379, 379, 1, 379, 1, 379, 1, 
+	379, 379, 1, 379, 1, 379, 379, 379, 
+	379, 1, 500, 501, 502, 504, 505, 503, 
+	1, 506, 507, 411, 508, 421, 509, 510, 
+	511, 512, 513, 514, 515, 516, 517, 518, 
+	411, 1, 379, 379, 379, 379, 379, 1, 
+	379, 379, 1, 379, 1, 379, 379, 1, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 379, 1, 379, 1, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 1, 379, 379, 379, 379, 379, 1, 
+	519, 411, 520, 411, 1, 379, 1, 379, 
+	1, 521, 522, 523, 524, 525, 526, 527, 
+	528, 529, 530, 531, 411, 1, 379, 379, 
+	1, 379, 379, 379, 379, 379, 379, 379, 
+	379, 1, 379, 379, 1, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 1, 
+	532, 411, 1, 379, 1, 515, 411, 1, 
+	2, 2, 2, 2, 2, 534, 535, 536, 
+	537, 538, 539, 540, 541, 542, 543, 545, 
+	546, 547, 548, 549, 550, 551, 552, 553, 
+	554, 555, 556, 557, 558, 559, 560, 561, 
+	562, 563, 564, 565, 567, 568, 569, 570, 
+	571, 2, 2, 48, 533, 2, 533, 2, 
+	544, 544, 566, 1, 572, 572, 572, 1, 
+	542, 543, 545, 546, 547, 548, 549, 550, 
 	551, 552, 553, 554, 555, 556, 557, 558, 
-	559, 561, 562, 563, 564, 565, 566, 567, 
-	568, 569, 570, 571, 572, 573, 574, 575, 
-	576, 577, 578, 579, 580, 581, 582, 583, 
-	585, 586, 587, 588, 589, 2, 2, 50, 
-	549, 2, 549, 2, 560, 560, 584, 1, 
-	590, 590, 590, 1, 558, 559, 561, 562, 
-	563, 564, 565, 566, 567, 568, 569, 570, 
-	571, 572, 573, 574, 575, 576, 577, 578, 
-	579, 580, 581, 582, 583, 585, 586, 587, 
-	588, 589, 590, 590, 560, 560, 584, 1, 
-	590, 590, 590, 1, 590, 1, 590, 590, 
-	1, 1, 1, 1, 1, 1, 590, 590, 
-	590, 590, 590, 1, 590, 590, 590, 590, 
-	590, 1, 1, 590, 1, 590, 1, 590, 
-	1, 1, 590, 1, 1, 1, 590, 590, 
-	590, 590, 590, 590, 1, 590, 590, 1, 
-	590, 590, 590, 1, 1, 1, 1, 1, 
-	1, 1, 590, 590, 1, 590, 1, 1, 
-	590, 590, 590, 590, 1, 591, 592, 593, 
-	594, 595, 596, 597, 598, 599, 600, 601, 
+	559, 560, 561, 562, 563, 564, 565, 567, 
+	568, 569, 570, 571, 572, 572, 544, 544, 
+	566, 1, 572, 572, 572, 1, 572, 1, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	572, 1, 572, 572, 572, 1, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 1, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 572, 572, 572, 572, 1, 572, 1, 
+	572, 1, 572, 1, 572, 572, 572, 1, 
+	573, 574, 575, 576, 577, 578, 579, 580, 
+	581, 582, 583, 584, 585, 586, 587, 588, 
+	589, 590, 591, 592, 593, 594, 595, 596, 
+	597, 598, 599, 1, 572, 572, 1, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 572, 572, 572, 572, 1, 572, 
+	572, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 1, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 1, 572, 1, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 572, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 1, 572, 572, 572, 
+	1, 572, 572, 572, 572, 1, 600, 601, 
 	602, 603, 604, 605, 606, 607, 608, 609, 
 	610, 611, 612, 613, 614, 615, 616, 617, 
-	1, 590, 590, 1, 1, 1, 1, 1, 
-	1, 590, 590, 590, 590, 590, 590, 590, 
-	590, 590, 1, 1, 1, 1, 1, 1, 
-	1, 1, 1, 590, 590, 590, 590, 590, 
-	590, 590, 590, 590, 590, 1, 1, 1, 
-	1, 1, 1, 1, 1, 590, 590, 590, 
-	590, 590, 590, 590, 590, 590, 1, 1, 
-	1, 1, 1, 1, 590, 590, 590, 590, 
-	590, 590, 590, 590, 590, 1, 590, 590, 
-	590, 590, 590, 590, 590, 1, 590, 590, 
-	590, 590, 590, 590, 590, 590, 590, 590, 
-	590, 1, 590, 590, 590, 590, 590, 1, 
-	590, 590, 590, 590, 590, 590, 590, 1, 
-	1, 1, 1, 1, 1, 1, 590, 590, 
-	590, 590, 590, 590, 590, 590, 1, 590, 
-	590, 590, 590, 590, 590, 1, 590, 590, 
-	590, 590, 590, 590, 1, 1, 1, 1, 
-	1, 1, 1, 590, 590, 590, 590, 590, 
-	590, 1, 590, 590, 590, 590, 590, 1, 
-	590, 1, 590, 590, 1, 590, 590, 590, 
-	590, 590, 590, 590, 590, 590, 590, 590, 
-	590, 590, 1, 590, 590, 590, 590, 1, 
-	590, 1, 590, 590, 590, 1, 590, 590, 
-	590, 590, 1, 618, 619, 620, 621, 622, 
-	623, 624, 625, 626, 627, 628, 629, 630, 
-	631, 632, 633, 634, 635, 636, 637, 638, 
-	639, 640, 641, 642, 643, 644, 645, 646, 
-	647, 648, 649, 650, 651, 652, 562, 560, 
-	561, 562, 653, 654, 655, 656, 562, 560, 
-	560, 1, 590, 590, 590, 1, 590, 590, 
-	590, 1, 1, 1, 590, 1, 1, 1, 
-	590, 1, 590, 1, 590, 1, 590, 1, 
-	1, 1, 1, 1, 590, 1, 1, 1, 
-	1, 1, 590, 590, 590, 590, 590, 1, 
-	1, 1, 590, 1, 1, 590, 590, 590, 
-	1, 1, 590, 590, 1, 1, 1, 590, 
-	590, 590, 1, 1, 1, 590, 590, 590, 
-	590, 1, 590, 590, 590, 590, 1, 590, 
-	590, 1, 1, 1, 1, 590, 590, 1, 
-	1, 590, 590, 1, 590, 590, 590, 1, 
-	590, 590, 1, 590, 590, 1, 1, 590, 
-	590, 1, 590, 590, 1, 1, 1, 590, 
-	590, 590, 1, 590, 1, 590, 590, 1, 
-	1, 1, 590, 1, 1, 1, 1, 1, 
-	1, 1, 590, 590, 590, 590, 1, 590, 
-	590, 590, 590, 590, 590, 590, 1, 657, 
-	658, 659, 660, 661, 662, 663, 664, 665, 
-	562, 666, 667, 668, 669, 670, 671, 1, 
-	590, 590, 1, 590, 1, 590, 590, 590, 
-	590, 590, 590, 590, 590, 590, 590, 590, 
-	1, 590, 590, 590, 1, 1, 590, 590, 
-	1, 1, 590, 590, 590, 1, 1, 1, 
-	1, 590, 1, 590, 590, 590, 1, 1, 
-	1, 590, 590, 590, 590, 590, 590, 1, 
-	590, 590, 590, 590, 590, 1, 590, 1, 
-	672, 632, 673, 674, 675, 560, 676, 677, 
-	562, 560, 1, 590, 590, 590, 590, 1, 
-	1, 1, 590, 1, 1, 590, 590, 590, 
-	1, 1, 1, 590, 590, 1, 678, 1, 
-	562, 560, 1, 590, 560, 679, 1, 560, 
-	1, 590, 562, 680, 562, 681, 682, 683, 
-	684, 560, 685, 686, 687, 688, 562, 679, 
-	689, 690, 691, 692, 562, 560, 560, 560, 
-	1, 1, 590, 1, 1, 1, 590, 590, 
-	590, 590, 1, 590, 1, 590, 590, 1, 
-	1, 1, 590, 590, 1, 1, 1, 1, 
-	1, 590, 590, 1, 590, 590, 1, 1, 
-	590, 590, 1, 590, 1, 693, 1, 560, 
-	1, 590, 562, 694, 695, 696, 697, 698, 
-	577, 699, 700, 701, 702, 703, 704, 560, 
-	705, 706, 707, 708, 709, 560, 1, 1, 
-	590, 1, 590, 1, 590, 590, 590, 590, 
-	590, 590, 590, 1, 590, 590, 590, 1, 
-	590, 1, 1, 590, 590, 1, 1, 590, 
-	1, 1, 590, 590, 590, 1, 1, 590, 
-	590, 1, 590, 590, 1, 1, 590, 590, 
-	590, 590, 590, 1, 710, 711, 712, 713, 
-	714, 715, 584, 1, 716, 717, 562, 718, 
-	719, 720, 721, 722, 723, 724, 725, 562, 
-	560, 726, 727, 728, 729, 1, 590, 590, 
-	590, 590, 590, 1, 1, 1, 590, 1, 
-	590, 590, 1, 590, 590, 1, 1, 590, 
-	590, 590, 1, 1, 590, 590, 590, 1, 
-	1, 1, 1, 590, 1, 590, 590, 590, 
-	590, 590, 590, 590, 1, 590, 590, 1, 
-	590, 590, 590, 590, 590, 1, 562, 730, 
-	562, 731, 560, 1, 1, 590, 1, 590, 
-	562, 732, 733, 734, 735, 736, 737, 738, 
-	739, 740, 741, 742, 560, 1, 1, 590, 
-	1, 1, 1, 1, 1, 1, 1, 590, 
-	1, 590, 1, 1, 1, 1, 1, 1, 
-	590, 590, 590, 590, 590, 1, 1, 590, 
-	1, 1, 1, 590, 1, 1, 590, 1, 
-	1, 590, 1, 1, 590, 1, 1, 590, 
-	562, 560, 1, 743, 1, 560, 1, 590, 
-	562, 726, 560, 1, 745, 745, 745, 744, 
-	745, 745, 745, 744, 745, 744, 745, 745, 
-	744, 744, 744, 744, 744, 744, 745, 745, 
-	745, 745, 745, 744, 745, 745, 745, 745, 
-	745, 744, 744, 745, 744, 745, 744, 745, 
-	744, 744, 745, 744, 744, 744, 745, 745, 
-	745, 745, 745, 745, 744, 745, 745, 744, 
-	745, 745, 745, 744, 744, 744, 744, 744, 
-	744, 744, 745, 745, 744, 745, 744, 744, 
-	745, 745, 745, 745, 744, 746, 747, 748, 
-	749, 750, 751, 752, 753, 754, 755, 756, 
-	757, 758, 759, 760, 761, 762, 763, 764, 
-	765, 766, 767, 768, 769, 770, 771, 772, 
-	744, 745, 745, 744, 744, 744, 744, 744, 
-	744, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 744, 744, 744, 744, 744, 744, 
-	744, 744, 744, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 744, 744, 744, 
-	744, 744, 744, 744, 744, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 744, 744, 
-	744, 744, 744, 744, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 744, 745, 745, 
-	745, 745, 745, 745, 745, 744, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 744, 745, 745, 745, 745, 745, 744, 
-	745, 745, 745, 745, 745, 745, 745, 744, 
-	744, 744, 744, 744, 744, 744, 745, 745, 
-	745, 745, 745, 745, 745, 745, 744, 745, 
-	745, 745, 745, 745, 745, 744, 745, 745, 
-	745, 745, 745, 745, 744, 744, 744, 744, 
-	744, 744, 744, 745, 745, 745, 745, 745, 
-	745, 744, 745, 745, 745, 745, 745, 744, 
-	745, 744, 745, 745, 744, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 744, 745, 745, 745, 745, 744, 
-	745, 744, 745, 745, 745, 744, 745, 745, 
-	745, 745, 744, 773, 774, 775, 776, 778, 
-	779, 780, 781, 782, 783, 784, 785, 786, 
-	787, 788, 790, 791, 792, 793, 794, 795, 
-	796, 797, 798, 799, 800, 801, 802, 803, 
-	804, 805, 806, 807, 808, 809, 777, 789, 
-	810, 777, 811, 812, 813, 814, 777, 789, 
-	789, 744, 745, 745, 745, 744, 745, 745, 
-	745, 744, 744, 744, 745, 744, 744, 744, 
-	745, 744, 745, 744, 745, 744, 745, 744, 
-	744, 744, 744, 744, 745, 744, 744, 744, 
-	744, 744, 745, 745, 745, 745, 745, 744, 
-	744, 744, 745, 744, 744, 745, 745, 745, 
-	744, 744, 745, 745, 744, 744, 744, 745, 
-	745, 745, 744, 744, 744, 745, 745, 745, 
-	745, 744, 745, 745, 745, 745, 744, 745, 
-	745, 744, 744, 744, 744, 745, 745, 744, 
-	744, 745, 745, 744, 745, 745, 745, 744, 
-	745, 745, 744, 745, 745, 744, 744, 745, 
-	745, 744, 745, 745, 744, 744, 744, 745, 
-	745, 745, 744, 745, 744, 745, 745, 744, 
-	744, 744, 745, 744, 744, 744, 744, 744, 
-	744, 744, 745, 745, 745, 745, 744, 745, 
-	745, 745, 745, 745, 745, 745, 744, 815, 
-	816, 817, 818, 819, 820, 821, 822, 823, 
-	777, 824, 825, 826, 827, 828, 829, 744, 
-	745, 745, 744, 745, 744, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	744, 745, 745, 745, 744, 744, 745, 745, 
-	744, 744, 745, 745, 745, 744, 744, 744, 
-	744, 745, 744, 745, 745, 745, 744, 744, 
-	744, 745, 745, 745, 745, 745, 745, 744, 
-	745, 745, 745, 745, 745, 744, 745, 744, 
-	830, 788, 831, 832, 833, 789, 834, 835, 
-	777, 789, 744, 745, 745, 745, 745, 744, 
-	744, 744, 745, 744, 744, 745, 745, 745, 
-	744, 744, 744, 745, 745, 744, 836, 744, 
-	777, 789, 744, 745, 789, 837, 744, 789, 
-	744, 745, 777, 838, 777, 839, 840, 841, 
-	842, 789, 843, 844, 845, 846, 777, 837, 
-	847, 848, 849, 850, 777, 789, 789, 789, 
-	744, 744, 745, 744, 744, 744, 745, 745, 
-	745, 745, 744, 745, 744, 745, 745, 744, 
-	744, 744, 745, 745, 744, 744, 744, 744, 
-	744, 745, 745, 744, 745, 745, 744, 744, 
-	745, 745, 744, 745, 744, 851, 744, 789, 
-	744, 745, 777, 852, 853, 854, 855, 856, 
-	857, 858, 859, 860, 861, 862, 863, 789, 
-	864, 865, 866, 867, 868, 789, 744, 744, 
-	745, 744, 745, 744, 745, 745, 745, 745, 
-	745, 745, 745, 744, 745, 745, 745, 744, 
-	745, 744, 744, 745, 745, 744, 744, 745, 
-	744, 744, 745, 745, 745, 744, 744, 745, 
-	745, 744, 745, 745, 744, 744, 745, 745, 
-	745, 745, 745, 744, 869, 870, 871, 872, 
-	874, 875, 873, 744, 876, 877, 777, 878, 
-	879, 880, 881, 882, 883, 884, 885, 777, 
-	789, 886, 887, 888, 889, 744, 745, 745, 
-	745, 745, 745, 744, 744, 744, 745, 744, 
-	745, 745, 744, 745, 745, 744, 744, 745, 
-	745, 745, 744, 744, 745, 745, 745, 744, 
-	744, 744, 744, 745, 744, 745, 745, 745, 
-	745, 745, 745, 745, 744, 745, 745, 744, 
-	745, 745, 745, 745, 745, 744, 777, 890, 
-	777, 891, 789, 744, 744, 745, 744, 745, 
-	777, 892, 893, 894, 895, 896, 897, 898, 
-	899, 900, 901, 902, 789, 744, 744, 745, 
-	744, 744, 744, 744, 744, 744, 744, 745, 
-	744, 745, 744, 744, 744, 744, 744, 744, 
-	745, 745, 745, 745, 745, 744, 744, 745, 
-	744, 744, 744, 745, 744, 744, 745, 744, 
-	744, 745, 744, 744, 745, 744, 744, 745, 
-	777, 789, 744, 903, 744, 789, 744, 745, 
-	777, 886, 789, 744, 904, 904, 904, 744, 
-	904, 904, 904, 744, 904, 744, 904, 904, 
-	744, 744, 744, 744, 744, 744, 904, 904, 
-	904, 904, 904, 744, 904, 904, 904, 904, 
-	904, 744, 744, 904, 744, 904, 744, 904, 
-	744, 744, 904, 744, 744, 744, 904, 904, 
-	904, 904, 904, 904, 744, 904, 904, 744, 
-	904, 904, 904, 744, 744, 744, 744, 744, 
-	744, 744, 904, 904, 744, 904, 744, 744, 
-	904, 904, 904, 904, 744, 905, 906, 907, 
-	908, 909, 910, 911, 912, 913, 914, 915, 
+	618, 619, 620, 621, 622, 623, 624, 625, 
+	626, 627, 628, 629, 630, 631, 632, 633, 
+	634, 635, 636, 637, 638, 544, 544, 544, 
+	1, 572, 572, 572, 1, 572, 572, 572, 
+	1, 572, 572, 572, 1, 572, 572, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	1, 572, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 1, 572, 572, 1, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	572, 1, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 1, 572, 572, 
+	572, 1, 572, 1, 572, 1, 572, 1, 
+	572, 572, 572, 1, 572, 572, 1, 572, 
+	572, 1, 572, 1, 572, 1, 572, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 1, 572, 572, 572, 572, 
+	572, 572, 572, 1, 639, 640, 641, 642, 
+	643, 644, 645, 646, 647, 544, 648, 649, 
+	650, 651, 652, 653, 1, 572, 572, 1, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 1, 572, 1, 572, 1, 572, 1, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 1, 572, 1, 654, 614, 655, 
+	656, 657, 544, 658, 659, 544, 1, 572, 
+	572, 572, 572, 1, 572, 572, 572, 1, 
+	572, 572, 1, 572, 572, 1, 572, 572, 
+	1, 572, 1, 633, 544, 544, 1, 544, 
+	1, 660, 544, 1, 572, 1, 661, 662, 
+	663, 664, 665, 666, 667, 668, 669, 660, 
+	670, 671, 672, 673, 544, 544, 544, 544, 
+	1, 572, 1, 572, 572, 572, 1, 572, 
+	572, 572, 1, 572, 1, 572, 572, 1, 
+	572, 572, 1, 572, 1, 572, 572, 572, 
+	572, 1, 572, 1, 572, 572, 1, 572, 
+	1, 572, 1, 572, 1, 674, 544, 1, 
+	572, 1, 675, 676, 677, 678, 679, 559, 
+	680, 681, 557, 682, 683, 684, 544, 685, 
+	686, 687, 688, 689, 544, 1, 572, 572, 
+	1, 572, 572, 1, 572, 1, 572, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	1, 572, 1, 572, 1, 572, 572, 1, 
+	572, 572, 1, 572, 572, 1, 572, 1, 
+	572, 1, 572, 572, 1, 572, 1, 572, 
+	572, 572, 572, 1, 690, 691, 692, 693, 
+	694, 566, 1, 695, 696, 544, 697, 613, 
+	698, 699, 700, 701, 702, 703, 704, 705, 
+	706, 707, 544, 1, 572, 572, 572, 572, 
+	572, 1, 572, 572, 1, 572, 1, 572, 
+	572, 1, 572, 1, 572, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 572, 1, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 1, 572, 572, 572, 572, 
+	572, 1, 708, 544, 709, 544, 1, 572, 
+	1, 572, 1, 710, 711, 712, 713, 714, 
+	715, 716, 717, 718, 719, 720, 544, 1, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	572, 572, 572, 1, 572, 572, 1, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 1, 721, 544, 1, 572, 1, 704, 
+	544, 1, 723, 723, 723, 722, 723, 723, 
+	723, 722, 723, 722, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 723, 723, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 723, 722, 723, 723, 
+	723, 722, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 722, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	723, 722, 723, 722, 723, 722, 723, 722, 
+	723, 723, 723, 722, 724, 725, 726, 727, 
+	728, 729, 730, 731, 732, 733, 734, 735, 
+	736, 737, 738, 739, 740, 741, 742, 743, 
+	744, 745, 746, 747, 748, 749, 750, 722, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 723, 723, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 722, 723, 
+	723, 723, 723, 723, 723, 723, 722, 723, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 722, 723, 
+	722, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	722, 723, 723, 723, 722, 723, 723, 723, 
+	723, 722, 751, 752, 753, 754, 756, 757, 
+	758, 759, 760, 761, 762, 763, 764, 765, 
+	766, 767, 768, 769, 770, 771, 772, 773, 
+	774, 775, 776, 777, 778, 779, 780, 781, 
+	782, 783, 784, 785, 786, 787, 788, 789, 
+	790, 755, 755, 755, 722, 723, 723, 723, 
+	722, 723, 723, 723, 722, 723, 723, 723, 
+	722, 723, 723, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 722, 723, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 722, 723, 723, 
+	722, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 723, 722, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 722, 723, 723, 723, 722, 723, 722, 
+	723, 722, 723, 722, 723, 723, 723, 722, 
+	723, 723, 722, 723, 723, 722, 723, 722, 
+	723, 722, 723, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 722, 
+	723, 723, 723, 723, 723, 723, 723, 722, 
+	791, 792, 793, 794, 795, 796, 797, 798, 
+	799, 755, 800, 801, 802, 803, 804, 805, 
+	722, 723, 723, 722, 723, 722, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 722, 723, 722, 
+	723, 722, 723, 722, 723, 723, 722, 723, 
+	723, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 722, 723, 
+	722, 806, 766, 807, 808, 809, 755, 810, 
+	811, 755, 722, 723, 723, 723, 723, 722, 
+	723, 723, 723, 722, 723, 723, 722, 723, 
+	723, 722, 723, 723, 722, 723, 722, 785, 
+	755, 755, 722, 755, 722, 812, 755, 722, 
+	723, 722, 813, 814, 815, 816, 817, 818, 
+	819, 820, 821, 812, 822, 823, 824, 825, 
+	755, 755, 755, 755, 722, 723, 722, 723, 
+	723, 723, 722, 723, 723, 723, 722, 723, 
+	722, 723, 723, 722, 723, 723, 722, 723, 
+	722, 723, 723, 723, 723, 722, 723, 722, 
+	723, 723, 722, 723, 722, 723, 722, 723, 
+	722, 826, 755, 722, 723, 722, 827, 828, 
+	829, 830, 831, 832, 833, 834, 835, 836, 
+	837, 838, 755, 839, 840, 841, 842, 843, 
+	755, 722, 723, 723, 722, 723, 723, 722, 
+	723, 722, 723, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 722, 723, 722, 723, 
+	722, 723, 723, 722, 723, 723, 722, 723, 
+	723, 722, 723, 722, 723, 722, 723, 723, 
+	722, 723, 722, 723, 723, 723, 723, 722, 
+	844, 845, 846, 848, 849, 847, 722, 850, 
+	851, 755, 852, 765, 853, 854, 855, 856, 
+	857, 858, 859, 860, 861, 862, 755, 722, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	722, 723, 722, 723, 723, 722, 723, 722, 
+	723, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 723, 722, 723, 722, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 722, 
+	723, 723, 723, 723, 723, 722, 863, 755, 
+	864, 755, 722, 723, 722, 723, 722, 865, 
+	866, 867, 868, 869, 870, 871, 872, 873, 
+	874, 875, 755, 722, 723, 723, 722, 723, 
+	723, 723, 723, 723, 723, 723, 723, 722, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 722, 876, 755, 
+	722, 723, 722, 859, 755, 722, 877, 877, 
+	877, 722, 877, 877, 877, 722, 877, 722, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	877, 722, 877, 877, 877, 722, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 722, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 877, 877, 877, 877, 722, 877, 722, 
+	877, 722, 877, 722, 877, 877, 877, 722, 
+	878, 879, 880, 881, 882, 883, 884, 885, 
+	886, 887, 888, 889, 890, 891, 892, 893, 
+	894, 895, 896, 897, 898, 899, 900, 901, 
+	902, 903, 904, 722, 877, 877, 722, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 877, 877, 877, 877, 722, 877, 
+	877, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 722, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 722, 877, 722, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 877, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 722, 877, 877, 877, 
+	722, 877, 877, 877, 877, 722, 905, 906, 
+	907, 908, 910, 911, 912, 913, 914, 915, 
 	916, 917, 918, 919, 920, 921, 922, 923, 
 	924, 925, 926, 927, 928, 929, 930, 931, 
-	744, 904, 904, 744, 744, 744, 744, 744, 
-	744, 904, 904, 904, 904, 904, 904, 904, 
-	904, 904, 744, 744, 744, 744, 744, 744, 
-	744, 744, 744, 904, 904, 904, 904, 904, 
-	904, 904, 904, 904, 904, 744, 744, 744, 
-	744, 744, 744, 744, 744, 904, 904, 904, 
-	904, 904, 904, 904, 904, 904, 744, 744, 
-	744, 744, 744, 744, 904, 904, 904, 904, 
-	904, 904, 904, 904, 904, 744, 904, 904, 
-	904, 904, 904, 904, 904, 744, 904, 904, 
-	904, 904, 904, 904, 904, 904, 904, 904, 
-	904, 744, 904, 904, 904, 904, 904, 744, 
-	904, 904, 904, 904, 904, 904, 904, 744, 
-	744, 744, 744, 744, 744, 744, 904, 904, 
-	904, 904, 904, 904, 904, 904, 744, 904, 
-	904, 904, 904, 904, 904, 744, 904, 904, 
-	904, 904, 904, 904, 744, 744, 744, 744, 
-	744, 744, 744, 904, 904, 904, 904, 904, 
-	904, 744, 904, 904, 904, 904, 904, 744, 
-	904, 744, 904, 904, 744, 904, 904, 904, 
-	904, 904, 904, 904, 904, 904, 904, 904, 
-	904, 904, 744, 904, 904, 904, 904, 744, 
-	904, 744, 904, 904, 904, 744, 904, 904, 
-	904, 904, 744, 932, 933, 934, 935, 937, 
-	938, 939, 940, 941, 942, 943, 944, 945, 
-	946, 947, 949, 950, 951, 952, 953, 954, 
-	955, 956, 957, 958, 959, 960, 961, 962, 
-	963, 964, 965, 966, 967, 968, 936, 948, 
-	969, 936, 970, 971, 972, 973, 936, 948, 
-	948, 744, 904, 904, 904, 744, 904, 904, 
-	904, 744, 744, 744, 904, 744, 744, 744, 
-	904, 744, 904, 744, 904, 744, 904, 744, 
-	744, 744, 744, 744, 904, 744, 744, 744, 
-	744, 744, 904, 904, 904, 904, 904, 744, 
-	744, 744, 904, 744, 744, 904, 904, 904, 
-	744, 744, 904, 904, 744, 744, 744, 904, 
-	904, 904, 744, 744, 744, 904, 904, 904, 
-	904, 744, 904, 904, 904, 904, 744, 904, 
-	904, 744, 744, 744, 744, 904, 904, 744, 
-	744, 904, 904, 744, 904, 904, 904, 744, 
-	904, 904, 744, 904, 904, 744, 744, 904, 
-	904, 744, 904, 904, 744, 744, 744, 904, 
-	904, 904, 744, 904, 744, 904, 904, 744, 
-	744, 744, 904, 744, 744, 744, 744, 744, 
-	744, 744, 904, 904, 904, 904, 744, 904, 
-	904, 904, 904, 904, 904, 904, 744, 974, 
-	975, 976, 977, 978, 979, 980, 981, 982, 
-	936, 983, 984, 985, 986, 987, 988, 744, 
-	904, 904, 744, 904, 744, 904, 904, 904, 
-	904, 904, 904, 904, 904, 904, 904, 904, 
-	744, 904, 904, 904, 744, 744, 904, 904, 
-	744, 744, 904, 904, 904, 744, 744, 744, 
-	744, 904, 744, 904, 904, 904, 744, 744, 
-	744, 904, 904, 904, 904, 904, 904, 744, 
-	904, 904, 904, 904, 904, 744, 904, 744, 
-	989, 947, 990, 991, 992, 948, 993, 994, 
-	936, 948, 744, 904, 904, 904, 904, 744, 
-	744, 744, 904, 744, 744, 904, 904, 904, 
-	744, 744, 744, 904, 904, 744, 995, 744, 
-	936, 948, 744, 904, 948, 996, 744, 948, 
-	744, 904, 936, 997, 936, 998, 999, 1000, 
-	1001, 948, 1002, 1003, 1004, 1005, 936, 996, 
-	1006, 1007, 1008, 1009, 936, 948, 948, 948, 
-	744, 744, 904, 744, 744, 744, 904, 904, 
-	904, 904, 744, 904, 744, 904, 904, 744, 
-	744, 744, 904, 904, 744, 744, 744, 744, 
-	744, 904, 904, 744, 904, 904, 744, 744, 
-	904, 904, 744, 904, 744, 1010, 744, 948, 
-	744, 904, 936, 1011, 1012, 1013, 1014, 1015, 
-	1016, 1017, 1018, 1019, 1020, 1021, 1022, 948, 
-	1023, 1024, 1025, 1026, 1027, 948, 744, 744, 
-	904, 744, 904, 744, 904, 904, 904, 904, 
-	904, 904, 904, 744, 904, 904, 904, 744, 
-	904, 744, 744, 904, 904, 744, 744, 904, 
-	744, 744, 904, 904, 904, 744, 744, 904, 
-	904, 744, 904, 904, 744, 744, 904, 904, 
-	904, 904, 904, 744, 1028, 1029, 1030, 1031, 
-	1033, 1034, 1032, 744, 1035, 1036, 936, 1037, 
-	1038, 1039, 1040, 1041, 1042, 1043, 1044, 936, 
-	948, 1045, 1046, 1047, 1048, 744, 904, 904, 
-	904, 904, 904, 744, 744, 744, 904, 744, 
-	904, 904, 744, 904, 904, 744, 744, 904, 
-	904, 904, 744, 744, 904, 904, 904, 744, 
-	744, 744, 744, 904, 744, 904, 904, 904, 
-	904, 904, 904, 904, 744, 904, 904, 744, 
-	904, 904, 904, 904, 904, 744, 936, 1049, 
-	936, 1050, 948, 744, 744, 904, 744, 904, 
-	936, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 
-	1058, 1059, 1060, 1061, 948, 744, 744, 904, 
-	744, 744, 744, 744, 744, 744, 744, 904, 
-	744, 904, 744, 744, 744, 744, 744, 744, 
-	904, 904, 904, 904, 904, 744, 744, 904, 
-	744, 744, 744, 904, 744, 744, 904, 744, 
-	744, 904, 744, 744, 904, 744, 744, 904, 
-	936, 948, 744, 1062, 744, 948, 744, 904, 
-	936, 1045, 948, 744, 1063, 744, 1064, 1065, 
-	230, 230, 1064, 230, 1064, 1064, 1064, 744, 
-	1066, 1066, 10, 10, 10, 10, 10, 10, 
-	1066, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 10, 10, 10, 10, 10, 10, 10, 
-	10, 10, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 10, 10, 10, 
-	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 10, 10, 10, 
-	10, 10, 10, 1066, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 10, 1066, 
-	1066, 1066, 1066, 1066, 1066, 1066, 10, 10, 
-	10, 10, 10, 10, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 10, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 10, 10, 10, 10, 10, 
-	10, 10, 1066, 1066, 1066, 1066, 1066, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 10, 1066, 
-	10, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 10, 1066, 1066, 1066, 1066, 10, 1066, 
-	10, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 10, 1066, 1066, 1066, 10, 1066, 1066, 
-	1066, 10, 10, 10, 1066, 10, 10, 10, 
-	1066, 1066, 10, 10, 1066, 10, 1066, 10, 
-	1066, 10, 10, 10, 10, 10, 1066, 10, 
-	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 10, 10, 1066, 10, 10, 1066, 
-	1066, 1066, 10, 10, 1066, 1066, 10, 1066, 
-	10, 10, 1066, 1066, 1066, 10, 10, 10, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 10, 1066, 1066, 10, 10, 10, 10, 
-	1066, 1066, 10, 10, 1066, 1066, 10, 1066, 
-	1066, 1066, 10, 1066, 1066, 10, 1066, 1066, 
-	10, 10, 1066, 1066, 10, 1066, 1066, 10, 
-	10, 10, 1066, 1066, 1066, 10, 1066, 10, 
-	1066, 1066, 10, 10, 1066, 10, 10, 1066, 
-	10, 10, 10, 10, 10, 10, 10, 1066, 
-	1066, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 10, 1066, 1066, 10, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	10, 10, 1066, 1066, 10, 10, 1066, 1066, 
-	1066, 10, 10, 10, 10, 1066, 10, 1066, 
-	1066, 1066, 10, 10, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 1066, 10, 1066, 1066, 1066, 1066, 
-	10, 10, 10, 1066, 10, 10, 1066, 1066, 
-	1066, 10, 10, 10, 1066, 1066, 10, 10, 
-	1066, 10, 1066, 10, 1066, 10, 10, 10, 
-	1066, 1066, 1066, 1066, 10, 1066, 10, 1066, 
-	1066, 10, 10, 10, 1066, 1066, 10, 10, 
-	10, 10, 10, 1066, 1066, 10, 1066, 1066, 
-	10, 10, 1066, 1066, 10, 1066, 10, 10, 
-	1066, 10, 1066, 10, 1066, 10, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 10, 1066, 1066, 
-	1066, 10, 10, 1066, 1066, 10, 10, 1066, 
-	1066, 10, 10, 1066, 10, 10, 1066, 1066, 
-	1066, 10, 10, 1066, 1066, 10, 1066, 1066, 
-	10, 10, 1066, 1066, 1066, 1066, 1066, 10, 
-	1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 
-	1075, 1076, 1077, 1069, 1078, 1079, 1080, 1081, 
-	1082, 10, 1066, 1066, 1066, 1066, 1066, 10, 
-	10, 10, 1066, 10, 1066, 1066, 10, 1066, 
-	1066, 10, 10, 1066, 1066, 1066, 10, 10, 
-	1066, 1066, 1066, 10, 10, 10, 10, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	10, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 1069, 1083, 1069, 1084, 1078, 10, 
-	10, 1066, 10, 1066, 1069, 1085, 1086, 1087, 
-	1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 
-	1078, 10, 10, 1066, 10, 10, 10, 10, 
-	10, 10, 10, 1066, 10, 1066, 10, 10, 
-	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 10, 1066, 10, 10, 10, 1066, 
-	10, 10, 1066, 10, 10, 1066, 10, 10, 
-	1066, 10, 10, 1066, 1069, 1078, 10, 1078, 
-	1096, 10, 1078, 10, 1066, 1069, 1079, 1078, 
-	10, 1097, 1098, 1101, 1100, 1102, 1102, 1100, 
-	1100, 1100, 1105, 1106, 1107, 1108, 1110, 1111, 
-	1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 
-	1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 
-	1128, 1129, 1130, 1131, 1132, 1134, 1135, 1136, 
-	1137, 1138, 1100, 1103, 1104, 1100, 1104, 1100, 
-	1109, 1109, 1133, 1099, 2, 3, 2, 4, 
-	2, 2, 2, 2, 2, 1, 5, 1140, 
-	5, 5, 5, 5, 5, 5, 5, 1139, 
-	12, 13, 11, 11, 11, 11, 1141, 2, 
-	3, 2, 4, 2, 2, 2, 1142, 2, 
-	2, 1141, 2, 1144, 2, 4, 2, 2, 
-	2, 1142, 2, 2, 1143, 2, 3, 2, 
-	4, 2, 2, 2, 15, 2, 2, 1145, 
-	2, 1147, 1148, 2, 1149, 2, 2, 4, 
-	1151, 18, 19, 21, 22, 23, 24, 25, 
-	26, 27, 28, 29, 30, 31, 32, 33, 
-	34, 35, 36, 37, 38, 39, 40, 41, 
-	42, 43, 45, 46, 47, 48, 49, 2, 
-	2, 1103, 1150, 2, 1150, 2, 20, 20, 
-	44, 1146, 2, 16, 51, 1153, 1154, 2, 
-	2, 4, 2, 2, 50, 50, 2, 50, 
-	2, 1152, 1155, 63, 1152, 2, 16, 51, 
-	1153, 1154, 2, 2, 4, 61, 2, 2, 
-	50, 50, 2, 50, 2, 1152, 2, 16, 
-	51, 1153, 1154, 2, 2, 4, 61, 2, 
-	2, 50, 50, 2, 50, 2, 1152, 2, 
-	16, 51, 1153, 1154, 2, 2, 4, 61, 
-	2, 2, 50, 50, 2, 50, 2, 1152, 
-	2, 16, 51, 1153, 1154, 2, 2, 4, 
-	61, 2, 2, 50, 50, 2, 50, 2, 
-	1152, 2, 16, 51, 1153, 1154, 2, 2, 
-	4, 1156, 61, 2, 2, 50, 50, 2, 
-	50, 2, 1152, 2, 16, 51, 1153, 1154, 
-	2, 2, 4, 61, 2, 2, 50, 50, 
-	2, 50, 2, 1152, 2, 16, 51, 1153, 
-	1154, 2, 2, 4, 61, 2, 2, 50, 
-	50, 2, 50, 2, 1152, 2, 16, 51, 
-	1153, 1154, 2, 2, 4, 61, 2, 2, 
-	50, 50, 2, 50, 2, 1152, 2, 1147, 
-	51, 2, 2, 2, 4, 1151, 18, 19, 
-	21, 22, 23, 24, 25, 26, 27, 28, 
-	29, 30, 31, 32, 33, 34, 35, 36, 
-	37, 38, 39, 40, 41, 42, 43, 45, 
-	46, 47, 48, 49, 2, 2, 17, 17, 
-	2, 17, 2, 20, 20, 44, 1146, 2, 
-	1151, 3, 2, 2, 2, 4, 1151, 18, 
-	19, 21, 22, 23, 24, 25, 26, 27, 
-	28, 29, 30, 31, 32, 33, 34, 35, 
-	36, 37, 38, 39, 40, 41, 42, 43, 
-	45, 46, 47, 48, 49, 2, 2, 72, 
-	72, 2, 72, 2, 20, 20, 44, 1146, 
-	1157, 1157, 18, 19, 21, 22, 23, 24, 
+	932, 933, 934, 935, 936, 937, 938, 939, 
+	940, 941, 942, 943, 944, 909, 909, 909, 
+	722, 877, 877, 877, 722, 877, 877, 877, 
+	722, 877, 877, 877, 722, 877, 877, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	722, 877, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 722, 877, 877, 722, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	877, 722, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 722, 877, 877, 
+	877, 722, 877, 722, 877, 722, 877, 722, 
+	877, 877, 877, 722, 877, 877, 722, 877, 
+	877, 722, 877, 722, 877, 722, 877, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 722, 877, 877, 877, 877, 
+	877, 877, 877, 722, 945, 946, 947, 948, 
+	949, 950, 951, 952, 953, 909, 954, 955, 
+	956, 957, 958, 959, 722, 877, 877, 722, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 722, 877, 722, 877, 722, 877, 722, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 722, 877, 722, 960, 920, 961, 
+	962, 963, 909, 964, 965, 909, 722, 877, 
+	877, 877, 877, 722, 877, 877, 877, 722, 
+	877, 877, 722, 877, 877, 722, 877, 877, 
+	722, 877, 722, 939, 909, 909, 722, 909, 
+	722, 966, 909, 722, 877, 722, 967, 968, 
+	969, 970, 971, 972, 973, 974, 975, 966, 
+	976, 977, 978, 979, 909, 909, 909, 909, 
+	722, 877, 722, 877, 877, 877, 722, 877, 
+	877, 877, 722, 877, 722, 877, 877, 722, 
+	877, 877, 722, 877, 722, 877, 877, 877, 
+	877, 722, 877, 722, 877, 877, 722, 877, 
+	722, 877, 722, 877, 722, 980, 909, 722, 
+	877, 722, 981, 982, 983, 984, 985, 986, 
+	987, 988, 989, 990, 991, 992, 909, 993, 
+	994, 995, 996, 997, 909, 722, 877, 877, 
+	722, 877, 877, 722, 877, 722, 877, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	722, 877, 722, 877, 722, 877, 877, 722, 
+	877, 877, 722, 877, 877, 722, 877, 722, 
+	877, 722, 877, 877, 722, 877, 722, 877, 
+	877, 877, 877, 722, 998, 999, 1000, 1002, 
+	1003, 1001, 722, 1004, 1005, 909, 1006, 919, 
+	1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 
+	1015, 1016, 909, 722, 877, 877, 877, 877, 
+	877, 722, 877, 877, 722, 877, 722, 877, 
+	877, 722, 877, 722, 877, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 877, 722, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 722, 877, 877, 877, 877, 
+	877, 722, 1017, 909, 1018, 909, 722, 877, 
+	722, 877, 722, 1019, 1020, 1021, 1022, 1023, 
+	1024, 1025, 1026, 1027, 1028, 1029, 909, 722, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	877, 877, 877, 722, 877, 877, 722, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 722, 1030, 909, 722, 877, 722, 1013, 
+	909, 722, 1031, 722, 1032, 1033, 224, 224, 
+	1032, 224, 1032, 1032, 1032, 722, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 1034, 10, 1034, 1034, 10, 1034, 10, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 1034, 10, 1034, 10, 1034, 10, 1034, 
+	10, 1034, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 1034, 10, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 1034, 10, 1034, 1034, 
+	1034, 10, 1034, 10, 1034, 10, 1034, 10, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 10, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 1034, 10, 1034, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	10, 1034, 10, 1034, 10, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 1034, 1034, 10, 1034, 10, 1034, 1034, 
+	10, 1034, 10, 1034, 10, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 10, 1034, 10, 1034, 10, 
+	1034, 10, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 10, 1034, 1034, 
+	1034, 1034, 10, 1035, 1036, 1037, 1038, 1039, 
+	1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 
+	1048, 1049, 1037, 10, 1034, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 10, 1034, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 10, 1050, 1037, 1051, 1037, 10, 1034, 
+	10, 1034, 10, 1052, 1053, 1054, 1055, 1056, 
+	1057, 1058, 1059, 1060, 1061, 1062, 1037, 10, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 1034, 10, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 10, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	1034, 10, 1037, 10, 1063, 1037, 10, 1034, 
+	10, 1046, 1037, 10, 1064, 1065, 1068, 1067, 
+	1069, 1069, 1067, 1067, 1067, 1072, 1073, 1074, 
+	1075, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 
+	1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 
+	1092, 1093, 1094, 1095, 1096, 1097, 1099, 1100, 
+	1101, 1102, 1103, 1067, 1070, 1071, 1067, 1071, 
+	1067, 1076, 1076, 1098, 1066, 2, 3, 2, 
+	4, 2, 2, 2, 2, 2, 1, 5, 
+	1105, 5, 5, 5, 5, 5, 5, 5, 
+	1104, 12, 13, 11, 11, 11, 11, 1106, 
+	2, 3, 2, 4, 2, 2, 2, 1107, 
+	2, 2, 1106, 2, 1109, 2, 4, 2, 
+	2, 2, 1107, 2, 2, 1108, 2, 3, 
+	2, 4, 2, 2, 2, 15, 2, 2, 
+	1110, 2, 1112, 1113, 2, 1114, 2, 2, 
+	4, 1116, 18, 19, 21, 22, 23, 24, 
 	25, 26, 27, 28, 29, 30, 31, 32, 
 	33, 34, 35, 36, 37, 38, 39, 40, 
-	41, 42, 43, 45, 46, 47, 48, 49, 
-	73, 73, 73, 20, 20, 44, 1146, 2, 
-	16, 51, 2, 2, 2, 4, 2, 2, 
-	228, 50, 2, 50, 2, 1145, 1158, 230, 
-	230, 230, 230, 1152, 2, 1147, 51, 2, 
-	1149, 2, 2, 4, 1151, 18, 19, 21, 
+	41, 43, 44, 45, 46, 47, 2, 2, 
+	1070, 1115, 2, 1115, 2, 20, 20, 42, 
+	1111, 2, 16, 49, 1118, 1119, 2, 2, 
+	4, 2, 2, 48, 48, 2, 48, 2, 
+	1117, 1120, 61, 1117, 2, 16, 49, 1118, 
+	1119, 2, 2, 4, 59, 2, 2, 48, 
+	48, 2, 48, 2, 1117, 2, 16, 49, 
+	1118, 1119, 2, 2, 4, 59, 2, 2, 
+	48, 48, 2, 48, 2, 1117, 2, 16, 
+	49, 1118, 1119, 2, 2, 4, 59, 2, 
+	2, 48, 48, 2, 48, 2, 1117, 2, 
+	16, 49, 1118, 1119, 2, 2, 4, 59, 
+	2, 2, 48, 48, 2, 48, 2, 1117, 
+	2, 16, 49, 1118, 1119, 2, 2, 4, 
+	1121, 59, 2, 2, 48, 48, 2, 48, 
+	2, 1117, 2, 16, 49, 1118, 1119, 2, 
+	2, 4, 59, 2, 2, 48, 48, 2, 
+	48, 2, 1117, 2, 16, 49, 1118, 1119, 
+	2, 2, 4, 59, 2, 2, 48, 48, 
+	2, 48, 2, 1117, 2, 16, 49, 1118, 
+	1119, 2, 2, 4, 59, 2, 2, 48, 
+	48, 2, 48, 2, 1117, 2, 1112, 49, 
+	2, 2, 2, 4, 1116, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
-	38, 39, 40, 41, 42, 43, 45, 46, 
-	47, 48, 49, 2, 2, 1150, 1150, 2, 
-	1150, 2, 20, 20, 44, 1146, 2, 1160, 
-	1161, 1147, 1162, 2, 1149, 2, 2, 1164, 
-	1151, 1166, 1167, 969, 936, 1168, 1169, 1170, 
-	1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 
-	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
-	1186, 1187, 1188, 1189, 1190, 1191, 1192, 2, 
-	2, 1163, 1165, 2, 1165, 2, 948, 948, 
-	1032, 1159, 2, 3, 2, 2, 4, 1195, 
-	1196, 296, 263, 1197, 1198, 1199, 1200, 1201, 
-	1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 
-	1210, 343, 1211, 1212, 1213, 1214, 1215, 1216, 
-	1217, 1218, 1219, 1220, 1221, 2, 2, 2, 
-	1194, 2, 1194, 2, 275, 275, 359, 1193, 
-	2, 3, 2, 2, 4, 1195, 1196, 296, 
-	263, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 
-	1204, 1205, 1206, 1207, 1208, 1209, 1210, 343, 
-	1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 
-	1219, 1220, 1221, 2, 2, 2, 1194, 1194, 
-	2, 1194, 2, 275, 275, 359, 1193, 1195, 
-	1196, 296, 263, 1197, 1198, 1199, 1200, 1201, 
-	1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 
-	1210, 343, 1211, 1212, 1213, 1214, 1215, 1216, 
-	1217, 1218, 1219, 1220, 1221, 231, 231, 231, 
-	275, 275, 359, 1193, 2, 3, 2, 2, 
-	4, 1224, 1224, 1225, 1226, 455, 422, 1227, 
-	1228, 1229, 1230, 1231, 1232, 1233, 1234, 1235, 
-	1236, 1237, 1238, 1239, 1240, 502, 1241, 1242, 
-	1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 
-	1251, 2, 2, 2, 1223, 2, 1223, 2, 
-	434, 434, 518, 1222, 2, 3, 2, 2, 
-	4, 1225, 1226, 455, 422, 1227, 1228, 1229, 
-	1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 
-	1238, 1239, 1240, 502, 1241, 1242, 1243, 1244, 
-	1245, 1246, 1247, 1248, 1249, 1250, 1251, 2, 
-	2, 2, 1223, 2, 1223, 2, 434, 434, 
-	518, 1, 1225, 1226, 455, 422, 1227, 1228, 
-	1229, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 
-	1237, 1238, 1239, 1240, 502, 1241, 1242, 1243, 
-	1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 
-	390, 390, 434, 434, 518, 1, 2, 16, 
-	1162, 2, 2, 2, 4, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 64, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 65, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 66, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 67, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 68, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 69, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 70, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 71, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 1253, 1252, 2, 
-	1160, 1254, 1147, 51, 2, 1149, 2, 2, 
-	1164, 1151, 1255, 1256, 810, 777, 1257, 1258, 
-	1259, 1260, 1261, 1262, 1263, 1264, 1265, 1266, 
-	1267, 1268, 1269, 1270, 857, 1271, 1272, 1273, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 2, 2, 17, 17, 2, 17, 2, 
+	20, 20, 42, 1111, 2, 1116, 3, 2, 
+	2, 2, 4, 1116, 18, 19, 21, 22, 
+	23, 24, 25, 26, 27, 28, 29, 30, 
+	31, 32, 33, 34, 35, 36, 37, 38, 
+	39, 40, 41, 43, 44, 45, 46, 47, 
+	2, 2, 70, 70, 2, 70, 2, 20, 
+	20, 42, 1111, 1122, 1122, 18, 19, 21, 
+	22, 23, 24, 25, 26, 27, 28, 29, 
+	30, 31, 32, 33, 34, 35, 36, 37, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 71, 71, 71, 20, 20, 42, 1111, 
+	2, 16, 49, 2, 2, 2, 4, 2, 
+	2, 222, 48, 2, 48, 2, 1110, 1123, 
+	224, 224, 224, 224, 1117, 2, 1112, 49, 
+	2, 1114, 2, 2, 4, 1116, 18, 19, 
+	21, 22, 23, 24, 25, 26, 27, 28, 
+	29, 30, 31, 32, 33, 34, 35, 36, 
+	37, 38, 39, 40, 41, 43, 44, 45, 
+	46, 47, 2, 2, 1115, 1115, 2, 1115, 
+	2, 20, 20, 42, 1111, 2, 1125, 1126, 
+	1112, 1127, 2, 1114, 2, 2, 1129, 1116, 
+	1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 
+	1139, 1140, 1141, 1142, 1143, 1144, 989, 1145, 
+	986, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 
+	1153, 1154, 1155, 1156, 2, 2, 1128, 1130, 
+	2, 1130, 2, 909, 909, 1001, 1124, 2, 
+	3, 2, 2, 4, 1159, 1160, 1161, 1162, 
+	1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 
+	1171, 1172, 337, 1173, 334, 1174, 1175, 1176, 
+	1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 
+	2, 2, 2, 1158, 2, 1158, 2, 257, 
+	257, 349, 1157, 2, 3, 2, 2, 4, 
+	1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 
+	1167, 1168, 1169, 1170, 1171, 1172, 337, 1173, 
+	334, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
+	1181, 1182, 1183, 1184, 2, 2, 2, 1158, 
+	1158, 2, 1158, 2, 257, 257, 349, 1157, 
+	1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 
+	1167, 1168, 1169, 1170, 1171, 1172, 337, 1173, 
+	334, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
+	1181, 1182, 1183, 1184, 225, 225, 225, 257, 
+	257, 349, 1157, 2, 3, 2, 2, 4, 
+	1187, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 
+	1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 
+	491, 1202, 488, 1203, 1204, 1205, 1206, 1207, 
+	1208, 1209, 1210, 1211, 1212, 1213, 2, 2, 
+	2, 1186, 2, 1186, 2, 411, 411, 503, 
+	1185, 2, 3, 2, 2, 4, 1188, 1189, 
+	1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 
+	1198, 1199, 1200, 1201, 491, 1202, 488, 1203, 
+	1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 
+	1212, 1213, 2, 2, 2, 1186, 2, 1186, 
+	2, 411, 411, 503, 1, 1188, 1189, 1190, 
+	1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 
+	1199, 1200, 1201, 491, 1202, 488, 1203, 1204, 
+	1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 
+	1213, 379, 379, 411, 411, 503, 1, 2, 
+	16, 1127, 2, 2, 2, 4, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 62, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 63, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 64, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 65, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 66, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 67, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 68, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 69, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 1215, 1214, 
+	2, 1125, 1216, 1112, 49, 2, 1114, 2, 
+	2, 1129, 1116, 1217, 1218, 1219, 1220, 1221, 
+	1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 
+	1230, 835, 1231, 832, 1232, 1233, 1234, 1235, 
+	1236, 1237, 1238, 1239, 1240, 1241, 1242, 2, 
+	2, 1128, 1128, 2, 1128, 2, 755, 755, 
+	847, 1124, 2, 3, 2, 4, 1243, 1243, 
+	2, 2, 2, 2, 2, 1185, 5, 5, 
+	5, 5, 6, 1159, 1160, 1161, 1162, 1163, 
+	1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 
+	1172, 337, 1173, 334, 1174, 1175, 1176, 1177, 
+	1178, 1179, 1180, 1181, 1182, 1183, 1184, 5, 
+	5, 5, 1244, 5, 1244, 5, 257, 257, 
+	349, 1157, 5, 1105, 5, 5, 1159, 1160, 
+	1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 
+	1169, 1170, 1171, 1172, 337, 1173, 334, 1174, 
+	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 
+	1183, 1184, 5, 5, 5, 1244, 1244, 5, 
+	1244, 5, 257, 257, 349, 1104, 1245, 1246, 
+	1122, 1245, 1122, 1217, 1218, 1219, 1220, 1221, 
+	1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 
+	1230, 835, 1231, 832, 1232, 1233, 1234, 1235, 
+	1236, 1237, 1238, 1239, 1240, 1241, 1242, 723, 
+	723, 723, 755, 755, 847, 1124, 1159, 1160, 
+	1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 
+	1169, 1170, 1171, 1172, 337, 1173, 334, 1174, 
+	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 
+	1183, 1184, 225, 225, 257, 257, 349, 1157, 
+	1247, 1247, 1185, 2, 1125, 1126, 1112, 49, 
+	2, 1114, 2, 2, 1129, 1116, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 1245, 1248, 1122, 
+	1245, 1122, 1131, 1132, 1133, 1134, 1135, 1136, 
+	1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 
+	989, 1145, 986, 1146, 1147, 1148, 1149, 1150, 
+	1151, 1152, 1153, 1154, 1155, 1156, 723, 877, 
+	877, 909, 909, 1001, 1124, 1249, 1249, 1188, 
+	1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 
+	1197, 1198, 1199, 1200, 1201, 491, 1202, 488, 
+	1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 
+	1211, 1212, 1213, 379, 379, 411, 411, 503, 
+	1185, 2, 1125, 1126, 1112, 1127, 2, 1114, 
+	2, 2, 1129, 1116, 1250, 1251, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 2, 1125, 1126, 
+	1112, 49, 2, 1114, 2, 2, 1129, 1116, 
+	1252, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 
+	1138, 1139, 1140, 1141, 1142, 1143, 1144, 989, 
+	1145, 986, 1146, 1147, 1148, 1149, 1150, 1151, 
+	1152, 1153, 1154, 1155, 1156, 2, 2, 1128, 
+	1130, 2, 1130, 2, 909, 909, 1001, 1124, 
+	2, 1125, 1126, 1112, 49, 2, 1114, 2, 
+	2, 1129, 1116, 1253, 1131, 1132, 1133, 1134, 
+	1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 
+	1143, 1144, 989, 1145, 986, 1146, 1147, 1148, 
+	1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 
+	2, 2, 1128, 1130, 2, 1130, 2, 909, 
+	909, 1001, 1124, 2, 1125, 1126, 1112, 49, 
+	2, 1254, 2, 2, 1129, 1116, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 1032, 1255, 224, 
+	224, 1032, 224, 1032, 1032, 1032, 1117, 2, 
+	1125, 1126, 1112, 49, 2, 1114, 2, 2, 
+	1129, 1116, 1253, 1131, 1132, 1133, 1134, 1135, 
+	1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 
+	1144, 989, 1145, 986, 1146, 1147, 1148, 1149, 
+	1150, 1151, 1152, 1153, 1154, 1155, 1156, 2, 
+	2, 1128, 1130, 2, 1130, 2, 909, 909, 
+	1001, 1124, 2, 1125, 1126, 1112, 1127, 2, 
+	1114, 2, 2, 1129, 1116, 1256, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 2, 1125, 1126, 
+	1112, 49, 2, 1114, 2, 2, 1129, 1116, 
+	1257, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 
+	1138, 1139, 1140, 1141, 1142, 1143, 1144, 989, 
+	1145, 986, 1146, 1147, 1148, 1149, 1150, 1151, 
+	1152, 1153, 1154, 1155, 1156, 2, 2, 1128, 
+	1130, 2, 1130, 2, 909, 909, 1001, 1124, 
+	2, 1125, 1126, 1112, 49, 2, 1114, 2, 
+	2, 1129, 1116, 1258, 1131, 1132, 1133, 1134, 
+	1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 
+	1143, 1144, 989, 1145, 986, 1146, 1147, 1148, 
+	1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 
+	2, 2, 1128, 1130, 2, 1130, 2, 909, 
+	909, 1001, 1124, 2, 1125, 1126, 1112, 49, 
+	2, 1254, 2, 2, 1129, 1116, 1253, 1131, 
+	1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 
+	1140, 1141, 1142, 1143, 1144, 989, 1145, 986, 
+	1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 
+	1154, 1155, 1156, 2, 2, 1128, 1130, 2, 
+	1130, 2, 909, 909, 1001, 1124, 1034, 1034, 
+	1034, 1106, 1245, 1248, 1122, 1215, 1245, 1122, 
+	1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 
+	1139, 1140, 1141, 1142, 1143, 1144, 989, 1145, 
+	986, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 
+	1153, 1154, 1155, 1156, 723, 877, 877, 909, 
+	909, 1001, 1124, 1034, 1034, 1034, 1106, 1034, 
+	1106, 1034, 1034, 1034, 1034, 1034, 1106, 1034, 
+	1034, 1034, 1034, 1106, 1034, 1034, 1034, 1034, 
+	1034, 1106, 1034, 1034, 1106, 1034, 1034, 1106, 
+	1034, 1034, 1106, 1034, 1034, 1034, 1106, 1034, 
+	1034, 1034, 1106, 1034, 1034, 1034, 1034, 1034, 
+	1106, 1034, 1034, 1106, 1034, 1034, 1034, 1106, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1106, 1034, 
+	1106, 1034, 1106, 1034, 1106, 1034, 1034, 1034, 
+	1106, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 
+	1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 
 	1274, 1275, 1276, 1277, 1278, 1279, 1280, 1281, 
-	2, 2, 1163, 1163, 2, 1163, 2, 789, 
-	789, 873, 1159, 2, 3, 2, 4, 1282, 
-	1282, 2, 2, 2, 2, 2, 1222, 5, 
-	5, 5, 5, 6, 1195, 1196, 296, 263, 
-	1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 
-	1205, 1206, 1207, 1208, 1209, 1210, 343, 1211, 
-	1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 
-	1220, 1221, 5, 5, 5, 1283, 5, 1283, 
-	5, 275, 275, 359, 1193, 5, 1140, 5, 
-	5, 1195, 1196, 296, 263, 1197, 1198, 1199, 
-	1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 
-	1208, 1209, 1210, 343, 1211, 1212, 1213, 1214, 
-	1215, 1216, 1217, 1218, 1219, 1220, 1221, 5, 
-	5, 5, 1283, 1283, 5, 1283, 5, 275, 
-	275, 359, 1139, 1284, 1285, 1157, 1284, 1157, 
-	1255, 1256, 810, 777, 1257, 1258, 1259, 1260, 
-	1261, 1262, 1263, 1264, 1265, 1266, 1267, 1268, 
-	1269, 1270, 857, 1271, 1272, 1273, 1274, 1275, 
-	1276, 1277, 1278, 1279, 1280, 1281, 745, 745, 
-	745, 789, 789, 873, 1159, 1195, 1196, 296, 
-	263, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 
-	1204, 1205, 1206, 1207, 1208, 1209, 1210, 343, 
-	1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 
-	1219, 1220, 1221, 231, 231, 275, 275, 359, 
-	1193, 1286, 1286, 1222, 2, 1160, 1161, 1147, 
-	51, 2, 1149, 2, 2, 1164, 1151, 1166, 
-	1167, 969, 936, 1168, 1169, 1170, 1171, 1172, 
-	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
-	1181, 1016, 1182, 1183, 1184, 1185, 1186, 1187, 
-	1188, 1189, 1190, 1191, 1192, 2, 2, 1163, 
-	1165, 2, 1165, 2, 948, 948, 1032, 1159, 
-	1284, 1287, 1157, 1284, 1157, 1166, 1167, 969, 
-	936, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 
-	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1016, 
-	1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 
-	1190, 1191, 1192, 745, 904, 904, 948, 948, 
-	1032, 1159, 1288, 1288, 1225, 1226, 455, 422, 
-	1227, 1228, 1229, 1230, 1231, 1232, 1233, 1234, 
-	1235, 1236, 1237, 1238, 1239, 1240, 502, 1241, 
-	1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 
-	1250, 1251, 390, 390, 434, 434, 518, 1222, 
-	2, 1160, 1161, 1147, 1162, 2, 1149, 2, 
-	2, 1164, 1151, 1289, 1290, 1166, 1167, 969, 
-	936, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 
-	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1016, 
-	1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 
-	1190, 1191, 1192, 2, 2, 1163, 1165, 2, 
-	1165, 2, 948, 948, 1032, 1159, 2, 1160, 
-	1161, 1147, 51, 2, 1149, 2, 2, 1164, 
-	1151, 1291, 1166, 1167, 969, 936, 1168, 1169, 
-	1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 
-	1178, 1179, 1180, 1181, 1016, 1182, 1183, 1184, 
-	1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 
-	2, 2, 1163, 1165, 2, 1165, 2, 948, 
-	948, 1032, 1159, 2, 1160, 1161, 1147, 51, 
-	2, 1149, 2, 2, 1164, 1151, 1292, 1166, 
-	1167, 969, 936, 1168, 1169, 1170, 1171, 1172, 
-	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
-	1181, 1016, 1182, 1183, 1184, 1185, 1186, 1187, 
-	1188, 1189, 1190, 1191, 1192, 2, 2, 1163, 
-	1165, 2, 1165, 2, 948, 948, 1032, 1159, 
-	2, 1160, 1161, 1147, 51, 2, 1293, 2, 
-	2, 1164, 1151, 1166, 1167, 969, 936, 1168, 
-	1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 
-	1177, 1178, 1179, 1180, 1181, 1016, 1182, 1183, 
-	1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 
-	1192, 2, 2, 1163, 1165, 2, 1165, 2, 
-	948, 948, 1032, 1159, 1064, 1294, 230, 230, 
-	1064, 230, 1064, 1064, 1064, 1152, 2, 1160, 
-	1161, 1147, 51, 2, 1149, 2, 2, 1164, 
-	1151, 1292, 1166, 1167, 969, 936, 1168, 1169, 
-	1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 
-	1178, 1179, 1180, 1181, 1016, 1182, 1183, 1184, 
-	1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 
-	2, 2, 1163, 1165, 2, 1165, 2, 948, 
-	948, 1032, 1159, 2, 1160, 1161, 1147, 1162, 
-	2, 1149, 2, 2, 1164, 1151, 1295, 1166, 
-	1167, 969, 936, 1168, 1169, 1170, 1171, 1172, 
-	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
-	1181, 1016, 1182, 1183, 1184, 1185, 1186, 1187, 
-	1188, 1189, 1190, 1191, 1192, 2, 2, 1163, 
-	1165, 2, 1165, 2, 948, 948, 1032, 1159, 
-	2, 1160, 1161, 1147, 51, 2, 1149, 2, 
-	2, 1164, 1151, 1296, 1166, 1167, 969, 936, 
-	1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 
-	1176, 1177, 1178, 1179, 1180, 1181, 1016, 1182, 
-	1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 
-	1191, 1192, 2, 2, 1163, 1165, 2, 1165, 
-	2, 948, 948, 1032, 1159, 2, 1160, 1161, 
-	1147, 51, 2, 1149, 2, 2, 1164, 1151, 
-	1297, 1166, 1167, 969, 936, 1168, 1169, 1170, 
-	1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 
-	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
-	1186, 1187, 1188, 1189, 1190, 1191, 1192, 2, 
-	2, 1163, 1165, 2, 1165, 2, 948, 948, 
-	1032, 1159, 2, 1160, 1161, 1147, 51, 2, 
-	1293, 2, 2, 1164, 1151, 1292, 1166, 1167, 
-	969, 936, 1168, 1169, 1170, 1171, 1172, 1173, 
-	1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 
-	1016, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 
-	1189, 1190, 1191, 1192, 2, 2, 1163, 1165, 
-	2, 1165, 2, 948, 948, 1032, 1159, 1066, 
-	1066, 1066, 1141, 1284, 1287, 1157, 1253, 1284, 
-	1157, 1166, 1167, 969, 936, 1168, 1169, 1170, 
-	1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 
-	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
-	1186, 1187, 1188, 1189, 1190, 1191, 1192, 745, 
-	904, 904, 948, 948, 1032, 1159, 1066, 1066, 
-	1066, 1141, 1066, 1141, 1066, 1066, 1141, 1141, 
-	1141, 1141, 1141, 1141, 1066, 1066, 1066, 1066, 
-	1066, 1141, 1066, 1066, 1066, 1066, 1066, 1141, 
-	1141, 1066, 1141, 1066, 1141, 1066, 1141, 1141, 
-	1066, 1141, 1141, 1141, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1141, 1066, 1066, 1141, 1066, 1066, 
-	1066, 1141, 1141, 1141, 1141, 1141, 1141, 1141, 
-	1066, 1066, 1141, 1066, 1141, 1141, 1066, 1066, 
-	1066, 1066, 1141, 1298, 1299, 1300, 1301, 1302, 
-	1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310, 
-	1311, 1312, 1313, 1314, 1315, 1316, 1317, 1318, 
-	1319, 1320, 1321, 1322, 1323, 1324, 1141, 1325, 
-	1326, 1327, 1328, 1329, 1330, 1331, 1332, 1333, 
-	1334, 1335, 1336, 1337, 1338, 1339, 1340, 1341, 
-	1342, 1343, 1344, 1345, 1346, 1347, 1348, 1349, 
-	1350, 1351, 1352, 1353, 1354, 1355, 1356, 1357, 
-	1358, 1359, 1069, 1078, 1360, 1069, 1361, 1362, 
-	1363, 1364, 1069, 1078, 1078, 1141, 1365, 1366, 
-	1367, 1368, 1369, 1370, 1371, 1372, 1373, 1069, 
-	1374, 1375, 1376, 1377, 1378, 1379, 1141, 1380, 
-	1339, 1381, 1382, 1383, 1078, 1384, 1385, 1069, 
-	1078, 1141, 1386, 1141, 1069, 1078, 1078, 1387, 
-	1141, 1078, 1069, 1388, 1069, 1389, 1390, 1391, 
-	1392, 1078, 1393, 1394, 1395, 1396, 1069, 1387, 
-	1397, 1398, 1399, 1400, 1069, 1078, 1078, 1078, 
-	1141, 1401, 1141, 1078, 1069, 1402, 1403, 1404, 
-	1405, 1406, 1407, 1408, 1409, 1410, 1411, 1412, 
-	1413, 1078, 1414, 1415, 1416, 1417, 1418, 1078, 
-	1141, 1419, 1420, 1421, 1422, 1424, 1425, 1423, 
-	1141, 0
+	1282, 1283, 1284, 1285, 1106, 1286, 1287, 1288, 
+	1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 
+	1297, 1298, 1039, 1299, 1300, 1301, 1302, 1303, 
+	1304, 1305, 1306, 1307, 1308, 1309, 1310, 1311, 
+	1312, 1313, 1314, 1315, 1316, 1317, 1318, 1319, 
+	1320, 1321, 1322, 1323, 1037, 1037, 1037, 1106, 
+	1324, 1325, 1326, 1327, 1328, 1329, 1330, 1331, 
+	1332, 1037, 1333, 1334, 1335, 1336, 1337, 1338, 
+	1106, 1339, 1299, 1340, 1341, 1342, 1037, 1343, 
+	1344, 1037, 1106, 1318, 1037, 1037, 1106, 1037, 
+	1106, 1345, 1037, 1106, 1346, 1347, 1348, 1349, 
+	1350, 1351, 1352, 1353, 1354, 1345, 1355, 1356, 
+	1357, 1358, 1037, 1037, 1037, 1037, 1106, 1359, 
+	1037, 1106, 1360, 1361, 1362, 1363, 1364, 1365, 
+	1366, 1367, 1368, 1369, 1370, 1371, 1037, 1372, 
+	1373, 1374, 1375, 1376, 1037, 1106, 1377, 1378, 
+	1379, 1381, 1382, 1380, 1106, 0
 };
 
 static const short _StdTok_trans_targs[] = {
-	1304, 1305, 2, 3, 4, 1307, 6, 1305, 
-	7, 1305, 1305, 8, 9, 10, 1305, 1311, 
-	13, 1323, 28, 30, 31, 32, 33, 34, 
+	1263, 1264, 2, 3, 4, 1266, 6, 1264, 
+	7, 1264, 1264, 8, 9, 10, 1264, 1270, 
+	13, 1282, 28, 30, 31, 32, 33, 34, 
 	35, 36, 37, 38, 39, 40, 41, 42, 
-	43, 44, 45, 46, 47, 48, 49, 50, 
-	78, 118, 134, 141, 143, 144, 146, 160, 
-	162, 179, 14, 15, 16, 18, 19, 20, 
-	21, 22, 24, 25, 26, 1313, 1305, 1314, 
-	1315, 1316, 1317, 1318, 1319, 1320, 1321, 1322, 
-	1324, 1325, 51, 52, 53, 54, 55, 56, 
+	43, 44, 45, 46, 47, 48, 76, 116, 
+	132, 139, 140, 141, 143, 157, 159, 175, 
+	14, 15, 16, 18, 19, 20, 21, 22, 
+	24, 25, 26, 1272, 1264, 1273, 1274, 1275, 
+	1276, 1277, 1278, 1279, 1280, 1281, 1283, 1284, 
+	49, 50, 51, 52, 53, 54, 55, 56, 
 	57, 58, 59, 60, 61, 62, 63, 64, 
 	65, 66, 67, 68, 69, 70, 71, 72, 
-	73, 74, 75, 76, 77, 79, 80, 81, 
+	73, 74, 75, 77, 78, 79, 80, 81, 
 	82, 83, 84, 85, 86, 87, 88, 89, 
 	90, 91, 92, 93, 94, 95, 96, 97, 
 	98, 99, 100, 101, 102, 103, 104, 105, 
 	106, 107, 108, 109, 110, 111, 112, 113, 
-	114, 115, 116, 117, 119, 120, 121, 122, 
+	114, 115, 117, 118, 119, 120, 121, 122, 
 	123, 124, 125, 126, 127, 128, 129, 130, 
-	131, 132, 133, 135, 136, 137, 138, 139, 
-	140, 142, 145, 147, 148, 149, 150, 151, 
-	152, 153, 154, 155, 156, 157, 158, 159, 
-	161, 163, 164, 165, 166, 167, 168, 169, 
-	170, 171, 172, 173, 174, 175, 176, 177, 
-	178, 180, 195, 198, 210, 211, 213, 181, 
-	182, 183, 184, 185, 186, 187, 188, 189, 
-	190, 191, 192, 193, 194, 196, 197, 199, 
-	200, 201, 202, 203, 204, 205, 206, 207, 
-	208, 209, 212, 1305, 1326, 216, 1327, 1332, 
-	239, 240, 241, 242, 243, 244, 245, 246, 
-	247, 248, 249, 250, 251, 252, 253, 254, 
-	255, 256, 257, 258, 259, 260, 261, 262, 
-	263, 264, 265, 267, 268, 269, 270, 221, 
-	271, 272, 273, 274, 275, 276, 277, 278, 
-	279, 280, 281, 219, 282, 283, 284, 285, 
-	286, 287, 288, 289, 290, 291, 292, 293, 
-	294, 295, 296, 297, 298, 299, 300, 301, 
-	220, 302, 303, 304, 305, 307, 308, 309, 
-	310, 311, 312, 313, 314, 315, 316, 317, 
-	318, 319, 320, 321, 323, 324, 325, 326, 
-	327, 328, 330, 333, 335, 336, 337, 338, 
-	339, 340, 341, 342, 343, 344, 345, 346, 
-	347, 349, 351, 352, 353, 354, 355, 236, 
-	356, 357, 358, 359, 360, 361, 362, 363, 
-	364, 365, 366, 368, 383, 386, 398, 331, 
-	399, 401, 369, 370, 371, 372, 373, 374, 
-	375, 376, 377, 378, 379, 380, 381, 382, 
-	384, 385, 387, 388, 389, 390, 391, 392, 
-	393, 394, 395, 396, 397, 400, 1335, 424, 
-	425, 426, 427, 428, 429, 430, 431, 432, 
-	433, 434, 435, 436, 437, 438, 439, 440, 
-	441, 442, 443, 444, 445, 446, 447, 448, 
-	449, 450, 452, 453, 454, 455, 406, 456, 
-	457, 458, 459, 460, 461, 462, 463, 464, 
-	465, 466, 404, 467, 468, 469, 470, 471, 
-	472, 473, 474, 475, 476, 477, 478, 479, 
-	480, 481, 482, 483, 484, 485, 486, 405, 
-	487, 488, 489, 490, 492, 493, 494, 495, 
-	496, 497, 498, 499, 500, 501, 502, 503, 
-	504, 505, 506, 508, 509, 510, 511, 512, 
-	513, 515, 518, 520, 521, 522, 523, 524, 
-	525, 526, 527, 528, 529, 530, 531, 532, 
-	534, 536, 537, 538, 539, 540, 421, 541, 
-	542, 543, 544, 545, 546, 547, 548, 549, 
-	550, 551, 553, 568, 571, 583, 516, 584, 
-	586, 554, 555, 556, 557, 558, 559, 560, 
-	561, 562, 563, 564, 565, 566, 567, 569, 
-	570, 572, 573, 574, 575, 576, 577, 578, 
-	579, 580, 581, 582, 585, 1336, 1337, 1338, 
-	1339, 1340, 1341, 1342, 1343, 1344, 588, 590, 
-	591, 592, 593, 594, 595, 596, 597, 598, 
-	599, 600, 601, 602, 603, 604, 605, 606, 
-	607, 608, 609, 610, 638, 678, 694, 701, 
-	703, 704, 706, 720, 722, 739, 1345, 611, 
-	612, 613, 614, 615, 616, 617, 618, 619, 
-	620, 621, 622, 623, 624, 625, 626, 627, 
-	628, 629, 630, 631, 632, 633, 634, 635, 
-	636, 637, 639, 640, 641, 642, 643, 644, 
-	645, 646, 647, 648, 649, 650, 651, 652, 
-	653, 654, 655, 656, 657, 658, 659, 660, 
-	661, 662, 663, 664, 665, 666, 667, 668, 
-	669, 670, 671, 672, 673, 674, 675, 676, 
-	677, 679, 680, 681, 682, 683, 684, 685, 
-	686, 687, 688, 689, 690, 691, 692, 693, 
-	695, 696, 697, 698, 699, 700, 702, 705, 
+	131, 133, 134, 135, 136, 137, 138, 142, 
+	144, 145, 146, 147, 148, 149, 150, 151, 
+	152, 153, 154, 155, 156, 158, 160, 161, 
+	162, 163, 164, 165, 166, 167, 168, 169, 
+	170, 171, 172, 173, 174, 176, 190, 193, 
+	205, 207, 177, 178, 179, 180, 181, 182, 
+	183, 184, 185, 186, 187, 188, 189, 191, 
+	192, 194, 195, 196, 197, 198, 199, 200, 
+	201, 202, 203, 204, 206, 1264, 1285, 210, 
+	1286, 1291, 231, 232, 233, 234, 235, 236, 
+	237, 238, 239, 240, 241, 242, 243, 244, 
+	245, 246, 247, 248, 249, 250, 251, 252, 
+	253, 254, 255, 256, 257, 259, 260, 261, 
+	262, 213, 263, 264, 265, 266, 267, 268, 
+	269, 270, 271, 272, 273, 274, 275, 276, 
+	277, 278, 279, 280, 281, 282, 283, 284, 
+	285, 286, 287, 288, 289, 290, 291, 292, 
+	293, 294, 295, 296, 297, 299, 300, 301, 
+	302, 303, 304, 305, 306, 307, 308, 309, 
+	310, 311, 312, 313, 315, 316, 317, 318, 
+	319, 320, 324, 326, 327, 328, 329, 330, 
+	331, 332, 333, 334, 335, 336, 337, 338, 
+	340, 342, 343, 344, 345, 346, 228, 347, 
+	348, 226, 349, 350, 351, 352, 353, 354, 
+	355, 356, 358, 372, 375, 322, 387, 389, 
+	359, 360, 361, 362, 363, 364, 365, 366, 
+	367, 368, 369, 370, 371, 373, 374, 376, 
+	377, 378, 379, 380, 381, 382, 383, 384, 
+	385, 386, 388, 1294, 410, 411, 412, 413, 
+	414, 415, 416, 417, 418, 419, 420, 421, 
+	422, 423, 424, 425, 426, 427, 428, 429, 
+	430, 431, 432, 433, 434, 435, 436, 438, 
+	439, 440, 441, 392, 442, 443, 444, 445, 
+	446, 447, 448, 449, 450, 451, 452, 453, 
+	454, 455, 456, 457, 458, 459, 460, 461, 
+	462, 463, 464, 465, 466, 467, 468, 469, 
+	470, 471, 472, 473, 474, 475, 476, 478, 
+	479, 480, 481, 482, 483, 484, 485, 486, 
+	487, 488, 489, 490, 491, 492, 494, 495, 
+	496, 497, 498, 499, 503, 505, 506, 507, 
+	508, 509, 510, 511, 512, 513, 514, 515, 
+	516, 517, 519, 521, 522, 523, 524, 525, 
+	407, 526, 527, 405, 528, 529, 530, 531, 
+	532, 533, 534, 535, 537, 551, 554, 501, 
+	566, 568, 538, 539, 540, 541, 542, 543, 
+	544, 545, 546, 547, 548, 549, 550, 552, 
+	553, 555, 556, 557, 558, 559, 560, 561, 
+	562, 563, 564, 565, 567, 1295, 1296, 1297, 
+	1298, 1299, 1300, 1301, 1302, 1303, 570, 572, 
+	573, 574, 575, 576, 577, 578, 579, 580, 
+	581, 582, 583, 584, 585, 586, 587, 588, 
+	589, 590, 618, 658, 674, 681, 682, 683, 
+	685, 699, 701, 717, 1304, 591, 592, 593, 
+	594, 595, 596, 597, 598, 599, 600, 601, 
+	602, 603, 604, 605, 606, 607, 608, 609, 
+	610, 611, 612, 613, 614, 615, 616, 617, 
+	619, 620, 621, 622, 623, 624, 625, 626, 
+	627, 628, 629, 630, 631, 632, 633, 634, 
+	635, 636, 637, 638, 639, 640, 641, 642, 
+	643, 644, 645, 646, 647, 648, 649, 650, 
+	651, 652, 653, 654, 655, 656, 657, 659, 
+	660, 661, 662, 663, 664, 665, 666, 667, 
+	668, 669, 670, 671, 672, 673, 675, 676, 
+	677, 678, 679, 680, 684, 686, 687, 688, 
+	689, 690, 691, 692, 693, 694, 695, 696, 
+	697, 698, 700, 702, 703, 704, 705, 706, 
 	707, 708, 709, 710, 711, 712, 713, 714, 
-	715, 716, 717, 718, 719, 721, 723, 724, 
-	725, 726, 727, 728, 729, 730, 731, 732, 
-	733, 734, 735, 736, 737, 738, 740, 755, 
-	758, 770, 771, 773, 741, 742, 743, 744, 
-	745, 746, 747, 748, 749, 750, 751, 752, 
-	753, 754, 756, 757, 759, 760, 761, 762, 
-	763, 764, 765, 766, 767, 768, 769, 772, 
-	1305, 1350, 796, 797, 798, 799, 800, 801, 
-	802, 803, 804, 805, 806, 807, 808, 809, 
-	810, 811, 812, 813, 814, 815, 816, 817, 
-	818, 819, 820, 821, 822, 824, 825, 826, 
-	827, 778, 828, 829, 830, 831, 832, 833, 
-	834, 835, 836, 837, 838, 776, 839, 840, 
-	841, 842, 843, 844, 845, 846, 847, 848, 
-	849, 850, 851, 852, 853, 854, 855, 856, 
-	857, 858, 777, 859, 860, 861, 862, 864, 
-	865, 866, 867, 868, 869, 870, 871, 872, 
-	873, 874, 875, 876, 877, 878, 880, 881, 
-	882, 883, 884, 885, 887, 890, 892, 893, 
-	894, 895, 896, 897, 898, 899, 900, 901, 
-	902, 903, 904, 906, 908, 909, 910, 911, 
-	912, 793, 913, 914, 915, 916, 917, 918, 
-	919, 920, 921, 922, 923, 925, 940, 943, 
-	955, 888, 956, 958, 926, 927, 928, 929, 
-	930, 931, 932, 933, 934, 935, 936, 937, 
-	938, 939, 941, 942, 944, 945, 946, 947, 
-	948, 949, 950, 951, 952, 953, 954, 957, 
-	1354, 981, 982, 983, 984, 985, 986, 987, 
-	988, 989, 990, 991, 992, 993, 994, 995, 
-	996, 997, 998, 999, 1000, 1001, 1002, 1003, 
-	1004, 1005, 1006, 1007, 1009, 1010, 1011, 1012, 
-	963, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 
-	1020, 1021, 1022, 1023, 961, 1024, 1025, 1026, 
-	1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 
-	1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 
-	1043, 962, 1044, 1045, 1046, 1047, 1049, 1050, 
-	1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 
-	1059, 1060, 1061, 1062, 1063, 1065, 1066, 1067, 
-	1068, 1069, 1070, 1072, 1075, 1077, 1078, 1079, 
-	1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 
-	1088, 1089, 1091, 1093, 1094, 1095, 1096, 1097, 
-	978, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 
-	1105, 1106, 1107, 1108, 1110, 1125, 1128, 1140, 
-	1073, 1141, 1143, 1111, 1112, 1113, 1114, 1115, 
-	1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 
-	1124, 1126, 1127, 1129, 1130, 1131, 1132, 1133, 
-	1134, 1135, 1136, 1137, 1138, 1139, 1142, 1145, 
-	1327, 1360, 1367, 1270, 1271, 1177, 1272, 1273, 
-	1274, 1275, 1276, 1277, 1278, 1279, 1189, 1280, 
-	1281, 1282, 1283, 1285, 1286, 1288, 1289, 1290, 
-	1291, 1292, 1293, 1294, 1295, 1296, 1297, 1298, 
-	1302, 0, 1305, 1305, 1306, 1308, 1309, 1312, 
-	1329, 1356, 1362, 1366, 1368, 1369, 1370, 1371, 
-	1372, 1373, 1374, 1375, 1376, 1377, 1378, 1379, 
-	1380, 1381, 1382, 1383, 1384, 1385, 1386, 1387, 
-	1388, 1389, 1390, 1391, 1392, 1393, 1394, 1395, 
-	1396, 1397, 1398, 1305, 5, 1305, 1310, 1305, 
-	11, 1305, 1305, 12, 214, 215, 1328, 27, 
-	1305, 1306, 17, 1305, 23, 29, 1327, 1305, 
-	1330, 1333, 587, 1346, 1348, 1353, 959, 960, 
-	964, 965, 966, 967, 968, 969, 970, 971, 
-	972, 973, 974, 975, 976, 977, 979, 980, 
-	1008, 1048, 1064, 1071, 1074, 1076, 1090, 1092, 
-	1109, 1305, 1331, 217, 218, 222, 223, 224, 
-	225, 226, 227, 228, 229, 230, 231, 232, 
-	233, 234, 235, 237, 238, 266, 306, 322, 
-	329, 332, 334, 348, 350, 367, 1305, 1334, 
-	1334, 402, 403, 407, 408, 409, 410, 411, 
-	412, 413, 414, 415, 416, 417, 418, 419, 
-	420, 422, 423, 451, 491, 507, 514, 517, 
-	519, 533, 535, 552, 1305, 589, 1347, 774, 
-	775, 779, 780, 781, 782, 783, 784, 785, 
-	786, 787, 788, 789, 790, 791, 792, 794, 
-	795, 823, 863, 879, 886, 889, 891, 905, 
-	907, 924, 1306, 1349, 1351, 1352, 1305, 1355, 
-	1335, 1357, 1361, 1358, 1359, 1144, 1360, 1363, 
-	1364, 1365, 1146, 1147, 1148, 1149, 1150, 1151, 
-	1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 
-	1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 
-	1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 
-	1176, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 
-	1185, 1186, 1187, 1188, 1190, 1191, 1192, 1193, 
-	1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 
-	1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 
-	1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 
-	1218, 1219, 1220, 1221, 1222, 1223, 1224, 1225, 
-	1226, 1227, 1228, 1229, 1230, 1231, 1232, 1233, 
+	715, 716, 718, 732, 735, 747, 749, 719, 
+	720, 721, 722, 723, 724, 725, 726, 727, 
+	728, 729, 730, 731, 733, 734, 736, 737, 
+	738, 739, 740, 741, 742, 743, 744, 745, 
+	746, 748, 1264, 1309, 770, 771, 772, 773, 
+	774, 775, 776, 777, 778, 779, 780, 781, 
+	782, 783, 784, 785, 786, 787, 788, 789, 
+	790, 791, 792, 793, 794, 795, 796, 798, 
+	799, 800, 801, 752, 802, 803, 804, 805, 
+	806, 807, 808, 809, 810, 811, 812, 813, 
+	814, 815, 816, 817, 818, 819, 820, 821, 
+	822, 823, 824, 825, 826, 827, 828, 829, 
+	830, 831, 832, 833, 834, 835, 836, 838, 
+	839, 840, 841, 842, 843, 844, 845, 846, 
+	847, 848, 849, 850, 851, 852, 854, 855, 
+	856, 857, 858, 859, 863, 865, 866, 867, 
+	868, 869, 870, 871, 872, 873, 874, 875, 
+	876, 877, 879, 881, 882, 883, 884, 885, 
+	767, 886, 887, 765, 888, 889, 890, 891, 
+	892, 893, 894, 895, 897, 911, 914, 861, 
+	926, 928, 898, 899, 900, 901, 902, 903, 
+	904, 905, 906, 907, 908, 909, 910, 912, 
+	913, 915, 916, 917, 918, 919, 920, 921, 
+	922, 923, 924, 925, 927, 1313, 949, 950, 
+	951, 952, 953, 954, 955, 956, 957, 958, 
+	959, 960, 961, 962, 963, 964, 965, 966, 
+	967, 968, 969, 970, 971, 972, 973, 974, 
+	975, 977, 978, 979, 980, 931, 981, 982, 
+	983, 984, 985, 986, 987, 988, 989, 990, 
+	991, 992, 993, 994, 995, 996, 997, 998, 
+	999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 
+	1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 
+	1015, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 
+	1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 
+	1033, 1034, 1035, 1036, 1037, 1038, 1042, 1044, 
+	1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 
+	1053, 1054, 1055, 1056, 1058, 1060, 1061, 1062, 
+	1063, 1064, 946, 1065, 1066, 944, 1067, 1068, 
+	1069, 1070, 1071, 1072, 1073, 1074, 1076, 1090, 
+	1093, 1040, 1105, 1107, 1077, 1078, 1079, 1080, 
+	1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 
+	1089, 1091, 1092, 1094, 1095, 1096, 1097, 1098, 
+	1099, 1100, 1101, 1102, 1103, 1104, 1106, 1109, 
+	1286, 1319, 1326, 1231, 1232, 1141, 1233, 1151, 
 	1234, 1235, 1236, 1237, 1238, 1239, 1240, 1241, 
-	1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 
-	1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 
-	1258, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 
-	1266, 1267, 1268, 1269, 1284, 1287, 1299, 1300, 
-	1301, 1303
+	1242, 1243, 1245, 1246, 1248, 1249, 1250, 1251, 
+	1252, 1253, 1254, 1255, 1256, 1257, 1258, 1261, 
+	0, 1264, 1264, 1265, 1267, 1268, 1271, 1288, 
+	1315, 1321, 1325, 1327, 1328, 1329, 1330, 1331, 
+	1332, 1333, 1334, 1335, 1336, 1337, 1338, 1339, 
+	1340, 1341, 1342, 1343, 1344, 1345, 1346, 1347, 
+	1348, 1349, 1350, 1351, 1352, 1353, 1354, 1355, 
+	1264, 5, 1264, 1269, 1264, 11, 1264, 1264, 
+	12, 208, 209, 1287, 27, 1264, 1265, 17, 
+	1264, 23, 29, 1286, 1264, 1289, 1292, 569, 
+	1305, 1307, 1312, 929, 930, 932, 933, 934, 
+	935, 936, 937, 938, 939, 940, 941, 942, 
+	943, 945, 947, 948, 976, 1016, 1032, 1039, 
+	1041, 1043, 1057, 1059, 1075, 1264, 1290, 211, 
+	212, 214, 215, 216, 217, 218, 219, 220, 
+	221, 222, 223, 224, 225, 227, 229, 230, 
+	258, 298, 314, 321, 323, 325, 339, 341, 
+	357, 1264, 1293, 1293, 390, 391, 393, 394, 
+	395, 396, 397, 398, 399, 400, 401, 402, 
+	403, 404, 406, 408, 409, 437, 477, 493, 
+	500, 502, 504, 518, 520, 536, 1264, 571, 
+	1306, 750, 751, 753, 754, 755, 756, 757, 
+	758, 759, 760, 761, 762, 763, 764, 766, 
+	768, 769, 797, 837, 853, 860, 862, 864, 
+	878, 880, 896, 1265, 1308, 1310, 1311, 1264, 
+	1314, 1294, 1316, 1320, 1317, 1318, 1108, 1319, 
+	1322, 1323, 1324, 1110, 1111, 1112, 1113, 1114, 
+	1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 
+	1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 
+	1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 
+	1139, 1140, 1142, 1143, 1144, 1145, 1146, 1147, 
+	1148, 1149, 1150, 1152, 1153, 1154, 1155, 1156, 
+	1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 
+	1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 
+	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
+	1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 
+	1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 
+	1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 
+	1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 
+	1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 
+	1221, 1222, 1223, 1224, 1225, 1226, 1227, 1228, 
+	1229, 1230, 1244, 1247, 1259, 1260, 1262
 };
 
 static const char _StdTok_trans_actions[] = {
@@ -3326,10 +3323,8 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 79, 47, 0, 
-	79, 79, 79, 79, 79, 79, 79, 79, 
-	73, 73, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 79, 47, 0, 79, 79, 
+	79, 79, 79, 79, 79, 79, 73, 73, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3347,8 +3342,9 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 45, 88, 0, 0, 76, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 45, 88, 0, 
+	0, 76, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3367,8 +3363,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 70, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 70, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3392,8 +3387,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 82, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 82, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3412,7 +3406,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	43, 61, 0, 0, 0, 0, 0, 0, 
+	0, 0, 43, 61, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3431,8 +3425,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	61, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 61, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3456,33 +3449,31 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 17, 19, 91, 91, 91, 73, 
-	61, 61, 61, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 17, 19, 91, 91, 91, 73, 61, 
+	61, 61, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
-	11, 11, 11, 21, 0, 39, 85, 35, 
-	0, 37, 27, 0, 0, 0, 73, 0, 
-	31, 94, 0, 55, 0, 0, 3, 23, 
-	76, 64, 0, 61, 76, 61, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	21, 0, 39, 85, 35, 0, 37, 27, 
+	0, 0, 0, 73, 0, 31, 94, 0, 
+	55, 0, 0, 3, 23, 76, 64, 0, 
+	61, 76, 61, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 29, 76, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 29, 76, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 25, 70, 
-	67, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 33, 0, 64, 0, 
+	0, 25, 70, 67, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 33, 0, 
+	64, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 67, 58, 76, 0, 15, 64, 
-	67, 61, 61, 61, 61, 0, 3, 61, 
-	61, 61, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 67, 58, 76, 0, 15, 
+	64, 67, 61, 61, 61, 61, 0, 3, 
+	61, 61, 61, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3497,7 +3488,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0
+	0, 0, 0, 0, 0, 0, 0
 };
 
 static const char _StdTok_to_state_actions[] = {
@@ -3658,24 +3649,19 @@ static const char _StdTok_to_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 7, 
+	7, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	7, 7, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0
+	0, 0, 0, 0
 };
 
 static const char _StdTok_from_state_actions[] = {
@@ -3837,29 +3823,24 @@ static const char _StdTok_from_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	9, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 9, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0
+	0, 0, 0, 0
 };
 
 static const short _StdTok_eof_trans[] = {
 	0, 0, 2, 2, 2, 8, 2, 2, 
 	11, 11, 11, 15, 2, 2, 2, 2, 
-	2, 63, 2, 2, 2, 2, 2, 63, 
+	2, 61, 2, 2, 2, 2, 2, 61, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
@@ -3883,7 +3864,7 @@ static const short _StdTok_eof_trans[] = {
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 228, 2, 
+	222, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
@@ -3950,58 +3931,52 @@ static const short _StdTok_eof_trans[] = {
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 11, 11, 11, 11, 11, 11, 
-	11, 11, 11, 11, 11, 11, 11, 11, 
+	2, 2, 2, 2, 2, 2, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
@@ -4020,24 +3995,25 @@ static const short _StdTok_eof_trans[] = {
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
-	0, 0, 2, 1140, 1142, 1142, 1144, 1146, 
-	1147, 1153, 1153, 1153, 1153, 1153, 1153, 1153, 
-	1153, 1153, 1153, 1147, 1147, 1147, 1146, 1153, 
-	1147, 1160, 1194, 1194, 1194, 1223, 2, 2, 
-	1253, 1253, 1253, 1253, 1253, 1253, 1253, 1253, 
-	1253, 1253, 1160, 1223, 1194, 1140, 1160, 1194, 
-	1223, 1160, 1160, 1223, 1160, 1160, 1160, 1160, 
-	1153, 1160, 1160, 1160, 1160, 1160, 1142, 1160, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142
+	11, 11, 11, 11, 11, 11, 11, 0, 
+	0, 2, 1105, 1107, 1107, 1109, 1111, 1112, 
+	1118, 1118, 1118, 1118, 1118, 1118, 1118, 1118, 
+	1118, 1118, 1112, 1112, 1112, 1111, 1118, 1112, 
+	1125, 1158, 1158, 1158, 1186, 2, 2, 1215, 
+	1215, 1215, 1215, 1215, 1215, 1215, 1215, 1215, 
+	1215, 1125, 1186, 1158, 1105, 1125, 1158, 1186, 
+	1125, 1125, 1186, 1125, 1125, 1125, 1125, 1118, 
+	1125, 1125, 1125, 1125, 1125, 1107, 1125, 1107, 
+	1107, 1107, 1107, 1107, 1107, 1107, 1107, 1107, 
+	1107, 1107, 1107, 1107, 1107, 1107, 1107, 1107, 
+	1107, 1107, 1107, 1107, 1107, 1107, 1107, 1107, 
+	1107, 1107, 1107, 1107
 };
 
 static const int StdTok_start = 1;
 static const int StdTok_error = 0;
 
-static const int StdTok_en_frt_tokenizer = 1305;
+static const int StdTok_en_frt_tokenizer = 1264;
 static const int StdTok_en_main = 1;
 
 
@@ -4054,7 +4030,7 @@ void frt_std_scan_utf8(const char *in,
     unsigned char *ts = 0, *te = 0;
 
     
-#line 4058 "src/scanner_utf8.c"
+#line 4025 "src/scanner_utf8.c"
 	{
 	cs = StdTok_start;
 	top = 0;
@@ -4075,7 +4051,7 @@ void frt_std_scan_utf8(const char *in,
     *token_size = 0;
 
     
-#line 4079 "src/scanner_utf8.c"
+#line 4042 "src/scanner_utf8.c"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -4096,7 +4072,7 @@ _resume:
 #line 1 "NONE"
 	{ts = p;}
 	break;
-#line 4100 "src/scanner_utf8.c"
+#line 4061 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4172,7 +4148,7 @@ _eof_trans:
 	break;
 	case 2:
 #line 28 "src/scanner_utf8.rl"
-	{ p--; {stack[top++] = cs; cs = 1305; goto _again;} }
+	{ p--; {stack[top++] = cs; cs = 1264;goto _again;} }
 	break;
 	case 5:
 #line 1 "NONE"
@@ -4352,7 +4328,7 @@ _eof_trans:
 	}
 	}
 	break;
-#line 4356 "src/scanner_utf8.c"
+#line 4278 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4365,7 +4341,7 @@ _again:
 #line 1 "NONE"
 	{ts = 0;}
 	break;
-#line 4369 "src/scanner_utf8.c"
+#line 4289 "src/scanner_utf8.c"
 		}
 	}
 
diff --git a/c/src/uchar-utf8.rl b/c/src/uchar-utf8.rl
index f1321d8..45019ae 100644
--- a/c/src/uchar-utf8.rl
+++ b/c/src/uchar-utf8.rl
@@ -16,19 +16,19 @@
       | 0xC2 0xBA               #L&       MASCULINE ORDINAL INDICATOR
       | 0xC3 0x80..0x96         #L&  [23] LATIN CAPITAL LETTER A WITH GRAVE....
       | 0xC3 0x98..0xB6         #L&  [31] LATIN CAPITAL LETTER O WITH STROKE...
-      | 0xC3 0xB8..0xFF         #L& [195] LATIN SMALL LETTER O WITH STROKE.....
-      | 0xC4..0xC5 0x00..0xFF   #
-      | 0xC6 0x00..0xBA         #
+      | 0xC3 0xB8..0xBF         #L& [195] LATIN SMALL LETTER O WITH STROKE.....
+      | 0xC4..0xC5 0x80..0xBF   #
+      | 0xC6 0x80..0xBA         #
       | 0xC6 0xBB               #Lo       LATIN LETTER TWO WITH STROKE
       | 0xC6 0xBC..0xBF         #L&   [4] LATIN CAPITAL LETTER TONE FIVE..LA...
       | 0xC7 0x80..0x83         #Lo   [4] LATIN LETTER DENTAL CLICK..LATIN L...
-      | 0xC7 0x84..0xFF         #L& [208] LATIN CAPITAL LETTER DZ WITH CARON...
-      | 0xC8..0xC9 0x00..0xFF   #
-      | 0xCA 0x00..0x93         #
+      | 0xC7 0x84..0xBF         #L& [208] LATIN CAPITAL LETTER DZ WITH CARON...
+      | 0xC8..0xC9 0x80..0xBF   #
+      | 0xCA 0x80..0x93         #
       | 0xCA 0x94               #Lo       LATIN LETTER GLOTTAL STOP
       | 0xCA 0x95..0xAF         #L&  [27] LATIN LETTER PHARYNGEAL VOICED FRI...
-      | 0xCA 0xB0..0xFF         #Lm  [18] MODIFIER LETTER SMALL H..MODIFIER ...
-      | 0xCB 0x00..0x81         #
+      | 0xCA 0xB0..0xBF         #Lm  [18] MODIFIER LETTER SMALL H..MODIFIER ...
+      | 0xCB 0x80..0x81         #
       | 0xCB 0x86..0x91         #Lm  [12] MODIFIER LETTER CIRCUMFLEX ACCENT....
       | 0xCB 0xA0..0xA4         #Lm   [5] MODIFIER LETTER SMALL GAMMA..MODIF...
       | 0xCB 0xAC               #Lm       MODIFIER LETTER VOICING
@@ -43,19 +43,19 @@
       | 0xCE 0x88..0x8A         #L&   [3] GREEK CAPITAL LETTER EPSILON WITH ...
       | 0xCE 0x8C               #L&       GREEK CAPITAL LETTER OMICRON WITH ...
       | 0xCE 0x8E..0xA1         #L&  [20] GREEK CAPITAL LETTER UPSILON WITH ...
-      | 0xCE 0xA3..0xFF         #L&  [83] GREEK CAPITAL LETTER SIGMA..GREEK ...
-      | 0xCF 0x00..0xB5         #
-      | 0xCF 0xB7..0xFF         #L& [139] GREEK CAPITAL LETTER SHO..CYRILLIC...
-      | 0xD0..0xD1 0x00..0xFF   #
-      | 0xD2 0x00..0x81         #
-      | 0xD2 0x8A..0xFF         #L& [154] CYRILLIC CAPITAL LETTER SHORT I WI...
-      | 0xD3..0xD3 0x00..0xFF   #
-      | 0xD4 0x00..0xA3         #
-      | 0xD4 0xB1..0xFF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
-      | 0xD5 0x00..0x96         #
+      | 0xCE 0xA3..0xBF         #L&  [83] GREEK CAPITAL LETTER SIGMA..GREEK ...
+      | 0xCF 0x80..0xB5         #
+      | 0xCF 0xB7..0xBF         #L& [139] GREEK CAPITAL LETTER SHO..CYRILLIC...
+      | 0xD0..0xD1 0x80..0xBF   #
+      | 0xD2 0x80..0x81         #
+      | 0xD2 0x8A..0xBF         #L& [154] CYRILLIC CAPITAL LETTER SHORT I WI...
+      | 0xD3..0xD3 0x80..0xBF   #
+      | 0xD4 0x80..0xA3         #
+      | 0xD4 0xB1..0xBF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
+      | 0xD5 0x80..0x96         #
       | 0xD5 0x99               #Lm       ARMENIAN MODIFIER LETTER LEFT HALF...
-      | 0xD5 0xA1..0xFF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
-      | 0xD6 0x00..0x87         #
+      | 0xD5 0xA1..0xBF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
+      | 0xD6 0x80..0x87         #
       | 0xD6 0xB0..0xBD         #Mn  [14] HEBREW POINT SHEVA..HEBREW POINT M...
       | 0xD6 0xBF               #Mn       HEBREW POINT RAFE
       | 0xD7 0x81..0x82         #Mn   [2] HEBREW POINT SHIN DOT..HEBREW POIN...
@@ -71,9 +71,9 @@
       | 0xD9 0x99..0x9E         #Mn   [6] ARABIC ZWARAKAY..ARABIC FATHA WITH...
       | 0xD9 0xAE..0xAF         #Lo   [2] ARABIC LETTER DOTLESS BEH..ARABIC ...
       | 0xD9 0xB0               #Mn       ARABIC LETTER SUPERSCRIPT ALEF
-      | 0xD9 0xB1..0xFF         #Lo  [99] ARABIC LETTER ALEF WASLA..ARABIC L...
-      | 0xDA..0xDA 0x00..0xFF   #
-      | 0xDB 0x00..0x93         #
+      | 0xD9 0xB1..0xBF         #Lo  [99] ARABIC LETTER ALEF WASLA..ARABIC L...
+      | 0xDA..0xDA 0x80..0xBF   #
+      | 0xDB 0x80..0x93         #
       | 0xDB 0x95               #Lo       ARABIC LETTER AE
       | 0xDB 0x96..0x9C         #Mn   [7] ARABIC SMALL HIGH LIGATURE SAD WIT...
       | 0xDB 0xA1..0xA4         #Mn   [4] ARABIC SMALL HIGH DOTLESS HEAD OF ...
@@ -87,8 +87,8 @@
       | 0xDC 0x91               #Mn       SYRIAC LETTER SUPERSCRIPT ALAPH
       | 0xDC 0x92..0xAF         #Lo  [30] SYRIAC LETTER BETH..SYRIAC LETTER ...
       | 0xDC 0xB0..0xBF         #Mn  [16] SYRIAC PTHAHA ABOVE..SYRIAC RWAHA
-      | 0xDD 0x8D..0xFF         #Lo  [89] SYRIAC LETTER SOGDIAN ZHAIN..THAAN...
-      | 0xDE 0x00..0xA5         #
+      | 0xDD 0x8D..0xBF         #Lo  [89] SYRIAC LETTER SOGDIAN ZHAIN..THAAN...
+      | 0xDE 0x80..0xA5         #
       | 0xDE 0xA6..0xB0         #Mn  [11] THAANA ABAFILI..THAANA SUKUN
       | 0xDE 0xB1               #Lo       THAANA LETTER NAA
       | 0xDF 0x8A..0xAA         #Lo  [33] NKO LETTER A..NKO LETTER JONA RA
@@ -98,8 +98,8 @@
       | 0xE0 0xA4 0x83          #Mc       DEVANAGARI SIGN VISARGA
       | 0xE0 0xA4 0x84..0xB9    #Lo  [54] DEVANAGARI LETTER SHORT A..DEVANAG...
       | 0xE0 0xA4 0xBD          #Lo       DEVANAGARI SIGN AVAGRAHA
-      | 0xE0 0xA4 0xBE..0xFF    #Mc   [3] DEVANAGARI VOWEL SIGN AA..DEVANAGA...
-      | 0xE0 0xA5 0x00..0x80    #
+      | 0xE0 0xA4 0xBE..0xBF    #Mc   [3] DEVANAGARI VOWEL SIGN AA..DEVANAGA...
+      | 0xE0 0xA5 0x80..0x80    #
       | 0xE0 0xA5 0x81..0x88    #Mn   [8] DEVANAGARI VOWEL SIGN U..DEVANAGAR...
       | 0xE0 0xA5 0x89..0x8C    #Mc   [4] DEVANAGARI VOWEL SIGN CANDRA O..DE...
       | 0xE0 0xA5 0x90          #Lo       DEVANAGARI OM
@@ -117,8 +117,8 @@
       | 0xE0 0xA6 0xB2          #Lo       BENGALI LETTER LA
       | 0xE0 0xA6 0xB6..0xB9    #Lo   [4] BENGALI LETTER SHA..BENGALI LETTER HA
       | 0xE0 0xA6 0xBD          #Lo       BENGALI SIGN AVAGRAHA
-      | 0xE0 0xA6 0xBE..0xFF    #Mc   [3] BENGALI VOWEL SIGN AA..BENGALI VOW...
-      | 0xE0 0xA7 0x00..0x80    #
+      | 0xE0 0xA6 0xBE..0xBF    #Mc   [3] BENGALI VOWEL SIGN AA..BENGALI VOW...
+      | 0xE0 0xA7 0x80..0x80    #
       | 0xE0 0xA7 0x81..0x84    #Mn   [4] BENGALI VOWEL SIGN U..BENGALI VOWE...
       | 0xE0 0xA7 0x87..0x88    #Mc   [2] BENGALI VOWEL SIGN E..BENGALI VOWE...
       | 0xE0 0xA7 0x8B..0x8C    #Mc   [2] BENGALI VOWEL SIGN O..BENGALI VOWE...
@@ -137,8 +137,8 @@
       | 0xE0 0xA8 0xB2..0xB3    #Lo   [2] GURMUKHI LETTER LA..GURMUKHI LETTE...
       | 0xE0 0xA8 0xB5..0xB6    #Lo   [2] GURMUKHI LETTER VA..GURMUKHI LETTE...
       | 0xE0 0xA8 0xB8..0xB9    #Lo   [2] GURMUKHI LETTER SA..GURMUKHI LETTE...
-      | 0xE0 0xA8 0xBE..0xFF    #Mc   [3] GURMUKHI VOWEL SIGN AA..GURMUKHI V...
-      | 0xE0 0xA9 0x00..0x80    #
+      | 0xE0 0xA8 0xBE..0xBF    #Mc   [3] GURMUKHI VOWEL SIGN AA..GURMUKHI V...
+      | 0xE0 0xA9 0x80..0x80    #
       | 0xE0 0xA9 0x81..0x82    #Mn   [2] GURMUKHI VOWEL SIGN U..GURMUKHI VO...
       | 0xE0 0xA9 0x87..0x88    #Mn   [2] GURMUKHI VOWEL SIGN EE..GURMUKHI V...
       | 0xE0 0xA9 0x8B..0x8C    #Mn   [2] GURMUKHI VOWEL SIGN OO..GURMUKHI V...
@@ -157,8 +157,8 @@
       | 0xE0 0xAA 0xB2..0xB3    #Lo   [2] GUJARATI LETTER LA..GUJARATI LETTE...
       | 0xE0 0xAA 0xB5..0xB9    #Lo   [5] GUJARATI LETTER VA..GUJARATI LETTE...
       | 0xE0 0xAA 0xBD          #Lo       GUJARATI SIGN AVAGRAHA
-      | 0xE0 0xAA 0xBE..0xFF    #Mc   [3] GUJARATI VOWEL SIGN AA..GUJARATI V...
-      | 0xE0 0xAB 0x00..0x80    #
+      | 0xE0 0xAA 0xBE..0xBF    #Mc   [3] GUJARATI VOWEL SIGN AA..GUJARATI V...
+      | 0xE0 0xAB 0x80..0x80    #
       | 0xE0 0xAB 0x81..0x85    #Mn   [5] GUJARATI VOWEL SIGN U..GUJARATI VO...
       | 0xE0 0xAB 0x87..0x88    #Mn   [2] GUJARATI VOWEL SIGN E..GUJARATI VO...
       | 0xE0 0xAB 0x89          #Mc       GUJARATI VOWEL SIGN CANDRA O
@@ -212,8 +212,8 @@
       | 0xE0 0xB0 0xAA..0xB3    #Lo  [10] TELUGU LETTER PA..TELUGU LETTER LLA
       | 0xE0 0xB0 0xB5..0xB9    #Lo   [5] TELUGU LETTER VA..TELUGU LETTER HA
       | 0xE0 0xB0 0xBD          #Lo       TELUGU SIGN AVAGRAHA
-      | 0xE0 0xB0 0xBE..0xFF    #Mn   [3] TELUGU VOWEL SIGN AA..TELUGU VOWEL...
-      | 0xE0 0xB1 0x00..0x80    #
+      | 0xE0 0xB0 0xBE..0xBF    #Mn   [3] TELUGU VOWEL SIGN AA..TELUGU VOWEL...
+      | 0xE0 0xB1 0x80..0x80    #
       | 0xE0 0xB1 0x81..0x84    #Mc   [4] TELUGU VOWEL SIGN U..TELUGU VOWEL ...
       | 0xE0 0xB1 0x86..0x88    #Mn   [3] TELUGU VOWEL SIGN E..TELUGU VOWEL ...
       | 0xE0 0xB1 0x8A..0x8C    #Mn   [3] TELUGU VOWEL SIGN O..TELUGU VOWEL ...
@@ -245,8 +245,8 @@
       | 0xE0 0xB4 0x92..0xA8    #Lo  [23] MALAYALAM LETTER O..MALAYALAM LETT...
       | 0xE0 0xB4 0xAA..0xB9    #Lo  [16] MALAYALAM LETTER PA..MALAYALAM LET...
       | 0xE0 0xB4 0xBD          #Lo       MALAYALAM SIGN AVAGRAHA
-      | 0xE0 0xB4 0xBE..0xFF    #Mc   [3] MALAYALAM VOWEL SIGN AA..MALAYALAM...
-      | 0xE0 0xB5 0x00..0x80    #
+      | 0xE0 0xB4 0xBE..0xBF    #Mc   [3] MALAYALAM VOWEL SIGN AA..MALAYALAM...
+      | 0xE0 0xB5 0x80..0x80    #
       | 0xE0 0xB5 0x81..0x84    #Mn   [4] MALAYALAM VOWEL SIGN U..MALAYALAM ...
       | 0xE0 0xB5 0x86..0x88    #Mc   [3] MALAYALAM VOWEL SIGN E..MALAYALAM ...
       | 0xE0 0xB5 0x8A..0x8C    #Mc   [3] MALAYALAM VOWEL SIGN O..MALAYALAM ...
@@ -322,30 +322,30 @@
       | 0xE1 0x81 0xA7..0xA8    #Mc   [2] MYANMAR VOWEL SIGN WESTERN PWO KAR...
       | 0xE1 0x81 0xAE..0xB0    #Lo   [3] MYANMAR LETTER EASTERN PWO KAREN N...
       | 0xE1 0x81 0xB1..0xB4    #Mn   [4] MYANMAR VOWEL SIGN GEBA KAREN I..M...
-      | 0xE1 0x81 0xB5..0xFF    #Lo  [13] MYANMAR LETTER SHAN KA..MYANMAR LE...
-      | 0xE1 0x82 0x00..0x81    #
+      | 0xE1 0x81 0xB5..0xBF    #Lo  [13] MYANMAR LETTER SHAN KA..MYANMAR LE...
+      | 0xE1 0x82 0x80..0x81    #
       | 0xE1 0x82 0x82          #Mn       MYANMAR CONSONANT SIGN SHAN MEDIAL WA
       | 0xE1 0x82 0x83..0x84    #Mc   [2] MYANMAR VOWEL SIGN SHAN AA..MYANMA...
       | 0xE1 0x82 0x85..0x86    #Mn   [2] MYANMAR VOWEL SIGN SHAN E ABOVE..M...
       | 0xE1 0x82 0x8E          #Lo       MYANMAR LETTER RUMAI PALAUNG FA
-      | 0xE1 0x82 0xA0..0xFF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
-      | 0xE1 0x83 0x00..0x85    #
+      | 0xE1 0x82 0xA0..0xBF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
+      | 0xE1 0x83 0x80..0x85    #
       | 0xE1 0x83 0x90..0xBA    #Lo  [43] GEORGIAN LETTER AN..GEORGIAN LETTE...
       | 0xE1 0x83 0xBC          #Lm       MODIFIER LETTER GEORGIAN NAR
-      | 0xE1 0x84 0x80..0xFF    #Lo  [90] HANGUL CHOSEONG KIYEOK..HANGUL CHO...
-      | 0xE1 0x85 0x00..0x99    #
-      | 0xE1 0x85 0x9F..0xFF    #Lo  [68] HANGUL CHOSEONG FILLER..HANGUL JUN...
-      | 0xE1 0x86 0x00..0xA2    #
-      | 0xE1 0x86 0xA8..0xFF    #Lo  [82] HANGUL JONGSEONG KIYEOK..HANGUL JO...
-      | 0xE1 0x87 0x00..0xB9    #
-      | 0xE1 0x88 0x80..0xFF    #Lo  [73] ETHIOPIC SYLLABLE HA..ETHIOPIC SYL...
-      | 0xE1 0x89 0x00..0x88    #
+      | 0xE1 0x84 0x80..0xBF    #Lo  [90] HANGUL CHOSEONG KIYEOK..HANGUL CHO...
+      | 0xE1 0x85 0x80..0x99    #
+      | 0xE1 0x85 0x9F..0xBF    #Lo  [68] HANGUL CHOSEONG FILLER..HANGUL JUN...
+      | 0xE1 0x86 0x80..0xA2    #
+      | 0xE1 0x86 0xA8..0xBF    #Lo  [82] HANGUL JONGSEONG KIYEOK..HANGUL JO...
+      | 0xE1 0x87 0x80..0xB9    #
+      | 0xE1 0x88 0x80..0xBF    #Lo  [73] ETHIOPIC SYLLABLE HA..ETHIOPIC SYL...
+      | 0xE1 0x89 0x80..0x88    #
       | 0xE1 0x89 0x8A..0x8D    #Lo   [4] ETHIOPIC SYLLABLE QWI..ETHIOPIC SY...
       | 0xE1 0x89 0x90..0x96    #Lo   [7] ETHIOPIC SYLLABLE QHA..ETHIOPIC SY...
       | 0xE1 0x89 0x98          #Lo       ETHIOPIC SYLLABLE QHWA
       | 0xE1 0x89 0x9A..0x9D    #Lo   [4] ETHIOPIC SYLLABLE QHWI..ETHIOPIC S...
-      | 0xE1 0x89 0xA0..0xFF    #Lo  [41] ETHIOPIC SYLLABLE BA..ETHIOPIC SYL...
-      | 0xE1 0x8A 0x00..0x88    #
+      | 0xE1 0x89 0xA0..0xBF    #Lo  [41] ETHIOPIC SYLLABLE BA..ETHIOPIC SYL...
+      | 0xE1 0x8A 0x80..0x88    #
       | 0xE1 0x8A 0x8A..0x8D    #Lo   [4] ETHIOPIC SYLLABLE XWI..ETHIOPIC SY...
       | 0xE1 0x8A 0x90..0xB0    #Lo  [33] ETHIOPIC SYLLABLE NA..ETHIOPIC SYL...
       | 0xE1 0x8A 0xB2..0xB5    #Lo   [4] ETHIOPIC SYLLABLE KWI..ETHIOPIC SY...
@@ -353,22 +353,22 @@
       | 0xE1 0x8B 0x80          #Lo       ETHIOPIC SYLLABLE KXWA
       | 0xE1 0x8B 0x82..0x85    #Lo   [4] ETHIOPIC SYLLABLE KXWI..ETHIOPIC S...
       | 0xE1 0x8B 0x88..0x96    #Lo  [15] ETHIOPIC SYLLABLE WA..ETHIOPIC SYL...
-      | 0xE1 0x8B 0x98..0xFF    #Lo  [57] ETHIOPIC SYLLABLE ZA..ETHIOPIC SYL...
-      | 0xE1 0x8C 0x00..0x90    #
+      | 0xE1 0x8B 0x98..0xBF    #Lo  [57] ETHIOPIC SYLLABLE ZA..ETHIOPIC SYL...
+      | 0xE1 0x8C 0x80..0x90    #
       | 0xE1 0x8C 0x92..0x95    #Lo   [4] ETHIOPIC SYLLABLE GWI..ETHIOPIC SY...
-      | 0xE1 0x8C 0x98..0xFF    #Lo  [67] ETHIOPIC SYLLABLE GGA..ETHIOPIC SY...
-      | 0xE1 0x8D 0x00..0x9A    #
+      | 0xE1 0x8C 0x98..0xBF    #Lo  [67] ETHIOPIC SYLLABLE GGA..ETHIOPIC SY...
+      | 0xE1 0x8D 0x80..0x9A    #
       | 0xE1 0x8D 0x9F          #Mn       ETHIOPIC COMBINING GEMINATION MARK
       | 0xE1 0x8E 0x80..0x8F    #Lo  [16] ETHIOPIC SYLLABLE SEBATBEIT MWA..E...
-      | 0xE1 0x8E 0xA0..0xFF    #Lo  [85] CHEROKEE LETTER A..CHEROKEE LETTER YV
-      | 0xE1 0x8F 0x00..0xB4    #
-      | 0xE1 0x90 0x81..0xFF        #Lo [620] CANADIAN SYLLABICS E..CANADIAN...
-      | 0xE1 0x91..0x98 0x00..0xFF  #
-      | 0xE1 0x99 0x00..0xAC        #
+      | 0xE1 0x8E 0xA0..0xBF    #Lo  [85] CHEROKEE LETTER A..CHEROKEE LETTER YV
+      | 0xE1 0x8F 0x80..0xB4    #
+      | 0xE1 0x90 0x81..0xBF        #Lo [620] CANADIAN SYLLABICS E..CANADIAN...
+      | 0xE1 0x91..0x98 0x80..0xBF  #
+      | 0xE1 0x99 0x80..0xAC        #
       | 0xE1 0x99 0xAF..0xB6    #Lo   [8] CANADIAN SYLLABICS QAI..CANADIAN S...
       | 0xE1 0x9A 0x81..0x9A    #Lo  [26] OGHAM LETTER BEITH..OGHAM LETTER P...
-      | 0xE1 0x9A 0xA0..0xFF    #Lo  [75] RUNIC LETTER FEHU FEOH FE F..RUNIC...
-      | 0xE1 0x9B 0x00..0xAA    #
+      | 0xE1 0x9A 0xA0..0xBF    #Lo  [75] RUNIC LETTER FEHU FEOH FE F..RUNIC...
+      | 0xE1 0x9B 0x80..0xAA    #
       | 0xE1 0x9B 0xAE..0xB0    #Nl   [3] RUNIC ARLAUG SYMBOL..RUNIC BELGTHO...
       | 0xE1 0x9C 0x80..0x8C    #Lo  [13] TAGALOG LETTER A..TAGALOG LETTER YA
       | 0xE1 0x9C 0x8E..0x91    #Lo   [4] TAGALOG LETTER LA..TAGALOG LETTER HA
@@ -383,14 +383,14 @@
       | 0xE1 0x9E 0x80..0xB3    #Lo  [52] KHMER LETTER KA..KHMER INDEPENDENT...
       | 0xE1 0x9E 0xB6          #Mc       KHMER VOWEL SIGN AA
       | 0xE1 0x9E 0xB7..0xBD    #Mn   [7] KHMER VOWEL SIGN I..KHMER VOWEL SI...
-      | 0xE1 0x9E 0xBE..0xFF    #Mc   [8] KHMER VOWEL SIGN OE..KHMER VOWEL S...
-      | 0xE1 0x9F 0x00..0x85    #
+      | 0xE1 0x9E 0xBE..0xBF    #Mc   [8] KHMER VOWEL SIGN OE..KHMER VOWEL S...
+      | 0xE1 0x9F 0x80..0x85    #
       | 0xE1 0x9F 0x86          #Mn       KHMER SIGN NIKAHIT
       | 0xE1 0x9F 0x87..0x88    #Mc   [2] KHMER SIGN REAHMUK..KHMER SIGN YUU...
       | 0xE1 0x9F 0x97          #Lm       KHMER SIGN LEK TOO
       | 0xE1 0x9F 0x9C          #Lo       KHMER SIGN AVAKRAHASANYA
-      | 0xE1 0xA0 0xA0..0xFF    #Lo  [35] MONGOLIAN LETTER A..MONGOLIAN LETT...
-      | 0xE1 0xA1 0x00..0x82    #
+      | 0xE1 0xA0 0xA0..0xBF    #Lo  [35] MONGOLIAN LETTER A..MONGOLIAN LETT...
+      | 0xE1 0xA1 0x80..0x82    #
       | 0xE1 0xA1 0x83          #Lm       MONGOLIAN LETTER TODO LONG VOWEL SIGN
       | 0xE1 0xA1 0x84..0xB7    #Lo  [52] MONGOLIAN LETTER TODO E..MONGOLIAN...
       | 0xE1 0xA2 0x80..0xA8    #Lo  [41] MONGOLIAN LETTER ALI GALI ANUSVARA...
@@ -407,8 +407,8 @@
       | 0xE1 0xA5 0x90..0xAD    #Lo  [30] TAI LE LETTER KA..TAI LE LETTER AI
       | 0xE1 0xA5 0xB0..0xB4    #Lo   [5] TAI LE LETTER TONE-2..TAI LE LETTE...
       | 0xE1 0xA6 0x80..0xA9    #Lo  [42] NEW TAI LUE LETTER HIGH QA..NEW TA...
-      | 0xE1 0xA6 0xB0..0xFF    #Mc  [17] NEW TAI LUE VOWEL SIGN VOWEL SHORT...
-      | 0xE1 0xA7 0x00..0x80    #
+      | 0xE1 0xA6 0xB0..0xBF    #Mc  [17] NEW TAI LUE VOWEL SIGN VOWEL SHORT...
+      | 0xE1 0xA7 0x80..0x80    #
       | 0xE1 0xA7 0x81..0x87    #Lo   [7] NEW TAI LUE LETTER FINAL V..NEW TA...
       | 0xE1 0xA7 0x88..0x89    #Mc   [2] NEW TAI LUE TONE MARK-1..NEW TAI L...
       | 0xE1 0xA8 0x80..0x96    #Lo  [23] BUGINESE LETTER KA..BUGINESE LETTE...
@@ -421,8 +421,8 @@
       | 0xE1 0xAC 0xB6..0xBA    #Mn   [5] BALINESE VOWEL SIGN ULU..BALINESE ...
       | 0xE1 0xAC 0xBB          #Mc       BALINESE VOWEL SIGN RA REPA TEDUNG
       | 0xE1 0xAC 0xBC          #Mn       BALINESE VOWEL SIGN LA LENGA
-      | 0xE1 0xAC 0xBD..0xFF    #Mc   [5] BALINESE VOWEL SIGN LA LENGA TEDUN...
-      | 0xE1 0xAD 0x00..0x81    #
+      | 0xE1 0xAC 0xBD..0xBF    #Mc   [5] BALINESE VOWEL SIGN LA LENGA TEDUN...
+      | 0xE1 0xAD 0x80..0x81    #
       | 0xE1 0xAD 0x82          #Mn       BALINESE VOWEL SIGN PEPET
       | 0xE1 0xAD 0x83          #Mc       BALINESE VOWEL SIGN PEPET TEDUNG
       | 0xE1 0xAD 0x85..0x8B    #Lo   [7] BALINESE LETTER KAF SASAK..BALINES...
@@ -442,19 +442,19 @@
       | 0xE1 0xB1 0x9A..0xB7    #Lo  [30] OL CHIKI LETTER LA..OL CHIKI LETTE...
       | 0xE1 0xB1 0xB8..0xBD    #Lm   [6] OL CHIKI MU TTUDDAG..OL CHIKI AHAD
       | 0xE1 0xB4 0x80..0xAB    #L&  [44] LATIN LETTER SMALL CAPITAL A..CYRI...
-      | 0xE1 0xB4 0xAC..0xFF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
-      | 0xE1 0xB5 0x00..0xA1    #
+      | 0xE1 0xB4 0xAC..0xBF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
+      | 0xE1 0xB5 0x80..0xA1    #
       | 0xE1 0xB5 0xA2..0xB7    #L&  [22] LATIN SUBSCRIPT SMALL LETTER I..LA...
       | 0xE1 0xB5 0xB8          #Lm       MODIFIER LETTER CYRILLIC EN
-      | 0xE1 0xB5 0xB9..0xFF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
-      | 0xE1 0xB6 0x00..0x9A    #
+      | 0xE1 0xB5 0xB9..0xBF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
+      | 0xE1 0xB6 0x80..0x9A    #
       | 0xE1 0xB6 0x9B..0xBF    #Lm  [37] MODIFIER LETTER SMALL TURNED ALPHA...
-      | 0xE1 0xB8 0x80..0xFF        #L& [278] LATIN CAPITAL LETTER A WITH RI...
-      | 0xE1 0xB9..0xBB 0x00..0xFF  #
-      | 0xE1 0xBC 0x00..0x95        #
+      | 0xE1 0xB8 0x80..0xBF        #L& [278] LATIN CAPITAL LETTER A WITH RI...
+      | 0xE1 0xB9..0xBB 0x80..0xBF  #
+      | 0xE1 0xBC 0x80..0x95        #
       | 0xE1 0xBC 0x98..0x9D    #L&   [6] GREEK CAPITAL LETTER EPSILON WITH ...
-      | 0xE1 0xBC 0xA0..0xFF    #L&  [38] GREEK SMALL LETTER ETA WITH PSILI....
-      | 0xE1 0xBD 0x00..0x85    #
+      | 0xE1 0xBC 0xA0..0xBF    #L&  [38] GREEK SMALL LETTER ETA WITH PSILI....
+      | 0xE1 0xBD 0x80..0x85    #
       | 0xE1 0xBD 0x88..0x8D    #L&   [6] GREEK CAPITAL LETTER OMICRON WITH ...
       | 0xE1 0xBD 0x90..0x97    #L&   [8] GREEK SMALL LETTER UPSILON WITH PS...
       | 0xE1 0xBD 0x99          #L&       GREEK CAPITAL LETTER UPSILON WITH ...
@@ -489,23 +489,23 @@
       | 0xE2 0x84 0xBC..0xBF    #L&   [4] DOUBLE-STRUCK SMALL PI..DOUBLE-STR...
       | 0xE2 0x85 0x85..0x89    #L&   [5] DOUBLE-STRUCK ITALIC CAPITAL D..DO...
       | 0xE2 0x85 0x8E          #L&       TURNED SMALL F
-      | 0xE2 0x85 0xA0..0xFF    #Nl  [35] ROMAN NUMERAL ONE..ROMAN NUMERAL T...
-      | 0xE2 0x86 0x00..0x82    #
+      | 0xE2 0x85 0xA0..0xBF    #Nl  [35] ROMAN NUMERAL ONE..ROMAN NUMERAL T...
+      | 0xE2 0x86 0x80..0x82    #
       | 0xE2 0x86 0x83..0x84    #L&   [2] ROMAN NUMERAL REVERSED ONE HUNDRED...
       | 0xE2 0x86 0x85..0x88    #Nl   [4] ROMAN NUMERAL SIX LATE FORM..ROMAN...
-      | 0xE2 0x92 0xB6..0xFF    #So  [52] CIRCLED LATIN CAPITAL LETTER A..CI...
-      | 0xE2 0x93 0x00..0xA9    #
+      | 0xE2 0x92 0xB6..0xBF    #So  [52] CIRCLED LATIN CAPITAL LETTER A..CI...
+      | 0xE2 0x93 0x80..0xA9    #
       | 0xE2 0xB0 0x80..0xAE    #L&  [47] GLAGOLITIC CAPITAL LETTER AZU..GLA...
-      | 0xE2 0xB0 0xB0..0xFF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
-      | 0xE2 0xB1 0x00..0x9E    #
+      | 0xE2 0xB0 0xB0..0xBF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
+      | 0xE2 0xB1 0x80..0x9E    #
       | 0xE2 0xB1 0xA0..0xAF    #L&  [16] LATIN CAPITAL LETTER L WITH DOUBLE...
       | 0xE2 0xB1 0xB1..0xBC    #L&  [12] LATIN SMALL LETTER V WITH RIGHT HO...
       | 0xE2 0xB1 0xBD          #Lm       MODIFIER LETTER CAPITAL V
-      | 0xE2 0xB2 0x80..0xFF    #L& [101] COPTIC CAPITAL LETTER ALFA..COPTIC...
-      | 0xE2 0xB3 0x00..0xA4    #
+      | 0xE2 0xB2 0x80..0xBF    #L& [101] COPTIC CAPITAL LETTER ALFA..COPTIC...
+      | 0xE2 0xB3 0x80..0xA4    #
       | 0xE2 0xB4 0x80..0xA5    #L&  [38] GEORGIAN SMALL LETTER AN..GEORGIAN...
-      | 0xE2 0xB4 0xB0..0xFF    #Lo  [54] TIFINAGH LETTER YA..TIFINAGH LETTE...
-      | 0xE2 0xB5 0x00..0xA5    #
+      | 0xE2 0xB4 0xB0..0xBF    #Lo  [54] TIFINAGH LETTER YA..TIFINAGH LETTE...
+      | 0xE2 0xB5 0x80..0xA5    #
       | 0xE2 0xB5 0xAF          #Lm       TIFINAGH MODIFIER LETTER LABIALIZA...
       | 0xE2 0xB6 0x80..0x96    #Lo  [23] ETHIOPIC SYLLABLE LOA..ETHIOPIC SY...
       | 0xE2 0xB6 0xA0..0xA6    #Lo   [7] ETHIOPIC SYLLABLE SSA..ETHIOPIC SY...
@@ -526,39 +526,39 @@
       | 0xE3 0x80 0xB8..0xBA    #Nl   [3] HANGZHOU NUMERAL TEN..HANGZHOU NUM...
       | 0xE3 0x80 0xBB          #Lm       VERTICAL IDEOGRAPHIC ITERATION MARK
       | 0xE3 0x80 0xBC          #Lo       MASU MARK
-      | 0xE3 0x81 0x81..0xFF    #Lo  [86] HIRAGANA LETTER SMALL A..HIRAGANA ...
-      | 0xE3 0x82 0x00..0x96    #
+      | 0xE3 0x81 0x81..0xBF    #Lo  [86] HIRAGANA LETTER SMALL A..HIRAGANA ...
+      | 0xE3 0x82 0x80..0x96    #
       | 0xE3 0x82 0x9D..0x9E    #Lm   [2] HIRAGANA ITERATION MARK..HIRAGANA ...
       | 0xE3 0x82 0x9F          #Lo       HIRAGANA DIGRAPH YORI
-      | 0xE3 0x82 0xA1..0xFF    #Lo  [90] KATAKANA LETTER SMALL A..KATAKANA ...
-      | 0xE3 0x83 0x00..0xBA    #
+      | 0xE3 0x82 0xA1..0xBF    #Lo  [90] KATAKANA LETTER SMALL A..KATAKANA ...
+      | 0xE3 0x83 0x80..0xBA    #
       | 0xE3 0x83 0xBC..0xBE    #Lm   [3] KATAKANA-HIRAGANA PROLONGED SOUND ...
       | 0xE3 0x83 0xBF          #Lo       KATAKANA DIGRAPH KOTO
       | 0xE3 0x84 0x85..0xAD    #Lo  [41] BOPOMOFO LETTER B..BOPOMOFO LETTER IH
-      | 0xE3 0x84 0xB1..0xFF        #Lo  [94] HANGUL LETTER KIYEOK..HANGUL L...
-      | 0xE3 0x85..0x85 0x00..0xFF  #
-      | 0xE3 0x86 0x00..0x8E        #
+      | 0xE3 0x84 0xB1..0xBF        #Lo  [94] HANGUL LETTER KIYEOK..HANGUL L...
+      | 0xE3 0x85..0x85 0x80..0xBF  #
+      | 0xE3 0x86 0x80..0x8E        #
       | 0xE3 0x86 0xA0..0xB7    #Lo  [24] BOPOMOFO LETTER BU..BOPOMOFO FINAL...
       | 0xE3 0x87 0xB0..0xBF    #Lo  [16] KATAKANA LETTER SMALL KU..KATAKANA...
-      | 0xE3 0x90 0x80..0xFF        #Lo [6582] CJK UNIFIED IDEOGRAPH-3400..C...
-      | 0xE3 0x91..0xFF 0x00..0xFF  #
-      | 0xE4 0x00 0x00..0xFF        #
-      | 0xE4 0x01..0xB5 0x00..0xFF  #
-      | 0xE4 0xB6 0x00..0xB5        #
-      | 0xE4 0xB8 0x80..0xFF              #Lo [20932] CJK UNIFIED IDEOGRAPH-...
-      | 0xE4 0xB9..0xFF 0x00..0xFF        #
-      | 0xE5..0xE8 0x00..0xFF 0x00..0xFF  #
-      | 0xE9 0x00 0x00..0xFF              #
-      | 0xE9 0x01..0xBE 0x00..0xFF        #
-      | 0xE9 0xBF 0x00..0x83              #
+      | 0xE3 0x90 0x80..0xBF        #Lo [6582] CJK UNIFIED IDEOGRAPH-3400..C...
+      | 0xE3 0x91..0xBF 0x80..0xBF  #
+      | 0xE4 0x80 0x80..0xBF        #
+      | 0xE4 0x81..0xB5 0x80..0xBF  #
+      | 0xE4 0xB6 0x80..0xB5        #
+      | 0xE4 0xB8 0x80..0xBF              #Lo [20932] CJK UNIFIED IDEOGRAPH-...
+      | 0xE4 0xB9..0xBF 0x80..0xBF        #
+      | 0xE5..0xE8 0x80..0xBF 0x80..0xBF  #
+      | 0xE9 0x80 0x80..0xBF              #
+      | 0xE9 0x81..0xBE 0x80..0xBF        #
+      | 0xE9 0xBF 0x80..0x83              #
       | 0xEA 0x80 0x80..0x94    #Lo  [21] YI SYLLABLE IT..YI SYLLABLE E
       | 0xEA 0x80 0x95          #Lm       YI SYLLABLE WU
-      | 0xEA 0x80 0x96..0xFF        #Lo [1143] YI SYLLABLE BIT..YI SYLLABLE YYR
-      | 0xEA 0x81..0x91 0x00..0xFF  #
-      | 0xEA 0x92 0x00..0x8C        #
-      | 0xEA 0x94 0x80..0xFF        #Lo [268] VAI SYLLABLE EE..VAI SYLLABLE NG
-      | 0xEA 0x95..0x97 0x00..0xFF  #
-      | 0xEA 0x98 0x00..0x8B        #
+      | 0xEA 0x80 0x96..0xBF        #Lo [1143] YI SYLLABLE BIT..YI SYLLABLE YYR
+      | 0xEA 0x81..0x91 0x80..0xBF  #
+      | 0xEA 0x92 0x80..0x8C        #
+      | 0xEA 0x94 0x80..0xBF        #Lo [268] VAI SYLLABLE EE..VAI SYLLABLE NG
+      | 0xEA 0x95..0x97 0x80..0xBF  #
+      | 0xEA 0x98 0x80..0x8B        #
       | 0xEA 0x98 0x8C          #Lm       VAI SYLLABLE LENGTHENER
       | 0xEA 0x98 0x90..0x9F    #Lo  [16] VAI SYLLABLE NDOLE FA..VAI SYMBOL ...
       | 0xEA 0x98 0xAA..0xAB    #Lo   [2] VAI SYLLABLE NDOLE MA..VAI SYLLABL...
@@ -568,15 +568,15 @@
       | 0xEA 0x99 0xBF          #Lm       CYRILLIC PAYEROK
       | 0xEA 0x9A 0x80..0x97    #L&  [24] CYRILLIC CAPITAL LETTER DWE..CYRIL...
       | 0xEA 0x9C 0x97..0x9F    #Lm   [9] MODIFIER LETTER DOT VERTICAL BAR.....
-      | 0xEA 0x9C 0xA2..0xFF    #L&  [78] LATIN CAPITAL LETTER EGYPTOLOGICAL...
-      | 0xEA 0x9D 0x00..0xAF    #
+      | 0xEA 0x9C 0xA2..0xBF    #L&  [78] LATIN CAPITAL LETTER EGYPTOLOGICAL...
+      | 0xEA 0x9D 0x80..0xAF    #
       | 0xEA 0x9D 0xB0          #Lm       MODIFIER LETTER US
-      | 0xEA 0x9D 0xB1..0xFF    #L&  [23] LATIN SMALL LETTER DUM..LATIN SMAL...
-      | 0xEA 0x9E 0x00..0x87    #
+      | 0xEA 0x9D 0xB1..0xBF    #L&  [23] LATIN SMALL LETTER DUM..LATIN SMAL...
+      | 0xEA 0x9E 0x80..0x87    #
       | 0xEA 0x9E 0x88          #Lm       MODIFIER LETTER LOW CIRCUMFLEX ACCENT
       | 0xEA 0x9E 0x8B..0x8C    #L&   [2] LATIN CAPITAL LETTER SALTILLO..LAT...
-      | 0xEA 0x9F 0xBB..0xFF    #Lo   [7] LATIN EPIGRAPHIC LETTER REVERSED F...
-      | 0xEA 0xA0 0x00..0x81    #
+      | 0xEA 0x9F 0xBB..0xBF    #Lo   [7] LATIN EPIGRAPHIC LETTER REVERSED F...
+      | 0xEA 0xA0 0x80..0x81    #
       | 0xEA 0xA0 0x83..0x85    #Lo   [3] SYLOTI NAGRI LETTER U..SYLOTI NAGR...
       | 0xEA 0xA0 0x87..0x8A    #Lo   [4] SYLOTI NAGRI LETTER KO..SYLOTI NAG...
       | 0xEA 0xA0 0x8C..0xA2    #Lo  [23] SYLOTI NAGRI LETTER CO..SYLOTI NAG...
@@ -586,12 +586,12 @@
       | 0xEA 0xA1 0x80..0xB3    #Lo  [52] PHAGS-PA LETTER KA..PHAGS-PA LETTE...
       | 0xEA 0xA2 0x80..0x81    #Mc   [2] SAURASHTRA SIGN ANUSVARA..SAURASHT...
       | 0xEA 0xA2 0x82..0xB3    #Lo  [50] SAURASHTRA LETTER A..SAURASHTRA LE...
-      | 0xEA 0xA2 0xB4..0xFF    #Mc  [16] SAURASHTRA CONSONANT SIGN HAARU..S...
-      | 0xEA 0xA3 0x00..0x83    #
+      | 0xEA 0xA2 0xB4..0xBF    #Mc  [16] SAURASHTRA CONSONANT SIGN HAARU..S...
+      | 0xEA 0xA3 0x80..0x83    #
       | 0xEA 0xA4 0x8A..0xA5    #Lo  [28] KAYAH LI LETTER KA..KAYAH LI LETTE...
       | 0xEA 0xA4 0xA6..0xAA    #Mn   [5] KAYAH LI VOWEL UE..KAYAH LI VOWEL O
-      | 0xEA 0xA4 0xB0..0xFF    #Lo  [23] REJANG LETTER KA..REJANG LETTER A
-      | 0xEA 0xA5 0x00..0x86    #
+      | 0xEA 0xA4 0xB0..0xBF    #Lo  [23] REJANG LETTER KA..REJANG LETTER A
+      | 0xEA 0xA5 0x80..0x86    #
       | 0xEA 0xA5 0x87..0x91    #Mn  [11] REJANG VOWEL SIGN I..REJANG CONSON...
       | 0xEA 0xA5 0x92          #Mc       REJANG CONSONANT SIGN H
       | 0xEA 0xA8 0x80..0xA8    #Lo  [41] CHAM LETTER A..CHAM LETTER HA
@@ -605,20 +605,20 @@
       | 0xEA 0xA9 0x84..0x8B    #Lo   [8] CHAM LETTER FINAL CH..CHAM LETTER ...
       | 0xEA 0xA9 0x8C          #Mn       CHAM CONSONANT SIGN FINAL M
       | 0xEA 0xA9 0x8D          #Mc       CHAM CONSONANT SIGN FINAL H
-      | 0xEA 0xB0 0x80..0xFF              #Lo [11172] HANGUL SYLLABLE GA..HA...
-      | 0xEA 0xB1..0xFF 0x00..0xFF        #
-      | 0xEB..0xEC 0x00..0xFF 0x00..0xFF  #
-      | 0xED 0x00 0x00..0xFF              #
-      | 0xED 0x01..0x9D 0x00..0xFF        #
-      | 0xED 0x9E 0x00..0xA3              #
-      | 0xEF 0xA4 0x80..0xFF        #Lo [302] CJK COMPATIBILITY IDEOGRAPH-F9...
-      | 0xEF 0xA5..0xA7 0x00..0xFF  #
-      | 0xEF 0xA8 0x00..0xAD        #
-      | 0xEF 0xA8 0xB0..0xFF    #Lo  [59] CJK COMPATIBILITY IDEOGRAPH-FA30.....
-      | 0xEF 0xA9 0x00..0xAA    #
-      | 0xEF 0xA9 0xB0..0xFF        #Lo [106] CJK COMPATIBILITY IDEOGRAPH-FA...
-      | 0xEF 0xAA..0xAA 0x00..0xFF  #
-      | 0xEF 0xAB 0x00..0x99        #
+      | 0xEA 0xB0 0x80..0xBF              #Lo [11172] HANGUL SYLLABLE GA..HA...
+      | 0xEA 0xB1..0xBF 0x80..0xBF        #
+      | 0xEB..0xEC 0x80..0xBF 0x80..0xBF  #
+      | 0xED 0x80 0x80..0xBF              #
+      | 0xED 0x81..0x9D 0x80..0xBF        #
+      | 0xED 0x9E 0x80..0xA3              #
+      | 0xEF 0xA4 0x80..0xBF        #Lo [302] CJK COMPATIBILITY IDEOGRAPH-F9...
+      | 0xEF 0xA5..0xA7 0x80..0xBF  #
+      | 0xEF 0xA8 0x80..0xAD        #
+      | 0xEF 0xA8 0xB0..0xBF    #Lo  [59] CJK COMPATIBILITY IDEOGRAPH-FA30.....
+      | 0xEF 0xA9 0x80..0xAA    #
+      | 0xEF 0xA9 0xB0..0xBF        #Lo [106] CJK COMPATIBILITY IDEOGRAPH-FA...
+      | 0xEF 0xAA..0xAA 0x80..0xBF  #
+      | 0xEF 0xAB 0x80..0x99        #
       | 0xEF 0xAC 0x80..0x86    #L&   [7] LATIN SMALL LIGATURE FF..LATIN SMA...
       | 0xEF 0xAC 0x93..0x97    #L&   [5] ARMENIAN SMALL LIGATURE MEN NOW..A...
       | 0xEF 0xAC 0x9D          #Lo       HEBREW LETTER YOD WITH HIRIQ
@@ -629,26 +629,26 @@
       | 0xEF 0xAC 0xBE          #Lo       HEBREW LETTER MEM WITH DAGESH
       | 0xEF 0xAD 0x80..0x81    #Lo   [2] HEBREW LETTER NUN WITH DAGESH..HEB...
       | 0xEF 0xAD 0x83..0x84    #Lo   [2] HEBREW LETTER FINAL PE WITH DAGESH...
-      | 0xEF 0xAD 0x86..0xFF    #Lo [108] HEBREW LETTER TSADI WITH DAGESH..A...
-      | 0xEF 0xAE 0x00..0xB1    #
-      | 0xEF 0xAF 0x93..0xFF        #Lo [363] ARABIC LETTER NG ISOLATED FORM...
-      | 0xEF 0xB0..0xB3 0x00..0xFF  #
-      | 0xEF 0xB4 0x00..0xBD        #
-      | 0xEF 0xB5 0x90..0xFF    #Lo  [64] ARABIC LIGATURE TEH WITH JEEM WITH...
-      | 0xEF 0xB6 0x00..0x8F    #
-      | 0xEF 0xB6 0x92..0xFF    #Lo  [54] ARABIC LIGATURE MEEM WITH JEEM WIT...
-      | 0xEF 0xB7 0x00..0x87    #
+      | 0xEF 0xAD 0x86..0xBF    #Lo [108] HEBREW LETTER TSADI WITH DAGESH..A...
+      | 0xEF 0xAE 0x80..0xB1    #
+      | 0xEF 0xAF 0x93..0xBF        #Lo [363] ARABIC LETTER NG ISOLATED FORM...
+      | 0xEF 0xB0..0xB3 0x80..0xBF  #
+      | 0xEF 0xB4 0x80..0xBD        #
+      | 0xEF 0xB5 0x90..0xBF    #Lo  [64] ARABIC LIGATURE TEH WITH JEEM WITH...
+      | 0xEF 0xB6 0x80..0x8F    #
+      | 0xEF 0xB6 0x92..0xBF    #Lo  [54] ARABIC LIGATURE MEEM WITH JEEM WIT...
+      | 0xEF 0xB7 0x80..0x87    #
       | 0xEF 0xB7 0xB0..0xBB    #Lo  [12] ARABIC LIGATURE SALLA USED AS KORA...
       | 0xEF 0xB9 0xB0..0xB4    #Lo   [5] ARABIC FATHATAN ISOLATED FORM..ARA...
-      | 0xEF 0xB9 0xB6..0xFF        #Lo [135] ARABIC FATHA ISOLATED FORM..AR...
-      | 0xEF 0xBA..0xBA 0x00..0xFF  #
-      | 0xEF 0xBB 0x00..0xBC        #
+      | 0xEF 0xB9 0xB6..0xBF        #Lo [135] ARABIC FATHA ISOLATED FORM..AR...
+      | 0xEF 0xBA..0xBA 0x80..0xBF  #
+      | 0xEF 0xBB 0x80..0xBC        #
       | 0xEF 0xBC 0xA1..0xBA    #L&  [26] FULLWIDTH LATIN CAPITAL LETTER A.....
       | 0xEF 0xBD 0x81..0x9A    #L&  [26] FULLWIDTH LATIN SMALL LETTER A..FU...
       | 0xEF 0xBD 0xA6..0xAF    #Lo  [10] HALFWIDTH KATAKANA LETTER WO..HALF...
       | 0xEF 0xBD 0xB0          #Lm       HALFWIDTH KATAKANA-HIRAGANA PROLON...
-      | 0xEF 0xBD 0xB1..0xFF    #Lo  [45] HALFWIDTH KATAKANA LETTER A..HALFW...
-      | 0xEF 0xBE 0x00..0x9D    #
+      | 0xEF 0xBD 0xB1..0xBF    #Lo  [45] HALFWIDTH KATAKANA LETTER A..HALFW...
+      | 0xEF 0xBE 0x80..0x9D    #
       | 0xEF 0xBE 0x9E..0x9F    #Lm   [2] HALFWIDTH KATAKANA VOICED SOUND MA...
       | 0xEF 0xBE 0xA0..0xBE    #Lo  [31] HALFWIDTH HANGUL FILLER..HALFWIDTH...
       | 0xEF 0xBF 0x82..0x87    #Lo   [6] HALFWIDTH HANGUL LETTER A..HALFWID...
@@ -659,30 +659,30 @@
       | 0xF0 0x90 0x80 0x8D..0xA6  #Lo  [26] LINEAR B SYLLABLE B036 JO..LINE...
       | 0xF0 0x90 0x80 0xA8..0xBA  #Lo  [19] LINEAR B SYLLABLE B060 RA..LINE...
       | 0xF0 0x90 0x80 0xBC..0xBD  #Lo   [2] LINEAR B SYLLABLE B017 ZA..LINE...
-      | 0xF0 0x90 0x80 0xBF..0xFF  #Lo  [15] LINEAR B SYLLABLE B020 ZO..LINE...
-      | 0xF0 0x90 0x81 0x00..0x8D  #
+      | 0xF0 0x90 0x80 0xBF..0xBF  #Lo  [15] LINEAR B SYLLABLE B020 ZO..LINE...
+      | 0xF0 0x90 0x81 0x80..0x8D  #
       | 0xF0 0x90 0x81 0x90..0x9D  #Lo  [14] LINEAR B SYMBOL B018..LINEAR B ...
-      | 0xF0 0x90 0x82 0x80..0xFF  #Lo [123] LINEAR B IDEOGRAM B100 MAN..LIN...
-      | 0xF0 0x90 0x83 0x00..0xBA  #
+      | 0xF0 0x90 0x82 0x80..0xBF  #Lo [123] LINEAR B IDEOGRAM B100 MAN..LIN...
+      | 0xF0 0x90 0x83 0x80..0xBA  #
       | 0xF0 0x90 0x85 0x80..0xB4  #Nl  [53] GREEK ACROPHONIC ATTIC ONE QUAR...
       | 0xF0 0x90 0x8A 0x80..0x9C  #Lo  [29] LYCIAN LETTER A..LYCIAN LETTER X
-      | 0xF0 0x90 0x8A 0xA0..0xFF  #Lo  [49] CARIAN LETTER A..CARIAN LETTER ...
-      | 0xF0 0x90 0x8B 0x00..0x90  #
+      | 0xF0 0x90 0x8A 0xA0..0xBF  #Lo  [49] CARIAN LETTER A..CARIAN LETTER ...
+      | 0xF0 0x90 0x8B 0x80..0x90  #
       | 0xF0 0x90 0x8C 0x80..0x9E  #Lo  [31] OLD ITALIC LETTER A..OLD ITALIC...
-      | 0xF0 0x90 0x8C 0xB0..0xFF  #Lo  [17] GOTHIC LETTER AHSA..GOTHIC LETT...
-      | 0xF0 0x90 0x8D 0x00..0x80  #
+      | 0xF0 0x90 0x8C 0xB0..0xBF  #Lo  [17] GOTHIC LETTER AHSA..GOTHIC LETT...
+      | 0xF0 0x90 0x8D 0x80..0x80  #
       | 0xF0 0x90 0x8D 0x81     #Nl       GOTHIC LETTER NINETY
       | 0xF0 0x90 0x8D 0x82..0x89  #Lo   [8] GOTHIC LETTER RAIDA..GOTHIC LET...
       | 0xF0 0x90 0x8D 0x8A     #Nl       GOTHIC LETTER NINE HUNDRED
       | 0xF0 0x90 0x8E 0x80..0x9D  #Lo  [30] UGARITIC LETTER ALPA..UGARITIC ...
-      | 0xF0 0x90 0x8E 0xA0..0xFF  #Lo  [36] OLD PERSIAN SIGN A..OLD PERSIAN...
-      | 0xF0 0x90 0x8F 0x00..0x83  #
+      | 0xF0 0x90 0x8E 0xA0..0xBF  #Lo  [36] OLD PERSIAN SIGN A..OLD PERSIAN...
+      | 0xF0 0x90 0x8F 0x80..0x83  #
       | 0xF0 0x90 0x8F 0x88..0x8F  #Lo   [8] OLD PERSIAN SIGN AURAMAZDAA..OL...
       | 0xF0 0x90 0x8F 0x91..0x95  #Nl   [5] OLD PERSIAN NUMBER ONE..OLD PER...
-      | 0xF0 0x90 0x90 0x80..0xFF  #L&  [80] DESERET CAPITAL LETTER LONG I.....
-      | 0xF0 0x90 0x91 0x00..0x8F  #
-      | 0xF0 0x90 0x91 0x90..0xFF  #Lo  [78] SHAVIAN LETTER PEEP..OSMANYA LE...
-      | 0xF0 0x90 0x92 0x00..0x9D  #
+      | 0xF0 0x90 0x90 0x80..0xBF  #L&  [80] DESERET CAPITAL LETTER LONG I.....
+      | 0xF0 0x90 0x91 0x80..0x8F  #
+      | 0xF0 0x90 0x91 0x90..0xBF  #Lo  [78] SHAVIAN LETTER PEEP..OSMANYA LE...
+      | 0xF0 0x90 0x92 0x80..0x9D  #
       | 0xF0 0x90 0xA0 0x80..0x85  #Lo   [6] CYPRIOT SYLLABLE A..CYPRIOT SYL...
       | 0xF0 0x90 0xA0 0x88     #Lo       CYPRIOT SYLLABLE JO
       | 0xF0 0x90 0xA0 0x8A..0xB5  #Lo  [44] CYPRIOT SYLLABLE KA..CYPRIOT SY...
@@ -698,25 +698,25 @@
       | 0xF0 0x90 0xA8 0x90..0x93  #Lo   [4] KHAROSHTHI LETTER KA..KHAROSHTH...
       | 0xF0 0x90 0xA8 0x95..0x97  #Lo   [3] KHAROSHTHI LETTER CA..KHAROSHTH...
       | 0xF0 0x90 0xA8 0x99..0xB3  #Lo  [27] KHAROSHTHI LETTER NYA..KHAROSHT...
-      | 0xF0 0x92 0x80 0x80..0xFF        #Lo [879] CUNEIFORM SIGN A..CUNEIFO...
-      | 0xF0 0x92 0x81..0x8C 0x00..0xFF  #
-      | 0xF0 0x92 0x8D 0x00..0xAE        #
-      | 0xF0 0x92 0x90 0x80..0xFF  #Nl  [99] CUNEIFORM NUMERIC SIGN TWO ASH....
-      | 0xF0 0x92 0x91 0x00..0xA2  #
-      | 0xF0 0x9D 0x90 0x80..0xFF  #L&  [85] MATHEMATICAL BOLD CAPITAL A..MA...
-      | 0xF0 0x9D 0x91 0x00..0x94  #
-      | 0xF0 0x9D 0x91 0x96..0xFF  #L&  [71] MATHEMATICAL ITALIC SMALL I..MA...
-      | 0xF0 0x9D 0x92 0x00..0x9C  #
+      | 0xF0 0x92 0x80 0x80..0xBF        #Lo [879] CUNEIFORM SIGN A..CUNEIFO...
+      | 0xF0 0x92 0x81..0x8C 0x80..0xBF  #
+      | 0xF0 0x92 0x8D 0x80..0xAE        #
+      | 0xF0 0x92 0x90 0x80..0xBF  #Nl  [99] CUNEIFORM NUMERIC SIGN TWO ASH....
+      | 0xF0 0x92 0x91 0x80..0xA2  #
+      | 0xF0 0x9D 0x90 0x80..0xBF  #L&  [85] MATHEMATICAL BOLD CAPITAL A..MA...
+      | 0xF0 0x9D 0x91 0x80..0x94  #
+      | 0xF0 0x9D 0x91 0x96..0xBF  #L&  [71] MATHEMATICAL ITALIC SMALL I..MA...
+      | 0xF0 0x9D 0x92 0x80..0x9C  #
       | 0xF0 0x9D 0x92 0x9E..0x9F  #L&   [2] MATHEMATICAL SCRIPT CAPITAL C.....
       | 0xF0 0x9D 0x92 0xA2     #L&       MATHEMATICAL SCRIPT CAPITAL G
       | 0xF0 0x9D 0x92 0xA5..0xA6  #L&   [2] MATHEMATICAL SCRIPT CAPITAL J.....
       | 0xF0 0x9D 0x92 0xA9..0xAC  #L&   [4] MATHEMATICAL SCRIPT CAPITAL N.....
       | 0xF0 0x9D 0x92 0xAE..0xB9  #L&  [12] MATHEMATICAL SCRIPT CAPITAL S.....
       | 0xF0 0x9D 0x92 0xBB     #L&       MATHEMATICAL SCRIPT SMALL F
-      | 0xF0 0x9D 0x92 0xBD..0xFF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
-      | 0xF0 0x9D 0x93 0x00..0x83  #
-      | 0xF0 0x9D 0x93 0x85..0xFF  #L&  [65] MATHEMATICAL SCRIPT SMALL P..MA...
-      | 0xF0 0x9D 0x94 0x00..0x85  #
+      | 0xF0 0x9D 0x92 0xBD..0xBF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
+      | 0xF0 0x9D 0x93 0x80..0x83  #
+      | 0xF0 0x9D 0x93 0x85..0xBF  #L&  [65] MATHEMATICAL SCRIPT SMALL P..MA...
+      | 0xF0 0x9D 0x94 0x80..0x85  #
       | 0xF0 0x9D 0x94 0x87..0x8A  #L&   [4] MATHEMATICAL FRAKTUR CAPITAL D....
       | 0xF0 0x9D 0x94 0x8D..0x94  #L&   [8] MATHEMATICAL FRAKTUR CAPITAL J....
       | 0xF0 0x9D 0x94 0x96..0x9C  #L&   [7] MATHEMATICAL FRAKTUR CAPITAL S....
@@ -725,34 +725,34 @@
       | 0xF0 0x9D 0x95 0x80..0x84  #L&   [5] MATHEMATICAL DOUBLE-STRUCK CAPI...
       | 0xF0 0x9D 0x95 0x86     #L&       MATHEMATICAL DOUBLE-STRUCK CAPITAL O
       | 0xF0 0x9D 0x95 0x8A..0x90  #L&   [7] MATHEMATICAL DOUBLE-STRUCK CAPI...
-      | 0xF0 0x9D 0x95 0x92..0xFF        #L& [340] MATHEMATICAL DOUBLE-STRUC...
-      | 0xF0 0x9D 0x96..0x99 0x00..0xFF  #
-      | 0xF0 0x9D 0x9A 0x00..0xA5        #
-      | 0xF0 0x9D 0x9A 0xA8..0xFF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
-      | 0xF0 0x9D 0x9B 0x00..0x80  #
+      | 0xF0 0x9D 0x95 0x92..0xBF        #L& [340] MATHEMATICAL DOUBLE-STRUC...
+      | 0xF0 0x9D 0x96..0x99 0x80..0xBF  #
+      | 0xF0 0x9D 0x9A 0x80..0xA5        #
+      | 0xF0 0x9D 0x9A 0xA8..0xBF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
+      | 0xF0 0x9D 0x9B 0x80..0x80  #
       | 0xF0 0x9D 0x9B 0x82..0x9A  #L&  [25] MATHEMATICAL BOLD SMALL ALPHA.....
       | 0xF0 0x9D 0x9B 0x9C..0xBA  #L&  [31] MATHEMATICAL BOLD EPSILON SYMBO...
-      | 0xF0 0x9D 0x9B 0xBC..0xFF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
-      | 0xF0 0x9D 0x9C 0x00..0x94  #
+      | 0xF0 0x9D 0x9B 0xBC..0xBF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
+      | 0xF0 0x9D 0x9C 0x80..0x94  #
       | 0xF0 0x9D 0x9C 0x96..0xB4  #L&  [31] MATHEMATICAL ITALIC EPSILON SYM...
-      | 0xF0 0x9D 0x9C 0xB6..0xFF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
-      | 0xF0 0x9D 0x9D 0x00..0x8E  #
+      | 0xF0 0x9D 0x9C 0xB6..0xBF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
+      | 0xF0 0x9D 0x9D 0x80..0x8E  #
       | 0xF0 0x9D 0x9D 0x90..0xAE  #L&  [31] MATHEMATICAL BOLD ITALIC EPSILO...
-      | 0xF0 0x9D 0x9D 0xB0..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
-      | 0xF0 0x9D 0x9E 0x00..0x88  #
+      | 0xF0 0x9D 0x9D 0xB0..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
+      | 0xF0 0x9D 0x9E 0x80..0x88  #
       | 0xF0 0x9D 0x9E 0x8A..0xA8  #L&  [31] MATHEMATICAL SANS-SERIF BOLD EP...
-      | 0xF0 0x9D 0x9E 0xAA..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0x9D 0x9F 0x00..0x82  #
+      | 0xF0 0x9D 0x9E 0xAA..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
+      | 0xF0 0x9D 0x9F 0x80..0x82  #
       | 0xF0 0x9D 0x9F 0x84..0x8B  #L&   [8] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0xA0 0x80 0x80..0xFF              #Lo [42711] CJK UNIFIED IDEOG...
-      | 0xF0 0xA0 0x81..0xFF 0x00..0xFF        #
-      | 0xF0 0xA1..0xA9 0x00..0xFF 0x00..0xFF  #
-      | 0xF0 0xAA 0x00 0x00..0xFF              #
-      | 0xF0 0xAA 0x01..0x9A 0x00..0xFF        #
-      | 0xF0 0xAA 0x9B 0x00..0x96              #
-      | 0xF0 0xAF 0xA0 0x80..0xFF        #Lo [542] CJK COMPATIBILITY IDEOGRA...
-      | 0xF0 0xAF 0xA1..0xA7 0x00..0xFF  #
-      | 0xF0 0xAF 0xA8 0x00..0x9D        #
+      | 0xF0 0xA0 0x80 0x80..0xBF              #Lo [42711] CJK UNIFIED IDEOG...
+      | 0xF0 0xA0 0x81..0xBF 0x80..0xBF        #
+      | 0xF0 0xA1..0xA9 0x80..0xBF 0x80..0xBF  #
+      | 0xF0 0xAA 0x80 0x80..0xBF              #
+      | 0xF0 0xAA 0x81..0x9A 0x80..0xBF        #
+      | 0xF0 0xAA 0x9B 0x80..0x96              #
+      | 0xF0 0xAF 0xA0 0x80..0xBF        #Lo [542] CJK COMPATIBILITY IDEOGRA...
+      | 0xF0 0xAF 0xA1..0xA7 0x80..0xBF  #
+      | 0xF0 0xAF 0xA8 0x80..0x9D        #
       ;
 
     ulower = 
@@ -823,8 +823,8 @@
       | 0xC5 0xB7               #L&       LATIN SMALL LETTER Y WITH CIRCUMFLEX
       | 0xC5 0xBA               #L&       LATIN SMALL LETTER Z WITH ACUTE
       | 0xC5 0xBC               #L&       LATIN SMALL LETTER Z WITH DOT ABOVE
-      | 0xC5 0xBE..0xFF         #L&   [3] LATIN SMALL LETTER Z WITH CARON..L...
-      | 0xC6 0x00..0x80         #
+      | 0xC5 0xBE..0xBF         #L&   [3] LATIN SMALL LETTER Z WITH CARON..L...
+      | 0xC6 0x80..0x80         #
       | 0xC6 0x83               #L&       LATIN SMALL LETTER B WITH TOPBAR
       | 0xC6 0x85               #L&       LATIN SMALL LETTER TONE SIX
       | 0xC6 0x88               #L&       LATIN SMALL LETTER C WITH HOOK
@@ -897,15 +897,15 @@
       | 0xC8 0xB1               #L&       LATIN SMALL LETTER O WITH DOT ABOV...
       | 0xC8 0xB3..0xB9         #L&   [7] LATIN SMALL LETTER Y WITH MACRON.....
       | 0xC8 0xBC               #L&       LATIN SMALL LETTER C WITH STROKE
-      | 0xC8 0xBF..0xFF         #L&   [2] LATIN SMALL LETTER S WITH SWASH TA...
-      | 0xC9 0x00..0x80         #
+      | 0xC8 0xBF..0xBF         #L&   [2] LATIN SMALL LETTER S WITH SWASH TA...
+      | 0xC9 0x80..0x80         #
       | 0xC9 0x82               #L&       LATIN SMALL LETTER GLOTTAL STOP
       | 0xC9 0x87               #L&       LATIN SMALL LETTER E WITH STROKE
       | 0xC9 0x89               #L&       LATIN SMALL LETTER J WITH STROKE
       | 0xC9 0x8B               #L&       LATIN SMALL LETTER Q WITH HOOK TAIL
       | 0xC9 0x8D               #L&       LATIN SMALL LETTER R WITH STROKE
-      | 0xC9 0x8F..0xFF         #L&  [69] LATIN SMALL LETTER Y WITH STROKE.....
-      | 0xCA 0x00..0x93         #
+      | 0xC9 0x8F..0xBF         #L&  [69] LATIN SMALL LETTER Y WITH STROKE.....
+      | 0xCA 0x80..0x93         #
       | 0xCA 0x95..0xAF         #L&  [27] LATIN LETTER PHARYNGEAL VOICED FRI...
       | 0xCA 0xB0..0xB8         #Lm   [9] MODIFIER LETTER SMALL H..MODIFIER ...
       | 0xCB 0x80..0x81         #Lm   [2] MODIFIER LETTER GLOTTAL STOP..MODI...
@@ -917,8 +917,8 @@
       | 0xCD 0xBA               #Lm       GREEK YPOGEGRAMMENI
       | 0xCD 0xBB..0xBD         #L&   [3] GREEK SMALL REVERSED LUNATE SIGMA ...
       | 0xCE 0x90               #L&       GREEK SMALL LETTER IOTA WITH DIALY...
-      | 0xCE 0xAC..0xFF         #L&  [35] GREEK SMALL LETTER ALPHA WITH TONO...
-      | 0xCF 0x00..0x8E         #
+      | 0xCE 0xAC..0xBF         #L&  [35] GREEK SMALL LETTER ALPHA WITH TONO...
+      | 0xCF 0x80..0x8E         #
       | 0xCF 0x90..0x91         #L&   [2] GREEK BETA SYMBOL..GREEK THETA SYMBOL
       | 0xCF 0x95..0x97         #L&   [3] GREEK PHI SYMBOL..GREEK KAI SYMBOL
       | 0xCF 0x99               #L&       GREEK SMALL LETTER ARCHAIC KOPPA
@@ -936,8 +936,8 @@
       | 0xCF 0xB5               #L&       GREEK LUNATE EPSILON SYMBOL
       | 0xCF 0xB8               #L&       GREEK SMALL LETTER SHO
       | 0xCF 0xBB..0xBC         #L&   [2] GREEK SMALL LETTER SAN..GREEK RHO ...
-      | 0xD0 0xB0..0xFF         #L&  [48] CYRILLIC SMALL LETTER A..CYRILLIC ...
-      | 0xD1 0x00..0x9F         #
+      | 0xD0 0xB0..0xBF         #L&  [48] CYRILLIC SMALL LETTER A..CYRILLIC ...
+      | 0xD1 0x80..0x9F         #
       | 0xD1 0xA1               #L&       CYRILLIC SMALL LETTER OMEGA
       | 0xD1 0xA3               #L&       CYRILLIC SMALL LETTER YAT
       | 0xD1 0xA5               #L&       CYRILLIC SMALL LETTER IOTIFIED E
@@ -1031,15 +1031,15 @@
       | 0xD4 0x9F               #L&       CYRILLIC SMALL LETTER ALEUT KA
       | 0xD4 0xA1               #L&       CYRILLIC SMALL LETTER EL WITH MIDD...
       | 0xD4 0xA3               #L&       CYRILLIC SMALL LETTER EN WITH MIDD...
-      | 0xD5 0xA1..0xFF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
-      | 0xD6 0x00..0x87         #
+      | 0xD5 0xA1..0xBF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
+      | 0xD6 0x80..0x87         #
       | 0xE1 0xB4 0x80..0xAB    #L&  [44] LATIN LETTER SMALL CAPITAL A..CYRI...
-      | 0xE1 0xB4 0xAC..0xFF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
-      | 0xE1 0xB5 0x00..0xA1    #
+      | 0xE1 0xB4 0xAC..0xBF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
+      | 0xE1 0xB5 0x80..0xA1    #
       | 0xE1 0xB5 0xA2..0xB7    #L&  [22] LATIN SUBSCRIPT SMALL LETTER I..LA...
       | 0xE1 0xB5 0xB8          #Lm       MODIFIER LETTER CYRILLIC EN
-      | 0xE1 0xB5 0xB9..0xFF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
-      | 0xE1 0xB6 0x00..0x9A    #
+      | 0xE1 0xB5 0xB9..0xBF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
+      | 0xE1 0xB6 0x80..0x9A    #
       | 0xE1 0xB6 0x9B..0xBF    #Lm  [37] MODIFIER LETTER SMALL TURNED ALPHA...
       | 0xE1 0xB8 0x81          #L&       LATIN SMALL LETTER A WITH RING BELOW
       | 0xE1 0xB8 0x83          #L&       LATIN SMALL LETTER B WITH DOT ABOVE
@@ -1164,8 +1164,8 @@
       | 0xE1 0xBB 0xB9          #L&       LATIN SMALL LETTER Y WITH TILDE
       | 0xE1 0xBB 0xBB          #L&       LATIN SMALL LETTER MIDDLE-WELSH LL
       | 0xE1 0xBB 0xBD          #L&       LATIN SMALL LETTER MIDDLE-WELSH V
-      | 0xE1 0xBB 0xBF..0xFF    #L&   [9] LATIN SMALL LETTER Y WITH LOOP..GR...
-      | 0xE1 0xBC 0x00..0x87    #
+      | 0xE1 0xBB 0xBF..0xBF    #L&   [9] LATIN SMALL LETTER Y WITH LOOP..GR...
+      | 0xE1 0xBC 0x80..0x87    #
       | 0xE1 0xBC 0x90..0x95    #L&   [6] GREEK SMALL LETTER EPSILON WITH PS...
       | 0xE1 0xBC 0xA0..0xA7    #L&   [8] GREEK SMALL LETTER ETA WITH PSILI....
       | 0xE1 0xBC 0xB0..0xB7    #L&   [8] GREEK SMALL LETTER IOTA WITH PSILI...
@@ -1201,8 +1201,8 @@
       | 0xE2 0x85 0xB0..0xBF    #Nl  [16] SMALL ROMAN NUMERAL ONE..SMALL ROM...
       | 0xE2 0x86 0x84          #L&       LATIN SMALL LETTER REVERSED C
       | 0xE2 0x93 0x90..0xA9    #So  [26] CIRCLED LATIN SMALL LETTER A..CIRC...
-      | 0xE2 0xB0 0xB0..0xFF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
-      | 0xE2 0xB1 0x00..0x9E    #
+      | 0xE2 0xB0 0xB0..0xBF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
+      | 0xE2 0xB1 0x80..0x9E    #
       | 0xE2 0xB1 0xA1          #L&       LATIN SMALL LETTER L WITH DOUBLE BAR
       | 0xE2 0xB1 0xA5..0xA6    #L&   [2] LATIN SMALL LETTER A WITH STROKE.....
       | 0xE2 0xB1 0xA8          #L&       LATIN SMALL LETTER H WITH DESCENDER
@@ -1348,42 +1348,42 @@
       | 0xEF 0xAC 0x80..0x86    #L&   [7] LATIN SMALL LIGATURE FF..LATIN SMA...
       | 0xEF 0xAC 0x93..0x97    #L&   [5] ARMENIAN SMALL LIGATURE MEN NOW..A...
       | 0xEF 0xBD 0x81..0x9A    #L&  [26] FULLWIDTH LATIN SMALL LETTER A..FU...
-      | 0xF0 0x90 0x90 0xA8..0xFF  #L&  [40] DESERET SMALL LETTER LONG I..DE...
-      | 0xF0 0x90 0x91 0x00..0x8F  #
+      | 0xF0 0x90 0x90 0xA8..0xBF  #L&  [40] DESERET SMALL LETTER LONG I..DE...
+      | 0xF0 0x90 0x91 0x80..0x8F  #
       | 0xF0 0x9D 0x90 0x9A..0xB3  #L&  [26] MATHEMATICAL BOLD SMALL A..MATH...
       | 0xF0 0x9D 0x91 0x8E..0x94  #L&   [7] MATHEMATICAL ITALIC SMALL A..MA...
       | 0xF0 0x9D 0x91 0x96..0xA7  #L&  [18] MATHEMATICAL ITALIC SMALL I..MA...
       | 0xF0 0x9D 0x92 0x82..0x9B  #L&  [26] MATHEMATICAL BOLD ITALIC SMALL ...
       | 0xF0 0x9D 0x92 0xB6..0xB9  #L&   [4] MATHEMATICAL SCRIPT SMALL A..MA...
       | 0xF0 0x9D 0x92 0xBB     #L&       MATHEMATICAL SCRIPT SMALL F
-      | 0xF0 0x9D 0x92 0xBD..0xFF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
-      | 0xF0 0x9D 0x93 0x00..0x83  #
+      | 0xF0 0x9D 0x92 0xBD..0xBF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
+      | 0xF0 0x9D 0x93 0x80..0x83  #
       | 0xF0 0x9D 0x93 0x85..0x8F  #L&  [11] MATHEMATICAL SCRIPT SMALL P..MA...
-      | 0xF0 0x9D 0x93 0xAA..0xFF  #L&  [26] MATHEMATICAL BOLD SCRIPT SMALL ...
-      | 0xF0 0x9D 0x94 0x00..0x83  #
+      | 0xF0 0x9D 0x93 0xAA..0xBF  #L&  [26] MATHEMATICAL BOLD SCRIPT SMALL ...
+      | 0xF0 0x9D 0x94 0x80..0x83  #
       | 0xF0 0x9D 0x94 0x9E..0xB7  #L&  [26] MATHEMATICAL FRAKTUR SMALL A..M...
       | 0xF0 0x9D 0x95 0x92..0xAB  #L&  [26] MATHEMATICAL DOUBLE-STRUCK SMAL...
       | 0xF0 0x9D 0x96 0x86..0x9F  #L&  [26] MATHEMATICAL BOLD FRAKTUR SMALL...
-      | 0xF0 0x9D 0x96 0xBA..0xFF  #L&  [26] MATHEMATICAL SANS-SERIF SMALL A...
-      | 0xF0 0x9D 0x97 0x00..0x93  #
-      | 0xF0 0x9D 0x97 0xAE..0xFF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD SM...
-      | 0xF0 0x9D 0x98 0x00..0x87  #
+      | 0xF0 0x9D 0x96 0xBA..0xBF  #L&  [26] MATHEMATICAL SANS-SERIF SMALL A...
+      | 0xF0 0x9D 0x97 0x80..0x93  #
+      | 0xF0 0x9D 0x97 0xAE..0xBF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD SM...
+      | 0xF0 0x9D 0x98 0x80..0x87  #
       | 0xF0 0x9D 0x98 0xA2..0xBB  #L&  [26] MATHEMATICAL SANS-SERIF ITALIC ...
       | 0xF0 0x9D 0x99 0x96..0xAF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD IT...
       | 0xF0 0x9D 0x9A 0x8A..0xA5  #L&  [28] MATHEMATICAL MONOSPACE SMALL A....
       | 0xF0 0x9D 0x9B 0x82..0x9A  #L&  [25] MATHEMATICAL BOLD SMALL ALPHA.....
       | 0xF0 0x9D 0x9B 0x9C..0xA1  #L&   [6] MATHEMATICAL BOLD EPSILON SYMBO...
-      | 0xF0 0x9D 0x9B 0xBC..0xFF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
-      | 0xF0 0x9D 0x9C 0x00..0x94  #
+      | 0xF0 0x9D 0x9B 0xBC..0xBF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
+      | 0xF0 0x9D 0x9C 0x80..0x94  #
       | 0xF0 0x9D 0x9C 0x96..0x9B  #L&   [6] MATHEMATICAL ITALIC EPSILON SYM...
-      | 0xF0 0x9D 0x9C 0xB6..0xFF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
-      | 0xF0 0x9D 0x9D 0x00..0x8E  #
+      | 0xF0 0x9D 0x9C 0xB6..0xBF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
+      | 0xF0 0x9D 0x9D 0x80..0x8E  #
       | 0xF0 0x9D 0x9D 0x90..0x95  #L&   [6] MATHEMATICAL BOLD ITALIC EPSILO...
-      | 0xF0 0x9D 0x9D 0xB0..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
-      | 0xF0 0x9D 0x9E 0x00..0x88  #
+      | 0xF0 0x9D 0x9D 0xB0..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
+      | 0xF0 0x9D 0x9E 0x80..0x88  #
       | 0xF0 0x9D 0x9E 0x8A..0x8F  #L&   [6] MATHEMATICAL SANS-SERIF BOLD EP...
-      | 0xF0 0x9D 0x9E 0xAA..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0x9D 0x9F 0x00..0x82  #
+      | 0xF0 0x9D 0x9E 0xAA..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
+      | 0xF0 0x9D 0x9F 0x80..0x82  #
       | 0xF0 0x9D 0x9F 0x84..0x89  #L&   [6] MATHEMATICAL SANS-SERIF BOLD IT...
       | 0xF0 0x9D 0x9F 0x8B     #L&       MATHEMATICAL BOLD SMALL DIGAMMA
       ;
@@ -1559,8 +1559,8 @@
       | 0xCF 0xB4               #L&       GREEK CAPITAL THETA SYMBOL
       | 0xCF 0xB7               #L&       GREEK CAPITAL LETTER SHO
       | 0xCF 0xB9..0xBA         #L&   [2] GREEK CAPITAL LUNATE SIGMA SYMBOL....
-      | 0xCF 0xBD..0xFF         #L&  [51] GREEK CAPITAL REVERSED LUNATE SIGM...
-      | 0xD0 0x00..0xAF         #
+      | 0xCF 0xBD..0xBF         #L&  [51] GREEK CAPITAL REVERSED LUNATE SIGM...
+      | 0xD0 0x80..0xAF         #
       | 0xD1 0xA0               #L&       CYRILLIC CAPITAL LETTER OMEGA
       | 0xD1 0xA2               #L&       CYRILLIC CAPITAL LETTER YAT
       | 0xD1 0xA4               #L&       CYRILLIC CAPITAL LETTER IOTIFIED E
@@ -1654,10 +1654,10 @@
       | 0xD4 0x9E               #L&       CYRILLIC CAPITAL LETTER ALEUT KA
       | 0xD4 0xA0               #L&       CYRILLIC CAPITAL LETTER EL WITH MI...
       | 0xD4 0xA2               #L&       CYRILLIC CAPITAL LETTER EN WITH MI...
-      | 0xD4 0xB1..0xFF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
-      | 0xD5 0x00..0x96         #
-      | 0xE1 0x82 0xA0..0xFF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
-      | 0xE1 0x83 0x00..0x85    #
+      | 0xD4 0xB1..0xBF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
+      | 0xD5 0x80..0x96         #
+      | 0xE1 0x82 0xA0..0xBF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
+      | 0xE1 0x83 0x80..0x85    #
       | 0xE1 0xB8 0x80          #L&       LATIN CAPITAL LETTER A WITH RING B...
       | 0xE1 0xB8 0x82          #L&       LATIN CAPITAL LETTER B WITH DOT ABOVE
       | 0xE1 0xB8 0x84          #L&       LATIN CAPITAL LETTER B WITH DOT BELOW
@@ -1812,8 +1812,8 @@
       | 0xE2 0x85 0x85          #L&       DOUBLE-STRUCK ITALIC CAPITAL D
       | 0xE2 0x85 0xA0..0xAF    #Nl  [16] ROMAN NUMERAL ONE..ROMAN NUMERAL O...
       | 0xE2 0x86 0x83          #L&       ROMAN NUMERAL REVERSED ONE HUNDRED
-      | 0xE2 0x92 0xB6..0xFF    #So  [26] CIRCLED LATIN CAPITAL LETTER A..CI...
-      | 0xE2 0x93 0x00..0x8F    #
+      | 0xE2 0x92 0xB6..0xBF    #So  [26] CIRCLED LATIN CAPITAL LETTER A..CI...
+      | 0xE2 0x93 0x80..0x8F    #
       | 0xE2 0xB0 0x80..0xAE    #L&  [47] GLAGOLITIC CAPITAL LETTER AZU..GLA...
       | 0xE2 0xB1 0xA0          #L&       LATIN CAPITAL LETTER L WITH DOUBLE...
       | 0xE2 0xB1 0xA2..0xA4    #L&   [3] LATIN CAPITAL LETTER L WITH MIDDLE...
@@ -1956,10 +1956,10 @@
       | 0xEF 0xBC 0xA1..0xBA    #L&  [26] FULLWIDTH LATIN CAPITAL LETTER A.....
       | 0xF0 0x90 0x90 0x80..0xA7  #L&  [40] DESERET CAPITAL LETTER LONG I.....
       | 0xF0 0x9D 0x90 0x80..0x99  #L&  [26] MATHEMATICAL BOLD CAPITAL A..MA...
-      | 0xF0 0x9D 0x90 0xB4..0xFF  #L&  [26] MATHEMATICAL ITALIC CAPITAL A.....
-      | 0xF0 0x9D 0x91 0x00..0x8D  #
-      | 0xF0 0x9D 0x91 0xA8..0xFF  #L&  [26] MATHEMATICAL BOLD ITALIC CAPITA...
-      | 0xF0 0x9D 0x92 0x00..0x81  #
+      | 0xF0 0x9D 0x90 0xB4..0xBF  #L&  [26] MATHEMATICAL ITALIC CAPITAL A.....
+      | 0xF0 0x9D 0x91 0x80..0x8D  #
+      | 0xF0 0x9D 0x91 0xA8..0xBF  #L&  [26] MATHEMATICAL BOLD ITALIC CAPITA...
+      | 0xF0 0x9D 0x92 0x80..0x81  #
       | 0xF0 0x9D 0x92 0x9C     #L&       MATHEMATICAL SCRIPT CAPITAL A
       | 0xF0 0x9D 0x92 0x9E..0x9F  #L&   [2] MATHEMATICAL SCRIPT CAPITAL C.....
       | 0xF0 0x9D 0x92 0xA2     #L&       MATHEMATICAL SCRIPT CAPITAL G
@@ -1976,17 +1976,17 @@
       | 0xF0 0x9D 0x95 0x80..0x84  #L&   [5] MATHEMATICAL DOUBLE-STRUCK CAPI...
       | 0xF0 0x9D 0x95 0x86     #L&       MATHEMATICAL DOUBLE-STRUCK CAPITAL O
       | 0xF0 0x9D 0x95 0x8A..0x90  #L&   [7] MATHEMATICAL DOUBLE-STRUCK CAPI...
-      | 0xF0 0x9D 0x95 0xAC..0xFF  #L&  [26] MATHEMATICAL BOLD FRAKTUR CAPIT...
-      | 0xF0 0x9D 0x96 0x00..0x85  #
+      | 0xF0 0x9D 0x95 0xAC..0xBF  #L&  [26] MATHEMATICAL BOLD FRAKTUR CAPIT...
+      | 0xF0 0x9D 0x96 0x80..0x85  #
       | 0xF0 0x9D 0x96 0xA0..0xB9  #L&  [26] MATHEMATICAL SANS-SERIF CAPITAL...
       | 0xF0 0x9D 0x97 0x94..0xAD  #L&  [26] MATHEMATICAL SANS-SERIF BOLD CA...
       | 0xF0 0x9D 0x98 0x88..0xA1  #L&  [26] MATHEMATICAL SANS-SERIF ITALIC ...
-      | 0xF0 0x9D 0x98 0xBC..0xFF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0x9D 0x99 0x00..0x95  #
-      | 0xF0 0x9D 0x99 0xB0..0xFF  #L&  [26] MATHEMATICAL MONOSPACE CAPITAL ...
-      | 0xF0 0x9D 0x9A 0x00..0x89  #
-      | 0xF0 0x9D 0x9A 0xA8..0xFF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
-      | 0xF0 0x9D 0x9B 0x00..0x80  #
+      | 0xF0 0x9D 0x98 0xBC..0xBF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD IT...
+      | 0xF0 0x9D 0x99 0x80..0x95  #
+      | 0xF0 0x9D 0x99 0xB0..0xBF  #L&  [26] MATHEMATICAL MONOSPACE CAPITAL ...
+      | 0xF0 0x9D 0x9A 0x80..0x89  #
+      | 0xF0 0x9D 0x9A 0xA8..0xBF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
+      | 0xF0 0x9D 0x9B 0x80..0x80  #
       | 0xF0 0x9D 0x9B 0xA2..0xBA  #L&  [25] MATHEMATICAL ITALIC CAPITAL ALP...
       | 0xF0 0x9D 0x9C 0x9C..0xB4  #L&  [25] MATHEMATICAL BOLD ITALIC CAPITA...
       | 0xF0 0x9D 0x9D 0x96..0xAE  #L&  [25] MATHEMATICAL SANS-SERIF BOLD CA...
-- 
2.43.0


From b934d1f892d8706bf7c0066020c5def80e6154ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:36 +0000
Subject: [PATCH 079/181] fix: a crash or failure while writing the segments
 file left a half-written file as the latest generation

---
 c/src/index.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index c7125aa..c40daef 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -42,6 +42,8 @@ static char *ste_next(TermEnum *te);
 
 #define FORMAT 0
 #define SEGMENTS_GEN_FILE_NAME "segments"
+/* the next segments_N file while it is still being written */
+#define SEGMENTS_NEW_FILE_NAME "segments-new"
 #define MAX_EXT_LEN 10
 #define ZIP_BUFFER_SIZE 16348
 #define ZIP_LEVEL 9
@@ -1132,11 +1134,9 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
     OutStream *volatile os = NULL;
     const int sis_size = sis->size;
     char buf[SEGMENT_NAME_MAX_LENGTH];
-    sis->generation++;
 
     TRY
-        os = store->new_output(store,
-                               segfn_for_generation(buf, sis->generation));
+        os = store->new_output(store, SEGMENTS_NEW_FILE_NAME);
         os_write_u32(os, FORMAT);
         os_write_u64(os, ++(sis->version)); /* every write changes the index */
         os_write_u64(os, sis->counter);
@@ -1146,18 +1146,26 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         }
         fis_write(sis->fis, os);
     XFINALLY
-        os_close(os);
+        if (os) os_close(os);
     XENDTRY
 
+    /* Only a complete file may get the name a reader looks for. Otherwise a
+     * crash or a full disk half-way through writing it would make it the
+     * latest generation. */
+    store->rename(store, SEGMENTS_NEW_FILE_NAME,
+                  segfn_for_generation(buf, sis->generation + 1));
+    sis->generation++;
+
+    os = NULL;
     TRY
         os = store->new_output(store, SEGMENTS_GEN_FILE_NAME);
         os_write_u64(os, sis->generation);
         os_write_u64(os, sis->generation);
     XFINALLY
+        if (os) os_close(os);
         /* It's OK if we fail to write this file since it's
          * used only as one of the retry fallbacks. */
         HANDLED();
-        os_close(os);
     XENDTRY
 
     if (deleter && sis->generation > 0) {
-- 
2.43.0


From 9a15de0d54c5ea9deec7f6fb263ab2490f28d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:36 +0000
Subject: [PATCH 080/181] fix: reading a cut-off segments file dereferenced
 NULL field infos and leaked

---
 c/src/index.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index c40daef..aa763fe 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -435,7 +435,7 @@ FieldInfos *fis_read(InStream *is)
             }
         } while (0);
     XCATCHALL
-        fis_deref(fis);
+        if (fis) fis_deref(fis);
     XENDTRY
 
     return fis;
@@ -597,6 +597,7 @@ static SegmentInfo *si_read(Store *store, InStream *is)
         }
         si->use_compound_file = (bool)is_read_byte(is);
     XCATCHALL
+        free(si->norm_gens);
         free(si->name);
         free(si);
     XENDTRY
-- 
2.43.0


From 029b623db5b3db61cbf6f6bcfa2e2dc401dabe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 081/181] fix: an exception passed on by a block inside a
 cleanup section ran that section again

---
 c/src/except.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/c/src/except.c b/c/src/except.c
index 4f47613..445ecb2 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -86,17 +86,13 @@ void xraise(int excode, const char *const msg)
 
 void xpop_context()
 {
-    xcontext_t *top_cxt, *context;
+    xcontext_t *top_cxt;
     thread_once(&exception_stack_key_once, *exception_stack_alloc);
     top_cxt = (xcontext_t *)thread_getspecific(exception_stack_key);
-    context = top_cxt->next;
-    thread_setspecific(exception_stack_key, context);
+    thread_setspecific(exception_stack_key, top_cxt->next);
     if (!top_cxt->handled) {
-        if (context) {
-            xraise_context(context, top_cxt->excode, top_cxt->msg);
-        }
-        else {
-            XEXIT(ERROR_TYPES[top_cxt->excode], top_cxt->msg);
-        }
+        /* as for any other exception: a cleanup section must not be entered
+         * again because of an exception raised while it runs */
+        xraise(top_cxt->excode, top_cxt->msg);
     }
 }
-- 
2.43.0


From 9fb0d871c599cb878617dcda74e3593b74e3003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 082/181] fix: closing an output stream that cannot be flushed
 leaked its file handle

---
 c/src/store.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/src/store.c b/c/src/store.c
index f79ac44..a1f1028 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -114,9 +114,12 @@ INLINE void os_flush(OutStream *os)
 
 void os_close(OutStream *os)
 {
-    os_flush(os);
-    os->m->close_i(os);
-    free(os);
+    TRY
+        os_flush(os);
+    XFINALLY
+        os->m->close_i(os);
+        free(os);
+    XENDTRY
 }
 
 off_t os_pos(OutStream *os)
-- 
2.43.0


From bd831082dfd1ae12b6547e0e5647290ac6aaad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 083/181] fix: errors of touch and close on the file system
 were missed or left half-closed streams, and a failed read printed the buffer
 as the file name

---
 c/src/fs_store.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b57a697..698a4d9 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -49,7 +49,7 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) == 0) {
+    if ((f = creat(path, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
@@ -284,18 +284,18 @@ static OutStream *fs_new_output(Store *store, const char *filename)
     return os;
 }
 
-static void fsi_read_i(InStream *is, uchar *path, int len)
+static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
     off_t pos = is_pos(is);
     if (pos != lseek(fd, 0, SEEK_CUR)) {
         lseek(fd, pos, SEEK_SET);
     }
-    if (read(fd, path, len) != len) {
+    if (read(fd, buf, len) != len) {
         /* win: the wrong value can be returned for some reason so double check */
         if (lseek(fd, 0, SEEK_CUR) != (pos + len)) {
             RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
-                  len, path, strerror(errno));
+                  len, is->d.path, strerror(errno));
         }
     }
 }
@@ -310,9 +310,8 @@ static void fsi_seek_i(InStream *is, off_t pos)
 
 static void fsi_close_i(InStream *is)
 {
-    if (close(is->file.fd)) {
-        RAISE(IO_ERROR, "%s", strerror(errno));
-    }
+    /* nothing can be lost in a file that was only read */
+    close(is->file.fd);
     free(is->d.path);
 }
 
-- 
2.43.0


From 8e31ce261ac8281f06640dad78481a55e3539ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 084/181] fix: writing a shorter file over an existing one kept
 the old file's end

---
 c/src/fs_store.c  | 2 +-
 c/src/ram_store.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 698a4d9..806f543 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -271,7 +271,7 @@ static OutStream *fs_new_output(Store *store, const char *filename)
 {
     char path[MAX_FILE_PATH];
     int fd = open(join_path(path, store->dir.path, filename),
-                  O_WRONLY | O_CREAT | O_BINARY, store->file_mode);
+                  O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, store->file_mode);
     OutStream *os;
     if (fd < 0) {
         RAISE(IO_ERROR, "couldn't create OutStream %s: <%s>",
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 3875b53..3f0d8c2 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -287,6 +287,7 @@ static OutStream *ram_new_output(Store *store, const char *filename)
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
+    rf->len = 0;
     REF(rf);
     os->pointer = 0;
     os->file.rf = rf;
-- 
2.43.0


From 94de3795077c538115e97e39092453e6af8373e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:42 +0000
Subject: [PATCH 085/181] fix: a touched file in a RAM store was listed under
 the caller's buffer

---
 c/src/ram_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 3f0d8c2..3cfe71d 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -40,7 +40,8 @@ static void rf_close(void *p)
 static void ram_touch(Store *store, const char *filename)
 {
     if (h_get(store->dir.ht, filename) == NULL) {
-        h_set(store->dir.ht, filename, rf_new(filename));
+        RAMFile *rf = rf_new(filename);
+        h_set(store->dir.ht, rf->name, rf);
     }
 }
 
-- 
2.43.0


From 265dbdbd95d2a5c5b3f23d71731872d2da160f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:22 +0000
Subject: [PATCH 086/181] fix: a failed open, a lock query or closing a store
 removed the write lock somebody else held

---
 c/include/store.h |  1 +
 c/src/fs_store.c  | 15 ++++++++-------
 c/src/index.c     |  7 ++++++-
 c/src/ram_store.c |  7 ++++++-
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/c/include/store.h b/c/include/store.h
index 34ba0ee..59b53b3 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -150,6 +150,7 @@ struct FrtLock
     int (*obtain)(FrtLock *lock);
     int (*is_locked)(FrtLock *lock);
     void (*release)(FrtLock *lock);
+    int is_held;                /* obtained through this object */
 };
 
 typedef struct FrtCompoundStore
diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 806f543..fce10e1 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -212,15 +212,10 @@ static void fs_clear_all(Store *store)
  * Destroy the store.
  *
  * @param p the store to destroy
- * @raise IO_ERROR if there is an error deleting the locks
  */
 static void fs_destroy(Store *store)
 {
-    TRY
-        fs_clear_locks(store);
-    XCATCHALL
-        HANDLED();
-    XENDTRY
+    /* only this store's own locks go: other processes may hold theirs */
     free(store->dir.path);
     store_destroy(store);
 }
@@ -364,6 +359,7 @@ static int fs_lock_obtain(Lock *lock)
     }
     if (f >= 0) {
         close(f);
+        lock->is_held = true;
         return true;
     }
     else {
@@ -389,6 +385,7 @@ static int fs_lock_is_locked(Lock *lock)
 static void fs_lock_release(Lock *lock)
 {
     remove(lock->name);
+    lock->is_held = false;
 }
 
 static Lock *fs_open_lock_i(Store *store, const char *lockname)
@@ -402,12 +399,16 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
     lock->obtain = &fs_lock_obtain;
     lock->release = &fs_lock_release;
     lock->is_locked = &fs_lock_is_locked;
+    lock->is_held = false;
     return lock;
 }
 
 static void fs_close_lock_i(Lock *lock)
 {
-    remove(lock->name);
+    /* somebody else may hold the lock */
+    if (lock->is_held) {
+        remove(lock->name);
+    }
     free(lock->name);
     free(lock);
 }
diff --git a/c/src/index.c b/c/src/index.c
index aa763fe..56be178 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3912,6 +3912,8 @@ static void ir_acquire_write_lock(IndexReader *ir)
     if (NULL == ir->write_lock) {
         ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
         if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
+            close_lock(ir->write_lock);
+            ir->write_lock = NULL;
             RAISE(LOCK_ERROR, "Could not obtain write lock when trying to "
                               "write changes to the index. Check that there "
                               "are no stale locks in the index. Look for "
@@ -6537,7 +6539,10 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
         REF(iw->fis);
     XCATCHALL
         if (iw->write_lock) {
-            iw->write_lock->release(iw->write_lock);
+            /* it may be somebody else who holds the lock */
+            if (iw->write_lock->is_held) {
+                iw->write_lock->release(iw->write_lock);
+            }
             close_lock(iw->write_lock);
             iw->write_lock = NULL;
         }
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 3cfe71d..136be92 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -387,7 +387,10 @@ static int ram_lock_obtain(Lock *lock)
     if (ram_exists(lock->store, lock->name)) {
         ret = false;
     }
-    ram_touch(lock->store, lock->name);
+    else {
+        ram_touch(lock->store, lock->name);
+        lock->is_held = true;
+    }
     return ret;
 }
 
@@ -399,6 +402,7 @@ static int ram_lock_is_locked(Lock *lock)
 static void ram_lock_release(Lock *lock)
 {
     ram_remove(lock->store, lock->name);
+    lock->is_held = false;
 }
 
 static Lock *ram_open_lock_i(Store *store, const char *lockname)
@@ -411,6 +415,7 @@ static Lock *ram_open_lock_i(Store *store, const char *lockname)
     lock->obtain = &ram_lock_obtain;
     lock->release = &ram_lock_release;
     lock->is_locked = &ram_lock_is_locked;
+    lock->is_held = false;
     return lock;
 }
 
-- 
2.43.0


From d1c0d0eae8f89d4fddbca7f7008445b78058f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:22 +0000
Subject: [PATCH 087/181] fix: failing to delete an obsolete file failed the
 commit that made it obsolete

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 56be178..8f6bca4 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3735,6 +3735,8 @@ void deleter_delete_file(Deleter *dlr, char *file_name)
         }
         hs_del(dlr->pending, file_name);
     XCATCHALL
+        /* the file stays behind for now, which does no harm */
+        HANDLED();
         hs_add(dlr->pending, estrdup(file_name));
     XENDTRY
 }
-- 
2.43.0


From ae7bc34c65223ea8240cdb7edc53acf1e48da657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:22 +0000
Subject: [PATCH 088/181] fix: opening an index looped for ever when looking
 for the previous segments file failed

---
 c/src/index.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 8f6bca4..55c4e7b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -984,10 +984,10 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-                if (store->exists(store, prev_seg_file_name)) {
-                    /* TODO:LOG "fallback to prior segment file '" +
-                     * prevSegmentFileName + "'" */
-                    TRY
+                TRY
+                    if (store->exists(store, prev_seg_file_name)) {
+                        /* TODO:LOG "fallback to prior segment file '" +
+                         * prevSegmentFileName + "'" */
                         fsf->generation = gen - 1;
                         run(store, fsf);
                         /* TODO:LOG "success on fallback " +
@@ -997,12 +997,13 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
                         RETURN_EARLY();
                         RETURN_EARLY();
                         return;
-                    case IO_ERROR: case FILE_NOT_FOUND_ERROR: case EOF_ERROR:
-                        HANDLED();
-                        /* TODO:LOG "secondary Exception on '" +
-                         * prev_seg_file_name + "': " + err2 + "'; will retry"*/
-                    XENDTRY
-                }
+                    }
+                    break;
+                case IO_ERROR: case FILE_NOT_FOUND_ERROR: case EOF_ERROR:
+                    HANDLED();
+                    /* TODO:LOG "secondary Exception on '" +
+                     * prev_seg_file_name + "': " + err2 + "'; will retry"*/
+                XENDTRY
             }
         XENDTRY
     }
-- 
2.43.0


From 6c1c2c3c7f7ff78b5f250697e7ea399c8c330ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 089/181] fix: a failed update left the writer locked and in a
 state that closing it would commit

---
 c/include/index.h |   1 +
 c/src/index.c     | 282 ++++++++++++++++++++++++++--------------------
 2 files changed, 161 insertions(+), 122 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 8600c69..8b232cf 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -889,6 +889,7 @@ struct FrtIndexWriter
     FrtSimilarity *similarity;
     FrtLock *write_lock;
     FrtDeleter *deleter;
+    bool is_broken;             /* an update failed half-way */
 };
 
 extern void frt_index_create(FrtStore *store, FrtFieldInfos *fis);
diff --git a/c/src/index.c b/c/src/index.c
index 55c4e7b..f5870d7 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1847,11 +1847,14 @@ FieldsWriter *fw_open(Store *store, const char *segment, FieldInfos *fis)
 
 void fw_close(FieldsWriter *fw)
 {
-    os_close(fw->fdt_out);
-    os_close(fw->fdx_out);
-    ram_destroy_buffer(fw->buffer);
-    ary_free(fw->tv_fields);
-    free(fw);
+    TRY
+        os_close(fw->fdt_out);
+    XFINALLY
+        os_close(fw->fdx_out);
+        ram_destroy_buffer(fw->buffer);
+        ary_free(fw->tv_fields);
+        free(fw);
+    XENDTRY
 }
 
 #ifdef USE_ZLIB
@@ -5404,9 +5407,10 @@ static PostingList **dw_sort_postings(Hash *plists_ht)
 
 static void dw_flush_streams(DocWriter *dw)
 {
+    FieldsWriter *fw = dw->fw;
     mp_reset(dw->mp);
-    fw_close(dw->fw);
     dw->fw = NULL;
+    fw_close(fw);
     h_clear(dw->fields);
     dw->doc_num = 0;
 }
@@ -6276,10 +6280,22 @@ static void iw_commit_compound_file(IndexWriter *iw, SegmentInfo *si)
     iw_create_compound_file(iw->store, iw->fis, si, cfs_name, iw->deleter);
 }
 
+/* commit the segments file, with +si+, the segment just written, if any. Call
+ * with the store's mutex locked */
+static void iw_write_segments(IndexWriter *iw, SegmentInfo *si)
+{
+    if (si && iw->config.use_compound_file) {
+        iw_commit_compound_file(iw, si);
+        si->use_compound_file = true;
+    }
+    sis_write(iw->sis, iw->store, iw->deleter);
+    deleter_commit_pending_deletions(iw->deleter);
+}
+
 static void iw_merge_segments(IndexWriter *iw, const int min_seg,
                               const int max_seg)
 {
-    int i;
+    volatile int i;
     SegmentInfos *sis = iw->sis;
     SegmentInfo *si = sis_new_segment(sis, 0, iw->store);
 
@@ -6290,22 +6306,18 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
     si->doc_cnt = sm_merge(merger);
 
     mutex_lock(&iw->store->mutex);
-    /* delete merged segments */
-    for (i = min_seg; i < max_seg; i++) {
-        si_delete_files(sis->segs[i], iw->fis, iw->deleter);
-    }
+    TRY
+        /* delete merged segments */
+        for (i = min_seg; i < max_seg; i++) {
+            si_delete_files(sis->segs[i], iw->fis, iw->deleter);
+        }
 
-    sis_del_from_to(sis, min_seg, max_seg);
+        sis_del_from_to(sis, min_seg, max_seg);
 
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-
-    sis_write(sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
-
-    mutex_unlock(&iw->store->mutex);
+        iw_write_segments(iw, si);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     sm_destroy(merger);
 }
@@ -6356,23 +6368,50 @@ static void iw_flush_ram_segment(IndexWriter *iw)
     dw_flush(iw->dw);
 
     mutex_lock(&iw->store->mutex);
+    TRY
+        iw_write_segments(iw, si);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
+    iw_maybe_merge_segments(iw);
+}
 
-    mutex_unlock(&iw->store->mutex);
+/*
+ * Every update runs between iw_start_update and iw_finish_update, within a
+ * TRY block which unlocks the writer. An update which fails half-way, because
+ * the disk is full, for example, leaves the writer's buffers and its list of
+ * segments in no state to be committed. From then on the writer can only be
+ * closed, and the index stays as it was last committed.
+ */
+static void iw_start_update(IndexWriter *iw)
+{
+    if (iw->is_broken) {
+        RAISE(STATE_ERROR, "An earlier update through this IndexWriter failed. "
+                           "It can only be closed; the index itself is as it "
+                           "was last committed");
+    }
+    iw->is_broken = true;
+}
 
-    iw_maybe_merge_segments(iw);
+static void iw_finish_update(IndexWriter *iw)
+{
+    iw->is_broken = false;
 }
 
-void iw_add_doc(IndexWriter *iw, Document *doc)
+#define IW_UPDATE_BEGIN(iw)\
+    mutex_lock(&iw->mutex);\
+    TRY\
+        iw_start_update(iw)
+
+#define IW_UPDATE_END(iw)\
+        iw_finish_update(iw);\
+    XFINALLY\
+        mutex_unlock(&iw->mutex);\
+    XENDTRY
+
+static void iw_add_doc_i(IndexWriter *iw, Document *doc)
 {
-    mutex_lock(&iw->mutex);
     if (NULL == iw->dw) {
         iw->dw = dw_open(iw, sis_new_segment(iw->sis, 0, iw->store));
     }
@@ -6384,7 +6423,13 @@ void iw_add_doc(IndexWriter *iw, Document *doc)
         || iw->dw->doc_num >= iw->config.max_buffered_docs) {
         iw_flush_ram_segment(iw);
     }
-    mutex_unlock(&iw->mutex);
+}
+
+void iw_add_doc(IndexWriter *iw, Document *doc)
+{
+    IW_UPDATE_BEGIN(iw);
+    iw_add_doc_i(iw, doc);
+    IW_UPDATE_END(iw);
 }
 
 static void iw_commit_i(IndexWriter *iw)
@@ -6396,81 +6441,59 @@ static void iw_commit_i(IndexWriter *iw)
 
 void iw_commit(IndexWriter *iw)
 {
-    mutex_lock(&iw->mutex);
+    IW_UPDATE_BEGIN(iw);
     iw_commit_i(iw);
-    mutex_unlock(&iw->mutex);
+    IW_UPDATE_END(iw);
 }
 
-void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
+static void iw_delete_terms_i(IndexWriter *iw, int field_num,
+                              char **terms, const int term_cnt)
 {
-    int field_num = fis_get_field_num(iw->fis, field);
-    if (field_num >= 0) {
-        int i;
-        mutex_lock(&iw->mutex);
-        iw_commit_i(iw);
-        do {
-            SegmentInfos *sis = iw->sis;
-            const int seg_cnt = sis->size;
-            bool did_delete = false;
-            for (i = 0; i < seg_cnt; i++) {
-                IndexReader *ir = sr_open(sis, iw->fis, i, false);
-                TermDocEnum *tde = ir->term_docs(ir);
-                ir->deleter = iw->deleter;
-                stde_seek(tde, field_num, term);
-                while (tde->next(tde)) {
-                    did_delete = true;
-                    sr_delete_doc_i(ir, STDE(tde)->doc_num);
-                }
-                tde_destroy(tde);
-                sr_commit_i(ir);
-                ir_close(ir);
-            }
-            if (did_delete) {
-                mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+    SegmentInfos *sis = iw->sis;
+    int i;
+    bool did_delete = false;
+
+    iw_commit_i(iw);
+    for (i = 0; i < sis->size; i++) {
+        IndexReader *ir = sr_open(sis, iw->fis, i, false);
+        TermDocEnum *tde = ir->term_docs(ir);
+        int j;
+        for (j = 0 ; j < term_cnt; j++) {
+            const char *term = terms[j];
+            ir->deleter = iw->deleter;
+            stde_seek(tde, field_num, term);
+            while (tde->next(tde)) {
+                did_delete = true;
+                sr_delete_doc_i(ir, STDE(tde)->doc_num);
             }
-        } while (0);
-        mutex_unlock(&iw->mutex);
+        }
+        tde_destroy(tde);
+        sr_commit_i(ir);
+        ir_close(ir);
+    }
+    if (did_delete) {
+        mutex_lock(&iw->store->mutex);
+        TRY
+            sis_write(iw->sis, iw->store, iw->deleter);
+        XFINALLY
+            mutex_unlock(&iw->store->mutex);
+        XENDTRY
     }
 }
 
+void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
+{
+    iw_delete_terms(iw, field, (char **)&term, 1);
+}
+
 void iw_delete_terms(IndexWriter *iw, Symbol field,
                      char **terms, const int term_cnt)
 {
     int field_num = fis_get_field_num(iw->fis, field);
     if (field_num >= 0) {
-        int i;
-        mutex_lock(&iw->mutex);
-        iw_commit_i(iw);
-        do {
-            SegmentInfos *sis = iw->sis;
-            const int seg_cnt = sis->size;
-            bool did_delete = false;
-            for (i = 0; i < seg_cnt; i++) {
-                IndexReader *ir = sr_open(sis, iw->fis, i, false);
-                TermDocEnum *tde = ir->term_docs(ir);
-                int j;
-                for (j = 0 ; j < term_cnt; j++) {
-                    const char *term = terms[j];
-                    ir->deleter = iw->deleter;
-                    stde_seek(tde, field_num, term);
-                    while (tde->next(tde)) {
-                        did_delete = true;
-                        sr_delete_doc_i(ir, STDE(tde)->doc_num);
-                    }
-                }
-                tde_destroy(tde);
-                sr_commit_i(ir);
-                ir_close(ir);
-            }
-            if (did_delete) {
-                mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
-            }
-        } while (0);
-        mutex_unlock(&iw->mutex);
+        IW_UPDATE_BEGIN(iw);
+        iw_delete_terms_i(iw, field_num, terms, term_cnt);
+        IW_UPDATE_END(iw);
     }
 }
 
@@ -6492,31 +6515,42 @@ static void iw_optimize_i(IndexWriter *iw)
 
 void iw_optimize(IndexWriter *iw)
 {
-    mutex_lock(&iw->mutex);
+    IW_UPDATE_BEGIN(iw);
     iw_optimize_i(iw);
-    mutex_unlock(&iw->mutex);
+    IW_UPDATE_END(iw);
 }
 
 void iw_close(IndexWriter *iw)
 {
     mutex_lock(&iw->mutex);
-    iw_commit_i(iw);
-    if (iw->dw) {
-        dw_close(iw->dw);
-    }
-    a_deref(iw->analyzer);
-    sis_destroy(iw->sis);
-    fis_deref(iw->fis);
-    sim_destroy(iw->similarity);
+    TRY
+        /* what a failed update left behind is not to be committed */
+        if (!iw->is_broken) {
+            iw_start_update(iw);
+            iw_commit_i(iw);
+            iw_finish_update(iw);
+        }
+    XFINALLY
+        if (iw->dw) {
+            if (iw->is_broken) {
+                iw->dw->doc_num = 0;
+            }
+            dw_close(iw->dw);
+        }
+        a_deref(iw->analyzer);
+        sis_destroy(iw->sis);
+        fis_deref(iw->fis);
+        sim_destroy(iw->similarity);
 
-    iw->write_lock->release(iw->write_lock);
-    close_lock(iw->write_lock);
-    iw->write_lock = NULL;
-    store_deref(iw->store);
-    deleter_destroy(iw->deleter);
+        iw->write_lock->release(iw->write_lock);
+        close_lock(iw->write_lock);
+        iw->write_lock = NULL;
+        store_deref(iw->store);
+        deleter_destroy(iw->deleter);
 
-    mutex_destroy(&iw->mutex);
-    free(iw);
+        mutex_destroy(&iw->mutex);
+        free(iw);
+    XENDTRY
 }
 
 IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
@@ -6540,6 +6574,9 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
         iw->sis = sis_read(store);
         iw->fis = iw->sis->fis;
         REF(iw->fis);
+
+        iw->deleter = deleter_new(iw->sis, store);
+        deleter_delete_deletable_files(iw->deleter);
     XCATCHALL
         if (iw->write_lock) {
             /* it may be somebody else who holds the lock */
@@ -6549,6 +6586,8 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
             close_lock(iw->write_lock);
             iw->write_lock = NULL;
         }
+        if (iw->deleter) deleter_destroy(iw->deleter);
+        if (iw->fis) fis_deref(iw->fis);
         if (iw->sis) sis_destroy(iw->sis);
         if (analyzer) a_deref((Analyzer *)analyzer);
         free(iw);
@@ -6558,9 +6597,6 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     iw->analyzer = analyzer ? (Analyzer *)analyzer
                             : mb_standard_analyzer_new(true);
 
-    iw->deleter = deleter_new(iw->sis, store);
-    deleter_delete_deletable_files(iw->deleter);
-
     REF(store);
     return iw;
 }
@@ -6829,8 +6865,8 @@ static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
 
 void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
 {
-    int i;
-    mutex_lock(&iw->mutex);
+    volatile int i;
+    IW_UPDATE_BEGIN(iw);
     iw_optimize_i(iw);
 
     for (i = 0; i < r_cnt; i++) {
@@ -6838,11 +6874,13 @@ void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
     }
 
     mutex_lock(&iw->store->mutex);
-
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_optimize_i(iw);
-    mutex_unlock(&iw->mutex);
+    IW_UPDATE_END(iw);
 }
-- 
2.43.0


From 52f8ea495e1c6aeb55b8065b631054be77abd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:20 +0000
Subject: [PATCH 090/181] fix: a failed change or commit left the reader
 locked, leaked it and its write lock, and replaced files stayed behind

---
 c/src/index.c | 179 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 111 insertions(+), 68 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index f5870d7..a94a969 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3905,9 +3905,23 @@ static void ir_acquire_not_necessary(IndexReader *ir)
     (void)ir;
 }
 
+static void ir_release_write_lock(IndexReader *ir)
+{
+    if (NULL != ir->write_lock) {
+        Lock *write_lock = ir->write_lock;
+        ir->write_lock = NULL;
+        TRY
+            write_lock->release(write_lock);
+        XFINALLY
+            close_lock(write_lock);
+        XENDTRY
+    }
+}
+
 #define I64_PFX POSH_I64_PRINTF_PREFIX
 static void ir_acquire_write_lock(IndexReader *ir)
 {
+    volatile i64 version = 0;
     if (ir->is_stale) {
         RAISE(STATE_ERROR, "IndexReader out of date and no longer valid for "
                            "delete, undelete, or set_norm operations. To "
@@ -3930,19 +3944,21 @@ static void ir_acquire_write_lock(IndexReader *ir)
 
         /* we have to check whether index has changed since this reader was
          * opened.  if so, this reader is no longer valid for deletion */
-        if (sis_read_current_version(ir->store) > ir->sis->version) {
+        TRY
+            version = sis_read_current_version(ir->store);
+        XCATCHALL
+            ir_release_write_lock(ir);
+        XENDTRY
+        if (version > ir->sis->version) {
             ir->is_stale = true;
-            ir->write_lock->release(ir->write_lock);
-            close_lock(ir->write_lock);
-            ir->write_lock = NULL;
+            ir_release_write_lock(ir);
             RAISE(STATE_ERROR, "IndexReader out of date and no longer valid "
                                "for delete, undelete, or set_norm operations. "
                                "The current version is <%"I64_PFX"d>, but this "
                                "readers version is <%"I64_PFX"d>. To perform "
                                "any of these operations on the index you need "
                                "to close and reopen the index",
-                               sis_read_current_version(ir->store),
-                               ir->sis->version);
+                               version, ir->sis->version);
         }
     }
 }
@@ -4001,10 +4017,13 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->set_norm_i(ir, doc_num, field_num, val);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->set_norm_i(ir, doc_num, field_num, val);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
@@ -4051,20 +4070,26 @@ uchar *ir_get_norms_into(IndexReader *ir, Symbol field, uchar *buf)
 void ir_undelete_all(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->undelete_all_i(ir);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->undelete_all_i(ir);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_delete_doc(IndexReader *ir, int doc_num)
 {
     if (doc_num >= 0 && doc_num < ir->max_doc(ir)) {
         mutex_lock(&ir->mutex);
-        ir->acquire_write_lock(ir);
-        ir->delete_doc_i(ir, doc_num);
-        ir->has_changes = true;
-        mutex_unlock(&ir->mutex);
+        TRY
+            ir->acquire_write_lock(ir);
+            ir->delete_doc_i(ir, doc_num);
+            ir->has_changes = true;
+        XFINALLY
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
 }
 
@@ -4137,22 +4162,22 @@ static void ir_commit_i(IndexReader *ir)
         if (ir->is_owner) {
             char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
+            TRY
+                sis_curr_seg_file_name(curr_seg_fn, ir->store);
 
-            sis_curr_seg_file_name(curr_seg_fn, ir->store);
-
-            ir->commit_i(ir);
-            sis_write(ir->sis, ir->store, ir->deleter);
+                ir->commit_i(ir);
+                sis_write(ir->sis, ir->store, ir->deleter);
 
-            if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
-
-            mutex_unlock(&ir->store->mutex);
+                if (ir->deleter) {
+                    deleter_delete_file(ir->deleter, curr_seg_fn);
+                    /* the files replaced by this commit */
+                    deleter_commit_pending_deletions(ir->deleter);
+                }
+            XFINALLY
+                mutex_unlock(&ir->store->mutex);
+            XENDTRY
 
-            if (NULL != ir->write_lock) {
-                /* release write lock */
-                ir->write_lock->release(ir->write_lock);
-                close_lock(ir->write_lock);
-                ir->write_lock = NULL;
-            }
+            ir_release_write_lock(ir);
         }
         else {
             ir->commit_i(ir);
@@ -4164,36 +4189,45 @@ static void ir_commit_i(IndexReader *ir)
 void ir_commit(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir_commit_i(ir);
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir_commit_i(ir);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_close(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
     if (0 == --(ir->ref_cnt)) {
-        ir_commit_i(ir);
-        ir->close_i(ir);
-        if (ir->store) {
-            store_deref(ir->store);
-        }
-        if (ir->is_owner && ir->sis) {
-            sis_destroy(ir->sis);
-        }
-        if (ir->cache) {
-            h_destroy(ir->cache);
-        }
-        if (ir->field_index_cache) {
-            h_destroy(ir->field_index_cache);
-        }
-        if (ir->deleter && ir->is_owner) {
-            deleter_destroy(ir->deleter);
-        }
-        free(ir->fake_norms);
+        TRY
+            ir_commit_i(ir);
+        XFINALLY
+            /* the reader is gone even if its changes can't be committed */
+            ir_release_write_lock(ir);
+            ir->close_i(ir);
+            if (ir->store) {
+                store_deref(ir->store);
+            }
+            if (ir->is_owner && ir->sis) {
+                sis_destroy(ir->sis);
+            }
+            if (ir->cache) {
+                h_destroy(ir->cache);
+            }
+            if (ir->field_index_cache) {
+                h_destroy(ir->field_index_cache);
+            }
+            if (ir->deleter && ir->is_owner) {
+                deleter_destroy(ir->deleter);
+            }
+            free(ir->fake_norms);
 
-        mutex_destroy(&ir->mutex);
-        mutex_destroy(&ir->field_index_mutex);
-        free(ir);
+            mutex_unlock(&ir->mutex);
+            mutex_destroy(&ir->mutex);
+            mutex_destroy(&ir->field_index_mutex);
+            free(ir);
+        XENDTRY
     }
     else {
         mutex_unlock(&ir->mutex);
@@ -4261,8 +4295,11 @@ static void norm_rewrite(Norm *norm, Store *store, Deleter *dlr,
     si_advance_norm_gen(si, field_num);
     si_norm_file_name(si, norm_file_name, field_num);
     os = store->new_output(store, norm_file_name);
-    os_write_bytes(os, norm->bytes, doc_count);
-    os_close(os);
+    TRY
+        os_write_bytes(os, norm->bytes, doc_count);
+    XFINALLY
+        os_close(os);
+    XENDTRY
     norm->is_dirty = false;
 }
 
@@ -4388,11 +4425,14 @@ static void bv_write(BitVector *bv, Store *store, char *name)
 {
     int i;
     OutStream *os = store->new_output(store, name);
-    os_write_vint(os, bv->size);
-    for (i = ((bv->size-1) >> 5); i >= 0; i--) {
-        os_write_u32(os, bv->bits[i]);
-    }
-    os_close(os);
+    TRY
+        os_write_vint(os, bv->size);
+        for (i = ((bv->size-1) >> 5); i >= 0; i--) {
+            os_write_u32(os, bv->bits[i]);
+        }
+    XFINALLY
+        os_close(os);
+    XENDTRY
 }
 
 static BitVector *bv_read(Store *store, char *name)
@@ -4401,11 +4441,11 @@ static BitVector *bv_read(Store *store, char *name)
     volatile bool success = false;
     InStream *volatile is = store->open_input(store, name);
     BitVector *volatile bv = ALLOC_AND_ZERO(BitVector);
-    bv->size = (int)is_read_vint(is);
-    bv->capa = (bv->size >> 5) + 1;
-    bv->bits = ALLOC_AND_ZERO_N(u32, bv->capa);
     bv->ref_cnt = 1;
     TRY
+        bv->size = (int)is_read_vint(is);
+        bv->capa = (bv->size >> 5) + 1;
+        bv->bits = ALLOC_AND_ZERO_N(u32, bv->capa);
         for (i = ((bv->size-1) >> 5); i >= 0; i--) {
             bv->bits[i] = is_read_u32(is);
         }
@@ -4436,15 +4476,18 @@ static void sr_commit_i(IndexReader *ir)
         }
         if (SR(ir)->undelete_all) {
             si->del_gen = -1;
-            SR(ir)->undelete_all = false;
         }
         else {
             /* (SR(ir)->deleted_docs_dirty) re-write deleted */
-            si->del_gen++;
-            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
+            do {
+                /* never write over a file of an earlier commit */
+                si->del_gen++;
+                fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
+            } while (ir->store->exists(ir->store, tmp_file_name));
             bv_write(SR(ir)->deleted_docs, ir->store, tmp_file_name);
-            SR(ir)->deleted_docs_dirty = false;
         }
+        SR(ir)->undelete_all = false;
+        SR(ir)->deleted_docs_dirty = false;
     }
     if (SR(ir)->norms_dirty) { /* re-write norms */
         int i;
-- 
2.43.0


From 2959b174f15c69f5fe0cdd219fa6ef7e78c6cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:20 +0000
Subject: [PATCH 091/181] fix: norms set through a reader of several indexes
 stayed cached under another field's number

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index a94a969..11231a3 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4963,7 +4963,7 @@ static void mr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val
     if (fnum >= 0) {
         IndexReader *reader = MR(ir)->sub_readers[i];
         ir->has_changes = true;
-        h_del_int(MR(ir)->norms_cache, fnum);/* clear cache */
+        h_del_int(MR(ir)->norms_cache, field_num);/* clear cache */
         ir_set_norm_i(reader, doc_num - MR(ir)->starts[i], fnum, val);
     }
 }
-- 
2.43.0


From 34ea8fe0e0438ced25539ba3ff4d1f50aba5fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:20 +0000
Subject: [PATCH 092/181] fix: deleting through a reader of several indexes
 changed them without their write lock

---
 c/src/index.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 11231a3..6b26f93 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4973,8 +4973,9 @@ static void mr_delete_doc_i(IndexReader *ir, int doc_num)
     GET_READER();
     MR(ir)->num_docs_cache = -1; /* invalidate cache */
 
-    /* dispatch to segment reader */
-    reader->delete_doc_i(reader, doc_num - MR(ir)->starts[i]);
+    /* dispatch to segment reader, which may be of another index and so need
+     * to lock that */
+    ir_delete_doc(reader, doc_num - MR(ir)->starts[i]);
     MR(ir)->has_deletions = true;
     ir->has_changes = true;
 }
@@ -4987,7 +4988,7 @@ static void mr_undelete_all_i(IndexReader *ir)
     MR(ir)->num_docs_cache = -1;                     /* invalidate cache */
     for (i = 0; i < mr_reader_cnt; i++) {
         IndexReader *reader = MR(ir)->sub_readers[i];
-        reader->undelete_all_i(reader);
+        ir_undelete_all(reader);
     }
     MR(ir)->has_deletions = false;
     ir->has_changes = true;
-- 
2.43.0


From 28d2e2f68f0c0c802c29b79b8514b8e0ea18e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:24 +0000
Subject: [PATCH 093/181] fix: after a failed read an input stream returned
 what its buffer happened to hold

---
 c/src/store.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/src/store.c b/c/src/store.c
index a1f1028..49187d6 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -209,21 +209,24 @@ static void is_refill(InStream *is)
     off_t start = is->buf.start + is->buf.pos;
     off_t last = start + BUFFER_SIZE;
     off_t flen = is->m->length_i(is);
+    off_t len;
 
     if (last > flen) {          /* don't read past EOF */
         last = flen;
     }
 
-    is->buf.len = last - start;
-    if (is->buf.len <= 0) {
+    len = last - start;
+    if (len <= 0) {
         RAISE(EOF_ERROR, "current pos = %"OFF_T_PFX"d, "
               "file length = %"OFF_T_PFX"d", start, flen);
     }
 
-    is->m->read_i(is, is->buf.buf, is->buf.len);
-
+    /* nothing in the buffer is valid should this fail */
     is->buf.start = start;
     is->buf.pos = 0;
+    is->buf.len = 0;
+    is->m->read_i(is, is->buf.buf, len);
+    is->buf.len = len;
 }
 
 /**
-- 
2.43.0


From 4abd501f559e068dae33f110b3bfbe15f77f817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:24 +0000
Subject: [PATCH 094/181] fix: a read from a file could take data from a wrong
 position, and was not an end of file error at the end of it

---
 c/src/fs_store.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index fce10e1..dccf6b1 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -1,3 +1,6 @@
+#ifndef _XOPEN_SOURCE
+# define _XOPEN_SOURCE 600       /* for pread */
+#endif
 #include "store.h"
 #include "lang.h"
 #include <time.h>
@@ -283,8 +286,10 @@ static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
     off_t pos = is_pos(is);
-    if (pos != lseek(fd, 0, SEEK_CUR)) {
-        lseek(fd, pos, SEEK_SET);
+#ifdef POSH_OS_WIN32
+    if (pos != lseek(fd, 0, SEEK_CUR) && lseek(fd, pos, SEEK_SET) != pos) {
+        RAISE(IO_ERROR, "couldn't seek in %s: <%s>",
+              is->d.path, strerror(errno));
     }
     if (read(fd, buf, len) != len) {
         /* win: the wrong value can be returned for some reason so double check */
@@ -293,6 +298,26 @@ static void fsi_read_i(InStream *is, uchar *buf, int len)
                   len, is->d.path, strerror(errno));
         }
     }
+#else
+    /* the file's own position is shared by all clones of this stream */
+    while (len > 0) {
+        ssize_t n = pread(fd, buf, len, pos);
+        if (n < 0 && EINTR == errno) {
+            continue;
+        }
+        if (n < 0) {
+            RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
+                  len, is->d.path, strerror(errno));
+        }
+        if (n == 0) {
+            RAISE(EOF_ERROR, "tried to read %d chars past the end of %s",
+                  len, is->d.path);
+        }
+        buf += n;
+        pos += n;
+        len -= (int)n;
+    }
+#endif
 }
 
 static void fsi_seek_i(InStream *is, off_t pos)
-- 
2.43.0


From 10403286b8fd7a63304509a7af3ec6efad287242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:25 +0000
Subject: [PATCH 095/181] fix: a failed read left the reader locked, its term
 index half read and its norms marked for rewriting, and the term index was
 published to other threads before it was read

---
 c/src/index.c | 132 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 87 insertions(+), 45 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 6b26f93..3dd30be 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2086,7 +2086,7 @@ static char *te_skip_to(TermEnum *te, const char *term)
  * SegmentTermIndex
  ****************************************************************************/
 
-static void sti_destroy(SegmentTermIndex *sti)
+static void sti_clear_index(SegmentTermIndex *sti)
 {
     if (sti->index_terms) {
         int i;
@@ -2098,7 +2098,13 @@ static void sti_destroy(SegmentTermIndex *sti)
         free(sti->index_term_lens);
         free(sti->index_term_infos);
         free(sti->index_ptrs);
+        sti->index_terms = NULL;
     }
+}
+
+static void sti_destroy(SegmentTermIndex *sti)
+{
+    sti_clear_index(sti);
     free(sti);
 }
 
@@ -2113,7 +2119,7 @@ static void sti_ensure_index_is_read(SegmentTermIndex *sti,
         is_seek(STE(index_te)->is, sti->index_ptr);
         STE(index_te)->size = sti->index_cnt;
 
-        sti->index_terms = ALLOC_N(char *, index_cnt);
+        sti->index_terms = ALLOC_AND_ZERO_N(char *, index_cnt);
         sti->index_term_lens = ALLOC_N(int, index_cnt);
         sti->index_term_infos = ALLOC_N(TermInfo, index_cnt);
         sti->index_ptrs = ALLOC_N(off_t, index_cnt);
@@ -2160,13 +2166,18 @@ static int sti_get_index_offset(SegmentTermIndex *sti, const char *term)
  * SegmentFieldIndex
  ****************************************************************************/
 
-#define SFI_ENSURE_INDEX_IS_READ(sfi, sti) do {\
-    if (NULL == sti->index_terms) {\
-        mutex_lock(&sfi->mutex);\
-        sti_ensure_index_is_read(sti, sfi->index_te);\
-        mutex_unlock(&sfi->mutex);\
-    }\
-} while (0)
+static void sfi_ensure_index_is_read(SegmentFieldIndex *sfi,
+                                     SegmentTermIndex *sti)
+{
+    mutex_lock(&sfi->mutex);
+    TRY
+        sti_ensure_index_is_read(sti, sfi->index_te);
+    XCATCHALL
+        sti_clear_index(sti);
+        mutex_unlock(&sfi->mutex);
+    XENDTRY
+    mutex_unlock(&sfi->mutex);
+}
 
 SegmentFieldIndex *sfi_open(Store *store, const char *segment)
 {
@@ -2292,7 +2303,7 @@ static char *ste_scan_to(TermEnum *te, const char *term)
     SegmentTermIndex *sti
         = (SegmentTermIndex *)h_get_int(sfi->field_dict, te->field_num);
     if (sti && sti->size > 0) {
-        SFI_ENSURE_INDEX_IS_READ(sfi, sti);
+        sfi_ensure_index_is_read(sfi, sti);
         if (term[0] == '\0') {
             ste_index_seek(te, sti, 0);
             return ste_next(te);;
@@ -2366,7 +2377,7 @@ static char *ste_get_term(TermEnum *te, int pos)
         if ((pos < ste->pos) || pos > (1 + ste->pos / idx_int) * idx_int) {
             SegmentTermIndex *sti = (SegmentTermIndex *)h_get_int(
                 ste->sfi->field_dict, te->field_num);
-            SFI_ENSURE_INDEX_IS_READ(ste->sfi, sti);
+            sfi_ensure_index_is_read(ste->sfi, sti);
             ste_index_seek(te, sti, pos / idx_int);
         }
         while (ste->pos < pos) {
@@ -4360,10 +4371,13 @@ static INLINE void sr_get_norms_into_i(SegmentReader *sr, int field_num,
     }
     else {
         InStream *norm_in = is_clone(norm->is);
-        /* read from disk */
-        is_seek(norm_in, 0);
-        is_read_bytes(norm_in, buf, SR_SIZE(sr));
-        is_close(norm_in);
+        TRY
+            /* read from disk */
+            is_seek(norm_in, 0);
+            is_read_bytes(norm_in, buf, SR_SIZE(sr));
+        XFINALLY
+            is_close(norm_in);
+        XENDTRY
     }
 }
 
@@ -4376,7 +4390,11 @@ static INLINE uchar *sr_get_norms_i(SegmentReader *sr, int field_num)
 
     if (NULL == norm->bytes) {                    /* value not yet read */
         uchar *bytes = ALLOC_N(uchar, SR_SIZE(sr));
-        sr_get_norms_into_i(sr, field_num, bytes);
+        TRY
+            sr_get_norms_into_i(sr, field_num, bytes);
+        XCATCHALL
+            free(bytes);
+        XENDTRY
         norm->bytes = bytes;                        /* cache it */
     }
     return norm->bytes;
@@ -4386,10 +4404,11 @@ static void sr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar b)
 {
     Norm *norm = (Norm *)h_get_int(SR(ir)->norms, field_num);
     if (NULL != norm) { /* has_norms */
+        uchar *norms = sr_get_norms_i(SR(ir), field_num);
         ir->has_changes = true;
         norm->is_dirty = true; /* mark it dirty */
         SR(ir)->norms_dirty = true;
-        sr_get_norms_i(SR(ir), field_num)[doc_num] = b;
+        norms[doc_num] = b;
     }
 }
 
@@ -4546,36 +4565,45 @@ static int sr_max_doc(IndexReader *ir)
 
 static Document *sr_get_doc(IndexReader *ir, int doc_num)
 {
-    Document *doc;
+    Document *doc = NULL;
     mutex_lock(&ir->mutex);
     if (sr_is_deleted_i(SR(ir), doc_num)) {
         mutex_unlock(&ir->mutex);
         RAISE(STATE_ERROR, "Document %d has already been deleted", doc_num);
     }
-    doc = fr_get_doc(SR(ir)->fr, doc_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        doc = fr_get_doc(SR(ir)->fr, doc_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return doc;
 }
 
 static LazyDoc *sr_get_lazy_doc(IndexReader *ir, int doc_num)
 {
-    LazyDoc *lazy_doc;
+    LazyDoc *lazy_doc = NULL;
     mutex_lock(&ir->mutex);
     if (sr_is_deleted_i(SR(ir), doc_num)) {
         mutex_unlock(&ir->mutex);
         RAISE(STATE_ERROR, "Document %d has already been deleted", doc_num);
     }
-    lazy_doc = fr_get_lazy_doc(SR(ir)->fr, doc_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        lazy_doc = fr_get_lazy_doc(SR(ir)->fr, doc_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return lazy_doc;
 }
 
 static uchar *sr_get_norms(IndexReader *ir, int field_num)
 {
-    uchar *norms;
+    uchar *norms = NULL;
     mutex_lock(&ir->mutex);
-    norms = sr_get_norms_i(SR(ir), field_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        norms = sr_get_norms_i(SR(ir), field_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return norms;
 }
 
@@ -4583,8 +4611,11 @@ static uchar *sr_get_norms_into(IndexReader *ir, int field_num,
                               uchar *buf)
 {
     mutex_lock(&ir->mutex);
-    sr_get_norms_into_i(SR(ir), field_num, buf);
-    mutex_unlock(&ir->mutex);
+    TRY
+        sr_get_norms_into_i(SR(ir), field_num, buf);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return buf;
 }
 
@@ -4846,7 +4877,7 @@ int mr_get_field_num(MultiReader *mr, int ir_num, int f_num)
 
 static uchar *mr_get_norms(IndexReader *ir, int field_num)
 {
-    uchar *bytes;
+    uchar *volatile bytes;
 
     mutex_lock(&ir->mutex);
     bytes = (uchar *)h_get_int(MR(ir)->norms_cache, field_num);
@@ -4856,13 +4887,19 @@ static uchar *mr_get_norms(IndexReader *ir, int field_num)
 
         bytes = ALLOC_AND_ZERO_N(uchar, MR(ir)->max_doc);
 
-        for (i = 0; i < mr_reader_cnt; i++) {
-            int fnum = mr_get_field_num(MR(ir), i, field_num);
-            if (fnum >= 0) {
-                IndexReader *reader = MR(ir)->sub_readers[i];
-                reader->get_norms_into(reader, fnum, bytes + MR(ir)->starts[i]);
+        TRY
+            for (i = 0; i < mr_reader_cnt; i++) {
+                int fnum = mr_get_field_num(MR(ir), i, field_num);
+                if (fnum >= 0) {
+                    IndexReader *reader = MR(ir)->sub_readers[i];
+                    reader->get_norms_into(reader, fnum,
+                                           bytes + MR(ir)->starts[i]);
+                }
             }
-        }
+        XCATCHALL
+            free(bytes);
+            mutex_unlock(&ir->mutex);
+        XENDTRY
         h_set_int(MR(ir)->norms_cache, field_num, bytes); /* update cache */
     }
     mutex_unlock(&ir->mutex);
@@ -4882,17 +4919,22 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
     else {
         int i;
         const int mr_reader_cnt = MR(ir)->r_cnt;
-        for (i = 0; i < mr_reader_cnt; i++) {
-            int fnum = mr_get_field_num(MR(ir), i, field_num);
-            if (fnum >= 0) {
-                IndexReader *reader = MR(ir)->sub_readers[i];
-                reader->get_norms_into(reader, fnum, buf + MR(ir)->starts[i]);
-            }
-            else {
-                memset(buf + MR(ir)->starts[i], 0,
-                       MR(ir)->starts[i + 1] - MR(ir)->starts[i]);
+        TRY
+            for (i = 0; i < mr_reader_cnt; i++) {
+                int fnum = mr_get_field_num(MR(ir), i, field_num);
+                if (fnum >= 0) {
+                    IndexReader *reader = MR(ir)->sub_readers[i];
+                    reader->get_norms_into(reader, fnum,
+                                           buf + MR(ir)->starts[i]);
+                }
+                else {
+                    memset(buf + MR(ir)->starts[i], 0,
+                           MR(ir)->starts[i + 1] - MR(ir)->starts[i]);
+                }
             }
-        }
+        XCATCHALL
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
     mutex_unlock(&ir->mutex);
     return buf;
-- 
2.43.0


From 7aa3cf3b6dc9ca39d5ace19f908c41febeaa9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:55 +0000
Subject: [PATCH 096/181] fix: threads sharing a reader looked terms up in each
 other's field, and after a failed read in the wrong place

---
 c/include/index.h |  2 +-
 c/src/index.c     | 52 ++++++++++++++++++++++++++---------------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 8b232cf..9f8f070 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -346,7 +346,7 @@ typedef struct FrtTermInfosReader
     frt_thread_key_t thread_te;
     void       **te_bucket;
     FrtTermEnum     *orig_te;
-    int          field_num;
+    frt_mutex_t      mutex;
 } FrtTermInfosReader;
 
 extern FrtTermInfosReader *frt_tir_open(FrtStore *store,
diff --git a/c/src/index.c b/c/src/index.c
index 3dd30be..ac93f8c 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2643,14 +2643,17 @@ TermEnum *mte_new(MultiReader *mr, int field_num, const char *term)
 TermInfosReader *tir_open(Store *store,
                           SegmentFieldIndex *sfi, const char *segment)
 {
-    TermInfosReader *tir = ALLOC(TermInfosReader);
+    TermInfosReader *tir;
+    InStream *is;
     char file_name[SEGMENT_NAME_MAX_LENGTH];
 
     sprintf(file_name, "%s.tis", segment);
-    tir->orig_te = ste_new(store->open_input(store, file_name), sfi);
+    is = store->open_input(store, file_name);
+    tir = ALLOC(TermInfosReader);
+    tir->orig_te = ste_new(is, sfi);
     thread_key_create(&tir->thread_te, NULL);
     tir->te_bucket = ary_new();
-    tir->field_num = -1;
+    mutex_init(&tir->mutex, NULL);
 
     return tir;
 }
@@ -2660,8 +2663,12 @@ static INLINE TermEnum *tir_enum(TermInfosReader *tir)
     TermEnum *te;
     if (NULL == (te = (TermEnum *)thread_getspecific(tir->thread_te))) {
         te = ste_clone(tir->orig_te);
-        ste_set_field(te, tir->field_num);
+        ste_reset(te);
+        te->field_num = -1;
+        STE(te)->size = 0;
+        mutex_lock(&tir->mutex);
         ary_push(tir->te_bucket, te);
+        mutex_unlock(&tir->mutex);
         thread_setspecific(tir->thread_te, te);
     }
     return te;
@@ -2669,9 +2676,10 @@ static INLINE TermEnum *tir_enum(TermInfosReader *tir)
 
 TermInfosReader *tir_set_field(TermInfosReader *tir, int field_num)
 {
-    if (field_num != tir->field_num) {
-        ste_set_field(tir_enum(tir), field_num);
-        tir->field_num = field_num;
+    /* every thread has an enum, and so a current field, of its own */
+    TermEnum *te = tir_enum(tir);
+    if (field_num != te->field_num) {
+        ste_set_field(te, field_num);
     }
     return tir;
 }
@@ -2679,10 +2687,17 @@ TermInfosReader *tir_set_field(TermInfosReader *tir, int field_num)
 TermInfo *tir_get_ti(TermInfosReader *tir, const char *term)
 {
     TermEnum *te = tir_enum(tir);
-    char *match;
+    char *volatile match = NULL;
+    const int field_num = te->field_num;
 
-    if (NULL != (match = ste_scan_to(te, term))
-        && 0 == strcmp(match, term)) {
+    TRY
+        match = ste_scan_to(te, term);
+    XCATCHALL
+        /* there is no telling where in the enum that stopped */
+        te->field_num = -1;
+        ste_set_field(te, field_num);
+    XENDTRY
+    if (NULL != match && 0 == strcmp(match, term)) {
         return &(te->curr_ti);
     }
     return NULL;
@@ -2691,19 +2706,7 @@ TermInfo *tir_get_ti(TermInfosReader *tir, const char *term)
 static TermInfo *tir_get_ti_field(TermInfosReader *tir, int field_num,
                                   const char *term)
 {
-    TermEnum *te = tir_enum(tir);
-    char *match;
-
-    if (field_num != tir->field_num) {
-        ste_set_field(te, field_num);
-        tir->field_num = field_num;
-    }
-
-    if (NULL != (match = ste_scan_to(te, term))
-        && 0 == strcmp(match, term)) {
-        return &(te->curr_ti);
-    }
-    return NULL;
+    return tir_get_ti(tir_set_field(tir, field_num), term);
 }
 
 char *tir_get_term(TermInfosReader *tir, int pos)
@@ -2725,6 +2728,7 @@ void tir_close(TermInfosReader *tir)
     thread_setspecific(tir->thread_te, NULL);
 
     thread_key_delete(tir->thread_te);
+    mutex_destroy(&tir->mutex);
     free(tir);
 }
 
@@ -4348,7 +4352,9 @@ static INLINE FieldsReader *sr_fr(SegmentReader *sr)
 
     if (NULL == (fr = (FieldsReader *)thread_getspecific(sr->thread_fr))) {
         fr = fr_clone(sr->fr);
+        mutex_lock(&IR(sr)->mutex);
         ary_push(sr->fr_bucket, fr);
+        mutex_unlock(&IR(sr)->mutex);
         thread_setspecific(sr->thread_fr, fr);
     }
     return fr;
-- 
2.43.0


From b90371d50de8c656132b8edc753f062ffa725794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:10 +0000
Subject: [PATCH 097/181] fix: other people's files in the directory of an
 index were removed, and a long name among them overran a buffer

---
 c/src/index.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index ac93f8c..db5a325 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3672,12 +3672,17 @@ bool file_name_filter_is_index_file(const char *file_name, bool include_locks)
 {
     char *p = strrchr(file_name, '.');
     if (NULL == fn_extensions) file_name_filter_init();
+    if (strlen(file_name) >= SEGMENT_NAME_MAX_LENGTH) {
+        return false;
+    }
     if (NULL != p) {
         char *extension = p + 1;
-        if (NULL != h_get(fn_extensions, extension)) {
+        /* every segment has a name like _1a */
+        const bool is_segment = ('_' == file_name[0]);
+        if (is_segment && NULL != h_get(fn_extensions, extension)) {
             return true;
         }
-        else if ((*extension == 'f' || *extension == 's')
+        else if (is_segment && (*extension == 'f' || *extension == 's')
                  && *(extension + 1) >= '0'
                  && *(extension + 1) <= '9') {
             return true;
@@ -3687,8 +3692,10 @@ bool file_name_filter_is_index_file(const char *file_name, bool include_locks)
             return true;
         }
     }
-    else if (0 == strncmp(SEGMENTS_FILE_NAME, file_name,
-                          sizeof(SEGMENTS_FILE_NAME) - 1)) {
+    else if (0 == strcmp(SEGMENTS_GEN_FILE_NAME, file_name)
+             || 0 == strcmp(SEGMENTS_NEW_FILE_NAME, file_name)
+             || 0 == strncmp(SEGMENTS_FILE_NAME"_", file_name,
+                             sizeof(SEGMENTS_FILE_NAME))) {
         return true;
     }
     return false;
-- 
2.43.0


From f60f5d0acda10ddcd8d5ceb0291afc56e188e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:10 +0000
Subject: [PATCH 098/181] fix: whether a leftover norms file is removed
 depended on an uninitialised buffer

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index db5a325..4296c97 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3850,9 +3850,9 @@ static void deleter_find_deletable_files_i(const char *file_name, void *arg)
             else if (NULL != extension
                      && ('s' == *extension || 'f' == *extension)
                      && isdigit(extension[1])) {
-                si_norm_file_name(si, tmp_fn, atoi(extension + 1));
                 /* This is a _segmentName_N.sX file: */
-                if (0 != strcmp(tmp_fn, file_name)) {
+                if (!si_norm_file_name(si, tmp_fn, atoi(extension + 1))
+                    || 0 != strcmp(tmp_fn, file_name)) {
                     /* This is an orphan'd norms file: */
                     do_delete = true;
                 }
-- 
2.43.0


From bd19fd071f938232a5d442f0f8ae1c7c3dfef943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 099/181] fix: files holding the deletions of a segment stayed
 behind when they were replaced or the segment was merged

---
 c/src/index.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 4296c97..3182eba 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -706,9 +706,6 @@ static void si_delete_files(SegmentInfo *si, FieldInfos *fis, Deleter *dlr)
     if (si->use_compound_file) {
         memcpy(ext, "cfs", 4);
         DEL(file_name);
-        if (0 <= si->del_gen) {
-            DEL(fn_for_generation(file_name, si->name, "del", si->del_gen));
-        }
     }
     else {
         for (i = NELEMS(INDEX_EXTENSIONS) - 1; i >= 0; i--) {
@@ -716,6 +713,9 @@ static void si_delete_files(SegmentInfo *si, FieldInfos *fis, Deleter *dlr)
             DEL(file_name);
         }
     }
+    if (0 <= si->del_gen) {
+        DEL(fn_for_generation(file_name, si->name, "del", si->del_gen));
+    }
 }
 
 /****************************************************************************
@@ -6573,7 +6573,7 @@ static void iw_delete_terms_i(IndexWriter *iw, int field_num,
     if (did_delete) {
         mutex_lock(&iw->store->mutex);
         TRY
-            sis_write(iw->sis, iw->store, iw->deleter);
+            iw_write_segments(iw, NULL);
         XFINALLY
             mutex_unlock(&iw->store->mutex);
         XENDTRY
@@ -6975,7 +6975,7 @@ void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
     mutex_lock(&iw->store->mutex);
     TRY
         /* commit the segments file and the fields file */
-        sis_write(iw->sis, iw->store, iw->deleter);
+        iw_write_segments(iw, NULL);
     XFINALLY
         mutex_unlock(&iw->store->mutex);
     XENDTRY
-- 
2.43.0


From 3e81dedca20beecad0d461d16b8f66b274318ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:21 +0000
Subject: [PATCH 100/181] fix: reading past the end of a file in memory raises
 an end-of-file error

---
 c/src/ram_store.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 136be92..e5bf79c 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -303,9 +303,15 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     int offset = 0;
     int buffer_number, buffer_offset, bytes_in_buffer, bytes_to_copy;
     int remainder = len;
-    off_t start = is->d.pointer;
+    off_t start = is_pos(is);
     uchar *buffer;
 
+    if (start + len > rf->len) {
+        RAISE(EOF_ERROR, "tried to read to %"OFF_T_PFX"d, past the end of "
+              "\"%s\" which has %"OFF_T_PFX"d bytes",
+              start + len, rf->name, rf->len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
@@ -324,7 +330,7 @@ static void rami_read_i(InStream *is, uchar *b, int len)
         remainder -= bytes_to_copy;
     }
 
-    is->d.pointer += len;
+    is->d.pointer = start;
 }
 
 static off_t rami_length_i(InStream *is)
-- 
2.43.0


From e364ae943884bc85b20f387b366dbd6edcfabafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:21 +0000
Subject: [PATCH 101/181] fix: removing a file from a store in memory returns
 what the store interface documents

---
 c/src/ram_store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index e5bf79c..8fcc953 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -61,10 +61,10 @@ static int ram_remove(Store *store, const char *filename)
     if (rf != NULL) {
         DEREF(rf);
         rf_close(rf);
-        return true;
+        return 0;
     }
     else {
-        return false;
+        return -1;
     }
 }
 
-- 
2.43.0


From 7165cc666d8bad3fdee884242b09bd2bba96e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:22 +0000
Subject: [PATCH 102/181] fix: list every file of a store in memory that is not
 a lock

---
 c/src/ram_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 8fcc953..dcc2aea 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -104,7 +104,7 @@ static void ram_each(Store *store,
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
-            if (strncmp(rf->name, LOCK_PREFIX, strlen(LOCK_PREFIX)) == 0) {
+            if (file_is_lock(rf->name)) {
                 continue;
             }
             func(rf->name, arg);
-- 
2.43.0


From 3ba0e2a2a5a9e2dc8fdee4128d86c68d6bdcaca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:22 +0000
Subject: [PATCH 103/181] fix: touching a file on disk keeps its contents, as
 it does in memory

---
 c/src/fs_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index dccf6b1..f012da1 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -52,7 +52,8 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) < 0) {
+    /* the contents of a file that is there already are kept */
+    if ((f = open(path, O_WRONLY | O_CREAT | O_BINARY, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
-- 
2.43.0


From 10a4826f418052c919265f083da29c432f0e1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:22 +0000
Subject: [PATCH 104/181] fix: run the FINALLY block for exceptions that are
 not handled too

---
 c/include/except.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/include/except.h b/c/include/except.h
index ad50cc8..ac26f2a 100644
--- a/c/include/except.h
+++ b/c/include/except.h
@@ -127,10 +127,10 @@ typedef struct frt_xcontext_t
 #define FRT_ENDTRY\
     }\
     if (!xcontext.in_finally) {\
-      frt_xpop_context();\
       xcontext.in_finally = 1;\
       longjmp(xcontext.jbuf, FRT_FINALLY);\
     }\
+    frt_xpop_context();\
   } while (0);
 
 #define FRT_RETURN_EARLY() frt_xpop_context()
-- 
2.43.0


From 66f634d64d5c7b6f68e508ff146642bae01fe498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:22 +0000
Subject: [PATCH 105/181] fix: small positive norms are not encoded as zero,
 below what still smaller ones are

---
 c/src/helper.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/helper.c b/c/src/helper.c
index 6aace5e..2dd13df 100644
--- a/c/src/helper.c
+++ b/c/src/helper.c
@@ -54,8 +54,8 @@ unsigned char float2byte(float f)
             mantissa = 0x07;   /* 0x07 =  7 = 0b00000111 */
         }
 
-        if (exponent < 0) {
-            exponent = 0;
+        if (exponent < 0 || (exponent == 0 && mantissa == 0)) {
+            exponent = 0;      /* only 0.0 is encoded as 0 */
             mantissa = 1;
         }
         return ((exponent<<3) | mantissa);
-- 
2.43.0


From 7eabbbd0007590e55261177a638149ab129296d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 106/181] fix: Integer#to_s_pad pads with zeros as documented,
 not with spaces

---
 ruby/lib/ferret/number_tools.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/number_tools.rb b/ruby/lib/ferret/number_tools.rb
index d5313ae..9cf5c82 100644
--- a/ruby/lib/ferret/number_tools.rb
+++ b/ruby/lib/ferret/number_tools.rb
@@ -46,7 +46,7 @@ class Integer
   #          123.to_s_pad(5) => 00123 and -123.to_s_pad(5) => -0123
   # return:: padding string representation of the number.
   def to_s_pad(width = 10)
-    "%#{width}d" % self
+    "%0#{width}d" % self
   end
 end
 
-- 
2.43.0


From 9c5b03b16c2e4d67dbf678bee76e41b4a6c56cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 107/181] fix: read a compressed stored field with its own
 length in Ruby, not the compressed one

---
 ruby/ext/r_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 0f1440a..22aafbc 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -1949,7 +1949,7 @@ frb_lazy_df_load(VALUE self, VALUE rkey, LazyDocField *lazy_df)
     if (lazy_df) {
         if (lazy_df->size == 1) {
             char *data = lazy_df_get_data(lazy_df, 0);
-            rdata = rb_str_new(data, lazy_df->len);
+            rdata = rb_str_new(data, lazy_df->data[0].length);
         } else {
             int i;
             rdata = rb_ary_new2(lazy_df->size);
-- 
2.43.0


From f5decbe2088b34923e46941635cc3603880d8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 108/181] fix: Index#update by id works with auto_flush, where
 the delete closes the writer

---
 ruby/lib/ferret/index.rb | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index b36bafa..9733529 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -570,10 +570,9 @@ module Ferret::Index
       @dir.synchronize do
         ensure_writer_open()
         delete(id)
+        ensure_writer_open()
         if id.is_a?(String) or id.is_a?(Symbol)
           @writer.commit
-        else
-          ensure_writer_open()
         end
         @writer << new_doc
         flush() if @auto_flush
-- 
2.43.0


From 9285de603dc54f299282c61480df8bbc67abac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 109/181] fix: deleting a list with a bad element raises
 ArgumentError, not NameError

---
 ruby/lib/ferret/index.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 9733529..1ec864b 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -950,7 +950,7 @@ module Ferret::Index
           when Symbol then  terms << doc.to_s
           when Integer then ids   << doc
           else
-            raise ArgumentError, "Cannot delete for arg of type #{id.class}"
+            raise ArgumentError, "Cannot delete for arg of type #{doc.class}"
           end
         end
         if ids.size > 0
-- 
2.43.0


From 10fd5f50f8a5e3f4bbc88f00e332a4e0e587ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 110/181] fix: keys given as an array of strings identify
 fields

---
 ruby/lib/ferret/index.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 1ec864b..92e862a 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -94,7 +94,7 @@ module Ferret::Index
       if options[:key]
         @key = options[:key]
         if @key.is_a?(Array)
-          @key.flatten.map {|k| k.to_s.intern}
+          @key = @key.flatten.map {|k| k.to_s.intern}
         end
       else
         @key = nil
-- 
2.43.0


From cda43172630fa980b7e86e6c100e163e80a4e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 111/181] fix: a batch update of documents without an id is
 refused

---
 ruby/lib/ferret/index.rb | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 92e862a..9edb464 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -627,11 +627,12 @@ module Ferret::Index
         ids = nil
         case docs
         when Array
-          ids = docs.collect{|doc| doc[@id_field].to_s}
+          ids = docs.collect{|doc| doc[@id_field]}
           if ids.include?(nil)
-            raise ArgumentError, "all documents must have an #{@id_field} " 
+            raise ArgumentError, "all documents must have an #{@id_field} " +
                                  "field when doing a batch update"
           end
+          ids = ids.collect{|id| id.to_s}
         when Hash
           ids = docs.keys
           docs = docs.values
-- 
2.43.0


From 821eb183da2f7e58911cdbc0b66585800765b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 112/181] fix: Index#add_indexes flushes when auto_flush is
 set, as every write does

---
 ruby/lib/ferret/index.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 9edb464..881ce39 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -772,6 +772,7 @@ module Ferret::Index
         end
         ensure_writer_open
         @writer.add_readers(indexes)
+        flush() if @auto_flush
       end
     end
 
-- 
2.43.0


From 3f01aafa3700e7abbe1c72074914cd14c5c4b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 113/181] fix: the Ruby Index forgets its closed searcher when
 it reopens the reader

---
 ruby/lib/ferret/index.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 881ce39..86887e1 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -875,6 +875,7 @@ module Ferret::Index
             end
             if not latest
               @searcher.close if @searcher
+              @searcher = nil
               @reader.close
               return @reader = IndexReader.new(@dir)
             end
-- 
2.43.0


From 430a19ae7fd69bc6e84463cf3c9d58a6125a0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:35 +0000
Subject: [PATCH 114/181] fix: setting the analyzer of a writer reaches the
 documents being buffered, which kept using the old, possibly freed one

---
 ruby/ext/r_index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 22aafbc..09c323e 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -1671,6 +1671,9 @@ frb_iw_set_analyzer(VALUE self, VALUE ranalyzer)
 
     a_deref(iw->analyzer);
     iw->analyzer = frb_get_cwrapped_analyzer(ranalyzer);
+    if (iw->dw) {
+        iw->dw->analyzer = iw->analyzer;
+    }
     return ranalyzer;
 }
 
-- 
2.43.0


From e3761a6282ca8168fe00c9a2103bfa7af1547d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 115/181] fix: a collected Ruby MultiSearcher does not free its
 array of searchers twice

---
 ruby/ext/r_search.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index f59c2c2..5d40335 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -3113,8 +3113,6 @@ static void
 frb_ms_free(void *p)
 {
     Searcher *sea = (Searcher *)p;
-    MultiSearcher *msea = (MultiSearcher *)sea;
-    free(msea->searchers);
     object_del(sea);
     searcher_close(sea);
 }
-- 
2.43.0


From b7222a5a94839ac0bc64a95c5683be737988897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 116/181] fix: a PriorityQueue keeps its comparison block alive

---
 ruby/ext/r_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/ext/r_utils.c b/ruby/ext/r_utils.c
index 89aac02..c1bcdb1 100644
--- a/ruby/ext/r_utils.c
+++ b/ruby/ext/r_utils.c
@@ -814,6 +814,7 @@ frb_pq_mark(void *p)
     for (i = pq->size; i > 0; i--) {
         rb_gc_mark_maybe(pq->heap[i]);
     }
+    rb_gc_mark_maybe(pq->proc);
 }
 
 static void frb_pq_free(PriQ *pq)
-- 
2.43.0


From 31a6ff002850675b0728cb11c994bea33324a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 117/181] fix: a token stream keeps its text alive when it is a
 filter, whose own text pointer is never set

---
 ruby/ext/r_analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index a3ea553..38d6b07 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -409,7 +409,7 @@ static void
 frb_ts_mark(void *p)
 {
     TokenStream *ts = (TokenStream *)p;
-    if (ts->text)   frb_gc_mark(&ts->text);
+    frb_gc_mark(&ts->text);
 }
 
 static void
-- 
2.43.0


From 8e6f93581132524ccc5dbf194c1699a1d37beee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 118/181] fix: keep the token stream of an analyzer written in
 Ruby alive while its tokens are read

---
 ruby/ext/r_analysis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 38d6b07..781f86f 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -1239,6 +1239,9 @@ cwa_get_ts(Analyzer *a, Symbol field, char *text)
 {
     VALUE rts = rb_funcall(CWA(a)->ranalyzer, id_token_stream, 2,
                            FSYM2SYM(field), rb_str_new2(text));
+    /* keep the token stream and its text alive while it is used from C */
+    rb_hash_aset(object_space, ((VALUE)a)|1,
+                 rb_assoc_new(CWA(a)->ranalyzer, rts));
     return frb_get_cwrapped_rts(rts);
 } 
 
-- 
2.43.0


From 31e232e119084b1aecd1a589a5e60a8724bd6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 119/181] fix: term and document enumerators keep the reader
 they read from alive

---
 ruby/ext/r_index.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 09c323e..1feb95e 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -61,6 +61,7 @@ static Symbol fsym_content;
 static ID id_term;
 static ID id_fields;
 static ID id_fld_num_map;
+static ID id_reader;
 static ID id_field_num;
 static ID id_boost;
 
@@ -698,6 +699,8 @@ frb_get_te(VALUE rir, TermEnum *te)
         self = Data_Wrap_Struct(cTermEnum, NULL, &frb_te_free, te);
         frb_te_get_set_term(self, te->curr_term);
         rb_ivar_set(self, id_fld_num_map, rb_ivar_get(rir, id_fld_num_map));
+        /* the enumerator reads from its reader, so keep that alive */
+        rb_ivar_set(self, id_reader, rir);
     }
     return self;
 }
@@ -920,6 +923,8 @@ frb_get_tde(VALUE rir, TermDocEnum *tde)
 {
     VALUE self = Data_Wrap_Struct(cTermDocEnum, NULL, &frb_tde_free, tde);
     rb_ivar_set(self, id_fld_num_map, rb_ivar_get(rir, id_fld_num_map));
+    /* the enumerator reads from its reader, so keep that alive */
+    rb_ivar_set(self, id_reader, rir);
     return self;
 }
 
@@ -2997,6 +3002,7 @@ static void
 Init_TermDocEnum(void)
 {
     id_fld_num_map = rb_intern("@field_num_map");
+    id_reader = rb_intern("@reader");
     id_field_num = rb_intern("@field_num");
 
     cTermDocEnum = rb_define_class_under(mIndex, "TermDocEnum", rb_cObject);
-- 
2.43.0


From d6edf9f87f0843e69b59653c7c6ce2fd1b142162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 120/181] fix: enumerating an unknown field names it in the
 error instead of using its symbol as a string

---
 ruby/ext/r_index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 1feb95e..95954b2 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -818,7 +818,7 @@ frb_te_set_field(VALUE self, VALUE rfield)
     } else {
         Check_Type(rfield, T_SYMBOL);
         rb_raise(rb_eArgError, "field %s doesn't exist in the index",
-                 (char *)frb_field(rfield));
+                 rb_id2name(SYM2ID(rfield)));
     }
     te->set_field(te, field_num);
 
@@ -949,7 +949,7 @@ frb_tde_seek(VALUE self, VALUE rfield, VALUE rterm)
         field_num = FIX2INT(rfnum);
     } else {
         rb_raise(rb_eArgError, "field %s doesn't exist in the index",
-                 (char *)frb_field(rfield));
+                 rs2s(rb_obj_as_string(rfield)));
     }
     tde->seek(tde, field_num, term);
     return self;
-- 
2.43.0


From 9bb9d0438f971367a632f3695a7f5adb117f0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 121/181] fix: a regular expression tokenizer keeps its text,
 expression and block alive when it is used from C

---
 ruby/ext/r_analysis.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 781f86f..374c67a 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -643,6 +643,16 @@ typedef struct RegExpTokenStream {
     long   curr_ind;  
 } RegExpTokenStream;
 
+/* A stream that is used from C only has no Ruby object that marks what it
+ * refers to. */
+static void
+rets_protect(TokenStream *ts)
+{
+    rb_hash_aset(object_space, ((VALUE)ts)|1,
+                 rb_ary_new3(3, RETS(ts)->rtext, RETS(ts)->regex,
+                             RETS(ts)->proc));
+}
+
 static void
 rets_destroy_i(TokenStream *ts)
 {
@@ -808,6 +818,7 @@ rets_reset(TokenStream *ts, char *text)
 {
     RETS(ts)->rtext = rb_str_new2(text);
     RETS(ts)->curr_ind = 0;
+    rets_protect(ts);
     return ts;
 }
 
@@ -815,6 +826,7 @@ static TokenStream *
 rets_clone_i(TokenStream *orig_ts)
 {
     TokenStream *ts = ts_clone_size(orig_ts, sizeof(RegExpTokenStream));
+    rets_protect(ts);
     return ts;
 }
 
@@ -1662,11 +1674,11 @@ frb_re_analyzer_token_stream(VALUE self, VALUE rfield, VALUE rtext)
     object_set(&ts->text, rtext);
     if (ts->next == &rets_next) {
         RETS(ts)->rtext = rtext;
-        rb_hash_aset(object_space, ((VALUE)ts)|1, rtext);
+        rets_protect(ts);
     }
     else {
         RETS(((TokenFilter*)ts)->sub_ts)->rtext = rtext;
-        rb_hash_aset(object_space, ((VALUE)((TokenFilter*)ts)->sub_ts)|1, rtext);
+        rets_protect(((TokenFilter*)ts)->sub_ts);
     }
     return get_rb_token_stream(ts);
 }
-- 
2.43.0


From f1b2e121ab20295760cddbe53e5b15c1393e11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 122/181] fix: keep the string a term was converted to alive
 until the term query has copied it

---
 ruby/ext/r_search.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index 5d40335..100f3fd 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -607,8 +607,9 @@ static VALUE
 frb_tq_init(VALUE self, VALUE rfield, VALUE rterm)
 {
     Symbol field = frb_field(rfield);
-    char *term = rs2s(rb_obj_as_string(rterm));
-    Query *q = tq_new(field, term);
+    VALUE rstr = rb_obj_as_string(rterm);
+    Query *q = tq_new(field, rs2s(rstr));
+    RB_GC_GUARD(rstr);
     Frt_Wrap_Struct(self, NULL, &frb_q_free, q);
     object_add(q, self);
     return self;
-- 
2.43.0


From bb822856a669a40b0bd4cdf58afdf12a75d023b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 123/181] fix: keep the strings that range bounds and
 highlighting tags were converted to alive while they are used

---
 ruby/ext/r_search.c | 58 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index 100f3fd..5fdd07b 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -1049,26 +1049,35 @@ frb_bq_add_query(int argc, VALUE *argv, VALUE self)
  *
  ****************************************************************************/
 
+/* Converts an option to a string which lives as long as +rstrs+. */
+static char *
+opt2s(VALUE v, VALUE rstrs)
+{
+    v = rb_obj_as_string(v);
+    rb_ary_push(rstrs, v);
+    return rs2s(v);
+}
+
 static void
-get_range_params(VALUE roptions, char **lterm, char **uterm,
-                 bool *include_lower, bool *include_upper)
+get_range_params(VALUE roptions, VALUE rstrs, char **lterm,
+                 char **uterm, bool *include_lower, bool *include_upper)
 {
     VALUE v;
     Check_Type(roptions, T_HASH);
     if (Qnil != (v = rb_hash_aref(roptions, sym_lower))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = opt2s(v, rstrs);
         *include_lower = true;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_upper))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = opt2s(v, rstrs);
         *include_upper = true;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_lower_exclusive))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = opt2s(v, rstrs);
         *include_lower = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_upper_exclusive))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = opt2s(v, rstrs);
         *include_upper = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_include_lower))) {
@@ -1078,19 +1087,19 @@ get_range_params(VALUE roptions, char **lterm, char **uterm,
         *include_upper = RTEST(v);
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_greater_than))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = opt2s(v, rstrs);
         *include_lower = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_greater_than_or_equal_to))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = opt2s(v, rstrs);
         *include_lower = true;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_less_than))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = opt2s(v, rstrs);
         *include_upper = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_less_than_or_equal_to))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = opt2s(v, rstrs);
         *include_upper = true;
     }
     if (!*lterm && !*uterm) {
@@ -1138,11 +1147,14 @@ frb_rq_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    VALUE rstrs = rb_ary_new();
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rstrs, &lterm, &uterm, &include_lower,
+                     &include_upper);
     q = rq_new(frb_field(rfield),
                lterm, uterm,
                include_lower, include_upper);
+    RB_GC_GUARD(rstrs);
     Frt_Wrap_Struct(self, NULL, &frb_q_free, q);
     object_add(q, self);
     return self;
@@ -1190,11 +1202,14 @@ frb_trq_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    VALUE rstrs = rb_ary_new();
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rstrs, &lterm, &uterm, &include_lower,
+                     &include_upper);
     q = trq_new(frb_field(rfield),
                 lterm, uterm,
                 include_lower, include_upper);
+    RB_GC_GUARD(rstrs);
     Frt_Wrap_Struct(self, NULL, &frb_q_free, q);
     object_add(q, self);
     return self;
@@ -2040,10 +2055,13 @@ frb_rf_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    VALUE rstrs = rb_ary_new();
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rstrs, &lterm, &uterm, &include_lower,
+                     &include_upper);
     f = rfilt_new(frb_field(rfield), lterm, uterm,
                   include_lower, include_upper);
+    RB_GC_GUARD(rstrs);
     Frt_Wrap_Struct(self, NULL, &frb_f_free, f);
     object_add(f, self);
     return self;
@@ -2087,10 +2105,13 @@ frb_trf_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    VALUE rstrs = rb_ary_new();
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rstrs, &lterm, &uterm, &include_lower,
+                     &include_upper);
     f = trfilt_new(frb_field(rfield), lterm, uterm,
                    include_lower, include_upper);
+    RB_GC_GUARD(rstrs);
     Frt_Wrap_Struct(self, NULL, &frb_f_free, f);
     object_add(f, self);
     return self;
@@ -2990,6 +3011,7 @@ frb_sea_highlight(int argc, VALUE *argv, VALUE self)
     const char *post_tag = "</b>";
     const char *ellipsis = "...";
     char **excerpts;
+    VALUE rstrs = rb_ary_new();
 
     rb_scan_args(argc, argv, "31", &rquery, &rdoc_id, &rfield, &roptions);
     Data_Get_Struct(rquery, Query, query);
@@ -3010,13 +3032,13 @@ frb_sea_highlight(int argc, VALUE *argv, VALUE self)
             }
         }
         if (Qnil != (v = rb_hash_aref(roptions, sym_pre_tag))) {
-            pre_tag = rs2s(rb_obj_as_string(v));
+            pre_tag = opt2s(v, rstrs);
         }
         if (Qnil != (v = rb_hash_aref(roptions, sym_post_tag))) {
-            post_tag = rs2s(rb_obj_as_string(v));
+            post_tag = opt2s(v, rstrs);
         }
         if (Qnil != (v = rb_hash_aref(roptions, sym_ellipsis))) {
-            ellipsis = rs2s(rb_obj_as_string(v));
+            ellipsis = opt2s(v, rstrs);
         }
     }
     
@@ -3037,8 +3059,10 @@ frb_sea_highlight(int argc, VALUE *argv, VALUE self)
           rb_ary_store(rexcerpts, i, rb_str_new2(excerpts[i]));
         }
         ary_destroy(excerpts, &free);
+        RB_GC_GUARD(rstrs);
         return rexcerpts;
     }
+    RB_GC_GUARD(rstrs);
     return Qnil;
 }
 
-- 
2.43.0


From 33df67abb4315d8ee0162e43c2232716c38ba41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 124/181] fix: keep the string a MultiMapper maps alive while
 it is mapped

---
 ruby/ext/r_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_utils.c b/ruby/ext/r_utils.c
index c1bcdb1..f36dc1f 100644
--- a/ruby/ext/r_utils.c
+++ b/ruby/ext/r_utils.c
@@ -669,10 +669,11 @@ VALUE
 frb_mulmap_map(VALUE self, VALUE rstring)
 {
     MultiMapper *mulmap = DATA_PTR(self);
-    char *string = rs2s(rb_obj_as_string(rstring));
-    char *mapped_string = mulmap_dynamic_map(mulmap, string);
+    VALUE rstr = rb_obj_as_string(rstring);
+    char *mapped_string = mulmap_dynamic_map(mulmap, rs2s(rstr));
     VALUE rmapped_string = rb_str_new2(mapped_string);
     free(mapped_string);
+    RB_GC_GUARD(rstr);
     return rmapped_string;
 }
 
-- 
2.43.0


From 33707073498d55a8dc25bd046b38a758d8ec9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 125/181] fix: keep the converted names of a stemmer alive
 while they are used

---
 ruby/ext/r_analysis.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 374c67a..7121344 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -1204,8 +1204,10 @@ frb_stem_filter_init(int argc, VALUE *argv, VALUE self)
     rb_scan_args(argc, argv, "12", &rsub_ts, &ralgorithm, &rcharenc);
     ts = frb_get_cwrapped_rts(rsub_ts);
     switch (argc) {
-        case 3: charenc = rs2s(rb_obj_as_string(rcharenc));
-        case 2: algorithm = rs2s(rb_obj_as_string(ralgorithm));
+        case 3: rcharenc = rb_obj_as_string(rcharenc);
+                charenc = rs2s(rcharenc);
+        case 2: ralgorithm = rb_obj_as_string(ralgorithm);
+                algorithm = rs2s(ralgorithm);
     }
     ts = stem_filter_new(ts, algorithm, charenc);
     object_add(&(TkFilt(ts)->sub_ts), rsub_ts);
@@ -1216,6 +1218,8 @@ frb_stem_filter_init(int argc, VALUE *argv, VALUE self)
         rb_raise(rb_eArgError, "No stemmer could be found with the encoding "
                  "%s and the language %s", charenc, algorithm);
     }
+    RB_GC_GUARD(rcharenc);
+    RB_GC_GUARD(ralgorithm);
     return self;
 }
 
-- 
2.43.0


From 65f5791160e31ee367f2e91cf87ce1c13187c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 126/181] fix: streams of a compound file hold on to the file,
 which was closed with the reader, and read at a position of their own

---
 c/src/compound_io.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/c/src/compound_io.c b/c/src/compound_io.c
index 10624a3..29ad841 100644
--- a/c/src/compound_io.c
+++ b/c/src/compound_io.c
@@ -116,6 +116,7 @@ static void cmpdi_seek_i(InStream *is, off_t pos)
 
 static void cmpdi_close_i(InStream *is)
 {
+    is_close(is->d.cis->sub);
     free(is->d.cis);
 }
 
@@ -131,6 +132,7 @@ static void cmpdi_read_i(InStream *is, uchar *b, int len)
 {
     CompoundInStream *cis = is->d.cis;
     off_t start = is_pos(is);
+    InStream sub;
 
     if ((start + len) > cis->length) {
         RAISE(EOF_ERROR, "Tried to read past end of file. File length is "
@@ -138,8 +140,14 @@ static void cmpdi_read_i(InStream *is, uchar *b, int len)
               cis->length, start + len);
     }
 
-    is_seek(cis->sub, cis->offset + start);
-    is_read_bytes(cis->sub, b, len);
+    /* Clones of this stream share the stream below, so read with a position
+     * of our own. */
+    sub.file = cis->sub->file;
+    sub.d = cis->sub->d;
+    sub.m = cis->sub->m;
+    sub.buf.start = sub.buf.pos = sub.buf.len = 0;
+    is_seek(&sub, cis->offset + start);
+    sub.m->read_i(&sub, b, len);
 }
 
 static const struct InStreamMethods CMPD_IN_STREAM_METHODS = {
@@ -154,7 +162,7 @@ static InStream *cmpd_create_input(InStream *sub_is, off_t offset, off_t length)
     InStream *is = is_new();
     CompoundInStream *cis = ALLOC(CompoundInStream);
 
-    cis->sub = sub_is;
+    cis->sub = is_clone(sub_is);
     cis->offset = offset;
     cis->length = length;
     is->d.cis = cis;
-- 
2.43.0


From bb98864171bb73b0cbf09092876021d9d052ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:49 +0000
Subject: [PATCH 127/181] fix: the text of a token is not collected while the
 token is being made

---
 ruby/ext/r_analysis.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 7121344..a2cf2db 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -127,20 +127,23 @@ frb_token_mark(void *p)
 static VALUE
 frb_token_alloc(VALUE klass)
 {
-    return Data_Wrap_Struct(klass, &frb_token_mark, &frb_token_free,
-                            ALLOC(RToken));
+    RToken *token = ALLOC(RToken);
+    token->text = Qnil;
+    return Data_Wrap_Struct(klass, &frb_token_mark, &frb_token_free, token);
 }
 
 static VALUE
 get_token(Token *tk)
 {
-    RToken *token = ALLOC(RToken);
+    VALUE rtext = rb_str_new2(tk->text);
+    VALUE rtoken = frb_token_alloc(cToken);
+    RToken *token = (RToken *)DATA_PTR(rtoken);
 
-    token->text = rb_str_new2(tk->text);
+    token->text = rtext;
     token->start = tk->start;
     token->end = tk->end;
     token->pos_inc = tk->pos_inc;
-    return Data_Wrap_Struct(cToken, &frb_token_mark, &frb_token_free, token);
+    return rtoken;
 }
 
 Token *
-- 
2.43.0


From 1438420643ea3085a35b1c91990061a3971128e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 128/181] fix: change reference counts atomically, as threads
 share what they count

---
 c/include/global.h  | 13 +++++++++++--
 c/src/analysis.c    |  4 ++--
 c/src/bitvector.c   |  2 +-
 c/src/filter.c      |  2 +-
 c/src/hash.c        |  2 +-
 c/src/index.c       |  8 ++++----
 c/src/multimapper.c |  2 +-
 c/src/q_boolean.c   |  8 ++++----
 c/src/q_phrase.c    |  2 +-
 c/src/q_span.c      |  8 ++++----
 c/src/search.c      |  6 +++---
 c/src/store.c       |  4 ++--
 12 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/c/include/global.h b/c/include/global.h
index af26cd1..5f0f0c6 100644
--- a/c/include/global.h
+++ b/c/include/global.h
@@ -59,8 +59,17 @@ typedef void (*frt_free_ft)(void *key);
 #define FRT_ALLOC_AND_ZERO(type) (type*)frt_ecalloc(sizeof(type))
 #define FRT_ALLOC_AND_ZERO_N(type,n) (type*)frt_ecalloc(sizeof(type)*(n))
 
-#define FRT_REF(a) (a)->ref_cnt++
-#define FRT_DEREF(a) (a)->ref_cnt--
+/* Threads share the objects these count the references to. Both give the new
+ * count. */
+#ifdef __GNUC__
+#define FRT_REF_INC(cnt_ptr) __sync_add_and_fetch(cnt_ptr, 1)
+#define FRT_REF_DEC(cnt_ptr) __sync_sub_and_fetch(cnt_ptr, 1)
+#else
+#define FRT_REF_INC(cnt_ptr) (++*(cnt_ptr))
+#define FRT_REF_DEC(cnt_ptr) (--*(cnt_ptr))
+#endif
+#define FRT_REF(a) FRT_REF_INC(&(a)->ref_cnt)
+#define FRT_DEREF(a) FRT_REF_DEC(&(a)->ref_cnt)
 
 #define FRT_NEXT_NUM(index, size) (((index) + 1) % (size))
 #define FRT_PREV_NUM(index, size) (((index) + (size) - 1) % (size))
diff --git a/c/src/analysis.c b/c/src/analysis.c
index 83ab7a8..b38a41a 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -106,7 +106,7 @@ Token *tk_new()
 
 void ts_deref(TokenStream *ts)
 {
-    if (--ts->ref_cnt <= 0) {
+    if (DEREF(ts) <= 0) {
         ts->destroy_i(ts);
     }
 }
@@ -206,7 +206,7 @@ static TokenStream *mb_ts_new()
 
 void a_deref(Analyzer *a)
 {
-    if (--a->ref_cnt <= 0) {
+    if (DEREF(a) <= 0) {
         a->destroy_i(a);
     }
 }
diff --git a/c/src/bitvector.c b/c/src/bitvector.c
index b9f1865..d12f993 100644
--- a/c/src/bitvector.c
+++ b/c/src/bitvector.c
@@ -22,7 +22,7 @@ BitVector *bv_new()
 
 void bv_destroy(BitVector *bv)
 {
-    if (--(bv->ref_cnt) == 0) {
+    if (DEREF(bv) == 0) {
         free(bv->bits);
         free(bv);
     }
diff --git a/c/src/filter.c b/c/src/filter.c
index 92e61de..93e79fd 100644
--- a/c/src/filter.c
+++ b/c/src/filter.c
@@ -16,7 +16,7 @@ void filt_destroy_i(Filter *filt)
 }
 void filt_deref(Filter *filt)
 {
-    if (--(filt->ref_cnt) == 0) {
+    if (DEREF(filt) == 0) {
         filt->destroy_i(filt);
     }
 }
diff --git a/c/src/hash.c b/c/src/hash.c
index 9d379b8..a648b0e 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -234,7 +234,7 @@ void h_clear(Hash *self)
 
 void h_destroy(Hash *self)
 {
-    if (--(self->ref_cnt) <= 0) {
+    if (DEREF(self) <= 0) {
         h_clear(self);
 
         /* if a new table was created, be sure to free it */
diff --git a/c/src/index.c b/c/src/index.c
index 3182eba..a1ec4bb 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -303,7 +303,7 @@ FieldInfo *fi_new(Symbol name,
 
 void fi_deref(FieldInfo *fi)
 {
-    if (0 == --(fi->ref_cnt)) {
+    if (0 == DEREF(fi)) {
         free(fi);
     }
 }
@@ -538,7 +538,7 @@ char *fis_to_s(FieldInfos *fis)
 
 void fis_deref(FieldInfos *fis)
 {
-    if (0 == --(fis->ref_cnt)) {
+    if (0 == DEREF(fis)) {
         h_destroy(fis->field_dict);
         free(fis->fields);
         free(fis);
@@ -621,7 +621,7 @@ static void si_write(SegmentInfo *si, OutStream *os)
 
 void si_deref(SegmentInfo *si)
 {
-    if (--si->ref_cnt <= 0) {
+    if (DEREF(si) <= 0) {
         free(si->name);
         free(si->norm_gens);
         free(si);
@@ -4221,7 +4221,7 @@ void ir_commit(IndexReader *ir)
 void ir_close(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    if (0 == --(ir->ref_cnt)) {
+    if (0 == DEREF(ir)) {
         TRY
             ir_commit_i(ir);
         XFINALLY
diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index 6263d97..ab8a3a4 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -335,7 +335,7 @@ char *mulmap_dynamic_map(MultiMapper *self, char *from)
 
 void mulmap_destroy(MultiMapper *self)
 {
-    if (--(self->ref_cnt) <= 0) {
+    if (DEREF(self) <= 0) {
         int i;
         mulmap_free_dstates(self);
         for (i = self->size - 1; i >= 0; i--) {
diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 1210b75..0f53bde 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1296,7 +1296,7 @@ void bc_set_occur(BooleanClause *self, BCType occur)
 
 void bc_deref(BooleanClause *self)
 {
-    if (--self->ref_cnt <= 0) {
+    if (DEREF(self) <= 0) {
         q_deref(self->query);
         free(self);
     }
@@ -1374,7 +1374,7 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         }
     }
 
-    self->ref_cnt++;
+    REF(self);
     /* replace each clause's query with its rewritten query */
     for (i = 0; i < clause_cnt; i++) {
         BooleanClause *clause = BQ(self)->clauses[i];
@@ -1383,7 +1383,7 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         if (clause->is_prohibited == false) has_non_prohibited_clause = true;
         if (rq != clause->query) {
             if (!rewritten) {
-                self->ref_cnt--;
+                DEREF(self);
                 self = bq_copy(self);
                 rewritten = true;
             }
@@ -1395,7 +1395,7 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
     }
     if (clause_cnt > 0 && !has_non_prohibited_clause) {
         if (!rewritten) {
-            self->ref_cnt--;
+            DEREF(self);
             self = bq_copy(self);
         }
         bq_add_query_nr(self, maq_new(), BC_MUST);
diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index dad7858..d018a2b 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -1106,7 +1106,7 @@ static Query *phq_rewrite(Query *self, IndexReader *ir)
             return q;
         }
     } else {
-        self->ref_cnt++;
+        REF(self);
         return self;
     }
 }
diff --git a/c/src/q_span.c b/c/src/q_span.c
index 480acff..7c6a474 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1756,7 +1756,7 @@ static Query *spanfq_rewrite(Query *self, IndexReader *ir)
 
     if (rq == q) {                  /* match didn't rewrite */
         q_deref(rq);
-        self->ref_cnt++;
+        REF(self);
         return self;
     }
     rewritten = spanfq_new_nr(rq, SpFQ(self)->end);
@@ -1898,7 +1898,7 @@ static Query *spanoq_rewrite(Query *self, IndexReader *ir)
     }
     if (!changed) {
         q_deref(rewritten);
-        self->ref_cnt++;
+        REF(self);
         return self;
     }
     rewritten->boost = self->boost;
@@ -2089,7 +2089,7 @@ static Query *spannq_rewrite(Query *self, IndexReader *ir)
     }
     if (!changed) {
         q_deref(rewritten);
-        self->ref_cnt++;
+        REF(self);
         return self;
     }
     rewritten->boost = self->boost;
@@ -2240,7 +2240,7 @@ static Query *spanxq_rewrite(Query *self, IndexReader *ir)
     if (inc == sxq->inc && exc == sxq->exc) {   /* no clauses rewrote */
         q_deref(inc);
         q_deref(exc);
-        self->ref_cnt++;
+        REF(self);
         return self;
     }
     rewritten = spanxq_new_nr(inc, exc);
diff --git a/c/src/search.c b/c/src/search.c
index 9c2f132..dd75b0e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -314,7 +314,7 @@ const char *q_get_query_name(QueryType type) {
 static Query *q_rewrite(Query *self, IndexReader *ir)
 {
     (void)ir;
-    self->ref_cnt++;
+    REF(self);
     return self;
 }
 
@@ -338,7 +338,7 @@ void q_destroy_i(Query *self)
 
 void q_deref(Query *self)
 {  
-    if (--(self->ref_cnt) == 0) {
+    if (DEREF(self) == 0) {
         self->destroy_i(self);
     }
 }
@@ -1403,7 +1403,7 @@ static void cdfsea_search_each_w(Searcher *self, Weight *w, Filter *filter,
 static Query *cdfsea_rewrite(Searcher *self, Query *original)
 {
     (void)self;
-    original->ref_cnt++;
+    REF(original);
     return original;
 }
 
diff --git a/c/src/store.c b/c/src/store.c
index 49187d6..8a94cf5 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -295,7 +295,7 @@ void is_seek(InStream *is, off_t pos)
 
 void is_close(InStream *is)
 {
-    if (--(*(is->ref_cnt_ptr)) < 0) {
+    if (FRT_REF_DEC(is->ref_cnt_ptr) < 0) {
         is->m->close_i(is);
         free(is->ref_cnt_ptr);
     }
@@ -306,7 +306,7 @@ InStream *is_clone(InStream *is)
 {
     InStream *new_index_i = ALLOC(InStream);
     memcpy(new_index_i, is, sizeof(InStream));
-    (*(new_index_i->ref_cnt_ptr))++;
+    FRT_REF_INC(new_index_i->ref_cnt_ptr);
     return new_index_i;
 }
 
-- 
2.43.0


From c3fd395803f199d4534e7486300142d244e256f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 129/181] fix: looking up a hash key writes nothing and the
 list of spare hashes is locked, so that threads can use hashes

---
 c/src/hash.c | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index a648b0e..fab4f71 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -1,5 +1,6 @@
 #include "hash.h"
 #include "global.h"
+#include "threading.h"
 #include <string.h>
 #include "internal.h"
 
@@ -20,6 +21,7 @@ static char *dummy_int_key = "i";
 
 static Hash *free_hts[MAX_FREE_HASH_TABLES];
 static int num_free_hts = 0;
+static mutex_t free_hts_mutex = MUTEX_INITIALIZER;
 
 unsigned long str_hash(const char *const str)
 {
@@ -67,7 +69,6 @@ static INLINE HashEntry *h_resize_lookup(Hash *self,
     register HashEntry *he = &he0[i];
 
     if (he->key == NULL) {
-        he->hash = hash;
         return he;
     }
 
@@ -75,7 +76,6 @@ static INLINE HashEntry *h_resize_lookup(Hash *self,
         i = (i << 2) + i + perturb + 1;
         he = &he0[i & mask];
         if (he->key == NULL) {
-            he->hash = hash;
             return he;
         }
     }
@@ -92,7 +92,6 @@ static HashEntry *h_lookup_ptr(Hash *self, const void *key)
     register HashEntry *freeslot = NULL;
 
     if (he->key == NULL || he->hash == hash) {
-        he->hash = hash;
         return he;
     }
     if (he->key == dummy_key) {
@@ -106,7 +105,6 @@ static HashEntry *h_lookup_ptr(Hash *self, const void *key)
             if (freeslot != NULL) {
                 he = freeslot;
             }
-            he->hash = hash;
             return he;
         }
         if (he->hash == hash) {
@@ -130,7 +128,6 @@ HashEntry *h_lookup(Hash *self, register const void *key)
     eq_ft eq = self->eq_i;
 
     if (he->key == NULL || he->key == key) {
-        he->hash = hash;
         return he;
     }
     if (he->key == dummy_key) {
@@ -149,7 +146,6 @@ HashEntry *h_lookup(Hash *self, register const void *key)
             if (freeslot != NULL) {
                 he = freeslot;
             }
-            he->hash = hash;
             return he;
         }
         if (he->key == key
@@ -166,10 +162,10 @@ HashEntry *h_lookup(Hash *self, register const void *key)
 Hash *h_new_str(free_ft free_key, free_ft free_value)
 {
     Hash *self;
-    if (num_free_hts > 0) {
-        self = free_hts[--num_free_hts];
-    }
-    else {
+    mutex_lock(&free_hts_mutex);
+    self = num_free_hts > 0 ? free_hts[--num_free_hts] : NULL;
+    mutex_unlock(&free_hts_mutex);
+    if (NULL == self) {
         self = ALLOC(Hash);
     }
     self->fill = 0;
@@ -242,12 +238,13 @@ void h_destroy(Hash *self)
             free(self->table);
         }
 
+        mutex_lock(&free_hts_mutex);
         if (num_free_hts < MAX_FREE_HASH_TABLES) {
             free_hts[num_free_hts++] = self;
+            self = NULL;
         }
-        else {
-            free(self);
-        }
+        mutex_unlock(&free_hts_mutex);
+        free(self);
     }
 }
 
@@ -329,6 +326,7 @@ static int h_resize(Hash *self, int min_newsize)
         if (he_old->key && he_old->key != dummy_key) {    /* active entry */
             /*he_new = self->lookup_i(self, he_old->key); */
             he_new = h_resize_lookup(self, he_old->hash);
+            he_new->hash = he_old->hash;
             he_new->key = he_old->key;
             he_new->value = he_old->value;
             num_active--;
@@ -349,15 +347,13 @@ INLINE bool h_set_ext(Hash *self, const void *key, HashEntry **he)
             *he = self->lookup_i(self, key);
         }
         self->fill++;
-        self->size++;
-        return true;
     }
-    else if ((*he)->key == dummy_key) {
-        self->size++;
-        return true;
+    else if ((*he)->key != dummy_key) {
+        return false;
     }
-
-    return false;
+    (*he)->hash = self->hash_i ? self->hash_i(key) : (unsigned long)key;
+    self->size++;
+    return true;
 }
 
 HashKeyStatus h_set(Hash *self, const void *key, void *value)
-- 
2.43.0


From 81079a2f93b5a62628f00f77e9cc502ecd0045da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 130/181] fix: the table of symbols is locked, as all threads
 intern names in it

---
 c/src/symbol.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/c/src/symbol.c b/c/src/symbol.c
index a81f4a0..6019b60 100644
--- a/c/src/symbol.c
+++ b/c/src/symbol.c
@@ -1,8 +1,10 @@
 #include "symbol.h"
 #include "hash.h"
+#include "threading.h"
 #include "internal.h"
 
 static Hash *symbol_table = NULL;
+static mutex_t symbol_mutex = MUTEX_INITIALIZER;
 
 
 void symbol_init()
@@ -13,23 +15,28 @@ void symbol_init()
 
 Symbol intern(const char *str)
 {
-    Symbol symbol = (Symbol)h_get(symbol_table, str);
+    Symbol symbol;
+    mutex_lock(&symbol_mutex);
+    symbol = (Symbol)h_get(symbol_table, str);
     if (!symbol) {
         symbol = (Symbol)estrdup(str);
         h_set(symbol_table, (void *)symbol, (void *)symbol);
     }
+    mutex_unlock(&symbol_mutex);
     return symbol;
 }
 
 Symbol intern_and_free(char *str)
 {
-    Symbol symbol = (Symbol)h_get(symbol_table, str);
+    Symbol symbol;
+    mutex_lock(&symbol_mutex);
+    symbol = (Symbol)h_get(symbol_table, str);
     if (!symbol) {
         symbol = (Symbol)str;
         h_set(symbol_table, str, str);
+        str = NULL;
     }
-    else {
-        free(str);
-    }
+    mutex_unlock(&symbol_mutex);
+    free(str);
     return symbol;
 }
-- 
2.43.0


From 916b583a92df75abbc2531e3591b6c5f91d990cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 131/181] fix: threads may open and close the same directory at
 once

---
 c/src/fs_store.c | 19 ++++++++++++-------
 c/src/store.c    |  6 +-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index f012da1..d679d4b 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -448,8 +448,12 @@ static mutex_t stores_mutex = MUTEX_INITIALIZER;
 static void fs_close_i(Store *store)
 {
     mutex_lock(&stores_mutex);
-    h_del(stores, store->dir.path);
+    /* another thread may already have opened this directory anew */
+    if (h_get(stores, store->dir.path) == store) {
+        h_rem(stores, store->dir.path, false);
+    }
     mutex_unlock(&stores_mutex);
+    fs_destroy(store);
 }
 
 static Store *fs_store_new(const char *pathname)
@@ -505,19 +509,20 @@ Store *open_fs_store(const char *pathname)
 {
     Store *store = NULL;
 
+    mutex_lock(&stores_mutex);
     if (!stores) {
         stores = h_new_str(NULL, (free_ft)fs_destroy);
         register_for_cleanup(stores, (free_ft)h_destroy);
     }
 
-    mutex_lock(&stores_mutex);
     store = (Store *)h_get(stores, pathname);
-    if (store) {
-        mutex_lock(&store->mutex);
-        store->ref_cnt++;
-        mutex_unlock(&store->mutex);
+    if (store && REF(store) == 1) {
+        /* its last user is about to close it */
+        DEREF(store);
+        h_rem(stores, pathname, false);
+        store = NULL;
     }
-    else {
+    if (!store) {
         store = fs_store_new(pathname);
         h_set(stores, store->dir.path, store);
     }
diff --git a/c/src/store.c b/c/src/store.c
index 8a94cf5..d93396e 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -34,13 +34,9 @@ void with_lock_name(Store *store, const char *lock_name,
 
 void store_deref(Store *store)
 {
-    mutex_lock(&store->mutex_i);
-    if (--store->ref_cnt <= 0) {
+    if (DEREF(store) <= 0) {
         store->close_i(store);
     }
-    else {
-        mutex_unlock(&store->mutex_i);
-    }
 }
 
 Lock *open_lock(Store *store, const char *lockname)
-- 
2.43.0


From 9eeb977f4589fde59150d4be252833d9a5f0afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 132/181] fix: threads may use the same directory in memory at
 once

---
 c/src/ram_store.c | 120 +++++++++++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 49 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index dcc2aea..8adb154 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -26,7 +26,7 @@ static void rf_close(void *p)
 {
     int i;
     RAMFile *rf = (RAMFile *)p;
-    if (rf->ref_cnt > 0) {
+    if (DEREF(rf) > 0) {
         return;
     }
     free(rf->name);
@@ -39,27 +39,30 @@ static void rf_close(void *p)
 
 static void ram_touch(Store *store, const char *filename)
 {
+    mutex_lock(&store->mutex_i);
     if (h_get(store->dir.ht, filename) == NULL) {
         RAMFile *rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
+    mutex_unlock(&store->mutex_i);
 }
 
 static int ram_exists(Store *store, const char *filename)
 {
-    if (h_get(store->dir.ht, filename) != NULL) {
-        return true;
-    }
-    else {
-        return false;
-    }
+    bool exists;
+    mutex_lock(&store->mutex_i);
+    exists = h_get(store->dir.ht, filename) != NULL;
+    mutex_unlock(&store->mutex_i);
+    return exists;
 }
 
 static int ram_remove(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_rem(store->dir.ht, filename, false);
+    RAMFile *rf;
+    mutex_lock(&store->mutex_i);
+    rf = (RAMFile *)h_rem(store->dir.ht, filename, false);
+    mutex_unlock(&store->mutex_i);
     if (rf != NULL) {
-        DEREF(rf);
         rf_close(rf);
         return 0;
     }
@@ -70,10 +73,12 @@ static int ram_remove(Store *store, const char *filename)
 
 static void ram_rename(Store *store, const char *from, const char *to)
 {
-    RAMFile *rf = (RAMFile *)h_rem(store->dir.ht, from, false);
-    RAMFile *tmp;
+    RAMFile *rf;
 
+    mutex_lock(&store->mutex_i);
+    rf = (RAMFile *)h_rem(store->dir.ht, from, false);
     if (rf == NULL) {
+        mutex_unlock(&store->mutex_i);
         RAISE(IO_ERROR, "couldn't rename \"%s\" to \"%s\". \"%s\""
               " doesn't exist", from, to, from);
     }
@@ -82,46 +87,52 @@ static void ram_rename(Store *store, const char *from, const char *to)
 
     rf->name = estrdup(to);
 
-    /* clean up the file we are overwriting */
-    tmp = (RAMFile *)h_get(store->dir.ht, to);
-    if (tmp != NULL) {
-        DEREF(tmp);
-    }
-
+    /* this also closes the file we are overwriting */
     h_set(store->dir.ht, rf->name, rf);
+    mutex_unlock(&store->mutex_i);
 }
 
 static int ram_count(Store *store)
 {
-    return store->dir.ht->size;
+    int size;
+    mutex_lock(&store->mutex_i);
+    size = store->dir.ht->size;
+    mutex_unlock(&store->mutex_i);
+    return size;
 }
 
 static void ram_each(Store *store,
                      void (*func)(const char *fname, void *arg), void *arg)
 {
     Hash *ht = store->dir.ht;
-    int i;
+    int i, size = 0;
+    char **names;
+
+    /* +func+ may well change the directory */
+    mutex_lock(&store->mutex_i);
+    names = ALLOC_N(char *, ht->size + 1);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
-        if (rf) {
-            if (file_is_lock(rf->name)) {
-                continue;
-            }
-            func(rf->name, arg);
+        if (rf && !file_is_lock(rf->name)) {
+            names[size++] = estrdup(rf->name);
         }
     }
+    mutex_unlock(&store->mutex_i);
+
+    TRY
+        for (i = 0; i < size; i++) {
+            func(names[i], arg);
+        }
+    XFINALLY
+        for (i = 0; i < size; i++) {
+            free(names[i]);
+        }
+        free(names);
+    XENDTRY
 }
 
 static void ram_close_i(Store *store)
 {
-    Hash *ht = store->dir.ht;
-    int i;
-    for (i = 0; i <= ht->mask; i++) {
-        RAMFile *rf = (RAMFile *)ht->table[i].value;
-        if (rf) {
-            DEREF(rf);
-        }
-    }
     h_destroy(store->dir.ht);
     store_destroy(store);
 }
@@ -133,50 +144,53 @@ static void ram_clear(Store *store)
 {
     int i;
     Hash *ht = store->dir.ht;
+    mutex_lock(&store->mutex_i);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf && !file_is_lock(rf->name)) {
-            DEREF(rf);
             h_del(ht, rf->name);
         }
     }
+    mutex_unlock(&store->mutex_i);
 }
 
 static void ram_clear_locks(Store *store)
 {
     int i;
     Hash *ht = store->dir.ht;
+    mutex_lock(&store->mutex_i);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf && file_is_lock(rf->name)) {
-            DEREF(rf);
             h_del(ht, rf->name);
         }
     }
+    mutex_unlock(&store->mutex_i);
 }
 
 static void ram_clear_all(Store *store)
 {
     int i;
     Hash *ht = store->dir.ht;
+    mutex_lock(&store->mutex_i);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
-            DEREF(rf);
             h_del(ht, rf->name);
         }
     }
+    mutex_unlock(&store->mutex_i);
 }
 
 static off_t ram_length(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_get(store->dir.ht, filename);
-    if (rf != NULL) {
-        return rf->len;
-    }
-    else {
-        return 0;
-    }
+    RAMFile *rf;
+    off_t len;
+    mutex_lock(&store->mutex_i);
+    rf = (RAMFile *)h_get(store->dir.ht, filename);
+    len = rf ? rf->len : 0;
+    mutex_unlock(&store->mutex_i);
+    return len;
 }
 
 off_t ramo_length(OutStream *os)
@@ -232,7 +246,6 @@ void ramo_reset(OutStream *os)
 static void ramo_close_i(OutStream *os)
 {
     RAMFile *rf = os->file.rf;
-    DEREF(rf);
     rf_close(rf);
 }
 
@@ -266,7 +279,6 @@ OutStream *ram_new_buffer()
     RAMFile *rf = rf_new("");
     OutStream *os = os_new();
 
-    DEREF(rf);
     os->file.rf = rf;
     os->pointer = 0;
     os->m = &RAM_OUT_STREAM_METHODS;
@@ -281,15 +293,18 @@ void ram_destroy_buffer(OutStream *os)
 
 static OutStream *ram_new_output(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_get(store->dir.ht, filename);
+    RAMFile *rf;
     OutStream *os = os_new();
 
+    mutex_lock(&store->mutex_i);
+    rf = (RAMFile *)h_get(store->dir.ht, filename);
     if (rf == NULL) {
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
     rf->len = 0;
     REF(rf);
+    mutex_unlock(&store->mutex_i);
     os->pointer = 0;
     os->file.rf = rf;
     os->m = &RAM_OUT_STREAM_METHODS;
@@ -346,7 +361,6 @@ static void rami_seek_i(InStream *is, off_t pos)
 static void rami_close_i(InStream *is)
 {
     RAMFile *rf = is->file.rf;
-    DEREF(rf);
     rf_close(rf);
 }
 
@@ -359,10 +373,13 @@ static const struct InStreamMethods RAM_IN_STREAM_METHODS = {
 
 static InStream *ram_open_input(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_get(store->dir.ht, filename);
+    RAMFile *rf;
     InStream *is = NULL;
 
+    mutex_lock(&store->mutex_i);
+    rf = (RAMFile *)h_get(store->dir.ht, filename);
     if (rf == NULL) {
+        mutex_unlock(&store->mutex_i);
         /*
         Hash *ht = store->dir.ht;
         int i;
@@ -377,6 +394,7 @@ static InStream *ram_open_input(Store *store, const char *filename)
               "tried to open \"%s\" but it doesn't exist", filename);
     }
     REF(rf);
+    mutex_unlock(&store->mutex_i);
     is = is_new();
     is->file.rf = rf;
     is->d.pointer = 0;
@@ -389,14 +407,18 @@ static InStream *ram_open_input(Store *store, const char *filename)
 
 static int ram_lock_obtain(Lock *lock)
 {
+    Store *store = lock->store;
     int ret = true;
-    if (ram_exists(lock->store, lock->name)) {
+    mutex_lock(&store->mutex_i);
+    if (h_get(store->dir.ht, lock->name) != NULL) {
         ret = false;
     }
     else {
-        ram_touch(lock->store, lock->name);
+        RAMFile *rf = rf_new(lock->name);
+        h_set(store->dir.ht, rf->name, rf);
         lock->is_held = true;
     }
+    mutex_unlock(&store->mutex_i);
     return ret;
 }
 
-- 
2.43.0


From 3cedb60b411f75468dd5e02c3dbf551083c7ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:16 +0000
Subject: [PATCH 133/181] fix: unlock the mutex of a writer before it is
 destroyed

---
 c/src/index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/index.c b/c/src/index.c
index a1ec4bb..6c6790e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6647,6 +6647,7 @@ void iw_close(IndexWriter *iw)
         store_deref(iw->store);
         deleter_destroy(iw->deleter);
 
+        mutex_unlock(&iw->mutex);
         mutex_destroy(&iw->mutex);
         free(iw);
     XENDTRY
-- 
2.43.0


From 8ab46ab03de4063168d89d42f29892e8833799d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 134/181] fix: lock the caches which tie filters to readers, as
 threads share both

---
 c/include/index.h    |  2 ++
 c/include/internal.h |  2 ++
 c/src/filter.c       |  8 +++-----
 c/src/index.c        | 39 ++++++++++++++++++++++++++++++++++-----
 4 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 9f8f070..6b4d54f 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -62,7 +62,9 @@ extern void frt_cache_destroy(FrtCacheObject *co);
 extern FrtCacheObject *frt_co_create(FrtHash *ref_tab1,
                               FrtHash *ref_tab2,
             void *ref1, void *ref2, frt_free_ft destroy, void *obj);
+extern FrtCacheObject *frt_co_get(FrtHash *ref_tab1, void *ref2);
 extern FrtHash *frt_co_hash_create();
+extern void frt_co_hash_destroy(FrtHash *cache);
 
 /****************************************************************************
  *
diff --git a/c/include/internal.h b/c/include/internal.h
index 52936d9..842276c 100644
--- a/c/include/internal.h
+++ b/c/include/internal.h
@@ -427,7 +427,9 @@
 #define clean_up                                       frt_clean_up
 #define close_lock                                     frt_close_lock
 #define co_create                                      frt_co_create
+#define co_get                                         frt_co_get
 #define co_hash_create                                 frt_co_hash_create
+#define co_hash_destroy                                frt_co_hash_destroy
 #define count_leading_ones                             frt_count_leading_ones
 #define count_leading_zeros                            frt_count_leading_zeros
 #define count_ones                                     frt_count_ones
diff --git a/c/src/filter.c b/c/src/filter.c
index 93e79fd..7f6b0cb 100644
--- a/c/src/filter.c
+++ b/c/src/filter.c
@@ -11,7 +11,7 @@
 
 void filt_destroy_i(Filter *filt)
 {
-    h_destroy(filt->cache);
+    co_hash_destroy(filt->cache);
     free(filt);
 }
 void filt_deref(Filter *filt)
@@ -23,13 +23,11 @@ void filt_deref(Filter *filt)
 
 BitVector *filt_get_bv(Filter *filt, IndexReader *ir)
 {
-    CacheObject *co = (CacheObject *)h_get(filt->cache, ir);
+    CacheObject *co = co_get(filt->cache, ir);
 
     if (!co) {
         BitVector *bv;
-        if (!ir->cache) {
-            ir_add_cache(ir);
-        }
+        ir_add_cache(ir);
         bv = filt->get_bv_i(filt, ir);
         co = co_create(filt->cache, ir->cache, filt, ir,
                        (free_ft)&bv_destroy, (void *)bv);
diff --git a/c/src/index.c b/c/src/index.c
index 6c6790e..9d6df93 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -184,6 +184,10 @@ static int co_eq(const void *key1, const void *key2)
     return (key1 == key2);
 }
 
+/* the caches of readers and filters refer to each other, one mutex guards
+ * them all */
+static mutex_t cache_mutex = MUTEX_INITIALIZER;
+
 static void co_destroy(CacheObject *self)
 {
     h_rem(self->ref_tab1, self->ref2, false);
@@ -195,7 +199,16 @@ static void co_destroy(CacheObject *self)
 CacheObject *co_create(Hash *ref_tab1, Hash *ref_tab2,
                        void *ref1, void *ref2, free_ft destroy, void *obj)
 {
-    CacheObject *self = ALLOC(CacheObject);
+    CacheObject *self;
+
+    mutex_lock(&cache_mutex);
+    if (NULL != (self = (CacheObject *)h_get(ref_tab1, ref2))) {
+        /* another thread was first */
+        mutex_unlock(&cache_mutex);
+        destroy(obj);
+        return self;
+    }
+    self = ALLOC(CacheObject);
     h_set(ref_tab1, ref2, self);
     h_set(ref_tab2, ref1, self);
     self->ref_tab1 = ref_tab1;
@@ -204,6 +217,16 @@ CacheObject *co_create(Hash *ref_tab1, Hash *ref_tab2,
     self->ref2 = ref2;
     self->destroy = destroy;
     self->obj = obj;
+    mutex_unlock(&cache_mutex);
+    return self;
+}
+
+CacheObject *co_get(Hash *ref_tab1, void *ref2)
+{
+    CacheObject *self;
+    mutex_lock(&cache_mutex);
+    self = (CacheObject *)h_get(ref_tab1, ref2);
+    mutex_unlock(&cache_mutex);
     return self;
 }
 
@@ -212,6 +235,13 @@ Hash *co_hash_create()
     return h_new(&co_hash, &co_eq, (free_ft)NULL, (free_ft)&co_destroy);
 }
 
+void co_hash_destroy(Hash *cache)
+{
+    mutex_lock(&cache_mutex);
+    h_destroy(cache);
+    mutex_unlock(&cache_mutex);
+}
+
 /****************************************************************************
  *
  * FieldInfo
@@ -4235,7 +4265,7 @@ void ir_close(IndexReader *ir)
                 sis_destroy(ir->sis);
             }
             if (ir->cache) {
-                h_destroy(ir->cache);
+                co_hash_destroy(ir->cache);
             }
             if (ir->field_index_cache) {
                 h_destroy(ir->field_index_cache);
@@ -4257,14 +4287,13 @@ void ir_close(IndexReader *ir)
 
 }
 
-/**
- * Don't call this method if the cache already exists
- **/
 void ir_add_cache(IndexReader *ir)
 {
+    mutex_lock(&cache_mutex);
     if (NULL == ir->cache) {
         ir->cache = co_hash_create();
     }
+    mutex_unlock(&cache_mutex);
 }
 
 bool ir_is_latest(IndexReader *ir)
-- 
2.43.0


From bbfaab48b675860dc6cec1a0b95c40884fa17ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 135/181] fix: clone the fields reader for a thread while no
 other thread reads with it

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 9d6df93..3b369a1 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4387,8 +4387,8 @@ static INLINE FieldsReader *sr_fr(SegmentReader *sr)
     FieldsReader *fr;
 
     if (NULL == (fr = (FieldsReader *)thread_getspecific(sr->thread_fr))) {
-        fr = fr_clone(sr->fr);
         mutex_lock(&IR(sr)->mutex);
+        fr = fr_clone(sr->fr);
         ary_push(sr->fr_bucket, fr);
         mutex_unlock(&IR(sr)->mutex);
         thread_setspecific(sr->thread_fr, fr);
-- 
2.43.0


From 8bd56d7f05920640e8b4ac2a04c3382dc464e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:28 +0000
Subject: [PATCH 136/181] fix: lock the reader while the norms for fields
 without any are made

---
 c/src/index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3b369a1..b37feb9 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4093,10 +4093,13 @@ uchar *ir_get_norms_i(IndexReader *ir, int field_num)
         norms = ir->get_norms(ir, field_num);
     }
     if (!norms) {
+        const int max_doc = ir->max_doc(ir);
+        mutex_lock(&ir->mutex);
         if (NULL == ir->fake_norms) {
-            ir->fake_norms = ALLOC_AND_ZERO_N(uchar, ir->max_doc(ir));
+            ir->fake_norms = ALLOC_AND_ZERO_N(uchar, max_doc);
         }
         norms = ir->fake_norms;
+        mutex_unlock(&ir->mutex);
     }
     return norms;
 }
-- 
2.43.0


From eb3eadb49934987341bdd0fc9ee6bf8be0caeb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:48 +0000
Subject: [PATCH 137/181] fix: an index operation which raises an error unlocks
 the index

---
 c/src/ind.c | 89 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 1f0df48..b421412 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -154,48 +154,52 @@ INLINE void ensure_searcher_open(Index *self)
 
 int index_size(Index *self)
 {
-    int size;
+    int volatile size = 0;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         size = self->ir->num_docs(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return size;
 }
 
 void index_optimize(Index *self)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_writer_open(self);
         iw_optimize(self->iw);
         AUTOFLUSH_IW(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 bool index_has_del(Index *self)
 {
-    bool has_del;
+    bool volatile has_del = false;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         has_del = self->ir->has_deletions(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return has_del;
 }
 
 bool index_is_deleted(Index *self, int doc_num)
 {
-    bool is_del;
+    bool volatile is_del = false;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         is_del = self->ir->is_deleted(self->ir, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return is_del;
 }
 
@@ -250,10 +254,11 @@ static INLINE void index_add_doc_i(Index *self, Document *doc)
 void index_add_doc(Index *self, Document *doc)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         index_add_doc_i(self, doc);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_add_string(Index *self, char *str)
@@ -311,12 +316,13 @@ Document *index_get_doc(Index *self, int doc_num)
 
 Document *index_get_doc_ts(Index *self, int doc_num)
 {
-    Document *doc;
+    Document *volatile doc = NULL;
     mutex_lock(&self->mutex);
-    {
+    TRY
         doc = index_get_doc(self, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -336,18 +342,19 @@ int index_term_id(Index *self, Symbol field, const char *term)
 Document *index_get_doc_term(Index *self, Symbol field,
                              const char *term)
 {
-    Document *doc = NULL;
+    Document *volatile doc = NULL;
     TermDocEnum *tde;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         tde = ir_term_docs_for(self->ir, field, term);
         if (tde->next(tde)) {
             doc = index_get_doc(self, tde->doc_num(tde));
         }
         tde->close(tde);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -359,19 +366,20 @@ Document *index_get_doc_id(Index *self, const char *id)
 void index_delete(Index *self, int doc_num)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         ir_delete_doc(self->ir, doc_num);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_term(Index *self, Symbol field, const char *term)
 {
     TermDocEnum *tde;
     mutex_lock(&self->mutex);
-    {
+    TRY
         if (self->ir) {
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
@@ -386,8 +394,9 @@ void index_delete_term(Index *self, Symbol field, const char *term)
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
         }
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_id(Index *self, const char *id)
@@ -405,12 +414,13 @@ void index_delete_query(Index *self, Query *q, Filter *f,
                         PostFilter *post_filter)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_searcher_open(self);
         searcher_search_each(self->sea, q, f, post_filter, &index_qdel_i, 0);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_query_str(Index *self, char *qstr, Filter *f,
@@ -423,12 +433,13 @@ void index_delete_query_str(Index *self, char *qstr, Filter *f,
 
 Explanation *index_explain(Index *self, Query *q, int doc_num)
 {
-    Explanation *expl;
+    Explanation *volatile expl = NULL;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_searcher_open(self);
         expl = searcher_explain(self->sea, q, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return expl;
 }
-- 
2.43.0


From 7f0708553b0c0f0a635a9c3611201b724326e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:13 +0000
Subject: [PATCH 138/181] fix: index_get_doc_term reads the document with the
 reader that found it

---
 c/src/ind.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index b421412..3078130 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -348,10 +348,14 @@ Document *index_get_doc_term(Index *self, Symbol field,
     TRY
         ensure_reader_open(self);
         tde = ir_term_docs_for(self->ir, field, term);
-        if (tde->next(tde)) {
-            doc = index_get_doc(self, tde->doc_num(tde));
-        }
-        tde->close(tde);
+        TRY
+            if (tde->next(tde)) {
+                /* not index_get_doc, which may open another reader */
+                doc = self->ir->get_doc(self->ir, tde->doc_num(tde));
+            }
+        XFINALLY
+            tde->close(tde);
+        XENDTRY
     XFINALLY
         mutex_unlock(&self->mutex);
     XENDTRY
-- 
2.43.0


From 265e93e23df8f00f8f26c39aae548660de346b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:13 +0000
Subject: [PATCH 139/181] fix: index_delete_term deletes from the latest
 version and flushes with auto_flush, like the other updates

---
 c/src/ind.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 3078130..16f7ddb 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -385,18 +385,21 @@ void index_delete_term(Index *self, Symbol field, const char *term)
     mutex_lock(&self->mutex);
     TRY
         if (self->ir) {
+            /* a reader of an older version can't delete */
+            ensure_reader_open(self);
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
                 while (tde->next(tde)) {
                     ir_delete_doc(self->ir, tde->doc_num(tde));
-                    AUTOFLUSH_IR(self);
                 }
             XFINALLY
                 tde->close(tde);
             XENDTRY
+            AUTOFLUSH_IR(self);
         } else {
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
+            AUTOFLUSH_IW(self);
         }
     XFINALLY
         mutex_unlock(&self->mutex);
-- 
2.43.0


From 8fdc70380ddd03a9ff177b2b179456048032c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:13 +0000
Subject: [PATCH 140/181] fix: index_delete_query_str locks the index while it
 parses the query

---
 c/src/ind.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 16f7ddb..148973e 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -417,14 +417,20 @@ static void index_qdel_i(Searcher *sea, int doc_num, float score, void *arg)
     ir_delete_doc(((IndexSearcher *)sea)->ir, doc_num);
 }
 
+static void index_delete_query_i(Index *self, Query *q, Filter *f,
+                                 PostFilter *post_filter)
+{
+    ensure_searcher_open(self);
+    searcher_search_each(self->sea, q, f, post_filter, &index_qdel_i, 0);
+    AUTOFLUSH_IR(self);
+}
+
 void index_delete_query(Index *self, Query *q, Filter *f,
                         PostFilter *post_filter)
 {
     mutex_lock(&self->mutex);
     TRY
-        ensure_searcher_open(self);
-        searcher_search_each(self->sea, q, f, post_filter, &index_qdel_i, 0);
-        AUTOFLUSH_IR(self);
+        index_delete_query_i(self, q, f, post_filter);
     XFINALLY
         mutex_unlock(&self->mutex);
     XENDTRY
@@ -433,9 +439,19 @@ void index_delete_query(Index *self, Query *q, Filter *f,
 void index_delete_query_str(Index *self, char *qstr, Filter *f,
                             PostFilter *post_filter)
 {
-    Query *q = index_get_query(self, qstr);
-    index_delete_query(self, q, f, post_filter);
-    q_deref(q);
+    mutex_lock(&self->mutex);
+    TRY
+    {
+        Query *q = index_get_query(self, qstr);
+        TRY
+            index_delete_query_i(self, q, f, post_filter);
+        XFINALLY
+            q_deref(q);
+        XENDTRY
+    }
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 Explanation *index_explain(Index *self, Query *q, int doc_num)
-- 
2.43.0


From d337ccb91eb6c9a94d3641a8e45f2e2807385eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:13 +0000
Subject: [PATCH 141/181] fix: free the query which looks for the document with
 the same key

---
 c/src/ind.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 148973e..0912105 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -228,17 +228,22 @@ static INLINE void index_del_doc_with_key_i(Index *self, Document *doc,
         Symbol field = (Symbol)hse->elem;
         df = doc_get_field(doc, field);
         if (!df) continue;
-        bq_add_query(q, tq_new(field, df->data[0]), BC_MUST);
+        bq_add_query_nr(q, tq_new(field, df->data[0]), BC_MUST);
     }
-    td = searcher_search(self->sea, q, 0, 1, NULL, NULL, NULL);
-    if (td->total_hits > 1) {
-        td_destroy(td);
-        RAISE(ARG_ERROR, "%s", NON_UNIQUE_KEY_ERROR_MSG);
-    } else if (td->total_hits == 1) {
-        ir_delete_doc(self->ir, td->hits[0]->doc);
-    }
-    q_deref(q);
-    td_destroy(td);
+    TRY
+        td = searcher_search(self->sea, q, 0, 1, NULL, NULL, NULL);
+        TRY
+            if (td->total_hits > 1) {
+                RAISE(ARG_ERROR, "%s", NON_UNIQUE_KEY_ERROR_MSG);
+            } else if (td->total_hits == 1) {
+                ir_delete_doc(self->ir, td->hits[0]->doc);
+            }
+        XFINALLY
+            td_destroy(td);
+        XENDTRY
+    XFINALLY
+        q_deref(q);
+    XENDTRY
 }
 
 static INLINE void index_add_doc_i(Index *self, Document *doc)
-- 
2.43.0


From 3768d45c0723e9c12d50ec656565d0b03ba342b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:27 +0000
Subject: [PATCH 142/181] fix: lock what is set up once for all threads

---
 c/src/global.c     | 4 ++++
 c/src/index.c      | 4 ++++
 c/src/similarity.c | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/c/src/global.c b/c/src/global.c
index 01cf753..4552443 100644
--- a/c/src/global.c
+++ b/c/src/global.c
@@ -1,6 +1,7 @@
 #include "global.h"
 #include "symbol.h"
 #include "hash.h"
+#include "threading.h"
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -330,6 +331,7 @@ typedef struct FreeMe
     free_ft free_func;
 } FreeMe;
 
+static mutex_t free_mes_mutex = MUTEX_INITIALIZER;
 static FreeMe *free_mes = NULL;
 static int free_mes_size = 0;
 static int free_mes_capa = 0;
@@ -337,6 +339,7 @@ static int free_mes_capa = 0;
 void register_for_cleanup(void *p, free_ft free_func)
 {
     FreeMe *free_me;
+    mutex_lock(&free_mes_mutex);
     if (free_mes_capa == 0) {
         free_mes_capa = 16;
         free_mes = ALLOC_N(FreeMe, free_mes_capa);
@@ -348,6 +351,7 @@ void register_for_cleanup(void *p, free_ft free_func)
     free_me = free_mes + free_mes_size++;
     free_me->p = p;
     free_me->free_func = free_func;
+    mutex_unlock(&free_mes_mutex);
 }
 
 void clean_up()
diff --git a/c/src/index.c b/c/src/index.c
index b37feb9..435717b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3688,6 +3688,8 @@ TermDocEnum *mtdpe_new(IndexReader *ir, int field_num, char **terms, int t_cnt)
  ****************************************************************************/
 
 static Hash *fn_extensions = NULL;
+static mutex_t fn_extensions_mutex = MUTEX_INITIALIZER;
+
 static void file_name_filter_init()
 {
     int i;
@@ -3701,7 +3703,9 @@ static void file_name_filter_init()
 bool file_name_filter_is_index_file(const char *file_name, bool include_locks)
 {
     char *p = strrchr(file_name, '.');
+    mutex_lock(&fn_extensions_mutex);
     if (NULL == fn_extensions) file_name_filter_init();
+    mutex_unlock(&fn_extensions_mutex);
     if (strlen(file_name) >= SEGMENT_NAME_MAX_LENGTH) {
         return false;
     }
diff --git a/c/src/similarity.c b/c/src/similarity.c
index 6ea811c..3586119 100644
--- a/c/src/similarity.c
+++ b/c/src/similarity.c
@@ -137,9 +137,12 @@ static Similarity default_similarity = {
     &simdef_destroy
 };
 
+static mutex_t default_similarity_mutex = MUTEX_INITIALIZER;
+
 Similarity *sim_create_default()
 {
     int i;
+    mutex_lock(&default_similarity_mutex);
     if (!default_similarity.data) {
         for (i = 0; i < 256; i++) {
             default_similarity.norm_table[i] = byte2float((unsigned char)i);
@@ -147,5 +150,6 @@ Similarity *sim_create_default()
 
         default_similarity.data = &default_similarity;
     }
+    mutex_unlock(&default_similarity_mutex);
     return &default_similarity;
 }
-- 
2.43.0


From 603da576e0fc862de89b39ae98dfc0e59362208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:27 +0000
Subject: [PATCH 143/181] fix: every thread has a buffer for the messages of
 its own errors

---
 c/include/except.h | 4 ++--
 c/src/except.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/include/except.h b/c/include/except.h
index ac26f2a..ec3f8aa 100644
--- a/c/include/except.h
+++ b/c/include/except.h
@@ -171,8 +171,8 @@ extern void frt_xraise(int excode, const char *const msg);
 extern void frt_xpush_context(frt_xcontext_t *context);
 extern void frt_xpop_context();
 
-extern char frt_xmsg_buffer[FRT_XMSG_BUFFER_SIZE];
-extern char frt_xmsg_buffer_final[FRT_XMSG_BUFFER_SIZE];
+extern __thread char frt_xmsg_buffer[FRT_XMSG_BUFFER_SIZE];
+extern __thread char frt_xmsg_buffer_final[FRT_XMSG_BUFFER_SIZE];
 
 #ifdef __cplusplus
 } // extern "C"
diff --git a/c/src/except.c b/c/src/except.c
index 445ecb2..24ad821 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -22,8 +22,8 @@ static const char *const ERROR_TYPES[] = {
 
 const char *const UNSUPPORTED_ERROR_MSG = "Unsupported operation";
 const char *const EOF_ERROR_MSG = "Read past end of file";
-char xmsg_buffer[XMSG_BUFFER_SIZE];
-char xmsg_buffer_final[XMSG_BUFFER_SIZE];
+__thread char xmsg_buffer[XMSG_BUFFER_SIZE];
+__thread char xmsg_buffer_final[XMSG_BUFFER_SIZE];
 
 static thread_key_t exception_stack_key;
 static thread_once_t exception_stack_key_once = THREAD_ONCE_INIT;
-- 
2.43.0


From bf7d9745fbf81b8e2d437f628a9e0ff668101c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 144/181] fix: lock the set of locks of a directory, which
 threads open and close at once

---
 c/src/store.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/store.c b/c/src/store.c
index d93396e..7d6df97 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -42,13 +42,19 @@ void store_deref(Store *store)
 Lock *open_lock(Store *store, const char *lockname)
 {
     Lock *lock = store->open_lock_i(store, lockname);
+    mutex_lock(&store->mutex_i);
     hs_add(store->locks, lock);
+    mutex_unlock(&store->mutex_i);
     return lock;
 }
 
 void close_lock(Lock *lock)
 {
-    hs_del(lock->store->locks, lock);
+    Store *store = lock->store;
+    mutex_lock(&store->mutex_i);
+    hs_rem(store->locks, lock);
+    mutex_unlock(&store->mutex_i);
+    store->close_lock_i(lock);
 }
 
 static void close_lock_i(Lock *lock)
-- 
2.43.0


From e6d83e0396e37a8c53a66866587e3e9d3cdc7d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:11 +0000
Subject: [PATCH 145/181] fix: probe hash tables in unsigned numbers, which may
 overflow

---
 c/src/hash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index fab4f71..b6e03cc 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -65,7 +65,7 @@ static INLINE HashEntry *h_resize_lookup(Hash *self,
     register unsigned long perturb;
     register int mask = self->mask;
     register HashEntry *he0 = self->table;
-    register int i = hash & mask;
+    register unsigned int i = hash & mask;
     register HashEntry *he = &he0[i];
 
     if (he->key == NULL) {
@@ -87,7 +87,7 @@ static HashEntry *h_lookup_ptr(Hash *self, const void *key)
     register unsigned long perturb;
     register int mask = self->mask;
     register HashEntry *he0 = self->table;
-    register int i = hash & mask;
+    register unsigned int i = hash & mask;
     register HashEntry *he = &he0[i];
     register HashEntry *freeslot = NULL;
 
@@ -122,7 +122,7 @@ HashEntry *h_lookup(Hash *self, register const void *key)
     register unsigned long perturb;
     register int mask = self->mask;
     register HashEntry *he0 = self->table;
-    register int i = hash & mask;
+    register unsigned int i = hash & mask;
     register HashEntry *he = &he0[i];
     register HashEntry *freeslot = NULL;
     eq_ft eq = self->eq_i;
-- 
2.43.0


From 1740760907681bde773fc2cbab5fbad100524b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:24 +0000
Subject: [PATCH 146/181] fix: make the masks of bit vectors of unsigned ones

---
 c/include/bitvector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index a3a991e..619ba5a 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -83,7 +83,7 @@ void frt_bv_set_value(FrtBitVector *bv, int bit, bool value)
 {
     frt_u32 *word_p;
     int word = bit >> 5;
-    frt_u32 bitmask = 1 << (bit & 31);
+    frt_u32 bitmask = 1u << (bit & 31);
 
     /* Check to see if we need to grow the BitVector */
     if (unlikely(bit >= bv->size)) {
@@ -167,7 +167,7 @@ void frt_bv_set_fast(FrtBitVector *bv, int bit)
 {
     bv->count++;
     bv->size = bit + 1;
-    bv->bits[bit >> 5] |= (1 << (bit & 31));
+    bv->bits[bit >> 5] |= (1u << (bit & 31));
 }
 
 /**
@@ -324,7 +324,7 @@ int frt_bv_scan_next_unset_from(FrtBitVector *bv, const int bit)
     word = bv->bits[pos];
 
     /* Set all of the bits below this position */
-    word |= (1 << (bit & 31)) - 1;
+    word |= (1u << (bit & 31)) - 1;
     if (~word) {
         goto done;
     }
-- 
2.43.0


From 0c965a9c03c2008b035a23f8643ccbfb61087448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 147/181] fix: a span query which refuses a clause neither
 counts nor references it

---
 c/src/q_span.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 7c6a474..879c8e0 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1977,7 +1977,7 @@ Query *spanoq_new()
 
 Query *spanoq_add_clause_nr(Query *self, Query *clause)
 {
-    const int curr_index = SpOQ(self)->c_cnt++;
+    const int curr_index = SpOQ(self)->c_cnt;
     if (clause->type < SPAN_TERM_QUERY || clause->type > SPAN_NEAR_QUERY) {
         RAISE(ARG_ERROR, "Tried to add a %s to a SpanOrQuery. This is not a "
               "SpanQuery.", q_get_query_name(clause->type));
@@ -1995,13 +1995,15 @@ Query *spanoq_add_clause_nr(Query *self, Query *clause)
         REALLOC_N(SpOQ(self)->clauses, Query *, SpOQ(self)->c_capa);
     }
     SpOQ(self)->clauses[curr_index] = clause;
+    SpOQ(self)->c_cnt++;
     return clause;
 }
 
 Query *spanoq_add_clause(Query *self, Query *clause)
 {
+    spanoq_add_clause_nr(self, clause);
     REF(clause);
-    return spanoq_add_clause_nr(self, clause);
+    return clause;
 }
 
 /*****************************************************************************
@@ -2175,7 +2177,7 @@ Query *spannq_new(int slop, bool in_order)
 
 Query *spannq_add_clause_nr(Query *self, Query *clause)
 {
-    const int curr_index = SpNQ(self)->c_cnt++;
+    const int curr_index = SpNQ(self)->c_cnt;
     if (clause->type < SPAN_TERM_QUERY || clause->type > SPAN_NEAR_QUERY) {
         RAISE(ARG_ERROR, "Tried to add a %s to a SpanNearQuery. This is not a "
               "SpanQuery.", q_get_query_name(clause->type));
@@ -2193,13 +2195,15 @@ Query *spannq_add_clause_nr(Query *self, Query *clause)
         REALLOC_N(SpNQ(self)->clauses, Query *, SpNQ(self)->c_capa);
     }
     SpNQ(self)->clauses[curr_index] = clause;
+    SpNQ(self)->c_cnt++;
     return clause;
 }
 
 Query *spannq_add_clause(Query *self, Query *clause)
 {
+    spannq_add_clause_nr(self, clause);
     REF(clause);
-    return spannq_add_clause_nr(self, clause);
+    return clause;
 }
 
 /*****************************************************************************
@@ -2307,9 +2311,10 @@ Query *spanxq_new_nr(Query *inc, Query *exc)
 
 Query *spanxq_new(Query *inc, Query *exc)
 {
+    Query *self = spanxq_new_nr(inc, exc);
     REF(inc);
     REF(exc);
-    return spanxq_new_nr(inc, exc);
+    return self;
 }
 
 
-- 
2.43.0


From e3c845167fd178557fde3e5d6268dfd7b8dded5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 148/181] fix: a boolean query which refuses a clause does not
 reference it

---
 c/src/q_boolean.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 0f53bde..24285a7 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1591,8 +1591,9 @@ BooleanClause *bq_add_clause_nr(Query *self, BooleanClause *bc)
 
 BooleanClause *bq_add_clause(Query *self, BooleanClause *bc)
 {
+    bq_add_clause_nr(self, bc);
     REF(bc);
-    return bq_add_clause_nr(self, bc);
+    return bc;
 }
 
 BooleanClause *bq_add_query_nr(Query *self, Query *sub_query, BCType occur)
@@ -1612,7 +1613,8 @@ BooleanClause *bq_add_query_nr(Query *self, Query *sub_query, BCType occur)
 
 BooleanClause *bq_add_query(Query *self, Query *sub_query, BCType occur)
 {
+    BooleanClause *bc = bq_add_query_nr(self, sub_query, occur);
     REF(sub_query);
-    return bq_add_query_nr(self, sub_query, occur);
+    return bc;
 }
 
-- 
2.43.0


From 34348e1531162829f5fec8116283f6b14ef6bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 149/181] fix: the message about a file which is in the
 compound file already names it

---
 c/src/compound_io.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/src/compound_io.c b/c/src/compound_io.c
index 29ad841..354ffa6 100644
--- a/c/src/compound_io.c
+++ b/c/src/compound_io.c
@@ -298,12 +298,13 @@ CompoundWriter *open_cw(Store *store, char *name)
     return cw;
 }
 
-void cw_add_file(CompoundWriter *cw, char *id)
+void cw_add_file(CompoundWriter *cw, char *name)
 {
-    id = estrdup(id);
+    /* if it is there already, it is freed */
+    char *id = estrdup(name);
     if (hs_add(cw->ids, id) != HASH_KEY_DOES_NOT_EXIST) {
         RAISE(IO_ERROR, "Tried to add file \"%s\" which has already been "
-              "added to the compound store", id);
+              "added to the compound store", name);
     }
 
     ary_grow(cw->file_entries);
-- 
2.43.0


From 79858d01f2bf7cab9c369d9e9f513a64566e0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 150/181] fix: setting the norm of a document which does not
 exist is an error and writes nothing

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 435717b..72246dc 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4072,6 +4072,9 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
+    if (doc_num < 0 || doc_num >= ir->max_doc(ir)) {
+        RAISE(ARG_ERROR, "Document %d does not exist in this index", doc_num);
+    }
     mutex_lock(&ir->mutex);
     TRY
         ir->acquire_write_lock(ir);
-- 
2.43.0


From 35c0bf8811851dc8f713833e62efc3ce901fb0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:38 +0000
Subject: [PATCH 151/181] fix: reading a document whose number is out of range
 is an error and reads no other memory

---
 c/src/index.c | 60 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 72246dc..ec12910 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1626,10 +1626,14 @@ Document *fr_get_doc(FieldsReader *fr, int doc_num)
     int i, j;
     off_t pos;
     int stored_cnt;
-    Document *doc = doc_new();
+    Document *doc;
     InStream *fdx_in = fr->fdx_in;
     InStream *fdt_in = fr->fdt_in;
 
+    if (doc_num < 0 || doc_num >= fr->size) {
+        RAISE(ARG_ERROR, "Document %d does not exist in this index", doc_num);
+    }
+    doc = doc_new();
     is_seek(fdx_in, doc_num * FIELDS_IDX_PTR_SIZE);
     pos = (off_t)is_read_u64(fdx_in);
     is_seek(fdt_in, pos);
@@ -1676,6 +1680,9 @@ LazyDoc *fr_get_lazy_doc(FieldsReader *fr, int doc_num)
     InStream *fdx_in = fr->fdx_in;
     InStream *fdt_in = fr->fdt_in;
 
+    if (doc_num < 0 || doc_num >= fr->size) {
+        RAISE(ARG_ERROR, "Document %d does not exist in this index", doc_num);
+    }
     is_seek(fdx_in, doc_num * FIELDS_IDX_PTR_SIZE);
     pos = (off_t)is_read_u64(fdx_in);
     is_seek(fdt_in, pos);
@@ -4408,7 +4415,8 @@ static INLINE FieldsReader *sr_fr(SegmentReader *sr)
 
 static INLINE bool sr_is_deleted_i(SegmentReader *sr, int doc_num)
 {
-    return (NULL != sr->deleted_docs && bv_get(sr->deleted_docs, doc_num));
+    return (doc_num >= 0 && NULL != sr->deleted_docs
+            && bv_get(sr->deleted_docs, doc_num));
 }
 
 static INLINE void sr_get_norms_into_i(SegmentReader *sr, int field_num,
@@ -4901,20 +4909,33 @@ static int mr_max_doc(IndexReader *ir)
     return MR(ir)->max_doc;
 }
 
+#define DOC_EXISTS(doc_num) ((doc_num) >= 0 && (doc_num) < MR(ir)->max_doc)
+
+#define CHECK_DOC_EXISTS(doc_num)\
+    if (!DOC_EXISTS(doc_num)) {\
+        RAISE(ARG_ERROR, "Document %d does not exist in this index", doc_num);\
+    }
+
 #define GET_READER()\
     int i = mr_reader_index_i(MR(ir), doc_num);\
     IndexReader *reader = MR(ir)->sub_readers[i]
 
 static Document *mr_get_doc(IndexReader *ir, int doc_num)
 {
-    GET_READER();
-    return reader->get_doc(reader, doc_num - MR(ir)->starts[i]);
+    CHECK_DOC_EXISTS(doc_num);
+    {
+        GET_READER();
+        return reader->get_doc(reader, doc_num - MR(ir)->starts[i]);
+    }
 }
 
 static LazyDoc *mr_get_lazy_doc(IndexReader *ir, int doc_num)
 {
-    GET_READER();
-    return reader->get_lazy_doc(reader, doc_num - MR(ir)->starts[i]);
+    CHECK_DOC_EXISTS(doc_num);
+    {
+        GET_READER();
+        return reader->get_lazy_doc(reader, doc_num - MR(ir)->starts[i]);
+    }
 }
 
 int mr_get_field_num(MultiReader *mr, int ir_num, int f_num)
@@ -5029,20 +5050,35 @@ static TermDocEnum *mr_term_positions(IndexReader *ir)
 static TermVector *mr_term_vector(IndexReader *ir, int doc_num,
                                   Symbol field)
 {
-    GET_READER();
-    return reader->term_vector(reader, doc_num - MR(ir)->starts[i], field);
+    if (!DOC_EXISTS(doc_num)) {
+        return NULL;
+    }
+    else {
+        GET_READER();
+        return reader->term_vector(reader, doc_num - MR(ir)->starts[i], field);
+    }
 }
 
 static Hash *mr_term_vectors(IndexReader *ir, int doc_num)
 {
-    GET_READER();
-    return reader->term_vectors(reader, doc_num - MR(ir)->starts[i]);
+    if (!DOC_EXISTS(doc_num)) {
+        return h_new_ptr((free_ft)&tv_destroy);
+    }
+    else {
+        GET_READER();
+        return reader->term_vectors(reader, doc_num - MR(ir)->starts[i]);
+    }
 }
 
 static bool mr_is_deleted(IndexReader *ir, int doc_num)
 {
-    GET_READER();
-    return reader->is_deleted(reader, doc_num - MR(ir)->starts[i]);
+    if (!DOC_EXISTS(doc_num)) {
+        return false;
+    }
+    else {
+        GET_READER();
+        return reader->is_deleted(reader, doc_num - MR(ir)->starts[i]);
+    }
 }
 
 static bool mr_has_deletions(IndexReader *ir)
-- 
2.43.0


From f2cd70c0d8d0dfd4527b9a4e0e2250a3e3a03a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:45 +0000
Subject: [PATCH 152/181] fix: field infos which are refused for their settings
 are not leaked

---
 c/src/index.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index ec12910..c630f27 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -318,9 +318,10 @@ FieldInfo *fi_new(Symbol name,
                   IndexValue index,
                   TermVectorValue term_vector)
 {
-    FieldInfo *fi = ALLOC(FieldInfo);
+    FieldInfo *fi;
     assert(NULL != name);
     fi_check_params(store, index, term_vector);
+    fi = ALLOC(FieldInfo);
     fi->name = name;
     fi->boost = 1.0;
     fi->bits = 0;
@@ -369,8 +370,9 @@ char *fi_to_s(FieldInfo *fi)
 FieldInfos *fis_new(StoreValue store, IndexValue index,
                     TermVectorValue term_vector)
 {
-    FieldInfos *fis = ALLOC(FieldInfos);
+    FieldInfos *fis;
     fi_check_params(store, index, term_vector);
+    fis = ALLOC(FieldInfos);
     fis->field_dict = h_new_ptr((free_ft)&fi_deref);
     fis->size = 0;
     fis->capa = FIELD_INFOS_INIT_CAPA;
-- 
2.43.0


From da984977bcf123f4627121b8576ff15bbd7c8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:45 +0000
Subject: [PATCH 153/181] fix: range filters which are refused for their bounds
 are not leaked

---
 c/src/q_range.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 0bcece4..ab91d1c 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -289,9 +289,10 @@ Filter *rfilt_new(Symbol field,
                   const char *lower_term, const char *upper_term,
                   bool include_lower, bool include_upper)
 {
+    Range *range = range_new(field, lower_term, upper_term,
+                             include_lower, include_upper);
     Filter *filt = filt_new(RangeFilter);
-    RF(filt)->range =  range_new(field, lower_term, upper_term,
-                                 include_lower, include_upper); 
+    RF(filt)->range = range;
 
     filt->get_bv_i  = &rfilt_get_bv_i;
     filt->hash      = &rfilt_hash;
@@ -426,9 +427,10 @@ Filter *trfilt_new(Symbol field,
                    const char *lower_term, const char *upper_term,
                    bool include_lower, bool include_upper)
 {
+    Range *range = trange_new(field, lower_term, upper_term,
+                              include_lower, include_upper);
     Filter *filt = filt_new(RangeFilter);
-    RF(filt)->range =  trange_new(field, lower_term, upper_term,
-                                  include_lower, include_upper); 
+    RF(filt)->range = range;
 
     filt->get_bv_i  = &trfilt_get_bv_i;
     filt->hash      = &rfilt_hash;
-- 
2.43.0


From b19ddd6029d06c39358ff56d30715fc6799308ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:45 +0000
Subject: [PATCH 154/181] fix: a search which raises an error does not leak the
 weights it made

---
 c/src/search.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index dd75b0e..244f943 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1156,11 +1156,14 @@ static TopDocs *isea_search(Searcher *self,
                             PostFilter *post_filter,
                             bool load_fields)
 {
-    TopDocs *td;
+    TopDocs *volatile td = NULL;
     Weight *weight = q_weight(query, self);
-    td = isea_search_w(self, weight, first_doc, num_docs, filter,
-                         sort, post_filter, load_fields);
-    weight->destroy(weight);
+    TRY
+        td = isea_search_w(self, weight, first_doc, num_docs, filter,
+                           sort, post_filter, load_fields);
+    XFINALLY
+        weight->destroy(weight);
+    XENDTRY
     return td;
 }
 
@@ -1780,11 +1783,14 @@ static TopDocs *msea_search(Searcher *self,
                             PostFilter *post_filter,
                             bool load_fields)
 {
-    TopDocs *td;
+    TopDocs *volatile td = NULL;
     Weight *weight = q_weight(query, self);
-    td = msea_search_w(self, weight, first_doc, num_docs, filter,
-                       sort, post_filter, load_fields);
-    weight->destroy(weight);
+    TRY
+        td = msea_search_w(self, weight, first_doc, num_docs, filter,
+                           sort, post_filter, load_fields);
+    XFINALLY
+        weight->destroy(weight);
+    XENDTRY
     return td;
 }
 
-- 
2.43.0


From 0eed4df56bebf3c5a0295e141641128b5d12dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:03 +0000
Subject: [PATCH 155/181] fix: the multi searcher looks up negative document
 numbers in no searcher before the first

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 244f943..3271fc1 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1499,7 +1499,7 @@ static INLINE int msea_get_searcher_index(Searcher *self, int n)
             return mid;
         }
     }
-    return hi;
+    return hi < 0 ? 0 : hi;     /* numbers below 0 are for the first to refuse */
 }
 
 static int msea_doc_freq(Searcher *self, Symbol field, const char *term)
-- 
2.43.0


From d8eb77bb322f7cc79da2901c3dd78350ac8e2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:03 +0000
Subject: [PATCH 156/181] fix: a search of many indexes which raises an error
 does not leak the hits it has

---
 c/src/search.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 3271fc1..9c78ab8 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1730,8 +1730,13 @@ static TopDocs *msea_search_w(Searcher *self,
     /*if (sort) printf("sort = %s\n", sort_to_s(sort)); */
     for (i = 0; i < MSEA(self)->s_cnt; i++) {
         Searcher *s = MSEA(self)->searchers[i];
-        TopDocs *td = s->search_w(s, weight, 0, max_size,
-                                  filter, sort, post_filter, true);
+        TopDocs *volatile td = NULL;
+        TRY
+            td = s->search_w(s, weight, 0, max_size,
+                             filter, sort, post_filter, true);
+        XCATCHALL
+            pq_destroy(hq);
+        XENDTRY
         /*if (sort) printf("sort = %s\n", sort_to_s(sort)); */
         if (td->size > 0) {
             /*printf("td->size = %d %d\n", td->size, num_docs); */
-- 
2.43.0


From 58b9b9c500cef89b4d150130186b77c8b8c2da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:41 +0000
Subject: [PATCH 157/181] fix: index_search_str frees its query when the search
 raises an error

---
 c/src/ind.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 0912105..8d34b68 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -303,11 +303,14 @@ TopDocs *index_search_str(Index *self, char *qstr, int first_doc,
                           PostFilter *post_filter)
 {
     Query *query;
-    TopDocs *td;
+    TopDocs *volatile td = NULL;
     query = index_get_query(self, qstr); /* will ensure_searcher is open */
-    td = searcher_search(self->sea, query, first_doc, num_docs,
-                         filter, sort, post_filter);
-    q_deref(query);
+    TRY
+        td = searcher_search(self->sea, query, first_doc, num_docs,
+                             filter, sort, post_filter);
+    XFINALLY
+        q_deref(query);
+    XENDTRY
     return td;
 }
 
-- 
2.43.0


From 07809fb4fdc5ca5ca7cfbdf1d91052a961a1069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:37 +0000
Subject: [PATCH 158/181] fix: explaining the score of a document which does
 not exist is an error and reads no other memory

---
 c/src/search.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9c78ab8..a1780a5 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1263,12 +1263,22 @@ static Query *isea_rewrite(Searcher *self, Query *original)
     return query;
 }
 
+static void sea_check_doc_num(Searcher *self, int doc_num)
+{
+    if (doc_num < 0 || doc_num >= self->max_doc(self)) {
+        RAISE(ARG_ERROR, "Document %d does not exist in this index", doc_num);
+    }
+}
+
 static Explanation *isea_explain(Searcher *self,
                                  Query *query,
                                  int doc_num)
 {
-    Weight *weight = q_weight(query, self);
-    Explanation *e =  weight->explain(weight, ISEA(self)->ir, doc_num);
+    Weight *weight;
+    Explanation *e;
+    sea_check_doc_num(self, doc_num);
+    weight = q_weight(query, self);
+    e = weight->explain(weight, ISEA(self)->ir, doc_num);
     weight->destroy(weight);
     return e;
 }
@@ -1823,9 +1833,12 @@ static Explanation *msea_explain(Searcher *self, Query *query, int doc_num)
 {
     MultiSearcher *msea = MSEA(self);
     int i = msea_get_searcher_index(self, doc_num);
-    Weight *w = q_weight(query, self);
+    Weight *w;
     Searcher *s = msea->searchers[i];
-    Explanation *e = s->explain_w(s, w, doc_num - msea->starts[i]);
+    Explanation *e;
+    sea_check_doc_num(self, doc_num);
+    w = q_weight(query, self);
+    e = s->explain_w(s, w, doc_num - msea->starts[i]);
     w->destroy(w);
     return e;
 }
-- 
2.43.0


From d8f7da34c7ec7d531bedd75b71f96e2108476a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:31 +0000
Subject: [PATCH 159/181] fix: fuzzy queries with a huge similarity convert no
 distance which is not an int

---
 c/src/q_fuzzy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/src/q_fuzzy.c b/c/src/q_fuzzy.c
index f4faf81..4159aac 100644
--- a/c/src/q_fuzzy.c
+++ b/c/src/q_fuzzy.c
@@ -27,7 +27,12 @@
  */
 static INLINE int fuzq_calculate_max_distance(FuzzyQuery *fuzq, int m)
 {
-    return (int)((1.0 - fuzq->min_sim) * (MIN(fuzq->text_len, m) + fuzq->pre_len));
+    const double max = (1.0 - fuzq->min_sim)
+        * (MIN(fuzq->text_len, m) + fuzq->pre_len);
+    if (max >= INT_MAX) {
+        return INT_MAX;
+    }
+    return (max > -INT_MAX) ? (int)max : -INT_MAX;
 }
 
 /**
-- 
2.43.0


From 180dfbabbce0c44193d1a0cafeb17f47f4048e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:07 +0000
Subject: [PATCH 160/181] fix: an excerpt which is close to the end of the
 field does not grow over the excerpt after it

---
 c/src/search.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index a1780a5..9225107 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -740,7 +740,8 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
                              LazyDocField *lazy_df,
                              const char *pre_tag, 
                              const char *post_tag,
-                             const char *ellipsis)
+                             const char *ellipsis,
+                             bool is_last)
 {
     int i, len;
     int last_offset = e->start_offset;
@@ -750,7 +751,7 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
     const int ellipsis_len = (int)strlen(ellipsis);
     char *excerpt_str;
     char *e_ptr;
-    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
+    if (is_last && (lazy_df->len - e->end_offset) <= ellipsis_len) {
         /* no point using ellipsis if it takes up more space */
         e->end_offset = lazy_df->len;
     }
@@ -975,7 +976,8 @@ char **searcher_highlight(Searcher *self,
                 excerpt_expand(ei, merged * excerpt_len, tv);
                 ary_push(excerpt_strs,
                          excerpt_get_str(ei, mv, lazy_df,
-                                         pre_tag, post_tag, ellipsis));
+                                         pre_tag, post_tag, ellipsis,
+                                         i + merged >= num_excerpts));
                 i += merged;
             }
             for (i = 0; i < num_excerpts; i++) {
-- 
2.43.0


From 107ecef2ac17a084d386f3cb3f85844bc1017c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:52 +0000
Subject: [PATCH 161/181] fix: an excerpt does not grow into a match which is
 longer than an excerpt and belongs to the next one

---
 c/src/search.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9225107..4476dfb 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -701,8 +701,10 @@ static Excerpt *excerpt_recalc_score(Excerpt *e, MatchVector *mv)
     return e;
 }
 
-/* expand an excerpt to it's largest possible size */
-static Excerpt *excerpt_expand(Excerpt *e, const int len, TermVector *tv)
+/* expand an excerpt to it's largest possible size, keeping it within the
+ * positions min_pos to max_pos which belong to no other excerpt */
+static Excerpt *excerpt_expand(Excerpt *e, const int len, TermVector *tv,
+                               const int min_pos, const int max_pos)
 {
     Offset *offsets = tv->offsets;
     int offset_cnt = tv->offset_cnt;
@@ -720,13 +722,13 @@ static Excerpt *excerpt_expand(Excerpt *e, const int len, TermVector *tv)
     
     while (did_expansion) {
         did_expansion = false;
-        if (e->start_pos > 0
+        if (e->start_pos > min_pos
             && (e->end_offset - offsets[e->start_pos - 1].start) < len) {
             e->start_pos--;
             e->start_offset = offsets[e->start_pos].start;
             did_expansion = true;
         }
-        if (e->end_pos < (offset_cnt - 1)
+        if (e->end_pos < max_pos
             && (offsets[e->end_pos + 1].end - e->start_offset) < len) {
             e->end_pos++;
             e->end_offset = offsets[e->end_pos].end;
@@ -884,7 +886,7 @@ char **searcher_highlight(Searcher *self,
         }
         else if (mv->size > 0) {
             Excerpt **excerpts = ALLOC_AND_ZERO_N(Excerpt *, num_excerpts);
-            int e_start, e_end, i, j;
+            int e_start, e_end, i, j, min_pos;
             MatchRange *matches = mv->matches;
             double running_score = 0.0;
             Offset *offsets = tv->offsets;
@@ -960,6 +962,7 @@ char **searcher_highlight(Searcher *self,
 
             excerpt_strs = ary_new_type_capa(char *, num_excerpts);
             /* merge excerpts where possible */
+            min_pos = 0;
             for (i = 0; i < num_excerpts;) {
                 Excerpt *ei = excerpts[i];
                 int merged = 1; /* 1 means a single excerpt, ie no merges */
@@ -973,7 +976,11 @@ char **searcher_highlight(Searcher *self,
                         merged = j - i + 1;
                     }
                 }
-                excerpt_expand(ei, merged * excerpt_len, tv);
+                excerpt_expand(ei, merged * excerpt_len, tv, min_pos,
+                               (i + merged < num_excerpts)
+                               ? excerpts[i + merged]->start_pos - 1
+                               : tv->offset_cnt - 1);
+                min_pos = ei->end_pos + 1;
                 ary_push(excerpt_strs,
                          excerpt_get_str(ei, mv, lazy_df,
                                          pre_tag, post_tag, ellipsis,
-- 
2.43.0


From 5c08eff17749d4ca02a00b55217f4deaf6d3f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 162/181] fix: a clause which a query has twice counts twice in
 a multi-searcher too

---
 c/src/search.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 4476dfb..c1e9319 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -375,8 +375,18 @@ Query *q_combine(Query **queries, int q_cnt)
 {
     int i;
     Query *q, *ret_q;
-    HashSet *uniques = hs_new((hash_ft)&q_hash, (eq_ft)&q_eq, NULL);
+    HashSet *uniques;
 
+    /* a query which is the same for all is not to be taken apart. It may well
+     * have the same clause twice */
+    for (i = 1; i < q_cnt && q_eq(queries[0], queries[i]); i++) {
+    }
+    if (q_cnt > 0 && i >= q_cnt) {
+        REF(queries[0]);
+        return queries[0];
+    }
+
+    uniques = hs_new((hash_ft)&q_hash, (eq_ft)&q_eq, NULL);
     for (i = 0; i < q_cnt; i++) {
         q = queries[i];
         if (q->type == BOOLEAN_QUERY) {
-- 
2.43.0


From d6786c01921b25a0007d6a9b34da916d0377ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:15 +0000
Subject: [PATCH 163/181] fix: a field which comes with an index being added
 keeps its boost

---
 c/src/index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/index.c b/c/src/index.c
index c630f27..ad6b4c5 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -7009,6 +7009,7 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
         if (NULL == new_fi) {
             new_fi = fi_new(fi->name, STORE_NO, INDEX_NO, TERM_VECTOR_NO);
             new_fi->bits = fi->bits;
+            new_fi->boost = fi->boost;
             fis_add_field(fis, new_fi);
         }
         new_fi->bits |= fi->bits;
-- 
2.43.0


From 7cde7130f59694f9b299fce35a5ff6d56e8018ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:30 +0000
Subject: [PATCH 164/181] fix: the weight a multi-searcher makes of a filtered
 query uses the frequencies of its terms

---
 c/src/q_filtered_query.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 7fdb868..0e78e81 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -214,6 +214,11 @@ static int fq_eq(Query *self, Query *o)
         && filt_eq(FQQ(self)->filter, FQQ(o)->filter);
 }
 
+static void fq_extract_terms(Query *self, HashSet *terms)
+{
+    FQQ(self)->query->extract_terms(FQQ(self)->query, terms);
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -232,6 +237,7 @@ Query *fq_new(Query *query, Filter *filter)
     self->to_s              = &fq_to_s;
     self->hash              = &fq_hash;
     self->eq                = &fq_eq;
+    self->extract_terms     = &fq_extract_terms;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From 41892c617cc003870b52a75cdf2cae1ff6a42a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 165/181] fix: highlighting a field whose only value is empty
 gives the empty text instead of an error

---
 c/src/search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index c1e9319..c4d5b9b 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -859,7 +859,9 @@ static char *highlight_field(MatchVector *mv,
         *e_ptr = '\0';
     }
     else {
-        lazy_df_get_bytes(lazy_df, excerpt_str, 0, lazy_df->len);
+        if (lazy_df->len > 0) {
+            lazy_df_get_bytes(lazy_df, excerpt_str, 0, lazy_df->len);
+        }
         excerpt_str[lazy_df->len] = '\0';
     }
     return excerpt_str;
-- 
2.43.0


From 72b1a84bb26453101a267a159a9d9a716f126567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:07 +0000
Subject: [PATCH 166/181] fix: a string added to an index is not leaked

---
 c/src/ind.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 8d34b68..df8e81c 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -269,7 +269,9 @@ void index_add_doc(Index *self, Document *doc)
 void index_add_string(Index *self, char *str)
 {
     Document *doc = doc_new();
-    doc_add_field(doc, df_add_data(df_new(self->def_field), estrdup(str)));
+    DocField *df = doc_add_field(doc, df_new(self->def_field));
+    df->destroy_data = true;
+    df_add_data(df, estrdup(str));
     index_add_doc(self, doc);
     doc_destroy(doc);
 }
-- 
2.43.0


From 9005f4eda08443cbaee71ea24614fe43fe769c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:07 +0000
Subject: [PATCH 167/181] fix: an array of strings added to an index becomes
 the values of one field, which could not be added twice

---
 c/src/ind.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index df8e81c..17e7b95 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -280,9 +280,10 @@ void index_add_array(Index *self, char **fields)
 {
     int i;
     Document *doc = doc_new();
+    DocField *df = doc_add_field(doc, df_new(self->def_field));
+    df->destroy_data = true;
     for (i = 0; i < ary_size(fields); i++) {
-        doc_add_field(doc, df_add_data(df_new(self->def_field),
-                                       estrdup(fields[i])));
+        df_add_data(df, estrdup(fields[i]));
     }
     index_add_doc(self, doc);
     doc_destroy(doc);
-- 
2.43.0


From 03d6184ac220dde4ae0efe1165f2567ef8ffa1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:39 +0000
Subject: [PATCH 168/181] fix: the text of an index's field infos does not
 overrun its buffer when names are long

---
 c/src/index.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index ad6b4c5..da2abac 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -539,11 +539,18 @@ static const char *fi_term_vector_str(FieldInfo *fi)
 
 char *fis_to_s(FieldInfos *fis)
 {
-    int i, pos, capa = 200 + fis->size * 120;
-    char *buf = ALLOC_N(char, capa);
+    int i, pos;
+    size_t capa = 200;
+    char *buf;
     FieldInfo *fi;
     const int fis_size = fis->size;
 
+    for (i = 0; i < fis_size; i++) {
+        /* 200 is enough for the longest settings, including the boost */
+        capa += strlen((char *)fis->fields[i]->name) + 200;
+    }
+    buf = ALLOC_N(char, capa);
+
     pos = sprintf(buf,
                   "default:\n"
                   "  store: %s\n"
-- 
2.43.0


From 487a00f2e8f630c1a7088e6783a6c10b3305553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:39 +0000
Subject: [PATCH 169/181] fix: ir_index_exists tells whether there is an index

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index da2abac..29f9bde 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4062,7 +4062,7 @@ static IndexReader *ir_setup(IndexReader *ir, Store *store, SegmentInfos *sis,
 
 bool ir_index_exists(Store *store)
 {
-    return sis_current_segment_generation(store) != 1;
+    return sis_current_segment_generation(store) >= 0;
 }
 
 int ir_get_field_num(IndexReader *ir, Symbol field)
-- 
2.43.0


From e2b8f37b4152a2ab3115b5d4258a494bed5c7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:48 +0000
Subject: [PATCH 170/181] fix: with_lock and with_lock_name release the lock
 when the function raises

---
 c/src/store.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/c/src/store.c b/c/src/store.c
index 7d6df97..9566330 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -5,31 +5,32 @@
 #define VINT_MAX_LEN 10
 #define VINT_END BUFFER_SIZE - VINT_MAX_LEN
 
-/*
- * TODO: add try finally
- */
 void with_lock(Lock *lock, void (*func)(void *arg), void *arg)
 {
     if (!lock->obtain(lock)) {
         RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock->name);
     }
-    func(arg);
-    lock->release(lock);
+    TRY
+        func(arg);
+    XFINALLY
+        lock->release(lock);
+    XENDTRY
 }
 
-/*
- * TODO: add try finally
- */
 void with_lock_name(Store *store, const char *lock_name,
                     void (*func)(void *arg), void *arg)
 {
     Lock *lock = store->open_lock_i(store, lock_name);
     if (!lock->obtain(lock)) {
-        RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock->name);
+        store->close_lock_i(lock);
+        RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock_name);
     }
-    func(arg);
-    lock->release(lock);
-    store->close_lock_i(lock);
+    TRY
+        func(arg);
+    XFINALLY
+        lock->release(lock);
+        store->close_lock_i(lock);
+    XENDTRY
 }
 
 void store_deref(Store *store)
-- 
2.43.0


From a79973ada003339935f9cfe863ed636897c1ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:04 +0000
Subject: [PATCH 171/181] fix: searcher_get_match_vector frees a term vector
 without positions

---
 c/src/search.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/search.c b/c/src/search.c
index c4d5b9b..3347a0d 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -651,6 +651,8 @@ MatchVector *searcher_get_match_vector(Searcher *self,
     }
     if (tv && tv->term_cnt > 0 && tv->terms[0].positions != NULL) {
         mv = query->get_matchv_i(query, mv, tv);
+    }
+    if (tv) {
         tv_destroy(tv);
     }
     if (rewrite) {
-- 
2.43.0


From fe9c394d7db0c79daf334625ba4839db5f5829e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 172/181] fix: the match vector of a boolean query includes the
 clauses which need rewriting

---
 c/src/search.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 3347a0d..5e97627 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -644,20 +644,15 @@ MatchVector *searcher_get_match_vector(Searcher *self,
                                        Symbol field)
 {
     MatchVector *mv = matchv_new();
-    bool rewrite = query->get_matchv_i == q_get_matchv_i;
     TermVector *tv = self->get_term_vector(self, doc_num, field);
-    if (rewrite) {
-        query = self->rewrite(self, query);
-    }
+    query = self->rewrite(self, query);
     if (tv && tv->term_cnt > 0 && tv->terms[0].positions != NULL) {
         mv = query->get_matchv_i(query, mv, tv);
     }
     if (tv) {
         tv_destroy(tv);
     }
-    if (rewrite) {
-        q_deref(query);
-    }
+    q_deref(query);
     return mv;
 }
 
-- 
2.43.0


From f000fb04405f9212a2018d2f4d3871a296ff2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:48 +0000
Subject: [PATCH 173/181] fix: the text of field infos says so when fields are
 compressed by default

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 29f9bde..94167ce 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -496,7 +496,7 @@ void fis_write(FieldInfos *fis, OutStream *os)
 static const char *store_str[] = {
     ":no",
     ":yes",
-    "",
+    ":compressed",
     ":compressed"
 };
 
-- 
2.43.0


From de3921231c98d8854212cffc7e5a91321ac8aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 174/181] fix: the text of a near query with many clauses does
 not overrun its buffer

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 879c8e0..cc12911 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -2022,7 +2022,7 @@ static char *spannq_to_s(Query *self, Symbol field)
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
         q_strs[i] = clause->to_s(clause, field);
-        len += strlen(q_strs[i]);
+        len += strlen(q_strs[i]) + 1;
     }
 
     res_p = res = ALLOC_N(char, len);
-- 
2.43.0


From 2ae9b3b7328c8e9b2228f805e47d3981687e9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 175/181] fix: an empty bound of a typed range is no number

---
 c/src/q_range.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index ab91d1c..1accdd8 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -157,10 +157,10 @@ static Range *trange_new(Symbol field, const char *lower_term,
     }
     if (upper_term && lower_term) {
         if ((!lower_term ||
-             (sscanf(lower_term, "%lg%n", &lower_num, &len) &&
+             (sscanf(lower_term, "%lg%n", &lower_num, &len) == 1 &&
               (int)strlen(lower_term) == len)) &&
             (!upper_term ||
-             (sscanf(upper_term, "%lg%n", &upper_num, &len) &&
+             (sscanf(upper_term, "%lg%n", &upper_num, &len) == 1 &&
               (int)strlen(upper_term) == len)))
         {
             if (upper_num < lower_num) {
@@ -350,8 +350,10 @@ static BitVector *trfilt_get_bv_i(Filter *filt, IndexReader *ir)
     int len = 0;
     const char *lt = range->lower_term;
     const char *ut = range->upper_term;
-    if ((!lt || (sscanf(lt, "%lg%n", &lnum, &len) && (int)strlen(lt) == len)) &&
-        (!ut || (sscanf(ut, "%lg%n", &unum, &len) && (int)strlen(ut) == len)))
+    if ((!lt || (sscanf(lt, "%lg%n", &lnum, &len) == 1
+                 && (int)strlen(lt) == len)) &&
+        (!ut || (sscanf(ut, "%lg%n", &unum, &len) == 1
+                 && (int)strlen(ut) == len)))
     {
         BitVector *bv = bv_new_capa(ir->max_doc(ir));
         FieldInfo *fi = fis_get_field(ir->fis, range->field);
@@ -585,10 +587,10 @@ static MatchVector *trq_get_matchv_i(Query *self, MatchVector *mv,
         const char *lt = range->lower_term;
         const char *ut = range->upper_term;
         if ((!lt
-             || (sscanf(lt,"%lg%n",&lnum,&len) && (int)strlen(lt) == len))
+             || (sscanf(lt,"%lg%n",&lnum,&len) == 1 && (int)strlen(lt) == len))
             &&
             (!ut
-             || (sscanf(ut,"%lg%n",&unum,&len) && (int)strlen(ut) == len)))
+             || (sscanf(ut,"%lg%n",&unum,&len) == 1 && (int)strlen(ut) == len)))
         {
             TypedRangeCheck check = TRC_NONE;
             int i = 0, j = 0;
-- 
2.43.0


From a468ce55d55adc1daf47e07a020066a9bb834505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:33 +0000
Subject: [PATCH 176/181] fix: a term that occurs twice in a query to a
 multi-searcher is not leaked

---
 c/src/search.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 5e97627..272b51f 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1586,10 +1586,9 @@ static Weight *msea_create_weight(Searcher *self, Query *query)
                          (free_ft)term_destroy,
                          free);
     Query *rewritten_query = self->rewrite(self, query);
-    /* terms get copied directly to df_map so no need to free here */
     HashSet *terms = hs_new((hash_ft)&term_hash,
                             (eq_ft)&term_eq,
-                            (free_ft)NULL);
+                            (free_ft)term_destroy);
     HashSetEntry *hse;
 
     rewritten_query->extract_terms(rewritten_query, terms);
@@ -1598,7 +1597,8 @@ static Weight *msea_create_weight(Searcher *self, Query *query)
     for (hse = terms->first, i = 0; hse; ++i, hse = hse->next) {
         h_set(df_map, hse->elem, imalloc(doc_freqs[i])); 
     }
-    hs_destroy(terms);
+    /* the terms now belong to df_map so they are not freed here */
+    hs_free(terms);
     free(doc_freqs);
 
     cdfsea = cdfsea_new(df_map, MSEA(self)->max_doc);
-- 
2.43.0


From a1e62b52d7af3e90ff4f94fc69b783c5609a01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:20 +0000
Subject: [PATCH 177/181] fix: a deletion by term looks its field up under the
 writer's lock

---
 c/src/index.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 94167ce..1801573 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6672,12 +6672,14 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
 void iw_delete_terms(IndexWriter *iw, Symbol field,
                      char **terms, const int term_cnt)
 {
-    int field_num = fis_get_field_num(iw->fis, field);
+    int field_num;
+    IW_UPDATE_BEGIN(iw);
+    /* other threads may be adding fields so only look under the lock */
+    field_num = fis_get_field_num(iw->fis, field);
     if (field_num >= 0) {
-        IW_UPDATE_BEGIN(iw);
         iw_delete_terms_i(iw, field_num, terms, term_cnt);
-        IW_UPDATE_END(iw);
     }
+    IW_UPDATE_END(iw);
 }
 
 static void iw_optimize_i(IndexWriter *iw)
-- 
2.43.0


From 1dd594d1e524cc22a4a83d8a6dbc7d57338bc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:40 +0000
Subject: [PATCH 178/181] fix: a filtered query is rewritten, so that a
 multi-searcher can run any query filtered

---
 c/src/q_filtered_query.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 0e78e81..4225082 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -219,6 +219,23 @@ static void fq_extract_terms(Query *self, HashSet *terms)
     FQQ(self)->query->extract_terms(FQQ(self)->query, terms);
 }
 
+static Query *fq_rewrite(Query *self, IndexReader *ir)
+{
+    Query *query = FQQ(self)->query;
+    Query *rq = query->rewrite(query, ir);
+    Query *rewritten;
+
+    if (rq == query) {
+        q_deref(rq);
+        REF(self);
+        return self;
+    }
+    REF(FQQ(self)->filter);
+    rewritten = fq_new(rq, FQQ(self)->filter);
+    rewritten->boost = self->boost;
+    return rewritten;
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -237,6 +254,7 @@ Query *fq_new(Query *query, Filter *filter)
     self->to_s              = &fq_to_s;
     self->hash              = &fq_hash;
     self->eq                = &fq_eq;
+    self->rewrite           = &fq_rewrite;
     self->extract_terms     = &fq_extract_terms;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
-- 
2.43.0


From 8ab2787543bc16d331b897397c0620d4d07a7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:28 +0000
Subject: [PATCH 179/181] fix: a regular expression matches characters also in
 text it is given while indexing

---
 ruby/ext/r_analysis.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index a2cf2db..a5efdb6 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -816,10 +816,28 @@ rets_next(TokenStream *ts)
 
 #endif
 
+static VALUE
+rets_text_new(const char *text, VALUE regex)
+{
+    VALUE rtext = rb_str_new2(text);
+#ifdef FRT_RUBY_VERSION_1_9
+    /* match characters, just as in a text that was set from Ruby */
+    rb_encoding *enc = rb_utf8_encoding();
+    if (RTEST(rb_funcall(regex, rb_intern("fixed_encoding?"), 0))) {
+        enc = rb_enc_get(regex);
+    }
+    rb_enc_associate(rtext, enc);
+    if (!RTEST(rb_funcall(rtext, rb_intern("valid_encoding?"), 0))) {
+        rb_enc_associate(rtext, rb_ascii8bit_encoding());
+    }
+#endif
+    return rtext;
+}
+
 static TokenStream *
 rets_reset(TokenStream *ts, char *text)
 {
-    RETS(ts)->rtext = rb_str_new2(text);
+    RETS(ts)->rtext = rets_text_new(text, RETS(ts)->regex);
     RETS(ts)->curr_ind = 0;
     rets_protect(ts);
     return ts;
-- 
2.43.0


From 4d90ee850a07da7c453c7c9879db434062d5170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:48 +0000
Subject: [PATCH 180/181] fix: a boolean clause holds the query it is given
 later

---
 ruby/ext/r_search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index 5fdd07b..731aa0a 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -863,7 +863,11 @@ static VALUE
 frb_bc_set_query(VALUE self, VALUE rquery)
 {
     GET_BC();
-    Data_Get_Struct(rquery, Query, bc->query);
+    Query *query, *old_query = bc->query;
+    Data_Get_Struct(rquery, Query, query);
+    REF(query);
+    bc->query = query;
+    q_deref(old_query);
     return rquery;
 }
 
-- 
2.43.0


From cd357060ab21992da07ff82849020cc22cb4bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:48 +0000
Subject: [PATCH 181/181] fix: the block of a regular expression analyzer
 survives a collection in the constructor

---
 ruby/ext/r_analysis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index a5efdb6..3362e57 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -1670,6 +1670,9 @@ frb_re_analyzer_init(int argc, VALUE *argv, VALUE self)
     a = analyzer_new(ts, &re_analyzer_destroy_i, NULL);
     Frt_Wrap_Struct(self, &frb_re_analyzer_mark, &frb_analyzer_free, a);
     object_add(a, self);
+    /* nothing else refers to these until here */
+    RB_GC_GUARD(proc);
+    RB_GC_GUARD(rets);
     return self;
 }
 
-- 
2.43.0

