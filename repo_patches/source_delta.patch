From 5d130753fcb650290fe61b8c7455b244e3667f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 01/51] fix: bit-stream: do not read past the end when getting
 0 big-endian bits

bs_be_get_bits(bs, 0, &out) dereferenced the byte at the current position,
which does not exist when the stream is at the end of its buffer.
---
 src/bit-stream.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bit-stream.h b/src/bit-stream.h
index 6810ff6..a1694aa 100644
--- a/src/bit-stream.h
+++ b/src/bit-stream.h
@@ -476,6 +476,11 @@ static inline uint64_t __bs_be_peek_bits(const bit_stream_t *bs, size_t blen)
     size_t remain = blen;
     uint64_t res = 0;
 
+    if (unlikely(!blen)) {
+        /* There may be no byte to read at all. */
+        return 0;
+    }
+
     if (offset + blen <= 8) {
         res = (*b >> (8 - (offset + blen))) & BITMASK_LT(uint64_t, blen);
         return res;
-- 
2.43.0


From df04272b1c4a53788bbd5641078c76cd85eb2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 02/51] fix: bit-stream: no overflow when checking that bytes
 are available

bs_has_bytes() and bs_get_bytes() compared len * 8 to the number of bits of
the stream: for len >= 2^61 the product wraps and bytes outside of the stream
were returned.
---
 src/bit-stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit-stream.h b/src/bit-stream.h
index a1694aa..629f77b 100644
--- a/src/bit-stream.h
+++ b/src/bit-stream.h
@@ -156,7 +156,7 @@ static inline bool bs_has(const bit_stream_t *bs, size_t blen)
 
 static inline bool bs_has_bytes(const bit_stream_t *bs, size_t olen)
 {
-    return olen * 8 <= bs_len(bs);
+    return olen <= bs_len(bs) / 8;
 }
 
 static inline bool bs_done(const bit_stream_t *bs)
@@ -333,7 +333,7 @@ static inline pstream_t __bs_get_bytes(bit_stream_t *bs, size_t len)
 static inline int bs_get_bytes(bit_stream_t *bs, size_t len, pstream_t *ps)
 {
     BS_WANT(bs_is_aligned(bs));
-    BS_WANT(bs_has(bs, len * 8));
+    BS_WANT(bs_has_bytes(bs, len));
     *ps = __bs_get_bytes(bs, len);
     return 0;
 }
-- 
2.43.0


From fb74c40bf470ef1cec59cc8496034a619d2ec49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 03/51] fix: bit-stream: bs_get_last_bits keeps the stream when
 it fails

When asked for more than 64 bits, bs_get_last_bits() and
bs_be_get_last_bits() returned an error after having dropped the bits.
---
 src/bit-stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bit-stream.h b/src/bit-stream.h
index 629f77b..079b830 100644
--- a/src/bit-stream.h
+++ b/src/bit-stream.h
@@ -435,6 +435,7 @@ bs_get_last_bits(bit_stream_t *bs, size_t blen, uint64_t *out)
     bit_stream_t tmp = *bs;
     const size_t orig_len = bs_len(bs);
 
+    BS_WANT(blen <= 64);
     BS_CHECK(bs_shrink(bs, blen));
     __bs_skip(&tmp, orig_len - blen);
     BS_CHECK(bs_get_bits(&tmp, blen, out));
@@ -556,6 +557,7 @@ bs_be_get_last_bits(bit_stream_t *bs, size_t blen, uint64_t *out)
     bit_stream_t tmp = *bs;
     const size_t orig_len = bs_len(bs);
 
+    BS_WANT(blen <= 64);
     BS_CHECK(bs_shrink(bs, blen));
     __bs_skip(&tmp, orig_len - blen);
     BS_CHECK(bs_be_get_bits(&tmp, blen, out));
-- 
2.43.0


From b41ae976b081e2b7c8e453c56f0b24c4bdc170fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:42 +0000
Subject: [PATCH 04/51] fix: bb_shift_left no longer accesses the word after a
 full bit-buffer

When the bits fill the buffer exactly, the word loop read and cleared
data[size]. Make sure the word that follows the bits exists.
---
 src/core/bit-buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/bit-buf.c b/src/core/bit-buf.c
index d1fbff3..3e436e0 100644
--- a/src/core/bit-buf.c
+++ b/src/core/bit-buf.c
@@ -155,7 +155,11 @@ void bb_shift_left(bb_t *bb, size_t shift)
 
         /* We have to shift the bit-buffer word per word… Here we are allowed
          * to overflow a little because we know that we are always aligned on
-         * 8 bytes. */
+         * 8 bytes. When the bit-buffer is full, the last word touched is the
+         * one that follows its bits. */
+        if (bb->word >= bb->size) {
+            __bb_grow(bb, 1);
+        }
         while (src < bb->word) {
             /* Copy the bits from src which have to be shifted in dst */
             bb->data[dst++] = ((bb->data[src] >> wshift)
-- 
2.43.0


From cfee20c4ea9c6e0e97807adf291d5103fbf2af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:42 +0000
Subject: [PATCH 05/51] fix: bsf does not read the memory when there is nothing
 to scan

bsf(ptr, off, 0) read the word at ptr even when it lies after the end of
the data, for instance when scanning an empty bit-stream.
---
 src/core/bithacks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/bithacks.c b/src/core/bithacks.c
index 5123310..684019f 100644
--- a/src/core/bithacks.c
+++ b/src/core/bithacks.c
@@ -132,6 +132,10 @@ ssize_t bsf(const void *data, size_t start_bit, size_t len, bool reverse)
     const uint64_t *pos;
     size_t off = 0;
 
+    if (len == 0) {
+        return -1;
+    }
+
     /* Align the pointer if needed */
     pos = (const uint64_t *)(((uintptr_t)data) & ~7ul);;
     if (pos != data) {
-- 
2.43.0


From 1b18036a1e9e5f1a997f99c0239b333b9147d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:34 +0000
Subject: [PATCH 06/51] fix: ps_split_escaped does not read past the end of the
 stream

---
 src/core/str-stream.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index e69aa2f..28401e9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -180,6 +180,9 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
         tmp = ps_get_cspan(&ps, &sep_esc);
         sb_add(&sb, tmp.s, tmp.s_end - tmp.s);
 
+        if (ps_done(&ps)) {
+            break;
+        }
         if (ctype_desc_contains(sep, *ps.s)) {
             if (mp) {
                 qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
-- 
2.43.0


From e9cd9921e76d1fb38d8947dc21694e838d47bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:34 +0000
Subject: [PATCH 07/51] fix: ps_split_escaped allocates its last chunk in the
 given pool

---
 src/core/str-stream.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index 28401e9..53bf9b9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -222,6 +222,13 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
     if (!(flags & PS_SPLIT_SKIP_EMPTY)  /* last character is a separator */
     ||  (sb.len != 0))                  /* last character is an escape */
     {
-        qv_append(res, t_lstr_dup(LSTR_SB_V(&sb)));
+        if (mp) {
+            qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
+        } else {
+            lstr_t dst = LSTR_NULL;
+
+            lstr_transfer_sb(&dst, &sb, false);
+            qv_append(res, dst);
+        }
     }
 }
-- 
2.43.0


From c3c402809fa7d06ce798b2c62d8fdfbda0c7395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 08/51] fix: utf-8 decoding does not read the first byte of an
 empty string

---
 src/core/str-conv.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/str-conv.h b/src/core/str-conv.h
index fe47085..61c2d31 100644
--- a/src/core/str-conv.h
+++ b/src/core/str-conv.h
@@ -134,8 +134,12 @@ static inline uint8_t __pstrputuc(char * nonnull dst, int32_t c)
 /* XXX 0 means invalid utf8 char */
 static inline uint8_t utf8_charlen(const char * nonnull s, int len)
 {
-    uint8_t charlen = __utf8_char_len[(unsigned char)*s >> 3];
+    uint8_t charlen;
 
+    if (unlikely(len == 0)) {
+        return 0;
+    }
+    charlen = __utf8_char_len[(unsigned char)*s >> 3];
     if (len >= 0 && unlikely(len < charlen)) {
         return 0;
     }
@@ -224,7 +228,10 @@ static ALWAYS_INLINE int utf8_getc(const char * nonnull s,
 static ALWAYS_INLINE int utf8_ngetc(const char * nonnull s, int len,
                                     const char * nullable * nullable out)
 {
-    if (len && (unsigned char)*s < 0x80) {
+    if (unlikely(len == 0)) {
+        return -1;
+    }
+    if ((unsigned char)*s < 0x80) {
         if (out) {
             *out = s + 1;
         }
-- 
2.43.0


From 6a14df5231a7cfac7ba6b0a3d021717f1b81d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 09/51] fix: sb_conv_from_ucs2*_hex rejects a truncated last
 code unit

---
 src/core/str-conv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index c2f9e3f..532d5d5 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -787,9 +787,9 @@ static int sb_conv_from_ucs2_hex(sb_t *sb, const void *s, int slen, bool is_be)
     char *w, *wend;
     sb_t orig = *sb;
 
-    slen /= 2;
-    if (slen & 1)
+    if (slen & 3)
         return -1;
+    slen /= 2;
 
     w    = sb_grow(sb, slen / 2);
     wend = w + sb_avail(sb);
-- 
2.43.0


From acc86c30063c71ce91bbc3e41577d2878179c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:39 +0000
Subject: [PATCH 10/51] fix: hpack: estimate of the size of a huffman-coded
 value

The estimate returned by hpack_decoder_extract_hdr used the flag of the key
to know whether the value is huffman-coded: the output buffer could be
overflowed when the key is raw and the value is not.
---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 33b71f9..9cb1ed4 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -987,7 +987,7 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
         }
         val = __ps_get_ps(in, len);
         /* XXX: huffman encoding maximum compression ratio: 5/8 */
-        vallen = (flags & XHDR_RAW_KEY) ? len : 2u * len;
+        vallen = (flags & XHDR_RAW_VAL) ? len : 2u * len;
     }
     if (add_dtbl) {
         flags |= XHDR_ADD_DTBL;
-- 
2.43.0


From 7324f4158378aa4d64326ad3ee81840c79189890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:12 +0000
Subject: [PATCH 11/51] fix: hpack: eviction of an entry that has a key id and
 no value id

An entry added with a value id of 0 is never the most recent one for its
value: evicting it aborted on the assertion that it is.
---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 9cb1ed4..7a9f46e 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -533,7 +533,7 @@ static void hpack_enc_dtbl_evict_last_entry(hpack_enc_dtbl_t *dtbl)
     }
     assert(dtbl->tbl_size >= e.sz);
     dtbl->tbl_size -= e.sz;
-    assert(!e.mre_key || e.mre_val);
+    assert(!e.mre_key || e.mre_val || !e.val_id);
     if (e.mre_key) {
         assert(e.key_id);
         qm_del_key(hpack_insertion_idx, &dtbl->ins_idx, e.key_id);
-- 
2.43.0


From 50175edbe0575c5ee069c16c7297a8dada1c6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 12/51] fix: hpack: do not read past the end of a truncated
 header

hpack_decoder_extract_hdr looked at the first byte of the key and of the value
before checking that there is one.
---
 src/net/hpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 7a9f46e..6694a46 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -954,6 +954,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     if (!idx) {
         /* New Name (key) */
         flags |= XHDR_NEW_KEY;
+        if (ps_done(in)) {
+            return LOGE("missing key");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_KEY : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the key length");
@@ -978,6 +981,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     }
     if (new_val) {
         flags |= XHDR_NEW_VAL;
+        if (ps_done(in)) {
+            return LOGE("missing value");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_VAL : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the value length");
-- 
2.43.0


From ef7037029fd4f0711996e4eb92820e4536613290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:11 +0000
Subject: [PATCH 13/51] fix: hpack: decoder's dynamic table entries own their
 keys

When a header reused the key of an entry of the dynamic table, the ownership
of the key was moved from this entry to the new one. If that entry had already
given its key away, the new entry was left with a key that is freed when the
actual owner is evicted.
---
 src/net/hpack.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 6694a46..2c6fde5 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -1069,12 +1069,11 @@ int hpack_decoder_write_hdr(hpack_dec_dtbl_t *dtbl, hpack_xhdr_t *xhdr,
     *out++ = '\n';
     if (xhdr->flags & XHDR_ADD_DTBL) {
         assert(xhdr->flags & XHDR_NEW_VAL);
-        if (xhdr->flags & XHDR_NEW_KEY) {
+        if ((xhdr->flags & XHDR_NEW_KEY) || ent) {
+            /* XXX: entries of the dyn. table do not share their keys: the
+             * entry whose key is used may not own it, and may be evicted
+             * after or before the one which does. */
             key = lstr_dup(key);
-        } else if (ent) {
-            /* new entry in the dyn. table with the same key, old entry loses
-             * ownership of the string buffer. */
-            ent->key = lstr_dupc(key);
         }
         val = lstr_dup(val);
         hpack_dec_dtbl_add_hdr(dtbl, key, val);
-- 
2.43.0


From a562d8f1204e0366824b8ef4316ffd0da38c5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 14/51] fix: http2: room for the separators of a decoded header
 line

hpack_decoder_write_hdr needs 4 bytes more than the estimate of
hpack_decoder_extract_hdr: the buffer of the header lines was overflowed.
---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index f062be5..54febd4 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -4538,7 +4538,7 @@ t_http2_conn_decode_header_block(http2_conn_t *w, pstream_t in,
         lstr_t val;
 
         len = RETHROW(hpack_decoder_extract_hdr(dec, &in, &xhdr));
-        out = (byte *)sb_grow(buf, len);
+        out = (byte *)sb_grow(buf, len + 4);
         /* XXX: Decoded header is unpacked into the following format:
          * <DECODED_KEY> + ": " + <DECODED_VALUE> + "\r\n".
          */
-- 
2.43.0


From 93a93745a72b904ad72289c663b055c18e87b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 15/51] fix: qvector_splice writes the inserted values when
 both lengths are constants

---
 src/container-qvector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/container-qvector.h b/src/container-qvector.h
index 134255f..da9c4e3 100644
--- a/src/container-qvector.h
+++ b/src/container-qvector.h
@@ -179,7 +179,10 @@ qvector_splice(qvector_t * nonnull vec, size_t v_size, size_t v_align,
                     vec->tab + v_size * (pos + rm_len),
                     v_size * (vec->len - pos - rm_len));
             vec->len += inserted_len - rm_len;
-            return vec->tab + v_size * pos;
+            res = vec->tab + v_size * pos;
+            return inserted_values
+                 ? memcpy(res, inserted_values, inserted_len * v_size)
+                 : res;
         }
     }
     if (__builtin_constant_p(rm_len) && rm_len == 0 && pos == vec->len) {
-- 
2.43.0


From 76df42779f5e27287b200305164092978805afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 16/51] fix: uniq_i8 keeps the order of signed values

---
 src/core/sort-numeric.in.c | 4 ++--
 src/core/sort.blk          | 1 +
 src/sort.h                 | 4 +---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/sort-numeric.in.c b/src/core/sort-numeric.in.c
index fc87c0e..2810553 100644
--- a/src/core/sort-numeric.in.c
+++ b/src/core/sort-numeric.in.c
@@ -162,7 +162,7 @@ size_t uniq(type_t data[], size_t len)
     size_t pos = 0;
 
     for (size_t i = 0; i < len; i++) {
-        SET_BIT(flags, data[i]);
+        SET_BIT(flags, TRANSLATE(data[i]));
     }
 
     for (int i = 0; i < countof(flags); i++) {
@@ -170,7 +170,7 @@ size_t uniq(type_t data[], size_t len)
             int bit = bsf64(flags[i]);
 
             RST_BIT(&flags[i], bit);
-            data[pos++] = bitsizeof(flags[i]) * i + bit;
+            data[pos++] = TRANSLATE((int)bitsizeof(flags[i]) * i + bit);
         }
     }
     return pos;
diff --git a/src/core/sort.blk b/src/core/sort.blk
index 5303ce9..1a3276c 100644
--- a/src/core/sort.blk
+++ b/src/core/sort.blk
@@ -30,6 +30,7 @@
 #define utype_t   uint8_t
 #define TYPE_MIN  INT8_MIN
 #define dsort     dsort_i8
+#define uniq      uniq_i8
 #include "sort-numeric.in.c"
 
 #define type_t   uint16_t
diff --git a/src/sort.h b/src/sort.h
index f5f3167..9f6684b 100644
--- a/src/sort.h
+++ b/src/sort.h
@@ -35,9 +35,7 @@ bool contains_i8(int8_t what, const int8_t data[], size_t len);
 void   dsort8(uint8_t base[], size_t n);
 void   dsort_i8(int8_t base[], size_t n);
 size_t uniq8(uint8_t base[], size_t n);
-static inline size_t uniq_i8(int8_t base[], size_t n) {
-    return uniq8((uint8_t *)base, n);
-}
+size_t uniq_i8(int8_t base[], size_t n);
 
 static inline size_t
 bisect16(uint16_t what, const uint16_t data[], size_t len, bool *found);
-- 
2.43.0


From 86a702642763fbe3ecf473464cfc36883e431eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 17/51] fix: htlist_splice_tail to an empty list

---
 src/container-htlist.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/container-htlist.h b/src/container-htlist.h
index 93e6c62..db29490 100644
--- a/src/container-htlist.h
+++ b/src/container-htlist.h
@@ -170,6 +170,9 @@ static inline void htlist_move(htlist_t * nonnull dst,
 static inline void htlist_splice_tail(htlist_t * nonnull dst,
                                       htlist_t * nonnull src)
 {
+    if (htlist_is_empty(dst)) {
+        htlist_splice(dst, src);
+    } else
     if (!htlist_is_empty(src)) {
         src->tail->next = dst->tail->next;
         dst->tail->next = src->head;
-- 
2.43.0


From 4b9007c3203657dcee569d82e37dfb48b265ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 18/51] fix: RING_FILTER that keeps nothing of a full ring
 empties it

---
 src/container-ring.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/container-ring.h b/src/container-ring.h
index 61d2015..a2d14c0 100644
--- a/src/container-ring.h
+++ b/src/container-ring.h
@@ -43,17 +43,18 @@ void generic_ring_ensure(generic_ring *r, int newlen, int el_siz)
 
 #define RING_FILTER(r, f, ...)                                         \
     do {                                                               \
-        int __r = (r)->first, __w = __r;                               \
+        int __r = (r)->first, __w = __r, __kept = 0;                   \
         for (int __i = (r)->len; __i > 0; __i--) {                     \
             if (f((r)->tab + __r, ##__VA_ARGS__)) {                    \
                 (r)->tab[__w] = (r)->tab[__r];                         \
+                __kept++;                                              \
                 if (++__w == (r)->size)                                \
                     __w = 0;                                           \
             }                                                          \
             if (++__r == (r)->size)                                    \
                 __r = 0;                                               \
         }                                                              \
-        (r)->len -= __r >= __w ? __r - __w : (r)->size + __r - __w;    \
+        (r)->len = __kept;                                             \
     } while (0)
 
 #define RING_FUNCTIONS(type_t, pfx, wipe)                              \
-- 
2.43.0


From c6c38aafc6d2e13ce95b986a9625bea4493f5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 19/51] fix: outbuf: bound of the io vector is a number of
 elements

---
 src/core/str-outbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-outbuf.c b/src/core/str-outbuf.c
index 35e214b..06b4f4e 100644
--- a/src/core/str-outbuf.c
+++ b/src/core/str-outbuf.c
@@ -211,7 +211,7 @@ int ob_write_with(outbuf_t *ob, int fd,
         len = obc->length - obc->offset;
         iov[iovcnt++] = MAKE_IOVEC(obc->u.b + obc->offset, len);
         iov_size += len;
-        if (iov_size > PREPARE_AT_LEAST || iovcnt + 2 >= sizeof(iov))
+        if (iov_size > PREPARE_AT_LEAST || iovcnt + 2 >= countof(iov))
             goto doit;
     }
 
-- 
2.43.0


From 7a7a8774ce3f6bea994f495b8489d04bd7a5438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 20/51] fix: sb_urldecode with a '%' that is not an escape

It read escapes where there is no '%' after an invalid one, and ran past
the end of the buffer when one was cut short.
---
 src/core/str-buf-quoting.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 9c84a34..fa7e5a3 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -400,19 +400,14 @@ void sb_urldecode(sb_t *sb)
         return;
 
     for (;;) {
-        int c;
+        int c = end - r < 3 ? -1 : hexdecode(r + 1);
 
-        if (end - r < 3) {
-            *w++ = *r++;
-            continue;
-        }
-        c = hexdecode(r + 1);
         if (c < 0) {
             *w++ = *r++;
-            continue;
+        } else {
+            *w++ = c;
+            r   += 3;
         }
-        *w++ = c;
-        r   += 3;
 
         r = memchr(tmp = r, '%', end - r);
         if (!r) {
-- 
2.43.0


From ed1d4cd7ca3b99ff214381332bd44091958ed09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 21/51] fix: sb_add_expandenv drops what follows an escaped $

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index fa7e5a3..0a4704c 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -242,7 +242,7 @@ int sb_add_expandenv(sb_t *sb, const void *data, int len)
         sb_add_unslashes(sb, n.s, ps_len(&n), "$", "$");
 
         if (!has_env) {
-            break;
+            continue;
         }
 
         if (ps_skipc(&ps, '{') < 0) {
-- 
2.43.0


From 5cba21ff240f6ec1a571c8110629fa37c3ea8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 22/51] fix: sb_add_qpe of nothing reads before the buffer

With nothing to encode, it also cut the line of what was there.
---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 0a4704c..6117641 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -649,7 +649,7 @@ void sb_add_qpe(sb_t *sb, const void *data, int len)
         j = i;
     }
     sb_add(sb, src + j, i - j);
-    if (sb->data[sb->len - 1] != '\n')
+    if (len && sb->data[sb->len - 1] != '\n')
         sb_adds(sb, "=\r\n");
 }
 SB_DEFINE_ADDS(qpe);
-- 
2.43.0


From 6bc1c98333a0be123e4d864e6b8153266c8d72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 23/51] fix: base64 lines of less than 4 characters divide by 0

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 6117641..825e12f 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -727,7 +727,7 @@ void sb_add_b64_start(sb_t *dst, int len, int width, sb_b64_ctx_t *ctx)
         width = 19; /* 76 characters + \r\n */
     } else {
         /* XXX: >>2 keeps the sign, unlike /4 */
-        width >>= 2;
+        width = width > 0 ? MAX(width >> 2, 1) : width >> 2;
     }
     ctx->packs_per_line = width;
     sb_grow(dst, b64_rough_size(len, width));
-- 
2.43.0


From a2f99b3f0b744790fe596a13db8565261df248a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 24/51] fix: punycode overflow of long inputs is not detected

---
 src/core/str-buf-quoting.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 825e12f..1e6c866 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -986,7 +986,7 @@ void sb_add_csvescape(sb_t *sb, int sep, const void *data, int len)
 #define PUNYCODE_INITIAL_BIAS  72
 #define PUNYCODE_INITIAL_N     0x80
 
-static int punycode_adapt_bias(int delta, int numpoints, bool firsttime)
+static int punycode_adapt_bias(uint32_t delta, int numpoints, bool firsttime)
 {
     int k = 0;
 
@@ -1088,7 +1088,7 @@ int sb_add_punycode_vec(sb_t *sb, const uint32_t *code_points,
         uint32_t m = point_pos_pairs[i] >> 32;
         uint32_t last_pos = 0;
 
-        delta += (m - n) * (h + 1);
+        delta += (uint64_t)(m - n) * (h + 1);
         n = m;
 
         while (i < point_pos_pairs_len && point_pos_pairs[i] >> 32 == m) {
-- 
2.43.0


From f7bf8e7e75b7d54375ab353c476e77b73effd188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 25/51] fix: parse_number refuses the big numbers that fit

The overflow check was reversed, and the product of the fraction could
overflow.
---
 src/core/str-num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index e2023e8..724644c 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -172,10 +172,10 @@ int64_t parse_number(const char *str)
         return INVALID_NUMBER;
     }
     /* Catch most overflow cases */
-    if ((value | mult) > INT32_MAX && INT64_MAX / mult > value) {
+    if (value > INT64_MAX / mult || value < INT64_MIN / mult) {
         return INVALID_NUMBER;
     }
-    return value * mult + frac * mult / denom;
+    return value * mult + mult / denom * frac + mult % denom * frac / denom;
 }
 
 static bool mem_startswith_minus(const void *p, int len)
-- 
2.43.0


From 6582ce05093bd8d68d8178761211d7154d53ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 26/51] fix: memtoullp accepts some negative numbers

strtoull() wraps: those below INT64_MIN came out positive.  Also always
set *endp.
---
 src/core/str-num.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index 724644c..a5ce973 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -194,18 +194,21 @@ uint64_t memtoullp(const void *s, int len, const byte **endp)
     uint64_t res;
 
     if (!len) {
+        if (endp) {
+            *endp = s;
+        }
         errno = EINVAL;
         return 0;
     }
 
     res = strtoull(str, &tail, 10);
-    if ((int64_t)res < 0 && mem_startswith_minus(str, tail - str)) {
-        errno = ERANGE;
-        return 0;
-    }
     if (endp) {
         *endp = (const byte *)s + (tail - str);
     }
+    if (res && mem_startswith_minus(str, tail - str)) {
+        errno = ERANGE;
+        return 0;
+    }
 
     return res;
 }
-- 
2.43.0


From a96c894855bb03330fe618236e82c6be3126f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 27/51] fix: memtoull_ext accepts some negative numbers, and
 both over-read

Text that ends with a blank was not copied, but a text of blanks makes
strtoll() go past its end.
---
 src/core/str-num.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index a5ce973..25616a9 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -408,7 +408,9 @@ memtoxll_ext(const void *p, int len, bool is_signed, uint64_t *out,
         }
 
         last_char = s[len - 1];
-        if (isalnum(last_char) || last_char == '+' || last_char == '-') {
+        if (isalnum(last_char) || last_char == '+' || last_char == '-'
+        ||  isspace((unsigned char)last_char))
+        {
             s = t_dupz(p, len);
         }
     } else {
@@ -420,7 +422,7 @@ memtoxll_ext(const void *p, int len, bool is_signed, uint64_t *out,
     } else {
         uint64_t val = strtoull(s, &tail, base);
 
-        if ((int64_t)val < 0 && mem_startswith_minus(s, tail - s)) {
+        if (val && mem_startswith_minus(s, tail - s)) {
             errno = ERANGE;
             return -1;
         }
-- 
2.43.0


From dbb72f6ff8eab843011e42fdc5b1da33de116e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:30 +0000
Subject: [PATCH 28/51] fix: iprintf: %hhd of a negative value

char is unsigned with the flags lib-common is built with.
---
 src/core/str-iprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 7425661..5cf57d9 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -856,7 +856,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 int int_value;
 
               case TYPE_char:
-                int_value = (char)va_arg(ap, int);
+                int_value = (signed char)va_arg(ap, int);
                 goto convert_int;
 
               case TYPE_short:
@@ -909,7 +909,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 int int_value;
 
               case TYPE_char:
-                int_value = (char)va_arg(ap, int);
+                int_value = (signed char)va_arg(ap, int);
                 goto convert_quoted_int;
 
               case TYPE_short:
-- 
2.43.0


From fa409be69133830d86b66e06f70437dbbae61dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:30 +0000
Subject: [PATCH 29/51] fix: iprintf: a negative precision is as if it were
 omitted

---
 src/core/str-iprintf.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 5cf57d9..47162a4 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -716,10 +716,9 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 format++;
                 prec = va_arg(ap, int);
                 if (prec < 0) {
-                    /* OG: should be treated as if precision were
-                     * omitted, ie: prec = 1, flags &= ~FLAG_PREC
-                     */
-                    prec = 0;
+                    /* as if precision were omitted */
+                    prec = 1;
+                    flags &= ~FLAG_PREC;
                 }
             } else
             if (*format >= '0' && *format <= '9') {
-- 
2.43.0


From 4238db43d738dacd68363321314f15a538a2cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:30 +0000
Subject: [PATCH 30/51] fix: iprintf: %F is %f, not %E

---
 src/core/str-iprintf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 47162a4..252d638 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -1223,6 +1223,9 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 dprec = 0;
                 sign = 0;
 
+                if (c == 'F') {
+                    c = 'f';
+                }
                 if ((flags & FLAG_PREC) == 0) {
                     prec = 6;
                 } else
-- 
2.43.0


From 923d4302da6b79f0889df9a325d06a1054f131dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:30 +0000
Subject: [PATCH 31/51] fix: iprintf: zeroes inside 128-bit integers

The low 19 digits were not padded with zeroes.
---
 src/core/str-iprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 252d638..2023868 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -275,8 +275,13 @@ static char *convert_uint128(char *p, uint128_t value, int base)
         while (value > UINT64_MAX) {
             uint128_t quot = value / MAX_P10_U64;
             uint64_t rem = value - quot * MAX_P10_U64;
+            char *end = p - 19;
+
             value = quot;
             p = convert_ulong(p, rem, 10);
+            while (p > end) {
+                *--p = '0';
+            }
         }
         return convert_ulong(p, value, 10);
     } else
-- 
2.43.0


From 484fd1e3f6722f9bd7e4169528f930ddd485b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:26 +0000
Subject: [PATCH 32/51] fix: dtoa: suppress the trailing zeros of rounded small
 integers

%g of 4194304 printed 4.19430e+06: in the small-integer shortcut the digits
were cut at the precision without dropping the zeros they may end with.
---
 src/core/str-dtoa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/str-dtoa.c b/src/core/str-dtoa.c
index 29392f7..36471a3 100644
--- a/src/core/str-dtoa.c
+++ b/src/core/str-dtoa.c
@@ -2709,6 +2709,11 @@ double _d_; int mode, ndigits, *decpt, *sign; char **rve;
                         }
                     }
                     ++*s++;
+                } else {
+                    /* trailing zeros are suppressed */
+                    while (s > s0 + 1 && s[-1] == '0') {
+                        s--;
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 8a55a2ed367014be2b615a6af1fa658ef5405c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 33/51] fix: mem: no overflow when an aligned libc block
 shrinks

---
 src/core/mem.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mem.blk b/src/core/mem.blk
index 2bf269b..e5d1a3c 100644
--- a/src/core/mem.blk
+++ b/src/core/mem.blk
@@ -124,7 +124,7 @@ static void *libc_realloc(mem_pool_t *m, void *mem, size_t oldsize,
     if (alignment > 8 && ((uintptr_t)res & (alignment - 1))) {
         byte *cpy = libc_malloc(m, size, alignment, flags | MEM_RAW);
 
-        p_copy(cpy, res, oldsize == MEM_UNKNOWN ? size : oldsize);
+        p_copy(cpy, res, MIN(oldsize, size));
         free(res);
         res = cpy;
     }
-- 
2.43.0


From 24be87dbbb17580576ea9968f67ab639931c0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 34/51] fix: mem-fifo: zero the bytes regained by a growing
 realloc

---
 src/core/mem-fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/mem-fifo.c b/src/core/mem-fifo.c
index c306dd1..dbb2658 100644
--- a/src/core/mem-fifo.c
+++ b/src/core/mem-fifo.c
@@ -374,6 +374,10 @@ static void *mfp_realloc(mem_pool_t *_mfp, void *mem, size_t oldsize,
         mem_tool_freelike(mem, oldsize, 0);
         mem_tool_malloclike(mem, req_size, 0, false);
         mem_tool_allow_memory(mem, MIN(req_size, oldsize), true);
+        if (!(flags & MEM_RAW)) {
+            /* only what lies after the block is known to be zero */
+            memset(blk->area + oldsize, 0, alloced_size - oldsize);
+        }
     } else {
         void *old = mem;
 
-- 
2.43.0


From 84f827a9873ed9f88c53cec4d8a9d41163bf1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 35/51] fix: mem-ring: honour alignments larger than the size

---
 src/core/mem-ring.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index 490427f..f76601f 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -203,9 +203,10 @@ frame_get_next_blk(ring_pool_t *rp, size_t size)
     return blk_create(rp, size);
 }
 
-static void *rp_reserve(ring_pool_t *rp, size_t size, ring_blk_t **blkp)
+static void *rp_reserve(ring_pool_t *rp, size_t size, size_t alignment,
+                        ring_blk_t **blkp)
 {
-    byte *res = align_for(rp->pos, size);
+    byte *res = align_for(rp->pos, MAX(size, alignment));
 
     /* Note for programmers: if you abort() here, it's because you're
      * allocating in a pool where you haven't performed a r_newframe() first
@@ -248,7 +249,7 @@ static void *rp_alloc(mem_pool_t *_rp, size_t size, size_t alignment,
     }
 
     spin_lock(&rp->lock);
-    res = rp_reserve(rp, size, &rp->cblk);
+    res = rp_reserve(rp, size, alignment, &rp->cblk);
     rp->pos = res + size;
     rp->last = res;
     spin_unlock(&rp->lock);
@@ -495,7 +496,7 @@ const void *mem_ring_seal(mem_pool_t *_rp)
     ring_blk_t *blk;
 
     /* Makes a new frame */
-    frame = rp_reserve(rp, sizeof(frame_t), &blk);
+    frame = rp_reserve(rp, sizeof(frame_t), alignof(frame_t), &blk);
     ring_setup_frame(rp, blk, frame);
 
     return last;
-- 
2.43.0


From 1535315f1ddf0da2c7dcf61f2a45de928cf22e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 36/51] fix: mem-ring: realloc of an empty block at the start
 of a frame

---
 src/core/mem-ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index f76601f..41318a1 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -284,7 +284,7 @@ static void *rp_realloc(mem_pool_t *_rp, void *mem, size_t oldsize,
     }
 
     if (oldsize >= size) {
-        if (mem == rp->last) {
+        if (mem != NULL && mem == rp->last) {
             rp->pos = (byte *)mem + size;
         }
         mem_tool_disallow_memory((byte *)mem + size, oldsize - size);
-- 
2.43.0


From aa0ef00345f76a33736c21d67ca300a534d23121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 37/51] fix: bit-wah: count the run kept when a loaded chunk is
 split

---
 src/core/bit-wah.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index 66f5dbf..ff515a9 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -1525,7 +1525,10 @@ from_data_split_chunk(from_data_ctx_t *ctx, wah_header_t head, uint64_t words)
         }
     } else {
         /* The run fits, copy it. */
+        ctx->map->previous_run_pos = ctx->map->last_run_pos;
+        ctx->map->last_run_pos     = ctx->bucket->len;
         qv_append(ctx->bucket, (wah_word_t){ .head = head});
+        ctx->bucket_len += head.words * WAH_BIT_IN_WORD;
     }
 
     /* We now have to deal with the uncompressed words. */
-- 
2.43.0


From 393e4c64dbb7707ffa0cc8feea0a000751b605c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 38/51] fix: bit-wah: enumerate literal chunks in the middle of
 a bucket

---
 src/core/bit-wah.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index ff515a9..ebe1ea0 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -49,7 +49,7 @@ static void __wah_word_enum_start(wah_word_enum_t *en, qv_t(wah_word) *bucket)
         en->state        = WAH_ENUM_LITERAL;
         en->remain_words = bucket->tab[en->pos + 1].count;
         en->current      = bucket->tab[en->pos + 2].literal;
-        en->pos          = bucket->tab[en->pos + 1].count + 2;
+        en->pos         += bucket->tab[en->pos + 1].count + 2;
         assert (en->pos <= bucket->len);
         assert ((int)en->remain_words <= en->pos);
     } else {
-- 
2.43.0


From c5ab647e79516b6e7fd67f2d14fa4d3bef4ee318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:38 +0000
Subject: [PATCH 39/51] fix: bit-wah: load bitmaps that end with a full bucket

---
 src/core/bit-wah.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index ebe1ea0..928cda5 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -1629,8 +1629,10 @@ wah_t *mp_wah_init_from_data(mem_pool_t *mp, wah_t *map, pstream_t data)
                 }
                 ctx.bucket = NULL;
                 ctx.bucket_len = 0;
-                map->previous_run_pos = -1;
-                map->last_run_pos     = -1;
+                if (ctx.pos < size) {
+                    map->previous_run_pos = -1;
+                    map->last_run_pos     = -1;
+                }
                 goto next;
             }
 
-- 
2.43.0


From ddd760bc96ed6df58646cf9914570c693f679c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:59 +0000
Subject: [PATCH 40/51] fix: md5, sha1, sha2: count the bytes of updates of 4
 GiB and more

---
 src/crypto/md5.c     | 1 +
 src/crypto/sha1.c    | 1 +
 src/crypto/sha2.in.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/crypto/md5.c b/src/crypto/md5.c
index 788ed92..b7a6fce 100644
--- a/src/crypto/md5.c
+++ b/src/crypto/md5.c
@@ -190,6 +190,7 @@ void md5_update( md5_ctx *ctx, const void *_input, ssize_t ilen )
 
     ctx->total[0] += ilen;
     ctx->total[0] &= 0xFFFFFFFF;
+    ctx->total[1] += (uint64_t) ilen >> 32;
 
     if( ctx->total[0] < (uint32_t) ilen )
         ctx->total[1]++;
diff --git a/src/crypto/sha1.c b/src/crypto/sha1.c
index cfceada..7f4c109 100644
--- a/src/crypto/sha1.c
+++ b/src/crypto/sha1.c
@@ -225,6 +225,7 @@ void sha1_update( sha1_ctx *ctx, const void *_input, ssize_t ilen )
 
     ctx->total[0] += ilen;
     ctx->total[0] &= 0xFFFFFFFF;
+    ctx->total[1] += (uint64_t) ilen >> 32;
 
     if( ctx->total[0] < (uint32_t) ilen )
         ctx->total[1]++;
diff --git a/src/crypto/sha2.in.c b/src/crypto/sha2.in.c
index dbeb60d..953706c 100644
--- a/src/crypto/sha2.in.c
+++ b/src/crypto/sha2.in.c
@@ -228,6 +228,7 @@ void F(sha2_update)( sha2_ctx *ctx, const void *_input, ssize_t ilen )
 
     ctx->total[0] += ilen;
     ctx->total[0] &= 0xFFFFFFFF;
+    ctx->total[1] += (uint64_t) ilen >> 32;
 
     if( ctx->total[0] < (uint32_t) ilen )
         ctx->total[1]++;
-- 
2.43.0


From 2aa9477cb942afcf6a3efe5aa94005cfa2b61650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 41/51] fix: murmur_hash3_x64_128_finish: no stale tail after
 whole blocks

---
 src/crypto/hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto/hash.c b/src/crypto/hash.c
index 422f147..a5d9425 100644
--- a/src/crypto/hash.c
+++ b/src/crypto/hash.c
@@ -685,7 +685,9 @@ void murmur_hash3_x64_128_finish(murmur_hash3_x64_128_ctx_t *ctx,
     uint64_t h2 = ctx->h2;
 
     /* Tail */
-    __murmur_hash3_x64_128_process_tail(ctx->tail, &h1, &h2);
+    if (ctx->tail_len) {
+        __murmur_hash3_x64_128_process_tail(ctx->tail, &h1, &h2);
+    }
 
     /* Finalization */
     __murmur_hash3_x64_128_finalize(h1, h2, ctx->len, out);
-- 
2.43.0


From 07c1160012208bb09128ad71328714ba959af15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 42/51] fix: qlzo: do not read past the input when copying
 short literals

lzo_copy_input_small() read 4 bytes of input although only 'sz' of them
were known to exist.
---
 src/core/qlzo-d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/qlzo-d.c b/src/core/qlzo-d.c
index 89f257d..1cc37f4 100644
--- a/src/core/qlzo-d.c
+++ b/src/core/qlzo-d.c
@@ -61,7 +61,7 @@ int lzo_copy_input_small(pstream_t *in, ostream_t *os, unsigned sz)
 
     if (unlikely(!ps_has(in, sz)))
         return LZO_ERR_INPUT_OVERRUN;
-    if (likely(dst + 4 <= os->b_end)) {
+    if (likely(dst + 4 <= os->b_end && ps_has(in, 4))) {
         put_unaligned_cpu32(dst, get_unaligned_cpu32(src));
     } else {
         if (unlikely(dst + sz > os->b_end))
-- 
2.43.0


From a4917f5cd484f7ae6d18f8256bc74d8566641348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 43/51] fix: iop: no integer overflow in iop_ranges_search

The sum of a large tag, or enum value, and of an offset wrapped, and the
position found was outside of the described values.
---
 src/iop/iop.blk | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 7ab0795..b8e27f8 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4553,7 +4553,11 @@ int iop_ranges_search(int const * ranges, int ranges_len, int tag)
             r = i;
             continue;
         }
-        if (tag + offs >= start + ranges[i * 2 + 2]) {
+        /* XXX: tag >= start, and ranges may cover the whole integers: compute
+         * unsigned differences so that nothing overflows. */
+        if ((uint32_t)tag - (uint32_t)start
+            >= (uint32_t)(ranges[i * 2 + 2] - offs))
+        {
             l = i + 1;
             continue;
         }
-- 
2.43.0


From 239b8fd71f763bd5903e1b761244d75befde54df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 44/51] fix: iop: refuse strings packed without their
 terminating NUL

An empty block gave a string of length -1.
---
 src/iop/iop.blk | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index b8e27f8..b8562fb 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4857,6 +4857,8 @@ static int unpack_value(mem_pool_t *mp, iop_wire_type_t wt,
           case IOP_T_STRING:
           case IOP_T_DATA:
           case IOP_T_XML:
+            /* the terminating NUL is always packed */
+            PS_WANT(u32 >= 1);
             *(lstr_t *)v = LSTR_INIT_V(((flags & IOP_UNPACK_COPY_STRINGS)
                                         ? mp_dup(mp, ps->s, u32)
                                         : ps->p), u32 - 1);
-- 
2.43.0


From 5bf56595518099b97e180f3136074cc709bc1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 45/51] fix: iop: check the number of elements of repeated
 fields when unpacking

The size of the array to allocate overflowed on 32 bits for huge counts,
and the elements were then written out of the allocated array; a count
larger than what the message can hold also led to huge allocations.
---
 src/iop/iop.blk | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index b8562fb..301d142 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5046,8 +5046,12 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
             }
 
           unpack_array:
+            /* every element takes at least one byte: do not trust a count
+             * that cannot be honored */
+            PS_WANT(ps_has(ps, n));
             data->len  = n;
-            data->data = v = mp_imalloc(mp, n * fdesc->size, 8, MEM_RAW);
+            data->data = v = mp_imalloc(mp, (size_t)n * fdesc->size, 8,
+                                        MEM_RAW);
 
             while (n-- > 1) {
                 if (unpack_value(mp, wt, fdesc, v, ps, flags) < 0) {
-- 
2.43.0


From 3fd209b74a2d716ea5347f071d81fbbf5f8990a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:26 +0000
Subject: [PATCH 46/51] fix: json, yaml: write characters over U+FFFF as
 surrogate pairs, and read them

They were written with 5 or 6 hexadecimal digits after \u, which is not
JSON, and read back as another character followed by digits.
---
 src/core/parsing-helpers.c | 15 ++++++++++++++-
 src/core/yaml.c            |  9 ++++++++-
 src/iop/json.blk           |  9 ++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/core/parsing-helpers.c b/src/core/parsing-helpers.c
index 650204e..10fad78 100644
--- a/src/core/parsing-helpers.c
+++ b/src/core/parsing-helpers.c
@@ -68,7 +68,20 @@ parse_backslash(pstream_t *ps, sb_t *buf, int *line, int *col)
         if (ps_has(ps, 6) && (a = hexdecode(ps->s + 2)) >= 0
             && (b = hexdecode(ps->s + 4)) >= 0)
         {
-            sb_adduc(buf, (a << 8) | b);
+            int c = (a << 8) | b;
+
+            if (c >= 0xd800 && c <= 0xdbff && ps_has(ps, 12)
+                && ps->b[6] == '\\' && ps->b[7] == 'u'
+                && (a = hexdecode(ps->s + 8)) >= 0xdc && a <= 0xdf
+                && (b = hexdecode(ps->s + 10)) >= 0)
+            {
+                /* UTF-16 surrogate pair */
+                c = 0x10000 + ((c & 0x3ff) << 10) + ((a & 0x3) << 8) + b;
+                sb_adduc(buf, c);
+                SKIP(12);
+                return 0;
+            }
+            sb_adduc(buf, c);
             SKIP(6);
             return 0;
         }
diff --git a/src/core/yaml.c b/src/core/yaml.c
index 99be2b5..86e7fde 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3969,7 +3969,14 @@ static int yaml_pack_string(yaml_pack_env_t *env, lstr_t val,
           default: {
             char ibuf[IBUF_LEN];
 
-            WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            if (c > 0xffff) {
+                /* UTF-16 surrogate pair */
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x\\u%04x",
+                                    0xd7c0 + (c >> 10),
+                                    0xdc00 | (c & 0x3ff)));
+            } else {
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            }
           } break;
         }
     }
diff --git a/src/iop/json.blk b/src/iop/json.blk
index ec56be6..adf9532 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -2357,7 +2357,14 @@ static int write_string(lstr_t val, iop_type_t type, unsigned flags,
             if (unlikely(c < 0)) {
                 c = ps_getc(&ps);
             }
-            WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            if (c > 0xffff) {
+                /* UTF-16 surrogate pair */
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x\\u%04x",
+                                    0xd7c0 + (c >> 10),
+                                    0xdc00 | (c & 0x3ff)));
+            } else {
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            }
         }
     }
 
-- 
2.43.0


From 6b07a02295e643fc415be1d8454d072d765d6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:46 +0000
Subject: [PATCH 47/51] fix: json: do not read past the input after an
 expression that ends it

---
 src/iop/json.blk | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index adf9532..940f1bd 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -505,6 +505,9 @@ static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
             if (EATC() == '\n')
                 NEWLINE();
         }
+        if (ps_done(PS)) {
+            goto result;
+        }
         switch (c = READC()) {
 
           case '<': case '>':
-- 
2.43.0


From 1a6f7364acff5a1ea76e8bbb5d3d5fb8002cb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:02 +0000
Subject: [PATCH 48/51] fix: iop: no crash on the overflow of signed divisions
 in expressions

INT64_MIN % -1, and INT64_MIN divided by an unsigned UINT64_MAX taken as
-1, raised SIGFPE.
---
 src/iop/cfolder.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 4571616..6ca1a25 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -178,8 +178,8 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid division by 0");
         }
-        if (eleft.is_signed && eleft.num == (uint64_t)INT64_MIN
-        &&  eright.is_signed && eright.num == (uint64_t)-1)
+        if ((eleft.is_signed || eright.is_signed)
+        &&  eleft.num == (uint64_t)INT64_MIN && eright.num == (uint64_t)-1)
         {
             return e_error("division overflow");
         }
@@ -196,6 +196,11 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid modulo by 0");
         }
+        if ((eleft.is_signed || eright.is_signed)
+        &&  eleft.num == (uint64_t)INT64_MIN && eright.num == (uint64_t)-1)
+        {
+            return e_error("modulo overflow");
+        }
         res.is_signed = eleft.is_signed ^ eright.is_signed;
         if (eleft.is_signed || eright.is_signed) {
             res.num = SIGNED(eleft.num) % SIGNED(eright.num);
-- 
2.43.0


From 33cdfb93ee0342efc7b4d7ec03b6bc282d920987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:02 +0000
Subject: [PATCH 49/51] fix: iop: refuse shifts of 64 bits and more in
 expressions

Their result is undefined.
---
 src/iop/cfolder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 6ca1a25..78cefed 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -272,10 +272,16 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         break;
       case CF_OP_LSHIFT:
         assert (!unary);
+        if (eright.num >= 64) {
+            return CF_ERR(INVALID, "invalid shift");
+        }
         res.num = eleft.num << eright.num;
         break;
       case CF_OP_RSHIFT:
         assert (!unary);
+        if (eright.num >= 64) {
+            return CF_ERR(INVALID, "invalid shift");
+        }
         res.num = eleft.num >> eright.num;
         break;
       default:
-- 
2.43.0


From 45b22570f8bda1f5d8f917b1f5b539132c5800a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:10 +0000
Subject: [PATCH 50/51] fix: str-num: parse_number: the sign applies to the
 decimals too

---
 src/core/str-num.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index 25616a9..7fee331 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -115,6 +115,7 @@ int64_t parse_number(const char *str)
     int frac = 0;
     int denom = 1;
     int exponent;
+    bool neg = *skipspaces(str) == '-';
 
     value = strtoll(str, &str, 0);
     if (*str == '.') {
@@ -171,6 +172,9 @@ int64_t parse_number(const char *str)
     if (*str != '\0') {
         return INVALID_NUMBER;
     }
+    if (neg) {
+        frac = -frac;
+    }
     /* Catch most overflow cases */
     if (value > INT64_MAX / mult || value < INT64_MIN / mult) {
         return INVALID_NUMBER;
-- 
2.43.0


From 83fd8ae500af4691f66161a531018c13365ce38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:10 +0000
Subject: [PATCH 51/51] fix: str-path: the root simplifies to the root, not to
 the current directory

---
 src/core/str-path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-path.c b/src/core/str-path.c
index 2da91d6..70f37bc 100644
--- a/src/core/str-path.c
+++ b/src/core/str-path.c
@@ -183,9 +183,9 @@ int path_simplify2(char *in, bool keep_trailing_slash)
         *out++ = '/';
     }
 
-    start -= absolute;
     if (!keep_trailing_slash && out > start && out[-1] == '/')
         --out;
+    start -= absolute;
     if (out == start)
         *out++ = '.';
     *out = '\0';
-- 
2.43.0

