From 090368a3601403a71b8e49dd00dad4e0c25e5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 01/63] fix: mpi: report a failed copy of the result instead of
 success

---
 src/mpi.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..cf3b8a1 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -753,11 +753,11 @@ mpi_mul(bfdev_mpi_t *dest,
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        retval = mpi_set(rename, dest);
         bfdev_mpi_release(dest);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
@@ -797,9 +797,9 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        retval = mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
@@ -822,9 +822,8 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
 static inline int
@@ -897,11 +896,11 @@ mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(rem);
 
     if (rename) {
-        mpi_set(rename, quot);
+        retval = mpi_set(rename, quot);
         bfdev_mpi_release(quot);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
-- 
2.43.0


From d3156b93538a72a464424516cb5f563d6e77b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 02/63] fix: hlist: link both neighbours of a node inserted
 before or after another

---
 include/bfdev/hlist.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From a9d5b5d83a425ecd8b3afbfa0a596c742c59a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 03/63] fix: bitrev: shift distances of bits 27/28 and 43/44 in
 the constant variants were exchanged

---
 include/bfdev/bitrev.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From c6c14925deeb48d3cf96191a659ca663a7558bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 04/63] fix: ctype: '0' is a hexadecimal digit, and the tab,
 not the vertical tab, is blank

---
 src/libc/ctype.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index d97d87f..ab47ec7 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -19,9 +19,9 @@ bfdev_ctype_table[256] = {
     [BFDEV_ASCII_ACK] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BEL] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BS ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
+    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
     [BFDEV_ASCII_LF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
-    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
+    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_FF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_CR ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_SO ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
@@ -60,7 +60,7 @@ bfdev_ctype_table[256] = {
     ['.' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
     ['/' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
 
-    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT,
+    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['1'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['2'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['3'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
-- 
2.43.0


From aec1209d6cc6b5b9c9ea5cab6a5d627314c086d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 05/63] fix: ctype: compare without sign in the constant
 predicates, which accepted every smaller character

---
 include/bfdev/ctype.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index fb30d45..492d30a 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -41,13 +41,13 @@ bfdev_ctype_table[256];
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isalpha_const(int c)
 {
-    return (((unsigned char)c | 32) - 'a') < 26;
+    return (((unsigned char)c | 32U) - 'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isdigit_const(int c)
 {
-    return ((unsigned char)c - '0') < 10;
+    return ((unsigned int)(unsigned char)c - '0') < 10;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -65,31 +65,31 @@ int bfdev_iscntrl_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isgraph_const(int c)
 {
-    return ((unsigned char)c - 0x21) < 0x5e;
+    return ((unsigned char)c - 0x21U) < 0x5e;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_islower_const(int c)
 {
-    return ((unsigned char)c - 'a') < 26;
+    return ((unsigned int)(unsigned char)c - 'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isprint_const(int c)
 {
-    return ((unsigned char)c - 0x20) < 0x5f;
+    return ((unsigned char)c - 0x20U) < 0x5f;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isspace_const(int c)
 {
-    return (c == ' ') || ((unsigned char)c - '\t' < 5);
+    return (c == ' ') || ((unsigned int)(unsigned char)c - '\t' < 5);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isupper_const(int c)
 {
-    return ((unsigned char)c - 'A') < 26;
+    return ((unsigned int)(unsigned char)c - 'A') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -107,7 +107,7 @@ int bfdev_ispunct_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isxdigit_const(int c)
 {
-    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6);
+    return bfdev_isdigit_const(c) || (((unsigned char)c | 32U) - 'a' < 6);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-- 
2.43.0


From 9143eecf14d408917b1f35bc7ff01a0449dd6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 06/63] fix: ctype: bfdev_isascii() named a function that does
 not exist

---
 include/bfdev/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index 492d30a..dae48dd 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -111,7 +111,7 @@ int bfdev_isxdigit_const(int c)
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-int bfdev_ascii_const(int c)
+int bfdev_isascii_const(int c)
 {
     return (unsigned char)c <= 0x7f;
 }
-- 
2.43.0


From 97c8bee1f8b9dd2a99412c9d1a5472d4d0280892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 07/63] fix: ctype: case conversion must not hand values
 outside unsigned char to the C library

---
 include/bfdev/ctype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index dae48dd..6ce3630 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -258,7 +258,7 @@ bfdev_toascii(int c)
 static inline int
 bfdev_tolower(int c)
 {
-    if (isupper(c))
+    if (bfdev_isupper_const(c))
         return (unsigned char)c | 32;
     return (unsigned char)c;
 }
@@ -266,7 +266,7 @@ bfdev_tolower(int c)
 static inline int
 bfdev_toupper(int c)
 {
-    if (islower(c))
+    if (bfdev_islower_const(c))
         return (unsigned char)c & 0x5f;
     return (unsigned char)c;
 }
-- 
2.43.0


From 8e6c145e41e82bcf6f5cf9f58413ace75ab0253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 08/63] fix: crc: the unrolled loop dropped the upper half of a
 64-bit remainder

---
 include/bfdev/crypto/crc-inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..85c96ff 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,7 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^ ((uint64_t)crc >> 32);  \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From e4f0deef2290707b2e7c81ff146eeec7c32c794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 09/63] fix: heap_find must walk from the index, not from the
 element count

---
 src/heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..63abece 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,10 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    if (bfdev_unlikely(!index))
+        return NULL;
+
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From 2862a4aa8bbee8883d8c1de07f4e98f3fe85c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 10/63] fix: ascii85: encoding the last group must not read
 beyond the data

---
 src/crypto/ascii85.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..a0ea36d 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -13,6 +13,7 @@
 static __bfdev_always_inline void
 ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
 {
+    unsigned int count;
     uint32_t value;
     size_t index;
 
@@ -35,8 +36,9 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        value = 0;
+        for (count = 0; count < size; ++count)
+            value |= (uint32_t)((const uint8_t *)data)[count] << (24 - count * 8);
 
         if (!value)
             buff[index] = 'z';
-- 
2.43.0


From e0c7b7aec6aac6d53262094d475cc47ebefaf78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 11/63] fix: ascii85: a zero group was not decoded as a group
 of its own

---
 src/crypto/ascii85.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index a0ea36d..831a319 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -69,6 +69,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From 71948f5336fb56bbbd51b86d60dd014a3db61041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 12/63] fix: refcount: addnz must retry when the
 compare-and-swap fails, not when it succeeds

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..04d66c5 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
-- 
2.43.0


From 1701fe80264741233a512a42ba37a1fbe1f78123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 13/63] fix: bitmap: equal and or_equal gave the inverse answer
 for constant sizes

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From eba63c0812f80645a2098932693a8de846f803a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 14/63] fix: bitmap: range set and clear ran away when the
 range ended inside its first word

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..f9c3227 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -302,7 +302,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +327,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 2b388af0b1a4196502ba938dbbf8a69d87dae52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 15/63] fix: bitwalk: zero searches in a constant size of a
 whole word found nothing

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From 4792a9aaf53ebb6e08eaf4c5507bce8db9c64e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 16/63] fix: bitmap: right shift of a size that is not a whole
 number of words wrote the wrong words

---
 src/bitmap.c | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index f9c3227..a985a9d 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -221,30 +221,22 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
 
     /* length > offset */
     rem = BFDEV_BITS_MOD_LONG(shift);
-    index = 0;
 
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
+    for (index = 0; index < length - offset; ++index) {
+        vlow = src[index + offset];
+        if (index + offset + 1 == length)
+            vlow &= BFDEV_BIT_LOW_MASK(bits);
+
+        if (rem && index + offset + 1 < length) {
+            vhigh = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                vhigh &= BFDEV_BIT_LOW_MASK(bits);
+            vhigh <<= BFDEV_BITS_PER_LONG - rem;
+        } else
             vhigh = 0;
 
-        value = vhigh | vlow;
-        dest[index++] = value;
-    }
-
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
+        value = vhigh | (vlow >> rem);
+        dest[index] = value;
     }
 
     if (offset)
-- 
2.43.0


From 25259e6d36490ef4249279890aaea1ce4a507d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 17/63] fix: fifo, ringbuf: store the record length where and
 as it is read back

The length was poked at the out index and in the opposite byte order, and
the wrap-around mask was wrong when the element size is no power of two.
---
 src/fifo.c    | 22 +++++-----------------
 src/ringbuf.c | 22 +++++-----------------
 2 files changed, 10 insertions(+), 34 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..d1c675a 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -58,16 +58,10 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
+        length |= data[(offset & mask) * fifo->esize];
+        ++offset;
     }
 
     return length;
@@ -80,18 +74,12 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    offset = fifo->in + recsize;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += fifo->esize;
+        --offset;
+        data[(offset & mask) * fifo->esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..80bc635 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -58,16 +58,10 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
+        length |= data[(offset & mask) * ringbuf->esize];
+        ++offset;
     }
 
     return length;
@@ -80,18 +74,12 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
+    offset = ringbuf->in + recsize;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += ringbuf->esize;
+        --offset;
+        data[(offset & mask) * ringbuf->esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
-- 
2.43.0


From b3de3ceb70d753d2530952183be9e2eecec85517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 18/63] fix: ringbuf: drop whole old records before a record
 overwrites them

The in index was advanced first, so the records to drop were counted and
the new length written at the wrong place, and a record of the full size
left no room for its own length.
---
 src/ringbuf.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index 80bc635..ff54907 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -188,24 +188,17 @@ export unsigned long
 bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned long len,
                         unsigned long record)
 {
-    unsigned long size, offset;
-    unsigned long overflow, datalen;
+    unsigned long size;
 
     size = ringbuf->mask + 1;
-    bfdev_min_adj(len, size);
-
-    offset = ringbuf->in + record;
-    ringbuf->in = offset + len;
+    bfdev_min_adj(len, size - record);
 
-    overflow = ringbuf_overflow(ringbuf);
-    while (overflow) {
-        datalen = record + ringbuf_record_peek(ringbuf, record);
-        ringbuf->out += datalen;
-        overflow -= bfdev_min(datalen, overflow);
-    }
+    while (len + record > size - ringbuf_valid(ringbuf))
+        ringbuf->out += record + ringbuf_record_peek(ringbuf, record);
 
     ringbuf_record_poke(ringbuf, len, record);
-    ringbuf_in_copy(ringbuf, buff, len, offset);
+    ringbuf_in_copy(ringbuf, buff, len, ringbuf->in + record);
+    ringbuf->in += len + record;
 
     return len;
 }
-- 
2.43.0


From 0192ddf533c16f18a28dd49a978b04e892e8f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 19/63] fix: fifo, ringbuf: put, get and peek move one element
 of a record

The length is counted in elements, so passing the size of the value in
bytes copied beyond it for every element wider than a byte.
---
 include/bfdev/fifo.h    | 6 +++---
 include/bfdev/ringbuf.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 7475dd1..2330b2e 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -308,7 +308,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_peek_record(__fifo,           \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_out_record(__fifo,            \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_in_record(__fifo,             \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);                       \
     } else {                                                \
         __retval = !bfdev_fifo_check_full(__tmp);           \
         if (__retval) {                                     \
diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index 19e46b7..b454895 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -308,7 +308,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_peek_record(__ringbuf,     \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_out_record(__ringbuf,      \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_in_record(__ringbuf,       \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);                       \
     } else {                                                \
         __retval = bfdev_ringbuf_check_full(__tmp);         \
         if (__retval)                                       \
-- 
2.43.0


From 216cc08e5f1968901fae008f7147d4ca3d031c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 20/63] fix: fifo, ringbuf: parenthesise the argument of
 check_dynamic

---
 include/bfdev/fifo.h    | 2 +-
 include/bfdev/ringbuf.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 2330b2e..3345065 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -268,7 +268,7 @@ struct bfdev_fifo {
  * @ptr: the fifo to check.
  */
 #define bfdev_fifo_check_dynamic(ptr) (         \
-    !sizeof(ptr->buff)                          \
+    !sizeof((ptr)->buff)                        \
 )
 
 /**
diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index b454895..4a23d23 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -268,7 +268,7 @@ struct bfdev_ringbuf {
  * @ptr: the ringbuf to check.
  */
 #define bfdev_ringbuf_check_dynamic(ptr) (              \
-    !sizeof(ptr->buff)                                  \
+    !sizeof((ptr)->buff)                                \
 )
 
 /**
-- 
2.43.0


From 9d2e6c782660ae1d31da6766017b09f17b056be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 21/63] fix: hashtbl: parenthesise the table and index
 arguments of the traversal macros

---
 include/bfdev/hashtbl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/hashtbl.h b/include/bfdev/hashtbl.h
index a07f53b..3158734 100644
--- a/include/bfdev/hashtbl.h
+++ b/include/bfdev/hashtbl.h
@@ -104,7 +104,7 @@ bfdev_hashtbl_del(bfdev_hlist_node_t *node)
  * @index: index to for each.
  */
 #define bfdev_hashtbl_for_each_idx(pos, head, size, index) \
-    bfdev_hlist_for_each(pos, &head[index & BFDEV_HASHTBL_MASK(size)])
+    bfdev_hlist_for_each(pos, &(head)[(index) & BFDEV_HASHTBL_MASK(size)])
 
 /**
  * bfdev_hashtbl_for_each_safe - iterate over a hashtable index safe against
@@ -116,7 +116,7 @@ bfdev_hashtbl_del(bfdev_hlist_node_t *node)
  * @index: index to for each.
  */
 #define bfdev_hashtbl_for_each_idx_safe(pos, tmp, head, size, index) \
-    bfdev_hlist_for_each_safe(pos, tmp, &head[index & BFDEV_HASHTBL_MASK(size)])
+    bfdev_hlist_for_each_safe(pos, tmp, &(head)[(index) & BFDEV_HASHTBL_MASK(size)])
 
 /**
  * bfdev_hashtbl_for_each_entry - iterate over hashtable index of given type.
@@ -127,7 +127,7 @@ bfdev_hashtbl_del(bfdev_hlist_node_t *node)
  * @index: index to for each.
  */
 #define bfdev_hashtbl_for_each_idx_entry(pos, head, size, member, index) \
-    bfdev_hlist_for_each_entry(pos, &head[index & BFDEV_HASHTBL_MASK(size)], member)
+    bfdev_hlist_for_each_entry(pos, &(head)[(index) & BFDEV_HASHTBL_MASK(size)], member)
 
 /**
  * bfdev_hashtbl_for_each_entry_safe - iterate over hashtable index of given
@@ -141,7 +141,7 @@ bfdev_hashtbl_del(bfdev_hlist_node_t *node)
  */
 #define bfdev_hashtbl_for_each_idx_entry_safe(pos, tmp, head, size, member, index) \
     bfdev_hlist_for_each_entry_safe(pos, tmp, \
-        &head[index & BFDEV_HASHTBL_MASK(size)], member)
+        &(head)[(index) & BFDEV_HASHTBL_MASK(size)], member)
 
 /**
  * bfdev_hashtbl_for_each - iterate over a hashtable.
-- 
2.43.0


From 6c28b301fa2099d8194ee23c3185140f8e48734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 22/63] fix: report overflow of the size in the array
 allocation helpers

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..3a83995 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(size, nr, &bytes))
+        return NULL;
+
+    return bfdev_malloc(alloc, bytes);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(size, nr, &bytes))
+        return NULL;
+
+    return bfdev_zalloc(alloc, bytes);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(size, nr, &bytes))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, bytes);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From 79c7caf3fd6202054b70bcb0ccc592720d1aa7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 23/63] fix: refuse array sizes whose byte count overflows

---
 src/array.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..5c1d5ab 100644
--- a/src/array.c
+++ b/src/array.c
@@ -9,16 +9,22 @@
 #include <bfdev/overflow.h>
 #include <export.h>
 
-static inline size_t
-array_reqsize(bfdev_array_t *array, unsigned long count)
+static inline int
+array_reqsize(bfdev_array_t *array, unsigned long count, size_t *sizep)
 {
-    unsigned long request;
-    size_t size;
+    unsigned long request, bytes, size;
+    bool overflow;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
+    overflow = bfdev_overflow_check_mul(request,
+        (unsigned long)array->cells, &bytes);
+    if (bfdev_unlikely(overflow || bytes > BFDEV_ULONG_MAX / 2 + 1))
+        return -BFDEV_EOVERFLOW;
 
-    return size;
+    size = bfdev_pow2_roundup(bytes);
+    *sizep = size;
+
+    return -BFDEV_ENOERR;
 }
 
 static inline int
@@ -42,11 +48,15 @@ static inline int
 array_apply(bfdev_array_t *array, unsigned long count)
 {
     size_t reqsize;
+    int retval;
 
     if (count <= array->capacity)
         return -BFDEV_ENOERR;
 
-    reqsize = array_reqsize(array, count);
+    retval = array_reqsize(array, count, &reqsize);
+    if (bfdev_unlikely(retval))
+        return retval;
+
     BFDEV_BUG_ON(count * array->cells > reqsize);
 
     return array_resize(array, reqsize);
-- 
2.43.0


From c331c61078acd39f4149c6ec0dc992fda00b40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 24/63] fix: hash: no bits give index zero instead of an
 oversized shift

---
 include/bfdev/hash.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bfdev/hash.h b/include/bfdev/hash.h
index dc2a887..3398410 100644
--- a/include/bfdev/hash.h
+++ b/include/bfdev/hash.h
@@ -51,6 +51,9 @@ uint64_t bfdev_hashv64_generic(uint64_t value)
 static __bfdev_always_inline
 uint32_t bfdev_hash32(uint32_t value, unsigned int bits)
 {
+    if (!bits)
+        return 0;
+
     /* High bits are more random, so use them. */
     return bfdev_hashv32(value) >> (BFDEV_BITS_PER_U32 - bits);
 }
@@ -58,6 +61,9 @@ uint32_t bfdev_hash32(uint32_t value, unsigned int bits)
 static __bfdev_always_inline
 uint64_t bfdev_hash64(uint64_t value, unsigned int bits)
 {
+    if (!bits)
+        return 0;
+
     return bfdev_hashv64(value) >> (BFDEV_BITS_PER_U64 - bits);
 }
 
-- 
2.43.0


From eedb3aaeeee6b5e571672deeba406f6ebca8247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 25/63] fix: bloom: flush the whole bitmap

---
 src/bloom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..1bb114e 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,7 +57,7 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
+    size = BFDEV_BITS_DIV_U8(bloom->capacity);
     bfport_memset(bloom->bitmap, 0, size);
 }
 
-- 
2.43.0


From 002e50a11fa7cec9bd2416dfe49b68386185b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 26/63] fix: bloom: refuse a capacity that gives an empty
 bitmap

---
 src/bloom.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bloom.c b/src/bloom.c
index 1bb114e..88d7e33 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -68,6 +68,9 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
     bfdev_bloom_t *bloom;
     size_t size;
 
+    if (bfdev_unlikely(!capacity || capacity > UINT_MAX - (BFDEV_BITS_PER_LONG - 1)))
+        return NULL;
+
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
     size = BFDEV_BITS_DIV_LONG(capacity);
 
-- 
2.43.0


From 17443a90e5f5bc3b4c315f28f745f7edf3a259a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 27/63] fix: log2: do not shift out of range when rounding up
 beyond the last power of two

---
 include/bfdev/log2.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bfdev/log2.h b/include/bfdev/log2.h
index cd4cc4f..20b8493 100644
--- a/include/bfdev/log2.h
+++ b/include/bfdev/log2.h
@@ -119,6 +119,9 @@ bfdev_pow2_roundup_dynamic(unsigned long value)
     if (value < 2)
         return value;
 
+    if (value > 1UL << (BFDEV_BITS_PER_LONG - 1))
+        return 0;
+
     return 1UL << bfdev_fls(value - 1);
 }
 
-- 
2.43.0


From 7547f05627b77690a0cd41737190de82baea4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 28/63] fix: bitmap: compute the length of large bitmaps
 without wrapping

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a985a9d..a76ccbb 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -336,7 +336,7 @@ export unsigned long *
 bfdev_bitmap_alloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_malloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((size_t)bits), sizeof(unsigned long)
     );
 }
 
@@ -344,7 +344,7 @@ export unsigned long *
 bfdev_bitmap_zalloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_zalloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((size_t)bits), sizeof(unsigned long)
     );
 }
 
-- 
2.43.0


From caca7e9bbabd57dbb3896bca15f7451e9dd5fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 29/63] fix: ilist: hand the index on to the next node when a
 representative is deleted

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From d263a4a2bb7439b1f9d99f4b0f04c771f18d19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 30/63] fix: skiplist: do not raise the level in use before the
 node is allocated

---
 src/skiplist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..08db18d 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,14 +71,13 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
-
     alloc = head->alloc;
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
     node->key = key;
+    bfdev_max_adj(head->curr, level);
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
 
-- 
2.43.0


From 46861587d851e6fa1db890b7d5c79a4040e226de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 31/63] fix: segtree: set the subtree end of a new node before
 the tree is rebalanced

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..71f985d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -173,11 +173,11 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         }                                                                   \
     }                                                                       \
                                                                             \
+    node->STSUBTREE = end;                                                  \
     bfdev_rb_cached_insert_node_augmented(                                  \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From 103eaf087e94794ce7d57b124f5a10d32d215321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 32/63] fix: btree: from_safe traversals call a function that
 does not exist

---
 include/bfdev/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/btree.h b/include/bfdev/btree.h
index d71b1b1..63fe090 100644
--- a/include/bfdev/btree.h
+++ b/include/bfdev/btree.h
@@ -211,7 +211,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                               \
+    for (bfdev_btree_key_copy(root, tkey, key),                               \
          tval = bfdev_btree_next(root, tkey); value;                    \
          bfdev_btree_key_copy(root, key, tkey),                         \
          value = tval, tval = bfdev_btree_next(root, tkey))
@@ -225,7 +225,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_reverse_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                                       \
+    for (bfdev_btree_key_copy(root, tkey, key),                                       \
          tval = bfdev_btree_prev(root, tkey); value;                            \
          bfdev_btree_key_copy(root, key, tkey),                                 \
          value = tval, tval = bfdev_btree_prev(root, tkey))
-- 
2.43.0


From 298937367e7e5ece1434f657038b4aa4b38851b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 33/63] fix: btree: keep the last entry of an odd node on its
 side of the split

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 744c83d..2c73dde 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -405,7 +405,7 @@ insert_level(bfdev_btree_root_t *root, unsigned int level,
         }
 
         if (fill & 1) {
-            bnode_migrate(root, newn, count, node, fill - 1);
+            bnode_migrate(root, node, count, node, fill - 1);
             bnode_clear_index(root, node, fill - 1);
         }
     }
-- 
2.43.0


From 4ed24fa027974aeafac629aec72174a8323917a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 34/63] fix: btree: do not compare beyond the keys when
 removing an absent key

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 2c73dde..0653c80 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -508,7 +508,7 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
 
     value = NULL;
     if (level == 1) {
-        if (bnode_cmp_key(root, node, index, key))
+        if (index == layout->keynum || bnode_cmp_key(root, node, index, key))
             return NULL;
 
         value = bnode_get_value(root, node, index);
-- 
2.43.0


From aa7613acc11a2d5f4dfc58cbec7febfb81d21d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 35/63] fix: btree: last of an emptied tree reads before the
 node

---
 src/btree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 0653c80..52f9e3b 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -619,7 +619,11 @@ bfdev_btree_last(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_get_value(root, node, last);
     }
 
-    last = bnode_fill_index(root, node, 0) - 1;
+    last = bnode_fill_index(root, node, 0);
+    if (bfdev_unlikely(!last))
+        return NULL;
+
+    last--;
     bnode_takeout_key(root, node, last, key);
     return bnode_get_value(root, node, last);
 }
-- 
2.43.0


From bf86ea476635ffc1430848406317145384d2464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:27 +0000
Subject: [PATCH 36/63] fix: textsearch kmp handles bytes above 127 when
 ignoring case

---
 src/textsearch/kmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ccb21f5 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
@@ -109,7 +109,7 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&kctx->tsc))
         bfport_memcpy(kctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        kctx->pattern[index] = toupper(((char *)pattern)[index]);
+        kctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     kmp_compute_prefix(kctx);
 
     return &kctx->tsc;
-- 
2.43.0


From 2551cd05392fadb22da35e6056c9e6e0a5885c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:27 +0000
Subject: [PATCH 37/63] fix: textsearch sunday stays inside text and table and
 continues after a match

---
 src/textsearch/sunday.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..4d294c2 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -48,23 +48,25 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     sctx = ts_to_sunday(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = 0;
 
     for (;;) {
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
 
+        shift = 0;
         while (sctx->pattern_len + shift <= length) {
             for (index = 0; index < sctx->pattern_len; ++index) {
                 if (sctx->pattern[index] != find_pattern())
                     break;
             }
 
-            if (index == sctx->pattern_len)
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + sctx->pattern_len;
                 return consumed + shift;
+            }
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
@@ -81,7 +83,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
@@ -110,7 +112,7 @@ sunday_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&sctx->tsc))
         bfport_memcpy(sctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        sctx->pattern[index] = toupper(((char *)pattern)[index]);
+        sctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     sunday_compute_prefix(sctx);
 
     return &sctx->tsc;
-- 
2.43.0


From 8481d32a8cf5c72c19be7fbdff6a4fba1a8a0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:27 +0000
Subject: [PATCH 38/63] fix: textsearch bm computes its shift tables correctly
 and continues after a match

---
 src/textsearch/bm.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..928c0a0 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -50,21 +50,23 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     bctx = ts_to_bm(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = bctx->pattern_len - 1;
 
     for (;;) {
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
 
+        shift = bctx->pattern_len - 1;
         while (shift < length) {
             for (index = 0; index < bctx->pattern_len; ++index) {
                 if (bctx->pattern[bctx->pattern_len - index - 1] != find_pattern())
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
@@ -85,7 +87,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -100,7 +102,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
@@ -118,7 +120,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
@@ -144,7 +146,7 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&bctx->tsc))
         bfport_memcpy(bctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        bctx->pattern[index] = toupper(((char *)pattern)[index]);
+        bctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     bm_compute_prefix(bctx);
 
     return &bctx->tsc;
-- 
2.43.0


From 59106c0c6c3a7747295d0525c043970fe43db8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 39/63] fix: cache reset frees every entry and clears the
 changed counter

---
 src/cache/cache.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache/cache.c b/src/cache/cache.c
index 71ab16a..67f2b50 100644
--- a/src/cache/cache.c
+++ b/src/cache/cache.c
@@ -283,6 +283,7 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
     head->flags = 0;
     head->pending = 0;
     head->used = 0;
+    head->changed = 0;
     head->hits = 0;
     head->misses = 0;
     head->starve = 0;
@@ -296,6 +297,8 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
 
     for (count = 0; count < head->size; ++count) {
         node = head->nodes[count];
+        node->status = BFDEV_CACHE_FREED;
+        node->refcnt = 0;
         bfdev_list_add(&head->freed, &node->list);
     }
 }
-- 
2.43.0


From 35a545819d93ecd069443978c3fa35e57a8fbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 40/63] fix: memalloc checks the size before aligning it and
 resizes in place without spare space

---
 src/memalloc.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..12917b4 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,9 +129,10 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
-    bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
+    /* Check before aligning, which may wrap around */
     if (bfdev_unlikely(size > head->avail))
         return NULL;
+    bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
 
     /* Get the free memory block */
     node = head->find(head, size);
@@ -174,14 +175,14 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
-        return NULL;
-
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
 
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
+    if (bfdev_unlikely(origin >= resize))
+        return NULL;
+
     expand = bfdev_list_next_entry_or_null(node, &head->block_list, block);
     exsize = resize - origin;
 
-- 
2.43.0


From 63199766b075c0207fe2e9e5c513af2c088ba8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 41/63] fix: allocpool does not wrap around on huge requests

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From 38e20eb09558c9b523de952857bf6cd0f20dffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 42/63] fix: respool release_all takes the nodes off the list

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From aba865eacba547bea0afaf786898622a2d4eb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 43/63] fix: tokenbucket does not lose tokens after a long
 pause

---
 src/tokenbucket.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..bd6ec97 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    uint64_t generate;
 
     if (!limit->interval)
         return true;
@@ -24,7 +24,12 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     /* generate token */
     generate = bfdev_time_sub(current, limit->last) / limit->interval;
     limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+
+    /* compare before adding, which may wrap around */
+    if (generate < limit->capacity - limit->current)
+        limit->current += generate;
+    else
+        limit->current = limit->capacity;
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From 7fa51349334815750caaf73c0b98610a355397e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 44/63] fix: levenshtein initialises the whole first row

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From 552eeb9fce30749bc2cdd5eaeef485df5e18d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 45/63] fix: strndup terminates a truncated copy

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From 48dcd839d488cbbbce457f3b4a1bf414f128de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 46/63] fix: circle space_end uses its own variables

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..8b53087 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;                \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From 3cd30fb2d023a1c26b15df804132c239f50777f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 47/63] fix: notifier.h closes its declarations

---
 include/bfdev/notifier.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/notifier.h b/include/bfdev/notifier.h
index b2bcc48..93c8bfe 100644
--- a/include/bfdev/notifier.h
+++ b/include/bfdev/notifier.h
@@ -94,6 +94,6 @@ bfdev_notifier_register(bfdev_notifier_t *head, bfdev_notifier_node_t *node);
 extern void
 bfdev_notifier_unregister(bfdev_notifier_t *head, bfdev_notifier_node_t *node);
 
-BFDEV_BEGIN_DECLS
+BFDEV_END_DECLS
 
 #endif /* _BFDEV_NOTIFIER_H_ */
-- 
2.43.0


From 9c20453719d84c712d94d0de931a0dc2990ab3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 48/63] fix: matrix transposition writes its destination, not
 its source

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..8cf3d9e 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -136,8 +136,8 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
-- 
2.43.0


From e18df601fb37e28a8e14fbc5f3d0e3aed66b20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 49/63] fix: matrix data addresses the requested element

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8cf3d9e..98a00a3 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -202,10 +202,10 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
     BFDEV_MATRIX_TYPE *data;
     unsigned int offset;
 
-    if (var->col < row || var->col < col)
+    if (row >= var->row || col >= var->col)
         return NULL;
 
-    offset = row * col;
+    offset = row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From 9b7221763a50a0b72a1fa66311b81b65b2047efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 50/63] fix: double word division compares whole double words

---
 src/dword.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..ec1d1a2 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -85,7 +85,7 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From 0f4d81b900d2e9fae61a2bd7a2faf785c815edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:11 +0000
Subject: [PATCH 51/63] fix: alignment masks are as wide as the value

---
 include/bfdev/align.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/align.h b/include/bfdev/align.h
index eea4361..7b04c0b 100644
--- a/include/bfdev/align.h
+++ b/include/bfdev/align.h
@@ -38,7 +38,7 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_low(value, align) ({ \
-    (value) & ~((align) - 1); \
+    (value) & ~((typeof((value) + (align)))(align) - 1); \
 })
 
 /**
@@ -47,7 +47,7 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_high(value, align) ({ \
-    typeof(align) __align = (align); \
+    typeof((value) + (align)) __align = (align); \
     ((value) + (__align - 1)) & ~(__align - 1); \
 })
 
-- 
2.43.0


From 5211e12e470c748e356573cd0daeb069001a06bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 52/63] fix: DIV_ROUND_CLOSEST asks for the signedness of types

---
 include/bfdev/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index 36f1725..732f56a 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -56,8 +56,8 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_DIV_ROUND_CLOSEST(x, divisor) ({  \
     typeof(x) __x = x;                          \
     typeof(divisor) __d = divisor;              \
-    (bfdev_is_unsigned(x) ||                    \
-     bfdev_is_unsigned(divisor) ||              \
+    (bfdev_is_unsigned(typeof(__x)) ||          \
+     bfdev_is_unsigned(typeof(__d)) ||          \
      (((__x) > 0) == ((__d) > 0)))              \
         ? (((__x) + ((__d) / 2)) / (__d))       \
         : (((__x) - ((__d) / 2)) / (__d));      \
-- 
2.43.0


From c6959af8dc9761ff983697a9350ae85003cf8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 53/63] fix: the default allocator is visible to programs

---
 src/allocator.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/allocator.c b/src/allocator.c
index 079caa6..8f86f54 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -7,12 +7,12 @@
 #include <bfdev/allocator.h>
 #include <export.h>
 
-BFDEV_DEFINE_ALLOC(
+export BFDEV_DEFINE_ALLOC(
     bfdev_alloc_default,
     NULL, NULL
 );
 
-BFDEV_DEFINE_ALLOC_OPS(
+export BFDEV_DEFINE_ALLOC_OPS(
     bfdev_alloc_default_ops,
     NULL, NULL, NULL, NULL
 );
-- 
2.43.0


From 58b315897307f9159fa3eae7628dd4d021a378f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 54/63] fix: bfdev_log_level is visible to programs

---
 src/log/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/log.c b/src/log/log.c
index efc692c..400e857 100644
--- a/src/log/log.c
+++ b/src/log/log.c
@@ -58,7 +58,7 @@ log_get_level(const char *str)
     return 0;
 }
 
-extern unsigned int
+export unsigned int
 bfdev_log_level(const char *str, const char **endptr)
 {
     unsigned int level;
-- 
2.43.0


From 711a19e538223682ade90c7d80a9e8ef82cac11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:36 +0000
Subject: [PATCH 55/63] fix: mpi addition keeps the carry through a word of
 ones

---
 src/mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index cf3b8a1..d58c168 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -104,8 +104,10 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
-        carry = value < *ptra++;
+        value = *ptrb++ + carry;
+        carry = value < carry;
+        value += *ptra;
+        carry |= value < *ptra++;
         *ptrs++ = value;
 
         cnta--;
-- 
2.43.0


From c8a209235aca29aa5e75deaa2da714b056700593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:36 +0000
Subject: [PATCH 56/63] fix: mpi subtraction keeps the borrow through a word of
 ones

---
 src/mpi.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index d58c168..889be22 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -156,9 +156,10 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
-        borrow = value > *ptra++;
-        *ptrs++ = value;
+        value = *ptrb++ + borrow;
+        borrow = value < borrow;
+        borrow |= *ptra < value;
+        *ptrs++ = *ptra++ - value;
 
         cnta--;
         cntb--;
-- 
2.43.0


From a87540668745437563292c3e409bc6951366bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:36 +0000
Subject: [PATCH 57/63] fix: mpi addition of a word keeps the carry in place

---
 src/mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 889be22..8f9a8da 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
-- 
2.43.0


From e4794ad2f72bde9df139fc80a5abb352cd9b62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 58/63] fix: mpi sums and differences read their operand where
 it is

---
 src/mpi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index 8f9a8da..29c1f8e 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -615,6 +615,7 @@ mpi_add(bfdev_mpi_t *dest,
         return retval;
 
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
     ptrs = mpi_val(dest);
 
     carry = mpa_add(ptrs, ptra, ptrb, cnta, cntb, false);
@@ -679,6 +680,7 @@ mpi_sub(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
-- 
2.43.0


From 292619ab225f505cd97a767b748551e707593790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 59/63] fix: mpi products into an operand use a buffer

---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 29c1f8e..e4c9917 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -742,7 +742,7 @@ mpi_mul(bfdev_mpi_t *dest,
         return mpi_muli(dest, va, *ptrb);
 
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
-- 
2.43.0


From 261e1e5abe1e5c8aa3e12bf892938b2d852b3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 60/63] fix: mpi adds a word to a negative number by magnitude

---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index e4c9917..54524a6 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1224,7 +1224,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
-- 
2.43.0


From 14c34414e092cc426d259805e7e90d11553fe17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 61/63] fix: mpi subtracts a word from zero

---
 src/mpi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 54524a6..f25a980 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1327,8 +1327,12 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             break;
 
         case BFDEV_LT:
-            value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            if (mpi_len(va)) {
+                value = mpi_val(va);
+                vi -= *value;
+            }
+
+            retval = mpi_seti(dest, vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
-- 
2.43.0


From ab52a8561ebd1f9427c81490668f42db7e63576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 62/63] fix: mpi refuses to divide zero by zero

---
 src/mpi.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index f25a980..e248e18 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1395,6 +1395,10 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1446,6 +1450,10 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1497,6 +1505,10 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1535,6 +1547,10 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-- 
2.43.0


From b4f83991e92b9056ef33cfab66eaaeaa8fb71ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 63/63] fix: an mpi of zero is never negative

---
 src/mpi.c | 58 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index e248e18..24998b2 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -442,6 +442,13 @@ mpi_relocation(bfdev_mpi_t *var)
     return length;
 }
 
+/* zero has no sign */
+static __bfdev_always_inline void
+mpi_sign(bfdev_mpi_t *var, bool plus)
+{
+    var->plus = plus || !mpi_len(var);
+}
+
 static inline int
 mpi_extend(bfdev_mpi_t *var, unsigned long length)
 {
@@ -1174,7 +1181,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = va->plus;
+        mpi_sign(dest, va->plus);
         return -BFDEV_ENOERR;
     }
 
@@ -1193,7 +1200,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
 
         case BFDEV_LT:
@@ -1201,7 +1208,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = vb->plus;
+            mpi_sign(dest, vb->plus);
             break;
     }
 
@@ -1266,7 +1273,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = va->plus;
+        mpi_sign(dest, va->plus);
         return -BFDEV_ENOERR;
     }
 
@@ -1285,7 +1292,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
 
         case BFDEV_LT:
@@ -1293,7 +1300,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = !vb->plus;
+            mpi_sign(dest, !vb->plus);
             break;
     }
 
@@ -1344,7 +1351,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
     }
 
@@ -1369,7 +1376,7 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = !(va->plus ^ vb->plus);
+    mpi_sign(dest, !(va->plus ^ vb->plus));
 
     return -BFDEV_ENOERR;
 }
@@ -1384,7 +1391,7 @@ bfdev_mpi_muli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1410,7 +1417,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
+            mpi_sign(quot, !(va->plus ^ vb->plus));
             rem->plus = true;
             break;
 
@@ -1420,7 +1427,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
 
             /* quot can be equal to va */
@@ -1436,8 +1443,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            mpi_sign(quot, !(va->plus ^ vb->plus));
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1465,7 +1472,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
+            mpi_sign(quot, va->plus);
             rem->plus = true;
             break;
 
@@ -1475,7 +1482,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
 
             /* quot can be equal to va */
@@ -1491,8 +1498,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            mpi_sign(quot, va->plus);
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1525,7 +1532,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
             break;
 
@@ -1534,7 +1541,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1567,7 +1574,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
             break;
 
@@ -1576,7 +1583,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1638,7 +1645,7 @@ bfdev_mpi_shli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1653,7 +1660,7 @@ bfdev_mpi_shri(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1707,6 +1714,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
     base = mpi_val(dest);
     bfdev_bit_clr(base, bit);
     mpi_relocation(dest);
+    mpi_sign(dest, dest->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1734,7 +1742,7 @@ bfdev_mpi_set(bfdev_mpi_t *dest, const bfdev_mpi_t *src)
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = src->plus;
+    mpi_sign(dest, src->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1749,7 +1757,7 @@ bfdev_mpi_import(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
     if (bfdev_unlikely(retval))
         return retval;
 
-    var->plus = sign;
+    mpi_sign(var, sign);
 
     return -BFDEV_ENOERR;
 }
-- 
2.43.0

