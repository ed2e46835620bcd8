From 04a370bf6bdc6810de59c176409bb0141897cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 01/92] fix: tm: let loadstore copy from the load buffer to the
 store buffer

tm_vmem_tx_ldst() copied the bytes of the store buffer into the load buffer
and advanced both addresses by different amounts if the buffers were aligned
differently.
---
 modules/tm/src/vmem_tx.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..8a281f2 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -323,13 +323,16 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
         size_t spage_tail = TM_BLOCK_SIZE - spage_head;
         size_t spage_diff = siz < spage_tail ? siz : spage_tail;
 
-        uint8_t* lmem = tm_page_buffer(lpage);
+        /* Copy up to the first block boundary on either side. */
+        size_t diff = lpage_diff < spage_diff ? lpage_diff : spage_diff;
+
+        const uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        memmove(smem + spage_head, lmem + lpage_head, diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += diff;
+        saddr += diff;
+        siz   -= diff;
     }
 }
 
-- 
2.43.0


From ce3f2e422b6157822c13fdacd88d2541e09fcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 02/92] fix: tm: keep buffered stores when privatizing a page

Privatization switched pages with buffered stores to write-through mode
without moving the stores into memory, so commit lost them and a roll-back
wrote them. privatize_c also searched an unloaded buffer when discarding,
and accepted pages that had been discarded.
---
 modules/tm/src/vmem_tx.c | 57 +++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 8a281f2..852d6d7 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -336,6 +336,24 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Switches a page to write-through mode. Buffered stores are moved into
+ * the region's memory, and the memory's old content is saved for undo. */
+static void
+enable_write_through(struct tm_page* page, struct tm_vmem* vmem,
+                     struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        return;
+    }
+    if (tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -356,13 +374,16 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
         if (!tm_page_is_complete(page)) {
             tm_page_ld(page, copy_bits(addr, siz), vmem, error);
             if (picotm_error_is_set(error)) {
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -374,13 +395,16 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
         if (!tm_page_is_complete(page)) {
             tm_page_ld(page, copy_bits(addr, siz), vmem, error);
             if (picotm_error_is_set(error)) {
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (!flags) {
 
@@ -447,6 +471,11 @@ prepare_page_privatize_c(struct tm_page* page,
 {
     bool found_c;
 
+    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+        picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
+        return false;
+    }
+
     if (flags & PICOTM_TM_PRIVATIZE_STORE) {
 
         /* Page requires a writer lock. */
@@ -458,12 +487,15 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
                                error);
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -475,12 +507,15 @@ prepare_page_privatize_c(struct tm_page* page,
                 return false;
             }
         }
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
                                error);
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (!flags) {
 
@@ -494,11 +529,15 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
-        uintptr_t page_addr = tm_page_address(page);
-        size_t page_head = addr - page_addr;
-        const uint8_t* mem = tm_page_buffer(page);
-        found_c = !!memchr(mem + page_head, c, page_diff);
-
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
+        found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
+                               error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         page->flags |= TM_PAGE_FLAG_DISCARDED;
 
     } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
-- 
2.43.0


From 9b5a56e8a869a609de0e893333d288140eab364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 03/92] fix: tm: search only the privatized range for the end
 character

tm_page_ld_c() matched the character at addresses in front of the range and
compared against the int instead of the converted character.
---
 modules/tm/src/page.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..33cd289 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -116,14 +116,15 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
     unsigned long bit = 1ul;
 
     for (buf = buf_beg; buf < buf_end; ++buf, ++mem, bit <<= 1) {
-        if ((bits & bit) && !(page->buf_bits & bit)) {
+        if (!(bits & bit)) {
+            continue;
+        }
+        if (!(page->buf_bits & bit)) {
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
-            if (*mem == c) {
-                break;
-            }
+        if (*mem == (uint8_t)c) {
+            break;
         }
     }
 
-- 
2.43.0


From d686f3c7f093d16847790f133d63cbdbb435cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 04/92] fix: tm: restore discarded pages during roll-back

Discarded memory is only invalid once the transaction commits. Stores to
privatized memory that was discarded afterwards survived a roll-back.
---
 modules/tm/src/vmem_tx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 852d6d7..1182768 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -636,8 +636,7 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
         tm_page_st(page, copy_all_bits(), vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
-- 
2.43.0


From ac9865c41034fbd4cdf55edf2d1c6b4f79d6f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 05/92] fix: core: roll back when restarting from the execution
 phase

picotm_restart() re-entered the transaction without rolling it back, so
logged events, locks and module state of the aborted attempt remained.
---
 src/picotm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/picotm.c b/src/picotm.c
index 0138805..e93458f 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -316,7 +316,13 @@ PICOTM_EXPORT
 void
 picotm_restart()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RESTART);
+    /* The recovery phase has already rolled back the transaction. In the
+     * execution phase, which has no error set, we do this first. */
+    if (picotm_error_is_set(get_non_null_error())) {
+        restart_tx(get_non_null_tx(), PICOTM_MODE_RESTART);
+    } else {
+        restart_tx(get_non_null_tx(), PICOTM_MODE_RETRY);
+    }
 }
 
 PICOTM_EXPORT
-- 
2.43.0


From 99dc0d342a30578b292224c7cbb2c3441fcefadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 06/92] fix: core: report errors from the roll-back before
 recovery

An error during the roll-back that precedes recovery was dropped, and the
recovery code saw the transaction's original error marked as recoverable.
---
 src/picotm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picotm.c b/src/picotm.c
index e93458f..39a008a 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -222,6 +222,9 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
         }
         if (!picotm_error_is_non_recoverable()) {
             picotm_tx_rollback(tx, &error);
+            if (picotm_error_is_set(&error)) {
+                picotm_error_mark_as_non_recoverable(get_non_null_error());
+            }
         }
         /* We're recovering from an error. Returning 'false'
          * will invoke the transaction's recovery code. */
-- 
2.43.0


From a44f88f557ee7d2d5e56f2d70a0fd3f8111c63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 07/92] fix: arithmetic: detect overflow of signed 0 - MIN

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8b753dc..db5a8c3 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -267,12 +267,8 @@ __picotm_arithmetic_error_underflow_tx(void);
                 __picotm_arithmetic_error_underflow_tx();                   \
             }                                                               \
         } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
+            if (__add(maxval, rhs) < lhs) {                                 \
+                __picotm_arithmetic_error_overflow_tx();                    \
             }                                                               \
         }                                                                   \
         return __sub(lhs, rhs);                                             \
-- 
2.43.0


From 05a202663207768020c3d34966d04f0ee0ba36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 08/92] fix: arithmetic: detect range errors of signed
 multiplication with negative factors

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index db5a8c3..8fa9a35 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -426,13 +426,13 @@ __picotm_arithmetic_error_underflow_tx(void);
             if (lhs == idtval) {                                            \
                 return rhs;                                                 \
             } else if (lhs > idtval) {                                      \
-                if (__div(-maxval, -rhs) < -lhs) {                          \
+                if ((rhs != -idtval) && (__div(minval, rhs) < lhs)) {       \
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             } else /* (lhs < idtval) */ {                                   \
                 if (lhs == minval) {                                        \
                     __picotm_arithmetic_error_overflow_tx();                \
-                } else if (__div(maxval, rhs) < lhs) {                      \
+                } else if (__div(maxval, rhs) > lhs) {                      \
                     __picotm_arithmetic_error_overflow_tx();                \
                 }                                                           \
             }                                                               \
-- 
2.43.0


From 0f955c2d1def4533fb3db68611bcb143757c9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 09/92] fix: arithmetic: handle factors between -1 and 1 in
 floating-point multiplication

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8fa9a35..e53276f 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -534,7 +534,7 @@ __picotm_arithmetic_error_underflow_tx(void);
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             }                                                               \
-        } else /* (rhs < -idtval) */ {                                      \
+        } else if (rhs < -idtval) {                                         \
             if (lhs > asbval) {                                             \
                 if (__div(minval, rhs) < lhs) {                             \
                     __picotm_arithmetic_error_underflow_tx();               \
-- 
2.43.0


From 6b126294f6737098c95e6ac5a4fe9f253e01a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 10/92] fix: libm: clear stale floating-point exceptions ahead
 of each operation

---
 modules/libm/src/matherr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..39d789c 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -43,7 +43,7 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
-- 
2.43.0


From ab04b04275a17f3fd06ecff61ee4db73586e6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 11/92] fix: core: let irrevocable transactions continue in
 picotm_irrevocable()

The function restarted the transaction even if it was already irrevocable.
Such a transaction, and every user of dup2_tx(), restarted forever.
---
 src/picotm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/picotm.c b/src/picotm.c
index 39a008a..f7774c5 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -332,7 +332,13 @@ PICOTM_EXPORT
 void
 picotm_irrevocable()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_IRREVOCABLE);
+    struct picotm_tx* tx = get_non_null_tx();
+
+    if (picotm_tx_is_irrevocable(tx)) {
+        return; /* already irrevocable; nothing to do */
+    }
+
+    restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
 }
 
 PICOTM_EXPORT
-- 
2.43.0


From 8850779b4544e262125e92dd199b46159de034a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 12/92] fix: core: widen the reader/writer lock's word to hold
 every waiter index

Lock owners have 10-bit indices, but the lock had only 4 bits for the index
of its first waiter. With more than 15 threads, waiters were lost or confused
with each other.
---
 include/picotm/picotm-lib-rwlock.h |  2 +-
 src/picotm-lib-rwlock.c            | 44 +++++++++++++++---------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/picotm/picotm-lib-rwlock.h b/include/picotm/picotm-lib-rwlock.h
index 244108f..1a4d8e5 100644
--- a/include/picotm/picotm-lib-rwlock.h
+++ b/include/picotm/picotm-lib-rwlock.h
@@ -99,7 +99,7 @@ struct picotm_error;
  */
 struct picotm_rwlock {
     /** counter variable */
-    atomic_uint_least8_t  n;
+    atomic_uint_least16_t  n;
 };
 
 /**
diff --git a/src/picotm-lib-rwlock.c b/src/picotm-lib-rwlock.c
index 75be7b1..6f4a5b3 100644
--- a/src/picotm-lib-rwlock.c
+++ b/src/picotm-lib-rwlock.c
@@ -36,10 +36,10 @@ enum {
 };
 
 /** \brief Bitmask of the waiter index in 'struct picotm_rwlock::n' */
-static const uint8_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
+static const uint16_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
 
 /** \brief Writer is present if this counter value is set. */
-static const uint8_t WRITER_COUNTER = COUNTER_BIT_MASK;
+static const uint16_t WRITER_COUNTER = COUNTER_BIT_MASK;
 
 PICOTM_EXPORT
 void
@@ -82,7 +82,7 @@ static const struct picotm_lock_slist_funcs s_picotm_rwlock_slist_funcs = {
     cmpxchg_first_index
 };
 
-static uint8_t
+static uint16_t
 rw_counter_bits(unsigned long value)
 {
     assert((value & COUNTER_BIT_MASK) == value);
@@ -91,19 +91,19 @@ rw_counter_bits(unsigned long value)
 }
 
 static unsigned long
-rw_counter(uint8_t n)
+rw_counter(uint16_t n)
 {
     return n & COUNTER_BIT_MASK;
 }
 
-static uint8_t
+static uint16_t
 rw_index_bits(unsigned long value)
 {
     return (value << INDEX_BIT_SHIFT) & INDEX_BIT_MASK;
 }
 
-static uint8_t
-rw_index(uint8_t n)
+static uint16_t
+rw_index(uint16_t n)
 {
     return (n & INDEX_BIT_MASK) >> INDEX_BIT_SHIFT;
 }
@@ -170,7 +170,7 @@ try_lock_or_wait(struct picotm_rwlock* self,
 static bool
 try_rdlock(struct picotm_rwlock* self)
 {
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
         if (rw_counter(n) == WRITER_COUNTER) {
@@ -184,8 +184,8 @@ try_rdlock(struct picotm_rwlock* self)
             return false;
         }
 
-        uint8_t expected = rw_counter_bits(rw_counter(n));
-        uint8_t desired  = rw_counter_bits(rw_counter(n) + 1);
+        uint16_t expected = rw_counter_bits(rw_counter(n));
+        uint16_t desired  = rw_counter_bits(rw_counter(n) + 1);
 
         bool succ = atomic_compare_exchange_strong_explicit(&self->n,
                                                             &expected, desired,
@@ -213,7 +213,7 @@ try_wrlock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
 
@@ -226,8 +226,8 @@ try_wrlock(struct picotm_rwlock* self)
         }
 
         /* Expect us to be the only transaction. */
-        uint8_t expected = rw_counter_bits(0);
-        uint8_t desired  = rw_counter_bits(WRITER_COUNTER);
+        uint16_t expected = rw_counter_bits(0);
+        uint16_t desired  = rw_counter_bits(WRITER_COUNTER);
 
         bool succ = atomic_compare_exchange_strong_explicit(&self->n,
                                                             &expected, desired,
@@ -247,7 +247,7 @@ try_uplock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
 
@@ -262,10 +262,10 @@ try_uplock(struct picotm_rwlock* self)
          * transactions can be ignored as we already hold the lock in
          * reader mode. */
 
-        uint8_t expected = rw_index_bits(rw_index(n)) |
+        uint16_t expected = rw_index_bits(rw_index(n)) |
                            rw_counter_bits(1);
 
-        uint8_t desired = rw_index_bits(rw_index(n)) |
+        uint16_t desired = rw_index_bits(rw_index(n)) |
                           rw_counter_bits(WRITER_COUNTER);
 
         bool succ =
@@ -307,7 +307,7 @@ picotm_rwlock_unlock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     assert(rw_counter(n) != 0);
 
@@ -375,7 +375,7 @@ picotm_rwlock_get_index(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     return rw_index(n);
 }
@@ -387,22 +387,22 @@ picotm_rwlock_cmpxchg_index(struct picotm_rwlock* self,
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
         /* Test and ... */
 
-        uint8_t current_index = rw_index(n);
+        uint16_t current_index = rw_index(n);
         if (current_index != expected_index) {
             return current_index;
         }
 
         /* ... Test-And-Set. */
 
-        uint8_t expected = rw_counter_bits(rw_counter(n)) |
+        uint16_t expected = rw_counter_bits(rw_counter(n)) |
                            rw_index_bits(expected_index);
 
-        uint8_t desired = rw_counter_bits(rw_counter(n)) |
+        uint16_t desired = rw_counter_bits(rw_counter(n)) |
                           rw_index_bits(desired_index);
 
         bool succ =
-- 
2.43.0


From 712765aba0ac5239dda0d0dfd827c18886ae21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 13/92] fix: core: don't declare interfaces as leaf functions

The macro __THROW contains the attribute 'leaf', which lets compilers assume
that functions neither invoke call-backs of the calling translation unit, nor
return by jumping to picotm_begin. Values of static variables could thus be
cached across calls.
---
 include/picotm/compiler.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/picotm/compiler.h b/include/picotm/compiler.h
index 632934c..668b343 100644
--- a/include/picotm/compiler.h
+++ b/include/picotm/compiler.h
@@ -71,8 +71,10 @@
  * \def PICOTM_NOTHROW
  * Exported function does not throw exceptions.
  */
-#ifdef __THROW
-    #define PICOTM_NOTHROW  __THROW
+/* Don't use __THROW. It implies the attribute 'leaf', but picotm's interfaces
+ * invoke call-back functions and return by jumping to picotm_begin. */
+#ifdef __THROWNL
+    #define PICOTM_NOTHROW  __THROWNL
 #else
     #define PICOTM_NOTHROW
 #endif
-- 
2.43.0


From dd0b50891a62c8ef17193fea9be72bb08c1c5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 14/92] fix: txlib: undo operations that could not be logged

If the event log cannot be extended, the operation has already been executed
on the data structure, but the roll-back doesn't know about it.
---
 modules/txlib/src/txlib_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/txlib/src/txlib_tx.c b/modules/txlib/src/txlib_tx.c
index d8c5e89..b4c4f87 100644
--- a/modules/txlib/src/txlib_tx.c
+++ b/modules/txlib/src/txlib_tx.c
@@ -301,6 +301,10 @@ txlib_tx_append_events3(struct txlib_tx* self, size_t nevents,
 
         picotm_append_event(self->module, 0, beg - self->event, error);
         if (picotm_error_is_set(error)) {
+            /* The log doesn't contain the event, so the roll-back won't
+             * undo it. We have to undo the operation here. */
+            struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+            txlib_event_undo(beg, &undo_error);
             return;
         }
     }
-- 
2.43.0


From 6f15ef09a67cb00a0a3e1b6634f17d69f9ed8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 15/92] fix: txlib: return correct bounds of a multiset's key
 range

The lower bound was the entry in front of the first entry with the key, and
the upper bound of the largest key was the last entry with the key.
---
 modules/txlib/src/txmultiset_state.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..8077487 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            return entry; /* previous entry was the first with the key */
         }
 
         entry = pos;
@@ -186,7 +186,7 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
         return entry;
     }
 
-    /* iterate to the last entry with the key */
+    /* iterate to the entry after the last one with the key */
 
     struct txmultiset_entry* pos = txmultiset_entry_next(entry);
 
@@ -196,11 +196,9 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
         if (cmp) {
             return pos;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return end;
 }
 
 size_t
-- 
2.43.0


From d6d2f04e272c3204ae66654016268e70dc1ab28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 16/92] fix: txlib: move sub-tree when inserting in front of an
 equal entry

The sub-tree of smaller entries remained linked from the old position as well.
---
 modules/txlib/src/txmultiset_entry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..5244f91 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -212,6 +212,12 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
         position->internal.parent->internal.ge = entry;
     }
 
+    /* The sub-tree of smaller entries moves from 'position' to 'entry'. */
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+    }
+
+    position->internal.lt = NULL;
     position->internal.parent = entry;
 }
 
-- 
2.43.0


From 98bf4f20e1c01040d668ba866682f403a2ab221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 17/92] fix: treemap: don't shift keys beyond their width

---
 src/picotm-lib-treemap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/picotm-lib-treemap.c b/src/picotm-lib-treemap.c
index 16318d5..e19898a 100644
--- a/src/picotm-lib-treemap.c
+++ b/src/picotm-lib-treemap.c
@@ -225,7 +225,13 @@ static unsigned long long
 key_depth_prefix(unsigned long long key, unsigned long depth,
                  unsigned long level_nbits)
 {
-    return key >> (depth * level_nbits);
+    const unsigned long nbits = depth * level_nbits;
+
+    if (nbits >= sizeof(key) * CHAR_BIT) {
+        return 0; /* tree covers all bits of the key */
+    }
+
+    return key >> nbits;
 }
 
 static unsigned long
-- 
2.43.0


From 0cd178ac24926753cc7e3099a015859340575bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 18/92] fix: slist: fix name of internal initializer macro

---
 include/picotm/picotm-lib-slist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/picotm/picotm-lib-slist.h b/include/picotm/picotm-lib-slist.h
index 2217016..2c65071 100644
--- a/include/picotm/picotm-lib-slist.h
+++ b/include/picotm/picotm-lib-slist.h
@@ -260,7 +260,7 @@ struct picotm_slist {
  * Static-initializer macro for singly-linked list items.
  */
 #define PICOTM_SLIST_ITEM_INITIALIZER   \
-    __PIOTM_SLIST_INITIALIZER(NULL)
+    __PICOTM_SLIST_INITIALIZER(NULL)
 
 /**
  * \ingroup group_lib
@@ -268,7 +268,7 @@ struct picotm_slist {
  * \param   head_   The singly-linked list's head entry.
  */
 #define PICOTM_SLIST_HEAD_INITIALIZER(head_)    \
-    __PIOTM_SLIST_INITIALIZER(head_)
+    __PICOTM_SLIST_INITIALIZER(head_)
 
 /**
  * \ingroup group_lib
-- 
2.43.0


From 0213c3f6579d06b4181148a829415c518762d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 19/92] fix: libc: declare strcat_tx() and strcpy_tx() to users

---
 modules/libc/include/picotm/config/picotm-libc-config.h.in | 4 ++--
 modules/libc/include/picotm/string.h                       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/libc/include/picotm/config/picotm-libc-config.h.in b/modules/libc/include/picotm/config/picotm-libc-config.h.in
index fc4c6d2..053c4e6 100644
--- a/modules/libc/include/picotm/config/picotm-libc-config.h.in
+++ b/modules/libc/include/picotm/config/picotm-libc-config.h.in
@@ -540,8 +540,8 @@
 #undef PICOTM_LIBC_HAVE_STRCOLL_L
 #endif
 
-#ifndef PICOTM_LIBC_HAVE_STRCMP
-#undef PICOTM_LIBC_HAVE_STRCMP
+#ifndef PICOTM_LIBC_HAVE_STRCPY
+#undef PICOTM_LIBC_HAVE_STRCPY
 #endif
 
 #ifndef PICOTM_LIBC_HAVE_STRCSPN
diff --git a/modules/libc/include/picotm/string.h b/modules/libc/include/picotm/string.h
index 4c01ad1..3b21988 100644
--- a/modules/libc/include/picotm/string.h
+++ b/modules/libc/include/picotm/string.h
@@ -181,7 +181,7 @@ char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n);
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_STPCAT) && PICOTM_LIBC_HAVE_STPCAT || \
+#if defined(PICOTM_LIBC_HAVE_STRCAT) && PICOTM_LIBC_HAVE_STRCAT || \
     defined(__PICOTM_DOXYGEN)
 PICOTM_NOTHROW
 /**
-- 
2.43.0


From 54d5d1c11617069c13f65a2199aa95018e5dc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 20/92] fix: libc: copy no bytes behind the end of
 memccpy_tx()'s range

---
 modules/libc/src/string.c | 46 +++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..3fa23d4 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -26,6 +26,20 @@
 #include <errno.h>
 #include <stdbool.h>
 
+/* Privatizes up to and including the first |c|, but at most |n| bytes. */
+static void
+privatize_c_n_tx(const void* s, int c, size_t n, unsigned long flags)
+{
+    const unsigned char* beg = s;
+
+    for (; n; --n, ++beg) {
+        privatize_tx(beg, sizeof(*beg), flags);
+        if (*beg == (unsigned char)c) {
+            break;
+        }
+    }
+}
+
 /*
  * Memory functions
  */
@@ -35,32 +49,18 @@ PICOTM_EXPORT
 void*
 memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
 {
-    uint8_t* dest8 = dest;
-    const uint8_t* src8 = src;
-
-    dest = NULL; /* Return NULL by default */
-
-    while (n) {
-
-        uint8_t buf[32];
+    privatize_c_n_tx(src, c, n, PICOTM_TM_PRIVATIZE_LOAD);
 
-        size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
-
-        load_tx(src8, buf, siz);
+    const uint8_t* pos = memchr(src, c, n);
+    if (!pos) {
+        store_tx(dest, src, n);
+        return NULL;
+    }
 
-        for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
-                dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
-            }
-        }
+    size_t siz = pos - (const uint8_t*)src + 1;
+    store_tx(dest, src, siz);
 
-        store_tx(dest8, buf, siz);
-        dest8 += siz;
-        src8 += siz;
-        n -= siz;
-    }
-    return dest;
+    return (uint8_t*)dest + siz; /* Return the location after 'c' */
 }
 #endif
 
-- 
2.43.0


From 75dfdfc7a590c5d983cfc95e1050cd7addfd9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 21/92] fix: libc: search with memchr_tx() only up to the first
 match

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 3fa23d4..15e0ca5 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -69,7 +69,7 @@ PICOTM_EXPORT
 void*
 memchr_tx(const void* s, int c, size_t n)
 {
-    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_n_tx(s, c, n, PICOTM_TM_PRIVATIZE_LOAD);
     return memchr_tm(s, c, n);
 }
 #endif
-- 
2.43.0


From 032a22f4caa083f43db3e867285c5218e0db5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 22/92] fix: libc: move overlapping memory correctly in
 memmove_tx()

---
 modules/libc/src/string.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 15e0ca5..7c66a7e 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -104,17 +104,23 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
+    /* Copy from the end if the destination overwrites the source's end. */
+    bool backward = (uintptr_t)dest8 > (uintptr_t)src8;
+
     while (n) {
 
         uint8_t buf[32];
 
         size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+        size_t off = backward ? n - siz : 0;
 
-        load_tx(src8, buf, siz);
-        store_tx(dest8, buf, siz);
+        load_tx(src8 + off, buf, siz);
+        store_tx(dest8 + off, buf, siz);
 
-        dest8 += siz;
-        src8 += siz;
+        if (!backward) {
+            dest8 += siz;
+            src8 += siz;
+        }
         n -= siz;
     }
     return dest;
-- 
2.43.0


From 84683787d797dc4675ced3d01dcac315d7d74f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 23/92] fix: libc: copy the terminator and return its location
 in stpcpy_tx()

---
 modules/libc/src/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 7c66a7e..23ee5b0 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -178,8 +178,9 @@ char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
-- 
2.43.0


From aa534890f9c6bf07f9a1b6fee563de63dcaa4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 24/92] fix: libc: respect the source's maximum length in
 stpncpy_tx() and strncpy_tx()

---
 modules/libc/src/string.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 23ee5b0..5eb1f74 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -189,15 +189,11 @@ PICOTM_EXPORT
 char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-        memset_tx(dest + len, 0, n - len);
-    } else {
-        store_tx(dest, src, n);
-    }
-    return dest;
+    privatize_c_n_tx(src, '\0', n, PICOTM_TM_PRIVATIZE_LOAD);
+    size_t len = strnlen(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, 0, n - len);
+    return dest + len;
 }
 #endif
 
@@ -341,13 +337,10 @@ PICOTM_EXPORT
 char*
 strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-    } else {
-        store_tx(dest, src, n);
-    }
+    privatize_c_n_tx(src, '\0', n, PICOTM_TM_PRIVATIZE_LOAD);
+    size_t len = strnlen(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, 0, n - len);
     return dest;
 }
 #endif
-- 
2.43.0


From f1040871e0603f1de4a3c3dc6f496a7cd25c07f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 25/92] fix: libc: search with strchr_tx() only up to the
 string's end

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 5eb1f74..a76664c 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -216,7 +216,7 @@ PICOTM_EXPORT
 char*
 strchr_tx(const char* s, int c)
 {
-    privatize_c_tx(s, c, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strchr_tm(s, c);
 }
 #endif
-- 
2.43.0


From c8547cf5153b97458a01c1378dd218530b2ea67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 26/92] fix: libc: privatize the set of characters in
 strcspn_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index a76664c..d2490f3 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -260,6 +260,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From 55e63d40f18b1a7c304a4c3334b949faaa8d484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 27/92] fix: libc: respect the maximum length in strncat_tx(),
 strncmp_tx() and strnlen_tx()

---
 modules/libc/src/string.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index d2490f3..62f7f1a 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -309,15 +309,11 @@ char*
 strncat_tx(char* restrict dest, const char* restrict src, size_t n)
 {
     privatize_c_tx(dest, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_n_tx(src, '\0', n, PICOTM_TM_PRIVATIZE_LOAD);
     size_t dlen = strlen(dest);
-    size_t slen = strlen(src) + 1;
-    if (n < slen) {
-        store_tx(dest + dlen, src, n);
-        memset_tx(dest + dlen + n, '\0', 1);
-    } else {
-        store_tx(dest + dlen, src, slen);
-    }
+    size_t slen = strnlen(src, n);
+    store_tx(dest + dlen, src, slen);
+    memset_tx(dest + dlen + slen, '\0', 1);
     return dest;
 }
 #endif
@@ -327,8 +323,8 @@ PICOTM_EXPORT
 int
 strncmp_tx(const char* s1, const char* s2, size_t n)
 {
-    privatize_c_tx(s1, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(s2, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_n_tx(s1, '\0', n, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_n_tx(s2, '\0', n, PICOTM_TM_PRIVATIZE_LOAD);
     return strncmp(s1, s2, n);
 }
 #endif
@@ -361,7 +357,7 @@ PICOTM_EXPORT
 size_t
 strnlen_tx(const char* s, size_t maxlen)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_n_tx(s, '\0', maxlen, PICOTM_TM_PRIVATIZE_LOAD);
     return strnlen(s, maxlen);
 }
 #endif
-- 
2.43.0


From b04cdc1e1ab82651a4931c99b856693ae9497ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 28/92] fix: libc: privatize the modified string in
 strtok_r_tx()

---
 modules/libc/src/string.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 62f7f1a..f1b8d77 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -411,12 +411,13 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    char* ptr = load_ptr_tx(saveptr);
+
+    privatize_c_tx(str ? str : ptr, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
-    char* ptr = load_ptr_tx(saveptr);
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From 58c3b1d38228349fe7e1780a4cd018bd8c0cb7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 29/92] fix: libc: respect the maximum length and terminate the
 copy in strndup_tx()

---
 modules/libc/src/string-tm.c | 12 ++++--------
 modules/libc/src/string.c    |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..cb83b00 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,14 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
-    if (n < len) {
-        len = n + sizeof(*s);
-    }
+    size_t len = strnlen(s, n);
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*),
+                                        len + sizeof(*s), &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +372,7 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
     return s2;
 }
 #endif
diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index f1b8d77..329e9e6 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -347,7 +347,7 @@ PICOTM_EXPORT
 char*
 strndup_tx(const char* s, size_t n)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_n_tx(s, '\0', n, PICOTM_TM_PRIVATIZE_LOAD);
     return strndup_tm(s, n);
 }
 #endif
-- 
2.43.0


From 7d88a26fa06abc569687d1acc870dfbb0d4ea380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 30/92] fix: libc: don't truncate the size of large allocations

The mask for rounding up the size was of type 'unsigned int', so that
sizes of 4 GiB and more lost their upper bits. Sizes near SIZE_MAX
wrapped around to 0. In both cases the returned memory block was too
small.
---
 modules/libc/src/allocator/allocator_tx.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/allocator/allocator_tx.c b/modules/libc/src/allocator/allocator_tx.c
index fc9c5c8..976f569 100644
--- a/modules/libc/src/allocator/allocator_tx.c
+++ b/modules/libc/src/allocator/allocator_tx.c
@@ -22,16 +22,22 @@
 #include "picotm/picotm-error.h"
 #include <assert.h>
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "allocator_log.h"
 
 /**
- * Round size up to next multiple of word size.
+ * Round size up to next multiple of word size. Sizes that are too large
+ * for being rounded are returned as they are.
  */
 static size_t
 rnd2wb(size_t size)
 {
-    const unsigned int mask = sizeof(void*) - 1;
+    const size_t mask = sizeof(void*) - 1;
+
+    if (size > SIZE_MAX - mask) {
+        return size;
+    }
 
     return (size + mask) & ~mask;
 }
-- 
2.43.0


From 3006c28e9358316f9a0bd7746849007eecf20ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 31/92] fix: libc: detect overflow of the allocation size in
 calloc_tx()

The product of number and size of the elements could overflow, which
returned a memory block that was too small.
---
 modules/libc/src/stdlib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..f99b5cc 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -30,6 +30,7 @@
 #elif defined (HAVE_MALLOC_H) && HAVE_MALLOC_H
 #include <malloc.h>
 #endif
+#include <stdint.h>
 #include <string.h>
 #include "allocator/module.h"
 #include "compat/malloc_usable_size.h"
@@ -70,6 +71,10 @@ calloc_tx(size_t nmemb, size_t size)
         picotm_recover_from_error(&error);
     } while (true);
 
+    while (size && (nmemb > SIZE_MAX / size)) {
+        picotm_recover_from_errno(ENOMEM);
+    }
+
     size_t alloc_size = nmemb * size;
 
     do {
-- 
2.43.0


From 0dbe5749e111932c5bbeb93091095bc1dfaa3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 32/92] fix: libc: privatize the result location in
 posix_memalign_tx()

The function privatized the memory at the location's current value,
which is usually not a valid address.
---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index f99b5cc..34f0975 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -171,7 +171,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From 07ecbcdc07c8fca90b54ebde2ef065e330a47867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 33/92] fix: libc: copy the transaction's own stores in
 realloc_tx()

The function discarded the old memory block's transactional state before
copying, so that stores of the same transaction were lost. It also copied
without protection against concurrent transactions. Privatize the block's
content before copying it.
---
 modules/libc/src/stdlib.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 34f0975..9dbb00b 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -203,9 +203,6 @@ void*
 realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
-    if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
-    }
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
@@ -237,7 +234,13 @@ realloc_tx(void* ptr, size_t size)
          * not the amount of allocated or valid memory. Any memcpy() could
          * therefore operate on uninitialized data.
          */
-        memcpy(mem, ptr, size < usiz ? size : usiz);
+        size_t csiz = size < usiz ? size : usiz;
+        privatize_tx(ptr, csiz, PICOTM_TM_PRIVATIZE_LOAD);
+        memcpy(mem, ptr, csiz);
+    }
+
+    if (usiz) {
+        privatize_tx(ptr, usiz, 0); /* discard memory region */
     }
 
     if (ptr) {
-- 
2.43.0


From 693647b4db2e7ed00e1f4a8b71d7e5e48e8359f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 34/92] fix: libc: privatize the output buffer of
 vsnprintf_tx()

The function privatized memory up to the first byte that contains the
value of the buffer's size, which is unrelated to the memory written by
the function.
---
 modules/libc/src/stdio.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3796e4c..a1116a8 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -169,15 +169,23 @@ PICOTM_EXPORT
 int
 vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 {
-    privatize_c_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     va_list ap_copy;
     va_copy(ap_copy, ap);
     privatize_printf_args(format, ap_copy);
+    va_end(ap_copy);
 
-    return vsnprintf_tm(s, n, format, ap);
+    if (n) {
+        /* Only privatize the part of the buffer that we'll write. */
+        va_copy(ap_copy, ap);
+        size_t len = vsnprintf_tm(NULL, 0, format, ap_copy);
+        va_end(ap_copy);
+
+        privatize_tx(s, len < n ? len + 1 : n, PICOTM_TM_PRIVATIZE_STORE);
+    }
 
+    return vsnprintf_tm(s, n, format, ap);
 }
 #endif
 
-- 
2.43.0


From 1e65ebb077e3896a1d9b129ae8b3e9c3b42bc25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 35/92] fix: libc: parse all formats and arguments in
 vsnprintf_tx()

The function did not step over arguments of numeric conversions, so that
a string argument behind a number resulted in an invalid memory access.
It also refused flags, field widths, precisions, and several conversions
and length modifiers.
---
 modules/libc/src/stdio.c | 268 ++++++++++++++++++++++++++++-----------
 1 file changed, 197 insertions(+), 71 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index a1116a8..f521225 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -23,7 +23,11 @@
 #include "picotm/picotm-tm.h"
 #include "picotm/stdio-tm.h"
 #include <errno.h>
+#include <limits.h>
+#include <stddef.h>
+#include <stdint.h>
 #include <string.h>
+#include <wchar.h>
 #include "error/module.h"
 
 #if defined(PICOTM_LIBC_HAVE_SNPRINTF) && PICOTM_LIBC_HAVE_SNPRINTF
@@ -56,111 +60,233 @@ sscanf_tx(const char* s, const char* format, ...)
 }
 #endif
 
+/*
+ * Format parsing
+ */
+
+enum length_modifier {
+    LENGTH_NONE,
+    LENGTH_HH,
+    LENGTH_H,
+    LENGTH_L,
+    LENGTH_LL,
+    LENGTH_J,
+    LENGTH_Z,
+    LENGTH_T,
+    LENGTH_LONG_DOUBLE
+};
+
+static const char*
+parse_number(const char* pos, int* number)
+{
+    int n = 0;
+
+    for (; (*pos >= '0') && (*pos <= '9'); ++pos) {
+        n = n > (INT_MAX - 9) / 10 ? INT_MAX : n * 10 + (*pos - '0');
+    }
+
+    *number = n;
+
+    return pos;
+}
+
+static const char*
+parse_length_modifier(const char* pos, enum length_modifier* length)
+{
+    switch (*pos) {
+        case 'h':
+            *length = pos[1] == 'h' ? LENGTH_HH : LENGTH_H;
+            break;
+        case 'l':
+            *length = pos[1] == 'l' ? LENGTH_LL : LENGTH_L;
+            break;
+        case 'j':
+            *length = LENGTH_J;
+            break;
+        case 'z':
+            *length = LENGTH_Z;
+            break;
+        case 't':
+            *length = LENGTH_T;
+            break;
+        case 'L':
+            *length = LENGTH_LONG_DOUBLE;
+            break;
+        default:
+            *length = LENGTH_NONE;
+            return pos;
+    }
+
+    return pos + (*length == LENGTH_HH || *length == LENGTH_LL ? 2 : 1);
+}
+
+static size_t
+integer_size(enum length_modifier length)
+{
+    switch (length) {
+        case LENGTH_HH:
+            return sizeof(char);
+        case LENGTH_H:
+            return sizeof(short);
+        case LENGTH_L:
+            return sizeof(long);
+        case LENGTH_LL:
+        case LENGTH_LONG_DOUBLE: /* same as 'll' in GNU libc */
+            return sizeof(long long);
+        case LENGTH_J:
+            return sizeof(intmax_t);
+        case LENGTH_Z:
+            return sizeof(size_t);
+        case LENGTH_T:
+            return sizeof(ptrdiff_t);
+        default:
+            return sizeof(int);
+    }
+}
+
+static void
+privatize_printf_string(const char* s, int precision)
+{
+    if (!s) {
+        return;
+    }
+    if (precision < 0) {
+        privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+        return;
+    }
+    for (int i = 0; i < precision; ++i) {
+        privatize_tx(s + i, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!s[i]) {
+            return;
+        }
+    }
+}
+
+static void
+privatize_printf_wstring(const wchar_t* s, int precision)
+{
+    if (!s) {
+        return;
+    }
+    for (int i = 0; (precision < 0) || (i < precision); ++i) {
+        privatize_tx(s + i, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!s[i]) {
+            return;
+        }
+    }
+}
+
 static void
 privatize_printf_args(const char* format, va_list arg)
 {
-    while (format) {
+    while (true) {
 
         const char* pos = strchr(format, '%');
         if (!pos) {
             return;
         }
+        ++pos;
+
+        /* flags */
+        pos += strspn(pos, "-+ #0'");
+
+        /* field width */
+        int width;
+        if (*pos == '*') {
+            va_arg(arg, int);
+            ++pos;
+        } else {
+            pos = parse_number(pos, &width);
+        }
 
-        switch (pos[1]) {
+        /* precision */
+        int precision = -1;
+        if (*pos == '.') {
+            ++pos;
+            if (*pos == '*') {
+                precision = va_arg(arg, int);
+                ++pos;
+            } else {
+                pos = parse_number(pos, &precision);
+            }
+        }
 
-            case '%':
-                break;
+        enum length_modifier length;
+        pos = parse_length_modifier(pos, &length);
 
-            /*
-             * Conversion specifiers
-             */
+        switch (*pos) {
 
-            case 'd': case 'i': case 'o': case 'u':
-            case 'x': case 'a': case 'e': case 'f':
-            case 'g':
-                break;
-            case 's':
-                privatize_c_tx(va_arg(arg, void**), '\0',
-                               PICOTM_TM_PRIVATIZE_LOAD);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
+            case '%':
                 break;
 
-            /*
-             * Length modifiers
-             */
-
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n': case 'a':
-                    case 'A': case 'e': case 'E': case 'f':
-                    case 'F': case 'g': case 'G': case 'c':
-                    case '[': case 'm':
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X':
+                switch (length) {
+                    case LENGTH_L:
+                        va_arg(arg, long);
+                        break;
+                    case LENGTH_LL:
+                    case LENGTH_LONG_DOUBLE:
+                        va_arg(arg, long long);
+                        break;
+                    case LENGTH_J:
+                        va_arg(arg, intmax_t);
+                        break;
+                    case LENGTH_Z:
+                        va_arg(arg, size_t);
+                        break;
+                    case LENGTH_T:
+                        va_arg(arg, ptrdiff_t);
                         break;
                     default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+                        va_arg(arg, int);
+                        break;
                 }
-                ++pos;
                 break;
 
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_LONG_DOUBLE) {
+                    va_arg(arg, long double);
+                } else {
+                    va_arg(arg, double);
                 }
-                ++pos;
                 break;
 
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'c':
+                if (length == LENGTH_L) {
+                    va_arg(arg, wint_t);
+                } else {
+                    va_arg(arg, int);
                 }
-                ++pos;
                 break;
 
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 's':
+                if (length == LENGTH_L) {
+                    privatize_printf_wstring(va_arg(arg, const wchar_t*),
+                                             precision);
+                } else {
+                    privatize_printf_string(va_arg(arg, const char*),
+                                            precision);
                 }
-                ++pos;
                 break;
 
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case 'p':
+                va_arg(arg, void*);
+                break;
+
+            case 'n':
+                privatize_tx(va_arg(arg, void*), integer_size(length),
+                             PICOTM_TM_PRIVATIZE_STORE);
                 break;
 
             default:
+                /* unknown conversion, or numbered argument */
                 picotm_recover_from_errno(EINVAL);
-                continue;
+                break;
         }
 
-        format = pos + 2;
+        format = pos + 1;
     }
 }
 
-- 
2.43.0


From 790cf7e55868d92ce70f31bb465e8ead589e6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 36/92] fix: libc: parse all formats and arguments in
 vsscanf_tx()

The function privatized too much or too little memory for integers with
length modifiers and for wide characters and strings. It also refused
assignment suppression, field widths and several conversions and length
modifiers. Strings require a field width, as their length cannot be known
in advance.
---
 modules/libc/src/stdio.c | 180 +++++++++++++--------------------------
 1 file changed, 61 insertions(+), 119 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index f521225..aa78ab1 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -24,6 +24,7 @@
 #include "picotm/stdio-tm.h"
 #include <errno.h>
 #include <limits.h>
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <string.h>
@@ -318,152 +319,92 @@ vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 static void
 privatize_scanf_args(const char* format, va_list arg)
 {
-    while (format) {
+    while (true) {
 
         const char* pos = strchr(format, '%');
         if (!pos) {
             return;
         }
+        ++pos;
 
-        switch (pos[1]) {
+        /* assignment suppression */
+        bool suppress = (*pos == '*');
+        if (suppress) {
+            ++pos;
+        }
 
-            case '%':
-                break;
+        /* maximum field width */
+        int width;
+        pos = parse_number(pos, &width);
 
-            /*
-             * Conversion specifiers
-             */
+        enum length_modifier length;
+        pos = parse_length_modifier(pos, &length);
 
-            case 'd':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'i':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'o':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'u':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'x':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'a': case 'e': case 'f':
-                /* fall through */
-            case 'g':
-                privatize_tx(va_arg(arg, float*), sizeof(float),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'p':
-                privatize_tx(va_arg(arg, void**), sizeof(void*),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
+        size_t size = 0;
+        size_t csize = length == LENGTH_L ? sizeof(wchar_t) : sizeof(char);
 
-            /*
-             * Length modifiers
-             */
+        switch (*pos) {
 
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, long*), sizeof(long),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, double*), sizeof(double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'c': case 's': case '[':
-                        privatize_tx(va_arg(arg, wchar_t*), sizeof(wchar_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'm':
-                        privatize_tx(va_arg(arg, wchar_t**), sizeof(wchar_t*),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case '%':
+                suppress = true;
                 break;
 
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, intmax_t*), sizeof(intmax_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X': case 'n':
+                size = integer_size(length);
                 break;
 
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, size_t*), sizeof(size_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_LONG_DOUBLE) {
+                    size = sizeof(long double);
+                } else if (length == LENGTH_L) {
+                    size = sizeof(double);
+                } else {
+                    size = sizeof(float);
                 }
-                ++pos;
                 break;
 
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, ptrdiff_t*),
-                                     sizeof(ptrdiff_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case 'p':
+                size = sizeof(void*);
                 break;
 
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, long double*),
-                                     sizeof(long double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
+            case 'c':
+                size = (width ? width : 1) * csize;
+                break;
+
+            case '[':
+                /* The set's first character can be ']'. */
                 ++pos;
+                if (*pos == '^') {
+                    ++pos;
+                }
+                pos = *pos ? strchr(pos + 1, ']') : NULL;
+                if (!pos) {
+                    picotm_recover_from_errno(EINVAL);
+                    return;
+                }
+                /* fall through */
+            case 's':
+                if (!suppress && !width) {
+                    /* The length of the output buffer is unknown. */
+                    picotm_recover_from_errno(EINVAL);
+                    return;
+                }
+                size = (width + (size_t)1) * csize;
                 break;
 
             default:
+                /* unknown conversion, or numbered argument */
                 picotm_recover_from_errno(EINVAL);
-                continue;
+                return;
+        }
+
+        if (!suppress) {
+            privatize_tx(va_arg(arg, void*), size, PICOTM_TM_PRIVATIZE_STORE);
         }
 
-        format = pos + 2;
+        format = pos + 1;
     }
 }
 
@@ -478,6 +419,7 @@ vsscanf_tx(const char* s, const char* format, va_list arg)
     va_list arg_copy;
     va_copy(arg_copy, arg);
     privatize_scanf_args(format, arg_copy);
+    va_end(arg_copy);
 
     return vsscanf_tm(s, format, arg);
 }
-- 
2.43.0


From 13af4df784e16c8dd053b60753f6a14e9adf3109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 37/92] fix: libc: return EOF from vsscanf_tm() at the end of
 the input

An input that ends before the first conversion is not an error and does
not set errno. The function recovered from whatever error had been stored
there before.
---
 modules/libc/src/stdio-tm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdio-tm.c b/modules/libc/src/stdio-tm.c
index f70919a..19b78b5 100644
--- a/modules/libc/src/stdio-tm.c
+++ b/modules/libc/src/stdio-tm.c
@@ -93,11 +93,17 @@ vsscanf_tm(const char* s, const char* format, va_list arg)
     } while (true);
 
     do {
+        /* The end of the input results in EOF as well, but leaves errno. */
+        int saved_errno = errno;
+        errno = 0;
         int res = vsscanf(s, format, arg);
-        if (res < 0) {
+        if (res < 0 && errno) {
             picotm_recover_from_errno(errno);
             continue;
         }
+        if (!errno) {
+            errno = saved_errno;
+        }
         return res;
     } while (true);
 }
-- 
2.43.0


From f268bf93265cc7c7b385f4b728fb651a5a56982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 38/92] fix: libc: reject file descriptors outside of the
 table's range

Negative and too large file descriptors indexed memory outside of the
descriptor tables.
---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 9a3cbfc..c72d5b6 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1059,6 +1059,12 @@ static struct fd_tx*
 find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
                     bool new_file, struct picotm_error* error)
 {
+    /* There's no state for file descriptors outside of the table's range. */
+    if (fildes < 0 || (size_t)fildes >= picotm_arraylen(self->fd_tx)) {
+        picotm_error_set_errno(error, EBADF);
+        return NULL;
+    }
+
     struct fd_tx* fd_tx = get_fd_tx(self, fildes);
 
     /* In |struct fildes_tx| we hold at most one reference to the
-- 
2.43.0


From 4b87b62ce28cce3fa27d28fbe6c894ef2bac5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 39/92] fix: libc: reject writes to read-only file descriptors

Speculative writes to read-only file descriptors reported success, and
the transaction failed during its commit.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  |  5 +++++
 modules/libc/src/fildes/fifo_tx_ops.c    |  5 +++++
 modules/libc/src/fildes/file_tx_ops.c    | 16 ++++++++++++++++
 modules/libc/src/fildes/file_tx_ops.h    |  8 ++++++++
 modules/libc/src/fildes/regfile_tx_ops.c | 10 ++++++++++
 5 files changed, 44 insertions(+)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 2d57a8a..b75b8b0 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -279,6 +279,11 @@ write_exec(struct file_tx* base,
     struct chrdev_tx* self = chrdev_tx_of_file_tx(base);
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
+    file_tx_op_check_writable(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     if (isnoundo) {
         seekbuf_tx->wrmode = PICOTM_LIBC_WRITE_THROUGH;
     } else if (seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) {
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4ae4b53..e6b7ee6 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -280,6 +280,11 @@ write_exec(struct file_tx* base,
     struct fifo_tx* self = fifo_tx_of_file_tx(base);
     struct pipebuf_tx* pipebuf_tx = self->pipebuf_tx;
 
+    file_tx_op_check_writable(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     if (isnoundo) {
         pipebuf_tx->wrmode = PICOTM_LIBC_WRITE_THROUGH;
     } else if (pipebuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) {
diff --git a/modules/libc/src/fildes/file_tx_ops.c b/modules/libc/src/fildes/file_tx_ops.c
index 5322234..fa058cb 100644
--- a/modules/libc/src/fildes/file_tx_ops.c
+++ b/modules/libc/src/fildes/file_tx_ops.c
@@ -22,6 +22,8 @@
 #include "file_tx_ops.h"
 #include "picotm/picotm-error.h"
 #include <errno.h>
+#include <fcntl.h>
+#include "compat/temp_failure_retry.h"
 
 int
 file_tx_op_accept_exec_enotsock(struct file_tx* base,
@@ -200,3 +202,17 @@ void
 file_tx_op_undo(struct file_tx* base, int sockfd, int cookie,
                 struct picotm_error* error)
 { }
+
+void
+file_tx_op_check_writable(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return;
+    }
+    if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+        return;
+    }
+}
diff --git a/modules/libc/src/fildes/file_tx_ops.h b/modules/libc/src/fildes/file_tx_ops.h
index a691966..ecb504f 100644
--- a/modules/libc/src/fildes/file_tx_ops.h
+++ b/modules/libc/src/fildes/file_tx_ops.h
@@ -333,3 +333,11 @@ file_tx_op_apply(struct file_tx* base, int fildes, int cookie,
 void
 file_tx_op_undo(struct file_tx* base, int fildes, int cookie,
                 struct picotm_error* error);
+
+/**
+ * Reports EBADF if the file descriptor has not been opened for writing.
+ * Speculative writes are executed during the commit, when it's too late
+ * for reporting the error.
+ */
+void
+file_tx_op_check_writable(int fildes, struct picotm_error* error);
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0a3edda..2d01c5e 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -631,6 +631,11 @@ pwrite_exec(struct file_tx* base,
     struct regfile_tx* self = regfile_tx_of_file_tx(base);
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
+    file_tx_op_check_writable(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     if ((seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
@@ -805,6 +810,11 @@ write_exec(struct file_tx* base,
     struct regfile_tx* self = regfile_tx_of_file_tx(base);
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
+    file_tx_op_check_writable(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     if ((seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
-- 
2.43.0


From 0efc842758a617884c9a5489cf6e784e85fd3611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 40/92] fix: libc: report errors of dup2() from dup2_tx()

---
 modules/libc/src/unistd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 085004a..71c8aa8 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -116,6 +116,9 @@ dup2_tx(int fildes, int fildes2)
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = dup2(fildes, fildes2);
+        if (res < 0) {
+            picotm_error_set_errno(&error, errno);
+        }
         if (!picotm_error_is_set(&error)) {
             return res;
         }
-- 
2.43.0


From 9bf2d5dcea33fb725fe7576ce6d576b44f0077df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 41/92] fix: libc: support newlocale_tx() without base locale

The base locale is an optional argument of newlocale(). Only lock it if
the caller supplied one.
---
 modules/libc/src/locale/locale_tx.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..dd6715c 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -514,18 +514,20 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
 {
     assert(self);
 
-    /* write-lock base object */
+    /* write-lock base object, if any */
 
-    struct locale_state_tx* lstate_tx = acquire_locale_state_tx(base, self,
-                                                                error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
-    }
-    picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
-                              &lstate_tx->lstate->rwlock,
-                              error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+    if (base != (locale_t)0) {
+        struct locale_state_tx* lstate_tx = acquire_locale_state_tx(base, self,
+                                                                    error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+        picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
+                                  &lstate_tx->lstate->rwlock,
+                                  error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
     }
 
     /* create a new locale */
-- 
2.43.0


From a4ec89df06f540fa914a49875ec44c685e2f652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 42/92] fix: libc: restore the base locale during roll-back of
 newlocale_tx()

A call to newlocale() modifies and consumes its base locale, which cannot
be reverted. Create the new locale from a duplicate of the base locale
and release the base during the apply phase.
---
 modules/libc/src/locale/locale_event.h |  1 +
 modules/libc/src/locale/locale_tx.c    | 28 +++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/locale/locale_event.h b/modules/libc/src/locale/locale_event.h
index a9e7718..74ba012 100644
--- a/modules/libc/src/locale/locale_event.h
+++ b/modules/libc/src/locale/locale_event.h
@@ -69,6 +69,7 @@ struct locale_event {
 #if defined(PICOTM_LIBC_HAVE_NEWLOCALE) && PICOTM_LIBC_HAVE_NEWLOCALE
         struct {
             locale_t result;
+            locale_t base;
         } newlocale;
 #endif
         struct {
diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index dd6715c..361e9c2 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -530,16 +530,32 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
         }
     }
 
-    /* create a new locale */
+    /* Create a new locale. A call to newlocale() modifies and consumes its
+     * base locale, which we cannot undo. We create the new locale from a
+     * duplicate and release the original base during the apply phase. */
+
+    locale_t newbase = (locale_t)0;
+
+    if (base != (locale_t)0) {
+        newbase = duplocale(base);
+        if (newbase == (locale_t)0) {
+            picotm_error_set_errno(error, errno);
+            return (locale_t)0;
+        }
+    }
 
-    locale_t locobj = newlocale(category_mask, locale, base);
+    locale_t locobj = newlocale(category_mask, locale, newbase);
     if (locobj == (locale_t)0) {
         picotm_error_set_errno(error, errno);
+        if (newbase != (locale_t)0) {
+            freelocale(newbase);
+        }
         return (locale_t)0;
     }
 
     struct locale_event arg;
     arg.arg.newlocale.result = locobj;
+    arg.arg.newlocale.base = base;
 
     locale_log_append(self->log, LOCALE_OP_NEWLOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
@@ -556,7 +572,13 @@ err_locale_log_append:
 static void
 apply_newlocale(struct locale_tx* self, const struct locale_event* arg,
                 struct picotm_error* error)
-{ }
+{
+    assert(arg);
+
+    if (arg->arg.newlocale.base != (locale_t)0) {
+        freelocale(arg->arg.newlocale.base);
+    }
+}
 
 static void
 undo_newlocale(struct locale_tx* self, const struct locale_event* arg,
-- 
2.43.0


From af205f1a11c41055d7ef73909e0a564943e0daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 43/92] fix: libc: release the lock of a locale object at the
 end of a transaction

The transaction-local state of a locale object got released without
unlocking the object. Concurrent transactions that use the object were
never able to acquire it again.
---
 modules/libc/src/locale/locale_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 361e9c2..7dbde5e 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -296,6 +296,8 @@ release_locale_state_tx(struct locale_state_tx* lstate_tx,
     assert(lstate_tx);
     assert(global);
 
+    picotm_rwstate_unlock(&lstate_tx->rwstate, &lstate_tx->lstate->rwlock);
+
     ptr_clear_data(lstate_tx->locobj, error);
     if (picotm_error_is_set(error)) {
         return;
-- 
2.43.0


From 32523912524b86f9bee6f727e814d7974aaf6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 44/92] fix: libc: restore the locale if uselocale_tx() cannot
 be logged

---
 modules/libc/src/locale/locale_tx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 7dbde5e..75185c2 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -788,10 +788,19 @@ uselocale_wr_exec(struct locale_tx* self, locale_t newloc,
 
     locale_log_append(self->log, LOCALE_OP_USELOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        goto err_locale_log_append;
     }
 
     return oldloc;
+
+err_locale_log_append:
+    if (uselocale(oldloc) == (locale_t)0) {
+        /* We keep the original error code. We mark the error
+         * as non-recoverable, because the function's clean-up
+         * block failed. */
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return (locale_t)0;
 }
 
 locale_t
-- 
2.43.0


From 86d95c42c8d1907a6e0b5fcea8404a847b554198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 45/92] fix: libc: save errno in all functions that might
 modify it

The functions setlocale_tm(), freelocale_tx(), localeconv_tx(), free_tm()
and posix_memalign_tm() possibly modify errno, but did not save its value
for restoring during roll-backs.
---
 modules/libc/src/locale-tm.c |  9 +++++++++
 modules/libc/src/locale.c    | 18 ++++++++++++++++++
 modules/libc/src/stdlib-tm.c | 18 ++++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/modules/libc/src/locale-tm.c b/modules/libc/src/locale-tm.c
index 18d9dd8..f29d30b 100644
--- a/modules/libc/src/locale-tm.c
+++ b/modules/libc/src/locale-tm.c
@@ -54,6 +54,15 @@ PICOTM_EXPORT
 char*
 setlocale_tm(int category, const char* locale)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         char* res = locale_module_setlocale(category, locale, &error);
diff --git a/modules/libc/src/locale.c b/modules/libc/src/locale.c
index d5c4514..b857749 100644
--- a/modules/libc/src/locale.c
+++ b/modules/libc/src/locale.c
@@ -57,6 +57,15 @@ PICOTM_EXPORT
 void
 freelocale_tx(locale_t locobj)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         locale_module_freelocale(locobj, &error);
@@ -73,6 +82,15 @@ PICOTM_EXPORT
 struct lconv*
 localeconv_tx()
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         struct lconv* res = locale_module_localeconv(&error);
diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 0dfeffc..4668ddb 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -41,6 +41,15 @@ PICOTM_EXPORT
 void
 free_tm(void* ptr)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(ptr, malloc_usable_size(ptr), &error);
@@ -111,6 +120,15 @@ PICOTM_EXPORT
 int
 posix_memalign_tm(void** memptr, size_t alignment, size_t size)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = allocator_module_posix_memalign(memptr, alignment, size,
-- 
2.43.0


From 037de0fce298e84127ad7efcff6f0893b9e33b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 46/92] fix: libc: move the file offset by the number of bytes
 read

The commit of a read_tx() at the end of a file moved the offset by the
number of requested bytes.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 2d01c5e..2355749 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -751,7 +751,7 @@ read_exec(struct file_tx* base,
     }
 
     /* add buf to write set */
-    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, nbyte, offset, buf,
+    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, res, offset, buf,
                                            error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 75cbc3574c37cde1610dcfe770f8988bea6d05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 47/92] fix: libc: return the file size from fstat_tx()

The function seekbuf_tx_get_file_size() acquires the lock on the file size
and reads the size. With the lock already acquired it returned 0.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 2355749..5ef0162 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -234,11 +234,6 @@ fstat_exec(struct file_tx* base,
         picotm_error_set_errno(error, errno);
         return -1;
     }
-    seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
-    if (picotm_error_is_set(error)) {
-        return -1;
-    }
-
     /* get transaction-local file size */
     off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
     if (picotm_error_is_set(error)) {
-- 
2.43.0


From d4a6e05555840c5d03912dfc47120d635f49bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 48/92] fix: libc: don't extend files with zero-length writes

---
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 5ef0162..c845bd0 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -666,7 +666,7 @@ pwrite_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    if (file_size < (off_t)(offset + len)) {
+    if (len && (file_size < (off_t)(offset + len))) {
         seekbuf_tx_set_file_size(seekbuf_tx, offset + len, error);
         if (picotm_error_is_set(error)) {
             return -1;
@@ -857,7 +857,7 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    if (file_size < (off_t)(offset + len)) {
+    if (len && (file_size < (off_t)(offset + len))) {
         seekbuf_tx_set_file_size(seekbuf_tx, offset + len, error);
         if (picotm_error_is_set(error)) {
             return -1;
-- 
2.43.0


From dbef50e299535ebfb69e45607a8cb74a0a079fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 49/92] fix: libc: respect the file size when reading at the
 end of a file

A transaction that wrote behind the end of a file read arbitrary data from
the hole in between. A transaction that read at the end of a file depends
on the file's size, so lock the size.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 56 +++++++++++++++++-------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index c845bd0..93c5777 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -518,6 +518,42 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/* Completes data that has been read from a file with the state of
+ * the transaction. Returns the overall number of bytes. */
+static ssize_t
+complete_read(struct seekbuf_tx* seekbuf_tx, int fildes, void* buf,
+              size_t len, size_t nbyte, off_t offset,
+              struct picotm_error* error)
+{
+    if (len < nbyte) {
+
+        /* We're at the end of the file. The transaction depends on the
+         * file's size, which it might have increased by itself. The bytes
+         * between the end of the file and the transaction's writes are a
+         * hole. */
+
+        off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+
+        size_t avail = 0;
+        if (file_size > offset) {
+            avail = llmin(nbyte, file_size - offset);
+        }
+        if (len < avail) {
+            memset(((uint8_t*)buf) + len, 0, avail - len);
+            len = avail;
+        }
+    }
+
+    /* read from local write set */
+    size_t len2 = iooptab_read(seekbuf_tx->wrtab, seekbuf_tx->wrtablen,
+                               buf, nbyte, offset, seekbuf_tx->wrbuf);
+
+    return llmax(len, len2);
+}
+
 static ssize_t
 pread_exec(struct file_tx* base,
            int fildes, void* buf, size_t nbyte, off_t offset,
@@ -537,14 +573,8 @@ pread_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return res;
     }
-    size_t len = res;
-
-    /* read from local write set */
-    size_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                               seekbuf_tx->wrtablen,
-                               buf, nbyte, offset, seekbuf_tx->wrbuf);
 
-    return llmax(len, len2);
+    return complete_read(seekbuf_tx, fildes, buf, res, nbyte, offset, error);
 }
 
 /*
@@ -728,15 +758,11 @@ read_exec(struct file_tx* base,
         picotm_error_set_errno(error, errno);
         return res;
     }
-    size_t len = res;
-
-    /* read from local write set */
-
-    ssize_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                                seekbuf_tx->wrtablen, buf, nbyte, offset,
-                                seekbuf_tx->wrbuf);
 
-    res = llmax(len, len2);
+    res = complete_read(seekbuf_tx, fildes, buf, res, nbyte, offset, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* update file offset */
 
-- 
2.43.0


From bf3a9b46832e4d24c4fbd0fb6b983b0ba0c64353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 50/92] fix: libc: write to the end of the file with O_APPEND

---
 modules/libc/src/fildes/regfile_tx_ops.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 93c5777..2cbaac8 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -821,6 +822,21 @@ do_pwrite_and_lseek(int fildes, const void* buf, size_t nbyte, off_t offset,
     return len;
 }
 
+static off_t
+write_offset(struct regfile_tx* self, int fildes, size_t nbyte,
+             struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return (off_t)-1;
+    }
+    if (nbyte && (flags & O_APPEND)) {
+        return seekbuf_tx_get_file_size(self->seekbuf_tx, fildes, error);
+    }
+    return regfile_tx_get_file_offset(self, fildes, error);
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -841,7 +857,7 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    off_t offset = regfile_tx_get_file_offset(self, fildes, error);
+    off_t offset = write_offset(self, fildes, nbyte, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-- 
2.43.0


From 6b612e5de72c5a24c60c8aee671925dbc98a2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 51/92] fix: libc: report errors from reading zero bytes

Reading zero bytes from a file returns 0, except for file descriptors that
don't support the operation.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 2cbaac8..c9d62ec 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -496,7 +496,7 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     const uint8_t* end = beg + nbyte;
     off_t off = offset;
 
-    while (pos < end) {
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(pread(fildes, pos, end - pos, off));
         if (res < 0) {
@@ -514,7 +514,8 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
 
         off += res;
         pos += res;
-    }
+
+    } while (pos < end);
 
     return pos - beg;
 }
-- 
2.43.0


From 41ffbe4d305448dd006a84ec08cf9aee2d7cd001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 52/92] fix: libc: report conflicts of the file-mode lock as
 conflicts

---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 1 -
 modules/libc/src/fildes/dir_tx_ops.c     | 2 --
 modules/libc/src/fildes/fifo_tx_ops.c    | 1 -
 modules/libc/src/fildes/regfile_tx_ops.c | 2 --
 modules/libc/src/fildes/socket_tx_ops.c  | 1 -
 5 files changed, 7 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index b75b8b0..e08cc89 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -164,7 +164,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     chrdev_tx_try_rdlock_field(self, CHRDEV_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c6816bf..52e7caf 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -82,7 +82,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     dir_tx_try_wrlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -223,7 +222,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     dir_tx_try_rdlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index e6b7ee6..8aa0546 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -163,7 +163,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     fifo_tx_try_rdlock_field(self, FIFO_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index c9d62ec..32f65c1 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -87,7 +87,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     regfile_tx_try_wrlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -232,7 +231,6 @@ fstat_exec(struct file_tx* base,
 
     regfile_tx_try_rdlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
     /* get transaction-local file size */
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 60b73ac..92e460a 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -226,7 +226,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     socket_tx_try_rdlock_field(self, SOCKET_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
-- 
2.43.0


From 00307e53dfdaa61a1bfb6482f125465838e4b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 53/92] fix: libc: restore the file mode if fchmod() cannot be
 logged

---
 modules/libc/src/fildes/dir_tx_ops.c     | 4 +++-
 modules/libc/src/fildes/regfile_tx_ops.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index 52e7caf..c14ccc1 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -105,7 +105,9 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        /* There'll be no undo; restore the mode here. */
+        fchmod(fildes, old_mode);
+        return -1;
     }
 
     return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 32f65c1..0da524d 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -110,7 +110,9 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        /* There'll be no undo; restore the mode here. */
+        fchmod(fildes, old_mode);
+        return -1;
     }
 
     return res;
-- 
2.43.0


From 0982012aa1511c99ce9dbf2a00fc2360a581922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 54/92] fix: libc: lock all records that a region of a file
 touches

---
 modules/libc/src/fildes/seekbuf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf.c b/modules/libc/src/fildes/seekbuf.c
index 0980d2b..42a9164 100644
--- a/modules/libc/src/fildes/seekbuf.c
+++ b/modules/libc/src/fildes/seekbuf.c
@@ -31,9 +31,9 @@ recoffset(off_t off)
 }
 
 static size_t
-reccount(size_t len)
+reccount(off_t off, size_t len)
 {
-    return 1 + len/RECSIZE;
+    return 1 + ((off % RECSIZE) + len) / RECSIZE;
 }
 
 static size_t
@@ -120,7 +120,7 @@ seekbuf_try_rdlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_rdlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_rdlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -130,7 +130,7 @@ seekbuf_try_wrlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_wrlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_wrlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -138,6 +138,6 @@ void
 seekbuf_unlock_region(struct seekbuf self[static 1], off_t off, size_t nbyte,
                       struct rwcountermap rwcountermap[static 1])
 {
-    rwcountermap_unlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_unlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap);
 }
-- 
2.43.0


From 2db515b79c370896962f7ef364758df6506a755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 55/92] fix: libc: release record locks if a region cannot be
 locked entirely

---
 modules/libc/src/fildes/rwcountermap.c | 40 +++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index fbd5413..ac29ecb 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -186,7 +186,8 @@ key_bits(unsigned long long offset, unsigned long page_nbits)
     return offset >> page_nbits;
 }
 
-void
+/* Returns the number of processed records; even in the case of an error. */
+static unsigned long long
 rwcountermap_for_each_record_in_range(
     struct rwcountermap* self,
     unsigned long long record_length, unsigned long long record_offset,
@@ -197,13 +198,15 @@ rwcountermap_for_each_record_in_range(
 {
     assert(self);
 
+    unsigned long long nrecords = 0;
+
     while (record_length) {
 
         uintptr_t value = picotm_treemap_find_value(
             &self->map, key_bits(record_offset, RWLOCKMAP_PAGE_NBITS),
             rwcountermap_create_page_fn, error);
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
         struct rwcountermap_page* statepg = (struct rwcountermap_page*)value;
 
@@ -214,13 +217,36 @@ rwcountermap_for_each_record_in_range(
                                                        rwlockmap,
                                                        call_record,
                                                        error);
+        nrecords += diff;
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
 
         record_length -= diff;
         record_offset += diff;
     }
+
+    return nrecords;
+}
+
+/* Locks all records of a range or, in the case of an error, none. */
+static void
+lock_records(struct rwcountermap* self,
+             unsigned long long record_length,
+             unsigned long long record_offset,
+             struct rwlockmap* rwlockmap,
+             void (*lock_record)(struct rwcounter*,
+                                 struct picotm_rwlock*,
+                                 struct picotm_error*),
+             struct picotm_error* error)
+{
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self,
+                                              record_length, record_offset,
+                                              rwlockmap, lock_record, error);
+    if (picotm_error_is_set(error)) {
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+    }
 }
 
 static void
@@ -236,8 +262,8 @@ rwcountermap_rdlock(struct rwcountermap* self,
                   unsigned long long record_offset,
                   struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, rdlock_record, error);
+    lock_records(self, record_length, record_offset, rwlockmap,
+                 rdlock_record, error);
 }
 
 static void
@@ -253,8 +279,8 @@ rwcountermap_wrlock(struct rwcountermap* self,
                     unsigned long long record_offset,
                     struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, wrlock_record, error);
+    lock_records(self, record_length, record_offset, rwlockmap,
+                 wrlock_record, error);
 }
 
 static void
-- 
2.43.0


From 283e72a15aa0459174c4f4648abc9aabea8393b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 56/92] fix: libc: release record locks if a region cannot be
 logged

---
 modules/libc/src/fildes/seekbuf_tx.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf_tx.c b/modules/libc/src/fildes/seekbuf_tx.c
index 0aa6a27..ae3d3ff 100644
--- a/modules/libc/src/fildes/seekbuf_tx.c
+++ b/modules/libc/src/fildes/seekbuf_tx.c
@@ -276,10 +276,14 @@ seekbuf_tx_try_rdlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_regiontab_append;
     }
 
     return pos;
+
+err_regiontab_append:
+    seekbuf_unlock_region(self->seekbuf, offset, nbyte, &self->rwcountermap);
+    return -1;
 }
 
 int
@@ -300,10 +304,14 @@ seekbuf_tx_try_wrlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_regiontab_append;
     }
 
     return pos;
+
+err_regiontab_append:
+    seekbuf_unlock_region(self->seekbuf, offset, nbyte, &self->rwcountermap);
+    return -1;
 }
 
 static off_t
-- 
2.43.0


From d0e33828b2accf48d9ef7e12d8e52c96d3e0c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 57/92] fix: libc: don't use record locks of a different file

---
 modules/libc/src/fildes/seekbuf_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/seekbuf_tx.c b/modules/libc/src/fildes/seekbuf_tx.c
index ae3d3ff..e1fa03d 100644
--- a/modules/libc/src/fildes/seekbuf_tx.c
+++ b/modules/libc/src/fildes/seekbuf_tx.c
@@ -155,6 +155,10 @@ seekbuf_tx_unref(struct seekbuf_tx* self)
         return;
     }
 
+    /* The counters refer to record locks of the current file buffer. */
+    rwcountermap_uninit(&self->rwcountermap);
+    rwcountermap_init(&self->rwcountermap);
+
     filebuf_unref(&self->seekbuf->base);
 
     self->seekbuf = NULL;
-- 
2.43.0


From 851056ae6b800104eb5df4d0c5bac971554ad336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 58/92] fix: libc: make open() with O_TRUNC irrevocable

The test looked at the file mode instead of the flags, so the truncation
could not be undone when the transaction aborted.
---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index c72d5b6..ac89c1a 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2391,7 +2391,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 {
     /* O_TRUNC needs irrevocability */
 
-    if ((mode&O_TRUNC) && !isnoundo) {
+    if ((oflag&O_TRUNC) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
     }
-- 
2.43.0


From 970824e57aae12d3b6de7db5d21f1c56c9773c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 59/92] fix: libc: remove exclusively created files when open()
 is undone

The test looked at the file mode instead of the flags.
---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index ac89c1a..1cb6eaa 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2423,7 +2423,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
     }
 
     int cookie = openoptab_append(&self->openoptab,
-                                  &self->openoptablen, DO_UNLINK(mode),
+                                  &self->openoptablen, DO_UNLINK(oflag),
                                   error);
     if (picotm_error_is_set(error)) {
         goto err_openoptab_append;
-- 
2.43.0


From 7534b7cf0e0feab2518431052c078cd5c1268bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 60/92] fix: libc: remove files created by open() without
 O_EXCL on roll-back

---
 modules/libc/src/fildes/fildes_tx.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 1cb6eaa..1020ee6 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2409,7 +2409,26 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
         return -1;
     }
 
-    int fildes = TEMP_FAILURE_RETRY(open(abs_path, oflag, mode));
+    int fildes = -1;
+
+    if ((oflag & O_CREAT) && !(oflag & O_EXCL) && !isnoundo) {
+        /* With O_EXCL, we learn whether the file has been created by
+         * the transaction and has to be removed during a roll-back. If
+         * it cannot be created this way, the file either exists or the
+         * call fails. */
+        fildes = TEMP_FAILURE_RETRY(open(abs_path, oflag | O_EXCL, mode));
+        if (fildes >= 0) {
+            oflag |= O_EXCL;
+        } else if (errno == EEXIST && access(abs_path, F_OK) < 0) {
+            /* A symbolic link to a missing file; can't be undone. */
+            picotm_error_set_revocable(error);
+            goto err_open;
+        }
+    }
+
+    if (fildes < 0) {
+        fildes = TEMP_FAILURE_RETRY(open(abs_path, oflag, mode));
+    }
     if (fildes < 0) {
         picotm_error_set_errno(error, errno);
         goto err_open;
-- 
2.43.0


From 703ca91b59c8473db2e7f4b3357d1dc4247c9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 61/92] fix: libc: don't follow symbolic links in link(),
 lstat() and unlink()

Resolving the path made unlink() remove the file that a symbolic link
refers to, and lstat() return its status.
---
 modules/libc/src/fildes/fildes_tx.c | 60 ++++++-----------------------
 1 file changed, 12 insertions(+), 48 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 1020ee6..54fae85 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2009,7 +2009,7 @@ int
 fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2,
                     struct picotm_error* error)
 {
-    char* real_path1 = cwd_module_realpath(path1, NULL, error);
+    char* abs_path1 = absolute_path(path1, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
@@ -2019,34 +2019,21 @@ fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2
         goto err_absolute_path;
     }
 
-    int res = link(real_path1, abs_path2);
+    int res = link(abs_path1, abs_path2);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_link;
     }
 
     free(abs_path2);
-
-    allocator_module_free(real_path1, strlen(real_path1), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path1);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_link:
     free(abs_path2);
 err_absolute_path:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path1, strlen(real_path1), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path1);
     return -1;
 }
 
@@ -2186,35 +2173,23 @@ int
 fildes_tx_exec_lstat(struct fildes_tx* self, const char* path, struct stat* buf,
                      struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = lstat(real_path, buf);
+    int res = lstat(abs_path, buf);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_lstat;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_lstat:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path);
     return -1;
 }
 
@@ -3208,34 +3183,23 @@ int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
                       struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = unlink(real_path);
+    int res = unlink(abs_path);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_unlink;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        picotm_error_mark_as_non_recoverable(error);
-        goto err;
-    }
+    free(abs_path);
 
     return res;
 
 err_unlink:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
-err:
+    free(abs_path);
     return -1;
 }
 
-- 
2.43.0


From 8a28607554e82487a977657289786612133c4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 62/92] fix: libc: run operations on directory entries
 irrevocably

chmod(), link(), mkdir(), mkfifo(), mknod() and unlink() took effect
immediately and were neither undone by a roll-back, nor repeatable when
the transaction restarted.
---
 modules/libc/src/fildes/fildes_tx.c | 42 ++++++++++++++++++++++++-----
 modules/libc/src/fildes/fildes_tx.h | 12 ++++-----
 modules/libc/src/fildes/module.c    | 18 ++++++++-----
 3 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 54fae85..ac32312 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1438,8 +1438,13 @@ undo_bind(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_chmod(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error)
+                     int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* real_path = cwd_module_realpath(path, NULL, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2007,8 +2012,13 @@ undo_fsync(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2,
-                    struct picotm_error* error)
+                    int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path1 = absolute_path(path1, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2199,8 +2209,13 @@ err_lstat:
 
 int
 fildes_tx_exec_mkdir(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error)
+                     int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2227,8 +2242,13 @@ err_mkdir:
 
 int
 fildes_tx_exec_mkfifo(struct fildes_tx* self, const char* path, mode_t mode,
-                      struct picotm_error* error)
+                      int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2255,8 +2275,13 @@ err_mkfifo:
 
 int
 fildes_tx_exec_mknod(struct fildes_tx* self, const char* path, mode_t mode,
-                     dev_t dev, struct picotm_error* error)
+                     dev_t dev, int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -3181,8 +3206,13 @@ undo_sync(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
-                      struct picotm_error* error)
+                      int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index c5db04c..15f1241 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -103,7 +103,7 @@ fildes_tx_exec_bind(struct fildes_tx* self, int socket,
 
 int
 fildes_tx_exec_chmod(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error);
+                     int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_close(struct fildes_tx* self, int fildes, int isnoundo,
@@ -141,7 +141,7 @@ fildes_tx_exec_fsync(struct fildes_tx* self, int fildes, int isnoundo,
 
 int
 fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2,
-                    struct picotm_error* error);
+                    int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_listen(struct fildes_tx* self, int sockfd, int backlog,
@@ -157,15 +157,15 @@ fildes_tx_exec_lseek(struct fildes_tx* self, int fildes, off_t offset,
 
 int
 fildes_tx_exec_mkdir(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error);
+                     int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_mkfifo(struct fildes_tx* self, const char* path, mode_t mode,
-                      struct picotm_error* error);
+                      int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_mknod(struct fildes_tx* self, const char* path, mode_t mode,
-                     dev_t dev, struct picotm_error* error);
+                     dev_t dev, int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
@@ -226,7 +226,7 @@ fildes_tx_exec_sync(struct fildes_tx* self, struct picotm_error* error);
 
 int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
-                      struct picotm_error* error);
+                      int isnoundo, struct picotm_error* error);
 
 ssize_t
 fildes_tx_exec_write(struct fildes_tx* self, int fildes, const void* buf,
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index b78e396..cf34cc0 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -263,7 +263,8 @@ fildes_module_chmod(const char* path, mode_t mode, struct picotm_error* error)
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_chmod(fildes_tx, path, mode, error);
+    return fildes_tx_exec_chmod(fildes_tx, path, mode, picotm_is_irrevocable(),
+                                error);
 }
 
 int
@@ -372,7 +373,8 @@ fildes_module_link(const char* path1, const char* path2,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_link(fildes_tx, path1, path2, error);
+    return fildes_tx_exec_link(fildes_tx, path1, path2, picotm_is_irrevocable(),
+                               error);
 }
 
 int
@@ -416,7 +418,8 @@ fildes_module_mkdir(const char* path, mode_t mode, struct picotm_error* error)
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_mkdir(fildes_tx, path, mode, error);
+    return fildes_tx_exec_mkdir(fildes_tx, path, mode, picotm_is_irrevocable(),
+                                error);
 }
 
 int
@@ -427,7 +430,8 @@ fildes_module_mkfifo(const char* path, mode_t mode,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_mkfifo(fildes_tx, path, mode, error);
+    return fildes_tx_exec_mkfifo(fildes_tx, path, mode, picotm_is_irrevocable(),
+                                 error);
 }
 
 int
@@ -438,7 +442,8 @@ fildes_module_mknod(const char* path, mode_t mode, dev_t dev,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_mknod(fildes_tx, path, mode, dev, error);
+    return fildes_tx_exec_mknod(fildes_tx, path, mode, dev,
+                                picotm_is_irrevocable(), error);
 }
 
 int
@@ -597,7 +602,8 @@ fildes_module_unlink(const char* path, struct picotm_error* error)
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_unlink(fildes_tx, path, error);
+    return fildes_tx_exec_unlink(fildes_tx, path, picotm_is_irrevocable(),
+                                 error);
 }
 
 ssize_t
-- 
2.43.0


From 72dd4a6eed867803d08e73d95d58cf4121f6cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 63/92] fix: libc: run mkdtemp() irrevocably

The directory was left behind by aborted and restarted transactions.
---
 modules/libc/src/stdlib-tm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 4668ddb..c3ab1ab 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -76,6 +76,9 @@ mkdtemp_tm(char* template)
         picotm_recover_from_error(&error);
     } while (true);
 
+    /* We cannot undo the creation of the directory. */
+    picotm_irrevocable();
+
     char* str;
 
     do {
-- 
2.43.0


From fd1dd9423546b6520399a24a12fbe2e16aff4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 64/92] fix: libc: report an error for empty pathnames

open() with an empty path opened the current working directory.
---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index ac32312..bac2163 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1169,6 +1169,12 @@ absolute_path(const char* path, struct picotm_error* error)
 {
     assert(path);
 
+    if (!path[0]) {
+        /* Not the current working directory */
+        picotm_error_set_errno(error, ENOENT);
+        return NULL;
+    }
+
     if (is_absolute_path(path)) {
         char* abs_path = strdup(path);
         if (!abs_path) {
-- 
2.43.0


From 2ae189fb63a24a53842cd73540abd063c96d1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 65/92] fix: libc: close the file if mkstemp() cannot be logged

---
 modules/libc/src/fildes/fildes_tx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index bac2163..a5f81a5 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2356,6 +2356,7 @@ fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
 
 err_fildes_log_append:
     unlink(abs_path);
+    TEMP_FAILURE_RETRY(close(fildes));
 err_mkstemp:
     free(abs_path);
     return -1;
-- 
2.43.0


From a855e3b0cfefc8e69973dd2c5a865464590f160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 66/92] fix: libc: privatize the buffer of getcwd() for storing

The buffer was privatized for loading only, so its contents were not
restored during a roll-back; and there is no buffer to privatize if the
caller passes NULL.
---
 modules/libc/src/unistd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 71c8aa8..6f43b2a 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -182,7 +182,9 @@ PICOTM_EXPORT
 char*
 getcwd_tx(char* buf, size_t size)
 {
-    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    if (buf) {
+        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_STORE);
+    }
     return getcwd_tm(buf, size);
 }
 #endif
-- 
2.43.0


From 89e18640940cffba176bdd37f2bd58e05d791968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 67/92] fix: libc: recover from failed memory deallocation in
 pathname functions

If releasing the path could not be logged, the transaction ended with a
non-recoverable error; in the case of chmod() after the mode had been
changed. The roll-back of getcwd() releases the path, and stat() and
chmod() don't need the resolved path in the first place.
---
 modules/libc/src/fildes/fildes_tx.c | 50 ++++++-----------------------
 1 file changed, 9 insertions(+), 41 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index a5f81a5..192ca3c 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1216,16 +1216,8 @@ absolute_path(const char* path, struct picotm_error* error)
 
 err_allocator_module_free:
     free(abs_path);
-    picotm_error_mark_as_non_recoverable(error);
-    return NULL;
 err_malloc:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(cwd, cwdlen, &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    /* The roll-back of getcwd() frees the memory of cwd. */
     return NULL;
 }
 
@@ -1451,35 +1443,23 @@ fildes_tx_exec_chmod(struct fildes_tx* self, const char* path, mode_t mode,
         return -1;
     }
 
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = chmod(real_path, mode);
+    int res = chmod(abs_path, mode);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_chmod;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_chmod:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path);
     return -1;
 }
 
@@ -3142,35 +3122,23 @@ int
 fildes_tx_exec_stat(struct fildes_tx* self, const char* path,
                     struct stat* buf, struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = stat(real_path, buf);
+    int res = stat(abs_path, buf);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_stat;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_stat:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path);
     return -1;
 }
 
-- 
2.43.0


From 9dde280cf1be58f698c5ee8fa2c4dfa03470e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 68/92] fix: libc: remove created file if open() fails

---
 modules/libc/src/fildes/fildes_tx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 192ca3c..ad9f725 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2450,6 +2450,9 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 err_fildes_log_append:
 err_openoptab_append:
 err_add_new_fd_tx_with_ref:
+    if (DO_UNLINK(oflag)) {
+        unlink(abs_path);
+    }
     TEMP_FAILURE_RETRY(close(fildes));
 err_open:
     free(abs_path);
-- 
2.43.0


From a6a054a8a9ef1c1700b2457af4c1a26e5e6c2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 69/92] fix: libc: close the file descriptors if pipe() cannot
 be logged

---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index ad9f725..6e14887 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2538,6 +2538,12 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
                                   &self->pipeoptablen, pipefd,
                                   error);
     if (picotm_error_is_set(error)) {
+        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+            perror("close");
+        }
+        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+            perror("close");
+        }
         return -1;
     }
 
-- 
2.43.0


From 8a6aa488315987812bb8b0d209bf133ac46c7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 70/92] fix: libc: return EBADF for file descriptors closed by
 the transaction

close() only takes effect during the commit, so the transaction could
still use a file descriptor after closing it, or close it twice.
---
 modules/libc/src/fildes/fd_tx.c     | 11 ++++++++++-
 modules/libc/src/fildes/fd_tx.h     |  3 +++
 modules/libc/src/fildes/fildes_tx.c |  3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index e063034..0f90f68 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -99,6 +99,7 @@ fd_tx_init(struct fd_tx* self)
     self->fd = NULL;
     self->file_tx = NULL;
     self->cc_mode = PICOTM_LIBC_CC_MODE_2PL;
+    self->is_closed = false;
 
     init_rwstates(picotm_arraybeg(self->rwstate),
                   picotm_arrayend(self->rwstate));
@@ -142,6 +143,7 @@ fd_tx_ref_or_set_up(struct fd_tx* self, struct fd* fd, struct file_tx* file_tx,
 
     self->fd = fd;
     self->file_tx = file_tx;
+    self->is_closed = false;
 
     return;
 
@@ -347,7 +349,14 @@ fd_tx_close_exec(struct fd_tx* self,
 
     assert(close_exec[self->cc_mode]);
 
-    return close_exec[self->cc_mode](self, fildes, cookie, error);
+    int res = close_exec[self->cc_mode](self, fildes, cookie, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    self->is_closed = true;
+
+    return res;
 }
 
 static void
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 0d45853..fa6accf 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -64,6 +64,9 @@ struct fd_tx {
     struct file_tx* file_tx;
     enum picotm_libc_cc_mode cc_mode;
 
+    /** True, if the transaction closed the file descriptor */
+    bool is_closed;
+
     /** Reader/writer state for file descriptor */
     struct picotm_rwstate   rwstate[NUMBER_OF_FD_FIELDS];
 
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 6e14887..11234f2 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1077,6 +1077,9 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         fd_tx_validate(fd_tx, error);
         if (picotm_error_is_set(error)) {
             return NULL;
+        } else if (fd_tx->is_closed) {
+            picotm_error_set_errno(error, EBADF);
+            return NULL;
         }
 
         return fd_tx;
-- 
2.43.0


From 9bd4d01258b8befc0b6db72de780f97c83226f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 71/92] fix: libc: allow for duplicating duplicated file
 descriptors

The state of the file has been looked up by the number of the duplicated
file descriptor, which failed with EBADF if that one had been created by
dup() within the same transaction. References to the file's state are
held by the list of active files; don't release them on errors.
---
 modules/libc/src/fildes/fildes_tx.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 11234f2..776192e 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1090,10 +1090,16 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         return NULL;
     }
 
-    struct file_tx* file_tx = get_file_tx_with_ref(self, old_fildes,
-                                                   new_file, error);
-    if (picotm_error_is_set(error)) {
-        goto err_get_file_tx_with_ref;
+    struct file_tx* file_tx;
+
+    if (fildes != old_fildes) {
+        /* Duplicated file descriptors share the state of their file. */
+        file_tx = get_existing_fd_tx(self, old_fildes)->file_tx;
+    } else {
+        file_tx = get_file_tx_with_ref(self, fildes, new_file, error);
+        if (picotm_error_is_set(error)) {
+            goto err_get_file_tx_with_ref;
+        }
     }
 
     fd_tx_ref_or_set_up(fd_tx, fd, file_tx, error);
@@ -1108,7 +1114,6 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
     return fd_tx;
 
 err_fd_tx_ref:
-    file_tx_unref(file_tx);
 err_get_file_tx_with_ref:
     fd_unref(fd);
     return NULL;
-- 
2.43.0


From 0945d316b38e553af4b58529e0259a1d24ac52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 72/92] fix: libc: respect the argument of F_DUPFD and
 F_DUPFD_CLOEXEC

The new file descriptor has to be the lowest one that is at least as
large as the argument of fcntl().
---
 modules/libc/src/fcntl-tm.c         | 22 ++++++++++++++++++----
 modules/libc/src/fcntl.c            | 22 ++++++++++++++++++----
 modules/libc/src/fildes/fd_tx.c     |  6 ++----
 modules/libc/src/fildes/fd_tx.h     |  2 +-
 modules/libc/src/fildes/fildes_tx.c |  8 ++++----
 modules/libc/src/fildes/fildes_tx.h |  4 ++--
 modules/libc/src/fildes/module.c    |  7 ++++---
 modules/libc/src/fildes/module.h    |  2 +-
 8 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index fa1ac7f..4c9bac6 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -56,15 +56,29 @@ fcntl_tm(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, min_fildes, false,
+                                                 &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, min_fildes, true,
+                                                 &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 6185624..7c3d368 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -58,15 +58,29 @@ fcntl_tx(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, min_fildes, false,
+                                                 &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, min_fildes, true,
+                                                 &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 0f90f68..2c88155 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -453,7 +453,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, int min_fildes, bool cloexec,
                bool isnoundo, int* cookie, struct picotm_error* error)
 {
     static const int fcntl_cmd[] = {
@@ -465,10 +465,8 @@ fd_tx_dup_exec(struct fd_tx* self,
 #endif
     };
 
-    static const int start_fildes = 0;
-
     int res = TEMP_FAILURE_RETRY(fcntl(fildes, fcntl_cmd[cloexec],
-                                       start_fildes));
+                                       min_fildes));
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         return -1;
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index fa6accf..715d46d 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -216,7 +216,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, int min_fildes, bool cloexec,
                bool isnoundo, int* cookie, struct picotm_error* error);
 
 void
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 776192e..110311b 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1606,8 +1606,8 @@ undo_connect(struct fildes_tx* self, int fildes, int cookie,
  */
 
 int
-fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
-                   int isnoundo, struct picotm_error* error)
+fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int min_fildes,
+                   int cloexec, int isnoundo, struct picotm_error* error)
 {
     assert(self);
 
@@ -1628,8 +1628,8 @@ fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
 
     int cookie = -1;
 
-    int res = fd_tx_dup_exec(fd_tx, fildes, cloexec, isnoundo, &cookie,
-                             error);
+    int res = fd_tx_dup_exec(fd_tx, fildes, min_fildes, cloexec, isnoundo,
+                             &cookie, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index 15f1241..8843edc 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -115,8 +115,8 @@ fildes_tx_exec_connect(struct fildes_tx* self, int sockfd,
                        int isnoundo, struct picotm_error* error);
 
 int
-fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
-                   int isnoundo, struct picotm_error* error);
+fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int min_fildes,
+                   int cloexec, int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_fchdir(struct fildes_tx* self, int fildes,
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index cf34cc0..d5c3c8b 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -291,13 +291,14 @@ fildes_module_connect(int sockfd, const struct sockaddr* serv_addr,
 }
 
 int
-fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
+fildes_module_dup_internal(int fildes, int min_fildes, int cloexec,
+                           struct picotm_error* error)
 {
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_dup(fildes_tx, fildes, cloexec,
+    return fildes_tx_exec_dup(fildes_tx, fildes, min_fildes, cloexec,
                               picotm_is_irrevocable(),
                               error);
 }
@@ -305,7 +306,7 @@ fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
 int
 fildes_module_dup(int fildes, struct picotm_error* error)
 {
-    return fildes_module_dup_internal(fildes, 0, error);
+    return fildes_module_dup_internal(fildes, 0, 0, error);
 }
 
 int
diff --git a/modules/libc/src/fildes/module.h b/modules/libc/src/fildes/module.h
index 63da5cb..4914d15 100644
--- a/modules/libc/src/fildes/module.h
+++ b/modules/libc/src/fildes/module.h
@@ -60,7 +60,7 @@ int
 fildes_module_dup(int fildes, struct picotm_error* error);
 
 int
-fildes_module_dup_internal(int fildes, int cloexec,
+fildes_module_dup_internal(int fildes, int min_fildes, int cloexec,
                            struct picotm_error* error);
 
 int
-- 
2.43.0


From bd6247257345e35b3e2961dac8f8cfa51770c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 73/92] fix: libc: don't dereference NULL in fcntl() with
 F_GETFD, F_GETFL or F_GETOWN

These commands store their result in the argument, but fcntl() did not
pass one.
---
 modules/libc/src/fcntl-tm.c     | 9 +++++++--
 modules/libc/src/fcntl.c        | 9 +++++++--
 modules/libc/src/fildes/fd_tx.c | 2 ++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index 4c9bac6..50bfa99 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -107,9 +107,14 @@ fcntl_tm(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+
+                memset(&val, 0, sizeof(val));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 7c3d368..13153c7 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -110,9 +110,14 @@ fcntl_tx(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+
+                memset(&val, 0, sizeof(val));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 2c88155..7b595dc 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -535,6 +535,8 @@ fd_tx_fcntl_exec(struct fd_tx* self,
 
     union fcntl_arg oldvalue;
 
+    memset(&oldvalue, 0, sizeof(oldvalue));
+
     int res = -1;
 
     switch (cmd) {
-- 
2.43.0


From 13028b8658b5e58c289c452e69e2986719f0624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 74/92] fix: libc: pass the address of struct flock to fcntl()

The file-locking commands passed the structure itself.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 4 ++--
 modules/libc/src/fildes/dir_tx_ops.c     | 4 ++--
 modules/libc/src/fildes/fifo_tx_ops.c    | 4 ++--
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 modules/libc/src/fildes/socket_tx_ops.c  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index e08cc89..dd92844 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -106,7 +106,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -137,7 +137,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c14ccc1..5506d8b 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -166,7 +166,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -197,7 +197,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 8aa0546..3795711 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -105,7 +105,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -136,7 +136,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0da524d..f417c44 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -173,7 +173,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -204,7 +204,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 92e460a..b98c912 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -168,7 +168,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -199,7 +199,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
-- 
2.43.0


From 05b414fcfaacdeb6f1a34c55821a1101e944595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 75/92] fix: libc: return the lock from fcntl() with F_GETLK

The result never reached the caller's structure.
---
 modules/libc/src/fcntl-tm.c | 3 +++
 modules/libc/src/fcntl.c    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index 50bfa99..2e81e6c 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -105,6 +105,9 @@ fcntl_tm(int fildes, int cmd, ...)
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error) && (cmd == F_GETLK)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 13153c7..5bbcc3c 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -104,10 +104,15 @@ fcntl_tx(int fildes, int cmd, ...)
                 f = va_arg(arg, struct flock*);
                 va_end(arg);
 
-                privatize_tx(f, sizeof(val.arg1), PICOTM_TM_PRIVATIZE_LOAD);
+                privatize_tx(f, sizeof(val.arg1),
+                             cmd == F_GETLK ? PICOTM_TM_PRIVATIZE_LOADSTORE :
+                                              PICOTM_TM_PRIVATIZE_LOAD);
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error) && (cmd == F_GETLK)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default: {
-- 
2.43.0


From fd415126b930cdf4bbcbcb2f281d2fc88b7fd275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 76/92] fix: libc: maintain file-descriptor state in dup2()

The system call replaced the file descriptor behind the back of the
file-descriptor tables. A file descriptor that the transaction closed
could still be duplicated, and the duplicate could not be used if the
original had been used in the transaction.
---
 modules/libc/src/fildes/fildes_tx.c | 60 +++++++++++++++++++++++++++++
 modules/libc/src/fildes/fildes_tx.h |  4 ++
 modules/libc/src/fildes/module.c    | 11 ++++++
 modules/libc/src/fildes/module.h    |  3 ++
 modules/libc/src/unistd.c           |  5 +--
 5 files changed, 79 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 110311b..885c592 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1690,6 +1690,66 @@ undo_dup(struct fildes_tx* self, int fildes, int cookie,
     fd_tx_signal_close(fd_tx);
 }
 
+/*
+ * dup2()
+ */
+
+int
+fildes_tx_exec_dup2(struct fildes_tx* self, int fildes, int fildes2,
+                    int isnoundo, struct picotm_error* error)
+{
+    assert(self);
+
+    if (!isnoundo) {
+        /* The file of fildes2 cannot be restored */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
+    /* Write-lock file-descriptor table to preserve file-descriptor order */
+    fdtab_tx_try_wrlock(&self->fdtab_tx, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    /* Update/create fd_tx */
+
+    get_fd_tx_with_ref(self, fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    if (fildes == fildes2) {
+        return fildes2;
+    }
+
+    if (fildes2 < 0 || (size_t)fildes2 >= picotm_arraylen(self->fd_tx)) {
+        picotm_error_set_errno(error, EBADF);
+        return -1;
+    }
+
+    /* Reference fd_tx for fildes2
+     *
+     * TODO: If the transaction already used fildes2, we'd have to apply
+     * the pending operations to the replaced file.
+     */
+
+    if (!fd_tx_holds_ref(get_fd_tx(self, fildes2))) {
+        add_dup_fd_tx_with_ref(self, fildes2, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+    }
+
+    int res = TEMP_FAILURE_RETRY(dup2(fildes, fildes2));
+    if (res < 0) {
+        picotm_error_set_errno(error, errno);
+        return -1;
+    }
+
+    return res;
+}
+
 /*
  * fchdir()
  */
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index 8843edc..0f6a048 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -118,6 +118,10 @@ int
 fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int min_fildes,
                    int cloexec, int isnoundo, struct picotm_error* error);
 
+int
+fildes_tx_exec_dup2(struct fildes_tx* self, int fildes, int fildes2,
+                    int isnoundo, struct picotm_error* error);
+
 int
 fildes_tx_exec_fchdir(struct fildes_tx* self, int fildes,
                       struct picotm_error* error);
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index d5c3c8b..dd314e0 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -309,6 +309,17 @@ fildes_module_dup(int fildes, struct picotm_error* error)
     return fildes_module_dup_internal(fildes, 0, 0, error);
 }
 
+int
+fildes_module_dup2(int fildes, int fildes2, struct picotm_error* error)
+{
+    struct fildes_tx* fildes_tx = get_fildes_tx(error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+    return fildes_tx_exec_dup2(fildes_tx, fildes, fildes2,
+                               picotm_is_irrevocable(), error);
+}
+
 int
 fildes_module_fchdir(int fildes, struct picotm_error* error)
 {
diff --git a/modules/libc/src/fildes/module.h b/modules/libc/src/fildes/module.h
index 4914d15..7f66db5 100644
--- a/modules/libc/src/fildes/module.h
+++ b/modules/libc/src/fildes/module.h
@@ -63,6 +63,9 @@ int
 fildes_module_dup_internal(int fildes, int min_fildes, int cloexec,
                            struct picotm_error* error);
 
+int
+fildes_module_dup2(int fildes, int fildes2, struct picotm_error* error);
+
 int
 fildes_module_fchdir(int fildes, struct picotm_error* error);
 
diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 6f43b2a..ea4786e 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -115,10 +115,7 @@ dup2_tx(int fildes, int fildes2)
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        int res = dup2(fildes, fildes2);
-        if (res < 0) {
-            picotm_error_set_errno(&error, errno);
-        }
+        int res = fildes_module_dup2(fildes, fildes2, &error);
         if (!picotm_error_is_set(&error)) {
             return res;
         }
-- 
2.43.0


From 5111c52ec4e1100b2a7ea8f2ac26e960caa319a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 77/92] fix: libc: return available data from read() and recv()

On FIFOs, sockets and character devices, the functions called the system
until the buffer was full. They blocked although data was available,
merged messages, and repeated data with MSG_PEEK.
---
 modules/libc/src/fildes/chrdev_tx_ops.c | 30 ++++---------
 modules/libc/src/fildes/fifo_tx_ops.c   | 30 ++++---------
 modules/libc/src/fildes/socket_tx_ops.c | 60 +++++++------------------
 3 files changed, 32 insertions(+), 88 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index dd92844..1d79dde 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -188,30 +188,16 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    /* A single call, as it returns with the data that is available */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
         }
-
-        pos += res;
+        picotm_error_set_errno(error, errno);
+        return res;
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 3795711..f7a0c04 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -187,30 +187,16 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    /* A single call, as it returns with the data that is available */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
         }
-
-        pos += res;
+        picotm_error_set_errno(error, errno);
+        return res;
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index b98c912..7f8b070 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -272,30 +272,16 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    /* A single call, as it returns with the data that is available */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
         }
-
-        pos += res;
+        picotm_error_set_errno(error, errno);
+        return res;
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
@@ -331,30 +317,16 @@ static ssize_t
 do_recv(int sockfd, void* buffer, size_t length, int flags,
         struct picotm_error* error)
 {
-    uint8_t* pos = buffer;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + length;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(recv(sockfd, pos, end - pos, flags));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    /* A single call, as it returns with the data that is available */
+    ssize_t res = TEMP_FAILURE_RETRY(recv(sockfd, buffer, length, flags));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
         }
-
-        pos += res;
+        picotm_error_set_errno(error, errno);
+        return res;
     }
-
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
-- 
2.43.0


From 1d36a0f2fbfb920eacf0fd1393b5d8f38d6014ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 78/92] fix: libc: search sockets in the list of socket buffers

The search went through the list of pipe buffers.
---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 885c592..1822729 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -571,7 +571,7 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 {
     /* Let's see if we already have the sockbuf in use.*/
 
-    struct picotm_slist* pos = picotm_slist_find_1(&self->pipebuf_tx_active_list,
+    struct picotm_slist* pos = picotm_slist_find_1(&self->sockbuf_tx_active_list,
                                                    true_if_eq_sockbuf_id_cb,
                                                    (void*)id);
     if (pos != picotm_slist_end(&self->sockbuf_tx_active_list)) {
-- 
2.43.0


From e343bca10774bea40fb71438802f0ad3b178a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 79/92] fix: libc: close the connection if accept() cannot be
 logged

---
 modules/libc/src/fildes/fildes_tx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 1822729..2fa862a 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1330,11 +1330,12 @@ fildes_tx_exec_accept(struct fildes_tx* self, int sockfd,
     /* Inject event */
     fildes_log_append(self->log, FILDES_OP_ACCEPT, connfd, cookie, error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_fildes_log_append;
     }
 
     return connfd;
 
+err_fildes_log_append:
 err_add_new_fd_tx_with_ref:
     if (TEMP_FAILURE_RETRY(close(connfd)) < 0) {
         perror("close");
-- 
2.43.0


From badfefffcee9925f1a7fc3e9e82f17fe5d839a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 80/92] fix: libc: send empty messages

send() and write() never called the system if the message was empty.
---
 modules/libc/src/fildes/socket_tx_ops.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 7f8b070..0df2d40 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -366,7 +366,8 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
     const uint8_t* beg = pos;
     const uint8_t* end = beg + length;
 
-    while (pos < end) {
+    /* Sends at least one message, which might be empty. */
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(send(sockfd, pos, end - pos, flags));
         if (res < 0) {
@@ -381,7 +382,8 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
         }
 
         pos += res;
-    }
+
+    } while (pos < end);
 
     return pos - beg;
 }
@@ -491,7 +493,8 @@ do_write(int fildes, const void* buf, size_t nbyte,
     const uint8_t* beg = pos;
     const uint8_t* end = beg + nbyte;
 
-    while (pos < end) {
+    /* Sends at least one message, which might be empty. */
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(write(fildes, pos, end - pos));
         if (res < 0) {
@@ -506,7 +509,8 @@ do_write(int fildes, const void* buf, size_t nbyte,
         }
 
         pos += res;
-    }
+
+    } while (pos < end);
 
     return pos - beg;
 }
-- 
2.43.0


From af08fb4eafec35bffc3af28b8808145c868c4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 81/92] fix: libc: don't defer non-blocking writes

The data of non-blocking writes to FIFOs, sockets and character devices
has been lost if the receiver could not take it during the commit, although
write() and send() had returned successfully. Make the transaction
irrevocable, so that the operations return the actual result.
---
 modules/libc/src/fildes/chrdev_tx_ops.c |  5 +++++
 modules/libc/src/fildes/fifo_tx_ops.c   |  5 +++++
 modules/libc/src/fildes/file_tx_ops.c   | 11 +++++++++++
 modules/libc/src/fildes/file_tx_ops.h   |  8 ++++++++
 modules/libc/src/fildes/socket_tx_ops.c | 11 +++++++++++
 5 files changed, 40 insertions(+)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 1d79dde..341c061 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -274,6 +274,11 @@ write_exec(struct file_tx* base,
     } else if (seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) {
         picotm_error_set_revocable(error);
         return -1;
+    } else if (!file_tx_op_can_defer_write(fildes, error)) {
+        if (!picotm_error_is_set(error)) {
+            picotm_error_set_revocable(error);
+        }
+        return -1;
     }
 
     /* Write-lock character device, because we change the file position */
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index f7a0c04..9d83c3e 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -275,6 +275,11 @@ write_exec(struct file_tx* base,
     } else if (pipebuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) {
         picotm_error_set_revocable(error);
         return -1;
+    } else if (!file_tx_op_can_defer_write(fildes, error)) {
+        if (!picotm_error_is_set(error)) {
+            picotm_error_set_revocable(error);
+        }
+        return -1;
     }
 
     /* Write-lock FIFO write end */
diff --git a/modules/libc/src/fildes/file_tx_ops.c b/modules/libc/src/fildes/file_tx_ops.c
index fa058cb..468f77f 100644
--- a/modules/libc/src/fildes/file_tx_ops.c
+++ b/modules/libc/src/fildes/file_tx_ops.c
@@ -216,3 +216,14 @@ file_tx_op_check_writable(int fildes, struct picotm_error* error)
         return;
     }
 }
+
+bool
+file_tx_op_can_defer_write(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return false;
+    }
+    return !(flags & O_NONBLOCK);
+}
diff --git a/modules/libc/src/fildes/file_tx_ops.h b/modules/libc/src/fildes/file_tx_ops.h
index ecb504f..d6c8e51 100644
--- a/modules/libc/src/fildes/file_tx_ops.h
+++ b/modules/libc/src/fildes/file_tx_ops.h
@@ -341,3 +341,11 @@ file_tx_op_undo(struct file_tx* base, int fildes, int cookie,
  */
 void
 file_tx_op_check_writable(int fildes, struct picotm_error* error);
+
+/**
+ * Tests if writing to a FIFO, a socket or a character device can be deferred
+ * to the commit. The result of non-blocking I/O depends on the state of the
+ * receiver and has to be known when the transaction executes the operation.
+ */
+bool
+file_tx_op_can_defer_write(int fildes, struct picotm_error* error);
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 0df2d40..193f2de 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -411,6 +411,12 @@ send_exec(struct file_tx* base,
             picotm_error_set_revocable(error);
             return -1;
         }
+        if (!file_tx_op_can_defer_write(sockfd, error)) {
+            if (!picotm_error_is_set(error)) {
+                picotm_error_set_revocable(error);
+            }
+            return -1;
+        }
     }
 
     /* Write-lock socket write end */
@@ -528,6 +534,11 @@ write_exec(struct file_tx* base,
     } else if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) {
         picotm_error_set_revocable(error);
         return -1;
+    } else if (!file_tx_op_can_defer_write(fildes, error)) {
+        if (!picotm_error_is_set(error)) {
+            picotm_error_set_revocable(error);
+        }
+        return -1;
     }
 
     /* Write-lock socket write end */
-- 
2.43.0


From 55772e9bf28f0dc7b38bf47c5f8e7fe332035cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 82/92] fix: libc: report errors when sending on an unconnected
 socket

The data got queued until the commit, which could not recover from the
error.
---
 modules/libc/src/fildes/socket_tx_ops.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 193f2de..32e3496 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -358,6 +358,22 @@ recv_exec(struct file_tx* base,
  * send()
  */
 
+static bool
+can_defer_send(int sockfd, struct picotm_error* error)
+{
+    if (!file_tx_op_can_defer_write(sockfd, error)) {
+        return false;
+    }
+
+    /* Sending on an unconnected socket fails */
+
+    struct sockaddr_storage address;
+    socklen_t address_len = sizeof(address);
+
+    int res = getpeername(sockfd, (struct sockaddr*)&address, &address_len);
+    return !res;
+}
+
 static ssize_t
 do_send(int sockfd, const void* buffer, size_t length, int flags,
         struct picotm_error* error)
@@ -411,7 +427,7 @@ send_exec(struct file_tx* base,
             picotm_error_set_revocable(error);
             return -1;
         }
-        if (!file_tx_op_can_defer_write(sockfd, error)) {
+        if (!can_defer_send(sockfd, error)) {
             if (!picotm_error_is_set(error)) {
                 picotm_error_set_revocable(error);
             }
@@ -534,7 +550,7 @@ write_exec(struct file_tx* base,
     } else if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_THROUGH) {
         picotm_error_set_revocable(error);
         return -1;
-    } else if (!file_tx_op_can_defer_write(fildes, error)) {
+    } else if (!can_defer_send(fildes, error)) {
         if (!picotm_error_is_set(error)) {
             picotm_error_set_revocable(error);
         }
-- 
2.43.0


From 851a090b85e541488ca786c344e75b9faac01428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 83/92] fix: libc: don't log commands of fcntl() that have been
 executed

F_SETFD has already changed the file descriptor when fcntl() tried to log
the command. If the log could not be extended, fcntl() failed although it
changed the file descriptor. The command was also executed again during
the commit.
---
 modules/libc/src/fildes/fd_tx.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 7b595dc..ea1e8fe 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -533,10 +533,6 @@ fd_tx_fcntl_exec(struct fd_tx* self,
         return -1;
     }
 
-    union fcntl_arg oldvalue;
-
-    memset(&oldvalue, 0, sizeof(oldvalue));
-
     int res = -1;
 
     switch (cmd) {
@@ -567,16 +563,7 @@ fd_tx_fcntl_exec(struct fd_tx* self,
         goto err_cmd;
     }
 
-    /* register fcntl */
-
-    if (cookie) {
-        *cookie = fcntloptab_append(&self->fcntltab,
-                                    &self->fcntltablen, cmd, arg, &oldvalue,
-                                    error);
-        if (picotm_error_is_set(error)) {
-            goto err_cmd;
-        }
-    }
+    /* The commands have been executed; there's nothing to apply or undo. */
 
     return res;
 
-- 
2.43.0


From e296776f86e2b9631e67afb0ab8d61ae59551bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 84/92] fix: libc: keep replaced files of dup2() open until the
 commit

If the transaction had already used the replaced file descriptor, its
pending writes went to the new file, a pending close() closed the new file,
and later operations used the file offset and buffers of the old one. Move
the pending operations to another file descriptor.
---
 modules/libc/src/fildes/fd_tx.c      | 17 ++++++++
 modules/libc/src/fildes/fd_tx.h      |  7 ++++
 modules/libc/src/fildes/fildes_log.c | 13 ++++++
 modules/libc/src/fildes/fildes_log.h |  9 ++++
 modules/libc/src/fildes/fildes_tx.c  | 63 ++++++++++++++++++++++++----
 5 files changed, 102 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index ea1e8fe..c5b5813 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -183,6 +183,23 @@ fd_tx_holds_ref(const struct fd_tx* self)
     return picotm_ref_count(&self->ref) > 0;
 }
 
+void
+fd_tx_replace_file_tx(struct fd_tx* self, struct file_tx* file_tx,
+                      struct picotm_error* error)
+{
+    assert(self);
+    assert(fd_tx_holds_ref(self));
+
+    file_tx_ref(file_tx, error);
+    if (picotm_error_is_set(error)) {
+        return;
+    }
+    file_tx_unref(self->file_tx);
+
+    self->file_tx = file_tx;
+    self->is_closed = false;
+}
+
 void
 fd_tx_signal_close(struct fd_tx* self)
 {
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 715d46d..2496184 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -98,6 +98,13 @@ fd_tx_uninit(struct fd_tx* self);
 void
 fd_tx_validate(struct fd_tx* self, struct picotm_error* error);
 
+/**
+ * Replace the file of an open file descriptor
+ */
+void
+fd_tx_replace_file_tx(struct fd_tx* self, struct file_tx* file_tx,
+                      struct picotm_error* error);
+
 /**
  * Prepare transaction-local state for commit
  */
diff --git a/modules/libc/src/fildes/fildes_log.c b/modules/libc/src/fildes/fildes_log.c
index 8307e56..eb02aeb 100644
--- a/modules/libc/src/fildes/fildes_log.c
+++ b/modules/libc/src/fildes/fildes_log.c
@@ -51,6 +51,19 @@ fildes_log_clear(struct fildes_log* self)
     self->eventtablen = 0;
 }
 
+void
+fildes_log_move_fildes(struct fildes_log* self, int fildes, int new_fildes)
+{
+    assert(self);
+
+    for (size_t i = 0; i < self->eventtablen; ++i) {
+        struct fildes_event* event = fildes_log_at(self, i);
+        if (event->fildes == fildes) {
+            event->fildes = new_fildes;
+        }
+    }
+}
+
 static struct fildes_event*
 fildes_log_end_alloc(struct fildes_log* self, struct picotm_error* error)
 {
diff --git a/modules/libc/src/fildes/fildes_log.h b/modules/libc/src/fildes/fildes_log.h
index b819e6a..c8cbcd2 100644
--- a/modules/libc/src/fildes/fildes_log.h
+++ b/modules/libc/src/fildes/fildes_log.h
@@ -63,6 +63,15 @@ fildes_log_at(const struct fildes_log* self, size_t i)
 void
 fildes_log_clear(struct fildes_log* self);
 
+/**
+ * \brief Assigns the events of a file descriptor to another file descriptor.
+ * \param   self        A file-descriptor log.
+ * \param   fildes      The file descriptor.
+ * \param   new_fildes  The file descriptor that receives the events.
+ */
+void
+fildes_log_move_fildes(struct fildes_log* self, int fildes, int new_fildes);
+
 void
 fildes_log_append(struct fildes_log* self, enum fildes_op op, int fildes,
                   int cookie, struct picotm_error* error);
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 2fa862a..6858eaa 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1695,6 +1695,44 @@ undo_dup(struct fildes_tx* self, int fildes, int cookie,
  * dup2()
  */
 
+/* Moves the file and the pending operations of a file descriptor to a new
+ * file descriptor, which is closed when the transaction finishes.
+ */
+static void
+move_fildes(struct fildes_tx* self, int fildes, struct picotm_error* error)
+{
+    int cookie = -1;
+
+    int new_fildes = fd_tx_dup_exec(get_existing_fd_tx(self, fildes), fildes,
+                                    0, true, true, &cookie, error);
+    if (picotm_error_is_set(error)) {
+        return;
+    }
+
+    add_dup_fd_tx_with_ref(self, new_fildes, fildes, error);
+    if (picotm_error_is_set(error)) {
+        goto err_add_dup_fd_tx_with_ref;
+    }
+
+    fildes_log_append(self->log, FILDES_OP_DUP, new_fildes, -1, error);
+    if (picotm_error_is_set(error)) {
+        goto err_fildes_log_append;
+    }
+
+    fildes_log_move_fildes(self->log, fildes, new_fildes);
+
+    fildes_log_append(self->log, FILDES_OP_CLOSE, new_fildes, 0, error);
+    if (picotm_error_is_set(error)) {
+        return;
+    }
+
+    return;
+
+err_fildes_log_append:
+err_add_dup_fd_tx_with_ref:
+    TEMP_FAILURE_RETRY(close(new_fildes));
+}
+
 int
 fildes_tx_exec_dup2(struct fildes_tx* self, int fildes, int fildes2,
                     int isnoundo, struct picotm_error* error)
@@ -1715,7 +1753,7 @@ fildes_tx_exec_dup2(struct fildes_tx* self, int fildes, int fildes2,
 
     /* Update/create fd_tx */
 
-    get_fd_tx_with_ref(self, fildes, error);
+    struct fd_tx* fd_tx = get_fd_tx_with_ref(self, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
@@ -1729,13 +1767,24 @@ fildes_tx_exec_dup2(struct fildes_tx* self, int fildes, int fildes2,
         return -1;
     }
 
-    /* Reference fd_tx for fildes2
-     *
-     * TODO: If the transaction already used fildes2, we'd have to apply
-     * the pending operations to the replaced file.
-     */
+    struct fd_tx* fd_tx2 = get_fd_tx(self, fildes2);
+
+    if (fd_tx_holds_ref(fd_tx2)) {
+
+        /* The transaction already used fildes2. The replaced file remains
+         * open for the pending operations until the transaction finishes.
+         */
+        move_fildes(self, fildes2, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+        fd_tx_replace_file_tx(fd_tx2, fd_tx->file_tx, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+    } else {
 
-    if (!fd_tx_holds_ref(get_fd_tx(self, fildes2))) {
+        /* Reference fd_tx for fildes2 */
         add_dup_fd_tx_with_ref(self, fildes2, fildes, error);
         if (picotm_error_is_set(error)) {
             return -1;
-- 
2.43.0


From ff20d2d92cece77ebcb04284ad54c95273fa9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 85/92] fix: libc: don't modify errno when undoing
 file-descriptor operations

Rolling back open() or mkstemp() resolves the path of the created file,
which sets errno to EINVAL after the error module restored its value.
---
 modules/libc/src/fildes/fildes_tx.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 6858eaa..6ac7d45 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -3500,10 +3500,12 @@ fildes_tx_undo_event(struct fildes_tx* self, enum fildes_op op, int fildes,
         undo_write
     };
 
+    /* The error module has already restored the value of 'errno'. */
+    int saved_errno = errno;
+
     undo[op](self, fildes, cookie, error);
-    if (picotm_error_is_set(error)) {
-        return;
-    }
+
+    errno = saved_errno;
 }
 
 static void
-- 
2.43.0


From 76820549577cfcf38dea97f1634c20ddfcf08cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 86/92] fix: libc: set up the buffer of character devices

The buffer's pointer was never set, so writing to a character device
dereferenced NULL.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 6ac7d45..c83b080 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -720,10 +720,17 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         return NULL;
     }
 
+    struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
+                                                            new_file, error);
+    if (picotm_error_is_set(error)) {
+        goto err_get_seekbuf_tx_with_ref;
+    }
+
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
     if (picotm_error_is_set(error)) {
         goto err_file_tx_ref_or_set_up;
     }
+    chrdev_tx->seekbuf_tx = seekbuf_tx;
 
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &chrdev_tx->base.list_entry);
@@ -733,6 +740,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     return chrdev_tx;
 
 err_file_tx_ref_or_set_up:
+err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
     return NULL;
 }
-- 
2.43.0


From 5f692472eaecf187652433d146d920d162cad3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 87/92] fix: ptrdata: find shared data from threads that have
 not used the module

Without the thread's module state, look-ups returned NULL and clearing had
no effect, although another thread associated data with the address.
---
 modules/ptrdata/src/module.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/ptrdata/src/module.c b/modules/ptrdata/src/module.c
index b0c1c6e..a4d2fd4 100644
--- a/modules/ptrdata/src/module.c
+++ b/modules/ptrdata/src/module.c
@@ -169,11 +169,9 @@ void
 ptrdata_module_clear_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return;
-    } else if (!module) {
-        return;
     }
     ptrdata_clear_shared_data(module->global, ptr, error);
 }
@@ -182,11 +180,9 @@ void*
 ptrdata_module_get_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return NULL;
-    } else if (!module) {
-        return NULL;
     }
     return ptrdata_get_shared_data(module->global, ptr, error);
 }
-- 
2.43.0


From 34c996916ee5ff5770ce88b308e620b1ba2a5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 88/92] fix: libc: handle failed look-ups of a locale object's
 state

The look-up's error has been overwritten by the following steps, and the
clean-up released a state with a reference.
---
 modules/libc/src/locale/locale_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 75185c2..c589df4 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -179,7 +179,10 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     do {
         picotm_spinlock_lock(&global->locale_state_lock);
         lstate = ptr_get_shared_data(locobj, error);
-        if (lstate) {
+        if (picotm_error_is_set(error)) {
+            picotm_spinlock_unlock(&global->locale_state_lock);
+            return NULL;
+        } else if (lstate) {
             ++lstate->ref_count;
             picotm_spinlock_unlock(&global->locale_state_lock);
             return lstate;
@@ -208,6 +211,7 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     /* not reachable */
 
 err_ptr_test_and_set_shared_data:
+    --lstate->ref_count;
     locale_state_uninit(lstate);
     free(lstate);
     return NULL;
-- 
2.43.0


From 369cda703e0db1ef5ceb62b2d2c8ed24bc31489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 89/92] fix: libc: read-lock the global locale in duplocale()

A duplicate of the global locale could contain settings of a concurrent
transaction that hasn't committed, or never will.
---
 modules/libc/src/locale/locale_tx.c | 37 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index c589df4..53f5c8d 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -383,18 +383,33 @@ locale_tx_duplocale_exec(struct locale_tx* self, locale_t locobj,
 {
     assert(self);
 
-    /* read-lock locobj object */
+    if (locobj == LC_GLOBAL_LOCALE) {
 
-    struct locale_state_tx* lstate_tx = acquire_locale_state_tx(locobj, self,
-                                                                error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
-    }
-    picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
-                              &lstate_tx->lstate->rwlock,
-                              error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        /* read-lock all fields of the global locale */
+
+        try_lock_locale_fields_by_category(LC_ALL, self,
+                                           locale_tx_try_rdlock_field,
+                                           error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+
+    } else {
+
+        /* read-lock locobj object */
+
+        struct locale_state_tx* lstate_tx = acquire_locale_state_tx(locobj,
+                                                                    self,
+                                                                    error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+        picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
+                                  &lstate_tx->lstate->rwlock,
+                                  error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
     }
 
     /* duplicate locale */
-- 
2.43.0


From bf00b7cd20e64219e8d9df5fe789dc090239ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 90/92] fix: export PICOTM_HAVE_TYPE_SIGJMP_BUF in the public
 configuration

Without the constant, picotm_begin in application code doesn't save the
signal mask, and signals remain blocked after recovering from them.
---
 include/picotm/config/picotm-config.h.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/picotm/config/picotm-config.h.in b/include/picotm/config/picotm-config.h.in
index 437467a..3526bc4 100644
--- a/include/picotm/config/picotm-config.h.in
+++ b/include/picotm/config/picotm-config.h.in
@@ -36,6 +36,10 @@
 #undef PICOTM_HAVE_TYPE_SIGINFO_T
 #endif
 
+#ifndef PICOTM_HAVE_TYPE_SIGJMP_BUF
+#undef PICOTM_HAVE_TYPE_SIGJMP_BUF
+#endif
+
 #ifndef PICOTM_HAVE_TYPE_KERN_RETURN_T
 #undef PICOTM_HAVE_TYPE_KERN_RETURN_T
 #endif
-- 
2.43.0


From 689ecf5341862795cafce268d4a67a858d993b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 91/92] fix: libc: don't lock acquired signals when acquiring
 again

The signal's handler could run on the same thread and wait for the lock
forever.
---
 modules/libc/src/signal/sigstate.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/signal/sigstate.c b/modules/libc/src/signal/sigstate.c
index 8ab1391..927245a 100644
--- a/modules/libc/src/signal/sigstate.c
+++ b/modules/libc/src/signal/sigstate.c
@@ -52,13 +52,15 @@ sigstate_entry_acquire(struct sigstate_entry* self, int signum,
         return;
     }
 
-    picotm_spinlock_lock(&self->lock);
-
+    /* The field only changes with the global lock held, so we can look at it
+     * here. If the signal has been acquired already, we must not hold the
+     * entry's lock, as the signal handler could run on this thread. */
     if (self->acquired) {
-        picotm_spinlock_unlock(&self->lock);
         return;
     }
 
+    picotm_spinlock_lock(&self->lock);
+
     /* We set-up the fields *before* acquiring the signal. The
      * call to sigaction() acts as 'atomic' state change. */
     self->nontx_sigaction = nontx_sigaction;
-- 
2.43.0


From accaa7ac91c9988fb3d460bcac21d6ce37fedac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 92/92] fix: libc: restore the file mode if the fchmod() event
 cannot be logged

---
 modules/libc/src/fildes/fildes_tx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index c83b080..16109f0 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1883,6 +1883,9 @@ fildes_tx_exec_fchmod(struct fildes_tx* self, int fildes, mode_t mode,
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_FCHMOD, fildes, cookie, error);
         if (picotm_error_is_set(error)) {
+            /* There'll be no undo; restore the mode here. */
+            struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+            fd_tx_fchmod_undo(fd_tx, fildes, cookie, &undo_error);
             return -1;
         }
     }
-- 
2.43.0

