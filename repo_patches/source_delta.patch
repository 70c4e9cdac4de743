From 78e5b4464375a1e86724192ddd2321cce441080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 01/67] fix: find the right slot when a property is salvaged
 before its hash is stored

salvage_item() used the hash stored in the slot, but the thread which
claimed the slot stores the hash only after it stored the key.  A resize
in that window placed the property at the position for hash 0, where it
could not be found any more.
---
 core/kos_object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/kos_object.c b/core/kos_object.c
index 43b26ba..b25b76f 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -224,6 +224,9 @@ static int salvage_item(KOS_CONTEXT ctx,
     key  = KOS_atomic_read_relaxed_obj(old_item->key);
     assert( ! IS_BAD_PTR(key));
     hash = KOS_atomic_read_relaxed_u32(old_item->hash.hash);
+    if ( ! hash)
+        /* The thread which claimed this slot has not stored the hash yet */
+        hash = KOS_string_get_hash(key);
     idx  = hash & mask;
 
     /* Claim a slot in the new table */
-- 
2.43.0


From deb35562261518e7dfb2fd344b6570510f174298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:55 +0000
Subject: [PATCH 02/67] fix: never replace array storage with smaller storage

Two threads growing an array concurrently could both compute the new
capacity from the same old storage.  The slower one then copied the bigger
storage, already installed by the other thread, into its smaller one and
wrote beyond its end.
---
 core/kos_array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 9483df7..4bdbb1f 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -374,12 +374,17 @@ static int resize_storage(KOS_CONTEXT ctx,
 
     if (new_buf) {
 
+        const uint32_t new_buf_capacity = KOS_atomic_read_relaxed_u32(new_buf->capacity);
+
         old_buf = get_data(array.o);
 
-        atomic_fill_ptr(&new_buf->buf[0], KOS_atomic_read_relaxed_u32(new_buf->capacity), TOMBSTONE);
+        atomic_fill_ptr(&new_buf->buf[0], new_buf_capacity, TOMBSTONE);
 
         if ( ! old_buf)
             (void)KOS_atomic_cas_strong_ptr(OBJPTR(ARRAY, array.o)->data, KOS_BADPTR, OBJID(ARRAY_STORAGE, new_buf));
+        else if (KOS_atomic_read_relaxed_u32(old_buf->capacity) > new_buf_capacity) {
+            /* Another thread has already installed bigger storage, never shrink it */
+        }
         else if (KOS_atomic_cas_strong_ptr(old_buf->next, KOS_BADPTR, OBJID(ARRAY_STORAGE, new_buf)))
             copy_buf(ctx, OBJPTR(ARRAY, array.o), old_buf, new_buf);
         else {
-- 
2.43.0


From 5ebb05d6bf1f95160fbbdc1ec50208448bb6dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 03/67] fix: do not report success when another thread
 installed smaller buffer storage

KOS_buffer_reserve() ignored a failed swap of the storage, the caller then
set a size bigger than the capacity of the storage.
---
 core/kos_buffer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 1fc6da7..7b8358c 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -202,9 +202,11 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
                 if (size)
                     memcpy(buf->ptr, OBJPTR(BUFFER_STORAGE, old_buf.o)->ptr, size);
 
-                (void)KOS_atomic_cas_strong_ptr(OBJPTR(BUFFER, obj.o)->data,
-                                                old_buf.o,
-                                                OBJID(BUFFER_STORAGE, buf));
+                /* If another thread has replaced the storage, it may be too small */
+                if ( ! KOS_atomic_cas_strong_ptr(OBJPTR(BUFFER, obj.o)->data,
+                                                 old_buf.o,
+                                                 OBJID(BUFFER_STORAGE, buf)))
+                    continue;
             }
 
             error = KOS_SUCCESS;
-- 
2.43.0


From f508d0b03764ffb799ebe97ca72fef041fea1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 04/67] fix: resize arrays safely when another thread replaces
 the storage

KOS_array_resize() wrote to the storage it read before changing the size.
When another thread was growing the array, it wrote beyond the end of the
old storage or overwrote slots closed by the copying thread, which then
never finished copying.
---
 core/kos_array.c | 49 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 4bdbb1f..2d6f435 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -224,6 +224,29 @@ static void copy_buf(KOS_CONTEXT        ctx,
                                     OBJID(ARRAY_STORAGE, new_buf));
 }
 
+/* Writes a slot irrespective of its current value, returns storage where the value was written */
+static KOS_ARRAY_STORAGE *write_slot(KOS_CONTEXT        ctx,
+                                     KOS_OBJ_ID         array,
+                                     KOS_ARRAY_STORAGE *buf,
+                                     uint32_t           idx,
+                                     KOS_OBJ_ID         value)
+{
+    for (;;) {
+
+        const KOS_OBJ_ID cur = KOS_atomic_read_relaxed_obj(buf->buf[idx]);
+
+        if (cur == CLOSED) {
+            KOS_ARRAY_STORAGE *const new_buf = get_next(buf);
+            copy_buf(ctx, OBJPTR(ARRAY, array), buf, new_buf);
+            buf = new_buf;
+        }
+        else if (KOS_atomic_cas_weak_ptr(buf->buf[idx], cur, value))
+            break;
+    }
+
+    return buf;
+}
+
 KOS_OBJ_ID KOS_array_read(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id, int idx)
 {
     KOS_OBJ_ID elem = KOS_BADPTR;
@@ -482,28 +505,20 @@ int KOS_array_resize(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id, uint32_t size)
             const uint32_t new_cap = KOS_max(capacity * 2, size);
 
             TRY(KOS_array_reserve(ctx, array.o, new_cap));
-
-            buf = get_data(array.o);
         }
 
         old_size = KOS_atomic_swap_u32(OBJPTR(ARRAY, array.o)->size, size);
 
         if (size != old_size) {
-            if (size > old_size) {
-                const KOS_OBJ_ID void_obj = KOS_VOID;
-                /* TODO try to improve this */
-                KOS_ATOMIC(KOS_OBJ_ID) *ptr = &buf->buf[old_size];
-                KOS_ATOMIC(KOS_OBJ_ID) *end = &buf->buf[size];
-                while (ptr < end)
-                    KOS_atomic_write_relaxed_ptr(*(ptr++), void_obj);
-            }
-            else {
-                /* TODO try to improve this */
-                KOS_ATOMIC(KOS_OBJ_ID) *ptr = &buf->buf[size];
-                KOS_ATOMIC(KOS_OBJ_ID) *end = &buf->buf[old_size];
-                while (ptr < end)
-                    KOS_atomic_write_relaxed_ptr(*(ptr++), TOMBSTONE);
-            }
+            const KOS_OBJ_ID value = (size > old_size) ? KOS_VOID : TOMBSTONE;
+            const uint32_t   end   = KOS_max(size, old_size);
+            uint32_t         idx   = KOS_min(size, old_size);
+
+            /* Another thread could have replaced the storage in the mean time */
+            buf = get_data(array.o);
+
+            for ( ; idx < end; idx++)
+                buf = write_slot(ctx, array.o, buf, idx, value);
         }
 
         error = KOS_SUCCESS;
-- 
2.43.0


From 520c530141be36492cf161d3ce7fb7da8f805c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 05/67] fix: make array insert safe when other threads resize
 the arrays

KOS_array_insert() copied raw slots, including the markers of slots closed by
a thread replacing the storage.  Such a marker in live storage made the next
access to that slot follow a null pointer.  Also fixes the offset of the
source range when it lies behind a longer replaced range in the same array.
---
 core/kos_array.c | 74 ++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 2d6f435..160488f 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -613,6 +613,43 @@ KOS_OBJ_ID KOS_array_slice(KOS_CONTEXT ctx,
     return KOS_destroy_top_locals(ctx, &array, &ret);
 }
 
+/* Reads a slot, treats a slot removed by another thread as void */
+static KOS_OBJ_ID read_slot(KOS_ARRAY_STORAGE *buf,
+                            uint32_t           idx)
+{
+    for (;;) {
+
+        const KOS_OBJ_ID value = KOS_atomic_read_relaxed_obj(buf->buf[idx]);
+
+        if (value != CLOSED)
+            return (value == TOMBSTONE) ? KOS_VOID : value;
+
+        buf = get_next(buf);
+    }
+}
+
+/* Copies slots, source and destination can overlap if they are in the same array */
+static void move_slots(KOS_CONTEXT ctx,
+                       KOS_OBJ_ID  dest,
+                       int64_t     dest_idx,
+                       KOS_OBJ_ID  src,
+                       int64_t     src_idx,
+                       int64_t     count)
+{
+    KOS_ARRAY_STORAGE *dest_buf = get_data(dest);
+    KOS_ARRAY_STORAGE *src_buf  = get_data(src);
+    int64_t            i;
+
+    if (dest != src || dest_idx < src_idx)
+        for (i = 0; i < count; i++)
+            dest_buf = write_slot(ctx, dest, dest_buf, (uint32_t)(dest_idx + i),
+                                  read_slot(src_buf, (uint32_t)(src_idx + i)));
+    else
+        for (i = count - 1; i >= 0; i--)
+            dest_buf = write_slot(ctx, dest, dest_buf, (uint32_t)(dest_idx + i),
+                                  read_slot(src_buf, (uint32_t)(src_idx + i)));
+}
+
 int KOS_array_insert(KOS_CONTEXT ctx,
                      KOS_OBJ_ID  dest_obj_id,
                      int64_t     dest_begin,
@@ -630,8 +667,6 @@ int KOS_array_insert(KOS_CONTEXT ctx,
     uint32_t           src_delta;
     KOS_LOCAL          src;
     KOS_LOCAL          dest;
-    KOS_ARRAY_STORAGE *dest_buf;
-    KOS_ARRAY_STORAGE *src_buf = KOS_NULL;
 
     assert( ! IS_BAD_PTR(src_obj_id));
     assert( ! IS_BAD_PTR(dest_obj_id));
@@ -670,54 +705,37 @@ int KOS_array_insert(KOS_CONTEXT ctx,
     if (src_delta > dest_delta)
         TRY(KOS_array_resize(ctx, dest.o, dest_len - dest_delta + src_delta));
 
-    dest_buf = get_data(dest.o);
-    if (src_begin != src_end)
-        src_buf = get_data(src.o);
-
     if (src.o != dest.o || src_end <= dest_begin || src_begin >= dest_end || ! src_delta) {
 
         if (src_delta != dest_delta && dest_end < dest_len)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_end - dest_delta + src_delta],
-                                (KOS_ATOMIC(void *) *)&dest_buf->buf[dest_end],
-                                (unsigned)(dest_len - dest_end));
+            move_slots(ctx, dest.o, dest_end - dest_delta + src_delta, dest.o, dest_end, dest_len - dest_end);
 
         if (src.o == dest.o && src_begin >= dest_end)
-            src_begin += src_delta - dest_delta;
+            src_begin += (int64_t)src_delta - (int64_t)dest_delta;
 
         if (src_delta)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin],
-                                (KOS_ATOMIC(void *) *)&src_buf->buf[src_begin],
-                                src_delta);
+            move_slots(ctx, dest.o, dest_begin, src.o, src_begin, src_delta);
     }
     else if (dest_delta >= src_delta) {
 
         if (src_begin != dest_begin)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin],
-                                (KOS_ATOMIC(void *) *)&dest_buf->buf[src_begin],
-                                src_delta);
+            move_slots(ctx, dest.o, dest_begin, dest.o, src_begin, src_delta);
 
         if (dest_end < dest_len)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin + src_delta],
-                                (KOS_ATOMIC(void *) *)&dest_buf->buf[dest_end],
-                                (unsigned)(dest_len - dest_end));
+            move_slots(ctx, dest.o, dest_begin + src_delta, dest.o, dest_end, dest_len - dest_end);
     }
     else {
 
         const int64_t mid = KOS_min(dest_begin + src_delta, src_end);
 
         if (dest_end < dest_len)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin + src_delta],
-                                (KOS_ATOMIC(void *) *)&dest_buf->buf[dest_end],
-                                (unsigned)(dest_len - dest_end));
+            move_slots(ctx, dest.o, dest_begin + src_delta, dest.o, dest_end, dest_len - dest_end);
+
         if (mid > src_begin)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin],
-                                (KOS_ATOMIC(void *) *)&dest_buf->buf[src_begin],
-                                (unsigned)(mid - src_begin));
+            move_slots(ctx, dest.o, dest_begin, dest.o, src_begin, mid - src_begin);
 
         if (mid < src_end)
-            kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin + mid - src_begin],
-                                (KOS_ATOMIC(void *) *)&dest_buf->buf[mid + src_delta - dest_delta],
-                                (unsigned)(src_end - mid));
+            move_slots(ctx, dest.o, dest_begin + mid - src_begin, dest.o, mid + src_delta - dest_delta, src_end - mid);
     }
 
     if (src_delta < dest_delta)
-- 
2.43.0


From 1afe29c675c2edeefb0d3da91e071106544d1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:20 +0000
Subject: [PATCH 06/67] fix: use one size for source and destination when
 inserting an array into itself

---
 core/kos_array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 160488f..288814c 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -692,7 +692,8 @@ int KOS_array_insert(KOS_CONTEXT ctx,
     dest_delta = (uint32_t)(dest_end - dest_begin);
 
     if (src_begin != src_end) {
-        src_len   = KOS_get_array_size(src.o);
+        /* Another thread could be resizing the array */
+        src_len   = (src.o == dest.o) ? dest_len : KOS_get_array_size(src.o);
         src_begin = KOS_fix_index(src_begin, src_len);
         src_end   = KOS_fix_index(src_end, src_len);
 
-- 
2.43.0


From c68d6549120b096c8eb110375ebffd5d15fa2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 07/67] fix: do not count heap pool memory which could not be
 set up

---
 core/kos_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 6837c5c..32d7db6 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -616,8 +616,6 @@ static KOS_POOL *alloc_pool(KOS_HEAP *heap,
     if ( ! pool)
         return KOS_NULL;
 
-    heap->heap_size += alloc_size;
-
     assert(KOS_align_up((uintptr_t)pool, (uintptr_t)KOS_PAGE_SIZE) == (uintptr_t)pool);
 
     pool_hdr = (KOS_POOL *)KOS_malloc(sizeof(KOS_POOL));
@@ -627,6 +625,8 @@ static KOS_POOL *alloc_pool(KOS_HEAP *heap,
         return KOS_NULL;
     }
 
+    heap->heap_size += alloc_size;
+
     pool_hdr->memory     = pool;
     pool_hdr->alloc_size = alloc_size;
 
-- 
2.43.0


From 3e59743f7742d040b285a845829e48d0ef78f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:15 +0000
Subject: [PATCH 08/67] fix: reclaim garbage pages when evacuation runs out of
 memory

---
 core/kos_heap.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 32d7db6..ecd0b61 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -2147,6 +2147,29 @@ static void mark_unused_objects_opaque(KOS_CONTEXT   ctx,
     }
 }
 
+static void finalize_page(KOS_CONTEXT   ctx,
+                          KOS_PAGE     *page,
+                          KOS_GC_STATS *stats)
+{
+    KOS_SLOT *ptr = get_slots(page);
+    KOS_SLOT *end = ptr + KOS_atomic_read_relaxed_u32(page->num_allocated);
+
+    while (ptr < end) {
+
+        KOS_OBJ_HEADER *const hdr  = (KOS_OBJ_HEADER *)ptr;
+        const uint32_t        size = kos_get_object_size(*hdr);
+
+        finalize_object(ctx, hdr, stats);
+
+        ++stats->num_objs_freed;
+        stats->size_freed += size;
+
+        ptr = (KOS_SLOT *)((uint8_t *)ptr + size);
+    }
+
+    ++stats->num_pages_dropped;
+}
+
 static void update_child_ptr(KOS_OBJ_ID *obj_id_ptr)
 {
     KOS_OBJ_ID obj_id = *obj_id_ptr;
@@ -2646,6 +2669,18 @@ static int evacuate(KOS_CONTEXT              ctx,
                         /* Put back the remaining pages on the heap. */
                         for (page = next; page; page = next) {
                             next = page->next;
+
+                            /* Reclaim pages which contain only garbage, so that
+                             * evacuation can continue. */
+                            if (KOS_atomic_read_relaxed_u32(page->flags) != PAGE_ALREADY_EVACED &&
+                                ! get_num_slots_used(page, KOS_atomic_read_relaxed_u32(page->num_allocated))) {
+
+                                heap->used_heap_size -= used_page_size(page);
+                                finalize_page(ctx, page, &stats);
+                                push_page_back(free_pages, page);
+                                continue;
+                            }
+
                             mark_unused_objects_opaque(ctx, page, &stats);
                             push_page(&heap->used_pages, page);
                         }
-- 
2.43.0


From 6d24b4d79a02206c7029415c92dd377a62c5889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:52 +0000
Subject: [PATCH 09/67] fix: do not fail an allocation when a disowned thread
 ended with an exception

---
 core/kos_heap.c    |  5 +++++
 core/kos_threads.c | 10 +++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index ecd0b61..969b26f 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1013,6 +1013,9 @@ static void *alloc_object(KOS_CONTEXT ctx,
             return KOS_NULL;
         }
 
+        /* Objects could be allocated when joining disowned threads after GC */
+        release_current_page_locked(ctx);
+
         /* Allocate a new page */
         page = alloc_page(heap);
 
@@ -1023,6 +1026,8 @@ static void *alloc_object(KOS_CONTEXT ctx,
             if (error)
                 KOS_clear_exception(ctx);
 
+            release_current_page_locked(ctx);
+
             page = alloc_page(heap);
         }
 
diff --git a/core/kos_threads.c b/core/kos_threads.c
index 05c878a..4c260a8 100644
--- a/core/kos_threads.c
+++ b/core/kos_threads.c
@@ -295,13 +295,13 @@ int kos_join_finished_threads(KOS_CONTEXT                      ctx,
                     if (IS_BAD_PTR(retval)) {
                         assert(KOS_is_exception_pending(ctx));
 
-                        if ( ! join_all) {
-                            error = KOS_ERROR_EXCEPTION;
-                            break;
-                        }
+                        /* This thread did not wait for the disowned thread, so it
+                         * must not fail because of how the disowned thread ended */
+                        if ( ! join_all)
+                            KOS_print_exception(ctx, KOS_STDERR);
 
                         /* We are joining all threads, so print the previous exception and continue */
-                        if (IS_BAD_PTR(exception.o)) {
+                        else if (IS_BAD_PTR(exception.o)) {
                             exception.o = KOS_get_exception(ctx);
                             KOS_clear_exception(ctx);
                         }
-- 
2.43.0


From 55443db451290adff3e9ebb0f3e49f272d0946f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:05 +0000
Subject: [PATCH 10/67] fix: do not join threads at exit which another thread
 may still be waiting for

---
 core/kos_threads.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/kos_threads.c b/core/kos_threads.c
index 4c260a8..7cc37bc 100644
--- a/core/kos_threads.c
+++ b/core/kos_threads.c
@@ -237,6 +237,7 @@ int kos_join_finished_threads(KOS_CONTEXT                      ctx,
     const uint32_t max_threads  = inst->threads.max_threads;
     KOS_LOCAL      exception;
     int            num_pending  = 0;
+    uint32_t       num_seen     = 0;
     uint32_t       num_finished = 0;
     int            join_rest    = 0;
     uint32_t       i            = 0;
@@ -261,6 +262,7 @@ int kos_join_finished_threads(KOS_CONTEXT                      ctx,
 
         if (i == 0) {
             num_pending  = 0;
+            num_seen     = 0;
             num_finished = 0;
         }
 
@@ -272,6 +274,8 @@ int kos_join_finished_threads(KOS_CONTEXT                      ctx,
 
             const uint32_t flags = KOS_atomic_read_relaxed_u32(thread->flags);
 
+            ++num_seen;
+
             if (flags == (KOS_THREAD_DISOWNED | KOS_THREAD_FINISHED) ||
                      (join_all && flags == KOS_THREAD_DISOWNED) || join_rest) {
 
@@ -338,7 +342,8 @@ int kos_join_finished_threads(KOS_CONTEXT                      ctx,
             kos_yield();
             KOS_resume_context(ctx);
 
-            if (num_finished == KOS_atomic_read_relaxed_u32(inst->threads.num_threads))
+            /* Only join the rest if no other thread could be waiting for them */
+            if (num_finished == num_seen)
                 join_rest = 1;
         }
     }
-- 
2.43.0


From 94519a60d3d1c6879b996e2f3078749719395a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 11/67] fix: report out of memory when a jump cannot be
 recorded

---
 core/kos_compiler.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 410e142..10a3ca2 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1723,6 +1723,8 @@ static int push_jump_array(KOS_COMP_UNIT *program,
                            JUMP_ARRAY    *jump_array,
                            int            offs)
 {
+    int error;
+
     if (jump_array->num_jumps >= jump_array->capacity) {
         const uint16_t  new_capacity = jump_array->capacity * 2;
         uint32_t *const new_buf      = (uint32_t *)KOS_mempool_alloc(&program->allocator,
@@ -1738,11 +1740,13 @@ static int push_jump_array(KOS_COMP_UNIT *program,
         jump_array->capacity = new_capacity;
     }
 
-    add_jump_instr_at_offset(program,
-                             &jump_array->entries[jump_array->num_jumps++],
-                             offs);
+    error = add_jump_instr_at_offset(program,
+                                     &jump_array->entries[jump_array->num_jumps],
+                                     offs);
+    if ( ! error)
+        ++jump_array->num_jumps;
 
-    return KOS_SUCCESS;
+    return error;
 }
 
 static int32_t negate_jump_opcode(int32_t opcode)
-- 
2.43.0


From 259d320b67eb049ec1d730e545d6e3fa6ad745d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 12/67] fix: report out of memory when argument names cannot be
 allocated

---
 core/kos_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 10a3ca2..19ce6ec 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -5595,7 +5595,7 @@ static int prealloc_arg_names(KOS_COMP_UNIT      *program,
             node->type == NT_IDENTIFIER ? node : node->children;
 
         if (gen_str(program, &ident_node->token, &arg_str_idx))
-            return 0;
+            return -1;
 
         node = node->next;
         ++count;
-- 
2.43.0


From b1574fe90c9024047c47d54861f80bd582c41608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 13/67] fix: stop compilation when a global cannot be resolved
 due to out of memory

---
 core/kos_compiler.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 19ce6ec..6fd8c4f 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1399,7 +1399,9 @@ static int import(KOS_COMP_UNIT      *program,
                                                 node->token.length,
                                                 import_global,
                                                 &info);
-                if (error && (error != KOS_ERROR_OUT_OF_MEMORY)) {
+                if (error) {
+                    if (error == KOS_ERROR_OUT_OF_MEMORY)
+                        goto cleanup;
                     program->error_token = &node->token;
                     program->error_str   = str_err_no_such_module_variable;
                     RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -4042,7 +4044,9 @@ static int invocation(KOS_COMP_UNIT      *program,
                                         sizeof(str_string)-1,
                                         get_global_idx,
                                         &string_idx);
-        if (error && (error != KOS_ERROR_OUT_OF_MEMORY)) {
+        if (error) {
+            if (error == KOS_ERROR_OUT_OF_MEMORY)
+                goto cleanup;
             program->error_token = &node->token;
             program->error_str   = str_err_no_such_module_variable;
             RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
-- 
2.43.0


From 443c2e9f495480161a119408c71f8858e917406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 14/67] fix: only the thread which holds a mutex can release it

---
 modules/kos_mod_threads.c | 64 +++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/modules/kos_mod_threads.c b/modules/kos_mod_threads.c
index 814f1a3..dd7cb64 100644
--- a/modules/kos_mod_threads.c
+++ b/modules/kos_mod_threads.c
@@ -32,13 +32,24 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_init_too_small,  "init argument is less
 KOS_DECLARE_STATIC_CONST_STRING(str_init,                "init");
 KOS_DECLARE_STATIC_CONST_STRING(str_seconds,             "seconds");
 
+typedef struct KOS_MUTEX_PRIV_S {
+    KOS_MUTEX          mutex;
+    KOS_ATOMIC(void *) owner; /* Context of the thread which holds the mutex */
+} KOS_MUTEX_PRIV;
+
 KOS_DECLARE_PRIVATE_CLASS(mutex_priv_class);
 
 static void mutex_finalize(KOS_CONTEXT ctx,
                            void       *priv)
 {
-    if (priv)
-        kos_destroy_mutex((KOS_MUTEX *)&priv);
+    if (priv) {
+        KOS_MUTEX_PRIV *const mutex_priv = (KOS_MUTEX_PRIV *)priv;
+
+        if (mutex_priv->mutex)
+            kos_destroy_mutex(&mutex_priv->mutex);
+
+        KOS_free(mutex_priv);
+    }
 }
 
 /* @item threads mutex()
@@ -53,14 +64,22 @@ static KOS_OBJ_ID mutex_ctor(KOS_CONTEXT ctx,
                              KOS_OBJ_ID  this_obj,
                              KOS_OBJ_ID  args_obj)
 {
-    KOS_LOCAL  mutex;
-    KOS_OBJ_ID proto;
-    KOS_MUTEX  mutex_obj = KOS_NULL;
-    int        error     = KOS_SUCCESS;
+    KOS_LOCAL       mutex;
+    KOS_OBJ_ID      proto;
+    KOS_MUTEX_PRIV *mutex_priv = KOS_NULL;
+    int             error      = KOS_SUCCESS;
 
     KOS_init_local(ctx, &mutex);
 
-    error = kos_create_mutex(&mutex_obj);
+    mutex_priv = (KOS_MUTEX_PRIV *)KOS_malloc(sizeof(KOS_MUTEX_PRIV));
+
+    if ( ! mutex_priv)
+        RAISE_EXCEPTION_STR(str_err_mutex_failed);
+
+    mutex_priv->mutex = KOS_NULL;
+    KOS_atomic_write_relaxed_ptr(mutex_priv->owner, (void *)KOS_NULL);
+
+    error = kos_create_mutex(&mutex_priv->mutex);
 
     if (error)
         RAISE_EXCEPTION_STR(str_err_mutex_failed);
@@ -81,12 +100,12 @@ static KOS_OBJ_ID mutex_ctor(KOS_CONTEXT ctx,
                                           mutex_finalize);
     TRY_OBJID(mutex.o);
 
-    KOS_object_set_private_ptr(mutex.o, mutex_obj);
-    mutex_obj = KOS_NULL;
+    KOS_object_set_private_ptr(mutex.o, mutex_priv);
+    mutex_priv = KOS_NULL;
 
 cleanup:
-    if (mutex_obj)
-        kos_destroy_mutex(&mutex_obj);
+    if (mutex_priv)
+        mutex_finalize(ctx, mutex_priv);
 
     mutex.o = KOS_destroy_top_local(ctx, &mutex);
 
@@ -108,17 +127,19 @@ static KOS_OBJ_ID mutex_acquire(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  this_obj,
                                 KOS_OBJ_ID  args_obj)
 {
-    KOS_LOCAL mutex;
-    KOS_MUTEX mutex_obj;
+    KOS_LOCAL       mutex;
+    KOS_MUTEX_PRIV *mutex_priv;
 
     KOS_init_local_with(ctx, &mutex, this_obj);
 
-    mutex_obj = (KOS_MUTEX)KOS_object_get_private(mutex.o, &mutex_priv_class);
+    mutex_priv = (KOS_MUTEX_PRIV *)KOS_object_get_private(mutex.o, &mutex_priv_class);
 
-    if (mutex_obj) {
+    if (mutex_priv) {
         KOS_suspend_context(ctx);
 
-        kos_lock_mutex(mutex_obj);
+        kos_lock_mutex(mutex_priv->mutex);
+
+        KOS_atomic_write_relaxed_ptr(mutex_priv->owner, (void *)ctx);
 
         KOS_resume_context(ctx);
     }
@@ -140,10 +161,15 @@ static KOS_OBJ_ID mutex_release(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  this_obj,
                                 KOS_OBJ_ID  args_obj)
 {
-    const KOS_MUTEX mutex_obj = (KOS_MUTEX)KOS_object_get_private(this_obj, &mutex_priv_class);
+    KOS_MUTEX_PRIV *const mutex_priv = (KOS_MUTEX_PRIV *)KOS_object_get_private(this_obj, &mutex_priv_class);
 
-    if (mutex_obj)
-        kos_unlock_mutex(mutex_obj);
+    /* Only the thread which holds the mutex can unlock it */
+    if (mutex_priv && KOS_atomic_read_relaxed_ptr(mutex_priv->owner) == (void *)ctx) {
+
+        KOS_atomic_write_relaxed_ptr(mutex_priv->owner, (void *)KOS_NULL);
+
+        kos_unlock_mutex(mutex_priv->mutex);
+    }
 
     return this_obj;
 }
-- 
2.43.0


From 6f86e9a5a337de7fc303fd7f1774dcedb82c13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:41 +0000
Subject: [PATCH 15/67] fix: assertion failure when a constructor invoked via
 apply throws

---
 core/kos_vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 1ae70ec..35d7cfb 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -3424,7 +3424,7 @@ static KOS_OBJ_ID execute(KOS_CONTEXT ctx) /* lgtm [cpp/use-of-goto] */
                         if (IS_BAD_PTR(ret.o))
                             error = KOS_ERROR_EXCEPTION;
                         else {
-                            assert((state != KOS_CTOR) || (ret.o == this_.o));
+                            assert((state != KOS_CTOR) || IS_BAD_PTR(ret.o) || (ret.o == this_.o));
                         }
 #else
                         /* TODO to handle TAIL_CALL, pop previous frame before prepare_call (?) */
@@ -3873,7 +3873,7 @@ KOS_OBJ_ID kos_call_function(KOS_CONTEXT            ctx,
             assert(ctx->local_list == &func);
 
             assert(IS_BAD_PTR(ret.o) || GET_OBJ_TYPE(ret.o) <= OBJ_LAST_TYPE);
-            assert((state != KOS_CTOR) || (ret.o == this_.o));
+            assert((state != KOS_CTOR) || IS_BAD_PTR(ret.o) || (ret.o == this_.o));
         }
 
         finish_call(ctx, get_current_stack_frame(ctx),
-- 
2.43.0


From e416475c569d5909addb63eef48e42a60d11ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:41 +0000
Subject: [PATCH 16/67] fix: raise an exception if memory runs out while
 parsing a regular expression

---
 modules/kos_mod_re.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index e0a5e5a..1d2b198 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1368,6 +1368,11 @@ static int parse_re(KOS_CONTEXT ctx, KOS_OBJ_ID regex_str, KOS_OBJ_ID regex)
     KOS_object_set_private_ptr(regex, re);
 
 cleanup:
+    if (error == KOS_ERROR_OUT_OF_MEMORY) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        error = KOS_ERROR_EXCEPTION;
+    }
+
     KOS_vector_destroy(&re_ctx.class_data);
     KOS_vector_destroy(&re_ctx.class_descs);
     KOS_vector_destroy(&re_ctx.buf);
-- 
2.43.0


From 94bcdf1aa611eddac631c50339db4b325ad83645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:41 +0000
Subject: [PATCH 17/67] fix: unregister modules which failed to load or
 initialize

---
 core/kos_module.c | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 core/kos_object.c | 26 ++++++++++++++++----------
 2 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index eb88e07..0177c27 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -1501,6 +1501,45 @@ static KOS_OBJ_ID import_module(KOS_CONTEXT ctx,
                                 int        *out_already_loaded,
                                 int        *out_module_idx);
 
+/* Unregisters a module which could not be loaded or initialized, so that a
+ * subsequent import does not find a module which is not fully initialized. */
+static void discard_failed_module(KOS_CONTEXT ctx,
+                                  KOS_OBJ_ID  module_name_obj,
+                                  int         module_idx)
+{
+    KOS_INSTANCE *const inst = ctx->inst;
+    KOS_LOCAL           module_name;
+    KOS_LOCAL           exception;
+    KOS_OBJ_ID          idx_obj;
+
+    KOS_init_locals(ctx, &module_name, &exception, kos_end_locals);
+
+    module_name.o = module_name_obj;
+
+    if (KOS_is_exception_pending(ctx)) {
+        exception.o = KOS_get_exception(ctx);
+        KOS_clear_exception(ctx);
+    }
+
+    idx_obj = KOS_get_property_shallow(ctx, inst->modules.module_names, module_name.o);
+
+    if ( ! IS_BAD_PTR(idx_obj) && IS_SMALL_INT(idx_obj) && (int)GET_SMALL_INT(idx_obj) == module_idx)
+        (void)KOS_delete_property(ctx, inst->modules.module_names, module_name.o);
+    KOS_clear_exception(ctx);
+
+    /* Reclaim the index if possible, this is important for the base module */
+    if (KOS_get_array_size(inst->modules.modules) == (uint32_t)module_idx + 1U)
+        (void)KOS_array_resize(ctx, inst->modules.modules, (uint32_t)module_idx);
+    else
+        (void)KOS_array_write(ctx, inst->modules.modules, module_idx, KOS_VOID);
+    KOS_clear_exception(ctx);
+
+    if ( ! IS_BAD_PTR(exception.o))
+        KOS_raise_exception(ctx, exception.o);
+
+    KOS_destroy_top_locals(ctx, &module_name, &exception);
+}
+
 static int load_base_module(KOS_CONTEXT ctx,
                             const char *module_name,
                             unsigned    name_size)
@@ -1524,6 +1563,7 @@ static int load_base_module(KOS_CONTEXT ctx,
 
     if (IS_BAD_PTR(KOS_run_module(ctx, base_obj))) {
         assert(KOS_is_exception_pending(ctx));
+        discard_failed_module(ctx, OBJPTR(MODULE, base_obj)->name, base_idx);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
@@ -1580,6 +1620,7 @@ static KOS_OBJ_ID import_module(KOS_CONTEXT ctx,
 
     int                   error              = KOS_SUCCESS;
     int                   module_idx         = -1;
+    int                   allocated_idx      = -1;
     int                   chain_init         = 0;
     int                   source_found       = 0;
     KOS_LOCAL             actual_module_name;
@@ -1700,6 +1741,7 @@ static KOS_OBJ_ID import_module(KOS_CONTEXT ctx,
     /* Allocate module object and reserve module index */
     module.o = alloc_module(ctx, actual_module_name.o, &module_idx);
     TRY_OBJID(module.o);
+    allocated_idx = module_idx;
     OBJPTR(MODULE, module.o)->path = module_path.o;
 
     /* Load module file */
@@ -1752,6 +1794,9 @@ cleanup:
     if (chain_init)
         inst->modules.load_chain = loading.next;
 
+    if (error && allocated_idx >= 0)
+        discard_failed_module(ctx, actual_module_name.o, allocated_idx);
+
     module.o = KOS_destroy_top_locals(ctx, &actual_module_name, &module);
 
     KOS_unload_file(&file_buf);
@@ -1810,6 +1855,7 @@ int kos_comp_import_module(void       *vframe,
 
         if (IS_BAD_PTR(ret)) {
             assert(KOS_is_exception_pending(ctx));
+            discard_failed_module(ctx, OBJPTR(MODULE, module_obj)->name, *module_idx);
             return KOS_ERROR_EXCEPTION;
         }
     }
diff --git a/core/kos_object.c b/core/kos_object.c
index b25b76f..baa95e7 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -910,23 +910,29 @@ int KOS_set_builtin_dynamic_property(KOS_CONTEXT          ctx,
                                      KOS_FUNCTION_HANDLER getter,
                                      KOS_FUNCTION_HANDLER setter)
 {
-    int        error = KOS_SUCCESS;
-    KOS_OBJ_ID dyn_prop;
-    KOS_LOCAL  obj;
-    KOS_LOCAL  prop;
+    int       error = KOS_ERROR_EXCEPTION;
+    KOS_LOCAL dyn_prop;
+    KOS_LOCAL obj;
+    KOS_LOCAL prop;
 
+    KOS_init_local(     ctx, &dyn_prop);
     KOS_init_local_with(ctx, &obj,  obj_id);
     KOS_init_local_with(ctx, &prop, prop_obj);
     assert( ! kos_is_heap_object(module_obj));
 
-    dyn_prop = new_builtin_dynamic_prop(ctx, module_obj, prop.o, getter, setter);
+    dyn_prop.o = new_builtin_dynamic_prop(ctx, module_obj, prop.o, getter, setter);
 
-    if ( ! IS_BAD_PTR(dyn_prop))
-        error = KOS_set_property(ctx, obj.o, prop.o, dyn_prop);
-    else
-        error = KOS_ERROR_EXCEPTION;
+    if ( ! IS_BAD_PTR(dyn_prop.o)) {
+        /* The property may already exist if initialization of the module failed
+         * earlier and is being repeated.  Setting an existing dynamic property
+         * would attempt to invoke its setter, so delete the property first. */
+        error = KOS_delete_property(ctx, obj.o, prop.o);
+
+        if ( ! error)
+            error = KOS_set_property(ctx, obj.o, prop.o, dyn_prop.o);
+    }
 
-    KOS_destroy_top_locals(ctx, &prop, &obj);
+    KOS_destroy_top_locals(ctx, &prop, &dyn_prop);
 
     return error;
 }
-- 
2.43.0


From c68360ef8bbd5c8a26faa64968cc227c0835ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:34 +0000
Subject: [PATCH 18/67] fix: do not leak a mark group when memory runs out
 during marking

---
 core/kos_heap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 969b26f..14917de 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1615,6 +1615,9 @@ static int perform_gray_to_black_marking(KOS_MARK_CONTEXT       *mark_ctx,
 
         free_mark_group(mark_ctx, group);
 
+        if (error)
+            break;
+
         group = get_next_scheduled_mark_group(mark_ctx);
     }
 
-- 
2.43.0


From 87cfffc33ccc8e08d88a090be8a0664c5bb5c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:46 +0000
Subject: [PATCH 19/67] fix: do not let an unwrapped exception through when
 memory runs out

---
 core/kos_stack.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/kos_stack.c b/core/kos_stack.c
index 5a0c965..88f4415 100644
--- a/core/kos_stack.c
+++ b/core/kos_stack.c
@@ -629,7 +629,13 @@ void kos_wrap_exception(KOS_CONTEXT ctx)
     TRY(walk_stack(ctx, dump_stack, &dump_ctx));
 
 cleanup:
-    ctx->exception = partial_wrap ? exception.o : thrown_object.o;
+    /* If the thrown object could not be wrapped, keep the out of memory exception
+     * which was raised above.  The bare object must not be let through, because
+     * it would not be recognized by the code which handles it. */
+    if (partial_wrap)
+        ctx->exception = exception.o;
+    else if (IS_BAD_PTR(ctx->exception))
+        ctx->exception = thrown_object.o;
 
     KOS_destroy_top_locals(ctx, &exception, &dump_ctx.backtrace);
 }
-- 
2.43.0


From 2ad653c686ff8f348008b802e7fa8ef88fb0aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 20/67] fix: treat prototypes of Ctrl-C and panic exceptions as
 GC roots

---
 core/kos_heap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 14917de..2209e82 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1861,6 +1861,8 @@ static int mark_roots(KOS_CONTEXT ctx, KOS_MARK_CONTEXT *mark_ctx)
     TRY(mark_object_black(mark_ctx, inst->prototypes.generator_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.exception_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.generator_end_proto));
+    TRY(mark_object_black(mark_ctx, inst->prototypes.panic_proto));
+    TRY(mark_object_black(mark_ctx, inst->prototypes.ctrl_c_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.thread_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.module_proto));
 
@@ -2483,6 +2485,8 @@ static void update_after_evacuation(KOS_CONTEXT ctx)
     update_child_ptr(&inst->prototypes.generator_proto);
     update_child_ptr(&inst->prototypes.exception_proto);
     update_child_ptr(&inst->prototypes.generator_end_proto);
+    update_child_ptr(&inst->prototypes.panic_proto);
+    update_child_ptr(&inst->prototypes.ctrl_c_proto);
     update_child_ptr(&inst->prototypes.thread_proto);
     update_child_ptr(&inst->prototypes.module_proto);
 
-- 
2.43.0


From 56d1e7eb62955ad8894fcf02aea3b67ae7a69340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:14 +0000
Subject: [PATCH 21/67] fix: allow hooking Ctrl-C after a failure and unhook it
 from destroyed instances

---
 core/kos_instance.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/kos_instance.c b/core/kos_instance.c
index 2116d73..9cc9f8a 100644
--- a/core/kos_instance.c
+++ b/core/kos_instance.c
@@ -483,6 +483,9 @@ void KOS_instance_destroy(KOS_INSTANCE *inst)
         fprintf(stderr, "Out of memory\n");
     }
 
+    /* Signal handler must not touch the instance which is being destroyed */
+    KOS_unhook_ctrl_c(ctx);
+
     KOS_vector_init(&finalizers);
 
     for (i = 0; i < num_modules; i++) {
@@ -1324,6 +1327,10 @@ static void instance_ctrlc_signal_handler(int sig)
 {
     KOS_INSTANCE *const instance = (KOS_INSTANCE *)KOS_atomic_read_relaxed_ptr(ctrl_c.instance);
 
+    /* The signal could have been delivered while another thread was unhooking it */
+    if ( ! instance)
+        return;
+
     kos_set_global_event(&instance->threads.main_thread, KOS_EVENT_CTRL_C);
 }
 
@@ -1336,6 +1343,7 @@ int KOS_hook_ctrl_c(KOS_CONTEXT ctx)
 
     if (set_signal(SIGINT, instance_ctrlc_signal_handler, &ctrl_c.old_handler)) {
         KOS_raise_errno(ctx, "signal");
+        KOS_atomic_write_release_ptr(ctrl_c.instance, (KOS_INSTANCE *)KOS_NULL);
         return KOS_ERROR_EXCEPTION;
     }
 
-- 
2.43.0


From 1c7aec58f44cddee1861169595ba12e8929535d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:27 +0000
Subject: [PATCH 22/67] fix: do not deadlock when Ctrl-C interrupts a thread
 which holds the context list

---
 core/kos_buffer.c           |  6 ++--
 core/kos_heap.c             | 19 +++++++-----
 core/kos_instance.c         | 62 ++++++++++++++++++++++++++++---------
 core/kos_threads_internal.h | 13 ++++++++
 4 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 7b8358c..1064459 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -9,6 +9,7 @@
 #include "kos_math.h"
 #include "kos_misc.h"
 #include "kos_object_internal.h"
+#include "kos_threads_internal.h"
 #include <string.h>
 
 KOS_DECLARE_STATIC_CONST_STRING(str_err_empty,            "cannot modify empty buffer");
@@ -38,6 +39,7 @@ static KOS_BUFFER_STORAGE *alloc_buffer(KOS_CONTEXT ctx, unsigned capacity)
         static int            init = 0;
         uint64_t             *buf = (uint64_t *)&data->buf[0];
         uint64_t             *end = (uint64_t *)((intptr_t)buf + capacity);
+        KOS_SAVED_SIGNALS     saved_signals;
 
         assert(kos_get_object_type(data->header) == OBJ_BUFFER_STORAGE);
 
@@ -48,7 +50,7 @@ static KOS_BUFFER_STORAGE *alloc_buffer(KOS_CONTEXT ctx, unsigned capacity)
 
         /* Cheat, reuse ctx_mutex to ensure the RNG is not banged from
          * multiple threads. */
-        kos_lock_mutex(ctx->inst->threads.ctx_mutex);
+        kos_lock_contexts(ctx->inst, &saved_signals);
 
         while (((intptr_t)buf & 7) && buf < end) {
             *(uint8_t *)buf = (uint8_t)kos_rng_random(&rng);
@@ -58,7 +60,7 @@ static KOS_BUFFER_STORAGE *alloc_buffer(KOS_CONTEXT ctx, unsigned capacity)
         while (buf + 1 <= end)
             *(buf++) = kos_rng_random(&rng);
 
-        kos_unlock_mutex(ctx->inst->threads.ctx_mutex);
+        kos_unlock_contexts(ctx->inst, &saved_signals);
     }
 #endif
 
diff --git a/core/kos_heap.c b/core/kos_heap.c
index 2209e82..0be12c7 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1238,10 +1238,11 @@ static void stop_the_world(KOS_INSTANCE *inst)
 
     for (;;) {
 
-        KOS_CONTEXT ctx         = &inst->threads.main_thread;
-        uint32_t    num_to_stop = 0U;
+        KOS_CONTEXT       ctx         = &inst->threads.main_thread;
+        uint32_t          num_to_stop = 0U;
+        KOS_SAVED_SIGNALS saved_signals;
 
-        kos_lock_mutex(inst->threads.ctx_mutex);
+        kos_lock_contexts(inst, &saved_signals);
 
         while (ctx) {
 
@@ -1256,7 +1257,7 @@ static void stop_the_world(KOS_INSTANCE *inst)
             ctx = ctx->next;
         }
 
-        kos_unlock_mutex(inst->threads.ctx_mutex);
+        kos_unlock_contexts(inst, &saved_signals);
 
         heap->threads_to_stop = num_to_stop;
 
@@ -1847,6 +1848,7 @@ static int mark_roots(KOS_CONTEXT ctx, KOS_MARK_CONTEXT *mark_ctx)
 
     int                 error = KOS_SUCCESS;
     KOS_INSTANCE *const inst  = ctx->inst;
+    KOS_SAVED_SIGNALS   saved_signals;
 
     TRY(mark_object_black(mark_ctx, inst->prototypes.object_proto));
     TRY(mark_object_black(mark_ctx, inst->prototypes.number_proto));
@@ -1876,7 +1878,7 @@ static int mark_roots(KOS_CONTEXT ctx, KOS_MARK_CONTEXT *mark_ctx)
 
     TRY(mark_object_black(mark_ctx, inst->args));
 
-    kos_lock_mutex(inst->threads.ctx_mutex);
+    kos_lock_contexts(inst, &saved_signals);
 
     ctx = &inst->threads.main_thread;
 
@@ -1886,7 +1888,7 @@ static int mark_roots(KOS_CONTEXT ctx, KOS_MARK_CONTEXT *mark_ctx)
             break;
     }
 
-    kos_unlock_mutex(inst->threads.ctx_mutex);
+    kos_unlock_contexts(inst, &saved_signals);
 
 cleanup:
     return error;
@@ -2458,6 +2460,7 @@ static void update_after_evacuation(KOS_CONTEXT ctx)
 
     KOS_INSTANCE *const inst = ctx->inst;
     KOS_HEAP           *heap = &inst->heap;
+    KOS_SAVED_SIGNALS   saved_signals;
 
     assert(heap->walk_threads == 0);
     assert(KOS_atomic_read_relaxed_ptr(heap->walk_pages) == 0);
@@ -2470,7 +2473,7 @@ static void update_after_evacuation(KOS_CONTEXT ctx)
 
     /* Update object pointers in instance */
 
-    kos_lock_mutex(inst->threads.ctx_mutex);
+    kos_lock_contexts(inst, &saved_signals);
 
     update_child_ptr(&inst->prototypes.object_proto);
     update_child_ptr(&inst->prototypes.number_proto);
@@ -2523,7 +2526,7 @@ static void update_after_evacuation(KOS_CONTEXT ctx)
         ctx = ctx->next;
     }
 
-    kos_unlock_mutex(inst->threads.ctx_mutex);
+    kos_unlock_contexts(inst, &saved_signals);
 }
 
 static uint32_t get_num_slots_used(KOS_PAGE *page, uint32_t num_allocated)
diff --git a/core/kos_instance.c b/core/kos_instance.c
index 9cc9f8a..9a48e48 100644
--- a/core/kos_instance.c
+++ b/core/kos_instance.c
@@ -144,16 +144,43 @@ cleanup:
     return error;
 }
 
+void kos_lock_contexts(KOS_INSTANCE *inst, KOS_SAVED_SIGNALS *saved_signals)
+{
+#if defined(_WIN32) || (defined(CONFIG_THREADS) && (CONFIG_THREADS == 0))
+    *saved_signals = 0;
+#else
+    sigset_t signals;
+
+    sigemptyset(&signals);
+    sigaddset(&signals, SIGINT);
+
+    pthread_sigmask(SIG_BLOCK, &signals, saved_signals);
+#endif
+
+    kos_lock_mutex(inst->threads.ctx_mutex);
+}
+
+void kos_unlock_contexts(KOS_INSTANCE *inst, const KOS_SAVED_SIGNALS *saved_signals)
+{
+    kos_unlock_mutex(inst->threads.ctx_mutex);
+
+#if ! defined(_WIN32) && ( ! defined(CONFIG_THREADS) || (CONFIG_THREADS != 0))
+    pthread_sigmask(SIG_SETMASK, saved_signals, KOS_NULL);
+#endif
+}
+
 static void unregister_thread(KOS_INSTANCE *inst,
                               KOS_CONTEXT   ctx)
 {
+    KOS_SAVED_SIGNALS saved_signals;
+
     assert(ctx != &inst->threads.main_thread);
 
     KOS_suspend_context(ctx);
 
     kos_tls_set(inst->threads.thread_key, KOS_NULL);
 
-    kos_lock_mutex(inst->threads.ctx_mutex);
+    kos_lock_contexts(inst, &saved_signals);
 
     if (ctx->prev)
         ctx->prev->next = ctx->next;
@@ -161,7 +188,7 @@ static void unregister_thread(KOS_INSTANCE *inst,
     if (ctx->next)
         ctx->next->prev = ctx->prev;
 
-    kos_unlock_mutex(inst->threads.ctx_mutex);
+    kos_unlock_contexts(inst, &saved_signals);
 }
 
 int KOS_instance_register_thread(KOS_INSTANCE *inst,
@@ -179,19 +206,22 @@ int KOS_instance_register_thread(KOS_INSTANCE *inst,
     }
     error = KOS_ERROR_EXCEPTION;
 #else
+    {
+        KOS_SAVED_SIGNALS saved_signals;
 
-    kos_lock_mutex(inst->threads.ctx_mutex);
+        kos_lock_contexts(inst, &saved_signals);
 
-    ctx->prev                      = &inst->threads.main_thread;
-    ctx->next                      = inst->threads.main_thread.next;
-    inst->threads.main_thread.next = ctx;
-    if (ctx->next)
-        ctx->next->prev            = ctx;
+        ctx->prev                      = &inst->threads.main_thread;
+        ctx->next                      = inst->threads.main_thread.next;
+        inst->threads.main_thread.next = ctx;
+        if (ctx->next)
+            ctx->next->prev            = ctx;
 
-    KOS_atomic_write_relaxed_u32(ctx->event_flags,
-            KOS_atomic_read_relaxed_u32(inst->threads.main_thread.event_flags));
+        KOS_atomic_write_relaxed_u32(ctx->event_flags,
+                KOS_atomic_read_relaxed_u32(inst->threads.main_thread.event_flags));
 
-    kos_unlock_mutex(inst->threads.ctx_mutex);
+        kos_unlock_contexts(inst, &saved_signals);
+    }
 
     error = register_thread(inst, ctx);
 
@@ -1214,8 +1244,9 @@ void kos_set_global_event(KOS_CONTEXT ctx, enum KOS_GLOBAL_EVENT_E event)
 {
     KOS_INSTANCE* const inst = ctx->inst;
     KOS_CONTEXT         walk_ctx;
+    KOS_SAVED_SIGNALS   saved_signals;
 
-    kos_lock_mutex(inst->threads.ctx_mutex);
+    kos_lock_contexts(inst, &saved_signals);
 
     walk_ctx = &inst->threads.main_thread;
 
@@ -1227,15 +1258,16 @@ void kos_set_global_event(KOS_CONTEXT ctx, enum KOS_GLOBAL_EVENT_E event)
         } while ( ! KOS_atomic_cas_weak_u32(walk_ctx->event_flags, flags, flags | event));
     }
 
-    kos_unlock_mutex(inst->threads.ctx_mutex);
+    kos_unlock_contexts(inst, &saved_signals);
 }
 
 void kos_clear_global_event(KOS_CONTEXT ctx, enum KOS_GLOBAL_EVENT_E event)
 {
     KOS_INSTANCE* const inst = ctx->inst;
     KOS_CONTEXT         walk_ctx;
+    KOS_SAVED_SIGNALS   saved_signals;
 
-    kos_lock_mutex(inst->threads.ctx_mutex);
+    kos_lock_contexts(inst, &saved_signals);
 
     walk_ctx = &inst->threads.main_thread;
 
@@ -1247,7 +1279,7 @@ void kos_clear_global_event(KOS_CONTEXT ctx, enum KOS_GLOBAL_EVENT_E event)
         } while ( ! KOS_atomic_cas_weak_u32(walk_ctx->event_flags, flags, flags & ~event));
     }
 
-    kos_unlock_mutex(inst->threads.ctx_mutex);
+    kos_unlock_contexts(inst, &saved_signals);
 }
 
 int KOS_handle_global_event(KOS_CONTEXT ctx)
diff --git a/core/kos_threads_internal.h b/core/kos_threads_internal.h
index 799d28a..54e21cf 100644
--- a/core/kos_threads_internal.h
+++ b/core/kos_threads_internal.h
@@ -16,6 +16,7 @@
 #else
 #   include <pthread.h>
 #   include <sched.h>
+#   include <signal.h>
 #endif
 
 struct KOS_THREAD_S {
@@ -48,6 +49,18 @@ enum KOS_THREAD_RELEASE_ACTION_E {
     KOS_JOIN_ALL
 };
 
+/* The list of contexts is also walked by the Ctrl-C signal handler, so signals
+ * must not be delivered to a thread which is holding the list's mutex. */
+#if defined(_WIN32) || (defined(CONFIG_THREADS) && (CONFIG_THREADS == 0))
+typedef int KOS_SAVED_SIGNALS;
+#else
+typedef sigset_t KOS_SAVED_SIGNALS;
+#endif
+
+void kos_lock_contexts(KOS_INSTANCE *inst, KOS_SAVED_SIGNALS *saved_signals);
+
+void kos_unlock_contexts(KOS_INSTANCE *inst, const KOS_SAVED_SIGNALS *saved_signals);
+
 int kos_join_finished_threads(KOS_CONTEXT                      ctx,
                               enum KOS_THREAD_RELEASE_ACTION_E action);
 
-- 
2.43.0


From 627c8b7416c3d707dd4630c0bab240142b6b72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 23/67] fix: restore the state of a generator whose call fails
 for lack of memory or stack

---
 core/kos_vm.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 35d7cfb..c2bf03b 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1112,12 +1112,11 @@ static int prepare_call(KOS_CONTEXT        ctx,
     }
 
 cleanup:
-    if (error && (stack_obj != ctx->stack || regs_idx != ctx->regs_idx)) {
+    if (error && (stack_obj != ctx->stack || regs_idx != ctx->regs_idx))
         kos_stack_pop(ctx);
 
-        if (state_set)
-            KOS_atomic_write_release_u32(OBJPTR(FUNCTION, func.o)->state, state);
-    }
+    if (error && state_set)
+        KOS_atomic_write_release_u32(OBJPTR(FUNCTION, func.o)->state, state);
 
     *args_obj = KOS_destroy_top_locals(ctx, &func, &args);
 
-- 
2.43.0


From e8f61a96b93b7e66862e98fbec17a66a6b5b56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 24/67] fix: do not lose a generator's value when another
 thread calls it next

---
 core/kos_vm.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index c2bf03b..2fbcb70 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1123,9 +1123,11 @@ cleanup:
     return error;
 }
 
-static void finish_call(KOS_CONTEXT        ctx,
-                        KOS_STACK_FRAME   *stack_frame,
-                        KOS_BYTECODE_INSTR instr)
+/* Returns the state to which the function was set.  Once the state has been set,
+ * another thread can call the generator and change the generator's state. */
+static KOS_FUNCTION_STATE finish_call(KOS_CONTEXT        ctx,
+                                      KOS_STACK_FRAME   *stack_frame,
+                                      KOS_BYTECODE_INSTR instr)
 {
     KOS_OBJ_ID         func_obj = get_current_func(stack_frame);
     KOS_FUNCTION_STATE state    = get_func_state(func_obj);
@@ -1159,7 +1161,9 @@ static void finish_call(KOS_CONTEXT        ctx,
 
     kos_stack_pop(ctx);
 
-    KOS_atomic_write_relaxed_u32(OBJPTR(FUNCTION, func_obj)->state, state);
+    KOS_atomic_write_release_u32(OBJPTR(FUNCTION, func_obj)->state, state);
+
+    return state;
 }
 
 static KOS_OBJ_ID read_buffer(KOS_CONTEXT ctx, KOS_OBJ_ID objptr, int idx)
@@ -3662,9 +3666,9 @@ handle_return:
                 PROF_ZONE_N(INSTR, "return")
 
                 KOS_OBJ_ID         num_regs_obj;
-                const KOS_OBJ_ID   func_obj = get_current_func(stack_frame);
                 size_t             size;
                 KOS_BYTECODE_INSTR call_instr;
+                KOS_FUNCTION_STATE func_state;
 
                 assert( ! error || KOS_is_exception_pending(ctx));
                 assert(error || ! KOS_is_exception_pending(ctx));
@@ -3686,7 +3690,7 @@ handle_return:
 
                 set_closure_stack_size(ctx, stack, stack_frame);
 
-                finish_call(ctx, stack_frame, call_instr);
+                func_state = finish_call(ctx, stack_frame, call_instr);
 
                 if (KOS_is_exception_pending(ctx))
                     error = KOS_ERROR_EXCEPTION;
@@ -3706,7 +3710,7 @@ handle_return:
 
                 if (error &&
                     (call_instr == INSTR_NEXT_JUMP) &&
-                    (get_func_state(func_obj) == KOS_GEN_DONE) &&
+                    (func_state == KOS_GEN_DONE) &&
                     is_generator_end_exception(ctx)) {
 
                     KOS_clear_exception(ctx);
@@ -3725,7 +3729,7 @@ handle_return:
 
                     case INSTR_NEXT_JUMP: {
                         const KOS_IMM imm = kos_load_simm(bytecode + 3);
-                        if (get_func_state(func_obj) != KOS_GEN_DONE)
+                        if (func_state != KOS_GEN_DONE)
                             bytecode += imm.value.sv;
                         else
                             out = KOS_VOID;
@@ -3735,7 +3739,7 @@ handle_return:
                     }
 
                     case INSTR_NEXT:
-                        if (get_func_state(func_obj) == KOS_GEN_DONE) {
+                        if (func_state == KOS_GEN_DONE) {
                             if (rdest != KOS_NO_REG) {
                                 assert(rdest < num_regs);
                                 write_reg(stack_frame, rdest, KOS_VOID);
@@ -3803,6 +3807,7 @@ KOS_OBJ_ID kos_call_function(KOS_CONTEXT            ctx,
     int                error  = KOS_SUCCESS;
     KOS_TYPE           type;
     KOS_FUNCTION_STATE state;
+    KOS_FUNCTION_STATE end_state;
     KOS_LOCAL          func;
     KOS_LOCAL          this_;
     KOS_LOCAL          args;
@@ -3875,10 +3880,10 @@ KOS_OBJ_ID kos_call_function(KOS_CONTEXT            ctx,
             assert((state != KOS_CTOR) || IS_BAD_PTR(ret.o) || (ret.o == this_.o));
         }
 
-        finish_call(ctx, get_current_stack_frame(ctx),
-                    call_flavor == KOS_CALL_GENERATOR ? INSTR_NEXT_JUMP : INSTR_CALL);
+        end_state = finish_call(ctx, get_current_stack_frame(ctx),
+                                call_flavor == KOS_CALL_GENERATOR ? INSTR_NEXT_JUMP : INSTR_CALL);
 
-        if ((state > KOS_GEN_INIT) && (get_func_state(func.o) == KOS_GEN_DONE)) {
+        if ((state > KOS_GEN_INIT) && (end_state == KOS_GEN_DONE)) {
             if (call_flavor == KOS_CALL_GENERATOR &&
                 KOS_is_exception_pending(ctx) &&
                 is_generator_end_exception(ctx)) {
-- 
2.43.0


From 9475e957629ce1f45876bf2849196bc49951d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:43 +0000
Subject: [PATCH 25/67] fix: restore the right exception handler when break,
 continue or fallthrough leaves a try

---
 core/kos_compiler.c | 119 +++++++++++++++++++++++++++++++++++++-------
 core/kos_compiler.h |   4 +-
 2 files changed, 104 insertions(+), 19 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 6fd8c4f..df70135 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2148,16 +2148,56 @@ static void finish_fallthrough(KOS_COMP_UNIT *program)
     }
 }
 
-/* Saves last try scope before the loop, used for restoring catch offset */
-static KOS_SCOPE *push_try_scope(KOS_COMP_UNIT *program)
+typedef struct KOS_SAVED_TRY_SCOPES_S {
+    KOS_SCOPE *break_try_scope;
+    KOS_SCOPE *continue_try_scope;
+    KOS_SCOPE *fallthrough_try_scope;
+} KOS_SAVED_TRY_SCOPES;
+
+/* Saves the try scope active before a loop or before a switch.  The catch offset of this
+ * scope is restored by break, continue and fallthrough statements. */
+static KOS_SAVED_TRY_SCOPES push_try_scope(KOS_COMP_UNIT *program, KOS_NODE_TYPE node_type)
 {
-    KOS_SCOPE *prev_try_scope = program->cur_frame->last_try_scope;
-    KOS_SCOPE *scope          = find_try_scope(program->scope_stack);
+    KOS_FRAME *const     frame = program->cur_frame;
+    KOS_SCOPE *const     scope = find_try_scope(program->scope_stack);
+    KOS_SAVED_TRY_SCOPES saved;
+
+    saved.break_try_scope       = frame->break_try_scope;
+    saved.continue_try_scope    = frame->continue_try_scope;
+    saved.fallthrough_try_scope = frame->fallthrough_try_scope;
 
-    if (scope)
-        program->cur_frame->last_try_scope = scope;
+    frame->break_try_scope = scope;
 
-    return prev_try_scope;
+    if (node_type == NT_SWITCH)
+        frame->fallthrough_try_scope = scope;
+    else
+        frame->continue_try_scope = scope;
+
+    return saved;
+}
+
+static void pop_try_scope(KOS_COMP_UNIT *program, const KOS_SAVED_TRY_SCOPES *saved)
+{
+    KOS_FRAME *const frame = program->cur_frame;
+
+    frame->break_try_scope       = saved->break_try_scope;
+    frame->continue_try_scope    = saved->continue_try_scope;
+    frame->fallthrough_try_scope = saved->fallthrough_try_scope;
+}
+
+/* Finds the try scope active in the place to which a break, continue or fallthrough jumps */
+static KOS_SCOPE *get_jump_try_scope(KOS_COMP_UNIT *program, KOS_NODE_TYPE node_type)
+{
+    const KOS_FRAME *const frame = program->cur_frame;
+
+    switch (node_type) {
+        case NT_BREAK:    return frame->break_try_scope;
+        case NT_CONTINUE: return frame->continue_try_scope;
+        default:          break;
+    }
+
+    assert(node_type == NT_FALLTHROUGH);
+    return frame->fallthrough_try_scope;
 }
 
 static int repeat(KOS_COMP_UNIT      *program,
@@ -2168,7 +2208,7 @@ static int repeat(KOS_COMP_UNIT      *program,
     const int       loop_start_offs = program->cur_offs;
     KOS_REG        *reg             = KOS_NULL;
     KOS_BREAK_OFFS *old_break_offs  = program->cur_frame->break_offs;
-    KOS_SCOPE      *prev_try_scope  = push_try_scope(program);
+    KOS_SAVED_TRY_SCOPES prev_try_scope = push_try_scope(program, (KOS_NODE_TYPE)node->type);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2204,7 +2244,7 @@ static int repeat(KOS_COMP_UNIT      *program,
     if (reg)
         free_reg(program, reg);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, &prev_try_scope);
 
 cleanup:
     return error;
@@ -2216,7 +2256,7 @@ static int while_stmt(KOS_COMP_UNIT      *program,
     int                 error          = KOS_SUCCESS;
     const KOS_AST_NODE *cond_node      = node->children;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    KOS_SAVED_TRY_SCOPES prev_try_scope = push_try_scope(program, (KOS_NODE_TYPE)node->type);
 
     assert(cond_node);
 
@@ -2256,7 +2296,7 @@ static int while_stmt(KOS_COMP_UNIT      *program,
         finish_break_continue(program, continue_tgt_offs, old_break_offs);
     }
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, &prev_try_scope);
 
 cleanup:
     return error;
@@ -2453,7 +2493,7 @@ static int for_in(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    KOS_SAVED_TRY_SCOPES prev_try_scope = push_try_scope(program, (KOS_NODE_TYPE)node->type);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2637,7 +2677,7 @@ static int for_in(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, &prev_try_scope);
 
 cleanup:
     return error;
@@ -2656,7 +2696,7 @@ static int for_range(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    KOS_SAVED_TRY_SCOPES prev_try_scope = push_try_scope(program, (KOS_NODE_TYPE)node->type);
     KOS_NODE_TYPE       lhs_type;
     int                 decrement      = 0;
     uint32_t            initial_jump_entry;
@@ -2853,7 +2893,7 @@ static int for_range(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, &prev_try_scope);
 
 cleanup:
     return error;
@@ -2929,18 +2969,52 @@ static int push_break_offs(KOS_COMP_UNIT *program,
     return error;
 }
 
+/* Restores catch offset after a defer section, before a jump which leaves more try scopes */
+static int restore_jump_catch(KOS_COMP_UNIT *program,
+                              KOS_NODE_TYPE  node_type)
+{
+    int              error     = KOS_SUCCESS;
+    KOS_SCOPE *const try_scope = get_jump_try_scope(program, node_type);
+
+    if (try_scope != find_try_scope(program->scope_stack)) {
+
+        /* Create fake scope just for catch refs */
+        KOS_SCOPE *const scope = (KOS_SCOPE *)
+            KOS_mempool_alloc(&program->allocator, sizeof(KOS_SCOPE));
+
+        if ( ! scope)
+            return KOS_ERROR_OUT_OF_MEMORY;
+
+        memset((void *)scope, 0, sizeof(*scope));
+
+        scope->scope_node               = program->scope_stack->scope_node;
+        scope->parent_scope             = program->scope_stack;
+        scope->owning_frame             = program->scope_stack->owning_frame;
+        scope->catch_ref.catch_entry[0] = KOS_NO_JUMP;
+
+        program->scope_stack = scope;
+
+        error = restore_catch(program, try_scope);
+
+        program->scope_stack = scope->parent_scope;
+    }
+
+    return error;
+}
+
 static int break_continue_fallthrough(KOS_COMP_UNIT      *program,
                                       const KOS_AST_NODE *node)
 {
-    int error;
+    int              error;
+    KOS_SCOPE *const try_scope = get_jump_try_scope(program, (KOS_NODE_TYPE)node->type);
 
     TRY(push_break_offs(program, (KOS_NODE_TYPE)node->type));
 
-    if (program->cur_frame->last_try_scope) {
+    if (try_scope != find_try_scope(program->scope_stack)) {
 
         push_scope(program, node);
 
-        TRY(restore_catch(program, program->cur_frame->last_try_scope));
+        TRY(restore_catch(program, try_scope));
 
         pop_scope(program);
     }
@@ -2981,6 +3055,7 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
     uint32_t            final_jump_entry = KOS_NO_JUMP;
     KOS_SWITCH_CASE    *cases            = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs   = program->cur_frame->break_offs;
+    KOS_SAVED_TRY_SCOPES prev_try_scope = push_try_scope(program, (KOS_NODE_TYPE)node->type);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2997,6 +3072,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
         program->cur_frame->break_offs = old_break_offs;
 
+        pop_try_scope(program, &prev_try_scope);
+
         return error;
     }
 
@@ -3027,6 +3104,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
         finish_break_continue(program, -1, old_break_offs);
 
+        pop_try_scope(program, &prev_try_scope);
+
         return error;
     }
 
@@ -3158,6 +3237,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
     finish_break_continue(program, -1, old_break_offs);
 
+    pop_try_scope(program, &prev_try_scope);
+
 cleanup:
     return error;
 }
@@ -3379,6 +3460,8 @@ static int try_stmt(KOS_COMP_UNIT      *program,
 
                 TRY(process_scope(program, defer_node));
 
+                TRY(restore_jump_catch(program, type));
+
                 TRY(push_break_offs(program, type));
 
                 TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
diff --git a/core/kos_compiler.h b/core/kos_compiler.h
index 15458ef..763b4d6 100644
--- a/core/kos_compiler.h
+++ b/core/kos_compiler.h
@@ -115,7 +115,9 @@ typedef struct KOS_FRAME_S {
     const KOS_TOKEN            *fun_token;
     KOS_BREAK_OFFS             *break_offs;
     KOS_RETURN_OFFS            *return_offs;      /* For return statements inside finally clause (defer) */
-    KOS_SCOPE                  *last_try_scope;
+    KOS_SCOPE                  *break_try_scope;       /* Try scopes which are active where break, */
+    KOS_SCOPE                  *continue_try_scope;    /* continue and fallthrough statements jump */
+    KOS_SCOPE                  *fallthrough_try_scope;
     const KOS_TOKEN            *yield_token;
     struct KOS_COMP_FUNCTION_S *constant;         /* The template for the constant object, used with LOAD.CONST */
     int                         num_def_used;     /* Number of used default args, for optimization              */
-- 
2.43.0


From 4c5f883deddbbade27a7b49fe9ff5321ee55030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 26/67] fix: release the local reference when seeking or
 resizing a file fails

---
 modules/kos_mod_io.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 0324bf8..9448af6 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1510,6 +1510,8 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
+    KOS_init_local_with(ctx, &this_, this_obj);
+
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
@@ -1521,8 +1523,6 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
     if (pos < 0)
         whence = SEEK_END;
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1536,9 +1536,9 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
+cleanup:
     this_obj = KOS_destroy_top_local(ctx, &this_);
 
-cleanup:
     release_file(file_holder);
 
     return error ? KOS_BADPTR : this_obj;
@@ -1576,6 +1576,8 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
+    KOS_init_local_with(ctx, &this_, this_obj);
+
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
@@ -1596,8 +1598,6 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
 #undef BAD_SIZE_CHECK
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1662,9 +1662,9 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
+cleanup:
     this_obj = KOS_destroy_top_local(ctx, &this_);
 
-cleanup:
     release_file(file_holder);
 
     return error ? KOS_BADPTR : this_obj;
-- 
2.43.0


From 1514606e4edaad7d3513f543187295d50063ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:36 +0000
Subject: [PATCH 27/67] fix: read lines whose characters are split between two
 reads

---
 modules/io.kos | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/modules/io.kos b/modules/io.kos
index d41eed1..2ee6ab4 100644
--- a/modules/io.kos
+++ b/modules/io.kos
@@ -155,6 +155,30 @@ file.prototype.read = fun(in_size = 0x7FFFFFFFFFFFFFFF, in_buf = void)
     return buf
 }
 
+# Returns the number of bytes at the end of the buffer, which belong to a UTF-8
+# sequence continuing past the end of the buffer
+fun incomplete_utf8_size(buf)
+{
+    var num = 1
+
+    while num <= buf.size && num < 4 {
+        const byte = buf[-num]
+
+        if byte >= 0xC0 {
+            const size = byte >= 0xF0 ? 4 : byte >= 0xE0 ? 3 : 2
+            return size > num ? num : 0
+        }
+
+        if byte < 0x80 {
+            break
+        }
+
+        num += 1
+    }
+
+    return 0
+}
+
 /* @item io file.prototype.read_lines()
  *
  *     file.prototype.read_lines(keep_ends = false, gran = 0x1000)
@@ -181,9 +205,24 @@ file.prototype.read_lines = fun(keep_ends = false, gran = 0x1000)
     var   prev = ""
 
     loop {
-        buf.resize(0)
+        const prev_size = buf.size
+
+        this.read_some(gran, buf)
+
+        const is_end = buf.size == prev_size
 
-        const str = string(this.read_some(gran, buf))
+        # If the last character has not been read entirely, leave it for later
+        const tail = is_end ? 0 : incomplete_utf8_size(buf)
+        const str  = string(tail ? buf.slice(0, -tail) : buf)
+
+        if tail {
+            buf.copy_buffer(0, buf, buf.size - tail)
+        }
+        buf.resize(tail)
+
+        if str == "" && ! is_end {
+            continue
+        }
 
         var pos = 0
 
-- 
2.43.0


From 73e193056108cef2874e2919467359d172bdeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:36 +0000
Subject: [PATCH 28/67] fix: read_line() no longer loses text after a NUL or
 splits lines after CR

---
 modules/kos_mod_io.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 9448af6..a03dcbf 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -694,9 +694,16 @@ cleanup:
     return error ? KOS_BADPTR : this_.o;
 }
 
-static int is_eol(char c)
+/* Returns number of characters stored in the buffer by fgets().  The text read
+ * may contain NUL characters, so strlen() cannot be used for this purpose.
+ * The buffer must be filled with non-zero bytes before the call to fgets(),
+ * so that the last NUL in it is the one which fgets() stored. */
+static int get_fgets_size(const char *buf, int buf_size)
 {
-    return c == '\n' || c == '\r';
+    while (buf_size > 0 && buf[buf_size - 1])
+        --buf_size;
+
+    return buf_size ? buf_size - 1 : 0;
 }
 
 /* @item io file.prototype.read_line()
@@ -763,6 +770,8 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
 
+        memset(buf.buffer + last_size, '\n', (size_t)size_delta);
+
         errno = 0;
 
         ret = fgets(buf.buffer + last_size, size_delta, get_file(file_holder));
@@ -778,12 +787,12 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
                 break;
         }
 
-        num_read = (int)strlen(buf.buffer + last_size);
+        num_read = get_fgets_size(buf.buffer + last_size, size_delta);
 
         last_size += num_read;
     } while (num_read != 0 &&
              num_read+1 == size_delta &&
-             ! is_eol(buf.buffer[last_size-1]));
+             buf.buffer[last_size-1] != '\n');
 
     KOS_resume_context(ctx);
 
-- 
2.43.0


From 632665ca5c310b7fd4eea302888e0cbba4eb8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:36 +0000
Subject: [PATCH 29/67] fix: raise an exception when printing to a file fails

---
 modules/kos_mod_io.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index a03dcbf..524b62f 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -611,8 +611,9 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 {
     KOS_VECTOR       cstr;
     KOS_LOCAL        this_;
-    KOS_FILE_HOLDER *file_holder = KOS_NULL;
-    int              error       = KOS_SUCCESS;
+    KOS_FILE_HOLDER *file_holder  = KOS_NULL;
+    int              stored_errno = 0;
+    int              error        = KOS_SUCCESS;
 
     KOS_init_local_with(ctx, &this_, this_obj);
 
@@ -624,15 +625,23 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
+    errno = 0;
+
     if (cstr.size) {
         cstr.buffer[cstr.size - 1] = '\n';
-        fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder));
+        if (fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder)) < cstr.size)
+            stored_errno = errno ? errno : EIO;
     }
-    else
-        fprintf(get_file(file_holder), "\n");
+    else if (fputc('\n', get_file(file_holder)) == EOF)
+        stored_errno = errno ? errno : EIO;
 
     KOS_resume_context(ctx);
 
+    if (stored_errno) {
+        KOS_raise_errno_value(ctx, "fwrite", stored_errno);
+        error = KOS_ERROR_EXCEPTION;
+    }
+
 cleanup:
     KOS_vector_destroy(&cstr);
 
-- 
2.43.0


From a269cfb9b9801027b2538abcd534388526d78666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:14 +0000
Subject: [PATCH 30/67] fix: do not lose write errors when closing a file, nor
 free it while another thread uses it

---
 modules/kos_mod_io.c | 108 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 28 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 524b62f..5d67464 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -75,42 +75,69 @@ static void fix_path_separators(KOS_VECTOR *buf)
 }
 
 typedef struct KOS_FILE_HOLDER_S {
-    KOS_ATOMIC(FILE *)  file;
-    KOS_ATOMIC(int32_t) ref_count;
-    int                 owner;
+    KOS_ATOMIC(FILE *)   file;
+    KOS_ATOMIC(int32_t)  ref_count; /* References to this structure        */
+    KOS_ATOMIC(int32_t)  use_count; /* Users of the file, including owner  */
+    KOS_ATOMIC(uint32_t) is_open;   /* The owner has not closed the file   */
+    int                  owner;
 } KOS_FILE_HOLDER;
 
+/* The caller must ensure that the holder cannot be freed before this function
+ * returns, e.g. by having access to the object which owns the holder. */
 static int acquire_file(KOS_FILE_HOLDER *file_holder)
 {
-    uint32_t ref_count;
+    uint32_t use_count;
 
     assert(file_holder);
 
     do {
-        ref_count = KOS_atomic_read_relaxed_u32(*(KOS_ATOMIC(uint32_t)*)&file_holder->ref_count);
+        use_count = KOS_atomic_read_relaxed_u32(*(KOS_ATOMIC(uint32_t)*)&file_holder->use_count);
 
-        if ((int32_t)ref_count <= 0)
-            return (int)ref_count;
-    } while ( ! KOS_atomic_cas_weak_u32(*(KOS_ATOMIC(uint32_t)*)&file_holder->ref_count, ref_count, ref_count + 1));
+        if ((int32_t)use_count <= 0)
+            return (int)use_count;
+    } while ( ! KOS_atomic_cas_weak_u32(*(KOS_ATOMIC(uint32_t)*)&file_holder->use_count, use_count, use_count + 1));
 
-    return (int)ref_count;
+    KOS_atomic_add_i32(file_holder->ref_count, 1);
+
+    return (int)use_count;
 }
 
-static void release_file(KOS_FILE_HOLDER *file_holder)
+/* Closes the file if nobody is using it anymore.  Returns errno or 0. */
+static int end_file_use(KOS_FILE_HOLDER *file_holder)
 {
-    if (file_holder) {
-        const int ref_count = KOS_atomic_add_i32(file_holder->ref_count, -1);
+    const int use_count    = KOS_atomic_add_i32(file_holder->use_count, -1);
+    int       stored_errno = 0;
 
-        assert(ref_count >= 1);
+    assert(use_count >= 1);
 
-        if (ref_count == 1) {
-            FILE *const file = (FILE *)KOS_atomic_swap_ptr(file_holder->file, (FILE *)KOS_NULL);
+    if (use_count == 1) {
+        FILE *const file = (FILE *)KOS_atomic_swap_ptr(file_holder->file, (FILE *)KOS_NULL);
 
-            if (file && file_holder->owner)
-                fclose(file);
+        errno = 0;
 
-            KOS_free(file_holder);
-        }
+        if (file && file_holder->owner && fclose(file))
+            stored_errno = errno ? errno : EIO;
+    }
+
+    return stored_errno;
+}
+
+static void free_file_holder(KOS_FILE_HOLDER *file_holder)
+{
+    const int ref_count = KOS_atomic_add_i32(file_holder->ref_count, -1);
+
+    assert(ref_count >= 1);
+
+    if (ref_count == 1)
+        KOS_free(file_holder);
+}
+
+static void release_file(KOS_FILE_HOLDER *file_holder)
+{
+    if (file_holder) {
+        end_file_use(file_holder);
+
+        free_file_holder(file_holder);
     }
 }
 
@@ -123,6 +150,8 @@ static KOS_FILE_HOLDER *make_file_holder(KOS_CONTEXT ctx,
     if (file_holder) {
         file_holder->file      = file;
         file_holder->ref_count = 1;
+        file_holder->use_count = 1;
+        file_holder->is_open   = 1;
         file_holder->owner     = owner;
     }
     else
@@ -152,8 +181,14 @@ static FILE *get_file(KOS_FILE_HOLDER *file_holder)
 static void file_finalize(KOS_CONTEXT ctx,
                           void       *priv)
 {
-    if (priv)
-        release_file((KOS_FILE_HOLDER *)priv);
+    if (priv) {
+        KOS_FILE_HOLDER *const file_holder = (KOS_FILE_HOLDER *)priv;
+
+        if (KOS_atomic_swap_u32(file_holder->is_open, 0U))
+            end_file_use(file_holder);
+
+        free_file_holder(file_holder);
+    }
 }
 
 KOS_DECLARE_PRIVATE_CLASS(file_priv_class);
@@ -513,6 +548,8 @@ static int acquire_file_object(KOS_CONTEXT       ctx,
     *file_holder = (KOS_FILE_HOLDER *)KOS_object_get_private(file_obj, &file_priv_class);
 
     if ( ! *file_holder || (acquire_file(*file_holder) <= 0)) {
+        *file_holder = KOS_NULL;
+
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_file_not_open));
         return KOS_ERROR_EXCEPTION;
     }
@@ -565,27 +602,42 @@ KOS_FILE_HANDLE KOS_io_get_file(KOS_CONTEXT ctx,
  *     file.prototype.close()
  *
  * Closes the file object if it is still opened.
+ *
+ * Throws an exception if outstanding written bytes could not be stored
+ * in the file.  The file is closed nevertheless.
  */
 static KOS_OBJ_ID kos_close(KOS_CONTEXT ctx,
                             KOS_OBJ_ID  this_obj,
                             KOS_OBJ_ID  args_obj)
 {
-    KOS_FILE_HOLDER *closed_holder;
+    KOS_LOCAL        this_;
     KOS_FILE_HOLDER *file_holder;
+    int              stored_errno = 0;
 
     if (GET_OBJ_TYPE(this_obj) != OBJ_OBJECT) {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_file_not_open));
         return KOS_BADPTR;
     }
 
-    closed_holder = make_file_holder(ctx, KOS_NULL, 1);
-    if ( ! closed_holder)
-        return KOS_BADPTR;
+    file_holder = (KOS_FILE_HOLDER *)KOS_object_get_private(this_obj, &file_priv_class);
 
-    file_holder = (KOS_FILE_HOLDER *)KOS_object_swap_private(this_obj, &file_priv_class, closed_holder);
+    if ( ! file_holder || ! KOS_atomic_swap_u32(file_holder->is_open, 0U))
+        return this_obj;
 
-    if (file_holder)
-        release_file(file_holder);
+    KOS_init_local_with(ctx, &this_, this_obj);
+
+    KOS_suspend_context(ctx);
+
+    stored_errno = end_file_use(file_holder);
+
+    KOS_resume_context(ctx);
+
+    this_obj = KOS_destroy_top_local(ctx, &this_);
+
+    if (stored_errno) {
+        KOS_raise_errno_value(ctx, "fclose", stored_errno);
+        return KOS_BADPTR;
+    }
 
     return this_obj;
 }
-- 
2.43.0


From e7f0f5a44eea17ea843e50e2a40af3d2aafa59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:52 +0000
Subject: [PATCH 31/67] fix: reading from a file into a buffer survives failed
 allocation and concurrent resize

---
 modules/kos_mod_io.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 5d67464..0252c8d 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -903,14 +903,16 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     KOS_LOCAL        buf;
     KOS_OBJ_ID       arg;
     int64_t          to_read;
+    KOS_VECTOR       data;
     size_t           num_read;
-    uint8_t         *data;
     uint32_t         offset;
     int              error        = KOS_SUCCESS;
     int              stored_errno = 0;
 
     assert(KOS_get_array_size(args_obj) >= 2);
 
+    KOS_vector_init(&data);
+
     KOS_init_local(     ctx, &buf);
     KOS_init_local_with(ctx, &args, args_obj);
 
@@ -929,7 +931,9 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     if (buf.o == KOS_VOID)
         buf.o = KOS_new_buffer(ctx, 0);
-    else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
+    TRY_OBJID(buf.o);
+
+    if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
     offset = KOS_get_buffer_size(buf.o);
@@ -937,18 +941,24 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     if (to_read > (int64_t)(0xFFFFFFFFU - offset))
         RAISE_EXCEPTION_STR(str_err_too_many_to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + to_read)));
+    /* Make sure there is room for the data before it is read */
+    TRY(KOS_buffer_reserve(ctx, buf.o, (unsigned)(offset + to_read)));
 
-    data = KOS_buffer_data(ctx, buf.o);
+    if ( ! KOS_buffer_data(ctx, buf.o))
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
 
-    if ( ! data)
+    /* Read into a temporary buffer, because when context is suspended, another
+     * thread can change storage of the target buffer object. */
+    if (KOS_vector_resize(&data, (size_t)to_read)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     KOS_suspend_context(ctx);
 
     errno = 0;
 
-    num_read = fread(data + offset, 1, (size_t)to_read, get_file(file_holder));
+    num_read = fread(data.buffer, 1, (size_t)to_read, get_file(file_holder));
 
     if (num_read < (size_t)to_read && ferror(get_file(file_holder)))
         stored_errno = errno;
@@ -957,7 +967,14 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     assert(num_read <= (size_t)to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
+    if (num_read) {
+        uint8_t *const dest = KOS_buffer_make_room(ctx, buf.o, (unsigned)num_read);
+
+        if ( ! dest)
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+
+        memcpy(dest, data.buffer, num_read);
+    }
 
     if (stored_errno) {
         KOS_raise_errno_value(ctx, "fread", stored_errno);
@@ -965,6 +982,8 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     }
 
 cleanup:
+    KOS_vector_destroy(&data);
+
     buf.o = KOS_destroy_top_locals(ctx, &args, &buf);
 
     release_file(file_holder);
-- 
2.43.0


From d67c9b78be6354c66e22d57bd892c7f7448125bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:38 +0000
Subject: [PATCH 32/67] fix: reject buffer capacity which overflows instead of
 corrupting memory

---
 core/kos_buffer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 1064459..4a2f75f 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -173,15 +173,18 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
     KOS_init_local_with(ctx, &obj, obj_id);
     KOS_init_local(ctx, &old_buf);
 
-    new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
-
     if (GET_OBJ_TYPE(obj.o) != OBJ_BUFFER)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_buffer));
     else if (KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER, obj.o)->flags) & KOS_READ_ONLY)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_read_only));
     else if (KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER, obj.o)->flags) & KOS_EXTERNAL_STORAGE)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_external_storage));
+    /* Leave room for the header and for alignment of the storage */
+    else if (new_capacity > 0xFFFFFFFFU - KOS_BUFFER_CAPACITY_ALIGN * 4U)
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_make_room_size));
     else {
+        new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
+
         for (;;) {
             uint32_t capacity;
 
-- 
2.43.0


From 001befc5c32495433197c2cd91ba1281713fd158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:38 +0000
Subject: [PATCH 33/67] fix: writing several values to a file writes each of
 them exactly once

---
 modules/kos_mod_io.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 0252c8d..24dcc5c 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1014,6 +1014,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 {
     KOS_VECTOR       cstr;
     KOS_LOCAL        print_args;
+    KOS_LOCAL        storage;
     KOS_LOCAL        arg;
     KOS_LOCAL        args;
     KOS_LOCAL        this_;
@@ -1024,7 +1025,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
     KOS_vector_init(&cstr);
 
-    KOS_init_locals(ctx, &print_args, &arg, &args, &this_, kos_end_locals);
+    KOS_init_locals(ctx, &print_args, &storage, &arg, &args, &this_, kos_end_locals);
 
     args.o  = args_obj;
     this_.o = this_obj;
@@ -1045,10 +1046,15 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
             if (to_write > 0) {
 
-                const uint8_t *data = KOS_buffer_data_const(arg.o);
+                const uint8_t *data;
+
+                /* Hold on to the storage in case another thread resizes the buffer
+                 * when context is suspended */
+                storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, arg.o)->data);
+                data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
 
                 /* Make a copy in case GC moves the buffer storage when context is suspended */
-                if (kos_is_heap_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, arg.o)->data))) {
+                if (kos_is_heap_object(storage.o)) {
 
                     if (KOS_vector_resize(&cstr, to_write)) {
                         KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
@@ -1056,10 +1062,11 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
                     }
 
                     memcpy(cstr.buffer, data, to_write);
+                    cstr.size = 0;
                     data = (uint8_t *)cstr.buffer;
                 }
                 else {
-                    assert(kos_is_tracked_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, arg.o)->data)));
+                    assert(kos_is_tracked_object(storage.o));
                 }
 
                 KOS_suspend_context(ctx);
-- 
2.43.0


From 586c42c2539c71bc78807c81e6d045e7dfd04f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:01 +0000
Subject: [PATCH 34/67] fix: read_line() does not fail at end of file because
 of an earlier error

---
 modules/kos_mod_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 24dcc5c..af64d60 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -838,8 +838,10 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
         ret = fgets(buf.buffer + last_size, size_delta, get_file(file_holder));
 
         if ( ! ret) {
-            if (ferror(get_file(file_holder))) {
-                const int stored_errno = errno;
+            /* The error indicator alone could be a leftover from an earlier operation */
+            const int stored_errno = errno;
+
+            if (ferror(get_file(file_holder)) && stored_errno) {
                 KOS_resume_context(ctx);
                 KOS_raise_errno_value(ctx, "fgets", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
-- 
2.43.0


From ef752218abc2fba0bd0f89fa5f9812b6982a7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 35/67] fix: os.spawn() overruns its buffer if an environment
 variable cannot be encoded in UTF-8

---
 modules/kos_mod_os.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index ae9b900..df4f8c8 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -555,6 +555,10 @@ static int get_env_array(KOS_CONTEXT    ctx,
 
         key_len  = KOS_string_to_utf8(KOS_get_walk_key(in_obj.o), KOS_NULL, 0);
         val_len  = KOS_string_to_utf8(KOS_get_walk_value(in_obj.o), KOS_NULL, 0);
+
+        if ((key_len == ~0U) || (val_len == ~0U))
+            RAISE_EXCEPTION_STR(str_err_invalid_string);
+
         buf_size = key_len + val_len + 2;
 
 #ifdef _WIN32
-- 
2.43.0


From 6bf6e52b60c1e18a0b61090857322af6ffc1709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 36/67] fix: os.spawn() searches for the program past the end
 of PATH

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index df4f8c8..9ce869f 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -990,7 +990,7 @@ static int find_program(KOS_CONTEXT  ctx,
             if (does_file_exist(buf_mgr.buf))
                 goto found_program;
 
-            path_env += path_len + 1;
+            path_env = colon ? colon + 1 : KOS_NULL;
         }
     }
 
-- 
2.43.0


From dc8b587e411121a886c836398d504177ca2d0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 37/67] fix: os.spawn() looks for a relative program in the
 root directory if getcwd() fails

---
 modules/kos_mod_os.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 9ce869f..1a60a60 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1004,6 +1004,11 @@ found_program:
         const size_t prog_len = strlen(buf_mgr.buf);
         const size_t reqd_len = cwd_len + prog_len + 2;
 
+        if ( ! cur_wd) {
+            KOS_raise_errno(ctx, "getcwd failed");
+            return KOS_ERROR_EXCEPTION;
+        }
+
         if (reqd_len > buf_mgr.buf_size) {
             char *const new_buf = (char *)KOS_mempool_alloc(alloc, reqd_len);
 
-- 
2.43.0


From 188d435f754f1d04f6171e3de704d94405a3d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 38/67] fix: process.wait() does not return when the process is
 stopped

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 1a60a60..505a4dd 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1459,7 +1459,7 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
 
         errno = 0;
 
-        ret_pid = waitpid(wait_info->pid, &status, 0);
+        ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
 
         if (ret_pid == -1)
             stored_errno = errno;
-- 
2.43.0


From a2366527bf963460acd757a9095b5fc26adbbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 39/67] fix: a child which cannot execute the program flushes
 files of the parent

---
 modules/kos_mod_os.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 505a4dd..83fc5e7 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1039,7 +1039,8 @@ static void send_errno_and_exit(int fd)
     const int     err_value = errno;
     const ssize_t num_writ  = write(fd, &err_value, sizeof(err_value));
 
-    exit((num_writ == sizeof(err_value)) ? 1 : 2);
+    /* Don't run exit handlers and don't flush files inherited from the parent process */
+    _exit((num_writ == sizeof(err_value)) ? 1 : 2);
 }
 
 static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, FILE **file)
-- 
2.43.0


From 10a60b8dc9050735963ffc89f34fc5e90c1439fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 40/67] fix: os.spawn() misses the failure of the child when
 interrupted by a signal

---
 modules/kos_mod_os.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 83fc5e7..dd10f2e 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1244,8 +1244,9 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
     }
 #else
     {
-        pid_t child_pid;
-        int   err_value = 0;
+        pid_t   child_pid;
+        ssize_t num_read;
+        int     err_value = 0;
 
         KOS_suspend_context(ctx);
 
@@ -1306,7 +1307,11 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
 
         /* Check if there was any error in the child process */
         /* If the pipe read fails, it means that execve() was successful */
-        if ((size_t)read(exec_status_fd[0], &err_value, sizeof(err_value)) != sizeof(err_value))
+        do
+            num_read = read(exec_status_fd[0], &err_value, sizeof(err_value));
+        while ((num_read == -1) && (errno == EINTR));
+
+        if (num_read != (ssize_t)sizeof(err_value))
             err_value = 0;
 
         close(exec_status_fd[0]);
-- 
2.43.0


From c92d5194b26e96c4041a6066a536b25550d1b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 41/67] fix: os.spawn() leaves a zombie behind if the program
 cannot be executed

---
 modules/kos_mod_os.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index dd10f2e..998d480 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1319,6 +1319,9 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
 
         if ( ! err_value)
             wait_info->pid = child_pid;
+        /* If the program was not executed, don't leave the child behind as a zombie */
+        else
+            while ((waitpid(child_pid, KOS_NULL, 0) == -1) && (errno == EINTR)) { }
 
         KOS_resume_context(ctx);
 
-- 
2.43.0


From f031af48ca7afc2c9c4b63dae90c01d9dfc53704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 42/67] fix: os.spawn() leaks descriptors if it cannot create
 the process

---
 modules/kos_mod_os.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 998d480..0b1cb20 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1255,6 +1255,10 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
         /* Create pipe for sending failure status of the child process */
         if ((pipe(exec_status_fd) != 0) || kos_seq_fail()) {
             err_value = errno;
+            if (exec_status_fd[0] != -1) {
+                close(exec_status_fd[0]);
+                close(exec_status_fd[1]);
+            }
             KOS_resume_context(ctx);
             KOS_raise_errno_value(ctx, "pipe creation failed", err_value);
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -1269,6 +1273,8 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
         /* Handle failure of child process creation */
         if (child_pid == -1) {
             err_value = errno;
+            close(exec_status_fd[0]);
+            close(exec_status_fd[1]);
             KOS_resume_context(ctx);
             KOS_raise_errno_value(ctx, "fork failed", err_value);
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
-- 
2.43.0


From d4967d96d844cb93eb1e91f9f40314e17a4d41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 43/67] fix: os.spawn() redirects to a file which was closed or
 overwritten by another redirection

---
 modules/kos_mod_io.c | 14 +++++++++++---
 modules/kos_mod_io.h |  2 +-
 modules/kos_mod_os.c | 31 +++++++++++++++++--------------
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index af64d60..69c7091 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -2,6 +2,10 @@
  * Copyright (c) 2014-2023 Chris Dragan
  */
 
+#if defined(__linux__) && ! defined(_GNU_SOURCE)
+#   define _GNU_SOURCE
+#endif
+
 #include "kos_mod_io.h"
 #include "../inc/kos_array.h"
 #include "../inc/kos_buffer.h"
@@ -565,7 +569,8 @@ static int acquire_file_object(KOS_CONTEXT       ctx,
     return KOS_SUCCESS;
 }
 
-/* TODO acquire/release to avoid race */
+/* On Windows the handle can still be closed by another thread before it is used.
+ * On other systems, returns a duplicate which does not overlap with standard streams. */
 KOS_FILE_HANDLE KOS_io_get_file(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  file_obj)
 {
@@ -575,7 +580,7 @@ KOS_FILE_HANDLE KOS_io_get_file(KOS_CONTEXT ctx,
 #ifdef _WIN32
     handle = INVALID_HANDLE_VALUE;
 #else
-    handle = KOS_NULL;
+    handle = -1;
 #endif
 
     assert( ! IS_BAD_PTR(file_obj));
@@ -588,7 +593,10 @@ KOS_FILE_HANDLE KOS_io_get_file(KOS_CONTEXT ctx,
         if (handle == INVALID_HANDLE_VALUE)
             KOS_raise_exception(ctx, KOS_CONST_ID(str_err_file_not_open));
 #else
-        handle = get_file(file_holder);
+        handle = fcntl(fileno(get_file(file_holder)), F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+
+        if (handle == -1)
+            KOS_raise_errno(ctx, "fcntl");
 #endif
     }
 
diff --git a/modules/kos_mod_io.h b/modules/kos_mod_io.h
index b5ab446..fefb0f9 100644
--- a/modules/kos_mod_io.h
+++ b/modules/kos_mod_io.h
@@ -15,7 +15,7 @@ extern "C" {
 #ifdef _WIN32
 typedef void *KOS_FILE_HANDLE; /* HANDLE */
 #else
-typedef FILE *KOS_FILE_HANDLE;
+typedef int KOS_FILE_HANDLE; /* Duplicated file descriptor, to be closed by the caller */
 #endif
 
 KOS_API
diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 0b1cb20..26a9bef 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1043,30 +1043,26 @@ static void send_errno_and_exit(int fd)
     _exit((num_writ == sizeof(err_value)) ? 1 : 2);
 }
 
-static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, FILE **file)
+static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, int *fd)
 {
     if (file_obj != KOS_VOID) {
 
-        *file = KOS_io_get_file(ctx, file_obj);
+        *fd = KOS_io_get_file(ctx, file_obj);
 
-        if ( ! *file)
+        if (*fd == -1)
             return KOS_ERROR_EXCEPTION;
     }
 
     return KOS_SUCCESS;
 }
 
-static void redirect_io(FILE *src_file,
-                        int   target_fd,
-                        int   status_fd)
+static void redirect_io(int src_fd,
+                        int target_fd,
+                        int status_fd)
 {
-    int src_fd;
-
-    if ( ! src_file)
+    if (src_fd == -1)
         return;
 
-    src_fd = fileno(src_file);
-
     errno = 0;
 
     if (dup2(src_fd, target_fd) == -1)
@@ -1125,9 +1121,9 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
     HANDLE             stdout_file       = INVALID_HANDLE_VALUE;
     HANDLE             stderr_file       = INVALID_HANDLE_VALUE;
 #else
-    FILE              *stdin_file        = KOS_NULL;
-    FILE              *stdout_file       = KOS_NULL;
-    FILE              *stderr_file       = KOS_NULL;
+    int                stdin_file        = -1;
+    int                stdout_file       = -1;
+    int                stderr_file       = -1;
     int                exec_status_fd[2] = { -1, -1 };
 #endif
     int                error             = KOS_SUCCESS;
@@ -1349,6 +1345,13 @@ cleanup:
         CloseHandle(stdout_file);
     if (stderr_file != INVALID_HANDLE_VALUE)
         CloseHandle(stderr_file);
+#else
+    if (stdin_file != -1)
+        close(stdin_file);
+    if (stdout_file != -1)
+        close(stdout_file);
+    if (stderr_file != -1)
+        close(stderr_file);
 #endif
 
     return error ? KOS_BADPTR : process.o;
-- 
2.43.0


From 9d4365427a680d3e03133c23634f8a3275b8aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 44/67] fix: pipes leak into processes which are being spawned
 by other threads

---
 modules/kos_mod_io.c |  8 ++++++++
 modules/kos_mod_os.c | 25 +++++++++++++++++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 69c7091..9dfee71 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -487,12 +487,20 @@ static KOS_OBJ_ID kos_pipe(KOS_CONTEXT ctx,
 
         errno = 0;
 
+#ifdef __linux__
+        /* Another thread can spawn a process at any time */
+        if ( ! kos_seq_fail() && (pipe2(pipe_fd, O_CLOEXEC) == 0)) {
+            read_pipe  = pipe_fd[0];
+            write_pipe = pipe_fd[1];
+        }
+#else
         if ( ! kos_seq_fail() && (pipe(pipe_fd) == 0)) {
             read_pipe  = pipe_fd[0];
             write_pipe = pipe_fd[1];
             (void)fcntl(read_pipe, F_SETFD, FD_CLOEXEC);
             (void)fcntl(write_pipe, F_SETFD, FD_CLOEXEC);
         }
+#endif
         else
             stored_errno = errno ? errno : EPIPE;
     }
diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 26a9bef..3dc55c3 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -2,6 +2,10 @@
  * Copyright (c) 2014-2023 Chris Dragan
  */
 
+#if defined(__linux__) && ! defined(_GNU_SOURCE)
+#   define _GNU_SOURCE
+#endif
+
 #include "../inc/kos_array.h"
 #include "../inc/kos_constants.h"
 #include "../inc/kos_error.h"
@@ -1033,6 +1037,22 @@ found_program:
     return KOS_SUCCESS;
 }
 
+/* Creates a pipe which is not inherited by processes spawned from other threads */
+static int create_status_pipe(int fd[2])
+{
+#ifdef __linux__
+    return pipe2(fd, O_CLOEXEC);
+#else
+    if (pipe(fd) != 0)
+        return -1;
+
+    (void)fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+    (void)fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+
+    return 0;
+#endif
+}
+
 /* Sends errno to parent process, if the child cannot run execve() */
 static void send_errno_and_exit(int fd)
 {
@@ -1249,7 +1269,7 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
         errno = 0;
 
         /* Create pipe for sending failure status of the child process */
-        if ((pipe(exec_status_fd) != 0) || kos_seq_fail()) {
+        if ((create_status_pipe(exec_status_fd) != 0) || kos_seq_fail()) {
             err_value = errno;
             if (exec_status_fd[0] != -1) {
                 close(exec_status_fd[0]);
@@ -1260,9 +1280,6 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
 
-        (void)fcntl(exec_status_fd[1], F_SETFD, FD_CLOEXEC);
-        (void)fcntl(exec_status_fd[0], F_SETFD, FD_CLOEXEC);
-
         /* Create the child process */
         child_pid = fork();
 
-- 
2.43.0


From b894957b85c32368023e0bb848a03d07a39130fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 45/67] fix: a process object which is not used anymore steals
 the status of other children

---
 modules/kos_mod_os.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 3dc55c3..4de2ea9 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -109,7 +109,8 @@ struct KOS_WAIT_S {
     HANDLE h_process;
     DWORD  pid;
 #else
-    pid_t pid;
+    pid_t                pid;
+    KOS_ATOMIC(uint32_t) reaped; /* The pid does not belong to the process anymore */
 #endif
 };
 
@@ -753,7 +754,13 @@ static int append_to_pid_slot(PID_ARRAY_PTR pids, pid_t pid)
  * so that its state can get cleaned up later. */
 static void release_pid(struct KOS_WAIT_S *wait_info)
 {
-    const pid_t ret_pid = check_pid(wait_info->pid);
+    pid_t ret_pid;
+
+    /* Don't touch other children if spawn() failed or if the process was already waited for */
+    if ((wait_info->pid <= 0) || KOS_atomic_read_relaxed_u32(wait_info->reaped))
+        return;
+
+    ret_pid = check_pid(wait_info->pid);
 
     if (ret_pid == 0) {
 
@@ -1494,10 +1501,17 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
 
         errno = 0;
 
-        ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
+        if (KOS_atomic_read_relaxed_u32(wait_info->reaped)) {
+            ret_pid = -1;
+            errno   = ECHILD;
+        }
+        else
+            ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
 
         if (ret_pid == -1)
             stored_errno = errno;
+        else if ( ! WIFSTOPPED(status))
+            KOS_atomic_write_relaxed_u32(wait_info->reaped, 1U);
 
         KOS_resume_context(ctx);
 
-- 
2.43.0


From d6f5c9efe5ab2a2678c97eda7741435203f19da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 46/67] fix: children whose process objects were destroyed are
 not reaped

---
 modules/kos_mod_os.c | 93 +++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 40 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 4de2ea9..410c451 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -16,6 +16,7 @@
 #include "../inc/kos_object.h"
 #include "../inc/kos_string.h"
 #include "../inc/kos_system.h"
+#include "../inc/kos_threads.h"
 #include "../inc/kos_utils.h"
 #include "../core/kos_debug.h"
 #include "../core/kos_math.h"
@@ -624,7 +625,7 @@ typedef struct PID_ARRAY *PID_ARRAY_PTR;
 
 static KOS_ATOMIC(PID_ARRAY_PTR) zombie_pids[4];
 static KOS_ATOMIC(int32_t)       num_os_modules;
-static struct PID_ARRAY          dummy_pids; /* Placeholder for signal handler */
+static KOS_ATOMIC(int32_t)       num_zombie_users; /* Number of threads accessing zombie_pids */
 
 union PID_TO_PTR {
     void *ptr;
@@ -649,13 +650,16 @@ static pid_t check_pid(pid_t pid)
 
 static void destroy_zombies(int sig)
 {
-    size_t array_idx;
+    const int stored_errno = errno;
+    size_t    array_idx;
 
     assert(sig == SIGCHLD);
 
+    KOS_atomic_add_i32(num_zombie_users, 1);
+
     for (array_idx = 0; array_idx < sizeof(zombie_pids) / sizeof(zombie_pids[0]); array_idx++) {
 
-        const PID_ARRAY_PTR pids = (PID_ARRAY_PTR)KOS_atomic_swap_ptr(zombie_pids[array_idx], &dummy_pids);
+        const PID_ARRAY_PTR pids = (PID_ARRAY_PTR)KOS_atomic_read_acquire_ptr(zombie_pids[array_idx]);
 
         if (pids) {
 
@@ -663,19 +667,21 @@ static void destroy_zombies(int sig)
 
             for (idx = 0; idx < pids->capacity; idx++) {
 
-                const pid_t pid = to_pid(KOS_atomic_swap_ptr(pids->pids[idx], (void *)KOS_NULL));
+                void *const ptr = KOS_atomic_read_relaxed_ptr(pids->pids[idx]);
+                const pid_t pid = to_pid(ptr);
 
-                if (pid > 0) {
-                    KOS_atomic_add_i32(pids->num_pids, -1);
+                /* Keep the pid if the process is still running */
+                if ((pid > 0) && (check_pid(pid) != 0) &&
+                    KOS_atomic_cas_strong_ptr(pids->pids[idx], ptr, (void *)KOS_NULL))
 
-                    check_pid(pid);
-                }
+                    KOS_atomic_add_i32(pids->num_pids, -1);
             }
         }
-
-        if (pids != &dummy_pids)
-            KOS_atomic_write_relaxed_ptr(zombie_pids[array_idx], pids);
     }
+
+    KOS_atomic_add_i32(num_zombie_users, -1);
+
+    errno = stored_errno;
 }
 
 static KOS_ATOMIC(uint32_t) sig_child_installed;
@@ -697,7 +703,7 @@ static void handle_sig_child()
     }
 }
 
-static int reserve_pid_slot(uint32_t array_idx, pid_t pid)
+static int reserve_pid_array(uint32_t array_idx)
 {
     const uint32_t new_capacity = array_idx ? 1024U : 32U;
     const size_t   new_size     = sizeof(struct PID_ARRAY) + (new_capacity - 1U) * sizeof(void *);
@@ -712,10 +718,11 @@ static int reserve_pid_slot(uint32_t array_idx, pid_t pid)
 
         new_array->capacity = new_capacity;
 
-        if (KOS_atomic_cas_strong_ptr(zombie_pids[array_idx], (PID_ARRAY_PTR)KOS_NULL, new_array))
-            error = KOS_SUCCESS;
-        else
+        /* Another thread may have created the array already, which is fine */
+        if ( ! KOS_atomic_cas_strong_ptr(zombie_pids[array_idx], (PID_ARRAY_PTR)KOS_NULL, new_array))
             KOS_free(alloc_ptr);
+
+        error = KOS_SUCCESS;
     }
 
     return error;
@@ -766,23 +773,30 @@ static void release_pid(struct KOS_WAIT_S *wait_info)
 
         uint32_t array_idx;
 
+        handle_sig_child();
+
+        KOS_atomic_add_i32(num_zombie_users, 1);
+
         for (array_idx = 0; array_idx < sizeof(zombie_pids) / sizeof(zombie_pids[0]); array_idx++) {
 
-            const PID_ARRAY_PTR pids = (PID_ARRAY_PTR)KOS_atomic_read_relaxed_ptr(zombie_pids[array_idx]);
+            PID_ARRAY_PTR pids = (PID_ARRAY_PTR)KOS_atomic_read_acquire_ptr(zombie_pids[array_idx]);
 
-            if (pids != &dummy_pids) {
-                if ( ! pids) {
-                    if ( ! reserve_pid_slot(array_idx, wait_info->pid))
-                        break;
-                }
-                else {
-                    if ( ! append_to_pid_slot(pids, wait_info->pid))
-                        break;
-                }
+            if ( ! pids) {
+                if (reserve_pid_array(array_idx))
+                    break;
+
+                pids = (PID_ARRAY_PTR)KOS_atomic_read_acquire_ptr(zombie_pids[array_idx]);
             }
+
+            if ( ! append_to_pid_slot(pids, wait_info->pid))
+                break;
         }
 
-        handle_sig_child();
+        KOS_atomic_add_i32(num_zombie_users, -1);
+
+        /* If the process has finished before its pid was put on the list, the signal handler
+         * did not see it. */
+        destroy_zombies(SIGCHLD);
     }
 }
 
@@ -792,23 +806,23 @@ static void cleanup_wait_list(void)
      * Perform the cleanup only after the last os module is unloaded. */
     if (KOS_atomic_add_i32(num_os_modules, -1) == 1) {
 
-        size_t array_idx;
-
-        for (array_idx = 0; array_idx < sizeof(zombie_pids) / sizeof(zombie_pids[0]); array_idx++) {
-
-            const PID_ARRAY_PTR pids = (PID_ARRAY_PTR)KOS_atomic_swap_ptr(zombie_pids[array_idx], &dummy_pids);
-
-            if (pids != &dummy_pids) {
-                KOS_free(pids);
-
-                KOS_atomic_write_relaxed_ptr(zombie_pids[array_idx], (PID_ARRAY_PTR)KOS_NULL);
-            }
-        }
+        PID_ARRAY_PTR pids[sizeof(zombie_pids) / sizeof(zombie_pids[0])];
+        size_t        array_idx;
 
         if (KOS_atomic_read_relaxed_u32(sig_child_installed)) {
             sigaction(SIGCHLD, &old_sig_child, KOS_NULL);
             KOS_atomic_write_relaxed_u32(sig_child_installed, 0U);
         }
+
+        for (array_idx = 0; array_idx < sizeof(pids) / sizeof(pids[0]); array_idx++)
+            pids[array_idx] = (PID_ARRAY_PTR)KOS_atomic_swap_ptr(zombie_pids[array_idx], (PID_ARRAY_PTR)KOS_NULL);
+
+        /* The signal handler may still be running in another thread */
+        while (KOS_atomic_read_acquire_u32(*(KOS_ATOMIC(uint32_t) *)&num_zombie_users))
+            kos_yield();
+
+        for (array_idx = 0; array_idx < sizeof(pids) / sizeof(pids[0]); array_idx++)
+            KOS_free(pids[array_idx]);
     }
 }
 
@@ -1799,8 +1813,6 @@ KOS_INIT_MODULE(os, 0)(KOS_CONTEXT ctx, KOS_OBJ_ID module_obj)
 
 #ifdef _WIN32
     update_system_times();
-#else
-    OBJPTR(MODULE, module_obj)->finalize = cleanup_wait_list;
 #endif
 
     priv.o = KOS_new_array(ctx, 1);
@@ -1885,6 +1897,7 @@ KOS_INIT_MODULE(os, 0)(KOS_CONTEXT ctx, KOS_OBJ_ID module_obj)
 
 #ifndef _WIN32
     KOS_atomic_add_i32(num_os_modules, 1);
+    OBJPTR(MODULE, module.o)->finalize = cleanup_wait_list;
 #endif
 
 cleanup:
-- 
2.43.0


From 113b348aa10b972073a917096386004239e2cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 47/67] fix: receiving from a socket ignores errors and writes
 to buffer storage which can be freed

---
 modules/kos_mod_net.c | 78 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 111a517..f9b79c5 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -929,13 +929,13 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
                            KOS_OBJ_ID  this_obj,
                            KOS_OBJ_ID  args_obj)
 {
+    KOS_VECTOR         data;
     KOS_LOCAL          args;
     KOS_LOCAL          buf;
     int64_t            num_read;
     int64_t            to_read;
     int64_t            flags64;
     KOS_SOCKET_HOLDER *socket_holder = KOS_NULL;
-    uint8_t           *data;
     KOS_OBJ_ID         arg;
     uint32_t           offset;
     int                error         = KOS_SUCCESS;
@@ -943,6 +943,8 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 3);
 
+    KOS_vector_init(&data);
+
     KOS_init_local(     ctx, &buf);
     KOS_init_local_with(ctx, &args, args_obj);
 
@@ -977,7 +979,9 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     if (buf.o == KOS_VOID)
         buf.o = KOS_new_buffer(ctx, 0);
-    else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
+    TRY_OBJID(buf.o);
+
+    if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
     offset = KOS_get_buffer_size(buf.o);
@@ -985,36 +989,51 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     if (to_read > (int64_t)(0xFFFFFFFFU - offset))
         RAISE_EXCEPTION_STR(str_err_too_many_to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + to_read)));
+    /* Make sure there is room for the data before it is received */
+    TRY(KOS_buffer_reserve(ctx, buf.o, (unsigned)(offset + to_read)));
 
-    data = KOS_buffer_data(ctx, buf.o);
+    if ( ! KOS_buffer_data(ctx, buf.o))
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
 
-    if ( ! data)
+    /* Receive into a temporary buffer, because when context is suspended, another
+     * thread can change storage of the target buffer object. */
+    if (KOS_vector_resize(&data, (size_t)to_read)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     KOS_suspend_context(ctx);
 
     reset_last_error();
 
-    num_read = recv(get_socket(socket_holder), (char *)(data + offset), (DATA_LEN)to_read, (int)flags64);
+    num_read = recv(get_socket(socket_holder), data.buffer, (DATA_LEN)to_read, (int)flags64);
 
-    if (num_read < -1)
+    if (num_read < 0)
         saved_errno = get_error();
 
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
-
-    if (saved_errno) {
+    if (num_read < 0) {
         KOS_raise_errno_value(ctx, "recv", saved_errno);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
+    if (num_read > 0) {
+        uint8_t *const dest = KOS_buffer_make_room(ctx, buf.o, (unsigned)num_read);
+
+        if ( ! dest)
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+
+        memcpy(dest, data.buffer, (size_t)num_read);
+    }
+
 cleanup:
     release_socket(socket_holder);
 
+    KOS_vector_destroy(&data);
+
     buf.o = KOS_destroy_top_locals(ctx, &args, &buf);
 
     return error ? KOS_BADPTR : buf.o;
@@ -1049,6 +1068,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
                                KOS_OBJ_ID  args_obj)
 {
     KOS_GENERIC_ADDR   addr;
+    KOS_VECTOR         data;
     KOS_LOCAL          args;
     KOS_LOCAL          buf;
     KOS_LOCAL          ret;
@@ -1056,7 +1076,6 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     int64_t            to_read;
     int64_t            flags64;
     KOS_SOCKET_HOLDER *socket_holder = KOS_NULL;
-    uint8_t           *data;
     KOS_OBJ_ID         arg;
     ADDR_LEN           addr_len      = 0;
     uint32_t           offset;
@@ -1065,6 +1084,8 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 3);
 
+    KOS_vector_init(&data);
+
     KOS_init_local(     ctx, &ret);
     KOS_init_local(     ctx, &buf);
     KOS_init_local_with(ctx, &args, args_obj);
@@ -1100,7 +1121,9 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
 
     if (buf.o == KOS_VOID)
         buf.o = KOS_new_buffer(ctx, 0);
-    else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
+    TRY_OBJID(buf.o);
+
+    if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
     offset = KOS_get_buffer_size(buf.o);
@@ -1108,12 +1131,18 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     if (to_read > (int64_t)(0xFFFFFFFFU - offset))
         RAISE_EXCEPTION_STR(str_err_too_many_to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + to_read)));
+    /* Make sure there is room for the data before it is received */
+    TRY(KOS_buffer_reserve(ctx, buf.o, (unsigned)(offset + to_read)));
 
-    data = KOS_buffer_data(ctx, buf.o);
+    if ( ! KOS_buffer_data(ctx, buf.o))
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
 
-    if ( ! data)
+    /* Receive into a temporary buffer, because when context is suspended, another
+     * thread can change storage of the target buffer object. */
+    if (KOS_vector_resize(&data, (size_t)to_read)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     KOS_suspend_context(ctx);
 
@@ -1140,26 +1169,33 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     reset_last_error();
 
     num_read = recvfrom(get_socket(socket_holder),
-                        (char *)(data + offset),
+                        data.buffer,
                         (DATA_LEN)to_read,
                         (int)flags64,
                         (struct sockaddr *)&addr,
                         &addr_len);
 
-    if (num_read < -1)
+    if (num_read < 0)
         saved_errno = get_error();
 
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
-
-    if (saved_errno) {
+    if (num_read < 0) {
         KOS_raise_errno_value(ctx, "recv", saved_errno);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
+    if (num_read > 0) {
+        uint8_t *const dest = KOS_buffer_make_room(ctx, buf.o, (unsigned)num_read);
+
+        if ( ! dest)
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+
+        memcpy(dest, data.buffer, (size_t)num_read);
+    }
+
     ret.o = KOS_new_object(ctx);
     TRY_OBJID(ret.o);
 
@@ -1170,6 +1206,8 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
 cleanup:
     release_socket(socket_holder);
 
+    KOS_vector_destroy(&data);
+
     ret.o = KOS_destroy_top_locals(ctx, &args, &ret);
 
     return error ? KOS_BADPTR : ret.o;
-- 
2.43.0


From 4eaf12f5781eb03ea368fb0bf8ab26f4b41d628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 48/67] fix: socket functions reject the flags which they
 support

---
 modules/kos_mod_net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index f9b79c5..16b088b 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -969,7 +969,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1111,7 +1111,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1755,7 +1755,7 @@ static KOS_OBJ_ID kos_send(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1852,7 +1852,7 @@ static KOS_OBJ_ID kos_sendto(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
-- 
2.43.0


From 7bcbd93d18e8dd8d0c54ca02c3c886fa2a2ee773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 49/67] fix: sending large data through a non-blocking socket
 fails an assertion

---
 modules/kos_mod_net.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 16b088b..6628224 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1466,7 +1466,7 @@ cleanup:
     return error ? KOS_BADPTR : this_.o;
 }
 
-static int send_loop(KOS_SOCKET              socket_fd,
+static int64_t send_loop(KOS_SOCKET              socket_fd,
                      const char             *data,
                      DATA_LEN                size,
                      int                     flags,
@@ -1474,7 +1474,8 @@ static int send_loop(KOS_SOCKET              socket_fd,
                      ADDR_LEN                addr_len)
 {
     const int send_timeout_sec = 30;
-    int       num_sent;
+    int64_t   total_sent       = 0;
+    int64_t   num_sent;
 
     for (;;) {
 #ifdef _WIN32
@@ -1493,12 +1494,14 @@ static int send_loop(KOS_SOCKET              socket_fd,
         else
             num_sent = send(socket_fd, data, size, flags);
 
-        if ((DATA_LEN)num_sent == size)
-            break;
-
         if (num_sent >= 0) {
+            total_sent += num_sent;
+
+            if ((DATA_LEN)num_sent == size)
+                return total_sent;
+
             data += num_sent;
-            size -= num_sent;
+            size -= (DATA_LEN)num_sent;
         }
 
         if (num_sent < 0) {
@@ -1509,10 +1512,10 @@ static int send_loop(KOS_SOCKET              socket_fd,
              */
 #ifdef _WIN32
             if (error != WSAEWOULDBLOCK)
-                break;
+                return -1;
 #else
             if (error != EAGAIN && error != EWOULDBLOCK)
-                break;
+                return -1;
 #endif
         }
 
@@ -1527,10 +1530,8 @@ static int send_loop(KOS_SOCKET              socket_fd,
         nfds = select(nfds, KOS_NULL, &fds, KOS_NULL, &timeout);
 
         if (nfds < 0)
-            break;
+            return -1;
     }
-
-    return num_sent;
 }
 
 static int send_one_object(KOS_CONTEXT             ctx,
-- 
2.43.0


From cdef26ed0f550a70acf06ac911a807a2fb8609fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 50/67] fix: sending a buffer which another thread resizes
 reads freed memory

---
 modules/kos_mod_net.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 6628224..5c0d8a8 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1544,9 +1544,11 @@ static int send_one_object(KOS_CONTEXT             ctx,
                            ADDR_LEN                addr_len)
 {
     KOS_LOCAL obj;
+    KOS_LOCAL storage;
     int       saved_errno = 0;
     int       error       = KOS_SUCCESS;
 
+    KOS_init_local(     ctx, &storage);
     KOS_init_local_with(ctx, &obj, obj_id);
 
     if (GET_OBJ_TYPE(obj.o) == OBJ_BUFFER) {
@@ -1556,10 +1558,15 @@ static int send_one_object(KOS_CONTEXT             ctx,
         if (to_write > 0) {
 
             int64_t        num_writ = 0;
-            const uint8_t *data     = KOS_buffer_data_const(obj.o);
+            const uint8_t *data;
+
+            /* Hold on to the storage in case another thread resizes the buffer
+             * when context is suspended */
+            storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, obj.o)->data);
+            data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
 
             /* Make a copy in case GC moves the buffer storage when context is suspended */
-            if (kos_is_heap_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, obj.o)->data))) {
+            if (kos_is_heap_object(storage.o)) {
 
                 if (KOS_vector_resize(cstr, to_write)) {
                     KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
@@ -1570,7 +1577,7 @@ static int send_one_object(KOS_CONTEXT             ctx,
                 data = (uint8_t *)cstr->buffer;
             }
             else {
-                assert(kos_is_tracked_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, obj.o)->data)));
+                assert(kos_is_tracked_object(storage.o));
             }
 
             KOS_suspend_context(ctx);
@@ -1632,7 +1639,7 @@ static int send_one_object(KOS_CONTEXT             ctx,
     }
 
 cleanup:
-    KOS_destroy_top_local(ctx, &obj);
+    KOS_destroy_top_locals(ctx, &obj, &storage);
 
     return error;
 }
-- 
2.43.0


From bff4dbefaf26e7cde63c8896ca7afdfe6949b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 51/67] fix: closing a socket while another thread starts using
 it accesses freed memory

---
 modules/kos_mod_net.c | 82 ++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 5c0d8a8..a021180 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -101,50 +101,78 @@ KOS_DECLARE_STATIC_CONST_STRING(str_timeout_sec,           "timeout_sec");
 
 typedef struct KOS_SOCKET_HOLDER_S {
     KOS_ATOMIC(uint32_t) socket_fd;
-    KOS_ATOMIC(uint32_t) ref_count;
+    KOS_ATOMIC(int32_t)  ref_count; /* References to this structure         */
+    KOS_ATOMIC(int32_t)  use_count; /* Users of the socket, including owner */
+    KOS_ATOMIC(uint32_t) is_open;   /* The owner has not closed the socket  */
     int                  family;
 #ifdef _WIN32
     int                  blocking;
 #endif
 } KOS_SOCKET_HOLDER;
 
+/* The caller must ensure that the holder cannot be freed before this function
+ * returns, e.g. by having access to the object which owns the holder. */
 static int acquire_socket(KOS_SOCKET_HOLDER *socket_holder)
 {
-    uint32_t ref_count;
+    uint32_t use_count;
 
     assert(socket_holder);
 
     do {
-        ref_count = KOS_atomic_read_relaxed_u32(socket_holder->ref_count);
-        if ((int32_t)ref_count <= 0)
-            return (int)ref_count;
-    } while ( ! KOS_atomic_cas_weak_u32(socket_holder->ref_count, ref_count, ref_count + 1));
+        use_count = KOS_atomic_read_relaxed_u32(*(KOS_ATOMIC(uint32_t)*)&socket_holder->use_count);
+        if ((int32_t)use_count <= 0)
+            return (int)use_count;
+    } while ( ! KOS_atomic_cas_weak_u32(*(KOS_ATOMIC(uint32_t)*)&socket_holder->use_count, use_count, use_count + 1));
 
-    return (int)ref_count;
+    KOS_atomic_add_i32(socket_holder->ref_count, 1);
+
+    return (int)use_count;
 }
 
-static void release_socket(KOS_SOCKET_HOLDER *socket_holder)
+/* Closes the socket if nobody is using it anymore */
+static void end_socket_use(KOS_SOCKET_HOLDER *socket_holder)
 {
-    if (socket_holder) {
-        const int32_t ref_count = KOS_atomic_add_i32(*(KOS_ATOMIC(int32_t)*)&socket_holder->ref_count, -1);
+    const int32_t use_count = KOS_atomic_add_i32(socket_holder->use_count, -1);
 
-        assert(ref_count >= 1);
+    assert(use_count >= 1);
 
-        if (ref_count == 1) {
-            const int32_t socket_fd = (int32_t)KOS_atomic_swap_u32(socket_holder->socket_fd, ~0U);
+    if (use_count == 1) {
+        const int32_t socket_fd = (int32_t)KOS_atomic_swap_u32(socket_holder->socket_fd, ~0U);
 
-            if (socket_fd >= 0)
-                closesocket(socket_fd);
+        if (socket_fd >= 0)
+            closesocket(socket_fd);
+    }
+}
 
-            KOS_free(socket_holder);
-        }
+static void free_socket_holder(KOS_SOCKET_HOLDER *socket_holder)
+{
+    const int32_t ref_count = KOS_atomic_add_i32(socket_holder->ref_count, -1);
+
+    assert(ref_count >= 1);
+
+    if (ref_count == 1)
+        KOS_free(socket_holder);
+}
+
+static void release_socket(KOS_SOCKET_HOLDER *socket_holder)
+{
+    if (socket_holder) {
+        end_socket_use(socket_holder);
+
+        free_socket_holder(socket_holder);
     }
 }
 
 static void socket_finalize(KOS_CONTEXT ctx, void *priv)
 {
-    if (priv)
-        release_socket((KOS_SOCKET_HOLDER *)priv);
+    if (priv) {
+        KOS_SOCKET_HOLDER *const socket_holder = (KOS_SOCKET_HOLDER *)priv;
+
+        if (KOS_atomic_swap_u32(socket_holder->is_open, 0U))
+            end_socket_use(socket_holder);
+
+        free_socket_holder(socket_holder);
+    }
 }
 
 KOS_DECLARE_PRIVATE_CLASS(socket_priv_class);
@@ -158,6 +186,8 @@ static KOS_SOCKET_HOLDER *make_socket_holder(KOS_CONTEXT ctx,
     if (socket_holder) {
         socket_holder->socket_fd = (uint32_t)socket_fd;
         socket_holder->ref_count = 1;
+        socket_holder->use_count = 1;
+        socket_holder->is_open   = 1;
         socket_holder->family    = family;
 #ifdef _WIN32
         socket_holder->blocking  = 1;
@@ -202,7 +232,8 @@ static int acquire_socket_object(KOS_CONTEXT         ctx,
 {
     *socket_holder = (KOS_SOCKET_HOLDER *)KOS_object_get_private(socket_obj, &socket_priv_class);
 
-    if ( ! *socket_holder || (acquire_socket(*socket_holder) <= 0)) {
+    if ( ! *socket_holder || ! KOS_atomic_read_relaxed_u32((*socket_holder)->is_open)
+                          || (acquire_socket(*socket_holder) <= 0)) {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_socket_not_open));
         return KOS_ERROR_EXCEPTION;
     }
@@ -743,7 +774,6 @@ static KOS_OBJ_ID kos_close(KOS_CONTEXT ctx,
                             KOS_OBJ_ID  this_obj,
                             KOS_OBJ_ID  args_obj)
 {
-    KOS_SOCKET_HOLDER *closed_holder;
     KOS_SOCKET_HOLDER *socket_holder;
 
     if (GET_OBJ_TYPE(this_obj) != OBJ_OBJECT) {
@@ -751,16 +781,12 @@ static KOS_OBJ_ID kos_close(KOS_CONTEXT ctx,
         return KOS_BADPTR;
     }
 
-    closed_holder = make_socket_holder(ctx, KOS_INVALID_SOCKET, -1);
-    if ( ! closed_holder)
-        return KOS_BADPTR;
+    socket_holder = (KOS_SOCKET_HOLDER *)KOS_object_get_private(this_obj, &socket_priv_class);
 
-    socket_holder = (KOS_SOCKET_HOLDER *)KOS_object_swap_private(this_obj, &socket_priv_class, closed_holder);
-
-    release_socket(socket_holder);
+    if (socket_holder && KOS_atomic_swap_u32(socket_holder->is_open, 0U))
+        end_socket_use(socket_holder);
 
     return this_obj;
-
 }
 
 static const KOS_CONVERT connect_args[3] = {
-- 
2.43.0


From 625586de43e0667c8af3ae71c1479468c928ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 52/67] fix: a closed file can still be used while another
 thread is using it

---
 modules/kos_mod_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 9dfee71..7bf53c3 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -559,7 +559,8 @@ static int acquire_file_object(KOS_CONTEXT       ctx,
 {
     *file_holder = (KOS_FILE_HOLDER *)KOS_object_get_private(file_obj, &file_priv_class);
 
-    if ( ! *file_holder || (acquire_file(*file_holder) <= 0)) {
+    if ( ! *file_holder || ! KOS_atomic_read_relaxed_u32((*file_holder)->is_open)
+                        || (acquire_file(*file_holder) <= 0)) {
         *file_holder = KOS_NULL;
 
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_file_not_open));
-- 
2.43.0


From 07ab1da74cffd8cfc7ea6a1145f875186584978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 53/67] fix: an operation on a socket which is not open
 releases a socket which it does not hold

---
 modules/kos_mod_net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index a021180..3271c7f 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -234,6 +234,8 @@ static int acquire_socket_object(KOS_CONTEXT         ctx,
 
     if ( ! *socket_holder || ! KOS_atomic_read_relaxed_u32((*socket_holder)->is_open)
                           || (acquire_socket(*socket_holder) <= 0)) {
+        *socket_holder = KOS_NULL;
+
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_socket_not_open));
         return KOS_ERROR_EXCEPTION;
     }
-- 
2.43.0


From 8049381a0962045240e8b0bc1ebc861eef19eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 54/67] fix: socket descriptor leaks if an object for it cannot
 be created

---
 modules/kos_mod_net.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 3271c7f..c3cece6 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -598,7 +598,12 @@ static KOS_OBJ_ID kos_socket(KOS_CONTEXT ctx,
 
     TRY(set_socket_object(ctx, ret.o, socket_fd, arg_domain));
 
+    socket_fd = KOS_INVALID_SOCKET;
+
 cleanup:
+    if (socket_fd != KOS_INVALID_SOCKET)
+        closesocket(socket_fd);
+
     ret.o = KOS_destroy_top_locals(ctx, &this_, &ret);
 
     return error ? KOS_BADPTR : ret.o;
@@ -663,12 +668,17 @@ static KOS_OBJ_ID kos_accept(KOS_CONTEXT ctx,
 
     TRY(set_socket_object(ctx, sock.o, socket_fd, socket_holder->family));
 
+    socket_fd = KOS_INVALID_SOCKET;
+
     ret.o = KOS_new_object(ctx);
     TRY_OBJID(ret.o);
 
     TRY(KOS_set_property(ctx, ret.o, KOS_CONST_ID(str_socket), sock.o));
 
 cleanup:
+    if (socket_fd != KOS_INVALID_SOCKET)
+        closesocket(socket_fd);
+
     release_socket(socket_holder);
 
     ret.o = KOS_destroy_top_locals(ctx, &this_, &ret);
-- 
2.43.0


From 3fe3917aced95ce19326645a9634705375022fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 55/67] fix: getaddrinfo() leaks memory and fails without an
 exception when memory runs out

---
 modules/kos_mod_net.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index c3cece6..560cb7d 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -2082,6 +2082,8 @@ static KOS_OBJ_ID kos_getaddrinfo(KOS_CONTEXT ctx,
     struct addrinfo     *cur_info;
     KOS_VECTOR           address_cstr;
     KOS_VECTOR           port_cstr;
+    const char          *address   = KOS_NULL;
+    const char          *port      = KOS_NULL;
     unsigned             num_addrs = 0;
     int                  i;
     int                  error;
@@ -2107,8 +2109,8 @@ static KOS_OBJ_ID kos_getaddrinfo(KOS_CONTEXT ctx,
 
         TRY(KOS_string_to_cstr_vec(ctx, val.o, &address_cstr));
     }
-    if ( ! address_cstr.size || ! address_cstr.buffer[0])
-        address_cstr.buffer = KOS_NULL;
+    if (address_cstr.size && address_cstr.buffer[0])
+        address = address_cstr.buffer;
 
     val.o = KOS_array_read(ctx, one_info.o, 1);
     TRY_OBJID(val.o);
@@ -2117,8 +2119,7 @@ static KOS_OBJ_ID kos_getaddrinfo(KOS_CONTEXT ctx,
         if (GET_OBJ_TYPE(val.o) == OBJ_STRING)
             TRY(KOS_string_to_cstr_vec(ctx, val.o, &port_cstr));
         else if (GET_OBJ_TYPE(val.o) <= OBJ_INTEGER) {
-            int64_t  int_value;
-            unsigned len;
+            int64_t int_value;
 
             TRY(KOS_get_integer(ctx, val.o, &int_value));
 
@@ -2127,10 +2128,12 @@ static KOS_OBJ_ID kos_getaddrinfo(KOS_CONTEXT ctx,
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
 
-            TRY(KOS_vector_resize(&port_cstr, 6));
+            if (KOS_vector_resize(&port_cstr, 6)) {
+                KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+                RAISE_ERROR(KOS_ERROR_EXCEPTION);
+            }
 
-            len = (unsigned)snprintf(port_cstr.buffer, 6, "%u", (unsigned)(int)int_value);
-            TRY(KOS_vector_resize(&port_cstr, len + 1));
+            snprintf(port_cstr.buffer, 6, "%u", (unsigned)(int)int_value);
         }
         else {
             KOS_raise_printf(ctx, "port argument is %s but expected string or integer",
@@ -2139,13 +2142,13 @@ static KOS_OBJ_ID kos_getaddrinfo(KOS_CONTEXT ctx,
         }
     }
 
-    if ( ! port_cstr.size || ! port_cstr.buffer[0])
-        port_cstr.buffer = KOS_NULL;
+    if (port_cstr.size && port_cstr.buffer[0])
+        port = port_cstr.buffer;
 
     KOS_suspend_context(ctx);
 
-    error = getaddrinfo(address_cstr.buffer,
-                        port_cstr.buffer,
+    error = getaddrinfo(address,
+                        port,
                         KOS_NULL,
                         &info);
 
-- 
2.43.0


From 17748e59c5ca28525927f0c720c3b5eda53cdab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 56/67] fix: IPv6 address with zeroes at both ends is formatted
 incorrectly

---
 modules/kos_mod_net.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 560cb7d..3c06ac5 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -428,11 +428,10 @@ static KOS_OBJ_ID address_to_string(KOS_CONTEXT             ctx,
                             if (byte[j])
                                 break;
 
-                        if (j == 16) {
-                            if (buf[pos - 1] != ':') {
-                                buf[pos++] = ':';
-                                buf[pos++] = ':';
-                            }
+                        /* Only one run of zeroes can be abbreviated */
+                        if (j == 16 && buf[0] != ':') {
+                            buf[pos++] = ':';
+                            buf[pos++] = ':';
                             break;
                         }
                     }
-- 
2.43.0


From 16e33933ff872694248055a3f676fac7605b83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 57/67] fix: kos.execute() leaves an exception pending when
 memory runs out

---
 modules/kos_mod_kos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 7a29e0f..99d0a2a 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -506,7 +506,7 @@ static KOS_OBJ_ID execute(KOS_CONTEXT ctx,
         if (data_size) {
             if (KOS_vector_resize(&data_cstr, data_size)) {
                 KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-                goto cleanup;
+                RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
 
             memcpy(data_cstr.buffer, KOS_buffer_data_const(arg_id), data_size);
@@ -520,7 +520,7 @@ static KOS_OBJ_ID execute(KOS_CONTEXT ctx,
     if (name.o == KOS_VOID) {
         if (KOS_vector_resize(&name_cstr, 1)) {
             KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            goto cleanup;
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
         name_cstr.buffer[0] = 0;
     }
-- 
2.43.0


From fb03737ab8a6f2926e2b49ac4bb19ab519bd9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 58/67] fix: every kos.execute() call uses up a module index
 and adds a search path

---
 core/kos_compiler.h |  3 ++-
 core/kos_module.c   | 32 +++++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/core/kos_compiler.h b/core/kos_compiler.h
index 763b4d6..5bc2516 100644
--- a/core/kos_compiler.h
+++ b/core/kos_compiler.h
@@ -13,7 +13,8 @@
 #include <stdint.h>
 
 /* base module is always at index 0 */
-#define KOS_BASE_MODULE_IDX 0
+#define KOS_BASE_MODULE_IDX      0
+#define KOS_TEMPORARY_MODULE_IDX 0xFFFF /* Module which does not have an index */
 
 typedef struct KOS_REG_S {
     struct KOS_REG_S *next;
diff --git a/core/kos_module.c b/core/kos_module.c
index 0177c27..7fd7c7d 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -362,7 +362,7 @@ static void get_module_name(const char            *module,
 
 static KOS_OBJ_ID alloc_module(KOS_CONTEXT ctx,
                                KOS_OBJ_ID  module_name_obj,
-                               int        *module_idx)
+                               int        *module_idx) /* If KOS_NULL, no index is reserved */
 {
     KOS_LOCAL module_name;
     KOS_LOCAL obj;
@@ -409,10 +409,12 @@ static KOS_OBJ_ID alloc_module(KOS_CONTEXT ctx,
     TRY_OBJID(obj.o);
     OBJPTR(MODULE, module.o)->module_names = obj.o;
 
-    TRY(KOS_array_push(ctx, ctx->inst->modules.modules, KOS_VOID, &u_idx));
+    if (module_idx) {
+        TRY(KOS_array_push(ctx, ctx->inst->modules.modules, KOS_VOID, &u_idx));
 
-    *module_idx = (int)u_idx;
-    assert(*module_idx >= 0);
+        *module_idx = (int)u_idx;
+        assert(*module_idx >= 0);
+    }
 
 cleanup:
     module.o = KOS_destroy_top_locals(ctx, &module_name, &module);
@@ -1576,11 +1578,21 @@ static int insert_first_search_path(KOS_CONTEXT ctx,
 {
     KOS_LOCAL path_array;
     KOS_LOCAL dir;
-    int       error;
+    int       error = KOS_SUCCESS;
 
     KOS_init_local(     ctx, &path_array);
     KOS_init_local_with(ctx, &dir, dir_obj);
 
+    /* Avoid adding the same path over and over when many scripts are executed */
+    if (KOS_get_array_size(ctx->inst->modules.search_paths) > 0) {
+
+        const KOS_OBJ_ID first = KOS_array_read(ctx, ctx->inst->modules.search_paths, 0);
+        TRY_OBJID(first);
+
+        if (first == dir.o)
+            goto cleanup;
+    }
+
     path_array.o = KOS_new_array(ctx, 1);
     TRY_OBJID(path_array.o);
 
@@ -1990,8 +2002,14 @@ KOS_OBJ_ID KOS_repl(KOS_CONTEXT ctx,
     /* Allocate module object and reserve module index */
     if (module_idx == -1) {
         assert( ! (flags & KOS_RUN_CONTINUE));
-        /* TODO don't accumulate if KOS_RUN_TEMPORARY */
-        module.o = alloc_module(ctx, module_name_str.o, &module_idx);
+
+        /* A temporary module cannot be imported, so it does not need its own index */
+        if (flags & KOS_RUN_TEMPORARY) {
+            module.o   = alloc_module(ctx, module_name_str.o, KOS_NULL);
+            module_idx = KOS_TEMPORARY_MODULE_IDX;
+        }
+        else
+            module.o = alloc_module(ctx, module_name_str.o, &module_idx);
         TRY_OBJID(module.o);
     }
     else {
-- 
2.43.0


From ef9fc4824791b124daca5f17b396e5e7dc7553b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 59/67] fix: a script executed under the name of a module
 cannot import that module

---
 core/kos_module.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index 7fd7c7d..0d0995a 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -1992,12 +1992,15 @@ KOS_OBJ_ID KOS_repl(KOS_CONTEXT ctx,
         }
     }
 
-    /* Add module to the load chain to prevent and detect circular dependencies */
-    loading.module_name      = module_name;
-    loading.length           = name_size;
-    loading.next             = inst->modules.load_chain;
-    inst->modules.load_chain = &loading;
-    chain_init               = 1;
+    /* Add module to the load chain to prevent and detect circular dependencies.
+     * A temporary module cannot be imported, its name is only used in messages. */
+    if ( ! (flags & KOS_RUN_TEMPORARY)) {
+        loading.module_name      = module_name;
+        loading.length           = name_size;
+        loading.next             = inst->modules.load_chain;
+        inst->modules.load_chain = &loading;
+        chain_init               = 1;
+    }
 
     /* Allocate module object and reserve module index */
     if (module_idx == -1) {
-- 
2.43.0


From bc7d0544e13ed944df70bb232fa6de472f581c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 60/67] fix: threads importing modules at the same time corrupt
 the chain of modules being loaded

---
 core/kos_instance.c |  2 +-
 core/kos_module.c   | 27 ++++++++++++++-------------
 inc/kos_instance.h  |  5 +++--
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/kos_instance.c b/core/kos_instance.c
index 9a48e48..f6380de 100644
--- a/core/kos_instance.c
+++ b/core/kos_instance.c
@@ -117,6 +117,7 @@ static void init_context(KOS_CONTEXT ctx, KOS_INSTANCE *inst)
     ctx->stack_depth = 0;
     ctx->local_list  = KOS_NULL;
     ctx->ulocal_list = KOS_NULL;
+    ctx->load_chain  = KOS_NULL;
     ctx->gc_state    = GC_SUSPENDED;
     ctx->event_flags = 0;
 }
@@ -345,7 +346,6 @@ static void clear_instance(KOS_INSTANCE *inst)
     inst->modules.init_module            = get_init_module();
     inst->modules.module_inits           = KOS_BADPTR;
     inst->modules.libs                   = KOS_NULL;
-    inst->modules.load_chain             = KOS_NULL;
     inst->threads.threads                = KOS_NULL;
     inst->threads.can_create             = 0;
     inst->threads.num_threads            = 0;
diff --git a/core/kos_module.c b/core/kos_module.c
index 0d0995a..7063698 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -1529,9 +1529,10 @@ static void discard_failed_module(KOS_CONTEXT ctx,
         (void)KOS_delete_property(ctx, inst->modules.module_names, module_name.o);
     KOS_clear_exception(ctx);
 
-    /* Reclaim the index if possible, this is important for the base module */
-    if (KOS_get_array_size(inst->modules.modules) == (uint32_t)module_idx + 1U)
-        (void)KOS_array_resize(ctx, inst->modules.modules, (uint32_t)module_idx);
+    /* Reclaim the index of the base module.  Other indexes must not be reclaimed,
+     * because other threads may be allocating them at the same time. */
+    if (module_idx == KOS_BASE_MODULE_IDX && KOS_get_array_size(inst->modules.modules) == 1U)
+        (void)KOS_array_resize(ctx, inst->modules.modules, 0U);
     else
         (void)KOS_array_write(ctx, inst->modules.modules, module_idx, KOS_VOID);
     KOS_clear_exception(ctx);
@@ -1701,7 +1702,7 @@ static KOS_OBJ_ID import_module(KOS_CONTEXT ctx,
 
     /* Add module to the load chain to prevent and detect circular dependencies */
     {
-        KOS_MODULE_LOAD_CHAIN *chain = inst->modules.load_chain;
+        KOS_MODULE_LOAD_CHAIN *chain = ctx->load_chain;
         loading.next = chain;
         for ( ; chain; chain = chain->next) {
             if (loading.length == chain->length &&
@@ -1713,8 +1714,8 @@ static KOS_OBJ_ID import_module(KOS_CONTEXT ctx,
             }
         }
     }
-    inst->modules.load_chain = &loading;
-    chain_init               = 1;
+    ctx->load_chain = &loading;
+    chain_init      = 1;
 
     /* Return the module object if it was already loaded */
     {
@@ -1804,7 +1805,7 @@ static KOS_OBJ_ID import_module(KOS_CONTEXT ctx,
 
 cleanup:
     if (chain_init)
-        inst->modules.load_chain = loading.next;
+        ctx->load_chain = loading.next;
 
     if (error && allocated_idx >= 0)
         discard_failed_module(ctx, actual_module_name.o, allocated_idx);
@@ -1995,11 +1996,11 @@ KOS_OBJ_ID KOS_repl(KOS_CONTEXT ctx,
     /* Add module to the load chain to prevent and detect circular dependencies.
      * A temporary module cannot be imported, its name is only used in messages. */
     if ( ! (flags & KOS_RUN_TEMPORARY)) {
-        loading.module_name      = module_name;
-        loading.length           = name_size;
-        loading.next             = inst->modules.load_chain;
-        inst->modules.load_chain = &loading;
-        chain_init               = 1;
+        loading.module_name = module_name;
+        loading.length      = name_size;
+        loading.next        = ctx->load_chain;
+        ctx->load_chain     = &loading;
+        chain_init          = 1;
     }
 
     /* Allocate module object and reserve module index */
@@ -2040,7 +2041,7 @@ KOS_OBJ_ID KOS_repl(KOS_CONTEXT ctx,
 
 cleanup:
     if (chain_init)
-        inst->modules.load_chain = loading.next;
+        ctx->load_chain = loading.next;
 
     module.o = KOS_destroy_top_locals(ctx, &module_name_str, &module);
 
diff --git a/inc/kos_instance.h b/inc/kos_instance.h
index 713e948..6db0b0e 100644
--- a/inc/kos_instance.h
+++ b/inc/kos_instance.h
@@ -191,6 +191,8 @@ KOS_ALIGNED_STRUCT(64) KOS_THREAD_CONTEXT_S {
     KOS_CONTEXT   prev;
     KOS_OBJ_ID    thread_obj;
 
+    KOS_MODULE_LOAD_CHAIN *load_chain; /* Chain of modules being loaded by this thread */
+
     KOS_ATOMIC(uint32_t) gc_state;
     KOS_ATOMIC(uint32_t) event_flags;
 };
@@ -222,8 +224,7 @@ struct KOS_MODULE_MGMT_S {
     KOS_OBJ_ID init_module;  /* Initial module for top-level stack frame  */
     KOS_OBJ_ID module_inits; /* Registered built-in module initializers   */
 
-    KOS_LIB_LIST          *libs;       /* Module libraries, unloaded at destroy */
-    KOS_MODULE_LOAD_CHAIN *load_chain; /* Chain of modules during loading       */
+    KOS_LIB_LIST *libs;      /* Module libraries, unloaded at destroy    */
 };
 
 struct KOS_THREAD_MGMT_S {
-- 
2.43.0


From d94972b743441d84e526ac0278869085771bfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 61/67] fix: files of modules are ignored if checking them
 fails

---
 core/kos_module.c          | 42 +++++++++++++++++++++++++++++++-------
 core/kos_system.c          | 10 +++++++++
 core/kos_system_internal.h |  2 ++
 3 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index 7063698..cd30d7b 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -23,9 +23,11 @@
 #include "kos_object_internal.h"
 #include "kos_parser.h"
 #include "kos_perf.h"
+#include "kos_system_internal.h"
 #include "kos_try.h"
 #include "kos_utf8_internal.h"
 #include <assert.h>
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -65,6 +67,22 @@ static unsigned rfind_path(const char *path,
     return i;
 }
 
+/* Checks if a file from which a module may be loaded exists.
+ * Raises an exception if this cannot be determined. */
+static int check_file(KOS_CONTEXT ctx, const char *filename, int *exists)
+{
+    const int error = kos_find_file(filename);
+
+    *exists = error == KOS_SUCCESS;
+
+    if (error == KOS_ERROR_ERRNO) {
+        KOS_raise_printf(ctx, "unable to load file \"%s\": %s", filename, strerror(errno));
+        return KOS_ERROR_EXCEPTION;
+    }
+
+    return KOS_SUCCESS;
+}
+
 static int load_native(KOS_CONTEXT ctx, KOS_OBJ_ID module_name, KOS_VECTOR *cpath, KOS_OBJ_ID *mod_init)
 {
     static const char ext[] = KOS_SHARED_LIB_EXT;
@@ -72,7 +90,8 @@ static int load_native(KOS_CONTEXT ctx, KOS_OBJ_ID module_name, KOS_VECTOR *cpat
     KOS_SHARED_LIB    lib;
     KOS_VECTOR        error_cstr;
     unsigned          pos;
-    unsigned          flags = KOS_MODULE_NEEDS_KOS_SOURCE;
+    unsigned          flags  = KOS_MODULE_NEEDS_KOS_SOURCE;
+    int               exists = 0;
 
     *mod_init = KOS_BADPTR;
 
@@ -108,7 +127,10 @@ static int load_native(KOS_CONTEXT ctx, KOS_OBJ_ID module_name, KOS_VECTOR *cpat
         cpath->buffer[1] = KOS_PATH_SEPARATOR;
     }
 
-    if ( ! KOS_does_file_exist(cpath->buffer))
+    if (check_file(ctx, cpath->buffer, &exists))
+        return KOS_ERROR_EXCEPTION;
+
+    if ( ! exists)
         return KOS_SUCCESS;
 
     if (ctx->inst->flags & KOS_INST_VERBOSE)
@@ -283,7 +305,7 @@ static int find_module(KOS_CONTEXT            ctx,
 
             TRY(KOS_string_to_cstr_vec(ctx, path.o, &cpath));
 
-            have_src = KOS_does_file_exist(cpath.buffer);
+            TRY(check_file(ctx, cpath.buffer, &have_src));
 
             dir.o = components[0].o;
 
@@ -433,10 +455,16 @@ static int load_file(KOS_CONTEXT  ctx,
     KOS_vector_init(&cpath);
     TRY(KOS_string_to_cstr_vec(ctx, path_obj, &cpath));
 
-    if ( ! KOS_does_file_exist(cpath.buffer) && ! (flags & KOS_MODULE_NEEDS_KOS_SOURCE)) {
-        file_buf->buffer = KOS_NULL;
-        file_buf->size   = 0;
-        goto cleanup;
+    if ( ! (flags & KOS_MODULE_NEEDS_KOS_SOURCE)) {
+        int exists = 0;
+
+        TRY(check_file(ctx, cpath.buffer, &exists));
+
+        if ( ! exists) {
+            file_buf->buffer = KOS_NULL;
+            file_buf->size   = 0;
+            goto cleanup;
+        }
     }
 
     error = KOS_load_file(cpath.buffer, file_buf);
diff --git a/core/kos_system.c b/core/kos_system.c
index 11723b4..453b92e 100644
--- a/core/kos_system.c
+++ b/core/kos_system.c
@@ -95,6 +95,9 @@ static int is_file(const char *filename)
         if (S_ISDIR(statbuf.st_mode) || kos_seq_fail())
             error = KOS_ERROR_NOT_FOUND;
     }
+    /* Treat files to which there is no access as if they didn't exist */
+    else if (errno == ENOENT || errno == ENOTDIR || errno == EACCES)
+        error = KOS_ERROR_NOT_FOUND;
     else
         error = KOS_ERROR_ERRNO;
 
@@ -262,6 +265,13 @@ int KOS_does_file_exist(const char *filename)
     return is_file(filename) == KOS_SUCCESS;
 }
 
+/* Returns KOS_SUCCESS if the file exists, KOS_ERROR_NOT_FOUND if it does not exist
+ * or KOS_ERROR_ERRNO if it is not known whether it exists. */
+int kos_find_file(const char *filename)
+{
+    return is_file(filename);
+}
+
 int KOS_get_absolute_path(KOS_VECTOR *path)
 {
     int   error;
diff --git a/core/kos_system_internal.h b/core/kos_system_internal.h
index 801d7d9..4af816a 100644
--- a/core/kos_system_internal.h
+++ b/core/kos_system_internal.h
@@ -20,6 +20,8 @@ struct KOS_VECTOR_S;
 int kos_unix_open(const char *filename, int flags);
 #endif
 
+int kos_find_file(const char *filename);
+
 int kos_executable_path(struct KOS_VECTOR_S *buf);
 
 enum KOS_PROTECT_E {
-- 
2.43.0


From 75b5c4831d8f4c6945093f81175ba8c456c2295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 62/67] fix: modules are not found while another thread
 executes a script

---
 core/kos_module.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index cd30d7b..c34e33e 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -195,6 +195,7 @@ static int find_module(KOS_CONTEXT            ctx,
 {
     KOS_LOCAL  path;
     KOS_LOCAL  dir;
+    KOS_LOCAL  search_paths;
     KOS_LOCAL  components[4];
     KOS_VECTOR cpath;
     unsigned   i;
@@ -204,7 +205,7 @@ static int find_module(KOS_CONTEXT            ctx,
 
     KOS_vector_init(&cpath);
 
-    KOS_init_locals(ctx, &path, &dir, &components[0], &components[2], kos_end_locals);
+    KOS_init_locals(ctx, &path, &dir, &search_paths, &components[0], &components[2], kos_end_locals);
 
     components[1].o = KOS_CONST_ID(str_path_sep);
     components[2].o = module_name;
@@ -272,8 +273,11 @@ static int find_module(KOS_CONTEXT            ctx,
     }
     else {
 
-        KOS_INSTANCE *const inst      = ctx->inst;
-        const uint32_t      num_paths = KOS_get_array_size(inst->modules.search_paths);
+        uint32_t num_paths;
+
+        /* Another thread may replace the array in the mean time */
+        search_paths.o = ctx->inst->modules.search_paths;
+        num_paths      = KOS_get_array_size(search_paths.o);
 
         /* Update path used to find modules with subdirectories */
         if (sep_pos) {
@@ -297,7 +301,7 @@ static int find_module(KOS_CONTEXT            ctx,
         for (i = 0; i < num_paths; i++) {
             int have_src;
 
-            components[0].o = KOS_array_read(ctx, inst->modules.search_paths, (int)i);
+            components[0].o = KOS_array_read(ctx, search_paths.o, (int)i);
             TRY_OBJID(components[0].o);
 
             path.o = KOS_string_add_n(ctx, components, sizeof(components)/sizeof(components[0]));
@@ -1606,30 +1610,37 @@ static int insert_first_search_path(KOS_CONTEXT ctx,
                                     KOS_OBJ_ID  dir_obj)
 {
     KOS_LOCAL path_array;
+    KOS_LOCAL old_paths;
     KOS_LOCAL dir;
     int       error = KOS_SUCCESS;
 
-    KOS_init_local(     ctx, &path_array);
-    KOS_init_local_with(ctx, &dir, dir_obj);
+    KOS_init_locals(ctx, &path_array, &old_paths, &dir, kos_end_locals);
+
+    dir.o       = dir_obj;
+    old_paths.o = ctx->inst->modules.search_paths;
 
     /* Avoid adding the same path over and over when many scripts are executed */
-    if (KOS_get_array_size(ctx->inst->modules.search_paths) > 0) {
+    if (KOS_get_array_size(old_paths.o) > 0) {
 
-        const KOS_OBJ_ID first = KOS_array_read(ctx, ctx->inst->modules.search_paths, 0);
+        const KOS_OBJ_ID first = KOS_array_read(ctx, old_paths.o, 0);
         TRY_OBJID(first);
 
         if (first == dir.o)
             goto cleanup;
     }
 
+    /* Replace the whole array, because another thread may be searching for a module */
     path_array.o = KOS_new_array(ctx, 1);
     TRY_OBJID(path_array.o);
 
     TRY(KOS_array_write(ctx, path_array.o, 0, dir.o));
-    TRY(KOS_array_insert(ctx, ctx->inst->modules.search_paths, 0, 0, path_array.o, 0, 1));
+    TRY(KOS_array_insert(ctx, path_array.o, 1, 1, old_paths.o, 0, KOS_get_array_size(old_paths.o)));
+
+    KOS_atomic_release_barrier();
+    ctx->inst->modules.search_paths = path_array.o;
 
 cleanup:
-    KOS_destroy_top_locals(ctx, &dir, &path_array);
+    KOS_destroy_top_locals(ctx, &path_array, &dir);
 
     return error;
 }
-- 
2.43.0


From 343259324e86344205cea80e052cb8575bb7fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 63/67] fix: the Ctrl-C handler running in a thread of another
 instance uses a destroyed instance

---
 core/kos_instance.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/kos_instance.c b/core/kos_instance.c
index f6380de..555e439 100644
--- a/core/kos_instance.c
+++ b/core/kos_instance.c
@@ -1350,6 +1350,7 @@ static void restore_signal(int sig, signal_handler *old_action)
 
 struct KOS_CTRL_C {
     KOS_ATOMIC(KOS_INSTANCE *) instance;
+    KOS_ATOMIC(uint32_t)       num_handlers; /* Number of signal handlers being executed */
     signal_handler             old_handler;
 };
 
@@ -1357,13 +1358,17 @@ static struct KOS_CTRL_C ctrl_c;
 
 static void instance_ctrlc_signal_handler(int sig)
 {
-    KOS_INSTANCE *const instance = (KOS_INSTANCE *)KOS_atomic_read_relaxed_ptr(ctrl_c.instance);
+    KOS_INSTANCE *instance;
+
+    KOS_atomic_add_u32(ctrl_c.num_handlers, 1U);
+
+    instance = (KOS_INSTANCE *)KOS_atomic_read_acquire_ptr(ctrl_c.instance);
 
     /* The signal could have been delivered while another thread was unhooking it */
-    if ( ! instance)
-        return;
+    if (instance)
+        kos_set_global_event(&instance->threads.main_thread, KOS_EVENT_CTRL_C);
 
-    kos_set_global_event(&instance->threads.main_thread, KOS_EVENT_CTRL_C);
+    KOS_atomic_add_u32(ctrl_c.num_handlers, (uint32_t)-1);
 }
 
 int KOS_hook_ctrl_c(KOS_CONTEXT ctx)
@@ -1389,9 +1394,13 @@ int KOS_unhook_ctrl_c(KOS_CONTEXT ctx)
         restore_signal(SIGINT, &ctrl_c.old_handler);
         memset(&ctrl_c.old_handler, 0, sizeof(ctrl_c.old_handler));
 
-        kos_clear_global_event(ctx, KOS_EVENT_CTRL_C);
+        KOS_atomic_swap_ptr(ctrl_c.instance, (KOS_INSTANCE *)KOS_NULL);
 
-        KOS_atomic_write_release_ptr(ctrl_c.instance, (KOS_INSTANCE *)KOS_NULL);
+        /* A handler may still be using this instance in a thread which does not belong to it */
+        while (KOS_atomic_read_acquire_u32(ctrl_c.num_handlers))
+            kos_yield();
+
+        kos_clear_global_event(ctx, KOS_EVENT_CTRL_C);
     }
 
     return KOS_SUCCESS;
-- 
2.43.0


From 381f9a311aa5ef330a85a99d6d63b04f909c541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 64/67] fix: a call which fails for lack of memory after moving
 a closure's frame corrupts the stack

When there was no memory for a new stack object, the reentrant frame
of the caller (closure or generator) remained unchained, with the current
registers of that frame, so unwinding cut garbage off the stack.
---
 core/kos_stack.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/core/kos_stack.c b/core/kos_stack.c
index 88f4415..25c485e 100644
--- a/core/kos_stack.c
+++ b/core/kos_stack.c
@@ -149,6 +149,25 @@ static int push_new_reentrant_stack(KOS_CONTEXT ctx,
     return error;
 }
 
+/* Reverts the effect of unchain_reentrant_frame() */
+static void rechain_reentrant_frame(KOS_CONTEXT ctx,
+                                    KOS_OBJ_ID  gen_stack)
+{
+    const KOS_OBJ_ID old_stack = ctx->stack;
+    const uint32_t   idx       = KOS_atomic_read_relaxed_u32(OBJPTR(STACK, old_stack)->size) - 1U;
+
+    if (old_stack == gen_stack)
+        return;
+
+    assert(KOS_atomic_read_relaxed_u32(OBJPTR(STACK, gen_stack)->flags) & KOS_REENTRANT_STACK);
+    assert(KOS_atomic_read_relaxed_obj(OBJPTR(STACK, old_stack)->buf[idx]) == gen_stack);
+    assert(KOS_atomic_read_relaxed_obj(OBJPTR(STACK, gen_stack)->buf[0]) == old_stack);
+
+    KOS_atomic_write_relaxed_u32(OBJPTR(STACK, old_stack)->size, idx);
+
+    ctx->stack = gen_stack;
+}
+
 int kos_stack_push(KOS_CONTEXT ctx,
                    KOS_OBJ_ID  func_obj,
                    uint8_t     ret_reg,
@@ -212,8 +231,16 @@ int kos_stack_push(KOS_CONTEXT ctx,
                 cur_stack = OBJPTR(STACK, ctx->stack);
             }
 
-            if ( ! stack || KOS_atomic_read_relaxed_u32(cur_stack->size) + room > cur_stack->capacity)
-                TRY(push_new_stack(ctx));
+            if ( ! stack || KOS_atomic_read_relaxed_u32(cur_stack->size) + room > cur_stack->capacity) {
+
+                error = push_new_stack(ctx);
+
+                if (error) {
+                    if (stack)
+                        rechain_reentrant_frame(ctx, OBJID(STACK, stack));
+                    goto cleanup;
+                }
+            }
 
             new_stack = OBJPTR(STACK, ctx->stack);
             base_idx  = KOS_atomic_read_relaxed_u32(new_stack->size);
-- 
2.43.0


From c01c7b198815abc786131a8cdc398037ea88d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 65/67] fix: printing, comparing or reading from a buffer which
 has no storage crashes

---
 core/kos_utils.c       | 33 ++++++++++++++++++---------------
 modules/kos_mod_base.c |  6 ++++++
 modules/kos_mod_kos.c  |  3 ++-
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 765b4cd..3a693d0 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -864,22 +864,24 @@ static int vector_append_buffer(KOS_CONTEXT ctx,
 
     TRY(KOS_append_cstr(ctx, cstr_vec, str_buffer_open, sizeof(str_buffer_open)-1));
 
-    dest = cstr_vec->buffer + cstr_vec->size - 1;
-    src  = KOS_buffer_data_const(obj_id);
-    end  = src + size;
+    /* An empty buffer may not have any storage */
+    if (size) {
 
-    while (src < end) {
+        dest = cstr_vec->buffer + cstr_vec->size - 1;
+        src  = KOS_buffer_data_const(obj_id);
+        end  = src + size;
 
-        const uint8_t b = *(src++);
+        while (src < end) {
 
-        dest[0] = hex_digits[b >> 4];
-        dest[1] = hex_digits[b & 15];
-        dest[2] = ' ';
+            const uint8_t b = *(src++);
 
-        dest += 3;
-    }
+            dest[0] = hex_digits[b >> 4];
+            dest[1] = hex_digits[b & 15];
+            dest[2] = ' ';
+
+            dest += 3;
+        }
 
-    if (size) {
         *(--dest) = 0;
         cstr_vec->size += size * 3 - 1;
     }
@@ -1521,11 +1523,12 @@ static KOS_COMPARE_RESULT compare_buf(KOS_OBJ_ID a, KOS_OBJ_ID b)
     const uint32_t a_size   = KOS_get_buffer_size(a);
     const uint32_t b_size   = KOS_get_buffer_size(b);
     const uint32_t cmp_size = KOS_min(a_size, b_size);
-    const int      min_cmp  = memcmp(KOS_buffer_data_const(a),
-                                     KOS_buffer_data_const(b),
-                                     cmp_size);
 
-    const int cmp = cmp_size ? min_cmp : 0;
+    /* Empty buffers may not have any storage */
+    const int cmp = cmp_size ? memcmp(KOS_buffer_data_const(a),
+                                      KOS_buffer_data_const(b),
+                                      cmp_size)
+                             : 0;
 
     if (cmp)
         return cmp > 0 ? KOS_GREATER_THAN : KOS_LESS_THAN;
diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 417981c..2b24b83 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1480,6 +1480,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 if (size == ~0U)
                     RAISE_EXCEPTION_STR(str_err_invalid_string);
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -1495,6 +1498,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 const uint32_t size = KOS_get_buffer_size(arg.o);
                 uint8_t       *data;
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 99d0a2a..3fc0e86 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -178,7 +178,8 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
         switch (GET_OBJ_TYPE(init.o)) {
 
             case OBJ_BUFFER:
-                memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
+                if (buf_size)
+                    memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
                 kos_lexer->from_generator = 0;
                 break;
 
-- 
2.43.0


From f7d479c1b4a78528dc2ba8ebf9d30a4e28f10105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 66/67] fix: comparing an array while another thread resizes it
 gives wrong results

---
 core/kos_array.c           | 22 ++++++++++++++++++++++
 core/kos_object_internal.h |  3 +++
 core/kos_utils.c           | 33 ++++++++++++++++++++-------------
 3 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 288814c..e9fda31 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -284,6 +284,28 @@ KOS_OBJ_ID KOS_array_read(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id, int idx)
     return elem;
 }
 
+/* Reads an element below the last known size of an array.  Returns KOS_BADPTR if another
+ * thread has removed the element in the meantime. */
+KOS_OBJ_ID kos_array_peek(KOS_OBJ_ID obj_id, uint32_t idx)
+{
+    KOS_ARRAY_STORAGE *buf = get_data(obj_id);
+
+    assert(buf);
+
+    for (;;) {
+
+        const KOS_OBJ_ID elem = KOS_atomic_read_relaxed_obj(buf->buf[idx]);
+
+        if (elem == TOMBSTONE)
+            return KOS_BADPTR;
+
+        if (elem != CLOSED)
+            return elem;
+
+        buf = get_next(buf);
+    }
+}
+
 int KOS_array_write(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id, int idx, KOS_OBJ_ID value)
 {
     int error = KOS_ERROR_EXCEPTION;
diff --git a/core/kos_object_internal.h b/core/kos_object_internal.h
index 983d75a..21bad5f 100644
--- a/core/kos_object_internal.h
+++ b/core/kos_object_internal.h
@@ -216,6 +216,9 @@ static inline KOS_OBJ_ID kos_get_array_storage(KOS_OBJ_ID obj_id)
 int kos_array_copy_storage(KOS_CONTEXT ctx,
                            KOS_OBJ_ID  obj_id);
 
+KOS_OBJ_ID kos_array_peek(KOS_OBJ_ID obj_id,
+                          uint32_t   idx);
+
 /*==========================================================================*/
 /* KOS_BUFFER                                                               */
 /*==========================================================================*/
diff --git a/core/kos_utils.c b/core/kos_utils.c
index 3a693d0..e13fecb 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1473,15 +1473,12 @@ static KOS_COMPARE_RESULT compare_array(KOS_OBJ_ID                a,
                                         KOS_OBJ_ID                b,
                                         struct KOS_COMPARE_REF_S *cmp_ref)
 {
-    const uint32_t a_size   = KOS_get_array_size(a);
-    const uint32_t b_size   = KOS_get_array_size(b);
-    const uint32_t cmp_size = KOS_min(a_size, b_size);
-
-    KOS_ATOMIC(KOS_OBJ_ID)       *a_buf    = a_size ? kos_get_array_buffer(OBJPTR(ARRAY, a)) : KOS_NULL;
-    KOS_ATOMIC(KOS_OBJ_ID)       *b_buf    = b_size ? kos_get_array_buffer(OBJPTR(ARRAY, b)) : KOS_NULL;
-    KOS_ATOMIC(KOS_OBJ_ID) *const a_end    = a_size ? a_buf + cmp_size : KOS_NULL;
-    KOS_COMPARE_RESULT            cmp      = KOS_EQUAL;
-    struct KOS_COMPARE_REF_S      this_ref;
+    uint32_t                 a_size   = KOS_get_array_size(a);
+    uint32_t                 b_size   = KOS_get_array_size(b);
+    const uint32_t           cmp_size = KOS_min(a_size, b_size);
+    uint32_t                 idx;
+    KOS_COMPARE_RESULT       cmp      = KOS_EQUAL;
+    struct KOS_COMPARE_REF_S this_ref;
 
     this_ref.a    = a;
     this_ref.b    = b;
@@ -1502,11 +1499,21 @@ static KOS_COMPARE_RESULT compare_array(KOS_OBJ_ID                a,
         cmp_ref = cmp_ref->next;
     }
 
-    for ( ; a_buf < a_end; ++a_buf, ++b_buf) {
+    for (idx = 0; idx < cmp_size; ++idx) {
+
+        const KOS_OBJ_ID a_elem = kos_array_peek(a, idx);
+        const KOS_OBJ_ID b_elem = kos_array_peek(b, idx);
+
+        /* Another thread has made one of the arrays shorter */
+        if (IS_BAD_PTR(a_elem) || IS_BAD_PTR(b_elem)) {
+            if (IS_BAD_PTR(a_elem))
+                a_size = idx;
+            if (IS_BAD_PTR(b_elem))
+                b_size = idx;
+            break;
+        }
 
-        cmp = compare(KOS_atomic_read_relaxed_obj(*a_buf),
-                       KOS_atomic_read_relaxed_obj(*b_buf),
-                       &this_ref);
+        cmp = compare(a_elem, b_elem, &this_ref);
 
         if (cmp)
             break;
-- 
2.43.0


From 327ebcc75b367aa6ebaf9c612d9f8d10cd4502b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:15 +0000
Subject: [PATCH 67/67] fix: printing several values uses a stale arguments
 array after a collection

---
 core/kos_utils.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index e13fecb..1824074 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1275,32 +1275,35 @@ KOS_OBJ_ID KOS_object_to_string(KOS_CONTEXT ctx,
 }
 
 int KOS_print_to_cstr_vec(KOS_CONTEXT   ctx,
-                          KOS_OBJ_ID    array,
+                          KOS_OBJ_ID    array_obj,
                           KOS_QUOTE_STR quote_str,
                           KOS_VECTOR   *cstr_vec,
                           const char   *sep,
                           unsigned      sep_len)
 {
-    int      error = KOS_SUCCESS;
-    uint32_t len;
-    uint32_t i;
-    uint32_t first_sep_i;
+    int       error = KOS_SUCCESS;
+    uint32_t  len;
+    uint32_t  i;
+    uint32_t  first_sep_i;
+    KOS_LOCAL array;
+
+    KOS_init_local_with(ctx, &array, array_obj);
 
     assert(cstr_vec);
-    assert(GET_OBJ_TYPE(array) == OBJ_ARRAY);
+    assert(GET_OBJ_TYPE(array.o) == OBJ_ARRAY);
 
-    if (GET_OBJ_TYPE(array) != OBJ_ARRAY)
+    if (GET_OBJ_TYPE(array.o) != OBJ_ARRAY)
         RAISE_EXCEPTION_STR(str_err_not_array);
 
     first_sep_i = cstr_vec->size ? 0U : 1U;
 
-    len = KOS_get_array_size(array);
+    len = KOS_get_array_size(array.o);
 
     if (len)
         TRY(KOS_vector_reserve(cstr_vec, cstr_vec->size + 128U));
 
     for (i = 0; i < len; i++) {
-        KOS_OBJ_ID obj = KOS_array_read(ctx, array, (int)i);
+        KOS_OBJ_ID obj = KOS_array_read(ctx, array.o, (int)i);
         TRY_OBJID(obj);
 
         if (i >= first_sep_i && sep_len) {
@@ -1313,6 +1316,8 @@ int KOS_print_to_cstr_vec(KOS_CONTEXT   ctx,
     }
 
 cleanup:
+    KOS_destroy_top_local(ctx, &array);
+
     if (error == KOS_ERROR_OUT_OF_MEMORY) {
         KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         error = KOS_ERROR_EXCEPTION;
-- 
2.43.0

