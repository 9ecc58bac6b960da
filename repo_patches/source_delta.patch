From 6ba4e50e0cb21c57e2abc1c98ebc9454e7450f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 01/35] fix: reject signed MBN with inconsistent sign bits

10-byte encodings have room for 70 bits and the extra bits must be
the copies of the sign bit. One of them wasn't checked, meaning that
a positive number could be decoded as a negative one and vice versa.
---
 src/gutil_datapack.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..0c9a507 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -165,8 +165,9 @@ gutil_signed_mbn_decode(
                         in->ptr += off;
                         return TRUE;
                     } else {
-                        /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        /* Unused bits (and the sign) must be set to 1 */
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) ==
+                            0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -176,9 +177,9 @@ gutil_signed_mbn_decode(
                     }
                 } else {
                     /* Positive number, unused bits (if any) must be zeroed */
-                    /* Unused bits must be zeroed */
+                    /* Unused bits (and the sign) must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From 7dc2b3407577ba1e30480dcb6681b69ef57ef7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 02/35] fix: out-of-bounds read on huge TLV length

The length was compared as a signed number, anything above G_MAXINT64
passed the check and moved the input range backwards.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 0c9a507..63148b9 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -412,7 +412,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From 6fe0d5c3ab2e8b0aac8a4b612e3fd05661b87cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 03/35] fix: don't consume TLV with zero tag

gutil_tlv_decode() returned zero (no TLV) but moved the range, and
gutil_tlvs_decode() accepted zero tag at the end of the input.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 63148b9..7b55ad8 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -410,7 +410,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From 93ac73e37ef140fa395f2a4120e56655aa263416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 04/35] fix: heap overflow after flattening a ring buffer

gutil_ring_flatten() was shrinking the storage of a wrapped buffer
without updating its allocated size.
---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..c5564ab 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -426,7 +426,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 2001dc0f65305a515226b54bb0b9ea4cb552da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 05/35] fix: enforce ring buffer size limit

The limit was only checked when the buffer had to be reallocated and
could be exceeded if more space had already been allocated.
---
 src/gutil_ring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index c5564ab..c310e59 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -281,7 +281,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +299,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From 7d79cfb72edec20da46c57e6a287860ef72616bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 06/35] fix: don't pretend to reserve more than the ring size
 limit

gutil_ring_reserve() was returning TRUE if the requested size exceeded
the limit but the buffer could still be grown.
---
 src/gutil_ring.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index c310e59..7444d62 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -225,12 +225,12 @@ gutil_ring_reserve(
     gint minsize)
 {
     if (G_LIKELY(r)) {
-        if (minsize <= r->alloc) {
+        if (r->maxsiz >= 0 && minsize > r->maxsiz) {
+            /* That many elements won't fit */
+            return FALSE;
+        } else if (minsize <= r->alloc) {
             /* The buffer is already large enough */
             return TRUE;
-        } else if (r->maxsiz >= 0 && r->alloc >= r->maxsiz) {
-            /* Can't grow the buffer anymore */
-            return FALSE;
         } else {
             gpointer* buf;
 
-- 
2.43.0


From 41027f5bd7cd1c0b377c70cbce7a880f48d8998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 07/35] fix: integer overflow in gutil_ring_can_put

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 7444d62..92b2614 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 0b3f35413f81384978cf719967ada21ee6326b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 08/35] fix: integer overflow in history median

The sum of two large samples didn't fit into an int.
---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..1610566 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,7 +195,7 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1)/2;
             t = t1;
             v = v1;
         }
-- 
2.43.0


From ab32d8562e8a41a93ab81295f4eb5ae6d01f239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 09/35] fix: idle queue freed by its own callback

The run loop kept accessing the queue after a callback (or a destroy
notification) has dropped the last reference to it.
---
 src/gutil_idlequeue.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..8c946e1 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -52,6 +52,7 @@ struct gutil_idle_queue_item {
 
 struct gutil_idle_queue {
     gint ref_count;
+    gint running;   /* References held by gutil_idle_queue_run */
     guint source_id;
     GUtilIdleQueueItem* first;
     GUtilIdleQueueItem* last;
@@ -77,6 +78,11 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean result;
+
+    /* Callbacks may drop the last reference to the queue */
+    gutil_idle_queue_ref(q);
+    q->running++;
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -89,7 +95,8 @@ gutil_idle_queue_run(
         item->completed = TRUE;
     }
 
-    while ((item = q->first) && item->completed) {
+    while ((item = q->first) && item->completed &&
+           g_atomic_int_get(&q->ref_count) > q->running) {
         /* Remove this one from the list */
         q->first = item->next;
         if (!q->first) {
@@ -115,11 +122,16 @@ gutil_idle_queue_run(
 
     if (q->first) {
         /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
+        result = G_SOURCE_CONTINUE;
     } else {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
+        result = G_SOURCE_REMOVE;
     }
+
+    /* This cancels the remaining items if the queue has been freed */
+    q->running--;
+    gutil_idle_queue_unref(q);
+    return result;
 }
 
 GUtilIdleQueue*
-- 
2.43.0


From 39738b2f916c87d7d911e923c22676e13945fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 10/35] fix: don't remove random sources when idle pool is
 drained

Idle pool attaches its source to the thread-default context but
g_source_remove() looks it up by id in the global default context,
where the same id belongs to something else (or to nothing).
---
 src/gutil_idlepool.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..005ff7a 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* idle;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -154,6 +154,24 @@ gutil_idle_pool_destroy(
     }
 }
 
+static
+void
+gutil_idle_pool_drop_idle_source(
+    GUtilIdlePool* self)
+{
+    /*
+     * The source isn't necessarily attached to the default context,
+     * i.e. it can't be identified by its id.
+     */
+    if (self->idle) {
+        GSource* src = self->idle;
+
+        self->idle = NULL;
+        g_source_destroy(src);
+        g_source_unref(src);
+    }
+}
+
 void
 gutil_idle_pool_drain(
     GUtilIdlePool* self)
@@ -173,12 +191,7 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
-
-        self->idle_id = 0;
-        g_source_remove(id);
-    }
+    gutil_idle_pool_drop_idle_source(self);
 }
 
 static
@@ -188,7 +201,7 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
+    gutil_idle_pool_drop_idle_source(self);
 
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
@@ -240,16 +253,15 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
-            GSource* src = g_idle_source_new();
+        if (!self->idle) {
+            GSource* src = self->idle = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
         }
     }
     return pointer;
-- 
2.43.0


From cdf0f6a6bb66be8a990aab05ff1f8388b3d1d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 11/35] fix: idle pool may be freed while it's being drained

A shared pool only referenced by itself and by its idle source was
freed by a nested drain (e.g. from item destructor) and the outer one
kept using it. And if an item was added while the last reference was
being dropped, the pool was freed twice.
---
 src/gutil_idlepool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 005ff7a..6f11fbc 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -138,6 +138,8 @@ gutil_idle_pool_unref(
         if (g_atomic_int_dec_and_test(&self->ref_count)) {
             /* Clear pointer to the shared instance */
             if (self->shared) *(self->shared) = NULL;
+            /* Destructors may still be using (and referencing) the pool */
+            g_atomic_int_set(&self->ref_count, 1);
             gutil_idle_pool_drain(self);
             gutil_slice_free(self);
         }
@@ -180,6 +182,8 @@ gutil_idle_pool_drain(
     if (!self) {
         self = gutil_idle_pool_get_default();
     }
+    /* Destructors may drop the last reference to the pool */
+    gutil_idle_pool_ref(self);
     while (self->first) {
         GUtilIdlePoolItem* items = self->first;
         GUtilIdlePoolItem* item = items;
@@ -192,6 +196,7 @@ gutil_idle_pool_drain(
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
     gutil_idle_pool_drop_idle_source(self);
+    gutil_idle_pool_unref(self);
 }
 
 static
-- 
2.43.0


From cb265205ea9e7606e96106b9ce691fe07abe0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 12/35] fix: reschedule draining of idle pool if the context
 has gone

Once the context with the idle source was destroyed, everything added
to the pool after that was never released by any main loop.
---
 src/gutil_idlepool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 6f11fbc..784147b 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -258,6 +258,10 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
+        if (self->idle && g_source_is_destroyed(self->idle)) {
+            /* The context has gone, need a new source */
+            gutil_idle_pool_drop_idle_source(self);
+        }
         if (!self->idle) {
             GSource* src = self->idle = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
-- 
2.43.0


From 17d57e5ea58bc17967b598531dfbb8e44983094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 13/35] fix: overflow when sorting arrays of ints

The difference of two ints may not fit into int, in which case the
order (and therefore the result of sorting) was wrong.
---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..cd6554c 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -320,7 +320,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -341,7 +341,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From f516378e5a12e18179f5243d36e9119bfdfdeece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 14/35] fix: overflow in gutil_int_array_remove_range

Sum of the position and the count could overflow.
---
 src/gutil_intarray.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index cd6554c..309e513 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max));
     }
     return array;
 }
-- 
2.43.0


From eda0e4aa7123047a6010153d1dedf3352cd73f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 15/35] fix: check the position in
 gutil_int_array_remove_index_fast

Just like gutil_int_array_remove_index does.
---
 src/gutil_intarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 309e513..4d3348e 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -288,7 +288,7 @@ gutil_int_array_remove_index_fast(
     GUtilIntArray* array,
     guint pos)
 {
-    if (array) {
+    if (array && pos < array->count) {
         g_array_remove_index_fast((GArray*)array, pos);
     }
     return array;
-- 
2.43.0


From 51f44bd6c19ab6bd312ca5d00e03b569697b0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 16/35] fix: range calculation in gutil_ints_new_from_ints

The sum of the offset and the count could overflow, and a reference
was leaked if the requested range was empty.
---
 src/gutil_ints.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..baa3fc3 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -110,14 +110,11 @@ gutil_ints_new_from_ints(
     guint offset,
     guint count)
 {
-    if (ints && offset < ints->count) {
-        guint end = offset + count;
+    if (ints && offset < ints->count && count) {
+        const guint max = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+        return gutil_ints_new_with_free_func(ints->data + offset,
+            MIN(count, max), gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From b65dc6486fb595cf709f3dea49e47a3b8771426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 17/35] fix: don't give away the data which can't be freed

The data aren't necessarily what's passed to the free function,
even if it's g_free.
---
 src/gutil_ints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index baa3fc3..898c30f 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -156,7 +156,7 @@ gutil_ints_unref_to_data(
             *count = ints->count;
         }
         if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
+            if (ints->free_func == g_free && ints->user_data == ints->data) {
                 /* We can allow the caller to free the data */
                 result = (int*)ints->data;
             } else {
-- 
2.43.0


From ff98af4d2bdf1752bfb8f50839b593b01c5503ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 18/35] fix: NULL pointer call in gutil_ints_unref_to_data

Static data have no free function.
---
 src/gutil_ints.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 898c30f..f63c85e 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -161,7 +161,9 @@ gutil_ints_unref_to_data(
                 result = (int*)ints->data;
             } else {
                 result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
+                if (ints->free_func) {
+                    ints->free_func(ints->user_data);
+                }
             }
             gutil_slice_free(ints);
         } else {
-- 
2.43.0


From ef7f81d7763d889619cef694ed1f2fcd23ba03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 19/35] fix: don't parse a blank string as zero

---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..b365b2f 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end > stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -347,7 +347,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end > stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From f264ef37a5098d25ad01539ea94fe215a0056e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 20/35] fix: reject minus after a vertical tab in
 gutil_parse_uint64

---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index b365b2f..5336aba 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -335,13 +335,13 @@ gutil_parse_uint64(
 
     /*
      * Sorry, we don't accept minus as a part of an unsigned number
-     * (unlike strtoul)
+     * (unlike strtoul, which also skips more leading spaces than we do)
      */
     if (str && *str && *str != '-') {
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
-- 
2.43.0


From f4a98ddcd8a723c33aedf5c8a687ba975ff7aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 21/35] fix: gutil_log ignored the flags of the default module
 if the module is NULL

---
 src/gutil_log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..b129e89 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -437,6 +437,8 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
+        /* NULL means the default module, just like for gutil_log_enabled */
+        if (!module) module = &gutil_log_default;
         gutil_logv_r(module, module, level, format, va);
     }
 }
-- 
2.43.0


From cde11476fece8b085031b86261814359054c28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 22/35] fix: long time stamps in the log

strftime() leaves the buffer in undefined state if the result doesn't
fit, and whatever was there ended up in the log.
---
 src/gutil_log.c | 57 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index b129e89..39ef437 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -158,6 +158,47 @@ gutil_log_format(
     return buffer;
 }
 
+/**
+ * Formats current time into the given buffer, or allocates a larger one
+ * if the result doesn't fit into it, just like gutil_log_format does.
+ */
+static
+char*
+gutil_log_format_time(
+    char* buf,
+    gsize bufsize)
+{
+    /* This is more than enough, unless field widths are being abused */
+    const gsize maxsize = 1024 + 64 * strlen(gutil_log_ftime);
+    gsize size = bufsize;
+    char* buffer = buf;
+    time_t now;
+    const struct tm* tm;
+#ifndef _WIN32
+    struct tm tm_;
+#define localtime(t) localtime_r(t, &tm_)
+#endif
+
+    time(&now);
+    tm = localtime(&now);
+#undef localtime
+    buf[0] = 0;
+
+    /* The contents of the buffer is undefined if strftime returns zero */
+    while (!strftime(buffer, size, gutil_log_ftime, tm)) {
+        if (buffer != buf) g_free(buffer);
+        if (size >= maxsize) {
+            /* Either too long or there's actually nothing to print */
+            buf[0] = 0;
+            return buf;
+        }
+        size *= 2;
+        buffer = g_malloc(size);
+    }
+
+    return buffer;
+}
+
 /* Forward output to stdout or stderr */
 void
 gutil_log_stdio(
@@ -167,24 +208,17 @@ gutil_log_stdio(
     const char* format,
     va_list va)
 {
-    char t[32];
+    char tbuf[32];
     char buf[512];
     const char* prefix = "";
+    char* t = tbuf;
     char* msg;
 
     /* gutil_log_ftime is never NULL but can be empty */
     if (gutil_log_timestamp && gutil_log_ftime[0]) {
-        time_t now;
-#ifndef _WIN32
-        struct tm tm_;
-#define localtime(t) localtime_r(t, &tm_)
-#endif
-
-        time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
-#undef localtime
+        t = gutil_log_format_time(tbuf, sizeof(tbuf));
     } else {
-        t[0] = 0;
+        tbuf[0] = 0;
     }
 
     /* Empty name is treated the same way as NULL */
@@ -225,6 +259,7 @@ gutil_log_stdio(
         fprintf(out, "%s%s%s\n", t, prefix, msg);
     }
     if (msg != buf) g_free(msg);
+    if (t != tbuf) g_free(t);
 }
 
 void
-- 
2.43.0


From d500da28a9a478108505b37fc2055f19251df97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 23/35] fix: inotify watch could remove another watch for the
 same inode

E.g. if a handler drops the last reference to its watch and creates
a new watch for the same file, the old watch is still alive at that
point and its watch descriptor gets reused by the new one.
---
 src/gutil_inotify.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..fcca096 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -259,13 +259,25 @@ gutil_inotify_add_watch(
 }
 
 static
-void
+gboolean
 gutil_inotify_remove_watch(
     GUtilInotify* self,
     GUtilInotifyWatch* watch)
 {
+    gconstpointer key = GINT_TO_POINTER(watch->wd);
+
     GASSERT(watch->wd >= 0);
-    GVERIFY(g_hash_table_remove(self->watches, GINT_TO_POINTER(watch->wd)));
+
+    /*
+     * The same watch descriptor could have been reused by another watch
+     * for the same inode, in which case it's not ours anymore.
+     */
+    if (g_hash_table_lookup(self->watches, key) == watch) {
+        g_hash_table_remove(self->watches, key);
+        return TRUE;
+    } else {
+        return FALSE;
+    }
 }
 
 /*==========================================================================*
@@ -310,8 +322,9 @@ gutil_inotify_watch_stop(
     GUtilInotifyWatch* self)
 {
     if (self->wd >= 0) {
-        gutil_inotify_remove_watch(self->inotify, self);
-        inotify_rm_watch(self->inotify->fd, self->wd);
+        if (gutil_inotify_remove_watch(self->inotify, self)) {
+            inotify_rm_watch(self->inotify->fd, self->wd);
+        }
         self->wd = -1;
     }
 }
-- 
2.43.0


From 317f1e8324c47b54bd6ce9c1064a76e873d6e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 24/35] fix: data race in gutil_ints_unref_to_data

---
 src/gutil_ints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index f63c85e..b943405 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -155,19 +155,15 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free && ints->user_data == ints->data) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                if (ints->free_func) {
-                    ints->free_func(ints->user_data);
-                }
-            }
+        if (g_atomic_int_get(&ints->ref_count) == 1 &&
+            ints->free_func == g_free && ints->user_data == ints->data) {
+            /* We can allow the caller to free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
+            /* The data may go away as soon as we drop our reference */
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


From 04705204fec9944f84661ccbcbcfce9c342ac73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 25/35] fix: unbalanced parenthesis in version macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From fa8e2f931570de86e180d15f7d9b2cb819c61211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 26/35] fix: wrong assertion in gutil_int_history_size

It failed if there was only one entry.
---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 1610566..d15cbb7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -139,7 +139,7 @@ gutil_int_history_size(
             if (h->first > h->last) {
                 return (h->max_size + h->last - h->first + 1);
             } else {
-                GASSERT(h->last > h->first);
+                GASSERT(h->last >= h->first);
                 return (h->last - h->first + 1);
             }
         }
-- 
2.43.0


From d93522df9ea4c2b9ed343e2c6f3608dc1c7a2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 27/35] fix: wrong assertion in gutil_idle_queue_cancel_tag

The destructor could cancel the rest and remove the source.
---
 src/gutil_idlequeue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index 8c946e1..6774853 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -277,9 +277,9 @@ gutil_idle_queue_cancel_tag(
     if (G_LIKELY(q) && q->first) {
         GUtilIdleQueueItem* item = q->first;
         if (item->tag == tag) {
+            GASSERT(q->source_id);
             item->completed = TRUE;
             gutil_idle_queue_cancel_first(q);
-            GASSERT(q->source_id);
             if (!q->first) {
                 gutil_source_clear(&q->source_id);
             }
-- 
2.43.0


From 10e2cb2c6765ff89706a3b4014f72b543089584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 28/35] fix: inotify descriptor was closed twice

The second close() could close a descriptor which has been opened by
another thread in the meantime.
---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index fcca096..0cdf953 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -120,9 +120,9 @@ gutil_inotify_unref(
         }
         GASSERT(!g_hash_table_size(self->watches));
         g_hash_table_destroy(self->watches);
+        /* This closes the descriptor */
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From 9c5e71b16ea2ebf6a3a8303217b2c0851da635cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 29/35] fix: gutil_strv_remove used the string after freeing it

if it was asked to remove all copies of a string which belongs to
the vector.
---
 src/gutil_strv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gutil_strv.c b/src/gutil_strv.c
index a637782..6ed370a 100644
--- a/src/gutil_strv.c
+++ b/src/gutil_strv.c
@@ -244,18 +244,21 @@ gutil_strv_remove(
 
         if (pos >= 0) {
             guint len = gutil_strv_length(sv);
+            char* removed = sv[pos]; /* May actually be s */
 
-            sv = gutil_strv_remove_impl(sv, pos, len, TRUE);
+            sv = gutil_strv_remove_impl(sv, pos, len, FALSE);
             if (remove_all) {
                 int i, l;
 
                 len--;
                 l = len - pos;
-                while ((i = gutil_strv_find_last_impl(sv + pos, s, l)) >= 0) {
+                while ((i = gutil_strv_find_last_impl(sv + pos, removed,
+                    l)) >= 0) {
                     sv = gutil_strv_remove_impl(sv, pos + i, len--, TRUE);
                     l = i;
                 }
             }
+            g_free(removed);
         }
     }
     return sv;
-- 
2.43.0


From 3cfd3f64eaae275eba7fc71eaafcb7d34eeb1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:20 +0000
Subject: [PATCH 30/35] fix: appending a vector of objects to itself

---
 src/gutil_objv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_objv.c b/src/gutil_objv.c
index b226da6..1007c8a 100644
--- a/src/gutil_objv.c
+++ b/src/gutil_objv.c
@@ -152,13 +152,15 @@ gutil_objv_append(
 
     if (len2 > 0) {
         const gsize len1 = gutil_ptrv_length(objv);
+        const gboolean self = (objs == objv); /* May get reallocated */
         GObject* const* src;
         GObject** dest;
+        gsize i;
 
         objv = g_renew(GObject*, objv, len1 + len2 + 1);
         dest = objv + len1;
-        src = objs;
-        while (*src) {
+        src = self ? objv : objs;
+        for (i = 0; i < len2; i++) {
             *dest++ = g_object_ref(*src++);
         }
         *dest = NULL;
-- 
2.43.0


From 2436c4c27c80bc6f690583b379db1537426cdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 31/35] fix: gutil_tlv_size() returned truncated size for 4GB
 and more of data

---
 include/gutil_datapack.h | 2 +-
 src/gutil_datapack.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gutil_datapack.h b/include/gutil_datapack.h
index f46c4f7..8d8d53b 100644
--- a/include/gutil_datapack.h
+++ b/include/gutil_datapack.h
@@ -150,7 +150,7 @@ typedef enum gutil_tlvs_decode_flags {
     GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS = 0x1
 } GUTIL_TLVS_DECODE_FLAGS;
 
-guint
+gsize
 gutil_tlv_size(
     guint tag,
     gsize len);
diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 7b55ad8..652ef52 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -373,7 +373,7 @@ gutil_unsigned_mbn_decode2(
  * tags array passed to gutil_tlvs_decode() is zero terminated.
  */
 
-guint
+gsize
 gutil_tlv_size(
     guint tag,
     gsize len)
-- 
2.43.0


From fc3145a51524f759d51e97db18764c4773ee95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 32/35] fix: gutil_data_copy() truncated blocks of 4GB and more

---
 src/gutil_misc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 5336aba..99f5223 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -410,10 +410,11 @@ gutil_data_from_bytes(
     return data;
 }
 
+static
 GUtilData*
-gutil_data_new(
+gutil_data_new_internal(
     const void* bytes,
-    guint len) /* Since 1.0.72 */
+    gsize len)
 {
     /*
      * The whole thing is allocated from a single memory block and
@@ -434,6 +435,14 @@ gutil_data_new(
     return data;
 }
 
+GUtilData*
+gutil_data_new(
+    const void* bytes,
+    guint len) /* Since 1.0.72 */
+{
+    return gutil_data_new_internal(bytes, len);
+}
+
 GUtilData*
 gutil_data_copy(
     const GUtilData* data) /* Since 1.0.72 */
@@ -442,7 +451,7 @@ gutil_data_copy(
      * The whole thing is allocated from a single memory block and
      * has to be freed with a single g_free()
      */
-    return data ? gutil_data_new(data->bytes, data->size) : NULL;
+    return data ? gutil_data_new_internal(data->bytes, data->size) : NULL;
 }
 
 GVariant*
-- 
2.43.0


From 4840a6bab11e4c6d9c7d4959a9f0edf9f281390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 33/35] fix: gutil_log_dump() got confused by 4GB and more of
 data

---
 src/gutil_log.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 39ef437..fa7faae 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -546,14 +546,16 @@ gutil_log_dump2(
     gsize size)
 {
     const guint8* ptr = data;
-    guint off = 0;
+    gsize off = 0;
 
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        const guint consumed = gutil_hexdump(buf, ptr + off,
+            (guint) MIN(size, GUTIL_HEXDUMP_MAXBYTES));
 
-        gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
+        gutil_log(module, level, "%s%04" G_GSIZE_MODIFIER "X: %s", prefix,
+            off, buf);
         size -= consumed;
         off += consumed;
     }
-- 
2.43.0


From 3c4d04d0d31a6d23607700482773364759f3f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 34/35] fix: don't let the time stamp change errno before the
 message is formatted

---
 src/gutil_log.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index fa7faae..1ea6183 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -33,6 +33,7 @@
 #include "gutil_log.h"
 #include "gutil_misc.h"
 
+#include <errno.h>
 #include <stdlib.h>
 
 #if __GNUC__ >= 4
@@ -216,7 +217,10 @@ gutil_log_stdio(
 
     /* gutil_log_ftime is never NULL but can be empty */
     if (gutil_log_timestamp && gutil_log_ftime[0]) {
+        const int err = errno; /* The message may refer to it (%m) */
+
         t = gutil_log_format_time(tbuf, sizeof(tbuf));
+        errno = err;
     } else {
         tbuf[0] = 0;
     }
-- 
2.43.0


From 3c709606def880c5ff5af616ad210e808ced1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 35/35] fix: don't keep allocating memory for a log message
 which can't be formatted

---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 1ea6183..305c623 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -149,7 +149,9 @@ gutil_log_format(
             if (nchars < size) break;
             size = nchars+1;  /* Precisely what is needed */
         } else {
-            size *= 2;        /* Twice the old size */
+            /* Formatting error (e.g. EILSEQ), more space won't help */
+            buffer[size - 1] = 0;
+            break;
         }
 
         if (buffer != buf) g_free(buffer);
-- 
2.43.0

