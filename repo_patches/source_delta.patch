From df7dcbc0ccdcc027884ddafc55f4658c896eb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 01/35] fix: don't read past the end of an exactly full pool
 while scanning its remembered set

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..e353251 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -542,7 +542,7 @@ collect:
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
+                        if ((ggc_size_t *) obj >= poolCur->end || obj->descriptor__ptr == NULL) break;
                     }
                 }
             }
-- 
2.43.0


From a2214239a973c106a82daa7e9c467f5f17983114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 02/35] fix: initialize a new pool's survivor count and
 finalizer list

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index dfb161f..a1ddbcd 100644
--- a/allocator.c
+++ b/allocator.c
@@ -126,6 +126,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     ret->next = NULL;
     ret->free = ret->start;
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
 
     return ret;
 }
-- 
2.43.0


From 14878ef325c4737cb707243ac0c5fa90d4706288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 03/35] fix: GGC_PTR must not shift an int, which cannot
 describe members beyond word 31

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..d8925d0 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From 0f9236fe817cb9faf89c563e0657f32f32d4fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 04/35] fix: describe types wider than one description word
 without reading past the mask

---
 allocator.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/allocator.c b/allocator.c
index a1ddbcd..f95f5eb 100644
--- a/allocator.c
+++ b/allocator.c
@@ -273,8 +273,33 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
 struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t pointers)
 {
     ggc_size_t pointersA[1];
-    pointersA[0] = pointers;
-    return ggggc_allocateDescriptorL(size, pointersA);
+    ggc_size_t *pointersL;
+    ggc_size_t pWords, i;
+    struct GGGGC_Descriptor *ret;
+
+    pWords = (size + GGGGC_BITS_PER_WORD - 1) / GGGGC_BITS_PER_WORD;
+    if (pWords <= 1) {
+        pointersA[0] = pointers;
+        return ggggc_allocateDescriptorL(size, pointersA);
+    }
+
+    /* the size needs more description words than we were given. The rest of
+     * the object has no pointers. */
+#ifdef alloca
+    pointersL = (ggc_size_t *)
+        alloca(sizeof(ggc_size_t) * pWords);
+#else
+    pointersL = (ggc_size_t *)
+        malloc(sizeof(ggc_size_t) * pWords);
+    if (!pointersL) abort();
+#endif
+    pointersL[0] = pointers;
+    for (i = 1; i < pWords; i++) pointersL[i] = 0;
+    ret = ggggc_allocateDescriptorL(size, pointersL);
+#ifndef alloca
+    free(pointersL);
+#endif
+    return ret;
 }
 
 /* descriptor allocator when more than one word is required to describe the
-- 
2.43.0


From a41bcc82ba03510641ca87aad425ced367f89873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 05/35] fix: GGC_ListShift must return the element, not its
 list node

---
 collections/list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..1db0841 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,6 +176,7 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *el = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
@@ -189,9 +190,11 @@ void *GGC_ListShift(GGC_List list)
 
         len = GGC_RD(list, length) - 1;
         GGC_WD(list, length, len);
+
+        el = GGC_RP(node, el);
     }
 
-    return node;
+    return el;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From 7dd05fb1b313feb3cf2208b5ddd5c3b9332f84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 06/35] fix: splicing an empty list must leave the target list
 alone

---
 collections/list.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 1db0841..cc037ed 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,9 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to do if the source list is empty */
+    if (!GGC_RP(from, head)) return;
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -146,6 +149,9 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to do if the source list is empty */
+    if (!GGC_RP(from, head)) return;
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -226,6 +232,9 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    /* nothing to do if the source list is empty */
+    if (!GGC_RP(from, head)) return;
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
-- 
2.43.0


From 3e799c1d85e7fc81be0eda76c2ebc755ff66577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 07/35] fix: inserting after the last node must move the list's
 tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index cc037ed..da381fe 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -217,6 +217,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
@@ -248,6 +250,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From 8d31f6e9cb077f88a32fd4862c49c04521564260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 08/35] fix: compaction must not read past the end of a pool
 when its last chunk has an odd size

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index e353251..fb03115 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1158,7 +1158,7 @@ void ggggc_compact(struct GGGGC_Pool *pool)
             *btEnd++ = *bt++;
 
             /* and copy in the data */
-            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t); j++)
+            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t) && i + j < chSize; j++)
                 pool->free[i+j] = cur[i+j];
         }
 
-- 
2.43.0


From a3c363b802fe86abfcfcc62884efabf8ad5d9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 09/35] fix: finalizers must recognize live objects in older
 generations and in full collections

---
 collector/gembc.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index fb03115..409f06f 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -251,8 +251,9 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
+/* macro to handle the finalizers for a given pool. survived is the condition
+ * which holds iff obj (a finalizer's object) survived this collection */
+#define FINALIZER_POOL(survived) do { \
     finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
     while (finalizer) { \
@@ -264,7 +265,7 @@ static struct ToSearch toSearchList;
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        if (survived) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
@@ -642,12 +643,12 @@ collect:
             /* add all the finalizers themselves */
             for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                 for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_FORWARDED_OBJECT(obj) || GGGGC_GEN_OF(obj) > gen);
                 }
             }
             for (genCur = 1; genCur <= gen; genCur++) {
                 for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_FORWARDED_OBJECT(obj) || GGGGC_GEN_OF(obj) > gen);
                 }
             }
 
@@ -831,6 +832,15 @@ static struct BreakTableEl *findBreakTableEntry(struct BreakTableEl *breakTable,
     }
 }
 
+#ifdef GGGGC_FEATURE_FINALIZERS
+/* did this object, which may have been moved, get marked? */
+static int movedObjectMarked(struct GGGGC_Header *obj)
+{
+    FOLLOW_FORWARDED_OBJECT(obj);
+    return !!IS_MARKED(obj);
+}
+#endif
+
 /* perform a full, in-place collection */
 void ggggc_collectFull(COLLECT_FULL_ARGS)
 {
@@ -931,12 +941,12 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add all the finalizers themselves */
             for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                 for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(movedObjectMarked(obj));
                 }
             }
             for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
                 for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(movedObjectMarked(obj));
                 }
             }
 
-- 
2.43.0


From 9538c09e333a02abdf29ac00c66ce94f01b9a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 10/35] fix: surviving finalizers must not replace the
 finalizers already in their pool

---
 collector/gembc.c | 56 +++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 409f06f..2efc589 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -172,7 +172,6 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
     GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *survivingFinalizersTailOut, \
     GGGGC_FinalizerEntry *readyFinalizersOut
 #else
 #define COLLECT_FULL_ARGS void
@@ -269,8 +268,6 @@ static struct ToSearch toSearchList;
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
-            if (!survivingFinalizersTail) \
-                survivingFinalizersTail = finalizer; \
             \
         } else { \
             /* object died, add this to ready finalizers */ \
@@ -282,6 +279,27 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* put finalizers (back) into the lists of the pools they're in now */
+static void keepFinalizers(GGGGC_FinalizerEntry finalizer)
+{
+    while (finalizer) {
+        struct GGGGC_Header *obj = (struct GGGGC_Header *) finalizer;
+        GGGGC_FinalizerEntry nextFinalizer;
+        struct GGGGC_Pool *pool;
+
+        FOLLOW_FORWARDED_OBJECT(obj);
+        finalizer = (GGGGC_FinalizerEntry) obj;
+        nextFinalizer = finalizer->next__ptr;
+
+        /* the whole list is in the same pool, so doesn't need to be remembered */
+        pool = GGGGC_POOL_OF(finalizer);
+        finalizer->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+        pool->finalizers = finalizer;
+
+        finalizer = nextFinalizer;
+    }
+}
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -422,8 +440,8 @@ void ggggc_collect0(unsigned char gen)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     /* first, make sure we stop the world */
@@ -489,7 +507,7 @@ collect:
     ) {
         ggggc_collectFull(
 #ifdef GGGGC_FEATURE_FINALIZERS
-            &survivingFinalizers, &survivingFinalizersTail, &readyFinalizers
+            &survivingFinalizers, &readyFinalizers
 #endif
         );
         goto postCollect;
@@ -593,16 +611,9 @@ collect:
             if (!nobj) {
 #ifdef GGGGC_FEATURE_FINALIZERS
                 /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
-                survivingFinalizers = survivingFinalizersTail =
-                    readyFinalizers = NULL;
+                keepFinalizers(survivingFinalizers);
+                keepFinalizers(readyFinalizers);
+                survivingFinalizers = readyFinalizers = NULL;
 #endif
 
                 /* failed to allocate, need to collect gen+1 too */
@@ -654,7 +665,6 @@ collect:
 
             /* then make sure the finalizer queues get promoted */
             TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
             TOSEARCH_ADD(&readyFinalizers);
         }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -665,10 +675,7 @@ postCollect:
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* preserve surviving finalizers */
-    if (survivingFinalizers) {
-        poolCur = GGGGC_POOL_OF(survivingFinalizers);
-        poolCur->finalizers = survivingFinalizers;
-    }
+    keepFinalizers(survivingFinalizers);
 #endif
 
     /* heuristically expand too-small generations */
@@ -857,8 +864,8 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked = 0;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     TOSEARCH_INIT();
@@ -952,7 +959,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
             /* then make sure the finalizer queues get promoted */
             TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
             TOSEARCH_ADD(&readyFinalizers);
         }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -1028,7 +1034,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     } \
 } while(0)
     F(survivingFinalizers);
-    F(survivingFinalizersTail);
     F(readyFinalizers);
 #undef F
 #endif
@@ -1069,7 +1074,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     *survivingFinalizersOut = survivingFinalizers;
-    *survivingFinalizersTailOut = survivingFinalizersTail;
     *readyFinalizersOut = readyFinalizers;
 #endif
 }
-- 
2.43.0


From ca98e5bb9d233efd08659d8ca1ab55a54bb6bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 11/35] fix: finalizers must be handled even if the last root
 searched is null

---
 collector/gembc.c | 81 ++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 2efc589..8430374 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -571,6 +571,7 @@ collect:
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* start pre-finalizers */
     finalizersChecked = 0;
+search:
 #endif
 
     /* now test all our pointers */
@@ -643,32 +644,34 @@ collect:
             abort();
         }
 #endif
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* perhaps check finalizers */
+    if (!finalizersChecked) {
+        struct GGGGC_Header *obj;
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_FORWARDED_OBJECT(obj) || GGGGC_GEN_OF(obj) > gen);
-                }
+        /* add all the finalizers themselves */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(IS_FORWARDED_OBJECT(obj) || GGGGC_GEN_OF(obj) > gen);
             }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_FORWARDED_OBJECT(obj) || GGGGC_GEN_OF(obj) > gen);
-                }
+        }
+        for (genCur = 1; genCur <= gen; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(IS_FORWARDED_OBJECT(obj) || GGGGC_GEN_OF(obj) > gen);
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+
+        /* then make sure the finalizer queues get promoted */
+        TOSEARCH_ADD(&survivingFinalizers);
+        TOSEARCH_ADD(&readyFinalizers);
+        goto search;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 #endif /* GGGGC_GENERATIONS > 1 */
 
 postCollect:
@@ -906,6 +909,10 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     }
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
+#ifdef GGGGC_FEATURE_FINALIZERS
+search:
+#endif
+
     /* now mark */
     while (toSearch->used) {
         void **ptr;
@@ -937,32 +944,34 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* possibly start handling finalizers */
+    if (!finalizersChecked) {
+        struct GGGGC_Header *obj;
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(movedObjectMarked(obj));
-                }
+        /* add all the finalizers themselves */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(movedObjectMarked(obj));
             }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(movedObjectMarked(obj));
-                }
+        }
+        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(movedObjectMarked(obj));
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+
+        /* then make sure the finalizer queues get promoted */
+        TOSEARCH_ADD(&survivingFinalizers);
+        TOSEARCH_ADD(&readyFinalizers);
+        goto search;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* find all our sizes, for later compaction */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-- 
2.43.0


From 16f3acdd14b4de3703e68611b3915bcb69a5a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 12/35] fix: with external tagging, descriptors of large arrays
 need more room in the descriptor-descriptor table

---
 ggggc-internals.h | 2 +-
 globals.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..bc84806 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -107,7 +107,7 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 136fb25..ae7ff66 100644
--- a/globals.c
+++ b/globals.c
@@ -24,5 +24,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From 7a6bda55b870c4faa839164ca97d0eabbb356c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 13/35] fix: tagged words on the JIT stack must compile and be
 left alone by full collections

---
 collector/gembc.c      | 4 ++--
 collector/portablems.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 8430374..54c7608 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -528,7 +528,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -1012,7 +1012,7 @@ search:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..71c3162 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -585,7 +585,7 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 mark(*jpsCur);
 #else
             int wordIdx;
-- 
2.43.0


From dcfdf82d9efe204d0489bc89af5b0e631e747109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 14/35] fix: a blocked thread's JIT stack must be searched for
 roots

---
 threads.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/threads.c b/threads.c
index 4065b26..621c737 100644
--- a/threads.c
+++ b/threads.c
@@ -60,6 +60,9 @@ static void *ggggcThreadWrapper(void *arg)
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -80,6 +83,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -89,6 +98,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList **jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -125,6 +137,14 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    for (jpslCur = &ggggc_blockedThreadJITPointerStacks; *jpslCur; jpslCur = &(*jpslCur)->next) {
+        if (*jpslCur == &blockedJITPointerStackListNode) {
+            *jpslCur = (*jpslCur)->next;
+            break;
+        }
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From 5ecaf4d42e56e7c2d905f77e1e0cf2f8ccf22021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 15/35] fix: GGC_PUSH_N must record how many references it
 pushes

---
 ggggc/push.h | 1 +
 pushgen.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..a268ac3 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -778,6 +778,7 @@ do { \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
     void *ggggc_pptrs[] = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
+    ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..65873a4 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -83,6 +83,7 @@ int main()
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
            "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
-- 
2.43.0


From b6fd15e877db6ef4cc1b8381e41881763af40c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 16/35] fix: without compiler cleanup support, the library must
 pop what it pushes itself

---
 allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/allocator.c b/allocator.c
index f95f5eb..dae070e 100644
--- a/allocator.c
+++ b/allocator.c
@@ -263,6 +263,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     {
         GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return ret;
@@ -465,6 +466,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlo
     {
         GGC_PUSH_1(slot->descriptor);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return slot->descriptor;
@@ -504,6 +506,8 @@ void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
     next = (GGGGC_FinalizerEntry) pool->finalizers;
     GGC_WP(entry, next, next);
     pool->finalizers = entry;
+
+    GGC_POP();
 }
 
 /* and function for running finalizers */
@@ -523,6 +527,8 @@ void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
 
         finalizer = GGC_RP(finalizer, next);
     }
+
+    GGC_POP();
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 4d0e6e883fa858d88bdd7987ae4b46e9f3efffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 17/35] fix: live finalizers need room in the tiny debugging
 heap

---
 allocator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/allocator.c b/allocator.c
index dae070e..4669f44 100644
--- a/allocator.c
+++ b/allocator.c
@@ -92,7 +92,12 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
 {
     struct GGGGC_Pool *ret;
 #ifdef GGGGC_DEBUG_TINY_HEAP
+#ifdef GGGGC_FEATURE_FINALIZERS
+    /* live finalizers are kept in the heap too, so leave some room for them */
+    static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS + 1;
+#else
     static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS;
+#endif
 
     if (allocationsLeft-- <= 0) {
         allocationsLeft = 0;
-- 
2.43.0


From dc18e3899bb0ae3308253778fac481e6767525de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 18/35] fix: allocation must grow the heap when collecting
 cannot make room

---
 collector/gembc.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collector/gembc.c b/collector/gembc.c
index 54c7608..99103a1 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -70,6 +70,7 @@ void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, /* descriptor to pro
                       ) {
     struct GGGGC_Pool *pool;
     struct GGGGC_Header *ret;
+    int collections = 0;
 
 retry:
     /* get our allocation pool */
@@ -97,6 +98,17 @@ retry:
         ggggc_pool0 = pool = pool->next;
         goto retry;
 
+    } else if (size > (ggc_size_t) (pool->end - pool->start)) {
+        /* no pool can ever have enough space */
+        fprintf(stderr, "GGGGC: Object too large!\n");
+        abort();
+
+    } else if (collections++ > GGGGC_GENERATIONS) {
+        /* collecting doesn't make enough space, so we need more */
+        pool->next = ggggc_newPoolGen(0, 1);
+        ggggc_pool0 = pool = pool->next;
+        goto retry;
+
     } else {
         /* need to collect, which means we need to actually be a GC-safe function */
         GGC_PUSH_1(*descriptor);
-- 
2.43.0


From 7831839a40c7fc0b33d18de491f65476e45bf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 19/35] fix: objects kept only to be finalized must not make
 the heap grow

---
 collector/gembc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collector/gembc.c b/collector/gembc.c
index 99103a1..321a364 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -617,6 +617,10 @@ search:
             FOLLOW_FORWARDED_DESCRIPTOR(descriptor);
 
             /* mark it as surviving */
+#ifdef GGGGC_FEATURE_FINALIZERS
+            /* (not if it's only being kept to be finalized) */
+            if (!finalizersChecked)
+#endif
             GGGGC_POOL_OF(obj)->survivors += descriptor->size;
 
             /* allocate in the new generation */
@@ -951,6 +955,10 @@ search:
 
             /* then mark it */
             MARK(obj);
+#ifdef GGGGC_FEATURE_FINALIZERS
+            /* (not if it's only being kept to be finalized) */
+            if (!finalizersChecked)
+#endif
             GGGGC_POOL_OF(obj)->survivors += descriptor->size;
 
             /* add its pointers */
-- 
2.43.0


From a873306b105f3ec4a68d13b9fdecd064f88daafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 20/35] fix: array size computations must not overflow

---
 allocator.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index 4669f44..f42c5e7 100644
--- a/allocator.c
+++ b/allocator.c
@@ -197,11 +197,24 @@ struct GGGGC_Array {
     ggc_size_t length;
 };
 
+/* array sizes come from the user, so make sure that no later size computation
+ * can overflow */
+static void checkArraySize(ggc_size_t nmemb, ggc_size_t size)
+{
+    if (size && nmemb > GGGGC_POOL_BYTES / size) {
+        fprintf(stderr, "GGGGC: Object too large!\n");
+        abort();
+    }
+}
+
 /* allocate a pointer array (size is in words) */
 void *ggggc_mallocPointerArray(ggc_size_t sz)
 {
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    checkArraySize(sz, sizeof(ggc_size_t));
+    descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = sz;
     return ret;
 }
@@ -209,10 +222,14 @@ void *ggggc_mallocPointerArray(ggc_size_t sz)
 /* allocate a data array */
 void *ggggc_mallocDataArray(ggc_size_t nmemb, ggc_size_t size)
 {
-    ggc_size_t sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorDA(
+    ggc_size_t sz;
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    checkArraySize(nmemb, size);
+    sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
+    descriptor = ggggc_allocateDescriptorDA(
         sz + 1 + GGGGC_WORD_SIZEOF(struct GGGGC_Header));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = nmemb;
     return ret;
 }
-- 
2.43.0


From 52fff032bfd57baed91545c2bfecd43686e4c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 21/35] fix: GGC_LENGTH must read the array's length, which is
 in the array

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index d8925d0..b16e5cb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From 46cbe73a78dd55b2694e816e2002911994e247fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 22/35] fix: compaction of an exactly full pool must not change
 the first card's first object

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 321a364..50369c0 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1309,7 +1309,7 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
 
 #if GGGGC_GENERATIONS > 1
     /* and perhaps set firstObject for the free space */
-    if (pool->gen) {
+    if (pool->gen && pool->free < pool->end) {
         card = GGGGC_CARD_OF(pool->free);
         if (card != lastCard)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
-- 
2.43.0


From f4ab8047f6a21c8fbd303d99ac2f13a0294ca778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 23/35] fix: portablems memory corruption checks must
 understand free space and tags

---
 collector/portablems.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 71c3162..f0994ed 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -25,10 +25,18 @@
 
 #include "ggggc-internals.h"
 
-/* Free list. Free list elements are stored as [0, size in words, next]. */
+/* Free list. Free list elements are stored as [0, size in words, next]. The size
+ * must be in the same location as a descriptor's size, and headers are a word
+ * longer with memory corruption checks. */
 struct FreeListNode {
-    ggc_size_t zero, size;
+    ggc_size_t zero;
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    struct FreeListNode *next;
+    ggc_size_t size;
+#else
+    ggc_size_t size;
     struct FreeListNode *next;
+#endif
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
 
@@ -275,7 +283,8 @@ static void memoryCorruptionCheckObj(const char *when, struct GGGGC_Header *obj)
             {
                 /* it's a pointer */
                 struct GGGGC_Header *nobj = (struct GGGGC_Header *) objVp[curWord];
-                if (nobj && nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
+                if (nobj && !IS_TAGGED(nobj) &&
+                    nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
                     fprintf(stderr, "GGGGC: Memory corruption (%s nested)!\n", when);
                     abort();
                 }
@@ -339,7 +348,7 @@ static void memoryCorruptionCheck(const char *when)
             ggc_size_t i;
             for (i = 0; i < psCur->size; i++) {
                 struct GGGGC_Header *obj = *((struct GGGGC_Header **) psCur->pointers[i]);
-                if (obj)
+                if (obj && !IS_TAGGED(obj))
                     memoryCorruptionCheckObj(when, obj);
             }
         }
@@ -653,20 +662,24 @@ void ggggc_collect0(unsigned char gen)
     /* sweep our own heap */
     sweep(ggggc_gen0);
 
+    restartTheWorld();
+
+    /* clear our freelist */
+    clearFreeList();
+
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    /* every thread's pools can only be walked while the world is stopped, and
+     * free space only once everyone is done sweeping, so just check our own */
     {
         struct FreeListNode *f;
+        struct GGGGC_Pool *pool;
         for (f = freeList; f; f = f->next)
             memset(f + 1, 0, f->size * sizeof(ggc_size_t) - sizeof(struct FreeListNode));
+        for (pool = ggggc_gen0; pool; pool = pool->next)
+            memoryCorruptionCheckPool("post-collection", pool);
     }
-    memoryCorruptionCheck("post-collection");
 #endif
 
-    restartTheWorld();
-
-    /* clear our freelist */
-    clearFreeList();
-
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* run any finalizers */
     if (readyFinalizers)
-- 
2.43.0


From bd63c4fc3f0a764e0f45a3119ed1e1b2bda94c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 24/35] fix: portablems must compile with both finalizers and
 the JIT stack

---
 collector/portablems.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index f0994ed..3d1d5bf 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -209,6 +209,9 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
 {
     struct GGGGC_PoolList *plCur, pool0Node;
     struct GGGGC_PointerStackList pointerStackNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList jitPointerStackNode;
+#endif
 
     /* hopefully it's a local pool, so we can simply find it */
     struct GGGGC_Pool *pool;
@@ -220,7 +223,12 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
     /* Not a local pool. We have to stop the world to scan all the other
      * threads' pools, and in portablems, the only way to do that is a complete
      * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
+    stopTheWorld(
+        &pool0Node, &pointerStackNode
+#ifdef GGGGC_FEATURE_JITPSTACK
+        , &jitPointerStackNode
+#endif
+    );
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         for (pool = plCur->pool; pool; pool = pool->next) {
-- 
2.43.0


From cfe9ac93c4602abe38b956acf358b3d48c087cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 25/35] fix: failing to create a thread must not leave it
 counted in the world barrier

---
 threads/macosx.c  | 16 +++++++++++-----
 threads/posix.c   | 16 +++++++++++-----
 threads/windows.c | 16 ++++++++++------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/threads/macosx.c b/threads/macosx.c
index d672f93..33634b5 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -67,6 +67,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -75,18 +76,23 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* nobody may stop the world until we know how many threads there are */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
+
+    /* spawn the pthread */
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+        errno = err;
+        return -1;
+    }
+
+    /* update our thread barrier */
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
-        return -1;
-
     return 0;
 }
 
diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..974d5ed 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -46,6 +46,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -54,18 +55,23 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* nobody may stop the world until we know how many threads there are */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
+
+    /* spawn the pthread */
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+        errno = err;
+        return -1;
+    }
+
+    /* update our thread barrier */
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
-        return -1;
-
     return 0;
 }
 
diff --git a/threads/windows.c b/threads/windows.c
index 15e82f7..1420e76 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -81,18 +81,22 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* nobody may stop the world until we know how many threads there are */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the thread */
     *thread = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE) ggggcThreadWrapper, ti, 0, NULL);
-    if (!*thread)
+    if (!*thread) {
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
         return -1;
+    }
+
+    /* update our thread barrier */
+    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
+    else ggc_barrier_destroy(&ggggc_worldBarrier);
+    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     return 0;
 }
-- 
2.43.0


From 8bfedc78ed6ec03c93b5f29f49730475f43616fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 26/35] fix: an exited thread's objects and globals must stay
 valid

---
 collector/gembc.c | 12 +++++++++
 ggggc-internals.h |  1 +
 threads.c         | 63 ++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 73 insertions(+), 3 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 50369c0..bcdcbda 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -745,6 +745,18 @@ postCollect:
     memoryCorruptionCheck("post-collection");
 #endif
 
+    /* unless we did a full collection, exited threads' pools are now empty */
+    if (gen < GGGGC_GENERATIONS - 1) {
+        struct GGGGC_PoolList **plNext = &ggggc_blockedThreadPool0s;
+        while ((plCur = *plNext)) {
+            if (plCur->exited) {
+                *plNext = plCur->next;
+                ggggc_freeGeneration(plCur->pool);
+                free(plCur);
+            } else plNext = &plCur->next;
+        }
+    }
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
diff --git a/ggggc-internals.h b/ggggc-internals.h
index bc84806..66e372d 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -71,6 +71,7 @@ extern ggc_mutex_t ggggc_rootsLock;
 struct GGGGC_PoolList {
     struct GGGGC_PoolList *next;
     struct GGGGC_Pool *pool;
+    int exited; /* only for blocked threads: the thread exited */
 };
 extern struct GGGGC_PoolList *ggggc_rootPool0List;
 struct GGGGC_PointerStackList {
diff --git a/threads.c b/threads.c
index 621c737..11d81bc 100644
--- a/threads.c
+++ b/threads.c
@@ -37,11 +37,67 @@ GGC_END_TYPE(ThreadInfo,
     GGC_PTR(ThreadInfo, arg)
     )
 
+/* Other threads may still refer to an exiting thread's objects, so its pools
+ * are kept with those of the blocked threads. They're reused by another thread,
+ * or freed by the collector once there's nothing left in them. */
+static void leavePools()
+{
+    struct GGGGC_PoolList *node;
+    if (!ggggc_gen0) return;
+    node = (struct GGGGC_PoolList *) malloc(sizeof(struct GGGGC_PoolList));
+    if (!node) {
+        perror("malloc");
+        abort();
+    }
+    node->pool = ggggc_gen0;
+    node->exited = 1;
+    node->next = ggggc_blockedThreadPool0s;
+    ggggc_blockedThreadPool0s = node;
+    ggggc_gen0 = ggggc_pool0 = NULL;
+}
+
+/* take over an exited thread's pools, if there is one */
+static void adoptPools()
+{
+    struct GGGGC_PoolList **cur, *node;
+    for (cur = &ggggc_blockedThreadPool0s; *cur; cur = &(*cur)->next) {
+        if ((*cur)->exited) {
+            node = *cur;
+            *cur = node->next;
+            ggggc_gen0 = ggggc_pool0 = node->pool;
+            free(node);
+            break;
+        }
+    }
+}
+
+/* keep an exiting thread's globals, which are at the bottom of its stack */
+static void leaveGlobals(struct GGGGC_PointerStack *bottom)
+{
+    static struct GGGGC_PointerStackList node;
+    if (!ggggc_pointerStackGlobals) return;
+    if (!node.pointerStack) {
+        node.next = ggggc_blockedThreadPointerStacks;
+        ggggc_blockedThreadPointerStacks = &node;
+    }
+    ggggc_pointerStackGlobals->next = node.pointerStack;
+    node.pointerStack = bottom->next;
+    bottom->next = ggggc_pointerStackGlobals = NULL;
+}
+
 /* general purpose thread wrapper */
 static void *ggggcThreadWrapper(void *arg)
 {
     ThreadInfo ti = (ThreadInfo) arg;
+    struct GGGGC_PointerStack *bottom;
     GGC_PUSH_1(ti);
+    bottom = ggggc_pointerStack;
+
+    /* perhaps take over the pools of a thread which exited */
+    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+        GGC_YIELD();
+    adoptPools();
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     GGC_RD(ti, func)(GGC_RP(ti, arg));
 
@@ -50,10 +106,11 @@ static void *ggggcThreadWrapper(void *arg)
         GGC_YIELD();
     ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* and give back its pools */
-    ggggc_freeGeneration(ggggc_gen0);
+    /* its objects and globals outlive it */
+    leavePools();
+    leaveGlobals(bottom);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     return 0;
 }
-- 
2.43.0


From c7dcb0d37eb6782b19ac6c83a5f1c457c7abb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 27/35] fix: portablems must sweep the pools of blocked threads

---
 collector/portablems.c | 45 +++++++++++++++++++++++++++++++++++-------
 ggggc-internals.h      |  7 +++++++
 threads.c              | 12 +++++++++++
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 3d1d5bf..30e7251 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -40,6 +40,18 @@ struct FreeListNode {
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
 
+/* store this thread's free list (while it's blocked) */
+void ggggc_storeFreeList(struct GGGGC_PoolList *node)
+{
+    node->freeList = freeList;
+}
+
+/* and get it back */
+void ggggc_loadFreeList(struct GGGGC_PoolList *node)
+{
+    freeList = (struct FreeListNode *) node->freeList;
+}
+
 /* create a pool and add it to the free list */
 static struct GGGGC_Pool *ggggc_newPoolFree(int mustSucceed)
 {
@@ -195,11 +207,20 @@ static void stopTheWorld(
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 }
 
+static void fixFreeList(struct FreeListNode *fln);
+
 /* generalized restart-the-world */
 static void restartTheWorld()
 {
+    struct GGGGC_PoolList *plCur;
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+
+    /* everybody is done sweeping, so finish the blocked threads' free lists */
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next)
+        fixFreeList((struct FreeListNode *) plCur->freeList);
+
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
@@ -531,15 +552,20 @@ static void sweep(struct GGGGC_Pool *pool)
         lastFree->next = NULL;
 }
 
-/* clear the free list after sweeping */
-void clearFreeList()
+/* put the sizes of free list nodes where they belong, after sweeping */
+static void fixFreeList(struct FreeListNode *fln)
 {
-    struct GGGGC_Pool *pool;
-    struct FreeListNode *fln;
-    for (fln = freeList; fln; fln = fln->next) {
+    for (; fln; fln = fln->next) {
         fln->size = fln->zero;
         fln->zero = 0;
     }
+}
+
+/* clear the free list after sweeping */
+void clearFreeList()
+{
+    struct GGGGC_Pool *pool;
+    fixFreeList(freeList);
 
     /* possibly expand our heap */
     if (survivors > total>>1) {
@@ -559,7 +585,7 @@ void clearFreeList()
 /* run garbage collection */
 void ggggc_collect0(unsigned char gen)
 {
-    struct GGGGC_PoolList pool0Node;
+    struct GGGGC_PoolList pool0Node, *plCur;
     struct GGGGC_PointerStackList pointerStackNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
     ggc_size_t i;
@@ -568,7 +594,6 @@ void ggggc_collect0(unsigned char gen)
     void **jpsCur;
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
-    struct GGGGC_PoolList *plCur;
     GGGGC_FinalizerEntry readyFinalizers = NULL;
 #endif
 
@@ -667,6 +692,12 @@ void ggggc_collect0(unsigned char gen)
     /* indicate that we're now ready to sweep */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
+    /* blocked threads can't sweep */
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
+        sweep(plCur->pool);
+        plCur->freeList = freeList;
+    }
+
     /* sweep our own heap */
     sweep(ggggc_gen0);
 
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 66e372d..1543aeb 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -72,7 +72,14 @@ struct GGGGC_PoolList {
     struct GGGGC_PoolList *next;
     struct GGGGC_Pool *pool;
     int exited; /* only for blocked threads: the thread exited */
+    void *freeList; /* only for blocked threads, and only for portablems */
 };
+#ifdef GGGGC_COLLECTOR_PORTABLEMS
+/* a blocked thread's pools are swept by whichever thread is collecting, so its
+ * free list has to be put where it can be updated */
+void ggggc_storeFreeList(struct GGGGC_PoolList *node);
+void ggggc_loadFreeList(struct GGGGC_PoolList *node);
+#endif
 extern struct GGGGC_PoolList *ggggc_rootPool0List;
 struct GGGGC_PointerStackList {
     struct GGGGC_PointerStackList *next;
diff --git a/threads.c b/threads.c
index 11d81bc..cd7cdb7 100644
--- a/threads.c
+++ b/threads.c
@@ -51,6 +51,9 @@ static void leavePools()
     }
     node->pool = ggggc_gen0;
     node->exited = 1;
+#ifdef GGGGC_COLLECTOR_PORTABLEMS
+    ggggc_storeFreeList(node);
+#endif
     node->next = ggggc_blockedThreadPool0s;
     ggggc_blockedThreadPool0s = node;
     ggggc_gen0 = ggggc_pool0 = NULL;
@@ -65,6 +68,9 @@ static void adoptPools()
             node = *cur;
             *cur = node->next;
             ggggc_gen0 = ggggc_pool0 = node->pool;
+#ifdef GGGGC_COLLECTOR_PORTABLEMS
+            ggggc_loadFreeList(node);
+#endif
             free(node);
             break;
         }
@@ -135,6 +141,9 @@ void ggc_pre_blocking()
 
     /* add our roots and pools */
     blockedPoolListNode.pool = ggggc_gen0;
+#ifdef GGGGC_COLLECTOR_PORTABLEMS
+    ggggc_storeFreeList(&blockedPoolListNode);
+#endif
     blockedPoolListNode.next = ggggc_blockedThreadPool0s;
     ggggc_blockedThreadPool0s = &blockedPoolListNode;
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
@@ -170,6 +179,9 @@ void ggc_post_blocking()
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
 
     /* remove our roots and pools from the list */
+#ifdef GGGGC_COLLECTOR_PORTABLEMS
+    ggggc_loadFreeList(&blockedPoolListNode);
+#endif
     if (ggggc_blockedThreadPool0s == &blockedPoolListNode) {
         ggggc_blockedThreadPool0s = ggggc_blockedThreadPool0s->next;
 
-- 
2.43.0


From 6ddf29b691e70a3a91d400a47e02249f3bf9a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 28/35] fix: allocating a descriptor must not hold its lock
 while it may collect

---
 allocator.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/allocator.c b/allocator.c
index f42c5e7..6d066d6 100644
--- a/allocator.c
+++ b/allocator.c
@@ -255,14 +255,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     if (ddSize != size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
-    /* otherwise, need to allocate one. First lock the space */
-    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
-    if (ggggc_descriptorDescriptors[size]) {
-        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-        return ggggc_descriptorDescriptors[size];
-    }
-
-    /* allocate the descriptor descriptor */
+    /* allocate the descriptor descriptor. This may collect, so we can't hold a
+     * lock while we do it. */
     ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&ddd, ddSize);
 
     /* make it correct */
@@ -279,7 +273,12 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     ret->tags[GGGGC_OFFSETOF(struct GGGGC_Descriptor *, user)] = 0;
 #endif
 
-    /* put it in the list */
+    /* put it in the list, unless somebody else did first */
+    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
+    if (ggggc_descriptorDescriptors[size]) {
+        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
+        return ggggc_descriptorDescriptors[size];
+    }
     ggggc_descriptorDescriptors[size] = ret;
     ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
     {
@@ -474,14 +473,20 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 /* allocate a descriptor from a descriptor slot */
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
+    struct GGGGC_Descriptor *descriptor;
+
     if (slot->descriptor) return slot->descriptor;
+
+    /* this may collect, so we can't hold the lock while we do it */
+    descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+
+    /* somebody else may have been first */
     ggc_mutex_lock_raw(&slot->lock);
     if (slot->descriptor) {
         ggc_mutex_unlock(&slot->lock);
         return slot->descriptor;
     }
-
-    slot->descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    slot->descriptor = descriptor;
     ggc_mutex_unlock(&slot->lock);
 
     /* make the slot descriptor a root */
-- 
2.43.0


From 74be6794e7b82b056f8c4ae1b8f1d85a54eeb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 29/35] fix: a descriptor-descriptor may move while it's being
 globalized

---
 allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocator.c b/allocator.c
index 6d066d6..1c7394b 100644
--- a/allocator.c
+++ b/allocator.c
@@ -287,7 +287,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         GGC_POP();
     }
 
-    return ret;
+    /* (pushing may have yielded, so ret may have moved) */
+    return ggggc_descriptorDescriptors[size];
 }
 
 /* allocate a descriptor for an object of the given size in words with the
-- 
2.43.0


From 5b7535c331b65eb5bd97f638c32087852d8ef5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 30/35] fix: the malloc allocator must not keep its lock when
 malloc fails

---
 allocator/malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..b041baf 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -33,6 +33,7 @@ static void *allocPool(int mustSucceed)
             if (space) break;
         }
         if (!space) {
+            ggc_mutex_unlock(&poolLock);
             if (mustSucceed) {
                 perror("malloc");
                 abort();
-- 
2.43.0


From 71667fd58c816ec999642e10ef1c6d44f23050a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 31/35] fix: mmap fails with MAP_FAILED, not NULL

---
 allocator/mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..7fe376c 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == (unsigned char *) MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
-- 
2.43.0


From 861c311ed387b80d0e8a92737bf6fcc6719bb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 32/35] fix: the sbrk allocator must not return an unaligned
 pool if aligning the break fails

---
 allocator/sbrk.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/allocator/sbrk.c b/allocator/sbrk.c
index 3ef2478..9a4fccb 100644
--- a/allocator/sbrk.c
+++ b/allocator/sbrk.c
@@ -61,26 +61,32 @@ static void mallocBump()
 
 static void *allocPool(int mustSucceed)
 {
-    void *ret;
+    void *space;
+    unsigned char *ret;
     size_t offset = poolOffset();
 
     mallocBump();
 
-    offset = poolOffset();
-    if (offset != 0) {
-        /* align manually */
-        fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
-        sbrk(offset);
-    }
+    do {
+        offset = poolOffset();
+        if (offset != 0) {
+            /* align manually */
+            fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
+        }
 
-    ret = sbrk(GGGGC_POOL_BYTES);
-    if (ret == (void *) -1) {
-        if (mustSucceed) {
-            perror("sbrk");
-            abort();
-        } else {
-            return NULL;
+        space = sbrk(offset + GGGGC_POOL_BYTES);
+        if (space == (void *) -1) {
+            if (mustSucceed) {
+                perror("sbrk");
+                abort();
+            } else {
+                return NULL;
+            }
         }
-    }
+        ret = (unsigned char *) space + offset;
+
+        /* if somebody else moved the break meanwhile, it's not aligned */
+    } while (((size_t) ret & GGGGC_POOL_INNER_MASK) != 0);
+
     return ret;
 }
-- 
2.43.0


From 68d52159c4882c526318f2e0ddd01c5c495d401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 33/35] fix: ggc_sem_wait must be implemented for POSIX threads

---
 threads/posix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threads/posix.c b/threads/posix.c
index 974d5ed..e745b72 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -40,6 +40,11 @@ BLOCKING(
     pthread_mutex_lock(mutex)
 )
 
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    (sem_wait(sem) ? errno : 0)
+)
+
 int ggc_thread_create(
         ggc_thread_t *thread,
         void (*func)(GGC_ThreadArg),
-- 
2.43.0


From 354253e48c7c792d6f4cac2c2beeb16d1f341e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 34/35] fix: the substitute barrier must compile with POSIX
 mutexes and destroy both semaphores

---
 gen-barriers.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index c0363a2..52238c0 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -18,12 +18,15 @@
 
 int ggc_barrier_destroy(ggc_barrier_t *barrier)
 {
-    return ggc_sem_destroy(&barrier->waiters);
+    int ret = ggc_sem_destroy(&barrier->waiters);
+    if (ggc_sem_destroy(&barrier->leader)) ret = -1;
+    return ret;
 }
 
 int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
 {
-    barrier->lock = GGC_MUTEX_INITIALIZER;
+    ggc_mutex_t lock = GGC_MUTEX_INITIALIZER;
+    barrier->lock = lock;
     barrier->cur = 0;
     barrier->ct = ct;
     ggc_sem_init(&barrier->waiters, 0);
-- 
2.43.0


From 2617d7a9f98d75353e11e3da6f92494d793de481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 35/35] fix: destroying the substitute barrier must wait until
 everybody released has left it

---
 gen-barriers.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index 52238c0..c21d6e0 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -18,7 +18,14 @@
 
 int ggc_barrier_destroy(ggc_barrier_t *barrier)
 {
-    int ret = ggc_sem_destroy(&barrier->waiters);
+    int ret;
+
+    /* others who were released may not have left yet, and they still need the
+     * semaphores. The leader holds the lock until everybody has left. */
+    ggc_mutex_lock_raw(&barrier->lock);
+    ggc_mutex_unlock(&barrier->lock);
+
+    ret = ggc_sem_destroy(&barrier->waiters);
     if (ggc_sem_destroy(&barrier->leader)) ret = -1;
     return ret;
 }
-- 
2.43.0

