From 15c7e77f018731316238dec3031b47e126856e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 01/44] fix: rbtree_delete_fixup must rebalance through nil and
 test the sibling's color

When the replacement node was the nil node the fixup loop was skipped, and the
mirrored branch tested the color of x instead of its sibling. Trees lost their
balance after deletions, and the rotation about the nil node could lose entries.
---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From b98be927f72588c3954206a3652b10ded23edf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 02/44] fix: list_swap, slist_swap and rbtree_swap leave both
 containers independent

The swaps exchanged the structures bytewise: list nodes kept their old parent, so
later node operations changed the other list; tree nodes ended in the other tree's
embedded nil node; and each container was later reclaimed with the other's
allocator.
---
 src/list/list_swap.c     | 21 ++++++++++++++---
 src/rbtree/rbtree_swap.c | 51 +++++++++++++++++++++++++++++++++++++---
 src/slist/slist_swap.c   | 21 ++++++++++++++---
 3 files changed, 84 insertions(+), 9 deletions(-)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..931eba8 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -44,9 +44,24 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
 
-    memcpy(&tmp, left, sizeof(tmp));
-    memcpy(left, right, sizeof(tmp));
-    memcpy(right, &tmp, sizeof(tmp));
+    /* swap the contents; each list keeps its own identity and allocator. */
+    tmp = *left;
+    left->head = right->head;
+    left->tail = right->tail;
+    left->count = right->count;
+    right->head = tmp.head;
+    right->tail = tmp.tail;
+    right->count = tmp.count;
+
+    /* each node must refer to the list that now owns it. */
+    for (list_node* node = left->head; NULL != node; node = node->next)
+    {
+        node->parent = left;
+    }
+    for (list_node* node = right->head; NULL != node; node = node->next)
+    {
+        node->parent = right;
+    }
 
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..715c2f6 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,10 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static rbtree_node* rbtree_replace_nil(
+    rbtree_node* n, rbtree_node* old_nil, rbtree_node* new_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -42,11 +46,52 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 
-    memcpy(&tmp, left, sizeof(tmp));
-    memcpy(left, right, sizeof(tmp));
-    memcpy(right, &tmp, sizeof(tmp));
+    /* swap the contents; each tree keeps its own identity and allocator. */
+    tmp = *left;
+    left->context = right->context;
+    left->compare = right->compare;
+    left->key = right->key;
+    left->root = right->root;
+    left->count = right->count;
+    right->context = tmp.context;
+    right->compare = tmp.compare;
+    right->key = tmp.key;
+    right->root = tmp.root;
+    right->count = tmp.count;
+
+    /* each node must end in the nil node of the tree that now owns it. */
+    left->root = rbtree_replace_nil(left->root, right->nil, left->nil);
+    right->root = rbtree_replace_nil(right->root, left->nil, right->nil);
 
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Replace every reference to one nil node with another in a subtree.
+ *
+ * \param n             The root of the subtree.
+ * \param old_nil       The nil node to replace.
+ * \param new_nil       The replacement nil node.
+ *
+ * \returns the root of the updated subtree, which can be the new nil node.
+ */
+static rbtree_node* rbtree_replace_nil(
+    rbtree_node* n, rbtree_node* old_nil, rbtree_node* new_nil)
+{
+    if (n == old_nil || n == new_nil)
+    {
+        return new_nil;
+    }
+
+    if (n->parent == old_nil)
+    {
+        n->parent = new_nil;
+    }
+
+    n->left = rbtree_replace_nil(n->left, old_nil, new_nil);
+    n->right = rbtree_replace_nil(n->right, old_nil, new_nil);
+
+    return n;
+}
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..2a6ce09 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -44,9 +44,24 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
 
-    memcpy(&tmp, left, sizeof(tmp));
-    memcpy(left, right, sizeof(tmp));
-    memcpy(right, &tmp, sizeof(tmp));
+    /* swap the contents; each list keeps its own identity and allocator. */
+    tmp = *left;
+    left->head = right->head;
+    left->tail = right->tail;
+    left->count = right->count;
+    right->head = tmp.head;
+    right->tail = tmp.tail;
+    right->count = tmp.count;
+
+    /* each node must refer to the list that now owns it. */
+    for (slist_node* node = left->head; NULL != node; node = node->next)
+    {
+        node->parent = left;
+    }
+    for (slist_node* node = right->head; NULL != node; node = node->next)
+    {
+        node->parent = right;
+    }
 
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
-- 
2.43.0


From 97046808101d094b5fdb5bfcb0cc18ebc23166e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 03/44] fix: containers release every entry and their own
 memory when one release fails

A failing child release leaked the node, and stopped list and slist from releasing
the remaining entries and themselves. All entries are now released, and the first
failure is reported.
---
 src/list/list_clear.c           | 15 +++++----------
 src/list/list_create.c          | 15 ++++++---------
 src/list/list_node_release.c    | 12 +++++++-----
 src/rbtree/rbtree_node_create.c | 12 +++++++-----
 src/slist/slist_clear.c         | 13 ++++++-------
 src/slist/slist_create.c        | 14 ++++++--------
 src/slist/slist_node_release.c  | 12 +++++++-----
 7 files changed, 44 insertions(+), 49 deletions(-)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..72b4f4b 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -31,7 +31,7 @@ RCPR_IMPORT_list_internal;
 status FN_DECL_MUST_CHECK
 RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
 {
-    status retval;
+    status retval = STATUS_SUCCESS;
 
     /* check preconditions. */
     RCPR_MODEL_CONTRACT_CHECK_PRECONDITIONS(RCPR_SYM(list_clear), l);
@@ -47,11 +47,11 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         t->next = NULL;
         t->prev = NULL;
 
-        /* clean up node. */
-        retval = list_node_cleanup(l->alloc, t);
-        if (STATUS_SUCCESS != retval)
+        /* clean up node, remembering the first failure. */
+        status cleanup_retval = list_node_cleanup(l->alloc, t);
+        if (STATUS_SUCCESS == retval)
         {
-            goto done;
+            retval = cleanup_retval;
         }
     }
 
@@ -61,11 +61,6 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
     /* count is now 0. */
     l->count = 0U;
 
-    /* success. */
-    retval = STATUS_SUCCESS;
-    goto done;
-
-done:
     /* check postconditions. */
     RCPR_MODEL_CONTRACT_CHECK_POSTCONDITIONS(RCPR_SYM(list_clear), retval, l);
 
diff --git a/src/list/list_create.c b/src/list/list_create.c
index e4af394..d0ce211 100644
--- a/src/list/list_create.c
+++ b/src/list/list_create.c
@@ -125,20 +125,17 @@ done:
  */
 static status list_release(resource* r)
 {
-    status retval;
     list* l = (list*)r;
 
     /* clear list. */
-    retval = list_clear(l);
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
+    status clear_retval = list_clear(l);
 
     /* clean up. */
     allocator* a = l->alloc;
 
-    /* if reclaiming this list instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, l);
+    /* reclaim this list instance, even if an entry could not be released. */
+    status reclaim_retval = allocator_reclaim(a, l);
+
+    /* report the first failure. */
+    return STATUS_SUCCESS != clear_retval ? clear_retval : reclaim_retval;
 }
diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..76a70c4 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -31,6 +31,7 @@ status
 RCPR_SYM(list_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status release_retval = STATUS_SUCCESS;
     list_node* n = (list_node*)r;
 
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
@@ -46,15 +47,16 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this list_node instance succeeds, so does this release. */
+    /* reclaim this node, even if its child could not be released. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* report the first failure. */
     return
-        allocator_reclaim(a, n);
+        STATUS_SUCCESS != release_retval ? release_retval : reclaim_retval;
 }
diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..ea18d66 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -111,6 +111,7 @@ RCPR_SYM(rbtree_node_create)(
  */
 static status rbtree_node_release(resource* r)
 {
+    status release_retval = STATUS_SUCCESS;
     rbtree_node* n = (rbtree_node*)r;
 
     /* parameter sanity checks. */
@@ -126,15 +127,16 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(v);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this rbtree_node succeeds, then so does this release. */
+    /* reclaim this node, even if its value could not be released. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* report the first failure. */
     return
-        allocator_reclaim(a, n);
+        STATUS_SUCCESS != release_retval ? release_retval : reclaim_retval;
 }
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..bf3bc5a 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -33,7 +33,7 @@ RCPR_IMPORT_slist_internal;
 status FN_DECL_MUST_CHECK
 RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
 {
-    status retval;
+    status retval = STATUS_SUCCESS;
 
     /* iterate through slist nodes, releasing them. */
     while (NULL != l->head)
@@ -45,11 +45,11 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         t->parent = NULL;
         t->next = NULL;
 
-        /* clean up the node. */
-        retval = slist_node_cleanup(l->alloc, t);
-        if (STATUS_SUCCESS != retval)
+        /* clean up the node, remembering the first failure. */
+        status cleanup_retval = slist_node_cleanup(l->alloc, t);
+        if (STATUS_SUCCESS == retval)
         {
-            return retval;
+            retval = cleanup_retval;
         }
     }
 
@@ -59,6 +59,5 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
     /* count is now 0. */
     l->count = 0U;
 
-    /* success. */
-    return STATUS_SUCCESS;
+    return retval;
 }
diff --git a/src/slist/slist_create.c b/src/slist/slist_create.c
index c6c8321..3515be5 100644
--- a/src/slist/slist_create.c
+++ b/src/slist/slist_create.c
@@ -118,19 +118,17 @@ RCPR_SYM(slist_create)(
  */
 static status slist_release(resource* r)
 {
-    status retval;
     slist* l = (slist*)r;
 
     /* clear the list. */
-    retval = slist_clear(l);
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
+    status clear_retval = slist_clear(l);
 
     /* clean up. */
     allocator* a = l->alloc;
 
-    /* if reclaiming this slist instance succeeds, so does this release. */
-    return allocator_reclaim(a, l);
+    /* reclaim this slist instance, even if an entry could not be released. */
+    status reclaim_retval = allocator_reclaim(a, l);
+
+    /* report the first failure. */
+    return STATUS_SUCCESS != clear_retval ? clear_retval : reclaim_retval;
 }
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..172461a 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -32,6 +32,7 @@ status
 RCPR_SYM(slist_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status release_retval = STATUS_SUCCESS;
     slist_node* n = (slist_node*)r;
 
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
@@ -47,15 +48,16 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this slist_node instance succeeds, so does this release. */
+    /* reclaim this node, even if its child could not be released. */
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* report the first failure. */
     return
-        allocator_reclaim(a, n);
+        STATUS_SUCCESS != release_retval ? release_retval : reclaim_retval;
 }
-- 
2.43.0


From 884a03f5b6fc0a2f6f43e26043d369b2d4a32dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 04/44] fix: constructors set their output pointer to NULL on
 failure, as documented

---
 src/auto_reset_trigger/auto_reset_trigger_create.c         | 3 +++
 src/bigint/bigint_clone.c                                  | 3 +++
 src/bigint/bigint_create_zero.c                            | 3 +++
 src/fiber/common/fiber_create.c                            | 3 +++
 src/fiber/common/fiber_create_for_thread.c                 | 3 +++
 src/fiber/common/fiber_scheduler_create.c                  | 3 +++
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 3 +++
 src/fiber/common/fiber_scheduler_discipline_create.c       | 3 +++
 src/list/list_create.c                                     | 3 +++
 src/message/message_create.c                               | 3 +++
 src/platform/pthread/thread/thread_cond_create.c           | 3 +++
 src/platform/pthread/thread/thread_create.c                | 3 +++
 src/platform/pthread/thread/thread_mutex_create.c          | 3 +++
 src/psock/psock_br_create_from_psock.c                     | 3 +++
 src/psock/psock_create_from_buffer.c                       | 3 +++
 src/psock/psock_create_from_descriptor.c                   | 3 +++
 src/psock/psock_create_from_hostname_and_port.c            | 3 +++
 src/psock/psock_create_from_listen_address.c               | 3 +++
 src/psock/psock_create_from_user_methods.c                 | 3 +++
 src/psock/psock_create_wrap_async.c                        | 3 +++
 src/queue/queue_create.c                                   | 3 +++
 src/rbtree/rbtree_create.c                                 | 3 +++
 src/slist/slist_create.c                                   | 3 +++
 src/stack/stack_create.c                                   | 3 +++
 24 files changed, 72 insertions(+)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_create.c b/src/auto_reset_trigger/auto_reset_trigger_create.c
index d71dbb2..e04999f 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_create.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_create.c
@@ -68,6 +68,9 @@ RCPR_SYM(auto_reset_trigger_create)(
     RCPR_MODEL_ASSERT(NULL != trigger);
     RCPR_MODEL_ASSERT(prop_allocator_valid(alloc));
 
+    /* on failure, the output pointer is NULL. */
+    *trigger = NULL;
+
     /* attempt to allocate memory for this auto_reset_trigger instance. */
     retval = allocator_allocate(alloc, (void**)&tmp, sizeof(*tmp));
     if (STATUS_SUCCESS != retval)
diff --git a/src/bigint/bigint_clone.c b/src/bigint/bigint_clone.c
index 83badd7..febcb6c 100644
--- a/src/bigint/bigint_clone.c
+++ b/src/bigint/bigint_clone.c
@@ -59,6 +59,9 @@ RCPR_SYM(bigint_clone)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(prop_bigint_valid(j));
 
+    /* on failure, the output pointer is NULL. */
+    *i = NULL;
+
     /* attempt to allocate memory for the cloned bigint instacne. */
     bigint* tmp = NULL;
     retval =
diff --git a/src/bigint/bigint_create_zero.c b/src/bigint/bigint_create_zero.c
index d7a1010..05cc25f 100644
--- a/src/bigint/bigint_create_zero.c
+++ b/src/bigint/bigint_create_zero.c
@@ -71,6 +71,9 @@ RCPR_SYM(bigint_create_zero)(
     RCPR_MODEL_ASSERT(NULL != i);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the output pointer is NULL. */
+    *i = NULL;
+
     /* compute the size in bytes based on the bit size. */
     size_t byte_size = size / 8;
 
diff --git a/src/fiber/common/fiber_create.c b/src/fiber/common/fiber_create.c
index 18bd1cf..ecae110 100644
--- a/src/fiber/common/fiber_create.c
+++ b/src/fiber/common/fiber_create.c
@@ -83,6 +83,9 @@ RCPR_SYM(fiber_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* on failure, the output pointer is NULL. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_create_for_thread.c b/src/fiber/common/fiber_create_for_thread.c
index 137692d..6490c3a 100644
--- a/src/fiber/common/fiber_create_for_thread.c
+++ b/src/fiber/common/fiber_create_for_thread.c
@@ -72,6 +72,9 @@ RCPR_SYM(fiber_create_for_thread)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != fib);
 
+    /* on failure, the output pointer is NULL. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create.c b/src/fiber/common/fiber_scheduler_create.c
index b597700..fcdce53 100644
--- a/src/fiber/common/fiber_scheduler_create.c
+++ b/src/fiber/common/fiber_scheduler_create.c
@@ -78,6 +78,9 @@ RCPR_SYM(fiber_scheduler_create)(
     RCPR_MODEL_ASSERT(NULL != sched);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* on failure, the output pointer is NULL. */
+    *sched = NULL;
+
     /* attempt to allocate memory for this fiber_scheduler. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber_scheduler));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..f39b4a1 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -138,6 +138,9 @@ RCPR_SYM(fiber_scheduler_create_with_disciplines)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != sched);
 
+    /* on failure, the output pointer is NULL. */
+    *sched = NULL;
+
     /* attempt to allocate memory for the fiber scheduler context. */
     retval =
         allocator_allocate(
diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index a58f98e..6475c80 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -86,6 +86,9 @@ RCPR_SYM(fiber_scheduler_discipline_create)(
             callback_vector,
             callbacks * sizeof(fiber_scheduler_discipline_callback_fn)));
 
+    /* on failure, the output pointer is NULL. */
+    *disc = NULL;
+
     /* attempt to allocate memory for this fiber scheduler discipline. */
     retval =
         allocator_allocate(alloc, (void**)&tmp,
diff --git a/src/list/list_create.c b/src/list/list_create.c
index d0ce211..2275d46 100644
--- a/src/list/list_create.c
+++ b/src/list/list_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(list_create)(
     /* function contract preconditions. */
     RCPR_MODEL_CONTRACT_CHECK_PRECONDITIONS(RCPR_SYM(list_create), l, a);
 
+    /* on failure, the output pointer is NULL. */
+    *l = NULL;
+
     /* attempt to allocate memory for this list. */
     list* tmp = NULL;
     retval = allocator_allocate(a, (void**)&tmp, sizeof(list));
diff --git a/src/message/message_create.c b/src/message/message_create.c
index 217089f..d1bb534 100644
--- a/src/message/message_create.c
+++ b/src/message/message_create.c
@@ -62,6 +62,9 @@ RCPR_SYM(message_create)(
     RCPR_MODEL_ASSERT(returnaddr >= 0);
     RCPR_MODEL_ASSERT(prop_resource_valid(payload));
 
+    /* on failure, the output pointer is NULL. */
+    *msg = NULL;
+
     /* attempt to allocate memory for this message. */
     retval = allocator_allocate(alloc, (void**)&tmp, sizeof(message));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_cond_create.c b/src/platform/pthread/thread/thread_cond_create.c
index 549fbe7..bde49cb 100644
--- a/src/platform/pthread/thread/thread_cond_create.c
+++ b/src/platform/pthread/thread/thread_cond_create.c
@@ -69,6 +69,9 @@ RCPR_SYM(thread_cond_create)(
     RCPR_MODEL_ASSERT(NULL != cond);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the output pointer is NULL. */
+    *cond = NULL;
+
     /* attempt to allocate memory for this condition variable. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_cond));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_create.c b/src/platform/pthread/thread/thread_create.c
index f2caa3a..6ea764f 100644
--- a/src/platform/pthread/thread/thread_create.c
+++ b/src/platform/pthread/thread/thread_create.c
@@ -84,6 +84,9 @@ RCPR_SYM(thread_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* on failure, the output pointer is NULL. */
+    *th = NULL;
+
     /* create a thread attribute structure. */
     retval = pthread_attr_init(&attr);
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_create.c b/src/platform/pthread/thread/thread_mutex_create.c
index ab52a9e..0dd179d 100644
--- a/src/platform/pthread/thread/thread_mutex_create.c
+++ b/src/platform/pthread/thread/thread_mutex_create.c
@@ -76,6 +76,9 @@ RCPR_SYM(thread_mutex_create)(
     RCPR_MODEL_ASSERT(NULL != mut);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the output pointer is NULL. */
+    *mut = NULL;
+
     /* attempt to allocate memory for this mutex. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_mutex));
     if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..167ded8 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -77,6 +77,9 @@ RCPR_SYM(psock_br_create_from_psock)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
 
+    /* on failure, the output pointer is NULL. */
+    *br = NULL;
+
     /* attempt to allocate memory for this buffered psock. */
     psock_br* tmp = NULL;
     retval = allocator_allocate(a, (void**)&tmp, sizeof(psock_br));
diff --git a/src/psock/psock_create_from_buffer.c b/src/psock/psock_create_from_buffer.c
index 7369902..cd1ca4b 100644
--- a/src/psock/psock_create_from_buffer.c
+++ b/src/psock/psock_create_from_buffer.c
@@ -89,6 +89,9 @@ RCPR_SYM(psock_create_from_buffer)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT((buffer != NULL) || (buffer == NULL && size == 0));
 
+    /* on failure, the output pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this buffer psock. */
     psock_from_buffer* ps = NULL;
     retval = allocator_allocate(a, (void**)&ps, sizeof(psock_from_buffer));
diff --git a/src/psock/psock_create_from_descriptor.c b/src/psock/psock_create_from_descriptor.c
index 3994f1a..af33f91 100644
--- a/src/psock/psock_create_from_descriptor.c
+++ b/src/psock/psock_create_from_descriptor.c
@@ -84,6 +84,9 @@ RCPR_SYM(psock_create_from_descriptor)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(descriptor >= 0);
 
+    /* on failure, the output pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this descriptor psock. */
     psock_from_descriptor* ps = NULL;
     int retval =
diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index 37ad468..5ab26e2 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -76,6 +76,9 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != hostname);
 
+    /* on failure, the output pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to resolve this as an IPv4 address. */
     resolved = gethostbyname2(hostname, AF_INET);
     if (NULL != resolved)
diff --git a/src/psock/psock_create_from_listen_address.c b/src/psock/psock_create_from_listen_address.c
index 7d7c4f8..c93518a 100644
--- a/src/psock/psock_create_from_listen_address.c
+++ b/src/psock/psock_create_from_listen_address.c
@@ -73,6 +73,9 @@ RCPR_SYM(psock_create_from_listen_address)(
     RCPR_MODEL_ASSERT(NULL != name);
     RCPR_MODEL_ASSERT(prop_valid_range(name, namelen));
 
+    /* on failure, the output pointer is NULL. */
+    *sock = NULL;
+
     /* Create a socket for this address. */
     int desc = socket(AF_INET, SOCK_STREAM, 0);
     if (desc < 0)
diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 8fb38ca..15bdd87 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -99,6 +99,9 @@ RCPR_SYM(psock_create_from_user_methods)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != vtable);
 
+    /* on failure, the output pointer is NULL. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this user psock. */
     psock_from_user_methods* ps = NULL;
     int retval = allocator_allocate(a, (void**)&ps, sizeof(*ps));
diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..396105f 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -121,6 +121,9 @@ RCPR_SYM(psock_create_wrap_async)(
     RCPR_MODEL_ASSERT(prop_psock_valid(child));
     RCPR_MODEL_ASSERT(PSOCK_TYPE_DESCRIPTOR == child->type);
 
+    /* on failure, the output pointer is NULL. */
+    *sock = NULL;
+
     /* Verify that the psock type is descriptor. */
     if (PSOCK_TYPE_DESCRIPTOR != child->type)
     {
diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 0968be9..ff28f18 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(queue_create)(
     RCPR_MODEL_ASSERT(NULL != q);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the output pointer is NULL. */
+    *q = NULL;
+
     /* attempt to allocate memory for this queue. */
     queue* tmp = NULL;
     status retval = allocator_allocate(a, (void**)&tmp, sizeof(queue));
diff --git a/src/rbtree/rbtree_create.c b/src/rbtree/rbtree_create.c
index 3dfc092..b3fcdc4 100644
--- a/src/rbtree/rbtree_create.c
+++ b/src/rbtree/rbtree_create.c
@@ -85,6 +85,9 @@ RCPR_SYM(rbtree_create)(
     RCPR_MODEL_ASSERT(NULL != tree);
     RCPR_MODEL_ASSERT(NULL != a);
 
+    /* on failure, the output pointer is NULL. */
+    *tree = NULL;
+
     /* attempt to allocate memory for this rbtree instance. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(rbtree));
     if (STATUS_SUCCESS != retval)
diff --git a/src/slist/slist_create.c b/src/slist/slist_create.c
index 3515be5..e73881d 100644
--- a/src/slist/slist_create.c
+++ b/src/slist/slist_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(slist_create)(
     RCPR_MODEL_ASSERT(NULL != list);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* on failure, the output pointer is NULL. */
+    *list = NULL;
+
     /* attempt to allocate memory for this slist. */
     slist* l = NULL;
     int retval =
diff --git a/src/stack/stack_create.c b/src/stack/stack_create.c
index 7126711..f007628 100644
--- a/src/stack/stack_create.c
+++ b/src/stack/stack_create.c
@@ -85,6 +85,9 @@ RCPR_SYM(stack_create)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(stack_size > 0);
 
+    /* on failure, the output pointer is NULL. */
+    *st = NULL;
+
     /* attempt to allocate memory for this stack. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(stack));
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 3e8af4b39cc1b8f90e1a156edf394d2b86e8dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 05/44] fix: a failing uuid parse leaves the caller's uuid
 unchanged, as documented

---
 src/uuid/rcpr_uuid_parse_raw_string.c | 34 ++++++++++++++-------------
 src/uuid/rcpr_uuid_parse_string.c     | 34 ++++++++++++++-------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..502ec77 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,6 +53,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -65,44 +66,45 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (36 != length) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..2f95db2 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,6 +48,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -57,47 +58,48 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (NULL == str) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* finally, if the string is not empty, this fails. */
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From fddba2c074edc90316950db6286577bc8601ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 06/44] fix: bump allocator refuses requests whose size would
 wrap, and sets the pointer to NULL on failure

---
 src/allocator/bump_allocator_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..f2f6b39 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -184,14 +184,14 @@ static status bump_allocator_allocate(
 
     /* verify that this computed offset does not exceed the total size of this
      * memory region. */
-    size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    if (mem_offset >= bump->max_size || size >= bump->max_size - mem_offset)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
     /* bump the allocator. */
-    bump->offset = bump_offset;
+    bump->offset = mem_offset + size;
 
     /* success. */
     *ptr = (bump->region + mem_offset);
-- 
2.43.0


From c244b8f152ab524c03207e207bccfd9499ca849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 07/44] fix: reallocating to zero bytes must not free the
 region and report failure

---
 src/allocator/malloc_allocator_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/allocator/malloc_allocator_create.c b/src/allocator/malloc_allocator_create.c
index 4f43872..50629fa 100644
--- a/src/allocator/malloc_allocator_create.c
+++ b/src/allocator/malloc_allocator_create.c
@@ -243,8 +243,8 @@ static status malloc_allocator_reallocate(
     RCPR_MODEL_ASSERT(property_allocator_valid(alloc));
     RCPR_MODEL_ASSERT(NULL != ptr);
 
-    /* attempt to reallocate memory. */
-    void* newptr = realloc(*ptr, size);
+    /* attempt to reallocate memory; a zero size must not free the region. */
+    void* newptr = realloc(*ptr, size > 0 ? size : 1);
     if (NULL == newptr)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
-- 
2.43.0


From 33da7acd0a15d61a9e3483af3bf22230c5f2af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 08/44] fix: auto_reset_trigger_step resets before notifying,
 so the listener can register or signal again

---
 src/auto_reset_trigger/auto_reset_trigger_step.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_step.c b/src/auto_reset_trigger/auto_reset_trigger_step.c
index 0f96a6b..4d92680 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_step.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_step.c
@@ -28,13 +28,16 @@ RCPR_SYM(auto_reset_trigger_step)(RCPR_SYM(auto_reset_trigger)* trigger)
         /* Is there a listener? */
         if (NULL != trigger->callback)
         {
-            /* notify the listener. */
-            (trigger->callback)(trigger->context);
+            RCPR_SYM(auto_reset_trigger_callback) callback = trigger->callback;
+            void* context = trigger->context;
 
             /* reset the trigger. */
             trigger->triggered = false;
             trigger->callback = NULL;
             trigger->context = NULL;
+
+            /* notify the listener, which may signal or register again. */
+            callback(context);
         }
     }
 }
-- 
2.43.0


From 7ba852df0d5aca02183cc1d23c3f0bb593f1a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 09/44] fix: close_other_fds closes descriptors beyond
 FD_SETSIZE too

---
 .../socket_utility_close_other_fds.c          | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/socket_utilities/socket_utility_close_other_fds.c b/src/socket_utilities/socket_utility_close_other_fds.c
index 1fd3d29..6148d60 100644
--- a/src/socket_utilities/socket_utility_close_other_fds.c
+++ b/src/socket_utilities/socket_utility_close_other_fds.c
@@ -9,6 +9,7 @@
 
 #include <rcpr/socket_utilities.h>
 #include <sys/select.h>
+#include <sys/syscall.h>
 #include <unistd.h>
 
 /**
@@ -24,9 +25,23 @@
 status FN_DECL_MUST_CHECK
 RCPR_SYM(socket_utility_close_other_fds)(int fd)
 {
-    for (int i = fd + 1; i < FD_SETSIZE; ++i)
+    /* descriptors are limited by the open file limit, and not by FD_SETSIZE. */
+#if defined(SYS_close_range)
+    if (fd >= 0 && 0 == syscall(SYS_close_range, (unsigned)fd + 1U, ~0U, 0))
     {
-        close(i);
+        return STATUS_SUCCESS;
+    }
+#endif
+
+    long limit = sysconf(_SC_OPEN_MAX);
+    if (limit < FD_SETSIZE)
+    {
+        limit = FD_SETSIZE;
+    }
+
+    for (long i = (long)fd + 1; i < limit; ++i)
+    {
+        close((int)i);
     }
 
     return STATUS_SUCCESS;
-- 
2.43.0


From a190bd3a996a952e5ea31c4ce4588ba6d1c696bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 10/44] fix: move_descriptors and setfds no longer close the
 descriptors they move, or others in the way

---
 src/socket_utilities/vsocket_utility_move_descriptors.c | 8 ++++----
 src/socket_utilities/vsocket_utility_setfds.c           | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..36b0629 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <fcntl.h>
 #include <rcpr/socket_utilities.h>
 #include <stddef.h>
 #include <unistd.h>
@@ -53,8 +54,8 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Move the descriptor to the threshold or above */
-        new_fd = dup2(old_fd, threshold);
+        /* Move the descriptor to an unused offset at the threshold or above */
+        new_fd = fcntl(old_fd, F_DUPFD, threshold);
         if (new_fd < 0)
         {
             retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
@@ -65,11 +66,10 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
         close(old_fd);
 
         /* Update the descriptor to point to the new location */
-        *curr = threshold;
+        *curr = new_fd;
 
         /* Advance to next descriptor */
         curr = va_arg(args, int*);
-        threshold++;
     }
 
     retval = STATUS_SUCCESS;
diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..5ef7e60 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it already was in the right place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 363f24acc48b4e0a1789d485b9863e571dbad642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 11/44] fix: psock_br_create_from_psock reports a failed buffer
 allocation

---
 src/psock/psock_br_create_from_psock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 167ded8..8e22401 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -132,7 +132,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From a0b6235050335e031c41c4888c00bc93a81d28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 12/44] fix: a buffered psock has the socket type of the psock
 it wraps, so descriptors can be passed through it

---
 src/psock/psock_br_create_from_psock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 8e22401..fee7a9d 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -108,6 +108,9 @@ RCPR_SYM(psock_br_create_from_psock)(
     /* set the type. */
     tmp->hdr.type = PSOCK_TYPE_BUFFERED;
 
+    /* a buffered psock is of the same kind as the socket that it wraps. */
+    tmp->hdr.socktype = sock->socktype;
+
     /* set the socket. */
     tmp->wrapped = sock;
 
-- 
2.43.0


From 0d1355840e88f7e4bfff856b0b4ba6a0fef5fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 13/44] fix: an empty string or data value at the end of a
 memory buffer can be read

---
 src/psock/psock_from_buffer_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_from_buffer_read.c b/src/psock/psock_from_buffer_read.c
index 8dc8217..461211d 100644
--- a/src/psock/psock_from_buffer_read.c
+++ b/src/psock/psock_from_buffer_read.c
@@ -46,6 +46,12 @@ status RCPR_SYM(psock_from_buffer_read)(
     /* cast to the derived type. */
     psock_from_buffer* pb = (psock_from_buffer*)sock;
 
+    /* reading nothing always succeeds, even at the end of the buffer. */
+    if (0 == *size)
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* if we are at EOF, return EOF. */
     if (NULL == pb->input_buffer
      || pb->buffer_read_offset >= pb->input_buffer_size)
-- 
2.43.0


From e9a6d929f3723bd5f10cef23aa691cdf869ec70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 14/44] fix: a blocking read from a descriptor continues until
 all bytes are read, as documented

---
 src/psock/psock_from_descriptor_read.c | 42 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 5b39baf..80a5386 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -33,7 +33,7 @@ status RCPR_SYM(psock_from_descriptor_read)(
     RCPR_SYM(psock)* sock, void* ctx, void* data, size_t* size, bool block)
 {
     (void)ctx;
-    (void)block;
+    size_t total = 0;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -44,22 +44,44 @@ status RCPR_SYM(psock_from_descriptor_read)(
     /* convert this to a psock_from_descriptor. */
     psock_from_descriptor* s = (psock_from_descriptor*)sock;
 
-    /* attempt to read from the descriptor. */
-    ssize_t retval = read(s->descriptor, data, *size);
-    if (retval < 0)
+    /* a blocking read continues until all bytes are read; a datagram is read as
+     * a unit. */
+    bool read_all = block && PSOCK_SOCKET_TYPE_DATAGRAM != sock->socktype;
+
+    do
     {
-        if (EAGAIN == errno || EWOULDBLOCK == errno)
+        /* attempt to read from the descriptor. */
+        ssize_t retval =
+            read(s->descriptor, ((uint8_t*)data) + total, *size - total);
+        if (retval < 0)
         {
-            return ERROR_PSOCK_READ_WOULD_BLOCK;
+            if (EAGAIN == errno || EWOULDBLOCK == errno)
+            {
+                /* report the bytes already read. */
+                if (total > 0)
+                {
+                    break;
+                }
+
+                return ERROR_PSOCK_READ_WOULD_BLOCK;
+            }
+            else
+            {
+                return ERROR_PSOCK_READ_GENERAL;
+            }
         }
-        else
+
+        /* the end of the stream has been reached. */
+        if (0 == retval)
         {
-            return ERROR_PSOCK_READ_GENERAL;
+            break;
         }
-    }
+
+        total += (size_t)retval;
+    } while (read_all && total < *size);
 
     /* save the size read. */
-    *size = (size_t)retval;
+    *size = total;
 
     /* success, but the read might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From c1d6fec2cca847a3f7b81fa7753780a801763006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 15/44] fix: a non-blocking read through an async psock returns
 the bytes read before an end or error

---
 src/psock/psock_wrap_async_read.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..821d4f5 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -83,17 +83,12 @@ status RCPR_SYM(psock_wrap_async_read)(
             }
             continue;
         }
-        /* if we shouldn't block until the read has completed, then return. */
-        else if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && !block)
+        /* if we shouldn't block until the read has completed, then return the
+         * bytes already read; any other outcome is reported by the next read. */
+        else if (!block && *size > 0
+              && (STATUS_SUCCESS != retval || 0 == tmp_size))
         {
-            if (*size > 0)
-            {
-                return STATUS_SUCCESS;
-            }
-            else
-            {
-                return retval;
-            }
+            return STATUS_SUCCESS;
         }
         /* if a different error occurred in the read, return it.*/
         else if (STATUS_SUCCESS != retval)
-- 
2.43.0


From ed3b97add43e4517b0bd3bd4ec71a9312c42bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 16/44] fix: a failing write to an output buffer psock leaves
 it as it was, and usable

---
 src/psock/psock_from_buffer_write.c | 115 ++++++++--------------------
 1 file changed, 34 insertions(+), 81 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..7e90285 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -50,9 +50,10 @@ status RCPR_SYM(psock_from_buffer_write)(
     (void)ctx;
     status retval, release_retval;
     size_t copy_size;
-    size_t total_size = 0;
+    size_t remaining_size;
+    size_t next_buffer_size = 0;
     psock_output_buffer_node* ob = NULL;
-    void* large_buffer = NULL;
+    void* next_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -75,131 +76,83 @@ status RCPR_SYM(psock_from_buffer_write)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* fill the current buffer first. */
+    /* how much of this data fits into the current buffer? */
     copy_size = pb->output_buffer_size - pb->buffer_write_offset;
     if (copy_size > *size)
     {
         copy_size = *size;
     }
-    memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-    data = ((uint8_t*)data) + copy_size;
-    total_size += copy_size;
-    pb->buffer_write_offset += copy_size;
-    *size -= copy_size;
+    remaining_size = *size - copy_size;
 
-    /* if the current buffer is full, append it to the output queue and reset
-     * the buffer. */
-    if (pb->buffer_write_offset >= pb->output_buffer_size)
+    /* if it does not all fit, then obtain everything that is needed to continue
+     * in a new buffer first, so that on failure, nothing has been written. */
+    if (remaining_size > 0)
     {
-        /* create an output buffer node. */
-        retval =
-            psock_output_buffer_node_create(
-                &ob, sock->alloc, pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
+        next_buffer_size =
+            remaining_size > PSOCK_BUFFER_SIZE
+                ? remaining_size
+                : PSOCK_BUFFER_SIZE;
 
-        /* append this to the tail of the queue. */
-        retval = slist_append_tail(pb->output_queue, &ob->hdr);
-        if (STATUS_SUCCESS != retval)
-        {
-            /* clean up ob. */
-            ob->buffer = NULL;
-            release_retval = resource_release(&ob->hdr);
-            if (STATUS_SUCCESS != release_retval)
-            {
-                retval = release_retval;
-            }
-            goto done;
-        }
-
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
-        pb->output_buffer_size = PSOCK_BUFFER_SIZE;
-        pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
+        /* allocate the next buffer. */
         retval =
             allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
+                sock->alloc, (void**)&next_buffer, next_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
             goto done;
         }
-    }
 
-    /* if the remaining size is greater than the current output buffer size,
-     * then create and append a buffer equal to that size to save time. */
-    if (*size >= pb->output_buffer_size)
-    {
-        /* create a buffer for holding this extra data. */
-        retval = allocator_allocate(sock->alloc, (void**)&large_buffer, *size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
-
-        /* copy data to this buffer. */
-        memcpy(large_buffer, data, *size);
-
-        /* create an output buffer node. */
+        /* create a buffer entry for the current buffer. */
         retval =
             psock_output_buffer_node_create(
-                &ob, sock->alloc, large_buffer, *size);
+                &ob, sock->alloc, pb->output_curr_buffer,
+                pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto cleanup_large_buffer;
+            goto cleanup_next_buffer;
         }
 
-        /* append this to the tail of the queue. */
+        /* append this to the queue. */
         retval = slist_append_tail(pb->output_queue, &ob->hdr);
         if (STATUS_SUCCESS != retval)
         {
-            ob->buffer = NULL;
             goto cleanup_ob;
         }
-
-        /* fixups. */
-        data = ((uint8_t*)data) + *size;
-        total_size += *size;
-        *size = 0;
     }
 
-    /* if there is still remaining data to copy, then append it. */
-    if (*size > 0)
+    /* fill the current buffer. */
+    memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
+    pb->buffer_write_offset += copy_size;
+
+    /* continue in the next buffer. */
+    if (remaining_size > 0)
     {
-        copy_size = *size;
-        memcpy(
-            pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-        total_size += copy_size;
-        pb->buffer_write_offset += copy_size;
-        *size -= copy_size;
+        memcpy(next_buffer, ((uint8_t*)data) + copy_size, remaining_size);
+        pb->output_curr_buffer = next_buffer;
+        pb->output_buffer_size = next_buffer_size;
+        pb->buffer_write_offset = remaining_size;
     }
 
-    /* success. */
-    RCPR_MODEL_ASSERT(0 == *size);
-    *size = total_size;
+    /* everything was written. */
     pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
 cleanup_ob:
+    /* the current buffer is still owned by this psock. */
+    ob->buffer = NULL;
     release_retval = resource_release(&ob->hdr);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
 
-cleanup_large_buffer:
-    release_retval = allocator_reclaim(sock->alloc, large_buffer);
+cleanup_next_buffer:
+    release_retval = allocator_reclaim(sock->alloc, next_buffer);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-    goto done;
 
 done:
     return retval;
-- 
2.43.0


From 38fc9b146c9d601f50720974031481c85500bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 17/44] fix: getting the output buffer leaves the caller's
 variables unchanged on failure, as documented

---
 src/psock/psock_from_buffer_get_output_buffer.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_from_buffer_get_output_buffer.c b/src/psock/psock_from_buffer_get_output_buffer.c
index f290e0c..a0c640a 100644
--- a/src/psock/psock_from_buffer_get_output_buffer.c
+++ b/src/psock/psock_from_buffer_get_output_buffer.c
@@ -66,6 +66,7 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
     size_t* buffer_size)
 {
     status retval, release_retval;
+    void* tmp = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -89,29 +90,29 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* set the buffer size. */
-    *buffer_size = pb->output_buffer_total_size;
-
     /* allocate memory for the output buffer. */
-    retval = allocator_allocate(a, buffer, *buffer_size);
+    retval = allocator_allocate(a, &tmp, pb->output_buffer_total_size);
     if (STATUS_SUCCESS != retval)
     {
         goto done;
     }
 
     /* copy the output buffer data to this buffer. */
-    retval = copy_output_buffer(pb, (uint8_t*)*buffer, *buffer_size);
+    retval =
+        copy_output_buffer(pb, (uint8_t*)tmp, pb->output_buffer_total_size);
     if (STATUS_SUCCESS != retval)
     {
         goto reclaim_buffer;
     }
 
     /* success. */
+    *buffer = tmp;
+    *buffer_size = pb->output_buffer_total_size;
     retval = STATUS_SUCCESS;
     goto done;
 
 reclaim_buffer:
-    release_retval = allocator_reclaim(a, *buffer);
+    release_retval = allocator_reclaim(a, tmp);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From 192b7d2439f6673a5b8b9950a4bee88e6e5aa356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 18/44] fix: buffered reads hand out buffered bytes before a
 stream end, and wait for an async psock instead of failing

---
 src/psock/psock_br_fill.c       | 39 ++++++++++++++++++++++++++-------
 src/psock/psock_br_psock_read.c |  6 ++---
 src/psock/psock_br_read_line.c  | 15 +++++++++++--
 src/psock/psock_internal.h      |  8 ++++---
 4 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..b3833f0 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,15 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         Set to true to wait for data if the backing \ref psock is
+ *                      asynchronous and has none yet.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -59,15 +61,36 @@ status RCPR_SYM(psock_br_fill)(
     }
 
     /* read as many bytes as we can from the wrapped socket. */
-    size_t read_bytes = br->max_size - br->current_size;
-    retval =
-        wrapped_vtable->read_fn(
-            br->wrapped, br->wrapped->context, br->buffer + br->current_size,
-            &read_bytes, false);
-    if (STATUS_SUCCESS != retval)
+    size_t read_bytes;
+    do
     {
+        read_bytes = br->max_size - br->current_size;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, false);
+        if (STATUS_SUCCESS == retval)
+        {
+            break;
+        }
+
+#ifdef HAS_PSOCK_ASYNC
+        /* an asynchronous socket can wait for the first of these bytes. */
+        if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && block
+         && PSOCK_TYPE_WRAP_ASYNC == br->wrapped->type)
+        {
+            retval = psock_read_block(br->wrapped);
+            if (STATUS_SUCCESS == retval)
+            {
+                continue;
+            }
+        }
+#else
+        (void)block;
+#endif /* HAS_PSOCK_ASYNC */
+
         goto done;
-    }
+    } while (true);
 
     /* if zero bytes were read, then the socket is closed. */
     if (0 == read_bytes)
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..77f4bca 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -49,10 +49,10 @@ status RCPR_SYM(psock_br_psock_read)(
     uint8_t* bdata = (uint8_t*)data;
 
     do {
-        /* attempt to fill the buffer if we don't have enough bytes. */
-        if (available_bytes < requested_bytes)
+        /* attempt to fill the buffer if it has been used up. */
+        if (0 == available_bytes && requested_bytes > 0)
         {
-            retval = psock_br_fill(br);
+            retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
             {
                 /* update size with the number of read bytes. */
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..8bbfd4e 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,8 +158,19 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
-                if (STATUS_SUCCESS != retval)
+                retval = psock_br_fill(br, true);
+                if (ERROR_PSOCK_READ_WOULD_BLOCK == retval)
+                {
+                    /* the rest of this line has not arrived yet. */
+                    if (committed_bytes > 0)
+                    {
+                        *bbuf = 0;
+                        *buffer_size = committed_bytes;
+                        retval = ERROR_PSOCK_BR_READ_LINE_TRUNCATED;
+                    }
+                    goto done;
+                }
+                else if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
                     br->error = true;
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..eb8a6a0 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,15 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         Set to true to wait for data if the backing \ref psock is
+ *                      asynchronous and has none yet.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +700,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From a1f78fcde5b76ea0ba836488e4449d706ae09cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 19/44] fix: psock_write_boxed_data refuses data whose size
 does not fit the wire format

---
 src/psock/psock_write_boxed_data.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_write_boxed_data.c b/src/psock/psock_write_boxed_data.c
index 93b414f..3ccc469 100644
--- a/src/psock/psock_write_boxed_data.c
+++ b/src/psock/psock_write_boxed_data.c
@@ -55,6 +55,12 @@ RCPR_SYM(psock_write_boxed_data)(
     RCPR_MODEL_ASSERT(NULL != data);
     RCPR_MODEL_ASSERT(data_size <= UINT32_MAX);
 
+    /* the size must be representable on the wire. */
+    if (data_size > UINT32_MAX)
+    {
+        return ERROR_PSOCK_WRITE_INVALID_SIZE;
+    }
+
     /* attempt to write the type to the socket. */
     retval = psock_write_raw_uint32(sock, PSOCK_BOXED_TYPE_DATA);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From a76b1b518460e5a1a1a16397d50b5b3008f1977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 20/44] fix: psock_read_raw_descriptor closes descriptors it
 does not return

---
 src/psock/psock_read_raw_descriptor.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_read_raw_descriptor.c b/src/psock/psock_read_raw_descriptor.c
index 1862224..1d527b1 100644
--- a/src/psock/psock_read_raw_descriptor.c
+++ b/src/psock/psock_read_raw_descriptor.c
@@ -103,8 +103,24 @@ RCPR_SYM(psock_read_raw_descriptor)(
         /* if this is a socket message, save the socket. */
         if (SOL_SOCKET == cm->cmsg_level && SCM_RIGHTS == cm->cmsg_type)
         {
-            memcpy(desc, CMSG_DATA(cm), sizeof(int));
-            break;
+            size_t count = (cm->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+            for (size_t i = 0; i < count; ++i)
+            {
+                int received;
+                memcpy(
+                    &received, CMSG_DATA(cm) + i * sizeof(int), sizeof(int));
+
+                /* only the first descriptor is returned; the control buffer has
+                 * room for more, which no one would ever close. */
+                if (*desc < 0)
+                {
+                    *desc = received;
+                }
+                else
+                {
+                    close(received);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 1a4f8dc1d3fc79cb60b97fb301fec8a99598554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 21/44] fix: a fiber waiting on a descriptor is resumed on a
 hang up or error reported alone, and poll is retried when interrupted

---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 7 +++++++
 src/psock/platform/poll/psock_idle_fiber_entry.c  | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..5656278 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,6 +70,13 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
+            /* a hang up or an error ends both read and write waits; either of
+             * these can be reported without EPOLLIN or EPOLLOUT. */
+            if (filter & (EPOLLHUP | EPOLLERR))
+            {
+                filter |= EPOLLIN | EPOLLOUT;
+            }
+
             /* check for a read resume event. */
             if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
             {
diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 02bc94d..303c8fd 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <errno.h>
 #include <rcpr/fiber/disciplines/psock_io.h>
 #include <rcpr/model_assert.h>
 #include <string.h>
@@ -40,7 +41,11 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
     {
         /* wait on a poll event. */
         int nev = poll(ctx->poll_events, ctx->poll_curr, -1);
-        if (nev < 0)
+        if (nev < 0 && EINTR == errno)
+        {
+            continue;
+        }
+        else if (nev < 0)
         {
             retval = ERROR_PSOCK_POLL_FAILED;
             goto done;
@@ -67,7 +72,7 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 resume_event =
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE;
             }
-            else if (revents & POLLHUP)
+            else if (revents & (POLLHUP | POLLERR))
             {
                 if (events & POLLIN)
                 {
-- 
2.43.0


From 8df19933930b53cef9650cece4f8da4a89cd0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 22/44] fix: psock_create_wrap_async does not leave an I/O
 discipline without idle fiber behind when it fails

---
 src/psock/psock_create_wrap_async.c | 30 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index 396105f..e4952c8 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -298,22 +298,22 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. This is done last, as the scheduler
+     * owns the discipline afterward; a discipline without an idle fiber would be
+     * found, but could not be used. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        goto cleanup_idle_fiber;
     }
 
     /* set the idle fiber. */
@@ -323,7 +323,14 @@ static status psock_create_wrap_async_add_psock_discipline(
         /* note: if we've added the fiber, we can no longer clean it up. But,
          * the add won't fail. */
         /* TODO - make set idle fiber return void. */
-        goto cleanup_idle_fiber;
+        release_retval = resource_release(fiber_resource_handle(idle_fiber));
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+
+        /* skip the discipline cleanup; it is now handled by the scheduler. */
+        goto done;
     }
 
     /* success. */
@@ -337,9 +344,6 @@ cleanup_idle_fiber:
         retval = release_retval;
     }
 
-    /* skip the discipline cleanup; it is now handled by the scheduler. */
-    goto done;
-
 cleanup_discipline:
     release_retval =
         resource_release(fiber_scheduler_discipline_resource_handle(*disc));
-- 
2.43.0


From 94b90f320e7b914655b82e4ff204ad76f79f9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 23/44] fix: fiber_discipline_yield rejects the first index
 past a discipline's callbacks

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From d3a748cb17eb975aa2aaeddd9ea92c418cdf8fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 24/44] fix: fiber_scheduler_create_with_disciplines reports
 failure when memory runs out

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index f39b4a1..97c663b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -352,7 +352,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 44705fedad0ab4600c26d4e193adb27d98044c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 25/44] fix: releasing a scheduler that could not be fully
 created does not use its missing context

---
 .../fiber_scheduler_create_with_disciplines.c       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 97c663b..e787b86 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -982,11 +982,14 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_event;
     (void)yield_param;
 
-    /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    /* insert the yielding fiber into the beginning of the run queue. The context
+     * has no scheduler yet if creating the scheduler failed. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From ed95c8653d6f4451cdce2983cfa9c410b4f67935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 26/44] fix: releasing a disciplined scheduler reclaims its
 context

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index e787b86..48ae681 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -495,6 +495,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status context_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -553,6 +554,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context itself. */
+    context_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -582,7 +586,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     }
     else
     {
-        return STATUS_SUCCESS;
+        return context_retval;
     }
 }
 
-- 
2.43.0


From a577c6dbe854526386e589754b4b460dd20fbbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 27/44] fix: a fiber that could not be added to a scheduler
 stays with the caller, unqueued

---
 .../fiber_scheduler_create_with_disciplines.c | 76 +++++++++++++------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 48ae681..85f1409 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -825,7 +825,9 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, undo_retval;
+    resource* dummy = NULL;
+    bool notified = false;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -847,25 +849,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -873,9 +856,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto undo_insert;
     }
 
     /* if the management fiber exists, */
@@ -890,15 +871,60 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto undo_yielding_fiber;
         }
 
-        /* clear the management fiber until it yields again. */
+        notified = true;
+    }
+
+    /* append the new fiber to the run queue. This is done last, as everything at
+     * the front of the queue can be undone. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto undo_management_fiber;
+    }
+
+    /* clear the management fiber until it yields again. */
+    if (notified)
+    {
         ctx->management_fiber = NULL;
     }
 
     /* success. */
     return STATUS_SUCCESS;
+
+undo_management_fiber:
+    if (notified)
+    {
+        undo_retval = queue_pop(ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != undo_retval)
+        {
+            retval = undo_retval;
+        }
+    }
+
+undo_yielding_fiber:
+    undo_retval = queue_pop(ctx->run_queue, &dummy);
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        retval = undo_retval;
+    }
+
+undo_insert:
+    /* the caller still owns the fiber that could not be added. */
+    undo_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        retval = undo_retval;
+    }
+
+    return retval;
 }
 
 /**
-- 
2.43.0


From c84aa1dc7e9f9b26368aad3580351f7f2ec21994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 28/44] fix: a discipline that could not be added to a
 scheduler stays with the caller

---
 .../common/fiber_scheduler_discipline_add.c   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..29c0cf4 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -87,16 +87,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
  
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
-
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
     if (NULL == ctx->callback_vector)
@@ -144,6 +134,17 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree. The tree owns it afterward, so
+     * nothing can fail past this point. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From 8e24932fdf32bb22cb6b123326b70b606cdc8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 29/44] fix: creating a mailbox or condition reports the
 failure when its registration fails

---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From af4767347fb158668b502dd67043b6dc229f5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 30/44] fix: an interrupted message receive is no longer
 registered as waiting

---
 src/message/message_receive.c | 50 +++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index efd7b83..45b47ce 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -14,8 +14,16 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
+RCPR_IMPORT_message_internal;
+RCPR_IMPORT_queue;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void message_receive_cancel(
+    mailbox_address recvaddr, fiber_scheduler_discipline* msgdisc);
+
 /**
  * \brief Receive a \ref message from the mailbox.
  *
@@ -58,9 +66,18 @@ RCPR_SYM(message_receive)(
             (void*)recvaddr, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        message_receive_cancel(recvaddr, msgdisc);
         return retval;
     }
 
+    /* an event from another discipline interrupts this receive. */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(*resume_id)))
+    {
+        message_receive_cancel(recvaddr, msgdisc);
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is MESSAGE_RECEIVE_FAILURE, return the error. */
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
@@ -82,6 +99,39 @@ RCPR_SYM(message_receive)(
     {
         /* TODO - add support for out-of-band events. */
 
+        message_receive_cancel(recvaddr, msgdisc);
         return ERROR_MESSAGE_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief If the current fiber is still registered as blocked on the given
+ * mailbox, then remove this registration, so that a later send does not resume
+ * a fiber that is no longer waiting.
+ *
+ * \param recvaddr      The \ref mailbox_address of the interrupted receive.
+ * \param msgdisc       The messaging discipline.
+ */
+static void message_receive_cancel(
+    mailbox_address recvaddr, fiber_scheduler_discipline* msgdisc)
+{
+    mailbox* mbox = NULL;
+    fiber* fib = NULL;
+    message_discipline_context* ctx =
+        (message_discipline_context*)
+            fiber_scheduler_discipline_context_get(msgdisc);
+
+    if (
+        STATUS_SUCCESS !=
+            disciplined_fiber_scheduler_current_fiber_get(&fib, ctx->sched)
+     || STATUS_SUCCESS !=
+            rbtree_find((resource**)&mbox, ctx->mailboxes, &recvaddr))
+    {
+        return;
+    }
+
+    if (fib == mbox->blocked_fiber)
+    {
+        mbox->blocked_fiber = NULL;
+    }
+}
-- 
2.43.0


From 5c3852bc22e568d8b11caa78146bebed1554b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 31/44] fix: an interrupted conditional wait leaves the wait
 list

---
 src/condition/conditional_wait.c | 82 ++++++++++++++++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 5bbbff3..7d29729 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -14,8 +14,16 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
+RCPR_IMPORT_condition_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void conditional_wait_cancel(
+    conditional handle, fiber_scheduler_discipline* condisc);
+
 /**
  * \brief Wait on a \ref conditional.
  *
@@ -49,9 +57,19 @@ RCPR_SYM(conditional_wait)(
             (void*)handle, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        conditional_wait_cancel(handle, condisc);
         return retval;
     }
 
+    /* an event from another discipline interrupts this wait. */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            sizeof(*resume_id)))
+    {
+        conditional_wait_cancel(handle, condisc);
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is WAIT_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
     {
@@ -68,6 +86,70 @@ RCPR_SYM(conditional_wait)(
     {
         /* TODO - add support for out-of-band events. */
 
+        conditional_wait_cancel(handle, condisc);
         return ERROR_CONDITION_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief If the current fiber is still in the wait list of the given
+ * conditional, then remove it, so that a later notification does not resume a
+ * fiber that is no longer waiting.
+ *
+ * \param handle        The \ref conditional handle of the interrupted wait.
+ * \param condisc       The condition discipline.
+ */
+static void conditional_wait_cancel(
+    conditional handle, fiber_scheduler_discipline* condisc)
+{
+    status retval;
+    condition_barrier* cond = NULL;
+    fiber* fib = NULL;
+    slist_node* prev = NULL;
+    slist_node* node = NULL;
+    resource* child = NULL;
+    condition_discipline_context* ctx =
+        (condition_discipline_context*)
+            fiber_scheduler_discipline_context_get(condisc);
+
+    if (
+        STATUS_SUCCESS !=
+            disciplined_fiber_scheduler_current_fiber_get(&fib, ctx->sched)
+     || STATUS_SUCCESS !=
+            rbtree_find((resource**)&cond, ctx->condition_barriers, &handle)
+     || STATUS_SUCCESS != slist_head(&node, cond->wait_list))
+    {
+        return;
+    }
+
+    /* find this fiber in the wait list. */
+    while (NULL != node)
+    {
+        if (STATUS_SUCCESS != slist_node_child(&child, node))
+        {
+            return;
+        }
+
+        /* remove the entry; the fiber itself is not released. */
+        if (fiber_resource_handle(fib) == child)
+        {
+            child = NULL;
+            if (NULL == prev)
+            {
+                retval = slist_pop(cond->wait_list, &child);
+            }
+            else
+            {
+                retval = slist_node_next_pop(prev, &child);
+            }
+            (void)retval;
+            return;
+        }
+
+        prev = node;
+        if (STATUS_SUCCESS != slist_node_next(&node, prev))
+        {
+            return;
+        }
+    }
+}
-- 
2.43.0


From c714207a27f3b1344c9a9160625c8a483b381deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 32/44] fix: exit instead of faulting when a finished fiber
 cannot yield

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From 9991ee8c59ea194685ab1b7fa23e41a83ea76c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 33/44] fix: a fiber resumed from a management wait is no
 longer waiting

---
 ...ciplined_fiber_scheduler_receive_management_event.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c b/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
index 01b26ae..07c5b1c 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
@@ -58,9 +58,17 @@ RCPR_SYM(disciplined_fiber_scheduler_receive_management_event)(
     ctx = (fiber_scheduler_disciplined_context*)sched->context;
 
     /* Yield with the management discipline yield event to receive an event. */
-    return
+    status retval =
         fiber_discipline_yield(
             ctx->management_discipline,
             FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_RECEIVE_EVENT,
             NULL, resume_id, resume_event, resume_param);
+
+    /* however it was resumed, this fiber is no longer waiting. */
+    if (ctx->management_fiber == sched->current_fiber)
+    {
+        ctx->management_fiber = NULL;
+    }
+
+    return retval;
 }
-- 
2.43.0


From b9dcb421bbb341c5a36eba89c4af385c46162712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 34/44] fix: an idle fiber that was added to the scheduler is
 released once

---
 .../common/fiber_scheduler_create_with_disciplines.c   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 85f1409..095a848 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -507,6 +507,16 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     /* cache the allocator. */
     allocator* alloc = ctx->alloc;
 
+    /* an idle fiber that was added to the scheduler is owned by the fibers by
+     * pointer tree, and must not be released a second time. */
+    resource* idle_owner = NULL;
+    if (NULL != ctx->idle_fiber
+     && STATUS_SUCCESS ==
+            rbtree_find(&idle_owner, ctx->fibers_by_pointer, ctx->idle_fiber))
+    {
+        ctx->idle_fiber = NULL;
+    }
+
     /* release the fibers by pointer tree, releasing all fibers still associated
      * with it. */
     fibers_by_pointer_retval =
-- 
2.43.0


From fdfbd214b49712ba0b44a2c80d4149d1a030113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 35/44] fix: a stopped idle fiber is never resumed

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 095a848..9327123 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -719,7 +719,8 @@ static status fiber_scheduler_disciplined_callback(
         return STATUS_SUCCESS;
     }
     /* otherwise, switch to the idle fiber. */
-    else if (NULL != ctx->idle_fiber)
+    else if (NULL != ctx->idle_fiber
+          && FIBER_STATE_STOPPED != ctx->idle_fiber->fiber_state)
     {
         *resume_fib = ctx->idle_fiber;
         *resume_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
-- 
2.43.0


From de82624b410be8c60c35645ed715177657f90a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 36/44] fix: a fiber resumed from a socket wait keeps the wait
 another fiber registered meanwhile

---
 src/psock/psock_read_block.c  | 8 ++++++--
 src/psock/psock_write_block.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..2535ff2 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -102,8 +102,12 @@ RCPR_SYM(psock_read_block)(
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->read_block_fib = NULL;
+         * blocked. Another fiber can have blocked on this socket since this
+         * fiber was scheduled to resume, so don't discard its registration. */
+        if (current_fib == s->read_block_fib)
+        {
+            s->read_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..df4c6f4 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -99,8 +99,12 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->write_block_fib = NULL;
+         * blocked. Another fiber can have blocked on this socket since this
+         * fiber was scheduled to resume, so don't discard its registration. */
+        if (current_fib == s->write_block_fib)
+        {
+            s->write_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
-- 
2.43.0


From c5b64d775c35ed842cdb63af4a4e8667707812f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 37/44] fix: a vtable pointer at the end of the vtable section
 is not accepted

---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From 8139e215f4958084423933a9e1fa2c86330186ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 38/44] fix: resource_vtable_read sets the vtable to NULL on
 failure, as its contract says

---
 src/resource/resource_vtable_read.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resource/resource_vtable_read.c b/src/resource/resource_vtable_read.c
index d03daec..d1a46e0 100644
--- a/src/resource/resource_vtable_read.c
+++ b/src/resource/resource_vtable_read.c
@@ -37,6 +37,7 @@ RCPR_SYM(resource_vtable_read)(
     /* vtable runtime check. */
     if (!vtable_range_valid(r->vtable))
     {
+        *vtable = NULL;
         RCPR_VTABLE_CHECK_ERROR_GOTO_FAIL(done);
     }
 
-- 
2.43.0


From 91d0632eb581ec753ea271ea38f2144326424e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 39/44] fix: the methods of a user psock are checked when
 vtable enforcement is enabled, as documented

---
 src/psock/psock_create_from_user_methods.c | 48 ++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 15bdd87..f82697d 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -19,6 +19,7 @@ RCPR_IMPORT_allocator;
 RCPR_IMPORT_psock;
 RCPR_IMPORT_psock_internal;
 RCPR_IMPORT_resource;
+RCPR_IMPORT_vtable;
 
 /* forward decls. */
 RCPR_MODEL_STRUCT_TAG_GLOBAL_EXTERN(psock);
@@ -73,6 +74,8 @@ psock_vtable psock_from_user_methods_vtable = {
  *      - STATUS_SUCCESS on success.
  *      - ERROR_GENERAL_OUT_OF_MEMORY if this method failed due to an
  *        out-of-memory condition.
+ *      - ERROR_GENERAL_BAD_VTABLE if vtable enforcement is enabled and the
+ *        vtable is not an RCPR_VTABLE.
  *
  * \pre
  *      - \p sock must not reference a valid sock instance and must not be NULL.
@@ -102,6 +105,12 @@ RCPR_SYM(psock_create_from_user_methods)(
     /* on failure, the output pointer is NULL. */
     *sock = NULL;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
     /* attempt to allocate memory for this user psock. */
     psock_from_user_methods* ps = NULL;
     int retval = allocator_allocate(a, (void**)&ps, sizeof(*ps));
@@ -169,6 +178,12 @@ static status psock_from_user_methods_release(RCPR_SYM(resource)* r)
     /* cache user vtable. */
     const psock_vtable* vtable = ps->user_vtable;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR_GOTO_FAIL(reclaim);
+    }
+
     /* call release method if set. */
     if (NULL != vtable->release_fn)
     {
@@ -179,6 +194,9 @@ static status psock_from_user_methods_release(RCPR_SYM(resource)* r)
         }
     }
 
+    goto reclaim;
+
+reclaim:
     /* clear memory. */
     memset(ps, 0, sizeof(*ps));
 
@@ -212,6 +230,12 @@ static status psock_from_user_methods_read(
     (void)ctx;
     psock_from_user_methods* ps = (psock_from_user_methods*)sock;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(ps->user_vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
     return ps->user_vtable->read_fn(sock, ps->hdr.context, data, size, block);
 }
 
@@ -234,6 +258,12 @@ static status psock_from_user_methods_write(
     (void)ctx;
     psock_from_user_methods* ps = (psock_from_user_methods*)sock;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(ps->user_vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
     return ps->user_vtable->write_fn(sock, ps->hdr.context, data, size);
 }
 
@@ -259,6 +289,12 @@ static status psock_from_user_methods_accept(
     (void)ctx;
     psock_from_user_methods* ps = (psock_from_user_methods*)sock;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(ps->user_vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
     /* does this user method exist? */
     if (NULL == ps->user_vtable->accept_fn)
     {
@@ -287,6 +323,12 @@ static status psock_from_user_methods_sendmsg(
     (void)ctx;
     psock_from_user_methods* ps = (psock_from_user_methods*)sock;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(ps->user_vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
     /* does this user method exist? */
     if (NULL == ps->user_vtable->sendmsg_fn)
     {
@@ -315,6 +357,12 @@ static status psock_from_user_methods_recvmsg(
     (void)ctx;
     psock_from_user_methods* ps = (psock_from_user_methods*)sock;
 
+    /* vtable runtime check. */
+    if (!vtable_range_valid(ps->user_vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
     /* does this user method exist? */
     if (NULL == ps->user_vtable->recvmsg_fn)
     {
-- 
2.43.0


From f8e75909ebc21f98744f68dbde77d8c95f2bbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 40/44] fix: forward setsockopt to the user's method in
 user-method psocks

---
 src/psock/psock_create_from_user_methods.c | 44 +++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index f82697d..5872215 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -35,6 +35,9 @@ static status psock_from_user_methods_sendmsg(
     psock* sock, void* ctx, const struct msghdr* msg, int flags);
 static status psock_from_user_methods_recvmsg(
     psock* sock, void* ctx, struct msghdr* msg, size_t* len, int flags);
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len);
 
 /* the vtable entry for the psock from user methods instance. */
 RCPR_VTABLE
@@ -45,7 +48,7 @@ psock_vtable psock_from_user_methods_vtable = {
     .accept_fn = &psock_from_user_methods_accept,
     .sendmsg_fn = &psock_from_user_methods_sendmsg,
     .recvmsg_fn = &psock_from_user_methods_recvmsg,
-    .setsockopt_fn = NULL,
+    .setsockopt_fn = &psock_from_user_methods_setsockopt,
     .release_fn = NULL,
 };
 
@@ -371,3 +374,42 @@ static status psock_from_user_methods_recvmsg(
 
     return ps->user_vtable->recvmsg_fn(sock, ps->hdr.context, msg, len, flags);
 }
+
+/**
+ * \brief Set a socket option in the \ref psock instance.
+ *
+ * \param sock          The \ref psock instance for this operation.
+ * \param ctx           User context.
+ * \param level         The protocol level at which the option resides.
+ * \param option_name   The option to set.
+ * \param option_value  The value to which this option is set.
+ * \param option_len    The length of this option in bytes.
+ *
+ * \returns a status code indicating success or failure.
+ *      - STATUS_SUCCESS on success.
+ *      - an error code indicating a specific failure condition.
+ */
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len)
+{
+    (void)ctx;
+    psock_from_user_methods* ps = (psock_from_user_methods*)sock;
+
+    /* vtable runtime check. */
+    if (!vtable_range_valid(ps->user_vtable))
+    {
+        RCPR_VTABLE_CHECK_ERROR();
+    }
+
+    /* does this user method exist? */
+    if (NULL == ps->user_vtable->setsockopt_fn)
+    {
+        return ERROR_PSOCK_METHOD_UNDEFINED;
+    }
+
+    return
+        ps->user_vtable->setsockopt_fn(
+            sock, ps->hdr.context, level, option_name, option_value,
+            option_len);
+}
-- 
2.43.0


From c958ed4aff7fa82f5ea2bd9f2e4f3faf6926c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 41/44] fix: list and slist pops report a failing node release

---
 src/list/list_pop.c             | 11 +++++++----
 src/slist/slist_node_next_pop.c | 11 +++++++----
 src/slist/slist_pop.c           | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..5992db1 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,14 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..649bcf0 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,14 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..f1c773d 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,14 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From ebe2e67fc2873e91525b310d23a13d253488786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 42/44] fix: rbtree_delete and rbtree_delete_node set the
 output to NULL on failure

---
 src/rbtree/rbtree_delete.c      | 21 ++++++++-------------
 src/rbtree/rbtree_delete_node.c | 29 ++++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/rbtree/rbtree_delete.c b/src/rbtree/rbtree_delete.c
index bf9fd8e..daeda5b 100644
--- a/src/rbtree/rbtree_delete.c
+++ b/src/rbtree/rbtree_delete.c
@@ -62,20 +62,15 @@ RCPR_SYM(rbtree_delete)(
     retval = rbtree_find_node(tree, key, &node);
     if (STATUS_SUCCESS != retval)
     {
-        return retval;
-    }
-
-    /* if the node is found, then remove it from the tree. */
-    rbtree_remove_node(tree, node);
+        /* on failure, *r is set to NULL. */
+        if (NULL != r)
+        {
+            *r = NULL;
+        }
 
-    /* if the resource pointer pointer is set, then transfer ownership. */
-    if (NULL != r)
-    {
-        *r = node->value;
-        node->value = NULL;
+        return retval;
     }
 
-    /* clean up the node, returning the cleanup status to the caller. */
-    return
-        resource_release(rbtree_node_resource_handle(node));
+    /* if the node is found, then delete it. */
+    return rbtree_delete_node(r, tree, node);
 }
diff --git a/src/rbtree/rbtree_delete_node.c b/src/rbtree/rbtree_delete_node.c
index 8889315..996df3d 100644
--- a/src/rbtree/rbtree_delete_node.c
+++ b/src/rbtree/rbtree_delete_node.c
@@ -55,6 +55,8 @@ RCPR_SYM(rbtree_delete_node)(
     RCPR_SYM(resource)** r, RCPR_SYM(rbtree)* tree,
     RCPR_SYM(rbtree_node)* node)
 {
+    status retval;
+
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(tree));
 
@@ -68,7 +70,28 @@ RCPR_SYM(rbtree_delete_node)(
         node->value = NULL;
     }
 
-    /* clean up the node, returning the cleanup status to the caller. */
-    return
-        resource_release(rbtree_node_resource_handle(node));
+    /* clean up the node. */
+    retval = resource_release(rbtree_node_resource_handle(node));
+    if (STATUS_SUCCESS != retval && NULL != r)
+    {
+        /* save the cleanup resource value. */
+        resource* cleanup_resource = *r;
+
+        /* on failure, *r is set to NULL. */
+        *r = NULL;
+
+        /* clean up the resource, if possible. */
+        if (NULL != cleanup_resource)
+        {
+            status cleanup_retval = resource_release(cleanup_resource);
+            if (STATUS_SUCCESS != cleanup_retval)
+            {
+                /* bubble up the error for the resource release first. */
+                return cleanup_retval;
+            }
+        }
+    }
+
+    /* return the cleanup status to the caller. */
+    return retval;
 }
-- 
2.43.0


From 819146668b3041d8d701aba9f98e244f7ce57fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 43/44] fix: thread_mutex_lock_acquire sets the lock to NULL on
 failure

---
 src/platform/pthread/thread/thread_mutex_lock_acquire.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/pthread/thread/thread_mutex_lock_acquire.c b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
index cacf671..8c5e75c 100644
--- a/src/platform/pthread/thread/thread_mutex_lock_acquire.c
+++ b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
@@ -63,6 +63,7 @@ RCPR_SYM(thread_mutex_lock_acquire)(
     retval = pthread_mutex_lock(&mut->mutex);
     if (STATUS_SUCCESS != retval)
     {
+        *lock = NULL;
         return ERROR_THREAD_MUTEX_LOCK;
     }
 
-- 
2.43.0


From a0abaa7d40b676f8761f80f787276df23674155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 44/44] fix: return a stack's own memory even when unmapping it
 fails

stack_release returned ERROR_STACK_UNMAP without reclaiming the stack
structure; its handle is gone by then, so the memory was lost.
---
 src/stack/stack_create.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/stack/stack_create.c b/src/stack/stack_create.c
index f007628..33ac74e 100644
--- a/src/stack/stack_create.c
+++ b/src/stack/stack_create.c
@@ -154,7 +154,7 @@ done:
  */
 static status stack_release(resource* r)
 {
-    status retval;
+    status unmap_retval, reclaim_retval;
     stack* st = (stack*)r;
     RCPR_MODEL_ASSERT(prop_stack_valid(st));
 
@@ -162,15 +162,21 @@ static status stack_release(resource* r)
     allocator* a = st->alloc;
 
     /* unmap the stack. */
-    retval = munmap(st->region, st->size);
-    if (retval < 0)
+    unmap_retval = STATUS_SUCCESS;
+    if (munmap(st->region, st->size) < 0)
     {
-        return ERROR_STACK_UNMAP;
+        unmap_retval = ERROR_STACK_UNMAP;
     }
 
     /* clear the stack structure. */
     RCPR_MODEL_EXEMPT(memset(st, 0, sizeof(stack)));
 
-    /* reclaim the stack structure. */
-    return allocator_reclaim(a, st);
+    /* reclaim the stack structure, even if the unmap failed. */
+    reclaim_retval = allocator_reclaim(a, st);
+    if (STATUS_SUCCESS != reclaim_retval)
+    {
+        return reclaim_retval;
+    }
+
+    return unmap_retval;
 }
-- 
2.43.0

