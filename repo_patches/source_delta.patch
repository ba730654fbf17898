From dd25c3b75890e2aa4623fe426bcccbb77ecb5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 1/7] fix: list_insert_sorted() follows the next pointer

Inserting between two items walked through the prev pointer of the head,
which is NULL, and crashed.
---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From dc35d347aa8f96fbcb0fba153bcd522cf954366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 2/7] fix: rbtree_iter_init() initializes the stack of an empty
 tree's iterator

The stack pointer was left indeterminate when the tree had no root, so
rbtree_iter_free() and rbtree_iter_reuse() passed garbage to free()/realloc().
---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..f28800b 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -873,6 +873,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	assert(iter != NULL);
 
 	iter->tree = tree;
+	iter->stack = NULL;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
 	iter->finished = false;
-- 
2.43.0


From 3ffd9f34907f6bca2a236279c73227399612ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 3/7] fix: a finished rbtree iterator has no current element

The stack pointer was left below the first stack item, so
rbtree_iter_get_key() and rbtree_iter_get_value() read out of bounds
instead of returning NULL.
---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index f28800b..0e63b46 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -971,6 +971,7 @@ rbtree_iter_next(RBTreeIter *iter)
 
 			if(iter->sp < iter->stack)
 			{
+				iter->sp = NULL;
 				iter->finished = true;
 
 				return false;
-- 
2.43.0


From e7fbb3506ccb58a2263797ca4e7a930722b53c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 4/7] fix: buffer_fill_from_fd() reads into heap memory

The size of the variable length array was bounded by the maximum buffer
length only: large counts overflowed the stack, a count of zero was
undefined behaviour.
---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..89783ee 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From d95d7bbbe1e3d2793bdb6737a801069abd45361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 5/7] fix: async_queue_pop_timeout() blocks for the full
 timeout

The deadline was truncated to whole seconds, so a pop returned up to one
second early and timeouts of less than a second did not block at all.
---
 asyncqueue.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..6d26aee 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -150,7 +150,13 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 			gettimeofday(&now, NULL);
 
 			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
+			val.tv_nsec = (now.tv_usec + (ms % 1000) * 1000L) * 1000L;
+
+			if(val.tv_nsec >= 1000000000L)
+			{
+				++val.tv_sec;
+				val.tv_nsec -= 1000000000L;
+			}
 
 			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
 		}
-- 
2.43.0


From f85b65308908f570127b477db6864605e4ef2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 6/7] fix: async_queue_pop_timeout() does not block forever if
 ms is zero

A timeout of zero milliseconds was treated like "no timeout". Compute the
deadline when the operation starts and pass it down instead.
---
 asyncqueue.c | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 6d26aee..8c3219b 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -132,7 +132,7 @@ _async_queue_try_lock(AsyncQueue *queue)
 }
 
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,23 +142,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = (now.tv_usec + (ms % 1000) * 1000L) * 1000L;
-
-			if(val.tv_nsec >= 1000000000L)
-			{
-				++val.tv_sec;
-				val.tv_nsec -= 1000000000L;
-			}
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -176,7 +162,7 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 }
 
 static bool
-_async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
+_async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -185,7 +171,7 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 	if(_async_queue_try_lock(queue))
 	{
 		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
@@ -198,13 +184,29 @@ async_queue_pop(AsyncQueue *queue, void *data)
 {
 	assert(queue != NULL);
 
-	return _async_queue_pop(queue, data, 0);
+	return _async_queue_pop(queue, data, NULL);
 }
 
 bool
 async_queue_pop_timeout(AsyncQueue *queue, void *data, uint32_t ms)
 {
-	return _async_queue_pop(queue, data, ms);
+	assert(queue != NULL);
+
+	struct timespec val;
+	struct timeval now;
+
+	gettimeofday(&now, NULL);
+
+	val.tv_sec = now.tv_sec + (ms / 1000);
+	val.tv_nsec = (now.tv_usec + (ms % 1000) * 1000L) * 1000L;
+
+	if(val.tv_nsec >= 1000000000L)
+	{
+		++val.tv_sec;
+		val.tv_nsec -= 1000000000L;
+	}
+
+	return _async_queue_pop(queue, data, &val);
 }
 
 void
-- 
2.43.0


From fcd99d29bbed835c2c55ec4c5f7feafe0ce4887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 7/7] fix: a consumer keeps waiting if it wakes up without
 finding an item

A blocking pop returned false when the wakeup was spurious or when another
consumer was faster, a pop with timeout gave up before its time was over,
and an item pushed right before the timeout expired was left behind without
waking up another consumer.
---
 asyncqueue.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 8c3219b..b5e0c8f 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -170,8 +170,14 @@ _async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
+		bool waiting = true;
+
+		/* check the queue after each wakeup: another consumer may have taken the item, a wakeup
+		   may be spurious and an item may have been pushed right before the timeout expired */
+		while(!(success = queue_pop(&queue->queue, data)) && waiting)
+		{
+			waiting = _async_queue_cond_wait(queue, deadline);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0

