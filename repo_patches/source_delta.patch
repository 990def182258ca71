From f58f5e0bd87887273c554f7141b2a7f372b8944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:32 +0000
Subject: [PATCH 01/16] fix: reject circular buffer sizes that overflow the
 allocation size

hev_circular_buffer_new() added the header size to max_size without
checking for wrap-around, so a huge capacity returned a buffer whose block
was only a few bytes long.
---
 src/lib/io/buffer/hev-circular-buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..bc58de7 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <stdint.h>
+
 #include "lib/misc/hev-compiler.h"
 #include "mem/api/hev-memory-allocator-api.h"
 
@@ -27,6 +29,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (max_size > SIZE_MAX - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From e8e2e7f704e704384829a5bcf6eee2302867c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:35 +0000
Subject: [PATCH 02/16] fix: make hev_calloc fail when the total size overflows

The product of count and size wrapped around, so a huge request returned a
block much smaller than asked for.
---
 src/mem/api/hev-memory-allocator-api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..3097e49 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -7,6 +7,7 @@
  ============================================================================
  */
 
+#include <stdint.h>
 #include <string.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -45,6 +46,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
+    if (size > SIZE_MAX / nmemb)
+        return NULL;
+
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
     data = hev_memory_allocator_alloc (allocator, size);
-- 
2.43.0


From bba01d9b57afd6665b5f7b22002fc464be4e1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:01 +0000
Subject: [PATCH 03/16] fix: keep the other waiters when the first timed wait
 on a condition expires

---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From 3f1bf326e33489696674c48596052fcafdb3115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:04 +0000
Subject: [PATCH 04/16] fix: report the address, control and flags results of
 recvmsg to the caller

---
 src/lib/io/socket/hev-task-io-socket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..b6f44a1 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -290,6 +290,12 @@ retry:
         goto retry;
     }
 
+    if (s >= 0) {
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = mh.msg_controllen;
+        msg->msg_flags = mh.msg_flags;
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
-- 
2.43.0


From 00449ddea0e1865776cacdf30af5558728071560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:40 +0000
Subject: [PATCH 05/16] fix: normalize timer expiry when nanoseconds reach
 exactly one second

---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From 704408349fadf91a625490b8e628d3496bc4cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:42 +0000
Subject: [PATCH 06/16] fix: do not wrap long sleeps given in milliseconds

---
 src/kern/task/hev-task.c       | 13 ++++++++++++-
 src/kern/time/hev-task-timer.c |  9 ++++-----
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..10e089e 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,18 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+    uint64_t microseconds;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    microseconds = (uint64_t)milliseconds * 1000;
+    microseconds = hev_task_timer_wait (ctx->timer, microseconds,
+                                        ctx->current_task);
+
+    return microseconds / 1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..4c88c27 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -89,9 +89,8 @@ hev_task_timer_get_time (const struct timespec *expire)
     return (sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 5088e16c8a6dc98787f542001b28514121b72f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:26 +0000
Subject: [PATCH 07/16] fix: wake the joining task when the joined one ends by
 hev_task_exit

---
 src/kern/task/hev-task.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 10e089e..e6b3429 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -198,6 +198,11 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *self = hev_task_self ();
+
+    if (self->joiner)
+        hev_task_wakeup (self->joiner);
+
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From 85a7bd9ec959d90455cb78b17fb3e90c4308160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:28 +0000
Subject: [PATCH 08/16] fix: forget the joining task once it has joined

---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index e6b3429..c5934ec 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -222,6 +222,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From 86e0882f7cc05f554226517473782d8cf7d16267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:53 +0000
Subject: [PATCH 09/16] fix: close the reactor's descriptor when it cannot be
 set up

---
 src/kern/io/hev-task-io-reactor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor.c b/src/kern/io/hev-task-io-reactor.c
index 8abf1d3..4f0d698 100644
--- a/src/kern/io/hev-task-io-reactor.c
+++ b/src/kern/io/hev-task-io-reactor.c
@@ -32,12 +32,14 @@ hev_task_io_reactor_new (void)
 
     flags = fcntl (self->fd, F_GETFD);
     if (flags < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
 
     flags |= FD_CLOEXEC;
     if (fcntl (self->fd, F_SETFD, flags) < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
-- 
2.43.0


From 0b1eb3ad6bd23483f155f969b0d40f52938250a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:53 +0000
Subject: [PATCH 10/16] fix: restore signal handlers and stack when the stack
 detector fails

A step that failed left the others in effect, with the alternate
signal stack inside the released block.
---
 src/lib/misc/hev-task-stack-detector.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..3049486 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -82,7 +82,6 @@ hev_task_stack_detector_new (void)
 {
     HevTaskStackDetector *self;
     struct sigaction sa;
-    int res = 0;
     stack_t ss;
 
     self = malloc (sizeof (HevTaskStackDetector));
@@ -97,14 +96,19 @@ hev_task_stack_detector_new (void)
     sa.sa_sigaction = signal_handler;
     sigemptyset (&sa.sa_mask);
 
-    res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
-    if (res < 0)
+    if (setaltstack (&ss, &self->oss) < 0)
         goto free;
+    if (sigaction (SIGBUS, &sa, &self->bus_sa) < 0)
+        goto restore_stack;
+    if (sigaction (SIGSEGV, &sa, &self->segv_sa) < 0)
+        goto restore_bus;
 
     return self;
 
+restore_bus:
+    sigaction (SIGBUS, &self->bus_sa, NULL);
+restore_stack:
+    setaltstack (&self->oss, NULL);
 free:
     free (self);
 exit:
-- 
2.43.0


From 789a2d9363d94346775b458fd3a86461e0377166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:53 +0000
Subject: [PATCH 11/16] fix: leave the thread as it was when the task system
 cannot be initialised

A failed or repeated initialisation replaced the default allocator of
the thread, and an error of pthread_setspecific (positive) was missed.
---
 src/kern/core/hev-task-system.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..d2366db 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -44,25 +44,24 @@ EXPORT_SYMBOL int
 hev_task_system_init (void)
 {
     HevMemoryAllocator *allocator = NULL;
+    HevMemoryAllocator *old_allocator;
     HevTaskSystemContext *context;
 
-#ifdef ENABLE_MEMALLOC_SLICE
-    allocator = hev_memory_allocator_slice_new ();
-#endif
-    allocator = hev_memory_allocator_set_default (allocator);
-    if (allocator)
-        hev_memory_allocator_unref (allocator);
-
     pthread_once (&key_once, pthread_key_creator);
 
     if (hev_task_system_get_context ())
         goto exit;
 
+#ifdef ENABLE_MEMALLOC_SLICE
+    allocator = hev_memory_allocator_slice_new ();
+#endif
+    old_allocator = hev_memory_allocator_set_default (allocator);
+
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto rest_allocator;
 
-    if (hev_task_system_set_context (context) < 0)
+    if (hev_task_system_set_context (context) != 0)
         goto free_context;
 
     context->reactor = hev_task_io_reactor_new ();
@@ -77,6 +76,9 @@ hev_task_system_init (void)
     if (!context->stack_detector)
         goto free_timer;
 
+    if (old_allocator)
+        hev_memory_allocator_unref (old_allocator);
+
     return 0;
 
 free_timer:
@@ -87,6 +89,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+rest_allocator:
+    allocator = hev_memory_allocator_set_default (old_allocator);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From 9a7135da64986770d863b077eb28bdcc6fa543df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:26 +0000
Subject: [PATCH 12/16] fix: keep the slice allocator from truncating huge
 sizes

A size of 2^38 bytes or more lost its upper bits when it was turned into a
class number, so a much smaller block was returned.  Reallocating to a size
whose rounding wraps around returned a block without any room.
---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..1016302 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -88,7 +88,7 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,7 +140,7 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
@@ -150,6 +150,8 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
+    if (!index)
+        return NULL;
 
     slice = realloc (slice, sizeof (HevMemorySlice) + size);
     if (!slice)
-- 
2.43.0


From 91d0c671edfe9b7b9d2f2c66476a481cedb1023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:31 +0000
Subject: [PATCH 13/16] fix: fail to create a channel that is too large instead
 of truncating its size

---
 src/kern/itc/hev-task-channel.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..60a736b 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,19 +28,28 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t data_size = 0;
+    size_t chan_size;
 
     buffers += 1;
-    if (buffers > 1)
-        data_size = size * buffers;
-    buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
+    if (!buffers)
+        goto err0;
+    if (buffers > 1 && __builtin_mul_overflow (size, buffers, &data_size))
+        goto err0;
+    if (__builtin_mul_overflow (sizeof (HevTaskChannelBuffer), buffers,
+                                &buffers_size))
+        goto err0;
+    if (__builtin_add_overflow (buffers_size, data_size, &chan_size))
+        goto err0;
+    if (__builtin_add_overflow (sizeof (HevTaskChannel), chan_size, &chan_size))
+        goto err0;
 
-    c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c1 = hev_malloc (chan_size);
     if (!c1)
         goto err0;
 
-    c2 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c2 = hev_malloc (chan_size);
     if (!c2)
         goto err1;
 
@@ -57,7 +66,7 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
     c2->ref_count = 1;
 
     if (buffers > 1) {
-        unsigned int i;
+        size_t i;
 
         for (i = 0; i < buffers; i++) {
             c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-- 
2.43.0


From 2fa8ea16bdc0ea86852d86896ee58c02e4c9876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:52 +0000
Subject: [PATCH 14/16] fix: keep the waiting tasks of a channel end apart and
 forget them when they go on

---
 src/kern/itc/hev-task-channel-private.h |  2 ++
 src/kern/itc/hev-task-channel.c         | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/kern/itc/hev-task-channel-private.h b/src/kern/itc/hev-task-channel-private.h
index 7ca6487..0243477 100644
--- a/src/kern/itc/hev-task-channel-private.h
+++ b/src/kern/itc/hev-task-channel-private.h
@@ -44,11 +44,13 @@ struct _HevTaskChannel
     {
         HevListNode node;
         int used;
+        HevTask *task;
     } read;
     struct
     {
         HevListNode node;
         int used;
+        HevTask *task;
     } write;
     HevListNode chan_node;
 
diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 60a736b..ef0ce4b 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -108,6 +108,10 @@ hev_task_channel_destroy (HevTaskChannel *self)
 {
     if (self->peer) {
         self->peer->peer = NULL;
+        if (self->peer->read.task)
+            hev_task_wakeup (self->peer->read.task);
+        if (self->peer->write.task)
+            hev_task_wakeup (self->peer->write.task);
         if (self->peer->task)
             hev_task_wakeup (self->peer->task);
     }
@@ -157,8 +161,9 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->read.task, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->read.task, NULL);
     }
 
     barrier ();
@@ -176,6 +181,8 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (peer) {
             if (peer->select)
                 hev_task_channel_select_add_write (peer->select, peer);
+            if (peer->write.task)
+                hev_task_wakeup (peer->write.task);
             if (peer->task)
                 hev_task_wakeup (peer->task);
         }
@@ -207,8 +214,9 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->write.task, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->write.task, NULL);
     }
 
     barrier ();
@@ -228,6 +236,8 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     if (peer->use_count == 0) {
         if (peer->select)
             hev_task_channel_select_add_read (peer->select, peer);
+        if (peer->read.task)
+            hev_task_wakeup (peer->read.task);
         if (peer->task)
             hev_task_wakeup (peer->task);
     }
@@ -244,8 +254,9 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->write.task, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->write.task, NULL);
     }
 
     barrier ();
-- 
2.43.0


From 0235d7fb1235453e61dc0a566292a352984ab68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:52 +0000
Subject: [PATCH 15/16] fix: report a channel as writable as soon as a buffer
 is free

---
 src/kern/itc/hev-task-channel.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index ef0ce4b..cead16e 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -178,17 +178,19 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
     if (self->use_count == self->max_count) {
         HevTaskChannel *peer = self->peer;
 
-        if (peer) {
-            if (peer->select)
-                hev_task_channel_select_add_write (peer->select, peer);
-            if (peer->write.task)
-                hev_task_wakeup (peer->write.task);
-            if (peer->task)
-                hev_task_wakeup (peer->task);
-        }
+        if (peer && peer->write.task)
+            hev_task_wakeup (peer->write.task);
     }
 
     self->use_count--;
+    if (hev_task_channel_is_select_writable (self)) {
+        HevTaskChannel *peer = self->peer;
+
+        if (peer && peer->select && !peer->write.used) {
+            hev_task_channel_select_add_write (peer->select, peer);
+            hev_task_wakeup (peer->task);
+        }
+    }
     if (self->select && !hev_task_channel_is_readable (self))
         hev_task_channel_select_del_read (self->select, self);
 
-- 
2.43.0


From 5cccc200429a336eb8e790b28948bb9bdcbb27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:57:39 +0000
Subject: [PATCH 16/16] fix: Skip empty vectors in buffered stream readv and
 writev

A vector of length zero before others made readv report the end of the
stream although bytes were available, and writev accept nothing.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..c6b197a 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -219,6 +219,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +252,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0

