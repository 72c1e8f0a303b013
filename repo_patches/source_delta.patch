From 81892a66641fb9bc54c9b188f0834a66116becbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:49 +0000
Subject: [PATCH 01/26] fix: keep a mutex that was handed to a waiter that is
 timing out

neco_mutex_unlock hands the lock to the first waiter. When the deadline of
that waiter passed, or it was canceled, before it had a chance to run, the
waiter returned an error and nobody owned the locked mutex any more.
---
 neco.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 47dc2fe..f70d871 100644
--- a/neco.c
+++ b/neco.c
@@ -3340,6 +3340,7 @@ struct coroutine {
     struct cleanup *cleanup;      // cancelation cleanup stack
 
     bool rlocked;
+    bool granted;                 // wait was completed by another coroutine
     bool suspended;
 
     int64_t pool_ts;              // timestamp when added to a pool
@@ -4615,6 +4616,19 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkwait returns the result of an operation that was waiting on another
+// coroutine. When that coroutine has already completed the operation then it
+// did succeed, even if in the meantime the deadline was reached or a cancel
+// request has arrived. In that case the cancel is left pending.
+static int checkwait(struct coroutine *co) {
+    if (co->granted) {
+        co->granted = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -7186,13 +7200,14 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     bool rlocked, int64_t deadline)
 {
     co->rlocked = rlocked;
+    co->granted = false;
     colist_push_back(&mu->queue, co);
     rt->nlocked++;
     copause(deadline);
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7262,6 +7277,8 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     // Choose next coroutine to take the lock.
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
+        // The lock now belongs to this coroutine.
+        co->granted = true;
         // Schedule the coroutines to resume.
         sched_resume(co);
         if (co->rlocked) {
-- 
2.43.0


From b7045a868af6b30e2aa46648e6ab125504e45477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:32 +0000
Subject: [PATCH 02/26] fix: do not lose a message that was exchanged with a
 peer that is timing out

A message copied to a waiting receiver, or taken from a waiting sender, was
reported as timed out (or canceled) to that peer when its deadline passed
before it had a chance to run, while the other side was told NECO_OK.
---
 neco.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index f70d871..baf654f 100644
--- a/neco.c
+++ b/neco.c
@@ -6003,6 +6003,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
         }
+        recv->granted = true;
         if (!broadcast) {
             // Resume receiver immediately.
             sco_resume(recv->id);
@@ -6029,6 +6030,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     colist_push_back(&chan->queue, co);
     chan->qrecv = false;
     co->cmsg = data;
+    co->granted = false;
 
     // Wait for a receiver to consume this message.
     rt->nsenders++;
@@ -6037,7 +6039,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6100,6 +6102,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
             cbuf_push(chan, send->cmsg);
+            send->granted = true;
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
@@ -6121,6 +6124,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
+        send->granted = true;
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
         {
@@ -6142,6 +6146,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     co->cmsg = data;
     // Set the channel closed flag that *may* be changed by the sender.
     co->cclosed = false;
+    co->granted = false;
     // Wait for a sender.
     rt->nreceivers++;
     copause(deadline);
@@ -6149,7 +6154,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6238,6 +6243,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        recv->granted = true;
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6303,6 +6309,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     }
 
     // Wait for a sender to wake us up
+    co->granted = false;
     rt->nreceivers++;
     copause(deadline);
     rt->nreceivers--;
@@ -6311,7 +6318,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
-- 
2.43.0


From d42f08426d3965d002b0680922a63758c104b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:33 +0000
Subject: [PATCH 03/26] fix: close the receiving side when the last waiting
 sender gives up

A channel closed while senders are waiting stays open for receiving until
their messages are consumed. When the last of those senders timed out or was
canceled instead, receivers blocked forever on the closed channel.
---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index baf654f..1b08e60 100644
--- a/neco.c
+++ b/neco.c
@@ -6039,7 +6039,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkwait(co);
+    int ret = checkwait(co);
+    if (ret != NECO_OK && chan->sclosed && colist_is_empty(&chan->queue) &&
+        chan->buflen == 0)
+    {
+        // The channel was closed while waiting, and this was the last message.
+        // Close the receiving side too
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0


From be357a96046290f923f1093439276f4cc25957c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:39 +0000
Subject: [PATCH 04/26] fix: integer overflow in the channel ring buffer
 offsets

The offset of a slot was computed with int arithmetic, which overflows for
ring buffers larger than 2 GB, and so did the position of the next slot for
capacities over INT_MAX/2.
---
 neco.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neco.c b/neco.c
index 1b08e60..3202859 100644
--- a/neco.c
+++ b/neco.c
@@ -5762,14 +5762,14 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
 static void cbuf_push(struct neco_chan *chan, void *data) {
-    int pos = chan->bufpos + chan->buflen;
-    if (pos >= chan->bufcap) {
-        pos -= chan->bufcap;
+    int pos = chan->bufpos - (chan->bufcap - chan->buflen);
+    if (pos < 0) {
+        pos += chan->bufcap;
     }
     if (chan->msgsize > 0) {
         memcpy(cbufslot(chan, pos), data, (size_t)chan->msgsize);
-- 
2.43.0


From 2750277733ea816692f12acb22083c98ddcaaf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:40 +0000
Subject: [PATCH 05/26] fix: lost wakeup in neco_cond_wait

The wait yielded to the next owner of the mutex after unlocking it and before
joining the queue of the condition, so a signal from that owner was missed.
---
 neco.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index 3202859..eb5b0c6 100644
--- a/neco.c
+++ b/neco.c
@@ -7272,22 +7272,24 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// Unlock the mutex and schedule the coroutines that take the lock next.
+// Returns true if there are any, but does not yield to them.
+static bool mutex_handoff(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7307,7 +7309,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_handoff(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7635,7 +7643,9 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
+    // Do not yield between unlocking the mutex and waiting. Otherwise a signal
+    // from the coroutine that takes the lock next is missed.
+    mutex_handoff(mu);
     // The coroutine was added to the deadliner queue. We can safely
     // yield and wait to be woken at some point in the future.
     colist_push_back(&cvar->queue, co);
-- 
2.43.0


From 2f8d846d9d9d33a2e807745ebc86c7d013090319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:22 +0000
Subject: [PATCH 06/26] fix: neco_cond_wait loses a signal or a cancel that
 races with its end

A signal given to a waiter whose deadline had just passed was lost, because the
waiter returned NECO_TIMEDOUT. A cancel that arrived while the wait was taking
back the mutex was swallowed or, with async cancelation, ended the coroutine
without the mutex being locked.
---
 neco.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index eb5b0c6..c6074de 100644
--- a/neco.c
+++ b/neco.c
@@ -7595,6 +7595,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        co->granted = true;
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7614,6 +7615,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        co->granted = true;
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7648,14 +7650,21 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     mutex_handoff(mu);
     // The coroutine was added to the deadliner queue. We can safely
     // yield and wait to be woken at some point in the future.
+    co->granted = false;
     colist_push_back(&cvar->queue, co);
     rt->ncondwaiters++;
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
-    // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    ret = checkwait(co);
+    // Must relock. A cancel that arrives in the meantime is left pending.
+    bool canceled = false;
+    while (mutex_lock_dl(co, mu, INT64_MAX) != NECO_OK) {
+        canceled = true;
+    }
+    if (canceled) {
+        co->canceled = true;
+    }
     return ret;
 }
 
-- 
2.43.0


From 6609b3104cc4336f5adeed5e1fbbcb745aad12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:24 +0000
Subject: [PATCH 07/26] fix: a new coroutine inherits state of the coroutine
 that used its slot

A coroutine taken from the pool started with the pending cancel, the last
started id and the watched signals of the previous one. Also an exited
coroutine kept its signals watched forever.
---
 neco.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/neco.c b/neco.c
index c6074de..444dcab 100644
--- a/neco.c
+++ b/neco.c
@@ -3856,6 +3856,12 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    // Coroutines from the pool keep the state of the previous run.
+    co->canceled = false;
+    co->deadlined = false;
+    co->lastid = 0;
+    co->cleanup = NULL;
+    co->sigwatch = 0;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -7777,6 +7783,14 @@ static void coexit(bool async) {
     // Delete from map 
     comap_delete(&rt->all, co);
 
+    // Stop watching signals
+    for (int signo = 1; signo < 32; signo++) {
+        if (co->sigwatch & (UINT32_C(1) << signo)) {
+            rt->sigwatchers[signo]--;
+        }
+    }
+    co->sigwatch = 0;
+
     // Notify all cancel waiters (if any)
     bool sched = false;
     struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
-- 
2.43.0


From 7c125a212772f547e39d6ed096d5fea7956a9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:24 +0000
Subject: [PATCH 08/26] fix: a canceled coroutine that is exiting exits twice

The yield to the joiners at the end of an exit noticed a pending async cancel
and ran the exit once more, which removed the coroutine from the map twice.
---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index 444dcab..444d9bb 100644
--- a/neco.c
+++ b/neco.c
@@ -7783,6 +7783,9 @@ static void coexit(bool async) {
     // Delete from map 
     comap_delete(&rt->all, co);
 
+    // The coroutine can no longer be canceled.
+    co->canceled = false;
+
     // Stop watching signals
     for (int signo = 1; signo < 32; signo++) {
         if (co->sigwatch & (UINT32_C(1) << signo)) {
-- 
2.43.0


From 58a8079fa78aa648ae729639323e90c80e041e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:26 +0000
Subject: [PATCH 09/26] fix: neco_waitgroup_add overflows, and does not wake
 waiters at zero

A negative delta that brings the counter to zero left the waiters blocked
forever, and a large delta overflowed the counter.
---
 neco.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/neco.c b/neco.c
index 444d9bb..8959a43 100644
--- a/neco.c
+++ b/neco.c
@@ -7426,17 +7426,39 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Wake up all of the waiters
+static void waitgroup_wake(struct neco_waitgroup *wg) {
+    struct coroutine *co = colist_pop_front(&wg->queue);
+    if (colist_is_empty(&wg->queue)) {
+        // Only one waiter. Do a quick switch.
+        sco_resume(co->id);
+    } else {
+        // Many waiters. Batch them together.
+        do {
+            sched_resume(co);
+            co = colist_pop_front(&wg->queue);  
+        } while (co);
+        yield_for_sched_resume();
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
     if (ret != NECO_OK) {
         return ret;
     }
+    if (delta > INT_MAX - wg->count) {
+        return NECO_INVAL;
+    }
     int waiters = wg->count + delta;
     if (waiters < 0) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
+        waitgroup_wake(wg);
+    }
     return NECO_OK;
 }
 
@@ -7458,18 +7480,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
     }
     wg->count--;
     if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
+        waitgroup_wake(wg);
     }
     return NECO_OK;
 }
-- 
2.43.0


From 8aaaf9cb0fc56969ffe02879317293b8dea53e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:55 +0000
Subject: [PATCH 10/26] fix: canceling a coroutine releases it from a running
 background operation

A cancel resumed a coroutine that was waiting on neco_work, or on a write that
was given to a worker, while the thread was still using its stack.
---
 neco.c | 58 ++++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/neco.c b/neco.c
index 8959a43..a856198 100644
--- a/neco.c
+++ b/neco.c
@@ -5043,6 +5043,37 @@ static void cowait(int fd, enum evkind kind, int64_t deadline) {
 // Networking code
 ////////////////////////////////////////////////////////////////////////////////
 
+#ifndef NECO_NOWORKERS
+// iodone is called from a background thread when it's finished with the
+// operation of the provided coroutine.
+static void iodone(struct runtime *rt, struct coroutine *co, bool *done) {
+    pthread_mutex_lock(&rt->iomu);
+    *done = true;
+    colist_push_back(&rt->iolist, co);
+    pthread_mutex_unlock(&rt->iomu);
+}
+
+// iowait pauses the current coroutine until the background thread has called
+// iodone. The thread is using the stack of this coroutine, thus the coroutine
+// must continue to wait when it's resumed early by a cancel.
+static void iowait(struct coroutine *co, bool *done) {
+    rt->niowaiters++;
+    while (1) {
+        sco_pause();
+        pthread_mutex_lock(&rt->iomu);
+        bool ok = *done;
+        if (ok) {
+            remove_from_list(co);
+        }
+        pthread_mutex_unlock(&rt->iomu);
+        if (ok) {
+            break;
+        }
+    }
+    rt->niowaiters--;
+}
+#endif
+
 #if !defined(NECO_NOWORKERS) && defined(NECO_USEREADWORKERS) && \
     !defined(NECO_NOREADWORKERS)
 
@@ -5053,6 +5084,7 @@ struct ioread {
     ssize_t res;
     struct runtime *rt;
     struct coroutine *co;
+    bool done;
 } aligned16;
 
 static void ioread(void *udata) {
@@ -5061,9 +5093,7 @@ static void ioread(void *udata) {
     if (info->res == -1) {
         info->res = -errno;
     }
-    pthread_mutex_lock(&info->rt->iomu);
-    colist_push_back(&info->rt->iolist, info->co);
-    pthread_mutex_unlock(&info->rt->iomu);
+    iodone(info->rt, info->co, &info->done);
 }
 
 static ssize_t read1(int fd, void *data, size_t nbytes) {
@@ -5089,9 +5119,7 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         };
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
-            rt->niowaiters++;
-            sco_pause();
-            rt->niowaiters--;
+            iowait(co, &info.done);
             n = info.res;
             if (n < 0) {
                 errno = -n;
@@ -5215,6 +5243,7 @@ struct iowrite {
     ssize_t res;
     struct runtime *rt;
     struct coroutine *co;
+    bool done;
 } aligned16;
 
 static void iowrite(void *udata) {
@@ -5223,9 +5252,7 @@ static void iowrite(void *udata) {
     if (info->res == -1) {
         info->res = -errno;
     }
-    pthread_mutex_lock(&info->rt->iomu);
-    colist_push_back(&info->rt->iolist, info->co);
-    pthread_mutex_unlock(&info->rt->iomu);
+    iodone(info->rt, info->co, &info->done);
 }
 
 static ssize_t write3(int fd, const void *data, size_t nbytes) {
@@ -5251,9 +5278,7 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         };
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
-            rt->niowaiters++;
-            sco_pause();
-            rt->niowaiters--;
+            iowait(co, &info.done);
             n = info.res;
             if (n < 0) {
                 errno = -n;
@@ -8780,14 +8805,13 @@ struct iowork {
     void *udata;
     struct coroutine *co;
     struct runtime *rt;
+    bool done;
 };
 
 static void iowork(void *udata) {
     struct iowork *info = udata;
     info->work(info->udata);
-    pthread_mutex_lock(&info->rt->iomu);
-    colist_push_back(&info->rt->iolist, info->co);
-    pthread_mutex_unlock(&info->rt->iomu);
+    iodone(info->rt, info->co, &info->done);
 }
 #endif
 
@@ -8806,12 +8830,10 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
 #else
     // Run in background
     struct iowork info = { .work = work, .udata = udata, .co = co, .rt = rt };
-    rt->niowaiters++;
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
-    rt->niowaiters--;
+    iowait(co, &info.done);
 #endif
     return NECO_OK;
 }
-- 
2.43.0


From 8490a27af9a8ade46d35e386e4a2fca7f8517ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 11/26] fix: coroutines waiting on a file are not woken by a
 hangup or error

Linux reports the end of a pipe as EPOLLHUP, without EPOLLIN. The event was
dropped and, being one-shot, never reported again.
---
 neco.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neco.c b/neco.c
index a856198..489a807 100644
--- a/neco.c
+++ b/neco.c
@@ -4108,6 +4108,11 @@ static void rt_sched_event_step(int64_t timeout) {
         int fd = evs[i].data.fd;
         bool read = evs[i].events & EPOLLIN;
         bool write = evs[i].events & EPOLLOUT;
+        if (evs[i].events & (EPOLLERR | EPOLLHUP)) {
+            // The next operation on the file will not block, no matter which.
+            read = true;
+            write = true;
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 874acc4ac4630f809b6f6893b210b4f0f4f1fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:01 +0000
Subject: [PATCH 12/26] fix: a read event on a file disarms the coroutines
 waiting to write to it

And the other way around. With EPOLLONESHOT the whole file is disarmed when
one of its events is reported, so the other kind has to be armed again.
---
 neco.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/neco.c b/neco.c
index 489a807..058c01c 100644
--- a/neco.c
+++ b/neco.c
@@ -4113,6 +4113,17 @@ static void rt_sched_event_step(int64_t timeout) {
             read = true;
             write = true;
         }
+        // The one-shot event has also disarmed the kind that was not reported.
+        if (!read || !write) {
+            enum evkind other = read ? EVWRITE : EVREAD;
+            if (evexists(fd, other)) {
+                struct epoll_event ev = { 0 };
+                ev.data.fd = fd;
+                ev.events = other == EVREAD ? EPOLLIN : EPOLLOUT;
+                ev.events |= EPOLLONESHOT;
+                epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+            }
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 2dcf2c941aee5f3aee9224ef60584c1f342bdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:29 +0000
Subject: [PATCH 13/26] fix: a pending signal that nobody waits for holds back
 all others

Only the first pending signal was looked at. Also a signal given to a waiter
whose deadline had just passed was lost.
---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 058c01c..2ad9a97 100644
--- a/neco.c
+++ b/neco.c
@@ -4066,6 +4066,8 @@ static void rt_sched_signal_step(void) {
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
+                    co->granted = true;
+                    remove_from_list(co);
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
@@ -4076,7 +4078,6 @@ static void rt_sched_signal_step(void) {
                 co = next;
             }
         }
-        break;
     }
 }
 
@@ -4814,6 +4815,7 @@ static int signal_wait_dl(int64_t deadline) {
         return NECO_CANCELED;
     }
     co->sigmask = co->sigwatch;
+    co->granted = false;
     colist_push_back(&rt->sigwaiters, co);
     rt->nsigwaiters++;
     copause(deadline);
@@ -4821,7 +4823,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     return ret == NECO_OK ? signo : ret;
 }
 
-- 
2.43.0


From 6738eefb1707e43c7725d9e77fcccd784a955509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:52 +0000
Subject: [PATCH 14/26] fix: neco_lasterr is stale after a refused mutex
 operation

---
 neco.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/neco.c b/neco.c
index 2ad9a97..924b2de 100644
--- a/neco.c
+++ b/neco.c
@@ -7239,10 +7239,9 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_trylock(co, mu, true, 0);
     }
-    ret = mutex_trylock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7251,10 +7250,9 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, true, 0);
     }
-    ret = mutex_tryrdlock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7289,10 +7287,9 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_lock_dl(co, mu, deadline);
     }
-    ret = mutex_lock_dl(co, mu, deadline);
     async_error_guard(ret);
     return ret;
 }
@@ -7305,10 +7302,9 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, false, deadline);
     }
-    ret = mutex_tryrdlock(co, mu, false, deadline);
     if (ret == NECO_BUSY) {
         // Another coroutine is holding this lock.
         ret = finish_lock(co, mu, true, deadline);
-- 
2.43.0


From f55905a3f5e2c306de3e4cdce82f69b8d960702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:39 +0000
Subject: [PATCH 15/26] fix: a short neco_sleep reports a timeout instead of
 sleeping

---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 924b2de..959e2ba 100644
--- a/neco.c
+++ b/neco.c
@@ -4567,7 +4567,10 @@ int neco_sleep_dl(int64_t deadline) {
 /// @return NECO_PERM Operation called outside of a coroutine
 /// @see neco_sleep_dl()
 int neco_sleep(int64_t nanosecs) {
-    return neco_sleep_dl(i64_add_clamp(getnow(), nanosecs));
+    int ret = !rt ? NECO_PERM : nanosecs < 0 ? NECO_TIMEDOUT :
+        sleep0(i64_add_clamp(getnow(), nanosecs));
+    async_error_guard(ret);
+    return ret;
 }
 
 static int64_t getid(void) {
-- 
2.43.0


From 1c5148e7b6952c5fe74bf3d9e2d00613fc64b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:03 +0000
Subject: [PATCH 16/26] fix: neco_cancel is not woken when its target enables
 cancelation

---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 959e2ba..d284c67 100644
--- a/neco.c
+++ b/neco.c
@@ -7776,6 +7776,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Wake the coroutines that are waiting to cancel this one.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From 8e9966bce292512c3bd4bc93d8a9b5c5c3f902af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:21 +0000
Subject: [PATCH 17/26] fix: neco_cancel_dl leaves a passed deadline behind
 when the target is gone

When the target terminated while the canceler was waiting, and the deadline
of the canceler was reached too, NECO_NOTFOUND was returned with the
coroutine still marked as deadlined. The next operation, such as
neco_sleep(), then returned at once.
---
 neco.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neco.c b/neco.c
index d284c67..e03fe0f 100644
--- a/neco.c
+++ b/neco.c
@@ -4686,6 +4686,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
     while (1) {
         cotarg = cofind(id);
         if (!cotarg) {
+            // The deadline may have been reached while waiting
+            co->deadlined = false;
             return NECO_NOTFOUND;
         }
         int ret = checkdl(co, deadline);
-- 
2.43.0


From 82786964028642f5b448170e5f4644938c9e2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:05 +0000
Subject: [PATCH 18/26] fix: messages received by concurrent selects on one
 channel overwrite each other

The message for a waiting neco_chan_select() was stored in a slot of the
channel, until the coroutine runs and calls neco_chan_case(). When a second
coroutine selecting on the same channel received a message before that, both
got the second message and the first one was lost.
---
 neco.c | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index e03fe0f..15f41ee 100644
--- a/neco.c
+++ b/neco.c
@@ -6410,24 +6410,57 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
     }
     struct coroutine *co = coself();
     int ret_idx = -1;
+    bool ok = false;
+    int msgsize = 0;
 
     // Copy the select-case arguments into the array.
     for (int i = 0; i < ncases; i++) {
         struct neco_chan *chan;
         chan = args ? va_arg(*args, struct neco_chan*) : chans[i];
+        if (chan && chan->msgsize > msgsize) {
+            msgsize = chan->msgsize;
+        }
         cases[i] = (struct coselectcase){
             .chan = chan,
             .kind = SELECTCASE,
             .idx = i,
             .ret_idx = &ret_idx,
             .co = co,
-            .data = chan ? cbufslot(chan, chan->bufcap) : 0,
-            .ok = chan ? &chan->lok : 0,
+            .ok = &ok,
         };
         cases[i].next = (struct coroutine*)&cases[i];
         cases[i].prev = (struct coroutine*)&cases[i];
     }
-    int ret = chan_select(ncases, cases, &ret_idx, deadline, try);
+
+    // Receive the message into a private buffer. The slot of the channel is
+    // shared with the other coroutines that are selecting on that channel, and 
+    // these may receive a message before this coroutine runs again.
+    char stack_msg[128];
+    char *msg = stack_msg;
+    int ret = NECO_OK;
+    if (msgsize > (int)sizeof(stack_msg)) {
+        msg = malloc0((size_t)msgsize);
+        if (!msg) {
+            ret = NECO_NOMEM;
+        }
+    }
+    if (ret == NECO_OK) {
+        for (int i = 0; i < ncases; i++) {
+            cases[i].data = msg;
+        }
+        ret = chan_select(ncases, cases, &ret_idx, deadline, try);
+    }
+    if (ret >= 0) {
+        // Move the message to the slot, for neco_chan_case()
+        struct neco_chan *chan = cases[ret].chan;
+        chan->lok = ok;
+        if (ok && chan->msgsize > 0) {
+            memcpy(cbufslot(chan, chan->bufcap), msg, (size_t)chan->msgsize);
+        }
+    }
+    if (msg != stack_msg) {
+        free0(msg);
+    }
     if (must_free) {
         free0(cases);
     }
-- 
2.43.0


From 4e6822861209602641c923d36db4d050a833d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 19/26] fix: a clean-up handler that waits is cut short by the
 cancelation

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 15f41ee..0ea3cc3 100644
--- a/neco.c
+++ b/neco.c
@@ -7870,7 +7870,9 @@ static void coexit(bool async) {
     struct coroutine *co = coself();
 
     if (async) {
-        // Run the cleanup stack
+        // Run the cleanup stack. A handler that waits cannot be canceled.
+        co->canceled = false;
+        co->cancelstate = NECO_CANCEL_DISABLE;
         while (co->cleanup) {
             cleanup_pop(1);
         }
-- 
2.43.0


From faf073612271ddf66d42d8c8925552cafc14d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:17 +0000
Subject: [PATCH 20/26] fix: the amount written is lost when a write times out
 half way

---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index 0ea3cc3..30cd7ce 100644
--- a/neco.c
+++ b/neco.c
@@ -5332,6 +5332,12 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
+            if (written > 0) {
+                // The caller must know about the data that has been written.
+                // A cancel request is left pending.
+                co->canceled = ret == NECO_CANCELED;
+                return written;
+            }
             return -1;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
-- 
2.43.0


From 8044baecd800e7fdda332fd971cf9f6147701340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:12 +0000
Subject: [PATCH 21/26] fix: stream operations lose a cancelation

---
 neco.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 30cd7ce..515ad0f 100644
--- a/neco.c
+++ b/neco.c
@@ -8259,6 +8259,9 @@ static ssize_t stream_readfull_dl(neco_stream *stream, void *data,
         if (n <= 0) {
             if (nread == 0) {
                 nread = n;
+            } else if (lasterr == NECO_CANCELED) {
+                // The data is returned and the cancel is left pending.
+                coself()->canceled = true;
             }
             return nread;
         } else {
@@ -8303,9 +8306,14 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
+        int ret = checkdl(coself(), deadline);
+        async_error_guard(ret);
+        if (ret != NECO_OK) {
+            return ret;
+        }
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
@@ -8406,6 +8414,9 @@ static ssize_t stream_write_dl(neco_stream *stream, const void *data,
             if (ret != NECO_OK) {
                 if (nwritten == 0) {
                     nwritten = ret;
+                } else if (ret == NECO_CANCELED) {
+                    // The cancel is left pending.
+                    coself()->canceled = true;
                 }
                 break;
             }
-- 
2.43.0


From a09714a429322c45bb48160d799a2ddd444a8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:19 +0000
Subject: [PATCH 22/26] fix: a connect in progress is given up with EALREADY

---
 neco.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 515ad0f..79d23c7 100644
--- a/neco.c
+++ b/neco.c
@@ -5556,6 +5556,13 @@ static int connect_dl(int fd, const struct sockaddr *addr, socklen_t addrlen,
                 // EAGAIN. 
                 errno = ECONNREFUSED;
                 break;
+            case EALREADY:
+                if (!inprog) {
+                    break;
+                }
+                // The connection that was started a moment ago is still in
+                // progress.
+                // fall through
             case EINPROGRESS:
                 // EINPROGRESS means the connection is in progress and may
                 // take a while. We are allowed to add this file descriptor
@@ -5565,7 +5572,10 @@ static int connect_dl(int fd, const struct sockaddr *addr, socklen_t addrlen,
                 inprog = true;
                 cowait(fd, EVWRITE, deadline);
                 continue;
-            case EINTR:  // Interrupted. Just try again.
+            case EINTR:  // Interrupted. The connection attempt is continued
+                         // asynchronously. Just try again.
+                inprog = true;
+                continue;
             case ENOMEM: // Mac OS can sometimes return ENOMEM (bug)
                 continue;
             }
-- 
2.43.0


From c3a4b84ad591edd2e7e8180d3bba45a02a753549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:17 +0000
Subject: [PATCH 23/26] fix: neco_lasterr is stale after a refused
 neco_gen_yield

---
 neco.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 79d23c7..ca65a06 100644
--- a/neco.c
+++ b/neco.c
@@ -8774,11 +8774,10 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    if (ret != NECO_OK) {
+        error_guard(ret);
+        return ret;
     }
     return neco_chan_send_dl((void*)co->gen, data, deadline);
 }
-- 
2.43.0


From 938b61fc46ffbdace1ee44775df9db94b99a0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:34 +0000
Subject: [PATCH 24/26] fix: work is queued although no thread could be created
 for it

---
 deps/worker.c | 5 ++++-
 neco.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..bd93a90 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // The thread was not created. Do not leave the entry behind.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index ca65a06..5a19fdc 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // The thread was not created. Do not leave the entry behind.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From 4459644bb8d1a5568f9cea6b5e7544313ca96ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:54 +0000
Subject: [PATCH 25/26] fix: NECO_EOF has no name in neco_shortstrerror and
 neco_strerror

neco_shortstrerror(NECO_EOF) returned "UNKNOWN" and neco_strerror(NECO_EOF)
"Undefined error: ...", although NECO_EOF is a documented error code.
---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 5a19fdc..b8c7079 100644
--- a/neco.c
+++ b/neco.c
@@ -5664,6 +5664,8 @@ const char *neco_shortstrerror(int code) {
         return "NECO_PERM";
     case NECO_NOMEM:
         return "NECO_NOMEM";
+    case NECO_EOF:
+        return "NECO_EOF";
     case NECO_NOTFOUND:
         return "NECO_NOTFOUND";
     case NECO_NOSIGWATCH:
@@ -5709,6 +5711,8 @@ const char *neco_strerror(ssize_t errcode) {
         return strerror(EPERM);
     case NECO_NOMEM:
         return strerror(ENOMEM);
+    case NECO_EOF:
+        return "End of file";
     case NECO_NOTFOUND:
         return "No such coroutine";
     case NECO_NOSIGWATCH:
-- 
2.43.0


From b39a8fa950bbed2baf78829891cca2df5994a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:54 +0000
Subject: [PATCH 26/26] fix: the program's alternate signal stack is left
 pointing at freed memory

The runtime replaced the thread's alternate signal stack by its own, freed
the latter at the end and did not put the previous one back, so that any
later signal delivered with SA_ONSTACK ran on freed memory.
---
 neco.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index b8c7079..760fded 100644
--- a/neco.c
+++ b/neco.c
@@ -3616,6 +3616,7 @@ struct runtime {
     int sigqueue[32];              // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
+    stack_t sigoldstack;           // previous signal stack, for restoring
 #endif
     char *sigstack;                // stack for signals
     int sigcrashed;
@@ -4010,7 +4011,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigoldstack) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4035,7 +4036,6 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
-    free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
@@ -4044,6 +4044,10 @@ static void rt_restore_signal_handlers(void) {
         int signo = TRAPPED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigoldstack, NULL) == 0);
+#endif
+    free0(rt->sigstack);
 #endif
 }
 
-- 
2.43.0

